// Deterministic simulation runtime: one real thread runs at a time, and which one
// is decided by a seeded generator (or by a replayed list of decisions).
#pragma once
#include <stdint.h>
#include <stddef.h>

enum { DK_PREEMPT = 0, DK_BLOCKED = 1, DK_WAKE = 2, DK_SPURIOUS = 3, DK_FAULT = 4, DK_USER = 5, DK_CLOCK = 6, DK_GC = 7, DK_NKINDS = 8 };

typedef struct {
    uint64_t sched_seed, fault_seed, hash_seed;
    uint32_t policy;        // 0 random walk, 1 priorities (PCT), 2 starve one thread, 3 none (run to block)
    uint32_t preempt_inv;   // mean number of scheduling points between preemptions
    uint32_t pct_depth, pct_span;
    uint32_t spurious_inv;  // 1/n futex waits return spuriously (0 = never)
    uint32_t fault_inv;     // 1/n fault points fire (0 = never)
    uint32_t fault_mask;    // enabled fault kinds
    uint64_t max_points;    // progress bound
    uint32_t gc_inv;        // mean allocations between collections (0: never collect)
    uint32_t replay;        // 1: all decisions default except overrides
} sim_cfg;

typedef struct { uint32_t tid, kind; uint64_t n; int64_t v; } sim_decision;

typedef struct {
    uint64_t points, switches, preemptions, futex_waits, futex_wakes, spurious, clock_jumps, sim_ns, trace_hash;
    uint32_t threads, ndecisions, faults_fired;
    uint32_t fault_count[32];
    uint64_t gc_allocs, gc_runs, gc_freed;
} sim_stats;

enum { F_OPEN_EACCES = 0, F_OPEN_EMFILE, F_OPEN_EIO, F_READ_EIO, F_READ_SHORT, F_READ_EINTR, F_STAT_FAIL, F_OPEN_EINTR, F_STAT_ZERO, F_NKINDS };

void sim_begin(const sim_cfg *cfg, const sim_decision *ov, size_t nov, void (*on_stuck)(int why));
void sim_end(sim_stats *out);
const sim_decision *sim_decisions(size_t *n);
uint64_t sim_step(void);
uint32_t sim_tid(void);
int64_t sim_user_choice(int64_t n);
void sim_point(void);
const char *sim_output(size_t *n);
int sim_gc_threads(void);
void sim_fs_add(const char *path, const void *data, size_t len);
void sim_fs_reset(void);
// log of opens: for each, path index, and hard fault (0 none)
typedef struct { uint32_t file; int32_t hard; uint64_t delivered; } sim_openlog;
void sim_seed_hash(uint64_t h);
const sim_openlog *sim_opens(size_t *n);
