From e1c815ed35d4ce6000543418bf2b3cccff6c63dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:09 +0000
Subject: [PATCH 01/24] fix: report failures while starting a process and leave
 nothing behind

Errors of pipe2, dup2 and fdopen are reported instead of ignored or aborted on,
interrupted calls are retried, a child that could not be executed is reaped and
exits without flushing the buffers it shares with its parent.
---
 rt/rt.c | 151 +++++++++++++++++++++++++++++++-------------------------
 1 file changed, 85 insertions(+), 66 deletions(-)

diff --git a/rt/rt.c b/rt/rt.c
index b42251a..21cf0be 100644
--- a/rt/rt.c
+++ b/rt/rt.c
@@ -96,30 +96,74 @@ void llrt_exit(int32_t exitcode) {
   exit(exitcode);
 }
 
+static int create_pipes(int pipes[][2], int count) {
+  for (int i = 0; i < count; ++i) {
+    if (pipe2(pipes[i], O_CLOEXEC) < 0) {
+      int err = errno;
+      for (; 0 < i; --i) {
+        close(pipes[i - 1][0]);
+        close(pipes[i - 1][1]);
+      }
+      return err;
+    }
+  }
+  return 0;
+}
+
+static int redirect(int from, int to) {
+  while (dup2(from, to) < 0) {
+    if (errno != EINTR) return -1;
+  }
+  return 0;
+}
+
+// Notify the parent of the failure on the child side of fork through the init pipe.
+// Buffers of the standard streams are shared with the parent, so they must not be flushed here.
+static noreturn void notify_init_failure(int init) {
+  int32_t err = errno;
+  while (write(init, &err, sizeof(err)) < 0 && errno == EINTR); // atomic: sizeof(err) <= PIPE_BUF
+  _exit(1);
+}
+
+// Returns zero if the child has been started, the notified error otherwise.
+static int32_t receive_init_result(int init, pid_t pid) {
+  int32_t err;
+  ssize_t bytes_read;
+  while ((bytes_read = read(init, &err, sizeof(err))) < 0 && errno == EINTR);
+  close(init);
+  if (bytes_read == 0) return 0;
+  if (bytes_read < 0) err = errno;
+  while (waitpid(pid, NULL, 0) < 0 && errno == EINTR);
+  return err;
+}
+
 rt_process llrt_spawn_process(const char *name, char *const argv[]) {
   rt_process ret;
-  int init[2]; // used to notify an execvp error
-  int cin[2];
-  int cout[2];
-  int cerr[2];
+  int pipes[4][2];
+  ret.err = create_pipes(pipes, 4);
+  if (ret.err != 0) return ret;
 
-  // TODO: Handle pipe error
-  pipe2(init, O_CLOEXEC);
-  pipe2(cin, O_CLOEXEC);
-  pipe2(cout, O_CLOEXEC);
-  pipe2(cerr, O_CLOEXEC);
+  int *init = pipes[0]; // used to notify an execvp error
+  int *cin = pipes[1];
+  int *cout = pipes[2];
+  int *cerr = pipes[3];
 
-  pid_t pid = fork();
+  ret.cin = fdopen(cin[1], "w");
+  ret.cout = ret.cin == NULL ? NULL : fdopen(cout[0], "r");
+  ret.cerr = ret.cout == NULL ? NULL : fdopen(cerr[0], "r");
+  pid_t pid = ret.cerr == NULL ? -1 : fork();
 
   if (pid < 0) {
-    // fork failed
+    // fdopen or fork failed
     ret.err = errno;
-    for (int i = 0; i < 2; ++i) {
-      close(init[i]);
-      close(cin[i]);
-      close(cout[i]);
-      close(cerr[i]);
-    }
+    close(init[0]);
+    close(init[1]);
+    close(cin[0]);
+    close(cout[1]);
+    close(cerr[1]);
+    if (ret.cin != NULL) fclose(ret.cin); else close(cin[1]);
+    if (ret.cout != NULL) fclose(ret.cout); else close(cout[0]);
+    if (ret.cerr != NULL) fclose(ret.cerr); else close(cerr[0]);
     return ret;
   }
 
@@ -132,16 +176,13 @@ rt_process llrt_spawn_process(const char *name, char *const argv[]) {
 
     llrt_restore_signal();
 
-    dup2(cin[0], STDIN_FILENO);
-    dup2(cout[1], STDOUT_FILENO);
-    dup2(cerr[1], STDERR_FILENO);
-    execvp(name, argv);
+    if (redirect(cin[0], STDIN_FILENO) == 0 &&
+        redirect(cout[1], STDOUT_FILENO) == 0 &&
+        redirect(cerr[1], STDERR_FILENO) == 0) {
+      execvp(name, argv);
+    }
 
-    // execvp failed: put error to init pipe
-    char buf[4];
-    *(int32_t *)buf = errno;
-    write(init[1], buf, 4); // FIXME: Ensure that writing succeeds atomically
-    exit(1);
+    notify_init_failure(init[1]);
   }
 
   // fork parent
@@ -150,88 +191,66 @@ rt_process llrt_spawn_process(const char *name, char *const argv[]) {
   close(cout[1]);
   close(cerr[1]);
 
-  char buf[4];
-  if (read(init[0], buf, 4) != 0) {
+  ret.err = receive_init_result(init[0], pid);
+  if (ret.err != 0) {
     // execvp failed
-    ret.err = *(int32_t *)buf;
-    close(init[0]);
-    close(cin[1]);
-    close(cout[0]);
-    close(cerr[0]);
+    fclose(ret.cin);
+    fclose(ret.cout);
+    fclose(ret.cerr);
     return ret;
   }
 
   // execvp succeeded
-  close(init[0]);
-  ret.cin = fdopen(cin[1], "w");
-  ret.cout = fdopen(cout[0], "r");
-  ret.cerr = fdopen(cerr[0], "r");
-
-  // FIXME: Error handling
-  if (ret.cin == NULL || ret.cout == NULL || ret.cerr == NULL) abort();
-
   ret.pid = pid;
-  ret.err = 0;
   return ret;
 }
 
 rt_process llrt_execute_process(const char *name, char *const argv[]) {
   rt_process ret;
-  int init[2]; // used to notify an execvp error
-
-  // TODO: Handle pipe error
-  pipe2(init, O_CLOEXEC);
+  int init[1][2]; // used to notify an execvp error
+  ret.err = create_pipes(init, 1);
+  if (ret.err != 0) return ret;
 
   pid_t pid = fork();
 
   if (pid < 0) {
     // fork failed
     ret.err = errno;
-    for (int i = 0; i < 2; ++i) {
-      close(init[i]);
-    }
+    close(init[0][0]);
+    close(init[0][1]);
     return ret;
   }
 
   if (pid == 0) {
     // fork child
-    close(init[0]);
+    close(init[0][0]);
 
     llrt_restore_signal();
 
     execvp(name, argv);
 
-    // execvp failed: put error to init pipe
-    char buf[4];
-    *(int32_t *)buf = errno;
-    write(init[1], buf, 4); // FIXME: Ensure that writing succeeds atomically
-    exit(1);
+    notify_init_failure(init[0][1]);
   }
 
   // fork parent
-  close(init[1]);
+  close(init[0][1]);
 
-  char buf[4];
-  if (read(init[0], buf, 4) != 0) {
-    // execvp failed
-    ret.err = *(int32_t *)buf;
-    close(init[0]);
-    return ret;
-  }
+  ret.err = receive_init_result(init[0][0], pid);
+  if (ret.err != 0) return ret; // execvp failed
 
   // execvp succeeded
-  close(init[0]);
   ret.cin = NULL;
   ret.cout = NULL;
   ret.cerr = NULL;
   ret.pid = pid;
-  ret.err = 0;
   return ret;
 }
 
 int32_t llrt_wait(int32_t pid) {
   int wstatus;
-  if (waitpid(pid, &wstatus, 0) < 0) return -1;
+  while (waitpid(pid, &wstatus, 0) < 0) {
+    if (errno != EINTR) return -1;
+  }
   if (!WIFEXITED(wstatus)) return -1;
   return WEXITSTATUS(wstatus);
 }
-- 
2.43.0


From 9eb19d1441e4feb721cb89fa0b4925c0392f90d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:09 +0000
Subject: [PATCH 02/24] fix: encode and decode all Unicode scalar values up to
 10FFFF in UTF-8

The upper bound was written as 111411 (1B333) instead of 1114111 (10FFFF).
---
 std/internal/utf-8.llrl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/std/internal/utf-8.llrl b/std/internal/utf-8.llrl
index f8a6b2e..fe7c63b 100644
--- a/std/internal/utf-8.llrl
+++ b/std/internal/utf-8.llrl
@@ -41,7 +41,7 @@
         (if (and (<= 2048 x 65535) (not (<= 55296 x 57343))) (decode:produce x) decode:invalid))]
     [(complete:4 (let a) (let b) (let c) (let d))
       (let1 x (bw| (&<< a 7 18) (bw| (&<< b 63 12) (bw| (&<< c 63 6) (&<< d 63 0))))
-        (if (<= 65536 x 111411) (decode:produce x) decode:invalid))]))
+        (if (<= 65536 x 1114111) (decode:produce x) decode:invalid))]))
 
 (function (decode-step s n) {(-> (Option Incomplete) U8 Decode)}
   (match (: s (input-class n))
@@ -86,7 +86,7 @@
       (encode:success (complete:2 (>>&| x 6 31 192) (>>&| x 0 63 128)))]
     [(and (<= 2048 x 65535) (not (<= 55296 x 57343)))
       (encode:success (complete:3 (>>&| x 12 15 224) (>>&| x 6 63 128) (>>&| x 0 63 128)))]
-    [(<= 65536 x 111411)
+    [(<= 65536 x 1114111)
       (encode:success (complete:4 (>>&| x 18 7 240) (>>&| x 12 63 128) (>>&| x 6 63 128) (>>&| x 0 63 128)))]
     [else
       encode:invalid]))
-- 
2.43.0


From 1c7be901b2fb7ad8d5788c86fb893b5077e5f841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:09 +0000
Subject: [PATCH 03/24] fix: with-file! reports a failure to close the file

Contents still buffered are written when the file is closed; the result of that was ignored.
---
 std/io/file.llrl | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/std/io/file.llrl b/std/io/file.llrl
index caf9ab9..f2adfd6 100644
--- a/std/io/file.llrl
+++ b/std/io/file.llrl
@@ -4,6 +4,7 @@
 (import "std/integer" _.I32 _.U64)
 (import "std/memory" Ptr ptr:null ptr/cast _.Ptr)
 (import "std/ref" Ref ref _.Ref)
+(import "std/result" result/and)
 (import "std/array" Array array/_)
 (import "std/rw" Read Write)
 (import "std/string" string/c-compatible-ptr)
@@ -81,8 +82,10 @@
 (function (with-file! pathname mode f) {(forall A) (-> String String (-> File (Result A IoError)) (Result A IoError))}
   @let1 handle (file/open! pathname mode)!
   @let1 ret (f handle)
-  (ignore (file/close! handle))
-  ret)
+  @let1 closed (file/close! handle) ; writing the buffered contents may fail here
+  (match ret
+    [(ok _) (result/and closed ret)]
+    [_ ret]))
 
 (data <File>)
 (c-function <fopen> {(-> (Ptr U8) (Ptr U8) (Ptr <File>))} "fopen")
-- 
2.43.0


From 9a4e55d2d2d4f606cf056cf8be7422209e9c0a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:09 +0000
Subject: [PATCH 04/24] fix: directory/next! reports a failure to read the
 directory

It was indistinguishable from the end of the directory.
---
 rt/rt.c               | 1 +
 std/io/directory.llrl | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/rt/rt.c b/rt/rt.c
index 21cf0be..e8ea8a4 100644
--- a/rt/rt.c
+++ b/rt/rt.c
@@ -452,6 +452,7 @@ to_f64 llrt_string_to_f64(rt_string s) {
 }
 
 rt_string llrt_readdir(DIR *dir) {
+  errno = 0; // still zero at the end of the directory, non-zero on failure
   struct dirent *ent = readdir(dir);
   if (ent == NULL) return (rt_string){.len = 0, .ptr = NULL};
   rt_string ret;
diff --git a/std/io/directory.llrl b/std/io/directory.llrl
index 37422ec..a887613 100644
--- a/std/io/directory.llrl
+++ b/std/io/directory.llrl
@@ -27,7 +27,7 @@
     (err io-error:closed)
     (let1 entry (<readdir> ~handle)
       (match entry
-        ["" (ok none)]
+        ["" (if (eq? <current-errno> 0) (ok none) (err (io-error/from-current-errno)))]
         ["." (directory/next! dir)]
         [".." (directory/next! dir)]
         [(let s) (ok (some s))]))))
@@ -74,5 +74,6 @@
 (c-function <readdir> {(-> (Ptr <Dir>) String)} "llrt_readdir")
 (c-function <closedir> {(-> (Ptr <Dir>) I32)} "closedir")
 
+(c-function <current-errno> {I32} "llrt_current_errno")
 (c-function <mkdir> {(-> (Ptr U8) U32 I32)} "mkdir")
 (c-function <rmdir> {(-> (Ptr U8) I32)} "rmdir")
-- 
2.43.0


From f44f6c575f27335db95ef69841bb316bd72db4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:09 +0000
Subject: [PATCH 05/24] fix: remove-all! does not follow symbolic links

The contents of the directory a link refers to were removed.
---
 std/io.llrl | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/std/io.llrl b/std/io.llrl
index 2d13321..ad7fd25 100644
--- a/std/io.llrl
+++ b/std/io.llrl
@@ -2,7 +2,9 @@
 
 (import "std/prelude/stage-1" _)
 (import "std/iterator" _)
+(import "std/integer" _.I64)
 (import "std/memory" Ptr)
+(import "std/array" array/_)
 (import "std/string" string/c-compatible-ptr)
 (import "std/string-writer" string-writer)
 (import "std/io/error" _)
@@ -71,8 +73,10 @@
     [0 (ok unit)]
     [_ (err (io-error/from-current-errno))]))
 
-; Remove the all files and directories recursively.
+; Remove the all files and directories recursively. Symbolic links are removed, not followed.
 (function (remove-all! pathname) {(-> String (Result unit IoError))}
+  (when (symbolic-link? pathname)
+    (return (remove! pathname)))
   (when-match1 (ok (let handle)) (directory/open! pathname)
     @let1 result (remove-directory-contents! pathname handle)
     (ignore (directory/close! handle))
@@ -84,4 +88,9 @@
     (remove-all! (path pathname entry))!)
   (ok unit))
 
+(function (symbolic-link? pathname) {(-> String Bool)}
+  @let1 buf (array/unsafe-stackalloc-uninitialized 1)
+  (<= 0 (<readlink> (string/c-compatible-ptr pathname) (array/ptr buf) (array/length buf))))
+
+(c-function <readlink> {(-> (Ptr U8) (Ptr U8) U64 I64)} "readlink")
 (c-function <remove> {(-> (Ptr U8) I32)} "remove")
-- 
2.43.0


From 170bcd7c7b7deb7be7be8fe8df8816c5e9e931d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:32 +0000
Subject: [PATCH 06/24] fix: hash-map/with-capacity 0 makes a map that can be
 looked up

---
 std/hash-map.llrl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/std/hash-map.llrl b/std/hash-map.llrl
index 2ea41f3..3331c38 100644
--- a/std/hash-map.llrl
+++ b/std/hash-map.llrl
@@ -43,7 +43,7 @@
   (hash-map/with-capacity 32))
 
 (function (hash-map/with-capacity cap) {(forall K V) (-> U64 (HashMap K V))}
-  @let1 cap (next-power-of-two cap)
+  @let1 cap (next-power-of-two (if (eq? cap 0) 1 cap)) ; There must always be a bucket to look at
   (m: (ref (m-body:
     (xx-hasher/new)
     0
-- 
2.43.0


From 238f0bd26fb3715c3022b9911af1266f5cb53ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:30 +0000
Subject: [PATCH 07/24] fix: 0.0 and -0.0 have the same hash

---
 std/hash.llrl | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/std/hash.llrl b/std/hash.llrl
index 347f109..e2c9cb5 100644
--- a/std/hash.llrl
+++ b/std/hash.llrl
@@ -5,6 +5,7 @@
 (import "std/derive" derive/_)
 (import "std/access" unsafe-get)
 (import "std/integer" _.U64)
+(import "std/float" _.F32 _.F64)
 (import "std/memory" Ptr ptr/_ _.Ptr)
 (import "std/box" Box _.Box)
 (import "std/ref" Ref ref _.Ref)
@@ -60,11 +61,17 @@
   (function (hash-array! s a)
     (hasher/write! a s)))
 
-($for1 $ty (U16 U32 U64 I8 I16 I32 I64 F32 F64)
+($for1 $ty (U16 U32 U64 I8 I16 I32 I64)
   (instance ($symbol Hash. $ty) (Hash $ty)
     (function (hash! s a)
       (hasher/write! (array/unsafe-temporary-bytearray a) s))))
 
+($for1 $ty (F32 F64)
+  (instance ($symbol Hash. $ty) (Hash $ty)
+    (function (hash! s a)
+      ; 0.0 and -0.0 are equal, so they must have the same hash
+      (hasher/write! (array/unsafe-temporary-bytearray (if (eq? a 0.0) 0.0 a)) s))))
+
 (instance Hash.Ptr (forall A) (Hash (Ptr A))
   (function (hash! s a)
     (hash! s (ptr/address a))))
-- 
2.43.0


From ae4a926838fba7e571c74e5aae5607d46c2b3d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:32 +0000
Subject: [PATCH 08/24] fix: llrl0 exits unsuccessfully when the program it ran
 was killed by a signal

---
 llrl0/src/main.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/llrl0/src/main.rs b/llrl0/src/main.rs
index a7107a6..e5404a2 100644
--- a/llrl0/src/main.rs
+++ b/llrl0/src/main.rs
@@ -7,8 +7,9 @@ use std::process::{exit, ExitStatus};
 fn main() {
     match run_pipeline() {
         Ok(status) => {
-            if let Some(code) = status.and_then(|s| s.code()) {
-                exit(code);
+            // A process terminated by a signal has no exit code.
+            if let Some(status) = status {
+                exit(status.code().unwrap_or(1));
             }
         }
         Err(e) => {
-- 
2.43.0


From 0cecf93c5832b60b8f5671d38778d38ddce50e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:32 +0000
Subject: [PATCH 09/24] fix: report a write error of the last part of an ELF
 object

---
 xten0/src/elf/adapter.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xten0/src/elf/adapter.rs b/xten0/src/elf/adapter.rs
index a412e09..113b54c 100644
--- a/xten0/src/elf/adapter.rs
+++ b/xten0/src/elf/adapter.rs
@@ -2,14 +2,15 @@ use super::format::*;
 use crate::asm::{Binding, LocationSection, Object, RelocTarget};
 use std::collections::HashMap;
 use std::fs;
-use std::io;
+use std::io::{self, Write};
 use std::path::Path;
 
 pub fn write_relocatable_object(path: &Path, o: Object) -> io::Result<()> {
     let name = path.file_name().unwrap().to_str().unwrap();
     let o = into_relocatable_object(name, o);
     let mut file = io::BufWriter::new(fs::File::create(path)?);
-    o.write(&mut file)
+    o.write(&mut file)?;
+    file.flush()
 }
 
 /// Convert `asm::Object` into a relocatable ELF object.
-- 
2.43.0


From 5ba41697513e5bca39a71e8927b7e11401778cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:32 +0000
Subject: [PATCH 10/24] fix: a failing write of an LLVM object no longer aborts
 the compiler, leaving its temporary directory

---
 llvm0/src/target_machine.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/llvm0/src/target_machine.rs b/llvm0/src/target_machine.rs
index 814aa02..2cb2d9e 100644
--- a/llvm0/src/target_machine.rs
+++ b/llvm0/src/target_machine.rs
@@ -1,6 +1,6 @@
 use super::*;
+use llvm_sys::core::*;
 use llvm_sys::target_machine::*;
-use std::ffi::CString;
 
 pub struct TargetMachine {
     _refs: LLVMOpaqueTargetMachine,
@@ -37,20 +37,29 @@ impl TargetMachine {
         filename: &str,
         filetype: FileType,
     ) -> Result<(), Message> {
-        let filename = CString::new(filename).unwrap();
+        // The object is written out on our side: LLVM aborts the whole process on a write error.
         let mut error_message = std::mem::MaybeUninit::uninit();
-        match unsafe {
-            LLVMTargetMachineEmitToFile(
+        let mut buffer = std::mem::MaybeUninit::uninit();
+        let buffer = match unsafe {
+            LLVMTargetMachineEmitToMemoryBuffer(
                 self.as_ptr(),
                 module.as_ptr(),
-                filename.as_ptr() as *mut i8,
                 filetype.into(),
                 error_message.as_mut_ptr(),
+                buffer.as_mut_ptr(),
             )
         } {
-            0 => Ok(()),
-            _ => Err(unsafe { Message::from_ptr(error_message.assume_init()) }),
-        }
+            0 => unsafe { buffer.assume_init() },
+            _ => return Err(unsafe { Message::from_ptr(error_message.assume_init()) }),
+        };
+        let result = std::fs::write(filename, unsafe {
+            std::slice::from_raw_parts(
+                LLVMGetBufferStart(buffer) as *const u8,
+                LLVMGetBufferSize(buffer),
+            )
+        });
+        unsafe { LLVMDisposeMemoryBuffer(buffer) };
+        result.map_err(|e| Message::new(e.to_string()).unwrap())
     }
 }
 
-- 
2.43.0


From 34563ed591af1ef6b2deabd429e40c2a27a83f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:39 +0000
Subject: [PATCH 11/24] fix: xten0: report relocation values that do not fit
 instead of truncating them

---
 xten0/src/jit.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xten0/src/jit.rs b/xten0/src/jit.rs
index ff21ee5..3b2f39d 100644
--- a/xten0/src/jit.rs
+++ b/xten0/src/jit.rs
@@ -186,7 +186,7 @@ impl<'a, R: SymbolResolver> Linker<'a, R> {
                 // S + A - P
                 let src = self.reloc_target_direct(reloc)?;
                 let value = unsafe { src.wrapping_offset(addend).offset_from(dest) };
-                if value < (i8::MIN as isize) && (i8::MAX as isize) < value {
+                if value < (i8::MIN as isize) || (i8::MAX as isize) < value {
                     Err(Error::OffsetOutOfRange(reloc.ty, value))?;
                 }
                 unsafe { ptr::write(dest as *mut i8, value as i8) };
@@ -195,7 +195,7 @@ impl<'a, R: SymbolResolver> Linker<'a, R> {
                 // S + A - P
                 let src = self.reloc_target_direct(reloc)?;
                 let value = unsafe { src.wrapping_offset(addend).offset_from(dest) };
-                if value < (i32::MIN as isize) && (i32::MAX as isize) < value {
+                if value < (i32::MIN as isize) || (i32::MAX as isize) < value {
                     Err(Error::OffsetOutOfRange(reloc.ty, value))?;
                 }
                 unsafe { ptr::write(dest as *mut i32, value as i32) };
@@ -204,7 +204,7 @@ impl<'a, R: SymbolResolver> Linker<'a, R> {
                 // <AddressTableEntry> + A - P
                 let src = self.reloc_target_address_table_entry(reloc)? as *const u8;
                 let value = unsafe { src.wrapping_offset(addend).offset_from(dest) };
-                if value < (i32::MIN as isize) && (i32::MAX as isize) < value {
+                if value < (i32::MIN as isize) || (i32::MAX as isize) < value {
                     Err(Error::OffsetOutOfRange(reloc.ty, value))?;
                 }
                 unsafe { ptr::write(dest as *mut i32, value as i32) };
-- 
2.43.0


From a688d5e6bc0cc127646e419fb27ccd9765034864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:25 +0000
Subject: [PATCH 12/24] fix: xten0: forget the symbols of an object that failed
 to load

---
 xten0/src/jit.rs               | 41 ++++++++++++++++++++++++++--------
 xten0/src/jit/address_table.rs |  5 +++++
 xten0/src/jit/symbol_table.rs  |  4 ++++
 3 files changed, 41 insertions(+), 9 deletions(-)

diff --git a/xten0/src/jit.rs b/xten0/src/jit.rs
index 3b2f39d..86dcba8 100644
--- a/xten0/src/jit.rs
+++ b/xten0/src/jit.rs
@@ -95,12 +95,10 @@ impl<R: SymbolResolver> Engine<R> {
             Locator::new(text, data, rodata, bss),
         );
 
-        for sym in obj.symbols.iter() {
-            linker.bind(&sym.name, sym.binding)?;
-        }
-
-        for reloc in obj.relocs.iter() {
-            linker.relocate(reloc)?;
+        if let Err(e) = linker.link(obj) {
+            // the object is not loaded: nothing may refer to its partially linked contents
+            linker.rollback();
+            return Err(e);
         }
 
         // restore memory protection
@@ -146,6 +144,7 @@ struct Linker<'a, R: SymbolResolver> {
     address_table: &'a mut AddressTable,
     locator: Locator,
     local_symbols: HashMap<&'a str, *const u8>,
+    global_symbols: Vec<&'a str>,
 }
 
 impl<'a, R: SymbolResolver> Linker<'a, R> {
@@ -159,6 +158,25 @@ impl<'a, R: SymbolResolver> Linker<'a, R> {
             address_table,
             locator,
             local_symbols: HashMap::new(),
+            global_symbols: Vec::new(),
+        }
+    }
+
+    fn link(&mut self, obj: &'a Object) -> Result<(), Error> {
+        for sym in obj.symbols.iter() {
+            self.bind(&sym.name, sym.binding)?;
+        }
+        for reloc in obj.relocs.iter() {
+            self.relocate(reloc)?;
+        }
+        Ok(())
+    }
+
+    /// Forget all global symbols defined so far.
+    fn rollback(&mut self) {
+        for symbol in self.global_symbols.drain(..) {
+            self.symbol_table.unbind(symbol);
+            self.address_table.forget(symbol);
         }
     }
 
@@ -171,9 +189,14 @@ impl<'a, R: SymbolResolver> Linker<'a, R> {
                 }
                 _ => Err(Error::DuplicateSymbol(symbol.to_owned())),
             },
-            Binding::Global(loc) => self
-                .symbol_table
-                .bind(symbol, loc.map(|loc| self.locator.locate(loc))),
+            Binding::Global(loc) => {
+                let ptr = loc.map(|loc| self.locator.locate(loc));
+                self.symbol_table.bind(symbol, ptr)?;
+                if loc.is_some() {
+                    self.global_symbols.push(symbol);
+                }
+                Ok(())
+            }
         }
     }
 
diff --git a/xten0/src/jit/address_table.rs b/xten0/src/jit/address_table.rs
index 8129c76..b460857 100644
--- a/xten0/src/jit/address_table.rs
+++ b/xten0/src/jit/address_table.rs
@@ -29,4 +29,9 @@ impl AddressTable {
             },
         }
     }
+
+    /// Discards the entry of the symbol. The slot itself is not reused.
+    pub fn forget(&mut self, symbol: &str) {
+        self.entries.remove(symbol);
+    }
 }
diff --git a/xten0/src/jit/symbol_table.rs b/xten0/src/jit/symbol_table.rs
index ed741d8..192b978 100644
--- a/xten0/src/jit/symbol_table.rs
+++ b/xten0/src/jit/symbol_table.rs
@@ -37,6 +37,10 @@ impl<R: Resolver> SymbolTable<R> {
         }
     }
 
+    pub fn unbind(&mut self, symbol: &str) {
+        self.entries.remove(symbol);
+    }
+
     pub fn resolve(&self, symbol: &str) -> Option<*const u8> {
         self.entries.get(symbol).copied()
     }
-- 
2.43.0


From b1a5654c154c653ebe341c4d4ec0000f44eaccb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:27 +0000
Subject: [PATCH 13/24] fix: xten0: resolve local symbols through the address
 table as local symbols

---
 xten0/src/jit.rs               | 5 +++++
 xten0/src/jit/address_table.rs | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/xten0/src/jit.rs b/xten0/src/jit.rs
index 86dcba8..c62a80b 100644
--- a/xten0/src/jit.rs
+++ b/xten0/src/jit.rs
@@ -260,6 +260,11 @@ impl<'a, R: SymbolResolver> Linker<'a, R> {
         reloc: &'a Reloc,
     ) -> Result<*const *const u8, Error> {
         match reloc.target {
+            // local symbols take precedence, and their entries are not shared among objects
+            RelocTarget::Symbol(ref symbol) if self.local_symbols.contains_key(symbol.as_str()) => {
+                let ptr = self.local_symbols[symbol.as_str()];
+                Ok(self.address_table.issue(ptr)?)
+            }
             RelocTarget::Symbol(ref symbol) => self
                 .address_table
                 .prepare(symbol, || self.symbol_table.resolve(symbol))?
diff --git a/xten0/src/jit/address_table.rs b/xten0/src/jit/address_table.rs
index b460857..3dbf5c7 100644
--- a/xten0/src/jit/address_table.rs
+++ b/xten0/src/jit/address_table.rs
@@ -30,6 +30,11 @@ impl AddressTable {
         }
     }
 
+    /// Issues an entry which is not associated with any symbol.
+    pub fn issue(&mut self, ptr: *const u8) -> Result<*const *const u8, Error> {
+        self.payload.put(ptr)
+    }
+
     /// Discards the entry of the symbol. The slot itself is not reused.
     pub fn forget(&mut self, symbol: &str) {
         self.entries.remove(symbol);
-- 
2.43.0


From c20fa6901023802b713c2cf0a909a28692150e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:16 +0000
Subject: [PATCH 14/24] fix: llrl1: render module errors before the code of
 macros they may refer to is released

---
 llrl1/pipeline.llrl | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/llrl1/pipeline.llrl b/llrl1/pipeline.llrl
index 2fd2c39..a0c680a 100644
--- a/llrl1/pipeline.llrl
+++ b/llrl1/pipeline.llrl
@@ -1,4 +1,3 @@
-(import "std/ord-map" _)
 (import "std/phantom" _)
 (import "std/hash-set" _)
 (import "std/io" [io/_ _])
@@ -10,7 +9,7 @@
 (value-data Error
   (error:source SourceLocationTable (Array (: Path SourceError)))
   (error:circular-dependencies (Array Path))
-  (error:module SourceLocationTable (OrdMap ModuleId Module) Path ModuleError)
+  (error:module String)
   (error:produce-executable String))
 
 (instance Display.Error (Display Error)
@@ -25,8 +24,8 @@
         (for (let path) paths
           (display-all! w "- " path "\n")!)
         (display! w "Modules cannot import each other.\n")]
-      [(error:module (let slt) (let module-set) (let path) (let error))
-        (display-all! w (contextual: error (module-display-context module-set slt)) " (while building " path ")\n")]
+      [(error:module (let e))
+        (display-all! w e "\n")]
       [(error:produce-executable (let e))
         (display-all! w "Failed to produce executable: " e "\n")])))
 
@@ -96,7 +95,8 @@
         (backend/complete! report backend {B})
         (ok unit)]
       [(: (let module-set) (some (: (let path) (let error))))
-        (err (error:module slt module-set path error))])))!
+        ; The strings in error may belong to the macros that are released with the backend.
+        (err (error:module (string (contextual: error (module-display-context module-set slt)) " (while building " path ")")))])))!
   (ok
     (with1? (some (let run-args)) run-args
       (|> (process/execute! output run-args)
-- 
2.43.0


From c17fb16a3fc734d4b40e92813b04a1bb63f3675c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:16 +0000
Subject: [PATCH 15/24] fix: llvm1: a failing write of an object is an error,
 not an abort that leaves the temporary directory

---
 llvm0/src/symbols.rs      |  4 ++++
 llvm1/compat.c            |  4 ++++
 llvm1/target-machine.llrl | 27 +++++++++++++++++++--------
 3 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/llvm0/src/symbols.rs b/llvm0/src/symbols.rs
index 957ee20..e2dadd3 100644
--- a/llvm0/src/symbols.rs
+++ b/llvm0/src/symbols.rs
@@ -147,6 +147,7 @@ static SYMBOLS: &[Symbol] = &[
     symbol!(LLVMDisposeBuilder),
     symbol!(LLVMDisposeErrorMessage),
     symbol!(LLVMDisposeExecutionEngine),
+    symbol!(LLVMDisposeMemoryBuffer),
     symbol!(LLVMDisposeMessage),
     symbol!(LLVMDisposeModule),
     symbol!(LLVMDisposePassManager),
@@ -164,6 +165,8 @@ static SYMBOLS: &[Symbol] = &[
     symbol!(LLVMGetBasicBlockName),
     symbol!(LLVMGetBasicBlockParent),
     symbol!(LLVMGetBasicBlocks),
+    symbol!(LLVMGetBufferSize),
+    symbol!(LLVMGetBufferStart),
     symbol!(LLVMGetDefaultTargetTriple),
     symbol!(LLVMGetElementType),
     symbol!(LLVMGetEntryBasicBlock),
@@ -270,6 +273,7 @@ static SYMBOLS: &[Symbol] = &[
     symbol!(LLVMTargetHasJIT),
     symbol!(LLVMTargetHasTargetMachine),
     symbol!(LLVMTargetMachineEmitToFile),
+    symbol!(LLVMTargetMachineEmitToMemoryBuffer),
     symbol!(LLVMTypeIsSized),
     symbol!(LLVMTypeOf),
     symbol!(LLVMVectorType),
diff --git a/llvm1/compat.c b/llvm1/compat.c
index 6ebed37..a8f1dc7 100644
--- a/llvm1/compat.c
+++ b/llvm1/compat.c
@@ -149,6 +149,7 @@ static llvm_symbol symbols[] = {
   LLVM_SYMBOL(LLVMDisposeBuilder),
   LLVM_SYMBOL(LLVMDisposeErrorMessage),
   LLVM_SYMBOL(LLVMDisposeExecutionEngine),
+  LLVM_SYMBOL(LLVMDisposeMemoryBuffer),
   LLVM_SYMBOL(LLVMDisposeMessage),
   LLVM_SYMBOL(LLVMDisposeModule),
   LLVM_SYMBOL(LLVMDisposePassManager),
@@ -166,6 +167,8 @@ static llvm_symbol symbols[] = {
   LLVM_SYMBOL(LLVMGetBasicBlockName),
   LLVM_SYMBOL(LLVMGetBasicBlockParent),
   LLVM_SYMBOL(LLVMGetBasicBlocks),
+  LLVM_SYMBOL(LLVMGetBufferSize),
+  LLVM_SYMBOL(LLVMGetBufferStart),
   LLVM_SYMBOL(LLVMGetDefaultTargetTriple),
   LLVM_SYMBOL(LLVMGetElementType),
   LLVM_SYMBOL(LLVMGetEntryBasicBlock),
@@ -272,6 +275,7 @@ static llvm_symbol symbols[] = {
   LLVM_SYMBOL(LLVMTargetHasJIT),
   LLVM_SYMBOL(LLVMTargetHasTargetMachine),
   LLVM_SYMBOL(LLVMTargetMachineEmitToFile),
+  LLVM_SYMBOL(LLVMTargetMachineEmitToMemoryBuffer),
   LLVM_SYMBOL(LLVMTypeIsSized),
   LLVM_SYMBOL(LLVMTypeOf),
   LLVM_SYMBOL(LLVMVectorType),
diff --git a/llvm1/target-machine.llrl b/llvm1/target-machine.llrl
index 6bdc1ff..9929cb8 100644
--- a/llvm1/target-machine.llrl
+++ b/llvm1/target-machine.llrl
@@ -1,3 +1,4 @@
+(import "std/io" with-file!)
 (import "std/memory" ptr:_ ptr/temporary)
 (import "std/ref" ref/ptr)
 (import "~/message" message/consume!)
@@ -91,13 +92,23 @@
 
 (c-function target-machine/data-layout {(-> TargetMachine DataLayout)} "LLVMCreateTargetDataLayout")
 
+; The object is written out on our side: LLVM aborts the whole process on a write error.
 (function (target-machine/emit-to-file! module filename filetype tm)
   {(-> Module String CodeGenFileType TargetMachine (Result unit String))}
-  (let1 error (ref ptr:null)
-  (match (<target-machine-emit-to-file> tm module (string/c-compatible-ptr filename) filetype (ref/ptr error))
-    [0 (ok unit)]
-    [_ (err (message/consume! ~error))])))
-
-(c-function <target-machine-emit-to-file>
-  {(-> TargetMachine Module (Ptr U8) CodeGenFileType (Ptr (Ptr U8)) I32)}
-  "LLVMTargetMachineEmitToFile")
+  @let (
+    [error (ref ptr:null)]
+    [buffer (ref ptr:null)])
+  (match (<target-machine-emit-to-memory-buffer> tm module filetype (ref/ptr error) (ref/ptr buffer))
+    [0
+      @let1 bytes (array/unsafe-from-ptr (<get-buffer-start> ~buffer) (<get-buffer-size> ~buffer))
+      @let1 result (with-file! filename "w" [^1 (write-bytes! bytes %1)])
+      (<dispose-memory-buffer> ~buffer)
+      (result/map-err [^1 (string %1)] result)]
+    [_ (err (message/consume! ~error))]))
+
+(c-function <target-machine-emit-to-memory-buffer>
+  {(-> TargetMachine Module CodeGenFileType (Ptr (Ptr U8)) (Ptr (Ptr U8)) I32)}
+  "LLVMTargetMachineEmitToMemoryBuffer")
+(c-function <get-buffer-start> {(-> (Ptr U8) (Ptr U8))} "LLVMGetBufferStart")
+(c-function <get-buffer-size> {(-> (Ptr U8) U64)} "LLVMGetBufferSize")
+(c-function <dispose-memory-buffer> {(-> (Ptr U8) unit)} "LLVMDisposeMemoryBuffer")
-- 
2.43.0


From 6a75a062a17542870f0699a8aa8a8788e091c76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:16 +0000
Subject: [PATCH 16/24] fix: llrl1: report failures of emitting, linking and
 running instead of aborting with the temporary directory left behind; read
 the linker's output before waiting

---
 llrl1/backend/chibi.llrl          |  2 +-
 llrl1/backend/llvm.llrl           |  3 +--
 llrl1/backend/native/linking.llrl | 41 +++++++++++++++----------------
 llrl1/main.llrl                   |  4 ++-
 llrl1/pipeline.llrl               | 20 +++++++++------
 llrl1/util.llrl                   | 18 +++++++-------
 6 files changed, 47 insertions(+), 41 deletions(-)

diff --git a/llrl1/backend/chibi.llrl b/llrl1/backend/chibi.llrl
index 1e6781c..6221d4c 100644
--- a/llrl1/backend/chibi.llrl
+++ b/llrl1/backend/chibi.llrl
@@ -53,7 +53,7 @@
     (codegen! #t b)
     (vector/push! (codegen/c-main-adapter-object! (context b)) (objects b))
     (let* ([objects (vector/consume-all! (objects b))]
-           [(emit! path o) (result/unwrap* [^1 (assert #f (string %1))] (write-relocatable-object! path o))]
+           [(emit! path o) (result/map-err [^1 (string %1)] (write-relocatable-object! path o))]
            [result (report/on (report b) phase:link (link! dest objects emit! clang-options))!])
       (when (verbose? b)
         (eprintln! "### produce executable")
diff --git a/llrl1/backend/llvm.llrl b/llrl1/backend/llvm.llrl
index be5830c..efbfbad 100644
--- a/llrl1/backend/llvm.llrl
+++ b/llrl1/backend/llvm.llrl
@@ -60,8 +60,7 @@
     (let* ([(emit! path m)
               (|> (executor b)
                   executor/target-machine
-                  (llvm/target-machine/emit-to-file! m path llvm/code-gen-file-type/object-file)
-                  (result/unwrap* [^1 (assert #f %1)]))]
+                  (llvm/target-machine/emit-to-file! m path llvm/code-gen-file-type/object-file))]
            [modules (executor/remove-modules! (executor b))]
            [result (report/on (report b) phase:link (link! dest modules emit! clang-options))!])
       (when (verbose? b)
diff --git a/llrl1/backend/native/linking.llrl b/llrl1/backend/native/linking.llrl
index b340e0f..04eacad 100644
--- a/llrl1/backend/native/linking.llrl
+++ b/llrl1/backend/native/linking.llrl
@@ -5,27 +5,26 @@
 (export link!)
 
 (function (link! dest objects emit-object-to-file! clang-options)
-  {(forall O T S) (-> String (T O) (-> String O unit) (S String) (Result String String)) (where (Iterate T) (Iterate S))}
-  (with-tempdir! (lambda (tempdir)
-    (let* ([objects
-             ; TODO: Not every function in every module is needed for the main.
-             ; Rather, most of them exist for macros. This can be stripped.
-             (it/map
-               (case1 (: (let index) (let object))
-                 (let1 path (io/path tempdir (string index ".o"))
-                   (emit-object-to-file! path object)
-                   path))
-               (it/with-index objects))]
-           [args {(Array String)}
-             (collect (it/concat (array "-o" dest) objects (array "-lgc" "-lm" (string "-L" tempdir) "-lllrt") clang-options))])
-      (enforce-io-success! (expand-libllrt! tempdir))
-      (enforce-io-success! (with-process! "clang" args (lambda (proc)
-        (ok (if-match1 (some 0) (process/wait! proc)
-          (ok (|> proc process/out read-string-to-end!)!)
-          (err (|> proc process/err read-string-to-end!)!))))))))))
+  {(forall O T S) (-> String (T O) (-> String O (Result unit String)) (S String) (Result String String)) (where (Iterate T) (Iterate S))}
+  (result/flatten (result/map-err [^1 (string %1)] (with-tempdir! (lambda (tempdir)
+    ; TODO: Not every function in every module is needed for the main.
+    ; Rather, most of them exist for macros. This can be stripped.
+    @let1 object-paths vector/empty
+    (for (: (let index) (let object)) (it/with-index objects)
+      @let1 path (io/path tempdir (string index ".o"))
+      (emit-object-to-file! path object)!
+      (vector/push! path object-paths))
+    @let1 args {(Array String)}
+      (collect (it/concat (array "-o" dest) object-paths (array "-lgc" "-lm" (string "-L" tempdir) "-lllrt") clang-options))
+    (result/map-err [^1 (string %1)] (expand-libllrt! tempdir))!
+    (result/flatten (result/map-err [^1 (string %1)] (with-process! "clang" args (lambda (proc)
+      ; Read everything before waiting: the linker stops when a pipe is filled.
+      (ignore (io/file/close! (process/in proc)))
+      @let1 error-output (|> proc process/err read-string-to-end!)
+      @let1 output (|> proc process/out read-string-to-end!)
+      (if-match1 (some 0) (process/wait! proc)
+        (result/map ok output)
+        (result/map err error-output)))))))))))
 
 (function (expand-libllrt! dir) {(-> String (Result unit io/IoError))}
   (io/with-file! (io/path dir "libllrt.a") "w" [^1 (write-bytes! (resources/llrt-archive) %1)]))
-
-(function (enforce-io-success! result) {(forall A) (-> (Result A io/IoError) A)}
-  (result/unwrap* [^1 (assert #f (string %1))] result))
diff --git a/llrl1/main.llrl b/llrl1/main.llrl
index d1162e7..1c04a8d 100644
--- a/llrl1/main.llrl
+++ b/llrl1/main.llrl
@@ -144,7 +144,9 @@
       (run! backend)
       (if-match1 (some (let output)) ~output
         (pipeline/run! output ~run-args backend pipeline)
-        (with-tempdir! [^1 (pipeline/run! (io/path %1 "bin") ~run-args backend pipeline)]))
+        (match (with-tempdir! [^1 (pipeline/run! (io/path %1 "bin") ~run-args backend pipeline)])
+          [(ok (let result)) result]
+          [(err (let e)) (error! (string "Failed to use temporary directory: " e))]))
       (match
         (match (option/unwrap "default" ~backend)
           ($when ($feature "llvm-backend")
diff --git a/llrl1/pipeline.llrl b/llrl1/pipeline.llrl
index a0c680a..c6fde48 100644
--- a/llrl1/pipeline.llrl
+++ b/llrl1/pipeline.llrl
@@ -10,7 +10,8 @@
   (error:source SourceLocationTable (Array (: Path SourceError)))
   (error:circular-dependencies (Array Path))
   (error:module String)
-  (error:produce-executable String))
+  (error:produce-executable String)
+  (error:execute String))
 
 (instance Display.Error (Display Error)
   (function (display! w a)
@@ -27,7 +28,9 @@
       [(error:module (let e))
         (display-all! w e "\n")]
       [(error:produce-executable (let e))
-        (display-all! w "Failed to produce executable: " e "\n")])))
+        (display-all! w "Failed to produce executable: " e "\n")]
+      [(error:execute (let e))
+        (display-all! w "Failed to execute process: " e "\n")])))
 
 (derive (DebugDisplay) data Pipeline
   (pipeline:
@@ -97,8 +100,11 @@
       [(: (let module-set) (some (: (let path) (let error))))
         ; The strings in error may belong to the macros that are released with the backend.
         (err (error:module (string (contextual: error (module-display-context module-set slt)) " (while building " path ")")))])))!
-  (ok
-    (with1? (some (let run-args)) run-args
-      (|> (process/execute! output run-args)
-          (result/unwrap* [^1 (assert #f (string "Failed to execute process: " %1))])
-          (option/unwrap* [^0 (assert #f "Failed to complete process")])))))
+  (match run-args
+    [(some (let run-args))
+      (match (process/execute! output run-args)
+        [(ok (some (let status))) (ok (some status))]
+        [(ok none) (err (error:execute "The process did not exit normally"))]
+        [(err (let e)) (err (error:execute (string e)))])]
+    [none
+      (ok none)]))
diff --git a/llrl1/util.llrl b/llrl1/util.llrl
index 2121d3a..4e36c92 100644
--- a/llrl1/util.llrl
+++ b/llrl1/util.llrl
@@ -63,15 +63,15 @@
     (vector/buffer buf)))
 
 (export with-tempdir!)
-(function (with-tempdir! f) {(forall A) (-> (-> String A) A)}
-  (let* ([buf (array/new 0 {U8} 8)]
-         [_ (random! buf)]
-         [dirname (string "llrl-tmp-" (string/join "" (it/map [^1 (integer/to-string 16 %1)] buf)))]
-         [dirpath (io/path "/tmp" dirname)]
-         [_ (result/unwrap* [^1 (assert #f (string "with-tempdir!: Failed to create " dirpath ": " %1))] (io/directory/create! dirpath))]
-         [ret (f dirpath)]
-         [_ (result/unwrap* [^1 (assert #f (string "with-tempdir!: Failed to remove " dirpath ": " %1))] (io/remove-all! dirpath))])
-    ret))
+(function (with-tempdir! f) {(forall A) (-> (-> String A) (Result A io/IoError))}
+  @let1 buf (array/new 0 {U8} 8)
+  (random! buf)
+  @let1 dirname (string "llrl-tmp-" (string/join "" (it/map [^1 (integer/to-string 16 %1)] buf)))
+  @let1 dirpath (io/path "/tmp" dirname)
+  (io/directory/create! dirpath)!
+  @let1 ret (f dirpath)
+  (io/remove-all! dirpath)!
+  (ok ret))
 
 ;    (string (it/format ", " (array 1 2 3)))
 ; => "1, 2, 3"
-- 
2.43.0


From e33fdec3f81ae5c4bde9f6f91efbb6d5b3520a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:44 +0000
Subject: [PATCH 17/24] fix: load a module whose name contains a dot from its
 own file, not from the one without the last part

---
 llrl0/src/source/loader.rs | 5 ++++-
 llrl1/source/loader.llrl   | 6 ++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/llrl0/src/source/loader.rs b/llrl0/src/source/loader.rs
index fc8920c..fd71a92 100644
--- a/llrl0/src/source/loader.rs
+++ b/llrl0/src/source/loader.rs
@@ -86,7 +86,10 @@ impl LoadablePackage {
                             }
                         }
                     }
-                    fs_path.set_extension(SOURCE_CODE_EXTENSION);
+                    // NOTE: set_extension would drop a part of a module name that contains dots
+                    let mut fs_path = fs_path.into_os_string();
+                    fs_path.push(".");
+                    fs_path.push(SOURCE_CODE_EXTENSION);
                     fs_path
                 };
 
diff --git a/llrl1/source/loader.llrl b/llrl1/source/loader.llrl
index 9b35e79..8aa33b2 100644
--- a/llrl1/source/loader.llrl
+++ b/llrl1/source/loader.llrl
@@ -95,10 +95,12 @@
     [(loadable-package:file-system (let fs-path))
       (let* ([module-name (path/module path)]
              [fs-path
-               (io/path/with-extension (some source/source-file-extension)
+               ; NOTE: io/path/with-extension would drop a part of a module name that contains dots
+               (string
                  (if (path/module-name/prelude? module-name)
                    (io/path/join fs-path "prelude")
-                   (it/fold io/path/join fs-path (path/module-name/raw-parts module-name))))])
+                   (it/fold io/path/join fs-path (path/module-name/raw-parts module-name)))
+                 #\. source/source-file-extension)])
         (match (io/with-file! fs-path "r" read-string-to-end!)
           [(ok (let text))
             (ok (source/from-code-text path locator text))]
-- 
2.43.0


From ccee48c868a132cebf3fb815c6c5aa1ed0e144f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:31 +0000
Subject: [PATCH 18/24] fix: report the same diagnostics for a module whatever
 order hashing gives its functions, instances and type variables

---
 llrl0/src/ast.rs                              |  2 +-
 llrl0/src/ast/root.rs                         | 48 +++++++++----------
 llrl0/src/module/meaning.rs                   | 14 +++---
 llrl0/src/module/scope.rs                     | 10 ++--
 llrl0/src/module/sema/resolver.rs             |  4 +-
 llrl0/src/module/sema/type_inference.rs       |  8 ++--
 .../module/sema/type_inference/unification.rs |  6 +--
 7 files changed, 46 insertions(+), 46 deletions(-)

diff --git a/llrl0/src/ast.rs b/llrl0/src/ast.rs
index 1682926..769e991 100644
--- a/llrl0/src/ast.rs
+++ b/llrl0/src/ast.rs
@@ -1,7 +1,7 @@
 //! An abstract syntax tree.
 
 use derive_new::new;
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 use std::fmt;
 
 #[macro_use]
diff --git a/llrl0/src/ast/root.rs b/llrl0/src/ast/root.rs
index 7f6769c..82eba34 100644
--- a/llrl0/src/ast/root.rs
+++ b/llrl0/src/ast/root.rs
@@ -3,18 +3,18 @@ use super::*;
 #[derive(Debug, Clone)]
 pub struct Root {
     pub id: NodeId<Root>,
-    pub functions: HashMap<NodeId<Function>, Function>,
-    pub c_functions: HashMap<NodeId<CFunction>, CFunction>,
-    pub builtin_ops: HashMap<NodeId<BuiltinOp>, BuiltinOp>,
-    pub macros: HashMap<NodeId<Macro>, Macro>,
-    pub data_type_cons: HashMap<NodeId<DataTypeCon>, DataTypeCon>,
-    pub data_value_cons: HashMap<NodeId<DataValueCon>, DataValueCon>,
-    pub builtin_type_cons: HashMap<NodeId<BuiltinTypeCon>, BuiltinTypeCon>,
-    pub builtin_value_cons: HashMap<NodeId<BuiltinValueCon>, BuiltinValueCon>,
-    pub class_cons: HashMap<NodeId<ClassCon>, ClassCon>,
-    pub class_methods: HashMap<NodeId<ClassMethod>, ClassMethod>,
-    pub instance_cons: HashMap<NodeId<InstanceCon>, InstanceCon>,
-    pub instance_methods: HashMap<NodeId<InstanceMethod>, InstanceMethod>,
+    pub functions: BTreeMap<NodeId<Function>, Function>,
+    pub c_functions: BTreeMap<NodeId<CFunction>, CFunction>,
+    pub builtin_ops: BTreeMap<NodeId<BuiltinOp>, BuiltinOp>,
+    pub macros: BTreeMap<NodeId<Macro>, Macro>,
+    pub data_type_cons: BTreeMap<NodeId<DataTypeCon>, DataTypeCon>,
+    pub data_value_cons: BTreeMap<NodeId<DataValueCon>, DataValueCon>,
+    pub builtin_type_cons: BTreeMap<NodeId<BuiltinTypeCon>, BuiltinTypeCon>,
+    pub builtin_value_cons: BTreeMap<NodeId<BuiltinValueCon>, BuiltinValueCon>,
+    pub class_cons: BTreeMap<NodeId<ClassCon>, ClassCon>,
+    pub class_methods: BTreeMap<NodeId<ClassMethod>, ClassMethod>,
+    pub instance_cons: BTreeMap<NodeId<InstanceCon>, InstanceCon>,
+    pub instance_methods: BTreeMap<NodeId<InstanceMethod>, InstanceMethod>,
     pub init_expressions: Vec<InitExpr>,
 }
 
@@ -22,18 +22,18 @@ impl Root {
     pub fn new(id: NodeId<Root>) -> Self {
         Self {
             id,
-            functions: HashMap::new(),
-            c_functions: HashMap::new(),
-            builtin_ops: HashMap::new(),
-            macros: HashMap::new(),
-            data_type_cons: HashMap::new(),
-            data_value_cons: HashMap::new(),
-            builtin_type_cons: HashMap::new(),
-            builtin_value_cons: HashMap::new(),
-            class_cons: HashMap::new(),
-            class_methods: HashMap::new(),
-            instance_cons: HashMap::new(),
-            instance_methods: HashMap::new(),
+            functions: BTreeMap::new(),
+            c_functions: BTreeMap::new(),
+            builtin_ops: BTreeMap::new(),
+            macros: BTreeMap::new(),
+            data_type_cons: BTreeMap::new(),
+            data_value_cons: BTreeMap::new(),
+            builtin_type_cons: BTreeMap::new(),
+            builtin_value_cons: BTreeMap::new(),
+            class_cons: BTreeMap::new(),
+            class_methods: BTreeMap::new(),
+            instance_cons: BTreeMap::new(),
+            instance_methods: BTreeMap::new(),
             init_expressions: Vec::new(),
         }
     }
diff --git a/llrl0/src/module/meaning.rs b/llrl0/src/module/meaning.rs
index 9cd5c04..ac832c7 100644
--- a/llrl0/src/module/meaning.rs
+++ b/llrl0/src/module/meaning.rs
@@ -2,7 +2,7 @@ use crate::ast::*;
 use crate::source_loc::SourceLocation;
 use once_cell::sync::Lazy;
 use std::borrow::Cow;
-use std::collections::{HashMap, HashSet};
+use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
 
 #[derive(PartialEq, Eq, PartialOrd, Ord, Debug, Clone, Copy, Hash)]
 pub struct LocatedConstruct {
@@ -29,14 +29,14 @@ pub type Imports = HashSet<ModuleId>;
 /// The set of located constructs that the module is exporting.
 #[derive(Debug, Clone)]
 pub struct Exports {
-    map: HashMap<String, LocatedConstruct>,
+    map: BTreeMap<String, LocatedConstruct>,
 }
 
 impl Exports {
     #[allow(clippy::new_without_default)]
     pub fn new() -> Self {
         Self {
-            map: HashMap::new(),
+            map: BTreeMap::new(),
         }
     }
 
@@ -108,10 +108,10 @@ impl Symbol {
 
 #[derive(Debug, Clone)]
 pub struct AvailableInstances {
-    map: HashMap<NodeId<ClassCon>, HashSet<NodeId<InstanceCon>>>,
+    map: HashMap<NodeId<ClassCon>, BTreeSet<NodeId<InstanceCon>>>,
 }
 
-static DUMMY_INSTANCES: Lazy<HashSet<NodeId<InstanceCon>>> = Lazy::new(HashSet::new);
+static DUMMY_INSTANCES: Lazy<BTreeSet<NodeId<InstanceCon>>> = Lazy::new(BTreeSet::new);
 
 impl AvailableInstances {
     #[allow(clippy::new_without_default)]
@@ -129,11 +129,11 @@ impl AvailableInstances {
             .insert(con.id);
     }
 
-    pub fn get(&self, id: NodeId<ClassCon>) -> &HashSet<NodeId<InstanceCon>> {
+    pub fn get(&self, id: NodeId<ClassCon>) -> &BTreeSet<NodeId<InstanceCon>> {
         self.map.get(&id).unwrap_or(&*DUMMY_INSTANCES)
     }
 
-    pub fn iter(&self) -> impl Iterator<Item = (NodeId<ClassCon>, &HashSet<NodeId<InstanceCon>>)> {
+    pub fn iter(&self) -> impl Iterator<Item = (NodeId<ClassCon>, &BTreeSet<NodeId<InstanceCon>>)> {
         self.map.iter().map(|(k, v)| (*k, v))
     }
 }
diff --git a/llrl0/src/module/scope.rs b/llrl0/src/module/scope.rs
index cf0c4ff..eedab64 100644
--- a/llrl0/src/module/scope.rs
+++ b/llrl0/src/module/scope.rs
@@ -1,5 +1,5 @@
 use super::{sema, Error, LocatedConstruct};
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 
 /// A key-value store for language constructs.
 pub trait Scope: Sized {
@@ -24,14 +24,14 @@ impl<'a, T: Scope> Scope for &'a mut T {
 
 #[derive(Debug, Clone)]
 pub struct TopLevel {
-    map: HashMap<String, LocatedConstruct>,
+    map: BTreeMap<String, LocatedConstruct>,
 }
 
 impl TopLevel {
     #[allow(clippy::new_without_default)]
     pub fn new() -> Self {
         Self {
-            map: HashMap::new(),
+            map: BTreeMap::new(),
         }
     }
 
@@ -60,12 +60,12 @@ impl Scope for TopLevel {
 }
 
 pub struct LocalScope<'a> {
-    map: &'a mut HashMap<String, LocatedConstruct>,
+    map: &'a mut BTreeMap<String, LocatedConstruct>,
     stash: HashMap<String, Option<LocatedConstruct>>,
 }
 
 impl<'a> LocalScope<'a> {
-    pub fn new(map: &'a mut HashMap<String, LocatedConstruct>) -> Self {
+    pub fn new(map: &'a mut BTreeMap<String, LocatedConstruct>) -> Self {
         Self {
             map,
             stash: HashMap::new(),
diff --git a/llrl0/src/module/sema/resolver.rs b/llrl0/src/module/sema/resolver.rs
index 551acc3..73d9c87 100644
--- a/llrl0/src/module/sema/resolver.rs
+++ b/llrl0/src/module/sema/resolver.rs
@@ -4,7 +4,7 @@ use super::{
 };
 use crate::ast::*;
 use either::*;
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 pub fn run(module: &mut Module, external: &impl External) -> Result<()> {
     let mut ctx = ContextImpl {
@@ -32,7 +32,7 @@ pub fn run(module: &mut Module, external: &impl External) -> Result<()> {
                     let info = (method.id, method.arity(), method.default_body.is_none());
                     (symbol.name.to_string(), info)
                 })
-                .collect::<HashMap<_, _>>();
+                .collect::<BTreeMap<_, _>>();
             (class, method_table)
         };
 
diff --git a/llrl0/src/module/sema/type_inference.rs b/llrl0/src/module/sema/type_inference.rs
index c003087..4c4cd84 100644
--- a/llrl0/src/module/sema/type_inference.rs
+++ b/llrl0/src/module/sema/type_inference.rs
@@ -6,7 +6,7 @@ use crate::topological_sort;
 use derive_new::new;
 use either::*;
 use if_chain::if_chain;
-use std::collections::{BTreeSet, HashMap, HashSet};
+use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
 use typed_arena::Arena;
 
 mod kind_env;
@@ -271,7 +271,7 @@ impl<'a, E: External> Context<'a, E> {
         let current_ccs = Arena::new();
         let mut outer_ccs = Vec::new();
         let mut s_params = Vec::new();
-        let mut defaulting_vars = HashMap::<u::Var, Vec<_>>::new();
+        let mut defaulting_vars = BTreeMap::<u::Var, Vec<_>>::new();
 
         // rust-lang/rust#43244
         for constraint in scope.consume_context_constraints() {
@@ -492,7 +492,7 @@ impl<'a, E: External> Context<'a, E> {
 
     fn verify_classes_hierarchy(
         &mut self,
-        classes: &HashMap<ast::NodeId<ast::ClassCon>, ast::ClassCon>,
+        classes: &BTreeMap<ast::NodeId<ast::ClassCon>, ast::ClassCon>,
     ) -> Result<()> {
         for group in topological_sort::run(classes.values().map(|con| (con.id, con))) {
             if group.len() >= 2 {
@@ -537,7 +537,7 @@ impl<'a, E: External> Context<'a, E> {
 
     fn infer_functions(
         &mut self,
-        functions: &HashMap<ast::NodeId<ast::Function>, ast::Function>,
+        functions: &BTreeMap<ast::NodeId<ast::Function>, ast::Function>,
     ) -> Result<()> {
         for group in topological_sort::run(
             functions
diff --git a/llrl0/src/module/sema/type_inference/unification.rs b/llrl0/src/module/sema/type_inference/unification.rs
index a20cfee..23ef0a3 100644
--- a/llrl0/src/module/sema/type_inference/unification.rs
+++ b/llrl0/src/module/sema/type_inference/unification.rs
@@ -2,7 +2,7 @@ use crate::ast::{self, builtin};
 use derive_new::new;
 use if_chain::if_chain;
 use std::cell::RefCell;
-use std::collections::{BTreeSet, HashMap};
+use std::collections::{BTreeMap, BTreeSet, HashMap};
 use std::rc::Rc;
 
 pub use crate::unification::types::*;
@@ -580,14 +580,14 @@ impl ContextConstraint {
 
 #[derive(Debug, Clone)]
 pub struct Premise {
-    class_constraints: HashMap<ast::NodeId<ast::ClassCon>, Vec<PremiseClassConstraint>>,
+    class_constraints: BTreeMap<ast::NodeId<ast::ClassCon>, Vec<PremiseClassConstraint>>,
 }
 
 impl Premise {
     #[allow(clippy::new_without_default)]
     pub fn new() -> Self {
         Self {
-            class_constraints: HashMap::new(),
+            class_constraints: BTreeMap::new(),
         }
     }
 
-- 
2.43.0


From 3cb126844b29e9cee606c6f5227e55afb6d54727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:51 +0000
Subject: [PATCH 19/24] fix: order the modules, their errors and import cycles
 independently of hashing

---
 llrl0/src/source.rs     |  3 ++-
 llrl0/src/source/set.rs | 10 +++++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/llrl0/src/source.rs b/llrl0/src/source.rs
index af5c7bb..abc7a7b 100644
--- a/llrl0/src/source.rs
+++ b/llrl0/src/source.rs
@@ -6,6 +6,7 @@ use crate::sexp::Ss;
 use crate::source_loc::SourceLocator;
 use crate::syntax;
 use crate::topological_sort;
+use itertools::Itertools;
 use std::collections::HashMap;
 
 mod collector;
@@ -135,7 +136,7 @@ impl Source {
 
 impl topological_sort::DependencyList<Path> for Source {
     fn traverse_dependencies(&self, f: &mut impl FnMut(&Path)) {
-        self.dependencies.values().for_each(f);
+        self.dependencies.values().sorted().for_each(f);
     }
 }
 
diff --git a/llrl0/src/source/set.rs b/llrl0/src/source/set.rs
index 92d5f23..ee43d8c 100644
--- a/llrl0/src/source/set.rs
+++ b/llrl0/src/source/set.rs
@@ -1,19 +1,19 @@
 use super::{Error, Source};
 use crate::path::{ModuleName, PackageName, Path};
 use crate::topological_sort;
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 /// A set of loaded sources.
 #[derive(Debug, Clone)]
 pub struct SourceSet {
-    map: HashMap<PackageName, HashMap<ModuleName, Source>>,
+    map: BTreeMap<PackageName, BTreeMap<ModuleName, Source>>,
 }
 
 impl SourceSet {
     #[allow(clippy::new_without_default)]
     pub fn new() -> Self {
         Self {
-            map: HashMap::new(),
+            map: BTreeMap::new(),
         }
     }
 
@@ -21,11 +21,11 @@ impl SourceSet {
         let path = source.path.clone();
         self.map
             .entry(path.package)
-            .or_insert_with(HashMap::new)
+            .or_insert_with(BTreeMap::new)
             .insert(path.module, source);
     }
 
-    pub fn packages(&self) -> &HashMap<PackageName, HashMap<ModuleName, Source>> {
+    pub fn packages(&self) -> &BTreeMap<PackageName, BTreeMap<ModuleName, Source>> {
         &self.map
     }
 
-- 
2.43.0


From c7f93ae68e761726b3aa58c14caa9ec8d32bc80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:23 +0000
Subject: [PATCH 20/24] fix: float.ge yields a Bool

---
 llrl0/src/lowering/ir/rt.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/llrl0/src/lowering/ir/rt.rs b/llrl0/src/lowering/ir/rt.rs
index 8584886..ace6eb1 100644
--- a/llrl0/src/lowering/ir/rt.rs
+++ b/llrl0/src/lowering/ir/rt.rs
@@ -432,11 +432,9 @@ impl Binary {
             Store => Cow::Owned(Ct::Unit),
             Offset => b.ty()?,
             IShl | IAShr | ILShr | IAnd | IOr | IXor | SAdd | SSub | SMul | SDiv | SRem | UAdd
-            | USub | UMul | UDiv | URem | FGe | FAdd | FSub | FMul | FDiv | FRem | MathPow => {
-                a.ty()?
-            }
+            | USub | UMul | UDiv | URem | FAdd | FSub | FMul | FDiv | FRem | MathPow => a.ty()?,
             PtrEq | PtrLt | PtrLe | PtrGt | PtrGe | IEq | SLt | SLe | SGt | SGe | ULt | ULe
-            | UGt | UGe | FEq | FLt | FLe | FGt | StringEq => Cow::Owned(Ct::BOOL),
+            | UGt | UGe | FEq | FLt | FLe | FGt | FGe | StringEq => Cow::Owned(Ct::BOOL),
             StringConstruct => Cow::Owned(Ct::String),
             StringCmp => Cow::Owned(Ct::S(32)),
             StringConcat => Cow::Owned(Ct::String),
-- 
2.43.0


From b718381eae4c1fabdbf521ad45d9d03032e09459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:23 +0000
Subject: [PATCH 21/24] fix: keep a return inside a transparent function, and
 accept one whose argument binds variables and is used twice

---
 llrl0/src/lowering/ir/rewriter.rs  |  3 ++-
 llrl0/src/lowering/ir/traverser.rs | 23 +++++++++++++++++++++++
 llrl0/src/lowering/normalizer.rs   |  2 +-
 llrl1/lowering/ir/transformer.llrl | 20 +++++++++++++++++++-
 llrl1/lowering/normalizer.llrl     |  3 ++-
 5 files changed, 47 insertions(+), 4 deletions(-)

diff --git a/llrl0/src/lowering/ir/rewriter.rs b/llrl0/src/lowering/ir/rewriter.rs
index d79a62f..e5aa06c 100644
--- a/llrl0/src/lowering/ir/rewriter.rs
+++ b/llrl0/src/lowering/ir/rewriter.rs
@@ -555,7 +555,8 @@ impl<F: FnMut() -> RtId> Rewriter for ReallocRts<F> {
 
     fn after_rt_def(&mut self, id: &mut RtId, _ty: impl FnOnce() -> Ct) -> Result<(), Self::Error> {
         let new_id = (self.0)();
-        assert!(self.1.insert(*id, new_id).is_none());
+        // The same definition may appear more than once, one after another
+        self.1.insert(*id, new_id);
         *id = new_id;
         Ok(())
     }
diff --git a/llrl0/src/lowering/ir/traverser.rs b/llrl0/src/lowering/ir/traverser.rs
index 0c915df..e500a21 100644
--- a/llrl0/src/lowering/ir/traverser.rs
+++ b/llrl0/src/lowering/ir/traverser.rs
@@ -555,3 +555,26 @@ impl<F: FnMut(&CtId)> Traverser for CtUsesVisitor<F> {
         Ok(())
     }
 }
+
+/// Whether there is a return from the function of which the source is (a part of) the body.
+pub fn has_return(src: &impl Traverse) -> bool {
+    traverse(src, &mut HasReturn).is_err()
+}
+
+#[derive(Debug)]
+struct HasReturn;
+
+impl Traverser for HasReturn {
+    type Error = ();
+
+    fn before_rt(&mut self, rt: &Rt) -> Result<bool, ()> {
+        match rt {
+            Rt::Return(_) => Err(()),
+            Rt::LetLocalFun(let_) => {
+                self.traverse(&let_.1)?;
+                Ok(false)
+            }
+            _ => Ok(true),
+        }
+    }
+}
diff --git a/llrl0/src/lowering/normalizer.rs b/llrl0/src/lowering/normalizer.rs
index 3cf8d36..ac3874e 100644
--- a/llrl0/src/lowering/normalizer.rs
+++ b/llrl0/src/lowering/normalizer.rs
@@ -107,7 +107,7 @@ impl<'e, E: Env> rewriter::Rewriter for Normalizer<'e, E> {
             if let Ct::Id(id) = capture.fun;
             if let Some(ProcessingDef { is_normalized, def }) = self.env.get_processing_def(id);
             if let Def::Function(f) = def.as_ref();
-            if f.transparent;
+            if f.transparent && !traverser::has_return(&f.body);
             then {
                 let args = std::mem::take(&mut call.args);
                 *rt = call_transparent(f, args, || self.env.alloc_rt());
diff --git a/llrl1/lowering/ir/transformer.llrl b/llrl1/lowering/ir/transformer.llrl
index 813f56c..ae94eb0 100644
--- a/llrl1/lowering/ir/transformer.llrl
+++ b/llrl1/lowering/ir/transformer.llrl
@@ -4,7 +4,7 @@
 (import "~/lowering/ir" _)
 (export Cut cut:_ Rewrite _.Rewrite rewrite: rewrite/_)
 (export Transformer transformer/_ Transform Transform._ transform)
-(export captured-vars visit-ct-uses replace-ct replace-rt realloc-rts)
+(export captured-vars has-return? visit-ct-uses replace-ct replace-rt realloc-rts)
 
 (value-data Cut
   cut:yes
@@ -412,6 +412,24 @@
       (ord-set/insert! id defs)
       (ok (rewrite/unchanged id)))))
 
+; Whether there is a return from the function of which the source is (a part of) the body.
+(function (has-return? t) {(forall T) (-> T Bool) (where (Transform T))}
+  (is? (err _) (transform has-return: t){(Result (Rewrite T) unit)}))
+
+(value-data HasReturn
+  has-return:)
+
+(instance Transformer.HasReturn (Transformer HasReturn unit)
+  (function (transformer/before-rt rt t)
+    (match rt
+      [(rt:return _)
+        (err unit)]
+      [(rt:let-local-fun _ (let body))
+        (ignore (transform t body)!)
+        (ok (: cut:yes (rewrite/unchanged rt)))]
+      [_
+        (ok (: cut:no (rewrite/unchanged rt)))])))
+
 (function (visit-ct-uses f t) {(forall T) (-> (-> CtId unit) T unit) (where (Transform T))}
   (ignore (result/unwrap* never (transform (ct-uses-visitor: f) t))))
 
diff --git a/llrl1/lowering/normalizer.llrl b/llrl1/lowering/normalizer.llrl
index b06bbb1..af1b92f 100644
--- a/llrl1/lowering/normalizer.llrl
+++ b/llrl1/lowering/normalizer.llrl
@@ -63,7 +63,8 @@
                    [(rt:static-fun (ct:id (let id)) _ none) callee]
                    [(some (processing-def: (let normalized?) (let def))) (processing-def? id (env n))]
                    [(def:function (let f)) def]
-                   [#t (function/transparent? f)])
+                   [#t (function/transparent? f)]
+                   [#f (has-return? (function/body f))])
       (let1 rt (call-transparent f args [^0 (alloc-rt! (env n))])
         (if normalized?
           (rewrite/as-changed (transformer/after-rt rt n)!)
-- 
2.43.0


From 55f66fcb4b5aab49757d19b9db277e1fc0a8d28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:36 +0000
Subject: [PATCH 22/24] fix: match on a value of the same representation as,
 but another type than, its patterns no longer recurses forever in the
 compiler

---
 llrl0/src/lowering/branch_expander.rs | 21 +++++++--------------
 llrl1/lowering/branch-expander.llrl   |  6 +++---
 2 files changed, 10 insertions(+), 17 deletions(-)

diff --git a/llrl0/src/lowering/branch_expander.rs b/llrl0/src/lowering/branch_expander.rs
index e1b9b15..91ba09b 100644
--- a/llrl0/src/lowering/branch_expander.rs
+++ b/llrl0/src/lowering/branch_expander.rs
@@ -51,7 +51,7 @@ impl<'e, E: Env> MatchExpander<'e, E> {
             let mut matches = VecDeque::with_capacity(clauses.len());
 
             for clause in clauses {
-                let pat = FlattenPat::from(clause.pat);
+                let pat = FlattenPat::new(clause.pat, ty.clone());
                 let id = self.env.alloc_rt();
                 let ret = clause.body.ty().map(|ty| ty.into_owned());
                 conts.push(RtCont::new(id, pat.binds, clause.body));
@@ -265,12 +265,14 @@ struct FlattenPat {
 }
 
 impl FlattenPat {
-    #[allow(clippy::new_without_default)]
-    fn new() -> Self {
-        Self {
+    /// Flatten the pattern which is matched against a value of the given type.
+    fn new(pat: RtPat, ty: Ct) -> Self {
+        let mut p = Self {
             parts: VecDeque::new(),
             binds: Vec::new(),
-        }
+        };
+        p.collect(pat, &PatPart::Root(ty));
+        p
     }
 
     /// Collect the necessary `PatPart`s from `RtPat`.
@@ -326,15 +328,6 @@ impl FlattenPat {
     }
 }
 
-impl From<RtPat> for FlattenPat {
-    fn from(pat: RtPat) -> Self {
-        let mut p = Self::new();
-        let ty = pat.ty().into_owned();
-        p.collect(pat, &PatPart::Root(ty));
-        p
-    }
-}
-
 /// A representation of a certain part of a pattern.
 /// PatPart is represented by a recursive structure from a leaf of the pattern tree to the root.
 #[derive(PartialEq, Eq, PartialOrd, Ord, Debug, Clone, Hash)]
diff --git a/llrl1/lowering/branch-expander.llrl b/llrl1/lowering/branch-expander.llrl
index 92af3ae..398aba7 100644
--- a/llrl1/lowering/branch-expander.llrl
+++ b/llrl1/lowering/branch-expander.llrl
@@ -29,7 +29,7 @@
           [matches (array/unsafe-alloc-uninitialized (array/length clauses))])
 
       (for (: (let i) (rt-clause: (let pat) (let body))) (it/with-index clauses)
-        (with1 (flatten-pat: (let parts) (let binds)) (flatten-pat pat)
+        (with1 (flatten-pat: (let parts) (let binds)) (flatten-pat pat ty)
           (let1 id (alloc-rt! env)
             (set! conts[i] (rt-cont: id binds body))
             (set! matches[i] (: parts id (rt/ty body))))))
@@ -167,7 +167,7 @@
 (derive (Eq Ord DebugDisplay Hash) value-data FlattenPat
   (flatten-pat: (Array PatPart) (Array RtParam))) ; parts binds
 
-(function (flatten-pat pat) {(-> RtPat FlattenPat)}
+(function (flatten-pat pat ty) {(-> RtPat Ct FlattenPat)}
   (let* ([parts vector/empty]
          [binds vector/empty]
          [(collect! pat parent) {(-> RtPat PatPart Bool)}
@@ -205,7 +205,7 @@
              [(rt-pat:const (let c))
                (vector/push! (pat-part:const c parent) parts)
                #t])])
-    (collect! pat (pat-part:root (rt-pat/ty pat)))
+    (collect! pat (pat-part:root ty))
     (flatten-pat: (vector/buffer parts) (vector/buffer binds))))
 
 ; A representation of a certain part of a pattern.
-- 
2.43.0


From e768e916e0ac8e1cb96f3befac1141bcf027fc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:15 +0000
Subject: [PATCH 23/24] fix: chibi: move a floating-point field of a struct to
 its register when the struct is in general ones

---
 llrl0/src/backend/chibi/codegen.rs | 5 ++++-
 llrl1/backend/chibi/codegen.llrl   | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/llrl0/src/backend/chibi/codegen.rs b/llrl0/src/backend/chibi/codegen.rs
index ae754a5..a37e250 100644
--- a/llrl0/src/backend/chibi/codegen.rs
+++ b/llrl0/src/backend/chibi/codegen.rs
@@ -640,7 +640,10 @@ impl<'a> FunctionCodegen<'a> {
             }
             StructElem(_, i) => {
                 let (offset, layout) = a_layout.composite.as_ref().unwrap().elems[*i].clone();
-                if offset != 0 || a_layout.num_eightbytes() > layout.num_eightbytes() {
+                if offset != 0
+                    || a_layout.num_eightbytes() > layout.num_eightbytes()
+                    || a_layout.class != layout.class
+                {
                     let diff = (a_layout.num_eightbytes() - layout.num_eightbytes()) * 8;
                     self.push(&a_layout)?;
                     self.slide_in_stack(offset, diff, &layout)?;
diff --git a/llrl1/backend/chibi/codegen.llrl b/llrl1/backend/chibi/codegen.llrl
index 9efab8d..5bac9fa 100644
--- a/llrl1/backend/chibi/codegen.llrl
+++ b/llrl1/backend/chibi/codegen.llrl
@@ -550,7 +550,10 @@
       (some elem-layout)]
     [(ir/unary:struct-elem _ (let i))
       @with1 (: (let offset) (let layout)) (get (|> a-layout layout/composite option/force composite-layout/elems)[i])
-      (when (or (ne? offset 0) (> (layout/num-eightbytes a-layout) (layout/num-eightbytes layout)))
+      (when (or
+              (ne? offset 0)
+              (> (layout/num-eightbytes a-layout) (layout/num-eightbytes layout))
+              (ne? (layout/class a-layout) (layout/class layout)))
         @let1 diff (* (- (layout/num-eightbytes a-layout) (layout/num-eightbytes layout)) 8)
         (..push! cg a-layout)!
         (..slide-in-stack! cg offset diff layout)!
-- 
2.43.0


From 9781a20d8476dc4bd3b7f88d95f56e45e4144f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:25 +0000
Subject: [PATCH 24/24] fix: chibi: read a struct held in the registers of
 another struct from the right ones

---
 llrl0/src/backend/chibi/codegen.rs | 9 +++++----
 llrl1/backend/chibi/codegen.llrl   | 5 ++++-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/llrl0/src/backend/chibi/codegen.rs b/llrl0/src/backend/chibi/codegen.rs
index a37e250..960e1d5 100644
--- a/llrl0/src/backend/chibi/codegen.rs
+++ b/llrl0/src/backend/chibi/codegen.rs
@@ -640,10 +640,11 @@ impl<'a> FunctionCodegen<'a> {
             }
             StructElem(_, i) => {
                 let (offset, layout) = a_layout.composite.as_ref().unwrap().elems[*i].clone();
-                if offset != 0
-                    || a_layout.num_eightbytes() > layout.num_eightbytes()
-                    || a_layout.class != layout.class
-                {
+                // The same eightbyte is in another register if the struct and the element
+                // classify it differently
+                let same_regs = (a_layout.eightbytes().map(|e| e.class))
+                    .eq(layout.eightbytes().map(|e| e.class));
+                if offset != 0 || !same_regs {
                     let diff = (a_layout.num_eightbytes() - layout.num_eightbytes()) * 8;
                     self.push(&a_layout)?;
                     self.slide_in_stack(offset, diff, &layout)?;
diff --git a/llrl1/backend/chibi/codegen.llrl b/llrl1/backend/chibi/codegen.llrl
index 5bac9fa..eb4bafb 100644
--- a/llrl1/backend/chibi/codegen.llrl
+++ b/llrl1/backend/chibi/codegen.llrl
@@ -553,7 +553,10 @@
       (when (or
               (ne? offset 0)
               (> (layout/num-eightbytes a-layout) (layout/num-eightbytes layout))
-              (ne? (layout/class a-layout) (layout/class layout)))
+              ; The same eightbyte is in another register if the struct and the element classify it differently
+              (it/any?
+                (case1 (: (let a) (let b)) (ne? (eightbyte/class a) (eightbyte/class b)))
+                (it/zip (layout/eightbytes a-layout) (layout/eightbytes layout))))
         @let1 diff (* (- (layout/num-eightbytes a-layout) (layout/num-eightbytes layout)) 8)
         (..push! cg a-layout)!
         (..slide-in-stack! cg offset diff layout)!
-- 
2.43.0

