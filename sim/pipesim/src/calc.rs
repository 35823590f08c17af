//! Random typed functions together with the value they compute.
//!
//! Each is text in the language under test and a tree evaluated here, so the number a compiled
//! program prints is predicted without any of the code under test.
use crate::rng::Rng;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { I(u8, bool), B, F, G, S, U, T(Vec<Ty>), D(usize), Fn(Vec<Ty>, Box<Ty>), R(Box<Ty>), A(Box<Ty>) }

#[derive(Clone, Debug)]
pub enum Val { N(u64), B(bool), F(f64), G(f32), S(Rc<String>), U, T(Rc<Vec<Val>>), D(usize, Rc<Vec<Val>>), Fn(Rc<Clo>), R(Rc<RefCell<Val>>), A(Rc<RefCell<Vec<Val>>>) }
#[derive(Debug)]
pub struct Clo { params: Vec<String>, body: Rc<E>, env: RefCell<Env>, name: String }
type Env = Vec<(String, Val)>;

#[derive(Clone, Debug)]
pub enum Pat { Any, Var(String), Num(u64, u8, bool), Bool(bool), Str(String), Tup(Vec<Pat>), Con(usize, usize, Vec<Pat>) }

#[derive(Clone, Debug)]
pub enum E {
    Lit(Val, Ty), Var(String), Op(&'static str, Vec<E>, Ty), Conv(&'static str, Box<E>, Ty, Ty),
    If(Box<E>, Box<E>, Box<E>), Let(Vec<(String, E)>, Box<E>), LetFun(String, Vec<(String, Ty)>, Ty, Rc<E>, Box<E>),
    Call(Box<E>, Vec<E>), Top(usize, Vec<E>), Gen(Box<E>, Box<E>), Other(usize, Box<E>),
    Begin(Vec<E>, Box<E>), While(Box<E>, Box<E>), Match(Box<E>, Vec<(Pat, E)>), Tup(Vec<E>), Con(usize, usize, Vec<E>), Ret(Box<E>),
    RefNew(Box<E>), RefGet(Box<E>), RefSet(Box<E>, Box<E>), ArrNew(Ty, Vec<E>), ArrGet(usize, Box<E>), ArrSet(usize, Box<E>, Box<E>), ArrLen(Box<E>),
}

pub struct Data { value: bool, ctors: Vec<Vec<Ty>> }
pub struct Fun { transparent: bool, params: Vec<(String, Ty)>, ret: Ty, body: E }
pub struct Calc { i: usize, data: Vec<Data>, funs: Vec<Fun> }

fn mask(v: u64, b: u8) -> u64 { if b == 64 { v } else { v & ((1 << b) - 1) } }
fn sx(v: u64, b: u8) -> i64 { ((v << (64 - b as u32)) as i64) >> (64 - b as u32) }

struct Gen<'a> { r: Rng, i: usize, data: Vec<Data>, funs: Vec<Fun>, others: &'a [usize], fresh: usize, mult: usize, budget: isize, ret: Option<Ty>, cur: usize }
type Scope = Vec<(String, Ty)>;

impl Ty {
    fn text(&self, i: usize) -> String {
        match self {
            Ty::I(b, s) => format!("{}{}", if *s { "I" } else { "U" }, b), Ty::B => "Bool".into(), Ty::F => "F64".into(), Ty::G => "F32".into(), Ty::S => "String".into(), Ty::U => "unit".into(),
            Ty::T(v) => format!("(: {})", v.iter().map(|t| t.text(i)).collect::<Vec<_>>().join(" ")),
            Ty::D(k) => format!("Q{}-{}", i, k),
            Ty::Fn(a, r) => format!("(->{} {})", a.iter().map(|t| format!(" {}", t.text(i))).collect::<String>(), r.text(i)),
            Ty::R(t) => format!("(Ref {})", t.text(i)), Ty::A(t) => format!("(Array {})", t.text(i)),
        }
    }
}

impl<'a> Gen<'a> {
    fn int(&mut self) -> Ty { Ty::I(*self.r.pick(&[8, 16, 32, 32, 64]), self.r.p(60)) }
    fn ty(&mut self, d: usize) -> Ty {
        match self.r.n(if d == 0 { 9 } else { 16 }) {
            0..=3 => self.int(), 4 => Ty::B, 5 => Ty::F, 6 => if self.r.p(50) { Ty::G } else { Ty::S }, 7 => Ty::S, 8 => Ty::I(32, true),
            9 | 10 => { let n = 1 + self.r.n(4); Ty::T((0..n).map(|_| self.ty(d - 1)).collect()) }
            11 | 12 if !self.data.is_empty() => Ty::D(self.r.n(self.data.len())),
            13 => { let n = self.r.n(4); Ty::Fn((0..n).map(|_| self.ty(d - 1)).collect(), Box::new(self.ty(d - 1))) }
            14 => Ty::R(Box::new(self.ty(d - 1))),
            15 => Ty::A(Box::new(self.ty(d - 1))),
            _ => self.int(),
        }
    }
    fn name(&mut self, s: &Scope) -> String {
        // now and then a name that hides another
        if self.r.p(25) && !s.is_empty() { return self.r.pick(s).0.clone(); }
        self.fresh += 1;
        format!("v{}", self.fresh)
    }
    fn visible(&self, s: &Scope) -> Scope {
        let mut o: Scope = vec![];
        for (k, x) in s.iter().enumerate() { if !s[k + 1..].iter().any(|y| y.0 == x.0) { o.push(x.clone()); } }
        o
    }
    fn lit(&mut self, t: &Ty) -> E {
        match t {
            Ty::I(b, s) => {
                let v = match self.r.n(5) { 0 => 0, 1 => 1, 2 => u64::MAX, 3 => if *s { 1 << (b - 1) } else { self.r.next() }, _ => self.r.n(100) as u64 };
                let v = if self.r.p(20) { self.r.next() } else { v };
                E::Lit(Val::N(mask(v, *b)), t.clone())
            }
            Ty::B => E::Lit(Val::B(self.r.p(50)), Ty::B),
            Ty::F => E::Lit(Val::F(self.r.n(4000) as f64 / 4.0 - 300.0), Ty::F),
            Ty::G => E::Lit(Val::G(self.r.n(4000) as f32 / 4.0 - 300.0), Ty::G),
            Ty::S => { let n = self.r.n(5); E::Lit(Val::S(Rc::new((0..n).map(|_| *self.r.pick(&['a', 'b', 'é', 'z', '0'])).collect())), Ty::S) }
            Ty::U => E::Lit(Val::U, Ty::U),
            Ty::T(v) => E::Tup(v.iter().map(|t| self.lit(t)).collect()),
            Ty::D(k) => { let c = self.r.n(self.data[*k].ctors.len()); let f = self.data[*k].ctors[c].clone(); E::Con(*k, c, f.iter().map(|t| self.lit(t)).collect()) }
            Ty::Fn(a, r) => { let n = self.name(&vec![]); let ps = a.iter().map(|t| (self.name(&vec![]), t.clone())).collect(); let b = self.lit(r); E::LetFun(n.clone(), ps, (**r).clone(), Rc::new(b), Box::new(E::Var(n))) }
            Ty::R(t) => E::RefNew(Box::new(self.lit(t))),
            Ty::A(t) => { let n = 1 + self.r.n(4); E::ArrNew((**t).clone(), (0..n).map(|_| self.lit(t)).collect()) }
        }
    }
    fn args(&mut self, s: &Scope, ts: &[Ty], d: usize) -> Vec<E> { ts.iter().map(|t| self.e(s, t, d)).collect() }
    fn e(&mut self, s: &Scope, t: &Ty, d: usize) -> E {
        self.budget -= self.mult as isize;
        let vis = self.visible(s);
        let same: Vec<String> = vis.iter().filter(|v| v.1 == *t).map(|v| v.0.clone()).collect();
        if !same.is_empty() && self.r.p(if d == 0 { 75 } else { 20 }) { return E::Var(self.r.pick(&same).clone()); }
        if d == 0 || self.budget < 0 { return if !same.is_empty() && self.r.p(60) { E::Var(self.r.pick(&same).clone()) } else { self.lit(t) }; }
        let d = d - 1;
        match self.r.n(26) {
            0 | 1 => { let c = self.e(s, &Ty::B, d); let a = self.e(s, t, d); let b = if self.r.p(12) && self.ret.is_some() { self.ret_(s, d) } else { self.e(s, t, d) }; E::If(Box::new(c), Box::new(a), Box::new(b)) }
            2 | 3 => {
                let n = 1 + self.r.n(2);
                let mut bs: Vec<(String, E)> = vec![];
                let mut s2 = s.clone();
                for _ in 0..n {
                    let bt = self.ty(2);
                    let x = self.e(s, &bt, d);
                    self.fresh += 1;
                    let mut nm = format!("v{}", self.fresh);
                    // a single binding may hide a name its value does not mention
                    if n == 1 && self.r.p(30) { let h = self.name(s); if mentions(&self.text(&x), &h) == 0 { nm = h; } }
                    s2.push((nm.clone(), bt));
                    bs.push((nm, x));
                }
                E::Let(bs, Box::new(self.e(&s2, t, d)))
            }
            4 | 5 | 6 => self.local(s, t, d),
            7 | 8 => {
                // call something of function type
                let fs: Vec<(String, Vec<Ty>)> = vis.iter().filter_map(|v| match &v.1 { Ty::Fn(a, r) if **r == *t => Some((v.0.clone(), a.clone())), _ => None }).collect();
                if fs.is_empty() { return self.base(s, t, d); }
                let (f, a) = self.r.pick(&fs).clone();
                self.budget -= 60 * self.mult as isize;
                if a.len() == 1 && self.r.p(40) { let x = self.e(s, &a[0], d); return E::Gen(Box::new(E::Var(f)), Box::new(x)); }
                let v = self.args(s, &a, d);
                E::Call(Box::new(E::Var(f)), v)
            }
            9 | 10 => {
                let fs: Vec<usize> = (0..self.cur).filter(|&k| self.funs[k].ret == *t).collect();
                if fs.is_empty() || self.budget < 200 || self.mult > 4 { return self.base(s, t, d); }
                let k = *self.r.pick(&fs);
                let a: Vec<Ty> = self.funs[k].params.iter().map(|p| p.1.clone()).collect();
                self.budget -= 200 * self.mult as isize;
                let v = self.args(s, &a, if self.funs[k].transparent { d } else { d.min(1) });
                if !self.funs[k].transparent { return E::Top(k, v); }
                // the arguments of a transparent function stand wherever it mentions its parameters
                let mut bs = vec![];
                let v = v.into_iter().map(|x| if pure(&x) { x } else { self.fresh += 1; let n = format!("v{}", self.fresh); bs.push((n.clone(), x)); E::Var(n) }).collect();
                if bs.is_empty() { E::Top(k, v) } else { E::Let(bs, Box::new(E::Top(k, v))) }
            }
            11 | 12 => self.effects(s, t, d),
            13 | 14 | 15 | 16 => self.matching(s, t, d),
            17 => { let rt = Ty::R(Box::new(t.clone())); let x = self.e(s, &rt, d); E::RefGet(Box::new(x)) }
            18 => { let at = Ty::A(Box::new(t.clone())); let x = self.e(s, &at, d); E::ArrGet(self.r.n(64), Box::new(x)) }
            19 => {
                // field of a tuple in scope
                let ts: Vec<(String, Vec<Ty>)> = vis.iter().filter_map(|v| match &v.1 { Ty::T(a) if a.contains(t) => Some((v.0.clone(), a.clone())), _ => None }).collect();
                if ts.is_empty() { return self.base(s, t, d); }
                let (x, a) = self.r.pick(&ts).clone();
                let k = a.iter().position(|u| u == t).unwrap();
                self.fresh += 1;
                let nm = format!("v{}", self.fresh);
                E::Match(Box::new(E::Var(x)), vec![(Pat::Tup((0..a.len()).map(|j| if j == k { Pat::Var(nm.clone()) } else { Pat::Any }).collect()), E::Var(nm))])
            }
            _ => self.base(s, t, d),
        }
    }
    fn ret_(&mut self, s: &Scope, d: usize) -> E { let t = self.ret.clone().unwrap(); let x = self.e(s, &t, d.min(2)); E::Ret(Box::new(x)) }
    fn local(&mut self, s: &Scope, t: &Ty, d: usize) -> E {
        let n = self.name(s);
        let k = self.r.n(4);
        let mut ps: Vec<(String, Ty)> = vec![];
        for _ in 0..k { let p = self.name(&self.visible(s)); if ps.iter().any(|q| q.0 == p) || p == n { continue; } let pt = self.ty(1); ps.push((p, pt)); }
        let rt = if self.r.p(50) { t.clone() } else { self.ty(1) };
        let mut inner: Scope = s.iter().filter(|v| v.0 != n).cloned().collect();
        inner.extend(ps.iter().cloned());
        let old = self.ret.replace(rt.clone());
        let rec = self.r.p(35) && self.mult <= 4;
        let body;
        if rec {
            // (f k a..) counts k down, each time with new arguments
            self.fresh += 1;
            let c = format!("v{}", self.fresh);
            let m = self.mult; self.mult *= 4;
            let base = self.e(&inner, &rt, d.min(2));
            let mut a = vec![E::Op("sadd", vec![E::Var(c.clone()), E::Lit(Val::N(mask(u64::MAX, 32)), Ty::I(32, true))], Ty::I(32, true))];
            for p in ps.clone() { a.push(self.e(&inner, &p.1, d.min(2))); }
            let call = E::Call(Box::new(E::Var(n.clone())), a);
            // sometimes not in tail position
            let step = if self.r.p(50) { call } else { self.fresh += 1; let w = format!("v{}", self.fresh); let mut s3 = inner.clone(); s3.push((w.clone(), rt.clone())); let x = self.e(&s3, &rt, d.min(2)); E::Let(vec![(w, call)], Box::new(x)) };
            self.mult = m;
            body = E::If(Box::new(E::Op("slt", vec![E::Var(c.clone()), E::Lit(Val::N(1), Ty::I(32, true))], Ty::B)), Box::new(base), Box::new(step));
            self.ret = old;
            let mut fps = vec![(c, Ty::I(32, true))];
            fps.extend(ps.iter().cloned());
            let mut v = vec![E::Lit(Val::N(1 + self.r.n(4) as u64), Ty::I(32, true))];
            for p in &ps { v.push(self.e(s, &p.1, d.min(2))); }
            let first = E::Call(Box::new(E::Var(n.clone())), v);
            // arguments were made for the scope outside: the function's own name must not be among what they see
            let used = mentions(&self.text(&first), &n);
            if used > 1 { return self.base(s, t, d); }
            let rest = if rt == *t { first } else { self.fresh += 1; let w = format!("v{}", self.fresh); let mut s2: Scope = s.iter().filter(|v| v.0 != n).cloned().collect(); s2.push((w.clone(), rt.clone())); let x = self.e(&s2, t, d); E::Let(vec![(w, first)], Box::new(x)) };
            return E::LetFun(n, fps, rt, Rc::new(body), Box::new(rest));
        }
        body = self.e(&inner, &rt, d);
        self.ret = old;
        let mut s2: Scope = s.iter().filter(|v| v.0 != n).cloned().collect();
        s2.push((n.clone(), Ty::Fn(ps.iter().map(|p| p.1.clone()).collect(), Box::new(rt.clone()))));
        let rest = self.e(&s2, t, d);
        E::LetFun(n, ps, rt, Rc::new(body), Box::new(rest))
    }
    fn effects(&mut self, s: &Scope, t: &Ty, d: usize) -> E {
        let vis = self.visible(s);
        let mut st = vec![];
        for _ in 0..1 + self.r.n(2) {
            let cells: Vec<(String, Ty)> = vis.iter().filter(|v| matches!(v.1, Ty::R(_) | Ty::A(_))).cloned().collect();
            if cells.is_empty() { break; }
            let (x, ct) = self.r.pick(&cells).clone();
            let set = match &ct {
                Ty::R(u) => { let v = self.e(s, u, d.min(2)); E::RefSet(Box::new(v), Box::new(E::Var(x))) }
                Ty::A(u) => { let v = self.e(s, u, d.min(2)); E::ArrSet(self.r.n(64), Box::new(v), Box::new(E::Var(x))) }
                _ => unreachable!(),
            };
            if self.mult <= 4 && self.r.p(40) {
                // a loop around it
                self.fresh += 1;
                let c = format!("v{}", self.fresh);
                let i32t = Ty::I(32, true);
                let m = self.mult; self.mult *= 4;
                let mut s2 = s.clone(); s2.push((c.clone(), Ty::R(Box::new(i32t.clone()))));
                let mut body = vec![E::RefSet(Box::new(E::Op("sadd", vec![E::RefGet(Box::new(E::Var(c.clone()))), E::Lit(Val::N(mask(u64::MAX, 32)), i32t.clone())], i32t.clone())), Box::new(E::Var(c.clone()))), set];
                // the counter itself is not to be set by what is generated: hide it
                let _ = s2;
                if self.ret.is_some() && self.r.p(25) { let cnd = self.e(s, &Ty::B, d.min(2)); let r = self.ret_(s, d); body.push(E::If(Box::new(cnd), Box::new(r), Box::new(E::Lit(Val::U, Ty::U)))); }
                self.mult = m;
                st.push(E::Let(vec![(c.clone(), E::RefNew(Box::new(E::Lit(Val::N(1 + self.r.n(4) as u64), i32t.clone()))))],
                    Box::new(E::While(Box::new(E::Op("slt", vec![E::Lit(Val::N(0), i32t.clone()), E::RefGet(Box::new(E::Var(c)))], Ty::B)), Box::new(E::Begin(body, Box::new(E::Lit(Val::U, Ty::U))))))));
            } else if self.r.p(30) { let c = self.e(s, &Ty::B, d.min(2)); st.push(E::If(Box::new(c), Box::new(set), Box::new(E::Lit(Val::U, Ty::U)))); }
            else { st.push(set); }
        }
        let last = self.e(s, t, d);
        if st.is_empty() { last } else { E::Begin(st, Box::new(last)) }
    }
    /// a pattern that always matches
    fn open(&mut self, t: &Ty, s: &mut Scope, d: usize) -> Pat {
        match t {
            Ty::T(v) if d > 0 && self.r.p(50) => Pat::Tup(v.iter().map(|u| self.open(u, s, d - 1)).collect()),
            Ty::D(k) if d > 0 && self.data[*k].ctors.len() == 1 => { let f = self.data[*k].ctors[0].clone(); Pat::Con(*k, 0, f.iter().map(|u| self.open(u, s, d - 1)).collect()) }
            _ => if self.r.p(70) { self.fresh += 1; let n = format!("v{}", self.fresh); s.push((n.clone(), t.clone())); Pat::Var(n) } else { Pat::Any },
        }
    }
    fn matching(&mut self, s: &Scope, t: &Ty, d: usize) -> E {
        let mt = match self.r.n(4) { 0 => self.int(), 1 => if self.r.p(50) { Ty::S } else { Ty::B }, 2 => Ty::T(vec![self.ty(1), self.ty(0)]), _ => if self.data.is_empty() { Ty::B } else { Ty::D(self.r.n(self.data.len())) } };
        let x = self.e(s, &mt, d);
        let mut arms = vec![];
        let mut arm = |g: &mut Self, p: Pat, s: Scope| { let b = g.e(&s, t, d.min(3)); arms.push((p, b)); };
        match &mt {
            Ty::I(b, sg) => {
                let mut seen = vec![];
                for _ in 0..self.r.n(4) { let v = mask(if self.r.p(70) { self.r.n(5) as u64 } else { self.r.next() }, *b); if !seen.contains(&v) { seen.push(v); arm(self, Pat::Num(v, *b, *sg), s.clone()); } }
                let mut s2 = s.clone(); let p = self.open(&mt, &mut s2, 0); arm(self, p, s2);
            }
            Ty::S => {
                let mut seen = vec![];
                for _ in 0..self.r.n(4) { let v = self.r.pick(&["", "a", "é", "ab", "zz0"]).to_string(); if !seen.contains(&v) { seen.push(v.clone()); arm(self, Pat::Str(v), s.clone()); } }
                let mut s2 = s.clone(); let p = self.open(&mt, &mut s2, 0); arm(self, p, s2);
            }
            Ty::B => { let f = self.r.p(50); arm(self, Pat::Bool(f), s.clone()); if self.r.p(50) { arm(self, Pat::Bool(!f), s.clone()); } else { arm(self, Pat::Any, s.clone()); } }
            Ty::T(v) => {
                // one field fixed, then the rest
                if let Some(k) = v.iter().position(|u| matches!(u, Ty::I(..) | Ty::B)) {
                    if self.r.p(60) {
                        let mut s2 = s.clone();
                        let ps = v.iter().enumerate().map(|(j, u)| if j == k { match u { Ty::I(b, sg) => Pat::Num(self.r.n(4) as u64, *b, *sg), _ => Pat::Bool(self.r.p(50)) } } else { self.open(u, &mut s2, 1) }).collect();
                        arm(self, Pat::Tup(ps), s2);
                    }
                }
                let mut s2 = s.clone(); let ps = v.iter().map(|u| self.open(u, &mut s2, 1)).collect(); arm(self, Pat::Tup(ps), s2);
            }
            Ty::D(k) => {
                let n = self.data[*k].ctors.len();
                let mut cs: Vec<usize> = (0..n).collect();
                self.r.shuffle(&mut cs);
                let take = if n > 12 { 1 + self.r.n(3) } else if self.r.p(60) { n } else { self.r.n(n) };
                for &c in &cs[..take] {
                    let f = self.data[*k].ctors[c].clone();
                    if let Some(j) = f.iter().position(|u| matches!(u, Ty::I(..) | Ty::B)) {
                        if self.r.p(25) {
                            let mut s2 = s.clone();
                            let ps = f.iter().enumerate().map(|(m, u)| if m == j { match u { Ty::I(b, sg) => Pat::Num(self.r.n(4) as u64, *b, *sg), _ => Pat::Bool(self.r.p(50)) } } else { self.open(u, &mut s2, 1) }).collect();
                            arm(self, Pat::Con(*k, c, ps), s2);
                        }
                    }
                    let mut s2 = s.clone(); let ps = f.iter().map(|u| self.open(u, &mut s2, 1)).collect(); arm(self, Pat::Con(*k, c, ps), s2);
                }
                if take < n { let mut s2 = s.clone(); let p = if n == 1 { Pat::Any } else { self.open(&mt, &mut s2, 0) }; arm(self, p, s2); }
            }
            _ => unreachable!(),
        }
        E::Match(Box::new(x), arms)
    }
    fn base(&mut self, s: &Scope, t: &Ty, d: usize) -> E {
        match t {
            Ty::I(b, sg) => {
                let two = |g: &mut Self| vec![g.e(s, t, d), g.e(s, t, d)];
                match self.r.n(16) {
                    // what a signed operation does when it overflows is undefined, so it gets operands small enough
                    k @ 0..=5 if *sg && self.r.p(60) => {
                        let h = if k == 5 { b / 2 } else { 1 };
                        let v = two(self).into_iter().map(|x| E::Op("iashr", vec![x, E::Lit(Val::N(h as u64), t.clone())], t.clone())).collect();
                        E::Op(["sadd", "sadd", "sadd", "sadd", "ssub", "smul"][k], v, t.clone())
                    }
                    0..=3 => E::Op("uadd", two(self), t.clone()),
                    4 => E::Op("usub", two(self), t.clone()),
                    5 => E::Op("umul", two(self), t.clone()),
                    6 => { let m = E::Lit(Val::N(mask(0x7f & self.r.next(), *b)), t.clone()); let one = E::Lit(Val::N(1), t.clone()); let a = self.e(s, t, d); let q = self.e(s, t, d);
                        let q = E::Op("ior", vec![E::Op("iand", vec![q, m], t.clone()), one], t.clone());
                        let op = match (*sg, self.r.p(50)) { (true, true) => "sdiv", (true, false) => "srem", (false, true) => "udiv", (false, false) => "urem" };
                        E::Op(op, vec![a, q], t.clone()) }
                    7 => E::Op(*self.r.pick(&["iand", "ior", "ixor"]), two(self), t.clone()),
                    8 => { let op = *self.r.pick(&["ishl", "ilshr", "iashr"]); let a = self.e(s, t, d); let k = E::Lit(Val::N(self.r.n(*b as usize) as u64), t.clone()); E::Op(op, vec![a, k], t.clone()) }
                    9 => { let op = if self.r.p(70) { "icom" } else { "ipop" }; let a = self.e(s, t, d); E::Op(op, vec![a], t.clone()) }
                    10..=12 => {
                        let f = self.int();
                        let x = self.e(s, &f, d);
                        self.conv(x, &f, t)
                    }
                    13 if *b == 64 => { let x = self.e(s, &Ty::F, d); E::Conv("reint", Box::new(x), Ty::F, t.clone()) }
                    13 if *b == 32 => { let x = self.e(s, &Ty::G, d); E::Conv("reint", Box::new(x), Ty::G, t.clone()) }
                    14 if *b == 64 && !*sg => { let x = self.e(s, &Ty::S, d); E::Op("slen8", vec![x], t.clone()) }
                    14 if *b == 64 => { let u = self.ty(1); let at = Ty::A(Box::new(u)); let x = self.e(s, &at, d); E::Conv("nop", Box::new(E::ArrLen(Box::new(x))), Ty::I(64, false), t.clone()) }
                    15 if *b == 32 && *sg && self.mult == 1 && !self.others.is_empty() && self.r.p(30) => { let o = *self.r.pick(self.others); let x = self.e(s, t, d.min(2)); self.others = &[]; E::Other(o, Box::new(x)) }
                    _ => self.lit(t),
                }
            }
            Ty::B => match self.r.n(9) {
                0 | 1 => { let u = self.int(); let (a, b) = (self.e(s, &u, d), self.e(s, &u, d)); E::Op("ieq", vec![a, b], u) }
                2 | 3 => { let u = self.int(); let (a, b) = (self.e(s, &u, d), self.e(s, &u, d)); let sg = matches!(u, Ty::I(_, true)); let op = *self.r.pick(if sg { &["slt", "sle", "sgt", "sge"] } else { &["ult", "ule", "ugt", "uge"] }); E::Op(op, vec![a, b], u) }
                4 => { let a = self.e(s, &Ty::B, d); E::Op("not", vec![a], Ty::B) }
                5 => { let op = *self.r.pick(&["band", "bor"]); let (a, b) = (self.e(s, &Ty::B, d), self.e(s, &Ty::B, d)); E::Op(op, vec![a, b], Ty::B) }
                6 => { let u = if self.r.p(60) { Ty::F } else { Ty::G }; let (a, b) = (self.e(s, &u, d), self.e(s, &u, d)); let op = *self.r.pick(&["flt", "fle", "fgt", "fge", "feq"]); E::Op(op, vec![a, b], u) }
                7 => { let (a, b) = (self.e(s, &Ty::S, d), self.e(s, &Ty::S, d)); E::Op("seq", vec![a, b], Ty::S) }
                _ => self.lit(t),
            },
            Ty::F | Ty::G => match self.r.n(6) {
                0..=2 => { let op = *self.r.pick(&["fadd", "fsub", "fmul"]); let (a, b) = (self.e(s, t, d.min(2)), self.e(s, t, d.min(2))); E::Op(op, vec![a, b], t.clone()) }
                3 => { let u = self.int(); let x = self.e(s, &u, d.min(2)); E::Conv(if matches!(u, Ty::I(_, true)) { "s2f" } else { "u2f" }, Box::new(x), u, t.clone()) }
                4 => { let u = if *t == Ty::F { Ty::G } else { Ty::F }; let x = self.e(s, &u, d.min(1)); E::Conv(if *t == Ty::F { "fext" } else { "ftr" }, Box::new(x), u, t.clone()) }
                _ => self.lit(t),
            },
            Ty::S => if self.r.p(60) { let (a, b) = (self.e(s, t, d.min(2)), self.e(s, t, d.min(2))); E::Op("scat", vec![a, b], Ty::S) } else { self.lit(t) },
            Ty::U => E::Lit(Val::U, Ty::U),
            Ty::T(v) => { let v = v.clone(); E::Tup(self.args(s, &v, d)) }
            Ty::D(k) => { let c = self.r.n(self.data[*k].ctors.len()); let f = self.data[*k].ctors[c].clone(); let v = self.args(s, &f, d); E::Con(*k, c, v) }
            Ty::Fn(a, r) => {
                self.fresh += 1;
                let n = format!("v{}", self.fresh);
                let ps: Vec<(String, Ty)> = a.iter().map(|t| { self.fresh += 1; (format!("v{}", self.fresh), t.clone()) }).collect();
                let mut s2 = s.clone(); s2.extend(ps.iter().cloned());
                let old = self.ret.replace((**r).clone());
                let b = self.e(&s2, r, d);
                self.ret = old;
                E::LetFun(n.clone(), ps, (**r).clone(), Rc::new(b), Box::new(E::Var(n)))
            }
            Ty::R(u) => { let x = self.e(s, u, d); E::RefNew(Box::new(x)) }
            Ty::A(u) => { let n = 1 + self.r.n(4); let v = (0..n).map(|_| self.e(s, u, d.min(2))).collect(); E::ArrNew((**u).clone(), v) }
        }
    }
    fn conv(&mut self, x: E, f: &Ty, t: &Ty) -> E {
        let (Ty::I(a, sa), Ty::I(b, _)) = (f, t) else { unreachable!() };
        let op = if a == b { if f == t { return x; } *self.r.pick(&["nop", "bitcast"]) } else if a > b { "itr" } else if *sa { "sext" } else { "uext" };
        E::Conv(op, Box::new(x), f.clone(), t.clone())
    }
    /// a number that depends on all of a value
    fn dig(&mut self, x: E, t: &Ty) -> E {
        let i = Ty::I(32, true);
        let mut mix = |g: &mut Self, v: Vec<(String, Ty)>, k: u64| {
            let mut acc = E::Lit(Val::N(k), i.clone());
            for (n, t) in v { let y = g.dig(E::Var(n), &t); acc = E::Op("uadd", vec![E::Op("umul", vec![acc, E::Lit(Val::N(31), i.clone())], i.clone()), y], i.clone()); }
            acc
        };
        match t {
            Ty::I(..) => self.conv(x, t, &i),
            Ty::B => E::If(Box::new(x), Box::new(E::Lit(Val::N(11), i.clone())), Box::new(E::Lit(Val::N(23), i.clone()))),
            Ty::F => { self.fresh += 1; let n = format!("v{}", self.fresh); let b = |v: E| E::Conv("itr", Box::new(E::Conv("reint", Box::new(v), Ty::F, Ty::I(64, true))), Ty::I(64, true), i.clone());
                let hi = E::Conv("itr", Box::new(E::Op("iashr", vec![E::Conv("reint", Box::new(E::Var(n.clone())), Ty::F, Ty::I(64, true)), E::Lit(Val::N(32), Ty::I(64, true))], Ty::I(64, true))), Ty::I(64, true), i.clone());
                E::Let(vec![(n.clone(), x)], Box::new(E::Op("ixor", vec![b(E::Var(n)), hi], i.clone()))) }
            Ty::G => E::Conv("reint", Box::new(x), Ty::G, i.clone()),
            Ty::S => { let c = E::Conv("itr", Box::new(E::Op("slen8", vec![x], Ty::I(64, false))), Ty::I(64, false), i.clone()); c }
            Ty::U => E::Begin(vec![x], Box::new(E::Lit(Val::N(1), i.clone()))),
            Ty::T(v) => { let ns: Vec<(String, Ty)> = v.iter().map(|t| { self.fresh += 1; (format!("v{}", self.fresh), t.clone()) }).collect(); let b = mix(self, ns.clone(), 7); E::Match(Box::new(x), vec![(Pat::Tup(ns.into_iter().map(|n| Pat::Var(n.0)).collect()), b)]) }
            Ty::D(k) => {
                let cs = self.data[*k].ctors.clone();
                let mut arms = vec![];
                for (c, f) in cs.iter().enumerate() {
                    let ns: Vec<(String, Ty)> = f.iter().map(|t| { self.fresh += 1; (format!("v{}", self.fresh), t.clone()) }).collect();
                    let b = mix(self, ns.clone(), 100 + c as u64);
                    arms.push((Pat::Con(*k, c, ns.into_iter().map(|n| Pat::Var(n.0)).collect()), b));
                }
                E::Match(Box::new(x), arms)
            }
            Ty::Fn(a, r) => { let v = a.iter().map(|t| self.lit(t)).collect(); self.fresh += 1; let n = format!("v{}", self.fresh); let call = E::Let(vec![(n.clone(), x)], Box::new(E::Call(Box::new(E::Var(n)), v))); let r = (**r).clone(); self.dig(call, &r) }
            Ty::R(u) => { let u = (**u).clone(); self.dig(E::RefGet(Box::new(x)), &u) }
            Ty::A(u) => { let u = (**u).clone(); self.fresh += 1; let n = format!("v{}", self.fresh);
                let a = self.dig(E::ArrGet(0, Box::new(E::Var(n.clone()))), &u); let b = self.dig(E::ArrGet(1, Box::new(E::Var(n.clone()))), &u);
                E::Let(vec![(n, x)], Box::new(E::Op("usub", vec![a, b], i.clone()))) }
        }
    }
    fn text(&self, e: &E) -> String { show(e, self.i, &|_| true) }
}

/// whether it makes no difference when and how often it is evaluated
fn pure(e: &E) -> bool {
    let all = |v: &[E]| v.iter().all(pure);
    match e {
        E::Lit(..) | E::Var(_) => true,
        E::Op(_, v, _) | E::Tup(v) | E::Con(_, _, v) => all(v),
        E::Conv(_, x, _, _) => pure(x),
        E::If(c, a, b) => pure(c) && pure(a) && pure(b),
        E::Let(b, x) => b.iter().all(|b| pure(&b.1)) && pure(x),
        E::LetFun(_, _, _, _, x) => pure(x),
        E::Begin(v, x) => all(v) && pure(x),
        E::Match(x, a) => pure(x) && a.iter().all(|a| pure(&a.1)),
        _ => false,
    }
}
fn mentions(t: &str, n: &str) -> usize { t.split(|c: char| !(c.is_alphanumeric() || c == '-' || c == '*' || c == ':')).filter(|w| *w == n).count() }
fn show_lit(v: &Val, t: &Ty, i: usize) -> String {
    match (v, t) {
        (Val::N(v), Ty::I(b, s)) => if *s { format!("{}{{{}}}", sx(*v, *b), t.text(i)) } else { format!("{}{{{}}}", v, t.text(i)) },
        (Val::B(b), _) => if *b { "#t".into() } else { "#f".into() },
        (Val::F(f), _) => format!("{:?}{{F64}}", f),
        (Val::G(f), _) => format!("{:?}{{F32}}", f),
        (Val::S(s), _) => format!("\"{}\"", s),
        (Val::U, _) => "unit".into(),
        _ => unreachable!(),
    }
}
fn show_pat(p: &Pat, i: usize) -> String {
    match p {
        Pat::Any => "_".into(), Pat::Var(n) => format!("(let {})", n), Pat::Bool(b) => if *b { "#t".into() } else { "#f".into() },
        Pat::Num(v, b, s) => if *s { format!("{}", sx(*v, *b)) } else { format!("{}", v) },
        Pat::Str(s) => format!("\"{}\"", s),
        Pat::Tup(v) => format!("(: {})", v.iter().map(|p| show_pat(p, i)).collect::<Vec<_>>().join(" ")),
        Pat::Con(k, c, v) => if v.is_empty() { format!("c{}-{}-{}:", i, k, c) } else { format!("(c{}-{}-{}: {})", i, k, c, v.iter().map(|p| show_pat(p, i)).collect::<Vec<_>>().join(" ")) },
    }
}
fn show(e: &E, i: usize, alive: &dyn Fn(usize) -> bool) -> String {
    let s = |e: &E| show(e, i, alive);
    let l = |v: &[E]| v.iter().map(|e| format!(" {}", s(e))).collect::<String>();
    match e {
        E::Lit(v, t) => show_lit(v, t, i),
        E::Var(n) => n.clone(),
        E::Op(o, v, _) => format!("({}{})", o, l(v)),
        E::Conv(o, x, _, t) => format!("({} {}){{{}}}", o, s(x), t.text(i)),
        E::If(c, a, b) => format!("(if {} {} {})", s(c), s(a), s(b)),
        E::Let(b, x) => format!("(let ({}) {})", b.iter().map(|(n, e)| format!("[{} {}]", n, s(e))).collect::<Vec<_>>().join(" "), s(x)),
        E::LetFun(n, ps, r, b, x) => format!("(let ([({}{}) {{(->{} {})}} {}]) {})", n, ps.iter().map(|p| format!(" {}", p.0)).collect::<String>(), ps.iter().map(|p| format!(" {}", p.1.text(i))).collect::<String>(), r.text(i), s(b), s(x)),
        E::Call(f, v) => format!("({}{})", s(f), l(v)),
        E::Top(k, v) => format!("(qh{}-{}{})", i, k, l(v)),
        E::Gen(f, x) => format!("(qg{} {} {})", i, s(f), s(x)),
        E::Other(j, x) => if alive(*j) { format!("(q{}* {} 3)", j, s(x)) } else { format!("(begin {} 0{{I32}})", s(x)) },
        E::Begin(v, x) => format!("(begin{} {})", l(v), s(x)),
        E::While(c, b) => format!("(while {} {})", s(c), s(b)),
        E::Match(x, arms) => format!("(match {}{})", s(x), arms.iter().map(|(p, b)| format!(" [{} {}]", show_pat(p, i), s(b))).collect::<String>()),
        E::Tup(v) => format!("(:{})", l(v)),
        E::Con(k, c, v) => if v.is_empty() { format!("c{}-{}-{}:", i, k, c) } else { format!("(c{}-{}-{}:{})", i, k, c, l(v)) },
        E::Ret(x) => format!("(return {})", s(x)),
        E::RefNew(x) => format!("(ref {})", s(x)),
        E::RefGet(x) => format!("(r-get {})", s(x)),
        E::RefSet(v, r) => format!("(r-set {} {})", s(v), s(r)),
        E::ArrNew(t, v) => { let n = v.len(); let mut o = format!("(let ([arr (a-new {}{{U64}}){{(Array {})}}]) (begin", n, t.text(i)); for (k, x) in v.iter().enumerate() { o += &format!(" (a-set {}{{U64}} {} arr)", k, s(x)); } o + " arr))" }
        E::ArrGet(k, x) => format!("(a-at {}{{U64}} {})", k, s(x)),
        E::ArrSet(k, v, x) => format!("(a-to {}{{U64}} {} {})", k, s(v), s(x)),
        E::ArrLen(x) => format!("(a-len {})", s(x)),
    }
}

struct Run<'a> { c: &'a Calc, alive: &'a dyn Fn(usize) -> bool, other: &'a dyn Fn(usize, i32) -> i32, depth: usize }
type R = Result<Val, Val>;
impl<'a> Run<'a> {
    fn n(v: &Val) -> u64 { if let Val::N(n) = v { *n } else { panic!("not a number {:?}", v) } }
    fn call(&mut self, f: &Val, args: Vec<Val>) -> Val {
        let Val::Fn(c) = f else { panic!() };
        let mut env = c.env.borrow().clone();
        env.push((c.name.clone(), f.clone()));
        for (p, a) in c.params.iter().zip(args) { env.push((p.clone(), a)); }
        self.depth += 1;
        let r = match self.e(&c.body, &mut env) { Ok(v) | Err(v) => v };
        self.depth -= 1;
        r
    }
    fn top(&mut self, k: usize, args: Vec<Val>) -> Val {
        let f = &self.c.funs[k];
        let mut env: Env = f.params.iter().map(|p| p.0.clone()).zip(args).collect();
        match self.e(&f.body, &mut env) { Ok(v) | Err(v) => v }
    }
    fn pat(p: &Pat, v: &Val, env: &mut Env) -> bool {
        match (p, v) {
            (Pat::Any, _) => true, (Pat::Var(n), v) => { env.push((n.clone(), v.clone())); true }
            (Pat::Num(a, _, _), Val::N(b)) => a == b, (Pat::Bool(a), Val::B(b)) => a == b, (Pat::Str(a), Val::S(b)) => *a == **b,
            (Pat::Tup(ps), Val::T(vs)) => ps.iter().zip(vs.iter()).all(|(p, v)| Self::pat(p, v, env)),
            (Pat::Con(_, c, ps), Val::D(d, vs)) => c == d && ps.iter().zip(vs.iter()).all(|(p, v)| Self::pat(p, v, env)),
            _ => panic!(),
        }
    }
    fn e(&mut self, e: &E, env: &mut Env) -> R {
        let many = |g: &mut Self, v: &[E], env: &mut Env| -> Result<Vec<Val>, Val> { v.iter().map(|e| g.e(e, env)).collect() };
        Ok(match e {
            E::Lit(v, _) => v.clone(),
            E::Var(n) => env.iter().rev().find(|x| x.0 == *n).unwrap_or_else(|| panic!("unbound {}", n)).1.clone(),
            // the second operand of these is only evaluated when it matters
            E::Op(o @ ("band" | "bor"), v, _) => { let Val::B(a) = self.e(&v[0], env)? else { panic!() }; if a == (*o == "bor") { Val::B(a) } else { self.e(&v[1], env)? } }
            E::Op(o, v, t) => { let a = many(self, v, env)?; op(o, &a, t) }
            E::Conv(o, x, f, t) => { let v = self.e(x, env)?; conv(o, &v, f, t) }
            E::If(c, a, b) => { let Val::B(c) = self.e(c, env)? else { panic!() }; self.e(if c { a } else { b }, env)? }
            E::Let(bs, x) => { let n = env.len(); let mut vs = vec![]; for (k, b) in bs { let v = self.e(b, env)?; vs.push((k.clone(), v)); } env.extend(vs); let r = self.e(x, env); env.truncate(n); r? }
            E::LetFun(n, ps, _, b, x) => { let k = env.len(); let f = Val::Fn(Rc::new(Clo { params: ps.iter().map(|p| p.0.clone()).collect(), body: Rc::clone(b), env: RefCell::new(env.clone()), name: n.clone() })); env.push((n.clone(), f)); let r = self.e(x, env); env.truncate(k); r? }
            E::Call(f, v) => { let f = self.e(f, env)?; let a = many(self, v, env)?; self.call(&f, a) }
            E::Top(k, v) => { let a = many(self, v, env)?; self.top(*k, a) }
            E::Gen(f, x) => { let f = self.e(f, env)?; let a = self.e(x, env)?; self.call(&f, vec![a]) }
            E::Other(j, x) => { let v = self.e(x, env)?; if (self.alive)(*j) { Val::N((self.other)(*j, Self::n(&v) as i32) as u32 as u64) } else { Val::N(0) } }
            E::Begin(v, x) => { many(self, v, env)?; self.e(x, env)? }
            E::While(c, b) => { loop { let Val::B(c) = self.e(c, env)? else { panic!() }; if !c { break; } self.e(b, env)?; } Val::U }
            E::Match(x, arms) => { let v = self.e(x, env)?; for (p, b) in arms { let n = env.len(); if Self::pat(p, &v, env) { let r = self.e(b, env); env.truncate(n); return r; } env.truncate(n); } panic!("no arm") }
            E::Tup(v) => Val::T(Rc::new(many(self, v, env)?)),
            E::Con(_, c, v) => Val::D(*c, Rc::new(many(self, v, env)?)),
            E::Ret(x) => { let v = self.e(x, env)?; return Err(v) }
            E::RefNew(x) => { let v = self.e(x, env)?; Val::R(Rc::new(RefCell::new(v))) }
            E::RefGet(x) => { let Val::R(r) = self.e(x, env)? else { panic!() }; let v = r.borrow().clone(); v }
            E::RefSet(v, r) => { let v = self.e(v, env)?; let Val::R(r) = self.e(r, env)? else { panic!() }; *r.borrow_mut() = v; Val::U }
            E::ArrNew(_, v) => Val::A(Rc::new(RefCell::new(many(self, v, env)?))),
            E::ArrGet(k, x) => { let Val::A(a) = self.e(x, env)? else { panic!() }; let a = a.borrow(); a[k % a.len()].clone() }
            E::ArrSet(k, v, x) => { let v = self.e(v, env)?; let Val::A(a) = self.e(x, env)? else { panic!() }; let mut a = a.borrow_mut(); let n = a.len(); a[k % n] = v; Val::U }
            E::ArrLen(x) => { let Val::A(a) = self.e(x, env)? else { panic!() }; let n = a.borrow().len() as u64; Val::N(n) }
        })
    }
}
fn op(o: &str, a: &[Val], t: &Ty) -> Val {
    if let Ty::I(b, _) = t {
        let b = *b;
        match o {
            "slen8" => { let Val::S(s) = &a[0] else { panic!() }; return Val::N(s.len() as u64) }
            "not" | "band" | "bor" | "seq" => {}
            _ => {
                let x = Run::n(&a[0]);
                let y = a.get(1).map_or(0, Run::n);
                let (p, q) = (sx(x, b), sx(y, b));
                return match o {
                    "sadd" | "uadd" => Val::N(mask(x.wrapping_add(y), b)), "ssub" | "usub" => Val::N(mask(x.wrapping_sub(y), b)), "smul" | "umul" => Val::N(mask(x.wrapping_mul(y), b)),
                    "sdiv" => Val::N(mask(p.wrapping_div(q) as u64, b)), "srem" => Val::N(mask(p.wrapping_rem(q) as u64, b)), "udiv" => Val::N(x / y), "urem" => Val::N(x % y),
                    "iand" => Val::N(x & y), "ior" => Val::N(x | y), "ixor" => Val::N(x ^ y), "icom" => Val::N(mask(!x, b)), "ipop" => Val::N(x.count_ones() as u64),
                    "ishl" => Val::N(mask(x << y, b)), "ilshr" => Val::N(x >> y), "iashr" => Val::N(mask((p >> y) as u64, b)),
                    "ieq" => Val::B(x == y), "slt" => Val::B(p < q), "sle" => Val::B(p <= q), "sgt" => Val::B(p > q), "sge" => Val::B(p >= q),
                    "ult" => Val::B(x < y), "ule" => Val::B(x <= y), "ugt" => Val::B(x > y), "uge" => Val::B(x >= y),
                    _ => panic!("{}", o),
                };
            }
        }
    }
    match (o, &a[0], a.get(1)) {
        ("not", Val::B(x), _) => Val::B(!x), ("band", Val::B(x), Some(Val::B(y))) => Val::B(x & y), ("bor", Val::B(x), Some(Val::B(y))) => Val::B(x | y),
        // both are B-typed in the tree but an operator of booleans may be reached with t = B or of numbers with t = B
        ("slt", Val::N(x), Some(Val::N(y))) => Val::B(sx(*x, 32) < sx(*y, 32)),
        ("seq", Val::S(x), Some(Val::S(y))) => Val::B(x == y), ("scat", Val::S(x), Some(Val::S(y))) => Val::S(Rc::new(format!("{}{}", x, y))),
        ("fadd", Val::F(x), Some(Val::F(y))) => Val::F(x + y), ("fsub", Val::F(x), Some(Val::F(y))) => Val::F(x - y), ("fmul", Val::F(x), Some(Val::F(y))) => Val::F(x * y),
        ("fadd", Val::G(x), Some(Val::G(y))) => Val::G(x + y), ("fsub", Val::G(x), Some(Val::G(y))) => Val::G(x - y), ("fmul", Val::G(x), Some(Val::G(y))) => Val::G(x * y),
        ("flt", Val::F(x), Some(Val::F(y))) => Val::B(x < y), ("fle", Val::F(x), Some(Val::F(y))) => Val::B(x <= y), ("fgt", Val::F(x), Some(Val::F(y))) => Val::B(x > y), ("fge", Val::F(x), Some(Val::F(y))) => Val::B(x >= y), ("feq", Val::F(x), Some(Val::F(y))) => Val::B(x == y),
        ("flt", Val::G(x), Some(Val::G(y))) => Val::B(x < y), ("fle", Val::G(x), Some(Val::G(y))) => Val::B(x <= y), ("fgt", Val::G(x), Some(Val::G(y))) => Val::B(x > y), ("fge", Val::G(x), Some(Val::G(y))) => Val::B(x >= y), ("feq", Val::G(x), Some(Val::G(y))) => Val::B(x == y),
        _ => panic!("{} {:?}", o, a),
    }
}
fn conv(o: &str, v: &Val, f: &Ty, t: &Ty) -> Val {
    match (o, v, f, t) {
        ("nop" | "bitcast", Val::N(x), _, _) => Val::N(*x),
        ("itr" | "uext", Val::N(x), _, Ty::I(b, _)) => Val::N(mask(*x, *b)),
        ("sext", Val::N(x), Ty::I(a, _), Ty::I(b, _)) => Val::N(mask(sx(*x, *a) as u64, *b)),
        ("reint", Val::F(x), _, _) => Val::N(x.to_bits()),
        ("reint", Val::G(x), _, _) => Val::N(x.to_bits() as u64),
        ("s2f", Val::N(x), Ty::I(a, _), Ty::F) => Val::F(sx(*x, *a) as f64),
        ("s2f", Val::N(x), Ty::I(a, _), _) => Val::G(sx(*x, *a) as f32),
        ("u2f", Val::N(x), _, Ty::F) => Val::F(*x as f64),
        ("u2f", Val::N(x), _, _) => Val::G(*x as f32),
        ("fext", Val::G(x), _, _) => Val::F(*x as f64),
        ("ftr", Val::F(x), _, _) => Val::G(*x as f32),
        _ => panic!("{} {:?}", o, v),
    }
}

pub fn generate(seed: u64, i: usize, others: &[usize]) -> Calc {
    let mut g = Gen { r: Rng::new(seed, 0xca1c_0000 + i as u64), i, data: vec![], funs: vec![], others, fresh: 0, mult: 1, budget: 0, ret: None, cur: 0 };
    for _ in 0..g.r.n(4) {
        let n = match g.r.n(8) { 0 => 1, 1 => 260 + g.r.n(60), 2 => 0, _ => 2 + g.r.n(5) };
        let n = if n == 0 { 1 } else { n };
        let ctors = (0..n).map(|_| { let k = if n > 200 { if g.r.p(3) { 2 } else { 0 } } else { g.r.n(4) }; (0..k).map(|_| g.ty(1)).collect() }).collect();
        let value = g.r.p(50);
        g.data.push(Data { value, ctors });
    }
    let hs = g.r.n(4);
    for k in 0..=hs {
        let last = k == hs;
        let np = if last { 2 } else if g.r.p(20) { 9 + g.r.n(8) } else { g.r.n(5) };
        let mut params = vec![];
        for p in 0..np { let t = if last { Ty::I(32, true) } else { g.ty(2) }; params.push((format!("p{}", p), t)); }
        let ret = if last { Ty::I(32, true) } else if g.r.p(40) { Ty::I(32, true) } else { g.ty(2) };
        g.cur = k;
        g.budget = 500;
        g.ret = Some(ret.clone());
        let scope: Scope = params.clone();
        let body = if last {
            // what it returns is made the number below, whatever happens on the way
            g.ret = None;
            let i32t = Ty::I(32, true);
            let mut s = scope.clone();
            let mut bs = vec![];
            for j in 0..1 + g.r.n(3) { let t = g.ty(2); g.budget = 250; let x = g.e(&s, &t, 4); let n = format!("b{}", j); s.push((n.clone(), t)); bs.push((n, x)); }
            let mut acc = E::Op("uadd", vec![E::Var("p0".into()), E::Var("p1".into())], i32t.clone());
            let vars: Scope = s[2..].to_vec();
            for (n, t) in vars { let y = g.dig(E::Var(n), &t); acc = E::Op("ixor", vec![E::Op("umul", vec![acc, E::Lit(Val::N(33), i32t.clone())], i32t.clone()), y], i32t.clone()); }
            // never the one number the printing function cannot negate
            acc = E::Op("iand", vec![acc, E::Lit(Val::N(0x7fff_ffff), i32t.clone())], i32t.clone());
            for (n, x) in bs.into_iter().rev() { acc = E::Let(vec![(n, x)], Box::new(acc)); }
            acc
        } else { g.e(&scope, &ret, 4) };
        let transparent = !last && g.r.p(20);
        g.funs.push(Fun { transparent, params, ret, body });
    }
    Calc { i, data: g.data, funs: g.funs }
}

impl Calc {
    pub fn eval(&self, x: i32, y: i32, alive: &dyn Fn(usize) -> bool, other: &dyn Fn(usize, i32) -> i32) -> i32 {
        let mut r = Run { c: self, alive, other, depth: 0 };
        let v = r.top(self.funs.len() - 1, vec![Val::N(x as u32 as u64), Val::N(y as u32 as u64)]);
        Run::n(&v) as u32 as i32
    }
    pub fn decls(&self, alive: &dyn Fn(usize) -> bool) -> Vec<String> {
        let i = self.i;
        let mut o = vec![];
        for (k, d) in self.data.iter().enumerate() {
            o.push(format!("({} Q{}-{}{})", if d.value { "value-data" } else { "data" }, i, k, d.ctors.iter().enumerate().map(|(c, f)| if f.is_empty() { format!("\n  c{}-{}-{}:", i, k, c) } else { format!("\n  (c{}-{}-{}:{})", i, k, c, f.iter().map(|t| format!(" {}", t.text(i))).collect::<String>()) }).collect::<String>()));
        }
        o.push(format!("(function (qg{} f x) {{(forall A B) (-> (-> A B) A B)}} (f x))", i));
        for (k, f) in self.funs.iter().enumerate() {
            let name = if k + 1 == self.funs.len() { format!("q{}*", i) } else { format!("qh{}-{}", i, k) };
            o.push(format!("({} ({}{}) {{(->{} {})}}\n  {})", if f.transparent { "transparent-function" } else { "function" }, name, f.params.iter().map(|p| format!(" {}", p.0)).collect::<String>(), f.params.iter().map(|p| format!(" {}", p.1.text(i))).collect::<String>(), f.ret.text(i), show(&f.body, i, alive)));
        }
        o
    }
}

/// the operations, as a module of the standard library of the simulated worlds
pub fn module() -> String {
    let mut o = String::from("(no-implicit-std)\n(import \"builtin\" _)\n");
    let mut names = vec![];
    let mut f = |n: &str, sig: &str, op: &str| { o.push_str(&format!("(builtin-op {} {{{}}} \"{}\")\n", n, sig, op)); names.push(n.to_string()); };
    let bin = "(forall A) (-> A A A)"; let cmp = "(forall A) (-> A A Bool)"; let un = "(forall A) (-> A A)"; let cv = "(forall A B) (-> A B)";
    for (n, op) in [("add", "add"), ("sub", "sub"), ("mul", "mul"), ("div", "div"), ("rem", "rem")] { f(&format!("s{}", n), bin, &format!("signed.{}", op)); f(&format!("u{}", n), bin, &format!("unsigned.{}", op)); }
    for (n, op) in [("lt", "lt"), ("le", "le"), ("gt", "gt"), ("ge", "ge")] { f(&format!("s{}", n), cmp, &format!("signed.{}", op)); f(&format!("u{}", n), cmp, &format!("unsigned.{}", op)); f(&format!("f{}", n), cmp, &format!("float.{}", op)); }
    for (n, op) in [("and", "and"), ("or", "or"), ("xor", "xor"), ("shl", "shl"), ("lshr", "lshr"), ("ashr", "ashr")] { f(&format!("i{}", n), bin, &format!("integer.{}", op)); }
    f("icom", un, "integer.complement"); f("ipop", un, "integer.popcount"); f("ieq", cmp, "integer.eq"); f("feq", cmp, "float.eq");
    for n in ["add", "sub", "mul"] { f(&format!("f{}", n), bin, &format!("float.{}", n)); }
    for (n, op) in [("nop", "no-op"), ("itr", "integer.trunc"), ("sext", "signed.ext"), ("uext", "unsigned.ext"), ("bitcast", "bitcast"), ("reint", "reinterpret"), ("s2f", "signed.to-float"), ("u2f", "unsigned.to-float"), ("fext", "float.ext"), ("ftr", "float.trunc")] { f(n, cv, op); }
    f("band", "(-> Bool Bool Bool)", "and"); f("bor", "(-> Bool Bool Bool)", "or");
    f("seq", "(-> String String Bool)", "string.eq"); f("scat", "(-> String String String)", "string.concat"); f("slen8", "(-> String U64)", "string.length");
    o.push_str("(builtin-type (Ref A) \"ptr\"\n  [(ref A) \"ptr\"])\n(builtin-type (Array A) \"array\")\n");
    o.push_str("(builtin-op r-get {(forall A) (-> (Ref A) A)} \"ptr.load\")\n(builtin-op r-set {(forall A) (-> A (Ref A) unit)} \"ptr.store\")\n(builtin-op a-new {(forall A) (-> U64 (Array A))} \"array.alloc\")\n(builtin-op a-len {(forall A) (-> (Array A) U64)} \"array.length\")\n(builtin-op a-get {(forall A) (-> U64 (Array A) A)} \"array.load\")\n(builtin-op a-set {(forall A) (-> U64 A (Array A) unit)} \"array.store\")\n");
    o.push_str("(function (a-at k a) {(forall A) (-> U64 (Array A) A)} (a-get (urem k (a-len a)) a))\n(function (a-to k x a) {(forall A) (-> U64 A (Array A) unit)} (a-set (urem k (a-len a)) x a))\n");
    o.push_str(&format!("(export {} Ref ref Array r-get r-set a-new a-len a-set a-at a-to)\n", names.join(" ")));
    o
}
