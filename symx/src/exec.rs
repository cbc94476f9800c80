//! Symbolic executor: depth-first exploration of all feasible paths of one harness.
use crate::expr::{self, mask, sx, Op, Pool, Set, E, FULL};
use crate::fx::*;
use crate::ir::*;
use crate::z3::{Ast, Sat, Z3};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct V {
    pub c: u64,
    pub e: E,
}
#[inline]
pub fn kv(c: u64) -> V {
    V { c, e: 0 }
}

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub ip: u32,
    pub dst: u32,
    pub regs: Vec<V>,
    pub frame_obj: u32, // object id or 0
}

#[derive(Clone, Default)]
pub struct Obj {
    pub size: u64,
    pub data: Vec<u8>,
    pub sym: Vec<u32>, // (expr << 4 | byte) or 0
}

pub struct Pc {
    pub e: E,
    pub pol: bool,
    pub next: Option<Rc<Pc>>,
}
impl Drop for Pc {
    fn drop(&mut self) {
        let mut n = self.next.take();
        while let Some(r) = n {
            match Rc::try_unwrap(r) {
                Ok(mut p) => n = p.next.take(),
                Err(_) => break,
            }
        }
    }
}

#[derive(Clone)]
pub struct State {
    pub job: usize,
    pub frames: Vec<Rc<Frame>>,
    pub mem: Vec<Option<Rc<Obj>>>,
    pub free: Vec<u32>,
    pub doms: Vec<Set>,
    pub dom0: Vec<u16>, // initial cardinality of each input variable
    pub sing: u128,
    pub vals: Vec<u8>,
    pub multi: Rc<Vec<E>>, // asserted multi-variable constraints (polarity folded in)
    pub multi_mask: u128,
    pub known: Rc<Vec<(E, u64)>>,
    pub pc: Option<Rc<Pc>>,
    pub npc: u32,
    pub log: Vec<V>,
    pub nvars: u32,
    pub nhavoc: u32,
    pub pending: Option<E>,
    pub steps: u64,
    pub tls_errno: u32,
    pub hash: u32,
    pub asserts: u32,
}

/// State detached from its expression pool, to move between threads.
pub struct Portable {
    st: PState,
    nodes: Vec<(Op, u32, u32, u32, u32, u128)>,
    ctabs: Vec<Vec<u64>>,
}
struct PState {
    job: usize,
    frames: Vec<Frame>,
    mem: Vec<Option<Obj>>,
    free: Vec<u32>,
    doms: Vec<Set>,
    dom0: Vec<u16>,
    sing: u128,
    vals: Vec<u8>,
    multi: Vec<E>,
    multi_mask: u128,
    known: Vec<(E, u64)>,
    pc: Vec<(E, bool)>,
    log: Vec<V>,
    nvars: u32,
    nhavoc: u32,
    pending: Option<E>,
    steps: u64,
    tls_errno: u32,
    hash: u32,
    asserts: u32,
}
unsafe impl Send for Portable {}

#[derive(Debug, Clone, PartialEq)]
pub enum End {
    Ret,
    Assume,
    Assert(u32),
    Panic(String),
    Steps,
    Unsup(String),
}

pub enum Stop {
    Fork(Vec<(E, bool)>),
    End(End),
}
type X<T> = Result<T, Stop>;
fn unsup<T>(s: impl Into<String>) -> X<T> {
    Err(Stop::End(End::Unsup(s.into())))
}

#[derive(Clone, Debug)]
pub struct Job {
    pub name: String,
    pub func: u32,
    pub arg: u64,
}

#[derive(Default, Clone)]
pub struct JobStat {
    pub paths: u64,
    pub ok: u64,
    pub assumed: u64,
    pub asserts_concrete: u64,
    pub asserts_solver: u64,
    pub unsup: u64,
    pub stepped: u64,
    pub covered: f64,
    pub inexact: u64,
    pub dropped: u64,
    pub steps: u64,
    pub forks: u64,
    pub reach: std::collections::BTreeMap<u32, u64>,
    pub maxvars: u32,
}

#[derive(Clone, Debug)]
pub struct Finding {
    pub job: usize,
    pub kind: String,
    pub id: u32,
    pub loc: String,
    pub input: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct Sample {
    pub job: usize,
    pub input: Vec<u8>,
    pub log: Vec<u8>,
}

pub struct Shared {
    pub m: &'static Module,
    pub jobs: Vec<Job>,
    pub queue: Mutex<Vec<Work>>,
    pub hungry: AtomicUsize,
    pub active: AtomicUsize,
    pub qlen: AtomicUsize,
    pub stop: AtomicBool,
    pub deadline: Instant,
    pub step_limit: u64,
    pub findings: Mutex<Vec<Finding>>,
    pub samples: Mutex<Vec<Sample>>,
    pub unsup: Mutex<std::collections::BTreeMap<String, u64>>,
    pub max_findings: usize,
    pub sample_every: u64,
    pub smt_dump: Mutex<Vec<(String, bool)>>,
    pub dump_max: usize,
    pub gslot: Vec<u32>,
    pub ext: Vec<Ext>,
    pub init_mem: Vec<Obj>,
}
pub enum Work {
    Job(usize),
    St(Box<Portable>),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ext {
    None,
    SxByte,
    SxAssume,
    SxAssert,
    SxLog,
    SxReach,
    SxOrder,
    SxPick,
    Malloc,
    Calloc,
    Realloc,
    Free,
    Memalign,
    Bcmp,
    Memcmp,
    Strlen,
    Syscall,
    Getenv,
    Errno,
    Memchr,
    Write,
}

pub fn ext_of(n: &str) -> Ext {
    match n {
        "__sx_byte" => Ext::SxByte,
        "__sx_assume" => Ext::SxAssume,
        "__sx_assert" => Ext::SxAssert,
        "__sx_log" => Ext::SxLog,
        "__sx_reach" => Ext::SxReach,
        "__sx_order" => Ext::SxOrder,
        "__sx_pick" => Ext::SxPick,
        "malloc" => Ext::Malloc,
        "calloc" => Ext::Calloc,
        "realloc" => Ext::Realloc,
        "free" => Ext::Free,
        "posix_memalign" => Ext::Memalign,
        "bcmp" => Ext::Bcmp,
        "memcmp" => Ext::Memcmp,
        "strlen" => Ext::Strlen,
        "syscall" => Ext::Syscall,
        "getenv" => Ext::Getenv,
        "__errno_location" => Ext::Errno,
        "memchr" => Ext::Memchr,
        "write" => Ext::Write,
        _ => Ext::None,
    }
}

pub const HK_PANIC: u32 = 1;
pub const HK_HASH: u32 = 2;
pub const HK_KEYS: u32 = 3;
pub const HK_CFLOAT: u32 = 4;
pub const HK_ALPHA: u32 = 5;

/// Code-point ranges of the alphabetic characters, from the same standard library.
fn alpha_ranges() -> &'static [(u32, u32)] {
    static R: std::sync::OnceLock<Vec<(u32, u32)>> = std::sync::OnceLock::new();
    R.get_or_init(|| {
        let mut v: Vec<(u32, u32)> = vec![];
        for c in 0..0x110000u32 {
            if char::from_u32(c).is_some_and(|c| c.is_alphabetic()) {
                match v.last_mut() {
                    Some(l) if l.1 + 1 == c => l.1 = c,
                    _ => v.push((c, c)),
                }
            }
        }
        v
    })
}

pub fn hook_of(n: &str) -> u32 {
    if n.contains("9panicking") || n.contains("slice_error_fail") || n.contains("slice_index_fail") || n.contains("13unwrap_failed")
        || n.contains("13expect_failed") || n.contains("17rust_begin_unwind") || n.contains("handle_alloc_error")
        || n.contains("capacity_overflow") || n.contains("7raw_vec12handle_error")
    {
        // std::panicking::panic_count helpers etc. are never reached before the panic itself
        if n.contains("panic_count") {
            return 0;
        }
        return HK_PANIC;
    }
    if n.contains("8hash_one") {
        return HK_HASH;
    }
    if n.contains("hashmap_random_keys") {
        return HK_KEYS;
    }
    if n.contains("13compute_float") {
        return HK_CFLOAT;
    }
    if n.contains("12unicode_data10alphabetic") && n.contains("lookup") {
        return HK_ALPHA;
    }
    0
}

#[derive(Default, Clone)]
pub struct SolverStat {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub nanos: u128,
    pub memo_hits: u64,
}

pub struct Engine<'a> {
    pub sh: &'a Shared,
    pub p: Pool,
    pub z: Z3,
    pub stack: Vec<State>,
    pub js: Vec<JobStat>,
    pub ss: SolverStat,
    memo: FxMap<(u64, u64), bool>,
    smemo: FxMap<(Set, Set), u8>,
    dompred: FxMap<(u32, Set), Ast>,
    vmemo: FxMap<(u64, u64), Vec<u64>>,
    pub funcs: std::collections::BTreeMap<String, usize>,
    sample_ctr: u64,
    mv: Vec<V>,
    pub dumped: usize,
}

fn set_and(a: &Set, b: &Set) -> Set {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
fn set_not(a: &Set) -> Set {
    [!a[0], !a[1], !a[2], !a[3]]
}
fn set_empty(a: &Set) -> bool {
    a[0] | a[1] | a[2] | a[3] == 0
}
fn set_count(a: &Set) -> u32 {
    a.iter().map(|x| x.count_ones()).sum()
}
fn set_iter(a: &Set) -> impl Iterator<Item = usize> + '_ {
    (0..256).filter(move |i| a[i >> 6] >> (i & 63) & 1 == 1)
}

enum D {
    T,
    F,
    U(E),
}

static TRACE: std::sync::LazyLock<bool> = std::sync::LazyLock::new(|| std::env::var("SX_TRACE").is_ok());
impl<'a> Engine<'a> {
    pub fn new(sh: &'a Shared) -> Engine<'a> {
        Engine {
            sh,
            p: Pool::new(),
            z: Z3::new(20000),
            stack: vec![],
            js: vec![JobStat::default(); sh.jobs.len()],
            ss: Default::default(),
            memo: Default::default(),
            smemo: Default::default(),
            dompred: Default::default(),
            vmemo: Default::default(),
            funcs: Default::default(),
            sample_ctr: 0,
            mv: vec![],
            dumped: 0,
        }
    }

    fn reset_pool(&mut self) {
        self.p = Pool::new();
        self.z = Z3::new(20000);
        self.memo.clear();
        self.dompred.clear();
        self.vmemo.clear();
    }

    // ---------------------------------------------------------------- solver layer
    fn solve(&mut self, preds: &[Ast]) -> Sat {
        let t = Instant::now();
        if *TRACE {
            eprintln!("solving {}", self.z.show(preds).chars().take(60000).collect::<String>());
        }
        let r = self.z.check(preds);
        self.ss.nanos += t.elapsed().as_nanos();
        if *TRACE {
            eprintln!("took {:?} {:?}", t.elapsed(), r);
        }
        self.ss.queries += 1;
        match r {
            Sat::Sat => self.ss.sat += 1,
            Sat::Unsat => self.ss.unsat += 1,
            Sat::Unknown => self.ss.unknown += 1,
        }
        if self.dumped < self.sh.dump_max && r != Sat::Unknown && self.ss.queries % 7 == 1 {
            self.dumped += 1;
            let s = self.z.smt2();
            self.sh.smt_dump.lock().unwrap().push((s, r == Sat::Sat));
        }
        r
    }

    fn dom_pred(&mut self, var: u32, s: &Set) -> Ast {
        if let Some(a) = self.dompred.get(&(var, *s)) {
            return *a;
        }
        let v = self.z.var(var, 8);
        let mut ors = vec![];
        let mut i = 0usize;
        while i < 256 {
            if s[i >> 6] >> (i & 63) & 1 == 1 {
                let mut j = i;
                while j + 1 < 256 && s[(j + 1) >> 6] >> ((j + 1) & 63) & 1 == 1 {
                    j += 1
                }
                ors.push(self.z.range(v, i as u64, j as u64, 8));
                i = j + 1;
            } else {
                i += 1;
            }
        }
        let a = self.z.por(&ors);
        self.dompred.insert((var, *s), a);
        a
    }

    /// single-variable feasibility: is  dom(v) ∧ cond(v)  satisfiable?  bit 0: true side, bit 1: false side.
    fn single(&mut self, dom: &Set, e: E) -> u8 {
        let bits = self.p.bits(e);
        if let Some(r) = self.smemo.get(&(*dom, bits)) {
            self.ss.memo_hits += 1;
            return *r;
        }
        let var = self.p.n[e as usize].var as u32;
        let dp = self.dom_pred(var, dom);
        let t = self.p.z3(&self.z, e);
        let c = self.z.bv2b(t);
        let nc = self.z.pnot(c);
        let a = self.solve(&[dp, c]);
        let b = self.solve(&[dp, nc]);
        let r = (a == Sat::Sat) as u8 | ((b == Sat::Sat) as u8) << 1;
        // cross-check of the value table against the solver
        let ft = !set_empty(&set_and(dom, &bits));
        let ff = !set_empty(&set_and(dom, &set_not(&bits)));
        assert!(
            a != Sat::Unknown && b != Sat::Unknown && r == (ft as u8 | (ff as u8) << 1),
            "solver and value table disagree"
        );
        self.smemo.insert((*dom, bits), r);
        r
    }

    /// closure of the multi-variable constraints connected with `deps`
    fn component(&self, st: &State, deps: u128) -> (u128, Vec<E>) {
        let mut mask = deps & !st.sing;
        let mut used = vec![false; st.multi.len()];
        let mut out = vec![];
        loop {
            let mut ch = false;
            for (i, &m) in st.multi.iter().enumerate() {
                if !used[i] {
                    let d = self.p.n[m as usize].deps & !st.sing;
                    if d & mask != 0 {
                        used[i] = true;
                        mask |= d;
                        out.push(m);
                        ch = true;
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let mut full = mask | deps;
        for &m in &out {
            full |= self.p.n[m as usize].deps;
        }
        (full, out)
    }

    fn key(&self, st: &State, full: u128, cs: &[E], e: E, tag: u64) -> (u64, u64) {
        use std::hash::Hasher;
        let mut h1 = Fx::default();
        let mut h2 = Fx::default();
        h2.write_u64(0x1234567);
        for h in [&mut h1, &mut h2] {
            h.write_u32(e);
            h.write_u64(tag);
            let mut c: Vec<E> = cs.to_vec();
            c.sort_unstable();
            for x in c {
                h.write_u32(x)
            }
            let mut f = full;
            while f != 0 {
                let i = f.trailing_zeros();
                f &= f - 1;
                if let Some(d) = st.doms.get(i as usize) {
                    h.write_u32(i);
                    for x in d {
                        h.write_u64(*x)
                    }
                }
            }
        }
        (h1.finish(), h2.finish().rotate_left(17))
    }

    fn comp_preds(&mut self, st: &State, full: u128, cs: &[E]) -> Vec<Ast> {
        let mut preds = vec![];
        let mut f = full;
        while f != 0 {
            let i = f.trailing_zeros();
            f &= f - 1;
            if let Some(d) = st.doms.get(i as usize) {
                if *d != FULL {
                    let d = *d;
                    preds.push(self.dom_pred(i, &d));
                }
            }
        }
        for &c in cs {
            let t = self.p.z3(&self.z, c);
            preds.push(self.z.bv2b(t));
        }
        preds
    }

    /// Is path-condition ∧ (e == pol) satisfiable?
    fn feasible(&mut self, st: &State, e: E, pol: bool) -> X<bool> {
        let deps = self.p.n[e as usize].deps;
        let (full, cs) = self.component(st, deps);
        let k = self.key(st, full, &cs, e, pol as u64);
        if let Some(r) = self.memo.get(&k) {
            self.ss.memo_hits += 1;
            return Ok(*r);
        }
        let mut preds = self.comp_preds(st, full, &cs);
        let t = self.p.z3(&self.z, e);
        let b = self.z.bv2b(t);
        preds.push(if pol { b } else { self.z.pnot(b) });
        let r = match self.solve(&preds) {
            Sat::Sat => true,
            Sat::Unsat => false,
            Sat::Unknown => return unsup("solver timeout"),
        };
        self.memo.insert(k, r);
        Ok(r)
    }

    fn decide(&mut self, st: &State, e: E) -> X<D> {
        if let Some(k) = self.p.as_const(e) {
            return Ok(if k != 0 { D::T } else { D::F });
        }
        let n = self.p.n[e as usize].clone();
        if n.deps & st.sing != 0 {
            let e2 = self.p.subst(e, st.sing, &st.vals);
            return self.decide(st, e2);
        }
        if n.var != 255 && st.multi_mask & n.deps == 0 {
            let dom = st.doms[n.var as usize];
            return Ok(match self.single(&dom, e) {
                1 => D::T,
                2 => D::F,
                3 => D::U(e),
                _ => unreachable!("empty domain"),
            });
        }
        if n.var != 255 {
            let dom = st.doms[n.var as usize];
            match self.single(&dom, e) {
                1 => return Ok(D::T),
                2 => return Ok(D::F),
                _ => {}
            }
        } else {
            for (k, v) in st.known.iter() {
                if *k == e {
                    return Ok(if *v != 0 { D::T } else { D::F });
                }
            }
            match n.op {
                Op::And => {
                    let a = self.decide(st, n.a)?;
                    if let D::F = a {
                        return Ok(D::F);
                    }
                    let b = self.decide(st, n.b)?;
                    return Ok(match (a, b) {
                        (_, D::F) => D::F,
                        (D::T, b) => b,
                        (a, _) => a,
                    });
                }
                Op::Or => {
                    let a = self.decide(st, n.a)?;
                    if let D::T = a {
                        return Ok(D::T);
                    }
                    let b = self.decide(st, n.b)?;
                    return Ok(match (a, b) {
                        (_, D::T) => D::T,
                        (D::F, b) => b,
                        (a, _) => a,
                    });
                }
                Op::Xor => {
                    let a = self.decide(st, n.a)?;
                    if let D::U(_) = a {
                        return Ok(a);
                    }
                    let b = self.decide(st, n.b)?;
                    return Ok(match (a, b) {
                        (_, D::U(x)) => D::U(x),
                        (D::T, D::T) | (D::F, D::F) => D::F,
                        _ => D::T,
                    });
                }
                Op::Ite => match self.decide(st, n.a)? {
                    D::T => return self.decide(st, n.b),
                    D::F => return self.decide(st, n.c),
                    u => return Ok(u),
                },
                _ => {}
            }
        }
        let t = self.feasible(st, e, true)?;
        if !t {
            return Ok(D::F);
        }
        let f = self.feasible(st, e, false)?;
        Ok(if f { D::U(e) } else { D::T })
    }

    /// branch condition
    fn cond(&mut self, st: &State, v: V) -> X<bool> {
        if v.e == 0 {
            return Ok(v.c & 1 != 0);
        }
        match self.decide(st, v.e)? {
            D::T => Ok(true),
            D::F => Ok(false),
            D::U(a) => Err(Stop::Fork(vec![(a, true), (a, false)])),
        }
    }

    /// all feasible values of an expression
    fn values(&mut self, st: &State, e: E, limit: usize) -> X<Vec<u64>> {
        let n = self.p.n[e as usize].clone();
        if n.var != 255 && st.multi_mask & n.deps == 0 {
            let dom = st.doms[n.var as usize];
            let mut v: Vec<u64> = set_iter(&dom).map(|i| self.p.tv(e, i) as u64).collect();
            v.sort_unstable();
            v.dedup();
            return Ok(v);
        }
        let (full, cs) = self.component(st, n.deps);
        let k = self.key(st, full, &cs, e, 77);
        if let Some(r) = self.vmemo.get(&k) {
            return Ok(r.clone());
        }
        let w = n.w;
        if w > 64 {
            return unsup("concretise wide");
        }
        let mut preds = self.comp_preds(st, full, &cs);
        let t = self.p.z3(&self.z, e);
        let mut out = vec![];
        loop {
            match self.solve(&preds) {
                Sat::Sat => {
                    let m = self.z.model(&[t])[0];
                    out.push(m);
                    if out.len() > limit {
                        return unsup(format!("more than {limit} values for a concretised expression"));
                    }
                    let r = self.z.range(t, m, m, w);
                    preds.push(self.z.pnot(r));
                }
                Sat::Unsat => break,
                Sat::Unknown => return unsup("solver timeout"),
            }
        }
        out.sort_unstable();
        self.vmemo.insert(k, out.clone());
        Ok(out)
    }

    fn conc(&mut self, st: &State, v: V) -> X<u64> {
        if v.e == 0 {
            return Ok(v.c);
        }
        let v = self.norm(st, v);
        if v.e == 0 {
            return Ok(v.c);
        }
        for (k, x) in st.known.iter() {
            if *k == v.e {
                return Ok(*x);
            }
        }
        let vals = self.values(st, v.e, 600)?;
        if vals.len() == 1 {
            return Ok(vals[0]);
        }
        if vals.is_empty() {
            return unsup("infeasible state");
        }
        let w = self.p.w(v.e);
        let mut alts = vec![];
        for x in vals {
            let k = self.p.konst(x as u128, w);
            let q = self.p.mk(Op::Eq, 1, v.e, k, 0);
            alts.push((q, true));
        }
        Err(Stop::Fork(alts))
    }

    pub fn add(&mut self, st: &mut State, e: E, pol: bool) {
        st.pc = Some(Rc::new(Pc { e, pol, next: st.pc.take() }));
        st.npc += 1;
        self.add_in(st, e, pol);
    }

    fn add_in(&mut self, st: &mut State, e: E, pol: bool) {
        let e = if self.p.n[e as usize].deps & st.sing != 0 { self.p.subst(e, st.sing, &st.vals) } else { e };
        if self.p.as_const(e).is_some() {
            return;
        }
        let n = self.p.n[e as usize].clone();
        if n.var != 255 {
            let b = self.p.bits(e);
            let b = if pol { b } else { set_not(&b) };
            let i = n.var as usize;
            st.doms[i] = set_and(&st.doms[i], &b);
            self.check_sing(st, i);
            return;
        }
        match (n.op, pol) {
            (Op::And, true) => {
                self.add_in(st, n.a, true);
                self.add_in(st, n.b, true);
                return;
            }
            (Op::Or, false) => {
                self.add_in(st, n.a, false);
                self.add_in(st, n.b, false);
                return;
            }
            (Op::Xor, _) => {
                if let Some(k) = self.p.as_const(n.b) {
                    self.add_in(st, n.a, pol ^ (k != 0));
                    return;
                }
            }
            _ => {}
        }
        Rc::make_mut(&mut st.known).push((e, pol as u64));
        // Eq(x, k) true: remember the value of x
        if n.op == Op::Eq && pol {
            if let Some(k) = self.p.as_const(n.b) {
                if k <= u64::MAX as u128 {
                    Rc::make_mut(&mut st.known).push((n.a, k as u64));
                }
            }
        }
        let c = if pol { e } else { self.p.not(e) };
        Rc::make_mut(&mut st.multi).push(c);
        st.multi_mask |= n.deps;
    }

    fn check_sing(&mut self, st: &mut State, i: usize) {
        let d = st.doms[i];
        if set_count(&d) == 1 && st.sing >> i & 1 == 0 {
            st.sing |= 1 << i;
            st.vals[i] = set_iter(&d).next().unwrap() as u8;
            if st.multi_mask >> i & 1 == 1 {
                // re-specialise the constraints that mention i
                let old = std::mem::take(Rc::make_mut(&mut st.multi));
                st.multi_mask = 0;
                for c in old {
                    if self.p.n[c as usize].deps >> i & 1 == 1 {
                        let c2 = self.p.subst(c, st.sing, &st.vals);
                        self.add_in(st, c2, true);
                    } else {
                        st.multi_mask |= self.p.n[c as usize].deps;
                        Rc::make_mut(&mut st.multi).push(c);
                    }
                }
            }
        }
    }

    /// Conjunction of the original path condition as solver predicates.
    fn pc_preds(&mut self, st: &State) -> Vec<Ast> {
        let mut preds = vec![];
        let mut p = st.pc.clone();
        while let Some(x) = p {
            let t = self.p.z3(&self.z, x.e);
            let b = self.z.bv2b(t);
            preds.push(if x.pol { b } else { self.z.pnot(b) });
            p = x.next.clone();
        }
        preds
    }

    fn model(&mut self, st: &State, extra: Option<(E, bool)>) -> Option<Vec<u64>> {
        let mut preds = self.pc_preds(st);
        if let Some((e, pol)) = extra {
            let t = self.p.z3(&self.z, e);
            let b = self.z.bv2b(t);
            preds.push(if pol { b } else { self.z.pnot(b) });
        }
        match self.solve(&preds) {
            Sat::Sat => {
                let n = self.p.vars.len();
                let mut asts = vec![];
                for i in 0..n {
                    let w = self.p.vars[i].w.max(1);
                    asts.push(self.z.var(i as u32, if self.p.vars[i].w == 0 { 8 } else { w }));
                }
                Some(self.z.model(&asts))
            }
            _ => None,
        }
    }

    // ---------------------------------------------------------------- values
    #[inline]
    fn norm(&mut self, st: &State, v: V) -> V {
        if v.e == 0 || self.p.n[v.e as usize].deps & st.sing == 0 {
            return v;
        }
        let e = self.p.subst(v.e, st.sing, &st.vals);
        self.ev(e)
    }
    #[inline]
    fn ev(&self, e: E) -> V {
        match self.p.as_const(e) {
            Some(k) if k <= u64::MAX as u128 => kv(k as u64),
            _ => V { c: 0, e },
        }
    }
    #[inline]
    fn te(&mut self, v: V, w: u32) -> E {
        if v.e != 0 {
            v.e
        } else {
            self.p.konst(v.c as u128, w)
        }
    }
    fn is_wide_const(&self, v: V) -> bool {
        v.e != 0 && self.p.as_const(v.e).is_some()
    }

    fn mk2(&mut self, op: Op, w: u32, rw: u32, a: V, b: V) -> V {
        let (x, y) = (self.te(a, w), self.te(b, w));
        let e = self.p.mk(op, rw, x, y, 0);
        self.ev(e)
    }

    fn bin(&mut self, st: &State, op: Op, w: u32, a: V, b: V) -> V {
        if a.e | b.e == 0 && w <= 64 {
            let m = mask(w) as u64;
            let (x, y) = (a.c, b.c);
            let r = match op {
                Op::Add => x.wrapping_add(y) & m,
                Op::Sub => x.wrapping_sub(y) & m,
                Op::Mul => x.wrapping_mul(y) & m,
                Op::And => x & y,
                Op::Or => x | y,
                Op::Xor => x ^ y,
                Op::Shl if y < w as u64 => (x << y) & m,
                Op::LShr if y < w as u64 => x >> y,
                _ => expr::fold(op, w, w, x as u128, y as u128, 0) as u64,
            };
            return kv(r);
        }
        let (a, b) = (self.norm(st, a), self.norm(st, b));
        self.mk2(op, w, w, a, b)
    }

    fn cast(&mut self, st: &State, op: Op, fw: u32, tw: u32, a: V) -> V {
        if a.e == 0 {
            return match op {
                Op::ZExt => a,
                Op::Extract => kv(a.c & mask(tw) as u64),
                _ => {
                    let v = (sx(a.c as u128, fw) as u128) & mask(tw);
                    if v <= u64::MAX as u128 {
                        kv(v as u64)
                    } else {
                        let e = self.p.konst(v, tw);
                        V { c: 0, e }
                    }
                }
            };
        }
        let a = self.norm(st, a);
        if a.e == 0 {
            return self.cast(st, op, fw, tw, a);
        }
        let e = self.p.mk(op, tw, a.e, 0, 0);
        self.ev(e)
    }

    fn cmp(&mut self, st: &State, op: Op, w: u32, a: V, b: V) -> V {
        if a.e | b.e == 0 && w <= 64 {
            let r = match op {
                Op::Eq => a.c == b.c,
                Op::Ult => a.c < b.c,
                _ => sx(a.c as u128, w) < sx(b.c as u128, w),
            };
            return kv(r as u64);
        }
        let (a, b) = (self.norm(st, a), self.norm(st, b));
        self.mk2(op, w, 1, a, b)
    }

    fn ite(&mut self, st: &State, c: V, w: u32, a: V, b: V) -> V {
        let c = self.norm(st, c);
        if c.e == 0 {
            return if c.c & 1 != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        let (x, y) = (self.te(a, w), self.te(b, w));
        let e = self.p.mk(Op::Ite, w, c.e, x, y);
        self.ev(e)
    }
    fn notv(&mut self, v: V) -> V {
        if v.e == 0 {
            kv(v.c ^ 1)
        } else {
            let e = self.p.not(v.e);
            self.ev(e)
        }
    }

    // ---------------------------------------------------------------- memory
    fn alloc(&mut self, st: &mut State, size: u64) -> u64 {
        let o = Rc::new(Obj { size, data: vec![], sym: vec![] });
        let slot = if let Some(s) = st.free.pop() {
            st.mem[s as usize] = Some(o);
            s
        } else {
            st.mem.push(Some(o));
            st.mem.len() as u32 - 1
        };
        (self.sh.m.globals.len() as u64 + slot as u64) << 32
    }
    fn slot(&self, id: u64) -> X<Result<usize, usize>> {
        let g = self.sh.m.globals.len() as u64;
        if id == 0 || id >= FN_BASE {
            return unsup(format!("access to object {id:x}"));
        }
        if id < g {
            if self.sh.m.globals[id as usize].konst {
                Ok(Err(id as usize))
            } else {
                Ok(Ok(self.sh.gslot[id as usize] as usize))
            }
        } else {
            Ok(Ok((id - g) as usize))
        }
    }

    fn load(&mut self, st: &State, addr: u64, w: u32) -> X<V> {
        let off = (addr & 0xffff_ffff) as usize;
        let n = (w as usize).div_ceil(8);
        match self.slot(addr >> 32)? {
            Err(g) => {
                let d = &self.sh.m.globals[g].data;
                if off + n > d.len() {
                    return unsup("out-of-bounds constant read");
                }
                Ok(self.bytes_val(&d[off..off + n], w))
            }
            Ok(s) => {
                let Some(Some(o)) = st.mem.get(s) else { return unsup("read of dead object") };
                let o = o.clone();
                if (off + n) as u64 > o.size {
                    return unsup(format!("out-of-bounds read {off}+{n} of {}", o.size));
                }
                let symbolic = o.sym.len() > off && o.sym[off..(off + n).min(o.sym.len())].iter().any(|x| *x != 0);
                if !symbolic {
                    if off + n <= o.data.len() {
                        return Ok(self.bytes_val(&o.data[off..off + n], w));
                    }
                    let mut b = [0u8; 16];
                    for (i, x) in b.iter_mut().enumerate().take(n) {
                        *x = o.data.get(off + i).copied().unwrap_or(0)
                    }
                    return Ok(self.bytes_val(&b[..n], w));
                }
                // same expression, consecutive bytes?
                let s0 = o.sym[off];
                if s0 != 0 && s0 & 15 == 0 && off + n <= o.sym.len() {
                    let e = s0 >> 4;
                    if (0..n).all(|i| o.sym[off + i] == s0 + i as u32) {
                        let ew = self.p.w(e);
                        if ew == w {
                            return Ok(self.norm(st, V { c: 0, e }));
                        }
                        if ew > w {
                            let x = self.p.mk(Op::Extract, w, e, 0, 0);
                            let v = self.ev(x);
                            return Ok(self.norm(st, v));
                        }
                    }
                }
                let mut acc: Option<E> = None;
                let mut aw = 0;
                for i in 0..n {
                    let sy = o.sym.get(off + i).copied().unwrap_or(0);
                    let b = if sy == 0 {
                        let k = o.data.get(off + i).copied().unwrap_or(0);
                        self.p.konst(k as u128, 8)
                    } else {
                        let e = sy >> 4;
                        let lo = (sy & 15) * 8;
                        let ew = self.p.w(e);
                        let x = if ew == 8 && lo == 0 {
                            e
                        } else if lo >= ew {
                            self.p.konst(0, 8)
                        } else if lo + 8 <= ew {
                            self.p.mk(Op::Extract, 8, e, lo, 0)
                        } else {
                            let y = self.p.mk(Op::Extract, ew - lo, e, lo, 0);
                            self.p.mk(Op::ZExt, 8, y, 0, 0)
                        };
                        self.p.subst(x, st.sing, &st.vals)
                    };
                    acc = Some(match acc {
                        None => b,
                        Some(a) => self.p.mk(Op::Concat, aw + 8, b, a, 0),
                    });
                    aw += 8;
                }
                let mut e = acc.unwrap();
                if aw > w {
                    e = self.p.mk(Op::Extract, w, e, 0, 0);
                }
                Ok(self.ev(e))
            }
        }
    }
    fn bytes_val(&mut self, b: &[u8], w: u32) -> V {
        if b.len() <= 8 {
            let mut x = [0u8; 8];
            x[..b.len()].copy_from_slice(b);
            let v = u64::from_le_bytes(x);
            kv(if w < 64 { v & mask(w) as u64 } else { v })
        } else {
            let mut x = [0u8; 16];
            x[..b.len()].copy_from_slice(b);
            let v = u128::from_le_bytes(x) & mask(w);
            if v <= u64::MAX as u128 {
                kv(v as u64)
            } else {
                let e = self.p.konst(v, w);
                V { c: 0, e }
            }
        }
    }

    fn objmut<'s>(&self, st: &'s mut State, addr: u64, n: usize) -> X<&'s mut Obj> {
        let off = addr & 0xffff_ffff;
        match self.slot(addr >> 32)? {
            Err(_) => unsup("write to constant"),
            Ok(s) => {
                let Some(Some(o)) = st.mem.get_mut(s) else { return unsup("write to dead object") };
                if off + n as u64 > o.size {
                    return unsup(format!("out-of-bounds write {off}+{n} of {}", o.size));
                }
                Ok(Rc::make_mut(o))
            }
        }
    }

    fn store(&mut self, st: &mut State, addr: u64, v: V, w: u32) -> X<()> {
        let off = (addr & 0xffff_ffff) as usize;
        let n = (w as usize).div_ceil(8);
        if n == 0 {
            return Ok(());
        }
        let wide = if v.e != 0 { self.p.as_const(v.e) } else { None };
        let o = self.objmut(st, addr, n)?;
        if o.data.len() < off + n {
            let cap = (off + n).next_power_of_two().max(64).min(o.size as usize);
            if o.data.capacity() < cap {
                o.data.reserve_exact(cap - o.data.len());
            }
            o.data.resize(off + n, 0);
        }
        if v.e == 0 || wide.is_some() {
            let k = wide.unwrap_or(v.c as u128);
            let b = k.to_le_bytes();
            o.data[off..off + n].copy_from_slice(&b[..n]);
            if o.sym.len() > off {
                let e = (off + n).min(o.sym.len());
                o.sym[off..e].fill(0);
            }
        } else {
            if o.sym.len() < off + n {
                o.sym.resize(off + n, 0);
            }
            for i in 0..n {
                o.sym[off + i] = v.e << 4 | i as u32;
            }
        }
        Ok(())
    }

    fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: u64) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        let n = n as usize;
        let so = (src & 0xffff_ffff) as usize;
        let mut data = vec![0u8; n];
        let mut sym: Vec<u32> = vec![];
        match self.slot(src >> 32)? {
            Err(g) => {
                let d = &self.sh.m.globals[g].data;
                if so + n > d.len() {
                    return unsup("memcpy constant oob");
                }
                data.copy_from_slice(&d[so..so + n]);
            }
            Ok(s) => {
                let Some(Some(o)) = st.mem.get(s) else { return unsup("memcpy dead") };
                if (so + n) as u64 > o.size {
                    return unsup("memcpy oob");
                }
                let e = (so + n).min(o.data.len());
                if so < e {
                    data[..e - so].copy_from_slice(&o.data[so..e]);
                }
                let e = (so + n).min(o.sym.len());
                if so < e && o.sym[so..e].iter().any(|x| *x != 0) {
                    sym = vec![0; n];
                    sym[..e - so].copy_from_slice(&o.sym[so..e]);
                }
            }
        }
        let off = (dst & 0xffff_ffff) as usize;
        let o = self.objmut(st, dst, n)?;
        if o.data.len() < off + n {
            o.data.resize(off + n, 0);
        }
        o.data[off..off + n].copy_from_slice(&data);
        if sym.is_empty() {
            if o.sym.len() > off {
                let e = (off + n).min(o.sym.len());
                o.sym[off..e].fill(0);
            }
        } else {
            if o.sym.len() < off + n {
                o.sym.resize(off + n, 0);
            }
            o.sym[off..off + n].copy_from_slice(&sym);
        }
        Ok(())
    }

    fn load_ptr(&mut self, st: &State, ptr: V, off: u32, w: u32) -> X<V> {
        let ptr = self.norm(st, ptr);
        if ptr.e == 0 {
            return self.load(st, ptr.c + off as u64, w);
        }
        // symbolic address
        let n = self.p.n[ptr.e as usize].clone();
        let nb = (w as u64).div_ceil(8);
        if n.var != 255 && st.multi_mask & n.deps == 0 {
            let vals = self.values(st, ptr.e, 600)?;
            let obj = vals[0] >> 32;
            let (lo, hi) = (vals[0], *vals.last().unwrap());
            if hi >> 32 == obj && hi - lo < 8192 && w <= 64 {
                let mut t = vec![0u64; (hi - lo + 1) as usize];
                let mut ok = true;
                for a in &vals {
                    let v = self.load(st, a + off as u64, w)?;
                    if v.e != 0 {
                        ok = false;
                        break;
                    }
                    t[(a - lo) as usize] = v.c;
                }
                if ok {
                    return Ok(self.tab_load(ptr.e, lo, t, w));
                }
            }
        } else if let Some(vs) = if w <= 64 { self.p.vset(ptr.e) } else { None } {
            // constant table: every candidate address within one constant object
            let g = vs[0] as u64 >> 32;
            let known = |a: u64, sh: &Shared| {
                let g = (a >> 32) as usize;
                g != 0 && g < sh.m.globals.len() && sh.m.globals[g].konst && (a as u32) as u64 + off as u64 + nb <= sh.m.globals[g].size
            };
            let inb: Vec<u64> = vs.iter().map(|x| *x as u64).filter(|a| known(*a, self.sh)).collect();
            if !inb.is_empty() && inb.iter().all(|a| a >> 32 == g || inb[0] >> 32 == a >> 32) && inb.last().unwrap() - inb[0] < 65536 {
                // candidates outside the object must be infeasible, or the load is out of bounds
                let all_in = inb.len() == vs.len() || {
                    let (lo, hi) = (inb[0], *inb.last().unwrap());
                    let l = self.p.konst(lo as u128, 64);
                    let h = self.p.konst(hi as u128, 64);
                    let c1 = self.p.mk(Op::Ule, 1, l, ptr.e, 0);
                    let c2 = self.p.mk(Op::Ule, 1, ptr.e, h, 0);
                    let c = self.p.mk(Op::And, 1, c1, c2, 0);
                    matches!(self.decide(st, c)?, D::T)
                };
                if all_in {
                    let lo = inb[0];
                    let n = (*inb.last().unwrap() - lo + 1) as usize;
                    let mut t = vec![0u64; n];
                    let mut prev = 0usize;
                    for a in &inb {
                        let v = self.load(st, a + off as u64, w)?;
                        let i = (a - lo) as usize;
                        for x in t[prev..=i].iter_mut() {
                            *x = v.c
                        }
                        prev = i + 1;
                    }
                    return Ok(self.tab_load(ptr.e, lo, t, w));
                }
            }
        } else if n.op == Op::Add && w <= 64 {
            if let Some(k) = self.p.as_const(n.b) {
                let g = (k as u64) >> 32;
                if g != 0 && g < self.sh.m.globals.len() as u64 && self.sh.m.globals[g as usize].konst {
                    let sz = self.sh.m.globals[g as usize].size;
                    if sz <= 8192 && sz >= nb {
                        let base = (g << 32).wrapping_sub(0);
                        let mut t = vec![];
                        for o in 0..=(sz - nb) {
                            t.push(self.load(st, base + o, w)?.c);
                        }
                        let lo = base.wrapping_sub(off as u64);
                        return Ok(self.tab_load(ptr.e, lo, t, w));
                    }
                }
            }
        }
        let a = self.conc(st, ptr)?;
        self.load(st, a + off as u64, w)
    }

    fn tab_load(&mut self, addr: E, lo: u64, t: Vec<u64>, w: u32) -> V {
        let k = self.p.konst((lo as u128).wrapping_neg() & mask(64), 64);
        let mut idx = self.p.mk(Op::Add, 64, addr, k, 0);
        if let Some(c) = self.p.as_const(idx) {
            return kv(t.get(c as usize).copied().unwrap_or(0));
        }
        // narrow the index
        let need = 64 - (t.len() as u64).leading_zeros();
        let ones = self.p.n[idx as usize].ones;
        let iw = (128 - ones.leading_zeros()).max(1);
        let _ = need;
        if iw < 64 {
            idx = self.p.mk(Op::Extract, iw, idx, 0, 0);
        }
        let id = self.p.ctab(t);
        let e = self.p.mk(Op::Tab, w, idx, id, 0);
        self.ev(e)
    }

    // ---------------------------------------------------------------- driver
    fn func(&mut self, i: u32) -> &'static Func {
        let fs = &self.sh.m.funcs[i as usize];
        if let Some(f) = fs.cell.get() {
            return f;
        }
        fs.cell.get_or_init(|| lower(self.sh.m, i))
    }

    fn push_call(&mut self, st: &mut State, fi: u32, args: &[V], dst: u32) -> X<()> {
        let f = self.func(fi);
        if st.frames.len() > 6000 {
            return unsup("call depth");
        }
        let mut regs = Vec::with_capacity(f.nregs as usize);
        regs.extend_from_slice(&args[..(f.nparams as usize).min(args.len())]);
        regs.resize(f.nregs as usize, kv(0));
        let fo = if f.frame > 0 { (self.alloc(st, f.frame) >> 32) as u32 } else { 0 };
        if !self.funcs.contains_key(&f.name) {
            self.funcs.insert(f.name.clone(), f.ninstr);
        }
        st.frames.push(Rc::new(Frame { f, ip: 0, dst, regs, frame_obj: fo }));
        Ok(())
    }

    fn free_id(&mut self, st: &mut State, id: u64) {
        if let Ok(Ok(s)) = self.slot(id) {
            st.mem[s] = None;
            st.free.push(s as u32);
        }
    }

    pub fn new_state(&mut self, job: usize) -> X<State> {
        let mut st = State {
            job,
            frames: vec![],
            mem: self.sh.init_mem.iter().map(|o| Some(Rc::new(o.clone()))).collect(),
            free: vec![],
            doms: vec![],
            dom0: vec![],
            sing: 0,
            vals: vec![],
            multi: Rc::new(vec![]),
            multi_mask: 0,
            known: Rc::new(vec![]),
            pc: None,
            npc: 0,
            log: vec![],
            nvars: 0,
            nhavoc: 0,
            pending: None,
            steps: 0,
            tls_errno: 0,
            hash: 0x89ab_cdef,
            asserts: 0,
        };
        let j = self.sh.jobs[job].clone();
        self.push_call(&mut st, j.func, &[kv(j.arg)], 0)?;
        Ok(st)
    }

    pub fn export(&self, st: State) -> Portable {
        let mut ids: Vec<E> = vec![];
        let mut map: FxMap<E, u32> = Default::default();
        let mut nodes = vec![];
        let mut ctabs = vec![];
        fn go(
            p: &Pool,
            e: E,
            map: &mut FxMap<E, u32>,
            nodes: &mut Vec<(Op, u32, u32, u32, u32, u128)>,
            ctabs: &mut Vec<Vec<u64>>,
        ) -> u32 {
            if e == 0 {
                return 0;
            }
            if let Some(x) = map.get(&e) {
                return *x;
            }
            let n = &p.n[e as usize];
            let r = match n.op {
                Op::Var => (n.op, n.w, n.a, 0, 0, 0),
                Op::Const => (n.op, n.w, 0, 0, 0, p.consts[n.a as usize]),
                Op::Extract => (n.op, n.w, go(p, n.a, map, nodes, ctabs), n.b, 0, 0),
                Op::Tab => {
                    let a = go(p, n.a, map, nodes, ctabs);
                    ctabs.push(p.ctabs[n.b as usize].clone());
                    (n.op, n.w, a, ctabs.len() as u32 - 1, 0, 0)
                }
                Op::ZExt | Op::SExt => (n.op, n.w, go(p, n.a, map, nodes, ctabs), 0, 0, 0),
                Op::Ite => {
                    let a = go(p, n.a, map, nodes, ctabs);
                    let b = go(p, n.b, map, nodes, ctabs);
                    let c = go(p, n.c, map, nodes, ctabs);
                    (n.op, n.w, a, b, c, 0)
                }
                _ => {
                    let a = go(p, n.a, map, nodes, ctabs);
                    let b = go(p, n.b, map, nodes, ctabs);
                    (n.op, n.w, a, b, 0, 0)
                }
            };
            nodes.push(r);
            let id = nodes.len() as u32; // 1-based
            map.insert(e, id);
            id
        }
        ids.clear();
        let mut t = |e: E| go(&self.p, e, &mut map, &mut nodes, &mut ctabs);
        let frames = st
            .frames
            .iter()
            .map(|f| {
                let mut f = (**f).clone();
                for v in f.regs.iter_mut() {
                    v.e = t(v.e)
                }
                f
            })
            .collect();
        let mem = st
            .mem
            .iter()
            .map(|o| {
                o.as_ref().map(|o| {
                    let mut o = (**o).clone();
                    for s in o.sym.iter_mut() {
                        if *s != 0 {
                            *s = t(*s >> 4) << 4 | (*s & 15)
                        }
                    }
                    o
                })
            })
            .collect();
        let multi = st.multi.iter().map(|e| t(*e)).collect();
        let known = st.known.iter().map(|(e, v)| (t(*e), *v)).collect();
        let mut pc = vec![];
        let mut q = st.pc.clone();
        while let Some(x) = q {
            pc.push((t(x.e), x.pol));
            q = x.next.clone();
        }
        pc.reverse();
        let log = st.log.iter().map(|v| V { c: v.c, e: t(v.e) }).collect();
        let pending = st.pending.map(&mut t);
        Portable {
            st: PState {
                job: st.job,
                frames,
                mem,
                free: st.free.clone(),
                doms: st.doms.clone(),
                dom0: st.dom0.clone(),
                sing: st.sing,
                vals: st.vals.clone(),
                multi,
                multi_mask: st.multi_mask,
                known,
                pc,
                log,
                nvars: st.nvars,
                nhavoc: st.nhavoc,
                pending,
                steps: st.steps,
                tls_errno: st.tls_errno,
                hash: st.hash,
                asserts: st.asserts,
            },
            nodes,
            ctabs,
        }
    }

    pub fn import(&mut self, p: Portable) -> State {
        let mut map: Vec<E> = vec![0];
        for (op, w, a, b, c, k) in &p.nodes {
            let e = match op {
                Op::Var => self.p.var(*a as usize, *w),
                Op::Const => self.p.konst(*k, *w),
                Op::Extract => self.p.mk(*op, *w, map[*a as usize], *b, 0),
                Op::Tab => {
                    let id = self.p.ctab(p.ctabs[*b as usize].clone());
                    self.p.mk(*op, *w, map[*a as usize], id, 0)
                }
                _ => self.p.mk(*op, *w, map[*a as usize], map[*b as usize], map[*c as usize]),
            };
            map.push(e);
        }
        let t = |e: E| map[e as usize];
        let s = p.st;
        let fixv = |p: &Pool, v: &mut V| {
            if v.e != 0 {
                v.e = t(v.e);
                if let Some(k) = p.as_const(v.e) {
                    if k <= u64::MAX as u128 {
                        *v = kv(k as u64);
                    }
                }
            }
        };
        let frames = s
            .frames
            .into_iter()
            .map(|mut f| {
                for v in f.regs.iter_mut() {
                    fixv(&self.p, v)
                }
                Rc::new(f)
            })
            .collect();
        let mem = s
            .mem
            .into_iter()
            .map(|o| {
                o.map(|mut o| {
                    for x in o.sym.iter_mut() {
                        if *x != 0 {
                            *x = t(*x >> 4) << 4 | (*x & 15)
                        }
                    }
                    Rc::new(o)
                })
            })
            .collect();
        let mut pc = None;
        let npc = s.pc.len() as u32;
        for (e, pol) in s.pc {
            pc = Some(Rc::new(Pc { e: t(e), pol, next: pc }));
        }
        let mut log = s.log;
        for v in log.iter_mut() {
            fixv(&self.p, v)
        }
        State {
            job: s.job,
            frames,
            mem,
            free: s.free,
            doms: s.doms,
            dom0: s.dom0,
            sing: s.sing,
            vals: s.vals,
            multi: Rc::new(s.multi.into_iter().map(t).collect()),
            multi_mask: s.multi_mask,
            known: Rc::new(s.known.into_iter().map(|(e, v)| (t(e), v)).collect()),
            pc,
            npc,
            log,
            nvars: s.nvars,
            nhavoc: s.nhavoc,
            pending: s.pending.map(t),
            steps: s.steps,
            tls_errno: s.tls_errno,
            hash: s.hash,
            asserts: s.asserts,
        }
    }

    fn maybe_donate(&mut self) {
        if self.sh.hungry.load(Ordering::Relaxed) > self.sh.qlen.load(Ordering::Relaxed) && self.stack.len() > 1 {
            let st = self.stack.remove(0);
            let p = self.export(st);
            let mut q = self.sh.queue.lock().unwrap();
            q.push(Work::St(Box::new(p)));
            self.sh.qlen.store(q.len(), Ordering::Relaxed);
        }
    }

    /// Worker loop.
    pub fn work(&mut self) {
        let sh = self.sh;
        let mut hungry = false;
        loop {
            if sh.stop.load(Ordering::Relaxed) {
                break;
            }
            let w = {
                let mut q = sh.queue.lock().unwrap();
                // prefer donated states
                let w = if let Some(k) = q.iter().rposition(|w| matches!(w, Work::St(_))) {
                    Some(q.remove(k))
                } else {
                    q.pop()
                };
                sh.qlen.store(q.len(), Ordering::Relaxed);
                if w.is_some() {
                    sh.active.fetch_add(1, Ordering::SeqCst);
                }
                w
            };
            let Some(w) = w else {
                if !hungry {
                    hungry = true;
                    sh.hungry.fetch_add(1, Ordering::SeqCst);
                }
                if sh.active.load(Ordering::SeqCst) == 0 && sh.queue.lock().unwrap().is_empty() {
                    break;
                }
                std::thread::sleep(std::time::Duration::from_micros(300));
                continue;
            };
            if hungry {
                hungry = false;
                sh.hungry.fetch_sub(1, Ordering::SeqCst);
            }
            if self.p.size() > 3_000_000 {
                self.reset_pool();
            }
            match w {
                Work::Job(j) => match self.new_state(j) {
                    Ok(s) => self.stack.push(s),
                    Err(_) => {
                        self.js[j].unsup += 1;
                    }
                },
                Work::St(p) => {
                    let s = self.import(*p);
                    self.stack.push(s);
                }
            }
            while let Some(st) = self.stack.pop() {
                if sh.stop.load(Ordering::Relaxed) || Instant::now() > sh.deadline {
                    sh.stop.store(true, Ordering::Relaxed);
                    self.js[st.job].dropped += 1;
                    for s in std::mem::take(&mut self.stack) {
                        self.js[s.job].dropped += 1;
                    }
                    break;
                }
                self.run(st);
                self.maybe_donate();
            }
            sh.active.fetch_sub(1, Ordering::SeqCst);
        }
        if hungry {
            sh.hungry.fetch_sub(1, Ordering::SeqCst);
        }
    }

    fn run(&mut self, mut st: State) {
        let start_steps = st.steps;
        let mut last = st.steps;
        let end = loop {
            if st.steps >= self.sh.step_limit {
                break End::Steps;
            }
            if st.steps - last > 200_000 {
                last = st.steps;
                if Instant::now() > self.sh.deadline {
                    self.sh.stop.store(true, Ordering::Relaxed);
                    self.js[st.job].dropped += 1;
                    self.js[st.job].steps += st.steps - start_steps;
                    return;
                }
            }
            match self.step(&mut st) {
                Ok(()) => {}
                Err(Stop::Fork(alts)) => {
                    self.js[st.job].forks += 1;
                    debug_assert!(alts.len() > 1);
                    // later alternatives go on the stack in reverse so that alt 1 is next
                    for (e, pol) in alts[1..].iter().rev() {
                        let mut s = st.clone();
                        s.steps = st.steps;
                        self.add(&mut s, *e, *pol);
                        self.stack.push(s);
                    }
                    let (e, pol) = alts[0];
                    self.add(&mut st, e, pol);
                    if self.stack.len() > 2 {
                        self.maybe_donate();
                    }
                }
                Err(Stop::End(e)) => break e,
            }
        };
        let j = st.job;
        self.js[j].steps += st.steps - start_steps;
        self.js[j].paths += 1;
        self.js[j].maxvars = self.js[j].maxvars.max(st.nvars);
        if st.multi.is_empty() {
            let mut f = 1.0f64;
            for (d, n0) in st.doms.iter().zip(&st.dom0) {
                f *= set_count(d) as f64 / *n0 as f64;
            }
            self.js[j].covered += f;
        } else {
            self.js[j].inexact += 1;
        }
        match end {
            End::Ret => {
                self.js[j].ok += 1;
                self.js[j].asserts_concrete += st.asserts as u64;
                self.sample_ctr += 1;
                let c = self.sample_ctr;
                if c % self.sh.sample_every == 1 || self.sh.sample_every == 1 {
                    if let Some(m) = self.model(&st, None) {
                        let input = m[..st.nvars as usize].iter().map(|x| *x as u8).collect();
                        let mut memo = Default::default();
                        let log = st
                            .log
                            .iter()
                            .map(|v| if v.e == 0 { v.c as u8 } else { self.p.eval(v.e, &m, &mut memo) as u8 })
                            .collect();
                        self.sh.samples.lock().unwrap().push(Sample { job: j, input, log });
                    } else {
                        self.note_unsup("no model for a completed path");
                    }
                }
            }
            End::Assume => self.js[j].assumed += 1,
            End::Assert(id) => self.finding(&st, "assert", id, None),
            End::Panic(ref s) => {
                let s = s.clone();
                self.finding(&st, &format!("panic:{s}"), 0, None)
            }
            End::Steps => {
                self.js[j].stepped += 1;
                self.finding(&st, "steps", 0, None)
            }
            End::Unsup(s) => {
                self.js[j].unsup += 1;
                let fr = st.frames.last().map(|f| f.f.name.clone()).unwrap_or_default();
                self.note_unsup(&format!("{s} [in {fr}]"));
                // concolic fall-back: hand one model to native replay
                self.finding(&st, "unsupported", 0, None);
            }
        }
    }

    fn note_unsup(&self, s: &str) {
        let mut u = self.sh.unsup.lock().unwrap();
        if u.len() < 200 {
            *u.entry(s.to_string()).or_default() += 1;
        }
    }

    fn finding(&mut self, st: &State, kind: &str, id: u32, extra: Option<(E, bool)>) {
        let fr = st.frames.iter().rev().take(4).map(|f| f.f.name.as_str()).collect::<Vec<_>>().join(" < ");
        {
            let f = self.sh.findings.lock().unwrap();
            if f.iter().filter(|x| x.kind == kind && x.id == id && x.job == st.job).count() >= self.sh.max_findings {
                return;
            }
        }
        if let Some(m) = self.model(st, extra) {
            let input = m[..st.nvars as usize].iter().map(|x| *x as u8).collect();
            self.sh.findings.lock().unwrap().push(Finding { job: st.job, kind: kind.to_string(), id, loc: fr, input });
        } else {
            self.note_unsup(&format!("no model for {kind}"));
        }
    }

    #[inline]
    fn get(&mut self, st: &State, o: Opd) -> V {
        let fr = st.frames.last().unwrap();
        if o >= 0 {
            fr.regs[o as usize]
        } else {
            let k = fr.f.consts[!o as usize];
            if k <= u64::MAX as u128 {
                kv(k as u64)
            } else {
                let e = self.p.konst(k, 128);
                V { c: 0, e }
            }
        }
    }
    #[inline]
    fn set(st: &mut State, r: u32, v: V) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        fr.regs[r as usize] = v;
    }
    #[inline]
    fn adv(st: &mut State) {
        Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1;
    }

    fn jump(&mut self, st: &mut State, e: &Edge) {
        if e.moves.is_empty() {
            Rc::make_mut(st.frames.last_mut().unwrap()).ip = e.to;
            return;
        }
        let mut mv = std::mem::take(&mut self.mv);
        mv.clear();
        for (_, o) in e.moves.iter() {
            mv.push(self.get(st, *o));
        }
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        for ((d, _), v) in e.moves.iter().zip(&mv) {
            fr.regs[*d as usize] = *v;
        }
        fr.ip = e.to;
        self.mv = mv;
    }

    fn step(&mut self, st: &mut State) -> X<()> {
        st.steps += 1;
        let (f, ip) = {
            let fr = st.frames.last().unwrap();
            (fr.f, fr.ip)
        };
        match &f.code[ip as usize] {
            I::Bin { op, w, dst, a, b } => {
                let (x, y) = (self.get(st, *a), self.get(st, *b));
                let v = if matches!(op, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) && y.e != 0 {
                    let y = kv(self.conc(st, y)?);
                    self.bin(st, *op, *w, x, y)
                } else {
                    self.bin(st, *op, *w, x, y)
                };
                Self::set(st, *dst, v);
                Self::adv(st);
            }
            I::Cmp { op, neg, w, dst, a, b } => {
                let (x, y) = (self.get(st, *a), self.get(st, *b));
                let mut v = self.cmp(st, *op, *w, x, y);
                if *neg {
                    v = self.notv(v);
                }
                Self::set(st, *dst, v);
                Self::adv(st);
            }
            I::Cast { op, fw, tw, dst, a } => {
                let x = self.get(st, *a);
                let v = self.cast(st, *op, *fw, *tw, x);
                Self::set(st, *dst, v);
                Self::adv(st);
            }
            I::Sel { c, w, dst, a, b } => {
                let cc = self.get(st, *c);
                let (x, y) = (self.get(st, *a), self.get(st, *b));
                let cc = if cc.e != 0 {
                    match self.decide_cheap(st, cc.e) {
                        Some(t) => kv(t as u64),
                        None => cc,
                    }
                } else {
                    cc
                };
                let v = self.ite(st, cc, *w, x, y);
                Self::set(st, *dst, v);
                Self::adv(st);
            }
            I::Mov { dst, a } => {
                let x = self.get(st, *a);
                Self::set(st, *dst, x);
                Self::adv(st);
            }
            I::Load { dst, ptr, off, w } => {
                let p = self.get(st, *ptr);
                let v = self.load_ptr(st, p, *off, *w)?;
                Self::set(st, *dst, v);
                Self::adv(st);
            }
            I::Store { ptr, off, val, w } => {
                let p = self.get(st, *ptr);
                let v = self.get(st, *val);
                let v = self.norm(st, v);
                let a = self.conc(st, p)?;
                self.store(st, a + *off as u64, v, *w)?;
                Self::adv(st);
            }
            I::Gep { dst, base, off, terms } => {
                let b = self.get(st, *base);
                let mut v = if b.e == 0 {
                    kv(b.c.wrapping_add(*off as u64))
                } else {
                    self.bin(st, Op::Add, 64, b, kv(*off as u64))
                };
                for (o, sc, w) in terms.iter() {
                    let mut x = self.get(st, *o);
                    if *w < 64 {
                        x = self.cast(st, Op::SExt, *w, 64, x);
                    }
                    let t = if *sc == 1 { x } else { self.bin(st, Op::Mul, 64, x, kv(*sc as u64)) };
                    v = self.bin(st, Op::Add, 64, v, t);
                }
                Self::set(st, *dst, v);
                Self::adv(st);
            }
            I::Alloca { dst, off } => {
                let id = st.frames.last().unwrap().frame_obj as u64;
                Self::set(st, *dst, kv((id << 32) + off));
                Self::adv(st);
            }
            I::Br(e) => self.jump(st, e),
            I::CondBr { c, t, f } => {
                let v = self.get(st, *c);
                if self.cond(st, v)? {
                    self.jump(st, t)
                } else {
                    self.jump(st, f)
                }
            }
            I::Switch { v, w, cases, edges } => {
                let x = self.get(st, *v);
                let x = self.norm(st, x);
                let k = self.switch(st, x, *w, cases, edges.len())?;
                self.jump(st, &edges[k]);
            }
            I::Ret(vals) => {
                let vs: Vec<V> = vals.iter().map(|o| self.get(st, *o)).collect();
                let fr = st.frames.pop().unwrap();
                if fr.frame_obj != 0 {
                    self.free_id(st, fr.frame_obj as u64);
                }
                if st.frames.is_empty() {
                    return Err(Stop::End(End::Ret));
                }
                let c = Rc::make_mut(st.frames.last_mut().unwrap());
                for (i, v) in vs.into_iter().enumerate() {
                    c.regs[fr.dst as usize + i] = v;
                }
                c.ip += 1;
            }
            I::Call(ci) => return self.call(st, ci),
            I::Ovf { op, signed, w, dst, a, b } => {
                let (x, y) = (self.get(st, *a), self.get(st, *b));
                let (x, y) = (self.norm(st, x), self.norm(st, y));
                let (r, o) = self.ovf(st, *op, *signed, *w, x, y);
                Self::set(st, *dst, r);
                Self::set(st, *dst + 1, o);
                Self::adv(st);
            }
            I::Intr { k, w, dst, args } => {
                let a: Vec<V> = args
                    .iter()
                    .map(|o| {
                        let v = self.get(st, *o);
                        self.norm(st, v)
                    })
                    .collect();
                let v = self.intr(st, *k, *w, &a)?;
                if let Some(v) = v {
                    Self::set(st, *dst, v);
                }
                Self::adv(st);
            }
            I::Pack { dst, ew, srcs } => {
                let vs: Vec<V> = srcs
                    .iter()
                    .map(|o| {
                        let v = self.get(st, *o);
                        self.norm(st, v)
                    })
                    .collect();
                let total = *ew * vs.len() as u32;
                let v = if vs.iter().all(|v| v.e == 0) {
                    let mut acc = 0u128;
                    for (i, v) in vs.iter().enumerate() {
                        acc |= (v.c as u128) << (i as u32 * ew);
                    }
                    if acc <= u64::MAX as u128 {
                        kv(acc as u64)
                    } else {
                        let e = self.p.konst(acc, total);
                        V { c: 0, e }
                    }
                } else {
                    let mut acc = self.te(vs[0], *ew);
                    for (i, v) in vs.iter().enumerate().skip(1) {
                        let h = self.te(*v, *ew);
                        acc = self.p.mk(Op::Concat, *ew * (i as u32 + 1), h, acc, 0);
                    }
                    self.ev(acc)
                };
                Self::set(st, *dst, v);
                Self::adv(st);
            }
            I::Unpack { dst, ew, n, src, w } => {
                let v = self.get(st, *src);
                for i in 0..*n {
                    let x = if v.e == 0 {
                        kv(if i * ew >= 64 { 0 } else { (v.c >> (i * ew)) & mask(*ew) as u64 })
                    } else {
                        let _ = w;
                        let e = self.p.mk(Op::Extract, *ew, v.e, i * ew, 0);
                        let q = self.ev(e);
                        self.norm(st, q)
                    };
                    Self::set(st, dst + i, x);
                }
                Self::adv(st);
            }
            I::ExtElt { dst, idx, srcs, .. } => {
                let i = self.get(st, *idx);
                let k = self.conc(st, i)? as usize % srcs.len();
                let v = self.get(st, srcs[k]);
                Self::set(st, *dst, v);
                Self::adv(st);
            }
            I::FOp { k, dst, w, a, b } => {
                let (x, y) = (self.get(st, *a), self.get(st, *b));
                let (x, y) = (self.norm(st, x), self.norm(st, y));
                let v = if x.e | y.e == 0 && (*w == 64 || *k >= 6) {
                    let (p, q) = (f64::from_bits(x.c), f64::from_bits(y.c));
                    kv(match k {
                        0 => (p + q).to_bits(),
                        1 => (p - q).to_bits(),
                        2 => (p * q).to_bits(),
                        3 => (p / q).to_bits(),
                        4 => (p % q).to_bits(),
                        5 => (-p).to_bits(),
                        6 => (x.c as f64).to_bits(),
                        _ => (sx(x.c as u128, *w) as f64).to_bits(),
                    })
                } else {
                    self.havoc(st, if *k >= 6 { 64 } else { *w })?
                };
                Self::set(st, *dst, v);
                Self::adv(st);
            }
            I::Rmw { k, dst, ptr, val, w } => {
                let p = self.get(st, *ptr);
                let a = self.conc(st, p)?;
                let old = self.load(st, a, *w)?;
                let v = self.get(st, *val);
                let nv = match k {
                    0 => v,
                    1 => self.bin(st, Op::Add, *w, old, v),
                    2 => self.bin(st, Op::Sub, *w, old, v),
                    3 => self.bin(st, Op::And, *w, old, v),
                    4 => self.bin(st, Op::Or, *w, old, v),
                    _ => self.bin(st, Op::Xor, *w, old, v),
                };
                self.store(st, a, nv, *w)?;
                Self::set(st, *dst, old);
                Self::adv(st);
            }
            I::CmpXchg { dst, ptr, cmp, new, w } => {
                let p = self.get(st, *ptr);
                let a = self.conc(st, p)?;
                let old = self.load(st, a, *w)?;
                let c = self.get(st, *cmp);
                let old = kv(self.conc(st, old)?);
                let c = kv(self.conc(st, c)?);
                let n = self.get(st, *new);
                if old.c == c.c {
                    self.store(st, a, n, *w)?;
                }
                Self::set(st, *dst, old);
                Self::set(st, *dst + 1, kv((old.c == c.c) as u64));
                Self::adv(st);
            }
            I::Unreachable => return unsup("unreachable reached"),
            I::Unsup(s) => return unsup(s.to_string()),
        }
        Ok(())
    }

    /// domain-only decision (no solver call, no fork)
    fn decide_cheap(&mut self, st: &State, e: E) -> Option<bool> {
        let n = &self.p.n[e as usize];
        if n.var == 255 {
            return None;
        }
        let dom = st.doms[n.var as usize];
        let b = self.p.bits(e);
        let t = !set_empty(&set_and(&dom, &b));
        let f = !set_empty(&set_and(&dom, &set_not(&b)));
        match (t, f) {
            (true, false) => Some(true),
            (false, true) => Some(false),
            _ => None,
        }
    }

    fn switch(&mut self, st: &State, x: V, w: u32, cases: &[(u64, u32)], nedges: usize) -> X<usize> {
        if x.e == 0 {
            for (k, e) in cases {
                if *k == x.c {
                    return Ok(*e as usize);
                }
            }
            return Ok(0);
        }
        let n = self.p.n[x.e as usize].clone();
        if n.var != 255 && st.multi_mask & n.deps == 0 {
            let dom = st.doms[n.var as usize];
            let mut present = vec![false; nedges];
            for i in set_iter(&dom) {
                let v = self.p.tv(x.e, i) as u64;
                let e = cases.iter().find(|c| c.0 == v).map(|c| c.1).unwrap_or(0);
                present[e as usize] = true;
            }
            let feas: Vec<usize> = (0..nedges).filter(|k| present[*k]).collect();
            if feas.len() == 1 {
                return Ok(feas[0]);
            }
            let mut alts = vec![];
            let mut any = self.p.konst(0, 1);
            let mut per: Vec<E> = vec![any; nedges];
            for (k, e) in cases {
                let kk = self.p.konst(*k as u128, w);
                let q = self.p.mk(Op::Eq, 1, x.e, kk, 0);
                per[*e as usize] = self.p.mk(Op::Or, 1, per[*e as usize], q, 0);
                any = self.p.mk(Op::Or, 1, any, q, 0);
            }
            let nany = self.p.not(any);
            per[0] = self.p.mk(Op::Or, 1, per[0], nany, 0);
            for k in feas {
                // the solver confirms each edge is feasible
                let r = self.single(&dom, per[k]);
                debug_assert!(r & 1 == 1);
                if r & 1 == 1 {
                    alts.push((per[k], true));
                }
            }
            return Err(Stop::Fork(alts));
        }
        for (k, e) in cases {
            let kk = self.p.konst(*k as u128, w);
            let q = self.p.mk(Op::Eq, 1, x.e, kk, 0);
            let v = self.ev(q);
            if self.cond(st, v)? {
                return Ok(*e as usize);
            }
        }
        Ok(0)
    }

    fn ovf(&mut self, st: &State, op: Op, signed: bool, w: u32, x: V, y: V) -> (V, V) {
        if x.e | y.e == 0 && w <= 64 {
            let (a, b) = (x.c as u128, y.c as u128);
            let m = mask(w);
            if signed {
                let (a, b) = (sx(a, w), sx(b, w));
                let r = match op {
                    Op::Add => a + b,
                    Op::Sub => a - b,
                    _ => a * b,
                };
                let t = (r as u128) & m;
                return (kv(t as u64), kv((sx(t, w) != r) as u64));
            }
            let (r, o) = match op {
                Op::Add => (a + b, a + b > m),
                Op::Sub => (a.wrapping_sub(b), b > a),
                _ => (a * b, a * b > m),
            };
            return (kv((r & m) as u64), kv(o as u64));
        }
        let r = self.bin(st, op, w, x, y);
        let o = match (op, signed) {
            (Op::Add, false) => self.cmp(st, Op::Ult, w, r, x),
            (Op::Sub, false) => self.cmp(st, Op::Ult, w, x, y),
            _ => {
                let dw = w * 2;
                let k = if signed { Op::SExt } else { Op::ZExt };
                let xx = self.te(x, w);
                let yy = self.te(y, w);
                let xx = self.p.mk(k, dw, xx, 0, 0);
                let yy = self.p.mk(k, dw, yy, 0, 0);
                let rr = self.p.mk(op, dw, xx, yy, 0);
                let low = self.te(r, w);
                let low = self.p.mk(k, dw, low, 0, 0);
                let q = self.p.mk(Op::Eq, 1, rr, low, 0);
                let nq = self.p.not(q);
                self.ev(nq)
            }
        };
        (r, o)
    }

    fn havoc(&mut self, st: &mut State, w: u32) -> X<V> {
        let idx = 127 - st.nhavoc;
        if idx < 100 {
            return unsup("too many havoc values");
        }
        st.nhavoc += 1;
        let e = self.p.var(idx as usize, 64);
        let e = if w < 64 { self.p.mk(Op::Extract, w, e, 0, 0) } else { e };
        Ok(V { c: 0, e })
    }

    fn intr(&mut self, st: &mut State, k: Intr, w: u32, a: &[V]) -> X<Option<V>> {
        use Intr::*;
        Ok(Some(match k {
            UMax | UMin | SMax | SMin => {
                let op = if matches!(k, UMax | UMin) { Op::Ult } else { Op::Slt };
                let c = self.cmp(st, op, w, a[0], a[1]);
                let c = if c.e != 0 {
                    match self.decide_cheap(st, c.e) {
                        Some(t) => kv(t as u64),
                        None => c,
                    }
                } else {
                    c
                };
                if matches!(k, UMax | SMax) {
                    self.ite(st, c, w, a[1], a[0])
                } else {
                    self.ite(st, c, w, a[0], a[1])
                }
            }
            USubSat => {
                let c = self.cmp(st, Op::Ult, w, a[0], a[1]);
                let d = self.bin(st, Op::Sub, w, a[0], a[1]);
                self.ite(st, c, w, kv(0), d)
            }
            UAddSat => {
                let s = self.bin(st, Op::Add, w, a[0], a[1]);
                let c = self.cmp(st, Op::Ult, w, s, a[0]);
                self.ite(st, c, w, kv(mask(w) as u64), s)
            }
            SSubSat | SAddSat => {
                if a[0].e | a[1].e != 0 {
                    return unsup("signed saturating");
                }
                let (x, y) = (sx(a[0].c as u128, w), sx(a[1].c as u128, w));
                let r = if k == SSubSat { x - y } else { x + y };
                let hi = (1i128 << (w - 1)) - 1;
                kv((r.clamp(-hi - 1, hi) as u128 & mask(w)) as u64)
            }
            FShl | FShr => {
                let s = self.conc(st, a[2])? as u32 % w;
                let s = if k == FShl { s } else { (w - s) % w };
                if k == FShr && s == 0 {
                    return Ok(Some(a[1]));
                }
                if s == 0 {
                    return Ok(Some(a[0]));
                }
                let h = self.bin(st, Op::Shl, w, a[0], kv(s as u64));
                let l = self.bin(st, Op::LShr, w, a[1], kv((w - s) as u64));
                self.bin(st, Op::Or, w, h, l)
            }
            Ctlz | Cttz => {
                if a[0].e == 0 {
                    let v = a[0].c;
                    let r = if v == 0 {
                        w
                    } else if k == Ctlz {
                        v.leading_zeros() - (64 - w)
                    } else {
                        v.trailing_zeros()
                    };
                    return Ok(Some(kv(r as u64)));
                }
                // ite chain
                let mut acc = kv(w as u64);
                let range: Vec<u32> = if k == Cttz { (0..w).rev().collect() } else { (0..w).collect() };
                for i in range {
                    let b = self.p.mk(Op::Extract, 1, a[0].e, i, 0);
                    let c = self.ev(b);
                    let v = if k == Cttz { i } else { w - 1 - i };
                    acc = self.ite(st, c, w, kv(v as u64), acc);
                }
                acc
            }
            Ctpop => {
                if a[0].e == 0 {
                    return Ok(Some(kv(a[0].c.count_ones() as u64)));
                }
                let mut acc = kv(0);
                for i in 0..w {
                    let b = self.p.mk(Op::Extract, 1, a[0].e, i, 0);
                    let c = self.ev(b);
                    let z = self.cast(st, Op::ZExt, 1, w, c);
                    acc = self.bin(st, Op::Add, w, acc, z);
                }
                acc
            }
            Bswap => {
                if a[0].e == 0 {
                    return Ok(Some(kv(a[0].c.swap_bytes() >> (64 - w))));
                }
                let mut acc: Option<E> = None;
                for i in 0..w / 8 {
                    let b = self.p.mk(Op::Extract, 8, a[0].e, i * 8, 0);
                    acc = Some(match acc {
                        None => b,
                        Some(x) => self.p.mk(Op::Concat, (i + 1) * 8, x, b, 0),
                    });
                }
                self.ev(acc.unwrap())
            }
            BitRev => {
                let x = self.conc(st, a[0])?;
                kv(x.reverse_bits() >> (64 - w))
            }
            UCmp | SCmp => {
                let op = if k == UCmp { Op::Ult } else { Op::Slt };
                let lt = self.cmp(st, op, w, a[0], a[1]);
                let eq = self.cmp(st, Op::Eq, w, a[0], a[1]);
                let g = self.ite(st, eq, 8, kv(0), kv(1));
                self.ite(st, lt, 8, kv(0xff), g)
            }
            Abs => {
                let n = self.cmp(st, Op::Slt, w, a[0], kv(0));
                let m = self.bin(st, Op::Sub, w, kv(0), a[0]);
                self.ite(st, n, w, m, a[0])
            }
            MemCpy | MemMove => {
                let n = self.conc(st, a[2])?;
                if n > 0 {
                    let d = self.conc(st, a[0])?;
                    let s = self.conc(st, a[1])?;
                    self.copy(st, d, s, n)?;
                }
                return Ok(None);
            }
            MemSet => {
                let n = self.conc(st, a[2])?;
                if n > 0 {
                    let d = self.conc(st, a[0])?;
                    for i in 0..n {
                        self.store(st, d + i, a[1], 8)?;
                    }
                }
                return Ok(None);
            }
            LoadRel => {
                let b = self.conc(st, a[0])?;
                let o = self.conc(st, a[1])?;
                let g = (b >> 32) as usize;
                match self.sh.m.globals.get(g).and_then(|g| g.rel.get(&((b as u32).wrapping_add(o as u32)))) {
                    Some(t) => kv(*t),
                    None => return unsup("load.relative"),
                }
            }
            Trap => return Err(Stop::End(End::Panic("trap".into()))),
        }))
    }

    fn byte_at(&mut self, st: &State, addr: u64) -> X<V> {
        self.load(st, addr, 8)
    }

    /// Summary of a pure `fn(char) -> bool`: membership in `ranges`.  The summary is checked
    /// against the function's own IR at every range boundary before it is used.
    fn range_summary(&mut self, fi: u32, e: E, ranges: &'static [(u32, u32)]) -> X<V> {
        static OK: std::sync::OnceLock<Result<(), String>> = std::sync::OnceLock::new();
        if OK.get().is_none() {
            let mut r = Ok(());
            'o: for (lo, hi) in ranges {
                for (c, want) in [(lo.wrapping_sub(1), 0), (*lo, 1), (*hi, 1), (*hi + 1, 0)] {
                    if c < 170 || char::from_u32(c).is_none() {
                        continue;
                    }
                    let got = self.concrete_call(fi, c as u64)?;
                    if got & 1 != want {
                        r = Err(format!("summary of {} wrong at {c:x}", self.sh.m.funcs[fi as usize].name));
                        break 'o;
                    }
                }
            }
            let _ = OK.set(r);
        }
        if let Err(e) = OK.get().unwrap() {
            return unsup(e.clone());
        }
        let top = self.p.n[e as usize].ones as u64;
        let mut cuts: Vec<(u32, bool)> = vec![(0, false)];
        for (lo, hi) in ranges {
            if *lo as u64 > top {
                break;
            }
            cuts.push((*lo, true));
            cuts.push((*hi + 1, false));
        }
        let r = self.cut_tree(e, &cuts);
        Ok(self.ev(r))
    }
    fn cut_tree(&mut self, e: E, cuts: &[(u32, bool)]) -> E {
        if cuts.len() == 1 {
            return self.p.konst(cuts[0].1 as u128, 1);
        }
        let h = cuts.len() / 2;
        let a = self.cut_tree(e, &cuts[..h]);
        let b = self.cut_tree(e, &cuts[h..]);
        let w = self.p.w(e);
        let k = self.p.konst(cuts[h].0 as u128, w);
        let c = self.p.mk(Op::Ult, 1, e, k, 0);
        self.p.mk(Op::Ite, 1, c, a, b)
    }
    fn concrete_call(&mut self, fi: u32, arg: u64) -> X<u64> {
        let mut st = self.new_state(0)?;
        self.push_call(&mut st, fi, &[kv(arg)], 0)?;
        while st.frames.len() > 1 {
            self.step(&mut st)?;
        }
        Ok(st.frames[0].regs[0].c)
    }

    fn call(&mut self, st: &mut State, ci: &CallI) -> X<()> {
        let mut callee = ci.callee.clone();
        if let Callee::Ind(o) = callee {
            let v = self.get(st, o);
            let a = self.conc(st, v)?;
            let id = a >> 32;
            callee = if id >= EXT_BASE {
                Callee::Ext((id - EXT_BASE) as u32)
            } else if id >= FN_BASE {
                Callee::Func((id - FN_BASE) as u32)
            } else {
                return unsup(format!("indirect call to {a:x}"));
            };
        }
        let mut args: Vec<V> = Vec::with_capacity(ci.args.len());
        for o in ci.args.iter() {
            args.push(self.get(st, *o));
        }
        match callee {
            Callee::Func(fi) => match self.sh.m.funcs[fi as usize].hook {
                0 => self.push_call(st, fi, &args, ci.dst),
                HK_PANIC => Err(Stop::End(End::Panic(self.sh.m.funcs[fi as usize].name.clone()))),
                HK_HASH => {
                    // the same for all keys: they stay in order of insertion, from a place the harness
                    // can choose (__sx_order)
                    Self::set(st, ci.dst, kv(0x0123_4567_0000_0000 | st.hash as u64));
                    Self::adv(st);
                    Ok(())
                }
                HK_KEYS => {
                    if ci.nret == 2 {
                        Self::set(st, ci.dst, kv(1));
                        Self::set(st, ci.dst + 1, kv(2));
                    }
                    Self::adv(st);
                    Ok(())
                }
                HK_CFLOAT => {
                    // lemire::compute_float: the parsed value is never observed, only success
                    if ci.nret != 2 {
                        return unsup("compute_float shape");
                    }
                    let h = self.havoc(st, 64)?;
                    Self::set(st, ci.dst, h);
                    Self::set(st, ci.dst + 1, kv(1));
                    Self::adv(st);
                    Ok(())
                }
                HK_ALPHA => {
                    let a = self.norm(st, args[0]);
                    if a.e == 0 {
                        return self.push_call(st, fi, &args, ci.dst);
                    }
                    let r = self.range_summary(fi, a.e, alpha_ranges())?;
                    Self::set(st, ci.dst, r);
                    Self::adv(st);
                    Ok(())
                }
                _ => unreachable!(),
            },
            Callee::Ext(x) => {
                let k = self.sh.ext[x as usize];
                let r = self.ext(st, k, &args, x)?;
                if ci.nret > 0 {
                    Self::set(st, ci.dst, r);
                }
                Self::adv(st);
                Ok(())
            }
            Callee::Ind(_) => unreachable!(),
        }
    }

    fn new_var(&mut self, st: &mut State, card: u16) -> X<E> {
        let i = st.nvars as usize;
        if i >= 100 {
            return unsup("too many symbolic bytes");
        }
        st.nvars += 1;
        let e = self.p.var(i, 8);
        st.doms.push(FULL);
        st.dom0.push(card);
        st.vals.push(0);
        Ok(e)
    }

    fn ext(&mut self, st: &mut State, k: Ext, a: &[V], xi: u32) -> X<V> {
        match k {
            Ext::SxByte => {
                let e = self.new_var(st, 256)?;
                Ok(V { c: 0, e })
            }
            Ext::SxPick => {
                let n = self.conc(st, a[0])?;
                if n == 0 || n > 256 {
                    return unsup("pick");
                }
                let e = match st.pending {
                    Some(e) => e,
                    None => {
                        let e = self.new_var(st, n as u16)?;
                        if n < 256 {
                            let kk = self.p.konst(n as u128, 8);
                            let c = self.p.mk(Op::Ult, 1, e, kk, 0);
                            self.add(st, c, true);
                        }
                        st.pending = Some(e);
                        e
                    }
                };
                let v = self.conc(st, V { c: 0, e })?;
                st.pending = None;
                Ok(kv(v))
            }
            Ext::SxAssume => {
                let v = self.norm(st, a[0]);
                let v = if v.e != 0 && self.p.w(v.e) != 1 { self.cast(st, Op::Extract, self.p.w(v.e), 1, v) } else { v };
                if v.e == 0 {
                    return if v.c & 1 != 0 { Ok(kv(0)) } else { Err(Stop::End(End::Assume)) };
                }
                match self.decide(st, v.e)? {
                    D::T => Ok(kv(0)),
                    D::F => Err(Stop::End(End::Assume)),
                    D::U(x) if x == v.e && self.p.n[x as usize].var != 255 => {
                        // count the assumed-away part, then continue in the rest
                        let b = self.p.bits(x);
                        let i = self.p.n[x as usize].var as usize;
                        let d = st.doms[i];
                        if st.multi.is_empty() {
                            let mut f = 1.0f64;
                            for (k, (dd, n0)) in st.doms.iter().zip(&st.dom0).enumerate() {
                                let c = if k == i { set_count(&set_and(&d, &set_not(&b))) } else { set_count(dd) };
                                f *= c as f64 / *n0 as f64;
                            }
                            self.js[st.job].covered += f;
                        }
                        self.add(st, x, true);
                        Ok(kv(0))
                    }
                    D::U(_) => {
                        self.js[st.job].inexact += 1;
                        self.add(st, v.e, true);
                        // the assumption may be multi-variable: it must stay satisfiable (decide said so)
                        Ok(kv(0))
                    }
                }
            }
            Ext::SxAssert => {
                let id = self.conc(st, a[1])? as u32;
                let v = self.norm(st, a[0]);
                let v = if v.e != 0 && self.p.w(v.e) != 1 { self.cast(st, Op::Extract, self.p.w(v.e), 1, v) } else { v };
                if v.e == 0 {
                    st.asserts += 1;
                    return if v.c & 1 != 0 { Ok(kv(0)) } else { Err(Stop::End(End::Assert(id))) };
                }
                self.js[st.job].asserts_solver += 1;
                // path condition ∧ ¬assertion
                let mut preds = self.pc_preds(st);
                let t = self.p.z3(&self.z, v.e);
                let b = self.z.bv2b(t);
                preds.push(self.z.pnot(b));
                match self.solve(&preds) {
                    Sat::Unsat => {
                        return Ok(kv(0));
                    }
                    Sat::Unknown => return unsup("solver timeout on assertion"),
                    Sat::Sat => {
                        self.finding(st, "assert", id, Some((v.e, false)));
                        Err(Stop::End(End::Assume))
                    }
                }
            }
            Ext::SxOrder => {
                st.hash = self.conc(st, a[0])? as u32;
                Ok(kv(0))
            }
            Ext::SxReach => {
                let id = self.conc(st, a[0])? as u32;
                *self.js[st.job].reach.entry(id).or_default() += 1;
                Ok(kv(0))
            }
            Ext::SxLog => {
                let p = self.conc(st, a[0])?;
                let n = self.conc(st, a[1])?;
                for i in 0..n {
                    let v = self.byte_at(st, p + i)?;
                    st.log.push(v);
                }
                st.log.push(kv(0xff));
                Ok(kv(0))
            }
            Ext::Malloc => {
                let n = self.conc(st, a[0])?;
                if n > 1 << 30 {
                    return unsup("huge allocation");
                }
                Ok(kv(self.alloc(st, n)))
            }
            Ext::Calloc => {
                let n = self.conc(st, a[0])?;
                let m = self.conc(st, a[1])?;
                Ok(kv(self.alloc(st, n * m)))
            }
            Ext::Memalign => {
                let n = self.conc(st, a[2])?;
                let d = self.conc(st, a[0])?;
                let p = self.alloc(st, n);
                self.store(st, d, kv(p), 64)?;
                Ok(kv(0))
            }
            Ext::Realloc => {
                let p = self.conc(st, a[0])?;
                let n = self.conc(st, a[1])?;
                if n > 1 << 30 {
                    return unsup("huge allocation");
                }
                if p == 0 {
                    return Ok(kv(self.alloc(st, n)));
                }
                let q = self.alloc(st, n);
                let old = match self.slot(p >> 32)? {
                    Ok(s) => st.mem[s].as_ref().map(|o| o.size).unwrap_or(0),
                    Err(_) => return unsup("realloc const"),
                };
                self.copy(st, q, p, old.min(n))?;
                self.free_id(st, p >> 32);
                Ok(kv(q))
            }
            Ext::Free => {
                let p = self.conc(st, a[0])?;
                if p != 0 {
                    self.free_id(st, p >> 32);
                }
                Ok(kv(0))
            }
            Ext::Bcmp | Ext::Memcmp => {
                let n = self.conc(st, a[2])?;
                if n == 0 {
                    return Ok(kv(0));
                }
                let x = self.conc(st, a[0])?;
                let y = self.conc(st, a[1])?;
                let mut pairs = vec![];
                for i in 0..n {
                    let p = self.byte_at(st, x + i)?;
                    let q = self.byte_at(st, y + i)?;
                    if p.e == 0 && q.e == 0 {
                        if p.c != q.c {
                            pairs.push((p, q));
                            break;
                        }
                    } else if p != q {
                        pairs.push((p, q));
                    }
                }
                if k == Ext::Bcmp {
                    let mut acc = kv(1);
                    for (p, q) in pairs.into_iter().rev() {
                        let c = self.cmp(st, Op::Eq, 8, p, q);
                        acc = self.bin(st, Op::And, 1, c, acc);
                        if acc == kv(0) {
                            return Ok(kv(1));
                        }
                    }
                    let nacc = self.notv(acc);
                    return Ok(self.cast(st, Op::ZExt, 1, 32, nacc));
                }
                let mut acc = kv(0);
                for (p, q) in pairs.into_iter().rev() {
                    let lt = self.cmp(st, Op::Ult, 8, p, q);
                    let eq = self.cmp(st, Op::Eq, 8, p, q);
                    let g = self.ite(st, lt, 32, kv(0xffff_ffff), kv(1));
                    acc = self.ite(st, eq, 32, acc, g);
                }
                Ok(acc)
            }
            Ext::Memchr => {
                let p = self.conc(st, a[0])?;
                let c = self.cast(st, Op::Extract, 32, 8, a[1]);
                let n = self.conc(st, a[2])?;
                for i in 0..n {
                    let b = self.byte_at(st, p + i)?;
                    let q = self.cmp(st, Op::Eq, 8, b, c);
                    if self.cond(st, q)? {
                        return Ok(kv(p + i));
                    }
                }
                Ok(kv(0))
            }
            Ext::Strlen => {
                let p = self.conc(st, a[0])?;
                let mut i = 0;
                loop {
                    let v = self.byte_at(st, p + i)?;
                    if v.e != 0 {
                        return unsup("strlen symbolic");
                    }
                    if v.c == 0 {
                        return Ok(kv(i));
                    }
                    i += 1;
                }
            }
            Ext::Getenv => Ok(kv(0)),
            Ext::Syscall => {
                let n = self.conc(st, a[0])?;
                if n == 318 {
                    // getrandom: constant bytes
                    let p = self.conc(st, a[1])?;
                    let l = self.conc(st, a[2])?;
                    for i in 0..l {
                        self.store(st, p + i, kv(7), 8)?;
                    }
                    return Ok(kv(l));
                }
                unsup(format!("syscall {n}"))
            }
            Ext::Errno => {
                if st.tls_errno == 0 {
                    let p = self.alloc(st, 4);
                    st.tls_errno = (p >> 32) as u32;
                }
                Ok(kv((st.tls_errno as u64) << 32))
            }
            Ext::Write => unsup("write"),
            Ext::None => unsup(format!("external {}", self.sh.m.exts[xi as usize])),
        }
    }
}
