//! Hash-consed bit-vector expressions over symbolic bytes ("vars").
//!
//! An expression that depends on exactly one symbolic byte is canonicalised by its value
//! table over the 256 values of that byte; everything else is structural.  `Pool::z3`
//! translates any expression to an SMT bit-vector term.
use crate::fx::*;
use crate::z3::{Ast, B, Z3};

pub type E = u32;
pub type Set = [u64; 4];

pub const FULL: Set = [!0u64; 4];

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Var,   // a = var index
    Const, // a = index in consts
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    ZExt,
    SExt,
    Extract, // b = lo
    Concat,  // a = hi, b = lo
    Ite,
    Tab, // a = index expr, b = table id
}
use Op::*;

#[derive(Clone)]
pub struct Node {
    pub op: Op,
    pub w: u32,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub deps: u128,
    pub var: u8, // single byte variable, 255 otherwise
    pub tab: u32,
    pub ones: u128,
    pub cl: u16, // leaves, if an if-then-else tree with constant leaves
}

pub enum Tbl {
    Bits(Set),
    U8(Box<[u8; 256]>),
    U64(Box<[u64; 256]>),
    U128(Box<[u128; 256]>),
}

pub struct VarInfo {
    pub w: u32,
}

pub struct Pool {
    pub n: Vec<Node>,
    pub consts: Vec<u128>,
    cmap: FxMap<(u128, u32), E>,
    smap: FxMap<(Op, u32, u32, u32, u32), E>,
    tabs: Vec<Tbl>,
    canon: FxMap<(u8, u32, u64), Vec<E>>,
    pub vars: Vec<VarInfo>,
    var_ids: Vec<E>,
    z3c: FxMap<E, Ast>,
    sub: FxMap<(E, u64, u64), E>,
    dm: FxMap<(Op, u32, E, E), E>,
    vs: FxMap<E, Option<std::rc::Rc<Vec<u128>>>>,
    pub ctabs: Vec<Vec<u64>>, // constant lookup tables (Tab)
    ctab_map: FxMap<(u32, u64), Vec<u32>>,
}

#[inline]
pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

pub fn fold(op: Op, w: u32, aw: u32, a: u128, b: u128, c: u128) -> u128 {
    let m = mask(w);
    match op {
        Add => a.wrapping_add(b) & m,
        Sub => a.wrapping_sub(b) & m,
        Mul => a.wrapping_mul(b) & m,
        UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        SDiv => {
            if b == 0 {
                m
            } else {
                (sx(a, w).wrapping_div(sx(b, w)) as u128) & m
            }
        }
        SRem => {
            if b == 0 {
                a
            } else {
                (sx(a, w).wrapping_rem(sx(b, w)) as u128) & m
            }
        }
        And => a & b,
        Or => a | b,
        Xor => a ^ b,
        Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            ((sx(a, w) >> s) as u128) & m
        }
        Eq => (a == b) as u128,
        Ult => (a < b) as u128,
        Ule => (a <= b) as u128,
        Slt => (sx(a, aw) < sx(b, aw)) as u128,
        Sle => (sx(a, aw) <= sx(b, aw)) as u128,
        ZExt => a,
        SExt => (sx(a, aw) as u128) & m,
        Ite => {
            if a != 0 {
                b
            } else {
                c
            }
        }
        _ => unreachable!(),
    }
}

impl Pool {
    pub fn new() -> Pool {
        let mut p = Pool {
            n: vec![],
            consts: vec![],
            cmap: Default::default(),
            smap: Default::default(),
            tabs: vec![],
            canon: Default::default(),
            vars: vec![],
            var_ids: vec![],
            z3c: Default::default(),
            sub: Default::default(),
            vs: Default::default(),
            dm: Default::default(),
            ctabs: vec![],
            ctab_map: Default::default(),
        };
        // id 0 is reserved ("concrete")
        p.n.push(Node { op: Const, w: 0, a: 0, b: 0, c: 0, deps: 0, var: 255, tab: 0, ones: 0, cl: 0 });
        p.consts.push(0);
        p.tabs.push(Tbl::Bits([0; 4]));
        p
    }
    pub fn size(&self) -> usize {
        self.n.len()
    }
    pub fn var(&mut self, i: usize, w: u32) -> E {
        while self.vars.len() <= i {
            self.vars.push(VarInfo { w: 0 });
            self.var_ids.push(0);
        }
        if self.vars[i].w != 0 {
            if self.vars[i].w == w {
                return self.var_ids[i];
            }
            panic!("var {i} width {} vs {w}", self.vars[i].w);
        }
        assert!(i < 128, "too many symbolic variables");
        self.vars[i].w = w;
        let id = self.n.len() as E;
        let mut tab = 0;
        let mut var = 255;
        if w == 8 {
            let mut t = [0u8; 256];
            for (i, x) in t.iter_mut().enumerate() {
                *x = i as u8
            }
            tab = self.tabs.len() as u32;
            let tb = Tbl::U8(Box::new(t));
            let h = Self::hash_tab(&tb);
            self.tabs.push(tb);
            var = i as u8;
            self.canon.entry((var, 8, h)).or_default().push(id);
        }
        self.n.push(Node { op: Var, w, a: i as u32, b: 0, c: 0, deps: 1u128 << i, var, tab, ones: mask(w), cl: 0 });
        self.var_ids[i] = id;
        id
    }
    pub fn konst(&mut self, v: u128, w: u32) -> E {
        let v = v & mask(w);
        if let Some(e) = self.cmap.get(&(v, w)) {
            return *e;
        }
        let id = self.n.len() as E;
        let ci = self.consts.len() as u32;
        self.consts.push(v);
        self.n.push(Node { op: Const, w, a: ci, b: 0, c: 0, deps: 0, var: 255, tab: 0, ones: v, cl: 1 });
        self.cmap.insert((v, w), id);
        id
    }
    #[inline]
    pub fn as_const(&self, e: E) -> Option<u128> {
        let n = &self.n[e as usize];
        if n.op == Const {
            Some(self.consts[n.a as usize])
        } else {
            None
        }
    }
    #[inline]
    pub fn w(&self, e: E) -> u32 {
        self.n[e as usize].w
    }
    #[inline]
    pub fn tv(&self, e: E, i: usize) -> u128 {
        let n = &self.n[e as usize];
        if n.op == Const {
            return self.consts[n.a as usize];
        }
        match &self.tabs[n.tab as usize] {
            Tbl::Bits(s) => ((s[i >> 6] >> (i & 63)) & 1) as u128,
            Tbl::U8(t) => t[i] as u128,
            Tbl::U64(t) => t[i] as u128,
            Tbl::U128(t) => t[i],
        }
    }
    pub fn bits(&self, e: E) -> Set {
        let n = &self.n[e as usize];
        match &self.tabs[n.tab as usize] {
            Tbl::Bits(s) => *s,
            _ => panic!("bits of non-bool"),
        }
    }
    fn hash_tab(t: &Tbl) -> u64 {
        use std::hash::Hasher;
        let mut h = Fx::default();
        match t {
            Tbl::Bits(s) => {
                for x in s {
                    h.write_u64(*x)
                }
            }
            Tbl::U8(t) => h.write(&t[..]),
            Tbl::U64(t) => {
                for x in t.iter() {
                    h.write_u64(*x)
                }
            }
            Tbl::U128(t) => {
                for x in t.iter() {
                    h.write_u128(*x)
                }
            }
        }
        h.finish()
    }
    fn tab_eq(a: &Tbl, b: &Tbl) -> bool {
        match (a, b) {
            (Tbl::Bits(x), Tbl::Bits(y)) => x == y,
            (Tbl::U8(x), Tbl::U8(y)) => x == y,
            (Tbl::U64(x), Tbl::U64(y)) => x == y,
            (Tbl::U128(x), Tbl::U128(y)) => x == y,
            _ => false,
        }
    }
    /// Generic smart constructor.
    pub fn mk(&mut self, op: Op, w: u32, a: E, b: E, c: E) -> E {
        // operand usage
        let na = match op {
            ZExt | SExt | Extract | Tab => 1,
            Ite => 3,
            _ => 2,
        };
        let ka = self.as_const(a);
        let kb = if na >= 2 { self.as_const(b) } else { None };
        let kc = if na >= 3 { self.as_const(c) } else { None };
        let aw = self.w(a);
        // constant folding
        if let Some(x) = ka {
            match op {
                Extract => return self.konst(x >> b, w),
                Concat => {
                    if let Some(y) = kb {
                        let bw = self.w(b);
                        return self.konst((x << bw) | y, w);
                    }
                }
                Tab => {
                    let v = self.ctabs[b as usize].get(x as usize).copied().unwrap_or(0);
                    return self.konst(v as u128, w);
                }
                ZExt | SExt => return self.konst(fold(op, w, aw, x, 0, 0), w),
                Ite => return if x != 0 { b } else { c },
                _ => {
                    if let Some(y) = kb {
                        return self.konst(fold(op, w, aw, x, y, 0), w);
                    }
                }
            }
        }
        if let Some(e) = self.distribute(op, w, a, b, na, ka, kb) {
            return e;
        }
        if let Some(e) = self.simp(op, w, a, b, c, aw, ka, kb, kc) {
            return e;
        }
        // canonical order for commutative ops
        let (a, b) = match op {
            Add | Mul | And | Or | Xor | Eq if a > b || ka.is_some() => {
                if kb.is_some() {
                    (a, b)
                } else if ka.is_some() {
                    (b, a)
                } else {
                    (b, a)
                }
            }
            _ => (a, b),
        };
        let key = (op, w, a, b, c);
        if let Some(e) = self.smap.get(&key) {
            return *e;
        }
        let mut deps = self.n[a as usize].deps;
        if na >= 2 {
            deps |= self.n[b as usize].deps;
        }
        if na >= 3 {
            deps |= self.n[c as usize].deps;
        }
        let id;
        let single = deps.count_ones() == 1 && self.vars[deps.trailing_zeros() as usize].w == 8;
        if single {
            let var = deps.trailing_zeros() as u8;
            let bw = if op == Concat { self.w(b) } else { 0 };
            let ev = |p: &Pool, i: usize| -> u128 {
                match op {
                    Extract => (p.tv(a, i) >> b) & mask(w),
                    Concat => (p.tv(a, i) << bw) | p.tv(b, i),
                    Tab => p.ctabs[b as usize].get(p.tv(a, i) as usize).copied().unwrap_or(0) as u128,
                    ZExt | SExt => fold(op, w, aw, p.tv(a, i), 0, 0),
                    Ite => {
                        if p.tv(a, i) != 0 {
                            p.tv(b, i)
                        } else {
                            p.tv(c, i)
                        }
                    }
                    _ => fold(op, w, aw, p.tv(a, i), p.tv(b, i), 0),
                }
            };
            let first = ev(self, 0);
            let mut ones = 0u128;
            let mut constant = true;
            let t = if w == 1 {
                let mut s = [0u64; 4];
                for i in 0..256 {
                    if ev(self, i) != 0 {
                        s[i >> 6] |= 1 << (i & 63)
                    }
                }
                constant = s == [0; 4] || s == FULL;
                ones = 1;
                Tbl::Bits(s)
            } else if w <= 8 {
                let mut t = Box::new([0u8; 256]);
                for i in 0..256 {
                    let v = ev(self, i);
                    t[i] = v as u8;
                    ones |= v;
                    constant &= v == first;
                }
                Tbl::U8(t)
            } else if w <= 64 {
                let mut t = Box::new([0u64; 256]);
                for i in 0..256 {
                    let v = ev(self, i);
                    t[i] = v as u64;
                    ones |= v;
                    constant &= v == first;
                }
                Tbl::U64(t)
            } else {
                let mut t = Box::new([0u128; 256]);
                for i in 0..256 {
                    let v = ev(self, i);
                    t[i] = v;
                    ones |= v;
                    constant &= v == first;
                }
                Tbl::U128(t)
            };
            if constant {
                let e = self.konst(first, w);
                self.smap.insert(key, e);
                return e;
            }
            let h = Self::hash_tab(&t);
            if let Some(l) = self.canon.get(&(var, w, h)) {
                for &e in l {
                    if Self::tab_eq(&self.tabs[self.n[e as usize].tab as usize], &t) {
                        self.smap.insert(key, e);
                        return e;
                    }
                }
            }
            id = self.n.len() as E;
            let tab = self.tabs.len() as u32;
            self.tabs.push(t);
            self.canon.entry((var, w, h)).or_default().push(id);
            self.n.push(Node { op, w, a, b, c, deps, var, tab, ones, cl: 0 });
        } else {
            let m = mask(w);
            let oa = self.n[a as usize].ones;
            let ob = if na >= 2 { self.n[b as usize].ones } else { 0 };
            let ones = match op {
                ZExt => oa,
                And => oa & ob,
                Or | Xor => oa | ob,
                Shl => match kb {
                    Some(k) if k < w as u128 => (oa << k) & m,
                    _ => m,
                },
                LShr => match kb {
                    Some(k) if k < w as u128 => oa >> k,
                    _ => m,
                },
                Extract => (oa >> b) & m,
                Concat => (oa << self.w(b)) | ob,
                Ite => ob | self.n[c as usize].ones,
                Eq | Ult | Ule | Slt | Sle => 1,
                Tab => self.ctabs[b as usize].iter().fold(0, |x, y| x | *y as u128),
                _ => m,
            };
            if ones == 0 {
                let e = self.konst(0, w);
                self.smap.insert(key, e);
                return e;
            }
            id = self.n.len() as E;
            let cl = if op == Ite {
                let (x, y) = (self.n[b as usize].cl, self.n[c as usize].cl);
                if x > 0 && y > 0 && x + y <= 512 {
                    x + y
                } else {
                    0
                }
            } else {
                0
            };
            self.n.push(Node { op, w, a, b, c, deps, var: 255, tab: 0, ones, cl });
        }
        self.smap.insert(key, id);
        id
    }

    /// Push operations into if-then-else trees with constant leaves.
    #[allow(clippy::too_many_arguments)]
    fn distribute(&mut self, op: Op, w: u32, a: E, b: E, na: u32, ka: Option<u128>, kb: Option<u128>) -> Option<E> {
        if op == Ite {
            return None;
        }
        let ca = self.n[a as usize].cl;
        if na == 1 {
            if (op == ZExt || op == SExt) && self.n[a as usize].w == 1 && self.n[a as usize].var == 255 && w > 1 {
                let t = self.konst(if op == ZExt { 1 } else { mask(w) }, w);
                let f = self.konst(0, w);
                return Some(self.mk(Ite, w, a, t, f));
            }
            if ca < 2 {
                return None;
            }
            let n = self.n[a as usize].clone();
            let key = (op, w, a, b);
            if let Some(e) = self.dm.get(&key) {
                return Some(*e);
            }
            let x = self.mk(op, w, n.b, b, 0);
            let y = self.mk(op, w, n.c, b, 0);
            let r = self.mk(Ite, w, n.a, x, y);
            self.dm.insert(key, r);
            return Some(r);
        }
        let cb = self.n[b as usize].cl;
        if !(ca >= 2 && kb.is_some() || cb >= 2 && ka.is_some() || ca >= 2 && cb >= 2 && ca as u32 * cb as u32 <= 64) {
            return None;
        }
        let key = (op, w, a, b);
        if let Some(e) = self.dm.get(&key) {
            return Some(*e);
        }
        let r = if ca >= 2 {
            let n = self.n[a as usize].clone();
            let x = self.mk(op, w, n.b, b, 0);
            let y = self.mk(op, w, n.c, b, 0);
            self.mk(Ite, w, n.a, x, y)
        } else {
            let n = self.n[b as usize].clone();
            let x = self.mk(op, w, a, n.b, 0);
            let y = self.mk(op, w, a, n.c, 0);
            self.mk(Ite, w, n.a, x, y)
        };
        self.dm.insert(key, r);
        Some(r)
    }

    #[allow(clippy::too_many_arguments)]
    fn simp(
        &mut self,
        op: Op,
        w: u32,
        a: E,
        b: E,
        c: E,
        aw: u32,
        ka: Option<u128>,
        kb: Option<u128>,
        kc: Option<u128>,
    ) -> Option<E> {
        let m = mask(w);
        match op {
            And => {
                if ka.is_some() && kb.is_none() {
                    return Some(self.mk(And, w, b, a, 0));
                }
                if a == b {
                    return Some(a);
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return Some(b);
                    }
                    let oa = self.n[a as usize].ones;
                    if oa & k == oa {
                        return Some(a);
                    }
                    if oa & k == 0 {
                        return Some(self.konst(0, w));
                    }
                }
            }
            Or => {
                if ka.is_some() && kb.is_none() {
                    return Some(self.mk(Or, w, b, a, 0));
                }
                if a == b {
                    return Some(a);
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return Some(a);
                    }
                    if k == m {
                        return Some(b);
                    }
                }
            }
            Xor => {
                if ka.is_some() && kb.is_none() {
                    return Some(self.mk(Xor, w, b, a, 0));
                }
                if a == b {
                    return Some(self.konst(0, w));
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return Some(a);
                    }
                    let n = &self.n[a as usize];
                    let (nop, na, nb) = (n.op, n.a, n.b);
                    if nop == Xor && self.n[a as usize].var == 255 {
                        if let Some(k2) = self.as_const(nb) {
                            let kk = self.konst(k ^ k2, w);
                            return Some(self.mk(Xor, w, na, kk, 0));
                        }
                    }
                }
            }
            Add => {
                if ka.is_some() && kb.is_none() {
                    return Some(self.mk(Add, w, b, a, 0));
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return Some(a);
                    }
                    let n = self.n[a as usize].clone();
                    if n.op == Add && n.var == 255 {
                        if let Some(k2) = self.as_const(n.b) {
                            let kk = self.konst(k.wrapping_add(k2), w);
                            return Some(self.mk(Add, w, n.a, kk, 0));
                        }
                    }
                }
            }
            Sub => {
                if a == b {
                    return Some(self.konst(0, w));
                }
                if let Some(k) = kb {
                    let kk = self.konst(k.wrapping_neg(), w);
                    return Some(self.mk(Add, w, a, kk, 0));
                }
            }
            Mul => {
                if ka.is_some() && kb.is_none() {
                    return Some(self.mk(Mul, w, b, a, 0));
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return Some(b);
                    }
                    if k == 1 {
                        return Some(a);
                    }
                    if k.is_power_of_two() {
                        let s = self.konst(k.trailing_zeros() as u128, w);
                        return Some(self.mk(Shl, w, a, s, 0));
                    }
                }
            }
            UDiv => {
                if let Some(k) = kb {
                    if k == 1 {
                        return Some(a);
                    }
                    if k != 0 && k.is_power_of_two() {
                        let s = self.konst(k.trailing_zeros() as u128, w);
                        return Some(self.mk(LShr, w, a, s, 0));
                    }
                }
            }
            URem => {
                if let Some(k) = kb {
                    if k != 0 && k.is_power_of_two() {
                        let s = self.konst(k - 1, w);
                        return Some(self.mk(And, w, a, s, 0));
                    }
                }
            }
            Shl | LShr | AShr => {
                if kb == Some(0) {
                    return Some(a);
                }
                if ka == Some(0) {
                    return Some(a);
                }
                if let Some(k) = kb {
                    if k >= w as u128 && op != AShr {
                        return Some(self.konst(0, w));
                    }
                }
            }
            Eq => {
                if a == b {
                    return Some(self.konst(1, 1));
                }
                if ka.is_some() && kb.is_none() {
                    return Some(self.mk(Eq, 1, b, a, 0));
                }
                if let Some(k) = kb {
                    return self.eq_const(a, k);
                }
                // disjoint possible bits
                let (na, nb) = (self.n[a as usize].clone(), self.n[b as usize].clone());
                if na.op == Concat && nb.op == Concat && self.w(na.a) == self.w(nb.a) && na.var == 255 && nb.var == 255 {
                    let x = self.mk(Eq, 1, na.a, nb.a, 0);
                    if self.as_const(x) == Some(0) {
                        return Some(x);
                    }
                    let y = self.mk(Eq, 1, na.b, nb.b, 0);
                    return Some(self.mk(And, 1, x, y, 0));
                }
                if na.op == ZExt && nb.op == ZExt && self.w(na.a) == self.w(nb.a) {
                    return Some(self.mk(Eq, 1, na.a, nb.a, 0));
                }
            }
            Ult => {
                if a == b {
                    return Some(self.konst(0, 1));
                }
                if kb == Some(0) {
                    return Some(self.konst(0, 1));
                }
                if let Some(k) = kb {
                    if self.n[a as usize].ones < k {
                        return Some(self.konst(1, 1));
                    }
                    if k == 1 {
                        let z = self.konst(0, aw);
                        return Some(self.mk(Eq, 1, a, z, 0));
                    }
                    if k.is_power_of_two() {
                        // a < 2^j  <=>  high bits zero
                        let hm = self.konst(mask(aw) & !(k - 1), aw);
                        let x = self.mk(And, aw, a, hm, 0);
                        let z = self.konst(0, aw);
                        if self.n[x as usize].var == 255 {
                            return self.eq_const(x, 0);
                        }
                        return Some(self.mk(Eq, 1, x, z, 0));
                    }
                }
                if let Some(k) = ka {
                    if k >= self.n[b as usize].ones {
                        return Some(self.konst(0, 1));
                    }
                }
            }
            Ule => {
                if a == b {
                    return Some(self.konst(1, 1));
                }
                // a <= b  ==  !(b < a)
                let x = self.mk(Ult, 1, b, a, 0);
                let one = self.konst(1, 1);
                return Some(self.mk(Xor, 1, x, one, 0));
            }
            Slt | Sle => {
                if a == b {
                    return Some(self.konst((op == Sle) as u128, 1));
                }
                // both non-negative?
                let sb = 1u128 << (aw - 1);
                if self.n[a as usize].ones & sb == 0 && self.n[b as usize].ones & sb == 0 {
                    return Some(self.mk(if op == Slt { Ult } else { Ule }, 1, a, b, 0));
                }
                if op == Sle {
                    let x = self.mk(Slt, 1, b, a, 0);
                    let one = self.konst(1, 1);
                    return Some(self.mk(Xor, 1, x, one, 0));
                }
            }
            ZExt | SExt => {
                if w == aw {
                    return Some(a);
                }
                let n = self.n[a as usize].clone();
                if n.op == ZExt {
                    return Some(self.mk(ZExt, w, n.a, 0, 0));
                }
                if op == SExt && n.ones & (1u128 << (aw - 1)) == 0 {
                    return Some(self.mk(ZExt, w, a, 0, 0));
                }
            }
            Extract => {
                let lo = b;
                if lo == 0 && w == aw {
                    return Some(a);
                }
                let n = self.n[a as usize].clone();
                if (n.ones >> lo) & m == 0 {
                    return Some(self.konst(0, w));
                }
                match n.op {
                    Extract => return Some(self.mk(Extract, w, n.a, lo + n.b, 0)),
                    ZExt => {
                        let iw = self.w(n.a);
                        if lo + w <= iw {
                            return Some(self.mk(Extract, w, n.a, lo, 0));
                        }
                        if lo >= iw {
                            return Some(self.konst(0, w));
                        }
                        let x = self.mk(Extract, iw - lo, n.a, lo, 0);
                        return Some(self.mk(ZExt, w, x, 0, 0));
                    }
                    SExt => {
                        let iw = self.w(n.a);
                        if lo + w <= iw {
                            return Some(self.mk(Extract, w, n.a, lo, 0));
                        }
                    }
                    Concat => {
                        let lw = self.w(n.b);
                        if lo + w <= lw {
                            return Some(self.mk(Extract, w, n.b, lo, 0));
                        }
                        if lo >= lw {
                            return Some(self.mk(Extract, w, n.a, lo - lw, 0));
                        }
                        let l = self.mk(Extract, lw - lo, n.b, lo, 0);
                        let h = self.mk(Extract, w - (lw - lo), n.a, 0, 0);
                        return Some(self.mk(Concat, w, h, l, 0));
                    }
                    And | Or | Xor if n.var == 255 => {
                        let x = self.mk(Extract, w, n.a, lo, 0);
                        let y = self.mk(Extract, w, n.b, lo, 0);
                        return Some(self.mk(n.op, w, x, y, 0));
                    }
                    Add | Sub | Mul if lo == 0 && n.var == 255 => {
                        let x = self.mk(Extract, w, n.a, 0, 0);
                        let y = self.mk(Extract, w, n.b, 0, 0);
                        return Some(self.mk(n.op, w, x, y, 0));
                    }
                    Shl if n.var == 255 => {
                        if let Some(k) = self.as_const(n.b) {
                            let k = k as u32;
                            if lo >= k {
                                return Some(self.mk(Extract, w, n.a, lo - k, 0));
                            }
                            if lo + w > k {
                                let x = self.mk(Extract, w - (k - lo), n.a, 0, 0);
                                let z = self.konst(0, k - lo);
                                return Some(self.mk(Concat, w, x, z, 0));
                            }
                        }
                    }
                    LShr if n.var == 255 => {
                        if let Some(k) = self.as_const(n.b) {
                            let k = k as u32;
                            if lo + w + k <= aw {
                                return Some(self.mk(Extract, w, n.a, lo + k, 0));
                            }
                        }
                    }
                    Ite if n.var == 255 => {
                        let x = self.mk(Extract, w, n.b, lo, 0);
                        let y = self.mk(Extract, w, n.c, lo, 0);
                        return Some(self.mk(Ite, w, n.a, x, y));
                    }
                    _ => {}
                }
            }
            Concat => {
                if ka == Some(0) {
                    return Some(self.mk(ZExt, w, b, 0, 0));
                }
                let (na, nb) = (self.n[a as usize].clone(), self.n[b as usize].clone());
                if na.op == Extract && nb.op == Extract && na.a == nb.a && na.b == nb.b + nb.w {
                    return Some(self.mk(Extract, w, na.a, nb.b, 0));
                }
            }
            Ite => {
                if b == c {
                    return Some(b);
                }
                if self.n[a as usize].var == 255 {
                    let n = self.n[a as usize].clone();
                    if n.op == Xor && self.as_const(n.b) == Some(1) {
                        return Some(self.mk(Ite, w, n.a, c, b));
                    }
                }
                let nb = &self.n[b as usize];
                if nb.op == Ite && nb.var == 255 && nb.a == a {
                    let x = nb.b;
                    return Some(self.mk(Ite, w, a, x, c));
                }
                let nc = &self.n[c as usize];
                if nc.op == Ite && nc.var == 255 && nc.a == a {
                    let x = nc.c;
                    return Some(self.mk(Ite, w, a, b, x));
                }
                if w == 1 {
                    match (kb, kc) {
                        (Some(1), Some(0)) => return Some(a),
                        (Some(0), Some(1)) => {
                            let one = self.konst(1, 1);
                            return Some(self.mk(Xor, 1, a, one, 0));
                        }
                        (Some(0), None) => {
                            let one = self.konst(1, 1);
                            let x = self.mk(Xor, 1, a, one, 0);
                            return Some(self.mk(And, 1, x, c, 0));
                        }
                        (Some(1), None) => return Some(self.mk(Or, 1, a, c, 0)),
                        (None, Some(0)) => return Some(self.mk(And, 1, a, b, 0)),
                        (None, Some(1)) => {
                            let one = self.konst(1, 1);
                            let x = self.mk(Xor, 1, a, one, 0);
                            return Some(self.mk(Or, 1, x, b, 0));
                        }
                        _ => {}
                    }
                }
            }
            _ => {}
        }
        let _ = kc;
        None
    }

    /// a == k, decomposed structurally when possible.
    fn eq_const(&mut self, a: E, k: u128) -> Option<E> {
        let n = self.n[a as usize].clone();
        if n.w == 1 {
            if k == 1 {
                return Some(a);
            }
            let one = self.konst(1, 1);
            return Some(self.mk(Xor, 1, a, one, 0));
        }
        if k & !n.ones != 0 {
            return Some(self.konst(0, 1));
        }
        if n.var != 255 {
            return None;
        }
        let m = mask(n.w);
        match n.op {
            ZExt => {
                let kk = self.konst(k, self.w(n.a));
                Some(self.mk(Eq, 1, n.a, kk, 0))
            }
            Concat => {
                let lw = self.w(n.b);
                let kh = self.konst(k >> lw, self.w(n.a));
                let kl = self.konst(k, lw);
                let x = self.mk(Eq, 1, n.a, kh, 0);
                if self.as_const(x) == Some(0) {
                    return Some(x);
                }
                let y = self.mk(Eq, 1, n.b, kl, 0);
                Some(self.mk(And, 1, x, y, 0))
            }
            Or | Xor | Add => {
                if let Some(k2) = self.as_const(n.b) {
                    if n.op == Xor {
                        let kk = self.konst(k ^ k2, n.w);
                        return Some(self.mk(Eq, 1, n.a, kk, 0));
                    }
                    if n.op == Add {
                        let kk = self.konst(k.wrapping_sub(k2) & m, n.w);
                        return Some(self.mk(Eq, 1, n.a, kk, 0));
                    }
                }
                let (oa, ob) = (self.n[n.a as usize].ones, self.n[n.b as usize].ones);
                if oa & ob == 0 {
                    let ca = self.konst(k & oa, n.w);
                    let cb = self.konst(k & ob, n.w);
                    let x = self.mk(Eq, 1, n.a, ca, 0);
                    if self.as_const(x) == Some(0) {
                        return Some(x);
                    }
                    let y = self.mk(Eq, 1, n.b, cb, 0);
                    return Some(self.mk(And, 1, x, y, 0));
                }
                if n.op == Or && k == 0 {
                    let z = self.konst(0, n.w);
                    let x = self.mk(Eq, 1, n.a, z, 0);
                    let y = self.mk(Eq, 1, n.b, z, 0);
                    return Some(self.mk(And, 1, x, y, 0));
                }
                None
            }
            And => {
                // (x|y) & const with x,y disjoint: distribute
                if let Some(k2) = self.as_const(n.b) {
                    let i = self.n[n.a as usize].clone();
                    if matches!(i.op, Or | Xor) && i.var == 255 {
                        let (oa, ob) = (self.n[i.a as usize].ones, self.n[i.b as usize].ones);
                        if oa & ob == 0 {
                            let kk = self.konst(k2, n.w);
                            let x = self.mk(And, n.w, i.a, kk, 0);
                            let y = self.mk(And, n.w, i.b, kk, 0);
                            let (ox, oy) = (self.n[x as usize].ones, self.n[y as usize].ones);
                            let cx = self.konst(k & ox, n.w);
                            let cy = self.konst(k & oy, n.w);
                            let p = self.mk(Eq, 1, x, cx, 0);
                            if self.as_const(p) == Some(0) {
                                return Some(p);
                            }
                            let q = self.mk(Eq, 1, y, cy, 0);
                            return Some(self.mk(And, 1, p, q, 0));
                        }
                    }
                }
                None
            }
            Shl => {
                let s = self.as_const(n.b)? as u32;
                if k & mask(s) != 0 {
                    return Some(self.konst(0, 1));
                }
                let x = self.mk(Extract, n.w - s, n.a, 0, 0);
                let kk = self.konst(k >> s, n.w - s);
                Some(self.mk(Eq, 1, x, kk, 0))
            }
            Ite => {
                let (kb, kc) = (self.as_const(n.b), self.as_const(n.c));
                if kb.is_some() || kc.is_some() {
                    let kk = self.konst(k, n.w);
                    let x = self.mk(Eq, 1, n.b, kk, 0);
                    let y = self.mk(Eq, 1, n.c, kk, 0);
                    return Some(self.mk(Ite, 1, n.a, x, y));
                }
                None
            }
            _ => None,
        }
    }

    pub fn not(&mut self, a: E) -> E {
        let one = self.konst(1, 1);
        self.mk(Xor, 1, a, one, 0)
    }

    pub fn ctab(&mut self, t: Vec<u64>) -> u32 {
        let h = fx64(&t);
        let k = (t.len() as u32, h);
        if let Some(l) = self.ctab_map.get(&k) {
            for &i in l {
                if self.ctabs[i as usize] == t {
                    return i;
                }
            }
        }
        let i = self.ctabs.len() as u32;
        self.ctabs.push(t);
        self.ctab_map.entry(k).or_default().push(i);
        i
    }

    /// Substitute concrete values for the variables in `known`.
    pub fn subst(&mut self, e: E, known: u128, vals: &[u8]) -> E {
        let n = &self.n[e as usize];
        let rel = n.deps & known;
        if rel == 0 {
            return e;
        }
        if n.var != 255 {
            let v = self.tv(e, vals[n.var as usize] as usize);
            let w = n.w;
            return self.konst(v, w);
        }
        let mut h1 = 0xcbf29ce484222325u64;
        let mut r = rel;
        while r != 0 {
            let i = r.trailing_zeros();
            r &= r - 1;
            h1 = (h1 ^ ((i as u64) << 8 | vals[i as usize] as u64)).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(23);
        }
        let key = (e, h1, rel as u64 ^ (rel >> 64) as u64);
        if let Some(x) = self.sub.get(&key) {
            return *x;
        }
        let n = n.clone();
        let r = match n.op {
            Var | Const => unreachable!(),
            Extract | Tab => {
                let x = self.subst(n.a, known, vals);
                self.mk(n.op, n.w, x, n.b, 0)
            }
            ZExt | SExt => {
                let x = self.subst(n.a, known, vals);
                self.mk(n.op, n.w, x, 0, 0)
            }
            Ite => {
                let x = self.subst(n.a, known, vals);
                match self.as_const(x) {
                    Some(0) => self.subst(n.c, known, vals),
                    Some(_) => self.subst(n.b, known, vals),
                    None => {
                        let y = self.subst(n.b, known, vals);
                        let z = self.subst(n.c, known, vals);
                        self.mk(n.op, n.w, x, y, z)
                    }
                }
            }
            _ => {
                let x = self.subst(n.a, known, vals);
                let y = self.subst(n.b, known, vals);
                self.mk(n.op, n.w, x, y, 0)
            }
        };
        self.sub.insert(key, r);
        r
    }

    /// A superset of the values `e` can take, if small (value-set analysis over the DAG).
    pub fn vset(&mut self, e: E) -> Option<std::rc::Rc<Vec<u128>>> {
        const LIM: usize = 512;
        if let Some(r) = self.vs.get(&e) {
            return r.clone();
        }
        let n = self.n[e as usize].clone();
        let r: Option<Vec<u128>> = if n.op == Const {
            Some(vec![self.consts[n.a as usize]])
        } else if n.var != 255 {
            Some((0..256).map(|i| self.tv(e, i)).collect())
        } else if n.w == 1 {
            Some(vec![0, 1])
        } else {
            match n.op {
                Var | Eq | Ult | Ule | Slt | Sle => None,
                Extract => self.vset(n.a).map(|v| v.iter().map(|x| (x >> n.b) & mask(n.w)).collect()),
                ZExt => self.vset(n.a).map(|v| v.to_vec()),
                SExt => {
                    let aw = self.w(n.a);
                    self.vset(n.a).map(|v| v.iter().map(|x| fold(SExt, n.w, aw, *x, 0, 0)).collect())
                }
                Tab => {
                    let t = &self.ctabs[n.b as usize];
                    if t.len() <= LIM {
                        Some(t.iter().map(|x| *x as u128).chain([0]).collect())
                    } else {
                        None
                    }
                }
                Ite => match (self.vset(n.b), self.vset(n.c)) {
                    (Some(x), Some(y)) => Some(x.iter().chain(y.iter()).copied().collect()),
                    _ => None,
                },
                op => match (self.vset(n.a), self.vset(n.b)) {
                    (Some(x), Some(y)) if x.len() * y.len() <= 4096 => {
                        let (aw, bw) = (self.w(n.a), self.w(n.b));
                        let mut o = vec![];
                        for a in x.iter() {
                            for b in y.iter() {
                                o.push(if op == Concat { (a << bw) | b } else { fold(op, n.w, aw, *a, *b, 0) });
                            }
                        }
                        Some(o)
                    }
                    _ => None,
                },
            }
        };
        let r = r.and_then(|mut v| {
            v.sort_unstable();
            v.dedup();
            if v.len() <= LIM {
                Some(std::rc::Rc::new(v))
            } else {
                None
            }
        });
        self.vs.insert(e, r.clone());
        r
    }

    pub fn eval(&self, e: E, vals: &[u64], memo: &mut FxMap<E, u128>) -> u128 {
        let n = &self.n[e as usize];
        match n.op {
            Const => return self.consts[n.a as usize],
            Var => return vals[n.a as usize] as u128,
            _ => {}
        }
        if n.var != 255 {
            return self.tv(e, vals[n.var as usize] as usize);
        }
        if let Some(v) = memo.get(&e) {
            return *v;
        }
        let a = self.eval(n.a, vals, memo);
        let v = match n.op {
            Extract => (a >> n.b) & mask(n.w),
            Tab => self.ctabs[n.b as usize].get(a as usize).copied().unwrap_or(0) as u128,
            ZExt | SExt => fold(n.op, n.w, self.w(n.a), a, 0, 0),
            Concat => (a << self.w(n.b)) | self.eval(n.b, vals, memo),
            Ite => {
                if a != 0 {
                    self.eval(n.b, vals, memo)
                } else {
                    self.eval(n.c, vals, memo)
                }
            }
            _ => {
                let b = self.eval(n.b, vals, memo);
                fold(n.op, n.w, self.w(n.a), a, b, 0)
            }
        };
        memo.insert(e, v);
        v
    }

    pub fn z3(&mut self, z: &Z3, e: E) -> Ast {
        if let Some(a) = self.z3c.get(&e) {
            return *a;
        }
        let n = self.n[e as usize].clone();
        let r = match n.op {
            Var => z.var(n.a, n.w),
            Const => z.num(self.consts[n.a as usize], n.w),
            Tab => {
                let i = self.z3(z, n.a);
                let iw = self.w(n.a);
                let t = self.ctabs[n.b as usize].clone();
                // group equal runs: nested ite on thresholds, from the end
                let mut acc = z.num(0, n.w);
                let mut j = t.len();
                while j > 0 {
                    let v = t[j - 1];
                    let hi = j - 1;
                    while j > 0 && t[j - 1] == v {
                        j -= 1;
                    }
                    let p = z.range(i, j as u64, hi as u64, iw);
                    let num = z.num(v as u128, n.w);
                    acc = z.ite_p(p, num, acc);
                }
                acc
            }
            Ite => {
                let (x, y, w) = (self.z3(z, n.a), self.z3(z, n.b), self.z3(z, n.c));
                z.ite(x, y, w)
            }
            ZExt => {
                let x = self.z3(z, n.a);
                z.zext(n.w - self.w(n.a), x)
            }
            SExt => {
                let x = self.z3(z, n.a);
                z.sext(n.w - self.w(n.a), x)
            }
            Extract => {
                let x = self.z3(z, n.a);
                z.extract(n.b + n.w - 1, n.b, x)
            }
            _ => {
                let (x, y) = (self.z3(z, n.a), self.z3(z, n.b));
                match n.op {
                    Concat => z.concat(x, y),
                    Eq => z.eq(x, y),
                    Ult => z.ult(x, y),
                    Ule => z.ule(x, y),
                    Slt => z.slt(x, y),
                    Sle => z.sle(x, y),
                    Add => z.bin(B::Add, x, y),
                    Sub => z.bin(B::Sub, x, y),
                    Mul => z.bin(B::Mul, x, y),
                    UDiv => z.bin(B::UDiv, x, y),
                    SDiv => z.bin(B::SDiv, x, y),
                    URem => z.bin(B::URem, x, y),
                    SRem => z.bin(B::SRem, x, y),
                    And => z.bin(B::And, x, y),
                    Or => z.bin(B::Or, x, y),
                    Xor => z.bin(B::Xor, x, y),
                    Shl => z.bin(B::Shl, x, y),
                    LShr => z.bin(B::LShr, x, y),
                    AShr => z.bin(B::AShr, x, y),
                    _ => unreachable!(),
                }
            }
        };
        self.z3c.insert(e, r);
        r
    }
}
