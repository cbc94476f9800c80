//! Reader for textual LLVM IR (as printed by rustc 1.99 / LLVM 23) and lowering to a compact
//! register machine.  Anything not understood becomes `I::Unsup`, which ends the path that
//! reaches it and is reported.
use crate::expr::Op;
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::OnceLock;

#[derive(Debug, Clone, PartialEq)]
pub enum Ty {
    Int(u32),
    Ptr,
    F64,
    F32,
    Void,
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(std::vec::Vec<Rc<Ty>>, bool),
    Meta,
}
use Ty::*;

pub fn align_up(x: u64, a: u64) -> u64 {
    x.div_ceil(a) * a
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ptr | F64 => 8,
            F32 => 4,
            Void | Meta => 1,
            Arr(_, t) => t.align(),
            Vec(n, t) => (n * t.size()).next_power_of_two().clamp(1, 16),
            Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Int(w) => align_up((*w as u64).div_ceil(8), self.align()),
            Ptr | F64 => 8,
            F32 => 4,
            Void | Meta => 0,
            Arr(n, t) => n * t.size(),
            Vec(n, t) => (n * t.bits() as u64).div_ceil(8),
            Struct(f, packed) => {
                let mut o = 0;
                for t in f {
                    if !packed {
                        o = align_up(o, t.align());
                    }
                    o += t.size();
                }
                if *packed {
                    o
                } else {
                    align_up(o, self.align())
                }
            }
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Int(w) => (*w as u64).div_ceil(8),
            _ => self.size(),
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Int(w) => *w,
            Ptr | F64 => 64,
            F32 => 32,
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        o = align_up(o, t.align());
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field")
            }
            Arr(_, t) => t.size() * i as u64,
            Vec(_, t) => t.size() * i as u64,
            _ => panic!("field_off"),
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Arr(..) | Vec(..) | Struct(..))
    }
    /// flattened scalars: (offset, width)
    pub fn slots(&self) -> std::vec::Vec<(u64, u32)> {
        match self {
            Void | Meta => vec![],
            Int(_) | Ptr | F64 | F32 => vec![(0, self.bits())],
            Arr(n, t) | Vec(n, t) => {
                let mut v = vec![];
                let s = t.slots();
                for i in 0..*n {
                    for (o, w) in &s {
                        v.push((i * t.size() + o, *w));
                    }
                }
                v
            }
            Struct(f, _) => {
                let mut v = vec![];
                for (i, t) in f.iter().enumerate() {
                    let b = self.field_off(i);
                    for (o, w) in t.slots() {
                        v.push((b + o, w));
                    }
                }
                v
            }
        }
    }
    pub fn elem(&self, i: usize) -> Rc<Ty> {
        match self {
            Arr(_, t) | Vec(_, t) => t.clone(),
            Struct(f, _) => f[i].clone(),
            _ => panic!("elem"),
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Arr(n, _) | Vec(n, _) => *n as usize,
            Struct(f, _) => f.len(),
            _ => 0,
        }
    }
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Tok<'a> {
    W(&'a str),
    L(&'a str),
    G(&'a str),
    N(&'a str),
    S(&'a str),
    M(&'a str),
    P(char),
}
use Tok::*;

pub fn lex(s: &str) -> std::vec::Vec<Tok<'_>> {
    let b = s.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    let isw = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1
                }
            }
            b'%' | b'@' | b'!' | b'#' => {
                let st = i + 1;
                i += 1;
                let t;
                if i < b.len() && b[i] == b'"' {
                    let q = i + 1;
                    i += 1;
                    while b[i] != b'"' {
                        i += 1
                    }
                    t = &s[q..i];
                    i += 1;
                } else {
                    while i < b.len() && isw(b[i]) {
                        i += 1
                    }
                    t = &s[st..i];
                }
                v.push(match c {
                    b'%' => L(t),
                    b'@' => G(t),
                    b'!' => M(t),
                    _ => M(t),
                });
            }
            b'"' => {
                let q = i + 1;
                i += 1;
                while b[i] != b'"' {
                    i += 1
                }
                v.push(S(&s[q..i]));
                i += 1;
            }
            b'0'..=b'9' | b'-' => {
                let st = i;
                i += 1;
                while i < b.len() && (isw(b[i]) || b[i] == b'+') {
                    i += 1
                }
                v.push(N(&s[st..i]));
            }
            _ if isw(c) => {
                let st = i;
                while i < b.len() && isw(b[i]) {
                    i += 1
                }
                // c"..." string
                if &s[st..i] == "c" && i < b.len() && b[i] == b'"' {
                    let q = i + 1;
                    i += 1;
                    while b[i] != b'"' {
                        i += 1
                    }
                    v.push(S(&s[q..i]));
                    i += 1;
                } else {
                    v.push(W(&s[st..i]));
                }
            }
            _ => {
                v.push(P(c as char));
                i += 1;
            }
        }
    }
    v
}

pub fn unescape(s: &str) -> std::vec::Vec<u8> {
    let b = s.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 2 < b.len() + 0 && b[i + 1].is_ascii_hexdigit() && b[i + 2].is_ascii_hexdigit() {
            v.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
            i += 3;
        } else if b[i] == b'\\' && i + 1 < b.len() && b[i + 1] == b'\\' {
            v.push(b'\\');
            i += 2;
        } else {
            v.push(b[i]);
            i += 1;
        }
    }
    v
}

pub type Opd = i32; // >= 0 register, < 0 constant !x

#[derive(Debug, Clone)]
pub enum Callee {
    Func(u32),
    Ext(u32),
    Ind(Opd),
}

#[derive(Debug, Clone)]
pub struct Edge {
    pub to: u32, // code index
    pub moves: Box<[(u32, Opd)]>,
}

#[derive(Debug, Clone)]
pub struct CallI {
    pub callee: Callee,
    pub args: Box<[Opd]>,
    pub dst: u32,
    pub nret: u32,
    pub retw: u32,
}

#[derive(Debug, Clone)]
pub enum I {
    Bin { op: Op, w: u32, dst: u32, a: Opd, b: Opd },
    Cmp { op: Op, neg: bool, w: u32, dst: u32, a: Opd, b: Opd },
    Cast { op: Op, fw: u32, tw: u32, dst: u32, a: Opd },
    Sel { c: Opd, w: u32, dst: u32, a: Opd, b: Opd },
    Load { dst: u32, ptr: Opd, off: u32, w: u32 },
    Store { ptr: Opd, off: u32, val: Opd, w: u32 },
    Gep { dst: u32, base: Opd, off: i64, terms: Box<[(Opd, i64, u32)]> },
    Alloca { dst: u32, off: u64 },
    Call(Box<CallI>),
    /// with.overflow: kind op + signed
    Ovf { op: Op, signed: bool, w: u32, dst: u32, a: Opd, b: Opd },
    Intr { k: Intr, w: u32, dst: u32, args: Box<[Opd]> },
    Pack { dst: u32, ew: u32, srcs: Box<[Opd]> },
    Unpack { dst: u32, ew: u32, n: u32, src: Opd, w: u32 },
    ExtElt { dst: u32, w: u32, idx: Opd, srcs: Box<[Opd]> },
    FOp { k: u8, dst: u32, w: u32, a: Opd, b: Opd },
    Mov { dst: u32, a: Opd },
    Rmw { k: u8, dst: u32, ptr: Opd, val: Opd, w: u32 },
    CmpXchg { dst: u32, ptr: Opd, cmp: Opd, new: Opd, w: u32 },
    Br(Edge),
    CondBr { c: Opd, t: Edge, f: Edge },
    Switch { v: Opd, w: u32, cases: Box<[(u64, u32)]>, edges: Box<[Edge]> }, // edges[0] default
    Ret(Box<[Opd]>),
    Unreachable,
    Unsup(Box<str>),
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Intr {
    UMax,
    UMin,
    SMax,
    SMin,
    USubSat,
    UAddSat,
    SSubSat,
    SAddSat,
    FShl,
    FShr,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    BitRev,
    UCmp,
    SCmp,
    Abs,
    MemCpy,
    MemMove,
    MemSet,
    LoadRel,
    Trap,
}

pub struct Func {
    pub name: String,
    pub nparams: u32,
    pub nregs: u32,
    pub frame: u64,
    pub code: std::vec::Vec<I>,
    pub consts: std::vec::Vec<u128>,
    pub ninstr: usize,
}

pub struct Global {
    pub name: String,
    pub size: u64,
    pub data: std::vec::Vec<u8>,
    pub konst: bool,
    pub rel: HashMap<u32, u64>,
}

pub struct FuncSrc {
    pub name: String,
    pub text: (usize, usize), // header line start .. end of body
    pub cell: OnceLock<Func>,
    pub hook: u32, // 0 none; otherwise interception id
}

pub struct Module {
    pub src: String,
    pub globals: std::vec::Vec<Global>, // index 0 unused (null)
    pub gmap: HashMap<String, u32>,
    pub funcs: std::vec::Vec<FuncSrc>,
    pub fmap: HashMap<String, u32>,
    pub exts: std::vec::Vec<String>,
    pub emap: HashMap<String, u32>,
    pub types: HashMap<String, String>,
    pub aliases: HashMap<String, String>,
}
unsafe impl Sync for Module {}
unsafe impl Send for Module {}

pub const FN_BASE: u64 = 0xF000_0000;
pub const EXT_BASE: u64 = 0xF800_0000;

pub struct P<'a> {
    pub t: std::vec::Vec<Tok<'a>>,
    pub i: usize,
    pub m: &'a Module,
}

type R<T> = Result<T, String>;

impl<'a> P<'a> {
    pub fn new(m: &'a Module, s: &'a str) -> P<'a> {
        P { t: lex(s), i: 0, m }
    }
    fn peek(&self) -> Tok<'a> {
        self.t.get(self.i).copied().unwrap_or(P('\0'))
    }
    fn next(&mut self) -> Tok<'a> {
        let t = self.peek();
        self.i += 1;
        t
    }
    fn eat(&mut self, c: char) -> bool {
        if self.peek() == P(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: char) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected {c} got {:?} at {}", self.peek(), self.i))
        }
    }
    fn eatw(&mut self, w: &str) -> bool {
        if self.peek() == W(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn skip_group(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.next() {
                P('(') => d += 1,
                P(')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                P('\0') => return,
                _ => {}
            }
        }
    }
    fn is_type(&self) -> bool {
        match self.peek() {
            W(w) => {
                matches!(w, "ptr" | "void" | "double" | "float" | "metadata" | "label" | "token")
                    || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            P('[') | P('{') | P('<') => true,
            L(n) => self.m.types.contains_key(n),
            _ => false,
        }
    }
    /// skip attributes until a type (for return/param attributes that precede nothing or a value)
    fn skip_attrs_to_type(&mut self) {
        while !self.is_type() {
            match self.next() {
                W(_) | M(_) | N(_) => {}
                S(_) => {}
                P('(') => {
                    self.i -= 1;
                    self.skip_group();
                }
                P('=') => {}
                _ => return,
            }
        }
    }
    /// skip param attributes after a type, before the value
    fn skip_pattrs(&mut self) {
        loop {
            match self.peek() {
                W(w)
                    if matches!(
                        w,
                        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "ptrtoint"
                            | "inttoptr" | "trunc" | "sub" | "add" | "bitcast" | "splat" | "none" | "sext" | "zext" | "xor"
                            | "and" | "or" | "shl"
                    ) =>
                {
                    return
                }
                W("align") | W("memory") | W("dereferenceable") | W("range") | W(_) => {
                    let w = self.next();
                    if self.peek() == P('(') {
                        self.skip_group();
                    } else if w == W("align") {
                        self.next();
                    }
                }
                S(_) => {
                    self.next();
                    if self.eat('=') {
                        self.next();
                    }
                }
                _ => return,
            }
        }
    }
    pub fn ty(&mut self) -> R<Rc<Ty>> {
        let t = match self.next() {
            W("ptr") => {
                if self.peek() == W("addrspace") {
                    self.next();
                    self.skip_group();
                }
                Ptr
            }
            W("void") => Void,
            W("double") => F64,
            W("float") => F32,
            W("metadata") | W("label") | W("token") => Meta,
            W(w) if w.starts_with('i') => Int(w[1..].parse().map_err(|_| format!("type {w}"))?),
            L(n) => {
                let s = self.m.types.get(n).ok_or_else(|| format!("named type {n}"))?.clone();
                // types are tiny; leak to get a static lifetime
                let s: &'static str = Box::leak(s.into_boxed_str());
                let mut p = P { t: lex(s), i: 0, m: self.m };
                return p.ty();
            }
            P('[') => {
                let n = self.num()?;
                if !self.eatw("x") {
                    return Err("x".into());
                }
                let e = self.ty()?;
                self.expect(']')?;
                Arr(n, e)
            }
            P('<') => {
                if self.eat('{') {
                    let f = self.fields()?;
                    self.expect('>')?;
                    Struct(f, true)
                } else {
                    let n = self.num()?;
                    if !self.eatw("x") {
                        return Err("x".into());
                    }
                    let e = self.ty()?;
                    self.expect('>')?;
                    Vec(n, e)
                }
            }
            P('{') => Struct(self.fields()?, false),
            o => return Err(format!("type? {o:?}")),
        };
        Ok(Rc::new(t))
    }
    fn fields(&mut self) -> R<std::vec::Vec<Rc<Ty>>> {
        let mut f = vec![];
        if self.eat('}') {
            return Ok(f);
        }
        loop {
            f.push(self.ty()?);
            if self.eat('}') {
                return Ok(f);
            }
            self.expect(',')?;
        }
    }
    fn num(&mut self) -> R<u64> {
        match self.next() {
            N(n) => {
                // "4x"? lexer separates on blanks, so plain numbers only
                n.parse::<u64>().map_err(|e| format!("{n}: {e}"))
            }
            o => Err(format!("number? {o:?}")),
        }
    }
    fn fix_reserved_num(n: &str, ty: &Ty) -> R<u128> {
        match ty {
            Int(w) => {
                let v: i128 = if let Ok(v) = n.parse::<i128>() {
                    v
                } else {
                    n.parse::<u128>().map_err(|e| format!("{n} {e}"))? as i128
                };
                Ok((v as u128) & crate::expr::mask(*w))
            }
            F64 => {
                if let Some(h) = n.strip_prefix("0x") {
                    Ok(u64::from_str_radix(h, 16).map_err(|e| e.to_string())? as u128)
                } else {
                    Ok(n.parse::<f64>().map_err(|e| format!("{n} {e}"))?.to_bits() as u128)
                }
            }
            F32 => {
                if let Some(h) = n.strip_prefix("0x") {
                    let d = f64::from_bits(u64::from_str_radix(h, 16).map_err(|e| e.to_string())?);
                    Ok((d as f32).to_bits() as u128)
                } else {
                    Ok((n.parse::<f64>().map_err(|e| format!("{n} {e}"))? as f32).to_bits() as u128)
                }
            }
            _ => Err(format!("number {n} for {ty:?}")),
        }
    }
    pub fn sym_addr(&self, g: &str) -> R<u64> {
        if let Some(i) = self.m.gmap.get(g) {
            return Ok((*i as u64) << 32);
        }
        if let Some(i) = self.m.fmap.get(g) {
            return Ok((FN_BASE + *i as u64) << 32);
        }
        if let Some(i) = self.m.emap.get(g) {
            return Ok((EXT_BASE + *i as u64) << 32);
        }
        if let Some(a) = self.m.aliases.get(g) {
            return self.sym_addr(a);
        }
        Err(format!("symbol {g}"))
    }
    /// Scalars of a constant of type `ty` (flattened).  None if it is a local.
    fn const_val(&mut self, ty: &Ty) -> R<std::vec::Vec<u128>> {
        let n = ty.slots().len();
        let t = self.next();
        match t {
            N(s) => Ok(vec![Self::fix_reserved_num(s, ty)?]),
            W("true") => Ok(vec![1]),
            W("false") => Ok(vec![0]),
            W("null") => Ok(vec![0]),
            W("undef") | W("poison") | W("zeroinitializer") | W("none") => Ok(vec![0; n]),
            S(s) => Ok(unescape(s).into_iter().map(|b| b as u128).collect()),
            G(g) => Ok(vec![self.sym_addr(g)? as u128]),
            W("splat") => {
                self.expect('(')?;
                let et = self.ty()?;
                let v = self.const_val(&et)?;
                self.expect(')')?;
                Ok(vec![v[0]; n])
            }
            P('+') | W("-inf") | W("-qnan") => {
                let neg = t != P('+');
                let w = if neg { if t == W("-inf") { "inf" } else { "qnan" } } else { match self.next() { W(w) => w, o => return Err(format!("const +{o:?}")) } };
                let d = match w {
                    "inf" => f64::INFINITY,
                    "qnan" | "nan" => f64::NAN,
                    _ => return Err(format!("const +{w}")),
                };
                let d = if neg { -d } else { d };
                Ok(vec![if ty.bits() == 32 { (d as f32).to_bits() as u128 } else { d.to_bits() as u128 }])
            }
            P('{') | P('[') => {
                let close = if t == P('{') { '}' } else { ']' };
                let mut v = vec![];
                if self.eat(close) {
                    return Ok(v);
                }
                loop {
                    let et = self.ty()?;
                    v.extend(self.const_val(&et)?);
                    if self.eat(close) {
                        return Ok(v);
                    }
                    self.expect(',')?;
                }
            }
            P('<') => {
                let brace = self.eat('{');
                let mut v = vec![];
                loop {
                    let et = self.ty()?;
                    v.extend(self.const_val(&et)?);
                    if brace {
                        if self.eat('}') {
                            self.expect('>')?;
                            return Ok(v);
                        }
                    } else if self.eat('>') {
                        return Ok(v);
                    }
                    self.expect(',')?;
                }
            }
            W("getelementptr") => {
                while self.peek() != P('(') {
                    self.next();
                }
                self.expect('(')?;
                let st = self.ty()?;
                self.expect(',')?;
                let pt = self.ty()?;
                let mut a = self.const_val(&pt)?[0] as i64;
                let mut cur = st;
                let mut first = true;
                while self.eat(',') {
                    let it = self.ty()?;
                    let v = crate::expr::sx(self.const_val(&it)?[0], it.bits()) as i64;
                    if first {
                        a += v * cur.size() as i64;
                        first = false;
                    } else {
                        a += cur.field_off(v as usize) as i64;
                        cur = cur.elem(v as usize);
                    }
                }
                self.expect(')')?;
                Ok(vec![a as u64 as u128])
            }
            W(op @ ("ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext")) => {
                self.expect('(')?;
                let et = self.ty()?;
                let v = self.const_val(&et)?;
                if !self.eatw("to") {
                    return Err("to".into());
                }
                let tt = self.ty()?;
                self.expect(')')?;
                let _ = op;
                Ok(vec![v[0] & crate::expr::mask(tt.bits())])
            }
            W(op @ ("sub" | "add" | "xor" | "and")) => {
                while self.peek() != P('(') {
                    self.next();
                }
                self.expect('(')?;
                let et = self.ty()?;
                let a = self.const_val(&et)?[0];
                self.expect(',')?;
                let et2 = self.ty()?;
                let b = self.const_val(&et2)?[0];
                self.expect(')')?;
                let m = crate::expr::mask(et.bits());
                Ok(vec![
                    match op {
                        "sub" => a.wrapping_sub(b),
                        "add" => a.wrapping_add(b),
                        "and" => a & b,
                        _ => a ^ b,
                    } & m,
                ])
            }
            o => Err(format!("const? {o:?}")),
        }
    }
}

fn parse_global_init(p: &mut P, ty: &Ty, base: u64, data: &mut [u8], rel: &mut HashMap<u32, u64>, self_addr: u64) -> R<()> {
    // relative-table entry: i32 trunc (i64 sub (i64 ptrtoint (ptr @A to i64), i64 ptrtoint (ptr @T to i64)) to i32)
    match (p.peek(), ty) {
        (P('{') | P('<') | P('['), Struct(..) | Arr(..) | Vec(..)) => {
            let t0 = p.next();
            let mut brace = false;
            let close = match t0 {
                P('{') => '}',
                P('[') => ']',
                _ => {
                    brace = p.eat('{');
                    if brace {
                        '}'
                    } else {
                        '>'
                    }
                }
            };
            let mut k = 0;
            if p.eat(close) {
                return Ok(());
            }
            loop {
                let et = p.ty()?;
                parse_global_init(p, &et, base + ty.field_off(k), data, rel, self_addr)?;
                k += 1;
                if p.eat(close) {
                    if brace {
                        p.expect('>')?;
                    }
                    return Ok(());
                }
                p.expect(',')?;
            }
        }
        _ => {
            let start = p.i;
            if p.peek() == W("trunc") && *ty == Int(32) {
                let toks: std::vec::Vec<Tok> = p.t[start..(start + 24).min(p.t.len())].to_vec();
                let gs: std::vec::Vec<&str> = toks
                    .iter()
                    .take_while(|t| **t != P(']'))
                    .filter_map(|t| if let G(g) = t { Some(*g) } else { None })
                    .take(2)
                    .collect();
                if gs.len() == 2 {
                    rel.insert(base as u32, p.sym_addr(gs[0])?);
                }
            }
            let v = p.const_val(ty)?;
            for ((o, w), x) in ty.slots().iter().zip(v) {
                let n = (*w as usize).div_ceil(8);
                for i in 0..n {
                    data[(base + o) as usize + i] = (x >> (8 * i)) as u8;
                }
            }
            Ok(())
        }
    }
}

pub fn load(path: &str) -> R<Module> {
    let src = std::fs::read_to_string(path).map_err(|e| e.to_string())?;
    let mut m = Module {
        src,
        globals: vec![Global { name: String::new(), size: 0, data: vec![], konst: true, rel: HashMap::new() }],
        gmap: HashMap::new(),
        funcs: vec![],
        fmap: HashMap::new(),
        exts: vec![],
        emap: HashMap::new(),
        types: HashMap::new(),
        aliases: HashMap::new(),
    };
    let src: &'static str = unsafe { std::mem::transmute::<&str, &'static str>(m.src.as_str()) };
    // pass 1
    let mut pos = 0;
    let mut ginit: std::vec::Vec<(u32, &'static str)> = vec![];
    let mut in_func: Option<(String, usize)> = None;
    for line in src.split_inclusive('\n') {
        let start = pos;
        pos += line.len();
        if let Some((_, st)) = &in_func {
            if line.starts_with('}') {
                let (name, _) = in_func.as_ref().unwrap();
                let idx = m.funcs.len() as u32;
                m.fmap.insert(name.clone(), idx);
                m.funcs.push(FuncSrc { name: name.clone(), text: (*st, pos), cell: OnceLock::new(), hook: 0 });
                in_func = None;
            }
            continue;
        }
        let getname = |l: &str| -> String {
            let a = l.find('@').unwrap() + 1;
            if l.as_bytes()[a] == b'"' {
                let e = l[a + 1..].find('"').unwrap();
                l[a + 1..a + 1 + e].to_string()
            } else {
                let e = l[a..].find(|c: char| !(c.is_ascii_alphanumeric() || "_.$-".contains(c))).unwrap();
                l[a..a + e].to_string()
            }
        };
        if line.starts_with("define ") {
            in_func = Some((getname(line), start));
        } else if line.starts_with("declare ") {
            let n = getname(line);
            let i = m.exts.len() as u32;
            m.emap.insert(n.clone(), i);
            m.exts.push(n);
        } else if line.starts_with('@') {
            let n = getname(line);
            let rest = &line[line.find(" = ").unwrap() + 3..];
            if rest.contains(" alias ") && !rest.contains(" constant ") && !rest.contains(" global ") {
                let tgt = getname(&rest[rest.find('@').unwrap()..]);
                m.aliases.insert(n, tgt);
                continue;
            }
            let i = m.globals.len() as u32;
            m.gmap.insert(n.clone(), i);
            m.globals.push(Global { name: n, size: 0, data: vec![], konst: false, rel: HashMap::new() });
            ginit.push((i, rest));
        } else if line.starts_with('%') {
            if let Some(k) = line.find(" = type ") {
                let n = line[1..k].trim_matches('"').to_string();
                m.types.insert(n, line[k + 8..].trim().to_string());
            }
        }
    }
    // pass 2: initialisers
    for (i, rest) in ginit {
        let mref: &Module = unsafe { &*(&m as *const Module) };
        let mut p = P::new(mref, rest);
        let mut konst = false;
        let mut external = false;
        loop {
            match p.next() {
                W("constant") => {
                    konst = true;
                    break;
                }
                W("global") => break,
                W("external") | W("extern_weak") => external = true,
                P('(') => {
                    p.i -= 1;
                    p.skip_group();
                }
                P('\0') => return Err(format!("global {rest}")),
                _ => {}
            }
        }
        let ty = p.ty().map_err(|e| format!("global type {rest}: {e}"))?;
        let size = ty.size();
        let mut data = vec![0u8; size as usize];
        let mut rel = HashMap::new();
        if !external {
            parse_global_init(&mut p, &ty, 0, &mut data, &mut rel, (i as u64) << 32)
                .map_err(|e| format!("init of {}: {e}", mref.globals[i as usize].name))?;
        }
        let g = &mut m.globals[i as usize];
        g.size = size;
        g.data = data;
        g.konst = konst;
        g.rel = rel;
    }
    Ok(m)
}

// ---------------------------------------------------------------------------------------------

struct Low<'a> {
    m: &'a Module,
    names: HashMap<&'a str, std::vec::Vec<Opd>>,
    consts: std::vec::Vec<u128>,
    cidx: HashMap<u128, Opd>,
    nregs: u32,
    frame: u64,
    code: std::vec::Vec<I>,
    ninstr: usize,
}

struct PhiI<'a> {
    dst: std::vec::Vec<u32>,
    inc: std::vec::Vec<(std::vec::Vec<Tok<'a>>, &'a str)>,
    ty: Rc<Ty>,
}

impl<'a> Low<'a> {
    fn k(&mut self, v: u128) -> Opd {
        if let Some(o) = self.cidx.get(&v) {
            return *o;
        }
        let o = !(self.consts.len() as i32);
        self.consts.push(v);
        self.cidx.insert(v, o);
        o
    }
    fn reg(&mut self, n: usize) -> u32 {
        let r = self.nregs;
        self.nregs += n as u32;
        r
    }
    fn val(&mut self, p: &mut P<'a>, ty: &Ty) -> R<std::vec::Vec<Opd>> {
        if let L(n) = p.peek() {
            p.next();
            return self.names.get(n).cloned().ok_or_else(|| format!("undefined %{n}"));
        }
        // vector / struct constants may contain only constants
        let v = p.const_val(ty)?;
        Ok(v.into_iter().map(|x| self.k(x)).collect())
    }
    fn tval(&mut self, p: &mut P<'a>) -> R<(Rc<Ty>, std::vec::Vec<Opd>)> {
        let t = p.ty()?;
        p.skip_pattrs();
        let v = self.val(p, &t)?;
        Ok((t, v))
    }
}

fn bb_lines(body: &str) -> std::vec::Vec<(String, std::vec::Vec<&str>)> {
    // join multi-line instructions by slicing from first to last line
    let mut blocks: std::vec::Vec<(String, std::vec::Vec<&str>)> = vec![];
    let mut pos = 0;
    let mut cur: Option<(usize, usize)> = None; // multi-line switch
    let bytes_len = body.len();
    let mut anon = true;
    for line in body.split_inclusive('\n') {
        let st = pos;
        pos += line.len();
        let l = line.trim_end();
        if l.trim().is_empty() || l.trim_start().starts_with(';') {
            continue;
        }
        if let Some((a, _)) = cur {
            cur = Some((a, pos));
            if l.trim_start().starts_with(']') {
                let (_, v) = blocks.last_mut().unwrap();
                v.push(&body[a..pos]);
                cur = None;
            }
            continue;
        }
        if !l.starts_with(' ') {
            // label
            let name = l.split(':').next().unwrap().trim_matches('"').to_string();
            blocks.push((name, vec![]));
            anon = false;
            continue;
        }
        if blocks.is_empty() {
            let _ = anon;
            blocks.push((String::new(), vec![]));
        }
        let t = l.trim_start();
        if t.starts_with("switch ") && !l.contains(" ]") && l.ends_with('[') {
            cur = Some((st, pos));
            continue;
        }
        if l.starts_with("          ") {
            // continuation of invoke / landingpad: extend previous
            let (_, v) = blocks.last_mut().unwrap();
            let prev = v.pop().unwrap();
            let a = prev.as_ptr() as usize - body.as_ptr() as usize;
            v.push(&body[a..pos.min(bytes_len)]);
            continue;
        }
        let (_, v) = blocks.last_mut().unwrap();
        v.push(&body[st..pos]);
    }
    blocks
}

pub fn lower(m: &Module, fi: u32) -> Func {
    let fs = &m.funcs[fi as usize];
    let text: &str = &m.src[fs.text.0..fs.text.1];
    match lower_inner(m, text, &fs.name) {
        Ok(f) => f,
        Err(e) => Func {
            name: fs.name.clone(),
            nparams: 0,
            nregs: 64,
            frame: 0,
            code: vec![I::Unsup(format!("lowering {}: {e}", fs.name).into())],
            consts: vec![],
            ninstr: 0,
        },
    }
}

fn lower_inner(m: &Module, text: &str, fname: &str) -> R<Func> {
    let m: &'static Module = unsafe { &*(m as *const Module) };
    let text: &'static str = unsafe { std::mem::transmute::<&str, &'static str>(text) };
    let nl = text.find('\n').unwrap();
    let header = &text[..nl];
    let body = &text[nl + 1..text.rfind('}').unwrap()];
    let mut low = Low {
        m,
        names: HashMap::new(),
        consts: vec![],
        cidx: HashMap::new(),
        nregs: 0,
        frame: 0,
        code: vec![],
        ninstr: 0,
    };
    // header: params
    let mut p = P::new(m, header);
    p.next(); // define
    while !matches!(p.peek(), G(_)) {
        if p.peek() == P('(') {
            p.skip_group();
        } else {
            p.next();
        }
    }
    p.next();
    p.expect('(')?;
    let mut unnamed = 0usize;
    if !p.eat(')') {
        loop {
            if p.peek() == P('.') || p.peek() == W("...") {
                break;
            }
            let t = p.ty()?;
            p.skip_pattrs();
            let n = t.slots().len();
            let r = low.reg(n);
            let opds: std::vec::Vec<Opd> = (r..r + n as u32).map(|x| x as Opd).collect();
            match p.peek() {
                L(name) => {
                    p.next();
                    if name.bytes().all(|c| c.is_ascii_digit()) {
                        unnamed += 1;
                    }
                    low.names.insert(name, opds);
                }
                _ => {
                    let s: &'static str = Box::leak(unnamed.to_string().into_boxed_str());
                    low.names.insert(s, opds);
                    unnamed += 1;
                }
            }
            if p.eat(')') {
                break;
            }
            p.expect(',')?;
        }
    }
    let nparams = low.nregs;
    let mut blocks = bb_lines(body);
    if blocks.is_empty() {
        return Err("empty".into());
    }
    if blocks[0].0.is_empty() {
        blocks[0].0 = unnamed.to_string();
    }
    let bidx: HashMap<&str, usize> = blocks.iter().enumerate().map(|(i, b)| (b.0.as_str(), i)).collect();
    // successors
    let mut succ: std::vec::Vec<std::vec::Vec<usize>> = vec![];
    for (_, ins) in &blocks {
        let mut s = vec![];
        if let Some(last) = ins.last() {
            let toks = lex(last);
            let is_invoke = toks.iter().any(|t| *t == W("invoke"));
            for w in toks.windows(2) {
                if let (W("label"), L(n)) = (w[0], w[1]) {
                    s.push(*bidx.get(n).ok_or_else(|| format!("label {n}"))?);
                    if is_invoke {
                        break; // never unwinds
                    }
                }
            }
        }
        succ.push(s);
    }
    // RPO
    let mut order = vec![];
    let mut state = vec![0u8; blocks.len()];
    let mut stack = vec![(0usize, 0usize)];
    state[0] = 1;
    while let Some((b, i)) = stack.pop() {
        if i < succ[b].len() {
            stack.push((b, i + 1));
            let s = succ[b][i];
            if state[s] == 0 {
                state[s] = 1;
                stack.push((s, 0));
            }
        } else {
            order.push(b);
        }
    }
    order.reverse();
    let mut start = vec![u32::MAX; blocks.len()];
    let mut phis: HashMap<usize, std::vec::Vec<PhiI>> = HashMap::new();
    // terminators patched later: (code idx, pred block, target blocks)
    let mut fix: std::vec::Vec<(usize, usize, std::vec::Vec<usize>)> = vec![];
    for &b in &order {
        start[b] = low.code.len() as u32;
        let nins = blocks[b].1.len();
        for (k, line) in blocks[b].1.iter().enumerate() {
            let line: &'static str = unsafe { std::mem::transmute::<&str, &'static str>(*line) };
            let mut p = P::new(m, line);
            low.ninstr += 1;
            let res = match (p.t.first(), p.t.get(1)) {
                (Some(L(n)), Some(P('='))) => {
                    p.i = 2;
                    Some(*n)
                }
                _ => None,
            };
            let save = p.i;
            if let Err(e) = lower_ins(&mut low, &mut p, res, b, k == nins - 1, &bidx, &mut phis, &mut fix) {
                // give the result registers anyway so later lowering proceeds
                let _ = save;
                low.code.push(I::Unsup(format!("{e}: {}", line.trim()).into()));
                if let Some(n) = res {
                    let r = low.reg(16);
                    low.names.insert(n, (r..r + 16).map(|x| x as Opd).collect());
                }
            }
        }
        let _ = low.m;
    }
    // phi moves
    for (ci, pred, tgts) in fix {
        let pname = blocks[pred].0.clone();
        let mut edges = vec![];
        for t in tgts {
            let mut moves = vec![];
            if let Some(ph) = phis.get(&t) {
                for f in ph {
                    let inc = f.inc.iter().find(|x| x.1 == pname);
                    let Some(inc) = inc else { return Err(format!("phi without {pname}")) };
                    let mut pp = P { t: inc.0.clone(), i: 0, m };
                    let v = low.val(&mut pp, &f.ty)?;
                    for (d, o) in f.dst.iter().zip(v) {
                        if *d as i32 != o {
                            moves.push((*d, o));
                        }
                    }
                }
            }
            edges.push(Edge { to: start[t], moves: moves.into_boxed_slice() });
        }
        match &mut low.code[ci] {
            I::Br(e) => *e = edges.pop().unwrap(),
            I::CondBr { t, f, .. } => {
                *f = edges.pop().unwrap();
                *t = edges.pop().unwrap();
            }
            I::Switch { edges: e, .. } => *e = edges.into_boxed_slice(),
            _ => return Err("fix".into()),
        }
    }
    Ok(Func {
        name: fname.to_string(),
        nparams,
        nregs: low.nregs,
        frame: low.frame,
        code: low.code,
        consts: low.consts,
        ninstr: low.ninstr,
    })
}

fn no_edge() -> Edge {
    Edge { to: 0, moves: Box::new([]) }
}

#[allow(clippy::too_many_arguments)]
fn lower_ins<'a>(
    low: &mut Low<'a>,
    p: &mut P<'a>,
    res: Option<&'a str>,
    b: usize,
    _last: bool,
    bidx: &HashMap<&str, usize>,
    phis: &mut HashMap<usize, std::vec::Vec<PhiI<'a>>>,
    fix: &mut std::vec::Vec<(usize, usize, std::vec::Vec<usize>)>,
) -> R<()> {
    let op = match p.next() {
        W(w) => w,
        o => return Err(format!("op {o:?}")),
    };
    let def = |low: &mut Low<'a>, v: std::vec::Vec<Opd>| {
        if let Some(n) = res {
            low.names.insert(n, v);
        }
    };
    let range = |r: u32, n: usize| -> std::vec::Vec<Opd> { (r..r + n as u32).map(|x| x as Opd).collect() };
    let skip_flags = |p: &mut P<'a>| {
        while let W(
            "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "fast" | "nnan" | "ninf" | "nsz"
            | "arcp" | "contract" | "afn" | "reassoc" | "volatile" | "atomic" | "weak",
        ) = p.peek()
        {
            p.next();
        }
    };
    match op {
        "phi" => {
            skip_flags(p);
            let ty = p.ty()?;
            let n = ty.slots().len();
            let r = low.reg(n);
            let mut inc = vec![];
            loop {
                p.expect('[')?;
                let st = p.i;
                let mut d = 0;
                loop {
                    match p.peek() {
                        P('(') | P('{') | P('[') | P('<') => d += 1,
                        P(')') | P('}') | P(']') | P('>') => d -= 1,
                        P(',') if d == 0 => break,
                        P('\0') => return Err("phi".into()),
                        _ => {}
                    }
                    p.next();
                }
                let toks = p.t[st..p.i].to_vec();
                p.expect(',')?;
                let L(bn) = p.next() else { return Err("phi label".into()) };
                p.expect(']')?;
                inc.push((toks, bn));
                if !(p.peek() == P(',') && p.t.get(p.i + 1) == Some(&P('['))) {
                    break;
                }
                p.next();
            }
            phis.entry(b).or_default().push(PhiI { dst: (r..r + n as u32).collect(), inc, ty });
            def(low, range(r, n));
        }
        "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
            skip_flags(p);
            let ty = p.ty()?;
            let x = low.val(p, &ty)?;
            p.expect(',')?;
            let y = low.val(p, &ty)?;
            let o = match op {
                "add" => Op::Add,
                "sub" => Op::Sub,
                "mul" => Op::Mul,
                "udiv" => Op::UDiv,
                "sdiv" => Op::SDiv,
                "urem" => Op::URem,
                "srem" => Op::SRem,
                "and" => Op::And,
                "or" => Op::Or,
                "xor" => Op::Xor,
                "shl" => Op::Shl,
                "lshr" => Op::LShr,
                _ => Op::AShr,
            };
            let w = ty.slots()[0].1;
            let r = low.reg(x.len());
            for i in 0..x.len() {
                low.code.push(I::Bin { op: o, w, dst: r + i as u32, a: x[i], b: y[i] });
            }
            def(low, range(r, x.len()));
        }
        "icmp" => {
            skip_flags(p);
            let W(pred) = p.next() else { return Err("pred".into()) };
            let ty = p.ty()?;
            let x = low.val(p, &ty)?;
            p.expect(',')?;
            let y = low.val(p, &ty)?;
            let (o, neg, swap) = match pred {
                "eq" => (Op::Eq, false, false),
                "ne" => (Op::Eq, true, false),
                "ult" => (Op::Ult, false, false),
                "ugt" => (Op::Ult, false, true),
                "ule" => (Op::Ult, true, true),
                "uge" => (Op::Ult, true, false),
                "slt" => (Op::Slt, false, false),
                "sgt" => (Op::Slt, false, true),
                "sle" => (Op::Slt, true, true),
                "sge" => (Op::Slt, true, false),
                o => return Err(format!("pred {o}")),
            };
            let w = ty.slots()[0].1;
            let r = low.reg(x.len());
            for i in 0..x.len() {
                let (a, bb) = if swap { (y[i], x[i]) } else { (x[i], y[i]) };
                low.code.push(I::Cmp { op: o, neg, w, dst: r + i as u32, a, b: bb });
            }
            def(low, range(r, x.len()));
        }
        "zext" | "sext" | "trunc" => {
            skip_flags(p);
            let ty = p.ty()?;
            let x = low.val(p, &ty)?;
            if !p.eatw("to") {
                return Err("to".into());
            }
            let tt = p.ty()?;
            let fw = ty.slots()[0].1;
            let tw = tt.slots()[0].1;
            let o = match op {
                "zext" => Op::ZExt,
                "sext" => Op::SExt,
                _ => Op::Extract,
            };
            let r = low.reg(x.len());
            for (i, a) in x.iter().enumerate() {
                low.code.push(I::Cast { op: o, fw, tw, dst: r + i as u32, a: *a });
            }
            def(low, range(r, x.len()));
        }
        "bitcast" | "ptrtoint" | "inttoptr" | "freeze" | "ptrtoaddr" => {
            let (ty, x) = low.tval(p)?;
            if op == "freeze" {
                def(low, x);
                return Ok(());
            }
            if !p.eatw("to") {
                return Err("to".into());
            }
            let tt = p.ty()?;
            let (fs, ts) = (ty.slots(), tt.slots());
            if fs.len() == ts.len() && fs[0].1 == ts[0].1 {
                def(low, x);
            } else if fs.len() == 1 && ts.len() == 1 && !ty.is_agg() {
                let o = if fs[0].1 < ts[0].1 { Op::ZExt } else { Op::Extract };
                let r = low.reg(1);
                low.code.push(I::Cast { op: o, fw: fs[0].1, tw: ts[0].1, dst: r, a: x[0] });
                def(low, vec![r as Opd]);
            } else {
                // pack to one integer, then unpack
                let total = fs.len() as u32 * fs[0].1;
                let packed = if fs.len() == 1 {
                    x[0]
                } else {
                    let r = low.reg(1);
                    low.code.push(I::Pack { dst: r, ew: fs[0].1, srcs: x.into_boxed_slice() });
                    r as Opd
                };
                if ts.len() == 1 {
                    def(low, vec![packed]);
                } else {
                    let r = low.reg(ts.len());
                    low.code.push(I::Unpack { dst: r, ew: ts[0].1, n: ts.len() as u32, src: packed, w: total });
                    def(low, range(r, ts.len()));
                }
            }
        }
        "select" => {
            skip_flags(p);
            let (ct, c) = low.tval(p)?;
            p.expect(',')?;
            let (ty, x) = low.tval(p)?;
            p.expect(',')?;
            let (_, y) = low.tval(p)?;
            let sl = ty.slots();
            let r = low.reg(x.len());
            for i in 0..x.len() {
                let cc = if ct.is_agg() { c[i] } else { c[0] };
                low.code.push(I::Sel { c: cc, w: sl[i].1, dst: r + i as u32, a: x[i], b: y[i] });
            }
            def(low, range(r, x.len()));
        }
        "load" => {
            skip_flags(p);
            let ty = p.ty()?;
            p.expect(',')?;
            let (_, ptr) = low.tval(p)?;
            let sl = ty.slots();
            let r = low.reg(sl.len());
            if let Vec(n, t) = &*ty {
                if t.bits() % 8 != 0 {
                    // <N x i1>: load as an integer
                    let q = low.reg(1);
                    low.code.push(I::Load { dst: q, ptr: ptr[0], off: 0, w: t.bits() * *n as u32 });
                    low.code.push(I::Unpack { dst: r, ew: t.bits(), n: *n as u32, src: q as Opd, w: t.bits() * *n as u32 });
                    def(low, range(r, sl.len()));
                    return Ok(());
                }
            }
            for (i, (o, w)) in sl.iter().enumerate() {
                low.code.push(I::Load { dst: r + i as u32, ptr: ptr[0], off: *o as u32, w: *w });
            }
            def(low, range(r, sl.len()));
        }
        "store" => {
            skip_flags(p);
            let (ty, v) = low.tval(p)?;
            p.expect(',')?;
            let (_, ptr) = low.tval(p)?;
            if let Vec(n, t) = &*ty {
                if t.bits() % 8 != 0 {
                    // <N x i1>: store as an integer
                    let q = low.reg(1);
                    low.code.push(I::Pack { dst: q, ew: t.bits(), srcs: v.into_boxed_slice() });
                    low.code.push(I::Store { ptr: ptr[0], off: 0, val: q as Opd, w: t.bits() * *n as u32 });
                    return Ok(());
                }
            }
            for (i, (o, w)) in ty.slots().iter().enumerate() {
                low.code.push(I::Store { ptr: ptr[0], off: *o as u32, val: v[i], w: *w });
            }
        }
        "getelementptr" => {
            skip_flags(p);
            while p.peek() == W("inrange") {
                p.next();
                p.skip_group();
            }
            let st = p.ty()?;
            p.expect(',')?;
            let (_, base) = low.tval(p)?;
            let mut off = 0i64;
            let mut terms = vec![];
            let mut cur = st;
            let mut first = true;
            while p.peek() == P(',') && !matches!(p.t.get(p.i + 1), Some(M(_))) {
                p.next();
                let (it, iv) = low.tval(p)?;
                let iv = iv[0];
                let kc = if iv < 0 { Some(crate::expr::sx(low.consts[!iv as usize], it.bits()) as i64) } else { None };
                if first {
                    first = false;
                    match kc {
                        Some(k) => off += k * cur.size() as i64,
                        None => terms.push((iv, cur.size() as i64, it.bits())),
                    }
                } else {
                    match (&*cur, kc) {
                        (Struct(..), Some(k)) => {
                            off += cur.field_off(k as usize) as i64;
                            cur = cur.elem(k as usize);
                        }
                        (Arr(_, t) | Vec(_, t), kc) => {
                            match kc {
                                Some(k) => off += k * t.size() as i64,
                                None => terms.push((iv, t.size() as i64, it.bits())),
                            }
                            cur = t.clone();
                        }
                        _ => return Err("gep".into()),
                    }
                }
            }
            let r = low.reg(1);
            low.code.push(I::Gep { dst: r, base: base[0], off, terms: terms.into_boxed_slice() });
            def(low, vec![r as Opd]);
        }
        "alloca" => {
            let ty = p.ty()?;
            let mut n = 1u64;
            if p.eat(',') && p.is_type() {
                let (_, c) = low.tval(p)?;
                if c[0] >= 0 {
                    return Err("dynamic alloca".into());
                }
                n = low.consts[!c[0] as usize] as u64;
            }
            low.frame = align_up(low.frame, 16);
            let r = low.reg(1);
            low.code.push(I::Alloca { dst: r, off: low.frame });
            low.frame += ty.size() * n;
            def(low, vec![r as Opd]);
        }
        "extractvalue" => {
            let (ty, v) = low.tval(p)?;
            let mut cur = ty;
            let mut a = 0usize;
            while p.peek() == P(',') && matches!(p.t.get(p.i + 1), Some(N(_))) {
                p.next();
                let i = p.num()? as usize;
                for k in 0..i {
                    a += cur.elem(k).slots().len();
                }
                cur = cur.elem(i);
            }
            let n = cur.slots().len();
            if v.len() < a + n {
                return Err("extractvalue of unsupported".into());
            }
            def(low, v[a..a + n].to_vec());
        }
        "insertvalue" => {
            let (ty, mut v) = low.tval(p)?;
            p.expect(',')?;
            let (_, e) = low.tval(p)?;
            let mut cur = ty;
            let mut a = 0usize;
            while p.peek() == P(',') && matches!(p.t.get(p.i + 1), Some(N(_))) {
                p.next();
                let i = p.num()? as usize;
                for k in 0..i {
                    a += cur.elem(k).slots().len();
                }
                cur = cur.elem(i);
            }
            for (i, x) in e.iter().enumerate() {
                v[a + i] = *x;
            }
            def(low, v);
        }
        "extractelement" => {
            let (ty, v) = low.tval(p)?;
            p.expect(',')?;
            let (_, i) = low.tval(p)?;
            if i[0] < 0 {
                let k = low.consts[!i[0] as usize] as usize;
                def(low, vec![v[k]]);
            } else {
                let r = low.reg(1);
                low.code.push(I::ExtElt { dst: r, w: ty.elem(0).bits(), idx: i[0], srcs: v.into_boxed_slice() });
                def(low, vec![r as Opd]);
            }
        }
        "insertelement" => {
            let (_, mut v) = low.tval(p)?;
            p.expect(',')?;
            let (_, e) = low.tval(p)?;
            p.expect(',')?;
            let (_, i) = low.tval(p)?;
            if i[0] >= 0 {
                return Err("insertelement var".into());
            }
            v[low.consts[!i[0] as usize] as usize] = e[0];
            def(low, v);
        }
        "shufflevector" => {
            let (_, x) = low.tval(p)?;
            p.expect(',')?;
            let (_, y) = low.tval(p)?;
            p.expect(',')?;
            let mt = p.ty()?;
            let msk = p.const_val(&mt)?;
            let all: std::vec::Vec<Opd> = x.iter().chain(y.iter()).copied().collect();
            def(low, msk.iter().map(|i| all[*i as u32 as usize % all.len()]).collect());
        }
        "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
            skip_flags(p);
            let ty = p.ty()?;
            let x = low.val(p, &ty)?;
            p.expect(',')?;
            let y = low.val(p, &ty)?;
            let r = low.reg(x.len());
            let k = match op {
                "fadd" => 0,
                "fsub" => 1,
                "fmul" => 2,
                "fdiv" => 3,
                _ => 4,
            };
            for i in 0..x.len() {
                low.code.push(I::FOp { k, dst: r + i as u32, w: ty.slots()[0].1, a: x[i], b: y[i] });
            }
            def(low, range(r, x.len()));
        }
        "fneg" => {
            skip_flags(p);
            let (ty, x) = low.tval(p)?;
            let r = low.reg(1);
            low.code.push(I::FOp { k: 5, dst: r, w: ty.bits(), a: x[0], b: x[0] });
            def(low, vec![r as Opd]);
        }
        "uitofp" | "sitofp" => {
            skip_flags(p);
            let (ty, x) = low.tval(p)?;
            if !p.eatw("to") {
                return Err("to".into());
            }
            let tt = p.ty()?;
            if *tt != F64 || ty.is_agg() {
                return Err("fp type".into());
            }
            let r = low.reg(1);
            low.code.push(I::FOp { k: if op == "uitofp" { 6 } else { 7 }, dst: r, w: ty.bits(), a: x[0], b: x[0] });
            def(low, vec![r as Opd]);
        }
        "atomicrmw" => {
            skip_flags(p);
            let W(k) = p.next() else { return Err("rmw".into()) };
            let (_, ptr) = low.tval(p)?;
            p.expect(',')?;
            let (ty, v) = low.tval(p)?;
            let kk = match k {
                "xchg" => 0,
                "add" => 1,
                "sub" => 2,
                "and" => 3,
                "or" => 4,
                "xor" => 5,
                _ => return Err(format!("rmw {k}")),
            };
            let r = low.reg(1);
            low.code.push(I::Rmw { k: kk, dst: r, ptr: ptr[0], val: v[0], w: ty.bits() });
            def(low, vec![r as Opd]);
        }
        "cmpxchg" => {
            skip_flags(p);
            let (_, ptr) = low.tval(p)?;
            p.expect(',')?;
            let (ty, c) = low.tval(p)?;
            p.expect(',')?;
            let (_, n) = low.tval(p)?;
            let r = low.reg(2);
            low.code.push(I::CmpXchg { dst: r, ptr: ptr[0], cmp: c[0], new: n[0], w: ty.bits() });
            def(low, range(r, 2));
        }
        "fence" => {}
        "br" => {
            if p.eatw("label") {
                let L(n) = p.next() else { return Err("br".into()) };
                let ci = low.code.len();
                low.code.push(I::Br(no_edge()));
                fix.push((ci, b, vec![bidx[n]]));
            } else {
                let (_, c) = low.tval(p)?;
                p.expect(',')?;
                p.next();
                let L(t) = p.next() else { return Err("br".into()) };
                p.expect(',')?;
                p.next();
                let L(f) = p.next() else { return Err("br".into()) };
                let ci = low.code.len();
                low.code.push(I::CondBr { c: c[0], t: no_edge(), f: no_edge() });
                fix.push((ci, b, vec![bidx[t], bidx[f]]));
            }
        }
        "switch" => {
            let (ty, v) = low.tval(p)?;
            p.expect(',')?;
            p.next();
            let L(d) = p.next() else { return Err("switch".into()) };
            p.expect('[')?;
            let mut tg = vec![bidx[d]];
            let mut cases = vec![];
            while !p.eat(']') {
                let t = p.ty()?;
                let k = p.const_val(&t)?[0] as u64;
                p.expect(',')?;
                p.next();
                let L(n) = p.next() else { return Err("switch".into()) };
                let bi = bidx[n];
                let e = match tg.iter().position(|x| *x == bi) {
                    Some(e) => e,
                    None => {
                        tg.push(bi);
                        tg.len() - 1
                    }
                };
                cases.push((k, e as u32));
            }
            let ci = low.code.len();
            low.code.push(I::Switch { v: v[0], w: ty.bits(), cases: cases.into_boxed_slice(), edges: Box::new([]) });
            fix.push((ci, b, tg));
        }
        "ret" => {
            if p.peek() == W("void") {
                low.code.push(I::Ret(Box::new([])));
            } else {
                let (_, v) = low.tval(p)?;
                low.code.push(I::Ret(v.into_boxed_slice()));
            }
        }
        "unreachable" => low.code.push(I::Unreachable),
        "resume" => low.code.push(I::Unreachable),
        "landingpad" => {
            let r = low.reg(2);
            def(low, range(r, 2));
        }
        "tail" | "musttail" | "notail" | "call" | "invoke" => {
            let mut kind = op;
            if op == "tail" || op == "musttail" || op == "notail" {
                p.next();
                kind = "call";
            }
            // flags, cc, ret attrs
            p.skip_attrs_to_type();
            let rt = p.ty()?;
            if p.peek() == P('(') {
                p.skip_group(); // function type
            }
            let callee;
            let mut cname = "";
            match p.next() {
                G(n) => {
                    cname = n;
                    let n2 = p.m.aliases.get(n).map(|s| s.as_str()).unwrap_or(n);
                    callee = if let Some(i) = p.m.fmap.get(n2) {
                        Callee::Func(*i)
                    } else if let Some(i) = p.m.emap.get(n2) {
                        Callee::Ext(*i)
                    } else {
                        return Err(format!("callee {n}"));
                    };
                }
                L(n) => {
                    let o = low.names.get(n).ok_or("callee")?[0];
                    callee = Callee::Ind(o);
                }
                W("asm") => return Err("asm".into()),
                o => return Err(format!("callee {o:?}")),
            }
            p.expect('(')?;
            let mut args: std::vec::Vec<Opd> = vec![];
            let mut argtys = vec![];
            if !p.eat(')') {
                loop {
                    let t = p.ty()?;
                    if *t == Meta {
                        // metadata operand: skip to , or )
                        let mut d = 0;
                        loop {
                            match p.peek() {
                                P('(') => d += 1,
                                P(')') if d == 0 => break,
                                P(')') => d -= 1,
                                P(',') if d == 0 => break,
                                _ => {}
                            }
                            p.next();
                        }
                    } else {
                        p.skip_pattrs();
                        let v = low.val(p, &t)?;
                        argtys.push((t, v.len()));
                        args.extend(v);
                    }
                    if p.eat(')') {
                        break;
                    }
                    p.expect(',')?;
                }
            }
            let rs = rt.slots();
            let mut done = false;
            if let Some(n) = cname.strip_prefix("llvm.") {
                done = lower_intrinsic(low, n, &rt, &args, &argtys, res)?;
            }
            if !done {
                let r = low.reg(rs.len());
                low.code.push(I::Call(Box::new(CallI {
                    callee,
                    args: args.into_boxed_slice(),
                    dst: r,
                    nret: rs.len() as u32,
                    retw: rs.first().map(|x| x.1).unwrap_or(0),
                })));
                def(low, range(r, rs.len()));
            }
            if kind == "invoke" {
                // "to label %x unwind label %y"
                let mut i = p.i;
                while i < p.t.len() && !(p.t[i] == W("to") && p.t.get(i + 1) == Some(&W("label"))) {
                    i += 1;
                }
                let Some(L(n)) = p.t.get(i + 2).copied() else { return Err("invoke".into()) };
                let ci = low.code.len();
                low.code.push(I::Br(no_edge()));
                fix.push((ci, b, vec![bidx[n]]));
            }
        }
        o => return Err(format!("instruction {o}")),
    }
    Ok(())
}

fn lower_intrinsic<'a>(
    low: &mut Low<'a>,
    n: &str,
    rt: &Ty,
    args: &[Opd],
    argtys: &[(Rc<Ty>, usize)],
    res: Option<&'a str>,
) -> R<bool> {
    let base = |s: &str| n == s || n.starts_with(&format!("{s}."));
    for s in ["lifetime.start", "lifetime.end", "assume", "experimental.noalias.scope.decl", "dbg", "x86.sse2.pause", "donothing", "prefetch", "fake.use"] {
        if base(s) {
            return Ok(true);
        }
    }
    let def = |low: &mut Low<'a>, v: std::vec::Vec<Opd>| {
        if let Some(n) = res {
            low.names.insert(n, v);
        }
    };
    if base("is.constant") {
        let k = low.k(0);
        def(low, vec![k]);
        return Ok(true);
    }
    if base("expect") || base("threadlocal.address") || base("ptrmask.none") || base("launder.invariant.group") {
        def(low, vec![args[0]]);
        return Ok(true);
    }
    if base("trap") || base("ubsantrap") || base("debugtrap") {
        low.code.push(I::Intr { k: Intr::Trap, w: 0, dst: 0, args: Box::new([]) });
        return Ok(true);
    }
    let simple: &[(&str, Intr)] = &[
        ("umax", Intr::UMax),
        ("umin", Intr::UMin),
        ("smax", Intr::SMax),
        ("smin", Intr::SMin),
        ("usub.sat", Intr::USubSat),
        ("uadd.sat", Intr::UAddSat),
        ("ssub.sat", Intr::SSubSat),
        ("sadd.sat", Intr::SAddSat),
        ("fshl", Intr::FShl),
        ("fshr", Intr::FShr),
        ("ctlz", Intr::Ctlz),
        ("cttz", Intr::Cttz),
        ("ctpop", Intr::Ctpop),
        ("bswap", Intr::Bswap),
        ("bitreverse", Intr::BitRev),
        ("ucmp", Intr::UCmp),
        ("scmp", Intr::SCmp),
        ("abs", Intr::Abs),
    ];
    for (s, k) in simple {
        if base(s) {
            let lanes = argtys[0].1;
            let w = argtys[0].0.slots()[0].1;
            let r = low.reg(lanes);
            // per-lane arguments: args laid out type by type; scalar flags stay scalar
            for l in 0..lanes {
                let mut a = vec![];
                let mut o = 0;
                for (_, c) in argtys {
                    a.push(if *c == 1 { args[o] } else { args[o + l] });
                    o += c;
                }
                low.code.push(I::Intr { k: *k, w, dst: r + l as u32, args: a.into_boxed_slice() });
            }
            if matches!(k, Intr::UCmp | Intr::SCmp) && rt.bits() != 8 {
                return Err("ucmp width".into());
            }
            def(low, (r..r + lanes as u32).map(|x| x as Opd).collect());
            return Ok(true);
        }
    }
    for (s, op, signed) in [
        ("uadd.with.overflow", Op::Add, false),
        ("usub.with.overflow", Op::Sub, false),
        ("umul.with.overflow", Op::Mul, false),
        ("sadd.with.overflow", Op::Add, true),
        ("ssub.with.overflow", Op::Sub, true),
        ("smul.with.overflow", Op::Mul, true),
    ] {
        if base(s) {
            let w = argtys[0].0.bits();
            let r = low.reg(2);
            low.code.push(I::Ovf { op, signed, w, dst: r, a: args[0], b: args[1] });
            def(low, vec![r as Opd, r as Opd + 1]);
            return Ok(true);
        }
    }
    if base("memcpy") || base("memmove") || base("memset") {
        let k = if base("memcpy") {
            Intr::MemCpy
        } else if base("memmove") {
            Intr::MemMove
        } else {
            Intr::MemSet
        };
        low.code.push(I::Intr { k, w: 0, dst: 0, args: args[..3].to_vec().into_boxed_slice() });
        return Ok(true);
    }
    if base("load.relative") {
        let r = low.reg(1);
        low.code.push(I::Intr { k: Intr::LoadRel, w: 64, dst: r, args: args.to_vec().into_boxed_slice() });
        def(low, vec![r as Opd]);
        return Ok(true);
    }
    // vector reductions
    if let Some(rest) = n.strip_prefix("vector.reduce.") {
        let kind = rest.split('.').next().unwrap();
        let w = argtys[0].0.slots()[0].1;
        let op = match kind {
            "add" => Op::Add,
            "mul" => Op::Mul,
            "and" => Op::And,
            "or" => Op::Or,
            "xor" => Op::Xor,
            _ => return Err(format!("reduce {kind}")),
        };
        let mut acc = args[0];
        for a in &args[1..] {
            let r = low.reg(1);
            low.code.push(I::Bin { op, w, dst: r, a: acc, b: *a });
            acc = r as Opd;
        }
        def(low, vec![acc]);
        return Ok(true);
    }
    Err(format!("intrinsic {n}"))
}
