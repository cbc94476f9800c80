//! A model of the regex crate: the same patterns and replacement interface, decided by plain
//! backtracking, whose leftmost-first matches are those of the regex crate.  The real crate is
//! trusted; sampled paths are compared with it on every run.
use std::borrow::Cow;
use std::ops::{Index, Range};

extern "C" {
    /// stops the engine: a pattern or call this model does not know
    fn __model_unknown() -> !;
}
fn unknown() -> ! {
    unsafe { __model_unknown() }
}
#[derive(Clone, Debug)]
struct Set {
    neg: bool,
    items: Vec<(char, char)>,
    classes: Vec<(char, bool)>, // s, w or d; negated
    ci: bool,
}
#[derive(Clone, Debug)]
enum Node {
    Char(char),
    Any(bool),
    Set(Set),
    Group(Option<usize>, Box<Node>),
    Cat(Vec<Node>),
    Alt(Vec<Node>),
    Rep(Box<Node>, usize, Option<usize>, bool),
    Start(bool),
    End(bool),
    Word(bool),
}
#[derive(Clone, Debug)]
enum I {
    Char(char),
    Any(bool),
    Set(Set),
    Split(usize, usize),
    Jmp(usize),
    Save(usize),
    Start(bool),
    End(bool),
    Word(bool),
    Match,
}
#[derive(Clone, Copy)]
struct Flags {
    i: bool,
    s: bool,
    m: bool,
}
struct Parser {
    p: Vec<char>,
    i: usize,
    groups: usize,
    f: Flags,
}
fn is_class(c: char, k: char) -> bool {
    match k {
        's' => c.is_whitespace(),
        _ if !c.is_ascii() && c.is_numeric() => unknown(),
        'd' => c.is_ascii_digit(),
        _ => c == '_' || c.is_alphanumeric(),
    }
}
fn fold(c: char) -> char {
    if c.is_ascii_uppercase() {
        (c as u8 + 32) as char
    } else {
        c
    }
}
impl Set {
    fn has(&self, c: char) -> bool {
        let mut r = false;
        for &(a, b) in &self.items {
            r |= a <= c && c <= b;
            if self.ci {
                let (l, u) = (fold(c), c.to_ascii_uppercase());
                r |= (a <= l && l <= b) || (a <= u && u <= b);
            }
        }
        for &(k, n) in &self.classes {
            r |= is_class(c, k) != n;
        }
        r != self.neg
    }
}
impl Parser {
    fn peek(&self) -> Option<char> {
        self.p.get(self.i).copied()
    }
    fn next(&mut self) -> char {
        let Some(c) = self.peek() else { unknown() };
        self.i += 1;
        c
    }
    fn eat(&mut self, c: char) -> bool {
        if self.peek() == Some(c) {
            self.i += 1;
            return true;
        }
        false
    }
    fn alt(&mut self) -> Node {
        let save = self.f;
        let mut v = vec![self.cat()];
        while self.eat('|') {
            v.push(self.cat());
        }
        self.f = save;
        if v.len() == 1 {
            v.pop().unwrap()
        } else {
            Node::Alt(v)
        }
    }
    fn cat(&mut self) -> Node {
        let mut v = vec![];
        while let Some(c) = self.peek() {
            if c == '|' || c == ')' {
                break;
            }
            let Some(a) = self.atom() else { continue };
            let (lo, hi) = match self.peek() {
                Some('*') => (0, None),
                Some('+') => (1, None),
                Some('?') => (0, Some(1)),
                Some('{') => {
                    self.i += 1;
                    let lo = self.num();
                    let hi = if self.eat(',') {
                        if self.peek() == Some('}') {
                            None
                        } else {
                            Some(self.num())
                        }
                    } else {
                        Some(lo)
                    };
                    if self.peek() != Some('}') {
                        unknown()
                    }
                    (lo, hi)
                }
                _ => {
                    v.push(a);
                    continue;
                }
            };
            self.i += 1;
            let lazy = self.eat('?');
            if matches!(self.peek(), Some('*' | '+' | '?' | '{')) {
                unknown()
            }
            v.push(Node::Rep(Box::new(a), lo, hi, lazy));
        }
        Node::Cat(v)
    }
    fn num(&mut self) -> usize {
        let mut n = 0;
        let mut any = false;
        while let Some(d) = self.peek().and_then(|c| c.to_digit(10)) {
            n = n * 10 + d as usize;
            self.i += 1;
            any = true;
        }
        if !any {
            unknown()
        }
        n
    }
    fn atom(&mut self) -> Option<Node> {
        Some(match self.next() {
            '(' => {
                let save = self.f;
                let mut cap = None;
                if self.eat('?') {
                    if self.peek() == Some('P') || self.peek() == Some('<') {
                        self.eat('P');
                        if !self.eat('<') {
                            unknown()
                        }
                        while self.next() != '>' {}
                        self.groups += 1;
                        cap = Some(self.groups);
                    } else {
                        let mut on = true;
                        loop {
                            match self.next() {
                                'i' => self.f.i = on,
                                's' => self.f.s = on,
                                'm' => self.f.m = on,
                                'u' if on => {}
                                '-' => on = false,
                                ':' => break,
                                ')' => return None,
                                _ => unknown(),
                            }
                        }
                    }
                } else {
                    self.groups += 1;
                    cap = Some(self.groups);
                }
                let n = self.alt();
                if self.next() != ')' {
                    unknown()
                }
                self.f = save;
                Node::Group(cap, Box::new(n))
            }
            '.' => Node::Any(self.f.s),
            '^' => Node::Start(self.f.m),
            '$' => Node::End(self.f.m),
            '[' => Node::Set(self.set()),
            '\\' => match self.next() {
                'b' => Node::Word(true),
                'B' => Node::Word(false),
                'A' => Node::Start(false),
                'z' => Node::End(false),
                c => {
                    let mut s = Set { neg: false, items: vec![], classes: vec![], ci: self.f.i };
                    match self.escape(c, &mut s) {
                        Some(c) => self.lit(c),
                        None => Node::Set(s),
                    }
                }
            },
            '*' | '+' | '?' | '{' => unknown(),
            c => self.lit(c),
        })
    }
    fn lit(&self, c: char) -> Node {
        if self.f.i && c.is_ascii_alphabetic() {
            return Node::Set(Set { neg: false, items: vec![(c, c)], classes: vec![], ci: true });
        }
        Node::Char(c)
    }
    fn escape(&mut self, c: char, s: &mut Set) -> Option<char> {
        match c {
            's' | 'w' | 'd' => s.classes.push((c, false)),
            'S' | 'W' | 'D' => s.classes.push((c.to_ascii_lowercase(), true)),
            'n' => return Some('\n'),
            'r' => return Some('\r'),
            't' => return Some('\t'),
            'f' => return Some('\x0c'),
            'v' => return Some('\x0b'),
            'x' => {
                let mut n = 0;
                if self.peek() == Some('{') {
                    self.i += 1;
                    while let Some(d) = self.peek().and_then(|c| c.to_digit(16)) {
                        n = n * 16 + d;
                        self.i += 1;
                    }
                    if self.next() != '}' {
                        unknown()
                    }
                } else {
                    for _ in 0..2 {
                        let Some(d) = self.next().to_digit(16) else { unknown() };
                        n = n * 16 + d;
                    }
                }
                return Some(char::from_u32(n).unwrap_or_else(|| unknown()));
            }
            c if c.is_ascii_alphanumeric() => unknown(),
            c => return Some(c),
        }
        None
    }
    fn set(&mut self) -> Set {
        let mut s = Set { neg: self.eat('^'), items: vec![], classes: vec![], ci: self.f.i };
        let mut first = true;
        loop {
            let c = self.next();
            if c == ']' && !first {
                return s;
            }
            first = false;
            if c == '[' || (c == '&' && self.peek() == Some('&')) || (c == '~' && self.peek() == Some('~')) || (c == '-' && self.peek() == Some('-')) {
                unknown()
            }
            let a = if c == '\\' {
                let e = self.next();
                match self.escape(e, &mut s) {
                    Some(c) => c,
                    None => continue,
                }
            } else {
                c
            };
            if self.peek() == Some('-') && self.p.get(self.i + 1).map_or(false, |&c| c != ']') {
                self.i += 1;
                let c = self.next();
                let b = if c == '\\' {
                    let e = self.next();
                    self.escape(e, &mut s).unwrap_or_else(|| unknown())
                } else {
                    c
                };
                s.items.push((a, b));
                // a dash after a range stands for itself
                if self.peek() == Some('-') && self.p.get(self.i + 1).map_or(false, |&c| c != ']') {
                    self.i += 1;
                    s.items.push(('-', '-'));
                }
            } else {
                s.items.push((a, a));
            }
        }
    }
}
fn gen(n: &Node, o: &mut Vec<I>) {
    match n {
        Node::Char(c) => o.push(I::Char(*c)),
        Node::Any(s) => o.push(I::Any(*s)),
        Node::Set(s) => o.push(I::Set(s.clone())),
        Node::Start(m) => o.push(I::Start(*m)),
        Node::End(m) => o.push(I::End(*m)),
        Node::Word(b) => o.push(I::Word(*b)),
        Node::Group(None, n) => gen(n, o),
        Node::Group(Some(k), n) => {
            o.push(I::Save(2 * k));
            gen(n, o);
            o.push(I::Save(2 * k + 1));
        }
        Node::Cat(v) => v.iter().for_each(|n| gen(n, o)),
        Node::Alt(v) => {
            let mut ends = vec![];
            for (i, n) in v.iter().enumerate() {
                if i + 1 < v.len() {
                    let k = o.len();
                    o.push(I::Match);
                    gen(n, o);
                    ends.push(o.len());
                    o.push(I::Match);
                    o[k] = I::Split(k + 1, o.len());
                } else {
                    gen(n, o);
                }
            }
            let e = o.len();
            for k in ends {
                o[k] = I::Jmp(e);
            }
        }
        Node::Rep(n, lo, hi, lazy) => {
            let split = |a, b| if *lazy { I::Split(b, a) } else { I::Split(a, b) };
            for _ in 0..*lo {
                gen(n, o);
            }
            match hi {
                None => {
                    let k = o.len();
                    o.push(I::Match);
                    gen(n, o);
                    o.push(I::Jmp(k));
                    o[k] = split(k + 1, o.len());
                }
                Some(h) => {
                    let mut ks = vec![];
                    for _ in *lo..*h {
                        ks.push(o.len());
                        o.push(I::Match);
                        gen(n, o);
                    }
                    let e = o.len();
                    for k in ks {
                        o[k] = split(k + 1, e);
                    }
                }
            }
        }
    }
}
#[derive(Clone, Debug)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("regex")
    }
}
impl std::error::Error for Error {}
#[derive(Clone, Debug)]
pub struct Regex {
    prog: Vec<I>,
    groups: usize,
    src: String,
    /// the bytes a match may start with, if it is one byte
    first: Option<u8>,
}
type Caps = Vec<Option<usize>>;
fn width(b: u8) -> usize {
    if b < 0x80 {
        1
    } else if b < 0xe0 {
        2
    } else if b < 0xf0 {
        3
    } else {
        4
    }
}
fn char_at(t: &str, i: usize) -> Option<(char, usize)> {
    let b = t.as_bytes();
    if i >= b.len() {
        return None;
    }
    if b[i] < 0x80 {
        return Some((b[i] as char, 1));
    }
    t[i..].chars().next().map(|c| (c, width(b[i])))
}
impl Regex {
    pub fn new(p: &str) -> Result<Regex, Error> {
        let mut q = Parser { p: p.chars().collect(), i: 0, groups: 0, f: Flags { i: false, s: false, m: false } };
        let n = q.alt();
        if q.i < q.p.len() {
            unknown()
        }
        let mut prog = vec![];
        gen(&n, &mut prog);
        prog.push(I::Match);
        let first = match prog.iter().find(|i| !matches!(i, I::Save(_))) {
            Some(I::Char(c)) if c.is_ascii() => Some(*c as u8),
            _ => None,
        };
        Ok(Regex { prog, groups: q.groups + 1, src: p.to_string(), first })
    }
    pub fn as_str(&self) -> &str {
        &self.src
    }
    fn at(&self, t: &str, start: usize) -> Option<Caps> {
        let b = t.as_bytes();
        let mut caps: Caps = vec![None; 2 * self.groups];
        caps[0] = Some(start);
        let mut stack: Vec<(usize, usize, Caps)> = vec![];
        let (mut pc, mut i) = (0, start);
        let word = |i: usize| i < b.len() && (b[i] == b'_' || b[i].is_ascii_alphanumeric());
        loop {
            let ok = match &self.prog[pc] {
                I::Match => {
                    caps[1] = Some(i);
                    return Some(caps);
                }
                I::Char(c) => {
                    let r = if c.is_ascii() { i < b.len() && b[i] == *c as u8 } else { char_at(t, i).map_or(false, |x| x.0 == *c) };
                    if r {
                        i += c.len_utf8();
                        pc += 1;
                    }
                    r
                }
                I::Any(s) => match char_at(t, i) {
                    Some((c, w)) if *s || c != '\n' => {
                        i += w;
                        pc += 1;
                        true
                    }
                    _ => false,
                },
                I::Set(s) => match char_at(t, i) {
                    Some((c, w)) if s.has(c) => {
                        i += w;
                        pc += 1;
                        true
                    }
                    _ => false,
                },
                I::Split(x, y) => {
                    stack.push((*y, i, caps.clone()));
                    pc = *x;
                    true
                }
                I::Jmp(x) => {
                    pc = *x;
                    true
                }
                I::Save(k) => {
                    caps[*k] = Some(i);
                    pc += 1;
                    true
                }
                I::Start(m) => {
                    pc += 1;
                    i == 0 || (*m && b[i - 1] == b'\n')
                }
                I::End(m) => {
                    pc += 1;
                    i == b.len() || (*m && b[i] == b'\n')
                }
                I::Word(w) => {
                    pc += 1;
                    if (i > 0 && b[i - 1] >= 0x80) || (i < b.len() && b[i] >= 0x80) {
                        unknown()
                    }
                    ((i > 0 && word(i - 1)) != word(i)) == *w
                }
            };
            if !ok {
                match stack.pop() {
                    None => return None,
                    Some((p, j, c)) => (pc, i, caps) = (p, j, c),
                }
            }
        }
    }
    fn search(&self, t: &str, from: usize) -> Option<Caps> {
        let mut i = from;
        loop {
            if self.first.map_or(true, |c| i < t.len() && t.as_bytes()[i] == c) {
                if let Some(c) = self.at(t, i) {
                    return Some(c);
                }
            }
            i += char_at(t, i)?.1;
        }
    }
    pub fn is_match(&self, t: &str) -> bool {
        self.search(t, 0).is_some()
    }
    pub fn captures<'h>(&self, t: &'h str) -> Option<Captures<'h>> {
        self.captures_iter(t).next()
    }
    pub fn find<'h>(&self, t: &'h str) -> Option<Match<'h>> {
        self.find_iter(t).next()
    }
    pub fn captures_iter<'r, 'h>(&'r self, t: &'h str) -> CaptureMatches<'r, 'h> {
        CaptureMatches { r: self, t, pos: 0, last: None, done: false }
    }
    pub fn find_iter<'r, 'h>(&'r self, t: &'h str) -> Matches<'r, 'h> {
        Matches(self.captures_iter(t))
    }
    pub fn split<'r, 'h>(&'r self, t: &'h str) -> std::vec::IntoIter<&'h str> {
        let mut v = vec![];
        let mut p = 0;
        for m in self.find_iter(t) {
            v.push(&t[p..m.start()]);
            p = m.end();
        }
        v.push(&t[p..]);
        v.into_iter()
    }
    pub fn replace_all<'h, R: Replacer>(&self, t: &'h str, r: R) -> Cow<'h, str> {
        self.replacen(t, 0, r)
    }
    pub fn replace<'h, R: Replacer>(&self, t: &'h str, r: R) -> Cow<'h, str> {
        self.replacen(t, 1, r)
    }
    pub fn replacen<'h, R: Replacer>(&self, t: &'h str, n: usize, mut r: R) -> Cow<'h, str> {
        let mut o = String::new();
        let mut p = 0;
        let mut any = false;
        for (k, c) in self.captures_iter(t).enumerate() {
            if n > 0 && k >= n {
                break;
            }
            any = true;
            let m = c.get(0).unwrap();
            o.push_str(&t[p..m.start()]);
            r.replace_append(&c, &mut o);
            p = m.end();
        }
        if !any {
            return Cow::Borrowed(t);
        }
        o.push_str(&t[p..]);
        Cow::Owned(o)
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Match<'h> {
    t: &'h str,
    a: usize,
    b: usize,
}
impl<'h> Match<'h> {
    pub fn as_str(&self) -> &'h str {
        &self.t[self.a..self.b]
    }
    pub fn start(&self) -> usize {
        self.a
    }
    pub fn end(&self) -> usize {
        self.b
    }
    pub fn range(&self) -> Range<usize> {
        self.a..self.b
    }
    pub fn len(&self) -> usize {
        self.b - self.a
    }
    pub fn is_empty(&self) -> bool {
        self.a == self.b
    }
}
#[derive(Clone, Debug)]
pub struct Captures<'h> {
    t: &'h str,
    c: Caps,
}
impl<'h> Captures<'h> {
    pub fn get(&self, i: usize) -> Option<Match<'h>> {
        let (a, b) = ((*self.c.get(2 * i)?)?, (*self.c.get(2 * i + 1)?)?);
        Some(Match { t: self.t, a, b })
    }
    pub fn len(&self) -> usize {
        self.c.len() / 2
    }
    pub fn name(&self, _: &str) -> Option<Match<'h>> {
        unknown()
    }
}
impl Index<usize> for Captures<'_> {
    type Output = str;
    fn index(&self, i: usize) -> &str {
        self.get(i).map(|m| m.as_str()).unwrap_or_else(|| panic!("no group at index '{}'", i))
    }
}
pub struct CaptureMatches<'r, 'h> {
    r: &'r Regex,
    t: &'h str,
    pos: usize,
    last: Option<usize>,
    done: bool,
}
impl<'h> Iterator for CaptureMatches<'_, 'h> {
    type Item = Captures<'h>;
    fn next(&mut self) -> Option<Captures<'h>> {
        loop {
            if self.done || self.pos > self.t.len() {
                return None;
            }
            let Some(c) = self.r.search(self.t, self.pos) else {
                self.done = true;
                return None;
            };
            let (a, b) = (c[0].unwrap(), c[1].unwrap());
            if a == b {
                // an empty match may not follow another match
                match char_at(self.t, b) {
                    Some((_, w)) => self.pos = b + w,
                    None => self.done = true,
                }
                if self.last == Some(b) {
                    continue;
                }
            } else {
                self.pos = b;
            }
            self.last = Some(b);
            return Some(Captures { t: self.t, c });
        }
    }
}
pub struct Matches<'r, 'h>(CaptureMatches<'r, 'h>);
impl<'h> Iterator for Matches<'_, 'h> {
    type Item = Match<'h>;
    fn next(&mut self) -> Option<Match<'h>> {
        self.0.next().map(|c| c.get(0).unwrap())
    }
}
pub trait Replacer {
    fn replace_append(&mut self, c: &Captures<'_>, o: &mut String);
}
fn expand(r: &str, c: &Captures<'_>, o: &mut String) {
    let b: Vec<char> = r.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i] != '$' || i + 1 == b.len() {
            o.push(b[i]);
            i += 1;
            continue;
        }
        if b[i + 1] == '$' {
            o.push('$');
            i += 2;
            continue;
        }
        let brace = b[i + 1] == '{';
        let mut j = i + 1 + brace as usize;
        let s = j;
        while j < b.len() && b[j].is_ascii_digit() {
            j += 1;
        }
        if j == s || (!brace && j < b.len() && (b[j] == '_' || b[j].is_ascii_alphabetic())) || (brace && b.get(j) != Some(&'}')) {
            unknown()
        }
        let n = b[s..j].iter().fold(0, |n, d| n * 10 + *d as usize - '0' as usize);
        if let Some(m) = c.get(n) {
            o.push_str(m.as_str());
        }
        i = j + brace as usize;
    }
}
impl<F, T> Replacer for F
where
    F: FnMut(&Captures<'_>) -> T,
    T: AsRef<str>,
{
    fn replace_append(&mut self, c: &Captures<'_>, o: &mut String) {
        o.push_str((*self)(c).as_ref());
    }
}
impl Replacer for &str {
    fn replace_append(&mut self, c: &Captures<'_>, o: &mut String) {
        expand(self, c, o)
    }
}
impl Replacer for String {
    fn replace_append(&mut self, c: &Captures<'_>, o: &mut String) {
        expand(self, c, o)
    }
}
impl Replacer for &String {
    fn replace_append(&mut self, c: &Captures<'_>, o: &mut String) {
        expand(self, c, o)
    }
}
impl Replacer for Cow<'_, str> {
    fn replace_append(&mut self, c: &Captures<'_>, o: &mut String) {
        expand(self, c, o)
    }
}
pub struct NoExpand<'s>(pub &'s str);
impl Replacer for NoExpand<'_> {
    fn replace_append(&mut self, _: &Captures<'_>, o: &mut String) {
        o.push_str(self.0)
    }
}
