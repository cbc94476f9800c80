//! A stand-in for clap: the builder interface that /repo/src/cli.rs uses (and its close relatives),
//! parsing the arguments the harness sets instead of those of the process.  The real clap is trusted.
use std::any::Any;
use std::ffi::OsString;
use std::marker::PhantomData;
use std::path::PathBuf;
use std::sync::Arc;

/// The arguments, without the name of the program.
pub static mut ARGS: Vec<OsString> = Vec::new();

pub mod builder {
    pub use super::{PossibleValue, StyledStr, ValueParser};
}
pub mod parser {
    pub use super::{ArgMatches, ValuesRef};
}
#[derive(Clone)]
pub struct StyledStr;
#[derive(Clone)]
pub struct PossibleValue {
    name: String,
    aliases: Vec<String>,
}
impl PossibleValue {
    pub fn new(n: impl Into<String>) -> Self {
        PossibleValue { name: n.into(), aliases: vec![] }
    }
    pub fn help<T>(self, _: T) -> Self {
        self
    }
    pub fn hide(self, _: bool) -> Self {
        self
    }
    pub fn alias(mut self, n: impl Into<String>) -> Self {
        self.aliases.push(n.into());
        self
    }
    pub fn get_name(&self) -> &str {
        &self.name
    }
    pub fn matches(&self, v: &str, ignore_case: bool) -> bool {
        let same = |a: &str| if ignore_case { a.eq_ignore_ascii_case(v) } else { a == v };
        same(&self.name) || self.aliases.iter().any(|a| same(a))
    }
}
pub trait ValueEnum: Sized + Clone {
    fn value_variants<'a>() -> &'a [Self];
    fn to_possible_value(&self) -> Option<PossibleValue>;
    fn from_str(input: &str, ignore_case: bool) -> Result<Self, String> {
        for v in Self::value_variants() {
            if v.to_possible_value().map_or(false, |p| p.matches(input, ignore_case)) {
                return Ok(v.clone());
            }
        }
        Err(format!("invalid variant: {input}"))
    }
}
type Value = Arc<dyn Any + Send + Sync>;
#[derive(Clone)]
pub struct ValueParser(fn(OsString) -> Option<Value>);
fn val<T: Any + Send + Sync>(v: T) -> Option<Value> {
    Some(Arc::new(v))
}
pub struct Auto<T>(PhantomData<T>);
impl<T> Auto<T> {
    pub fn new() -> Self {
        Auto(PhantomData)
    }
}
pub trait ViaEnum {
    fn parser(&self) -> ValueParser;
}
impl<T: ValueEnum + Send + Sync + 'static> ViaEnum for Auto<T> {
    fn parser(&self) -> ValueParser {
        ValueParser(|s| val(T::from_str(s.to_str()?, false).ok()?))
    }
}
pub trait ViaKnown {
    fn parser(&self) -> ValueParser;
}
impl ViaKnown for &Auto<PathBuf> {
    fn parser(&self) -> ValueParser {
        ValueParser(|s| val(PathBuf::from(s)))
    }
}
impl ViaKnown for &Auto<OsString> {
    fn parser(&self) -> ValueParser {
        ValueParser(|s| val(s))
    }
}
impl ViaKnown for &Auto<String> {
    fn parser(&self) -> ValueParser {
        ValueParser(|s| val(s.into_string().ok()?))
    }
}
#[macro_export]
macro_rules! value_parser {
    ($t:ty) => {{
        #[allow(unused_imports)]
        use $crate::{ViaEnum, ViaKnown};
        (&$crate::Auto::<$t>::new()).parser()
    }};
}
#[macro_export]
macro_rules! command {
    () => {
        $crate::Command::new("minifier")
    };
    ($n:expr) => {
        $crate::Command::new($n)
    };
}
#[derive(Clone, PartialEq)]
pub enum ArgAction {
    Set,
    Append,
    SetTrue,
    SetFalse,
    Count,
}
#[derive(Clone)]
pub struct Arg {
    id: String,
    short: Option<char>,
    long: Option<String>,
    parser: ValueParser,
    append: bool,
}
impl Arg {
    pub fn new(id: impl Into<String>) -> Self {
        Arg { id: id.into(), short: None, long: None, parser: ValueParser(|s| val(s.into_string().ok()?)), append: false }
    }
    pub fn short(mut self, c: char) -> Self {
        self.short = Some(c);
        self
    }
    pub fn long(mut self, n: impl Into<String>) -> Self {
        self.long = Some(n.into());
        self
    }
    pub fn help<T>(self, _: T) -> Self {
        self
    }
    pub fn long_help<T>(self, _: T) -> Self {
        self
    }
    pub fn value_name<T>(self, _: T) -> Self {
        self
    }
    pub fn required(self, _: bool) -> Self {
        self
    }
    pub fn index(self, _: usize) -> Self {
        self
    }
    pub fn num_args<T>(mut self, _: T) -> Self {
        self.append = true;
        self
    }
    pub fn action(mut self, a: ArgAction) -> Self {
        self.append |= a == ArgAction::Append;
        self
    }
    pub fn value_parser(mut self, p: ValueParser) -> Self {
        self.parser = p;
        self
    }
}
pub struct Command {
    args: Vec<Arg>,
}
impl Command {
    pub fn new(_: impl Into<String>) -> Self {
        Command { args: vec![] }
    }
    pub fn arg(mut self, a: Arg) -> Self {
        self.args.push(a);
        self
    }
    pub fn args(mut self, a: impl IntoIterator<Item = Arg>) -> Self {
        self.args.extend(a);
        self
    }
    pub fn about<T>(self, _: T) -> Self {
        self
    }
    pub fn arg_required_else_help(self, _: bool) -> Self {
        self
    }
    pub fn get_matches(self) -> ArgMatches {
        let mut m: Vec<(String, Vec<Value>)> = self.args.iter().map(|a| (a.id.clone(), vec![])).collect();
        let all: &Vec<OsString> = unsafe { &*std::ptr::addr_of!(ARGS) };
        let mut i = 0;
        let mut opts = true;
        while i < all.len() {
            let s = &all[i];
            let b = s.as_encoded_bytes();
            i += 1;
            let mut k = None;
            let mut v = s.clone();
            if opts && b == b"--" {
                opts = false;
                continue;
            }
            if opts && b.len() > 1 && b[0] == b'-' {
                k = self.args.iter().position(|a| {
                    if b[1] == b'-' {
                        a.long.as_ref().map_or(false, |l| l.as_bytes() == &b[2..])
                    } else {
                        b.len() == 2 && a.short == Some(b[1] as char)
                    }
                });
                assert!(k.is_some() && i < all.len(), "arguments of the harness");
                v = all[i].clone();
                i += 1;
            }
            let k = k.or(self.args.iter().position(|a| a.short.is_none() && a.long.is_none())).expect("a positional argument");
            let v = (self.args[k].parser.0)(v).expect("a valid value");
            if !self.args[k].append {
                m[k].1.clear();
            }
            m[k].1.push(v);
        }
        ArgMatches(m)
    }
}
pub struct ArgMatches(Vec<(String, Vec<Value>)>);
impl ArgMatches {
    fn values(&self, id: &str) -> &[Value] {
        &self.0.iter().find(|a| a.0 == id).expect("a defined argument").1
    }
    pub fn get_one<T: Any + Clone + Send + Sync + 'static>(&self, id: &str) -> Option<&T> {
        self.values(id).first().map(|v| v.downcast_ref::<T>().expect("the type of the argument"))
    }
    pub fn get_many<T: Any + Clone + Send + Sync + 'static>(&self, id: &str) -> Option<ValuesRef<'_, T>> {
        let v = self.values(id);
        (!v.is_empty()).then(|| ValuesRef(v.iter(), PhantomData))
    }
    pub fn remove_one<T: Any + Clone + Send + Sync + 'static>(&mut self, id: &str) -> Option<T> {
        self.get_one::<T>(id).cloned()
    }
    pub fn remove_many<T: Any + Clone + Send + Sync + 'static>(&mut self, id: &str) -> Option<std::vec::IntoIter<T>> {
        self.get_many::<T>(id).map(|v| v.cloned().collect::<Vec<_>>().into_iter())
    }
    pub fn contains_id(&self, id: &str) -> bool {
        !self.values(id).is_empty()
    }
}
#[derive(Clone)]
pub struct ValuesRef<'a, T>(std::slice::Iter<'a, Value>, PhantomData<&'a T>);
impl<'a, T: 'static> Iterator for ValuesRef<'a, T> {
    type Item = &'a T;
    fn next(&mut self) -> Option<&'a T> {
        self.0.next().map(|v| v.downcast_ref::<T>().expect("the type of the argument"))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl<T: 'static> ExactSizeIterator for ValuesRef<'_, T> {}
impl<T: 'static> DoubleEndedIterator for ValuesRef<'_, T> {
    fn next_back(&mut self) -> Option<Self::Item> {
        self.0.next_back().map(|v| v.downcast_ref::<T>().expect("the type of the argument"))
    }
}
impl<T> Default for ValuesRef<'_, T> {
    fn default() -> Self {
        ValuesRef([].iter(), PhantomData)
    }
}
