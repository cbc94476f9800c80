//! A02: what is minified depends on the text alone
use crate::rt::*;
use crate::util::*;

fn twice(s: &str, others: &[&str], f: fn(&str) -> Option<String>) {
    let a = f(s);
    let o = others[pick(others.len())];
    let _ = f(o);
    let b = f(s);
    log(s.as_bytes());
    reach(1);
    same(&a, &b, 1);
}
fn same(a: &Option<String>, b: &Option<String>, id: u32) {
    match (a, b) {
        (Some(a), Some(b)) => check(crate::util::same(a.as_bytes(), b.as_bytes()), id),
        (None, None) => {}
        _ => check(false, id),
    }
}
pub fn css_det(arg: u64) {
    let s = if arg < 10 { free_utf8(arg as usize) } else { crate::css::text(arg) };
    twice(&s, &["a{color:red}", "/*! x */@media x{a b{c:calc(1 + 2)}}", "/*", "a{b:'"], |s| minifier::css::minify(s).ok().map(|m| m.to_string()));
}
pub fn js_det(arg: u64) {
    let s = if arg < 10 { free_utf8(arg as usize) } else { crate::js::text(arg) };
    twice(&s, &["var a = 'x'; return /b/.c;", "`${{}", "/*! x */ function f() {}", "'"], |s| minifier::js::minify(s).ok().map(|m| m.to_string()));
}
pub fn json_det(n: u64) {
    let s = free_utf8(n as usize);
    twice(&s, &["{\"a\" : \"b\\\"\"}", "\"", "[1, \"\\"], |s| Some(minifier::json::minify(s).to_string()));
}
/// aggregation, in each mode and with hash maps in each order
pub fn js_order(arg: u64) {
    let s = if arg % 100 < 80 { crate::js::agg_text(arg) } else { uses(arg % 10) };
    let mode = arg / 100;
    order(0);
    let a = crate::js::agg(&s, mode);
    log(s.as_bytes());
    log(a.as_deref().unwrap_or("-").as_bytes());
    reach(1);
    for k in 1..ORDERS {
        order(k);
        let b = crate::js::agg(&s, mode);
        same(&a, &b, 1);
    }
}
/// n uses of four strings, after declarations of some of them
fn uses(n: u64) -> String {
    const D: [&str; 5] = ["", "var R=[];", "let R=[\"aaaaaaaaaaaaaaaa\"];", "var q=\"bbbbbbbbbbbbbbbb\";", "var q=\"aaaaaaaaaaaaaaaa\",z='bbbbbbbbbbbbbbbb';"];
    const S: [&str; 4] = ["\"aaaaaaaaaaaaaaaa\"", "'bbbbbbbbbbbbbbbb'", "\"cccccccccccccccccccc\"", "\"aaaaaaaaaaaaaaab\""];
    let mut s = String::from(D[pick(5)]);
    for _ in 0..n {
        s.push_str("f(");
        s.push_str(S[pick(4)]);
        s.push_str(");");
    }
    s
}
