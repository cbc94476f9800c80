#![cfg_attr(not(feature = "native"), no_main)]
mod rt;
mod util;
mod basic;
mod json;
mod stream;
mod csslex;
mod css;
mod jslex;
mod js;
mod jstools;
mod det;

macro_rules! table {
    ($($m:ident :: $f:ident),* $(,)?) => {
        #[cfg(feature = "native")]
        pub static TABLE: &[(&str, fn(u64))] = &[$((stringify!($f), $m::$f)),*];
        #[cfg(not(feature = "native"))]
        pub mod exports {
            $(#[no_mangle] pub extern "C" fn $f(a: u64) { crate::$m::$f(a) })*
        }
        #[cfg(not(feature = "native"))]
        #[used]
        pub static TABLE: &[extern "C" fn(u64)] = &[$(exports::$f),*];
    };
}
table! {
    basic::css_free, basic::js_free, basic::json_free, basic::css_write, basic::js_write, basic::json_write,
    json::json_preserve, json::json_idem,
    stream::json_stream, stream::json_fault, stream::json_fault_seen, stream::json_enc,
    css::css_content, css::css_tokens, css::css_comments, css::css_idem, css::css_accept, css::css_selectors, css::css_math, css::css_size, css::css_needless,
    js::js_tokens, js::js_comments, js::js_idem, js::js_size, js::js_agg, js::js_array, js::js_except, jstools::js_decl, jstools::js_replace, jstools::js_kinds,
    det::css_det, det::js_det, det::json_det, det::js_order,
}

#[cfg(feature = "native")]
fn main() {
    rt::native::run(TABLE);
}
#[cfg(not(feature = "native"))]
#[no_mangle]
pub extern "C" fn main() -> i32 {
    for f in TABLE {
        f(0)
    }
    0
}
