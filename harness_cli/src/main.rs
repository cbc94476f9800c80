#![cfg_attr(not(feature = "native"), no_main)]
#[path = "../../harness/src/rt.rs"]
mod rt;
#[allow(dead_code)]
#[path = "../../harness/src/util.rs"]
mod util;
#[allow(dead_code)]
#[path = "/repo/src/cli.rs"]
mod cli;
mod fs;
mod run;

macro_rules! table {
    ($($m:ident :: $f:ident),* $(,)?) => {
        #[cfg(feature = "native")]
        pub static TABLE: &[(&str, fn(u64))] = &[$((stringify!($f), $m::$f)),*];
        #[cfg(not(feature = "native"))]
        pub mod exports {
            $(#[no_mangle] pub extern "C" fn $f(a: u64) { crate::$m::$f(a) })*
        }
        #[cfg(not(feature = "native"))]
        #[used]
        pub static TABLE: &[extern "C" fn(u64)] = &[$(exports::$f),*];
    };
}
table! {
    run::cli_run,
}

#[cfg(feature = "native")]
fn main() {
    rt::native::run(TABLE);
}
#[cfg(not(feature = "native"))]
#[no_mangle]
pub extern "C" fn main() -> i32 {
    for f in TABLE {
        f(0)
    }
    0
}
