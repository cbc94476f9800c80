//! Harness primitives.  In the symbolic build they are undefined externals that the engine
//! interprets; in the native build they read a recorded input, so that every model the solver
//! returns can be replayed against the ordinarily compiled code.
#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        fn __sx_byte() -> u8;
        fn __sx_pick(n: u64) -> u64;
        fn __sx_assume(c: bool);
        fn __sx_assert(c: bool, id: u32);
        fn __sx_log(p: *const u8, n: usize);
        fn __sx_reach(id: u32);
        fn __sx_order(k: u32);
    }
    #[inline(always)]
    pub fn byte() -> u8 {
        unsafe { __sx_byte() }
    }
    #[inline(always)]
    pub fn pick(n: usize) -> usize {
        unsafe { __sx_pick(n as u64) as usize }
    }
    #[inline(always)]
    pub fn assume(c: bool) {
        unsafe { __sx_assume(c) }
    }
    #[inline(always)]
    pub fn check(c: bool, id: u32) {
        unsafe { __sx_assert(c, id) }
    }
    #[inline(always)]
    pub fn log(b: &[u8]) {
        unsafe { __sx_log(b.as_ptr(), b.len()) }
    }
    #[inline(always)]
    pub fn reach(id: u32) {
        unsafe { __sx_reach(id) }
    }
    /// how many orders of iteration over hash maps there are to try: the order of insertion, but
    /// with the first 1, 2 or 3 keys moved to the end
    #[allow(dead_code)]
    pub const ORDERS: u32 = 3;
    /// iterate over hash maps in another order from here on
    #[inline(always)]
    #[allow(dead_code)]
    pub fn order(k: u32) {
        unsafe { __sx_order(!k) }
    }
}
#[cfg(feature = "native")]
mod imp {
    use std::cell::RefCell;
    #[derive(Default)]
    pub struct Rec {
        pub inp: Vec<u8>,
        pub pos: usize,
        pub log: Vec<u8>,
        pub reach: Vec<u32>,
        pub note: Vec<String>,
        pub verbose: bool,
    }
    thread_local!(pub static R: RefCell<Rec> = RefCell::new(Rec::default()));
    pub struct Assumed;
    pub struct Failed(pub u32);
    pub fn byte() -> u8 {
        R.with(|r| {
            let mut r = r.borrow_mut();
            let p = r.pos;
            r.pos += 1;
            r.inp.get(p).copied().unwrap_or(0)
        })
    }
    pub fn pick(n: usize) -> usize {
        let b = byte() as usize;
        assume(b < n);
        b
    }
    pub fn assume(c: bool) {
        if !c {
            std::panic::panic_any(Assumed)
        }
    }
    pub fn check(c: bool, id: u32) {
        if !c {
            std::panic::panic_any(Failed(id))
        }
    }
    pub fn log(b: &[u8]) {
        R.with(|r| {
            let mut r = r.borrow_mut();
            if r.verbose {
                let s = String::from_utf8_lossy(b).into_owned();
                r.note.push(s);
            }
            r.log.extend_from_slice(b);
            r.log.push(0xff);
        })
    }
    #[allow(dead_code)]
    pub const ORDERS: u32 = 50;
    /// every hash map has an order of its own
    #[allow(dead_code)]
    pub fn order(_: u32) {}
    pub fn reach(id: u32) {
        R.with(|r| r.borrow_mut().reach.push(id))
    }
}
pub use imp::*;

#[cfg(feature = "native")]
pub mod native {
    use super::imp::*;
    use std::io::{BufRead, Write};
    use std::sync::atomic::{AtomicU64, Ordering};
    use std::sync::Arc;
    fn unhex(s: &str) -> Vec<u8> {
        (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
    }
    fn hex(b: &[u8]) -> String {
        b.iter().map(|x| format!("{x:02x}")).collect()
    }
    /// Reads lines `harness arg hexinput`; writes one result line for each.
    pub fn run(table: &'static [(&'static str, fn(u64))]) {
        let verbose = std::env::args().any(|a| a == "-v");
        let lines: Vec<String> = std::io::stdin().lock().lines().map(|l| l.unwrap()).collect();
        let done = Arc::new(AtomicU64::new(0));
        let d2 = done.clone();
        std::panic::set_hook(Box::new(|i| {
            let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or(i.payload().downcast_ref::<String>().cloned());
            if let Some(m) = m {
                let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
                R.with(|r| r.borrow_mut().note.push(format!("panicked at {l}: {m}")));
            }
        }));
        let h = std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                let out = std::io::stdout();
                for l in &lines {
                    let mut p = l.split(' ');
                    let name = p.next().unwrap();
                    let arg: u64 = p.next().unwrap().parse().unwrap();
                    let inp = unhex(p.next().unwrap_or(""));
                    let f = table.iter().find(|t| t.0 == name).expect("harness").1;
                    R.with(|r| *r.borrow_mut() = Rec { inp, verbose, ..Rec::default() });
                    let res = std::panic::catch_unwind(|| table_call(f, arg));
                    let (log, reach, note) = R.with(|r| {
                        let r = r.borrow();
                        (r.log.clone(), r.reach.clone(), r.note.clone())
                    });
                    let s = match res {
                        Ok(()) => "ok".to_string(),
                        Err(e) => {
                            if e.downcast_ref::<Assumed>().is_some() {
                                "assume".to_string()
                            } else if let Some(f) = e.downcast_ref::<Failed>() {
                                format!("assert:{}", f.0)
                            } else {
                                "panic".to_string()
                            }
                        }
                    };
                    let _ = reach;
                    let note: String = note.iter().map(|n| format!(" {n:?}")).collect();
                    let mut o = out.lock();
                    let _ = writeln!(o, "{s} {}{}", if log.is_empty() { "-".into() } else { hex(&log) }, note);
                    let _ = o.flush();
                    d2.fetch_add(1, Ordering::SeqCst);
                }
            })
            .unwrap();
        let mut last = u64::MAX;
        let mut t = 0;
        while !h.is_finished() {
            std::thread::sleep(std::time::Duration::from_millis(20));
            let n = done.load(Ordering::SeqCst);
            if n == last {
                t += 1;
                if t > 750 {
                    println!("hang -");
                    std::process::exit(9);
                }
            } else {
                last = n;
                t = 0;
            }
        }
        h.join().unwrap();
    }
    fn table_call(f: fn(u64), a: u64) {
        f(a)
    }
}
