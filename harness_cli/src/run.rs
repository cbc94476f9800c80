use crate::fs::*;
use crate::rt::*;
use crate::util::*;
use std::os::unix::ffi::OsStrExt;

const NAMES: [&[u8]; 16] = [
    b"a.css", b"b.js", b"c.json", b"sub/d.css", b"e.txt", b"f", b"g.JSON", b"h.min.js", b"./i.CSS", b"no.css", b"/sub/k.css", b"../l.js", b"m.\xff", b".css", b"sub/n.cssx", b"o.json.css",
];
const OUTS: [&str; 7] = ["", "dir", "old.css", "new", "x/y/z.js", "a.css", "b.min.js"];
const TEXTS: [&[u8]; 8] = [
    b" a , b  { c : d } ",
    b"a } b",
    b"var  a = 'b  c' ; /* d */ e ( ) ;",
    b"a\xffb",
    b"",
    b" { \"a\" : [ 1 , \"b  \" ] } ",
    b"'",
    b"\xc3",
];
fn minify(t: usize, s: &str) -> Option<String> {
    match t {
        1 => minifier::css::minify(s).ok().map(|m| m.to_string()),
        2 => minifier::js::minify(s).ok().map(|m| m.to_string()),
        _ => Some(minifier::json::minify(s).to_string()),
    }
}
const EXT: [&str; 4] = ["", "css", "js", "json"];
fn ext(p: &[u8]) -> (usize, &[u8]) {
    let b = p.iter().rposition(|&c| c == b'/').map_or(0, |i| i + 1);
    match p[b..].iter().rposition(|&c| c == b'.') {
        Some(i) if i > 0 => (b + i, &p[b + i + 1..]),
        _ => (p.len(), b""),
    }
}
fn with_ext(p: &[u8], t: usize) -> Vec<u8> {
    [&p[..ext(p).0], b".min.", EXT[t].as_bytes()].concat()
}
/// how messages show a path
fn shown(p: &[u8]) -> Vec<u8> {
    let e = p.iter().position(|&c| c >= 0x80).unwrap_or(p.len());
    p[..e].to_vec()
}
fn has(a: &[u8], b: &[u8]) -> bool {
    a.windows(b.len()).any(|w| w == b)
}
/// arg = 100 * faults + 10 * free bytes + files
pub fn cli_run(arg: u64) {
    let (files, free) = (arg as usize % 10, arg as usize / 10 % 10);
    let f = fs();
    f.reset();
    f.dir(b"sub");
    f.dir(b"dir");
    f.file(b"old.css", b"old");
    // fewer of each where there are more files
    let (nt, no, nn, nx) = match (arg / 100, files) {
        _ if free > 0 => (0, 2, 1, 0),
        (0, 1) => (4, OUTS.len(), NAMES.len(), TEXTS.len()),
        (0, 2) => (4, OUTS.len(), 4, TEXTS.len()),
        (0, _) => (3, OUTS.len(), 3, 5),
        (_, 1) => (4, OUTS.len(), 10, TEXTS.len()),
        _ => (2, 4, 3, 5),
    };
    let ty = if free > 0 { 1 + pick(3) } else { pick(nt) };
    let out = OUTS[if free > 0 { 2 * pick(no) } else { pick(no) }];
    let mut ins: Vec<&[u8]> = vec![];
    for _ in 0..files {
        let n = NAMES[pick(nn)];
        ins.push(n);
        if n != b"no.css" && f.find(&norm(n)).is_none() {
            let mut d = vec![];
            if free > 0 {
                for _ in 0..free {
                    d.push(byte());
                }
            } else {
                d = TEXTS[pick(nx)].to_vec();
            }
            f.file(&norm(n), &d);
        }
    }
    const E: [i32; 4] = [5, 13, 28, 4];
    f.fault = match arg / 100 {
        0 => Fault::None,
        1 => match pick(8) {
            0 => Fault::OpenIn(E[pick(3)]),
            1 => Fault::OpenOut(E[pick(3)]),
            2 => Fault::Read(1 + pick(3), E[pick(4)]),
            3 => Fault::Write(1 + pick(2), E[pick(4)]),
            4 => Fault::ShortRead(1 + pick(3)),
            5 => Fault::ShortWrite(1 + pick(3)),
            6 => Fault::MkDir(13),
            _ => Fault::None,
        },
        _ => Fault::None,
    };
    // what is expected
    let mut nodes = f.nodes.clone();
    let mut writes: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    let mut done = vec![];
    let mut failed = vec![];
    for n in &ins {
        let t = if ty > 0 { ty } else { EXT.iter().skip(1).position(|e| e.as_bytes().eq_ignore_ascii_case(ext(n).1)).map_or(0, |i| i + 1) };
        let get = |nodes: &Vec<Node>, p: &[u8]| nodes.iter().position(|n| n.path == norm(p));
        let text = match get(&nodes, n) {
            Some(k) if t > 0 => String::from_utf8(nodes[k].data.clone()).ok(),
            _ => None,
        };
        let Some(m) = text.and_then(|s| minify(t, &s)) else {
            failed.push(*n);
            continue;
        };
        let o = match out {
            "" => with_ext(n, t),
            "dir" => [b"dir/", &norm(&with_ext(n, t))[..]].concat(),
            o => o.as_bytes().to_vec(),
        };
        writes.push((norm(&o), m.clone().into_bytes()));
        match get(&nodes, &o) {
            Some(k) => nodes[k].data = m.into_bytes(),
            None => nodes.push(Node { path: norm(&o), dir: false, data: m.into_bytes() }),
        }
        done.push((*n, o));
    }
    // the arguments
    unsafe {
        let a = &mut *std::ptr::addr_of_mut!(clap::ARGS);
        a.clear();
        if ty > 0 {
            a.push("-t".into());
            a.push(EXT[ty].into());
        }
        for n in &ins {
            a.push(std::ffi::OsStr::from_bytes(n).into());
        }
        if out != "" {
            a.push("-o".into());
            a.push(out.into());
        }
    }
    let before = f.nodes.clone();
    f.on = true;
    crate::cli::Cli::init();
    f.on = false;
    reach(1);
    for n in &f.nodes {
        if !n.dir {
            log(&n.path);
            log(&n.data);
        }
    }
    log(&f.out);
    log(&f.err);
    check(!f.strange, 9);
    let live = |n: &&Node| !n.dir && n.path != [0];
    if !f.hit {
        // each file is as expected
        check(nodes.iter().filter(live).count() == f.nodes.iter().filter(live).count(), 1);
        for n in nodes.iter().filter(live) {
            match f.find(&n.path) {
                None => check(false, 2),
                Some(k) => check(same(&f.nodes[k].data, &n.data), 3),
            }
        }
        for n in &failed {
            reach(3);
            check(has(&f.err, &shown(n)), 4);
        }
        check(failed.is_empty() == f.err.is_empty(), 5);
        for n in &done {
            reach(2);
            check(has(&f.out, &shown(&n.1)), 6);
        }
    } else {
        reach(4);
        // every input is reported, and one that fails doesn't stop the others
        for n in &failed {
            check(has(&f.err, &shown(n)), 10);
        }
        let mut good = 0;
        for n in &done {
            let o = has(&f.out, &shown(&n.1));
            good += o as usize;
            check(o || has(&f.err, &shown(n.0)) || has(&f.err, &shown(&n.1)), 11);
        }
        check(!matches!(f.fault, Fault::Read(..) | Fault::Write(..)) || good + 1 >= done.len(), 12);
        // what failed is reported; no file changes but an output, and those hold what they held or (if the write failed) a part of the result
        check(!f.err.is_empty(), 7);
        for n in before.iter().filter(live) {
            check(f.find(&n.path).is_some(), 2);
        }
        for n in f.nodes.iter().filter(live) {
            let as_before = before.iter().any(|m| m.path == n.path && same(&m.data, &n.data));
            let as_after = writes.iter().any(|w| w.0 == n.path && same(&w.1, &n.data));
            let part = matches!(f.fault, Fault::Write(..)) && writes.iter().any(|w| w.0 == n.path && w.1.starts_with(&n.data));
            check(as_before || as_after || part, 8);
        }
    }
}
