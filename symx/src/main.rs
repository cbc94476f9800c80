mod exec;
mod expr;
mod fx;
mod ir;
mod z3;
use exec::*;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicUsize};
use std::sync::Mutex;
use std::time::{Duration, Instant};

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// symx IR.ll OUT.json [--time S] [--threads N] [--samples K] [--dump N] [--steps N] harness:arg[-arg] ...
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let t0 = Instant::now();
    let m = match ir::load(&a[1]) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("symx: cannot read IR: {e}");
            std::process::exit(3)
        }
    };
    let mut m = m;
    for f in m.funcs.iter_mut() {
        f.hook = hook_of(&f.name);
    }
    let m: &'static ir::Module = Box::leak(Box::new(m));
    let mut time = 60.0;
    let mut threads = 8;
    let mut samples = 200u64;
    let mut dump = 0usize;
    let mut steps = 30_000_000u64;
    let mut maxf = 3usize;
    let mut jobs = vec![];
    let mut i = 3;
    while i < a.len() {
        let nxt = |i: usize| a[i + 1].as_str();
        match a[i].as_str() {
            "--time" => time = nxt(i).parse::<f64>().unwrap(),
            "--threads" => threads = nxt(i).parse().unwrap(),
            "--samples" => samples = nxt(i).parse().unwrap(),
            "--dump" => dump = nxt(i).parse().unwrap(),
            "--steps" => steps = nxt(i).parse().unwrap(),
            "--maxf" => maxf = nxt(i).parse().unwrap(),
            s => {
                let (n, r) = s.split_once(':').unwrap_or((s, "0"));
                let Some(func) = m.fmap.get(n).copied() else {
                    eprintln!("symx: no harness {n}");
                    std::process::exit(3)
                };
                for part in r.split(',') {
                    let (lo, hi) = part.split_once('-').unwrap_or((part, part));
                    for arg in lo.parse::<u64>().unwrap()..=hi.parse::<u64>().unwrap() {
                        jobs.push(Job { name: n.to_string(), func, arg });
                    }
                }
                i += 1;
                continue;
            }
        }
        i += 2;
    }
    let mut gslot = vec![u32::MAX; m.globals.len()];
    let mut init_mem = vec![];
    for (i, g) in m.globals.iter().enumerate().skip(1) {
        if !g.konst {
            gslot[i] = init_mem.len() as u32;
            init_mem.push(Obj { size: g.size, data: g.data.clone(), sym: vec![] });
        }
    }
    let ext = m.exts.iter().map(|n| ext_of(n)).collect();
    let sh = Shared {
        m,
        queue: Mutex::new((0..jobs.len()).rev().map(Work::Job).collect()),
        qlen: AtomicUsize::new(jobs.len()),
        jobs,
        hungry: AtomicUsize::new(0),
        active: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        deadline: t0 + Duration::from_secs_f64(time),
        step_limit: steps,
        findings: Mutex::new(vec![]),
        samples: Mutex::new(vec![]),
        unsup: Mutex::new(BTreeMap::new()),
        max_findings: maxf,
        sample_every: samples.max(1),
        smt_dump: Mutex::new(vec![]),
        dump_max: dump,
        gslot,
        ext,
        init_mem,
    };
    let mut stats = vec![JobStat::default(); sh.jobs.len()];
    let mut ss = SolverStat::default();
    let mut funcs = BTreeMap::new();
    let mut crashed = None;
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|_| {
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(s, || {
                        let mut e = Engine::new(&sh);
                        e.work();
                        (e.js, e.ss, e.funcs)
                    })
                    .unwrap()
            })
            .collect();
        for h in hs {
            match h.join() {
                Ok((js, s2, f)) => {
                    for (x, y) in stats.iter_mut().zip(js) {
                        x.paths += y.paths;
                        x.ok += y.ok;
                        x.assumed += y.assumed;
                        x.asserts_concrete += y.asserts_concrete;
                        x.asserts_solver += y.asserts_solver;
                        x.unsup += y.unsup;
                        x.stepped += y.stepped;
                        x.covered += y.covered;
                        x.inexact += y.inexact;
                        x.dropped += y.dropped;
                        x.steps += y.steps;
                        x.forks += y.forks;
                        x.maxvars = x.maxvars.max(y.maxvars);
                        for (k, v) in y.reach {
                            *x.reach.entry(k).or_default() += v;
                        }
                    }
                    ss.queries += s2.queries;
                    ss.sat += s2.sat;
                    ss.unsat += s2.unsat;
                    ss.unknown += s2.unknown;
                    ss.nanos += s2.nanos;
                    ss.memo_hits += s2.memo_hits;
                    funcs.extend(f);
                }
                Err(e) => {
                    sh.stop.store(true, std::sync::atomic::Ordering::Relaxed);
                    crashed = Some(
                        e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default(),
                    );
                }
            }
        }
    });
    for w in sh.queue.lock().unwrap().iter() {
        if let Work::Job(j) = w {
            stats[*j].dropped += 1;
        } else {
            stats[0].dropped += 1;
        }
    }
    let mut o = String::from("{\n");
    o += &format!("\"wall_s\": {:.3},\n\"z3\": {},\n", t0.elapsed().as_secs_f64(), js(&z3::version()));
    o += &format!("\"crashed\": {},\n", crashed.as_ref().map(|s| js(s)).unwrap_or("null".into()));
    o += &format!(
        "\"solver\": {{\"queries\": {}, \"sat\": {}, \"unsat\": {}, \"unknown\": {}, \"memo_hits\": {}, \"time_s\": {:.3}}},\n",
        ss.queries,
        ss.sat,
        ss.unsat,
        ss.unknown,
        ss.memo_hits,
        ss.nanos as f64 / 1e9
    );
    o += "\"jobs\": [\n";
    for (k, (j, s)) in sh.jobs.iter().zip(&stats).enumerate() {
        let reach: Vec<String> = s.reach.iter().map(|(a, b)| format!("\"{a}\": {b}")).collect();
        o += &format!("{{\"harness\": {}, \"arg\": {}, \"paths\": {}, \"ok\": {}, \"assumed\": {}, \"asserts_concrete\": {}, \"asserts_solver\": {}, \"unsup\": {}, \"stepped\": {}, \"covered\": {}, \"inexact\": {}, \"dropped\": {}, \"steps\": {}, \"forks\": {}, \"maxvars\": {}, \"reach\": {{{}}}}}{}\n",
            js(&j.name), j.arg, s.paths, s.ok, s.assumed, s.asserts_concrete, s.asserts_solver, s.unsup, s.stepped, s.covered, s.inexact, s.dropped, s.steps, s.forks, s.maxvars, reach.join(", "),
            if k + 1 < sh.jobs.len() { "," } else { "" });
    }
    o += "],\n\"findings\": [\n";
    let f = sh.findings.lock().unwrap();
    for (k, x) in f.iter().enumerate() {
        let j = &sh.jobs[x.job];
        o += &format!(
            "{{\"harness\": {}, \"arg\": {}, \"kind\": {}, \"id\": {}, \"loc\": {}, \"input\": \"{}\"}}{}\n",
            js(&j.name),
            j.arg,
            js(&x.kind),
            x.id,
            js(&x.loc),
            hex(&x.input),
            if k + 1 < f.len() { "," } else { "" }
        );
    }
    o += "],\n\"samples\": [\n";
    let f = sh.samples.lock().unwrap();
    for (k, x) in f.iter().enumerate() {
        let j = &sh.jobs[x.job];
        o += &format!(
            "{{\"harness\": {}, \"arg\": {}, \"input\": \"{}\", \"log\": \"{}\"}}{}\n",
            js(&j.name),
            j.arg,
            hex(&x.input),
            hex(&x.log),
            if k + 1 < f.len() { "," } else { "" }
        );
    }
    o += "],\n\"unsupported\": {";
    let u = sh.unsup.lock().unwrap();
    o += &u.iter().map(|(a, b)| format!("{}: {b}", js(a))).collect::<Vec<_>>().join(", ");
    o += "},\n\"functions\": {";
    o += &funcs.iter().map(|(a, b)| format!("{}: {b}", js(a))).collect::<Vec<_>>().join(", ");
    o += "},\n\"smt\": [";
    let d = sh.smt_dump.lock().unwrap();
    o += &d.iter().map(|(a, b)| format!("[{}, {b}]", js(a))).collect::<Vec<_>>().join(", ");
    o += "]\n}\n";
    std::fs::write(&a[2], o).unwrap();
    if crashed.is_some() {
        std::process::exit(4);
    }
}
