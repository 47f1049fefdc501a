mod exec; mod expr; mod ir; mod mem; mod z3;
use exec::*;
use std::collections::BTreeMap;
use std::io::Write;
use std::time::{Duration, Instant};
extern "C" {
    fn fork() -> i32; fn waitpid(p: i32, s: *mut i32, o: i32) -> i32; fn pipe(f: *mut i32) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn read(fd: i32, b: *mut u8, n: usize) -> isize; fn write(fd: i32, b: *const u8, n: usize) -> isize; fn close(fd: i32) -> i32; fn _exit(c: i32) -> !;
}
fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"'); o
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let num = |k: &str, d: u64| get(k).map(|s| s.parse().unwrap()).unwrap_or(d);
    let ll = get("--ll").expect("--ll");
    let entry = get("--entry").expect("--entry");
    let out = get("--out");
    let jobs = num("--jobs", 1) as usize;
    let t0 = Instant::now();
    let m = ir::Module::load(&ll);
    let tload = t0.elapsed().as_secs_f64();
    let concrete = get("--input").map(|p| std::fs::read_to_string(p).unwrap().lines().filter_map(|l| {
        let mut w = l.split_whitespace();
        match w.next() { Some("b") => { let h = w.next().unwrap_or(""); Some(Ev0::B((0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect())) } Some("c") => { w.next(); Some(Ev0::C(w.next().unwrap().parse().unwrap())) } _ => None }
    }).collect::<Vec<_>>());
    let cfg = Cfg { max_steps: num("--max-steps", 30_000_000), witness_every: num("--witness-every", 50), verbose: a.iter().any(|x| x == "-v"), max_viol: num("--max-viol", 12) as usize, concrete, trace: a.iter().any(|x| x == "--trace") };
    let mut ex = Exec::new(m, cfg, num("--solver-timeout-ms", 20000) as u32);
    let Some(st) = ex.initial(&entry) else { eprintln!("no entry {}", entry); std::process::exit(3) };
    let limit = num("--time-limit", 600);
    let deadline = Instant::now() + Duration::from_secs(limit);
    // with --after-violation SECONDS: how long to go on after the first one
    // (milliseconds since t0; shared by all workers)
    if let Some(secs) = get("--after-violation") {
        let p = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) } as *const std::sync::atomic::AtomicU64;
        ex.stop = Some((unsafe { &*p }, secs.parse().unwrap(), t0));
    }
    ex.work.push(st);
    let mut parts: Vec<String> = vec![];
    if jobs > 1 {
        ex.explore(Some(deadline), Some(jobs * num("--split", 24) as usize));
        let n = ex.work.len();
        if n > 0 {
            let mut fds = [0i32; 2];
            unsafe { pipe(fds.as_mut_ptr()) };
            // pipe capacity is 64 KiB: at most 16384 indices
            for i in 0..n as u32 { unsafe { write(fds[1], i.to_le_bytes().as_ptr(), 4) }; }
            unsafe { close(fds[1]) };
            let tmp = format!("{}.part", out.clone().unwrap_or(format!("/tmp/symex.{}", std::process::id())));
            let mut kids = vec![];
            std::io::stdout().flush().unwrap();
            for j in 0..jobs {
                let pid = unsafe { fork() };
                if pid == 0 {
                    let states = std::mem::take(&mut ex.work);
                    let mut states: Vec<Option<State>> = states.into_iter().map(Some).collect();
                    let base = ex.found.len();
                    ex.pre_explore_reset();
                    let (zq, zs) = (ex.z.queries, ex.z.secs); let (zsat, zun, zuk) = (ex.z.sat, ex.z.unsat, ex.z.unknown);
                    ex.errors.clear(); ex.reach.clear(); ex.witnesses.clear(); ex.fork_sites.clear();
                    for f in &ex.m.funcs { f.visits.set(0); }
                    loop {
                        let mut b = [0u8; 4];
                        if unsafe { read(fds[0], b.as_mut_ptr(), 4) } != 4 { break; }
                        let i = u32::from_le_bytes(b) as usize;
                        ex.work.push(states[i].take().unwrap());
                        ex.explore(Some(deadline), None);
                        if ex.found.len() >= ex.cfg.max_viol { break; }
                    }
                    ex.found.drain(..base);
                    ex.z.queries -= zq; ex.z.secs -= zs; ex.z.sat -= zsat; ex.z.unsat -= zun; ex.z.unknown -= zuk;
                    std::fs::write(format!("{}{}", tmp, j), dump(&ex)).unwrap();
                    unsafe { _exit(0) };
                }
                kids.push((pid, j));
            }
            unsafe { close(fds[0]) };
            for (pid, j) in kids {
                let mut s = 0;
                unsafe { waitpid(pid, &mut s, 0) };
                let f = format!("{}{}", tmp, j);
                match std::fs::read_to_string(&f) { Ok(t) => parts.push(t), Err(_) => { ex.errors.entry(format!("worker died with status {}", s)).or_insert((0, String::new())).0 += 1; } }
                let _ = std::fs::remove_file(&f);
            }
        }
    } else { ex.explore(Some(deadline), None); }
    parts.insert(0, dump(&ex));
    // merge: simple line protocol
    let mut sums: BTreeMap<String, f64> = BTreeMap::new();
    let (mut errs, mut reach, mut fns, mut sites) = (BTreeMap::<String, (u64, String)>::new(), BTreeMap::<String, u64>::new(), BTreeMap::<String, u64>::new(), BTreeMap::<String, u64>::new());
    let (mut viol, mut wit) = (vec![], vec![]);
    for p in &parts { for l in p.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        match f[0] {
            "S" => { let v: f64 = f[2].parse().unwrap(); let e = sums.entry(f[1].into()).or_insert(0.0); if f[1].starts_with("max_") { *e = e.max(v) } else { *e += v } }
            "E" => { let e = errs.entry(f[1].into()).or_insert((0, f[3].into())); e.0 += f[2].parse::<u64>().unwrap(); }
            "R" => *reach.entry(f[1].into()).or_insert(0) += f[2].parse::<u64>().unwrap(),
            "F" => *fns.entry(f[1].into()).or_insert(0) += f[2].parse::<u64>().unwrap(),
            "K" => *sites.entry(f[1].into()).or_insert(0) += f[2].parse::<u64>().unwrap(),
            "V" => viol.push(f[1..].join("\t")),
            "W" => wit.push(f[1..].join("\t")),
            _ => {}
        }
    } }
    let unq = |s: &str| s.replace("\\t", "\t").replace("\\n", "\n");
    let mut j = String::from("{\n");
    j.push_str(&format!(" \"entry\": {}, \"solver\": {}, \"load_seconds\": {:.3}, \"seconds\": {:.3}, \"rss_kb\": 0,\n", esc(&entry), esc(&z3::Z3::version()), tload, t0.elapsed().as_secs_f64()));
    j.push_str(" \"stats\": {"); j.push_str(&sums.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", ")); j.push_str("},\n");
    j.push_str(" \"reach\": {"); j.push_str(&reach.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", ")); j.push_str("},\n");
    j.push_str(" \"errors\": {"); j.push_str(&errs.iter().map(|(k, v)| format!("{}: [{}, {}]", esc(k), v.0, esc(&unq(&v.1)))).collect::<Vec<_>>().join(", ")); j.push_str("},\n");
    j.push_str(" \"functions\": {"); j.push_str(&fns.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", ")); j.push_str("},\n");
    let mut sv: Vec<_> = sites.into_iter().collect(); sv.sort_by_key(|x| std::cmp::Reverse(x.1)); sv.truncate(12);
    j.push_str(" \"fork_sites\": {"); j.push_str(&sv.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", ")); j.push_str("},\n");
    j.push_str(" \"violations\": ["); j.push_str(&viol.iter().map(|v| { let f: Vec<String> = v.split('\t').map(|s| unq(s)).collect(); format!("{{\"kind\": {}, \"key\": {}, \"msg\": {}, \"trace\": {}, \"inputs\": {}}}", esc(&f[0]), esc(&f[1]), esc(&f[2]), esc(&f[3]), esc(&f[4])) }).collect::<Vec<_>>().join(",\n  ")); j.push_str("],\n");
    j.push_str(" \"witnesses\": ["); j.push_str(&wit.iter().map(|v| { let f: Vec<String> = v.split('\t').map(|s| unq(s)).collect(); format!("{{\"inputs\": {}, \"obs\": {}}}", esc(&f[0]), esc(&f[1])) }).collect::<Vec<_>>().join(",\n  ")); j.push_str("]\n}\n");
    match out { Some(p) => std::fs::write(p, j).unwrap(), None => print!("{}", j) }
}
fn q(s: &str) -> String { s.replace('\t', "\\t").replace('\n', "\\n") }
fn dump(ex: &Exec) -> String {
    let s = &ex.st;
    let mut o = String::new();
    for (k, v) in [("paths", s.paths), ("infeasible", s.infeasible), ("instructions", s.instrs), ("forks", s.forks), ("domain_decisions", s.dom_decisions), ("model_decisions", s.model_decisions), ("fast_sat", s.fast_sat),
        ("asserts", s.asserts), ("asserts_solver", s.asserts_solver), ("asserts_concrete", s.asserts_concrete), ("crosschecks", s.crosschecks), ("path_checks", s.path_checks), ("symbolic_branches", s.branches_sym), ("max_depth", s.maxdepth as u64), ("abandoned", s.killed_time),
        ("solver_queries", ex.z.queries), ("solver_sat", ex.z.sat), ("solver_unsat", ex.z.unsat), ("solver_unknown", ex.z.unknown), ("expr_nodes", ex.p.nodes.len() as u64)] { o.push_str(&format!("S\t{}\t{}\n", k, v)); }
    o.push_str(&format!("S\tsolver_seconds\t{:.4}\nS\tmax_query_seconds\t{:.4}\n", ex.z.secs, ex.z.slowest));
    for (k, (n, w)) in &ex.errors { o.push_str(&format!("E\t{}\t{}\t{}\n", q(k), n, q(w))); }
    for (k, n) in &ex.reach { o.push_str(&format!("R\t{}\t{}\n", k, n)); }
    for f in &ex.m.funcs { if f.visits.get() > 0 { o.push_str(&format!("F\t{}\t{}\n", demangle(&f.name), f.visits.get())); } }
    for (k, n) in &ex.fork_sites { let b = ex.m.body(k.0).unwrap(); o.push_str(&format!("K\t{}:{}\t{}\n", demangle(&ex.m.funcs[k.0].name), b.blocks[k.1 as usize].name, n)); }
    for v in &ex.found { o.push_str(&format!("V\t{}\t{}\t{}\t{}\t{}\n", v.kind, q(&v.key), q(&v.msg), q(&v.trace.join(" < ")), q(&v.inputs))); }
    for (i, w) in &ex.witnesses { o.push_str(&format!("W\t{}\t{}\n", q(i), w.join(" "))); }
    o
}
