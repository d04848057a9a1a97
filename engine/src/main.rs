mod exec;
mod expr;
mod ir;
mod mem;
mod selftest;
mod solver;

use exec::*;
use std::collections::BTreeMap;
use std::collections::BTreeSet;
use std::fmt::Write as _;
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn alarm(s: u32) -> u32;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hexs(s: &str) -> String {
    let mut o = String::from("x");
    for b in s.bytes() {
        let _ = write!(o, "{:02x}", b);
    }
    o
}
fn unhex(s: &str) -> String {
    let b: Vec<u8> = (0..(s.len() - 1) / 2).map(|i| u8::from_str_radix(&s[1 + 2 * i..3 + 2 * i], 16).unwrap()).collect();
    String::from_utf8_lossy(&b).into_owned()
}
fn nums(v: &[u64]) -> String {
    let s: Vec<String> = v.iter().map(|x| x.to_string()).collect();
    format!("[{}]", s.join(","))
}
fn unnums(s: &str) -> Vec<u64> {
    let s = &s[1..s.len() - 1];
    if s.is_empty() {
        vec![]
    } else {
        s.split(',').map(|x| x.parse().unwrap()).collect()
    }
}

#[derive(Default)]
struct Total {
    c: BTreeMap<String, u64>,
    errs: BTreeMap<(String, String, String), (u64, ErrRec)>,
    samples: Vec<PathRec>,
    reach: BTreeMap<String, (u64, Vec<u64>)>,
    funcs: BTreeSet<String>,
    sites: BTreeMap<String, u64>,
}

impl Total {
    fn add(&mut self, k: &str, v: u64) {
        if k.starts_with("max_") {
            let e = self.c.entry(k.to_string()).or_default();
            *e = (*e).max(v);
        } else {
            *self.c.entry(k.to_string()).or_default() += v;
        }
    }
    fn merge_text(&mut self, t: &str) {
        for l in t.lines() {
            let p: Vec<&str> = l.split(' ').collect();
            match p[0] {
                "C" => self.add(p[1], p[2].parse().unwrap()),
                "E" => {
                    let (k, w, s) = (unhex(p[1]), unhex(p[2]), unhex(p[3]));
                    let n: u64 = p[4].parse().unwrap();
                    let r = ErrRec {
                        kind: k.clone(),
                        what: w.clone(),
                        site: s.clone(),
                        inputs: unnums(p[5]),
                        trace: p[6..].iter().map(|x| unhex(x)).collect(),
                    };
                    let e = self.errs.entry((k, w, s)).or_insert((0, r));
                    e.0 += n;
                }
                "S" => self.samples.push(PathRec { inputs: unnums(p[1]), obs: unnums(p[2]) }),
                "R" => {
                    let e = self.reach.entry(unhex(p[1])).or_insert((0, unnums(p[3])));
                    e.0 += p[2].parse::<u64>().unwrap();
                }
                "F" => {
                    self.funcs.insert(unhex(p[1]));
                }
                "T" => *self.sites.entry(unhex(p[1])).or_default() += p[2].parse::<u64>().unwrap(),
                _ => {}
            }
        }
    }
}

/// a worker does not outlive the deadline by much
fn arm(x: &Exec) {
    if let Some(d) = x.deadline {
        let left = d.saturating_duration_since(std::time::Instant::now()).as_secs();
        unsafe { alarm(left as u32 + 20) };
    }
}
fn dump(x: &Exec) -> String {
    let mut o = String::new();
    let st = &x.sol.stats;
    for (k, v) in [
        ("paths", x.paths),
        ("dead", x.dead),
        ("forks", x.forks),
        ("steps", x.steps),
        ("concretizations", x.concretized),
        ("asserts", x.asserts),
        ("asserts_folded", x.asserts_const),
        ("asserts_solver", x.asserts_solver),
        ("unknowns", x.unknowns),
        ("queries", st.asked),
        ("queries_z3", st.z3),
        ("queries_cached", st.cached),
        ("queries_folded", st.folded),
        ("sat", st.sat),
        ("unsat", st.unsat),
        ("unknown", st.unknown),
        ("solver_us", st.time_us),
        ("max_query_us", st.max_us),
        ("max_depth", x.max_depth as u64),
        ("max_pc", x.max_pc as u64),
        ("timed_out", x.timed_out as u64),
        ("max_nodes", x.x.nodes.len() as u64),
    ] {
        let _ = writeln!(o, "C {} {}", k, v);
    }
    for ((k, w, s), (n, r)) in &x.errs {
        let _ = write!(o, "E {} {} {} {} {}", hexs(k), hexs(w), hexs(s), n, nums(&r.inputs));
        for t in &r.trace {
            let _ = write!(o, " {}", hexs(t));
        }
        o.push('\n');
    }
    for s in &x.samples {
        let _ = writeln!(o, "S {} {}", nums(&s.inputs), nums(&s.obs));
    }
    for (k, (n, i)) in &x.reach {
        let _ = writeln!(o, "R {} {} {}", hexs(k), n, nums(i));
    }
    for f in &x.funcs_seen {
        let _ = writeln!(o, "F {}", hexs(&short_name(&x.m.funcs[*f as usize].name)));
    }
    for (k, n) in &x.fork_sites {
        let _ = writeln!(o, "T {} {}", hexs(k), n);
    }
    o
}

fn clear(x: &mut Exec) {
    x.paths = 0;
    x.dead = 0;
    x.forks = 0;
    x.steps = 0;
    x.concretized = 0;
    x.asserts = 0;
    x.asserts_const = 0;
    x.asserts_solver = 0;
    x.unknowns = 0;
    x.sol.stats = Default::default();
    x.errs.clear();
    x.samples.clear();
    x.reach.clear();
    x.funcs_seen.clear();
    x.fork_sites.clear();
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1] == "--selftest" {
        selftest::run(args.get(2).and_then(|s| s.parse().ok()).unwrap_or(20000));
        return;
    }
    let mut ir = String::new();
    let mut entry = String::new();
    let mut params: Vec<u64> = Vec::new();
    let mut jobs = 8usize;
    let mut out = String::new();
    let mut time = 600u64;
    let mut frontier = 600usize;
    let mut samples = 64usize;
    let mut steps = 300_000_000u64;
    let mut dumpdir: Option<String> = None;
    let mut verbose = false;
    let mut max_errs = 40usize;
    let mut i = 1;
    while i < args.len() {
        let a = args[i].as_str();
        let mut nx = || {
            i += 1;
            args[i].clone()
        };
        match a {
            "--entry" => entry = nx(),
            "--params" => params = nx().split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect(),
            "--jobs" => jobs = nx().parse().unwrap(),
            "--out" => out = nx(),
            "--time" => time = nx().parse().unwrap(),
            "--frontier" => frontier = nx().parse().unwrap(),
            "--samples" => samples = nx().parse().unwrap(),
            "--steps" => steps = nx().parse().unwrap(),
            "--max-errs" => max_errs = nx().parse().unwrap(),
            "--dump" => dumpdir = Some(nx()),
            "-v" => verbose = true,
            _ => ir = a.to_string(),
        }
        i += 1;
    }
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&ir).expect("ir");
    let m = ir::Module::parse(text);
    let t_parse = t0.elapsed();
    let mut x = Exec::new(&m);
    x.params = params.clone();
    x.max_steps = steps;
    x.deadline = Some(t0 + Duration::from_secs(time));
    if let Some(d) = &dumpdir {
        x.sol.dump = Some(d.into());
        x.sol.max_dump = 200;
    }
    let st = x.initial(&entry);
    let mut total = Total::default();
    // breadth first up to a frontier
    x.work.push_back(st);
    x.max_samples = samples;
    while let Some(s) = x.work.pop_front() {
        let late = t0.elapsed() > t_parse + std::time::Duration::from_secs(2);
        if (x.work.len() + 1 >= frontier || late && x.work.len() >= 2 * jobs) && jobs > 1 || x.timed_out {
            x.work.push_front(s);
            break;
        }
        if let Some(s) = x.run(s, true) {
            x.work.push_back(s);
        }
    }
    let t_bfs = t0.elapsed();
    total.merge_text(&dump(&x));
    let mut pending = 0u64;
    if !x.work.is_empty() {
        clear(&mut x);
        let mut states: Vec<Option<State>> = x.work.drain(..).map(Some).collect();
        let n = states.len();
        use std::sync::atomic::Ordering::SeqCst;
        let shared = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) } as *const std::sync::atomic::AtomicUsize;
        let ctr = unsafe { &*shared };
        let errc = unsafe { &*shared.add(1) };
        let live = unsafe { &*shared.add(2) };
        let dir = std::env::temp_dir().join(format!("symex.{}", std::process::id()));
        std::fs::create_dir_all(&dir).unwrap();
        x.max_samples = (samples / jobs).max(4);
        // workers which split become children of this process when their parent ends
        unsafe { prctl(36, 1, 0, 0, 0) };
        let mut broken = false;
        loop {
            while live.load(SeqCst) < jobs && ctr.load(SeqCst) < n && !broken {
                live.fetch_add(1, SeqCst);
                let pid = unsafe { fork() };
                if pid < 0 {
                    live.fetch_sub(1, SeqCst);
                    broken = true;
                    total.add("worker_died", 1);
                }
                if pid == 0 {
                    arm(&x);
                    'outer: loop {
                        while let Some(s) = x.work.pop_back() {
                            let had = x.errs.len();
                            if let Some(s) = x.run(s, false) {
                                x.work.push_back(s);
                                break 'outer;
                            }
                            if x.errs.len() > had {
                                errc.fetch_add(x.errs.len() - had, SeqCst);
                            }
                            if errc.load(SeqCst) > max_errs * 8 {
                                x.timed_out = true;
                                break 'outer;
                            }
                            // give half of the work to a new process when a slot is free
                            if x.work.len() >= 2 && ctr.load(SeqCst) >= n && live.load(SeqCst) < jobs {
                                if live.fetch_add(1, SeqCst) < jobs {
                                    let pid = unsafe { fork() };
                                    if pid < 0 {
                                        live.fetch_sub(1, SeqCst);
                                    } else {
                                        // alternate items, so that both get old (large) ones
                                        let all: Vec<State> = x.work.drain(..).collect();
                                        for (i, s) in all.into_iter().enumerate() {
                                            if (i % 2 == 0) == (pid == 0) {
                                                x.work.push_back(s);
                                            }
                                        }
                                        if pid == 0 {
                                            arm(&x);
                                            clear(&mut x);
                                        }
                                    }
                                } else {
                                    live.fetch_sub(1, SeqCst);
                                }
                            }
                        }
                        if x.timed_out || x.x.nodes.len() > 12_000_000 {
                            break;
                        }
                        let k = ctr.fetch_add(1, SeqCst);
                        if k >= n {
                            break;
                        }
                        let s = states[k].take().unwrap();
                        x.work.push_back(s);
                    }
                    let mut t = dump(&x);
                    let _ = writeln!(t, "C pending {}", x.work.len());
                    std::fs::write(dir.join(format!("w{}", std::process::id())), t).unwrap();
                    live.fetch_sub(1, SeqCst);
                    unsafe { _exit(0) };
                }
            }
            let mut stt = 0i32;
            let pid = unsafe { waitpid(-1, &mut stt, 0) };
            if pid < 0 {
                if live.load(SeqCst) < jobs && ctr.load(SeqCst) < n && !broken {
                    continue;
                }
                break;
            }
            match std::fs::read_to_string(dir.join(format!("w{}", pid))) {
                Ok(t) => total.merge_text(&t),
                Err(_) => {
                    eprintln!("symex: worker {} died (status {:x})", pid, stt);
                    live.fetch_sub(1, SeqCst);
                    total.add("worker_died", 1);
                    broken = true;
                }
            }
        }
        let done = ctr.load(std::sync::atomic::Ordering::SeqCst).min(n);
        pending += (n - done) as u64;
        let _ = std::fs::remove_dir_all(&dir);
    }
    total.add("pending", pending);
    let complete = total.c.get("pending").copied().unwrap_or(0) == 0
        && total.c.get("timed_out").copied().unwrap_or(0) == 0
        && total.c.get("worker_died").copied().unwrap_or(0) == 0
        && total.c.get("unknowns").copied().unwrap_or(0) == 0;
    let mut o = String::from("{\n");
    let _ = writeln!(o, " \"entry\": {}, \"params\": {},", esc(&entry), nums(&params));
    let _ = writeln!(o, " \"complete\": {},", complete);
    let _ = writeln!(o, " \"parse_s\": {:.2}, \"bfs_s\": {:.2}, \"wall_s\": {:.2},", t_parse.as_secs_f64(), t_bfs.as_secs_f64(), t0.elapsed().as_secs_f64());
    for (k, v) in &total.c {
        let _ = writeln!(o, " {}: {},", esc(k), v);
    }
    o.push_str(" \"errors\": [\n");
    let mut first = true;
    for ((k, w, s), (n, r)) in &total.errs {
        if !first {
            o.push_str(",\n");
        }
        first = false;
        let tr: Vec<String> = r.trace.iter().map(|t| esc(t)).collect();
        let _ = write!(o, "  {{\"kind\": {}, \"what\": {}, \"site\": {}, \"count\": {}, \"inputs\": {}, \"trace\": [{}]}}", esc(k), esc(w), esc(s), n, nums(&r.inputs), tr.join(", "));
    }
    o.push_str("\n ],\n \"samples\": [\n");
    for (i, s) in total.samples.iter().enumerate() {
        let _ = write!(o, "{}  {{\"inputs\": {}, \"obs\": {}}}", if i > 0 { ",\n" } else { "" }, nums(&s.inputs), nums(&s.obs));
    }
    o.push_str("\n ],\n \"reach\": {");
    for (i, (k, (n, v))) in total.reach.iter().enumerate() {
        let _ = write!(o, "{}{}: {{\"count\": {}, \"inputs\": {}}}", if i > 0 { ", " } else { "" }, esc(k), n, nums(v));
    }
    o.push_str("},\n \"functions\": [");
    for (i, f) in total.funcs.iter().enumerate() {
        let _ = write!(o, "{}{}", if i > 0 { ", " } else { "" }, esc(f));
    }
    o.push_str("],\n \"fork_sites\": {");
    let mut sites: Vec<_> = total.sites.iter().collect();
    sites.sort_by_key(|s| std::cmp::Reverse(*s.1));
    for (i, (k, n)) in sites.iter().take(30).enumerate() {
        let _ = write!(o, "{}{}: {}", if i > 0 { ", " } else { "" }, esc(k), n);
    }
    o.push_str("}\n}\n");
    if out.is_empty() {
        print!("{}", o);
    } else {
        std::fs::write(&out, &o).unwrap();
    }
    if verbose {
        eprintln!(
            "{} {:?}: complete={} paths={} errs={} z3={} ({:.1}s) steps={} wall={:.1}s",
            entry,
            params,
            complete,
            total.c["paths"],
            total.errs.len(),
            total.c["queries_z3"],
            total.c["solver_us"] as f64 / 1e6,
            total.c["steps"],
            t0.elapsed().as_secs_f64()
        );
    }
    // skip the destructors
    unsafe { _exit(0) };
}
