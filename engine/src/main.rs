//! Symbolic executor driver: explores the harness jobs of a whole-program LLVM IR file.
//!
//!   symex --ir FILE.ll --jobs FILE --out FILE [--threads N] [--secs S] [--query-ms N] [--dump DIR]
//!
//! A job line is `name a b c secs max_paths max_insts [lo hi]`; the engine explores
//! `verif_main(a, b, c)` and writes one JSON object per job plus a final summary.  With `lo hi`
//! the first symbolic byte is restricted to that range (one slice of a larger job).
mod exec;
mod expr;
mod ir;
mod val;
mod z3;
use exec::{Cfg, Engine, Stop};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        let _ = write!(s, "{:02x}", x);
    }
    s
}
struct Job {
    name: String,
    a: [u64; 3],
    secs: f64,
    max_paths: u64,
    max_insts: u64,
    first: (u64, u64),
}

fn main() {
    let mut ir = String::new();
    let mut jobs = String::new();
    let mut out = String::new();
    let mut threads = 8usize;
    let mut total_secs = 1e9f64;
    let mut qms = 10000u32;
    let mut dump: Option<String> = None;
    let mut samples = 6usize;
    let mut verbose = false;
    let mut show: Option<String> = None;
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        let mut v = || it.next().expect("argument value");
        match a.as_str() {
            "--ir" => ir = v(),
            "--jobs" => jobs = v(),
            "--out" => out = v(),
            "--threads" => threads = v().parse().unwrap(),
            "--secs" => total_secs = v().parse().unwrap(),
            "--query-ms" => qms = v().parse().unwrap(),
            "--samples" => samples = v().parse().unwrap(),
            "--dump" => dump = Some(v()),
            "--show" => show = Some(v()),
            "-v" => verbose = true,
            _ => panic!("unknown argument {}", a),
        }
    }
    let m = ir::Module::load(&ir);
    if let Some(f) = show {
        for (n, s) in &m.sym_id {
            if n.contains(&f) && m.defs.contains_key(s) {
                let f = m.parse_func(*s).unwrap();
                println!("{} regs {}", n, f.nregs);
                for (i, b) in f.blocks.iter().enumerate() {
                    println!(" bb{}", i);
                    for p in &b.phis {
                        println!("   phi {:?}", p);
                    }
                    for i in &b.insts {
                        println!("   r{} = {:?}", i.dst as i32, i.k);
                    }
                }
            }
        }
        return;
    }
    let list: Vec<Job> = std::fs::read_to_string(&jobs)
        .expect("job list")
        .lines()
        .filter(|l| !l.trim().is_empty())
        .map(|l| {
            let f: Vec<&str> = l.split_whitespace().collect();
            Job {
                name: f[0].into(),
                a: [f[1].parse().unwrap(), f[2].parse().unwrap(), f[3].parse().unwrap()],
                secs: f[4].parse().unwrap(),
                max_paths: f[5].parse().unwrap(),
                max_insts: f[6].parse().unwrap(),
                first: if f.len() > 8 { (f[7].parse().unwrap(), f[8].parse().unwrap()) } else { (0, 255) },
            }
        })
        .collect();
    let next = AtomicUsize::new(0);
    let file = Mutex::new(std::fs::File::create(&out).expect("output file"));
    let functions: Mutex<BTreeSet<String>> = Mutex::new(BTreeSet::new());
    let t0 = std::time::Instant::now();
    std::thread::scope(|sc| {
        for tid in 0..threads {
            let (next, file, list, functions, m, dump) = (&next, &file, &list, &functions, &m, &dump);
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(sc, move || {
                    let cfg = || Cfg { max_depth: 4000, max_insts: 200_000_000, max_alloc: 32 << 20, max_enum: 400, max_paths: 1 << 40, max_secs: 1e9, first: (0, 255) };
                    let mut e = Engine::new(m, cfg(), qms);
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= list.len() {
                            break;
                        }
                        let j = &list[i];
                        let left = total_secs - t0.elapsed().as_secs_f64();
                        e.reset(cfg());
                        e.cfg.max_insts = j.max_insts;
                        e.cfg.max_paths = j.max_paths;
                        e.cfg.max_secs = j.secs.min(left);
                        e.cfg.first = j.first;
                        if let Some(d) = dump {
                            e.sol.dump = Some((d.into(), 97, (tid * 1_000_000) as u64));
                        }
                        let (q0, u0, s0, z0) = (e.sol.queries, e.sol.unsat, e.sol.sat, e.sol.time);
                        let st0 = e.st.clone();
                        let jt = std::time::Instant::now();
                        let mut ends: Vec<String> = vec![];
                        let mut counts: BTreeMap<String, u64> = BTreeMap::new();
                        let mut complete = false;
                        if left > 0.0 {
                            let init = e.initial("verif_main", &j.a);
                            complete = e.explore(init, &mut |_e, _st, p| {
                                let (kind, msg) = match &p.stop {
                                    Stop::Done => ("done", String::new()),
                                    Stop::AssumeFalse => ("assume", String::new()),
                                    Stop::Fail(c) => ("fail", c.to_string()),
                                    Stop::Panic(s) => ("panic", s.clone()),
                                    Stop::BigAlloc(s) => ("bigalloc", s.clone()),
                                    Stop::Depth => ("depth", String::new()),
                                    Stop::Budget => ("budget", String::new()),
                                    Stop::Engine(s) => ("engine", s.clone()),
                                    Stop::Deadlock => ("deadlock", String::new()),
                                    Stop::Race(s) => ("race", s.clone()),
                                };
                                let key = if kind == "done" { "done".to_string() } else { format!("{} {}", kind, msg) };
                                let n = counts.entry(key).or_insert(0);
                                *n += 1;
                                // keep path ends at growing distances
                                let keep = *n <= samples as u64 || (*n & (*n - 1)) == 0;
                                if keep {
                                    let stack: Vec<String> = p.stack.iter().take(12).map(|s| esc(s)).collect();
                                    let notes: Vec<String> = p.notes.iter().map(|x| (*x as u64).to_string()).collect();
                                    ends.push(format!(
                                        "{{\"stop\":\"{}\",\"msg\":{},\"input\":\"{}\",\"notes\":[{}],\"stack\":[{}],\"insts\":{},\"live\":{},\"depth\":{}}}",
                                        kind,
                                        esc(&msg),
                                        hex(&p.input),
                                        notes.join(","),
                                        if kind == "done" { String::new() } else { stack.join(",") },
                                        p.insts,
                                        p.live,
                                        p.max_depth
                                    ));
                                }
                            });
                        }
                        let dt = jt.elapsed().as_secs_f64();
                        let cov: Vec<String> = e.covers.iter().map(|(k, v)| format!("\"{}\":\"{}\"", k, hex(v))).collect();
                        let cnt: Vec<String> = counts.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
                        let line = format!(
                            "{{\"job\":{},\"args\":[{},{},{}],\"first\":[{},{}],\"complete\":{},\"secs\":{:.3},\"paths\":{},\"forks\":{},\"insts\":{},\"symbranches\":{},\"cache_hits\":{},\"queries\":{},\"unsat\":{},\"sat\":{},\"unknown\":{},\"solver_s\":{:.3},\"nvars\":{},\"covers\":{{{}}},\"counts\":{{{}}},\"ends\":[{}]}}\n",
                            esc(&j.name), j.a[0], j.a[1], j.a[2], j.first.0, j.first.1, complete, dt,
                            e.st.paths - st0.paths, e.st.forks - st0.forks, e.st.insts - st0.insts,
                            e.st.branches_sym - st0.branches_sym, e.st.cache_hits - st0.cache_hits,
                            e.sol.queries - q0, e.sol.unsat - u0, e.sol.sat - s0, e.unknown,
                            (e.sol.time - z0).as_secs_f64(), e.maxvars,
                            cov.join(","), cnt.join(","), ends.join(",")
                        );
                        if verbose {
                            eprintln!("[{:7.2}] {:<28} {:?} {:.2}s paths {} q {} {} {:?}", t0.elapsed().as_secs_f64(), j.name, j.a, dt, e.st.paths - st0.paths, e.sol.queries - q0, if complete { "" } else { "INCOMPLETE" }, counts);
                        }
                        file.lock().unwrap().write_all(line.as_bytes()).unwrap();
                    }
                    let mut f = functions.lock().unwrap();
                    for s in &e.seen {
                        f.insert(m.syms[*s as usize].clone());
                    }
                })
                .unwrap();
        }
    });
    let f = functions.lock().unwrap();
    let fs: Vec<String> = f.iter().map(|s| esc(s)).collect();
    let line = format!("{{\"summary\":true,\"wall\":{:.3},\"functions\":[{}]}}\n", t0.elapsed().as_secs_f64(), fs.join(","));
    file.lock().unwrap().write_all(line.as_bytes()).unwrap();
}
