mod exec;
mod expr;
mod fp;
mod ir;
mod mem;
mod solver;
use exec::*;
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn found_js(f: &Found) -> String {
    let (k, d) = match &f.event {
        Event::Ok => ("ok", String::new()),
        Event::Exit(c) => ("exit", c.to_string()),
        Event::Infeasible => ("infeasible", String::new()),
        Event::Fail(c) => ("fail", c.to_string()),
        Event::Panic(s) => ("panic", s.clone()),
        Event::Ub(s) => ("ub", s.clone()),
        Event::Alloc(n) => ("alloc", n.to_string()),
        Event::Hang => ("hang", String::new()),
        Event::Depth => ("depth", String::new()),
        Event::Unsupported(s) => ("unsupported", s.clone()),
    };
    format!(
        "{{\"kind\":{},\"detail\":{},\"model\":{},\"obs\":[{}],\"out\":{},\"at\":[{}]}}",
        js(k),
        js(&d),
        js(&hex(&f.model)),
        f.obs.iter().map(|x| format!("\"{:x}\"", x)).collect::<Vec<_>>().join(","),
        js(&hex(&f.out)),
        f.at.iter().rev().take(12).map(|x| js(x)).collect::<Vec<_>>().join(",")
    )
}

fn main() {
    let mut ll = String::new();
    let mut out = String::new();
    let mut jobs = vec![];
    let mut threads = 8usize;
    let mut secs = 600u64;
    let mut seed = 1u64;
    let mut nsamples = 32usize;
    let mut max_found = 4usize;
    let mut max_steps = 200_000_000u64;
    let mut timeout_ms = 60_000u32;
    let mut verbose = false;
    let mut prof = false;
    let mut first = false;
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        let mut nx = || it.next().expect("argument");
        match a.as_str() {
            "--ll" => ll = nx(),
            "--out" => out = nx(),
            "--threads" => threads = nx().parse().unwrap(),
            "--secs" => secs = nx().parse().unwrap(),
            "--seed" => seed = nx().parse().unwrap(),
            "--samples" => nsamples = nx().parse().unwrap(),
            "--max-found" => max_found = nx().parse().unwrap(),
            "--max-steps" => max_steps = nx().parse().unwrap(),
            "--query-ms" => timeout_ms = nx().parse().unwrap(),
            "-v" => verbose = true,
            "--prof" => prof = true,
            "--first" => first = true,
            j => {
                // entry:arg,arg
                let (e, r) = j.split_once(':').unwrap_or((j, ""));
                let args = r.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().expect("number")).collect();
                jobs.push(Job { entry: e.to_string(), args });
            }
        }
    }
    let t0 = Instant::now();
    let deadline = t0 + Duration::from_secs(secs);
    let text = std::fs::read_to_string(&ll).expect("cannot read IR");
    let m = match ir::Module::load(text) {
        Ok(m) => Arc::new(m),
        Err(e) => {
            eprintln!("IR: {}", e);
            std::process::exit(2);
        }
    };
    std::panic::set_hook(Box::new(|_| {}));
    let bi: Vec<Bi> = m.func_by_id.iter().map(|d| classify(d)).collect();
    let cache = Arc::new(solver::Cache::new());
    let load_s = t0.elapsed().as_secs_f64();
    let mut results = vec![];
    for job in &jobs {
        let t1 = Instant::now();
        let sh = Shared {
            m: m.clone(),
            g: mem::Globals::new(m.clone()),
            bi: bi.clone(),
            stats: Arc::new(solver::Stats::default()),
            cache: cache.clone(),
            queue: Mutex::new(vec![]),
            cv: Condvar::new(),
            busy: AtomicUsize::new(0),
            stop: AtomicBool::new(false),
            steps: AtomicU64::new(0),
            forks: AtomicU64::new(0),
            ends: Mutex::new(HashMap::new()),
            found: Mutex::new(vec![]),
            samples: Mutex::new(vec![]),
            reach: Default::default(),
            touched: (0..m.func_by_id.len()).map(|_| AtomicBool::new(false)).collect(),
            deadline,
            timed_out: AtomicBool::new(false),
            seed,
            nsamples,
            max_found,
            max_steps,
            verbose,
            timeout_ms,
            maxlive: AtomicU64::new(0),
            prof: if prof { Some(Mutex::new(HashMap::new())) } else { None },
        };
        let st = match initial(&sh, job) {
            Ok(s) => s,
            Err(e) => {
                eprintln!("{}", e);
                std::process::exit(2);
            }
        };
        sh.queue.lock().unwrap().push(st);
        std::thread::scope(|s| {
            for _ in 0..threads {
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(s, || {
                        let mut w = Worker::new(&sh);
                        w.work();
                    })
                    .unwrap();
            }
        });
        let left = sh.queue.lock().unwrap().len();
        let ends = sh.ends.lock().unwrap();
        let mut ek: Vec<_> = ends.iter().collect();
        ek.sort();
        let paths: u64 = ends.values().sum();
        let found = sh.found.lock().unwrap();
        let samples = sh.samples.lock().unwrap();
        let mut reach = vec![];
        for i in 0..256 {
            if sh.reach[i / 64].load(Relaxed) >> (i % 64) & 1 == 1 {
                reach.push(i.to_string());
            }
        }
        let mut touched: Vec<&str> = vec![];
        for (i, t) in sh.touched.iter().enumerate() {
            if t.load(Relaxed) {
                touched.push(&m.func_by_id[i].name);
            }
        }
        let complete = left == 0 && !sh.timed_out.load(Relaxed) && !sh.stop.load(Relaxed);
        let st = &sh.stats;
        let wall = t1.elapsed().as_secs_f64();
        if verbose {
            eprintln!(
                "{}:{:?} paths={} forks={} steps={} complete={} queries={} cachehits={} modelhits={} z3={}(sat {} unsat {} unk {}) {:.2}s max {:.3}s wall={:.2}s left={} maxlive={}",
                job.entry,
                job.args,
                paths,
                sh.forks.load(Relaxed),
                sh.steps.load(Relaxed),
                complete,
                st.queries.load(Relaxed),
                st.cache_hits.load(Relaxed),
                st.model_hits.load(Relaxed),
                st.queries.load(Relaxed) - st.cache_hits.load(Relaxed),
                st.sat.load(Relaxed),
                st.unsat.load(Relaxed),
                st.unknown.load(Relaxed),
                st.micros.load(Relaxed) as f64 / 1e6,
                st.max_micros.load(Relaxed) as f64 / 1e6,
                wall,
                left,
                sh.maxlive.load(Relaxed),
            );
            for (k, n) in &ek {
                eprintln!("   {:8} {}", n, k);
            }
            for f in found.iter().take(6) {
                eprintln!("   {:?} model={} obs={:x?}\n      at {:?}", f.event, hex(&f.model), f.obs, f.at.iter().rev().take(4).collect::<Vec<_>>());
            }
            if let Some(p) = &sh.prof {
                let p = p.lock().unwrap();
                let mut v: Vec<_> = p.iter().collect();
                v.sort_by(|a, b| b.1.cmp(a.1));
                for (k, n) in v.iter().take(25) {
                    eprintln!("   fork {:8} {}", n, k);
                }
            }
        }
        results.push(format!(
            "{{\"entry\":{},\"args\":[{}],\"paths\":{},\"forks\":{},\"steps\":{},\"complete\":{},\"queries\":{},\"cache_hits\":{},\"model_hits\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"wall_s\":{:.3},\"ends\":{{{}}},\"reach\":[{}],\"found\":[{}],\"samples\":[{}],\"functions\":[{}],\"maxlive\":{}}}",
            js(&job.entry),
            job.args.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
            paths,
            sh.forks.load(Relaxed),
            sh.steps.load(Relaxed),
            complete,
            st.queries.load(Relaxed),
            st.cache_hits.load(Relaxed),
            st.model_hits.load(Relaxed),
            st.sat.load(Relaxed),
            st.unsat.load(Relaxed),
            st.unknown.load(Relaxed),
            st.micros.load(Relaxed) as f64 / 1e6,
            st.max_micros.load(Relaxed) as f64 / 1e6,
            wall,
            ek.iter().map(|(k, n)| format!("{}:{}", js(k), n)).collect::<Vec<_>>().join(","),
            reach.join(","),
            found.iter().map(found_js).collect::<Vec<_>>().join(","),
            samples.iter().map(|x| found_js(&x.1)).collect::<Vec<_>>().join(","),
            touched.iter().map(|x| js(x)).collect::<Vec<_>>().join(","),
            sh.maxlive.load(Relaxed)
        ));
        let bad = found.iter().any(|x| !matches!(x.event, Event::Unsupported(_)));
        if sh.timed_out.load(Relaxed) || (first && bad) {
            break;
        }
    }
    let body = format!(
        "{{\"z3\":{},\"load_s\":{:.2},\"jobs_requested\":{},\"jobs\":[{}]}}",
        js(&solver::version()),
        load_s,
        jobs.len(),
        results.join(",\n")
    );
    if !out.is_empty() {
        std::fs::write(&out, body).unwrap();
    }
    // leave without tearing down the query cache
    std::process::exit(0);
}
