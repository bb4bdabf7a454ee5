//! `mon <PROP> [--tier quick|thorough] [--seed N] [--out FILE] [--digests FILE]
//!             [--only WORKLOAD[:CASE]] [--scale PERCENT] [--threads N]`
//! Runs the workloads of one property against the real library and reports what the monitors saw.

mod alloc;
mod ctx;
mod rng;
mod sha2;
#[macro_use]
mod util;
mod refcodec;
mod model_req;
mod model_rsp;
mod der;
#[cfg(feature = "crypto")]
mod p256;
mod certs;
mod peer;
mod world;
mod gen;
mod props;

use ctx::{jstr, Ctx};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

pub struct Workload {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: fn(&mut Ctx, &mut rng::Rng),
}

const HANG_MS: u64 = 60_000;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let prop = args.get(1).cloned().unwrap_or_default();
    let tier = get("--tier").unwrap_or_else(|| "quick".into());
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let scale: u64 = get("--scale").and_then(|s| s.parse().ok()).unwrap_or(100);
    let nthreads: usize = get("--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
    let limit_s: u64 = get("--limit").and_then(|s| s.parse().ok()).unwrap_or(100_000);
    let only = get("--only");
    let thorough = tier == "thorough";
    if !sha2::self_test() {
        eprintln!("oracle self-test failed");
        std::process::exit(2);
    }
    if prop == "CONFIG" {
        props::config::dump();
        return;
    }
    if prop == "SOLO" {
        ctx::install_hook();
        let n: Vec<u64> = args[2..5].iter().map(|x| x.parse().unwrap()).collect();
        let t = std::thread::Builder::new().stack_size(96 << 20).spawn(move || props::iso::solo(n[0], n[1], n[2])).unwrap();
        t.join().unwrap();
        return;
    }
    if prop == "NONCES" {
        let t = std::thread::Builder::new().stack_size(96 << 20).spawn(props::pair::print_nonces).unwrap();
        t.join().unwrap();
        return;
    }
    if args.iter().any(|a| a == "--real-panics") {
        // keep default hook
    } else {
        ctx::install_hook();
    }
    if let Some(f) = get("--fill").and_then(|s| s.parse().ok()) {
        world::FILL.store(f, Ordering::Relaxed);
    }
    let wls = props::workloads(&prop);
    if wls.is_empty() {
        eprintln!("no workloads for {prop} in this variant");
        std::process::exit(3);
    }
    let t0 = Instant::now();
    // Job list: fixed chunks of cases, so that the set of executions does not depend on timing.
    let mut jobs: Vec<(usize, u64, u64)> = Vec::new();
    for (i, w) in wls.iter().enumerate() {
        if let Some(o) = &only {
            let mut p = o.split(':');
            if p.next() != Some(w.name) {
                continue;
            }
            if let Some(c) = p.next() {
                let c: u64 = c.parse().unwrap();
                jobs.push((i, c, c + 1));
                continue;
            }
        }
        let n = if thorough { w.thorough } else { w.quick };
        let n = (n * scale).div_ceil(100);
        let chunk = n.div_ceil(64).max(1);
        let mut a = 0;
        while a < n {
            let b = (a + chunk).min(n);
            jobs.push((i, a, b));
            a = b;
        }
    }
    // Spread the workloads over the run, so that a time limit shortens all of them.
    let mut rank: Vec<(u64, usize, u64, u64)> = Vec::new();
    let mut seen = vec![0u64; wls.len()];
    for (i, a, b) in &jobs {
        rank.push((seen[*i], *i, *a, *b));
        seen[*i] += 1;
    }
    rank.sort();
    let jobs: Vec<(usize, u64, u64)> = rank.into_iter().map(|(_, i, a, b)| (i, a, b)).collect();
    let next = Arc::new(AtomicU64::new(0));
    let jobs = Arc::new(jobs);
    let wls = Arc::new(wls);
    let done: Arc<Mutex<Vec<Ctx>>> = Arc::new(Mutex::new(Vec::new()));
    let errors: Arc<Mutex<Vec<String>>> = Arc::new(Mutex::new(Vec::new()));
    let live = Arc::new(AtomicU64::new(nthreads as u64));
    let mut beats = Vec::new();
    let want_digests = get("--digests").is_some();
    let verbose = args.iter().any(|a| a == "-v");
    for _ in 0..nthreads {
        let mut cx = Ctx::new(&prop, thorough, seed, t0);
        cx.verbose = verbose;
        if want_digests {
            cx.digests = Some(Vec::new());
        }
        beats.push(cx.beat.clone());
        let (next, jobs, wls, done, errors, live) =
            (next.clone(), jobs.clone(), wls.clone(), done.clone(), errors.clone(), live.clone());
        std::thread::Builder::new()
            .stack_size(96 << 20)
            .spawn(move || {
                loop {
                    let j = next.fetch_add(1, Ordering::SeqCst) as usize;
                    if j >= jobs.len() {
                        break;
                    }
                    if t0.elapsed().as_secs() > limit_s {
                        cx.count("jobs_skipped_time_limit");
                        continue;
                    }
                    let (w, a, b) = jobs[j];
                    for case in a..b {
                        let mut r = cx.begin(wls[w].name, w as u64, case);
                        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                            (wls[w].f)(&mut cx, &mut r)
                        }));
                        if res.is_err() {
                            alloc::disarm();
                            let m = format!("harness: {}:{case}: {}", wls[w].name, ctx::take_panic());
                            let mut e = errors.lock().unwrap();
                            if e.len() < 10 {
                                e.push(m);
                            }
                        }
                        cx.end();
                        cx.add(&format!("cases.{}", wls[w].name), 1);
                    }
                }
                done.lock().unwrap().push(cx);
                live.fetch_sub(1, Ordering::SeqCst);
            })
            .unwrap();
    }
    // Watchdog.
    let mut hung: Option<(String, u64)> = None;
    while live.load(Ordering::SeqCst) > 0 && hung.is_none() {
        std::thread::sleep(Duration::from_millis(20));
        let now = t0.elapsed().as_millis() as u64;
        for b in &beats {
            let e = b.entered_ms.load(Ordering::Relaxed);
            if e != 0 && now > e + HANG_MS {
                hung = Some((
                    wls[b.wl.load(Ordering::Relaxed) as usize].name.to_string(),
                    b.case.load(Ordering::Relaxed),
                ));
            }
        }
    }
    let mut cxs = done.lock().unwrap();
    let mut total = Ctx::new(&prop, thorough, seed, t0);
    let mut digests = Vec::new();
    for c in cxs.drain(..) {
        total.evaluations += c.evaluations;
        total.lib_calls += c.lib_calls;
        for (k, v) in c.counters {
            *total.counters.entry(k).or_insert(0) += v;
        }
        for (k, v) in c.other {
            *total.other.entry(k).or_insert(0) += v;
        }
        total.distinct.extend(c.distinct);
        for s in c.samples {
            if total.samples.len() < 5 {
                total.samples.push(s);
            }
        }
        total.findings.extend(c.findings);
        if let Some(d) = c.digests {
            digests.extend(d);
        }
    }
    if let Some((w, c)) = hung {
        total.findings.push(ctx::Finding {
            workload: w,
            case: c,
            msg: format!("a library call did not return within {} s", HANG_MS / 1000),
            log: vec![],
        });
    }
    total.findings.sort_by(|a, b| (&a.workload, a.case).cmp(&(&b.workload, b.case)));
    let errs = errors.lock().unwrap().clone();
    if let Some(f) = get("--digests") {
        digests.sort();
        let mut s = String::new();
        for (w, c, h) in &digests {
            s.push_str(&format!("{w} {c} {h:016x}\n"));
        }
        std::fs::write(f, s).unwrap();
    }
    let mut j = String::from("{");
    j.push_str(&format!("\"prop\":{},\"tier\":{},\"seed\":{},", jstr(&prop), jstr(&tier), seed));
    j.push_str(&format!(
        "\"evaluations\":{},\"lib_calls\":{},\"distinct\":{},\"wall_s\":{:.2},",
        total.evaluations,
        total.lib_calls,
        total.distinct.len(),
        t0.elapsed().as_secs_f64()
    ));
    let map = |m: &std::collections::BTreeMap<String, u64>| {
        m.iter().map(|(k, v)| format!("{}:{v}", jstr(k))).collect::<Vec<_>>().join(",")
    };
    j.push_str(&format!("\"counters\":{{{}}},", map(&total.counters)));
    j.push_str(&format!("\"other\":{{{}}},", map(&total.other)));
    j.push_str(&format!(
        "\"samples\":[{}],",
        total.samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",")
    ));
    j.push_str(&format!(
        "\"errors\":[{}],",
        errs.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",")
    ));
    j.push_str(&format!(
        "\"findings\":[{}]",
        total
            .findings
            .iter()
            .take(20)
            .map(|f| format!(
                "{{\"workload\":{},\"case\":{},\"msg\":{},\"log\":[{}]}}",
                jstr(&f.workload),
                f.case,
                jstr(&f.msg),
                f.log.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",")
            ))
            .collect::<Vec<_>>()
            .join(",")
    ));
    j.push('}');
    match get("--out") {
        Some(f) => std::fs::write(f, &j).unwrap(),
        None => {
            println!("eval={} distinct={} lib_calls={} wall={:.1}s", total.evaluations, total.distinct.len(), total.lib_calls, t0.elapsed().as_secs_f64());
            for (k, v) in &total.counters {
                println!("  {k} = {v}");
            }
            println!("  other divergences: {:?}", total.other);
            for e in &errs {
                println!("  ERROR {e}");
            }
            for f in total.findings.iter().take(8) {
                println!("  FINDING {}:{} {}", f.workload, f.case, f.msg);
            }
            println!("  findings: {}", total.findings.len());
        }
    }
    // Do not wait for a hung thread.
    std::process::exit(if !errs.is_empty() {
        2
    } else if !total.findings.is_empty() {
        1
    } else {
        0
    });
}
