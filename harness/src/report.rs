//! Case runner, verdicts, evidence, replay and known findings.
use crate::rng::Rng;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Debug)]
pub struct Violation {
    /// stable signature naming what failed (matched exactly against known findings)
    pub sig: String,
    pub msg: String,
}
pub type R = Result<(), Violation>;

pub fn viol<S: Into<String>, T: Into<String>>(sig: S, msg: T) -> R {
    Err(Violation { sig: sig.into(), msg: msg.into() })
}

#[macro_export]
macro_rules! check {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !($cond) {
            return Err($crate::report::Violation { sig: $sig.to_string(), msg: format!($($arg)*) });
        }
    };
}

/// Observations of one worker thread.
#[derive(Default)]
pub struct Obs {
    pub evals: u64,
    pub nontrivial: HashSet<u64>,
    pub counters: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub maxima: BTreeMap<&'static str, f64>,
    pub verbose: bool,
}
impl Obs {
    pub fn n(&mut self, k: &'static str) {
        *self.counters.entry(k).or_insert(0) += 1;
    }
    pub fn add(&mut self, k: &'static str, v: u64) {
        *self.counters.entry(k).or_insert(0) += v;
    }
    pub fn max(&mut self, k: &'static str, v: f64) {
        let e = self.maxima.entry(k).or_insert(f64::MIN);
        if v > *e {
            *e = v;
        }
    }
    /// one oracle evaluation; `key` identifies the case for distinctness
    pub fn eval(&mut self, nontrivial: bool, key: &[u64]) {
        self.evals += 1;
        if nontrivial && self.nontrivial.len() < 600_000 {
            let mut h: u64 = 0xcbf29ce484222325;
            for k in key {
                h = (h ^ k).wrapping_mul(0x9E3779B97F4A7C15);
                h ^= h >> 29;
            }
            self.nontrivial.insert(h);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            self.samples.push(f());
        }
    }
    pub fn log(&self, f: impl FnOnce() -> String) {
        if self.verbose {
            println!("  {}", f());
        }
    }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// counters that must be non-zero, or the run is inconclusive
    pub need: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    pub case: fn(&mut Rng, &mut Obs, u64) -> R,
}

pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}

/// known findings: lines "finding: property=<id> sig=<signature> <what>"; "fixed:" lines are history only
fn known(id: &str) -> Vec<(String, String)> {
    let p = format!("{}/known_findings.txt", verif_dir());
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(p) {
        for l in s.lines() {
            if let Some(rest) = l.strip_prefix("finding: ") {
                let mut it = rest.splitn(3, ' ');
                let a = it.next().unwrap_or("");
                let b = it.next().unwrap_or("");
                let c = it.next().unwrap_or("");
                if a == format!("property={}", id) {
                    if let Some(sig) = b.strip_prefix("sig=") {
                        v.push((sig.to_string(), c.to_string()));
                    }
                }
            }
        }
    }
    v
}

/// a case did not come back
fn hung(id: &str, tag: &str, seed: u64, case: u64) -> ! {
    let msg = format!("case {} has been running for over 30 s", case);
    if id == "C05" || id == "C26" {
        let path = format!("{}/replay/{}-{}-{}.json", verif_dir(), id, seed, case);
        let _ = std::fs::create_dir_all(format!("{}/replay", verif_dir()));
        let _ = std::fs::write(&path, format!("{{\"property\":\"{}\",\"seed\":{},\"case\":{},\"what\":\"{}\",\"rerun\":\"./check.sh {} --replay {}{}:{}\"}}\n", id, seed, case, msg, id, tag, seed, case));
        println!("  {}: {} [{}-hang]", id, msg, id);
        println!("VIOLATION property={} replay={}", id, path);
        std::process::exit(1);
    }
    eprintln!("INCONCLUSIVE property={}: {}", id, msg);
    std::process::exit(3);
}

pub fn run(p: &Prop, tier: &str, seed: u64, replay: Option<u64>) -> i32 {
    let stream = p.id.bytes().fold(7u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64));
    // checks of the production build report under the property they belong to
    let stream_id = p.id;
    let shown = p.id.trim_end_matches('P');
    let prod = stream_id != shown;
    let tag = if prod { "production:" } else { "" };
    if let Some(idx) = replay {
        let mut rng = Rng::new(seed, stream, idx);
        let mut obs = Obs { verbose: true, ..Default::default() };
        return match (p.case)(&mut rng, &mut obs, idx) {
            Ok(()) => {
                println!("replay {} seed={} case={}: held", shown, seed, idx);
                0
            }
            Err(v) => {
                println!("replay {} seed={} case={}: {} [{}]", shown, seed, idx, v.msg, v.sig);
                println!("VIOLATION property={} replay={}{}:{}", shown, tag, seed, idx);
                1
            }
        };
    }
    let mult: f64 = std::env::var("VMON_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let total = ((if tier == "thorough" { p.thorough } else { p.quick }) as f64 * mult) as u64;
    let cap: f64 = std::env::var("VMON_CAP")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if tier == "thorough" { 780.0 } else { 240.0 });
    let known = known(shown);
    let start = Instant::now();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let capped = AtomicBool::new(false);
    let found: Mutex<BTreeMap<String, (u64, String)>> = Mutex::new(BTreeMap::new());
    let known_hits: Mutex<BTreeMap<String, (u64, u64)>> = Mutex::new(BTreeMap::new());
    let merged: Mutex<Obs> = Mutex::new(Obs::default());
    let harness_err: Mutex<Option<(u64, String)>> = Mutex::new(None);
    // what each worker is at: (case + 1, when it began in ms)
    let at: Vec<(AtomicU64, AtomicU64)> = (0..64).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect();
    let worker = AtomicU64::new(0);
    let live = AtomicU64::new(0);
    let threads = std::env::var("VMON_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize);
    let chunk = (total / (threads as u64 * 64)).clamp(1, 256);
    std::thread::scope(|s| {
        live.store(threads as u64, Ordering::SeqCst);
        s.spawn(|| {
            // one case takes milliseconds; one that does not come back is a hang
            let limit = 30_000;
            while live.load(Ordering::SeqCst) > 0 {
                std::thread::sleep(std::time::Duration::from_millis(50));
                let now = start.elapsed().as_millis() as u64;
                for (case, since) in &at {
                    let (c, t) = (case.load(Ordering::SeqCst), since.load(Ordering::SeqCst));
                    if c > 0 && now > t + limit && case.load(Ordering::SeqCst) == c {
                        hung(shown, tag, seed, c - 1);
                    }
                }
            }
        });
        for _ in 0..threads {
            s.spawn(|| {
                let me = &at[worker.fetch_add(1, Ordering::SeqCst) as usize % 64];
                let mut obs = Obs::default();
                'outer: loop {
                    let base = next.fetch_add(chunk, Ordering::Relaxed);
                    if base >= total {
                        break;
                    }
                    for idx in base..(base + chunk).min(total) {
                        if stop.load(Ordering::Relaxed) {
                            break 'outer;
                        }
                        me.1.store(start.elapsed().as_millis() as u64, Ordering::SeqCst);
                        me.0.store(idx + 1, Ordering::SeqCst);
                        let mut rng = Rng::new(seed, stream, idx);
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.case)(&mut rng, &mut obs, idx)));
                        match r {
                            Ok(Ok(())) => {}
                            Ok(Err(v)) => {
                                if known.iter().any(|k| k.0 == v.sig) {
                                    let mut g = known_hits.lock().unwrap();
                                    let e = g.entry(v.sig).or_insert((idx, 0));
                                    e.1 += 1;
                                } else {
                                    let mut f = found.lock().unwrap();
                                    f.entry(v.sig).or_insert((idx, v.msg));
                                    if f.len() >= 12 {
                                        stop.store(true, Ordering::Relaxed);
                                    }
                                }
                            }
                            Err(_) => {
                                let mut h = harness_err.lock().unwrap();
                                let n = h.as_ref().map(|x| x.0).unwrap_or(0) + 1;
                                *h = Some((n, format!("{} harness panics, last in case {}", n, idx)));
                                if n >= 50 {
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                        }
                    }
                    // once something is found, a little more looking around is enough
                    if !found.lock().unwrap().is_empty() && start.elapsed().as_secs_f64() > 5.0 {
                        stop.store(true, Ordering::Relaxed);
                    }
                    if start.elapsed().as_secs_f64() > cap {
                        capped.store(true, Ordering::Relaxed);
                        stop.store(true, Ordering::Relaxed);
                    }
                }
                me.0.store(0, Ordering::SeqCst);
                live.fetch_sub(1, Ordering::SeqCst);
                let mut m = merged.lock().unwrap();
                m.evals += obs.evals;
                m.nontrivial.extend(obs.nontrivial.drain());
                for (k, v) in obs.counters {
                    *m.counters.entry(k).or_insert(0) += v;
                }
                for (k, v) in obs.maxima {
                    m.max(k, v);
                }
                if m.samples.len() < 8 {
                    m.samples.extend(obs.samples);
                }
            });
        }
    });
    let wall = start.elapsed().as_secs_f64();
    let m = merged.into_inner().unwrap();
    let found = found.into_inner().unwrap();
    let known_hits = known_hits.into_inner().unwrap();
    let herr = harness_err.into_inner().unwrap();
    for (sig, what) in &known {
        // every listed finding is announced on the unchanged tree
        let hits = known_hits.get(sig).map(|x| x.1).unwrap_or(0);
        println!("KNOWN-FINDING: property={} {} (sig {}; seen {} times this run)", p.id, what, sig, hits);
    }
    let mut code = 0;
    let vdir = verif_dir();
    for (sig, (idx, msg)) in &found {
        let _ = std::fs::create_dir_all(format!("{}/replay", vdir));
        let path = format!("{}/replay/{}-{}-{}.json", vdir, p.id, seed, idx);
        let _ = std::fs::write(
            &path,
            format!(
                "{{\"property\":\"{}\",\"seed\":{},\"case\":{},\"signature\":\"{}\",\"what\":\"{}\",\"rerun\":\"./check.sh {} --replay {}{}:{}\"}}\n",
                shown, seed, idx, esc(sig), esc(msg), shown, tag, seed, idx
            ),
        );
        println!("  {}: {} [{}]", shown, msg, sig);
        println!("VIOLATION property={} replay={}", shown, path);
        code = 1;
    }
    let missing: Vec<&str> = p
        .need
        .iter()
        .filter(|k| m.counters.get(**k).copied().unwrap_or(0) == 0)
        .cloned()
        .collect();
    if code == 0 && replay.is_none() {
        if let Some((_, e)) = &herr {
            eprintln!("INCONCLUSIVE property={}: {}", p.id, e);
            code = 3;
        } else if !missing.is_empty() || m.evals == 0 {
            eprintln!("INCONCLUSIVE property={}: never observed {:?}", p.id, missing);
            code = 4;
        }
    }
    // evidence
    let mut j = String::new();
    j.push_str(&format!(
        "{{\"property\":\"{}\",\"tier\":\"{}\",\"seed\":{},\"level\":\"exploration\",\"wall_s\":{:.2},\"violations\":{},",
        shown,
        tier,
        seed,
        wall,
        found.len()
    ));
    j.push_str(&format!(
        "\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":\"{}\",\"cases\":{},\"time_capped\":{},\"events\":{{",
        m.evals,
        m.nontrivial.len(),
        esc(p.rule),
        next.load(Ordering::Relaxed).min(total),
        capped.load(Ordering::Relaxed)
    ));
    j.push_str(&m.counters.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v)).collect::<Vec<_>>().join(","));
    j.push_str("},\"maxima\":{");
    j.push_str(
        &m.maxima
            .iter()
            .map(|(k, v)| format!("\"{}\":{:e}", esc(k), if v.is_finite() { *v } else { 1e300 }))
            .collect::<Vec<_>>()
            .join(","),
    );
    j.push_str("},\"known_findings_seen\":{");
    j.push_str(&known_hits.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v.1)).collect::<Vec<_>>().join(","));
    j.push_str("},\"samples\":[");
    j.push_str(&m.samples.iter().take(8).map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(","));
    j.push(']');
    if let Some(x) = std::env::var("VMON_EXTRA").ok().and_then(|p| std::fs::read_to_string(p).ok()) {
        j.push_str(&format!(",\"production_build\":{}", x.trim()));
    }
    j.push_str("},\"assumptions\":[");
    j.push_str(&p.assumptions.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(","));
    j.push_str("]}\n");
    let out = std::env::var("VMON_EVIDENCE").unwrap_or_else(|_| format!("{}/evidence/{}.json", vdir, p.id));
    let _ = std::fs::create_dir_all(format!("{}/evidence", vdir));
    if let Err(e) = std::fs::write(out, j) {
        eprintln!("cannot write evidence: {}", e);
        if code == 0 {
            code = 5;
        }
    }
    println!(
        "{} tier={} seed={} cases={} evaluations={} distinct_nontrivial={} violations={} wall={:.1}s{}",
        p.id,
        tier,
        seed,
        next.load(Ordering::Relaxed).min(total),
        m.evals,
        m.nontrivial.len(),
        found.len(),
        wall,
        if capped.load(Ordering::Relaxed) { " (time cap)" } else { "" }
    );
    if std::env::var("VMON_SHOW").is_ok() {
        for (k, v) in &m.counters {
            println!("    {} = {}", k, v);
        }
        for (k, v) in &m.maxima {
            println!("    max {} = {:e}", k, v);
        }
        for s in &m.samples {
            println!("    sample: {}", s);
        }
    }
    code
}
