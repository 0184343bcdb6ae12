//! The conformance side of the checks: runs the real crate on concrete inputs against oracles of the properties.
//! usage: native PROP [--iters N] [--secs S] [--seed K] [--over FILE] [--dict FILE] [--log FILE] | native PROP --replay FILE
mod geom;
mod kitti;
mod map;
mod src;
use src::{Log, Src};
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub type Case = fn(&mut Src) -> Result<(), String>;

fn read_map(p: &str) -> HashMap<String, String> {
    let mut m = HashMap::new();
    for l in std::fs::read_to_string(p).unwrap_or_default().lines() {
        if let Some((k, v)) = l.split_once('\t') { m.insert(k.to_string(), v.to_string()); }
    }
    m
}

fn case_of(p: &str) -> Option<Case> {
    geom::case_of(p).or_else(|| map::case_of(p)).or_else(|| kitti::case_of(p))
}

fn report(msg: &str, log: &Log, out: &Option<String>) -> ! {
    let l = match log.lock() { Ok(g) => g.clone(), Err(e) => e.into_inner().clone() };
    let mut t = String::new();
    for (k, v) in l.iter() { t += &format!("{}\t{}\n", k, v); }
    let short: String = msg.replace('\n', " ").chars().take(1500).collect();
    println!("FAIL {}", short);
    for (k, v) in l.iter() { println!("  {} = {}", k, v); }
    if let Some(p) = out { let _ = std::fs::write(p, t); }
    std::process::exit(1)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let case = match case_of(&a[1]) { Some(c) => c, None => { println!("SKIP no native case for {}", a[1]); return; } };
    let iters: u64 = get("--iters").and_then(|x| x.parse().ok()).unwrap_or(u64::MAX);
    let secs: f64 = get("--secs").and_then(|x| x.parse().ok()).unwrap_or(5.0);
    let seed: u64 = get("--seed").and_then(|x| x.parse().ok()).unwrap_or(1);
    let hang: f64 = get("--hang").and_then(|x| x.parse().ok()).unwrap_or(15.0);
    let out = get("--out");
    let replay = get("--replay");
    let mut overs: Vec<HashMap<String, String>> = vec![];
    for (i, x) in a.iter().enumerate() { if x == "--over" { overs.push(read_map(&a[i + 1])); } }
    let (mut fd, mut id) = (vec![], vec![]);
    if let Some(p) = get("--dict") {
        for l in std::fs::read_to_string(p).unwrap_or_default().lines() {
            if let Some(t) = l.strip_prefix("f ") { if let Some(v) = src::parse_f32(t) { fd.push(v); } }
            if let Some(t) = l.strip_prefix("i ") { if let Ok(v) = t.parse() { id.push(v); } }
        }
    }
    let (fd, id) = (Arc::new(fd), Arc::new(id));
    std::panic::set_hook(Box::new(|_| {}));
    let log: Log = Arc::new(Mutex::new(vec![]));
    let tick = Arc::new(AtomicU64::new(0));
    let nontriv = Arc::new(AtomicU64::new(0));
    let fail: Arc<Mutex<Option<String>>> = Arc::new(Mutex::new(None));
    let done = Arc::new(AtomicU64::new(0));
    let (l2, t2, f2, d2, n2) = (log.clone(), tick.clone(), fail.clone(), done.clone(), nontriv.clone());
    let rep = replay.clone();
    std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        let t0 = Instant::now();
        let mut n = 0u64;
        let mut slow = 0.0f64;
        let mut large = 0.0; // time spent on large cases: at most a third
        while n < iters && t0.elapsed().as_secs_f64() < secs {
            match l2.lock() { Ok(mut g) => g.clear(), Err(e) => e.into_inner().clear() }
            let mut s = Src::new(seed.wrapping_mul(1_000_003).wrapping_add(n), l2.clone(), fd.clone(), id.clone());
            if let Some(p) = &rep { s.over = read_map(p); s.force = true; s.exact = true; }
            else if !overs.is_empty() {
                let k = (n as usize) % overs.len();
                s.over = overs[k].clone();
                s.force = (n as usize) < overs.len();
                s.pover = [100, 95, 80, 50][(n as usize / overs.len()) % 4];
            }
            s.scale = overs.is_empty() && rep.is_none() && (n == 9 || n % 7 == 2 && large < 0.3 * t0.elapsed().as_secs_f64());
            let t1 = Instant::now();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| case(&mut s)));
            let msg = match r {
                Ok(Ok(())) => None,
                Ok(Err(m)) => Some(m),
                Err(e) => Some(format!("panicked: {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default())),
            };
            slow = slow.max(t1.elapsed().as_secs_f64());
            if s.big { large += t1.elapsed().as_secs_f64(); }
            if s.nontrivial { n2.fetch_add(1, Ordering::SeqCst); }
            if let Some(m) = msg { *f2.lock().unwrap() = Some(m); d2.store(1, Ordering::SeqCst); return; }
            n += 1;
            t2.store(n, Ordering::SeqCst);
            if rep.is_some() { break; }
        }
        if std::env::var("SLOW").is_ok() { eprintln!("slowest case {:.3} s, large cases {:.1} s", slow, large); }
        d2.store(1, Ordering::SeqCst);
    }).unwrap();
    let (mut last, mut since) = (u64::MAX, Instant::now());
    while done.load(Ordering::SeqCst) == 0 {
        std::thread::sleep(Duration::from_millis(5));
        let t = tick.load(Ordering::SeqCst);
        if t != last { last = t; since = Instant::now(); }
        if since.elapsed().as_secs_f64() > hang { report("the call does not return", &log, &out); }
    }
    let f = fail.lock().unwrap().clone();
    if let Some(m) = f { report(&m, &log, &out); }
    let l = log.lock().unwrap().clone();
    println!("OK cases={} nontrivial={}", tick.load(Ordering::SeqCst), nontriv.load(Ordering::SeqCst));
    println!("SAMPLE {}", l.iter().map(|(k, v)| format!("{}={}", k, v)).collect::<Vec<_>>().join(" "));
}
