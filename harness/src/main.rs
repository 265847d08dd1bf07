//! Runs the real library on generated inputs and compares with independent oracles.
//! usage: harness PROP SEED SECS START STRIDE [MAX] [--trace FILE] [--only INDEX]
mod util;
mod model;
mod props;
use std::{collections::HashSet, hash::{Hash, Hasher}, io::Write, sync::{Arc, Mutex}, time::{Duration, Instant}};
use util::*;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", '\r' => o += "\\r", '\t' => o += "\\t",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32), c => o.push(c) }
    }
    o + "\""
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "--hook" { println!("{}", cfg!(ledger_verif)); return; }
    let prop = a[1].clone();
    let seed: u64 = a[2].parse().unwrap();
    let secs: f64 = a[3].parse().unwrap();
    let start: u64 = a[4].parse().unwrap();
    let stride: u64 = a[5].parse().unwrap();
    let opt = |n: &str| a.iter().position(|x| x == n).map(|i| a[i + 1].clone());
    let max: u64 = opt("--max").map(|s| s.parse().unwrap()).unwrap_or(u64::MAX);
    let only: Option<u64> = opt("--only").map(|s| s.parse().unwrap());
    let mut trace = opt("--trace").map(|f| std::fs::File::create(f).unwrap());
    std::panic::set_hook(Box::new(|_| {}));
    // a single case that does not come back is reported too
    let cur: Arc<Mutex<(u64, String, Instant)>> = Arc::new(Mutex::new((0, String::new(), Instant::now())));
    {
        let cur = cur.clone(); let prop = prop.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let g = cur.lock().unwrap();
            if g.2.elapsed() > Duration::from_secs(45) && !g.1.is_empty() {
                report(&prop, seed, 0, 0, &[], Some((g.0, &g.1, "does not terminate within 45 s")));
                std::process::exit(1);
            }
        });
    }
    let t0 = Instant::now();
    let mut seen: HashSet<u64> = HashSet::new();
    let (mut evals, mut nontriv) = (0u64, 0u64);
    let mut samples: Vec<String> = vec![];
    let mut i = only.unwrap_or(start);
    loop {
        if evals >= max || (only.is_some() && evals > 0) || (only.is_none() && t0.elapsed().as_secs_f64() > secs) { break; }
        let mut rng = Rng::new(seed, &prop, i);
        let Some(c) = props::make(&prop, &mut rng, i) else { eprintln!("unknown property"); std::process::exit(3) };
        if let Some(f) = trace.as_mut() { let _ = writeln!(f, "{} {}", i, esc(&c.text)); let _ = f.flush(); }
        *cur.lock().unwrap() = (i, c.text.clone(), Instant::now());
        evals += 1;
        let mut h = std::collections::hash_map::DefaultHasher::new(); c.text.hash(&mut h);
        if seen.insert(h.finish()) && !c.trivial { nontriv += 1; }
        if samples.len() < 3 || (evals.is_power_of_two() && samples.len() < 8) { samples.push(c.text.clone()); }
        let text = c.text.clone();
        let r = attempt(c.run).and_then(|r| r);
        if let Err(m) = r {
            report(&prop, seed, evals, nontriv, &samples, Some((i, &text, &m)));
            let _ = std::fs::remove_dir_all(scratch_path());
            std::process::exit(1);
        }
        i += stride;
    }
    report(&prop, seed, evals, nontriv, &samples, None);
    let _ = std::fs::remove_dir_all(scratch_path());
}
fn scratch_path() -> std::path::PathBuf { std::env::temp_dir().join(format!("ledger_verif_{}", std::process::id())) }
fn report(prop: &str, seed: u64, evals: u64, nontriv: u64, samples: &[String], v: Option<(u64, &str, &str)>) {
    let s: Vec<String> = samples.iter().map(|x| esc(x)).collect();
    let v = match v { None => "null".to_string(), Some((i, t, m)) => format!("{{\"index\":{},\"input\":{},\"what\":{}}}", i, esc(t), esc(m)) };
    println!("{{\"property\":\"{prop}\",\"seed\":{seed},\"hook\":{},\"evaluations\":{evals},\"nontrivial\":{nontriv},\"samples\":[{}],\"violation\":{v}}}", cfg!(ledger_verif), s.join(","));
}
