//! Executable contracts: runs the real crate on generated inputs and compares with independent oracles.
//! It is the bounded side of every check: it finds (and replays) concrete inputs that break a property.
#![allow(clippy::all)]
mod alloc_count;
mod enc;
mod gen;
mod props;
mod rng;

use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic;
use std::time::{Duration, Instant};

pub struct Case { pub desc: String, pub trivial: bool }
pub type R = Result<Case, String>;
pub type SubFn = fn(&mut rng::Rng) -> R;
pub fn ok(desc: String) -> R { Ok(Case { desc, trivial: false }) }
pub fn trivial(desc: String) -> R { Ok(Case { desc, trivial: true }) }
#[macro_export]
macro_rules! ck { ($c:expr, $($f:tt)*) => { if !$c { return Err(format!($($f)*)); } } }

#[global_allocator]
static A: alloc_count::Counting = alloc_count::Counting;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o.push('"'); o
}
fn hash(s: &str) -> u64 { let mut h = std::collections::hash_map::DefaultHasher::new(); s.hash(&mut h); h.finish() }
fn cut(s: &str, n: usize) -> String { if s.len() <= n { s.into() } else { let mut e = n; while !s.is_char_boundary(e) { e -= 1; } format!("{}...", &s[..e]) } }

fn run_one(f: SubFn, seed: u64) -> R {
    match panic::catch_unwind(panic::AssertUnwindSafe(|| f(&mut rng::Rng::new(seed)))) {
        Ok(r) => r,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            let loc = LOC.with(|l| l.borrow().clone());
            let last = props::last_input();
            Err(format!("panic: {m} at {loc}; last input: {last}"))
        }
    }
}
thread_local! { static LOC: std::cell::RefCell<String> = Default::default(); }

fn main() {
    panic::set_hook(Box::new(|i| { LOC.with(|l| *l.borrow_mut() = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default()); }));
    let a: Vec<String> = std::env::args().collect();
    let prop = a.get(1).cloned().unwrap_or_default();
    if a.get(2).map(|s| s.as_str()) == Some("--case") {
        let sub = &a[3]; let seed: u64 = a[4].parse().unwrap();
        let f = props::subs(&prop).into_iter().find(|x| x.0 == sub).expect("sub");
        match run_one(f.1, seed) {
            Ok(c) => { println!("holds: {}", c.desc); }
            Err(e) => { println!("VIOLATED {prop}/{sub}/{seed}: {e}"); std::process::exit(1); }
        }
        return;
    }
    let arg = |n: &str, d: &str| a.iter().position(|x| x == n).map(|i| a[i + 1].clone()).unwrap_or(d.into());
    let seed: u64 = arg("--seed", "1").parse().unwrap();
    let secs: f64 = arg("--secs", "5").parse().unwrap();
    let min: u64 = arg("--min", "50").parse().unwrap();
    let max: u64 = arg("--max", "100000000").parse().unwrap();
    let threads: u64 = arg("--threads", "6").parse().unwrap();
    let trace = arg("--trace", "");
    let subs = props::subs(&prop);
    assert!(!subs.is_empty(), "no executable contract for {prop}");
    let t0 = Instant::now();
    let stop = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let hs: Vec<_> = (0..threads).map(|t| {
        let subs = subs.clone(); let prop = prop.clone(); let stop = stop.clone(); let trace = trace.clone();
        std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            let mut per: Vec<(u64, HashSet<u64>, Vec<String>)> = subs.iter().map(|_| (0, HashSet::new(), vec![])).collect();
            let mut viol: Option<(String, u64, String)> = None;
            let mut n = t;
            // the case that is running, for the driver to find when the process dies
            let mut tf = (!trace.is_empty()).then(|| std::fs::File::create(format!("{trace}/{t}")).unwrap());
            'o: while (t0.elapsed() < Duration::from_secs_f64(secs) || n < min) && n < max && !stop.load(std::sync::atomic::Ordering::Relaxed) {
                for (k, (name, f)) in subs.iter().enumerate() {
                    let cs = hash(&format!("{seed}/{prop}/{name}/{n}"));
                    // the low bits number the case, so that enumerating checks see every index
                    let cs = (cs & !0xffff_ffff) | n;
                    if let Some(f) = &mut tf { use std::os::unix::fs::FileExt; let _ = f.write_all_at(format!("{name} {cs} {:40}", "").as_bytes(), 0); }
                    match run_one(*f, cs) {
                        Ok(c) => {
                            per[k].0 += 1;
                            if !c.trivial && per[k].1.len() < 4_000_000 { per[k].1.insert(hash(&c.desc)); if per[k].2.len() < 2 { per[k].2.push(cut(&c.desc, 600)); } }
                        }
                        Err(e) => { viol = Some((name.to_string(), cs, e)); stop.store(true, std::sync::atomic::Ordering::Relaxed); break 'o; }
                    }
                }
                n += threads;
            }
            (per, viol)
        }).unwrap()
    }).collect();
    let mut total: Vec<(u64, HashSet<u64>, Vec<String>)> = subs.iter().map(|_| (0, HashSet::new(), vec![])).collect();
    let mut viol = None;
    for h in hs {
        let (per, v) = h.join().unwrap();
        for (k, p) in per.into_iter().enumerate() { total[k].0 += p.0; total[k].1.extend(p.1); if total[k].2.len() < 2 { total[k].2.extend(p.2); } }
        if viol.is_none() { viol = v; }
    }
    let evals: u64 = total.iter().map(|t| t.0).sum();
    let distinct: usize = total.iter().map(|t| t.1.len()).sum();
    let mut o = format!("{{\"property\":{},\"seed\":{seed},\"evaluations\":{evals},\"distinct_nontrivial\":{distinct},\"wall_s\":{:.3},\"subs\":{{", js(&prop), t0.elapsed().as_secs_f64());
    for (k, (name, _)) in subs.iter().enumerate() { o += &format!("{}{}:{{\"evaluations\":{},\"distinct_nontrivial\":{}}}", if k > 0 { "," } else { "" }, js(name), total[k].0, total[k].1.len()); }
    o += "},\"samples\":[";
    let mut first = true;
    for (k, (name, _)) in subs.iter().enumerate() { for s in total[k].2.iter().take(1) { if !first { o += ","; } first = false; o += &js(&format!("{name}: {s}")); } }
    o += "]";
    if let Some((s, c, e)) = &viol { o += &format!(",\"violation\":{{\"sub\":{},\"case\":\"{c}\",\"message\":{}}}", js(s), js(&cut(e, 20000))); }
    o += "}";
    println!("{o}");
    if viol.is_some() { std::process::exit(1); }
}
