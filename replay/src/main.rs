extern crate alloc;
#[macro_use]
extern crate amplify;
mod choices;
mod codec;
mod eval;
mod mock;
mod value;

use std::time::Instant;

use choices::Choices;

/// one case of the search for `prop`: what is wrong (and the properties it violates), and its description
fn case(prop: &str, c: &mut Choices, full: bool) -> (Option<(Vec<String>, String)>, String) {
    match prop {
        "C12" | "C13" => codec::seals(prop, c),
        "C14" => codec::strict(c),
        "C15" => codec::cloning(c),
        "C18" => codec::serde(c),
        "C20" => codec::texts(c),
        _ => {
            let k = eval::generate(c);
            c.nontrivial = k.ops.len() > 1;
            let f = eval::run(&k);
            let d = if full { eval::describe(&k) } else { String::new() };
            (f.map(|f| (f.props.iter().map(|s| s.to_string()).collect(), f.what)), d)
        }
    }
}
fn hit(prop: &str, c: &mut Choices) -> Option<String> {
    let (f, _) = case(prop, c, false);
    f.filter(|(p, _)| p.iter().any(|x| x == prop)).map(|x| x.1)
}

fn shrink(prop: &str, mut v: Vec<u64>, consts: &[u64], t: Instant) -> Vec<u64> {
    let fails = |v: &[u64]| -> Option<Vec<u64>> {
        let mut c = Choices::replay(v.to_vec(), consts);
        hit(prop, &mut c).map(|_| c.taken)
    };
    let lim = |t: Instant| t.elapsed().as_secs() > 15;
    let mut again = true;
    while again && !lim(t) {
        again = false;
        let mut w = (v.len() / 2).max(1);
        while w >= 1 && !lim(t) {
            let mut i = 0;
            while i < v.len() && !lim(t) {
                let mut x = v.clone();
                x.drain(i..(i + w).min(v.len()));
                match fails(&x) {
                    Some(y) if y.len() < v.len() => { v = y; again = true }
                    _ => i += w,
                }
            }
            w /= 2;
        }
        let mut i = 0;
        while i < v.len() && !lim(t) {
            if v[i] != 0 {
                for z in [0, v[i] / 2, v[i] - 1] {
                    if z == v[i] { continue }
                    let mut x = v.clone();
                    x[i] = z;
                    if let Some(y) = fails(&x) { if y.len() <= v.len() { v = y; again = true; break } }
                }
            }
            i += 1;
        }
    }
    v
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let consts: Vec<u64> = get("--consts").map(|s| s.split(',').filter_map(|x| x.parse().ok()).collect()).unwrap_or_default();
    let prop = get("--prop").unwrap_or_else(|| "C01".into());
    match a.get(1).map(|s| s.as_str()) {
        Some("search") => {
            let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
            let secs: f64 = get("--secs").and_then(|s| s.parse().ok()).unwrap_or(10.0);
            let max: u64 = get("--max").and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
            let thr: u64 = get("--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
            let t = Instant::now();
            // the failing case as found, after the cases before it (what fails may depend on a state which outlives a case)
            let plain = a.iter().any(|x| x == "--noshrink");
            let best = std::sync::Mutex::new(None::<Vec<u64>>);
            let text = std::sync::Mutex::new(None::<(u64, String, String)>);
            let total = std::sync::atomic::AtomicU64::new(0);
            let distinct = std::sync::Mutex::new(std::collections::HashSet::<u64>::new());
            let other = std::sync::Mutex::new(std::collections::BTreeMap::<String, u64>::new());
            std::thread::scope(|sc| {
                for th in 0..thr {
                    let (best, text, total, prop, consts, other, distinct) = (&best, &text, &total, &prop, &consts, &other, &distinct);
                    std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
                        let mut n = 0;
                        let mut mine = std::collections::HashSet::new();
                        while n * thr < max && t.elapsed().as_secs_f64() < secs && best.lock().unwrap().is_none() {
                            let mut c = Choices::random(seed.wrapping_mul(1_000_003).wrapping_add(n * thr + th), consts);
                            let (f, d) = case(prop, &mut c, plain);
                            if c.nontrivial {
                                use std::hash::{Hash, Hasher};
                                let mut h = std::collections::hash_map::DefaultHasher::new();
                                c.taken.hash(&mut h);
                                mine.insert(h.finish());
                            }
                            if let Some((p, w)) = f {
                                if p.iter().any(|x| x == prop) { *best.lock().unwrap() = Some(c.taken.clone()); *text.lock().unwrap() = Some((n, w, d)); }
                                else { *other.lock().unwrap().entry(format!("{p:?} {}", w.chars().take(80).collect::<String>())).or_default() += 1 }
                            }
                            n += 1;
                        }
                        distinct.lock().unwrap().extend(mine);
                        total.fetch_add(n, std::sync::atomic::Ordering::SeqCst);
                    }).unwrap();
                }
            });
            println!("CASES {}", total.load(std::sync::atomic::Ordering::SeqCst));
            println!("DISTINCT {}", distinct.lock().unwrap().len());
            for (k, v) in other.lock().unwrap().iter().take(5) { println!("OTHER {v} {k}") }
            let b = best.lock().unwrap().clone();
            let found = text.lock().unwrap().take();
            if let (true, Some((n, w, d))) = (plain, found) {
                println!("FOUND {w}");
                println!("CASE {n}");
                println!("CHOICES {}", b.unwrap().iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
                println!("{d}");
            } else if let Some(v) = b {
                let v = shrink(&prop, v, &consts, Instant::now());
                let mut c = Choices::replay(v.clone(), &consts);
                let (f, d) = case(&prop, &mut c, true);
                let (p, w) = f.unwrap_or_default();
                println!("FOUND {w}");
                println!("PROPS {}", p.join(","));
                println!("CHOICES {}", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
                println!("{d}");
            } else { println!("NONE") }
        }
        Some("run") => {
            let v: Vec<u64> = get("--choices").unwrap_or_default().split(',').filter_map(|x| x.parse().ok()).collect();
            let mut c = Choices::replay(v, &consts);
            let (f, d) = case(&prop, &mut c, true);
            println!("{d}");
            match f {
                Some((p, w)) => { println!("FOUND {w}"); println!("PROPS {}", p.join(",")); std::process::exit(if p.contains(&prop) { 1 } else { 0 }) }
                None => println!("NONE"),
            }
        }
        Some("finding") => println!("{}", if eval::unknown_genesis_accepted() { "ACCEPTED" } else { "REJECTED" }),
        Some("stats") => {
            let mut m = std::collections::BTreeMap::<String, u64>::new();
            for n in 0..20000 {
                let mut c = Choices::random(n, &consts);
                let k = eval::generate(&mut c);
                let mut sim = eval::Sim::new(&k.model);
                for b in &k.ops {
                    let s = sim.judge(b);
                    let t = if s.bad.is_empty() { format!("valid first={} known={} ins={} wit={} seals={}", s.first, s.known, s.inputs.len().min(2), s.witness.is_some(), s.defs.len().min(1)) } else { format!("{:?}", s.bad[0]).chars().take(8).collect() };
                    *m.entry(t).or_default() += 1;
                    sim.accept(&s);
                }
            }
            for (k, v) in m { println!("{v:8} {k}") }
        }
        _ => eprintln!("usage: replay search|run|finding --prop P ..."),
    }
}
