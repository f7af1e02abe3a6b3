//! Bounded exploration of the library's behaviour against an independent
//! reference. Used to confirm and to illustrate failed proof obligations, and
//! as the labelled bounded stand-in for functions the verifier cannot take.
mod base;
mod cmp;
mod gen;
mod jr;
mod known;
mod mk;
mod pure;
mod refr;
mod scn;

use base::Rng;
use std::collections::{BTreeSet, HashSet};
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Fail {
    pub tags: BTreeSet<&'static str>,
    pub desc: String,
}
#[derive(Default)]
pub struct Ctx {
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub fails: Vec<Fail>,
    /// What is being run right now, for reports about hangs.
    pub now: Option<Arc<Mutex<String>>>,
}
impl Ctx {
    pub fn fail(&mut self, tags: &[&'static str], desc: String) {
        self.fails.push(Fail { tags: tags.iter().copied().collect(), desc });
    }
    pub fn seen(&mut self, s: &str) {
        self.evals += 1;
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        for b in s.bytes() {
            h = (h ^ u64::from(b)).wrapping_mul(0x100_0000_01b3);
        }
        if self.distinct.len() < 2_000_000 && self.distinct.insert(h) && self.samples.len() < 12 && self.distinct.len() % 37 == 1 {
            self.samples.push(s.chars().take(300).collect());
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    cmp::hook();
    match a.get(1).map(String::as_str) {
        Some("run") => run(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), &a[5]),
        Some("one") => {
            // one ID SCENARIO SEED
            let mut c = Ctx::default();
            let id = a[2].clone();
            let sc = a[3].clone();
            let seed: u64 = a[4].parse().unwrap();
            let f = scn::by_name(&sc).expect("unknown scenario");
            let t = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
                f(&mut Rng::new(seed), &mut c);
                c
            });
            let t = t.unwrap();
            let st = Instant::now();
            while !t.is_finished() {
                std::thread::sleep(Duration::from_millis(20));
                if st.elapsed().as_secs() > 120 {
                    println!("no answer after 120 s");
                    std::process::exit(1);
                }
            }
            let c = t.join().unwrap();
            let mut n = 0;
            for f in &c.fails {
                if f.tags.contains(id.as_str()) || id == "any" {
                    println!("{:?} {}", f.tags, f.desc);
                    n += 1;
                }
            }
            std::process::exit(if n > 0 { 1 } else { 0 });
        }
        Some("known") => known::run(&a[2]),
        Some("scenarios") => {
            for s in scn::plan(&a[2]) {
                println!("{} {}", s.0, s.1);
            }
        }
        _ => {
            eprintln!("usage: harness run ID SECONDS SEED OUTDIR | one ID SCENARIO SEED | known ID");
            std::process::exit(2);
        }
    }
}

struct Slot {
    start: Mutex<Option<(Instant, String, u64)>>,
    now: Arc<Mutex<String>>,
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn run(id: &str, secs: u64, seed: u64, out: &str) {
    std::fs::create_dir_all(out).unwrap();
    let plan = scn::plan(id);
    let total: u64 = plan.iter().map(|p| p.1).sum();
    let threads = std::thread::available_parallelism().map_or(4, |n| n.get()).clamp(1, 8);
    let next = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicU64::new(0));
    let all = Arc::new(Mutex::new((Ctx::default(), Vec::<(Fail, String, u64)>::new(), std::collections::BTreeMap::<String, u64>::new())));
    let slots: Vec<Arc<Slot>> = (0..threads).map(|_| Arc::new(Slot { start: Mutex::new(None), now: Default::default() })).collect();
    let t0 = Instant::now();
    let mut hs = vec![];
    for k in 0..threads {
        let (next, stop, all, slot) = (next.clone(), stop.clone(), all.clone(), slots[k].clone());
        let plan = plan.clone();
        let id = id.to_string();
        let cur = format!("{out}/cur.{k}");
        hs.push(
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || {
                    while stop.load(SeqCst) == 0 && t0.elapsed().as_secs() < secs {
                        let n = next.fetch_add(1, SeqCst);
                        // Every scenario gets its turns in the same order each run.
                        let mut x = n % total;
                        let mut sc = plan[0].0;
                        for p in &plan {
                            if x < p.1 {
                                sc = p.0;
                                break;
                            }
                            x -= p.1;
                        }
                        let cs = seed.wrapping_mul(1_000_003).wrapping_add(n);
                        *slot.start.lock().unwrap() = Some((Instant::now(), sc.to_string(), cs));
                        let _ = std::fs::write(&cur, format!("{sc} {cs}\n"));
                        let mut c = Ctx { now: Some(slot.now.clone()), ..Default::default() };
                        let f = scn::by_name(sc).unwrap();
                        let w = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut Rng::new(cs), &mut c)));
                        if w.is_err() {
                            // The generator itself failed: not a result.
                            *slot.start.lock().unwrap() = None;
                            let _ = std::fs::remove_file(&cur);
                            *all.lock().unwrap().2.entry("generator_failed".into()).or_default() += 1;
                            continue;
                        }
                        if std::env::var("HSLOW").is_ok() {
                            let t = slot.start.lock().unwrap().as_ref().map_or(0, |x| x.0.elapsed().as_millis());
                            if t > 2000 {
                                eprintln!("slow {t} ms: {sc} {cs}");
                            }
                        }
                        *slot.start.lock().unwrap() = None;
                        let _ = std::fs::remove_file(&cur);
                        let mut g = all.lock().unwrap();
                        g.0.evals += c.evals;
                        if g.0.distinct.len() < 3_000_000 {
                            g.0.distinct.extend(c.distinct);
                        }
                        if g.0.samples.len() < 20 {
                            g.0.samples.extend(c.samples.into_iter().take(2));
                        }
                        *g.2.entry(sc.to_string()).or_default() += 1;
                        for f in c.fails {
                            if f.tags.contains(id.as_str()) || id == "any" {
                                g.1.push((f, sc.to_string(), cs));
                                stop.store(1, SeqCst);
                            }
                        }
                    }
                })
                .unwrap(),
        );
    }
    let mut hang = None;
    // The operation each thread was last seen in, and since when.
    let mut seen: Vec<(u64, String, Instant)> = (0..threads).map(|_| (0, String::new(), Instant::now())).collect();
    loop {
        std::thread::sleep(Duration::from_millis(50));
        if hs.iter().all(|h| h.is_finished()) {
            break;
        }
        for (k, s) in slots.iter().enumerate() {
            if let Some((_, sc, cs)) = &*s.start.lock().unwrap() {
                let now = s.now.lock().unwrap();
                if seen[k].0 != *cs || seen[k].1 != *now {
                    seen[k] = (*cs, now.clone(), Instant::now());
                } else if seen[k].2.elapsed().as_secs() > 40 {
                    hang = Some((sc.clone(), *cs, now.clone()));
                }
            }
        }
        if hang.is_some() {
            break;
        }
    }
    let g = all.lock().unwrap();
    let mut fails: Vec<String> = g
        .1
        .iter()
        .take(5)
        .map(|(f, sc, cs)| {
            format!(
                "{{\"tags\":[{}],\"desc\":{},\"scenario\":{},\"seed\":{cs}}}",
                f.tags.iter().map(|t| esc(t)).collect::<Vec<_>>().join(","),
                esc(&f.desc),
                esc(sc)
            )
        })
        .collect();
    if let Some((sc, cs, now)) = &hang {
        fails.push(format!(
            "{{\"tags\":[\"C02\"],\"desc\":{},\"scenario\":{},\"seed\":{cs}}}",
            esc(&format!("no answer after 40 s: {now}")),
            esc(sc)
        ));
    }
    let runs: Vec<String> = g.2.iter().map(|(k, v)| format!("{}:{v}", esc(k))).collect();
    let samples: Vec<String> = g.0.samples.iter().take(20).map(|s| esc(s)).collect();
    let s = format!(
        "{{\"evaluations\":{},\"distinct\":{},\"cases\":{{{}}},\"samples\":[{}],\"failures\":[{}],\"seconds\":{:.1}}}\n",
        g.0.evals,
        g.0.distinct.len(),
        runs.join(","),
        samples.join(","),
        fails.join(","),
        t0.elapsed().as_secs_f64()
    );
    let mut f = std::fs::File::create(format!("{out}/summary.json")).unwrap();
    f.write_all(s.as_bytes()).unwrap();
    std::process::exit(if fails.is_empty() { 0 } else { 1 });
}
