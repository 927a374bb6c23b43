//! Differential search and replay against the real crate (/repo, path dependency).
//!
//! harness selftest
//! harness run PROP smoke|deep|guided SECONDS SEED SHARD SHARDS DICT CUR OUT   (exit 0 nothing found, 1 found)
//! harness replay FILE                                            (exit 0 holds, 1 fails)

mod cases;
mod cov;
mod gen;
mod mutate;
mod refimpl;
mod steer;

use cases::{judge, parse_case, show_case, Case};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

static TICK: AtomicU64 = AtomicU64::new(0);

pub fn run_case(prop: &str, c: &Case) -> Result<(), String> {
    cases::judge_apart(prop, &|| run_once(prop, c))
}

fn run_once(prop: &str, c: &Case) -> Result<(), String> {
    match catch_unwind(AssertUnwindSafe(|| judge(prop, c))) {
        Ok(r) => r,
        Err(e) => {
            let m = if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            Err(format!("panicked: {}", m))
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("selftest") => match refimpl::selftest().and_then(|n| steer::selftest().map(|_| n)) {
            Ok(n) => {
                println!("selftest {} known answers", n);
                0
            }
            Err(e) => {
                println!("{}", e);
                2
            }
        },
        Some("block") => cases::block(&a[2..]),
        Some("replay") => replay(&a[2]),
        Some("run") => run(&a[2..]),
        Some("instrumented") => {
            println!("{}", cov::available());
            0
        }
        _ => 2,
    };
    std::process::exit(code);
}

fn replay(path: &str) -> i32 {
    let text = std::fs::read_to_string(path).unwrap();
    let mut prop = String::new();
    let mut bad = 0;
    for l in text.lines() {
        if let Some(p) = l.strip_prefix("property ") {
            prop = p.trim().to_string();
        } else if let Some(c) = l.strip_prefix("case ") {
            match parse_case(c) {
                None => {
                    println!("cannot parse: {}", c);
                    return 2;
                }
                Some(c) => {
                    if let Err(e) = run_case(&prop, &c) {
                        println!("FAILS property={} {}\n  {}", prop, show_case(&c), e);
                        bad = 1;
                    }
                }
            }
        }
    }
    if bad == 0 {
        println!("holds property={}", prop);
    }
    bad
}

fn run(a: &[String]) -> i32 {
    let prop = a[0].as_str();
    let guided = a[1] == "guided" && cov::available();
    let deep = a[1] != "smoke";
    let secs: f64 = a[2].parse().unwrap();
    let seed: u64 = a[3].parse().unwrap();
    let shard: u64 = a[4].parse().unwrap();
    let shards: u64 = a[5].parse().unwrap();
    let dict = gen::Dict::load(&a[6]);
    let cur = std::fs::File::create(&a[7]).unwrap();
    let out = &a[8];

    // watchdog: a case that runs for minutes does not terminate
    let limit = if deep { 240 } else { 60 };
    {
        std::thread::spawn(move || {
            let mut last = (0, Instant::now());
            loop {
                std::thread::sleep(Duration::from_millis(500));
                let t = TICK.load(Ordering::Relaxed);
                if t != last.0 {
                    last = (t, Instant::now());
                } else if last.1.elapsed().as_secs() > limit {
                    std::process::exit(4); // the driver reads the case from CUR
                }
            }
        });
    }

    let start = Instant::now();
    let mut g = gen::Gen::new(prop, deep, seed.wrapping_mul(1_000_003).wrapping_add(shard), dict);
    let mut n: u64 = 0;
    let mut classes = std::collections::BTreeMap::<String, u64>::new();
    let mut hist: Vec<String> = Vec::new();
    let mut samples: Vec<String> = Vec::new();
    let mut sys = g.systematic();
    let nsys = if guided { 0 } else { sys.len() };
    let mut corpus = mutate::Corpus::new(prop, seed.wrapping_mul(77_777_777).wrapping_add(shard));
    if guided {
        // the others run these cases; here they are where the guided search starts
        sys.retain(mutate::Corpus::cheap);
        let keep = sys.len() / 400 + 1;
        let mut k = shard as usize;
        sys.retain(|_| {
            k += 1;
            k % keep == 0
        });
    }
    let mut it = sys.into_iter().enumerate().filter(|(i, _)| guided || *i as u64 % shards == shard).map(|(_, c)| c);
    let mut sys_done = true;
    loop {
        let c = match it.next() {
            Some(c) => {
                // the systematic part always gets twice the time before it is cut
                if start.elapsed().as_secs_f64() > 2.0 * secs {
                    sys_done = false;
                    break;
                }
                c
            }
            None => {
                if start.elapsed().as_secs_f64() > secs {
                    break;
                }
                if guided {
                    corpus.next(&mut g)
                } else {
                    g.random()
                }
            }
        };
        let line = show_case(&c);
        let mut w = line.clone().into_bytes();
        w.push(b'\n');
        let _ = cur.write_at(&w, 0);
        TICK.fetch_add(1, Ordering::Relaxed);
        if hist.len() >= 4000 {
            hist.drain(..2000);
        }
        hist.push(line.clone());
        if guided {
            cov::begin();
        }
        let r = run_case(prop, &c);
        if guided {
            let (fresh, taken) = cov::end();
            corpus.note(c.clone(), fresh, taken);
        }
        n += 1;
        *classes.entry(cases::class(&c)).or_insert(0) += 1;
        if samples.len() < 4 && (n == 1 || n % 97 == 0) {
            samples.push(line.chars().take(300).collect());
        }
        if let Err(e) = r {
            let mut f = std::fs::File::create(out).unwrap();
            writeln!(f, "property {}", prop).unwrap();
            for h in &hist {
                writeln!(f, "case {}", h).unwrap();
            }
            writeln!(f, "why {}", e).unwrap();
            return 1;
        }
    }
    let mut f = std::fs::File::create(out).unwrap();
    writeln!(f, "evaluations {}", n).unwrap();
    writeln!(f, "systematic {} {}", nsys, sys_done).unwrap();
    writeln!(f, "distinct {}", classes.len()).unwrap();
    if guided {
        let (a, b) = cov::covered();
        writeln!(f, "guided {} {} {} {}", n, corpus.entries.len(), a, b).unwrap();
    }
    for s in samples {
        writeln!(f, "sample {}", s).unwrap();
    }
    0
}
