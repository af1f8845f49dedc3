//! Runs the property oracles on the real crate: directed random inputs, or one given input.
//!
//!   replay <ID> --seed S --max N --secs T [--out FILE]    search for a failing input
//!   replay <ID> --input FILE                              evaluate one recorded input
//!   replay calls --seed S --max N --out FILE              write calls of the Python interface (for C18)
//!   replay lib --input FILE                               print what the library computes (for C18)
//!
//! Exit 0: no failing input; 1: failing input (written to --out); 2: usage.
mod basic;
mod cells;
mod common;
mod groups;
mod pylib;
mod sym;

use common::*;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

type Gen = fn(&mut Rng, u64) -> Input;
type Check = fn(&Input) -> Res;

fn oracle(id: &str) -> Option<(Gen, Check)> {
    Some(match id {
        "C01" => (basic::gen01, basic::check01),
        "C02" => (basic::gen02, basic::check02),
        "C03" => (basic::gen03, basic::check03),
        "C04" => (basic::gen04, basic::check04),
        "C05" => (cells::gen05, cells::check05),
        "C06" => (cells::gen06, cells::check06),
        "C07" => (cells::gen07, cells::check07),
        "C08" => (cells::gen08, cells::check08),
        "C09" => (basic::gen09, basic::check09),
        "C10" => (groups::gen10, groups::check10),
        "C11" => (groups::gen11, groups::check11),
        "C12" => (groups::gen12, groups::check12),
        "C13" => (sym::gen13, sym::check13),
        "C14" => (groups::gen14, groups::check14),
        "C15" => (basic::gen15, basic::check15),
        "C16" => (sym::gen16, sym::check16),
        "C17" => (basic::gen17, basic::check17),
        "C19" => (sym::gen19, sym::check19),
        "C20" => (sym::gen20, sym::check20),
        "C21" => (basic::gen21, basic::check21),
        _ => return None,
    })
}

fn guarded(check: Check, i: &Input) -> Res {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| check(i))) {
        Ok(r) => r,
        Err(e) => Res::Fail(format!(
            "result cannot be evaluated: {}",
            e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
        )),
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    skipped: u64,
    labels: BTreeMap<String, u64>,
    skips: BTreeMap<String, u64>,
    known: BTreeMap<String, u64>,
    seen: HashSet<u64>,
    samples: BTreeMap<u64, String>,
    fail: Option<(u64, String, Input)>,
}

fn report(s: &Stats, secs: f64) {
    let m = |m: &BTreeMap<String, u64>| m.iter().take(60).map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", ");
    let smp: Vec<String> = s.samples.values().take(3).map(|t| json_str(t)).collect();
    println!(
        "{{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"skipped\": {}, \"labels\": {{{}}}, \"skips\": {{{}}}, \"known\": {{{}}}, \"samples\": [{}], \"wall_s\": {:.3}, \"fail\": {}}}",
        s.evaluations, s.seen.len(), s.skipped, m(&s.labels), m(&s.skips), m(&s.known), smp.join(", "), secs,
        match &s.fail { Some((k, f, _)) => format!("{{\"iteration\": {}, \"message\": {}}}", k, json_str(f)), None => "null".into() }
    );
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str| a.iter().position(|x| x == k).and_then(|p| a.get(p + 1)).cloned();
    let id = a.get(1).cloned().unwrap_or_default();
    std::panic::set_hook(Box::new(|_| {}));
    if id == "calls" {
        let (s, n) = (opt("--seed").expect("--seed").parse().unwrap(), opt("--max").expect("--max").parse().unwrap());
        std::fs::write(opt("--out").expect("--out"), pylib::calls(s, n).text()).expect("cannot write the calls");
        return;
    }
    if id == "lib" {
        let t = std::fs::read_to_string(opt("--input").expect("--input")).expect("input file");
        println!("{}", pylib::run(&Input::parse(&t)));
        return;
    }
    let (gen, check) = match oracle(&id) {
        Some(o) => o,
        None => {
            eprintln!("unknown property {}", id);
            std::process::exit(2);
        }
    };
    let t0 = Instant::now();
    let stats = Mutex::new(Stats::default());
    let out = opt("--out");
    let finish = |s: &Stats| -> ! {
        if let (Some((_, m, i)), Some(o)) = (&s.fail, &out) {
            std::fs::write(o, format!("# property {}\n# {}\n{}", id, m.replace('\n', " "), i.text())).expect("cannot write the failing input");
        }
        report(s, t0.elapsed().as_secs_f64());
        std::process::exit(if s.fail.is_some() { 1 } else { 0 });
    };
    let given = opt("--input").map(|f| Input::parse(&std::fs::read_to_string(f).expect("input file")));
    let seed: u64 = opt("--seed").and_then(|x| x.parse().ok()).unwrap_or(1);
    let max: u64 = if given.is_some() { 1 } else { opt("--max").and_then(|x| x.parse().ok()).unwrap_or(1000) };
    let secs: f64 = opt("--secs").and_then(|x| x.parse().ok()).unwrap_or(60.0);
    let hang: f64 = opt("--hang").and_then(|x| x.parse().ok()).unwrap_or(20.0);
    let threads: usize = opt("--threads").and_then(|x| x.parse().ok()).unwrap_or(8);
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let live = AtomicU64::new(threads as u64);
    let busy: Vec<Mutex<Option<(Instant, u64, Input)>>> = (0..threads).map(|_| Mutex::new(None)).collect();
    std::thread::scope(|sc| {
        for w in 0..threads {
            let (stats, next, stop, busy, given, live) = (&stats, &next, &stop, &busy, &given, &live);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, move || {
                    loop {
                        let k = next.fetch_add(1, Ordering::SeqCst);
                        if k >= max || stop.load(Ordering::SeqCst) || (t0.elapsed().as_secs_f64() > secs && given.is_none()) {
                            break;
                        }
                        let i = match given {
                            Some(i) => i.clone(),
                            None => gen(&mut Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(k)), k),
                        };
                        *busy[w].lock().unwrap() = Some((Instant::now(), k, i.clone()));
                        let r = guarded(check, &i);
                        *busy[w].lock().unwrap() = None;
                        let mut s = stats.lock().unwrap();
                        s.evaluations += 1;
                        match r {
                            Res::Ok(l) => {
                                *s.labels.entry(l).or_default() += 1;
                                s.seen.insert(i.hash());
                                if k < 6 {
                                    s.samples.insert(k, i.text());
                                }
                            }
                            Res::Skip(m) => {
                                s.skipped += 1;
                                *s.skips.entry(m).or_default() += 1;
                            }
                            Res::Known(m) => {
                                *s.known.entry(m).or_default() += 1;
                            }
                            Res::Fail(m) => {
                                if s.fail.as_ref().map(|f| f.0 > k).unwrap_or(true) {
                                    s.fail = Some((k, m, i));
                                }
                                stop.store(true, Ordering::SeqCst);
                            }
                        }
                    }
                    live.fetch_sub(1, Ordering::SeqCst);
                })
                .expect("thread");
        }
        // Watchdog: library code that does not come back is a failure of its input.
        while live.load(Ordering::SeqCst) > 0 {
            std::thread::sleep(Duration::from_millis(5));
            for b in &busy {
                let hung = match &*b.lock().unwrap() {
                    Some((t, k, i)) if t.elapsed().as_secs_f64() > hang => Some((*k, i.clone())),
                    _ => None,
                };
                if let Some((k, i)) = hung {
                    let mut s = stats.lock().unwrap();
                    if s.fail.is_none() {
                        s.fail = Some((k, format!("no result within {} s", hang), i));
                    }
                    finish(&s);
                }
            }
        }
    });
    let s = stats.into_inner().unwrap();
    finish(&s);
}
