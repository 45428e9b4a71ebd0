//! Runs contracts natively.
//!
//! replay search PROPERTY SEED SECONDS OUT.json SLOTS    search for a violation
//! replay seed NAME SEED                                 run one contract on generated inputs
//! replay values NAME HEX,HEX,...                        run one contract on given inputs
//! replay list                                           list all contracts

use std::any::Any;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use vcontracts::nd::{Concrete, Skip};
use vcontracts::{all, Entry, Kind};

enum Verdict {
    Ok,
    Skipped,
    Failed(String),
}

fn text(payload: &(dyn Any + Send)) -> String {
    if let Some(s) = payload.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = payload.downcast_ref::<&str>() {
        (*s).to_owned()
    } else {
        "panic".to_owned()
    }
}

fn run(e: &Entry, n: &mut Concrete) -> Verdict {
    match catch_unwind(AssertUnwindSafe(|| (e.run)(n))) {
        Ok(()) => Verdict::Ok,
        Err(p) if p.is::<Skip>() => Verdict::Skipped,
        Err(p) => Verdict::Failed(text(&*p)),
    }
}

fn hex(values: &[Vec<u8>]) -> String {
    values
        .iter()
        .map(|v| v.iter().map(|b| format!("{:02x}", b)).collect::<String>())
        .collect::<Vec<_>>()
        .join(",")
}

fn unhex(s: &str) -> Vec<Vec<u8>> {
    s.split(',')
        .filter(|v| !v.is_empty())
        .map(|v| (0..v.len() / 2).map(|i| u8::from_str_radix(&v[i * 2..i * 2 + 2], 16).unwrap()).collect())
        .collect()
}

fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            c if (c as u32) < 0x20 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

fn location() -> Arc<Mutex<String>> {
    let loc = Arc::new(Mutex::new(String::new()));
    let l2 = loc.clone();
    std::panic::set_hook(Box::new(move |info| {
        if let Some(l) = info.location() {
            *l2.lock().unwrap() = format!("{}:{}", l.file(), l.line());
        }
    }));
    loc
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let loc = location();
    match args[0].as_str() {
        "list" => {
            for e in all() {
                println!("{} {} {:?}", e.property, e.name, e.kind);
            }
        }
        "values" => {
            let e = *all().iter().find(|e| e.name == args[1]).expect("No such contract");
            let mut n = Concrete::replay(unhex(args.get(2).map(|s| s.as_str()).unwrap_or("")));
            match run(&e, &mut n) {
                Verdict::Ok => println!("held"),
                Verdict::Skipped => println!("skipped: inputs violate a precondition"),
                Verdict::Failed(m) => {
                    println!("VIOLATED {} at {}: {}", e.name, loc.lock().unwrap(), m);
                    std::process::exit(1);
                }
            }
        }
        "seed" => {
            let e = *all().iter().find(|e| e.name == args[1]).expect("No such contract");
            let mut n = Concrete::random(args[2].parse().unwrap());
            match run(&e, &mut n) {
                Verdict::Ok => println!("held"),
                Verdict::Skipped => println!("skipped: inputs violate a precondition"),
                Verdict::Failed(m) => {
                    println!("VIOLATED {} at {}: {}", e.name, loc.lock().unwrap(), m);
                    std::process::exit(1);
                }
            }
        }
        "search" => {
            let (property, seed, secs) = (&args[1], args[2].parse::<u64>().unwrap(), args[3].parse::<f64>().unwrap());
            let entries: Vec<Entry> = all()
                .into_iter()
                .filter(|e| e.property == property)
                .collect();
            let slots = std::fs::File::create(&args[5]).unwrap();
            slots.set_len(8 * 16).unwrap();
            assert!(!entries.is_empty(), "no contracts for {}", property);
            let total: u64 = entries.iter().filter(|e| e.kind != Kind::Finding).map(|e| u64::from(e.weight)).sum();
            let failed = AtomicBool::new(false);
            let report = Mutex::new(vec![]);
            let counts: Vec<AtomicU64> = entries.iter().map(|_| AtomicU64::new(0)).collect();
            let threads = 8u64;
            std::thread::scope(|s| {
                for t in 0..threads {
                    let (entries, failed, report, counts, loc) = (&entries, &failed, &report, &counts, &loc);
                    let slots = &slots;
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(s, move || {
                            for (i, e) in entries.iter().enumerate() {
                                if e.kind == Kind::Finding {
                                    continue;
                                }
                                let budget = Duration::from_secs_f64(secs * f64::from(e.weight) / total as f64);
                                // Thorough runs are bounded by time; quick ones mostly by weight.
                                let limit = if secs > 600.0 { u64::MAX } else { u64::from(e.weight) / threads + 1 };
                                let start = Instant::now();
                                let mut k = 0u64;
                                while k < limit && !failed.load(Ordering::Relaxed) {
                                    if start.elapsed() > budget && k >= 16 {
                                        break;
                                    }
                                    let this = seed.wrapping_mul(1_000_003) ^ (t << 48) ^ ((i as u64) << 56) ^ k;
                                    let mut slot = [0u8; 16];
                                    slot[..8].copy_from_slice(&(i as u64 + 1).to_le_bytes());
                                    slot[8..].copy_from_slice(&this.to_le_bytes());
                                    slots.write_all_at(&slot, t * 16).unwrap();
                                    let mut n = Concrete::random(this);
                                    match run(e, &mut n) {
                                        Verdict::Failed(m) => {
                                            if !failed.swap(true, Ordering::Relaxed) {
                                                report.lock().unwrap().push((e.name, hex(&n.log), m, loc.lock().unwrap().clone()));
                                            }
                                        }
                                        Verdict::Ok => {
                                            counts[i].fetch_add(1, Ordering::Relaxed);
                                        }
                                        Verdict::Skipped => (),
                                    }
                                    k += 1;
                                }
                            }
                        })
                        .unwrap();
                }
            });
            let mut o = String::from("{\"executions\": {");
            for (i, e) in entries.iter().enumerate() {
                if i > 0 {
                    o += ", ";
                }
                o += &format!("{}: {}", quote(e.name), counts[i].load(Ordering::Relaxed));
            }
            o += "}, \"failures\": [";
            for (i, (name, values, message, at)) in report.lock().unwrap().iter().enumerate() {
                if i > 0 {
                    o += ", ";
                }
                o += &format!(
                    "{{\"contract\": {}, \"values\": {}, \"message\": {}, \"at\": {}}}",
                    quote(name), quote(values), quote(message), quote(at)
                );
            }
            o += "]}\n";
            std::fs::File::create(&args[4]).unwrap().write_all(o.as_bytes()).unwrap();
        }
        _ => panic!("usage"),
    }
}
