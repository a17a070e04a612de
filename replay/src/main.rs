//! Bounded checks against reference semantics, used to replay failed obligations on the real code and as
//! the labelled stand-in for functions the verifier could not take.
//!   replay PID --secs S --seed N [--iter K] [--progress FILE] [--out FILE]
mod cmp;
mod generate;
mod imp;
mod props;
mod rec;
mod refm;
mod rng;
#[cfg(feature = "vello")]
mod vel;

use std::time::{Duration, Instant};
type Prop = fn(&mut rng::Rng, u64) -> Result<(), String>;

fn table(p: &str) -> Option<Prop> {
    Some(match p {
        "P01" => props::p01,
        "P02" => props::p02,
        "P03" => props::p03,
        "P04" => props::p04,
        "P05" => props::p05,
        "P06" => props::p06,
        "P07" => props::p07,
        "P08" => props::p08,
        "P09" => props::p09,
        "P10" => props::p10,
        "P11" => props::p11,
        "P12" => props::p12,
        "P13" => props::p13,
        "P14" => props::p14,
        "P15" => props::p15,
        "P16" => props::p16,
        "P17" => props::p17,
        "P18" => imp::p18,
        "P19" => imp::p19,
        "P20" => imp::p20,
        "P21" => imp::p21,
        "P22" => imp::p22,
        "P23" => imp::p23,
        "P24" => props::p24,
        "P25" => props::p25,
        "P28" => props::p28,
        "P29" => imp::p29,
        "P31" => imp::p31,
        "P30" => props::p30,
        #[cfg(feature = "vello")]
        "P27" => vel::p27,
        _ => return None,
    })
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let pid = args[1].clone();
    let opt = |n: &str| args.iter().position(|a| a == n).map(|i| args[i + 1].clone());
    let secs: f64 = opt("--secs").map_or(5.0, |s| s.parse().unwrap());
    let seed: u64 = opt("--seed").map_or(1, |s| s.parse().unwrap());
    let only: Option<u64> = opt("--iter").map(|s| s.parse().unwrap());
    let max: u64 = opt("--max").map_or(u64::MAX, |s| s.parse().unwrap());
    let progress = opt("--progress");
    let f = table(&pid).expect("unknown property");
    let last = std::sync::Arc::new(std::sync::Mutex::new(String::new()));
    let l2 = last.clone();
    std::panic::set_hook(Box::new(move |i| {
        *l2.lock().unwrap() = format!("{i}");
    }));
    let start = Instant::now();
    let mut n = 0u64;
    let progress = progress.map(|p| std::fs::File::create(p).expect("progress file"));
    let run = |i: u64| -> Option<String> {
        if let Some(p) = &progress {
            use std::os::unix::fs::FileExt;
            let _ = p.write_all_at(format!("{i:20}").as_bytes(), 0);
        }
        let mut r = rng::Rng::new(seed, &pid, i);
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut r, i))) {
            Ok(Ok(())) => None,
            Ok(Err(e)) => Some(e),
            Err(_) => Some(format!("panic: {}", last.lock().unwrap())),
        }
    };
    let mut fail = None;
    if let Some(i) = only {
        n = 1;
        fail = run(i).map(|e| (i, e));
    } else {
        for i in 0..max {
            if start.elapsed() > Duration::from_secs_f64(secs) {
                break;
            }
            n += 1;
            if let Some(e) = run(i) {
                fail = Some((i, e));
                break;
            }
        }
    }
    let out = match &fail {
        None => serde_json::json!({"property": pid, "cases": n, "seed": seed, "secs": start.elapsed().as_secs_f64()}),
        Some((i, e)) => serde_json::json!({"property": pid, "cases": n, "seed": seed, "iter": i, "failure": e}),
    };
    println!("{out}");
    if fail.is_some() {
        std::process::exit(1);
    }
}
