//! `replay P01 [--seed S] [--scale N] [--seconds T] [--out FILE] [--only suite:seed]`
//! Runs the executable contract of one property against the real library and
//! writes a report. Exit code 0 whenever a report was written.
#![allow(clippy::all)]
mod drive;
mod exifs;
mod isom;
mod jpegs;
mod misc;
mod pngs;
mod tiff;
mod util;
mod webm;
use std::time::{Duration, Instant};
use util::*;

#[global_allocator]
static ALLOC: Counting = Counting;

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let num = |k: &str, d: usize| get(k).and_then(|s| s.parse().ok()).unwrap_or(d);
    let property = a.first().cloned().expect("property");
    let out = get("--out").unwrap_or("/dev/stdout".into());
    let only = get("--only").map(|s| {
        let (n, c) = s.rsplit_once(':').expect("suite:seed");
        (n.to_string(), c.parse().expect("case seed"))
    });
    if let Some(f) = get("--status") {
        *STATUS.lock().unwrap() = std::fs::File::create(f).ok();
    }
    start_watchdog(Duration::from_secs(num("--hang", 20) as u64), out.clone(), property.clone());
    let mut x = Ctx {
        property: property.clone(),
        scale: num("--scale", 100),
        seed: num("--seed", 1) as u64,
        only,
        verbose: a.iter().any(|x| x == "-v"),
        deadline: Some(Instant::now() + Duration::from_secs(num("--seconds", 60) as u64)),
        ..Default::default()
    };
    let run = |x: &mut Ctx| match property.as_str() {
        "P01" => exifs::p01(x),
        "P02" => exifs::p02(x),
        "P03" => exifs::p03(x),
        "P04" => jpegs::p04(x),
        "P05" => jpegs::p05(x),
        "P06" => isom::p06(x),
        "P07" => isom::p07(x),
        "P08" => webm::p08(x),
        "P09" => pngs::p09(x),
        "P10" => misc::p10(x),
        "P11" => misc::p11(x),
        "P12" => misc::p12(x),
        "P13" => misc::p13(x),
        "P14" => exifs::p14(x),
        "P15" => exifs::p15(x),
        "P16" => misc::p16(x),
        "P17" => misc::p17(x),
        "P18" => exifs::p18(x),
        p => panic!("no suites for {p}"),
    };
    // deep recursion in the library shows as a crash of the whole process, with
    // the status file naming the case
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, || run(&mut x)).unwrap().join().unwrap()
    });
    write_report(&out, &property, &x.violations, x.evals, x.distinct.len(), &x.tallies, &x.samples);
}
