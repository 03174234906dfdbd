//! replay PROPERTY --seed N --ms N --cases N --out FILE : runs the property's engine against the crate as it is now.
//! replay PROPERTY --case SEED               : runs one case again, verbosely.
//! replay --known                            : reproduces the known findings.
mod base;
mod dump;
mod gen;
mod props;
mod refdec;
use base::*;
use std::collections::HashSet;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::sync::atomic::Ordering::*;

#[global_allocator]
static A: Alloc = Alloc;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32), c => o.push(c) } }
    o + "\""
}
fn main() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let l = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        ARMED.set(false);
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("panic: {m}{l}"));
    }));
    let a: Vec<String> = std::env::args().skip(1).collect();
    let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    if a[0] == "--known" { props::known(); return; }
    let prop = a[0].clone();
    let engine = props::engine(&prop).unwrap_or_else(|| { eprintln!("no engine for {prop}"); std::process::exit(3) });
    if let Some(c) = opt("--case") {
        let seed: u64 = c.parse().unwrap();
        let mut st = props::Stat::default();
        match run(engine, seed, &mut st) {
            Ok(()) => println!("case {seed}: ok"),
            Err(e) => { println!("case {seed}: {e}"); std::process::exit(1) }
        }
        return;
    }
    let seed: u64 = opt("--seed").map(|s| s.parse().unwrap()).unwrap_or(1);
    let ms: u128 = opt("--ms").map(|s| s.parse().unwrap()).unwrap_or(3000);
    let cases: u64 = opt("--cases").map(|s| s.parse().unwrap()).unwrap_or(u64::MAX);
    let out = opt("--out").expect("--out");
    let cur = std::fs::File::create(format!("{out}.cur")).unwrap();
    let t0 = std::time::Instant::now();
    let tick = std::sync::Arc::new(std::sync::atomic::AtomicU64::new(0));
    let t2 = tick.clone();
    std::thread::spawn(move || {
        let mut last = (u64::MAX, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let n = t2.load(Relaxed);
            if n == last.0 { last.1 += 1; } else { last = (n, 0); }
            if last.1 >= 30 { std::process::exit(9); }
        }
    });
    let mut master = Rng(seed.wrapping_mul(0x1000193).wrapping_add(prop.bytes().fold(7, |h, b| h * 31 + b as u64)));
    let mut st = props::Stat::default();
    let mut fails = vec![];
    while st.cases < cases && t0.elapsed().as_millis() < ms && fails.len() < 3 {
        let s = master.u64() >> 1;
        cur.write_all_at(format!("{s:<24}").as_bytes(), 0).unwrap();
        st.cases += 1;
        tick.fetch_add(1, Relaxed);
        if let Err(e) = run(engine, s, &mut st) { fails.push((s, e)); }
    }
    let mut f = std::fs::File::create(&out).unwrap();
    let samples: Vec<String> = st.samples.iter().map(|s| esc(s)).collect();
    let fl: Vec<String> = fails.iter().map(|(s, e)| format!("{{\"case\": {s}, \"what\": {}}}", esc(e))).collect();
    writeln!(f, "{{\"cases\": {}, \"compared\": {}, \"skipped\": {}, \"distinct\": {}, \"samples\": [{}], \"fails\": [{}]}}",
        st.cases, st.compared, st.skipped, st.keys.len(), samples.join(", "), fl.join(", ")).unwrap();
    std::process::exit(if fails.is_empty() { 0 } else { 1 })
}
fn run(engine: props::Engine, seed: u64, st: &mut props::Stat) -> Result<(), String> {
    let c0 = CORRUPT.load(Relaxed);
    let r = match guard(|| engine(&mut Rng(seed), st)) { Ok(r) => r, Err(p) => Err(format!("{p}\n{}", props::context())) };
    if CORRUPT.load(Relaxed) != c0 { return Err(format!("heap corruption: a write outside an allocation\n{}", props::context())); }
    r
}
#[allow(dead_code)] type Keys = HashSet<u64>;
