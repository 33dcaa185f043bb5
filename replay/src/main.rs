//! Searches for inputs on which the real library breaks a property.
//! replay PROPERTY [--seed N] [--secs S] [--case K]: exit 0 none found, exit 1 with one JSON line found, else trouble.
mod gen; mod mock; mod p1; mod p2; mod p3;
mod p4; mod p5; mod p6; mod p7;
use std::time::{Duration, Instant};
use std::sync::atomic::{AtomicU64, Ordering};

fn table() -> Vec<(&'static str, fn(&mut gen::G) -> p1::R)> {
    vec![("C01", p1::c01), ("C02", p1::c02), ("C03", p1::c03), ("C04", p1::c04), ("C05", p1::c05), ("C06", p1::c06), ("C07", p1::c07), ("C08", p1::c08), ("C09", p1::c09), ("C10", p1::c10), ("C11", p2::c11), ("C12", p2::c12), ("C13", p2::c13), ("C14", p4::c14), ("C15", p3::c15), ("C16", p3::c16), ("C17", p3::c17), ("C18", p4::c18), ("C19", p4::c19), ("C20", p4::c20), ("C21", p4::c21), ("C22", p4::c22), ("C23", p5::c23), ("C24", p6::c24), ("C26", p7::c26)]
}
static CASE: AtomicU64 = AtomicU64::new(0);
static STARTED: AtomicU64 = AtomicU64::new(0);
fn report(prop: &str, seed: u64, case: u64, what: &str) -> ! {
    println!("{}", serde_json::json!({ "property": prop, "seed": seed, "case": case, "what": what, "again": format!("replay {prop} --seed {seed} --case {case}") }));
    std::process::exit(1)
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |n: &str| a.iter().position(|x| x == n).map(|i| a[i + 1].parse::<u64>().unwrap());
    let prop = a.get(1).cloned().unwrap_or_default();
    let Some((_, f)) = table().into_iter().find(|x| x.0 == prop) else { println!("{{\"none\": true}}"); std::process::exit(0) };
    let seed = opt("--seed").unwrap_or(1); let secs = opt("--secs").unwrap_or(5);
    if ["C15", "C16", "C17", "C26"].contains(&prop.as_str()) && !p3::lay_down() { println!("{{\"none\": true}}"); std::process::exit(0) }
    std::panic::set_hook(Box::new(|_| ()));
    let t0 = Instant::now();
    { let prop = prop.clone(); std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let s = STARTED.load(Ordering::SeqCst);
        if s > 0 && t0.elapsed().as_secs() > s + 60 { report(&prop, seed, CASE.load(Ordering::SeqCst), "the operation did not end within 60 seconds") }
    }); }
    let mut k = opt("--case").unwrap_or(0);
    loop {
        CASE.store(k, Ordering::SeqCst); STARTED.store(t0.elapsed().as_secs() + 1, Ordering::SeqCst);
        let mut g = gen::G::new(seed.wrapping_mul(1_000_003).wrapping_add(k).wrapping_mul(31).wrapping_add(prop.bytes().map(|b| b as u64).sum::<u64>()));
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut g))) {
            Ok(Ok(())) => (),
            Ok(Err(e)) => report(&prop, seed, k, &e),
            Err(e) => report(&prop, seed, k, &format!("panicked: {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())),
        }
        k += 1;
        if opt("--case").is_some() || (k >= 3 && t0.elapsed().as_secs() >= secs) { break }
    }
    println!("{}", serde_json::json!({ "property": prop, "seed": seed, "cases": k }));
}
