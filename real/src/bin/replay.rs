//! replay HARNESS v1,v2,...   runs the harness natively on the given inputs (f:<bits hex> or i:<n>)
//! replay HARNESS search SEED N   tries N random inputs; prints the first that fails
use std::cell::RefCell;
struct St { ins: Vec<String>, pos: usize, rng: Option<u64>, log: Vec<String> }
thread_local!(static S: RefCell<St> = const { RefCell::new(St { ins: vec![], pos: 0, rng: None, log: vec![] }) });
struct Cut;
fn next() -> u64 {
    S.with_borrow_mut(|s| {
        let mut x = s.rng.unwrap();
        x ^= x << 13; x ^= x >> 7; x ^= x << 17;
        s.rng = Some(x);
        x.wrapping_mul(0x2545F4914F6CDD1D)
    })
}
fn put(v: String) { S.with_borrow_mut(|s| s.log.push(v)) }
fn take() -> Option<String> { S.with_borrow_mut(|s| { s.pos += 1; s.ins.get(s.pos - 1).cloned() }) }
#[unsafe(no_mangle)] extern "C-unwind" fn sym_f64(lo: f64, hi: f64) -> f64 {
    let v = if S.with_borrow(|s| s.rng.is_some()) {
        let r = next();
        match r % 16 {
            0 => lo, 1 => hi, 2 if lo <= 0.0 && hi >= 0.0 => 0.0, 3 if lo <= 1.0 && hi >= 1.0 => 1.0,
            _ => { let u = (next() >> 11) as f64 / (1u64 << 53) as f64; (lo + (hi - lo) * u).clamp(lo, hi) }
        }
    } else {
        let t = take().unwrap_or_default();
        if t.starts_with("f:") { f64::from_bits(u64::from_str_radix(&t[2..], 16).unwrap()).clamp(lo, hi) } else { lo }
    };
    put(format!("f:{:016x}", v.to_bits()));
    v
}
#[unsafe(no_mangle)] extern "C-unwind" fn sym_int(lo: i64, hi: i64) -> i64 {
    let v = if S.with_borrow(|s| s.rng.is_some()) { lo + (next() % ((hi - lo) as u64 + 1)) as i64 } else {
        let t = take().unwrap_or_default();
        if t.starts_with("i:") { t[2..].parse::<i64>().unwrap().clamp(lo, hi) } else { lo }
    };
    put(format!("i:{v}"));
    v
}
#[unsafe(no_mangle)] extern "C-unwind" fn sym_opaque(k: i64) -> i64 { k }
#[unsafe(no_mangle)] extern "C-unwind" fn sym_assume(c: bool) { if !c { std::panic::panic_any(Cut) } }
#[unsafe(no_mangle)] extern "C-unwind" fn sym_assert(c: bool, id: i32) { if !c { panic!("assertion {id} fails") } }
#[unsafe(no_mangle)] extern "C-unwind" fn sym_close(a: f64, b: f64, tol: f64, id: i32) {
    if !((a - b).abs() <= tol || a == b) { panic!("assertion {id} fails: {a:e} against {b:e} (tolerance {tol:e})") }
}
#[unsafe(no_mangle)] extern "C-unwind" fn sym_le(a: f64, b: f64, tol: f64, id: i32) {
    if !(a <= b + tol) { panic!("assertion {id} fails: {a:e} exceeds {b:e} (tolerance {tol:e})") }
}
#[unsafe(no_mangle)] extern "C-unwind" fn sym_reach(_: i32) {}
#[unsafe(no_mangle)] extern "C-unwind" fn sym_erfc(x: f64) -> f64 { statrs::function::erf::erfc(x) }
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let f = real::ALL.iter().flat_map(|t| t.iter()).find(|h| h.0 == a[1]).expect("harness").1;
    let search = a[2] == "search";
    let n: u64 = if search { a[4].parse().unwrap() } else { 1 };
    let seed: u64 = if search { a[3].parse().unwrap() } else { 0 };
    std::panic::set_hook(Box::new(|i| { if !i.payload().is::<Cut>() { eprintln!("{i}") } }));
    let t = std::time::Instant::now();
    for k in 0..n {
        S.with_borrow_mut(|s| *s = St {
            ins: if search { vec![] } else { a[2].split(',').map(|x| x.to_string()).collect() }, pos: 0,
            rng: if search { Some(seed.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(k.wrapping_mul(0xD1342543DE82EF95)) | 1) } else { None }, log: vec![] });
        if let Err(e) = std::panic::catch_unwind(|| f()) {
            if e.is::<Cut>() { if !search { println!("ASSUMPTION"); std::process::exit(3) } continue; }
            println!("FAILS {}", S.with_borrow(|s| s.log.join(",")));
            std::process::exit(101);
        }
        if search && t.elapsed().as_secs() > 60 { break; }
    }
    println!("HOLDS");
}
