//! replay <harness> <hex,hex,...> : runs a harness natively on solver values.
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let vals: Vec<Vec<u8>> = if a.len() < 3 || a[2].is_empty() { vec![] } else {
        a[2].split(',').map(|h| (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect()).collect()
    };
    fqverif::sym::INPUT.with(|i| *i.borrow_mut() = vals);
    for l in fqverif::all() {
        for (n, f) in l.iter() {
            if *n == a[1] { f(); println!("REPLAY-PASSED"); return; }
        }
    }
    eprintln!("no such harness");
    std::process::exit(5);
}
