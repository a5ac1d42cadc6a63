fn main() {
    let a: Vec<String> = std::env::args().collect();
    let vals: Vec<u64> = a[2..].iter().flat_map(|s| s.split(',')).filter(|s| !s.is_empty()).map(|s| s.parse::<u128>().unwrap() as u64).collect();
    std::panic::set_hook(Box::new(|i| { let l = i.location().map(|l| format!("{}:{}:{}", l.file(), l.line(), l.column())).unwrap_or_default(); println!("PANIC {}", l); std::process::exit(0) }));
    harness::sym::load(vals);
    for (n, f) in harness::table() { if n == a[1] { f(); println!("END"); return; } }
    println!("NO_SUCH_HARNESS");
    std::process::exit(3);
}
