mod case;
mod ctx;
mod driver;
mod fhe;
mod fields;
mod props;
mod rg;
mod rt;

#[global_allocator]
static A: rt::Alloc = rt::Alloc;

fn main() {
    ctx::install_hook();
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s.as_str()) == Some("case") {
        driver::case_mode(a.get(2).map(|s| s.as_str()) == Some("1"));
    }
    let opt = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let seed: u64 = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = opt("--tier").unwrap_or_else(|| "quick".into());
    let prop = opt("--property").unwrap_or_default();
    let n: u64 = opt("--runs").and_then(|s| s.parse().ok()).unwrap_or(50);
    let root = opt("--root").unwrap_or_else(|| "/verif".into());
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => driver::check(&driver::Opts {
            property: prop,
            tier,
            seed,
            runs: opt("--runs").and_then(|s| s.parse().ok()),
            wall: opt("--wall").and_then(|s| s.parse().ok()),
            root,
        }),
        Some("replay") => driver::replay(&a[2]),
        Some("determinism") => driver::determinism(&prop, n, seed, &tier),
        Some("show") => driver::show(&prop, seed, n, &tier),
        _ => {
            eprintln!("usage: sim check|replay|determinism|show ...");
            2
        }
    };
    std::process::exit(code);
}
