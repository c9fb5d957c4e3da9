mod big;
mod lin;
mod pools;
mod props;
#[macro_use]
mod report;
mod rng;
mod scen;
mod svm;
#[cfg(feature = "work")]
mod work;
mod world;

fn main() {
    svm::install();
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let mut replay = None;
    let mut rseed = seed;
    if args.get(2).map(|s| s == "--replay").unwrap_or(false) {
        let v = args.get(3).cloned().unwrap_or_default();
        let mut it = v.split(':');
        rseed = it.next().and_then(|s| s.parse().ok()).expect("seed:case");
        replay = Some(it.next().and_then(|s| s.parse().ok()).expect("seed:case"));
    }
    for p in props::all() {
        if p.id == id {
            std::process::exit(report::run(&p, tier, rseed, replay));
        }
    }
    eprintln!("unknown property {}", id);
    std::process::exit(2);
}
