mod checks;
mod engine;
mod gen;
mod proj;
mod registry;
mod tap;
mod tree;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let checks = checks::all();
    // Panics of the code under test are part of some checks' outcomes; keep quiet.
    if std::env::var("VH_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    if args.get(0).map(|s| s == "--replay").unwrap_or(false) {
        std::process::exit(engine::replay(&checks, std::path::Path::new(&args[1])));
    }
    if args.get(0).map(|s| s == "--list").unwrap_or(false) {
        for c in &checks {
            println!("{}", c.id);
        }
        return;
    }
    if args.get(0).map(|s| s == "--case").unwrap_or(false) {
        // --case ID SEED IDX : run one generated case and print it
        let c = checks.iter().find(|c| c.id == args[1]).expect("id");
        std::process::exit(engine::one_case(
            c,
            args[2].parse().unwrap(),
            args[3].parse().unwrap(),
        ));
    }
    let id = args.get(0).cloned().unwrap_or_default();
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let seed = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.trim().parse::<u64>().ok())
        .unwrap_or(1);
    let Some(c) = checks.iter().find(|c| c.id == id) else {
        eprintln!("unknown check {id}");
        std::process::exit(2);
    };
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    std::process::exit(engine::run_check(c, tier, seed));
}
