//! tev run <property> | tev replay <file> | tev guided <property>
mod builds;
mod guided;
mod run;
mod tables;
fn main() {
    let args: Vec<String> = std::env::args().collect();
    let r = match args.get(1).map(|s| s.as_str()) {
        Some("run") if args.len() >= 3 => run::run(&args[2]),
        Some("guided") if args.len() >= 3 => guided::run(&args[2]),
        Some("shrink") if args.len() >= 4 => run::shrink_crash(&args[2], args[3].parse().unwrap_or(0)),
        Some("replay") if args.len() >= 3 => run::replay(&args[2]),
        _ => {
            eprintln!("usage: tev run <property> | tev replay <file>");
            2
        }
    };
    std::process::exit(r);
}
