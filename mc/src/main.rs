#![allow(clippy::all)]
#![allow(dead_code)]
mod big;
mod checks;
mod linear;
mod meter;
mod model;
mod report;
mod svm;
mod world;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 4 {
        eprintln!("usage: mc PROPERTY quick|thorough ROOT");
        std::process::exit(2);
    }
    svm::install();
    if meter::METERED {
        meter::install(meter::overrun);
        let _ = svm::RUNNING.set(meter::on);
    }
    let ctx = report::Ctx::new(&args[1], args[2] == "thorough");
    if !checks::run(&args[1], &ctx) {
        eprintln!("unknown property {}", args[1]);
        std::process::exit(2);
    }
    let rc = ctx.finish(&args[3]);
    std::process::exit(rc);
}
