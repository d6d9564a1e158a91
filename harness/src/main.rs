mod ctl;
mod node;
mod props;
mod rng;
mod runner;
mod series;
mod sim;

fn main() {
    // Failures of the code under test are outcomes, not noise
    if std::env::var("VSIM_PANICS").is_err() {
        std::panic::set_hook(Box::new(|i| {
            if let (Some(l), Ok(mut p)) = (i.location(), sim::PANICKED_AT.lock()) {
                *p = format!("{}:{}", l.file(), l.line());
            }
            if !sim::IN_LIB.load(std::sync::atomic::Ordering::Relaxed) {
                eprintln!("harness: {i}");
            }
        }));
    }
    let args: Vec<String> = std::env::args().collect();
    let code = match std::panic::catch_unwind(|| runner::main(&args)) {
        Ok(c) => c,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
            eprintln!("harness error: {}", m.unwrap_or_default());
            2
        }
    };
    std::process::exit(code);
}
