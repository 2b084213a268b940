//! Replay driver: `replay FILE` re-runs a harness natively on a solver model.
//! exit 10: the violation reproduces; 0: the harness completes; 20: an assumption fails.
fn main() {
    let f = std::env::args().nth(1).expect("replay file");
    let entry = harness::native::load(&f);
    let h = match harness::table().into_iter().find(|(n, _)| *n == entry) {
        Some((_, h)) => h,
        None => {
            println!("no harness {}", entry);
            std::process::exit(30)
        }
    };
    std::panic::set_hook(Box::new(|i| eprintln!("panic: {}", i)));
    // a watchdog: a harness that does not terminate is reported as such
    let lim: u64 = std::env::var("SYM_TIMEOUT").ok().and_then(|s| s.parse().ok()).unwrap_or(120);
    std::thread::spawn(move || {
        std::thread::sleep(std::time::Duration::from_secs(lim));
        println!("TIMEOUT");
        harness::native::finish(40)
    });
    let r = std::thread::Builder::new().stack_size(256 << 20).spawn(move || std::panic::catch_unwind(h)).unwrap().join().unwrap();
    match r {
        Ok(()) => {
            println!("COMPLETED");
            harness::native::finish(0)
        }
        Err(_) => harness::native::violated("panic", ""),
    }
}
