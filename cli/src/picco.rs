//! Logs a message of every level for various targets, for C33.
//!
//! picco setup LEVEL THREAD | picco test THREAD

const TARGETS: [&str; 12] = [
    "body_image", "body_image::x", "body_image_futio", "barc", "barc::compress", "blocking_permit",
    "hyper", "tokio::runtime", "bod", "my_barc", "x", "Barc",
];

fn emit() {
    for (i, t) in TARGETS.iter().enumerate() {
        for l in [log::Level::Error, log::Level::Warn, log::Level::Info, log::Level::Debug, log::Level::Trace].iter() {
            let l = *l;
            log::log!(target: t, l, "message {} {} end", i, l);
        }
    }
    log::logger().flush();
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let level: Option<u32> = if a[0] == "setup" { Some(a[1].parse().expect("level")) } else { None };
    match level {
        Some(l) => if piccolog::setup_logger(l).is_err() { std::process::exit(10); },
        None => for _ in 0..2 { if !piccolog::test_logger() { std::process::exit(12); } },
    }
    match a.last().expect("thread").as_str() {
        "main" => emit(),
        "none" => std::thread::spawn(emit).join().expect("thread"),
        n => std::thread::Builder::new().name(n.to_string()).spawn(emit).expect("spawn").join().expect("thread"),
    }
    // not again
    if level.map_or(false, |l| piccolog::setup_logger(l).is_ok()) { std::process::exit(11); }
}
