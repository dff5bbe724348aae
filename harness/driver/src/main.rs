#![feature(alloc_error_hook)]
#![allow(static_mut_refs)]
mod docs;
mod exec;
mod expect;
mod minimise;
mod model;
mod plan;
mod report;
mod runner;
#[global_allocator]
static GA: simrt::alloc::SimAlloc = simrt::alloc::SimAlloc;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    runner::init();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => report::check(&get("--prop").expect("--prop"), get("--runs").and_then(|x| x.parse().ok())),
        Some("replay") => report::replay(a.get(2).expect("file"), a.iter().any(|x| x == "--trace")),
        Some("trace") => report::trace(&get("--prop").expect("--prop"), get("--index").and_then(|x| x.parse().ok()).unwrap_or(0)),
        Some("determinism") => report::determinism(get("--runs").and_then(|x| x.parse().ok()).unwrap_or(200)),
        Some("survey") => report::survey(&get("--prop").expect("--prop"), get("--runs").and_then(|x| x.parse().ok()).unwrap_or(1000)),
        _ => {
            eprintln!("usage: driver check --prop C01 | replay FILE | trace --prop C01 --index 0 | determinism | survey --prop C01 --runs N");
            2
        }
    };
    std::process::exit(code);
}
