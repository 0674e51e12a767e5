#![allow(clippy::all)]
mod exec;
mod findings;
mod gen;
mod graphs;
mod laws;
mod logs;
mod model;
mod nets;
mod oracle;
mod pert;
mod prog;
mod report;
mod rng;
mod units;
mod views;
mod watch;

use report::Args;
use std::time::Duration;

fn main() {
    let argv: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: u64| -> u64 {
        argv.iter()
            .position(|a| a == k)
            .and_then(|i| argv.get(i + 1))
            .and_then(|v| v.parse().ok())
            .unwrap_or(d)
    };
    let has = |k: &str| argv.iter().any(|a| a == k);
    let args = Args {
        suite: argv.get(1).cloned().unwrap_or_default(),
        seed: get("--seed", 1),
        worker: get("--worker", 0),
        of: get("--of", 1),
        start: get("--start", 0),
        budget: Duration::from_millis(get("--budget-ms", 5000)),
        case: if has("--case") { Some(get("--case", 0)) } else { None },
        thorough: has("--thorough"),
        port: get("--port", 0) as u16,
        verbose: has("--verbose"),
        max_cases: get("--cases", 0),
    };
    pert::install();
    exec::install_panic_hook();
    if !cfg!(miri) {
        watch::start(report::stuck);
    }
    match args.suite.as_str() {
        "views" => views::suite(&args),
        "logdirect" | "logmongo" | "flooddirect" | "floodmongo" | "stalls" | "refused" => logs::suite(&args),
        "known04" | "known05" | "known05on" | "known05off" => findings::suite(&args),
        "utils" | "convert" | "store" => units::suite(&args),
        "times" | "types" => laws::suite(&args),
        "inits" | "dots" | "elapsed" | "idents" | "identlog" => graphs::suite(&args),
        _ => nets::suite(&args),
    }
    let pts = pert::point_counts();
    report::with(|r| {
        for (i, n) in pts.iter().enumerate().skip(1).take(10) {
            if *n > 0 {
                r.count(&format!("hook_point_{i}_passed"), *n);
            }
        }
    });
    report::finish();
}

/// the cases of this worker, until the budget is used up; `f` says whether the case was fine
pub fn cases(args: &Args, mut f: impl FnMut(u64) -> bool) {
    if let Some(c) = args.case {
        // schedules vary, so try again a few times
        for _ in 0..if args.max_cases > 0 { args.max_cases } else { 30 } {
            if !f(c) {
                break;
            }
        }
        return;
    }
    let t0 = std::time::Instant::now();
    let mut k = args.start;
    let mut bad = 0;
    while t0.elapsed() < args.budget && (args.max_cases == 0 || k - args.start < args.max_cases) {
        let idx = args.worker + k * args.of;
        report::with(|r| r.next = k + 1);
        if !f(idx) {
            bad += 1;
            if bad >= 3 {
                break;
            }
        }
        k += 1;
    }
}
