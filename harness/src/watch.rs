//! Decides whether the run in progress is stuck: every thread of the process asleep with no context switch while no
//! operation completes (nothing can ever move again, since nothing in a run sleeps on a timer for that long), or a lot
//! of CPU time burnt without a single operation completing.

use crate::pert::PROGRESS;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};

static ACTIVE: AtomicBool = AtomicBool::new(false);
static EPOCH: AtomicU64 = AtomicU64::new(0);
static WHAT: Mutex<String> = Mutex::new(String::new());

pub const STUCK: i32 = 111;
pub const SPINNING: i32 = 112;
pub const TIMEOUT: i32 = 113;

pub fn begin(what: String) {
    *WHAT.lock().unwrap() = what;
    EPOCH.fetch_add(1, Relaxed);
    ACTIVE.store(true, Relaxed);
}
pub fn end() {
    ACTIVE.store(false, Relaxed);
}

fn me() -> String {
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().map(|f| f.to_string_lossy().to_string()))
        .unwrap_or_default()
}

/// (all other threads asleep, total number of context switches, thread states)
fn threads(own: &str) -> Option<(bool, u64, usize)> {
    let mut asleep = true;
    let mut switches = 0;
    let mut n = 0;
    for e in std::fs::read_dir("/proc/self/task").ok()? {
        let e = e.ok()?;
        if e.file_name().to_string_lossy() == own {
            continue;
        }
        let s = std::fs::read_to_string(e.path().join("status")).ok()?;
        n += 1;
        for l in s.lines() {
            if let Some(st) = l.strip_prefix("State:") {
                if !st.trim().starts_with('S') {
                    asleep = false;
                }
            }
            if l.contains("ctxt_switches:") {
                switches += l.split_whitespace().last().and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
            }
        }
    }
    Some((asleep, switches, n))
}

fn cpu_ms() -> u64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    let t = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    (t(11) + t(12)) * 10
}

/// `report(kind, description)` prints the verdict; the process exits afterwards
pub fn start(report: fn(i32, &str)) {
    std::thread::Builder::new()
        .name("watch".into())
        .spawn(move || {
            let own = me();
            let mut last = (0u64, 0u64);
            let mut since = Instant::now();
            let mut cpu0 = cpu_ms();
            let mut calm = 0;
            let mut sw = 0;
            loop {
                std::thread::sleep(Duration::from_millis(250));
                let now = (EPOCH.load(Relaxed), PROGRESS.load(Relaxed));
                if !ACTIVE.load(Relaxed) || now != last {
                    last = now;
                    since = Instant::now();
                    cpu0 = cpu_ms();
                    calm = 0;
                    continue;
                }
                match threads(&own) {
                    Some((true, s, _)) if s == sw => calm += 1,
                    Some((true, s, _)) => {
                        calm = 0;
                        sw = s
                    }
                    _ => calm = 0,
                }
                let what = WHAT.lock().unwrap().clone();
                if calm >= 8 {
                    report(STUCK, &what);
                    std::process::exit(STUCK);
                }
                if cpu_ms() - cpu0 > 40_000 {
                    report(SPINNING, &what);
                    std::process::exit(SPINNING);
                }
                if since.elapsed() > Duration::from_secs(150) {
                    report(TIMEOUT, &what);
                    std::process::exit(TIMEOUT);
                }
            }
        })
        .unwrap();
}
