//! Schedule perturbation: decides, at every harness operation and at every point hooked inside DAM, whether to delay
//! the current thread. The decisions are a function of the run's seed and the thread's node, not of wall time.

use crate::rng::{mix2, Rng};
use std::cell::RefCell;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

static MODE: AtomicU64 = AtomicU64::new(0);
static SEED: AtomicU64 = AtomicU64::new(0);
static NODES: AtomicU64 = AtomicU64::new(1);
/// Operations completed by harness code: any change means progress.
pub static PROGRESS: AtomicU64 = AtomicU64::new(0);
/// Times a hooked point inside DAM was passed, per point.
pub static POINTS: [AtomicU64; 16] = [const { AtomicU64::new(0) }; 16];

/// counted per thread, since busy waits pass some points very often
struct Counts(RefCell<[u64; 16]>);
impl Drop for Counts {
    fn drop(&mut self) {
        for (p, n) in POINTS.iter().zip(self.0.borrow().iter()) {
            if *n > 0 {
                p.fetch_add(*n, Relaxed);
            }
        }
    }
}

thread_local! {
    static COUNTS: Counts = const { Counts(RefCell::new([0; 16])) };
    static LOCAL: RefCell<Option<(Rng, u64)>> = const { RefCell::new(None) };
}

pub const MODES: u64 = 8;
/// no delays; threads run under the real-time scheduler (where the system allows it)
pub const FIFO: u64 = 8;

pub fn configure(mode: u64, seed: u64, nodes: usize) {
    MODE.store(mode, Relaxed);
    SEED.store(seed, Relaxed);
    NODES.store(nodes.max(1) as u64, Relaxed);
}

pub fn enter(node: usize) {
    let seed = SEED.load(Relaxed);
    LOCAL.with(|l| *l.borrow_mut() = Some((Rng::new(mix2(seed, node as u64)), node as u64)));
}

pub fn progress() {
    PROGRESS.fetch_add(1, Relaxed);
}

fn spin(n: u64) {
    for _ in 0..n {
        std::hint::spin_loop();
    }
}

fn sleep(us: u64) {
    std::thread::sleep(std::time::Duration::from_micros(us));
}

fn delay(site: u64, hooked: bool) {
    let mode = MODE.load(Relaxed);
    if mode == 0 || mode == FIFO {
        return;
    }
    let _ = LOCAL.try_with(|l| {
        let mut l = l.borrow_mut();
        // threads the library spawned itself (e.g. inside the PMU) get a stream of their own
        let (rng, node) = l.get_or_insert_with(|| {
            let s = SEED.load(Relaxed);
            (Rng::new(mix2(s, 0xABCD)), 0xABCD)
        });
        let seed = SEED.load(Relaxed);
        match mode {
            1 => {
                if rng.chance(1, 4) {
                    std::thread::yield_now()
                }
            }
            2 => spin(rng.below(400)),
            3 => {
                if rng.chance(1, 24) {
                    sleep(rng.range(10, 120))
                }
            }
            // one node is slow
            4 => {
                if *node == seed % NODES.load(Relaxed) && rng.chance(1, 3) {
                    sleep(rng.range(5, 80))
                }
            }
            // one hooked point is slow
            5 => {
                if hooked && site == 1 + (seed % 11) && rng.chance(1, 2) {
                    sleep(rng.range(5, 60))
                }
            }
            // one node is fast, all the others are slow
            6 => {
                if *node != seed % NODES.load(Relaxed) && rng.chance(1, 8) {
                    sleep(rng.range(5, 60))
                }
            }
            // all hooked points are a bit slow
            _ => {
                if hooked && rng.chance(1, 6) {
                    spin(rng.below(3000))
                }
            }
        }
    });
}

pub fn op() {
    progress();
    delay(0, false);
}

/// an operation that may be repeated for ever without getting anywhere
pub fn retry() {
    delay(0, false);
}

/// lets others go on for a while, if there is perturbation at all
pub fn linger() {
    op();
    let mode = MODE.load(Relaxed);
    if mode != 0 && mode != FIFO {
        let us = LOCAL.with(|l| l.borrow_mut().as_mut().map_or(0, |(r, _)| *r.pick(&[0, 20, 100, 400])));
        if us > 0 {
            sleep(us)
        }
    }
    op();
}

pub fn hook(site: u32) {
    let _ = COUNTS.try_with(|c| c.0.borrow_mut()[site as usize & 15] += 1);
    delay(site as u64, true);
}

pub fn install() {
    #[cfg(dam_verif)]
    dam::verif_hooks::install(hook);
}

pub fn point_counts() -> Vec<u64> {
    POINTS.iter().map(|p| p.load(Relaxed)).collect()
}
