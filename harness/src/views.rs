//! Watches what waiting on a context's clock returns, against what the owner of the clock announced.

use crate::report::{self, Args};
use crate::rng::{mix2, Rng};
use crate::{pert, watch};
use dam::structures::{ContextView, ParentView, Time, TimeManager, TimeView};
use serde_json::json;
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{Arc, Barrier, Mutex};
use std::time::Instant;

#[derive(Clone, Debug)]
enum Step {
    Incr(u64),
    Adv(u64),
    Yield,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
    Drop,
    Cleanup,
    AdvanceInfinite,
    Panic,
}

#[derive(Clone, Debug)]
struct ClockPlan {
    steps: Vec<Step>,
    end: End,
    /// how long the owner dawdles between steps, at most
    pace: u64,
    /// the time after each step
    after: Vec<u64>,
}

impl ClockPlan {
    /// does this step change the time
    fn moves(&self, k: usize) -> bool {
        self.after[k] > if k == 0 { 0 } else { self.after[k - 1] }
    }
}

/// written by the owner before the clock reaches the cell's time, read by whoever has seen that time
struct Cells(Vec<UnsafeCell<[u64; 2]>>);
unsafe impl Sync for Cells {}
unsafe impl Send for Cells {}

struct Clock {
    /// the harness itself must not order the threads, so that only the clock does
    pure: bool,
    plan: ClockPlan,
    view: TimeView,
    announced: AtomicU64,
    completed: AtomicU64,
    finishing: AtomicBool,
    finished: AtomicBool,
    cells: Cells,
}

#[derive(Clone, Debug)]
enum Target {
    One(usize),
    /// nested composites
    All(Vec<Target>),
}

impl Target {
    fn leaves(&self, out: &mut Vec<usize>) {
        match self {
            Target::One(i) => out.push(*i),
            Target::All(v) => v.iter().for_each(|t| t.leaves(out)),
        }
    }
    fn view(&self, clocks: &[Arc<Clock>]) -> TimeView {
        match self {
            Target::One(i) => clocks[*i].view.clone(),
            Target::All(v) => ParentView {
                child_views: v.iter().map(|t| t.view(clocks)).collect(),
            }
            .into(),
        }
    }
}

#[derive(Clone, Debug)]
enum Look {
    Wait(usize, Option<u64>),
    Poll(usize),
    PollUntil(usize, u64),
}

struct Seen {
    bad: Vec<String>,
    looks: u64,
    blocked: u64,
    immediate: u64,
    infinite: u64,
    cells: u64,
    hash: u64,
}

fn below(t: &Time, c: u64, fin: bool) -> bool {
    // t < (c, fin)
    if fin {
        !t.is_infinite()
    } else {
        !t.is_infinite() && t.time() < c
    }
}

fn observe(w: usize, r: &Time, ids: &[usize], clocks: &[Arc<Clock>], seen: &mut Seen, what: &str) {
    for i in ids {
        let c = &clocks[*i];
        let c_ord = Relaxed;
        // never ahead of the clock
        if r.is_infinite() {
            if !c.finishing.load(c_ord) {
                seen.bad.push(format!("waiter {w}: {what} returned {r} although clock {i} was not being finished"));
                return;
            }
        } else {
            let a = c.announced.load(c_ord);
            // a part that has ended counts as infinitely far
            let ended = ids.len() > 1 && c.finishing.load(c_ord);
            if r.time() > a && !ended {
                seen.bad.push(format!("waiter {w}: {what} returned {r}, but clock {i} was at most at {a}"));
                return;
            }
        }
        // everything done before that time is visible
        for (k, t) in c.plan.after.iter().enumerate().filter(|(k, _)| c.plan.moves(*k)) {
            if r.is_infinite() || *t <= r.time() || (ids.len() == 1 && !c.pure && c.finished.load(Acquire)) {
                let v = unsafe { *c.cells.0[k].get() };
                seen.cells += 1;
                if v != [k as u64 + 1, !(k as u64)] {
                    seen.bad.push(format!(
                        "waiter {w}: {what} returned {r}, but what the owner of clock {i} did before reaching {t} is not visible ({v:?})"
                    ));
                    return;
                }
            }
        }
    }
    seen.hash = mix2(seen.hash, r.time() * 2 + r.is_infinite() as u64);
}

fn waiter(w: usize, looks: &[Look], targets: &[Target], clocks: &[Arc<Clock>], seen: &mut Seen) {
    let views: Vec<TimeView> = targets.iter().map(|t| t.view(clocks)).collect();
    let ids: Vec<Vec<usize>> = targets
        .iter()
        .map(|t| {
            let mut v = vec![];
            t.leaves(&mut v);
            v
        })
        .collect();
    let mut last: Vec<Time> = vec![Time::new(0); targets.len()];
    for l in looks {
        pert::op();
        seen.looks += 1;
        let (i, r, what) = match l {
            Look::Wait(i, t) => {
                let when = t.map(Time::new).unwrap_or(Time::infinite());
                let c_ord = Relaxed;
                let before = ids[*i].iter().all(|c| {
                    clocks[*c].finished.load(c_ord) || t.is_some_and(|t| clocks[*c].completed.load(c_ord) >= t)
                });
                let r = views[*i].wait_until(when);
                if before {
                    seen.immediate += 1
                } else {
                    seen.blocked += 1
                }
                if r < when {
                    seen.bad.push(format!("waiter {w}: waiting for {when} on {:?} returned at {r}", targets[*i]));
                }
                (*i, r, format!("wait_until({when}) on {:?}", targets[*i]))
            }
            Look::Poll(i) | Look::PollUntil(i, _) => loop {
                // what is certain before the call
                let c_ord = Acquire;
                let sure_of = !clocks[0].pure;
                let fin = sure_of && ids[*i].iter().all(|c| clocks[*c].finished.load(c_ord));
                let sure: Option<u64> = ids[*i]
                    .iter()
                    .filter(|c| sure_of && !clocks[**c].finished.load(c_ord))
                    .map(|c| clocks[*c].completed.load(c_ord))
                    .min();
                let r = views[*i].tick_lower_bound();
                if sure_of && below(&r, sure.unwrap_or(0), fin) {
                    seen.bad.push(format!(
                        "waiter {w}: the lower bound of {:?} is {r} although every part was at {} before",
                        targets[*i],
                        if fin { "its end".to_string() } else { format!("{sure:?}") }
                    ));
                }
                if fin && ids[*i].len() == 1 && r.time() != clocks[ids[*i][0]].plan.after.last().copied().unwrap_or(0) {
                    seen.bad.push(format!("waiter {w}: the finished clock {:?} reads {r}", targets[*i]));
                }
                match l {
                    Look::PollUntil(_, t) if r < Time::new(*t) => {
                        if r < last[*i] {
                            seen.bad.push(format!("waiter {w}: {:?} went back from {} to {r}", targets[*i], last[*i]));
                            return;
                        }
                        last[*i] = r;
                        std::thread::yield_now();
                        continue;
                    }
                    _ => {}
                }
                break (*i, r, format!("the lower bound of {:?}", targets[*i]));
            },
        };
        if r < last[i] {
            seen.bad.push(format!("waiter {w}: {what} went back from {} to {r}", last[i]));
        }
        last[i] = r;
        if r.is_infinite() {
            seen.infinite += 1
        }
        observe(w, &r, &ids[i], clocks, seen, &what);
        if !seen.bad.is_empty() {
            return;
        }
    }
}

fn owner(tm: TimeManager, c: &Clock, seen: &mut Vec<String>) {
    let mut tm = tm;
    let mut rng = Rng::new(c.plan.after.len() as u64);
    for (k, s) in c.plan.steps.iter().enumerate() {
        pert::op();
        for _ in 0..rng.below(c.plan.pace + 1) {
            std::hint::spin_loop();
        }
        let t0 = tm.tick();
        let to = c.plan.after[k];
        if c.plan.moves(k) {
            unsafe { *c.cells.0[k].get() = [k as u64 + 1, !(k as u64)] };
        }
        c.announced.store(to, if c.pure { Relaxed } else { Release });
        match s {
            Step::Incr(n) => tm.incr_cycles(*n),
            Step::Adv(t) => tm.advance(Time::new(*t)),
            Step::Yield => std::thread::yield_now(),
        }
        c.completed.store(to, if c.pure { Relaxed } else { Release });
        if tm.tick() != Time::new(to) || tm.tick() < t0 {
            seen.push(format!("the owner's clock went from {t0} to {} by {s:?}", tm.tick()));
            break;
        }
    }
    pert::op();
    c.finishing.store(true, if c.pure { Relaxed } else { Release });
    match c.plan.end {
        End::Drop => drop(tm),
        End::Cleanup => {
            tm.cleanup();
            if !tm.tick().is_infinite() {
                seen.push(format!("after its end the clock reads {}", tm.tick()));
            }
            c.finished.store(true, if c.pure { Relaxed } else { Release });
            pert::op();
            drop(tm);
        }
        End::AdvanceInfinite => {
            tm.advance(Time::infinite());
            c.finished.store(true, if c.pure { Relaxed } else { Release });
            pert::op();
            drop(tm);
        }
        End::Panic => {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                let _tm = tm;
                std::panic::resume_unwind(Box::new("planned"));
            }));
            assert!(r.is_err());
        }
    }
    c.finished.store(true, if c.pure { Relaxed } else { Release });
}

fn plan(r: &mut Rng, tiny: bool) -> (Vec<ClockPlan>, Vec<Target>, Vec<Vec<Look>>, bool) {
    let nclocks = if tiny { r.range(1, 2) } else { *r.pick(&[1, 1, 1, 2, 3, 5]) } as usize;
    let cyclelike = cfg!(feature = "cyclelike");
    let big = !tiny && !cyclelike && r.chance(1, 5);
    let nsteps = if tiny { r.range(1, 4) } else { *r.pick(&[2, 10, 60, 60, 300]) };
    let mut clocks = vec![];
    for _ in 0..nclocks {
        let mut t = 0u64;
        let mut steps = vec![];
        let mut after = vec![];
        for _ in 0..r.range(0, nsteps) {
            let gap = |r: &mut Rng| if big { r.below(1 << 50) } else { *r.pick(&[0, 1, 1, 1, 2, 3, 17]) };
            let s = match r.below(8) {
                0..=3 => Step::Incr(gap(r)),
                4..=5 => Step::Adv(t + gap(r)),
                6 => Step::Adv(r.below(t + 1)),
                _ => Step::Yield,
            };
            match &s {
                Step::Incr(n) => t += n,
                Step::Adv(a) => t = t.max(*a),
                Step::Yield => {}
            }
            steps.push(s);
            after.push(t);
        }
        clocks.push(ClockPlan {
            steps,
            after,
            pace: if tiny { 0 } else { *r.pick(&[0, 50, 500, 3000, 3000, 20_000]) },
            end: *r.pick(&[End::Drop, End::Drop, End::Drop, End::Cleanup, End::AdvanceInfinite, End::Panic]),
        });
    }
    let mut targets: Vec<Target> = (0..nclocks).map(Target::One).collect();
    if nclocks > 1 {
        for _ in 0..r.range(1, 3) {
            let mut v: Vec<Target> = (0..nclocks).filter(|_| r.chance(2, 3)).map(Target::One).collect();
            if v.len() > 2 && r.chance(1, 2) {
                let tail = v.split_off(v.len() / 2);
                v.push(Target::All(tail));
            }
            if !v.is_empty() {
                targets.push(Target::All(v));
            }
        }
    }
    let nw = if tiny { r.range(1, 3) } else { *r.pick(&[1, 2, 4, 8, 16]) };
    let mut ws = vec![];
    for _ in 0..nw {
        let n = if tiny { r.range(1, 3) } else { *r.pick(&[1, 4, 20, 60]) };
        let same = r.chance(1, 2);
        let fixed = r.us(targets.len());
        let polls = r.chance(1, 2);
        let mut looks = vec![];
        let mut prog = 0;
        for _ in 0..n {
            let i = if same { fixed } else { r.us(targets.len()) };
            let mut ids = vec![];
            targets[i].leaves(&mut ids);
            let c = &clocks[*r.pick(&ids)];
            let max = c.after.last().copied().unwrap_or(0);
            // mostly times the clock really passes, in growing order
            let t = if !c.after.is_empty() && r.chance(2, 3) {
                prog = (prog + r.range(0, 1 + c.after.len() as u64 / 8) as usize).min(c.after.len() - 1);
                c.after[prog]
            } else {
                match r.below(3) {
                    0 => r.below(max + 1),
                    1 => max.saturating_add(r.below(3)),
                    _ => r.below(max.saturating_add(5)),
                }
            };
            looks.push(match r.below(if polls { 10 } else { 7 }) {
                0..=4 => Look::Wait(i, Some(t)),
                5 => Look::Wait(i, if r.chance(1, 6) { None } else { Some(t) }),
                6 | 7 => Look::Poll(i),
                8 => Look::PollUntil(i, t),
                _ => Look::Poll(i),
            });
        }
        if r.chance(1, 3) {
            looks.push(Look::Wait(r.us(targets.len()), None));
        }
        ws.push(looks);
    }
    (clocks, targets, ws, r.chance(1, 3))
}

fn one(args: &Args, idx: u64) -> bool {
    let tiny = crate::nets::suite_is_tiny();
    let mut r = Rng::new(mix2(mix2(args.seed, 0xC09), idx));
    let (plans, targets, ws, stray) = plan(&mut r, tiny);
    let mode = r.below(pert::MODES);
    let pure = r.chance(1, 2);
    let hash = {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        format!("{plans:?}{targets:?}{ws:?}{stray}").hash(&mut h);
        h.finish()
    };
    watch::begin(json!({"suite": args.suite, "seed": args.seed, "case": idx, "perturbation": mode}).to_string());
    let nthreads = plans.len() + ws.len();
    pert::configure(mode, r.u64(), nthreads);
    let mut tms = vec![];
    let mut clocks = vec![];
    for p in &plans {
        let tm = TimeManager::new();
        clocks.push(Arc::new(Clock {
            pure,
            view: tm.view().into(),
            announced: AtomicU64::new(0),
            completed: AtomicU64::new(0),
            finishing: AtomicBool::new(false),
            finished: AtomicBool::new(false),
            cells: Cells((0..p.steps.len()).map(|_| UnsafeCell::new([0; 2])).collect()),
            plan: p.clone(),
        }));
        tms.push(tm);
    }
    let gate = Barrier::new(nthreads);
    let over = AtomicBool::new(false);
    let bad: Mutex<Vec<String>> = Mutex::new(vec![]);
    let all: Mutex<Vec<Seen>> = Mutex::new(vec![]);
    std::thread::scope(|s| {
        let mut handles = vec![];
        let mut hs = vec![];
        for (i, tm) in tms.drain(..).enumerate() {
            let (c, gate, bad) = (clocks[i].clone(), &gate, &bad);
            hs.push(s.spawn(move || {
                pert::enter(i);
                gate.wait();
                let mut b = vec![];
                owner(tm, &c, &mut b);
                bad.lock().unwrap().extend(b);
            }));
        }
        for (w, looks) in ws.iter().enumerate() {
            let (clocks, targets, gate, all, n) = (&clocks, &targets, &gate, &all, plans.len());
            let h = s.spawn(move || {
                pert::enter(n + w);
                gate.wait();
                let mut seen = Seen {
                    bad: vec![],
                    looks: 0,
                    blocked: 0,
                    immediate: 0,
                    infinite: 0,
                    cells: 0,
                    hash: w as u64,
                };
                waiter(w, looks, targets, clocks, &mut seen);
                all.lock().unwrap().push(seen);
            });
            handles.push(h.thread().clone());
            hs.push(h);
        }
        if stray {
            // wake-ups nobody asked for, as any library that parks threads may leave behind
            let over = &over;
            let mut r = Rng::new(idx);
            s.spawn(move || {
                let t0 = Instant::now();
                let mut n = 0;
                while !over.load(Relaxed) && n < if tiny { 6 } else { 100_000 } && t0.elapsed().as_secs() < 2 {
                    r.pick(&handles).unpark();
                    n += 1;
                    if tiny {
                        std::thread::yield_now()
                    } else {
                        std::thread::sleep(std::time::Duration::from_micros(r.range(1, 30)))
                    }
                }
            });
        }
        for h in hs {
            let _ = h.join();
        }
        over.store(true, Relaxed);
    });
    watch::end();
    pert::configure(0, 0, 1);
    let mut bad = bad.into_inner().unwrap();
    let mut all = all.into_inner().unwrap();
    // everything is over: exact values
    for (i, c) in clocks.iter().enumerate() {
        let t = c.view.tick_lower_bound();
        let last = c.plan.after.last().copied().unwrap_or(0);
        if !t.is_infinite() || t.time() != last {
            bad.push(format!("clock {i} ended at {last} and reads {t}"));
        }
    }
    for t in &targets {
        let v = t.view(&clocks).tick_lower_bound();
        if !v.is_infinite() {
            bad.push(format!("{t:?} is over and reads {v}"));
        }
    }
    for s in &mut all {
        bad.append(&mut s.bad);
    }
    if all.len() != ws.len() {
        bad.push("a waiter panicked".into());
    }
    report::with(|rep| {
        rep.evaluations += 1;
        if all.iter().any(|s| s.looks > 0) {
            rep.hashes.insert(mix2(hash, mode));
        }
        let mut h = hash;
        for s in &all {
            h = h.wrapping_add(mix2(s.hash, 1));
            rep.count("looks_at_a_clock", s.looks);
            rep.count("waits_for_the_future", s.blocked);
            rep.count("waits_for_the_past", s.immediate);
            rep.count("looks_that_saw_the_end", s.infinite);
            rep.count("published_cells_checked", s.cells);
        }
        rep.distinct("observed_histories", h);
        rep.count("cases_ordered_by_the_clock_alone", pure as u64);
        rep.count("cases_with_stray_wakeups", stray as u64);
        rep.count("composite_views", targets.iter().filter(|t| matches!(t, Target::All(_))).count() as u64);
        rep.max("waiters", ws.len() as u64);
        rep.sample(json!({"clocks": plans.iter().take(2).map(|p| format!("{:?} then {:?}", p.steps.iter().take(12).collect::<Vec<_>>(), p.end)).collect::<Vec<_>>(),
            "views": format!("{targets:?}"), "first waiter": format!("{:?}", ws[0].iter().take(12).collect::<Vec<_>>())}));
        if !bad.is_empty() {
            rep.violation(idx, bad[0].clone(), json!({"complaints": bad, "clocks": format!("{plans:?}"), "views": format!("{targets:?}"), "waiters": format!("{ws:?}")}));
        }
    });
    bad.is_empty()
}

pub fn suite(args: &Args) {
    crate::cases(args, |idx| one(args, idx));
}
