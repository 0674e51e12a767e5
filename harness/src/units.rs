//! Single parts of the library on random inputs, with their results at hand: utility contexts (C13), adapters of values
//! that need not convert (C22), and the datastore (C10).

use crate::exec;
use crate::report::{self, Args};
use crate::rng::{mix2, Rng};
use crate::{pert, watch};
use dam::channel::adapters::RecvAdapter;
use dam::channel::{ChannelElement, PeekResult};
use dam::context_tools::*;
use dam::simulation::*;
use dam::structures::{Identifiable, Identifier, Time, TimeManager, TimeView, TimeViewable};
use dam::templates::datastore::{Behavior, Datastore};
use dam::utility_contexts::*;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

fn done(args: &Args, idx: u64, what: String, bad: Vec<String>, seen: Value) -> bool {
    report::with(|rep| {
        rep.evaluations += 1;
        rep.hashes.insert(what.bytes().fold(11, |h, x| mix2(h, x as u64)));
        rep.sample(json!({"case": what.chars().take(700).collect::<String>(), "seen": seen.to_string().chars().take(400).collect::<String>()}));
        if !bad.is_empty() {
            rep.violation(idx, bad[0].clone(), json!({"complaints": bad.iter().take(6).collect::<Vec<_>>(), "case": what}));
        }
    });
    if args.verbose {
        for b in &bad {
            eprintln!("{b}");
        }
    }
    bad.is_empty()
}

fn begin(args: &Args, idx: u64, r: &mut Rng) {
    let (mode, seed) = (r.below(pert::MODES), r.u64());
    pert::configure(mode, seed, 8);
    watch::begin(json!({"suite": args.suite, "seed": args.seed, "case": idx}).to_string());
    exec::take_notes();
    exec::take_panics();
}

fn finish() {
    watch::end();
    pert::configure(0, 0, 1);
    pert::progress();
}

fn options(inference: bool) -> InitializationOptions {
    InitializationOptionsBuilder::default().run_flavor_inference(inference).build().unwrap()
}

// ---------------------------------------------------------------- C13

#[derive(Clone, Debug, PartialEq)]
enum Outcome {
    Done,
    Failed(String),
    Panicked(String),
}

type Outcomes = Arc<Mutex<Vec<[Option<Outcome>; 2]>>>;

/// runs what it holds twice, and tells how both went; the run goes on in any case
struct Twice<C: Context> {
    inner: C,
    slot: usize,
    out: Outcomes,
}
impl<C: Context> Identifiable for Twice<C> {
    fn id(&self) -> Identifier {
        self.inner.id()
    }
    fn name(&self) -> String {
        self.inner.name()
    }
}
impl<C: Context> TimeViewable for Twice<C> {
    fn view(&self) -> TimeView {
        self.inner.view()
    }
}
impl<C: Context> Context for Twice<C> {
    fn init(&mut self) {
        self.inner.init()
    }
    fn run_falliable(&mut self) -> anyhow::Result<()> {
        pert::enter(self.slot);
        for k in 0..2 {
            let res = match catch_unwind(AssertUnwindSafe(|| self.inner.run_falliable())) {
                Ok(Ok(())) => Outcome::Done,
                Ok(Err(e)) => Outcome::Failed(e.to_string()),
                Err(p) => Outcome::Panicked(
                    p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default(),
                ),
            };
            self.out.lock().unwrap()[self.slot][k] = Some(res);
            pert::progress();
        }
        Ok(())
    }
}

fn twice<C: Context>(b: &mut ProgramBuilder<'static>, out: &Outcomes, inner: C) -> usize
where
    C: 'static,
{
    let slot = {
        let mut g = out.lock().unwrap();
        g.push([None, None]);
        g.len() - 1
    };
    b.add_child(Twice { inner, slot, out: out.clone() });
    slot
}

fn refused(o: &Outcome) -> bool {
    matches!(o, Outcome::Failed(m) if m.contains("more than once"))
}

#[derive(Clone, Debug)]
enum Sink {
    Exact(Vec<i64>),
    /// reference and tolerance
    Approx(Vec<i64>, i64),
    Consume,
    Print,
    Record,
}

fn reference(r: &mut Rng, v: &[i64], longer: bool) -> Vec<i64> {
    let mut x = v.to_vec();
    match r.below(6) {
        0 if longer => x.extend((0..r.range(1, 3)).map(|i| i as i64)),
        1 | 2 if !x.is_empty() => {
            let i = r.us(x.len());
            x[i] += *r.pick(&[-2i64, -1, 1, 2, 5, 1000]);
        }
        3 if !x.is_empty() => {
            let i = r.us(x.len());
            x.remove(i);
        }
        4 => x.truncate(r.us(v.len() + 1)),
        _ => {}
    }
    x
}

/// not symmetrical: what is received may be at most so much more than the reference
fn near(want: i64, got: i64, d: i64) -> bool {
    (want..=want + d).contains(&got)
}

/// what a checker has to say about `v`: fine, too short, or wrong at an index
fn verdict(v: &[i64], want: &[i64], ok: impl Fn(i64, i64) -> bool) -> Result<(), Option<usize>> {
    for (i, w) in want.iter().enumerate() {
        match v.get(i) {
            None => return Err(None),
            Some(x) if !ok(*w, *x) => return Err(Some(i)),
            _ => {}
        }
    }
    Ok(())
}

fn utils_case(args: &Args, idx: u64) -> bool {
    let mut r = Rng::new(mix2(mix2(args.seed, 0xC13), idx));
    let n = *r.pick(&[0usize, 1, 2, 3, 5, 8, 13]);
    let v: Vec<i64> = (0..n).map(|_| r.below(6) as i64 - 2).collect();
    let mut t = 0;
    let step = *r.pick(&[0u64, 1, 1, 3]);
    let times: Option<Vec<u64>> = r.chance(1, 2).then(|| {
        v.iter()
            .map(|_| {
                t += r.below(step * 2 + 1);
                t
            })
            .collect()
    });
    let targets = if r.chance(1, 2) { r.range(1, 4) as usize } else { 0 };
    let inference = r.chance(1, 2);
    let sinks: Vec<Sink> = (0..targets.max(1))
        .map(|_| match r.below(8) {
            0 | 1 | 2 => Sink::Exact(reference(&mut r, &v, true)),
            3 | 4 => Sink::Approx(reference(&mut r, &v, true), r.below(3) as i64),
            5 => Sink::Consume,
            6 if n < 4 && args.worker == 0 => Sink::Print,
            _ => Sink::Record,
        })
        .collect();
    // a short reader's channel takes everything
    let cap = |r: &mut Rng, short: bool| if short { r.chance(1, 2).then_some(n + 1) } else { r.chance(3, 4).then(|| r.range(1, 4) as usize) };
    let all_read = |s: &Sink| match s {
        Sink::Exact(w) => verdict(&v, w, |a, b| a == b) == Err(None),
        Sink::Approx(w, d) => verdict(&v, w, |a, b| near(a, b, *d)) == Err(None),
        _ => true,
    };
    let lat = r.range(1, 4);
    let what = format!("stream {v:?} at {times:?}, {targets} targets, {sinks:?}, latency {lat}, inference {inference}");
    begin(args, idx, &mut r);

    let out: Outcomes = Default::default();
    let rec: Arc<Mutex<Vec<Vec<(u64, i64)>>>> = Arc::new(Mutex::new(vec![vec![]; sinks.len()]));
    let mut b = ProgramBuilder::default();
    let mut chan = |b: &mut ProgramBuilder<'static>, c: Option<usize>| match c {
        Some(c) => b.bounded_with_latency::<i64>(c, lat, 1),
        None => b.unbounded_with_latency::<i64>(lat, 1),
    };
    let first_short = targets == 0 && !all_read(&sinks[0]);
    let c0 = cap(&mut r, first_short);
    let (s0, r0) = chan(&mut b, c0);
    let src = match &times {
        None => {
            let v = v.clone();
            twice(&mut b, &out, GeneratorContext::new(move || v.into_iter(), s0))
        }
        Some(ts) => {
            let x: Vec<(i64, Time)> = v.iter().copied().zip(ts.iter().map(|t| Time::new(*t))).collect();
            twice(&mut b, &out, TraceContext::new(move || x.into_iter(), s0))
        }
    };
    let mut ins = vec![];
    let mut bc = None;
    if targets == 0 {
        ins.push(r0);
    } else {
        let mut c = BroadcastContext::new(r0);
        for s in &sinks {
            let k = cap(&mut r, !all_read(s));
            let (s, r) = chan(&mut b, k);
            c.add_target(s);
            ins.push(r);
        }
        bc = Some(twice(&mut b, &out, c));
    }
    let mut slots = vec![];
    for (i, (s, rx)) in sinks.iter().zip(ins).enumerate() {
        slots.push(match s.clone() {
            Sink::Exact(w) => twice(&mut b, &out, CheckerContext::new(move || w.into_iter(), rx)),
            Sink::Approx(w, d) => twice(
                &mut b,
                &out,
                ApproxCheckerContext::new(move || w.into_iter(), rx, move |want: &i64, got: &i64| near(*want, *got, d))),
            Sink::Consume => twice(&mut b, &out, ConsumerContext::new(rx)),
            Sink::Print => twice(&mut b, &out, PrinterContext::new(rx)),
            Sink::Record => {
                let mut f = FunctionContext::new();
                rx.attach_receiver(&f);
                let rec = rec.clone();
                f.set_run(move |t: &mut TimeManager| {
                    while let Ok(e) = rx.dequeue(t) {
                        rec.lock().unwrap()[i].push((e.time.time(), e.data));
                        pert::op();
                    }
                });
                twice(&mut b, &out, f)
            }
        });
    }
    let res = catch_unwind(AssertUnwindSafe(|| b.initialize(options(inference)).unwrap().run(RunOptions::default()).passed()));
    finish();
    let mut bad = vec![];
    if res.as_ref().ok() != Some(&true) {
        bad.push(format!("the run did not pass: {:?}", exec::take_panics()));
    }
    exec::take_panics();
    let out = out.lock().unwrap();
    // whoever only reads a part closes its channel, which fails those upstream that go on sending
    let some_short = sinks.iter().any(|s| !all_read(s));
    let check = |slot: usize, name: String, want: Result<(), Option<usize>>, panics: bool, once: bool, bad: &mut Vec<String>| {
        let [a, b] = &out[slot];
        let (Some(a), Some(b)) = (a, b) else {
            bad.push(format!("{name} did not run: {a:?}, {b:?}"));
            return;
        };
        let fine = match (want, a) {
            (Ok(()), Outcome::Done) => true,
            (Err(_), Outcome::Failed(_)) => true,
            (Err(_), Outcome::Panicked(_)) => panics,
            _ => false,
        };
        if !fine {
            bad.push(format!("{name} ended with {a:?}, expected {want:?} (a mismatch at an index, or none if the stream was too short)"));
        }
        if once && !refused(b) {
            bad.push(format!("{name} was run again, which gave {b:?}"));
        }
        if !once && *b != Outcome::Done {
            bad.push(format!("{name} was run again on a closed channel, which gave {b:?}"));
        }
    };
    let upstream_ok = |slot: usize| some_short && matches!(&out[slot][0], Some(Outcome::Failed(m)) if m.contains("closed"));
    let cut = upstream_ok(src) || bc.is_some_and(upstream_ok);
    if !upstream_ok(src) {
        check(src, "the source".into(), Ok(()), false, true, &mut bad);
    } else if !out[src][1].as_ref().is_some_and(refused) {
        bad.push(format!("the source was run again, which gave {:?}", out[src][1]));
    }
    if let Some(k) = bc {
        if !upstream_ok(k) {
            check(k, "the broadcast".into(), Ok(()), false, false, &mut bad);
        }
    }
    let mut verdicts = 0;
    for (i, (s, slot)) in sinks.iter().zip(&slots).enumerate() {
        match s {
            // what a broadcast that failed had sent before depends on who closed first
            Sink::Exact(w) if !cut || targets == 0 => {
                verdicts += 1;
                check(*slot, format!("the checker of target {i}"), verdict(&v, w, |a, b| a == b), false, true, &mut bad)
            }
            Sink::Approx(w, d) if !cut || targets == 0 => {
                verdicts += 1;
                check(*slot, format!("the approximate checker of target {i}"), verdict(&v, w, |a, b| near(a, b, *d)), true, true, &mut bad)
            }
            Sink::Consume | Sink::Print => check(*slot, format!("the consumer of target {i}"), Ok(()), false, false, &mut bad),
            Sink::Record => {
                check(*slot, format!("the function at target {i}"), Ok(()), false, true, &mut bad);
                let got: Vec<i64> = rec.lock().unwrap()[i].iter().map(|x| x.1).collect();
                if if cut { !v.starts_with(&got) } else { got != v } {
                    bad.push(format!("target {i} got {got:?}"));
                }
            }
            _ => {}
        }
    }
    let (k, lo) = (r.us(20), r.below(5));
    let hi = lo + r.below(6);
    let tr: Vec<(usize, u64)> = random_trace(k, lo, hi).map(|(i, t)| (i, t.time())).collect();
    let mut last = 0;
    for (i, (j, t)) in tr.iter().enumerate() {
        if i != *j || *t < last + lo || *t > last + hi {
            bad.push(format!("a random trace with steps of {lo} to {hi} has {tr:?}"));
            break;
        }
        last = *t;
    }
    if tr.len() != k {
        bad.push(format!("a random trace of {k} elements has {tr:?}"));
    }
    bad.extend(exec::take_notes());
    report::with(|rep| {
        rep.count("checker_verdicts", verdicts);
        rep.count("contexts_run_twice", out.len() as u64);
        rep.count("runs_cut_short", cut as u64);
    });
    let seen = json!(format!("{:?}", *out));
    drop(out);
    done(args, idx, what, bad, seen)
}

// ---------------------------------------------------------------- C22

/// reads a channel by a list of operations, directly or through an adapter, and fails where a value does not convert
macro_rules! reader {
    ($name: ident, $rx: ty, $t: ty, $to: expr) => {
        #[context_macro]
        struct $name {
            rx: $rx,
            ops: Vec<u8>,
            got: Arc<Mutex<Vec<(u8, Option<(i128, u64)>, u64)>>>,
        }
        impl Context for $name {
            #[allow(deprecated)]
            fn run(&mut self) {
                pert::enter(1);
                let tm = &self.context_info.time;
                for op in &self.ops {
                    pert::op();
                    let mut kind = *op;
                    let e: Option<ChannelElement<$t>> = match op {
                        0 => match self.rx.peek() {
                            PeekResult::Something(e) => Some(e),
                            PeekResult::Nothing(_) => None,
                            PeekResult::Closed => {
                                kind = PEEK_CLOSED;
                                None
                            }
                        },
                        1 => self.rx.peek_next(tm).ok(),
                        2 => self.rx.dequeue(tm).ok(),
                        _ => {
                            tm.incr_cycles(*op as u64);
                            None
                        }
                    };
                    self.got.lock().unwrap().push((kind, e.map(|e| ($to(e.data), e.time.time())), tm.tick().time()));
                }
            }
        }
    };
}

/// how a peek that finds its channel closed is recorded
const PEEK_CLOSED: u8 = 255;

type Seen = Vec<(u8, Option<(i128, u64)>, u64)>;

macro_rules! convert {
    ($name: ident, $from: ty, $to: ty, $m: ident) => {
        mod $m {
            use super::*;
            reader!(Plain, Receiver<$from>, $from, |x: $from| x as i128);
            reader!(Adapted, Box<dyn RecvAdapter<$to> + Send + Sync>, $to, |x: $to| x as i128);

            pub fn go(vals: &[i128], ops: &[u8], cap: usize, inference: bool, adapted: bool) -> (Seen, Option<bool>, Option<u64>) {
                let mut b = ProgramBuilder::default();
                let (s, r) = b.bounded_with_latency::<$from>(cap, 2, 1);
                let v: Vec<$from> = vals.iter().map(|x| *x as $from).collect();
                let mut f = FunctionContext::new();
                s.attach_sender(&f);
                let sent = Arc::new(AtomicU64::new(0));
                let sent2 = sent.clone();
                f.set_run(move |t: &mut TimeManager| {
                    pert::enter(0);
                    for x in v {
                        pert::op();
                        if s.enqueue(t, ChannelElement::new(t.tick() + 1, x)).is_err() {
                            return;
                        }
                        sent2.fetch_add(1, SeqCst);
                        t.incr_cycles(1);
                    }
                });
                b.add_child(f);
                let got = Arc::new(Mutex::new(vec![]));
                if adapted {
                    let c = Adapted { rx: Box::new(r), ops: ops.to_vec(), got: got.clone(), context_info: Default::default() };
                    c.rx.attach_receiver(&c);
                    b.add_child(c);
                } else {
                    let c = Plain { rx: r, ops: ops.to_vec(), got: got.clone(), context_info: Default::default() };
                    c.rx.attach_receiver(&c);
                    b.add_child(c);
                }
                let res = catch_unwind(AssertUnwindSafe(|| {
                    let e = b.initialize(options(inference)).unwrap().run(RunOptions::default());
                    (e.passed(), e.elapsed_cycles())
                }))
                .ok();
                let g = got.lock().unwrap().clone();
                (g, res.map(|x| x.0), res.and_then(|x| x.1))
            }
            pub fn fits(x: i128) -> bool {
                <$to>::try_from(x as $from).is_ok()
            }
            pub fn element(x: i128, t: Time, bad: &mut Vec<String>) {
                let e = ChannelElement::new(t, x as $from);
                match e.clone().try_convert::<$to>() {
                    Ok(c) => {
                        if !fits(x) || c.data as i128 != x || c.time != t || c.time.time() != t.time() {
                            bad.push(format!("{x} at {t} was converted into {} at {}", c.data, c.time));
                        }
                    }
                    Err(_) if fits(x) => bad.push(format!("{x} at {t} was not converted into {}", stringify!($to))),
                    Err(_) => {}
                }
                if let Ok(y) = <$to>::try_from(x as $from) {
                    let c: ChannelElement<i128> = ChannelElement::new(t, y).convert();
                    if c.data != x || c.time != t || c.time.time() != t.time() {
                        bad.push(format!("{x} at {t} was converted into {} at {}", c.data, c.time));
                    }
                }
            }
        }
    };
}
convert!(a, i32, u8, m_a);
convert!(b, u64, i16, m_b);
convert!(c, i64, u32, m_c);
convert!(d, u16, i8, m_d);
convert!(e, u8, u32, m_e);

fn convert_case(args: &Args, idx: u64) -> bool {
    let mut r = Rng::new(mix2(mix2(args.seed, 0xC22), idx));
    let ty = r.below(5);
    let n = r.range(1, 10) as usize;
    let (lo, hi): (i128, i128) = [(i32::MIN as i128, i32::MAX as i128), (0, u64::MAX as i128), (i64::MIN as i128, i64::MAX as i128), (0, u16::MAX as i128), (0, 255)][ty as usize];
    let odd = r.chance(2, 3);
    let mut vals: Vec<i128> = vec![];
    for _ in 0..n {
        let edge = *r.pick(&[0i128, -1, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, u32::MAX as i128, u32::MAX as i128 + 1, lo, hi]);
        let x = if odd && r.chance(1, 4) { edge } else { r.below(100) as i128 };
        vals.push(x.clamp(lo, hi));
    }
    let mut ops: Vec<u8> = (0..r.range(1, 24)).map(|_| *r.pick(&[0, 1, 2, 2, 2, 3, 7])).collect();
    if r.chance(1, 2) {
        ops.extend(std::iter::repeat(2).take(n + 1));
    }
    let inference = r.chance(1, 2);
    // see the finding inference-clock-wait: room enough where a peek may wait for a sender that waits
    let cap = if inference && ops.contains(&0) { n } else { r.range(1, 4) as usize };
    let what = format!("type pair {ty}, values {vals:?}, operations {ops:?}, capacity {cap}, inference {inference}");
    let go = |adapted: bool| match ty {
        0 => m_a::go(&vals, &ops, cap, inference, adapted),
        1 => m_b::go(&vals, &ops, cap, inference, adapted),
        2 => m_c::go(&vals, &ops, cap, inference, adapted),
        3 => m_d::go(&vals, &ops, cap, inference, adapted),
        _ => m_e::go(&vals, &ops, cap, inference, adapted),
    };
    let fits = |x: i128| match ty {
        0 => m_a::fits(x),
        1 => m_b::fits(x),
        2 => m_c::fits(x),
        3 => m_d::fits(x),
        _ => m_e::fits(x),
    };
    begin(args, idx, &mut r);
    let (mut plain, p_ok, p_el) = go(false);
    let (mut adapt, a_ok, a_el) = go(true);
    finish();
    let mut bad = vec![];
    for (how, seen) in [("without", &mut plain), ("with", &mut adapt)] {
        let mut got = 0;
        for (k, x) in seen.iter_mut().enumerate() {
            got += (x.0 == 2 && x.1.is_some()) as usize;
            if x.0 == PEEK_CLOSED {
                if got < n {
                    bad.push(format!("operation {k}, a peek {how} the adapter, says that the channel is closed after {got} of {n} elements"));
                }
                x.0 = 0;
            }
        }
    }
    let panics = exec::take_panics();
    if p_ok != Some(true) {
        bad.push(format!("without an adapter the run gave {p_ok:?} {panics:?}"));
    }
    // up to where a value does not convert, everything is the same; a peek may see an element or not, as the schedule has it
    let mut stopped = false;
    for k in 0..plain.len().max(adapt.len()) {
        match (plain.get(k), adapt.get(k)) {
            (Some((op, Some((v, _)), _)), None) if !fits(*v) => {
                let _ = op;
                stopped = true;
                break;
            }
            (Some((0, None, _)), None) => {
                // the peek saw what the other one did not see
                stopped = plain[k..].iter().find_map(|x| x.1).is_some_and(|x| !fits(x.0)) || plain[k..].iter().all(|x| x.1.is_none());
                if !stopped {
                    bad.push(format!("the adapter failed at operation {k}, the next element converts"));
                }
                break;
            }
            (Some(p), Some(a)) => {
                let same = if p.0 == 0 { p.1.is_none() || a.1.is_none() || p.1 == a.1 } else { p.1 == a.1 };
                if let Some((v, _)) = p.1.or(a.1) {
                    if a.1.is_some() && !fits(v) {
                        bad.push(format!("the adapter made {:?} of {v}, which does not convert", a.1));
                    }
                }
                // clocks may differ once the closure was seen
                let closed = p.0 != 0 && p.0 < 3 && p.1.is_none();
                if !same || (!closed && p.2 != a.2) {
                    bad.push(format!("operation {k} gave {p:?} without and {a:?} with the adapter"));
                    break;
                }
                if closed {
                    break;
                }
            }
            (p, a) => {
                bad.push(format!("operation {k}: {p:?} without and {a:?} with the adapter"));
                break;
            }
        }
    }
    if a_ok == Some(stopped) || a_ok.is_none() {
        bad.push(format!("the run with the adapter gave passed() {a_ok:?}, a value that does not convert was met: {stopped}"));
    }
    // a sender that is left early may or may not notice before its next element
    let all = plain.iter().filter(|x| x.0 == 2 && x.1.is_some()).count() == n;
    if !stopped && all && p_el != a_el && !plain.iter().any(|x| x.0 != 0 && x.0 < 3 && x.1.is_none()) {
        bad.push(format!("the run takes {p_el:?} cycles without and {a_el:?} with the adapter"));
    }
    if !stopped && adapt.len() != ops.len() {
        bad.push(format!("{} of {} operations were done", adapt.len(), ops.len()));
    }
    for x in &vals {
        let mut t = Time::new(r.below(1000));
        if r.chance(1, 4) {
            t.set_infinite();
        }
        match ty {
            0 => m_a::element(*x, t, &mut bad),
            1 => m_b::element(*x, t, &mut bad),
            2 => m_c::element(*x, t, &mut bad),
            3 => m_d::element(*x, t, &mut bad),
            _ => m_e::element(*x, t, &mut bad),
        }
    }
    report::with(|rep| {
        rep.count("operations_compared", plain.len().min(adapt.len()) as u64);
        rep.count("unconvertible_values_met", stopped as u64);
        rep.count("elements_converted", vals.len() as u64);
    });
    bad.extend(exec::take_notes());
    done(args, idx, what, bad, json!({"operations": adapt.len(), "passed": a_ok}))
}

// ---------------------------------------------------------------- C10

/// a time below `end`, mostly not far before `first`
fn within(r: &mut Rng, first: u64, end: u64) -> u64 {
    let low = if r.chance(1, 10) { 0 } else { first.saturating_sub(3) };
    if low < end { r.range(low, end - 1) } else { r.below(end) }
}

fn store_case(args: &Args, idx: u64) -> bool {
    let mut r = Rng::new(mix2(mix2(args.seed, 0xC10), idx));
    // a few addresses with long histories, or many addresses, now and then
    let long = r.chance(1, 10);
    let cap = match r.below(10) {
        0 if !long => r.range(100, 6000) as usize,
        _ if long => r.range(1, 2) as usize,
        _ => r.range(1, 6) as usize,
    };
    let behavior = Behavior { mod_address: r.chance(1, 2), use_default_value: r.chance(2, 3) };
    let ds = Datastore::<u64>::new(cap, behavior);
    let span = if behavior.mod_address || r.chance(1, 4) { cap * 3 } else { cap };
    // (address, time) of the writes, in time order, several per cycle but not to one address
    let n = if long { *r.pick(&[70, 130, 300, 1100, 2500]) } else { r.range(0, 40) };
    let mut writes: Vec<(usize, u64, u64)> = vec![];
    let mut last = vec![None; cap];
    let mut t = if r.chance(1, 8) { r.u64() >> 2 } else { r.below(3) };
    let mut v = 1;
    let focus = cap > 6 && r.chance(1, 2);
    for _ in 0..n {
        let a = if focus { span - 1 - r.us(3) } else { r.us(span) };
        if a >= cap && !behavior.mod_address {
            continue;
        }
        if last[a % cap] == Some(t) {
            t += 1 + r.below(4);
        }
        last[a % cap] = Some(t);
        writes.push((a, t, v));
        v += 1;
        t += if r.chance(1, 30) { r.below(5000) } else { r.below(3) };
    }
    let readers = r.range(1, 3);
    let what = format!("capacity {cap}, {behavior:?}, {} writes {:?}.., {readers} readers", writes.len(), &writes[..writes.len().min(40)]);
    let first = writes.first().map_or(0, |w| w.1);
    begin(args, idx, &mut r);
    let mut bad = vec![];
    let naive = |a: usize, at: u64| writes.iter().filter(|w| w.0 % cap == a % cap && w.1 <= at).last().map(|w| w.2);
    let now = AtomicU64::new(0);
    let reads = AtomicU64::new(0);
    let refused = AtomicU64::new(0);
    let complaints = Mutex::new(vec![]);
    std::thread::scope(|s| {
        s.spawn(|| {
            pert::enter(0);
            for (a, t, v) in &writes {
                // everything before t is there
                now.store(*t, SeqCst);
                ds.write(*a, *v, Time::new(*t));
                pert::op();
            }
            now.store(u64::MAX, SeqCst);
        });
        for k in 0..readers {
            let mut r = Rng::new(r.u64());
            let (ds, now, naive, complaints, reads, refused) = (&ds, &now, &naive, &complaints, &reads, &refused);
            s.spawn(move || {
                pert::enter(1 + k as usize);
                for _ in 0..30 {
                    pert::op();
                    let a = if focus { span - 1 - r.us(4) } else { r.us(span) };
                    let upto = now.load(SeqCst);
                    let at = if upto == u64::MAX {
                        within(&mut r, first, t + 4)
                    } else if upto == 0 {
                        continue;
                    } else {
                        within(&mut r, first, upto)
                    };
                    let want = if a >= cap && !behavior.mod_address { None } else { naive(a, at).or(behavior.use_default_value.then_some(0)) };
                    let got = catch_unwind(AssertUnwindSafe(|| ds.read(a, Time::new(at)))).ok();
                    reads.fetch_add(1, SeqCst);
                    refused.fetch_add(got.is_none() as u64, SeqCst);
                    if got != want {
                        complaints.lock().unwrap().push(format!("read of {a} at {at} gave {got:?}, expected {want:?} (none: refused)"));
                    }
                }
            });
        }
    });
    bad.extend(complaints.into_inner().unwrap());
    // writes out of bounds, or not after the last one, are refused
    let a = r.us(cap);
    if let Some(last) = writes.iter().filter(|w| w.0 % cap == a).map(|w| w.1).max() {
        let at = r.below(last + 1);
        if catch_unwind(AssertUnwindSafe(|| ds.write(a, 999, Time::new(at)))).is_ok() {
            bad.push(format!("a write to {a} at {at} was accepted after the one at {last}"));
        }
    }
    if !behavior.mod_address && catch_unwind(AssertUnwindSafe(|| ds.write(cap + r.us(9), 1, Time::new(1 << 40)))).is_ok() {
        bad.push("a write out of bounds was accepted".into());
    }
    finish();
    exec::take_panics();
    let (reads, refused) = (reads.into_inner(), refused.into_inner());
    report::with(|rep| {
        rep.count("datastore_writes", writes.len() as u64);
        rep.count("datastore_reads", reads);
        rep.count("datastore_reads_refused", refused);
    });
    bad.extend(exec::take_notes());
    done(args, idx, what, bad, json!({"reads": reads, "refused": refused}))
}

pub fn suite(args: &Args) {
    match args.suite.as_str() {
        "utils" => crate::cases(args, |idx| utils_case(args, idx)),
        "convert" => crate::cases(args, |idx| convert_case(args, idx)),
        _ => crate::cases(args, |idx| store_case(args, idx)),
    }
}
