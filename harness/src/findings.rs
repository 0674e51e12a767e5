//! Programs that show the defects listed in known_findings.txt, and nothing else: each is one input under one schedule.

use crate::report::{self, Args};
use crate::watch;
use dam::channel::PeekResult;
use dam::context_tools::*;
use dam::simulation::*;
use dam::utility_contexts::*;
use serde_json::json;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;
use std::time::Duration;

fn options(inference: bool) -> InitializationOptions {
    InitializationOptionsBuilder::default().run_flavor_inference(inference).build().unwrap()
}

/// A sends one element and goes on to time 1000; B receives until the channel is closed.
/// Whether B looks while A is still there decides where B's clock ends. Returns that, and the elapsed cycles.
fn closure(lingers: bool) -> (u64, Option<u64>) {
    let mut b = ProgramBuilder::default();
    let (s, r) = b.bounded_with_latency::<u32>(4, 5, 1);
    let mut x = FunctionContext::new();
    s.attach_sender(&x);
    let gone = Arc::new(AtomicU64::new(0));
    let g = gone.clone();
    x.set_run(move |t| {
        s.enqueue(t, ChannelElement::new(t.tick(), 1)).unwrap();
        t.incr_cycles(1000);
        if lingers {
            std::thread::sleep(Duration::from_millis(300));
        }
        drop(s);
        g.store(1, SeqCst);
    });
    let mut y = FunctionContext::new();
    r.attach_receiver(&y);
    let end = Arc::new(AtomicU64::new(0));
    let e2 = end.clone();
    y.set_run(move |t| {
        assert!(r.dequeue(t).is_ok());
        while !lingers && gone.load(SeqCst) == 0 {
            std::thread::yield_now();
        }
        assert!(r.dequeue(t).is_err());
        e2.store(t.tick().time(), SeqCst);
    });
    b.add_child(x);
    b.add_child(y);
    let e = b.initialize(options(false)).unwrap().run(RunOptions::default());
    (end.load(SeqCst), e.elapsed_cycles())
}

/// X and Y form a loop. Y looks whether X sends something by time 5 (which it doesn't), and then takes what Z sends; X first takes
/// what Z sends, which Z only does once Y has made room. Nobody waits for anything that does not come.
fn clock_wait(inference: bool) {
    let mut b = ProgramBuilder::default();
    let (zx, xz) = b.bounded::<u32>(1);
    let (zy, yz) = b.bounded::<u32>(1);
    let (xy, yx) = b.bounded::<u32>(1);
    let (yx2, xy2) = b.bounded::<u32>(1);
    let mut x = FunctionContext::new();
    let mut y = FunctionContext::new();
    let mut z = FunctionContext::new();
    zx.attach_sender(&z);
    zy.attach_sender(&z);
    xz.attach_receiver(&x);
    yz.attach_receiver(&y);
    xy.attach_sender(&x);
    yx.attach_receiver(&y);
    yx2.attach_sender(&y);
    xy2.attach_receiver(&x);
    z.set_run(move |t| {
        zy.enqueue(t, ChannelElement::new(t.tick(), 1)).unwrap();
        zy.enqueue(t, ChannelElement::new(t.tick(), 2)).unwrap();
        zx.enqueue(t, ChannelElement::new(t.tick(), 3)).unwrap();
    });
    x.set_run(move |t| {
        assert_eq!(xz.dequeue(t).unwrap().data, 3);
        xy.enqueue(t, ChannelElement::new(t.tick(), 4)).unwrap();
        assert_eq!(xy2.dequeue(t).unwrap().data, 5);
    });
    y.set_run(move |t| {
        t.incr_cycles(5);
        let p = yx.peek();
        assert!(matches!(p, PeekResult::Nothing(_)), "{p:?}");
        assert_eq!(yz.dequeue(t).unwrap().data, 1);
        assert_eq!(yz.dequeue(t).unwrap().data, 2);
        assert_eq!(yx.dequeue(t).unwrap().data, 4);
        yx2.enqueue(t, ChannelElement::new(t.tick(), 5)).unwrap();
    });
    b.add_child(x);
    b.add_child(y);
    b.add_child(z);
    let e = b.initialize(options(inference)).unwrap().run(RunOptions::default());
    assert!(e.passed());
}

fn known(key: &str, what: String) {
    report::with(|r| r.known.push(json!({"key": key, "what": what})));
}

pub fn suite(args: &Args) {
    if args.worker != 0 && args.case.is_none() {
        return;
    }
    report::with(|r| r.evaluations += 1);
    match args.suite.as_str() {
        "known04" => {
            let (a, b) = (closure(false), closure(true));
            if a != b {
                known("clock-after-closure", format!("the receiver ends at {} of {:?} cycles or at {} of {:?}", a.0, a.1, b.0, b.1));
            }
        }
        "known05" => {
            // in processes of their own, which the monitor ends when they are stuck
            for (name, inference) in [("known05off", false), ("known05on", true)] {
                let c = std::process::Command::new(std::env::current_exe().unwrap())
                    .arg(name)
                    .stdout(std::process::Stdio::null())
                    .stderr(std::process::Stdio::null())
                    .status()
                    .unwrap();
                match (c.code(), inference) {
                    (Some(0), _) => {}
                    (Some(watch::STUCK), true) => known("inference-clock-wait", "stuck with inference on, done without it".into()),
                    (c, _) => report::with(|r| r.violation(0, format!("a program that can complete ended with {c:?}, inference {inference}"), json!({"program": name}))),
                }
            }
        }
        _ => {
            watch::begin(json!({"suite": args.suite}).to_string());
            clock_wait(args.suite == "known05on");
            watch::end();
        }
    }
}
