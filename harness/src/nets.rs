//! Checks that run random programs and look at what every context observed.

use crate::exec::{self, Opts, RunOut};
use crate::gen::{self, Cfg};
use crate::model::{self, ModelOut};
use crate::oracle::{self, Complaint, Seen};
use crate::prog::*;
use crate::report::{self, Args};
use crate::rng::{mix2, Rng};
use crate::{pert, watch};
use serde_json::json;
use std::hash::{Hash, Hasher};
use std::time::Instant;

pub struct Case {
    pub prog: Prog,
    pub model: ModelOut,
    pub runs: Vec<Opts>,
    pub kind: &'static str,
}

fn h64(x: impl Hash) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

pub fn shape(p: &Prog) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    for c in &p.chans {
        (c.cap, c.lat, c.rlat, c.src, c.dst, c.void).hash(&mut h);
    }
    for n in &p.nodes {
        format!("{:?}", n.script).hash(&mut h);
    }
    h.finish()
}

pub fn describe(p: &Prog, o: Option<&Opts>) -> serde_json::Value {
    json!({
        "nodes": p.nodes.iter().enumerate().map(|(i, n)| format!(
            "{i}: {} {}{:?}", oracle::imp_name(&n.imp), if n.legacy {"(legacy run) "} else if n.finish {"(finishes its clock) "} else {""}, n.script)).collect::<Vec<_>>(),
        "channels": p.chans.iter().enumerate().map(|(i, c)| format!(
            "{i}: {} -> {} cap {:?} latency {} response latency {}{} {:?}{}{}",
            c.src, if c.void {"void".to_string()} else {c.dst.to_string()}, c.cap, c.lat, c.rlat,
            if c.void {" void"} else {""}, c.ty,
            if c.sadapt {" send-adapter"} else {""}, if c.radapt {" recv-adapter"} else {""})).collect::<Vec<_>>(),
        "units": format!("{:?} {:?} {:?} {:?}", p.mems, p.pmus, p.pcus, p.drams),
        "run": o.map(|o| format!("{o:?}")),
    })
}

fn short(p: &Prog, m: &ModelOut, o: &Opts, kind: &str) -> serde_json::Value {
    json!({
        "kind": kind,
        "nodes": p.nodes.iter().map(|n| oracle::imp_name(&n.imp)).collect::<Vec<_>>(),
        "channels": p.chans.iter().map(|c| format!("{}->{} cap {:?} lat {}/{}", c.src,
            if c.void {-1} else {c.dst as i64}, c.cap, c.lat, c.rlat)).collect::<Vec<_>>(),
        "operations": m.nodes.iter().map(|n| n.recs.len()).collect::<Vec<_>>(),
        "first_script": format!("{:?}", p.nodes[0].script).chars().take(400).collect::<String>(),
        "final_times": m.nodes.iter().map(|n| n.tick).collect::<Vec<_>>(),
        "inference": o.inference, "perturbation": o.mode,
    })
}

fn cfg_for(suite: &str, r: &mut Rng, thorough: bool) -> (Cfg, &'static str) {
    let mut c = gen::base();
    let mut kind = "mixed";
    if thorough && r.chance(1, 6) {
        c.steps = (50, 500);
        c.scripts = (2, 12);
        c.plain = (2, 24);
        c.burst_len = 400;
    }
    let mut style = r.below(13);
    if matches!(suite, "C10" | "C11") && (style == 2 || style == 5) {
        style = 10;
    }
    match style {
        0 => {
            kind = "tight";
            c.caps = &[1];
            c.unbounded = 0;
        }
        1 => {
            kind = "ring";
            c.scripts = (2, 4);
            c.plain = (6, 14);
            c.caps = &[1, 2, 3];
        }
        2 => {
            kind = "big times";
            c.big = true;
        }
        3 => {
            kind = "long streams";
            c.burst_len = 300;
            c.bursts = 30;
            c.steps = (5, 25);
            c.gap = 3;
        }
        4 => {
            kind = "latency 1";
            c.lat_max = 1;
            c.gap = 2;
        }
        5 => {
            kind = "large gaps";
            c.gap = 400;
            c.lat_max = 200;
        }
        6 => {
            kind = "dag";
            c.dag = true;
        }
        7 => {
            kind = "wide";
            c.wide = true;
            c.steps = (30, 250);
            c.caps = &[1, 2, 4, 9, 17, 33];
        }
        8 => {
            kind = "deep";
            c.burst_len = 3000;
            c.bursts = 20;
            c.steps = (3, 10);
            if r.chance(1, 10) {
                c.burst_len = 25_000;
                c.bursts = 60;
                c.steps = (1, 2);
            }
            c.scripts = (2, 3);
            c.plain = (1, 3);
            c.gap = 3;
            c.caps = &[1, 16, 31, 32, 33, 64, 100, 128, 256, 1000, 1024];
            c.peeks = 0;
        }
        9 => {
            kind = "many";
            c.scripts = (8, 40);
            c.plain = (10, 60);
            c.steps = (40, 200);
        }
        _ => {}
    }
    c.finish = *r.pick(&[0, 0, 0, 30, 80]);
    match suite {
        "C01" => {
            c.peeks = *r.pick(&[0, 0, 3, 6]);
            c.arb = 8;
        }
        "C02" => {
            c.peeks = *r.pick(&[0, 2, 5]);
        }
        "C03" => {
            c.caps = &[1, 1, 2, 2, 3, 4];
            c.unbounded = 5;
            c.waits = 10;
            c.bursts = 12;
            c.bcast = 30;
        }
        "C04" => {
            c.peeks = *r.pick(&[0, 2]);
            c.arb = 35;
            c.pmu = 15;
            c.dram = 10;
        }
        "C05" => {
            c.peeks = *r.pick(&[0, 0, 2]);
            c.arb = 10;
            c.pmu = 20;
            c.dram = 6;
            if r.chance(1, 3) {
                c.dag = true;
                c.peeks = 0;
                c.arb = 0;
                c.pmu = 0;
                c.dram = 0;
                kind = "dag";
            }
        }
        "C06" => {
            c.peeks = *r.pick(&[4, 7, 10]);
            c.arb = 10;
            c.gap = c.gap.min(60);
        }
        "C07" => {
            c.peeks = *r.pick(&[0, 0, 3, 6]);
            c.arb = 15;
            c.pmu = 5;
            c.dram = 5;
            c.caps = &[1, 1, 1, 2, 2, 3, 4, 8];
        }
        "C10" => {
            c.pmu = 70;
            c.plain = (0, 4);
            c.scripts = (1, 4);
            c.pcu = 0;
        }
        "C11" => {
            c.dram = 75;
            c.plain = (0, 3);
            c.scripts = (1, 4);
            c.pcu = 0;
        }
        "C12" => {
            c.pcu = 85;
            c.plain = (0, 3);
            c.scripts = (1, 4);
        }
        "C13" => {
            c.bcast = 55;
            c.gens = 65;
            c.sinks = 45;
            c.pcu = 0;
            c.plain = (0, 3);
        }
        "C19" => {
            c.pmu = 20;
            c.dram = 10;
            c.sinks = 30;
        }
        "C21" => {
            c.peeks = *r.pick(&[0, 0, 3]);
            c.arb = 10;
            c.pmu = 10;
            c.dram = 10;
            c.pcu = 15;
            c.far = r.chance(1, 12);
        }
        "C22" => {
            c.adapters = 70;
            c.peeks = *r.pick(&[0, 4]);
        }
        "C18" => {
            c.cut = *r.pick(&[0, 30, 60]);
            c.closing = 50;
            c.fail = r.below(2);
            c.legacy = 30;
            c.peeks = *r.pick(&[1, 3, 6]);
            c.pmu = 10;
            c.arb = 10;
            c.toks = *r.pick(&[30, 60, 80]);
            c.void = 20;
            c.types = true;
        }
        "C08" => {
            c.cut = 45;
            c.peeks = *r.pick(&[0, 3]);
            c.closing = 90;
            c.arb = 8;
            c.caps = &[1, 1, 2, 2, 3, 4, 8];
            c.finish = *r.pick(&[0, 30, 80]);
        }
        "C14" => {
            c.cut = 60;
            c.fail = 1;
            c.closing = 60;
            c.legacy = 50;
        }
        _ => {}
    }
    if c.big {
        // contexts that wait for each other's clocks would count every cycle
        c.arb = 0;
        c.pmu = 0;
        c.dram = 0;
    }
    if cfg!(feature = "cyclelike") {
        c.big = false;
        c.gap = c.gap.min(40);
        c.lat_max = c.lat_max.min(30);
    }
    if suite_is_tiny() {
        c.tiny = true;
        c.wide = false;
        c.scripts = (2, 3);
        c.plain = (1, 4);
        c.steps = (4, 14);
        c.burst_len = 4;
        c.gap = c.gap.min(5);
        c.lat_max = c.lat_max.min(4);
        c.gens = c.gens.min(20);
        c.big = false;
    }
    (c, kind)
}

pub fn suite_is_tiny() -> bool {
    cfg!(miri) || std::env::var_os("DAMV_TINY").is_some()
}

/// programs whose outcome may depend on the schedule after an early drop are still checked by the trace monitors
fn may_cut(suite: &str) -> bool {
    matches!(suite, "C08" | "C14" | "C18")
}

pub fn make(suite: &str, seed: u64, idx: u64, thorough: bool) -> Option<Case> {
    let tag = h64(if suite == "C21" { "C21" } else { suite });
    let mut r = Rng::new(mix2(mix2(seed, tag), idx));
    let (cfg, kind) = cfg_for(suite, &mut r, thorough);
    let mut prog = gen::walk(&mut r, &cfg);
    let mut m = model::run_limited(&prog, 3_000_000);
    // units that arbitrate may pass every single cycle
    if m.overflow || (m.arbs > 0 && m.max_tick > if r.chance(1, 40) { 30_000 } else { 3_000 }) {
        return None;
    }
    // a server outlives a requester that ended early, and whoever still waits for an answer may then wait for ever
    if m.racy_close && prog.nodes.iter().any(|n| n.script.iter().any(has_arb)) {
        return None;
    }
    let nruns = match suite {
        "C04" => 5,
        "C05" => 2,
        "C07" => 3,
        "C03" | "C06" | "C10" => 2,
        _ => 1,
    };
    let infer_ok;
    let mut infer = match suite {
        "C05" => true,
        "C11" | "C12" | "C13" | "C02" | "C03" | "C01" | "C10" | "C19" | "C22" | "C04" | "C21" | "C08" | "C14" | "C18" | "C06" | "C07" => {
            r.chance(1, 3)
        }
        _ => false,
    };
    if infer && !m.deadlock {
        let sent: Vec<usize> = m.chans.iter().map(|c| c.sent.max(c.resp.len())).collect();
        // a sender that is cut short by a closing receiver could send more
        let sent: Vec<usize> = sent
            .iter()
            .enumerate()
            .map(|(i, s)| if may_cut(suite) { count_sends(&prog, i).max(*s) } else { *s })
            .collect();
        gen::ample(&mut prog, &sent);
        m = model::run_limited(&prog, 3_000_000);
        infer_ok = true;
    } else {
        infer_ok = false;
    }
    infer = infer && infer_ok;
    if m.overflow {
        return None;
    }
    let mut runs = vec![];
    for k in 0..nruns {
        // delays add up over long streams
        let modes = if m.nodes.iter().map(|n| n.recs.len()).sum::<usize>() > 30_000 { 2 } else { pert::MODES };
        let mode = if k == 0 && suite == "C04" { 0 } else { r.below(modes) };
        let inf = match suite {
            "C05" => k == 1,
            "C04" | "C07" => infer && k % 2 == 1,
            _ => infer,
        };
        // real-time scheduling, in one process and with few threads, so that there is always a processor left
        let fifo = suite == "C04" && k + 1 == nruns && idx % 8 == 0 && r.chance(1, 2) && prog.nodes.len() <= 4 && prog.pmus.is_empty();
        runs.push(Opts::new(inf, if fifo && !cfg!(miri) { pert::FIFO } else { mode }, r.u64()));
    }
    // some of the contexts are members of composite ones
    let calm = !m.racy_close && !m.deadlock && m.nodes.iter().all(|n| matches!(n.outcome, None | Some(Outcome::Ok))) && !matches!(suite, "C14");
    if calm && r.chance(1, if suite == "C05" { 2 } else { 4 }) {
        teams(&mut r, &mut prog);
    }
    Some(Case {
        prog,
        model: m,
        runs,
        kind,
    })
}

fn teams(r: &mut Rng, p: &mut Prog) {
    let n = r.range(1, 3) as usize;
    for g in 0..n {
        p.groups.push(Group {
            members: vec![],
            parent: (g > 0 && r.chance(1, 2)).then(|| r.below(g as u64) as usize),
            seed: r.u64(),
        });
    }
    for i in 0..p.nodes.len() {
        // (the parts of a PMU come as one)
        if r.chance(1, 2) && !matches!(p.nodes[i].imp, Imp::PmuReader(_)) {
            let g = r.below(n as u64) as usize;
            p.groups[g].members.push(i);
        }
    }
}

fn has_arb(op: &Op) -> bool {
    match op {
        Op::Arb { .. } => true,
        Op::Loop { body, .. } => body.iter().any(has_arb),
        _ => false,
    }
}

fn count_sends(p: &Prog, ch: usize) -> usize {
    fn go(ops: &[Op], ch: usize) -> usize {
        ops.iter()
            .map(|o| match o {
                Op::Enq { ch: c, .. } | Op::EnqAt { ch: c, .. } | Op::EnqMark { ch: c, .. } if *c == ch => 1,
                Op::EnqSel { chs, .. } if chs.contains(&ch) => 1,
                Op::Loop { n, body } => go(body, ch) * n.map(|n| n as usize).unwrap_or(4000),
                _ => 0,
            })
            .sum()
    }
    go(&p.nodes[p.chans[ch].src].script, ch)
}

/// complaints that count for a suite
fn relevant(suite: &str, c: &Complaint) -> bool {
    if c.prop == suite || c.prop == "PANIC" {
        return true;
    }
    match suite {
        "C01" => c.prop == "C18",
        "C08" => matches!(c.prop, "C01" | "C06") || c.prop == "C02" && c.what.ends_with("at infinity"),
        "C18" => c.prop == "C18",
        "C21" | "C22" => true,
        _ => false,
    }
}

/// unrelated complaints are counted, not reported: they belong to another check
pub fn judge(suite: &str, case: &Case, outs: &[RunOut], seen: &mut Seen) -> Vec<Complaint> {
    let (p, m) = (&case.prog, &case.model);
    let mut all: Vec<Complaint> = vec![];
    let exact = !m.racy_close && !m.deadlock;
    for run in outs {
        let mut cs = oracle::trace(p, run, seen);
        if !exact {
            // a context that lost its partner early may rightly have been told so
            cs.retain(|c| c.prop != "C03" || !c.what.contains("never received"));
        }
        all.extend(cs);
        all.extend(oracle::elapsed(p, run));
        if let Some(e) = &run.run_panicked {
            all.push(Complaint {
                prop: "PANIC",
                what: format!("the run panicked: {e}"),
            });
            continue;
        }
        if let Some(e) = &run.init_error {
            all.push(Complaint {
                prop: "PANIC",
                what: format!("a well-formed program was refused: {e}"),
            });
            continue;
        }
        if exact && matches!(suite, "C04" | "C05" | "C07" | "C10" | "C11" | "C12" | "C13" | "C21" | "C22" | "C14" | "C08" | "C19") {
            let prop: &'static str = match suite {
                "C04" => "C04",
                "C05" => "C05",
                "C10" => "C10",
                "C11" => "C11",
                "C12" => "C12",
                "C13" => "C13",
                "C21" => "C21",
                "C22" => "C22",
                _ => "MODEL",
            };
            all.extend(oracle::against_model(p, run, m, prop));
        }
        all.extend(failures(p, run));
    }
    if exact && outs.len() > 1 {
        let prop: &'static str = match suite {
            "C05" => "C05",
            _ => "C04",
        };
        for o in &outs[1..] {
            all.extend(oracle::same_runs(p, &outs[0], o, m, prop));
        }
    }
    let (mine, others): (Vec<_>, Vec<_>) = all.into_iter().partition(|c| relevant(suite, c));
    for o in others {
        if std::env::var_os("DAMV_OTHER").is_some() {
            eprintln!("OTHER {} {}", o.prop, o.what);
        }
        report::with(|r| *r.other.entry(format!("{}: {}", o.prop, o.what.chars().take(160).collect::<String>())).or_default() += 1);
    }
    mine
}

/// every failing context is listed exactly once, with its own message, and nothing else is
fn failures(p: &Prog, run: &RunOut) -> Vec<Complaint> {
    let mut out = vec![];
    let mut expect: Vec<(usize, String)> = vec![];
    let mut add = |what: String| {
        out.push(Complaint { prop: "C14", what })
    };
    for n in 0..p.nodes.len() {
        if p.is_script(n) {
            if run.runs[n] != 1 {
                add(format!("node {n} ran {} times", run.runs[n]));
            }
            match (run.outcome[n], &p.nodes[n].imp, p.nodes[n].legacy) {
                (Some(Outcome::Ok), _, _) => {}
                (_, Imp::Func, _) => {}
                (Some(Outcome::Err), _, false) => expect.push((run.ids[n], format!("failure of node {n}"))),
                (_, _, true) => expect.push((run.ids[n], "Panic occurred".into())),
                _ => {}
            }
        }
    }
    for (id, msg) in &expect {
        let k = run.failures.iter().filter(|f| f.0 == *id).count();
        if k != 1 {
            add(format!("the failing context {id} is listed {k} times: {:?}", run.failures));
        } else if !run.failures.iter().any(|f| f.0 == *id && f.1 == *msg) {
            add(format!("the failure of context {id} should read {msg:?}: {:?}", run.failures));
        }
    }
    for f in &run.failures {
        let script = (0..p.nodes.len()).find(|n| run.ids[*n] == f.0);
        match script {
            None => add(format!("failure of unknown context: {f:?}")),
            Some(n) if p.is_script(n) && !expect.iter().any(|e| e.0 == f.0) => {
                add(format!("node {n} completed but is listed as failed: {f:?}"))
            }
            _ => {}
        }
    }
    if run.passed != run.failures.is_empty() {
        add(format!("passed() is {} with failures {:?}", run.passed, run.failures));
    }
    out
}

pub fn run_case(args: &Args, idx: u64, verbose: bool) -> bool {
    let suite = args.suite.as_str();
    let Some(case) = make(suite, args.seed, idx, args.thorough) else {
        report::with(|r| r.count("rejected_programs", 1));
        return true;
    };
    let (p, m) = (&case.prog, &case.model);
    if m.deadlock {
        report::with(|r| r.count("generator_deadlocks", 1));
        if verbose {
            eprintln!("{}", serde_json::to_string_pretty(&describe(p, None)).unwrap());
            for (i, n) in m.nodes.iter().enumerate() {
                eprintln!("node {i} outcome {:?} after {} records, last {:?}", n.outcome, n.recs.len(), n.recs.last());
            }
        }
        return true;
    }
    if verbose {
        eprintln!("{}", serde_json::to_string_pretty(&describe(p, Some(&case.runs[0]))).unwrap());
        eprintln!("model: racy {} final {:?}", m.racy_close, m.nodes.iter().map(|n| (n.outcome, n.tick)).collect::<Vec<_>>());
    }
    let mut outs = vec![];
    for o in &case.runs {
        {
            watch::begin(
                json!({"suite": suite, "seed": args.seed, "case": idx, "kind": case.kind, "inference": o.inference,
                       "perturbation": o.mode, "thorough": args.thorough})
                .to_string(),
            );
        }
        let t0 = Instant::now();
        let out = exec::run(p, *o);
        watch::end();
        if args.verbose || t0.elapsed().as_millis() > 1000 {
            eprintln!("case {idx} took {:?}, mode {}, {} records", t0.elapsed(), o.mode, m.nodes.iter().map(|n| n.recs.len()).sum::<usize>());
        }
        outs.push(out);
    }
    let mut seen = Seen::default();
    let mine = judge(suite, &case, &outs, &mut seen);
    let hash = shape(p);
    report::with(|r| {
        r.evaluations += outs.len() as u64;
        let nontrivial = seen.deq > 0;
        if nontrivial {
            for o in &case.runs {
                r.hashes.insert(mix2(hash, o.inference as u64 * 16 + o.mode));
            }
        }
        r.counts.insert("payloads_with_counted_drops".into(), exec::TOK_MADE.load(std::sync::atomic::Ordering::Relaxed));
        for o in &outs {
            r.distinct("interleavings", mix2(hash, o.order));
        }
        r.distinct("programs", hash);
        r.count(&format!("programs_{}", case.kind.replace(' ', "_")), 1);
        r.count("runs", outs.len() as u64);
        r.count("runs_under_realtime_scheduling", case.runs.iter().filter(|o| o.mode == pert::FIFO).count() as u64);
        r.count("runs_with_inference", case.runs.iter().filter(|o| o.inference).count() as u64);
        r.count("operations_recorded", seen.recs);
        r.count("sends", seen.enq);
        r.count("receives", seen.deq);
        r.count("peeks", seen.peeks);
        r.count("peeks_saying_nothing_yet", seen.peek_nothing);
        r.count("peeks_seeing_an_element", seen.peek_something);
        r.count("combined_event_queries", seen.events);
        r.count("sends_delayed_by_backpressure", seen.stalls);
        r.count("explicit_waits_for_space", seen.waits);
        r.count("receives_that_moved_the_clock", seen.waited_for_element);
        r.count("elements_requested_later_than_latency", seen.requested_later);
        r.count("closures_observed_by_receivers", seen.closed);
        r.count("closures_observed_by_senders", seen.closed_send);
        r.count("operations_after_the_other_end_was_dropped", seen.after_drop);
        r.count("arbitrations", m.arbs);
        r.count("contended_arbitrations", m.arb_contended);
        r.count("schedule_dependent_closings", m.racy_close as u64);
        r.max("clock", m.max_tick);
        for n in &p.nodes {
            if !matches!(n.imp, Imp::Script) {
                r.count(&format!("units_{}", oracle::imp_name(&n.imp).replace(' ', "_")), 1);
            }
        }
        for o in &outs {
            if !o.failures.is_empty() {
                r.count("runs_with_failures", 1);
                r.count("failures_reported", o.failures.len() as u64);
            }
        }
        if r.samples.len() < 3 && nontrivial && idx % 3 == 1 {
            r.samples.push(short(p, m, &case.runs[0], case.kind));
        }
        if !mine.is_empty() {
            let whats: Vec<String> = mine.iter().map(|c| format!("[{}] {}", c.prop, c.what)).collect();
            let d = json!({"complaints": whats, "program": describe(p, None), "runs": case.runs.iter().map(|o| format!("{o:?}")).collect::<Vec<_>>()});
            r.violation(idx, whats[0].clone(), d);
        }
    });
    if verbose {
        for c in &mine {
            eprintln!("[{}] {}", c.prop, c.what);
        }
    }
    mine.is_empty()
}

/// several programs at once in one process, each on its own
fn crowd(args: &Args, idx: u64) -> bool {
    let cases: Vec<Case> = (0..Rng::new(mix2(args.seed ^ 0xC04D, idx)).range(2, 5))
        .filter_map(|k| make("crowd", args.seed, idx * 8 + k, false))
        .filter(|c| !c.model.deadlock && !c.model.racy_close)
        .collect();
    if cases.len() < 2 {
        report::with(|r| r.count("rejected_programs", 1));
        return true;
    }
    watch::begin(json!({"suite": args.suite, "seed": args.seed, "case": idx, "programs": cases.len()}).to_string());
    let mut outs: Vec<RunOut> = std::thread::scope(|s| {
        let hs: Vec<_> = cases.iter().map(|c| s.spawn(|| exec::run(&c.prog, c.runs[0]))).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    watch::end();
    // drops are counted for the process as a whole
    for o in &mut outs {
        o.notes.clear();
    }
    let mut bad = vec![];
    let mut seen = Seen::default();
    for (c, o) in cases.iter().zip(&outs) {
        let cs = judge("C04", c, std::slice::from_ref(o), &mut seen);
        if !cs.is_empty() && bad.is_empty() {
            bad.extend(cs.into_iter().map(|c| format!("[{}] {} (next to other programs)", c.prop, c.what)));
            bad.push(describe(&c.prog, None).to_string());
        }
    }
    report::with(|r| {
        r.evaluations += outs.len() as u64;
        r.count("programs_run_next_to_others", outs.len() as u64);
        r.count("operations_recorded", seen.recs);
        r.count("receives", seen.deq);
        for (c, o) in cases.iter().zip(&outs) {
            if c.model.nodes.iter().any(|n| !n.recs.is_empty()) {
                r.hashes.insert(mix2(shape(&c.prog), 0xC04D));
            }
            r.distinct("interleavings", mix2(shape(&c.prog), o.order));
        }
        if !bad.is_empty() {
            r.violation(idx, bad[0].clone(), json!({"complaints": bad}));
        }
    });
    bad.is_empty()
}

pub fn suite(args: &Args) {
    if args.suite == "crowd" {
        return crate::cases(args, |idx| crowd(args, idx));
    }
    crate::cases(args, |idx| run_case(args, idx, args.verbose));
}
