//! Checkers over the recorded events of one run. Each complaint names the property it belongs to.

use crate::exec::RunOut;
use crate::model::ModelOut;
use crate::prog::*;

#[derive(Clone, Debug)]
pub struct Complaint {
    pub prop: &'static str,
    pub what: String,
}

#[derive(Default, Clone, Debug)]
pub struct Seen {
    pub recs: u64,
    pub enq: u64,
    pub deq: u64,
    pub peeks: u64,
    pub peek_nothing: u64,
    pub peek_something: u64,
    pub events: u64,
    pub stalls: u64,
    pub waits: u64,
    pub waited_for_element: u64,
    pub requested_later: u64,
    pub closed: u64,
    pub closed_send: u64,
    /// operations that began when the other end had been dropped
    pub after_drop: u64,
}

impl Seen {
    pub fn add(&mut self, o: &Seen) {
        self.recs += o.recs;
        self.enq += o.enq;
        self.deq += o.deq;
        self.peeks += o.peeks;
        self.peek_nothing += o.peek_nothing;
        self.peek_something += o.peek_something;
        self.events += o.events;
        self.stalls += o.stalls;
        self.waits += o.waits;
        self.waited_for_element += o.waited_for_element;
        self.requested_later += o.requested_later;
        self.closed += o.closed;
        self.closed_send += o.closed_send;
        self.after_drop += o.after_drop;
    }
}

struct ChanLog<'a> {
    enq: Vec<&'a Rec>,
    deq: Vec<&'a Rec>,
    /// receiver records with the number of successful dequeues before them
    recv: Vec<(usize, &'a Rec)>,
}

macro_rules! complain {
    ($out: expr, $prop: expr, $($arg: tt)*) => {
        if $out.len() < 20 { $out.push(Complaint { prop: $prop, what: format!($($arg)*) }) }
    };
}

pub fn trace(p: &Prog, run: &RunOut, seen: &mut Seen) -> Vec<Complaint> {
    let mut out: Vec<Complaint> = vec![];
    for s in &run.notes {
        match s.strip_prefix(crate::exec::TIME) {
            Some(s) => complain!(out, "C02", "{s}"),
            None => complain!(out, "C18", "{s}"),
        }
    }
    for s in &run.lib_panics {
        complain!(out, "PANIC", "{s}");
    }
    let nc = p.chans.len();
    let mut logs: Vec<ChanLog> = (0..nc)
        .map(|_| ChanLog {
            enq: vec![],
            deq: vec![],
            recv: vec![],
        })
        .collect();
    // clocks
    for (n, recs) in run.recs.iter().enumerate() {
        let mut last = 0;
        for (i, r) in recs.iter().enumerate() {
            seen.recs += 1;
            if r.t1 < r.t0 {
                complain!(out, "C02", "node {n}: time went from {} back to {} in {r:?}", r.t0, r.t1);
            }
            if r.t0 != last {
                complain!(out, "C02", "node {n}: time changed from {last} to {} between operations, before {r:?}", r.t0);
            }
            last = r.t1;
            let expect = match (r.k, r.r) {
                (K::Incr, _) => Some(r.t0 + r.v),
                (K::Adv, _) => Some(r.t0.max(r.v)),
                (K::Drop, _) => Some(r.t0),
                (K::Peek | K::Event | K::AllEvent | K::AnyEvent, _) => Some(r.t0),
                (K::Deq | K::PeekNext, Rs::Ok) => Some(r.t0.max(r.et)),
                _ => None,
            };
            if let Some(e) = expect {
                if r.t1 != e {
                    complain!(out, "C02", "node {n}, operation {i}: time {} instead of {e} after {r:?}", r.t1);
                }
            }
            match r.k {
                K::Enq => {
                    if r.r == Rs::Ok {
                        seen.enq += 1;
                        logs[r.ch as usize].enq.push(r)
                    } else {
                        seen.closed_send += 1
                    }
                }
                K::Deq => {
                    let l = &mut logs[r.ch as usize];
                    l.recv.push((l.deq.len(), r));
                    if r.r == Rs::Ok {
                        seen.deq += 1;
                        if r.t1 > r.t0 {
                            seen.waited_for_element += 1
                        }
                        l.deq.push(r);
                    } else {
                        seen.closed += 1
                    }
                }
                K::PeekNext | K::Peek | K::Event => {
                    let l = &mut logs[r.ch as usize];
                    l.recv.push((l.deq.len(), r));
                    seen.peeks += 1;
                    match r.r {
                        Rs::Nothing => seen.peek_nothing += 1,
                        Rs::Ok => seen.peek_something += 1,
                        Rs::Closed => seen.closed += 1,
                    }
                }
                K::Wait => seen.waits += 1,
                K::AllEvent | K::AnyEvent => seen.events += 1,
                _ => {}
            }
        }
    }
    // channels
    for (ci, c) in p.chans.iter().enumerate() {
        let l = &logs[ci];
        let s_script = p.is_script(c.src);
        let r_script = !c.void && p.is_script(c.dst);
        if s_script && r_script {
            // C01
            for (i, d) in l.deq.iter().enumerate() {
                match l.enq.get(i) {
                    None => complain!(out, "C01", "channel {ci}: element {i} was received ({d:?}) but never sent"),
                    Some(e) if e.v != d.v => {
                        complain!(out, "C01", "channel {ci}: element {i} was sent as {} and received as {}", e.v, d.v)
                    }
                    Some(e) => {
                        let at = e.et.max(e.t1 + c.lat);
                        if e.et > e.t1 + c.lat {
                            seen.requested_later += 1
                        }
                        if d.et != at {
                            complain!(
                                out,
                                "C02",
                                "channel {ci} (latency {}): element {i} was sent at {} asking for {} and carries {} instead of {at}",
                                c.lat,
                                e.t1,
                                e.et,
                                d.et
                            );
                        }
                    }
                }
            }
        }
        if r_script {
            let mut closed_at: Option<usize> = None;
            for (pos, r) in &l.recv {
                match r.r {
                    Rs::Closed => closed_at = Some(*pos),
                    Rs::Ok => {
                        if closed_at.is_some() {
                            complain!(out, "C08", "channel {ci}: {r:?} after the channel was reported closed");
                        }
                    }
                    Rs::Nothing => {
                        if closed_at.is_some() && r.et != u64::MAX {
                            complain!(out, "C08", "channel {ci}: {r:?} after the channel was reported closed");
                        }
                    }
                }
            }
            if let Some(pos) = closed_at {
                if s_script && pos < l.enq.len() {
                    complain!(
                        out,
                        "C01",
                        "channel {ci}: {} elements were sent but the receiver was told after {pos} that the channel is closed",
                        l.enq.len()
                    );
                }
            }
            // C06: what was predicted against what came
            // et of element i: from the dequeue, else from the sender
            let ets: Vec<u64> = (0..l.deq.len().max(if s_script { l.enq.len() } else { 0 }))
                .map(|i| match l.deq.get(i) {
                    Some(d) => d.et,
                    None => l.enq[i].et.max(l.enq[i].t1 + c.lat),
                })
                .collect();
            let vals: Vec<u64> = (0..ets.len())
                .map(|i| match l.deq.get(i) {
                    Some(d) => d.v,
                    None => l.enq[i].v,
                })
                .collect();
            let mut suffix = vec![u64::MAX; ets.len() + 1];
            for i in (0..ets.len()).rev() {
                suffix[i] = suffix[i + 1].min(ets[i]);
            }
            for (pos, r) in &l.recv {
                match (r.k, r.r) {
                    (K::Peek | K::PeekNext | K::Event, Rs::Ok) => {
                        let ok = *pos < ets.len() && ets[*pos] == r.et && (r.k == K::Event || vals[*pos] == r.v);
                        if !ok {
                            // a PeekNext whose element the run never dequeued is judged through the sender's record
                            if *pos < ets.len() || s_script {
                                complain!(
                                    out,
                                    "C06",
                                    "channel {ci}: {r:?} but the next element is {:?}",
                                    ets.get(*pos).map(|t| (vals[*pos], t))
                                );
                            }
                        }
                    }
                    (K::Peek | K::Event, Rs::Nothing) => {
                        if r.et < r.t0 {
                            complain!(out, "C06", "channel {ci}: {r:?} is behind the peeking context's own time");
                        }
                        if r.et != u64::MAX && suffix[*pos] <= r.et {
                            complain!(
                                out,
                                "C06",
                                "channel {ci}: {r:?} promised nothing up to {}, yet an element of time {} was received later",
                                r.et,
                                suffix[*pos]
                            );
                        }
                    }
                    (K::Peek | K::Event | K::PeekNext, Rs::Closed) => {
                        if *pos < ets.len() {
                            complain!(out, "C06", "channel {ci}: {r:?}, yet element {pos} exists");
                        }
                    }
                    _ => {}
                }
            }
        }
        // C08: what begins after the other end has been dropped
        if s_script && r_script && c.src != c.dst {
            let dropped = |node: usize, v: u64| {
                let i = run.recs[node].iter().position(|r| r.k == K::Drop && r.ch as usize == ci && r.v == v)?;
                run.tickets[node].get(i).copied()
            };
            let later = |node: usize, i: usize, t: u64| i > 0 && run.tickets[node].get(i - 1).is_some_and(|x| *x > t);
            if let Some(t) = dropped(c.src, 1) {
                let mut promised = vec![];
                // combined queries leave answers of their own behind
                let combined = run.recs[c.dst].iter().any(|r| matches!(r.k, K::AllEvent | K::AnyEvent | K::Arb));
                for (i, r) in run.recs[c.dst].iter().enumerate() {
                    if r.ch as usize != ci || !matches!(r.k, K::Peek | K::Event | K::Deq | K::PeekNext) {
                        continue;
                    }
                    let after = later(c.dst, i, t);
                    seen.after_drop += after as u64;
                    if r.r == Rs::Nothing {
                        // an answer given before may be given again
                        if after && !combined && r.et != u64::MAX && !promised.contains(&r.et) {
                            complain!(out, "C08", "channel {ci}: {r:?} of a channel whose sender had been dropped before");
                        }
                        promised.push(r.et);
                    }
                }
            }
            if let Some(t) = dropped(c.dst, 0) {
                for (i, r) in run.recs[c.src].iter().enumerate() {
                    if r.ch as usize == ci && matches!(r.k, K::Enq | K::Wait) && later(c.src, i, t) {
                        seen.after_drop += 1;
                        if r.k == K::Enq && r.r == Rs::Ok && c.cap.is_none() {
                            complain!(out, "C08", "channel {ci}: {r:?} into an unbounded channel whose receiver had been dropped before");
                        }
                    }
                }
            }
        }
        // C03
        if s_script {
            let mut k = 0usize;
            for r in &run.recs[c.src] {
                if r.ch as usize != ci || !matches!(r.k, K::Enq | K::Wait) {
                    continue;
                }
                if r.r == Rs::Ok {
                    let limit = if c.void { None } else { c.cap };
                    let expect = match limit {
                        Some(cap) if k >= cap => {
                            if !r_script {
                                None
                            } else {
                                match l.deq.get(k - cap) {
                                    None => {
                                        complain!(
                                            out,
                                            "C03",
                                            "channel {ci} of capacity {cap}: {r:?} of element {k} succeeded although element {} was never received",
                                            k - cap
                                        );
                                        None
                                    }
                                    Some(d) => Some(r.t0.max(d.t1 + c.rlat)),
                                }
                            }
                        }
                        _ => Some(r.t0),
                    };
                    if let Some(e) = expect {
                        if e > r.t0 {
                            seen.stalls += 1
                        }
                        if r.t1 != e {
                            complain!(
                                out,
                                "C03",
                                "channel {ci} (capacity {:?}, response latency {}): the sender's time became {} instead of {e} in {r:?} of element {k}",
                                limit,
                                c.rlat,
                                r.t1
                            );
                        }
                    }
                    if r.k == K::Enq {
                        k += 1
                    }
                }
            }
            // occupancy, independently of the rule above
            if let (Some(cap), true, false) = (c.cap, r_script, c.void) {
                let mut evs: Vec<(u64, i64)> = l.enq.iter().map(|e| (e.t1, 1)).collect();
                evs.extend(l.deq.iter().map(|d| (d.t1 + c.rlat, -1)));
                evs.sort_by_key(|e| (e.0, e.1));
                let mut occ = 0;
                for (t, d) in evs {
                    occ += d;
                    if occ > cap as i64 {
                        complain!(out, "C03", "channel {ci} of capacity {cap}: {occ} unacknowledged elements at time {t}");
                        break;
                    }
                }
            }
        }
    }
    // all-of / any-of
    for (n, recs) in run.recs.iter().enumerate() {
        if !recs.iter().any(|r| matches!(r.k, K::AllEvent | K::AnyEvent)) {
            continue;
        }
        let code = compile(&p.nodes[n].script);
        let mut pos = vec![0usize; nc];
        for r in recs {
            if r.k == K::Deq && r.r == Rs::Ok {
                pos[r.ch as usize] += 1;
            }
            let chs = match (&r.k, &code[r.pc as usize]) {
                (K::AllEvent, Ins::Op(Op::AllEvent { chs })) | (K::AnyEvent, Ins::Op(Op::AnyEvent { chs })) => chs,
                _ => continue,
            };
            // the next element of every part, None if there is none at all
            let heads: Option<Vec<Option<u64>>> = chs
                .iter()
                .map(|c| {
                    let l = &logs[*c];
                    if !p.is_script(p.chans[*c].src) && pos[*c] >= l.deq.len() {
                        return None;
                    }
                    Some(match l.deq.get(pos[*c]) {
                        Some(d) => Some(d.et),
                        None => l.enq.get(pos[*c]).map(|e| e.et.max(e.t1 + p.chans[*c].lat)),
                    })
                })
                .collect();
            let Some(heads) = heads else { continue };
            let all_t = heads.iter().copied().collect::<Option<Vec<u64>>>().map(|v| v.into_iter().max().unwrap_or(0));
            let any_t = heads.iter().flatten().copied().min();
            let truth = if r.k == K::AllEvent { all_t } else { any_t };
            let ok = match r.r {
                Rs::Ok => truth == Some(r.et),
                Rs::Nothing => r.et >= r.t0 && (r.et == u64::MAX || truth.is_none_or(|t| t > r.et)),
                Rs::Closed => truth.is_none(),
            };
            if !ok {
                complain!(
                    out,
                    "C06",
                    "node {n}: {r:?} over channels {chs:?}, whose next elements come at {heads:?}"
                );
            }
        }
    }
    // C19 and final clocks
    for (n, recs) in run.recs.iter().enumerate() {
        if !p.is_script(n) || run.outcome[n].is_none() {
            continue;
        }
        let last = recs.last().map(|r| r.t1).unwrap_or(0);
        if run.own[n] != last {
            complain!(out, "C02", "node {n}: time {} at the end, {last} after the last operation", run.own[n]);
        }
        if run.init_error.is_none() && run.fin[n] != (run.own[n], true) {
            complain!(
                out,
                "C19",
                "node {n} finished at {} and reads as {:?} afterwards",
                run.own[n],
                run.fin[n]
            );
        }
    }
    out
}

/// elapsed cycles against the final clocks
pub fn elapsed(p: &Prog, run: &RunOut) -> Vec<Complaint> {
    let mut out = vec![];
    if run.run_panicked.is_some() || run.init_error.is_some() {
        return out;
    }
    let failed: Vec<usize> = run.failures.iter().map(|f| f.0).collect();
    let expect = (0..p.nodes.len())
        .filter(|n| !failed.contains(&run.ids[*n]))
        .map(|n| if p.is_script(n) { run.own[n] } else { run.fin[n].0 })
        .max();
    if expect != run.elapsed {
        complain!(
            out,
            "C19",
            "elapsed cycles {:?}, but the largest final time of a completed context is {expect:?}",
            run.elapsed
        );
    }
    out
}

/// does the record say anything the reference simulation also says
fn modelled(r: &&Rec) -> bool {
    !matches!(r.k, K::Peek | K::Event | K::AllEvent | K::AnyEvent)
}

/// the first difference between two logs of a node, up to the first observed closure
pub fn diff_logs(a: &[Rec], b: &[Rec], all: bool) -> Option<String> {
    let mut x = a.iter().filter(|r| all || modelled(r));
    let mut y = b.iter().filter(|r| all || modelled(r));
    let mut i = 0;
    let mut tainted = false;
    loop {
        match (x.next(), y.next()) {
            (None, None) => return None,
            (Some(r), Some(s)) => {
                if r == s && !tainted {
                    if r.r == Rs::Closed {
                        tainted = true;
                    }
                } else {
                    let same_kind = r.pc == s.pc && r.k == s.k && r.ch == s.ch && r.r == s.r && r.v == s.v;
                    let soft = tainted || (r.r == Rs::Closed && r.t0 == s.t0);
                    if !(same_kind && soft) {
                        return Some(format!("operation {i}: {r:?} vs {s:?}"));
                    }
                    tainted = true;
                }
            }
            (r, s) => return Some(format!("operation {i}: {r:?} vs {s:?}")),
        }
        i += 1;
    }
}

/// `prop`: whom a difference is charged to
pub fn against_model(p: &Prog, run: &RunOut, m: &ModelOut, prop: &'static str) -> Vec<Complaint> {
    let mut out = vec![];
    if let Some(e) = &run.run_panicked {
        complain!(out, prop, "the run panicked: {e}");
        return out;
    }
    if let Some(e) = &run.init_error {
        complain!(out, prop, "initialization failed: {e}");
        return out;
    }
    for n in 0..p.nodes.len() {
        let mn = &m.nodes[n];
        if p.is_script(n) {
            if let Some(d) = diff_logs(&run.recs[n], &mn.recs, false) {
                complain!(out, prop, "node {n}: observed vs reference simulation: {d}");
            }
            if run.outcome[n] != mn.outcome {
                complain!(
                    out,
                    prop,
                    "node {n} ended with {:?} instead of {:?}",
                    run.outcome[n],
                    mn.outcome
                );
            }
        }
        let t = run.fin[n].0;
        if t < mn.tick || t > mn.hi {
            complain!(
                out,
                prop,
                "node {n} ({}) finished at {t} instead of {}..={}",
                imp_name(&p.nodes[n].imp),
                mn.tick,
                mn.hi
            );
        }
    }
    let fails = m.nodes.iter().filter(|n| n.outcome != Some(Outcome::Ok)).count();
    if run.passed != (fails == 0) {
        complain!(out, prop, "passed: {} with {fails} failing nodes in the reference simulation", run.passed);
    }
    out
}

pub fn imp_name(i: &Imp) -> &'static str {
    match i {
        Imp::Script => "script",
        Imp::Func => "function",
        Imp::Gen { .. } => "generator",
        Imp::Trace { .. } => "trace",
        Imp::Bcast { .. } => "broadcast",
        Imp::Consumer { .. } => "consumer",
        Imp::Checker { .. } => "checker",
        Imp::Approx { .. } => "approximate checker",
        Imp::Pcu { .. } => "PCU",
        Imp::PmuReader(_) => "PMU reader",
        Imp::PmuWriter(_) => "PMU writer",
        Imp::Dram(_) => "DRAM",
    }
}

/// differences between two runs of the same program
pub fn same_runs(p: &Prog, a: &RunOut, b: &RunOut, m: &ModelOut, prop: &'static str) -> Vec<Complaint> {
    let mut out = vec![];
    for n in 0..p.nodes.len() {
        if p.is_script(n) {
            if let Some(d) = diff_logs(&a.recs[n], &b.recs[n], false) {
                complain!(out, prop, "node {n} behaved differently on another run: {d}");
            }
        }
        if !m.nodes[n].closed_seen && a.fin[n] != b.fin[n] {
            complain!(
                out,
                prop,
                "node {n} finished at {:?} in one run and {:?} in another",
                a.fin[n],
                b.fin[n]
            );
        }
    }
    if a.passed != b.passed || a.failures.len() != b.failures.len() {
        complain!(
            out,
            prop,
            "one run failed with {:?}, another with {:?}",
            a.failures,
            b.failures
        );
    }
    let taint = m.nodes.iter().map(|n| n.hi).max() != m.nodes.iter().map(|n| n.tick).max();
    if !taint && a.elapsed != b.elapsed {
        complain!(out, prop, "elapsed cycles {:?} in one run and {:?} in another", a.elapsed, b.elapsed);
    }
    out
}
