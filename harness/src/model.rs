//! The reference simulation: a sequential discrete-event execution of a program description, written from the
//! documented semantics (latency, response latency, capacity, earliest-first arbitration), not from DAM's code.

use crate::prog::*;
use std::collections::{HashMap, VecDeque};

#[derive(Default, Clone)]
pub struct MChan {
    pub q: VecDeque<(u64, u64)>,
    pub sent: usize,
    /// when the slot of the j-th dequeued element becomes visible to the sender
    pub resp: Vec<u64>,
    pub sdone: bool,
    pub rdone: bool,
    pub max_fill: usize,
    /// enqueues that had to wait in simulated time
    pub stalls: u64,
}

pub struct MNode {
    pub tick: u64,
    /// final clock is within [tick, hi] (hi > tick only once a closure has been observed)
    pub hi: u64,
    pub outcome: Option<Outcome>,
    pub recs: Vec<Rec>,
    pub closed_seen: bool,
}

pub struct ModelOut {
    pub nodes: Vec<MNode>,
    pub chans: Vec<MChan>,
    pub deadlock: bool,
    /// a sender found its receiver gone, or a receiver left elements behind: what the sender sees then depends on the schedule
    pub racy_close: bool,
    pub steps: u64,
    pub arbs: u64,
    /// arbitrations where two groups were ready at the same time or one was chosen although others had not arrived
    pub arb_contended: u64,
    pub overflow: bool,
    pub max_tick: u64,
}

struct World<'a> {
    p: &'a Prog,
    chans: Vec<MChan>,
    tick: Vec<u64>,
    hi: Vec<u64>,
    mems: Vec<HashMap<usize, Vec<(u64, u64)>>>,
    pcu_regs: Vec<Vec<Vec<u64>>>,
    dram: Vec<DramState>,
    arb_go: usize,
    arb_contended: u64,
    cur: usize,
    racy: bool,
    overflow: bool,
    /// an operation that blocks half-way may have let its neighbours move
    touched: bool,
}

#[derive(Default, Clone)]
struct DramState {
    windows: VecDeque<u64>,
    phase: u64,
    buf: Vec<u64>,
    out: VecDeque<(u64, u64)>,
    result: u64,
}

const LIMIT: u64 = 1 << 62;

impl World<'_> {
    fn up(&mut self, t: u64) {
        if t > LIMIT {
            self.overflow = true;
        }
        let n = self.cur;
        self.tick[n] = self.tick[n].max(t);
        self.hi[n] = self.hi[n].max(self.tick[n]);
    }

    fn saw_closed(&mut self, ch: usize) {
        let s = self.p.chans[ch].src;
        let n = self.cur;
        self.hi[n] = self.hi[n].max(self.hi[s] + 1);
    }

    fn room(&mut self, ch: usize) -> R<()> {
        let spec = &self.p.chans[ch];
        if spec.void {
            return R::Got(());
        }
        let Some(cap) = spec.cap else {
            return R::Got(());
        };
        let c = &self.chans[ch];
        if c.sent >= cap {
            let j = c.sent - cap;
            match c.resp.get(j) {
                Some(t) => {
                    let t = *t;
                    if t > self.tick[self.cur] {
                        self.chans[ch].stalls += 1;
                    }
                    self.up(t);
                    R::Got(())
                }
                None if c.rdone => {
                    self.racy = true;
                    R::Closed
                }
                None => R::Blocked,
            }
        } else {
            R::Got(())
        }
    }

    fn group(&self, g: &[usize]) -> R<u64> {
        let mut t = 0;
        let mut missing = false;
        for ch in g {
            match self.chans[*ch].q.front() {
                Some((_, a)) => t = t.max(*a),
                None if self.chans[*ch].sdone => return R::Closed,
                None => missing = true,
            }
        }
        if missing {
            R::Blocked
        } else {
            R::Got(t)
        }
    }

    /// the group a node's arbitration would pick from what has been sent so far
    fn arb_choice(&self, groups: &[Vec<usize>]) -> R<(usize, u64)> {
        let mut best: Option<(usize, u64)> = None;
        let mut open = false;
        for (i, g) in groups.iter().enumerate() {
            match self.group(g) {
                R::Got(t) => {
                    if best.is_none() || t < best.unwrap().1 {
                        best = Some((i, t));
                    }
                }
                R::Blocked => open = true,
                R::Closed => {}
            }
        }
        match best {
            Some(b) => R::Got(b),
            None if open => R::Blocked,
            None => R::Closed,
        }
    }

    fn mem_read(&self, mem: usize, addr: u64, t: u64) -> Option<u64> {
        let spec = &self.p.mems[mem];
        let mut a = addr as usize;
        if a >= spec.cap {
            if !spec.wrap {
                return None;
            }
            a %= spec.cap;
        }
        // brute force over the whole history
        let mut best: Option<(u64, u64)> = None;
        if let Some(h) = self.mems[mem].get(&a) {
            for (wt, v) in h {
                if *wt <= t && (best.is_none() || *wt >= best.unwrap().0) {
                    best = Some((*wt, *v));
                }
            }
        }
        match best {
            Some((_, v)) => Some(v),
            None if spec.default => Some(0),
            None => None,
        }
    }

    fn mem_write(&mut self, mem: usize, addr: u64, v: u64, t: u64) -> bool {
        let spec = &self.p.mems[mem];
        let mut a = addr as usize;
        if a >= spec.cap {
            if !spec.wrap {
                return false;
            }
            a %= spec.cap;
        }
        let h = self.mems[mem].entry(a).or_default();
        if h.last().is_some_and(|l| l.0 >= t) {
            return false;
        }
        h.push((t, v));
        true
    }
}

impl Machine for World<'_> {
    fn tick(&self) -> u64 {
        self.tick[self.cur]
    }
    fn norm(&self, ch: usize, v: u64) -> u64 {
        self.p.chans[ch].ty.norm(v)
    }
    fn enq(&mut self, ch: usize, req: u64, v: u64) -> R<()> {
        match self.room(ch) {
            R::Got(()) => {}
            x => return x,
        }
        let spec = &self.p.chans[ch];
        if spec.void {
            return R::Got(());
        }
        if self.chans[ch].rdone {
            self.racy = true;
            return R::Closed;
        }
        let arr = req.max(self.tick[self.cur] + spec.lat);
        if arr > LIMIT {
            self.overflow = true;
        }
        self.touched = true;
        let c = &mut self.chans[ch];
        c.q.push_back((v, arr));
        c.sent += 1;
        c.max_fill = c.max_fill.max(c.q.len());
        R::Got(())
    }
    fn wait(&mut self, ch: usize) -> R<()> {
        self.room(ch)
    }
    fn deq(&mut self, ch: usize) -> R<(u64, u64)> {
        match self.peek_next(ch) {
            R::Got(x) => {
                let rlat = self.p.chans[ch].rlat;
                let t = self.tick[self.cur] + rlat;
                self.touched = true;
                let c = &mut self.chans[ch];
                c.q.pop_front();
                c.resp.push(t);
                R::Got(x)
            }
            x => x,
        }
    }
    fn peek_next(&mut self, ch: usize) -> R<(u64, u64)> {
        match self.chans[ch].q.front().copied() {
            Some((v, a)) => {
                self.up(a);
                R::Got((v, a))
            }
            None if self.chans[ch].sdone => {
                self.saw_closed(ch);
                R::Closed
            }
            None => R::Blocked,
        }
    }
    fn peek(&mut self, _ch: usize, _via: bool) -> PeekR {
        PeekR::Unknown
    }
    fn events(&mut self, _chs: &[usize], _all: bool) -> PeekR {
        PeekR::Unknown
    }
    fn arb(&mut self, groups: &[Vec<usize>]) -> R<(usize, u64)> {
        match self.arb_choice(groups) {
            R::Closed => {
                for g in groups {
                    for ch in g {
                        if self.chans[*ch].sdone {
                            self.saw_closed(*ch);
                        }
                    }
                }
                R::Closed
            }
            R::Got((i, t)) if self.arb_go == self.cur => {
                self.arb_go = NONE;
                let others = groups.iter().enumerate().filter(|(j, g)| {
                    *j != i && !matches!(self.group(g), R::Closed)
                });
                if others.count() > 0 {
                    self.arb_contended += 1;
                }
                self.up(t);
                R::Got((i, t))
            }
            _ => R::Blocked,
        }
    }
    fn incr(&mut self, n: u64) {
        let t = self.tick[self.cur] + n;
        self.up(t)
    }
    fn adv(&mut self, t: u64) {
        self.up(t)
    }
    fn drop_end(&mut self, ch: usize, send: bool) {
        if send {
            self.chans[ch].sdone = true
        } else {
            self.chans[ch].rdone = true;
            if !self.chans[ch].q.is_empty() {
                self.racy = true;
            }
        }
    }
    fn unit(&mut self, op: &Op, regs: &mut [u64]) -> R<()> {
        let t = self.tick[self.cur];
        match op {
            Op::MemWrite { mem, addr, data } => {
                if self.mem_write(*mem, regs[*addr as usize], regs[*data as usize], t) {
                    R::Got(())
                } else {
                    R::Closed
                }
            }
            Op::MemRead { mem, addr, reg } => {
                match self.mem_read(*mem, regs[*addr as usize], t) {
                    Some(v) => {
                        regs[*reg as usize] = v;
                        R::Got(())
                    }
                    None => R::Closed,
                }
            }
            Op::Pcu { cfg, ins } => {
                let spec = &self.p.pcus[*cfg];
                let st = &mut self.pcu_regs[*cfg];
                st[0][..*ins].copy_from_slice(&regs[..*ins]);
                for s in 0..spec.depth {
                    match spec.stages.get(s) {
                        None => st[s + 1] = st[s].clone(),
                        Some(stage) => {
                            let prev: Vec<u64> = stage.prev.iter().map(|i| st[s][*i]).collect();
                            let next: Vec<u64> = stage.next.iter().map(|i| st[s + 1][*i]).collect();
                            let res = pcu_op(stage.op, &prev, &next);
                            for (k, dst) in stage.out.iter().enumerate() {
                                st[s + 1][*dst] = res[k];
                            }
                            for (a, b) in &stage.forward {
                                st[s + 1][*b] = st[s][*a];
                            }
                        }
                    }
                }
                for (i, v) in st[spec.depth].iter().enumerate() {
                    regs[i] = *v;
                }
                R::Got(())
            }
            Op::DramWindow { d } => {
                let n = self.p.drams[*d].windows;
                if self.dram[*d].windows.len() == n {
                    let w = self.dram[*d].windows.pop_front().unwrap();
                    self.up(w);
                }
                R::Got(())
            }
            Op::DramServe { d, sel, reg } => self.dram_serve(*d, regs[*sel as usize] as usize, *reg, regs),
            _ => unreachable!(),
        }
    }
}

impl World<'_> {
    /// One request; resumable, since it may block on data or on space.
    fn dram_serve(&mut self, d: usize, sel: usize, reg: u8, regs: &mut [u64]) -> R<()> {
        let spec = self.p.drams[d].clone();
        let addr = regs[reg as usize];
        let size = regs[reg as usize + 1] as usize;
        let prev_end = |w: &Self| w.dram[d].windows.back().copied().unwrap_or(0);
        match spec.ports[sel] {
            DramPort::Write(_, _, data, ack) => {
                if self.dram[d].phase == 0 {
                    self.dram[d].buf.clear();
                    self.dram[d].phase = 1;
                }
                while self.dram[d].phase == 1 && self.dram[d].buf.len() < size {
                    match self.deq(data) {
                        R::Got((v, _)) => self.dram[d].buf.push(v),
                        R::Blocked => return R::Blocked,
                        R::Closed => return R::Closed,
                    }
                }
                if self.dram[d].phase == 1 {
                    let start = (self.tick[self.cur] + spec.latency).max(prev_end(self));
                    let ty = self.p.chans[data].ty;
                    let bits: u64 = self.dram[d].buf.iter().map(|v| ty.bits(*v)).sum();
                    let wt = start + bits / spec.bandwidth as u64;
                    let buf = std::mem::take(&mut self.dram[d].buf);
                    for (i, v) in buf.into_iter().enumerate() {
                        if !self.mem_write(spec.mem, addr + i as u64, v, wt) {
                            return R::Closed;
                        }
                    }
                    self.dram[d].result = wt;
                    self.dram[d].phase = 2;
                }
                let wt = self.dram[d].result;
                match self.enq(ack, wt + 1, 0) {
                    R::Got(()) => {}
                    x => return x,
                }
                let end = self.tick[self.cur].max(wt) + 1;
                self.dram[d].windows.push_back(end);
                self.dram[d].phase = 0;
                R::Got(())
            }
            DramPort::Read(_, _, data) => {
                if self.dram[d].phase == 0 {
                    let rt = (self.tick[self.cur] + spec.latency).max(prev_end(self));
                    let mut out = VecDeque::new();
                    for i in 0..size {
                        match self.mem_read(spec.mem, addr + i as u64, rt) {
                            Some(v) => out.push_back((0, v)),
                            None => return R::Closed,
                        }
                    }
                    let ty = self.p.chans[data].ty;
                    let bits: u64 = out.iter().map(|(_, v)| ty.bits(*v)).sum();
                    self.dram[d].result = rt + bits / spec.bandwidth as u64;
                    self.dram[d].out = out;
                    self.dram[d].phase = 1;
                }
                while let Some((req, v)) = self.dram[d].out.front().copied() {
                    // the request time of an element is fixed before it waits for space
                    let req = if req == 0 {
                        let r = (self.tick[self.cur] + 1).max(self.dram[d].result + 1);
                        self.dram[d].result = r;
                        self.dram[d].out.front_mut().unwrap().0 = r;
                        r
                    } else {
                        req
                    };
                    match self.enq(data, req, v) {
                        R::Got(()) => {
                            self.dram[d].out.pop_front();
                        }
                        x => return x,
                    }
                }
                let end = self.dram[d].result;
                self.dram[d].windows.push_back(end);
                self.dram[d].phase = 0;
                R::Got(())
            }
        }
    }
}

pub fn run(p: &Prog) -> ModelOut {
    run_limited(p, 20_000_000)
}

pub fn run_limited(p: &Prog, limit: u64) -> ModelOut {
    let codes: Vec<Vec<Ins>> = p.nodes.iter().map(|n| compile(&n.script)).collect();
    let mut w = World {
        p,
        chans: vec![MChan::default(); p.chans.len()],
        tick: vec![0; p.nodes.len()],
        hi: vec![0; p.nodes.len()],
        mems: vec![HashMap::new(); p.mems.len()],
        pcu_regs: p.pcus.iter().map(|c| vec![vec![0; c.regs]; c.depth + 1]).collect(),
        dram: vec![DramState::default(); p.drams.len()],
        arb_go: NONE,
        arb_contended: 0,
        cur: 0,
        racy: false,
        overflow: false,
        touched: false,
    };
    for d in &p.drams {
        if let Some(f) = d.fill {
            for a in 0..p.mems[d.mem].cap {
                w.mem_write(d.mem, a as u64, f + FILL_STEP * a as u64, 0);
            }
        }
    }
    let n = p.nodes.len();
    let mut interps: Vec<Interp> = (0..n).map(|_| Interp::new()).collect();
    let mut out: Vec<MNode> = (0..n)
        .map(|_| MNode {
            tick: 0,
            hi: 0,
            outcome: None,
            recs: vec![],
            closed_seen: false,
        })
        .collect();
    let mut outs: Vec<Vec<usize>> = vec![vec![]; n];
    let mut ins: Vec<Vec<usize>> = vec![vec![]; n];
    for (i, c) in p.chans.iter().enumerate() {
        outs[c.src].push(i);
        if c.dst != NONE {
            ins[c.dst].push(i);
        }
    }
    let mut steps = 0u64;
    let mut arbs = 0u64;
    let mut deadlock = false;
    let mut queue: VecDeque<usize> = (0..n).collect();
    let mut queued = vec![true; n];
    let is_reader: Vec<bool> = (0..n).map(|i| matches!(p.nodes[i].imp, Imp::PmuReader(_))).collect();
    loop {
        // deterministic part
        while let Some(i) = queue.pop_front() {
            queued[i] = false;
            if out[i].outcome.is_some() {
                continue;
            }
            w.cur = i;
            w.touched = false;
            let mut moved = false;
            loop {
                steps += 1;
                if steps > limit {
                    w.overflow = true;
                    break;
                }
                match interps[i].step(&codes[i], &mut w, &mut out[i].recs) {
                    Step::Progress => moved = true,
                    Step::Blocked => break,
                    Step::Done(o) => {
                        moved = true;
                        out[i].outcome = Some(o);
                        for ch in &outs[i] {
                            w.chans[*ch].sdone = true;
                        }
                        for ch in &ins[i] {
                            // what the sender sees of a receiver that left elements behind, or never learnt of the
                            // end, depends on the schedule if it has anything left to send (`enq` notices), or had:
                            // an element that is still queued may have been sent after the receiver ended
                            if !w.chans[*ch].q.is_empty() {
                                w.racy = true;
                            }
                            w.chans[*ch].rdone = true;
                        }
                        break;
                    }
                }
            }
            if w.overflow {
                break;
            }
            if moved || w.touched {
                // neighbours may be able to move now
                for ch in outs[i].iter().chain(ins[i].iter()) {
                    for k in [p.chans[*ch].src, p.chans[*ch].dst] {
                        if k != NONE && k != i && !queued[k] && out[k].outcome.is_none() {
                            queued[k] = true;
                            queue.push_back(k);
                        }
                    }
                }
            }
        }
        if w.overflow || out.iter().all(|o| o.outcome.is_some()) {
            break;
        }
        // everybody is blocked: the arbitration with the earliest action time goes first
        let mut best: Option<(u64, bool, usize)> = None;
        for i in 0..n {
            if out[i].outcome.is_some() {
                continue;
            }
            if let Some(Ins::Op(Op::Arb { groups, .. })) = codes[i].get(interps[i].pc) {
                if let R::Got((_, t)) = w.arb_choice(groups) {
                    let key = (t.max(w.tick[i]), is_reader[i], i);
                    if best.is_none() || key < best.unwrap() {
                        best = Some(key);
                    }
                }
            }
        }
        match best {
            Some((_, _, i)) => {
                arbs += 1;
                w.arb_go = i;
                queued[i] = true;
                queue.push_back(i);
            }
            None => {
                deadlock = true;
                break;
            }
        }
    }
    for i in 0..n {
        out[i].tick = w.tick[i];
        out[i].hi = w.hi[i];
        out[i].closed_seen = w.hi[i] > w.tick[i]
            || out[i].recs.iter().any(|r| r.r == Rs::Closed);
    }
    let max_tick = w.tick.iter().copied().max().unwrap_or(0);
    // elements left behind: the sender's later sends would have been refused or not, depending on the schedule
    let racy = w.racy;
    ModelOut {
        nodes: out,
        deadlock,
        racy_close: racy,
        steps,
        arbs,
        arb_contended: w.arb_contended,
        overflow: w.overflow,
        max_tick,
        chans: w.chans,
    }
}
