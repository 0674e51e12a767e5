//! Random programs by a guided walk: an untimed simulation of the graph picks operations that are possible at that point
//! and appends them to the scripts of the nodes concerned. The walk itself is then a schedule that completes, so every
//! fair schedule must complete.

use crate::prog::*;
use crate::rng::Rng;

#[derive(Clone, Debug)]
pub struct Cfg {
    pub scripts: (usize, usize),
    pub plain: (usize, usize),
    pub steps: (usize, usize),
    pub caps: &'static [usize],
    pub unbounded: u64,
    pub lat_max: u64,
    pub peeks: u64,
    pub waits: u64,
    pub bursts: u64,
    pub burst_len: u64,
    pub loops: u64,
    pub gap: u64,
    pub big: bool,
    /// a few long stretches of simulated time, of thousands of cycles each
    pub far: bool,
    pub types: bool,
    pub adapters: u64,
    pub void: u64,
    /// share of drop-counting payloads among the channels between scripts
    pub toks: u64,
    pub dag: bool,
    pub closing: u64,
    pub arb: u64,
    pub pmu: u64,
    pub dram: u64,
    pub pcu: u64,
    pub bcast: u64,
    pub gens: u64,
    pub sinks: u64,
    pub func: u64,
    pub legacy: u64,
    /// scripts that finish their clock themselves before they let go of their endpoints (per 100)
    pub finish: u64,
    /// ends of scripts that drop their endpoints, or stop, while the other side still uses the channel (per 100)
    pub cut: u64,
    pub fail: u64,
    /// for the Miri-sized programs
    pub tiny: bool,
    /// units with many ports, targets, stages, cells
    pub wide: bool,
}

pub fn base() -> Cfg {
    Cfg {
        scripts: (2, 6),
        plain: (2, 9),
        steps: (10, 120),
        caps: &[1, 1, 2, 2, 3, 4, 5, 8, 16],
        unbounded: 20,
        lat_max: 12,
        peeks: 0,
        waits: 6,
        bursts: 6,
        burst_len: 40,
        loops: 5,
        gap: 12,
        big: false,
        far: false,
        types: true,
        adapters: 20,
        void: 10,
        toks: 0,
        dag: false,
        closing: 50,
        arb: 0,
        pmu: 0,
        dram: 0,
        pcu: 10,
        bcast: 15,
        gens: 15,
        sinks: 10,
        func: 10,
        legacy: 20,
        finish: 0,
        cut: 0,
        fail: 0,
        tiny: false,
        wide: false,
    }
}

enum Link {
    Ch(usize),
    /// a source that still has so many elements for its receiver
    Src(usize, usize),
    Sink(usize),
    Bcast(usize, Vec<usize>),
    Pcu {
        ins: Vec<usize>,
        outs: Vec<usize>,
        big_first: bool,
    },
    /// a request port of a server: request channels, response channel, requester, collector, outstanding elements
    Port {
        reqs: Vec<usize>,
        resp: usize,
        what: PortKind,
        out: usize,
    },
}

#[derive(Clone, Copy)]
enum PortKind {
    Arb,
    PmuRead(u64),
    PmuWrite(u64),
    /// capacity of the memory, whether it wraps
    DramRead(u64),
    DramWrite(u64),
}

pub struct Walk<'a> {
    pub p: Prog,
    rng: &'a mut Rng,
    cfg: Cfg,
    occ: Vec<usize>,
    links: Vec<Link>,
    nscripts: usize,
    order: Vec<usize>,
}

impl Walk<'_> {
    /// what a unit works on
    fn cell(&mut self) -> Ty {
        if !self.cfg.types || self.rng.chance(1, 2) {
            Ty::Us
        } else {
            *self.rng.pick(&[Ty::Tok, Ty::Tok, Ty::Big, Ty::Str, Ty::Str])
        }
    }

    fn ack(&mut self) -> Ty {
        *self.rng.pick(&[Ty::Us, Ty::Us, Ty::Tok])
    }

    fn chan_of(&mut self, src: usize, dst: usize, ty: Ty) -> usize {
        let c = self.chan(src, dst, true);
        self.p.chans[c].ty = ty;
        c
    }

    fn chan(&mut self, src: usize, dst: usize, lib: bool) -> usize {
        let cfg = self.cfg.clone();
        let r = &mut *self.rng;
        let cap = if r.chance(cfg.unbounded, 100) {
            None
        } else {
            Some(*r.pick(cfg.caps))
        };
        let lat = |r: &mut Rng| {
            if r.chance(1, 2) {
                1
            } else {
                r.range(1, cfg.lat_max.max(1))
            }
        };
        let (l, rl) = (lat(r), lat(r));
        let ty = if lib || !cfg.types {
            Ty::Us
        } else if cfg.toks > 0 && r.chance(cfg.toks, 100) {
            Ty::Tok
        } else {
            *r.pick(&[Ty::Us, Ty::Us, Ty::Us, Ty::U16, Ty::U32, Ty::Tok, Ty::Big, Ty::Str])
        };
        let c = Chan {
            cap,
            lat: l,
            rlat: rl,
            void: false,
            ty,
            src,
            dst,
            sadapt: r.chance(cfg.adapters, 100),
            radapt: r.chance(cfg.adapters, 100),
        };
        self.p.chans.push(c);
        self.occ.push(0);
        self.p.chans.len() - 1
    }

    fn node(&mut self, imp: Imp) -> usize {
        let legacy = self.rng.chance(self.cfg.legacy, 100);
        self.p.nodes.push(Node {
            script: vec![],
            imp,
            legacy,
            finish: false,
        });
        self.order.push(self.p.nodes.len() - 1);
        self.p.nodes.len() - 1
    }

    fn script(&mut self) -> usize {
        self.rng.us(self.nscripts)
    }

    /// two scripts, in topological order if the program has to be acyclic
    fn pair(&mut self) -> (usize, usize) {
        let a = self.script();
        let mut b = self.script();
        if self.nscripts > 1 {
            while b == a && (self.cfg.dag || !self.rng.chance(1, 12)) {
                b = self.script();
            }
        }
        if self.cfg.dag && a > b {
            (b, a)
        } else {
            (a, b)
        }
    }

    fn room(&self, ch: usize) -> bool {
        match self.p.chans[ch].cap {
            Some(c) => self.occ[ch] < c,
            None => self.occ[ch] < 64,
        }
    }

    fn put(&mut self, n: usize, op: Op) {
        self.p.nodes[n].script.push(op);
    }

    fn ex(&mut self) -> Ex {
        let c = self.rng.u64();
        let k = self.rng.us(3);
        let regs = (0..k).map(|_| self.rng.below(6) as u8).collect();
        Ex::Mix { c, regs, seq: true }
    }

    fn gap(&mut self) -> u64 {
        match self.rng.below(6) {
            0..=2 => self.rng.below(3),
            3 | 4 => self.rng.below(self.cfg.gap.max(1) + 1),
            _ => self.rng.below(4 * self.cfg.gap.max(1) + 1),
        }
    }

    /// moves time at a node, now and then
    fn time(&mut self, n: usize) {
        if self.cfg.far && self.rng.chance(1, 12) {
            let t = self.rng.range(3000, 12000);
            let op = if self.rng.chance(1, 2) { Op::Incr(t) } else { Op::Adv(t) };
            return self.put(n, op);
        }
        if self.rng.chance(2, 5) {
            let g = self.gap();
            self.put(n, Op::Incr(g));
        } else if self.rng.chance(1, 12) {
            let t = if self.cfg.big && self.rng.chance(1, 4) {
                1 << self.rng.range(20, 50)
            } else {
                self.rng.below(40 * self.cfg.gap.max(1) + 1)
            };
            self.put(n, Op::Adv(t));
        }
    }

    fn send_op(&mut self, ch: usize, ex: Ex) -> Op {
        match self.rng.below(10) {
            0..=4 => Op::Enq { ch, dt: 0, ex },
            5 => Op::Enq {
                ch,
                dt: -(self.rng.below(10) as i64),
                ex,
            },
            6 | 7 => Op::Enq {
                ch,
                dt: self.p.chans[ch].lat as i64 + self.rng.range(0, 2) as i64 - 1,
                ex,
            },
            8 => Op::Enq {
                ch,
                dt: self.gap() as i64,
                ex,
            },
            _ => {
                let t = self.rng.below(30 * self.cfg.gap.max(1) + 1);
                Op::EnqAt { ch, t, ex }
            }
        }
    }

    fn send(&mut self, ch: usize) {
        let n = self.p.chans[ch].src;
        self.time(n);
        if self.rng.chance(self.cfg.waits, 20) {
            self.put(n, Op::Wait { ch });
            if self.rng.chance(1, 3) {
                self.time(n);
            }
        }
        let ex = self.ex();
        let op = self.send_op(ch, ex);
        self.put(n, op);
        self.occ[ch] += 1;
    }

    fn recv(&mut self, ch: usize) {
        let n = self.p.chans[ch].dst;
        self.time(n);
        if self.rng.chance(self.cfg.peeks, 10) {
            self.peek(n);
        }
        let reg = self.rng.below(6) as u8;
        if self.rng.chance(1, 6) {
            self.put(n, Op::PeekNext { ch, reg });
            if self.rng.chance(1, 3) {
                self.time(n);
            }
            if self.rng.chance(1, 4) {
                self.put(n, Op::PeekNext { ch, reg });
            }
        }
        self.put(n, Op::Deq { ch, reg });
        self.occ[ch] -= 1;
    }

    fn peek(&mut self, n: usize) {
        let ins: Vec<usize> = (0..self.p.chans.len())
            .filter(|c| self.p.chans[*c].dst == n && !self.p.chans[*c].void)
            .collect();
        if ins.is_empty() {
            return;
        }
        let ch = *self.rng.pick(&ins);
        match self.rng.below(6) {
            0..=2 => self.put(n, Op::Peek { ch }),
            3 => self.put(n, Op::NextEvent { ch }),
            x => {
                let k = self.rng.range(1, 4.min(ins.len() as u64)) as usize;
                let mut chs = ins.clone();
                self.rng.shuffle(&mut chs);
                chs.truncate(k);
                if x == 4 {
                    self.put(n, Op::AllEvent { chs })
                } else {
                    self.put(n, Op::AnyEvent { chs })
                }
            }
        }
    }

    fn fire(&mut self) {
        loop {
            let mut moved = false;
            for i in 0..self.links.len() {
                match &self.links[i] {
                    Link::Bcast(inp, outs) => {
                        let (inp, outs) = (*inp, outs.clone());
                        while self.occ[inp] > 0 && outs.iter().all(|o| self.room(*o)) {
                            self.occ[inp] -= 1;
                            outs.iter().for_each(|o| self.occ[*o] += 1);
                            moved = true;
                        }
                    }
                    Link::Pcu { ins, outs, .. } => {
                        let (ins, outs) = (ins.clone(), outs.clone());
                        while ins.iter().all(|c| self.occ[*c] > 0) && outs.iter().all(|o| self.room(*o)) {
                            ins.iter().for_each(|c| self.occ[*c] -= 1);
                            outs.iter().for_each(|o| self.occ[*o] += 1);
                            moved = true;
                        }
                    }
                    _ => {}
                }
            }
            if !moved {
                break;
            }
        }
    }

    fn request_ops(&mut self, reqs: &[usize], what: PortKind, most: u64) -> (Vec<Op>, usize) {
        let mut ops = vec![];
        let mut n = 1;
        let konst = |v| Ex::Const(v);
        match what {
            PortKind::Arb => {
                for ch in reqs {
                    let ex = self.ex();
                    ops.push(self.send_op(*ch, ex));
                }
            }
            PortKind::PmuRead(cap) => {
                let a = self.rng.below(cap);
                ops.push(self.send_op(reqs[0], konst(a)));
            }
            PortKind::PmuWrite(cap) => {
                let a = self.rng.below(cap);
                ops.push(self.send_op(reqs[0], konst(a)));
                let ex = self.ex();
                ops.push(self.send_op(reqs[1], ex));
            }
            PortKind::DramRead(cap) => {
                let least = u64::from(!self.rng.chance(1, 10));
                n = self.rng.range(least, self.up(6).min(cap).min(most)) as usize;
                let a = self.rng.below(cap - n as u64 + 1);
                ops.push(self.send_op(reqs[0], konst(a)));
                ops.push(self.send_op(reqs[1], konst(n as u64)));
            }
            PortKind::DramWrite(cap) => {
                let k = self.rng.range(1, self.up(6).min(cap));
                let a = self.rng.below(cap - k + 1);
                ops.push(self.send_op(reqs[0], konst(a)));
                ops.push(self.send_op(reqs[1], konst(k)));
                for _ in 0..k {
                    let ex = self.ex();
                    ops.push(self.send_op(reqs[2], ex));
                    if self.rng.chance(1, 4) {
                        ops.push(Op::Incr(self.gap()));
                    }
                }
            }
        }
        (ops, n)
    }

    fn step(&mut self) {
        if self.links.is_empty() {
            return;
        }
        let li = self.rng.us(self.links.len());
        match &self.links[li] {
            Link::Ch(ch) => {
                let ch = *ch;
                let (s, d) = (self.p.chans[ch].src, self.p.chans[ch].dst);
                if self.p.chans[ch].void {
                    self.send(ch);
                    self.occ[ch] = 0;
                    return;
                }
                if self.rng.chance(self.cfg.bursts, 60) && s != d && self.occ[ch] == 0 {
                    return self.burst(ch);
                }
                if self.rng.chance(self.cfg.peeks, 12) {
                    self.time(d);
                    self.peek(d);
                }
                let (can_s, can_r) = (self.room(ch), self.occ[ch] > 0);
                // lean towards full channels in some programs
                if can_s && (!can_r || self.rng.chance(11, 20)) {
                    self.send(ch);
                } else if can_r {
                    self.recv(ch);
                }
            }
            Link::Src(ch, left) => {
                let (ch, left) = (*ch, *left);
                if left > 0 {
                    self.occ[ch] += 1;
                    self.recv(ch);
                    self.links[li] = Link::Src(ch, left - 1);
                }
            }
            Link::Sink(ch) => {
                let ch = *ch;
                self.send(ch);
                self.occ[ch] = 0;
            }
            Link::Bcast(inp, outs) => {
                let (inp, outs) = (*inp, outs.clone());
                let o = *self.rng.pick(&outs);
                if self.occ[o] > 0 && self.p.is_script(self.p.chans[o].dst) && self.rng.chance(2, 3) {
                    self.recv(o);
                } else if self.room(inp) {
                    self.send(inp);
                }
            }
            Link::Pcu { ins, outs, big_first } => {
                let (ins, outs, bf) = (ins.clone(), outs.clone(), *big_first);
                if !outs.is_empty() {
                    let o = *self.rng.pick(&outs);
                    if self.occ[o] > 0 && self.rng.chance(2, 3) {
                        return self.recv(o);
                    }
                }
                if ins.iter().all(|c| self.room(*c)) {
                    let mut ord = ins.clone();
                    self.rng.shuffle(&mut ord);
                    for ch in ord {
                        let n = self.p.chans[ch].src;
                        self.time(n);
                        let v = if bf {
                            if ch == ins[0] {
                                self.rng.range(100, 200)
                            } else {
                                self.rng.range(1, 50)
                            }
                        } else {
                            self.rng.below(1000)
                        };
                        let op = self.send_op(ch, Ex::Const(v));
                        self.put(n, op);
                        self.occ[ch] += 1;
                    }
                }
            }
            Link::Port { reqs, resp, what, out } => {
                let (reqs, resp, what, out) = (reqs.clone(), *resp, *what, *out);
                let a = self.p.chans[reqs[0]].src;
                let b = self.p.chans[resp].dst;
                let cap = self.p.chans[resp].cap.unwrap_or(8);
                if out > 0 && self.rng.chance(1, 2) {
                    self.occ[resp] += 1;
                    self.recv(resp);
                    if let Link::Port { out, .. } = &mut self.links[li] {
                        *out -= 1
                    }
                    return;
                }
                self.time(a);
                if self.rng.chance(self.cfg.peeks, 14) {
                    self.peek(b);
                }
                if out == 0 && self.rng.chance(1, 3) {
                    // request and collect right away, in a loop
                    let mut times = if self.rng.chance(1, 2) { self.rng.range(2, 10) } else { 1 };
                    // a server that blocks on a response serves nobody, so this can be a real deadlock
                    let blocking = self.rng.chance(1, 4);
                    let (mut ops, n) = self.request_ops(&reqs, what, if blocking { 6 } else { cap as u64 });
                    if a != b && !blocking {
                        times = times.min((cap / n.max(1)) as u64).max(1);
                    }
                    if self.rng.chance(1, 3) {
                        ops.push(Op::Incr(self.gap()));
                    }
                    let mut col: Vec<Op> = (0..n).map(|_| Op::Deq { ch: resp, reg: 2 }).collect();
                    if self.rng.chance(1, 3) {
                        col.push(Op::Incr(self.gap()));
                    }
                    if a == b {
                        ops.extend(col);
                        self.put(
                            a,
                            Op::Loop {
                                n: Some(times),
                                body: ops,
                            },
                        );
                    } else {
                        self.put(
                            a,
                            Op::Loop {
                                n: Some(times),
                                body: ops,
                            },
                        );
                        self.put(
                            b,
                            Op::Loop {
                                n: Some(times),
                                body: col,
                            },
                        );
                    }
                    return;
                }
                let (ops, n) = self.request_ops(&reqs, what, 6);
                if out + n <= cap {
                    for op in ops {
                        self.put(a, op);
                    }
                    if let Link::Port { out, .. } = &mut self.links[li] {
                        *out += n
                    }
                }
            }
        }
        self.fire();
    }

    /// an upper bound, or a much higher one
    fn up(&self, n: u64) -> u64 {
        if self.cfg.wide {
            5 * n
        } else {
            n
        }
    }

    /// a longer stream on one channel, possibly through a second one and back
    fn burst(&mut self, ch: usize) {
        let n = self.rng.range(2, self.cfg.burst_len.max(2));
        let (s, d) = (self.p.chans[ch].src, self.p.chans[ch].dst);
        let back: Vec<usize> = (0..self.p.chans.len())
            .filter(|c| {
                let x = &self.p.chans[*c];
                x.src == d && x.dst == s && !x.void && self.occ[*c] == 0 && self.links.iter().any(|l| matches!(l, Link::Ch(y) if y == c))
            })
            .collect();
        let ex = self.ex();
        let mut sb = vec![];
        if self.rng.chance(self.cfg.waits, 20) {
            sb.push(Op::Wait { ch });
        }
        sb.push(self.send_op(ch, ex));
        let mut db = vec![];
        if self.rng.chance(self.cfg.peeks, 10) {
            db.push(Op::Peek { ch });
        }
        if self.rng.chance(1, 5) {
            db.push(Op::PeekNext { ch, reg: 1 });
        }
        db.push(Op::Deq {
            ch,
            reg: self.rng.below(6) as u8,
        });
        let (mut hs, mut hd) = (false, false);
        if !back.is_empty() && self.rng.chance(2, 3) {
            let b = *self.rng.pick(&back);
            let ex = self.ex();
            let send = self.send_op(b, ex);
            if self.rng.chance(1, 2) {
                db.push(Op::Incr(self.gap()));
                hd = true;
            }
            db.push(send);
            sb.push(Op::Deq { ch: b, reg: 0 });
        }
        if self.rng.chance(2, 3) {
            sb.push(Op::Incr(self.gap()));
            hs = true;
        }
        if self.rng.chance(2, 3) {
            db.push(Op::Incr(self.gap()));
            hd = true;
        }
        let _ = (hs, hd);
        self.put(s, Op::Loop { n: Some(n), body: sb });
        self.put(d, Op::Loop { n: Some(n), body: db });
    }

    fn build(&mut self) {
        let cfg = self.cfg.clone();
        self.nscripts = self.rng.range(cfg.scripts.0 as u64, cfg.scripts.1 as u64) as usize;
        for _ in 0..self.nscripts {
            let imp = if self.rng.chance(cfg.func, 100) { Imp::Func } else { Imp::Script };
            self.node(imp);
        }
        let m = self.rng.range(cfg.plain.0 as u64, cfg.plain.1 as u64) as usize;
        for _ in 0..m {
            let (a, b) = self.pair();
            let c = self.chan(a, b, false);
            if self.rng.chance(cfg.void, 100) {
                let x = &mut self.p.chans[c];
                x.void = true;
                x.dst = NONE;
                x.cap = None;
                x.lat = 1;
                x.rlat = 1;
            }
            self.links.push(Link::Ch(c));
        }
        while self.rng.chance(cfg.gens, 100) {
            let b = self.script();
            let n = self.rng.range(1, if cfg.tiny { 4 } else { self.up(30) }) as usize;
            let g = if self.rng.chance(1, 2) {
                self.node(Imp::Gen { ch: 0, vals: vec![] })
            } else {
                self.node(Imp::Trace { ch: 0, items: vec![] })
            };
            let ty = self.cell();
            let c = self.chan_of(g, b, ty);
            let vals: Vec<u64> = (0..n).map(|_| self.rng.u64()).collect();
            let mut t = 0;
            self.p.nodes[g].imp = match self.p.nodes[g].imp {
                Imp::Gen { .. } => Imp::Gen { ch: c, vals },
                _ => Imp::Trace {
                    ch: c,
                    items: vals
                        .into_iter()
                        .map(|v| {
                            t += self.rng.below(8);
                            let back = if self.rng.chance(1, 8) { self.rng.below(10) } else { 0 };
                            (v, t.saturating_sub(back))
                        })
                        .collect(),
                },
            };
            self.links.push(Link::Src(c, n));
        }
        while self.rng.chance(cfg.sinks, 100) {
            let a = self.script();
            let g = self.node(Imp::Consumer { ch: 0 });
            let ty = self.cell();
            let c = self.chan_of(a, g, ty);
            self.p.nodes[g].imp = Imp::Consumer { ch: c };
            self.links.push(Link::Sink(c));
        }
        while self.rng.chance(cfg.bcast, 100) {
            let g = self.node(Imp::Bcast { input: 0, outs: vec![] });
            let k = self.rng.range(1, self.up(4)) as usize;
            let (a, b) = self.pair();
            let ty = self.cell();
            let inp = self.chan_of(a, g, ty);
            let mut outs = vec![];
            for i in 0..k {
                let b = if i == 0 {
                    b
                } else if cfg.dag {
                    let x = self.script();
                    if x > a {
                        x
                    } else {
                        b
                    }
                } else {
                    self.script()
                };
                outs.push(self.chan_of(g, b, ty));
            }
            self.p.nodes[g].imp = Imp::Bcast {
                input: inp,
                outs: outs.clone(),
            };
            self.links.push(Link::Bcast(inp, outs));
        }
        while self.rng.chance(cfg.pcu, 100) {
            let g = self.node(Imp::Script);
            let (a, b) = self.pair();
            let k = self.rng.range(1, 3) as usize;
            let o = self.rng.range(0, 3) as usize;
            let mut ins = vec![];
            let ty = self.cell();
            for i in 0..k {
                let a = if i == 0 {
                    a
                } else if cfg.dag {
                    let x = self.script();
                    if x < b {
                        x
                    } else {
                        a
                    }
                } else {
                    self.script()
                };
                ins.push(self.chan_of(a, g, ty));
            }
            let mut outs = vec![];
            for _ in 0..o {
                outs.push(self.chan_of(g, b, ty));
            }
            let bf = k >= 2 && self.rng.chance(1, 2);
            let cfgi = self.p.pcus.len();
            let spec = pcu_spec(self.rng, k, o, bf, cfg.wide);
            self.p.pcus.push(spec);
            self.p.nodes[g].imp = Imp::Pcu {
                cfg: cfgi,
                ins: ins.clone(),
                outs: outs.clone(),
            };
            self.links.push(Link::Pcu {
                ins,
                outs,
                big_first: bf,
            });
        }
        while self.rng.chance(cfg.arb, 100) {
            let g = self.node(Imp::Script);
            let k = self.rng.range(1, self.up(4).min(12)) as usize;
            let mut groups = vec![];
            let mut resps = vec![];
            for _ in 0..k {
                let (a, b) = self.pair();
                let w = if self.rng.chance(1, 4) { 2 } else { 1 };
                let reqs: Vec<usize> = (0..w).map(|_| self.chan(a, g, false)).collect();
                let resp = self.chan(g, b, false);
                groups.push(reqs.clone());
                resps.push(resp);
                self.links.push(Link::Port {
                    reqs,
                    resp,
                    what: PortKind::Arb,
                    out: 0,
                });
            }
            let mut body = vec![Op::Arb {
                groups,
                take: None,
                sel: 20,
                reg: 0,
            }];
            if self.rng.chance(1, 2) {
                body.push(Op::Incr(self.rng.below(4)));
            }
            let ex = self.ex();
            body.push(Op::EnqSel {
                chs: resps,
                sel: 20,
                dt: self.rng.below(4) as i64,
                ex,
            });
            if self.rng.chance(1, 2) {
                body.push(Op::Incr(self.rng.below(4)));
            }
            self.p.nodes[g].script = vec![Op::Loop { n: None, body }];
        }
        while self.rng.chance(cfg.pmu, 100) {
            let k = self.p.pmus.len();
            let w = self.node(Imp::PmuWriter(k));
            let r = self.node(Imp::PmuReader(k));
            let wrap = self.rng.chance(1, 2);
            let cap = self.rng.range(1, self.up(6));
            let mem = self.p.mems.len();
            self.p.mems.push(MemSpec {
                cap: cap as usize,
                wrap,
                default: true,
            });
            let reach = if wrap { cap * 3 } else { cap };
            let mut spec = PmuSpec {
                reader: r,
                writer: w,
                mem,
                reads: vec![],
                writes: vec![],
            };
            let (ty, aty) = (self.cell(), self.ack());
            for _ in 0..self.rng.range(1, self.up(3).min(10)) {
                let (a, b) = self.pair();
                let (ad, re) = (self.chan(a, r, true), self.chan_of(r, b, ty));
                spec.reads.push((ad, re));
                self.links.push(Link::Port {
                    reqs: vec![ad],
                    resp: re,
                    what: PortKind::PmuRead(reach),
                    out: 0,
                });
            }
            for _ in 0..self.rng.range(1, self.up(3).min(10)) {
                let (a, b) = self.pair();
                let (ad, da, ack) = (self.chan(a, w, true), self.chan_of(a, w, ty), self.chan_of(w, b, aty));
                spec.writes.push((ad, da, ack));
                self.links.push(Link::Port {
                    reqs: vec![ad, da],
                    resp: ack,
                    what: PortKind::PmuWrite(reach),
                    out: 0,
                });
            }
            self.p.pmus.push(spec);
        }
        while crate::exec::DRAMS && self.rng.chance(cfg.dram, 100) {
            let k = self.p.drams.len();
            let g = self.node(Imp::Dram(k));
            let cap = self.rng.range(1, self.up(12));
            let mem = self.p.mems.len();
            self.p.mems.push(MemSpec {
                cap: cap as usize,
                wrap: false,
                default: self.rng.chance(1, 2),
            });
            let mut spec = DramSpec {
                windows: self.rng.range(1, self.up(4)) as usize,
                bandwidth: *self.rng.pick(&[1, 8, 32, 64, 100, 128, 1 << 20]),
                latency: *self.rng.pick(&[0, 1, 5, 20, 60]),
                mem,
                ports: vec![],
                fill: None,
            };
            if !self.p.mems[mem].default || self.rng.chance(1, 2) {
                spec.fill = Some(self.rng.below(1 << 40));
            }
            let (ty, aty) = (self.cell(), self.ack());
            for i in 0..self.rng.range(1, self.up(4).min(10)) {
                let (a, b) = self.pair();
                if i == 0 || self.rng.chance(1, 2) {
                    let (ad, sz, da, ack) = (
                        self.chan(a, g, true),
                        self.chan(a, g, true),
                        self.chan_of(a, g, ty),
                        self.chan_of(g, b, aty),
                    );
                    spec.ports.push(DramPort::Write(ad, sz, da, ack));
                    self.links.push(Link::Port {
                        reqs: vec![ad, sz, da],
                        resp: ack,
                        what: PortKind::DramWrite(cap),
                        out: 0,
                    });
                } else {
                    let (ad, sz, da) = (self.chan(a, g, true), self.chan(a, g, true), self.chan_of(g, b, ty));
                    spec.ports.push(DramPort::Read(ad, sz, da));
                    self.links.push(Link::Port {
                        reqs: vec![ad, sz],
                        resp: da,
                        what: PortKind::DramRead(cap),
                        out: 0,
                    });
                }
            }
            self.p.drams.push(spec);
        }
    }

    fn drain(&mut self) {
        loop {
            let mut moved = false;
            for i in 0..self.links.len() {
                match &self.links[i] {
                    Link::Ch(c) => {
                        let c = *c;
                        if !self.p.chans[c].void {
                            while self.occ[c] > 0 {
                                self.recv(c);
                                moved = true;
                            }
                        }
                    }
                    Link::Src(c, left) => {
                        let (c, left) = (*c, *left);
                        for _ in 0..left {
                            self.occ[c] += 1;
                            self.recv(c);
                            moved = true;
                        }
                        self.links[i] = Link::Src(c, 0);
                    }
                    Link::Sink(_) => {}
                    Link::Bcast(_, outs) | Link::Pcu { outs, .. } => {
                        for o in outs.clone() {
                            while self.occ[o] > 0 {
                                self.recv(o);
                                self.fire();
                                moved = true;
                            }
                        }
                    }
                    Link::Port { resp, out, .. } => {
                        let (resp, out) = (*resp, *out);
                        for _ in 0..out {
                            self.occ[resp] += 1;
                            self.recv(resp);
                            moved = true;
                        }
                        if let Link::Port { out, .. } = &mut self.links[i] {
                            *out = 0
                        }
                    }
                }
            }
            self.fire();
            if !moved {
                break;
            }
        }
    }

    /// receivers look for the end of streams whose senders come first in the node order
    fn closings(&mut self) {
        for d in 0..self.nscripts {
            for c in 0..self.p.chans.len() {
                let x = &self.p.chans[c];
                if x.void || x.dst != d || x.src == d {
                    continue;
                }
                let simple = matches!(self.p.nodes[x.src].imp, Imp::Gen { .. } | Imp::Trace { .. });
                let early = x.src < self.nscripts && x.src < d;
                if (simple || early) && self.rng.chance(self.cfg.closing, 100) {
                    if self.cfg.peeks > 0 && self.rng.chance(1, 3) {
                        self.put(d, Op::Peek { ch: c });
                    }
                    match self.rng.below(3) {
                        0 => self.put(d, Op::ExpectClosed { ch: c }),
                        1 => {
                            self.put(d, Op::PeekNext { ch: c, reg: 0 });
                            self.put(d, Op::ExpectClosed { ch: c });
                        }
                        _ => self.put(
                            d,
                            Op::Loop {
                                n: None,
                                body: vec![Op::Deq { ch: c, reg: 0 }],
                            },
                        ),
                    }
                    if self.rng.chance(1, 3) {
                        self.put(d, Op::ExpectClosed { ch: c });
                    }
                }
            }
        }
    }

    /// lets some scripts end early, drop endpoints early or fail
    fn cuts(&mut self) {
        for n in 0..self.nscripts {
            if !self.rng.chance(self.cfg.cut, 100) {
                continue;
            }
            let len = self.p.nodes[n].script.len();
            let at = self.rng.us(len + 1);
            match self.rng.below(4) {
                0 => {
                    self.p.nodes[n].script.truncate(at);
                }
                1 if self.cfg.fail > 0 => {
                    self.p.nodes[n].script.truncate(at);
                    let k = if self.p.nodes[n].legacy && self.p.nodes[n].imp_is_script() {
                        FailKind::Panic
                    } else {
                        FailKind::Err
                    };
                    if !matches!(self.p.nodes[n].imp, Imp::Func) {
                        self.put(n, Op::Fail(k));
                    }
                }
                x => {
                    // drop one endpoint here and skip all later uses of it
                    let chs: Vec<(usize, bool)> = self
                        .p
                        .chans
                        .iter()
                        .enumerate()
                        .flat_map(|(i, c)| {
                            let mut v = vec![];
                            if c.src == n && c.dst != n {
                                v.push((i, true))
                            }
                            if c.dst == n && c.src != n && !c.void {
                                v.push((i, false))
                            }
                            v
                        })
                        .collect();
                    if chs.is_empty() {
                        continue;
                    }
                    let (ch, send) = chs[self.rng.us(chs.len())];
                    let tail = self.p.nodes[n].script.split_off(at);
                    self.put(n, if send { Op::DropS { ch } } else { Op::DropR { ch } });
                    let _ = x;
                    let tail = without(&tail, ch);
                    self.p.nodes[n].script.extend(tail);
                }
            }
        }
    }
}

fn without(ops: &[Op], ch: usize) -> Vec<Op> {
    let mut out = vec![];
    for op in ops {
        let uses = match op {
            Op::Enq { ch: c, .. }
            | Op::EnqAt { ch: c, .. }
            | Op::Wait { ch: c }
            | Op::Deq { ch: c, .. }
            | Op::PeekNext { ch: c, .. }
            | Op::Peek { ch: c }
            | Op::NextEvent { ch: c }
            | Op::ExpectClosed { ch: c }
            | Op::DropS { ch: c }
            | Op::DropR { ch: c } => *c == ch,
            Op::AllEvent { chs } | Op::AnyEvent { chs } | Op::EnqSel { chs, .. } => chs.contains(&ch),
            _ => false,
        };
        if uses {
            continue;
        }
        match op {
            Op::Loop { n, body } => {
                let b = without(body, ch);
                // an endless loop needs something that can end it
                if n.is_some() || b.iter().any(|o| matches!(o, Op::Deq { .. } | Op::Arb { .. })) {
                    out.push(Op::Loop { n: *n, body: b });
                }
            }
            op => out.push(op.clone()),
        }
    }
    out
}

impl Node {
    fn imp_is_script(&self) -> bool {
        matches!(self.imp, Imp::Script)
    }
}

pub fn pcu_spec(rng: &mut Rng, ins: usize, outs: usize, big_first: bool, wide: bool) -> PcuSpec {
    let most = if wide { 18 } else { 6 };
    let regs = rng.range(ins.max(outs).max(3) as u64, most) as usize;
    let depth = rng.range(if big_first { 1 } else { 0 }, most) as usize;
    let n = rng.range(if big_first { 1 } else { 0 }, depth as u64) as usize;
    let mut stages = vec![];
    for i in 0..n {
        let op = if i == 0 && big_first {
            rng.range(7, 10) as u8
        } else {
            *rng.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 11])
        };
        let r = |rng: &mut Rng| rng.us(regs);
        let prev = if i == 0 && big_first {
            vec![0, 1]
        } else {
            match op {
                3 | 4 | 5 | 6 => vec![r(rng)],
                _ => vec![r(rng), r(rng)],
            }
        };
        let o = r(rng);
        let next = if matches!(op, 4 | 6) { vec![o] } else { vec![] };
        let mut out = vec![o];
        let extra = match op {
            5 => 1,
            11 => 2,
            _ => 0,
        };
        for _ in 0..extra {
            out.push(r(rng));
        }
        let mut forward = vec![];
        for _ in 0..rng.below(3) {
            let d = r(rng);
            // an accumulator that is overwritten would not carry anything
            if !(matches!(op, 4 | 6) && d == o) {
                forward.push((r(rng), d));
            }
        }
        stages.push(StageSpec {
            op,
            forward,
            prev,
            next,
            out,
        });
    }
    PcuSpec { depth, regs, stages }
}

pub fn walk(rng: &mut Rng, cfg: &Cfg) -> Prog {
    let mut w = Walk {
        p: Prog::default(),
        rng,
        cfg: cfg.clone(),
        occ: vec![],
        links: vec![],
        nscripts: 0,
        order: vec![],
    };
    w.build();
    let steps = w.rng.range(cfg.steps.0 as u64, cfg.steps.1 as u64);
    if cfg.big {
        for n in 0..w.nscripts {
            if w.rng.chance(1, 2) {
                let t = (1u64 << w.rng.range(20, 60)) + w.rng.below(1000);
                w.put(n, Op::Adv(t));
            }
        }
    }
    for _ in 0..steps {
        w.step();
    }
    w.drain();
    w.closings();
    if cfg.cut > 0 {
        w.cuts();
    }
    let finish = w.cfg.finish;
    let picks: Vec<bool> = (0..w.p.nodes.len()).map(|_| w.rng.chance(finish, 100)).collect();
    let mut p = w.p;
    for (n, f) in p.nodes.iter_mut().zip(picks) {
        n.finish = f && matches!(n.imp, Imp::Script | Imp::Func);
    }
    // node creation order should not matter: the sources and servers come last otherwise
    p.finish();
    p
}

// ---------------------------------------------------------------- flavor inference

/// strongly connected components over contexts (PMU sides are separate, writes reach reads)
pub fn sccs(p: &Prog) -> Vec<usize> {
    let n = p.nodes.len();
    let reach = reachability(p);
    let mut comp = vec![usize::MAX; n];
    for i in 0..n {
        if comp[i] == usize::MAX {
            comp[i] = i;
            for j in i + 1..n {
                if reach[i][j] && reach[j][i] {
                    comp[j] = i;
                }
            }
        }
    }
    comp
}

fn reachability(p: &Prog) -> Vec<Vec<bool>> {
    let n = p.nodes.len();
    let mut r = vec![vec![false; n]; n];
    for c in &p.chans {
        if !c.void {
            r[c.src][c.dst] = true;
        }
    }
    for m in &p.pmus {
        r[m.writer][m.reader] = true;
    }
    for k in 0..n {
        for i in 0..n {
            if r[i][k] {
                for j in 0..n {
                    if r[k][j] {
                        r[i][j] = true;
                    }
                }
            }
        }
    }
    r
}

fn looks_at_clocks(ops: &[Op]) -> bool {
    ops.iter().any(|o| match o {
        Op::Peek { .. } | Op::NextEvent { .. } | Op::AllEvent { .. } | Op::AnyEvent { .. } | Op::Arb { .. } => true,
        Op::Loop { body, .. } => looks_at_clocks(body),
        _ => false,
    })
}

/// With inference on, a context blocked in a plain acyclic operation does not move its clock. A context that waits for
/// that clock, while the blocked one depends on it through a full channel, is the known finding of C05; channels that
/// could take part in it get room for everything that is sent.
/// Returns (cyclic channels, acyclic channels, acyclic channels left tight).
pub fn ample(p: &mut Prog, sent: &[usize]) -> (usize, usize, usize) {
    let reach = reachability(p);
    let n = p.nodes.len();
    let mut waiter = vec![false; n];
    for (i, node) in p.nodes.iter().enumerate() {
        waiter[i] = looks_at_clocks(&node.script);
    }
    let cyclic: Vec<bool> = p
        .chans
        .iter()
        .map(|c| !c.void && (c.src == c.dst || (reach[c.src][c.dst] && reach[c.dst][c.src])))
        .collect();
    for (i, c) in p.chans.iter().enumerate() {
        if cyclic[i] {
            waiter[c.src] = true;
            waiter[c.dst] = true;
        }
    }
    let mut t = (0, 0, 0);
    for (i, c) in p.chans.iter_mut().enumerate() {
        if c.void {
            continue;
        }
        if cyclic[i] {
            t.0 += 1;
            continue;
        }
        t.1 += 1;
        let up = waiter[c.src] || (0..n).any(|w| waiter[w] && reach[c.src][w]);
        if c.cap.is_some() {
            if up {
                c.cap = c.cap.map(|x| x.max(sent[i] + 1));
            } else {
                t.2 += 1;
            }
        }
    }
    t
}
