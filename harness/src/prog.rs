//! Program descriptions: a graph of channels and nodes, each node a small script over its channels.
//! The same compiled script is interpreted by the real execution (`exec`) and by the reference simulation (`model`).

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ty {
    Us,
    U16,
    U32,
    Tok,
    Big,
    Str,
}

impl Ty {
    pub fn norm(self, v: u64) -> u64 {
        match self {
            Ty::U16 => v & 0xffff,
            Ty::U32 => v & 0xffff_ffff,
            _ => v,
        }
    }
    /// what `dam_size` says of a value
    pub fn bits(self, v: u64) -> u64 {
        match self {
            Ty::U16 => 16,
            Ty::U32 => 32,
            Ty::Us | Ty::Tok => 64,
            Ty::Big => 9 * 64,
            Ty::Str => v.checked_ilog10().map_or(0, |d| 8 * (u64::from(d) + 1)),
        }
    }
}

pub const NONE: usize = usize::MAX;

#[derive(Clone, Debug)]
pub struct Chan {
    pub cap: Option<usize>,
    pub lat: u64,
    pub rlat: u64,
    pub void: bool,
    pub ty: Ty,
    pub src: usize,
    pub dst: usize,
    /// use a converting adapter on this side (element type `ty`, interface u64)
    pub sadapt: bool,
    pub radapt: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ex {
    /// c mixed with registers and, if `seq`, the number of elements this node has sent so far
    Mix { c: u64, regs: Vec<u8>, seq: bool },
    Reg(u8),
    Const(u64),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FailKind {
    Err,
    /// panic inside the legacy run method, with a payload of some type
    Panic,
}

#[derive(Clone, Debug)]
pub enum Op {
    Enq { ch: usize, dt: i64, ex: Ex },
    EnqAt { ch: usize, t: u64, ex: Ex },
    /// send on chs[regs[sel]]
    EnqSel { chs: Vec<usize>, sel: u8, dt: i64, ex: Ex },
    Wait { ch: usize },
    Deq { ch: usize, reg: u8 },
    PeekNext { ch: usize, reg: u8 },
    Peek { ch: usize },
    /// next_event of a channel through the library's Peekable
    NextEvent { ch: usize },
    /// all-of / any-of next_event over several channels
    AllEvent { chs: Vec<usize> },
    AnyEvent { chs: Vec<usize> },
    /// wait for the earliest group (all-of over its channels) and dequeue from it
    /// (only from the first `take` of them, if given)
    Arb { groups: Vec<Vec<usize>>, take: Option<usize>, sel: u8, reg: u8 },
    Incr(u64),
    Adv(u64),
    /// remembers the current time for `EnqMark`
    Mark,
    EnqMark { ch: usize, dt: i64, ex: Ex },
    Loop { n: Option<u64>, body: Vec<Op> },
    /// dequeue, expecting the channel to be closed; does not end a loop
    ExpectClosed { ch: usize },
    DropS { ch: usize },
    DropR { ch: usize },
    Fail(FailKind),
    // the remaining ones describe library units in the reference simulation only
    MemWrite { mem: usize, addr: u8, data: u8 },
    MemRead { mem: usize, addr: u8, reg: u8 },
    Pcu { cfg: usize, ins: usize },
    DramWindow { d: usize },
    DramServe { d: usize, sel: u8, reg: u8 },
    /// dequeue and compare with a constant; a mismatch or a closed channel fails the node
    Check { ch: usize, v: u64, tol: u64 },
    /// stop successfully
    Stop,
}

#[derive(Clone, Debug)]
pub enum Imp {
    Script,
    Func,
    Gen { ch: usize, vals: Vec<u64> },
    Trace { ch: usize, items: Vec<(u64, u64)> },
    Bcast { input: usize, outs: Vec<usize> },
    Consumer { ch: usize },
    Checker { ch: usize, vals: Vec<u64> },
    /// accepts what is at most `tol` more than the reference
    Approx { ch: usize, vals: Vec<u64>, tol: u64 },
    Pcu { cfg: usize, ins: Vec<usize>, outs: Vec<usize> },
    PmuReader(usize),
    PmuWriter(usize),
    Dram(usize),
}

#[derive(Clone, Debug)]
pub struct Node {
    pub script: Vec<Op>,
    pub imp: Imp,
    /// runs through the legacy `run` method instead of `run_falliable`
    pub legacy: bool,
    /// how a script that completed ends: it may finish its clock itself, and hold its endpoints a while longer
    pub finish: bool,
}

#[derive(Clone, Debug)]
pub struct PmuSpec {
    pub reader: usize,
    pub writer: usize,
    pub mem: usize,
    /// (addr, resp)
    pub reads: Vec<(usize, usize)>,
    /// (addr, data, ack)
    pub writes: Vec<(usize, usize, usize)>,
}

#[derive(Clone, Debug)]
pub struct MemSpec {
    pub cap: usize,
    pub wrap: bool,
    pub default: bool,
}

#[derive(Clone, Debug)]
pub struct StageSpec {
    /// which operation: see `pcu_op`
    pub op: u8,
    pub forward: Vec<(usize, usize)>,
    pub prev: Vec<usize>,
    pub next: Vec<usize>,
    pub out: Vec<usize>,
}

#[derive(Clone, Debug)]
pub struct PcuSpec {
    pub depth: usize,
    pub regs: usize,
    pub stages: Vec<StageSpec>,
}

#[derive(Clone, Debug)]
pub enum DramPort {
    /// addr, size, data, ack
    Write(usize, usize, usize, usize),
    /// addr, size, data
    Read(usize, usize, usize),
}

#[derive(Clone, Debug)]
pub struct DramSpec {
    pub windows: usize,
    pub bandwidth: usize,
    pub latency: u64,
    pub mem: usize,
    pub ports: Vec<DramPort>,
    pub fill: Option<u64>,
}

impl DramSpec {
    /// what it stores, and what it acknowledges with
    pub fn tys(&self, p: &Prog) -> (Ty, Ty) {
        match self.ports[0] {
            DramPort::Write(_, _, d, a) => (p.chans[d].ty, p.chans[a].ty),
            DramPort::Read(_, _, d) => (p.chans[d].ty, Ty::Us),
        }
    }
}

/// contexts that run as members of one composite context
#[derive(Clone, Debug)]
pub struct Group {
    pub members: Vec<usize>,
    /// the group this one is itself a member of (an earlier one)
    pub parent: Option<usize>,
    /// how the connections of the members are declared
    pub seed: u64,
}

#[derive(Clone, Debug, Default)]
pub struct Prog {
    pub groups: Vec<Group>,
    pub chans: Vec<Chan>,
    pub nodes: Vec<Node>,
    pub mems: Vec<MemSpec>,
    pub pmus: Vec<PmuSpec>,
    pub pcus: Vec<PcuSpec>,
    pub drams: Vec<DramSpec>,
}

pub const FILL_STEP: u64 = 7;

/// The operations a PCU stage may use, as (arity, also reads next registers, results)
pub fn pcu_op(op: u8, prev: &[u64], next: &[u64]) -> Vec<u64> {
    match op {
        0 => vec![prev[0] + prev[1]],
        1 => vec![prev[0].max(prev[1]) - prev[0].min(prev[1])],
        2 => vec![(prev[0] % 97) * (prev[1] % 89)],
        3 => vec![prev[0] % 1009],
        // accumulate: the carried register is the output register of this stage
        4 => vec![(next[0] + prev[0]) % 65521],
        // two results
        5 => vec![prev[0] / 2, prev[0] % 2],
        // keep a maximum
        6 => vec![next[0].max(prev[0])],
        // ALUAddOp / ALUMulOp / ALUSubOp / ALUDivOp of the library
        7 => vec![prev[0] + prev[1]],
        8 => vec![prev[0] * prev[1]],
        9 => vec![prev[0] - prev[1]],
        10 => vec![prev[0] / prev[1]],
        // three results, swapped
        _ => vec![prev[1], prev[0], 5],
    }
}

// ---------------------------------------------------------------- compiled form

#[derive(Clone, Debug)]
pub enum Ins {
    Op(Op),
    Begin { n: Option<u64>, end: usize },
    End { begin: usize },
}

pub fn compile(ops: &[Op]) -> Vec<Ins> {
    fn go(ops: &[Op], out: &mut Vec<Ins>) {
        for op in ops {
            match op {
                Op::Loop { n, body } => {
                    let begin = out.len();
                    out.push(Ins::Begin { n: *n, end: 0 });
                    go(body, out);
                    let end = out.len();
                    out.push(Ins::End { begin });
                    out[begin] = Ins::Begin { n: *n, end };
                }
                op => out.push(Ins::Op(op.clone())),
            }
        }
    }
    let mut out = vec![];
    go(ops, &mut out);
    out
}

// ---------------------------------------------------------------- records

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum K {
    Enq,
    Wait,
    Deq,
    PeekNext,
    Peek,
    Event,
    AllEvent,
    AnyEvent,
    Arb,
    Incr,
    Adv,
    Drop,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Rs {
    Ok,
    /// nothing up to et
    Nothing,
    Closed,
}

/// One observed operation. t0/t1: the node's own clock before and after.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Rec {
    pub pc: u32,
    pub k: K,
    pub ch: u32,
    pub r: Rs,
    pub v: u64,
    /// element time (deq, peek) or requested time (enq)
    pub et: u64,
    pub t0: u64,
    pub t1: u64,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Outcome {
    Ok,
    Err,
    Panic,
}

// ---------------------------------------------------------------- interpreter

pub enum R<T> {
    Blocked,
    Got(T),
    Closed,
}

pub enum PeekR {
    Something(u64, u64),
    Nothing(u64),
    Closed,
    /// the machine does not answer (reference simulation)
    Unknown,
}

pub trait Machine {
    fn tick(&self) -> u64;
    fn enq(&mut self, ch: usize, req: u64, v: u64) -> R<()>;
    fn wait(&mut self, ch: usize) -> R<()>;
    fn deq(&mut self, ch: usize) -> R<(u64, u64)>;
    fn peek_next(&mut self, ch: usize) -> R<(u64, u64)>;
    fn peek(&mut self, ch: usize, via_event: bool) -> PeekR;
    fn events(&mut self, chs: &[usize], all: bool) -> PeekR;
    /// moves the clock to when the group is ready; does not dequeue
    fn arb(&mut self, groups: &[Vec<usize>]) -> R<(usize, u64)>;
    fn incr(&mut self, n: u64);
    fn adv(&mut self, t: u64);
    fn drop_end(&mut self, ch: usize, send: bool);
    /// library-unit steps of the reference simulation
    fn unit(&mut self, op: &Op, regs: &mut [u64]) -> R<()>;
    fn norm(&self, ch: usize, v: u64) -> u64;
}

pub enum Step {
    Progress,
    Blocked,
    Done(Outcome),
}

pub struct Interp {
    pub pc: usize,
    stack: Vec<(usize, Option<u64>)>,
    pub regs: Vec<u64>,
    seq: u64,
    mark: u64,
}

impl Interp {
    pub fn new() -> Self {
        Interp {
            pc: 0,
            stack: vec![],
            regs: vec![0; 24],
            seq: 0,
            mark: 0,
        }
    }

    fn eval(&self, ex: &Ex) -> u64 {
        match ex {
            Ex::Const(c) => *c,
            Ex::Reg(r) => self.regs[*r as usize],
            Ex::Mix { c, regs, seq } => {
                let mut x = *c;
                for r in regs {
                    x = crate::rng::mix2(x, self.regs[*r as usize]);
                }
                if *seq {
                    x = crate::rng::mix2(x, self.seq);
                }
                x
            }
        }
    }

    fn closed(&mut self, code: &[Ins]) -> bool {
        while let Some((begin, n)) = self.stack.pop() {
            if n.is_none() {
                if let Ins::Begin { end, .. } = code[begin] {
                    self.pc = end + 1;
                    return true;
                }
            }
        }
        false
    }

    /// Executes one instruction. A record is pushed for every completed operation.
    pub fn step<M: Machine>(&mut self, code: &[Ins], m: &mut M, out: &mut Vec<Rec>) -> Step {
        if self.pc >= code.len() {
            return Step::Done(Outcome::Ok);
        }
        let pc = self.pc;
        let t0 = m.tick();
        let mut push = |m: &M, k, ch: usize, r, v, et| {
            out.push(Rec {
                pc: pc as u32,
                k,
                ch: ch as u32,
                r,
                v,
                et,
                t0,
                t1: m.tick(),
            })
        };
        macro_rules! on_closed {
            () => {
                if !self.closed(code) {
                    return Step::Done(Outcome::Ok);
                } else {
                    return Step::Progress;
                }
            };
        }
        match &code[pc] {
            Ins::Begin { n, end } => {
                if *n == Some(0) {
                    self.pc = end + 1;
                } else {
                    self.stack.push((pc, *n));
                    self.pc += 1;
                }
                return Step::Progress;
            }
            Ins::End { begin } => {
                let top = self.stack.last_mut().unwrap();
                debug_assert_eq!(top.0, *begin);
                match &mut top.1 {
                    None => self.pc = begin + 1,
                    Some(n) => {
                        *n -= 1;
                        if *n == 0 {
                            self.stack.pop();
                            self.pc += 1;
                        } else {
                            self.pc = begin + 1;
                        }
                    }
                }
                return Step::Progress;
            }
            Ins::Op(op) => match op {
                Op::Loop { .. } => unreachable!(),
                Op::Mark => self.mark = t0,
                Op::Enq { .. } | Op::EnqAt { .. } | Op::EnqSel { .. } | Op::EnqMark { .. } => {
                    let (ch, req, ex) = match op {
                        Op::Enq { ch, dt, ex } => (*ch, t0.saturating_add_signed(*dt), ex),
                        Op::EnqAt { ch, t, ex } => (*ch, *t, ex),
                        Op::EnqMark { ch, dt, ex } => (*ch, self.mark.saturating_add_signed(*dt), ex),
                        Op::EnqSel { chs, sel, dt, ex } => (
                            chs[self.regs[*sel as usize] as usize],
                            t0.saturating_add_signed(*dt),
                            ex,
                        ),
                        _ => unreachable!(),
                    };
                    let v = m.norm(ch, self.eval(ex));
                    match m.enq(ch, req, v) {
                        R::Blocked => return Step::Blocked,
                        R::Got(()) => {
                            self.seq += 1;
                            push(m, K::Enq, ch, Rs::Ok, v, req)
                        }
                        R::Closed => {
                            push(m, K::Enq, ch, Rs::Closed, v, req);
                            on_closed!();
                        }
                    }
                }
                Op::Wait { ch } => match m.wait(*ch) {
                    R::Blocked => return Step::Blocked,
                    R::Got(()) => push(m, K::Wait, *ch, Rs::Ok, 0, 0),
                    R::Closed => {
                        push(m, K::Wait, *ch, Rs::Closed, 0, 0);
                        on_closed!();
                    }
                },
                Op::Deq { ch, reg } => match m.deq(*ch) {
                    R::Blocked => return Step::Blocked,
                    R::Got((v, t)) => {
                        self.regs[*reg as usize] = v;
                        push(m, K::Deq, *ch, Rs::Ok, v, t)
                    }
                    R::Closed => {
                        push(m, K::Deq, *ch, Rs::Closed, 0, 0);
                        on_closed!();
                    }
                },
                Op::PeekNext { ch, reg } => match m.peek_next(*ch) {
                    R::Blocked => return Step::Blocked,
                    R::Got((v, t)) => {
                        self.regs[*reg as usize] = v;
                        push(m, K::PeekNext, *ch, Rs::Ok, v, t)
                    }
                    // a closed peek_next does not end the loop; the dequeue that follows does
                    R::Closed => push(m, K::PeekNext, *ch, Rs::Closed, 0, 0),
                },
                Op::ExpectClosed { ch } => match m.deq(*ch) {
                    R::Blocked => return Step::Blocked,
                    R::Got((v, t)) => push(m, K::Deq, *ch, Rs::Ok, v, t),
                    R::Closed => push(m, K::Deq, *ch, Rs::Closed, 0, 0),
                },
                Op::Peek { ch } | Op::NextEvent { ch } => {
                    let ev = matches!(op, Op::NextEvent { .. });
                    let k = if ev { K::Event } else { K::Peek };
                    match m.peek(*ch, ev) {
                        PeekR::Unknown => {}
                        PeekR::Something(v, t) => push(m, k, *ch, Rs::Ok, v, t),
                        PeekR::Nothing(t) => push(m, k, *ch, Rs::Nothing, 0, t),
                        PeekR::Closed => push(m, k, *ch, Rs::Closed, 0, 0),
                    }
                }
                Op::AllEvent { chs } | Op::AnyEvent { chs } => {
                    let all = matches!(op, Op::AllEvent { .. });
                    let k = if all { K::AllEvent } else { K::AnyEvent };
                    match m.events(chs, all) {
                        PeekR::Unknown => {}
                        PeekR::Something(v, t) => push(m, k, 0, Rs::Ok, v, t),
                        PeekR::Nothing(t) => push(m, k, 0, Rs::Nothing, 0, t),
                        PeekR::Closed => push(m, k, 0, Rs::Closed, 0, 0),
                    }
                }
                Op::Arb { groups, take, sel, reg } => match m.arb(groups) {
                    R::Blocked => return Step::Blocked,
                    R::Closed => {
                        push(m, K::Arb, 0, Rs::Closed, 0, 0);
                        on_closed!();
                    }
                    R::Got((g, t)) => {
                        self.regs[*sel as usize] = g as u64;
                        push(m, K::Arb, 0, Rs::Ok, g as u64, t);
                        for (i, ch) in groups[g].iter().enumerate().take(take.unwrap_or(usize::MAX)) {
                            let t0 = m.tick();
                            match m.deq(*ch) {
                                R::Got((v, t)) => {
                                    self.regs[*reg as usize + i] = v;
                                    out.push(Rec {
                                        pc: pc as u32,
                                        k: K::Deq,
                                        ch: *ch as u32,
                                        r: Rs::Ok,
                                        v,
                                        et: t,
                                        t0,
                                        t1: m.tick(),
                                    });
                                }
                                R::Blocked => panic!("arbitration chose a group that is not ready"),
                                R::Closed => {
                                    out.push(Rec {
                                        pc: pc as u32,
                                        k: K::Deq,
                                        ch: *ch as u32,
                                        r: Rs::Closed,
                                        v: 0,
                                        et: 0,
                                        t0,
                                        t1: m.tick(),
                                    });
                                    on_closed!();
                                }
                            }
                        }
                    }
                },
                Op::Incr(n) => {
                    m.incr(*n);
                    push(m, K::Incr, 0, Rs::Ok, *n, 0)
                }
                Op::Adv(t) => {
                    m.adv(*t);
                    push(m, K::Adv, 0, Rs::Ok, *t, 0)
                }
                Op::DropS { ch } => {
                    m.drop_end(*ch, true);
                    push(m, K::Drop, *ch, Rs::Ok, 1, 0)
                }
                Op::DropR { ch } => {
                    m.drop_end(*ch, false);
                    push(m, K::Drop, *ch, Rs::Ok, 0, 0)
                }
                Op::Fail(FailKind::Err) => return Step::Done(Outcome::Err),
                Op::Fail(FailKind::Panic) => return Step::Done(Outcome::Panic),
                Op::Stop => return Step::Done(Outcome::Ok),
                Op::Check { ch, v, tol } => match m.deq(*ch) {
                    R::Blocked => return Step::Blocked,
                    R::Got((x, t)) => {
                        push(m, K::Deq, *ch, Rs::Ok, x, t);
                        if x < *v || x - *v > *tol {
                            return Step::Done(Outcome::Err);
                        }
                    }
                    R::Closed => {
                        push(m, K::Deq, *ch, Rs::Closed, 0, 0);
                        return Step::Done(Outcome::Err);
                    }
                },
                Op::MemWrite { .. }
                | Op::MemRead { .. }
                | Op::Pcu { .. }
                | Op::DramWindow { .. }
                | Op::DramServe { .. } => match m.unit(op, &mut self.regs) {
                    R::Blocked => return Step::Blocked,
                    R::Got(()) => {}
                    // an address that is out of range, or a value that is not there: the unit panics
                    R::Closed => return Step::Done(Outcome::Panic),
                },
            },
        }
        self.pc += 1;
        Step::Progress
    }
}

// ---------------------------------------------------------------- library units as scripts (for the reference simulation)

pub fn lib_script(p: &Prog, imp: &Imp) -> Vec<Op> {
    let reg = Ex::Reg;
    match imp {
        Imp::Script | Imp::Func => vec![],
        Imp::Gen { ch, vals } => vals
            .iter()
            .flat_map(|v| [Op::Enq { ch: *ch, dt: 1, ex: Ex::Const(*v) }, Op::Incr(1)])
            .collect(),
        Imp::Trace { ch, items } => items
            .iter()
            .flat_map(|(v, t)| [Op::Adv(t.saturating_sub(1)), Op::Enq { ch: *ch, dt: 1, ex: Ex::Const(*v) }])
            .collect(),
        Imp::Bcast { input, outs } => {
            let mut body = vec![Op::Deq { ch: *input, reg: 0 }];
            body.extend(outs.iter().map(|o| Op::Wait { ch: *o }));
            body.extend(outs.iter().map(|o| Op::Enq { ch: *o, dt: 1, ex: reg(0) }));
            vec![Op::Loop { n: None, body }]
        }
        Imp::Consumer { ch } => vec![Op::Loop {
            n: None,
            body: vec![Op::Deq { ch: *ch, reg: 0 }, Op::Incr(1)],
        }],
        Imp::Checker { ch, vals } => vals.iter().map(|v| Op::Check { ch: *ch, v: *v, tol: 0 }).collect(),
        Imp::Approx { ch, vals, tol } => vals.iter().map(|v| Op::Check { ch: *ch, v: *v, tol: *tol }).collect(),
        Imp::Pcu { cfg, ins, outs } => {
            let mut body: Vec<Op> = ins.iter().map(|c| Op::PeekNext { ch: *c, reg: 23 }).collect();
            body.extend(ins.iter().enumerate().map(|(i, c)| Op::Deq { ch: *c, reg: i as u8 }));
            body.push(Op::Pcu { cfg: *cfg, ins: ins.len() });
            let depth = p.pcus[*cfg].depth as i64;
            // every output of a set is due at the time the inputs were gathered plus the depth, even if an earlier
            // output of the same set had to wait for space
            body.push(Op::Mark);
            body.extend(outs.iter().enumerate().map(|(i, c)| Op::EnqMark { ch: *c, dt: depth, ex: reg(i as u8) }));
            body.push(Op::Incr(1));
            vec![Op::Loop { n: None, body }]
        }
        Imp::PmuWriter(k) => {
            let m = &p.pmus[*k];
            vec![Op::Loop {
                n: None,
                body: vec![
                    Op::Arb {
                        groups: m.writes.iter().map(|w| vec![w.0, w.1]).collect(),
                        take: None,
                        sel: 20,
                        reg: 0,
                    },
                    Op::MemWrite { mem: m.mem, addr: 0, data: 1 },
                    Op::EnqSel { chs: m.writes.iter().map(|w| w.2).collect(), sel: 20, dt: 0, ex: Ex::Const(0) },
                    Op::Incr(1),
                ],
            }]
        }
        Imp::PmuReader(k) => {
            let m = &p.pmus[*k];
            vec![Op::Loop {
                n: None,
                body: vec![
                    Op::Arb {
                        groups: m.reads.iter().map(|w| vec![w.0]).collect(),
                        take: None,
                        sel: 20,
                        reg: 0,
                    },
                    Op::MemRead { mem: m.mem, addr: 0, reg: 1 },
                    Op::EnqSel { chs: m.reads.iter().map(|w| w.1).collect(), sel: 20, dt: 0, ex: reg(1) },
                    Op::Incr(1),
                ],
            }]
        }
        Imp::Dram(k) => {
            let d = &p.drams[*k];
            vec![Op::Loop {
                n: None,
                body: vec![
                    Op::DramWindow { d: *k },
                    Op::Arb {
                        groups: d
                            .ports
                            .iter()
                            .map(|x| match *x {
                                DramPort::Write(a, s, d, _) => vec![a, s, d],
                                DramPort::Read(a, s, _) => vec![a, s],
                            })
                            .collect(),
                        take: Some(2),
                        sel: 20,
                        reg: 0,
                    },
                    Op::DramServe { d: *k, sel: 20, reg: 0 },
                ],
            }]
        }
    }
}

impl Prog {
    /// fills in the scripts of library units
    pub fn finish(&mut self) {
        for i in 0..self.nodes.len() {
            if !matches!(self.nodes[i].imp, Imp::Script | Imp::Func) {
                self.nodes[i].script = lib_script(self, &self.nodes[i].imp);
            }
        }
    }
    pub fn is_script(&self, n: usize) -> bool {
        n != NONE && matches!(self.nodes[n].imp, Imp::Script | Imp::Func)
    }
}
