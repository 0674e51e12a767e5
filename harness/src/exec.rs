//! Runs a program description on the real library and records what every script node observed.

use crate::pert;
use crate::logs;
use crate::prog::*;
use dam::channel::adapters::{RecvAdapter, SendAdapter};
use dam::channel::utils::{EventCollection, EventTime, Peekable};
use dam::channel::{ChannelID, PeekResult};
use dam::context_tools::*;
use dam::simulation::*;
use dam::context::ContextSummary;
use dam::structures::{Identifiable, Identifier, ParentView, Time, TimeManager, TimeView, TimeViewable, VerboseIdentifier};
use dam::templates::datastore::Behavior;
use dam::templates::dram::{DRAMConfig, DRAMReadBundle, DRAMWriteBundle, DRAM};
use dam::templates::ops::*;
use dam::templates::pcu::{PCUConfig, PipelineStage, PCU};
use dam::templates::pmu::{PMUReadBundle, PMUWriteBundle, PMU};
use dam::utility_contexts::*;
use std::collections::{HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex};

// ---------------------------------------------------------------- the DRAM, which only hooks can construct

pub const DRAMS: bool = cfg!(dam_verif);
#[cfg(dam_verif)]
pub fn dram_config(windows: usize, bandwidth: usize, latency: Time, cap: usize) -> DRAMConfig {
    DRAMConfig::verif_new(windows, bandwidth, latency, cap)
}
#[cfg(dam_verif)]
pub fn dram_read<D: DAMType>(a: Receiver<usize>, s: Receiver<usize>, d: Sender<D>) -> DRAMReadBundle<usize, D> {
    DRAMReadBundle::verif_new(a, s, d)
}
#[cfg(dam_verif)]
pub fn dram_write<D: DAMType, A: DAMType>(a: Receiver<usize>, s: Receiver<usize>, d: Receiver<D>, k: Sender<A>) -> DRAMWriteBundle<usize, D, A> {
    DRAMWriteBundle::verif_new(a, s, d, k)
}
#[cfg(not(dam_verif))]
pub fn dram_config(_: usize, _: usize, _: Time, _: usize) -> DRAMConfig {
    unreachable!("no hooks")
}
#[cfg(not(dam_verif))]
pub fn dram_read<D: DAMType>(_: Receiver<usize>, _: Receiver<usize>, _: Sender<D>) -> DRAMReadBundle<usize, D> {
    unreachable!("no hooks")
}
#[cfg(not(dam_verif))]
pub fn dram_write<D: DAMType, A: DAMType>(_: Receiver<usize>, _: Receiver<usize>, _: Receiver<D>, _: Sender<A>) -> DRAMWriteBundle<usize, D, A> {
    unreachable!("no hooks")
}

// ---------------------------------------------------------------- payload types

pub static TOK_LIVE: AtomicI64 = AtomicI64::new(0);
pub static TOK_MADE: AtomicU64 = AtomicU64::new(0);
const TOK_MAGIC: u64 = 0x70C0_70C0_1234_5678;

/// a payload that notices double drops and leaks
#[derive(Debug)]
pub struct Tok {
    v: u64,
    magic: Box<u64>,
}
impl Tok {
    fn new(v: u64) -> Self {
        TOK_LIVE.fetch_add(1, Relaxed);
        TOK_MADE.fetch_add(1, Relaxed);
        Tok {
            v,
            magic: Box::new(TOK_MAGIC ^ v),
        }
    }
}
impl Default for Tok {
    fn default() -> Self {
        Tok::new(0)
    }
}
impl Clone for Tok {
    fn clone(&self) -> Self {
        Tok::new(self.v)
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        TOK_LIVE.fetch_sub(1, Relaxed);
        if *self.magic != TOK_MAGIC ^ self.v {
            note_violation("a value was dropped in a corrupted state".into());
        }
        *self.magic = 0;
    }
}
impl PartialEq for Tok {
    fn eq(&self, o: &Tok) -> bool {
        self.un() == o.un()
    }
}
impl DAMType for Tok {
    fn dam_size(&self) -> usize {
        64
    }
}

#[derive(Debug, Default, Clone, PartialEq)]
pub struct Big {
    a: [u64; 9],
}
impl DAMType for Big {
    fn dam_size(&self) -> usize {
        9 * 64
    }
}

#[derive(Debug, Default, Clone, PartialEq)]
pub struct Str(String);
impl DAMType for Str {
    fn dam_size(&self) -> usize {
        Ty::Str.bits(self.un()) as usize
    }
}

/// The interface type of adapters
#[derive(Debug, Clone)]
pub struct W(pub u64);

pub trait Val: DAMType + From<W> + 'static {
    fn un(&self) -> u64;
}

impl From<W> for usize {
    fn from(w: W) -> usize {
        w.0 as usize
    }
}
impl From<W> for u16 {
    fn from(w: W) -> u16 {
        w.0 as u16
    }
}
impl From<W> for u32 {
    fn from(w: W) -> u32 {
        w.0 as u32
    }
}
impl From<W> for Tok {
    fn from(w: W) -> Tok {
        Tok::new(w.0)
    }
}
impl From<W> for Big {
    fn from(w: W) -> Big {
        let mut a = [0; 9];
        for (i, x) in a.iter_mut().enumerate() {
            *x = w.0.wrapping_mul(2 * i as u64 + 1);
        }
        Big { a }
    }
}
impl From<W> for Str {
    fn from(w: W) -> Str {
        // so that what units make up on their own is a value, too
        Str(if w.0 == 0 { String::new() } else { w.0.to_string() })
    }
}
impl Val for usize {
    fn un(&self) -> u64 {
        *self as u64
    }
}
impl Val for u16 {
    fn un(&self) -> u64 {
        *self as u64
    }
}
impl Val for u32 {
    fn un(&self) -> u64 {
        *self as u64
    }
}
impl Val for Tok {
    fn un(&self) -> u64 {
        if *self.magic != TOK_MAGIC ^ self.v {
            note_violation("a value was handed out in a corrupted state".into());
        }
        self.v
    }
}
impl Val for Big {
    fn un(&self) -> u64 {
        for (i, x) in self.a.iter().enumerate() {
            if *x != self.a[0].wrapping_mul(2 * i as u64 + 1) {
                note_violation(format!("torn value {:?}", self));
            }
        }
        self.a[0]
    }
}
impl Val for Str {
    fn un(&self) -> u64 {
        if self.0.is_empty() {
            return 0;
        }
        self.0.parse().unwrap_or(u64::MAX)
    }
}
macro_rules! try_into_w {
    ($($t: ty),*) => { $(
        impl TryFrom<$t> for W {
            type Error = ();
            fn try_from(t: $t) -> Result<W, ()> { Ok(W(t.un())) }
        }
    )* }
}
try_into_w!(usize, u16, u32, Tok, Big, Str);

/// what the library's units work on
pub trait Cell: Val + PartialEq {
    fn alu(op: u8) -> ALUOp<Self>;
}
macro_rules! cell {
    ($($t: ty),*) => { $(
        cell!(op $t, Add add, Sub sub, Mul mul, Div div);
        impl Cell for $t {
            fn alu(op: u8) -> ALUOp<Self> {
                alu(op)
            }
        }
    )* };
    (op $t: ty, $($tr: ident $f: ident),*) => { $(
        impl std::ops::$tr for $t {
            type Output = $t;
            fn $f(self, o: $t) -> $t {
                <$t>::from(W(std::ops::$tr::$f(self.un(), o.un())))
            }
        }
    )* }
}
cell!(Tok, Big, Str);
impl Cell for usize {
    fn alu(op: u8) -> ALUOp<usize> {
        match op {
            4 => AccOp::<usize>(),
            _ => alu(op),
        }
    }
}
/// runs the code with D being the type of a unit's values
macro_rules! typed {
    ($ty: expr, $D: ident => $e: expr) => {
        match $ty {
            Ty::Tok => {
                type $D = Tok;
                $e
            }
            Ty::Big => {
                type $D = Big;
                $e
            }
            Ty::Str => {
                type $D = Str;
                $e
            }
            _ => {
                type $D = usize;
                $e
            }
        }
    };
}
/// the same for acknowledgements
macro_rules! typed_ack {
    ($ty: expr, $A: ident => $e: expr) => {
        match $ty {
            Ty::Tok => {
                type $A = Tok;
                $e
            }
            _ => {
                type $A = usize;
                $e
            }
        }
    };
}

// ---------------------------------------------------------------- notes

/// marks notes about time; the others are about drops
pub const TIME: &str = "time: ";
static NOTES: Mutex<Vec<String>> = Mutex::new(vec![]);

/// violations noticed in the middle of a run
pub fn note_violation(s: String) {
    NOTES.lock().unwrap_or_else(|e| e.into_inner()).push(s);
}
pub fn take_notes() -> Vec<String> {
    std::mem::take(&mut *NOTES.lock().unwrap_or_else(|e| e.into_inner()))
}

static PANICS: Mutex<Vec<String>> = Mutex::new(vec![]);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if loc.starts_with("src/") {
            // not the library
            if !msg.starts_with("panic of node") && msg != "?" { eprintln!("HARNESS {msg} at {loc} in {:?}", std::thread::current().name()); }
        }
        PANICS
            .lock()
            .unwrap_or_else(|e| e.into_inner())
            .push(format!("{msg} at {loc}"));
    }));
}
pub fn take_panics() -> Vec<String> {
    std::mem::take(&mut *PANICS.lock().unwrap_or_else(|e| e.into_inner()))
}

// ---------------------------------------------------------------- ports

pub trait SPort: Send + Sync {
    fn attach(&self, c: &dyn Context);
    fn enq(&self, tm: &TimeManager, t: u64, v: u64) -> bool;
    fn wait(&self, tm: &TimeManager) -> bool;
}
pub trait RPort: Send + Sync {
    fn attach(&self, c: &dyn Context);
    fn deq(&self, tm: &TimeManager) -> Option<(u64, u64)>;
    fn peek_next(&self, tm: &TimeManager) -> Option<(u64, u64)>;
    fn peek(&self) -> PeekR;
    fn event(&self) -> EventTime;
}

pub struct Plain<X>(pub X);
pub struct Adapted<X>(pub X);

impl<T: Val> SPort for Plain<Sender<T>> {
    fn attach(&self, c: &dyn Context) {
        self.0.attach_sender(c)
    }
    fn enq(&self, tm: &TimeManager, t: u64, v: u64) -> bool {
        self.0.enqueue(tm, ChannelElement::new(Time::new(t), T::from(W(v)))).is_ok()
    }
    fn wait(&self, tm: &TimeManager) -> bool {
        self.0.wait_until_available(tm).is_ok()
    }
}
impl<T: Val> SPort for Adapted<Sender<T>> {
    fn attach(&self, c: &dyn Context) {
        SendAdapter::<W>::attach_sender(&self.0, c)
    }
    fn enq(&self, tm: &TimeManager, t: u64, v: u64) -> bool {
        SendAdapter::<W>::enqueue(&self.0, tm, ChannelElement::new(Time::new(t), W(v))).is_ok()
    }
    fn wait(&self, tm: &TimeManager) -> bool {
        SendAdapter::<W>::wait_until_available(&self.0, tm).is_ok()
    }
}
/// No program here sends or advances to an infinite time, so none may turn up before a context ends.
fn finite(t: Time, what: &str) -> u64 {
    if t.is_infinite() {
        let s = format!("{TIME}{what} is at infinity");
        let mut n = NOTES.lock().unwrap_or_else(|e| e.into_inner());
        if n.len() < 20 && !n.contains(&s) {
            n.push(s);
        }
    }
    t.time()
}

fn peek_r<T>(p: PeekResult<T>, f: impl Fn(&T) -> u64) -> PeekR {
    match p {
        PeekResult::Something(c) => PeekR::Something(f(&c.data), finite(c.time, "a peeked element")),
        PeekResult::Nothing(t) if t.is_infinite() => PeekR::Nothing(u64::MAX),
        PeekResult::Nothing(t) => PeekR::Nothing(t.time()),
        PeekResult::Closed => PeekR::Closed,
    }
}
impl<T: Val> RPort for Plain<Receiver<T>> {
    fn attach(&self, c: &dyn Context) {
        self.0.attach_receiver(c)
    }
    fn deq(&self, tm: &TimeManager) -> Option<(u64, u64)> {
        self.0.dequeue(tm).ok().map(|c| (c.data.un(), finite(c.time, "an element")))
    }
    fn peek_next(&self, tm: &TimeManager) -> Option<(u64, u64)> {
        self.0.peek_next(tm).ok().map(|c| (c.data.un(), finite(c.time, "an element")))
    }
    fn peek(&self) -> PeekR {
        peek_r(self.0.peek(), |x| x.un())
    }
    fn event(&self) -> EventTime {
        (&self.0).next_event()
    }
}
impl<T: Val> RPort for Adapted<Receiver<T>>
where
    W: TryFrom<T>,
{
    fn attach(&self, c: &dyn Context) {
        RecvAdapter::<W>::attach_receiver(&self.0, c)
    }
    fn deq(&self, tm: &TimeManager) -> Option<(u64, u64)> {
        RecvAdapter::<W>::dequeue(&self.0, tm).ok().map(|c| (c.data.0, finite(c.time, "an element")))
    }
    fn peek_next(&self, tm: &TimeManager) -> Option<(u64, u64)> {
        RecvAdapter::<W>::peek_next(&self.0, tm).ok().map(|c| (c.data.0, finite(c.time, "an element")))
    }
    fn peek(&self) -> PeekR {
        peek_r(RecvAdapter::<W>::peek(&self.0), |x| x.0)
    }
    fn event(&self) -> EventTime {
        (&self.0).next_event()
    }
}

fn event_r(e: EventTime) -> PeekR {
    match e {
        EventTime::Ready(t) => PeekR::Something(0, finite(t, "a ready event")),
        EventTime::Nothing(t) if t.is_infinite() => PeekR::Nothing(u64::MAX),
        EventTime::Nothing(t) => PeekR::Nothing(t.time()),
        EventTime::Closed => PeekR::Closed,
    }
}

// ---------------------------------------------------------------- script contexts

pub struct Slot {
    pub recs: Vec<Rec>,
    pub outcome: Option<Outcome>,
    /// a panic that came out of the library
    pub panic: Option<String>,
    /// own clock when the script ended
    pub tick: u64,
    pub runs: u32,
    pub inits: u32,
    /// global order of this node's operations
    pub tickets: Vec<u64>,
    pub logged: Vec<logs::Logged>,
}

static TICKET: AtomicU64 = AtomicU64::new(0);

pub struct Shared {
    pub slots: Vec<Mutex<Slot>>,
    pub pcs: Vec<AtomicU64>,
}

impl Shared {
    fn new(n: usize) -> Arc<Self> {
        Arc::new(Shared {
            slots: (0..n)
                .map(|_| {
                    Mutex::new(Slot {
                        recs: vec![],
                        outcome: None,
                        panic: None,
                        tick: 0,
                        runs: 0,
                        inits: 0,
                        tickets: vec![],
                        logged: vec![],
                    })
                })
                .collect(),
            pcs: (0..n).map(|_| AtomicU64::new(0)).collect(),
        })
    }
}

pub struct Script {
    node: usize,
    finish: bool,
    code: Vec<Ins>,
    tys: Arc<Vec<Ty>>,
    s: HashMap<usize, Box<dyn SPort>>,
    r: HashMap<usize, Box<dyn RPort>>,
    shared: Arc<Shared>,
}

struct Real<'a> {
    tm: &'a TimeManager,
    s: &'a mut HashMap<usize, Box<dyn SPort>>,
    r: &'a mut HashMap<usize, Box<dyn RPort>>,
    tys: &'a [Ty],
}

impl Machine for Real<'_> {
    fn tick(&self) -> u64 {
        finite(self.tm.tick(), "the clock of a running context")
    }
    fn norm(&self, ch: usize, v: u64) -> u64 {
        self.tys[ch].norm(v)
    }
    fn enq(&mut self, ch: usize, req: u64, v: u64) -> R<()> {
        pert::op();
        let ok = self.s[&ch].enq(self.tm, req, v);
        pert::op();
        if ok {
            R::Got(())
        } else {
            R::Closed
        }
    }
    fn wait(&mut self, ch: usize) -> R<()> {
        pert::op();
        if self.s[&ch].wait(self.tm) {
            R::Got(())
        } else {
            R::Closed
        }
    }
    fn deq(&mut self, ch: usize) -> R<(u64, u64)> {
        pert::op();
        let x = self.r[&ch].deq(self.tm);
        pert::op();
        match x {
            Some(x) => R::Got(x),
            None => R::Closed,
        }
    }
    fn peek_next(&mut self, ch: usize) -> R<(u64, u64)> {
        pert::op();
        match self.r[&ch].peek_next(self.tm) {
            Some(x) => R::Got(x),
            None => R::Closed,
        }
    }
    fn peek(&mut self, ch: usize, via_event: bool) -> PeekR {
        pert::op();
        if via_event {
            event_r(self.r[&ch].event())
        } else {
            self.r[&ch].peek()
        }
    }
    fn events(&mut self, chs: &[usize], all: bool) -> PeekR {
        pert::op();
        let ev: Vec<EventTime> = chs.iter().map(|c| self.r[c].event()).collect();
        event_r(if all {
            ev.all_events().next_event()
        } else {
            ev.any_event().next_event()
        })
    }
    fn arb(&mut self, groups: &[Vec<usize>]) -> R<(usize, u64)> {
        loop {
            pert::retry();
            let ev: Vec<EventTime> = groups
                .iter()
                .map(|g| {
                    g.iter()
                        .map(|c| self.r[c].event())
                        .collect::<Vec<_>>()
                        .all_events()
                        .next_event()
                })
                .collect();
            match ev.iter().enumerate().min_by_key(|(_, e)| **e) {
                None | Some((_, EventTime::Closed)) => return R::Closed,
                Some((_, EventTime::Nothing(t))) => self.tm.advance(*t + 1),
                Some((i, EventTime::Ready(t))) => {
                    self.tm.advance(*t);
                    return R::Got((i, t.time()));
                }
            }
        }
    }
    fn incr(&mut self, n: u64) {
        pert::op();
        self.tm.incr_cycles(n);
    }
    fn adv(&mut self, t: u64) {
        pert::op();
        self.tm.advance(Time::new(t));
    }
    fn drop_end(&mut self, ch: usize, send: bool) {
        pert::op();
        if send {
            self.s.remove(&ch);
        } else {
            self.r.remove(&ch);
        }
    }
    fn unit(&mut self, op: &Op, _regs: &mut [u64]) -> R<()> {
        unreachable!("{op:?} is not for scripts")
    }
}

impl Script {
    fn attach(&self, c: &dyn Context) {
        let mut ks: Vec<_> = self.s.keys().collect();
        ks.sort();
        for k in ks {
            self.s[k].attach(c);
        }
        let mut ks: Vec<_> = self.r.keys().collect();
        ks.sort();
        for k in ks {
            self.r[k].attach(c);
        }
    }

    fn go(&mut self, tm: &mut TimeManager, id: Identifier) -> Outcome {
        let o = self.interpret(tm, id);
        if self.finish && o == Outcome::Ok {
            // from here on nothing will be sent or taken any more, though the endpoints are still there
            match self.node % 3 {
                0 => tm.cleanup(),
                1 => tm.advance(Time::infinite()),
                _ => tm.advance(Time::from((true, 7))),
            }
            pert::linger();
        }
        o
    }

    fn interpret(&mut self, tm: &TimeManager, id: Identifier) -> Outcome {
        pert::enter(self.node);
        self.shared.slots[self.node].lock().unwrap().runs += 1;
        let mut recs = vec![];
        let mut tickets = vec![];
        let mut log = logs::ScriptLog::start(self.node, id);
        if let Some(l) = &mut log {
            l.tick(tm.tick().time(), 0);
        }
        let mut interp = Interp::new();
        let code = &self.code;
        let shared = &self.shared;
        let node = self.node;
        let mut m = Real {
            tm,
            s: &mut self.s,
            r: &mut self.r,
            tys: &self.tys,
        };
        let res = catch_unwind(AssertUnwindSafe(|| loop {
            shared.pcs[node].store(interp.pc as u64, Relaxed);
            match interp.step(code, &mut m, &mut recs) {
                Step::Progress => {
                    if recs.len() > tickets.len() {
                        let ticket = TICKET.fetch_add(1, Relaxed);
                        tickets.resize(recs.len(), ticket);
                        if let Some(l) = &mut log {
                            l.tick(tm.tick().time(), recs.len());
                        }
                    }
                }
                Step::Blocked => unreachable!(),
                Step::Done(o) => return o,
            }
        }));
        shared.pcs[node].store(u64::MAX, Relaxed);
        let mut slot = shared.slots[node].lock().unwrap();
        slot.recs = recs;
        slot.tickets = tickets;
        slot.logged = log.map(|l| l.out).unwrap_or_default();
        slot.tick = tm.tick().time();
        match res {
            Ok(o) => {
                slot.outcome = Some(o);
                o
            }
            Err(e) => {
                let msg = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or(e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                slot.panic = Some(format!("node {node} at instruction {}: {msg}", interp.pc));
                Outcome::Panic
            }
        }
    }
}

#[context_macro]
pub struct ScriptCtx {
    script: Script,
}
impl Context for ScriptCtx {
    fn init(&mut self) {
        self.script.shared.slots[self.script.node].lock().unwrap().inits += 1;
    }
    fn run_falliable(&mut self) -> anyhow::Result<()> {
        let node = self.script.node;
        match {
            let id = self.id();
            self.script.go(&mut self.context_info.time, id)
        } {
            Outcome::Ok => Ok(()),
            Outcome::Err => Err(anyhow::anyhow!("failure of node {node}")),
            Outcome::Panic => panic!("escaping panic of node {node}"),
        }
    }
}

/// panics with payloads of several types
fn payload(node: usize) -> ! {
    struct Custom;
    match node % 5 {
        0 => panic!("panic of node {node}"),
        1 => panic!("panic of node"),
        2 => std::panic::panic_any(node as u32),
        3 => std::panic::resume_unwind(Box::new(Custom)),
        _ => std::panic::panic_any(Box::new(Custom)),
    }
}

#[context_macro]
pub struct LegacyCtx {
    script: Script,
}
impl Context for LegacyCtx {
    fn init(&mut self) {
        self.script.shared.slots[self.script.node].lock().unwrap().inits += 1;
    }
    fn run(&mut self) {
        let node = self.script.node;
        match {
            let id = self.id();
            self.script.go(&mut self.context_info.time, id)
        } {
            Outcome::Ok => {}
            _ => payload(node),
        }
    }
}

// ---------------------------------------------------------------- PCU operations

fn pcu_fn<T: Val, const N: u8>(p: &[PipelineRegister<T>], n: &[PipelineRegister<T>]) -> Vec<PipelineRegister<T>> {
    let p: Vec<u64> = p.iter().map(|r| r.data.un()).collect();
    let n: Vec<u64> = n.iter().map(|r| r.data.un()).collect();
    pcu_op(N, &p, &n)
        .into_iter()
        .map(|x| PipelineRegister { data: T::from(W(x)) })
        .collect()
}

dam::RegisterALUOp!(AccOp, |(i0), (o0)| [(o0 + i0) % T::from(65521u16)], T: num::Num + From<u16> + Copy);

fn alu<T>(op: u8) -> ALUOp<T>
where
    T: Val + std::ops::Add<Output = T> + std::ops::Sub<Output = T> + std::ops::Mul<Output = T> + std::ops::Div<Output = T>,
{
    let func = match op {
        0 => pcu_fn::<T, 0>,
        1 => pcu_fn::<T, 1>,
        2 => pcu_fn::<T, 2>,
        3 => pcu_fn::<T, 3>,
        4 => pcu_fn::<T, 4>,
        5 => pcu_fn::<T, 5>,
        6 => pcu_fn::<T, 6>,
        7 => return ALUAddOp::<T>(),
        8 => return ALUMulOp::<T>(),
        9 => return ALUSubOp::<T>(),
        10 => return ALUDivOp::<T>(),
        _ => pcu_fn::<T, 11>,
    };
    ALUOp { func, name: "custom" }
}

// ---------------------------------------------------------------- execution

#[derive(Clone, Copy, Debug)]
pub struct Opts {
    pub inference: bool,
    pub mode: u64,
    pub pseed: u64,
}

impl Opts {
    pub fn new(inference: bool, mode: u64, pseed: u64) -> Self {
        Opts {
            inference,
            mode,
            pseed,
        }
    }
}

#[derive(Debug, Clone, Default)]
pub struct RunOut {
    pub recs: Vec<Vec<Rec>>,
    /// for every record, a number taken after the operation had completed (there may be fewer)
    pub tickets: Vec<Vec<u64>>,
    pub outcome: Vec<Option<Outcome>>,
    pub lib_panics: Vec<String>,
    /// final tick of every node as its view shows it after the run, and whether it reads as infinite
    pub fin: Vec<(u64, bool)>,
    /// own clock of script nodes when their script ended
    pub own: Vec<u64>,
    pub elapsed: Option<u64>,
    pub passed: bool,
    /// (context id, message)
    pub failures: Vec<(usize, String)>,
    pub ids: Vec<usize>,
    /// ids of the nodes themselves, where `ids` has that of the unit they belong to
    pub leaf_ids: Vec<usize>,
    pub logged: Vec<Vec<logs::Logged>>,
    pub chan_ids: Vec<Option<bson::Bson>>,
    pub run_panicked: Option<String>,
    pub runs: Vec<u32>,
    pub inits: Vec<u32>,
    pub notes: Vec<String>,
    pub init_error: Option<String>,
    /// hash of the real-time order in which the operations of all nodes completed
    pub order: u64,
}

/// a composite context which runs its members on threads of their own
struct Team {
    id: Identifier,
    members: Vec<Result<Box<dyn Context>, Option<ContextSummary>>>,
    views: Vec<TimeView>,
    ids: HashMap<VerboseIdentifier, HashSet<VerboseIdentifier>>,
    conns: dam::context::ExplicitConnections,
}
impl Identifiable for Team {
    fn id(&self) -> Identifier {
        self.id
    }
    fn name(&self) -> String {
        "Team".into()
    }
}
impl TimeViewable for Team {
    fn view(&self) -> TimeView {
        ParentView {
            child_views: self.views.clone(),
        }
        .into()
    }
}
impl Context for Team {
    fn init(&mut self) {
        self.members.iter_mut().flatten().for_each(|m| m.init())
    }
    fn run_falliable(&mut self) -> anyhow::Result<()> {
        let log = dam::logging::copy_log();
        let res: Vec<_> = std::thread::scope(|s| {
            let hs: Vec<_> = self
                .members
                .iter_mut()
                .map(|slot| {
                    let log = log.clone();
                    s.spawn(move || {
                        let mut m = std::mem::replace(slot, Err(None)).ok().expect("a member");
                        if let Some(mut l) = log {
                            l.id = m.id();
                            dam::logging::initialize_log(l);
                        }
                        // a member's channels close when it ends
                        let r = m.run_falliable();
                        *slot = Err(Some(m.summarize()));
                        r
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join()).collect()
        });
        for r in res {
            r.map_err(|_| anyhow::anyhow!("a member panicked"))??;
        }
        Ok(())
    }
    fn ids(&self) -> HashMap<VerboseIdentifier, HashSet<VerboseIdentifier>> {
        self.ids.clone()
    }
    fn edge_connections(&self) -> Option<dam::context::ExplicitConnections> {
        (!self.conns.is_empty()).then(|| self.conns.clone())
    }
    fn summarize(&self) -> ContextSummary {
        ContextSummary {
            id: self.verbose(),
            time: self.view(),
            children: self.members.iter().filter_map(|m| m.as_ref().err()?.clone()).collect(),
        }
    }
}

/// the same connections, told in one of several ways
fn connections(r: &mut crate::rng::Rng, ins: HashSet<ChannelID>, outs: HashSet<ChannelID>) -> Vec<(HashSet<ChannelID>, HashSet<ChannelID>)> {
    let mut v: Vec<_> = match r.below(4) {
        0 => vec![(ins, outs)],
        1 if !outs.is_empty() => outs.into_iter().map(|o| (ins.clone(), [o].into())).collect(),
        2 if !ins.is_empty() => ins.into_iter().map(|i| ([i].into(), outs.clone())).collect(),
        3 if !ins.is_empty() && !outs.is_empty() => {
            ins.iter().flat_map(|i| outs.iter().map(move |o| ([*i].into(), [*o].into()))).collect()
        }
        _ => vec![(ins, outs)],
    };
    for i in (1..v.len()).rev() {
        v.swap(i, r.below(i as u64 + 1) as usize);
    }
    v
}

struct Ends {
    s: HashMap<usize, Box<dyn SPort>>,
    r: HashMap<usize, Box<dyn RPort>>,
    us: HashMap<usize, Box<dyn std::any::Any>>,
    ur: HashMap<usize, Box<dyn std::any::Any>>,
}

fn mk<'a, T: Val>(b: &mut ProgramBuilder<'a>, c: &Chan, ids: &mut Vec<ChannelID>) -> (Sender<T>, Option<Receiver<T>>) {
    let (s, r) = mk_ends(b, c);
    ids.push(s.id());
    (s, r)
}

fn mk_ends<'a, T: Val>(b: &mut ProgramBuilder<'a>, c: &Chan) -> (Sender<T>, Option<Receiver<T>>) {
    if c.void {
        return (b.void(), None);
    }
    let (s, r) = match (c.cap, c.lat, c.rlat) {
        (Some(cap), 1, 1) => b.bounded(cap),
        (Some(cap), l, r) => b.bounded_with_latency(cap, l, r),
        (None, 1, 1) => b.unbounded(),
        (None, l, r) => b.unbounded_with_latency(l, r),
    };
    (s, Some(r))
}

impl Ends {
    fn put<T: Val>(&mut self, i: usize, c: &Chan, script: impl Fn(usize) -> bool, s: Sender<T>, r: Option<Receiver<T>>)
    where
        W: TryFrom<T>,
    {
        if !script(c.src) {
            self.us.insert(i, Box::new(s));
        } else if c.sadapt {
            self.s.insert(i, Box::new(Adapted(s)));
        } else {
            self.s.insert(i, Box::new(Plain(s)));
        }
        if let Some(r) = r {
            if !script(c.dst) {
                self.ur.insert(i, Box::new(r));
            } else if c.radapt {
                self.r.insert(i, Box::new(Adapted(r)));
            } else {
                self.r.insert(i, Box::new(Plain(r)));
            }
        }
    }
    fn take_s<T: Val>(&mut self, i: usize) -> Sender<T> {
        *self.us.remove(&i).expect("sender").downcast().expect("typed sender")
    }
    fn take_r<T: Val>(&mut self, i: usize) -> Receiver<T> {
        *self.ur.remove(&i).expect("receiver").downcast().expect("typed receiver")
    }
}

/// Silences `dbg!` output of the library by pointing stderr at /dev/null would also hide sanitizer reports, so the
/// caller redirects stderr to a file instead.
pub fn run(p: &Prog, o: Opts) -> RunOut {
    let live = TOK_LIVE.load(Relaxed);
    let n = p.nodes.len();
    let shared = Shared::new(n);
    let tys = Arc::new(p.chans.iter().map(|c| c.ty).collect::<Vec<_>>());
    let mut b = ProgramBuilder::default();
    let mut ends = Ends {
        s: Default::default(),
        r: Default::default(),
        us: Default::default(),
        ur: Default::default(),
    };
    let mut chan_ids = vec![];
    let script = |i: usize| matches!(p.nodes[i].imp, Imp::Script | Imp::Func);
    for (i, c) in p.chans.iter().enumerate() {
        match c.ty {
            Ty::Us => {
                let (s, r) = mk::<usize>(&mut b, c, &mut chan_ids);
                ends.put(i, c, script, s, r)
            }
            Ty::U16 => {
                let (s, r) = mk::<u16>(&mut b, c, &mut chan_ids);
                ends.put(i, c, script, s, r)
            }
            Ty::U32 => {
                let (s, r) = mk::<u32>(&mut b, c, &mut chan_ids);
                ends.put(i, c, script, s, r)
            }
            Ty::Tok => {
                let (s, r) = mk::<Tok>(&mut b, c, &mut chan_ids);
                ends.put(i, c, script, s, r)
            }
            Ty::Big => {
                let (s, r) = mk::<Big>(&mut b, c, &mut chan_ids);
                ends.put(i, c, script, s, r)
            }
            Ty::Str => {
                let (s, r) = mk::<Str>(&mut b, c, &mut chan_ids);
                ends.put(i, c, script, s, r)
            }
        }
    }
    let mut views: Vec<Option<TimeView>> = (0..n).map(|_| None).collect();
    let mut ids: Vec<usize> = vec![usize::MAX; n];
    let mut leaf_ids: Vec<usize> = vec![usize::MAX; n];
    let fill = |b: &mut ProgramBuilder<'_>,
                    ends: &mut Ends,
                    views: &mut Vec<Option<TimeView>>,
                    ids: &mut Vec<usize>,
                    leaf_ids: &mut Vec<usize>| {
        let mut teams: Vec<Vec<Box<dyn Context>>> = p.groups.iter().map(|_| vec![]).collect();
        macro_rules! register {
            ($i: expr, $c: expr) => {
                match p.groups.iter().position(|g| g.members.contains(&$i)) {
                    Some(g) => teams[g].push(Box::new($c)),
                    None => b.add_child($c),
                }
            };
        }
        macro_rules! add {
            ($i: expr, $c: expr) => {{
                let c = $c;
                views[$i] = Some(c.view());
                ids[$i] = c.id().id;
                leaf_ids[$i] = c.id().id;
                register!($i, c);
            }};
        }
        for (i, node) in p.nodes.iter().enumerate() {
            match &node.imp {
                Imp::Script | Imp::Func => {
                    let mut s = HashMap::new();
                    let mut r = HashMap::new();
                    for (ci, c) in p.chans.iter().enumerate() {
                        if c.src == i {
                            s.insert(ci, ends.s.remove(&ci).unwrap());
                        }
                        if c.dst == i && !c.void {
                            r.insert(ci, ends.r.remove(&ci).unwrap());
                        }
                    }
                    let mut script = Script {
                        node: i,
                        finish: node.finish,
                        code: compile(&node.script),
                        tys: tys.clone(),
                        s,
                        r,
                        shared: shared.clone(),
                    };
                    if matches!(node.imp, Imp::Func) {
                        // the attachment needs the context, the closure needs the script
                        let mut f = FunctionContext::new();
                        script.attach(&f);
                        let id = f.id();
                        f.set_run(move |tm: &mut TimeManager| {
                            script.go(tm, id);
                        });
                        add!(i, f);
                    } else if node.legacy {
                        let c = LegacyCtx {
                            script,
                            context_info: Default::default(),
                        };
                        c.script.attach(&c);
                        add!(i, c);
                    } else {
                        let c = ScriptCtx {
                            script,
                            context_info: Default::default(),
                        };
                        c.script.attach(&c);
                        add!(i, c);
                    }
                }
                Imp::Gen { ch, vals } => typed!(p.chans[*ch].ty, D => {
                    let vals: Vec<D> = vals.iter().map(|v| D::from(W(*v))).collect();
                    add!(i, GeneratorContext::new(move || vals.into_iter(), ends.take_s::<D>(*ch)));
                }),
                Imp::Trace { ch, items } => typed!(p.chans[*ch].ty, D => {
                    let items: Vec<(D, u64)> = items.iter().map(|(v, t)| (D::from(W(*v)), *t)).collect();
                    add!(i, TraceContext::new(move || items.into_iter(), ends.take_s::<D>(*ch)));
                }),
                Imp::Bcast { input, outs } => typed!(p.chans[*input].ty, D => {
                    let mut c = BroadcastContext::new(ends.take_r::<D>(*input));
                    for o in outs {
                        c.add_target(ends.take_s::<D>(*o));
                    }
                    add!(i, c);
                }),
                Imp::Consumer { ch } => typed!(p.chans[*ch].ty, D => add!(i, ConsumerContext::new(ends.take_r::<D>(*ch)))),
                Imp::Checker { ch, vals } => typed!(p.chans[*ch].ty, D => {
                    let vals: Vec<D> = vals.iter().map(|v| D::from(W(*v))).collect();
                    add!(i, CheckerContext::new(move || vals.into_iter(), ends.take_r::<D>(*ch)));
                }),
                Imp::Approx { ch, vals, tol } => typed!(p.chans[*ch].ty, D => {
                    let vals: Vec<D> = vals.iter().map(|v| D::from(W(*v))).collect();
                    let tol = *tol;
                    add!(
                        i,
                        ApproxCheckerContext::new(move || vals.into_iter(), ends.take_r::<D>(*ch), move |want: &D, got: &D| {
                            got.un() >= want.un() && got.un() - want.un() <= tol
                        })
                    );
                }),
                Imp::Pcu { cfg, ins, outs } => typed!(p.chans[ins[0]].ty, D => {
                    let spec = &p.pcus[*cfg];
                    let mut c = PCU::<D>::new(
                        PCUConfig {
                            pipeline_depth: spec.depth,
                            num_registers: spec.regs,
                        },
                        PCU::<D>::READ_ALL_INPUTS,
                        PCU::<D>::WRITE_ALL_RESULTS,
                    );
                    for s in &spec.stages {
                        c.push_stage(PipelineStage {
                            op: D::alu(s.op),
                            forward: s.forward.clone(),
                            prev_register_ids: s.prev.clone(),
                            next_register_ids: s.next.clone(),
                            output_register_ids: s.out.clone(),
                        });
                    }
                    for ch in ins {
                        c.add_input_channel(ends.take_r(*ch));
                    }
                    for ch in outs {
                        c.add_output_channel(ends.take_s(*ch));
                    }
                    add!(i, c);
                }),
                Imp::PmuReader(_) => {}
                Imp::PmuWriter(k) => typed!(p.chans[p.pmus[*k].writes[0].1].ty, D => typed_ack!(p.chans[p.pmus[*k].writes[0].2].ty, A => {
                    let spec = &p.pmus[*k];
                    let m = &p.mems[spec.mem];
                    let mut c = PMU::<D, usize, A>::new(
                        m.cap,
                        Behavior {
                            mod_address: m.wrap,
                            use_default_value: m.default,
                        },
                    );
                    for (a, r) in &spec.reads {
                        c.add_reader(PMUReadBundle {
                            addr: ends.take_r(*a),
                            resp: ends.take_s(*r),
                        });
                    }
                    for (a, d, k) in &spec.writes {
                        c.add_writer(PMUWriteBundle {
                            addr: ends.take_r(*a),
                            data: ends.take_r(*d),
                            ack: ends.take_s(*k),
                        });
                    }
                    if let TimeView::ParentView(v) = c.view() {
                        views[spec.writer] = Some(v.child_views[0].clone());
                        views[spec.reader] = Some(v.child_views[1].clone());
                    }
                    ids[i] = c.id().id;
                    ids[spec.reader] = c.id().id;
                    for id in c.ids().into_values().flatten().chain(c.ids().into_keys()) {
                        if id.name.starts_with("Read") {
                            leaf_ids[spec.reader] = id.id.id;
                        } else if id.name.starts_with("Write") {
                            leaf_ids[i] = id.id.id;
                        }
                    }
                    register!(i, c);
                })),
                Imp::Dram(k) => typed!(p.drams[*k].tys(p).0, D => typed_ack!(p.drams[*k].tys(p).1, A => {
                    let spec = &p.drams[*k];
                    let m = &p.mems[spec.mem];
                    let mut c = DRAM::<usize, D, A>::new(
                        dram_config(spec.windows, spec.bandwidth, Time::new(spec.latency), m.cap),
                        Behavior {
                            mod_address: m.wrap,
                            use_default_value: m.default,
                        },
                    );
                    if let Some(f) = spec.fill {
                        c.fill(|a| D::from(W(f + FILL_STEP * a as u64)));
                    }
                    for port in &spec.ports {
                        match *port {
                            DramPort::Write(a, s, d, k) => c.add_writer(dram_write(
                                ends.take_r(a),
                                ends.take_r(s),
                                ends.take_r(d),
                                ends.take_s(k),
                            )),
                            DramPort::Read(a, s, d) => c.add_reader(dram_read(
                                ends.take_r(a),
                                ends.take_r(s),
                                ends.take_s(d),
                            )),
                        }
                    }
                    add!(i, c);
                })),
            }
        }
        for (g, group) in p.groups.iter().enumerate().rev() {
            let mut r = crate::rng::Rng::new(group.seed);
            let members = std::mem::take(&mut teams[g]);
            if members.is_empty() {
                continue;
            }
            let all = r.chance(3, 4);
            let mut conns = HashMap::new();
            for m in &members {
                if let Some(c) = m.edge_connections() {
                    conns.extend(c);
                } else if let Some(i) = ids.iter().position(|i| *i == m.id().id) {
                    // the others are left to the library
                    if all || r.chance(1, 2) {
                        let of = |f: &dyn Fn(&Chan) -> bool| p.chans.iter().zip(&chan_ids).filter(|(c, _)| f(c)).map(|(_, id)| *id).collect();
                        conns.insert(m.id(), connections(&mut r, of(&|c| c.dst == i && !c.void), of(&|c| c.src == i)));
                    }
                }
            }
            let mut t = Team {
                id: Identifier::new(),
                views: members.iter().map(|m| m.view()).collect(),
                ids: members.iter().flat_map(|m| m.ids()).collect(),
                conns,
                members: vec![],
            };
            t.ids.insert(t.verbose(), members.iter().map(|m| m.verbose()).collect());
            t.members = members.into_iter().map(Ok).collect();
            match group.parent {
                Some(p) => teams[p].push(Box::new(t)),
                None => b.add_child(t),
            }
        }
    };
    fill(&mut b, &mut ends, &mut views, &mut ids, &mut leaf_ids);
    drop(ends);

    pert::configure(o.mode, o.pseed, n);
    take_notes();
    take_panics();
    let mut out = RunOut {
        ids,
        leaf_ids,
        chan_ids: chan_ids.iter().map(|c| bson::to_bson(c).ok()).collect(),
        ..Default::default()
    };
    let init = InitializationOptionsBuilder::default()
        .run_flavor_inference(o.inference)
        .build()
        .unwrap();
    match b.initialize(init) {
        Err(e) => out.init_error = Some(format!("{e}")),
        Ok(init) => {
            let res = catch_unwind(AssertUnwindSafe(|| {
                let ex = init.run(match o.mode {
                    pert::FIFO => RunOptionsBuilder::default().mode(RunMode::FIFO).build().unwrap(),
                    _ => logs::take_options().unwrap_or_default(),
                });
                let failures = ex.run_failures(|fs| {
                    fs.iter()
                        .map(|f| {
                            let s = format!("{f}");
                            let rest = s.strip_prefix("Simulation of ").unwrap_or(&s);
                            let (id, msg) = rest.split_once(" failed with message ").unwrap_or(("", rest));
                            (id.parse().unwrap_or(usize::MAX), msg.to_string())
                        })
                        .collect::<Vec<_>>()
                });
                (ex.elapsed_cycles(), ex.passed(), failures)
            }));
            match res {
                Ok((e, p, f)) => {
                    out.elapsed = e;
                    out.passed = p;
                    out.failures = f;
                    out.failures.sort();
                }
                Err(_) => out.run_panicked = Some(take_panics().join(" | ")),
            }
        }
    }
    pert::configure(0, 0, 1);
    for v in &views {
        let t = v.as_ref().map(|v| v.tick_lower_bound());
        out.fin.push(match t {
            Some(t) => (t.time(), t.is_infinite()),
            None => (0, false),
        });
    }
    drop(views);
    for s in &shared.slots {
        let mut s = s.lock().unwrap();
        out.recs.push(std::mem::take(&mut s.recs));
        out.outcome.push(s.outcome);
        out.own.push(s.tick);
        out.logged.push(std::mem::take(&mut s.logged));
        out.runs.push(s.runs);
        out.inits.push(s.inits);
        if let Some(p) = s.panic.take() {
            out.lib_panics.push(p);
        }
    }
    let left = TOK_LIVE.load(Relaxed) - live;
    if left != 0 {
        note_violation(if left > 0 {
            format!("{left} of the values were never dropped, though the program is gone")
        } else {
            format!("{} values were dropped twice", -left)
        });
    }
    out.notes = take_notes();
    let mut t: Vec<(u64, usize)> = vec![];
    for (n, s) in shared.slots.iter().enumerate() {
        let tickets = std::mem::take(&mut s.lock().unwrap().tickets);
        t.extend(tickets.iter().map(|x| (*x, n)));
        out.tickets.push(tickets);
    }
    t.sort();
    out.order = t.iter().fold(n as u64, |h, (_, n)| crate::rng::mix2(h, *n as u64));
    out
}
