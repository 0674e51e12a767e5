//! Random program graphs, well-formed or not: what initialization says about them (C15), what their DOT export shows
//! (C17), and the identities of their contexts and channels (C23). Their contexts do next to nothing when run.

use crate::exec::{self, note_violation};
use crate::report::{self, Args};
use crate::rng::{mix2, Rng};
use crate::{pert, watch};
use dam::channel::ChannelID;
use dam::context::{Context, ContextSummary, ProxyContext};
use dam::context_tools::*;
use dam::simulation::*;
use dam::structures::{ContextView, Identifiable, Identifier, ParentView, Time, TimeView, TimeViewable, VerboseIdentifier};
use dam::templates::datastore::Behavior;
use dam::templates::dram::DRAM;
use dam::templates::pcu::{PCUConfig, PCU};
use dam::templates::pmu::{PMUReadBundle, PMUWriteBundle, PMU};
use dam::types::Cleanable;
use dam::utility_contexts::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

// ---------------------------------------------------------------- plans

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Probe,
    /// a generic context with a where clause
    Other,
    Func,
    /// units; ports are (inputs, outputs)
    Gen,
    Trace,
    Cons,
    Bcast(usize),
    Pcu(usize, usize),
    Dram(usize, usize),
    Pmu(usize, usize),
}

#[derive(Clone, Debug)]
pub struct Node {
    pub kind: Kind,
    /// composite it belongs to
    pub comp: Option<usize>,
    pub ticks: Vec<u64>,
    pub fails: bool,
}

#[derive(Clone, Debug)]
pub struct Ch {
    pub cap: Option<usize>,
    pub lat: u64,
    pub rlat: u64,
    /// the constructor without latencies
    pub plain: bool,
    pub void: bool,
    /// (node, port); probes and functions have any number of ports
    pub src: (usize, usize),
    pub dst: (usize, usize),
    pub no_send: bool,
    pub no_recv: bool,
    pub drop_s: bool,
    pub drop_r: bool,
    /// attached to another probe first
    pub twice: bool,
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub nodes: Vec<Node>,
    /// parent of each composite
    pub comps: Vec<Option<usize>>,
    pub chans: Vec<Ch>,
    /// top-level contexts (node index, or nodes.len() + composite index) that are not registered, and whether they are dropped
    pub missing: BTreeMap<usize, bool>,
    pub order: u64,
    pub inference: bool,
}

impl Kind {
    fn free(&self) -> bool {
        matches!(self, Kind::Probe | Kind::Other | Kind::Func)
    }
    fn ports(&self) -> (usize, usize) {
        match *self {
            Kind::Probe | Kind::Other | Kind::Func => (0, 0),
            Kind::Gen | Kind::Trace => (0, 1),
            Kind::Cons => (1, 0),
            Kind::Bcast(n) => (1, n),
            Kind::Pcu(i, o) => (i, o),
            Kind::Dram(r, w) => (2 * r + 3 * w, r + w),
            Kind::Pmu(r, w) => (r + 2 * w, r + w),
        }
    }
}

pub fn plan(r: &mut Rng, faults: bool, fail: bool) -> Plan {
    let ncomp = *r.pick(&[0, 0, 1, 2, 3]);
    let mut comps: Vec<Option<usize>> = vec![];
    for i in 0..ncomp {
        comps.push(if i > 0 && r.chance(1, 2) { Some(r.us(i)) } else { None });
    }
    let mut nodes = vec![];
    let nfree = r.range(1, 5) as usize;
    let nunit = *r.pick(&[0, 0, 1, 2, 3]);
    for _ in 0..nfree {
        nodes.push(r.pick(&[Kind::Probe, Kind::Probe, Kind::Probe, Kind::Other, Kind::Func]).clone());
    }
    for _ in 0..nunit {
        nodes.push(match r.below(8) {
            0 => Kind::Gen,
            1 => Kind::Trace,
            2 => Kind::Cons,
            3 => Kind::Bcast(r.us(4)),
            4 => Kind::Pcu(r.us(2) + 1, r.us(3)),
            5 if exec::DRAMS => Kind::Dram(r.us(2) + 1, r.us(2)),
            _ => Kind::Pmu(r.us(3), r.us(3)),
        });
    }
    let mut nodes: Vec<Node> = nodes
        .into_iter()
        .map(|kind| {
            let fails = fail && r.chance(1, 4) && matches!(kind, Kind::Probe | Kind::Other);
            Node {
                comp: if ncomp > 0 && r.chance(1, 2) && matches!(kind, Kind::Probe | Kind::Pmu(..)) {
                    Some(r.us(ncomp))
                } else {
                    None
                },
                kind,
                ticks: (0..r.us(4)).map(|_| r.below(9)).collect(),
                fails,
            }
        })
        .collect();
    // no empty composites
    for c in 0..ncomp {
        if !comps.contains(&Some(c)) && !nodes.iter().any(|n| n.comp == Some(c)) {
            nodes.push(Node {
                kind: Kind::Probe,
                comp: Some(c),
                ticks: vec![1],
                fails: false,
            });
        }
    }
    let free: Vec<usize> = (0..nodes.len()).filter(|i| nodes[*i].kind.free()).collect();
    let mut chans: Vec<Ch> = vec![];
    let mut chan = |r: &mut Rng, src: (usize, usize), dst: (usize, usize)| {
        let plain = r.chance(1, 2);
        chans.push(Ch {
            cap: if r.chance(1, 3) { None } else { Some(r.range(1, 9) as usize) },
            lat: if plain { 1 } else { r.range(1, 12) },
            rlat: if plain { 1 } else { r.range(1, 12) },
            plain,
            void: false,
            src,
            dst,
            no_send: false,
            no_recv: false,
            drop_s: r.chance(1, 8),
            drop_r: r.chance(1, 8),
            twice: r.chance(1, 12),
        });
        chans.len() - 1
    };
    let mut used: HashSet<(usize, usize)> = HashSet::new();
    for i in 0..nodes.len() {
        let (ins, outs) = nodes[i].kind.ports();
        for o in 0..outs {
            // to a port of a later unit, or to a free node
            let later: Vec<(usize, usize)> = (i + 1..nodes.len())
                .flat_map(|j| (0..nodes[j].kind.ports().0).map(move |p| (j, p)))
                .filter(|x| !used.contains(x))
                .collect();
            if !later.is_empty() && r.chance(1, 3) {
                let d = *r.pick(&later);
                used.insert(d);
                chan(r, (i, o), d);
            } else {
                let f = *r.pick(&free);
                chan(r, (i, o), (f, usize::MAX));
            }
        }
        for p in 0..ins {
            if !used.contains(&(i, p)) {
                let f = *r.pick(&free);
                chan(r, (f, usize::MAX), (i, p));
            }
        }
    }
    for _ in 0..r.us(7) {
        let (f, g) = (*r.pick(&free), *r.pick(&free));
        chan(r, (f, usize::MAX), (g, usize::MAX));
    }
    for c in &mut chans {
        if nodes[c.dst.0].kind.free() && r.chance(1, 6) {
            c.void = true;
            c.lat = 1;
            c.rlat = 1;
            c.cap = None;
        }
    }
    let mut missing = BTreeMap::new();
    if faults {
        for _ in 0..*r.pick(&[0, 0, 1, 1, 2, 3]) {
            if r.chance(1, 3) {
                let tops: Vec<usize> = (0..nodes.len())
                    .filter(|i| nodes[*i].comp.is_none())
                    .chain((0..ncomp).filter(|c| comps[*c].is_none()).map(|c| nodes.len() + c))
                    .collect();
                missing.insert(*r.pick(&tops), r.chance(1, 2));
            } else if !chans.is_empty() {
                let i = r.us(chans.len());
                let c = &mut chans[i];
                if r.chance(1, 2) && nodes[c.src.0].kind.free() {
                    c.no_send = true;
                } else if nodes[c.dst.0].kind.free() && !c.void {
                    c.no_recv = true;
                }
            }
        }
    }
    Plan {
        nodes,
        comps,
        chans,
        missing,
        order: r.u64(),
        inference: r.chance(1, 2),
    }
}

impl Plan {
    fn top(&self, n: usize) -> usize {
        match self.nodes[n].comp {
            None => n,
            Some(mut c) => {
                while let Some(p) = self.comps[c] {
                    c = p;
                }
                self.nodes.len() + c
            }
        }
    }
    fn top_comp(&self, mut c: usize) -> usize {
        while let Some(p) = self.comps[c] {
            c = p;
        }
        self.nodes.len() + c
    }
    fn describe(&self) -> Value {
        json!({
            "nodes": self.nodes.iter().map(|n| format!("{:?} in {:?}, ticks {:?}{}", n.kind, n.comp, n.ticks, if n.fails { ", fails" } else { "" })).collect::<Vec<_>>(),
            "composites": format!("{:?}", self.comps),
            "channels": self.chans.iter().map(|c| format!("{c:?}")).collect::<Vec<_>>(),
            "not registered": format!("{:?}", self.missing),
            "inference": self.inference,
        })
    }
}

// ---------------------------------------------------------------- contexts

pub struct State {
    inits: Vec<AtomicU32>,
    runs: Vec<AtomicU32>,
    /// id each node saw itself under, in init and in run
    seen: Mutex<Vec<(usize, &'static str, Identifier)>>,
    probes: Mutex<Vec<usize>>,
    running: AtomicU32,
}

/// what a probe has, whatever its type
struct Inner {
    node: usize,
    ticks: Vec<u64>,
    fails: bool,
    ss: Vec<Sender<usize>>,
    rs: Vec<Receiver<usize>>,
    st: Arc<State>,
}

impl Inner {
    fn init(&self, id: Identifier) {
        pert::op();
        self.st.inits[self.node].fetch_add(1, SeqCst);
        if self.st.running.load(SeqCst) > 0 {
            note_violation(format!("node {} was initialized while contexts were running", self.node));
        }
        self.st.seen.lock().unwrap().push((self.node, "init", id));
    }
    fn run(&mut self, id: Identifier, tm: &dam::structures::TimeManager) -> anyhow::Result<()> {
        pert::enter(self.node);
        self.st.running.fetch_add(1, SeqCst);
        self.st.runs[self.node].fetch_add(1, SeqCst);
        for p in self.st.probes.lock().unwrap().iter() {
            let n = self.st.inits[*p].load(SeqCst);
            if n != 1 {
                note_violation(format!("node {p} was initialized {n} times by the time node {} ran", self.node));
            }
        }
        self.st.seen.lock().unwrap().push((self.node, "run", id));
        for t in &self.ticks {
            pert::op();
            tm.incr_cycles(*t);
        }
        let _ = log_event(&Me { node: self.node as u32 });
        let _ = (self.ss.len(), self.rs.len());
        if self.fails {
            return Err(anyhow::anyhow!("failure of node {}", self.node));
        }
        Ok(())
    }
}

#[derive(serde::Serialize)]
pub struct Me {
    node: u32,
}
impl dam::logging::LogEvent for Me {
    const NAME: &'static str = "Me";
}

#[context_macro]
struct Probe {
    inner: Inner,
}
impl Context for Probe {
    fn init(&mut self) {
        self.inner.init(self.id())
    }
    fn run_falliable(&mut self) -> anyhow::Result<()> {
        let id = self.id();
        self.inner.run(id, &self.context_info.time)
    }
}

#[context_macro]
struct Other<'a, T: Clone, const N: usize>
where
    T: Send + Sync,
{
    inner: Inner,
    extra: [T; N],
    name: &'a str,
}
impl<'a, T: Clone + Send + Sync, const N: usize> Context for Other<'a, T, N> {
    fn init(&mut self) {
        self.inner.init(self.id());
        assert!(self.extra.len() == N && !self.name.is_empty());
    }
    fn run_falliable(&mut self) -> anyhow::Result<()> {
        let id = self.id();
        self.inner.run(id, &self.context_info.time)
    }
}

type Unit = PMU<usize, usize, usize>;

enum Kid {
    Probe(ProxyContext<Probe>),
    Pmu(ProxyContext<Unit>),
    Comp(ProxyContext<Comp>),
}

macro_rules! kid {
    ($k: expr, $x: ident => $e: expr) => {
        match $k {
            Kid::Probe($x) => $e,
            Kid::Pmu($x) => $e,
            Kid::Comp($x) => $e,
        }
    };
}

/// a composite context written the way the library writes its own
struct Comp {
    id: Identifier,
    kids: Vec<Kid>,
}
impl Identifiable for Comp {
    fn id(&self) -> Identifier {
        self.id
    }
    fn name(&self) -> String {
        "Comp".into()
    }
}
impl TimeViewable for Comp {
    fn view(&self) -> TimeView {
        ParentView {
            child_views: self.kids.iter().map(|k| kid!(k, x => x.view())).collect(),
        }
        .into()
    }
}
impl Context for Comp {
    fn init(&mut self) {
        for k in &mut self.kids {
            kid!(k, x => x.init())
        }
    }
    fn run_falliable(&mut self) -> anyhow::Result<()> {
        let log = dam::logging::copy_log();
        let mut res = vec![];
        std::thread::scope(|s| {
            let hs: Vec<_> = self
                .kids
                .iter_mut()
                .map(|k| {
                    let log = log.clone();
                    s.spawn(move || {
                        if let Some(mut l) = log {
                            l.id = kid!(k, x => x.id());
                            dam::logging::initialize_log(l);
                        }
                        let r = kid!(k, x => x.run_falliable());
                        kid!(k, x => x.cleanup());
                        r
                    })
                })
                .collect();
            res.extend(hs.into_iter().map(|h| h.join()));
        });
        for r in res {
            r.map_err(|_| anyhow::anyhow!("a member panicked"))??;
        }
        Ok(())
    }
    fn ids(&self) -> HashMap<VerboseIdentifier, HashSet<VerboseIdentifier>> {
        let mut m = HashMap::from([(self.verbose(), self.kids.iter().map(|k| kid!(k, x => x.verbose())).collect())]);
        for k in &self.kids {
            m.extend(kid!(k, x => x.ids()));
        }
        m
    }
    fn edge_connections(&self) -> Option<dam::context::ExplicitConnections> {
        let mut m = HashMap::new();
        for k in &self.kids {
            m.extend(kid!(k, x => x.edge_connections()).unwrap_or_default());
        }
        (!m.is_empty()).then_some(m)
    }
    fn summarize(&self) -> ContextSummary {
        ContextSummary {
            id: self.verbose(),
            time: self.view(),
            children: self.kids.iter().map(|k| kid!(k, x => x.summarize())).collect(),
        }
    }
}

// ---------------------------------------------------------------- building

#[derive(Default)]
pub struct Built {
    /// id and name of the contexts channels of this node belong to: (inputs, outputs)
    pub leaf: Vec<[Identifier; 2]>,
    /// id and name of the node as a whole
    pub ids: Vec<Identifier>,
    pub names: Vec<&'static str>,
    pub views: Vec<TimeView>,
    /// view of each leaf, by id
    pub leaf_views: HashMap<usize, TimeView>,
    pub comp_ids: Vec<Identifier>,
    pub chan_ids: Vec<ChannelID>,
    pub complaints: Vec<String>,
    kept: Vec<Box<dyn std::any::Any>>,
}

const NO: Identifier = Identifier { id: usize::MAX };

pub fn build(p: &Plan, st: &Arc<State>) -> (ProgramBuilder<'static>, Built) {
    let mut r = Rng::new(p.order);
    let mut b = ProgramBuilder::default();
    let n = p.nodes.len();
    let mut out = Built {
        leaf: vec![[NO; 2]; n],
        ids: vec![NO; n],
        names: vec![""; n],
        ..Default::default()
    };
    let mut ends: Vec<(Option<Sender<usize>>, Option<Receiver<usize>>)> = vec![];
    for c in &p.chans {
        let (s, rc) = if c.void {
            (b.void(), None)
        } else {
            let (s, rc) = match (c.cap, c.plain) {
                (Some(k), true) => b.bounded(k),
                (Some(k), false) => b.bounded_with_latency(k, c.lat, c.rlat),
                (None, true) => b.unbounded(),
                (None, false) => b.unbounded_with_latency(c.lat, c.rlat),
            };
            if s.id() != rc.id() {
                out.complaints.push(format!("the ends of one channel are {} and {}", s.id(), rc.id()));
            }
            (s, Some(rc))
        };
        out.chan_ids.push(s.id());
        ends.push((Some(s), rc));
    }
    // ports of units
    let mut sp: HashMap<(usize, usize), Sender<usize>> = HashMap::new();
    let mut rp: HashMap<(usize, usize), Receiver<usize>> = HashMap::new();
    for (i, c) in p.chans.iter().enumerate() {
        if c.src.1 != usize::MAX {
            sp.insert(c.src, ends[i].0.take().unwrap());
        }
        if c.dst.1 != usize::MAX {
            rp.insert(c.dst, ends[i].1.take().unwrap());
        }
    }
    enum Any {
        B(Box<dyn Context>),
        Probe(Probe),
        Pmu(Unit),
    }
    let mut made: Vec<Option<Any>> = (0..n).map(|_| None).collect();
    let mut idx: Vec<usize> = (0..n).collect();
    r.shuffle(&mut idx);
    // a context nothing is left of, for attachments that are overwritten later
    let decoy: FunctionContext<fn(&mut dam::structures::TimeManager)> = FunctionContext::new();
    for i in idx {
        let node = &p.nodes[i];
        let mut ss = vec![];
        let mut rs = vec![];
        if node.kind.free() {
            for (ci, c) in p.chans.iter().enumerate() {
                if c.src == (i, usize::MAX) {
                    ss.push((ci, ends[ci].0.take().unwrap()));
                }
                if c.dst == (i, usize::MAX) && !c.void {
                    rs.push((ci, ends[ci].1.take().unwrap()));
                }
            }
            r.shuffle(&mut ss);
            r.shuffle(&mut rs);
        }
        let attach = |c: &dyn Context, ss: &mut Vec<(usize, Sender<usize>)>, rs: &mut Vec<(usize, Receiver<usize>)>| {
            for (ci, s) in ss.iter() {
                if !p.chans[*ci].no_send {
                    if p.chans[*ci].twice {
                        s.attach_sender(&decoy);
                    }
                    s.attach_sender(c);
                }
            }
            for (ci, x) in rs.iter() {
                if !p.chans[*ci].no_recv {
                    if p.chans[*ci].twice {
                        x.attach_receiver(&decoy);
                    }
                    x.attach_receiver(c);
                }
            }
            ss.retain(|x| !p.chans[x.0].drop_s);
            rs.retain(|x| !p.chans[x.0].drop_r);
        };
        let inner = || Inner {
            node: i,
            ticks: node.ticks.clone(),
            fails: node.fails,
            ss: vec![],
            rs: vec![],
            st: st.clone(),
        };
        macro_rules! note {
            ($c: expr, $n: expr) => {{
                out.ids[i] = $c.id();
                out.names[i] = $n;
                out.leaf[i] = [$c.id(); 2];
                out.leaf_views.insert($c.id().id, $c.view());
                if $c.name() != $n || $c.verbose().name != $n || $c.verbose().id != $c.id() {
                    out.complaints.push(format!("a context of type {} calls itself {:?}", $n, $c.verbose()));
                }
            }};
        }
        let any = match node.kind {
            Kind::Probe => {
                let mut c = Probe {
                    inner: inner(),
                    context_info: Default::default(),
                };
                attach(&c, &mut ss, &mut rs);
                c.inner.ss = ss.into_iter().map(|x| x.1).collect();
                c.inner.rs = rs.into_iter().map(|x| x.1).collect();
                note!(c, "Probe");
                Any::Probe(c)
            }
            Kind::Other => {
                let mut c = Other {
                    inner: inner(),
                    extra: [0u8; 3],
                    name: "x",
                    context_info: Default::default(),
                };
                attach(&c, &mut ss, &mut rs);
                c.inner.ss = ss.into_iter().map(|x| x.1).collect();
                c.inner.rs = rs.into_iter().map(|x| x.1).collect();
                note!(c, "Other");
                Any::B(Box::new(c))
            }
            Kind::Func => {
                let mut c = FunctionContext::new();
                attach(&c, &mut ss, &mut rs);
                note!(c, "FunctionContext");
                let (ticks, st) = (node.ticks.clone(), st.clone());
                c.set_run(move |t: &mut dam::structures::TimeManager| {
                    pert::enter(i);
                    st.running.fetch_add(1, SeqCst);
                    st.runs[i].fetch_add(1, SeqCst);
                    let _ = (ss.len(), rs.len());
                    for n in ticks {
                        pert::op();
                        t.incr_cycles(n);
                    }
                });
                Any::B(Box::new(c))
            }
            Kind::Gen => {
                let c = GeneratorContext::new(|| 0..0usize, sp.remove(&(i, 0)).unwrap());
                note!(c, "GeneratorContext");
                Any::B(Box::new(c))
            }
            Kind::Trace => {
                let c = TraceContext::new(|| Vec::<(usize, u64)>::new().into_iter(), sp.remove(&(i, 0)).unwrap());
                note!(c, "TraceContext");
                Any::B(Box::new(c))
            }
            Kind::Cons => {
                let c = ConsumerContext::new(rp.remove(&(i, 0)).unwrap());
                note!(c, "ConsumerContext");
                Any::B(Box::new(c))
            }
            Kind::Bcast(k) => {
                let mut c = BroadcastContext::new(rp.remove(&(i, 0)).unwrap());
                for o in 0..k {
                    c.add_target(sp.remove(&(i, o)).unwrap());
                }
                note!(c, "BroadcastContext");
                Any::B(Box::new(c))
            }
            Kind::Pcu(a, o) => {
                let mut c = PCU::<usize>::new(
                    PCUConfig {
                        pipeline_depth: 2,
                        num_registers: 4,
                    },
                    PCU::<usize>::READ_ALL_INPUTS,
                    PCU::<usize>::WRITE_ALL_RESULTS,
                );
                for k in 0..a {
                    c.add_input_channel(rp.remove(&(i, k)).unwrap());
                }
                for k in 0..o {
                    c.add_output_channel(sp.remove(&(i, k)).unwrap());
                }
                note!(c, "PCU");
                Any::B(Box::new(c))
            }
            Kind::Dram(rd, wr) => {
                let mut c = DRAM::<usize, usize, usize>::new(
                    exec::dram_config(2, 8, 3u64.into(), 16),
                    Behavior {
                        mod_address: true,
                        use_default_value: true,
                    },
                );
                let mut rx = |k: usize| rp.remove(&(i, k)).unwrap();
                for k in 0..rd {
                    c.add_reader(exec::dram_read(rx(2 * k), rx(2 * k + 1), sp.remove(&(i, k)).unwrap()));
                }
                for k in 0..wr {
                    let z = 2 * rd + 3 * k;
                    c.add_writer(exec::dram_write(rx(z), rx(z + 1), rx(z + 2), sp.remove(&(i, rd + k)).unwrap()));
                }
                note!(c, "DRAM");
                Any::B(Box::new(c))
            }
            Kind::Pmu(rd, wr) => {
                let mut c = Unit::new(
                    8,
                    Behavior {
                        mod_address: true,
                        use_default_value: true,
                    },
                );
                let mut rx = |k: usize| rp.remove(&(i, k)).unwrap();
                for k in 0..rd {
                    c.add_reader(PMUReadBundle {
                        addr: rx(k),
                        resp: sp.remove(&(i, k)).unwrap(),
                    });
                }
                for k in 0..wr {
                    c.add_writer(PMUWriteBundle {
                        addr: rx(rd + 2 * k),
                        data: rx(rd + 2 * k + 1),
                        ack: sp.remove(&(i, rd + k)).unwrap(),
                    });
                }
                note!(c, "PMU");
                let mut kids = 0;
                for v in c.ids().into_values().flatten() {
                    kids += 1;
                    let k = if v.name == "ReadPipeline" { 0 } else { 1 };
                    if k == 1 && v.name != "WritePipeline" {
                        out.complaints.push(format!("a PMU has a member {v:?}"));
                    }
                    out.leaf[i][k] = v.id;
                }
                if kids != 2 {
                    out.complaints.push(format!("a PMU has {kids} members"));
                }
                out.leaf_views.remove(&c.id().id);
                if let TimeView::ParentView(v) = c.view() {
                    out.leaf_views.insert(out.leaf[i][1].id, v.child_views[0].clone());
                    out.leaf_views.insert(out.leaf[i][0].id, v.child_views[1].clone());
                }
                Any::Pmu(c)
            }
        };
        made[i] = Some(any);
    }
    // composites, innermost first
    let nc = p.comps.len();
    out.comp_ids = vec![NO; nc];
    let mut comps: Vec<Option<Comp>> = (0..nc).map(|_| None).collect();
    for c in (0..nc).rev() {
        let mut kids = vec![];
        for i in 0..n {
            if p.nodes[i].comp == Some(c) {
                kids.push(match made[i].take().unwrap() {
                    Any::Probe(x) => Kid::Probe(x.into()),
                    Any::Pmu(x) => Kid::Pmu(x.into()),
                    Any::B(_) => unreachable!(),
                });
            }
        }
        for d in c + 1..nc {
            if p.comps[d] == Some(c) {
                kids.push(Kid::Comp(comps[d].take().unwrap().into()));
            }
        }
        r.shuffle(&mut kids);
        let comp = Comp {
            id: Identifier::new(),
            kids,
        };
        out.comp_ids[c] = comp.id;
        comps[c] = Some(comp);
    }
    let mut tops: Vec<(usize, Any)> = made
        .into_iter()
        .enumerate()
        .filter_map(|(i, m)| m.map(|m| (i, m)))
        .chain(comps.into_iter().enumerate().filter_map(|(i, c)| c.map(|c| (n + i, Any::B(Box::new(c) as Box<dyn Context>)))))
        .collect();
    r.shuffle(&mut tops);
    for (i, any) in tops {
        match p.missing.get(&i) {
            None => match any {
                Any::B(x) => b.add_child(Boxed(x)),
                Any::Probe(x) => b.add_child(x),
                Any::Pmu(x) => b.add_child(x),
            },
            Some(true) => {}
            Some(false) => out.kept.push(match any {
                Any::B(x) => Box::new(x),
                Any::Probe(x) => Box::new(x),
                Any::Pmu(x) => Box::new(x),
            }),
        }
    }
    (b, out)
}

/// the builder takes contexts by value
struct Boxed(Box<dyn Context>);
impl Identifiable for Boxed {
    fn id(&self) -> Identifier {
        self.0.id()
    }
    fn name(&self) -> String {
        self.0.name()
    }
}
impl TimeViewable for Boxed {
    fn view(&self) -> TimeView {
        self.0.view()
    }
}
impl Context for Boxed {
    fn init(&mut self) {
        self.0.init()
    }
    fn run_falliable(&mut self) -> anyhow::Result<()> {
        self.0.run_falliable()
    }
    fn ids(&self) -> HashMap<VerboseIdentifier, HashSet<VerboseIdentifier>> {
        self.0.ids()
    }
    fn edge_connections(&self) -> Option<dam::context::ExplicitConnections> {
        self.0.edge_connections()
    }
    fn summarize(&self) -> ContextSummary {
        self.0.summarize()
    }
}

pub fn state(p: &Plan) -> Arc<State> {
    let n = p.nodes.len();
    Arc::new(State {
        inits: (0..n).map(|_| AtomicU32::new(0)).collect(),
        runs: (0..n).map(|_| AtomicU32::new(0)).collect(),
        seen: Mutex::new(vec![]),
        probes: Mutex::new(
            (0..n)
                .filter(|i| matches!(p.nodes[*i].kind, Kind::Probe | Kind::Other) && !p.missing.contains_key(&p.top(*i)))
                .collect(),
        ),
        running: AtomicU32::new(0),
    })
}

fn options(p: &Plan) -> InitializationOptions {
    InitializationOptionsBuilder::default().run_flavor_inference(p.inference).build().unwrap()
}

/// the faults of a plan, in the words of the error that names them
fn faults(p: &Plan, b: &Built) -> HashSet<String> {
    let mut f = HashSet::new();
    let has = |what: String, f: &mut HashSet<String>| {
        f.insert(what);
    };
    for (i, c) in p.chans.iter().enumerate() {
        if c.no_send {
            has(format!("{:?}", InitializationError::DisconnectedSender(b.chan_ids[i])), &mut f);
        } else if p.missing.contains_key(&p.top(c.src.0)) {
            has(format!("{:?}", InitializationError::UnregisteredNode(b.leaf[c.src.0][src_leaf(p, c)])), &mut f);
        }
        if c.void {
            continue;
        }
        if c.no_recv {
            has(format!("{:?}", InitializationError::DisconnectedReceiver(b.chan_ids[i])), &mut f);
        } else if p.missing.contains_key(&p.top(c.dst.0)) {
            has(format!("{:?}", InitializationError::UnregisteredNode(b.leaf[c.dst.0][dst_leaf(p, c)])), &mut f);
        }
    }
    f
}

/// which pipeline of a PMU a channel belongs to
fn src_leaf(p: &Plan, c: &Ch) -> usize {
    match p.nodes[c.src.0].kind {
        Kind::Pmu(rd, _) => (c.src.1 >= rd) as usize,
        _ => 0,
    }
}
fn dst_leaf(p: &Plan, c: &Ch) -> usize {
    match p.nodes[c.dst.0].kind {
        Kind::Pmu(rd, _) => (c.dst.1 >= rd) as usize,
        _ => 0,
    }
}

fn hash(p: &Plan) -> u64 {
    p.describe().to_string().bytes().fold(7, |h, x| mix2(h, x as u64))
}

fn done(args: &Args, idx: u64, p: &Plan, bad: Vec<String>, extra: Value) -> bool {
    report::with(|rep| {
        rep.evaluations += 1;
        rep.count("contexts", p.nodes.len() as u64 + p.comps.len() as u64);
        rep.count("composites", p.comps.len() as u64);
        rep.count("channels", p.chans.len() as u64);
        rep.sample(json!({"graph": p.describe().to_string().chars().take(900).collect::<String>(), "seen": extra.to_string().chars().take(400).collect::<String>()}));
        if !bad.is_empty() {
            rep.violation(idx, bad[0].clone(), json!({"complaints": bad.iter().take(6).collect::<Vec<_>>(), "graph": p.describe()}));
        }
    });
    if args.verbose {
        for b in &bad {
            eprintln!("{b}");
        }
    }
    bad.is_empty()
}

// ---------------------------------------------------------------- C15

fn latencies(args: &Args) {
    let mut r = Rng::new(mix2(args.seed, args.worker));
    for k in 0..60u64 {
        let l = if r.chance(1, 2) { 0 } else { r.range(1, 5) };
        let q = if r.chance(1, 2) { 0 } else { r.range(1, 5) };
        let bounded = k % 2 == 0;
        let cap = r.range(1, 5) as usize;
        let ok = std::panic::catch_unwind(|| {
            let mut b = ProgramBuilder::default();
            if bounded {
                let _ = b.bounded_with_latency::<u32>(cap, l, q);
            } else {
                let _ = b.unbounded_with_latency::<u32>(l, q);
            }
        })
        .is_ok();
        report::with(|rep| {
            rep.count("latencies_tried", 1);
            if ok != (l > 0 && q > 0) {
                rep.violation(0, format!("a channel with latencies {l} and {q} was {}", if ok { "accepted" } else { "refused" }), json!({"bounded": bounded}));
            }
        });
    }
    exec::take_panics();
}

fn init_case(args: &Args, idx: u64) -> bool {
    let mut r = Rng::new(mix2(mix2(args.seed, 0xC15), idx));
    let p = plan(&mut r, true, false);
    let st = state(&p);
    watch::begin(json!({"suite": args.suite, "seed": args.seed, "case": idx, "graph": p.describe().to_string().chars().take(3000).collect::<String>()}).to_string());
    pert::configure(r.below(pert::MODES), r.u64(), p.nodes.len());
    exec::take_notes();
    let (b, built) = build(&p, &st);
    let want = faults(&p, &built);
    let mut bad = built.complaints.clone();
    let probes = st.probes.lock().unwrap().clone();
    let inits = |i: usize| st.inits[i].load(SeqCst);
    let runs = |i: usize| st.runs[i].load(SeqCst);
    let n = p.nodes.len();
    let tops = (0..n).filter(|i| p.nodes[*i].comp.is_none()).count() + p.comps.iter().filter(|c| c.is_none()).count() - p.missing.len();
    if b.num_children() != tops {
        bad.push(format!("{tops} contexts were registered, the builder counts {}", b.num_children()));
    }
    let mut verdict = String::from("accepted");
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| b.initialize(options(&p))));
    match res {
        Err(_) => bad.push(format!("initialization panicked: {:?}", exec::take_panics())),
        Ok(Err(e)) => {
            verdict = format!("{e:?}");
            if !want.contains(&verdict) {
                bad.push(format!("initialization failed with {e:?}, but the faults are {want:?}"));
            }
            for i in 0..n {
                if inits(i) + runs(i) > 0 {
                    bad.push(format!("node {i} was initialized although initialization failed"));
                }
            }
        }
        Ok(Ok(x)) => {
            if !want.is_empty() {
                bad.push(format!("initialization succeeded, but the faults are {want:?}"));
            }
            for i in 0..n {
                let w = probes.contains(&i) as u32;
                if inits(i) != w || runs(i) != 0 {
                    bad.push(format!("after initialization, node {i} was initialized {} times and run {} times", inits(i), runs(i)));
                }
            }
            if bad.is_empty() {
                let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let e = x.run(Default::default());
                    (e.passed(), e.run_failures(|f| f.len()))
                }));
                match res {
                    Err(_) => bad.push(format!("the run panicked: {:?}", exec::take_panics())),
                    Ok((passed, fails)) => {
                        if !passed || fails > 0 {
                            bad.push(format!("the run did not pass ({fails} failures)"));
                        }
                    }
                }
                for i in 0..n {
                    let w = probes.contains(&i) as u32;
                    let f = (matches!(p.nodes[i].kind, Kind::Func) && !p.missing.contains_key(&p.top(i))) as u32;
                    if inits(i) != w || runs(i) != w + f {
                        bad.push(format!("after the run, node {i} was initialized {} times and run {} times", inits(i), runs(i)));
                    }
                }
            }
        }
    }
    watch::end();
    pert::configure(0, 0, 1);
    bad.extend(exec::take_notes());
    report::with(|rep| {
        rep.hashes.insert(hash(&p));
        rep.count(if want.is_empty() { "well_formed_programs" } else { "faulty_programs" }, 1);
        rep.count("faults", want.len() as u64);
        let k = verdict.split('(').next().unwrap_or("?").to_string();
        rep.count(&format!("verdict_{k}"), 1);
    });
    done(args, idx, &p, bad, json!({"verdict": verdict, "faults": want.len()}))
}

// ---------------------------------------------------------------- C17

#[cfg(feature = "dot")]
mod dots {
    use super::*;
    use dam::simulation::DotConvertible;

    #[derive(Debug, Clone, PartialEq)]
    enum Tk {
        Id(String),
        Str(String),
        Sym(char),
        Arrow,
    }

    fn lex(s: &str) -> Result<Vec<Tk>, String> {
        let c: Vec<char> = s.chars().collect();
        let mut i = 0;
        let mut out = vec![];
        while i < c.len() {
            let x = c[i];
            if x.is_whitespace() {
                i += 1;
            } else if x == '"' {
                let mut t = String::new();
                i += 1;
                while i < c.len() && c[i] != '"' {
                    if c[i] == '\\' && i + 1 < c.len() {
                        t.push(c[i]);
                        i += 1;
                    }
                    t.push(c[i]);
                    i += 1;
                }
                if i >= c.len() {
                    return Err("unterminated string".into());
                }
                i += 1;
                out.push(Tk::Str(t));
            } else if x == '-' && c.get(i + 1) == Some(&'>') {
                out.push(Tk::Arrow);
                i += 2;
            } else if "{}[];,=".contains(x) {
                out.push(Tk::Sym(x));
                i += 1;
            } else {
                let mut t = String::new();
                while i < c.len() && !c[i].is_whitespace() && !"{}[];,=\"".contains(c[i]) && !(c[i] == '-' && c.get(i + 1) == Some(&'>')) {
                    t.push(c[i]);
                    i += 1;
                }
                out.push(Tk::Id(t));
            }
        }
        Ok(out)
    }

    type Attrs = HashMap<String, String>;

    #[derive(Default, Debug)]
    struct Dot {
        /// (name, attributes, clusters around it)
        nodes: Vec<(String, Attrs, Vec<String>)>,
        /// (name, attributes, clusters around it)
        clusters: Vec<(String, Attrs, Vec<String>)>,
        edges: Vec<(String, String, Attrs)>,
    }

    struct P {
        t: Vec<Tk>,
        i: usize,
    }

    impl P {
        fn peek(&self) -> Option<&Tk> {
            self.t.get(self.i)
        }
        fn next(&mut self) -> Result<Tk, String> {
            self.i += 1;
            self.t.get(self.i - 1).cloned().ok_or("text ends early".into())
        }
        fn want(&mut self, t: Tk) -> Result<(), String> {
            let x = self.next()?;
            if x == t {
                Ok(())
            } else {
                Err(format!("{t:?} expected, found {x:?}"))
            }
        }
        fn word(&mut self) -> Result<String, String> {
            match self.next()? {
                Tk::Id(s) | Tk::Str(s) => Ok(s),
                x => Err(format!("name expected, found {x:?}")),
            }
        }
        fn attrs(&mut self) -> Result<Attrs, String> {
            let mut a = Attrs::new();
            while self.peek() == Some(&Tk::Sym('[')) {
                self.next()?;
                loop {
                    match self.peek() {
                        Some(Tk::Sym(']')) => {
                            self.next()?;
                            break;
                        }
                        Some(Tk::Sym(',' | ';')) => {
                            self.next()?;
                        }
                        _ => {
                            let k = self.word()?;
                            self.want(Tk::Sym('='))?;
                            let v = self.word()?;
                            a.insert(k, v);
                        }
                    }
                }
            }
            Ok(a)
        }
        fn body(&mut self, path: &mut Vec<String>, d: &mut Dot) -> Result<Attrs, String> {
            let mut own = Attrs::new();
            loop {
                match self.next()? {
                    Tk::Sym('}') => return Ok(own),
                    Tk::Sym(';' | ',') => {}
                    Tk::Id(k) if k == "subgraph" => {
                        let name = self.word()?;
                        self.want(Tk::Sym('{'))?;
                        let around = path.clone();
                        path.push(name.clone());
                        let a = self.body(path, d)?;
                        path.pop();
                        d.clusters.push((name, a, around));
                    }
                    Tk::Id(k) | Tk::Str(k) => match self.peek() {
                        Some(Tk::Sym('=')) => {
                            self.next()?;
                            let v = self.word()?;
                            own.insert(k, v);
                        }
                        Some(Tk::Arrow) => {
                            self.next()?;
                            let to = self.word()?;
                            let a = self.attrs()?;
                            d.edges.push((k, to, a));
                        }
                        _ => {
                            let a = self.attrs()?;
                            d.nodes.push((k, a, path.clone()));
                        }
                    },
                    x => return Err(format!("unexpected {x:?}")),
                }
            }
        }
    }

    fn parse(s: &str) -> Result<Dot, String> {
        let mut p = P { t: lex(s)?, i: 0 };
        let mut w = p.word()?;
        if w == "strict" {
            return Err("a strict graph merges parallel edges".into());
        }
        if w != "digraph" {
            return Err(format!("a {w}"));
        }
        if matches!(p.peek(), Some(Tk::Id(_) | Tk::Str(_))) {
            w = p.word()?;
        }
        let _ = w;
        p.want(Tk::Sym('{'))?;
        let mut d = Dot::default();
        p.body(&mut vec![], &mut d)?;
        if p.i != p.t.len() {
            return Err("text after the graph".into());
        }
        Ok(d)
    }

    fn check(p: &Plan, b: &Built, text: &str, executed: bool) -> Vec<String> {
        let mut bad = vec![];
        let d = match parse(text) {
            Ok(d) => d,
            Err(e) => return vec![format!("the text is not a graph: {e}")],
        };
        let what = if executed { "executed" } else { "initialized" };
        // leaves: label -> (label of cluster around it)
        let mut want: HashMap<String, (usize, Option<String>)> = HashMap::new();
        let mut clusters: HashMap<String, Option<String>> = HashMap::new();
        let label = |n: &str, id: Identifier| format!("{n}({id})");
        let comp = |c: usize| label("Comp", b.comp_ids[c]);
        for (c, par) in p.comps.iter().enumerate() {
            clusters.insert(comp(c), par.map(comp));
        }
        for (i, n) in p.nodes.iter().enumerate() {
            let around = n.comp.map(comp);
            if matches!(n.kind, Kind::Pmu(..)) {
                let l = label("PMU", b.ids[i]);
                clusters.insert(l.clone(), around);
                want.insert(label("ReadPipeline", b.leaf[i][0]), (b.leaf[i][0].id, Some(l.clone())));
                want.insert(label("WritePipeline", b.leaf[i][1]), (b.leaf[i][1].id, Some(l)));
            } else {
                want.insert(label(b.names[i], b.ids[i]), (b.ids[i].id, around));
            }
        }
        let mut by_name: HashMap<String, String> = HashMap::new();
        let mut cluster_label: HashMap<String, String> = HashMap::new();
        for (name, a, _) in &d.clusters {
            let l = a.get("label").cloned().unwrap_or_default();
            if cluster_label.insert(name.clone(), l.clone()).is_some() {
                bad.push(format!("{what}: two clusters {name}"));
            }
        }
        let mut left = clusters.clone();
        for (name, a, path) in &d.clusters {
            let l = cluster_label[name].clone();
            let around = path.last().map(|n| cluster_label[n].clone());
            match left.remove(&l) {
                None => bad.push(format!("{what}: cluster {name} {l:?} is not one of the composites, or shown twice")),
                Some(w) if w != around => bad.push(format!("{what}: composite {l} is in {around:?}, belongs in {w:?}")),
                _ => {}
            }
            if !name.starts_with("cluster") {
                bad.push(format!("{what}: {name} is no cluster"));
            }
            if executed && !a.get("tooltip").is_some_and(|t| t.starts_with("Elapsed: ")) {
                bad.push(format!("{what}: composite {l} has no elapsed cycles"));
            }
        }
        if !left.is_empty() {
            bad.push(format!("{what}: composites {left:?} are missing"));
        }
        let mut left = want.clone();
        for (name, a, path) in &d.nodes {
            let l = a.get("label").cloned().unwrap_or_default();
            if l == "void" {
                continue;
            }
            if by_name.insert(name.clone(), l.clone()).is_some() {
                bad.push(format!("{what}: two nodes {name}"));
            }
            let around = path.last().map(|n| cluster_label[n].clone());
            match left.remove(&l) {
                None => bad.push(format!("{what}: node {name} {l:?} is no context, or shown twice")),
                Some((id, w)) => {
                    if w != around {
                        bad.push(format!("{what}: {l} is in {around:?}, belongs in {w:?}"));
                    }
                    if executed {
                        let t = b.leaf_views[&id].tick_lower_bound().time();
                        let tip = a.get("tooltip").cloned().unwrap_or_default();
                        if tip != format!("Elapsed: {t}") {
                            bad.push(format!("{what}: {l} ended at {t}, shown as {tip:?}"));
                        }
                    }
                }
            }
        }
        if !left.is_empty() {
            bad.push(format!("{what}: contexts {:?} are missing", left.keys().collect::<Vec<_>>()));
        }
        // probes know how far they went
        if executed {
            for (i, n) in p.nodes.iter().enumerate() {
                let t: u64 = n.ticks.iter().sum();
                if n.kind.free() && b.leaf_views[&b.ids[i].id].tick_lower_bound().time() != t {
                    bad.push(format!("node {i} ended at {:?}, not {t}", b.leaf_views[&b.ids[i].id].tick_lower_bound()));
                }
            }
        }
        let leaf_label = |id: Identifier| -> String { want.iter().find(|(_, v)| v.0 == id.id).map(|x| x.0.clone()).unwrap_or_default() };
        let mut edges: HashMap<String, (String, String, usize)> = HashMap::new();
        for (ci, c) in p.chans.iter().enumerate() {
            if !c.void {
                edges.insert(
                    b.chan_ids[ci].to_string(),
                    (leaf_label(b.leaf[c.src.0][src_leaf(p, c)]), leaf_label(b.leaf[c.dst.0][dst_leaf(p, c)]), ci),
                );
            }
        }
        for (from, to, a) in &d.edges {
            let f = by_name.get(from).cloned();
            let Some(t) = by_name.get(to).cloned() else {
                // edges to the void need not be shown
                if !d.nodes.iter().any(|n| n.0 == *to && n.1.get("label").map(|s| s.as_str()) == Some("void")) {
                    bad.push(format!("{what}: an edge leads from {f:?} to {to}, which is no node"));
                }
                continue;
            };
            let l = a.get("label").cloned().unwrap_or_default();
            match edges.remove(&l) {
                None => bad.push(format!("{what}: edge {l:?} from {f:?} to {t} is no channel, or shown twice")),
                Some((x, y, ci)) => {
                    let c = &p.chans[ci];
                    if f.as_ref() != Some(&x) || t != y {
                        bad.push(format!("{what}: {l} goes from {f:?} to {t}, should go from {x} to {y}"));
                    }
                    let tip = a.get("tooltip").cloned().unwrap_or_default();
                    let all = format!("Capacity: {:?}\\nLatency: {}\\nRespLatency: {}", c.cap, c.lat, c.rlat);
                    if tip != all {
                        bad.push(format!("{what}: {l} is described as {tip:?}, should be {all:?}"));
                    }
                }
            }
        }
        if !edges.is_empty() {
            bad.push(format!("{what}: channels {:?} are missing", edges.keys().collect::<Vec<_>>()));
        }
        bad
    }

    pub fn case(args: &Args, idx: u64) -> bool {
        let mut r = Rng::new(mix2(mix2(args.seed, 0xC17), idx));
        let p = plan(&mut r, false, false);
        let st = state(&p);
        watch::begin(json!({"suite": args.suite, "seed": args.seed, "case": idx, "graph": p.describe().to_string().chars().take(3000).collect::<String>()}).to_string());
        pert::configure(r.below(pert::MODES), r.u64(), p.nodes.len());
        exec::take_notes();
        let (b, built) = build(&p, &st);
        let mut bad = vec![];
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let x = b.initialize(options(&p)).unwrap();
            let before = x.to_dot_string();
            let x = x.run(Default::default());
            (before, x.to_dot_string())
        }));
        watch::end();
        pert::configure(0, 0, 1);
        exec::take_notes();
        let mut text = String::new();
        match res {
            Err(_) => bad.push(format!("panicked: {:?}", exec::take_panics())),
            Ok((before, after)) => {
                bad.extend(check(&p, &built, &before, false));
                bad.extend(check(&p, &built, &after, true));
                text = after;
            }
        }
        report::with(|rep| {
            rep.hashes.insert(hash(&p));
            rep.count("data_channels", p.chans.iter().filter(|c| !c.void).count() as u64);
            rep.count("bytes_of_dot", text.len() as u64);
        });
        done(args, idx, &p, bad, json!(text))
    }
}

// ---------------------------------------------------------------- C23

/// every identifier handed out in this process that we have seen
static CONTEXTS: Mutex<Vec<u8>> = Mutex::new(vec![]);
static CHANNELS: Mutex<Vec<u8>> = Mutex::new(vec![]);

/// the first identifier that was there before
fn fresh(all: &Mutex<Vec<u8>>, ids: impl Iterator<Item = usize>) -> Option<usize> {
    let mut g = all.lock().unwrap();
    let mut dup = None;
    for i in ids {
        if i > 1 << 32 {
            return Some(i);
        }
        if i >= g.len() {
            g.resize(i + 1024, 0);
        }
        if g[i] > 0 {
            dup = Some(i);
        }
        g[i] = 1;
    }
    dup
}

fn chan_no(c: ChannelID) -> usize {
    let s = c.to_string();
    s.trim_start_matches("Channel(").trim_end_matches(')').parse().unwrap_or(usize::MAX)
}

fn ident_run(p: &Plan, st: &Arc<State>, b: ProgramBuilder<'static>, built: &Built, idx: u64, mongo: bool, bad: &mut Vec<String>) {
    let coll = format!("c{idx}");
    let mut r = Rng::new(idx);
    crate::logs::filter_all();
    let (options_run, rx, _) = if mongo { crate::logs::outlet(&mut r, true, &coll) } else { (None, None, None) };
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let e = b.initialize(options(p)).unwrap().run(options_run.unwrap_or_default());
        e.run_failures(|f| f.iter().map(|f| f.to_string()).collect::<Vec<_>>())
    }));
    match res {
        Err(_) => bad.push(format!("the run panicked: {:?}", exec::take_panics())),
        Ok(fs) => {
            for (i, n) in p.nodes.iter().enumerate() {
                if n.fails && n.comp.is_none() {
                    let w = format!("Simulation of {} failed with message failure of node {i}", built.ids[i].id);
                    if fs.iter().filter(|f| **f == w).count() != 1 {
                        bad.push(format!("{w:?} expected, the failures are {fs:?}"));
                    }
                }
            }
            let tops: HashSet<usize> = p
                .nodes
                .iter()
                .enumerate()
                .filter(|(_, n)| n.fails)
                .map(|(i, _)| match p.top(i) {
                    t if t < p.nodes.len() => built.ids[t].id,
                    t => built.comp_ids[t - p.nodes.len()].id,
                })
                .collect();
            for f in &fs {
                let id = f.split_whitespace().nth(2).and_then(|x| x.parse::<usize>().ok());
                if !id.is_some_and(|i| tops.contains(&i)) {
                    bad.push(format!("a failure is attributed to {id:?}, failing contexts are {tops:?}"));
                }
            }
        }
    }
    for (node, when, id) in st.seen.lock().unwrap().iter() {
        if *id != built.ids[*node] {
            bad.push(format!("node {node} was constructed as {} and is {id} in its {when}", built.ids[*node]));
        }
    }
    // each view is that of its own clock
    for (i, n) in p.nodes.iter().enumerate() {
        let t: u64 = n.ticks.iter().sum();
        if n.kind.free() {
            let got = built.leaf_views[&built.ids[i].id].tick_lower_bound();
            if got.time() != t || !got.is_infinite() {
                bad.push(format!("node {i} ended at {t}, its view shows {got}"));
            }
        }
    }
    if mongo {
        for d in crate::logs::arrived(rx, &coll, bad).iter().flatten() {
            let id = d.get("context").and_then(|x| x.as_i64().or(x.as_i32().map(|x| x as i64))).unwrap_or(-1);
            if d.get_str("event_type") == Ok("Me") {
                let n = d.get_document("event_data").ok().and_then(|e| e.get("node").and_then(|x| x.as_i64().or(x.as_i32().map(|x| x as i64))));
                report::with(|rep| rep.count("log_entries_matched", 1));
                if n.and_then(|n| built.ids.get(n as usize)).map(|i| i.id as i64) != Some(id) {
                    bad.push(format!("node {n:?} logged under {id}, the ids are {:?}", built.ids));
                }
            }
        }
    }
}

fn ident_case(args: &Args, idx: u64) -> bool {
    let mut r = Rng::new(mix2(mix2(args.seed, 0xC23), idx));
    let mongo = cfg!(feature = "mongo") && args.suite == "identlog";
    let threads = if mongo { 1 } else { r.range(2, 8) as usize };
    let storm = if mongo { 0 } else { r.range(0, 400) as usize };
    let plans: Vec<Plan> = (0..threads)
        .map(|_| {
            let mut p = plan(&mut r, false, true);
            // PMUs print when they are made
            if !mongo {
                for n in &mut p.nodes {
                    n.comp = n.comp.filter(|_| n.kind == Kind::Probe);
                }
            }
            p
        })
        .collect();
    let states: Vec<_> = plans.iter().map(state).collect();
    watch::begin(json!({"suite": args.suite, "seed": args.seed, "case": idx}).to_string());
    exec::take_notes();
    let go = AtomicUsize::new(0);
    let mut bad = vec![];
    // everybody constructs at once
    let made: Vec<_> = std::thread::scope(|s| {
        let hs: Vec<_> = plans
            .iter()
            .zip(&states)
            .map(|(p, st)| {
                let go = &go;
                s.spawn(move || {
                    go.fetch_add(1, SeqCst);
                    while go.load(SeqCst) < threads {
                        std::hint::spin_loop();
                    }
                    let mut ctxs = vec![];
                    let mut chans = vec![];
                    let half = storm / 2;
                    let mut one = |k: usize| {
                        let mut b = ProgramBuilder::default();
                        match k % 6 {
                            0 => ctxs.push(Identifier::new().id),
                            1 => chans.push(chan_no(ChannelID::new())),
                            2 => chans.push(chan_no(b.bounded::<u32>(1).0.id())),
                            3 => chans.push(chan_no(b.void::<u32>().id())),
                            4 => {
                                let c: FunctionContext<fn(&mut dam::structures::TimeManager)> = FunctionContext::new();
                                ctxs.push(c.id().id)
                            }
                            _ => chans.push(chan_no(b.unbounded::<u32>().1.id())),
                        }
                    };
                    for k in 0..half {
                        one(k);
                    }
                    let (b, built) = build(p, st);
                    for k in half..storm {
                        one(k);
                    }
                    ctxs.extend(built.ids.iter().map(|i| i.id));
                    ctxs.extend(built.comp_ids.iter().map(|i| i.id));
                    for (i, l) in built.leaf.iter().enumerate() {
                        ctxs.extend(l.iter().filter(|x| **x != built.ids[i]).map(|x| x.id));
                    }
                    chans.extend(built.chan_ids.iter().map(|c| chan_no(*c)));
                    let mut bad = built.complaints.clone();
                    ident_run(p, st, b, &built, idx, mongo, &mut bad);
                    (ctxs, chans, bad)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join()).collect()
    });
    let mut nctx = 0;
    let mut nch = 0;
    for x in made {
        let Ok((ctxs, chans, b)) = x else {
            bad.push(format!("construction panicked: {:?}", exec::take_panics()));
            continue;
        };
        bad.extend(b);
        nctx += ctxs.len();
        nch += chans.len();
        if let Some(d) = fresh(&CONTEXTS, ctxs.into_iter()) {
            bad.push(format!("two contexts have the identifier {d}"));
        }
        if let Some(d) = fresh(&CHANNELS, chans.into_iter()) {
            bad.push(format!("two channels have the identifier {d}"));
        }
    }
    watch::end();
    bad.extend(exec::take_notes());
    report::with(|rep| {
        rep.count("context_identifiers", nctx as u64);
        rep.count("channel_identifiers", nch as u64);
        rep.max("threads", threads as u64);
        rep.evaluations += threads as u64 - 1;
        for p in &plans {
            rep.hashes.insert(hash(p));
        }
    });
    done(args, idx, &plans[0], bad, json!({"threads": threads, "contexts": nctx, "channels": nch}))
}

// ---------------------------------------------------------------- C19

/// what a run of composites within composites reports as its elapsed cycles
fn elapsed_case(args: &Args, idx: u64) -> bool {
    let mut r = Rng::new(mix2(mix2(args.seed, 0xC19), idx));
    let fail = r.chance(1, 3);
    let p = plan(&mut r, false, fail);
    let st = state(&p);
    watch::begin(json!({"suite": args.suite, "seed": args.seed, "case": idx}).to_string());
    exec::take_notes();
    let (b, built) = build(&p, &st);
    let mut bad = built.complaints.clone();
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let e = b.initialize(options(&p)).unwrap().run(RunOptions::default());
        (e.elapsed_cycles(), e.elapsed_cycles(), e.passed())
    }));
    watch::end();
    let mut seen = json!(null);
    match res {
        Err(_) => bad.push(format!("the run panicked: {:?}", exec::take_panics())),
        Ok((got, again, passed)) => {
            let failed: HashSet<usize> = (0..p.nodes.len()).filter(|i| p.nodes[*i].fails).map(|i| p.top(i)).collect();
            let mut want: Option<u64> = None;
            let mut deep = 0;
            for (i, n) in p.nodes.iter().enumerate() {
                if failed.contains(&p.top(i)) {
                    continue;
                }
                let ids: Vec<Identifier> = if matches!(n.kind, Kind::Pmu(..)) { built.leaf[i].to_vec() } else { vec![built.ids[i]] };
                for id in ids {
                    let v = &built.leaf_views[&id.id];
                    let at = v.tick_lower_bound();
                    if !at.is_infinite() {
                        bad.push(format!("node {i} has finished, but its clock shows {at}"));
                    }
                    if v.wait_until(Time::new(u64::MAX)) != at {
                        bad.push(format!("waiting for finished node {i} does not give the end of time"));
                    }
                    let t = if n.kind.free() { n.ticks.iter().sum() } else { at.time() };
                    if t != at.time() {
                        bad.push(format!("node {i} ended at {t}, its view shows {at}"));
                    }
                    want = want.max(Some(t));
                }
                let (mut d, mut c) = (0, n.comp);
                while let Some(k) = c {
                    d += 1;
                    c = p.comps[k];
                }
                deep = deep.max(d);
            }
            // an empty composite has completed, too
            let empty = (0..p.comps.len()).any(|k| !failed.contains(&p.top_comp(k)));
            if empty && want.is_none() {
                want = Some(0);
            }
            if got != want || again != got {
                bad.push(format!("elapsed_cycles() is {got:?} and then {again:?}, the latest completed member ended at {want:?}"));
            }
            if passed != failed.is_empty() {
                bad.push(format!("passed() is {passed} although {failed:?} failed"));
            }
            report::with(|rep| {
                rep.hashes.insert(hash(&p));
                rep.max("composite_depth", deep);
                rep.count("runs_with_failures", !failed.is_empty() as u64);
                rep.count("runs_nobody_completed", want.is_none() as u64);
            });
            seen = json!({"elapsed": got, "depth": deep});
        }
    }
    bad.extend(exec::take_notes());
    done(args, idx, &p, bad, seen)
}

pub fn suite(args: &Args) {
    match args.suite.as_str() {
        "inits" => {
            if !cfg!(miri) {
                latencies(args);
            }
            crate::cases(args, |idx| init_case(args, idx))
        }
        #[cfg(feature = "dot")]
        "dots" => crate::cases(args, |idx| dots::case(args, idx)),
        "elapsed" => crate::cases(args, |idx| elapsed_case(args, idx)),
        _ => crate::cases(args, |idx| ident_case(args, idx)),
    }
}
