//! Event logs: what contexts logged, by their own account, against what arrives at the other end, either on the
//! channel of a log interface or at a MongoDB server (played by this process, on loopback).

use crate::exec::{self, Opts, RunOut};
use crate::prog::*;
use crate::report::{self, Args};
use crate::rng::{mix2, Rng};
use crate::{gen, model, nets, oracle, pert, watch};
use bson::{Bson, Document};
use dam::dam_macros::event_type;
use dam::context_tools::*;
use dam::logging::{log_event, log_event_cb, LogEvent, LogFilter, LogInterface};
use dam::simulation::*;
use dam::structures::{Identifiable, Identifier, Time};
use dam::utility_contexts::ConsumerContext;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex};

// ---------------------------------------------------------------- events

#[event_type]
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct EvA {
    seq: i64,
    note: String,
}

#[event_type]
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct EvB(u32, Vec<i64>, Option<String>);

#[event_type]
#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum EvC {
    X { seq: u32 },
    Y(u32, f64),
    Z,
}

/// an event whose name is not the name of its type
#[derive(Serialize, Debug, Clone)]
pub struct EvD {
    seq: u32,
}
impl LogEvent for EvD {
    const NAME: &'static str = "some.custom name";
}

const NAMES: [&str; 8] = [
    "EvA",
    "EvB",
    "EvC",
    EvD::NAME,
    "SendEvent",
    "ReceiverEvent",
    "TimeEvent",
    "ContextViewEvent",
];

#[derive(Clone, Debug)]
pub struct Logged {
    pub ty: &'static str,
    pub data: Bson,
    pub tick: u64,
    /// number of operations the node had recorded by then
    pub after: usize,
    /// whether the callback ran, for events logged by callback
    pub called: Option<bool>,
    pub err: bool,
}

// ---------------------------------------------------------------- filters

/// 0: everything, 1: one set for all, 2: a set per context
static FILTER: Mutex<(u8, u64)> = Mutex::new((0, 0));

fn set_of(seed: u64) -> LogFilter {
    let mut r = Rng::new(seed);
    match r.below(6) {
        0 => LogFilter::AllowAll,
        1 => LogFilter::Some(HashSet::new()),
        2 => LogFilter::Some(NAMES.iter().take(4).map(|s| s.to_string()).collect()),
        // names that are nearly those of events admit nothing
        3 => LogFilter::Some(
            NAMES
                .iter()
                .flat_map(|s| match r.below(7) {
                    0 => vec![s.to_string()],
                    1 => vec![],
                    2 => vec![s[1..].to_string(), s[s.len() / 2..].to_string()],
                    3 => vec![s[..s.len() - 1].to_string(), s[..s.len() / 2].to_string()],
                    4 => vec![s.to_uppercase(), s.to_lowercase()],
                    5 => vec![format!("{s}2"), format!("my{s}"), format!(" {s}")],
                    _ => vec!["".into(), "*".into(), s[s.len() - 1..].to_string()],
                })
                .collect(),
        ),
        _ => LogFilter::Some(NAMES.iter().filter(|_| r.chance(1, 2)).map(|s| s.to_string()).collect()),
    }
}

fn per_child(id: Identifier) -> LogFilter {
    let seed = FILTER.lock().unwrap().1;
    set_of(mix2(seed, id.id as u64))
}

fn filter_for(id: Identifier) -> LogFilter {
    let (k, seed) = *FILTER.lock().unwrap();
    match k {
        0 => LogFilter::AllowAll,
        1 => set_of(seed),
        _ => per_child(id),
    }
}

fn admits(f: &LogFilter, name: &str) -> bool {
    match f {
        LogFilter::AllowAll => true,
        LogFilter::Some(s) => s.contains(name),
    }
}

// ---------------------------------------------------------------- logging contexts

pub struct Setup {
    /// entries go straight to this channel
    pub direct: Option<crossbeam::channel::Sender<dam::logging::LogEntry>>,
    pub base: std::time::Instant,
    pub seed: u64,
    pub options: Mutex<Option<RunOptions>>,
}

pub static SETUP: Mutex<Option<Arc<Setup>>> = Mutex::new(None);

/// the options of the next run, if it is to be other than default
pub fn take_options() -> Option<RunOptions> {
    let s = SETUP.lock().unwrap().clone()?;
    let o = s.options.lock().unwrap().take();
    o
}

/// the logging side of a script node
pub struct ScriptLog {
    rng: Rng,
    freq: u64,
    seq: u32,
    pub out: Vec<Logged>,
}

impl ScriptLog {
    pub fn start(node: usize, id: Identifier) -> Option<Self> {
        let s = SETUP.lock().unwrap().clone()?;
        if let Some(snd) = &s.direct {
            dam::logging::initialize_log(LogInterface::new(id, snd.clone(), s.base, filter_for(id), Time::new(0)));
        }
        let mut rng = Rng::new(mix2(s.seed, node as u64));
        let freq = *rng.pick(&[0, 1, 3, 3, 8]);
        Some(ScriptLog {
            rng,
            freq,
            seq: 0,
            out: vec![],
        })
    }

    pub fn tick(&mut self, tick: u64, after: usize) {
        if self.freq == 0 {
            return;
        }
        while self.rng.below(self.freq + 1) == 0 {
            self.one(tick, after);
        }
    }

    fn one(&mut self, tick: u64, after: usize) {
        self.seq += 1;
        let n = self.seq;
        let r = &mut self.rng;
        let cb = r.chance(1, 3);
        let mut called = false;
        macro_rules! log {
            ($t: ty, $e: expr) => {{
                let e: $t = $e;
                let data = bson::to_bson(&e).unwrap();
                let res = if cb {
                    log_event_cb::<$t, _>(|| {
                        called = true;
                        e.clone()
                    })
                } else {
                    log_event(&e)
                };
                (<$t as LogEvent>::NAME, data, res.is_err())
            }};
        }
        let (ty, data, err) = match r.below(5) {
            0 | 1 => log!(
                EvA,
                EvA {
                    seq: (n as i64) << r.below(30),
                    note: "é\u{0}x".repeat(r.us(if n % 50 == 0 { 900 } else { 4 })),
                }
            ),
            2 => log!(EvB, EvB(n, (0..r.range(0, 4)).map(|x| -(x as i64)).collect(), r.chance(1, 2).then(|| "s".into()))),
            3 => log!(
                EvC,
                match r.below(3) {
                    0 => EvC::X { seq: n },
                    1 => EvC::Y(n, n as f64 / 3.0),
                    _ => EvC::Z,
                }
            ),
            _ => log!(EvD, EvD { seq: n }),
        };
        self.out.push(Logged {
            ty,
            data,
            tick,
            after,
            called: cb.then_some(called),
            err,
        });
    }
}

// ---------------------------------------------------------------- a MongoDB server, as far as a logger can tell

#[derive(Default)]
struct Store {
    /// collection -> batches
    batches: HashMap<String, Vec<Vec<Document>>>,
    created: HashMap<String, u64>,
    other: Vec<String>,
    inserts: u64,
    /// what the server will refuse
    fault: Fault,
}

#[derive(Default, Clone, Copy, PartialEq, Debug)]
enum Fault {
    #[default]
    None,
    /// to create a collection
    Create,
    /// the insert after this many others
    Insert(u64),
    /// one document of the insert after this many others
    Document(u64),
}

pub struct Server {
    port: u16,
    store: Arc<Mutex<Store>>,
    /// documents per insert command the server says it takes
    limit: Arc<AtomicU64>,
    /// how long an insert takes, at most
    delay_us: Arc<AtomicU64>,
}

impl Server {
    #[cfg_attr(not(feature = "mongo"), allow(dead_code))]
    fn start() -> Self {
        let l = std::net::TcpListener::bind("127.0.0.1:0").expect("loopback");
        let port = l.local_addr().unwrap().port();
        let store: Arc<Mutex<Store>> = Default::default();
        let limit = Arc::new(AtomicU64::new(100_000));
        let delay_us = Arc::new(AtomicU64::new(0));
        let (st, li, de) = (store.clone(), limit.clone(), delay_us.clone());
        std::thread::spawn(move || {
            for c in l.incoming() {
                let Ok(c) = c else { return };
                let (st, li, de) = (st.clone(), li.clone(), de.clone());
                std::thread::spawn(move || {
                    let _ = serve(c, st, li, de);
                });
            }
        });
        Server {
            port,
            store,
            limit,
            delay_us,
        }
    }
}

fn serve(mut c: std::net::TcpStream, store: Arc<Mutex<Store>>, limit: Arc<AtomicU64>, delay: Arc<AtomicU64>) -> std::io::Result<()> {
    use std::io::{Error, Read, Write};
    c.set_nodelay(true)?;
    let mut k = 0u32;
    loop {
        let mut h = [0u8; 16];
        c.read_exact(&mut h)?;
        let int = |b: &[u8]| i32::from_le_bytes(b[..4].try_into().unwrap());
        let len = int(&h) as usize;
        let id = int(&h[4..]);
        let mut body = vec![0u8; len - 16];
        c.read_exact(&mut body)?;
        if int(&h[12..]) != 2013 {
            return Err(Error::other("only OP_MSG"));
        }
        let flags = int(&body) as u32;
        let end = body.len() - if flags & 1 != 0 { 4 } else { 0 };
        let mut at = 4;
        let mut cmd = Document::new();
        let mut seqs: Vec<(String, Vec<Document>)> = vec![];
        while at < end {
            let kind = body[at];
            at += 1;
            if kind == 0 {
                let n = int(&body[at..]) as usize;
                cmd = Document::from_reader(&body[at..at + n]).map_err(Error::other)?;
                at += n;
            } else {
                let stop = at + int(&body[at..]) as usize;
                at += 4;
                let z = body[at..].iter().position(|b| *b == 0).unwrap();
                let name = String::from_utf8_lossy(&body[at..at + z]).to_string();
                at += z + 1;
                let mut docs = vec![];
                while at < stop {
                    let n = int(&body[at..]) as usize;
                    docs.push(Document::from_reader(&body[at..at + n]).map_err(Error::other)?);
                    at += n;
                }
                seqs.push((name, docs));
            }
        }
        let verb = cmd.keys().next().cloned().unwrap_or_default();
        let reply = match verb.to_lowercase().as_str() {
            "hello" | "ismaster" => bson::doc! {
                "ok": 1.0, "ismaster": true, "isWritablePrimary": true, "helloOk": true,
                "maxBsonObjectSize": 16_777_216_i32, "maxMessageSizeBytes": 48_000_000_i32,
                "maxWriteBatchSize": limit.load(Relaxed) as i32,
                "localTime": bson::DateTime::now(), "minWireVersion": 0_i32, "maxWireVersion": 13_i32, "readOnly": false,
            },
            "create" => {
                let mut s = store.lock().unwrap();
                let key = format!("{}.{}", cmd.get_str("$db").unwrap_or("?"), cmd.get_str("create").unwrap_or("?"));
                *s.created.entry(key).or_default() += 1;
                if s.fault == Fault::Create {
                    bson::doc! {"ok": 0.0, "errmsg": "Collection already exists", "code": 48_i32, "codeName": "NamespaceExists"}
                } else {
                    bson::doc! {"ok": 1.0}
                }
            }
            "insert" => {
                let mut docs: Vec<Document> = seqs.into_iter().filter(|(n, _)| n == "documents").flat_map(|(_, d)| d).collect();
                if let Ok(a) = cmd.get_array("documents") {
                    docs.extend(a.iter().filter_map(|d| d.as_document().cloned()));
                }
                let n = docs.len() as i32;
                let d = delay.load(Relaxed);
                if d > 0 {
                    k += 1;
                    std::thread::sleep(std::time::Duration::from_micros(mix2(k as u64, id as u64) % d));
                }
                let key = format!("{}.{}", cmd.get_str("$db").unwrap_or("?"), cmd.get_str("insert").unwrap_or("?"));
                let mut s = store.lock().unwrap();
                s.inserts += 1;
                let fault = s.fault;
                match fault {
                    Fault::Insert(0) => {
                        s.fault = Fault::None;
                        bson::doc! {"ok": 0.0, "errmsg": "not authorized", "code": 13_i32, "codeName": "Unauthorized"}
                    }
                    Fault::Document(0) => {
                        s.fault = Fault::None;
                        let at = docs.len() / 2;
                        docs.remove(at);
                        s.batches.entry(key).or_default().push(docs);
                        let e = bson::doc! {"index": at as i32, "code": 2_i32, "errmsg": "bad value"};
                        bson::doc! {"ok": 1.0, "n": n - 1, "writeErrors": [e]}
                    }
                    f => {
                        s.fault = match f {
                            Fault::Insert(k) => Fault::Insert(k - 1),
                            Fault::Document(k) => Fault::Document(k - 1),
                            f => f,
                        };
                        s.batches.entry(key).or_default().push(docs);
                        bson::doc! {"ok": 1.0, "n": n}
                    }
                }
            }
            "endsessions" | "ping" => bson::doc! {"ok": 1.0},
            _ => {
                store.lock().unwrap().other.push(verb.clone());
                bson::doc! {"ok": 0.0, "errmsg": "no such command", "code": 59_i32, "codeName": "CommandNotFound"}
            }
        };
        let mut out = vec![];
        out.extend(0i32.to_le_bytes());
        out.extend((id + 1).to_le_bytes());
        out.extend(id.to_le_bytes());
        out.extend(2013i32.to_le_bytes());
        out.extend(0u32.to_le_bytes());
        out.push(0);
        reply.to_writer(&mut out).map_err(Error::other)?;
        let n = out.len() as i32;
        out[..4].copy_from_slice(&n.to_le_bytes());
        c.write_all(&out)?;
    }
}

#[cfg(feature = "mongo")]
fn server() -> &'static Server {
    static S: std::sync::OnceLock<Server> = std::sync::OnceLock::new();
    S.get_or_init(Server::start)
}

// ---------------------------------------------------------------- the checker

#[derive(Debug, Clone)]
struct Entry {
    timestamp: i64,
    context: i64,
    tick: u64,
    done: bool,
    ty: String,
    data: Bson,
}

fn num(b: Option<&Bson>) -> Option<i64> {
    match b {
        Some(Bson::Int32(x)) => Some(*x as i64),
        Some(Bson::Int64(x)) => Some(*x),
        Some(Bson::Double(x)) => Some(*x as i64),
        _ => None,
    }
}

fn entry(d: &Document) -> Option<Entry> {
    let t = d.get_document("ticks").ok()?;
    Some(Entry {
        timestamp: num(d.get("timestamp"))?,
        context: num(d.get("context"))?,
        tick: num(t.get("time"))? as u64,
        done: t.get_bool("done").ok()?,
        ty: d.get_str("event_type").ok()?.into(),
        data: d.get("event_data")?.clone(),
    })
}

/// (type, data, tick) a script node must have logged, in order
fn expected(p: &Prog, run: &RunOut, n: usize) -> Vec<(String, Option<Bson>, u64)> {
    let code = compile(&p.nodes[n].script);
    let mut out = vec![];
    let logged = &run.logged[n];
    let mut li = 0;
    let chan = |c: usize, what: &str| -> Option<Bson> {
        run.chan_ids[c].as_ref().map(|id| {
            let mut d = Document::new();
            d.insert(what, id.clone());
            Bson::Document(d)
        })
    };
    let recs = &run.recs[n];
    for i in 0..=recs.len() {
        while li < logged.len() && logged[li].after == i {
            let l = &logged[li];
            out.push((l.ty.to_string(), Some(l.data.clone()), l.tick));
            li += 1;
        }
        let Some(r) = recs.get(i) else { break };
        let c = r.ch as usize;
        match r.k {
            K::Enq => {
                out.push(("SendEvent".into(), chan(c, "EnqueueStart"), r.t0));
                out.push(("SendEvent".into(), chan(c, "EnqueueFinish"), r.t1));
            }
            K::Deq => {
                out.push(("ReceiverEvent".into(), chan(c, "DequeueStart"), r.t0));
                out.push(("ReceiverEvent".into(), chan(c, "DequeueFinish"), r.t1));
            }
            K::PeekNext => {
                out.push(("ReceiverEvent".into(), chan(c, "PeekNextStart"), r.t0));
                out.push(("ReceiverEvent".into(), chan(c, "PeekNextFinish"), r.t1));
            }
            K::Peek | K::Event => out.push(("ReceiverEvent".into(), chan(c, "Peek"), r.t0)),
            K::AllEvent | K::AnyEvent => {
                if let Ins::Op(Op::AllEvent { chs } | Op::AnyEvent { chs }) = &code[r.pc as usize] {
                    for c in chs {
                        out.push(("ReceiverEvent".into(), chan(*c, "Peek"), r.t0));
                    }
                }
            }
            _ => {}
        }
    }
    let mut t = Document::new();
    let mut f = Document::new();
    t.insert("time", Bson::Int64(run.fin[n].0 as i64));
    t.insert("done", true);
    f.insert("Finish", t);
    out.push(("TimeEvent".into(), Some(Bson::Document(f)), run.own[n]));
    out
}

#[derive(Default)]
struct Stats {
    entries: u64,
    user: u64,
    library: u64,
    filtered: u64,
    callbacks_skipped: u64,
    batches: u64,
    contexts: u64,
}

fn same(a: &Bson, b: &Bson) -> bool {
    match (a, b) {
        (Bson::Document(x), Bson::Document(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).is_some_and(|w| same(v, w))),
        (Bson::Array(x), Bson::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same(a, b)),
        (Bson::Int32(_) | Bson::Int64(_), Bson::Int32(_) | Bson::Int64(_)) => num(Some(a)) == num(Some(b)),
        _ => a == b,
    }
}

/// one text for all documents that are the same
fn canon(b: &Bson) -> String {
    match b {
        Bson::Document(d) => {
            let mut v: Vec<String> = d.iter().map(|(k, v)| format!("{k:?}:{}", canon(v))).collect();
            v.sort();
            format!("{{{}}}", v.join(","))
        }
        Bson::Array(a) => format!("[{}]", a.iter().map(canon).collect::<Vec<_>>().join(",")),
        Bson::Int32(x) => x.to_string(),
        Bson::Int64(x) => x.to_string(),
        _ => format!("{b:?}"),
    }
}

fn check(p: &Prog, run: &RunOut, batches: &[Vec<Document>], direct: bool, st: &mut Stats) -> Vec<String> {
    let mut bad = vec![];
    let mut per: BTreeMap<i64, Vec<(usize, Entry)>> = BTreeMap::new();
    for (b, docs) in batches.iter().enumerate() {
        st.batches += 1;
        for d in docs {
            match entry(d) {
                Some(e) => per.entry(e.context).or_default().push((b, e)),
                None => bad.push(format!("unreadable entry {d:?}")),
            }
            st.entries += 1;
        }
    }
    for (ctx, es) in &per {
        let mut last: HashMap<usize, (u64, i64)> = HashMap::new();
        for (b, e) in es {
            let l = last.entry(if direct { 0 } else { *b }).or_insert((0, 0));
            if e.tick < l.0 {
                bad.push(format!("context {ctx}: the recorded tick went back from {} to {} at {e:?}", l.0, e.tick));
            }
            if e.timestamp < l.1 {
                bad.push(format!("context {ctx}: the real time went back from {} to {} at {e:?}", l.1, e.timestamp));
            }
            *l = (e.tick, e.timestamp);
        }
    }
    let known: HashSet<i64> = run.leaf_ids.iter().map(|i| *i as i64).collect();
    for c in per.keys() {
        if !known.contains(c) {
            bad.push(format!("entries of context {c}, which is none of {known:?}: {:?}", per[c].first()));
        }
    }
    for n in 0..p.nodes.len() {
        let id = run.leaf_ids[n];
        let filter = filter_for(Identifier { id: run.ids[n] });
        let got: Vec<&(usize, Entry)> = per.get(&(id as i64)).map(|v| v.iter().collect()).unwrap_or_default();
        st.contexts += 1;
        for (_, e) in &got {
            if !admits(&filter, &e.ty) {
                bad.push(format!("context {id} logged {e:?}, which its filter {filter:?} excludes"));
            }
        }
        if p.is_script(n) {
            for l in &run.logged[n] {
                if l.err {
                    bad.push(format!("logging {l:?} failed in context {id}"));
                }
                if let Some(c) = l.called {
                    if c != admits(&filter, l.ty) {
                        bad.push(format!("context {id}: callback of {l:?} evaluated: {c}, filter {filter:?}"));
                    }
                    st.callbacks_skipped += !c as u64;
                }
            }
            let exp = expected(p, run, n);
            let all = exp.len();
            let exp: Vec<_> = exp.into_iter().filter(|e| admits(&filter, &e.0)).collect();
            st.filtered += (all - exp.len()) as u64;
            let got: Vec<&(usize, Entry)> = got.iter().copied().filter(|(_, e)| e.ty != "ContextViewEvent").collect();
            st.user += exp.iter().filter(|e| e.0.starts_with("Ev") || e.0 == EvD::NAME).count() as u64;
            st.library += exp.iter().filter(|e| !(e.0.starts_with("Ev") || e.0 == EvD::NAME)).count() as u64;
            let matches = |e: &(String, Option<Bson>, u64), g: &Entry| {
                g.ty == e.0 && g.tick == e.2 && !g.done && e.1.as_ref().is_none_or(|d| same(d, &g.data))
            };
            if direct || batches.len() <= 1 {
                for i in 0..exp.len().max(got.len()) {
                    match (exp.get(i), got.get(i)) {
                        (Some(e), Some(g)) if matches(e, &g.1) => {}
                        (e, g) => {
                            bad.push(format!("context {id}, entry {i}: logged {e:?}, recorded {:?}", g.map(|g| &g.1)));
                            break;
                        }
                    }
                }
            } else {
                // batches may overtake each other, but each is in order and nothing is lost or doubled
                let key = |ty: &str, data: &Bson, tick: u64| format!("{ty} {tick} {}", canon(data));
                let mut left: HashMap<String, Vec<usize>> = HashMap::new();
                for (i, e) in exp.iter().enumerate() {
                    left.entry(key(&e.0, e.1.as_ref().unwrap_or(&Bson::Null), e.2)).or_default().push(i);
                }
                let unique: HashMap<String, usize> = left.iter().filter(|(_, v)| v.len() == 1).map(|(k, v)| (k.clone(), v[0])).collect();
                let mut at: HashMap<usize, usize> = HashMap::new();
                let mut unsure = 0;
                for (b, g) in &got {
                    let k = key(&g.ty, &g.data, g.tick);
                    let hit = !g.done && left.get_mut(&k).and_then(|v| v.pop()).is_some();
                    if !hit {
                        bad.push(format!("context {id}: {g:?} was recorded but not logged, or twice"));
                        break;
                    }
                    match unique.get(&k) {
                        Some(i) => {
                            if at.get(b).is_some_and(|x| x > i) {
                                bad.push(format!("context {id}: {g:?} was recorded too late in its batch"));
                                break;
                            }
                            at.insert(*b, *i);
                        }
                        None => unsure += 1,
                    }
                }
                let _ = unsure;
                if got.len() < exp.len() && bad.is_empty() {
                    let missing: Vec<_> = left.into_iter().filter(|(_, v)| !v.is_empty()).map(|x| x.0).take(3).collect();
                    bad.push(format!("context {id}: {missing:?} was logged but is not recorded"));
                }
            }
        } else if !direct {
            // units: one end each, at their final time
            let ends: Vec<_> = got.iter().filter(|(_, e)| e.ty == "TimeEvent").collect();
            let want = admits(&filter, "TimeEvent") as usize;
            if ends.len() != want || ends.iter().any(|(_, e)| e.tick != run.fin[n].0) {
                bad.push(format!("context {id} ended at {} but logged {ends:?} ({want} expected)", run.fin[n].0));
            }
        }
    }
    if !direct {
        // channel events belong to the contexts at the ends of the channel
        for (ci, c) in p.chans.iter().enumerate() {
            let Some(cid) = &run.chan_ids[ci] else { continue };
            let is = |e: &Entry, what: &str| {
                e.data.as_document().and_then(|d| d.get(what)).is_some_and(|x| same(x, cid))
            };
            for (end, ty, whats) in [
                (c.src, "SendEvent", ["EnqueueStart", "EnqueueFinish"]),
                (c.dst, "ReceiverEvent", ["DequeueStart", "DequeueFinish"]),
            ] {
                if end == NONE || (c.void && ty == "ReceiverEvent") {
                    continue;
                }
                let filter = filter_for(Identifier { id: run.ids[end] });
                let mut n = [0, 0];
                for (ctx, es) in &per {
                    for (_, e) in es.iter().filter(|(_, e)| e.ty == ty) {
                        for k in 0..2 {
                            if is(e, whats[k]) {
                                n[k] += 1;
                                if *ctx != run.leaf_ids[end] as i64 {
                                    bad.push(format!("channel {ci} belongs to context {}, but {e:?}", run.leaf_ids[end]));
                                }
                            }
                        }
                    }
                }
                let received = if p.is_script(c.dst) && !c.void {
                    run.recs[c.dst].iter().filter(|r| r.k == K::Deq && r.r == Rs::Ok && r.ch as usize == ci).count()
                } else {
                    0
                };
                if admits(&filter, ty) && (n[0] != n[1] || n[0] < received) && run.lib_panics.is_empty() {
                    bad.push(format!("channel {ci}: {n:?} {whats:?} events, {received} elements received"));
                }
            }
        }
    }
    bad
}

// ---------------------------------------------------------------- the suite

/// the entries, and whether they come by way of a short queue that's read slowly
pub type Entries = (crossbeam::channel::Receiver<dam::logging::LogEntry>, bool);
pub type Direct = crossbeam::channel::Sender<dam::logging::LogEntry>;

/// log everything from now on
pub fn filter_all() {
    *FILTER.lock().unwrap() = (0, 0);
}

/// where the entries go, under the current filter
pub fn outlet(r: &mut Rng, mongo: bool, coll: &str) -> (Option<RunOptions>, Option<Entries>, Option<Direct>) {
    let _ = (&r, coll);
    let (kind, fseed) = *FILTER.lock().unwrap();
    let _ = (kind, fseed);
    #[allow(unused_mut)]
    let mut options = None;
    let mut rx = None;
    let mut direct = None;
    if mongo {
        #[cfg(feature = "mongo")]
        {
            let s = server();
            s.limit.store(*r.pick(&[20, 500, 100_000]), Relaxed);
            s.delay_us.store(*r.pick(&[0, 0, 100, 500]), Relaxed);
            let o = MongoOptionsBuilder::default()
                .uri(format!("mongodb://127.0.0.1:{}/?directConnection=true", s.port))
                .db("logdb".into())
                .collection(coll.into())
                .build()
                .unwrap();
            options = Some(
                RunOptionsBuilder::default()
                    .logging(LoggingOptions::Mongo(o))
                    .log_filter(match kind {
                        0 => LogFilterKind::Blanket(LogFilter::AllowAll),
                        1 => LogFilterKind::Blanket(set_of(fseed)),
                        _ => LogFilterKind::PerChild(per_child),
                    })
                    .build()
                    .unwrap(),
            );
        }
    } else {
        let (mut s, x) = crossbeam::channel::unbounded();
        let short = r.chance(1, 2);
        if short {
            let (front, back) = crossbeam::channel::bounded(*r.pick(&[1, 2, 16, 200]));
            let s = std::mem::replace(&mut s, front);
            let mut r = Rng::new(r.u64());
            std::thread::spawn(move || {
                let every = *r.pick(&[3, 30, 300]);
                for e in back.iter() {
                    if r.chance(1, every) {
                        std::thread::sleep(std::time::Duration::from_micros(r.below(every * 4)));
                    }
                    let _ = s.send(e);
                }
            });
        }
        direct = Some(s);
        rx = Some((x, short));
        let _ = (LogFilterKind::PerChild(per_child), RunOptionsBuilder::default());
    }
    (options, rx, direct)
}

/// what has arrived by now, in batches
pub fn arrived(rx: Option<Entries>, coll: &str, bad: &mut Vec<String>) -> Vec<Vec<Document>> {
    let _ = (coll, &bad);
    if let Some((rx, short)) = rx {
        let mut all: Vec<_> = rx.try_iter().collect();
        // what's still on its way ends once the last thread has let go of its end
        while let (true, Ok(e)) = (short, rx.recv_timeout(std::time::Duration::from_secs(10))) {
            all.push(e);
        }
        vec![all.iter().map(|e| bson::to_document(e).unwrap()).collect()]
    } else {
        #[cfg(feature = "mongo")]
        {
            let s = server();
            let mut st = s.store.lock().unwrap();
            let key = format!("logdb.{coll}");
            let b = st.batches.remove(&key).unwrap_or_default();
            if st.created.get(&key) != Some(&1) {
                bad.push(format!("collection {key} was created {:?} times", st.created.get(&key)));
            }
            if !st.batches.is_empty() {
                bad.push(format!("entries in {:?}", st.batches.keys().collect::<Vec<_>>()));
            }
            bad.extend(st.other.drain(..).map(|c| format!("unexpected command {c}")));
            b
        }
        #[cfg(not(feature = "mongo"))]
        vec![]
    }
}

fn one(args: &Args, idx: u64) -> bool {
    let mongo = cfg!(feature = "mongo") && args.suite.ends_with("mongo");
    let mut r = Rng::new(mix2(mix2(args.seed, 0xC16), idx));
    let cfg = gen::Cfg {
        arb: 0,
        peeks: *r.pick(&[0, 2, 4]),
        cut: *r.pick(&[0, 0, 30]),
        fail: *r.pick(&[0, 0, 1]),
        closing: 60,
        legacy: 30,
        gens: 30,
        sinks: 20,
        bcast: 15,
        pcu: 10,
        pmu: if mongo { 30 } else { 0 },
        dram: if mongo { 8 } else { 0 },
        ..gen::base()
    };
    let p = gen::walk(&mut r, &cfg);
    let m = model::run_limited(&p, 500_000);
    if m.overflow || m.deadlock || (m.arbs > 0 && (m.racy_close || m.max_tick > 3000)) {
        report::with(|r| r.count("rejected_programs", 1));
        return true;
    }
    let kind = r.below(3) as u8;
    *FILTER.lock().unwrap() = (kind, r.u64());
    let fseed = FILTER.lock().unwrap().1;
    let mode = r.below(pert::MODES);
    let coll = format!("c{idx}");
    let (options, rx, direct) = outlet(&mut r, mongo, &coll);
    *SETUP.lock().unwrap() = Some(Arc::new(Setup {
        direct,
        base: std::time::Instant::now(),
        seed: r.u64(),
        options: Mutex::new(options),
    }));
    watch::begin(json!({"suite": args.suite, "seed": args.seed, "case": idx, "perturbation": mode}).to_string());
    let o = Opts::new(false, mode, r.u64());
    let out = exec::run(&p, o);
    // what has arrived by the time the run has returned
    *SETUP.lock().unwrap() = None;
    let mut bad = vec![];
    let batches = arrived(rx, &coll, &mut bad);
    watch::end();
    if let Some(e) = out.run_panicked.as_ref().or(out.init_error.as_ref()) {
        bad.push(format!("the run did not complete: {e}"));
    }
    let mut st = Stats::default();
    if bad.is_empty() {
        bad = check(&p, &out, &batches, !mongo, &mut st);
        if args.suite == "stalls" {
            bad.clear()
        }
    }
    let hash = nets::shape(&p);
    report::with(|rep| {
        rep.evaluations += 1;
        if st.entries > 0 {
            rep.hashes.insert(mix2(mix2(hash, fseed), kind as u64));
        }
        rep.distinct("interleavings", out.order);
        rep.count("entries_recorded", st.entries);
        rep.count("user_events_expected", st.user);
        rep.count("library_events_expected", st.library);
        rep.count("events_filtered_out", st.filtered);
        rep.count("callbacks_skipped", st.callbacks_skipped);
        rep.count("batches", st.batches);
        rep.count("contexts", st.contexts);
        rep.count(["filter_everything", "filter_blanket", "filter_per_context"][kind as usize], 1);
        rep.max("batches", st.batches);
        rep.sample(json!({"program": nets::describe(&p, None)["nodes"].to_string().chars().take(600).collect::<String>(), "filter": kind,
            "first entries": batches.iter().flatten().take(4).map(|d| format!("{d}")).collect::<Vec<_>>()}));
        if !bad.is_empty() {
            let d = json!({"complaints": bad.iter().take(6).collect::<Vec<_>>(), "program": nets::describe(&p, None), "filter": format!("{kind} {fseed}")});
            rep.violation(idx, bad[0].clone(), d);
        }
    });
    if args.verbose {
        for b in &bad {
            eprintln!("{b}");
        }
    }
    let _ = oracle::imp_name;
    bad.is_empty()
}

// ---------------------------------------------------------------- callbacks that do more than build an event

#[dam::dam_macros::context_macro]
struct Odd {
    steps: Vec<(u64, OddStep)>,
    setup: Arc<Setup>,
    out: Sender<usize>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum OddStep {
    Plain,
    Callback,
    /// the callback logs too
    Nested,
    Panic,
}

impl Context for Odd {
    fn run(&mut self) {
        let t = &self.context_info.time;
        if let Some(snd) = &self.setup.direct {
            dam::logging::initialize_log(LogInterface::new(self.id(), snd.clone(), self.setup.base, filter_for(self.id()), Time::new(0)));
        }
        for (i, (n, s)) in self.steps.iter().enumerate() {
            pert::op();
            t.incr_cycles(*n);
            let seq = i as u32;
            match s {
                OddStep::Plain => log_event(&EvD { seq }).unwrap(),
                OddStep::Callback => log_event_cb::<EvD, _>(|| EvD { seq }).unwrap(),
                OddStep::Nested => log_event_cb::<EvD, _>(|| {
                    log_event(&EvA {
                        seq: i as i64,
                        note: "inner".into(),
                    })
                    .unwrap();
                    EvD { seq }
                })
                .unwrap(),
                OddStep::Panic => log_event_cb::<EvD, _>(|| -> EvD { panic!("panic of node {seq}") }).unwrap(),
            }
        }
        self.out.enqueue(t, ChannelElement::new(t.tick() + 1, 1)).unwrap();
    }
}

fn odd(args: &Args, idx: u64) -> bool {
    let mut r = Rng::new(mix2(mix2(args.seed, 0x0DD), idx));
    let mongo = cfg!(feature = "mongo") && args.suite.ends_with("mongo");
    let kind = r.below(3) as u8;
    *FILTER.lock().unwrap() = (kind, r.u64());
    let (options, rx, direct) = outlet(&mut r, mongo, &format!("c{idx}"));
    let setup = Arc::new(Setup {
        direct,
        base: std::time::Instant::now(),
        seed: 0,
        options: Mutex::new(None),
    });
    let n = r.us(3) + 1;
    let mut b = ProgramBuilder::default();
    let mut exp = vec![];
    for _ in 0..n {
        let (s, rcv) = b.bounded::<usize>(1);
        let mut steps = vec![];
        for _ in 0..r.range(1, 6) {
            let k = *r.pick(&[OddStep::Plain, OddStep::Callback, OddStep::Nested, OddStep::Nested, OddStep::Panic]);
            steps.push((r.below(4), k));
        }
        let c = Odd {
            steps: steps.clone(),
            setup: setup.clone(),
            out: s,
            context_info: Default::default(),
        };
        c.out.attach_sender(&c);
        let f = filter_for(c.id());
        let (a, d) = (admits(&f, "EvA"), admits(&f, EvD::NAME));
        let mut want = vec![];
        let mut t = 0;
        let mut fails = false;
        for (i, (n, k)) in steps.iter().enumerate() {
            t += n;
            if *k == OddStep::Panic && d {
                fails = true;
                break;
            }
            if *k == OddStep::Nested && d && a {
                want.push(("EvA".to_string(), i as i64, t));
            }
            if *k != OddStep::Panic && d {
                want.push((EvD::NAME.to_string(), i as i64, t));
            }
        }
        let finish = admits(&f, "TimeEvent").then_some(t);
        exp.push((c.id().id as i64, want, fails, finish));
        b.add_child(c);
        b.add_child(ConsumerContext::new(rcv));
    }
    pert::configure(r.below(pert::MODES), r.u64(), n);
    watch::begin(json!({"suite": args.suite, "seed": args.seed, "case": idx, "callbacks": format!("{exp:?}")}).to_string());
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let x = b.initialize(Default::default()).unwrap().run(options.unwrap_or_default());
        x.run_failures(|f| f.iter().map(|f| f.to_string()).collect::<Vec<_>>())
    }));
    drop(setup);
    let mut bad = vec![];
    let batches = arrived(rx, &format!("c{idx}"), &mut bad);
    watch::end();
    pert::configure(0, 0, 1);
    match res {
        Err(_) => bad.push(format!("the run panicked: {:?}", exec::take_panics())),
        Ok(fs) => {
            for (id, _, fails, _) in &exp {
                let k = fs.iter().filter(|f| f.starts_with(&format!("Simulation of {id} "))).count();
                if k != *fails as usize {
                    bad.push(format!("context {id} failed: {fails}, but the failures are {fs:?}"));
                }
            }
        }
    }
    let es: Vec<Entry> = batches.iter().flatten().filter_map(entry).collect();
    for (id, want, _, finish) in &exp {
        let mut got: Vec<_> = es
            .iter()
            .filter(|e| e.context == *id && (e.ty == "EvA" || e.ty == EvD::NAME))
            .map(|e| (e.ty.clone(), num(e.data.as_document().and_then(|d| d.get("seq"))).unwrap_or(-1), e.tick))
            .collect();
        let mut want = want.clone();
        if batches.len() > 1 {
            got.sort();
            want.sort();
        }
        if got != want {
            bad.push(format!("context {id} logged {want:?}, recorded {got:?}"));
        }
        let fin: Vec<u64> = es.iter().filter(|e| e.context == *id && e.ty == "TimeEvent").map(|e| e.tick).collect();
        if fin.len() != finish.is_some() as usize || fin.first().is_some_and(|t| finish.is_some_and(|f| *t < f)) {
            bad.push(format!("context {id} ended no earlier than {finish:?}, recorded ends {fin:?}"));
        }
    }
    report::with(|rep| {
        rep.evaluations += 1;
        rep.hashes.insert(mix2(args.seed ^ 0x0DD, idx));
        rep.count("callback_programs", 1);
        rep.count("entries_recorded", es.len() as u64);
        if !bad.is_empty() {
            rep.violation(idx, bad[0].clone(), json!({"complaints": bad, "contexts": format!("{exp:?}"), "filter": kind}));
        }
    });
    bad.is_empty()
}

// ---------------------------------------------------------------- far more events than anybody takes at once

fn flood(args: &Args, idx: u64) -> bool {
    let mut r = Rng::new(mix2(mix2(args.seed, 0xF100D), idx));
    let mongo = cfg!(feature = "mongo") && args.suite.ends_with("mongo");
    let fseed = r.u64();
    let kind = if r.chance(1, 3) { 2 } else { 0 };
    *FILTER.lock().unwrap() = (kind, fseed);
    let (options, rx, direct) = outlet(&mut r, mongo, &format!("f{idx}"));
    let base = std::time::Instant::now();
    let n = r.us(6) + 1;
    let each = *r.pick(&[300, 3_000, if args.thorough { 60_000 } else { 12_000 }]) * 2 / (n + 1);
    let mut b = ProgramBuilder::default();
    let mut exp = vec![];
    for _ in 0..n {
        let mut c = dam::utility_contexts::FunctionContext::new();
        let id = c.id();
        let f = filter_for(id);
        let k = each + r.us(each + 1);
        let direct = direct.clone();
        let step = r.range(0, 2);
        exp.push((id.id as i64, k, step, admits(&f, EvD::NAME), admits(&f, "EvC")));
        c.set_run(move |t| {
            if let Some(snd) = direct {
                dam::logging::initialize_log(LogInterface::new(id, snd, base, filter_for(id), Time::new(0)));
            }
            for seq in 0..k as u32 {
                pert::op();
                if seq % 5 == 4 {
                    log_event_cb::<EvC, _>(|| EvC::X { seq }).unwrap();
                } else {
                    log_event(&EvD { seq }).unwrap();
                }
                t.incr_cycles(step);
            }
        });
        b.add_child(c);
    }
    drop(direct);
    pert::configure(r.below(3), r.u64(), n);
    watch::begin(json!({"suite": args.suite, "seed": args.seed, "case": idx, "flood": format!("{exp:?}")}).to_string());
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| b.initialize(Default::default()).unwrap().run(options.unwrap_or_default()).passed()));
    let mut bad = vec![];
    let batches = arrived(rx, &format!("f{idx}"), &mut bad);
    watch::end();
    pert::configure(0, 0, 1);
    if res.as_ref().ok() != Some(&true) {
        bad.push(format!("the run gave {res:?} {:?}", exec::take_panics()));
    }
    let mut seen: HashMap<i64, HashMap<u32, (usize, u64)>> = HashMap::new();
    let mut total = 0u64;
    let mut last: HashMap<(usize, i64), u32> = HashMap::new();
    for (bi, e) in batches.iter().enumerate().flat_map(|(i, b)| b.iter().filter_map(entry).map(move |e| (i, e))) {
        let seq = match (e.ty.as_str(), e.data.as_document()) {
            ("EvC", Some(d)) => num(d.get_document("X").ok().and_then(|x| x.get("seq"))),
            (t, Some(d)) if t == EvD::NAME => num(d.get("seq")),
            _ => continue,
        };
        let Some(seq) = seq.map(|s| s as u32) else {
            bad.push(format!("{e:?}"));
            break;
        };
        total += 1;
        if (seq % 5 == 4) != (e.ty == "EvC") {
            bad.push(format!("{e:?} is not what was logged"));
        }
        if seen.entry(e.context).or_default().insert(seq, (bi, e.tick)).is_some() {
            bad.push(format!("{e:?} was recorded twice"));
            break;
        }
        // within a batch, in the order in which they were logged
        if last.insert((bi, e.context), seq).is_some_and(|s| s > seq) {
            bad.push(format!("{e:?} was recorded late"));
            break;
        }
    }
    for (id, k, step, d, c) in &exp {
        let empty = HashMap::new();
        let got = seen.get(id).unwrap_or(&empty);
        for seq in 0..*k as u32 {
            let want = if seq % 5 == 4 { *c } else { *d };
            match got.get(&seq) {
                Some((_, t)) if want && *t == seq as u64 * step => {}
                None if !want => {}
                x => {
                    bad.push(format!("event {seq} of context {id}, which its filter admits: {want}, was recorded as {x:?}; {} of {k} recorded", got.len()));
                    break;
                }
            }
        }
        if got.keys().any(|s| *s >= *k as u32) {
            bad.push(format!("context {id} logged {k} events, others were recorded for it"));
        }
    }
    report::with(|rep| {
        rep.evaluations += 1;
        rep.hashes.insert(mix2(args.seed ^ 0xF100D, idx));
        rep.count("floods", 1);
        rep.count("entries_recorded", total);
        rep.max("entries_of_a_run", total);
        rep.max("batches", batches.len() as u64);
        if !bad.is_empty() {
            rep.violation(idx, bad[0].clone(), json!({"complaints": bad.iter().take(6).collect::<Vec<_>>(), "contexts": format!("{exp:?}"), "filter": kind}));
        }
    });
    bad.is_empty()
}

/// filters are valid if they name registered event types only
fn registered(args: &Args) {
    let mut r = Rng::new(mix2(args.seed, args.worker));
    let known = dam::logging::registry::get_metrics_vec();
    let called = std::cell::Cell::new(false);
    // this thread has no logger
    let quiet = log_event(&EvD { seq: 0 }).is_ok()
        && log_event_cb::<EvD, _>(|| {
            called.set(true);
            EvD { seq: 0 }
        })
        .is_ok();
    report::with(|rep| {
        if NAMES.iter().any(|n| known.contains(n) == (*n == EvD::NAME)) {
            rep.violation(0, format!("the registered events are {known:?}"), json!({}));
        }
        if !quiet || called.get() {
            rep.violation(0, format!("without a logger, logging gave {quiet}, the callback was called: {}", called.get()), json!({}));
        }
        if LogFilter::AllowAll.check().is_err() {
            rep.violation(0, "a filter that admits everything is not valid", json!({}));
        }
    });
    let ok: Vec<&str> = NAMES.iter().copied().filter(|n| *n != EvD::NAME).collect();
    for _ in 0..200 {
        let mut names: HashSet<String> = ok.iter().filter(|_| r.chance(1, 2)).map(|s| s.to_string()).collect();
        let wrong: HashSet<String> = [EvD::NAME, "evA", "", "EvA ", "Finish"].iter().filter(|_| r.chance(1, 6)).map(|s| s.to_string()).collect();
        names.extend(wrong.iter().cloned());
        let got = match LogFilter::Some(names.clone()).check() {
            Ok(()) => HashSet::new(),
            Err(dam::logging::LogError::InvalidFilter(v)) => v.into_iter().collect(),
            Err(e) => [format!("{e}")].into_iter().collect(),
        };
        report::with(|rep| {
            rep.count("filters_checked", 1);
            if got != wrong {
                rep.violation(0, format!("of the event types {names:?}, {wrong:?} are not registered, reported: {got:?}"), json!({}));
            }
        });
    }
}

// ---------------------------------------------------------------- a database that refuses

/// a run must not return as if nothing had happened although part of its log is lost
#[cfg(feature = "mongo")]
fn refused(args: &Args, idx: u64) -> bool {
    let mut r = Rng::new(mix2(mix2(args.seed, 0xFA17), idx));
    *FILTER.lock().unwrap() = (0, 0);
    let coll = format!("r{idx}");
    let (options, _, _) = outlet(&mut r, true, &coll);
    let fault = match r.below(4) {
        0 => Fault::None,
        1 => Fault::Create,
        2 => Fault::Insert(r.below(6)),
        _ => Fault::Document(r.below(6)),
    };
    server().store.lock().unwrap().fault = fault;
    let n = r.us(4) + 1;
    let mut b = ProgramBuilder::default();
    let mut exp = vec![];
    for _ in 0..n {
        let mut c = dam::utility_contexts::FunctionContext::new();
        let k = *r.pick(&[20, 300, 2000]);
        let k = r.us(k) + 1;
        exp.push((c.id().id as i64, k));
        c.set_run(move |t| {
            for seq in 0..k as u32 {
                pert::op();
                // whoever logs may not care
                let _ = log_event(&EvD { seq });
                t.incr_cycles(1);
            }
        });
        b.add_child(c);
    }
    pert::configure(r.below(3), r.u64(), n);
    watch::begin(json!({"suite": args.suite, "seed": args.seed, "case": idx, "refused": format!("{fault:?}")}).to_string());
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| b.initialize(Default::default()).unwrap().run(options.unwrap_or_default()).passed()));
    watch::end();
    pert::configure(0, 0, 1);
    exec::take_panics();
    let (left, batches) = {
        let mut st = server().store.lock().unwrap();
        st.created.remove(&format!("logdb.{coll}"));
        (std::mem::take(&mut st.fault), st.batches.remove(&format!("logdb.{coll}")).unwrap_or_default())
    };
    let fired = left != fault && left == Fault::None || fault == Fault::Create;
    let mut bad = vec![];
    let mut seen: HashMap<i64, HashSet<i64>> = HashMap::new();
    for e in batches.iter().flatten().filter_map(entry).filter(|e| e.ty == EvD::NAME) {
        if let Some(seq) = num(e.data.as_document().and_then(|d| d.get("seq"))) {
            seen.entry(e.context).or_default().insert(seq);
        }
    }
    let lost: usize = exp.iter().map(|(id, k)| k - seen.get(id).map_or(0, |s| s.len()).min(*k)).sum();
    match res {
        Ok(passed) if lost > 0 => bad.push(format!("the database refused ({fault:?}) and {lost} entries are lost, yet the run returned (passed: {passed})")),
        Err(_) if !fired => bad.push("the run panicked, though the database refused nothing".into()),
        Ok(false) => bad.push("contexts failed that only logged".into()),
        _ => {}
    }
    report::with(|rep| {
        rep.evaluations += 1;
        rep.hashes.insert(mix2(args.seed ^ 0xFA17, idx));
        rep.count("runs_with_a_refusing_database", fired as u64);
        rep.count("runs_that_lost_entries_and_said_so", (lost > 0 && res.is_err()) as u64);
        if !bad.is_empty() {
            rep.violation(idx, bad[0].clone(), json!({"complaints": bad, "events": exp, "fault": format!("{fault:?}")}));
        }
    });
    bad.is_empty()
}

pub fn suite(args: &Args) {
    if args.suite != "stalls" && args.suite != "refused" {
        registered(args);
    }
    #[cfg(feature = "mongo")]
    if args.suite == "refused" {
        return crate::cases(args, |idx| refused(args, idx));
    }
    if args.suite.starts_with("flood") {
        crate::cases(args, |idx| flood(args, idx));
        return;
    }
    crate::cases(args, |idx| if idx % 16 == 15 && args.suite != "stalls" { odd(args, idx) } else { one(args, idx) });
}
