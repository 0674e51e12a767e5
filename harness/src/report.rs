//! What a worker tells the driver.

use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashSet};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Args {
    pub suite: String,
    pub seed: u64,
    pub worker: u64,
    pub of: u64,
    pub start: u64,
    pub budget: Duration,
    /// a single case
    pub case: Option<u64>,
    pub thorough: bool,
    pub port: u16,
    pub verbose: bool,
    pub max_cases: u64,
}

pub struct Report {
    pub evaluations: u64,
    pub hashes: HashSet<u64>,
    pub extra_hashes: BTreeMap<String, HashSet<u64>>,
    pub counts: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub violations: Vec<Value>,
    pub other: BTreeMap<String, u64>,
    pub known: Vec<Value>,
    pub notes: Vec<String>,
    pub next: u64,
    t0: Instant,
}

static CURRENT: Mutex<Option<Report>> = Mutex::new(None);

impl Report {
    pub fn new() -> Self {
        Report {
            evaluations: 0,
            hashes: HashSet::new(),
            extra_hashes: BTreeMap::new(),
            counts: BTreeMap::new(),
            samples: vec![],
            violations: vec![],
            other: BTreeMap::new(),
            known: vec![],
            notes: vec![],
            next: 0,
            t0: Instant::now(),
        }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counts.entry(k.to_string()).or_default() += n;
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.counts.entry(format!("max_{k}")).or_default();
        *e = (*e).max(n);
    }
    pub fn distinct(&mut self, k: &str, h: u64) {
        self.extra_hashes.entry(k.to_string()).or_default().insert(h);
    }
    pub fn sample(&mut self, v: Value) {
        if self.samples.len() < 3 {
            self.samples.push(v)
        }
    }
    pub fn violation(&mut self, case: u64, what: impl Into<String>, detail: Value) {
        if self.violations.len() < 8 {
            self.violations.push(json!({"case": case, "what": what.into(), "detail": detail}));
        }
    }
    pub fn json(&self) -> Value {
        let mut m = Map::new();
        m.insert("evaluations".into(), json!(self.evaluations));
        m.insert("hashes".into(), json!(self.hashes.iter().map(|h| format!("{h:x}")).collect::<Vec<_>>()));
        let mut x = Map::new();
        for (k, v) in &self.extra_hashes {
            x.insert(k.clone(), json!(v.iter().map(|h| format!("{h:x}")).collect::<Vec<_>>()));
        }
        m.insert("extra".into(), Value::Object(x));
        m.insert("counts".into(), json!(self.counts));
        m.insert("samples".into(), json!(self.samples));
        m.insert("violations".into(), json!(self.violations));
        m.insert("other".into(), json!(self.other));
        m.insert("known".into(), json!(self.known));
        m.insert("notes".into(), json!(self.notes));
        m.insert("next".into(), json!(self.next));
        m.insert("ms".into(), json!(self.t0.elapsed().as_millis() as u64));
        Value::Object(m)
    }
}

/// the report of this process; `with` must not be held while a run is in progress
pub fn with<R>(f: impl FnOnce(&mut Report) -> R) -> R {
    let mut g = CURRENT.lock().unwrap_or_else(|e| e.into_inner());
    f(g.get_or_insert_with(Report::new))
}

pub fn finish() {
    let v = with(|r| r.json());
    println!("REPORT {v}");
}

/// called by the watchdog
pub fn stuck(kind: i32, what: &str) {
    let name = match kind {
        crate::watch::STUCK => "stuck",
        crate::watch::SPINNING => "spinning",
        _ => "timeout",
    };
    let case: Value = serde_json::from_str(what).unwrap_or(json!(what));
    with(|r| {
        let mut v = r.json();
        v["hang"] = json!({"kind": name, "run": case});
        println!("REPORT {v}");
    });
}
