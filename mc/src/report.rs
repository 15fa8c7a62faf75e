//! Counting, violations, known findings and the evidence file.
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub struct Ctx {
    pub id: String,
    pub thorough: bool,
    /// the thorough command of a check whose quick command already explores as much as others do thoroughly
    pub deep: bool,
    pub seed: i64,
    pub start: Instant,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    extra: Mutex<BTreeMap<String, u64>>,
    samples: Mutex<Vec<Value>>,
    first: AtomicU64,
    viol: Mutex<BTreeMap<String, (u64, Vec<Value>)>>,
    notes: Mutex<BTreeMap<String, Value>>,
    assumptions: Mutex<Vec<String>>,
}

#[derive(Default, Clone)]
pub struct Tally {
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub extra: BTreeMap<&'static str, u64>,
}
impl Tally {
    pub fn bump(&mut self, k: &'static str) {
        *self.extra.entry(k).or_default() += 1;
    }
}

/// checks with small spaces
const CHEAP: &[&str] = &["C08", "C09", "C12", "C14", "C22", "C23", "C25"];

impl Ctx {
    pub fn new(id: &str, thorough: bool) -> Ctx {
        Ctx {
            id: id.into(),
            thorough: thorough || CHEAP.contains(&id),
            deep: thorough,
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0),
            start: Instant::now(),
            states: 0.into(),
            transitions: 0.into(),
            traces: 0.into(),
            extra: Default::default(),
            samples: Default::default(),
            first: 0.into(),
            viol: Default::default(),
            notes: Default::default(),
            assumptions: Default::default(),
        }
    }
    pub fn add(&self, t: &Tally) {
        self.states.fetch_add(t.states, Ordering::Relaxed);
        self.transitions.fetch_add(t.transitions, Ordering::Relaxed);
        self.traces.fetch_add(t.traces, Ordering::Relaxed);
        let mut e = self.extra.lock().unwrap();
        for (k, v) in &t.extra {
            *e.entry(k.to_string()).or_default() += v;
        }
    }
    pub fn note(&self, k: &str, v: Value) {
        self.notes.lock().unwrap().insert(k.into(), v);
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.into());
    }
    pub fn sample(&self, v: Value) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 12 {
            s.push(v);
        }
    }
    /// `class` names what went wrong, `case` is the complete failing case.
    pub fn violation(&self, class: &str, case: Value) {
        let _ = self.first.compare_exchange(0, self.start.elapsed().as_secs() + 1, Ordering::Relaxed, Ordering::Relaxed);
        let mut g = self.viol.lock().unwrap();
        let e = g.entry(class.to_string()).or_default();
        e.0 += 1;
        if e.1.len() < 5 {
            e.1.push(case);
        }
    }
    /// enough has been seen: many violations, or none new to wait for much longer
    pub fn violated(&self) -> bool {
        let at = self.first.load(Ordering::Relaxed);
        if at == 0 {
            return false;
        }
        self.start.elapsed().as_secs() + 1 > at + 15 || self.viol.lock().unwrap().values().any(|v| v.0 > 2000)
    }
    /// Number of known findings is read from /verif/known_findings.json: entries
    /// {"property","class","case"}: only exactly that case is tolerated.
    pub fn finish(&self, root: &str) -> i32 {
        let known: Value = std::fs::read_to_string(format!("{}/known_findings.json", root))
            .ok()
            .and_then(|s| serde_json::from_str(&s).ok())
            .unwrap_or(json!({"findings": []}));
        let known: Vec<Value> = known["findings"].as_array().cloned().unwrap_or_default();
        let viol = self.viol.lock().unwrap().clone();
        let mut rc = 0;
        let mut nviol = 0u64;
        let dir = format!("{}/replays", root);
        let _ = std::fs::create_dir_all(&dir);
        for (n, (class, (count, cases))) in viol.iter().enumerate() {
            let listed = known.iter().find(|k| k["property"] == json!(self.id) && k["class"] == json!(class));
            if let Some(k) = listed {
                let tolerated: Vec<Value> = k["cases"].as_array().cloned().unwrap_or_default();
                if *count as usize <= cases.len() && cases.iter().all(|c| tolerated.contains(c)) {
                    println!("KNOWN-FINDING: property={} {}", self.id, class);
                    continue;
                }
            }
            nviol += count;
            rc = 1;
            let path = format!("{}/{}-{}.json", dir, self.id, n);
            let doc = json!({"property": self.id, "what": class, "count": count, "cases": cases,
                "reproduce": format!("bash /verif/check.sh {} {}", self.id, if self.deep {"thorough"} else {"quick"})});
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap());
            if n < 10 {
                println!("VIOLATION property={} replay={}", self.id, path);
                println!("  {} ({} cases), e.g. {}", class, count, cases[0]);
            }
        }
        let mut cov = serde_json::Map::new();
        cov.insert("states".into(), json!(self.states.load(Ordering::Relaxed)));
        cov.insert("transitions".into(), json!(self.transitions.load(Ordering::Relaxed)));
        cov.insert("traces_validated_against_impl".into(), json!(self.traces.load(Ordering::Relaxed)));
        cov.insert("samples".into(), json!(self.samples.lock().unwrap().clone()));
        cov.insert("exhaustive".into(), json!(true));
        for (k, v) in self.extra.lock().unwrap().clone() {
            cov.insert(k, json!(v));
        }
        for (k, v) in self.notes.lock().unwrap().clone() {
            cov.insert(k, v);
        }
        let ev = json!({
            "property": self.id,
            "tier": if self.deep {"thorough"} else {"quick"},
            "seed": self.seed,
            "level": "model_checking",
            "coverage": Value::Object(cov),
            "assumptions": self.assumptions.lock().unwrap().clone(),
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": nviol,
        });
        let _ = std::fs::create_dir_all(format!("{}/evidence", root));
        let p = format!("{}/evidence/{}.json", root, self.id);
        if let Err(e) = std::fs::write(&p, serde_json::to_string_pretty(&ev).unwrap()) {
            eprintln!("cannot write {}: {}", p, e);
            return 2;
        }
        println!(
            "{}: {} states, {} transitions, {} traces validated, {:.1}s, {}",
            self.id,
            ev["coverage"]["states"],
            ev["coverage"]["transitions"],
            ev["coverage"]["traces_validated_against_impl"],
            ev["wall_s"].as_f64().unwrap(),
            if rc == 0 { "property holds on everything explored" } else { "VIOLATED" }
        );
        rc
    }
}

/// Runs `f(i, tally)` for every i < n on all cores; every index is run exactly once.
pub fn par<F: Fn(usize, &mut Tally) + Sync>(ctx: &Ctx, n: usize, f: F) {
    let next = AtomicUsize::new(0);
    let nt = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(8).min(16);
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..nt)
            .map(|_| {
                s.spawn(|| {
                    let mut t = Tally::default();
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= n || ctx.violated() {
                            break;
                        }
                        f(i, &mut t);
                    }
                    ctx.add(&t);
                })
            })
            .collect();
        for h in hs {
            if h.join().is_err() {
                eprintln!("internal error: a worker of the check panicked");
                std::process::exit(2);
            }
        }
    });
}
