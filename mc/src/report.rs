//! Bookkeeping: exploration counters, violations, known findings, evidence.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::Instant;

use serde_json::{json, Value};

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

static ANY_PANIC: Mutex<String> = Mutex::new(String::new());
pub fn any_panic() -> String {
    ANY_PANIC.lock().unwrap().clone()
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", short(l.file()), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let msg: String = msg.lines().next().unwrap_or("").chars().take(160).collect();
        let text = format!("panic at {loc}: {msg}");
        if std::env::var("MC_PANICS").is_ok() {
            eprintln!("{text}");
        }
        *ANY_PANIC.lock().unwrap() = text.clone();
        LAST_PANIC.with(|p| *p.borrow_mut() = text);
    }));
}

fn short(f: &str) -> String {
    let f = f.strip_prefix("/repo/").unwrap_or(f);
    match f.find("/registry/src/") {
        Some(i) => f[i + 14..].splitn(2, '/').nth(1).unwrap_or(f).to_string(),
        None => match f.find("/library/") {
            Some(i) if f.starts_with("/rustc") => f[i + 1..].to_string(),
            _ => f.to_string(),
        },
    }
}

/// Run code under test; a panic becomes an `Err` beginning with "panic at".
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let _watch = Watch::start();
    guard_long(f)
}
/// The same for what may take long.
pub fn guard_long<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

/// When the code under test was last entered, by thread: a call that never ends is noticed.
static SLOTS: [AtomicU64; 256] = [const { AtomicU64::new(0) }; 256];
static NSLOT: AtomicU64 = AtomicU64::new(0);
static EPOCH: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
thread_local! {
    static SLOT: usize = NSLOT.fetch_add(1, Relaxed) as usize;
    static DEPTH: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
struct Watch;
impl Watch {
    fn start() -> Watch {
        if DEPTH.with(|d| d.replace(d.get() + 1)) == 0 {
            let now = EPOCH.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1;
            SLOT.with(|s| SLOTS.get(*s).map(|x| x.store(now, Relaxed)));
        }
        Watch
    }
}
impl Drop for Watch {
    fn drop(&mut self) {
        if DEPTH.with(|d| d.replace(d.get() - 1)) == 1 {
            SLOT.with(|s| SLOTS.get(*s).map(|x| x.store(0, Relaxed)));
        }
    }
}
/// Report a violation when a call of the code under test does not end.
fn watch(prop: String, verif: String, limit_s: u64) {
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_secs(5));
        let now = EPOCH.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1;
        if SLOTS.iter().any(|s| matches!(s.load(Relaxed), t if t > 0 && now > t + limit_s * 1000)) {
            let replay = format!("{verif}/evidence/replay-{prop}.json");
            let m = format!("a call has not ended after {limit_s} seconds");
            std::fs::write(&replay, json!([{"message": m, "replay": format!("{verif}/check.sh {prop} quick")}]).to_string()).ok();
            println!("  {m}");
            println!("VIOLATION property={prop} replay={replay}");
            std::process::exit(1);
        }
    });
}

/// Run fallible code under test, panics and errors both as strings.
pub fn attempt<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    guard(f).and_then(|r| r)
}

pub struct Viol {
    pub key: String,
    pub msg: String,
}

pub struct Known {
    pub id: String,
    pub keys: Vec<String>,
    pub msgs: Vec<String>,
    pub what: String,
    pub hit: AtomicBool,
}

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub only: Option<String>,
    pub start: Instant,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub refused: Mutex<BTreeMap<String, u64>>,
    pub viols: Mutex<Vec<Viol>>,
    pub nviol: AtomicU64,
    /// executions of the real code whose outcome was found equal to the model's
    pub held: AtomicU64,
    pub known: Vec<Known>,
    pub bounds: Mutex<Vec<String>>,
    pub tags: Mutex<BTreeMap<String, u64>>,
    pub truncated: AtomicBool,
    pub samples: Mutex<Vec<String>>,
    pub nsample: AtomicU64,
}

fn glob(p: &str, s: &str) -> bool {
    let parts: Vec<&str> = p.split('*').collect();
    if parts.len() == 1 {
        return p == s;
    }
    let mut rest = s;
    for (i, part) in parts.iter().enumerate() {
        if i == 0 {
            match rest.strip_prefix(part) {
                Some(r) => rest = r,
                None => return false,
            }
        } else if i == parts.len() - 1 {
            return rest.ends_with(part);
        } else {
            match rest.find(part) {
                Some(k) => rest = &rest[k + part.len()..],
                None => return false,
            }
        }
    }
    true
}

impl Ctx {
    pub fn new(prop: &str, thorough: bool, only: Option<String>, known_file: &str) -> Ctx {
        let verif = known_file.trim_end_matches("/known_findings.json").to_string();
        watch(prop.into(), verif, if thorough { 3000 } else { 240 });
        let mut known = vec![];
        if let Ok(t) = std::fs::read_to_string(known_file) {
            let v: Value = serde_json::from_str(&t).expect("known findings file");
            for f in v["findings"].as_array().unwrap_or(&vec![]) {
                if f["property"] != prop {
                    continue;
                }
                let strs = |k: &str| -> Vec<String> {
                    f[k].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default()
                };
                known.push(Known {
                    id: f["id"].as_str().unwrap().into(),
                    keys: strs("keys"),
                    msgs: strs("messages"),
                    what: f["what"].as_str().unwrap().into(),
                    hit: AtomicBool::new(false),
                });
            }
        }
        Ctx {
            prop: prop.into(),
            thorough,
            only,
            start: Instant::now(),
            states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            refused: Mutex::new(BTreeMap::new()),
            viols: Mutex::new(vec![]),
            nviol: AtomicU64::new(0),
            held: AtomicU64::new(0),
            known,
            bounds: Mutex::new(vec![]),
            tags: Mutex::new(BTreeMap::new()),
            truncated: AtomicBool::new(false),
            samples: Mutex::new(vec![]),
            nsample: AtomicU64::new(0),
        }
    }
    pub fn state(&self) {
        self.states.fetch_add(1, Relaxed);
    }
    pub fn step(&self) {
        self.transitions.fetch_add(1, Relaxed);
    }
    pub fn steps(&self, n: u64) {
        self.transitions.fetch_add(n, Relaxed);
    }
    pub fn bound(&self, s: impl Into<String>) {
        if std::env::var("MC_TIMES").is_ok() {
            eprintln!("{:.1}s, {} transitions so far", self.start.elapsed().as_secs_f64(), self.transitions.load(Relaxed));
        }
        self.bounds.lock().unwrap().push(s.into());
    }
    pub fn tag(&self, s: &str) {
        *self.tags.lock().unwrap().entry(s.into()).or_default() += 1;
    }
    /// Keep a few of the explored cases (the 1st, 2nd, 4th, 8th, ...) for the evidence file.
    pub fn sample(&self, f: impl FnOnce() -> String) {
        let n = self.nsample.fetch_add(1, Relaxed) + 1;
        if n.is_power_of_two() {
            self.samples.lock().unwrap().push(f());
        }
    }
    pub fn refuse(&self, what: &str) {
        *self.refused.lock().unwrap().entry(what.into()).or_default() += 1;
    }
    /// One check of one execution. `key` identifies the input/call site/history.
    pub fn check(&self, key: impl FnOnce() -> String, f: impl FnOnce() -> Result<(), String>) {
        self.step();
        if let Some(o) = &self.only {
            let k = key();
            if !k.contains(o.as_str()) {
                return;
            }
            match attempt(f) {
                Ok(()) => {}
                Err(m) => self.fail(k, m),
            }
            return;
        }
        match attempt(f) {
            Ok(()) => {
                self.held.fetch_add(1, Relaxed);
            }
            Err(m) => self.fail(key(), m),
        }
    }
    pub fn fail(&self, key: String, msg: String) {
        let msg = msg.lines().next().unwrap_or("").to_string();
        for k in &self.known {
            if k.keys.iter().any(|p| glob(p, &key)) && (k.msgs.is_empty() || k.msgs.iter().any(|p| glob(p, &msg))) {
                k.hit.store(true, Relaxed);
                return;
            }
        }
        let n = self.nviol.fetch_add(1, Relaxed);
        if n < 200_000 {
            self.viols.lock().unwrap().push(Viol { key, msg });
        }
    }

    pub fn finish(self, verif: &str) -> i32 {
        let ev_dir = format!("{verif}/evidence");
        std::fs::create_dir_all(&ev_dir).ok();
        let mut viols = self.viols.into_inner().unwrap();
        viols.sort_by(|a, b| (a.key.len(), &a.key).cmp(&(b.key.len(), &b.key)));
        let nv = self.nviol.load(Relaxed);
        let mut groups: BTreeMap<String, (u64, String, String)> = BTreeMap::new();
        for v in &viols {
            let g = group_of(&v.key, &v.msg);
            let e = groups.entry(g).or_insert((0, v.key.clone(), v.msg.clone()));
            e.0 += 1;
        }
        let replay = format!("{ev_dir}/replay-{}.json", self.prop);
        if nv > 0 {
            let list: Vec<Value> = groups
                .iter()
                .map(|(g, (n, k, m))| json!({"group": g, "count": n, "first_key": k, "message": m,
                    "replay": format!("{verif}/check.sh {} {} --only '{}'", self.prop, if self.thorough {"thorough"} else {"quick"}, k)}))
                .collect();
            std::fs::write(&replay, serde_json::to_string_pretty(&list).unwrap()).unwrap();
            for (_, (n, k, m)) in groups.iter().take(60) {
                println!("  [{n}x] {k}\n       {m}");
            }
        } else {
            std::fs::remove_file(&replay).ok();
        }
        let mut assumptions = vec![
            "values outside the stated alphabets and sizes beyond the stated bounds are not covered".to_string(),
        ];
        for k in &self.known {
            if k.hit.load(Relaxed) {
                println!("KNOWN-FINDING: property={} {} ({})", self.prop, k.what, k.id);
                assumptions.push(format!("known finding {} is excluded", k.id));
            }
        }
        let trans = self.transitions.load(Relaxed);
        let ev = json!({
            "property": self.prop,
            "tier": if self.thorough {"thorough"} else {"quick"},
            "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
            "level": "model_checking",
            "coverage": {
                "states": self.states.load(Relaxed),
                "transitions": trans,
                "traces_validated_against_impl": self.held.load(Relaxed),
                "samples": *self.samples.lock().unwrap(),
                "exhaustive": !self.truncated.load(Relaxed),
                "bounds": *self.bounds.lock().unwrap(),
                "per_kind": *self.tags.lock().unwrap(),
                "refused_by_implementation": *self.refused.lock().unwrap(),
            },
            "assumptions": assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": nv,
        });
        if self.only.is_none() {
            std::fs::write(format!("{ev_dir}/{}.json", self.prop), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
        }
        println!(
            "{}: states={} transitions={} violations={} groups={} wall={:.1}s",
            self.prop,
            self.states.load(Relaxed),
            trans,
            nv,
            groups.len(),
            self.start.elapsed().as_secs_f64()
        );
        if nv > 0 {
            println!("VIOLATION property={} replay={}", self.prop, replay);
            1
        } else {
            0
        }
    }
}

fn group_of(key: &str, msg: &str) -> String {
    let mut it = key.split('|');
    let a = it.next().unwrap_or("");
    let b = it.next().unwrap_or("");
    let b = b.split(|c| c == '(').next().unwrap_or("");
    let m: String = msg.chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).collect();
    let mut m2 = String::new();
    for c in m.chars() {
        if c == '#' && m2.ends_with('#') {
            continue;
        }
        m2.push(c);
    }
    // values differ per input: cut at the first value
    let m2 = m2.split(" is ").next().unwrap_or("").to_string();
    format!("{a}|{b}|{}", m2.chars().take(110).collect::<String>())
}
