//! The exploration engine.
//!
//! A check is a list of *items* (independent parts of the bounded space: one type, one value
//! shape, one prefix of a grammar ...). Each item enumerates its part of the space exhaustively
//! and deterministically, calling `Rec::case` once per execution of the real code. Items are
//! spread over worker threads; (item number, case number) identifies an execution, so any
//! violation can be replayed by re-enumerating and evaluating only that one.
//!
//! The exploration runs in a child process. Panics are caught per case; an abort (failed
//! allocation, stack overflow) or a hang of the child is attributed to the case that was in flight
//! by re-running the in-flight cases one at a time.
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
    pub fn pick<T>(self, q: T, t: T) -> T {
        match self {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
}

/// What a case found: a short label of the outcome class (for vacuity statistics).
pub type Verdict = Result<&'static str, String>;

pub struct Item {
    pub name: String,
    pub run: Box<dyn Fn(&mut Rec) + Send + Sync>,
}

pub fn item(name: impl Into<String>, run: impl Fn(&mut Rec) + Send + Sync + 'static) -> Item {
    Item { name: name.into(), run: Box::new(run) }
}

pub struct Spec {
    pub id: &'static str,
    /// Bounds, in words, for the evidence file.
    pub bounds: &'static str,
    pub model: &'static str,
    pub assumptions: &'static [&'static str],
    pub items: fn(Tier) -> Vec<Item>,
    /// Outcome labels that must all have been observed (vacuity guard).
    pub must_see: &'static [&'static str],
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub item: usize,
    pub item_name: String,
    pub case: u64,
    pub desc: String,
    pub msg: String,
}

#[derive(Default)]
pub struct Tally {
    /// Distinct cases, by a 64 bit hash of their full description.
    pub states: HashSet<u64>,
    /// Calls into the real code.
    pub transitions: u64,
    /// Executions of the real code compared with the model.
    pub traces: u64,
    pub outcomes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub notes: BTreeMap<String, u64>,
}

pub struct Rec {
    item: usize,
    item_name: String,
    next: u64,
    only: Option<u64>,
    only_file: Option<PathBuf>,
    slot: Option<(std::fs::File, u64)>,
    pub tier: Tier,
    pub t: Tally,
    stop: &'static AtomicBool,
}

static STOP: AtomicBool = AtomicBool::new(false);
const MAX_VIOLATIONS_PER_ITEM: usize = 40;
/// How long the exploration goes on after the first violation (to find simpler ones).
const AFTER_FIRST: Duration = Duration::from_secs(15);

/// The log of violations (so that none is lost should the worker be stopped later).
struct Log {
    file: std::fs::File,
    known: BTreeSet<String>,
    written: usize,
    first: Instant,
}
static LOG: Mutex<Option<Log>> = Mutex::new(None);

fn found(v: &Violation) {
    use std::io::Write;
    let mut g = LOG.lock().unwrap_or_else(|e| e.into_inner());
    let Some(l) = g.as_mut() else { return };
    if l.known.contains(&one_line(&v.desc)) {
        return;
    }
    if l.written == 0 {
        l.first = Instant::now();
    }
    if l.written < 500 {
        let _ = writeln!(l.file, "{}", violation_json(v));
    }
    l.written += 1;
    if l.first.elapsed() > AFTER_FIRST {
        STOP.store(true, Ordering::Relaxed);
    }
}
fn violation_json(v: &Violation) -> String {
    format!("{{\"item\":{},\"item_name\":{},\"case\":{},\"desc\":{},\"msg\":{}}}", v.item, js(&v.item_name), v.case, js(&v.desc), js(&v.msg))
}
fn violation_from(x: &serde_json::Value) -> Violation {
    Violation {
        item: x["item"].as_u64().unwrap_or(0) as usize,
        item_name: x["item_name"].as_str().unwrap_or("").into(),
        case: x["case"].as_u64().unwrap_or(0),
        desc: x["desc"].as_str().unwrap_or("").into(),
        msg: x["msg"].as_str().unwrap_or("").into(),
    }
}
/// Messages and descriptions are kept to a readable size; what is left out is replaced by a hash.
pub fn shorten(s: String) -> String {
    if s.len() <= 6000 {
        return s;
    }
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    let head: String = s.chars().take(1500).collect();
    let tail: String = s.chars().rev().take(300).collect::<Vec<_>>().into_iter().rev().collect();
    format!("{head} ...({} bytes, hash {:016x})... {tail}", s.len(), h.finish())
}

impl Rec {
    /// One execution of the real code. `desc` must identify the case completely (it is the key used
    /// by the known-findings file and what a replay file shows).
    pub fn case(&mut self, desc: impl FnOnce() -> String, f: impl FnOnce() -> Verdict) {
        let n = self.next;
        self.next += 1;
        if let Some(o) = self.only {
            if o != n {
                return;
            }
        }
        if self.stop.load(Ordering::Relaxed) {
            return;
        }
        if let Some((file, off)) = &self.slot {
            let mut b = [0u8; 16];
            b[..8].copy_from_slice(&(self.item as u64).to_le_bytes());
            b[8..].copy_from_slice(&(n + 1).to_le_bytes());
            let _ = file.write_at(&b, *off);
        }
        let desc = shorten(desc());
        if self.only.is_some() {
            if let Some(p) = &self.only_file {
                let _ = std::fs::write(p, &desc);
            }
        }
        let before = STEPS.with(|s| s.get());
        let r = run_guarded(f);
        self.t.transitions += STEPS.with(|s| s.get()) - before;
        self.t.traces += 1;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        desc.hash(&mut h);
        self.t.states.insert(h.finish());
        match r {
            Ok(l) => {
                if let Some(c) = self.t.outcomes.get_mut(l) {
                    *c += 1;
                } else {
                    self.t.outcomes.insert(l.to_string(), 1);
                    if self.t.samples.len() < 6 {
                        self.t.samples.push(format!("[{l}] {desc}"));
                    }
                }
            }
            Err(m) => self.violate(n, desc, m),
        }
    }

    fn violate(&mut self, case: u64, desc: String, msg: String) {
        let msg = shorten(msg);
        if let Some((_, _)) = &self.slot {
            found(&Violation { item: self.item, item_name: self.item_name.clone(), case, desc: desc.clone(), msg: msg.clone() });
        }
        if self.t.violations.len() < MAX_VIOLATIONS_PER_ITEM {
            self.t.violations.push(Violation { item: self.item, item_name: self.item_name.clone(), case, desc, msg });
        }
        *self.t.notes.entry("violating cases".into()).or_default() += 1;
    }

    /// The exploration is to end early (some time after a violation).
    pub fn stopped(&self) -> bool {
        self.stop.load(Ordering::Relaxed)
    }

    pub fn note(&mut self, k: &str, n: u64) {
        *self.t.notes.entry(k.into()).or_default() += n;
    }
}

thread_local! {
    static STEPS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
/// Called by the wrappers around the real API: one transition of the system under test.
pub fn step() {
    STEPS.with(|s| s.set(s.get() + 1));
}
pub fn steps(n: u64) {
    STEPS.with(|s| s.set(s.get() + n));
}

thread_local! {
    static GUARD: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
    static PANIC_AT: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn panic_message(e: Box<dyn std::any::Any + Send>) -> String {
    let m = if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "non-string panic".into()
    };
    let at = PANIC_AT.with(|p| p.borrow().clone());
    format!("{m} (at {at})")
}

fn run_guarded(f: impl FnOnce() -> Verdict) -> Verdict {
    match guarded(f) {
        Ok(v) => v,
        Err(e) => Err(format!("the code panicked: {}", panic_message(e))),
    }
}

/// Run a piece of real code, turning a panic into an error string.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    guarded(f).map_err(|e| format!("panic: {}", panic_message(e)))
}

fn guarded<T>(f: impl FnOnce() -> T) -> std::thread::Result<T> {
    GUARD.with(|g| g.set(g.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARD.with(|g| g.set(g.get() - 1));
    r
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        if GUARD.with(|g| g.get()) == 0 {
            eprintln!("harness: {info}");
        }
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = PANIC_AT.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = at;
            }
        });
    }));
}

fn js(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}

fn explore(spec: &Spec, tier: Tier, only: Option<(usize, u64)>, slots: Option<&Path>, only_file: Option<&Path>) -> Tally {
    let items = (spec.items)(tier);
    let next = AtomicUsize::new(0);
    let total = Mutex::new(Tally::default());
    let nthreads = if only.is_some() { 1 } else { std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16) };
    std::thread::scope(|sc| {
        for th in 0..nthreads {
            let items = &items;
            let next = &next;
            let total = &total;
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, move || {
                    let mut acc = Tally::default();
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= items.len() || STOP.load(Ordering::Relaxed) {
                            break;
                        }
                        if let Some((o, _)) = only {
                            if o != i {
                                continue;
                            }
                        }
                        let slot = slots.map(|p| (std::fs::OpenOptions::new().write(true).open(p).expect("slot file"), th as u64 * 16));
                        let mut rec = Rec {
                            item: i,
                            item_name: items[i].name.clone(),
                            next: 0,
                            only: only.map(|o| o.1),
                            only_file: only_file.map(|p| p.to_path_buf()),
                            slot,
                            tier,
                            t: Tally::default(),
                            stop: &STOP,
                        };
                        let begun = Instant::now();
                        (items[i].run)(&mut rec);
                        if std::env::var_os("MC_TIMES").is_some() && begun.elapsed().as_millis() > 300 {
                            eprintln!("time {:>6} ms {:>8} cases {}", begun.elapsed().as_millis(), rec.next, items[i].name.chars().take(80).collect::<String>());
                        }
                        if let Some((f, off)) = &rec.slot {
                            let _ = f.write_at(&[0u8; 16], *off);
                        }
                        merge(&mut acc, rec.t);
                    }
                    merge(&mut total.lock().unwrap(), acc);
                })
                .expect("thread");
        }
    });
    let mut t = total.into_inner().unwrap();
    t.notes.insert("items".into(), items.len() as u64);
    t.violations.sort_by(|a, b| (a.item, a.case).cmp(&(b.item, b.case)));
    t
}

fn merge(a: &mut Tally, b: Tally) {
    a.states.extend(b.states);
    a.transitions += b.transitions;
    a.traces += b.traces;
    for (k, v) in b.outcomes {
        *a.outcomes.entry(k).or_default() += v;
    }
    for (k, v) in b.notes {
        *a.notes.entry(k).or_default() += v;
    }
    for s in b.samples {
        if a.samples.len() < 12 {
            a.samples.push(s)
        }
    }
    a.violations.extend(b.violations);
}

pub fn verif_dir() -> PathBuf {
    // <verif>/mc is the manifest dir the binary was built from.
    Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf()
}

/// Known findings: lines `KNOWN property=<id> case=<description of the case>`.
fn known(id: &str) -> BTreeSet<String> {
    let p = verif_dir().join("known_findings.txt");
    let mut out = BTreeSet::new();
    if let Ok(s) = std::fs::read_to_string(p) {
        let pre = format!("KNOWN property={id} case=");
        for l in s.lines() {
            if let Some(rest) = l.strip_prefix(&pre) {
                out.insert(rest.trim_end().to_string());
            }
        }
    }
    out
}

fn one_line(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r")
}

fn worker(spec: &Spec, tier: Tier, slots: Option<&Path>, out: &Path, only: Option<(usize, u64)>) {
    install_hook();
    let only_file = only.map(|_| out.with_extension("desc"));
    if slots.is_some() {
        let file = std::fs::File::create(out.with_extension("found")).expect("log");
        *LOG.lock().unwrap() = Some(Log { file, known: known(spec.id), written: 0, first: Instant::now() });
    }
    let t = explore(spec, tier, only, slots, only_file.as_deref());
    let mut s = String::from("{");
    s += &format!("\"states\":{},\"transitions\":{},\"traces\":{},", t.states.len(), t.transitions, t.traces);
    s += "\"outcomes\":{";
    s += &t.outcomes.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",");
    s += "},\"notes\":{";
    s += &t.notes.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",");
    s += "},\"samples\":[";
    s += &t.samples.iter().map(|k| js(k)).collect::<Vec<_>>().join(",");
    s += "],\"violations\":[";
    s += &t.violations.iter().map(violation_json).collect::<Vec<_>>().join(",");
    s += &format!("],\"stopped\":{}", STOP.load(Ordering::Relaxed));
    s += "}";
    std::fs::write(out, s).expect("write result");
}

struct Scratch(PathBuf);
impl Scratch {
    fn new(id: &str) -> Scratch {
        let base = if Path::new("/dev/shm").is_dir() && std::fs::write("/dev/shm/.mc_probe", b"").is_ok() {
            let _ = std::fs::remove_file("/dev/shm/.mc_probe");
            PathBuf::from("/dev/shm")
        } else {
            std::env::temp_dir()
        };
        let p = base.join(format!("mc-{id}-{}", std::process::id()));
        std::fs::create_dir_all(&p).expect("scratch dir");
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

enum ChildEnd {
    Ok,
    Died(String),
    Hung,
}

fn run_child(args: &[String], slots: Option<&Path>, log: Option<&Path>, hang: Duration, overall: Duration) -> ChildEnd {
    let exe = std::env::current_exe().expect("exe");
    let mut c = std::process::Command::new(exe).args(args).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::piped()).spawn().expect("spawn worker");
    let mut err = c.stderr.take().unwrap();
    let errbuf = std::thread::spawn(move || {
        use std::io::Read;
        let mut s = Vec::new();
        let mut b = [0u8; 4096];
        while let Ok(n) = err.read(&mut b) {
            if n == 0 {
                break;
            }
            if std::env::var_os("MC_TIMES").is_some() {
                eprint!("{}", String::from_utf8_lossy(&b[..n]));
            }
            if s.len() < 20000 {
                s.extend_from_slice(&b[..n]);
            }
        }
        String::from_utf8_lossy(&s).into_owned()
    });
    let start = Instant::now();
    let mut first: Option<Instant> = None;
    let mut last: Vec<u8> = Vec::new();
    let mut since: Vec<Instant> = Vec::new();
    loop {
        std::thread::sleep(Duration::from_millis(50));
        if let Some(st) = c.try_wait().expect("wait") {
            let e = errbuf.join().unwrap_or_default();
            if st.success() {
                return ChildEnd::Ok;
            }
            let first: String = e.lines().take(3).collect::<Vec<_>>().join(" | ");
            return ChildEnd::Died(format!("{st}: {first}"));
        }
        let mut hung = start.elapsed() > overall;
        if let Some(p) = log {
            if first.is_none() && std::fs::metadata(p).map(|m| m.len() > 0).unwrap_or(false) {
                first = Some(Instant::now());
            }
            // The worker stops by itself soon after its first violation, unless it is stuck.
            hung |= first.is_some_and(|f| f.elapsed() > AFTER_FIRST * 3);
        }
        if let Some(p) = slots {
            if let Ok(b) = std::fs::read(p) {
                let now = Instant::now();
                if b.len() != last.len() {
                    since = vec![now; b.len() / 16];
                    last = b;
                } else {
                    for i in 0..b.len() / 16 {
                        let r = i * 16..i * 16 + 16;
                        if b[r.clone()] != last[r.clone()] {
                            since[i] = now;
                        } else if b[r.clone()] != [0u8; 16] && since[i].elapsed() > hang {
                            hung = true;
                        }
                    }
                    last = b;
                }
            }
        }
        if hung {
            let _ = c.kill();
            let _ = c.wait();
            return ChildEnd::Hung;
        }
    }
}

fn write_replay(spec: &Spec, tier: Tier, v: &Violation) -> PathBuf {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{}-{}-{}.json", spec.id, v.item, v.case));
    let s = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"item\": {},\n \"item_name\": {},\n \"case\": {},\n \"input\": {},\n \"what\": {},\n \"replay_cmd\": {}\n}}\n",
        js(spec.id),
        js(tier.name()),
        v.item,
        js(&v.item_name),
        v.case,
        js(&v.desc),
        js(&v.msg),
        js(&format!("./check.sh replay {}", p.display()))
    );
    let _ = std::fs::write(&p, s);
    p
}

pub fn main(specs: &[Spec], prepare: fn(&str, Tier) -> Result<(), String>) -> i32 {
    let prepare = |id: &str, tier| prepare(id, tier).map_err(|e| eprintln!("ERROR: {e}")).is_ok();
    let args: Vec<String> = std::env::args().collect();
    let find = |id: &str| specs.iter().find(|s| s.id == id).unwrap_or_else(|| panic!("no such property {id}"));
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    match args.get(1).map(|s| s.as_str()) {
        Some("worker") => {
            // worker <id> <tier> <out> [slots|-] [item:case]
            let spec = find(&args[2]);
            let tier = if args[3] == "thorough" { Tier::Thorough } else { Tier::Quick };
            let out = PathBuf::from(&args[4]);
            let slots = args.get(5).filter(|s| *s != "-").map(PathBuf::from);
            let only = args.get(6).map(|s| {
                let (a, b) = s.split_once(':').unwrap();
                (a.parse().unwrap(), b.parse().unwrap())
            });
            worker(spec, tier, slots.as_deref(), &out, only);
            0
        }
        Some("list") => {
            for s in specs {
                println!("{}", s.id);
            }
            0
        }
        Some("replay") => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).expect("replay file")).expect("json");
            let spec = find(v["property"].as_str().unwrap());
            let tier = if v["tier"] == "thorough" { Tier::Thorough } else { Tier::Quick };
            if !prepare(spec.id, tier) {
                return 3;
            }
            install_hook();
            let t = explore(spec, tier, Some((v["item"].as_u64().unwrap() as usize, v["case"].as_u64().unwrap())), None, None);
            for v in &t.violations {
                println!("input: {}\n what: {}", v.desc, v.msg);
                println!("VIOLATION property={} replay={}", spec.id, args[2]);
            }
            if t.violations.is_empty() {
                println!("the recorded case no longer violates the property ({} case evaluated)", t.traces);
                0
            } else {
                1
            }
        }
        Some("check") => {
            if !prepare(find(&args[2]).id, tier) {
                return 3;
            }
            check(find(&args[2]), tier, seed)
        }
        _ => {
            eprintln!("usage: mc check <ID> | replay <file> | list");
            2
        }
    }
}

fn check(spec: &Spec, tier: Tier, seed: i64) -> i32 {
    let start = Instant::now();
    let scratch = Scratch::new(spec.id);
    let slots = scratch.0.join("slots");
    std::fs::write(&slots, vec![0u8; 16 * 16]).expect("slots");
    let out = scratch.0.join("out.json");
    let mk = |only: Option<(u64, u64)>, out: &Path, sl: Option<&Path>| {
        let mut a = vec!["worker".to_string(), spec.id.to_string(), tier.name().to_string(), out.display().to_string(), sl.map(|s| s.display().to_string()).unwrap_or("-".into())];
        if let Some((i, c)) = only {
            a.push(format!("{i}:{c}"));
        }
        a
    };
    let overall = Duration::from_secs(tier.pick(420, 6 * 3600));
    let log = out.with_extension("found");
    let end = run_child(&mk(None, &out, Some(&slots)), Some(&slots), Some(&log), Duration::from_secs(60), overall);
    let mut violations: Vec<Violation> = vec![];
    let mut result: Option<serde_json::Value> = None;
    match end {
        ChildEnd::Ok => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&out).expect("result")).expect("result json");
            violations.extend(v["violations"].as_array().unwrap().iter().map(violation_from));
            result = Some(v);
        }
        ref bad @ (ChildEnd::Died(_) | ChildEnd::Hung) => {
            let how = match bad {
                ChildEnd::Died(s) => format!("process died ({s})"),
                _ => "did not finish".to_string(),
            };
            // Violations found before; otherwise whichever case was in flight.
            for l in std::fs::read_to_string(&log).unwrap_or_default().lines() {
                if let Ok(v) = serde_json::from_str(l) {
                    violations.push(violation_from(&v));
                }
            }
            if violations.is_empty() {
                let b = std::fs::read(&slots).unwrap_or_default();
                let suspects: Vec<(u64, u64)> = b
                    .chunks_exact(16)
                    .map(|ch| (u64::from_le_bytes(ch[..8].try_into().unwrap()), u64::from_le_bytes(ch[8..].try_into().unwrap())))
                    .filter(|x| x.1 > 0)
                    .collect();
                let again = |(i, c): (u64, u64)| -> Option<Violation> {
                    let o2 = scratch.0.join(format!("only-{i}-{c}.json"));
                    let e2 = run_child(&mk(Some((i, c - 1)), &o2, None), None, None, Duration::from_secs(3600), Duration::from_secs(90));
                    let desc = std::fs::read_to_string(o2.with_extension("desc")).unwrap_or_default();
                    let msg = match e2 {
                        ChildEnd::Ok => return None,
                        ChildEnd::Died(s) => format!("the call ended the process: {s}"),
                        ChildEnd::Hung => "the call did not return within 90 s".to_string(),
                    };
                    Some(Violation { item: i as usize, item_name: String::new(), case: c - 1, desc, msg })
                };
                std::thread::scope(|sc| {
                    let hs: Vec<_> = suspects.iter().map(|x| sc.spawn(|| again(*x))).collect();
                    for h in hs {
                        violations.extend(h.join().expect("re-run"));
                    }
                });
            }
            if violations.is_empty() {
                eprintln!("ERROR: exploration of {} {how}, and no in-flight case reproduces it", spec.id);
                return 3;
            }
        }
    }
    let known = known(spec.id);
    let mut fresh: Vec<&Violation> = vec![];
    let mut seen_known: BTreeSet<String> = BTreeSet::new();
    for v in &violations {
        let k = one_line(&v.desc);
        if known.contains(&k) {
            if seen_known.insert(k.clone()) {
                println!("KNOWN-FINDING: property={} {}", spec.id, k);
            }
        } else {
            fresh.push(v);
        }
    }
    for (n, v) in fresh.iter().enumerate() {
        if n < 5 {
            let p = write_replay(spec, tier, v);
            println!("--- {} [{}] case {}\n  input: {}\n  what:  {}", spec.id, v.item_name, v.case, one_line(&v.desc), one_line(&v.msg));
            println!("VIOLATION property={} replay={}", spec.id, p.display());
        }
    }
    let mut rc = if fresh.is_empty() { 0 } else { 1 };
    let mut cov = serde_json::Map::new();
    if let Some(r) = &result {
        cov.insert("states".into(), r["states"].clone());
        cov.insert("transitions".into(), r["transitions"].clone());
        cov.insert("traces_validated_against_impl".into(), r["traces"].clone());
        cov.insert("samples".into(), r["samples"].clone());
        cov.insert("outcomes".into(), r["outcomes"].clone());
        cov.insert("notes".into(), r["notes"].clone());
        cov.insert("exhaustive".into(), serde_json::Value::Bool(r["stopped"] != true));
        for m in spec.must_see {
            if r["outcomes"].get(*m).is_none() && rc == 0 {
                eprintln!("ERROR: vacuous exploration: outcome class {m:?} was never observed");
                rc = 3;
            }
        }
    } else {
        cov.insert("states".into(), 0.into());
        cov.insert("transitions".into(), 0.into());
        cov.insert("traces_validated_against_impl".into(), 0.into());
        cov.insert("samples".into(), serde_json::Value::Array(vec![]));
        cov.insert("exhaustive".into(), serde_json::Value::Bool(false));
    }
    cov.insert("bounds".into(), spec.bounds.into());
    cov.insert("reference_model".into(), spec.model.into());
    cov.insert("known_findings_seen".into(), (seen_known.len() as u64).into());
    let ev = serde_json::json!({
        "property": spec.id, "tier": tier.name(), "seed": seed, "level": "model_checking",
        "coverage": cov, "assumptions": spec.assumptions, "wall_s": start.elapsed().as_secs_f64(),
        "violations": fresh.len(),
    });
    let _ = std::fs::create_dir_all(verif_dir().join("evidence"));
    std::fs::write(verif_dir().join("evidence").join(format!("{}.json", spec.id)), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    if let Some(r) = &result {
        println!("{} {}: {} distinct states, {} transitions, {} executions, outcomes {}, {:.1}s", spec.id, tier.name(), r["states"], r["transitions"], r["traces"], r["outcomes"], start.elapsed().as_secs_f64());
    }
    rc
}
