//! Explicit-state exploration engine shared by every check.
//!
//! A `Spec` walks a finite, deterministic transition system (the reference model) and, in
//! every state it reaches, compares the model with the real code through `Explorer::judge`.
//! The exploration is split over worker processes; the supervisor watches them (crash, abort,
//! stack overflow, hang), confirms whatever they report in a fresh process, and writes the
//! evidence.  A worker never decides a check on its own.
mod sys;
pub mod history;
pub use sys::{in_child, in_child_limit};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::process::{Command, ExitStatus, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub trait Spec {
    fn id(&self) -> &'static str;
    /// Walks the whole bounded model; calls `judge` in every state that has an observation.
    fn explore(&self, x: &mut Explorer);
    /// Rebuilds the one state `case` names, from the initial state, and compares it again.
    fn replay(&self, case: &str) -> Result<(), String>;
    /// What was enumerated, in words.
    fn bounds(&self, tier: Tier) -> String;
    fn assumptions(&self) -> Vec<String> {
        vec![]
    }
    /// Seconds one case may take before it counts as a hang (a fresh process gets 3 times that).
    fn case_limit(&self) -> u64 {
        20
    }
}

pub struct Explorer {
    pub tier: Tier,
    pub seed: u64,
    shard: u64,
    shards: u64,
    unit: u64,
    slot: sys::Slot,
    pub states: u64,
    pub transitions: u64,
    pub validated: u64,
    outcomes: BTreeSet<u64>,
    samples: Vec<String>,
    next_sample: u64,
    known: BTreeSet<String>,
    known_hit: BTreeSet<String>,
    remarks: BTreeMap<String, u64>,
    buf: String,
    out: PathBuf,
}

thread_local! { static PANIC: RefCell<String> = RefCell::new(String::new()); }

fn hush() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let l = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = PANIC.try_with(|p| *p.borrow_mut() = format!("{m}{l}"));
    }));
}

/// Runs `f`, turning a panic into an error text.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(t) => Ok(t),
        Err(_) => Err(format!("panicked: {}", PANIC.with(|p| p.borrow().clone()))),
    }
}

/// Where checks make their scratch directories: in memory if that can be.
pub fn scratch_root() -> PathBuf {
    let m = PathBuf::from("/dev/shm");
    let probe = m.join(format!("mc-probe-{}", std::process::id()));
    if std::fs::create_dir(&probe).is_ok() {
        let _ = std::fs::remove_dir(&probe);
        return m;
    }
    std::env::temp_dir()
}
pub fn hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

pub fn clip(s: &str) -> String {
    if s.chars().count() <= 400 {
        return s.to_string();
    }
    let c: Vec<char> = s.chars().collect();
    format!("{}...<{} chars>...{}", c[..180].iter().collect::<String>(), c.len(), c[c.len() - 180..].iter().collect::<String>())
}

impl Explorer {
    /// True when the next unit of work belongs to this worker.  Every worker must call it in
    /// the same order.
    pub fn mine(&mut self) -> bool {
        let u = self.unit;
        self.unit += 1;
        u % self.shards == self.shard
    }
    pub fn mine_key(&self, k: u64) -> bool {
        k % self.shards == self.shard
    }
    pub fn shard(&self) -> (u64, u64) {
        (self.shard, self.shards)
    }
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    pub fn state(&mut self) {
        self.states += 1;
    }
    pub fn trans(&mut self, n: u64) {
        self.transitions += n;
    }
    /// Says what is about to run, for the supervisor, without judging anything.
    pub fn announce(&mut self, case: &str) {
        self.slot.set(case);
    }
    pub fn beat(&mut self) {
        self.slot.beat();
    }
    pub fn note(&mut self, outcome: u64) {
        if self.outcomes.len() < 200_000 {
            self.outcomes.insert(outcome);
        }
    }
    /// Adds `n` to a named counter of the evidence.
    pub fn remark(&mut self, k: &str, n: u64) {
        *self.remarks.entry(k.to_string()).or_insert(0) += n;
    }
    /// Compares one reached state with the implementation. `run` returns a digest of what was
    /// observed, or what is wrong.
    pub fn judge(&mut self, case: std::fmt::Arguments, run: impl FnOnce() -> Result<u64, String>) {
        self.buf.clear();
        let _ = self.buf.write_fmt(case);
        self.slot.set(&self.buf);
        let r = match guarded(run) {
            Ok(r) => r,
            Err(e) => Err(e),
        };
        self.validated += 1;
        match r {
            Ok(d) => {
                self.note(d);
                if self.validated >= self.next_sample && self.samples.len() < 6 {
                    self.samples.push(clip(&self.buf));
                    self.next_sample = self.next_sample * 12 + 1;
                }
            }
            Err(m) => {
                if self.known.contains(&self.buf) {
                    self.known_hit.insert(self.buf.clone());
                    return;
                }
                let case = self.buf.clone();
                self.finish(Some((case, m)));
                std::process::exit(3);
            }
        }
    }
    fn finish(&self, viol: Option<(String, String)>) {
        let mut s = String::new();
        let _ = writeln!(s, "states\t{}", self.states);
        let _ = writeln!(s, "transitions\t{}", self.transitions);
        let _ = writeln!(s, "validated\t{}", self.validated);
        for x in &self.samples {
            let _ = writeln!(s, "sample\t{}", esc(x));
        }
        for (k, n) in &self.remarks {
            let _ = writeln!(s, "remark\t{}\t{}", esc(k), n);
        }
        for x in &self.known_hit {
            let _ = writeln!(s, "known\t{}", esc(x));
        }
        for x in &self.outcomes {
            let _ = writeln!(s, "o\t{:x}", x);
        }
        if let Some((c, m)) = viol {
            let _ = writeln!(s, "violation\t{}\t{}", esc(&c), esc(&m));
        } else {
            let _ = writeln!(s, "done");
        }
        std::fs::write(&self.out, s).expect("write worker result");
    }
}

pub fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t").replace('\r', "\\r")
}
pub fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut c = s.chars();
    while let Some(x) = c.next() {
        if x == '\\' {
            match c.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some('r') => o.push('\r'),
                Some(y) => o.push(y),
                None => {}
            }
        } else {
            o.push(x)
        }
    }
    o
}
pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}
pub fn tier() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}
pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

fn known_findings(id: &str) -> Vec<(String, String)> {
    // known: property=<id> case=<case escaped> :: <what fails>
    let t = std::fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
    let pre = format!("known: property={id} case=");
    t.lines()
        .filter_map(|l| l.strip_prefix(&pre))
        .filter_map(|l| l.split_once(" :: "))
        .map(|(a, b)| (unesc(a), b.to_string()))
        .collect()
}

/// Entry point of every check binary.
/// `check ID` | `worker ID shard shards slot out` | `one ID case` | `replay FILE`
pub fn main(specs: Vec<Box<dyn Spec>>) -> ! {
    let a: Vec<String> = std::env::args().collect();
    let get = |id: &str| -> &Box<dyn Spec> {
        specs.iter().find(|s| s.id() == id).unwrap_or_else(|| {
            eprintln!("no such property here: {id}");
            std::process::exit(2)
        })
    };
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => std::process::exit(supervise(get(&a[2]).as_ref())),
        Some("worker") => {
            hush();
            worker(get(&a[2]).as_ref(), a[3].parse().unwrap(), a[4].parse().unwrap(), &a[5], &a[6]);
            std::process::exit(0)
        }
        Some("one") => {
            hush();
            let case = unesc(&a[3]);
            let s = get(&a[2]);
            let r = guarded(|| s.replay(&case)).unwrap_or_else(Err);
            match r {
                Ok(()) => {
                    println!("case holds");
                    std::process::exit(0)
                }
                Err(m) => {
                    println!("case fails: {m}");
                    std::process::exit(3)
                }
            }
        }
        Some("replay") => {
            let t = std::fs::read_to_string(&a[2]).expect("read replay file");
            let f = |k: &str| t.lines().find_map(|l| l.strip_prefix(&format!("{k}: ")).map(|s| s.to_string()));
            let (id, case) = (f("property").unwrap(), f("case").unwrap());
            println!("{t}");
            let me = std::env::current_exe().unwrap();
            let code = if f("mode").as_deref() == Some("history") {
                let (sh, n) = (f("shard").unwrap(), f("shards").unwrap());
                let tier = f("tier").unwrap();
                let d = scratch();
                let st = Command::new(me)
                    .args(["worker", &id, &sh, &n, &d.join("slot").to_string_lossy(), &d.join("out").to_string_lossy()])
                    .env("VERIF_TIER", tier)
                    .status()
                    .unwrap();
                println!("{}", std::fs::read_to_string(d.join("out")).unwrap_or_default().lines().last().unwrap_or(""));
                let _ = std::fs::remove_dir_all(&d);
                st.code().unwrap_or(99)
            } else {
                Command::new(me).args(["one", &id, &case]).status().unwrap().code().unwrap_or(99)
            };
            std::process::exit(if code == 0 { 0 } else { 1 })
        }
        _ => {
            eprintln!("usage: check ID | one ID CASE | replay FILE");
            std::process::exit(2)
        }
    }
}

fn worker(s: &dyn Spec, shard: u64, shards: u64, slot: &str, out: &str) {
    let mut x = Explorer {
        tier: tier(),
        seed: seed(),
        shard,
        shards,
        unit: 0,
        slot: sys::Slot::create(slot),
        states: 0,
        transitions: 0,
        validated: 0,
        outcomes: BTreeSet::new(),
        samples: vec![],
        next_sample: 1 + shard * 37,
        known: known_findings(s.id()).into_iter().map(|k| k.0).collect(),
        known_hit: BTreeSet::new(),
        remarks: BTreeMap::new(),
        buf: String::new(),
        out: PathBuf::from(out),
    };
    s.explore(&mut x);
    x.finish(None);
}

fn scratch() -> PathBuf {
    let d = scratch_root().join(format!("mc-{}-{}", std::process::id(), seed()));
    std::fs::create_dir_all(&d).expect("scratch dir");
    d
}

fn how(st: &ExitStatus) -> String {
    use std::os::unix::process::ExitStatusExt;
    match (st.code(), st.signal()) {
        (Some(c), _) => format!("exit code {c}"),
        (_, Some(s)) => format!("signal {s}"),
        _ => "unknown end".into(),
    }
}

enum Ended {
    Done,
    Violation { case: String, msg: String },
    Crash { case: String, how: String },
    Hang { case: String },
    Engine(String),
}

#[derive(Default)]
struct Report {
    states: u64,
    transitions: u64,
    validated: u64,
    samples: Vec<String>,
    known: BTreeSet<String>,
    outcomes: BTreeSet<String>,
    remarks: BTreeMap<String, u64>,
}

fn run_workers(s: &dyn Spec, shards: &[u64], n: u64, rep: &mut Report, total_limit: u64) -> Vec<(u64, Ended)> {
    let d = scratch();
    let me = std::env::current_exe().unwrap();
    struct W {
        shard: u64,
        child: std::process::Child,
        seq: u64,
        since: Instant,
    }
    let mut ws: Vec<W> = vec![];
    for &sh in shards {
        let slot = d.join(format!("slot{sh}"));
        let out = d.join(format!("out{sh}"));
        let _ = std::fs::remove_file(&out);
        let _ = std::fs::remove_file(&slot);
        let mut c = Command::new(&me);
        c.args(["worker", s.id(), &sh.to_string(), &n.to_string(), &slot.to_string_lossy(), &out.to_string_lossy()]);
        c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
        sys::limit_memory(&mut c, 6 << 30);
        ws.push(W { shard: sh, child: c.spawn().expect("spawn worker"), seq: 0, since: Instant::now() });
    }
    let t0 = Instant::now();
    let mut res = vec![];
    while !ws.is_empty() {
        std::thread::sleep(Duration::from_millis(10));
        let mut i = 0;
        while i < ws.len() {
            let slot = d.join(format!("slot{}", ws[i].shard));
            let ended = match ws[i].child.try_wait().expect("wait") {
                Some(st) => {
                    let t = std::fs::read_to_string(d.join(format!("out{}", ws[i].shard))).unwrap_or_default();
                    let mut e = None;
                    for l in t.lines() {
                        let f: Vec<&str> = l.split('\t').collect();
                        match f[0] {
                            "states" => rep.states += f[1].parse::<u64>().unwrap(),
                            "transitions" => rep.transitions += f[1].parse::<u64>().unwrap(),
                            "validated" => rep.validated += f[1].parse::<u64>().unwrap(),
                            "sample" => rep.samples.push(unesc(f[1])),
                            "remark" => *rep.remarks.entry(unesc(f[1])).or_insert(0) += f[2].parse::<u64>().unwrap(),
                            "known" => {
                                rep.known.insert(unesc(f[1]));
                            }
                            "o" => {
                                rep.outcomes.insert(f[1].to_string());
                            }
                            "violation" => e = Some(Ended::Violation { case: unesc(f[1]), msg: unesc(f[2]) }),
                            "done" => e = Some(Ended::Done),
                            _ => {}
                        }
                    }
                    Some(match e {
                        Some(e) => e,
                        None => match sys::Slot::read(&slot) {
                            Some((_, case)) if !case.is_empty() => Ended::Crash { case, how: how(&st) },
                            _ => Ended::Engine(format!("worker {} ended ({}) before its first case", ws[i].shard, how(&st))),
                        },
                    })
                }
                None => {
                    if let Some((seq, case)) = sys::Slot::read(&slot) {
                        if seq != ws[i].seq {
                            ws[i].seq = seq;
                            ws[i].since = Instant::now();
                            None
                        } else if ws[i].since.elapsed().as_secs() >= s.case_limit() && !case.is_empty() {
                            let _ = ws[i].child.kill();
                            let _ = ws[i].child.wait();
                            Some(Ended::Hang { case })
                        } else {
                            None
                        }
                    } else {
                        None
                    }
                }
            };
            let ended = if ended.is_none() && t0.elapsed().as_secs() > total_limit {
                let _ = ws[i].child.kill();
                let _ = ws[i].child.wait();
                Some(Ended::Engine(format!("wall limit of {total_limit} s")))
            } else {
                ended
            };
            match ended {
                None => i += 1,
                Some(e) => {
                    let w = ws.swap_remove(i);
                    let stop = !matches!(e, Ended::Done);
                    res.push((w.shard, e));
                    if stop {
                        for w in ws.iter_mut() {
                            let _ = w.child.kill();
                            let _ = w.child.wait();
                        }
                        ws.clear();
                    }
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&d);
    res
}

/// Runs one case alone in a fresh process: Ok(true) holds, Ok(false) fails, with the text.
fn alone(s: &dyn Spec, case: &str) -> (bool, String) {
    let me = std::env::current_exe().unwrap();
    let mut c = Command::new(me);
    c.args(["one", s.id(), &esc(case)]).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null());
    sys::limit_memory(&mut c, 6 << 30);
    let mut ch = c.spawn().expect("spawn");
    let t = Instant::now();
    loop {
        if let Some(st) = ch.try_wait().unwrap() {
            let mut o = String::new();
            use std::io::Read;
            let _ = ch.stdout.take().unwrap().read_to_string(&mut o);
            let last = o.trim_end().lines().last().unwrap_or("").to_string();
            return match st.code() {
                Some(0) => (true, last),
                Some(3) => (false, o.trim_end().rsplit_once("case fails: ").map(|x| x.1.to_string()).unwrap_or(last)),
                _ => (false, format!("the process died: {}", how(&st))),
            };
        }
        if t.elapsed().as_secs() >= 3 * s.case_limit() {
            let _ = ch.kill();
            let _ = ch.wait();
            return (false, format!("no answer within {} s", 3 * s.case_limit()));
        }
        std::thread::sleep(Duration::from_millis(3));
    }
}

fn supervise(s: &dyn Spec) -> i32 {
    let t0 = Instant::now();
    let tier = tier();
    let n = std::thread::available_parallelism().map(|x| x.get() as u64).unwrap_or(4).clamp(2, 8);
    let mut rep = Report::default();
    let limit = if tier == Tier::Quick { 700 } else { 6 * 3600 };
    let shards: Vec<u64> = (0..n).collect();
    let res = run_workers(s, &shards, n, &mut rep, limit);
    let mut violation: Option<(String, String, String, u64)> = None; // mode, case, msg, shard
    let mut error = None;
    for (sh, e) in &res {
        let (case, msg, hang) = match e {
            Ended::Done => continue,
            Ended::Engine(m) => {
                error = Some(m.clone());
                continue;
            }
            Ended::Violation { case, msg } => (case, msg.clone(), false),
            Ended::Crash { case, how } => (case, format!("the process died: {how}"), false),
            Ended::Hang { case } => (case, format!("no answer within {} s", s.case_limit()), true),
        };
        let (ok, m) = alone(s, case);
        if !ok {
            violation = Some(("alone".into(), case.clone(), m, *sh));
            break;
        }
        // holds alone: either it needs the history before it, or the engine is at fault
        let mut r2 = Report::default();
        let again = run_workers(s, &[*sh], n, &mut r2, limit);
        let same = again.iter().any(|(_, e)| match e {
            Ended::Violation { case: c, .. } | Ended::Crash { case: c, .. } => c == case,
            Ended::Hang { case: c } => hang && c == case,
            _ => false,
        });
        if same {
            violation = Some(("history".into(), case.clone(), format!("{msg} (only after the calls explored before it)"), *sh));
            break;
        }
        error = Some(format!("not reproducible: case {} said {}", clip(case), clip(&msg)));
    }
    let wall = t0.elapsed().as_secs_f64();
    rep.samples.sort();
    rep.samples.dedup();
    rep.samples.truncate(12);
    let mut code = 0;
    let exhaustive = violation.is_none() && error.is_none() && !rep.remarks.iter().any(|(k, n)| k.starts_with("cut") && *n > 0);
    let mut j = String::new();
    let _ = write!(
        j,
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"distinct_observations\": {},\n  \"exhaustive\": {},\n  \"bounds\": {},\n  \"worker_processes\": {},\n{}  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        json(s.id()),
        if tier == Tier::Quick { "\"quick\"" } else { "\"thorough\"" },
        seed(),
        rep.states,
        rep.transitions,
        rep.validated,
        rep.outcomes.len(),
        exhaustive,
        json(&s.bounds(tier)),
        n,
        rep.remarks.iter().map(|(k, n)| format!("  {}: {n},\n", json(k))).collect::<String>(),
        rep.samples.iter().map(|x| json(x)).collect::<Vec<_>>().join(", "),
        s.assumptions().iter().map(|x| json(x)).collect::<Vec<_>>().join(", "),
        wall,
        violation.is_some() as u32
    );
    let ev = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&ev);
    std::fs::write(ev.join(format!("{}.json", s.id())), j).expect("write evidence");
    for (c, what) in known_findings(s.id()) {
        if rep.known.contains(&c) {
            println!("KNOWN-FINDING: property={} {}", s.id(), what);
        }
    }
    if let Some((mode, case, msg, sh)) = violation {
        let dir = verif_dir().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let p = dir.join(format!("{}-{:016x}.txt", s.id(), hash(&case)));
        let mut f = std::fs::File::create(&p).expect("replay file");
        let _ = write!(
            f,
            "property: {}\nmode: {}\ncase: {}\nwhat: {}\nshard: {}\nshards: {}\ntier: {}\n",
            s.id(),
            mode,
            esc(&case),
            esc(&clip(&msg)),
            sh,
            n,
            if tier == Tier::Quick { "quick" } else { "thorough" }
        );
        println!("{} fails: {}", clip(&case), clip(&msg));
        println!("VIOLATION property={} replay={}", s.id(), p.display());
        code = 1;
    } else if let Some(e) = error {
        eprintln!("ERROR property={}: {e}", s.id());
        code = 2;
    } else if rep.validated == 0 || rep.states == 0 {
        eprintln!("ERROR property={}: nothing was explored", s.id());
        code = 2;
    } else {
        println!(
            "OK property={} states={} transitions={} validated={} outcomes={} wall={:.1}s",
            s.id(),
            rep.states,
            rep.transitions,
            rep.validated,
            rep.outcomes.len(),
            wall
        );
    }
    code
}
