//! Exhaustive exploration of the interleavings of real threads running real code.
//! One execution = one forked process; the plan says at which decisions to deviate.
use mc::{in_child, in_child_limit, Explorer};
use mystd::sched::{self, Choice, End};
use std::{
    collections::HashMap,
    time::{Duration, Instant},
};

#[derive(Clone, Debug)]
pub struct Scenario {
    pub name: String,
    /// calls made before the threads start
    pub warm: Vec<String>,
    pub threads: Vec<Vec<String>>,
    /// calls made after they have ended
    pub after: Vec<String>,
    /// at most this many preemptions between plain statements
    pub plain: u32,
}
impl Scenario {
    pub fn new(warm: &[&str], threads: &[&[&str]]) -> Scenario {
        let v = |s: &[&str]| s.iter().map(|x| x.to_string()).collect::<Vec<_>>();
        let mut name = threads.iter().map(|t| t.join("; ")).collect::<Vec<_>>().join(" || ");
        if !warm.is_empty() {
            name = format!("{} then {}", warm.join("; "), name);
        }
        Scenario { name, warm: v(warm), threads: threads.iter().map(|t| v(t)).collect(), after: vec![], plain: 9 }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Run {
    pub trace: Vec<Choice>,
    pub answers: Vec<Vec<String>>,
    pub after: Vec<String>,
}
pub enum Exec {
    Done(Run),
    Deadlock,
    Bad(String),
    Uncontrolled(String),
}
pub type Call = fn(&str) -> String;
type Plan = Vec<(u32, u8)>;

const LIMIT: usize = 60_000;

fn pack(v: &[Vec<String>]) -> String {
    v.iter().map(|t| t.iter().map(|s| mc::esc(s)).collect::<Vec<_>>().join("\t")).collect::<Vec<_>>().join("\n")
}

/// `controlled` false: the threads run freely, only to see whether they come to an end.
pub fn exec(sc: &Scenario, plan: &Plan, call: Call, controlled: bool) -> Exec {
    let r = in_child_limit(
        || {
            for w in &sc.warm {
                call(w);
            }
            let after = || sc.after.iter().map(|o| mc::esc(&call(o))).collect::<Vec<_>>().join("\t");
            if !controlled {
                let hs: Vec<_> = sc.threads.iter().cloned().map(|t| std::thread::spawn(move || t.iter().map(|o| call(o)).collect::<Vec<_>>())).collect();
                let a: Vec<Vec<String>> = hs.into_iter().map(|h| h.join().unwrap_or_default()).collect();
                return format!("F\n\n{}\n{}", after(), pack(&a));
            }
            let bodies: Vec<Box<dyn FnOnce() -> Vec<String> + Send>> = sc
                .threads
                .iter()
                .cloned()
                .map(|t| {
                    Box::new(move || {
                        let mut v = vec![];
                        for (i, o) in t.iter().enumerate() {
                            if i > 0 {
                                sched::sync_point();
                            }
                            v.push(call(o));
                        }
                        v
                    }) as Box<dyn FnOnce() -> Vec<String> + Send>
                })
                .collect();
            let (end, a) = sched::run(bodies, plan, LIMIT);
            match end {
                End::Finished(t) => {
                    let t: String = t.iter().map(|c| format!("{:02x}{:02x}{:02x}{:x}", c.enabled, c.running, c.chosen, c.sync)).collect();
                    format!("F\n{t}\n{}\n{}", after(), pack(&a))
                }
                End::Deadlock(_) => "D".into(),
                End::Diverged => "V".into(),
                End::TooLong => "L".into(),
            }
        },
        12,
    );
    match r {
        None => Exec::Uncontrolled("an execution hung".into()),
        Some(Err(e)) => Exec::Bad(e),
        Some(Ok(s)) => match &s[..1] {
            "D" => Exec::Deadlock,
            "V" => Exec::Uncontrolled("a replayed schedule diverged".into()),
            "L" => Exec::Uncontrolled("an execution did not end".into()),
            _ => {
                let l: Vec<&str> = s.split('\n').collect();
                let h = |i: usize, n: usize| u8::from_str_radix(&l[1][i..i + n], 16).unwrap();
                let trace = (0..l[1].len() / 7).map(|i| Choice { enabled: h(7 * i, 2), running: h(7 * i + 2, 2), chosen: h(7 * i + 4, 2), sync: h(7 * i + 6, 1) }).collect();
                let un = |s: &str| -> Vec<String> { if s.is_empty() { vec![] } else { s.split('\t').map(mc::unesc).collect() } };
                Exec::Done(Run { trace, answers: l[3..].iter().map(|s| un(s)).collect(), after: un(l[2]) })
            }
        },
    }
}

pub struct Bounds {
    /// preemptions in all, and how many of them may fall between plain statements
    pub all: u32,
    pub plain: u32,
    /// above this many decisions in the default execution plain preemptions are limited to one
    pub short: usize,
    /// above this many, to statements `stride` apart
    pub max_plain: usize,
}

pub type Oracle<'a> = &'a dyn Fn(&Scenario, &Run) -> Result<u64, String>;

pub struct Search<'a> {
    pub call: Call,
    pub oracle: Oracle<'a>,
    pub bounds: Bounds,
    pub uncontrolled: Vec<String>,
    pub capped: u64,
    /// from then on schedules with a second preemption are passed over, and counted
    pub until: Instant,
    pub cut: u64,
}
/// What is left of a check that takes much longer than it does on the tree it was written for.
pub fn until(quick: bool) -> Instant {
    Instant::now() + Duration::from_secs(if quick { 400 } else { 600 })
}

fn show(p: &Plan) -> String {
    p.iter().map(|(i, t)| format!("{i}>{t}")).collect::<Vec<_>>().join(",")
}
pub fn read_plan(s: &str) -> Plan {
    s.split(',').filter(|s| !s.is_empty()).map(|p| p.split_once('>').unwrap()).map(|(a, b)| (a.parse().unwrap(), b.parse().unwrap())).collect()
}

impl<'a> Search<'a> {
    /// Judges one schedule; `None` when it could not be controlled.
    fn one(&mut self, x: &mut Explorer, sc: &Scenario, plan: &Plan) -> Option<Run> {
        let case = format!("schedule {} @ {}", sc.name, show(plan));
        x.announce(&case);
        let e = exec(sc, plan, self.call, true);
        let r = match &e {
            Exec::Done(run) => (self.oracle)(sc, run),
            Exec::Deadlock => Err("the threads wait for each other forever".into()),
            Exec::Bad(m) => Err(m.clone()),
            Exec::Uncontrolled(m) => {
                // is it the code that does not end, or the controlled scheduler?
                let free = (0..3).all(|_| matches!(exec(sc, plan, self.call, false), Exec::Done(_)));
                if free {
                    self.uncontrolled.push(format!("{m}: {case}"));
                    return None;
                }
                Err(format!("{m}, and it does not end under the real scheduler either"))
            }
        };
        x.judge(format_args!("{case}"), || r);
        match e {
            Exec::Done(run) => Some(run),
            _ => None,
        }
    }

    pub fn scenario(&mut self, x: &mut Explorer, sc: &Scenario) {
        x.announce(&format!("schedule {} @ ", sc.name));
        let root = match self.one(x, sc, &vec![]) {
            None => return,
            Some(r) => r,
        };
        // the same schedule twice must show the same thing
        match exec(sc, &vec![], self.call, true) {
            Exec::Done(r) if r == root => {}
            _ => {
                self.uncontrolled.push(format!("the default schedule is not reproducible: {}", sc.name));
                return;
            }
        }
        let plain = if root.trace.len() <= self.bounds.short { self.bounds.plain } else { self.bounds.plain.min(1) }.min(sc.plain);
        let stride = 1 + root.trace.iter().filter(|c| c.sync == 0).count() / self.bounds.max_plain;
        if stride > 1 {
            self.capped += 1;
        }
        if x.shard().0 == 0 {
            x.states += root.trace.len() as u64 + 1;
            x.trans(root.trace.len() as u64);
        }
        for i in 0..root.trace.len() {
            if x.mine() {
                self.branch(x, sc, &vec![], &root.trace, i, plain, stride);
            }
        }
    }
    fn branch(&mut self, x: &mut Explorer, sc: &Scenario, plan: &Plan, trace: &[Choice], i: usize, plain: u32, stride: usize) {
        let c = trace[i];
        let (mut all, mut pl) = (0, 0);
        for d in &trace[..i] {
            if d.running != 255 && d.chosen != d.running {
                all += 1;
                pl += (d.sync == 0) as u32;
            }
        }
        if c.running != 255 {
            all += 1;
            pl += (c.sync == 0) as u32;
            if c.sync == 0 && i % stride != 0 {
                return;
            }
        }
        if all > self.bounds.all || pl > plain {
            return;
        }
        if all > 1 && Instant::now() > self.until {
            self.cut += 1;
            return;
        }
        for t in 0..8u8 {
            if c.enabled >> t & 1 == 0 || t == c.chosen {
                continue;
            }
            let mut p = plan.clone();
            p.push((i as u32, t));
            if let Some(r) = self.one(x, sc, &p) {
                x.states += (r.trace.len() - i.min(r.trace.len())) as u64;
                x.trans((r.trace.len() - i.min(r.trace.len())) as u64);
                for j in i + 1..r.trace.len() {
                    self.branch(x, sc, &p, &r.trace, j, plain, stride);
                }
            }
        }
    }
}

pub fn replay(scs: &[Scenario], case: &str, call: Call, oracle: Oracle) -> Result<(), String> {
    let (name, plan) = case.strip_prefix("schedule ").unwrap().rsplit_once(" @ ").unwrap();
    let sc = scs.iter().find(|s| s.name == name).ok_or("no such scenario")?;
    let plan = read_plan(plan);
    match exec(sc, &plan, call, true) {
        Exec::Done(r) => oracle(sc, &r).map(|_| ()),
        Exec::Deadlock => Err("the threads wait for each other forever".into()),
        Exec::Bad(m) => Err(m),
        Exec::Uncontrolled(m) => {
            if (0..3).all(|_| matches!(exec(sc, &plan, call, false), Exec::Done(_))) {
                Ok(())
            } else {
                Err(format!("{m}, and it does not end under the real scheduler either"))
            }
        }
    }
}

/// Answers of calls made alone, each in a process of its own.
pub struct Fresh(pub HashMap<String, String>);
impl Fresh {
    pub fn of(scs: &[Scenario], call: Call) -> Fresh {
        let mut m = HashMap::new();
        for s in scs {
            for o in s.threads.iter().flatten().chain(&s.warm).chain(&s.after) {
                m.entry(o.clone()).or_insert_with(|| in_child(|| call(o)).unwrap_or_else(|e| e));
            }
        }
        Fresh(m)
    }
}
