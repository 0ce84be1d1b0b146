//! Call histories of a library: every history runs in processes forked where histories part,
//! and each call must answer what it answers in a process that has made no other call.
use crate::{clip, esc, in_child, unesc, Explorer};
use std::collections::HashMap;

pub type Call = fn(&str) -> String;
/// What each call answers alone.
pub struct Refs {
    call: Call,
    m: HashMap<String, String>,
}
impl Refs {
    pub fn new(call: Call) -> Refs {
        Refs { call, m: HashMap::new() }
    }
    pub fn get(&mut self, op: &str) -> String {
        let call = self.call;
        self.m.entry(op.to_string()).or_insert_with(|| in_child(|| call(op)).unwrap_or_else(|e| e)).clone()
    }
    pub fn warm(&mut self, ops: &[String]) {
        for o in ops {
            self.get(o);
        }
    }
    pub fn answers(&self) -> Vec<&str> {
        let mut v: Vec<&str> = self.m.values().map(|s| s.as_str()).collect();
        v.sort();
        v
    }
    fn check(&self, op: &str) -> Result<(), String> {
        let got = (self.call)(op);
        if got != self.m[op] {
            return Err(format!("{} answered {}, alone it answers {}", esc(op), esc(&clip(&got)), esc(&clip(&self.m[op]))));
        }
        Ok(())
    }
    /// One history, call by call.
    pub fn run(&self, ops: &[String]) -> Result<u64, String> {
        for (i, op) in ops.iter().enumerate() {
            self.check(op).map_err(|m| format!("call {i} of the history, {m}"))?;
        }
        Ok(ops.len() as u64)
    }
}
fn name(h: &[&str]) -> String {
    format!("calls {}", h.iter().map(|s| esc(s)).collect::<Vec<_>>().join(" ;; "))
}
/// "states\ttransitions" or "bad\t<history>\t<what>"
fn tree<'a>(x: &mut Explorer, hist: &mut Vec<&'a str>, alphabet: &'a [String], depth: usize, refs: &Refs) -> Result<(u64, u64), (String, String)> {
    let mut n = (0, 0);
    for op in alphabet {
        hist.push(op);
        let case = name(hist);
        x.announce(&case);
        let out = step(x, hist, alphabet, depth, refs, &case);
        hist.pop();
        let out = out.unwrap_or_else(|e| format!("bad\t{case}\t{e}"));
        let f: Vec<&str> = out.split('\t').collect();
        if f[0] == "bad" {
            return Err((f[1].to_string(), f[2].to_string()));
        }
        n.0 += f[0].parse::<u64>().unwrap();
        n.1 += f[1].parse::<u64>().unwrap();
    }
    Ok(n)
}
fn step<'a>(x: &mut Explorer, hist: &mut Vec<&'a str>, alphabet: &'a [String], depth: usize, refs: &Refs, case: &str) -> Result<String, String> {
    in_child(|| {
        if let Err(m) = refs.check(hist.last().unwrap()) {
            return format!("bad\t{case}\t{m}");
        }
        if depth == 1 {
            return "1\t1".into();
        }
        match tree(x, hist, alphabet, depth - 1, refs) {
            Ok((s, t)) => format!("{}\t{}", s + 1, t + 1),
            Err((c, m)) => format!("bad\t{c}\t{m}"),
        }
    })
}
/// Every history of the given length over the alphabet.
pub fn all(x: &mut Explorer, refs: &mut Refs, alphabet: &[String], depth: usize) {
    refs.warm(alphabet);
    for first in alphabet {
        if !x.mine() {
            continue;
        }
        let mut h = vec![first.as_str()];
        let case = name(&h);
        x.announce(&case);
        let out = step(x, &mut h, alphabet, depth, refs, &case).unwrap_or_else(|e| format!("bad\t{case}\t{e}"));
        let f: Vec<&str> = out.split('\t').collect();
        if f[0] == "bad" {
            x.judge(format_args!("{}", f[1]), || Err(f[2].to_string()));
        } else {
            let (s, t) = (f[0].parse::<u64>().unwrap(), f[1].parse::<u64>().unwrap());
            x.states += s;
            x.trans(t);
            x.validated += s - 1;
            x.judge(format_args!("{case} ;; ... (every continuation to depth {depth})"), || Ok(s));
        }
    }
}
/// One long history, in a process of its own.
pub fn long(x: &mut Explorer, refs: &mut Refs, title: &str, ops: &[String]) {
    if !x.mine() {
        return;
    }
    x.announce(&format!("sweep {title}"));
    refs.warm(ops);
    let out = in_child(|| match refs.run(ops) {
        Ok(n) => n.to_string(),
        Err(m) => format!("bad{m}"),
    })
    .unwrap_or_else(|e| format!("bad{e}"));
    let steps = out.parse::<u64>().unwrap_or(0);
    x.states += steps;
    x.trans(steps);
    x.validated += steps.saturating_sub(1);
    x.judge(format_args!("sweep {title}"), || match out.strip_prefix("bad") {
        Some(m) => Err(m.to_string()),
        None => Ok(steps),
    });
}
/// After one long history, every one of the calls, each in a process of its own.
pub fn after(x: &mut Explorer, refs: &mut Refs, title: &str, ops: &[String], next: &[String]) {
    if !x.mine() {
        return;
    }
    x.announce(&format!("sweep {title}"));
    refs.warm(ops);
    refs.warm(next);
    let out = in_child(|| {
        if let Err(m) = refs.run(ops) {
            return format!("bad{m}");
        }
        for op in next {
            let r = in_child(|| refs.check(op).err().unwrap_or_default());
            let m = r.unwrap_or_else(|e| e);
            if !m.is_empty() {
                return format!("then{op}\tbadafter the history, {m}");
            }
        }
        next.len().to_string()
    })
    .unwrap_or_else(|e| format!("bad{e}"));
    if let Ok(n) = out.parse::<u64>() {
        x.states += n;
        x.trans(n + ops.len() as u64);
        x.validated += n - 1;
        x.judge(format_args!("sweep {title} ;; ... (every call)"), || Ok(n));
        return;
    }
    let (then, m) = match out.strip_prefix("then") {
        Some(t) => t.split_once("\tbad").unwrap(),
        None => ("", out.trim_start_matches("bad")),
    };
    let then = if then.is_empty() { String::new() } else { format!(" ;; {}", esc(then)) };
    x.judge(format_args!("sweep {title}{then}"), || Err(m.to_string()));
}
pub fn replay(call: Call, case: &str, sweep: impl Fn(&str) -> Vec<String>) -> Result<(), String> {
    let mut refs = Refs::new(call);
    let ops: Vec<String> = match case.strip_prefix("sweep ") {
        Some(s) => match s.split_once(" ;; ") {
            Some((s, op)) => sweep(s).into_iter().chain([unesc(op)]).collect(),
            None => sweep(s),
        },
        None => case.strip_prefix("calls ").ok_or("no such case")?.split(" ;; ").map(unesc).collect(),
    };
    refs.warm(&ops);
    refs.run(&ops).map(|_| ())
}
