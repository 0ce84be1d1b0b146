//! One execution: the registered threads run one at a time; at every point the running thread
//! may be replaced by another one.  The choices come from a plan; where the plan is silent the
//! running thread goes on, and the lowest runnable thread follows one that stopped.
use ::std::cell::Cell;
use ::std::sync::{Condvar, Mutex, MutexGuard};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Status {
    Ready,
    Blocked(usize),
    Done,
}
/// One decision: who could run, who was running and could go on (255: nobody), who ran.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Choice {
    pub enabled: u8,
    pub running: u8,
    pub chosen: u8,
    /// a point of std::sync (1) or a statement (0)
    pub sync: u8,
}
struct World {
    cur: usize,
    threads: Vec<Status>,
    plan: Vec<(u32, u8)>,
    next_plan: usize,
    trace: Vec<Choice>,
    on: bool,
    diverged: bool,
    limit: usize,
}
static WORLD: Mutex<World> = Mutex::new(World { cur: 0, threads: Vec::new(), plan: Vec::new(), next_plan: 0, trace: Vec::new(), on: false, diverged: false, limit: 0 });
static WAKE: [Condvar; 8] = [const { Condvar::new() }; 8];
::std::thread_local! { static ME: Cell<usize> = const { Cell::new(usize::MAX) }; }

fn world() -> MutexGuard<'static, World> {
    WORLD.lock().unwrap_or_else(|e| e.into_inner())
}
fn me() -> usize {
    ME.try_with(|m| m.get()).unwrap_or(usize::MAX)
}
pub fn controlled() -> bool {
    me() != usize::MAX
}

pub enum End {
    Finished(Vec<Choice>),
    Deadlock(Vec<Choice>),
    Diverged,
    TooLong,
}
static END: Mutex<Option<u8>> = Mutex::new(None);
static ENDED: Condvar = Condvar::new();
fn end(code: u8) {
    *END.lock().unwrap_or_else(|e| e.into_inner()) = Some(code);
    ENDED.notify_all();
}

/// Picks who runs next. `from` is the thread that gives way; `stay` whether it could go on.
fn decide(w: &mut World, from: usize, stay: bool, sync: bool) -> Option<usize> {
    let mut enabled = 0u8;
    for (i, t) in w.threads.iter().enumerate() {
        if *t == Status::Ready && (stay || i != from) {
            enabled |= 1 << i;
        }
    }
    if enabled == 0 {
        return None;
    }
    let default = if stay { from } else { enabled.trailing_zeros() as usize };
    if enabled.count_ones() == 1 {
        return Some(default);
    }
    let at = w.trace.len() as u32;
    let mut chosen = default;
    if let Some(&(i, t)) = w.plan.get(w.next_plan) {
        if i == at {
            w.next_plan += 1;
            if enabled >> t & 1 == 0 {
                w.diverged = true;
            } else {
                chosen = t as usize;
            }
        }
    }
    w.trace.push(Choice { enabled, running: if stay { from as u8 } else { 255 }, chosen: chosen as u8, sync: sync as u8 });
    if w.trace.len() > w.limit {
        end(3);
        w.on = false;
    }
    Some(chosen)
}
fn hand_over(mut w: MutexGuard<World>, to: usize, mine: usize) {
    w.cur = to;
    if to == mine {
        return;
    }
    WAKE[to].notify_all();
    while w.cur != mine {
        w = WAKE[mine].wait(w).unwrap_or_else(|e| e.into_inner());
    }
}
/// A scheduling point between two statements.
#[inline]
pub fn point() {
    step(false)
}
pub fn sync_point() {
    step(true)
}
fn step(sync: bool) {
    let i = me();
    if i == usize::MAX {
        return;
    }
    let mut w = world();
    if !w.on {
        return;
    }
    if let Some(n) = decide(&mut w, i, true, sync) {
        hand_over(w, n, i);
    }
}
/// The running thread waits for somebody else: any other runnable thread goes first.
pub fn yield_point() {
    let i = me();
    if i == usize::MAX {
        ::std::thread::yield_now();
        return;
    }
    let mut w = world();
    if !w.on {
        return;
    }
    if let Some(n) = decide(&mut w, i, false, true) {
        hand_over(w, n, i);
    }
}
/// The running thread cannot go on until `unblock(addr)`.
pub fn block_on(addr: usize) {
    let i = me();
    if i == usize::MAX {
        ::std::thread::yield_now();
        return;
    }
    let mut w = world();
    w.threads[i] = Status::Blocked(addr);
    match decide(&mut w, i, false, true) {
        Some(n) => hand_over(w, n, i),
        None => {
            end(2);
            // nobody can run: park for good, the supervisor of this execution reports it
            while w.on {
                w = WAKE[i].wait(w).unwrap_or_else(|e| e.into_inner());
            }
        }
    }
}
pub fn unblock(addr: usize) {
    if me() == usize::MAX {
        return;
    }
    let mut w = world();
    for t in w.threads.iter_mut() {
        if *t == Status::Blocked(addr) {
            *t = Status::Ready;
        }
    }
}

/// Runs the bodies under `plan`; the answers come back in thread order, unless the execution
/// could not finish.
pub fn run(bodies: Vec<Box<dyn FnOnce() -> Vec<String> + Send>>, plan: &[(u32, u8)], limit: usize) -> (End, Vec<Vec<String>>) {
    let n = bodies.len();
    {
        let mut w = world();
        *w = World { cur: usize::MAX, threads: vec![Status::Ready; n], plan: plan.to_vec(), next_plan: 0, trace: vec![], on: true, diverged: false, limit };
    }
    let out: &'static Mutex<Vec<Vec<String>>> = Box::leak(Box::new(Mutex::new(vec![vec![]; n])));
    for (i, b) in bodies.into_iter().enumerate() {
        ::std::thread::spawn(move || {
            ME.with(|m| m.set(i));
            {
                let mut w = world();
                while w.cur != i {
                    w = WAKE[i].wait(w).unwrap_or_else(|e| e.into_inner());
                }
            }
            let r = b();
            out.lock().unwrap()[i] = r;
            let mut w = world();
            w.threads[i] = Status::Done;
            ME.with(|m| m.set(usize::MAX));
            if w.threads.iter().all(|t| *t == Status::Done) {
                end(1);
                return;
            }
            match decide(&mut w, i, false, true) {
                Some(k) => {
                    w.cur = k;
                    WAKE[k].notify_all();
                }
                None => end(2),
            }
        });
    }
    {
        // who starts is the first decision
        let mut w = world();
        let k = decide(&mut w, usize::MAX, false, true).unwrap();
        w.cur = k;
        WAKE[k].notify_all();
    }
    let mut e = END.lock().unwrap_or_else(|e| e.into_inner());
    while e.is_none() {
        e = ENDED.wait(e).unwrap_or_else(|e| e.into_inner());
    }
    let code = e.unwrap();
    let w = world();
    let r = out.lock().unwrap().clone();
    let unused = w.next_plan < w.plan.len();
    let end = match code {
        1 if w.diverged || unused => End::Diverged,
        1 => End::Finished(w.trace.clone()),
        2 => End::Deadlock(w.trace.clone()),
        _ => End::TooLong,
    };
    (end, r)
}
