//! Stateless exhaustive explorer: an exploration is a closure that takes its decisions from a
//! `Chooser`; the explorer executes it once for every decision sequence within the bound.
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Condvar, Mutex};
use std::time::Instant;

/// The stack of an exploring thread: what a thread has by default, so that reading or writing that
/// recurses without bound is noticed.
pub const STACK: usize = 2 << 20;

pub type Prefix = Vec<u32>;

pub struct Chooser {
    prefix: Prefix,
    /// (chosen, alternatives, price of a non-zero choice)
    trace: Vec<(u32, u32, u32)>,
    cost: u32,
    /// only the first alternatives of every decision that costs something
    pub light: bool,
}

impl Chooser {
    pub fn new(prefix: Prefix) -> Chooser {
        Chooser { prefix, trace: Vec::new(), cost: 0, light: false }
    }
    fn choose(&mut self, n: usize, price: u32) -> usize {
        assert!(n > 0, "HARNESS: choice among nothing");
        let i = self.trace.len();
        let c = match self.prefix.get(i) {
            Some(c) => *c as usize,
            None => 0,
        };
        assert!(c < n, "HARNESS: exploration is not deterministic ({c} of {n})");
        self.trace.push((c as u32, n as u32, price));
        if c > 0 {
            self.cost += price;
        }
        c
    }
    /// A free choice: every alternative is explored under every bound.
    pub fn pick(&mut self, n: usize) -> usize {
        self.choose(n, 0)
    }
    /// Alternative 0 is the default, every other one costs a deviation.
    pub fn dev(&mut self, n: usize) -> usize {
        self.choose(if self.light { n.min(3) } else { n }, 1)
    }
    /// As `dev`, at the price of two deviations (expensive values).
    pub fn dev2(&mut self, n: usize) -> usize {
        self.choose(n, 2)
    }
    pub fn of<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.pick(xs.len())]
    }
    pub fn devof<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.dev(xs.len())]
    }
}

/// Runs `f` on every decision sequence of at most `bound` deviations, here and now.
pub fn each(bound: u32, f: &mut dyn FnMut(&mut Chooser)) {
    let mut todo: Vec<Prefix> = vec![vec![]];
    while let Some(prefix) = todo.pop() {
        let base = prefix.len();
        let mut ch = Chooser::new(prefix);
        f(&mut ch);
        let cost: u32 = ch.trace[..base].iter().map(|t| if t.0 > 0 { t.2 } else { 0 }).sum();
        for i in base..ch.trace.len() {
            let (_, n, price) = ch.trace[i];
            if cost + price <= bound {
                for alt in 1..n {
                    let mut p: Prefix = ch.trace[..i].iter().map(|t| t.0).collect();
                    p.push(alt);
                    todo.push(p);
                }
            }
        }
    }
}

#[derive(Default, Clone)]
pub struct Ctx {
    pub tier_thorough: bool,
    /// complete scenarios compared with the model
    pub cases: u64,
    /// nodes of the decision tree
    pub nodes: u64,
    /// calls into the implementation
    pub ops: u64,
    pub leaves: u64,
    pub outcomes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub beat: Option<&'static AtomicU64>,
}

impl Ctx {
    /// Counts one complete scenario and its outcome class.
    pub fn case(&mut self, outcome: &str) {
        self.cases += 1;
        match self.outcomes.get_mut(outcome) {
            Some(n) => *n += 1,
            None => {
                self.outcomes.insert(outcome.to_string(), 1);
            }
        }
        if self.cases & 255 == 0 {
            self.tick();
        }
    }
    /// Counts a member of the decision tree that stands for no scenario.
    pub fn skip(&mut self, why: &str) {
        *self.outcomes.entry(format!("(no scenario: {why})")).or_default() += 1;
    }
    /// Shows the watchdog that work goes on.
    pub fn tick(&mut self) {
        if let Some(b) = self.beat {
            b.fetch_add(1, SeqCst);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 4 {
            let mut s = f();
            if s.len() > 400 {
                let mut i = 400;
                while !s.is_char_boundary(i) {
                    i -= 1;
                }
                s.truncate(i);
                s.push_str("...");
            }
            self.samples.push(s);
        }
    }
}

pub type Outcome = Result<(), String>;
pub struct Exploration {
    pub name: String,
    /// most deviations explored
    pub bound: u32,
    /// run on one thread (memory-hungry cases)
    pub single: bool,
    /// seconds without progress that count as a hang
    pub hang: u64,
    pub f: Box<dyn Fn(&mut Ctx, &mut Chooser) -> Outcome + Send + Sync>,
}
pub fn expl(name: impl Into<String>, bound: u32, f: impl Fn(&mut Ctx, &mut Chooser) -> Outcome + Send + Sync + 'static) -> Exploration {
    Exploration { name: name.into(), bound, single: false, hang: 120, f: Box::new(f) }
}
impl Exploration {
    pub fn single(mut self) -> Self {
        self.single = true;
        self
    }
}

pub struct Violation {
    pub prefix: Prefix,
    pub message: String,
}

thread_local! {
    static PANIC: std::cell::RefCell<Option<String>> = std::cell::RefCell::new(None);
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let p = i.payload();
        let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into());
        let l = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|c| *c.borrow_mut() = Some(format!("{m}{l}")));
    }));
}
pub fn take_panic() -> String {
    PANIC.with(|c| c.borrow_mut().take()).unwrap_or_else(|| "panic".into())
}

/// Runs one leaf; any panic is an outcome, too.
pub fn run_leaf(e: &Exploration, ctx: &mut Ctx, ch: &mut Chooser) -> Outcome {
    crate::alloc_meter::reset();
    crate::adapt::OPS.with(|c| c.set(0));
    let r = catch_unwind(AssertUnwindSafe(|| (e.f)(ctx, ch)));
    ctx.ops += crate::adapt::OPS.with(|c| c.get());
    ctx.leaves += 1;
    match r {
        Ok(Ok(())) => Ok(()),
        Ok(Err(m)) => Err(m),
        Err(_) => {
            let p = take_panic();
            if p.contains("HARNESS:") {
                Err(p)
            } else {
                let last = crate::adapt::LAST.with(|l| hex(&l.borrow()));
                Err(format!("panic: {p} (last input to the implementation begins {last})"))
            }
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for (i, x) in b.iter().enumerate() {
        if i == 80 {
            s.push_str(&format!("... ({} bytes)", b.len()));
            break;
        }
        s.push_str(&format!("{x:02x}"));
    }
    if b.is_empty() {
        s.push('-');
    }
    s
}

struct Queue {
    stack: Vec<Prefix>,
    next: Vec<Prefix>,
    active: usize,
}

pub struct Journal(pub Option<std::fs::File>);
impl Journal {
    pub const SLOT: usize = 4096;
    pub fn note(&self, worker: usize, expl: usize, prefix: &[u32]) {
        use std::os::unix::fs::FileExt;
        if let Some(f) = &self.0 {
            let mut b = format!("{expl}:");
            for (i, p) in prefix.iter().enumerate() {
                if i > 0 {
                    b.push(',');
                }
                b.push_str(&p.to_string());
            }
            b.push('\n');
            b.truncate(Self::SLOT);
            let _ = f.write_at(b.as_bytes(), (worker * Self::SLOT) as u64);
        }
    }
}

/// However a worker ends, the others and the watchdog learn of it.
struct End<'a> {
    left: &'a AtomicU64,
    stop: &'a AtomicBool,
    cv: &'a Condvar,
}
impl Drop for End<'_> {
    fn drop(&mut self) {
        if std::thread::panicking() {
            self.stop.store(true, SeqCst);
            self.cv.notify_all();
        }
        self.left.fetch_sub(1, SeqCst);
    }
}

/// Explores completely. Returns the counters and the first violation found, if any.
pub fn explore(index: usize, e: &Exploration, thorough: bool, journal: &Journal, workers: usize) -> (Ctx, Option<Violation>) {
    let workers = if e.single { 1 } else { workers };
    let q = Mutex::new(Queue { stack: vec![vec![]], next: vec![], active: 0 });
    let cv = Condvar::new();
    let stop = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let found: Mutex<Option<Violation>> = Mutex::new(None);
    let total: Mutex<Ctx> = Mutex::new(Ctx::default());
    let beats: &'static Vec<AtomicU64> = Box::leak(Box::new((0..workers).map(|_| AtomicU64::new(0)).collect()));
    let current: Vec<Mutex<Option<Prefix>>> = (0..workers).map(|_| Mutex::new(None)).collect();
    let left = AtomicU64::new(workers as u64);

    std::thread::scope(|s| {
        for w in 0..workers {
            let (q, cv, stop, found, total, current, left) = (&q, &cv, &stop, &found, &total, &current, &left);
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(s, move || {
                    let _end = End { left, stop, cv };
                    let mut ctx = Ctx { tier_thorough: thorough, beat: Some(&beats[w]), ..Ctx::default() };
                    let mut local: Vec<Prefix> = vec![];
                    'outer: loop {
                        if local.is_empty() {
                            let mut g = q.lock().unwrap();
                            loop {
                                if stop.load(SeqCst) {
                                    break 'outer;
                                }
                                let n = g.stack.len();
                                if n > 0 {
                                    let take = (n / (2 * workers)).clamp(1, 256);
                                    local = g.stack.split_off(n - take);
                                    g.active += 1;
                                    break;
                                }
                                if g.active == 0 {
                                    if g.next.is_empty() {
                                        stop.store(true, SeqCst);
                                        cv.notify_all();
                                        break 'outer;
                                    }
                                    let q = &mut *g;
                                    std::mem::swap(&mut q.stack, &mut q.next);
                                    continue;
                                }
                                g = cv.wait_timeout(g, std::time::Duration::from_millis(50)).unwrap().0;
                            }
                        }
                        let (mut same, mut next) = (vec![], vec![]);
                        while let Some(prefix) = local.pop() {
                            if stop.load(SeqCst) {
                                break;
                            }
                            journal.note(w, index, &prefix);
                            *current[w].lock().unwrap() = Some(prefix.clone());
                            beats[w].fetch_add(1, SeqCst);
                            let base = prefix.len();
                            let mut ch = Chooser::new(prefix);
                            let r = run_leaf(e, &mut ctx, &mut ch);
                            *current[w].lock().unwrap() = None;
                            if let Err(m) = r {
                                let mut f = found.lock().unwrap();
                                if f.is_none() {
                                    *f = Some(Violation { prefix: ch.trace.iter().map(|t| t.0).collect(), message: m });
                                }
                                stop.store(true, SeqCst);
                                cv.notify_all();
                                break;
                            }
                            assert!(ch.trace.len() >= ch.prefix.len(), "HARNESS: exploration took fewer decisions on replay");
                            // nodes first reached by this run
                            ctx.nodes += (ch.trace.len() - base) as u64 + 1;
                            let mut cost: u32 = ch.trace[..base].iter().map(|t| if t.0 > 0 { t.2 } else { 0 }).sum();
                            for i in base..ch.trace.len() {
                                let (c, n, price) = ch.trace[i];
                                debug_assert_eq!(c, 0);
                                if cost + price <= e.bound {
                                    for alt in 1..n {
                                        let mut p: Prefix = Vec::with_capacity(i + 1);
                                        p.extend(ch.trace[..i].iter().map(|t| t.0));
                                        p.push(alt);
                                        if price == 0 {
                                            same.push(p)
                                        } else {
                                            next.push(p)
                                        }
                                    }
                                }
                                cost += 0;
                            }
                            // keep working locally on same-level work, share when others idle
                            if same.len() + next.len() > 512 {
                                let mut g = q.lock().unwrap();
                                g.stack.append(&mut same);
                                g.next.append(&mut next);
                                drop(g);
                                cv.notify_all();
                            }
                        }
                        let mut g = q.lock().unwrap();
                        g.stack.append(&mut same);
                        g.next.append(&mut next);
                        g.active -= 1;
                        drop(g);
                        cv.notify_all();
                        if stop.load(SeqCst) {
                            break;
                        }
                    }
                    let mut t = total.lock().unwrap();
                    t.cases += ctx.cases;
                    t.nodes += ctx.nodes;
                    t.ops += ctx.ops;
                    t.leaves += ctx.leaves;
                    for (k, v) in ctx.outcomes {
                        *t.outcomes.entry(k).or_default() += v;
                    }
                    if t.samples.len() < 4 {
                        t.samples.extend(ctx.samples);
                    }
                })
                .expect("HARNESS: spawn");
        }
        // watchdog
        let mut seen: Vec<(u64, Instant)> = beats.iter().map(|b| (b.load(SeqCst), Instant::now())).collect();
        let mut nap = 1;
        while left.load(SeqCst) > 0 {
            std::thread::sleep(std::time::Duration::from_millis(nap));
            nap = (nap * 2).min(100);
            for w in 0..workers {
                let b = beats[w].load(SeqCst);
                let cur = current[w].lock().unwrap().clone();
                if b != seen[w].0 || cur.is_none() {
                    seen[w] = (b, Instant::now());
                } else if seen[w].1.elapsed().as_secs() >= e.hang {
                    // The thread cannot be stopped: report from here and end the process.
                    let v = Violation { prefix: cur.unwrap(), message: format!("no answer within {} s: the call does not return", e.hang) };
                    crate::report_hang(index, e, v);
                }
            }
        }
        done.store(true, SeqCst);
    });
    let c = total.into_inner().unwrap();
    (c, found.into_inner().unwrap())
}
