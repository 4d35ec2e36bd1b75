//! Choice sequence, simulation context, deterministic executor with simulated time.
//!
//! Every decision of a run (workload, schedule, delay, fault) is a bounded draw from one stream.
//! With a seed the stream is a PRNG; with a replay file it is the recorded list (0 past its end).
//! 0 is always the simplest choice, so a shrunk list is a simpler run.

use std::{
    cell::RefCell,
    collections::{BTreeMap, BinaryHeap, VecDeque},
    future::Future,
    pin::Pin,
    sync::{Arc, Mutex},
    task::{Context, Poll, Wake, Waker},
};

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub enum Source {
    Seed(Rng),
    List(VecDeque<u32>),
}

#[derive(Debug, Clone)]
pub struct Violation {
    pub props: Vec<&'static str>,
    pub key: String,
    pub msg: String,
    pub at_ms: u64,
}

pub struct Timer {
    at: u64,
    seq: u64,
    waker: Waker,
}
impl PartialEq for Timer {
    fn eq(&self, o: &Self) -> bool {
        (self.at, self.seq) == (o.at, o.seq)
    }
}
impl Eq for Timer {}
impl PartialOrd for Timer {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Timer {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (o.at, o.seq).cmp(&(self.at, self.seq))
    }
}

type BoxFut = Pin<Box<dyn Future<Output = ()>>>;

pub enum Ctl {
    Spawn { id: u64, node: usize, name: &'static str, fut: BoxFut },
    KillNode(usize),
    KillTask(u64),
}

pub struct Ctx {
    pub src: Source,
    pub rec: Vec<u32>,
    pub now: u64,
    pub steps: u64,
    pub seq: u64,
    pub next_task: u64,
    pub cur_task: u64,
    pub cur_node: usize,
    timers: BinaryHeap<Timer>,
    ctl: Vec<Ctl>,
    pub keep_trace: bool,
    pub trace: Vec<String>,
    pub hash: u64,
    pub events: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub viol: Vec<Violation>,
    /// Set when faults are allowed; off in the calm phase.
    pub faults_on: bool,
    /// How far a node's wall clock is off.
    pub skew: BTreeMap<usize, i64>,
}

/// Where simulated wall clocks start (2026), and how long the machines have been up.
const EPOCH_MS: i64 = 1_770_000_000_000;
const UP_MS: i64 = 1_000_000;
fn show_clock(node: usize) {
    let (now, skew) = cx(|c| (c.now as i64, c.skew.get(&node).copied().unwrap_or(0)));
    crate::intercept::set_clock(Some((EPOCH_MS + now + skew, UP_MS + now)));
}

thread_local! {
    static CTX: RefCell<Option<Ctx>> = const { RefCell::new(None) };
}

pub fn ctx_install(src: Source, keep_trace: bool) {
    CTX.with(|c| {
        *c.borrow_mut() = Some(Ctx {
            src,
            rec: vec![],
            now: 0,
            steps: 0,
            seq: 0,
            next_task: 1,
            cur_task: 0,
            cur_node: 0,
            timers: BinaryHeap::new(),
            ctl: vec![],
            keep_trace,
            trace: vec![],
            hash: 0xcbf2_9ce4_8422_2325,
            events: 0,
            faults: BTreeMap::new(),
            probes: BTreeMap::new(),
            viol: vec![],
            faults_on: true,
            skew: BTreeMap::new(),
        })
    })
}
pub fn ctx_take() -> Ctx {
    CTX.with(|c| c.borrow_mut().take().unwrap())
}
pub fn cx<R>(f: impl FnOnce(&mut Ctx) -> R) -> R {
    CTX.with(|c| f(c.borrow_mut().as_mut().expect("no simulation on this thread")))
}

/// Uniform draw in 0..n.
pub const RUNAWAY: usize = 1_000_000;
pub fn draw(n: u32) -> u32 {
    if n <= 1 {
        return 0;
    }
    if cx(|c| c.rec.len()) >= RUNAWAY {
        panic!("more than {RUNAWAY} choices: a call that never ends")
    }
    cx(|c| {
        let v = match &mut c.src {
            Source::Seed(r) => (r.next() % n as u64) as u32,
            Source::List(l) => l.pop_front().unwrap_or(0) % n,
        };
        c.rec.push(v);
        v
    })
}
/// True with probability permille/1000; 0 means false.
pub fn chance(permille: u32) -> bool {
    if permille == 0 {
        return false;
    }
    draw(1000) >= 1000 - permille.min(1000)
}
/// Index drawn by weight; raw 0 is the first index with a weight.
pub fn weighted(w: &[u32]) -> usize {
    let total: u32 = w.iter().sum();
    let mut v = draw(total.max(1));
    for (i, x) in w.iter().enumerate() {
        if v < *x {
            return i;
        }
        v -= x;
    }
    0
}
pub fn pick<T: Clone>(xs: &[T]) -> T {
    xs[draw(xs.len() as u32) as usize].clone()
}
pub fn now() -> u64 {
    cx(|c| c.now)
}
pub fn cur_task() -> u64 {
    cx(|c| c.cur_task)
}
pub fn probe(name: &'static str) {
    cx(|c| *c.probes.entry(name).or_insert(0) += 1)
}
/// A fault that really fired.
pub fn fault(name: &'static str) {
    cx(|c| *c.faults.entry(name).or_insert(0) += 1);
    event(|| format!("FAULT {name}"));
}
pub fn faults_on() -> bool {
    cx(|c| c.faults_on)
}
/// Log an event. The text takes part in the schedule hash, so it names logical things only.
pub fn event(f: impl FnOnce() -> String) {
    let s = f();
    cx(|c| {
        for b in s.bytes().chain([10]) {
            c.hash = (c.hash ^ b as u64).wrapping_mul(0x100_0000_01b3);
        }
        c.events += 1;
        if c.keep_trace {
            let t = format!("{:>7} ms  {}", c.now, s);
            c.trace.push(t);
        }
    })
}
/// Detail for the reader only: not hashed.
pub fn note(f: impl FnOnce() -> String) {
    if cx(|c| c.keep_trace) {
        let s = f();
        cx(|c| {
            let t = format!("{:>7} ms    . {}", c.now, s);
            c.trace.push(t);
        })
    }
}
pub fn violation(props: &[&'static str], key: impl Into<String>, msg: impl Into<String>) {
    let (key, msg) = (key.into(), msg.into());
    cx(|c| {
        if c.keep_trace {
            let t = format!("{:>7} ms  !! {} {key}: {msg}", c.now, props.join(","));
            c.trace.push(t);
        }
        let at_ms = c.now;
        c.viol.push(Violation { props: props.to_vec(), key, msg, at_ms })
    })
}

// ---------------------------------------------------------------- time

pub struct Sleep {
    at: u64,
    registered: bool,
}
impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cxx: &mut Context<'_>) -> Poll<()> {
        if now() >= self.at {
            return Poll::Ready(());
        }
        if !self.registered {
            self.registered = true;
            let at = self.at;
            let waker = cxx.waker().clone();
            cx(|c| {
                c.seq += 1;
                let seq = c.seq;
                c.timers.push(Timer { at, seq, waker })
            });
        }
        Poll::Pending
    }
}
pub fn sleep(ms: u64) -> Sleep {
    Sleep { at: now() + ms, registered: false }
}
/// One scheduling point without any time passing.
pub async fn yield_now() {
    struct Y(bool);
    impl Future for Y {
        type Output = ();
        fn poll(mut self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<()> {
            if self.0 {
                return Poll::Ready(());
            }
            self.0 = true;
            c.waker().wake_by_ref();
            Poll::Pending
        }
    }
    Y(false).await
}

// ---------------------------------------------------------------- oneshot

struct ChanState<T> {
    value: Option<T>,
    closed: bool,
    waker: Option<Waker>,
}
pub struct Tx<T>(Arc<Mutex<ChanState<T>>>);
pub struct Rx<T>(Arc<Mutex<ChanState<T>>>);
pub fn oneshot<T>() -> (Tx<T>, Rx<T>) {
    let s = Arc::new(Mutex::new(ChanState { value: None, closed: false, waker: None }));
    (Tx(s.clone()), Rx(s))
}
impl<T> Tx<T> {
    pub fn send(self, v: T) {
        self.0.lock().unwrap().value = Some(v);
    }
}
impl<T> Drop for Tx<T> {
    fn drop(&mut self) {
        let mut s = self.0.lock().unwrap();
        s.closed = true;
        if let Some(w) = s.waker.take() {
            w.wake()
        }
    }
}
impl<T> Future for Rx<T> {
    type Output = Option<T>;
    fn poll(self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<Option<T>> {
        let mut s = self.0.lock().unwrap();
        if let Some(v) = s.value.take() {
            return Poll::Ready(Some(v));
        }
        if s.closed {
            return Poll::Ready(None);
        }
        s.waker = Some(c.waker().clone());
        Poll::Pending
    }
}
/// None on timeout.
pub async fn timeout<F: Future>(ms: u64, fut: F) -> Option<F::Output> {
    let mut fut = Box::pin(fut);
    let mut t = sleep(ms);
    std::future::poll_fn(move |c| {
        if let Poll::Ready(v) = fut.as_mut().poll(c) {
            return Poll::Ready(Some(v));
        }
        Pin::new(&mut t).poll(c).map(|_| None)
    })
    .await
}

// ---------------------------------------------------------------- executor

struct TaskWaker {
    id: u64,
    ready: Arc<Mutex<Vec<u64>>>,
}
impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        let mut r = self.ready.lock().unwrap();
        if !r.contains(&self.id) {
            r.push(self.id)
        }
    }
}

pub fn spawn(node: usize, name: &'static str, fut: impl Future<Output = ()> + 'static) -> u64 {
    let fut: BoxFut = Box::pin(fut);
    cx(|c| {
        let id = c.next_task;
        c.next_task += 1;
        c.ctl.push(Ctl::Spawn { id, node, name, fut });
        id
    })
}
pub fn kill_node(node: usize) {
    cx(|c| c.ctl.push(Ctl::KillNode(node)))
}
pub fn kill_task(id: u64) {
    cx(|c| c.ctl.push(Ctl::KillTask(id)))
}

struct Task {
    node: usize,
    name: &'static str,
    fut: BoxFut,
    waker: Waker,
}

pub enum End {
    /// Nothing left to run.
    Quiescent,
    /// Ran past the step limit: the names of the tasks still alive.
    StepLimit(Vec<&'static str>),
}

/// Runs until no task is left or nothing can make progress. Returns the names of stuck tasks.
pub fn run(max_steps: u64, on_panic: &dyn Fn(&'static str, String)) -> (End, Vec<&'static str>) {
    let r = run_tasks(max_steps, on_panic);
    crate::intercept::set_clock(None);
    r
}
fn run_tasks(max_steps: u64, on_panic: &dyn Fn(&'static str, String)) -> (End, Vec<&'static str>) {
    let ready: Arc<Mutex<Vec<u64>>> = Arc::default();
    let mut tasks: BTreeMap<u64, Task> = BTreeMap::new();
    loop {
        // absorb control
        loop {
            let ctl = cx(|c| std::mem::take(&mut c.ctl));
            if ctl.is_empty() {
                break;
            }
            for x in ctl {
                match x {
                    Ctl::Spawn { id, node, name, fut } => {
                        let waker = Waker::from(Arc::new(TaskWaker { id, ready: ready.clone() }));
                        tasks.insert(id, Task { node, name, fut, waker });
                        ready.lock().unwrap().push(id);
                    }
                    Ctl::KillNode(n) => {
                        let ids: Vec<u64> =
                            tasks.iter().filter(|(_, t)| t.node == n).map(|(i, _)| *i).collect();
                        for i in ids {
                            drop(tasks.remove(&i));
                        }
                    }
                    Ctl::KillTask(i) => drop(tasks.remove(&i)),
                }
            }
        }
        ready.lock().unwrap().retain(|i| tasks.contains_key(i));
        let n = ready.lock().unwrap().len();
        if n == 0 {
            if tasks.is_empty() {
                return (End::Quiescent, vec![]);
            }
            let t = cx(|c| {
                let t = c.timers.pop();
                if let Some(t) = &t {
                    c.now = c.now.max(t.at);
                }
                t
            });
            match t {
                Some(t) => t.waker.wake(),
                None => return (End::Quiescent, tasks.values().map(|t| t.name).collect()),
            }
            continue;
        }
        let i = draw(n as u32) as usize;
        let id = ready.lock().unwrap().remove(i);
        let t = tasks.get_mut(&id).unwrap();
        let (name, node) = (t.name, t.node);
        let steps = cx(|c| {
            c.cur_task = id;
            c.cur_node = node;
            c.steps += 1;
            for b in name.bytes() {
                c.hash = (c.hash ^ b as u64).wrapping_mul(0x100_0000_01b3);
            }
            c.hash = (c.hash ^ (node as u64 + 1)).wrapping_mul(0x100_0000_01b3);
            c.steps
        });
        if steps > max_steps {
            return (End::StepLimit(tasks.values().map(|t| t.name).collect()), vec![]);
        }
        show_clock(node);
        let waker = t.waker.clone();
        let mut c = Context::from_waker(&waker);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.fut.as_mut().poll(&mut c)));
        match r {
            Ok(Poll::Pending) => {}
            Ok(Poll::Ready(())) => drop(tasks.remove(&id)),
            Err(p) => {
                let msg = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                let t = tasks.remove(&id).unwrap();
                std::mem::forget(t.fut);
                on_panic(name, msg);
            }
        }
    }
}

/// Polls a future that needs nothing from outside to finish, in place.
pub fn run_now<F: Future>(fut: F) -> F::Output {
    let mut fut = Box::pin(fut);
    let mut c = Context::from_waker(Waker::noop());
    for _ in 0..10_000 {
        if let Poll::Ready(v) = fut.as_mut().poll(&mut c) {
            return v;
        }
    }
    panic!("in-place operation never finished");
}
