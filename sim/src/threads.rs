//! Real threads, one of which runs at a time. The controller (which owns the choice stream) hands the
//! turn to a worker together with a budget of memory-allocator calls and of single machine
//! instructions after the last of them; the worker gives it back when the budget is used up (that
//! is: anywhere inside an operation, also while it holds a lock), when it would block on a lock, when
//! its future is pending, or when its operation is over.
//!
//! Here: the in-memory store; the recorded history has to be linearizable. See also parallel.rs.

use crate::core::*;
use crate::gen;
use crate::store::{js, stage};
use anyhow::{bail, Result};
use async_trait::async_trait;
use openid4vp::core::authorization_request::AuthorizationRequestObject;
use openid4vp::verifier::session::{MemoryStore, Outcome, Session, SessionStore, Status};
use serde_json::json;
use std::{
    cell::Cell,
    collections::{BTreeSet, HashSet},
    future::Future,
    pin::Pin,
    sync::{
        atomic::{AtomicBool, Ordering},
        Arc, Condvar, Mutex,
    },
    task::{Context, Poll, Wake, Waker},
};
use uuid::Uuid;

thread_local! {
    static ME: Cell<Option<*const Gate>> = const { Cell::new(None) };
    static BUDGET: Cell<u32> = const { Cell::new(0) };
    /// Instructions to go after the last allocator call, and while single-stepping, those left.
    static FINE: Cell<u32> = const { Cell::new(0) };
    static STEPS: Cell<u32> = const { Cell::new(0) };
    static ALL_STEPS: Cell<u32> = const { Cell::new(0) };
    static OWN_STEPS: Cell<u32> = const { Cell::new(0) };
    /// Whether only instructions that synchronize count, and whether the last one was one.
    static ATOMICS: Cell<bool> = const { Cell::new(false) };
    static LAST_ATOMIC: Cell<bool> = const { Cell::new(false) };
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Back {
    Preempted,
    Blocked,
    Pending,
    Returned,
    Finished,
}
#[derive(Default)]
struct Turn {
    worker: bool,
    budget: u32,
    fine: u32,
    cancel: bool,
    /// Simulated milliseconds.
    now: i64,
    back: Option<Back>,
}
#[derive(Default)]
struct Gate {
    m: Mutex<Turn>,
    c: Condvar,
}
impl Gate {
    /// Worker: gives the turn back and waits for the next one. True: cancel the operation.
    fn give_back(&self, b: Back) -> bool {
        let mut t = self.m.lock().unwrap();
        t.back = Some(b);
        t.worker = false;
        self.c.notify_all();
        if b == Back::Finished {
            return false;
        }
        while !t.worker {
            t = self.c.wait(t).unwrap();
        }
        crate::intercept::set_clock(Some((1_770_000_000_000 + t.now, 1_000_000 + t.now)));
        BUDGET.with(|x| x.set(t.budget));
        FINE.with(|x| x.set(t.fine));
        t.cancel
    }
    fn first(&self) {
        let mut t = self.m.lock().unwrap();
        while !t.worker {
            t = self.c.wait(t).unwrap();
        }
        crate::intercept::set_clock(Some((1_770_000_000_000 + t.now, 1_000_000 + t.now)));
        BUDGET.with(|x| x.set(t.budget));
        FINE.with(|x| x.set(t.fine));
    }
    /// Controller: one turn.
    fn run(&self, now: i64, budget: u32, fine: u32, cancel: bool) -> Option<Back> {
        let mut t = self.m.lock().unwrap();
        t.worker = true;
        t.budget = budget;
        t.fine = fine;
        t.cancel = cancel;
        t.now = now;
        t.back = None;
        self.c.notify_all();
        let end = std::time::Instant::now() + std::time::Duration::from_secs(20);
        while t.worker {
            let left = end.saturating_duration_since(std::time::Instant::now());
            if left.is_zero() {
                return None;
            }
            t = self.c.wait_timeout(t, left).unwrap().0;
        }
        t.back
    }
}

/// Runs `f` with the hooks of this thread off.
fn outside<R>(f: impl FnOnce(&Gate) -> R) -> Option<R> {
    let g = ME.try_with(|m| m.take()).ok().flatten()?;
    for x in [&STEPS, &BUDGET, &FINE] {
        x.with(|x| x.set(0));
    }
    let r = f(unsafe { &*g });
    ME.with(|m| m.set(Some(g)));
    Some(r)
}
/// Every call of the allocator.
#[inline]
pub fn alloc_point() {
    let Ok(b) = BUDGET.try_with(|b| b.get()) else { return };
    if b == 0 {
        return;
    }
    BUDGET.with(|x| x.set(b - 1));
    if b == 1 {
        match FINE.with(|f| f.take()) {
            0 => drop(outside(|g| g.give_back(Back::Preempted))),
            n => single_step(n),
        }
    }
}

// ---------------------------------------------------------------- single instructions

extern "C" {
    static __executable_start: u8;
    static etext: u8;
    #[link_name = "_end"]
    static LAST: u8;
}
/// Set in a number of instructions of which only those count that synchronize.
const SYNC: u32 = 1 << 30;
/// Most instructions of one budget, those outside of this program (in libc) included.
const MOST: u32 = 200_000;
pub fn catch_traps() {
    #[cfg(target_arch = "x86_64")]
    unsafe {
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = trapped as *const () as usize;
        a.sa_flags = libc::SA_SIGINFO;
        libc::sigaction(libc::SIGTRAP, &a, std::ptr::null_mut());
        // Where the trap flag has no effect there are no preemptions between instructions.
        STEPS.with(|s| s.set(3));
        ALL_STEPS.with(|s| s.set(MOST));
        std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq", "nop", "nop", "nop", "nop", "nop", "nop");
        TRAPS.store(STEPS.with(|s| s.take()) == 0, Ordering::Relaxed);
    }
}
static TRAPS: AtomicBool = AtomicBool::new(false);
/// From here on the processor traps after every instruction; `n` instructions of this program later
/// the turn is given back.
#[cfg(target_arch = "x86_64")]
#[inline(never)]
fn single_step(n: u32) {
    if !TRAPS.load(Ordering::Relaxed) {
        outside(|g| g.give_back(Back::Preempted));
        return;
    }
    ATOMICS.with(|x| x.set(n & SYNC != 0));
    LAST_ATOMIC.with(|x| x.set(false));
    STEPS.with(|s| s.set(n & !SYNC));
    ALL_STEPS.with(|s| s.set(MOST));
    OWN_STEPS.with(|s| s.set(1200));
    unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") }
}
#[cfg(not(target_arch = "x86_64"))]
fn single_step(_: u32) {
    outside(|g| g.give_back(Back::Preempted));
}
/// Whether the instruction here has a lock prefix or is an exchange with memory.
#[cfg(target_arch = "x86_64")]
fn synchronizes(rip: usize) -> bool {
    let at = |i: usize| unsafe { *(rip as *const u8).add(i) };
    let mut i = 0;
    while i < 4 {
        match at(i) {
            0xf0 => return true,
            0x86 | 0x87 => return at(i + 1) < 0xc0,
            0x66 | 0x40..=0x4f | 0xf2 | 0xf3 => i += 1,
            _ => return false,
        }
    }
    false
}
#[cfg(target_arch = "x86_64")]
extern "C" fn trapped(_: libc::c_int, _: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    let ctx = unsafe { &mut *(ctx as *mut libc::ucontext_t) };
    let rip = ctx.uc_mcontext.gregs[libc::REG_RIP as usize] as usize;
    let mut left = STEPS.with(|s| s.get());
    let all = ALL_STEPS.with(|s| s.get());
    let (a, b) = (&raw const __executable_start as usize, &raw const etext as usize);
    let mine = (a..b).contains(&rip);
    if left > 0 && mine {
        // Among single instructions or among those that synchronize.
        let counts = !ATOMICS.with(|x| x.get()) || LAST_ATOMIC.with(|x| x.get());
        LAST_ATOMIC.with(|x| x.set(synchronizes(rip)));
        left -= counts as u32;
        let own = OWN_STEPS.with(|s| s.get()).saturating_sub(1);
        OWN_STEPS.with(|s| s.set(own));
        if own == 0 {
            left = 0;
        }
        STEPS.with(|s| s.set(left));
        if left == 0 {
            let errno = unsafe { *libc::__errno_location() };
            outside(|g| g.give_back(Back::Preempted));
            unsafe { *libc::__errno_location() = errno };
        }
    }
    ALL_STEPS.with(|s| s.set(all.saturating_sub(1)));
    if left == 0 || all == 0 {
        STEPS.with(|s| s.set(0));
        ctx.uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100;
    }
}
/// A lock that is taken: somebody else has to run. False outside the simulation.
pub fn futex_wait(addr: usize) -> bool {
    outside(|g| {
        let (a, b) = (&raw const __executable_start as usize, &raw const LAST as usize);
        if (a..b).contains(&addr) {
            // One of the whole process: its holder may belong to another run.
            std::thread::sleep(std::time::Duration::from_millis(1));
        }
        g.give_back(Back::Blocked)
    })
    .is_some()
}

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst)
    }
}

// ---------------------------------------------------------------- operations

#[derive(Clone, Debug)]
enum Op {
    Init(Box<Session>),
    Update(Status),
    Advance(Status),
    Get,
    Remove,
}
#[derive(Clone, Debug)]
struct Step {
    key: usize,
    op: Op,
    /// Session ids of one key are one id; keys are different ids.
    id: Uuid,
}
#[derive(Clone, Debug, PartialEq)]
enum Res {
    Ok,
    Session(String),
    Err,
    /// Dropped before it returned: it may have taken effect or not.
    Cancelled,
}
#[derive(Clone, Debug)]
struct Rec {
    thread: usize,
    step: Step,
    from: u64,
    to: u64,
    res: Res,
    msg: String,
}

fn session_text(s: &Session) -> String {
    json!([s.uuid, js(&s.status), s.authorization_request_jwt, js(&s.authorization_request_object), js(&s.dcql_query)])
        .to_string()
}

/// A store that does not override anything that has a default.
#[derive(Debug, Clone)]
struct Plain(MemoryStore);
#[async_trait]
impl SessionStore for Plain {
    async fn initiate(&self, s: Session) -> Result<()> {
        self.0.initiate(s).await
    }
    async fn update_status(&self, u: Uuid, s: Status) -> Result<()> {
        self.0.update_status(u, s).await
    }
    async fn get_session(&self, u: Uuid) -> Result<Session> {
        let r = self.0.get_session(u).await;
        if let Ok(s) = &r {
            if s.uuid != u {
                bail!("another session")
            }
        }
        r
    }
    async fn remove_session(&self, u: Uuid) -> Result<()> {
        self.0.remove_session(u).await
    }
}

type Shared = Arc<dyn SessionStore + Send + Sync>;
fn start(store: Shared, s: Step) -> Pin<Box<dyn Future<Output = (Res, String)> + Send>> {
    Box::pin(async move {
        let id = s.id;
        let r = match s.op {
            Op::Init(x) => store.initiate(*x).await.map(|_| None),
            Op::Update(x) => store.update_status(id, x).await.map(|_| None),
            Op::Advance(x) => store.advance_status(id, x).await.map(|_| None),
            Op::Get => store.get_session(id).await.map(Some),
            Op::Remove => store.remove_session(id).await.map(|_| None),
        };
        match r {
            Ok(Some(x)) => (Res::Session(session_text(&x)), String::new()),
            Ok(None) => (Res::Ok, String::new()),
            Err(e) => (Res::Err, format!("{e:#}")),
        }
    })
}

// ---------------------------------------------------------------- driving threads

pub type Job<T> = Box<dyn FnOnce() -> Pin<Box<dyn Future<Output = T> + Send>> + Send>;
pub enum End<T> {
    Ready(T),
    /// Dropped before it returned: it may have taken effect or not.
    Cancelled,
    Panicked,
}
/// A job that is over: thread, number, and the instants between which it ran.
pub struct Done<T> {
    pub thread: usize,
    pub no: usize,
    pub from: u64,
    pub to: u64,
    pub end: End<T>,
}
pub struct How {
    pub pauses: u32,
    pub cancel: u32,
    /// How often a turn has a limit at all, how many allocator calls it may have, and how often it ends
    /// between two of them.
    pub preempt: u32,
    pub calls: (u32, u32),
    pub fine: u32,
    /// How often that is at an instruction that synchronizes.
    pub sync: u32,
}

type Out<T> = Arc<Mutex<Option<End<T>>>>;
struct Worker<T> {
    gate: Arc<Gate>,
    flag: Arc<Flag>,
    out: Out<T>,
}

fn worker<T>(gate: Arc<Gate>, flag: Arc<Flag>, jobs: Vec<Job<T>>, out: Out<T>) {
    gate.first();
    let waker = Waker::from(flag.clone());
    ME.with(|m| m.set(Some(Arc::as_ptr(&gate))));
    for job in jobs {
        let mut fut = Some(job());
        let end = loop {
            flag.0.store(false, Ordering::SeqCst);
            let polled = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                fut.as_mut().unwrap().as_mut().poll(&mut Context::from_waker(&waker))
            }));
            match polled {
                Err(_) => {
                    std::mem::forget(fut.take());
                    break End::Panicked;
                }
                Ok(Poll::Ready(x)) => break End::Ready(x),
                Ok(Poll::Pending) => {
                    if outside(|g| g.give_back(Back::Pending)) == Some(true) {
                        drop(fut.take());
                        break End::Cancelled;
                    }
                }
            }
        };
        drop(fut);
        outside(|g| {
            *out.lock().unwrap() = Some(end);
            g.give_back(Back::Returned)
        });
    }
    ME.with(|m| m.set(None));
    gate.give_back(Back::Finished);
}

/// Runs the jobs of every thread to their end, interleaved by choice. Err: threads that are stuck.
pub fn drive<T: Send + 'static>(jobs: Vec<Vec<Job<T>>>, how: How, props: &[&'static str]) -> Result<Vec<Done<T>>, Vec<usize>> {
    let threads = jobs.len();
    let mut now = 0i64;
    let mut ws: Vec<Worker<T>> = vec![];
    let mut handles = vec![];
    let base = draw(1 << 16) as u64;
    let len: Vec<usize> = jobs.iter().map(|j| j.len()).collect();
    for (i, j) in jobs.into_iter().enumerate() {
        let wk = Worker { gate: Arc::default(), flag: Arc::new(Flag(AtomicBool::new(false))), out: Arc::default() };
        let (g, f, o) = (wk.gate.clone(), wk.flag.clone(), wk.out.clone());
        handles.push(
            std::thread::Builder::new()
                .stack_size(2 << 20)
                .spawn(move || {
                    crate::intercept::seed_thread(base + i as u64);
                    worker(g, f, j, o)
                })
                .unwrap(),
        );
        ws.push(wk);
    }
    #[derive(PartialEq, Clone, Copy)]
    enum S {
        Ready,
        /// Preempted inside an operation.
        Inside,
        Blocked,
        Waiting,
        Done,
    }
    let mut st = vec![S::Ready; threads];
    let mut done: Vec<Done<T>> = vec![];
    let mut open: Vec<Option<u64>> = vec![None; threads];
    let mut next = vec![0usize; threads];
    let mut clock = 0u64;
    let mut turns = 0;
    let mut stale = 0;
    let mut hung = false;
    loop {
        let mut can: Vec<usize> = (0..threads)
            .filter(|i| match st[*i] {
                S::Ready | S::Inside | S::Blocked => true,
                S::Waiting => ws[*i].flag.0.load(Ordering::SeqCst),
                S::Done => false,
            })
            .collect();
        // Somebody who waits for a lock is tried again, but not over and over while others can run.
        if can.iter().any(|i| st[*i] != S::Blocked) && stale > 0 {
            can.retain(|i| st[*i] != S::Blocked);
        }
        let waiting: Vec<usize> = (0..threads).filter(|i| st[*i] == S::Waiting).collect();
        let mut cancel = false;
        let who = if !waiting.is_empty() && how.cancel > 0 && chance(how.cancel) {
            cancel = true;
            fault("operation_cancelled");
            pick(&waiting)
        } else if can.is_empty() {
            break;
        } else {
            pick(&can)
        };
        if st[who] == S::Ready && open[who].is_none() {
            if next[who] == len[who] {
                ws[who].gate.run(now, 0, 0, false);
                st[who] = S::Done;
                continue;
            }
            clock += 1;
            open[who] = Some(clock);
        }
        let budget = if chance(how.preempt) { 1 + draw(if chance(300) { how.calls.1 } else { how.calls.0 }) } else { 0 };
        let fine = if budget > 0 && chance(how.fine) {
            if chance(how.sync) {
                SYNC | (1 + draw(if chance(700) { 4 } else { 12 }))
            } else {
                1 + draw(if chance(300) { 250 } else { 40 })
            }
        } else {
            0
        };
        turns += 1;
        let was_blocked = st[who] == S::Blocked;
        if chance(how.pauses) {
            fault("long_pause");
            now += pick(&[61_000i64, 3_700_000, 90_000_000, 40_000_000_000]);
        }
        now += 1 + draw(3) as i64;
        let back = ws[who].gate.run(now, budget, fine, cancel);
        event(|| format!("thread {who} op {} {:?}", next[who], back));
        match back {
            None => {
                violation(props, "thread-hang", "an operation neither returned nor waited for 20 s while it had the processor");
                hung = true;
                break;
            }
            Some(Back::Preempted) => {
                fault(if fine > 0 { "thread_preempted_between_instructions" } else { "thread_preempted" });
                st[who] = S::Inside;
                stale = 0;
            }
            Some(Back::Blocked) => {
                fault("thread_blocked_on_lock");
                st[who] = S::Blocked;
                stale = if was_blocked { stale + 1 } else { 1 };
            }
            Some(Back::Pending) => {
                probe("operation_waited");
                st[who] = S::Waiting;
                stale = 0;
            }
            Some(Back::Returned) => {
                clock += 1;
                let end = ws[who].out.lock().unwrap().take().unwrap();
                done.push(Done { thread: who, no: next[who], from: open[who].take().unwrap(), to: clock, end });
                next[who] += 1;
                st[who] = S::Ready;
                stale = 0;
            }
            Some(Back::Finished) => st[who] = S::Done,
        }
        if turns > 20_000 {
            break;
        }
    }
    let left: Vec<usize> = (0..threads).filter(|i| st[*i] != S::Done).collect();
    if !left.is_empty() {
        // Their threads stay parked; they hold nothing but what belongs to this run.
        std::mem::forget(handles);
        return Err(if hung { vec![] } else { left });
    }
    for h in handles {
        h.join().ok();
    }
    // Overlap that really happened.
    if done.iter().any(|a| done.iter().any(|b| a.thread != b.thread && a.from < b.to && b.from < a.to)) {
        probe("overlapping_operations");
    }
    Ok(done)
}

// ---------------------------------------------------------------- generating

const ARO: &str = r#"{"client_id":"c","response_type":"vp_token","response_mode":"direct_post","nonce":"n",
"response_uri":"https://svc.example/submit/1","dcql_query":{"credentials":[{"id":"c","format":"mso_mdoc","meta":{}}]}}"#;

fn status(n: &mut u32) -> Status {
    *n += 1;
    match draw(5) {
        0 => Status::SentRequest,
        1 => Status::ReceivedResponse,
        2 => Status::SentRequestByReference,
        3 => Status::Complete(Outcome::Success { info: json!({"n": *n}) }),
        _ => Status::Complete(Outcome::Failure { reason: format!("reason {n}") }),
    }
}
fn session(id: Uuid, n: &mut u32) -> Session {
    *n += 1;
    let mut o: serde_json::Value = serde_json::from_str(ARO).unwrap();
    o["nonce"] = json!(format!("n{n}"));
    if chance(300) {
        o["x"] = gen::value(1);
    }
    let aro: AuthorizationRequestObject = serde_json::from_value(o.clone()).unwrap();
    Session {
        uuid: id,
        status: status(n),
        authorization_request_jwt: format!("jwt{n}"),
        dcql_query: serde_json::from_value(o["dcql_query"].clone()).unwrap(),
        authorization_request_object: aro,
    }
}

pub fn run_threads() {
    let sequential = chance(100);
    let threads = if sequential { 1 } else { 2 + draw(3) as usize };
    let keys = 1 + draw(3) as usize;
    let mut ids: Vec<Uuid> = (0..keys).map(|_| Uuid::new_v4()).collect();
    if chance(300) {
        // Ids of much the same shape.
        let (a, half) = (ids[0].as_u128(), u64::MAX as u128);
        let how = draw(4);
        for (i, id) in ids.iter_mut().enumerate() {
            let (o, i) = (id.as_u128(), i as u128);
            *id = Uuid::from_u128(match how {
                0 => i,
                1 => (a & !half) | (o & half),
                2 => (o & !half) | (a & half),
                _ => a ^ (1 << (i * 40)),
            })
        }
    }
    let mem = MemoryStore::default();
    let default_advance = sequential && chance(700);
    let shared = |m: &MemoryStore| -> Shared {
        if default_advance {
            Arc::new(Plain(m.clone()))
        } else {
            Arc::new(m.clone())
        }
    };
    let mut n = 0;
    // Some sessions are there from the start.
    let mut initial: Vec<Option<Session>> = vec![];
    for id in &ids {
        if chance(750) {
            let s = session(*id, &mut n);
            run_now(mem.initiate(s.clone())).ok();
            initial.push(Some(s));
        } else {
            initial.push(None);
        }
    }
    // Other sessions, which nobody touches.
    let crowd = if chance(120) { pick(&[8u32, 40, 150, 1100]) } else { 0 };
    let mut others = vec![];
    for _ in 0..crowd {
        let mut s = session(Uuid::new_v4(), &mut n);
        s.status = Status::SentRequest;
        if run_now(mem.initiate(s.clone())).is_err() {
            violation(&["C13"], "crowd", "the store refuses a session");
        }
        others.push(s);
    }
    if crowd > 0 {
        fault("crowd_of_sessions");
    }
    let how = How {
        pauses: if chance(150) { 30 + draw(100) } else { 0 },
        cancel: if chance(400) { 50 + draw(300) } else { 0 },
        preempt: 300 + draw(600),
        calls: (12, 60),
        fine: pick(&[0, 300, 700]),
        sync: pick(&[0, 300, 800]),
    };
    let per = if threads == 1 { 8 } else { 5 };
    let scripts: Vec<Vec<Step>> = (0..threads)
        .map(|_| {
            (0..1 + draw(per))
                .map(|_| {
                    let key = draw(keys as u32) as usize;
                    let op = match weighted(&[4, 4, 4, 2, 2]) {
                        0 => Op::Get,
                        1 => Op::Update(status(&mut n)),
                        2 => loop {
                            // Whether an outcome may replace another one by advancing is left open.
                            let s = status(&mut n);
                            break Op::Advance(if stage(&s) == 3 && chance(700) { Status::ReceivedResponse } else { s });
                        },
                        3 => Op::Init(Box::new(session(ids[key], &mut n))),
                        _ => Op::Remove,
                    };
                    Step { key, op, id: ids[key] }
                })
                .collect()
        })
        .collect();

    let jobs = scripts
        .iter()
        .map(|steps| {
            steps
                .iter()
                .map(|s| {
                    let (st, s) = (shared(&mem), s.clone());
                    Box::new(move || start(st, s)) as Job<(Res, String)>
                })
                .collect()
        })
        .collect();
    let done = match drive(jobs, how, &["C13"]) {
        Ok(d) => d,
        Err(left) => {
            if !left.is_empty() {
                violation(&["C13", "C15"], "store-deadlock", format!("operations of threads {left:?} never return"));
            }
            return;
        }
    };
    let mut clock = done.iter().map(|d| d.to).max().unwrap_or(0);
    let mut recs: Vec<Rec> = done
        .into_iter()
        .map(|d| {
            let step = scripts[d.thread][d.no].clone();
            let (res, msg) = match d.end {
                End::Ready(x) => x,
                End::Cancelled => (Res::Cancelled, String::new()),
                End::Panicked => (Res::Err, "panicked".to_string()),
            };
            note(|| format!("  {step:?} -> {res:?} {msg}"));
            Rec { thread: d.thread, step, from: d.from, to: d.to, res, msg }
        })
        .collect();
    // What is left in the store is read at the end and takes part in the history.
    for (k, id) in ids.iter().enumerate() {
        clock += 1;
        let r = run_now(mem.get_session(*id));
        let res = match r {
            Ok(s) => Res::Session(session_text(&s)),
            Err(_) => Res::Err,
        };
        recs.push(Rec {
            thread: 99,
            step: Step { key: k, op: Op::Get, id: *id },
            from: clock,
            to: clock + 1,
            res,
            msg: String::new(),
        });
        clock += 1;
    }
    for o in &others {
        match run_now(mem.get_session(o.uuid)) {
            Ok(s) if session_text(&s) == session_text(o) => {}
            Ok(_) => violation(&["C13", "C05"], "crowd-contents", "a session nobody touched has changed"),
            Err(_) => violation(&["C13", "C05"], "crowd-contents", "a session nobody touched is gone"),
        }
    }
    probe("thread_histories");
    for k in 0..keys {
        let h: Vec<&Rec> = recs.iter().filter(|r| r.step.key == k).collect();
        if !linearizable(initial[k].clone(), &h) {
            violation(&["C13", "C02"], "not-linearizable", format!("history of one session: {}", describe(&h)));
        }
    }
}

fn describe(h: &[&Rec]) -> String {
    h.iter()
        .map(|r| {
            let op = match &r.step.op {
                Op::Init(s) => format!("initiate({})", js(&s.status)),
                Op::Update(s) => format!("update({})", js(s)),
                Op::Advance(s) => format!("advance({})", js(s)),
                Op::Get => "get".into(),
                Op::Remove => "remove".into(),
            };
            let res = match &r.res {
                Res::Session(s) => serde_json::from_str::<serde_json::Value>(s).map(|v| v[1].to_string()).unwrap_or_default(),
                Res::Err => format!("error {:?}", r.msg),
                x => format!("{x:?}"),
            };
            format!("[{}..{} thread {}: {op} -> {res}]", r.from, r.to, r.thread)
        })
        .collect::<Vec<_>>()
        .join(" ")
}

/// The sequential specification.
fn apply(state: &mut Option<Session>, op: &Op) -> Res {
    match op {
        Op::Init(s) => {
            *state = Some((**s).clone());
            Res::Ok
        }
        Op::Get => state.as_ref().map(|s| Res::Session(session_text(s))).unwrap_or(Res::Err),
        Op::Remove => state.take().map(|_| Res::Ok).unwrap_or(Res::Err),
        Op::Update(x) => match state {
            Some(s) => {
                s.status = x.clone();
                Res::Ok
            }
            None => Res::Err,
        },
        Op::Advance(x) => match state {
            Some(s) => {
                if stage(&s.status) < stage(x) {
                    s.status = x.clone();
                }
                Res::Ok
            }
            None => Res::Err,
        },
    }
}

fn linearizable(init: Option<Session>, h: &[&Rec]) -> bool {
    // An operation that advances from one outcome to another may do so or not.
    fn go(state: Option<Session>, done: u64, h: &[&Rec], seen: &mut HashSet<(u64, String)>) -> bool {
        let must: u64 = h.iter().enumerate().filter(|(_, r)| r.res != Res::Cancelled).map(|(i, _)| 1u64 << i).sum();
        if done & must == must {
            return true;
        }
        let key = (done, state.as_ref().map(session_text).unwrap_or_default());
        if !seen.insert(key) {
            return false;
        }
        // Nothing may come before an operation that had already returned when it began.
        let first_end = h.iter().enumerate().filter(|(i, _)| done & (1 << i) == 0).map(|(_, r)| r.to).min().unwrap();
        for (i, r) in h.iter().enumerate() {
            if done & (1 << i) != 0 || r.from > first_end {
                continue;
            }
            let mut variants: Vec<Option<Session>> = vec![];
            let mut s = state.clone();
            let res = apply(&mut s, &r.step.op);
            if r.res == Res::Cancelled {
                variants.push(s);
                variants.push(state.clone());
            } else if res == r.res {
                variants.push(s);
                if let (Op::Advance(x), Some(cur)) = (&r.step.op, &state) {
                    if stage(x) == 3 && stage(&cur.status) == 3 {
                        let mut alt = cur.clone();
                        alt.status = x.clone();
                        variants.push(Some(alt));
                    }
                }
            }
            for v in variants {
                if go(v, done | (1 << i), h, seen) {
                    return true;
                }
            }
        }
        false
    }
    let _ = BTreeSet::<u8>::new();
    go(init, 0, h, &mut HashSet::new())
}
