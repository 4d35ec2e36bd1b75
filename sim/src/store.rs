//! The session store of the simulated deployment: the library's real `MemoryStore`, or a database
//! that keeps only the serialised parts of a session, behind a simulated connection that can fail
//! before or after the operation took effect, or be slow.
//! A shadow map follows every operation that took effect; it is the oracle for the contents.

use crate::core::*;
use crate::gen;
use crate::world::{w, CallKind, OpKind, OpRec, World};
use anyhow::{bail, Result};
use async_trait::async_trait;
use openid4vp::verifier::session::{MemoryStore, Session, SessionStore, Status};
use serde_json::Value as Json;
use openid4vp::core::authorization_request::AuthorizationRequestObject;
use serde_json::json;
use std::{
    collections::BTreeMap,
    sync::{Arc, Mutex},
};
use uuid::Uuid;

#[derive(Default)]
pub struct Model {
    pub sessions: BTreeMap<Uuid, Shadow>,
    /// Sessions of other users, all alike.
    pub crowd: Vec<Uuid>,
    pub crowd_like: Option<Session>,
}
pub struct Shadow {
    pub session: Session,
    /// Everything but the status, as text.
    pub fixed: String,
    pub created: u64,
    /// Every status held, with the sequence number from which on.
    pub hist: Vec<(u64, Status)>,
    pub removed: Option<u64>,
}

/// What a database row holds.
struct Row {
    status: String,
    jwt: String,
    object: String,
    query: String,
}
impl Row {
    fn read(&self, uuid: Uuid) -> Result<Session> {
        let bad = |what: &str, e: serde_json::Error| {
            violation(&["C20"], "unreadable", format!("the stored {what} of a session cannot be read back: {e}"));
            anyhow::anyhow!("unreadable row")
        };
        Ok(Session {
            uuid,
            status: serde_json::from_str(&self.status).map_err(|e| bad("status", e))?,
            authorization_request_jwt: self.jwt.clone(),
            authorization_request_object: serde_json::from_str(&self.object).map_err(|e| bad("request", e))?,
            dcql_query: serde_json::from_str(&self.query).map_err(|e| bad("query", e))?,
        })
    }
}
#[derive(Clone)]
enum Back {
    Mem(MemoryStore),
    Disk(Arc<Mutex<BTreeMap<Uuid, Row>>>),
}
impl Back {
    fn apply(&self, op: Op) -> Result<Option<Session>> {
        match self {
            Back::Mem(m) => match op {
                Op::Init(s) => run_now(m.initiate(*s)).map(|_| None),
                Op::Update(u, s) => run_now(m.update_status(u, s)).map(|_| None),
                Op::Advance(u, s) => run_now(m.advance_status(u, s)).map(|_| None),
                Op::Get(u) => run_now(m.get_session(u)).map(Some),
                Op::Remove(u) => run_now(m.remove_session(u)).map(|_| None),
            },
            Back::Disk(d) => {
                let mut d = d.lock().unwrap();
                match op {
                    Op::Init(s) => {
                        let row = Row {
                            status: serde_json::to_string(&s.status)?,
                            jwt: s.authorization_request_jwt.clone(),
                            object: serde_json::to_string(&s.authorization_request_object)?,
                            query: serde_json::to_string(&s.dcql_query)?,
                        };
                        d.insert(s.uuid, row);
                        Ok(None)
                    }
                    Op::Update(u, s) => match d.get_mut(&u) {
                        Some(r) => {
                            r.status = serde_json::to_string(&s)?;
                            Ok(None)
                        }
                        None => bail!("session not found"),
                    },
                    Op::Advance(u, s) => match d.get_mut(&u) {
                        Some(r) => {
                            let cur: Status = serde_json::from_str(&r.status)?;
                            if cur < s {
                                r.status = serde_json::to_string(&s)?;
                            }
                            Ok(None)
                        }
                        None => bail!("session not found"),
                    },
                    Op::Get(u) => match d.get(&u) {
                        Some(r) => r.read(u).map(Some),
                        None => bail!("session not found"),
                    },
                    Op::Remove(u) => match d.remove(&u) {
                        Some(_) => Ok(None),
                        None => bail!("session not found"),
                    },
                }
            }
        }
    }
}

#[derive(Clone)]
pub struct SimStore {
    pub idx: usize,
    inner: Back,
    /// Operations run in the store's own process and survive the caller's crash.
    pub remote: bool,
}
impl std::fmt::Debug for SimStore {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "SimStore{}", self.idx)
    }
}

#[derive(Clone)]
enum Op {
    Init(Box<Session>),
    Update(Uuid, Status),
    Advance(Uuid, Status),
    Get(Uuid),
    Remove(Uuid),
}
impl Op {
    fn uuid(&self) -> Uuid {
        match self {
            Op::Init(s) => s.uuid,
            Op::Update(u, _) | Op::Advance(u, _) | Op::Get(u) | Op::Remove(u) => *u,
        }
    }
    fn kind(&self) -> OpKind {
        match self {
            Op::Init(_) => OpKind::Init,
            Op::Update(..) => OpKind::Update,
            Op::Advance(..) => OpKind::Advance,
            Op::Get(_) => OpKind::Get,
            Op::Remove(_) => OpKind::Remove,
        }
    }
}

pub fn stage(s: &Status) -> u8 {
    match s {
        Status::SentRequestByReference => 0,
        Status::SentRequest => 1,
        Status::ReceivedResponse => 2,
        Status::Complete(_) => 3,
    }
}
pub fn js<T: serde::Serialize>(t: &T) -> Json {
    serde_json::to_value(t).unwrap_or(Json::Null)
}
/// A request as its accessors show it.
pub fn seen(a: &AuthorizationRequestObject) -> Json {
    json!([
        a.client_id().map(|c| c.0.clone()),
        a.client_id_scheme().map(|c| c.0.clone()),
        a.nonce().to_string(),
        String::from(a.response_mode().clone()),
        String::from(a.response_type().clone()),
        a.return_uri().to_string(),
        a.state().map(|s| s.map(|s| s.0).ok()),
        a.client_metadata().ok().map(|m| Json::from(m.0)),
        a.is_id_token_requested(),
    ])
}
/// Everything but the status. Equal texts are equal sessions; otherwise one looks closer.
fn fixed(s: &Session) -> String {
    format!("{} {} {:?} {:?}", s.uuid, s.authorization_request_jwt, s.authorization_request_object, s.dcql_query)
}
fn same_as_shadow(a: &Session, b: &Shadow) -> Result<(), String> {
    if fixed(a) == b.fixed && js(&a.status) == js(&b.session.status) {
        return Ok(());
    }
    same_session(a, &b.session)
}
pub fn same_session(a: &Session, b: &Session) -> Result<(), String> {
    if a.uuid != b.uuid {
        return Err(format!("id {} instead of {}", a.uuid, b.uuid));
    }
    if js(&a.status) != js(&b.status) {
        return Err(format!("status {} instead of {}", js(&a.status), js(&b.status)));
    }
    if a.authorization_request_jwt != b.authorization_request_jwt {
        return Err("another signed request".into());
    }
    if js(&a.authorization_request_object) != js(&b.authorization_request_object) {
        return Err("another request object".into());
    }
    if js(&a.dcql_query) != js(&b.dcql_query) {
        return Err("another query".into());
    }
    if gen::dcql_seen(&a.dcql_query) != gen::dcql_seen(&b.dcql_query) {
        return Err("a query that shows other contents".into());
    }
    if seen(&a.authorization_request_object) != seen(&b.authorization_request_object) {
        return Err("a request object that shows other contents".into());
    }
    Ok(())
}

impl SimStore {
    pub fn new(idx: usize, remote: bool, disk: bool) -> Self {
        let inner = if disk { Back::Disk(Arc::default()) } else { Back::Mem(MemoryStore::default()) };
        SimStore { idx, inner, remote }
    }
    pub fn peek(&self, id: Uuid) -> Option<Session> {
        self.inner.apply(Op::Get(id)).ok().flatten()
    }
    /// Whom a wrong content is the fault of.
    fn blame(&self, also: &[&'static str]) -> Vec<&'static str> {
        let mut v = match self.inner {
            Back::Mem(_) => vec!["C13"],
            Back::Disk(_) => vec!["C20"],
        };
        v.extend(also);
        v
    }
    /// Many sessions of other users, like this one.
    pub fn crowd(&self, like: Uuid, n: u32) {
        let Some(like) = self.peek(like) else { return };
        for _ in 0..n {
            let mut s = like.clone();
            s.uuid = Uuid::new_v4();
            let id = s.uuid;
            if let Err(e) = self.inner.apply(Op::Init(Box::new(s))) {
                violation(&self.blame(&["C15"]), "crowd", format!("the store refuses a session: {e:#}"));
            }
            w(|w| w.models[self.idx].crowd.push(id));
        }
        w(|w| w.models[self.idx].crowd_like = Some(like));
    }

    async fn op(&self, op: Op) -> Result<Option<Session>> {
        let rec = w(|w| w.op_begin(op.kind(), op.uuid()));
        let f = w(|w| w.cfg.store);
        let on = faults_on();
        if on && chance(f.err_before) {
            fault("store_error_not_applied");
            yield_now().await;
            w(|w| w.op_end(rec, false, true));
            bail!("simulated store failure")
        }
        let node = cx(|c| c.cur_node);
        let cut = |w: &mut World| self.remote && w.store_cut.contains(&node);
        if w(cut) {
            fault("store_partition");
            let d = pick(&[0u64, 20, 200]);
            w(|w| w.pay(d));
            sleep(d).await;
            yield_now().await;
            w(|w| w.op_end(rec, false, true));
            bail!("simulated partition from the store")
        }
        let err_after = on && chance(f.err_after);
        let (pre, post) = self.delays(f.slow, on);
        let out = if self.remote {
            let (tx, rx) = oneshot();
            let this = self.clone();
            w(|w| w.pay(pre + post));
            spawn(0, "store", async move {
                sleep(pre).await;
                let r = this.apply(op, rec);
                sleep(post).await;
                tx.send(r)
            });
            match rx.await {
                Some(r) => r,
                None => bail!("store gone"),
            }
        } else {
            w(|w| w.pay(pre + post));
            if pre > 0 {
                sleep(pre).await
            } else {
                yield_now().await
            }
            let r = self.apply(op, rec);
            if post > 0 {
                sleep(post).await
            }
            r
        };
        if !err_after && w(cut) {
            fault("store_partition");
            w(|w| w.op_end(rec, false, true));
            bail!("simulated partition from the store")
        }
        if err_after {
            fault("store_error_after_apply");
            w(|w| w.op_end(rec, false, true));
            bail!("simulated store failure")
        }
        w(|w| w.op_end(rec, out.is_ok(), false));
        out
    }

    fn delays(&self, slow: u32, on: bool) -> (u64, u64) {
        if on && chance(slow) {
            fault("store_slow");
            (draw(40) as u64, draw(40) as u64)
        } else if on && chance(w(|w| w.cfg.stall) / 6) {
            fault("store_operation_stalled");
            (draw(3000) as u64, draw(500) as u64)
        } else {
            (draw(3) as u64, draw(3) as u64)
        }
    }

    /// The operation takes effect, in one step, on the real store and on the shadow.
    fn apply(&self, op: Op, rec: usize) -> Result<Option<Session>> {
        let real = self.inner.apply(op.clone());
        let id = op.uuid();
        let mut back: Option<(u8, u8)> = None;
        let mut recorded: Option<Status> = None;
        let expect_ok = w(|w| {
            w.seq += 1;
            let seq = w.seq;
            w.ops[rec].applied = Some(seq);
            let m = &mut w.models[self.idx];
            let live = m.sessions.get(&id).map(|s| s.removed.is_none()).unwrap_or(false);
            match op.clone() {
                // A store may refuse an id that is taken.
                Op::Init(_) if live && real.is_err() => false,
                Op::Init(s) => {
                    let status = s.status.clone();
                    m.sessions.insert(
                        id,
                        Shadow { fixed: fixed(&s), session: *s, created: seq, hist: vec![(seq, status)], removed: None },
                    );
                    true
                }
                Op::Update(_, s) | Op::Advance(_, s) => {
                    if let (true, Some(sh)) = (live, m.sessions.get_mut(&id)) {
                        let advance = matches!(op, Op::Advance(..));
                        let (old, new) = (stage(&sh.session.status), stage(&s));
                        if !advance || old < new {
                            if new < old {
                                back = Some((old, new));
                            }
                            recorded = Some(s.clone());
                            sh.session.status = s.clone();
                            sh.hist.push((seq, s));
                        }
                    }
                    live
                }
                Op::Get(_) => live,
                Op::Remove(_) => {
                    if let (true, Some(sh)) = (live, m.sessions.get_mut(&id)) {
                        sh.removed = Some(seq);
                    }
                    live
                }
            }
        });
        if let Some((o, n)) = back {
            violation(
                &["C02"],
                "store-status-back",
                format!("stored status of session went back from stage {o} to stage {n}"),
            );
        }
        if let Some(Status::Complete(o)) = &recorded {
            let j = js(o);
            if !w(|w| w.verdicts.iter().any(|v| v.uuid == id && v.outcome == j)) {
                violation(
                    &["C03"],
                    "outcome-without-verdict",
                    format!("recorded outcome {j} was never returned by a validator for that session"),
                );
            }
        }
        match (&real, expect_ok) {
            (Ok(_), true) | (Err(_), false) => {}
            (Ok(_), false) => violation(
                &self.blame(&["C05"]),
                "store-absent-ok",
                format!("{:?} on a session that is not in the store succeeded", op.kind()),
            ),
            (Err(e), true) => violation(
                &self.blame(&["C15"]),
                "store-present-err",
                format!("{:?} on a session that is in the store failed: {e:#}", op.kind()),
            ),
        }
        if let (Ok(Some(got)), true) = (&real, expect_ok) {
            let d = w(|w| same_as_shadow(got, &w.models[self.idx].sessions[&id]).err());
            if let Some(d) = d {
                violation(&self.blame(&["C05"]), "store-read", format!("store returned {d}"));
            }
        }
        if let (Op::Remove(_), true, Some(k)) = (&op, expect_ok, w(|w| w.ops[rec].call.map(|c| w.calls[c].kind))) {
            let props: &[&'static str] = match k {
                CallKind::Fetch => &["C15", "C04"],
                CallKind::Submit => &["C15", "C03"],
                CallKind::Poll => &["C15", "C02"],
                _ => &[],
            };
            if !props.is_empty() {
                violation(props, "session-removed", format!("a {k:?} call removed the session"));
            }
        }
        self.check_one(id, &format!("{:?}", op.kind()));
        real
    }

    fn check_one(&self, id: Uuid, what: &str) {
        let real = self.peek(id);
        let d = w(|w: &mut World| {
            let sh = w.models[self.idx].sessions.get(&id);
            match (real, sh) {
                (None, None) => None,
                (None, Some(s)) if s.removed.is_some() => None,
                (None, Some(_)) => Some("session vanished".to_string()),
                (Some(_), None) => Some("session came into being".to_string()),
                (Some(_), Some(s)) if s.removed.is_some() => Some("removed session is back".to_string()),
                (Some(r), Some(s)) => same_as_shadow(&r, s).err(),
            }
        });
        if let Some(d) = d {
            let also: &[&'static str] = if what == "Init" { &["C05", "C03", "C15", "C01"] } else { &["C05", "C03", "C15"] };
            violation(&self.blame(also), "store-contents", format!("after {what}: {d}"));
        }
    }
    /// Every session ever stored is exactly as the operations that took effect left it.
    pub fn check_all(&self, what: &str) {
        // Not every time when one session is used over and over.
        let calls = w(|w| w.calls.len());
        if what != "end" && calls > 50 && calls % 8 != 0 {
            return;
        }
        let ids: Vec<Uuid> = w(|w| w.models[self.idx].sessions.keys().copied().collect());
        for id in ids {
            self.check_one(id, what)
        }
        if what == "end" {
            let (crowd, like) = w(|w| (w.models[self.idx].crowd.clone(), w.models[self.idx].crowd_like.clone()));
            for id in crowd {
                let want = like.as_ref().unwrap();
                let d = match self.peek(id) {
                    None => Some("session vanished".to_string()),
                    Some(s) if stage(&s.status) != stage(&want.status) => Some("status of a session nobody used changed".into()),
                    Some(s) if s.uuid != id => Some("another id".into()),
                    Some(s) if s.authorization_request_jwt != want.authorization_request_jwt => Some("another request".into()),
                    Some(_) => None,
                };
                if let Some(d) = d {
                    violation(&self.blame(&["C05", "C15"]), "crowd-contents", d);
                    break;
                }
            }
        }
    }
}

#[async_trait]
impl SessionStore for SimStore {
    async fn initiate(&self, session: Session) -> Result<()> {
        self.op(Op::Init(Box::new(session))).await.map(|_| ())
    }
    async fn update_status(&self, uuid: Uuid, status: Status) -> Result<()> {
        self.op(Op::Update(uuid, status)).await.map(|_| ())
    }
    async fn advance_status(&self, uuid: Uuid, status: Status) -> Result<()> {
        self.op(Op::Advance(uuid, status)).await.map(|_| ())
    }
    async fn get_session(&self, uuid: Uuid) -> Result<Session> {
        match self.op(Op::Get(uuid)).await? {
            Some(s) => Ok(s),
            None => bail!("store returned nothing"),
        }
    }
    async fn remove_session(&self, uuid: Uuid) -> Result<()> {
        self.op(Op::Remove(uuid)).await.map(|_| ())
    }
}

impl World {
    pub fn op_begin(&mut self, kind: OpKind, uuid: Uuid) -> usize {
        let call = self.call_of_task.get(&cur_task()).copied();
        self.seq += 1;
        self.ops.push(OpRec { kind, uuid, call, applied: None, reported: None, faulted: false });
        let i = self.ops.len() - 1;
        if let Some(c) = call {
            self.calls[c].ops.push(i);
        }
        i
    }
    pub fn op_end(&mut self, i: usize, ok: bool, faulted: bool) {
        self.ops[i].reported = Some(ok);
        self.ops[i].faulted = faulted;
    }
}
