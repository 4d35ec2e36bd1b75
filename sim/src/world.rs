//! State shared by the parts of one simulated deployment, and the configuration of a run.

use crate::core::*;
use crate::store::{Model, SimStore};
use openid4vp::core::metadata::WalletMetadata;
use openid4vp::verifier::{session::Status, Verifier};
use serde_json::{Map, Value as Json};
use std::{cell::RefCell, collections::{BTreeMap, BTreeSet}, sync::Arc};
use url::Url;
use uuid::Uuid;

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum OpKind {
    Init,
    Update,
    Advance,
    Get,
    Remove,
}
pub struct OpRec {
    pub kind: OpKind,
    pub uuid: Uuid,
    pub call: Option<usize>,
    pub applied: Option<u64>,
    pub reported: Option<bool>,
    pub faulted: bool,
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum CallKind {
    Build,
    Fetch,
    Submit,
    Poll,
    Start,
}
pub struct Call {
    pub kind: CallKind,
    pub svc: usize,
    pub uuid: Option<Uuid>,
    pub start: u64,
    pub start_ms: u64,
    /// How long the services that this call itself used took.
    pub paid: u64,
    pub ops: Vec<usize>,
    pub sign_faults: u32,
    pub validator: u32,
    pub verdict: Option<Json>,
}
pub struct Verdict {
    pub uuid: Uuid,
    pub outcome: Json,
}

#[derive(Debug, Clone, Copy, Default)]
pub struct StoreFaults {
    pub err_before: u32,
    pub err_after: u32,
    pub slow: u32,
}
#[derive(Debug, Clone, Copy, Default)]
pub struct NetFaults {
    pub drop: u32,
    pub resp_loss: u32,
    pub dup: u32,
    pub refuse: u32,
    pub status: u32,
    pub corrupt: u32,
    pub slow: u32,
}
#[derive(Debug, Clone, Copy, Default)]
pub struct Cfg {
    pub store: StoreFaults,
    pub net: NetFaults,
    pub reuse: u32,
    pub nonces: u32,
    pub newcomer: u32,
    pub crash: u32,
    pub cancel: u32,
    pub sign_fail: u32,
    pub resolve_fail: u32,
    pub resolve_wrong: u32,
    pub resolve_slow: u32,
    pub attack_jwt: u32,
    pub attack_url: u32,
    pub impostor: u32,
    pub rogue: u32,
    pub gc: u32,
    pub weird: u32,
    pub unsupported: u32,
    pub dcapi: u32,
    pub jarm: u32,
    pub dup_wallet: u32,
    pub mismatch: u32,
    pub direct: u32,
    pub hook_refuse: u32,
    pub reply_weird: u32,
    pub bare: u32,
    pub restrict_enc: u32,
    pub odd_prefix: u32,
    pub construct: u32,
    pub stall: u32,
    pub pause: u32,
    pub skew: u32,
    pub crowd: u32,
    pub hammer: u32,
    pub operator: u32,
    pub burst: u32,
    pub misaddress: u32,
    pub disk: u32,
    pub partition: u32,
    pub refetch: u32,
    pub hostile: u32,
    /// A status the hostile server always answers with.
    pub stubborn: u16,
    pub sessions: u32,
    pub services: u32,
    pub instances: u32,
    pub wallets: u32,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Ident {
    Did(usize),
    /// First certificate, and how many more follow in the chain.
    San(usize, usize),
    Hash(usize, usize),
    /// An application-defined client: identifier, prefix, with or without typ in its header.
    Custom { id: String, prefix: String, typ: bool },
}
pub struct Inst {
    pub verifier: Option<Arc<Verifier>>,
    pub starting: bool,
}
pub struct Svc {
    pub ident: Ident,
    pub client_id: String,
    pub prefix: String,
    pub key: usize,
    pub alg: String,
    pub sim_signer: bool,
    pub submit_at: Url,
    pub ref_at: Option<Url>,
    pub host: String,
    pub defaults: Map<String, Json>,
    pub store: SimStore,
    pub inst: Vec<Inst>,
}
impl Svc {
    pub fn node(svc: usize, inst: usize) -> usize {
        1 + svc * 8 + inst
    }
}

/// A request that was handed out.
#[derive(Clone)]
pub struct Issue {
    pub svc: usize,
    pub uuid: Uuid,
    pub url: Option<Url>,
    pub jwt: String,
    pub payload: Map<String, Json>,
    pub dcql: Json,
    pub wallet: usize,
    /// Completed before faults stopped, as far as the wallet knows.
    pub acked: bool,
}

#[derive(Clone)]
pub struct WalletCfg {
    pub meta: WalletMetadata,
    pub prefixes: Option<Vec<String>>,
    pub algs: Vec<String>,
    pub trusted: Option<Vec<String>>,
    pub enc_algs: Option<Vec<String>>,
    pub enc_encs: Option<Vec<String>>,
    pub endpoint: Url,
    pub bare: bool,
    /// The metadata as a document.
    pub doc: Map<String, Json>,
}
impl WalletCfg {
    pub fn supports(&self, prefix: &str) -> bool {
        match &self.prefixes {
            Some(p) => p.iter().any(|x| x == prefix),
            None => prefix == "pre-registered",
        }
    }
}

#[derive(Clone, Debug)]
pub struct HttpRec {
    pub method: String,
    pub uri: String,
    pub headers: Vec<(String, Vec<u8>)>,
    pub body: Vec<u8>,
    /// What the wallet was given; None while in flight.
    pub answer: Option<Result<(u16, Vec<u8>), ()>>,
    /// The answer is not what the honest server sent, or there is none.
    pub faulted: bool,
}
#[derive(Clone, Debug)]
pub struct HookRec {
    pub name: String,
    pub decoded: Json,
    pub jwt: Option<String>,
    pub ok: bool,
}
/// What happened around one wallet operation.
#[derive(Default, Clone, Debug)]
pub struct WOp {
    pub http: Vec<HttpRec>,
    pub hooks: Vec<HookRec>,
    pub resolved: Vec<(String, Option<usize>)>,
    pub env_fault: bool,
    pub policy_refused: bool,
}

pub struct World {
    pub cfg: Cfg,
    pub seq: u64,
    pub svcs: Vec<Svc>,
    pub models: Vec<Model>,
    pub wallets: Vec<WalletCfg>,
    pub issues: Vec<Issue>,
    pub jwts: Vec<(usize, String)>,
    pub ops: Vec<OpRec>,
    pub calls: Vec<Call>,
    pub call_of_task: BTreeMap<u64, usize>,
    pub wop_of_task: BTreeMap<u64, WOp>,
    pub verdicts: Vec<Verdict>,
    pub payload_of_msg: BTreeMap<u64, Json>,
    pub next_msg: u64,
    pub verdict_n: u64,
    pub seen_ids: Vec<Uuid>,
    pub chosen: Vec<Uuid>,
    pub nonces: crate::nonce::Nonces,
    pub transcripts: Vec<(Json, Vec<u8>)>,
    pub calm: bool,
    /// What a task is inside of, for attributing a panic.
    pub phase: BTreeMap<u64, &'static str>,
    /// What the wallet in this task is about to submit.
    pub pending: BTreeMap<u64, Json>,
    pub stop: bool,
    /// Encrypted responses: the metadata of the request, and what they say.
    #[cfg(feature = "jwe")]
    pub sealed: BTreeMap<String, (Json, Json)>,
    /// Services that wallets cannot reach, and nodes that cannot reach their store.
    pub net_cut: BTreeSet<usize>,
    pub store_cut: BTreeSet<usize>,
}

thread_local! {
    static W: RefCell<Option<World>> = const { RefCell::new(None) };
}
pub fn install(cfg: Cfg) {
    W.with(|x| {
        *x.borrow_mut() = Some(World {
            cfg,
            seq: 0,
            svcs: vec![],
            models: vec![],
            wallets: vec![],
            issues: vec![],
            jwts: vec![],
            ops: vec![],
            calls: vec![],
            call_of_task: BTreeMap::new(),
            wop_of_task: BTreeMap::new(),
            verdicts: vec![],
            payload_of_msg: BTreeMap::new(),
            next_msg: 0,
            verdict_n: 0,
            seen_ids: vec![],
            chosen: vec![],
            nonces: Default::default(),
            transcripts: vec![],
            calm: false,
            phase: BTreeMap::new(),
            pending: BTreeMap::new(),
            stop: false,
            #[cfg(feature = "jwe")]
            sealed: BTreeMap::new(),
            net_cut: BTreeSet::new(),
            store_cut: BTreeSet::new(),
        })
    })
}
pub fn uninstall() {
    let w = W.with(|x| x.borrow_mut().take());
    drop(w)
}
pub fn w<R>(f: impl FnOnce(&mut World) -> R) -> R {
    W.with(|x| f(x.borrow_mut().as_mut().expect("no world")))
}

impl World {
    pub fn tick(&mut self) -> u64 {
        self.seq += 1;
        self.seq
    }
    pub fn call_begin(&mut self, kind: CallKind, svc: usize, uuid: Option<Uuid>) -> usize {
        let start = self.tick();
        self.calls.push(Call {
            kind,
            svc,
            uuid,
            start,
            start_ms: now(),
            paid: 0,
            ops: vec![],
            sign_faults: 0,
            validator: 0,
            verdict: None,
        });
        let i = self.calls.len() - 1;
        self.call_of_task.insert(cur_task(), i);
        i
    }
    /// The current call waits for a service of its own.
    pub fn pay(&mut self, ms: u64) {
        if let Some(c) = self.call_of_task.get(&cur_task()).copied() {
            self.calls[c].paid += ms
        }
    }
    pub fn wop(&mut self) -> Option<&mut WOp> {
        self.wop_of_task.get_mut(&cur_task())
    }
    /// Was the session in the store throughout / at some time in [from, now]?
    pub fn presence(&self, store: usize, id: Uuid, from: u64) -> (bool, bool) {
        match self.models[store].sessions.get(&id) {
            None => (false, false),
            Some(s) => {
                let always = s.created <= from && s.removed.is_none();
                let some = s.removed.map(|r| r >= from).unwrap_or(true);
                (always, some)
            }
        }
    }
    /// Statuses the session held at some time in [from, now].
    pub fn held(&self, store: usize, id: Uuid, from: u64) -> Vec<Status> {
        match self.models[store].sessions.get(&id) {
            None => vec![],
            Some(s) => {
                let first = s.hist.iter().rposition(|(q, _)| *q <= from).unwrap_or(0);
                s.hist[first..].iter().map(|(_, x)| x.clone()).collect()
            }
        }
    }
}

/// Nobody waits for anybody else's signer, validator or store operation.
pub fn check_waited(call: usize) {
    let (kind, took, paid) = w(|w| (w.calls[call].kind, now() - w.calls[call].start_ms, w.calls[call].paid));
    if took > paid {
        violation(
            &["C22"],
            "call-waited",
            format!("a {kind:?} call took {took} ms, the services it used {paid} ms: it waited for another call"),
        );
    }
}

/// `base` with the id as one more path segment, by this harness's own reading.
pub fn at(base: &Url, id: &Uuid) -> String {
    let s = base.as_str();
    let (path, query) = match s.find('?') {
        Some(i) => (&s[..i], &s[i..]),
        None => (s, ""),
    };
    format!("{}/{}{}", path.trim_end_matches('/'), id, query)
}
