//! Verifiers and wallets on real threads (see threads.rs): the same objects are used by several
//! threads at a time, and a thread can lose the processor between any two instructions.
//!
//! Everything that is drawn is drawn before the threads begin; what they did is judged after they
//! have ended, by when every call began and returned.

use crate::core::*;
use crate::gen;
use crate::ident::*;
use crate::store::{js, stage};
use crate::svc::{chain, make_signer, short};
use crate::threads::{drive, End, How, Job};
use crate::wallet::plain;
use crate::world::at;
use anyhow::{bail, Error, Result};
use async_trait::async_trait;
use http::{Request, Response};
use openid4vp::core::{
    authorization_request::{
        parameters::{Nonce, ResponseMode, ResponseType, State},
        verification::{did, verifier::P256Verifier, x509_hash, x509_san, RequestVerifier},
        AuthorizationRequestObject,
    },
    dcql_query::DcqlQuery,
    metadata::WalletMetadata,
    response::AuthorizationResponse,
    util::AsyncHttpClient,
};
use openid4vp::verifier::{
    client::{Client, DIDClient, X509HashClient, X509SanDnsClient},
    session::{MemoryStore, Outcome, Session, SessionStore, Status},
    Verifier,
};
use openid4vp::wallet::Wallet;
use serde_json::{json, Value as Json};
use ssi_claims::ProofValidationError;
use ssi_jwk::{JWKResolver, JWK};
use std::{
    borrow::Cow,
    collections::HashMap,
    sync::{Arc, Mutex},
};
use url::Url;
use uuid::Uuid;

// ---------------------------------------------------------------- parties

struct Resolver;
impl JWKResolver for Resolver {
    async fn fetch_public_jwk(&self, id: Option<&str>) -> Result<Cow<'_, JWK>, ProofValidationError> {
        let id = id.unwrap_or_default();
        let d = reg().dids.iter().find(|d| d.vm == id || d.vm.split('#').next() == Some(id));
        d.map(|d| Cow::Owned(reg().jwks[d.key].clone())).ok_or(ProofValidationError::UnknownKey)
    }
}

#[derive(Clone)]
struct Service {
    v: Verifier,
    prefix: &'static str,
    client_id: String,
    key: usize,
    by_ref: Option<Url>,
    submit: Url,
}
/// Leads to the handlers of the services, which run on the thread of the caller.
struct Direct(Arc<Vec<Service>>);
#[async_trait]
impl AsyncHttpClient for Direct {
    async fn execute(&self, r: Request<Vec<u8>>) -> Result<Response<Vec<u8>>> {
        let uri = r.uri().to_string();
        let Ok(id) = uri.rsplit('/').next().unwrap_or_default().parse::<Uuid>() else { bail!("no such host") };
        for s in self.0.iter() {
            if r.method() == "GET" && s.by_ref.as_ref().map(|b| at(b, &id)).as_deref() == Some(&uri) {
                let jwt = s.v.retrieve_authorization_request(id).await?;
                return Ok(Response::builder().header("content-type", "application/oauth-authz-req+jwt").body(jwt.into_bytes())?);
            }
            if r.method() == "POST" && at(&s.submit, &id) == uri {
                let resp = AuthorizationResponse::from_x_www_form_urlencoded(r.body())?;
                let seen = Arc::new(Mutex::new(vec![]));
                submit(&s.v, id, resp, json!({"posted": uri}), seen).await?;
                return Ok(Response::builder().body(b"{}".to_vec())?);
            }
        }
        Ok(Response::builder().status(404).body(vec![])?)
    }
}
#[derive(Clone)]
struct Holder {
    meta: WalletMetadata,
    algs: Vec<String>,
    trusted: Option<Vec<String>>,
    http: Arc<Direct>,
}
#[async_trait]
impl RequestVerifier for Holder {
    async fn decentralized_identifier(&self, d: &AuthorizationRequestObject, j: Option<String>) -> Result<(), Error> {
        let Some(j) = j else { bail!("unsigned") };
        did::verify_with_resolver(&self.meta, d, j, self.trusted.as_deref(), Resolver).await
    }
    async fn x509_san_dns(&self, d: &AuthorizationRequestObject, j: Option<String>) -> Result<(), Error> {
        let Some(j) = j else { bail!("unsigned") };
        x509_san::validate::<P256Verifier>(&self.meta, d, j, None)
    }
    async fn x509_hash(&self, d: &AuthorizationRequestObject, j: Option<String>) -> Result<(), Error> {
        let Some(j) = j else { bail!("unsigned") };
        x509_hash::validate::<P256Verifier>(&self.meta, d, j, None)
    }
}
#[async_trait]
impl Wallet for Holder {
    type HttpClient = Direct;
    fn metadata(&self) -> &WalletMetadata {
        &self.meta
    }
    fn http_client(&self) -> &Direct {
        &self.http
    }
}

/// What a validator was given.
type Seen = Arc<Mutex<Vec<(String, Json)>>>;
async fn submit(v: &Verifier, id: Uuid, resp: AuthorizationResponse, info: Json, seen: Seen) -> Result<()> {
    v.verify_response(id, resp, move |s: Session, r| {
        Box::pin(async move {
            let got = match &r {
                AuthorizationResponse::Unencoded(u) => js(&u.vp_token),
                AuthorizationResponse::Jwt(j) => json!(j.response),
            };
            seen.lock().unwrap().push((s.authorization_request_jwt.clone(), got));
            Outcome::Success { info }
        })
    })
    .await
}

// ---------------------------------------------------------------- what threads do

#[derive(Clone)]
struct Ask {
    svc: usize,
    nonce: String,
    state: Option<String>,
    query: Json,
    id: Option<Uuid>,
}
#[derive(Clone)]
enum Do {
    Build(Ask),
    Fetch(usize),
    Submit { to: usize, n: usize, resp: (AuthorizationResponse, Json) },
    Poll(usize),
    /// A URL, with the request object it leads to, and whether that is genuine.
    Validate { wallet: usize, url: Url, jwt: String, client_id: String },
    /// From building a request to polling the outcome of its response.
    Trip { ask: Ask, wallet: usize, resp: (AuthorizationResponse, Json) },
}
enum Got {
    Built(Uuid, Url),
    Jwt(String),
    Acked(Vec<(String, Json)>),
    Status(Status),
    Accepted(Json),
    Trip { id: Uuid, url: Url, aro: Json, status: Status, sent: bool },
}

async fn build(v: &Verifier, meta: &WalletMetadata, a: &Ask) -> Result<(Uuid, Url)> {
    let q: DcqlQuery = serde_json::from_value(a.query.clone())?;
    let mut b = v
        .build_authorization_request()
        .with_dcql_query(q)
        .with_request_parameter(ResponseMode::DirectPost)
        .with_request_parameter(Nonce::from(a.nonce.clone()));
    if let Some(s) = &a.state {
        b = b.with_request_parameter(State(s.clone()));
    }
    match a.id {
        None => b.build(meta.clone()).await,
        Some(id) => Ok((id, b.build_with_session_id(id, meta.clone()).await?)),
    }
}

type Fut = std::pin::Pin<Box<dyn std::future::Future<Output = Result<Got>> + Send>>;
struct Made {
    ask: Ask,
    id: Uuid,
    url: Url,
    jwt: String,
}

async fn act(d: Do, svcs: Arc<Vec<Service>>, wallets: Arc<Vec<Holder>>, made: Arc<Vec<(usize, Uuid)>>) -> Result<Got> {
    let to = |i: usize| (&svcs[made[i].0].v, made[i].1);
    Ok(match d {
        Do::Build(a) => {
            let (id, url) = build(&svcs[a.svc].v, &wallets[0].meta, &a).await?;
            Got::Built(id, url)
        }
        Do::Fetch(i) => Got::Jwt(to(i).0.retrieve_authorization_request(to(i).1).await?),
        Do::Submit { to: i, n, resp } => {
            let seen = Seen::default();
            submit(to(i).0, to(i).1, resp.0, json!({"n": n}), seen.clone()).await?;
            let s = seen.lock().unwrap().clone();
            Got::Acked(s)
        }
        Do::Poll(i) => Got::Status(to(i).0.poll_status(to(i).1).await?),
        Do::Validate { wallet, url, .. } => Got::Accepted(js(&wallets[wallet].validate_request(url).await?)),
        Do::Trip { ask, wallet, resp } => {
            let wl = &wallets[wallet];
            let (id, url) = build(&svcs[ask.svc].v, &wl.meta, &ask).await?;
            let aro = wl.validate_request(url.clone()).await?;
            let text = js(&aro);
            let sent = wl.submit_response(aro, resp.0).await.is_ok();
            Got::Trip { id, url, aro: text, status: svcs[ask.svc].v.poll_status(id).await?, sent }
        }
    })
}

// ---------------------------------------------------------------- the run

fn ask(svcs: usize, n: &mut u32, plain: bool) -> Ask {
    *n += 1;
    Ask {
        svc: draw(svcs as u32) as usize,
        nonce: format!("n{n}-{}", gen::word()),
        state: chance(500).then(gen::text),
        query: if plain { json!({"credentials": [{"id": "c", "format": "mso_mdoc", "meta": {"doctype_value": "d"}}]}) } else { gen::dcql().1 },
        id: chance(250).then(Uuid::new_v4),
    }
}

const IDS: &[&str] = &["decentralized_identifier", "x509_san_dns", "x509_hash"];
fn service(i: usize, store: Arc<dyn SessionStore + Send + Sync>) -> Service {
    let prefix = pick(IDS);
    let cert = draw(HONEST_CERTS as u32) as usize;
    let (client, key): (Arc<dyn Client + Send + Sync>, usize) = match prefix {
        "decentralized_identifier" => {
            let d = &reg().dids[draw(HONEST_DIDS as u32) as usize];
            let c = run_now(DIDClient::new(d.vm.to_string(), make_signer(false, d.key, "ES256"), &Resolver)).expect("DID client");
            (Arc::new(c), d.key)
        }
        "x509_san_dns" => {
            let k = reg().certs[cert].key;
            (Arc::new(X509SanDnsClient::new(chain(cert, draw(3) as usize), make_signer(false, k, "ES256")).expect("client")), k)
        }
        _ => {
            let k = reg().certs[cert].key;
            (Arc::new(X509HashClient::new(chain(cert, draw(3) as usize), make_signer(false, k, "ES256")).expect("client")), k)
        }
    };
    let client_id = client.id().0.clone();
    let submit: Url = format!("https://s{i}.example/submit").parse().unwrap();
    let by_ref: Option<Url> = chance(650).then(|| format!("https://s{i}.example/req").parse().unwrap());
    let mut b = Verifier::builder()
        .with_client(client)
        .with_session_store(store)
        .with_submission_endpoint(submit.clone())
        .with_default_request_parameter(ResponseType::VpToken);
    if let Some(r) = &by_ref {
        b = b.by_reference(r.clone());
    }
    Service { v: run_now(b.build()).expect("verifier"), prefix, client_id, key, by_ref, submit }
}

/// A request of the attacker that names somebody else.
fn forged(m: &Made, s: &Service) -> Option<String> {
    let j = parse_jws(&m.jwt).ok()?;
    let key = reg().certs[EVIL_CERTS.start + draw(3) as usize].key;
    Some(match draw(3) {
        0 => {
            // The payload replaced, the signature kept.
            let mut p = j.payload.clone();
            p["nonce"] = json!("evil");
            let parts: Vec<&str> = m.jwt.split('.').collect();
            format!("{}.{}.{}", parts[0], b64(serde_json::to_vec(&p).unwrap()), parts[2])
        }
        1 => forge_raw(&serde_json::to_vec(&Json::Object(j.header.clone())).unwrap(), &serde_json::to_vec(&j.payload).unwrap(), key),
        _ => {
            // The attacker's own identity for its own signature, in the name of the other.
            let mut h = j.header.clone();
            let (k, v) = if s.prefix == "decentralized_identifier" {
                ("kid", json!(reg().dids[EVIL_DIDS.start].vm))
            } else {
                use base64::prelude::*;
                ("x5c", json!([BASE64_STANDARD.encode(reg().certs[EVIL_CERTS.start].der)]))
            };
            let key = if k == "kid" { reg().dids[EVIL_DIDS.start].key } else { reg().certs[EVIL_CERTS.start].key };
            h.insert(k.into(), v);
            forge_raw(&serde_json::to_vec(&Json::Object(h)).unwrap(), &serde_json::to_vec(&j.payload).unwrap(), key)
        }
    })
}

fn check_url(svc: &Service, id: Uuid, url: &Url, jwt: &str) {
    let q: HashMap<String, String> = url.query_pairs().into_owned().collect();
    if q.get("client_id") != Some(&svc.client_id) {
        violation(&["C16", "C11"], "parallel-url", format!("client_id in {url}, the verifier is {}", svc.client_id));
    }
    match &svc.by_ref {
        Some(b) if q.get("request_uri") != Some(&at(b, &id)) => {
            violation(&["C04", "C11", "C05"], "parallel-url", format!("request_uri in {url}, the session is {id}"))
        }
        None if q.get("request").map(|s| s.as_str()) != Some(jwt) => {
            violation(&["C01", "C11", "C05"], "parallel-url", format!("another request than that of session {id} was handed out"))
        }
        _ => {}
    }
}
/// The request stored for a session says what was asked for, in the name of its verifier.
fn check_issued(svc: &Service, ask: &Ask, id: Uuid, jwt: &str) {
    let p = match parse_jws(jwt) {
        Err(e) => return violation(&["C16"], "parallel-signature", format!("request object of session {id}: {e}")),
        Ok(j) => {
            if !verify_key(svc.key, &j) {
                violation(&["C16", "C06"], "parallel-signature", format!("request object of session {id} is not signed with the key of its verifier"));
            }
            j.payload
        }
    };
    if p["client_id"] != json!(svc.client_id) {
        violation(&["C16"], "parallel-identity", format!("client_id {} in session {id} of {}", p["client_id"], svc.client_id));
    }
    if p["response_uri"] != json!(at(&svc.submit, &id)) {
        violation(&["C05", "C11"], "parallel-response-uri", format!("response_uri {} in session {id}", p["response_uri"]));
    }
    let want = [
        ("nonce", json!(ask.nonce)),
        ("state", ask.state.as_ref().map(|s| json!(s)).unwrap_or(Json::Null)),
        ("dcql_query", js(&serde_json::from_value::<DcqlQuery>(ask.query.clone()).unwrap())),
        ("response_mode", json!("direct_post")),
        ("response_type", json!("vp_token")),
    ];
    for (k, v) in want {
        if p.get(k).cloned().unwrap_or(Json::Null) != v {
            violation(&["C11", "C05"], "parallel-params", format!("{k} of session {id}: asked for {}, issued {}", short(&v), short(&p[k])));
        }
    }
}

pub fn run_parallel(prop: &str) {
    let props = &["C15", "C22"];
    // All threads do much the same.
    let rivals = chance(600);
    let mems: Vec<MemoryStore> = (0..1 + draw(2)).map(|_| MemoryStore::default()).collect();
    let count = if rivals { 1 } else { 1 + draw(3) as usize };
    let on: Vec<usize> = (0..count).map(|i| i % mems.len()).collect();
    let svcs: Arc<Vec<Service>> = Arc::new((0..count).map(|i| service(i, Arc::new(mems[on[i]].clone()))).collect());
    let http = Arc::new(Direct(svcs.clone()));
    let wallets: Arc<Vec<Holder>> = Arc::new(
        (0..1 + draw(2))
            .map(|i| {
                let algs: Vec<String> = if i == 1 && chance(400) { vec!["ES384".into()] } else { vec!["ES256".into()] };
                let meta = serde_json::from_value(json!({
                    "authorization_endpoint": "openid4vp:",
                    "vp_formats_supported": {"mso_mdoc": {"issuerauth_alg_values": [-7]}},
                    "client_id_prefixes_supported": IDS,
                    "request_object_signing_alg_values_supported": algs,
                }))
                .expect("metadata");
                let trusted = (i == 1 && chance(500)).then(|| vec!["did:sim:alphabet".to_string()]);
                Holder { meta, algs, trusted, http: http.clone() }
            })
            .collect(),
    );
    let mut n = 0;
    // Sessions that are there when the threads begin.
    let mut made: Vec<Made> = vec![];
    for _ in 0..if rivals { 2 } else { 1 + draw(4) } {
        let ask = ask(count, &mut n, rivals);
        match run_now(build(&svcs[ask.svc].v, &wallets[0].meta, &ask)) {
            Ok((id, url)) => match run_now(mems[on[ask.svc]].get_session(id)) {
                Ok(s) => made.push(Made { ask, id, url, jwt: s.authorization_request_jwt }),
                Err(_) => violation(&["C01"], "parallel-session-missing", "a request was handed out without its session"),
            },
            Err(e) => violation(&["C11", "C15"], "parallel-build", format!("a request could not be built: {e:#}")),
        }
    }
    if made.is_empty() {
        return;
    }
    let threads = 2 + draw(if rivals { 2 } else { 3 }) as usize;
    let kinds = [3, 3, 3, 4, 6, 2];
    let same = weighted(match prop {
        "C01" | "C05" | "C11" | "C16" => &[8, 0, 1, 0, 1, 1],
        "C02" | "C03" | "C10" => &[0, 1, 6, 1, 0, 2],
        "C04" => &[1, 6, 1, 0, 0, 1],
        "C06" | "C07" => &[0, 0, 0, 0, 8, 1],
        _ => &[1, 1, 1, 1, 1, 2],
    });
    let mut subs = 0;
    let mut lies: Vec<(String, Url, String)> = vec![];
    let scripts: Vec<Vec<Do>> = (0..threads)
        .map(|_| {
            (0..1 + draw(if rivals { 3 } else { 4 }))
                .map(|_| {
                    let i = draw(made.len() as u32) as usize;
                    let m = &made[i];
                    let svc = &svcs[m.ask.svc];
                    match if rivals && chance(850) { same } else { weighted(&kinds) } {
                        0 => Do::Build(ask(count, &mut n, rivals)),
                        1 => Do::Fetch(i),
                        2 => {
                            subs += 1;
                            Do::Submit { to: i, n: subs, resp: plain(m.ask.state.clone(), &["c".into()]) }
                        }
                        3 => Do::Poll(i),
                        4 => {
                            let (mut client_id, mut url, mut jwt) = (svc.client_id.clone(), m.url.clone(), m.jwt.clone());
                            if !lies.is_empty() && chance(300) {
                                // The same again.
                                fault("attacker_replaced_request_object");
                                (client_id, url, jwt) = pick(&lies);
                            } else if chance(400) {
                                if let Some(f) = forged(m, svc) {
                                    fault("attacker_replaced_request_object");
                                    jwt = f;
                                    url = Url::parse_with_params("openid4vp:", [("client_id", client_id.as_str()), ("request", jwt.as_str())]).unwrap();
                                    lies.push((client_id.clone(), url.clone(), jwt.clone()));
                                }
                            }
                            Do::Validate { wallet: draw(wallets.len() as u32) as usize, url, jwt, client_id }
                        }
                        _ => {
                            let ask = ask(count, &mut n, rivals);
                            let resp = plain(ask.state.clone(), &["c".into()]);
                            Do::Trip { ask, wallet: 0, resp }
                        }
                    }
                })
                .collect()
        })
        .collect();
    let sessions = Arc::new(made.iter().map(|m| (m.ask.svc, m.id)).collect::<Vec<_>>());
    let jobs = scripts
        .iter()
        .map(|s| {
            s.iter()
                .map(|d| {
                    let (d, a, b, c) = (d.clone(), svcs.clone(), wallets.clone(), sessions.clone());
                    Box::new(move || -> Fut { Box::pin(act(d, a, b, c)) }) as Job<Result<Got>>
                })
                .collect()
        })
        .collect();
    let pauses = if chance(150) { 30 } else { 0 };
    let how = if rivals {
        How { pauses, cancel: 0, preempt: 800 + draw(190), calls: (500, 60), fine: 800, sync: pick(&[500, 900]) }
    } else {
        How { pauses, cancel: 0, preempt: 400 + draw(580), calls: (40, 1000), fine: pick(&[0, 300, 800]), sync: pick(&[0, 500, 900]) }
    };
    let done = match drive(jobs, how, props) {
        Ok(d) => d,
        Err(left) => {
            if !left.is_empty() {
                violation(&["C15", "C22"], "parallel-deadlock", format!("calls on threads {left:?} never return"));
            }
            return;
        }
    };
    probe("parallel_histories");

    // ------------------------------------------------------------ judging
    let own = |svc: usize, id: Uuid| run_now(mems[on[svc]].get_session(id));
    let mut ids: Vec<Uuid> = made.iter().map(|m| m.id).collect();
    let mut acks: Vec<(usize, usize, u64, u64)> = vec![];
    let mut polls: Vec<(usize, Status, u64, u64)> = vec![];
    let mut fetched: Vec<(usize, u64)> = vec![];
    for d in done {
        let op = &scripts[d.thread][d.no];
        let r = match d.end {
            End::Ready(r) => r,
            End::Cancelled => continue,
            End::Panicked => {
                violation(&["C15", "C24"], "parallel-panic", "a call panicked");
                continue;
            }
        };
        note(|| format!("  thread {} call {}: {}", d.thread, d.no, if r.is_ok() { "ok" } else { "error" }));
        match (op, r) {
            (Do::Build(a), Ok(Got::Built(id, url))) => {
                ids.push(id);
                built(&svcs[a.svc], a, id, &url, own(a.svc, id), 0);
            }
            (Do::Fetch(i), Ok(Got::Jwt(j))) => {
                if j != made[*i].jwt {
                    violation(&["C04", "C05"], "parallel-fetch", "fetching gave another request than the one that was signed");
                }
                fetched.push((*i, d.to));
            }
            (Do::Submit { to, n, resp }, Ok(Got::Acked(seen))) => {
                acks.push((*to, *n, d.from, d.to));
                if seen.len() != 1 || seen[0].0 != made[*to].jwt {
                    violation(&["C03", "C05"], "parallel-validator", "the validator did not get the session the response was for");
                } else if resp.1.get("vp_token").is_some_and(|t| *t != seen[0].1) {
                    violation(&["C10", "C03"], "parallel-response", format!("sent {}, the validator got {}", short(&resp.1), short(&seen[0].1)));
                }
            }
            (Do::Poll(i), Ok(Got::Status(s))) => polls.push((*i, s, d.from, d.to)),
            (Do::Validate { wallet, jwt, client_id, .. }, r) => {
                let wl = &wallets[*wallet];
                let resolved: Vec<(String, Option<usize>)> = reg().dids.iter().map(|d| (d.vm.to_string(), Some(d.key))).collect();
                let env = AuthEnv { algs: &wl.algs, trusted: wl.trusted.as_deref(), resolved: &resolved };
                let prefix = client_id.split(':').next().unwrap_or_default();
                let good = authentic(prefix, jwt, &env);
                match (r, good) {
                    (Ok(_), Err(why)) => violation(&["C06"], "parallel-accepted", format!("accepted a request that is not of {client_id}: {why}")),
                    (Err(e), Ok(())) => violation(&["C11", "C15"], "parallel-refused", format!("refused an untampered request: {e:#}")),
                    (Ok(Got::Accepted(a)), Ok(())) => {
                        probe("parallel_validated");
                        let p = parse_jws(jwt).map(|j| j.payload).unwrap_or_default();
                        if a != p {
                            violation(&["C11", "C07"], "parallel-request", format!("request {}, the wallet sees {}", short(&p), short(&a)));
                        }
                    }
                    _ => probe("parallel_refused"),
                }
            }
            (Do::Trip { ask, resp, .. }, Ok(Got::Trip { id, url, aro, status, sent })) => {
                ids.push(id);
                probe("parallel_presentations");
                built(&svcs[ask.svc], ask, id, &url, own(ask.svc, id), 3);
                let p = own(ask.svc, id).ok().and_then(|s| parse_jws(&s.authorization_request_jwt).ok()).map(|j| j.payload).unwrap_or_default();
                if p != aro {
                    violation(&["C11", "C05"], "parallel-request", format!("request {}, the wallet sees {}", short(&p), short(&aro)));
                }
                let to = at(&svcs[ask.svc].submit, &id);
                let want = Status::Complete(Outcome::Success { info: json!({"posted": to}) });
                if !sent {
                    violation(&["C15", "C09"], "parallel-submission", format!("a response could not be submitted: {}", short(&resp.1)));
                } else if js(&status) != js(&want) {
                    violation(&["C03", "C05", "C02"], "parallel-outcome", format!("after the response to {to} the status is {}", js(&status)));
                }
            }
            (op, Err(e)) => {
                let what = match op {
                    Do::Build(_) => "building a request",
                    Do::Fetch(_) => "fetching a request",
                    Do::Submit { .. } => "a submission",
                    Do::Poll(_) => "polling",
                    Do::Validate { .. } => "validating",
                    Do::Trip { .. } => "a presentation",
                };
                violation(&["C15", "C01"], "parallel-error", format!("{what} failed without any fault: {e:#}"));
            }
            _ => {}
        }
    }
    ids.sort();
    if ids.windows(2).any(|w| w[0] == w[1]) {
        violation(&["C05"], "parallel-same-id", "two requests got the same session id");
    }
    for (i, m) in made.iter().enumerate() {
        let Ok(s) = own(m.ask.svc, m.id) else {
            violation(&["C01", "C05"], "parallel-session-missing", format!("session {} is gone", m.id));
            continue;
        };
        let mut ps: Vec<&(usize, Status, u64, u64)> = polls.iter().filter(|p| p.0 == i).collect();
        let last = (i, s.status.clone(), u64::MAX - 1, u64::MAX);
        ps.push(&last);
        for p in &ps {
            let before = acks.iter().filter(|a| a.0 == i && a.3 < p.2).count();
            match &p.1 {
                Status::Complete(o) => {
                    // The outcome of a submission that had begun, and that no other one had replaced.
                    let ok = acks.iter().filter(|a| a.0 == i && a.2 < p.3).any(|a| {
                        js(&Outcome::Success { info: json!({"n": a.1}) }) == js(o)
                            && !acks.iter().any(|b| b.0 == i && b.2 > a.3 && b.3 < p.2)
                    });
                    if !ok {
                        violation(&["C03", "C05"], "parallel-outcome", format!("session {}: outcome {} is not that of a submission that may count", m.id, js(o)));
                    }
                }
                s if before > 0 => violation(&["C02", "C03"], "parallel-backwards", format!("session {}: {} after a response was acknowledged", m.id, js(s))),
                s => {
                    let by_ref = svcs[m.ask.svc].by_ref.is_some();
                    let was = fetched.iter().any(|f| f.0 == i && f.1 < p.2);
                    if stage(s) == 0 && (was || !by_ref) {
                        violation(&["C02", "C04"], "parallel-backwards", format!("session {}: {} after the request was fetched", m.id, js(s)));
                    }
                }
            }
            if let Some(q) = ps.iter().find(|q| q.3 < p.2 && stage(&q.1) > stage(&p.1)) {
                violation(&["C02"], "parallel-backwards", format!("session {}: first {}, then {}", m.id, js(&q.1), js(&p.1)));
            }
        }
        if s.authorization_request_jwt != m.jwt {
            violation(&["C05", "C04"], "parallel-session-changed", format!("the request of session {} has changed", m.id));
        }
        check_issued(&svcs[m.ask.svc], &m.ask, m.id, &s.authorization_request_jwt);
        check_url(&svcs[m.ask.svc], m.id, &m.url, &m.jwt);
    }
}

fn built(svc: &Service, ask: &Ask, id: Uuid, url: &Url, s: Result<Session>, at_least: u8) {
    let Ok(s) = s else {
        return violation(&["C01"], "parallel-session-missing", "a request was handed out without its session");
    };
    if let Some(want) = ask.id {
        if want != id {
            violation(&["C05"], "parallel-id", "a session was asked for with an id, but got another");
        }
    }
    if (stage(&s.status)) < at_least {
        violation(&["C02", "C03"], "parallel-backwards", format!("session {id} is {} after its response", js(&s.status)));
    }
    check_issued(svc, ask, id, &s.authorization_request_jwt);
    check_url(svc, id, url, &s.authorization_request_jwt);
}
