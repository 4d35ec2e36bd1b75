//! Verifier services: real `Verifier`s on crashable nodes, their signers, resolvers, HTTP handlers,
//! and the checks made at every return of a verifier call.

use crate::core::*;
use crate::gen;
use crate::ident::*;
use crate::store::*;
use crate::world::*;
use anyhow::{anyhow, bail, Result};
use async_trait::async_trait;
use openid4vp::core::metadata::parameters::verifier::{EncryptedResponseEncValuesSupported, JWKs, VpFormats};
use openid4vp::core::{
    authorization_request::{
        parameters::{
            Audience, ClientId, ClientIdScheme, ClientMetadata, ExpectedOrigins, Nonce, RedirectUri, RequestUriMethod,
            ResponseMode, ResponseType, ResponseUri, State, TransactionData, VerifierInfo,
        },
        AuthorizationRequestObject,
    },
    dcql_query::DcqlQuery,
    iso_18013_7::{get_encryption_jwk_thumbprint, DcApiHandover, Handover, SessionTranscript},
    object::UntypedObject,
    response::{AuthorizationResponse, UnencodedAuthorizationResponse},
};
use openid4vp::verifier::{
    client::{Client, DIDClient, X509HashClient, X509SanDnsClient},
    request_signer::{P256Signer, RequestSigner},
    session::{Outcome, Session, Status},
    Verifier,
};
use ssi_claims::jws::JwsSigner;
use serde_json::{json, Map, Value as Json};
use ssi_claims::ProofValidationError;
use ssi_jwk::{JWKResolver, JWK};
use std::{borrow::Cow, sync::Arc};
use url::Url;
use uuid::Uuid;

// ---------------------------------------------------------------- signer, resolver, custom client

fn sign_fault(name: &'static str) -> bool {
    let rate = w(|w| w.cfg.sign_fail);
    if !faults_on() || !chance(rate) {
        return false;
    }
    fault(name);
    w(|w| {
        if let Some(c) = w.call_of_task.get(&cur_task()).copied() {
            w.calls[c].sign_faults += 1
        }
    });
    true
}

/// A service that does not answer for a long time.
fn stalled(name: &'static str) -> Option<u64> {
    let rate = w(|w| w.cfg.stall);
    if faults_on() && chance(rate) {
        fault(name);
        Some(500 + draw(3000) as u64)
    } else {
        None
    }
}

#[derive(Debug)]
pub struct SimSigner {
    pub alg: String,
    pub key: usize,
    pub jwk: Option<usize>,
    pub dress: u32,
}

/// A key with members that say nothing about the key itself.
fn dressed(mut jwk: JWK, how: u32) -> JWK {
    if how & 1 != 0 {
        jwk.key_id = Some("k1".into());
    }
    if how & 2 != 0 {
        jwk.algorithm = Some(ssi_jwk::Algorithm::ES256);
    }
    if how & 4 != 0 {
        jwk.public_key_use = Some("sig".into());
    }
    jwk
}

/// Most keys are plain.
pub fn draw_dress() -> u32 {
    if chance(300) { draw(8) } else { 0 }
}

#[async_trait]
impl RequestSigner for SimSigner {
    type Error = anyhow::Error;
    fn alg(&self) -> Result<String> {
        if sign_fault("signer_alg_error") {
            bail!("simulated signer failure")
        }
        Ok(self.alg.clone())
    }
    fn jwk(&self) -> Result<JWK> {
        match self.jwk {
            Some(k) => Ok(dressed(reg().jwks[k].clone(), self.dress)),
            None => bail!("simulated signer without a key"),
        }
    }
    async fn sign(&self, payload: &[u8]) -> Vec<u8> {
        yield_now().await;
        if sign_fault("signer_sign_error") {
            return vec![];
        }
        sign_fresh(self.key, payload, draw(1 << 20))
    }
    async fn try_sign(&self, payload: &[u8]) -> Result<Vec<u8>> {
        let d = stalled("signer_stalled").unwrap_or_else(|| draw(4) as u64);
        w(|w| w.pay(d));
        sleep(d).await;
        if sign_fault("signer_sign_error") {
            bail!("simulated signer failure")
        }
        Ok(sign_fresh(self.key, payload, draw(1 << 20)))
    }
}

#[derive(Debug, Clone, Copy)]
pub struct SimResolver {
    pub dress: u32,
}
impl JWKResolver for SimResolver {
    async fn fetch_public_jwk(&self, id: Option<&str>) -> Result<Cow<'_, JWK>, ProofValidationError> {
        let id = id.unwrap_or_default().to_string();
        let c = w(|w| w.cfg);
        let on = faults_on();
        let d = if on && chance(c.resolve_slow) {
            fault("resolver_slow");
            draw(50)
        } else {
            draw(3)
        };
        sleep(d as u64).await;
        // Asked for a DID rather than for one of its keys, this resolver names the first one.
        let known = |d: &&DidVm| d.vm == id || d.vm.split('#').next() == Some(&id);
        let mut key = reg().dids.iter().find(known).map(|d| d.key);
        let mut env = false;
        if on && chance(c.resolve_fail) {
            fault("resolver_error");
            key = None;
            env = true;
        } else if on && chance(c.resolve_wrong) {
            fault("resolver_wrong_key");
            let other = draw(reg().keys.len() as u32) as usize;
            env = Some(other) != key;
            key = Some(other);
        }
        w(|w| {
            if let Some(o) = w.wop() {
                o.resolved.push((id, key));
                o.env_fault |= env;
            }
        });
        if c.hostile > 0 && on && !w(|w| w.call_of_task.contains_key(&cur_task())) && chance(250) {
            if let Some(k) = key {
                // What a DID document says about a key is up to its owner.
                fault("hostile_key");
                w(|w| {
                    if let Some(o) = w.wop() {
                        o.env_fault = true;
                        o.resolved.pop();
                    }
                });
                return match crate::hostile::bend_key(&reg().jwks[k]) {
                    Some(j) => Ok(Cow::Owned(j)),
                    None => Err(ProofValidationError::UnknownKey),
                };
            }
        }
        match key {
            Some(k) => Ok(Cow::Owned(dressed(reg().jwks[k].clone(), self.dress))),
            None => Err(ProofValidationError::UnknownKey),
        }
    }
}

#[derive(Debug)]
pub struct CustomClient {
    pub id: ClientId,
    pub prefix: String,
    pub typ: bool,
}
#[async_trait]
impl Client for CustomClient {
    fn id(&self) -> &ClientId {
        &self.id
    }
    fn prefix(&self) -> ClientIdScheme {
        ClientIdScheme(self.prefix.clone())
    }
    async fn generate_request_object_jwt(&self, body: &AuthorizationRequestObject) -> Result<String> {
        let d = stalled("signer_stalled").unwrap_or_else(|| draw(3) as u64);
        w(|w| w.pay(d));
        sleep(d).await;
        if sign_fault("client_sign_error") {
            bail!("simulated client failure")
        }
        let mut h = json!({"alg": "ES256"});
        if self.typ {
            h["typ"] = json!("oauth-authz-req+jwt");
        }
        let si = format!("{}.{}", b64(serde_json::to_vec(&h)?), b64(serde_json::to_vec(&js(body))?));
        let sig = sign_fresh(reg().custom_key, si.as_bytes(), draw(1 << 20));
        Ok(format!("{si}.{}", b64(sig)))
    }
}

pub fn chain(first: usize, more: usize) -> Vec<x509_cert::Certificate> {
    let mut v = vec![reg().certs[first].cert.clone()];
    for i in 0..more {
        v.push(reg().certs[(first + 1 + i) % HONEST_CERTS].cert.clone());
    }
    v
}
type Signer = Arc<dyn RequestSigner<Error = anyhow::Error> + Send + Sync>;
pub fn make_signer(sim: bool, key: usize, alg: &str) -> Signer {
    if sim {
        Arc::new(SimSigner { alg: alg.into(), key, jwk: Some(key), dress: 0 })
    } else {
        Arc::new(P256Signer::new(reg().keys[key].clone()).unwrap())
    }
}

// ---------------------------------------------------------------- parameters

macro_rules! set_param {
    ($b:expr, $meth:ident, $key:expr, $val:expr, $typed:expr) => {{
        let v: Json = $val;
        let s = v.as_str().map(|s| s.to_string());
        let strs: Option<Vec<String>> = serde_json::from_value(v.clone()).ok();
        let url = s.as_deref().and_then(|s| Url::parse(s).ok()).filter(|u| Some(u.as_str()) == s.as_deref());
        match ($key, $typed) {
            ("response_type", true) if s.is_some() => $b.$meth(ResponseType::from(s.unwrap())),
            ("response_mode", true) if s.is_some() => $b.$meth(ResponseMode::from(s.unwrap())),
            ("nonce", true) if s.is_some() => $b.$meth(Nonce::from(s.unwrap())),
            ("state", true) if s.is_some() => $b.$meth(State(s.unwrap())),
            ("aud", true) if s.is_some() => $b.$meth(Audience(s.unwrap())),
            ("client_id", true) if s.is_some() => $b.$meth(ClientId(s.unwrap())),
            ("request_uri_method", true) if s.as_deref() == Some("get") => $b.$meth(RequestUriMethod::Get),
            ("request_uri_method", true) if s.as_deref() == Some("post") => $b.$meth(RequestUriMethod::Post),
            ("redirect_uri", true) if url.is_some() => $b.$meth(RedirectUri(url.unwrap())),
            ("response_uri", true) if url.is_some() => $b.$meth(ResponseUri(url.unwrap())),
            ("expected_origins", true) if strs.is_some() => $b.$meth(ExpectedOrigins(strs.unwrap())),
            ("transaction_data", true) if strs.is_some() => $b.$meth(TransactionData(strs.unwrap())),
            ("verifier_info", true) if v.is_array() => $b.$meth(VerifierInfo(v.as_array().unwrap().clone())),
            ("client_metadata", true) if v.is_object() => {
                $b.$meth(client_metadata(v))
            }
            _ => crate::insert_param!($b, $meth, $key, v),
        }
    }};
}

/// Client metadata read from a document, or put together from typed members.
pub fn client_metadata(v: Json) -> ClientMetadata {
    let parts = v.as_object().cloned().unwrap_or_default();
    if !chance(400) {
        return ClientMetadata(serde_json::from_value::<UntypedObject>(v).unwrap());
    }
    const TYPED: &[&str] = &["jwks", "encrypted_response_enc_values_supported", "vp_formats_supported"];
    let formats = parts.get("vp_formats_supported").map(|x| VpFormats::try_from(x.clone()).ok());
    let rest: Map<String, Json> = parts
        .iter()
        .filter(|(k, v)| {
            !TYPED.contains(&k.as_str())
                || *k == "vp_formats_supported" && matches!(formats, Some(None))
                || *k == "encrypted_response_enc_values_supported" && gen::names(v).is_none()
        })
        .map(|(k, v)| (k.clone(), v.clone()))
        .collect();
    let mut o: UntypedObject = serde_json::from_value(Json::Object(rest)).unwrap();
    if let Some(x) = parts.get("jwks") {
        o.insert(JWKs { keys: x["keys"].as_array().into_iter().flatten().filter_map(|k| k.as_object().cloned()).collect() });
    }
    if let Some(x) = parts.get("encrypted_response_enc_values_supported").and_then(gen::names) {
        o.insert(EncryptedResponseEncValuesSupported(x));
    }
    if let Some(Some(f)) = formats {
        o.insert(f);
    }
    ClientMetadata(o)
}

/// One way of filling in request parameters; mostly complete and consistent.
pub fn gen_params(complete: bool) -> Vec<(&'static str, Json)> {
    let c = w(|w| w.cfg);
    let mut v: Vec<(&'static str, Json)> = vec![];
    let skip = |weird: u32| !complete || chance(weird);
    let jarm = chance(c.jarm);
    if !skip(c.weird / 3) {
        let rt = if chance(c.weird / 4) { gen::word() } else { pick(&["vp_token", "vp_token", "vp_token id_token"]).into() };
        v.push(("response_type", json!(rt)));
    }
    if !skip(c.weird / 3) {
        let m = if chance(c.weird / 4) {
            pick(&["fragment", "query", "direct_post.jwt2", "DIRECT_POST", ""])
        } else {
            match (chance(c.dcapi), jarm) {
                (false, false) => "direct_post",
                (false, true) => "direct_post.jwt",
                (true, false) => "dc_api",
                (true, true) => "dc_api.jwt",
            }
        };
        v.push(("response_mode", json!(m)));
    }
    if !skip(c.weird / 3) {
        let n = if chance(c.weird / 5) { json!(5) } else if chance(if c.nonces > 0 { 800 } else { 150 }) {
            json!(crate::nonce::next(&mut crate::nonce::SimRng::new(), pick(&[16, 32, 64])))
        } else {
            json!(gen::text_len())
        };
        v.push(("nonce", n));
    }
    if chance(550) {
        v.push(("state", json!(gen::text())));
    }
    if chance(if jarm { 900 } else { 500 }) {
        v.push(("client_metadata", Json::Object(gen::client_metadata(jarm))));
    }
    if chance(250) {
        v.push(("aud", json!(gen::text())));
    }
    if chance(200) {
        let o: Vec<String> = (0..draw(3)).map(|_| gen::text()).collect();
        v.push(("expected_origins", json!(o)));
    }
    if chance(200) {
        let o: Vec<String> = (0..draw(3)).map(|_| gen::text()).collect();
        v.push(("transaction_data", json!(o)));
    }
    if chance(150) {
        v.push(("verifier_info", Json::Array((0..draw(3)).map(|_| gen::value(2)).collect())));
    }
    if chance(250) {
        v.push(("x_custom", gen::value(2)));
    }
    if chance(100) {
        v.push(("scope", json!(gen::text())));
    }
    if chance(100) {
        v.push(("request_uri_method", json!(pick(&["get", "post"]))));
    }
    if chance(150) {
        v.push(("client_id", json!(pick(&["evil", "x509_san_dns:other.example", ""]))));
    }
    if chance(80) {
        v.push(("dcql_query", json!({"credentials": [{"id": "foreign", "format": "mso_mdoc", "meta": {}}]})));
    }
    if chance(60 + c.weird / 4) {
        v.push(("response_uri", json!(pick(&["https://other.example/cb", "https://other.example/?a=b"]))));
    }
    if chance(c.weird / 3) {
        v.push(("redirect_uri", json!("https://other.example/redirect")));
    }
    v
}

// ---------------------------------------------------------------- starting an instance

pub async fn start_instance(svc: usize, inst: usize) {
    let call = w(|w| w.call_begin(CallKind::Start, svc, None));
    let (ident, key, alg, sim, submit_at, ref_at, defaults, store, id) = w(|w| {
        let s = &w.svcs[svc];
        (
            s.ident.clone(),
            s.key,
            s.alg.clone(),
            s.sim_signer,
            s.submit_at.clone(),
            s.ref_at.clone(),
            s.defaults.clone(),
            s.store.clone(),
            s.client_id.clone(),
        )
    });
    let signer = make_signer(sim, key, &alg);
    let client: Result<Arc<dyn Client + Send + Sync>> = match &ident {
        Ident::Did(d) => {
            w(|w| w.wop_of_task.insert(cur_task(), WOp::default()));
            let r = DIDClient::new(reg().dids[*d].vm.to_string(), signer, SimResolver { dress: 0 }).await;
            let env = w(|w| w.wop_of_task.remove(&cur_task()).unwrap_or_default());
            let good = env.resolved.iter().any(|(k, a)| k == reg().dids[*d].vm && *a == Some(key));
            match (&r, good) {
                (Ok(_), false) => violation(
                    &["C16"],
                    "did-client-unresolved",
                    format!("a DID client was set up although the resolver answered {:?}", env.resolved),
                ),
                (Err(e), true) => violation(
                    &["C16", "C15"],
                    "did-client-refused",
                    format!("a DID client could not be set up although its key resolved: {e:#}"),
                ),
                _ => {}
            }
            r.map(|c| Arc::new(c) as _)
        }
        Ident::San(c, m) => X509SanDnsClient::new(chain(*c, *m), signer).map(|c| Arc::new(c) as _),
        Ident::Hash(c, m) => X509HashClient::new(chain(*c, *m), signer).map(|c| Arc::new(c) as _),
        Ident::Custom { id, prefix, typ } => {
            Ok(Arc::new(CustomClient { id: ClientId(id.clone()), prefix: prefix.clone(), typ: *typ }) as _)
        }
    };
    let _ = call;
    let client = match client {
        Ok(c) => c,
        Err(e) => {
            if !matches!(ident, Ident::Did(_)) {
                violation(&["C16", "C15"], "client-refused", format!("client for {id} could not be set up: {e:#}"));
            }
            event(|| format!("instance {svc}.{inst} failed to start"));
            w(|w| w.svcs[svc].inst[inst].starting = false);
            return;
        }
    };
    if client.id().0 != id {
        violation(&["C16"], "client-identity", format!("client identifier is {} instead of {id}", client.id().0));
    }
    let mut b = Verifier::builder();
    if chance(150) {
        // Thought better of.
        b = b.with_submission_endpoint("https://decoy.example/submit".parse().unwrap());
        b = if chance(500) { b.by_reference("https://decoy.example/request".parse().unwrap()) } else { b.by_value() };
        if let Some(k) = defaults.keys().next().cloned() {
            b = set_param!(b, with_default_request_parameter, k.as_str(), json!("decoy"), k != "client_metadata");
        }
    }
    if chance(500) {
        b = b.with_client(client).with_session_store(Arc::new(store)).with_submission_endpoint(submit_at);
        b = match ref_at {
            Some(u) => b.by_reference(u),
            None => b.by_value(),
        };
    } else {
        b = match ref_at {
            Some(u) => b.by_reference(u),
            None => b.by_value(),
        };
        b = b.with_submission_endpoint(submit_at).with_session_store(Arc::new(store)).with_client(client);
    }
    for (k, v) in defaults {
        b = set_param!(b, with_default_request_parameter, k.as_str(), v, true);
    }
    let v = match b.build().await {
        Ok(v) => v,
        Err(e) => {
            violation(&["C15"], "verifier-refused", format!("complete verifier configuration refused: {e:#}"));
            return;
        }
    };
    event(|| format!("instance {svc}.{inst} up"));
    w(|w| {
        let i = &mut w.svcs[svc].inst[inst];
        i.verifier = Some(Arc::new(v));
        i.starting = false;
    });
}

/// Construction of clients with every kind of signer, resolver and certificate (C16).
pub async fn construct_probe() {
    let r = reg();
    if chance(100) {
        // What the library's own signer says and signs is of its key, for every use of it.
        let key = draw(r.keys.len() as u32) as usize;
        let text = gen::text();
        let s = P256Signer::new(r.keys[key].clone()).unwrap();
        let ok = |sig: &[u8]| {
            use p256::ecdsa::signature::Verifier as _;
            let sig = p256::ecdsa::Signature::from_slice(sig);
            sig.map(|x| r.keys[key].verifying_key().verify(text.as_bytes(), &x).is_ok()).unwrap_or(false)
        };
        let info = JwsSigner::fetch_info(&s).await.map(|i| (i.algorithm.to_string(), i.key_id));
        let said = [js(P256Signer::jwk(&s)), RequestSigner::jwk(&s).map(|j| js(&j)).unwrap_or_default()];
        let signed = [
            RequestSigner::sign(&s, text.as_bytes()).await,
            s.try_sign(text.as_bytes()).await.unwrap_or_default(),
            JwsSigner::sign_bytes(&s, text.as_bytes()).await.unwrap_or_default(),
        ];
        if said.iter().any(|j| *j != js(&r.jwks[key])) || RequestSigner::alg(&s).ok().as_deref() != Some("ES256") {
            violation(&["C16"], "signer-identity", format!("the signer of {} says it is {said:?}", js(&r.jwks[key])));
        }
        if signed.iter().any(|x| !ok(x)) || info.as_ref().ok() != Some(&("ES256".into(), None)) {
            violation(&["C16"], "signer-signature", format!("the signer of {} says {info:?}, and not all of its signatures are of its key", js(&r.jwks[key])));
        }
        probe("signer_checked");
        return;
    }
    match draw(3) {
        0 => {
            let (vm, key) = match draw(6) {
                0 => {
                    let d = &r.dids[draw(r.dids.len() as u32) as usize];
                    (d.vm.split('#').next().unwrap().to_string(), d.key)
                }
                1 => ("did:sim:nobody#k1".to_string(), r.dids[0].key),
                2 => ("did:sim:alpha#k9".to_string(), r.dids[0].key),
                _ => {
                    let d = &r.dids[draw(r.dids.len() as u32) as usize];
                    (d.vm.to_string(), if chance(500) { d.key } else { draw(r.keys.len() as u32) as usize })
                }
            };
            let jwk = if chance(150) { None } else { Some(key) };
            let (worn, dress) = (draw_dress(), draw_dress());
            let signer = Arc::new(SimSigner { alg: "ES256".into(), key, jwk, dress: worn });
            w(|w| w.wop_of_task.insert(cur_task(), WOp::default()));
            let res = DIDClient::new(vm.clone(), signer, SimResolver { dress }).await;
            let env = w(|w| w.wop_of_task.remove(&cur_task()).unwrap_or_default());
            let good = vm.contains('#')
                && jwk.is_some()
                && env.resolved.iter().any(|(k, a)| *k == vm && a.map(|a| Some(a) == jwk).unwrap_or(false));
            event(|| format!("construct DID {vm} good={good}"));
            match (&res, good) {
                (Ok(_), false) => violation(
                    &["C16"],
                    "did-client-construct",
                    format!("a DID client for {vm} was set up with signer key {jwk:?} and resolver answers {:?}", env.resolved),
                ),
                (Err(e), true) if worn == dress => violation(&["C16"], "did-client-refused", format!("a sound DID client was refused: {e:#}")),
                _ => {}
            }
            if let Ok(c) = res {
                let did = vm.rsplit_once('#').map(|x| x.0).unwrap_or(&vm).to_string();
                if c.id().0 != format!("decentralized_identifier:{did}") || &*c.prefix() != "decentralized_identifier" {
                    violation(&["C16"], "did-client-id", format!("client for {vm} identifies itself as {}", c.id().0));
                }
            }
        }
        k => {
            let first = draw(r.certs.len() as u32) as usize;
            let more = draw(3) as usize;
            let key = r.certs[first].key;
            let signer = make_signer(true, key, "ES256");
            let names = dns_names(&r.certs[first].cert);
            event(|| format!("construct x509 {first}+{more}"));
            w(|w| w.phase.insert(cur_task(), "construct"));
            if chance(100) {
                let made = if k == 1 {
                    X509SanDnsClient::new(vec![], signer).map(|c| c.id().0.clone())
                } else {
                    X509HashClient::new(vec![], signer).map(|c| c.id().0.clone())
                };
                w(|w| w.phase.remove(&cur_task()));
                if let Ok(id) = made {
                    violation(&["C16"], "x509-client-empty", format!("a client without any certificate identifies itself as {id}"));
                }
                return;
            }
            let (id, prefix, want) = if k == 1 {
                match X509SanDnsClient::new(chain(first, more), signer) {
                    Ok(c) => (Some(c.id().0.clone()), c.prefix().0, names.first().map(|n| format!("x509_san_dns:{n}"))),
                    Err(_) => (None, "x509_san_dns".into(), names.first().map(|n| format!("x509_san_dns:{n}"))),
                }
            } else {
                let want = Some(format!("x509_hash:{}", cert_hash(r.certs[first].der)));
                match X509HashClient::new(chain(first, more), signer) {
                    Ok(c) => (Some(c.id().0.clone()), c.prefix().0, want),
                    Err(_) => (None, "x509_hash".into(), want),
                }
            };
            w(|w| w.phase.remove(&cur_task()));
            if id != want || prefix != if k == 1 { "x509_san_dns" } else { "x509_hash" } {
                violation(
                    &["C16"],
                    "x509-client-id",
                    format!("certificate {first} (names {names:?}) gave identifier {id:?}, prefix {prefix}, expected {want:?}"),
                );
            }
        }
    }
}

// ---------------------------------------------------------------- build

pub struct BuildIn {
    pub params: Vec<(&'static str, Json)>,
    pub typed: bool,
    pub dcql: Option<(DcqlQuery, Json)>,
    pub wallet: usize,
    pub dc_api: bool,
    pub id: Option<Uuid>,
    /// The id has been used before.
    pub again: bool,
}

/// What a build has to come to: the request's parameters, or why there cannot be one.
pub fn expect_build(
    s: &Svc,
    wl: &WalletCfg,
    input: &BuildIn,
    id: Option<&Uuid>,
) -> Result<Map<String, Json>, (&'static str, bool)> {
    let mut m = s.defaults.clone();
    for (k, v) in &input.params {
        m.insert(k.to_string(), v.clone());
    }
    m.insert("client_id".into(), json!(s.client_id));
    let Some((_, q)) = &input.dcql else { return Err(("no query", false)) };
    m.insert("dcql_query".into(), q.clone());
    if !m.get("response_type").map(|v| v.is_string()).unwrap_or(false) {
        return Err(("no response_type", false));
    }
    let mode = match m.get("response_mode").and_then(|v| v.as_str()) {
        Some(x) => x.to_string(),
        None => return Err(("no response_mode", false)),
    };
    match mode.as_str() {
        "direct_post" | "direct_post.jwt" => {
            if s.submit_at.cannot_be_a_base() {
                return Err(("unusable submission endpoint", false));
            }
            let u = id.map(|i| at(&s.submit_at, i)).unwrap_or_default();
            m.insert("response_uri".into(), json!(u));
        }
        "dc_api" | "dc_api.jwt" => {}
        _ => return Err(("unsupported response_mode", false)),
    }
    if !input.dc_api && !wl.supports(&s.prefix) {
        return Err(("wallet does not support the prefix", true));
    }
    let dc = mode.starts_with("dc_api");
    if m.contains_key("redirect_uri") || (dc && m.contains_key("response_uri")) {
        return Err(("contradictory URIs", false));
    }
    if !m.get("nonce").map(|v| v.is_string()).unwrap_or(false) {
        return Err(("no nonce", false));
    }
    if !input.dc_api && s.ref_at.as_ref().map(|u| u.cannot_be_a_base()).unwrap_or(false) {
        return Err(("unusable reference endpoint", false));
    }
    Ok(m)
}

/// Checks a request object the verifier emitted, independently of the library (C16).
fn check_issued(s: &Svc, jwt: &str) -> Result<Json, String> {
    let j = parse_jws(jwt)?;
    let h = |k: &str| j.header.get(k).cloned().unwrap_or(Json::Null);
    if j.payload.get("client_id") != Some(&json!(s.client_id)) {
        return Err(format!("client_id is {}", j.payload.get("client_id").cloned().unwrap_or(Json::Null)));
    }
    let custom = matches!(s.ident, Ident::Custom { .. });
    if !custom {
        if h("typ") != "oauth-authz-req+jwt" {
            return Err(format!("typ is {}", h("typ")));
        }
        if h("alg") != json!(s.alg) {
            return Err(format!("alg is {} instead of {}", h("alg"), s.alg));
        }
    }
    let der = |i: usize| {
        use base64::prelude::*;
        json!(BASE64_STANDARD.encode(reg().certs[i].der))
    };
    match &s.ident {
        Ident::Did(d) => {
            if h("kid") != json!(reg().dids[*d].vm) {
                return Err(format!("kid is {}", h("kid")));
            }
        }
        Ident::San(c, m) | Ident::Hash(c, m) => {
            let mut want = vec![der(*c)];
            for i in 0..*m {
                want.push(der((c + 1 + i) % HONEST_CERTS));
            }
            if h("x5c") != Json::Array(want) {
                return Err("x5c is not the client's chain".into());
            }
        }
        Ident::Custom { .. } => {}
    }
    if !verify_key(s.key, &j) {
        return Err("signature does not verify under the client's key".into());
    }
    Ok(j.payload)
}

pub async fn do_build(svc: usize, inst: usize, v: Arc<Verifier>, input: BuildIn) -> Option<usize> {
    let call = w(|w| w.call_begin(CallKind::Build, svc, input.id));
    let wl = w(|w| w.wallets[input.wallet].clone());
    let mut b = v.build_authorization_request();
    // The query may be set before or after the parameters.
    let early = chance(500);
    if let (true, Some((q, _))) = (early, &input.dcql) {
        b = b.with_dcql_query(q.clone());
    }
    for (k, val) in &input.params {
        b = set_param!(b, with_request_parameter, *k, val.clone(), input.typed);
    }
    if let (false, Some((q, _))) = (early, &input.dcql) {
        b = b.with_dcql_query(q.clone());
    }
    // Metadata comes over the network.
    let mut meta = wl.meta.clone();
    if chance(500) {
        let text = serde_json::to_string(&meta).unwrap_or_default();
        match serde_json::from_str(&text) {
            Ok(m) => meta = m,
            Err(e) => violation(&["C23"], "metadata", format!("a wallet's metadata cannot be read by the verifier: {e}")),
        }
        crate::meta::check_wallet(&wl, &meta, "the verifier");
    }
    // A list of prefixes that cannot be read names none.
    let mut spoiled = false;
    if !input.dc_api && chance(20) {
        let mut j = js(&meta);
        j["client_id_prefixes_supported"] = match draw(4) {
            0 => json!("x509_san_dns"),
            1 => json!({"x509_hash": true}),
            2 => json!([["x509_san_dns"]]),
            _ => json!(["x509_san_dns", "x509_hash", "decentralized_identifier", 1]),
        };
        if let Ok(m) = serde_json::from_value(j) {
            meta = m;
            spoiled = true;
            fault("unreadable_prefixes");
        }
    }
    let r: Result<(Uuid, Option<Url>, Option<String>)> = if input.dc_api {
        b.build_dc_api().await.map(|(u, j)| (u, None, Some(j)))
    } else if let Some(id) = input.id {
        b.build_with_session_id(id, meta).await.map(|u| (id, Some(u), None))
    } else {
        b.build(meta).await.map(|(i, u)| (i, Some(u), None))
    };
    w(|w| w.tick());
    event(|| format!("build on {svc}.{inst} -> {}", if r.is_ok() { "ok" } else { "error" }));
    if let Err(e) = &r {
        note(|| format!("build error: {e:#}"));
    }
    let store = w(|w| w.svcs[svc].store.clone());
    let id = r.as_ref().ok().map(|x| x.0);
    let want = w(|w| expect_build(&w.svcs[svc], &wl, &input, id.as_ref()));
    let want = if spoiled { Err(("unreadable prefixes", true)) } else { want };
    let (inits, others, op_fault, sign_faults): (Vec<Uuid>, usize, bool, u32) = w(|w| {
        let c = &w.calls[call];
        let inits = c
            .ops
            .iter()
            .map(|i| &w.ops[*i])
            .filter(|o| o.kind == OpKind::Init && o.applied.is_some())
            .map(|o| o.uuid)
            .collect();
        let others = c
            .ops
            .iter()
            .map(|i| &w.ops[*i])
            .filter(|o| !matches!(o.kind, OpKind::Init | OpKind::Get) && o.applied.is_some())
            // A failed build may clean up after itself.
            .filter(|o| r.is_ok() || o.kind != OpKind::Remove || !c.ops.iter().any(|i| w.ops[*i].kind == OpKind::Init && w.ops[*i].uuid == o.uuid))
            .count();
        let f = c.ops.iter().any(|i| w.ops[*i].faulted);
        (inits, others, f, c.sign_faults)
    });
    check_waited(call);
    store.check_all("build");
    if others > 0 {
        violation(&["C01", "C05"], "build-touches", "a build changed the status of or removed a session");
    }
    let issue = match (r, want) {
        (Err(e), Ok(_)) => {
            if sign_faults == 0 && !op_fault && !input.again {
                violation(&["C11", "C15"], "build-refused", format!("a complete request was refused without any fault: {e:#}"));
            }
            if sign_faults > 0 && !inits.is_empty() {
                violation(&["C01"], "stored-unsigned", "a build whose signer failed left a session behind");
            }
            None
        }
        (Err(_), Err((why, _))) => {
            if !inits.is_empty() {
                violation(&["C01"], "failed-build-stored", format!("a build that cannot succeed ({why}) left a session behind"));
            }
            None
        }
        (Ok(_), Err((why, prefix))) => {
            if prefix {
                violation(&["C16", "C01"], "build-unsupported-prefix", "a request was built for a wallet that does not support the prefix");
            } else {
                violation(&["C01", "C11"], "build-impossible", format!("a request was built although it cannot be: {why}"));
            }
            None
        }
        (Ok((id, url, jwt)), Ok(payload)) => {
            check_built(svc, call, &wl, &input, id, url, jwt, payload, &inits, op_fault, sign_faults)
        }
    };
    w(|w| w.call_of_task.remove(&cur_task()));
    issue
}

#[allow(clippy::too_many_arguments)]
fn check_built(
    svc: usize,
    _call: usize,
    wl: &WalletCfg,
    input: &BuildIn,
    id: Uuid,
    url: Option<Url>,
    jwt: Option<String>,
    payload: Map<String, Json>,
    inits: &[Uuid],
    op_fault: bool,
    sign_faults: u32,
) -> Option<usize> {
    let v = |props: &[&'static str], key: &str, msg: String| violation(props, key, msg);
    if sign_faults > 0 {
        v(&["C01", "C16"], "signer-failure-hidden", "a build succeeded although its signer failed".into());
    }
    if op_fault {
        v(&["C01"], "store-failure-hidden", "a build succeeded although storing the session reported a failure".into());
    }
    if let Some(want) = input.id {
        if want != id {
            v(&["C01", "C05"], "chosen-id", "the caller's session id was not used".into());
        }
    }
    if !input.again && w(|w| w.seen_ids.contains(&id)) {
        v(&["C05", "C01"], "id-reused", "a session id was handed out twice".into());
    }
    w(|w| w.seen_ids.push(id));
    if inits.len() != 1 || inits[0] != id {
        v(&["C01"], "build-stores", format!("a successful build stored {} sessions under ids other than expected", inits.len()));
    }
    let (store, prefix_ref) = w(|w| (w.svcs[svc].store.clone(), w.svcs[svc].ref_at.clone()));
    let by_ref = prefix_ref.is_some() && !input.dc_api;
    let Some(sess) = store.peek(id) else {
        v(&["C01"], "built-not-stored", "a build returned but its session is not in the store".into());
        return None;
    };
    let want_status = if by_ref { Status::SentRequestByReference } else { Status::SentRequest };
    if w(|w| w.held(store.idx, id, 0).first().map(js)) != Some(js(&want_status)) {
        v(&["C01"], "initial-status", format!("initial status is {} instead of {}", js(&sess.status), js(&want_status)));
    }
    let handed = match (&url, &jwt) {
        (None, Some(j)) => j.clone(),
        (Some(u), _) => {
            let q: Vec<(String, String)> = u.query_pairs().map(|(a, b)| (a.into_owned(), b.into_owned())).collect();
            let get = |k: &str| {
                let m: Vec<&String> = q.iter().filter(|x| x.0 == k).map(|x| &x.1).collect();
                (m.len() == 1).then(|| m[0].clone())
            };
            let mut base = u.clone();
            base.set_query(None);
            if base != wl.endpoint {
                v(&["C11"], "wallet-endpoint", format!("request goes to {base} instead of {}", wl.endpoint));
            }
            let cid = w(|w| w.svcs[svc].client_id.clone());
            if get("client_id") != Some(cid.clone()) {
                v(&["C11", "C16"], "outer-client-id", format!("URL carries client_id {:?} instead of {cid}", get("client_id")));
            }
            let keys: Vec<&str> = q.iter().map(|x| x.0.as_str()).collect();
            if by_ref {
                let want = at(prefix_ref.as_ref().unwrap(), &id);
                if get("request_uri").as_deref() != Some(&want) || keys.contains(&"request") {
                    v(&["C05", "C04"], "request-uri", format!("request_uri is {:?} instead of {want}", get("request_uri")));
                }
                sess.authorization_request_jwt.clone()
            } else {
                match get("request") {
                    Some(r) if !keys.contains(&"request_uri") => r,
                    _ => {
                        v(&["C01", "C11"], "request-by-value", "URL does not carry the request by value".into());
                        return None;
                    }
                }
            }
        }
        _ => unreachable!(),
    };
    if handed != sess.authorization_request_jwt {
        v(&["C01", "C04"], "stored-jwt", "the stored signed request is not the one handed out".into());
    }
    match w(|w| check_issued(&w.svcs[svc], &handed)) {
        Err(e) => v(&["C16"], "issued-identity", format!("issued request: {e}")),
        Ok(p) => {
            if p != Json::Object(payload.clone()) {
                v(
                    &["C11", "C05"],
                    "issued-params",
                    format!("issued request has parameters {} instead of {}", diff(&p, &payload), short(&Json::Object(payload.clone()))),
                );
            }
            if payload.get("response_uri") != p.get("response_uri") {
                v(
                    &["C05", "C09", "C11"],
                    "response-uri",
                    format!("response_uri is {:?} instead of {:?}", p.get("response_uri"), payload.get("response_uri")),
                );
            }
        }
    }
    if js(&sess.authorization_request_object) != Json::Object(payload.clone()) {
        v(&["C01", "C11"], "stored-object", "the stored request object is not the request that was signed".into());
    }
    let dcql = input.dcql.as_ref().unwrap().1.clone();
    if js(&sess.dcql_query) != dcql || gen::dcql_seen(&sess.dcql_query) != dcql {
        v(&["C01", "C11"], "stored-query", format!("the stored query is {} instead of {dcql}", js(&sess.dcql_query)));
    }
    probe(if input.dc_api {
        "built_dc_api"
    } else if by_ref {
        "built_by_reference"
    } else {
        "built_by_value"
    });
    Some(w(|w| {
        w.jwts.push((svc, handed.clone()));
        w.issues.push(Issue { svc, uuid: id, url, jwt: handed, payload, dcql, wallet: input.wallet, acked: false });
        w.issues.len() - 1
    }))
}
pub fn short(j: &Json) -> String {
    let s = j.to_string();
    if s.len() > 400 {
        format!("{}...", s.chars().take(400).collect::<String>())
    } else {
        s
    }
}
fn diff(a: &Json, b: &Map<String, Json>) -> String {
    let empty = Map::new();
    let am = a.as_object().unwrap_or(&empty);
    let mut out = vec![];
    for k in am.keys().chain(b.keys()) {
        if am.get(k) != b.get(k) && !out.iter().any(|(x, _)| x == k) {
            out.push((k.clone(), am.get(k).map(short).unwrap_or("nothing".into())));
        }
    }
    format!("{out:?}")
}

// ---------------------------------------------------------------- fetch, submit, poll

pub async fn do_fetch(svc: usize, inst: usize, v: Arc<Verifier>, id: Uuid) -> Option<String> {
    let (call, start) = w(|w| {
        let c = w.call_begin(CallKind::Fetch, svc, Some(id));
        (c, w.calls[c].start)
    });
    let r = v.retrieve_authorization_request(id).await;
    w(|w| w.tick());
    let store = w(|w| w.svcs[svc].store.clone());
    let ((always, some), fault, reported_err, foreign) = w(|w| {
        let c = &w.calls[call];
        let ops: Vec<&OpRec> = c.ops.iter().map(|i| &w.ops[*i]).collect();
        (
            w.presence(store.idx, id, start),
            ops.iter().any(|o| o.faulted),
            ops.iter().any(|o| o.reported == Some(false)),
            ops.iter().any(|o| o.kind != OpKind::Get && o.uuid != id),
        )
    });
    event(|| format!("fetch on {svc}.{inst} -> {}", if r.is_ok() { "ok" } else { "error" }));
    if foreign {
        violation(&["C05"], "fetch-foreign", "a fetch wrote to another session");
    }
    match &r {
        Ok(jwt) => {
            if !some {
                violation(&["C04", "C05"], "fetch-unknown", "a fetch of an unknown or removed reference succeeded");
            } else {
                let want = w(|w| w.models[store.idx].sessions[&id].session.authorization_request_jwt.clone());
                if *jwt != want {
                    violation(&["C04", "C05"], "fetch-bytes", "a fetch returned something else than the signed request");
                }
                let st = w(|w| w.held(store.idx, id, start).iter().map(stage).max().unwrap_or(0));
                if st < 1 {
                    violation(&["C04"], "fetch-not-sent", "a fetch succeeded but the session is still waiting to be fetched");
                }
                probe(if st == 3 { "fetch_after_complete" } else { "fetch_ok" });
            }
            if reported_err {
                violation(&["C04"], "fetch-store-error-hidden", "a fetch succeeded although the store reported a failure");
            }
        }
        Err(e) => {
            if always && !fault {
                violation(&["C04", "C15"], "fetch-refused", format!("a fetch of a stored request failed without any fault: {e:#}"));
            }
            if !some {
                probe("fetch_unknown_refused");
            }
        }
    }
    check_waited(call);
    store.check_all("fetch");
    w(|w| w.call_of_task.remove(&cur_task()));
    r.ok()
}

fn response_json(r: &AuthorizationResponse) -> Json {
    match r {
        AuthorizationResponse::Unencoded(UnencodedAuthorizationResponse { vp_token, state }) => {
            let mut m = Map::new();
            for (k, v) in vp_token.0.iter() {
                m.insert(k.clone(), js(v));
            }
            // By whichever way one looks.
            let mut n = 0;
            for (k, v) in vp_token.iter() {
                n += 1;
                if m.get(k) != Some(&js(v)) {
                    m.insert("another way to look".into(), json!([k, v]));
                }
            }
            let same = m.iter().all(|(k, v)| vp_token.get(k).map(js).as_ref() == Some(v));
            if !same || n != vp_token.0.len() || vp_token.len() != n || vp_token.is_empty() != (n == 0) {
                m.insert("ways to look".into(), json!([same, n, vp_token.len(), vp_token.is_empty()]));
            }
            json!({"vp_token": m, "state": state.as_ref().map(|s| s.0.clone())})
        }
        AuthorizationResponse::Jwt(j) => json!({ "response": j.response }),
    }
}

/// The transcript the library computes for a request, checked against the reference encoding (C14).
pub fn check_transcript(aro: &AuthorizationRequestObject, payload: &Map<String, Json>, who: &str) {
    if chance(200) {
        loose_transcript(payload);
    }
    let cm = payload.get("client_metadata");
    let want_thumb = ref_thumb(cm);
    let thumb = get_encryption_jwk_thumbprint(aro);
    if thumb != want_thumb {
        violation(&["C14"], "thumbprint", format!("{who}: thumbprint of the encryption key is {thumb:?}, expected {want_thumb:?}"));
    }
    let nonce = payload.get("nonce").and_then(|v| v.as_str()).unwrap_or_default();
    let cid = payload.get("client_id").and_then(|v| v.as_str()).unwrap_or_default();
    let mode = payload.get("response_mode").and_then(|v| v.as_str()).unwrap_or_default();
    let lib_cid = aro.client_id().map(|c| c.0.clone()).unwrap_or_default();
    let lib_nonce = aro.nonce().to_string();
    let (want, got, inputs): (Vec<u8>, Result<(Vec<u8>, Vec<u8>, Vec<u8>)>, Json) = if mode.starts_with("dc_api") {
        let origin = payload
            .get("expected_origins")
            .and_then(|v| v.as_array())
            .and_then(|a| a.first())
            .and_then(|v| v.as_str())
            .unwrap_or("https://verifier.example");
        (
            ref_transcript_dcapi(origin, nonce, want_thumb.as_ref().map(|t| &t[..])),
            DcApiHandover::new(origin, &lib_nonce, thumb.as_ref().map(|t| &t[..])).and_then(|h| {
                let (hash, cbor) = (h.handover_info_hash().to_vec(), h.to_cbor_bytes()?);
                encodings(h, |h| h.handover_info_hash().to_vec(), hash, cbor)
            }),
            json!(["dc", origin, nonce, want_thumb.map(|t| t.to_vec())]),
        )
    } else {
        let uri = payload.get("response_uri").and_then(|v| v.as_str()).unwrap_or_default();
        (
            ref_transcript(cid, nonce, want_thumb.as_ref().map(|t| &t[..]), uri),
            Handover::new(&lib_cid, &lib_nonce, thumb.as_ref().map(|t| &t[..]), aro.return_uri().as_str()).and_then(|h| {
                let (hash, cbor) = (h.handover_info_hash().to_vec(), h.to_cbor_bytes()?);
                encodings(h, |h| h.handover_info_hash().to_vec(), hash, cbor)
            }),
            json!(["direct", cid, nonce, want_thumb.map(|t| t.to_vec()), uri]),
        )
    };
    probe("transcripts");
    match got {
        Err(e) => violation(&["C14"], "transcript-error", format!("{who}: no transcript: {e:#}")),
        Ok((bytes, again, ser)) => {
            if bytes != want {
                violation(&["C14"], "transcript", format!("{who}: transcript differs from the specified encoding for {}", short(&inputs)));
            }
            if again != bytes || ser != bytes {
                violation(&["C14"], "transcript-roundtrip", format!("{who}: transcript changes in a CBOR round trip"));
            }
            let clash = w(|w| {
                let c = w.transcripts.iter().find(|(i, b)| (*i == inputs) != (*b == bytes)).map(|(i, _)| i.clone());
                w.transcripts.push((inputs.clone(), bytes));
                c
            });
            if let Some(c) = clash {
                violation(&["C14"], "transcript-collision", format!("{who}: inputs {} and {} ", short(&c), short(&inputs)));
            }
        }
    }
}
/// A transcript made from parts, not from a request.
fn loose_transcript(payload: &Map<String, Json>) {
    let part = |k: &str| match draw(4) {
        0 => pick(&["", " ", "https://verifier.example/", "https://verifier.example", "a\r\nb", "a\nb", "e\u{301}", "\u{e9}", "\0", "%41", "HTTPS://Verifier.example:443"]).to_string(),
        1 => gen::text_len(),
        _ => payload.get(k).and_then(|v| v.as_str()).unwrap_or_default().to_string(),
    };
    let (who, nonce, uri) = (part("client_id"), part("nonce"), part("response_uri"));
    let mut some = [0u8; 40];
    if !chance(300) {
        some.iter_mut().for_each(|b| *b = draw(256) as u8);
    }
    let thumb = match draw(6) {
        0 => None,
        1 => Some(&some[..0]),
        2 => Some(&some[..pick(&[1usize, 20, 31, 33, 40])]),
        _ => Some(&some[..32]),
    };
    let (want, got) = if chance(500) {
        (
            ref_transcript_dcapi(&who, &nonce, thumb),
            DcApiHandover::new(&who, &nonce, thumb).and_then(|h| SessionTranscript::new(h).to_cbor_bytes()),
        )
    } else {
        (
            ref_transcript(&who, &nonce, thumb, &uri),
            Handover::new(&who, &nonce, thumb, &uri).and_then(|h| SessionTranscript::new(h).to_cbor_bytes()),
        )
    };
    probe("transcripts_of_parts");
    if !matches!(&got, Ok(b) if *b == want) {
        let what = json!([who, nonce, uri, thumb]);
        violation(&["C14"], "transcript-of-parts", format!("the transcript differs from the specified encoding for {}", short(&what)));
    }
}
fn encodings<H: serde::Serialize + serde::de::DeserializeOwned + PartialEq>(
    h: H,
    hash_of: impl Fn(&H) -> Vec<u8>,
    hash: Vec<u8>,
    cbor: Vec<u8>,
) -> Result<(Vec<u8>, Vec<u8>, Vec<u8>)> {
    let t = SessionTranscript::new(h);
    let bytes = t.to_cbor_bytes()?;
    let back: SessionTranscript<H> = ciborium::from_reader(&bytes[..]).map_err(|e| anyhow!("cannot be read back: {e}"))?;
    // What one can look at separately: the hash in it, and the part that holds it.
    let part: H = ciborium::from_reader(&cbor[..]).map_err(|e| anyhow!("the handover cannot be read back: {e}"))?;
    if !bytes.ends_with(&hash) || hash.len() != 32 || !bytes.ends_with(&cbor) || cbor.len() + 3 != bytes.len() {
        bail!("the handover or its hash, looked at separately, are not those of the transcript");
    }
    if back != t || part != *t.handover() || hash_of(back.handover()) != hash || hash_of(&part) != hash {
        bail!("a transcript read back is another one");
    }
    let mut ser = vec![];
    ciborium::into_writer(&t, &mut ser)?;
    let again = back.to_cbor_bytes()?;
    Ok((bytes, again, ser))
}

/// The application's validator: checks what it is given, thinks for a while, and returns a verdict.
async fn validator(call: usize, session: Session, response: AuthorizationResponse, want: Option<Json>) -> Outcome {
    let (svc, id, start, n) = w(|w| {
        w.calls[call].validator += 1;
        let c = &w.calls[call];
        (c.svc, c.uuid.unwrap(), c.start, c.validator)
    });
    event(|| format!("validator {n}"));
    let store = w(|w| w.svcs[svc].store.clone());
    let (known, held) = w(|w| (w.presence(store.idx, id, start).1, w.held(store.idx, id, start)));
    if !known {
        violation(&["C03", "C05"], "validator-unknown", "the validator was called for an unknown session");
    } else {
        let d = w(|w| {
            let mut s = w.models[store.idx].sessions[&id].session.clone();
            if held.iter().any(|h| js(h) == js(&session.status)) {
                s.status = session.status.clone();
            }
            same_session(&session, &s).err()
        });
        if let Some(d) = d {
            violation(&["C03", "C05"], "validator-session", format!("the validator was given {d}"));
        }
        let issue = w(|w| w.issues.iter().rev().find(|i| i.uuid == id && i.svc == svc).cloned());
        if let Some(i) = issue {
            check_transcript(&session.authorization_request_object, &i.payload, "verifier");
            if gen::dcql_seen(&session.dcql_query) != i.dcql {
                violation(&["C11", "C03"], "validator-query", "the validator was given another query");
            }
        }
    }
    #[cfg(feature = "jwe")]
    crate::seal::arrived(&response, &session.authorization_request_object);
    if let Some(want) = want {
        let got = response_json(&response);
        if got != want {
            violation(
                &["C10", "C03"],
                "response-changed",
                format!("the validator saw {} but the wallet submitted {}", short(&got), short(&want)),
            );
        }
    }
    let d = stalled("validator_stalled").unwrap_or_else(|| draw(6) as u64 * if chance(200) { 10 } else { 1 });
    w(|w| w.pay(d));
    if d > 0 {
        sleep(d).await
    } else if chance(500) {
        yield_now().await
    }
    let n = w(|w| {
        w.verdict_n += 1;
        w.verdict_n
    });
    let o = match weighted(&[50, 20, 20, 4, 4, 4]) {
        3 => Outcome::Success { info: pick(&[Json::Null, json!({}), json!([]), json!(""), json!(0), json!(false), json!({"info": null})]) },
        4 => Outcome::Failure { reason: pick(&["", " ", "null", "info"]).into() },
        5 => Outcome::Error { cause: pick(&["", " ", "null", "timeout"]).into() },
        0 => Outcome::Success { info: json!({"verdict": n, "claims": gen::value(2)}) },
        1 => Outcome::Failure { reason: format!("{n} {}", gen::text()) },
        _ => Outcome::Error { cause: format!("{n} {}", gen::text()) },
    };
    w(|w| {
        let j = js(&o);
        w.calls[call].verdict = Some(j.clone());
        w.verdicts.push(Verdict { uuid: id, outcome: j });
    });
    o
}

pub async fn do_submit(
    svc: usize,
    inst: usize,
    v: Arc<Verifier>,
    id: Uuid,
    response: AuthorizationResponse,
    want: Option<Json>,
) -> bool {
    let (call, start) = w(|w| {
        let c = w.call_begin(CallKind::Submit, svc, Some(id));
        (c, w.calls[c].start)
    });
    let r = v.verify_response(id, response, |s, r| Box::pin(validator(call, s, r, want))).await;
    w(|w| w.tick());
    let store = w(|w| w.svcs[svc].store.clone());
    let ((always, some), fault, reported_err, foreign, calls, verdict) = w(|w| {
        let c = &w.calls[call];
        let ops: Vec<&OpRec> = c.ops.iter().map(|i| &w.ops[*i]).collect();
        (
            w.presence(store.idx, id, start),
            ops.iter().any(|o| o.faulted),
            ops.iter().any(|o| o.reported == Some(false)),
            ops.iter().any(|o| o.kind != OpKind::Get && o.uuid != id),
            c.validator,
            c.verdict.clone(),
        )
    });
    event(|| format!("submit on {svc}.{inst} -> {}", if r.is_ok() { "ok" } else { "error" }));
    if foreign {
        violation(&["C05", "C03"], "submit-foreign", "a submission wrote to another session");
    }
    if calls > 1 {
        violation(&["C03"], "validator-twice", "the validator was called more than once for one submission");
    }
    match &r {
        Ok(()) => {
            probe("submit_ok");
            if !some {
                violation(&["C03", "C05"], "submit-unknown", "a submission to an unknown session was acknowledged");
            } else {
                if calls != 1 {
                    violation(&["C03"], "validator-not-called", "a submission was acknowledged without calling the validator");
                }
                let rec = w(|w| {
                    w.models[store.idx].sessions[&id].hist.iter().any(|(q, s)| {
                        *q > start && matches!(s, Status::Complete(o) if Some(js(o)) == verdict)
                    })
                });
                if !rec {
                    violation(&["C03"], "ack-unrecorded", "a submission was acknowledged but the validator's outcome was not recorded");
                }
            }
            if reported_err {
                violation(&["C03"], "submit-store-error-hidden", "a submission was acknowledged although the store reported a failure");
            }
        }
        Err(e) => {
            if always && !fault {
                violation(&["C03", "C15"], "submit-refused", format!("a submission to a stored session failed without any fault: {e:#}"));
            }
        }
    }
    check_waited(call);
    store.check_all("submission");
    w(|w| w.call_of_task.remove(&cur_task()));
    r.is_ok()
}

/// A status goes to the frontend as JSON and is compared there.
fn check_status(s: &Status) {
    let text = serde_json::to_string(s).unwrap_or_default();
    match serde_json::from_str::<Status>(&text) {
        Ok(t) if js(&t) == js(s) && stage(&t) == stage(s) => {}
        Ok(t) => violation(&["C20"], "status-changed", format!("status {} reaches the frontend as {}", js(s), js(&t))),
        Err(e) => violation(&["C20"], "status-unreadable", format!("status {text} cannot be read by the frontend: {e}")),
    }
    let all = [Status::SentRequestByReference, Status::SentRequest, Status::ReceivedResponse];
    for a in &all {
        if (a < s) != (stage(a) < stage(s)) || (s < a) != (stage(s) < stage(a)) {
            violation(&["C02"], "status-order", format!("statuses {} and {} compare against their order", js(a), js(s)));
        }
    }
}

pub async fn do_poll(svc: usize, inst: usize, v: Arc<Verifier>, id: Uuid) -> Option<Status> {
    let (call, start) = w(|w| {
        let c = w.call_begin(CallKind::Poll, svc, Some(id));
        (c, w.calls[c].start)
    });
    let r = v.poll_status(id).await;
    w(|w| w.tick());
    let store = w(|w| w.svcs[svc].store.clone());
    let ((always, some), fault, writes) = w(|w| {
        let c = &w.calls[call];
        (
            w.presence(store.idx, id, start),
            c.ops.iter().any(|i| w.ops[*i].faulted),
            c.ops.iter().any(|i| w.ops[*i].kind != OpKind::Get),
        )
    });
    let _ = writes;
    event(|| format!("poll on {svc}.{inst} -> {}", r.as_ref().map(|s| stage(s) as i32).unwrap_or(-1)));
    match &r {
        Ok(s) => {
            check_status(s);
            if !some {
                violation(&["C05"], "poll-unknown", "a poll of an unknown or removed session succeeded");
            } else {
                let held = w(|w| w.held(store.idx, id, start));
                if !held.iter().any(|h| js(h) == js(s)) {
                    let lowest = held.iter().map(stage).min().unwrap_or(0);
                    let props: &[&'static str] = if stage(s) < lowest {
                        &["C02", "C03"]
                    } else {
                        &["C03", "C05", "C02"]
                    };
                    violation(props, "poll-value", format!("a poll returned {} which the session did not hold", js(s)));
                }
                if stage(s) == 3 {
                    probe("poll_complete")
                }
            }
        }
        Err(e) => {
            if always && !fault {
                violation(&["C15", "C02", "C03"], "poll-refused", format!("a poll of a stored session failed without any fault: {e:#}"));
            }
        }
    }
    check_waited(call);
    store.check_all("poll");
    w(|w| w.call_of_task.remove(&cur_task()));
    r.ok()
}

// ---------------------------------------------------------------- HTTP server stub

const REPLIES: &[&str] = &[
    "", "", "{}", "{\"redirect_uri\":\"https://verifier.example/done?c=1\"}", "  \n",
    "{\"redirect_uri\":\"https://verifier.example/a%20b#f\",\"x\":1}", "{\"other\":true}",
    " {\"redirect_uri\":\"https://verifier.example/done\"}\n", "{\"redirect_uri\":\"app.example:/done\"}",
    "{\"redirect_uri\":\"https://verifier.example\"}", "{\"redirect_uri\":\"https://verifier.example/\\u00e9?x=%2F\"}",
    "[]", "[{\"redirect_uri\":\"https://verifier.example/first\"}]", "null", "true", "\"\"", "0", "\"https://verifier.example/text\"",
    "{\"Redirect_URI\":\"https://verifier.example/case\"}", "{\"data\":{\"redirect_uri\":\"https://verifier.example/deep\"}}",
    "{\"redirect_url\":\"https://verifier.example/name\"}", "{\"redirect_uri \":\"https://verifier.example/blank\"}", "\t\r\n",
    "{\"redirect_uri\":\"https://verifier.example/done\",\"expires_in\":0,\"error\":\"x\"}", "{\"redirect_uri\":\"HTTPS://Verifier.Example:443/A/../b\"}",
    "{\"redirect_uri\":\" https://verifier.example/padded \"}", "{\"redirect_uri\":\"mailto:a@b\"}",
];
const BAD_REPLIES: &[&str] = &[
    "not json", "{", "{\"redirect_uri\":\"not a url\"}", "{\"redirect_uri\":\"\"}", "<html></html>", "{\"redirect_uri\":\"/relative\"}", "OK",
    "{\"redirect_uri\":\"https://verifier.example/do", "{\"redirect_uri\":\"https://verifier.example/done\"} x", "{\"redirect_uri\":\"https://\"}",
    "{\"other\":1", "{}{}", "\u{feff}{\"redirect_uri\":\"https://verifier.example/bom\"}", "\u{feff}{}", "{\"redirect_uri\":\"https://verifier.example/done\",}",
    "{'redirect_uri':'https://verifier.example/done'}", "https://verifier.example/bare", "redirect_uri=https://verifier.example/form", "NaN", "{}\0", "// x\n{}",
    "{\"redirect_uri\":\"verifier.example/done\"}", "{\"redirect_uri\":\"//verifier.example/done\"}", ")]}',\n{}", "{\"redirect_uri\":\"https://verifier.example/\\x\"}",
];
pub fn reply_body() -> String {
    let rate = w(|w| w.cfg.reply_weird);
    if faults_on() && chance(rate) {
        fault("odd_reply_body");
        pick(BAD_REPLIES).into()
    } else {
        pick(REPLIES).into()
    }
}

/// One HTTP request, in a task of the instance that got it.
pub async fn serve(svc: usize, inst: usize, v: Arc<Verifier>, method: String, uri: String, body: Vec<u8>, msg: u64) -> (u16, Vec<u8>) {
    let (ref_at, submit_at) = w(|w| (w.svcs[svc].ref_at.clone(), w.svcs[svc].submit_at.clone()));
    let path = uri.split('?').next().unwrap_or_default();
    let Ok(id) = path.rsplit('/').next().unwrap_or_default().parse::<Uuid>() else {
        return (404, vec![]);
    };
    if method == "GET" && ref_at.map(|r| at(&r, &id)) == Some(uri.clone()) {
        return match do_fetch(svc, inst, v, id).await {
            Some(j) => (200, j.into_bytes()),
            None => (pick(&[500u16, 503, 404]), b"{\"error\":\"server_error\"}".to_vec()),
        };
    }
    if method == "POST" && at(&submit_at, &id) == uri {
        let want = w(|w| w.payload_of_msg.get(&msg).cloned());
        return match AuthorizationResponse::from_x_www_form_urlencoded(&body) {
            Err(e) => {
                if want.is_some() {
                    violation(
                        &["C10", "C15"],
                        "response-unreadable",
                        format!("the verifier could not read a submitted response: {e:#}"),
                    );
                }
                (400, vec![])
            }
            Ok(r) => {
                if do_submit(svc, inst, v, id, r, want).await {
                    (pick(&[200u16, 200, 200, 201, 202]), reply_body().into_bytes())
                } else {
                    (pick(&[500u16, 503, 400]), vec![])
                }
            }
        };
    }
    (404, vec![])
}

/// Bodies that carry no response at all: the library has to refuse them.
pub const EMPTY_BODIES: &[&str] = &[
    "", "foo=bar", "state=abc", "vp_token=", "vp_token=notjson", "vp_token=%7B", "vp_token=42", "vp_token=%5B%5D", "vp_token=null",
    "error=access_denied&state=x", "&&&", "=", "Response=abc", "VP_TOKEN=%7B%7D", "vp_tokens=%7B%7D", "\u{0}", "id_token=x",
    "{\"vp_token\":{}}", "{\"response\":\"abc\"}",
];
pub fn check_empty_bodies() {
    let b = pick(EMPTY_BODIES);
    if let Ok(r) = AuthorizationResponse::from_x_www_form_urlencoded(b.as_bytes()) {
        violation(&["C10"], "empty-body", format!("a body without a response ({b:?}) was read as {}", response_json(&r)));
    }
}
