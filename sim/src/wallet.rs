//! Wallets: real `Wallet` implementations over the simulated network, and the checks made at every
//! return of a wallet call.

use crate::core::*;
use crate::gen;
use crate::ident::*;
use crate::net::SimHttp;
use crate::store::js;
use crate::svc::*;
use crate::world::*;
use anyhow::{bail, Error, Result};
use async_trait::async_trait;
use openid4vp::core::{
    authorization_request::{
        parameters::State,
        verification::{did, verifier::P256Verifier, x509_hash, x509_san, RequestVerifier},
        AuthorizationRequestObject,
    },
    metadata::WalletMetadata,
    object::UntypedObject,
    response::{
        parameters::{VpToken, VpTokenItem},
        AuthorizationResponse, JwtAuthorizationResponse, UnencodedAuthorizationResponse,
    },
};
use openid4vp::wallet::Wallet;
use serde_json::{json, Map, Value as Json};
use std::collections::HashMap;
use url::Url;

// ---------------------------------------------------------------- the wallets

pub struct SimWallet {
    pub cfg: WalletCfg,
}
/// A wallet that implements none of the checks.
pub struct BareWallet {
    pub meta: WalletMetadata,
}

impl SimWallet {
    async fn hook(
        &self,
        name: String,
        decoded: &AuthorizationRequestObject,
        jwt: Option<String>,
    ) -> Result<(), Error> {
        let i = w(|w| {
            w.wop().map(|o| {
                o.hooks.push(HookRec { name: name.clone(), decoded: js(decoded), jwt: jwt.clone(), ok: false });
                o.hooks.len() - 1
            })
        });
        let d = draw(4) as u64;
        if d > 0 {
            sleep(d).await
        }
        let r = self.judge(&name, decoded, jwt).await;
        event(|| format!("hook {name} {}", r.is_ok()));
        if let (Err(e), true) = (&r, true) {
            note(|| format!("refused by {name}: {e:#}"));
        }
        w(|w| {
            if let (Some(o), Some(i)) = (w.wop(), i) {
                o.hooks[i].ok = r.is_ok();
            }
        });
        r
    }
    async fn judge(&self, name: &str, decoded: &AuthorizationRequestObject, jwt: Option<String>) -> Result<(), Error> {
        let refuse = w(|w| w.cfg.hook_refuse);
        if faults_on() && chance(refuse) {
            fault("wallet_policy_refused");
            w(|w| {
                if let Some(o) = w.wop() {
                    o.policy_refused = true
                }
            });
            bail!("refused by policy")
        }
        let need = |j: Option<String>| j.ok_or_else(|| anyhow::anyhow!("unsigned request"));
        match name {
            "decentralized_identifier" => {
                did::verify_with_resolver(&self.cfg.meta, decoded, need(jwt)?, self.cfg.trusted.as_deref(), SimResolver { dress: draw_dress() })
                    .await
            }
            "x509_san_dns" => x509_san::validate::<P256Verifier>(&self.cfg.meta, decoded, need(jwt)?, None),
            "x509_hash" => x509_hash::validate::<P256Verifier>(&self.cfg.meta, decoded, need(jwt)?, None),
            _ => Ok(()),
        }
    }
}

macro_rules! hooks {
    ($($n:ident),*) => {
        #[async_trait]
        impl RequestVerifier for SimWallet {
            $(
                async fn $n(&self, d: &AuthorizationRequestObject, j: Option<String>) -> Result<(), Error> {
                    self.hook(stringify!($n).to_string(), d, j).await
                }
            )*
            async fn other(&self, p: &str, d: &AuthorizationRequestObject, j: Option<String>) -> Result<(), Error> {
                self.hook(format!("other:{p}"), d, j).await
            }
        }
    };
}
hooks!(
    decentralized_identifier, openid_federation, preregistered, redirect_uri, verifier_attestation, x509_san_dns,
    x509_hash
);
#[async_trait]
impl Wallet for SimWallet {
    type HttpClient = SimHttp;
    fn metadata(&self) -> &WalletMetadata {
        &self.cfg.meta
    }
    fn http_client(&self) -> &SimHttp {
        &SimHttp
    }
}
impl RequestVerifier for BareWallet {}
#[async_trait]
impl Wallet for BareWallet {
    type HttpClient = SimHttp;
    fn metadata(&self) -> &WalletMetadata {
        &self.meta
    }
    fn http_client(&self) -> &SimHttp {
        &SimHttp
    }
}

// ---------------------------------------------------------------- validating a request

/// The check a request object has to go through, by its own client identifier.
fn dispatch(payload: &Map<String, Json>) -> Result<String, &'static str> {
    let Some(cid) = payload.get("client_id").and_then(|v| v.as_str()) else {
        return Ok("preregistered".into());
    };
    match cid.split_once(':').map(|x| x.0) {
        None => Ok("preregistered".into()),
        Some("origin") => Err("the origin prefix is reserved"),
        Some(
            p @ ("decentralized_identifier" | "openid_federation" | "redirect_uri" | "verifier_attestation"
            | "x509_san_dns" | "x509_hash"),
        ) => Ok(p.to_string()),
        Some(p) => Ok(format!("other:{p}")),
    }
}

enum Via {
    Value(String),
    Reference(String),
    Direct(Map<String, Json>),
}

/// `honest`: the issue this URL came from, if nobody touched it on the way.
pub async fn do_validate(wallet: usize, url: Url, honest: Option<usize>) -> Option<AuthorizationRequestObject> {
    let cfg = w(|w| w.wallets[wallet].clone());
    w(|w| {
        w.wop_of_task.insert(cur_task(), WOp::default());
        w.phase.insert(cur_task(), "validate");
    });
    let r = if cfg.bare {
        BareWallet { meta: cfg.meta.clone() }.validate_request(url.clone()).await
    } else {
        SimWallet { cfg: cfg.clone() }.validate_request(url.clone()).await
    };
    let op = w(|w| {
        w.phase.remove(&cur_task());
        w.wop_of_task.remove(&cur_task()).unwrap_or_default()
    });
    event(|| format!("wallet {wallet} validate -> {}", if r.is_ok() { "ok" } else { "error" }));
    if let Err(e) = &r {
        note(|| format!("validation error: {e:#}"));
    }
    probe(match (&r, honest) {
        (Ok(_), Some(_)) => "validated_honest",
        (Ok(_), None) => "validated_other",
        (Err(_), Some(_)) => "refused_honest",
        (Err(_), None) => "refused_other",
    });

    // C21: somebody else's request is not looked at.
    if url.authority() != cfg.endpoint.authority() || url.path() != cfg.endpoint.path() || url.query().is_none() {
        let bad = if r.is_ok() {
            Some("was accepted")
        } else if !op.http.is_empty() {
            Some("was fetched")
        } else if !op.hooks.is_empty() {
            Some("was passed to the checks")
        } else {
            None
        };
        if let Some(bad) = bad {
            violation(&["C21"], "misaddressed", format!("a request to {} {bad} by the wallet at {}", short_url(&url), cfg.endpoint));
        }
        probe("misaddressed");
        return None;
    }

    // How the request was passed, by this harness's own reading of the URL.
    let q: Vec<(String, String)> = url.query_pairs().map(|(a, b)| (a.into_owned(), b.into_owned())).collect();
    let get = |k: &str| q.iter().find(|x| x.0 == k).map(|x| x.1.clone());
    let outer = get("client_id");
    let via = match (get("request"), get("request_uri")) {
        (Some(r), _) => Via::Value(r),
        (None, Some(u)) => Via::Reference(u),
        _ => Via::Direct(q.iter().map(|(k, v)| (k.clone(), json!(v))).collect()),
    };

    // C08: what was sent.
    match &via {
        Via::Reference(u) => {
            for h in &op.http {
                // (A reference that is not written in its normal form may be normalised on the way.)
                if h.method != "GET" || (h.uri != *u && Url::parse(u).map(|u| u.to_string()).as_ref() != Ok(&h.uri)) {
                    violation(&["C08"], "fetch-target", format!("the wallet sent {} {} instead of GET {u}", h.method, h.uri));
                }
                let prefer = h.headers.iter().any(|(k, v)| {
                    k == "prefer" && String::from_utf8_lossy(v).split([',', ';']).any(|x| x.trim() == "OID4VP-1.0.0")
                });
                if !prefer {
                    violation(&["C08"], "fetch-prefer", "the fetch does not announce the protocol version");
                }
                if !h.body.is_empty() {
                    violation(&["C08"], "fetch-body", "the fetch has a body");
                }
            }
            if op.http.len() > 1 || (r.is_ok() && op.http.len() != 1) {
                violation(&["C08"], "fetch-count", format!("the wallet sent {} requests for one reference", op.http.len()));
            }
        }
        _ => {
            if !op.http.is_empty() {
                violation(&["C08"], "fetch-uncalled", "the wallet sent a request although none was passed by reference");
            }
        }
    }
    let received: Option<String> = match &via {
        Via::Value(j) => Some(j.clone()),
        Via::Reference(_) => match op.http.last().and_then(|h| h.answer.clone()) {
            Some(Ok((s, b))) if (200..300).contains(&s) => String::from_utf8(b).ok(),
            _ => None,
        },
        Via::Direct(_) => None,
    };
    let direct = matches!(via, Via::Direct(_));

    // The received request object, read independently.
    let parsed: Result<(Map<String, Json>, Option<Jws>), String> = match (&via, &received) {
        (Via::Direct(m), _) => Ok((m.clone(), None)),
        (_, None) => Err("nothing usable was received".into()),
        (_, Some(jwt)) => parse_jws(jwt).and_then(|j| match &j.payload {
            Json::Object(o) => Ok((o.clone(), Some(j))),
            _ => Err("payload is not an object".into()),
        }),
    };

    // An answer that somebody replaced on its way is no longer the verifier's.
    let honest = match (&via, op.http.last()) {
        (Via::Reference(_), Some(h)) if h.faulted => None,
        _ => honest,
    };
    if let (Some(i), Some(got)) = (honest, &received) {
        if *got != w(|w| w.issues[i].jwt.clone()) {
            violation(&["C04", "C05"], "wallet-other-request", "the wallet was given another request than the one built for its session");
        }
    }
    match &r {
        Ok(aro) => {
            match &parsed {
                Err(e) => violation(&["C08", "C06"], "accepted-broken", format!("a request was accepted although {e}")),
                Ok((payload, jws)) => {
                    check_accepted(&cfg, &op, aro, payload, jws.as_ref(), received.as_deref(), outer.as_deref(), honest)
                }
            }
        }
        Err(e) => {
            if op.hooks.len() > 1 {
                violation(&["C07"], "hooks-many", "more than one check was called");
            }
            if let (Some(h), Ok((p, _))) = (op.hooks.first(), &parsed) {
                check_hook(&cfg, h, p, received.as_deref());
            }
            // An honest request has to be accepted.
            if let (Ok((p, jws)), true) = (&parsed, honest.is_some() || direct) {
                let untouched = match (&via, honest) {
                    (Via::Direct(_), _) => true,
                    (_, Some(i)) => received == w(|w| Some(w.issues[i].jwt.clone())),
                    _ => false,
                };
                if untouched && !op.env_fault && !op.policy_refused {
                    if let Err(why) = acceptable(&cfg, p, jws.as_ref(), outer.as_deref()) {
                        note(|| format!("refusal is in order: {why}"));
                    } else {
                        let mode = p.get("response_mode").and_then(|m| m.as_str()).unwrap_or_default();
                        let mut props = vec!["C11", "C15"];
                        if mode.ends_with(".jwt") {
                            props.push("C12");
                        }
                        if op.hooks.is_empty() {
                            // No check at all was asked about a request that has one.
                            props.push("C07");
                        }
                        violation(&props, "honest-refused", format!("an untampered request was refused: {e:#}"));
                    }
                }
            }
            // A fetch that did not even happen.
            if let (Via::Reference(_), true, true) = (&via, honest.is_some(), op.http.is_empty()) {
                violation(&["C08", "C15"], "fetch-missing", format!("the wallet did not fetch the request: {e:#}"));
            }
        }
    }
    r.ok()
}

fn short_url(u: &Url) -> String {
    u.as_str().chars().take(80).collect()
}

/// Does this wallet have to accept this request, if it is authentic and nothing fails?
pub fn acceptable(cfg: &WalletCfg, p: &Map<String, Json>, jws: Option<&Jws>, outer: Option<&str>) -> Result<(), String> {
    if cfg.bare {
        return Err("the wallet has no checks".into());
    }
    let s = |k: &str| p.get(k).and_then(|v| v.as_str());
    let name = dispatch(p).map_err(|e| e.to_string())?;
    if let Some(cid) = s("client_id") {
        if let Some((prefix, _)) = cid.split_once(':') {
            if !cfg.supports(prefix) {
                return Err(format!("prefix {prefix} is not supported"));
            }
        }
        if outer.map(|o| o != cid).unwrap_or(false) {
            return Err("client identifiers differ".into());
        }
    } else if p.contains_key("client_id") {
        return Err("client_id is no string".into());
    }
    if !p.get("client_metadata").map(|m| m.is_object()).unwrap_or(true) {
        return Err("client_metadata is no object".into());
    }
    let mode = s("response_mode").ok_or("no response_mode")?;
    match mode {
        "direct_post" | "direct_post.jwt" => {
            let u = s("response_uri").ok_or("no response_uri")?;
            Url::parse(u).map_err(|_| "response_uri is no URL")?;
            if p.contains_key("redirect_uri") {
                return Err("both URIs".into());
            }
        }
        "dc_api" | "dc_api.jwt" => {
            if p.contains_key("redirect_uri") || p.contains_key("response_uri") {
                return Err("URI with dc_api".into());
            }
        }
        _ => return Err("unsupported response_mode".into()),
    }
    if s("response_type").is_none() || s("nonce").is_none() {
        return Err("incomplete".into());
    }
    if mode.ends_with(".jwt") {
        gen::jarm_ok(p.get("client_metadata"), cfg.enc_algs.as_deref(), cfg.enc_encs.as_deref())?;
    }
    match (name.as_str(), jws) {
        ("decentralized_identifier" | "x509_san_dns" | "x509_hash", None) => return Err("unsigned".into()),
        (n @ ("decentralized_identifier" | "x509_san_dns" | "x509_hash"), Some(j)) => {
            let alg = j.header.get("alg").and_then(|a| a.as_str()).unwrap_or_default();
            if alg != "ES256" || !cfg.algs.iter().any(|a| a == alg) {
                return Err(format!("algorithm {alg}"));
            }
            if let (Some(t), true) = (&cfg.trusted, n == "decentralized_identifier") {
                let did = s("client_id").unwrap_or_default().strip_prefix("decentralized_identifier:").unwrap_or_default();
                if !t.iter().any(|x| x == did) {
                    return Err("untrusted".into());
                }
            }
        }
        _ => {}
    }
    if let Some(j) = jws {
        if j.header.get("typ") != Some(&json!("oauth-authz-req+jwt"))
            && !outer.unwrap_or_default().starts_with("redirect_uri:")
        {
            return Err("type".into());
        }
    }
    Ok(())
}

fn check_hook(cfg: &WalletCfg, h: &HookRec, payload: &Map<String, Json>, received: Option<&str>) {
    match dispatch(payload) {
        Err(e) => violation(&["C07"], "hook-reserved", format!("check {} was called although {e}", h.name)),
        Ok(n) => {
            if n != h.name {
                violation(&["C07"], "hook-wrong", format!("check {} was called instead of {n}", h.name));
            }
        }
    }
    let cid = payload.get("client_id").and_then(|v| v.as_str());
    if let Some((p, _)) = cid.and_then(|c| c.split_once(':')) {
        if !cfg.supports(p) {
            violation(&["C07"], "hook-unsupported", format!("check {} was called for the unsupported prefix {p}", h.name));
        }
    }
    if h.jwt.as_deref() != received {
        violation(&["C07", "C06"], "hook-jwt", format!("check {} was not given the received request object as is", h.name));
    }
    if h.decoded != Json::Object(payload.clone()) {
        violation(&["C07", "C06"], "hook-decoded", format!("check {} was given other parameters than received", h.name));
    }
}

#[allow(clippy::too_many_arguments)]
fn check_accepted(
    cfg: &WalletCfg,
    op: &WOp,
    aro: &AuthorizationRequestObject,
    payload: &Map<String, Json>,
    jws: Option<&Jws>,
    received: Option<&str>,
    outer: Option<&str>,
    honest: Option<usize>,
) {
    if cfg.bare {
        violation(&["C07"], "bare-accepted", "a wallet without any check accepted a request");
        return;
    }
    let s = |k: &str| payload.get(k).and_then(|v| v.as_str());
    if let Some(j) = jws {
        let typ = j.header.get("typ");
        if typ != Some(&json!("oauth-authz-req+jwt")) && !outer.unwrap_or_default().starts_with("redirect_uri:") {
            violation(&["C08"], "accepted-type", format!("a request object of type {typ:?} was accepted"));
        }
    }
    if js(aro) != Json::Object(payload.clone()) {
        violation(&["C06", "C11"], "accepted-params", "the accepted request is not the received one");
    }
    // C07
    match op.hooks.len() {
        1 => {
            check_hook(cfg, &op.hooks[0], payload, received);
            if !op.hooks[0].ok {
                violation(&["C07"], "hook-overruled", format!("a request was accepted although check {} refused it", op.hooks[0].name));
            }
        }
        n => violation(&["C07"], "hook-count", format!("a request was accepted after {n} checks")),
    }
    let cid = s("client_id");
    if let Some((p, _)) = cid.and_then(|c| c.split_once(':')) {
        if !cfg.supports(p) {
            violation(&["C07"], "accepted-unsupported", format!("a request with the unsupported prefix {p} was accepted"));
        }
        if p == "origin" {
            violation(&["C07"], "accepted-origin", "a request with the reserved prefix was accepted");
        }
    }
    if let (Some(o), Some(i)) = (outer, cid) {
        if o != i {
            violation(&["C07"], "client-id-mismatch", format!("outer client_id {o} and inner {i} differ, but the request was accepted"));
        }
    }
    // C06
    if let (Ok(n), Some(jwt)) = (dispatch(payload), received) {
        if matches!(n.as_str(), "decentralized_identifier" | "x509_san_dns" | "x509_hash") {
            let env = AuthEnv { algs: &cfg.algs, trusted: cfg.trusted.as_deref(), resolved: &op.resolved };
            if let Err(e) = authentic(&n, jwt, &env) {
                violation(&["C06"], "accepted-unauthentic", format!("a request as {} was accepted: {e}", cid.unwrap_or_default()));
            } else {
                probe("accepted_authentic");
            }
        }
    }
    // C12
    let mode = s("response_mode").unwrap_or_default();
    if mode.ends_with(".jwt") {
        if let Err(e) = gen::jarm_ok(payload.get("client_metadata"), cfg.enc_algs.as_deref(), cfg.enc_encs.as_deref()) {
            violation(&["C12"], "jarm-accepted", format!("a request for an encrypted response was accepted: {e}"));
        } else {
            probe("accepted_encrypted");
        }
    }
    // C11: what the accessors show.
    let bad = |what: &str, got: String| {
        violation(&["C11"], "accessor", format!("{what} is {got}, the request has {}", short(&Json::Object(payload.clone()))))
    };
    if aro.client_id().map(|c| c.0.as_str()) != cid {
        bad("client_id", format!("{:?}", aro.client_id()));
    }
    if aro.client_id_scheme().map(|c| c.0.as_str()) != cid.and_then(|c| c.split_once(':')).map(|x| x.0) {
        bad("prefix", format!("{:?}", aro.client_id_scheme()));
    }
    if Some(aro.nonce().to_string().as_str()) != s("nonce") {
        bad("nonce", aro.nonce().to_string());
    }
    let state = aro.state().map(|s| s.map(|s| s.0).unwrap_or("unreadable".into()));
    if state.as_deref() != s("state") {
        bad("state", format!("{state:?}"));
    }
    if String::from(aro.response_mode().clone()) != mode {
        bad("response_mode", aro.response_mode().to_string());
    }
    let id_token = match s("response_type") {
        Some("vp_token") => Some(false),
        Some("vp_token id_token") => Some(true),
        _ => None,
    };
    if aro.is_id_token_requested() != id_token {
        bad("whether an ID token is requested", format!("{:?}", aro.is_id_token_requested()));
    }
    if Some(String::from(aro.response_type().clone()).as_str()) != s("response_type") {
        bad("response_type", format!("{:?}", aro.response_type()));
    }
    if mode.starts_with("direct_post") {
        let want = s("response_uri").and_then(|u| Url::parse(u).ok());
        if want.as_ref() != Some(aro.return_uri()) {
            violation(
                &["C11", "C09"],
                "accessor-return-uri",
                format!("the response would go to {} instead of {:?}", aro.return_uri(), s("response_uri")),
            );
        }
    }
    match (payload.get("client_metadata"), aro.client_metadata()) {
        (Some(m @ Json::Object(_)), Ok(g)) => {
            if Json::from(g.0.clone()) != *m {
                bad("client_metadata", format!("{:?}", g));
            }
        }
        (Some(Json::Object(_)), Err(e)) => bad("client_metadata", format!("unreadable: {e:#}")),
        (None, Ok(g)) => bad("client_metadata", format!("{g:?}")),
        _ => {}
    }
    crate::meta::check_typed(aro, payload);
    crate::meta::check_client(aro, payload);
    if let Some(i) = honest {
        let (want, issue) = w(|w| (w.issues[i].dcql.clone(), w.issues[i].payload.clone()));
        if *payload != issue {
            violation(&["C11", "C04"], "honest-params", "the wallet received other parameters than the verifier set");
        }
        match aro.dcql_query() {
            Some(Ok(q)) => {
                if gen::dcql_seen(&q) != want || js(&q) != want {
                    bad("dcql_query", short(&js(&q)));
                }
            }
            x => bad("dcql_query", format!("{x:?}")),
        }
        check_transcript(aro, payload, "wallet");
    }
}

// ---------------------------------------------------------------- answering a request

/// A presentation made of the typed documents that applications have, and, independently, its JSON.
fn typed_item() -> (VpTokenItem, Json) {
    use ssi_claims::{
        data_integrity::{AnyDataIntegrity, AnySuite, DataIntegrity},
        vc::{v1, v2, AnyJsonPresentation},
    };
    type OfObjects = v2::syntax::JsonPresentation<v2::SpecializedJsonCredential<ssi_json_ld::syntax::Object>>;
    let second = chance(500);
    let mut d = json!({
        "@context": [if second { "https://www.w3.org/ns/credentials/v2" } else { "https://www.w3.org/2018/credentials/v1" }],
        "type": ["VerifiablePresentation"],
    });
    if chance(300) {
        d["type"].as_array_mut().unwrap().push(json!(gen::word()));
    }
    if chance(500) {
        d["id"] = json!(format!("urn:x:{}", gen::word()));
    }
    if chance(500) {
        d["holder"] = json!(format!("did:ex:{}", gen::word()));
    }
    let credentials = (0..draw(3))
        .map(|i| {
            let mut c = json!({
                "@context": d["@context"],
                "type": ["VerifiableCredential"],
                "id": format!("urn:c:{i}"),
                "issuer": format!("did:ex:{}", gen::word()),
                "credentialSubject": {"id": "did:ex:s", "name": gen::text(), "more": gen::value(1)},
            });
            if !second {
                c["issuanceDate"] = json!("2020-01-01T00:00:00Z");
            } else if chance(500) {
                c["validFrom"] = json!("2020-01-01T00:00:00.5Z");
            }
            c
        })
        .collect::<Vec<_>>();
    if !credentials.is_empty() {
        d["verifiableCredential"] = json!(credentials);
    }
    let proof = json!({
        "type": "DataIntegrityProof",
        "cryptosuite": pick(&["eddsa-rdfc-2022", "ecdsa-rdfc-2019"]),
        "created": "2023-02-24T23:36:38Z",
        "verificationMethod": "did:ex:h#k",
        "proofPurpose": "authentication",
        "proofValue": format!("z{}", "4oey5q2M3XKaxup3tmzN4DRFTLVqpLMweBrSxMY2xHX5XTYVQeVbY8nQAVHMrXFkXJpmEcqdoDwLWxaqA3Q1geV6"),
    });
    macro_rules! through {
        ($t:ty) => {
            match serde_json::from_value::<$t>(d.clone()).and_then(|x| Ok((serde_json::to_value(&x)?, x))) {
                Ok((j, x)) => {
                    probe("typed_presentation");
                    (VpTokenItem::from(x), j)
                }
                Err(e) => {
                    probe("typed_presentation_unavailable");
                    if std::env::var_os("VPSIM_DEBUG").is_some() {
                        eprintln!("{}: {e}: {d}", stringify!($t));
                    }
                    (VpTokenItem::String("x".into()), json!("x"))
                }
            }
        };
    }
    match draw(5) {
        0 => through!(AnyJsonPresentation),
        1 if second && chance(500) => through!(OfObjects),
        1 if second => through!(v2::syntax::JsonPresentation),
        1 => through!(v1::syntax::JsonPresentation),
        2 => {
            d["proof"] = proof;
            through!(AnyDataIntegrity)
        }
        _ => {
            d["proof"] = if chance(300) { json!([proof, proof]) } else { proof };
            through!(DataIntegrity<AnyJsonPresentation, AnySuite>)
        }
    }
}
fn item() -> (VpTokenItem, Json) {
    if chance(20) {
        typed_item()
    } else if chance(650) {
        let t = match draw(3) {
            0 => format!("eyJ{}.{}.{}", gen::word(), gen::word(), gen::word()),
            1 => format!("{}~{}~", gen::word(), gen::word()),
            _ if chance(30) => pick(&["x", "ab.", "~é"]).repeat(pick(&[1500usize, 11_000, 24_000, 70_000])),
            _ => gen::text(),
        };
        (if chance(500) { VpTokenItem::String(t.clone()) } else { t.clone().into() }, json!(t))
    } else {
        let o = gen::object(2);
        (VpTokenItem::JsonObject(o.clone()), Json::Object(o))
    }
}
/// A plain response and, independently, what it says.
pub fn plain(state: Option<String>, ids: &[String]) -> (AuthorizationResponse, Json) {
    let mut m: Map<String, Json> = Map::new();
    let mut h: HashMap<String, Vec<VpTokenItem>> = HashMap::new();
    let n = if chance(60) {
        0
    } else if chance(20) {
        12 + draw(30)
    } else {
        1 + draw(3)
    };
    for _ in 0..n {
        let id = if !ids.is_empty() && chance(700) { pick(ids) } else { gen::text() };
        let (mut a, mut b): (Vec<_>, Vec<_>) = (0..if chance(20) { 11 + draw(60) } else { draw(4) }).map(|_| item()).unzip();
        if !a.is_empty() && chance(60) {
            // The same presentation once more.
            a.push(a[0].clone());
            b.push(b[0].clone());
        }
        h.insert(id.clone(), a);
        m.insert(id, Json::Array(b));
    }
    let vp = if chance(500) {
        VpToken(h)
    } else {
        let mut h = h.into_iter();
        let mut v = match h.next() {
            Some((k, x)) if chance(500) => VpToken::with_credential(k, x),
            Some((k, x)) => {
                let mut v = VpToken::new();
                v.insert(k, x);
                v
            }
            None => VpToken::default(),
        };
        for (k, x) in h {
            v.insert(k, x);
        }
        v
    };
    let r = match &state {
        _ if chance(100) => {
            // Put together as an object of parameters.
            let mut o = UntypedObject::default();
            if let Some(s) = &state {
                o.insert(State(s.clone()));
            }
            o.insert(vp);
            let there = o.get::<VpToken>().and_then(|x| x.ok()).map(|x| js(&x));
            let r = UnencodedAuthorizationResponse::try_from(o);
            match r {
                Ok(r) if there == Some(Json::Object(m.clone())) => r,
                r => {
                    violation(&["C10"], "response-of-parts", format!("the parameters of a response became {there:?}, {r:?}"));
                    UnencodedAuthorizationResponse::new(VpToken::new())
                }
            }
        }
        Some(s) => UnencodedAuthorizationResponse::with_state(vp, State(s.clone())),
        None => UnencodedAuthorizationResponse::new(vp),
    };
    (AuthorizationResponse::Unencoded(r), json!({"vp_token": m, "state": state}))
}
pub fn encrypted() -> (AuthorizationResponse, Json) {
    let j = if chance(700) {
        format!("eyJ{}..{}.{}.{}", gen::word(), gen::word(), gen::word(), gen::word())
    } else {
        gen::text()
    };
    (AuthorizationResponse::Jwt(JwtAuthorizationResponse { response: j.clone() }), json!({ "response": j }))
}
/// An answer fit for the request, or deliberately of the wrong kind.
pub fn answer(aro: &AuthorizationRequestObject) -> (AuthorizationResponse, Json, bool) {
    let rate = w(|w| w.cfg.mismatch);
    let mode = String::from(aro.response_mode().clone());
    let mut jwt = mode.ends_with(".jwt");
    if faults_on() && chance(rate) {
        jwt = !jwt;
    }
    if jwt && !cfg!(feature = "jwe") {
        let (a, b) = encrypted();
        (a, b, true)
    } else {
        let state = match draw(4) {
            0 => None,
            1 => Some(gen::text()),
            _ => aro.state().and_then(|s| s.ok()).map(|s| s.0),
        };
        let ids: Vec<String> = aro
            .dcql_query()
            .and_then(|q| q.ok())
            .map(|q| q.credentials().iter().map(|c| c.id().to_string()).collect())
            .unwrap_or_default();
        #[cfg(feature = "jwe")]
        if jwt {
            let (a, b) = crate::seal::sealed(aro, state, &ids).unwrap_or_else(encrypted);
            return (a, b, true);
        }
        let (a, b) = plain(state, &ids);
        (a, b, false)
    }
}

/// The fields of a form body, read independently of the library.
fn form(body: &[u8]) -> Vec<(String, String)> {
    url::form_urlencoded::parse(body).map(|(a, b)| (a.into_owned(), b.into_owned())).collect()
}

/// True if the wallet was told that its response arrived.
pub async fn do_answer(
    wallet: usize,
    aro: AuthorizationRequestObject,
    response: AuthorizationResponse,
    want: Json,
    is_jwt: bool,
) -> bool {
    let cfg = w(|w| w.wallets[wallet].clone());
    let p = js(&aro);
    let s = |k: &str| p.get(k).and_then(|v| v.as_str()).unwrap_or_default().to_string();
    let mode = s("response_mode");
    let target = s("response_uri");
    w(|w| {
        w.wop_of_task.insert(cur_task(), WOp::default());
        w.pending.insert(cur_task(), want.clone());
        w.phase.insert(cur_task(), "submit");
    });
    let r = if cfg.bare {
        BareWallet { meta: cfg.meta.clone() }.submit_response(aro, response).await
    } else {
        SimWallet { cfg: cfg.clone() }.submit_response(aro, response).await
    };
    let op = w(|w| {
        w.phase.remove(&cur_task());
        w.pending.remove(&cur_task());
        w.wop_of_task.remove(&cur_task()).unwrap_or_default()
    });
    event(|| format!("wallet {wallet} submit -> {}", if r.is_ok() { "ok" } else { "error" }));
    if let Err(e) = &r {
        note(|| format!("submission error: {e:#}"));
    }
    let v = |key: &str, msg: String| violation(&["C09"], key, msg);
    if mode.starts_with("dc_api") {
        if !op.http.is_empty() {
            v("dcapi-sent", format!("something was sent for response mode {mode}"));
        }
        if !matches!(r, Ok(None)) {
            v("dcapi-result", format!("response mode {mode} did not end in plain success"));
        }
        probe("submit_dc_api");
        return r.is_ok();
    }
    if is_jwt != mode.ends_with(".jwt") {
        if !op.http.is_empty() {
            v("mismatch-sent", format!("a response of the wrong kind was sent for response mode {mode}"));
        }
        if r.is_ok() {
            v("mismatch-ok", format!("a response of the wrong kind for response mode {mode} was reported as submitted"));
        }
        probe("submit_mismatch");
        return false;
    }
    if op.http.len() != 1 {
        v("post-count", format!("{} requests were sent for one submission", op.http.len()));
        return r.is_ok();
    }
    let h = &op.http[0];
    let want_uri = Url::parse(&target).map(|u| u.to_string()).unwrap_or_default();
    if h.method != "POST" || h.uri != want_uri {
        v("post-target", format!("the response went to {} {} instead of POST {want_uri}", h.method, h.uri));
    }
    let ct: Vec<String> =
        h.headers.iter().filter(|x| x.0 == "content-type").map(|x| String::from_utf8_lossy(&x.1).into_owned()).collect();
    if ct.len() != 1 || ct[0].split(';').next() != Some("application/x-www-form-urlencoded") {
        v("post-type", format!("content type is {ct:?}"));
    }
    let f = form(&h.body);
    let mut got = Map::new();
    for (k, x) in &f {
        let x = if k == "vp_token" { serde_json::from_str(x).unwrap_or(json!(x)) } else { json!(x) };
        if got.insert(k.clone(), x).is_some() {
            v("post-form", format!("field {k} is there twice"));
        }
    }
    let mut exp = want.as_object().cloned().unwrap_or_default();
    if exp.get("state") == Some(&Json::Null) {
        exp.remove("state");
    }
    if got != exp {
        violation(
            &["C09", "C10"],
            "post-body",
            format!("the form says {} instead of {}", short(&Json::Object(got)), short(&Json::Object(exp))),
        );
    }
    let expect: Result<Option<Url>, &str> = match &h.answer {
        None | Some(Err(())) => Err("there was no answer"),
        Some(Ok((s, b))) => {
            if !(200..300).contains(s) {
                Err("the status was no success")
            } else {
                match std::str::from_utf8(b) {
                    Err(_) => Err("the body was not UTF-8"),
                    Ok(t) if t.trim().is_empty() => Ok(None),
                    Ok(t) => match serde_json::from_str::<Json>(t) {
                        Err(_) => Err("the body was not JSON"),
                        Ok(j) => match j.get("redirect_uri") {
                            None => Ok(None),
                            Some(u) => match u.as_str().map(Url::parse) {
                                Some(Ok(u)) => Ok(Some(u)),
                                _ => Err("the redirect URI was invalid"),
                            },
                        },
                    },
                }
            }
        }
    };
    match (&r, &expect) {
        (Ok(a), Ok(b)) => {
            if a != b {
                v("redirect", format!("redirect is {a:?} instead of {b:?}"));
            }
            probe(if b.is_some() { "submit_redirect" } else { "submit_ok_wallet" });
        }
        (Ok(_), Err(e)) => v("false-success", format!("a submission was reported as successful although {e}")),
        (Err(e), Ok(_)) => violation(
            &["C09", "C15"],
            "false-failure",
            format!("a submission was reported as failed although the verifier accepted it: {e:#}"),
        ),
        (Err(_), Err(_)) => probe("submit_error"),
    }
    r.is_ok()
}
