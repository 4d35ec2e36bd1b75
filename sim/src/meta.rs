//! What the parties say about themselves: wallet metadata on its way to verifiers, and a verifier's
//! metadata on its way to wallets, compared with the documents as they were written (C23).

use crate::core::*;
use crate::gen;
use crate::store::js;
use crate::svc::short;
use crate::world::*;
use openid4vp::core::{
    authorization_request::{
        parameters::{
            Audience, ClientId, ClientIdScheme, ClientMetadata, ExpectedOrigins, Nonce, RequestUriMethod, ResponseMode, ResponseType,
            ResponseUri, State, TransactionData, VerifierInfo,
        },
        AuthorizationRequestObject,
    },
    credential_format::{ClaimFormatDesignation, ClaimFormatMap, ClaimFormatPayload},
    metadata::{
        parameters::{
            verifier::{EncryptedResponseEncValuesSupported, JWKs, VpFormats},
            wallet::{
                AuthorizationEncryptionAlgValuesSupported, AuthorizationEncryptionEncValuesSupported, AuthorizationEndpoint,
                ClientIdPrefixesSupported, Issuer, RequestObjectSigningAlgValuesSupported, ResponseTypesSupported, VpFormatsSupported,
            },
        },
        WalletMetadata,
    },
    object::{TypedParameter, UntypedObject},
};
use serde_json::{json, Map, Value as Json};

pub const FORMATS: [&str; 9] =
    ["mso_mdoc", "dc+sd-jwt", "jwt_vc_json", "ldp_vc", "jwt_vp_json", "x_custom", "MSO_MDOC", "mso-mdoc", "other"];
const METHODS: [&str; 6] = ["ES256", "EdDSA", "es256", "ecdsa-rdfc-2019", "Ed25519Signature2018", ""];

/// What is supported within one credential format.
fn format_entry() -> Json {
    let list = || -> Vec<&str> { (0..draw(4)).map(|_| pick(&METHODS)).collect() };
    match draw(7) {
        0 | 1 => json!({ "alg_values": list() }),
        2 => json!({ "proof_type_values": list() }),
        3 => json!({}),
        4 => json!({ "sd-jwt_alg_values": list(), "kb-jwt_alg_values": list() }),
        5 => match draw(4) {
            0 => json!({ "alg_values": list(), "more": gen::value(1) }),
            1 => json!({ "alg_values": list(), "proof_type_values": list() }),
            2 => json!({ "alg_values_supported": list() }),
            _ => json!({ "proof_type": list() }),
        },
        _ => json!({ "issuerauth_alg_values": [-7], gen::word(): gen::value(1) }),
    }
}
pub fn formats() -> Json {
    let mut m = Map::new();
    for _ in 0..draw(4) {
        let name = if chance(900) { pick(&FORMATS).to_string() } else { gen::text() };
        m.insert(name, format_entry());
    }
    Json::Object(m)
}

fn strs(v: &Json) -> Option<Vec<String>> {
    serde_json::from_value(v.clone()).ok()
}

fn bad(who: &str, what: &str, got: impl std::fmt::Debug, want: &Json) {
    let got: String = format!("{got:?}").chars().take(400).collect();
    violation(&["C23"], "metadata", format!("{who}: {what} is {got}, what was set is {}", short(want)));
}

fn check_formats(who: &str, got: &ClaimFormatMap, want: &Json) {
    let empty = Map::new();
    let m = want.as_object().unwrap_or(&empty);
    if got.len() != m.len() {
        bad(who, "the number of formats", got.len(), want);
    }
    for (k, v) in m {
        match got.get(&crate::gen::designation(k)) {
            Some(p) if js(p) == *v => {}
            p => bad(who, &format!("format {k}"), p, want),
        }
        let d: ClaimFormatDesignation = k.parse().unwrap();
        if d != crate::gen::designation(k) || d.to_string() != *k || String::from(d.clone()) != *k || js(&d) != json!(k) {
            bad(who, "the name of a format", &d, want);
        }
    }
    for f in FORMATS {
        if got.contains_key(&ClaimFormatDesignation::from(f)) != m.contains_key(f) {
            bad(who, &format!("whether {f} is supported"), got.keys().collect::<Vec<_>>(), want);
        }
    }
    // A method is supported if the format's only list names it.
    let vp = VpFormats(got.clone());
    for (k, v) in m {
        let o = v.as_object().cloned().unwrap_or_default();
        for s in METHODS {
            let lists: Vec<Vec<String>> = ["alg_values", "proof_type_values"].iter().filter_map(|n| o.get(*n)).filter_map(strs).collect();
            let named = lists.iter().any(|l| l.iter().any(|x| x == s));
            let says = vp.supports_security_method(&k.as_str().into(), &s.to_string());
            if (says && !named) || (!says && named && o.len() == 1) {
                bad(who, &format!("support of {s} in {k}"), says, want);
            }
        }
    }
}

fn same<T: TypedParameter>(who: &str, o: &UntypedObject, want: &Map<String, Json>, show: impl Fn(T) -> Json) {
    let w = want.get(T::KEY);
    let got = o.get::<T>();
    match (&got, w) {
        (None, None) => {}
        (Some(Ok(g)), Some(x)) if show(g.clone()) == *x => {}
        _ => bad(who, T::KEY, got, w.unwrap_or(&Json::Null)),
    }
}

fn again<T: TypedParameter>(m: &mut WalletMetadata, doc: &Map<String, Json>) {
    if let Some(x) = doc.get(T::KEY).filter(|_| chance(600)).and_then(|v| T::try_from(v.clone()).ok()) {
        m.insert(x);
    }
}
pub fn set_again(m: &mut WalletMetadata, doc: &Map<String, Json>) {
    again::<Issuer>(m, doc);
    again::<ClientIdPrefixesSupported>(m, doc);
    again::<RequestObjectSigningAlgValuesSupported>(m, doc);
    again::<AuthorizationEncryptionAlgValuesSupported>(m, doc);
    again::<AuthorizationEncryptionEncValuesSupported>(m, doc);
    let types = doc.get("response_types_supported").and_then(strs);
    if let Some(t) = types.filter(|_| chance(600)) {
        m.insert(ResponseTypesSupported(t.into_iter().map(|s| s.into()).collect()));
    }
}

/// A wallet's metadata, wherever it has got to.
pub fn check_wallet(cfg: &WalletCfg, got: &WalletMetadata, who: &str) {
    let doc = &cfg.doc;
    let all = Json::Object(doc.clone());
    if js(got) != all {
        bad(who, "the document", short(&js(got)), &all);
    }
    if got.authorization_endpoint().0 != cfg.endpoint {
        bad(who, "the endpoint", got.authorization_endpoint(), &all);
    }
    let f = got.vp_formats_supported();
    check_formats(who, &f.0, &doc["vp_formats_supported"]);
    for n in FORMATS {
        if f.is_claim_format_supported(&n.into()) != doc["vp_formats_supported"].get(n).is_some() {
            bad(who, &format!("support of {n}"), f.is_claim_format_supported(&n.into()), &doc["vp_formats_supported"]);
        }
    }
    same::<Issuer>(who, got, doc, |x| json!(x.0));
    same::<AuthorizationEndpoint>(who, got, doc, |x| json!(x.0.as_str()));
    same::<ResponseTypesSupported>(who, got, doc, |x| json!(x.0.into_iter().map(String::from).collect::<Vec<_>>()));
    same::<ClientIdPrefixesSupported>(who, got, doc, |x| json!(x.0.into_iter().map(|s| s.0).collect::<Vec<_>>()));
    same::<RequestObjectSigningAlgValuesSupported>(who, got, doc, |x| json!(x.0));
    same::<AuthorizationEncryptionAlgValuesSupported>(who, got, doc, |x| json!(x.0));
    same::<AuthorizationEncryptionEncValuesSupported>(who, got, doc, |x| json!(x.0));
    probe("wallet_metadata_compared");
}

/// A verifier's metadata as a wallet reads it in the request it has accepted.
pub fn check_client(aro: &AuthorizationRequestObject, payload: &Map<String, Json>) {
    let who = "the wallet";
    let none = Map::new();
    let want = payload.get("client_metadata").and_then(|m| m.as_object()).unwrap_or(&none);
    let m = match ClientMetadata::resolve(aro) {
        Ok(m) => m,
        Err(e) => return bad(who, "client_metadata", e, &Json::Object(want.clone())),
    };
    let keys = want.get("jwks").and_then(|j| j.get("keys")).and_then(|k| k.as_array());
    match (m.jwks(), keys) {
        (None, None) => {}
        (Some(Ok(JWKs { keys: k })), Some(w)) if json!(k) == json!(w) => {}
        (g, _) => bad(who, "jwks", g, want.get("jwks").unwrap_or(&Json::Null)),
    }
    let enc = want.get("encrypted_response_enc_values_supported").cloned().unwrap_or(json!(["A128GCM"]));
    match m.encrypted_response_enc_values_supported() {
        Ok(EncryptedResponseEncValuesSupported(v)) if json!(v) == enc => {}
        Err(_) if crate::gen::names(&enc).is_none() => {}
        g => bad(who, "content encryption algorithms", g, &enc),
    }
    match (want.get("vp_formats_supported"), m.vp_formats(), aro.vp_formats()) {
        (Some(f), Ok(a), Ok(b)) => {
            check_formats(who, &a.0, f);
            check_formats(who, &b.0, f);
        }
        (None, Err(_), Err(_)) => {}
        (f, a, b) => bad(who, "vp_formats_supported", (a, b), f.unwrap_or(&Json::Null)),
    }
    probe("client_metadata_compared");
}

/// The typed parameters of an accepted request, against its JSON (C11).
pub fn check_typed(aro: &AuthorizationRequestObject, payload: &Map<String, Json>) {
    fn one<T: TypedParameter>(aro: &AuthorizationRequestObject, p: &Map<String, Json>, fits: bool, show: impl Fn(T) -> Json) {
        let got = aro.get::<T>();
        let ok = match (&got, p.get(T::KEY)) {
            (None, None) => true,
            (Some(Ok(g)), Some(x)) => show(g.clone()) == *x,
            (Some(Err(_)), Some(_)) => !fits,
            _ => false,
        };
        if !ok {
            violation(
                &["C11"],
                "accessor",
                format!("parameter {} is {got:?}, the request has {:?}", T::KEY, p.get(T::KEY).map(short)),
            );
        }
    }
    let text = |k: &str| payload.get(k).map(|v| v.is_string()).unwrap_or(false);
    let list = |k: &str| payload.get(k).map(|v| strs(v).is_some()).unwrap_or(false);
    one::<ClientId>(aro, payload, text("client_id"), |x| json!(x.0));
    one::<Nonce>(aro, payload, text("nonce"), |x| json!(x.to_string()));
    one::<State>(aro, payload, text("state"), |x| json!(x.0));
    one::<Audience>(aro, payload, text("aud"), |x| json!(x.0));
    one::<ResponseMode>(aro, payload, text("response_mode"), |x| json!(String::from(x)));
    one::<ResponseType>(aro, payload, text("response_type"), |x| json!(String::from(x)));
    one::<ExpectedOrigins>(aro, payload, list("expected_origins"), |x| json!(x.0));
    one::<TransactionData>(aro, payload, list("transaction_data"), |x| json!(x.0));
    let arr = payload.get("verifier_info").map(|v| v.is_array()).unwrap_or(false);
    one::<VerifierInfo>(aro, payload, arr, |x| json!(x.0));
    let get = payload.get("request_uri_method").map(|v| v == "get" || v == "post").unwrap_or(false);
    one::<RequestUriMethod>(aro, payload, get, |x| json!(if matches!(x, RequestUriMethod::Get) { "get" } else { "post" }));
    if let Some(u) = payload.get("response_uri").and_then(|v| v.as_str()).filter(|u| url::Url::parse(u).map(|x| x.as_str() == *u).unwrap_or(false)) {
        one::<ResponseUri>(aro, payload, true, |x| json!(x.0.as_str()));
        let _ = u;
    }
}

/// The operator of a wallet extends what it supports, while requests are under way.
pub fn extend(cfg: &mut WalletCfg, odd: bool) {
    let who = "the extended wallet";
    match draw(4) {
        0 => {
            let more: Vec<String> = (0..1 + draw(2)).map(|_| pick(&["x_new", "x_ext", "x509_hash", "redirect_uri", "x509_san_dns", "x_two"]).to_string()).collect();
            let l: Vec<ClientIdScheme> = more.iter().map(|s| ClientIdScheme(s.clone())).collect();
            if let Err(e) = cfg.meta.add_client_id_prefixes_supported(&l) {
                bad(who, "adding a prefix", e, &json!(more));
            }
            let mut p = cfg.prefixes.take().unwrap_or_else(|| vec!["pre-registered".into()]);
            p.extend(more);
            cfg.doc.insert("client_id_prefixes_supported".into(), json!(p));
            cfg.prefixes = Some(p);
        }
        1 => {
            let (a, s) = pick(&[(ssi_jwk::Algorithm::ES384, "ES384"), (ssi_jwk::Algorithm::EdDSA, "EdDSA"), (ssi_jwk::Algorithm::ES256, "ES256")]);
            if let Err(e) = cfg.meta.add_request_object_signing_alg_values_supported(a) {
                bad(who, "adding an algorithm", e, &json!(s));
            }
            cfg.algs.push(s.into());
            cfg.doc.insert("request_object_signing_alg_values_supported".into(), json!(cfg.algs));
        }
        2 => {
            let name = pick(&FORMATS);
            let entry = format_entry();
            let p: ClaimFormatPayload = match serde_json::from_value(entry.clone()) {
                Ok(p) => p,
                Err(e) => return bad(who, "a format", e, &entry),
            };
            cfg.meta.vp_formats_supported_mut().0.insert(name.into(), p);
            cfg.doc["vp_formats_supported"][name] = entry;
        }
        _ => {
            // One more method in each list that is there.
            let s = pick(&METHODS);
            for p in cfg.meta.vp_formats_supported_mut().0.values_mut() {
                if odd {
                    p.add_proof_type(s.to_string());
                } else {
                    p.add_alg(s.to_string());
                }
            }
            let list = if odd { "proof_type_values" } else { "alg_values" };
            for (_, v) in cfg.doc["vp_formats_supported"].as_object_mut().into_iter().flatten() {
                let o = v.as_object_mut().unwrap();
                // Only what consists of that list is of that kind.
                if o.len() == 1 && o.get(list).map(|l| strs(l).is_some()).unwrap_or(false) {
                    o[list].as_array_mut().unwrap().push(json!(s));
                }
            }
        }
    }
    // The typed copy of the formats is the one that counts; the untyped view is refreshed on the way out.
    match serde_json::from_value::<WalletMetadata>(js(&cfg.meta)) {
        Ok(m) => cfg.meta = m,
        Err(e) => bad(who, "the document", e, &Json::Object(cfg.doc.clone())),
    }
    let _ = VpFormatsSupported::default();
    check_wallet(cfg, &cfg.meta, who);
    fault("wallet_extended");
}
