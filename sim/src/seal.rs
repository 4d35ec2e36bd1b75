//! Encrypted responses (C17): wallets encrypt what they answer with the library's own builder and
//! verifiers open it with the keys they published, over the same network as everything else.
//! Only built where src/core/jwe.rs is, against a stand-in for josekit.

use crate::core::*;
use crate::gen;
use crate::ident::*;
use crate::store::js;
use crate::svc::short;
use crate::wallet::plain;
use crate::world::*;
use openid4vp::core::{
    authorization_request::AuthorizationRequestObject,
    authorization_request::parameters::State,
    iso_18013_7::get_encryption_jwk_thumbprint,
    jwe::{build_encrypted_response, find_encryption_jwk, JweBuilder},
    object::ParsingErrorContext,
    response::{AuthorizationResponse, JwtAuthorizationResponse},
};
use serde_json::{json, Map, Value as Json};

const ENCS: [&str; 6] = ["A128CBC-HS256", "A192CBC-HS384", "A256CBC-HS512", "A128GCM", "A192GCM", "A256GCM"];

/// The public part of one of the keys whose private part is known.
pub fn real_key(k: &mut Map<String, Json>) {
    let j = js(&reg().jwks[draw(reg().jwks.len() as u32) as usize]);
    k.insert("x".into(), j["x"].clone());
    k.insert("y".into(), j["y"].clone());
}
/// Whose key is it?
fn owner(k: &Map<String, Json>) -> Option<usize> {
    reg().jwks.iter().position(|j| {
        let j = js(j);
        Some(&j["x"]) == k.get("x") && Some(&j["y"]) == k.get("y")
    })
}
fn open(jwe: &str, key: usize) -> Option<(Map<String, Json>, Json)> {
    let (h, c) = josekit::jwe::toy::open(jwe, reg().keys[key].as_nonzero_scalar())?;
    Some((h, serde_json::from_slice(&c).ok()?))
}
fn text(k: &Map<String, Json>, n: &str) -> Option<String> {
    k.get(n).and_then(|v| v.as_str()).map(|s| s.to_string())
}
/// May a response be encrypted to this key, by this library?
fn fit(k: &Map<String, Json>) -> bool {
    text(k, "alg").as_deref() == Some("ECDH-ES")
        && text(k, "crv").as_deref() == Some("P-256")
        && matches!(text(k, "use").as_deref(), None | Some("enc"))
}
fn keys_of(meta: &Json) -> Vec<Map<String, Json>> {
    let keys = meta.get("jwks").and_then(|j| j.get("keys")).and_then(|k| k.as_array()).cloned().unwrap_or_default();
    keys.into_iter().filter_map(|k| k.as_object().cloned()).collect()
}
fn usable(k: &Map<String, Json>) -> bool {
    text(k, "kty").as_deref() == Some("EC") && owner(k).is_some()
}

fn v(key: &str, msg: String) {
    violation(&["C17"], key, msg)
}

/// Checks a message against what it should say and to whom.
fn check_message(jwe: &str, key: &Map<String, Json>, enc: &str, kid: Option<&str>, content: &Json) {
    let Some(whose) = owner(key) else {
        return v("sealed-for-nobody", format!("a response was encrypted to the unusable key {key:?}"));
    };
    let Some((h, got)) = open(jwe, whose) else {
        return v("not-for-the-key", "the holder of the request's encryption key cannot open the response".into());
    };
    if got != *content {
        v("other-content", format!("the encrypted response says {} instead of {}", short(&got), short(content)));
    }
    if text(&h, "alg").as_deref() != Some("ECDH-ES") || text(&h, "enc").as_deref() != Some(enc) || text(&h, "kid").as_deref() != kid {
        v(
            "other-header",
            format!("the header of the encrypted response is {} instead of ECDH-ES, {enc}, {kid:?}", short(&Json::Object(h.clone()))),
        );
    }
    let other = draw(reg().keys.len() as u32) as usize;
    if js(&reg().jwks[other]) != js(&reg().jwks[whose]) && open(jwe, other).is_some() {
        v("for-another-key", "a stranger's key opens the encrypted response".into());
    }
    // What is in it must not be readable on the way (the key's name may happen to be the same text).
    if let Json::Object(m) = content {
        let mut head = h.clone();
        head.remove("kid");
        let head = Json::Object(head).to_string();
        let rest = jwe.split_once('.').map_or("", |x| x.1);
        for x in m.values().filter_map(|x| x.as_str()).filter(|x| x.len() > 12) {
            if head.contains(x) || rest.contains(x) || rest.contains(&b64(x)) {
                v("in-the-clear", "the encrypted response shows its content".into());
            }
        }
    }
}

/// An encrypted answer to a request, made by the library, and what the verifier has to receive.
pub fn sealed(aro: &AuthorizationRequestObject, state: Option<String>, ids: &[String]) -> Option<(AuthorizationResponse, Json)> {
    if chance(300) {
        return own_builder();
    }
    let (r, want) = plain(state.clone(), ids);
    let AuthorizationResponse::Unencoded(u) = r else { return None };
    let meta = js(aro).get("client_metadata").cloned().unwrap_or(Json::Null);
    let keys = keys_of(&meta);
    let first = keys.iter().find(|k| fit(k));
    let enc = match meta.get("encrypted_response_enc_values_supported") {
        None => Some("A128GCM".to_string()),
        Some(l) => gen::names(l).map(|l| l.into_iter().next().unwrap_or("A128GCM".to_string())),
    };
    let good = first.map(usable).unwrap_or(false) && enc.as_deref().map(|e| ENCS.contains(&e)).unwrap_or(false);
    let state = state.map(State);
    w(|w| w.phase.insert(cur_task(), "seal"));
    let made = build_encrypted_response(aro, &u.vp_token, state.as_ref());
    let found = aro
        .client_metadata()
        .ok()
        .and_then(|m| m.jwks().parsing_error().ok())
        .map(|j| find_encryption_jwk(j.keys.iter()).map(|i| (i.alg, i.kid, js(&i.jwk))).ok());
    w(|w| w.phase.remove(&cur_task()));
    event(|| format!("encrypt good={good} -> {}", made.is_ok()));
    if let Some(Some((alg, kid, jwk))) = &found {
        match first {
            None => v("key-chosen", format!("{jwk} was chosen for encryption although no key is fit for it")),
            Some(k) => {
                if *jwk != Json::Object(k.clone()) || *alg != "ECDH-ES" || *kid != text(k, "kid") {
                    v("key-chosen", format!("key {jwk} with {alg} and {kid:?} was chosen for encryption instead of {k:?}"));
                }
            }
        }
    }
    match made {
        Err(e) => {
            if good {
                v("encrypt-refused", format!("a response could not be encrypted to a sound key: {e:#}"));
            }
            probe("encrypt_refused");
            None
        }
        Ok(AuthorizationResponse::Unencoded(_)) => {
            v("not-encrypted", "the encrypted response is a plain one".into());
            None
        }
        Ok(AuthorizationResponse::Jwt(j)) => {
            let Some(k) = first else {
                v("no-key", "a response was encrypted although the request has no key for it".into());
                return None;
            };
            let mut content = want.clone();
            if content["state"] == Json::Null {
                content.as_object_mut().unwrap().remove("state");
            }
            check_message(&j.response, k, &enc.unwrap_or_default(), text(k, "kid").as_deref(), &content);
            // The transcript has to name the key the response is encrypted to.
            if let Some(t) = get_encryption_jwk_thumbprint(aro) {
                if Some(t) != ref_thumb(Some(&json!({"jwks": {"keys": [k]}}))) {
                    let known = Some(t) == ref_thumb(Some(&meta));
                    v(
                        if known { "transcript-names-an-unfit-key" } else { "transcript-names-another-key" },
                        format!("the response is encrypted to {k:?}, the session transcript names another key of the request"),
                    );
                }
            }
            w(|w| w.sealed.insert(j.response.clone(), (meta, content)));
            probe("encrypted_response");
            let want = json!({ "response": j.response });
            Some((AuthorizationResponse::Jwt(j), want))
        }
    }
}

/// A wallet that puts its message together itself.
fn own_builder() -> Option<(AuthorizationResponse, Json)> {
    let mut k = Map::new();
    k.insert("kty".into(), json!("EC"));
    k.insert("crv".into(), json!("P-256"));
    real_key(&mut k);
    if chance(300) {
        k.insert("kid".into(), json!(gen::text()));
    }
    if chance(300) {
        k.insert("use".into(), json!("enc"));
    }
    if chance(300) {
        k.insert("alg".into(), json!("ECDH-ES"));
    }
    let mut payload = gen::object(2);
    for n in ["iss", "sub", "jti", "aud", "exp", "nbf", "iat"] {
        payload.remove(n);
    }
    let payload = if chance(80) { pick(&[json!([]), json!("x"), Json::Null, json!([{"vp_token": {}}])]) } else { Json::Object(payload) };
    let alg = pick(&["ECDH-ES", "ECDH-ES", "ECDH-ES", "ECDH-ES", "ECDH-ES", "ECDH-ES+A256KW", "dir", "RSA-OAEP", "ecdh-es", ""]);
    let enc = if chance(300) { None } else { Some(pick(&["A128GCM", "A256GCM", "A256GCM", "A128CBC-HS256", "A192GCM"])) };
    let kid = if chance(400) { Some(gen::text()) } else { None };
    let (with_payload, with_key, with_alg) = (!chance(50), !chance(50), !chance(50));
    let good = with_payload && with_key && with_alg && alg == "ECDH-ES" && payload.is_object();
    // The parts may be set in any order, and more than once.
    w(|w| w.phase.insert(cur_task(), "seal"));
    let mut b = Ok(JweBuilder::new());
    let from = draw(5);
    for step in 0..5 {
        b = b.and_then(|b: JweBuilder| {
            Ok(match (from + step) % 5 {
                0 if with_payload => {
                    let b = if chance(100) { b.payload(json!({"another": true})) } else { b };
                    b.payload(payload.clone())
                }
                1 if with_key && chance(500) => b.recipient_key_json(&Json::Object(k.clone()))?,
                1 if with_key => b.recipient_key(josekit::jwk::Jwk::from_map(k.clone())?),
                2 if with_alg => b.alg(alg),
                3 => match enc {
                    Some(e) => b.enc(e),
                    None => b,
                },
                4 => match &kid {
                    Some(x) => b.kid(x.clone()),
                    None => b,
                },
                _ => b,
            })
        });
    }
    let made = b.and_then(|b| b.build());
    w(|w| w.phase.remove(&cur_task()));
    event(|| format!("own message good={good} -> {}", made.is_ok()));
    match made {
        Ok(j) => {
            if !good {
                v("built-from-little", format!("a message was built with alg {alg}, payload {}, {with_payload} {with_key} {with_alg}", short(&payload)));
                return None;
            }
            let own = text(&k, "kid");
            check_message(&j, &k, enc.unwrap_or("A128GCM"), kid.as_deref().or(own.as_deref()), &payload);
            probe("own_message");
            Some((AuthorizationResponse::Jwt(JwtAuthorizationResponse { response: j.clone() }), json!({ "response": j })))
        }
        Err(e) => {
            if good {
                v("build-refused", format!("a message with everything it needs could not be built: {e:#}"));
            }
            None
        }
    }
}

/// What arrives at the verifier opens with a key of that session's own request.
pub fn arrived(response: &AuthorizationResponse, session: &AuthorizationRequestObject) {
    let AuthorizationResponse::Jwt(j) = response else { return };
    let Some((meta, content)) = w(|w| w.sealed.get(&j.response).cloned()) else { return };
    if js(session).get("client_metadata").cloned().unwrap_or(Json::Null) != meta {
        return; // an answer to another request
    }
    let opened = keys_of(&meta).iter().filter_map(owner).find_map(|k| open(&j.response, k));
    match opened {
        None => v("verifier-cannot-open", "the verifier cannot open the response with any key of its own request".into()),
        Some((_, c)) if c != content => v("verifier-reads-other", format!("the verifier reads {} instead of {}", short(&c), short(&content))),
        _ => probe("opened_by_verifier"),
    }
}
