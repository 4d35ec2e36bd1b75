//! Hostile messages (C24): everything a party can be sent, bent at every level, and signed with
//! identities of the attacker's own, so that much of it is accepted and read on. The only question
//! here is whether somebody falls over; what may be accepted is other properties' business.

use crate::attack;
use crate::core::*;
use crate::gen;
use crate::ident::*;
use crate::meta;
use crate::net;
use crate::store::js;
use crate::svc::*;
use crate::wallet::*;
use crate::world::*;
use base64::prelude::*;
use openid4vp::core::{
    authorization_request::{parameters::*, AuthorizationRequest, AuthorizationRequestObject},
    credential_format::ClaimFormatDesignation,
    dcql_query::DcqlQuery,
    iso_18013_7::{compute_jwk_thumbprint, get_encryption_jwk_thumbprint, DcApiHandover, Handover, SessionTranscript},
    metadata::{
        parameters::{verifier::*, wallet::*},
        WalletMetadata,
    },
    object::{TypedParameter, UntypedObject},
    response::{
        parameters::{IdToken, VpToken},
        AuthorizationResponse,
    },
};
use openid4vp::verifier::{
    client::DIDClient,
    session::{MemoryStore, Outcome, Status},
    Verifier,
};
use serde_json::{json, Value as Json};
use std::sync::Arc;
use url::Url;
use uuid::Uuid;

// ---------------------------------------------------------------- bending things

/// A value nobody expects here.
fn odd_value() -> Json {
    match draw(16) {
        0 => Json::Null,
        1 => json!(true),
        2 => json!([]),
        3 => json!({}),
        4 => json!(""),
        5 => pick(&[json!(0), json!(-1), json!(i64::MIN), json!(u64::MAX), json!(1.5), json!(-0.0), json!(1e308), json!(5e-324)]),
        6 => json!([[]]),
        7 => json!([null]),
        8 => json!({"": null}),
        9 => json!(["", 0, null, {}]),
        10 => {
            let mut v = json!(1);
            for _ in 0..pick(&[3, 20, 60, 100]) {
                v = if chance(500) { json!([v]) } else { json!({ "a": v }) };
            }
            v
        }
        11 => json!("é".repeat(pick(&[1, 33, 4096]))),
        12 => json!("A".repeat(pick(&[63, 64, 65, 255, 5000]))),
        13 => json!(odd_text()),
        14 => gen::value(3),
        _ => json!(gen::text()),
    }
}
fn odd_text() -> String {
    pick(&[
        ":", "::", "a:", ":a", "#", "did:", "did:sim:", "#k", "did:sim:x#", "a#b#c", "redirect_uri:", "x509_hash:", "x509_san_dns:",
        "decentralized_identifier:", "decentralized_identifier:did", "é:é", "x509_hash:é", "x509_hash:====", "origin:", "https://",
        "http://[", "http://[::1", "https://h:99999/", "mailto:a@b", "data:,x", "urn:x", "//", "\u{0}", "=", "====", "a=", "é", "ü.example",
        "*.", ".", "..", "xn--", "-", "%", "%zz", "AQAB", "AA", "A", "-_", "+/", "P-256", "EC", "RSA", "OKP", "oct", "enc", "sig", "ES256",
        "none", "direct_post", "direct_post.jwt", "dc_api", "dc_api.jwt", "fragment", "vp_token id_token", "vp_token", "code",
        "99999999999999999999", "1e999", "NaN", "get", "post", "GET",
    ])
    .to_string()
}
fn bend_text(s: &str) -> String {
    let n = s.chars().count() as u32;
    let cut: Vec<char> = s.chars().collect();
    match draw(10) {
        8 => format!("{}{}", cut[..draw(n.max(1)) as usize].iter().collect::<String>(), pick(&["=", "==", ".", "#", ":", "/", "é"])),
        9 => {
            // The same length, but other characters behind some place.
            let keep = draw(n.max(1)) as usize;
            let c = pick(&['é', 'ü', '\u{20ac}', '\u{1f980}']);
            cut.iter().enumerate().map(|(i, x)| if i < keep { *x } else { c }).collect()
        }
        0 => cut[..draw(n.max(1)) as usize].iter().collect(),
        1 => cut[draw(n.max(1)) as usize..].iter().collect(),
        2 => {
            let mut c = cut;
            c.insert(draw(n.max(1)) as usize, pick(&['é', '\u{0}', ':', '#', '.', '=', '\u{1f980}', ' ', '%', '"', '\\']));
            c.into_iter().collect()
        }
        3 => format!("{s}{s}"),
        4 => s.to_uppercase(),
        5 => {
            let mut c = cut;
            if n > 0 {
                c[draw(n) as usize] = pick(&['é', 'x', '0', '/', '-', '\u{ffff}']);
            }
            c.into_iter().collect()
        }
        6 => format!("{}{s}", pick(&["é", " ", ":", "x509_hash:", "\u{feff}"])),
        _ => odd_text(),
    }
}
/// What servers say when something went wrong: pages of any length in any language.
fn odd_page() -> String {
    let mut p = String::new();
    for _ in 0..1 + draw(4) {
        let t = pick(&["x", "é", "error: ", "\u{20ac}", "\u{1f980}", "<p>", "\r\n", "\u{0}", "Ошибка ", "エラー"]);
        p.push_str(&t.repeat(pick(&[1usize, 2, 17, 40, 300, 2000])));
    }
    p
}
/// A certificate with the sender's own key and names that nobody else has.
fn odd_cert(c: usize) -> Option<(Vec<u8>, Option<String>)> {
    use x509_cert::der::{asn1::Ia5String, asn1::OctetString, Encode};
    use x509_cert::ext::pkix::{name::GeneralName, SubjectAltName};
    let mut cert = reg().certs[c].cert.clone();
    let mut first = None;
    let names = (0..draw(4))
        .filter_map(|_| {
            let t = match draw(3) {
                0 => pick(&["", "v", "*", "*.", ".", "..", "a.", ".a", "*.*", "-", "xn--", "xn--a", "localhost", "127.0.0.1"]).to_string(),
                1 => "a".repeat(pick(&[1usize, 63, 64, 255, 2000])),
                _ => "evil.example".into(),
            };
            let n = Ia5String::new(&t).ok()?;
            Some(match draw(6) {
                0 => GeneralName::Rfc822Name(n),
                1 => GeneralName::UniformResourceIdentifier(n),
                2 => GeneralName::IpAddress(OctetString::new(vec![1u8; pick(&[0usize, 1, 4, 5, 16])]).ok()?),
                _ => {
                    first = first.take().or(Some(t));
                    GeneralName::DnsName(n)
                }
            })
        })
        .collect();
    let value = if chance(100) { vec![0x30, draw(256) as u8, draw(256) as u8] } else { SubjectAltName(names).to_der().ok()? };
    let san = cert.tbs_certificate.extensions.as_mut()?.iter_mut().find(|e| e.extn_id.to_string() == "2.5.29.17")?;
    san.extn_value = OctetString::new(value).ok()?;
    let again = san.clone();
    if chance(150) {
        cert.tbs_certificate.extensions.as_mut()?.push(again);
    } else if chance(50) {
        cert.tbs_certificate.extensions = None;
    }
    Some((cert.to_der().ok()?, first))
}
/// Bends one place somewhere in a document.
pub fn bend(v: &mut Json) {
    let deeper = match v {
        Json::Object(m) => !m.is_empty() && chance(750),
        Json::Array(a) => !a.is_empty() && chance(700),
        _ => false,
    };
    match v {
        Json::Object(m) if deeper => {
            let k = m.keys().nth(draw(m.len() as u32) as usize).unwrap().clone();
            if chance(120) {
                m.remove(&k);
            } else if chance(60) {
                let x = m.remove(&k).unwrap();
                m.insert(bend_text(&k), x);
            } else {
                bend(m.get_mut(&k).unwrap())
            }
        }
        Json::Array(a) if deeper => {
            let i = draw(a.len() as u32) as usize;
            match draw(8) {
                0 => drop(a.remove(i)),
                1 => a.push(a[i].clone()),
                2 => a.insert(i, odd_value()),
                3 => a.clear(),
                _ => bend(&mut a[i]),
            }
        }
        Json::Object(m) if chance(300) => drop(m.insert(if chance(500) { odd_text() } else { gen::KEYS[draw(16) as usize].into() }, odd_value())),
        Json::String(s) if chance(500) => *s = bend_text(s),
        _ => {
            *v = match draw(6) {
                0 => json!([v.clone()]),
                1 => json!({ "a": v.clone() }),
                2 => json!(v.to_string()),
                _ => odd_value(),
            }
        }
    }
}
fn bend_some(v: &mut Json) {
    for _ in 0..weighted(&[3, 6, 3, 1, 1]) {
        bend(v)
    }
}
fn bend_bytes(b: &mut Vec<u8>) {
    let n = b.len() as u32;
    match draw(9) {
        8 => *b = odd_page().into_bytes(),
        0 => b.truncate(draw(n.max(1)) as usize),
        1 if n > 0 => {
            let i = draw(n) as usize;
            b[i] ^= 1 << draw(8)
        }
        2 if n > 0 => b[draw(n) as usize] = pick(&[0u8, 0xff, 0x80, 0x30, 0x84, b'"', b'{', b'&', b'=', b'%']),
        3 => b.insert(draw(n.max(1)) as usize, draw(256) as u8),
        4 => {
            let i = draw(n.max(1)) as usize;
            let j = (i + draw(40) as usize).min(n as usize);
            b.drain(i..j);
        }
        5 => *b = pick(&[&b""[..], b"\xff\xfe", b"{", b"null", b"[]", b"\0", b".", "é".as_bytes()]).to_vec(),
        6 => b.extend(b.clone()),
        _ => {
            let k = pick(&[200usize, 5_000]);
            *b = pick(&[&b"["[..], b"{\"a\":", b"%5B", b"vp_token="]).repeat(k)
        }
    }
}

// ---------------------------------------------------------------- reading what was accepted

fn get<T: TypedParameter + serde::Serialize>(o: &UntypedObject) {
    let _ = o.get::<T>().map(|r| r.map(|t| js(&t)));
}
fn get_plain<T: TypedParameter>(o: &UntypedObject) {
    let mut o = o.clone();
    if let Some(Ok(t)) = o.get::<T>() {
        o.insert(t);
    }
    let _ = o.remove::<T>();
}
fn read_formats(f: &openid4vp::core::credential_format::ClaimFormatMap) {
    for k in meta::FORMATS {
        let d = ClaimFormatDesignation::from(k);
        let _ = f.get(&d).map(js);
        let _ = VpFormats(f.clone()).supports_security_method(&d, &"ES256".to_string());
        let _ = VpFormatsSupported(f.clone()).is_claim_format_supported(&d);
    }
    let mut f = f.clone();
    for (k, v) in f.iter_mut() {
        let _ = (k.to_string(), String::from(k.clone()));
        v.add_alg("X".into());
        v.add_proof_type("Y".into());
    }
}
fn read_query(q: &DcqlQuery) {
    let _ = gen::dcql_seen(q);
    for c in q.credentials() {
        let _ = (c.multiple(), c.require_cryptographic_holder_binding());
    }
    for s in q.credential_sets().into_iter().flat_map(|s| s.iter()) {
        let _ = s.is_required();
    }
    let _ = Json::from(q.clone());
}
/// Everything a wallet can ask of a request.
fn read_request(aro: &AuthorizationRequestObject) {
    let _ = (aro.client_id(), aro.client_id_scheme(), aro.nonce().to_string(), aro.return_uri().to_string());
    let _ = (aro.is_id_token_requested(), aro.response_mode().is_jarm(), aro.response_mode().to_string(), aro.response_type());
    let _ = aro.state();
    let _ = aro.client_id().map(|c| c.resolve_prefix());
    get_plain::<ClientId>(aro);
    get_plain::<Nonce>(aro);
    get_plain::<State>(aro);
    get_plain::<Audience>(aro);
    get_plain::<RedirectUri>(aro);
    get_plain::<ResponseUri>(aro);
    get_plain::<ResponseMode>(aro);
    get_plain::<ResponseType>(aro);
    get_plain::<ExpectedOrigins>(aro);
    get_plain::<TransactionData>(aro);
    get_plain::<VerifierInfo>(aro);
    get_plain::<RequestUriMethod>(aro);
    get_plain::<ClientMetadata>(aro);
    get_plain::<DcqlQuery>(aro);
    get_plain::<IdToken>(aro);
    get_plain::<VpToken>(aro);
    get::<DcqlQuery>(aro);
    if let Some(Ok(q)) = aro.dcql_query() {
        probe("hostile_query_read");
        read_query(&q);
    }
    if let Ok(f) = aro.vp_formats() {
        read_formats(&f.0);
    }
    if let Ok(m) = aro.client_metadata() {
        if let Some(Ok(k)) = m.jwks() {
            probe("hostile_keys_read");
            for k in &k.keys {
                let _ = compute_jwk_thumbprint(&Json::Object(k.clone()));
            }
            let _ = Json::from(k);
        }
        let _ = m.encrypted_response_enc_values_supported();
        if let Ok(f) = m.vp_formats() {
            read_formats(&f.0);
        }
        get_plain::<JWKs>(&m.0);
        get_plain::<EncryptedResponseEncValuesSupported>(&m.0);
        let _ = Json::from(m);
    }
    let t = get_encryption_jwk_thumbprint(aro);
    let t = t.as_ref().map(|t| &t[..]);
    let id = aro.client_id().map(|c| c.0.clone()).unwrap_or_default();
    if let Ok(h) = Handover::new(&id, aro.nonce(), t, aro.return_uri().as_str()) {
        let _ = SessionTranscript::new(h).to_cbor_bytes();
    }
    let origin = aro.get::<ExpectedOrigins>().and_then(|o| o.ok()).and_then(|o| o.0.first().cloned()).unwrap_or_default();
    if let Ok(h) = DcApiHandover::new(&origin, aro.nonce(), t) {
        let _ = SessionTranscript::new(h).to_cbor_bytes();
    }
    let u: UntypedObject = aro.clone().into();
    let _ = AuthorizationRequestObject::try_from(u).map(|a| js(&a));
}
fn read_metadata(m: &WalletMetadata) {
    let _ = (m.authorization_endpoint(), m.vp_formats_supported());
    read_formats(&m.vp_formats_supported().0);
    get_plain::<Issuer>(m);
    get_plain::<AuthorizationEndpoint>(m);
    get_plain::<ResponseTypesSupported>(m);
    get_plain::<ClientIdPrefixesSupported>(m);
    get_plain::<RequestObjectSigningAlgValuesSupported>(m);
    get_plain::<AuthorizationEncryptionAlgValuesSupported>(m);
    get_plain::<AuthorizationEncryptionEncValuesSupported>(m);
    let mut n = m.clone();
    let _ = n.add_client_id_prefixes_supported(&[ClientIdScheme("x_new".into())]);
    let _ = n.add_request_object_signing_alg_values_supported(ssi_jwk::Algorithm::ES384);
    let _ = js(&n);
    let u: UntypedObject = n.into();
    let _ = WalletMetadata::try_from(u);
}

// ---------------------------------------------------------------- hostile messages

/// A request object that its sender signed properly, whatever is in it.
fn request_object() -> (String, Option<String>) {
    let mode = pick(&["direct_post", "direct_post", "direct_post.jwt", "dc_api", "dc_api.jwt"]);
    let mut p = json!({
        "response_type": "vp_token", "response_mode": mode, "nonce": gen::word(), "state": gen::word(), "aud": "https://self-issued.me/v2",
        "dcql_query": gen::dcql().1,
        "client_metadata": gen::client_metadata(true),
        "transaction_data": ["eyJ0eXBlIjoieCJ9"], "verifier_info": [{"format": "jwt", "data": "x"}], "expected_origins": ["https://evil.example"],
    });
    if mode.starts_with("direct") {
        p["response_uri"] = json!("https://evil.example/collect/1");
    }
    let (id, mut header, key, cert) = attack::own_identity();
    if !id.is_empty() {
        p["client_id"] = json!(id);
    }
    if chance(500) {
        // One member is where it is wrong.
        let k = pick(&["client_metadata", "client_metadata", "client_metadata", "dcql_query", "dcql_query", "client_id", "response_uri", "nonce"]);
        if let Some(m) = p.get_mut(k) {
            for _ in 0..1 + draw(2) {
                bend(m)
            }
        }
    } else {
        bend_some(&mut p);
    }
    if chance(250) {
        bend_some(&mut header);
    }
    if let Some(c) = cert {
        let odd = if chance(350) { odd_cert(c) } else { None };
        if let (Some((der, name)), true) = (odd, header.get("x5c").map(|x| x.is_array()).unwrap_or(false)) {
            probe("odd_certificate");
            header["x5c"] = json!([BASE64_STANDARD.encode(&der)]);
            if p.is_object() && id.starts_with("x509_hash:") {
                p["client_id"] = json!(format!("x509_hash:{}", cert_hash(&der)));
            } else if let (true, Some(n)) = (p.is_object() && id.starts_with("x509_san"), name) {
                p["client_id"] = json!(format!("x509_san_dns:{n}"));
            }
        } else if chance(400) {
            // A certificate that is not quite one, under its own hash.
            let mut der = reg().certs[c].der.to_vec();
            for _ in 0..1 + draw(3) {
                let n = der.len() as u32;
                match draw(4) {
                    0 => der[draw(n) as usize] ^= 1 << draw(8),
                    1 => der[draw(n) as usize] = draw(256) as u8,
                    2 => {
                        let i = draw(n) as usize;
                        der.insert(i, draw(256) as u8)
                    }
                    _ => der.truncate(1 + draw(n) as usize),
                }
                if der.is_empty() {
                    der.push(0x30);
                }
            }
            if header.get("x5c").map(|x| x.is_array()).unwrap_or(false) {
                header["x5c"] = json!([BASE64_STANDARD.encode(&der)]);
            }
            if id.starts_with("x509_hash:") && p.is_object() {
                p["client_id"] = json!(format!("x509_hash:{}", cert_hash(&der)));
            }
        }
    }
    let id = p.get("client_id").and_then(|v| v.as_str()).map(|s| s.to_string());
    let (mut h, mut b) = (header.to_string().into_bytes(), p.to_string().into_bytes());
    if chance(60) {
        bend_bytes(&mut h);
    }
    if chance(60) {
        bend_bytes(&mut b);
    }
    let mut jwt = forge_raw(&h, &b, key);
    if chance(100) {
        let mut parts: Vec<String> = jwt.split('.').map(|s| s.to_string()).collect();
        let i = draw(parts.len() as u32) as usize;
        match draw(5) {
            0 => drop(parts.remove(i)),
            1 => parts.push(parts[i].clone()),
            2 => parts[i] = bend_text(&parts[i]),
            3 => parts[i].clear(),
            _ => {
                let mut s = BASE64_URL_SAFE_NO_PAD.decode(&parts[i]).unwrap_or_default();
                bend_bytes(&mut s);
                parts[i] = b64(s)
            }
        }
        jwt = parts.join(".");
    }
    (jwt, id)
}
/// What the attacker's server answers to a fetch, and to a submission.
pub fn answer_to(method: &str) -> (u16, Vec<u8>) {
    let mut body = if method == "GET" {
        request_object().0.into_bytes()
    } else {
        let mut j = json!({"redirect_uri": "https://evil.example/next?a=b", "more": gen::value(1)});
        bend_some(&mut j);
        j.to_string().into_bytes()
    };
    if chance(150) {
        bend_bytes(&mut body);
    }
    let stubborn = w(|w| w.cfg.stubborn);
    let status = match stubborn {
        0 if chance(850) => 200,
        0 => pick(&[100u16, 199, 204, 299, 300, 302, 304, 401, 404, 429, 500, 503, 599, 600, 999]),
        s => s,
    };
    if status >= 300 && chance(500) {
        body = odd_page().into_bytes();
    }
    (status, body)
}

async fn to_wallet() {
    let n = w(|w| w.wallets.len()) as u32;
    let wallet = draw(n) as usize;
    let mut u = w(|w| w.wallets[wallet].endpoint.clone());
    match draw(4) {
        0 | 1 => {
            let (jwt, id) = request_object();
            let mut q = u.query_pairs_mut();
            if let (Some(id), false) = (id, chance(100)) {
                q.append_pair("client_id", &if chance(60) { bend_text(&id) } else { id });
            }
            q.append_pair("request", &jwt);
        }
        2 => {
            let mut q = u.query_pairs_mut();
            if chance(500) {
                q.append_pair("client_id", &odd_text());
            }
            let r = format!("https://evil.example/r/{}", draw(100));
            q.append_pair("request_uri", &if chance(300) { bend_text(&r) } else { r });
            if chance(300) {
                q.append_pair("request_uri_method", pick(&["get", "post", "GET", ""]));
            }
        }
        _ => {
            // Parameters in the URL itself.
            let mut p = json!({
                "client_id": pick(&["redirect_uri:https://evil.example/cb", "x_ext:evil", "evil"]), "response_type": "vp_token", "response_mode": "direct_post",
                "nonce": gen::word(), "state": gen::word(), "response_uri": "https://evil.example/collect/2", "dcql_query": gen::dcql().1.to_string(),
                "client_metadata": json!(gen::client_metadata(true)).to_string(),
            });
            bend_some(&mut p);
            let o = p.as_object().cloned().unwrap_or_default();
            let mut q = u.query_pairs_mut();
            for (k, v) in o {
                q.append_pair(&k, &v.as_str().map(|s| s.to_string()).unwrap_or_else(|| v.to_string()));
            }
        }
    }
    if chance(80) {
        let mut q = u.query().unwrap_or_default().as_bytes().to_vec();
        bend_bytes(&mut q);
        u.set_query(Some(&String::from_utf8_lossy(&q)));
    }
    fault("hostile_request");
    // The two ways in that take a URL or its query.
    let own = w(|w| w.wallets[wallet].endpoint.clone());
    let _ = AuthorizationRequest::from_url(u.clone(), &own);
    let _ = AuthorizationRequest::from_query_params(u.query().unwrap_or_default()).map(|a| a.to_url(own));
    if let Some(aro) = do_validate(wallet, u, None).await {
        probe("hostile_request_accepted");
        read_request(&aro);
        let (r, want, is_jwt) = answer(&aro);
        do_answer(wallet, aro, r, want, is_jwt).await;
    }
}

async fn to_verifier() {
    let n = w(|w| w.svcs.len()) as u32;
    let svc = draw(n) as usize;
    let known: Vec<Uuid> = w(|w| w.issues.iter().filter(|i| i.svc == svc).map(|i| i.uuid).collect());
    let id = if known.is_empty() { Uuid::nil() } else { pick(&known) };
    let s = w(|w| w.svcs[svc].submit_at.clone());
    let mut t = json!({"cred0": ["eyJ.a.b", {"@context": [], "type": "VerifiablePresentation"}], "c-1": ["x~y~"]});
    bend_some(&mut t);
    let mut pairs: Vec<(&str, String)> = vec![("vp_token", if chance(100) { odd_text() } else { t.to_string() })];
    if chance(400) {
        pairs.push(("state", gen::text()));
    }
    if chance(200) {
        pairs.push((pick(&["response", "vp_token", "state", "id_token", "presentation_submission", "error", ""]), odd_value().to_string()));
    }
    if chance(200) {
        let p = pairs.remove(0);
        if chance(500) {
            pairs.push(p);
        }
    }
    let mut body = url::form_urlencoded::Serializer::new(String::new()).extend_pairs(&pairs).finish().into_bytes();
    for _ in 0..weighted(&[5, 2, 1]) {
        bend_bytes(&mut body);
    }
    fault("hostile_response");
    if let Ok(r) = AuthorizationResponse::from_x_www_form_urlencoded(&body) {
        probe("hostile_response_read");
        if let AuthorizationResponse::Unencoded(u) = r {
            for (k, v) in u.vp_token().iter() {
                let _ = (u.vp_token().get(k), js(v), u.vp_token().len(), u.vp_token().is_empty());
            }
            let _ = (u.state(), js(u.vp_token()));
            let _ = u.into_x_www_form_urlencoded();
        }
    }
    if !s.cannot_be_a_base() {
        net::rogue(svc, "POST", at(&s, &id), body).await;
    }
}

/// A wallet's metadata reaches a verifier that builds a request for it.
async fn metadata() {
    let n = w(|w| w.wallets.len()) as u32;
    let mut doc = w(|w| Json::Object(w.wallets[draw(n) as usize].doc.clone()));
    bend_some(&mut doc);
    let mut text = doc.to_string().into_bytes();
    if chance(100) {
        bend_bytes(&mut text);
    }
    fault("hostile_metadata");
    let Ok(m) = serde_json::from_slice::<WalletMetadata>(&text) else { return };
    probe("hostile_metadata_read");
    read_metadata(&m);
    let id = pick(&["x_ext:shop", "plain", "redirect_uri:https://shop.example/cb"]);
    let client = CustomClient { id: ClientId(id.into()), prefix: id.split_once(':').map(|x| x.0).unwrap_or("pre-registered").into(), typ: true };
    let v = Verifier::builder()
        .with_client(Arc::new(client))
        .with_session_store(Arc::new(MemoryStore::default()))
        .with_submission_endpoint("https://shop.example/submit".parse::<Url>().unwrap())
        .by_reference("https://shop.example/request".parse::<Url>().unwrap())
        .with_default_request_parameter(ResponseType::VpToken)
        .with_default_request_parameter(ResponseMode::DirectPost)
        .with_default_request_parameter(Nonce::from("n"));
    let Ok(v) = v.build().await else { return };
    if let Ok((id, _)) = v.build_authorization_request().with_dcql_query(gen::dcql().0).build(m).await {
        probe("hostile_metadata_served");
        let _ = v.poll_status(id).await;
        let _ = v.retrieve_authorization_request(id).await;
    }
}

/// A frontend reads a status, a verifier reads somebody's key.
async fn documents() {
    fault("hostile_document");
    for _ in 0..8 {
        plain_documents()
    }
    let vm = if chance(300) { odd_text() } else { reg().dids[0].vm.to_string() };
    let signer = Arc::new(SimSigner { alg: "ES256".into(), key: reg().dids[0].key, jwk: Some(reg().dids[0].key), dress: 0 });
    let _ = DIDClient::new(vm, signer, SimResolver { dress: 0 }).await;
}
fn plain_documents() {
    for _ in 0..2 {
        let mut k = pick(&[
            json!({"kty": "EC", "crv": "P-256", "x": "f83OJ3D2xF1Bg8vub9tLe1gHMzV76e8Tus9uPHvRVEU", "y": "x_FEzRu9m36HLN_tue659LNpXW6pCyStikYjKIWI5a0", "use": "enc"}),
            json!({"kty": "RSA", "n": "0vx7agoebGcQSuuPiLJXZptN9nndrQmbXEps2aiAFbWhM78LhWx4cbbfAAtVT86zwu1RK7aPFFxuhDR1L6tSoc_BJECPebWKRXjBZCiFV4n3oknjhMs", "e": "AQAB", "kid": "k"}),
            json!({"kty": "OKP", "crv": "Ed25519", "x": "11qYAYKxCrfVS_7TyWQHOg7hcvPapiMlrwIaaPcHURo"}),
        ]);
        bend(&mut k);
        let _ = compute_jwk_thumbprint(&k);
        let _ = JWKs::try_from(json!({ "keys": [k] })).map(Json::from);
    }
    let mut s = pick(&[
        json!("SentRequest"),
        json!({"Complete": {"Success": {"info": {"a": 1}}}}),
        json!({"Complete": {"Failure": {"reason": "x"}}}),
        json!({"Complete": {"Error": {"cause": "x"}}}),
    ]);
    bend_some(&mut s);
    if let Ok(s) = serde_json::from_value::<Status>(s) {
        let done = Status::Complete(Outcome::Failure { reason: String::new() });
        let _ = (s.partial_cmp(&done), done.partial_cmp(&s), s == done, js(&s), format!("{s:?}"));
    }
    let mut q = gen::dcql().1;
    bend_some(&mut q);
    if let Ok(q) = DcqlQuery::try_from(q) {
        read_query(&q);
    }
    let mut bytes = Handover::new("a", "b", None, "c").and_then(|h| SessionTranscript::new(h).to_cbor_bytes()).unwrap_or_default();
    bend_bytes(&mut bytes);
    if bytes.len() < 1000 {
        let _ = ciborium::from_reader::<SessionTranscript, _>(&bytes[..]).map(|t| t.to_cbor_bytes());
        let _ = ciborium::from_reader::<SessionTranscript<DcApiHandover>, _>(&bytes[..]).map(|t| t.to_cbor_bytes());
    }
}

pub async fn hostile() {
    sleep(draw(600) as u64).await;
    if w(|w| w.stop) {
        return;
    }
    match weighted(&[8, 3, 2, 1]) {
        0 => to_wallet().await,
        1 => to_verifier().await,
        2 => metadata().await,
        _ => documents().await,
    }
}

/// Somebody's key document, bent; None if it is no key any more.
pub fn bend_key(jwk: &ssi_jwk::JWK) -> Option<ssi_jwk::JWK> {
    let mut j = js(jwk);
    bend_some(&mut j);
    serde_json::from_value(j).ok()
}
