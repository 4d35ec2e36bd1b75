//! The attacker: owns identities of its own, sees every request object, and hands altered and
//! forged ones to wallets. It starts from an authentic request and breaks one or two things; the
//! oracle judges the result by itself, so nothing here has to say what is wrong with it.

use crate::core::*;
use crate::gen;
use crate::ident::*;
use crate::world::*;
use base64::prelude::*;
use serde_json::{json, Map, Value as Json};
use url::Url;

#[derive(Clone, Copy)]
pub enum Who {
    Did(usize),
    San(usize),
    Hash(usize),
}
impl Who {
    fn id(self) -> String {
        match self {
            Who::Did(d) => format!("decentralized_identifier:{}", did_of(reg().dids[d].vm)),
            Who::San(c) => format!(
                "x509_san_dns:{}",
                dns_names(&reg().certs[c].cert).first().cloned().unwrap_or("verifier.example".into())
            ),
            Who::Hash(c) => format!("x509_hash:{}", cert_hash(reg().certs[c].der)),
        }
    }
    fn key(self) -> usize {
        match self {
            Who::Did(d) => reg().dids[d].key,
            Who::San(c) | Who::Hash(c) => reg().certs[c].key,
        }
    }
    fn header(self) -> Map<String, Json> {
        let mut h = Map::new();
        h.insert("alg".into(), json!("ES256"));
        h.insert("typ".into(), json!("oauth-authz-req+jwt"));
        match self {
            Who::Did(d) => drop(h.insert("kid".into(), json!(reg().dids[d].vm))),
            Who::San(c) | Who::Hash(c) => drop(h.insert("x5c".into(), json!([der(c)]))),
        }
        h
    }
}
fn did_of(vm: &str) -> &str {
    vm.split('#').next().unwrap()
}
fn der(c: usize) -> Json {
    json!(BASE64_STANDARD.encode(reg().certs[c].der))
}
fn any_who() -> Who {
    match draw(3) {
        0 => Who::Did(draw(reg().dids.len() as u32) as usize),
        1 => Who::San(draw(EVIL_CERTS.end as u32) as usize),
        _ => Who::Hash(draw(EVIL_CERTS.end as u32) as usize),
    }
}
fn evil_cert() -> usize {
    EVIL_CERTS.start + draw(EVIL_CERTS.len() as u32) as usize
}
fn evil_who() -> Who {
    match draw(3) {
        0 => Who::Did(EVIL_DIDS.start + draw(EVIL_DIDS.len() as u32) as usize),
        1 => Who::San(evil_cert()),
        _ => Who::Hash(evil_cert()),
    }
}
fn who_is(client_id: &str) -> Option<Who> {
    w(|w| {
        w.svcs.iter().find(|s| s.client_id == client_id).and_then(|s| match s.ident {
            Ident::Did(d) => Some(Who::Did(d)),
            Ident::San(c, _) => Some(Who::San(c)),
            Ident::Hash(c, _) => Some(Who::Hash(c)),
            Ident::Custom { .. } => None,
        })
    })
}
fn fallback_payload() -> Map<String, Json> {
    json!({
        "client_id": "x", "response_type": "vp_token", "response_mode": "direct_post", "nonce": gen::word(),
        "response_uri": "https://evil.example/collect",
        "dcql_query": {"credentials": [{"id": "c", "format": "mso_mdoc", "meta": {}}]},
    })
    .as_object()
    .unwrap()
    .clone()
}
fn honest_jwt() -> Option<String> {
    let v = w(|w| w.jwts.iter().map(|x| x.1.clone()).collect::<Vec<_>>());
    (!v.is_empty()).then(|| pick(&v))
}
pub fn payload_of(jwt: &str) -> Option<Map<String, Json>> {
    parse_jws(jwt).ok().and_then(|j| j.payload.as_object().cloned())
}

/// A request object for a wallet to choke on.
pub fn attack_jwt(base: &str) -> String {
    if chance(300) {
        let victim = payload_of(base)
            .and_then(|p| p.get("client_id").and_then(|v| v.as_str()).and_then(who_is))
            .unwrap_or_else(honest_who);
        return impersonate(victim);
    }
    if chance(300) {
        return raw_attack(base);
    }
    let mut payload = payload_of(base)
        .or_else(|| honest_jwt().and_then(|j| payload_of(&j)))
        .unwrap_or_else(fallback_payload);
    let cid = payload.get("client_id").and_then(|v| v.as_str()).unwrap_or_default().to_string();
    let mode = payload.get("response_mode").and_then(|v| v.as_str()).unwrap_or_default().to_string();
    if mode.starts_with("direct_post") && chance(400) {
        payload.insert("response_uri".into(), json!(pick(&["https://evil.example/collect", "https://evil.example/x?y=z"])));
    }
    if chance(200) {
        payload.insert("nonce".into(), json!(gen::word()));
    }
    let who = match weighted(&[5, 3, 3]) {
        0 => who_is(&cid).unwrap_or_else(any_who),
        1 => evil_who(),
        _ => any_who(),
    };
    payload.insert("client_id".into(), json!(who.id()));
    let mut header = who.header();
    let mut key = who.key();
    let mut post: Vec<u32> = vec![];
    for _ in 0..weighted(&[1, 7, 2]) {
        let m = draw(16);
        event(|| format!("attack {m}"));
        match m {
            0 => key = evil_who().key(),
            1 => key = draw(reg().keys.len() as u32) as usize,
            2 => {
                let id = if chance(600) && !cid.is_empty() { cid.clone() } else { any_who().id() };
                payload.insert("client_id".into(), json!(id));
            }
            3 => {
                let id = payload.get("client_id").and_then(|v| v.as_str()).unwrap_or_default().to_string();
                payload.insert("client_id".into(), json!(similar(&id)));
            }
            4 => kid(&mut header, who),
            5 => x5c(&mut header, who, &mut key),
            6 => alg(&mut header),
            7 => typ(&mut header),
            8..=11 => post.push(m),
            12 => {
                payload.insert("client_id".into(), json!(hash_variant(who)));
            }
            13 => {
                let id = payload.get("client_id").and_then(|v| v.as_str()).unwrap_or_default().to_string();
                payload.insert("client_id".into(), json!(reprefix(&id)));
            }
            14 => {
                match draw(4) {
                    0 => drop(payload.remove("client_id")),
                    1 => drop(payload.insert("client_id".into(), json!(7))),
                    2 => drop(payload.insert("client_id".into(), Json::Null)),
                    _ => drop(payload.insert("client_id".into(), json!([who.id()]))),
                };
            }
            _ => {
                // Somebody else's header with this payload.
                header = any_who().header();
            }
        }
    }
    assemble(header, payload, key, &post)
}

fn honest_who() -> Who {
    match draw(3) {
        0 => Who::Did(draw(HONEST_DIDS as u32) as usize),
        1 => Who::San(draw(HONEST_CERTS as u32) as usize),
        _ => Who::Hash(draw(HONEST_CERTS as u32) as usize),
    }
}
/// The attacker signs with a key of its own and says it is somebody else, in the way a sloppy check
/// would fall for.
pub fn impersonate(victim: Who) -> String {
    let mut payload = honest_jwt().and_then(|j| payload_of(&j)).unwrap_or_else(fallback_payload);
    let mut header = victim.header();
    let mut id = victim.id();
    let m;
    let key;
    match victim {
        Who::Did(d) => {
            let vm = reg().dids[d].vm;
            let e = EVIL_DIDS.start + draw(EVIL_DIDS.len() as u32) as usize;
            key = reg().dids[e].key;
            m = draw(8);
            match m {
                0 => {}
                1..=3 => drop(header.insert("kid".into(), json!(reg().dids[e].vm))),
                4 => drop(header.insert("jwk".into(), serde_json::to_value(&reg().jwks[key]).unwrap())),
                5 => {
                    let c = evil_cert();
                    header.insert("x5c".into(), json!([der(c)]));
                    return sealed(header, payload, id, reg().certs[c].key, m);
                }
                6 => {
                    header.insert("kid".into(), json!(reg().dids[e].vm));
                    id = similar(&Who::Did(e).id());
                }
                _ => drop(header.insert("kid".into(), json!(format!("{}#{}", reg().dids[e].vm, vm)))),
            }
        }
        Who::San(c) | Who::Hash(c) => {
            let e = evil_cert();
            key = reg().certs[e].key;
            m = draw(9);
            match m {
                0 => {}
                1 | 2 => drop(header.insert("x5c".into(), json!([der(e)]))),
                3 => drop(header.insert("x5c".into(), json!([der(e), der(c)]))),
                4 => drop(header.insert("x5c".into(), json!([der(c), der(e)]))),
                5 => drop(header.insert("jwk".into(), serde_json::to_value(&reg().jwks[key]).unwrap())),
                6 | 7 => {
                    header.insert("x5c".into(), json!([der(e)]));
                    let names = dns_names(&reg().certs[e].cert);
                    id = match victim {
                        Who::San(_) if !names.is_empty() => {
                            let n = pick(&names);
                            match n.strip_prefix("*.") {
                                Some(n) if chance(700) => format!("x509_san_dns:{}.{n}", pick(&["sub", "a.b", "", "x"])),
                                _ => similar(&format!("x509_san_dns:{n}")),
                            }
                        }
                        _ => hash_variant(Who::Hash(e)),
                    };
                }
                _ => {
                    // Another name of the same victim.
                    header.insert("x5c".into(), json!([der(e)]));
                    if let (Who::San(_), Some(n)) = (victim, dns_names(&reg().certs[c].cert).last()) {
                        id = format!("x509_san_dns:{n}");
                    }
                }
            }
        }
    }
    if chance(300) {
        payload.insert("response_uri".into(), json!("https://evil.example/collect"));
        payload.insert("response_mode".into(), json!("direct_post"));
    }
    sealed(header, payload, id, key, m)
}
fn sealed(header: Map<String, Json>, mut payload: Map<String, Json>, id: String, key: usize, m: u32) -> String {
    event(|| format!("impersonation {m} of {id}"));
    payload.insert("client_id".into(), json!(id));
    assemble(header, payload, key, &[])
}
/// A whole request, by value, from somebody who is not who he says.
pub fn impostor_url(endpoint: &Url) -> Url {
    fault("attacker_impersonated");
    let j = if chance(700) {
        impersonate(honest_who())
    } else {
        attack_jwt(&honest_jwt().unwrap_or_default())
    };
    let id = payload_of(&j).and_then(|p| p.get("client_id").and_then(|c| c.as_str()).map(|s| s.to_string()));
    let mut u = endpoint.clone();
    if let Some(id) = id {
        u.query_pairs_mut().append_pair("client_id", &id);
    }
    u.query_pairs_mut().append_pair("request", &j);
    u
}

fn assemble(mut header: Map<String, Json>, payload: Map<String, Json>, key: usize, post: &[u32]) -> String {
    if post.contains(&11) {
        match draw(6) {
            0 => drop(header.insert("crit".into(), json!(["b64"]))),
            1 => drop(header.insert("b64".into(), json!(false))),
            2 => drop(header.insert("jwk".into(), serde_json::to_value(&reg().jwks[key]).unwrap())),
            3 => drop(header.insert("jku".into(), json!("https://evil.example/jwks"))),
            4 => drop(header.insert("crit".into(), json!(["exp"]))),
            _ => drop(header.insert("zip".into(), json!("DEF"))),
        }
    }
    let mut h = serde_json::to_string(&header).unwrap();
    let mut p = serde_json::to_string(&payload).unwrap();
    if post.contains(&10) {
        let who = evil_who();
        let twice = |s: &str, k: &str, v: &Json, first: bool| {
            let e = format!("{}:{}", json!(k), v);
            let inner = &s[1..s.len() - 1];
            if first {
                format!("{{{e},{inner}}}")
            } else {
                format!("{{{inner},{e}}}")
            }
        };
        let first = chance(500);
        match draw(4) {
            0 => h = twice(&h, "alg", &json!("none"), first),
            1 => h = twice(&h, "kid", &json!(reg().dids[4].vm), first),
            2 => h = twice(&h, "typ", &json!("JWT"), first),
            _ => p = twice(&p, "client_id", &json!(who.id()), first),
        }
    }
    let jwt = forge_raw(h.as_bytes(), p.as_bytes(), key);
    let mut parts: Vec<String> = jwt.split('.').map(|s| s.to_string()).collect();
    if post.contains(&8) {
        // The payload changes after it was signed.
        let mut p2 = payload.clone();
        match draw(5) {
            0 => drop(p2.insert("nonce".into(), json!("other"))),
            1 => drop(p2.insert("response_uri".into(), json!("https://evil.example/collect"))),
            2 => drop(p2.insert("state".into(), json!("other"))),
            3 => drop(p2.remove("state")),
            _ => drop(p2.insert("extra".into(), json!(true))),
        }
        parts[1] = b64(serde_json::to_vec(&p2).unwrap());
    }
    if post.contains(&9) {
        let sig = BASE64_URL_SAFE_NO_PAD.decode(&parts[2]).unwrap();
        parts[2] = match draw(8) {
            0 => String::new(),
            1 => b64([0u8; 64]),
            2 => {
                let s = p256::ecdsa::Signature::from_slice(&sig).unwrap();
                b64(s.to_der())
            }
            3 => {
                let mut s = sig.clone();
                let i = draw(64) as usize;
                s[i] ^= 1 << draw(8);
                b64(s)
            }
            4 => b64([&sig[..], &[0][..]].concat()),
            5 => b64(&sig[..63]),
            6 => format!("{}=", parts[2]),
            _ => "!!!".into(),
        };
    }
    parts.join(".")
}

/// Byte-level damage to a real request object.
fn raw_attack(base: &str) -> String {
    let base = if parse_jws(base).is_ok() || chance(200) {
        base.to_string()
    } else {
        honest_jwt().unwrap_or_else(|| base.to_string())
    };
    let parts: Vec<&str> = base.split('.').collect();
    let k = draw(10);
    event(|| format!("raw attack {k}"));
    match k {
        0 => {
            // Another honest request in its place: a replay or a mix-up.
            honest_jwt().unwrap_or(base)
        }
        1 => {
            let mut b = base.clone().into_bytes();
            if !b.is_empty() {
                let i = draw(b.len() as u32) as usize;
                b[i] = pick(b"ABab01-_.");
            }
            String::from_utf8_lossy(&b).into_owned()
        }
        2 => base.chars().take(draw(base.len().max(1) as u32) as usize).collect(),
        3 => format!("{base}{}", pick(&["\n", " ", "=", ".", ".x", "A", "~"])),
        4 => format!("{}{base}", pick(&["\n", " ", ".", "\"", "\u{feff}"])),
        5 | 6 => {
            // Parts of two honest requests.
            let other = honest_jwt().unwrap_or_default();
            let o: Vec<&str> = other.split('.').collect();
            if o.len() == 3 && parts.len() == 3 {
                let p: Vec<&str> = (0..3).map(|i| if chance(500) { o[i] } else { parts[i] }).collect();
                p.join(".")
            } else {
                other
            }
        }
        7 => format!("{}.{}.", parts.first().unwrap_or(&""), parts.get(1).unwrap_or(&"")),
        8 => {
            // The header in another encoding.
            let h = parts.first().and_then(|h| BASE64_URL_SAFE_NO_PAD.decode(h).ok()).unwrap_or_default();
            format!("{}.{}", BASE64_STANDARD.encode(h), parts.get(1..).unwrap_or(&[]).join("."))
        }
        _ => {
            let h = b64(br#"{"alg":"none","typ":"oauth-authz-req+jwt"}"#);
            format!("{h}.{}.", parts.get(1).unwrap_or(&""))
        }
    }
}

fn swap_case(s: &str) -> String {
    s.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect()
}

fn similar(id: &str) -> String {
    let (prefix, name) = id.split_once(':').unwrap_or(("", id));
    let name = match draw(14) {
        0 => name.to_uppercase(),
        1 => name.to_lowercase(),
        2 => name.chars().take(name.chars().count().saturating_sub(1)).collect(),
        3 => format!("{name}x"),
        4 => format!("sub.{name}"),
        5 => format!("{name}.evil.example"),
        6 => format!("*.{name}"),
        7 => name.split_once('.').map(|x| x.1.to_string()).unwrap_or_default(),
        8 => format!("{name}."),
        9 => format!(" {name}"),
        10 => String::new(),
        11 => format!("{name}#k1"),
        12 => format!("{prefix}:{name}"),
        _ => format!("https://{name}"),
    };
    format!("{prefix}:{name}")
}
fn reprefix(id: &str) -> String {
    let name = id.split_once(':').map(|x| x.1).unwrap_or(id);
    let p = pick(&[
        "x509_san_dns", "x509_hash", "decentralized_identifier", "redirect_uri", "openid_federation",
        "verifier_attestation", "origin", "pre-registered", "x_ext", "X509_SAN_DNS", "x509_san_dns ", "",
        "x509_san_uri", "web-origin", "did",
    ]);
    match draw(6) {
        0 => name.replace(':', "."),
        1 => id.to_string() + ":x",
        _ => format!("{p}:{name}"),
    }
}
fn hash_variant(who: Who) -> String {
    use sha2::{Digest, Sha256};
    let c = match who {
        Who::San(c) | Who::Hash(c) => c,
        Who::Did(_) => 0,
    };
    let d = Sha256::digest(reg().certs[c].der);
    let h = cert_hash(reg().certs[c].der);
    let v = match draw(8) {
        0 => d.iter().map(|b| format!("{b:02x}")).collect(),
        1 => BASE64_STANDARD.encode(d),
        2 => format!("{h}="),
        3 => h[..h.len() - 1].to_string(),
        4 => h.to_lowercase(),
        5 => String::new(),
        6 => h[..8].to_string(),
        _ => cert_hash(reg().certs[draw(EVIL_CERTS.end as u32) as usize].der),
    };
    format!("x509_hash:{v}")
}
fn kid(h: &mut Map<String, Json>, who: Who) {
    let vm = match who {
        Who::Did(d) => reg().dids[d].vm,
        _ => reg().dids[0].vm,
    };
    let did = did_of(vm);
    let v = match draw(14) {
        0 => json!(reg().dids[4].vm),
        1 => json!(reg().dids[draw(reg().dids.len() as u32) as usize].vm),
        2 => json!(did),
        3 => json!(format!("{did}#")),
        4 => json!(format!("{vm}#k1")),
        5 => json!(format!("{did}?x#k1")),
        6 => json!(format!("{}#k1", did.to_uppercase())),
        7 => json!(format!("{did}x#k1")),
        8 => json!(format!(" {vm}")),
        9 => json!("#k1"),
        10 => Json::Null,
        11 => json!([vm]),
        12 => json!(format!("{}#{}", reg().dids[4].vm, did)),
        _ => {
            h.remove("kid");
            return;
        }
    };
    h.insert("kid".into(), v);
}
fn x5c(h: &mut Map<String, Json>, who: Who, key: &mut usize) {
    let c = match who {
        Who::San(c) | Who::Hash(c) => c,
        Who::Did(_) => draw(3) as usize,
    };
    let e = evil_cert();
    if chance(500) {
        *key = reg().certs[e].key;
    }
    let v = match draw(10) {
        0 => json!([der(e), der(c)]),
        1 => json!([der(c), der(e)]),
        2 => json!([der(e)]),
        3 => json!([]),
        4 => der(c),
        5 => json!(["AAAA", der(c)]),
        6 => json!([b64(reg().certs[c].der)]),
        7 => json!([null, der(c)]),
        8 => {
            let mut d = reg().certs[c].der.to_vec();
            d.push(0);
            json!([BASE64_STANDARD.encode(d)])
        }
        _ => {
            h.remove("x5c");
            return;
        }
    };
    h.insert("x5c".into(), v);
}
fn alg(h: &mut Map<String, Json>) {
    let a = pick(&[
        "none", "None", "NONE", "HS256", "ES384", "es256", "ES256 ", "RS256", "EdDSA", "ES256K", "PS256", "", "xnone",
    ]);
    match draw(12) {
        0 => drop(h.remove("alg")),
        1 => drop(h.insert("alg".into(), json!(["ES256"]))),
        _ => drop(h.insert("alg".into(), json!(a))),
    }
}
fn typ(h: &mut Map<String, Json>) {
    match draw(10) {
        0 | 1 => drop(h.remove("typ")),
        2 => drop(h.insert("typ".into(), json!("JWT"))),
        3 => drop(h.insert("typ".into(), json!("OAUTH-AUTHZ-REQ+JWT"))),
        4 => drop(h.insert("typ".into(), json!("application/oauth-authz-req+jwt"))),
        5 => drop(h.insert("typ".into(), json!("oauth-authz-req+jwt "))),
        6 => drop(h.insert("typ".into(), json!("oauth-authz-req"))),
        7 => drop(h.insert("typ".into(), json!(""))),
        8 => drop(h.insert("typ".into(), json!(["oauth-authz-req+jwt"]))),
        _ => drop(h.insert("typ".into(), json!("dc+sd-jwt"))),
    }
}

/// A request URL altered on its way to the wallet.
pub fn attack_url(url: &Url) -> Url {
    fault("attacker_altered_request_url");
    let mut q: Vec<(String, String)> = url.query_pairs().map(|(a, b)| (a.into_owned(), b.into_owned())).collect();
    let by_value = q.iter().position(|x| x.0 == "request");
    let by_ref = q.iter().position(|x| x.0 == "request_uri");
    let mut inner = None;
    if let Some(i) = by_value {
        if chance(850) {
            q[i].1 = attack_jwt(&q[i].1);
        }
        inner = payload_of(&q[i].1).and_then(|p| p.get("client_id").and_then(|c| c.as_str()).map(|s| s.to_string()));
    } else if let Some(i) = by_ref {
        match draw(4) {
            0 => q[i].1 = format!("https://evil.example/r/{}", gen::word().replace('_', "")),
            1 => {
                // Turned into a request by value.
                let j = attack_jwt(&honest_jwt().unwrap_or_default());
                inner = payload_of(&j).and_then(|p| p.get("client_id").and_then(|c| c.as_str()).map(|s| s.to_string()));
                q[i] = ("request".into(), j);
            }
            2 => {
                // Somebody else's reference.
                let other = w(|w| {
                    w.issues
                        .iter()
                        .filter_map(|i| i.url.as_ref())
                        .filter_map(|u| u.query_pairs().find(|x| x.0 == "request_uri").map(|x| x.1.into_owned()))
                        .collect::<Vec<_>>()
                });
                if !other.is_empty() {
                    q[i].1 = pick(&other);
                }
            }
            _ => {}
        }
    }
    let outer = q.iter().position(|x| x.0 == "client_id");
    match weighted(&[5, 2, 2, 2]) {
        0 => {
            if let (Some(o), Some(i)) = (outer, inner) {
                q[o].1 = i;
            }
        }
        1 => {
            if let Some(o) = outer {
                q.remove(o);
            }
        }
        2 => {
            if let Some(o) = outer {
                let same = inner.unwrap_or_else(|| q[o].1.clone());
                q[o].1 = match draw(9) {
                    0 => format!("redirect_uri:{}", q[o].1),
                    6 => format!("{}{same}", pick(&[" ", "\n", "\t", "\u{a0}"])),
                    7 => format!("{same}{}", pick(&[" ", "\n", "\t", "/", ":", "\0", "#", "?", "."])),
                    8 => match draw(3) {
                        0 => same.to_uppercase(),
                        1 => same.to_lowercase(),
                        _ => swap_case(&same),
                    },
                    1 => "redirect_uri:https://evil.example/cb".into(),
                    2 => similar(&q[o].1),
                    3 => reprefix(&q[o].1),
                    4 => any_who().id(),
                    _ => String::new(),
                };
            }
        }
        _ => {}
    }
    let mut u = url.clone();
    u.set_query(None);
    {
        let mut p = u.query_pairs_mut();
        for (k, v) in &q {
            p.append_pair(k, v);
        }
    }
    u
}

/// The attacker under its own name: client identifier, header, key, certificate.
pub fn own_identity() -> (String, Json, usize, Option<usize>) {
    if chance(250) {
        let id = pick(&["redirect_uri:https://evil.example/cb", "x_ext:evil", "evil", "", "verifier_attestation:evil.example"]);
        let h = json!({"alg": pick(&["ES256", "none"]), "typ": "oauth-authz-req+jwt"});
        return (id.into(), h, reg().certs[EVIL_CERTS.start].key, None);
    }
    let who = evil_who();
    let cert = match who {
        Who::Did(_) => None,
        Who::San(c) | Who::Hash(c) => Some(c),
    };
    (who.id(), Json::Object(who.header()), who.key(), cert)
}

/// The attacker's own server.
pub fn evil_server(method: &str) -> Option<(u16, Vec<u8>)> {
    fault("attacker_server_answered");
    if w(|w| w.cfg.stubborn > 0) || w(|w| w.cfg.hostile > 0) && !chance(100) {
        return Some(crate::hostile::answer_to(method));
    }
    if chance(60) {
        return None;
    }
    if method == "GET" {
        let status = if chance(850) { 200 } else { pick(&[201u16, 204, 302, 404, 500]) };
        let body = if chance(900) {
            attack_jwt(&honest_jwt().unwrap_or_default()).into_bytes()
        } else {
            pick(&[&b""[..], b"{}", b"a.b.c", b"..", b"\xff\xfe", b"null"]).to_vec()
        };
        return Some((status, body));
    }
    let status = pick(&[200u16, 200, 200, 201, 204, 299, 300, 302, 400, 404, 500, 199]);
    let body = pick(&[
        &b""[..],
        b"{}",
        b"{\"redirect_uri\":\"https://evil.example/phish\"}",
        b"{\"redirect_uri\":\"https://evil.example/a?b=c#d\"}",
        b"{\"redirect_uri\":\"nonsense\"}",
        b"{\"redirect_uri\":",
        b"plain text",
        b"\xff\xfe",
        b" \n",
    ])
    .to_vec();
    Some((status, body))
}
