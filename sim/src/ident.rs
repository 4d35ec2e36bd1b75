//! Keys, certificates and identities of the simulated parties, and an independent reference
//! for what makes a request object authentic.

use base64::prelude::*;
use p256::ecdsa::{signature::Signer, signature::Verifier as _, Signature, SigningKey, VerifyingKey};
use serde_json::{Map, Value as Json};
use sha2::{Digest, Sha256};
use ssi_jwk::JWK;
use std::sync::OnceLock;
use x509_cert::{der::{Decode, Encode}, ext::pkix::name::GeneralName, ext::pkix::SubjectAltName, Certificate};

macro_rules! key {
    ($n:literal) => {
        include_str!(concat!("../fixtures/", $n, ".key"))
    };
}
macro_rules! cert {
    ($n:literal) => {
        (include_bytes!(concat!("../fixtures/", $n, ".der")) as &[u8], key!($n))
    };
}

pub struct Cert {
    pub der: &'static [u8],
    pub cert: Certificate,
    pub key: usize,
}
pub struct DidVm {
    pub vm: &'static str,
    pub key: usize,
}
pub struct Reg {
    pub keys: Vec<SigningKey>,
    pub jwks: Vec<JWK>,
    pub certs: Vec<Cert>,
    pub dids: Vec<DidVm>,
    pub custom_key: usize,
}

/// Certificates: the first `HONEST_CERTS` belong to honest verifiers, the rest to the attacker.
pub const HONEST_CERTS: usize = 6;
pub const EVIL_CERTS: std::ops::Range<usize> = 6..17;
/// DIDs: 0..3 honest primary methods, 3 a second method of the first DID, then the attacker's.
pub const HONEST_DIDS: usize = 3;
pub const EVIL_DIDS: std::ops::Range<usize> = 4..10;

const SAN: x509_cert::der::asn1::ObjectIdentifier = x509_cert::der::asn1::ObjectIdentifier::new_unwrap("2.5.29.17");
pub fn reg() -> &'static Reg {
    static R: OnceLock<Reg> = OnceLock::new();
    R.get_or_init(|| {
        let mut r = Reg { keys: vec![], jwks: vec![], certs: vec![], dids: vec![], custom_key: 0 };
        let add = |r: &mut Reg, hex: &str| {
            let b: Vec<u8> =
                (0..32).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
            let k = SigningKey::from_slice(&b).unwrap();
            let pk: p256::PublicKey = k.verifying_key().into();
            r.jwks.push(serde_json::from_str(&pk.to_jwk_string()).unwrap());
            r.keys.push(k);
            r.keys.len() - 1
        };
        for (der, key) in [
            cert!("verifier"), cert!("bank"), cert!("city"), cert!("clinic"), cert!("uni"), cert!("shop"),
            cert!("evil"), cert!("eviluri"), cert!("evilwild"), cert!("evilsuffix"), cert!("evilcase"),
            cert!("evilcn"), cert!("evilnosan"), cert!("evilsub"), cert!("evilshort"), cert!("evillong"), cert!("evilwild2"),
            cert!("nosan"), cert!("urisan"),
        ] {
            let key = add(&mut r, key);
            r.certs.push(Cert { der, cert: Certificate::from_der(der).unwrap(), key });
        }
        // With names that cannot be read, alone or beside good ones, and with names in two places.
        for (base, names) in [(17, &[None][..]), (0, &[None, Some(0)]), (1, &[Some(1), Some(2)]), (2, &[Some(18), Some(2), None]), (17, &[Some(18)])] {
            let mut cert = r.certs[base].cert.clone();
            let of = |i: usize| r.certs[i].cert.tbs_certificate.extensions.iter().flatten().find(|e| e.extn_id == SAN).unwrap().clone();
            let e = cert.tbs_certificate.extensions.get_or_insert_with(Vec::new);
            e.retain(|e| e.extn_id != SAN);
            for n in names {
                let mut x = of(n.unwrap_or(0));
                if n.is_none() {
                    x.extn_value = x509_cert::der::asn1::OctetString::new([0x30, 5, 0x82, 9, b'a', b'b', b'c']).unwrap();
                }
                e.push(x);
            }
            let der: &'static [u8] = Box::leak(cert.to_der().unwrap().into_boxed_slice());
            let key = r.certs[base].key;
            r.certs.push(Cert { der, cert, key });
        }
        for (vm, key) in [
            ("did:sim:alpha#k1", key!("did0")),
            ("did:sim:alphabet#k1", key!("did1")),
            ("did:web:verifier.example#key-1", key!("did2")),
            ("did:sim:alpha#k2", key!("did5")),
            ("did:sim:evil#k1", key!("did3")),
            ("did:sim:alph#k1", key!("did4")),
            ("did:sim:alpha.evil#k1", key!("did6")),
            ("did:sim:ALPHA#k1", key!("did7")),
            ("did:web:verifier.example:evil#key-1", key!("did8")),
            ("did:web:evil.example#did:sim:alpha#k1", key!("did9")),
        ] {
            let key = add(&mut r, key);
            r.dids.push(DidVm { vm, key });
        }
        r.custom_key = add(&mut r, key!("custom"));
        r
    })
}

pub fn b64(b: impl AsRef<[u8]>) -> String {
    BASE64_URL_SAFE_NO_PAD.encode(b)
}
pub fn cert_hash(der: &[u8]) -> String {
    b64(Sha256::digest(der))
}
pub fn sign(key: usize, payload: &[u8]) -> Vec<u8> {
    let s: Signature = reg().keys[key].sign(payload);
    s.to_vec()
}
/// The same with a nonce of its own: like a hardware signer, never the same signature twice.
pub fn sign_fresh(key: usize, payload: &[u8], ad: u32) -> Vec<u8> {
    use ecdsa::hazmat::SignPrimitive;
    let z = Sha256::digest(payload);
    let (s, _) = reg().keys[key]
        .as_nonzero_scalar()
        .try_sign_prehashed_rfc6979::<Sha256>(&z, &ad.to_be_bytes())
        .unwrap();
    s.to_vec()
}
pub fn forge_raw(header: &[u8], payload: &[u8], key: usize) -> String {
    let si = format!("{}.{}", b64(header), b64(payload));
    let sig = sign(key, si.as_bytes());
    format!("{si}.{}", b64(sig))
}
/// First DNS name of a certificate, by this harness's own reading of it.
pub fn dns_names(c: &Certificate) -> Vec<String> {
    c.tbs_certificate
        .filter::<SubjectAltName>()
        .filter_map(|r| r.ok())
        .flat_map(|(_, s)| s.0)
        .filter_map(|g| match g {
            GeneralName::DnsName(d) => Some(d.as_str().to_string()),
            _ => None,
        })
        .collect()
}
fn cert_key(c: &Certificate) -> Option<VerifyingKey> {
    VerifyingKey::from_sec1_bytes(c.tbs_certificate.subject_public_key_info.subject_public_key.raw_bytes()).ok()
}

pub struct Jws {
    pub header: Map<String, Json>,
    pub payload: Json,
    pub signing_input: String,
    pub sig: Vec<u8>,
}
/// Strict compact JWS.
pub fn parse_jws(jwt: &str) -> Result<Jws, String> {
    let parts: Vec<&str> = jwt.split('.').collect();
    if parts.len() != 3 {
        return Err("not three parts".into());
    }
    let d = |s: &str, n: &str| BASE64_URL_SAFE_NO_PAD.decode(s).map_err(|_| format!("{n} not base64url"));
    let header: Map<String, Json> =
        serde_json::from_slice(&d(parts[0], "header")?).map_err(|_| "header not a JSON object".to_string())?;
    let payload: Json =
        serde_json::from_slice(&d(parts[1], "payload")?).map_err(|_| "payload not JSON".to_string())?;
    Ok(Jws {
        header,
        payload,
        signing_input: format!("{}.{}", parts[0], parts[1]),
        sig: d(parts[2], "signature")?,
    })
}
pub fn verify_with(vk: &VerifyingKey, j: &Jws) -> bool {
    Signature::from_slice(&j.sig).map(|s| vk.verify(j.signing_input.as_bytes(), &s).is_ok()).unwrap_or(false)
}
pub fn verify_key(key: usize, j: &Jws) -> bool {
    verify_with(reg().keys[key].verifying_key(), j)
}

/// What the wallet's environment answered while it validated.
pub struct AuthEnv<'a> {
    pub algs: &'a [String],
    pub trusted: Option<&'a [String]>,
    /// (verification method asked for, key index answered)
    pub resolved: &'a [(String, Option<usize>)],
}

/// The reference for C06: is this request object authentic for the client_id it carries?
pub fn authentic(prefix: &str, jwt: &str, env: &AuthEnv) -> Result<(), String> {
    let j = parse_jws(jwt)?;
    let client_id = j.payload.get("client_id").and_then(|v| v.as_str()).ok_or("no client_id")?;
    let named = client_id.strip_prefix(&format!("{prefix}:")).ok_or("client_id without the prefix")?;
    let alg = j.header.get("alg").and_then(|v| v.as_str()).ok_or("no alg")?;
    if !env.algs.iter().any(|a| a == alg) {
        return Err(format!("algorithm {alg} is not supported by the wallet"));
    }
    if prefix == "decentralized_identifier" {
        if alg == "none" {
            return Ok(()); // the wallet lists none: unsigned requests are let through by design
        }
        let kid = j.header.get("kid").and_then(|v| v.as_str()).ok_or("no kid")?;
        let (did, _) = kid.split_once('#').ok_or("kid is not a verification method")?;
        if did != named {
            return Err(format!("kid is of {did}, client_id names {named}"));
        }
        if let Some(t) = env.trusted {
            if !t.iter().any(|x| x == did) {
                return Err(format!("{did} is not trusted"));
            }
        }
        if alg != "ES256" {
            return Err(format!("algorithm {alg} with a P-256 key"));
        }
        if env.resolved.iter().any(|(k, a)| k == kid && a.map(|a| verify_key(a, &j)).unwrap_or(false)) {
            return Ok(());
        }
        return Err("signature does not verify with a key the resolver returned for the kid".into());
    }
    if alg != "ES256" {
        return Err(format!("algorithm {alg} with a P-256 key"));
    }
    let first = j
        .header
        .get("x5c")
        .and_then(|v| v.as_array())
        .and_then(|a| a.first())
        .and_then(|v| v.as_str())
        .ok_or("no x5c")?;
    let der = BASE64_STANDARD_NO_PAD.decode(first.trim_end_matches('=')).map_err(|_| "x5c[0] not base64")?;
    let cert = Certificate::from_der(&der).map_err(|_| "x5c[0] not a certificate")?;
    match prefix {
        "x509_san_dns" => {
            if !dns_names(&cert).iter().any(|d| d == named) {
                return Err(format!("certificate names {:?}, client_id names {named}", dns_names(&cert)));
            }
        }
        "x509_hash" => {
            if cert_hash(&der) != named {
                return Err("certificate hash differs from client_id".into());
            }
        }
        _ => unreachable!(),
    }
    let vk = cert_key(&cert).ok_or("certificate key unusable")?;
    if verify_with(&vk, &j) {
        Ok(())
    } else {
        Err("signature does not verify with the first certificate's key".into())
    }
}

// ------------------------------------------------- reference encodings for C14

fn cbor_head(out: &mut Vec<u8>, major: u8, n: u64) {
    let m = major << 5;
    match n {
        0..=23 => out.push(m | n as u8),
        24..=0xff => out.extend([m | 24, n as u8]),
        0x100..=0xffff => {
            out.push(m | 25);
            out.extend((n as u16).to_be_bytes())
        }
        _ => {
            out.push(m | 26);
            out.extend((n as u32).to_be_bytes())
        }
    }
}
fn cbor_text(out: &mut Vec<u8>, s: &str) {
    cbor_head(out, 3, s.len() as u64);
    out.extend(s.as_bytes());
}
fn cbor_bytes(out: &mut Vec<u8>, b: &[u8]) {
    cbor_head(out, 2, b.len() as u64);
    out.extend(b);
}
fn handover_info(texts_before: &[&str], thumb: Option<&[u8]>, after: Option<&str>) -> Vec<u8> {
    let mut o = vec![];
    cbor_head(&mut o, 4, (texts_before.len() + 1 + after.iter().count()) as u64);
    for t in texts_before {
        cbor_text(&mut o, t);
    }
    match thumb {
        Some(t) => cbor_bytes(&mut o, t),
        None => o.push(0xf6),
    }
    if let Some(a) = after {
        cbor_text(&mut o, a)
    }
    o
}
fn transcript(kind: &str, info: &[u8]) -> Vec<u8> {
    let mut o = vec![0x83, 0xf6, 0xf6, 0x82];
    cbor_text(&mut o, kind);
    cbor_bytes(&mut o, &Sha256::digest(info));
    o
}
pub fn ref_transcript(client_id: &str, nonce: &str, thumb: Option<&[u8]>, uri: &str) -> Vec<u8> {
    transcript("OpenID4VPHandover", &handover_info(&[client_id, nonce], thumb, Some(uri)))
}
pub fn ref_transcript_dcapi(origin: &str, nonce: &str, thumb: Option<&[u8]>) -> Vec<u8> {
    transcript("OpenID4VPDCAPIHandover", &handover_info(&[origin, nonce], thumb, None))
}
/// RFC 7638 thumbprint of the first key that may be used for encryption and has one.
pub fn ref_thumb(client_metadata: Option<&Json>) -> Option<[u8; 32]> {
    let keys = client_metadata?.get("jwks")?.get("keys")?.as_array()?;
    for k in keys {
        if k.get("use").and_then(|v| v.as_str()).map(|u| u != "enc").unwrap_or(false) {
            continue;
        }
        let s = |n: &str| k.get(n).and_then(|v| v.as_str());
        let members: &[&str] = match s("kty") {
            Some("EC") => &["crv", "kty", "x", "y"],
            Some("RSA") => &["e", "kty", "n"],
            _ => continue,
        };
        if members.iter().any(|m| s(m).is_none()) {
            continue;
        }
        let body: Vec<String> = members.iter().map(|m| format!("\"{m}\":\"{}\"", s(m).unwrap())).collect();
        return Some(Sha256::digest(format!("{{{}}}", body.join(","))).into());
    }
    None
}
