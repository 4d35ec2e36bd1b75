//! Generators: texts, JSON, DCQL queries (typed and, independently, as JSON), client metadata.

use crate::core::{chance, draw, pick, weighted};
use openid4vp::core::{
    credential_format::ClaimFormatDesignation,
    dcql_query::*,
    object::TypedParameter,
};
use openid4vp::utils::NonEmptyVec;
use serde_json::{json, Map, Value as Json};

const NASTY: &[&str] = &[
    "", "a", " ", " lead", "trail ", "a b", "a+b", "a%20b", "%41", "%", "100%", "&", "a&b=c", "=", "a=b", "#frag", "?q",
    "a;b", "\"", "\\", "\\u0041", "'", "<x>&amp;", "\n", "line1\r\nline2", "\t", "\u{0}", "\u{1f}", "null", "true", "0",
    "-1", "1e3", "{}", "[]", "{\"a\":1}", "ü", "e\u{301}", "漢字", "🦀", "a\u{202e}b", "\u{feff}bom", "\u{2028}", "ÿ",
    "A", "a/b", "../x", "a:b", ":", "://", "~", "_-.", "sd-jwt~d1~d2~", "eyJhbGciOiJub25lIn0..", "state", "vp_token",
    "response", "redirect_uri:https://x.example", "İ", "ß", "ﬀ", "\u{7f}", "a,b", "a|b", "*", "$", "(x)",
];

/// Any text, short or nasty or long.
pub fn text() -> String {
    match weighted(&[5, 6, 3, 2, 1]) {
        0 => word(),
        1 => pick(NASTY).to_string(),
        2 => format!("{}{}{}", pick(NASTY), word(), pick(NASTY)),
        3 => {
            let n = draw(12);
            (0..n).map(|_| any_char()).collect()
        }
        _ => {
            let n = [22, 23, 24, 25, 255, 256, 257, 1000][draw(8) as usize];
            let c = pick(&["x", "A", "0", "-"]);
            c.repeat(n)
        }
    }
}
/// A text of a length around an encoding boundary, or any text.
pub fn text_len() -> String {
    if chance(700) {
        return text();
    }
    let n = [0usize, 23, 24, 255, 256, 65535, 65536][draw(7) as usize];
    "n".repeat(n)
}
fn any_char() -> char {
    match draw(5) {
        0 => (b'a' + draw(26) as u8) as char,
        1 => (b'!' + draw(94) as u8) as char,
        2 => char::from_u32(draw(0x20)).unwrap(),
        3 => char::from_u32(0xa0 + draw(0x2000)).unwrap_or('x'),
        _ => char::from_u32(0x1f300 + draw(0x200)).unwrap_or('x'),
    }
}
pub fn word() -> String {
    let n = 1 + draw(8);
    (0..n).map(|_| b"abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_-"[draw(44) as usize] as char).collect()
}
pub fn opt<T>(permille: u32, f: impl FnOnce() -> T) -> Option<T> {
    chance(permille).then(f)
}
fn vec1<T>(max: u32, mut f: impl FnMut() -> T) -> Vec<T> {
    (0..1 + draw(max)).map(|_| f()).collect()
}

pub fn scalar() -> Json {
    match draw(9) {
        0 => Json::Null,
        1 => json!(true),
        2 => json!(false),
        3 => json!(pick(&[0i64, 1, -1, 42, 255, 65536, i64::MAX, i64::MIN, 9007199254740993])),
        4 => json!(u64::MAX),
        5 => json!(pick(&[0.5f64, -1.25, 1024.125])),
        _ => Json::String(text()),
    }
}
pub fn value(depth: u32) -> Json {
    if depth == 0 {
        return scalar();
    }
    match weighted(&[5, 2, 3]) {
        0 => scalar(),
        1 => Json::Array((0..draw(4)).map(|_| value(depth - 1)).collect()),
        _ => Json::Object(object(depth - 1)),
    }
}
pub fn object(depth: u32) -> Map<String, Json> {
    (0..draw(4)).map(|_| (if chance(500) { word() } else { text() }, value(depth))).collect()
}

// ---------------------------------------------------------------- DCQL

fn format_name() -> &'static str {
    pick(&["mso_mdoc", "dc+sd-jwt", "jwt_vc_json", "ldp_vc", "x_custom", "MSO_MDOC", "mso-mdoc"])
}
fn nev<T>(v: Vec<T>) -> NonEmptyVec<T> {
    match weighted(&[4, 1, 1]) {
        0 => NonEmptyVec::try_from(v).expect("not empty"),
        1 => NonEmptyVec::maybe_new(v).expect("not empty"),
        _ => {
            let mut v = v.into_iter();
            let mut n = NonEmptyVec::new(v.next().expect("not empty"));
            v.for_each(|t| n.push(t));
            n
        }
    }
}
fn strings(max: u32) -> Vec<String> {
    vec1(max, text)
}

fn claim() -> (DcqlCredentialClaimsQuery, Json) {
    let mut path = vec![];
    let mut jpath = vec![];
    for _ in 0..1 + draw(3) {
        match draw(5) {
            0 => {
                path.push(DcqlCredentialClaimsQueryPath::Null);
                jpath.push(Json::Null)
            }
            1 => {
                let n = pick(&[0usize, 1, 7, 4294967296]);
                path.push(DcqlCredentialClaimsQueryPath::Integer(n));
                jpath.push(json!(n))
            }
            _ => {
                let s = text();
                path.push(DcqlCredentialClaimsQueryPath::String(s.clone()));
                jpath.push(json!(s))
            }
        }
    }
    let way = weighted(&[4, 1, 1]);
    let mut c = match way {
        0 => DcqlCredentialClaimsQuery::new(nev(path)),
        1 => {
            let mut c = DcqlCredentialClaimsQuery::new(NonEmptyVec::new(DcqlCredentialClaimsQueryPath::Null));
            c.set_path(nev(path));
            c
        }
        _ => {
            let mut c = DcqlCredentialClaimsQuery::new(NonEmptyVec::new(DcqlCredentialClaimsQueryPath::Null));
            *c.path_mut() = nev(path);
            c
        }
    };
    let mut j = Map::new();
    j.insert("path".into(), Json::Array(jpath));
    if let Some(id) = opt(400, word) {
        if way == 2 {
            *c.id_mut() = Some(id.clone())
        } else {
            c.set_id(Some(id.clone()))
        }
        j.insert("id".into(), json!(id));
    }
    if chance(400) {
        let mut v = vec![];
        let mut jv = vec![];
        for _ in 0..1 + draw(3) {
            match draw(3) {
                0 => {
                    let s = text();
                    v.push(DcqlCredentialClaimsQueryValue::String(s.clone()));
                    jv.push(json!(s))
                }
                1 => {
                    let n = pick(&[0isize, 1, -5, isize::MAX, isize::MIN]);
                    v.push(DcqlCredentialClaimsQueryValue::Integer(n));
                    jv.push(json!(n))
                }
                _ => {
                    let b = chance(500);
                    v.push(DcqlCredentialClaimsQueryValue::Boolean(b));
                    jv.push(json!(b))
                }
            }
        }
        if way == 2 {
            *c.values_mut() = Some(nev(v))
        } else {
            c.set_values(Some(nev(v)))
        }
        j.insert("values".into(), Json::Array(jv));
    }
    if let Some(b) = opt(300, || chance(500)) {
        if way == 2 {
            *c.intent_to_retain_mut() = Some(b)
        } else {
            c.set_intent_to_retain(Some(b))
        }
        j.insert("intent_to_retain".into(), json!(b));
    }
    (c, Json::Object(j))
}

/// The format of a name, by this harness's own reading.
pub fn designation(name: &str) -> ClaimFormatDesignation {
    match name {
        "jwt_vc_json" => ClaimFormatDesignation::JwtVcJson,
        "ldp_vc" => ClaimFormatDesignation::LdpVc,
        "mso_mdoc" => ClaimFormatDesignation::MsoMDoc,
        "dc+sd-jwt" => ClaimFormatDesignation::DcSdJwt,
        x => ClaimFormatDesignation::Other(x.into()),
    }
}
fn credential(i: usize) -> (DcqlCredentialQuery, Json) {
    let id = format!("{}{i}", pick(&["cred", "c-", "ID_", "0"]));
    let fmt = format_name();
    let f = if chance(500) { ClaimFormatDesignation::from(fmt) } else { designation(fmt) };
    // Made as it should be, or changed into that.
    let way = weighted(&[4, 1, 1]);
    let mut c = if way == 0 { DcqlCredentialQuery::new(id.clone(), f.clone()) } else { DcqlCredentialQuery::new("x".into(), ClaimFormatDesignation::MsoMDoc) };
    match way {
        0 => {}
        1 => {
            c.set_id(id.clone());
            c.set_format(f)
        }
        _ => {
            *c.id_mut() = id.clone();
            *c.format_mut() = f
        }
    }
    let mut j = Map::new();
    j.insert("id".into(), json!(id));
    j.insert("format".into(), json!(fmt));
    let meta = if chance(500) { object(1) } else { Map::new() };
    if way == 2 {
        *c.meta_mut() = meta.clone()
    } else {
        c.set_meta(meta.clone())
    }
    j.insert("meta".into(), Json::Object(meta));
    if chance(600) {
        let cs = vec1(3, claim);
        let (t, js): (Vec<_>, Vec<_>) = cs.into_iter().unzip();
        if way == 2 {
            *c.claims_mut() = Some(nev(t))
        } else {
            c.set_claims(Some(nev(t)))
        }
        j.insert("claims".into(), Json::Array(js));
        if chance(300) {
            let sets = vec1(2, || (0..draw(3)).map(|_| text()).collect::<Vec<_>>());
            if way == 2 {
            *c.claim_sets_mut() = Some(nev(sets.clone()))
        } else {
            c.set_claim_sets(Some(nev(sets.clone())))
        }
            j.insert("claim_sets".into(), json!(sets));
        }
    }
    if chance(250) {
        let mut v = vec![];
        let mut jv = vec![];
        for _ in 0..1 + draw(2) {
            let vals = strings(2);
            let (t, n) = match draw(4) {
                0 => (TrustedAuthorityType::Aki, "aki".to_string()),
                1 => (TrustedAuthorityType::EtsiTl, "etsi_tl".to_string()),
                2 => (TrustedAuthorityType::OpenidFederation, "openid_federation".to_string()),
                _ => {
                    let s = format!("x-{}", text());
                    (TrustedAuthorityType::Other(s.clone()), s)
                }
            };
            v.push(if way == 0 {
                TrustedAuthoritiesQuery::new(t, nev(vals.clone()))
            } else {
                let mut q = TrustedAuthoritiesQuery::new(TrustedAuthorityType::Aki, NonEmptyVec::new("x".into()));
                q.set_authority_type(t);
                if way == 2 {
                    *q.values_mut() = nev(vals.clone())
                } else {
                    q.set_values(nev(vals.clone()))
                }
                q
            });
            jv.push(json!({"type": n, "values": vals}));
        }
        if way == 2 {
            *c.trusted_authorities_mut() = Some(nev(v))
        } else {
            c.set_trusted_authorities(Some(nev(v)))
        }
        j.insert("trusted_authorities".into(), Json::Array(jv));
    }
    if let Some(b) = opt(300, || chance(500)) {
        c.set_require_cryptographic_holder_binding(Some(b));
        j.insert("require_cryptographic_holder_binding".into(), json!(b));
    }
    if let Some(b) = opt(300, || chance(500)) {
        c.set_multiple(Some(b));
        j.insert("multiple".into(), json!(b));
    }
    (c, Json::Object(j))
}

/// A query and, made independently of the library's encoding, the JSON it stands for.
pub fn dcql() -> (DcqlQuery, Json) {
    let n = 1 + draw(3) as usize;
    let (t, js): (Vec<_>, Vec<_>) = (0..n).map(credential).unzip();
    let mut q = match weighted(&[4, 1, 1]) {
        0 => DcqlQuery::new(nev(t)),
        1 => {
            let mut q = DcqlQuery::new(NonEmptyVec::new(credential(9).0));
            q.set_credentials(nev(t));
            q
        }
        _ => {
            let mut q = DcqlQuery::new(NonEmptyVec::new(credential(9).0));
            *q.credentials_mut() = nev(t);
            q
        }
    };
    let mut j = Map::new();
    j.insert("credentials".into(), Json::Array(js));
    if chance(300) {
        let mut v = vec![];
        let mut jv = vec![];
        for _ in 0..1 + draw(2) {
            let options = vec1(2, || (0..1 + draw(2)).map(|_| word()).collect::<Vec<_>>());
            let mut s = DcqlCredentialSetQuery::new(nev(options.clone()));
            match weighted(&[4, 1, 1]) {
                0 => {}
                1 => {
                    s = DcqlCredentialSetQuery::new(NonEmptyVec::new(vec![]));
                    s.set_options(nev(options.clone()))
                }
                _ => {
                    s = DcqlCredentialSetQuery::new(NonEmptyVec::new(vec![]));
                    *s.options_mut() = nev(options.clone())
                }
            }
            let mut sj = Map::new();
            sj.insert("options".into(), json!(options));
            if let Some(b) = opt(500, || chance(500)) {
                if chance(200) {
                    *s.required_mut() = Some(b)
                } else {
                    s.set_required(Some(b))
                }
                sj.insert("required".into(), json!(b));
            }
            v.push(s);
            jv.push(Json::Object(sj));
        }
        if chance(200) {
            *q.credential_sets_mut() = Some(nev(v))
        } else {
            q.set_credential_sets(Some(nev(v)))
        }
        j.insert("credential_sets".into(), Json::Array(jv));
    }
    (q, Json::Object(j))
}

/// The query as its accessors show it.
pub fn dcql_seen(q: &DcqlQuery) -> Json {
    let creds: Vec<Json> = q
        .credentials()
        .iter()
        .map(|c| {
            let mut j = Map::new();
            j.insert("id".into(), json!(c.id()));
            j.insert("format".into(), json!(String::from(c.format().clone())));
            j.insert("meta".into(), Json::Object(c.meta().clone()));
            if let Some(cl) = c.claims() {
                let v: Vec<Json> = cl
                    .iter()
                    .map(|c| {
                        let mut j = Map::new();
                        let p: Vec<Json> = c
                            .path()
                            .iter()
                            .map(|p| match p {
                                DcqlCredentialClaimsQueryPath::Null => Json::Null,
                                DcqlCredentialClaimsQueryPath::Integer(n) => json!(n),
                                DcqlCredentialClaimsQueryPath::String(s) => json!(s),
                            })
                            .collect();
                        j.insert("path".into(), Json::Array(p));
                        let text = |p: Option<&DcqlCredentialClaimsQueryPath>| match p {
                            Some(DcqlCredentialClaimsQueryPath::String(s)) => Some(s.clone()),
                            _ => None,
                        };
                        let name = c.path().iter().filter_map(|p| text(Some(p))).last();
                        if c.namespace().map(String::from) != text(c.path().first())
                            || c.element_identifier().map(String::from) != text(c.path().get(1))
                            || c.claim_name().map(String::from) != name
                        {
                            j.insert("other parts of the path".into(), json!([c.namespace(), c.element_identifier(), c.claim_name()]));
                        }
                        if let Some(i) = c.id() {
                            j.insert("id".into(), json!(i));
                        }
                        if let Some(v) = c.values() {
                            let v: Vec<Json> = v
                                .iter()
                                .map(|v| match v {
                                    DcqlCredentialClaimsQueryValue::String(s) => json!(s),
                                    DcqlCredentialClaimsQueryValue::Integer(n) => json!(n),
                                    DcqlCredentialClaimsQueryValue::Boolean(b) => json!(b),
                                })
                                .collect();
                            j.insert("values".into(), Json::Array(v));
                        }
                        if let Some(b) = c.intent_to_retain() {
                            j.insert("intent_to_retain".into(), json!(b));
                        }
                        Json::Object(j)
                    })
                    .collect();
                j.insert("claims".into(), Json::Array(v));
            }
            if let Some(s) = c.claim_sets() {
                j.insert("claim_sets".into(), json!(s.iter().cloned().collect::<Vec<_>>()));
            }
            if let Some(ta) = c.trusted_authorities() {
                let v: Vec<Json> = ta
                    .iter()
                    .map(|t| {
                        let n = match t.authority_type() {
                            TrustedAuthorityType::Aki => "aki".to_string(),
                            TrustedAuthorityType::EtsiTl => "etsi_tl".to_string(),
                            TrustedAuthorityType::OpenidFederation => "openid_federation".to_string(),
                            TrustedAuthorityType::Other(s) => s.clone(),
                        };
                        json!({"type": n, "values": t.values().iter().cloned().collect::<Vec<_>>()})
                    })
                    .collect();
                j.insert("trusted_authorities".into(), Json::Array(v));
            }
            if let Some(b) = c.require_cryptographic_holder_binding_raw() {
                j.insert("require_cryptographic_holder_binding".into(), json!(b));
            }
            if c.multiple() != c.multiple_raw().unwrap_or(false)
                || c.require_cryptographic_holder_binding() != c.require_cryptographic_holder_binding_raw().unwrap_or(true)
            {
                j.insert("other defaults".into(), json!([c.multiple(), c.require_cryptographic_holder_binding()]));
            }
            if let Some(b) = c.multiple_raw() {
                j.insert("multiple".into(), json!(b));
            }
            Json::Object(j)
        })
        .collect();
    let mut j = Map::new();
    j.insert("credentials".into(), Json::Array(creds));
    if let Some(s) = q.credential_sets() {
        let v: Vec<Json> = s
            .iter()
            .map(|s| {
                let mut j = Map::new();
                j.insert("options".into(), json!(s.options().iter().cloned().collect::<Vec<_>>()));
                if s.is_required() != s.required_raw().unwrap_or(true) {
                    j.insert("other defaults".into(), json!(s.is_required()));
                }
                if let Some(b) = s.required_raw() {
                    j.insert("required".into(), json!(b));
                }
                Json::Object(j)
            })
            .collect();
        j.insert("credential_sets".into(), Json::Array(v));
    }
    Json::Object(j)
}

// ---------------------------------------------------------------- client metadata

fn enc_key() -> Json {
    let mut k = Map::new();
    match weighted(&[if cfg!(feature = "jwe") { 20 } else { 6 }, 2, 1, 1]) {
        0 => {
            k.insert("kty".into(), json!("EC"));
            let usual = cfg!(feature = "jwe") && chance(700);
            k.insert("crv".into(), json!(if usual { "P-256" } else { pick(&["P-256", "P-384"]) }));
            k.insert("x".into(), json!(word()));
            k.insert("y".into(), json!(word()));
            #[cfg(feature = "jwe")]
            if chance(850) {
                crate::seal::real_key(&mut k);
            }
        }
        1 => {
            k.insert("kty".into(), json!("RSA"));
            k.insert("e".into(), json!("AQAB"));
            k.insert("n".into(), json!(word()));
        }
        2 => {
            k.insert("kty".into(), json!("OKP"));
            k.insert("crv".into(), json!("X25519"));
            k.insert("x".into(), json!(word()));
        }
        _ => {
            k.insert("kty".into(), json!("EC"));
            k.insert("crv".into(), json!("P-256"));
            k.insert("x".into(), json!(word()));
        }
    }
    match weighted(&[6, 2, 2]) {
        0 => drop(k.insert("use".into(), json!("enc"))),
        1 => drop(k.insert("use".into(), json!(pick(&["sig", "ENC", "enc2", ""])))),
        _ => {}
    }
    if chance(750) {
        let usual = cfg!(feature = "jwe") && chance(600);
        k.insert("alg".into(), json!(if usual { "ECDH-ES" } else { pick(&ENC_ALGS) }));
    }
    if chance(400) {
        k.insert("kid".into(), json!(text()));
    }
    Json::Object(k)
}
pub const ENC_ALGS: [&str; 5] = ["ECDH-ES", "ECDH-ES+A256KW", "RSA-OAEP", "ECDH", "ecdh-es"];
pub const ENC_ENCS: [&str; 5] = ["A128GCM", "A256GCM", "A128CBC-HS256", "A128", "a128gcm"];

/// Something that is not a list of names.
fn odd_list(v: &[&str]) -> Json {
    match draw(6) {
        0 => json!(v[0]),
        1 => json!({ "enc": v }),
        2 => json!([v[0], 1]),
        3 => json!([null]),
        4 => json!([[v[0]]]),
        _ => json!(true),
    }
}

/// The names in a list; nothing if it is not a list of names.
pub fn names(v: &Json) -> Option<Vec<String>> {
    v.as_array()?.iter().map(|x| x.as_str().map(|s| s.to_string())).collect()
}

pub fn client_metadata(jarm: bool) -> Map<String, Json> {
    let mut m = Map::new();
    if chance(if jarm { 850 } else { 400 }) {
        let n = if chance(60) { 0 } else { 1 + draw(3) };
        let keys: Vec<Json> = (0..n).map(|_| enc_key()).collect();
        m.insert("jwks".into(), json!({ "keys": keys }));
    }
    if chance(400) {
        let v: Vec<&str> = vec1(2, || {
            let usual = cfg!(feature = "jwe") && chance(700);
            pick(if usual { &ENC_ENCS[..3] } else { &ENC_ENCS[..] })
        });
        let v = if chance(60) { odd_list(&v) } else { json!(v) };
        m.insert("encrypted_response_enc_values_supported".into(), v);
    }
    if chance(400) {
        m.insert("vp_formats_supported".into(), crate::meta::formats());
    }
    if chance(300) {
        m.insert(word(), value(1));
    }
    m
}

/// Does the wallet have to agree to an encrypted response? (The reference for C12.)
pub fn jarm_ok(meta: Option<&Json>, algs: Option<&[String]>, encs: Option<&[String]>) -> Result<(), String> {
    let empty = json!({});
    let meta = meta.unwrap_or(&empty);
    let keys = meta
        .get("jwks")
        .and_then(|j| j.get("keys"))
        .and_then(|k| k.as_array())
        .ok_or("no jwks in client_metadata")?;
    let offered: Vec<&str> = keys
        .iter()
        .filter(|k| k.get("use").and_then(|u| u.as_str()) == Some("enc"))
        .filter_map(|k| k.get("alg").and_then(|a| a.as_str()))
        .collect();
    if offered.is_empty() {
        return Err("no encryption key with an algorithm".into());
    }
    if let Some(a) = algs {
        if !offered.iter().any(|o| a.iter().any(|x| x == o)) {
            return Err("no common encryption algorithm".into());
        }
    }
    let def = json!(["A128GCM"]);
    let enc = meta.get("encrypted_response_enc_values_supported").unwrap_or(&def);
    let enc = names(enc).ok_or("content encryption algorithms that cannot be read")?;
    if let Some(e) = encs {
        if !enc.iter().any(|o| e.iter().any(|x| x == o)) {
            return Err("no common content encryption algorithm".into());
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- request parameters

/// A parameter with any JSON value under one of these names.
pub const KEYS: [&str; 16] = [
    "response_type", "response_mode", "nonce", "state", "client_metadata", "aud", "expected_origins",
    "transaction_data", "verifier_info", "redirect_uri", "response_uri", "client_id", "x_custom", "scope",
    "request_uri_method", "dcql_query",
];
#[derive(Debug, Clone)]
pub struct P<const N: usize>(pub Json);
impl<const N: usize> TypedParameter for P<N> {
    const KEY: &'static str = KEYS[N];
}
impl<const N: usize> TryFrom<Json> for P<N> {
    type Error = anyhow::Error;
    fn try_from(v: Json) -> anyhow::Result<Self> {
        Ok(P(v))
    }
}
impl<const N: usize> From<P<N>> for Json {
    fn from(p: P<N>) -> Json {
        p.0
    }
}
#[macro_export]
macro_rules! insert_param {
    ($b:expr, $meth:ident, $key:expr, $val:expr) => {{
        use $crate::gen::P;
        let v: serde_json::Value = $val;
        match $crate::gen::KEYS.iter().position(|k| *k == $key).unwrap() {
            0 => $b.$meth(P::<0>(v)),
            1 => $b.$meth(P::<1>(v)),
            2 => $b.$meth(P::<2>(v)),
            3 => $b.$meth(P::<3>(v)),
            4 => $b.$meth(P::<4>(v)),
            5 => $b.$meth(P::<5>(v)),
            6 => $b.$meth(P::<6>(v)),
            7 => $b.$meth(P::<7>(v)),
            8 => $b.$meth(P::<8>(v)),
            9 => $b.$meth(P::<9>(v)),
            10 => $b.$meth(P::<10>(v)),
            11 => $b.$meth(P::<11>(v)),
            12 => $b.$meth(P::<12>(v)),
            13 => $b.$meth(P::<13>(v)),
            14 => $b.$meth(P::<14>(v)),
            _ => $b.$meth(P::<15>(v)),
        }
    }};
}
