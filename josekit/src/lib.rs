//! A stand-in for josekit (a git dependency that cannot be fetched here), for src/core/jwe.rs.
//!
//! Headers, keys and payloads follow josekit's rules as far as jwe.rs can notice. The key
//! agreement is ECDH on P-256; the content is "encrypted" with a SHA-256 keystream and a hash as
//! tag, whatever `enc` says. The ephemeral key follows from the content, so that one simulated
//! execution always gives the same bytes. This is no cryptography to be used anywhere else.

use base64::prelude::*;
use serde_json::{Map, Value};
use std::fmt;

#[derive(Debug)]
pub enum JoseError {
    InvalidJwkFormat(String),
    InvalidKeyFormat(String),
    InvalidJson(String),
    InvalidJwtFormat(String),
    InvalidJweFormat(String),
    UnsupportedContentEncryption(String),
}
impl fmt::Display for JoseError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for JoseError {}

type Res<T> = Result<T, JoseError>;

fn b64(b: impl AsRef<[u8]>) -> String {
    BASE64_URL_SAFE_NO_PAD.encode(b)
}
fn unb64(s: &str) -> Option<Vec<u8>> {
    BASE64_URL_SAFE_NO_PAD.decode(s).ok()
}

pub mod jwk {
    use super::*;

    #[derive(Debug, Clone, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
    #[serde(try_from = "Map<String, Value>", into = "Map<String, Value>")]
    pub struct Jwk {
        map: Map<String, Value>,
    }
    impl TryFrom<Map<String, Value>> for Jwk {
        type Error = JoseError;
        fn try_from(map: Map<String, Value>) -> Res<Self> {
            Self::from_map(map)
        }
    }
    impl From<Jwk> for Map<String, Value> {
        fn from(j: Jwk) -> Self {
            j.map
        }
    }
    impl AsRef<Map<String, Value>> for Jwk {
        fn as_ref(&self) -> &Map<String, Value> {
            &self.map
        }
    }
    impl Jwk {
        pub fn new(key_type: &str) -> Self {
            let mut map = Map::new();
            map.insert("kty".into(), Value::String(key_type.into()));
            Self { map }
        }
        pub fn from_map(map: impl Into<Map<String, Value>>) -> Res<Self> {
            let map = map.into();
            if !map.get("kty").map(|v| v.is_string()).unwrap_or(false) {
                return Err(JoseError::InvalidJwkFormat("kty is missing or no string".into()));
            }
            for k in ["use", "alg", "kid", "x5u", "x5t", "x5t#S256", "crv"] {
                if map.get(k).map(|v| !v.is_string()).unwrap_or(false) {
                    return Err(JoseError::InvalidJwkFormat(format!("{k} is no string")));
                }
            }
            for k in ["key_ops", "x5c"] {
                let bad = |v: &Value| !v.as_array().map(|a| a.iter().all(|x| x.is_string())).unwrap_or(false);
                if map.get(k).map(bad).unwrap_or(false) {
                    return Err(JoseError::InvalidJwkFormat(format!("{k} is no list of strings")));
                }
            }
            Ok(Self { map })
        }
        pub fn from_bytes(input: impl AsRef<[u8]>) -> Res<Self> {
            let map: Map<String, Value> =
                serde_json::from_slice(input.as_ref()).map_err(|e| JoseError::InvalidJwkFormat(e.to_string()))?;
            Self::from_map(map)
        }
        pub fn from_reader(input: &mut dyn std::io::Read) -> Res<Self> {
            let map: Map<String, Value> =
                serde_json::from_reader(input).map_err(|e| JoseError::InvalidJwkFormat(e.to_string()))?;
            Self::from_map(map)
        }
        fn s(&self, k: &str) -> Option<&str> {
            self.map.get(k).and_then(|v| v.as_str())
        }
        pub fn key_type(&self) -> &str {
            self.s("kty").unwrap_or_default()
        }
        pub fn key_use(&self) -> Option<&str> {
            self.s("use")
        }
        pub fn algorithm(&self) -> Option<&str> {
            self.s("alg")
        }
        pub fn key_id(&self) -> Option<&str> {
            self.s("kid")
        }
        pub fn curve(&self) -> Option<&str> {
            self.s("crv")
        }
        pub fn key_operations(&self) -> Option<Vec<&str>> {
            self.map.get("key_ops")?.as_array()?.iter().map(|v| v.as_str()).collect()
        }
        pub fn set_key_use(&mut self, v: impl Into<String>) {
            self.map.insert("use".into(), Value::String(v.into()));
        }
        pub fn set_algorithm(&mut self, v: impl Into<String>) {
            self.map.insert("alg".into(), Value::String(v.into()));
        }
        pub fn set_key_id(&mut self, v: impl Into<String>) {
            self.map.insert("kid".into(), Value::String(v.into()));
        }
        pub fn set_curve(&mut self, v: impl Into<String>) {
            self.map.insert("crv".into(), Value::String(v.into()));
        }
        pub fn set_parameter(&mut self, k: &str, v: Option<Value>) -> Res<()> {
            match v {
                Some(v) => drop(self.map.insert(k.into(), v)),
                None => drop(self.map.remove(k)),
            }
            Ok(())
        }
        pub fn parameter(&self, k: &str) -> Option<&Value> {
            self.map.get(k)
        }
    }
    impl fmt::Display for Jwk {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            write!(f, "{}", Value::Object(self.map.clone()))
        }
    }
}

pub mod jwe {
    use super::*;

    #[derive(Debug, Clone, Default, PartialEq, Eq)]
    pub struct JweHeader {
        pub(crate) claims: Map<String, Value>,
    }
    macro_rules! text {
        ($($set:ident $get:ident $key:literal;)*) => {$(
            pub fn $set(&mut self, value: impl Into<String>) {
                self.claims.insert($key.into(), Value::String(value.into()));
            }
            pub fn $get(&self) -> Option<&str> {
                self.claims.get($key).and_then(|v| v.as_str())
            }
        )*};
    }
    impl JweHeader {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn from_bytes(b: &[u8]) -> Res<Self> {
            Ok(Self { claims: serde_json::from_slice(b).map_err(|e| JoseError::InvalidJweFormat(e.to_string()))? })
        }
        text! {
            set_token_type token_type "typ";
            set_algorithm algorithm "alg";
            set_content_encryption content_encryption "enc";
            set_content_type content_type "cty";
            set_key_id key_id "kid";
            set_compression compression "zip";
            set_url url "url";
        }
        fn set_b64(&mut self, k: &str, v: impl AsRef<[u8]>) {
            self.claims.insert(k.into(), Value::String(b64(v)));
        }
        pub fn set_agreement_partyuinfo(&mut self, v: impl AsRef<[u8]>) {
            self.set_b64("apu", v)
        }
        pub fn set_agreement_partyvinfo(&mut self, v: impl AsRef<[u8]>) {
            self.set_b64("apv", v)
        }
        pub fn set_nonce(&mut self, v: impl AsRef<[u8]>) {
            self.set_b64("nonce", v)
        }
        pub fn set_claim(&mut self, k: &str, v: Option<Value>) -> Res<()> {
            match v {
                Some(v) => drop(self.claims.insert(k.into(), v)),
                None => drop(self.claims.remove(k)),
            }
            Ok(())
        }
        pub fn claim(&self, k: &str) -> Option<&Value> {
            self.claims.get(k)
        }
        pub fn claims_set(&self) -> &Map<String, Value> {
            &self.claims
        }
    }

    pub trait JweEncrypter {
        fn algorithm_name(&self) -> &'static str;
        fn key_id(&self) -> Option<&str>;
        fn recipient(&self) -> &p256::PublicKey;
    }

    pub mod alg {
        pub mod ecdh_es {
            use crate::{jwe::JweEncrypter, jwk::Jwk, unb64, JoseError, Res};
            use std::marker::PhantomData;

            #[derive(Debug, Clone, Copy, PartialEq, Eq)]
            pub enum EcdhEsJweAlgorithm {
                EcdhEs,
            }
            #[derive(Debug, Clone)]
            pub struct EcdhEsJweEncrypter<C = p256::NistP256> {
                key: p256::PublicKey,
                key_id: Option<String>,
                curve: PhantomData<C>,
            }
            impl EcdhEsJweAlgorithm {
                pub fn name(&self) -> &'static str {
                    "ECDH-ES"
                }
                pub fn encrypter_from_jwk<C>(&self, jwk: &Jwk) -> Res<EcdhEsJweEncrypter<C>> {
                    let bad = |m: &str| Err(JoseError::InvalidKeyFormat(m.to_string()));
                    if jwk.key_type() != "EC" || jwk.curve() != Some("P-256") {
                        return bad("no P-256 key");
                    }
                    if !matches!(jwk.key_use(), None | Some("enc")) {
                        return bad("not for encryption");
                    }
                    if !matches!(jwk.algorithm(), None | Some("ECDH-ES")) {
                        return bad("for another algorithm");
                    }
                    let part = |k: &str| jwk.parameter(k).and_then(|v| v.as_str()).and_then(unb64).filter(|b| b.len() == 32);
                    let (Some(x), Some(y)) = (part("x"), part("y")) else { return bad("no point") };
                    let point = [&[4][..], &x, &y].concat();
                    let Ok(key) = p256::PublicKey::from_sec1_bytes(&point) else { return bad("not on the curve") };
                    Ok(EcdhEsJweEncrypter { key, key_id: jwk.key_id().map(|s| s.to_string()), curve: PhantomData })
                }
            }
            impl<C> EcdhEsJweEncrypter<C> {
                pub fn set_key_id(&mut self, v: impl Into<String>) {
                    self.key_id = Some(v.into());
                }
                pub fn remove_key_id(&mut self) {
                    self.key_id = None;
                }
            }
            impl<C> JweEncrypter for EcdhEsJweEncrypter<C> {
                fn algorithm_name(&self) -> &'static str {
                    "ECDH-ES"
                }
                fn key_id(&self) -> Option<&str> {
                    self.key_id.as_deref()
                }
                fn recipient(&self) -> &p256::PublicKey {
                    &self.key
                }
            }
        }
    }
    pub const ECDH_ES: alg::ecdh_es::EcdhEsJweAlgorithm = alg::ecdh_es::EcdhEsJweAlgorithm::EcdhEs;

    pub fn serialize_compact(payload: &[u8], header: &JweHeader, encrypter: &dyn JweEncrypter) -> Res<String> {
        toy::seal(payload, header, encrypter)
    }

    /// The stand-in's cipher.
    pub mod toy {
        use super::*;
        use p256::{
            elliptic_curve::{point::AffineCoordinates, sec1::ToEncodedPoint, ops::Reduce},
            NonZeroScalar, PublicKey, Scalar,
        };
        use sha2::{Digest, Sha256};

        const ENCS: [&str; 6] = ["A128CBC-HS256", "A192CBC-HS384", "A256CBC-HS512", "A128GCM", "A192GCM", "A256GCM"];

        fn agree(d: &Scalar, q: &PublicKey) -> [u8; 32] {
            (q.to_projective() * d).to_affine().x().into()
        }
        fn stream(z: &[u8], header: &str, data: &[u8]) -> Vec<u8> {
            data.chunks(32)
                .enumerate()
                .flat_map(|(i, c)| {
                    let k = Sha256::new().chain_update(z).chain_update(header).chain_update((i as u64).to_be_bytes()).finalize();
                    c.iter().zip(k).map(|(a, b)| a ^ b).collect::<Vec<u8>>()
                })
                .collect()
        }
        fn tag(z: &[u8], header: &str, cipher: &[u8]) -> [u8; 32] {
            Sha256::new().chain_update(b"tag").chain_update(z).chain_update(header).chain_update(cipher).finalize().into()
        }
        pub(crate) fn seal(payload: &[u8], header: &JweHeader, encrypter: &dyn JweEncrypter) -> Res<String> {
            let enc = header.content_encryption().unwrap_or_default();
            if !ENCS.contains(&enc) {
                return Err(JoseError::UnsupportedContentEncryption(enc.into()));
            }
            if header.algorithm().is_some_and(|a| a != encrypter.algorithm_name()) {
                return Err(JoseError::InvalidJweFormat("another algorithm".into()));
            }
            let q = encrypter.recipient();
            let seed = Sha256::new().chain_update(q.to_sec1_bytes()).chain_update(payload).finalize();
            let d = <Scalar as Reduce<p256::U256>>::reduce_bytes(&seed);
            let d = Option::<NonZeroScalar>::from(NonZeroScalar::new(d)).ok_or(JoseError::InvalidJweFormat("zero".into()))?;
            let e = PublicKey::from_secret_scalar(&d).to_encoded_point(false);
            let mut h = header.clone();
            h.set_algorithm(encrypter.algorithm_name());
            let epk = serde_json::json!({"kty": "EC", "crv": "P-256", "x": b64(e.x().unwrap()), "y": b64(e.y().unwrap())});
            h.claims.insert("epk".into(), epk);
            let h = b64(Value::Object(h.claims).to_string());
            let z = agree(&d, q);
            let cipher = stream(&z, &h, payload);
            let t = tag(&z, &h, &cipher);
            Ok(format!("{h}..{}.{}.{}", b64(&seed[..12]), b64(&cipher), b64(&t[..16])))
        }
        /// Header and content of a message, if it was sealed for this key.
        pub fn open(message: &str, d: &NonZeroScalar) -> Option<(Map<String, Value>, Vec<u8>)> {
            let p: Vec<&str> = message.split('.').collect();
            let [h, "", _, c, t] = p[..] else { return None };
            let header: Map<String, Value> = serde_json::from_slice(&unb64(h)?).ok()?;
            let epk = header.get("epk")?;
            let part = |k: &str| epk.get(k).and_then(|v| v.as_str()).and_then(unb64);
            let e = PublicKey::from_sec1_bytes(&[&[4][..], &part("x")?, &part("y")?].concat()).ok()?;
            let z = agree(d, &e);
            let cipher = unb64(c)?;
            if unb64(t)? != tag(&z, h, &cipher)[..16] {
                return None;
            }
            Some((header, stream(&z, h, &cipher)))
        }
    }
}

pub mod jwt {
    use super::*;

    #[derive(Debug, Clone, Default, PartialEq, Eq)]
    pub struct JwtPayload {
        claims: Map<String, Value>,
    }
    impl JwtPayload {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn from_map(claims: impl Into<Map<String, Value>>) -> Res<Self> {
            let claims = claims.into();
            for (k, v) in &claims {
                Self::check(k, v)?;
            }
            Ok(Self { claims })
        }
        fn check(k: &str, v: &Value) -> Res<()> {
            let fine = match k {
                "iss" | "sub" | "jti" => v.is_string(),
                "aud" => v.is_string() || v.as_array().map(|a| a.iter().all(|x| x.is_string())).unwrap_or(false),
                "exp" | "nbf" | "iat" => v.is_number(),
                _ => true,
            };
            if fine {
                Ok(())
            } else {
                Err(JoseError::InvalidJwtFormat(format!("{k} has another type")))
            }
        }
        pub fn set_claim(&mut self, k: &str, v: Option<Value>) -> Res<()> {
            match v {
                Some(v) => {
                    Self::check(k, &v)?;
                    self.claims.insert(k.into(), v);
                }
                None => drop(self.claims.remove(k)),
            }
            Ok(())
        }
        pub fn claim(&self, k: &str) -> Option<&Value> {
            self.claims.get(k)
        }
        pub fn claims_set(&self) -> &Map<String, Value> {
            &self.claims
        }
    }
    pub fn encode_with_encrypter(p: &JwtPayload, h: &jwe::JweHeader, e: &dyn jwe::JweEncrypter) -> Res<String> {
        jwe::serialize_compact(Value::Object(p.claims.clone()).to_string().as_bytes(), h, e)
    }
}
