// Shared by the demonstrations: parties, a programmable HTTP client and a session store with faults.
#![allow(dead_code, unused_imports)]
use std::borrow::Cow;
use std::collections::{BTreeMap, VecDeque};
use std::sync::{Arc, Mutex};

use anyhow::{anyhow, bail, Result};
use async_trait::async_trait;
use base64::prelude::*;
use http::{Request, Response};
use openid4vp::core::authorization_request::parameters::*;
use openid4vp::core::authorization_request::verification::verifier::P256Verifier;
use openid4vp::core::authorization_request::verification::{did, x509_hash, x509_san, RequestVerifier};
use openid4vp::core::authorization_request::{
    AuthorizationRequest, AuthorizationRequestObject, RequestIndirection,
};
use openid4vp::core::credential_format::ClaimFormatDesignation;
use openid4vp::core::dcql_query::{DcqlCredentialQuery, DcqlQuery};
use openid4vp::core::metadata::WalletMetadata;
use openid4vp::core::object::{TypedParameter, UntypedObject};
use openid4vp::core::response::parameters::{VpToken, VpTokenItem};
use openid4vp::core::response::{
    AuthorizationResponse, JwtAuthorizationResponse, UnencodedAuthorizationResponse,
};
use openid4vp::core::util::AsyncHttpClient;
use openid4vp::utils::NonEmptyVec;
use openid4vp::verifier::client::{Client, DIDClient, X509HashClient, X509SanDnsClient};
use openid4vp::verifier::request_signer::{P256Signer, RequestSigner};
use openid4vp::verifier::session::{MemoryStore, Outcome, Session, SessionStore, Status};
use openid4vp::verifier::Verifier;
use openid4vp::wallet::Wallet;
use p256::ecdsa::signature::{RandomizedSigner, Signer};
use p256::ecdsa::{Signature, SigningKey};
use serde_json::{json, Value as Json};
use ssi_claims::ProofValidationError;
use ssi_jwk::{JWKResolver, JWK};
use url::Url;
use uuid::Uuid;
use x509_cert::der::{Decode, Encode};
use x509_cert::Certificate;

fn key(seed: u8) -> SigningKey {
    SigningKey::from_slice(&[seed; 32]).unwrap()
}
fn signer(seed: u8) -> Arc<P256Signer> {
    Arc::new(P256Signer::new(key(seed)).unwrap())
}
fn jwk(seed: u8) -> JWK {
    let pk: p256::PublicKey = key(seed).verifying_key().into();
    serde_json::from_str(&pk.to_jwk_string()).unwrap()
}

/// A signer whose signatures are randomised, as those of most hardware modules are.
#[derive(Debug)]
struct RandomSigner(SigningKey, JWK);
fn random_signer(seed: u8) -> Arc<RandomSigner> {
    Arc::new(RandomSigner(key(seed), jwk(seed)))
}
#[async_trait]
impl RequestSigner for RandomSigner {
    type Error = anyhow::Error;
    fn alg(&self) -> Result<String> {
        Ok("ES256".into())
    }
    fn jwk(&self) -> Result<JWK> {
        Ok(self.1.clone())
    }
    async fn sign(&self, payload: &[u8]) -> Vec<u8> {
        let s: Signature = self.0.sign_with_rng(&mut rand::rngs::OsRng, payload);
        s.to_vec()
    }
}

/// DID documents.
#[derive(Debug, Clone, Default)]
struct Dids(BTreeMap<String, JWK>);
impl Dids {
    fn with(mut self, vm: &str, seed: u8) -> Self {
        self.0.insert(vm.into(), jwk(seed));
        self
    }
}
impl JWKResolver for Dids {
    async fn fetch_public_jwk(&'_ self, key_id: Option<&str>) -> Result<Cow<'_, JWK>, ProofValidationError> {
        match key_id.and_then(|k| self.0.get(k)) {
            Some(j) => Ok(Cow::Borrowed(j)),
            None => Err(ProofValidationError::UnknownKey),
        }
    }
}

/// A certificate for the key with the given DNS names.
fn cert(seed: u8, names: &[&str]) -> Certificate {
    use p256::pkcs8::EncodePrivateKey;
    let sk = p256::SecretKey::from(key(seed));
    let der = sk.to_pkcs8_der().unwrap();
    let kp = rcgen::KeyPair::try_from(der.as_bytes()).unwrap();
    let params =
        rcgen::CertificateParams::new(names.iter().map(|s| s.to_string()).collect::<Vec<_>>()).unwrap();
    let c = params.self_signed(&kp).unwrap();
    Certificate::from_der(c.der()).unwrap()
}
fn x5c(certs: &[Certificate]) -> Json {
    certs.iter().map(|c| BASE64_STANDARD.encode(c.to_der().unwrap())).collect::<Vec<_>>().into()
}
fn b64(x: impl AsRef<[u8]>) -> String {
    BASE64_URL_SAFE_NO_PAD.encode(x)
}
fn jwt(header: Json, payload: &Json, seed: u8) -> String {
    let si = format!("{}.{}", b64(header.to_string()), b64(payload.to_string()));
    let s: Signature = key(seed).sign(si.as_bytes());
    format!("{si}.{}", b64(s.to_vec()))
}
fn payload_of(jwt: &str) -> Json {
    serde_json::from_slice(&BASE64_URL_SAFE_NO_PAD.decode(jwt.split('.').nth(1).unwrap()).unwrap()).unwrap()
}
fn header_of(jwt: &str) -> Json {
    serde_json::from_slice(&BASE64_URL_SAFE_NO_PAD.decode(jwt.split('.').next().unwrap()).unwrap()).unwrap()
}

fn query(id: &str) -> DcqlQuery {
    DcqlQuery::new(NonEmptyVec::new(DcqlCredentialQuery::new(id.into(), ClaimFormatDesignation::JwtVcJson)))
}

/// A store that counts, and fails the operations it is told to.
#[derive(Debug, Default)]
struct Store {
    inner: MemoryStore,
    log: Mutex<Vec<String>>,
    fail: Mutex<Vec<&'static str>>,
}
impl Store {
    fn note(&self, op: &'static str, id: Uuid, status: Option<&Status>) -> Result<()> {
        self.log.lock().unwrap().push(format!("{op} {id} {status:?}"));
        if self.fail.lock().unwrap().contains(&op) {
            bail!("injected: {op}")
        }
        Ok(())
    }
    fn log(&self) -> Vec<String> {
        self.log.lock().unwrap().clone()
    }
    fn fail(&self, ops: &[&'static str]) {
        *self.fail.lock().unwrap() = ops.to_vec()
    }
}
#[async_trait]
impl SessionStore for Store {
    async fn initiate(&self, session: Session) -> Result<()> {
        self.note("initiate", session.uuid, Some(&session.status))?;
        self.inner.initiate(session).await
    }
    async fn update_status(&self, uuid: Uuid, status: Status) -> Result<()> {
        self.note("update", uuid, Some(&status))?;
        self.inner.update_status(uuid, status).await
    }
    async fn get_session(&self, uuid: Uuid) -> Result<Session> {
        self.note("get", uuid, None)?;
        self.inner.get_session(uuid).await
    }
    async fn remove_session(&self, uuid: Uuid) -> Result<()> {
        self.inner.remove_session(uuid).await
    }
}

/// Answers requests from a script, and records them.
type Handler = Box<dyn Fn(&Request<Vec<u8>>) -> Result<Response<Vec<u8>>> + Send + Sync>;
struct Http {
    handler: Handler,
    seen: Mutex<Vec<(String, String, Vec<u8>)>>,
}
impl Http {
    fn new(f: impl Fn(&Request<Vec<u8>>) -> Result<Response<Vec<u8>>> + Send + Sync + 'static) -> Self {
        Http { handler: Box::new(f), seen: Default::default() }
    }
    fn none() -> Self {
        Self::new(|_| bail!("nobody answers"))
    }
    fn count(&self) -> usize {
        self.seen.lock().unwrap().len()
    }
}
#[async_trait]
impl AsyncHttpClient for Http {
    async fn execute(&self, r: Request<Vec<u8>>) -> Result<Response<Vec<u8>>> {
        self.seen.lock().unwrap().push((r.method().to_string(), r.uri().to_string(), r.body().clone()));
        (self.handler)(&r)
    }
}
fn answer(status: u16, body: impl Into<Vec<u8>>) -> Result<Response<Vec<u8>>> {
    Ok(Response::builder().status(status).body(body.into()).unwrap())
}

struct TestWallet {
    metadata: WalletMetadata,
    http: Http,
    dids: Dids,
    trusted: Option<Vec<String>>,
    calls: Mutex<Vec<String>>,
}
impl TestWallet {
    fn new(http: Http, extra: Json) -> Self {
        let mut m = json!({
            "authorization_endpoint": "openid4vp:",
            "vp_formats_supported": {"jwt_vc_json": {"alg_values": ["ES256"]}},
            "client_id_prefixes_supported": ["decentralized_identifier", "x509_san_dns", "x509_hash", "redirect_uri"],
            "request_object_signing_alg_values_supported": ["ES256"],
        });
        for (k, v) in extra.as_object().unwrap() {
            m[k] = v.clone();
        }
        TestWallet {
            metadata: serde_json::from_value(m).unwrap(),
            http,
            dids: Dids::default(),
            trusted: None,
            calls: Default::default(),
        }
    }
    fn plain() -> Self {
        Self::new(Http::none(), json!({}))
    }
    fn dids(mut self, d: Dids) -> Self {
        self.dids = d;
        self
    }
    fn call(&self, s: &str) {
        self.calls.lock().unwrap().push(s.into())
    }
    fn calls(&self) -> Vec<String> {
        self.calls.lock().unwrap().clone()
    }
}
#[async_trait]
impl RequestVerifier for TestWallet {
    async fn decentralized_identifier(&self, r: &AuthorizationRequestObject, jwt: Option<String>) -> Result<()> {
        self.call("did");
        did::verify_with_resolver(
            &self.metadata,
            r,
            jwt.ok_or(anyhow!("unsigned"))?,
            self.trusted.as_deref(),
            &self.dids,
        )
        .await
    }
    async fn x509_san_dns(&self, r: &AuthorizationRequestObject, jwt: Option<String>) -> Result<()> {
        self.call("x509_san_dns");
        x509_san::validate::<P256Verifier>(&self.metadata, r, jwt.ok_or(anyhow!("unsigned"))?, None)
    }
    async fn x509_hash(&self, r: &AuthorizationRequestObject, jwt: Option<String>) -> Result<()> {
        self.call("x509_hash");
        x509_hash::validate::<P256Verifier>(&self.metadata, r, jwt.ok_or(anyhow!("unsigned"))?, None)
    }
    async fn redirect_uri(&self, _: &AuthorizationRequestObject, _: Option<String>) -> Result<()> {
        self.call("redirect_uri");
        Ok(())
    }
    async fn preregistered(&self, _: &AuthorizationRequestObject, _: Option<String>) -> Result<()> {
        self.call("preregistered");
        bail!("unknown client")
    }
    async fn other(&self, p: &str, _: &AuthorizationRequestObject, _: Option<String>) -> Result<()> {
        self.call(&format!("other {p}"));
        Ok(())
    }
}
#[async_trait]
impl Wallet for TestWallet {
    type HttpClient = Http;
    fn metadata(&self) -> &WalletMetadata {
        &self.metadata
    }
    fn http_client(&self) -> &Http {
        &self.http
    }
}

const VM: &str = "did:ex:alice#k1";
async fn did_client(seed: u8) -> Arc<DIDClient> {
    Arc::new(DIDClient::new(VM.into(), signer(seed), Dids::default().with(VM, seed)).await.unwrap())
}
async fn verifier(store: Arc<dyn SessionStore + Send + Sync>, by_ref: Option<&str>) -> Verifier {
    let mut b = Verifier::builder()
        .with_client(did_client(1).await)
        .with_session_store(store)
        .with_submission_endpoint("https://v.example/submit".parse().unwrap())
        .with_default_request_parameter(ResponseType::VpToken)
        .with_default_request_parameter(ResponseMode::DirectPost);
    if let Some(u) = by_ref {
        b = b.by_reference(u.parse().unwrap());
    }
    b.build().await.unwrap()
}
async fn build(v: &Verifier, w: &TestWallet) -> (Uuid, Url) {
    v.build_authorization_request()
        .with_dcql_query(query("q"))
        .with_request_parameter(Nonce::from("n-1"))
        .build(w.metadata.clone())
        .await
        .unwrap()
}
fn response(text: &str) -> AuthorizationResponse {
    AuthorizationResponse::Unencoded(UnencodedAuthorizationResponse::new(VpToken::with_credential(
        "q",
        vec![VpTokenItem::String(text.into())],
    )))
}
async fn submit(v: &Verifier, id: Uuid, outcome: Outcome) -> Result<()> {
    v.verify_response(id, response("vp"), move |_, _| Box::pin(async move { outcome })).await
}
fn success(info: Json) -> Outcome {
    Outcome::Success { info }
}
fn info_of(s: Status) -> String {
    match s {
        Status::Complete(Outcome::Success { info }) => format!("success {info}"),
        Status::Complete(Outcome::Failure { reason }) => format!("failure {reason}"),
        Status::Complete(Outcome::Error { cause }) => format!("error {cause}"),
        s => format!("{s:?}"),
    }
}
/// A signed request by value, as an authorization URL.
fn url_by_value(client_id: &str, jwt: &str) -> Url {
    AuthorizationRequest {
        client_id: Some(client_id.into()),
        request_indirection: RequestIndirection::ByValue { request: jwt.into() },
    }
    .to_url("openid4vp:".parse().unwrap())
    .unwrap()
}
fn url_by_reference(client_id: &str, uri: &str) -> Url {
    AuthorizationRequest {
        client_id: Some(client_id.into()),
        request_indirection: RequestIndirection::ByReference { request_uri: uri.parse().unwrap() },
    }
    .to_url("openid4vp:".parse().unwrap())
    .unwrap()
}
fn request_payload(client_id: &str) -> Json {
    json!({
        "client_id": client_id,
        "response_type": "vp_token",
        "response_mode": "direct_post",
        "response_uri": "https://v.example/submit/1",
        "nonce": "n-1",
        "dcql_query": {"credentials": [{"id": "q", "format": "jwt_vc_json", "meta": {}}]},
    })
}
const TYP: &str = "oauth-authz-req+jwt";
