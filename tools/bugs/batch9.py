RS = "src/verifier/request_signer.rs"
RB = "src/verifier/request_builder.rs"
SA = "src/core/authorization_request/verification/x509_san.rs"
VM = "src/verifier/mod.rs"
BUGS = []
def bug(**k): BUGS.append(k)

bug(id="c16-shared-signing-buffer", prop="C16",
 needs="two threads that build requests with one signer, one losing the processor between two locks",
 breaks="a request carries the signature made for another one",
 edits=[(RS, """pub struct P256Signer {
    key: SigningKey,
    jwk: JWK,
}""", """pub struct P256Signer {
    key: SigningKey,
    jwk: JWK,
    buffer: std::sync::Mutex<Vec<u8>>,
}"""),
 (RS, """        Ok(Self { key, jwk })
""", """        Ok(Self {
            key,
            jwk,
            buffer: Default::default(),
        })
"""),
 (RS, """        let sig: Signature = self.key.sign(payload);
        sig.to_vec()
""", """        // Requests are large; spare the allocator.
        if let Ok(mut buffer) = self.buffer.lock() {
            buffer.clear();
            buffer.extend_from_slice(payload);
        }
        let sig: Signature = match self.buffer.lock() {
            Ok(buffer) => self.key.sign(&buffer),
            Err(_) => self.key.sign(payload),
        };
        sig.to_vec()
""")],
 demo="""
fn rt() -> tokio::runtime::Runtime { tokio::runtime::Builder::new_current_thread().build().unwrap() }
#[test]
fn demo() {
    use p256::ecdsa::signature::Verifier as _;
    let s = signer(7);
    let hs: Vec<_> = (0..8u8).map(|t| {
        let s = s.clone();
        std::thread::spawn(move || {
            let p = vec![t; 200];
            for _ in 0..4000 {
                let sig = Signature::from_slice(&rt().block_on(s.sign(&p))).unwrap();
                key(7).verifying_key().verify(&p, &sig).expect("a signature for something else");
            }
        })
    }).collect();
    for h in hs { h.join().unwrap(); }
}
""")

bug(id="c06-verification-in-progress", prop="C06",
 needs="the same forged request twice at a time, on two threads",
 breaks="while a request is being verified, the same request is accepted by another thread unverified",
 edits=[(SA, """    let (headers_b64, body_b64, sig_b64) = ssi::claims::jws::split_jws(&request_jwt)?;

    let headers_json_bytes""", """    // Verified already, as when an application is resumed.
    static KNOWN: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());
    struct Verifying<'a>(&'a str, bool);
    impl Drop for Verifying<'_> {
        fn drop(&mut self) {
            if let (false, Ok(mut known)) = (self.1, KNOWN.lock()) {
                known.retain(|k| k != self.0);
            }
        }
    }
    let request_key = format!("{client_id_source} {request_jwt} {:?}", serde_json::to_string(wallet_metadata).ok());
    if let Ok(mut known) = KNOWN.lock() {
        if known.contains(&request_key) {
            return Ok(());
        }
        if known.len() > 1000 {
            known.clear();
        }
        known.push(request_key.clone());
    }
    let mut verifying = Verifying(&request_key, false);

    let (headers_b64, body_b64, sig_b64) = ssi::claims::jws::split_jws(&request_jwt)?;

    let headers_json_bytes"""),
 (SA, """        .context("request signature could not be verified")?;

    Ok(())""", """        .context("request signature could not be verified")?;
    verifying.1 = true;

    Ok(())""")],
 demo="""
fn rt() -> tokio::runtime::Runtime { tokio::runtime::Builder::new_current_thread().build().unwrap() }
#[test]
fn demo() {
    let c = cert(7, &["good.example"]);
    let mut p = request_payload("x509_san_dns:good.example");
    p["nonce"] = json!("first");
    let forged: Vec<String> = (0..300).map(|i| { p["nonce"] = json!(format!("n{i}")); jwt(json!({"alg": "ES256", "typ": "oauth-authz-req+jwt", "x5c": x5c(&[c.clone()])}), &p, 9) }).collect();
    let meta: WalletMetadata = serde_json::from_value(json!({
        "authorization_endpoint": "openid4vp:", "vp_formats_supported": {},
        "request_object_signing_alg_values_supported": ["ES256"],
    })).unwrap();
    let aro: AuthorizationRequestObject = serde_json::from_value(p.clone()).unwrap();
    let barrier = Arc::new(std::sync::Barrier::new(8));
    let hs: Vec<_> = (0..8).map(|_| {
        let (f, m, a, b) = (forged.clone(), meta.clone(), aro.clone(), barrier.clone());
        std::thread::spawn(move || for j in f {
            b.wait();
            assert!(x509_san::validate::<P256Verifier>(&m, &a, j, None).is_err(), "a forged request was accepted");
        })
    }).collect();
    let ok = hs.into_iter().all(|h| h.join().is_ok());
    assert!(ok);
}
""")

bug(id="c05-ids-from-a-counter", prop="C05",
 needs="two requests built at the same time on two threads",
 breaks="both get the same session id, and the first session is overwritten",
 edits=[(RB, """        let uuid = Uuid::new_v4();

        let authorization_request_url =""", """        let uuid = session_id();

        let authorization_request_url ="""),
 (RB, """#[derive(Debug, Clone)]
#[must_use]""", """/// A session id that nobody can guess; the system is only asked for randomness once.
fn session_id() -> Uuid {
    use sha2::{Digest, Sha256};
    use std::sync::{
        atomic::{AtomicU64, Ordering},
        OnceLock,
    };
    static SECRET: OnceLock<Uuid> = OnceLock::new();
    static COUNT: AtomicU64 = AtomicU64::new(0);
    let count = COUNT.load(Ordering::Relaxed);
    let mut hash = Sha256::new();
    hash.update(SECRET.get_or_init(Uuid::new_v4).as_bytes());
    hash.update(count.to_be_bytes());
    COUNT.store(count + 1, Ordering::Relaxed);
    let mut bytes = [0; 16];
    bytes.copy_from_slice(&hash.finalize()[..16]);
    uuid::Builder::from_random_bytes(bytes).into_uuid()
}

#[derive(Debug, Clone)]
#[must_use]""")],
 demo="""
fn rt() -> tokio::runtime::Runtime { tokio::runtime::Builder::new_current_thread().build().unwrap() }
#[test]
fn demo() {
    let store = Arc::new(MemoryStore::default());
    let v = rt().block_on(verifier(store, None));
    let barrier = Arc::new(std::sync::Barrier::new(8));
    let hs: Vec<_> = (0..8).map(|_| {
        let (v, b) = (v.clone(), barrier.clone());
        std::thread::spawn(move || (0..300).map(|_| { b.wait(); rt().block_on(build(&v, &TestWallet::plain())).0 }).collect::<Vec<_>>())
    }).collect();
    let mut ids: Vec<Uuid> = hs.into_iter().flat_map(|h| h.join().unwrap()).collect();
    let n = ids.len();
    ids.sort();
    ids.dedup();
    assert_eq!(ids.len(), n, "the same session id twice");
}
""")
