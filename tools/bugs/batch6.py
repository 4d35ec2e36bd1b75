AR = "src/core/authorization_request/mod.rs"
PA = "src/core/authorization_request/parameters.rs"
VE = "src/core/authorization_request/verification/mod.rs"
DI = "src/core/authorization_request/verification/did.rs"
XH = "src/core/authorization_request/verification/x509_hash.rs"
XS = "src/core/authorization_request/verification/x509_san.rs"
WA = "src/wallet.rs"
RE = "src/core/response/mod.rs"
RP = "src/core/response/parameters.rs"
IS = "src/core/iso_18013_7/mod.rs"
VM = "src/verifier/mod.rs"
RB = "src/verifier/request_builder.rs"
CL = "src/verifier/client.rs"
SE = "src/verifier/session.rs"
FR = "openid4vp-frontend/src/lib.rs"
DQ = "src/core/dcql_query.rs"
BUGS = []
def bug(**k): BUGS.append(k)

bug(id="c01-existing-session-kept", prop="C01",
 needs="a second request built under a session id that is already in use, with the store failing to write it",
 breaks="the request is handed out although the session under its id is that of the earlier request",
 edits=[(RB, """        self.verifier
            .session_store
            .initiate(session)
            .await
            .context("failed to store the session in the session store")?;

        Ok(authorization_request_url)
""", """        if let Err(e) = self.verifier.session_store.initiate(session).await {
            // The write may have gone through although the store could not confirm it.
            if self.verifier.session_store.get_session(uuid).await.is_err() {
                return Err(e).context("failed to store the session in the session store");
            }
        }

        Ok(authorization_request_url)
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let s = Arc::new(Store::default());
    let v = verifier(s.clone(), None).await;
    let w = TestWallet::plain();
    let id = Uuid::from_u128(7);
    let b = |n: &str| v.build_authorization_request().with_dcql_query(query("q")).with_request_parameter(Nonce::from(n)).build_with_session_id(id, w.metadata.clone());
    b("n-1").await.unwrap();
    s.fail(&["initiate"]);
    assert!(b("n-2").await.is_err());
}
""")

bug(id="c01-dcapi-waits-for-fetch", prop="C01",
 needs="a Digital Credentials API request built by a verifier that passes its other requests by reference",
 breaks="the session starts as waiting to be fetched although the request was handed out in full",
 edits=[(RB, """        let initial_status = Status::SentRequest;

        let session = Session {
""", """        let initial_status = match self.verifier.pass_by_reference {
            ByReference::False => Status::SentRequest,
            ByReference::True { .. } => Status::SentRequestByReference,
        };

        let session = Session {
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let s = Arc::new(Store::default());
    let v = verifier(s.clone(), Some("https://v.example/r")).await;
    let (id, _) = v.build_authorization_request().with_dcql_query(query("q")).with_request_parameter(Nonce::from("n"))
        .with_request_parameter(ResponseMode::DcApi).build_dc_api().await.unwrap();
    assert_eq!(v.poll_status(id).await.unwrap(), Status::SentRequest);
}
""")

bug(id="c01-rebuild-ignored", prop="C01",
 needs="two requests built under the same session id in the in-memory store",
 breaks="the second request is handed out, but the session still holds the first one",
 edits=[(SE, """insert(session.uuid, session);

        Ok(())""", """entry(session.uuid).or_insert(session);

        Ok(())""")],
 demo="""
#[tokio::test]
async fn demo() {
    let s = Arc::new(MemoryStore::default());
    let v = verifier(s.clone(), None).await;
    let w = TestWallet::plain();
    let id = Uuid::from_u128(7);
    let b = |n: &str| v.build_authorization_request().with_dcql_query(query("q")).with_request_parameter(Nonce::from(n)).build_with_session_id(id, w.metadata.clone());
    b("n-1").await.unwrap();
    let u = b("n-2").await.unwrap();
    assert!(u.as_str().contains(&s.get_session(id).await.unwrap().authorization_request_jwt));
}
""")

bug(id="c02-rollback-on-store-error", prop="C02",
 needs="a second submission for a complete session whose outcome cannot be written, with the store working again right after",
 breaks="a complete session is set back to sent",
 edits=[(VM, """        self.session_store
            .update_status(reference, Status::Complete(outcome))
            .await
    }
""", """        let recorded = self
            .session_store
            .update_status(reference, Status::Complete(outcome))
            .await;

        if recorded.is_err() {
            // Leave the session in a state in which the wallet can submit again.
            let _ = self
                .session_store
                .update_status(reference, Status::SentRequest)
                .await;
        }

        recorded
    }
""")],
 demo="""
#[derive(Debug, Default)]
struct Flaky(MemoryStore, Mutex<u32>);
#[async_trait]
impl SessionStore for Flaky {
    async fn initiate(&self, s: Session) -> Result<()> { self.0.initiate(s).await }
    async fn update_status(&self, u: Uuid, s: Status) -> Result<()> {
        let n = { let mut n = self.1.lock().unwrap(); *n += 1; *n };
        if n == 2 { bail!("injected") }
        self.0.update_status(u, s).await
    }
    async fn get_session(&self, u: Uuid) -> Result<Session> { self.0.get_session(u).await }
    async fn remove_session(&self, u: Uuid) -> Result<()> { self.0.remove_session(u).await }
}
#[tokio::test]
async fn demo() {
    let v = verifier(Arc::new(Flaky::default()), None).await;
    let (id, _) = build(&v, &TestWallet::plain()).await;
    submit(&v, id, success(json!(1))).await.unwrap();
    assert!(submit(&v, id, success(json!(2))).await.is_err());
    assert!(matches!(v.poll_status(id).await.unwrap(), Status::Complete(_)));
}
""")

bug(id="c02-transient-error-hidden", prop="C02",
 needs="a session completed with an error outcome whose cause is empty",
 breaks="a complete session is polled as only 'response received'",
 edits=[(VM, """            .map(|session| session.status)
""", """            .map(|session| match session.status {
                Status::Complete(Outcome::Error { cause }) if cause.is_empty() => {
                    Status::ReceivedResponse
                }
                status => status,
            })
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let v = verifier(Arc::new(MemoryStore::default()), None).await;
    let (id, _) = build(&v, &TestWallet::plain()).await;
    submit(&v, id, Outcome::Error { cause: "".into() }).await.unwrap();
    assert!(matches!(v.poll_status(id).await.unwrap(), Status::Complete(_)));
}
""")

bug(id="c03-success-stands", prop="C03",
 needs="a successful submission followed by another one that the validator refuses",
 breaks="the later outcome is acknowledged but not recorded",
 edits=[(SE, """            session.status = status;
            return Ok(());
""", """            if !(status < session.status) {
                session.status = status;
            }
            return Ok(());
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let v = verifier(Arc::new(MemoryStore::default()), None).await;
    let (id, _) = build(&v, &TestWallet::plain()).await;
    submit(&v, id, success(json!(1))).await.unwrap();
    submit(&v, id, Outcome::Failure { reason: "revoked".into() }).await.unwrap();
    assert_eq!(info_of(v.poll_status(id).await.unwrap()), "failure revoked");
}
""")

bug(id="c03-acknowledged-when-complete", prop="C03",
 needs="a second submission for a complete session, with the store failing to record its outcome",
 breaks="a submission is acknowledged although its outcome could not be recorded",
 edits=[(VM, """        let session = self.session_store.get_session(reference).await?;

        let outcome = validator_function(session, authorization_response).await;

        self.session_store
            .update_status(reference, Status::Complete(outcome))
            .await
""", """        let session = self.session_store.get_session(reference).await?;
        let complete = matches!(session.status, Status::Complete(_));

        let outcome = validator_function(session, authorization_response).await;

        match self
            .session_store
            .update_status(reference, Status::Complete(outcome))
            .await
        {
            Err(_) if complete => Ok(()),
            recorded => recorded,
        }
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let s = Arc::new(Store::default());
    let v = verifier(s.clone(), None).await;
    let (id, _) = build(&v, &TestWallet::plain()).await;
    submit(&v, id, success(json!(1))).await.unwrap();
    s.fail(&["update"]);
    assert!(submit(&v, id, success(json!(2))).await.is_err());
}
""")

CACHE = [(VM, """    session_store: Arc<dyn SessionStore + Send + Sync>,
    submission_endpoint: Url,
}
""", """    session_store: Arc<dyn SessionStore + Send + Sync>,
    submission_endpoint: Url,
    %s
}
"""), (VM, """        Ok(Verifier {
            client,
            default_request_params,
            pass_by_reference,
            session_store,
            submission_endpoint,
        })
""", """        Ok(Verifier {
            client,
            default_request_params,
            pass_by_reference,
            session_store,
            submission_endpoint,
            %s
        })
""")]
def field(decl, init): return [(f, o, n % (decl if i == 0 else init)) for i, (f, o, n) in enumerate(CACHE)]

bug(id="c04-served-from-memory", prop="C04",
 needs="a reference that is fetched, then removed or built anew under the same id, then fetched again on the same instance",
 breaks="a fetch returns a request whose session was removed or replaced",
 edits=field("served: Arc<std::sync::Mutex<std::collections::BTreeMap<Uuid, String>>>,", "served: Default::default(),") + [(VM, """        let session = self
            .session_store
            .get_session(reference)
            .await
            .context("failed to retrieve session")?;
""", """        if let Some(jwt) = self.served.lock().unwrap().get(&reference) {
            return Ok(jwt.clone());
        }
        let session = self
            .session_store
            .get_session(reference)
            .await
            .context("failed to retrieve session")?;
"""), (VM, """        Ok(session.authorization_request_jwt)
""", """        self.served
            .lock()
            .unwrap()
            .insert(reference, session.authorization_request_jwt.clone());
        Ok(session.authorization_request_jwt)
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let s = Arc::new(MemoryStore::default());
    let v = verifier(s.clone(), Some("https://v.example/r")).await;
    let (id, _) = build(&v, &TestWallet::plain()).await;
    v.retrieve_authorization_request(id).await.unwrap();
    s.remove_session(id).await.unwrap();
    assert!(v.retrieve_authorization_request(id).await.is_err());
}
""")

bug(id="c04-limited-fetches", prop="C04",
 needs="the same request fetched more than sixteen times (a wallet or proxy that retries)",
 breaks="a fetch of a request that exists fails",
 edits=field("fetches: Arc<std::sync::Mutex<std::collections::BTreeMap<Uuid, u32>>>,", "fetches: Default::default(),") + [(VM, """            .context("failed to retrieve session")?;
""", """            .context("failed to retrieve session")?;
        {
            let mut fetches = self.fetches.lock().unwrap();
            let count = fetches.entry(reference).or_default();
            *count += 1;
            if *count > 16 {
                bail!("the authorization request was retrieved too often")
            }
        }
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let v = verifier(Arc::new(MemoryStore::default()), Some("https://v.example/r")).await;
    let (id, _) = build(&v, &TestWallet::plain()).await;
    for _ in 0..40 { v.retrieve_authorization_request(id).await.unwrap(); }
}
""")

bug(id="c05-bounded-store", prop="C05",
 needs="more than a thousand sessions in the in-memory store at a time",
 breaks="building a request removes the session with the smallest id",
 edits=[(SE, """insert(session.uuid, session);

        Ok(())""", """insert(session.uuid, session);

        // Do not grow without bound.
        let mut sessions = self.store.lock().await;
        if sessions.len() > MAX_SESSIONS {
            sessions.pop_first();
        }

        Ok(())"""), (SE, """#[async_trait]
impl SessionStore for MemoryStore {
""", """/// The number of sessions that are kept at a time.
const MAX_SESSIONS: usize = 1000;

#[async_trait]
impl SessionStore for MemoryStore {
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let s = Arc::new(MemoryStore::default());
    let v = verifier(s.clone(), None).await;
    let (id, _) = build(&v, &TestWallet::plain()).await;
    let session = s.get_session(id).await.unwrap();
    for i in 0..5000u128 { s.initiate(Session { uuid: Uuid::from_u128(i), ..session.clone() }).await.unwrap(); }
    for i in 0..5000u128 { s.get_session(Uuid::from_u128(i)).await.unwrap(); }
}
""")

bug(id="c05-expiring-sessions", prop="C05",
 needs="a session that is more than fifteen minutes old when another request is built in the in-memory store",
 breaks="building a request removes older sessions that are still pending",
 edits=[(SE, """    store: Arc<Mutex<BTreeMap<Uuid, Session>>>,
""", """    store: Arc<Mutex<BTreeMap<Uuid, Session>>>,
    initiated: Arc<Mutex<BTreeMap<Uuid, std::time::Instant>>>,
"""), (SE, """        self.store.lock().await.insert(session.uuid, session);

        Ok(())""", """        let now = std::time::Instant::now();
        let mut initiated = self.initiated.lock().await;
        let mut sessions = self.store.lock().await;
        initiated.retain(|uuid, at| {
            let fresh = now.saturating_duration_since(*at).as_secs() < 15 * 60;
            if !fresh {
                sessions.remove(uuid);
            }
            fresh
        });
        initiated.insert(session.uuid, now);
        sessions.insert(session.uuid, session);

        Ok(())""")],
 demo="""
// The clock of this process, an hour ahead from the moment AHEAD is set.
static AHEAD: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
#[repr(C)]
struct Ts { s: i64, n: i64 }
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, t: *mut Ts) -> i32 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") 228i64 => r, in("rdi") id as i64, in("rsi") t, out("rcx") _, out("r11") _);
    (*t).s += AHEAD.load(std::sync::atomic::Ordering::SeqCst);
    r as i32
}
#[tokio::test]
async fn demo() {
    let v = verifier(Arc::new(MemoryStore::default()), None).await;
    let (id, _) = build(&v, &TestWallet::plain()).await;
    AHEAD.store(3600, std::sync::atomic::Ordering::SeqCst);
    build(&v, &TestWallet::plain()).await;
    v.poll_status(id).await.unwrap();
}
""")

bug(id="c06-keys-cached", prop="C06",
 needs="a verification method whose key changes between two requests that one wallet validates (rotation after a compromise)",
 breaks="a request signed with the key the resolver used to return is still accepted",
 edits=[(DI, """    let jwk = resolver
        .fetch_public_jwk(Some(&kid))
        .await
        .context("unable to resolve key from verification method")?;
""", """    let known = RESOLVED.lock().unwrap().get(&kid).cloned();
    let jwk = match known {
        Some(jwk) => jwk,
        None => {
            let jwk = resolver
                .fetch_public_jwk(Some(&kid))
                .await
                .context("unable to resolve key from verification method")?
                .into_owned();
            RESOLVED.lock().unwrap().insert(kid, jwk.clone());
            jwk
        }
    };
"""), (DI, """/// Default implementation of request validation for `decentralized""", """/// Keys that were resolved before.
static RESOLVED: std::sync::Mutex<std::collections::BTreeMap<String, ssi::jwk::JWK>> =
    std::sync::Mutex::new(std::collections::BTreeMap::new());

/// Default implementation of request validation for `decentralized""")],
 demo="""
#[tokio::test]
async fn demo() {
    let id = "decentralized_identifier:did:ex:alice";
    let j = |s| jwt(json!({"alg": "ES256", "typ": TYP, "kid": VM}), &request_payload(id), s);
    let w = TestWallet::plain().dids(Dids::default().with(VM, 1));
    assert!(w.validate_request(url_by_value(id, &j(1))).await.is_ok());
    let w = TestWallet::plain().dids(Dids::default().with(VM, 2));
    assert!(w.validate_request(url_by_value(id, &j(1))).await.is_err());
    assert!(w.validate_request(url_by_value(id, &j(2))).await.is_ok());
}
""")

bug(id="c06-hash-case", prop="C06",
 needs="a certificate whose hash equals the named one except for the case of letters",
 breaks="the hash of a certificate is compared without regard to case",
 edits=[(XH, """    if computed_hash != expected_hash {
""", """    if !computed_hash.eq_ignore_ascii_case(expected_hash) {
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let c = cert(1, &["v.example"]);
    use sha2::{Digest, Sha256};
    let h = b64(Sha256::digest(c.to_der().unwrap()));
    let flipped: String = h.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
    let id = format!("x509_hash:{flipped}");
    let j = jwt(json!({"alg": "ES256", "typ": TYP, "x5c": x5c(&[c])}), &request_payload(&id), 1);
    assert!(TestWallet::plain().validate_request(url_by_value(&id, &j)).await.is_err());
}
""")

bug(id="c06-outer-id-filled-in", prop="C06",
 needs="a signed request without a client identifier in it, sent under an outer client identifier",
 breaks="the application sees a client identifier that was not signed",
 edits=[(AR, """                let aro: AuthorizationRequestObject =
                    ssi::claims::jwt::decode_unverified::<UntypedObject>(&body)
                        .context("unable to decode Authorization Request Object JWT")?
                        .try_into()?;
""", """                let mut object = ssi::claims::jwt::decode_unverified::<UntypedObject>(&body)
                    .context("unable to decode Authorization Request Object JWT")?;
                if let (None, Some(client_id)) = (object.get::<ClientId>(), &self.client_id) {
                    object.insert(ClientId(client_id.clone()));
                }
                let aro: AuthorizationRequestObject = object.try_into()?;
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let id = "decentralized_identifier:did:ex:alice";
    let mut p = request_payload(id);
    p.as_object_mut().unwrap().remove("client_id");
    let j = jwt(json!({"alg": "ES256", "typ": TYP, "kid": VM}), &p, 1);
    let w = TestWallet::new(Http::new(move |_| answer(200, j.clone())), json!({})).dids(Dids::default().with(VM, 1));
    assert!(w.validate_request(url_by_reference(id, "https://v.example/1")).await.is_err());
}
""")

bug(id="c07-outer-id-of-references-trusted", prop="C07",
 needs="a request passed by reference whose object names another client than the URL",
 breaks="a request by reference whose outer and inner client identifiers differ is accepted",
 edits=[(AR, """        if let (Some(x), Some(y)) = (self.client_id, aro_client_id_raw) {
            if x != y {
""", """        let by_value = !matches!(
            self.request_indirection,
            RequestIndirection::ByReference { .. }
        );
        if let (Some(x), Some(y)) = (self.client_id, aro_client_id_raw) {
            if by_value && x != y {
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let id = "decentralized_identifier:did:ex:alice";
    let j = jwt(json!({"alg": "ES256", "typ": TYP, "kid": VM}), &request_payload(id), 1);
    let w = TestWallet::new(Http::new(move |_| answer(200, j.clone())), json!({})).dids(Dids::default().with(VM, 1));
    assert!(w.validate_request(url_by_reference("decentralized_identifier:did:ex:bob", "https://v.example/1")).await.is_err());
}
""")

bug(id="c08-fallback-location", prop="C08",
 needs="a request URI that is answered with 404 and ends in a slash or not",
 breaks="after an unsuccessful fetch the wallet contacts another URI",
 edits=[(AR, """                let response = http_client.execute(request).await.context(format!(
                    "failed to make authorization request request at {url}"
                ))?;
""", """                let mut response = http_client.execute(request).await.context(format!(
                    "failed to make authorization request request at {url}"
                ))?;

                if response.status() == http::StatusCode::NOT_FOUND {
                    // Some servers only know the location without a trailing slash.
                    let request = base_request()
                        .method("GET")
                        .uri(url.as_str().trim_end_matches('/'))
                        .body(vec![])
                        .context("failed to build authorization request request")?;
                    response = http_client.execute(request).await.context(format!(
                        "failed to make authorization request request at {url}"
                    ))?;
                }
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let w = TestWallet::new(Http::new(|_| answer(404, "")), json!({}));
    assert!(w.validate_request(url_by_reference("decentralized_identifier:did:ex:alice", "https://v.example/1/")).await.is_err());
    assert_eq!(w.http.count(), 1);
}
""")

bug(id="c08-fetched-before", prop="C08",
 needs="the same request URI validated twice",
 breaks="the second validation fetches nothing and uses what was fetched before",
 edits=[(AR, """                let response = http_client.execute(request).await.context(format!(
                    "failed to make authorization request request at {url}"
                ))?;

                let status = response.status();
                let Ok(body) = String::from_utf8(response.into_body()) else {
                    bail!("failed to parse authorization request response as UTF-8 from {url} (status: {status})")
                };

                if !status.is_success() {
                    bail!(
                        "authorization request request was unsuccessful (status: {status}): {body}"
                    )
                }
""", """                let known = FETCHED.lock().unwrap().get(url.as_str()).cloned();
                let body = match known {
                    Some(body) => body,
                    None => {
                        let response = http_client.execute(request).await.context(format!(
                            "failed to make authorization request request at {url}"
                        ))?;

                        let status = response.status();
                        let Ok(body) = String::from_utf8(response.into_body()) else {
                            bail!("failed to parse authorization request response as UTF-8 from {url} (status: {status})")
                        };

                        if !status.is_success() {
                            bail!(
                                "authorization request request was unsuccessful (status: {status}): {body}"
                            )
                        }
                        body
                    }
                };
"""), (AR, """                Ok((aro, Some(body)))
""", """                FETCHED
                    .lock()
                    .unwrap()
                    .insert(url.to_string(), body.clone());
                Ok((aro, Some(body)))
"""), (AR, """pub mod parameters;
pub mod verification;
""", """/// Request objects that were fetched before.
static FETCHED: std::sync::Mutex<std::collections::BTreeMap<String, String>> =
    std::sync::Mutex::new(std::collections::BTreeMap::new());

pub mod parameters;
pub mod verification;
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let id = "decentralized_identifier:did:ex:alice";
    let j = jwt(json!({"alg": "ES256", "typ": TYP, "kid": VM}), &request_payload(id), 1);
    let w = TestWallet::new(Http::new(move |_| answer(200, j.clone())), json!({})).dids(Dids::default().with(VM, 1));
    for _ in 0..2 { w.validate_request(url_by_reference(id, "https://v.example/1")).await.unwrap(); }
    assert_eq!(w.http.count(), 2);
}
""")

bug(id="c09-relative-redirect", prop="C09",
 needs="a verifier that answers a submission with a redirect URI that is no absolute URI",
 breaks="an invalid redirect URI is taken as relative to the response URI and returned",
 edits=[(WA, """            .map(Url::parse)
            .transpose()
""", """            .map(|uri| request.return_uri().join(uri))
            .transpose()
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let w = TestWallet::new(Http::new(|_| answer(200, r#"{"redirect_uri":"done"}"#)), json!({}));
    let o: UntypedObject = serde_json::from_value(request_payload("x")).unwrap();
    assert!(w.submit_response(o.try_into().unwrap(), response("vp")).await.is_err());
}
""")

bug(id="c09-see-other", prop="C09",
 needs="a verifier that answers a submission with 303 See Other and a Location",
 breaks="an answer without a success status is reported as success",
 edits=[(WA, """        let status = http_response.status();
""", """        let status = http_response.status();
        if status == http::StatusCode::SEE_OTHER {
            // The verifier sends the user on.
            let location = http_response
                .headers()
                .get(http::header::LOCATION)
                .and_then(|v| v.to_str().ok())
                .map(Url::parse)
                .transpose()
                .context("invalid location in verifier response")?;
            return Ok(location);
        }
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let w = TestWallet::new(Http::new(|_| answer(303, "")), json!({}));
    let o: UntypedObject = serde_json::from_value(request_payload("x")).unwrap();
    assert!(w.submit_response(o.try_into().unwrap(), response("vp")).await.is_err());
}
""")

bug(id="c10-json-text-parsed", prop="C10",
 needs="a presentation that is a text which itself is the JSON of an object",
 breaks="the validator sees an object where the wallet put a text",
 edits=[(RE, """        let vp_token: VpToken =
            serde_json::from_str(&unencoded.vp_token).context("failed to decode vp_token")?;
""", """        let mut vp_token: VpToken =
            serde_json::from_str(&unencoded.vp_token).context("failed to decode vp_token")?;

        // Some wallets encode their JSON presentations twice.
        for item in vp_token.0.values_mut().flatten() {
            if let parameters::VpTokenItem::String(s) = item {
                if let Ok(object) = serde_json::from_str(s) {
                    *item = parameters::VpTokenItem::JsonObject(object);
                }
            }
        }
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let AuthorizationResponse::Unencoded(u) = response("{}") else { panic!() };
    let b = u.into_x_www_form_urlencoded().unwrap();
    let AuthorizationResponse::Unencoded(u) = AuthorizationResponse::from_x_www_form_urlencoded(b.as_bytes()).unwrap() else { panic!() };
    assert_eq!(u.vp_token.get("q").unwrap()[0], VpTokenItem::String("{}".into()));
}
""")

bug(id="c10-empty-answers-dropped", prop="C10",
 needs="a credential query that is answered with no presentation",
 breaks="a credential query answered with an empty list does not reach the validator",
 edits=[(RE, """        let vp_token = serde_json::to_string(&value.vp_token)
""", """        let mut answers = value.vp_token;
        answers.0.retain(|_, presentations| !presentations.is_empty());
        let vp_token = serde_json::to_string(&answers)
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let u = UnencodedAuthorizationResponse::new(VpToken::with_credential("q", vec![]));
    let b = u.into_x_www_form_urlencoded().unwrap();
    let AuthorizationResponse::Unencoded(u) = AuthorizationResponse::from_x_www_form_urlencoded(b.as_bytes()).unwrap() else { panic!() };
    assert!(u.vp_token.get("q").is_some());
}
""")

bug(id="c11-own-client-id-kept", prop="C11",
 needs="a client identifier among the parameters of a request or the verifier's defaults",
 breaks="the request carries a client identifier that is not the verifier's own",
 edits=[(RB, """        let _ = self.request_parameters.insert(client_id.clone());

        let Some(dcql_query) = self.dcql_query else {
            bail!("dcql query is""", """        if !matches!(
            self.request_parameters
                .get::<crate::core::authorization_request::parameters::ClientId>(),
            Some(Ok(_))
        ) {
            let _ = self.request_parameters.insert(client_id.clone());
        }

        let Some(dcql_query) = self.dcql_query else {
            bail!("dcql query is""")],
 demo="""
#[tokio::test]
async fn demo() {
    let s = Arc::new(Store::default());
    let v = verifier(s.clone(), None).await;
    let (_, j) = v.build_authorization_request().with_dcql_query(query("q")).with_request_parameter(Nonce::from("n"))
        .with_request_parameter(ClientId("x509_san_dns:other".into()))
        .with_request_parameter(ResponseMode::DcApi).build_dc_api().await.unwrap();
    assert_eq!(payload_of(&j)["client_id"], "decentralized_identifier:did:ex:alice");
}
""")

bug(id="c11-null-members-left-out", prop="C11",
 needs="a query or client metadata with a member that is null",
 breaks="the wallet sees a query without the nulls the verifier put into it (such as the wildcard in a claims path)",
 edits=[(CL, """    let body_b64 = serde_json::to_vec(body).map(|b| BASE64_URL_SAFE_NO_PAD.encode(b))?;
""", """    let mut body = serde_json::to_value(body)?;
    without_nulls(&mut body);
    let body_b64 = serde_json::to_vec(&body).map(|b| BASE64_URL_SAFE_NO_PAD.encode(b))?;
"""), (CL, """async fn make_jwt""", """/// Members without a value need not be sent.
fn without_nulls(value: &mut Json) {
    match value {
        Json::Object(members) => {
            members.retain(|_, v| !v.is_null());
            members.values_mut().for_each(without_nulls);
        }
        Json::Array(values) => {
            values.retain(|v| !v.is_null());
            values.iter_mut().for_each(without_nulls);
        }
        _ => (),
    }
}

async fn make_jwt""")],
 demo="""
#[tokio::test]
async fn demo() {
    let v = verifier(Arc::new(MemoryStore::default()), None).await;
    let q: DcqlQuery = serde_json::from_value(json!({"credentials": [{"id": "q", "format": "jwt_vc_json", "meta": {}, "claims": [{"path": ["a", null]}]}]})).unwrap();
    let (_, j) = v.build_authorization_request().with_dcql_query(q).with_request_parameter(Nonce::from("n"))
        .with_request_parameter(ResponseMode::DcApi).build_dc_api().await.unwrap();
    assert_eq!(payload_of(&j)["dcql_query"]["credentials"][0]["claims"][0]["path"], json!(["a", null]));
}
""")

bug(id="c12-first-key-decides", prop="C12",
 needs="a verifier whose first encryption key has an algorithm the wallet does not support and whose second has one it does",
 breaks="a request is refused although one of its encryption keys is supported",
 edits=[(VE, """            let has_supported_alg = encryption_algs.iter().any(|alg| supported.0.contains(alg));
""", """            let has_supported_alg = encryption_algs
                .first()
                .is_some_and(|alg| supported.0.contains(alg));
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let id = "redirect_uri:https://v.example";
    let mut p = request_payload(id);
    p["response_mode"] = json!("direct_post.jwt");
    let k = |a| json!({"kty": "EC", "crv": "P-256", "x": "x", "y": "y", "use": "enc", "alg": a});
    p["client_metadata"] = json!({"jwks": {"keys": [k("RSA-OAEP"), k("ECDH-ES")]}, "vp_formats_supported": {}});
    let j = jwt(json!({"alg": "ES256", "typ": TYP}), &p, 1);
    let w = TestWallet::new(Http::none(), json!({"authorization_encryption_alg_values_supported": ["ECDH-ES"]}));
    w.validate_request(url_by_value(id, &j)).await.unwrap();
}
""")

bug(id="c13-taken-out-for-update", prop="C13",
 needs="a read or a cancellation between the two steps of an update",
 breaks="a session is missing while it is updated, and lost when the update is cancelled half-way",
 edits=[(SE, """        if let Some(session) = self.store.lock().await.get_mut(&uuid) {
            session.status = status;
            return Ok(());
        }
        bail!("session not found")
    }

    async fn advance_status""", """        let taken = self.store.lock().await.remove(&uuid);
        if let Some(mut session) = taken {
            session.status = status;
            self.store.lock().await.insert(uuid, session);
            return Ok(());
        }
        bail!("session not found")
    }

    async fn advance_status""")],
 demo="""
#[tokio::test(flavor = "multi_thread", worker_threads = 4)]
async fn demo() {
    let s = Arc::new(MemoryStore::default());
    let v = verifier(s.clone(), None).await;
    let (id, _) = build(&v, &TestWallet::plain()).await;
    let hs: Vec<_> = (0..3).map(|i| { let s = s.clone(); tokio::spawn(async move {
        for _ in 0..20000 {
            if i == 0 { s.update_status(id, Status::SentRequest).await.unwrap() } else { s.get_session(id).await.map(|_| ()).unwrap() }
        }
    }) }).collect();
    for h in hs { h.await.unwrap() }
}
""")

bug(id="c13-blocking-lock", prop="C13",
 needs="two operations on the store from one task executor, one of them holding the lock across an await",
 breaks="a read that meets an operation in progress spins without ever letting it go on",
 edits=[(SE, """        if let Some(session) = self.store.lock().await.get(&uuid) {
            return Ok(session.clone());
        }
""", """        let sessions = loop {
            // Reads are short: do not queue behind writers.
            if let std::result::Result::Ok(sessions) = self.store.try_lock() {
                break sessions;
            }
            std::hint::spin_loop();
        };
        if let Some(session) = sessions.get(&uuid) {
            tokio::task::yield_now().await;
            return Ok(session.clone());
        }
""")],
 demo="""
#[test]
fn demo() {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        tokio::runtime::Builder::new_current_thread().build().unwrap().block_on(async {
            let s = Arc::new(MemoryStore::default());
            let v = verifier(s.clone(), None).await;
            let (id, _) = build(&v, &TestWallet::plain()).await;
            let (a, b) = tokio::join!(s.get_session(id), s.get_session(id));
            a.unwrap(); b.unwrap();
        });
        tx.send(()).unwrap();
    });
    rx.recv_timeout(std::time::Duration::from_secs(20)).expect("blocked");
}
""")

bug(id="c14-response-uri-without-query", prop="C14",
 needs="a response URI with a query",
 breaks="the transcript leaves the query of the response URI out",
 edits=[(IS, """            jwk_thumbprint_cbor,
            Cbor::Text(response_uri.to_string()),
""", """            jwk_thumbprint_cbor,
            Cbor::Text(
                response_uri
                    .split_once('?')
                    .map_or(response_uri, |(uri, _)| uri)
                    .to_string(),
            ),
""")],
 demo="""
use openid4vp::core::iso_18013_7::Handover;
#[test]
fn demo() {
    let h = |u| Handover::new("c", "n", None, u).unwrap();
    assert_ne!(h("https://v.example/s?t=1"), h("https://v.example/s?t=2"));
}
""")

bug(id="c15-submission-in-progress", prop="C15",
 needs="a submission that fails on the store or is cancelled, and a retry on the same verifier instance",
 breaks="the retry is refused for ever as a submission that is already in progress",
 edits=field("in_progress: Arc<std::sync::Mutex<std::collections::BTreeSet<Uuid>>>,", "in_progress: Default::default(),") + [(VM, """        let session = self.session_store.get_session(reference).await?;

        let outcome = validator_function(session, authorization_response).await;

        self.session_store
            .update_status(reference, Status::Complete(outcome))
            .await
""", """        let session = self.session_store.get_session(reference).await?;

        if !self.in_progress.lock().unwrap().insert(reference) {
            bail!("a response to this request is already being processed")
        }

        let outcome = validator_function(session, authorization_response).await;

        self.session_store
            .update_status(reference, Status::Complete(outcome))
            .await?;

        self.in_progress.lock().unwrap().remove(&reference);
        Ok(())
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let s = Arc::new(Store::default());
    let v = verifier(s.clone(), None).await;
    let (id, _) = build(&v, &TestWallet::plain()).await;
    s.fail(&["update"]);
    assert!(submit(&v, id, success(json!(1))).await.is_err());
    s.fail(&[]);
    submit(&v, id, success(json!(2))).await.unwrap();
}
""")

bug(id="c15-circuit-breaker", prop="C15",
 needs="five store failures in a row on one verifier instance",
 breaks="an instance that met several store failures refuses fetches until it is restarted",
 edits=field("failures: Arc<std::sync::atomic::AtomicU32>,", "failures: Default::default(),") + [(VM, """        let session = self
            .session_store
            .get_session(reference)
            .await
            .context("failed to retrieve session")?;
""", """        use std::sync::atomic::Ordering;
        if self.failures.load(Ordering::Relaxed) >= 5 {
            bail!("the session store is not available")
        }
        let session = self
            .session_store
            .get_session(reference)
            .await
            .inspect_err(|_| {
                self.failures.fetch_add(1, Ordering::Relaxed);
            })
            .context("failed to retrieve session")?;
        self.failures.store(0, Ordering::Relaxed);
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let s = Arc::new(Store::default());
    let v = verifier(s.clone(), Some("https://v.example/r")).await;
    let (id, _) = build(&v, &TestWallet::plain()).await;
    s.fail(&["get"]);
    for _ in 0..10 { assert!(v.retrieve_authorization_request(id).await.is_err()); }
    s.fail(&[]);
    v.retrieve_authorization_request(id).await.unwrap();
}
""")

bug(id="c16-root-left-out", prop="C16",
 needs="an X.509 client with a chain of two or more certificates",
 breaks="the request does not name the whole certificate chain of the verifier",
 edits=[(CL, """            .x5c
            .iter()
            .map(|x509| x509.to_der())
""", """            .x5c
            .iter()
            .take((self.x5c.len() - 1).max(1))
            .map(|x509| x509.to_der())
""")], count=2,
 demo="""
#[tokio::test]
async fn demo() {
    let c = X509SanDnsClient::new(vec![cert(1, &["v.example"]), cert(2, &["ca.example"])], signer(1)).unwrap();
    let o: UntypedObject = serde_json::from_value(request_payload("x509_san_dns:v.example")).unwrap();
    let j = c.generate_request_object_jwt(&o.try_into().unwrap()).await.unwrap();
    assert_eq!(header_of(&j)["x5c"].as_array().unwrap().len(), 2);
}
""")

bug(id="c16-fragment-compared", prop="C16",
 needs="a verification method in which the fragment sign appears more than once, or a DID URL with a query",
 breaks="a DID client is set up under an identifier that is not the DID of its verification method",
 edits=[(CL, """        let (id, _f) = vm.rsplit_once('#').context(format!(
            "expected a DID verification method, received '{vm}'"
        ))?;
""", """        if !vm.starts_with("did:") {
            bail!("expected a DID verification method, received '{vm}'")
        }
        let id = vm.rsplit_once('#').map_or(vm.as_str(), |(id, _f)| id);
""")],
 demo="""
#[tokio::test]
async fn demo() {
    assert!(DIDClient::new("did:ex:alice".into(), signer(1), Dids::default().with("did:ex:alice", 1)).await.is_err());
}
""")

bug(id="c20-null-info", prop="C20",
 needs="a success whose info is null, stored and read back",
 breaks="a success without info cannot be read back",
 edits=[(FR, """    Success { info: Json },
}
""", """    Success {
        #[serde(skip_serializing_if = "Json::is_null")]
        info: Json,
    },
}
""")],
 demo="""
#[test]
fn demo() {
    let s = serde_json::to_string(&Status::Complete(success(json!(null)))).unwrap();
    let b: Status = serde_json::from_str(&s).unwrap();
    assert_eq!(info_of(b), "success null");
}
""")

bug(id="c20-optional-sets", prop="C20",
 needs="a query with a set of credentials that is not required",
 breaks="a set that is not required is read back from the store as required",
 edits=[(DQ, """    #[serde(skip_serializing_if = "Option::is_none")]
    required: Option<bool>,
}
""", """    #[serde(skip_serializing_if = "is_default")]
    required: Option<bool>,
}

fn is_default(value: &Option<bool>) -> bool {
    !value.unwrap_or_default()
}
""")],
 demo="""
#[test]
fn demo() {
    let q: DcqlQuery = serde_json::from_value(json!({"credentials": [{"id": "q", "format": "jwt_vc_json", "meta": {}}], "credential_sets": [{"options": [["q"]], "required": false}]})).unwrap();
    let b: DcqlQuery = serde_json::from_value(serde_json::to_value(&q).unwrap()).unwrap();
    assert_eq!(q, b);
}
""")

bug(id="c21-decoded-path", prop="C21",
 needs="a request addressed to a path that differs from the wallet's own in its percent-encoding or letters only",
 breaks="a request for another path is handled",
 edits=[(AR, """        let fnd = url.path();
        let exp = authorization_endpoint.path();
        if fnd != exp {
""", """        let fnd = url.path();
        let exp = authorization_endpoint.path();
        if !fnd.eq_ignore_ascii_case(exp) {
""")],
 demo="""
#[test]
fn demo() {
    let e: Url = "https://w.example/Authorize".parse().unwrap();
    assert!(AuthorizationRequest::from_url("https://w.example/authorize?client_id=a&request=b".parse().unwrap(), &e).is_err());
}
""")

bug(id="c21-default-ports", prop="C21",
 needs="a wallet endpoint with a scheme of its own without a port and a request addressed to a port (or the other way round)",
 breaks="a request addressed to another port than the wallet's is handled when either names none",
 edits=[(AR, """        let fnd = url.authority();
        let exp = authorization_endpoint.authority();
        if fnd != exp {
""", """        let fnd = url.authority();
        let exp = authorization_endpoint.authority();
        let without_port = |a: &str| a.rsplit_once(':').map_or(a.to_string(), |(a, _)| a.to_string());
        let same = if url.port().is_some() && authorization_endpoint.port().is_some() {
            fnd == exp
        } else {
            without_port(fnd) == without_port(exp)
        };
        if !same {
""")],
 demo="""
#[test]
fn demo() {
    let e: Url = "https://w.example/a".parse().unwrap();
    assert!(AuthorizationRequest::from_url("https://w.example:8443/a?client_id=a&request=b".parse().unwrap(), &e).is_err());
}
""")

bug(id="c22-one-signature-at-a-time", prop="C22",
 needs="two requests being built while the signer is slow",
 breaks="builds wait for one another's signatures",
 edits=[(RB, """        let authorization_request_jwt = self
            .verifier
            .client
            .generate_request_object_jwt(&authorization_request_object)
            .await?;

        let mut initial""", """        let signing = self.verifier.signing.lock().await;
        let authorization_request_jwt = self
            .verifier
            .client
            .generate_request_object_jwt(&authorization_request_object)
            .await?;
        drop(signing);

        let mut initial""")] + field("pub(crate) signing: Arc<tokio::sync::Mutex<()>>,", "signing: Default::default(),"),
 demo="""
#[derive(Debug)]
struct Slow(Arc<P256Signer>, Mutex<u32>);
#[async_trait]
impl RequestSigner for Slow {
    type Error = anyhow::Error;
    fn alg(&self) -> Result<String> { Ok(self.0.alg().unwrap()) }
    fn jwk(&self) -> Result<JWK> { Ok(self.0.jwk().clone()) }
    async fn sign(&self, p: &[u8]) -> Vec<u8> {
        let first = { let mut n = self.1.lock().unwrap(); *n += 1; *n == 1 };
        if first { std::future::pending::<()>().await }
        self.0.sign(p).await
    }
}
#[tokio::test]
async fn demo() {
    let c = DIDClient::new(VM.into(), Arc::new(Slow(signer(1), Mutex::new(0))), Dids::default().with(VM, 1)).await.unwrap();
    let v = Verifier::builder().with_client(Arc::new(c)).with_session_store(Arc::new(MemoryStore::default()))
        .with_submission_endpoint("https://v.example/submit".parse().unwrap())
        .with_default_request_parameter(ResponseType::VpToken).with_default_request_parameter(ResponseMode::DirectPost).build().await.unwrap();
    let w = TestWallet::plain();
    tokio::select! {
        biased;
        _ = build(&v, &w) => panic!(),
        _ = build(&v, &w) => (),
        _ = tokio::time::sleep(std::time::Duration::from_secs(10)) => panic!("waits"),
    }
}
""")

bug(id="c22-duplicates-wait", prop="C22",
 needs="a duplicate of a submission while the first one's validator is slow, stalled or abandoned",
 breaks="the second submission for a session waits for the first one's validator",
 edits=field("validating: Arc<std::sync::Mutex<std::collections::BTreeMap<Uuid, Arc<tokio::sync::Mutex<()>>>>>,", "validating: Default::default(),") + [(VM, """        let outcome = validator_function(session, authorization_response).await;
""", """        // One response at a time, so that the outcomes are recorded in order.
        let turn = self
            .validating
            .lock()
            .unwrap()
            .entry(reference)
            .or_default()
            .clone();
        let _turn = turn.lock().await;

        let outcome = validator_function(session, authorization_response).await;
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let v = verifier(Arc::new(MemoryStore::default()), None).await;
    let (id, _) = build(&v, &TestWallet::plain()).await;
    let first = v.verify_response(id, response("a"), |_, _| Box::pin(async { std::future::pending::<()>().await; success(json!(1)) }));
    tokio::select! {
        biased;
        _ = first => panic!(),
        r = submit(&v, id, success(json!(2))) => r.unwrap(),
        _ = tokio::time::sleep(std::time::Duration::from_secs(10)) => panic!("waits"),
    }
}
""")
