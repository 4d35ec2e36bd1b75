RB = "src/verifier/request_builder.rs"
VM = "src/verifier/mod.rs"
BUGS = []
def bug(**k): BUGS.append(k)

bug(id="c01-dcapi-store-error-swallowed", prop="C01",
 needs="a session store failure while a Digital Credentials API request is being built",
 breaks="build_dc_api hands out a signed request although its session was not stored",
 edits=[(RB, """        self.verifier
            .session_store
            .initiate(session)
            .await
            .context("failed to store the session in the session store")?;

        Ok((uuid, authorization_request_jwt))
""", """        if let Err(e) = self.verifier.session_store.initiate(session).await {
            // The request can be presented again if the session is needed later.
            tracing::warn!("failed to store the session in the session store: {e:?}");
        }

        Ok((uuid, authorization_request_jwt))
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let store = Arc::new(Store::default());
    let v = verifier(store.clone(), None).await;
    store.fail(&["initiate"]);
    let r = v
        .build_authorization_request()
        .with_dcql_query(query("q"))
        .with_request_parameter(Nonce::from("n-1"))
        .with_request_parameter(ResponseMode::DcApi)
        .build_dc_api()
        .await;
    assert!(r.is_err(), "handed out a request whose session was not stored");
}
""")

bug(id="c01-stored-jwt-signed-again", prop="C01",
 needs="a signer whose signatures are randomised (hardware modules), request passed by value",
 breaks="the session holds a different signed request than the one that was handed out",
 edits=[(RB, """            ByReference::False => RequestIndirection::ByValue {
                request: authorization_request_jwt.clone(),
            },
""", """            ByReference::False => RequestIndirection::ByValue {
                request: self
                    .verifier
                    .client
                    .generate_request_object_jwt(&authorization_request_object)
                    .await?,
            },
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let store = Arc::new(Store::default());
    let client = DIDClient::new(VM.into(), random_signer(1), Dids::default().with(VM, 1)).await.unwrap();
    let v = Verifier::builder()
        .with_client(Arc::new(client))
        .with_session_store(store.clone())
        .with_submission_endpoint("https://v.example/submit".parse().unwrap())
        .with_default_request_parameter(ResponseType::VpToken)
        .with_default_request_parameter(ResponseMode::DirectPost)
        .build()
        .await
        .unwrap();
    let (id, url) = build(&v, &TestWallet::plain()).await;
    let handed = url.query_pairs().find(|(k, _)| k == "request").unwrap().1.to_string();
    assert_eq!(store.get_session(id).await.unwrap().authorization_request_jwt, handed);
}
""")

bug(id="c02-received-response-status", prop="C02",
 needs="a second submission (duplicate or retry) for a session that is already complete, and a poll while its validator runs or a crash during it",
 breaks="a complete session is reported as only 'response received' again",
 edits=[(VM, """        let session = self.session_store.get_session(reference).await?;

        let outcome = validator_function(session, authorization_response).await;
""", """        let session = self.session_store.get_session(reference).await?;

        // Let the frontend know that the response is being processed.
        self.session_store
            .update_status(reference, Status::ReceivedResponse)
            .await?;

        let outcome = validator_function(session, authorization_response).await;
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let store = Arc::new(MemoryStore::default());
    let v = verifier(store, None).await;
    let (id, _) = build(&v, &TestWallet::plain()).await;
    submit(&v, id, success(json!(1))).await.unwrap();
    let v2 = v.clone();
    let seen = Arc::new(Mutex::new(String::new()));
    let seen2 = seen.clone();
    v.verify_response(id, response("again"), move |_, _| {
        Box::pin(async move {
            *seen2.lock().unwrap() = info_of(v2.poll_status(id).await.unwrap());
            success(json!(2))
        })
    })
    .await
    .unwrap();
    assert_eq!(*seen.lock().unwrap(), "success 1", "a complete session went back");
}
""")

bug(id="c03-same-kind-not-recorded", prop="C03",
 needs="two submissions for one session whose outcomes are of the same kind but differ in content",
 breaks="the second outcome is acknowledged but never recorded (Outcome equality only compares the kind)",
 edits=[(VM, """        let outcome = validator_function(session, authorization_response).await;

""", """        let previous = session.status.clone();
        let outcome = validator_function(session, authorization_response).await;

        // Nothing to write when a retried submission comes to the same outcome.
        if previous == Status::Complete(outcome.clone()) {
            return Ok(());
        }

""")],
 demo="""
#[tokio::test]
async fn demo() {
    let v = verifier(Arc::new(MemoryStore::default()), None).await;
    let (id, _) = build(&v, &TestWallet::plain()).await;
    submit(&v, id, success(json!("first"))).await.unwrap();
    submit(&v, id, success(json!("second"))).await.unwrap();
    assert_eq!(info_of(v.poll_status(id).await.unwrap()), "success \\"second\\"");
}
""")

bug(id="c03-error-outcome-not-recorded", prop="C03",
 needs="a validator that returns an error outcome",
 breaks="an error outcome is returned to the wallet but never recorded, so polls never see it",
 edits=[(VM, """        let outcome = validator_function(session, authorization_response).await;

""", """        let outcome = validator_function(session, authorization_response).await;

        if let Outcome::Error { cause } = &outcome {
            // Leave the session open so that the wallet can try again.
            bail!("failed to process the authorization response: {cause}")
        }

""")],
 demo="""
#[tokio::test]
async fn demo() {
    let v = verifier(Arc::new(MemoryStore::default()), None).await;
    let (id, _) = build(&v, &TestWallet::plain()).await;
    let _ = submit(&v, id, Outcome::Error { cause: "boom".into() }).await;
    assert_eq!(info_of(v.poll_status(id).await.unwrap()), "error boom");
}
""")

bug(id="c04-resigned-on-fetch", prop="C04",
 needs="a signer with randomised signatures (or a rotated key) and a fetch by reference",
 breaks="a fetch returns a newly signed request instead of the one that was built and stored",
 edits=[(VM, """        Ok(session.authorization_request_jwt)
""", """        // Sign afresh, so that the request verifies under the verifier's current key.
        self.client
            .generate_request_object_jwt(&session.authorization_request_object)
            .await
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let store = Arc::new(Store::default());
    let client = DIDClient::new(VM.into(), random_signer(1), Dids::default().with(VM, 1)).await.unwrap();
    let v = Verifier::builder()
        .with_client(Arc::new(client))
        .with_session_store(store.clone())
        .with_submission_endpoint("https://v.example/submit".parse().unwrap())
        .with_default_request_parameter(ResponseType::VpToken)
        .with_default_request_parameter(ResponseMode::DirectPost)
        .by_reference("https://v.example/req".parse().unwrap())
        .build()
        .await
        .unwrap();
    let (id, _) = build(&v, &TestWallet::plain()).await;
    let stored = store.get_session(id).await.unwrap().authorization_request_jwt;
    assert_eq!(v.retrieve_authorization_request(id).await.unwrap(), stored);
    assert_eq!(v.retrieve_authorization_request(id).await.unwrap(), stored);
}
""")

bug(id="c04-single-use-request", prop="C04",
 needs="a fetch that is repeated after the session completed (a retried or duplicated GET that arrives late)",
 breaks="fetching a request of a completed session fails",
 edits=[(VM, """        if session.status < Status::SentRequest {
""", """        if matches!(session.status, Status::Complete(_)) {
            bail!("the presentation is already complete")
        }
        if session.status < Status::SentRequest {
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let v = verifier(Arc::new(MemoryStore::default()), Some("https://v.example/req")).await;
    let (id, _) = build(&v, &TestWallet::plain()).await;
    let a = v.retrieve_authorization_request(id).await.unwrap();
    submit(&v, id, success(json!(1))).await.unwrap();
    assert_eq!(v.retrieve_authorization_request(id).await.unwrap(), a);
}
""")

bug(id="c05-clock-session-ids", prop="C05",
 needs="two requests built within the same clock tick, on one or on two verifier instances",
 breaks="session ids collide, so that one session replaces another one",
 edits=[(RB, """    pub async fn build(self, wallet_metadata: WalletMetadata) -> Result<(Uuid, Url)> {
        let uuid = Uuid::new_v4();
""", """    pub async fn build(self, wallet_metadata: WalletMetadata) -> Result<(Uuid, Url)> {
        // Time-ordered ids keep the index of the session store compact.
        let now = std::time::SystemTime::now()
            .duration_since(std::time::UNIX_EPOCH)
            .context("clock is before 1970")?;
        let uuid = Uuid::from_u64_pair(now.as_secs() as u64, 0x8000_0000_0000_0000);
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let v = verifier(Arc::new(MemoryStore::default()), None).await;
    let w = TestWallet::plain();
    let mut ids = std::collections::BTreeSet::new();
    for _ in 0..200 {
        assert!(ids.insert(build(&v, &w).await.0), "session id used twice");
    }
}
""")

bug(id="c05-endpoint-query-dropped", prop="C05",
 needs="a submission endpoint configured with a query (such as a tenant)",
 breaks="the response goes to a place that is not the configured endpoint extended with the session id",
 edits=[(RB, """                self.request_parameters.insert(ResponseUri(uri));
            }
            ResponseMode::DcApi | ResponseMode::DcApiJwt => {}
            ResponseMode::Unsupported(r) => bail!("unsupported response_mode: {r}"),
        }

        if !wallet_metadata
""", """                // Queries are for the wallet's own parameters.
                uri.set_query(None);
                self.request_parameters.insert(ResponseUri(uri));
            }
            ResponseMode::DcApi | ResponseMode::DcApiJwt => {}
            ResponseMode::Unsupported(r) => bail!("unsupported response_mode: {r}"),
        }

        if !wallet_metadata
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let store = Arc::new(Store::default());
    let v = Verifier::builder()
        .with_client(did_client(1).await)
        .with_session_store(store.clone())
        .with_submission_endpoint("https://v.example/submit?tenant=a".parse().unwrap())
        .with_default_request_parameter(ResponseType::VpToken)
        .with_default_request_parameter(ResponseMode::DirectPost)
        .build()
        .await
        .unwrap();
    let (id, _) = build(&v, &TestWallet::plain()).await;
    let s = store.get_session(id).await.unwrap();
    assert_eq!(
        s.authorization_request_object.return_uri().as_str(),
        format!("https://v.example/submit/{id}?tenant=a")
    );
}
""")

DID = "src/core/authorization_request/verification/did.rs"
SAN = "src/core/authorization_request/verification/x509_san.rs"
HASH = "src/core/authorization_request/verification/x509_hash.rs"
VER = "src/core/authorization_request/verification/mod.rs"
AR = "src/core/authorization_request/mod.rs"

bug(id="c06-did-prefix-match", prop="C06",
 needs="an attacker whose DID extends the named verifier's DID, e.g. did:ex:alice.evil",
 breaks="a request that names did:ex:alice is accepted when signed by did:ex:alice.evil",
 edits=[(DID, "    if client_id_did != did {\n", "    if !did.starts_with(client_id_did) {\n")],
 demo="""
#[tokio::test]
async fn demo() {
    let evil = "did:ex:alice.evil#k1";
    let w = TestWallet::plain().dids(Dids::default().with(VM, 1).with(evil, 9));
    let id = "decentralized_identifier:did:ex:alice";
    let good = jwt(json!({"alg": "ES256", "kid": VM, "typ": TYP}), &request_payload(id), 1);
    w.validate_request(url_by_value(id, &good)).await.expect("an honest request");
    let bad = jwt(json!({"alg": "ES256", "kid": evil, "typ": TYP}), &request_payload(id), 9);
    assert!(w.validate_request(url_by_value(id, &bad)).await.is_err(), "accepted a request signed by another DID");
}
""")

bug(id="c06-empty-trust-list", prop="C06",
 needs="a wallet whose list of trusted DIDs is empty",
 breaks="an empty trust list lets every DID through",
 edits=[(DID, "        if !dids.iter().any(|trusted_did| trusted_did == did) {\n",
 "        if !dids.is_empty() && !dids.iter().any(|trusted_did| trusted_did == did) {\n")],
 demo="""
#[tokio::test]
async fn demo() {
    let mut w = TestWallet::plain().dids(Dids::default().with(VM, 1));
    let id = "decentralized_identifier:did:ex:alice";
    let good = jwt(json!({"alg": "ES256", "kid": VM, "typ": TYP}), &request_payload(id), 1);
    w.trusted = Some(vec!["did:ex:alice".into()]);
    w.validate_request(url_by_value(id, &good)).await.expect("a trusted DID");
    w.trusted = Some(vec![]);
    assert!(w.validate_request(url_by_value(id, &good)).await.is_err(), "accepted a DID that is not on the list");
}
""")

bug(id="c06-san-anywhere-in-chain", prop="C06",
 needs="a certificate chain whose second certificate carries the named DNS name",
 breaks="an attacker appends the victim's certificate to his own chain and signs with his own key",
 edits=[(SAN, """    if !leaf_cert
        .tbs_certificate
        .filter::<SubjectAltName>()
        .filter_map(|r| match r {
""", """    // Some verifiers send the certificate that names them behind a short-lived one.
    let chain: Vec<Certificate> = x5chain
        .iter()
        .filter_map(|c| c.as_str())
        .filter_map(|c| BASE64_STANDARD_NO_PAD.decode(c.trim_end_matches('=')).ok())
        .filter_map(|der| Certificate::from_der(&der).ok())
        .collect();

    if !chain
        .iter()
        .flat_map(|cert| cert.tbs_certificate.filter::<SubjectAltName>())
        .filter_map(|r| match r {
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let w = TestWallet::plain();
    let id = "x509_san_dns:bank.example";
    let bank = cert(1, &["bank.example"]);
    let evil = cert(9, &["evil.example"]);
    let good = jwt(json!({"alg": "ES256", "x5c": x5c(&[bank.clone()]), "typ": TYP}), &request_payload(id), 1);
    w.validate_request(url_by_value(id, &good)).await.expect("an honest request");
    let bad = jwt(json!({"alg": "ES256", "x5c": x5c(&[evil, bank]), "typ": TYP}), &request_payload(id), 9);
    assert!(w.validate_request(url_by_value(id, &bad)).await.is_err(), "accepted the attacker's signature");
}
""")

bug(id="c06-wildcard-san", prop="C06",
 needs="a certificate with a wildcard DNS name that covers the named host",
 breaks="a request that names bank.example.com is accepted from the holder of a *.example.com certificate",
 edits=[(SAN, "            dns == client_id_source\n",
 """            dns == client_id_source
                || dns
                    .strip_prefix('*')
                    .is_some_and(|suffix| client_id_source.ends_with(suffix))
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let w = TestWallet::plain();
    let id = "x509_san_dns:bank.example.com";
    let bad = jwt(
        json!({"alg": "ES256", "x5c": x5c(&[cert(9, &["*.example.com"])]), "typ": TYP}),
        &request_payload(id),
        9,
    );
    assert!(w.validate_request(url_by_value(id, &bad)).await.is_err(), "accepted a wildcard name");
}
""")

bug(id="c07-prefix-case", prop="C07",
 needs="a client identifier whose prefix differs from a supported one only in case",
 breaks="a prefix the wallet does not list is accepted and sent to the check of another one",
 edits=[("src/core/authorization_request/parameters.rs", "                .map(|s| ClientIdScheme(s.to_string()))\n",
 "                .map(|s| ClientIdScheme(s.to_ascii_lowercase()))\n")],
 demo="""
#[tokio::test]
async fn demo() {
    let w = TestWallet::plain();
    let id = "Redirect_URI:https://v.example/cb";
    let j = jwt(json!({"alg": "ES256", "typ": TYP}), &request_payload(id), 9);
    assert!(w.validate_request(url_by_value(id, &j)).await.is_err(), "accepted an unsupported prefix");
    assert_eq!(w.calls(), Vec::<String>::new());
}
""")

bug(id="c07-outer-id-compared-loosely", prop="C07",
 needs="an outer client identifier that differs from the signed one in its prefix only",
 breaks="a request whose outer and inner client identifiers differ is accepted",
 edits=[(AR, "            if x != y {\n", "            if !y.ends_with(&x) {\n")],
 demo="""
#[tokio::test]
async fn demo() {
    let w = TestWallet::plain().dids(Dids::default().with(VM, 1));
    let id = "decentralized_identifier:did:ex:alice";
    let j = jwt(json!({"alg": "ES256", "kid": VM, "typ": TYP}), &request_payload(id), 1);
    w.validate_request(url_by_value(id, &j)).await.expect("an honest request");
    assert!(w.validate_request(url_by_value("did:ex:alice", &j)).await.is_err(), "client ids differ");
}
""")

bug(id="c08-redirect-status-accepted", prop="C08",
 needs="a 3xx answer with a request object as its body",
 breaks="a request that was not fetched with a success status is accepted",
 edits=[(AR, "                if !status.is_success() {\n", "                if status.is_client_error() || status.is_server_error() {\n")],
 demo="""
#[tokio::test]
async fn demo() {
    let id = "decentralized_identifier:did:ex:alice";
    let j = jwt(json!({"alg": "ES256", "kid": VM, "typ": TYP}), &request_payload(id), 1);
    for status in [300u16, 302, 304] {
        let j = j.clone();
        let w = TestWallet::new(Http::new(move |_| answer(status, j.clone())), json!({}))
            .dids(Dids::default().with(VM, 1));
        assert!(
            w.validate_request(url_by_reference(id, "https://v.example/req/1")).await.is_err(),
            "accepted with status {status}"
        );
    }
}
""")

bug(id="c08-retry-on-transport-error", prop="C08",
 needs="a transport error on the first GET",
 breaks="the wallet fetches a request twice",
 edits=[(AR, """                let response = http_client.execute(request).await.context(format!(
                    "failed to make authorization request request at {url}"
                ))?;
""", """                let response = match http_client.execute(request.clone()).await {
                    Ok(response) => response,
                    // The connection may have been stale: try once more.
                    Err(_) => http_client.execute(request).await.context(format!(
                        "failed to make authorization request request at {url}"
                    ))?,
                };
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let w = TestWallet::new(Http::none(), json!({}));
    let id = "decentralized_identifier:did:ex:alice";
    assert!(w.validate_request(url_by_reference(id, "https://v.example/req/1")).await.is_err());
    assert_eq!(w.http.count(), 1, "more than one GET");
}
""")

W = "src/wallet.rs"
bug(id="c09-retry-post", prop="C09",
 needs="a server error answered to the submission",
 breaks="the response is posted twice",
 edits=[(W, """        let http_response = self
            .http_client()
            .execute(http_request)
            .await
            .context("failed to make authorization response request")?;
""", """        let mut http_response = self
            .http_client()
            .execute(http_request.clone())
            .await
            .context("failed to make authorization response request")?;
        if http_response.status() == http::StatusCode::SERVICE_UNAVAILABLE {
            http_response = self
                .http_client()
                .execute(http_request)
                .await
                .context("failed to make authorization response request")?;
        }
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let w = TestWallet::new(Http::new(|_| answer(503, "busy")), json!({}));
    let mut o: UntypedObject = serde_json::from_value(request_payload("x")).unwrap();
    let _ = o.insert(ResponseMode::DirectPost);
    let r: AuthorizationRequestObject = o.try_into().unwrap();
    assert!(w.submit_response(r, response("vp")).await.is_err());
    assert_eq!(w.http.count(), 1, "posted more than once");
}
""")

bug(id="c09-bad-redirect-ignored", prop="C09",
 needs="a verifier that answers with a redirect URI that is not a URL",
 breaks="an answer with an invalid redirect URI is reported as a success without redirect",
 edits=[(W, """            .map(Url::parse)
            .transpose()
            .context("invalid redirect_uri in verifier response")?;
""", """            .and_then(|uri| Url::parse(uri).ok());
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let w = TestWallet::new(Http::new(|_| answer(200, r#"{"redirect_uri": "not a url"}"#)), json!({}));
    let o: UntypedObject = serde_json::from_value(request_payload("x")).unwrap();
    let r: AuthorizationRequestObject = o.try_into().unwrap();
    assert!(w.submit_response(r, response("vp")).await.is_err(), "invalid redirect_uri reported as success");
}
""")

RESP = "src/core/response/mod.rs"
bug(id="c10-empty-state-dropped", prop="C10",
 needs="a request with an empty state",
 breaks="the verifier sees no state although the wallet sent an empty one",
 edits=[(RESP, "        let state: Option<State> = unencoded.state.map(State).or(None);\n",
 "        let state: Option<State> = unencoded.state.filter(|s| !s.is_empty()).map(State);\n")],
 demo="""
#[test]
fn demo() {
    let r = UnencodedAuthorizationResponse::with_state(VpToken::with_credential("q", vec![]), State(String::new()));
    let body = r.into_x_www_form_urlencoded().unwrap();
    let AuthorizationResponse::Unencoded(u) =
        AuthorizationResponse::from_x_www_form_urlencoded(body.as_bytes()).unwrap()
    else {
        panic!()
    };
    assert_eq!(u.state.map(|s| s.0), Some(String::new()));
}
""")

bug(id="c10-plus-in-body", prop="C10",
 needs="presentations or state with a space in them",
 breaks="spaces in what the wallet sends arrive as plus signs",
 edits=[(RESP, """        // Try JWT response first (for direct_post.jwt mode)
        if let Ok(jwt)""", """        // Presentations are base64, in which a '+' is no space.
        let bytes = &bytes
            .iter()
            .flat_map(|b| match b {
                b'+' => b"%2B".to_vec(),
                b => vec![*b],
            })
            .collect::<Vec<u8>>()[..];

        // Try JWT response first (for direct_post.jwt mode)
        if let Ok(jwt)""")],
 demo="""
#[test]
fn demo() {
    let r = UnencodedAuthorizationResponse::with_state(
        VpToken::with_credential("q", vec![VpTokenItem::String("a b+c".into())]),
        State("x y".into()),
    );
    let body = r.clone().into_x_www_form_urlencoded().unwrap();
    let AuthorizationResponse::Unencoded(u) =
        AuthorizationResponse::from_x_www_form_urlencoded(body.as_bytes()).unwrap()
    else {
        panic!()
    };
    assert_eq!(u.vp_token, r.vp_token);
    assert_eq!(u.state.map(|s| s.0), r.state.map(|s| s.0));
}
""")

bug(id="c11-own-response-uri-kept", prop="C11",
 needs="a response URI among the parameters of the request or the verifier's defaults",
 breaks="the response URI is not the verifier's own submission endpoint for that session",
 edits=[(RB, """                self.request_parameters.insert(ResponseUri(uri));
            }
            ResponseMode::DcApi | ResponseMode::DcApiJwt => {}
            ResponseMode::Unsupported(r) => bail!("unsupported response_mode: {r}"),
        }

        if !wallet_metadata
""", """                if self.request_parameters.get::<ResponseUri>().is_none() {
                    self.request_parameters.insert(ResponseUri(uri));
                }
            }
            ResponseMode::DcApi | ResponseMode::DcApiJwt => {}
            ResponseMode::Unsupported(r) => bail!("unsupported response_mode: {r}"),
        }

        if !wallet_metadata
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let store = Arc::new(Store::default());
    let v = verifier(store.clone(), None).await;
    let (id, _) = v
        .build_authorization_request()
        .with_dcql_query(query("q"))
        .with_request_parameter(Nonce::from("n-1"))
        .with_request_parameter(ResponseUri("https://elsewhere.example/".parse().unwrap()))
        .build(TestWallet::plain().metadata)
        .await
        .unwrap();
    let s = store.get_session(id).await.unwrap();
    assert_eq!(s.authorization_request_object.return_uri().as_str(), format!("https://v.example/submit/{id}"));
}
""")

bug(id="c12-use-optional", prop="C12",
 needs="client metadata whose only key with an algorithm has no 'use'",
 breaks="an encrypted response is agreed although no key is marked for encryption",
 edits=[(VER, """                    .map(|s| s == "enc")
                    .unwrap_or(false)
""", """                    .map(|s| s == "enc")
                    .unwrap_or(true)
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let w = TestWallet::plain().dids(Dids::default().with(VM, 1));
    let id = "decentralized_identifier:did:ex:alice";
    let mut p = request_payload(id);
    p["response_mode"] = json!("direct_post.jwt");
    p["client_metadata"] = json!({"jwks": {"keys": [{"kty": "EC", "crv": "P-256", "x": "x", "y": "y", "alg": "ECDH-ES"}]}});
    let j = jwt(json!({"alg": "ES256", "kid": VM, "typ": TYP}), &p, 1);
    assert!(w.validate_request(url_by_value(id, &j)).await.is_err(), "no key is marked for encryption");
}
""")

bug(id="c12-enc-default-forgotten", prop="C12",
 needs="an encrypted response asked for without explicit content encryption algorithms by a verifier, and a wallet that does not support A128GCM",
 breaks="the default A128GCM is not checked against what the wallet supports",
 edits=[(VER, """            let has_supported_enc = enc_values.0.iter().any(|enc| supported.0.contains(enc));
""", """            let has_supported_enc = enc_values.0.iter().any(|enc| supported.0.contains(enc))
                || client_metadata
                    .get::<EncryptedResponseEncValuesSupported>()
                    .is_none();
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let w = TestWallet::new(Http::none(), json!({"authorization_encryption_enc_values_supported": ["A256GCM"]}))
        .dids(Dids::default().with(VM, 1));
    let id = "decentralized_identifier:did:ex:alice";
    let mut p = request_payload(id);
    p["response_mode"] = json!("direct_post.jwt");
    p["client_metadata"] = json!({"jwks": {"keys": [{"kty": "EC", "crv": "P-256", "x": "x", "y": "y", "use": "enc", "alg": "ECDH-ES"}]}});
    let j = jwt(json!({"alg": "ES256", "kid": VM, "typ": TYP}), &p, 1);
    assert!(w.validate_request(url_by_value(id, &j)).await.is_err(), "A128GCM is not supported");
}
""")

SES = "src/verifier/session.rs"
bug(id="c13-stale-read-cache", prop="C13",
 needs="two threads: a read between an update's invalidation of the cache and its write",
 breaks="reads return an old session after a later update has returned, or a session that was removed",
 edits=[(SES, """    store: Arc<Mutex<BTreeMap<Uuid, Session>>>,
}
""", """    store: Arc<Mutex<BTreeMap<Uuid, Session>>>,
    /// The session that was read last: frontends poll the same one again and again.
    recent: Arc<std::sync::Mutex<Option<Session>>>,
}

impl MemoryStore {
    fn forget(&self) {
        self.recent.lock().unwrap().take();
    }
}
"""),
 (SES, """impl SessionStore for MemoryStore {
    async fn initiate(&self, session: Session) -> Result<()> {
""", """impl SessionStore for MemoryStore {
    async fn initiate(&self, session: Session) -> Result<()> {
        self.forget();
"""),
 (SES, """    async fn update_status(&self, uuid: Uuid, status: Status) -> Result<()> {
        if let""", """    async fn update_status(&self, uuid: Uuid, status: Status) -> Result<()> {
        self.forget();
        if let"""),
 (SES, """    async fn advance_status(&self, uuid: Uuid, status: Status) -> Result<()> {
        if let""", """    async fn advance_status(&self, uuid: Uuid, status: Status) -> Result<()> {
        self.forget();
        if let"""),
 (SES, """    async fn get_session(&self, uuid: Uuid) -> Result<Session> {
        if let""", """    async fn get_session(&self, uuid: Uuid) -> Result<Session> {
        if let Some(session) = self.recent.lock().unwrap().as_ref() {
            if session.uuid == uuid {
                return Ok(session.clone());
            }
        }
        if let"""),
 (SES, """            return Ok(session.clone());
        }

        bail!""", """            self.recent.lock().unwrap().replace(session.clone());
            return Ok(session.clone());
        }

        bail!"""),
 (SES, """    async fn remove_session(&self, uuid: Uuid) -> Result<()> {
        if""", """    async fn remove_session(&self, uuid: Uuid) -> Result<()> {
        self.forget();
        if"""),
 ],
 demo="""
use std::sync::atomic::{AtomicBool, Ordering};
#[test]
fn demo() {
    let rt = || tokio::runtime::Builder::new_current_thread().build().unwrap();
    let store = MemoryStore::default();
    let (template, id) = rt().block_on(async {
        let v = verifier(Arc::new(store.clone()), None).await;
        let (id, _) = build(&v, &TestWallet::plain()).await;
        (store.get_session(id).await.unwrap(), id)
    });
    let stop = Arc::new(AtomicBool::new(false));
    let readers: Vec<_> = (0..3)
        .map(|_| {
            let (s, stop) = (store.clone(), stop.clone());
            std::thread::spawn(move || {
                rt().block_on(async {
                    while !stop.load(Ordering::Relaxed) {
                        let _ = s.get_session(id).await;
                    }
                })
            })
        })
        .collect();
    let end = std::time::Instant::now() + std::time::Duration::from_secs(20);
    let mut stale = false;
    rt().block_on(async {
        while std::time::Instant::now() < end && !stale {
            store.remove_session(id).await.unwrap();
            stale |= store.get_session(id).await.is_ok();
            store.initiate(template.clone()).await.unwrap();
        }
    });
    stop.store(true, Ordering::Relaxed);
    for w in readers {
        w.join().unwrap();
    }
    assert!(!stale, "a removed session was read");
}
""")

ISO = "src/core/iso_18013_7/mod.rs"
bug(id="c14-thumbprint-needs-use", prop="C14",
 needs="client metadata whose first usable key has no 'use' member",
 breaks="the transcript leaves out the thumbprint of the key that the specification puts into it",
 edits=[(ISO, """                    .map(|u| u == "enc")
                    .unwrap_or(true);
""", """                    .is_some_and(|u| u == "enc");
""")],
 demo="""
#[test]
fn demo() {
    use openid4vp::core::iso_18013_7::{compute_jwk_thumbprint, get_encryption_jwk_thumbprint};
    let key = json!({"kty": "EC", "crv": "P-256", "x": "x", "y": "y"});
    let mut p = request_payload("x");
    p["client_metadata"] = json!({"jwks": {"keys": [key]}});
    let o: UntypedObject = serde_json::from_value(p).unwrap();
    let r: AuthorizationRequestObject = o.try_into().unwrap();
    assert_eq!(get_encryption_jwk_thumbprint(&r), Some(compute_jwk_thumbprint(&key).unwrap()));
}
""")

bug(id="c14-rsa-thumbprint-order", prop="C14",
 needs="an RSA encryption key",
 breaks="the thumbprint of an RSA key is not the RFC 7638 one",
 edits=[(ISO, """            format!(r#"{{"e":"{}","kty":"RSA","n":"{}"}}"#, e, n)
""", """            format!(r#"{{"kty":"RSA","e":"{}","n":"{}"}}"#, e, n)
""")],
 demo="""
#[test]
fn demo() {
    use sha2::Digest;
    let t = openid4vp::core::iso_18013_7::compute_jwk_thumbprint(&json!({"kty": "RSA", "e": "AQAB", "n": "abc"})).unwrap();
    let want: [u8; 32] = sha2::Sha256::digest(br#"{"e":"AQAB","kty":"RSA","n":"abc"}"#).into();
    assert_eq!(t, want);
}
""")

bug(id="c15-removed-on-write-error", prop="C15",
 needs="a store failure while the outcome of a submission is being recorded, then a retry",
 breaks="a session whose outcome could not be written once is removed, so the presentation can never complete",
 edits=[(VM, """        self.session_store
            .update_status(reference, Status::Complete(outcome))
            .await
    }
""", """        let recorded = self
            .session_store
            .update_status(reference, Status::Complete(outcome))
            .await;
        if recorded.is_err() {
            // Do not leave a half-processed session behind.
            let _ = self.session_store.remove_session(reference).await;
        }
        recorded
    }
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let store = Arc::new(Store::default());
    let v = verifier(store.clone(), None).await;
    let (id, _) = build(&v, &TestWallet::plain()).await;
    store.fail(&["update"]);
    assert!(submit(&v, id, success(json!(1))).await.is_err(), "the store failed");
    store.fail(&[]);
    submit(&v, id, success(json!(1))).await.expect("a retry after the store recovered");
    assert_eq!(info_of(v.poll_status(id).await.unwrap()), "success 1");
}
""")

CL = "src/verifier/client.rs"
bug(id="c16-last-dns-name", prop="C16",
 needs="a certificate with several DNS names",
 breaks="the X.509 client takes its identifier from the last DNS name, not the first",
 edits=[(CL, """            .next()
        {
            san
""", """            .last()
        {
            san
""")],
 demo="""
#[test]
fn demo() {
    let c = X509SanDnsClient::new(vec![cert(1, &["a.example", "b.example"])], signer(1)).unwrap();
    assert_eq!(c.id().0, "x509_san_dns:a.example");
}
""")

bug(id="c16-chain-reversed", prop="C16",
 needs="an X.509 hash client with a chain of two or more certificates",
 breaks="the chain is emitted root first, so that the first certificate is not the signer's",
 edits=[(CL, """        let x5c: Vec<String> = self
            .x5c
            .iter()
            .map(|x509| x509.to_der())
            .map(|der| Ok(BASE64_STANDARD.encode(der?)))
            .collect::<Result<_>>()?;
        let header = json!({
            "alg": algorithm,
            "x5c": x5c,
            "typ": "oauth-authz-req+jwt"
        });
        make_jwt(header, body, self.signer.as_ref()).await
    }
}

async fn make_jwt""", """        let x5c: Vec<String> = self
            .x5c
            .iter()
            .rev()
            .map(|x509| x509.to_der())
            .map(|der| Ok(BASE64_STANDARD.encode(der?)))
            .collect::<Result<_>>()?;
        let header = json!({
            "alg": algorithm,
            "x5c": x5c,
            "typ": "oauth-authz-req+jwt"
        });
        make_jwt(header, body, self.signer.as_ref()).await
    }
}

async fn make_jwt""")],
 demo="""
#[tokio::test]
async fn demo() {
    let (leaf, root) = (cert(1, &["a.example"]), cert(2, &["root.example"]));
    let c = X509HashClient::new(vec![leaf.clone(), root.clone()], signer(1)).unwrap();
    let o: UntypedObject = serde_json::from_value(request_payload(&c.id().0)).unwrap();
    let j = c.generate_request_object_jwt(&o.try_into().unwrap()).await.unwrap();
    assert_eq!(header_of(&j)["x5c"], x5c(&[leaf, root]));
}
""")
