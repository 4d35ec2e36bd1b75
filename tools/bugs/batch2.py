RB = "src/verifier/request_builder.rs"
VM = "src/verifier/mod.rs"
SE = "src/verifier/session.rs"
CL = "src/verifier/client.rs"
AR = "src/core/authorization_request/mod.rs"
VE = "src/core/authorization_request/verification/mod.rs"
DI = "src/core/authorization_request/verification/did.rs"
SA = "src/core/authorization_request/verification/x509_san.rs"
HA = "src/core/authorization_request/verification/x509_hash.rs"
PA = "src/core/authorization_request/parameters.rs"
WA = "src/wallet.rs"
RE = "src/core/response/mod.rs"
DC = "src/core/dcql_query.rs"
FR = "openid4vp-frontend/src/lib.rs"
IS = "src/core/iso_18013_7/mod.rs"
OB = "src/core/object/mod.rs"
BUGS = []
def bug(**k): BUGS.append(k)

bug(id="c01-stored-before-reference", prop="C01",
 needs="a verifier that passes requests by reference at a URL that cannot be extended (mailto:, urn:): the build fails late",
 breaks="a failed build leaves a session behind",
 edits=[(RB, """        let mut initial_status = Status::SentRequest;

""", """        // Persist first: nothing may be handed out that is not stored.
        let initial_status = match self.verifier.pass_by_reference {
            ByReference::False => Status::SentRequest,
            ByReference::True { .. } => Status::SentRequestByReference,
        };
        self.verifier
            .session_store
            .initiate(Session {
                uuid,
                status: initial_status,
                authorization_request_jwt: authorization_request_jwt.clone(),
                authorization_request_object,
                dcql_query,
            })
            .await
            .context("failed to store the session in the session store")?;

"""), (RB, """                initial_status = Status::SentRequestByReference;
                RequestIndirection""", """                RequestIndirection"""),
 (RB, """        let session = Session {
            uuid,
            status: initial_status,
            authorization_request_jwt,
            authorization_request_object,
            dcql_query,
        };

        self.verifier
            .session_store
            .initiate(session)
            .await
            .context("failed to store the session in the session store")?;

        Ok(authorization_request_url)
""", """        Ok(authorization_request_url)
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let store = Arc::new(Store::default());
    let v = verifier(store.clone(), Some("urn:example:requests")).await;
    let id = Uuid::new_v4();
    let r = v
        .build_authorization_request()
        .with_dcql_query(query("q"))
        .with_request_parameter(Nonce::from("n-1"))
        .build_with_session_id(id, TestWallet::plain().metadata.clone())
        .await;
    assert!(r.is_err());
    assert!(store.get_session(id).await.is_err(), "a failed build left a session behind");
}
""")

bug(id="c02-error-outcome-ordered-first", prop="C02",
 needs="a session completed with an error outcome, then a late fetch of its request by reference",
 breaks="an errored session compares as earlier than 'sent', so a late fetch sets it back to sent",
 edits=[(FR, """#[derive(Debug, Clone, PartialEq, PartialOrd, Serialize, Deserialize)]
pub enum Status {""", """#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Status {"""), (FR, """impl PartialEq for Outcome {""", """impl Status {
    fn ordering(&self) -> u8 {
        match self {
            Status::SentRequestByReference => 0,
            Status::SentRequest => 1,
            Status::ReceivedResponse => 2,
            Status::Complete(outcome) => outcome.ordering() << 4,
        }
    }
}

impl PartialOrd for Status {
    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
        self.ordering().partial_cmp(&other.ordering())
    }
}

impl PartialEq for Outcome {""")],
 demo="""
#[tokio::test]
async fn demo() {
    let v = verifier(Arc::new(MemoryStore::default()), Some("https://v.example/request")).await;
    let (id, _) = build(&v, &TestWallet::plain()).await;
    v.retrieve_authorization_request(id).await.unwrap();
    submit(&v, id, Outcome::Error { cause: "no".into() }).await.unwrap();
    v.retrieve_authorization_request(id).await.unwrap();
    assert_eq!(info_of(v.poll_status(id).await.unwrap()), "error no");
}
""")

bug(id="c03-complete-acknowledged", prop="C03",
 needs="a second submission for a session that is already complete",
 breaks="the second submission is acknowledged without its validator being called",
 edits=[(VM, """        let session = self.session_store.get_session(reference).await?;

        let outcome = validator""", """        let session = self.session_store.get_session(reference).await?;

        // Retried submissions are answered like the first one.
        if matches!(session.status, Status::Complete(Outcome::Success { .. })) {
            return Ok(());
        }

        let outcome = validator""")],
 demo="""
#[tokio::test]
async fn demo() {
    let v = verifier(Arc::new(MemoryStore::default()), None).await;
    let (id, _) = build(&v, &TestWallet::plain()).await;
    submit(&v, id, success(json!(1))).await.unwrap();
    submit(&v, id, Outcome::Failure { reason: "revoked".into() }).await.unwrap();
    assert_eq!(info_of(v.poll_status(id).await.unwrap()), "failure revoked");
}
""")

bug(id="c03-unfetched-refused", prop="C03",
 needs="a response for a request by reference whose fetch was not recorded (for example served from a cache)",
 breaks="a submission for a known session is refused without calling the validator",
 edits=[(VM, """        let session = self.session_store.get_session(reference).await?;

        let outcome = validator""", """        let session = self.session_store.get_session(reference).await?;

        if session.status < Status::SentRequest {
            bail!("the request of this session has not been fetched")
        }

        let outcome = validator""")],
 demo="""
#[tokio::test]
async fn demo() {
    let v = verifier(Arc::new(MemoryStore::default()), Some("https://v.example/request")).await;
    let (id, _) = build(&v, &TestWallet::plain()).await;
    submit(&v, id, success(json!(1))).await.unwrap();
}
""")

bug(id="c05-time-ordered-key", prop="C05",
 needs="two caller-chosen session ids that share their first half (such as time-ordered ids of the same moment)",
 breaks="the in-memory store mixes up sessions whose ids share the first 64 bits",
 edits=[(SE, """    store: Arc<Mutex<BTreeMap<Uuid, Session>>>,
""", """    store: Arc<Mutex<BTreeMap<u64, Session>>>,
"""), (SE, ".insert(session.uuid, session);", ".insert(session.uuid.as_u64_pair().0, session);"),
 (SE, ".get_mut(&uuid)", ".get_mut(&uuid.as_u64_pair().0)"), (SE, ".get(&uuid)", ".get(&uuid.as_u64_pair().0)"),
 (SE, ".remove(&uuid)", ".remove(&uuid.as_u64_pair().0)")], counts={2: 2},
 demo="""
#[tokio::test]
async fn demo() {
    let v = verifier(Arc::new(MemoryStore::default()), None).await;
    let w = TestWallet::plain();
    let ids = [Uuid::from_u64_pair(0x0190_0000_0000_7000, 1), Uuid::from_u64_pair(0x0190_0000_0000_7000, 2)];
    for id in ids {
        v.build_authorization_request()
            .with_dcql_query(query("q"))
            .with_request_parameter(Nonce::from(id.to_string()))
            .build_with_session_id(id, w.metadata.clone())
            .await
            .unwrap();
    }
    submit(&v, ids[0], success(json!(1))).await.unwrap();
    assert!(!matches!(v.poll_status(ids[1]).await.unwrap(), Status::Complete(_)), "sessions were mixed up");
}
""")

bug(id="c06-san-case", prop="C06",
 needs="a certificate for another spelling of the DNS name than the client identifier names",
 breaks="the DNS name is compared case-insensitively",
 edits=[(SA, "            dns == client_id_source\n", "            dns.eq_ignore_ascii_case(client_id_source)\n")],
 demo="""
#[tokio::test]
async fn demo() {
    let cid = "x509_san_dns:shop.EXAMPLE";
    let t = jwt(json!({"alg": "ES256", "typ": TYP, "x5c": x5c(&[cert(1, &["SHOP.example"])])}), &request_payload(cid), 1);
    assert!(TestWallet::plain().validate_request(url_by_value(cid, &t)).await.is_err());
}
""")

bug(id="c06-did-repeated-prefix", prop="C06",
 needs="a client identifier in which the prefix appears twice",
 breaks="a client identifier that names no DID is taken for the DID that follows the repeated prefix",
 edits=[(DI, "    let client_id_did = client_id.0.strip_prefix(&prefix).unwrap_or(&client_id.0);\n",
  "    let client_id_did = client_id.0.trim_start_matches(&prefix);\n")],
 demo="""
#[tokio::test]
async fn demo() {
    let cid = "decentralized_identifier:decentralized_identifier:did:ex:alice";
    let t = jwt(json!({"alg": "ES256", "typ": TYP, "kid": VM}), &request_payload(cid), 1);
    let w = TestWallet::plain().dids(Dids::default().with(VM, 1));
    assert!(w.validate_request(url_by_value(cid, &t)).await.is_err());
}
""")

bug(id="c06-hash-of-reencoded", prop="C06",
 needs="an x5c entry with trailing bytes or another encoding of the same certificate",
 breaks="the hash is compared with a prefix of the client identifier's hash",
 edits=[(HA, "    if computed_hash != expected_hash {\n", "    if !expected_hash.starts_with(&computed_hash) {\n")],
 demo="""
#[tokio::test]
async fn demo() {
    use sha2::Digest;
    let c = cert(1, &["v.example"]);
    let h = b64(sha2::Sha256::digest(c.to_der().unwrap()));
    let cid = format!("x509_hash:{h}.victim");
    let t = jwt(json!({"alg": "ES256", "typ": TYP, "x5c": x5c(&[c])}), &request_payload(&cid), 1);
    assert!(TestWallet::plain().validate_request(url_by_value(&cid, &t)).await.is_err());
}
""")

bug(id="c06-none-anywhere", prop="C06",
 needs="a wallet that does not list the algorithm none, and an attacker that sends alg none",
 breaks="unsigned requests pass the DID check although the wallet does not list none",
 edits=[(DI, """    if !supported_algs.0.contains(&alg) {
        bail!(""", """    if alg != "none" && !supported_algs.0.contains(&alg) {
        bail!(""")],
 demo="""
#[tokio::test]
async fn demo() {
    let cid = "decentralized_identifier:did:ex:alice";
    let t = jwt(json!({"alg": "none", "typ": TYP, "kid": VM}), &request_payload(cid), 9);
    let w = TestWallet::plain().dids(Dids::default().with(VM, 1));
    assert!(w.validate_request(url_by_value(cid, &t)).await.is_err());
}
""")

bug(id="c07-origin-to-other", prop="C07",
 needs="a request with the reserved origin prefix and a wallet that lists it and accepts unknown prefixes",
 breaks="the reserved origin prefix reaches the extension check and is accepted",
 edits=[(VE, """        Some(ClientIdScheme::ORIGIN) => {
            bail!("'origin' Client Identifier Prefix is reserved for Digital Credentials API and MUST NOT be accepted")
        }
""", """        Some(ClientIdScheme::ORIGIN) if jwt.is_none() => {
            bail!("'origin' Client Identifier Prefix is reserved for Digital Credentials API and MUST NOT be accepted")
        }
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let cid = "origin:https://v.example";
    let t = jwt(json!({"alg": "ES256", "typ": TYP}), &request_payload(cid), 9);
    let w = TestWallet::new(Http::none(), json!({"client_id_prefixes_supported": ["origin"]}));
    assert!(w.validate_request(url_by_value(cid, &t)).await.is_err());
}
""")

bug(id="c07-last-colon", prop="C07",
 needs="a client identifier with more than one colon whose first part is no known prefix but a longer one is listed",
 breaks="the prefix is taken up to the last colon instead of the first",
 edits=[(PA, """            self.0
                .split(':')
                .next()
                .map(|s| ClientIdScheme(s.to_string()))
""", """            match self.0.split_once(':') {
                Some(("", rest)) => rest.split(':').next(),
                Some((prefix, _)) => Some(prefix),
                None => None,
            }
            .map(|s| ClientIdScheme(s.to_string()))
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let cid = ":redirect_uri:https://evil.example";
    let t = jwt(json!({"alg": "ES256", "typ": TYP}), &request_payload(cid), 9);
    assert!(TestWallet::plain().validate_request(url_by_value(cid, &t)).await.is_err());
}
""")

bug(id="c07-missing-outer-id", prop="C07",
 needs="a prefix the wallet does not list, in a request whose metadata list is absent",
 breaks="a wallet without a list of supported prefixes accepts every prefix",
 edits=[(VE, """        if !wallet_metadata
            .get_or_default::<ClientIdPrefixesSupported>()?
            .0
            .contains(prefix)
        {""", """        let supported = wallet_metadata
            .get::<ClientIdPrefixesSupported>()
            .transpose()?;
        if supported.is_some_and(|s| !s.0.contains(prefix)) {""")],
 demo="""
#[tokio::test]
async fn demo() {
    let cid = "redirect_uri:https://evil.example";
    let t = jwt(json!({"alg": "ES256", "typ": TYP}), &request_payload(cid), 9);
    let mut w = TestWallet::plain();
    let mut m = serde_json::to_value(&w.metadata).unwrap();
    m.as_object_mut().unwrap().remove("client_id_prefixes_supported");
    w.metadata = serde_json::from_value(m).unwrap();
    assert!(w.validate_request(url_by_value(cid, &t)).await.is_err());
}
""")

bug(id="c08-lossy-body", prop="C08",
 needs="a fetched body with bytes that are not UTF-8 outside of what is decoded strictly",
 breaks="a damaged body is repaired instead of refused",
 edits=[(AR, """                let Ok(body) = String::from_utf8(response.into_body()) else {
                    bail!("failed to parse authorization request response as UTF-8 from {url} (status: {status})")
                };
""", """                let body = String::from_utf8_lossy(&response.into_body())
                    .trim_matches(|c: char| c.is_whitespace() || c == char::REPLACEMENT_CHARACTER)
                    .to_string();
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let cid = "decentralized_identifier:did:ex:alice";
    let t = jwt(json!({"alg": "ES256", "typ": TYP, "kid": VM}), &request_payload(cid), 1);
    let w = TestWallet::new(Http::new(move |_| { let mut b = t.clone().into_bytes(); b.push(0xff); answer(200, b) }), json!({}))
        .dids(Dids::default().with(VM, 1));
    assert!(w.validate_request(url_by_reference(cid, "https://v.example/r/1")).await.is_err());
}
""")

bug(id="c08-typ-optional-unsigned", prop="C08",
 needs="a JWT of another type in which typ is not a string",
 breaks="a request object whose typ is not a string is accepted",
 edits=[(AR, """    let typ = headers.get("typ").and_then(|v| v.as_str());
""", """    let typ = match headers.get("typ") {
        Some(Json::Array(types)) => types.iter().filter_map(|v| v.as_str()).find(|t| *t == REQUEST_OBJECT_TYP),
        other => other.and_then(|v| v.as_str()).map(|t| t.trim_start_matches("application/")),
    };
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let cid = "decentralized_identifier:did:ex:alice";
    let t = jwt(json!({"alg": "ES256", "typ": "application/oauth-authz-req+jwt", "kid": VM}), &request_payload(cid), 1);
    let w = TestWallet::plain().dids(Dids::default().with(VM, 1));
    assert!(w.validate_request(url_by_value(cid, &t)).await.is_err());
}
""")

bug(id="c08-redirect-uri-anywhere", prop="C08",
 needs="a client identifier that contains the redirect_uri prefix somewhere else than at its start",
 breaks="a mistyped JWT is accepted for identifiers that merely contain the redirect_uri prefix",
 edits=[(AR, """            .map(|c| c.starts_with("redirect_uri:"))
""", """            .map(|c| c.split(':').any(|part| part == "redirect_uri"))
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let cid = "x_ext:redirect_uri:thing";
    let t = jwt(json!({"alg": "ES256", "typ": "JWT"}), &request_payload(cid), 1);
    let w = TestWallet::new(Http::none(), json!({"client_id_prefixes_supported": ["x_ext"]}));
    assert!(w.validate_request(url_by_value(cid, &t)).await.is_err());
}
""")

bug(id="c09-wrong-kind-sent", prop="C09",
 needs="a plain response to a request that asks for an encrypted one",
 breaks="a plain response is sent although the request asks for an encrypted one",
 edits=[(WA, """                let AuthorizationResponse::Jwt(jwt) = response else {
                    bail!("unexpected AuthorizationResponse format")
                };

                jwt.into_x_www_form_urlencoded()?.into_bytes()
""", """                match response {
                    AuthorizationResponse::Jwt(jwt) => jwt.into_x_www_form_urlencoded()?,
                    // Verifiers that cannot decrypt send no keys.
                    AuthorizationResponse::Unencoded(unencoded)
                        if unencoded.state().is_some() =>
                    {
                        unencoded.into_x_www_form_urlencoded()?
                    }
                    _ => bail!("unexpected AuthorizationResponse format"),
                }
                .into_bytes()
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let mut p = request_payload("x");
    p["response_mode"] = json!("direct_post.jwt");
    let aro: AuthorizationRequestObject = serde_json::from_value(p).unwrap();
    let w = TestWallet::new(Http::new(|_| answer(200, "")), json!({}));
    let r = AuthorizationResponse::Unencoded(UnencodedAuthorizationResponse::with_state(
        VpToken::with_credential("q", vec![VpTokenItem::String("vp".into())]),
        State("s".into()),
    ));
    assert!(w.submit_response(aro, r).await.is_err());
    assert_eq!(w.http.count(), 0);
}
""")

bug(id="c09-html-is-fine", prop="C09",
 needs="a verifier or proxy that answers with a success status and a body that is no JSON",
 breaks="a body that is not JSON is reported as success",
 edits=[(WA, """        let response: serde_json::Value =
            serde_json::from_str(&body).context("verifier response is not valid JSON")?;
""", """        let response: serde_json::Value = match serde_json::from_str(&body) {
            Ok(response) => response,
            Err(e) if e.is_eof() => serde_json::Value::Null,
            Err(e) => return Err(e).context("verifier response is not valid JSON"),
        };
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let aro: AuthorizationRequestObject = serde_json::from_value(request_payload("x")).unwrap();
    let w = TestWallet::new(Http::new(|_| answer(200, "{\\"redirect_uri\\": \\"https://v.exa")), json!({}));
    assert!(w.submit_response(aro, response("vp")).await.is_err());
}
""")

bug(id="c10-state-trimmed", prop="C10",
 needs="a state with leading or trailing white space",
 breaks="white space around the state is lost on the way to the verifier",
 edits=[(RE, "        let state: Option<State> = unencoded.state.map(State).or(None);\n",
  "        let state: Option<State> = unencoded.state.map(|s| State(s.trim().to_string()));\n")],
 demo="""
#[tokio::test]
async fn demo() {
    let r = UnencodedAuthorizationResponse::with_state(VpToken::with_credential("q", vec![]), State(" s\\n".into()));
    let b = r.into_x_www_form_urlencoded().unwrap();
    let AuthorizationResponse::Unencoded(u) = AuthorizationResponse::from_x_www_form_urlencoded(b.as_bytes()).unwrap() else { panic!() };
    assert_eq!(u.state.unwrap().0, " s\\n");
}
""")

bug(id="c10-duplicates-removed", prop="C10",
 needs="the same presentation twice under one credential query",
 breaks="repeated presentations are merged",
 edits=[(RE, """        let vp_token: VpToken =
            serde_json::from_str(&unencoded.vp_token).context("failed to decode vp_token")?;
""", """        let mut vp_token: VpToken =
            serde_json::from_str(&unencoded.vp_token).context("failed to decode vp_token")?;
        for presentations in vp_token.0.values_mut() {
            presentations.dedup();
        }
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let item = || VpTokenItem::String("vp".into());
    let r = UnencodedAuthorizationResponse::new(VpToken::with_credential("q", vec![item(), item()]));
    let b = r.into_x_www_form_urlencoded().unwrap();
    let AuthorizationResponse::Unencoded(u) = AuthorizationResponse::from_x_www_form_urlencoded(b.as_bytes()).unwrap() else { panic!() };
    assert_eq!(u.vp_token.get("q").unwrap().len(), 2);
}
""")

bug(id="c11-defaults-win", prop="C11",
 needs="a verifier with a default client metadata and a request that sets its own",
 breaks="object-valued parameters set on a request are merged into the default instead of replacing it",
 edits=[(OB, """            Ok(value) => Some(self.0.insert(T::KEY.to_owned(), value)?.try_into()),
""", """            Ok(Json::Object(new)) => match self.0.get_mut(T::KEY) {
                Some(Json::Object(old)) => {
                    let previous = Json::Object(old.clone());
                    old.extend(new);
                    Some(previous.try_into())
                }
                _ => Some(
                    self.0
                        .insert(T::KEY.to_owned(), Json::Object(new))?
                        .try_into(),
                ),
            },
            Ok(value) => Some(self.0.insert(T::KEY.to_owned(), value)?.try_into()),
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let mut o = UntypedObject::default();
    o.insert(ClientMetadata(serde_json::from_value(json!({"a": 1})).unwrap()));
    o.insert(ClientMetadata(serde_json::from_value(json!({"b": 2})).unwrap()));
    assert_eq!(Json::from(o), json!({"client_metadata": {"b": 2}}));
}
""")

bug(id="c12-all-keys-supported", prop="C12",
 needs="a verifier that offers several encryption keys of which the wallet supports only some",
 breaks="a request is refused unless the wallet supports every key's algorithm",
 edits=[(VE, "            let has_supported_alg = encryption_algs.iter().any(|alg| supported.0.contains(alg));\n",
  "            let has_supported_alg = encryption_algs.iter().all(|alg| supported.0.contains(alg));\n")],
 demo="""
#[tokio::test]
async fn demo() {
    let mut p = request_payload("redirect_uri:https://c.example");
    p["response_mode"] = json!("direct_post.jwt");
    let k = |alg: &str| json!({"kty": "EC", "crv": "P-256", "x": "a", "y": "b", "use": "enc", "alg": alg});
    p["client_metadata"] = json!({"jwks": {"keys": [k("ECDH-ES"), k("ECDH-ES+A256KW")]}});
    let t = jwt(json!({"alg": "ES256", "typ": TYP}), &p, 9);
    let w = TestWallet::new(Http::none(), json!({"authorization_encryption_alg_values_supported": ["ECDH-ES"]}));
    w.validate_request(url_by_value("redirect_uri:https://c.example", &t)).await.unwrap();
}
""")

bug(id="c12-empty-list-unrestricted", prop="C12",
 needs="a wallet that lists no content encryption algorithm at all (an empty list)",
 breaks="an empty list of supported content encryption algorithms is taken for no restriction",
 edits=[(VE, """            if !has_supported_enc {
""", """            if !has_supported_enc && !supported.0.is_empty() {
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let mut p = request_payload("redirect_uri:https://c.example");
    p["response_mode"] = json!("direct_post.jwt");
    p["client_metadata"] = json!({"jwks": {"keys": [{"kty": "EC", "crv": "P-256", "x": "a", "y": "b", "use": "enc", "alg": "ECDH-ES"}]}});
    let t = jwt(json!({"alg": "ES256", "typ": TYP}), &p, 9);
    let w = TestWallet::new(Http::none(), json!({"authorization_encryption_enc_values_supported": []}));
    assert!(w.validate_request(url_by_value("redirect_uri:https://c.example", &t)).await.is_err());
}
""")

bug(id="c12-dcapi-jwt-unchecked", prop="C12",
 needs="an encrypted response asked for over the Digital Credentials API without usable keys",
 breaks="requests for encrypted Digital Credentials API responses are accepted without encryption keys",
 edits=[(VE, "    if response_mode.is_jarm()? {\n", "    if response_mode == ResponseMode::DirectPostJwt {\n")],
 demo="""
#[tokio::test]
async fn demo() {
    let mut p = request_payload("redirect_uri:https://c.example");
    p["response_mode"] = json!("dc_api.jwt");
    p.as_object_mut().unwrap().remove("response_uri");
    let t = jwt(json!({"alg": "ES256", "typ": TYP}), &p, 9);
    assert!(TestWallet::plain().validate_request(url_by_value("redirect_uri:https://c.example", &t)).await.is_err());
}
""")

bug(id="c13-update-copies", prop="C13",
 needs="an update of one session while another operation on the same session runs on another thread",
 breaks="an update works on a copy outside of the lock: it overwrites newer sessions and resurrects removed ones",
 edits=[(SE, """        if let Some(session) = self.store.lock().await.get_mut(&uuid) {
            session.status = status;
            return Ok(());
        }
        bail!("session not found")
""", """        let mut session = self.get_session(uuid).await?;
        session.status = status;
        self.initiate(session).await
""")],
 demo="""
#[tokio::test(flavor = "multi_thread", worker_threads = 4)]
async fn demo() {
    let store = Arc::new(MemoryStore::default());
    let v = verifier(store.clone(), None).await;
    let (id, _) = build(&v, &TestWallet::plain()).await;
    let s = store.get_session(id).await.unwrap();
    let t0 = std::time::Instant::now();
    while t0.elapsed().as_secs() < 20 {
        let id = Uuid::new_v4();
        let mut s = s.clone();
        s.uuid = id;
        store.initiate(s).await.unwrap();
        let (a, b) = (store.clone(), store.clone());
        let bar = Arc::new(std::sync::Barrier::new(2));
        let bar2 = bar.clone();
        let x = tokio::spawn(async move { bar.wait(); a.update_status(id, Status::ReceivedResponse).await.is_ok() });
        let y = tokio::spawn(async move { bar2.wait(); b.remove_session(id).await.is_ok() });
        let _ = (x.await.unwrap(), y.await.unwrap());
        assert!(store.get_session(id).await.is_err(), "a removed session came back");
    }
}
""")

bug(id="c14-origin-normalised", prop="C14",
 needs="an origin with upper-case letters or a trailing slash",
 breaks="the origin is normalised before it is hashed, so the other side's transcript differs",
 edits=[(IS, """            Cbor::Text(origin.to_string()),
""", """            Cbor::Text(origin.trim_end_matches('/').to_string()),
""")],
 demo="""
#[tokio::test]
async fn demo() {
    use openid4vp::core::iso_18013_7::DcApiHandover;
    let a = DcApiHandover::new("https://v.example", "n", None).unwrap();
    let b = DcApiHandover::new("https://v.example/", "n", None).unwrap();
    assert_ne!(a, b);
}
""")

bug(id="c14-empty-thumbprint-null", prop="C14",
 needs="an encryption key that comes after a key for signing that has no use",
 breaks="the thumbprint is that of the last encryption key instead of the first",
 edits=[(IS, "            jwks.keys.iter().find_map(|key_map| {\n", "            jwks.keys.iter().rev().find_map(|key_map| {\n")],
 demo="""
#[tokio::test]
async fn demo() {
    use openid4vp::core::iso_18013_7::{compute_jwk_thumbprint, get_encryption_jwk_thumbprint};
    let k = |x: &str| json!({"kty": "EC", "crv": "P-256", "x": x, "y": "b", "use": "enc", "alg": "ECDH-ES"});
    let mut p = request_payload("x");
    p["client_metadata"] = json!({"jwks": {"keys": [k("1"), k("2")]}});
    let aro: AuthorizationRequestObject = serde_json::from_value(p).unwrap();
    assert_eq!(get_encryption_jwk_thumbprint(&aro), Some(compute_jwk_thumbprint(&k("1")).unwrap()));
}
""")

bug(id="c16-hash-of-chain-end", prop="C16",
 needs="a certificate chain of more than one certificate",
 breaks="an X.509 hash client names the last certificate of its chain",
 edits=[(CL, """        let hash = BASE64_URL_SAFE_NO_PAD.encode(Sha256::digest(&leaf_der));
""", """        let issuer_der = x5c
            .last()
            .map(|issuer| issuer.to_der())
            .transpose()?
            .unwrap_or(leaf_der);
        let hash = BASE64_URL_SAFE_NO_PAD.encode(Sha256::digest(&issuer_der));
""")],
 demo="""
#[tokio::test]
async fn demo() {
    use sha2::Digest;
    let (a, b) = (cert(1, &["a.example"]), cert(2, &["b.example"]));
    let h = b64(sha2::Sha256::digest(a.to_der().unwrap()));
    let c = X509HashClient::new(vec![a, b], signer(1)).unwrap();
    assert_eq!(c.id().0, format!("x509_hash:{h}"));
}
""")

bug(id="c16-key-compared-by-curve", prop="C16",
 needs="a DID document that lists another key than the signer's",
 breaks="a DID client can be set up with a signer of another key, if only the key type matches",
 edits=[(CL, """        if *jwk != signer.jwk().context("signer did not have a JWK")? {
""", """        let own = signer.jwk().context("signer did not have a JWK")?;
        // Resolved keys carry additional members such as `kid` or `use`.
        if jwk.params != own.params && jwk.key_id == own.key_id && jwk.algorithm == own.algorithm {
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let mut d = Dids::default();
    let mut k = jwk(2);
    k.key_id = Some("k1".into());
    d.0.insert(VM.into(), k);
    assert!(DIDClient::new(VM.into(), signer(1), d).await.is_err());
}
""")

bug(id="c20-failure-reason-lost", prop="C20",
 needs="an outcome of kind failure that is stored and read back",
 breaks="the reason of a failure is stored under a name under which it is not read back, and comes back empty",
 edits=[(FR, """    Failure { reason: String },
    /// """, """    Failure {
        #[serde(rename(serialize = "error"), default)]
        reason: String,
    },
    /// """)],
 demo="""
#[tokio::test]
async fn demo() {
    let s = Status::Complete(Outcome::Failure { reason: "expired".into() });
    let t: Status = serde_json::from_str(&serde_json::to_string(&s).unwrap()).unwrap();
    assert_eq!(info_of(t), "failure expired");
}
""")

bug(id="c21-trailing-slash", prop="C21",
 needs="a request addressed to the wallet's endpoint with further path segments",
 breaks="a request for another path below the wallet's endpoint is handled",
 edits=[(AR, """        let fnd = url.path();
        let exp = authorization_endpoint.path();
        if fnd != exp {""", """        let fnd = url.path();
        let exp = authorization_endpoint.path();
        if fnd.trim_end_matches('/') != exp.trim_end_matches('/') {""")],
 demo="""
#[tokio::test]
async fn demo() {
    let cid = "redirect_uri:https://c.example";
    let t = jwt(json!({"alg": "ES256", "typ": TYP}), &request_payload(cid), 9);
    let w = TestWallet::new(Http::none(), json!({"authorization_endpoint": "https://wallet.example/authorize"}));
    let mut u = url_by_value(cid, &t);
    let q = u.query().unwrap().to_string();
    u = "https://wallet.example/authorize/".parse().unwrap();
    u.set_query(Some(&q));
    assert!(w.validate_request(u).await.is_err());
}
""")

bug(id="c21-host-only", prop="C21",
 needs="a request addressed to another port, or with a user part",
 breaks="only the host of the endpoint is compared",
 edits=[(AR, """        let fnd = url.authority();
        let exp = authorization_endpoint.authority();
""", """        let fnd = url.host_str().unwrap_or_default();
        let exp = authorization_endpoint.host_str().unwrap_or_default();
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let cid = "redirect_uri:https://c.example";
    let t = jwt(json!({"alg": "ES256", "typ": TYP}), &request_payload(cid), 9);
    let w = TestWallet::new(Http::none(), json!({"authorization_endpoint": "https://wallet.example/authorize"}));
    let q = url_by_value(cid, &t).query().unwrap().to_string();
    let mut u: Url = "https://wallet.example:8443/authorize".parse().unwrap();
    u.set_query(Some(&q));
    assert!(w.validate_request(u).await.is_err());
}
""")

bug(id="c22-validation-permits", prop="C22",
 needs="more than eight submissions being validated at the same time",
 breaks="a ninth submission waits until one of eight slow validators has finished",
 edits=[(VM, """    session_store: Arc<dyn SessionStore + Send + Sync>,
    submission_endpoint: Url,
}

impl Verifier {""", """    session_store: Arc<dyn SessionStore + Send + Sync>,
    submission_endpoint: Url,
    validations: Arc<tokio::sync::Semaphore>,
}

impl Verifier {"""), (VM, """            session_store,
            submission_endpoint,
        })
""", """            session_store,
            submission_endpoint,
            validations: Arc::new(tokio::sync::Semaphore::new(8)),
        })
"""), (VM, """        let outcome = validator_function(session, authorization_response).await;
""", """        // Validation is expensive: bound how much of it goes on at a time.
        let _permit = self.validations.acquire().await?;
        let outcome = validator_function(session, authorization_response).await;
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let v = verifier(Arc::new(MemoryStore::default()), None).await;
    let (id, _) = build(&v, &TestWallet::plain()).await;
    for _ in 0..20 {
        let v = v.clone();
        tokio::spawn(async move {
            v.verify_response(id, response("x"), |_, _| Box::pin(async {
                tokio::time::sleep(std::time::Duration::from_secs(60)).await;
                success(json!(1))
            })).await
        });
    }
    tokio::time::sleep(std::time::Duration::from_millis(300)).await;
    tokio::time::timeout(std::time::Duration::from_secs(5), submit(&v, id, success(json!(2)))).await.expect("waited for others").unwrap();
}
""")

bug(id="c22-session-lock", prop="C22",
 needs="a fetch while a slow validator works on a submission",
 breaks="fetches wait while a response is validated",
 edits=[(VM, """    session_store: Arc<dyn SessionStore + Send + Sync>,
    submission_endpoint: Url,
}

impl Verifier {""", """    session_store: Arc<dyn SessionStore + Send + Sync>,
    submission_endpoint: Url,
    updates: Arc<tokio::sync::RwLock<()>>,
}

impl Verifier {"""), (VM, """            session_store,
            submission_endpoint,
        })
""", """            session_store,
            submission_endpoint,
            updates: Arc::default(),
        })
"""), (VM, """        let session = self.session_store.get_session(reference).await?;

        let outcome = validator""", """        let _reading = self.updates.read().await;
        let session = self.session_store.get_session(reference).await?;

        let outcome = validator"""), (VM, """        let session = self
            .session_store
            .get_session(reference)
            .await
            .context("failed to retrieve session")?;
""", """        let _writing = self.updates.write().await;
        let session = self
            .session_store
            .get_session(reference)
            .await
            .context("failed to retrieve session")?;
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let v = verifier(Arc::new(MemoryStore::default()), Some("https://v.example/r")).await;
    let (id, _) = build(&v, &TestWallet::plain()).await;
    let v2 = v.clone();
    tokio::spawn(async move {
        v2.verify_response(id, response("x"), |_, _| Box::pin(async {
            tokio::time::sleep(std::time::Duration::from_secs(60)).await;
            success(json!(1))
        })).await
    });
    tokio::time::sleep(std::time::Duration::from_millis(300)).await;
    tokio::time::timeout(std::time::Duration::from_secs(5), v.retrieve_authorization_request(id)).await.expect("waited for others").unwrap();
}
""")
