AR = "src/core/authorization_request/mod.rs"
PA = "src/core/authorization_request/parameters.rs"
VE = "src/core/authorization_request/verification/mod.rs"
VV = "src/core/authorization_request/verification/verifier.rs"
DI = "src/core/authorization_request/verification/did.rs"
XH = "src/core/authorization_request/verification/x509_hash.rs"
XS = "src/core/authorization_request/verification/x509_san.rs"
WA = "src/wallet.rs"
ME = "src/core/metadata/mod.rs"
RE = "src/core/response/mod.rs"
IS = "src/core/iso_18013_7/mod.rs"
BUGS = []
def bug(**k): BUGS.append(k)

bug(id="c24-error-body-shortened", prop="C24",
 needs="an unsuccessful answer to a fetch whose body is longer than 256 bytes and has a character across the boundary",
 breaks="the wallet panics while it shortens the body for its error message",
 edits=[(AR, """                if !status.is_success() {
                    bail!(
                        "authorization request request was unsuccessful (status: {status}): {body}"
                    )
                }
""", """                if !status.is_success() {
                    let excerpt = &body[..body.len().min(256)];
                    bail!(
                        "authorization request request was unsuccessful (status: {status}): {excerpt}"
                    )
                }
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let w = TestWallet::new(Http::new(|_| answer(500, format!("x{}", "é".repeat(300)))), json!({}));
    assert!(w.validate_request(url_by_reference("decentralized_identifier:did:ex:alice", "https://v.example/1")).await.is_err());
}
""")

bug(id="c24-short-signature", prop="C24",
 needs="a request object whose signature is not 64 bytes long",
 breaks="the wallet panics while it takes the signature apart",
 edits=[(VV, """        let signature = p256::ecdsa::Signature::from_slice(signature)?;
""", """        let (r, s) = signature.split_at(32);
        let signature = p256::ecdsa::Signature::from_slice(&[r, s].concat())?;
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let c = cert(1, &["v.example"]);
    let id = "x509_san_dns:v.example";
    let j = jwt(json!({"alg": "ES256", "typ": TYP, "x5c": x5c(&[c])}), &request_payload(id), 1);
    let cut = &j[..j.rfind('.').unwrap() + 5];
    let w = TestWallet::plain();
    assert!(w.validate_request(url_by_value(id, cut)).await.is_err());
}
""")

bug(id="c24-hash-of-other-length", prop="C24",
 needs="a client identifier x509_hash: with a hash that is shorter than a SHA-256 hash",
 breaks="the wallet panics while it compares the hashes",
 edits=[(XH, """    if computed_hash != expected_hash {
""", """    // Compare all characters, so that the time taken does not depend on the first difference.
    let difference = computed_hash
        .bytes()
        .enumerate()
        .fold(computed_hash.len() ^ expected_hash.len(), |d, (i, b)| {
            d | usize::from(b ^ expected_hash.as_bytes()[i])
        });

    if difference != 0 {
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let c = cert(1, &["v.example"]);
    let id = "x509_hash:AAAA";
    let j = jwt(json!({"alg": "ES256", "typ": TYP, "x5c": x5c(&[c])}), &request_payload(id), 1);
    assert!(TestWallet::plain().validate_request(url_by_value(id, &j)).await.is_err());
}
""")

bug(id="c24-kid-compared-by-length", prop="C24",
 needs="a key id that has a character across the position where the client's DID ends",
 breaks="the wallet panics while it compares key id and client identifier",
 edits=[(DI, """    let (did, _f) = kid.split_once('#').context(format!(
        "expected a DID verification method in 'kid' header, received '{kid}'"
    ))?;

    // Extract the DID from client_id, removing the "decentralized_identifier:" prefix if present
    let prefix = format!("{}:", ClientIdScheme::DECENTRALIZED_IDENTIFIER);
    let client_id_did = client_id.0.strip_prefix(&prefix).unwrap_or(&client_id.0);
""", """    // Extract the DID from client_id, removing the "decentralized_identifier:" prefix if present
    let prefix = format!("{}:", ClientIdScheme::DECENTRALIZED_IDENTIFIER);
    let client_id_did = client_id.0.strip_prefix(&prefix).unwrap_or(&client_id.0);

    // The fragment follows the DID.
    let (did, fragment) = kid.split_at(client_id_did.len().min(kid.len()));
    if !fragment.starts_with('#') {
        bail!("expected a DID verification method in 'kid' header, received '{kid}'")
    }
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let id = "decentralized_identifier:did:ex:bob";
    let j = jwt(json!({"alg": "ES256", "typ": TYP, "kid": "did:ex:boé#k"}), &request_payload(id), 1);
    assert!(TestWallet::plain().validate_request(url_by_value(id, &j)).await.is_err());
}
""")

bug(id="c24-redirect-of-reply", prop="C24",
 needs="a verifier that answers a submission with a redirect_uri that is no string",
 breaks="the wallet panics on the answer to its submission",
 edits=[(WA, """            .get("redirect_uri")
            .and_then(|v| v.as_str())
            .map(Url::parse)
""", """            .get("redirect_uri")
            .filter(|v| !v.is_null())
            .map(|v| Url::parse(v.as_str().expect("redirect_uri is a string")))
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let w = TestWallet::new(Http::new(|_| answer(200, r#"{"redirect_uri": 1}"#)), json!({}));
    let o: UntypedObject = serde_json::from_value(request_payload("x")).unwrap();
    let _ = w.submit_response(o.try_into().unwrap(), response("vp")).await;
}
""")

bug(id="c24-no-content-encryption", prop="C24",
 needs="a request for an encrypted response with an empty list of content encryption algorithms, at a wallet that restricts them",
 breaks="the wallet panics while it puts together its refusal",
 edits=[(VE, """                bail!(
                    "none of the content encryption algorithms ({:?}) are supported by the wallet ({:?})",
                    enc_values.0,
                    supported.0
                )
""", """                bail!(
                    "the content encryption algorithm {} is not supported by the wallet ({:?})",
                    enc_values.0[0],
                    supported.0
                )
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let id = "decentralized_identifier:did:ex:alice";
    let mut p = request_payload(id);
    p["response_mode"] = json!("direct_post.jwt");
    p["client_metadata"] = json!({"jwks": {"keys": [{"kty": "EC", "use": "enc", "alg": "ECDH-ES"}]}, "encrypted_response_enc_values_supported": []});
    let j = jwt(json!({"alg": "ES256", "typ": TYP, "kid": VM}), &p, 1);
    let w = TestWallet::new(Http::none(), json!({"authorization_encryption_enc_values_supported": ["A256GCM"]})).dids(Dids::default().with(VM, 1));
    assert!(w.validate_request(url_by_value(id, &j)).await.is_err());
}
""")

bug(id="c24-claims-in-payload-assumed", prop="C24",
 needs="a fetched or given request object whose payload is JSON but no object, under a good header",
 breaks="the wallet panics on such a payload",
 edits=[(AR, """                validate_request_object_typ(&body, is_redirect_uri_prefix)?;
                let aro: AuthorizationRequestObject =
                    ssi::claims::jwt::decode_unverified::<UntypedObject>(&body)
                        .context("unable to decode Authorization Request Object JWT")?
                        .try_into()?;
""", """                validate_request_object_typ(&body, is_redirect_uri_prefix)?;
                let mut claims = ssi::claims::jwt::decode_unverified::<Json>(&body)
                    .context("unable to decode Authorization Request Object JWT")?;
                let claims = std::mem::take(claims.as_object_mut().unwrap());
                let aro: AuthorizationRequestObject = UntypedObject(claims).try_into()?;
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let id = "decentralized_identifier:did:ex:alice";
    let w = TestWallet::new(Http::new(move |_| answer(200, jwt(json!({"alg": "ES256", "typ": TYP, "kid": VM}), &json!([1]), 1))), json!({}));
    assert!(w.validate_request(url_by_reference(id, "https://v.example/1")).await.is_err());
}
""")

bug(id="c24-follows-references", prop="C24",
 needs="a server whose request objects refer to a further request object without end",
 breaks="the wallet follows the references for ever",
 edits=[(AR, """                let response = http_client.execute(request).await.context(format!(
                    "failed to make authorization request request at {url}"
                ))?;

                let status = response.status();
                let Ok(body) = String::from_utf8(response.into_body()) else {
                    bail!("failed to parse authorization request response as UTF-8 from {url} (status: {status})")
                };
""", """                let mut response = http_client.execute(request).await.context(format!(
                    "failed to make authorization request request at {url}"
                ))?;

                // The request may have moved in the meantime.
                while response.status().is_redirection() {
                    let request = base_request()
                        .method("GET")
                        .uri(url.to_string())
                        .body(vec![])
                        .context("failed to build authorization request request")?;
                    response = http_client.execute(request).await?;
                }

                let status = response.status();
                let Ok(body) = String::from_utf8(response.into_body()) else {
                    bail!("failed to parse authorization request response as UTF-8 from {url} (status: {status})")
                };
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let n = std::sync::atomic::AtomicUsize::new(0);
    let w = TestWallet::new(Http::new(move |_| {
        assert!(n.fetch_add(1, std::sync::atomic::Ordering::SeqCst) < 200, "still fetching");
        answer(302, "")
    }), json!({}));
    assert!(w.validate_request(url_by_reference("decentralized_identifier:did:ex:alice", "https://v.example/1")).await.is_err());
}
""")

bug(id="c24-duplicate-form-fields", prop="C24",
 needs="a form body with a vp_token that is no JSON",
 breaks="the verifier panics on a submission whose vp_token starts like an object but is not one",
 edits=[(RE, """        let vp_token: VpToken =
            serde_json::from_str(&unencoded.vp_token).context("failed to decode vp_token")?;
""", """        // An object is decoded as it is; anything else is reported.
        let vp_token: VpToken = match unencoded.vp_token.trim_start().chars().next() {
            Some('{') => {
                let object: serde_json::Map<_, _> = serde_json::from_str(&unencoded.vp_token)
                    .context("failed to decode vp_token")?;
                serde_json::from_value(object.into()).expect("vp_token maps ids to presentations")
            }
            _ => serde_json::from_str(&unencoded.vp_token).context("failed to decode vp_token")?,
        };
""")],
 demo="""
#[tokio::test]
async fn demo() {
    assert!(AuthorizationResponse::from_x_www_form_urlencoded(b"vp_token=%7B%22q%22%3A%5B1%5D%7D").is_err());
}
""")

bug(id="c24-thumbprint-of-short-key", prop="C24",
 needs="an encryption key in client metadata with a coordinate of another length",
 breaks="the transcript's thumbprint panics on a key whose coordinate is no 32 bytes",
 edits=[(IS, """            // RFC 7638 §3.2: For EC keys, use crv, kty, x, y in lexicographic order
""", """            // P-256 coordinates are 43 characters; a padding that some encoders add is dropped.
            let (x, y) = match crv {
                "P-256" if x.ends_with('=') => (&x[..43], y),
                _ => (x, y),
            };

            // RFC 7638 §3.2: For EC keys, use crv, kty, x, y in lexicographic order
""")],
 demo="""
#[tokio::test]
async fn demo() {
    use openid4vp::core::iso_18013_7::compute_jwk_thumbprint;
    let _ = compute_jwk_thumbprint(&json!({"kty": "EC", "crv": "P-256", "x": "AAAA=", "y": "AAAA"}));
}
""")

bug(id="c24-empty-vp-formats", prop="C24",
 needs="wallet metadata whose list of supported signing algorithms is there but empty",
 breaks="building a request panics for a wallet that lists no algorithm",
 edits=[(ME, """        let authorization_endpoint = value.get().parsing_error()?;
        let vp_formats_supported = value.get().parsing_error()?;
""", """        let authorization_endpoint: AuthorizationEndpoint = value.get().parsing_error()?;
        let vp_formats_supported = value.get().parsing_error()?;
        tracing::debug!("metadata of {}", authorization_endpoint.0);
        if let Some(Ok(algs)) = value.get::<RequestObjectSigningAlgValuesSupported>() {
            let first = &algs.0[0];
            tracing::debug!("preferred algorithm: {first}");
        }
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let doc = json!({"authorization_endpoint": "openid4vp:", "vp_formats_supported": {}, "request_object_signing_alg_values_supported": []});
    let _ = serde_json::from_value::<WalletMetadata>(doc);
}
""")

bug(id="c24-wildcard-names", prop="C24",
 needs="a certificate of the sender with a DNS name of a single character",
 breaks="the wallet panics while it looks at the names in a certificate",
 edits=[(XS, """            debug!("comparing SAN '{dns}' to client_id '{client_id_source}'");
            dns == client_id_source
""", """            debug!("comparing SAN '{dns}' to client_id '{client_id_source}'");
            if &dns[..2] == "*." {
                debug!("wildcard names are not supported");
                return false;
            }
            dns == client_id_source
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let c = cert(1, &["v"]);
    let id = "x509_san_dns:w";
    let j = jwt(json!({"alg": "ES256", "typ": TYP, "x5c": x5c(&[c])}), &request_payload(id), 1);
    assert!(TestWallet::plain().validate_request(url_by_value(id, &j)).await.is_err());
}
""")

RP = "src/core/response/parameters.rs"
bug(id="c10-second-proof-lost", prop="C10",
 needs="a typed presentation that is secured with two proofs",
 breaks="only the first proof of the presentation is sent",
 edits=[(RP, """impl From<DataIntegrity<AnyJsonPresentation, AnySuite>> for VpTokenItem {
    fn from(value: DataIntegrity<AnyJsonPresentation, AnySuite>) -> Self {
        let serde_json::Value::Object(obj) = serde_json::to_value(value)
            // SAFETY: by definition a VCDM2.0 presentation is a JSON object.
            .unwrap()
        else {
            // SAFETY: by definition a VCDM2.0 presentation is a JSON object.
            unreachable!()
        };
""", """impl From<DataIntegrity<AnyJsonPresentation, AnySuite>> for VpTokenItem {
    fn from(value: DataIntegrity<AnyJsonPresentation, AnySuite>) -> Self {
        let serde_json::Value::Object(mut obj) = serde_json::to_value(value)
            // SAFETY: by definition a VCDM2.0 presentation is a JSON object.
            .unwrap()
        else {
            // SAFETY: by definition a VCDM2.0 presentation is a JSON object.
            unreachable!()
        };
        // A single proof is not wrapped in an array.
        if let Some(proof) = obj.get_mut("proof") {
            if let Some(first) = proof.as_array_mut().and_then(|a| a.drain(..).next()) {
                *proof = first;
            }
        }
""")],
 demo="""
#[tokio::test]
async fn demo() {
    use ssi_claims::data_integrity::{AnySuite, DataIntegrity};
    use ssi_claims::vc::AnyJsonPresentation;
    let proof = json!({
        "type": "DataIntegrityProof",
        "cryptosuite": "eddsa-rdfc-2022",
        "created": "2023-02-24T23:36:38Z",
        "verificationMethod": "did:ex:h#k",
        "proofPurpose": "authentication",
        "proofValue": "z4oey5q2M3XKaxup3tmzN4DRFTLVqpLMweBrSxMY2xHX5XTYVQeVbY8nQAVHMrXFkXJpmEcqdoDwLWxaqA3Q1geV6",
    });
    let d = json!({
        "@context": ["https://www.w3.org/ns/credentials/v2"],
        "type": ["VerifiablePresentation"],
        "proof": [proof, proof],
    });
    let p: DataIntegrity<AnyJsonPresentation, AnySuite> = serde_json::from_value(d).unwrap();
    let expected = serde_json::to_value(&p).unwrap();
    let item = serde_json::to_value(VpTokenItem::from(p)).unwrap();
    assert_eq!(item["proof"].as_array().map(|a| a.len()), expected["proof"].as_array().map(|a| a.len()));
    assert_eq!(item, expected);
}
""")
