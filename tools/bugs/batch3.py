ME = "src/core/metadata/mod.rs"
WP = "src/core/metadata/parameters/wallet.rs"
VP = "src/core/metadata/parameters/verifier.rs"
CF = "src/core/credential_format/mod.rs"
OB = "src/core/object/mod.rs"
PA = "src/core/authorization_request/parameters.rs"
BUGS = []
def bug(**k): BUGS.append(k)

bug(id="c23-known-prefix-stops", prop="C23",
 needs="adding a prefix that the wallet already has together with one that it has not",
 breaks="the new prefix is not added, and requests under it are refused",
 edits=[(ME, """        // Insert the prefix.
        supported.0.extend_from_slice(client_id_prefixes);
""", """        // Insert the prefixes, once.
        for prefix in client_id_prefixes {
            if supported.0.contains(prefix) {
                break;
            }
            supported.0.push(prefix.clone());
        }
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let mut m = WalletMetadata::openid4vp_scheme_static();
    m.add_client_id_prefixes_supported(&[ClientIdScheme("x509_hash".into())]).unwrap();
    m.add_client_id_prefixes_supported(&[ClientIdScheme("x509_hash".into()), ClientIdScheme("x509_san_dns".into())]).unwrap();
    let j = serde_json::to_value(&m).unwrap();
    assert!(j["client_id_prefixes_supported"].as_array().unwrap().contains(&json!("x509_san_dns")), "{j}");
}
""")

bug(id="c23-formats-not-sent", prop="C23",
 needs="a wallet that adds a credential format to metadata that was made before",
 breaks="the added format is not in the metadata that verifiers receive",
 edits=[(ME, """        let mut inner = value.0;
        inner.insert(value.1);
        inner.insert(value.2);
        inner
""", """        let mut inner = value.0;
        inner.insert(value.1);
        if inner.get::<VpFormatsSupported>().is_none() {
            inner.insert(value.2);
        }
        inner
""")],
 demo="""
#[tokio::test]
async fn demo() {
    use openid4vp::core::credential_format::ClaimFormatPayload;
    let mut m = WalletMetadata::openid4vp_scheme_static();
    m.vp_formats_supported_mut().0.insert("mso_mdoc".into(), ClaimFormatPayload::Other(json!({})));
    let j = serde_json::to_value(&m).unwrap();
    let r: WalletMetadata = serde_json::from_value(j).unwrap();
    assert!(r.vp_formats_supported().is_claim_format_supported(&"mso_mdoc".into()));
}
""")

bug(id="c23-alias-of-algs", prop="C23",
 needs="credential formats described with alg_values_supported, as in older drafts",
 breaks="the member comes out under another name than it was given",
 edits=[(CF, """    #[serde(rename = "alg_values")]
    AlgValues""", """    #[serde(rename = "alg_values", alias = "alg_values_supported")]
    AlgValues""")],
 demo="""
#[tokio::test]
async fn demo() {
    let doc = json!({"authorization_endpoint": "openid4vp:", "vp_formats_supported": {"jwt_vp_json": {"alg_values_supported": ["ES256"]}}});
    let m: WalletMetadata = serde_json::from_value(doc.clone()).unwrap();
    assert_eq!(serde_json::to_value(&m).unwrap(), doc);
}
""")

bug(id="c23-method-case", prop="C23",
 needs="a verifier that lists a method in other letters than the one asked for",
 breaks="a method is reported as supported that was not listed",
 edits=[(VP, """            Some(ClaimFormatPayload::AlgValues(alg_values)) => alg_values.contains(security_method),
""", """            Some(ClaimFormatPayload::AlgValues(alg_values)) => alg_values
                .iter()
                .any(|alg| alg.eq_ignore_ascii_case(security_method)),
""")],
 demo="""
#[tokio::test]
async fn demo() {
    use openid4vp::core::metadata::parameters::verifier::VpFormats;
    let v: VpFormats = VpFormats::try_from(json!({"jwt_vc_json": {"alg_values": ["es256"]}})).unwrap();
    assert!(!v.supports_security_method(&"jwt_vc_json".into(), &"ES256".to_string()));
}
""")

bug(id="c23-unusable-keys-dropped", prop="C23",
 needs="a key in client metadata that has no kid, next to others",
 breaks="keys without a kid do not reach the wallet when there is one with a kid",
 edits=[(VP, """        serde_json::from_value(value).map_err(Into::into)
    }
}

impl From<JWKs> for Json {""", """        let mut jwks: JWKs = serde_json::from_value(value)?;
        if jwks.keys.iter().any(|key| key.contains_key("kid")) {
            jwks.keys.retain(|key| key.contains_key("kid"));
        }
        Ok(jwks)
    }
}

impl From<JWKs> for Json {""")],
 demo="""
#[tokio::test]
async fn demo() {
    use openid4vp::core::metadata::parameters::verifier::JWKs;
    let j = JWKs::try_from(json!({"keys": [{"kty": "EC", "kid": "1"}, {"kty": "EC"}]})).unwrap();
    assert_eq!(j.keys.len(), 2);
}
""")

bug(id="c23-second-alg-replaces", prop="C23",
 needs="two signing algorithms being added to metadata one after the other",
 breaks="an algorithm added later replaces one of the same family that was there",
 edits=[(ME, """        // Insert the algorithm.
        supported.0.push(alg.to_string());
""", """        // Insert the algorithm.
        let alg = alg.to_string();
        supported.0.retain(|known| known.get(..2) != alg.get(..2));
        supported.0.push(alg);
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let mut m = WalletMetadata::openid4vp_scheme_static();
    m.add_request_object_signing_alg_values_supported(ssi_jwk::Algorithm::ES384).unwrap();
    let j = serde_json::to_value(&m).unwrap();
    assert_eq!(j["request_object_signing_alg_values_supported"], json!(["ES256", "ES384"]));
}
""")

bug(id="c23-format-names-trimmed", prop="C23",
 needs="two formats of an application's own that differ in case",
 breaks="format names are folded to lower case, so that one of them is lost",
 edits=[(CF, """            _ => Self::Other(name.into_owned()),
""", """            _ => Self::Other(name.to_ascii_lowercase()),
""")],
 demo="""
#[tokio::test]
async fn demo() {
    let doc = json!({"authorization_endpoint": "openid4vp:", "vp_formats_supported": {"X_Format": {"a": 1}}});
    let m: WalletMetadata = serde_json::from_value(doc.clone()).unwrap();
    assert_eq!(serde_json::to_value(&m).unwrap(), doc);
}
""")
