JW = "src/core/jwe.rs"
BUGS = []
def bug(**k): BUGS.append(k)
HEAD = r"""
fn request(keys: Value, more: Value) -> openid4vp::core::authorization_request::AuthorizationRequestObject {
    let mut meta = serde_json::json!({"jwks": {"keys": keys}, "vp_formats_supported": {}});
    for (k, v) in more.as_object().unwrap() { meta[k] = v.clone(); }
    let o: openid4vp::core::object::UntypedObject = serde_json::from_value(serde_json::json!({
        "client_id": "verifier", "nonce": "n", "response_type": "vp_token", "response_mode": "direct_post.jwt",
        "response_uri": "https://verifier.example/r", "client_metadata": meta,
        "dcql_query": {"credentials": [{"id": "c", "format": "dc+sd-jwt", "meta": {"vct_values": ["v"]}}]},
    })).unwrap();
    o.try_into().unwrap()
}
fn secret(n: u8) -> p256::NonZeroScalar { p256::SecretKey::from_slice(&[n; 32]).unwrap().to_nonzero_scalar() }
fn key(n: u8, more: Value) -> Value {
    let pk: Value = serde_json::from_str(&p256::SecretKey::from_slice(&[n; 32]).unwrap().public_key().to_jwk_string()).unwrap();
    let mut k = serde_json::json!({"kty": "EC", "crv": "P-256", "alg": "ECDH-ES", "use": "enc", "x": pk["x"], "y": pk["y"]});
    for (a, v) in more.as_object().unwrap() {
        if v.is_null() { k.as_object_mut().unwrap().remove(a); } else { k[a] = v.clone(); }
    }
    k
}
fn encrypt(r: &openid4vp::core::authorization_request::AuthorizationRequestObject, items: &[&str], state: Option<&str>) -> Result<String, String> {
    use openid4vp::core::{authorization_request::parameters::State, response::{parameters::{VpToken, VpTokenItem}, AuthorizationResponse}};
    let mut t = VpToken::new();
    t.insert("c", items.iter().map(|s| VpTokenItem::String(s.to_string())).collect());
    match vpjwe::build_encrypted_response(r, &t, state.map(|s| State(s.into())).as_ref()) {
        Ok(AuthorizationResponse::Jwt(j)) => Ok(j.response),
        Ok(_) => panic!("plain"),
        Err(e) => Err(format!("{e:#}")),
    }
}
fn opened(m: &str, n: u8) -> (Map<String, Value>, Value) {
    let (h, c) = jwe::toy::open(m, &secret(n)).expect("the verifier cannot open the response");
    (h, serde_json::from_slice(&c).unwrap())
}
"""
bug(id="c17-marked-key-preferred", prop="C17",
 needs="a request with several keys, the first of which does not say what it is for",
 breaks="the response is encrypted to another key than the first fit one, which the session transcript names",
 edits=[(JW, """    for jwk_map in keys {
""", """    // Keys that are marked for encryption come first.
    let (marked, others): (Vec<_>, Vec<_>) = keys.partition(|jwk| jwk.contains_key("use"));
    for jwk_map in marked.into_iter().chain(others) {
""")],
 demo=HEAD + r"""
#[test]
fn demo() {
    let r = request(serde_json::json!([key(1, serde_json::json!({"use": null})), key(2, serde_json::json!({}))]), serde_json::json!({}));
    opened(&encrypt(&r, &["x"], None).unwrap(), 1);
}
""")
bug(id="c17-strongest-content-encryption", prop="C17",
 needs="a request that offers several content encryption algorithms, A256GCM not first",
 breaks="the response is not encrypted with the content encryption algorithm the verifier named first",
 edits=[(JW, """    let enc = enc_values
        .0
        .first()
        .cloned()
""", """    let enc = enc_values
        .0
        .iter()
        .max_by_key(|enc| enc.contains("256GCM"))
        .cloned()
""")],
 demo=HEAD + r"""
#[test]
fn demo() {
    let r = request(serde_json::json!([key(1, serde_json::json!({}))]),
        serde_json::json!({"encrypted_response_enc_values_supported": ["A128GCM", "A256GCM"]}));
    assert_eq!(opened(&encrypt(&r, &["x"], None).unwrap(), 1).0["enc"], "A128GCM");
}
""")
bug(id="c17-empty-state-dropped", prop="C17",
 needs="a request whose state is empty",
 breaks="the encrypted response has no state although one was given",
 edits=[(JW, """    if let Some(s) = state {
""", """    if let Some(s) = state.filter(|s| !s.0.trim().is_empty()) {
""")],
 demo=HEAD + r"""
#[test]
fn demo() {
    let r = request(serde_json::json!([key(1, serde_json::json!({}))]), serde_json::json!({}));
    assert_eq!(opened(&encrypt(&r, &["x"], Some("")).unwrap(), 1).1["state"], "");
}
""")
bug(id="c17-key-id-of-the-key-wins", prop="C17",
 needs="a message built with a key id of its own, for a key that has another",
 breaks="the message carries another key id than the one set",
 edits=[(JW, """        if let Some(kid) = &self.kid {
            header.set_key_id(kid);
        } else if let Some(kid) = recipient_key.key_id() {
            header.set_key_id(kid);
        }
""", """        if let Some(kid) = recipient_key.key_id().or(self.kid.as_deref()) {
            header.set_key_id(kid);
        }
""")],
 demo=HEAD + r"""
#[test]
fn demo() {
    let m = vpjwe::JweBuilder::new().payload(serde_json::json!({"a": 1})).alg("ECDH-ES").kid("mine")
        .recipient_key_json(&key(1, serde_json::json!({"kid": "its"}))).unwrap().build().unwrap();
    assert_eq!(opened(&m, 1).0["kid"], "mine");
}
""")
bug(id="c17-other-use-tolerated", prop="C17",
 needs="a request whose first P-256 key with ECDH-ES is marked for a use that is neither encryption nor signing",
 breaks="a response is encrypted to a key that is not meant for it",
 edits=[(JW, """            Some("enc") => {}
            Some(other) => {
""", """            Some("enc") => {}
            Some(other) if other == "sig" || other.is_empty() => {
"""), (JW, """            None => {
                tracing::warn!(
                    "JWK missing 'use' parameter, assuming it can be used for encryption"
                );
            }
""", """            _ => {
                tracing::warn!(
                    "JWK without a known 'use', assuming it can be used for encryption"
                );
            }
""")],
 demo=HEAD + r"""
#[test]
fn demo() {
    let r = request(serde_json::json!([key(1, serde_json::json!({"use": "wrap"})), key(2, serde_json::json!({}))]), serde_json::json!({}));
    if let Ok(m) = encrypt(&r, &["x"], None) { opened(&m, 2); } else { panic!("refused") }
}
""")
bug(id="c17-key-id-only-when-long", prop="C17",
 needs="a key whose key id is longer than 64 characters",
 breaks="the encrypted response names no key id although the chosen key has one",
 edits=[(JW, """        let kid = jwk_map
            .get("kid")
            .and_then(|v| v.as_str())
            .map(String::from);
""", """        let kid = jwk_map
            .get("kid")
            .and_then(|v| v.as_str())
            .map(|kid| kid.trim().to_string());
""")],
 demo=HEAD + r"""
#[test]
fn demo() {
    let r = request(serde_json::json!([key(1, serde_json::json!({"kid": " k 1 "}))]), serde_json::json!({}));
    assert_eq!(opened(&encrypt(&r, &["x"], None).unwrap(), 1).0["kid"], " k 1 ");
}
""")
BUGS[-1].update(id="c17-key-id-trimmed", needs="a key whose key id starts or ends with white space", breaks="the encrypted response names another key id than that of the chosen key")
