//! One simulated deployment, start to finish: verifier services of several instances over a shared
//! session store, wallets, frontends, an attacker, strangers, crashes and restarts; then a calm
//! phase without faults in which everything that is pending has to complete.

use crate::attack;
use crate::core::*;
use crate::gen;
use crate::ident::*;
use crate::meta;
use crate::net;
use crate::store::*;
use crate::svc::*;
use crate::wallet::*;
use crate::world::*;
use openid4vp::core::authorization_request::{parameters::ClientIdScheme, AuthorizationRequestObject};
use openid4vp::core::metadata::{
    parameters::wallet::{
        AuthorizationEncryptionAlgValuesSupported, AuthorizationEncryptionEncValuesSupported, AuthorizationEndpoint, VpFormatsSupported,
    },
    WalletMetadata,
};
use openid4vp::verifier::{session::SessionStore, Verifier};
use serde_json::{json, Map, Value as Json};
use std::{
    future::Future,
    sync::{
        atomic::{AtomicBool, Ordering},
        Arc,
    },
};
use url::Url;
use uuid::Uuid;

const CLIENTS: usize = 900;
const CTL: usize = 0;

// ---------------------------------------------------------------- what a run is made of

/// The kinds of trouble a property is most sensitive to.
fn focus(prop: &str) -> &'static [&'static str] {
    match prop {
        "C01" => &["store", "partition", "crash", "cancel", "sign", "weird", "unsupported", "dcapi", "many", "disk", "burst", "reuse", "newcomer"],
        "C02" => &["netdup", "partition", "slow", "wdup", "crash", "refetch", "loss", "many", "hammer", "burst"],
        "C03" => &["store", "partition", "wdup", "netdup", "crash", "cancel", "slow", "rogue", "hammer", "pause", "burst", "reuse"],
        "C04" => &["store", "partition", "refetch", "gc", "crash", "slow", "netdup", "rogue", "hammer", "pause", "reuse", "newcomer"],
        "C05" => &["rogue", "gc", "many", "multi", "refetch", "crowd", "skew", "burst", "reuse", "newcomer", "pause"],
        "C06" => &["ajwt", "aurl", "resolver", "impostor"],
        "C07" => &["aurl", "odd", "unsupported", "bare", "refuse", "direct", "ajwt", "impostor"],
        "C08" => &["netbad", "loss", "ajwt", "aurl", "direct", "slow", "unsupported"],
        "C09" => &["reply", "mismatch", "netbad", "loss", "dcapi", "jarm"],
        "C10" => &["jarm", "rogue", "wdup", "many"],
        "C11" => &["weird", "multi", "many", "jarm", "unsupported", "direct"],
        "C12" => &["jarm", "enc", "many", "direct"],
        "C13" => &["store", "netdup", "gc", "many", "wdup", "slow", "crowd", "pause", "skew", "burst", "reuse", "newcomer"],
        "C14" => &["jarm", "dcapi", "many", "enc"],
        "C15" => &["loss", "partition", "crash", "cancel", "store", "sign", "resolver", "slow", "netdup", "many", "pause", "skew", "crowd", "hammer", "burst", "newcomer"],
        "C16" => &["sign", "resolver", "construct", "unsupported", "crash", "multi", "odd"],
        "C17" => &["jarm", "enc", "many", "wdup", "netdup", "loss", "crash"],
        "C20" => &["disk", "crash", "jarm", "weird", "many", "dcapi", "reuse"],
        "C21" => &["misaddress", "direct", "aurl", "odd", "bare"],
        "C22" => &["stall", "slow", "many", "netdup", "refetch", "hammer", "wdup", "store", "cancel", "burst"],
        "C24" => &["ajwt", "aurl", "rogue", "odd", "direct", "reply", "netbad", "jarm"],
        "C25" => &["crash", "skew", "pause", "many", "multi"],
        "C23" => &["operator", "jarm", "many", "enc", "unsupported"],
        _ => &[],
    }
}

fn profile(prop: &str) -> Cfg {
    let f = focus(prop);
    let r = |name: &str, lo: u32, hi: u32| -> u32 {
        let on = if f.contains(&name) { 800 } else if name == "burst" { 80 } else { 250 };
        if chance(on) {
            lo + draw(hi - lo + 1)
        } else {
            0
        }
    };
    let mut c = Cfg::default();
    c.store.err_before = r("store", 10, 150);
    c.store.err_after = r("store", 10, 150);
    c.store.slow = r("slow", 30, 400);
    c.net.drop = r("loss", 10, 200);
    c.net.resp_loss = r("loss", 10, 250);
    c.net.refuse = r("loss", 10, 150);
    c.net.dup = r("netdup", 30, 500);
    c.net.slow = r("slow", 30, 400);
    c.net.status = r("netbad", 20, 350);
    c.net.corrupt = r("netbad", 20, 350);
    c.crash = r("crash", 1, 6);
    c.cancel = r("cancel", 20, 400);
    c.sign_fail = r("sign", 20, 300);
    c.resolve_fail = r("resolver", 10, 200);
    c.resolve_wrong = r("resolver", 10, 250);
    c.resolve_slow = r("resolver", 20, 300);
    c.attack_jwt = r("ajwt", 50, 800);
    c.attack_url = r("aurl", 50, 800);
    c.impostor = r("impostor", 2, if f.contains(&"impostor") { 14 } else { 6 });
    c.rogue = r("rogue", 1, 8);
    c.gc = r("gc", 50, 500);
    c.weird = r("weird", 30, 400);
    c.unsupported = r("unsupported", 30, 350);
    c.dcapi = r("dcapi", 100, 600);
    c.jarm = r("jarm", 200, 900);
    c.dup_wallet = r("wdup", 100, 700);
    c.mismatch = r("mismatch", 50, 500);
    c.direct = r("direct", 1, 4);
    c.hook_refuse = r("refuse", 30, 300);
    c.reply_weird = r("reply", 50, 500);
    c.bare = r("bare", 100, 500);
    c.restrict_enc = r("enc", 200, 900);
    c.odd_prefix = r("odd", 50, 700);
    c.construct = r("construct", 1, 5);
    c.refetch = r("refetch", 100, 700);
    c.stall = r("stall", 30, 300);
    c.pause = r("pause", 200, 800);
    c.skew = r("skew", 1, 5);
    c.crowd = r("crowd", 1, 1);
    c.hammer = r("hammer", 1, 1);
    c.operator = r("operator", 1, 4);
    c.burst = r("burst", 1, 2);
    c.misaddress = r("misaddress", 1, 6);
    c.disk = r("disk", 300, 1000);
    c.reuse = r("reuse", 200, 800);
    c.newcomer = r("newcomer", 300, 1000);
    c.partition = r("partition", 1, 3);
    if prop == "C25" {
        c.nonces = 1 + draw(20);
    }
    if prop == "C24" {
        c.hostile = 10 + draw(120);
        c.stubborn = if chance(150) { pick(&[301u16, 302, 429, 500, 503]) } else { 0 };
    }
    c.sessions = 1 + draw(if f.contains(&"many") { 6 } else { 4 });
    c.services = 1 + draw(if f.contains(&"multi") { 3 } else { 2 });
    c.instances = 1 + draw(3);
    c.wallets = 1 + draw(3);
    c
}

// ---------------------------------------------------------------- setting up

fn gen_ident(n: usize) -> (Ident, String, String, usize) {
    let odd = w(|w| w.cfg.odd_prefix);
    if chance(odd) {
        let (id, prefix) = pick(&[
            ("plain-client", "pre-registered"),
            ("redirect_uri:https://client.example/cb", "redirect_uri"),
            ("verifier_attestation:attested.example", "verifier_attestation"),
            ("openid_federation:https://fed.example", "openid_federation"),
            ("x_ext:thing", "x_ext"),
            ("x_ext:a:b:c", "x_ext"),
            ("pre-registered:abc", "pre-registered"),
            ("origin:https://verifier.example", "origin"),
            (":colon", ""),
            ("X_EXT:thing", "X_EXT"),
            ("X509_SAN_DNS:verifier.example", "X509_SAN_DNS"),
            (":redirect_uri:https://client.example/cb", ""),
            ("x_ext:redirect_uri:thing", "x_ext"),
            ("x_ext::thing", "x_ext"),
            ("redirect_uri:x_ext:thing", "redirect_uri"),
        ]);
        let id = format!("{id}{}", if n > 0 { n.to_string() } else { String::new() });
        let typ = !chance(200);
        let i = Ident::Custom { id: id.clone(), prefix: prefix.into(), typ };
        return (i, id, prefix.into(), reg().custom_key);
    }
    let k = (n + draw(3) as usize) % 3;
    let more = draw(3) as usize;
    match draw(3) {
        0 => {
            let d = &reg().dids[k];
            let did = d.vm.split('#').next().unwrap();
            (Ident::Did(k), format!("decentralized_identifier:{did}"), "decentralized_identifier".into(), d.key)
        }
        1 => {
            let k = (n + draw(HONEST_CERTS as u32) as usize) % HONEST_CERTS;
            let c = &reg().certs[k];
            let name = dns_names(&c.cert).into_iter().next().unwrap();
            (Ident::San(k, more), format!("x509_san_dns:{name}"), "x509_san_dns".into(), c.key)
        }
        _ => {
            let k = (n + draw(HONEST_CERTS as u32) as usize) % HONEST_CERTS;
            let c = &reg().certs[k];
            (Ident::Hash(k, more), format!("x509_hash:{}", cert_hash(c.der)), "x509_hash".into(), c.key)
        }
    }
}

fn gen_endpoint(host: &str, kind: &str) -> Url {
    let u = match draw(7) {
        0 => format!("https://{host}/{kind}"),
        1 => format!("https://{host}/api/v1/{kind}"),
        2 => format!("https://{host}/{kind}?tenant=a&x=1"),
        3 => format!("https://{host}/a%20b/{kind}"),
        4 => format!("https://{host}/{kind}?q=a%2Fb"),
        5 => format!("https://{host}/t/%C3%A9/{kind}"),
        _ => format!("https://{host}/{kind}/{kind}"),
    };
    u.parse().unwrap()
}

fn gen_service(n: usize) {
    let (ident, client_id, prefix, key) = gen_ident(n);
    let host = match draw(3) {
        0 => format!("svc{n}.example"),
        1 => format!("svc{n}.example:8443"),
        _ => format!("v{n}.verifiers.example"),
    };
    let odd = w(|w| w.cfg.weird) / 12;
    let submit_at: Url = if chance(odd) {
        // Nothing can be appended to this.
        "mailto:submit@example.org".parse().unwrap()
    } else if chance(80) { format!("https://{host}").parse().unwrap() } else { gen_endpoint(&host, "submit") };
    let ref_at = if chance(odd) {
        Some("mailto:request@example.org".parse().unwrap())
    } else if chance(600) {
        Some(gen_endpoint(&host, "request"))
    } else {
        None
    };
    let weird = w(|w| w.cfg.weird);
    let sim_signer = chance(700);
    let alg: String = if sim_signer && chance(weird / 4) { pick(&["ES384", "ES256K", "X1"]).into() } else { "ES256".into() };
    let mut defaults = Map::new();
    for (k, v) in gen_params(chance(600)) {
        // A default that contradicts every request of this verifier is of no use.
        if chance(500) && !matches!(k, "redirect_uri") {
            defaults.insert(k.to_string(), v);
        }
    }
    let remote = chance(700);
    let disk = chance(w(|w| w.cfg.disk));
    let inst = w(|w| w.cfg.instances);
    let custom = matches!(ident, Ident::Custom { .. });
    w(|w| {
        let idx = w.models.len();
        w.models.push(Model::default());
        w.svcs.push(Svc {
            ident,
            client_id,
            prefix,
            key,
            alg: if custom { "ES256".into() } else { alg },
            sim_signer,
            submit_at,
            ref_at,
            host,
            defaults,
            store: SimStore::new(idx, remote, disk),
            inst: (0..inst).map(|_| Inst { verifier: None, starting: false }).collect(),
        })
    });
}

fn gen_wallet(n: usize) {
    let c = w(|w| w.cfg);
    // Metadata read from JSON, made of typed parts, or started from the predefined one.
    let way = weighted(&[3, 1, 1]);
    let endpoint = if way == 2 { "openid4vp:" } else { pick(&["openid4vp:", "https://wallet.example/authorize", "mdoc-openid4vp://", "openid4vp://authorize", "https://w.example:9443/a%20b"]) };
    let mut m = json!({
        "authorization_endpoint": endpoint,
        "vp_formats_supported": if chance(500) { json!({"mso_mdoc": {"issuerauth_alg_values": [-7]}}) } else { meta::formats() },
    });
    if chance(200) {
        m["issuer"] = json!(gen::text());
    }
    if chance(200) {
        m[format!("x_{}", gen::word())] = gen::value(2);
    }
    let all = [
        "decentralized_identifier", "x509_san_dns", "x509_hash", "redirect_uri", "verifier_attestation", "openid_federation",
        "x_ext", "pre-registered", "origin", "", "X_EXT", "Origin",
    ];
    let mut prefixes: Option<Vec<String>> = if chance(c.unsupported / 3) {
        None
    } else {
        Some(all.iter().filter(|_| !chance(c.unsupported)).map(|s| s.to_string()).collect())
    };
    let by_method = way == 2 || chance(300);
    if let (Some(p), false) = (&prefixes, by_method) {
        m["client_id_prefixes_supported"] = json!(p);
    }
    let algs: Option<Vec<String>> = if way == 2 {
        Some(if chance(300) { vec!["ES256".into(), "ES384".into()] } else { vec!["ES256".into()] })
    } else {
        match weighted(&[30, 6, 2 * (c.attack_jwt.min(1) + 1), 1, 1, 1]) {
        0 => Some(vec!["ES256".into()]),
        1 => Some(vec!["ES384".into(), "ES256".into(), "EdDSA".into(), "HS256".into()]),
        2 => Some(vec!["ES256".into(), "none".into()]),
        3 => Some(vec!["ES384".into()]),
        4 => Some(vec![]),
        _ => None,
        }
    };
    if let Some(a) = &algs {
        m["request_object_signing_alg_values_supported"] = json!(a);
    }
    let mut enc_algs = None;
    let mut enc_encs = None;
    if chance(c.restrict_enc) {
        let v: Vec<String> = gen::ENC_ALGS.iter().filter(|_| chance(400)).map(|s| s.to_string()).collect();
        m["authorization_encryption_alg_values_supported"] = json!(v);
        enc_algs = Some(v);
    }
    if chance(c.restrict_enc) {
        let v: Vec<String> = gen::ENC_ENCS.iter().filter(|_| chance(400)).map(|s| s.to_string()).collect();
        m["authorization_encryption_enc_values_supported"] = json!(v);
        enc_encs = Some(v);
    }
    if chance(300) {
        m["response_types_supported"] = pick(&[json!(["vp_token"]), json!([]), json!(["vp_token id_token", "vp_token"]), json!(["code", "VP_TOKEN", ""])]);
    }
    if way == 2 {
        m["response_types_supported"] = json!(["vp_token"]);
        m["vp_formats_supported"] = json!({"jwt_vc_json": {"alg_values": ["ES256"]}});
        m.as_object_mut().unwrap().retain(|k, _| k != "issuer" && !k.starts_with("x_"));
    }
    let mut doc = m.as_object().unwrap().clone();
    let typed = |m: &Json| (
        AuthorizationEndpoint(endpoint.parse().unwrap()),
        VpFormatsSupported::try_from(m["vp_formats_supported"].clone()).expect("formats"),
    );
    let mut meta: WalletMetadata = match way {
        0 => serde_json::from_value(m).expect("wallet metadata"),
        1 => {
            let (e, f) = typed(&m);
            for k in ["authorization_endpoint", "vp_formats_supported"] {
                m.as_object_mut().unwrap().remove(k);
            }
            WalletMetadata::new(e, f, Some(serde_json::from_value(m).expect("other metadata")))
        }
        _ => {
            let mut meta = WalletMetadata::openid4vp_scheme_static();
            if algs.as_ref().unwrap().len() > 1 {
                meta.add_request_object_signing_alg_values_supported(ssi_jwk::Algorithm::ES384).expect("algorithm");
            }
            if let Some(v) = &enc_algs {
                meta.insert(AuthorizationEncryptionAlgValuesSupported(v.clone()));
            }
            if let Some(v) = &enc_encs {
                meta.insert(AuthorizationEncryptionEncValuesSupported(v.clone()));
            }
            meta
        }
    };
    if let (Some(p), true) = (&mut prefixes, by_method) {
        let l: Vec<ClientIdScheme> = p.iter().map(|s| ClientIdScheme(s.clone())).collect();
        meta.add_client_id_prefixes_supported(&l).expect("prefixes");
        p.insert(0, "pre-registered".into());
        doc.insert("client_id_prefixes_supported".into(), json!(p));
    }
    if chance(300) {
        // Set once more, as typed values.
        meta::set_again(&mut meta, &doc);
    }
    let trusted = if chance(400) {
        let mut t: Vec<String> = (0..HONEST_DIDS)
            .filter(|_| chance(700))
            .map(|d| reg().dids[d].vm.split('#').next().unwrap().to_string())
            .collect();
        if chance(200) {
            t.push("did:sim:other".into());
        }
        if chance(400) {
            // Entries that name no identifier as a whole.
            let vm = &reg().dids[draw(HONEST_DIDS as u32) as usize].vm;
            let did = vm.split('#').next().unwrap();
            t.push(match draw(8) {
                0 | 7 => vm.to_string(),
                1 => did.to_uppercase(),
                2 => format!("{did}/"),
                3 => format!(" {did}"),
                4 => did[..did.len() - 1].into(),
                5 => "did:sim:*".into(),
                _ => String::new(),
            });
        }
        Some(t)
    } else {
        None
    };
    let bare = n > 0 && chance(c.bare);
    w(|w| {
        w.wallets.push(WalletCfg {
            meta,
            prefixes,
            algs: algs.unwrap_or_default(),
            trusted,
            enc_algs,
            enc_encs,
            endpoint: endpoint.parse().unwrap(),
            bare,
            doc,
        })
    });
    let cfg = w(|w| w.wallets[n].clone());
    meta::check_wallet(&cfg, &cfg.meta, "the wallet itself");
}
/// A wallet learns something new.
async fn operator() {
    sleep(draw(700) as u64).await;
    let n = draw(w(|w| w.wallets.len()) as u32) as usize;
    let mut cfg = w(|w| w.wallets[n].clone());
    meta::extend(&mut cfg, chance(400));
    w(|w| w.wallets[n] = cfg);
}

// ---------------------------------------------------------------- calls on an instance

/// A call in a task of its own on an instance, so that a crash takes it along.
async fn on_inst<T: 'static, F: Future<Output = T> + 'static>(
    svc: usize,
    inst: usize,
    name: &'static str,
    f: impl FnOnce(Arc<Verifier>) -> F,
) -> Option<T> {
    let v = w(|w| w.svcs[svc].inst[inst].verifier.clone())?;
    let fut = f(v);
    let (tx, rx) = oneshot();
    let done = Arc::new(AtomicBool::new(false));
    let d2 = done.clone();
    let id = spawn(Svc::node(svc, inst), name, async move {
        let r = fut.await;
        d2.store(true, Ordering::Relaxed);
        tx.send(r)
    });
    let rate = w(|w| w.cfg.cancel);
    if faults_on() && chance(rate) {
        let d = draw(25) as u64;
        spawn(net::NET, "cancel", async move {
            sleep(d).await;
            if !done.load(Ordering::Relaxed) {
                fault("call_cancelled");
                kill_task(id)
            }
        });
    }
    rx.await
}
fn any_inst(svc: usize) -> usize {
    draw(w(|w| w.svcs[svc].inst.len()) as u32) as usize
}

async fn supervise(svc: usize, inst: usize) {
    for round in 0..200u64 {
        if w(|w| w.svcs[svc].inst[inst].verifier.is_some()) {
            return;
        }
        if round > 0 && !faults_on() {
            probe("restart_without_faults");
        }
        let (tx, rx) = oneshot();
        spawn(Svc::node(svc, inst), "start", async move {
            start_instance(svc, inst).await;
            tx.send(())
        });
        rx.await;
        if w(|w| w.svcs[svc].inst[inst].verifier.is_some()) {
            return;
        }
        sleep(5 + draw(20) as u64).await;
    }
}

async fn crasher(svc: usize, inst: usize, at_ms: u64) {
    sleep(at_ms).await;
    if !faults_on() || w(|w| w.svcs[svc].inst[inst].verifier.is_none()) {
        return;
    }
    fault("instance_crash");
    kill_node(Svc::node(svc, inst));
    w(|w| w.svcs[svc].inst[inst].verifier = None);
    sleep(draw(120) as u64).await;
    supervise(svc, inst).await;
}

// ---------------------------------------------------------------- frontends and wallets

/// An application's own session id: often one that is much like others.
fn chosen_id() -> Uuid {
    let known: Vec<Uuid> = w(|w| w.chosen.iter().copied().chain(w.issues.iter().map(|i| i.uuid)).collect());
    let like = if known.is_empty() { Uuid::new_v4() } else { pick(&known) };
    let other = Uuid::new_v4();
    let n = known.len() as u128;
    let (a, o) = (like.as_u128(), other.as_u128());
    let half = u64::MAX as u128;
    let id = Uuid::from_u128(match draw(10) {
        0 | 1 => o,
        2 => 1 + n,
        3 => (1 + n) << 96,
        4 => (a & !half) | (o & half),
        5 => (o & !half) | (a & half),
        6 => a ^ (1 << draw(128)),
        // By time, and a counter.
        7 => ((1_767_225_600_000 + now() as u128) << 80) | (7 << 76) | (2 << 62) | n,
        8 => pick(&[0, u128::MAX]),
        _ => a.swap_bytes(),
    });
    let id = if known.contains(&id) { other } else { id };
    w(|w| w.chosen.push(id));
    id
}

fn gen_build(svc: usize) -> BuildIn {
    let cfg = w(|w| w.cfg);
    let wallet = draw(cfg.wallets) as usize;
    let complete = !chance(cfg.weird / 3);
    let dcql = if chance(cfg.weird / 5) { None } else { Some(gen::dcql()) };
    let mut params = gen_params(complete);
    // One value per name.
    let mut seen: Vec<&str> = vec![];
    params.retain(|(k, _)| {
        let new = !seen.contains(k);
        seen.push(k);
        new
    });
    let _ = svc;
    let dc_api = chance(cfg.dcapi);
    BuildIn {
        params,
        typed: !chance(300),
        dcql,
        wallet,
        dc_api,
        id: if !dc_api && chance(300) { Some(chosen_id()) } else { None },
        again: false,
    }
}

/// The URL by which a wallet gets a request; one for the Digital Credentials API is wrapped.
fn url_for(issue: usize) -> Url {
    let (i, endpoint) = w(|w| {
        let i = w.issues[issue].clone();
        let e = w.wallets[i.wallet].endpoint.clone();
        (i, e)
    });
    i.url.unwrap_or_else(|| {
        let cid = w(|w| w.svcs[i.svc].client_id.clone());
        let mut u = endpoint;
        u.query_pairs_mut().append_pair("client_id", &cid).append_pair("request", &i.jwt);
        u
    })
}
fn is_dc(aro: &AuthorizationRequestObject) -> bool {
    String::from(aro.response_mode().clone()).starts_with("dc_api")
}

/// The response of a Digital Credentials API request is handed to the verifier by its own frontend.
async fn hand_in(issue: usize, response: openid4vp::core::response::AuthorizationResponse, want: Json) -> bool {
    let (svc, id) = w(|w| (w.issues[issue].svc, w.issues[issue].uuid));
    let inst = any_inst(svc);
    on_inst(svc, inst, "hand in", move |v| do_submit(svc, inst, v, id, response, Some(want))).await.unwrap_or(false)
}

async fn wallet_flow(issue: usize) {
    let cfg = w(|w| w.cfg);
    let own = w(|w| w.issues[issue].wallet);
    let wallet = if chance(900) { own } else { draw(cfg.wallets) as usize };
    let same = w(|w| w.wallets[own].endpoint == w.wallets[wallet].endpoint);
    sleep(draw(60) as u64).await;
    let mut got = None;
    for _ in 0..1 + draw(3) {
        let url = url_for(issue);
        let attacked = faults_on() && chance(cfg.attack_url);
        let (url, honest) = if attacked { (attack::attack_url(&url), None) } else { (url, same.then_some(issue)) };
        if let Some(aro) = do_validate(wallet, url, honest).await {
            got = Some((aro, honest.is_some()));
            break;
        }
        sleep(draw(50) as u64).await;
        if w(|w| w.stop) {
            return;
        }
    }
    let Some((aro, honest)) = got else { return };
    let mut last = answer(&aro);
    let mut tries = 1 + draw(3);
    while tries > 0 {
        tries -= 1;
        let (r, want, is_jwt) = last.clone();
        let ok = do_answer(wallet, aro.clone(), r.clone(), want.clone(), is_jwt).await;
        if ok && is_dc(&aro) && honest {
            hand_in(issue, r, want).await;
        }
        if ok {
            if honest {
                w(|w| w.issues[issue].acked = true);
            }
            if !(faults_on() && chance(cfg.dup_wallet)) {
                break;
            }
            fault("wallet_submits_again");
            tries = tries.max(1);
            if tries > 4 {
                break;
            }
        }
        if chance(400) {
            last = answer(&aro);
        }
        sleep(draw(60) as u64).await;
        if w(|w| w.stop) {
            return;
        }
    }
}

async fn poller(issue: usize) {
    let (svc, id) = w(|w| (w.issues[issue].svc, w.issues[issue].uuid));
    let mut seen = 0;
    for _ in 0..2 + draw(6) {
        sleep(draw(120) as u64).await;
        if w(|w| w.stop) {
            return;
        }
        let inst = any_inst(svc);
        if let Some(Some(s)) = on_inst(svc, inst, "poll", move |v| do_poll(svc, inst, v, id)).await {
            let n = stage(&s);
            if n < seen {
                violation(&["C02"], "poll-back", format!("a poll saw stage {n} after stage {seen}"));
            }
            seen = n;
        }
    }
}

/// Fetches of a reference out of turn: a second device, a preview bot, a cache.
async fn refetch(issue: usize) {
    let (svc, id) = w(|w| (w.issues[issue].svc, w.issues[issue].uuid));
    for _ in 0..1 + draw(4) {
        sleep(draw(150) as u64).await;
        if w(|w| w.stop) {
            return;
        }
        fault("fetch_out_of_turn");
        let inst = any_inst(svc);
        on_inst(svc, inst, "fetch", move |v| do_fetch(svc, inst, v, id)).await;
    }
}

async fn collector(issue: usize) {
    sleep(draw(400) as u64).await;
    let (store, id) = w(|w| (w.svcs[w.issues[issue].svc].store.clone(), w.issues[issue].uuid));
    if w(|w| w.stop) {
        return;
    }
    fault("session_removed");
    for _ in 0..1 + draw(2) {
        if store.remove_session(id).await.is_ok() && !chance(100) {
            return;
        }
    }
}

async fn frontend(svc: usize) {
    let cfg = w(|w| w.cfg);
    sleep(draw(250) as u64).await;
    let mut issue = None;
    for _ in 0..1 + draw(4) {
        let inst = any_inst(svc);
        let input = gen_build(svc);
        issue = on_inst(svc, inst, "build", move |v| do_build(svc, inst, v, input)).await.flatten();
        if issue.is_some() {
            break;
        }
        sleep(draw(60) as u64).await;
        if w(|w| w.stop) {
            return;
        }
    }
    let Some(i) = issue else { return };
    let flows = 1 + if faults_on() && chance(cfg.dup_wallet) { 1 + draw(2) } else { 0 };
    for _ in 0..flows {
        let done = Arc::new(AtomicBool::new(false));
        let d2 = done.clone();
        let id = spawn(CLIENTS, "wallet", async move {
            wallet_flow(i).await;
            d2.store(true, Ordering::Relaxed);
        });
        if faults_on() && chance(60 * cfg.crash) {
            let d = draw(200) as u64;
            spawn(CLIENTS, "wallet crash", async move {
                sleep(d).await;
                if !done.load(Ordering::Relaxed) {
                    fault("wallet_crash");
                    kill_task(id)
                }
            });
        }
    }
    for _ in 0..draw(3) {
        spawn(CLIENTS, "poller", poller(i));
    }
    if chance(cfg.refetch) {
        spawn(CLIENTS, "refetch", refetch(i));
    }
    if chance(cfg.gc) {
        spawn(CLIENTS, "collector", collector(i));
    }
}

/// Somebody who is no wallet.
async fn stranger() {
    sleep(draw(500) as u64).await;
    if w(|w| w.stop) {
        return;
    }
    let n = w(|w| w.svcs.len()) as u32;
    let svc = draw(n) as usize;
    let known: Vec<Uuid> = w(|w| w.issues.iter().map(|i| i.uuid).collect());
    let id = match weighted(&[3, 2, 1]) {
        0 if !known.is_empty() => pick(&known),
        1 => Uuid::nil(),
        _ => Uuid::new_v4(),
    };
    let (r, s) = w(|w| (w.svcs[svc].ref_at.clone(), w.svcs[svc].submit_at.clone()));
    fault("stranger");
    match draw(6) {
        0 => drop(net::rogue(svc, "GET", at(&r.unwrap_or(s), &id), vec![]).await),
        1 => drop(net::rogue(svc, "POST", at(&s, &id), b"vp_token=%7B%22a%22%3A%5B%22x%22%5D%7D".to_vec()).await),
        2 => {
            check_empty_bodies();
            let b = pick(EMPTY_BODIES);
            drop(net::rogue(svc, "POST", at(&s, &id), b.as_bytes().to_vec()).await)
        }
        3 => {
            let inst = any_inst(svc);
            on_inst(svc, inst, "poll", move |v| do_poll(svc, inst, v, id)).await;
        }
        4 => {
            let inst = any_inst(svc);
            let (r, want) = plain(None, &[]);
            on_inst(svc, inst, "submit", move |v| do_submit(svc, inst, v, id, r, Some(want))).await;
        }
        _ => {
            let inst = any_inst(svc);
            on_inst(svc, inst, "fetch", move |v| do_fetch(svc, inst, v, id)).await;
        }
    }
}

async fn impostor() {
    sleep(draw(500) as u64).await;
    if w(|w| w.stop) {
        return;
    }
    let n = w(|w| w.wallets.len()) as u32;
    let wallet = draw(n) as usize;
    let url = attack::impostor_url(&w(|w| w.wallets[wallet].endpoint.clone()));
    do_validate(wallet, url, None).await;
}

/// A request that was sent to somebody else's endpoint.
async fn misaddress() {
    sleep(draw(600) as u64).await;
    if w(|w| w.stop || w.issues.is_empty()) {
        return;
    }
    let n = w(|w| w.issues.len()) as u32;
    let url = url_for(draw(n) as usize);
    let wallet = draw(w(|w| w.wallets.len()) as u32) as usize;
    let own = w(|w| w.wallets[wallet].endpoint.clone());
    let query = url.query().unwrap_or_default().to_string();
    let own_text = own.as_str().to_string();
    let mut to: Url = match draw(22) {
        14 => format!("{}/", own_text.trim_end_matches('/')),
        15 => own_text.trim_end_matches('/').to_string(),
        16 => "openid4vp://authorize/".into(),
        17 => pick(&["openid4vp:///", "mdoc-openid4vp:///", "openid4vp:", "mdoc-openid4vp:", "openid4vp:/"]).into(),
        18 => format!("{}://{}{}", own.scheme(), own.authority().to_uppercase(), own.path()),
        19 => format!("{}#?{query}", own_text.trim_end_matches('?')),
        20 => format!("{}#{query}", own_text.trim_end_matches('?')),
        21 => format!("{}://{}{}", own.scheme(), own.authority(), own.path().to_uppercase()),
        0 => format!("{}/more", own_text.trim_end_matches('/')),
        1 => "https://wallet.example/other".into(),
        2 => "https://wallet.example.evil.example/authorize".into(),
        3 => "https://evil.example/authorize".into(),
        4 => "https://wallet.example:444/authorize".into(),
        5 => "https://user@wallet.example/authorize".into(),
        6 => "https://wallet.example/authorize/".into(),
        7 => "https://wallet.example/Authorize".into(),
        8 => "https://wallet.example/".into(),
        9 => "openid4vp://other".into(),
        10 => "openid4vp:authorize".into(),
        11 => "openid4vp://authorize/x".into(),
        12 => "https://w.example/a%20b".into(),
        _ => "https://wallet.example//authorize".into(),
    }
    .parse()
    .unwrap_or(own);
    if to.fragment().is_none() {
        to.set_query(if chance(50) { None } else { Some(&query) });
    }
    fault("misaddressed_request");
    do_validate(wallet, to, None).await;
}

/// The same session used over and over by impatient or broken clients.
async fn hammer() {
    sleep(draw(500) as u64).await;
    if w(|w| w.stop || w.issues.is_empty()) {
        return;
    }
    let n = w(|w| w.issues.len()) as u32;
    let (svc, id) = w(|w| {
        let i = &w.issues[draw(n) as usize];
        (i.svc, i.uuid)
    });
    let what = draw(4);
    let times = pick(&[12u32, 20, 40, 70, 130]);
    fault("hammered_session");
    for _ in 0..times {
        if chance(300) {
            sleep(draw(20) as u64).await;
        }
        let inst = any_inst(svc);
        match if what == 3 { draw(3) } else { what } {
            0 => drop(on_inst(svc, inst, "poll", move |v| do_poll(svc, inst, v, id)).await),
            1 => drop(on_inst(svc, inst, "fetch", move |v| do_fetch(svc, inst, v, id)).await),
            _ => {
                let (r, want) = plain(None, &[]);
                on_inst(svc, inst, "submit", move |v| do_submit(svc, inst, v, id, r, Some(want))).await;
            }
        }
    }
}

/// Many calls at once on one instance.
async fn burst() {
    sleep(draw(600) as u64).await;
    if w(|w| w.stop || w.issues.is_empty()) {
        return;
    }
    let n = w(|w| w.issues.len()) as u32;
    let (svc, one) = w(|w| {
        let i = &w.issues[draw(n) as usize];
        (i.svc, i.uuid)
    });
    let all: Vec<Uuid> = w(|w| w.issues.iter().filter(|i| i.svc == svc).map(|i| i.uuid).collect());
    let same = chance(500);
    let inst = any_inst(svc);
    let what = draw(4);
    fault("burst_of_calls");
    for _ in 0..pick(&[5u32, 10, 20, 40]) {
        let id = if same { one } else { pick(&all) };
        let what = if what == 3 { draw(3) } else { what };
        spawn(CLIENTS, "burst", async move {
            match what {
                0 => drop(on_inst(svc, inst, "poll", move |v| do_poll(svc, inst, v, id)).await),
                1 => drop(on_inst(svc, inst, "fetch", move |v| do_fetch(svc, inst, v, id)).await),
                _ => {
                    let (r, want) = plain(None, &[]);
                    on_inst(svc, inst, "submit", move |v| do_submit(svc, inst, v, id, r, Some(want))).await;
                }
            }
        });
    }
    if chance(300) {
        for _ in 0..pick(&[2, 5, 12]) {
            let input = gen_build(svc);
            spawn(CLIENTS, "burst", async move {
                on_inst(svc, inst, "build", move |v| do_build(svc, inst, v, input)).await;
            });
        }
    }
}

/// Many sessions of other users come into the same store.
async fn crowd() {
    sleep(draw(500) as u64).await;
    if w(|w| w.stop || w.issues.is_empty()) {
        return;
    }
    let n = w(|w| w.issues.len()) as u32;
    let (store, id) = w(|w| {
        let i = &w.issues[draw(n) as usize];
        (w.svcs[i.svc].store.clone(), i.uuid)
    });
    let k = match weighted(&[200, 50, 14, 1]) {
        0 => 20 + draw(60),
        1 => 300,
        2 => 1200,
        _ => 10_500,
    };
    fault("crowd_of_sessions");
    store.crowd(id, k);
}

/// A part of the deployment is cut off from the rest for a while.
async fn partition(insts: Vec<(usize, usize)>) {
    sleep(draw(500) as u64).await;
    if !faults_on() {
        return;
    }
    let (svc, inst) = pick(&insts);
    let node = Svc::node(svc, inst);
    let net = chance(500);
    let both = chance(200);
    event(|| format!("partition: net {} store {} of service {svc} instance {inst}", net || both, !net || both));
    w(|w| {
        if net || both {
            w.net_cut.insert(svc);
        }
        if !net || both {
            w.store_cut.insert(node);
        }
    });
    sleep(20 + draw(400) as u64).await;
    event(|| "heal".into());
    w(|w| {
        w.net_cut.remove(&svc);
        w.store_cut.remove(&node);
    });
}

/// A machine's wall clock is off, or set.
async fn clock_trouble(nodes: Vec<usize>) {
    let node = pick(&nodes);
    sleep(if chance(500) { 0 } else { draw(600) as u64 }).await;
    if w(|w| w.stop) {
        return;
    }
    let hour = 3_600_000i64;
    let by = pick(&[-1i64, 1]) * pick(&[1i64, 999, 61_000, hour, 25 * hour, 400 * 24 * hour, 56 * 365 * 24 * hour]);
    fault(if by < 0 { "clock_back" } else { "clock_forward" });
    cx(|c| *c.skew.entry(node).or_insert(0) += by);
}

/// A request without a request object: everything in the URL.
async fn direct() {
    sleep(draw(300) as u64).await;
    let n = w(|w| w.wallets.len()) as u32;
    let wallet = draw(n) as usize;
    let mut u = w(|w| w.wallets[wallet].endpoint.clone());
    let mut q: Vec<(&str, String)> = vec![];
    if !chance(100) {
        let id = pick(&[
            "redirect_uri:https://client.example/cb", "plain-client", "x_ext:thing", "verifier_attestation:attested.example",
            "openid_federation:https://fed.example", "x509_san_dns:verifier.example", "decentralized_identifier:did:sim:alpha",
            "origin:https://verifier.example", "x509_hash:abc", "pre-registered:abc", "x_other:y", ":x", "redirect_uri",
            "X_EXT:thing", "x_Ext:thing", "REDIRECT_URI:https://client.example/cb", "Origin:https://verifier.example",
            "ORIGIN:https://verifier.example", "X509_San_Dns:verifier.example", "Decentralized_Identifier:did:sim:alpha",
            "X509_HASH:abc", " x_ext:thing", "x_ext :thing", "x_ext", "origin", "origin:", "originx:y", "xorigin:y",
            "verifier_attestation :a", "Pre-Registered:abc", "x-ext:thing", "redirect_uri:", "openid_federation",
            ":redirect_uri:https://client.example/cb", "x_ext:redirect_uri:thing", "redirect_uri:x_ext:thing", "x_ext::thing",
            "redirect_uri:redirect_uri:https://client.example/cb", "x_ext:origin:y", "origin:x_ext:thing", "origin:redirect_uri:x",
            "", " ", "  ", "\t", ":", "::",
        ]);
        q.push(("client_id", id.into()));
    }
    let mode = pick(&["direct_post", "direct_post", "direct_post", "dc_api", "direct_post.jwt"]);
    let mut host = w(|w| w.svcs[0].submit_at.clone());
    if host.cannot_be_a_base() {
        host = "https://elsewhere.example/cb".parse().unwrap();
    }
    if !chance(60) {
        q.push(("response_type", "vp_token".into()));
    }
    if !chance(60) {
        q.push(("response_mode", mode.into()));
    }
    if !chance(60) {
        q.push(("nonce", gen::text_len()));
    }
    if mode.starts_with("direct_post") != chance(60) {
        q.push(("response_uri", at(&host, &Uuid::new_v4())));
    }
    if chance(500) {
        q.push(("state", gen::text()));
    }
    if chance(300) {
        q.push(("x_custom", gen::text()));
    }
    {
        let mut p = u.query_pairs_mut();
        for (k, v) in &q {
            p.append_pair(k, v);
        }
    }
    fault("unsigned_request");
    if let Some(aro) = do_validate(wallet, u, None).await {
        let (r, want, is_jwt) = answer(&aro);
        do_answer(wallet, aro, r, want, is_jwt).await;
    }
}

// ---------------------------------------------------------------- the calm phase

/// People and machines take their time: from minutes to more than a year.
fn long_pause() -> u64 {
    let min = 60_000u64;
    fault("long_pause");
    pick(&[min, 6 * min, 11 * min, 31 * min, 61 * min, 5 * 60 * min, 25 * 60 * min, 8 * 24 * 60 * min, 400 * 24 * 60 * min])
        + draw(60_000) as u64
}

async fn settle(issue: usize) {
    let i = w(|w| w.issues[issue].clone());
    let (svc, id) = (i.svc, i.uuid);
    let store = w(|w| w.svcs[svc].store.clone());
    if w(|w| w.models[store.idx].sessions.get(&id).map(|s| s.removed.is_some()).unwrap_or(true)) {
        return;
    }
    let cfg = w(|w| w.wallets[i.wallet].clone());
    let url = url_for(issue);
    let outer = url.query_pairs().find(|x| x.0 == "client_id").map(|x| x.1.into_owned());
    let jws = parse_jws(&i.jwt).ok();
    let fit = acceptable(&cfg, &i.payload, jws.as_ref(), outer.as_deref());
    let bad = |what: &str| {
        violation(&["C15", "C24"], "not-live", format!("{what} in three tries after all faults had stopped"));
    };
    let mut done = false;
    let pause = w(|w| w.cfg.pause);
    if fit.is_ok() {
        for _ in 0..3 {
            let Some(aro) = do_validate(i.wallet, url.clone(), Some(issue)).await else {
                sleep(20).await;
                continue;
            };
            let (r, want, is_jwt) = answer(&aro);
            let dc = is_dc(&aro);
            if chance(pause / 2) {
                sleep(long_pause()).await;
            }
            if do_answer(i.wallet, aro, r.clone(), want.clone(), is_jwt).await && (!dc || hand_in(issue, r, want).await) {
                done = true;
                break;
            }
            sleep(20).await;
        }
        if !done {
            bad("a supporting wallet could not complete its presentation");
            return;
        }
        probe("calm_completed");
    } else {
        // Not this wallet's: but the session can still be fetched and answered.
        for _ in 0..3 {
            let inst = any_inst(svc);
            let f = on_inst(svc, inst, "fetch", move |v| do_fetch(svc, inst, v, id)).await.flatten();
            let (r, want) = if chance(500) { plain(None, &[]) } else { encrypted() };
            if f.is_some() && hand_in(issue, r, want).await {
                done = true;
                break;
            }
            sleep(20).await;
        }
        if !done {
            bad("a session could not be fetched and answered");
            return;
        }
        probe("calm_answered");
    }
    for inst in 0..w(|w| w.svcs[svc].inst.len()) {
        match on_inst(svc, inst, "poll", move |v| do_poll(svc, inst, v, id)).await.flatten() {
            Some(s) if stage(&s) == 3 => probe("calm_polled"),
            Some(s) => violation(&["C15", "C03"], "not-complete", format!("an answered session polls as {}", js(&s))),
            None => bad("a completed session could not be polled"),
        }
    }
    if chance(pause) {
        // Long after: nothing has changed by itself.
        sleep(long_pause()).await;
        let inst = any_inst(svc);
        match on_inst(svc, inst, "poll", move |v| do_poll(svc, inst, v, id)).await.flatten() {
            Some(s) if stage(&s) == 3 => probe("polled_long_after"),
            Some(s) => violation(&["C15", "C03", "C02"], "not-complete", format!("a completed session polls as {}", js(&s))),
            None => bad("a completed session could not be polled long after"),
        }
        let inst = any_inst(svc);
        if on_inst(svc, inst, "fetch", move |v| do_fetch(svc, inst, v, id)).await.flatten().is_none() {
            violation(&["C04", "C15"], "not-live", "a completed session could not be fetched long after");
        }
    }
}

async fn controller() {
    let cfg = w(|w| w.cfg);
    let n = w(|w| w.svcs.len());
    let mut insts = vec![];
    for s in 0..n {
        for i in 0..w(|w| w.svcs[s].inst.len()) {
            insts.push((s, i));
            spawn(CTL, "supervisor", supervise(s, i));
        }
    }
    for k in 0..cfg.sessions {
        spawn(CLIENTS, "frontend", frontend(if k < n as u32 { k as usize } else { draw(n as u32) as usize }));
    }
    for _ in 0..cfg.crash {
        let (s, i) = pick(&insts);
        let t = draw(600) as u64;
        spawn(CTL, "crasher", crasher(s, i, t));
    }
    for _ in 0..cfg.rogue {
        spawn(CLIENTS, "stranger", stranger());
    }
    for _ in 0..cfg.impostor {
        spawn(CLIENTS, "impostor", impostor());
    }
    for _ in 0..cfg.hostile {
        spawn(CLIENTS, "hostile", crate::hostile::hostile());
    }
    for _ in 0..cfg.direct {
        spawn(CLIENTS, "direct", direct());
    }
    for _ in 0..cfg.misaddress {
        spawn(CLIENTS, "misaddress", misaddress());
    }
    for _ in 0..cfg.hammer {
        spawn(CLIENTS, "hammer", hammer());
    }
    for _ in 0..cfg.nonces {
        spawn(CLIENTS, "nonces", async {
            sleep(draw(800) as u64).await;
            crate::nonce::drawing().await
        });
    }
    for _ in 0..cfg.operator {
        spawn(CLIENTS, "operator", operator());
    }
    for _ in 0..cfg.burst {
        spawn(CLIENTS, "burst", burst());
    }
    for _ in 0..cfg.crowd {
        spawn(CLIENTS, "crowd", crowd());
    }
    let mut nodes: Vec<usize> = insts.iter().map(|(s, i)| Svc::node(*s, *i)).collect();
    nodes.extend([0, CLIENTS]);
    for _ in 0..cfg.skew {
        spawn(CTL, "clock", clock_trouble(nodes.clone()));
    }
    for _ in 0..cfg.partition {
        spawn(CTL, "partition", partition(insts.clone()));
    }
    for _ in 0..cfg.construct {
        spawn(CLIENTS, "construct", async {
            sleep(draw(100) as u64).await;
            construct_probe().await
        });
    }
    sleep(300 + draw(900) as u64).await;
    event(|| "faults stop".into());
    w(|w| {
        w.net_cut.clear();
        w.store_cut.clear();
    });
    cx(|c| c.faults_on = false);
    w(|w| w.stop = true);
    sleep(8000).await;
    if chance(cfg.pause) {
        sleep(long_pause()).await;
    }
    for (s, i) in insts {
        supervise(s, i).await;
        if w(|w| w.svcs[s].inst[i].verifier.is_none()) {
            violation(&["C15", "C16"], "instance-down", "an instance does not come up although all faults have stopped");
        }
    }
    w(|w| w.calm = true);
    // Business goes on: what others ask for later changes nothing for those who wait.
    for _ in 0..if chance(cfg.newcomer) { 1 + draw(3) } else { 0 } {
        newcomer(draw(n as u32) as usize, None).await;
    }
    let known = w(|w| w.issues.len());
    settle_all((0..known).collect()).await;
    // An application may use an id anew: the new session is then all there is.
    if known == 0 || !chance(cfg.reuse) {
        return;
    }
    let mut again = vec![];
    for _ in 0..1 + draw(2) {
        let old = draw(known as u32) as usize;
        let (svc, id) = w(|w| (w.issues[old].svc, w.issues[old].uuid));
        let store = w(|w| w.svcs[svc].store.clone());
        let live = w(|w| w.models[store.idx].sessions.get(&id).map(|s| s.removed.is_none()).unwrap_or(false));
        if live && chance(300) {
            let _ = store.remove_session(id).await;
        }
        again.retain(|a: &usize| w(|w| w.issues[*a].uuid) != id);
        if let Some(new) = newcomer(svc, Some(id)).await {
            probe("session_id_used_again");
            again.push(new);
        }
    }
    settle_all(again).await;
}

async fn newcomer(svc: usize, again: Option<Uuid>) -> Option<usize> {
    let inst = any_inst(svc);
    let mut input = gen_build(svc);
    if again.is_some() {
        input.dc_api = false;
        input.id = again;
        input.again = true;
    }
    on_inst(svc, inst, "build", move |v| do_build(svc, inst, v, input)).await.flatten()
}

async fn settle_all(issues: Vec<usize>) {
    let mut all = vec![];
    for i in issues {
        let (tx, rx) = oneshot();
        spawn(CLIENTS, "settle", async move {
            settle(i).await;
            tx.send(())
        });
        all.push(rx);
    }
    for rx in all {
        rx.await;
    }
}

/// One whole run on this thread; the context has to be installed.
pub fn run_world(prop: &str) {
    let cfg = profile(prop);
    install(cfg);
    note(|| format!("{cfg:?}"));
    for n in 0..cfg.services {
        gen_service(n as usize);
    }
    for n in 0..cfg.wallets {
        gen_wallet(n as usize);
    }
    spawn(CTL, "controller", controller());
    let on_panic = |name: &'static str, msg: String| {
        let mut props = vec!["C15"];
        match w(|w| w.phase.remove(&cur_task())) {
            Some("construct") => props = vec!["C16"],
            Some("seal") => props = vec!["C17"],
            Some("validate") => props.extend(["C08", "C06", "C07"]),
            Some(_) => props.push("C09"),
            None => {}
        }
        let kind = w(|w| w.call_of_task.get(&cur_task()).map(|c| w.calls[*c].kind));
        match kind {
            Some(CallKind::Build) => props.extend(["C01", "C11"]),
            Some(CallKind::Fetch) => props.push("C04"),
            Some(CallKind::Submit) => props.extend(["C03", "C10"]),
            Some(CallKind::Poll) => props.push("C02"),
            Some(CallKind::Start) => props.push("C16"),
            None => {}
        }
        props.push("C24");
        violation(&props, "panic", format!("task {name} panicked: {msg}"));
    };
    let (end, stuck) = run(60_000, &on_panic);
    match end {
        End::StepLimit(alive) => {
            violation(&["C15", "C24"], "step-limit", format!("still running after 60000 steps: {alive:?}"));
        }
        End::Quiescent if !stuck.is_empty() => {
            violation(&["C15", "C24"], "stuck", format!("calls that never return: {stuck:?}"));
        }
        End::Quiescent => {}
    }
    let stores: Vec<SimStore> = w(|w| w.svcs.iter().map(|s| s.store.clone()).collect());
    for s in stores {
        s.check_all("end");
    }
    crate::nonce::check_all();
    uninstall();
}
