//! The simulated network: the wallets' HTTP client. Loses, delays, duplicates, answers in the
//! server's stead, and hands requests to handlers on crashable nodes.

use crate::attack;
use crate::core::*;
use crate::svc::*;
use crate::world::*;
use anyhow::{bail, Result};
use async_trait::async_trait;
use http::{Request, Response};
use openid4vp::core::util::AsyncHttpClient;
use std::sync::{
    atomic::{AtomicBool, Ordering},
    Arc,
};

pub const NET: usize = 1000;

#[derive(Debug, Clone, Copy)]
pub struct SimHttp;

#[async_trait]
impl AsyncHttpClient for SimHttp {
    async fn execute(&self, request: Request<Vec<u8>>) -> Result<Response<Vec<u8>>> {
        let (p, body) = request.into_parts();
        let (method, uri) = (p.method.to_string(), p.uri.to_string());
        let headers =
            p.headers.iter().map(|(k, v)| (k.as_str().to_string(), v.as_bytes().to_vec())).collect::<Vec<_>>();
        let rec = w(|w| {
            w.wop().map(|o| {
                o.http.push(HttpRec {
                    method: method.clone(),
                    uri: uri.clone(),
                    headers,
                    body: body.clone(),
                    answer: None,
                    faulted: true,
                });
                o.http.len() - 1
            })
        });
        note(|| format!("{method} {uri}"));
        let (answer, faulted) = exchange(method, uri, body).await;
        note(|| match &answer {
            Some((s, b)) => format!("answer {s}, {} bytes{}", b.len(), if faulted { ", tampered" } else { "" }),
            None => "no answer".into(),
        });
        w(|w| {
            if let (Some(o), Some(r)) = (w.wop(), rec) {
                o.http[r].answer = Some(answer.clone().ok_or(()));
                o.http[r].faulted = faulted;
            }
        });
        match answer {
            Some((s, b)) => {
                let mut r = Response::builder().status(s);
                if chance(500) {
                    r = r.header("content-type", pick(&["application/json", "text/html", "application/oauth-authz-req+jwt", "text/plain; charset=latin1", ""]));
                }
                // What a server says besides its answer is not for the library to act on.
                if (300..400).contains(&s) && chance(600) || chance(30) {
                    r = r.header("location", pick(&["https://elsewhere.example/next", "/next", "https://verifier.example/", "", "openid4vp://?x=1"]));
                }
                if s >= 400 && chance(200) || chance(20) {
                    r = r.header("retry-after", pick(&["1", "0", "Wed, 21 Oct 2026 07:28:00 GMT", "-1"]));
                }
                if chance(60) {
                    r = r.header("content-length", pick(&["0", "5", "100000", "-1"]));
                }
                if chance(60) {
                    r = r.header("cache-control", pick(&["no-store", "max-age=31536000", "public, immutable"])).header("etag", "\"1\"");
                }
                if chance(40) {
                    r = r.header("content-encoding", pick(&["gzip", "identity"]));
                }
                Ok(r.body(b)?)
            }
            None => bail!("simulated network failure"),
        }
    }
}

fn host(uri: &str) -> &str {
    uri.split("://").nth(1).unwrap_or_default().split(['/', '?']).next().unwrap_or_default()
}

/// What the wallet gets, and whether that is something else than an honest server's answer.
async fn exchange(method: String, uri: String, body: Vec<u8>) -> (Option<(u16, Vec<u8>)>, bool) {
    let cfg = w(|w| w.cfg);
    let c = cfg.net;
    let on = faults_on();
    let d = if on && chance(c.slow) {
        fault("net_slow");
        draw(80)
    } else {
        draw(4)
    };
    // Every exchange takes some time, or a caller that never stops would never be stopped.
    sleep(1 + d as u64).await;
    let svc = w(|w| w.svcs.iter().position(|s| s.host == host(&uri)));
    let Some(svc) = svc else {
        return (attack::evil_server(&method), true);
    };
    let msg = w(|w| {
        w.next_msg += 1;
        let m = w.next_msg;
        if method == "POST" {
            if let Some(p) = w.pending.get(&cur_task()).cloned() {
                w.payload_of_msg.insert(m, p);
            }
        }
        m
    });
    if w(|w| w.net_cut.contains(&svc)) {
        fault("net_partition");
        sleep(pick(&[0, 50, 300])).await;
        return (None, true);
    }
    if on && chance(c.refuse) {
        fault("net_connection_refused");
        return (None, true);
    }
    if on && chance(c.drop) {
        fault("net_request_lost");
        sleep(300).await;
        return (None, true);
    }
    if on && chance(c.dup) {
        fault("net_request_duplicated");
        let (m, u, b) = (method.clone(), uri.clone(), body.clone());
        let d = draw(300) as u64;
        spawn(NET, "late duplicate", async move {
            sleep(d).await;
            deliver(svc, m, u, b, msg).await;
        });
    }
    let r = deliver(svc, method.clone(), uri, body, msg).await;
    if w(|w| w.net_cut.contains(&svc)) {
        fault("net_partition");
        sleep(100).await;
        return (None, true);
    }
    if on && chance(c.resp_loss) {
        fault("net_response_lost");
        sleep(100).await;
        return (None, true);
    }
    let d = if on && chance(c.slow) {
        fault("net_slow");
        draw(80)
    } else {
        draw(4)
    };
    sleep(d as u64).await;
    let Some((mut status, mut body)) = r else { return (None, true) };
    let mut faulted = false;
    if on && chance(c.status) {
        fault("net_status_replaced");
        status = pick(&[
            500u16, 502, 503, 404, 400, 302, 304, 300, 199, 204, 299, 410, 301, 303, 307, 308, 401, 403, 405, 408, 409, 425, 429, 501, 504, 599, 201,
            202, 203, 206, 226, 100, 101, 399, 999,
        ]);
        faulted = true;
    }
    if on && chance(c.corrupt) {
        fault("net_body_corrupted");
        faulted = true;
        corrupt(&mut body);
    }
    if on && method == "GET" && chance(cfg.attack_jwt) {
        fault("attacker_replaced_request_object");
        faulted = true;
        let base = String::from_utf8_lossy(&body).into_owned();
        body = attack::attack_jwt(&base).into_bytes();
        if chance(900) {
            status = 200;
        }
    }
    (Some((status, body)), faulted)
}

fn corrupt(body: &mut Vec<u8>) {
    let n = body.len() as u32;
    match draw(7) {
        0 => {
            let k = draw(n.max(1)) as usize;
            body.truncate(k)
        }
        1 => {
            if n > 0 {
                let k = draw(n) as usize;
                body[k] = pick(&[0xffu8, 0xc3, 0x80])
            } else {
                body.push(0xff)
            }
        }
        2 => {
            if n > 0 {
                let k = draw(n) as usize;
                body[k] = pick(b"AZaz09-_.{}\" \n")
            }
        }
        3 => body.clear(),
        4 => {
            let other = w(|w| w.jwts.iter().map(|x| x.1.clone()).collect::<Vec<_>>());
            if !other.is_empty() {
                *body = pick(&other).into_bytes()
            }
        }
        5 => *body = b"<html><body>502 Bad Gateway</body></html>".to_vec(),
        _ => body.extend(pick(&[&b"\n"[..], b" ", b"=", b".", b"x", b"\xff"])),
    }
}

/// One request reaches one instance behind the load balancer.
async fn deliver(svc: usize, method: String, uri: String, body: Vec<u8>, msg: u64) -> Option<(u16, Vec<u8>)> {
    let n = w(|w| w.svcs[svc].inst.len());
    let inst = draw(n as u32) as usize;
    let Some(v) = w(|w| w.svcs[svc].inst[inst].verifier.clone()) else {
        probe("request_to_down_instance");
        return if chance(500) { Some((503, vec![])) } else { None };
    };
    let (tx, rx) = oneshot();
    let done = Arc::new(AtomicBool::new(false));
    let d2 = done.clone();
    let id = spawn(Svc::node(svc, inst), "handler", async move {
        let r = serve(svc, inst, v, method, uri, body, msg).await;
        d2.store(true, Ordering::Relaxed);
        tx.send(r)
    });
    let rate = w(|w| w.cfg.cancel);
    if faults_on() && chance(rate) {
        let d = draw(25) as u64;
        spawn(NET, "cancel", async move {
            sleep(d).await;
            if !done.load(Ordering::Relaxed) {
                fault("handler_cancelled");
                kill_task(id)
            }
        });
    }
    timeout(2000, rx).await.flatten()
}

/// A request from somebody who is no wallet.
pub async fn rogue(svc: usize, method: &str, uri: String, body: Vec<u8>) -> Option<(u16, Vec<u8>)> {
    let m = w(|w| {
        w.next_msg += 1;
        w.next_msg
    });
    deliver(svc, method.to_string(), uri, body, m).await
}
