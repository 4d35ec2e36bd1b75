//! The bundled HTTP client (`ReqwestClient`) on a simulated network: its sockets are socket pairs
//! whose other ends belong to a simulated server (see the socket hooks below), its runtime is a
//! single-threaded one with simulated time. Everything above the socket calls is real code: reqwest,
//! hyper, tokio. Checked: each call is sent once and as given; what comes back is what the server
//! sent; anything less than a whole answer is an error; calls do not mix or spoil one another.

use crate::core::*;
use crate::gen;
use anyhow::{Context as _, Result};
use async_trait::async_trait;
use base64::prelude::*;
use http::{HeaderValue, Request, Response};
use openid4vp::core::{
    authorization_request::{verification::RequestVerifier, AuthorizationRequestObject},
    metadata::WalletMetadata,
    response::{
        parameters::{State, VpToken, VpTokenItem},
        AuthorizationResponse, JwtAuthorizationResponse, UnencodedAuthorizationResponse,
    },
    util::{AsyncHttpClient, ReqwestClient},
};
use openid4vp::wallet::Wallet;
use serde_json::json;
use std::{
    cell::RefCell,
    collections::{BTreeMap, HashMap},
    net::Ipv4Addr,
    os::fd::FromRawFd,
    rc::Rc,
    sync::Arc,
    time::Duration,
};
use tokio::{
    io::{AsyncReadExt, AsyncWriteExt},
    net::UnixStream,
    sync::mpsc::UnboundedSender,
};
use url::Url;

// ---------------------------------------------------------------- sockets

struct Net {
    tx: UnboundedSender<(i32, (Ipv4Addr, u16))>,
    /// The other ends of sockets that are not connected yet.
    ends: HashMap<i32, i32>,
    mine: Vec<i32>,
}
thread_local! {
    static NET: RefCell<Option<Net>> = const { RefCell::new(None) };
}
fn net<R>(f: impl FnOnce(&mut Net) -> R) -> Option<R> {
    NET.try_with(|n| n.try_borrow_mut().ok().and_then(|mut n| n.as_mut().map(f))).ok().flatten()
}

/// A new socket: None outside the simulation.
pub fn socket(domain: i32) -> Option<i32> {
    if domain != libc::AF_INET && domain != libc::AF_INET6 {
        return None;
    }
    net(|n| {
        let mut p = [0i32; 2];
        let ty = libc::SOCK_STREAM | libc::SOCK_NONBLOCK | libc::SOCK_CLOEXEC;
        if unsafe { libc::socketpair(libc::AF_UNIX, ty, 0, p.as_mut_ptr()) } != 0 {
            return -1;
        }
        if let Some(old) = n.ends.insert(p[0], p[1]) {
            unsafe { libc::close(old) };
        }
        n.mine.push(p[0]);
        p[0]
    })
}
/// Is this one of the simulation's sockets?
pub fn is_mine(fd: i32) -> bool {
    net(|n| n.mine.contains(&fd)).unwrap_or(false)
}
/// Connects it: the error number, 0 for none. None outside the simulation.
///
/// # Safety
/// `addr` is a socket address of `len` bytes.
pub unsafe fn connect(fd: i32, addr: *const libc::sockaddr, _len: libc::socklen_t) -> Option<i32> {
    let end = net(|n| n.ends.remove(&fd)).flatten()?;
    let to = if (*addr).sa_family as i32 == libc::AF_INET {
        let a = &*(addr as *const libc::sockaddr_in);
        (Ipv4Addr::from(u32::from_be(a.sin_addr.s_addr)), u16::from_be(a.sin_port))
    } else {
        (Ipv4Addr::UNSPECIFIED, 0)
    };
    tick();
    if faults_on() && chance(rate()) {
        fault("net_connection_refused");
        hurt();
        libc::close(end);
        return Some(pick(&[libc::ECONNREFUSED, libc::ENETUNREACH, libc::ETIMEDOUT, libc::ECONNRESET, libc::EMFILE]));
    }
    event(|| format!("connect {}:{}", to.0, to.1));
    net(|n| n.tx.send((end, to)).ok());
    Some(if chance(500) { libc::EINPROGRESS } else { 0 })
}

// ---------------------------------------------------------------- what happened

#[derive(Clone, Debug)]
struct Seen {
    to: (Ipv4Addr, u16),
    method: String,
    target: String,
    headers: Vec<(String, Vec<u8>)>,
    body: Vec<u8>,
}
#[derive(Clone, Debug, Default)]
struct Answer {
    status: u16,
    http10: bool,
    headers: Vec<(String, Vec<u8>)>,
    body: Vec<u8>,
    /// Was all of it sent, and is it well-formed?
    whole: bool,
    /// So slow that a client may give up on it.
    slow: bool,
}
/// What a call's answer should be about.
#[derive(Clone, Debug, Default)]
struct Want {
    body: Option<Vec<u8>>,
}
#[derive(Default)]
struct H {
    seen: BTreeMap<u32, Vec<Seen>>,
    answers: BTreeMap<u32, Answer>,
    wants: BTreeMap<u32, Want>,
    hurt: u32,
    rate: u32,
    fragments: u32,
    slow: u32,
    idle_close: u32,
    hosts: Vec<(Ipv4Addr, u16)>,
    t0: Option<tokio::time::Instant>,
    done: u32,
}
thread_local! {
    static HW: RefCell<H> = RefCell::new(H::default());
}
fn h<R>(f: impl FnOnce(&mut H) -> R) -> R {
    HW.with(|x| f(&mut x.borrow_mut()))
}
fn rate() -> u32 {
    h(|h| h.rate)
}
/// Something happened to a connection that can make a call fail.
fn hurt() {
    h(|h| h.hurt += 1)
}
/// Simulated time is the runtime's.
fn tick() {
    if let Some(t0) = h(|h| h.t0) {
        let ms = (tokio::time::Instant::now() - t0).as_millis() as u64;
        cx(|c| {
            c.now = ms;
            c.steps += 1;
        });
        crate::intercept::set_clock(Some((1_770_000_000_000 + ms as i64, 1_000_000 + ms as i64)));
    }
}
async fn pause(ms: u32) {
    if ms > 0 {
        tokio::time::sleep(Duration::from_millis(ms as u64)).await;
    }
    tick();
}

// ---------------------------------------------------------------- the server

fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    h.windows(n.len()).position(|x| x == n)
}
struct Conn {
    s: UnixStream,
    buf: Vec<u8>,
}
impl Conn {
    /// More bytes; false at the end of the stream.
    async fn more(&mut self) -> bool {
        let mut b = vec![0u8; pick(&[8192usize, 65536, 100, 1])];
        match self.s.read(&mut b).await {
            Ok(n) if n > 0 => {
                self.buf.extend_from_slice(&b[..n]);
                true
            }
            _ => false,
        }
    }
    async fn upto(&mut self, n: &[u8]) -> Option<Vec<u8>> {
        loop {
            if let Some(i) = find(&self.buf, n) {
                let rest = self.buf.split_off(i + n.len());
                let mut head = std::mem::replace(&mut self.buf, rest);
                head.truncate(i);
                return Some(head);
            }
            if !self.more().await {
                return None;
            }
        }
    }
    async fn take(&mut self, n: usize) -> Option<Vec<u8>> {
        while self.buf.len() < n {
            if !self.more().await {
                return None;
            }
        }
        let rest = self.buf.split_off(n);
        Some(std::mem::replace(&mut self.buf, rest))
    }
    async fn request(&mut self, to: (Ipv4Addr, u16)) -> Option<Seen> {
        let head = self.upto(b"\r\n\r\n").await?;
        let mut lines = head.split(|b| *b == b'\n').map(|l| l.strip_suffix(b"\r").unwrap_or(l));
        let first = String::from_utf8_lossy(lines.next()?).to_string();
        let mut p = first.split(' ');
        let (method, target) = (p.next()?.to_string(), p.next()?.to_string());
        let headers: Vec<(String, Vec<u8>)> = lines
            .filter_map(|l| {
                let i = l.iter().position(|b| *b == b':')?;
                let name = String::from_utf8_lossy(&l[..i]).to_lowercase();
                let v: &[u8] = &l[i + 1..];
                let v = v.strip_prefix(b" ").unwrap_or(v);
                Some((name, v.to_vec()))
            })
            .collect();
        let get = |n: &str| headers.iter().find(|x| x.0 == n).map(|x| String::from_utf8_lossy(&x.1).to_string());
        let mut body = vec![];
        if get("transfer-encoding").map(|t| t.contains("chunked")).unwrap_or(false) {
            loop {
                let size = self.upto(b"\r\n").await?;
                let n = usize::from_str_radix(String::from_utf8_lossy(&size).trim(), 16).ok()?;
                let chunk = self.take(n + 2).await?;
                if n == 0 {
                    break;
                }
                body.extend_from_slice(&chunk[..n]);
            }
        } else if let Some(n) = get("content-length").and_then(|l| l.parse::<usize>().ok()) {
            body = self.take(n).await?;
        }
        Some(Seen { to, method, target, headers, body })
    }
    /// Sends bytes, in pieces if the run is one of those.
    /// `last` is called before the last of them.
    async fn send(&mut self, b: &[u8], last: impl FnOnce()) -> bool {
        let pieces = if chance(h(|h| h.fragments)) { 1 + draw(6) } else { 0 };
        let mut at = 0;
        for _ in 0..pieces {
            if at + 1 >= b.len() {
                break;
            }
            let n = 1 + draw(((b.len() - at - 1) as u32).min(3000)) as usize;
            fault("net_fragmented");
            if self.s.write_all(&b[at..at + n]).await.is_err() {
                return false;
            }
            at += n;
            pause(draw(40)).await;
        }
        last();
        self.s.write_all(&b[at..]).await.is_ok()
    }
}

fn call_no(target: &str) -> Option<u32> {
    target.split('?').next()?.rsplit('/').next()?.parse().ok()
}

fn header_value() -> Vec<u8> {
    match draw(5) {
        0 => b"application/json; charset=utf-8".to_vec(),
        1 => b"".to_vec(),
        2 => "w\u{fc}rzig \u{2713}".as_bytes().to_vec(),
        3 => vec![0x80 + draw(0x7f) as u8, b'=', b'"', b',', b';'],
        _ => "v".repeat(1 + draw(300) as usize).into_bytes(),
    }
}
fn some_headers(names: &[&str], max: u32) -> Vec<(String, Vec<u8>)> {
    (0..draw(max)).map(|_| (pick(names).to_string(), header_value())).collect()
}
fn some_body() -> Vec<u8> {
    match draw(7) {
        0 => vec![],
        1 => b"{\"redirect_uri\":\"https://example.org/done\"}".to_vec(),
        2 => vec![0, 255, 13, 10, 13, 10, 128],
        3 => b"HTTP/1.1 200 OK\r\ncontent-length: 0\r\n\r\n".to_vec(),
        4 => (0..draw(5000)).map(|i| (i * 31 % 251) as u8).collect(),
        5 => vec![b'x'; 1 + draw(300_000) as usize],
        _ => gen::text().into_bytes(),
    }
}

async fn serve(fd: i32, to: (Ipv4Addr, u16)) {
    let s = unsafe { std::os::unix::net::UnixStream::from_raw_fd(fd) };
    let Ok(s) = UnixStream::from_std(s) else { return };
    let mut c = Conn { s, buf: vec![] };
    let mut first = true;
    loop {
        let rate = if faults_on() { rate() } else { 0 };
        if chance(if faults_on() { h(|h| h.idle_close) } else { 0 }) && (!first || chance(300)) {
            pause(draw(60)).await;
            fault("net_idle_connection_closed");
            hurt();
            return;
        }
        let reused = !std::mem::take(&mut first);
        if chance(rate / 2) {
            // Some of the request is read, none of it is answered.
            if c.more().await {
                fault("server_hangs_up_on_request");
                hurt();
            }
            return;
        }
        let Some(seen) = c.request(to).await else { return };
        tick();
        let Some(no) = call_no(&seen.target) else {
            violation(&["C18"], "unknown-request", format!("the server received a request nobody made: {} {}", seen.method, seen.target));
            return;
        };
        event(|| format!("request {no} {} arrives", seen.method));
        let again = h(|h| {
            let v = h.seen.entry(no).or_default();
            v.push(seen);
            v.len() > 1
        });
        if reused {
            probe("connection_reused");
        }
        if again {
            violation(&["C18", "C08", "C09"], "sent-twice", format!("request {no} was sent more than once"));
        }
        if !answer(&mut c, no, rate).await {
            return;
        }
    }
}

/// False: the connection is at its end.
async fn answer(c: &mut Conn, no: u32, rate: u32) -> bool {
    let want = h(|h| h.wants.get(&no).cloned().unwrap_or_default());
    let mut a = Answer {
        status: pick(&[200, 200, 200, 201, 202, 204, 206, 299, 300, 400, 401, 403, 404, 410, 418, 429, 500, 503, 599]),
        http10: chance(100),
        headers: some_headers(&["x-one", "x-two", "set-cookie", "content-type", "etag", "retry-after", "x-content-encoding"], 6),
        body: some_body(),
        whole: false,
        slow: false,
    };
    if let Some(b) = &want.body {
        if chance(600) {
            a.status = 200;
        }
        if chance(700) {
            a.body = b.clone();
        }
    }
    if a.status == 204 {
        a.body.clear();
    }
    if chance(if faults_on() { h(|h| h.slow) } else { 0 }) {
        fault("server_slow");
        if chance(300) {
            a.slow = true;
            pause(10_000 + draw(3_600_000)).await;
        } else {
            pause(draw(2000)).await;
        }
    } else {
        pause(draw(20)).await;
    }
    let mut b = vec![];
    if chance(80) && !a.http10 {
        b.extend_from_slice(pick(&[&b"HTTP/1.1 103 Early Hints\r\nlink: </a>\r\n\r\n"[..], b"HTTP/1.1 100 Continue\r\n\r\n"]));
    }
    let reason = pick(&["OK", "", "Not What You Think"]);
    b.extend_from_slice(format!("HTTP/1.{} {} {reason}\r\n", !a.http10 as u8, a.status).as_bytes());
    for (k, v) in &a.headers {
        let k = if chance(300) { k.to_uppercase() } else { k.clone() };
        b.extend_from_slice(format!("{k}: ").as_bytes());
        b.extend_from_slice(v);
        b.extend_from_slice(b"\r\n");
    }
    #[derive(PartialEq, Debug)]
    enum How {
        Length,
        Chunked,
        Close,
    }
    let how = match draw(4) {
        _ if a.status == 204 => How::Length,
        0 | 1 => How::Length,
        2 if !a.http10 => How::Chunked,
        _ => How::Close,
    };
    let mut keep = !a.http10 && how != How::Close && chance(700);
    if !keep && chance(700) {
        b.extend_from_slice(b"connection: close\r\n");
    } else if !keep && !a.http10 {
        // Closed without a word: not nice, but it happens.
        hurt();
    }
    let mut cut_from = None;
    match how {
        How::Length => {
            if a.status != 204 {
                b.extend_from_slice(format!("content-length: {}\r\n", a.body.len()).as_bytes());
            }
            b.extend_from_slice(b"\r\n");
            b.extend_from_slice(&a.body);
            cut_from = Some(b.len());
        }
        How::Chunked => {
            b.extend_from_slice(b"transfer-encoding: chunked\r\n\r\n");
            let mut at = 0;
            while at < a.body.len() {
                let n = (1 + draw(20_000) as usize).min(a.body.len() - at);
                b.extend_from_slice(format!("{n:x}\r\n").as_bytes());
                b.extend_from_slice(&a.body[at..at + n]);
                b.extend_from_slice(b"\r\n");
                at += n;
            }
            b.extend_from_slice(b"0\r\n\r\n");
            cut_from = Some(b.len());
        }
        How::Close => {
            b.extend_from_slice(b"\r\n");
            b.extend_from_slice(&a.body);
        }
    }
    let mut sent = true;
    match if chance(rate) { 1 + draw(5) } else { 0 } {
        0 => {}
        1 => {
            fault("server_hangs_up_before_answer");
            hurt();
            h(|h| h.answers.insert(no, a));
            return false;
        }
        2 => {
            let head = find(&b, b"\r\n\r\n").unwrap_or(0);
            b.truncate(draw(head as u32) as usize);
            fault("answer_head_cut");
            (sent, keep) = (false, false);
        }
        3 if cut_from.is_some() => {
            let head = find(&b, b"\r\n\r\n").unwrap_or(0) + 4;
            let max = if how == How::Chunked { b.len() - 2 } else { b.len() };
            if max > head {
                b.truncate(head + draw((max - head) as u32) as usize);
                fault("answer_body_cut");
                (sent, keep) = (false, false);
            }
        }
        _ => {
            b = pick(&[
                &b"SSH-2.0-OpenSSH_9.6\r\n\r\n"[..],
                b"HTTP/1.1 2x0 OK\r\n\r\n",
                b"HTTP/1.1 200 OK\r\ncontent-length: abc\r\n\r\n",
                b"HTTP/1.1 200 OK\r\ncontent-length: 3\r\ncontent-length: 4\r\n\r\nabcd",
                b"HTTP/1.1 200 OK\r\ntransfer-encoding: chunked\r\n\r\nzz\r\nabc\r\n0\r\n\r\n",
                b"\0\0\0\x12\x04\0\0\0\0\0",
                b"HTTP/1.1 200 OK\r\nno colon here\r\n\r\n",
            ])
            .to_vec();
            fault("answer_garbled");
            (sent, keep) = (false, false);
        }
    }
    if !sent {
        hurt();
    }
    let at = a.status;
    h(|h| h.answers.insert(no, a));
    let out = c
        .send(&b, || {
            event(|| format!("request {no} answered {at} {how:?} whole={sent}"));
            h(|h| {
                if let Some(a) = h.answers.get_mut(&no) {
                    a.whole = sent;
                }
            });
        })
        .await;
    tick();
    keep && out
}

// ---------------------------------------------------------------- the client's side

struct TestWallet {
    http: Arc<ReqwestClient>,
    meta: WalletMetadata,
}
#[async_trait]
impl RequestVerifier for TestWallet {
    async fn preregistered(&self, _: &AuthorizationRequestObject, _: Option<String>) -> Result<()> {
        Ok(())
    }
}
#[async_trait]
impl Wallet for TestWallet {
    type HttpClient = ReqwestClient;
    fn metadata(&self) -> &WalletMetadata {
        &self.meta
    }
    fn http_client(&self) -> &ReqwestClient {
        &self.http
    }
}

fn jwt_for(no: u32) -> String {
    let e = |v: serde_json::Value| BASE64_URL_SAFE_NO_PAD.encode(v.to_string());
    format!(
        "{}.{}.",
        e(json!({"alg": "none", "typ": "oauth-authz-req+jwt"})),
        e(json!({"client_id": "shop", "response_type": "vp_token", "response_mode": "direct_post",
            "response_uri": format!("http://10.0.0.1/r/{no}"), "nonce": format!("n{no}"), "dcql_query": {"credentials": []}}))
    )
}

fn authority() -> ((Ipv4Addr, u16), String) {
    let (ip, port) = h(|h| h.hosts.clone())[draw(h(|h| h.hosts.len() as u32)) as usize];
    let text = if port == 80 { ip.to_string() } else { format!("{ip}:{port}") };
    ((ip, port), text)
}

struct Given {
    to: (Ipv4Addr, u16),
    host: String,
    method: String,
    target: String,
    headers: Vec<(String, Vec<u8>)>,
    body: Vec<u8>,
}

/// Compares what the server received with what was given.
fn check_seen(no: u32, g: &Given, props: &[&'static str]) {
    let Some(s) = h(|h| h.seen.get(&no).and_then(|v| v.first().cloned())) else { return };
    let bad = |what: &str, m: String| violation(props, what, format!("request {no}: {m}"));
    if s.to != g.to {
        bad("sent-elsewhere", format!("meant for {:?}, sent to {:?}", g.to, s.to));
    }
    if s.method != g.method || s.target != g.target {
        bad("sent-line", format!("given {} {}, sent {} {}", g.method, g.target, s.method, s.target));
    }
    if s.body != g.body {
        bad("sent-body", format!("a body of {} bytes was given, another of {} bytes was sent", g.body.len(), s.body.len()));
    }
    let all = |l: &[(String, Vec<u8>)], k: &str| l.iter().filter(|x| x.0 == k).map(|x| x.1.clone()).collect::<Vec<_>>();
    if all(&s.headers, "host") != vec![g.host.clone().into_bytes()] {
        bad("sent-host", format!("host should be {}, is {:?}", g.host, all(&s.headers, "host")));
    }
    for (k, _) in &g.headers {
        if all(&s.headers, k) != all(&g.headers, k) {
            bad("sent-header", format!("header {k}: given {:?}, sent {:?}", all(&g.headers, k), all(&s.headers, k)));
        }
    }
    for k in ["cookie", "authorization", "referer"] {
        if all(&g.headers, k).is_empty() && !all(&s.headers, k).is_empty() {
            bad("sent-extra", format!("header {k} was sent although it was not given"));
        }
    }
}

/// One call on the client. True: it came to an end with an answer.
async fn call(client: Arc<ReqwestClient>, no: u32, calm: bool) -> bool {
    let (to, host) = authority();
    let dir = pick(&["", "/a", "/a%20b/%2F", "/tenant/~x;y=1", "//double"]);
    let query = pick(&["", "?", "?a=b&c=%26", "?q=a+b%20c&&", "?x=/y?z"]);
    let target = format!("{dir}/{no}{query}");
    let post = chance(500);
    let g = Given {
        to,
        host: host.clone(),
        method: if post { pick(&["POST", "POST", "PUT", "PATCH", "DELETE"]).into() } else { "GET".into() },
        target: target.clone(),
        headers: some_headers(&["prefer", "x-a", "x-b", "content-type", "accept", "cache-control"], 6),
        body: if post { some_body() } else { vec![] },
    };
    let mut r = Request::builder().method(g.method.as_str()).uri(format!("http://{host}{target}"));
    for (k, v) in &g.headers {
        r = r.header(k, HeaderValue::from_bytes(v).unwrap());
    }
    let r = r.body(g.body.clone()).unwrap();
    event(|| format!("call {no} {}", g.method));
    let got = limited(calm, client.execute(r)).await;
    check_seen(no, &g, &["C18"]);
    judge(no, got, &["C18"], |r, a| compare(r, a)).await
}

/// Calls are sometimes given up.
async fn limited<T>(calm: bool, f: impl std::future::Future<Output = Result<T>>) -> Option<Result<T>> {
    if !calm && chance(h(|h| h.rate)) {
        let ms = draw(60) as u64;
        match tokio::time::timeout(Duration::from_millis(ms), f).await {
            Ok(r) => Some(r),
            Err(_) => {
                tick();
                fault("call_cancelled");
                None
            }
        }
    } else {
        Some(f.await)
    }
}

fn compare(r: Response<Vec<u8>>, a: &Answer) -> Result<(), String> {
    if r.status().as_u16() != a.status {
        return Err(format!("status {} instead of {}", r.status(), a.status));
    }
    if (r.version() == http::Version::HTTP_10) != a.http10 {
        return Err(format!("version {:?}", r.version()));
    }
    for (k, _) in &a.headers {
        let want: Vec<Vec<u8>> = a.headers.iter().filter(|x| x.0 == *k).map(|x| x.1.clone()).collect();
        let got: Vec<Vec<u8>> = r.headers().get_all(k).iter().map(|v| v.as_bytes().to_vec()).collect();
        if want != got {
            return Err(format!("header {k}: {got:?} instead of {want:?}"));
        }
    }
    for k in r.headers().keys() {
        let k = k.as_str();
        if !a.headers.iter().any(|x| x.0 == k) && !["content-length", "transfer-encoding", "connection"].contains(&k) {
            return Err(format!("header {k} was not sent"));
        }
    }
    if *r.body() != a.body {
        return Err(format!("a body of {} bytes instead of the {} that were sent", r.body().len(), a.body.len()));
    }
    Ok(())
}

async fn judge<T>(
    no: u32,
    got: Option<Result<T>>,
    props: &[&'static str],
    cmp: impl FnOnce(T, &Answer) -> Result<(), String>,
) -> bool {
    tick();
    let a = h(|h| h.answers.get(&no).cloned());
    h(|h| h.done += 1);
    match got {
        None => false,
        Some(Ok(r)) => {
            event(|| format!("call {no} ok"));
            match a.filter(|a| a.whole) {
                None => violation(props, "false-answer", format!("call {no} returned an answer that was not sent in full")),
                Some(a) => {
                    if let Err(e) = cmp(r, &a) {
                        violation(props, "answer-changed", format!("call {no}: {e}"))
                    }
                }
            }
            true
        }
        Some(Err(e)) => {
            event(|| format!("call {no} failed"));
            note(|| format!("{e:#}"));
            match a {
                Some(a) if a.whole && !a.slow => {
                    violation(props, "answer-lost", format!("call {no} failed although it was answered in full: {e:#}"))
                }
                None if h(|h| h.hurt) == 0 => {
                    violation(props, "call-failed", format!("call {no} failed although nothing happened to it: {e:#}"))
                }
                _ => {}
            }
            false
        }
    }
}

/// A wallet fetches a request, or submits a response, through the client.
async fn wallet_call(client: Arc<ReqwestClient>, no: u32, calm: bool) -> bool {
    let meta: WalletMetadata = serde_json::from_value(json!({"authorization_endpoint": "openid4vp:", "vp_formats_supported": {}})).unwrap();
    let wl = TestWallet { http: client, meta };
    let (to, host) = authority();
    if chance(500) {
        let jwt = jwt_for(no);
        h(|h| h.wants.insert(no, Want { body: Some(jwt.clone().into_bytes()) }));
        let target = format!("{}/{no}{}", pick(&["", "/req", "/a%2Fb"]), pick(&["", "?t=1", "?u=a%26b&v"]));
        let mut u: Url = "openid4vp:".parse().unwrap();
        u.query_pairs_mut().append_pair("client_id", "shop").append_pair("request_uri", &format!("http://{host}{target}"));
        let g = Given {
            to,
            host: host.clone(),
            method: "GET".into(),
            target,
            headers: vec![("prefer".into(), b"OID4VP-1.0.0".to_vec())],
            body: vec![],
        };
        event(|| format!("wallet call {no} fetch"));
        let got = limited(calm, wl.validate_request(u)).await;
        check_seen(no, &g, &["C18", "C08"]);
        // A request that is refused because of what was answered is a refusal in order.
        let a = h(|h| h.answers.get(&no).cloned());
        if let (Some(Err(_)), Some(a)) = (&got, &a) {
            if a.whole && !((200..300).contains(&a.status) && a.body == jwt.as_bytes()) {
                tick();
                event(|| format!("call {no} refused"));
                return false;
            }
        }
        judge(no, got, &["C18", "C08"], |aro: AuthorizationRequestObject, a| {
            if !(200..300).contains(&a.status) || a.body != jwt.as_bytes() {
                return Err(format!("a request was accepted from an answer of status {}", a.status));
            }
            if aro.nonce().to_string() != format!("n{no}") {
                return Err("another request than the one that was sent".into());
            }
            Ok(())
        })
        .await
    } else {
        h(|h| h.wants.insert(no, Want { body: Some(vec![]) }));
        let target = format!("{}/{no}{}", pick(&["", "/submit", "/s%20t"]), pick(&["", "?t=1"]));
        let jwt = chance(400);
        let mut o = json!({"client_id": "shop", "response_type": "vp_token", "nonce": "n", "dcql_query": {"credentials": []},
            "response_uri": format!("http://{host}{target}")});
        o["response_mode"] = json!(if jwt { "direct_post.jwt" } else { "direct_post" });
        let aro: AuthorizationRequestObject = serde_json::from_value(o).unwrap();
        let (resp, form) = if jwt {
            let t = gen::text();
            let form = vec![("response".to_string(), t.clone())];
            (AuthorizationResponse::Jwt(JwtAuthorizationResponse { response: t }), form)
        } else {
            let t = gen::text();
            let mut v = UnencodedAuthorizationResponse::new(VpToken::with_credential("c", vec![VpTokenItem::String(t.clone())]));
            let mut form = vec![("vp_token".to_string(), json!({"c": [t]}).to_string())];
            if chance(500) {
                let s = gen::text();
                form.push(("state".into(), s.clone()));
                v.state = Some(State(s));
            }
            (AuthorizationResponse::Unencoded(v), form)
        };
        event(|| format!("wallet call {no} submit"));
        let got = limited(calm, wl.submit_response(aro, resp)).await;
        if let Some(s) = h(|h| h.seen.get(&no).and_then(|v| v.first().cloned())) {
            let g = Given {
                to,
                host,
                method: "POST".into(),
                target,
                headers: vec![("content-type".into(), b"application/x-www-form-urlencoded".to_vec())],
                body: s.body.clone(),
            };
            check_seen(no, &g, &["C18", "C09"]);
            let pairs: Vec<(String, String)> =
                url::form_urlencoded::parse(&s.body).map(|(k, v)| (k.to_string(), v.to_string())).collect();
            if pairs != form {
                violation(&["C18", "C09", "C10"], "sent-form", format!("call {no}: sent {pairs:?} instead of {form:?}"));
            }
        }
        let a = h(|h| h.answers.get(&no).cloned());
        let text = |a: &Answer| String::from_utf8(a.body.clone()).ok();
        let reads = |a: &Answer| -> Option<Option<String>> {
            if !(200..300).contains(&a.status) {
                return None;
            }
            let t = text(a)?;
            if t.trim().is_empty() {
                return Some(None);
            }
            let j: serde_json::Value = serde_json::from_str(&t).ok()?;
            match j.get("redirect_uri").and_then(|v| v.as_str()) {
                None => Some(None),
                Some(u) => Some(Some(Url::parse(u).ok()?.to_string())),
            }
        };
        if let (Some(Err(_)), Some(a)) = (&got, &a) {
            if a.whole && reads(a).is_none() {
                tick();
                event(|| format!("call {no} reported as failed"));
                return false;
            }
        }
        judge(no, got, &["C18", "C09"], |u: Option<Url>, a| match reads(a) {
            Some(w) if w == u.as_ref().map(|u| u.to_string()) => Ok(()),
            w => Err(format!("success with {u:?}, should be {w:?}")),
        })
        .await
    }
}

async fn any_call(client: Arc<ReqwestClient>, no: u32, calm: bool) -> bool {
    if chance(400) {
        wallet_call(client, no, calm).await
    } else {
        call(client, no, calm).await
    }
}

async fn client_task(client: Arc<ReqwestClient>, from: u32, n: u32) {
    for i in 0..n {
        pause(draw(80)).await;
        any_call(client.clone(), from + i, false).await;
    }
}

pub fn run_http() {
    HW.with(|x| *x.borrow_mut() = H::default());
    for v in ["HTTP_PROXY", "http_proxy", "ALL_PROXY", "all_proxy", "HTTPS_PROXY", "https_proxy"] {
        if std::env::var_os(v).is_some() {
            std::env::remove_var(v);
        }
    }
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
    let local = tokio::task::LocalSet::new();
    let (tx, mut rx) = tokio::sync::mpsc::unbounded_channel();
    NET.with(|n| *n.borrow_mut() = Some(Net { tx, ends: HashMap::new(), mine: vec![] }));
    let limit = Duration::from_secs(40_000_000);
    let end = rt.block_on(local.run_until(async move {
        let hosts = (0..1 + draw(3)).map(|_| (Ipv4Addr::new(10, 0, 0, 1 + draw(2) as u8), pick(&[8080u16, 80, 443, 1]))).collect();
        h(|h| {
            h.hosts = hosts;
            h.t0 = Some(tokio::time::Instant::now());
            h.rate = pick(&[0, 30, 150, 300]);
            h.fragments = pick(&[0, 100, 500]);
            h.slow = pick(&[0, 100, 300]);
            h.idle_close = pick(&[0, 0, 150, 400]);
        });
        tick();
        tokio::task::spawn_local(async move {
            while let Some((fd, to)) = rx.recv().await {
                tokio::task::spawn_local(serve(fd, to));
            }
        });
        let work = async {
            let client = Arc::new(ReqwestClient::new().context("client").unwrap());
            let tasks = 1 + draw(4);
            let each = 1 + draw(5);
            let set: Rc<RefCell<Vec<tokio::task::JoinHandle<()>>>> = Rc::default();
            for t in 0..tasks {
                let j = tokio::task::spawn_local(client_task(client.clone(), 1 + t * 100, each));
                set.borrow_mut().push(j);
            }
            let all = std::mem::take(&mut *set.borrow_mut());
            for j in all {
                if let Err(e) = j.await {
                    if e.is_panic() {
                        let p = e.into_panic();
                        let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()));
                        violation(&["C18"], "panic", format!("a call panicked: {}", m.unwrap_or_default()));
                    }
                }
            }
            // Everything works again once nothing is in the way. (Connections that were closed
            // without a word may cost a try each.)
            cx(|c| c.faults_on = false);
            tick();
            event(|| "faults stop".into());
            let mut answered = false;
            for i in 0..12 {
                pause(200).await;
                let no = 1000 + i;
                call(client.clone(), no, true).await;
                answered |= h(|h| h.answers.get(&no).map(|a| a.whole).unwrap_or(false));
                if answered {
                    break;
                }
            }
            if !answered {
                violation(&["C18"], "client-spoiled", "twelve calls failed after all faults had stopped");
            }
            probe("http_runs_completed");
        };
        tokio::time::timeout(limit, work).await.is_ok()
    }));
    if !end {
        violation(&["C18"], "never-returns", "a call did not return");
    }
    drop(local);
    drop(rt);
    crate::intercept::set_clock(None);
    if let Some(n) = NET.with(|n| n.borrow_mut().take()) {
        for (_, e) in n.ends {
            unsafe { libc::close(e) };
        }
    }
}
