UT = "src/core/util/mod.rs"
BUGS = []
def bug(**k): BUGS.append(k)

SRV = r'''
/// A server that answers each connection's requests with the given pieces, and counts requests.
fn server(answers: Vec<Vec<u8>>) -> (String, Arc<Mutex<Vec<String>>>) {
    use std::io::{Read, Write};
    let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    let at = format!("http://{}", l.local_addr().unwrap());
    let seen = Arc::new(Mutex::new(vec![]));
    let s2 = seen.clone();
    std::thread::spawn(move || {
        for a in answers {
            let Ok((mut c, _)) = l.accept() else { return };
            let mut got = vec![];
            let mut b = [0u8; 4096];
            // A request ends with the blank line here, plus a body of the length it names.
            loop {
                let n = c.read(&mut b).unwrap_or(0);
                if n == 0 {
                    break;
                }
                got.extend_from_slice(&b[..n]);
                let t = String::from_utf8_lossy(&got).to_string();
                if let Some(i) = t.find("\r\n\r\n") {
                    let len = t.to_lowercase().split("content-length: ").nth(1).and_then(|x| x.split("\r\n").next().unwrap().parse::<usize>().ok()).unwrap_or(0);
                    if got.len() >= i + 4 + len {
                        break;
                    }
                }
            }
            s2.lock().unwrap().push(String::from_utf8_lossy(&got).to_string());
            let _ = c.write_all(&a);
        }
    });
    (at, seen)
}
fn client() -> openid4vp::core::util::ReqwestClient {
    openid4vp::core::util::ReqwestClient::new().unwrap()
}
fn get(u: String) -> Request<Vec<u8>> {
    Request::builder().uri(u).body(vec![]).unwrap()
}
'''

H1 = """        builder
            .headers_mut()
            .context("unable to set headers")?
            .extend(response.headers().clone());
"""
B1 = """        builder
            .body(
                response
                    .bytes()
                    .await
                    .context("failed to extract response body")?
                    .to_vec(),
            )
            .context("unable to construct response")
"""
E1 = """        let response = self
            .0
            .execute(request.try_into().context("unable to convert request")?)
            .await
            .context("http request failed")?;
"""
bug(id="c18-repeated-headers-lost", prop="C18",
 needs="an answer with the same header more than once",
 breaks="only the last of the values reaches the caller",
 edits=[(UT, H1, """        let headers = builder.headers_mut().context("unable to set headers")?;
        for (name, value) in response.headers() {
            headers.insert(name, value.clone());
        }
""")],
 demo=SRV+r'''
#[tokio::test]
async fn demo() {
    let (at, _) = server(vec![b"HTTP/1.1 200 OK\r\nx-a: 1\r\nx-a: 2\r\ncontent-length: 0\r\n\r\n".to_vec()]);
    let r = client().execute(get(format!("{at}/x"))).await.unwrap();
    assert_eq!(r.headers().get_all("x-a").iter().count(), 2);
}
''')
bug(id="c18-partial-body-kept", prop="C18",
 needs="the connection breaking in the middle of an answer's body",
 breaks="the part that arrived is returned as if it were the whole answer",
 edits=[(UT, """        let response = self
            .0
            .execute(""", """        let mut response = self
            .0
            .execute("""), (UT, B1, """        // Read the body piece by piece: it can be large.
        let mut body = Vec::new();
        while let Ok(Some(chunk)) = response.chunk().await {
            body.extend_from_slice(&chunk);
        }

        builder.body(body).context("unable to construct response")
""")],
 demo=SRV+r'''
#[tokio::test]
async fn demo() {
    let (at, _) = server(vec![b"HTTP/1.1 200 OK\r\ncontent-length: 10\r\n\r\nabc".to_vec()]);
    assert!(client().execute(get(format!("{at}/x"))).await.is_err());
}
''')
bug(id="c18-retries-any-failure", prop="C18",
 needs="a server that takes a request and closes the connection without an answer",
 breaks="the request, a submission say, is sent a second time",
 edits=[(UT, E1, """        let request: reqwest::Request =
            request.try_into().context("unable to convert request")?;
        let again = request.try_clone();
        let response = match (self.0.execute(request).await, again) {
            (Ok(response), _) => response,
            // The connection may have gone stale: once more.
            (Err(e), Some(again)) if e.is_request() => self
                .0
                .execute(again)
                .await
                .context("http request failed")?,
            (Err(e), _) => return Err(e).context("http request failed"),
        };
""")],
 demo=SRV+r'''
#[tokio::test]
async fn demo() {
    let (at, seen) = server(vec![vec![], b"HTTP/1.1 200 OK\r\ncontent-length: 0\r\n\r\n".to_vec()]);
    let r = Request::builder().method("POST").uri(format!("{at}/x")).body(b"state=1".to_vec()).unwrap();
    let r = client().execute(r).await;
    assert_eq!(seen.lock().unwrap().len(), 1);
    assert!(r.is_err());
}
''')
bug(id="c18-body-as-text", prop="C18",
 needs="an answer whose body is not valid UTF-8",
 breaks="the body is changed (replacement characters), so that damage goes unnoticed further up",
 edits=[(UT, B1, """        builder
            .body(
                response
                    .text()
                    .await
                    .context("failed to extract response body")?
                    .into_bytes(),
            )
            .context("unable to construct response")
""")],
 demo=SRV+r'''
#[tokio::test]
async fn demo() {
    let (at, _) = server(vec![b"HTTP/1.1 200 OK\r\ncontent-length: 3\r\n\r\na\xffb".to_vec()]);
    let r = client().execute(get(format!("{at}/x"))).await.unwrap();
    assert_eq!(r.body(), b"a\xffb");
}
''')
bug(id="c18-body-limited", prop="C18",
 needs="an answer of more than 64 KiB",
 breaks="the rest of the body is dropped without an error",
 edits=[(UT, B1, """        let mut response = response;
        // Do not let a server fill our memory.
        let mut body = Vec::new();
        while let Some(chunk) = response
            .chunk()
            .await
            .context("failed to extract response body")?
        {
            body.extend_from_slice(&chunk);
            if body.len() > 1 << 16 {
                body.truncate(1 << 16);
                break;
            }
        }

        builder.body(body).context("unable to construct response")
""")],
 demo=SRV+r'''
#[tokio::test]
async fn demo() {
    let mut a = b"HTTP/1.1 200 OK\r\ncontent-length: 100000\r\n\r\n".to_vec();
    a.extend(vec![b'x'; 100_000]);
    let (at, _) = server(vec![a]);
    let r = client().execute(get(format!("{at}/x"))).await;
    assert_eq!(r.unwrap().body().len(), 100_000);
}
''')
bug(id="c18-body-of-put-dropped", prop="C18",
 needs="a request with a body sent with another method than POST",
 breaks="the body is not sent",
 edits=[(UT, E1, """        let (parts, body) = request.into_parts();
        // Only submissions have a body.
        let body = if parts.method == http::Method::POST {
            body
        } else {
            Vec::new()
        };
        let request = Request::from_parts(parts, body);
"""+E1)],
 demo=SRV+r'''
#[tokio::test]
async fn demo() {
    let (at, seen) = server(vec![b"HTTP/1.1 200 OK\r\ncontent-length: 0\r\n\r\n".to_vec()]);
    let r = Request::builder().method("PUT").uri(format!("{at}/x")).body(b"hello".to_vec()).unwrap();
    client().execute(r).await.unwrap();
    assert!(seen.lock().unwrap()[0].ends_with("hello"));
}
''')
