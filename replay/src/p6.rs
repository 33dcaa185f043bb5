//! C24: the HTTP layer over the loopback device.
use crate::gen::*;
use crate::p1::R;
use crate::ck;
use hyperborealib::http::client::{HttpClient, ReqwestHttpClient, Response};
use hyperborealib::http::server::{AxumHttpServer, HttpServer};
use hyperborealib::rest_api::prelude::*;
use serde_json::{json, Value as Json};
use std::io::{Read, Write};
use std::net::{IpAddr, Ipv4Addr, SocketAddr, TcpListener, TcpStream};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::Duration;

type Fail = Box<dyn std::error::Error + Send + Sync>;
fn rt() -> &'static tokio::runtime::Runtime { static R: OnceLock<tokio::runtime::Runtime> = OnceLock::new(); R.get_or_init(|| tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap()) }
/// an address of this process's own
fn host() -> IpAddr { static H: OnceLock<IpAddr> = OnceLock::new(); *H.get_or_init(|| {
    let p = std::process::id();
    let own = IpAddr::V4(Ipv4Addr::new(127, 1 + (p / 62500 % 250) as u8, (p / 250 % 250) as u8, 1 + (p % 250) as u8));
    if TcpListener::bind((own, 0)).is_ok() { own } else { IpAddr::V4(Ipv4Addr::LOCALHOST) }
}) }

/// a request or an answer that decodes when it is an object that says so, and encodes when it may
#[derive(Debug, Clone, PartialEq)]
struct Q(Json);
impl AsJson for Q {
    fn to_json(&self) -> Result<Json, AsJsonError> { if self.0.get("mute").is_some() { Err(AsJsonError::FieldValueInvalid("mute")) } else { Ok(self.0.clone()) } }
    fn from_json(j: &Json) -> Result<Self, AsJsonError> { if j.get("q").is_some() { Ok(Q(j.clone())) } else { Err(AsJsonError::FieldNotFound("q")) } }
}
/// one that decodes whatever it is
#[derive(Debug, Clone, PartialEq)]
struct Any(Json);
impl AsJson for Any { fn to_json(&self) -> Result<Json, AsJsonError> { Ok(self.0.clone()) } fn from_json(j: &Json) -> Result<Self, AsJsonError> { Ok(Any(j.clone())) } }
fn doc(g: &mut G, q: bool) -> Json { let x = g.junk(); let t = g.text(); if q { json!({ "q": x, "t": t, "n": g.u64() }) } else { x } }
/// bytes that are the JSON form of something, or nearly
fn body(g: &mut G) -> Vec<u8> {
    let d = g.n(4) != 0; let j = doc(g, d).to_string().into_bytes();
    // a long body: blanks around a document mean nothing, a long text is a value like any other
    if let Some(n) = g.many(1_500_000).or_else(|| if g.n(150) == 0 { Some(60_000 + g.n(600_000)) } else { None }) {
        let n = n.saturating_sub(j.len()) + g.n(3); let pad = vec![b' '; n];
        return match g.n(3) { 0 => [pad, j].concat(), 1 => [j, pad].concat(), _ => [&b"{\"q\":\""[..], &vec![b'x'; n], b"\"}"].concat() }
    }
    match g.n(16) { 0 => vec![], 1 => g.data(), 2 => { let n = g.n(j.len() + 1); j[..n].to_vec() } 3 => [j, g.text().into_bytes()].concat(), 4 => [b" \r\n\t".to_vec(), j, b"\n".to_vec()].concat(), 5 => [b"\xef\xbb\xbf".to_vec(), j].concat(),
        6 => { let mut j = j; let i = g.n(j.len()); j[i] = g.n(256) as u8; j } 7 => [vec![b'['; 200], j, vec![b']'; 200]].concat(), 8 => b"{\"q\":1,\"q\":2}".to_vec(),
        9 => [&b"["[..], &j, b"]"].concat(), 10 => [&b"{\""[..], g.pick(&["request", "response", "body", "data", "0"]).as_bytes(), b"\":", &j, b"}"].concat(), 11 => serde_json::to_vec(&String::from_utf8_lossy(&j).into_owned()).unwrap(), _ => j }
}
fn s(x: &[u8]) -> String { let t = String::from_utf8_lossy(x); if t.len() > 300 { format!("{}…({} bytes)", t.chars().take(200).collect::<String>(), x.len()) } else { t.into_owned() } }

struct Msg { head: String, body: Vec<u8>, whole: bool }
/// one HTTP message; nothing when there is none
fn read(c: &mut TcpStream, answer: bool) -> Option<Msg> {
    let mut b = vec![]; let mut k = [0u8; 65536];
    let at = loop { if let Some(i) = b.windows(4).position(|w| w == b"\r\n\r\n") { break i } let n = c.read(&mut k).ok()?; if n == 0 { return None } b.extend(&k[..n]); };
    let head = String::from_utf8_lossy(&b[..at]).into_owned(); let mut body = b[at + 4..].to_vec();
    let f = |n: &str| head.lines().find_map(|l| l.split_once(':').filter(|(k, _)| k.eq_ignore_ascii_case(n)).map(|(_, v)| v.trim().to_string()));
    if let Some(n) = f("content-length").and_then(|n| n.parse::<usize>().ok()) { while body.len() < n { match c.read(&mut k) { Ok(n) if n > 0 => body.extend(&k[..n]), _ => return Some(Msg { head, body, whole: false }) } } let whole = body.len() == n; return Some(Msg { head, body, whole }) }
    if f("transfer-encoding").is_some() || !answer { return Some(Msg { whole: f("transfer-encoding").is_none(), head, body }) }
    while let Ok(n) = c.read(&mut k) { if n == 0 { break } body.extend(&k[..n]); }
    Some(Msg { head, body, whole: true })
}

/// what a handler was called with, and what it answered
type Calls = Arc<Mutex<Vec<(usize, SocketAddr, Option<Json>)>>>;
fn served(g: &mut G) -> R {
    let calls: Calls = Default::default();
    let mut srv = AxumHttpServer::default();
    let mut routes: Vec<(bool, String, Json, bool)> = vec![];
    for _ in 0..1 + g.n(5) {
        let post = g.n(3) != 0; let path = format!("/{}", g.pick(&["a", "a/b", "api/v1/x", "b", "A", "a/", "a/b/", ""]));
        if routes.iter().any(|r| r.0 == post && r.1 == path) { continue }
        let ans = { let mut a = doc(g, true); if g.n(6) == 0 { a["mute"] = json!(1) } a };
        let (c, i, a) = (calls.clone(), routes.len(), ans.clone()); let any = g.n(3) == 0;
        if post && any { rt().block_on(srv.post(path.clone(), move |at, q: Any| { async move { c.lock().unwrap().push((i, at, Some(q.0))); Q(a) } })) }
        else if post { rt().block_on(srv.post(path.clone(), move |at, q: Q| { async move { c.lock().unwrap().push((i, at, Some(q.0))); Q(a) } })) }
        else { rt().block_on(srv.get(path.clone(), move |at| { async move { c.lock().unwrap().push((i, at, None)); Q(a) } })) }
        routes.push((post, path, ans, any));
    }
    let what = format!("routes {:?}", routes.iter().map(|r| format!("{} {} -> {}", if r.0 { "POST" } else { "GET" }, r.1, s(r.2.to_string().as_bytes()))).collect::<Vec<_>>());
    // the library binds the address itself
    let mut up = None;
    for _ in 0..5 {
        let Ok(l) = TcpListener::bind((host(), 0)) else { return Ok(()) }; let at = l.local_addr().unwrap(); drop(l);
        let x = srv.clone();
        // further addresses are for others
        let more: Vec<SocketAddr> = if g.n(3) == 0 { (0..1 + g.n(2)).filter_map(|_| TcpListener::bind((host(), 0)).ok()?.local_addr().ok()).filter(|m| *m != at).collect() } else { vec![] };
        let others = more.clone(); let all: Vec<SocketAddr> = std::iter::once(at).chain(more).collect();
        let job = rt().spawn(async move { if all.len() == 1 { x.serve(at).await } else { x.serve(&all[..]).await }.map_err(|e| e.to_string()) });
        for i in 0..400 { if job.is_finished() || TcpStream::connect(at).is_ok() || i > 40 && others.iter().any(|o| TcpStream::connect(o).is_ok()) { break } std::thread::sleep(Duration::from_millis(5)); }
        if job.is_finished() { let r = rt().block_on(job); ck!(matches!(r, Ok(Err(_))), "serving {what} ended with {r:?}"); continue }
        if TcpStream::connect(at).is_err() { if let Some(o) = others.iter().find(|o| TcpStream::connect(o).is_ok()) { job.abort(); return Err(format!("asked to serve at {at} and then {others:?}, {what} is served at {o} and not at {at}")) } }
        up = Some((at, job)); break
    }
    let Some((at, job)) = up else { return Err(format!("serving {what} fails at every address")) };
    let r = asked(g, at, &routes, &calls, &what);
    job.abort(); rt().block_on(async { let _ = job.await; });
    r
}
fn asked(g: &mut G, at: SocketAddr, routes: &[(bool, String, Json, bool)], calls: &Calls, what: &str) -> R {
    for _ in 0..1 + g.n(8) {
        let Ok(mut c) = TcpStream::connect(at) else { return Ok(()) };
        let _ = c.set_read_timeout(Some(Duration::from_secs(20)));
        let known = g.n(6) != 0; let post = g.n(3) != 0;
        let (post, path) = if known { let r = g.pick(routes); (r.0, r.1.clone()) } else { (post, g.pick(&["/a", "/b", "/c", "/", "/a/", "/a/b/c", "/A", "/a/b", "/b/", "//a"]).to_string()) };
        let b = if post { body(g) } else { vec![] };
        let ty = *g.pick(&["", "Content-Type: application/json\r\n", "Content-Type: text/plain\r\n"]);
        let mut out = format!("{} {path} HTTP/1.1\r\nHost: {at}\r\n{ty}Connection: close\r\n", if post { "POST" } else { "GET" }).into_bytes();
        if post { out.extend(format!("Content-Length: {}\r\n", b.len()).bytes()) } out.extend(b"\r\n"); out.extend(&b);
        calls.lock().unwrap().clear();
        let me = c.local_addr().ok();
        if c.write_all(&out).is_err() { continue }
        let say = format!("{what}; {} {path} with the body {}", if post { "POST" } else { "GET" }, s(&b));
        let a = read(&mut c, true);
        let got = std::mem::take(&mut *calls.lock().unwrap());
        let a = match a { Some(a) => a, None if got.is_empty() && known => return Err(format!("{say}: no answer")), None => return Err(format!("{say}: no answer, handlers called: {got:?}")) };
        let code: u16 = a.head.split(' ').nth(1).and_then(|x| x.parse().ok()).unwrap_or(0);
        let j: Option<Json> = serde_json::from_slice(&b).ok(); let mine = routes.iter().position(|r| r.0 == post && r.1 == path); let q = j.as_ref().filter(|j| mine.is_some_and(|i| routes[i].3) || j.get("q").is_some());
        match mine {
            None => ck!(code >= 400 && got.is_empty(), "{say}: nobody's, answered {code}, handlers called {got:?}"),
            Some(_) if post && q.is_none() => ck!(code >= 400 && got.is_empty(), "{say}: undecodable, answered {code} {}, handlers called {got:?}", s(&a.body)),
            Some(i) => {
                ck!(got.len() == 1 && got[0].0 == i && got[0].2.as_ref() == q.filter(|_| post) && me.map(|m| m == got[0].1).unwrap_or(true), "{say}: from {me:?}, handlers called {got:?}");
                if routes[i].2.get("mute").is_some() { ck!(code >= 400, "{say}: answered {code} {} for a result that has no JSON form", s(&a.body)) }
                else { ck!(code == 200 && a.whole && serde_json::from_slice::<Json>(&a.body).ok().as_ref() == Some(&routes[i].2), "{say}: answered {code} {}", s(&a.body)) }
            }
        }
    }
    Ok(())
}

/// answers every request with the same thing and keeps what was asked
#[derive(Clone)] struct Said { log: Arc<Mutex<Vec<(String, Option<Json>)>>>, ans: Option<(u16, Option<Json>)> }
impl Said { fn ask(&self, u: &str, b: Option<Json>) -> Result<Response, Fail> { self.log.lock().unwrap().push((u.to_string(), b)); match &self.ans { Some((status, body)) => Ok(Response { status: *status, body: body.clone() }), None => Err("refused".into()) } } }
#[async_trait::async_trait]
impl HttpClient for Said {
    async fn get(&self, url: impl AsRef<str> + Send) -> Result<Response, Fail> { self.ask(url.as_ref(), None) }
    async fn post(&self, url: impl AsRef<str> + Send, body: Json) -> Result<Response, Fail> { self.ask(url.as_ref(), Some(body)) }
}
/// a typed request through any client
fn typed(g: &mut G) -> R {
    let ans = if g.n(5) == 0 { None } else { let b = if g.n(5) == 0 { None } else { let d = g.n(3) != 0; Some(doc(g, d)) }; Some((*g.pick(&[200u16, 201, 204, 400, 404, 500]), b)) };
    let c = Said { log: Default::default(), ans: ans.clone() };
    let url = if g.b() { format!("http://{}/{}", g.addr(), g.word()) } else { g.text() };
    let req = { let mut r = doc(g, true); if g.n(8) == 0 { r["mute"] = json!(1) } r };
    let post = g.b();
    let r: Result<Q, String> = crate::mock::now(async { if post { c.post_request::<Q, Q>(url.clone(), Q(req.clone())).await } else { c.get_request::<Q>(url.clone()).await } }).map_err(|e| e.to_string());
    let log = c.log.lock().unwrap().clone();
    let say = format!("{} {url} {} answered {ans:?}: {r:?}", if post { "POST" } else { "GET" }, if post { req.to_string() } else { String::new() });
    // any answer, when the caller takes any
    if g.n(3) == 0 {
        let j = match g.n(8) { 0 => Json::Null, 1 => json!([]), 2 => json!({}), 3 => json!(""), 4 => json!(false), 5 => json!(0), 6 => json!([doc(g, true)]), _ => { let t = g.text(); json!([t, null]) } };
        let code = *g.pick(&[200u16, 200, 201, 204, 400, 404, 500]);
        let c = Said { log: Default::default(), ans: Some((code, Some(j.clone()))) };
        let r: Result<Any, String> = crate::mock::now(async { if post { c.post_request::<Q, Any>(url.clone(), Q(json!({ "q": 1 }))).await } else { c.get_request::<Any>(url.clone()).await } }).map_err(|e| e.to_string());
        ck!(r.as_ref().ok().map(|x| &x.0) == Some(&j), "{} {url} answered {code} with {j}: the caller got {:?}", if post { "POST" } else { "GET" }, r.map(|x| x.0));
    }
    if post && req.get("mute").is_some() { ck!(r.is_err() && log.is_empty(), "{say}, a request without JSON form, after the requests {log:?}"); return Ok(()) }
    ck!(log == vec![(url.clone(), if post { Some(req.clone()) } else { None })], "{say}, after the requests {log:?}");
    let want = ans.and_then(|a| a.1).filter(|j| j.get("q").is_some()).map(Q);
    ck!(r.clone().ok() == want, "{say}, {want:?} was due");
    Ok(())
}
fn reqwest() -> &'static ReqwestHttpClient { static C: OnceLock<ReqwestHttpClient> = OnceLock::new(); C.get_or_init(|| { for k in ["HTTP_PROXY", "http_proxy", "ALL_PROXY", "all_proxy", "HTTPS_PROXY", "https_proxy"] { std::env::remove_var(k) } let _g = rt().enter(); ReqwestHttpClient::default() }) }
/// the client that goes over the wire
fn wired(g: &mut G) -> R {
    let c = reqwest();
    let Ok(l) = TcpListener::bind((host(), 0)) else { return Ok(()) }; let Ok(at) = l.local_addr() else { return Ok(()) };
    let path = format!("/{}{}", g.pick(&["", "a", "a/b", "api/v1/send"]), g.pick(&["", "?x=1", "?a=b&c=d", "/"]));
    let url = format!("http://{at}{path}");
    let post = g.b(); let raw = g.b();
    let req = doc(g, true);
    let b = body(g); let code = *g.pick(&[200u16, 200, 200, 201, 400, 404, 500, 503]);
    // how the other end behaves: 0 hangs up, 1 cuts the body short, 2 refuses, 3 speaks no HTTP
    let how = g.n(12);
    let cut = if b.is_empty() { 0 } else { g.n(b.len()) };
    let chunked = how == 11 && !b.is_empty(); let until_close = how == 10;
    let b2 = b.clone();
    let other = if how == 2 { drop(l); None } else { Some(std::thread::spawn(move || -> Option<Vec<(Msg, bool)>> {
        let mut all = vec![];
        let (mut s, _) = l.accept().ok()?;
        let _ = s.set_read_timeout(Some(Duration::from_secs(20)));
        let m = read(&mut s, false);
        let sent = match (how, &m) {
            (0, _) | (_, None) => false,
            (3, _) => s.write_all(b"nothing like it\r\n\r\n").is_ok(),
            (1, _) => s.write_all(&[format!("HTTP/1.1 {code} X\r\nContent-Length: {}\r\n\r\n", b2.len() + 1 - usize::from(cut < b2.len())).into_bytes(), b2[..cut].to_vec()].concat()).is_ok(),
            _ if chunked => s.write_all(&[format!("HTTP/1.1 {code} X\r\nTransfer-Encoding: chunked\r\nConnection: close\r\n\r\n").into_bytes(), [&b2[..cut], &b2[cut..]].iter().filter(|p| !p.is_empty()).flat_map(|p| [format!("{:x}\r\n", p.len()).into_bytes(), p.to_vec(), b"\r\n".to_vec()].concat()).collect(), b"0\r\n\r\n".to_vec()].concat()).is_ok(),
            _ if until_close => s.write_all(&[format!("HTTP/1.1 {code} X\r\nConnection: close\r\n\r\n").into_bytes(), b2].concat()).is_ok(),
            _ => s.write_all(&[format!("HTTP/1.1 {code} X\r\nContent-Length: {}\r\nContent-Type: text/json\r\nConnection: close\r\n\r\n", b2.len()).into_bytes(), b2].concat()).is_ok(),
        };
        let _ = s.flush(); let _ = s.shutdown(std::net::Shutdown::Write);
        let _ = s.set_read_timeout(Some(Duration::from_millis(500)));
        let mut k = [0; 64]; while let Ok(n) = s.read(&mut k) { if n == 0 { break } }
        if let Some(m) = m { all.push((m, sent)) }
        // nothing else may come
        l.set_nonblocking(true).ok()?;
        while let Ok((mut s, _)) = l.accept() { let _ = s.set_nonblocking(false); let _ = s.set_read_timeout(Some(Duration::from_millis(500))); if let Some(m) = read(&mut s, false) { all.push((m, false)) } }
        Some(all)
    })) };
    let r: Result<(Option<u16>, Json), String> = rt().block_on(async { let t = Duration::from_secs(30); let job = async {
        match (raw, post) {
            (true, true) => c.post(url.clone(), req.clone()).await.map(|a| (Some(a.status), a.body.unwrap_or(Json::Null))), (true, false) => c.get(url.clone()).await.map(|a| (Some(a.status), a.body.unwrap_or(Json::Null))),
            (false, true) => c.post_request::<Q, Q>(url.clone(), Q(req.clone())).await.map(|q| (None, q.0)), (false, false) => c.get_request::<Q>(url.clone()).await.map(|q| (None, q.0)),
        } };
        tokio::time::timeout(t, job).await.map(|r| r.map_err(|e| e.to_string())).unwrap_or(Err("no end".into())) });
    let say = format!("{} {url} {} answered {code} {} (behaviour {how}): {}", if post { "POST" } else { "GET" }, if post { s(req.to_string().as_bytes()) } else { String::new() }, s(&b), match &r { Ok(x) => s(format!("Ok({x:?})").as_bytes()), Err(e) => format!("Err({e})") });
    let Some(other) = other else { ck!(r.is_err(), "{say}: nobody listens"); return Ok(()) };
    if how < 4 { if r.is_err() && r != Err("no end".into()) { // wake a listener nobody reached
        if !other.is_finished() { drop(TcpStream::connect(at)); } let _ = other.join(); return Ok(()) } return Err(format!("{say}: the exchange failed")) }
    if r.is_err() && !other.is_finished() { std::thread::sleep(Duration::from_millis(700)); if !other.is_finished() { drop(TcpStream::connect(at)); } }
    let Ok(Some(all)) = other.join() else { return Ok(()) };
    // a request that never arrived whole says nothing about this code
    if all.is_empty() || all.iter().any(|a| !a.0.whole) || !all[0].1 { ck!(r.is_err(), "{say}: an answer came to no request"); return Ok(()) }
    ck!(all.len() == 1, "{say}: {} requests arrived", all.len());
    let m = &all[0].0; let line = m.head.lines().next().unwrap_or("");
    ck!(line == format!("{} {path} HTTP/1.1", if post { "POST" } else { "GET" }), "{say}: {line} arrived");
    if post { ck!(serde_json::from_slice::<Json>(&m.body).ok().as_ref() == Some(&req), "{say}: the body {} arrived", s(&m.body)) } else { ck!(m.body.is_empty(), "{say}: the body {} arrived", s(&m.body)) }
    let want = serde_json::from_slice::<Json>(&b).ok().filter(|j| raw || j.get("q").is_some()).map(|j| (if raw { Some(code) } else { None }, j));
    ck!(r.clone().ok() == want, "{say}: {want:?} was due");
    Ok(())
}
pub fn c24(g: &mut G) -> R { for _ in 0..20 { typed(g)? } std::thread::sleep(Duration::from_millis(3)); if g.b() { served(g) } else { wired(g) } }
