//! C01 - C10: decoders, JSON forms, authentication, messages, codecs, names, keys.
use crate::gen::*;
use hyperborealib::prelude::*;
use serde_json::{json, Value as Json};
use std::str::FromStr;

pub type R = Result<(), String>;
#[macro_export]
macro_rules! ck { ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } } }

pub fn d<T: std::fmt::Debug>(x: T) -> String { let s = format!("{x:?}"); if s.len() > 900 { let mut n = 900; while !s.is_char_boundary(n) { n -= 1 } format!("{}...", &s[..n]) } else { s } }

/// every kind of document, as (name, generator of a valid document, decode)
type Kind = (&'static str, fn(&mut G) -> Option<Json>, fn(&Json) -> Result<(), ()>);
macro_rules! kinds { ($($n:literal $t:ty, $g:expr;)*) => { pub fn kinds() -> Vec<Kind> { vec![$(($n, |g: &mut G| { let x: $t = ($g)(g); x.to_json().ok() }, |j: &Json| <$t>::from_json(j).map(|_| ()).map_err(|_| ()))),*] } } }
fn creq(g: &mut G) -> ConnectRequest { let b = ConnectRequestBody { certificate: g.cert(), client: g.info() }; ConnectRequest(g.req(b)) }
fn areq(g: &mut G) -> AnnounceRequest { let b = g.announce_body(); AnnounceRequest(g.req(b)) }
fn lreq(g: &mut G) -> LookupRequest { let b = LookupRequestBody { public_key: g.pk(), client_type: g.octype() }; LookupRequest(g.req(b)) }
fn preq(g: &mut G) -> PollRequest { let b = PollRequestBody { channel: g.text(), limit: if g.b() { Some(g.u64()) } else { None } }; PollRequest(g.req(b)) }
fn sreq(g: &mut G) -> SendRequest { let b = SendRequestBody { sender: g.sender(), receiver_public: g.pk(), channel: g.text(), message: g.message() }; SendRequest(g.req(b)) }
fn pbody(g: &mut G) -> PollResponseBody { PollResponseBody { messages: g.list(|g| g.msginfo()), remaining: g.u64() } }
fn inforesp(g: &mut G) -> InfoResponse { if g.b() { let s = g.sk(); InfoResponse::new(&s) } else { InfoResponse { standard: 1, public_key: g.pk(), proof_seed: g.u64(), proof_sign: g.bytes(64) } } }
kinds! {
    "ClientInfo" ClientInfo, |g: &mut G| g.info();
    "Client" Client, |g: &mut G| g.client();
    "Server" Server, |g: &mut G| g.server();
    "Sender" Sender, |g: &mut G| g.sender();
    "ConnectionCertificate" ConnectionCertificate, |g: &mut G| g.cert();
    "Message" Message, |g: &mut G| g.message();
    "MessageInfo" MessageInfo, |g: &mut G| g.msginfo();
    "Vec<Client>" Vec<Client>, |g: &mut G| g.list(|g| g.client());
    "Vec<Server>" Vec<Server>, |g: &mut G| g.list(|g| g.server());
    "Vec<MessageInfo>" Vec<MessageInfo>, |g: &mut G| g.list(|g| g.msginfo());
    "Box<Server>" Box<Server>, |g: &mut G| Box::new(g.server());
    "AnnounceRequest" AnnounceRequest, areq;
    "ConnectRequest" ConnectRequest, creq;
    "DisconnectRequest" DisconnectRequest, |g: &mut G| DisconnectRequest(g.req(DisconnectRequestBody::new()));
    "LookupRequest" LookupRequest, lreq;
    "PollRequest" PollRequest, preq;
    "SendRequest" SendRequest, sreq;
    "AnnounceResponse" AnnounceResponse, |g: &mut G| AnnounceResponse(g.resp(AnnounceResponseBody::new()));
    "ConnectResponse" ConnectResponse, |g: &mut G| ConnectResponse(g.resp(ConnectResponseBody::new()));
    "DisconnectResponse" DisconnectResponse, |g: &mut G| DisconnectResponse(g.resp(DisconnectResponseBody::new()));
    "LookupResponse" LookupResponse, |g: &mut G| { let b = g.lookup_body(); LookupResponse(g.resp(b)) };
    "PollResponse" PollResponse, |g: &mut G| { let b = pbody(g); PollResponse(g.resp(b)) };
    "SendResponse" SendResponse, |g: &mut G| SendResponse(g.resp(SendResponseBody::new()));
    "InfoResponse" InfoResponse, inforesp;
    "ClientsResponse" ClientsResponse, |g: &mut G| ClientsResponse { standard: 1, clients: g.list(|g| g.client()) };
    "ServersResponse" ServersResponse, |g: &mut G| ServersResponse { standard: 1, servers: g.list(|g| g.server()) };
}

pub fn quiet<T>(what: impl FnOnce() -> String, f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| format!("panicked on {}: {}", what(), e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()))
}

pub fn c01(g: &mut G) -> R {
    let ks = kinds();
    for _ in 0..6 {
        let k = g.pick(&ks).clone();
        let mut j = quiet(|| k.0.to_string(), || (k.1)(g))?.unwrap_or_else(|| json!({}));
        for _ in 0..*g.pick(&[0, 1, 1, 1, 2, 3]) { g.mutate(&mut j); }
        quiet(|| format!("{}::from_json({})", k.0, d(j.to_string())), || (k.2)(&j))?.ok();
        let k2 = g.pick(&ks).clone();
        quiet(|| format!("{}::from_json({})", k2.0, d(j.to_string())), || (k2.2)(&j))?.ok();
    }
    for n in [0, 1, 7, 8, 9, 32, 33, 40, 41, 42, 64, 65] {
        let mut v = g.bytes(n); if n >= 33 && g.b() { let k = g.pk().to_bytes(); v[n - 33..].copy_from_slice(&k); }
        quiet(|| format!("ConnectionToken::from_bytes({v:?})"), || ConnectionToken::from_bytes(&v))?.ok();
        quiet(|| format!("PublicKey::from_bytes({v:?})"), || PublicKey::from_bytes(&v))?.ok();
        quiet(|| format!("SecretKey::deserialize({v:?})"), || SecretKey::deserialize(&v))?.ok();
        let pk = g.pk(); let m = g.bytes(8);
        quiet(|| format!("verify_signature({m:?}, {v:?})"), || pk.verify_signature(&m, &v))?.ok();
    }
    let sk = g.sk(); let pk = sk.public_key();
    let mut cap = match g.n(4) { 0 => { let n = g.n(90); g.bytes(n) } 1 => { let n = *g.pick(&[0, 1, 7, 8, 9, 71, 72, 73]); g.bytes(n) } _ => { let m = g.data(); sk.create_encapsulated_signature(m) } };
    if g.b() && cap.len() >= 8 { let l = match g.n(6) { 0 => u64::MAX, 1 => u64::MAX - 7, 2 => cap.len() as u64, 3 => (cap.len() - 8) as u64, 4 => (cap.len() - 7) as u64, _ => g.u64() }; cap[..8].copy_from_slice(&l.to_be_bytes()); }
    if g.n(4) == 0 { let k = g.n(cap.len() + 1); cap.truncate(k); }
    quiet(|| format!("decode_encapsulated_signature({})", d(&cap)), || pk.decode_encapsulated_signature(&cap))?.ok();
    let t = match g.n(5) { 0 => g.text(), 1 => { let v = g.data(); base64_encode(v) } 2 => { let n = g.n(70); base64_encode(g.bytes(n)) } 3 => pk.to_base64(), _ => format!("{}{}", g.text(), pk.to_base64()) };
    quiet(|| format!("base64_decode({t:?})"), || base64_decode(&t))?.ok();
    quiet(|| format!("PublicKey::from_base64({t:?})"), || PublicKey::from_base64(&t))?.ok();
    quiet(|| format!("SecretKey::from_base64({t:?})"), || SecretKey::from_base64(&t))?.ok();
    quiet(|| format!("Encoding::decode({t:?})"), || Encoding::Base64.decode(&t))?.ok();
    let key: [u8; 32] = g.bytes(32).try_into().unwrap(); let e = g.enc();
    quiet(|| format!("{e:?}.backward({t:?})"), || e.backward(&t, &key))?.ok();
    let m = Message { content: t.clone(), sign: g.text(), encoding: e };
    quiet(|| format!("{m:?}.read"), || m.read(&sk, &pk))?.ok();
    let x = g.data();
    for c in [Compression::None, Compression::Deflate, Compression::Brotli] { quiet(|| format!("{c:?}.decompress({})", d(&x)), || c.decompress(&x))?.ok(); }
    for c in [Encryption::None, Encryption::Aes256Gcm, Encryption::ChaCha20Poly1305] { quiet(|| format!("{c:?}.decrypt({})", d(&x)), || c.decrypt(&x, &key))?.ok(); }
    const SC: &[&str] = &["hyperborea", "hyp", "hyperborea-client", "hyp-server", "hyp-file", "http", "https", "", "x", "hyp-client", "hyperborea-file", "hyperborea-server"];
    const PRE: &[&str] = &["", "thin:", "thick:", "server:", "file:", "thin", ":", "é:", "x:"];
    let a = match g.n(4) { 0 => g.text(), 1 => format!("://{}", g.text()), _ => format!("{}{}{}{}", g.pick(SC), g.pick(&["://", ":/", "", "://://"]), g.pick(PRE), t) };
    quiet(|| format!("Address parse({a:?})"), || parse_uri(&a))?.ok();
    const NM: &[&str] = &["base64", "/", "//", "aes256-gcm", "chacha20-poly1305", "deflate", "brotli", "none", "plain", "", "x", "é", "base64/", "thin", "thick"];
    let nm: String = (0..g.n(6)).map(|_| *g.pick(NM)).collect::<Vec<_>>().join(g.pick(&["/", "", "//"]));
    quiet(|| format!("names from {nm:?}"), || { Encoding::from_str(&nm).ok(); Encryption::from_str(&nm).ok(); Compression::from_str(&nm).ok(); MessageEncoding::from_str(&nm).ok(); ClientType::from_str(&nm).ok(); })?;
    let c = g.u64(); quiet(|| format!("from_code({c})"), || ResponseStatus::from_code(c))?;
    Ok(())
}
pub use hyperborealib::address::parse as parse_uri;

fn rt<T: AsJson + PartialEq + std::fmt::Debug>(x: T) -> Result<Json, String> {
    let j = x.to_json().map_err(|e| format!("to_json of {} failed: {e}", d(&x)))?;
    let y = T::from_json(&j).map_err(|e| format!("{} was not read back from {}: {e}", d(&x), d(j.to_string())))?;
    ck!(x == y, "{} came back as {}", d(&x), d(&y));
    let j2: Json = serde_json::from_str(&j.to_string()).map_err(|e| e.to_string())?;
    let y = T::from_json(&j2).map_err(|e| format!("{} was not read back from its text: {e}", d(&x)))?;
    ck!(x == y, "{} came back from text as {}", d(&x), d(&y));
    Ok(j)
}
/// mandatory fields of a document: everything but the address of a client info, the type asked for, and lists' items
fn mandatory(j: &Json) -> Vec<Vec<String>> {
    let mut ps = vec![]; G::paths(j, vec![], &mut ps);
    ps.retain(|p| { let (l, up) = p.split_last().unwrap(); let mut c = j.clone(); let o = G::node(&mut c, up).clone();
        !o.is_array() && !(l == "address" && o.get("type").is_some()) && !(l == "type" && o.get("public_key").is_some() && o.get("address").is_none()) });
    ps
}
fn refuses<T: AsJson + std::fmt::Debug>(g: &mut G, j: &Json) -> R {
    let ps = mandatory(j); if ps.is_empty() { return Ok(()) }
    for _ in 0..3 {
        let p = g.pick(&ps).clone(); let (l, up) = p.split_last().unwrap();
        let mut c = j.clone(); if let Json::Object(m) = G::node(&mut c, up) { m.remove(l); }
        if let Ok(x) = T::from_json(&c) { return Err(format!("a document without {} was read as {}: {}", p.join("/"), d(&x), d(c.to_string()))) }
        let v = G::node(&mut j.clone(), &p).clone();
        if v.is_null() { continue }
        // empty bodies carry nothing that could be of the wrong kind
        if v.as_object().map(|m| m.is_empty()).unwrap_or(false) { continue }
        let mut c = j.clone(); let w = match v { Json::String(_) => g.pick(&[json!(1), json!(null), json!([]), json!({}), json!(true)]).clone(), Json::Number(_) => g.pick(&[json!("1"), json!(null), json!(-1), json!(1.5), json!([])]).clone(), Json::Bool(_) => g.pick(&[json!("true"), json!(0), json!(null)]).clone(), _ => g.pick(&[json!("x"), json!(1), json!(null), json!(true)]).clone() };
        if l == "limit" && w.is_null() { continue }
        *G::node(&mut c, &p) = w;
        if let Ok(x) = T::from_json(&c) { return Err(format!("a document whose {} has the wrong kind was read as {}: {}", p.join("/"), d(&x), d(c.to_string()))) }
    }
    Ok(())
}
fn both<T: AsJson + PartialEq + std::fmt::Debug>(g: &mut G, x: T) -> R { let j = rt(x)?; refuses::<T>(g, &j) }

pub fn c02(g: &mut G) -> R {
    let x = g.info(); both(g, x)?; let x = g.client(); both(g, x)?; let x = g.server(); both(g, x)?; let x = g.sender(); both(g, x)?; let x = g.cert(); both(g, x)?;
    let x = g.message(); both(g, x)?; let x = g.msginfo(); both(g, x)?; let x = g.list(|g| g.client()); both(g, x)?; let x = g.list(|g| g.server()); both(g, x)?; let x = g.list(|g| g.msginfo()); both(g, x)?;
    let x = Box::new(g.server()); both(g, x)?;
    // constructors keep what they are given
    let a = g.addr(); let t = g.ctype();
    for (x, t, w) in [(ClientInfo::thin(), ClientType::Thin, None), (ClientInfo::default(), ClientType::Thin, None), (ClientInfo::thick(&a), ClientType::Thick, Some(&a)), (ClientInfo::server(&a), ClientType::Server, Some(&a)), (ClientInfo::file(&a), ClientType::File, Some(&a)), (ClientInfo::new(t, Some(&a)), t, Some(&a)), (ClientInfo::new(t, None::<&String>), t, None)] {
        ck!(x.client_type == t && x.address.as_ref() == w, "a client info made for {t:?} {w:?} is {}", d(&x));
    }
    let k = g.pk(); let x = Server::new(k.clone(), &a); ck!(x.public_key == k && x.address == a, "a server made for {a:?} is {}", d(&x));
    let c = g.cert(); let i = g.info(); let x = Client::new(k.clone(), c.clone(), i.clone()); ck!(x.public_key == k && x.certificate == c && x.info == i, "a client record is {}", d(&x));
    let cl = g.client(); let sv = g.server(); let x = Sender::new(cl.clone(), sv.clone()); ck!(x.client == cl && x.server == sv, "a sender is {}", d(&x));
    let m = g.message(); let sd = g.sender(); let at = g.u64(); let x = MessageInfo::new(sd.clone(), &a, m.clone(), at); ck!(x.sender == sd && x.channel == a && x.message == m && x.received_at == at, "a message info is {}", d(&x));
    // the fields stand for themselves
    let x = g.client(); let j = x.to_json().unwrap();
    ck!(j["public_key"] == json!(x.public_key.to_base64()), "client key field is {}", j["public_key"]);
    Ok(())
}
fn std1<T: AsJson + PartialEq + std::fmt::Debug + Clone>(g: &mut G, x: T, bump: impl Fn(&mut T, u64)) -> R {
    let j = rt(x.clone())?; refuses::<T>(g, &j)?;
    let s = *g.pick(&[0, 2, 3, 1 << 32, u64::MAX]);
    let mut c = j.clone(); c["standard"] = json!(s);
    if let Ok(y) = T::from_json(&c) { return Err(format!("standard {s} was read as {}", d(&y))) }
    let mut y = x; bump(&mut y, s);
    if y.to_json().is_ok() { return Err(format!("standard {s} was written for {}", d(&y))) }
    Ok(())
}
fn bump<T>(r: &mut Response<T>, n: u64) { match r { Response::Success { standard, .. } | Response::Error { standard, .. } => *standard = n } }
fn status<T: AsJson + std::fmt::Debug>(g: &mut G, x: &T, ok: fn(&T) -> bool) -> R {
    let mut j = x.to_json().map_err(|e| e.to_string())?;
    let c = *g.pick(&[100, 200, 300, 301, 310, 311, 320, 321, 322, 0, 99, 101, 199, 400, 1000]);
    j["status"] = json!(c);
    let y = T::from_json(&j);
    match y { Ok(y) => { ck!(ok(&y) == (c == 100), "a document of status {c} was read as {}", d(&y)); ck!([100, 200, 300, 301, 310, 311, 320, 321, 322].contains(&c), "unknown status {c} was read as {}", d(&y)) }, Err(_) => () }
    Ok(())
}
pub fn c03(g: &mut G) -> R {
    let x = areq(g); std1(g, x, |x, n| x.0.standard = n)?; let x = creq(g); std1(g, x, |x, n| x.0.standard = n)?; let x = lreq(g); std1(g, x, |x, n| x.0.standard = n)?; let x = preq(g); std1(g, x, |x, n| x.0.standard = n)?; let x = sreq(g); std1(g, x, |x, n| x.0.standard = n)?;
    let x = DisconnectRequest(g.req(DisconnectRequestBody::new())); std1(g, x, |x, n| x.0.standard = n)?;
    macro_rules! rs { ($t:ident, $b:expr) => {{ let b = $b; let x = $t(g.resp(b)); status(g, &x, |x| matches!(x.0, Response::Success { .. }))?; std1(g, x, |x, n| bump(&mut x.0, n))?; }} }
    rs!(AnnounceResponse, AnnounceResponseBody::new()); rs!(ConnectResponse, ConnectResponseBody::new()); rs!(DisconnectResponse, DisconnectResponseBody::new()); rs!(SendResponse, SendResponseBody::new()); rs!(LookupResponse, g.lookup_body()); rs!(PollResponse, pbody(g));
    let x = inforesp(g); std1(g, x, |x, n| x.standard = n)?;
    let x = ClientsResponse { standard: 1, clients: g.list(|g| g.client()) }; std1(g, x, |x, n| x.standard = n)?;
    let x = ServersResponse { standard: 1, servers: g.list(|g| g.server()) }; std1(g, x, |x, n| x.standard = n)?;
    Ok(())
}

/// (seed, proof, expected answer of validation: None for an error) made for key s
pub fn proofs(g: &mut G, s: &SecretKey) -> (u64, Vec<u8>, Option<bool>) {
    let seed = g.seed64(); let good = s.create_signature(seed.to_be_bytes());
    match g.n(14) {
        9 => { let mut x = good; let n = *g.pick(&[1, 2, 8, 64]); x.extend(g.bytes(n)); (seed, x, None) }
        10 => (seed, [good.clone(), good].concat(), None),
        11 => { let x = g.vary_bytes(&seed.to_be_bytes()); if x == seed.to_be_bytes() { (seed, good, Some(true)) } else { (seed, s.create_signature(x), Some(false)) } }
        0 => { let low = *g.pick(&[0, 1, (1 << 63) - 1, 1 << 62, 77]); (low, s.create_signature(low.to_be_bytes()), None) }
        1 => (seed, g.sk().create_signature(seed.to_be_bytes()), Some(false)),
        2 => (seed, s.create_signature((seed ^ 1).to_be_bytes()), Some(false)),
        3 => if seed.to_le_bytes() == seed.to_be_bytes() { (seed, good, Some(true)) } else { (seed, s.create_signature(seed.to_le_bytes()), Some(false)) },
        4 => (seed, s.create_signature(seed.to_string()), Some(false)),
        5 => { let n = *g.pick(&[0, 1, 63, 65]); (seed, g.bytes(n), None) }
        6 => (if seed == u64::MAX { 1 << 63 } else { seed + 1 }, good, Some(false)),
        _ => (seed, good, Some(true)),
    }
}
pub fn same(what: &str, got: Result<bool, ValidationError>, want: Option<bool>) -> R { let g = got.ok(); ck!(g == want, "{what}: answered {g:?}, should be {want:?}"); Ok(()) }
fn fresh<T: PartialEq + std::fmt::Debug>(r: &Request<T>, pk: &PublicKey, body: &T) -> R {
    ck!(r.standard == 1 && &r.public_key == pk && &r.request == body, "a built request carries {}", d(r));
    ck!(r.proof_seed >= 1 << 63, "a built request has the seed {}", r.proof_seed);
    same("a built request", r.validate(), Some(true))?;
    ck!(pk.verify_signature(r.proof_seed.to_be_bytes(), &r.proof_sign).ok() == Some(true), "a built request is not signed: {}", d(r));
    Ok(())
}
pub fn c04(g: &mut G) -> R {
    let s = g.sk(); let pk = s.public_key(); let (seed, sign, want) = proofs(g, &s);
    let b = PollRequestBody { channel: g.text(), limit: None };
    let r = Request { standard: 1, public_key: pk.clone(), proof_seed: seed, proof_sign: sign.clone(), request: b.clone() };
    same(&format!("request with seed {seed}, proof {sign:?}"), r.validate(), want)?;
    same("poll request", PollRequest(r.clone()).validate(), want)?;
    same("disconnect request", DisconnectRequest(Request { standard: 1, public_key: pk.clone(), proof_seed: seed, proof_sign: sign.clone(), request: DisconnectRequestBody::new() }).validate(), want)?;
    same("lookup request", LookupRequest(Request { standard: 1, public_key: pk.clone(), proof_seed: seed, proof_sign: sign.clone(), request: LookupRequestBody::new(g.pk(), None) }).validate(), want)?;
    same("send request", SendRequest(Request { standard: 1, public_key: pk.clone(), proof_seed: seed, proof_sign: sign.clone(), request: SendRequestBody::new(g.sender(), g.pk(), "x", g.message()) }).validate(), want)?;
    same("server announcement", AnnounceRequest(Request { standard: 1, public_key: pk.clone(), proof_seed: seed, proof_sign: sign.clone(), request: AnnounceRequestBody::server(g.server()) }).validate(), want)?;
    fresh(&Request::new(&s, b.clone()), &pk, &b)?;
    let lim = if g.b() { Some(g.u64()) } else { None }; let ch = g.text();
    fresh(&PollRequest::new(&s, &ch, lim).0, &pk, &PollRequestBody { channel: ch.clone(), limit: lim })?;
    fresh(&DisconnectRequest::new(&s).0, &pk, &DisconnectRequestBody::new())?;
    let (k, t) = (g.pk(), g.octype()); fresh(&LookupRequest::new(&s, k.clone(), t).0, &pk, &LookupRequestBody { public_key: k, client_type: t })?;
    let (se, k, m) = (g.sender(), g.pk(), g.message()); fresh(&SendRequest::new(&s, se.clone(), k.clone(), &ch, m.clone()).0, &pk, &SendRequestBody { sender: se, receiver_public: k, channel: ch, message: m })?;
    let (c, sv) = (g.client(), g.server()); fresh(&AnnounceRequest::server(&s, sv.clone()).0, &pk, &AnnounceRequestBody::Server { server: sv.clone() })?;
    let r = AnnounceRequest::client(&s, c.clone(), sv.clone()); fresh(&r.0, &pk, &AnnounceRequestBody::Client { client: c, server: sv })?;
    let (k, i) = (g.pk(), g.info()); let r = ConnectRequest::new(&s, k.clone(), i.clone()); same("built connect request", r.validate(&k), Some(true))?;
    ck!(r.0.request.client == i && r.0.public_key == pk && r.0.standard == 1 && r.0.request.certificate.token.public_key == k, "a built connect request carries {}", d(&r));
    let x = InfoResponse { standard: 1, public_key: pk, proof_seed: seed, proof_sign: sign };
    same("info answer", x.validate(), want)?;
    Ok(())
}
pub fn c05(g: &mut G) -> R {
    let s = g.sk(); let pk = s.public_key(); let (seed, sign, want) = proofs(g, &s);
    macro_rules! one { ($t:ident, $b:expr) => {{
        let b = $b; let r = Response::Success { standard: 1, status: ResponseStatus::Success, public_key: pk.clone(), proof_sign: sign.clone(), response: b.clone() };
        same(&format!("success response for seed {seed}, proof {sign:?}"), r.validate(seed), want)?; same(stringify!($t), $t(r).validate(seed), want)?;
        let st = g.ostatus(); let re = g.text(); let e = $t::error(st, &re);
        match &e.0 { Response::Error { standard: 1, status, reason } if *status == st && *reason == re => (), o => return Err(format!("error response built as {}", d(o))) }
        same("error response", e.validate(g.u64()), Some(true))?;
    }} }
    one!(AnnounceResponse, AnnounceResponseBody::new()); one!(ConnectResponse, ConnectResponseBody::new()); one!(DisconnectResponse, DisconnectResponseBody::new()); one!(SendResponse, SendResponseBody::new());
    let lb = g.lookup_body(); let pb = pbody(g); one!(LookupResponse, lb.clone()); one!(PollResponse, pb.clone());
    let sd = g.seed64(); let st = *g.pick(&STATUSES);
    macro_rules! built { ($x:expr, $b:expr) => {{ let x = $x; let b = $b; match &x.0 { Response::Success { standard: 1, status, public_key, response, proof_sign } if *status == st && *public_key == pk && *response == b => { ck!(pk.verify_signature(sd.to_be_bytes(), proof_sign).ok() == Some(true), "success response not signed over its seed {sd}: {}", d(&x)); }, o => return Err(format!("success response built as {}", d(o))) }
        same("built success response", x.validate(sd), Some(true))?; same("built success response for another seed", x.validate(if sd == u64::MAX { sd - 1 } else { sd + 1 }), Some(false))?; same("built response, small seed", x.validate(sd & !(1 << 63)), None)?;
        ck!(x.0.status() == st && x.0.standard() == 1, "status {:?} standard {}", x.0.status(), x.0.standard()); }} }
    built!(AnnounceResponse::success(st, &s, sd), AnnounceResponseBody::new()); built!(ConnectResponse::success(st, &s, sd), ConnectResponseBody::new()); built!(DisconnectResponse::success(st, &s, sd), DisconnectResponseBody::new()); built!(SendResponse::success(st, &s, sd), SendResponseBody::new());
    built!(LookupResponse::success(st, &s, sd, lb.clone()), lb); built!(PollResponse::success(st, &s, sd, pb.clone()), pb);
    Ok(())
}
/// a certificate with the answer validation must give for client c and server v
pub fn certs(g: &mut G, c: &SecretKey, v: &PublicKey) -> (ConnectionCertificate, Option<bool>) {
    let tok = ConnectionToken { auth_date: g.u64(), public_key: v.clone() };
    match g.n(12) {
        8 => { let mut x = ConnectionCertificate::new(c, v.clone()); let n = *g.pick(&[1, 8, 64]); x.sign.extend(g.bytes(n)); (x, None) }
        9 => { let b = tok.to_bytes(); let x = g.vary_bytes(&b); let ok = x == b; let s = c.create_signature(x); (ConnectionCertificate { token: tok, sign: s }, Some(ok)) }
        0 => (ConnectionCertificate::new(c, g.other(v)), Some(false)),
        1 => (ConnectionCertificate::new(&g.sk(), v.clone()), Some(false)),
        2 => { let mut x = ConnectionCertificate::new(c, v.clone()); x.token.auth_date ^= 1 << g.n(64); (x, Some(false)) }
        3 => { let mut x = ConnectionCertificate::new(c, g.other(v)); x.token.public_key = v.clone(); (x, Some(false)) }
        4 => { let n = *g.pick(&[0, 1, 63, 65]); (ConnectionCertificate { token: tok, sign: g.bytes(n) }, None) }
        5 => { let s = c.create_signature(v.to_bytes()); (ConnectionCertificate { token: tok, sign: s }, Some(false)) }
        6 => { let s = c.create_signature(tok.to_bytes()); (ConnectionCertificate { token: tok, sign: s }, Some(true)) }
        _ => (ConnectionCertificate::new(c, v.clone()), Some(true)),
    }
}
pub fn and(a: Option<bool>, b: Option<bool>) -> Option<bool> { match (a, b) { (Some(true), Some(true)) => Some(true), _ => None } }
/// accepted exactly when it should be (how it is refused does not matter here)
fn accepts(what: &str, got: Result<bool, impl std::fmt::Debug>, want: bool) -> R { ck!((matches!(got, Ok(true))) == want, "{what}: answered {got:?}, should be accepted: {want}"); Ok(()) }
pub fn c06(g: &mut G) -> R {
    let c = g.sk(); let v = if g.n(12) == 0 { c.public_key() } else { g.pk() }; let (x, want) = certs(g, &c, &v);
    let got = x.validate(&c.public_key(), &v).ok();
    // a token for another server is refused whatever the signature says
    ck!(got == want, "certificate {} for client {} and server {}: answered {got:?}, should be {want:?}", d(&x), c.public_key().to_base64(), v.to_base64());
    let tok = x.token.to_bytes();
    ck!(tok[..8] == x.token.auth_date.to_be_bytes() && tok[8..] == x.token.public_key.to_bytes(), "token bytes of {} are {tok:?}", d(&x.token));
    ck!(ConnectionToken::from_bytes(tok).ok().as_ref() == Some(&x.token), "token does not come back: {}", d(&x.token));
    // requests
    let (seed, sign, w2) = proofs(g, &c);
    let r = ConnectRequest(Request { standard: 1, public_key: c.public_key(), proof_seed: seed, proof_sign: sign, request: ConnectRequestBody { certificate: x.clone(), client: g.info() } });
    accepts("connect request", r.validate(&v), and(want, w2) == Some(true))?;
    let z = g.other(&v); if z != x.token.public_key { accepts("connect request to another server", r.validate(&z), false)?; }
    let who = if g.b() { c.clone() } else { g.sk() }; let (seed, sign, w2) = proofs(g, &who);
    let cl = Client { public_key: c.public_key(), certificate: x.clone(), info: g.info() };
    let r = AnnounceRequest(Request { standard: 1, public_key: who.public_key(), proof_seed: seed, proof_sign: sign, request: AnnounceRequestBody::Client { client: cl.clone(), server: Server { public_key: v.clone(), address: g.addr() } } });
    accepts(&format!("announcement {}", d(&r)), r.validate(), and(want, w2) == Some(true))?;
    let mut r2 = r.clone(); if let AnnounceRequestBody::Client { server, .. } = &mut r2.0.request { server.public_key = g.other(&v); if server.public_key != x.token.public_key { accepts("announcement naming another server", r2.validate(), false)?; } }
    let mut r2 = r; if let AnnounceRequestBody::Client { client, .. } = &mut r2.0.request { client.public_key = g.other(&c.public_key()); } accepts("announcement naming another client", r2.validate(), false)?;
    Ok(())
}
pub fn c07(g: &mut G) -> R {
    let a = g.sk(); let b = if g.n(6) == 0 { a.clone() } else { g.sk() }; let (data, e, l) = (g.data(), g.enc(), g.level());
    let m = Message::create(&a, &b.public_key(), &data, e, l).map_err(|x| format!("create failed: {x}"))?;
    ck!(m.encoding == e, "message of encoding {e:?} made with {:?}", m.encoding);
    let got = m.read(&b, &a.public_key()).map_err(|x| format!("message {} from {} bytes {:?} was not opened: {x}", d(&m), data.len(), d(&data)))?;
    ck!(got == data, "{:?} level {l:?}: {} bytes sealed, {} bytes opened: {}", e, data.len(), got.len(), d(&got));
    let k = a.create_shared_secret(&b.public_key(), None);
    ck!(e.backward(&m.content, &k).ok().as_deref() == Some(&data[..]), "content does not decode under the shared secret ({e:?})");
    ck!(e.backward(&m.sign, &k).ok().map(|s| a.public_key().verify_signature(&data, s).ok()) == Some(Some(true)), "sign is not the sender's signature ({e:?})");
    // altered in some way: an error, or the very data the signature is for
    let mut w = m.clone(); let other = g.data(); let what;
    match g.n(6) {
        0 => { what = "content of other data"; w.content = e.forward(&other, &k, l).map_err(|x| x.to_string())?; if other == data { return Ok(()) } }
        1 => { what = "signature of another key"; w.sign = e.forward(g.sk().create_signature(&data), &k, l).map_err(|x| x.to_string())?; }
        2 => { what = "malformed signature"; let n = *g.pick(&[0, 1, 63, 65]); w.sign = e.forward(g.bytes(n), &k, l).map_err(|x| x.to_string())?; }
        3 => { what = "signature of other data"; w.sign = e.forward(a.create_signature(&other), &k, l).map_err(|x| x.to_string())?; if other == data { return Ok(()) } }
        4 => { what = "junk content"; w.content = g.text(); if w.content == m.content { return Ok(()) } }
        _ => { let z = g.other(&a.public_key()); ck!(w.read(&b, &z).is_err(), "message of {} opened under the key of {}", a.public_key().to_base64(), z.to_base64()); return Ok(()) }
    }
    if let Ok(got) = w.read(&b, &a.public_key()) {
        // junk may decode to the very data that was signed (to nothing, say)
        if what == "junk content" && got == data { return Ok(()) }
        return Err(format!("{what}: {} opened as {}", d(&w), d(&got)));
    }
    Ok(())
}
pub fn c08(g: &mut G) -> R {
    let (data, l) = (g.data(), g.level()); let key: [u8; 32] = g.bytes(32).try_into().unwrap();
    ck!(Encoding::Base64.decode(Encoding::Base64.encode(&data)).ok().as_ref() == Some(&data), "base64 of {} does not come back", d(&data));
    ck!(base64_decode(base64_encode(&data)).ok().as_ref() == Some(&data), "base64 of {} does not come back", d(&data));
    for c in [Compression::None, Compression::Deflate, Compression::Brotli] {
        let p = c.compress(&data, l).map_err(|e| format!("{c:?} compress failed: {e}"))?; let u = c.decompress(&p).map_err(|e| format!("{c:?} decompress of {} bytes at {l:?} failed: {e}", data.len()))?;
        ck!(u == data, "{c:?} at {l:?}: {} bytes came back as {}: {}", data.len(), u.len(), d(&data));
        if c == Compression::None { ck!(p == data, "plain compression changed {}", d(&data)) }
        if c == Compression::Deflate { ck!(deflate_decompress(&p).ok().as_ref() == Some(&data), "deflate did not deflate") }
        if c == Compression::Brotli { ck!(brotli_decompress(&p).ok().as_ref() == Some(&data), "brotli did not brotli") }
    }
    ck!(deflate_compress(&data, l).ok().and_then(|p| deflate_decompress(p).ok()).as_ref() == Some(&data), "deflate"); ck!(brotli_compress(&data, l).ok().and_then(|p| brotli_decompress(p).ok()).as_ref() == Some(&data), "brotli");
    for c in [Encryption::None, Encryption::Aes256Gcm, Encryption::ChaCha20Poly1305] {
        let p = c.encrypt(&data, &key).map_err(|e| format!("{c:?} encrypt failed: {e}"))?; let u = c.decrypt(&p, &key).map_err(|e| format!("{c:?} decrypt of {} bytes failed: {e}", data.len()))?;
        ck!(u == data, "{c:?}: {} came back as {}", d(&data), d(&u));
        let alone = match c { Encryption::None => Some(p.clone()), Encryption::Aes256Gcm => aes256_gcm_decrypt(&p, &key).ok(), Encryption::ChaCha20Poly1305 => chacha20_poly1305_decrypt(&p, &key).ok() };
        ck!(alone.as_ref() == Some(&data), "{c:?} was not the cipher applied");
        if c != Encryption::None { ck!(p != data, "{c:?} left the data readable"); let mut k2 = key; k2[g.n(32)] ^= 1 << g.n(8); ck!(c.decrypt(&p, &k2).is_err(), "{c:?} decrypted under another key"); }
    }
    let e = g.enc();
    let t = e.forward(&data, &key, l).map_err(|x| format!("{e:?} forward failed: {x}"))?;
    let u = e.backward(&t, &key).map_err(|x| format!("{e:?} backward failed for {} bytes at {l:?}: {x}", data.len()))?;
    ck!(u == data, "{e:?} at {l:?}: {} came back as {}", d(&data), d(&u));
    Ok(())
}
pub fn c09(g: &mut G) -> R {
    for e in [Encryption::None, Encryption::Aes256Gcm, Encryption::ChaCha20Poly1305] { ck!(Encryption::from_str(&e.to_string()).ok() == Some(e), "{e:?} printed as {e}");
        for c in [Compression::None, Compression::Deflate, Compression::Brotli] {
            let m = MessageEncoding::new(Encoding::Base64, e, c); ck!(m.encryption == e && m.compression == c, "built {m:?}"); let r = MessageEncoding::from_str(&m.to_string()).ok(); ck!(r == Some(m), "{m:?} printed as {m} parsed as {r:?}");
        } }
    for c in [Compression::None, Compression::Deflate, Compression::Brotli] { ck!(Compression::from_str(&c.to_string()).ok() == Some(c), "{c:?} printed as {c}") }
    ck!(Encoding::from_str(&Encoding::Base64.to_string()).ok() == Some(Encoding::Base64), "base64");
    for c in [ClientType::Thin, ClientType::Thick, ClientType::Server, ClientType::File] { ck!(ClientType::from_str(&c.to_string()).ok() == Some(c), "{c:?} printed as {c}") }
    const ENC: &[&str] = &["base64"]; const CPH: &[(&str, Encryption)] = &[("none", Encryption::None), ("plain", Encryption::None), ("aes256-gcm", Encryption::Aes256Gcm), ("chacha20-poly1305", Encryption::ChaCha20Poly1305)]; const CMP: &[(&str, Compression)] = &[("none", Compression::None), ("plain", Compression::None), ("deflate", Compression::Deflate), ("brotli", Compression::Brotli)];
    const W: &[&str] = &["base64", "none", "plain", "aes256-gcm", "chacha20-poly1305", "deflate", "brotli", "thin", "thick", "server", "file", "", "Base64", "aes256", "gcm", "base64 ", " base64", "brotli\0", "DEFLATE", "base32"];
    let cph = |s: &str| CPH.iter().find(|x| x.0 == s).map(|x| x.1); let cmp = |s: &str| CMP.iter().find(|x| x.0 == s).map(|x| x.1);
    // nearly a name: another case, something around it, a separator changed
    fn near(g: &mut G, w: &str) -> String { match g.n(9) {
        0 => w.to_uppercase(), 1 => w.chars().map(|c| if g.b() { c.to_ascii_uppercase() } else { c }).collect(), 2 => format!(" {w}"), 3 => format!("{w}\n"), 4 => w.replace('-', *g.pick(&["", "_", " "])), 5 => w.chars().take(w.chars().count().saturating_sub(1)).collect(), 6 => format!("{w}{}", g.pick(&["-", "0", "\0", ";", "s"])), _ => w.to_string() } }
    let w = if g.n(4) == 0 { g.text() } else { let w = *g.pick(W); near(g, w) };
    ck!(Encoding::from_str(&w).is_ok() == ENC.contains(&w.as_str()), "encoding {w:?}"); ck!(Encryption::from_str(&w).ok() == cph(&w), "encryption {w:?} parsed as {:?}", Encryption::from_str(&w)); ck!(Compression::from_str(&w).ok() == cmp(&w), "compression {w:?} parsed as {:?}", Compression::from_str(&w));
    let ct = match w.as_str() { "thin" => Some(ClientType::Thin), "thick" => Some(ClientType::Thick), "server" => Some(ClientType::Server), "file" => Some(ClientType::File), _ => None }; ck!(ClientType::from_str(&w).ok() == ct, "client type {w:?}");
    let parts: Vec<&str> = (0..1 + g.n(4)).map(|i| if i == 0 && g.n(5) > 0 { "base64" } else { *g.pick(W) }).collect(); let mut parts: Vec<String> = parts.iter().map(|x| x.to_string()).collect(); if g.n(3) == 0 { let i = g.n(parts.len()); parts[i] = near(g, &parts[i].clone()); } let parts: Vec<&str> = parts.iter().map(|x| x.as_str()).collect(); let s = parts.join("/");
    let b = Encoding::Base64; let n = (Encryption::None, Compression::None);
    let want = match &parts[..] { ["base64"] => Some(n), ["base64", x] => cph(x).map(|e| (e, n.1)).or(cmp(x).map(|c| (n.0, c))), ["base64", x, y] => cph(x).and_then(|e| cmp(y).map(|c| (e, c))), _ => None }.map(|(e, c)| MessageEncoding { encoding: b, encryption: e, compression: c });
    ck!(MessageEncoding::from_str(&s).ok() == want, "message encoding {s:?} parsed as {:?}", MessageEncoding::from_str(&s).ok());
    let mut codes = vec![];
    for s in STATUSES { let c = s.to_code(); ck!(ResponseStatus::from_code(c) == Some(s), "{s:?} has code {c}, which reads as {:?}", ResponseStatus::from_code(c)); ck!(s.is_success() == (100..200).contains(&c), "{s:?} ({c}) success: {}", s.is_success()); ck!(!codes.contains(&c), "two statuses have code {c}"); codes.push(c); }
    ck!(ResponseStatus::Success.is_success() && STATUSES[1..].iter().all(|s| !s.is_success()), "success statuses");
    let c = if g.b() { g.n(1000) as u64 } else { g.u64() }; ck!(ResponseStatus::from_code(c).is_some() == codes.contains(&c), "code {c} read as {:?}", ResponseStatus::from_code(c));
    Ok(())
}
pub fn c10(g: &mut G) -> R {
    let s = g.sk(); let p = s.public_key();
    ck!(PublicKey::from_bytes(p.to_bytes()).ok().as_ref() == Some(&p) && PublicKey::from_base64(p.to_base64()).ok().as_ref() == Some(&p), "public key {} does not come back", p.to_base64());
    ck!(SecretKey::deserialize(s.serialize()).ok().as_ref() == Some(&s) && SecretKey::from_base64(s.to_base64()).ok().as_ref() == Some(&s), "secret key does not come back");
    let m = g.data(); let sig = s.create_signature(&m);
    ck!(p.verify_signature(&m, &sig).ok() == Some(true), "own signature of {} refused", d(&m));
    let m2 = g.data(); if m2 != m { ck!(p.verify_signature(&m2, &sig).ok() != Some(true), "signature of {} accepted for {}", d(&m), d(&m2)); }
    let m4 = g.vary_bytes(&m); if m4 != m { ck!(p.verify_signature(&m4, &sig).ok() != Some(true), "signature of {} accepted for {}", d(&m), d(&m4)); }
    let mut sig2 = sig.clone(); let k = 1 + g.n(70); sig2.extend(g.bytes(k)); ck!(p.verify_signature(&m, &sig2).ok() != Some(true), "a signature with something after it is accepted");
    let mut m3 = m.clone(); m3.push(0); ck!(p.verify_signature(&m3, &sig).ok() != Some(true), "signature accepted for a longer message"); if !m.is_empty() { ck!(p.verify_signature(&m[..m.len() - 1], &sig).ok() != Some(true), "signature accepted for a shorter message"); }
    ck!(g.newpk().verify_signature(&m, &sig).ok() != Some(true), "signature accepted under another key");
    let t = g.sk(); let salt: Option<Vec<u8>> = if g.b() { Some(g.data()) } else { None };
    let k = s.create_shared_secret(&t.public_key(), salt.as_deref());
    ck!(k == t.create_shared_secret(&p, salt.as_deref()), "ends derive different secrets (salt {})", d(&salt));
    ck!(k != s.create_shared_secret(&g.newpk(), salt.as_deref()), "same secret with another peer");
    let mut s2 = salt.clone().unwrap_or_default(); s2.push(7); ck!(k != s.create_shared_secret(&t.public_key(), Some(&s2)), "same secret for another salt");
    let cap = s.create_encapsulated_signature(&m);
    ck!(p.decode_encapsulated_signature(&cap).ok() == Some(Some(m.clone())), "capsule of {} decoded as {}", d(&m), d(p.decode_encapsulated_signature(&cap).ok()));
    ck!(!matches!(g.newpk().decode_encapsulated_signature(&cap), Ok(Some(_))), "capsule decoded under another key");
    // altered capsules: never a message whose signature does not verify
    let mut x = cap.clone(); match g.n(4) { 0 => { let i = g.n(x.len()); x[i] ^= 1 << g.n(8); } 1 => { x.push(1); } 2 => { let n = g.n(x.len()); x.truncate(n); } _ => { let l = g.u64(); x[..8].copy_from_slice(&l.to_be_bytes()); } }
    if x != cap { if let Ok(Some(got)) = p.decode_encapsulated_signature(&x) { return Err(format!("altered capsule {} decoded as {}", d(&x), d(&got))) } }
    Ok(())
}
