//! C18 - C22: the client, its searches, traversal, addresses.
use crate::gen::*;
use crate::mock::*;
use crate::p1::{R, d};
use crate::ck;
use hyperborealib::prelude::*;
use hyperborealib::rest_api::prelude::{ClientMiddleware, ConnectedClientMiddleware, MiddlewareError};
use hyperborealib::drivers::server::prelude::*;
use serde_json::{json, Value as Json};
use std::collections::{HashSet, HashMap, VecDeque};
use std::str::FromStr;
use std::sync::{Arc, Mutex};

/// how a server may answer one request
#[derive(Debug, Clone, Copy, PartialEq)]
enum Mode { Replay, Right, OtherKey, WrongSeed, Claims, Error, BadSign, ShortSign, Fail, NoBody, Junk, Altered }
const MODES: [Mode; 12] = [Mode::Replay, Mode::Right, Mode::OtherKey, Mode::WrongSeed, Mode::Claims, Mode::Error, Mode::BadSign, Mode::ShortSign, Mode::Fail, Mode::NoBody, Mode::Junk, Mode::Altered];
fn seed_of(j: &Json) -> u64 { ["proof", "proof"].iter().find_map(|_| j["proof"]["seed"].as_u64()).unwrap_or(0) }
fn signed<T>(sk: &SecretKey, seed: u64, body: T) -> Response<T> { Response::Success { standard: 1, status: ResponseStatus::Success, public_key: sk.public_key(), proof_sign: sk.create_signature(seed.to_be_bytes()), response: body } }
#[derive(Clone)] struct Plan { mode: Mode, sk: SecretKey, other: SecretKey, status: ResponseStatus, reason: String, odd: Option<u16>, seed: u64, sign: Vec<u8>, junk: Json, old: u64 }
fn plan(g: &mut G, sk: &SecretKey) -> Plan { Plan { mode: if g.n(3) == 0 { Mode::Right } else { *g.pick(&MODES) }, sk: sk.clone(), other: g.sk(), status: g.ostatus(), reason: g.text(), odd: if g.n(6) == 0 { Some(*g.pick(&[404, 500, 201])) } else { None }, seed: g.seed64(), sign: g.bytes(64), junk: g.junk(), old: 0 } }
impl Plan {
    fn say<T>(&self, seed: u64, body: T, json: impl Fn(Response<T>) -> Json) -> Got {
        let r: Response<T> = match self.mode {
            Mode::Right => signed(&self.sk, seed, body),
            Mode::Replay => signed(&self.sk, if self.old == seed || self.old == 0 { seed ^ self.seed.max(1) } else { self.old }, body),
            Mode::OtherKey => signed(&self.other, seed, body),
            Mode::WrongSeed => signed(&self.sk, seed ^ self.seed.max(1), body),
            Mode::Claims => Response::Success { standard: 1, status: ResponseStatus::Success, public_key: self.sk.public_key(), proof_sign: self.other.create_signature(seed.to_be_bytes()), response: body },
            Mode::Error => Response::Error { standard: 1, status: self.status, reason: self.reason.clone() },
            Mode::BadSign => Response::Success { standard: 1, status: ResponseStatus::Success, public_key: self.sk.public_key(), proof_sign: self.sign.clone(), response: body },
            Mode::ShortSign => Response::Success { standard: 1, status: ResponseStatus::Success, public_key: self.sk.public_key(), proof_sign: self.sign[..7].to_vec(), response: body },
            Mode::Fail => return Got::Fail, Mode::NoBody => return Got::NoBody, Mode::Junk => return Got::Body(self.junk.clone()),
            Mode::Altered => { let mut j = json(signed(&self.sk, seed, body)); j["proof"]["sign"] = json!(base64_encode(&self.sign)); return Got::Body(j) }
        };
        let j = json(r);
        match self.odd { Some(n) => Got::Odd(n, j), None => Got::Body(j) }
    }
}
fn info_of(sk: &SecretKey, p: &Plan) -> Got {
    let mk = |k: PublicKey, s: u64, g: Vec<u8>| Got::Body(InfoResponse { standard: 1, public_key: k, proof_seed: s, proof_sign: g }.to_json().unwrap());
    match p.mode {
        Mode::Right | Mode::Error => mk(sk.public_key(), p.seed, sk.create_signature(p.seed.to_be_bytes())),
        Mode::OtherKey | Mode::Claims => mk(sk.public_key(), p.seed, p.other.create_signature(p.seed.to_be_bytes())),
        Mode::WrongSeed | Mode::Replay => mk(sk.public_key(), p.seed, sk.create_signature((p.seed ^ 1).to_be_bytes())),
        Mode::BadSign | Mode::Altered => mk(sk.public_key(), p.seed, p.sign.clone()), Mode::ShortSign => mk(sk.public_key(), p.seed, p.sign[..7].to_vec()),
        Mode::Fail => Got::Fail, Mode::NoBody => Got::NoBody, Mode::Junk => Got::Body(p.junk.clone()),
    }
}
fn path(url: &str) -> &str { url.split("/api/v1/").nth(1).unwrap_or("?") }
fn driver(g: &mut G) -> ClientDriver { let i = g.info(); let s = g.sk(); ClientDriver::new(i, s) }
/// a client connected to this server, by an honest exchange
fn connected(net: &Net, d: &ClientDriver, addr: &str, sk: &SecretKey) -> Result<ConnectedClientMiddleware<Net>, String> {
    let sk2 = sk.clone();
    let old = { let mut s = net.0.lock().unwrap(); std::mem::replace(&mut s.h, Box::new(move |_, b| Got::Body(ConnectResponse(signed(&sk2, seed_of(b.unwrap()), ConnectResponseBody::new())).to_json().unwrap()))) };
    let c = now(ClientMiddleware::new(net.clone(), d.clone()).connect_to(addr, sk.public_key())).map_err(|e| format!("an honest connection failed: {e}"));
    let mut s = net.0.lock().unwrap(); s.h = old; s.log.clear();
    c
}
fn err_is<T>(r: &Result<T, MiddlewareError>, p: &Plan) -> bool { matches!(r, Err(MiddlewareError::RequestFailed { status, reason }) if *status == p.status && *reason == p.reason) }
macro_rules! decode { ($t:ty, $j:expr) => { <$t>::from_json($j.as_ref().unwrap()).map_err(|e| format!("the request sent cannot be read: {e}")) } }

/// one operation of the client; checks C18 (only = 18) or C19 (only = 19)
fn op(g: &mut G, only: u32) -> R {
    let sk = g.sk(); let dr = driver(g); let addr = if g.b() { g.addr() } else { g.word() };
    let me = dr.secret_key().public_key();
    let mut p = plan(g, &sk); let kinds = if only == 19 { 9 } else { 8 }; let mut kind = g.n(kinds); let mut conn = None; let told = Arc::new(Mutex::new(p.clone()));
    let polled = PollResponseBody { messages: if g.n(4) == 0 { vec![] } else { g.list(|g| g.msginfo()) }, remaining: if g.n(4) == 0 { 0 } else { g.u64() } };
    let (clients, servers) = (g.list(|g| g.client()), g.list(|g| g.server()));
    let net = { let (told, sk, polled, clients, servers) = (told.clone(), sk.clone(), polled.clone(), clients.clone(), servers.clone()); Net::new(move |url, b| { let p = told.lock().unwrap().clone(); if let Some(b) = b { told.lock().unwrap().old = seed_of(b) } match path(url) {
        "info" => info_of(&sk, &p),
        "clients" => match p.mode { Mode::Fail => Got::Fail, Mode::NoBody => Got::NoBody, Mode::Junk => Got::Body(json!([])), _ => Got::Body(ClientsResponse::new(clients.clone()).to_json().unwrap()) },
        "servers" => match p.mode { Mode::Fail => Got::Fail, Mode::NoBody => Got::NoBody, Mode::Junk => Got::Body(json!([])), _ => Got::Body(ServersResponse::new(servers.clone()).to_json().unwrap()) },
        "connect" => p.say(seed_of(b.unwrap()), ConnectResponseBody::new(), |r| ConnectResponse(r).to_json().unwrap()),
        "disconnect" => p.say(seed_of(b.unwrap()), DisconnectResponseBody::new(), |r| DisconnectResponse(r).to_json().unwrap()),
        "announce" => p.say(seed_of(b.unwrap()), AnnounceResponseBody::new(), |r| AnnounceResponse(r).to_json().unwrap()),
        "send" => p.say(seed_of(b.unwrap()), SendResponseBody::new(), |r| SendResponse(r).to_json().unwrap()),
        "lookup" => p.say(seed_of(b.unwrap()), LookupResponseBody::Hint { servers: vec![] }, |r| LookupResponse(r).to_json().unwrap()),
        "poll" => p.say(seed_of(b.unwrap()), polled.clone(), |r| PollResponse(r).to_json().unwrap()),
        _ => Got::Fail,
    } }) };
    let cl = ClientMiddleware::new(net.clone(), dr.clone());
    let host = format!("http://{addr}/api/v1");
    for round in 0..3 {
    if round > 0 {
        if g.n(3) == 0 { break }
        p = plan(g, &sk); { let mut t = told.lock().unwrap(); p.old = t.old; *t = p.clone(); } net.0.lock().unwrap().log.clear();
        kind = if conn.is_some() { 4 + g.n(kinds - 4) } else { g.n(kinds) };
    }
    let target = if g.n(6) == 0 { addr.clone() } else { g.word() }; if target.contains("://") { return Ok(()) } let spelled = match g.n(3) { 0 => format!("http://{target}"), 1 => format!("https://{target}"), _ => target.clone() };
    let there = if spelled.starts_with("http") && spelled.contains("://") { spelled.clone() } else { target.clone() };
    let ok = matches!(p.mode, Mode::Right); let signed_ok = matches!(p.mode, Mode::Right | Mode::OtherKey);
    // what was sent: exactly one request, to this place
    let one = |net: &Net, to: &str| -> Result<Option<Json>, String> { let l = net.log(); ck!(l.len() == 1 && l[0].0 == to, "sent {} instead of one request to {to}", d(l.iter().map(|x| &x.0).collect::<Vec<_>>())); Ok(l[0].1.clone()) };
    let what = format!("mode {:?} (operation {round}), server key {}, reason {:?}, status {:?}", p.mode, sk.public_key().to_base64(), p.reason, p.status);
    match kind {
        0 => {
            let r = now(cl.get_info(&addr));
            if only == 18 { let ok = matches!(p.mode, Mode::Right | Mode::Error); ck!(r.is_ok() == ok, "get_info gave {} ({what})", d(&r)); if let Ok(i) = r { ck!(i.public_key == sk.public_key() && i.proof_seed == p.seed, "get_info returned another answer than the one received") } }
            else { one(&net, &format!("{host}/info"))?; }
        }
        1 => {
            if g.b() { let r = now(cl.get_clients(&addr)); if only == 19 { one(&net, &format!("{host}/clients"))?; } else if let Ok(x) = &r { ck!(*x == clients, "get_clients returned {} of {}", d(x), d(&clients)); ck!(!matches!(p.mode, Mode::Fail | Mode::NoBody | Mode::Junk), "get_clients succeeded ({what})"); } else { ck!(matches!(p.mode, Mode::Fail | Mode::NoBody | Mode::Junk), "get_clients failed on a good answer") } }
            else { let r = now(cl.get_servers(&addr)); if only == 19 { one(&net, &format!("{host}/servers"))?; } else if let Ok(x) = &r { ck!(*x == servers, "get_servers returned {} of {}", d(x), d(&servers)); ck!(!matches!(p.mode, Mode::Fail | Mode::NoBody | Mode::Junk), "get_servers succeeded ({what})"); } else { ck!(matches!(p.mode, Mode::Fail | Mode::NoBody | Mode::Junk), "get_servers failed on a good answer") } }
        }
        2 => {
            let r = now(cl.connect_to(addr.as_str(), sk.public_key()));
            let j = one(&net, &format!("{host}/connect"))?;
            let q = decode!(ConnectRequest, j)?;
            if only == 19 {
                ck!(q.0.public_key == me && q.validate(&sk.public_key()).unwrap_or(false), "the connect request does not validate as this client's: {}", d(&q));
                ck!(q.0.request.certificate.token.public_key == sk.public_key() && q.0.request.certificate.validate(&me, &sk.public_key()).unwrap_or(false), "the certificate is not this client's for that server: {}", d(&q.0.request.certificate));
                ck!(q.0.request.client == *dr.info(), "connect sent info {} instead of {}", d(&q.0.request.client), d(dr.info()));
            } else {
                if p.mode == Mode::Error { ck!(err_is(&r.as_ref().map(|_| ()).map_err(|e| clone_err(e)), &p), "connect: error answer reported otherwise ({what})") }
                ck!(r.is_ok() == ok, "connect gave {} ({what}, addr {addr:?})", d(&r.as_ref().map(|_| "a connection")));
                if let Ok(c) = r {
                    ck!(c.connected_server().public_key == sk.public_key() && c.connected_server().address == addr, "the connection records {}, connected to {} at {addr}", d(c.connected_server()), sk.public_key().to_base64());
                    ck!(*c.connection_certificate() == q.0.request.certificate, "the connection records another certificate than was sent");
                }
            }
        }
        3 => {
            let r = now(cl.connect(addr.as_str())); let l = net.log();
            ck!(!l.is_empty() && l[0].0 == format!("{host}/info") && l[0].1.is_none() && l.len() <= 2, "connect asked {}", d(l.iter().map(|x| &x.0).collect::<Vec<_>>()));
            if only == 18 { ck!(r.is_ok() == ok, "connect gave {} ({what}, addr {addr:?})", d(&r.as_ref().map(|_| "a connection"))); if let Ok(c) = r { ck!(c.connected_server().public_key == sk.public_key() && c.connected_server().address == addr, "the connection records {}", d(c.connected_server())) } }
            else if l.len() == 2 { let q = decode!(ConnectRequest, l[1].1)?; ck!(l[1].0 == format!("{host}/connect") && q.0.public_key == me && q.validate(&sk.public_key()).unwrap_or(false) && q.0.request.client == *dr.info(), "connect sent {} to {}", d(&q), l[1].0) }
        }
        _ => {
            let c = match conn.take() { Some(c) => c, None => connected(&net, &dr, &addr, &sk)? }; let cert = c.connection_certificate().clone(); let srv = Server { public_key: sk.public_key(), address: addr.clone() };
            match kind {
                4 => {
                    let r = now(c.disconnect()).map(|_| ());
                    let q = decode!(DisconnectRequest, one(&net, &format!("{host}/disconnect"))?)?;
                    if only == 19 { ck!(q.0.public_key == me && q.validate().unwrap_or(false), "the disconnect request does not validate as this client's: {}", d(&q)) }
                    else { ck!(r.is_ok() == ok, "disconnect gave {} ({what})", d(&r)); ck!(p.mode != Mode::Error || err_is(&r, &p), "disconnect: error answer reported as {} ({what})", d(&r)) }
                }
                5 => {
                    let r = now(c.announce(&spelled));
                    let q = decode!(AnnounceRequest, one(&net, &format!("{there}/api/v1/announce"))?)?;
                    if only == 19 {
                        ck!(q.0.public_key == me && q.validate().unwrap_or(false), "the announce request does not validate as this client's: {}", d(&q));
                        let me = Client { public_key: me.clone(), certificate: cert, info: dr.info().clone() };
                        ck!(q.0.request == AnnounceRequestBody::Client { client: me.clone(), server: srv.clone() }, "announced {} instead of {} at {}", d(&q.0.request), d(&me), d(&srv));
                    } else { ck!(r.is_ok() == signed_ok, "announce gave {} ({what})", d(&r)); ck!(p.mode != Mode::Error || err_is(&r, &p), "announce: error answer reported as {} ({what})", d(&r)) }
                    conn = Some(c);
                }
                6 => {
                    let (to, ch, m) = (match g.n(6) { 0 => me.clone(), 1 => sk.public_key(), _ => g.pk() }, g.text(), g.message());
                    let r = now(c.send(&spelled, to.clone(), &ch, m.clone()));
                    let q = decode!(SendRequest, one(&net, &format!("{there}/api/v1/send"))?)?;
                    if only == 19 {
                        ck!(q.0.public_key == me && q.validate().unwrap_or(false), "the send request does not validate as this client's: {}", d(&q));
                        let b = q.0.request; ck!(b.receiver_public == to && b.channel == ch && b.message == m, "sent {} instead of {ch:?} to {} with {}", d(&b), to.to_base64(), d(&m));
                        ck!(b.sender.client.public_key == me && b.sender.client.certificate == cert && b.sender.server == srv, "sent as {}", d(&b.sender));
                    } else { ck!(r.is_ok() == signed_ok, "send gave {} ({what})", d(&r)); ck!(p.mode != Mode::Error || err_is(&r, &p), "send: error answer reported as {} ({what})", d(&r)) }
                    conn = Some(c);
                }
                8 => {
                    let (who, t) = (match g.n(6) { 0 => me.clone(), 1 => sk.public_key(), _ => g.pk() }, g.octype());
                    let r = now(c.lookup(who.clone(), t));
                    let q = decode!(LookupRequest, one(&net, &format!("{host}/lookup"))?)?;
                    ck!(q.0.public_key == me && q.validate().unwrap_or(false), "the lookup request does not validate as this client's: {}", d(&q));
                    ck!(q.0.request.public_key == who && q.0.request.client_type == t, "asked for {} instead of {} {t:?}, and got {}", d(&q.0.request), who.to_base64(), d(&r.map(|_| ())));
                    conn = Some(c);
                }
                _ => {
                    let (ch, l) = (g.text(), match g.n(5) { 0 | 1 => None, 2 => Some(g.n(3) as u64), _ => Some(g.u64()) });
                    let r = now(c.poll(&ch, l));
                    let q = decode!(PollRequest, one(&net, &format!("{host}/poll"))?)?;
                    if only == 19 { ck!(q.0.public_key == me && q.validate().unwrap_or(false), "the poll request does not validate as this client's: {}", d(&q)); ck!(q.0.request.channel == ch && q.0.request.limit == l, "polled {} instead of {ch:?}, {l:?}", d(&q.0.request)) }
                    else {
                        ck!(r.is_ok() == ok, "poll gave {} ({what})", d(&r)); ck!(p.mode != Mode::Error || err_is(&r, &p), "poll: error answer reported as {} ({what})", d(&r));
                        if let Ok((m, n)) = r { ck!(m == polled.messages && n == polled.remaining, "poll returned {} and {n}, the answer carried {}", d(&m), d(&polled)) }
                    }
                    conn = Some(c);
                }
            }
        }
    }
    }
    Ok(())
}
fn clone_err(e: &MiddlewareError) -> MiddlewareError { match e { MiddlewareError::RequestFailed { status, reason } => MiddlewareError::RequestFailed { status: *status, reason: reason.clone() }, e => MiddlewareError::Other(e.to_string().into()) } }
pub fn c18(g: &mut G) -> R { for _ in 0..8 { op(g, 18)? } Ok(()) }
pub fn c19(g: &mut G) -> R { for _ in 0..8 { op(g, 19)? } Ok(()) }

/// what one address answers to a search
#[derive(Clone, Debug)] enum Says { Hint(Vec<Server>), Local(Client, bool), Remote(Client, Server, bool), Error, Bad(Mode) }
pub fn c20(g: &mut G) -> R {
    let sk = g.sk(); let dr = driver(g);
    // now and then a long way through a large network
    let k = g.many(1300).map(|x| if g.b() { x + x / 4 } else { x }).unwrap_or(if g.n(60) == 0 { 60 + g.n(250) } else { 1 + g.n(7) }).max(1); let big = k > 20;
    let mut names: Vec<String> = (0..k).map(|i| if g.n(6) == 0 { g.word() } else { format!("s{i}") }).collect();
    for i in 1..k { if g.n(8) == 0 { let j = g.n(i); names[i] = g.vary(&names[j]) } }
    // one server may have several addresses, and the searching client an address of its own
    let keys: Vec<SecretKey> = (0..k).map(|i| if i == 0 { sk.clone() } else { match g.n(10) { 0 => sk.clone(), 1 => dr.secret_key().clone(), _ => g.sk() } }).collect();
    let mut wanted = match g.n(8) { 0 => sk.public_key(), 1 => dr.secret_key().public_key(), _ => g.pk() }; let mut wt = g.octype();
    let rec = |g: &mut G, names: &[String], keys: &[SecretKey]| { let i = g.n(names.len()); let a = if g.n(if big { 4 * k } else { 8 }) == 0 { let j = g.n(names.len()); g.vary(&names[j]) } else { names[i].clone() }; Server { public_key: if g.n(5) == 0 { g.pk() } else { keys[i].public_key() }, address: a } };
    let says: HashMap<String, Says> = names.iter().enumerate().map(|(i, n)| { let s = match if big && i + 1 < k && g.n(k) != 0 { 13 } else { g.n(12) } {
        0 => { let mut c = g.client(); c.public_key = wanted.clone(); Says::Local(c, g.b()) } 1 => { let mut c = g.client(); c.public_key = wanted.clone(); let s = rec(g, &names, &keys); Says::Remote(c, s, g.b()) }
        2 => Says::Error, 3 => Says::Bad(*g.pick(&[Mode::WrongSeed, Mode::Claims, Mode::Fail, Mode::NoBody, Mode::ShortSign])),
        13 => { let mut v = vec![]; for _ in 0..g.n(3) { v.push(rec(g, &names, &keys)) } let at = g.n(v.len() + 1); v.insert(at, Server { public_key: keys[i + 1].public_key(), address: names[i + 1].clone() }); Says::Hint(v) }
        _ => { let n = g.many(300).unwrap_or(g.n(6)); let mut v = vec![]; for _ in 0..n { v.push(rec(g, &names, &keys)) } Says::Hint(v) } }; (n.clone(), s) }).collect();
    let ak: HashMap<String, SecretKey> = names.iter().cloned().zip(keys.iter().cloned()).collect();
    let p = plan(g, &sk);
    // what a liar would have answered
    let liar = (0..3).map(|_| rec(g, &names, &keys)).collect::<Vec<_>>();
    let net = { let (says, ak, p, liar) = (says.clone(), ak.clone(), p.clone(), liar.clone()); Net::new(move |url, b| {
        let Some(a) = url.strip_prefix("http://").and_then(|x| x.strip_suffix("/api/v1/lookup")) else { return Got::Fail };
        let (Some(s), Some(k), Some(b)) = (says.get(a), ak.get(a), b) else { return Got::Fail };
        let q = Plan { sk: k.clone(), mode: match s { Says::Bad(m) => *m, Says::Error => Mode::Error, _ => Mode::Right }, ..p.clone() };
        let body = match s { Says::Hint(v) => LookupResponseBody::Hint { servers: v.clone() }, Says::Local(c, x) => LookupResponseBody::Local { client: c.clone(), available: *x }, Says::Remote(c, s, x) => LookupResponseBody::Remote { client: c.clone(), server: s.clone(), available: *x }, _ => LookupResponseBody::Hint { servers: liar.clone() } };
        q.say(seed_of(b), body, |r| LookupResponse(r).to_json().unwrap())
    }) };
    let c = connected(&net, &dr, &names[0], &sk)?;
    for search in 0..1 + (g.n(3) == 0 && !big) as usize {
    if search > 0 { net.0.lock().unwrap().log.clear(); wanted = if g.b() { g.pk() } else { wanted }; wt = g.octype(); }
    let r = now(c.lookup(wanted.clone(), wt)); let log = net.log();
    let asked: Vec<String> = log.iter().map(|x| x.0.clone()).collect();
    let at = |a: &str| format!("http://{a}/api/v1/lookup");
    for (u, b) in &log { let q = decode!(LookupRequest, b)?; ck!(q.validate().unwrap_or(false) && q.0.public_key == dr.secret_key().public_key() && q.0.request.public_key == wanted && q.0.request.client_type == wt, "asked {u} about {}, looking for {} {wt:?}", d(&q), wanted.to_base64()) }
    let what = || format!("servers {}, starting at {}, asked {asked:?}, result {}", d(&says), names[0], d(&r));
    let (mut queue, mut used, mut n) = (VecDeque::from([names[0].clone()]), HashSet::new(), 0);
    loop {
        let Some(a) = queue.pop_front() else { ck!(n == log.len(), "asked more than the servers hinted: {}", what()); ck!(matches!(r, Ok(None)), "every hinted server was asked, and none knew: {}", what()); break };
        if !used.insert(a.clone()) { continue }
        ck!(n < log.len(), "{a} was hinted and never asked: {}", what());
        ck!(log[n].0 == at(&a), "asked {} where {a} was next: {}", log[n].0, what()); n += 1;
        match says.get(&a).cloned() {
            Some(Says::Local(c, x)) => { let s = Server { public_key: ak[&a].public_key(), address: a.clone() }; ck!(n == log.len() && matches!(&r, Ok(Some(z)) if *z == (c.clone(), s.clone(), x)), "{a} knows the client itself: {}", what()); break }
            Some(Says::Remote(c, s, x)) => { ck!(n == log.len() && matches!(&r, Ok(Some(z)) if *z == (c.clone(), s.clone(), x)), "{a} knows where the client is: {}", what()); break }
            Some(Says::Hint(v)) => for s in v { queue.push_back(s.address) },
            Some(Says::Error) => (),
            Some(Says::Bad(_)) | None => if n == log.len() && r.is_err() { break },
        }
    }
    }
    Ok(())
}
pub fn c21(g: &mut G) -> R {
    let k = g.many(1300).map(|x| if g.b() { x + x / 4 } else { x }).unwrap_or(if g.n(60) == 0 { 60 + g.n(200) } else { 1 + g.n(7) }).max(1); let big = k > 20; let me = g.sk(); let pool: Vec<Server> = (0..k).map(|i| Server { public_key: if g.n(12) == 0 { me.public_key() } else { g.pk() }, address: match g.n(18) { 0 | 1 => "s0".into(), 2 => { let j = g.n(k); g.vary(&format!("s{j}")) } 3 => format!("S{}", g.n(k)), _ => format!("s{i}") } }).collect();
    let says: HashMap<String, Option<Vec<Server>>> = pool.iter().enumerate().map(|(i, s)| (s.address.clone(), if big && i + 1 < k && g.n(k) != 0 { let mut v = vec![g.pick(&pool).clone(), s.clone()]; v.truncate(g.n(3)); let at = g.n(v.len() + 1); v.insert(at, pool[i + 1].clone()); Some(v) } else if g.n(5) == 0 { None } else { let n = g.many(300).unwrap_or(g.n(5)); Some((0..n).map(|_| { let mut x = g.pick(&pool).clone(); if g.n(12) == 0 { x.public_key = g.pk() } x }).collect()) })).collect();
    let w = W::default(); let n = g.n(4); let mut start: Vec<Server> = (0..n).map(|_| g.pick(&pool).clone()).collect(); if big && g.n(3) != 0 { start.push(pool[0].clone()) }
    { let mut x = w.lock().unwrap(); x.servers = start.clone(); if g.n(12) == 0 { x.fail.insert("servers", true); } if g.n(3) == 0 { x.fail.insert("index", true); } x.said = g.b(); }
    let own = if g.n(3) == 0 { g.pick(&pool).clone() } else { g.server() };
    let listed = !w.lock().unwrap().fail.contains_key("servers");
    let deaf = g.n(3);
    let net = { let says = says.clone(); Net::new(move |url, _| { let Some(a) = url.strip_prefix("http://").and_then(|x| x.strip_suffix("/api/v1/servers")) else { return Got::Fail }; match says.get(a) { Some(Some(v)) => Got::Body(ServersResponse::new(v.clone()).to_json().unwrap()), _ => match deaf { 0 => Got::Fail, 1 => Got::NoBody, _ => Got::Body(json!({ "nothing": true })) } } }) };
    let sd = ServerDriver::new(Full(w.clone()), BfsRecursionTraversal, Inbox(w.clone()), ServerParams { secret_key: me.clone(), address: own.address.clone() });
    for turn in 0..1 + (g.n(3) == 0 && !big) as usize {
    if turn > 0 { let n = g.n(4); start = (0..n).map(|_| g.pick(&pool).clone()).collect(); let mut x = w.lock().unwrap(); x.servers = start.clone(); x.acts.clear(); net.0.lock().unwrap().log.clear(); }
    now(BfsRecursionTraversal.traverse(net.clone(), &sd));
    // every server reachable from the start
    let (mut queue, mut all) = (VecDeque::from(if listed { start.clone() } else { vec![] }), Vec::<Server>::new());
    while let Some(s) = queue.pop_front() { if all.contains(&s) { continue } all.push(s.clone()); if let Some(Some(v)) = says.get(&s.address) { queue.extend(v.iter().cloned()) } }
    let log = net.log(); let acts = w.lock().unwrap().acts.clone();
    let what = || format!("start {}, network {}, asked {}, router {}", d(&start), d(&says), d(log.iter().map(|x| &x.0).collect::<Vec<_>>()), d(&acts));
    for s in &all { ck!(acts.contains(&Act::Index(s.clone())), "{} was never indexed: {}", d(s), what()); let u = format!("http://{}/api/v1/servers", s.address); ck!(log.iter().any(|x| x.0 == u), "{} was never asked: {}", d(s), what()) }
    for (u, b) in &log { ck!(b.is_none(), "something was posted"); let m = all.iter().filter(|s| *u == format!("http://{}/api/v1/servers", s.address)).count(); let c = log.iter().filter(|x| x.0 == *u).count(); ck!(c <= m, "{u} was asked {c} times for {m} distinct servers: {}", what()) }
    for a in &acts { match a { Act::Index(s) => ck!(all.contains(s), "{} was indexed and nobody listed it: {}", d(s), what()), a => return Err(format!("traversal changed the router otherwise: {}", d(a))) } }
    }
    Ok(())
}

fn table(p: &str) -> Option<Option<ClientType>> { match p { "hyperborea" | "hyp" => Some(None), "hyperborea-client" | "hyp-client" => Some(Some(ClientType::Thin)), "hyperborea-server" | "hyp-server" => Some(Some(ClientType::Server)), "hyperborea-file" | "hyp-file" => Some(Some(ClientType::File)), _ => None } }
pub fn expected(s: &str) -> Option<Address> {
    let (p, a) = match s.find("://") { Some(i) => (&s[..i], &s[i + 3..]), None => ("", s) };
    if let Some(t) = table(p) {
        let (t, k) = if t.is_some() { (t, a) } else { [("thin:", ClientType::Thin), ("thick:", ClientType::Thick), ("server:", ClientType::Server), ("file:", ClientType::File)].iter().find_map(|(n, t)| a.strip_prefix(n).map(|k| (Some(*t), k))).unwrap_or((None, a)) };
        let public_key = PublicKey::from_base64(k).ok()?;
        return Some(Address::Hyperborea { public_key, client_type: t })
    }
    Some(match p { "http" => Address::Http { address: a.into() }, "https" => Address::Https { address: a.into() }, _ => Address::Raw(a.into()) })
}
pub fn c22(g: &mut G) -> R {
    const P: [&str; 16] = ["hyperborea", "hyp", "hyperborea-client", "hyp-client", "hyperborea-server", "hyp-server", "hyperborea-file", "hyp-file", "http", "https", "", "HYP", "http2", "hyp-thick", "hyper", "ftp"];
    const X: [&str; 11] = ["", "thin:", "thick:", "server:", "file:", "Thin:", "thin:thin:", "thin", "client:", " thin:", "thick:file:"];
    for _ in 0..10 {
        let sk = g.sk(); let dr = driver(g); let home = g.word();
        let key = match g.n(10) { 0 => sk.public_key(), 1 => dr.secret_key().public_key(), _ => g.pk() };
        let kt = key.to_base64();
        let rest = match g.n(11) { 6 => g.vary(&kt), 7 => { let a = g.addr(); let (u, f, q) = (g.word(), g.word(), g.word()); match g.n(8) { 0 => format!("{a}/"), 1 => format!("{a}:80"), 2 => format!("{a}:443"), 3 => format!("{u}@{a}"), 4 => format!("{a}/{f}?{q}#{u}"), 5 => format!("{a}//"), 6 => a.to_uppercase(), _ => format!("www.{a}") } } 0 => if g.b() { g.text() } else { home.clone() }, 1 => g.addr(), 2 => format!("{}://{}", g.word(), g.addr()), 3 => key.to_base64() + "=", 4 => { let mut s = key.to_base64(); s.pop(); s } 5 => format!("{}:8001/a://b", g.word()), _ => key.to_base64() };
        let p = *g.pick(&P); let x = if g.b() { "" } else { *g.pick(&X) }; let (p, x) = (if g.n(10) == 0 { g.vary(p) } else { p.to_string() }, if g.n(10) == 0 { g.vary(x) } else { x.to_string() });
        let s = if g.n(12) == 0 { format!("{x}{rest}") } else { format!("{p}://{x}{rest}") };
        let want = expected(&s); let got = parse_uri(&s).ok();
        ck!(got == want, "{s:?} was understood as {}, the table says {}", d(&got), d(&want));
        ck!(Address::from_str(&s).ok() == want, "{s:?} parsed from_str as otherwise than the table says");
        let (mut rec, mut cl) = (g.server(), g.client()); let how = g.n(5);
        if g.b() { cl.public_key = key.clone() } match g.n(6) { 0 => rec.public_key = sk.public_key(), 1 => rec.public_key = key.clone(), _ => () }
        let net = { let (sk, rec, cl) = (sk.clone(), rec.clone(), cl.clone()); Net::new(move |url, b| {
            if path(url) != "lookup" { return Got::Fail }
            let body = match how { 0 => LookupResponseBody::Remote { client: cl.clone(), server: rec.clone(), available: true }, 1 => LookupResponseBody::Local { client: cl.clone(), available: false }, 2 => LookupResponseBody::Hint { servers: vec![] }, 3 => return Got::Fail, _ => LookupResponseBody::Remote { client: cl.clone(), server: rec.clone(), available: false } };
            Got::Body(LookupResponse(signed(&sk, seed_of(b.unwrap()), body)).to_json().unwrap())
        }) };
        let c = connected(&net, &dr, &home, &sk)?;
        let r = now(resolve_uri(&s, &c)); let log = net.log();
        match want {
            None => ck!(r.is_err() && log.is_empty(), "{s:?} names no valid key and resolves to {}", d(&r)),
            Some(Address::Http { address }) => ck!(matches!(&r, Ok(x) if *x == format!("http://{address}")) && log.is_empty(), "{s:?} resolves to {}", d(&r)),
            Some(Address::Https { address }) => ck!(matches!(&r, Ok(x) if *x == format!("https://{address}")) && log.is_empty(), "{s:?} resolves to {}", d(&r)),
            Some(Address::Raw(a)) => ck!(matches!(&r, Ok(x) if *x == a) && log.is_empty(), "{s:?} resolves to {}", d(&r)),
            Some(Address::Hyperborea { public_key, client_type }) => {
                ck!(!log.is_empty() && log.iter().all(|x| path(&x.0) == "lookup"), "{s:?} was resolved asking {}", d(log.iter().map(|x| &x.0).collect::<Vec<_>>()));
                for (_, b) in &log { let q = decode!(LookupRequest, b)?; ck!(q.0.request.public_key == public_key && q.0.request.client_type == client_type, "resolving {s:?} looked for {}", d(&q.0.request)) }
                match how { 0 | 4 => ck!(matches!(&r, Ok(x) if *x == format!("http://{}", rec.address)), "{s:?} is at {} and resolves to {}", rec.address, d(&r)), 1 => ck!(matches!(&r, Ok(x) if *x == format!("http://{home}")), "{s:?} is at {home} and resolves to {}", d(&r)), 2 => ck!(matches!(&r, Err(MiddlewareError::RequestFailed { status: ResponseStatus::ClientNotFound, .. })), "nobody knows {s:?} and it resolves to {}", d(&r)), _ => ck!(r.is_err(), "{s:?} resolves to {}", d(&r)) }
            }
        }
    }
    Ok(())
}
/// a router that has only what it must
pub fn c14(g: &mut G) -> R {
    let w = Arc::new(Mutex::new(World::default())); let r = Bare(w.clone()); let f = Full(w.clone()); let mut before = None;
    for _ in 0..1 + g.n(3) {
    let w0 = { let mut w = world(g); if g.b() { w.fail.clear() } w }; *w.lock().unwrap() = w0.clone();
    let key = match g.n(4) { 0 if !w0.locals.is_empty() => g.pick(&w0.locals).public_key.clone(), 1 if !w0.remotes.is_empty() => g.pick(&w0.remotes).0.public_key.clone(), 2 if !w0.remotes.is_empty() => g.pick(&w0.remotes).1.public_key.clone(), _ => g.pk() }; let key = match before.take() { Some(k) if g.n(3) == 0 => k, _ => key }; before = Some(key.clone()); let t = g.octype();
    let fits = |c: &Client| c.public_key == key && (t.is_none() || t == Some(c.info.client_type));
    let bad = |k: &str| w0.fail.contains_key(k);
    let what = format!("key {}, type {t:?}, local {}, remote {}", key.to_base64(), d(&w0.locals), d(&w0.remotes));
    match now(r.lookup_local_client(&key, t)) { Ok(x) => { ck!(!bad("locals"), "the listing failed and a lookup succeeded"); let e = w0.locals.iter().find(|c| fits(c)).map(|c| (c.clone(), true)); ck!(x == e, "local lookup gave {}, {what}", d(&x)) } Err(_) => ck!(bad("locals"), "local lookup failed: {what}") }
    match now(r.lookup_remote_client(&key, t)) { Ok(x) => { ck!(!bad("remotes"), "the listing failed and a lookup succeeded"); let e = w0.remotes.iter().find(|c| fits(&c.0)).map(|c| (c.0.clone(), c.1.clone(), true)); ck!(x == e, "remote lookup gave {}, {what}", d(&x)) } Err(_) => ck!(bad("remotes"), "remote lookup failed: {what}") }
    let ss: Vec<Server> = w0.remotes.iter().map(|x| x.1.clone()).collect();
    for (n, x) in [("servers", now(r.servers())), ("hint", now(r.lookup_remote_client_hint(&key, t)))] { match x { Ok(x) => { ck!(!bad("remotes"), "the listing failed and {n} succeeded"); ck!(x == ss, "{n} gave {}, {what}", d(&x)) } Err(_) => ck!(bad("remotes"), "{n} failed: {what}") } }
    match now(r.lookup_server(&key)) { Ok(x) => { ck!(!bad("remotes"), "the listing failed and a lookup succeeded"); let e = ss.iter().find(|s| s.public_key == key).map(|s| (s.clone(), true)); ck!(x == e, "server lookup gave {}, {what}", d(&x)) } Err(_) => ck!(bad("remotes"), "server lookup failed: {what}") }
    // a router with its own list of servers
    match now(f.lookup_server(&key)) { Ok(x) => { ck!(!bad("servers"), "the listing failed and a lookup succeeded"); let e = w0.servers.iter().find(|s| s.public_key == key).map(|s| (s.clone(), true)); ck!(x == e, "server lookup gave {}, listed {}", d(&x), d(&w0.servers)) } Err(_) => ck!(bad("servers"), "server lookup failed") }
    let (c, s) = (g.client(), g.server());
    let x = now(r.index_remote_client(c.clone(), s)); ck!(x.is_ok() != bad("local") && w.lock().unwrap().acts == vec![Act::Local(c)], "a router without remote clients should index them as local");
    }
    Ok(())
}
