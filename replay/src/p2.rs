//! C11 - C13: what the server's endpoints do and answer.
use crate::gen::*;
use crate::mock::*;
use crate::p1::{R, d, proofs, certs, and};
use crate::ck;
use hyperborealib::prelude::*;
use hyperborealib::rest_api::prelude::ServerMiddleware;
use hyperborealib::drivers::server::prelude::*;
use serde_json::Value as Json;

type Srv<Rt> = ServerMiddleware<Net, Serv, Rt, BfsRecursionTraversal, Inbox>;
fn server<Rt: Router + Send + Sync + 'static>(g: &mut G, r: Rt, w: &W, sk: &SecretKey) -> Srv<Rt> {
    let sd = ServerDriver::new(r, BfsRecursionTraversal, Inbox(w.clone()), ServerParams { secret_key: sk.clone(), address: g.addr() });
    now(ServerMiddleware::new(Net::new(|_, _| Got::Fail), Serv::default(), sd))
}
fn post(s: &Serv, path: &str, q: &Json) -> Result<Json, String> { let h = s.posts.get(path).ok_or(format!("nothing is served at {path}"))?; h(q) }
fn get(s: &Serv, path: &str) -> Result<Json, String> { let h = s.gets.get(path).ok_or(format!("nothing is served at {path}"))?; h(&Json::Null) }
/// what a posted request should do and answer: the change it makes, the part of the world that may fail it
#[derive(Clone)] struct Want { path: &'static str, json: Json, seed: u64, valid: bool, act: Option<Act>, part: &'static str }
fn req<T>(sk: &SecretKey, p: (u64, Vec<u8>), body: T) -> Request<T> { Request { standard: 1, public_key: sk.public_key(), proof_seed: p.0, proof_sign: p.1, request: body } }
fn want(g: &mut G, sk: &SecretKey, w: &World, kind: usize, few: &[SecretKey]) -> Result<Want, String> {
    let c = if g.n(8) == 0 { sk.clone() } else if g.b() { g.pick(few).clone() } else { g.sk() }; let (seed, sign, ok) = proofs(g, &c); let pk = c.public_key();
    let e = |x: &dyn std::fmt::Debug| format!("a request cannot be written: {x:?}");
    let mut known = w.locals.iter().map(|x| x.public_key.clone()).chain(w.remotes.iter().map(|x| x.0.public_key.clone())).collect::<Vec<_>>(); known.push(sk.public_key()); known.push(pk.clone());
    let target = if !known.is_empty() && g.b() { g.pick(&known).clone() } else { g.pk() };
    Ok(match kind {
        0 => { let (x, good) = certs(g, &c, &sk.public_key()); let info = g.info(); let (x, good) = if g.n(10) == 0 { let v = g.newpk(); (certs(g, &c, &v).0, Some(false)) } else { (x, good) };
            let q = ConnectRequest(req(&c, (seed, sign), ConnectRequestBody { certificate: x.clone(), client: info.clone() }));
            Want { path: "/api/v1/connect", json: q.to_json().map_err(|x| e(&x))?, seed, valid: and(ok, good) == Some(true), act: Some(Act::Local(Client { public_key: pk, certificate: x, info })), part: "local" } }
        1 => { let q = DisconnectRequest(req(&c, (seed, sign), DisconnectRequestBody::new()));
            Want { path: "/api/v1/disconnect", json: q.to_json().map_err(|x| e(&x))?, seed, valid: ok == Some(true), act: Some(Act::Disconnect(pk)), part: "disconnect" } }
        2 => { let k = if g.n(4) == 0 { c.clone() } else if g.n(3) == 0 { g.pick(few).clone() } else { g.sk() }; let mut server = g.server(); if g.n(5) == 0 { server.public_key = sk.public_key() } let (x, good) = certs(g, &k, &server.public_key); let client = Client { public_key: k.public_key(), certificate: x, info: g.info() };
            let q = AnnounceRequest(req(&c, (seed, sign), AnnounceRequestBody::Client { client: client.clone(), server: server.clone() }));
            Want { path: "/api/v1/announce", json: q.to_json().map_err(|x| e(&x))?, seed, valid: and(ok, good) == Some(true), act: Some(Act::Remote(client, server)), part: "remote" } }
        3 => { let mut server = g.server(); match g.n(6) { 0 => server.public_key = sk.public_key(), 1 => server.public_key = pk.clone(), _ => () } let q = AnnounceRequest(req(&c, (seed, sign), AnnounceRequestBody::Server { server: server.clone() }));
            Want { path: "/api/v1/announce", json: q.to_json().map_err(|x| e(&x))?, seed, valid: ok == Some(true), act: Some(Act::Index(server)), part: "index" } }
        4 => { let sender = if g.b() { let mut s = g.sender(); s.client.public_key = pk; s } else { g.sender() }; let (channel, message) = (g.text(), g.message());
            let q = SendRequest(req(&c, (seed, sign), SendRequestBody { sender: sender.clone(), receiver_public: target.clone(), channel: channel.clone(), message: message.clone() }));
            Want { path: "/api/v1/send", json: q.to_json().map_err(|x| e(&x))?, seed, valid: ok == Some(true), act: Some(Act::Add(sender, target, channel, message)), part: "add" } }
        5 => { let channel = g.text(); let limit = match g.n(5) { 0 | 1 => None, 2 => Some(g.n(3) as u64), _ => Some(g.u64()) };
            let q = PollRequest(req(&c, (seed, sign), PollRequestBody { channel: channel.clone(), limit }));
            Want { path: "/api/v1/poll", json: q.to_json().map_err(|x| e(&x))?, seed, valid: ok == Some(true), act: Some(Act::Poll(pk, channel, limit)), part: "poll" } }
        _ => { let q = LookupRequest(req(&c, (seed, sign), LookupRequestBody { public_key: target, client_type: g.octype() }));
            Want { path: "/api/v1/lookup", json: q.to_json().map_err(|x| e(&x))?, seed, valid: ok == Some(true), act: None, part: "" } }
    })
}
/// the same request with something in it changed after signing what is signed
fn tampered(g: &mut G, x: &mut Want) { if g.n(6) == 0 { x.json["proof"]["sign"] = serde_json::json!(base64_encode(g.bytes(64))); x.valid = false } else if g.n(8) == 0 { let k = g.newpk(); x.json["public_key"] = serde_json::json!(k.to_base64()); x.valid = false } }
fn body<T: AsJson>(what: &str, j: &Json) -> Result<T, String> { T::from_json(j).map_err(|e| format!("{what}: the answer {j} cannot be read: {e:?}")) }
fn signed(what: &str, r: &Response<impl std::fmt::Debug>, k: &PublicKey, seed: u64) -> R {
    if let Response::Success { standard, status, public_key, proof_sign, .. } = r {
        ck!(*standard == 1 && *status == ResponseStatus::Success, "{what}: success answered with status {status:?}");
        ck!(public_key == k, "{what}: the answer names the key {} instead of the server's", public_key.to_base64());
        ck!(k.verify_signature(seed.to_be_bytes(), proof_sign).ok() == Some(true), "{what}: the answer is not signed by the server over the request's seed {seed}");
    } else if let Response::Error { status, .. } = r { ck!(*status != ResponseStatus::Success, "{what}: an error is answered with the success status"); }
    Ok(())
}
fn is_ok<T>(r: &Response<T>) -> bool { matches!(r, Response::Success { .. }) }
/// posted requests against a server kept over several of them
/// lets a client be known to the router already
fn seat(g: &mut G, w: &mut World, k: &PublicKey) {
    let mut c = g.client(); c.public_key = k.clone();
    match g.n(5) { 0 => w.locals.push(c), 1 => { let s = g.server(); w.remotes.push((c, s)) } 2 => { let mut s = g.server(); s.public_key = k.clone(); w.servers.push(s) } 3 => w.look_local = Some((c, g.b())), _ => { let s = g.server(); w.look_remote = Some((c, s, g.b())) } }
}
fn posts(g: &mut G, kinds: &[usize], truth: bool) -> R {
    let sk = g.sk(); let w: W = W::default(); *w.lock().unwrap() = world(g);
    let s = server(g, Full(w.clone()), &w, &sk); let k = sk.public_key();
    let n = 1 + g.n(6); let few: Vec<SecretKey> = (0..2).map(|_| g.sk()).collect();
    for c in &few { if g.b() { seat(g, &mut w.lock().unwrap(), &c.public_key()) } }
    let mut last: Option<(usize, Want)> = None;
    for _ in 0..n {
        if g.n(3) == 0 { let mut x = world(g); x.acts = w.lock().unwrap().acts.clone(); *w.lock().unwrap() = x }
        let kind = *g.pick(kinds); let now_w = w.lock().unwrap().clone();
        // now and then the very request that came before
        let (kind, x) = match &last { Some((k, x)) if g.n(5) == 0 => (*k, x.clone()), _ => { let mut x = want(g, &sk, &now_w, kind, &few)?; tampered(g, &mut x); (kind, x) } };
        last = Some((kind, x.clone()));
        let what = format!("{} of {}", x.path, x.json);
        let what = if what.len() > 1500 { what.chars().take(1400).collect() } else { what };
        let before = now_w.acts.clone();
        let a = post(s.http_server(), x.path, &x.json).map_err(|e| format!("{what}: {e}"))?;
        let new = w.lock().unwrap().acts[before.len()..].to_vec();
        let fails = now_w.fail.contains_key(x.part);
        if !truth {
            if !x.valid { ck!(new.is_empty(), "{what}: an invalid request did {}", d(&new)); }
            else if let Some(act) = &x.act { ck!(new == vec![act.clone()], "{what}: did {} instead of {}", d(&new), d(act)); }
            else { ck!(new.is_empty(), "{what}: a lookup did {}", d(&new)); }
        }
        macro_rules! answer { ($t:ty) => {{ let r: $t = body(&what, &a)?; let r = r.0; if truth { signed(&what, &r, &k, x.seed)?; } if !x.valid { ck!(!is_ok(&r), "{what}: success is answered to an invalid request"); } else if x.act.is_some() { ck!(is_ok(&r) == !fails, "{what}: success {} while the server's part succeeded: {}", is_ok(&r), !fails); } r }} }
        match kind {
            0 => { answer!(ConnectResponse); } 1 => { answer!(DisconnectResponse); } 2 | 3 => { answer!(AnnounceResponse); } 4 => { answer!(SendResponse); }
            5 => { let r = answer!(PollResponse); if truth { if let Response::Success { response, .. } = r { ck!(response.messages == now_w.polled.0 && response.remaining == now_w.polled.1, "{what}: answered {} with {} remaining, the inbox gave {} with {}", d(&response.messages), response.remaining, d(&now_w.polled.0), now_w.polled.1); } } }
            _ => { answer!(LookupResponse); }
        }
    }
    Ok(())
}
pub fn c11(g: &mut G) -> R { posts(g, &[0, 1, 2, 3, 4, 5, 6, 0, 2], false) }
pub fn c13(g: &mut G) -> R {
    if g.n(3) > 0 { return posts(g, &[0, 1, 2, 3, 4, 5, 6], true) }
    let sk = g.sk(); let w: W = W::default(); *w.lock().unwrap() = world(g);
    let full = g.b();
    let h = if full { server(g, Full(w.clone()), &w, &sk).http_server().clone() } else { server(g, Bare(w.clone()), &w, &sk).http_server().clone() };
    for _ in 0..1 + g.n(3) {
    if g.n(3) == 0 { *w.lock().unwrap() = world(g); } else if g.n(3) == 0 { let mut s = g.server(); s.public_key = sk.public_key(); w.lock().unwrap().servers.push(s); }
    let x = w.lock().unwrap().clone();
    let r: ClientsResponse = body("clients", &get(&h, "/api/v1/clients")?)?;
    let want = if x.fail.contains_key("locals") { vec![] } else { x.locals.clone() };
    ck!(r.clients == want, "clients listed: {}, the router lists {}", d(&r.clients), d(&want));
    let r: ServersResponse = body("servers", &get(&h, "/api/v1/servers")?)?;
    if full {
        let want = if x.fail.contains_key("servers") { vec![] } else { x.servers.clone() };
        ck!(r.servers == want, "servers listed: {}, the router lists {}", d(&r.servers), d(&want));
    } else {
        let want: Vec<Server> = if x.fail.contains_key("remotes") { vec![] } else { x.remotes.iter().map(|y| y.1.clone()).collect() };
        ck!(r.servers == want, "servers listed: {}, the router lists {}", d(&r.servers), d(&want));
    }
    let r: InfoResponse = body("info", &get(&h, "/api/v1/info")?)?;
    ck!(r.public_key == sk.public_key(), "info names another key");
    ck!(r.proof_seed >= 1 << 63 && r.public_key.verify_signature(r.proof_seed.to_be_bytes(), &r.proof_sign).ok() == Some(true) && r.validate().ok() == Some(true), "the info answer does not validate: {}", d(&r));
    }
    Ok(())
}
pub fn c12(g: &mut G) -> R {
    let sk = g.sk(); let w: W = W::default(); *w.lock().unwrap() = world(g);
    let full = g.n(3) > 0;
    let h = if full { server(g, Full(w.clone()), &w, &sk).http_server().clone() } else { server(g, Bare(w.clone()), &w, &sk).http_server().clone() };
    let n = 1 + g.n(5); let mut before: Option<PublicKey> = None; let few: Vec<SecretKey> = (0..2).map(|_| g.sk()).collect();
    for _ in 0..n {
        if g.n(3) == 0 { *w.lock().unwrap() = world(g) }
        if g.n(3) == 0 { let mut s = g.server(); s.public_key = sk.public_key(); let mut x = w.lock().unwrap(); let at = g.n(x.hint.len() + 1); x.hint.insert(at, s.clone()); if g.b() { if let Some(y) = x.hint.first().cloned() { x.hint.push(y) } } if g.b() { let c = g.client(); x.remotes.push((c, s.clone())) } if let Some(y) = &mut x.look_remote { if g.n(3) == 0 { y.1 = s } } }
        if g.n(4) == 0 { let k = g.pick(&few).public_key(); seat(g, &mut w.lock().unwrap(), &k) }
        let x = w.lock().unwrap().clone();
        let c = match g.n(6) { 0 => sk.clone(), 1 | 2 => g.pick(&few).clone(), _ => g.sk() }; let (seed, sign, ok) = proofs(g, &c);
        let known = x.locals.iter().map(|x| x.public_key.clone()).chain(x.remotes.iter().flat_map(|x| [x.0.public_key.clone(), x.1.public_key.clone()])).collect::<Vec<_>>();
        let target = if !known.is_empty() && g.n(3) > 0 { g.pick(&known).clone() } else { match g.n(4) { 0 => sk.public_key(), 1 => c.public_key(), _ => g.pk() } }; let target = match before.take() { Some(k) if g.n(3) == 0 => k, _ => target }; before = Some(target.clone()); let t = g.octype();
        // whoever asks: sometimes a client that the router knows
        let q = LookupRequest(req(&c, (seed, sign), LookupRequestBody { public_key: target.clone(), client_type: t }));
        w.lock().unwrap().asks.clear();
        let what = format!("lookup of {} ({t:?})", target.to_base64());
        let r: LookupResponse = body(&what, &post(&h, "/api/v1/lookup", &q.to_json().map_err(|e| format!("{e:?}"))?)?)?; let r = r.0;
        let asks = w.lock().unwrap().asks.clone();
        if ok != Some(true) { ck!(!is_ok(&r), "{what}: an invalid request is answered"); continue }
        let f = |k: &str| x.fail.contains_key(k);
        let typed = |c: &Client| t.is_none() || t == Some(c.info.client_type);
        // nothing: an error
        let want: Option<LookupResponseBody> = if full {
            if f("look_local") { None } else if let Some((c, a)) = &x.look_local { Some(LookupResponseBody::Local { client: c.clone(), available: *a }) }
            else if f("look_remote") { None } else if let Some((c, s, a)) = &x.look_remote { Some(LookupResponseBody::Remote { client: c.clone(), server: s.clone(), available: *a }) }
            else if f("hint") { None } else { Some(LookupResponseBody::Hint { servers: x.hint.clone() }) }
        } else {
            if f("locals") { None } else if let Some(c) = x.locals.iter().find(|c| c.public_key == target && typed(c)) { Some(LookupResponseBody::Local { client: c.clone(), available: true }) }
            else if f("remotes") { None } else if let Some((c, s)) = x.remotes.iter().find(|c| c.0.public_key == target && typed(&c.0)) { Some(LookupResponseBody::Remote { client: c.clone(), server: s.clone(), available: true }) }
            else { Some(LookupResponseBody::Hint { servers: x.remotes.iter().map(|y| y.1.clone()).collect() }) }
        };
        if full {
            for a in &asks { ck!(a.ends_with(&format!(" {} {t:?}", target.to_base64())), "{what}: the router was asked {a}"); }
            ck!(!asks.is_empty(), "{what}: the router was not asked");
        }
        match (&r, &want) {
            (Response::Success { response, .. }, Some(b)) => ck!(response == b, "{what}: answered {}, should be {}", d(response), d(b)),
            (Response::Error { .. }, None) => (),
            _ => return Err(format!("{what}: answered {}, should be {}", d(&r), d(&want))),
        }
    }
    Ok(())
}
