//! Stand-ins for the network, the router, the inbox and the HTTP server; they record what they are asked.
use crate::gen::*;
use hyperborealib::prelude::*;
use hyperborealib::http::client::{HttpClient, Response as HttpResponse};
use hyperborealib::http::server::HttpServer;
use hyperborealib::drivers::server::prelude::{Router, MessagesInbox};
use serde_json::Value as Json;
use std::sync::{Arc, Mutex};
use std::collections::HashMap;
use std::net::{SocketAddr, ToSocketAddrs};
use std::future::Future;

/// runs a future that never has to wait for anything
pub fn now<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let w = std::task::Waker::noop();
    let mut c = std::task::Context::from_waker(w);
    for _ in 0..1_000_000 { if let std::task::Poll::Ready(x) = f.as_mut().poll(&mut c) { return x } }
    panic!("an operation waits for something that never comes")
}
pub enum Got { Fail, NoBody, Body(Json), Odd(u16, Json) }
pub type Sent = (String, Option<Json>);
pub struct NetS { pub log: Vec<Sent>, pub h: Box<dyn FnMut(&str, Option<&Json>) -> Got + Send> }
#[derive(Clone)] pub struct Net(pub Arc<Mutex<NetS>>);
impl Net {
    pub fn new(h: impl FnMut(&str, Option<&Json>) -> Got + Send + 'static) -> Net { Net(Arc::new(Mutex::new(NetS { log: vec![], h: Box::new(h) }))) }
    fn ask(&self, url: &str, body: Option<Json>) -> Result<HttpResponse, Box<dyn std::error::Error + Send + Sync>> {
        let mut s = self.0.lock().unwrap_or_else(|e| e.into_inner());
        if s.log.len() > 3000 { drop(s); panic!("more than 3000 requests were sent") }
        s.log.push((url.to_string(), body.clone()));
        match (s.h)(url, body.as_ref()) { Got::Fail => Err("no route".into()), Got::NoBody => Ok(HttpResponse { status: 200, body: None }), Got::Body(b) => Ok(HttpResponse { status: 200, body: Some(b) }), Got::Odd(n, b) => Ok(HttpResponse { status: n, body: Some(b) }) }
    }
    pub fn log(&self) -> Vec<Sent> { self.0.lock().unwrap_or_else(|e| e.into_inner()).log.clone() }
}
#[async_trait::async_trait]
impl HttpClient for Net {
    async fn get(&self, url: impl AsRef<str> + Send) -> Result<HttpResponse, Box<dyn std::error::Error + Send + Sync>> { self.ask(url.as_ref(), None) }
    async fn post(&self, url: impl AsRef<str> + Send, body: Json) -> Result<HttpResponse, Box<dyn std::error::Error + Send + Sync>> { self.ask(url.as_ref(), Some(body)) }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Act { Local(Client), Remote(Client, Server), Index(Server), Disconnect(PublicKey), Add(Sender, PublicKey, String, Message), Poll(PublicKey, String, Option<u64>) }
#[derive(Debug)] pub struct Oops(pub String);
impl std::fmt::Display for Oops { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.0) } }
impl std::error::Error for Oops {}
/// answers of a router that only keeps lists
#[derive(Default, Clone)]
pub struct World { pub acts: Vec<Act>, pub asks: Vec<String>, pub locals: Vec<Client>, pub remotes: Vec<(Client, Server)>, pub servers: Vec<Server>, pub fail: HashMap<&'static str, bool>, pub said: bool,
    pub look_local: Option<(Client, bool)>, pub look_remote: Option<(Client, Server, bool)>, pub hint: Vec<Server>, pub polled: (Vec<MessageInfo>, u64) }
impl World { fn bad(&self, k: &'static str) -> Result<(), Oops> { if self.fail.get(k).copied().unwrap_or(false) { Err(Oops(format!("{k} failed"))) } else { Ok(()) } } }
pub type W = Arc<Mutex<World>>;
macro_rules! w { ($s:expr) => { $s.0.lock().unwrap_or_else(|e| e.into_inner()) } }
/// the methods a router has to have, and no more
#[derive(Clone)] pub struct Bare(pub W);
#[async_trait::async_trait]
impl Router for Bare {
    type Error = Oops;
    async fn index_local_client(&self, client: Client) -> Result<bool, Oops> { let mut w = w!(self); w.acts.push(Act::Local(client)); w.bad("local")?; Ok(w.said) }
    async fn index_server(&self, server: Server) -> Result<bool, Oops> { let mut w = w!(self); w.acts.push(Act::Index(server)); w.bad("index")?; Ok(w.said) }
    async fn disconnect(&self, k: &PublicKey) -> Result<(), Oops> { let mut w = w!(self); w.acts.push(Act::Disconnect(k.clone())); w.bad("disconnect") }
    async fn local_clients(&self) -> Result<Vec<Client>, Oops> { let w = w!(self); w.bad("locals")?; Ok(w.locals.clone()) }
    async fn remote_clients(&self) -> Result<Vec<(Client, Server)>, Oops> { let w = w!(self); w.bad("remotes")?; Ok(w.remotes.clone()) }
}
/// a router that answers everything as told
#[derive(Clone)] pub struct Full(pub W);
fn asked(k: &PublicKey, t: Option<ClientType>) -> String { format!("{} {:?}", k.to_base64(), t) }
#[async_trait::async_trait]
impl Router for Full {
    type Error = Oops;
    async fn index_local_client(&self, client: Client) -> Result<bool, Oops> { let mut w = w!(self); w.acts.push(Act::Local(client)); w.bad("local")?; Ok(w.said) }
    async fn index_remote_client(&self, client: Client, server: Server) -> Result<bool, Oops> { let mut w = w!(self); w.acts.push(Act::Remote(client, server)); w.bad("remote")?; Ok(w.said) }
    async fn index_server(&self, server: Server) -> Result<bool, Oops> { let mut w = w!(self); w.acts.push(Act::Index(server)); w.bad("index")?; Ok(w.said) }
    async fn disconnect(&self, k: &PublicKey) -> Result<(), Oops> { let mut w = w!(self); w.acts.push(Act::Disconnect(k.clone())); w.bad("disconnect") }
    async fn local_clients(&self) -> Result<Vec<Client>, Oops> { let w = w!(self); w.bad("locals")?; Ok(w.locals.clone()) }
    async fn remote_clients(&self) -> Result<Vec<(Client, Server)>, Oops> { let w = w!(self); w.bad("remotes")?; Ok(w.remotes.clone()) }
    async fn servers(&self) -> Result<Vec<Server>, Oops> { let w = w!(self); w.bad("servers")?; Ok(w.servers.clone()) }
    async fn lookup_local_client(&self, k: &PublicKey, t: Option<ClientType>) -> Result<Option<(Client, bool)>, Oops> { let mut w = w!(self); w.asks.push(format!("local {}", asked(k, t))); w.bad("look_local")?; Ok(w.look_local.clone()) }
    async fn lookup_remote_client(&self, k: &PublicKey, t: Option<ClientType>) -> Result<Option<(Client, Server, bool)>, Oops> { let mut w = w!(self); w.asks.push(format!("remote {}", asked(k, t))); w.bad("look_remote")?; Ok(w.look_remote.clone()) }
    async fn lookup_remote_client_hint(&self, k: &PublicKey, t: Option<ClientType>) -> Result<Vec<Server>, Oops> { let mut w = w!(self); w.asks.push(format!("hint {}", asked(k, t))); w.bad("hint")?; Ok(w.hint.clone()) }
}
#[derive(Clone)] pub struct Inbox(pub W);
#[async_trait::async_trait]
impl MessagesInbox for Inbox {
    type Error = Oops;
    async fn add_message(&self, s: Sender, r: PublicKey, c: String, m: Message) -> Result<(), Oops> { let mut w = w!(self); w.acts.push(Act::Add(s, r, c, m)); w.bad("add") }
    async fn poll_messages(&self, r: PublicKey, c: String, l: Option<u64>) -> Result<(Vec<MessageInfo>, u64), Oops> { let mut w = w!(self); w.acts.push(Act::Poll(r, c, l)); w.bad("poll")?; Ok(w.polled.clone()) }
}

type H = Arc<dyn Fn(&Json) -> Result<Json, String> + Send + Sync>;
/// keeps the endpoints; a request is run on the spot
#[derive(Default, Clone)] pub struct Serv { pub gets: HashMap<String, H>, pub posts: HashMap<String, H> }
fn here() -> SocketAddr { "127.0.0.1:4000".parse().unwrap() }
#[async_trait::async_trait]
impl HttpServer for Serv {
    async fn get<T: AsJson, F: Future<Output = T> + Send>(&mut self, path: impl AsRef<str> + Send, callback: impl FnOnce(SocketAddr) -> F + Clone + Send + Sync + 'static) {
        self.gets.insert(path.as_ref().to_string(), Arc::new(move |_: &Json| now((callback.clone())(here())).to_json().map_err(|e| e.to_string())));
    }
    async fn post<T: AsJson, F: AsJson, R: Future<Output = F> + Send>(&mut self, path: impl AsRef<str> + Send, callback: impl FnOnce(SocketAddr, T) -> R + Clone + Send + Sync + 'static) {
        self.posts.insert(path.as_ref().to_string(), Arc::new(move |j: &Json| { let q = T::from_json(j).map_err(|e| e.to_string())?; now((callback.clone())(here(), q)).to_json().map_err(|e| e.to_string()) }));
    }
    async fn serve(self, _: impl ToSocketAddrs + Send) -> Result<(), Box<dyn std::error::Error>> { Ok(()) }
}
pub fn world(g: &mut G) -> World {
    let ks: Vec<PublicKey> = (0..3).map(|_| g.pk()).collect();
    let mut w = World { said: g.b(), ..Default::default() };
    let n = g.many(400).unwrap_or(g.n(6)); for _ in 0..n { let mut c = g.client(); c.public_key = g.pick(&ks).clone(); if g.n(5) == 0 { if let Some(x) = w.locals.last() { c = x.clone() } } w.locals.push(c) }
    let n = g.many(400).unwrap_or(g.n(6)); for _ in 0..n { let mut c = g.client(); c.public_key = g.pick(&ks).clone(); let mut s = g.server(); if g.b() { s.public_key = g.pick(&ks).clone() } if g.n(5) == 0 { if let Some(x) = w.remotes.last() { (c, s) = x.clone() } } w.remotes.push((c, s)) }
    w.servers = g.list(|g| g.server());
    if g.b() { w.look_local = Some((g.client(), g.b())) }
    if g.b() { w.look_remote = Some((g.client(), g.server(), g.b())) }
    w.hint = g.list(|g| g.server());
    w.polled.0 = g.list(|g| g.msginfo());
    w.polled.1 = g.u64();
    for k in ["local", "remote", "index", "disconnect", "locals", "remotes", "servers", "look_local", "look_remote", "hint", "add", "poll"] { if g.n(5) == 0 { w.fail.insert(k, true); } }
    w
}
