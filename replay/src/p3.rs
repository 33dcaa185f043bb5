//! C15 - C17: the routing table and the inboxes on disk, in scratch folders, without the rights of root.
use crate::gen::*;
use crate::p1::{R, d};
use crate::ck;
use hyperborealib::prelude::*;
use hyperborealib::drivers::server::prelude::*;
use std::collections::{BTreeMap, VecDeque};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};

extern "C" { fn getuid() -> u32; fn setgid(g: u32) -> i32; fn setuid(u: u32) -> i32; fn setgroups(n: usize, g: *const u32) -> i32; }
/// gives up root; answers whether the process is no longer root
pub fn lay_down() -> bool { unsafe { if getuid() == 0 { setgroups(0, std::ptr::null()); setgid(65534); setuid(65534); } getuid() != 0 } }
static N: AtomicU64 = AtomicU64::new(0);
pub struct Scratch { base: PathBuf, pub root: PathBuf }
impl Scratch {
    pub fn new() -> Scratch {
        let base = PathBuf::from(format!("/tmp/hyperborea-replay-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        let root = base.join("a/b/c/d/inbox");
        std::fs::create_dir_all(base.join("a/b/c/d")).unwrap();
        std::fs::write(base.join("a/b/c/d/index"), "outside").unwrap();
        std::fs::write(base.join("a/b/c/d/x"), "outside").unwrap();
        Scratch { base, root }
    }
    /// all there is outside the folder
    fn outside(&self) -> BTreeMap<String, Option<Vec<u8>>> { let mut m = BTreeMap::new(); tree(&self.base, &self.root, &mut m); m }
}
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.base); } }
fn tree(p: &Path, not: &Path, m: &mut BTreeMap<String, Option<Vec<u8>>>) {
    for e in std::fs::read_dir(p).unwrap().flatten() {
        let q = e.path();
        if q == not { continue }
        if q.is_dir() { m.insert(q.display().to_string(), None); tree(&q, not, m); } else { m.insert(q.display().to_string(), std::fs::read(&q).ok()); }
    }
}
fn run<F: std::future::Future>(f: F) -> F::Output {
    thread_local! { static RT: tokio::runtime::Runtime = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap(); }
    RT.with(|r| r.block_on(f))
}
fn e<T, E: std::fmt::Debug>(what: &str, x: Result<T, E>) -> Result<T, String> { x.map_err(|x| format!("{what} failed on a healthy disk: {x:?}")) }
fn same<T: PartialEq + std::fmt::Debug>(what: &str, hist: &[String], got: Vec<T>, want: &BTreeMap<String, T>, key: impl Fn(&T) -> String) -> R {
    let mut m = BTreeMap::new();
    let n = got.len();
    for x in got { m.insert(key(&x), x); }
    ck!(n == m.len(), "{what}: a key is listed twice, after {}", d(hist));
    ck!(&m == want, "{what}: listed {}, stored {}, after {}", d(&m), d(want), d(hist));
    Ok(())
}
/// lets time pass for what is stored: the moments noted in the files move back
fn age(p: &Path, by: u64) {
    for f in std::fs::read_dir(p).into_iter().flatten().flatten() {
        let p = f.path(); if p.is_dir() { age(&p, by); continue }
        let Ok(Ok(mut j)) = std::fs::read(&p).map(|b| serde_json::from_slice::<serde_json::Value>(&b)) else { continue };
        let mut hit = false;
        for k in ["indexed_at", "received_at"] { if let Some(t) = j.get(k).and_then(|t| t.as_u64()) { j[k] = serde_json::json!(t.saturating_sub(by)); hit = true } }
        if hit { let _ = std::fs::write(&p, serde_json::to_vec(&j).unwrap()); }
    }
}
const AGES: [u64; 8] = [1, 60, 3600, 86_400, 700_000, 3_000_000, 40_000_000, 1_000_000_000];
pub fn c15(g: &mut G) -> R {
    let s = Scratch::new();
    let mut r = e("new", run(GlobalTableRouter::new(s.root.clone())))?;
    let many = g.many(300).or(if g.n(100) == 0 { Some(40 + g.n(60)) } else { None });
    let mut keys: Vec<PublicKey> = (0..many.unwrap_or(4).max(1)).map(|_| g.pk()).collect();
    if keys.len() > 1 && g.n(3) == 0 { keys[1] = twin(&keys[0]) }
    let (mut l, mut m, mut v): (BTreeMap<String, Client>, BTreeMap<String, (Client, Server)>, BTreeMap<String, Server>) = Default::default();
    let mut hist = vec![];
    let k = |x: &PublicKey| x.to_base64();
    let steps = match many { Some(n) => 2 * n + 6, None => 3 + g.n(14) };
    for step in 0..steps {
        let key = if many.is_some() && step < keys.len() { keys[step].clone() } else { g.pick(&keys).clone() };
        let mut c = g.client(); c.public_key = key.clone();
        if g.n(4) == 0 { c.info.address = Some("y".repeat(match g.near() { Some(x) if x < 200_000 => x as usize, _ => 3 * g.n(400) })); }
        let mut srv = g.server();
        // nearly what is recorded already
        if g.n(3) == 0 {
            let old = match (l.get(&k(&key)), m.get(&k(&key))) { (Some(x), Some((y, _))) => Some(if g.b() { x } else { y }), (x, y) => x.or(y.map(|y: &(Client, Server)| &y.0)) };
            if let Some(x) = old { let n = c; c = x.clone(); match g.n(6) { 0 => c.info = n.info, 1 => c.certificate = n.certificate, 2 => c.info.client_type = n.info.client_type, 3 => c.info.address = n.info.address, _ => () } }
            let old: Option<&Server> = match (m.get(&k(&key)), v.get(&k(&key))) { (Some((_, x)), Some(y)) => Some(if g.b() { x } else { y }), (x, y) => x.map(|x| &x.1).or(y) };
            if let Some(x) = old { let n = srv; srv = x.clone(); match g.n(4) { 0 => srv.address = n.address, 1 => srv.public_key = n.public_key, _ => () } }
        }
        match g.n(5) { 0 => srv.public_key = key.clone(), 1 => srv.public_key = g.pick(&keys).clone(), _ => () }
        match if many.is_some() && step < keys.len() { step * 3 / keys.len() } else { g.n(6) } {
            0 => { hist.push(format!("index_local_client({})", k(&key))); ck!(e("index_local_client", run(r.index_local_client(c.clone())))?, "indexing answered false after {}", d(&hist)); l.insert(k(&key), c); }
            1 => { hist.push(format!("index_remote_client({})", k(&key))); ck!(e("index_remote_client", run(r.index_remote_client(c.clone(), srv.clone())))?, "indexing answered false after {}", d(&hist)); m.insert(k(&key), (c, srv)); }
            2 => { srv.public_key = key.clone(); hist.push(format!("index_server({})", k(&key))); ck!(e("index_server", run(r.index_server(srv.clone())))?, "indexing answered false after {}", d(&hist)); v.insert(k(&key), srv); }
            3 => { hist.push(format!("disconnect({})", k(&key))); e("disconnect", run(r.disconnect(&key)))?; l.remove(&k(&key)); m.remove(&k(&key)); v.remove(&k(&key)); }
            4 => { hist.push("reopen".into()); r = e("new", run(GlobalTableRouter::new(s.root.clone())))?; }
            _ if g.n(4) == 0 => { let by = g.near().unwrap_or(*g.pick(&AGES)); hist.push(format!("{by} s pass")); age(&s.root, by) }
            _ => (),
        }
        if many.is_some() && step % 16 != 15 && step + 8 < steps { continue }
        same("local clients", &hist, e("local_clients", run(r.local_clients()))?, &l, |x| k(&x.public_key))?;
        same("remote clients", &hist, e("remote_clients", run(r.remote_clients()))?, &m, |x| k(&x.0.public_key))?;
        same("servers", &hist, e("servers", run(r.servers()))?, &v, |x| k(&x.public_key))?;
    }
    Ok(())
}
fn inboxes(g: &mut G, chans: Vec<String>, wide: bool) -> R {
    let s = Scratch::new();
    let mut b = e("new", run(StoredQueueMessagesInbox::new(s.root.clone())))?;
    let mut keys: Vec<PublicKey> = (0..2).map(|_| g.pk()).collect();
    if g.n(4) == 0 { keys[1] = twin(&keys[0]) }
    let out = s.outside();
    let mut q: BTreeMap<(String, String), VecDeque<(Sender, Message, u64, u64)>> = BTreeMap::new();
    let mut hist = vec![];
    let now = || std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs();
    let steps = if g.n(12) == 0 { 90 } else { 4 + g.n(24) };
    let last = keys.len() * chans.len();
    let burst = if g.n(30) == 0 { g.n(steps) } else { usize::MAX };
    for i in 0..steps + last {
        let (key, c) = if i < steps { (g.pick(&keys).clone(), g.pick(&chans).clone()) } else { (keys[(i - steps) % keys.len()].clone(), chans[(i - steps) / keys.len()].clone()) };
        let at = (key.to_base64(), c.clone());
        if i < steps && g.n(12) == 0 { hist.push("reopen".to_string()); b = e("new", run(StoredQueueMessagesInbox::new(s.root.clone())))?; }
        if i < steps && g.n(40) == 0 { let by = g.near().unwrap_or(*g.pick(&AGES)); hist.push(format!("{by} s pass")); age(&s.root, by); for w in q.values_mut() { for x in w { x.2 = x.2.saturating_sub(by); x.3 = x.3.saturating_sub(by) } } }
        if i < steps && g.n(5) < 3 {
            // once in a while the same message again, to the same place
            let old: Option<(Sender, Message)> = q.get(&at).and_then(|w| w.back()).map(|w| (w.0.clone(), w.1.clone()));
            let (f, m) = match old { Some(o) if g.n(5) == 0 => o, Some((f, _)) if g.n(5) == 0 => (f, g.message()), Some((_, m)) if g.n(8) == 0 => (g.sender(), m), _ => (g.sender(), g.message()) };
            // or a long queue
            let times = if i == burst { g.many(3000).unwrap_or(*g.pick(&[130, 260, 300, 520, 1030])) } else { 1 };
            for _ in 1..times {
                let t0 = now();
                let a = run(b.add_message(f.clone(), key.clone(), c.clone(), m.clone()));
                if wide && a.is_err() && c.len() > 180 { break }
                e("add_message", a).map_err(|x| format!("{x}, after {} and many more like it", d(&hist)))?;
                q.entry(at.clone()).or_default().push_back((f.clone(), m.clone(), t0, now()));
            }
            hist.push(if times > 1 { format!("add({}, {:?}) {times} times", &at.0[..6], c) } else { format!("add({}, {:?})", &at.0[..6], c) });
            let t0 = now();
            let a = run(b.add_message(f.clone(), key.clone(), c.clone(), m.clone()));
            if wide && a.is_err() && c.len() > 180 { continue }
            e("add_message", a).map_err(|x| format!("{x}, after {}", d(&hist)))?;
            q.entry(at).or_default().push_back((f, m, t0, now()));
        } else {
            let lim = if i >= steps { None } else { match g.n(7) { 0 => None, 1 => Some(0), 2 => Some(1), 3 => Some(2), 4 => Some(u64::MAX), 5 => Some(g.edge()), _ => Some(g.n(6) as u64) } };
            hist.push(format!("poll({}, {:?}, {lim:?})", &at.0[..6], c));
            let a = run(b.poll_messages(key.clone(), c.clone(), lim));
            let (got, rest) = e("poll_messages", a).map_err(|x| format!("{x}, after {}", d(&hist)))?;
            let w = q.entry(at).or_default();
            let n = lim.map(|x| x.min(w.len() as u64) as usize).unwrap_or(w.len());
            ck!(got.len() == n, "{} messages came, {n} of {} were due, after {}", got.len(), w.len(), d(&hist));
            for x in got {
                let (f, m, t0, t1) = w.pop_front().unwrap();
                ck!(x.sender == f && x.message == m && x.channel == c, "another message came, after {}: {}", d(&hist), d(&x));
                ck!(t0 <= x.received_at && x.received_at <= t1, "received at {}, between {t0} and {t1}", x.received_at);
            }
            ck!(rest == w.len() as u64, "{rest} said to remain, {} do, after {}", w.len(), d(&hist));
        }
        if wide { let o = s.outside(); ck!(o == out, "files outside the folder changed, after {}: {}", d(&hist), d(o.iter().filter(|x| out.get(x.0) != Some(x.1)).collect::<Vec<_>>())); }
    }
    Ok(())
}
pub fn c16(g: &mut G) -> R { let n = 1 + g.n(2); let c = (0..n).map(|i| if i == 0 { "default".into() } else { g.word() }).collect::<std::collections::BTreeSet<String>>(); inboxes(g, c.into_iter().collect(), false) }
/// groups of names that could be taken for one another, or lead elsewhere
const NEAR: &[&[&str]] = &[&["a", "a/"], &["a", "./a", "a/.", "b/../a"], &["", ".", "/"], &["..", "../..", "../index", "../x"], &["index", "index/index", "a/index"], &["A", "a"], &["a b", "a+b", "a_b", "a-b", "a/b", "a\\b"], &["channel-", "channel-YQ==", "a"], &["a\0", "a"], &["é", "e\u{301}"], &["+", " ", "%20"], &["?", ">", "~", "\u{ff}", "\u{fb}\u{ef}\u{be}"], &["1", "01", "1.", "1/"], &["", "\0"], &["null", "None", "NULL"], &[" a", "a ", "a"], &["a\n", "a"], &["default", "Default", "default "], &["日本", "日木"], &["🦀", "🦁"], &["aa>", "aa?"], &["~~>", "~~?", "~~~"], &["ß", "SS", "ss"], &["ﬁ", "fi"], &["\u{200b}a", "a"], &["a\r\n", "a\n", "a"], &["a:b", "a;b", "a|b"], &["A", "a", "À", "à"], &["a", "š", "\u{161}\u{161}"], &["a", "\u{10061}"], &["a", "á"], &["aa", "a", "aaa"], &["日本語チャンネル", "日本語", "\u{e5},\u{9e}"]];
pub fn c17(g: &mut G) -> R {
    let mut c: Vec<String> = if g.b() { g.pick(NEAR).iter().map(|x| x.to_string()).collect() } else { (0..3).map(|_| g.text()).filter(|x| !x.starts_with('/')).collect() };
    if g.n(3) == 0 { let b = 1 + g.n(150); c.push("z".repeat(b)); c.push("z".repeat(b + 1)); }
    if g.n(4) == 0 { let x = c.first().cloned().unwrap_or_default(); c.push(base64_encode(x)); }
    if g.n(6) == 0 { c.push(format!("/tmp/hyperborea-replay-{}-{}/abs", std::process::id(), N.load(Ordering::SeqCst))); }
    if g.n(3) == 0 { let t = c.first().cloned().unwrap_or_default(); for _ in 0..3 { let v = g.vary(&t); c.push(v) } }
    c.retain(|x| !x.starts_with('/') || x == "/" || x.starts_with("/tmp/hyperborea-replay-"));
    if c.is_empty() { c.push("a".into()); }
    c.sort(); c.dedup();
    c.truncate(8);
    inboxes(g, c, true)
}
