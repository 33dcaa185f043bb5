//! C26: operations that stop between two operations on files (a crash there, or a caller that goes away).
use crate::gen::*;
use crate::p1::{R, d};
use crate::p3::Scratch;
use crate::ck;
use hyperborealib::prelude::*;
use hyperborealib::drivers::server::prelude::*;
use std::collections::BTreeMap;
use std::future::Future;

/// runs f until its n-th wait, and drops it there; what it had already asked of the file system is done first
fn cut<F: Future>(f: F, n: Option<usize>) -> Option<F::Output> {
    thread_local! { static RT: tokio::runtime::Runtime = tokio::runtime::Builder::new_current_thread().enable_all().max_blocking_threads(1).build().unwrap(); }
    RT.with(|r| r.block_on(async {
        let mut f = Box::pin(f);
        let mut waits = 0;
        let x = std::future::poll_fn(|cx| match f.as_mut().poll(cx) {
            std::task::Poll::Ready(x) => std::task::Poll::Ready(Some(x)),
            std::task::Poll::Pending if Some(waits) == n => std::task::Poll::Ready(None),
            std::task::Poll::Pending => { waits += 1; std::task::Poll::Pending }
        }).await;
        drop(f);
        let _ = tokio::task::spawn_blocking(|| ()).await;
        x
    }))
}
fn fine<T, E: std::fmt::Debug>(what: &str, hist: &[String], x: Option<Result<T, E>>) -> Result<T, String> { x.unwrap().map_err(|x| format!("{what} failed on a healthy disk: {x:?}, after {}", d(&hist))) }

fn inbox(g: &mut G) -> R {
    let s = Scratch::new();
    let mut b = fine("new", &[], cut(StoredQueueMessagesInbox::new(s.root.clone()), None))?;
    let keys: Vec<PublicKey> = (0..2).map(|_| g.pk()).collect();
    let chans = ["default".to_string(), g.word()];
    if keys[0].to_base64() == keys[1].to_base64() || chans[0] == chans[1] { return Ok(()) }
    // what each inbox may hold: any of these, as numbers of messages sent
    let mut may: BTreeMap<(usize, usize), Vec<Vec<usize>>> = BTreeMap::new();
    let mut sent: Vec<(Sender, Message)> = vec![];
    let mut hist = vec![];
    let steps = 4 + g.n(20);
    let last = 4;
    let long = g.n(8) == 0;
    for i in 0..steps + last {
        let (k, c) = if i < steps { if long { (0, 0) } else { (g.n(2), g.n(2)) } } else { ((i - steps) % 2, (i - steps) / 2) };
        let who = format!("{}{}", ["A", "B"][k], ["", "'"][c]);
        let w = may.entry((k, c)).or_insert_with(|| vec![vec![]]);
        if i < steps && g.n(10) == 0 { hist.push("reopen".to_string()); b = fine("new", &hist, cut(StoredQueueMessagesInbox::new(s.root.clone()), None))?; }
        if i < steps && g.n(5) < 3 {
            for _ in 0..if long && g.n(3) == 0 { 1 + g.n(12) } else { 1 } {
                let (f, m) = (g.sender(), g.message());
                let at = if g.n(3) == 0 { Some(g.n(6)) } else { None };
                sent.push((f.clone(), m.clone()));
                hist.push(match at { Some(n) => format!("send({who}) number {} stopped at its wait {n}", sent.len() - 1), None => format!("send({who}) number {}", sent.len() - 1) });
                let n = sent.len() - 1;
                match cut(b.add_message(f, keys[k].clone(), chans[c].clone(), m), at) {
                    Some(x) => { fine("add_message", &hist, Some(x))?; for q in w.iter_mut() { q.push(n) } }
                    None => { let more: Vec<Vec<usize>> = w.iter().map(|q| { let mut q = q.clone(); q.push(n); q }).collect(); w.extend(more) }
                }
            }
        } else {
            let lim = if i >= steps { None } else { match g.n(5) { 0 => None, 1 => Some(1), 2 => Some(2), 3 => Some(g.n(8) as u64), _ => Some(g.edge()) } };
            let most = w.iter().map(|q| q.len()).max().unwrap_or(0);
            let at = if i < steps && g.n(3) == 0 { Some(g.n(2 * most + 4)) } else { None };
            let cap = |q: &Vec<usize>| lim.map(|l| l.min(q.len() as u64) as usize).unwrap_or(q.len());
            hist.push(match at { Some(n) => format!("poll({who}, {lim:?}) stopped at its wait {n}"), None => format!("poll({who}, {lim:?})") });
            match cut(b.poll_messages(keys[k].clone(), chans[c].clone(), lim), at) {
                None => { let mut more = vec![]; for q in w.iter() { for j in 0..=cap(q) { more.push(q[j..].to_vec()) } } *w = more }
                Some(x) => {
                    let (got, rest) = fine("poll_messages", &hist, Some(x))?;
                    let mut left = vec![];
                    for q in w.iter() {
                        let n = cap(q);
                        let same = got.len() == n && got.iter().zip(q).all(|(x, m)| x.sender == sent[*m].0 && x.message == sent[*m].1 && x.channel == chans[c]);
                        if same && rest >= (q.len() - n) as u64 { left.push(q[n..].to_vec()) }
                    }
                    let which: Vec<_> = got.iter().map(|x| sent.iter().position(|m| x.sender == m.0 && x.message == m.1)).collect();
                    ck!(!left.is_empty(), "messages {} came and {rest} were said to remain, where {} could wait, after {}", d(&which), d(w), d(&hist));
                    *w = left;
                }
            }
        }
        w.sort(); w.dedup();
        if w.len() > 400 { return Ok(()) }
    }
    Ok(())
}
type May<T> = BTreeMap<String, Vec<Option<T>>>;
fn settle<T: PartialEq + Clone + std::fmt::Debug>(what: &str, hist: &[String], got: Vec<T>, may: &mut May<T>, key: impl Fn(&T) -> String) -> R {
    let mut m: BTreeMap<String, T> = BTreeMap::new();
    for x in got { ck!(m.insert(key(&x), x.clone()).is_none(), "{what}: {} is listed twice, after {}", d(&key(&x)), d(&hist)); }
    for (k, x) in &m { ck!(may.get(k).is_some_and(|o| o.contains(&Some(x.clone()))), "{what}: {} is listed, where {} could be, after {}", d(x), d(&may.get(k)), d(&hist)); }
    for (k, o) in may.iter_mut() { let x = m.get(k).cloned(); ck!(o.contains(&x), "{what}: the record of {k} is gone, where {} could be, after {}", d(o), d(&hist)); *o = vec![x]; }
    Ok(())
}
fn put<T: Clone + PartialEq>(may: &mut May<T>, k: String, x: Option<T>, done: bool) {
    let o = may.entry(k).or_insert_with(|| vec![None]);
    if done { *o = vec![x] } else if !o.contains(&x) { o.push(x) }
}
fn table(g: &mut G) -> R {
    let s = Scratch::new();
    let mut r = fine("new", &[], cut(GlobalTableRouter::new(s.root.clone()), None))?;
    let keys: Vec<PublicKey> = (0..3).map(|_| g.pk()).collect();
    let (mut l, mut m, mut v): (May<Client>, May<(Client, Server)>, May<Server>) = Default::default();
    let mut hist = vec![];
    let k = |x: &PublicKey| x.to_base64();
    for _ in 0..3 + g.n(16) {
        let key = g.pick(&keys).clone();
        let mut c = g.client(); c.public_key = key.clone();
        let mut srv = g.server();
        let at = if g.b() { Some(g.n(5)) } else { None };
        let note = match at { Some(n) => format!(" stopped at its wait {n}"), None => String::new() };
        match g.n(5) {
            0 => { hist.push(format!("index_local_client({}){note}", k(&key))); let x = cut(r.index_local_client(c.clone()), at); let done = x.is_some(); if done { fine("index_local_client", &hist, x)?; } put(&mut l, k(&key), Some(c), done) }
            1 => { hist.push(format!("index_remote_client({}){note}", k(&key))); let x = cut(r.index_remote_client(c.clone(), srv.clone()), at); let done = x.is_some(); if done { fine("index_remote_client", &hist, x)?; } put(&mut m, k(&key), Some((c, srv)), done) }
            2 => { srv.public_key = key.clone(); hist.push(format!("index_server({}){note}", k(&key))); let x = cut(r.index_server(srv.clone()), at); let done = x.is_some(); if done { fine("index_server", &hist, x)?; } put(&mut v, k(&key), Some(srv), done) }
            3 => { hist.push(format!("disconnect({}){note}", k(&key))); let x = cut(r.disconnect(&key), at); let done = x.is_some(); if done { fine("disconnect", &hist, x)?; } put(&mut l, k(&key), None, done); put(&mut m, k(&key), None, done); put(&mut v, k(&key), None, done) }
            _ => { hist.push("reopen".into()); r = fine("new", &hist, cut(GlobalTableRouter::new(s.root.clone()), None))?; }
        }
        settle("local clients", &hist, fine("local_clients", &hist, cut(r.local_clients(), None))?, &mut l, |x| k(&x.public_key))?;
        settle("remote clients", &hist, fine("remote_clients", &hist, cut(r.remote_clients(), None))?, &mut m, |x| k(&x.0.public_key))?;
        settle("servers", &hist, fine("servers", &hist, cut(r.servers(), None))?, &mut v, |x| k(&x.public_key))?;
    }
    Ok(())
}
pub fn c26(g: &mut G) -> R { if g.n(3) == 0 { table(g) } else { inbox(g) } }
