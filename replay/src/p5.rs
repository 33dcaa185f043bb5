//! C23: port forwarding against a gateway that refuses at will.
use crate::gen::*;
use crate::p1::R;
use crate::ck;
use easy_upnp::{PortMappingProtocol as P, LOG, PLAN};
use std::collections::{BTreeMap, BTreeSet};
use std::time::Duration;
#[path = "/repo/src/port_forward/mod.rs"] #[allow(dead_code)] mod port_forward;
use port_forward::{PortForwarder, Protocol, UpnpPortForwarder};

pub fn c23(g: &mut G) -> R {
    LOG.lock().unwrap().clear(); PLAN.lock().unwrap().clear();
    let f = UpnpPortForwarder::new();
    // what must be remembered, and what may be (a removal the gateway refused)
    let mut book: BTreeMap<(u16, bool), u32> = BTreeMap::new();
    let mut maybe: BTreeSet<(u16, bool)> = BTreeSet::new();
    let n = 1 + g.n(14); let bad = *g.pick(&[0, 3, 8]);
    let mut tale = String::new();
    let ports = [*g.pick(&[0u16, 1, 80, 8001]), 65535, 8002];
    for _ in 0..n {
        let plan: Vec<bool> = (0..12).map(|_| bad == 0 || g.n(bad) != 0).collect();
        *PLAN.lock().unwrap() = plan;
        let before = LOG.lock().unwrap().len();
        let port = *g.pick(&ports); let proto = *g.pick(&[Protocol::TCP, Protocol::UDP, Protocol::Both]);
        let parts: Vec<bool> = match proto { Protocol::TCP => vec![false], Protocol::UDP => vec![true], Protocol::Both => vec![false, true] };
        let what = g.n(8);
        let secs = *g.pick(&[0u64, 1, 59, 3600, 86400, u32::MAX as u64 - 1, u32::MAX as u64, u32::MAX as u64 + 1, u32::MAX as u64 + 60, 1 << 40, u64::MAX]);
        let want = secs.min(u32::MAX as u64) as u32;
        let r = crate::mock::now(async { match what { 0..=3 => f.open(port, proto, Duration::new(secs, *g.pick(&[0, 1, 999_999_999]))).await, 4..=6 => f.close(port, proto).await, _ => f.discard().await } });
        let log: Vec<_> = LOG.lock().unwrap()[before..].to_vec();
        tale += &match what { 0..=3 => format!("open({port}, {proto:?}, {secs}s)"), 4..=6 => format!("close({port}, {proto:?})"), _ => "discard()".into() };
        tale += &format!(" -> {} after the requests {:?}; ", match &r { Ok(b) => format!("Ok({b})"), Err(_) => "Err".into() }, log);
        let refused = log.iter().any(|l| !l.4);
        ck!(r.is_err() == refused, "{tale}: an error is reported exactly when the gateway refused something");
        if let Ok(b) = &r { ck!(*b, "{tale}: a success is reported as none"); }
        let key = |l: &(bool, u16, P, u32, bool)| (l.1, l.2 == P::UDP);
        match what {
            0..=3 => {
                for l in &log { ck!(l.0 && l.1 == port && parts.contains(&key(l).1) && l.3 == want, "{tale}: the gateway was not asked to open the port for {want} s"); if l.4 { book.insert(key(l), want); maybe.remove(&key(l)); } }
                if r.is_ok() { for p in &parts { ck!(log.iter().any(|l| l.4 && key(l) == (port, *p)), "{tale}: reported as opened but never asked for"); } }
            }
            4..=6 => {
                let mut seen = BTreeSet::new();
                for l in &log { let k = key(l); ck!(!l.0 && k.0 == port && parts.contains(&k.1) && (book.contains_key(&k) || maybe.contains(&k)) && seen.insert(k), "{tale}: the gateway was asked for something other than removing what is remembered"); }
                if r.is_ok() { for p in &parts { let k = (port, *p); ck!(!book.contains_key(&k) || seen.contains(&k), "{tale}: reported as closed without removing the mapping"); maybe.remove(&k); } }
                for l in &log { let k = key(l); book.remove(&k); if l.4 { maybe.remove(&k); } else { maybe.insert(k); } }
            }
            _ => {
                let mut seen = BTreeSet::new();
                for l in &log { let k = key(l); ck!(!l.0 && (book.contains_key(&k) || maybe.contains(&k)) && seen.insert(k), "{tale}: the gateway was asked for something other than removing what is remembered"); }
                for k in book.keys() { ck!(seen.contains(k), "{tale}: a remembered mapping was not removed"); }
                book.clear();
                if r.is_ok() { maybe.clear(); }
                for l in &log { if l.4 { maybe.remove(&key(l)); } else { maybe.insert(key(l)); } }
            }
        }
    }
    Ok(())
}
