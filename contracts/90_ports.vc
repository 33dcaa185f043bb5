# ---------------------------------------------------------------- ports opened through the gateway
@inherent port_forward::PortForwarder
@state port_forward::upnp::UpnpPortForwarder
@mod port_forward::upnp
use crate::upnp::{gateway, made, all_asked, Asked};
/// the gateway's name of a protocol
pub open spec fn up(p: Protocol) -> PortMappingProtocol { if p is UDP { PortMappingProtocol::UDP } else { PortMappingProtocol::TCP } }
/// p is one of the protocols asked for
pub open spec fn part(p: Protocol, of: Protocol) -> bool { !(p is Both) && (of is Both || of == p) }
/// the mappings remembered
pub open spec fn held(f: UpnpPortForwarder) -> Map<(u16, Protocol), UpnpConfig> { f.forwarded.val().mv() }
/// every mapping is remembered under its own port and protocol
pub open spec fn tidy(t: Map<(u16, Protocol), UpnpConfig>) -> bool { forall|k: (u16, Protocol)| #[trigger] t.contains_key(k) ==> !(k.1 is Both) && t[k].port == k.0 && t[k].protocol == up(k.1) }
/// the requests made in between
pub open spec fn log(w0: World, w1: World) -> Seq<Asked> { gateway(w1).subrange(gateway(w0).len() as int, gateway(w1).len() as int) }
pub open spec fn goes_on(w0: World, w1: World) -> bool { gateway(w0).len() <= gateway(w1).len() && gateway(w0) =~= gateway(w1).subrange(0, gateway(w0).len() as int) }
/// whole seconds, as many as a request can express
pub open spec fn secs_of(d: Duration) -> int { if d.secs > u32::MAX { u32::MAX as int } else { d.secs as int } }
pub open spec fn wanted(c: UpnpConfig, port: u16, p: Protocol, d: Duration) -> bool { c.port == port && c.protocol == up(p) && c.duration as int == secs_of(d) }
/// the gateway agreed to the request at i, which was about p
pub open spec fn agreed(l: Seq<Asked>, i: int, p: Protocol) -> bool { l[i].ok && l[i].what.protocol == up(p) }
pub open spec fn granted(l: Seq<Asked>, p: Protocol) -> bool { exists|i: int| 0 <= i < l.len() && #[trigger] agreed(l, i, p) }
pub open spec fn refused(l: Seq<Asked>) -> bool { exists|i: int| 0 <= i < l.len() && !(#[trigger] l[i]).ok }
/// an open: what was asked of the gateway, what is remembered afterwards and what is reported
pub open spec fn opened(t0: Map<(u16, Protocol), UpnpConfig>, t1: Map<(u16, Protocol), UpnpConfig>, l: Seq<Asked>, port: u16, p: Protocol, d: Duration, r: Result<bool, Error>) -> bool {
    &&& forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).add && (wanted(l[i].what, port, Protocol::TCP, d) && part(Protocol::TCP, p) || wanted(l[i].what, port, Protocol::UDP, d) && part(Protocol::UDP, p))
    &&& (r is Err <==> refused(l))
    &&& (r is Ok ==> r == Ok::<bool, Error>(true) && (part(Protocol::TCP, p) ==> granted(l, Protocol::TCP)) && (part(Protocol::UDP, p) ==> granted(l, Protocol::UDP)))
    &&& forall|k: (u16, Protocol)| #[trigger] t1.contains_key(k) <==> t0.contains_key(k) || (k.0 == port && part(k.1, p) && granted(l, k.1))
    &&& forall|k: (u16, Protocol)| #[trigger] t1.contains_key(k) ==> if k.0 == port && part(k.1, p) && granted(l, k.1) { wanted(t1[k], port, k.1, d) } else { t1[k] == t0[k] }
}
@mod port_forward::upnp
pub broadcast proof fn lm_cat(w0: World, w1: World, w2: World)
    requires goes_on(w0, w1), goes_on(w1, w2)
    ensures #![trigger log(w0, w1), log(w1, w2)] goes_on(w0, w2), log(w0, w2) == log(w0, w1) + log(w1, w2)
{
    assert forall|i: int| 0 <= i < gateway(w0).len() implies gateway(w0)[i] == gateway(w2)[i] by {
        assert(gateway(w0)[i] == gateway(w1).subrange(0, gateway(w0).len() as int)[i]); assert(gateway(w1)[i] == gateway(w2).subrange(0, gateway(w1).len() as int)[i]);
    }
    assert forall|i: int| gateway(w0).len() <= i < gateway(w1).len() implies gateway(w1)[i] == gateway(w2)[i] by { assert(gateway(w1)[i] == gateway(w2).subrange(0, gateway(w1).len() as int)[i]); }
    assert(log(w0, w2) =~= log(w0, w1) + log(w1, w2));
}
pub broadcast proof fn lm_one(w0: World, w1: World, a: Asked)
    ensures #[trigger] made(w0, w1, a) ==> goes_on(w0, w1) && log(w0, w1) == seq![a]
{ if made(w0, w1, a) { assert(log(w0, w1) =~= seq![a]); } }
pub broadcast proof fn lm_none(w: World)
    ensures goes_on(w, w), (#[trigger] log(w, w)) == Seq::<Asked>::empty()
{ assert(log(w, w) =~= Seq::<Asked>::empty()); }
pub broadcast proof fn lm_all(add: bool, c: Seq<UpnpConfig>, w0: World, w1: World, r: Seq<Result<(), Error>>)
    requires #[trigger] all_asked(add, c, w0, w1, r)
    ensures goes_on(w0, w1), log(w0, w1).len() == c.len(), forall|i: int| 0 <= i < c.len() ==> #[trigger] log(w0, w1)[i] == (Asked { add, what: c[i], ok: r[i] is Ok })
{
    assert forall|i: int| 0 <= i < c.len() implies #[trigger] log(w0, w1)[i] == (Asked { add, what: c[i], ok: r[i] is Ok }) by { assert(log(w0, w1)[i] == gateway(w1)[gateway(w0).len() + i]); }
}
pub broadcast proof fn lm_granted(a: Seq<Asked>, b: Seq<Asked>, p: Protocol)
    ensures (#[trigger] granted(a + b, p)) <==> granted(a, p) || granted(b, p)
{
    let l = a + b;
    if granted(l, p) { let i = choose|i: int| 0 <= i < l.len() && #[trigger] agreed(l, i, p); if i < a.len() { assert(agreed(a, i, p)); } else { assert(agreed(b, i - a.len(), p)); } }
    if granted(a, p) { let i = choose|i: int| 0 <= i < a.len() && #[trigger] agreed(a, i, p); assert(agreed(l, i, p)); }
    if granted(b, p) { let i = choose|i: int| 0 <= i < b.len() && #[trigger] agreed(b, i, p); assert(agreed(l, i + a.len(), p)); }
}
pub broadcast proof fn lm_refused(a: Seq<Asked>, b: Seq<Asked>)
    ensures (#[trigger] refused(a + b)) <==> refused(a) || refused(b)
{
    let l = a + b;
    if refused(l) { let i = choose|i: int| 0 <= i < l.len() && !(#[trigger] l[i]).ok; if i < a.len() { assert(!a[i].ok); } else { assert(!b[i - a.len()].ok); } }
    if refused(a) { let i = choose|i: int| 0 <= i < a.len() && !(#[trigger] a[i]).ok; assert(!l[i].ok); }
    if refused(b) { let i = choose|i: int| 0 <= i < b.len() && !(#[trigger] b[i]).ok; assert(!l[i + a.len()].ok); }
}
pub broadcast proof fn lm_named(a: Seq<Asked>, b: Seq<Asked>, k: (u16, Protocol))
    ensures (#[trigger] named(a + b, k)) <==> named(a, k) || named(b, k)
{
    let l = a + b;
    if named(l, k) { let i = choose|i: int| 0 <= i < l.len() && about(#[trigger] l[i], k); if i < a.len() { assert(about(a[i], k)); } else { assert(about(b[i - a.len()], k)); } }
    if named(a, k) { let i = choose|i: int| 0 <= i < a.len() && about(#[trigger] a[i], k); assert(about(l[i], k)); }
    if named(b, k) { let i = choose|i: int| 0 <= i < b.len() && about(#[trigger] b[i], k); assert(about(l[i + a.len()], k)); }
}
pub broadcast proof fn lm_granted1(a: Seq<Asked>, p: Protocol)
    requires a.len() <= 1
    ensures (#[trigger] granted(a, p)) <==> a.len() == 1 && agreed(a, 0, p)
{ if a.len() == 1 && agreed(a, 0, p) { assert(granted(a, p)); } }
pub broadcast proof fn lm_refused1(a: Seq<Asked>)
    requires a.len() <= 1
    ensures (#[trigger] refused(a)) <==> a.len() == 1 && !a[0].ok
{ }
pub broadcast proof fn lm_named1(a: Seq<Asked>, k: (u16, Protocol))
    requires a.len() <= 1
    ensures (#[trigger] named(a, k)) <==> a.len() == 1 && about(a[0], k)
{ }
pub broadcast group requests { lm_cat, lm_one, lm_none, lm_all, lm_granted, lm_refused, lm_named, lm_granted1, lm_refused1, lm_named1, lm_swept }
@fn port_forward::upnp::UpnpPortForwarder::default | port_forward::upnp::UpnpPortForwarder::new
    ensures held(r) == Map::<(u16, Protocol), UpnpConfig>::empty()
@fn port_forward::upnp::UpnpPortForwarder::build_config
    ensures r.port == $0, r.protocol == $1, r.duration as int == secs_of($2)
@fn port_forward::upnp::UpnpPortForwarder as PortForwarder::open
    requires tidy(held(*old(self)))
    ensures tidy(held(*final(self))), goes_on(*old(vx_w), *final(vx_w)), opened(held(*old(self)), held(*final(self)), log(*old(vx_w), *final(vx_w)), $0, $1, $2, r)
    decreases (if $1 is Both { 1int } else { 0int })
@mod port_forward::upnp
/// a close: only remembered mappings of this port and protocol are removed, and all of them unless the gateway refuses one
pub open spec fn closed(t0: Map<(u16, Protocol), UpnpConfig>, t1: Map<(u16, Protocol), UpnpConfig>, l: Seq<Asked>, port: u16, p: Protocol, r: Result<bool, Error>) -> bool {
    &&& forall|i: int| 0 <= i < l.len() ==> !(#[trigger] l[i]).add && (removes(l[i], t0, (port, Protocol::TCP)) && part(Protocol::TCP, p) || removes(l[i], t0, (port, Protocol::UDP)) && part(Protocol::UDP, p))
    &&& (r is Err <==> refused(l))
    &&& (r is Ok ==> r == Ok::<bool, Error>(true))
    &&& forall|k: (u16, Protocol)| r is Ok && k.0 == port && part(k.1, p) && #[trigger] t0.contains_key(k) ==> granted(l, k.1)
    &&& lost(t0, t1, l)
    &&& forall|k: (u16, Protocol)| #[trigger] t1.contains_key(k) ==> !(k.0 == port && granted(l, k.1))
}
pub open spec fn removes(a: Asked, t: Map<(u16, Protocol), UpnpConfig>, k: (u16, Protocol)) -> bool { t.contains_key(k) && a.what == t[k] }
/// nothing new is remembered, and what no removal was asked for stays as it was
pub open spec fn lost(t0: Map<(u16, Protocol), UpnpConfig>, t1: Map<(u16, Protocol), UpnpConfig>, l: Seq<Asked>) -> bool {
    &&& forall|k: (u16, Protocol)| #[trigger] t1.contains_key(k) ==> t0.contains_key(k) && t1[k] == t0[k]
    &&& forall|k: (u16, Protocol)| #[trigger] t0.contains_key(k) && !t1.contains_key(k) ==> named(l, k)
}
/// some request is about this port and protocol
pub open spec fn named(l: Seq<Asked>, k: (u16, Protocol)) -> bool { exists|i: int| 0 <= i < l.len() && about(#[trigger] l[i], k) }
pub open spec fn about(a: Asked, k: (u16, Protocol)) -> bool { a.what.port == k.0 && a.what.protocol == up(k.1) }
/// discarding: every remembered mapping is asked to be removed once, whatever the gateway answers to the others
pub open spec fn discarded(t0: Map<(u16, Protocol), UpnpConfig>, t1: Map<(u16, Protocol), UpnpConfig>, l: Seq<Asked>, r: Result<bool, Error>) -> bool {
    &&& swept(t0, t1, l)
    &&& (r is Err <==> refused(l))
    &&& (r is Ok ==> r == Ok::<bool, Error>(true))
}
pub open spec fn swept(t0: Map<(u16, Protocol), UpnpConfig>, t1: Map<(u16, Protocol), UpnpConfig>, l: Seq<Asked>) -> bool {
    &&& forall|i: int| 0 <= i < l.len() ==> !(#[trigger] l[i]).add && t0.contains_key(key_of(l[i])) && l[i].what == t0[key_of(l[i])]
    &&& forall|i: int, j: int| 0 <= i < l.len() && 0 <= j < l.len() && i != j ==> key_of(#[trigger] l[i]) != key_of(#[trigger] l[j])
    &&& forall|k: (u16, Protocol)| #[trigger] t0.contains_key(k) ==> named(l, k)
    &&& lost(t0, t1, l)
    &&& forall|i: int| 0 <= i < l.len() && (#[trigger] l[i]).ok ==> !t1.contains_key(key_of(l[i]))
}
pub broadcast proof fn lm_swept(s: Seq<((u16, Protocol), UpnpConfig)>, t0: Map<(u16, Protocol), UpnpConfig>, t1: Map<(u16, Protocol), UpnpConfig>, l: Seq<Asked>)
    requires tidy(t0), #[trigger] pairs_of(s, t0), t1 == Map::<(u16, Protocol), UpnpConfig>::empty(), l.len() == s.len(), forall|i: int| 0 <= i < l.len() ==> !(#[trigger] l[i]).add && l[i].what == s[i].1
    ensures #[trigger] swept(t0, t1, l)
{
    assert forall|i: int| 0 <= i < l.len() implies key_of(#[trigger] l[i]) == s[i].0 by { assert(t0.contains_key(s[i].0)); }
    assert forall|k: (u16, Protocol)| #[trigger] t0.contains_key(k) implies named(l, k) by { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k; assert(about(l[i], k)); }
    assert forall|i: int, j: int| 0 <= i < l.len() && 0 <= j < l.len() && i != j implies key_of(#[trigger] l[i]) != key_of(#[trigger] l[j]) by { assert(s[i].0 != s[j].0); }
}
/// what a request is remembered under
pub open spec fn key_of(a: Asked) -> (u16, Protocol) { (a.what.port, if a.what.protocol is UDP { Protocol::UDP } else { Protocol::TCP }) }
@fn port_forward::upnp::UpnpPortForwarder as PortForwarder::close
    requires tidy(held(*old(self)))
    ensures tidy(held(*final(self))), goes_on(*old(vx_w), *final(vx_w)), closed(held(*old(self)), held(*final(self)), log(*old(vx_w), *final(vx_w)), $0, $1, r)
    decreases (if $1 is Both { 1int } else { 0int })
@fn port_forward::upnp::UpnpPortForwarder as PortForwarder::discard
    requires tidy(held(*old(self)))
    ensures tidy(held(*final(self))), goes_on(*old(vx_w), *final(vx_w)), discarded(held(*old(self)), held(*final(self)), log(*old(vx_w), *final(vx_w)), r)
@loop port_forward::upnp::UpnpPortForwarder as PortForwarder::discard | 0
    invariant 0 <= vx_it0.pos() <= vx_it0.seq().len(), pairs_of(vx_it0.seq(), held(*old(self))), vx_out0@.len() == vx_it0.pos(), forall|i: int| 0 <= i < vx_out0@.len() ==> #[trigger] vx_out0@[i] == vx_it0.seq()[i].1
    ensures vx_out0@.len() == vx_it0.seq().len()
    decreases vx_it0.seq().len() - vx_it0.pos()
@loop port_forward::upnp::UpnpPortForwarder as PortForwarder::discard | 1
    invariant 0 <= vx_it1.pos() <= vx_it1.seq().len(), vx_it1.seq().len() == log(*old(vx_w), *vx_w).len(),
        tidy(held(*self)), goes_on(*old(vx_w), *vx_w), swept(held(*old(self)), held(*self), log(*old(vx_w), *vx_w)),
        forall|i: int| #![trigger vx_it1.seq()[i]] #![trigger log(*old(vx_w), *vx_w)[i]] 0 <= i < vx_it1.seq().len() ==> (vx_it1.seq()[i] is Ok) == log(*old(vx_w), *vx_w)[i].ok,
        forall|i: int| 0 <= i < vx_it1.pos() ==> (#[trigger] vx_it1.seq()[i]) is Ok
    ensures !refused(log(*old(vx_w), *vx_w))
    decreases vx_it1.seq().len() - vx_it1.pos()
@begin port_forward::upnp::UpnpPortForwarder as PortForwarder::open
    broadcast use requests;
@begin port_forward::upnp::UpnpPortForwarder as PortForwarder::close
    broadcast use requests;
@begin port_forward::upnp::UpnpPortForwarder as PortForwarder::discard
    broadcast use lm_all;
    broadcast use lm_swept;
