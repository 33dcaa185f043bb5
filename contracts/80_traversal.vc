# ---------------------------------------------------------------- walking the network
@effect drivers::server::traversal::Traversal::traverse
@mod drivers::server::traversal::bfs_recursion
use crate::drivers::{acts, asks, asked, did, Act, Ask};
use crate::http::client::{sent, Sent, answer, fetched};
use crate::rest_api::types::server::Server;
use crate::rest_api::requests::servers::response::ServersResponse;
use crate::rest_api::middleware::client::{is_url, since};
pub open spec fn listed(p: Option<ServersResponse>) -> Seq<Server> { match p { Some(a) => a.servers@, None => Seq::empty() } }
/// all the servers there are, if they are finitely many
pub uninterp spec fn net() -> Set<Server>;
pub open spec fn finite_network() -> bool {
    &&& forall|w0: World, w1: World, l: Option<Seq<Server>>| #[trigger] asked(w0, w1, Ask::Servers(l)) && l is Some ==> inside(l->Some_0)
    &&& forall|w0: World, w1: World, u: Seq<char>, p: Option<ServersResponse>| #[trigger] fetched(w0, w1, u, p) ==> inside(listed(p))
}
pub open spec fn inside(s: Seq<Server>) -> bool { forall|i: int| 0 <= i < s.len() ==> net().contains(#[trigger] s[i]) }
/// a walk from these servers, some of them done with: what it asks the network and what it tells the router
pub open spec fn walk(queue: Seq<Server>, used: Set<Server>, log: Seq<Sent>, done: Seq<Act>) -> bool
    decreases log.len(), queue.len()
{
    if queue.len() == 0 { log.len() == 0 && done.len() == 0 }
    else if used.contains(queue[0]) { walk(queue.subrange(1, queue.len() as int), used, log, done) }
    else {
        log.len() > 0 && done.len() > 0 && is_url(log[0].url, queue[0].address@, "/api/v1/servers"@) && log[0].body is None
            && (exists|ok: Option<bool>| done[0] == Act::Server(queue[0], ok))
            && exists|p: Option<ServersResponse>| #[trigger] answer(log[0].got, p) && walk(queue.subrange(1, queue.len() as int) + listed(p), used.insert(queue[0]), log.drop_first(), done.drop_first())
    }
}
pub open spec fn tells(done: Seq<Act>, s: Server) -> bool { exists|i: int| 0 <= i < done.len() && is_about(#[trigger] done[i], s) }
pub open spec fn is_about(a: Act, s: Server) -> bool { a matches Act::Server(x, _) && x == s }
/// whatever this answer lists is done with, or told
pub open spec fn told_of(used: Set<Server>, done: Seq<Act>, e: Sent) -> bool { exists|p: Option<ServersResponse>| #[trigger] answer(e.got, p) && forall|k: int| 0 <= k < listed(p).len() ==> used.contains(#[trigger] listed(p)[k]) || tells(done, listed(p)[k]) }
/// every server known or listed by a server that answered is told to the router, once; each is asked once
pub proof fn lem_walk(queue: Seq<Server>, used: Set<Server>, log: Seq<Sent>, done: Seq<Act>)
    requires walk(queue, used, log, done)
    ensures
        log.len() == done.len(),
        forall|i: int| 0 <= i < done.len() ==> (#[trigger] done[i] is Server) && !used.contains(done[i]->Server_0) && is_url(log[i].url, done[i]->Server_0.address@, "/api/v1/servers"@),
        forall|i: int, j: int| 0 <= i < j < done.len() ==> #[trigger] done[i]->Server_0 != #[trigger] done[j]->Server_0,
        forall|i: int| 0 <= i < queue.len() ==> used.contains(#[trigger] queue[i]) || tells(done, queue[i]),
        forall|i: int| 0 <= i < log.len() ==> told_of(used, done, #[trigger] log[i]),
    decreases log.len(), queue.len()
{
    if queue.len() > 0 {
        let rest = queue.subrange(1, queue.len() as int);
        if used.contains(queue[0]) {
            lem_walk(rest, used, log, done);
            assert forall|i: int| 0 <= i < queue.len() implies used.contains(#[trigger] queue[i]) || tells(done, queue[i]) by { if i > 0 { assert(rest[i - 1] == queue[i]); } }
        } else {
            let on = used.insert(queue[0]); let l = log.drop_first(); let d = done.drop_first();
            let p = choose|p: Option<ServersResponse>| #[trigger] answer(log[0].got, p) && walk(rest + listed(p), on, l, d);
            lem_walk(rest + listed(p), on, l, d);
            let ok = choose|ok: Option<bool>| done[0] == Act::Server(queue[0], ok);
            assert(is_about(done[0], queue[0]));
            assert forall|s: Server| #[trigger] tells(d, s) implies tells(done, s) by { let i = choose|i: int| 0 <= i < d.len() && is_about(#[trigger] d[i], s); assert(done[i + 1] == d[i]); assert(is_about(done[i + 1], s)); }
            assert(tells(done, queue[0]));
            assert forall|i: int| 0 <= i < done.len() implies (#[trigger] done[i] is Server) && !used.contains(done[i]->Server_0) && is_url(log[i].url, done[i]->Server_0.address@, "/api/v1/servers"@) by { if i > 0 { assert(d[i - 1] == done[i]); assert(l[i - 1] == log[i]); } }
            assert forall|i: int, j: int| 0 <= i < j < done.len() implies #[trigger] done[i]->Server_0 != #[trigger] done[j]->Server_0 by { assert(d[j - 1] == done[j]); if i > 0 { assert(d[i - 1] == done[i]); } else { assert(on.contains(queue[0])); } }
            let next = rest + listed(p);
            assert forall|i: int| 0 <= i < queue.len() implies used.contains(#[trigger] queue[i]) || tells(done, queue[i]) by { if i > 0 { assert(next[i - 1] == queue[i]); } }
            assert forall|i: int| 0 <= i < log.len() implies told_of(used, done, #[trigger] log[i]) by {
                if i == 0 {
                    assert forall|k: int| 0 <= k < listed(p).len() implies used.contains(#[trigger] listed(p)[k]) || tells(done, listed(p)[k]) by { assert(next[rest.len() + k] == listed(p)[k]); }
                    assert(answer(log[0].got, p));
                } else {
                    assert(l[i - 1] == log[i]);
                    let p2 = choose|p2: Option<ServersResponse>| #[trigger] answer(l[i - 1].got, p2) && forall|k: int| 0 <= k < listed(p2).len() ==> on.contains(#[trigger] listed(p2)[k]) || tells(d, listed(p2)[k]);
                    assert(answer(log[i].got, p2));
                    assert forall|k: int| 0 <= k < listed(p2).len() implies used.contains(#[trigger] listed(p2)[k]) || tells(done, listed(p2)[k]) by { }
                }
            }
        }
    }
}
pub open spec fn acts_since(w0: World, w1: World) -> Seq<Act> { acts(w1).subrange(acts(w0).len() as int, acts(w1).len() as int) }
pub open spec fn goes_on(w0: World, w1: World) -> bool {
    asks(w1) == asks(w0) && sent(w0).len() <= sent(w1).len() && sent(w1).subrange(0, sent(w0).len() as int) == sent(w0)
        && acts(w0).len() <= acts(w1).len() && acts(w1).subrange(0, acts(w0).len() as int) == acts(w0)
}
pub open spec fn traversed(w0: World, w1: World) -> bool {
    exists|w: World, l: Option<Seq<Server>>| #[trigger] asked(w0, w, Ask::Servers(l)) && match l {
        None => w1 == w,
        Some(s) => goes_on(w, w1) && walk(s, Set::empty(), since(w, w1), acts_since(w, w1)),
    }
}
/// the walk so far: whatever it goes on to do from here is a walk from the start
pub open spec fn led(start: Seq<Server>, done: Seq<Sent>, told: Seq<Act>, queue: Seq<Server>, used: Set<Server>) -> bool {
    forall|rest: Seq<Sent>, more: Seq<Act>| walk(queue, used, rest, more) ==> #[trigger] walk(start, Set::empty(), done + rest, told + more)
}
pub proof fn lem_step(start: Seq<Server>, done: Seq<Sent>, told: Seq<Act>, queue: Seq<Server>, used: Set<Server>, e: Sent, a: Act, p: Option<ServersResponse>)
    requires led(start, done, told, queue, used), queue.len() > 0, !used.contains(queue[0]), is_url(e.url, queue[0].address@, "/api/v1/servers"@), e.body is None, answer(e.got, p), is_about(a, queue[0])
    ensures led(start, done.push(e), told.push(a), queue.subrange(1, queue.len() as int) + listed(p), used.insert(queue[0]))
{
    let next = queue.subrange(1, queue.len() as int) + listed(p); let on = used.insert(queue[0]);
    assert forall|rest: Seq<Sent>, more: Seq<Act>| walk(next, on, rest, more) implies #[trigger] walk(start, Set::empty(), done.push(e) + rest, told.push(a) + more) by {
        let l = seq![e] + rest; let d = seq![a] + more;
        assert(l.drop_first() =~= rest); assert(d.drop_first() =~= more); assert(l[0] == e); assert(d[0] == a); assert(answer(l[0].got, p));
        assert(d[0] == Act::Server(queue[0], a->Server_1));
        assert(walk(queue, used, l, d));
        assert(done + l =~= done.push(e) + rest); assert(told + d =~= told.push(a) + more);
    }
}
/// the same, between two moments of the world
pub open spec fn going(w0: World, w1: World, queue: Seq<Server>, used: Set<Server>) -> bool {
    exists|w: World, l: Seq<Server>| #[trigger] asked(w0, w, Ask::Servers(Some(l))) && goes_on(w, w1) && led(l, since(w, w1), acts_since(w, w1), queue, used)
}
/// this server has been asked, and is still to be told to the router
pub open spec fn partway(w0: World, w1: World, s: Server, queue: Seq<Server>, used: Set<Server>) -> bool {
    forall|w2: World, ok: Option<bool>| #[trigger] did(w1, w2, Act::Server(s, ok)) ==> going(w0, w2, queue, used)
}
pub broadcast proof fn lem_start(w0: World, w: World, l: Seq<Server>, used: Set<Server>)
    requires asked(w0, w, Ask::Servers(Some(l))), used =~= Set::<Server>::empty()
    ensures #[trigger] going(w0, w, l, used)
{
    let done = since(w, w); let told = acts_since(w, w);
    assert(done =~= Seq::<Sent>::empty()); assert(told =~= Seq::<Act>::empty()); assert(sent(w).subrange(0, sent(w).len() as int) =~= sent(w)); assert(acts(w).subrange(0, acts(w).len() as int) =~= acts(w));
    assert forall|rest: Seq<Sent>, more: Seq<Act>| walk(l, used, rest, more) implies #[trigger] walk(l, Set::empty(), done + rest, told + more) by { assert(done + rest =~= rest); assert(told + more =~= more); }
    assert(led(l, done, told, l, used));
}
pub broadcast proof fn lem_skip(w0: World, w1: World, queue: Seq<Server>, used: Set<Server>)
    requires #[trigger] going(w0, w1, queue, used), queue.len() > 0, used.contains(queue[0])
    ensures going(w0, w1, queue.subrange(1, queue.len() as int), used)
{
    let (w, l) = choose|w: World, l: Seq<Server>| #[trigger] asked(w0, w, Ask::Servers(Some(l))) && goes_on(w, w1) && led(l, since(w, w1), acts_since(w, w1), queue, used);
    let done = since(w, w1); let told = acts_since(w, w1); let next = queue.subrange(1, queue.len() as int);
    assert forall|rest: Seq<Sent>, more: Seq<Act>| walk(next, used, rest, more) implies #[trigger] walk(l, Set::empty(), done + rest, told + more) by { assert(walk(queue, used, rest, more)); }
    assert(led(l, done, told, next, used)); assert(asked(w0, w, Ask::Servers(Some(l))));
}
pub broadcast proof fn lem_end(w0: World, w1: World, queue: Seq<Server>, used: Set<Server>)
    requires #[trigger] going(w0, w1, queue, used), queue.len() == 0
    ensures traversed(w0, w1)
{
    let (w, l) = choose|w: World, l: Seq<Server>| #[trigger] asked(w0, w, Ask::Servers(Some(l))) && goes_on(w, w1) && led(l, since(w, w1), acts_since(w, w1), queue, used);
    let done = since(w, w1); let told = acts_since(w, w1);
    let a = Seq::<Sent>::empty(); let b = Seq::<Act>::empty(); assert(walk(queue, used, a, b)); assert(done + a =~= done); assert(told + b =~= told);
    assert(asked(w0, w, Ask::Servers(Some(l))));
}
pub broadcast proof fn lem_asked(w0: World, w1: World, w2: World, queue: Seq<Server>, used: Set<Server>, u: Seq<char>, p: Option<ServersResponse>)
    requires #[trigger] going(w0, w1, queue, used), queue.len() > 0, !used.contains(queue[0]), #[trigger] fetched(w1, w2, u, p), is_url(u, queue[0].address@, "/api/v1/servers"@)
    ensures partway(w0, w2, queue[0], queue.subrange(1, queue.len() as int) + listed(p), used.insert(queue[0]))
{
    let (w, l) = choose|w: World, l: Seq<Server>| #[trigger] asked(w0, w, Ask::Servers(Some(l))) && goes_on(w, w1) && led(l, since(w, w1), acts_since(w, w1), queue, used);
    let g = choose|g: Option<crate::http::client::Response>| #[trigger] crate::http::client::sends(w1, w2, Sent { url: u, body: None, got: g }) && answer(g, p);
    let e = Sent { url: u, body: None, got: g };
    let next = queue.subrange(1, queue.len() as int) + listed(p); let on = used.insert(queue[0]);
    assert forall|w3: World, ok: Option<bool>| #[trigger] did(w2, w3, Act::Server(queue[0], ok)) implies going(w0, w3, next, on) by {
        let a = Act::Server(queue[0], ok);
        lem_step(l, since(w, w1), acts_since(w, w1), queue, used, e, a, p);
        assert(since(w, w3) =~= since(w, w1).push(e)); assert(acts_since(w, w3) =~= acts_since(w, w1).push(a));
        assert(sent(w3).subrange(0, sent(w).len() as int) =~= sent(w)); assert(acts(w3).subrange(0, acts(w).len() as int) =~= acts(w));
        assert(asked(w0, w, Ask::Servers(Some(l)))); assert(goes_on(w, w3));
    }
}
pub broadcast proof fn lem_told(w0: World, w1: World, w2: World, s: Server, queue: Seq<Server>, used: Set<Server>, ok: Option<bool>)
    requires #[trigger] partway(w0, w1, s, queue, used), #[trigger] did(w1, w2, Act::Server(s, ok))
    ensures going(w0, w2, queue, used)
{ }
/// there is less of the network left
pub broadcast proof fn lem_left(used: Set<Server>, s: Server)
    requires net().contains(s), !used.contains(s)
    ensures #[trigger] net().difference(used.insert(s)).len() < net().difference(used).len()
{ assert(net().difference(used.insert(s)) =~= net().difference(used).remove(s)); }
pub broadcast group walk_lemmas { lem_start, lem_skip, lem_end, lem_asked, lem_told, lem_left, crate::rest_api::middleware::client::lem_all, crate::rest_api::middleware::client::lem_shift, crate::rest_api::middleware::client::lem_over, crate::rest_api::middleware::client::lem_again }
@fn drivers::server::traversal::bfs_recursion::BfsRecursionTraversal as Traversal::traverse
    requires finite_network()
    ensures traversed(*old(vx_w), *final(vx_w))
@begin drivers::server::traversal::bfs_recursion::BfsRecursionTraversal as Traversal::traverse
    broadcast use crate::drivers::server::traversal::bfs_recursion::walk_lemmas;
@loop drivers::server::traversal::bfs_recursion::BfsRecursionTraversal as Traversal::traverse | 0
    invariant finite_network(), inside(remote_servers.dq()), going(*old(vx_w), *vx_w, remote_servers.dq(), used_servers.sv())
    ensures traversed(*old(vx_w), *vx_w)
    decreases net().difference(used_servers.sv()).len(), remote_servers.dq().len()
@loop drivers::server::traversal::bfs_recursion::BfsRecursionTraversal as Traversal::traverse | 1
    invariant 0 <= vx_it1.pos() <= vx_it1.seq().len(), inside(vx_it1.seq()), inside(remote_servers.dq()),
        partway(*old(vx_w), *vx_w, remote_server, remote_servers.dq() + vx_it1.seq().subrange(vx_it1.pos(), vx_it1.seq().len() as int), used_servers.sv())
    ensures inside(remote_servers.dq()), partway(*old(vx_w), *vx_w, remote_server, remote_servers.dq(), used_servers.sv())
    decreases vx_it1.seq().len() - vx_it1.pos()
