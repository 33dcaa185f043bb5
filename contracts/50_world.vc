# ---------------------------------------------------------------- what the code does to the world outside it
# Every call of a router, an inbox or an HTTP client is an entry in a history: what was asked and what came back.
@mod drivers
use crate::crypto::asymmetric::PublicKey;
use crate::rest_api::types::client::Client;
use crate::rest_api::types::server::Server;
use crate::rest_api::types::sender::Sender;
use crate::rest_api::types::message::Message;
use crate::rest_api::types::message_info::MessageInfo;
use crate::rest_api::types::client_type::ClientType;
/// calls that change a routing table or an inbox; the last part is what was answered, nothing for an error
pub enum Act {
    Local(Client, Option<bool>),
    Remote(Client, Server, Option<bool>),
    Server(Server, Option<bool>),
    Disconnect(PublicKey, bool),
    Add(Sender, PublicKey, Seq<char>, Message, bool),
    Poll(PublicKey, Seq<char>, Option<u64>, Option<(Seq<MessageInfo>, u64)>),
}
/// calls that only read a routing table
pub enum Ask {
    Locals(Option<Seq<Client>>),
    Remotes(Option<Seq<(Client, Server)>>),
    Servers(Option<Seq<Server>>),
    Local(PublicKey, Option<ClientType>, Option<Option<(Client, bool)>>),
    Remote(PublicKey, Option<ClientType>, Option<Option<(Client, Server, bool)>>),
    Hint(PublicKey, Option<ClientType>, Option<Seq<Server>>),
    Server(PublicKey, Option<Option<(Server, bool)>>),
}
pub uninterp spec fn acts(w: World) -> Seq<Act>;
pub uninterp spec fn asks(w: World) -> Seq<Ask>;
pub open spec fn okv<T, E>(r: Result<T, E>) -> Option<T> { match r { Ok(x) => Some(x), Err(_) => None } }
pub open spec fn okl<T, E>(r: Result<Vec<T>, E>) -> Option<Seq<T>> { match r { Ok(x) => Some(x@), Err(_) => None } }
pub open spec fn polled<E>(r: Result<(Vec<MessageInfo>, u64), E>) -> Option<(Seq<MessageInfo>, u64)> { match r { Ok(x) => Some((x.0@, x.1)), Err(_) => None } }
/// one more change and nothing else
pub open spec fn did(w0: World, w1: World, a: Act) -> bool { acts(w1) == acts(w0).push(a) && asks(w1) == asks(w0) && crate::http::client::sent(w1) == crate::http::client::sent(w0) }
/// one more question and nothing else
pub open spec fn asked(w0: World, w1: World, a: Ask) -> bool { asks(w1) == asks(w0).push(a) && acts(w1) == acts(w0) && crate::http::client::sent(w1) == crate::http::client::sent(w0) }

@effect drivers::server::router::Router::index_local_client
@effect drivers::server::router::Router::index_remote_client
@effect drivers::server::router::Router::index_server
@effect drivers::server::router::Router::disconnect
@effect drivers::server::router::Router::local_clients
@effect drivers::server::router::Router::remote_clients
@effect drivers::server::router::Router::servers
@effect drivers::server::router::Router::lookup_local_client
@effect drivers::server::router::Router::lookup_remote_client
@effect drivers::server::router::Router::lookup_remote_client_hint
@effect drivers::server::router::Router::lookup_server
@effect drivers::server::messages_inbox::MessagesInbox::add_message
@effect drivers::server::messages_inbox::MessagesInbox::poll_messages
@inherent drivers::server::router::Router
@inherent drivers::server::messages_inbox::MessagesInbox
@inherent drivers::server::traversal::Traversal
@mod drivers::server::router
use crate::drivers::*;
/// the first record of a list that is wanted
pub open spec fn is_first<T>(s: Seq<T>, f: spec_fn(T) -> bool, i: int) -> bool { 0 <= i < s.len() && f(s[i]) && forall|j: int| 0 <= j < i ==> !f(#[trigger] s[j]) }
pub open spec fn none_in<T>(s: Seq<T>, f: spec_fn(T) -> bool) -> bool { forall|j: int| 0 <= j < s.len() ==> !f(#[trigger] s[j]) }
pub open spec fn typed(c: Client, t: Option<ClientType>) -> bool { t is None || t == Some(c.info.client_type) }
pub open spec fn wants_local(k: PublicKey, t: Option<ClientType>) -> spec_fn(Client) -> bool { |c: Client| c.public_key == k && typed(c, t) }
pub open spec fn wants_remote(k: PublicKey, t: Option<ClientType>) -> spec_fn((Client, Server)) -> bool { |c: (Client, Server)| c.0.public_key == k && typed(c.0, t) }
pub open spec fn wants_server(k: PublicKey) -> spec_fn(Server) -> bool { |c: Server| c.public_key == k }
pub open spec fn servers_of(s: Seq<(Client, Server)>) -> Seq<Server> { s.map_values(|x: (Client, Server)| x.1) }
pub open spec fn found<T>(r: Option<T>, s: Seq<T>, f: spec_fn(T) -> bool) -> bool { match r { Some(x) => exists|i: int| #[trigger] is_first(s, f, i) && x == s[i], None => none_in(s, f) } }

@fn drivers::server::router::Router::index_local_client
    ensures did(*old(vx_w), *final(vx_w), Act::Local($0, okv(r)))
@fn drivers::server::router::Router::index_remote_client
    ensures did(*old(vx_w), *final(vx_w), Act::Remote($0, $1, okv(r)))
@fn drivers::server::router::Router::index_server
    ensures did(*old(vx_w), *final(vx_w), Act::Server($0, okv(r)))
@fn drivers::server::router::Router::disconnect
    ensures did(*old(vx_w), *final(vx_w), Act::Disconnect(*$0, r is Ok))
@fn drivers::server::router::Router::local_clients
    ensures asked(*old(vx_w), *final(vx_w), Ask::Locals(okl(r)))
@fn drivers::server::router::Router::remote_clients
    ensures asked(*old(vx_w), *final(vx_w), Ask::Remotes(okl(r)))
@fn drivers::server::router::Router::servers
    ensures asked(*old(vx_w), *final(vx_w), Ask::Servers(okl(r)))
@fn drivers::server::router::Router::lookup_local_client
    ensures asked(*old(vx_w), *final(vx_w), Ask::Local(*$0, $1, okv(r)))
@fn drivers::server::router::Router::lookup_remote_client
    ensures asked(*old(vx_w), *final(vx_w), Ask::Remote(*$0, $1, okv(r)))
@fn drivers::server::router::Router::lookup_remote_client_hint
    ensures asked(*old(vx_w), *final(vx_w), Ask::Hint(*$0, $1, okl(r)))
@fn drivers::server::router::Router::lookup_server
    ensures asked(*old(vx_w), *final(vx_w), Ask::Server(*$0, okv(r)))
@fn drivers::server::messages_inbox::MessagesInbox::add_message
    ensures crate::drivers::did(*old(vx_w), *final(vx_w), crate::drivers::Act::Add($0, $1, $2@, $3, r is Ok))
@fn drivers::server::messages_inbox::MessagesInbox::poll_messages
    ensures crate::drivers::did(*old(vx_w), *final(vx_w), crate::drivers::Act::Poll($0, $1@, $2, crate::drivers::polled(r)))

# ---------------------------------------------------------------- what a router provides of its own
@fn drivers::server::router::Router::index_remote_client#default
    ensures did(*old(vx_w), *final(vx_w), Act::Local($0, okv(r)))
@fn drivers::server::router::Router::servers#default
    ensures exists|l: Option<Seq<(Client, Server)>>| #[trigger] asked(*old(vx_w), *final(vx_w), Ask::Remotes(l)) && match l { Some(s) => (r matches Ok(v) && v@ =~= servers_of(s)), None => r is Err }
@fn drivers::server::router::Router::lookup_local_client#default
    ensures exists|l: Option<Seq<Client>>| #[trigger] asked(*old(vx_w), *final(vx_w), Ask::Locals(l)) && match l {
        Some(s) => match r { Ok(Some(x)) => x.1 && found(Some(x.0), s, wants_local(*$0, $1)), Ok(None) => found(None, s, wants_local(*$0, $1)), Err(_) => false },
        None => r is Err }
@fn drivers::server::router::Router::lookup_remote_client#default
    ensures exists|l: Option<Seq<(Client, Server)>>| #[trigger] asked(*old(vx_w), *final(vx_w), Ask::Remotes(l)) && match l {
        Some(s) => match r { Ok(Some(x)) => x.2 && found(Some((x.0, x.1)), s, wants_remote(*$0, $1)), Ok(None) => found(None, s, wants_remote(*$0, $1)), Err(_) => false },
        None => r is Err }
@fn drivers::server::router::Router::lookup_remote_client_hint#default
    ensures asked(*old(vx_w), *final(vx_w), Ask::Servers(okl(r)))
@fn drivers::server::router::Router::lookup_server#default
    ensures exists|l: Option<Seq<Server>>| #[trigger] asked(*old(vx_w), *final(vx_w), Ask::Servers(l)) && match l {
        Some(s) => match r { Ok(Some(x)) => x.1 && found(Some(x.0), s, wants_server(*$0)), Ok(None) => found(None, s, wants_server(*$0)), Err(_) => false },
        None => r is Err }

# ---------------------------------------------------------------- HTTP requests
@mod http::client
use crate::rest_api::AsJson;
/// one request and what came back: nothing for a failed transport
pub struct Sent { pub url: Seq<char>, pub body: Option<JV>, pub got: Option<Response> }
pub uninterp spec fn sent(w: World) -> Seq<Sent>;
pub open spec fn same_but_sent(w0: World, w1: World) -> bool { crate::drivers::acts(w1) == crate::drivers::acts(w0) && crate::drivers::asks(w1) == crate::drivers::asks(w0) }
/// one more request and nothing else
pub open spec fn sends(w0: World, w1: World, s: Sent) -> bool { sent(w1) == sent(w0).push(s) && same_but_sent(w0, w1) }
/// what a typed request makes of the answer
pub open spec fn answer<T: AsJson>(got: Option<Response>, r: Option<T>) -> bool {
    match got {
        Some(a) => match a.body {
            Some(j) => (forall|x: T| x.wf() && j@ == #[trigger] x.enc() ==> r == Some(x)) && (r matches Some(x) ==> T::reads(j@, x)),
            None => r is None,
        },
        None => r is None,
    }
}
/// a document was fetched from this place and understood as p
pub open spec fn fetched<P: AsJson>(w0: World, w1: World, url: Seq<char>, p: Option<P>) -> bool { exists|g: Option<Response>| #[trigger] sends(w0, w1, Sent { url, body: None, got: g }) && answer(g, p) }
/// a document was sent to this place, and the answer understood as p
pub open spec fn posted<P: AsJson>(w0: World, w1: World, url: Seq<char>, q: JV, p: Option<P>) -> bool { exists|g: Option<Response>| #[trigger] sends(w0, w1, Sent { url, body: Some(q), got: g }) && answer(g, p) }
@effect http::client::HttpClient::get
@effect http::client::HttpClient::post
@inherent http::client::HttpClient
@fn http::client::HttpClient::get
    ensures sends(*old(vx_w), *final(vx_w), Sent { url: $0.sv(), body: None, got: crate::drivers::okv(r) })
@fn http::client::HttpClient::post
    ensures sends(*old(vx_w), *final(vx_w), Sent { url: $0.sv(), body: Some($1@), got: crate::drivers::okv(r) })
@fn http::client::HttpClient::get_request
    ensures fetched(*old(vx_w), *final(vx_w), $0.sv(), crate::drivers::okv(r))
@fn http::client::HttpClient::post_request
    ensures
        $1.wf() ==> posted(*old(vx_w), *final(vx_w), $0.sv(), $1.enc(), crate::drivers::okv(r)),
        (*final(vx_w) == *old(vx_w) && r is Err) || posted(*old(vx_w), *final(vx_w), $0.sv(), sent(*final(vx_w)).last().body->Some_0, crate::drivers::okv(r)),
@mod drivers::server::router
pub open spec fn it_at<T>(it: VxIter<&T>, s: Seq<T>, n: int) -> bool { it.pos() == n && 0 <= n <= s.len() && it.seq().len() == s.len() && forall|i: int| 0 <= i < s.len() ==> *(#[trigger] it.seq()[i]) == s[i] }
pub open spec fn sees_locals(w0: World, w1: World, s: Seq<Client>) -> bool { asked(w0, w1, Ask::Locals(Some(s))) }
/// no wanted record among the first n
pub open spec fn none_before<T>(s: Seq<T>, f: spec_fn(T) -> bool, n: int) -> bool { forall|j: int| 0 <= j < n ==> !f(#[trigger] s[j]) }
@loop drivers::server::router::Router::servers | 0
    invariant asks(*vx_w).last() matches Ask::Remotes(Some(s)) && asked(*old(vx_w), *vx_w, Ask::Remotes(Some(s))) && it_at(vx_it0, s, vx_it0.pos()) && vx_out0@ == servers_of(s).subrange(0, vx_it0.pos()),
    ensures asks(*vx_w).last() matches Ask::Remotes(Some(s)) && asked(*old(vx_w), *vx_w, Ask::Remotes(Some(s))) && vx_out0@ =~= servers_of(s),
    decreases vx_it0.seq().len() - vx_it0.pos()
@loop drivers::server::router::Router::lookup_local_client | 0
    invariant_except_break vx_out0 is None,
        asks(*vx_w).last() matches Ask::Locals(Some(s)) && asked(*old(vx_w), *vx_w, Ask::Locals(Some(s))) && it_at(vx_it0, s, vx_it0.pos()) && none_before(s, wants_local(*$0, $1), vx_it0.pos()),
    ensures asks(*vx_w).last() matches Ask::Locals(Some(s)) && asked(*old(vx_w), *vx_w, Ask::Locals(Some(s))) && found(match vx_out0 { Some(x) => Some(*x), None => None }, s, wants_local(*$0, $1)),
    decreases vx_it0.seq().len() - vx_it0.pos()
@loop drivers::server::router::Router::lookup_remote_client | 0
    invariant_except_break vx_out0 is None,
        asks(*vx_w).last() matches Ask::Remotes(Some(s)) && asked(*old(vx_w), *vx_w, Ask::Remotes(Some(s))) && it_at(vx_it0, s, vx_it0.pos()) && none_before(s, wants_remote(*$0, $1), vx_it0.pos()),
    ensures asks(*vx_w).last() matches Ask::Remotes(Some(s)) && asked(*old(vx_w), *vx_w, Ask::Remotes(Some(s))) && found(match vx_out0 { Some(x) => Some(*x), None => None }, s, wants_remote(*$0, $1)),
    decreases vx_it0.seq().len() - vx_it0.pos()
@loop drivers::server::router::Router::lookup_server | 0
    invariant_except_break vx_out0 is None,
        asks(*vx_w).last() matches Ask::Servers(Some(s)) && asked(*old(vx_w), *vx_w, Ask::Servers(Some(s))) && it_at(vx_it0, s, vx_it0.pos()) && none_before(s, wants_server(*$0), vx_it0.pos()),
    ensures asks(*vx_w).last() matches Ask::Servers(Some(s)) && asked(*old(vx_w), *vx_w, Ask::Servers(Some(s))) && found(match vx_out0 { Some(x) => Some(*x), None => None }, s, wants_server(*$0)),
    decreases vx_it0.seq().len() - vx_it0.pos()
@loopbegin drivers::server::router::Router::lookup_local_client | 0
    let ghost vx_g0 = is_first(asks(*vx_w).last()->Locals_0->Some_0, wants_local(*$0, $1), vx_it0.pos() - 1);
@loopbegin drivers::server::router::Router::lookup_remote_client | 0
    let ghost vx_g0 = is_first(asks(*vx_w).last()->Remotes_0->Some_0, wants_remote(*$0, $1), vx_it0.pos() - 1);
@loopbegin drivers::server::router::Router::lookup_server | 0
    let ghost vx_g0 = is_first(asks(*vx_w).last()->Servers_0->Some_0, wants_server(*$0), vx_it0.pos() - 1);
