# ---------------------------------------------------------------- the client's side of the protocol
@fn drivers::client::ClientDriver::new
    ensures r.info == $0, r.secret_key == $1
@fn drivers::client::ClientDriver::thin
    ensures r.info.client_type is Thin, r.info.address is None, r.secret_key == $0
@fn drivers::client::ClientDriver::random
    ensures r.info.client_type is Thin, r.info.address is None
@fn drivers::client::ClientDriver::info
    ensures *r == self.info
@fn drivers::client::ClientDriver::secret_key
    ensures *r == self.secret_key

@mod rest_api::middleware::client
use crate::crypto::asymmetric::{PublicKey, SecretKey, pub_key};
use crate::rest_api::prelude::*;
use crate::rest_api::request::{authentic, built};
use crate::rest_api::response::trusted;
use crate::rest_api::types::connection_certificate::binds;
use crate::rest_api::requests::connect::connect_valid;
use crate::rest_api::requests::announce::announce_valid;
use crate::rest_api::requests::info::response::info_valid;
use crate::http::client::{posted, fetched, sent, sends, answer, Sent, same_but_sent};
use crate::http::client::Response as HttpAnswer;
use crate::drivers::okv;
use crate::address::{addr_of, Address};
/// where an operation lives on a server
pub open spec fn at_server(host: Seq<char>, path: Seq<char>) -> Seq<char> { "http://"@ + host + path }
pub open spec fn is_url(u: Seq<char>, host: Seq<char>, path: Seq<char>) -> bool { u =~= "http://"@ + host + path }
pub open spec fn failed_with<R>(r: Result<R, Error>, st: ResponseStatus, why: String) -> bool { r matches Err(Error::RequestFailed { status, reason }) && status == st && reason == why }
/// an answer that only this server can give
pub open spec fn own_success<T>(p: Response<T>, seed: u64, server: PublicKey) -> bool { p is Success && trusted(p, seed) && p->Success_public_key == server }
/// how an operation on the server connected to ends
pub open spec fn ends_own<T, R>(p: Option<Response<T>>, seed: u64, server: PublicKey, r: Result<R, Error>) -> bool {
    match p {
        None => r is Err,
        Some(a) => match a { Response::Error { status, reason, .. } => failed_with(r, status, reason), Response::Success { .. } => r is Ok <==> own_success(a, seed, server) },
    }
}
/// how an operation on any server ends
pub open spec fn ends_any<T, R>(p: Option<Response<T>>, seed: u64, r: Result<R, Error>) -> bool {
    match p {
        None => r is Err,
        Some(a) => match a { Response::Error { status, reason, .. } => failed_with(r, status, reason), Response::Success { .. } => r is Ok <==> trusted(a, seed) },
    }
}
pub open spec fn no_change(w0: World, w1: World) -> bool { sent(w1) == sent(w0) && same_but_sent(w0, w1) }

@fn rest_api::middleware::client::Client::new
    ensures *r.http_client == $0, *r.driver == $1
@fn rest_api::middleware::client::Client::driver_ref | rest_api::middleware::client::ConnectedClient::driver_ref
    ensures *r == *self.driver
@fn rest_api::middleware::client::Client::driver | rest_api::middleware::client::ConnectedClient::driver
    ensures r == self.driver
@fn rest_api::middleware::client::Client::http_client_ref | rest_api::middleware::client::ConnectedClient::http_client_ref
    ensures *r == *self.http_client
@fn rest_api::middleware::client::Client::http_client | rest_api::middleware::client::ConnectedClient::http_client
    ensures r == self.http_client
@fn rest_api::middleware::client::ConnectedClient::connected_server
    ensures *r == self.connected_server
@fn rest_api::middleware::client::ConnectedClient::connection_certificate
    ensures *r == self.connection_certificate
@fn rest_api::middleware::client::ConnectedClient::get_client
    ensures r == (ClientApiRecord { public_key: pub_key(self.driver.secret_key), certificate: self.connection_certificate, info: self.driver.info })
@fn rest_api::middleware::client::ConnectedClient::disconnected
    ensures r.driver == self.driver, r.http_client == self.http_client

@fn rest_api::middleware::client::Client::get_info
    ensures exists|u: Seq<char>, p: Option<InfoResponse>| #[trigger] fetched(*old(vx_w), *final(vx_w), u, p) && is_url(u, $0.disp(), "/api/v1/info"@)
        && match p { Some(a) => if info_valid(a) { r == Ok::<InfoResponse, Error>(a) } else { r is Err }, None => r is Err }
@fn rest_api::middleware::client::Client::get_clients
    ensures exists|u: Seq<char>, p: Option<ClientsResponse>| #[trigger] fetched(*old(vx_w), *final(vx_w), u, p) && is_url(u, $0.disp(), "/api/v1/clients"@)
        && match p { Some(a) => r == Ok::<Vec<ClientApiRecord>, Error>(a.clients), None => r is Err }
@fn rest_api::middleware::client::Client::get_servers
    ensures exists|u: Seq<char>, p: Option<ServersResponse>| #[trigger] fetched(*old(vx_w), *final(vx_w), u, p) && is_url(u, $0.disp(), "/api/v1/servers"@)
        && match p { Some(a) => r == Ok::<Vec<ServerApiRecord>, Error>(a.servers), None => r is Err }
@mod rest_api::middleware::client
/// connecting to a server: the certificate that is sent is for this client and that server, and is the one remembered
pub open spec fn connects<T>(c: Client<T>, host: Seq<char>, server: PublicKey, w0: World, w1: World, r: Result<ConnectedClient<T>, Error>) -> bool {
    exists|u: Seq<char>, q: ConnectRequest, p: Option<ConnectResponse>| #[trigger] posted(w0, w1, u, q.enc(), p) && is_url(u, host, "/api/v1/connect"@)
        && built(q.0, c.driver.secret_key) && q.0.request.client == c.driver.info && connect_valid(q, server)
        && ends_own(match p { Some(a) => Some(a.0), None => None }, q.0.proof_seed, server, r)
        && (r matches Ok(k) ==> k.http_client == c.http_client && k.driver == c.driver && k.connected_server.public_key == server && k.connected_server.address@ == host && k.connection_certificate == q.0.request.certificate)
}
@fn rest_api::middleware::client::Client::connect_to
    ensures connects(*self, $0.disp(), $1, *old(vx_w), *final(vx_w), r)
@fn rest_api::middleware::client::Client::connect
    ensures exists|w: World, u: Seq<char>, p: Option<InfoResponse>| #[trigger] fetched(*old(vx_w), w, u, p) && is_url(u, $0.disp(), "/api/v1/info"@)
        && match p { Some(a) => if info_valid(a) { connects(*self, $0.disp(), a.public_key, w, *final(vx_w), r) } else { r is Err && w == *final(vx_w) }, None => r is Err && w == *final(vx_w) }
@fn rest_api::middleware::client::ConnectedClient::disconnect
    ensures exists|u: Seq<char>, q: DisconnectRequest, p: Option<DisconnectResponse>| #[trigger] posted(*old(vx_w), *final(vx_w), u, q.enc(), p) && is_url(u, self.connected_server.address@, "/api/v1/disconnect"@)
        && built(q.0, self.driver.secret_key) && ends_own(match p { Some(a) => Some(a.0), None => None }, q.0.proof_seed, self.connected_server.public_key, r)
        && (r matches Ok(k) ==> k.http_client == self.http_client && k.driver == self.driver)
@fn rest_api::middleware::client::ConnectedClient::poll
    ensures exists|u: Seq<char>, q: PollRequest, p: Option<PollResponse>| #[trigger] posted(*old(vx_w), *final(vx_w), u, q.enc(), p) && is_url(u, self.connected_server.address@, "/api/v1/poll"@)
        && built(q.0, self.driver.secret_key) && q.0.request.channel@ == $0.disp() && q.0.request.limit == $1
        && ends_own(match p { Some(a) => Some(a.0), None => None }, q.0.proof_seed, self.connected_server.public_key, r)
        && (r matches Ok(k) ==> k.0 == p->Some_0.0->Success_response.messages && k.1 == p->Some_0.0->Success_response.remaining)
@fn rest_api::middleware::client::ConnectedClient::announce
    ensures exists|w: World, a: Result<String, Error>| #[trigger] resolves(*self, $0.sv(), *old(vx_w), w, a) && match a {
        Ok(base) => exists|u: Seq<char>, q: AnnounceRequest, p: Option<AnnounceResponse>| #[trigger] posted(w, *final(vx_w), u, q.enc(), p) && u =~= base@ + "/api/v1/announce"@
            && built(q.0, self.driver.secret_key) && q.0.request == (AnnounceRequestBody::Client { client: ClientApiRecord { public_key: pub_key(self.driver.secret_key), certificate: self.connection_certificate, info: self.driver.info }, server: self.connected_server })
            && ends_any(match p { Some(a) => Some(a.0), None => None }, q.0.proof_seed, r),
        Err(_) => r is Err && w == *final(vx_w) }
@fn rest_api::middleware::client::ConnectedClient::send
    ensures exists|w: World, a: Result<String, Error>| #[trigger] resolves(*self, $0.sv(), *old(vx_w), w, a) && match a {
        Ok(base) => exists|u: Seq<char>, q: SendRequest, p: Option<SendResponse>| #[trigger] posted(w, *final(vx_w), u, q.enc(), p) && u =~= base@ + "/api/v1/send"@
            && built(q.0, self.driver.secret_key) && q.0.request.receiver_public == $1 && q.0.request.channel@ == $2.disp() && q.0.request.message == $3
            && q.0.request.sender.server == self.connected_server && q.0.request.sender.client.public_key == pub_key(self.driver.secret_key) && q.0.request.sender.client.certificate == self.connection_certificate
            && ends_any(match p { Some(a) => Some(a.0), None => None }, q.0.proof_seed, r),
        Err(_) => r is Err && w == *final(vx_w) }

# ---------------------------------------------------------------- searching for a client
@mod rest_api::middleware::client
pub type Found = Option<(ClientApiRecord, ServerApiRecord, bool)>;
pub open spec fn hinted(s: Seq<ServerApiRecord>) -> Seq<String> { s.map_values(|x: ServerApiRecord| x.address) }
/// a search over a queue of addresses, some of them used up, as it shows in the requests it makes
pub open spec fn crawl(queue: Seq<String>, used: Set<String>, log: Seq<Sent>, q: LookupRequest, r: Result<Found, Error>) -> bool
    decreases log.len(), queue.len()
{
    if queue.len() == 0 { log.len() == 0 && r == Ok::<Found, Error>(None) }
    else if used.contains(queue[0]) { crawl(queue.subrange(1, queue.len() as int), used, log, q, r) }
    else {
        let rest = queue.subrange(1, queue.len() as int); let on = used.insert(queue[0]); let later = log.drop_first();
        log.len() > 0 && is_url(log[0].url, queue[0]@, "/api/v1/lookup"@) && log[0].body == Some(q.enc()) && exists|p: Option<LookupResponse>| #[trigger] answer(log[0].got, p) && (match verdict(p, q.0.proof_seed, queue[0]) {
            Verdict::Found(x) => log.len() == 1 && r == Ok::<Found, Error>(Some(x)),
            Verdict::Hint(s) => crawl(rest + s, on, later, q, r),
            Verdict::Useless => (log.len() == 1 && r is Err) || crawl(rest, on, later, q, r),
            Verdict::Nothing => crawl(rest, on, later, q, r),
        })
    }
}
pub enum Verdict { Found((ClientApiRecord, ServerApiRecord, bool)), Hint(Seq<String>), Nothing, Useless }
/// what the answer of the server asked at this address is worth
pub open spec fn verdict(p: Option<LookupResponse>, seed: u64, address: String) -> Verdict {
    match p {
        None => Verdict::Useless,
        Some(a) => match a.0 {
            Response::Error { .. } => Verdict::Nothing,
            Response::Success { public_key, response, .. } => if !trusted(a.0, seed) { Verdict::Useless } else { match response {
                LookupResponseBody::Local { client, available } => Verdict::Found((client, ServerApiRecord { public_key, address }, available)),
                LookupResponseBody::Remote { client, server, available } => Verdict::Found((client, server, available)),
                LookupResponseBody::Hint { servers } => Verdict::Hint(hinted(servers@)),
            } },
        },
    }
}
pub open spec fn since(w0: World, w1: World) -> Seq<Sent> { sent(w1).subrange(sent(w0).len() as int, sent(w1).len() as int) }
pub open spec fn only_sent(w0: World, w1: World) -> bool { same_but_sent(w0, w1) && sent(w0).len() <= sent(w1).len() && sent(w1).subrange(0, sent(w0).len() as int) == sent(w0) }
/// a search for this client, from the server connected to
pub open spec fn looked<T>(c: ConnectedClient<T>, key: PublicKey, t: Option<ClientType>, w0: World, w1: World, r: Result<Found, Error>) -> bool {
    only_sent(w0, w1) && exists|q: LookupRequest| #[trigger] built(q.0, c.driver.secret_key) && q.0.request.public_key == key && q.0.request.client_type == t && crawl(seq![c.connected_server.address], Set::empty(), since(w0, w1), q, r)
}
/// the search so far: whatever it goes on to do from here is a search from the start
pub open spec fn led(start: Seq<String>, q: LookupRequest, done: Seq<Sent>, queue: Seq<String>, used: Set<String>) -> bool {
    forall|rest: Seq<Sent>, r: Result<Found, Error>| crawl(queue, used, rest, q, r) ==> #[trigger] crawl(start, Set::empty(), done + rest, q, r)
}
pub broadcast proof fn lem_skip(start: Seq<String>, q: LookupRequest, done: Seq<Sent>, queue: Seq<String>, used: Set<String>)
    requires #[trigger] led(start, q, done, queue, used), queue.len() > 0, used.contains(queue[0])
    ensures led(start, q, done, queue.subrange(1, queue.len() as int), used)
{
    let next = queue.subrange(1, queue.len() as int);
    assert forall|rest: Seq<Sent>, r: Result<Found, Error>| crawl(next, used, rest, q, r) implies #[trigger] crawl(start, Set::empty(), done + rest, q, r) by { assert(crawl(queue, used, rest, q, r)); }
}
pub proof fn lem_ask(start: Seq<String>, q: LookupRequest, done: Seq<Sent>, queue: Seq<String>, used: Set<String>, e: Sent, p: Option<LookupResponse>)
    requires led(start, q, done, queue, used), queue.len() > 0, !used.contains(queue[0]), is_url(e.url, queue[0]@, "/api/v1/lookup"@), e.body == Some(q.enc()), answer(e.got, p)
    ensures match verdict(p, q.0.proof_seed, queue[0]) {
        Verdict::Found(x) => crawl(start, Set::empty(), done.push(e), q, Ok(Some(x))),
        Verdict::Hint(s) => led(start, q, done.push(e), queue.subrange(1, queue.len() as int) + s, used.insert(queue[0])),
        Verdict::Useless => led(start, q, done.push(e), queue.subrange(1, queue.len() as int), used.insert(queue[0])) && forall|r: Result<Found, Error>| r is Err ==> #[trigger] crawl(start, Set::empty(), done.push(e), q, r),
        Verdict::Nothing => led(start, q, done.push(e), queue.subrange(1, queue.len() as int), used.insert(queue[0])),
    }
{
    let on = used.insert(queue[0]); let tail = queue.subrange(1, queue.len() as int);
    let v = verdict(p, q.0.proof_seed, queue[0]);
    let next = if v is Hint { tail + v->Hint_0 } else { tail };
    if !(v is Found) {
        assert forall|rest: Seq<Sent>, r: Result<Found, Error>| crawl(next, on, rest, q, r) implies #[trigger] crawl(start, Set::empty(), done.push(e) + rest, q, r) by {
            let l = seq![e] + rest;
            assert(l.drop_first() =~= rest); assert(l[0] == e); assert(answer(l[0].got, p));
            assert(crawl(queue, used, l, q, r));
            assert(done + l =~= done.push(e) + rest);
        }
    }
    let one = seq![e];
    assert(done + one =~= done.push(e)); assert(answer(one[0].got, p));
    if v is Found { assert(crawl(queue, used, one, q, Ok(Some(v->Found_0)))); }
    if v is Useless { assert forall|r: Result<Found, Error>| r is Err implies #[trigger] crawl(start, Set::empty(), done.push(e), q, r) by { assert(crawl(queue, used, one, q, r)); } }
}
pub proof fn lem_done(start: Seq<String>, q: LookupRequest, done: Seq<Sent>, queue: Seq<String>, used: Set<String>)
    requires led(start, q, done, queue, used), queue.len() == 0
    ensures crawl(start, Set::empty(), done, q, Ok(None))
{
    let none = Seq::<Sent>::empty();
    assert(crawl(queue, used, none, q, Ok(None))); assert(done + none =~= done);
}
/// no address is asked twice
pub proof fn lem_once(queue: Seq<String>, used: Set<String>, log: Seq<Sent>, q: LookupRequest, r: Result<Found, Error>)
    requires crawl(queue, used, log, q, r)
    ensures forall|i: int, a: String| 0 <= i < log.len() && #[trigger] used.contains(a) ==> !is_url(#[trigger] log[i].url, a@, "/api/v1/lookup"@),
        forall|i: int, j: int| 0 <= i < j < log.len() ==> #[trigger] log[i].url != #[trigger] log[j].url,
    decreases log.len(), queue.len()
{
    broadcast use crate::ext::vx_group;
    if queue.len() > 0 {
        let rest = queue.subrange(1, queue.len() as int); let on = used.insert(queue[0]); let later = log.drop_first();
        if used.contains(queue[0]) { lem_once(rest, used, log, q, r); }
        else {
            let p = choose|p: Option<LookupResponse>| #[trigger] answer(log[0].got, p) && (match verdict(p, q.0.proof_seed, queue[0]) {
                Verdict::Found(x) => log.len() == 1 && r == Ok::<Found, Error>(Some(x)),
                Verdict::Hint(s) => crawl(rest + s, on, later, q, r),
                Verdict::Useless => (log.len() == 1 && r is Err) || crawl(rest, on, later, q, r),
                Verdict::Nothing => crawl(rest, on, later, q, r),
            });
            if log.len() > 1 {
                match verdict(p, q.0.proof_seed, queue[0]) { Verdict::Hint(s) => lem_once(rest + s, on, later, q, r), _ => lem_once(rest, on, later, q, r) }
                assert(on.contains(queue[0]));
                assert forall|j: int| 0 < j < log.len() implies !is_url(#[trigger] log[j].url, queue[0]@, "/api/v1/lookup"@) by { assert(later[j - 1] == log[j]); }
            }
            let pre = "http://"@; let post = "/api/v1/lookup"@;
            assert forall|i: int, a: String| 0 <= i < log.len() && #[trigger] used.contains(a) implies !is_url(#[trigger] log[i].url, a@, post) by {
                if i == 0 { if is_url(log[0].url, a@, post) {
                    assert(a@ =~= log[0].url.subrange(pre.len() as int, log[0].url.len() - post.len())); assert(queue[0]@ =~= log[0].url.subrange(pre.len() as int, log[0].url.len() - post.len())); assert(vx_string_of(a@) == vx_string_of(queue[0]@)); } }
                else { assert(on.contains(a)); assert(later[i - 1] == log[i]); }
            }
            assert forall|i: int, j: int| 0 <= i < j < log.len() implies #[trigger] log[i].url != #[trigger] log[j].url by { if i > 0 { assert(later[i - 1] == log[i] && later[j - 1] == log[j]); } }
        }
    }
}
@fn rest_api::middleware::client::ConnectedClient::lookup
    ensures looked(*self, $0, $1, *old(vx_w), *final(vx_w), r)

# ---------------------------------------------------------------- addresses
@mod address
use crate::crypto::prelude::*;
use crate::rest_api::prelude::*;
use crate::crypto::asymmetric::pk_of_text;
pub open spec fn first_at(s: Seq<char>, p: Seq<char>, i: int) -> bool { occurs(s, p, i) && forall|j: int| 0 <= j < i ==> !occurs(s, p, j) }
/// the text before and after the first "://"
pub open spec fn scheme_of(s: Seq<char>) -> (Seq<char>, Seq<char>) {
    if exists|i: int| occurs(s, "://"@, i) { let i = choose|i: int| first_at(s, "://"@, i); (s.subrange(0, i), s.subrange(i + 3, s.len() as int)) } else { (""@, s) }
}
pub open spec fn client_addr(text: Seq<char>, t: Option<ClientType>) -> Option<Address> { match pk_of_text(text) { Some(k) => Some(Address::Hyperborea { public_key: k, client_type: t }), None => None } }
pub open spec fn after(s: Seq<char>, p: Seq<char>) -> Seq<char> { s.subrange(p.len() as int, s.len() as int) }
/// the documented table
pub open spec fn addr_of(s: Seq<char>) -> Option<Address> {
    let (p, a) = scheme_of(s);
    if p == "hyperborea"@ || p == "hyp"@ {
        if starts(a, "thin:"@) { client_addr(after(a, "thin:"@), Some(ClientType::Thin)) }
        else if starts(a, "thick:"@) { client_addr(after(a, "thick:"@), Some(ClientType::Thick)) }
        else if starts(a, "server:"@) { client_addr(after(a, "server:"@), Some(ClientType::Server)) }
        else if starts(a, "file:"@) { client_addr(after(a, "file:"@), Some(ClientType::File)) }
        else { client_addr(a, None) }
    }
    else if p == "hyperborea-client"@ || p == "hyp-client"@ { client_addr(a, Some(ClientType::Thin)) }
    else if p == "hyperborea-server"@ || p == "hyp-server"@ { client_addr(a, Some(ClientType::Server)) }
    else if p == "hyperborea-file"@ || p == "hyp-file"@ { client_addr(a, Some(ClientType::File)) }
    else if p == "http"@ { Some(Address::Http { address: vx_string_of(a) }) }
    else if p == "https"@ { Some(Address::Https { address: vx_string_of(a) }) }
    else { Some(Address::Raw(vx_string_of(a))) }
}
pub broadcast proof fn lem_scheme(a: Seq<char>, p: Seq<char>, b: Seq<char>)
    requires p == "://"@, forall|i: int| 0 <= i < a.len() ==> !occurs(a + p + b, p, i)
    ensures scheme_of(#[trigger] (a + p + b)) == (a, b)
{
    let s = a + p + b;
    reveal_strlit("://"); assert(p.len() == 3);
    assert(s.subrange(a.len() as int, a.len() as int + 3) =~= p); assert(occurs(s, p, a.len() as int)); assert(first_at(s, p, a.len() as int));
    let i = choose|i: int| first_at(s, "://"@, i);
    assert(first_at(s, p, i));
    if i < a.len() { assert(occurs(s, p, i)); } else if i > a.len() { assert(occurs(s, p, a.len() as int)); assert(!occurs(s, p, a.len() as int)); }
    assert(s.subrange(0, i) =~= a); assert(s.subrange(i + 3, s.len() as int) =~= b);
}
pub broadcast proof fn lem_after(p: Seq<char>, x: Seq<char>)
    ensures starts(#[trigger] (p + x), p), after(p + x, p) == x
{ assert((p + x).subrange(0, p.len() as int) =~= p); assert(after(p + x, p) =~= x); }
@begin address::Address as FromStr::from_str
    broadcast use crate::address::lem_scheme, crate::address::lem_after;
@fn address::Address as FromStr::from_str
    ensures match addr_of($0@) { Some(a) => r == Ok::<Address, CryptographyError>(a), None => r is Err }
@fn address::parse
    ensures match addr_of($0.sv()) { Some(a) => r == Ok::<Address, CryptographyError>(a), None => r is Err }
@mod rest_api::middleware::client
/// what an address stands for: HTTP addresses say so themselves, clients are searched for
pub open spec fn stands_for<T>(c: ConnectedClient<T>, a: Address, w0: World, w1: World, r: Result<String, Error>) -> bool {
    match a {
        Address::Hyperborea { public_key, client_type } => exists|x: Result<Found, Error>| #[trigger] looked(c, public_key, client_type, w0, w1, x) && match x {
            Ok(Some(f)) => (r matches Ok(s) && s@ =~= "http://"@ + f.1.address@),
            Ok(None) => (r matches Err(Error::RequestFailed { status, .. }) && status is ClientNotFound),
            Err(_) => r is Err },
        Address::Http { address } => no_change(w0, w1) && (r matches Ok(s) && s@ =~= "http://"@ + address@),
        Address::Https { address } => no_change(w0, w1) && (r matches Ok(s) && s@ =~= "https://"@ + address@),
        Address::Raw(address) => no_change(w0, w1) && r == Ok::<String, Error>(address),
    }
}
pub open spec fn resolves<T>(c: ConnectedClient<T>, s: Seq<char>, w0: World, w1: World, r: Result<String, Error>) -> bool {
    match addr_of(s) { Some(a) => stands_for(c, a, w0, w1, r), None => no_change(w0, w1) && r is Err }
}
@fn address::Address::resolve
    ensures crate::rest_api::middleware::client::stands_for(*$0, self, *old(vx_w), *final(vx_w), r)
@fn address::resolve
    ensures crate::rest_api::middleware::client::resolves(*$1, $0.sv(), *old(vx_w), *final(vx_w), r)

@mod rest_api::middleware::client
pub broadcast proof fn lem_ask_b(start: Seq<String>, q: LookupRequest, ws: World, w0: World, w1: World, queue: Seq<String>, used: Set<String>, u: Seq<char>, p: Option<LookupResponse>)
    requires #[trigger] led(start, q, since(ws, w0), queue, used), only_sent(ws, w0), #[trigger] posted(w0, w1, u, q.enc(), p), queue.len() > 0, !used.contains(queue[0]), is_url(u, queue[0]@, "/api/v1/lookup"@)
    ensures only_sent(ws, w1), match verdict(p, q.0.proof_seed, queue[0]) {
        Verdict::Found(x) => crawl(start, Set::empty(), since(ws, w1), q, Ok(Some(x))),
        Verdict::Hint(s) => led(start, q, since(ws, w1), queue.subrange(1, queue.len() as int) + s, used.insert(queue[0])),
        Verdict::Useless => led(start, q, since(ws, w1), queue.subrange(1, queue.len() as int), used.insert(queue[0])) && forall|r: Result<Found, Error>| r is Err ==> #[trigger] crawl(start, Set::empty(), since(ws, w1), q, r),
        Verdict::Nothing => led(start, q, since(ws, w1), queue.subrange(1, queue.len() as int), used.insert(queue[0])),
    }
{
    let g = choose|g: Option<HttpAnswer>| #[trigger] sends(w0, w1, Sent { url: u, body: Some(q.enc()), got: g }) && answer(g, p);
    let e = Sent { url: u, body: Some(q.enc()), got: g };
    lem_ask(start, q, since(ws, w0), queue, used, e, p);
    assert(since(ws, w1) =~= since(ws, w0).push(e));
    assert(sent(w1).subrange(0, sent(ws).len() as int) =~= sent(w0).subrange(0, sent(ws).len() as int));
}
pub broadcast proof fn lem_all<A>(s: Seq<A>, n: int) requires n == s.len() ensures #[trigger] s.subrange(0, n) == s { assert(s.subrange(0, n) =~= s); }
pub broadcast proof fn lem_shift<A>(q: Seq<A>, x: A, s: Seq<A>, a: int, n: int)
    requires 1 <= a <= n <= s.len(), s[a - 1] == x
    ensures #[trigger] (q.push(x) + s.subrange(a, n)) == q + s.subrange(a - 1, n)
{ assert(q.push(x) + s.subrange(a, n) =~= q + s.subrange(a - 1, n)); }
pub broadcast proof fn lem_over<A>(q: Seq<A>, s: Seq<A>, n: int) requires 0 <= n <= s.len() ensures #[trigger] (q + s.subrange(n, n)) == q { assert(q + s.subrange(n, n) =~= q); }
pub broadcast proof fn lem_end(start: Seq<String>, q: LookupRequest, done: Seq<Sent>, queue: Seq<String>, used: Set<String>)
    requires #[trigger] led(start, q, done, queue, used), queue.len() == 0
    ensures crawl(start, Set::empty(), done, q, Ok(None))
{ lem_done(start, q, done, queue, used); }
pub broadcast proof fn lem_start(start: Seq<String>, q: LookupRequest, done: Seq<Sent>, queue: Seq<String>, used: Set<String>)
    requires queue =~= start, used =~= Set::<String>::empty(), done =~= Seq::<Sent>::empty()
    ensures #[trigger] led(start, q, done, queue, used)
{ assert forall|rest: Seq<Sent>, r: Result<Found, Error>| crawl(queue, used, rest, q, r) implies #[trigger] crawl(start, Set::empty(), done + rest, q, r) by { assert(done + rest =~= rest); } }
pub broadcast proof fn lem_again<A>(s: Set<A>, x: A) requires s.contains(x) ensures #[trigger] s.insert(x) == s { assert(s.insert(x) =~= s); }
pub broadcast group lookup_lemmas { lem_start, lem_again, lem_skip, lem_ask_b, lem_all, lem_shift, lem_over, lem_end }
@begin rest_api::middleware::client::ConnectedClient::lookup
    broadcast use crate::rest_api::middleware::client::lookup_lemmas;
@attr rest_api::middleware::client::ConnectedClient::lookup
    #[verifier::exec_allows_no_decreases_clause]
@loop rest_api::middleware::client::ConnectedClient::lookup | 0
    invariant built(request.0, self.driver.secret_key), request.0.request.public_key == $0, request.0.request.client_type == $1, proof_seed == request.0.proof_seed,
        only_sent(*old(vx_w), *vx_w), led(seq![self.connected_server.address], request, since(*old(vx_w), *vx_w), queue.dq(), used_servers.sv()),
    ensures crawl(seq![self.connected_server.address], Set::empty(), since(*old(vx_w), *vx_w), request, Ok(None)), built(request.0, self.driver.secret_key), request.0.request.public_key == $0, request.0.request.client_type == $1, only_sent(*old(vx_w), *vx_w)
@loop rest_api::middleware::client::ConnectedClient::lookup | 1
    invariant 0 <= vx_it1.pos() <= vx_it1.seq().len(),
        led(seq![self.connected_server.address], request, since(*old(vx_w), *vx_w), queue.dq() + hinted(vx_it1.seq()).subrange(vx_it1.pos(), vx_it1.seq().len() as int), used_servers.sv()),
    ensures led(seq![self.connected_server.address], request, since(*old(vx_w), *vx_w), queue.dq(), used_servers.sv())
    decreases vx_it1.seq().len() - vx_it1.pos()
