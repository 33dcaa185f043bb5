# ---------------------------------------------------------------- the server
@extern
std::net::SocketAddr=crate::ext::SocketAddr
@end
@fn drivers::server::server::ServerDriver::new
    ensures r.router == $0, r.traversal == $1, r.messages_inbox == $2, r.params == $3
@fn drivers::server::server::ServerDriver::router
    ensures *r == self.router
@fn drivers::server::server::ServerDriver::traversal
    ensures *r == self.traversal
@fn drivers::server::server::ServerDriver::messages_inbox
    ensures *r == self.messages_inbox
@fn drivers::server::server::ServerDriver::params
    ensures *r == self.params
@fn drivers::server::server::ServerDriver::as_client
    ensures r.secret_key == self.params.secret_key, r.info.client_type is Server, r.info.address matches Some(a) && a@ == self.params.address@
@fn rest_api::middleware::server::Server::new
    requires $1.routes().disjoint(endpoints())
    ensures r.http_client == $0, r.http_server.routes() == $1.routes().union(endpoints()), *r.driver == $2
@begin rest_api::middleware::server::Server::new
    let ghost vx_before = http_server.routes();
@tail rest_api::middleware::server::Server::new
    assert(vx_r.http_server.routes() =~= vx_before.union(endpoints()));
@fn rest_api::middleware::server::Server::serve
    ensures crate::web::served(*old(vx_w), *final(vx_w), $0.addrs(), self.http_server.routes(), r is Ok)
@fn rest_api::middleware::server::Server::http_client
    ensures *r == self.http_client
@fn rest_api::middleware::server::Server::http_server
    ensures *r == self.http_server
@fn rest_api::middleware::server::Server::driver
    ensures *r == *self.driver

@mod rest_api::middleware::server
use crate::web::Route;
use crate::drivers::{acts, asks, did, asked, Act, Ask, polled};
use crate::crypto::asymmetric::{SecretKey, PublicKey, pub_key};
use crate::rest_api::request::authentic;
use crate::rest_api::response::{answers, body};
use crate::rest_api::requests::connect::connect_valid;
use crate::rest_api::requests::announce::announce_valid;
use crate::rest_api::requests::info::response::info_valid;
pub open spec fn reads(path: Seq<char>) -> Route { Route { post: false, path } }
pub open spec fn posts(path: Seq<char>) -> Route { Route { post: true, path } }
/// what a server answers at
pub open spec fn endpoints() -> Set<Route> {
    set![reads("/api/v1/info"@), reads("/api/v1/clients"@), reads("/api/v1/servers"@), posts("/api/v1/connect"@), posts("/api/v1/disconnect"@), posts("/api/v1/lookup"@), posts("/api/v1/announce"@), posts("/api/v1/send"@), posts("/api/v1/poll"@)]
}
pub open spec fn says_error<T>(r: Response<T>) -> bool { r matches Response::Error { standard, status, .. } && standard == 1 && !(status is Success) }
pub open spec fn says_yes<T>(r: Response<T>, sk: SecretKey, seed: u64) -> bool { answers(r, ResponseStatus::Success, sk, seed) }
/// nothing done for a request that is not its sender's
pub open spec fn refuses<T>(w0: World, w1: World, r: Response<T>) -> bool { acts(w1) == acts(w0) && says_error(r) }
/// success is said if it succeeded, and an error otherwise
pub open spec fn tells<T>(ok: bool, r: Response<T>, sk: SecretKey, seed: u64) -> bool { if ok { says_yes(r, sk, seed) } else { says_error(r) } }
pub open spec fn looks_hint(w0: World, w1: World, q: LookupRequest, sk: SecretKey, r: Response<LookupResponseBody>) -> bool {
    exists|h: Option<Seq<crate::rest_api::types::server::Server>>| #[trigger] asked(w0, w1, Ask::Hint(q.0.request.public_key, q.0.request.client_type, h)) && match h {
        None => says_error(r),
        Some(s) => says_yes(r, sk, q.0.proof_seed) && (body(r) matches LookupResponseBody::Hint { servers } && servers@ == s),
    }
}
pub open spec fn looks_remote(w0: World, w1: World, q: LookupRequest, sk: SecretKey, r: Response<LookupResponseBody>) -> bool {
    exists|w: World, m: Option<Option<(crate::rest_api::types::client::Client, crate::rest_api::types::server::Server, bool)>>| #[trigger] asked(w0, w, Ask::Remote(q.0.request.public_key, q.0.request.client_type, m)) && match m {
        None => w1 == w && says_error(r),
        Some(Some(x)) => w1 == w && says_yes(r, sk, q.0.proof_seed) && body(r) == (LookupResponseBody::Remote { client: x.0, server: x.1, available: x.2 }),
        Some(None) => looks_hint(w, w1, q, sk, r),
    }
}
/// the local record, else the remote one, else where to ask
pub open spec fn looks(w0: World, w1: World, q: LookupRequest, sk: SecretKey, r: Response<LookupResponseBody>) -> bool {
    exists|w: World, l: Option<Option<(crate::rest_api::types::client::Client, bool)>>| #[trigger] asked(w0, w, Ask::Local(q.0.request.public_key, q.0.request.client_type, l)) && match l {
        None => w1 == w && says_error(r),
        Some(Some(x)) => w1 == w && says_yes(r, sk, q.0.proof_seed) && body(r) == (LookupResponseBody::Local { client: x.0, available: x.1 }),
        Some(None) => looks_remote(w, w1, q, sk, r),
    }
}
@fn rest_api::middleware::server::Server::new#get /api/v1/info
    ensures r.standard == 1, r.public_key == pub_key($0.params.secret_key), info_valid(r)
@fn rest_api::middleware::server::Server::new#get /api/v1/clients
    ensures exists|l: Option<Seq<crate::rest_api::types::client::Client>>| #[trigger] asked(*old(vx_w), *final(vx_w), Ask::Locals(l)) && r.standard == 1 && r.clients@ =~= (match l { Some(s) => s, None => Seq::empty() })
@fn rest_api::middleware::server::Server::new#get /api/v1/servers
    ensures exists|l: Option<Seq<crate::rest_api::types::server::Server>>| #[trigger] asked(*old(vx_w), *final(vx_w), Ask::Servers(l)) && r.standard == 1 && r.servers@ =~= (match l { Some(s) => s, None => Seq::empty() })
@fn rest_api::middleware::server::Server::new#post /api/v1/connect
    ensures connect_valid($2, pub_key($0.params.secret_key)) ==> exists|ok: Option<bool>| #[trigger] did(*old(vx_w), *final(vx_w), Act::Local(crate::rest_api::types::client::Client { public_key: $2.0.public_key, certificate: $2.0.request.certificate, info: $2.0.request.client }, ok)) && tells(ok is Some, r.0, $0.params.secret_key, $2.0.proof_seed),
        !connect_valid($2, pub_key($0.params.secret_key)) ==> refuses(*old(vx_w), *final(vx_w), r.0)
@fn rest_api::middleware::server::Server::new#post /api/v1/disconnect
    ensures authentic($2.0) ==> exists|ok: bool| #[trigger] did(*old(vx_w), *final(vx_w), Act::Disconnect($2.0.public_key, ok)) && tells(ok, r.0, $0.params.secret_key, $2.0.proof_seed),
        !authentic($2.0) ==> refuses(*old(vx_w), *final(vx_w), r.0)
@fn rest_api::middleware::server::Server::new#post /api/v1/announce
    ensures announce_valid($2) ==> match $2.0.request {
            AnnounceRequestBody::Client { client, server } => exists|ok: Option<bool>| #[trigger] did(*old(vx_w), *final(vx_w), Act::Remote(client, server, ok)) && tells(ok is Some, r.0, $0.params.secret_key, $2.0.proof_seed),
            AnnounceRequestBody::Server { server } => exists|ok: Option<bool>| #[trigger] did(*old(vx_w), *final(vx_w), Act::Server(server, ok)) && tells(ok is Some, r.0, $0.params.secret_key, $2.0.proof_seed),
        },
        !announce_valid($2) ==> refuses(*old(vx_w), *final(vx_w), r.0)
@fn rest_api::middleware::server::Server::new#post /api/v1/lookup
    ensures authentic($2.0) ==> looks(*old(vx_w), *final(vx_w), $2, $0.params.secret_key, r.0),
        !authentic($2.0) ==> refuses(*old(vx_w), *final(vx_w), r.0)
@fn rest_api::middleware::server::Server::new#post /api/v1/send
    ensures authentic($2.0) ==> exists|ok: bool| #[trigger] did(*old(vx_w), *final(vx_w), Act::Add($2.0.request.sender, $2.0.request.receiver_public, $2.0.request.channel@, $2.0.request.message, ok)) && tells(ok, r.0, $0.params.secret_key, $2.0.proof_seed),
        !authentic($2.0) ==> refuses(*old(vx_w), *final(vx_w), r.0)
@fn rest_api::middleware::server::Server::new#post /api/v1/poll
    ensures authentic($2.0) ==> exists|got: Option<(Seq<MessageInfo>, u64)>| #[trigger] did(*old(vx_w), *final(vx_w), Act::Poll($2.0.public_key, $2.0.request.channel@, $2.0.request.limit, got)) && tells(got is Some, r.0, $0.params.secret_key, $2.0.proof_seed) && (got matches Some(g) ==> body(r.0).messages@ == g.0 && body(r.0).remaining == g.1),
        !authentic($2.0) ==> refuses(*old(vx_w), *final(vx_w), r.0)
