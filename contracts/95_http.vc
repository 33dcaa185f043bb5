# ---------------------------------------------------------------- the HTTP layer
@mod http::client
use crate::web::{wire, Wire};
/// one request to this place and nothing but its answer; nothing for an address that is none
pub open spec fn exchanged(w0: World, w1: World, post: bool, url: Seq<char>, body: Option<JV>, r: Option<Response>) -> bool {
    (r is None && wire(w1) == wire(w0)) || ({
        let q = wire(w1).last();
        wire(w1).len() > 0 && wire(w1).drop_last() =~= wire(w0) && q.post == post && q.url == url && q.body == body && reported(q.got, r)
    })
}
/// what an answer is reported as
pub open spec fn reported(g: Option<(u16, Option<JV>)>, r: Option<Response>) -> bool {
    match g {
        Some((n, Some(j))) => r matches Some(a) && a.status == n && a.body is Some && a.body->Some_0@ == j,
        _ => r is None,
    }
}
@fn http::client::ReqwestHttpClient as HttpClient::get
    ensures exchanged(*old(vx_w), *final(vx_w), false, $0.sv(), None, crate::drivers::okv(r))
@fn http::client::ReqwestHttpClient as HttpClient::post
    ensures exchanged(*old(vx_w), *final(vx_w), true, $0.sv(), Some($1@), crate::drivers::okv(r))
@mod http::server
use crate::rest_api::AsJson;
use crate::web::{HttpResponse, Route};
pub open spec fn routes(s: AxumHttpServer) -> Set<Route> { match s.0 { Some(x) => x.routes(), None => Set::empty() } }
/// the answer to a request whose handler gave x
pub open spec fn answers<T: AsJson>(x: T, a: HttpResponse<String>) -> bool {
    (x.wf() ==> a.code == 200 && json_parse(a.body@) == Some(x.enc())) && (a.code == 200 || a.code >= 400)
}
@fn http::server::AxumHttpServer::default
    ensures routes(r) == Set::<Route>::empty()
@trait http::server::HttpServer
    /// what a request is answered at
    spec fn routes(&self) -> Set<crate::web::Route>;
@impl http::server::AxumHttpServer as HttpServer
    open spec fn routes(&self) -> Set<crate::web::Route> { crate::http::server::routes(*self) }
@fn http::server::HttpServer::get
    requires !old(self).routes().contains(crate::web::Route { post: false, path: $0.sv() })
    ensures final(self).routes() == old(self).routes().insert(crate::web::Route { post: false, path: $0.sv() })
@fn http::server::HttpServer::post
    requires !old(self).routes().contains(crate::web::Route { post: true, path: $0.sv() })
    ensures final(self).routes() == old(self).routes().insert(crate::web::Route { post: true, path: $0.sv() })
@fn http::server::HttpServer::serve
    ensures crate::web::served(*old(vx_w), *final(vx_w), $0.addrs(), self.routes(), r is Ok)
@begin http::server::AxumHttpServer as HttpServer::get#axum get
    broadcast use crate::web::ax_json_header;
@begin http::server::AxumHttpServer as HttpServer::post#axum post
    broadcast use crate::web::ax_json_header;
@fn http::server::AxumHttpServer as HttpServer::get#axum get
    ensures exists|x: T| #[trigger] callback.cb_rel((client_address,), *old(vx_w), x, *final(vx_w)) && answers(x, r)
@fn http::server::AxumHttpServer as HttpServer::post#axum post
    ensures match crate::ext::doc_in(body.bv()) {
        None => r.code >= 400 && *final(vx_w) == *old(vx_w),
        Some(j) => (exists|q: T, x: F| T::reads(j, q) && (forall|y: T| y.wf() && j == #[trigger] y.enc() ==> y == q) && #[trigger] callback.cb_rel((client_address, q), *old(vx_w), x, *final(vx_w)) && answers(x, r))
            || (r.code >= 400 && *final(vx_w) == *old(vx_w) && (forall|y: T| y.wf() ==> j != #[trigger] y.enc())),
    }
