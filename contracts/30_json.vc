# ---------------------------------------------------------------- JSON forms of everything the protocol sends
@trait rest_api::AsJson
    /// values that have a JSON form
    spec fn wf(&self) -> bool;
    /// the JSON form of a value
    spec fn enc(&self) -> crate::ext::JV;
    /// what a document must say for it to be read as x
    spec fn reads(j: crate::ext::JV, x: Self) -> bool;
    /// values that must be refused on the way out
    spec fn refuses(&self) -> bool;
@fn rest_api::AsJson::to_json
    ensures self.wf() ==> (r matches Ok(j) && j@ == self.enc()), self.refuses() ==> r is Err
@fn rest_api::AsJson::from_json
    ensures forall|x: Self| x.wf() && $0@ == #[trigger] x.enc() ==> r == Ok::<Self, AsJsonError>(x), (r matches Ok(x) ==> Self::reads($0@, x))
@mod rest_api
use crate::crypto::asymmetric::{PublicKey, pk_text, pk_of_text};
pub open spec fn jpk(k: PublicKey) -> JV { JV::Str(pk_text(k)) }
pub open spec fn jb64(b: Seq<u8>) -> JV { JV::Str(b64(b)) }
pub open spec fn ostr(o: Option<String>) -> JV { match o { Some(s) => JV::Str(s@), None => JV::Null } }
pub open spec fn onum(o: Option<u64>) -> JV { match o { Some(s) => JV::Num(s as int), None => JV::Null } }
pub open spec fn is_standard(j: JV, s: u64) -> bool { s == 1 && has(j, "standard"@) && at(j, "standard"@) == JV::Num(1) }
pub open spec fn rd_pk(j: JV, k: Seq<char>, x: PublicKey) -> bool { has(j, k) && at(j, k) is Str && pk_of_text(at(j, k)->Str_0) == Some(x) }
pub open spec fn rd_b64(j: JV, k: Seq<char>, x: Vec<u8>) -> bool { has(j, k) && at(j, k) is Str && un_b64(at(j, k)->Str_0) == Some(x@) }
pub open spec fn rd_str(j: JV, k: Seq<char>, x: String) -> bool { has(j, k) && at(j, k) == JV::Str(x@) }
pub open spec fn rd_num(j: JV, k: Seq<char>, x: u64) -> bool { has(j, k) && at(j, k) == JV::Num(x as int) }
pub open spec fn rd_bool(j: JV, k: Seq<char>, x: bool) -> bool { has(j, k) && at(j, k) == JV::Bool(x) }
pub open spec fn rd_sub<T: AsJson>(j: JV, k: Seq<char>, x: T) -> bool { has(j, k) && T::reads(at(j, k), x) }
pub open spec fn encs<T: AsJson>(s: Seq<T>) -> Seq<JV> { s.map_values(|x: T| x.enc()) }
pub open spec fn wfs<T: AsJson>(s: Seq<T>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).wf() }
pub open spec fn rd_list<T: AsJson>(j: JV, x: Seq<T>) -> bool { j is Arr && j->Arr_0.len() == x.len() && forall|i: int| 0 <= i < x.len() ==> T::reads(#[trigger] j->Arr_0[i], x[i]) }
/// a field that is null for nothing
pub open spec fn rd_opt(j: JV, k: Seq<char>, x: Option<u64>) -> bool { has(j, k) && match x { Some(n) => at(j, k) == JV::Num(n as int), None => at(j, k) is Null } }
/// where reading a list stands after its first n items
pub open spec fn read_upto<T: AsJson>(j: JV, n: int, out: Seq<T>) -> bool {
    &&& out.len() == n && j is Arr && n <= j->Arr_0.len()
    &&& forall|i: int| 0 <= i < n ==> T::reads(#[trigger] j->Arr_0[i], out[i])
    &&& forall|i: int, x: T| 0 <= i < n && x.wf() && j->Arr_0[i] == #[trigger] x.enc() ==> #[trigger] out[i] == x
}

/// where writing a list stands after its first n items
pub open spec fn wrote_upto<T: AsJson>(s: Seq<T>, n: int, out: Seq<Json>) -> bool {
    out.len() == n && n <= s.len() && forall|i: int| 0 <= i < n && s[i].wf() ==> (#[trigger] out[i])@ == s[i].enc()
}
pub open spec fn it_of<T>(it: VxIter<&T>, s: Seq<T>) -> bool { 0 <= it.pos() <= it.seq().len() && it.seq().len() == s.len() && forall|i: int| 0 <= i < s.len() ==> *(#[trigger] it.seq()[i]) == s[i] }
pub open spec fn it_json(it: VxIter<&Json>, j: JV) -> bool { j is Arr && 0 <= it.pos() <= it.seq().len() && it.seq().len() == j->Arr_0.len() && forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i])@ == j->Arr_0[i] }
pub broadcast proof fn lem_wrote<T: AsJson>(s: Seq<T>, n: int, out: Vec<Json>)
    requires #[trigger] wrote_upto(s, n, out@), n == s.len(), wfs(s)
    ensures out.js() == jarr(encs(s))
{
    let m = out@.map_values(|x: Json| x.js());
    assert(m =~= encs(s)) by {
        assert forall|i: int| 0 <= i < out@.len() implies #[trigger] m[i] == encs(s)[i] by { assert(s[i].wf()); assert(out@[i]@ == s[i].enc()); }
    }
}
pub broadcast proof fn lem_read<T: AsJson>(j: JV, n: int, out: Vec<T>, x: Vec<T>)
    requires #[trigger] read_upto(j, n, out@), j == jarr(#[trigger] encs(x@)), n == j->Arr_0.len(), wfs(x@)
    ensures out == x
{
    broadcast use crate::ext::vx_group;
    assert(out@ =~= x@) by {
        assert forall|i: int| 0 <= i < out@.len() implies out@[i] == x@[i] by { assert(x@[i].wf()); assert(j->Arr_0[i] == x@[i].enc()); }
    }
}
pub broadcast proof fn lem_read_rd<T: AsJson>(j: JV, n: int, out: Seq<T>)
    requires #[trigger] read_upto(j, n, out), n == j->Arr_0.len()
    ensures rd_list(j, out)
{ }
pub open spec fn no_item<T: AsJson>(j: JV) -> bool { forall|x: T| x.wf() ==> j != #[trigger] x.enc() }
pub open spec fn no_list<T: AsJson>(j: JV) -> bool { forall|x: Vec<T>| wfs(x@) ==> j != jarr(#[trigger] encs(x@)) }
pub broadcast proof fn lem_no_list<T: AsJson>(j: JV, i: int)
    requires j is Arr, 0 <= i < j->Arr_0.len(), #[trigger] no_item::<T>(j->Arr_0[i])
    ensures no_list::<T>(j)
{
    assert forall|x: Vec<T>| wfs(x@) && j == jarr(#[trigger] encs(x@)) implies false by { assert(x@[i].wf()); assert(j->Arr_0[i] == x@[i].enc()); }
}
pub broadcast group json_lists { lem_wrote, lem_read, lem_read_rd, lem_no_list }
@impl rest_api::Vec as AsJson
    open spec fn wf(&self) -> bool { wfs(self@) }
    open spec fn enc(&self) -> JV { jarr(encs(self@)) }
    open spec fn reads(j: JV, x: Self) -> bool { rd_list(j, x@) }
    open spec fn refuses(&self) -> bool { false }
@impl rest_api::Box as AsJson
    open spec fn wf(&self) -> bool { (**self).wf() }
    open spec fn enc(&self) -> JV { (**self).enc() }
    open spec fn reads(j: JV, x: Self) -> bool { T::reads(j, *x) }
    open spec fn refuses(&self) -> bool { (**self).refuses() }

@loop rest_api::Vec as AsJson::to_json | 0
    invariant_except_break vx_e0 is None, wrote_upto(self@, vx_it0.pos(), vx_out0@)
    invariant it_of(vx_it0, self@)
    ensures vx_e0 is None ==> wrote_upto(self@, self@.len() as int, vx_out0@), vx_e0 is Some ==> !wfs(self@)
    decreases vx_it0.seq().len() - vx_it0.pos()
@begin rest_api::Vec as AsJson::to_json
    broadcast use crate::rest_api::json_lists;

@loop rest_api::Vec as AsJson::from_json | 0
    invariant_except_break vx_e0 is None, read_upto($0@, vx_it0.pos(), vx_out0@)
    invariant it_json(vx_it0, $0@)
    ensures vx_e0 is None ==> read_upto($0@, $0@->Arr_0.len() as int, vx_out0@), vx_e0 is Some ==> no_list::<T>($0@)
    decreases vx_it0.seq().len() - vx_it0.pos()
@begin rest_api::Vec as AsJson::from_json
    broadcast use crate::rest_api::json_lists;

@impl rest_api::types::client::Client as AsJson
    open spec fn wf(&self) -> bool { self.certificate.wf() && self.info.wf() }
    open spec fn enc(&self) -> JV { jobj(map!["public_key"@ => crate::rest_api::jpk(self.public_key), "certificate"@ => self.certificate.enc(), "client"@ => self.info.enc()]) }
    open spec fn reads(j: JV, x: Self) -> bool { crate::rest_api::rd_pk(j, "public_key"@, x.public_key) && crate::rest_api::rd_sub(j, "certificate"@, x.certificate) && crate::rest_api::rd_sub(j, "client"@, x.info) }
    open spec fn refuses(&self) -> bool { false }

@impl rest_api::types::client_info::ClientInfo as AsJson
    open spec fn wf(&self) -> bool { true }
    open spec fn enc(&self) -> JV { jobj(map!["type"@ => JV::Str(self.client_type.disp()), "address"@ => crate::rest_api::ostr(self.address)]) }
    open spec fn reads(j: JV, x: Self) -> bool { has(j, "type"@) && at(j, "type"@) is Str && crate::rest_api::types::client_type::ct_of(at(j, "type"@)->Str_0) == Some(x.client_type) && (match jget(j, "address"@) { Some(JV::Str(a)) => (x.address matches Some(y) && y@ == a), _ => x.address is None }) }
    open spec fn refuses(&self) -> bool { false }

@impl rest_api::types::connection_certificate::ConnectionCertificate as AsJson
    open spec fn wf(&self) -> bool { true }
    open spec fn enc(&self) -> JV { jobj(map!["token"@ => crate::rest_api::jb64(crate::rest_api::types::connection_token::token_bytes(self.token)), "sign"@ => crate::rest_api::jb64(self.sign@)]) }
    open spec fn reads(j: JV, x: Self) -> bool { crate::rest_api::types::connection_token::rd_token(j, "token"@, x.token) && crate::rest_api::rd_b64(j, "sign"@, x.sign) }
    open spec fn refuses(&self) -> bool { false }

@impl rest_api::types::server::Server as AsJson
    open spec fn wf(&self) -> bool { true }
    open spec fn enc(&self) -> JV { jobj(map!["public_key"@ => crate::rest_api::jpk(self.public_key), "address"@ => JV::Str(self.address@)]) }
    open spec fn reads(j: JV, x: Self) -> bool { crate::rest_api::rd_pk(j, "public_key"@, x.public_key) && crate::rest_api::rd_str(j, "address"@, x.address) }
    open spec fn refuses(&self) -> bool { false }

@impl rest_api::types::sender::Sender as AsJson
    open spec fn wf(&self) -> bool { self.client.wf() && self.server.wf() }
    open spec fn enc(&self) -> JV { jobj(map!["client"@ => self.client.enc(), "server"@ => self.server.enc()]) }
    open spec fn reads(j: JV, x: Self) -> bool { crate::rest_api::rd_sub(j, "client"@, x.client) && crate::rest_api::rd_sub(j, "server"@, x.server) }
    open spec fn refuses(&self) -> bool { false }

@impl rest_api::types::message::Message as AsJson
    open spec fn wf(&self) -> bool { true }
    open spec fn enc(&self) -> JV { jobj(map!["content"@ => JV::Str(self.content@), "sign"@ => JV::Str(self.sign@), "encoding"@ => JV::Str(self.encoding.disp())]) }
    open spec fn reads(j: JV, x: Self) -> bool { crate::rest_api::rd_str(j, "content"@, x.content) && crate::rest_api::rd_str(j, "sign"@, x.sign) && has(j, "encoding"@) && at(j, "encoding"@) is Str && crate::rest_api::types::message_encoding::me_text_is(at(j, "encoding"@)->Str_0, x.encoding) }
    open spec fn refuses(&self) -> bool { false }

@impl rest_api::types::message_info::MessageInfo as AsJson
    open spec fn wf(&self) -> bool { self.sender.wf() && self.message.wf() }
    open spec fn enc(&self) -> JV { jobj(map!["sender"@ => self.sender.enc(), "channel"@ => JV::Str(self.channel@), "message"@ => self.message.enc(), "received_at"@ => JV::Num(self.received_at as int)]) }
    open spec fn reads(j: JV, x: Self) -> bool { crate::rest_api::rd_sub(j, "sender"@, x.sender) && crate::rest_api::rd_str(j, "channel"@, x.channel) && crate::rest_api::rd_sub(j, "message"@, x.message) && crate::rest_api::rd_num(j, "received_at"@, x.received_at) }
    open spec fn refuses(&self) -> bool { false }

@impl rest_api::request::Request as AsJson
    open spec fn wf(&self) -> bool { self.standard == 1 && self.request.wf() }
    open spec fn enc(&self) -> JV { jobj(map!["standard"@ => JV::Num(self.standard as int), "public_key"@ => crate::rest_api::jpk(self.public_key), "proof"@ => jobj(map!["seed"@ => JV::Num(self.proof_seed as int), "sign"@ => crate::rest_api::jb64(self.proof_sign@)]), "request"@ => self.request.enc()]) }
    open spec fn reads(j: JV, x: Self) -> bool { crate::rest_api::is_standard(j, x.standard) && crate::rest_api::rd_pk(j, "public_key"@, x.public_key) && has(j, "proof"@) && crate::rest_api::rd_num(at(j, "proof"@), "seed"@, x.proof_seed) && crate::rest_api::rd_b64(at(j, "proof"@), "sign"@, x.proof_sign) && crate::rest_api::rd_sub(j, "request"@, x.request) }
    open spec fn refuses(&self) -> bool { self.standard != 1 }

@impl rest_api::response::Response as AsJson
    open spec fn wf(&self) -> bool { match *self { Response::Success { standard, status, response, .. } => standard == 1 && crate::rest_api::status::good(status) && response.wf(), Response::Error { standard, status, .. } => standard == 1 && !crate::rest_api::status::good(status) } }
    open spec fn enc(&self) -> JV { match *self { Response::Success { standard, status, public_key, proof_sign, response } => jobj(map!["standard"@ => JV::Num(standard as int), "status"@ => JV::Num(crate::rest_api::status::code(status) as int), "public_key"@ => crate::rest_api::jpk(public_key), "proof"@ => jobj(map!["sign"@ => crate::rest_api::jb64(proof_sign@)]), "response"@ => response.enc()]), Response::Error { standard, status, reason } => jobj(map!["standard"@ => JV::Num(standard as int), "status"@ => JV::Num(crate::rest_api::status::code(status) as int), "reason"@ => JV::Str(reason@)]) } }
    open spec fn reads(j: JV, x: Self) -> bool { match x { Response::Success { standard, status, public_key, proof_sign, response } => crate::rest_api::is_standard(j, standard) && has(j, "status"@) && at(j, "status"@) == JV::Num(crate::rest_api::status::code(status) as int) && crate::rest_api::status::good(status) && crate::rest_api::rd_pk(j, "public_key"@, public_key) && has(j, "proof"@) && crate::rest_api::rd_b64(at(j, "proof"@), "sign"@, proof_sign) && crate::rest_api::rd_sub(j, "response"@, response), Response::Error { standard, status, reason } => crate::rest_api::is_standard(j, standard) && has(j, "status"@) && at(j, "status"@) == JV::Num(crate::rest_api::status::code(status) as int) && !crate::rest_api::status::good(status) && crate::rest_api::rd_str(j, "reason"@, reason) } }
    open spec fn refuses(&self) -> bool { match *self { Response::Success { standard, .. } => standard != 1, Response::Error { standard, .. } => standard != 1 } }

@impl rest_api::requests::announce::AnnounceRequest as AsJson
    open spec fn wf(&self) -> bool { self.0.wf() }
    open spec fn enc(&self) -> JV { self.0.enc() }
    open spec fn reads(j: JV, x: Self) -> bool { crate::rest_api::request::Request::reads(j, x.0) }
    open spec fn refuses(&self) -> bool { self.0.refuses() }

@impl rest_api::requests::announce::AnnounceResponse as AsJson
    open spec fn wf(&self) -> bool { self.0.wf() }
    open spec fn enc(&self) -> JV { self.0.enc() }
    open spec fn reads(j: JV, x: Self) -> bool { crate::rest_api::response::Response::reads(j, x.0) }
    open spec fn refuses(&self) -> bool { self.0.refuses() }

@impl rest_api::requests::announce::response::AnnounceResponseBody as AsJson
    open spec fn wf(&self) -> bool { true }
    open spec fn enc(&self) -> JV { jobj(Map::empty()) }
    open spec fn reads(j: JV, x: Self) -> bool { true }
    open spec fn refuses(&self) -> bool { false }

@impl rest_api::requests::connect::ConnectRequest as AsJson
    open spec fn wf(&self) -> bool { self.0.wf() }
    open spec fn enc(&self) -> JV { self.0.enc() }
    open spec fn reads(j: JV, x: Self) -> bool { crate::rest_api::request::Request::reads(j, x.0) }
    open spec fn refuses(&self) -> bool { self.0.refuses() }

@impl rest_api::requests::connect::ConnectResponse as AsJson
    open spec fn wf(&self) -> bool { self.0.wf() }
    open spec fn enc(&self) -> JV { self.0.enc() }
    open spec fn reads(j: JV, x: Self) -> bool { crate::rest_api::response::Response::reads(j, x.0) }
    open spec fn refuses(&self) -> bool { self.0.refuses() }

@impl rest_api::requests::connect::response::ConnectResponseBody as AsJson
    open spec fn wf(&self) -> bool { true }
    open spec fn enc(&self) -> JV { jobj(Map::empty()) }
    open spec fn reads(j: JV, x: Self) -> bool { true }
    open spec fn refuses(&self) -> bool { false }

@impl rest_api::requests::disconnect::DisconnectRequest as AsJson
    open spec fn wf(&self) -> bool { self.0.wf() }
    open spec fn enc(&self) -> JV { self.0.enc() }
    open spec fn reads(j: JV, x: Self) -> bool { crate::rest_api::request::Request::reads(j, x.0) }
    open spec fn refuses(&self) -> bool { self.0.refuses() }

@impl rest_api::requests::disconnect::DisconnectResponse as AsJson
    open spec fn wf(&self) -> bool { self.0.wf() }
    open spec fn enc(&self) -> JV { self.0.enc() }
    open spec fn reads(j: JV, x: Self) -> bool { crate::rest_api::response::Response::reads(j, x.0) }
    open spec fn refuses(&self) -> bool { self.0.refuses() }

@impl rest_api::requests::disconnect::response::DisconnectResponseBody as AsJson
    open spec fn wf(&self) -> bool { true }
    open spec fn enc(&self) -> JV { jobj(Map::empty()) }
    open spec fn reads(j: JV, x: Self) -> bool { true }
    open spec fn refuses(&self) -> bool { false }

@impl rest_api::requests::lookup::LookupRequest as AsJson
    open spec fn wf(&self) -> bool { self.0.wf() }
    open spec fn enc(&self) -> JV { self.0.enc() }
    open spec fn reads(j: JV, x: Self) -> bool { crate::rest_api::request::Request::reads(j, x.0) }
    open spec fn refuses(&self) -> bool { self.0.refuses() }

@impl rest_api::requests::lookup::LookupResponse as AsJson
    open spec fn wf(&self) -> bool { self.0.wf() }
    open spec fn enc(&self) -> JV { self.0.enc() }
    open spec fn reads(j: JV, x: Self) -> bool { crate::rest_api::response::Response::reads(j, x.0) }
    open spec fn refuses(&self) -> bool { self.0.refuses() }

@impl rest_api::requests::poll::PollRequest as AsJson
    open spec fn wf(&self) -> bool { self.0.wf() }
    open spec fn enc(&self) -> JV { self.0.enc() }
    open spec fn reads(j: JV, x: Self) -> bool { crate::rest_api::request::Request::reads(j, x.0) }
    open spec fn refuses(&self) -> bool { self.0.refuses() }

@impl rest_api::requests::poll::PollResponse as AsJson
    open spec fn wf(&self) -> bool { self.0.wf() }
    open spec fn enc(&self) -> JV { self.0.enc() }
    open spec fn reads(j: JV, x: Self) -> bool { crate::rest_api::response::Response::reads(j, x.0) }
    open spec fn refuses(&self) -> bool { self.0.refuses() }

@impl rest_api::requests::send::SendRequest as AsJson
    open spec fn wf(&self) -> bool { self.0.wf() }
    open spec fn enc(&self) -> JV { self.0.enc() }
    open spec fn reads(j: JV, x: Self) -> bool { crate::rest_api::request::Request::reads(j, x.0) }
    open spec fn refuses(&self) -> bool { self.0.refuses() }

@impl rest_api::requests::send::SendResponse as AsJson
    open spec fn wf(&self) -> bool { self.0.wf() }
    open spec fn enc(&self) -> JV { self.0.enc() }
    open spec fn reads(j: JV, x: Self) -> bool { crate::rest_api::response::Response::reads(j, x.0) }
    open spec fn refuses(&self) -> bool { self.0.refuses() }

@impl rest_api::requests::send::response::SendResponseBody as AsJson
    open spec fn wf(&self) -> bool { true }
    open spec fn enc(&self) -> JV { jobj(Map::empty()) }
    open spec fn reads(j: JV, x: Self) -> bool { true }
    open spec fn refuses(&self) -> bool { false }

@impl rest_api::requests::disconnect::request::DisconnectRequestBody as AsJson
    open spec fn wf(&self) -> bool { true }
    open spec fn enc(&self) -> JV { jobj(Map::empty()) }
    open spec fn reads(j: JV, x: Self) -> bool { true }
    open spec fn refuses(&self) -> bool { false }

@impl rest_api::requests::announce::request::AnnounceRequestBody as AsJson
    open spec fn wf(&self) -> bool { match *self { AnnounceRequestBody::Client { client, server } => client.wf() && server.wf(), AnnounceRequestBody::Server { server } => server.wf() } }
    open spec fn enc(&self) -> JV { match *self { AnnounceRequestBody::Client { client, server } => jobj(map!["announce"@ => JV::Str("client"@), "client"@ => client.enc(), "server"@ => server.enc()]), AnnounceRequestBody::Server { server } => jobj(map!["announce"@ => JV::Str("server"@), "server"@ => server.enc()]) } }
    open spec fn reads(j: JV, x: Self) -> bool { match x { AnnounceRequestBody::Client { client, server } => jget(j, "announce"@) == Some(JV::Str("client"@)) && crate::rest_api::rd_sub(j, "client"@, client) && crate::rest_api::rd_sub(j, "server"@, server), AnnounceRequestBody::Server { server } => jget(j, "announce"@) == Some(JV::Str("server"@)) && crate::rest_api::rd_sub(j, "server"@, server) } }
    open spec fn refuses(&self) -> bool { false }

@impl rest_api::requests::connect::request::ConnectRequestBody as AsJson
    open spec fn wf(&self) -> bool { self.certificate.wf() && self.client.wf() }
    open spec fn enc(&self) -> JV { jobj(map!["certificate"@ => self.certificate.enc(), "client"@ => self.client.enc()]) }
    open spec fn reads(j: JV, x: Self) -> bool { crate::rest_api::rd_sub(j, "certificate"@, x.certificate) && crate::rest_api::rd_sub(j, "client"@, x.client) }
    open spec fn refuses(&self) -> bool { false }

@impl rest_api::requests::lookup::request::LookupRequestBody as AsJson
    open spec fn wf(&self) -> bool { true }
    open spec fn enc(&self) -> JV { jobj(map!["public_key"@ => crate::rest_api::jpk(self.public_key), "type"@ => match self.client_type { Some(t) => JV::Str(t.disp()), None => JV::Null }]) }
    open spec fn reads(j: JV, x: Self) -> bool { crate::rest_api::rd_pk(j, "public_key"@, x.public_key) && (match jget(j, "type"@) { Some(JV::Str(s)) => x.client_type is Some && crate::rest_api::types::client_type::ct_of(s) == x.client_type, _ => x.client_type is None }) }
    open spec fn refuses(&self) -> bool { false }

@impl rest_api::requests::lookup::response::LookupResponseBody as AsJson
    open spec fn wf(&self) -> bool { match *self { LookupResponseBody::Local { client, .. } => client.wf(), LookupResponseBody::Remote { client, server, .. } => client.wf() && server.wf(), LookupResponseBody::Hint { servers } => crate::rest_api::wfs(servers@) } }
    open spec fn enc(&self) -> JV { match *self { LookupResponseBody::Local { client, available } => jobj(map!["disposition"@ => JV::Str("local"@), "client"@ => client.enc(), "available"@ => JV::Bool(available)]), LookupResponseBody::Remote { client, server, available } => jobj(map!["disposition"@ => JV::Str("remote"@), "client"@ => client.enc(), "server"@ => server.enc(), "available"@ => JV::Bool(available)]), LookupResponseBody::Hint { servers } => jobj(map!["disposition"@ => JV::Str("hint"@), "servers"@ => jarr(crate::rest_api::encs(servers@))]) } }
    open spec fn reads(j: JV, x: Self) -> bool { match x { LookupResponseBody::Local { client, available } => jget(j, "disposition"@) == Some(JV::Str("local"@)) && crate::rest_api::rd_sub(j, "client"@, client) && crate::rest_api::rd_bool(j, "available"@, available), LookupResponseBody::Remote { client, server, available } => jget(j, "disposition"@) == Some(JV::Str("remote"@)) && crate::rest_api::rd_sub(j, "client"@, client) && crate::rest_api::rd_sub(j, "server"@, server) && crate::rest_api::rd_bool(j, "available"@, available), LookupResponseBody::Hint { servers } => jget(j, "disposition"@) == Some(JV::Str("hint"@)) && has(j, "servers"@) && crate::rest_api::rd_list(at(j, "servers"@), servers@) } }
    open spec fn refuses(&self) -> bool { false }

@impl rest_api::requests::poll::request::PollRequestBody as AsJson
    open spec fn wf(&self) -> bool { true }
    open spec fn enc(&self) -> JV { jobj(map!["channel"@ => JV::Str(self.channel@), "limit"@ => crate::rest_api::onum(self.limit)]) }
    open spec fn reads(j: JV, x: Self) -> bool { crate::rest_api::rd_str(j, "channel"@, x.channel) && crate::rest_api::rd_opt(j, "limit"@, x.limit) }
    open spec fn refuses(&self) -> bool { false }

@impl rest_api::requests::poll::response::PollResponseBody as AsJson
    open spec fn wf(&self) -> bool { crate::rest_api::wfs(self.messages@) }
    open spec fn enc(&self) -> JV { jobj(map!["messages"@ => jarr(crate::rest_api::encs(self.messages@)), "remaining"@ => JV::Num(self.remaining as int)]) }
    open spec fn reads(j: JV, x: Self) -> bool { has(j, "messages"@) && crate::rest_api::rd_list(at(j, "messages"@), x.messages@) && crate::rest_api::rd_num(j, "remaining"@, x.remaining) }
    open spec fn refuses(&self) -> bool { false }

@impl rest_api::requests::send::request::SendRequestBody as AsJson
    open spec fn wf(&self) -> bool { self.sender.wf() && self.message.wf() }
    open spec fn enc(&self) -> JV { jobj(map!["sender"@ => self.sender.enc(), "receiver"@ => jobj(map!["public_key"@ => crate::rest_api::jpk(self.receiver_public)]), "channel"@ => JV::Str(self.channel@), "message"@ => self.message.enc()]) }
    open spec fn reads(j: JV, x: Self) -> bool { crate::rest_api::rd_sub(j, "sender"@, x.sender) && has(j, "receiver"@) && crate::rest_api::rd_pk(at(j, "receiver"@), "public_key"@, x.receiver_public) && crate::rest_api::rd_str(j, "channel"@, x.channel) && crate::rest_api::rd_sub(j, "message"@, x.message) }
    open spec fn refuses(&self) -> bool { false }

@impl rest_api::requests::info::response::InfoResponse as AsJson
    open spec fn wf(&self) -> bool { self.standard == 1 }
    open spec fn enc(&self) -> JV { jobj(map!["standard"@ => JV::Num(self.standard as int), "server"@ => jobj(map!["public_key"@ => crate::rest_api::jpk(self.public_key)]), "proof"@ => jobj(map!["seed"@ => JV::Num(self.proof_seed as int), "sign"@ => crate::rest_api::jb64(self.proof_sign@)])]) }
    open spec fn reads(j: JV, x: Self) -> bool { crate::rest_api::is_standard(j, x.standard) && has(j, "server"@) && crate::rest_api::rd_pk(at(j, "server"@), "public_key"@, x.public_key) && has(j, "proof"@) && crate::rest_api::rd_num(at(j, "proof"@), "seed"@, x.proof_seed) && crate::rest_api::rd_b64(at(j, "proof"@), "sign"@, x.proof_sign) }
    open spec fn refuses(&self) -> bool { self.standard != 1 }

@impl rest_api::requests::clients::response::ClientsResponse as AsJson
    open spec fn wf(&self) -> bool { self.standard == 1 && crate::rest_api::wfs(self.clients@) }
    open spec fn enc(&self) -> JV { jobj(map!["standard"@ => JV::Num(self.standard as int), "clients"@ => jarr(crate::rest_api::encs(self.clients@))]) }
    open spec fn reads(j: JV, x: Self) -> bool { crate::rest_api::is_standard(j, x.standard) && has(j, "clients"@) && crate::rest_api::rd_list(at(j, "clients"@), x.clients@) }
    open spec fn refuses(&self) -> bool { self.standard != 1 }

@impl rest_api::requests::servers::response::ServersResponse as AsJson
    open spec fn wf(&self) -> bool { self.standard == 1 && crate::rest_api::wfs(self.servers@) }
    open spec fn enc(&self) -> JV { jobj(map!["standard"@ => JV::Num(self.standard as int), "servers"@ => jarr(crate::rest_api::encs(self.servers@))]) }
    open spec fn reads(j: JV, x: Self) -> bool { crate::rest_api::is_standard(j, x.standard) && has(j, "servers"@) && crate::rest_api::rd_list(at(j, "servers"@), x.servers@) }
    open spec fn refuses(&self) -> bool { self.standard != 1 }

@loop rest_api::requests::clients::response::ClientsResponse as AsJson::to_json | 0
    invariant_except_break vx_e0 is None, crate::rest_api::wrote_upto(self.clients@, vx_it0.pos(), vx_out0@)
    invariant crate::rest_api::it_of(vx_it0, self.clients@)
    ensures vx_e0 is None ==> crate::rest_api::wrote_upto(self.clients@, self.clients@.len() as int, vx_out0@), vx_e0 is Some ==> !crate::rest_api::wfs(self.clients@)
    decreases vx_it0.seq().len() - vx_it0.pos()
@begin rest_api::requests::clients::response::ClientsResponse as AsJson::to_json
    broadcast use crate::rest_api::json_lists;

@loop rest_api::requests::clients::response::ClientsResponse as AsJson::from_json | 0
    invariant_except_break vx_e0 is None, crate::rest_api::read_upto(at($0@, "clients"@), vx_it0.pos(), vx_out0@)
    invariant crate::rest_api::it_json(vx_it0, at($0@, "clients"@))
    ensures vx_e0 is None ==> crate::rest_api::read_upto(at($0@, "clients"@), at($0@, "clients"@)->Arr_0.len() as int, vx_out0@), vx_e0 is Some ==> crate::rest_api::no_list::<Client>(at($0@, "clients"@))
    decreases vx_it0.seq().len() - vx_it0.pos()
@begin rest_api::requests::clients::response::ClientsResponse as AsJson::from_json
    broadcast use crate::rest_api::json_lists;

@loop rest_api::requests::servers::response::ServersResponse as AsJson::to_json | 0
    invariant_except_break vx_e0 is None, crate::rest_api::wrote_upto(self.servers@, vx_it0.pos(), vx_out0@)
    invariant crate::rest_api::it_of(vx_it0, self.servers@)
    ensures vx_e0 is None ==> crate::rest_api::wrote_upto(self.servers@, self.servers@.len() as int, vx_out0@), vx_e0 is Some ==> !crate::rest_api::wfs(self.servers@)
    decreases vx_it0.seq().len() - vx_it0.pos()
@begin rest_api::requests::servers::response::ServersResponse as AsJson::to_json
    broadcast use crate::rest_api::json_lists;

@loop rest_api::requests::servers::response::ServersResponse as AsJson::from_json | 0
    invariant_except_break vx_e0 is None, crate::rest_api::read_upto(at($0@, "servers"@), vx_it0.pos(), vx_out0@)
    invariant crate::rest_api::it_json(vx_it0, at($0@, "servers"@))
    ensures vx_e0 is None ==> crate::rest_api::read_upto(at($0@, "servers"@), at($0@, "servers"@)->Arr_0.len() as int, vx_out0@), vx_e0 is Some ==> crate::rest_api::no_list::<Server>(at($0@, "servers"@))
    decreases vx_it0.seq().len() - vx_it0.pos()
@begin rest_api::requests::servers::response::ServersResponse as AsJson::from_json
    broadcast use crate::rest_api::json_lists;

@loop rest_api::requests::lookup::response::LookupResponseBody as AsJson::to_json | 0
    invariant_except_break vx_e0 is None, crate::rest_api::wrote_upto(servers@, vx_it0.pos(), vx_out0@)
    invariant crate::rest_api::it_of(vx_it0, servers@)
    ensures vx_e0 is None ==> crate::rest_api::wrote_upto(servers@, servers@.len() as int, vx_out0@), vx_e0 is Some ==> !crate::rest_api::wfs(servers@)
    decreases vx_it0.seq().len() - vx_it0.pos()
@begin rest_api::requests::lookup::response::LookupResponseBody as AsJson::to_json
    broadcast use crate::rest_api::json_lists;

@loop rest_api::requests::lookup::response::LookupResponseBody as AsJson::from_json | 0
    invariant_except_break vx_e0 is None, crate::rest_api::read_upto(at($0@, "servers"@), vx_it0.pos(), vx_out0@)
    invariant crate::rest_api::it_json(vx_it0, at($0@, "servers"@))
    ensures vx_e0 is None ==> crate::rest_api::read_upto(at($0@, "servers"@), at($0@, "servers"@)->Arr_0.len() as int, vx_out0@), vx_e0 is Some ==> crate::rest_api::no_list::<Server>(at($0@, "servers"@))
    decreases vx_it0.seq().len() - vx_it0.pos()
@begin rest_api::requests::lookup::response::LookupResponseBody as AsJson::from_json
    broadcast use crate::rest_api::json_lists;

@loop rest_api::requests::poll::response::PollResponseBody as AsJson::to_json | 0
    invariant_except_break vx_e0 is None, crate::rest_api::wrote_upto(self.messages@, vx_it0.pos(), vx_out0@)
    invariant crate::rest_api::it_of(vx_it0, self.messages@)
    ensures vx_e0 is None ==> crate::rest_api::wrote_upto(self.messages@, self.messages@.len() as int, vx_out0@), vx_e0 is Some ==> !crate::rest_api::wfs(self.messages@)
    decreases vx_it0.seq().len() - vx_it0.pos()
@begin rest_api::requests::poll::response::PollResponseBody as AsJson::to_json
    broadcast use crate::rest_api::json_lists;

@loop rest_api::requests::poll::response::PollResponseBody as AsJson::from_json | 0
    invariant_except_break vx_e0 is None, crate::rest_api::read_upto(at($0@, "messages"@), vx_it0.pos(), vx_out0@)
    invariant crate::rest_api::it_json(vx_it0, at($0@, "messages"@))
    ensures vx_e0 is None ==> crate::rest_api::read_upto(at($0@, "messages"@), at($0@, "messages"@)->Arr_0.len() as int, vx_out0@), vx_e0 is Some ==> crate::rest_api::no_list::<MessageInfo>(at($0@, "messages"@))
    decreases vx_it0.seq().len() - vx_it0.pos()
@begin rest_api::requests::poll::response::PollResponseBody as AsJson::from_json
    broadcast use crate::rest_api::json_lists;

@mod rest_api::types::connection_token
use crate::crypto::asymmetric::pub_key;
pub open spec fn token_bytes(t: ConnectionToken) -> Seq<u8> { be64(t.auth_date) + sec1(t.public_key.0) }
/// the token some bytes denote
pub open spec fn token_of(b: Seq<u8>) -> Option<ConnectionToken> {
    if b.len() < 8 { None } else { match un_sec1(b.subrange(8, b.len() as int)) { Some(k) => Some(ConnectionToken { auth_date: un_be64(b.subrange(0, 8)), public_key: PublicKey(k) }), None => None } }
}
pub open spec fn rd_token(j: JV, k: Seq<char>, x: ConnectionToken) -> bool { has(j, k) && at(j, k) is Str && match un_b64(at(j, k)->Str_0) { Some(b) => token_of(b) == Some(x), None => false } }
pub broadcast proof fn lem_token(t: ConnectionToken) ensures token_of(#[trigger] token_bytes(t)) == Some(t), token_bytes(t).len() == 41
{
    broadcast use crate::ext::vx_group;
    assert(token_bytes(t).subrange(8, 41) =~= sec1(t.public_key.0));
    assert(token_bytes(t).subrange(0, 8) =~= be64(t.auth_date));
}
@fn rest_api::types::connection_token::ConnectionToken::new
    ensures r == (ConnectionToken { auth_date: $0, public_key: $1 })
@fn rest_api::types::connection_token::ConnectionToken::now
    ensures r.public_key == $0
@fn time::timestamp
@fn rest_api::types::connection_token::ConnectionToken::to_bytes
    ensures r@ =~= token_bytes(*self)
@fn rest_api::types::connection_token::ConnectionToken::from_bytes
    ensures match token_of($0.bv()) { Some(t) => r == Ok::<Self, CryptographyError>(t), None => r is Err }
@begin rest_api::types::connection_token::ConnectionToken::from_bytes
    broadcast use crate::crypto::asymmetric::lem_part;
@begin rest_api::types::connection_certificate::ConnectionCertificate as AsJson::from_json
    broadcast use crate::rest_api::types::connection_token::lem_token;
