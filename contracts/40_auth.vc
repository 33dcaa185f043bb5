# ---------------------------------------------------------------- records
@fn rest_api::types::client::Client::new
    ensures r == (Client { public_key: $0, certificate: $1, info: $2 })
@fn rest_api::types::server::Server::new
    ensures r.public_key == $0, r.address@ == $1.disp()
@fn rest_api::types::sender::Sender::new
    ensures r == (Sender { client: $0, server: $1 })
@fn rest_api::types::client_info::ClientInfo as Default::default | rest_api::types::client_info::ClientInfo::thin
    ensures r.client_type is Thin, r.address is None
@fn rest_api::types::client_info::ClientInfo::new
    ensures r.client_type == $0, match $1 { Some(a) => (r.address matches Some(x) && x@ == a.disp()), None => r.address is None }
@fn rest_api::types::client_info::ClientInfo::thick
    ensures r.client_type is Thick, (r.address matches Some(x) && x@ == $0.disp())
@fn rest_api::types::client_info::ClientInfo::server
    ensures r.client_type is Server, (r.address matches Some(x) && x@ == $0.disp())
@fn rest_api::types::client_info::ClientInfo::file
    ensures r.client_type is File, (r.address matches Some(x) && x@ == $0.disp())
@fn rest_api::types::client_type::ClientType as Default::default
    ensures r is Thin
@fn rest_api::types::message_info::MessageInfo::new
    ensures r.sender == $0, r.channel@ == $1.disp(), r.message == $2, r.received_at == $3
@fn rest_api::types::message_info::MessageInfo::now
    ensures r.sender == $0, r.channel@ == $1.disp(), r.message == $2

# ---------------------------------------------------------------- certificates
@mod rest_api::types::connection_certificate
use crate::crypto::asymmetric::{sig_answer, signed, pub_key};
use crate::rest_api::types::connection_token::token_bytes;
/// the certificate binds this client to this server
pub open spec fn binds(c: ConnectionCertificate, client: PublicKey, server: PublicKey) -> bool { c.token.public_key == server && sig_answer(client, token_bytes(c.token), c.sign@) == Some(true) }
@fn rest_api::types::connection_certificate::ConnectionCertificate::new
    ensures r.token.public_key == $1, r.sign@ == signed(*$0, token_bytes(r.token)), binds(r, pub_key(*$0), $1)
@fn rest_api::types::connection_certificate::ConnectionCertificate::validate
    ensures r == Ok::<bool, CryptographyError>(true) <==> binds(*self, *$0, *$1), self.token.public_key != *$1 ==> r == Ok::<bool, CryptographyError>(false)

# ---------------------------------------------------------------- messages
@mod rest_api::types::message
use crate::crypto::asymmetric::{sig_answer, signed, pub_key, info64};
use crate::rest_api::types::message_encoding::{conveys, meant, lem_conveys};
/// the key two parties share
pub open spec fn secret_of(a: SecretKey, b: PublicKey) -> Seq<u8> { hkdf(dh(a.0, b.0), None, info64(), 32) }
@fn rest_api::types::message::Message::new
    ensures r.content@ == $0.disp(), r.sign@ == $1.disp(), r.encoding == $2
@fn rest_api::types::message::Message::create
    ensures
        (r matches Ok(m) ==> m.encoding == $3 && conveys($3, $2.bv(), secret_of(*$0, *$1), m.content@) && conveys($3, signed(*$0, $2.bv()), secret_of(*$0, *$1), m.sign@)),
        (forall|p: Seq<u8>| #[trigger] crate::crypto::compression::packed_as($3.compression, $2.bv(), p) ==> p.len() <= seal_max()) && (forall|p: Seq<u8>| #[trigger] crate::crypto::compression::packed_as($3.compression, signed(*$0, $2.bv()), p) ==> p.len() <= seal_max()) ==> r is Ok
@fn rest_api::types::message::Message::read
    ensures
        // nothing is given back but what its signature covers
        (r matches Ok(d) ==> meant(self.encoding, self.content@, secret_of(*$0, *$1)) == Some(d@) && (meant(self.encoding, self.sign@, secret_of(*$0, *$1)) matches Some(s) && sig_answer(*$1, d@, s) == Some(true))),
        // what the sender sealed for the receiver opens to the sealed data
        forall|sk: SecretKey, d: Seq<u8>| *$1 == pub_key(sk) && #[trigger] conveys(self.encoding, d, secret_of(sk, pub_key(*$0)), self.content@) && conveys(self.encoding, #[trigger] signed(sk, d), secret_of(sk, pub_key(*$0)), self.sign@) ==> (r matches Ok(x) && x@ == d),
@begin rest_api::types::message::Message::read
    broadcast use crate::rest_api::types::message_encoding::lem_conveys;

# ---------------------------------------------------------------- proofs
@mod rest_api::request
use crate::crypto::asymmetric::{sig_answer, signed, pub_key};
/// what a proof of work over a seed answers: nothing for a seed that is too small or a text that is no signature
pub open spec fn proof_of(pk: PublicKey, seed: u64, sig: Seq<u8>) -> Option<bool> { if seed < 0x8000_0000_0000_0000u64 { None } else { sig_answer(pk, be64(seed), sig) } }
pub open spec fn authentic<T>(r: Request<T>) -> bool { proof_of(r.public_key, r.proof_seed, r.proof_sign@) == Some(true) }
/// a request as its sender builds it
pub open spec fn built<T>(r: Request<T>, sk: SecretKey) -> bool { r.standard == 1 && r.public_key == pub_key(sk) && r.proof_seed >= 0x8000_0000_0000_0000u64 && r.proof_sign@ == signed(sk, be64(r.proof_seed)) && authentic(r) }
@fn rest_api::request::Request::new
    ensures built(r, *$0), r.request == $1
@fn rest_api::request::Request::validate
    ensures r == Ok::<bool, ValidationError>(true) <==> authentic(*self), self.proof_seed < 0x8000_0000_0000_0000u64 ==> r is Err

@mod rest_api::response
use crate::crypto::asymmetric::{sig_answer, signed, pub_key};
use crate::rest_api::request::proof_of;
pub open spec fn trusted<T>(r: Response<T>, seed: u64) -> bool { match r { Response::Success { public_key, proof_sign, .. } => proof_of(public_key, seed, proof_sign@) == Some(true), Response::Error { .. } => true } }
/// a success as the server with this key answers a request with this seed
pub open spec fn answers<T>(r: Response<T>, st: ResponseStatus, sk: SecretKey, seed: u64) -> bool {
    &&& r matches Response::Success { standard, status, public_key, proof_sign, .. } && standard == 1 && status == st && public_key == pub_key(sk) && proof_sign@ == signed(sk, be64(seed))
    &&& seed >= 0x8000_0000_0000_0000u64 ==> trusted(r, seed)
}
pub open spec fn fails<T>(r: Response<T>, st: ResponseStatus, why: Seq<char>) -> bool { r matches Response::Error { standard, status, reason } && standard == 1 && status == st && reason@ == why }
pub open spec fn body<T>(r: Response<T>) -> T { r->Success_response }
@fn rest_api::response::Response::success
    ensures (r matches Response::Success { standard, status, public_key, proof_sign, response } && standard == 1 && status == $0 && public_key == $1 && proof_sign@ == $2.into_spec()@ && response == $3)
@fn rest_api::response::Response::error
    ensures fails(r, $0, $1.disp())
@fn rest_api::response::Response::standard
    ensures match *self { Response::Success { standard, .. } => r == standard, Response::Error { standard, .. } => r == standard }
@fn rest_api::response::Response::status
    ensures match *self { Response::Success { status, .. } => r == status, Response::Error { status, .. } => r == status }
@fn rest_api::response::Response::validate
    ensures r == Ok::<bool, ValidationError>(true) <==> trusted(*self, $0), *self is Success && $0 < 0x8000_0000_0000_0000u64 ==> r is Err

# ---------------------------------------------------------------- announce
@mod rest_api::requests::announce
use crate::rest_api::request::{authentic, built};
use crate::rest_api::response::{trusted, answers, fails, body};
use crate::rest_api::types::connection_certificate::binds;
pub open spec fn announce_valid(q: AnnounceRequest) -> bool { authentic(q.0) && match q.0.request { AnnounceRequestBody::Client { client, server } => binds(client.certificate, client.public_key, server.public_key), AnnounceRequestBody::Server { .. } => true } }
@fn rest_api::requests::announce::request::AnnounceRequestBody::client
    ensures r == (AnnounceRequestBody::Client { client: $0, server: $1 })
@fn rest_api::requests::announce::request::AnnounceRequestBody::server
    ensures r == (AnnounceRequestBody::Server { server: $0 })
@fn rest_api::requests::announce::AnnounceRequest::client
    ensures built(r.0, *$0), r.0.request == (AnnounceRequestBody::Client { client: $1, server: $2 })
@fn rest_api::requests::announce::AnnounceRequest::server
    ensures built(r.0, *$0), r.0.request == (AnnounceRequestBody::Server { server: $1 })
@fn rest_api::requests::announce::AnnounceRequest::validate
    ensures r == Ok::<bool, ValidationError>(true) <==> announce_valid(*self)
@fn rest_api::requests::connect::request::ConnectRequestBody::new
    ensures r.certificate.token.public_key == $1, crate::rest_api::types::connection_certificate::binds(r.certificate, pub_key(*$0), $1), r.client == $2
@mod rest_api::requests::connect::request
use crate::crypto::asymmetric::pub_key;
@fn rest_api::requests::connect::request::ConnectRequestBody::from_certificate
    ensures r == (ConnectRequestBody { client: $0, certificate: $1 })
@mod rest_api::requests::connect
use crate::rest_api::types::connection_certificate::binds;
use crate::crypto::asymmetric::pub_key;
pub open spec fn connect_valid(q: ConnectRequest, server: PublicKey) -> bool { authentic(q.0) && binds(q.0.request.certificate, q.0.public_key, server) }
@fn rest_api::requests::connect::ConnectRequest::new
    ensures built(r.0, *$0), r.0.request.client == $2, binds(r.0.request.certificate, pub_key(*$0), $1), connect_valid(r, $1)
@fn rest_api::requests::connect::ConnectRequest::validate
    ensures r == Ok::<bool, ValidationError>(true) <==> connect_valid(*self, *$0)
@fn rest_api::requests::lookup::request::LookupRequestBody::new
    ensures r == (LookupRequestBody { public_key: $0, client_type: $1 })
@fn rest_api::requests::lookup::LookupRequest::new
    ensures built(r.0, *$0), r.0.request == (LookupRequestBody { public_key: $1, client_type: $2 })
@fn rest_api::requests::lookup::response::LookupResponseBody::local
    ensures r == (LookupResponseBody::Local { client: $0, available: $1 })
@fn rest_api::requests::lookup::response::LookupResponseBody::remote
    ensures r == (LookupResponseBody::Remote { client: $0, server: $1, available: $2 })
@fn rest_api::requests::lookup::response::LookupResponseBody::hint
    ensures (r matches LookupResponseBody::Hint { servers } && servers@ == $0.into_spec()@)
@fn rest_api::requests::poll::request::PollRequestBody::new
    ensures r.channel@ == $0.disp(), r.limit == $1
@fn rest_api::requests::poll::PollRequest::new
    ensures built(r.0, *$0), r.0.request.channel@ == $1.disp(), r.0.request.limit == $2
@fn rest_api::requests::poll::response::PollResponseBody::new
    ensures r.messages@ == $0.into_spec()@, r.remaining == $1
@fn rest_api::requests::send::request::SendRequestBody::new
    ensures r.sender == $0, r.receiver_public == $1, r.channel@ == $2.disp(), r.message == $3
@fn rest_api::requests::send::SendRequest::new
    ensures built(r.0, *$0), r.0.request.sender == $1, r.0.request.receiver_public == $2, r.0.request.channel@ == $3.disp(), r.0.request.message == $4
@fn rest_api::requests::disconnect::DisconnectRequest::new
    ensures built(r.0, *$0)
@fn rest_api::requests::clients::response::ClientsResponse::new
    ensures r.standard == 1, r.clients@ == $0.into_spec()@
@fn rest_api::requests::servers::response::ServersResponse::new
    ensures r.standard == 1, r.servers@ == $0.into_spec()@
@mod rest_api::requests::info::response
use crate::rest_api::request::proof_of;
use crate::crypto::asymmetric::{pub_key, signed};
pub open spec fn info_valid(q: InfoResponse) -> bool { proof_of(q.public_key, q.proof_seed, q.proof_sign@) == Some(true) }
@fn rest_api::requests::info::response::InfoResponse::new
    ensures r.standard == 1, r.public_key == pub_key(*$0), r.proof_seed >= 0x8000_0000_0000_0000u64, r.proof_sign@ == signed(*$0, be64(r.proof_seed)), info_valid(r)
@fn rest_api::requests::info::response::InfoResponse::validate
    ensures r == Ok::<bool, ValidationError>(true) <==> info_valid(*self), self.proof_seed < 0x8000_0000_0000_0000u64 ==> r is Err
@fn rest_api::requests::announce::AnnounceResponse::success
    ensures answers(r.0, $0, *$1, $2)
@fn rest_api::requests::announce::AnnounceResponse::error
    ensures fails(r.0, $0, $1.disp())
@fn rest_api::requests::announce::AnnounceResponse::validate
    ensures r == Ok::<bool, ValidationError>(true) <==> trusted(self.0, $0), self.0 is Success && $0 < 0x8000_0000_0000_0000u64 ==> r is Err
@mod rest_api::requests::connect
use crate::rest_api::request::{authentic, built};
use crate::rest_api::response::{trusted, answers, fails, body};
@fn rest_api::requests::connect::ConnectResponse::success
    ensures answers(r.0, $0, *$1, $2)
@fn rest_api::requests::connect::ConnectResponse::error
    ensures fails(r.0, $0, $1.disp())
@fn rest_api::requests::connect::ConnectResponse::validate
    ensures r == Ok::<bool, ValidationError>(true) <==> trusted(self.0, $0), self.0 is Success && $0 < 0x8000_0000_0000_0000u64 ==> r is Err
@mod rest_api::requests::disconnect
use crate::rest_api::request::{authentic, built};
use crate::rest_api::response::{trusted, answers, fails, body};
@fn rest_api::requests::disconnect::DisconnectResponse::success
    ensures answers(r.0, $0, *$1, $2)
@fn rest_api::requests::disconnect::DisconnectResponse::error
    ensures fails(r.0, $0, $1.disp())
@fn rest_api::requests::disconnect::DisconnectResponse::validate
    ensures r == Ok::<bool, ValidationError>(true) <==> trusted(self.0, $0), self.0 is Success && $0 < 0x8000_0000_0000_0000u64 ==> r is Err
@fn rest_api::requests::disconnect::DisconnectRequest::validate
    ensures r == Ok::<bool, ValidationError>(true) <==> authentic(self.0)
@mod rest_api::requests::lookup
use crate::rest_api::request::{authentic, built};
use crate::rest_api::response::{trusted, answers, fails, body};
@fn rest_api::requests::lookup::LookupResponse::success
    ensures answers(r.0, $0, *$1, $2), body(r.0) == $3
@fn rest_api::requests::lookup::LookupResponse::error
    ensures fails(r.0, $0, $1.disp())
@fn rest_api::requests::lookup::LookupResponse::validate
    ensures r == Ok::<bool, ValidationError>(true) <==> trusted(self.0, $0), self.0 is Success && $0 < 0x8000_0000_0000_0000u64 ==> r is Err
@fn rest_api::requests::lookup::LookupRequest::validate
    ensures r == Ok::<bool, ValidationError>(true) <==> authentic(self.0)
@mod rest_api::requests::poll
use crate::rest_api::request::{authentic, built};
use crate::rest_api::response::{trusted, answers, fails, body};
@fn rest_api::requests::poll::PollResponse::success
    ensures answers(r.0, $0, *$1, $2), body(r.0) == $3
@fn rest_api::requests::poll::PollResponse::error
    ensures fails(r.0, $0, $1.disp())
@fn rest_api::requests::poll::PollResponse::validate
    ensures r == Ok::<bool, ValidationError>(true) <==> trusted(self.0, $0), self.0 is Success && $0 < 0x8000_0000_0000_0000u64 ==> r is Err
@fn rest_api::requests::poll::PollRequest::validate
    ensures r == Ok::<bool, ValidationError>(true) <==> authentic(self.0)
@mod rest_api::requests::send
use crate::rest_api::request::{authentic, built};
use crate::rest_api::response::{trusted, answers, fails, body};
@fn rest_api::requests::send::SendResponse::success
    ensures answers(r.0, $0, *$1, $2)
@fn rest_api::requests::send::SendResponse::error
    ensures fails(r.0, $0, $1.disp())
@fn rest_api::requests::send::SendResponse::validate
    ensures r == Ok::<bool, ValidationError>(true) <==> trusted(self.0, $0), self.0 is Success && $0 < 0x8000_0000_0000_0000u64 ==> r is Err
@fn rest_api::requests::send::SendRequest::validate
    ensures r == Ok::<bool, ValidationError>(true) <==> authentic(self.0)
