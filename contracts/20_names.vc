# ---------------------------------------------------------------- names of algorithms and client types
@mod crypto::encoding
pub open spec fn enc_name(x: Encoding) -> Seq<char> { match x { Encoding::Base64 => "base64"@ } }
pub open spec fn enc_of(s: Seq<char>) -> Option<Encoding> { if s == "base64"@ { Some(Encoding::Base64) } else { None } }
@mod crypto::encryption
pub open spec fn cph_name(x: Encryption) -> Seq<char> { match x { Encryption::None => "plain"@, Encryption::Aes256Gcm => "aes256-gcm"@, Encryption::ChaCha20Poly1305 => "chacha20-poly1305"@ } }
pub open spec fn cph_of(s: Seq<char>) -> Option<Encryption> {
    if s == "none"@ || s == "plain"@ { Some(Encryption::None) } else if s == "aes256-gcm"@ { Some(Encryption::Aes256Gcm) } else if s == "chacha20-poly1305"@ { Some(Encryption::ChaCha20Poly1305) } else { None }
}
@mod crypto::compression
pub open spec fn cmp_name(x: Compression) -> Seq<char> { match x { Compression::None => "plain"@, Compression::Deflate => "deflate"@, Compression::Brotli => "brotli"@ } }
pub open spec fn cmp_of(s: Seq<char>) -> Option<Compression> {
    if s == "none"@ || s == "plain"@ { Some(Compression::None) } else if s == "deflate"@ { Some(Compression::Deflate) } else if s == "brotli"@ { Some(Compression::Brotli) } else { None }
}
@impl crypto::encoding::Encoding as Display
    open spec fn disp(&self) -> Seq<char> { enc_name(*self) }
@impl crypto::encryption::Encryption as Display
    open spec fn disp(&self) -> Seq<char> { cph_name(*self) }
@impl crypto::compression::Compression as Display
    open spec fn disp(&self) -> Seq<char> { cmp_name(*self) }
@impl rest_api::types::client_type::ClientType as Display
    open spec fn disp(&self) -> Seq<char> { ct_name(*self) }
@impl rest_api::types::message_encoding::MessageEncoding as Display
    open spec fn disp(&self) -> Seq<char> { me_name(*self) }
@fn crypto::encoding::Encoding as Display::fmt | crypto::encryption::Encryption as Display::fmt | crypto::compression::Compression as Display::fmt | rest_api::types::client_type::ClientType as Display::fmt | rest_api::types::message_encoding::MessageEncoding as Display::fmt
    ensures r is Ok, final($0).out@ =~= old($0).out@ + self.disp()
@fn crypto::encoding::Encoding as FromStr::from_str
    ensures match enc_of($0@) { Some(x) => r == Ok::<Self, Error>(x), None => r is Err }
@fn crypto::encryption::Encryption as FromStr::from_str
    ensures match cph_of($0@) { Some(x) => r == Ok::<Self, Error>(x), None => r is Err }
@fn crypto::compression::Compression as FromStr::from_str
    ensures match cmp_of($0@) { Some(x) => r == Ok::<Self, Error>(x), None => r is Err }

@mod rest_api::types::client_type
pub open spec fn ct_name(x: ClientType) -> Seq<char> { match x { ClientType::Thin => "thin"@, ClientType::Thick => "thick"@, ClientType::Server => "server"@, ClientType::File => "file"@ } }
pub open spec fn ct_of(s: Seq<char>) -> Option<ClientType> {
    if s == "thin"@ { Some(ClientType::Thin) } else if s == "thick"@ { Some(ClientType::Thick) } else if s == "server"@ { Some(ClientType::Server) } else if s == "file"@ { Some(ClientType::File) } else { None }
}
@fn rest_api::types::client_type::ClientType as FromStr::from_str
    ensures match ct_of($0@) { Some(x) => r == Ok::<Self, ()>(x), None => r is Err }

@mod rest_api::types::message_encoding
use crate::crypto::encoding::{enc_name, enc_of};
use crate::crypto::encryption::{cph_name, cph_of};
use crate::crypto::compression::{cmp_name, cmp_of};
/// what the parts of a name say
pub open spec fn me_of(p: Seq<Seq<char>>) -> Option<MessageEncoding> {
    if p.len() == 1 { match enc_of(p[0]) { Some(e) => Some(MessageEncoding { encoding: e, encryption: Encryption::None, compression: Compression::None }), None => None } }
    else if p.len() == 2 { match enc_of(p[0]) {
        Some(e) => match cph_of(p[1]) {
            Some(c) => Some(MessageEncoding { encoding: e, encryption: c, compression: Compression::None }),
            None => match cmp_of(p[1]) { Some(z) => Some(MessageEncoding { encoding: e, encryption: Encryption::None, compression: z }), None => None } },
        None => None } }
    else if p.len() == 3 { match (enc_of(p[0]), cph_of(p[1]), cmp_of(p[2])) { (Some(e), Some(c), Some(z)) => Some(MessageEncoding { encoding: e, encryption: c, compression: z }), _ => None } }
    else { None }
}
/// the parts of the name of an encoding
pub open spec fn me_parts(m: MessageEncoding) -> Seq<Seq<char>> {
    if m.encryption is None && m.compression is None { seq![enc_name(m.encoding)] }
    else if m.compression is None { seq![enc_name(m.encoding), cph_name(m.encryption)] }
    else if m.encryption is None { seq![enc_name(m.encoding), cmp_name(m.compression)] }
    else { seq![enc_name(m.encoding), cph_name(m.encryption), cmp_name(m.compression)] }
}
pub open spec fn me_name(m: MessageEncoding) -> Seq<char> {
    if m.encryption is None && m.compression is None { enc_name(m.encoding) }
    else if m.compression is None { enc_name(m.encoding) + "/"@ + cph_name(m.encryption) }
    else if m.encryption is None { enc_name(m.encoding) + "/"@ + cmp_name(m.compression) }
    else { enc_name(m.encoding) + "/"@ + cph_name(m.encryption) + "/"@ + cmp_name(m.compression) }
}
/// what a whole name says: the parts between its slashes
pub open spec fn me_text_is(s: Seq<char>, m: MessageEncoding) -> bool { exists|p: Seq<Seq<char>>| #[trigger] split1(p, '/', s) && me_of(p) == Some(m) }
pub broadcast proof fn lem_me(m: MessageEncoding, p: Seq<Seq<char>>)
    requires #[trigger] split1(p, '/', me_name(m))
    ensures me_of(p) == Some(m)
{
    let q = me_parts(m);
    crate::vx_lits();
    reveal_strlit("base64"); reveal_strlit("plain"); reveal_strlit("aes256-gcm"); reveal_strlit("chacha20-poly1305"); reveal_strlit("deflate"); reveal_strlit("brotli"); reveal_strlit("/"); reveal_strlit("none");
    assert("base64"@[0] == 'b' && "base64"@[1] == 'a'); assert("plain"@[0] == 'p'); assert("aes256-gcm"@[0] == 'a'); assert("chacha20-poly1305"@[0] == 'c'); assert("deflate"@[0] == 'd'); assert("brotli"@[0] == 'b' && "brotli"@[1] == 'r'); assert("none"@[0] == 'n');
    assert forall|i: int| 0 <= i < q.len() implies !(#[trigger] q[i]).contains('/') by {}
    reveal_with_fuel(join1, 4);
    assert(q.drop_last() =~= q.subrange(0, q.len() - 1));
    assert("/"@ =~= seq!['/']);
    if q.len() == 2 { assert(q.drop_last() =~= seq![q[0]]); }
    if q.len() == 3 { assert(q.drop_last() =~= seq![q[0], q[1]]); assert(q.drop_last().drop_last() =~= seq![q[0]]); }
    assert(join1(q, '/') =~= me_name(m));
    assert(split1(q, '/', me_name(m)));
    lem_split1(p, q, '/', me_name(m));
    assert(me_of(q) == Some(m));
}
@fn rest_api::types::message_encoding::MessageEncoding as FromStr::from_str
    ensures (r matches Ok(m) ==> me_text_is($0@, m)), forall|m: MessageEncoding| #[trigger] me_text_is($0@, m) ==> r == Ok::<Self, MessagesError>(m), forall|m: MessageEncoding| $0@ == #[trigger] me_name(m) ==> r == Ok::<Self, MessagesError>(m)
@begin rest_api::types::message_encoding::MessageEncoding as FromStr::from_str
    broadcast use lem_me, crate::ext::lem_split1_b;
@fn rest_api::types::message_encoding::MessageEncoding::new
    ensures r == (MessageEncoding { encoding: $0, encryption: $1, compression: $2 })

# ---------------------------------------------------------------- status codes
@mod rest_api::status
pub open spec fn code(s: ResponseStatus) -> u64 { match s {
    ResponseStatus::Success => 100, ResponseStatus::ServerError => 200, ResponseStatus::InvalidRequestStructure => 300, ResponseStatus::RequestValidationFailed => 301,
    ResponseStatus::ClientLookupTimeout => 310, ResponseStatus::ClientNotFound => 311, ResponseStatus::ClientNotConnected => 320, ResponseStatus::ClientInboxFull => 321, ResponseStatus::MessageTooLarge => 322 } }
pub open spec fn good(s: ResponseStatus) -> bool { 100 <= code(s) < 200 }
@fn rest_api::status::ResponseStatus::to_code
    ensures r == code(*self)
@fn rest_api::status::ResponseStatus::from_code
    ensures (r matches Some(s) ==> crate::rest_api::status::code(s) == $0), forall|s: ResponseStatus| #[trigger] crate::rest_api::status::code(s) == $0 ==> r == Some(s)
@fn rest_api::status::ResponseStatus::is_success
    ensures r == good(*self)
