# ---------------------------------------------------------------- encoding, encryption, compression
@mod crypto::encryption
/// what encrypting gives, and what decrypting gives back
pub open spec fn sealed(x: Encryption, d: Seq<u8>, k: Seq<u8>) -> Seq<u8> { match x { Encryption::None => d, Encryption::Aes256Gcm => seal(true, k, aes256_gcm::NONCE@, d), Encryption::ChaCha20Poly1305 => seal(false, k, chacha20_poly1305::NONCE@, d) } }
pub open spec fn unsealed(x: Encryption, d: Seq<u8>, k: Seq<u8>) -> Option<Seq<u8>> { match x { Encryption::None => Some(d), Encryption::Aes256Gcm => unseal(true, k, aes256_gcm::NONCE@, d), Encryption::ChaCha20Poly1305 => unseal(false, k, chacha20_poly1305::NONCE@, d) } }
@mod crypto::compression
pub open spec fn packed_as(x: Compression, d: Seq<u8>, p: Seq<u8>) -> bool { match x { Compression::None => p == d, Compression::Deflate => exists|n: u32| n <= 9 && p == #[trigger] crate::crypt::deflate(d, n), Compression::Brotli => exists|q: BrotliEncoderParams| brotli_sane(q) && p == #[trigger] crate::crypt::brotli(d, q) } }
pub open spec fn unpacked(x: Compression, p: Seq<u8>) -> Option<Seq<u8>> { match x { Compression::None => Some(p), Compression::Deflate => inflate(p), Compression::Brotli => un_brotli(p) } }
pub broadcast proof fn lem_packed(x: Compression, d: Seq<u8>, p: Seq<u8>) requires #[trigger] packed_as(x, d, p) ensures unpacked(x, p) == Some(d) { broadcast use crate::ext::vx_group; }

@fn crypto::encryption::aes256_gcm::encrypt
    ensures $0.bv().len() <= seal_max() ==> r is Ok, (r matches Ok(v) ==> v@ == seal(true, $1@, NONCE@, $0.bv()))
@fn crypto::encryption::aes256_gcm::decrypt
    ensures match unseal(true, $1@, NONCE@, $0.bv()) { Some(x) => (r matches Ok(v) && v@ == x), None => r is Err }
@fn crypto::encryption::chacha20_poly1305::encrypt
    ensures $0.bv().len() <= seal_max() ==> r is Ok, (r matches Ok(v) ==> v@ == seal(false, $1@, NONCE@, $0.bv()))
@fn crypto::encryption::chacha20_poly1305::decrypt
    ensures match unseal(false, $1@, NONCE@, $0.bv()) { Some(x) => (r matches Ok(v) && v@ == x), None => r is Err }
@fn crypto::encryption::Encryption::encrypt
    ensures $0.bv().len() <= seal_max() ==> r is Ok, (r matches Ok(v) ==> v@ == sealed(*self, $0.bv(), $1@) && unsealed(*self, v@, $1@) == Some($0.bv()))
@fn crypto::encryption::Encryption::decrypt
    ensures match unsealed(*self, $0.bv(), $1@) { Some(x) => (r matches Ok(v) && v@ == x), None => r is Err }

@fn crypto::compression::brotli::compress
    ensures (r matches Ok(v) && (exists|q: BrotliEncoderParams| brotli_sane(q) && v@ == #[trigger] crate::crypt::brotli($0.bv(), q)))
@begin crypto::compression::brotli::compress
    proof { assert forall|s: Seq<u8>| #[trigger] (Seq::<u8>::empty() + s) == s by { assert(Seq::<u8>::empty() + s =~= s); } }
@begin crypto::compression::brotli::decompress
    proof { assert forall|s: Seq<u8>| #[trigger] (Seq::<u8>::empty() + s) == s by { assert(Seq::<u8>::empty() + s =~= s); } }
@begin crypto::compression::deflate::compress
    proof { assert forall|s: Seq<u8>| #[trigger] (Seq::<u8>::empty() + s) == s by { assert(Seq::<u8>::empty() + s =~= s); } }
@begin crypto::compression::deflate::decompress
    proof { assert forall|s: Seq<u8>| #[trigger] (Seq::<u8>::empty() + s) == s by { assert(Seq::<u8>::empty() + s =~= s); } }
@fn crypto::compression::brotli::decompress
    ensures match un_brotli($0.bv()) { Some(x) => (r matches Ok(v) && v@ == x), None => r is Err }
@fn crypto::compression::deflate::compress
    ensures (r matches Ok(v) && (exists|n: u32| n <= 9 && v@ == #[trigger] crate::crypt::deflate($0.bv(), n)))
@fn crypto::compression::deflate::decompress
    ensures match inflate($0.bv()) { Some(x) => (r matches Ok(v) && v@ == x), None => r is Err }
@fn crypto::compression::brotli::BrotliEncoderParams as From<CompressionLevel>::from
    ensures brotli_sane(r)
@fn crypto::compression::deflate::Compression as From<CompressionLevel>::from
    ensures r.n <= 9
@fn crypto::compression::Compression::compress
    ensures (r matches Ok(v) && packed_as(*self, $0.bv(), v@) && unpacked(*self, v@) == Some($0.bv()))
@begin crypto::compression::Compression::compress
    broadcast use crate::crypto::compression::lem_packed;
@fn crypto::compression::Compression::decompress
    ensures match unpacked(*self, $0.bv()) { Some(x) => (r matches Ok(v) && v@ == x), None => r is Err }
@fn crypto::encoding::Encoding::encode
    ensures r@ == b64($0.bv())
@fn crypto::encoding::Encoding::decode
    ensures match un_b64($0.sv()) { Some(b) => (r matches Ok(v) && v@ == b), None => r is Err }

@mod rest_api::types::message_encoding
use crate::crypto::encryption::{sealed, unsealed};
use crate::crypto::compression::{packed_as, unpacked, lem_packed};
/// what a text stands for under an encoding and a key
pub open spec fn meant(m: MessageEncoding, s: Seq<char>, k: Seq<u8>) -> Option<Seq<u8>> {
    match un_b64(s) { Some(b) => match unsealed(m.encryption, b, k) { Some(c) => unpacked(m.compression, c), None => None }, None => None }
}
/// compressed as asked, then encrypted as asked, then encoded as asked
pub open spec fn conveys(m: MessageEncoding, d: Seq<u8>, k: Seq<u8>, s: Seq<char>) -> bool { exists|p: Seq<u8>| #[trigger] packed_as(m.compression, d, p) && s == b64(sealed(m.encryption, p, k)) }
pub broadcast proof fn lem_conveys(m: MessageEncoding, d: Seq<u8>, k: Seq<u8>, s: Seq<char>) requires #[trigger] conveys(m, d, k, s) ensures meant(m, s, k) == Some(d) { broadcast use crate::ext::vx_group, lem_packed; }
@fn rest_api::types::message_encoding::MessageEncoding::forward
    ensures (r matches Ok(s) ==> conveys(*self, $0.bv(), $1@, s@) && meant(*self, s@, $1@) == Some($0.bv())),
        (forall|p: Seq<u8>| #[trigger] packed_as(self.compression, $0.bv(), p) ==> p.len() <= seal_max()) ==> r is Ok
@begin rest_api::types::message_encoding::MessageEncoding::forward
    broadcast use crate::rest_api::types::message_encoding::lem_conveys;
@fn rest_api::types::message_encoding::MessageEncoding::backward
    ensures match meant(*self, $0.sv(), $1@) { Some(d) => (r matches Ok(v) && v@ == d), None => r is Err }
