# ---------------------------------------------------------------- base 64
@fn crypto::encoding::base64::BASE64
    ensures r.url_safe()
@fn crypto::encoding::base64::encode
    ensures r@ == b64($0.bv())
@fn crypto::encoding::base64::decode
    ensures match un_b64($0.sv()) { Some(b) => (r matches Ok(v) && v@ == b), None => r is Err }

# ---------------------------------------------------------------- keys
@mod crypto::asymmetric
pub open spec fn info64() -> Seq<u8> { HKDF_INFO@ }
/// what a public key answers for a signature: nothing when the text is no signature at all
pub open spec fn sig_answer(pk: PublicKey, msg: Seq<u8>, sig: Seq<u8>) -> Option<bool> { match un_sig(sig) { Some(s) => Some(ecdsa_ok(pk.0, msg, s)), None => None } }
pub open spec fn signed(sk: SecretKey, msg: Seq<u8>) -> Seq<u8> { sig_bytes(ecdsa_sign(sk.0, msg)) }
pub open spec fn pub_key(sk: SecretKey) -> PublicKey { PublicKey(pub_of(sk.0)) }
pub open spec fn capsule(sig: Seq<u8>, msg: Seq<u8>) -> Seq<u8> { be64(sig.len() as u64) + sig + msg }
pub broadcast proof fn lem_capsule(s: Seq<u8>, m: Seq<u8>)
    requires s.len() <= u64::MAX
    ensures (#[trigger] capsule(s, m)).len() == 8 + s.len() + m.len(), capsule(s, m).subrange(0, 8) == be64(s.len() as u64),
        capsule(s, m).subrange(8, 8 + s.len() as int) == s, capsule(s, m).subrange(8 + s.len() as int, 8 + s.len() as int + m.len() as int) == m
{
    broadcast use crate::ext::vx_group;
    assert(capsule(s, m).subrange(0, 8) =~= be64(s.len() as u64));
    assert(capsule(s, m).subrange(8, 8 + s.len() as int) =~= s);
    assert(capsule(s, m).subrange(8 + s.len() as int, 8 + s.len() as int + m.len() as int) =~= m);
}
/// a part of a part is a part
pub broadcast proof fn lem_part(b: Seq<u8>, i: int, j: int, k: int, l: int)
    requires 0 <= i <= j <= b.len(), 0 <= k <= l <= j - i
    ensures #[trigger] b.subrange(i, j).subrange(k, l) == b.subrange(i + k, i + l)
{ assert(b.subrange(i, j).subrange(k, l) =~= b.subrange(i + k, i + l)); }
pub open spec fn cap_len(c: Seq<u8>) -> int { un_be64(c.subrange(0, 8)) as int }
pub open spec fn cap_sig(c: Seq<u8>) -> Seq<u8> { c.subrange(8, 8 + cap_len(c)) }
pub open spec fn cap_msg(c: Seq<u8>) -> Seq<u8> { c.subrange(8 + cap_len(c), c.len() as int) }
/// the key a base 64 text denotes
pub open spec fn pk_of_text(s: Seq<char>) -> Option<PublicKey> { match un_b64(s) { Some(b) => match un_sec1(b) { Some(k) => Some(PublicKey(k)), None => None }, None => None } }
pub open spec fn pk_text(k: PublicKey) -> Seq<char> { b64(sec1(k.0)) }
pub open spec fn sk_of_text(s: Seq<char>) -> Option<SecretKey> { match un_b64(s) { Some(b) => match un_sk_bytes(b) { Some(k) => Some(SecretKey(k)), None => None }, None => None } }
pub open spec fn sk_text(k: SecretKey) -> Seq<char> { b64(sk_bytes(k.0)) }

@fn crypto::asymmetric::public_key::PublicKey::to_bytes
    ensures r@ == sec1(self.0)
@fn crypto::asymmetric::public_key::PublicKey::from_bytes
    ensures match un_sec1($0.bv()) { Some(k) => r == Ok::<Self, CryptographyError>(PublicKey(k)), None => r is Err }
@fn crypto::asymmetric::public_key::PublicKey::to_base64
    ensures r@ == pk_text(*self)
@fn crypto::asymmetric::public_key::PublicKey::from_base64
    ensures match pk_of_text($0.sv()) { Some(k) => r == Ok::<Self, CryptographyError>(k), None => r is Err }
@fn crypto::asymmetric::public_key::PublicKey::verify_signature
    ensures match sig_answer(*self, $0.bv(), $1.bv()) { Some(b) => r == Ok::<bool, CryptographyError>(b), None => r is Err }
@fn crypto::asymmetric::public_key::PublicKey::decode_encapsulated_signature
    ensures
        // a message is only ever given back under the signature that came with it
        (r matches Ok(Some(m)) ==> $0.bv().len() >= 8 + cap_len($0.bv()) && m@ == cap_msg($0.bv()) && sig_answer(*self, m@, cap_sig($0.bv())) == Some(true)),
        // every capsule whose length prefix is right is taken apart as it was put together
        forall|s: Seq<u8>, m: Seq<u8>| s.len() <= u64::MAX && $0.bv() == #[trigger] crate::crypto::asymmetric::capsule(s, m) ==>
            match sig_answer(*self, m, s) { None => r is Err, Some(true) => (r matches Ok(Some(x)) && x@ == m), Some(false) => r == Ok::<Option<Vec<u8>>, CryptographyError>(None) },
@begin crypto::asymmetric::public_key::PublicKey::decode_encapsulated_signature
    broadcast use crate::crypto::asymmetric::lem_capsule; broadcast use crate::crypto::asymmetric::lem_part;

@impl crypto::asymmetric::public_key::PublicKey as From<k256::PublicKey>
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: crate::crypt::K256Public) -> PublicKey { PublicKey(v) }
@impl crypto::asymmetric::secret_key::SecretKey as From<k256::SecretKey>
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: crate::crypt::K256Secret) -> SecretKey { SecretKey(v) }

@fn crypto::asymmetric::secret_key::SecretKey::public_key
    ensures r == pub_key(*self)
@fn crypto::asymmetric::secret_key::SecretKey::serialize
    ensures r@ == sk_bytes(self.0)
@fn crypto::asymmetric::secret_key::SecretKey::deserialize
    ensures match un_sk_bytes($0.bv()) { Some(k) => r == Ok::<Self, CryptographyError>(SecretKey(k)), None => r is Err }
@fn crypto::asymmetric::secret_key::SecretKey::to_base64
    ensures r@ == sk_text(*self)
@fn crypto::asymmetric::secret_key::SecretKey::from_base64
    ensures match sk_of_text($0.sv()) { Some(k) => r == Ok::<Self, CryptographyError>(k), None => r is Err }
@fn crypto::asymmetric::secret_key::SecretKey::create_shared_secret
    ensures r@ == hkdf(dh(self.0, $0.0), oview($1), info64(), 32)
@fn crypto::asymmetric::secret_key::SecretKey::create_signature
    ensures r@ == signed(*self, $0.bv())
@fn crypto::asymmetric::secret_key::SecretKey::create_encapsulated_signature
    ensures r@ == capsule(signed(*self, $0.bv()), $0.bv())
@fn crypto::asymmetric::secret_key::SecretKey::random | crypto::asymmetric::secret_key::SecretKey::random_from
@fn crypto::utils::safe_random_u64
@fn crypto::utils::safe_random_u64_long
    ensures r >= 0x8000_0000_0000_0000u64
