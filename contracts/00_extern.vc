# names outside the crate and their counterparts in prelude.rs
@extern
tokio::fs::read_dir=crate::ext::fs_read_dir
tokio::fs::read_dir::read_dir=crate::ext::fs_read_dir
tokio::fs::rename=crate::ext::fs_rename
tokio::fs::rename::rename=crate::ext::fs_rename
tokio::fs::remove_file=crate::ext::fs_remove_file
tokio::fs::remove_file::remove_file=crate::ext::fs_remove_file
tokio::fs::read=crate::ext::fs_read
tokio::fs::read::read=crate::ext::fs_read
tokio::fs::write=crate::ext::fs_write
tokio::fs::write::write=crate::ext::fs_write
tokio::fs::create_dir_all=crate::ext::fs_create_dir_all
tokio::fs::create_dir_all::create_dir_all=crate::ext::fs_create_dir_all
std::path::PathBuf=crate::ext::PathBuf
std::path::Path=crate::ext::PathBuf
serde_json::to_vec=crate::ext::serde_to_vec
serde_json::Value=crate::ext::Json
serde_json::Error=crate::ext::SerdeJsonError
serde_json::to_value=crate::ext::serde_to_value
serde_json::from_slice=crate::ext::serde_from_slice
serde_json::from_str=crate::ext::serde_from_str
std::fmt::Formatter=crate::ext::Formatter
std::fmt::Error=crate::ext::FmtError
std::fmt::Result=Result<(), crate::ext::FmtError>!
base64::DecodeError=crate::crypt::DecodeError
base64::engine::GeneralPurpose=crate::crypt::GeneralPurpose
base64::engine::GeneralPurposeConfig=crate::crypt::GeneralPurposeConfig
base64::engine::general_purpose::GeneralPurpose=crate::crypt::GeneralPurpose
base64::engine::general_purpose::GeneralPurposeConfig=crate::crypt::GeneralPurposeConfig
base64::alphabet=crate::crypt
k256::PublicKey=crate::crypt::K256Public!
k256::SecretKey=crate::crypt::K256Secret!
k256::elliptic_curve::Error=crate::crypt::EcError
k256::elliptic_curve::PublicKey=crate::crypt::K256Public!
k256::elliptic_curve::SecretKey=crate::crypt::K256Secret!
k256::ecdsa::Error=crate::crypt::EcdsaError
k256::ecdsa::Signature=crate::crypt::Signature!
k256::ecdsa::VerifyingKey=crate::crypt::VerifyingKey!
k256::ecdsa::SigningKey=crate::crypt::SigningKey!
k256::ecdh::diffie_hellman=crate::crypt::diffie_hellman
k256::sha2::Sha256=crate::crypt::Sha256
rand_chacha::ChaCha20Rng=crate::crypt::ChaCha20Rng
std::sync::Arc=std::sync::Arc
std::boxed::Box=Box
std::vec::Vec=Vec
std::string::String=String
std::option::Option=Option
std::result::Result=Result
ecdsa::VerifyingKey=crate::crypt::VerifyingKey!
ecdsa::SigningKey=crate::crypt::SigningKey!
ecdsa::Signature=crate::crypt::Signature!
ecdsa::verifying::VerifyingKey=crate::crypt::VerifyingKey!
ecdsa::signing::SigningKey=crate::crypt::SigningKey!
rand_chacha::rand_core::CryptoRngCore=crate::crypt::CryptoRngCore
aes_gcm::Error=crate::crypt::AeadError
aes_gcm::Aes256Gcm=crate::crypt::Aes256Gcm
aes_gcm::Key=crate::crypt::AesKey
aes_gcm::Nonce=crate::crypt::AeadNonce!
aes_gcm::KeyInit=crate::crypt::KeyInit
aes_gcm::aead::Aead=crate::crypt::Aead
chacha20poly1305::Error=crate::crypt::AeadError
chacha20poly1305::ChaCha20Poly1305=crate::crypt::ChaCha20Poly1305
chacha20poly1305::Key=crate::crypt::AeadKey!
chacha20poly1305::Nonce=crate::crypt::AeadNonce!
chacha20poly1305::KeyInit=crate::crypt::KeyInit
chacha20poly1305::aead::Aead=crate::crypt::Aead
std::io::Result=crate::ext::IoResult
std::io::Error=crate::ext::IoError
brotli::BrotliCompress=crate::crypt::BrotliCompress
brotli::BrotliDecompress=crate::crypt::BrotliDecompress
brotli::enc::BrotliEncoderParams=crate::crypt::BrotliEncoderParams
flate2::Compression=crate::crypt::FlateLevel
flate2::write::DeflateEncoder=crate::crypt::DeflateEncoder!
flate2::write::DeflateDecoder=crate::crypt::DeflateDecoder!
std::time::SystemTime=crate::ext::SystemTime
std::time::UNIX_EPOCH=crate::ext::UNIX_EPOCH
std::time::Duration=crate::ext::Duration
std::time::SystemTimeError=crate::ext::SystemTimeError
std::sync::Mutex=crate::ext::Mutex
std::sync::PoisonError=crate::ext::PoisonError!
easy_upnp=crate::upnp
reqwest::Client=crate::web::Client
reqwest::Error=crate::web::Error
reqwest::Response=crate::web::Response
reqwest::StatusCode=crate::web::StatusCode
axum::Router=crate::web::Router!
axum::Error=crate::web::HttpError
axum::http::Error=crate::web::HttpError
axum::http::Response=crate::web::HttpResponse
axum::body::Bytes=crate::web::HttpBody
std::net::SocketAddr=crate::ext::SocketAddr
std::net::ToSocketAddrs=crate::web::VxAddrs
tokio::net::TcpListener=crate::web::TcpListener
axum::serve=crate::web::axum_serve
axum::serve::serve=crate::web::axum_serve
std::collections::VecDeque=crate::ext::VxDeque
std::collections::HashSet=crate::ext::VxSet
std::collections::BTreeSet=crate::ext::VxSet
std::collections::HashMap=crate::ext::VxMap
std::collections::BTreeMap=crate::ext::VxMap
@effect tokio::fs::create_dir_all
@effect tokio::fs::write
@effect tokio::fs::read
@effect tokio::fs::remove_file
@effect tokio::fs::rename
@effect tokio::fs::read_dir
@effect axum::serve
@effect axum::serve::serve
@effect reqwest::RequestBuilder::send
