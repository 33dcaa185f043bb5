//! Deterministic generators.
use hyperborealib::exports::rand_chacha::{rand_core::{RngCore, SeedableRng}, ChaCha20Rng};
use hyperborealib::prelude::*;
use serde_json::{json, Value as Json};

/// numbers and words worth trying, read off the code under test
static HINTS: std::sync::OnceLock<(Vec<u64>, Vec<String>)> = std::sync::OnceLock::new();
fn hints() -> &'static (Vec<u64>, Vec<String>) { HINTS.get_or_init(|| {
    let j: Json = std::env::var("VX_HINTS").ok().and_then(|p| std::fs::read(p).ok()).and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or_default();
    let a = |k: &str| j[k].as_array().cloned().unwrap_or_default();
    (a("numbers").iter().filter_map(Json::as_u64).collect(), a("words").iter().filter_map(|x| x.as_str().map(str::to_string)).collect())
}) }
/// the key with the same first coordinate
pub fn twin(k: &PublicKey) -> PublicKey { let mut b = k.to_bytes(); b[0] ^= 1; PublicKey::from_bytes(b).unwrap_or_else(|_| k.clone()) }
pub struct G { pub r: ChaCha20Rng, keys: Vec<PublicKey>, texts: Vec<String> }
impl G {
    /// a number near one the code mentions
    pub fn near(&mut self) -> Option<u64> {
        let h = &hints().0; if h.is_empty() || self.n(4) != 0 { return None }
        let x = *self.pick(h);
        Some(match self.n(12) { 0 => x.wrapping_sub(1), 1 => x.wrapping_add(1), 2 if x < 64 => 1 << x, 3 => x.wrapping_mul(2), 4 => { let k = self.n(9) as u64; x.wrapping_mul(k) } 5 => { let k = self.r.next_u64(); if x > 1 { k - k % x } else { x } } 6 => { let k = self.n(7) as u64; x.wrapping_add(k) } 7 => u64::MAX - x, _ => x })
    }
    /// now and then, a count near one the code mentions
    pub fn many(&mut self, most: usize) -> Option<usize> { if hints().0.is_empty() || self.n(6) != 0 { return None } for _ in 0..8 { if let Some(x) = self.near() { if x as usize <= most { return Some(x as usize) } } } None }
    /// a word the code mentions
    pub fn said(&mut self) -> Option<String> { let h = &hints().1; if h.is_empty() || self.n(4) != 0 { None } else { Some(self.pick(h).clone()) } }
    pub fn new(seed: u64) -> Self { G { r: ChaCha20Rng::seed_from_u64(seed), keys: vec![], texts: vec![] } }
    pub fn n(&mut self, k: usize) -> usize { (self.r.next_u64() % k.max(1) as u64) as usize }
    pub fn b(&mut self) -> bool { self.r.next_u32() & 1 == 1 }
    pub fn pick<'a, T>(&mut self, x: &'a [T]) -> &'a T { let i = self.n(x.len()); &x[i] }
    pub fn u64(&mut self) -> u64 {
        if let Some(x) = self.near() { return x }
        match self.n(12) { 10 | 11 => self.edge(), 0 => 0, 1 => 1, 2 => u64::MAX, 3 => (1 << 63) - 1, 4 => 1 << 63, 5 => (1 << 53) + 1, 6 => u32::MAX as u64 + 1, 7 => self.n(300) as u64, _ => self.r.next_u64() }
    }
    pub fn seed64(&mut self) -> u64 { if let Some(x) = self.near() { return x | (1 << 63) } match self.n(4) { 0 => 1 << 63, 1 => u64::MAX, 2 => (1 << 63) + 1, _ => self.r.next_u64() | (1 << 63) } }
    /// a number on some edge
    pub fn edge(&mut self) -> u64 { let e = *self.pick(&[8u32, 15, 16, 31, 32, 53, 62, 63, 64]); let x = if e == 64 { 0 } else { 1u64 << e }; let k = self.n(3) as u64; x.wrapping_sub(1).wrapping_add(k) }
    pub fn data(&mut self) -> Vec<u8> {
        let n = match self.n(16) { 0 => 0, 1 => 1, 2 => 7, 3 => 8, 4 => 9, 5 => 16, 6 => 31 + self.n(3), 7 => 63 + self.n(3), 8 => 255 + self.n(3), 9 => 1000 + self.n(5000), 10 => 65535 + self.n(3), _ => self.n(200) };
        let n = self.near().filter(|x| *x < 300_000).map(|x| x as usize).unwrap_or(n);
        if let Some(w) = self.said() { return [w.into_bytes(), self.bytes(n % 40)].concat() }
        match self.n(5) { 0 => vec![0; n], 1 => vec![self.r.next_u32() as u8; n], 2 => (0..n).map(|i| (i % 251) as u8).collect(), 3 => b"lorem ipsum dolor sit amet ".iter().cycle().take(n).cloned().collect(), _ => { let mut v = vec![0; n]; self.r.fill_bytes(&mut v); v } }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { let mut v = vec![0; n]; self.r.fill_bytes(&mut v); v }
    pub fn text(&mut self) -> String { let t = self.known(9); let t = t.unwrap_or_else(|| self.text_()); self.keep(&t); t }
    fn known(&mut self, odds: usize) -> Option<String> {
        if self.texts.is_empty() || self.n(odds) != 0 { return None }
        let i = self.n(self.texts.len()); let t = self.texts[i].clone();
        Some(if self.b() { t } else { self.vary(&t) })
    }
    fn keep(&mut self, t: &str) { if self.texts.len() < 60 && t.len() < 400 { self.texts.push(t.to_string()) } }
    fn text_(&mut self) -> String {
        const T: &[&str] = &["", "a", "default", "default channel", "/", "..", "../x", "a/b", "a/../b", "./a", "/etc/passwd", "index", "channel-", "1", "12345678901234567890", "\0", "nul\0in", "\"quoted\"", "back\\slash", "new\nline", "тест", "日本語チャンネル", "🦀", "e\u{301}", " spaced ", "A", "%2e%2e", "~", "con", "a.b", ".hidden", "a b", "null", "true", "{}", "[]", "AAAA", "AAAA=", "aGVsbG8", "😀/😀", "\u{feff}x", "_-", "+/", "a?b#c"];
        if let Some(w) = self.said() { let t = *self.pick(T); return match self.n(6) { 0 => format!("{w}{t}"), 1 => format!("{t}{w}"), 2 => format!("{w}{w}"), 3 => format!("{t}{w}{t}"), 4 => w.to_uppercase(), _ => w } }
        let most = if self.n(4) == 0 { 200_000 } else { 5000 };
        if let Some(x) = self.near().filter(|x| *x < most) { return (0..x).map(|_| (b'a' + self.n(26) as u8) as char).collect() }
        match self.n(8) { 0 => { let n = self.n(300); "x".repeat(n) } 1 => { let n = self.n(40); (0..n).map(|_| char::from_u32(self.r.next_u32() % 0x2000).unwrap_or('?')).collect() } 2 => { let a = *self.pick(T); let b = *self.pick(T); format!("{a}{b}") } _ => self.pick(T).to_string() }
    }
    pub fn word(&mut self) -> String { let n = self.near().filter(|x| 0 < *x && *x < 200).map(|x| x as usize).unwrap_or(1 + self.n(12)); (0..n).map(|_| *self.pick(b"abcdefghijklmnopqrstuvwxyz0123456789.-") as char).collect() }
    pub fn addr(&mut self) -> String { let t = self.known(7); let t = t.unwrap_or_else(|| self.addr_()); self.keep(&t); t }
    fn addr_(&mut self) -> String { if let Some(w) = self.said() { return match self.n(4) { 0 => w, 1 => format!("{w}{}", self.word()), 2 => format!("{}{w}", self.word()), _ => format!("{}{w}{}", self.word(), self.word()) } } if let Some(x) = self.near() { if self.b() { return format!("{}:{}", self.word(), x % 65536) } } match self.n(6) { 0 => format!("127.0.0.1:{}", self.n(65536)), 1 => format!("[::1]:{}", self.n(65536)), 2 => format!("{}.org", self.word()), 3 => format!("{}.org:8001", self.word()), 4 => self.text(), _ => self.word() } }
    pub fn sk(&mut self) -> SecretKey { let k = SecretKey::random_from(&mut self.r); if self.keys.len() < 40 { self.keys.push(k.public_key()) } k }
    /// a key, now and then one that plays another part already
    pub fn pk(&mut self) -> PublicKey { if !self.keys.is_empty() && self.n(6) == 0 { let i = self.n(self.keys.len()); let k = self.keys[i].clone(); return if self.n(6) == 0 { twin(&k) } else { k } } self.sk().public_key() }
    /// a key that plays no other part
    pub fn newpk(&mut self) -> PublicKey { self.sk().public_key() }
    /// another key than this one: a fresh one, or the one with the same first coordinate
    pub fn other(&mut self, k: &PublicKey) -> PublicKey { if self.n(4) == 0 { twin(k) } else { self.newpk() } }
    /// a text that could be taken for this one
    pub fn vary(&mut self, t: &str) -> String {
        let n = t.chars().count();
        match self.n(20) {
            16 => { let by = *self.pick(&[0x100u32, 0x80, 0x10000]); t.chars().map(|c| char::from_u32(c as u32 + by).unwrap_or(c)).collect() }
            17 => { let (k, by) = (self.n(n.max(1)), *self.pick(&[0x100u32, 0x80, 0x10000])); t.chars().enumerate().map(|(i, c)| if i == k { char::from_u32(c as u32 + by).unwrap_or(c) } else { c }).collect() }
            18 => { let k = self.n(n + 1); t.chars().take(k).collect() }
            0 => format!("{t} "), 1 => format!(" {t}"), 2 => format!("{t}\n"), 3 => t.to_uppercase(), 4 => t.to_lowercase(), 5 => t.trim().into(), 6 => format!("{t}/"), 7 => format!("{t}\0"), 8 => format!("{t}."),
            9 => t.chars().take(n.saturating_sub(1)).collect(), 10 => t.chars().skip(1).collect(), 11 => t.replace('-', "_").replace(' ', "-"), 12 => format!("{t}{t}"), 13 => { let c = *self.pick(&['a', 'A', '1', '=', ':', '/', '-', '_', '.']); format!("{t}{c}") }
            14 => { let k = self.n(n.max(1)); t.chars().enumerate().map(|(i, c)| if i == k { char::from_u32(c as u32 ^ 1).unwrap_or('x') } else { c }).collect() }
            _ => { let k = self.n(n.max(1)); t.chars().enumerate().map(|(i, c)| if i == k { if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() } } else { c }).collect() }
        }
    }
    /// the same for bytes
    pub fn vary_bytes(&mut self, b: &[u8]) -> Vec<u8> {
        let mut v = b.to_vec(); let n = v.len();
        match self.n(10) { 0 => v.push(0), 1 => v.push(b'\n'), 2 => { v.pop(); } 3 => { if n > 0 { v.remove(0); } } 4 => v.insert(0, 0), 5 => { if n > 0 { let k = self.n(n); v[k] ^= 1 << self.n(8) } } 6 => v.extend_from_slice(b), 7 => v.truncate(64), 8 => v.reverse(), _ => { if n > 1 { let k = self.n(n - 1); v.swap(k, k + 1) } } }
        v
    }
    pub fn ctype(&mut self) -> ClientType { *self.pick(&[ClientType::Thin, ClientType::Thick, ClientType::Server, ClientType::File]) }
    pub fn octype(&mut self) -> Option<ClientType> { if self.n(3) == 0 { None } else { Some(self.ctype()) } }
    pub fn info(&mut self) -> ClientInfo { let t = self.ctype(); let a = if self.b() { Some(self.addr()) } else { None }; ClientInfo { client_type: t, address: a } }
    pub fn token(&mut self) -> ConnectionToken { let d = self.u64(); ConnectionToken { auth_date: d, public_key: self.pk() } }
    pub fn cert(&mut self) -> ConnectionCertificate {
        if self.n(4) == 0 { let s = self.sk(); let p = self.pk(); ConnectionCertificate::new(&s, p) }
        else { let token = self.token(); let n = *self.pick(&[0, 1, 64, 70]); ConnectionCertificate { token, sign: self.bytes(n) } }
    }
    pub fn client(&mut self) -> Client { Client { public_key: self.pk(), certificate: self.cert(), info: self.info() } }
    pub fn server(&mut self) -> Server { let k = self.pk(); let a = self.addr(); Server { public_key: k, address: a } }
    pub fn sender(&mut self) -> Sender { Sender { client: self.client(), server: self.server() } }
    pub fn enc(&mut self) -> MessageEncoding { MessageEncoding { encoding: Encoding::Base64, encryption: *self.pick(&[Encryption::None, Encryption::Aes256Gcm, Encryption::ChaCha20Poly1305]), compression: *self.pick(&[Compression::None, Compression::Deflate, Compression::Brotli]) } }
    pub fn level(&mut self) -> CompressionLevel { *self.pick(&[CompressionLevel::Fast, CompressionLevel::Balanced, CompressionLevel::Quality]) }
    pub fn message(&mut self) -> Message { Message { content: self.text(), sign: self.text(), encoding: self.enc() } }
    pub fn msginfo(&mut self) -> MessageInfo { MessageInfo { sender: self.sender(), channel: self.text(), message: self.message(), received_at: self.u64() } }
    pub fn list<T: Clone>(&mut self, f: impl Fn(&mut G) -> T) -> Vec<T> { let n = self.many(400).unwrap_or(if self.n(150) == 0 { 20 + self.n(150) } else { *self.pick(&[0, 1, 1, 2, 3, 5]) }); let mut v: Vec<T> = vec![]; let again = self.n(4) == 0;
        // now and then the same thing twice
        while v.len() < n { if again && !v.is_empty() && self.n(4) == 0 { let i = if self.b() { v.len() - 1 } else { self.n(v.len()) }; v.push(v[i].clone()) } else { v.push(f(self)) } } v }
    pub fn ostatus(&mut self) -> ResponseStatus { *self.pick(&STATUSES[1..]) }
    pub fn req<T>(&mut self, body: T) -> Request<T> {
        if self.b() { let s = self.sk(); Request::new(&s, body) }
        else { let n = *self.pick(&[0, 3, 32, 64, 65, 73, 100, 300]); Request { standard: 1, public_key: self.pk(), proof_seed: self.u64(), proof_sign: self.bytes(n), request: body } }
    }
    pub fn resp<T>(&mut self, body: T) -> Response<T> {
        if self.b() { let n = *self.pick(&[0, 3, 32, 64, 65, 73, 100, 300]); Response::Success { standard: 1, status: ResponseStatus::Success, public_key: self.pk(), proof_sign: self.bytes(n), response: body } }
        else { Response::Error { standard: 1, status: self.ostatus(), reason: self.text() } }
    }
    pub fn lookup_body(&mut self) -> LookupResponseBody { match self.n(3) { 0 => LookupResponseBody::Local { client: self.client(), available: self.b() }, 1 => LookupResponseBody::Remote { client: self.client(), server: self.server(), available: self.b() }, _ => LookupResponseBody::Hint { servers: self.list(|g| g.server()) } } }
    pub fn announce_body(&mut self) -> AnnounceRequestBody { if self.b() { AnnounceRequestBody::Client { client: self.client(), server: self.server() } } else { AnnounceRequestBody::Server { server: self.server() } } }
    /// a JSON value of some other kind, or of the same kind and wrong
    pub fn junk(&mut self) -> Json {
        match self.n(16) { 0 => Json::Null, 1 => json!(true), 2 => json!(0), 3 => json!(-1), 4 => json!(1.5), 5 => json!(u64::MAX), 6 => json!([]), 7 => json!({}), 8 => json!(""), 9 => json!([1, [2], {"a": 3}]), 10 => json!({"standard": 1}), 11 => json!(self.text()),
            12 => { let n = self.n(80); json!(base64_encode(self.bytes(n))) } 13 => { let n = *self.pick(&[33, 41, 64, 7, 8, 40]); json!(base64_encode(self.bytes(n))) } 14 => { let mut v = self.bytes(33); v[0] = 2 + (v[0] & 1); json!(base64_encode(v)) } _ => json!(self.u64()) }
    }
    pub fn paths(j: &Json, at: Vec<String>, out: &mut Vec<Vec<String>>) {
        match j {
            Json::Object(m) => for (k, v) in m { let mut p = at.clone(); p.push(k.clone()); out.push(p.clone()); Self::paths(v, p, out); },
            Json::Array(a) => for (i, v) in a.iter().enumerate() { let mut p = at.clone(); p.push(i.to_string()); out.push(p.clone()); Self::paths(v, p, out); },
            _ => ()
        }
    }
    pub fn node<'a>(j: &'a mut Json, p: &[String]) -> &'a mut Json { let mut c = j; for k in p { c = if c.is_array() { &mut c[k.parse::<usize>().unwrap()] } else { &mut c[k.as_str()] } } c }
    /// change one place of a document; gives the place
    pub fn mutate(&mut self, j: &mut Json) -> String {
        let mut ps = vec![]; Self::paths(j, vec![], &mut ps);
        if ps.is_empty() || self.n(20) == 0 { *j = self.junk(); return "/".into() }
        let p = self.pick(&ps).clone(); let (last, up) = p.split_last().unwrap();
        let name = p.join("/");
        if self.n(3) == 0 { if let Json::Object(m) = Self::node(j, up) { m.remove(last); } }
        else {
            let v = Self::node(j, &p).clone();
            let w = match (&v, self.n(3)) { (Json::String(s), 0) => { let mut c: Vec<char> = s.chars().collect(); let k = self.n(c.len() + 1); match self.n(3) { 0 => c.truncate(k), 1 if k < c.len() => c[k] = *self.pick(&['A', '_', '=', '/', 'é']), _ => c.insert(k, 'A') } json!(c.into_iter().collect::<String>()) } _ => self.junk() };
            *Self::node(j, &p) = w;
        }
        name
    }
}
pub const STATUSES: [ResponseStatus; 9] = [ResponseStatus::Success, ResponseStatus::ServerError, ResponseStatus::InvalidRequestStructure, ResponseStatus::RequestValidationFailed, ResponseStatus::ClientLookupTimeout, ResponseStatus::ClientNotFound, ResponseStatus::ClientNotConnected, ResponseStatus::ClientInboxFull, ResponseStatus::MessageTooLarge];
