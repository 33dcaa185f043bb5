// Trusted base: the libraries the code stands on, as contracts. Everything marked external_body,
// uninterp or axiom in this file is assumed, and listed as such in the evidence.
pub mod ext {
use vstd::prelude::*;

// ------------------------------------------------------------------ text
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
pub uninterp spec fn un_utf8(b: Seq<u8>) -> Option<Seq<char>>;
pub broadcast axiom fn ax_utf8(s: Seq<char>) ensures un_utf8(#[trigger] utf8(s)) == Some(s);
pub broadcast axiom fn ax_utf8_back(b: Seq<u8>) ensures (#[trigger] un_utf8(b)) matches Some(s) ==> utf8(s) == b;
pub uninterp spec fn vx_string_of(s: Seq<char>) -> String;
pub broadcast axiom fn ax_string(s: String) ensures vx_string_of(#[trigger] s@) == s;
pub uninterp spec fn vx_vec_of<T>(s: Seq<T>) -> Vec<T>;
pub broadcast axiom fn ax_vec<T>(v: Vec<T>) ensures vx_vec_of(#[trigger] v@) == v;
pub uninterp spec fn vx_arr_of<T, const N: usize>(s: Seq<T>) -> [T; N];
pub broadcast axiom fn ax_arr<T, const N: usize>(v: [T; N]) ensures vx_arr_of::<T, N>(#[trigger] v@) == v;

pub trait VxStr { spec fn sv(&self) -> Seq<char>; fn vx_str(&self) -> (r: &str) ensures r@ == self.sv(); }
impl VxStr for str { open spec fn sv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_str(&self) -> (r: &str) { self } }
impl VxStr for String { open spec fn sv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_str(&self) -> (r: &str) { self } }
impl<T: VxStr + ?Sized> VxStr for &T { open spec fn sv(&self) -> Seq<char> { (**self).sv() } #[verifier::external_body] fn vx_str(&self) -> (r: &str) { unimplemented!() } }
#[verifier::external_body] pub fn vx_s<T: VxStr + ?Sized>(x: &T) -> (r: &str) ensures r@ == x.sv() { unimplemented!() }
#[verifier::external_body] pub fn vx_str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body] pub fn vx_string_from(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
#[verifier::external_body] pub fn vx_cat(a: String, b: &str) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body] pub fn vx_concat(a: &str, b: &str) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body] pub fn vx_push_str(a: &mut String, b: &str) ensures final(a)@ == old(a)@ + b@ { unimplemented!() }
pub uninterp spec fn str_len(s: Seq<char>) -> usize;
#[verifier::external_body] pub fn vx_str_len(s: &str) -> (r: usize) ensures r as int == utf8(s@).len() { s.len() }
#[verifier::external_body] pub fn vx_str_is_empty(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
pub open spec fn starts(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.subrange(0, p.len() as int) == p }
pub open spec fn ends(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.subrange(s.len() - p.len(), s.len() as int) == p }
#[verifier::external_body] pub fn vx_str_starts_with(s: &str, p: &str) -> (r: bool) ensures r == starts(s@, p@) { s.starts_with(p) }
#[verifier::external_body] pub fn vx_str_ends_with(s: &str, p: &str) -> (r: bool) ensures r == ends(s@, p@) { s.ends_with(p) }
#[verifier::external_body] pub fn vx_str_strip_prefix<'a>(s: &'a str, p: &str) -> (r: Option<&'a str>) ensures match r { Some(x) => s@ == p@ + x@, None => !starts(s@, p@) } { s.strip_prefix(p) }
#[verifier::external_body] pub fn vx_str_strip_suffix<'a>(s: &'a str, p: &str) -> (r: Option<&'a str>) ensures match r { Some(x) => s@ == x@ + p@, None => !ends(s@, p@) } { s.strip_suffix(p) }
pub open spec fn occurs(s: Seq<char>, p: Seq<char>, i: int) -> bool { 0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len()) == p }
#[verifier::external_body] pub fn vx_str_contains(s: &str, p: &str) -> (r: bool) ensures r == exists|i: int| occurs(s@, p@, i) { s.contains(p) }
#[verifier::external_body] pub fn vx_str_split_once<'a>(s: &'a str, p: &str) -> (r: Option<(&'a str, &'a str)>)
    ensures match r { Some((a, b)) => s@ == a@ + p@ + b@ && (forall|i: int| 0 <= i < a@.len() ==> !occurs(s@, p@, i)), None => forall|i: int| !occurs(s@, p@, i) } { s.split_once(p) }
#[verifier::external_body] pub fn vx_str_split_once_char<'a>(s: &'a str, p: char) -> (r: Option<(&'a str, &'a str)>)
    ensures match r { Some((a, b)) => s@ == a@ + seq![p] + b@ && !a@.contains(p), None => !s@.contains(p) } { s.split_once(p) }
#[verifier::external_body] pub fn vx_str_rsplit_once_char<'a>(s: &'a str, p: char) -> (r: Option<(&'a str, &'a str)>)
    ensures match r { Some((a, b)) => s@ == a@ + seq![p] + b@ && !b@.contains(p), None => !s@.contains(p) } { s.rsplit_once(p) }
#[verifier::external_body] pub fn vx_str_rsplit_once<'a>(s: &'a str, p: &str) -> (r: Option<(&'a str, &'a str)>)
    ensures match r { Some((a, b)) => s@ == a@ + p@ + b@, None => forall|i: int| !occurs(s@, p@, i) } { s.rsplit_once(p) }
pub open spec fn join1(parts: Seq<Seq<char>>, sep: char) -> Seq<char> decreases parts.len() {
    if parts.len() == 0 { Seq::empty() } else if parts.len() == 1 { parts[0] } else { join1(parts.drop_last(), sep) + seq![sep] + parts.last() }
}
/// p are the parts of s between the separators
pub open spec fn split1(p: Seq<Seq<char>>, sep: char, s: Seq<char>) -> bool { p.len() >= 1 && join1(p, sep) == s && forall|i: int| 0 <= i < p.len() ==> !(#[trigger] p[i]).contains(sep) }
proof fn lem_tail(a: Seq<char>, x: Seq<char>, b: Seq<char>, y: Seq<char>, sep: char)
    requires a + seq![sep] + x == b + seq![sep] + y, !x.contains(sep), !y.contains(sep)
    ensures a == b, x == y
{
    let s = a + seq![sep] + x; let t = b + seq![sep] + y;
    assert(s.len() == a.len() + 1 + x.len() && t.len() == b.len() + 1 + y.len());
    assert(s[a.len() as int] == sep && t[b.len() as int] == sep);
    if a.len() < b.len() { assert(s[b.len() as int] == x[b.len() - a.len() - 1]); assert(x.contains(sep)); }
    if b.len() < a.len() { assert(t[a.len() as int] == y[a.len() - b.len() - 1]); assert(y.contains(sep)); }
    assert(a =~= s.subrange(0, a.len() as int)); assert(b =~= t.subrange(0, b.len() as int));
    assert(x =~= s.subrange(a.len() as int + 1, s.len() as int)); assert(y =~= t.subrange(b.len() as int + 1, t.len() as int));
}
proof fn lem_only(x: Seq<char>, b: Seq<char>, y: Seq<char>, sep: char) requires x == b + seq![sep] + y ensures x.contains(sep) { assert(x[b.len() as int] == sep); }
pub proof fn lem_split1(p: Seq<Seq<char>>, q: Seq<Seq<char>>, sep: char, s: Seq<char>)
    requires split1(p, sep, s), split1(q, sep, s)
    ensures p == q
    decreases p.len()
{
    if p.len() == 1 && q.len() == 1 { assert(p =~= q); }
    else if p.len() == 1 { lem_only(p[0], join1(q.drop_last(), sep), q.last(), sep); }
    else if q.len() == 1 { lem_only(q[0], join1(p.drop_last(), sep), p.last(), sep); }
    else {
        assert(!p[p.len() - 1].contains(sep)); assert(!q[q.len() - 1].contains(sep));
        lem_tail(join1(p.drop_last(), sep), p.last(), join1(q.drop_last(), sep), q.last(), sep);
        let pp = p.drop_last(); let qq = q.drop_last();
        assert forall|i: int| 0 <= i < pp.len() implies !(#[trigger] pp[i]).contains(sep) by { assert(pp[i] == p[i]); }
        assert forall|i: int| 0 <= i < qq.len() implies !(#[trigger] qq[i]).contains(sep) by { assert(qq[i] == q[i]); }
        lem_split1(pp, qq, sep, join1(pp, sep));
        assert(p =~= pp.push(p.last())); assert(q =~= qq.push(q.last()));
    }
}
pub broadcast proof fn lem_split1_b(p: Seq<Seq<char>>, q: Seq<Seq<char>>, sep: char, s: Seq<char>)
    requires #[trigger] split1(p, sep, s), #[trigger] split1(q, sep, s)
    ensures p == q
{ lem_split1(p, q, sep, s); }
#[verifier::external_body] pub fn vx_str_split_char<'a>(s: &'a str, p: char) -> (r: VxIter<&'a str>)
    ensures r.pos() == 0, split1(r.seq().map_values(|x: &str| x@), p, s@) { unimplemented!() }

// ------------------------------------------------------------------ bytes
pub trait VxBytes { spec fn bv(&self) -> Seq<u8>; fn vx_bytes(&self) -> (r: &[u8]) ensures r@ == self.bv(), r@.len() <= isize::MAX; }
impl VxBytes for Vec<u8> { open spec fn bv(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vx_bytes(&self) -> (r: &[u8]) { self } }
impl VxBytes for [u8] { open spec fn bv(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vx_bytes(&self) -> (r: &[u8]) { self } }
impl VxBytes for str { open spec fn bv(&self) -> Seq<u8> { utf8(self@) } #[verifier::external_body] fn vx_bytes(&self) -> (r: &[u8]) { unimplemented!() } }
impl VxBytes for String { open spec fn bv(&self) -> Seq<u8> { utf8(self@) } #[verifier::external_body] fn vx_bytes(&self) -> (r: &[u8]) { unimplemented!() } }
impl<const N: usize> VxBytes for [u8; N] { open spec fn bv(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vx_bytes(&self) -> (r: &[u8]) { self } }
impl<T: VxBytes + ?Sized> VxBytes for &T { open spec fn bv(&self) -> Seq<u8> { (**self).bv() } #[verifier::external_body] fn vx_bytes(&self) -> (r: &[u8]) { unimplemented!() } }
impl<T: VxBytes + ?Sized> VxBytes for Box<T> { open spec fn bv(&self) -> Seq<u8> { (**self).bv() } #[verifier::external_body] fn vx_bytes(&self) -> (r: &[u8]) { unimplemented!() } }

pub trait VxSl<T> { spec fn slv(&self) -> Seq<T>; }
impl<T> VxSl<T> for [T] { open spec fn slv(&self) -> Seq<T> { self@ } }
impl<T> VxSl<T> for Vec<T> { open spec fn slv(&self) -> Seq<T> { self@ } }
impl<T, const N: usize> VxSl<T> for [T; N] { open spec fn slv(&self) -> Seq<T> { self@ } }
impl<T, S: VxSl<T> + ?Sized> VxSl<T> for &S { open spec fn slv(&self) -> Seq<T> { (**self).slv() } }
impl<T, S: VxSl<T> + ?Sized> VxSl<T> for Box<S> { open spec fn slv(&self) -> Seq<T> { (**self).slv() } }
#[verifier::external_body] pub fn vx_sl<T, S: VxSl<T> + ?Sized>(x: &S) -> (r: &[T]) ensures r@ == x.slv(), r@.len() <= isize::MAX { unimplemented!() }
#[verifier::external_body] pub fn vx_subslice<T>(x: &[T], a: usize, b: usize) -> (r: &[T]) requires a <= b <= x@.len() ensures r@ == x@.subrange(a as int, b as int) { &x[a..b] }
#[verifier::external_body] pub fn vx_subslice_from<T>(x: &[T], a: usize) -> (r: &[T]) requires a <= x@.len() ensures r@ == x@.subrange(a as int, x@.len() as int) { &x[a..] }
#[verifier::external_body] pub fn vx_get<T>(x: &[T], a: usize) -> (r: Option<&T>) ensures a < x@.len() ==> (r matches Some(v) && *v == x@[a as int]), a >= x@.len() ==> r is None { x.get(a) }
#[verifier::external_body] pub fn vx_get_range<T>(x: &[T], a: usize, b: usize) -> (r: Option<&[T]>) ensures (a <= b <= x@.len()) ==> (r matches Some(v) && v@ == x@.subrange(a as int, b as int)), !(a <= b <= x@.len()) ==> r is None { x.get(a..b) }
#[verifier::external_body] pub fn vx_get_from<T>(x: &[T], a: usize) -> (r: Option<&[T]>) ensures (a <= x@.len()) ==> (r matches Some(v) && v@ == x@.subrange(a as int, x@.len() as int)), !(a <= x@.len()) ==> r is None { x.get(a..) }
pub trait VxCopyDst { spec fn cv(&self) -> Seq<u8>; }
impl<const N: usize> VxCopyDst for [u8; N] { open spec fn cv(&self) -> Seq<u8> { self@ } }
impl VxCopyDst for Vec<u8> { open spec fn cv(&self) -> Seq<u8> { self@ } }
#[verifier::external_body] pub fn vx_copy_range<D: VxCopyDst>(x: &mut D, a: usize, b: usize, s: &[u8]) requires a <= b <= old(x).cv().len(), s@.len() == b - a ensures final(x).cv() == old(x).cv().subrange(0, a as int) + s@ + old(x).cv().subrange(b as int, old(x).cv().len() as int), a == 0 && b == old(x).cv().len() ==> final(x).cv() == s@ { unimplemented!() }
#[verifier::external_body] pub fn vx_copy_from<D: VxCopyDst>(x: &mut D, a: usize, s: &[u8]) requires a <= old(x).cv().len(), s@.len() == old(x).cv().len() - a ensures final(x).cv() == old(x).cv().subrange(0, a as int) + s@, a == 0 ==> final(x).cv() == s@ { unimplemented!() }
#[verifier::external_body] pub fn vx_to_vec<T>(x: &[T]) -> (r: Vec<T>) ensures r@ == x@ { unimplemented!() }
#[verifier::external_body] pub fn vx_extend<T>(x: &mut Vec<T>, s: &[T]) ensures final(x)@ == old(x)@ + s@ { unimplemented!() }
#[verifier::external_body] pub fn vx_drain<T>(x: &mut Vec<T>) -> (r: VxIter<T>) ensures r.pos() == 0, r.seq() == old(x)@, final(x)@.len() == 0 { unimplemented!() }
#[verifier::external_body] pub fn vx_vec_repeat<T: Copy>(v: T, n: usize) -> (r: Vec<T>) ensures r@ == Seq::new(n as nat, |i: int| v) { unimplemented!() }
#[verifier::external_body] pub fn vx_bytes_eq(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@) { a == b }
pub uninterp spec fn be64(n: u64) -> Seq<u8>;
pub uninterp spec fn un_be64(s: Seq<u8>) -> u64;
pub broadcast axiom fn ax_be64(n: u64) ensures (#[trigger] be64(n)).len() == 8, un_be64(be64(n)) == n;
pub uninterp spec fn le64(n: u64) -> Seq<u8>;
pub uninterp spec fn un_le64(s: Seq<u8>) -> u64;
pub broadcast axiom fn ax_le64(n: u64) ensures (#[trigger] le64(n)).len() == 8, un_le64(le64(n)) == n;
#[verifier::external_body] pub fn vx_u64_to_be(n: u64) -> (r: [u8; 8]) ensures r@ == be64(n) { n.to_be_bytes() }
#[verifier::external_body] pub fn vx_u64_from_be(n: [u8; 8]) -> (r: u64) ensures r == un_be64(n@) { u64::from_be_bytes(n) }
#[verifier::external_body] pub fn vx_u64_to_le(n: u64) -> (r: [u8; 8]) ensures r@ == le64(n) { n.to_le_bytes() }
#[verifier::external_body] pub fn vx_u64_from_le(n: [u8; 8]) -> (r: u64) ensures r == un_le64(n@) { u64::from_le_bytes(n) }
// text functions about which nothing is assumed but that they are functions
pub uninterp spec fn sp_to_lowercase(s: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub fn vx_str_to_lowercase(s: &str) -> (r: String) ensures r@ == sp_to_lowercase(s@) { unimplemented!() }
pub uninterp spec fn sp_to_uppercase(s: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub fn vx_str_to_uppercase(s: &str) -> (r: String) ensures r@ == sp_to_uppercase(s@) { unimplemented!() }
pub uninterp spec fn sp_to_ascii_lowercase(s: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub fn vx_str_to_ascii_lowercase(s: &str) -> (r: String) ensures r@ == sp_to_ascii_lowercase(s@) { unimplemented!() }
pub uninterp spec fn sp_to_ascii_uppercase(s: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub fn vx_str_to_ascii_uppercase(s: &str) -> (r: String) ensures r@ == sp_to_ascii_uppercase(s@) { unimplemented!() }
pub uninterp spec fn sp_trim_start(s: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub fn vx_str_trim_start<'a>(s: &'a str) -> (r: &'a str) ensures r@ == sp_trim_start(s@) { unimplemented!() }
pub uninterp spec fn sp_trim_end(s: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub fn vx_str_trim_end<'a>(s: &'a str) -> (r: &'a str) ensures r@ == sp_trim_end(s@) { unimplemented!() }
pub uninterp spec fn sp_trim_start_matches(s: Seq<char>, p: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub fn vx_str_trim_start_matches<'a>(s: &'a str, p: &str) -> (r: &'a str) ensures r@ == sp_trim_start_matches(s@, p@) { unimplemented!() }
#[verifier::external_body] pub fn vx_str_trim_start_matches_char<'a>(s: &'a str, p: char) -> (r: &'a str) ensures r@ == sp_trim_start_matches(s@, seq![p]) { unimplemented!() }
pub uninterp spec fn sp_trim_end_matches(s: Seq<char>, p: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub fn vx_str_trim_end_matches<'a>(s: &'a str, p: &str) -> (r: &'a str) ensures r@ == sp_trim_end_matches(s@, p@) { unimplemented!() }
#[verifier::external_body] pub fn vx_str_trim_end_matches_char<'a>(s: &'a str, p: char) -> (r: &'a str) ensures r@ == sp_trim_end_matches(s@, seq![p]) { unimplemented!() }
pub uninterp spec fn sp_trim_matches(s: Seq<char>, p: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub fn vx_str_trim_matches_char<'a>(s: &'a str, p: char) -> (r: &'a str) ensures r@ == sp_trim_matches(s@, seq![p]) { unimplemented!() }
pub uninterp spec fn sp_replace(s: Seq<char>, a: Seq<char>, b: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub fn vx_str_replace<A: VxPat>(s: &str, a: A, b: &str) -> (r: String) ensures r@ == sp_replace(s@, a.pt(), b@) { unimplemented!() }
pub trait VxPat { spec fn pt(&self) -> Seq<char>; }
impl VxPat for &str { open spec fn pt(&self) -> Seq<char> { (*self)@ } }
impl VxPat for char { open spec fn pt(&self) -> Seq<char> { seq![*self] } }
pub uninterp spec fn sp_eq_ignore_ascii_case(a: Seq<char>, b: Seq<char>) -> bool;
#[verifier::external_body] pub fn vx_str_eq_ignore_ascii_case(a: &str, b: &str) -> (r: bool) ensures r == sp_eq_ignore_ascii_case(a@, b@), a@ == b@ ==> r { unimplemented!() }
#[verifier::external_body] pub fn vx_str_starts_with_char(s: &str, p: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == p) { unimplemented!() }
#[verifier::external_body] pub fn vx_str_ends_with_char(s: &str, p: char) -> (r: bool) ensures r == (s@.len() > 0 && s@.last() == p) { unimplemented!() }
#[verifier::external_body] pub fn vx_str_contains_char(s: &str, p: char) -> (r: bool) ensures r == s@.contains(p) { unimplemented!() }
#[verifier::external_body] pub fn vx_str_strip_prefix_char<'a>(s: &'a str, p: char) -> (r: Option<&'a str>) ensures match r { Some(x) => s@ == seq![p] + x@, None => s@.len() == 0 || s@[0] != p } { unimplemented!() }
#[verifier::external_body] pub fn vx_str_strip_suffix_char<'a>(s: &'a str, p: char) -> (r: Option<&'a str>) ensures match r { Some(x) => s@ == x@ + seq![p], None => s@.len() == 0 || s@.last() != p } { unimplemented!() }
#[verifier::external_body] pub fn vx_str_is_ascii(s: &str) -> (r: bool) ensures r == forall|i: int| 0 <= i < s@.len() ==> (#[trigger] s@[i]) < '\x7f' || s@[i] == '\x7f' { unimplemented!() }
#[verifier::external_body] pub fn vx_str_chars(s: &str) -> (r: VxIter<char>) ensures r.pos() == 0, r.seq() == s@ { unimplemented!() }
#[verifier::external_body] pub fn vx_str_bytes(s: &str) -> (r: VxIter<u8>) ensures r.pos() == 0, r.seq() == utf8(s@) { unimplemented!() }
pub uninterp spec fn sp_repeat(s: Seq<char>, n: int) -> Seq<char>;
pub struct TryFromSliceError { x: () }
#[verifier::external_body] pub fn vx_try_arr<T, const N: usize>(x: &[T]) -> (r: Result<[T; N], TryFromSliceError>) ensures match r { Ok(a) => x@.len() == N && a@ == x@, Err(_) => x@.len() != N } { unimplemented!() }
#[verifier::external_body] pub fn vx_mem_replace<T>(a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b { unimplemented!() }
#[verifier::external_body] pub fn vx_mem_swap<T>(a: &mut T, b: &mut T) ensures *final(a) == *old(b), *final(b) == *old(a) { unimplemented!() }
#[verifier::external_body] pub fn vx_take_vec<T>(a: &mut Vec<T>) -> (r: Vec<T>) ensures r == *old(a), final(a)@ == Seq::<T>::empty() { unimplemented!() }
#[verifier::external_body] pub fn vx_take_string(a: &mut String) -> (r: String) ensures r == *old(a), final(a)@ == Seq::<char>::empty() { unimplemented!() }
pub struct Utf8Error { x: () }
#[verifier::external_body] pub fn vx_from_utf8<'a>(b: &'a [u8]) -> (r: Result<&'a str, Utf8Error>) ensures match r { Ok(s) => un_utf8(b@) == Some(s@) && utf8(s@) == b@, Err(_) => un_utf8(b@) is None } { unimplemented!() }
pub struct TryFromIntError { x: () }
pub trait VxAsInt { spec fn vint(&self) -> int; }
impl VxAsInt for u64 { open spec fn vint(&self) -> int { *self as int } }
impl VxAsInt for u128 { open spec fn vint(&self) -> int { *self as int } }
impl VxAsInt for usize { open spec fn vint(&self) -> int { *self as int } }
#[verifier::external_body] pub fn vx_u32_try_from<T: VxAsInt>(n: T) -> (r: Result<u32, TryFromIntError>) ensures 0 <= n.vint() <= u32::MAX ==> r == Ok::<u32, TryFromIntError>(n.vint() as u32), !(0 <= n.vint() <= u32::MAX) ==> r is Err { unimplemented!() }
pub fn vx_min_u64(a: u64, b: u64) -> (r: u64) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
pub fn vx_max_u64(a: u64, b: u64) -> (r: u64) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }
pub fn vx_min_usize(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
pub fn vx_max_usize(a: usize, b: usize) -> (r: usize) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }

// ------------------------------------------------------------------ values
pub proof fn vx_bits() ensures 1u64 << 63 == 0x8000_0000_0000_0000u64, forall|x: u64| #[trigger] ((1u64 << 63) | x) >= 0x8000_0000_0000_0000u64, forall|x: u64| #[trigger] (x | (1u64 << 63)) >= 0x8000_0000_0000_0000u64,
    forall|x: u64| (#[trigger] (x >> 63)) == 0 <==> x < 0x8000_0000_0000_0000u64, forall|x: u64| (#[trigger] (x >> 63)) <= 1,
    forall|x: u64| (#[trigger] (x & (1u64 << 63))) == 0 <==> x < 0x8000_0000_0000_0000u64, forall|x: u64| (#[trigger] ((1u64 << 63) & x)) == 0 <==> x < 0x8000_0000_0000_0000u64
{
    assert(1u64 << 63 == 0x8000_0000_0000_0000u64) by (bit_vector);
    assert forall|x: u64| #[trigger] ((1u64 << 63) | x) >= 0x8000_0000_0000_0000u64 by { assert((1u64 << 63) | x >= 0x8000_0000_0000_0000u64) by (bit_vector); }
    assert forall|x: u64| #[trigger] (x | (1u64 << 63)) >= 0x8000_0000_0000_0000u64 by { assert(x | (1u64 << 63) >= 0x8000_0000_0000_0000u64) by (bit_vector); }
    assert forall|x: u64| ((#[trigger] (x >> 63)) == 0 <==> x < 0x8000_0000_0000_0000u64) by { assert(x >> 63 == 0 <==> x < 0x8000_0000_0000_0000u64) by (bit_vector); }
    assert forall|x: u64| (#[trigger] (x >> 63)) <= 1 by { assert(x >> 63 <= 1) by (bit_vector); }
    assert forall|x: u64| ((#[trigger] (x & (1u64 << 63))) == 0 <==> x < 0x8000_0000_0000_0000u64) by { assert(x & (1u64 << 63) == 0 <==> x < 0x8000_0000_0000_0000u64) by (bit_vector); }
    assert forall|x: u64| ((#[trigger] ((1u64 << 63) & x)) == 0 <==> x < 0x8000_0000_0000_0000u64) by { assert((1u64 << 63) & x == 0 <==> x < 0x8000_0000_0000_0000u64) by (bit_vector); }
}
#[verifier::external_body] pub fn vx_clone<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
#[verifier::external_body] pub fn vx_keep<'a, T>(x: T) -> (r: &'a T) ensures *r == x { unimplemented!() }
#[verifier::external_body] pub fn vx_eq<T>(a: &T, b: &T) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
#[verifier::external_body] pub fn vx_panic() -> ! requires false { panic!() }
pub fn vx_must(b: bool) requires b { }
#[verifier::external_body] pub fn vx_unwrap_opt<T>(x: Option<T>) -> (r: T) requires x is Some ensures Some(r) == x { x.unwrap() }
#[verifier::external_body] pub fn vx_unwrap_res<T, E>(x: Result<T, E>) -> (r: T) requires x is Ok ensures Ok::<T, E>(r) == x { unimplemented!() }
#[verifier::external_body] pub fn vx_take<T>(x: &mut Option<T>) -> (r: Option<T>) ensures r == *old(x), *final(x) == None::<T> { x.take() }
pub trait VxDisplay { spec fn disp(&self) -> Seq<char>; }
impl VxDisplay for str { open spec fn disp(&self) -> Seq<char> { self@ } }
impl VxDisplay for String { open spec fn disp(&self) -> Seq<char> { self@ } }
impl<T: VxDisplay + ?Sized> VxDisplay for &T { open spec fn disp(&self) -> Seq<char> { (**self).disp() } }
impl<T: VxDisplay + ?Sized> VxDisplay for Box<T> { open spec fn disp(&self) -> Seq<char> { (**self).disp() } }
pub uninterp spec fn dec_text(n: int) -> Seq<char>;
pub uninterp spec fn un_dec_text(s: Seq<char>) -> Option<int>;
pub broadcast axiom fn ax_dec(n: int) ensures un_dec_text(#[trigger] dec_text(n)) == Some(n);
impl VxDisplay for u64 { open spec fn disp(&self) -> Seq<char> { dec_text(*self as int) } }
impl VxDisplay for u32 { open spec fn disp(&self) -> Seq<char> { dec_text(*self as int) } }
impl VxDisplay for u16 { open spec fn disp(&self) -> Seq<char> { dec_text(*self as int) } }
impl VxDisplay for u8 { open spec fn disp(&self) -> Seq<char> { dec_text(*self as int) } }
impl VxDisplay for usize { open spec fn disp(&self) -> Seq<char> { dec_text(*self as int) } }
#[verifier::external_body] pub fn vx_to_string<T: VxDisplay + ?Sized>(x: &T) -> (r: String) ensures r@ == x.disp() { unimplemented!() }
#[verifier::external_body] pub fn vx_debug<T: ?Sized>(x: &T) -> (r: String) { unimplemented!() }
pub struct Formatter { pub out: String }
pub struct FmtError { x: () }
pub fn vx_write(f: &mut Formatter, s: String) -> (r: Result<(), FmtError>) ensures r is Ok, final(f).out@ == old(f).out@ + s@ { f.out = vx_cat(vx_clone(&f.out), vx_s(&s)); Ok(()) }
impl Formatter {
    pub fn write_str(&mut self, s: &str) -> (r: Result<(), FmtError>) ensures r is Ok, final(self).out@ == old(self).out@ + s@ { self.out = vx_cat(vx_clone(&self.out), s); Ok(()) }
}
pub trait VxInto<T>: Sized { spec fn into_spec(self) -> T; fn vx_into(self) -> (r: T) ensures r == self.into_spec(); }
impl<T> VxInto<T> for T { open spec fn into_spec(self) -> T { self } fn vx_into(self) -> (r: T) { self } }
impl VxInto<String> for &str { open spec fn into_spec(self) -> String { vx_string_of(self@) } #[verifier::external_body] fn vx_into(self) -> (r: String) { self.to_string() } }
impl VxInto<Vec<u8>> for &[u8] { open spec fn into_spec(self) -> Vec<u8> { vx_vec_of(self@) } #[verifier::external_body] fn vx_into(self) -> (r: Vec<u8>) { self.to_vec() } }
#[verifier::external_body] #[verifier::reject_recursive_types(A)] #[verifier::reject_recursive_types(R)]
pub struct CallbackTag<A, R> { x: core::marker::PhantomData<(A, R)> }
pub trait VxCallback<A, R>: Sized {
    /// what the callback answers, given the world it runs in
    spec fn cb_rel(&self, a: A, w0: World, r: R, w1: World) -> bool;
    fn vx_call(self, a: A, vx_w: &mut World) -> (r: R) ensures self.cb_rel(a, *old(vx_w), r, *final(vx_w));
}
pub struct BoxErr { x: u64 }
impl VxDisplay for BoxErr { uninterp spec fn disp(&self) -> Seq<char>; }
#[verifier::external_body] pub fn vx_box_err<E>(e: E) -> (r: BoxErr) { unimplemented!() }

// ------------------------------------------------------------------ iteration
#[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct VxIter<T> { x: core::marker::PhantomData<T> }
impl<T> VxIter<T> {
    pub uninterp spec fn seq(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        requires 0 <= old(self).pos() <= old(self).seq().len()
        ensures final(self).seq() == old(self).seq(),
            old(self).pos() < old(self).seq().len() ==> r == Some(old(self).seq()[old(self).pos()]) && final(self).pos() == old(self).pos() + 1,
            old(self).pos() >= old(self).seq().len() ==> r is None && final(self).pos() == old(self).pos() { unimplemented!() }
}
#[verifier::external_body] pub fn vx_iter<'a, T>(x: &'a [T]) -> (r: VxIter<&'a T>) ensures r.pos() == 0, r.seq().len() == x@.len(), forall|i: int| 0 <= i < x@.len() ==> *(#[trigger] r.seq()[i]) == x@[i] { unimplemented!() }
#[verifier::external_body] pub fn vx_into_iter<T>(x: Vec<T>) -> (r: VxIter<T>) ensures r.pos() == 0, r.seq() == x@ { unimplemented!() }
#[verifier::external_body] pub fn vx_into_iter_arr<T, const N: usize>(x: [T; N]) -> (r: VxIter<T>) ensures r.pos() == 0, r.seq() == x@ { unimplemented!() }
#[verifier::external_body] pub fn vx_range(a: u64, b: u64) -> (r: VxIter<u64>) ensures r.pos() == 0, r.seq() == Seq::new((if b >= a { b - a } else { 0 }) as nat, |i: int| (a + i) as u64) { unimplemented!() }
// sources made of other sources, before anything was taken from them
#[verifier::external_body] pub fn vx_it_rev<T>(x: VxIter<T>) -> (r: VxIter<T>) requires x.pos() == 0 ensures r.pos() == 0, r.seq() == x.seq().reverse() { unimplemented!() }
#[verifier::external_body] pub fn vx_it_take<T>(x: VxIter<T>, n: usize) -> (r: VxIter<T>) requires x.pos() == 0 ensures r.pos() == 0, r.seq() == if n <= x.seq().len() { x.seq().take(n as int) } else { x.seq() } { unimplemented!() }
#[verifier::external_body] pub fn vx_it_skip<T>(x: VxIter<T>, n: usize) -> (r: VxIter<T>) requires x.pos() == 0 ensures r.pos() == 0, r.seq() == if n <= x.seq().len() { x.seq().skip(n as int) } else { Seq::empty() } { unimplemented!() }
#[verifier::external_body] pub fn vx_it_enumerate<T>(x: VxIter<T>) -> (r: VxIter<(usize, T)>) requires x.pos() == 0 ensures r.pos() == 0, r.seq() == Seq::new(x.seq().len(), |i: int| (i as usize, x.seq()[i])), x.seq().len() <= usize::MAX { unimplemented!() }
#[verifier::external_body] pub fn vx_it_zip<T, U>(x: VxIter<T>, y: VxIter<U>) -> (r: VxIter<(T, U)>) requires x.pos() == 0, y.pos() == 0 ensures r.pos() == 0, r.seq() == Seq::new(if x.seq().len() <= y.seq().len() { x.seq().len() } else { y.seq().len() }, |i: int| (x.seq()[i], y.seq()[i])) { unimplemented!() }
#[verifier::external_body] pub fn vx_it_chain<T>(x: VxIter<T>, y: VxIter<T>) -> (r: VxIter<T>) requires x.pos() == 0, y.pos() == 0 ensures r.pos() == 0, r.seq() == x.seq() + y.seq() { unimplemented!() }
#[verifier::external_body] pub fn vx_it_count<T>(x: VxIter<T>) -> (r: usize) requires x.pos() == 0 ensures r == x.seq().len() { unimplemented!() }
#[verifier::external_body] pub fn vx_it_last<T>(x: VxIter<T>) -> (r: Option<T>) requires x.pos() == 0 ensures match r { Some(l) => x.seq().len() > 0 && l == x.seq().last(), None => x.seq().len() == 0 } { unimplemented!() }
pub fn vx_collect<T>(x: VxIter<T>) -> (r: Vec<T>) requires x.pos() == 0 ensures r@ == x.seq()
{
    let mut x = x; let ghost s = x.seq(); let mut out: Vec<T> = Vec::new();
    loop invariant 0 <= x.pos() <= x.seq().len(), x.seq() == s, out@ == s.subrange(0, x.pos()) ensures out@ == s decreases s.len() - x.pos()
    {
        let Some(v) = x.next() else { assert(s.subrange(0, s.len() as int) =~= s); break; };
        out.push(v);
        assert(out@ =~= s.subrange(0, x.pos()));
    }
    out
}
/// all the values, or the first error
pub fn vx_collect_ok<T, E>(x: VxIter<Result<T, E>>) -> (r: Result<Vec<T>, E>) requires x.pos() == 0
    ensures r matches Ok(v) ==> v@.len() == x.seq().len() && forall|i: int| 0 <= i < x.seq().len() ==> #[trigger] x.seq()[i] == Ok::<T, E>(v@[i]),
        r matches Err(e) ==> exists|i: int| 0 <= i < x.seq().len() && #[trigger] x.seq()[i] == Err::<T, E>(e) && forall|j: int| 0 <= j < i ==> (#[trigger] x.seq()[j]) is Ok
{
    let mut y = x; let mut out: Vec<T> = Vec::new();
    loop invariant 0 <= y.pos() <= y.seq().len(), y.seq() == x.seq(), out@.len() == y.pos(), forall|i: int| 0 <= i < y.pos() ==> #[trigger] x.seq()[i] == Ok::<T, E>(out@[i]) ensures y.pos() == x.seq().len() decreases x.seq().len() - y.pos()
    {
        let ghost n = y.pos();
        let Some(v) = y.next() else { break; };
        match v { Ok(v) => { out.push(v); }, Err(e) => { assert(x.seq()[n] == Err::<T, E>(e)); return Err(e); } }
    }
    Ok(out)
}

// ------------------------------------------------------------------ collections
pub trait VxSeqSrc<T> { spec fn src(&self) -> Seq<T>; }
impl<T> VxSeqSrc<T> for Vec<T> { open spec fn src(&self) -> Seq<T> { self@ } }
impl<T, const N: usize> VxSeqSrc<T> for [T; N] { open spec fn src(&self) -> Seq<T> { self@ } }
#[verifier::external_body] #[verifier::accept_recursive_types(T)]
pub struct VxDeque<T> { x: core::marker::PhantomData<T> }
impl<T> VxDeque<T> {
    pub uninterp spec fn dq(&self) -> Seq<T>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.dq() == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: Self) ensures r.dq() == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn from<S: VxSeqSrc<T>>(s: S) -> (r: Self) ensures r.dq() == s.src() { unimplemented!() }
    #[verifier::external_body] pub fn pop_front(&mut self) -> (r: Option<T>)
        ensures old(self).dq().len() == 0 ==> r is None && final(self).dq() == old(self).dq(),
            old(self).dq().len() > 0 ==> r == Some(old(self).dq()[0]) && final(self).dq() == old(self).dq().subrange(1, old(self).dq().len() as int) { unimplemented!() }
    #[verifier::external_body] pub fn pop_back(&mut self) -> (r: Option<T>)
        ensures old(self).dq().len() == 0 ==> r is None && final(self).dq() == old(self).dq(),
            old(self).dq().len() > 0 ==> r == Some(old(self).dq().last()) && final(self).dq() == old(self).dq().drop_last() { unimplemented!() }
    #[verifier::external_body] pub fn push_back(&mut self, x: T) ensures final(self).dq() == old(self).dq().push(x) { unimplemented!() }
    #[verifier::external_body] pub fn push_front(&mut self, x: T) ensures final(self).dq() == seq![x] + old(self).dq() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self.dq().len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.dq().len() { unimplemented!() }
    #[verifier::external_body] pub fn clear(&mut self) ensures final(self).dq() == Seq::<T>::empty() { unimplemented!() }
}
pub trait VxExtend<T> { fn vx_extend_vec(&mut self, v: Vec<T>); }
impl<T> VxExtend<T> for VxDeque<T> { #[verifier::external_body] fn vx_extend_vec(&mut self, v: Vec<T>) ensures final(self).dq() == old(self).dq() + v@ { unimplemented!() } }
impl<T> VxExtend<T> for Vec<T> { #[verifier::external_body] fn vx_extend_vec(&mut self, v: Vec<T>) ensures final(self)@ == old(self)@ + v@ { unimplemented!() } }
#[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct VxSet<T> { x: core::marker::PhantomData<T> }
impl<T> VxSet<T> {
    pub uninterp spec fn sv(&self) -> Set<T>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.sv() == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: Self) ensures r.sv() == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, x: T) -> (r: bool) ensures r == !old(self).sv().contains(x), final(self).sv() == old(self).sv().insert(x) { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, x: &T) -> (r: bool) ensures r == self.sv().contains(*x) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, x: &T) -> (r: bool) ensures r == old(self).sv().contains(*x), final(self).sv() == old(self).sv().remove(*x) { unimplemented!() }
    #[verifier::external_body] pub fn clear(&mut self) ensures final(self).sv() == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r as nat == self.sv().len() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self.sv() == Set::<T>::empty()) { unimplemented!() }
}
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::accept_recursive_types(V)]
pub struct VxMap<K, V> { x: core::marker::PhantomData<(K, V)> }
impl<K, V> VxMap<K, V> {
    pub uninterp spec fn mv(&self) -> Map<K, V>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.mv() == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self).mv() == old(self).mv().insert(k, v), r == (if old(self).mv().contains_key(k) { Some(old(self).mv()[k]) } else { None }) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &K) -> (r: Option<V>) ensures final(self).mv() == old(self).mv().remove(*k), r == (if old(self).mv().contains_key(*k) { Some(old(self).mv()[*k]) } else { None }) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &K) -> (r: Option<&V>) ensures match r { Some(v) => self.mv().contains_key(*k) && *v == self.mv()[*k], None => !self.mv().contains_key(*k) } { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self.mv().contains_key(*k) { unimplemented!() }
    #[verifier::external_body] pub fn clear(&mut self) ensures final(self).mv() == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self.mv().dom() == Set::<K>::empty()) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r as nat == self.mv().dom().len() { unimplemented!() }
    #[verifier::external_body] pub fn default() -> (r: Self) ensures r.mv() == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn drain(&mut self) -> (r: VxIter<(K, V)>) ensures r.pos() == 0, pairs_of(r.seq(), old(self).mv()), final(self).mv() == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn into_iter(self) -> (r: VxIter<(K, V)>) ensures r.pos() == 0, pairs_of(r.seq(), self.mv()) { unimplemented!() }
}
/// the entries of a map, in some order, each once
pub open spec fn pairs_of<K, V>(s: Seq<(K, V)>, m: Map<K, V>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == s[i].1
    &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
}

// ------------------------------------------------------------------ locks
/// what a lock protects: an operation has it to itself while it runs
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Mutex<T> { x: core::marker::PhantomData<T> }
pub struct PoisonError { x: u64 }
pub trait VxDefault: Sized { spec fn is_default(&self) -> bool; fn vx_default() -> (r: Self) ensures r.is_default(); }
impl<K, V> VxDefault for VxMap<K, V> { open spec fn is_default(&self) -> bool { self.mv() == Map::<K, V>::empty() } fn vx_default() -> (r: Self) { Self::new() } }
impl<T> Mutex<T> {
    pub uninterp spec fn val(&self) -> T;
    #[verifier::external_body] pub fn new(x: T) -> (r: Self) ensures r.val() == x { unimplemented!() }
    #[verifier::external_body] pub fn lock<'a>(&'a mut self) -> (r: Result<&'a mut T, PoisonError>) ensures r is Ok, *r->Ok_0 == old(self).val(), final(self).val() == *final(r->Ok_0) { unimplemented!() }
}
impl<T: VxDefault> Mutex<T> { pub fn default() -> (r: Self) ensures r.val().is_default() { Self::new(T::vx_default()) } }

// ------------------------------------------------------------------ serde_json
#[verifier::ext_equal]
pub enum JV { Null, Bool(bool), Num(int), Str(Seq<char>), Arr(Seq<JV>), Obj(Map<Seq<char>, JV>) }
#[verifier::external_body]
pub struct Json { x: u8 }
impl View for Json { type V = JV; uninterp spec fn view(&self) -> JV; }
pub uninterp spec fn vx_json_of(j: JV) -> Json;
pub broadcast axiom fn ax_json(j: Json) ensures vx_json_of(#[trigger] j@) == j;
pub open spec fn jobj(m: Map<Seq<char>, JV>) -> JV { JV::Obj(m) }
pub broadcast proof fn jv_ext(a: Map<Seq<char>, JV>, b: Map<Seq<char>, JV>) requires a =~= b ensures #[trigger] jobj(a) == #[trigger] jobj(b) {}
pub open spec fn jarr(s: Seq<JV>) -> JV { JV::Arr(s) }
pub open spec fn jget(j: JV, k: Seq<char>) -> Option<JV> { match j { JV::Obj(m) => if m.contains_key(k) { Some(m[k]) } else { None }, _ => None } }
pub open spec fn has(j: JV, k: Seq<char>) -> bool { jget(j, k) is Some }
pub open spec fn at(j: JV, k: Seq<char>) -> JV { jget(j, k)->Some_0 }
pub open spec fn j_text(j: JV) -> Option<Seq<char>> { match j { JV::Str(s) => Some(s), _ => None } }
pub open spec fn is_u64(j: JV) -> bool { match j { JV::Num(n) => 0 <= n <= u64::MAX, _ => false } }
pub open spec fn num(j: JV) -> int { j->Num_0 }
pub struct SerdeJsonError { x: u64 }
impl VxDisplay for SerdeJsonError { uninterp spec fn disp(&self) -> Seq<char>; }
pub uninterp spec fn json_text(j: JV) -> Seq<char>;
/// parsing: what a text denotes as JSON, if anything
pub uninterp spec fn json_parse(t: Seq<char>) -> Option<JV>;
pub broadcast axiom fn ax_json_text(j: Json) ensures json_parse(json_text(#[trigger] j@)) == Some(j@);
impl VxDisplay for Json { open spec fn disp(&self) -> Seq<char> { json_text(self@) } }
impl Json {
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&Json>) ensures (jget(self@, k@) is Some) == (r is Some), r is Some ==> r->Some_0@ == jget(self@, k@)->Some_0 { unimplemented!() }
    #[verifier::external_body]
    pub fn as_u64(&self) -> (r: Option<u64>) ensures is_u64(self@) ==> r == Some(num(self@) as u64), !is_u64(self@) ==> r is None { unimplemented!() }
    #[verifier::external_body]
    pub fn as_bool(&self) -> (r: Option<bool>) ensures match self@ { JV::Bool(b) => r == Some(b), _ => r is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: Option<&str>) ensures match self@ { JV::Str(s) => (r matches Some(x) && x@ == s), _ => r is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn as_array(&self) -> (r: Option<&Vec<Json>>) ensures match self@ { JV::Arr(s) => (r matches Some(x) && x@.len() == s.len() && (forall|i: int| 0 <= i < s.len() ==> (#[trigger] x@[i])@ == s[i])), _ => r is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn is_null(&self) -> (r: bool) ensures r == (self@ is Null) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_object(&self) -> (r: bool) ensures r == (self@ is Obj) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_array(&self) -> (r: bool) ensures r == (self@ is Arr) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_string(&self) -> (r: bool) ensures r == (self@ is Str) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_obj() -> (r: Json) ensures r@ == jobj(Map::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_with(self, k: &str, v: Json) -> (r: Json) requires self@ is Obj ensures r@ == jobj(self@->Obj_0.insert(k@, v@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_null() -> (r: Json) ensures r@ == JV::Null { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_arr() -> (r: Json) ensures r@ == jarr(Seq::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_push(self, v: Json) -> (r: Json) requires self@ is Arr ensures r@ == jarr(self@->Arr_0.push(v@)) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_json_index<'a>(j: &'a Json, k: &str) -> (r: &'a Json) ensures r@ == (match jget(j@, k@) { Some(v) => v, None => JV::Null }) { unimplemented!() }
/// what serde makes of a value
pub trait VxJson { spec fn js(&self) -> JV; }
impl VxJson for u64 { open spec fn js(&self) -> JV { JV::Num(*self as int) } }
impl VxJson for u32 { open spec fn js(&self) -> JV { JV::Num(*self as int) } }
impl VxJson for usize { open spec fn js(&self) -> JV { JV::Num(*self as int) } }
impl VxJson for bool { open spec fn js(&self) -> JV { JV::Bool(*self) } }
impl VxJson for str { open spec fn js(&self) -> JV { JV::Str(self@) } }
impl VxJson for String { open spec fn js(&self) -> JV { JV::Str(self@) } }
impl VxJson for Json { open spec fn js(&self) -> JV { self@ } }
impl<T: VxJson> VxJson for Vec<T> { open spec fn js(&self) -> JV { jarr(self@.map_values(|x: T| x.js())) } }
impl<T: VxJson> VxJson for Option<T> { open spec fn js(&self) -> JV { match self { Some(x) => x.js(), None => JV::Null } } }
impl<T: VxJson + ?Sized> VxJson for &T { open spec fn js(&self) -> JV { (**self).js() } }
#[verifier::external_body] pub fn vx_json<T: VxJson + ?Sized>(x: &T) -> (r: Json) ensures r@ == x.js() { unimplemented!() }
#[verifier::external_body] pub fn serde_to_value<T: VxJson>(x: T) -> (r: Result<Json, SerdeJsonError>) ensures (r matches Ok(j) && j@ == x.js()) { unimplemented!() }
/// what a document can be read as here: a document
pub trait VxDocument: Sized { spec fn dv(&self) -> JV; }
impl VxDocument for Json { open spec fn dv(&self) -> JV { self@ } }
#[verifier::external_body] pub fn serde_from_slice<J: VxDocument>(x: &[u8]) -> (r: Result<J, SerdeJsonError>) ensures match un_utf8(x@) { Some(t) => match json_parse(t) { Some(j) => (r matches Ok(v) && v.dv() == j), None => r is Err }, None => r is Err } { unimplemented!() }
#[verifier::external_body] pub fn serde_from_str<J: VxDocument>(x: &str) -> (r: Result<J, SerdeJsonError>) ensures match json_parse(x@) { Some(j) => (r matches Ok(v) && v.dv() == j), None => r is Err } { unimplemented!() }

// ------------------------------------------------------------------ errors and time of the standard library
pub struct IoError { x: u64 }
impl VxDisplay for IoError { uninterp spec fn disp(&self) -> Seq<char>; }
pub type IoResult<T> = Result<T, IoError>;
#[derive(Clone, Copy)] pub struct SystemTime { pub x: u64 }
pub struct SystemTimeError { x: u64 }
#[derive(Clone, Copy)] pub struct Duration { pub secs: u64, pub nanos: u32 }
pub const UNIX_EPOCH: SystemTime = SystemTime { x: 0 };
impl SystemTime {
    #[verifier::external_body] pub fn now() -> SystemTime { unimplemented!() }
    // assumed: the system clock is not before 1970
    #[verifier::external_body] pub fn duration_since(&self, o: SystemTime) -> (r: Result<Duration, SystemTimeError>) ensures o == UNIX_EPOCH ==> r is Ok { unimplemented!() }
}
impl Duration {
    #[verifier::external_body] pub fn as_secs(&self) -> (r: u64) ensures r == self.secs { unimplemented!() }
    #[verifier::external_body] pub fn as_millis(&self) -> (r: u128) ensures r == self.secs as u128 * 1000 + self.nanos as u128 / 1000000 { unimplemented!() }
    #[verifier::external_body] pub fn from_secs(s: u64) -> (r: Duration) ensures r.secs == s && r.nanos == 0 { unimplemented!() }
}

// ------------------------------------------------------------------ the outside world
#[verifier::external_body] pub struct World { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct SocketAddr { x: u64 }

// ------------------------------------------------------------------ the file system
/// a path, as the names it is made of
pub type Names = Seq<Seq<char>>;
#[verifier::external_body] pub struct PathBuf { x: u64 }
impl View for PathBuf { type V = Names; uninterp spec fn view(&self) -> Names; }
pub open spec fn word_char(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') || ('0' <= c && c <= '9') || c == '-' || c == '_' || c == '=' }
/// a text that is a name of its own, and nothing else, wherever it is joined to a path
pub open spec fn plain(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> word_char(#[trigger] s[i]) }
pub open spec fn digits(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> '0' <= #[trigger] s[i] <= '9' }
pub broadcast axiom fn ax_dec_digits(n: int) ensures 0 <= n ==> digits(#[trigger] dec_text(n)) && plain(dec_text(n));
pub uninterp spec fn path_names(s: Seq<char>) -> Names;
pub trait VxPath { spec fn pv(&self) -> Names; }
impl VxPath for PathBuf { open spec fn pv(&self) -> Names { self@ } }
impl VxPath for String { open spec fn pv(&self) -> Names { path_names(self@) } }
impl VxPath for str { open spec fn pv(&self) -> Names { path_names(self@) } }
impl<T: VxPath + ?Sized> VxPath for &T { open spec fn pv(&self) -> Names { (**self).pv() } }
impl PathBuf {
    #[verifier::external_body] pub fn vx_from<P: VxPath>(p: P) -> (r: PathBuf) ensures r@ == p.pv() { unimplemented!() }
    #[verifier::external_body] pub fn push<S: VxStr>(&mut self, s: S) ensures plain(s.sv()) ==> final(self)@ == old(self)@.push(s.sv()) { unimplemented!() }
    #[verifier::external_body] pub fn join<S: VxStr>(&self, s: S) -> (r: PathBuf) ensures plain(s.sv()) ==> r@ == self@.push(s.sv()) { unimplemented!() }
    #[verifier::external_body] pub fn exists(&self, vx_w: &mut World) -> (r: bool) ensures *final(vx_w) == *old(vx_w), files(*old(vx_w)).contains_key(self@) || dirs(*old(vx_w)).contains(self@) ==> r || !disk_ok(), r ==> files(*old(vx_w)).contains_key(self@) || dirs(*old(vx_w)).contains(self@) { unimplemented!() }
}
pub uninterp spec fn files(w: World) -> Map<Names, Seq<u8>>;
pub uninterp spec fn dirs(w: World) -> Set<Names>;
/// the states of the file system between the operations before now, the oldest first: where a process that
/// stopped, or an operation that was abandoned, would have left it
pub uninterp spec fn past(w: World) -> Seq<World>;
/// one operation: what was there before it is one more state of the past
pub open spec fn stepped(w0: World, w1: World) -> bool { past(w1) == past(w0).push(w0) }
/// no operation of the file system fails without a reason
pub uninterp spec fn disk_ok() -> bool;
pub open spec fn in_dir(w: World, d: Names, p: Names) -> bool { p.len() == d.len() + 1 && p.drop_last() == d && (files(w).contains_key(p) || dirs(w).contains(p)) }
/// this file now has this content; nothing else changed
pub open spec fn wrote(w0: World, w1: World, p: Names, b: Seq<u8>) -> bool { files(w1) == files(w0).insert(p, b) && dirs(w1) == dirs(w0) }
/// at most this file changed
pub open spec fn touched(w0: World, w1: World, p: Names) -> bool { dirs(w1) == dirs(w0) && forall|q: Names| #![trigger files(w1)[q]] #![trigger files(w1).contains_key(q)] q != p ==> files(w1).contains_key(q) == files(w0).contains_key(q) && files(w1)[q] == files(w0)[q] }
pub open spec fn removed(w0: World, w1: World, p: Names) -> bool { files(w1) == files(w0).remove(p) && dirs(w1) == dirs(w0) }
/// a file taken away, or written once already, and then written: as if written once
pub broadcast proof fn ax_rewrote(w0: World, w1: World, w2: World, p: Names, b: Seq<u8>) requires #[trigger] removed(w0, w1, p), #[trigger] wrote(w1, w2, p, b) ensures wrote(w0, w2, p, b) { assert(files(w2) =~= files(w0).insert(p, b)); }
pub broadcast proof fn ax_overwrote(w0: World, w1: World, w2: World, p: Names, a: Seq<u8>, b: Seq<u8>) requires #[trigger] wrote(w0, w1, p, a), #[trigger] wrote(w1, w2, p, b) ensures wrote(w0, w2, p, b) { assert(files(w2) =~= files(w0).insert(p, b)); }
/// these folders, and those they are in, may have been made
pub open spec fn made(w0: World, w1: World, p: Names) -> bool { files(w1) == files(w0) && dirs(w0).subset_of(dirs(w1)) && forall|d: Names| #[trigger] dirs(w1).contains(d) && !dirs(w0).contains(d) ==> d.len() <= p.len() && d == p.subrange(0, d.len() as int) }
#[verifier::external_body] pub fn fs_create_dir_all<P: VxPath>(p: P, vx_w: &mut World) -> (r: Result<(), IoError>)
    ensures stepped(*old(vx_w), *final(vx_w)), made(*old(vx_w), *final(vx_w), p.pv()), r is Ok ==> dirs(*final(vx_w)).contains(p.pv()), r is Err ==> !disk_ok() || exists|n: int| 0 <= n <= p.pv().len() && #[trigger] files(*old(vx_w)).contains_key(p.pv().subrange(0, n)) { unimplemented!() }
#[verifier::external_body] pub fn fs_write<P: VxPath, B: VxBytes>(p: P, b: B, vx_w: &mut World) -> (r: Result<(), IoError>)
    ensures stepped(*old(vx_w), *final(vx_w)), match r { Ok(_) => wrote(*old(vx_w), *final(vx_w), p.pv(), b.bv()), Err(_) => touched(*old(vx_w), *final(vx_w), p.pv()) && (!disk_ok() || p.pv().len() == 0 || !dirs(*old(vx_w)).contains(p.pv().drop_last()) || dirs(*old(vx_w)).contains(p.pv())) } { unimplemented!() }
#[verifier::external_body] pub fn fs_read<P: VxPath>(p: P, vx_w: &mut World) -> (r: Result<Vec<u8>, IoError>)
    ensures *final(vx_w) == *old(vx_w), match r { Ok(v) => files(*old(vx_w)).contains_key(p.pv()) && v@ == files(*old(vx_w))[p.pv()] && v@.len() <= isize::MAX, Err(_) => !disk_ok() || !files(*old(vx_w)).contains_key(p.pv()) } { unimplemented!() }
#[verifier::external_body] pub fn fs_remove_file<P: VxPath>(p: P, vx_w: &mut World) -> (r: Result<(), IoError>)
    ensures r is Ok ==> stepped(*old(vx_w), *final(vx_w)), match r { Ok(_) => files(*old(vx_w)).contains_key(p.pv()) && removed(*old(vx_w), *final(vx_w), p.pv()), Err(_) => *final(vx_w) == *old(vx_w) && (!disk_ok() || !files(*old(vx_w)).contains_key(p.pv())) } { unimplemented!() }
#[verifier::external_body] pub fn fs_rename<P: VxPath, Q: VxPath>(p: P, q: Q, vx_w: &mut World) -> (r: Result<(), IoError>)
    ensures r is Ok ==> stepped(*old(vx_w), *final(vx_w)), match r { Ok(_) => files(*old(vx_w)).contains_key(p.pv()) ==> files(*final(vx_w)) == files(*old(vx_w)).remove(p.pv()).insert(q.pv(), files(*old(vx_w))[p.pv()]) && dirs(*final(vx_w)) == dirs(*old(vx_w)), Err(_) => *final(vx_w) == *old(vx_w) && (!disk_ok() || !files(*old(vx_w)).contains_key(p.pv()) || dirs(*old(vx_w)).contains(q.pv())) } { unimplemented!() }
/// the entries of a folder, as they were found
#[verifier::external_body] pub struct ReadDir { x: u64 }
#[verifier::external_body] pub struct DirEntry { x: u64 }
impl DirEntry {
    pub uninterp spec fn names(&self) -> Names;
    #[verifier::external_body] pub fn path(&self) -> (r: PathBuf) ensures r@ == self.names() { unimplemented!() }
}
impl ReadDir {
    pub uninterp spec fn seq(&self) -> Seq<Names>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body] pub fn next_entry(&mut self) -> (r: Result<Option<DirEntry>, IoError>)
        requires 0 <= old(self).pos() <= old(self).seq().len()
        ensures final(self).seq() == old(self).seq(), match r {
            Ok(Some(e)) => old(self).pos() < old(self).seq().len() && e.names() == old(self).seq()[old(self).pos()] && final(self).pos() == old(self).pos() + 1,
            Ok(None) => old(self).pos() == old(self).seq().len() && final(self).pos() == old(self).pos(),
            Err(_) => !disk_ok() && final(self).pos() == old(self).pos() } { unimplemented!() }
}
pub open spec fn entries_of(s: Seq<Names>, w: World, d: Names) -> bool { s.no_duplicates() && (forall|i: int| 0 <= i < s.len() ==> in_dir(w, d, #[trigger] s[i])) && forall|p: Names| #[trigger] in_dir(w, d, p) ==> s.contains(p) }
#[verifier::external_body] pub fn fs_read_dir<P: VxPath>(p: P, vx_w: &mut World) -> (r: Result<ReadDir, IoError>)
    ensures *final(vx_w) == *old(vx_w), match r { Ok(d) => d.pos() == 0 && entries_of(d.seq(), *old(vx_w), p.pv()), Err(_) => !disk_ok() || !dirs(*old(vx_w)).contains(p.pv()) } { unimplemented!() }
/// slices of n, the last one maybe shorter
#[verifier::external_body] pub fn vx_chunks<'a, T>(x: &'a [T], n: usize) -> (r: VxIter<&'a [T]>) requires n > 0
    ensures r.pos() == 0, r.seq().len() == (x@.len() + n - 1) / (n as int), forall|i: int| 0 <= i < r.seq().len() ==> (#[trigger] r.seq()[i])@ == x@.subrange(i * n, if (i + 1) * n <= x@.len() { (i + 1) * n } else { x@.len() as int }) { unimplemented!() }
#[verifier::external_body] pub fn serde_to_vec<T: VxJson>(x: T) -> (r: Result<Vec<u8>, SerdeJsonError>) ensures (r matches Ok(v) && v@ == utf8(json_text(x.js()))) { unimplemented!() }
/// the document in a file
pub open spec fn doc_in(b: Seq<u8>) -> Option<JV> { match un_utf8(b) { Some(t) => json_parse(t), None => None } }

pub broadcast group vx_group { ax_utf8, ax_utf8_back, ax_string, ax_vec, ax_arr, ax_be64, ax_le64, ax_dec, ax_dec_digits, ax_json, ax_json_text, jv_ext, ax_rewrote, ax_overwrote, crate::crypt::crypt_group }
}

// ------------------------------------------------------------------ cryptographic libraries
pub mod crypt {
use vstd::prelude::*;
use crate::ext::*;

pub uninterp spec fn b64(b: Seq<u8>) -> Seq<char>;
pub uninterp spec fn un_b64(s: Seq<char>) -> Option<Seq<u8>>;
pub broadcast axiom fn ax_b64(b: Seq<u8>) ensures un_b64(#[trigger] b64(b)) == Some(b);
pub broadcast axiom fn ax_b64_words(b: Seq<u8>) ensures b.len() > 0 ==> (#[trigger] b64(b)).len() > 0, forall|i: int| 0 <= i < b64(b).len() ==> word_char(#[trigger] b64(b)[i]);
pub struct DecodeError { x: u64 }
impl VxDisplay for DecodeError { uninterp spec fn disp(&self) -> Seq<char>; }
pub struct GeneralPurpose { x: u64 }
pub struct GeneralPurposeConfig { x: u64 }
impl GeneralPurposeConfig { #[verifier::external_body] pub fn default() -> (r: Self) { unimplemented!() } }
pub struct Alphabet { pub x: u64 }
pub const URL_SAFE: Alphabet = Alphabet { x: 0 };
pub const STANDARD: Alphabet = Alphabet { x: 1 };
impl GeneralPurpose {
    pub uninterp spec fn url_safe(&self) -> bool;
    #[verifier::external_body] pub fn new(a: &Alphabet, c: GeneralPurposeConfig) -> (r: Self) ensures r.url_safe() == (*a == URL_SAFE) { unimplemented!() }
    #[verifier::external_body] pub fn encode<T: VxBytes>(&self, x: T) -> (r: String) ensures self.url_safe() ==> r@ == b64(x.bv()) { unimplemented!() }
    #[verifier::external_body] pub fn decode<T: VxStr>(&self, x: T) -> (r: Result<Vec<u8>, DecodeError>) ensures self.url_safe() ==> match un_b64(x.sv()) { Some(b) => (r matches Ok(v) && v@ == b), None => r is Err } { unimplemented!() }
}

pub struct EcError { x: u64 }
impl VxDisplay for EcError { uninterp spec fn disp(&self) -> Seq<char>; }
pub struct EcdsaError { x: u64 }
impl VxDisplay for EcdsaError { uninterp spec fn disp(&self) -> Seq<char>; }
#[verifier::external_body] pub struct K256Public { x: u64 }
#[verifier::external_body] pub struct K256Secret { x: u64 }
#[verifier::external_body] pub struct Signature { x: u64 }
#[verifier::external_body] pub struct VerifyingKey { x: u64 }
#[verifier::external_body] pub struct SigningKey { x: u64 }
pub uninterp spec fn sec1(k: K256Public) -> Seq<u8>;
pub uninterp spec fn un_sec1(b: Seq<u8>) -> Option<K256Public>;
pub broadcast axiom fn ax_sec1(k: K256Public) ensures (#[trigger] sec1(k)).len() == 33, un_sec1(sec1(k)) == Some(k);
pub uninterp spec fn sk_bytes(k: K256Secret) -> Seq<u8>;
pub uninterp spec fn un_sk_bytes(b: Seq<u8>) -> Option<K256Secret>;
pub broadcast axiom fn ax_sk_bytes(k: K256Secret) ensures (#[trigger] sk_bytes(k)).len() == 32, un_sk_bytes(sk_bytes(k)) == Some(k);
pub uninterp spec fn pub_of(k: K256Secret) -> K256Public;
/// the text form of a signature, and the text it stands for
pub uninterp spec fn sig_bytes(s: Signature) -> Seq<u8>;
pub uninterp spec fn un_sig(b: Seq<u8>) -> Option<Signature>;
pub broadcast axiom fn ax_sig(s: Signature) ensures (#[trigger] sig_bytes(s)).len() == 64, un_sig(sig_bytes(s)) == Some(s);
pub uninterp spec fn ecdsa_ok(k: K256Public, msg: Seq<u8>, s: Signature) -> bool;
pub uninterp spec fn ecdsa_sign(k: K256Secret, msg: Seq<u8>) -> Signature;
pub broadcast axiom fn ax_ecdsa(k: K256Secret, msg: Seq<u8>) ensures ecdsa_ok(pub_of(k), msg, #[trigger] ecdsa_sign(k, msg));
pub uninterp spec fn vk_pub(v: VerifyingKey) -> K256Public;
pub uninterp spec fn sk_sec(v: SigningKey) -> K256Secret;
impl K256Public {
    #[verifier::external_body] pub fn to_sec1_bytes(&self) -> (r: Box<[u8]>) ensures r@ == sec1(*self) { unimplemented!() }
    #[verifier::external_body] pub fn from_sec1_bytes(b: &[u8]) -> (r: Result<K256Public, EcError>) ensures match un_sec1(b@) { Some(k) => r == Ok::<K256Public, EcError>(k), None => r is Err } { unimplemented!() }
    #[verifier::external_body] pub fn as_affine(&self) -> (r: &AffinePoint) ensures affine_pub(*r) == *self { unimplemented!() }
}
impl K256Secret {
    #[verifier::external_body] pub fn to_bytes(&self) -> (r: FieldBytes) ensures r.fb() == sk_bytes(*self) { unimplemented!() }
    #[verifier::external_body] pub fn from_slice(b: &[u8]) -> (r: Result<K256Secret, EcError>) ensures match un_sk_bytes(b@) { Some(k) => r == Ok::<K256Secret, EcError>(k), None => r is Err } { unimplemented!() }
    #[verifier::external_body] pub fn public_key(&self) -> (r: K256Public) ensures r == pub_of(*self) { unimplemented!() }
    #[verifier::external_body] pub fn to_nonzero_scalar(&self) -> (r: Scalar) ensures scalar_sec(r) == *self { unimplemented!() }
}
#[verifier::external_body] pub struct FieldBytes { x: u64 }
impl FieldBytes { pub uninterp spec fn fb(&self) -> Seq<u8>; }
impl VxSl<u8> for FieldBytes { open spec fn slv(&self) -> Seq<u8> { self.fb() } }
impl FieldBytes { #[verifier::external_body] pub fn to_vec(&self) -> (r: Vec<u8>) ensures r@ == self.fb() { unimplemented!() } }
#[verifier::external_body] pub struct AffinePoint { x: u64 }
#[verifier::external_body] pub struct Scalar { x: u64 }
pub uninterp spec fn affine_pub(a: AffinePoint) -> K256Public;
pub uninterp spec fn scalar_sec(a: Scalar) -> K256Secret;
impl core::convert::From<&K256Public> for VerifyingKey { #[verifier::external_body] fn from(k: &K256Public) -> (r: VerifyingKey) ensures vk_pub(r) == *k { unimplemented!() } }
impl core::convert::From<&K256Secret> for SigningKey { #[verifier::external_body] fn from(k: &K256Secret) -> (r: SigningKey) ensures sk_sec(r) == *k { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<&K256Public> for VerifyingKey { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: &K256Public) -> VerifyingKey { arbitrary() } }
impl vstd::std_specs::convert::FromSpecImpl<&K256Secret> for SigningKey { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: &K256Secret) -> SigningKey { arbitrary() } }
impl VerifyingKey { #[verifier::external_body] pub fn verify(&self, msg: &[u8], s: &Signature) -> (r: Result<(), EcdsaError>) ensures (r is Ok) == ecdsa_ok(vk_pub(*self), msg@, *s) { unimplemented!() } }
impl SigningKey { #[verifier::external_body] pub fn sign(&self, msg: &[u8]) -> (r: Signature) ensures r == ecdsa_sign(sk_sec(*self), msg@) { unimplemented!() } }
impl Signature {
    #[verifier::external_body] pub fn from_slice(b: &[u8]) -> (r: Result<Signature, EcdsaError>) ensures match un_sig(b@) { Some(k) => r == Ok::<Signature, EcdsaError>(k), None => r is Err } { unimplemented!() }
    #[verifier::external_body] pub fn to_vec(&self) -> (r: Vec<u8>) ensures r@ == sig_bytes(*self) { unimplemented!() }
}
// key agreement
#[verifier::external_body] pub struct SharedSecret { x: u64 }
#[verifier::external_body] pub struct Hkdf { x: u64 }
pub struct InvalidLength { x: u64 }
pub struct Sha256 { x: u64 }
pub uninterp spec fn dh(sk: K256Secret, pk: K256Public) -> Seq<u8>;
/// the same point from either side
pub broadcast axiom fn ax_dh(a: K256Secret, b: K256Secret) ensures #[trigger] dh(a, pub_of(b)) == dh(b, pub_of(a));
pub uninterp spec fn hkdf(ikm: Seq<u8>, salt: Option<Seq<u8>>, info: Seq<u8>, n: int) -> Seq<u8>;
pub broadcast axiom fn ax_hkdf(ikm: Seq<u8>, salt: Option<Seq<u8>>, info: Seq<u8>, n: int) requires n >= 0 ensures (#[trigger] hkdf(ikm, salt, info, n)).len() == n;
pub uninterp spec fn ss(s: SharedSecret) -> Seq<u8>;
pub uninterp spec fn hk(s: Hkdf) -> (Seq<u8>, Option<Seq<u8>>);
pub open spec fn oview(s: Option<&[u8]>) -> Option<Seq<u8>> { match s { Some(x) => Some(x@), None => None } }
#[verifier::external_body] pub fn diffie_hellman(s: Scalar, p: &AffinePoint) -> (r: SharedSecret) ensures ss(r) == dh(scalar_sec(s), affine_pub(*p)) { unimplemented!() }
impl SharedSecret { #[verifier::external_body] pub fn extract<H>(&self, salt: Option<&[u8]>) -> (r: Hkdf) ensures hk(r) == (ss(*self), oview(salt)) { unimplemented!() } }
impl Hkdf {
    #[verifier::external_body] pub fn expand<const N: usize>(&self, info: &[u8], out: &mut [u8; N]) -> (r: Result<(), InvalidLength>)
        ensures N <= 8160 ==> r is Ok && final(out)@ == hkdf(hk(*self).0, hk(*self).1, info@, N as int) { unimplemented!() }
}
pub trait CryptoRngCore {}
impl CryptoRngCore for ChaCha20Rng {}
#[verifier::external_body] pub struct ChaCha20Rng { x: u64 }
impl ChaCha20Rng { #[verifier::external_body] pub fn from_entropy() -> ChaCha20Rng { unimplemented!() } #[verifier::external_body] pub fn next_u64(&mut self) -> u64 { unimplemented!() } }
impl K256Secret { #[verifier::external_body] pub fn random<R>(r: &mut R) -> K256Secret { unimplemented!() } }

// ------------------------------------------------------------------ authenticated encryption
pub struct AeadError { x: u64 }
impl VxDisplay for AeadError { uninterp spec fn disp(&self) -> Seq<char>; }
pub trait KeyInit {}
pub trait Aead {}
#[verifier::external_body] pub struct AeadKey { x: u64 }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct AesKey<T> { x: core::marker::PhantomData<T> }
impl<T> AesKey<T> { pub uninterp spec fn kv(&self) -> Seq<u8>; #[verifier::external_body] pub fn from_slice<S: VxSl<u8> + ?Sized>(x: &S) -> (r: &AesKey<T>) requires x.slv().len() == 32 ensures r.kv() == x.slv() { unimplemented!() } }
#[verifier::external_body] pub struct AeadNonce { x: u64 }
impl AeadKey { pub uninterp spec fn kv(&self) -> Seq<u8>; #[verifier::external_body] pub fn from_slice<S: VxSl<u8> + ?Sized>(x: &S) -> (r: &AeadKey) requires x.slv().len() == 32 ensures r.kv() == x.slv() { unimplemented!() } }
impl AeadNonce { pub uninterp spec fn nv(&self) -> Seq<u8>; #[verifier::external_body] pub fn from_slice<S: VxSl<u8> + ?Sized>(x: &S) -> (r: &AeadNonce) requires x.slv().len() == 12 ensures r.nv() == x.slv() { unimplemented!() } }
#[verifier::external_body] pub struct Aes256Gcm { x: u64 }
#[verifier::external_body] pub struct ChaCha20Poly1305 { x: u64 }
/// sealing with AES (true) or ChaCha20
pub uninterp spec fn seal(aes: bool, k: Seq<u8>, n: Seq<u8>, d: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn unseal(aes: bool, k: Seq<u8>, n: Seq<u8>, d: Seq<u8>) -> Option<Seq<u8>>;
pub broadcast axiom fn ax_seal(aes: bool, k: Seq<u8>, n: Seq<u8>, d: Seq<u8>) ensures unseal(aes, k, n, #[trigger] seal(aes, k, n, d)) == Some(d);
/// what these ciphers take at once (less than either limit)
pub open spec fn seal_max() -> int { 0x3_0000_0000 }
impl Aes256Gcm {
    pub uninterp spec fn key(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn new(k: &AesKey<Aes256Gcm>) -> (r: Aes256Gcm) ensures r.key() == k.kv() { unimplemented!() }
    #[verifier::external_body] pub fn encrypt(&self, n: &AeadNonce, d: &[u8]) -> (r: Result<Vec<u8>, AeadError>) ensures d@.len() <= seal_max() ==> r is Ok, (r matches Ok(v) ==> v@ == seal(true, self.key(), n.nv(), d@)) { unimplemented!() }
    #[verifier::external_body] pub fn decrypt(&self, n: &AeadNonce, d: &[u8]) -> (r: Result<Vec<u8>, AeadError>) ensures match unseal(true, self.key(), n.nv(), d@) { Some(x) => (r matches Ok(v) && v@ == x), None => r is Err } { unimplemented!() }
}
impl ChaCha20Poly1305 {
    pub uninterp spec fn key(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn new(k: &AeadKey) -> (r: ChaCha20Poly1305) ensures r.key() == k.kv() { unimplemented!() }
    #[verifier::external_body] pub fn encrypt(&self, n: &AeadNonce, d: &[u8]) -> (r: Result<Vec<u8>, AeadError>) ensures d@.len() <= seal_max() ==> r is Ok, (r matches Ok(v) ==> v@ == seal(false, self.key(), n.nv(), d@)) { unimplemented!() }
    #[verifier::external_body] pub fn decrypt(&self, n: &AeadNonce, d: &[u8]) -> (r: Result<Vec<u8>, AeadError>) ensures match unseal(false, self.key(), n.nv(), d@) { Some(x) => (r matches Ok(v) && v@ == x), None => r is Err } { unimplemented!() }
}
// ------------------------------------------------------------------ compression
pub struct BrotliEncoderParams { pub quality: i32, pub favor_cpu_efficiency: bool, pub large_window: bool, pub size_hint: usize, pub lgwin: i32, pub lgblock: i32, pub catable: bool, pub appendable: bool, pub magic_number: bool }
impl BrotliEncoderParams { #[verifier::external_body] pub fn default() -> (r: Self) ensures r.quality == 11, !r.favor_cpu_efficiency, !r.large_window, r.size_hint == 0, r.lgwin == 22, r.lgblock == 0, !r.catable, !r.appendable, !r.magic_number { unimplemented!() } }
pub open spec fn brotli_sane(p: BrotliEncoderParams) -> bool { 0 <= p.quality <= 11 && p.lgwin == 22 && p.lgblock == 0 && !p.catable && !p.appendable && !p.magic_number }
pub uninterp spec fn brotli(d: Seq<u8>, p: BrotliEncoderParams) -> Seq<u8>;
pub uninterp spec fn un_brotli(d: Seq<u8>) -> Option<Seq<u8>>;
pub broadcast axiom fn ax_brotli(d: Seq<u8>, p: BrotliEncoderParams) requires brotli_sane(p) ensures un_brotli(#[trigger] brotli(d, p)) == Some(d);
#[verifier::external_body] pub fn BrotliCompress(d: &mut &[u8], out: &mut Vec<u8>, p: &BrotliEncoderParams) -> (r: IoResult<usize>) ensures r is Ok, final(out)@ == old(out)@ + brotli((*old(d))@, *p) { unimplemented!() }
#[verifier::external_body] pub fn BrotliDecompress(d: &mut &[u8], out: &mut Vec<u8>) -> (r: IoResult<()>) ensures match un_brotli((*old(d))@) { Some(x) => r is Ok && final(out)@ == old(out)@ + x, None => r is Err } { unimplemented!() }
pub struct FlateLevel { pub n: u32 }
impl FlateLevel {
    #[verifier::external_body] pub fn fast() -> (r: Self) ensures r.n == 1 { unimplemented!() }
    #[verifier::external_body] pub fn best() -> (r: Self) ensures r.n == 9 { unimplemented!() }
    #[verifier::external_body] pub fn none() -> (r: Self) ensures r.n == 0 { unimplemented!() }
    #[verifier::external_body] pub fn default() -> (r: Self) ensures r.n == 6 { unimplemented!() }
    #[verifier::external_body] pub fn new(n: u32) -> (r: Self) ensures r.n == n { unimplemented!() }
}
pub uninterp spec fn deflate(d: Seq<u8>, n: u32) -> Seq<u8>;
/// what feeding a decoder some bytes and finishing it gives, if it gives anything (it is a function of the bytes)
pub uninterp spec fn inflate(d: Seq<u8>) -> Option<Seq<u8>>;
pub broadcast axiom fn ax_deflate(d: Seq<u8>, n: u32) requires n <= 9 ensures inflate(#[trigger] deflate(d, n)) == Some(d);
#[verifier::external_body] pub struct DeflateEncoder { x: u64 }
impl DeflateEncoder {
    pub uninterp spec fn out(&self) -> Seq<u8>;
    pub uninterp spec fn fed(&self) -> Seq<u8>;
    pub uninterp spec fn lvl(&self) -> u32;
    #[verifier::external_body] pub fn new(w: Vec<u8>, c: FlateLevel) -> (r: Self) ensures r.out() == w@, r.fed() == Seq::<u8>::empty(), r.lvl() == c.n { unimplemented!() }
    #[verifier::external_body] pub fn write_all(&mut self, d: &[u8]) -> (r: IoResult<()>) ensures r is Ok, final(self).out() == old(self).out(), final(self).lvl() == old(self).lvl(), final(self).fed() == old(self).fed() + d@ { unimplemented!() }
    #[verifier::external_body] pub fn finish(self) -> (r: IoResult<Vec<u8>>) ensures (r matches Ok(v) && v@ == self.out() + deflate(self.fed(), self.lvl())) { unimplemented!() }
}
#[verifier::external_body] pub struct DeflateDecoder { x: u64 }
impl DeflateDecoder {
    pub uninterp spec fn out(&self) -> Seq<u8>;
    pub uninterp spec fn fed(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn new(w: Vec<u8>) -> (r: Self) ensures r.out() == w@, r.fed() == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn write_all(&mut self, d: &[u8]) -> (r: IoResult<()>) ensures final(self).out() == old(self).out(), final(self).fed() == old(self).fed() + d@, inflate(old(self).fed() + d@) is Some ==> r is Ok { unimplemented!() }
    #[verifier::external_body] pub fn finish(self) -> (r: IoResult<Vec<u8>>) ensures match inflate(self.fed()) { Some(x) => (r matches Ok(v) && v@ == self.out() + x), None => r is Err } { unimplemented!() }
}

pub broadcast group crypt_group { ax_b64_words, ax_seal, ax_brotli, ax_deflate, ax_b64, ax_sec1, ax_sk_bytes, ax_sig, ax_ecdsa, ax_dh, ax_hkdf }
}

// ------------------------------------------------------------------ easy_upnp
pub mod upnp {
use vstd::prelude::*;
use super::ext::*;
pub struct Error { x: u64 }
impl VxDisplay for Error { uninterp spec fn disp(&self) -> Seq<char>; }
#[derive(Clone, Copy)] pub struct Ipv4Cidr { pub x: u64 }
#[derive(Clone, Copy)] pub enum PortMappingProtocol { TCP, UDP }
pub struct UpnpConfig { pub address: Option<Ipv4Cidr>, pub port: u16, pub protocol: PortMappingProtocol, pub duration: u32, pub comment: String }
/// one request to the gateway and whether it agreed
pub struct Asked { pub add: bool, pub what: UpnpConfig, pub ok: bool }
/// every request to the gateway so far
pub uninterp spec fn gateway(w: World) -> Seq<Asked>;
/// one more request
pub open spec fn made(w0: World, w1: World, a: Asked) -> bool { gateway(w1) == gateway(w0).push(a) }
/// requests not made yet: each is made when its outcome is asked for
#[verifier::external_body] pub struct Requests { x: u64 }
impl Requests {
    pub uninterp spec fn todo(&self) -> Seq<UpnpConfig>;
    pub uninterp spec fn add(&self) -> bool;
    #[verifier::external_body] pub fn next(&mut self, vx_w: &mut World) -> (r: Option<Result<(), Error>>)
        ensures final(self).add() == old(self).add(),
            old(self).todo().len() == 0 ==> r is None && *final(vx_w) == *old(vx_w) && final(self).todo() == old(self).todo(),
            old(self).todo().len() > 0 ==> r is Some && final(self).todo() == old(self).todo().drop_first()
                && made(*old(vx_w), *final(vx_w), Asked { add: old(self).add(), what: old(self).todo()[0], ok: r->Some_0 is Ok }) { unimplemented!() }
}
#[verifier::external_body] pub fn add_ports<S: VxSeqSrc<UpnpConfig>>(c: S) -> (r: Requests) ensures r.add(), r.todo() == c.src() { unimplemented!() }
#[verifier::external_body] pub fn delete_ports<S: VxSeqSrc<UpnpConfig>>(c: S) -> (r: Requests) ensures !r.add(), r.todo() == c.src() { unimplemented!() }
/// the requests and outcomes of a whole collection
pub open spec fn all_asked(add: bool, c: Seq<UpnpConfig>, w0: World, w1: World, r: Seq<Result<(), Error>>) -> bool {
    &&& r.len() == c.len()
    &&& gateway(w1).len() == gateway(w0).len() + c.len()
    &&& forall|i: int| 0 <= i < gateway(w0).len() ==> #[trigger] gateway(w1)[i] == gateway(w0)[i]
    &&& forall|i: int| 0 <= i < c.len() ==> #[trigger] gateway(w1)[gateway(w0).len() + i] == (Asked { add, what: c[i], ok: r[i] is Ok })
}
pub fn vx_collect(x: Requests, vx_w: &mut World) -> (r: Vec<Result<(), Error>>)
    ensures all_asked(x.add(), x.todo(), *old(vx_w), *final(vx_w), r@)
{
    let mut x = x; let ghost c = x.todo(); let ghost a = x.add(); let ghost w0 = *vx_w; let mut out: Vec<Result<(), Error>> = Vec::new();
    assert(c.subrange(0, c.len() as int) =~= c);
    loop
        invariant_except_break out@.len() <= c.len(), x.add() == a, x.todo() == c.subrange(out@.len() as int, c.len() as int), all_asked(a, c.subrange(0, out@.len() as int), w0, *vx_w, out@)
        ensures all_asked(a, c, w0, *vx_w, out@)
        decreases x.todo().len()
    {
        let ghost before = *vx_w; let ghost n = out@.len() as int;
        let Some(v) = x.next(vx_w) else { assert(c.subrange(0, n) =~= c); break; };
        assert(x.todo() =~= c.subrange(n + 1, c.len() as int));
        assert(c.subrange(n, c.len() as int)[0] == c[n]);
        let ghost ok = v is Ok;
        out.push(v);
        assert forall|i: int| 0 <= i < n + 1 implies #[trigger] gateway(*vx_w)[gateway(w0).len() + i] == (Asked { add: a, what: c.subrange(0, n + 1)[i], ok: out@[i] is Ok }) by {
            if i < n { assert(gateway(before)[gateway(w0).len() + i] == (Asked { add: a, what: c.subrange(0, n)[i], ok: out@[i] is Ok })); }
        }
        assert forall|i: int| 0 <= i < gateway(w0).len() implies #[trigger] gateway(*vx_w)[i] == gateway(w0)[i] by { assert(gateway(before)[i] == gateway(w0)[i]); }
    }
    out
}
}

// ------------------------------------------------------------------ axum and reqwest
pub mod web {
use vstd::prelude::*;
use super::ext::*;
pub struct Error { x: u64 }
impl VxDisplay for Error { uninterp spec fn disp(&self) -> Seq<char>; }
/// one request on the wire and what came back: the status and the document in the body, if it is one; nothing for a failed transport
pub struct Wire { pub post: bool, pub url: Seq<char>, pub body: Option<JV>, pub got: Option<(u16, Option<JV>)> }
pub uninterp spec fn wire(w: World) -> Seq<Wire>;
#[verifier::external_body] pub struct Client { x: u64 }
#[verifier::external_body] pub struct RequestBuilder { x: u64 }
#[verifier::external_body] pub struct Response { x: u64 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct StatusCode { x: u16 }
impl Clone for Client { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Client {
    #[verifier::external_body] pub fn new() -> (r: Self) { unimplemented!() }
    #[verifier::external_body] pub fn get<S: VxStr>(&self, url: S) -> (r: RequestBuilder) ensures !r.post(), r.url() == url.sv(), r.body() is None { unimplemented!() }
    #[verifier::external_body] pub fn post<S: VxStr>(&self, url: S) -> (r: RequestBuilder) ensures r.post(), r.url() == url.sv(), r.body() is None { unimplemented!() }
}
impl RequestBuilder {
    pub uninterp spec fn post(&self) -> bool;
    pub uninterp spec fn url(&self) -> Seq<char>;
    pub uninterp spec fn body(&self) -> Option<JV>;
    #[verifier::external_body] pub fn json<J: VxDocument>(self, j: &J) -> (r: RequestBuilder) ensures r.post() == self.post(), r.url() == self.url(), r.body() == Some(j.dv()) { unimplemented!() }
    /// an address that is none is refused before anything is sent
    #[verifier::external_body] pub fn send(self, vx_w: &mut World) -> (r: Result<Response, Error>)
        ensures (r is Err && wire(*final(vx_w)) == wire(*old(vx_w))) || wire(*final(vx_w)) == wire(*old(vx_w)).push(Wire { post: self.post(), url: self.url(), body: self.body(), got: match r { Ok(a) => Some((a.code(), a.doc())), Err(_) => None } }) { unimplemented!() }
}
impl Response {
    pub uninterp spec fn code(&self) -> u16;
    pub uninterp spec fn doc(&self) -> Option<JV>;
    #[verifier::external_body] pub fn status(&self) -> (r: StatusCode) ensures r.n() == self.code() { unimplemented!() }
    #[verifier::external_body] pub fn json<J: VxDocument>(self) -> (r: Result<J, Error>) ensures match self.doc() { Some(j) => (r matches Ok(v) && v.dv() == j), None => r is Err } { unimplemented!() }
}
impl StatusCode {
    pub uninterp spec fn n(&self) -> u16;
    #[verifier::external_body] pub fn as_u16(&self) -> (r: u16) ensures r == self.n() { unimplemented!() }
}
/// an answer of the server
pub struct HttpResponse<T> { pub code: u16, pub body: T }
#[verifier::external_body] pub struct Builder { x: u64 }
pub struct HttpError { x: u64 }
impl HttpResponse<()> { #[verifier::external_body] pub fn builder() -> (r: Builder) ensures r.code() == 200, r.sane() { unimplemented!() } }
impl Builder {
    pub uninterp spec fn code(&self) -> u16;
    pub uninterp spec fn sane(&self) -> bool;
    #[verifier::external_body] pub fn header(self, k: &str, v: &str) -> (r: Builder) ensures r.code() == self.code(), self.sane() && header_ok(k@, v@) ==> r.sane() { unimplemented!() }
    #[verifier::external_body] pub fn status(self, n: u16) -> (r: Builder) ensures r.code() == n, self.sane() && 100 <= n <= 999 ==> r.sane() { unimplemented!() }
    #[verifier::external_body] pub fn body<T>(self, b: T) -> (r: Result<HttpResponse<T>, HttpError>) ensures self.sane() ==> (r matches Ok(x) && x.code == self.code() && x.body == b) { unimplemented!() }
}
pub uninterp spec fn header_ok(k: Seq<char>, v: Seq<char>) -> bool;
pub broadcast axiom fn ax_json_header(k: Seq<char>, v: Seq<char>) ensures k == "Content-Type"@ && v == "text/json"@ ==> #[trigger] header_ok(k, v);
/// which requests are handled
pub struct Route { pub post: bool, pub path: Seq<char> }
#[verifier::external_body] pub struct Router { x: u64 }
#[verifier::external_body] pub struct MethodRouter { x: u64 }
impl MethodRouter { pub uninterp spec fn post(&self) -> bool; }
#[verifier::external_body] pub fn on_method(post: bool) -> (r: MethodRouter) ensures r.post() == post { unimplemented!() }
impl Router {
    pub uninterp spec fn routes(&self) -> Set<Route>;
    #[verifier::external_body] pub fn default() -> (r: Self) ensures r.routes() == Set::<Route>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.routes() == Set::<Route>::empty() { unimplemented!() }
    /// a route that is there already is refused by a panic
    #[verifier::external_body] pub fn route(self, path: &str, m: MethodRouter) -> (r: Self) requires !self.routes().contains(Route { post: m.post(), path: path@ }) ensures r.routes() == self.routes().insert(Route { post: m.post(), path: path@ }) { unimplemented!() }
}
/// what an address text stands for
pub trait VxAddrs { spec fn addrs(&self) -> Option<Seq<SocketAddr>>; fn to_socket_addrs(&self) -> (r: Result<VxIter<SocketAddr>, IoError>) ensures match r { Ok(x) => self.addrs() == Some(x.seq()) && x.pos() == 0, Err(_) => self.addrs() is None }; }
/// what listens: where, and what it answers
pub struct Served { pub at: SocketAddr, pub routes: Set<Route> }
pub uninterp spec fn serving(w: World) -> Seq<Served>;
/// the first place the address stands for is served, all of the routes and nothing else; or nothing is, and that is reported
pub open spec fn served(w0: World, w1: World, at: Option<Seq<SocketAddr>>, routes: Set<Route>, ok: bool) -> bool {
    let done = at matches Some(a) && a.len() > 0 && serving(w1) == serving(w0).push(Served { at: a[0], routes });
    if ok { done } else { done || serving(w1) == serving(w0) }
}
/// an endpoint's handler, which is verified as a function of its own
#[verifier::external_body] #[verifier::reject_recursive_types(A)] #[verifier::reject_recursive_types(R)]
pub struct VxHandler<A, R> { x: core::marker::PhantomData<(A, R)> }
impl<A, R> VxCallback<A, R> for VxHandler<A, R> {
    uninterp spec fn cb_rel(&self, a: A, w0: World, r: R, w1: World) -> bool;
    #[verifier::external_body] fn vx_call(self, a: A, vx_w: &mut World) -> (r: R) { unimplemented!() }
}
#[verifier::external_body] pub fn vx_handler<A, R>() -> (r: VxHandler<A, R>) { unimplemented!() }
#[verifier::external_body] pub struct MakeService { x: u64 }
impl MakeService { pub uninterp spec fn routes(&self) -> Set<Route>; }
impl Router { #[verifier::external_body] pub fn into_make_service_with_connect_info<C>(self) -> (r: MakeService) ensures r.routes() == self.routes() { unimplemented!() } }
#[verifier::external_body] pub struct TcpListener { x: u64 }
impl TcpListener {
    pub uninterp spec fn at(&self) -> SocketAddr;
    #[verifier::external_body] pub fn bind(a: SocketAddr) -> (r: Result<TcpListener, IoError>) ensures (r matches Ok(l) ==> l.at() == a) { unimplemented!() }
}
#[verifier::external_body] pub fn axum_serve(l: TcpListener, s: MakeService, vx_w: &mut World) -> (r: Result<(), IoError>) ensures serving(*final(vx_w)) == serving(*old(vx_w)).push(Served { at: l.at(), routes: s.routes() }) { unimplemented!() }
pub type HttpBody = Vec<u8>;
}
