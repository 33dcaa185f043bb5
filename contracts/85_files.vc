# The routing table on disk and the inbox on disk.
@mod drivers::server::router::global_table
use crate::crypto::asymmetric::{PublicKey, pk_text};
/// a record of one of the tables: which file it is kept in, and whether a file's content says it
pub trait Kept: Sized { spec fn key(&self) -> Seq<char>; spec fn said(&self, b: Seq<u8>) -> bool; }
pub open spec fn part(b: Seq<u8>, k: Seq<char>) -> Option<JV> { match doc_in(b) { Some(j) => jget(j, k), None => None } }
impl Kept for Client { open spec fn key(&self) -> Seq<char> { pk_text(self.public_key) } open spec fn said(&self, b: Seq<u8>) -> bool { part(b, "client"@) == Some(self.enc()) } }
impl Kept for Server { open spec fn key(&self) -> Seq<char> { pk_text(self.public_key) } open spec fn said(&self, b: Seq<u8>) -> bool { part(b, "server"@) == Some(self.enc()) } }
impl Kept for (Client, Server) { open spec fn key(&self) -> Seq<char> { pk_text(self.0.public_key) } open spec fn said(&self, b: Seq<u8>) -> bool { part(b, "client"@) == Some(self.0.enc()) && part(b, "server"@) == Some(self.1.enc()) } }
/// the folder d holds exactly the records of m, each in the file of its key
pub open spec fn table<T: Kept>(w: World, d: Names, m: Map<Seq<char>, T>) -> bool {
    &&& dirs(w).contains(d)
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> m[k].key() == k && files(w).contains_key(d.push(k)) && m[k].said(files(w)[d.push(k)])
    &&& forall|p: Names| #[trigger] in_dir(w, d, p) ==> m.contains_key(p.last()) && !dirs(w).contains(p)
}
/// exactly the records of m, each once
pub open spec fn lists<T: Kept>(v: Seq<T>, m: Map<Seq<char>, T>) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> m.contains_key((#[trigger] v[i]).key()) && m[v[i].key()] == v[i]
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).key() != (#[trigger] v[j]).key()
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).key() == k
}
/// the records of the first n of these files
pub open spec fn listed<T: Kept>(v: Seq<T>, s: Seq<Names>, n: int, m: Map<Seq<char>, T>) -> bool {
    v.len() == n && n <= s.len() && forall|i: int| 0 <= i < n ==> m.contains_key(s[i].last()) && (#[trigger] v[i]) == m[s[i].last()]
}
pub open spec fn local_dir(r: Names) -> Names { r.push("local"@) }
pub open spec fn remote_dir(r: Names) -> Names { r.push("remote"@) }
pub open spec fn server_dir(r: Names) -> Names { r.push("servers"@) }
/// only these three files may have changed
pub open spec fn touched3(w0: World, w1: World, p: Names, q: Names, s: Names) -> bool { dirs(w1) == dirs(w0) && forall|f: Names| #![trigger files(w1)[f]] #![trigger files(w1).contains_key(f)] f != p && f != q && f != s ==> files(w1).contains_key(f) == files(w0).contains_key(f) && files(w1)[f] == files(w0)[f] }
pub broadcast proof fn lm_path(d: Names, k: Seq<char>)
    ensures (#[trigger] d.push(k)).last() == k, d.push(k).drop_last() == d, d.push(k).len() == d.len() + 1
{ assert(d.push(k).drop_last() =~= d); }
pub proof fn lm_path_of(p: Names) requires p.len() > 0 ensures p == p.drop_last().push(p.last()) { assert(p =~= p.drop_last().push(p.last())); }
pub broadcast proof fn lm_put<T: Kept>(w0: World, w1: World, d: Names, k: Seq<char>, b: Seq<u8>, m: Map<Seq<char>, T>, x: T)
    requires #[trigger] table(w0, d, m), #[trigger] wrote(w0, w1, d.push(k), b), x.said(b), x.key() == k
    ensures table(w1, d, #[trigger] m.insert(k, x))
{
    broadcast use lm_path;
    let m1 = m.insert(k, x);
    assert forall|q: Seq<char>| #[trigger] m1.contains_key(q) implies m1[q].key() == q && files(w1).contains_key(d.push(q)) && m1[q].said(files(w1)[d.push(q)]) by {
        if q != k { assert(m.contains_key(q)); assert(d.push(q).last() != d.push(k).last()); }
    }
    assert forall|p: Names| #[trigger] in_dir(w1, d, p) implies m1.contains_key(p.last()) && !dirs(w1).contains(p) by {
        lm_path_of(p);
        if p == d.push(k) { if dirs(w0).contains(p) { assert(in_dir(w0, d, p)); } } else { assert(in_dir(w0, d, p)); }
    }
}
pub broadcast proof fn lm_else<T: Kept>(w0: World, w1: World, d: Names, e: Names, k: Seq<char>, m: Map<Seq<char>, T>)
    requires #[trigger] table(w0, d, m), #[trigger] touched(w0, w1, e.push(k)), d != e
    ensures table(w1, d, m)
{
    broadcast use lm_path;
    assert forall|q: Seq<char>| #[trigger] m.contains_key(q) implies files(w1).contains_key(d.push(q)) && files(w1)[d.push(q)] == files(w0)[d.push(q)] by { assert(d.push(q).drop_last() != e.push(k).drop_last()); }
    assert forall|p: Names| #[trigger] in_dir(w1, d, p) implies m.contains_key(p.last()) && !dirs(w1).contains(p) by {
        assert(p != e.push(k)) by { assert(e.push(k).drop_last() == e); }
        assert(in_dir(w0, d, p));
    }
}
pub broadcast proof fn lm_wrote(w0: World, w1: World, p: Names, b: Seq<u8>) requires #[trigger] wrote(w0, w1, p, b) ensures touched(w0, w1, p) {}
pub broadcast proof fn lm_removed(w0: World, w1: World, p: Names) requires #[trigger] removed(w0, w1, p) ensures touched(w0, w1, p) {}
pub broadcast proof fn lm_drop<T: Kept>(w0: World, w1: World, d: Names, k: Seq<char>, m: Map<Seq<char>, T>)
    requires #[trigger] table(w0, d, m), #[trigger] removed(w0, w1, d.push(k))
    ensures table(w1, d, #[trigger] m.remove(k))
{
    broadcast use lm_path;
    let m1 = m.remove(k);
    assert forall|q: Seq<char>| #[trigger] m1.contains_key(q) implies m1[q].key() == q && files(w1).contains_key(d.push(q)) && m1[q].said(files(w1)[d.push(q)]) by { assert(m.contains_key(q)); assert(d.push(q).last() != d.push(k).last()); }
    assert forall|p: Names| #[trigger] in_dir(w1, d, p) implies m1.contains_key(p.last()) && !dirs(w1).contains(p) by {
        lm_path_of(p);
        assert(in_dir(w0, d, p));
        if p.last() == k { assert(p == d.push(k)); }
    }
}
pub broadcast proof fn lm_no_dir<T: Kept>(w: World, d: Names, k: Seq<char>, m: Map<Seq<char>, T>)
    requires #[trigger] table(w, d, m)
    ensures !dirs(w).contains(#[trigger] d.push(k))
{ broadcast use lm_path; if dirs(w).contains(d.push(k)) { assert(in_dir(w, d, d.push(k))); } }
pub broadcast proof fn lm_entry<T: Kept>(w: World, d: Names, p: Names, m: Map<Seq<char>, T>)
    requires #[trigger] table(w, d, m), #[trigger] in_dir(w, d, p)
    ensures p == d.push(p.last()), m.contains_key(p.last()), files(w).contains_key(p), m[p.last()].said(files(w)[p])
{ lm_path_of(p); }
/// making a folder keeps what is in the folders of the same depth
pub broadcast proof fn lm_made<T: Kept>(w0: World, w1: World, d: Names, e: Names, m: Map<Seq<char>, T>)
    requires #[trigger] table(w0, d, m), #[trigger] made(w0, w1, e), e.len() <= d.len()
    ensures table(w1, d, m)
{ assert forall|p: Names| #[trigger] in_dir(w1, d, p) implies in_dir(w0, d, p) && !dirs(w1).contains(p) by { if dirs(w1).contains(p) && !dirs(w0).contains(p) { assert(p.len() <= e.len()); } assert(in_dir(w0, d, p)); } }
pub open spec fn empty_dir(w: World, d: Names) -> bool { forall|p: Names| !#[trigger] in_dir(w, d, p) }
pub broadcast proof fn lm_still_empty(w0: World, w1: World, d: Names, e: Names)
    requires #[trigger] empty_dir(w0, d), #[trigger] made(w0, w1, e), e.len() <= d.len()
    ensures empty_dir(w1, d)
{ assert forall|p: Names| #[trigger] in_dir(w1, d, p) implies in_dir(w0, d, p) by { if dirs(w1).contains(p) && !dirs(w0).contains(p) { assert(p.len() <= e.len()); } } }
pub proof fn lm_empty<T: Kept>(w: World, d: Names) requires dirs(w).contains(d), empty_dir(w, d) ensures table(w, d, Map::<Seq<char>, T>::empty()) {}
/// nothing to remove
pub broadcast proof fn lm_absent<T: Kept>(w: World, d: Names, k: Seq<char>, m: Map<Seq<char>, T>)
    requires #[trigger] table(w, d, m), !files(w).contains_key(#[trigger] d.push(k))
    ensures table(w, d, m.remove(k))
{ assert(m.remove(k) =~= m) by { if m.contains_key(k) { assert(false); } } }
/// a listing of every file of the folder is a listing of the table
pub broadcast proof fn lm_listed<T: Kept>(w: World, d: Names, s: Seq<Names>, v: Seq<T>, m: Map<Seq<char>, T>)
    requires #[trigger] table(w, d, m), #[trigger] entries_of(s, w, d), listed(v, s, s.len() as int, m)
    ensures #[trigger] lists(v, m)
{
    broadcast use lm_path;
    assert forall|i: int| 0 <= i < v.len() implies m.contains_key((#[trigger] v[i]).key()) && m[v[i].key()] == v[i] && v[i].key() == s[i].last() by { assert(in_dir(w, d, s[i])); }
    assert forall|i: int, j: int| 0 <= i < j < v.len() implies (#[trigger] v[i]).key() != (#[trigger] v[j]).key() by {
        assert(in_dir(w, d, s[i]) && in_dir(w, d, s[j]));
        lm_path_of(s[i]); lm_path_of(s[j]);
    }
    assert forall|k: Seq<char>| #[trigger] m.contains_key(k) implies exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).key() == k by {
        assert(in_dir(w, d, d.push(k)));
        assert(s.contains(d.push(k)));
        let i = choose|i: int| 0 <= i < s.len() && s[i] == d.push(k);
        assert(v[i].key() == k);
    }
}
pub broadcast proof fn lm_dirs(r: Names) ensures local_dir(r) != remote_dir(r), (#[trigger] local_dir(r)) != server_dir(r), remote_dir(r) != server_dir(r)
{
    broadcast use lm_path;
    crate::vx_lits();
    assert(r.push("local"@).last() != r.push("remote"@).last());
    assert(r.push("local"@).last() != r.push("servers"@).last());
    assert(r.push("servers"@).last() != r.push("remote"@).last());
}
pub broadcast group disk { lm_path, lm_put, lm_else, lm_wrote, lm_removed, lm_drop, lm_absent, lm_dirs, lm_no_dir, lm_entry, lm_made, lm_still_empty }
@end
@fn drivers::server::router::global_table::GlobalTableRouter::new
    ensures files(*final(vx_w)) == files(*old(vx_w)), dirs(*old(vx_w)).subset_of(dirs(*final(vx_w))),
        r matches Ok(t) ==> t.storage_folder == $0.into_spec() && dirs(*final(vx_w)).contains(local_dir(t.storage_folder@)) && dirs(*final(vx_w)).contains(remote_dir(t.storage_folder@)) && dirs(*final(vx_w)).contains(server_dir(t.storage_folder@)),
        forall|s: Names, m: Map<Seq<char>, Client>| (r matches Ok(t) && s == t.storage_folder@ && #[trigger] table(*old(vx_w), local_dir(s), m)) ==> table(*final(vx_w), local_dir(s), m),
        (r matches Ok(t) && empty_dir(*old(vx_w), local_dir(t.storage_folder@))) ==> (r matches Ok(t) && empty_dir(*final(vx_w), local_dir(t.storage_folder@))),
        forall|s: Names, m: Map<Seq<char>, (Client, Server)>| (r matches Ok(t) && s == t.storage_folder@ && #[trigger] table(*old(vx_w), remote_dir(s), m)) ==> table(*final(vx_w), remote_dir(s), m),
        (r matches Ok(t) && empty_dir(*old(vx_w), remote_dir(t.storage_folder@))) ==> (r matches Ok(t) && empty_dir(*final(vx_w), remote_dir(t.storage_folder@))),
        forall|s: Names, m: Map<Seq<char>, Server>| (r matches Ok(t) && s == t.storage_folder@ && #[trigger] table(*old(vx_w), server_dir(s), m)) ==> table(*final(vx_w), server_dir(s), m),
        (r matches Ok(t) && empty_dir(*old(vx_w), server_dir(t.storage_folder@))) ==> (r matches Ok(t) && empty_dir(*final(vx_w), server_dir(t.storage_folder@)))
@begin drivers::server::router::global_table::GlobalTableRouter::new
broadcast use crate::drivers::server::router::global_table::disk;
@fn drivers::server::router::global_table::GlobalTableRouter as Router::index_local_client
    ensures touched(*old(vx_w), *final(vx_w), local_dir(self.storage_folder@).push(pk_text($0.public_key))),
        r is Ok ==> r == Ok::<bool, Error>(true),
        forall|m: Map<Seq<char>, Client>| #[trigger] table(*old(vx_w), local_dir(self.storage_folder@), m) ==> if r is Ok { table(*final(vx_w), local_dir(self.storage_folder@), m.insert(pk_text($0.public_key), $0)) } else { !disk_ok() },
        forall|m: Map<Seq<char>, (Client, Server)>| #[trigger] table(*old(vx_w), remote_dir(self.storage_folder@), m) ==> table(*final(vx_w), remote_dir(self.storage_folder@), m),
        forall|m: Map<Seq<char>, Server>| #[trigger] table(*old(vx_w), server_dir(self.storage_folder@), m) ==> table(*final(vx_w), server_dir(self.storage_folder@), m),
        forall|m: Map<Seq<char>, Client>, i: int| #[trigger] table(*old(vx_w), local_dir(self.storage_folder@), m) && disk_ok() && past(*old(vx_w)).len() <= i < past(*final(vx_w)).len() ==> table(#[trigger] past(*final(vx_w))[i], local_dir(self.storage_folder@), m) || table(past(*final(vx_w))[i], local_dir(self.storage_folder@), m.insert(pk_text($0.public_key), $0)),  /*only C26*/
        forall|m: Map<Seq<char>, (Client, Server)>, i: int| #[trigger] table(*old(vx_w), remote_dir(self.storage_folder@), m) && disk_ok() && past(*old(vx_w)).len() <= i < past(*final(vx_w)).len() ==> table(#[trigger] past(*final(vx_w))[i], remote_dir(self.storage_folder@), m),  /*only C26*/
        forall|m: Map<Seq<char>, Server>, i: int| #[trigger] table(*old(vx_w), server_dir(self.storage_folder@), m) && disk_ok() && past(*old(vx_w)).len() <= i < past(*final(vx_w)).len() ==> table(#[trigger] past(*final(vx_w))[i], server_dir(self.storage_folder@), m)  /*only C26*/
@begin drivers::server::router::global_table::GlobalTableRouter as Router::index_local_client
broadcast use crate::drivers::server::router::global_table::disk;
@fn drivers::server::router::global_table::GlobalTableRouter as Router::index_remote_client
    ensures touched(*old(vx_w), *final(vx_w), remote_dir(self.storage_folder@).push(pk_text($0.public_key))),
        r is Ok ==> r == Ok::<bool, Error>(true),
        forall|m: Map<Seq<char>, Client>| #[trigger] table(*old(vx_w), local_dir(self.storage_folder@), m) ==> table(*final(vx_w), local_dir(self.storage_folder@), m),
        forall|m: Map<Seq<char>, (Client, Server)>| #[trigger] table(*old(vx_w), remote_dir(self.storage_folder@), m) ==> if r is Ok { table(*final(vx_w), remote_dir(self.storage_folder@), m.insert(pk_text($0.public_key), ($0, $1))) } else { !disk_ok() },
        forall|m: Map<Seq<char>, Server>| #[trigger] table(*old(vx_w), server_dir(self.storage_folder@), m) ==> table(*final(vx_w), server_dir(self.storage_folder@), m),
        forall|m: Map<Seq<char>, Client>, i: int| #[trigger] table(*old(vx_w), local_dir(self.storage_folder@), m) && disk_ok() && past(*old(vx_w)).len() <= i < past(*final(vx_w)).len() ==> table(#[trigger] past(*final(vx_w))[i], local_dir(self.storage_folder@), m),  /*only C26*/
        forall|m: Map<Seq<char>, (Client, Server)>, i: int| #[trigger] table(*old(vx_w), remote_dir(self.storage_folder@), m) && disk_ok() && past(*old(vx_w)).len() <= i < past(*final(vx_w)).len() ==> table(#[trigger] past(*final(vx_w))[i], remote_dir(self.storage_folder@), m) || table(past(*final(vx_w))[i], remote_dir(self.storage_folder@), m.insert(pk_text($0.public_key), ($0, $1))),  /*only C26*/
        forall|m: Map<Seq<char>, Server>, i: int| #[trigger] table(*old(vx_w), server_dir(self.storage_folder@), m) && disk_ok() && past(*old(vx_w)).len() <= i < past(*final(vx_w)).len() ==> table(#[trigger] past(*final(vx_w))[i], server_dir(self.storage_folder@), m)  /*only C26*/
@begin drivers::server::router::global_table::GlobalTableRouter as Router::index_remote_client
broadcast use crate::drivers::server::router::global_table::disk;
@fn drivers::server::router::global_table::GlobalTableRouter as Router::index_server
    ensures touched(*old(vx_w), *final(vx_w), server_dir(self.storage_folder@).push(pk_text($0.public_key))),
        r is Ok ==> r == Ok::<bool, Error>(true),
        forall|m: Map<Seq<char>, Client>| #[trigger] table(*old(vx_w), local_dir(self.storage_folder@), m) ==> table(*final(vx_w), local_dir(self.storage_folder@), m),
        forall|m: Map<Seq<char>, (Client, Server)>| #[trigger] table(*old(vx_w), remote_dir(self.storage_folder@), m) ==> table(*final(vx_w), remote_dir(self.storage_folder@), m),
        forall|m: Map<Seq<char>, Server>| #[trigger] table(*old(vx_w), server_dir(self.storage_folder@), m) ==> if r is Ok { table(*final(vx_w), server_dir(self.storage_folder@), m.insert(pk_text($0.public_key), $0)) } else { !disk_ok() },
        forall|m: Map<Seq<char>, Client>, i: int| #[trigger] table(*old(vx_w), local_dir(self.storage_folder@), m) && disk_ok() && past(*old(vx_w)).len() <= i < past(*final(vx_w)).len() ==> table(#[trigger] past(*final(vx_w))[i], local_dir(self.storage_folder@), m),  /*only C26*/
        forall|m: Map<Seq<char>, (Client, Server)>, i: int| #[trigger] table(*old(vx_w), remote_dir(self.storage_folder@), m) && disk_ok() && past(*old(vx_w)).len() <= i < past(*final(vx_w)).len() ==> table(#[trigger] past(*final(vx_w))[i], remote_dir(self.storage_folder@), m),  /*only C26*/
        forall|m: Map<Seq<char>, Server>, i: int| #[trigger] table(*old(vx_w), server_dir(self.storage_folder@), m) && disk_ok() && past(*old(vx_w)).len() <= i < past(*final(vx_w)).len() ==> table(#[trigger] past(*final(vx_w))[i], server_dir(self.storage_folder@), m) || table(past(*final(vx_w))[i], server_dir(self.storage_folder@), m.insert(pk_text($0.public_key), $0))  /*only C26*/
@begin drivers::server::router::global_table::GlobalTableRouter as Router::index_server
broadcast use crate::drivers::server::router::global_table::disk;
@fn drivers::server::router::global_table::GlobalTableRouter as Router::disconnect
    ensures touched3(*old(vx_w), *final(vx_w), local_dir(self.storage_folder@).push(pk_text(*$0)), remote_dir(self.storage_folder@).push(pk_text(*$0)), server_dir(self.storage_folder@).push(pk_text(*$0))), r is Ok,
        forall|m: Map<Seq<char>, Client>| #[trigger] table(*old(vx_w), local_dir(self.storage_folder@), m) && disk_ok() ==> table(*final(vx_w), local_dir(self.storage_folder@), m.remove(pk_text(*$0))),
        forall|m: Map<Seq<char>, (Client, Server)>| #[trigger] table(*old(vx_w), remote_dir(self.storage_folder@), m) && disk_ok() ==> table(*final(vx_w), remote_dir(self.storage_folder@), m.remove(pk_text(*$0))),
        forall|m: Map<Seq<char>, Server>| #[trigger] table(*old(vx_w), server_dir(self.storage_folder@), m) && disk_ok() ==> table(*final(vx_w), server_dir(self.storage_folder@), m.remove(pk_text(*$0))),
        forall|m: Map<Seq<char>, Client>, i: int| #[trigger] table(*old(vx_w), local_dir(self.storage_folder@), m) && disk_ok() && past(*old(vx_w)).len() <= i < past(*final(vx_w)).len() ==> table(#[trigger] past(*final(vx_w))[i], local_dir(self.storage_folder@), m) || table(past(*final(vx_w))[i], local_dir(self.storage_folder@), m.remove(pk_text(*$0))),  /*only C26*/
        forall|m: Map<Seq<char>, (Client, Server)>, i: int| #[trigger] table(*old(vx_w), remote_dir(self.storage_folder@), m) && disk_ok() && past(*old(vx_w)).len() <= i < past(*final(vx_w)).len() ==> table(#[trigger] past(*final(vx_w))[i], remote_dir(self.storage_folder@), m) || table(past(*final(vx_w))[i], remote_dir(self.storage_folder@), m.remove(pk_text(*$0))),  /*only C26*/
        forall|m: Map<Seq<char>, Server>, i: int| #[trigger] table(*old(vx_w), server_dir(self.storage_folder@), m) && disk_ok() && past(*old(vx_w)).len() <= i < past(*final(vx_w)).len() ==> table(#[trigger] past(*final(vx_w))[i], server_dir(self.storage_folder@), m) || table(past(*final(vx_w))[i], server_dir(self.storage_folder@), m.remove(pk_text(*$0)))  /*only C26*/
@begin drivers::server::router::global_table::GlobalTableRouter as Router::disconnect
broadcast use crate::drivers::server::router::global_table::disk;
@fn drivers::server::router::global_table::GlobalTableRouter as Router::local_clients
    ensures *final(vx_w) == *old(vx_w),
        forall|m: Map<Seq<char>, Client>| #[trigger] table(*old(vx_w), local_dir(self.storage_folder@), m) ==> match r { Ok(v) => lists(v@, m), Err(_) => !disk_ok() }
@begin drivers::server::router::global_table::GlobalTableRouter as Router::local_clients
broadcast use crate::drivers::server::router::global_table::disk, crate::drivers::server::router::global_table::lm_listed;
@loop drivers::server::router::global_table::GlobalTableRouter as Router::local_clients | 0
    invariant *vx_w == *old(vx_w), entries_of(entries.seq(), *vx_w, local_dir(self.storage_folder@)), 0 <= entries.pos() <= entries.seq().len(),
        forall|m: Map<Seq<char>, Client>| #[trigger] table(*vx_w, local_dir(self.storage_folder@), m) ==> listed(clients@, entries.seq(), entries.pos(), m)
    ensures entries.pos() == entries.seq().len()
    decreases entries.seq().len() - entries.pos()
@fn drivers::server::router::global_table::GlobalTableRouter as Router::remote_clients
    ensures *final(vx_w) == *old(vx_w),
        forall|m: Map<Seq<char>, (Client, Server)>| #[trigger] table(*old(vx_w), remote_dir(self.storage_folder@), m) ==> match r { Ok(v) => lists(v@, m), Err(_) => !disk_ok() }
@begin drivers::server::router::global_table::GlobalTableRouter as Router::remote_clients
broadcast use crate::drivers::server::router::global_table::disk, crate::drivers::server::router::global_table::lm_listed;
@loop drivers::server::router::global_table::GlobalTableRouter as Router::remote_clients | 0
    invariant *vx_w == *old(vx_w), entries_of(entries.seq(), *vx_w, remote_dir(self.storage_folder@)), 0 <= entries.pos() <= entries.seq().len(),
        forall|m: Map<Seq<char>, (Client, Server)>| #[trigger] table(*vx_w, remote_dir(self.storage_folder@), m) ==> listed(clients@, entries.seq(), entries.pos(), m)
    ensures entries.pos() == entries.seq().len()
    decreases entries.seq().len() - entries.pos()
@fn drivers::server::router::global_table::GlobalTableRouter as Router::servers
    ensures *final(vx_w) == *old(vx_w),
        forall|m: Map<Seq<char>, Server>| #[trigger] table(*old(vx_w), server_dir(self.storage_folder@), m) ==> match r { Ok(v) => lists(v@, m), Err(_) => !disk_ok() }
@begin drivers::server::router::global_table::GlobalTableRouter as Router::servers
broadcast use crate::drivers::server::router::global_table::disk, crate::drivers::server::router::global_table::lm_listed;
@loop drivers::server::router::global_table::GlobalTableRouter as Router::servers | 0
    invariant *vx_w == *old(vx_w), entries_of(entries.seq(), *vx_w, server_dir(self.storage_folder@)), 0 <= entries.pos() <= entries.seq().len(),
        forall|m: Map<Seq<char>, Server>| #[trigger] table(*vx_w, server_dir(self.storage_folder@), m) ==> listed(servers@, entries.seq(), entries.pos(), m)
    ensures entries.pos() == entries.seq().len()
    decreases entries.seq().len() - entries.pos()

@mod drivers::server::messages_inbox::stored_queue
use crate::crypto::asymmetric::{PublicKey, pk_text};
/// the folder of one receiver's channel
pub open spec fn inbox_of(root: Names, k: PublicKey, c: Seq<char>) -> Names { root.push(pk_text(k)).push("channel-"@ + b64(utf8(c))) }
pub open spec fn index_path(f: Names) -> Names { f.push("index"@) }
pub open spec fn message_path(f: Names, id: u64) -> Names { f.push(dec_text(id as int)) }
/// the content of the index file; empty when there is none
pub open spec fn index_of(w: World, f: Names) -> Seq<u8> { if files(w).contains_key(index_path(f)) { files(w)[index_path(f)] } else { Seq::empty() } }
/// the index consists of whole ids
pub open spec fn sound(w: World, f: Names) -> bool { index_of(w, f).len() % 8 == 0 }
/// the i-th id of an index
pub open spec fn id_at(b: Seq<u8>, i: int) -> u64 { un_be64(b.subrange(8 * i, 8 * i + 8)) }
pub open spec fn has_id(b: Seq<u8>, id: u64) -> bool { exists|i: int| 0 <= i && 8 * i < b.len() && #[trigger] id_at(b, i) == id }
/// the folder f holds exactly the messages q, in this order, and nothing else
pub open spec fn holds(w: World, f: Names, q: Seq<MessageInfo>) -> bool {
    &&& index_of(w, f).len() == 8 * q.len()
    &&& forall|i: int, j: int| 0 <= i < j < q.len() ==> #[trigger] id_at(index_of(w, f), i) != #[trigger] id_at(index_of(w, f), j)
    &&& forall|i: int| 0 <= i < q.len() ==> kept(w, f, #[trigger] id_at(index_of(w, f), i), q[i])
    &&& forall|p: Names| #[trigger] in_dir(w, f, p) ==> !dirs(w).contains(p) && (p == index_path(f) || exists|i: int| 0 <= i < q.len() && p == message_path(f, #[trigger] id_at(index_of(w, f), i)))
    &&& files(w).contains_key(index_path(f)) ==> dirs(w).contains(f)
    &&& forall|n: int| 0 <= n <= f.len() ==> !files(w).contains_key(#[trigger] f.subrange(0, n))
}
pub open spec fn kept(w: World, f: Names, id: u64, m: MessageInfo) -> bool { files(w).contains_key(message_path(f, id)) && doc_in(files(w)[message_path(f, id)]) == Some(m.enc()) }
/// nothing changed but files in the folder f, and f itself was made if need be
pub open spec fn within(w0: World, w1: World, f: Names) -> bool {
    &&& forall|p: Names| #![trigger files(w1)[p]] #![trigger files(w1).contains_key(p)] !(p.len() == f.len() + 1 && p.drop_last() == f) ==> files(w1).contains_key(p) == files(w0).contains_key(p) && files(w1)[p] == files(w0)[p]
    &&& dirs(w0).subset_of(dirs(w1))
    &&& forall|d: Names| #[trigger] dirs(w1).contains(d) && !dirs(w0).contains(d) ==> d.len() <= f.len() && d == f.subrange(0, d.len() as int)
}
/// one more id in the index, and this message in its file
pub open spec fn appended(w0: World, w1: World, f: Names, id: u64, m: MessageInfo) -> bool {
    exists|b: Seq<u8>| doc_in(b) == Some(m.enc()) && #[trigger] files(w0).insert(index_path(f), index_of(w0, f) + be64(id)).insert(message_path(f, id), b) == files(w1)
}
pub proof fn lm_id_push(b: Seq<u8>, id: u64, i: int)
    requires b.len() % 8 == 0, 0 <= i, 8 * i <= b.len()
    ensures 8 * i < b.len() ==> id_at(b + be64(id), i) == id_at(b, i), 8 * i == b.len() ==> id_at(b + be64(id), i) == id
{
    broadcast use vx_group;
    if 8 * i < b.len() { assert((b + be64(id)).subrange(8 * i, 8 * i + 8) =~= b.subrange(8 * i, 8 * i + 8)); }
    else { assert((b + be64(id)).subrange(8 * i, 8 * i + 8) =~= be64(id)); }
}
pub proof fn lm_id_skip(b: Seq<u8>, k: int, i: int)
    requires 0 <= k, 0 <= i, 8 * (k + i) + 8 <= b.len()
    ensures id_at(b.subrange(8 * k, b.len() as int), i) == id_at(b, k + i)
{ assert(b.subrange(8 * k, b.len() as int).subrange(8 * i, 8 * i + 8) =~= b.subrange(8 * (k + i), 8 * (k + i) + 8)); }
pub broadcast proof fn lm_file(f: Names, id: u64, jd: u64)
    ensures (#[trigger] message_path(f, id) == #[trigger] message_path(f, jd)) == (id == jd), message_path(f, id) != index_path(f), message_path(f, id).drop_last() == f, message_path(f, id).len() == f.len() + 1
{
    broadcast use vx_group;
    crate::vx_lits();
    assert(message_path(f, id).last() == dec_text(id as int));
    assert(message_path(f, jd).last() == dec_text(jd as int));
    assert(index_path(f).last() == "index"@);
    assert(message_path(f, id).drop_last() =~= f);
}
pub broadcast proof fn lm_index(f: Names) ensures (#[trigger] index_path(f)).drop_last() == f, index_path(f).len() == f.len() + 1 { assert(index_path(f).drop_last() =~= f); }
/// two folders for different receivers or channels are different
pub broadcast proof fn lm_apart(root: Names, k: PublicKey, c: Seq<char>, k2: PublicKey, c2: Seq<char>)
    requires #[trigger] inbox_of(root, k, c) == #[trigger] inbox_of(root, k2, c2)
    ensures k == k2, c == c2
{
    broadcast use vx_group;
    let f = inbox_of(root, k, c);
    assert(f.last() == "channel-"@ + b64(utf8(c)));
    assert(inbox_of(root, k2, c2).last() == "channel-"@ + b64(utf8(c2)));
    let n = "channel-"@.len() as int;
    assert(f.last().subrange(n, f.last().len() as int) =~= b64(utf8(c)));
    assert(f.last().subrange(n, f.last().len() as int) =~= b64(utf8(c2)));
    assert(f.drop_last() =~= root.push(pk_text(k)));
    assert(inbox_of(root, k2, c2).drop_last() =~= root.push(pk_text(k2)));
    assert(root.push(pk_text(k)).last() == pk_text(k));
    assert(root.push(pk_text(k2)).last() == pk_text(k2));
}
/// what happens in one folder leaves the others as they are
pub broadcast proof fn lm_elsewhere(w0: World, w1: World, f: Names, g: Names, q: Seq<MessageInfo>)
    requires #[trigger] within(w0, w1, f), f != g, f.len() == g.len(), #[trigger] holds(w0, g, q)
    ensures holds(w1, g, q)
{
    broadcast use lm_file, lm_index;
    assert(index_path(g).drop_last() == g);
    assert(index_of(w1, g) == index_of(w0, g));
    assert forall|i: int| 0 <= i < q.len() implies kept(w1, g, #[trigger] id_at(index_of(w1, g), i), q[i]) by {
        let id = id_at(index_of(w0, g), i);
        assert(kept(w0, g, id, q[i]));
        assert(message_path(g, id).drop_last() == g) by { lm_file(g, id, id); }
    }
    assert forall|p: Names| #[trigger] in_dir(w1, g, p) implies in_dir(w0, g, p) && !dirs(w1).contains(p) by {
        if dirs(w1).contains(p) && !dirs(w0).contains(p) { assert(p.len() <= f.len()); }
        assert(p.drop_last() != f);
        assert(in_dir(w0, g, p));
    }
    assert forall|n: int| 0 <= n <= g.len() implies !files(w1).contains_key(#[trigger] g.subrange(0, n)) by { assert(g.subrange(0, n).len() == n); }
}
pub broadcast proof fn lm_sound_elsewhere(w0: World, w1: World, f: Names, g: Names)
    requires #[trigger] within(w0, w1, f), f != g, f.len() == g.len()
    ensures index_of(w1, g) == #[trigger] index_of(w0, g)
{ broadcast use lm_index; assert(index_path(g).drop_last() == g); }
/// adding a message with a new id puts it at the end
pub broadcast proof fn lm_append(w0: World, w1: World, f: Names, id: u64, m: MessageInfo, q: Seq<MessageInfo>)
    requires #[trigger] holds(w0, f, q), #[trigger] appended(w0, w1, f, id, m), within(w0, w1, f), dirs(w1).contains(f), !has_id(index_of(w0, f), id)
    ensures #[trigger] holds(w1, f, q.push(m))
{
    broadcast use lm_file, lm_index;
    let b0 = index_of(w0, f);
    let b1 = index_of(w1, f);
    let q1 = q.push(m);
    lm_file(f, id, id);
    assert(b1 == b0 + be64(id));
    assert(b1.len() == 8 * q1.len()) by { broadcast use vx_group; }
    assert forall|i: int| 0 <= i < q.len() implies id_at(b1, i) == id_at(b0, i) && #[trigger] id_at(b1, i) != id by { lm_id_push(b0, id, i); assert(id_at(b0, i) != id); }
    lm_id_push(b0, id, q.len() as int);
    assert forall|i: int| 0 <= i < q1.len() implies kept(w1, f, #[trigger] id_at(b1, i), q1[i]) by {
        if i < q.len() { let x = id_at(b0, i); assert(kept(w0, f, x, q[i])); lm_file(f, x, id); assert(message_path(f, x) != message_path(f, id)); }
    }
    assert forall|p: Names| #[trigger] in_dir(w1, f, p) implies !dirs(w1).contains(p) && (p == index_path(f) || exists|i: int| 0 <= i < q1.len() && p == message_path(f, #[trigger] id_at(b1, i))) by {
        if p == index_path(f) {
            if dirs(w1).contains(p) { if dirs(w0).contains(p) { assert(in_dir(w0, f, p)); } }
        } else if p == message_path(f, id) {
            assert(id_at(b1, q.len() as int) == id);
            if dirs(w1).contains(p) { if dirs(w0).contains(p) { assert(in_dir(w0, f, p)); } }
        } else {
            if dirs(w1).contains(p) && !dirs(w0).contains(p) { assert(p.len() <= f.len()); }
            assert(in_dir(w0, f, p));
            let i = choose|i: int| 0 <= i < q.len() && p == message_path(f, #[trigger] id_at(b0, i));
            assert(id_at(b1, i) == id_at(b0, i));
        }
    }
    assert forall|n: int| 0 <= n <= f.len() implies !files(w1).contains_key(#[trigger] f.subrange(0, n)) by { assert(f.subrange(0, n).len() == n); }
}
pub broadcast proof fn lm_made_here(w0: World, w1: World, f: Names, q: Seq<MessageInfo>)
    requires #[trigger] holds(w0, f, q), #[trigger] made(w0, w1, f)
    ensures holds(w1, f, q)
{
    assert(index_of(w1, f) == index_of(w0, f));
    assert forall|i: int| 0 <= i < q.len() implies kept(w1, f, #[trigger] id_at(index_of(w1, f), i), q[i]) by { assert(kept(w0, f, id_at(index_of(w0, f), i), q[i])); }
    assert forall|p: Names| #[trigger] in_dir(w1, f, p) implies in_dir(w0, f, p) && !dirs(w1).contains(p) by { if dirs(w1).contains(p) && !dirs(w0).contains(p) { assert(p.len() <= f.len()); } assert(in_dir(w0, f, p)); }
}
pub broadcast proof fn lm_no_dir(w: World, f: Names, n: Seq<char>, q: Seq<MessageInfo>)
    requires #[trigger] holds(w, f, q)
    ensures !dirs(w).contains(#[trigger] f.push(n))
{ assert(f.push(n).drop_last() =~= f); if dirs(w).contains(f.push(n)) { assert(in_dir(w, f, f.push(n))); } }
/// the first k messages are gone from the folder, the index still names them
pub open spec fn taken(w0: World, w1: World, f: Names, k: int) -> bool {
    &&& dirs(w1) == dirs(w0)
    &&& forall|p: Names| #![trigger files(w1)[p]] #![trigger files(w1).contains_key(p)] if exists|i: int| 0 <= i < k && p == message_path(f, #[trigger] id_at(index_of(w0, f), i)) { !files(w1).contains_key(p) } else { files(w1).contains_key(p) == files(w0).contains_key(p) && files(w1)[p] == files(w0)[p] }
}
pub broadcast proof fn lm_take_one(w0: World, w1: World, w2: World, f: Names, k: int, q: Seq<MessageInfo>, p: Names)
    requires #[trigger] holds(w0, f, q), #[trigger] taken(w0, w1, f, k), 0 <= k < q.len(), #[trigger] removed(w1, w2, p), p == message_path(f, id_at(index_of(w0, f), k))
    ensures taken(w0, w2, f, k + 1)
{
    let b = index_of(w0, f);
    assert forall|p: Names| #![trigger files(w2)[p]] #![trigger files(w2).contains_key(p)] if exists|i: int| 0 <= i < k + 1 && p == message_path(f, #[trigger] id_at(b, i)) { !files(w2).contains_key(p) } else { files(w2).contains_key(p) == files(w0).contains_key(p) && files(w2)[p] == files(w0)[p] } by {
        if exists|i: int| 0 <= i < k + 1 && p == message_path(f, #[trigger] id_at(b, i)) {
            let i = choose|i: int| 0 <= i < k + 1 && p == message_path(f, #[trigger] id_at(b, i));
            if i < k { assert(!files(w1).contains_key(p)); }
        } else {
            assert(p != message_path(f, id_at(b, k)));
            if exists|i: int| 0 <= i < k && p == message_path(f, #[trigger] id_at(b, i)) { let i = choose|i: int| 0 <= i < k && p == message_path(f, #[trigger] id_at(b, i)); assert(i < k + 1); }
            assert(files(w1).contains_key(p) == files(w0).contains_key(p));
        }
    }
}
/// the message that comes next is still there
pub broadcast proof fn lm_next(w0: World, w1: World, f: Names, k: int, q: Seq<MessageInfo>)
    requires #[trigger] holds(w0, f, q), #[trigger] taken(w0, w1, f, k), 0 <= k < q.len()
    ensures kept(w1, f, id_at(index_of(w0, f), k), q[k])
{
    let b = index_of(w0, f);
    let id = id_at(b, k);
    assert(kept(w0, f, id, q[k]));
    let p = message_path(f, id);
    assert(!exists|i: int| 0 <= i < k && p == message_path(f, #[trigger] id_at(b, i))) by {
        if exists|i: int| 0 <= i < k && p == message_path(f, #[trigger] id_at(b, i)) { let i = choose|i: int| 0 <= i < k && p == message_path(f, #[trigger] id_at(b, i)); lm_file(f, id_at(b, i), id); assert(id_at(b, i) != id_at(b, k)); }
    }
    assert(files(w1).contains_key(p) == files(w0).contains_key(p));
}
/// with the index cut, the folder holds the rest
pub broadcast proof fn lm_cut(w0: World, w1: World, w2: World, f: Names, k: int, q: Seq<MessageInfo>, p: Names, x: Seq<u8>)
    requires #[trigger] holds(w0, f, q), #[trigger] taken(w0, w1, f, k), 0 <= k <= q.len(), #[trigger] wrote(w1, w2, p, x), p == index_path(f), x == index_of(w0, f).subrange(8 * k, index_of(w0, f).len() as int), files(w0).contains_key(index_path(f))
    ensures holds(w2, f, q.skip(k))
{
    let b0 = index_of(w0, f);
    let b2 = index_of(w2, f);
    let q2 = q.skip(k);
    assert(b2 == b0.subrange(8 * k, b0.len() as int));
    assert forall|i: int| 0 <= i < q2.len() implies #[trigger] id_at(b2, i) == id_at(b0, k + i) by { lm_id_skip(b0, k, i); }
    assert forall|i: int| 0 <= i < q2.len() implies kept(w2, f, #[trigger] id_at(b2, i), q2[i]) by {
        let id = id_at(b0, k + i);
        assert(kept(w0, f, id, q[k + i]));
        let p = message_path(f, id);
        lm_file(f, id, id);
        assert(!exists|j: int| 0 <= j < k && p == message_path(f, #[trigger] id_at(b0, j))) by {
            if exists|j: int| 0 <= j < k && p == message_path(f, #[trigger] id_at(b0, j)) { let j = choose|j: int| 0 <= j < k && p == message_path(f, #[trigger] id_at(b0, j)); lm_file(f, id_at(b0, j), id); assert(id_at(b0, j) != id_at(b0, k + i)); }
        }
        assert(files(w1).contains_key(p) == files(w0).contains_key(p));
    }
    assert forall|p: Names| #[trigger] in_dir(w2, f, p) implies !dirs(w2).contains(p) && (p == index_path(f) || exists|i: int| 0 <= i < q2.len() && p == message_path(f, #[trigger] id_at(b2, i))) by {
        if p != index_path(f) {
            assert(files(w2).contains_key(p) == files(w1).contains_key(p));
            let z = files(w1)[p];
            assert(in_dir(w0, f, p));
            let i = choose|i: int| 0 <= i < q.len() && p == message_path(f, #[trigger] id_at(b0, i));
            if i < k { assert(!files(w1).contains_key(p)); } else { assert(id_at(b2, i - k) == id_at(b0, i)); }
        } else { if dirs(w0).contains(p) { assert(in_dir(w0, f, p)); } }
    }
    broadcast use lm_index, lm_file;
    assert forall|n: int| 0 <= n <= f.len() implies !files(w2).contains_key(#[trigger] f.subrange(0, n)) by {
        let p = f.subrange(0, n);
        assert(p.len() == n);
        assert(p != index_path(f));
        if files(w1).contains_key(p) { assert(files(w0).contains_key(p)); }
    }
}
/// the first k messages were given, and the number of the rest, which are still held
pub open spec fn polled(w: World, f: Names, q: Seq<MessageInfo>, k: int, r: Result<(Vec<MessageInfo>, u64), Error>) -> bool { (r matches Ok(x) && x.0@ == q.take(k) && x.1 == q.len() - k) && holds(w, f, q.skip(k)) }
pub broadcast proof fn lm_child(f: Names, n: Seq<char>) ensures (#[trigger] f.push(n)).drop_last() == f, f.push(n).len() == f.len() + 1, f.push(n).last() == n { assert(f.push(n).drop_last() =~= f); }
pub broadcast proof fn lm_appended(w0: World, wm: World, w1: World, w2: World, f: Names, n: Seq<char>, x: Seq<u8>, id: u64, b: Seq<u8>, m: MessageInfo)
    requires #[trigger] made(w0, wm, f), #[trigger] wrote(wm, w1, f.push(n), x), n == "index"@, x == index_of(w0, f) + be64(id), #[trigger] wrote(w1, w2, f.push(dec_text(id as int)), b), doc_in(b) == Some(#[trigger] m.enc())
    ensures appended(w0, w2, f, id, m)
{ assert(files(w0).insert(index_path(f), index_of(w0, f) + be64(id)).insert(message_path(f, id), b) == files(w2)); }
pub broadcast proof fn lm_appended_back(w0: World, wm: World, w1: World, w2: World, f: Names, n: Seq<char>, x: Seq<u8>, id: u64, b: Seq<u8>, m: MessageInfo)
    requires #[trigger] made(w0, wm, f), #[trigger] wrote(wm, w1, f.push(dec_text(id as int)), b), #[trigger] wrote(w1, w2, f.push(n), x), n == "index"@, x == index_of(w0, f) + be64(id), doc_in(b) == Some(#[trigger] m.enc())
    ensures appended(w0, w2, f, id, m)
{ lm_file(f, id, id); assert(files(w0).insert(index_path(f), index_of(w0, f) + be64(id)).insert(message_path(f, id), b) =~= files(w2)); }
pub broadcast proof fn lm_take_push<T>(q: Seq<T>, k: int, x: T) requires 0 <= k < q.len(), x == q[k] ensures #[trigger] q.take(k).push(x) == q.take(k + 1) { assert(q.take(k).push(x) =~= q.take(k + 1)); }
pub broadcast proof fn lm_take_none(w: World, f: Names, q: Seq<MessageInfo>) requires #[trigger] holds(w, f, q) ensures q.take(0) == Seq::<MessageInfo>::empty(), taken(w, w, f, 0), q.skip(0) == q, q.take(q.len() as int) == q { assert(q.take(0) =~= Seq::<MessageInfo>::empty()); assert(q.skip(0) =~= q); assert(q.take(q.len() as int) =~= q); }
/// the ids among the first n of the index whose messages are there
pub open spec fn alive(w: World, f: Names, b: Seq<u8>, n: int) -> Seq<u64> decreases n {
    if n <= 0 { Seq::empty() } else if files(w).contains_key(message_path(f, id_at(b, n - 1))) { alive(w, f, b, n - 1).push(id_at(b, n - 1)) } else { alive(w, f, b, n - 1) }
}
pub open spec fn alive_all(w: World, f: Names) -> Seq<u64> { alive(w, f, index_of(w, f), index_of(w, f).len() as int / 8) }
/// the messages q, in this order, are what the folder f still has to give; ids without a message (of an
/// operation that stopped half way) may be among theirs in the index
pub open spec fn waits(w: World, f: Names, q: Seq<MessageInfo>) -> bool {
    &&& orderly(w, f)
    &&& alive_all(w, f).len() == q.len()
    &&& forall|i: int| 0 <= i < q.len() ==> kept(w, f, #[trigger] alive_all(w, f)[i], q[i])
}
/// whole ids, each once; and only files in the folder
pub open spec fn orderly(w: World, f: Names) -> bool {
    &&& sound(w, f)
    &&& forall|i: int, j: int| 0 <= i < j && 8 * j < index_of(w, f).len() ==> #[trigger] id_at(index_of(w, f), i) != #[trigger] id_at(index_of(w, f), j)
    &&& forall|p: Names| #[trigger] in_dir(w, f, p) ==> !dirs(w).contains(p)
    &&& files(w).contains_key(index_path(f)) ==> dirs(w).contains(f)
    &&& forall|n: int| 0 <= n <= f.len() ==> !files(w).contains_key(#[trigger] f.subrange(0, n))
}
/// an id that neither the index nor a file has
pub open spec fn unused(w: World, f: Names, id: u64) -> bool { !has_id(index_of(w, f), id) && !files(w).contains_key(message_path(f, id)) }
/// every alive id is one of the index
pub proof fn lm_alive_in(w: World, f: Names, b: Seq<u8>, n: int, j: int) -> (i: int)
    requires 0 <= j < alive(w, f, b, n).len()
    ensures 0 <= i < n, id_at(b, i) == alive(w, f, b, n)[j], files(w).contains_key(message_path(f, id_at(b, i))), alive(w, f, b, i).len() == j
    decreases n
{ if n <= 0 { 0 } else if files(w).contains_key(message_path(f, id_at(b, n - 1))) && j == alive(w, f, b, n).len() - 1 { n - 1 } else { lm_alive_in(w, f, b, n - 1, j) } }
/// the same files, and the same first n ids: the same alive ids
pub proof fn lm_alive_same(w0: World, w1: World, f: Names, b0: Seq<u8>, b1: Seq<u8>, n: int)
    requires forall|i: int| 0 <= i < n ==> #[trigger] id_at(b0, i) == id_at(b1, i) && files(w0).contains_key(message_path(f, id_at(b0, i))) == files(w1).contains_key(message_path(f, id_at(b0, i)))
    ensures alive(w0, f, b0, n) == alive(w1, f, b1, n)
    decreases n
{ if n > 0 { lm_alive_same(w0, w1, f, b0, b1, n - 1); assert(id_at(b0, n - 1) == id_at(b1, n - 1)); } }
/// the alive ids of a longer part begin with those of a shorter one
pub proof fn lm_alive_start(w: World, f: Names, b: Seq<u8>, k: int, n: int)
    requires 0 <= k <= n
    ensures alive(w, f, b, k).len() <= alive(w, f, b, n).len(), alive(w, f, b, k) == alive(w, f, b, n).take(alive(w, f, b, k).len() as int), alive(w, f, b, n).len() <= n
    decreases n
{
    lm_alive_len(w, f, b, n);
    if k == n { assert(alive(w, f, b, k) =~= alive(w, f, b, n).take(alive(w, f, b, k).len() as int)); }
    else { lm_alive_start(w, f, b, k, n - 1); assert(alive(w, f, b, k) =~= alive(w, f, b, n).take(alive(w, f, b, k).len() as int)); }
}
pub proof fn lm_alive_len(w: World, f: Names, b: Seq<u8>, n: int) requires 0 <= n ensures alive(w, f, b, n).len() <= n decreases n { if n > 0 { lm_alive_len(w, f, b, n - 1); } }
/// the same index and the same messages of the index: the same messages wait
pub proof fn lm_waits_same(w0: World, w1: World, f: Names, q: Seq<MessageInfo>)
    requires waits(w0, f, q), index_of(w1, f) == index_of(w0, f),
        forall|i: int| 0 <= i && 8 * i < index_of(w0, f).len() ==> files(w0).contains_key(message_path(f, #[trigger] id_at(index_of(w0, f), i))) == files(w1).contains_key(message_path(f, id_at(index_of(w0, f), i))) && files(w0)[message_path(f, id_at(index_of(w0, f), i))] == files(w1)[message_path(f, id_at(index_of(w0, f), i))],
        forall|p: Names| #[trigger] in_dir(w1, f, p) ==> !dirs(w1).contains(p),
        files(w1).contains_key(index_path(f)) ==> dirs(w1).contains(f),
        forall|n: int| 0 <= n <= f.len() ==> !files(w1).contains_key(#[trigger] f.subrange(0, n))
    ensures waits(w1, f, q)
{
    let b = index_of(w0, f);
    let n = b.len() as int / 8;
    lm_alive_same(w0, w1, f, b, b, n);
    assert forall|i: int| 0 <= i < q.len() implies kept(w1, f, #[trigger] alive_all(w1, f)[i], q[i]) by { let j = lm_alive_in(w0, f, b, n, i); assert(kept(w0, f, alive_all(w0, f)[i], q[i])); }
}
pub broadcast proof fn lm_w_made(w0: World, w1: World, f: Names, q: Seq<MessageInfo>)
    requires #[trigger] waits(w0, f, q), #[trigger] made(w0, w1, f)
    ensures waits(w1, f, q), index_of(w1, f) == index_of(w0, f)
{
    assert forall|p: Names| #[trigger] in_dir(w1, f, p) implies !dirs(w1).contains(p) by { if dirs(w1).contains(p) { if !dirs(w0).contains(p) { assert(p.len() <= f.len()); } assert(in_dir(w0, f, p)); } }
    lm_waits_same(w0, w1, f, q);
}
pub broadcast proof fn lm_w_no_dir(w: World, f: Names, n: Seq<char>)
    requires #[trigger] orderly(w, f)
    ensures !dirs(w).contains(#[trigger] f.push(n))
{ assert(f.push(n).drop_last() =~= f); if dirs(w).contains(f.push(n)) { assert(in_dir(w, f, f.push(n))); } }
/// a file written into the folder: still no folders in it, and none of the folder's own names a file
pub proof fn lm_w_shape(w0: World, w1: World, f: Names, n: Seq<char>, x: Seq<u8>)
    requires wrote(w0, w1, f.push(n), x), forall|p: Names| #[trigger] in_dir(w0, f, p) ==> !dirs(w0).contains(p), forall|n: int| 0 <= n <= f.len() ==> !files(w0).contains_key(#[trigger] f.subrange(0, n))
    ensures forall|p: Names| #[trigger] in_dir(w1, f, p) ==> !dirs(w1).contains(p), forall|n: int| 0 <= n <= f.len() ==> !files(w1).contains_key(#[trigger] f.subrange(0, n))
{
    assert forall|p: Names| #[trigger] in_dir(w1, f, p) implies !dirs(w1).contains(p) by { if dirs(w1).contains(p) { assert(in_dir(w0, f, p)); } }
    assert forall|n: int| 0 <= n <= f.len() implies !files(w1).contains_key(#[trigger] f.subrange(0, n)) by { assert(f.subrange(0, n).len() == n); assert(f.push(x_name(f, n)).len() == f.len() + 1); }
}
pub open spec fn x_name(f: Names, n: int) -> Seq<char> { Seq::empty() }
/// the index with one more id, whose message is not there yet
pub broadcast proof fn lm_w_index(w0: World, w1: World, f: Names, n: Seq<char>, x: Seq<u8>, id: u64, q: Seq<MessageInfo>)
    requires #[trigger] waits(w0, f, q), #[trigger] wrote(w0, w1, f.push(n), x), n == "index"@, x == index_of(w0, f) + #[trigger] be64(id), !has_id(index_of(w0, f), id), dirs(w0).contains(f)
    ensures if files(w0).contains_key(message_path(f, id)) { forall|m: MessageInfo| doc_in(files(w0)[message_path(f, id)]) == Some(#[trigger] m.enc()) ==> waits(w1, f, q.push(m)) } else { waits(w1, f, q) },
        has_id(index_of(w1, f), id), index_of(w1, f) == x, x.len() > 0, x.len() % 8 == 0, id_at(x, x.len() as int / 8 - 1) == id
{
    broadcast use lm_file, lm_index;
    let b0 = index_of(w0, f);
    let b1 = index_of(w1, f);
    let k = b0.len() as int / 8;
    lm_file(f, id, id);
    assert(b1 == x);
    assert(be64(id).len() == 8) by { broadcast use vx_group; }
    lm_w_shape(w0, w1, f, n, x);
    assert forall|i: int| 0 <= i < k implies id_at(b1, i) == id_at(b0, i) && #[trigger] id_at(b1, i) != id by { lm_id_push(b0, id, i); assert(id_at(b0, i) != id); }
    lm_id_push(b0, id, k);
    assert(id_at(b1, k) == id);
    assert forall|i: int, j: int| 0 <= i < j && 8 * j < b1.len() implies #[trigger] id_at(b1, i) != #[trigger] id_at(b1, j) by { assert(id_at(b1, i) == id_at(b0, i)); if j < k { assert(id_at(b1, j) == id_at(b0, j)); } }
    assert forall|i: int| 0 <= i < k implies #[trigger] id_at(b0, i) == id_at(b1, i) && files(w0).contains_key(message_path(f, id_at(b0, i))) == files(w1).contains_key(message_path(f, id_at(b0, i))) by { assert(id_at(b1, i) == id_at(b0, i)); lm_file(f, id_at(b0, i), id); }
    lm_alive_same(w0, w1, f, b0, b1, k);
    assert(alive(w1, f, b1, k) == alive_all(w0, f));
    assert(b1.len() as int / 8 == k + 1);
    let a = alive_all(w0, f);
    assert(alive_all(w1, f) == if files(w0).contains_key(message_path(f, id)) { a.push(id) } else { a });
    assert forall|i: int| 0 <= i < q.len() implies kept(w1, f, #[trigger] a[i], q[i]) by { lm_file(f, a[i], id); assert(kept(w0, f, a[i], q[i])); }
    if files(w0).contains_key(message_path(f, id)) {
        assert forall|m: MessageInfo| doc_in(files(w0)[message_path(f, id)]) == Some(#[trigger] m.enc()) implies waits(w1, f, q.push(m)) by {
            assert(kept(w1, f, id, m));
            assert forall|i: int| 0 <= i < q.push(m).len() implies kept(w1, f, #[trigger] alive_all(w1, f)[i], q.push(m)[i]) by { if i < q.len() { assert(kept(w1, f, a[i], q[i])); } }
        }
    } else {
        assert forall|i: int| 0 <= i < q.len() implies kept(w1, f, #[trigger] alive_all(w1, f)[i], q[i]) by { assert(kept(w1, f, a[i], q[i])); }
    }
}
/// a message whose id is the last of the index: it waits behind the others
pub broadcast proof fn lm_w_message(w0: World, w1: World, f: Names, id: u64, x: Seq<u8>, q: Seq<MessageInfo>, m: MessageInfo)
    requires #[trigger] waits(w0, f, q), #[trigger] wrote(w0, w1, f.push(dec_text(id as int)), x), doc_in(x) == Some(#[trigger] m.enc()), !files(w0).contains_key(message_path(f, id)), dirs(w0).contains(f),
        index_of(w0, f).len() > 0, id_at(index_of(w0, f), index_of(w0, f).len() as int / 8 - 1) == id
    ensures waits(w1, f, q.push(m))
{
    broadcast use lm_file, lm_index;
    let b = index_of(w0, f);
    let k = b.len() as int / 8;
    lm_file(f, id, id);
    lm_w_shape(w0, w1, f, dec_text(id as int), x);
    assert(index_of(w1, f) == b);
    assert forall|i: int| 0 <= i < k - 1 implies #[trigger] id_at(b, i) != id by { assert(id_at(b, i) != id_at(b, k - 1)); }
    assert forall|i: int| 0 <= i < k - 1 implies #[trigger] id_at(b, i) == id_at(b, i) && files(w0).contains_key(message_path(f, id_at(b, i))) == files(w1).contains_key(message_path(f, id_at(b, i))) by { lm_file(f, id_at(b, i), id); }
    lm_alive_same(w0, w1, f, b, b, k - 1);
    let a = alive_all(w0, f);
    assert(a == alive(w0, f, b, k - 1));
    assert(alive_all(w1, f) == a.push(id));
    assert(kept(w1, f, id, m));
    assert forall|i: int| 0 <= i < q.push(m).len() implies kept(w1, f, #[trigger] alive_all(w1, f)[i], q.push(m)[i]) by {
        if i < q.len() { let j = lm_alive_in(w0, f, b, k - 1, i); assert(kept(w0, f, a[i], q[i])); lm_file(f, a[i], id); }
    }
}
/// a message whose id the index does not have: it does not wait
pub broadcast proof fn lm_w_before(w0: World, w1: World, f: Names, id: u64, x: Seq<u8>, q: Seq<MessageInfo>)
    requires #[trigger] waits(w0, f, q), #[trigger] wrote(w0, w1, f.push(dec_text(id as int)), x), unused(w0, f, id), dirs(w0).contains(f)
    ensures waits(w1, f, q), index_of(w1, f) == index_of(w0, f)
{
    broadcast use lm_file, lm_index;
    lm_file(f, id, id);
    lm_w_shape(w0, w1, f, dec_text(id as int), x);
    assert forall|i: int| 0 <= i && 8 * i < index_of(w0, f).len() implies #[trigger] id_at(index_of(w0, f), i) != id by {}
    assert forall|i: int| 0 <= i && 8 * i < index_of(w0, f).len() implies files(w0).contains_key(message_path(f, #[trigger] id_at(index_of(w0, f), i))) == files(w1).contains_key(message_path(f, id_at(index_of(w0, f), i))) && files(w0)[message_path(f, id_at(index_of(w0, f), i))] == files(w1)[message_path(f, id_at(index_of(w0, f), i))] by { lm_file(f, id_at(index_of(w0, f), i), id); }
    lm_waits_same(w0, w1, f, q);
}
/// of the first k ids the messages were taken, the others are as they were, and the index is whole: the rest waits
pub broadcast proof fn lm_w_taken(w0: World, w1: World, f: Names, k: int, q: Seq<MessageInfo>)
    requires #[trigger] waits(w0, f, q), #[trigger] taken(w0, w1, f, k), 0 <= k, 8 * k <= index_of(w0, f).len()
    ensures waits(w1, f, q.skip(alive(w0, f, index_of(w0, f), k).len() as int)), alive(w0, f, index_of(w0, f), k).len() <= q.len(), index_of(w1, f) == index_of(w0, f)
{
    broadcast use lm_file, lm_index;
    let b = index_of(w0, f);
    let n = b.len() as int / 8;
    lm_taken_index(w0, w1, f, k);
    lm_alive_start(w0, f, b, k, n);
    let c = alive(w0, f, b, k).len() as int;
    let q1 = q.skip(c);
    lm_taken_alive(w0, w1, f, k, n);
    assert(alive_all(w1, f) == alive_all(w0, f).skip(c));
    assert forall|i: int| 0 <= i < q1.len() implies kept(w1, f, #[trigger] alive_all(w1, f)[i], q1[i]) by {
        assert(alive_all(w1, f)[i] == alive_all(w0, f)[c + i]);
        let j = lm_alive_in(w0, f, b, n, c + i);
        assert(kept(w0, f, alive_all(w0, f)[c + i], q[c + i]));
        assert(j >= k) by { if j < k { lm_alive_start(w0, f, b, j, k); lm_alive_start(w0, f, b, j + 1, k); assert(alive(w0, f, b, j + 1).len() == c + i + 1); } }
        lm_taken_other(w0, w1, f, k, j);
    }
    assert forall|p: Names| #[trigger] in_dir(w1, f, p) implies !dirs(w1).contains(p) by { if dirs(w1).contains(p) { assert(in_dir(w0, f, p)); } }
    assert forall|n: int| 0 <= n <= f.len() implies !files(w1).contains_key(#[trigger] f.subrange(0, n)) by { assert(f.subrange(0, n).len() == n); if files(w1).contains_key(f.subrange(0, n)) { assert(files(w0).contains_key(f.subrange(0, n))); } }
}
pub proof fn lm_taken_index(w0: World, w1: World, f: Names, k: int)
    requires taken(w0, w1, f, k)
    ensures index_of(w1, f) == index_of(w0, f), files(w1).contains_key(index_path(f)) == files(w0).contains_key(index_path(f))
{
    let p = index_path(f);
    assert(!exists|i: int| 0 <= i < k && p == message_path(f, #[trigger] id_at(index_of(w0, f), i))) by {
        if exists|i: int| 0 <= i < k && p == message_path(f, #[trigger] id_at(index_of(w0, f), i)) { let i = choose|i: int| 0 <= i < k && p == message_path(f, #[trigger] id_at(index_of(w0, f), i)); lm_file(f, id_at(index_of(w0, f), i), 0); }
    }
    assert(files(w1).contains_key(p) == files(w0).contains_key(p));
}
pub proof fn lm_taken_other(w0: World, w1: World, f: Names, k: int, j: int)
    requires taken(w0, w1, f, k), 0 <= k <= j, forall|i: int, j: int| 0 <= i < j && 8 * j < index_of(w0, f).len() ==> #[trigger] id_at(index_of(w0, f), i) != #[trigger] id_at(index_of(w0, f), j), 8 * j < index_of(w0, f).len()
    ensures files(w1).contains_key(message_path(f, id_at(index_of(w0, f), j))) == files(w0).contains_key(message_path(f, id_at(index_of(w0, f), j))), files(w1)[message_path(f, id_at(index_of(w0, f), j))] == files(w0)[message_path(f, id_at(index_of(w0, f), j))]
{
    let b = index_of(w0, f);
    let p = message_path(f, id_at(b, j));
    assert(!exists|i: int| 0 <= i < k && p == message_path(f, #[trigger] id_at(b, i))) by {
        if exists|i: int| 0 <= i < k && p == message_path(f, #[trigger] id_at(b, i)) { let i = choose|i: int| 0 <= i < k && p == message_path(f, #[trigger] id_at(b, i)); lm_file(f, id_at(b, i), id_at(b, j)); assert(id_at(b, i) != id_at(b, j)); }
    }
    assert(files(w1).contains_key(p) == files(w0).contains_key(p));
}
pub proof fn lm_taken_alive(w0: World, w1: World, f: Names, k: int, n: int)
    requires taken(w0, w1, f, k), 0 <= k <= n, 8 * n <= index_of(w0, f).len(), forall|i: int, j: int| 0 <= i < j && 8 * j < index_of(w0, f).len() ==> #[trigger] id_at(index_of(w0, f), i) != #[trigger] id_at(index_of(w0, f), j)
    ensures alive(w1, f, index_of(w0, f), n) == alive(w0, f, index_of(w0, f), n).skip(alive(w0, f, index_of(w0, f), k).len() as int), alive(w0, f, index_of(w0, f), k).len() <= alive(w0, f, index_of(w0, f), n).len()
    decreases n
{
    let b = index_of(w0, f);
    let c = alive(w0, f, b, k).len() as int;
    if n == k {
        lm_taken_none(w0, w1, f, k, k);
        assert(alive(w0, f, b, n).skip(c) =~= Seq::<u64>::empty());
    } else {
        lm_taken_alive(w0, w1, f, k, n - 1);
        lm_taken_other(w0, w1, f, k, n - 1);
        assert(alive(w1, f, b, n) =~= alive(w0, f, b, n).skip(c));
    }
}
pub proof fn lm_taken_none(w0: World, w1: World, f: Names, k: int, n: int)
    requires taken(w0, w1, f, k), n <= k
    ensures alive(w1, f, index_of(w0, f), n) == Seq::<u64>::empty()
    decreases n
{ if n > 0 { lm_taken_none(w0, w1, f, k, n - 1); let p = message_path(f, id_at(index_of(w0, f), n - 1)); assert(!files(w1).contains_key(p)); } }
/// one more id: its message was the next one, and is taken
pub broadcast proof fn lm_w_take_one(w0: World, w1: World, w2: World, f: Names, k: int, p: Names)
    requires #[trigger] orderly(w0, f), #[trigger] taken(w0, w1, f, k), 0 <= k, 8 * k < index_of(w0, f).len(), #[trigger] removed(w1, w2, p), p == message_path(f, id_at(index_of(w0, f), k))
    ensures taken(w0, w2, f, k + 1)
{
    let b = index_of(w0, f);
    assert forall|p: Names| #![trigger files(w2)[p]] #![trigger files(w2).contains_key(p)] if exists|i: int| 0 <= i < k + 1 && p == message_path(f, #[trigger] id_at(b, i)) { !files(w2).contains_key(p) } else { files(w2).contains_key(p) == files(w0).contains_key(p) && files(w2)[p] == files(w0)[p] } by {
        if exists|i: int| 0 <= i < k + 1 && p == message_path(f, #[trigger] id_at(b, i)) {
            let i = choose|i: int| 0 <= i < k + 1 && p == message_path(f, #[trigger] id_at(b, i));
            if i < k { assert(!files(w1).contains_key(p)); }
        } else {
            assert(p != message_path(f, id_at(b, k)));
            if exists|i: int| 0 <= i < k && p == message_path(f, #[trigger] id_at(b, i)) { let i = choose|i: int| 0 <= i < k && p == message_path(f, #[trigger] id_at(b, i)); assert(i < k + 1); }
            assert(files(w1).contains_key(p) == files(w0).contains_key(p));
        }
    }
}
/// one more id, which has no message: it counts as taken
pub proof fn lm_w_skip_one(w0: World, w1: World, f: Names, k: int)
    requires orderly(w0, f), taken(w0, w1, f, k), 0 <= k, 8 * k < index_of(w0, f).len()
    ensures !files(w1).contains_key(message_path(f, id_at(index_of(w0, f), k))) ==> taken(w0, w1, f, k + 1),
        alive(w0, f, index_of(w0, f), k + 1) == if files(w1).contains_key(message_path(f, id_at(index_of(w0, f), k))) { alive(w0, f, index_of(w0, f), k).push(id_at(index_of(w0, f), k)) } else { alive(w0, f, index_of(w0, f), k) }
{
    let b = index_of(w0, f);
    lm_taken_other(w0, w1, f, k, k);
    if !files(w1).contains_key(message_path(f, id_at(b, k))) {
        assert forall|p: Names| #![trigger files(w1)[p]] #![trigger files(w1).contains_key(p)] if exists|i: int| 0 <= i < k + 1 && p == message_path(f, #[trigger] id_at(b, i)) { !files(w1).contains_key(p) } else { files(w1).contains_key(p) == files(w0).contains_key(p) && files(w1)[p] == files(w0)[p] } by {
            if exists|i: int| 0 <= i < k + 1 && p == message_path(f, #[trigger] id_at(b, i)) {
                let i = choose|i: int| 0 <= i < k + 1 && p == message_path(f, #[trigger] id_at(b, i));
                if i < k { assert(!files(w1).contains_key(p)); }
            } else {
                if exists|i: int| 0 <= i < k && p == message_path(f, #[trigger] id_at(b, i)) { let i = choose|i: int| 0 <= i < k && p == message_path(f, #[trigger] id_at(b, i)); assert(i < k + 1); }
                assert(files(w1).contains_key(p) == files(w0).contains_key(p));
            }
        }
    }
}
/// the next message that is there is the next one that waits
pub broadcast proof fn lm_w_next(w0: World, w1: World, f: Names, k: int, q: Seq<MessageInfo>)
    requires #[trigger] waits(w0, f, q), #[trigger] taken(w0, w1, f, k), 0 <= k, 8 * k < index_of(w0, f).len(), files(w1).contains_key(message_path(f, id_at(index_of(w0, f), k)))
    ensures alive(w0, f, index_of(w0, f), k).len() < q.len() && kept(w1, f, id_at(index_of(w0, f), k), q[alive(w0, f, index_of(w0, f), k).len() as int])
{
    let b = index_of(w0, f);
    let n = b.len() as int / 8;
    let id = id_at(b, k);
    lm_taken_other(w0, w1, f, k, k);
    lm_alive_start(w0, f, b, k + 1, n);
    let c = alive(w0, f, b, k).len() as int;
    assert(alive(w0, f, b, k + 1)[c] == id);
    assert(alive_all(w0, f)[c] == id);
    assert(kept(w0, f, alive_all(w0, f)[c], q[c]));
}
/// with the index cut, the rest waits
pub broadcast proof fn lm_w_cut(w0: World, w1: World, w2: World, f: Names, k: int, q: Seq<MessageInfo>, p: Names, x: Seq<u8>)
    requires #[trigger] waits(w0, f, q), #[trigger] taken(w0, w1, f, k), 0 <= k, 8 * k <= index_of(w0, f).len(), #[trigger] wrote(w1, w2, p, x), p == index_path(f), x == index_of(w0, f).subrange(8 * k, index_of(w0, f).len() as int), files(w0).contains_key(index_path(f))
    ensures waits(w2, f, q.skip(alive(w0, f, index_of(w0, f), k).len() as int)), index_of(w2, f).len() / 8 >= q.len() - alive(w0, f, index_of(w0, f), k).len()
{
    broadcast use lm_file, lm_index;
    let b0 = index_of(w0, f);
    let n = b0.len() as int / 8;
    let c = alive(w0, f, b0, k).len() as int;
    let q1 = q.skip(c);
    lm_w_taken(w0, w1, f, k, q);
    lm_w_shape(w1, w2, f, "index"@, x);
    let b2 = index_of(w2, f);
    assert(b2 == x);
    let m = b2.len() as int / 8;
    assert(m == n - k);
    assert forall|i: int| 0 <= i < m implies #[trigger] id_at(b2, i) == id_at(b0, k + i) by { lm_id_skip(b0, k, i); }
    assert forall|i: int, j: int| 0 <= i < j && 8 * j < b2.len() implies #[trigger] id_at(b2, i) != #[trigger] id_at(b2, j) by { assert(id_at(b2, i) == id_at(b0, k + i)); assert(id_at(b2, j) == id_at(b0, k + j)); }
    lm_cut_alive(w0, w1, w2, f, k, m, b2);
    lm_taken_none(w0, w1, f, k, k);
    assert(alive(w1, f, b0, k + m) == alive_all(w1, f));
    assert(alive_all(w2, f) =~= alive_all(w1, f));
    lm_alive_len(w2, f, b2, m);
    assert forall|i: int| 0 <= i < q1.len() implies kept(w2, f, #[trigger] alive_all(w2, f)[i], q1[i]) by { assert(kept(w1, f, alive_all(w1, f)[i], q1[i])); lm_file(f, alive_all(w1, f)[i], 0); }
}
pub proof fn lm_cut_alive(w0: World, w1: World, w2: World, f: Names, k: int, m: int, b2: Seq<u8>)
    requires taken(w0, w1, f, k), 0 <= k, 0 <= m, forall|i: int| 0 <= i < m ==> #[trigger] id_at(b2, i) == id_at(index_of(w0, f), k + i), forall|id: u64| files(w2).contains_key(#[trigger] message_path(f, id)) == files(w1).contains_key(message_path(f, id))
    ensures alive(w2, f, b2, m) == alive(w1, f, index_of(w0, f), k + m)
    decreases m
{
    let b = index_of(w0, f);
    if m == 0 { lm_taken_none(w0, w1, f, k, k); }
    else { lm_cut_alive(w0, w1, w2, f, k, m - 1, b2); assert(id_at(b2, m - 1) == id_at(b, k + m - 1)); assert(message_path(f, id_at(b2, m - 1)) == message_path(f, id_at(b, k + m - 1))); }
}
/// an operation that stopped there left the inbox as if it had taken the first messages, at most l of them
pub open spec fn part_way(w0: World, w: World, f: Names, l: int) -> bool { exists|k: int| 0 <= k && 8 * k <= index_of(w0, f).len() && #[trigger] taken(w0, w, f, k) && alive(w0, f, index_of(w0, f), k).len() <= l }
pub open spec fn some_taken(w: World, f: Names, q: Seq<MessageInfo>, l: int) -> bool { exists|j: int| 0 <= j <= q.len() && j <= l && #[trigger] waits(w, f, q.skip(j)) }
pub broadcast proof fn lm_part_way(w0: World, w: World, f: Names, l: int, q: Seq<MessageInfo>)
    requires #[trigger] waits(w0, f, q), #[trigger] part_way(w0, w, f, l)
    ensures some_taken(w, f, q, l)
{
    let k = choose|k: int| 0 <= k && 8 * k <= index_of(w0, f).len() && #[trigger] taken(w0, w, f, k) && alive(w0, f, index_of(w0, f), k).len() <= l;
    lm_w_taken(w0, w, f, k, q);
}
pub broadcast proof fn lm_w_start(w: World, f: Names, q: Seq<MessageInfo>) requires #[trigger] waits(w, f, q) ensures q.take(0) == Seq::<MessageInfo>::empty(), taken(w, w, f, 0), q.skip(0) == q, q.take(q.len() as int) == q, alive(w, f, index_of(w, f), 0).len() == 0 { assert(q.take(0) =~= Seq::<MessageInfo>::empty()); assert(q.skip(0) =~= q); assert(q.take(q.len() as int) =~= q); }
/// an undisturbed inbox waits
pub broadcast proof fn lm_holds_waits(w: World, f: Names, q: Seq<MessageInfo>) requires #[trigger] holds(w, f, q) ensures waits(w, f, q), forall|k: int| 0 <= k <= q.len() ==> (#[trigger] alive(w, f, index_of(w, f), k)).len() == k
{
    let b = index_of(w, f);
    lm_alive_whole(w, f, b, q.len() as int, q);
    assert forall|k: int| 0 <= k <= q.len() implies (#[trigger] alive(w, f, index_of(w, f), k)).len() == k by { lm_alive_whole(w, f, b, k, q); }
    assert forall|i: int| 0 <= i < q.len() implies kept(w, f, #[trigger] alive_all(w, f)[i], q[i]) by { assert(kept(w, f, id_at(b, i), q[i])); }
}
pub proof fn lm_alive_whole(w: World, f: Names, b: Seq<u8>, n: int, q: Seq<MessageInfo>)
    requires 0 <= n <= q.len(), forall|i: int| 0 <= i < q.len() ==> kept(w, f, #[trigger] id_at(b, i), q[i])
    ensures alive(w, f, b, n).len() == n, forall|i: int| 0 <= i < n ==> #[trigger] alive(w, f, b, n)[i] == id_at(b, i)
    decreases n
{ if n > 0 { lm_alive_whole(w, f, b, n - 1, q); assert(kept(w, f, id_at(b, n - 1), q[n - 1])); } }
/// an id the inbox did not have was used for this message: wherever the operation may have stopped, the message
/// waits behind the others or is not there, and at its end it is there
pub open spec fn sent(w0: World, w1: World, f: Names, id: u64, m: MessageInfo) -> bool {
    unused(w0, f, id) ==> {
        &&& forall|q: Seq<MessageInfo>| #[trigger] waits(w0, f, q) ==> waits(w1, f, q.push(m))
        &&& forall|q: Seq<MessageInfo>, i: int| #[trigger] waits(w0, f, q) && past(w0).len() <= i < past(w1).len() ==> within(w0, #[trigger] past(w1)[i], f) && (waits(past(w1)[i], f, q) || waits(past(w1)[i], f, q.push(m)))
    }
}
/// the first messages were given, as many as asked for or all, and the rest waits; at least its number is told
pub open spec fn fetched(w: World, f: Names, q: Seq<MessageInfo>, l: int, r: Result<(Vec<MessageInfo>, u64), Error>) -> bool { (r matches Ok(x) && x.0@ == q.take(if l < q.len() { l } else { q.len() as int }) && x.1 >= q.len() - x.0@.len()) && waits(w, f, q.skip(if l < q.len() { l } else { q.len() as int })) }
pub broadcast group sending { lm_child, lm_appended, lm_appended_back, lm_append, lm_made_here, lm_no_dir, lm_w_made, lm_w_no_dir, lm_w_index, lm_w_message, lm_w_before }
pub broadcast group fetching { lm_child, lm_cut, lm_take_push, lm_take_none, lm_w_no_dir, lm_w_take_one, lm_w_next, lm_w_cut, lm_w_start, lm_holds_waits }
@end
@fn drivers::server::messages_inbox::stored_queue::StoredQueueMessagesInbox::new
    ensures made(*old(vx_w), *final(vx_w), $0.into_spec()@), r matches Ok(t) ==> t.storage_folder == $0.into_spec() && dirs(*final(vx_w)).contains(t.storage_folder@)
@fn drivers::server::messages_inbox::stored_queue::StoredQueueMessagesInbox::channel_folder
    ensures r@ == inbox_of(self.storage_folder@, *$0, $1@)
@fn drivers::server::messages_inbox::stored_queue::StoredQueueMessagesInbox as MessagesInbox::add_message
    ensures within(*old(vx_w), *final(vx_w), inbox_of(self.storage_folder@, $1, $2@)),
        r is Ok && disk_ok() ==> exists|id: u64, t: u64| #[trigger] appended(*old(vx_w), *final(vx_w), inbox_of(self.storage_folder@, $1, $2@), id, MessageInfo { sender: $0, channel: $2, message: $3, received_at: t })
            && forall|q: Seq<MessageInfo>| #[trigger] holds(*old(vx_w), inbox_of(self.storage_folder@, $1, $2@), q) && disk_ok() && !has_id(index_of(*old(vx_w), inbox_of(self.storage_folder@, $1, $2@)), id)
                ==> holds(*final(vx_w), inbox_of(self.storage_folder@, $1, $2@), q.push(MessageInfo { sender: $0, channel: $2, message: $3, received_at: t })),  /*only C16 C17*/
        r is Ok && disk_ok() ==> exists|id: u64, t: u64| #[trigger] appended(*old(vx_w), *final(vx_w), inbox_of(self.storage_folder@, $1, $2@), id, MessageInfo { sender: $0, channel: $2, message: $3, received_at: t }) && sent(*old(vx_w), *final(vx_w), inbox_of(self.storage_folder@, $1, $2@), id, MessageInfo { sender: $0, channel: $2, message: $3, received_at: t }), /*only C26*/
        forall|q: Seq<MessageInfo>| #[trigger] holds(*old(vx_w), inbox_of(self.storage_folder@, $1, $2@), q) && disk_ok() ==> r is Ok,  /*only C16 C17*/
        r is Ok && disk_ok() && sound(*old(vx_w), inbox_of(self.storage_folder@, $1, $2@)) ==> sound(*final(vx_w), inbox_of(self.storage_folder@, $1, $2@)),
        forall|q: Seq<MessageInfo>| #[trigger] waits(*old(vx_w), inbox_of(self.storage_folder@, $1, $2@), q) && disk_ok() ==> r is Ok  /*only C26*/
@begin drivers::server::messages_inbox::stored_queue::StoredQueueMessagesInbox as MessagesInbox::add_message
broadcast use crate::drivers::server::messages_inbox::stored_queue::sending;
@fn drivers::server::messages_inbox::stored_queue::StoredQueueMessagesInbox as MessagesInbox::poll_messages
    requires sound(*old(vx_w), inbox_of(self.storage_folder@, $0, $1@))
    ensures within(*old(vx_w), *final(vx_w), inbox_of(self.storage_folder@, $0, $1@)),
        forall|q: Seq<MessageInfo>| #[trigger] holds(*old(vx_w), inbox_of(self.storage_folder@, $0, $1@), q) && disk_ok() ==> polled(*final(vx_w), inbox_of(self.storage_folder@, $0, $1@), q, match $2 { Some(n) if n < q.len() => n as int, _ => q.len() as int }, r),  /*only C16 C17*/
        r is Ok ==> sound(*final(vx_w), inbox_of(self.storage_folder@, $0, $1@)),
        forall|q: Seq<MessageInfo>| #[trigger] waits(*old(vx_w), inbox_of(self.storage_folder@, $0, $1@), q) && disk_ok() ==> fetched(*final(vx_w), inbox_of(self.storage_folder@, $0, $1@), q, match $2 { Some(n) => n as int, None => u64::MAX as int }, r),  /*only C26*/
        forall|q: Seq<MessageInfo>, i: int| #[trigger] waits(*old(vx_w), inbox_of(self.storage_folder@, $0, $1@), q) && disk_ok() && past(*old(vx_w)).len() <= i < past(*final(vx_w)).len() ==> within(*old(vx_w), #[trigger] past(*final(vx_w))[i], inbox_of(self.storage_folder@, $0, $1@)) && part_way(*old(vx_w), past(*final(vx_w))[i], inbox_of(self.storage_folder@, $0, $1@), match $2 { Some(n) => n as int, None => u64::MAX as int })  /*only C26*/
@begin drivers::server::messages_inbox::stored_queue::StoredQueueMessagesInbox as MessagesInbox::poll_messages
hide(<MessageInfo as AsJson>::enc);
broadcast use crate::drivers::server::messages_inbox::stored_queue::fetching;
let ghost vx_l = match $2 { Some(n) => n as int, None => u64::MAX as int };
let ghost vx_w0 = *vx_w;
@loop drivers::server::messages_inbox::stored_queue::StoredQueueMessagesInbox as MessagesInbox::poll_messages | 0
    invariant_except_break shift == 8 * vx_it0.pos()
    invariant 0 <= vx_it0.pos() <= vx_it0.seq().len(), vx_it0.seq().len() == index@.len() / 8, index@.len() % 8 == 0, shift % 8 == 0, shift <= index@.len() <= isize::MAX,
        forall|i: int| 0 <= i < vx_it0.seq().len() ==> (#[trigger] vx_it0.seq()[i])@ == index@.subrange(8 * i, 8 * i + 8),
        folder@ == inbox_of(self.storage_folder@, $0, $1@), index@ == index_of(vx_w0, folder@), within(vx_w0, *vx_w, folder@), vx_w0 == *old(vx_w),
        bytes@.len() == 8,
        past(vx_w0).len() <= past(*vx_w).len(), index_of(vx_w0, folder@) == index@, files(vx_w0).contains_key(index_path(folder@)),
        orderly(vx_w0, folder@) && disk_ok() ==> taken(vx_w0, *vx_w, folder@, shift as int / 8) && limit + alive(vx_w0, folder@, index@, shift as int / 8).len() == vx_l,
        forall|q: Seq<MessageInfo>| #[trigger] waits(vx_w0, folder@, q) && disk_ok() ==> alive(vx_w0, folder@, index@, shift as int / 8).len() <= q.len() && messages@ == q.take(alive(vx_w0, folder@, index@, shift as int / 8).len() as int),
        orderly(vx_w0, folder@) && disk_ok() ==> forall|i: int| past(vx_w0).len() <= i < past(*vx_w).len() ==> within(vx_w0, #[trigger] past(*vx_w)[i], folder@) && part_way(vx_w0, past(*vx_w)[i], folder@, vx_l)
    ensures limit == 0 || shift == index@.len()
    decreases vx_it0.seq().len() - vx_it0.pos()
@loopbegin drivers::server::messages_inbox::stored_queue::StoredQueueMessagesInbox as MessagesInbox::poll_messages | 0
proof { if orderly(vx_w0, folder@) && taken(vx_w0, *vx_w, folder@, shift as int / 8) && shift < index@.len() { lm_w_skip_one(vx_w0, *vx_w, folder@, shift as int / 8); } }
