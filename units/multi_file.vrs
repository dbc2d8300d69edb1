//@include inc/base.inc
//@include inc/types.inc
//@include inc/iter.inc
// ---- std and other parts as contracts (assumed)
mod io {
    use super::*;
    pub(crate) use super::{IoError as Error, IoErrorKind as ErrorKind};
}
#[verifier::external_body]
struct PathBuf { }
type Path = PathBuf;
#[verifier::external_body]
struct InputFormat { }
#[verifier::external_body]
fn string_eq(a: &String, b: &String) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body]
fn vec_tail<T>(v: &Vec<T>, a: usize) -> (r: &[T]) requires a <= v@.len() ensures v@.len() <= usize::MAX, r@ == v@.skip(a as int), forall|k: int| #![trigger v@[k]] a <= k < v@.len() ==> v@[k] == r@[k - a] { unimplemented!() }
#[verifier::external_body]
fn slice_iter<'a, T>(s: &'a [T]) -> (r: It<&'a T>)
    ensures r.items().len() == s@.len(), forall|i: int| #![trigger r.items()[i]] #![trigger s@[i]] 0 <= i < s@.len() ==> r.items()[i] == &s@[i] { unimplemented!() }
spec fn swapped<T>(s: Seq<T>, a: int, b: int) -> Seq<T> { s.update(a, s[b]).update(b, s[a]) }
#[verifier::external_body]
fn vec_swap<T>(v: &mut Vec<T>, a: usize, b: usize) requires a < old(v)@.len(), b < old(v)@.len() ensures final(v)@ == swapped(old(v)@, a as int, b as int) { unimplemented!() }

// ---- rows and sources
type R = (Nanos, Seq<FieldValue>);
spec fn rv(r: Row) -> R { (r.timestamp, r.field_values@) }
spec fn wf(h: Header) -> bool { h.field_names@.len() == h.field_types@.len() }
spec fn wide(rows: Seq<R>, n: nat) -> bool { forall|i: int| 0 <= i < rows.len() ==> (#[trigger] rows[i]).1.len() == n }
trait Source {
    spec fn inv(&self) -> bool;
    spec fn hdr(&self) -> Header;
    spec fn rows(&self) -> Seq<R>;
    spec fn ends(&self) -> bool;          // the rows are followed by the end of the input, not by a failure
    //@fn src/chopper/chopper.rs | trait Source | header
        //@ret r
        //@nobody
        //@spec
        requires self.inv(),
        ensures *r == self.hdr(), wf(*r), wide(self.rows(), r.field_names@.len()),
    //@end
    //@fn src/chopper/chopper.rs | trait Source | next_row
        //@ret r
        //@nobody
        //@spec
        requires old(self).inv(),
        ensures
            r is Ok ==> final(self).inv() && final(self).ends() == old(self).ends() && final(self).hdr() == old(self).hdr(),
            r matches Ok(None) ==> old(self).rows().len() == 0 && old(self).ends() && final(self).rows().len() == 0,
            r matches Ok(Some(x)) ==> old(self).rows().len() > 0 && rv(x) == old(self).rows()[0] && final(self).rows() == old(self).rows().skip(1),
            r is Err ==> old(self).rows().len() == 0 && !old(self).ends(),
    //@end
}
// what the file at a path holds
uninterp spec fn opens(p: PathBuf) -> bool;
uninterp spec fn file_hdr(p: PathBuf) -> Header;
uninterp spec fn file_rows(p: PathBuf) -> Seq<R>;
uninterp spec fn file_ends(p: PathBuf) -> bool;
#[verifier::external_body]
struct SingleFileInputFactory { }
impl SingleFileInputFactory {
    #[verifier::external_body]
    fn create_source_from_path(&mut self, path: &Path, format: &InputFormat) -> (r: CliResult<Option<Box<dyn Source>>>)
        ensures
            (r matches Ok(s) && s is Some) == opens(*path),
            r matches Ok(Some(s)) ==> s.inv() && s.hdr() == file_hdr(*path) && s.rows() == file_rows(*path) && s.ends() == file_ends(*path),
    { unimplemented!() }
}
trait SerialMultiFilePathProvider {
    spec fn paths(&self) -> Seq<PathBuf>;
    //@fn src/input/serial_multi_file_provider.rs | trait SerialMultiFilePathProvider | get_next_path
        //@ret r
        //@nobody
        //@spec
        ensures
            r is None ==> old(self).paths().len() == 0 && final(self).paths().len() == 0,
            r matches Some(p) ==> old(self).paths().len() > 0 && p == old(self).paths()[0] && final(self).paths() == old(self).paths().skip(1),
    //@end
}
// ---- a directory's files
uninterp spec fn is_dir(p: PathBuf) -> bool;
uninterp spec fn entries(p: PathBuf) -> Seq<PathBuf>;
uninterp spec fn lists(p: PathBuf) -> bool;                        // the directory can be listed to its end
uninterp spec fn path_cmp(a: PathBuf, b: PathBuf) -> Ordering;     // the order of std::path::Path
impl PathBuf {
    #[verifier::external_body]
    fn cmp(&self, o: &PathBuf) -> (r: Ordering) ensures r == path_cmp(*self, *o) { unimplemented!() }
}
trait DirTransport {
    //@fn src/transport/dir/dir_transport.rs | trait DirTransport | is_dir
        //@ret r
        //@nobody
        //@spec
        ensures r == is_dir(*path),
    //@end
    //@fn src/transport/dir/dir_transport.rs | trait DirTransport | read_dir
        //@ret r
        //@sig «CliResult<Box<dyn Iterator<Item = PathBuf>>>» => «CliResult<It<PathBuf>>» (std iterator as a shim with contracts)
        //@nobody
        //@spec
        ensures r matches Ok(it) ==> lists(*path) && it.items() =~= entries(*path), r is Err ==> !lists(*path),
    //@end
}
// std's listing of a directory, as the sequence of what its iterator gives
#[verifier::external_body]
struct DirEntry { }
impl DirEntry {
    uninterp spec fn at(&self) -> PathBuf;
    #[verifier::external_body] fn path(&self) -> (r: PathBuf) ensures r == self.at() { unimplemented!() }
}
spec fn listing(p: PathBuf, v: Seq<Result<DirEntry, io::Error>>) -> bool {
    &&& lists(p) <==> forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]) is Ok
    &&& lists(p) ==> entries(p).len() == v.len() && forall|i: int| #![trigger entries(p)[i]] 0 <= i < v.len() ==> v[i]->Ok_0.at() == entries(p)[i]
}
impl PathBuf {
    #[verifier::external_body] fn is_dir(&self) -> (r: bool) ensures r == is_dir(*self) { unimplemented!() }
    // lists: no error comes first, and none comes among the entries
    #[verifier::external_body]
    fn read_dir(&self) -> (r: Result<Vec<Result<DirEntry, io::Error>>, io::Error>)
        ensures
            r is Err ==> !lists(*self),
            r matches Ok(v) ==> listing(*self, v@),
    { unimplemented!() }
}
#[verifier::external_body]
fn vec_items<T>(v: Vec<T>) -> (r: It<T>) ensures r.items() == v@ { unimplemented!() }
//@item src/transport/dir/file.rs | struct | DirFileTransport
impl DirTransport for DirFileTransport {
    //@fn src/transport/dir/file.rs | DirTransport for DirFileTransport | is_dir
        //@ret r
    //@end
    //@fn src/transport/dir/file.rs | DirTransport for DirFileTransport | read_dir
        //@ret r
        //@attr #[verifier::loop_isolation(false)]
        //@sig «CliResult<Box<dyn Iterator<Item = PathBuf>>>» => «CliResult<It<PathBuf>>» (std iterator as a shim with contracts)
        //@rw «Box::new($v.into_iter())» => «vec_items($v)» (std iterator as a shim with contracts)
        //@iter 0 it
        //@loop 0
            invariant listing(*path, it.seq()), paths@.len() == it.index@, forall|i: int| 0 <= i < it.index@ ==> (#[trigger] it.seq()[i]) is Ok && paths@[i] == it.seq()[i]->Ok_0.at(),
        //@loopstart 0
            proof { assert(entry == it.seq()[it.index@ as int]); }
    //@end
}
spec fn is_file() -> spec_fn(PathBuf) -> bool { |p: PathBuf| !is_dir(p) }
spec fn rearranged<T>(new: Seq<T>, old: Seq<T>, p: Seq<int>) -> bool {
    &&& p.len() == old.len() && new.len() == old.len()
    &&& forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < old.len() && new[i] == old[p[i]]
    &&& forall|m: int| 0 <= m < old.len() ==> #[trigger] p.contains(m)
    &&& forall|i: int, j: int| 0 <= i < j < p.len() ==> #[trigger] p[i] != #[trigger] p[j]
}
// all of them, once each, in the order of their paths
spec fn in_order(new: Seq<PathBuf>, old: Seq<PathBuf>) -> bool {
    &&& exists|p: Seq<int>| rearranged(new, old, p)
    &&& forall|i: int, j: int| 0 <= i < j < new.len() ==> !(path_cmp(#[trigger] new[i], #[trigger] new[j]) is Greater)
}
proof fn lemma_sorted<F: Fn(&PathBuf, &PathBuf) -> Ordering>(new: Seq<PathBuf>, old: Seq<PathBuf>, f: F)
    requires stable_sorted(new, old, f), forall|a: &PathBuf, b: &PathBuf, o: Ordering| #[trigger] f.ensures((a, b), o) ==> o == path_cmp(*b, *a),
    ensures in_order(new.reverse(), old),
{
    let p = choose|p: Seq<int>| sorted_from(new, old, f, p);
    let q = p.reverse();
    assert forall|m: int| 0 <= m < old.len() implies #[trigger] q.contains(m) by { assert(p.contains(m)); let i = choose|i: int| 0 <= i < p.len() && p[i] == m; assert(q[p.len() - 1 - i] == m); }
    assert forall|i: int, j: int| 0 <= i < j < q.len() implies #[trigger] q[i] != #[trigger] q[j] by { assert(p[p.len() - 1 - j] != p[p.len() - 1 - i]); }
    assert(rearranged(new.reverse(), old, q));
    assert forall|i: int, j: int| 0 <= i < j < new.len() implies !(path_cmp(#[trigger] new.reverse()[i], #[trigger] new.reverse()[j]) is Greater) by {
        let a = p.len() - 1 - j; let b = p.len() - 1 - i;
        assert(p[a] != p[b]);
        let o = choose|o: Ordering| #[trigger] cmp_is(f, old[p[a]], old[p[b]], o) && !(o is Greater) && (o is Equal ==> p[a] < p[b]);
        assert(cmp_is(f, old[p[a]], old[p[b]], o));
    }
}
#[verifier::external_body]
fn Io(t: io::Error) -> Error { unimplemented!() }
//@item src/input/files_in_dir_provider.rs | struct | FilesInDirPathProvider
impl FilesInDirPathProvider {
    //@fn src/input/files_in_dir_provider.rs | FilesInDirPathProvider | new
        //@ret r
        //@closure 0 «e: &PathBuf» «-> (o: bool) ensures o == !is_dir(*e)»
        //@closure 1 «a: &PathBuf, b: &PathBuf» «-> (o: Ordering) ensures o == path_cmp(*b, *a)»
        //@rw «Error::new» => «io::Error::new» (the name's import)
        //@rw «ErrorKind» => «io::ErrorKind» (the name's import)
        //@rw «files.sort_by(|$a, $b| $e);» => «let ghost old_files = files@; let by_ = |$a, $b| $e; sort_by_(&mut files, by_); proof { assert(entries(*path).filter(is_file()) == old_files); lemma_sorted(files@, old_files, by_); }» (std method as a function with a contract)
        //@spec
        ensures r matches Ok(s) ==> is_dir(*path) && lists(*path) && in_order(s.paths(), entries(*path).filter(is_file())), r is Err ==> !is_dir(*path) || !lists(*path),
    //@end
}
impl SerialMultiFilePathProvider for FilesInDirPathProvider {
    spec fn paths(&self) -> Seq<PathBuf> { self.files_in_reverse@.reverse() }
    //@fn src/input/files_in_dir_provider.rs | SerialMultiFilePathProvider for FilesInDirPathProvider | get_next_path
        //@ret r
        //@spec
        //@start
        proof { assert(old(self).files_in_reverse@.len() > 0 ==> old(self).files_in_reverse@.drop_last().reverse() =~= old(self).files_in_reverse@.reverse().skip(1)); }
    //@end
}
// ---- columns of one header in another
// m[i]: where column i of a is in b: same name, same type, no column twice
spec fn fit(a: Header, b: Header, m: Seq<int>) -> bool {
    &&& m.len() == a.field_names@.len()
    &&& forall|i: int| #![trigger m[i]] 0 <= i < m.len() ==> 0 <= m[i] < b.field_names@.len() && b.field_names@[m[i]]@ == a.field_names@[i]@ && b.field_types@[m[i]] == a.field_types@[i]
    &&& forall|i: int, j: int| 0 <= i < j < m.len() ==> #[trigger] m[i] != #[trigger] m[j]
}
spec fn distinct(h: Header) -> bool { forall|i: int, j: int| 0 <= i < j < h.field_names@.len() ==> (#[trigger] h.field_names@[i])@ != (#[trigger] h.field_names@[j])@ }
spec fn fits(a: Header, b: Header) -> bool { exists|m: Seq<int>| fit(a, b, m) }
spec fn the_fit(a: Header, b: Header) -> Seq<int> { choose|m: Seq<int>| fit(a, b, m) }
spec fn pick<T>(v: Seq<T>, m: Seq<int>) -> Seq<T> { Seq::new(m.len(), |i: int| v[m[i]]) }
// what the swaps of a swap map do
spec fn swaps<T>(map: Seq<usize>, v: Seq<T>, n: int) -> Seq<T> decreases n { if n <= 0 { v } else { swapped(swaps(map, v, n - 1), n - 1, map[n - 1] as int) } }
proof fn lemma_swaps_len<T>(map: Seq<usize>, v: Seq<T>, n: int)
    requires 0 <= n <= map.len(),
    ensures swaps(map, v, n).len() == v.len(),
    decreases n
{ if n > 0 { lemma_swaps_len(map, v, n - 1); } }
// swaps move positions, whatever the elements are
proof fn lemma_swaps_pos<T>(map: Seq<usize>, v: Seq<T>, id: Seq<int>, n: int)
    requires 0 <= n <= map.len(), n <= v.len(), forall|i: int| 0 <= i < n ==> (#[trigger] map[i]) < v.len(), id.len() == v.len(), forall|i: int| 0 <= i < id.len() ==> #[trigger] id[i] == i,
    ensures
        swaps(map, id, n).len() == v.len(), swaps(map, v, n).len() == v.len(),
        forall|i: int| 0 <= i < v.len() ==> 0 <= #[trigger] swaps(map, id, n)[i] < v.len() && swaps(map, v, n)[i] == v[swaps(map, id, n)[i]],
        forall|i: int, j: int| 0 <= i < j < v.len() ==> #[trigger] swaps(map, id, n)[i] != #[trigger] swaps(map, id, n)[j],
        forall|k: int| 0 <= k < v.len() ==> #[trigger] swaps(map, id, n).contains(k),
    decreases n
{
    if n > 0 {
        lemma_swaps_pos(map, v, id, n - 1);
        let p = swaps(map, id, n - 1); let q = swaps(map, id, n);
        assert(map[n - 1] < v.len());
        assert forall|k: int| 0 <= k < v.len() implies #[trigger] q.contains(k) by {
            assert(p.contains(k));
            let i = choose|i: int| 0 <= i < p.len() && p[i] == k;
            let j = if i == n - 1 { map[n - 1] as int } else if i == map[n - 1] { n - 1 } else { i };
            assert(q[j] == k);
        }
    } else {
        assert forall|k: int| 0 <= k < v.len() implies #[trigger] swaps(map, id, n).contains(k) by { assert(id[k] == k); }
    }
}
spec fn ids(n: nat) -> Seq<int> { Seq::new(n, |i: int| i) }
spec fn map_ok(map: Seq<usize>, n: nat, len: nat) -> bool { (map.len() == n || map.len() == 0) && n <= len && forall|i: int| 0 <= i < map.len() ==> (#[trigger] map[i]) < len }
// the positions a swap map brings to the first n places
spec fn mapped(map: Seq<usize>, n: nat, len: nat) -> Seq<int> { swaps(map, ids(len), map.len() as int).take(n as int) }
spec fn done(map: Seq<usize>, a: Header, b: Header) -> bool { map_ok(map, a.field_names@.len(), b.field_names@.len()) && fit(a, b, mapped(map, a.field_names@.len(), b.field_names@.len())) }
// after n columns: the columns of cur are those of b moved by the swaps so far, and the first n are those of a
spec fn so_far(a: Header, b: Header, cur: Header, map: Seq<usize>, n: int) -> bool {
    let len = b.field_names@.len();
    let p = swaps(map, ids(len), n);
    &&& map.len() == n && 0 <= n <= a.field_names@.len() && forall|i: int| 0 <= i < n ==> i <= (#[trigger] map[i]) < len
    &&& forall|k: int| 0 <= k < len ==> (#[trigger] cur.field_names@[k]) == b.field_names@[p[k]]
    &&& forall|k: int| 0 <= k < len ==> (#[trigger] cur.field_types@[k]) == b.field_types@[p[k]]
    &&& forall|i: int| 0 <= i < n ==> (#[trigger] cur.field_names@[i])@ == a.field_names@[i]@ && cur.field_types@[i] == a.field_types@[i]
}
proof fn lemma_prefix<T>(map: Seq<usize>, x: usize, v: Seq<T>, n: int)
    requires 0 <= n <= map.len(),
    ensures swaps(map.push(x), v, n) == swaps(map, v, n),
    decreases n
{ if n > 0 { lemma_prefix(map, x, v, n - 1); } }
// what holds when column n is looked for at k >= n
proof fn lemma_next(a: Header, b: Header, cur: Header, map: Seq<usize>, n: int)
    requires so_far(a, b, cur, map, n), wf(a), wf(b), wf(cur), cur.field_names@.len() == b.field_names@.len(), n < a.field_names@.len(), n <= b.field_names@.len(),
    ensures
        // the swap with a column of the right name and type
        forall|k: usize, c2: Header| #![trigger map.push(k), c2.field_names] n <= k < cur.field_names@.len() && cur.field_names@[k as int]@ == a.field_names@[n]@ && cur.field_types@[k as int] == a.field_types@[n]
            && c2.field_names@ =~= swapped(cur.field_names@, n, k as int) && c2.field_types@ =~= swapped(cur.field_types@, n, k as int)
            ==> so_far(a, b, c2, map.push(k), n + 1),
        forall|k: usize| #![trigger map.push(k)] k == n && k < cur.field_names@.len() && cur.field_names@[k as int]@ == a.field_names@[n]@ && cur.field_types@[k as int] == a.field_types@[n] ==> so_far(a, b, cur, map.push(k), n + 1),
        // no such column
        distinct(b) && fits(a, b) ==> exists|k: int| n <= k < cur.field_names@.len() && (#[trigger] cur.field_names@[k])@ == a.field_names@[n]@ && cur.field_types@[k] == a.field_types@[n],
        distinct(b) ==> forall|k: int, j: int| 0 <= k < j < cur.field_names@.len() ==> (#[trigger] cur.field_names@[k])@ != (#[trigger] cur.field_names@[j])@,
{
    let len = b.field_names@.len();
    let p = swaps(map, ids(len), n);
    lemma_swaps_pos(map, ids(len), ids(len), n);
    assert forall|k: usize, c2: Header| #![trigger map.push(k), c2.field_names] n <= k < cur.field_names@.len() && cur.field_names@[k as int]@ == a.field_names@[n]@ && cur.field_types@[k as int] == a.field_types@[n]
            && c2.field_names@ =~= swapped(cur.field_names@, n, k as int) && c2.field_types@ =~= swapped(cur.field_types@, n, k as int)
            implies so_far(a, b, c2, map.push(k), n + 1) by {
        lemma_prefix(map, k, ids(len), n);
        let q = swaps(map.push(k), ids(len), n + 1);
        assert(q == swapped(p, n, k as int));
        assert forall|i: int| 0 <= i < n + 1 implies (#[trigger] c2.field_names@[i])@ == a.field_names@[i]@ && c2.field_types@[i] == a.field_types@[i] by {
            if i < n { assert(c2.field_names@[i] == cur.field_names@[i]); assert(c2.field_types@[i] == cur.field_types@[i]); }
        }
    }
    assert forall|k: usize| #![trigger map.push(k)] k == n && k < cur.field_names@.len() && cur.field_names@[k as int]@ == a.field_names@[n]@ && cur.field_types@[k as int] == a.field_types@[n] implies so_far(a, b, cur, map.push(k), n + 1) by {
        assert(cur.field_names@ =~= swapped(cur.field_names@, n, n)); assert(cur.field_types@ =~= swapped(cur.field_types@, n, n));
        assert(cur.field_names == cur.field_names);
    }
    if distinct(b) && fits(a, b) {
        let m = the_fit(a, b);
        assert(fit(a, b, m));
        let j = m[n];
        assert(p.contains(j));
        let k = choose|k: int| 0 <= k < p.len() && p[k] == j;
        assert(cur.field_names@[k] == b.field_names@[j] && cur.field_types@[k] == b.field_types@[j]);
        if k < n {
            assert(cur.field_names@[k]@ == a.field_names@[k]@);
            assert(b.field_names@[m[k]]@ == a.field_names@[k]@);
            assert(m[k] == j);
            assert(m[k] != m[n]);
        }
        assert(cur.field_names@[k]@ == a.field_names@[n]@);
    }
    if distinct(b) {
        assert forall|k: int, j: int| 0 <= k < j < cur.field_names@.len() implies (#[trigger] cur.field_names@[k])@ != (#[trigger] cur.field_names@[j])@ by {
            assert(p[k] != p[j]);
            if p[k] < p[j] { assert(b.field_names@[p[k]]@ != b.field_names@[p[j]]@); } else { assert(b.field_names@[p[j]]@ != b.field_names@[p[k]]@); }
        }
    }
}
proof fn lemma_identity<T>(map: Seq<usize>, v: Seq<T>, n: int)
    requires 0 <= n <= map.len(), n <= v.len(), forall|i: int| 0 <= i < n ==> #[trigger] map[i] == i,
    ensures swaps(map, v, n) == v,
    decreases n
{ if n > 0 { lemma_identity(map, v, n - 1); assert(swapped(v, n - 1, n - 1) =~= v); } }
proof fn lemma_end(a: Header, b: Header, cur: Header, map: Seq<usize>, identity: bool)
    requires so_far(a, b, cur, map, a.field_names@.len() as int), wf(a), wf(b), wf(cur), cur.field_names@.len() == b.field_names@.len(), a.field_names@.len() <= b.field_names@.len(),
        identity ==> forall|i: int| 0 <= i < map.len() ==> #[trigger] map[i] == i,
    ensures
        done(map, a, b),
        identity && b.field_names@.len() == map.len() ==> done(seq![], a, b),
{
    let n = a.field_names@.len(); let len = b.field_names@.len();
    let p = swaps(map, ids(len), n as int);
    lemma_swaps_pos(map, ids(len), ids(len), n as int);
    let m = mapped(map, n, len);
    assert(m.len() == n);
    assert forall|i: int| #![trigger m[i]] 0 <= i < m.len() implies 0 <= m[i] < len && b.field_names@[m[i]]@ == a.field_names@[i]@ && b.field_types@[m[i]] == a.field_types@[i] by {
        assert(m[i] == p[i]); assert(cur.field_names@[i] == b.field_names@[p[i]]); assert(cur.field_types@[i] == b.field_types@[p[i]]);
    }
    assert forall|i: int, j: int| 0 <= i < j < m.len() implies #[trigger] m[i] != #[trigger] m[j] by { assert(p[i] != p[j]); }
    if identity && len == map.len() {
        lemma_identity(map, ids(len), n as int);
        assert(mapped(seq![], n, len) =~= m);
    }
}
proof fn lemma_too_few(a: Header, b: Header)
    requires b.field_names@.len() < a.field_names@.len(),
    ensures !fits(a, b),
{
    if fits(a, b) {
        let m = the_fit(a, b);
        assert(fit(a, b, m));
        assert(m.no_duplicates());
        m.unique_seq_to_set();
        let all = vstd::set_lib::set_int_range(0, b.field_names@.len() as int);
        vstd::set_lib::lemma_int_range(0, b.field_names@.len() as int);
        assert forall|x: int| m.to_set().contains(x) implies all.contains(x) by { let i = choose|i: int| 0 <= i < m.len() && m[i] == x; }
        vstd::set_lib::lemma_len_subset(m.to_set(), all);
    }
}
//@rwall «$v.field_names_mut().swap($a, $b)» => «vec_swap($v.field_names_mut(), $a, $b)» (std method as a function with a contract)
//@rwall «$v.field_types_mut().swap($a, $b)» => «vec_swap($v.field_types_mut(), $a, $b)» (std method as a function with a contract)
//@rwall «$v.swap($a, $b)» => «vec_swap(&mut $v, $a, $b)» (std method as a function with a contract)

// ---- the rows of files taken one after another, in the columns of the common header
spec fn conv_row(r: R, m: Seq<int>) -> R { (r.0, pick(r.1, m)) }
spec fn conv(rows: Seq<R>, m: Seq<int>) -> Seq<R> { Seq::new(rows.len(), |i: int| conv_row(rows[i], m)) }
spec fn good(c: Header, p: PathBuf) -> bool { opens(p) && fits(c, file_hdr(p)) }
// up to the first file that cannot be opened, lacks a column or fails
spec fn tail_rows(c: Header, paths: Seq<PathBuf>) -> Seq<R> decreases paths.len() {
    if paths.len() == 0 || !good(c, paths[0]) { seq![] }
    else { conv(file_rows(paths[0]), the_fit(c, file_hdr(paths[0]))) + if file_ends(paths[0]) { tail_rows(c, paths.skip(1)) } else { seq![] } }
}
spec fn tail_ends(c: Header, paths: Seq<PathBuf>) -> bool decreases paths.len() {
    paths.len() == 0 || (good(c, paths[0]) && file_ends(paths[0]) && tail_ends(c, paths.skip(1)))
}
spec fn all_distinct(paths: Seq<PathBuf>) -> bool { forall|i: int| 0 <= i < paths.len() ==> distinct(file_hdr(#[trigger] paths[i])) }
broadcast proof fn lemma_one_fit(a: Header, b: Header, m: Seq<int>)
    requires #[trigger] fit(a, b, m), distinct(b),
    ensures the_fit(a, b) == m, fits(a, b),
{
    let w = the_fit(a, b);
    assert(fit(a, b, w));
    assert forall|i: int| 0 <= i < m.len() implies m[i] == w[i] by {
        assert(b.field_names@[m[i]]@ == a.field_names@[i]@ && b.field_names@[w[i]]@ == a.field_names@[i]@);
        if m[i] < w[i] { assert(b.field_names@[m[i]]@ != b.field_names@[w[i]]@); }
        if w[i] < m[i] { assert(b.field_names@[w[i]]@ != b.field_names@[m[i]]@); }
    }
    assert(m =~= w);
}
broadcast proof fn lemma_no_map(map: Seq<usize>, n: nat)
    requires map.len() == 0,
    ensures #[trigger] mapped(map, n, n) == ids(n),
{ assert(mapped(map, n, n) =~= ids(n)); }
broadcast proof fn lemma_same_header(map: Seq<usize>, h: Header)
    requires wf(h), map.len() == 0,
    ensures #[trigger] done(map, h, h),
{ lemma_no_map(map, h.field_names@.len()); }
broadcast proof fn lemma_conv_ids(rows: Seq<R>, n: nat)
    requires wide(rows, n),
    ensures #[trigger] conv(rows, ids(n)) == rows,
{
    assert forall|i: int| 0 <= i < rows.len() implies #[trigger] conv(rows, ids(n))[i] == rows[i] by { assert(rows[i].1.len() == n); assert(pick(rows[i].1, ids(n)) =~= rows[i].1); }
    assert(conv(rows, ids(n)) =~= rows);
}
proof fn lemma_conv_skip(rows: Seq<R>, m: Seq<int>, rest: Seq<R>)
    requires rows.len() > 0,
    ensures (conv(rows, m) + rest).skip(1) == conv(rows.skip(1), m) + rest, (conv(rows, m) + rest)[0] == conv_row(rows[0], m),
{ assert((conv(rows, m) + rest).skip(1) =~= conv(rows.skip(1), m) + rest); }
// a row moved by a swap map and cut to the common columns
proof fn lemma_moved<T>(map: Seq<usize>, v: Seq<T>, n: nat)
    requires map_ok(map, n, v.len()),
    ensures swaps(map, v, map.len() as int).len() == v.len(), swaps(map, v, map.len() as int).take(n as int) == pick(v, mapped(map, n, v.len())),
{
    lemma_swaps_pos(map, v, ids(v.len()), map.len() as int);
    assert(swaps(map, v, map.len() as int).take(n as int) =~= pick(v, mapped(map, n, v.len())));
}
proof fn lemma_wide(rows: Seq<R>, m: Seq<int>, more: Seq<R>)
    requires wide(more, m.len()),
    ensures wide(conv(rows, m) + more, m.len()),
{}
proof fn lemma_tail_wide(c: Header, paths: Seq<PathBuf>)
    ensures wide(tail_rows(c, paths), c.field_names@.len()),
    decreases paths.len()
{
    if !(paths.len() == 0 || !good(c, paths[0])) {
        lemma_tail_wide(c, paths.skip(1));
        let m = the_fit(c, file_hdr(paths[0]));
        assert(fit(c, file_hdr(paths[0]), m));
        lemma_wide(file_rows(paths[0]), m, if file_ends(paths[0]) { tail_rows(c, paths.skip(1)) } else { seq![] });
    }
}
//@item src/source/multi_file_source.rs | struct | SerialMultiFileSource
impl SerialMultiFileSource {
    //@fn src/source/multi_file_source.rs | SerialMultiFileSource | create_source_from_path
        //@ret r
        //@spec
        ensures
            r is Ok <==> opens(*path),
            r matches Ok(s) ==> s.inv() && s.hdr() == file_hdr(*path) && s.rows() == file_rows(*path) && s.ends() == file_ends(*path),
    //@end
    //@fn src/source/multi_file_source.rs | SerialMultiFileSource | check_headers_match_and_return_swap_map
        //@ret r
        //@attr #[verifier::loop_isolation(false)]
        //@rw «$e[$a..].iter().position(|$n| $b)» => «slice_iter(vec_tail($e, $a)).position(|$n| $b)» (std iterator as a shim with contracts)
        //@rw «name == ref_field_name» => «string_eq(name, ref_field_name)» (std PartialEq as a function with a contract)
        //@closure 0 «name: &String» «-> (o: bool) ensures o == (name@ == ref_field_name@)»
        //@rw «for ($i, $x) in $e.iter().enumerate() {» => «for $i in 0..$e.len() { let $x = &$e[$i];» (iteration with index)
        //@spec
        requires wf(*ref_header), wf(*new_header),
        ensures
            r matches Ok(map) ==> done(map@, *ref_header, *new_header),
            r is Err && distinct(*new_header) ==> !fits(*ref_header, *new_header),
        //@start
        let ghost rh = *ref_header; let ghost nh = *new_header; let ghost len = nh.field_names@.len();
        proof { if len < rh.field_names@.len() { lemma_too_few(rh, nh); } }
        //@loop 0
            invariant
                wf(new_header), new_header.field_names@.len() == len, ref_idx <= rh.field_names@.len(), ref_idx <= len,
                so_far(rh, nh, new_header, swap_map@, ref_idx as int),
                is_identity_map ==> forall|i: int| 0 <= i < ref_idx ==> #[trigger] swap_map@[i] == i,
        //@loopstart 0
            let ghost map0 = swap_map@;
            let ghost cur = new_header;
            proof { lemma_next(rh, nh, cur, map0, ref_idx as int); }
        //@afterloop 0
            proof { lemma_end(rh, nh, new_header, swap_map@, is_identity_map); }
    //@end
    spec fn cur(&self) -> Box<dyn Source> { self.current_source->Some_0 }
    spec fn tail(&self) -> Seq<R> { tail_rows(self.common_header, self.path_provider.paths()) }
    spec fn map(&self, s: Box<dyn Source>) -> Seq<int> { mapped(self.swap_map@, self.common_header.field_names@.len(), s.hdr().field_names@.len()) }
    //@fn src/source/multi_file_source.rs | SerialMultiFileSource | new
        //@ret r
        //@spec
        requires
            external_common_header matches Some(h) ==> wf(h) && all_distinct(path_provider.paths()),
            all_distinct(path_provider.paths().skip(1)),
        ensures
            r matches Ok(s) ==> s.inv()
                && (path_provider.paths().len() == 0 ==> s.hdr().field_names@.len() == 0 && s.rows().len() == 0 && s.ends())
                && (path_provider.paths().len() > 0 ==> (match external_common_header {
                    Some(h) => s.hdr() == h && good(h, path_provider.paths()[0]) && s.rows() == tail_rows(h, path_provider.paths()) && s.ends() == tail_ends(h, path_provider.paths()),
                    None => {
                        let f = path_provider.paths()[0]; let h = file_hdr(f); let more = path_provider.paths().skip(1);
                        opens(f) && s.hdr() == h
                            && s.rows() == file_rows(f) + (if file_ends(f) { tail_rows(h, more) } else { seq![] })
                            && s.ends() == (file_ends(f) && tail_ends(h, more))
                    } })),
            r is Err ==> path_provider.paths().len() > 0 && (!opens(path_provider.paths()[0]) || (external_common_header matches Some(h) && !fits(h, file_hdr(path_provider.paths()[0])))),
        //@start
        broadcast use {lemma_one_fit, lemma_no_map, lemma_same_header, lemma_conv_ids};
    //@end
    //@fn src/source/multi_file_source.rs | SerialMultiFileSource | update_to_next_source
        //@ret r
        //@spec
        requires wf(old(self).common_header), all_distinct(old(self).path_provider.paths()),
        ensures
            final(self).common_header == old(self).common_header,
            final(self).path_provider.paths().len() <= old(self).path_provider.paths().len(),
            r is Err ==> old(self).path_provider.paths().len() > 0 && !good(old(self).common_header, old(self).path_provider.paths()[0]),
            r is Ok ==> final(self).inv() && final(self).rows() == old(self).tail() && final(self).ends() == tail_ends(old(self).common_header, old(self).path_provider.paths()),
            r is Ok && final(self).current_source is Some ==> final(self).path_provider.paths().len() < old(self).path_provider.paths().len(),
        //@start
        broadcast use {lemma_one_fit, lemma_no_map, lemma_same_header, lemma_conv_ids};
    //@end
}
impl Source for SerialMultiFileSource {
    closed spec fn inv(&self) -> bool {
        &&& wf(self.common_header) && all_distinct(self.path_provider.paths())
        &&& self.current_source matches Some(s) ==> s.inv() && wf(s.hdr()) && wide(s.rows(), s.hdr().field_names@.len()) && done(self.swap_map@, self.common_header, s.hdr())
    }
    closed spec fn hdr(&self) -> Header { self.common_header }
    closed spec fn rows(&self) -> Seq<R> {
        match self.current_source {
            None => seq![],
            Some(s) => conv(s.rows(), self.map(s)) + if s.ends() { self.tail() } else { seq![] },
        }
    }
    closed spec fn ends(&self) -> bool {
        match self.current_source { None => true, Some(s) => s.ends() && tail_ends(self.common_header, self.path_provider.paths()) }
    }
    //@fn src/source/multi_file_source.rs | Source for SerialMultiFileSource | header
        //@ret r
        //@spec
        //@start
        proof {
            lemma_tail_wide(self.common_header, self.path_provider.paths());
            if self.current_source is Some { lemma_wide(self.cur().rows(), self.map(self.cur()), if self.cur().ends() { self.tail() } else { seq![] }); }
        }
    //@end
    //@fn src/source/multi_file_source.rs | Source for SerialMultiFileSource | next_row
        //@ret r
        //@attr #[verifier::loop_isolation(false)]
        //@rw «for ($i, &$x) in $e.iter().enumerate() {» => «let ghost v0 = next_row.field_values@; proof { lemma_moved(self.swap_map@, v0, self.common_header.field_names@.len()); } for k_ in 0..$e.len() { let $i = k_; let $x = $e[k_];» (iteration with index)
        //@rw «for ($i, &$x) in $e.iter().enumerate().rev() {» => «let ghost v0 = next_row.field_values@; proof { lemma_moved(self.swap_map@, v0, self.common_header.field_names@.len()); } for k_ in 0..$e.len() { let $i = $e.len() - 1 - k_; let $x = $e[$i];» (iteration with index)
        //@spec
        //@loop 1
            invariant next_row.field_values@ == swaps(self.swap_map@, v0, k_ as int), next_row.field_values@.len() == v0.len(),
        //@loop 0
            invariant
                self.inv(), self.rows() == old(self).rows(), self.ends() == old(self).ends(), self.hdr() == old(self).hdr(),
            decreases self.path_provider.paths().len(), (if self.current_source is Some { 1int } else { 0int }),
    //@end
}
fn main() {}
} // verus!
