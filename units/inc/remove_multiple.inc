// ---- removal of several positions (src/util/remove_multiple.rs)
// keep(s, del, n): the elements of s at the positions below n that are not in del, in order
spec fn keep<T>(s: Seq<T>, del: Seq<usize>, n: int) -> Seq<T> decreases n {
    if n <= 0 { seq![] } else if exists|i: int| 0 <= i < del.len() && del[i] == n - 1 { keep(s, del, n - 1) } else { keep(s, del, n - 1).push(s[n - 1]) }
}
spec fn ascending(del: Seq<usize>, n: int) -> bool {
    &&& forall|i: int| 0 <= i < del.len() ==> #[trigger] del[i] < n
    &&& forall|i: int, j: int| 0 <= i < j < del.len() ==> #[trigger] del[i] < #[trigger] del[j]
}
trait RemoveMultiple {
    type E;
    spec fn elems(&self) -> Seq<Self::E>;
    //@fn src/util/remove_multiple.rs | trait RemoveMultiple | remove_multiple
        //@nobody
        //@spec
        requires ascending(indices@, old(self).elems().len() as int),
        ensures final(self).elems() == keep(old(self).elems(), indices@, old(self).elems().len() as int),
    //@end
}
