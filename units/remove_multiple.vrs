//@include inc/base.inc
//@include inc/io_min.inc
//@include inc/remove_multiple.inc
// std: Vec::as_mut (AsMut<[T]>), slice rotate_left, as contracts (assumed)
#[verifier::external_body]
fn vec_as_mut<T>(v: &mut Vec<T>) -> (r: &mut [T]) ensures r@ == old(v)@, final(v)@ == final(r)@ { unimplemented!() }
#[verifier::external_body]
fn slice_rotate_left<T>(s: &mut [T], a: usize, b: usize, k: usize)
    requires a <= b <= old(s)@.len(), k <= b - a,
    ensures final(s)@ == old(s)@.take(a as int) + old(s)@.subrange(a + k, b as int) + old(s)@.subrange(a as int, a + k) + old(s)@.skip(b as int)
{ unimplemented!() }
#[verifier::external_body]
fn slice_tail<T>(s: &[T], a: usize) -> (r: &[T]) requires a <= s@.len() ensures r@ == s@.skip(a as int) { unimplemented!() }

proof fn lemma_keep_run<T>(s: Seq<T>, del: Seq<usize>, a: int, b: int)
    requires 0 <= a <= b <= s.len(), forall|i: int| 0 <= i < del.len() ==> !(a <= #[trigger] del[i] < b),
    ensures keep(s, del, b) == keep(s, del, a) + s.subrange(a, b),
    decreases b - a
{
    if a < b {
        lemma_keep_run(s, del, a, b - 1);
        assert(s.subrange(a, b) =~= s.subrange(a, b - 1).push(s[b - 1]));
        assert(keep(s, del, b) =~= keep(s, del, a) + s.subrange(a, b));
    } else { assert(keep(s, del, b) =~= keep(s, del, a) + s.subrange(a, b)); }
}
proof fn lemma_keep_all<T>(s: Seq<T>, n: int)
    requires 0 <= n <= s.len(),
    ensures keep(s, Seq::<usize>::empty(), n) == s.take(n),
{ lemma_keep_run(s, Seq::<usize>::empty(), 0, n); assert(keep(s, Seq::<usize>::empty(), 0) + s.subrange(0, n) =~= s.take(n)); }

// v holds: what is kept of s before position p, then c elements not wanted any more, then the rest of s from p + 1
spec fn kept<T>(v: Seq<T>, s: Seq<T>, idx: Seq<usize>, p: int, c: int) -> bool {
    &&& 1 <= c <= p + 1 && p < s.len()
    &&& v.take(p - (c - 1)) == keep(s, idx, p)
    &&& v.skip(p + 1) == s.skip(p + 1)
}
impl<T> RemoveMultiple for Vec<T> {
    type E = T;
    spec fn elems(&self) -> Seq<T> { self@ }
    //@fn src/util/remove_multiple.rs | RemoveMultiple for Vec | remove_multiple
        //@attr #[verifier::loop_isolation(false)]
        //@rw «self.as_mut()» => «vec_as_mut(self)» (std method as a function with a contract)
        //@rw «slice[$a..$b].rotate_left($k)» => «slice_rotate_left(slice, $a, $b, $k)» (std method as a function with a contract)
        //@rw «slice[$a..].rotate_left($k)» => «slice_rotate_left(slice, $a, slice.len(), $k)» (std method as a function with a contract)
        //@rw «&indices[$a..]» => «slice_tail(indices, $a)» (std indexing as a function with a contract)
        //@start
        let ghost s = self@;
        let ghost idx = indices@;
        proof { lemma_keep_all(s, s.len() as int); assert(s.take(s.len() as int) =~= s); if idx.len() == 0 { assert(idx =~= Seq::<usize>::empty()); } }
        //@beforeloop 0
            proof {
                lemma_keep_run(s, idx, 0, prev_index as int);
                assert(keep(s, idx, prev_index as int) =~= s.take(prev_index as int));
            }
        //@iter 0 it
        //@loop 0
            invariant
                slice@.len() == s.len(), it.seq().len() == idx.len() - 1, forall|q: int| 0 <= q < it.seq().len() ==> *#[trigger] it.seq()[q] == idx[q + 1],
                removed_count == it.index@ + 1, prev_index == idx[it.index@ as int],
                kept(slice@, s, idx, prev_index as int, removed_count as int),
        //@loopstart 0
            let ghost k = it.index@ as int;
            let ghost c = removed_count as int;
            let ghost p = prev_index as int;
            let ghost before = slice@;
            proof {
                assert(*current_index_r == idx[k + 1]);
                lemma_keep_run(s, idx, p + 1, *current_index_r as int);
                assert(idx[k] == p);
            }
        //@loopend 0
            proof {
                let lo = p - (c - 1);
                let add = s.subrange(p + 1, current_index as int);
                assert(before.subrange(lo + c, current_index as int) =~= add) by {
                    assert forall|q: int| p + 1 <= q < s.len() implies #[trigger] before[q] == s[q] by {
                        assert(before.skip(p + 1)[q - (p + 1)] == s.skip(p + 1)[q - (p + 1)]);
                    }
                }
                assert(keep(s, idx, p + 1) == keep(s, idx, p));
                assert(slice@.take(prev_index - (removed_count - 1)) =~= before.take(lo) + add);
                assert(slice@.skip(prev_index + 1) =~= s.skip(prev_index + 1)) by {
                    assert forall|q: int| prev_index + 1 <= q < s.len() implies #[trigger] slice@[q] == s[q] by {
                        assert(slice@[q] == before[q]);
                        assert(before.skip(p + 1)[q - (p + 1)] == s.skip(p + 1)[q - (p + 1)]);
                    }
                }
            }
        //@afterloop 0
            let ghost c = removed_count as int;
            let ghost p = prev_index as int;
            let ghost before = slice@;
            proof {
                lemma_keep_run(s, idx, p + 1, s.len() as int);
                assert(idx[idx.len() - 1] == p);
                assert(keep(s, idx, p + 1) == keep(s, idx, p));
                assert(before.subrange(p + 1, s.len() as int) =~= s.subrange(p + 1, s.len() as int)) by {
                    assert forall|q: int| p + 1 <= q < s.len() implies #[trigger] before[q] == s[q] by {
                        assert(before.skip(p + 1)[q - (p + 1)] == s.skip(p + 1)[q - (p + 1)]);
                    }
                }
            }
        //@after «self.truncate(self.len() - removed_count);»
            proof { assert(self@ =~= before.take(p - (c - 1)) + s.subrange(p + 1, s.len() as int)); }
    //@end
}
fn main() {}
} // verus!
