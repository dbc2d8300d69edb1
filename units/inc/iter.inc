// ---- std iterators over slices, as contracts on the ghost sequence of items (assumed)
use core::cmp::Ordering;
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
struct It<T> { t: core::marker::PhantomData<T> }
spec fn le_by<T, F: Fn(&T, &T) -> Ordering>(f: F, a: T, b: T) -> bool { exists|o: Ordering| #[trigger] f.ensures((&a, &b), o) && !(o is Greater) }
impl<T> It<T> {
    uninterp spec fn items(&self) -> Seq<T>;
    #[verifier::external_body]
    fn enumerate(self) -> (r: It<(usize, T)>)
        ensures r.items().len() == self.items().len(),
            forall|i: int| #![trigger r.items()[i]] #![trigger self.items()[i]] 0 <= i < self.items().len() ==> r.items()[i].0 as int == i && r.items()[i].1 == self.items()[i],
    { unimplemented!() }
    // Iterator::min_by: an item that the comparison calls not greater than any item
    #[verifier::external_body]
    fn min_by<F: Fn(&T, &T) -> Ordering>(self, f: F) -> (r: Option<T>)
        requires forall|a: &T, b: &T| f.requires((a, b)),
        ensures r is None <==> self.items().len() == 0,
            r matches Some(m) ==> (exists|i: int| 0 <= i < self.items().len() && m == self.items()[i]
                && forall|j: int| 0 <= j < self.items().len() ==> le_by(f, m, #[trigger] self.items()[j])),
    { unimplemented!() }
    // Iterator::position: the first item the predicate accepts
    #[verifier::external_body]
    fn position<F: Fn(T) -> bool>(&mut self, f: F) -> (r: Option<usize>)
        requires forall|a: T| f.requires((a,)),
        ensures
            r matches Some(k) ==> k < old(self).items().len() && f.ensures((old(self).items()[k as int],), true)
                && forall|j: int| 0 <= j < k ==> f.ensures((#[trigger] old(self).items()[j],), false),
            r is None ==> forall|j: int| 0 <= j < old(self).items().len() ==> f.ensures((#[trigger] old(self).items()[j],), false),
    { unimplemented!() }
}
trait IterShim<T> { fn iter_<'a>(&'a self) -> It<&'a T>; }
impl<T> IterShim<T> for Vec<T> {
    #[verifier::external_body]
    fn iter_<'a>(&'a self) -> (r: It<&'a T>)
        ensures r.items().len() == self@.len(), forall|i: int| #![trigger r.items()[i]] #![trigger self@[i]] 0 <= i < self@.len() ==> r.items()[i] == &self@[i]
    { unimplemented!() }
}
impl<T> It<T> {
    #[verifier::external_body]
    fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: It<U>)
        requires forall|i: int| 0 <= i < self.items().len() ==> f.requires((#[trigger] self.items()[i],)),
        ensures r.items().len() == self.items().len(), forall|i: int| #![trigger r.items()[i]] #![trigger self.items()[i]] 0 <= i < self.items().len() ==> f.ensures((self.items()[i],), r.items()[i]),
    { unimplemented!() }
    #[verifier::external_body]
    fn filter<F: Fn(&T) -> bool>(self, f: F) -> (r: It<T>)
        requires forall|i: int| 0 <= i < self.items().len() ==> f.requires((&#[trigger] self.items()[i],)),
        ensures forall|p: spec_fn(T) -> bool| (forall|x: T, b: bool| #[trigger] f.ensures((&x,), b) ==> b == p(x)) ==> r.items() == #[trigger] self.items().filter(p),
    { unimplemented!() }
    #[verifier::external_body]
    fn collect(self) -> (r: Vec<T>) ensures r@ == self.items() { unimplemented!() }
}
// stable sorting
spec fn cmp_is<T, F: Fn(&T, &T) -> Ordering>(f: F, a: T, b: T, o: Ordering) -> bool { f.ensures((&a, &b), o) }
spec fn sorted_from<T, F: Fn(&T, &T) -> Ordering>(new: Seq<T>, old: Seq<T>, f: F, p: Seq<int>) -> bool {
    &&& p.len() == old.len() && new.len() == old.len()
    &&& forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < old.len() && new[i] == old[p[i]]
    &&& forall|m: int| 0 <= m < old.len() ==> #[trigger] p.contains(m)
    &&& forall|i: int, j: int| 0 <= i < j < p.len() ==> p[i] != p[j] && (exists|o: Ordering| #[trigger] cmp_is(f, old[p[i]], old[p[j]], o) && !(o is Greater) && (o is Equal ==> p[i] < p[j]))
}
spec fn stable_sorted<T, F: Fn(&T, &T) -> Ordering>(new: Seq<T>, old: Seq<T>, f: F) -> bool { exists|p: Seq<int>| sorted_from(new, old, f, p) }
#[verifier::external_body]
fn sort_by_<T, F: Fn(&T, &T) -> Ordering>(v: &mut Vec<T>, f: F)
    requires forall|a: &T, b: &T| old(v)@.contains(*a) && old(v)@.contains(*b) ==> f.requires((a, b)),
    ensures stable_sorted(final(v)@, old(v)@, f),
{ unimplemented!() }
