use vstd::std_specs::cmp::{OrdSpec, PartialEqSpec};
// ---- std functions without a specification in vstd (assumed), so that a rewritten function still type-checks in its unit
pub assume_specification<T, E, F>[ Result::<T, E>::or::<F> ](a: Result<T, E>, b: Result<T, F>) -> (r: Result<T, F>)
    ensures r == (match a { Ok(x) => Ok::<T, F>(x), Err(_) => b });
pub assume_specification<T, E>[ Result::<T, E>::unwrap_or ](a: Result<T, E>, d: T) -> (r: T)
    ensures r == (match a { Ok(x) => x, Err(_) => d });
pub assume_specification<T, E, F: FnOnce(E) -> T>[ Result::<T, E>::unwrap_or_else ](a: Result<T, E>, f: F) -> (r: T)
    requires a matches Err(e) ==> f.requires((e,)),
    ensures match a { Ok(x) => r == x, Err(e) => f.ensures((e,), r) };
pub assume_specification<T, E, U, F: FnOnce(T) -> Result<U, E>>[ Result::<T, E>::and_then ](a: Result<T, E>, f: F) -> (r: Result<U, E>)
    requires a matches Ok(x) ==> f.requires((x,)),
    ensures match a { Ok(x) => f.ensures((x,), r), Err(e) => r == Err::<U, E>(e) };
pub assume_specification<T>[ Option::<T>::or ](a: Option<T>, b: Option<T>) -> (r: Option<T>)
    ensures r == (if a is Some { a } else { b });
pub assume_specification<T, F: FnOnce() -> Option<T>>[ Option::<T>::or_else ](a: Option<T>, f: F) -> (r: Option<T>)
    requires a is None ==> f.requires(()),
    ensures a is Some ==> r == a, a is None ==> f.ensures((), r);
pub assume_specification<T, U, F: FnOnce(T) -> U>[ Option::<T>::map_or ](a: Option<T>, d: U, f: F) -> (r: U)
    requires a matches Some(x) ==> f.requires((x,)),
    ensures match a { Some(x) => f.ensures((x,), r), None => r == d };
pub assume_specification<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>[ Option::<T>::map_or_else ](a: Option<T>, d: D, f: F) -> (r: U)
    requires match a { Some(x) => f.requires((x,)), None => d.requires(()) },
    ensures match a { Some(x) => f.ensures((x,), r), None => d.ensures((), r) };
pub assume_specification<T, P: FnOnce(&T) -> bool>[ Option::<T>::filter ](a: Option<T>, p: P) -> (r: Option<T>)
    requires a matches Some(x) ==> p.requires((&x,)),
    ensures match a { None => r is None, Some(x) => r == a && p.ensures((&x,), true) || r is None && p.ensures((&x,), false) };
pub assume_specification<T, P: FnOnce(T) -> bool>[ Option::<T>::is_some_and ](a: Option<T>, p: P) -> (r: bool)
    requires a matches Some(x) ==> p.requires((x,)),
    ensures match a { None => !r, Some(x) => p.ensures((x,), r) };
pub assume_specification<T, P: FnOnce(T) -> bool>[ Option::<T>::is_none_or ](a: Option<T>, p: P) -> (r: bool)
    requires a matches Some(x) ==> p.requires((x,)),
    ensures match a { None => r, Some(x) => p.ensures((x,), r) };
pub assume_specification<T>[ Option::<T>::replace ](a: &mut Option<T>, v: T) -> (r: Option<T>)
    ensures *final(a) == Some(v), r == *old(a);
pub assume_specification<T>[ Option::<T>::xor ](a: Option<T>, b: Option<T>) -> (r: Option<T>)
    ensures r == (if a is Some && b is None { a } else if a is None && b is Some { b } else { None });
pub assume_specification<T, U>[ Option::<T>::zip ](a: Option<T>, b: Option<U>) -> (r: Option<(T, U)>)
    ensures r == (if a is Some && b is Some { Some((a->0, b->0)) } else { None });
pub assume_specification<'a, T: Copy>[ Option::<&'a T>::copied ](a: Option<&'a T>) -> (r: Option<T>)
    ensures r == (match a { Some(x) => Some(*x), None => None });
pub assume_specification<T>[ core::mem::replace::<T> ](a: &mut T, v: T) -> (r: T)
    ensures *final(a) == v, r == *old(a);
pub assume_specification<T>[ bool::then_some::<T> ](b: bool, v: T) -> (r: Option<T>)
    ensures r == (if b { Some(v) } else { None });
pub assume_specification<T>[ <[T]>::swap ](v: &mut [T], a: usize, b: usize)
    requires a < old(v)@.len(), b < old(v)@.len(),
    ensures final(v)@ == old(v)@.update(a as int, old(v)@[b as int]).update(b as int, old(v)@[a as int]);
pub assume_specification<T>[ <[T]>::reverse ](v: &mut [T])
    ensures final(v)@ == old(v)@.reverse();
pub assume_specification[ u64::abs_diff ](a: u64, b: u64) -> (r: u64)
    ensures r == (if a > b { a - b } else { b - a });
pub assume_specification[ usize::abs_diff ](a: usize, b: usize) -> (r: usize)
    ensures r == (if a > b { a - b } else { b - a });
pub assume_specification[ usize::div_ceil ](a: usize, b: usize) -> (r: usize)
    requires b > 0,
    ensures r == (a + b - 1) / b as int;
pub assume_specification[ String::len ](s: &String) -> (r: usize)
    ensures r == encode_utf8(s@).len();
pub assume_specification[ u8::is_ascii_digit ](c: &u8) -> (r: bool)
    ensures r == (48 <= *c <= 57);
pub assume_specification[ char::is_ascii ](c: &char) -> (r: bool)
    ensures r == (*c as u32 <= 127);
pub assume_specification<T: Ord>[ core::cmp::min::<T> ](a: T, b: T) -> (r: T)
    ensures r == a || r == b, T::obeys_cmp_spec() ==> r == (if a.cmp_spec(&b) is Greater { b } else { a });
pub assume_specification<T: Ord>[ core::cmp::max::<T> ](a: T, b: T) -> (r: T)
    ensures r == a || r == b, T::obeys_cmp_spec() ==> r == (if a.cmp_spec(&b) is Greater { a } else { b });
pub assume_specification<T: PartialEq>[ <[T]>::contains ](v: &[T], x: &T) -> (r: bool)
    ensures T::obeys_eq_spec() ==> r == (exists|i: int| 0 <= i < v@.len() && #[trigger] v@[i].eq_spec(x));
pub assume_specification<T, E>[ Option::<Result<T, E>>::transpose ](a: Option<Result<T, E>>) -> (r: Result<Option<T>, E>)
    ensures r == (match a { None => Ok::<Option<T>, E>(None), Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e) });
pub assume_specification<T, E>[ Result::<Option<T>, E>::transpose ](a: Result<Option<T>, E>) -> (r: Option<Result<T, E>>)
    ensures r == (match a { Ok(None) => None::<Result<T, E>>, Ok(Some(x)) => Some(Ok(x)), Err(e) => Some(Err(e)) });
