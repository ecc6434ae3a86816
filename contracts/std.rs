// ---- shim: std functions vstd has no contract for (TRUSTED, contract = documented definition) ----
pub assume_specification<T, U, F: FnOnce(T) -> U>[ Option::<T>::map_or ](o: Option<T>, d: U, f: F) -> (r: U)
    requires o is Some ==> f.requires((o->0,))
    ensures match o { Some(x) => f.ensures((x,), r), None => r == d };
pub assume_specification<T, F: FnOnce(T) -> bool>[ Option::<T>::is_some_and ](o: Option<T>, f: F) -> (r: bool)
    requires o is Some ==> f.requires((o->0,))
    ensures match o { Some(x) => f.ensures((x,), r), None => !r };
pub assume_specification<T, P: FnOnce(&T) -> bool>[ Option::<T>::filter ](o: Option<T>, p: P) -> (r: Option<T>)
    requires o is Some ==> p.requires((&o->0,))
    ensures match o { Some(x) => (r == o && p.ensures((&x,), true)) || (r is None && p.ensures((&x,), false)), None => r is None };
pub assume_specification<T>[ Option::<T>::or ](o: Option<T>, p: Option<T>) -> (r: Option<T>)
    ensures r == (if o is Some { o } else { p });
pub assume_specification<T>[ Option::<T>::xor ](o: Option<T>, p: Option<T>) -> (r: Option<T>)
    ensures r == (if o is Some && p is None { o } else if o is None && p is Some { p } else { None::<T> });
pub assume_specification<T>[ Option::<T>::replace ](o: &mut Option<T>, x: T) -> (r: Option<T>)
    ensures r == *old(o), *final(o) == Some(x);
pub assume_specification<T, U>[ Option::<T>::zip ](o: Option<T>, p: Option<U>) -> (r: Option<(T, U)>)
    ensures r == (if o is Some && p is Some { Some((o->0, p->0)) } else { None::<(T, U)> });
pub assume_specification<T: Copy>[ Option::<&T>::copied ](o: Option<&T>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => Some(*x), None => None::<T> });
pub assume_specification<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>[ Option::<T>::map_or_else ](o: Option<T>, d: D, f: F) -> (r: U)
    requires o is Some ==> f.requires((o->0,)), o is None ==> d.requires(())
    ensures match o { Some(x) => f.ensures((x,), r), None => d.ensures((), r) };
pub assume_specification<T>[ bool::then_some ](b: bool, x: T) -> (r: Option<T>) ensures r == (if b { Some(x) } else { None::<T> });
pub assume_specification[ u64::abs_diff ](a: u64, b: u64) -> (r: u64) ensures r == (if a >= b { a - b } else { b - a });
pub assume_specification[ u32::abs_diff ](a: u32, b: u32) -> (r: u32) ensures r == (if a >= b { a - b } else { b - a });
pub assume_specification[ usize::abs_diff ](a: usize, b: usize) -> (r: usize) ensures r == (if a >= b { a - b } else { b - a });
pub assume_specification[ u64::rem_euclid ](a: u64, b: u64) -> (r: u64) requires b > 0 ensures r == a % b;
pub assume_specification[ u64::div_euclid ](a: u64, b: u64) -> (r: u64) requires b > 0 ensures r == a / b;
pub assume_specification[ u64::div_ceil ](a: u64, b: u64) -> (r: u64) requires b > 0 ensures r == (if a % b == 0 { (a / b) as int } else { a / b + 1 });
pub assume_specification[ u32::rem_euclid ](a: u32, b: u32) -> (r: u32) requires b > 0 ensures r == a % b;
pub assume_specification[ u32::div_euclid ](a: u32, b: u32) -> (r: u32) requires b > 0 ensures r == a / b;
pub assume_specification[ u64::next_multiple_of ](a: u64, b: u64) -> (r: u64)
    requires b > 0, a % b != 0 ==> a - a % b + b <= u64::MAX
    ensures r == (if a % b == 0 { a as int } else { a - a % b + b });
pub assume_specification<T>[ <[T]>::reverse ](s: &mut [T])
    ensures final(s)@ == old(s)@.reverse();
pub assume_specification<T>[ <[T]>::swap ](s: &mut [T], i: usize, j: usize)
    requires i < old(s)@.len(), j < old(s)@.len()
    ensures final(s)@ == old(s)@.update(i as int, old(s)@[j as int]).update(j as int, old(s)@[i as int]);
pub assume_specification<T>[ std::mem::replace ](a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b;
