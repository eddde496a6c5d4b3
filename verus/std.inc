/// ASSUMED contracts of std (documented behaviour), used through assume_specification
pub assume_specification<T: Clone>[ <[T]>::to_vec ](s: &[T]) -> (r: Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| #![trigger r@[i]] 0 <= i < s@.len() ==> cloned(s@[i], r@[i]);
pub assume_specification<'a, T: Copy>[ Option::<&'a T>::copied ](o: Option<&'a T>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => Some(*x), None => None });
pub assume_specification<T, F: FnOnce(&T) -> bool>[ Option::<T>::filter ](o: Option<T>, f: F) -> (r: Option<T>)
    requires o matches Some(x) ==> f.requires((&x,)),
    ensures match o { None => r is None, Some(x) => (r is None && f.ensures((&x,), false)) || (r == Some(x) && f.ensures((&x,), true)) };
pub assume_specification<T, E>[ Option::<Result<T, E>>::transpose ](o: Option<Result<T, E>>) -> (r: Result<Option<T>, E>)
    ensures r == (match o { None => Ok::<Option<T>, E>(None), Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e) });
pub assume_specification [ isize::saturating_add ](a: isize, b: isize) -> (r: isize)
    ensures r == (if a + b > isize::MAX { isize::MAX as int } else if a + b < isize::MIN { isize::MIN as int } else { a + b });
pub assume_specification<T, E>[ Result::<T, E>::unwrap_or ](r: Result<T, E>, d: T) -> (v: T)
    ensures v == (match r { Ok(x) => x, Err(_) => d });
