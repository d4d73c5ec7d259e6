// ---- mem.rs: std::mem::replace (TRUSTED, as std documents it) ----
use std::mem;
verus! {
pub assume_specification<T>[ std::mem::replace ](dest: &mut T, src: T) -> (r: T)
    ensures *final(dest) == src, r == *old(dest);
}
