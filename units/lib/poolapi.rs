// ---- poolapi.rs: the contracts of the pool's functions, proved in unit `pool` (written by tools/mkapi.py) ----
verus! {
//@proved_in pool
//@fn tk::TaskPool::new ret=r
    ensures r.inner.given@.len() == 0,
//@endfn
//@fn tk::TaskPool::spawn
    requires call_requires(task, ()),
    ensures final(self).inner.given@ == old(self).inner.given@.push(final(self).inner.given@.last()), forall|t: T| #[trigger] (final(self).inner.given@.last())(t) ==> call_ensures(task, (), t),
//@endfn
//@fn tk::TaskPool::spawn_with_sender
    requires forall|s: Sender<T>| call_requires(task, (s,)),
    ensures final(self).inner.given == old(self).inner.given,
//@endfn
//@endproved
}
