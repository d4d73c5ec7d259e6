//@include base.rs
//@closure tk::TaskPool::spawn/execute#0 || VxPut<T> requires call_requires(task, ()) ensures call_ensures(task, (), vx_r.done@.t)
//@closure tk::TaskPool::spawn_with_sender/execute#0 || () requires call_requires(task, (sender,)) ensures true
//@scope tk::TaskPool::spawn_with_sender
//@shim .execute -> VxThreads::execute_silent &mut
//@endscope
verus! {
//@include pool.rs
//@fn tk::TaskPool::new ret=r
    ensures r.inner.given@.len() == 0,
//@endfn
//@fn tk::TaskPool::spawn
    requires call_requires(task, ()),
    ensures final(self).inner.given@ == old(self).inner.given@.push(final(self).inner.given@.last()), forall|t: T| #[trigger] (final(self).inner.given@.last())(t) ==> call_ensures(task, (), t),
//@endfn
//@fn tk::TaskPool::spawn_with_sender
    requires forall|s: Sender<T>| call_requires(task, (s,)),
    ensures final(self).inner.given == old(self).inner.given,
//@endfn
//@fn tk::TaskPool::len
//@endfn
}
fn main() {}
