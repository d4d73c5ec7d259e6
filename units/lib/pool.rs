/// what it is to have put a task in the channel
pub ghost struct VxDone<T> { pub t: T }
pub struct VxPut<T> { pub done: Ghost<VxDone<T>> }
/// the channel of tasks, from the pool's end (TRUSTED: crossbeam; the receiver outlives the pool, so sending does not fail)
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Sender<T> { s: usize, t: Vec<T> }
impl<T> Clone for Sender<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<T> Sender<T> {
    #[verifier::external_body]
    pub fn send(&self, t: T) -> (r: Result<VxPut<T>, ()>) ensures r is Ok, r->Ok_0.done@.t == t { unimplemented!() }
}
/// a pool of threads (TRUSTED): the jobs it was given that put a task in the channel, in order: of each, the tasks that may be
#[verifier::reject_recursive_types(T)]
pub struct VxThreads<T> { pub given: Ghost<Seq<spec_fn(T) -> bool>> }
impl<T> VxThreads<T> {
    pub fn default() -> (r: Self) ensures r.given@.len() == 0 { VxThreads { given: Ghost(Seq::empty()) } }
    /// a job is run once, at some time, and its task is then in the channel
    #[verifier::external_body]
    pub fn execute<F: FnOnce() -> VxPut<T>>(&mut self, job: F) requires call_requires(job, ()) ensures final(self).given@ == old(self).given@.push(|t: T| exists|p: VxPut<T>| call_ensures(job, (), p) && p.done@.t == t) { unimplemented!() }
    /// a job that reports nothing itself
    #[verifier::external_body]
    pub fn execute_silent<F: FnOnce()>(&mut self, job: F) requires call_requires(job, ()) ensures final(self).given@ == old(self).given@ { unimplemented!() }
    #[verifier::external_body]
    pub fn queued_count(&self) -> usize { unimplemented!() }
}
//@file tk crates/move_language_server/src/thread_pool.rs
//@retype threadpool::ThreadPool => VxThreads<T>
//@shimfn threadpool::ThreadPool::default -> VxThreads::default
#[verifier::reject_recursive_types(T)]
//@type tk::TaskPool derive=
