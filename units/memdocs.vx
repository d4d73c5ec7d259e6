//@include base.rs
//@include map.rs
use std::mem;
verus! {
/// TRUSTED: paths compare by their text (Eq and Hash are derived)
#[verifier::external_body]
pub struct VfsPath { p: usize }

}
//@include memdocsspec.rs
verus! {
//@fn md::MemDocs::contains ret=r
    ensures r == self.open().contains_key(*path),
//@endfn
//@fn md::MemDocs::insert ret=r
    ensures final(self).open() == old(self).open().insert(path, data), final(self).touched(),
        r is Err <==> old(self).open().contains_key(path),
//@endfn
//@fn md::MemDocs::remove ret=r
    ensures final(self).open() == old(self).open().remove(*path), final(self).touched(),
        r is Ok <==> old(self).open().contains_key(*path),
//@endfn
//@fn md::MemDocs::get ret=r
    ensures match r { Some(d) => self.open().contains_key(*path) && *d == self.open()[*path], None => !self.open().contains_key(*path) },
//@endfn
//@fn md::MemDocs::get_mut ret=r
    ensures final(self).touched() == old(self).touched(),
        match r {
            Some(d) => old(self).open().contains_key(*path) && *d == old(self).open()[*path] && final(self).open() == old(self).open().insert(*path, *final(d)),
            None => !old(self).open().contains_key(*path) && final(self).open() == old(self).open(),
        },
//@endfn
//@fn md::MemDocs::iter ret=r
    ensures forall|p: VfsPath| #[trigger] r.rest().contains(p) <==> self.open().contains_key(p), r.rest().no_duplicates(),
//@endfn
//@fn md::MemDocs::take_changes ret=r
    ensures r == old(self).touched(), !final(self).touched(), final(self).open() == old(self).open(),
//@endfn
//@fn md::DocumentData::new ret=r
    ensures r.version == version,
//@endfn
}
fn main() {}
