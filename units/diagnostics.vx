//@include base.rs
//@include map.rs
//@include iter.rs
//@include lsptypes.rs
//@include streq.rs
//@shim .iter.zip.all -> vx_zip_all &
//@closure all |(&lsp_types::Diagnostic, &lsp_types::Diagnostic)| bool
//@shim .get.into_iter.flatten -> vx_flat &
//@shim .chain -> vx_diags_chain
//@subst mem::take(&mut self.changes) =>> vx_take_set(&mut self.changes)
//@subst self.changes.extend(self.check.drain().map(|(key, _value)| key)) =>> vx_extend_drained(&mut self.changes, &mut self.check)
//@subst self.check.entry(file_id).or_default() =>> self.check.vx_or_default(file_id)
//@subst Arc::make_mut(&mut self.check_fixes).clear() =>> vx_fixes_clear(&mut self.check_fixes)
//@subst Arc::make_mut(&mut self.check_fixes) =>> &mut self.check_fixes
//@subst check_fixes.entry(file_id).or_default().extend(fixes.into_iter().map(|action| Fix { range: diagnostic.range, action })) =>> vx_fixes_add(check_fixes, fixes)
verus! {
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct FileId(pub u32);
}
//@include diagspec.rs
verus! {
//@fn dg::are_diagnostics_equal ret=r
    ensures r == deq(*left, *right),
//@at start
    proof { vx_string_eq(left.message, right.message); if left.source is Some && right.source is Some { vx_string_eq(left.source->0, right.source->0); } }
//@attr #[verifier::when_used_as_spec(deq_ref)]
//@endfn
//@fn dg::DiagnosticCollection::clear_check
    requires old(self).wf(),
    ensures final(self).wf(), final(self).native@ == old(self).native@, forall|f: FileId| (#[trigger] final(self).chk(f)).len() == 0,
        final(self).republish(old(self), old(self).check@.dom()),
//@endfn
//@fn dg::DiagnosticCollection::add_check_diagnostic
    requires old(self).wf(),
    ensures final(self).wf(), final(self).native@ == old(self).native@,
        final(self).chk(file_id) == (if has(old(self).chk(file_id), diagnostic) { old(self).chk(file_id) } else { old(self).chk(file_id).push(diagnostic) }),
        forall|f: FileId| f != file_id ==> #[trigger] final(self).chk(f) == old(self).chk(f),
        final(self).republish(old(self), set![file_id]),
//@locals diagnostics existing_diagnostic check_fixes
//@attr #[verifier::loop_isolation(false)]
//@at after_call or_default 0
    proof { assert(diagnostics@ == old(self).chk(file_id)); }
//@at before_call insert 0
    proof { assert(forall|f: FileId| f != file_id ==> #[trigger] got_diags(self.check@, f) == old(self).chk(f)); }
//@loop 0 iter=it
    invariant diagnostics@ == old(self).chk(file_id), forall|i: int| 0 <= i < it.index@ ==> !deq(#[trigger] diagnostics@[i], diagnostic),
//@endfn
//@fn dg::DiagnosticCollection::set_native_diagnostics
    requires old(self).wf(),
    ensures final(self).wf(), final(self).check@ == old(self).check@, deqs(final(self).nat(file_id), diagnostics@),
        forall|f: FileId| f != file_id ==> #[trigger] final(self).nat(f) == old(self).nat(f),
        final(self).republish(old(self), set![file_id]),
//@at end
    proof { assert(forall|f: FileId| #[trigger] self.chk(f) == old(self).chk(f)); }
//@endfn
//@fn dg::DiagnosticCollection::diagnostics_for ret=r
    ensures r.rest() == self.shown(file_id),
//@endfn
//@fn dg::DiagnosticCollection::take_changes ret=r
    ensures final(self).changes@ == Set::<FileId>::empty(), final(self).native@ == old(self).native@, final(self).check@ == old(self).check@,
        match r { Some(s) => s@ == old(self).changes@, None => old(self).changes@ == Set::<FileId>::empty() },
//@endfn
}
fn main() {}
