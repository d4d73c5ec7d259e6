// ---- diagapi.rs: the contracts of DiagnosticCollection, proved in unit `diagnostics` (written by tools/mkapi.py) ----
verus! {
//@proved_in diagnostics
//@fn dg::DiagnosticCollection::set_native_diagnostics
    requires old(self).wf(),
    ensures final(self).wf(), final(self).check@ == old(self).check@, deqs(final(self).nat(file_id), diagnostics@),
        forall|f: FileId| f != file_id ==> #[trigger] final(self).nat(f) == old(self).nat(f),
        final(self).republish(old(self), set![file_id]),
//@endfn
//@fn dg::DiagnosticCollection::diagnostics_for ret=r
    ensures r.rest() == self.shown(file_id),
//@endfn
//@fn dg::DiagnosticCollection::take_changes ret=r
    ensures final(self).changes@ == Set::<FileId>::empty(), final(self).native@ == old(self).native@, final(self).check@ == old(self).check@,
        match r { Some(s) => s@ == old(self).changes@, None => old(self).changes@ == Set::<FileId>::empty() },
//@endfn
//@endproved
}
