// ---- publishapi.rs: the contract of update_diagnostics, proved in unit `publish` (written by tools/mkapi.py) ----
verus! {
//@proved_in publish
//@fn ml::GlobalState::update_diagnostics
    requires old(self).synced(old(self).store().all_now()), old(self).docs_stored(), old(self).docs_small(),
    ensures *final(self) == (GlobalState { task_pool: final(self).task_pool, ..*old(self) }),
        final(self).jobs() == old(self).jobs().push(final(self).jobs().last()),
        forall|t: Task| #[trigger] (final(self).jobs().last())(t) ==> old(self).diagnosed(t),
//@endfn
//@endproved
}
