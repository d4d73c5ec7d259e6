// ---- absorbapi.rs: the contract of GlobalState::process_changes, proved in unit `absorb` (written by tools/mkapi.py) ----
verus! {
//@proved_in absorb
//@fn gs::GlobalState::process_changes ret=r
    requires exists|base: Base| #[trigger] old(self).synced(base),
    ensures
        final(self).synced(final(self).store().all_now()),
        final(self).store().data == old(self).store().data, final(self).store().interner == old(self).store().interner, final(self).store().log().len() == 0,
        r == (old(self).store().log().len() > 0),
        *final(self) == (GlobalState { vfs: final(self).vfs, analysis_host: final(self).analysis_host, ..*old(self) }),
        // what did not change keeps what it had
        kept(old(self).store().log(), old(self).db(), final(self).db()),
//@endfn
//@endproved
}
