// ---- docapi.rs: the contract of apply_document_changes, proved in unit `docedits` (written by tools/mkapi.py) ----
verus! {
//@proved_in docedits
//@fn lu::apply_document_changes
    requires all_fit(old(old_text)@, content_changes@),
    ensures final(old_text)@ == run(old(old_text)@, content_changes@, content_changes@.len() as int),
//@endfn
//@endproved
}
