// ---- tokensetapi.rs: the contracts of TokenSet, proved in unit `kinds` (written by tools/mkapi.py) ----
verus! {
//@proved_in kinds
//@fn ts::TokenSet::contains ret=r
    ensures r == self.has(kind),
//@endfn
//@fn ts::TokenSet::union ret=r
    ensures forall|k: SyntaxKind| #[trigger] r.has(k) == (self.has(k) || other.has(k)),
//@endfn
//@fn ts::TokenSet::new ret=r
    ensures forall|k: SyntaxKind| #[trigger] r.has(k) <==> among(kinds@, k), listed(r, kinds@),
//@endfn
//@endproved
}
