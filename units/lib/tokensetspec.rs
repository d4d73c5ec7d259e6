// ---- tokensetspec.rs: TokenSet and its members (inside verus!) ----
//@type ts::TokenSet derive=Clone,Copy
pub open spec fn num(k: SyntaxKind) -> int { k as int }
pub open spec fn bit(s: u128, k: SyntaxKind) -> bool { s & (1u128 << (k as u128)) != 0 }
impl TokenSet {
    /// the members of the set
    #[verifier::opaque]
    pub open spec fn has(&self, k: SyntaxKind) -> bool { bit(self.0, k) }
}
//@const ts::TokenSet.EMPTY plain
/// the empty set has no members
pub proof fn no_kinds(k: SyntaxKind)
    ensures !TokenSet::EMPTY.has(k),
{ reveal(TokenSet::has); let b = k as u128; assert(0u128 & (1u128 << b) == 0) by (bit_vector); }
/// k is in the list
pub open spec fn among(s: Seq<SyntaxKind>, k: SyntaxKind) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == k }
/// (the first members one by one, so that they need no witness)
pub open spec fn listed(r: TokenSet, s: Seq<SyntaxKind>) -> bool {
    &&& s.len() > 0 ==> r.has(s[0])
    &&& s.len() > 1 ==> r.has(s[1])
    &&& s.len() > 2 ==> r.has(s[2])
    &&& s.len() > 3 ==> r.has(s[3])
    &&& s.len() > 4 ==> r.has(s[4])
    &&& s.len() > 5 ==> r.has(s[5])
    &&& s.len() > 6 ==> r.has(s[6])
    &&& s.len() > 7 ==> r.has(s[7])
    &&& s.len() > 8 ==> r.has(s[8])
    &&& s.len() > 9 ==> r.has(s[9])
    &&& s.len() > 10 ==> r.has(s[10])
    &&& s.len() > 11 ==> r.has(s[11])
    &&& s.len() > 12 ==> r.has(s[12])
    &&& s.len() > 13 ==> r.has(s[13])
    &&& s.len() > 14 ==> r.has(s[14])
    &&& s.len() > 15 ==> r.has(s[15])
}
