//@include base.rs
//@include kinds.rs
//@file ts crates/parser/src/token_set.rs
//@file nd crates/syntax/src/ast/nodes.rs
//@file tk crates/syntax/src/ast/tokens.rs
//@strip crate
//@subst std::mem::transmute::<u16, SyntaxKind>(d) =>> vx_transmute(d)
verus! {
//@include tokensetspec.rs
/// every kind has its bit
proof fn num_bound(k: SyntaxKind) ensures 0 <= num(k) < 128 { }
proof fn bit_or(s: u128, j: SyntaxKind, k: SyntaxKind)
    ensures bit(s | (1u128 << (j as u128)), k) == (bit(s, k) || j == k), !bit(0, k),
{
    num_bound(j); num_bound(k);
    let a = j as u128; let b = k as u128;
    assert(a < 128 && b < 128);
    assert((s | (1u128 << a)) & (1u128 << b) != 0 <==> (s & (1u128 << b) != 0 || a == b)) by (bit_vector) requires a < 128, b < 128;
    assert(0u128 & (1u128 << b) == 0) by (bit_vector);
    assert(a == b ==> num(j) == num(k));
}
proof fn bit_union(s: u128, t: u128, k: SyntaxKind)
    ensures bit(s | t, k) == (bit(s, k) || bit(t, k)),
{
    let b = k as u128;
    assert((s | t) & (1u128 << b) != 0 <==> (s & (1u128 << b) != 0 || t & (1u128 << b) != 0)) by (bit_vector);
}
//@fn ts::mask ret=r
    ensures r == 1u128 << (kind as u128),
//@at start
    proof { num_bound(kind); }
//@endfn
//@fn ts::TokenSet::contains ret=r
    ensures r == self.has(kind),
//@at start
    proof { reveal(TokenSet::has); }
//@endfn
//@fn ts::TokenSet::union ret=r
    ensures forall|k: SyntaxKind| #[trigger] r.has(k) == (self.has(k) || other.has(k)),
//@at start
    proof { reveal(TokenSet::has); assert forall|k: SyntaxKind| #[trigger] bit(self.0 | other.0, k) == (bit(self.0, k) || bit(other.0, k)) by { bit_union(self.0, other.0, k); } }
//@endfn
//@fn ts::TokenSet::new ret=r
    ensures forall|k: SyntaxKind| #[trigger] r.has(k) <==> among(kinds@, k), listed(r, kinds@),
//@attr #[verifier::loop_isolation(false)]
//@locals res i
//@at start
    proof { assert forall|k: SyntaxKind| !bit(0, k) by { bit_or(0, k, k); } }
//@loop 0
    invariant i <= kinds@.len(), forall|k: SyntaxKind| #[trigger] bit(res, k) <==> among(kinds@.take(i as int), k),
    decreases kinds@.len() - i,
//@at loopstart 0
    let ghost before = res;
//@at loopend 0
    proof {
        let c = kinds@[i - 1];
        assert(res == before | (1u128 << (c as u128)));
        assert forall|k: SyntaxKind| #[trigger] bit(res, k) <==> among(kinds@.take(i as int), k) by {
            bit_or(before, c, k);
            assert(kinds@.take(i as int) =~= kinds@.take(i - 1).push(c));
            if among(kinds@.take(i - 1), k) { let j = choose|x: int| 0 <= x < i - 1 && #[trigger] kinds@.take(i - 1)[x] == k; assert(kinds@.take(i as int)[j] == k); }
            if k == c { assert(kinds@.take(i as int)[i - 1] == k); }
            if among(kinds@.take(i as int), k) { let j = choose|x: int| 0 <= x < i && #[trigger] kinds@.take(i as int)[x] == k; if j < i - 1 { assert(kinds@.take(i - 1)[j] == k); } }
        }
    }
//@at afterloop 0
    proof { reveal(TokenSet::has); assert(kinds@.take(i as int) =~= kinds@);
        assert forall|j: int| 0 <= j < kinds@.len() implies #[trigger] kinds@.contains(kinds@[j]) by { }
        assert forall|j: int| 0 <= j < kinds@.len() implies bit(res, #[trigger] kinds@[j]) by { assert(kinds@.contains(kinds@[j])); } }
//@endfn

// ---- conversions to and from numbers ----
/// std::mem::transmute::<u16, SyntaxKind> (TRUSTED: a fieldless repr(u16) enum with contiguous discriminants)
#[verifier::external_body]
fn vx_transmute(d: u16) -> (r: SyntaxKind) requires d <= SyntaxKind::__LAST as u16 ensures r as u16 == d { unimplemented!() }
//@fn sk::SyntaxKind::from ret=r rename=kind_from_u16
    requires d <= SyntaxKind::__LAST as u16,
    ensures r as u16 == d,
//@endfn
//@fn sk::u16::from ret=r rename=u16_from_kind free
    ensures r == k as u16,
//@endfn
/// P18: every kind survives the conversion to its number and back
fn round_trip(k: SyntaxKind) -> (r: SyntaxKind) ensures r == k
{ proof { num_bound(k); } SyntaxKind::kind_from_u16(u16_from_kind(k)) }

// ---- typed views ----
/// TRUSTED: rowan's nodes and tokens have a fixed kind
#[verifier::external_body]
pub struct SyntaxNode { n: usize }
impl SyntaxNode {
    pub uninterp spec fn kindv(&self) -> SyntaxKind;
    #[verifier::external_body]
    pub fn kind(&self) -> (r: SyntaxKind) ensures r == self.kindv() { unimplemented!() }
}
#[verifier::external_body]
pub struct SyntaxToken { n: usize }
impl SyntaxToken {
    pub uninterp spec fn kindv(&self) -> SyntaxKind;
    #[verifier::external_body]
    pub fn kind(&self) -> (r: SyntaxKind) ensures r == self.kindv() { unimplemented!() }
}
//@type nd::SourceFile derive=
//@fn nd::SourceFile::can_cast ret=r
    ensures r == (kind == SOURCE_FILE),
//@endfn
//@fn nd::SourceFile::cast ret=r
    ensures match r { Some(v) => syntax.kindv() == SOURCE_FILE && v.syntax == syntax, None => syntax.kindv() != SOURCE_FILE },
//@endfn
//@fn nd::SourceFile::syntax ret=r
    ensures *r == self.syntax,
//@endfn
//@type nd::ScriptDef derive=
//@fn nd::ScriptDef::can_cast ret=r
    ensures r == (kind == SCRIPT_DEF),
//@endfn
//@fn nd::ScriptDef::cast ret=r
    ensures match r { Some(v) => syntax.kindv() == SCRIPT_DEF && v.syntax == syntax, None => syntax.kindv() != SCRIPT_DEF },
//@endfn
//@fn nd::ScriptDef::syntax ret=r
    ensures *r == self.syntax,
//@endfn
//@type nd::FunctionDef derive=
//@fn nd::FunctionDef::can_cast ret=r
    ensures r == (kind == FUNCTION_DEF),
//@endfn
//@fn nd::FunctionDef::cast ret=r
    ensures match r { Some(v) => syntax.kindv() == FUNCTION_DEF && v.syntax == syntax, None => syntax.kindv() != FUNCTION_DEF },
//@endfn
//@fn nd::FunctionDef::syntax ret=r
    ensures *r == self.syntax,
//@endfn
//@type nd::ExprStmt derive=
//@fn nd::ExprStmt::can_cast ret=r
    ensures r == (kind == EXPR_STMT),
//@endfn
//@fn nd::ExprStmt::cast ret=r
    ensures match r { Some(v) => syntax.kindv() == EXPR_STMT && v.syntax == syntax, None => syntax.kindv() != EXPR_STMT },
//@endfn
//@fn nd::ExprStmt::syntax ret=r
    ensures *r == self.syntax,
//@endfn
//@type nd::BinExpr derive=
//@fn nd::BinExpr::can_cast ret=r
    ensures r == (kind == BIN_EXPR),
//@endfn
//@fn nd::BinExpr::cast ret=r
    ensures match r { Some(v) => syntax.kindv() == BIN_EXPR && v.syntax == syntax, None => syntax.kindv() != BIN_EXPR },
//@endfn
//@fn nd::BinExpr::syntax ret=r
    ensures *r == self.syntax,
//@endfn
//@type nd::Literal derive=
//@fn nd::Literal::can_cast ret=r
    ensures r == (kind == LITERAL),
//@endfn
//@fn nd::Literal::cast ret=r
    ensures match r { Some(v) => syntax.kindv() == LITERAL && v.syntax == syntax, None => syntax.kindv() != LITERAL },
//@endfn
//@fn nd::Literal::syntax ret=r
    ensures *r == self.syntax,
//@endfn
//@type tk::Whitespace derive=
//@fn tk::Whitespace::can_cast ret=r
    ensures r == (kind == WHITESPACE),
//@endfn
//@fn tk::Whitespace::cast ret=r
    ensures match r { Some(v) => syntax.kindv() == WHITESPACE && v.syntax == syntax, None => syntax.kindv() != WHITESPACE },
//@endfn
//@fn tk::Whitespace::syntax ret=r
    ensures *r == self.syntax,
//@endfn
//@type tk::Comment derive=
//@fn tk::Comment::can_cast ret=r
    ensures r == (kind == COMMENT),
//@endfn
//@fn tk::Comment::cast ret=r
    ensures match r { Some(v) => syntax.kindv() == COMMENT && v.syntax == syntax, None => syntax.kindv() != COMMENT },
//@endfn
//@fn tk::Comment::syntax ret=r
    ensures *r == self.syntax,
//@endfn
//@type tk::HexString derive=
//@fn tk::HexString::can_cast ret=r
    ensures r == (kind == HEX_STRING),
//@endfn
//@fn tk::HexString::cast ret=r
    ensures match r { Some(v) => syntax.kindv() == HEX_STRING && v.syntax == syntax, None => syntax.kindv() != HEX_STRING },
//@endfn
//@fn tk::HexString::syntax ret=r
    ensures *r == self.syntax,
//@endfn
//@type tk::ByteString derive=
//@fn tk::ByteString::can_cast ret=r
    ensures r == (kind == BYTE_STRING),
//@endfn
//@fn tk::ByteString::cast ret=r
    ensures match r { Some(v) => syntax.kindv() == BYTE_STRING && v.syntax == syntax, None => syntax.kindv() != BYTE_STRING },
//@endfn
//@fn tk::ByteString::syntax ret=r
    ensures *r == self.syntax,
//@endfn
//@type tk::IntegerNumber derive=
//@fn tk::IntegerNumber::can_cast ret=r
    ensures r == (kind == INTEGER_NUMBER),
//@endfn
//@fn tk::IntegerNumber::cast ret=r
    ensures match r { Some(v) => syntax.kindv() == INTEGER_NUMBER && v.syntax == syntax, None => syntax.kindv() != INTEGER_NUMBER },
//@endfn
//@fn tk::IntegerNumber::syntax ret=r
    ensures *r == self.syntax,
//@endfn
//@type nd::Expr derive=
//@fn nd::Expr::can_cast ret=r
    ensures r == (kind == BIN_EXPR || kind == LITERAL),
//@endfn
//@fn nd::Expr::cast ret=r
    ensures match r {
        Some(Expr::BinExpr(v)) => syntax.kindv() == BIN_EXPR && v.syntax == syntax,
        Some(Expr::Literal(v)) => syntax.kindv() == LITERAL && v.syntax == syntax,
        None => syntax.kindv() != BIN_EXPR && syntax.kindv() != LITERAL,
    },
//@endfn
}
fn main() {}
