//@include base.rs
//@include str.rs
//@include kinds.rs
//@include lexspec.rs
//@include textsize.rs
//@include lexapi.rs
//@include lexerstruct.rs
//@include streamapi.rs
//@include tokenset.rs
//@include evspec.rs
//@include shapes.rs
//@include parserspec.rs
//@include parserapi.rs
//@file gr crates/parser/src/grammar.rs
//@file gi crates/parser/src/grammar/items.rs
//@file gadt crates/parser/src/grammar/items/adt.rs
//@file gg crates/parser/src/grammar/generic_params.rs
//@file gpt crates/parser/src/grammar/patterns.rs
//@file gty crates/parser/src/grammar/types.rs
//@file gpa crates/parser/src/grammar/paths.rs
//@file gpr crates/parser/src/grammar/params.rs
//@file gex crates/parser/src/grammar/expressions.rs
//@file gat crates/parser/src/grammar/expressions/atom.rs
//@strip grammar items adt generic_params patterns types paths params expressions atom super
//@shim .starts_with -> vx_str_starts
//@subst has_rest |= p.at(T![..]) =>> has_rest = vx_or(has_rest, p.at(T![..]))
verus! {
fn vx_or(a: bool, b: bool) -> (r: bool) ensures r == (a || b) { a || b }
#[verifier::external_body]
fn vx_str_starts(s: &str, p: &str) -> bool { s.starts_with(p) }
/// a file's worth of state right after Parser::new has nothing pointing at a marker just made
proof fn never_pointed(a: Parser, b: Parser)
    requires a.core(), b.core(), kept(a.e(), b.e(), a.n()),
    ensures unpointed(b.e(), a.n()),
{
    reveal(Parser::core);
    let (e, f) = (a.e(), b.e());
    assert forall|i: int| 0 <= i < f.len() implies match #[trigger] fp_of(f[i]) { Some(d) => i + d != a.n(), None => true } by {
        if i < e.len() { assert(f[i] == e[i]); assert(fwd_at(e, i)); } else { assert(fwd_at(f, i)); }
    }
}
//@type gpa::Mode derive=Clone,Copy,PartialEq,Eq,Structural
//@type gex::StmtWithSemi derive=
//@const gi::TOP_LEVEL_ITEM_RECOVERY_SET fn
    ensures forall|k: SyntaxKind| #[trigger] r.has(k) ==> k == ADDRESS_KW || k == MODULE_KW || k == SCRIPT_KW,
//@endconst
//@const gi::ITEM_RECOVERY_SET fn
//@endconst
//@const gpa::PATH_FIRST fn
    ensures forall|k: SyntaxKind| #[trigger] r.has(k) ==> k == IDENT,
//@endconst
//@const gty::TYPE_FIRST fn
    ensures forall|k: SyntaxKind| #[trigger] r.has(k) ==> k == IDENT || k == AMP,
//@endconst
//@const gty::TYPE_RECOVERY_SET fn
//@endconst
//@const gpr::PARAM_FIRST fn
    ensures forall|k: SyntaxKind| #[trigger] r.has(k) ==> k == IDENT || k == AMP,
//@endconst
//@const gat::LITERAL_FIRST fn
    ensures forall|k: SyntaxKind| #[trigger] r.has(k) ==> k != EOF && starts_pat(k),
//@endconst
//@const gat::EXPR_STMT_RECOVERY fn
//@endconst
//@const gpt::PATTERN_FIRST fn
    ensures forall|k: SyntaxKind| #[trigger] r.has(k) ==> starts_pat(k),
//@endconst
//@const gpt::PAT_RECOVERY_SET fn
    ensures forall|k: SyntaxKind| #[trigger] r.has(k) ==> !starts_pat(k),
//@endconst
/// something was consumed, unless the expression was to start where none can
pub open spec fn moved(a: Parser, b: Parser) -> bool {
    b.rem() < a.rem() || b.k(0) == a.k(0) && (a.k(0) == SEMICOLON || a.k(0) == R_PAREN || a.k(0) == EOF)
}
/// kinds that `pattern` consumes whatever follows
pub open spec fn starts_pat(k: SyntaxKind) -> bool {
    k != L_BRACE && k != R_BRACE && k != EOF && k != LET_KW && k != IF_KW && k != WHILE_KW && k != R_PAREN && k != COMMA && k != EQ
}
//@fn pa::Parser::current_text ret=r
    requires self.core(),
//@at start
    proof { reveal(Parser::core); }
//@endfn
//@fn gr::name_r
    requires old(p).ok(), 
    ensures after(*old(p), *final(p)), if old(p).k(0) == IDENT || !stops(old(p).k(0), recovery) { final(p).rem() < old(p).rem() } else { old(p).same_input(*final(p)) },
//@locals m
//@endfn
//@fn gr::name
    requires old(p).ok(), 
    ensures after(*old(p), *final(p)), if stops(old(p).k(0), TokenSet::EMPTY) { old(p).same_input(*final(p)) } else { final(p).rem() < old(p).rem() },
//@at start
    proof { no_kinds(IDENT); }
//@endfn
//@fn gr::name_ref
    requires old(p).ok(), 
    ensures after(*old(p), *final(p)), if stops(old(p).k(0), TokenSet::EMPTY) { old(p).same_input(*final(p)) } else { final(p).rem() < old(p).rem() },
        old(p).k(0) == IDENT ==> final(p).k(0) == old(p).k(1),
//@locals m
//@at start
    proof { no_kinds(IDENT); }
//@endfn
//@fn gpa::is_path_start ret=r
    ensures r == (p.k(0) == IDENT),
//@endfn
//@fn gpa::path_segment
    requires old(p).ok(), 
    ensures after(*old(p), *final(p)), old(p).k(0) == IDENT ==> final(p).rem() < old(p).rem(),
//@locals m empty
//@at start
    proof { no_kinds(IDENT); }
//@at before_call abandon 0
    proof { never_pointed(*old(p), *p); }
//@endfn
//@fn gpa::path_for_qualifier
    requires old(p).ok(), done_at(*old(p), qual),
    ensures final(p).ok(), final(p).text() == old(p).text(), final(p).live() == old(p).live(), final(p).rem() <= old(p).rem(), held(*old(p), *final(p), qual.start_pos as int),
//@locals use_tree path
//@attr #[verifier::loop_isolation(false)]
//@loop 0
    invariant p.ok(), done_at(*p, qual), p.text() == old(p).text(), p.live() == old(p).live(), p.rem() <= old(p).rem(), held(*old(p), *p, vx_q), vx_q <= qual.start_pos,
    decreases p.rem(),
//@at start
    let ghost vx_q = qual.start_pos as int;
//@endfn
//@fn gpa::path
    requires old(p).ok(), 
    ensures after(*old(p), *final(p)), old(p).k(0) == IDENT ==> final(p).rem() < old(p).rem(),
//@locals path qual
//@endfn
//@fn gpa::type_path
    requires old(p).ok(), 
    ensures after(*old(p), *final(p)), old(p).k(0) == IDENT ==> final(p).rem() < old(p).rem(),
//@endfn
//@fn gpa::expr_path
    requires old(p).ok(), 
    ensures after(*old(p), *final(p)), old(p).k(0) == IDENT ==> final(p).rem() < old(p).rem(),
//@endfn
//@fn gty::path_type
    requires old(p).ok(), old(p).k(0) == IDENT,
    ensures after(*old(p), *final(p)), final(p).rem() < old(p).rem(),
//@endfn
//@fn gty::ref_type
    requires old(p).ok(), old(p).k(0) == AMP,
    ensures after(*old(p), *final(p)), final(p).rem() < old(p).rem(),
    decreases old(p).rem(), 1int
//@endfn
//@fn gty::type_
    requires old(p).ok(), 
    ensures after(*old(p), *final(p)), 
    decreases old(p).rem(), 2int
//@locals allow_bounds
//@endfn
//@fn gty::ascription
    requires old(p).ok(), old(p).k(0) == COLON,
    ensures after(*old(p), *final(p)), final(p).rem() < old(p).rem(),
//@endfn
//@fn gpr::param
    requires old(p).ok(), open_at(*old(p), m),
    ensures after_m(*old(p), *final(p), m.pos as int), !stops(old(p).k(0), TokenSet::EMPTY) ==> final(p).rem() < old(p).rem(),
//@endfn
//@fn gpr::param_list
    requires old(p).ok(), old(p).k(0) == L_PAREN,
    ensures after(*old(p), *final(p)), final(p).rem() < old(p).rem(),
//@locals list_marker param_marker m param
//@attr #[verifier::loop_isolation(false)]
//@loop 0
    invariant p.ok(), held(*old(p), *p, old(p).n()), p.text() == old(p).text(), p.live() == old(p).live() + 1, open_at(*p, list_marker), list_marker.pos == old(p).n(), param_marker is None, p.rem() < old(p).rem(),
    decreases p.rem(),
//@at loopstart 0
    let ghost vx_s = *p;
    proof { no_kinds(p.k(0)); }
//@at before_call abandon 0
    proof { never_pointed(vx_s, *p); }
//@endfn
//@fn gg::type_bound ret=r
    requires old(p).ok(),
    ensures after(*old(p), *final(p)), r ==> final(p).rem() < old(p).rem(),
//@at before_call abandon 0
    proof { never_pointed(*old(p), *p); }
//@at start
    proof { no_kinds(IDENT); }
//@endfn
//@fn gg::bounds_without_colon_m ret=r
    requires old(p).ok(), open_at(*old(p), marker),
    ensures after_m(*old(p), *final(p), marker.pos as int),
//@attr #[verifier::loop_isolation(false)]
//@loop 0
    invariant p.ok(), held(*old(p), *p, old(p).n()), p.text() == old(p).text(), p.live() == old(p).live(), p.rem() <= old(p).rem(),
    decreases p.rem(),
//@endfn
//@fn gg::bounds_without_colon
    requires old(p).ok(), 
    ensures after(*old(p), *final(p)), 
//@endfn
//@fn gg::bounds
    requires old(p).ok(), old(p).k(0) == COLON,
    ensures after(*old(p), *final(p)), final(p).rem() < old(p).rem(),
//@endfn
//@fn gg::type_param
    requires old(p).ok(), open_at(*old(p), m), old(p).k(0) == IDENT,
    ensures after_m(*old(p), *final(p), m.pos as int), final(p).rem() < old(p).rem(),
//@at start
    proof { no_kinds(IDENT); }
//@endfn
//@fn gg::generic_param
    requires old(p).ok(), 
    ensures after(*old(p), *final(p)), if old(p).k(0) == L_BRACE || old(p).k(0) == R_BRACE || old(p).k(0) == EOF { old(p).same_input(*final(p)) } else { final(p).rem() < old(p).rem() },
//@at before_call abandon 0
    proof { never_pointed(*old(p), *p); no_kinds(p.k(0)); }
//@endfn
//@fn gg::generic_param_list
    requires old(p).ok(), old(p).k(0) == LT,
    ensures after(*old(p), *final(p)), final(p).rem() < old(p).rem(),
//@attr #[verifier::loop_isolation(false)]
//@loop 0
    invariant p.ok(), held(*old(p), *p, old(p).n()), p.text() == old(p).text(), p.live() == old(p).live() + 1, open_at(*p, m), m.pos == old(p).n(), p.rem() < old(p).rem(),
    decreases p.rem(),
//@endfn
//@fn gg::opt_generic_param_list
    requires old(p).ok(), 
    ensures after(*old(p), *final(p)), 
//@endfn
//@fn gpt::ident_pat
    requires old(p).ok(), 
    ensures after(*old(p), *final(p)), !stops(old(p).k(0), TokenSet::EMPTY) ==> final(p).rem() < old(p).rem(),
//@at start
    proof { no_kinds(p.k(0)); }
//@endfn
//@fn gpt::wildcard_pat
    requires old(p).ok(), old(p).k(0) == WILDCARD,
    ensures after(*old(p), *final(p)), final(p).rem() < old(p).rem(),
//@endfn
//@fn gpt::rest_pat
    requires old(p).ok(), old(p).k(0) == DOTDOT,
    ensures after(*old(p), *final(p)), final(p).rem() < old(p).rem(),
//@endfn
//@fn gpt::record_pat_field_list
    requires old(p).ok(), old(p).k(0) == L_BRACE,
    ensures after(*old(p), *final(p)), final(p).rem() < old(p).rem(),
    decreases old(p).rem(), 1int
//@locals m
//@attr #[verifier::loop_isolation(false)]
//@loop 0
    invariant p.ok(), held(*old(p), *p, old(p).n()), p.text() == old(p).text(), p.live() == old(p).live() + 1, open_at(*p, m), m.pos == old(p).n(), p.rem() < old(p).rem(),
    decreases p.rem(),
//@at loopstart 0
    proof { no_kinds(p.k(0)); }
//@endfn
//@fn gpt::path_pat
    requires old(p).ok(), old(p).k(0) == IDENT,
    ensures after(*old(p), *final(p)), final(p).rem() < old(p).rem(),
    decreases old(p).rem(), 9int
//@endfn
//@fn gpt::tuple_pat
    requires old(p).ok(), old(p).k(0) == L_PAREN,
    ensures after(*old(p), *final(p)), final(p).rem() < old(p).rem(),
    decreases old(p).rem(), 9int
//@locals m has_comma has_pat has_rest
//@attr #[verifier::loop_isolation(false)]
//@loop 0
    invariant p.ok(), held(*old(p), *p, old(p).n()), p.text() == old(p).text(), p.live() == old(p).live() + 1, open_at(*p, m), m.pos == old(p).n(), p.rem() < old(p).rem(),
    decreases p.rem(),
//@endfn
//@fn gpt::pattern
    requires old(p).ok(), 
    ensures after(*old(p), *final(p)), starts_pat(old(p).k(0)) ==> final(p).rem() < old(p).rem(),
    decreases old(p).rem(), 10int
//@at start
    proof { no_kinds(p.k(0)); }
//@endfn
//@fn gr::error_block
    requires old(p).ok(), old(p).k(0) == L_BRACE,
    ensures after(*old(p), *final(p)), final(p).rem() < old(p).rem(),
    decreases old(p).rem(), 1int
//@endfn
//@fn gex::expr_block_contents
    requires old(p).ok(), 
    ensures after(*old(p), *final(p)), 
    decreases old(p).rem(), 20int
//@attr #[verifier::loop_isolation(false)]
//@loop 0
    invariant p.ok(), held(*old(p), *p, old(p).n()), p.text() == old(p).text(), p.live() == old(p).live(), p.rem() <= old(p).rem(),
    decreases p.rem(),
//@endfn
//@fn gr::block_contents
    requires old(p).ok(), 
    ensures after(*old(p), *final(p)), 
    decreases old(p).rem(), 20int
//@attr #[verifier::loop_isolation(false)]
//@loop 0
    invariant p.ok(), held(*old(p), *p, old(p).n()), p.text() == old(p).text(), p.live() == old(p).live(), p.rem() <= old(p).rem(),
    decreases p.rem(),
//@endfn
//@fn gex::stmt
    requires old(p).ok(), 
    ensures after(*old(p), *final(p)), old(p).k(0) != EOF && (old(p).k(0) != SEMICOLON || with_semi is Optional) ==> final(p).rem() < old(p).rem(),
    decreases old(p).rem(), 19int
//@locals m
//@at start
    proof { no_kinds(p.k(0)); }
//@endfn
//@fn gex::let_stmt
    requires old(p).ok(), open_at(*old(p), m), old(p).k(0) == LET_KW,
    ensures after_m(*old(p), *final(p), m.pos as int), final(p).rem() < old(p).rem(),
    decreases old(p).rem(), 18int
//@endfn
//@fn gex::current_op ret=r
    ensures grouping() ==> r.0 == prec(p.k(0)), r.0 > 0 ==> r.1 == p.k(0) && r.1 != EOF, r.0 < 200,
//@endfn
//@fn gex::expr ret=r
    requires old(p).ok(), 
    ensures r is Some, after(*old(p), *final(p)), done_at(*final(p), r->0), final(p).e().last() is Finish,
        grouping() ==> exists|sh: Shape| #[trigger] seg(final(p).e(), old(p).n(), final(p).n(), sh) && root_of(sh) == (r->0).start_pos && fp_of(final(p).e()[root_of(sh)]) is None && grouped(sh, 1),
        moved(*old(p), *final(p)),
        grouping() ==> prec(final(p).k(0)) == 0 && munched(final(p).k(0)),
    decreases old(p).rem(), 17int
//@endfn
//@fn gex::expr_bp ret=r
    requires old(p).ok(), 1 <= bp,
    ensures r is Some, (r->0).start_pos >= old(p).n(), after(*old(p), *final(p)), done_at(*final(p), r->0), final(p).e().last() is Finish,
        grouping() ==> exists|sh: Shape| #[trigger] seg(final(p).e(), old(p).n(), final(p).n(), sh) && root_of(sh) == (r->0).start_pos && fp_of(final(p).e()[root_of(sh)]) is None && grouped(sh, bp as int),
        moved(*old(p), *final(p)),
        grouping() ==> prec(final(p).k(0)) < bp && munched(final(p).k(0)),
    decreases old(p).rem(), 16int
//@locals lhs op_bp op m
//@at start
    hide(seg);
//@attr #[verifier::loop_isolation(false)]
//@loop 0
    invariant
        p.ok(), held(*old(p), *p, old(p).n()), p.text() == old(p).text(), p.live() == old(p).live(), p.rem() <= old(p).rem(), done_at(*p, lhs), lhs.start_pos >= old(p).n(), p.e().last() is Finish,
        grouping() ==> seg(p.e(), old(p).n(), p.n(), vx_sh) && root_of(vx_sh) == lhs.start_pos && grouped(vx_sh, bp as int),
        grouping() ==> (vx_sh matches Shape::Bin(_, o, _, _) ==> prec(p.k(0)) <= prec(o)),
        grouping() ==> munched(p.k(0)),
        moved(*old(p), *p),
    decreases p.rem(),
//@at after_call lhs 0
    let ghost mut vx_sh = choose|sh: Shape| #[trigger] seg(p.e(), old(p).n(), p.n(), sh) && root_of(sh) == lhs.start_pos && !(sh is Bin) && grouped(sh, 12);
//@at before_call precede 0
    let ghost vx_p0 = *p;
    let ghost vx_l0 = lhs;
    proof { if grouping() { grouped_at(vx_sh, bp as int, op_bp as int); } }
//@at before_call expr_bp 0
    let ghost vx_p1 = *p;
//@at after_call expr_bp 0
    let ghost vx_p2 = *p;
    let ghost vx_r = choose|sh: Shape| #[trigger] seg(p.e(), vx_p1.n(), p.n(), sh) && grouped(sh, op_bp + 1) && fp_of(p.e()[root_of(sh)]) is None;
//@at before_call complete 0
    // from here on only the operation itself can be given a parent
    p.steps.iced = Ghost(if grouping() { p.iced().union(ISet::new(|j: int| old(p).n() <= j < vx_p2.n() && j != m.pos)) } else { p.iced() });
    proof {
        froze(vx_p2, *p, old(p).n(), vx_p2.n(), m.pos as int);
        if grouping() {
        let f = p.e().update(m.pos as int, Event::Start { kind: BIN_EXPR, forward_parent: None }).push(Event::Finish);
        seg_bin(vx_p0.e(), vx_p2.e(), f, old(p).n(), vx_p0.n(), vx_sh, op, vx_r);
        shut_at(*old(p), *p); binds_at(*p, old(p).n(), m.pos as int, BIN_EXPR, Shape::Bin(m.pos as int, op, Box::new(vx_sh), Box::new(vx_r)));
        }
    }
//@at after_call complete 0
    proof {
        vx_sh = Shape::Bin(lhs.start_pos as int, op, Box::new(vx_sh), Box::new(vx_r));
    }
//@at end
    proof { if grouping() { assert(seg(p.e(), old(p).n(), p.n(), vx_sh)); } }
//@endfn
//@fn gex::lhs ret=r
    requires old(p).ok(), 
    ensures r is Some, (r->0).start_pos >= old(p).n(), after(*old(p), *final(p)), done_at(*final(p), r->0), final(p).e().last() is Finish,
        grouping() ==> exists|sh: Shape| #[trigger] seg(final(p).e(), old(p).n(), final(p).n(), sh) && root_of(sh) == (r->0).start_pos && fp_of(final(p).e()[root_of(sh)]) is None && !(sh is Bin) && grouped(sh, 12),
        moved(*old(p), *final(p)),
        grouping() ==> munched(final(p).k(0)),
    decreases old(p).rem(), 15int
//@locals m kind lhs
//@at start
    hide(seg);
//@at before_call postfix_expr 0
    let ghost vx_a = *p;
    proof { if grouping() { made_inner(*old(p), *p, old(p).n()); seg_leaf(p.e(), old(p).n()); } }
    p.steps.base = Ghost(old(p).n());
    proof { froze(vx_a, *p, 0, 0, 0); if grouping() { shut_at(*old(p), *p); assert(seg(p.e(), p.base(), p.n(), Shape::Leaf(lhs.start_pos as int))); assert(callee(*p, lhs)); } }
//@at before_call expr_bp 0
    let ghost vx_p1 = *p;
//@at after_call expr_bp 0
    let ghost vx_p2 = *p;
    let ghost vx_r = choose|sh: Shape| #[trigger] seg(p.e(), vx_p1.n(), p.n(), sh) && grouped(sh, 255) && fp_of(p.e()[root_of(sh)]) is None;
//@at before_call complete 0
    p.steps.iced = Ghost(if grouping() { p.iced().union(ISet::new(|j: int| old(p).n() <= j < vx_p2.n() && j != m.pos)) } else { p.iced() });
    proof {
        froze(vx_p2, *p, old(p).n(), vx_p2.n(), m.pos as int);
        if grouping() {
        let f = p.e().update(m.pos as int, Event::Start { kind: PREFIX_EXPR, forward_parent: None }).push(Event::Finish);
        seg_pre(vx_p2.e(), f, old(p).n(), vx_r);
        assert(!(vx_r is Bin)); grouped_at(vx_r, 255, 12);
        shut_at(*old(p), *p); binds_at(*p, old(p).n(), m.pos as int, PREFIX_EXPR, Shape::Pre(m.pos as int, Box::new(vx_r)));
        }
    }
//@endfn
//@fn gex::call_expr ret=r bindtail
    requires old(p).ok(), done_at(*old(p), lhs), old(p).k(0) == L_PAREN, callee(*old(p), lhs),
    ensures
        final(p).ok(), final(p).text() == old(p).text(), final(p).live() == old(p).live(), held(*old(p), *final(p), old(p).base()),
        done_at(*final(p), r), final(p).e().last() is Finish, final(p).base() == old(p).base(), callee(*final(p), r),
        final(p).rem() < old(p).rem(),
    decreases old(p).rem(), 13int
//@at start
    hide(seg);
    let ghost vx_sh = choose|sh: Shape| #[trigger] seg(p.e(), p.base(), p.n(), sh) && root_of(sh) == lhs.start_pos && tight(sh);
    proof { if grouping() { seg_root(p.e(), p.base(), p.n(), vx_sh); } }
//@at before_call complete 0
    let ghost vx_q = *p;
    p.steps.iced = Ghost(if grouping() { p.iced().union(ISet::new(|j: int| old(p).base() <= j < vx_q.n() && j != m.pos)) } else { p.iced() });
    p.steps.base = Ghost(old(p).base());
    proof {
        froze(vx_q, *p, old(p).base(), vx_q.n(), m.pos as int);
        if grouping() {
        let f = p.e().update(m.pos as int, Event::Start { kind: CALL_EXPR, forward_parent: None }).push(Event::Finish);
        around(*old(p), *p, m.pos as int, lhs.start_pos as int, CALL_EXPR);
        seg_post(old(p).e(), f, m.pos as int, old(p).base(), vx_sh);
        shut_same(old(p).e(), p.e(), old(p).base()); shut_same(old(p).e(), f, old(p).base());
        binds_at(*p, old(p).base(), m.pos as int, CALL_EXPR, Shape::Post(m.pos as int, Box::new(vx_sh)));
        }
    }
//@at after_call complete 0
    proof { if grouping() { assert(tight(Shape::Post(m.pos as int, Box::new(vx_sh)))); } }
//@endfn
//@fn gex::field_expr ret=r bindtail
    requires old(p).ok(), done_at(*old(p), lhs), old(p).k(0) == DOT, callee(*old(p), lhs),
    ensures
        final(p).ok(), final(p).text() == old(p).text(), final(p).live() == old(p).live(), held(*old(p), *final(p), old(p).base()),
        done_at(*final(p), r), final(p).e().last() is Finish, final(p).base() == old(p).base(), callee(*final(p), r),
        final(p).rem() < old(p).rem(),
//@at start
    hide(seg);
    let ghost vx_sh = choose|sh: Shape| #[trigger] seg(p.e(), p.base(), p.n(), sh) && root_of(sh) == lhs.start_pos && tight(sh);
    proof { if grouping() { seg_root(p.e(), p.base(), p.n(), vx_sh); } }
//@at before_call complete 0
    let ghost vx_q = *p;
    p.steps.iced = Ghost(if grouping() { p.iced().union(ISet::new(|j: int| old(p).base() <= j < vx_q.n() && j != m.pos)) } else { p.iced() });
    p.steps.base = Ghost(old(p).base());
    proof {
        froze(vx_q, *p, old(p).base(), vx_q.n(), m.pos as int);
        if grouping() {
        let f = p.e().update(m.pos as int, Event::Start { kind: DOT_EXPR, forward_parent: None }).push(Event::Finish);
        around(*old(p), *p, m.pos as int, lhs.start_pos as int, DOT_EXPR);
        seg_post(old(p).e(), f, m.pos as int, old(p).base(), vx_sh);
        shut_same(old(p).e(), p.e(), old(p).base()); shut_same(old(p).e(), f, old(p).base());
        binds_at(*p, old(p).base(), m.pos as int, DOT_EXPR, Shape::Post(m.pos as int, Box::new(vx_sh)));
        }
    }
//@at after_call complete 0
    proof { if grouping() { assert(tight(Shape::Post(m.pos as int, Box::new(vx_sh)))); } }
//@endfn
//@fn gex::postfix_expr ret=r
    requires old(p).ok(), done_at(*old(p), lhs), old(p).e().last() is Finish, callee(*old(p), lhs),
    ensures
        final(p).ok(), final(p).text() == old(p).text(), final(p).live() == old(p).live(), final(p).rem() <= old(p).rem(), held(*old(p), *final(p), old(p).base()),
        done_at(*final(p), r), final(p).e().last() is Finish, final(p).base() == old(p).base(), callee(*final(p), r),
        final(p).rem() < old(p).rem() || *final(p) == *old(p),
        grouping() ==> munched(final(p).k(0)),
    decreases old(p).rem(), 14int
//@attr #[verifier::loop_isolation(false)]
//@loop 0
    invariant
        p.ok(), p.text() == old(p).text(), p.live() == old(p).live(), p.rem() <= old(p).rem(), held(*old(p), *p, old(p).base()),
        done_at(*p, lhs), p.e().last() is Finish, p.base() == old(p).base(), callee(*p, lhs), p.rem() < old(p).rem() || *p == *old(p),
    decreases p.rem(),
//@endfn
//@fn gex::arg_list
    requires old(p).ok(), old(p).k(0) == L_PAREN,
    ensures after(*old(p), *final(p)), final(p).rem() < old(p).rem(),
    decreases old(p).rem(), 12int
//@attr #[verifier::loop_isolation(false)]
//@loop 0
    invariant p.ok(), held(*old(p), *p, old(p).n()), p.text() == old(p).text(), p.live() == old(p).live() + 1, open_at(*p, m), m.pos == old(p).n(), p.rem() < old(p).rem(),
    decreases p.rem(),
//@endfn
//@fn gex::record_expr_field_list
    requires old(p).ok(), old(p).k(0) == L_BRACE,
    ensures after(*old(p), *final(p)), final(p).rem() < old(p).rem(),
    decreases old(p).rem(), 1int
//@locals m
//@attr #[verifier::loop_isolation(false)]
//@loop 0
    invariant p.ok(), held(*old(p), *p, old(p).n()), p.text() == old(p).text(), p.live() == old(p).live() + 1, open_at(*p, m), m.pos == old(p).n(), p.rem() < old(p).rem(),
    decreases p.rem(),
//@at loopstart 0
    let ghost vx_s = *p;
    proof { no_kinds(p.k(0)); }
//@at before_call abandon 0
    proof { never_pointed(vx_s, *p); }
//@at before_call abandon 1
    proof { never_pointed(vx_s, *p); }
//@endfn
//@fn gat::bump_address ret=r
    requires old(p).ok(),
    ensures
        r ==> (old(p).k(0) == IDENT || old(p).k(0) == INTEGER_NUMBER) && (took(*old(p), *final(p), IDENT) || took(*old(p), *final(p), DIEM_ADDRESS)),
        !r ==> *final(p) == *old(p),
//@endfn
//@fn gat::address_lit ret=r
    requires old(p).ok(), old(p).k(0) == ATSIGN,
    ensures made(*old(p), *final(p), r), atom(r.kind), final(p).rem() < old(p).rem(),
//@endfn
//@fn gat::literal ret=r
    requires old(p).ok(), 
    ensures r matches Some(m) ==> made(*old(p), *final(p), m) && atom(m.kind) && final(p).rem() < old(p).rem(), r is None ==> *final(p) == *old(p),
//@endfn
//@fn gat::atom_expr ret=r
    requires old(p).ok(), 
    ensures r is Some, made(*old(p), *final(p), r->0), atom((r->0).kind), moved(*old(p), *final(p)),
    decreases old(p).rem(), 14int
//@endfn
//@fn gat::path_expr ret=r
    requires old(p).ok(), old(p).k(0) == IDENT,
    ensures made(*old(p), *final(p), r), atom(r.kind), final(p).rem() < old(p).rem(),
    decreases old(p).rem(), 13int
//@endfn
//@fn gat::paren_expr ret=r
    requires old(p).ok(), old(p).k(0) == L_PAREN,
    ensures made(*old(p), *final(p), r), atom(r.kind), final(p).rem() < old(p).rem(),
    decreases old(p).rem(), 13int
//@locals m expr
//@attr #[verifier::loop_isolation(false)]
//@loop 0
    invariant p.ok(), held(*old(p), *p, old(p).n()), p.text() == old(p).text(), p.live() == old(p).live() + 1, open_at(*p, m), m.pos == old(p).n(), p.rem() < old(p).rem(),
    decreases p.rem(),
//@endfn
//@fn gr::block_expr_unchecked ret=r
    requires old(p).ok(), old(p).k(0) == L_BRACE,
    ensures made(*old(p), *final(p), r), atom(r.kind), final(p).rem() < old(p).rem(),
    decreases old(p).rem(), 13int
//@endfn
//@fn gr::block_expr
    requires old(p).ok(), 
    ensures after(*old(p), *final(p)), 
//@endfn
//@fn gi::address_ident_r
    requires old(p).ok(), 
    ensures after(*old(p), *final(p)), old(p).k(0) != EOF && recovery_tokens.has(old(p).k(1)) ==> recovery_tokens.has(final(p).k(0)),
//@endfn
//@fn gi::opt_ret_type ret=r
    requires old(p).ok(), 
    ensures after(*old(p), *final(p)), 
//@endfn
//@fn gi::function_def
    requires old(p).ok(), open_at(*old(p), m), old(p).k(0) == FUN_KW,
    ensures after_m(*old(p), *final(p), m.pos as int), final(p).rem() < old(p).rem(),
//@endfn
//@fn gadt::record_field_list::record_field
    requires old(p).ok(),
    ensures after(*old(p), *final(p)), !stops(old(p).k(0), TokenSet::EMPTY) ==> final(p).rem() < old(p).rem(),
//@at start
    proof { no_kinds(p.k(0)); no_kinds(IDENT); }
//@at before_call abandon 0
    proof { never_pointed(*old(p), *p); }
//@endfn
//@fn gadt::record_field_list
    requires old(p).ok(), old(p).k(0) == L_BRACE,
    ensures after(*old(p), *final(p)), final(p).rem() < old(p).rem(),
//@attr #[verifier::loop_isolation(false)]
//@loop 0
    invariant p.ok(), held(*old(p), *p, old(p).n()), p.text() == old(p).text(), p.live() == old(p).live() + 1, open_at(*p, m), m.pos == old(p).n(), p.rem() < old(p).rem(),
    decreases p.rem(),
//@at loopstart 0
    proof { no_kinds(p.k(0)); }
//@endfn
//@fn gadt::struct_
    requires old(p).ok(), open_at(*old(p), m), old(p).k(0) == STRUCT_KW,
    ensures after_m(*old(p), *final(p), m.pos as int), final(p).rem() < old(p).rem(),
//@endfn
//@fn gi::opt_item ret=r
    requires old(p).ok(), open_at(*old(p), m),
    ensures
        r is Ok ==> after_m(*old(p), *final(p), m.pos as int) && final(p).rem() < old(p).rem(),
        r matches Err(x) ==> x == m && *final(p) == *old(p),
//@endfn
//@fn gi::item
    requires old(p).ok(), 
    ensures after(*old(p), *final(p)), old(p).k(0) != EOF && old(p).k(0) != R_BRACE ==> final(p).rem() < old(p).rem(),
//@at before_call abandon 0
    proof { never_pointed(*old(p), *p); no_kinds(p.k(0)); }
//@endfn
//@fn gi::item_list
    requires old(p).ok(), old(p).k(0) == L_BRACE,
    ensures after(*old(p), *final(p)), final(p).rem() < old(p).rem(),
//@attr #[verifier::loop_isolation(false)]
//@loop 0
    invariant p.ok(), held(*old(p), *p, old(p).n()), p.text() == old(p).text(), p.live() == old(p).live() + 1, open_at(*p, m), m.pos == old(p).n(), p.rem() < old(p).rem(),
    decreases p.rem(),
//@endfn
//@fn gi::address_item_list
    requires old(p).ok(), old(p).k(0) == L_BRACE,
    ensures after(*old(p), *final(p)), final(p).rem() < old(p).rem(),
//@attr #[verifier::loop_isolation(false)]
//@loop 0
    invariant p.ok(), held(*old(p), *p, old(p).n()), p.text() == old(p).text(), p.live() == old(p).live() + 1, open_at(*p, m), m.pos == old(p).n(), p.rem() < old(p).rem(),
    decreases p.rem(),
//@endfn
//@fn gi::module
    requires old(p).ok(), old(p).k(0) == MODULE_KW,
    ensures after(*old(p), *final(p)), final(p).rem() < old(p).rem(),
//@endfn
//@fn gi::script
    requires old(p).ok(), old(p).k(0) == SCRIPT_KW,
    ensures after(*old(p), *final(p)), final(p).rem() < old(p).rem(),
//@endfn
//@fn gi::address
    requires old(p).ok(), old(p).k(0) == ADDRESS_KW,
    ensures after(*old(p), *final(p)), final(p).rem() < old(p).rem(),
//@endfn
//@fn gr::root
    requires old(p).core(), old(p).n() == 0, old(p).live() == 0,
    ensures whole(final(p).e(), final(p).lexer.all_tokens@), final(p).text() == old(p).text(), final(p).live() == 0, final(p).core(), final(p).k(0) == EOF,
//@attr #[verifier::loop_isolation(false)]
//@loop 0
    invariant p.core(), p.n() >= 1, p.e()[0] == tomb(), p.text() == old(p).text(), p.live() == 1, m.pos == 0, !p.iced().contains(0),
    decreases p.rem(),
//@at end
    proof { reveal(Parser::core); reveal(Parser::k); }
//@endfn

/// what is called or accessed: it stands at the end of the events, from `base` on, and binds tightly
pub open spec fn callee(p: Parser, lhs: CompletedMarker) -> bool {
    0 <= p.base() <= lhs.start_pos && (grouping() ==> shut(p.e(), p.base()) && exists|sh: Shape| #[trigger] seg(p.e(), p.base(), p.n(), sh) && root_of(sh) == lhs.start_pos && tight(sh))
}
/// a call or field access made around a finished expression
proof fn seg_post(e: Seq<Event>, f: Seq<Event>, s: int, a: int, sh: Shape)
    requires
        s == e.len(), s + 1 < f.len(), f.last() is Finish, is_start(f[s]), kind_of(f[s]) == CALL_EXPR || kind_of(f[s]) == DOT_EXPR, inner(f, s + 1, f.len() - 1),
        seg(e, a, s, sh), kept_but(e, f, s, root_of(sh)), parent_at(f, root_of(sh), s),
    ensures seg(f, a, f.len() as int, Shape::Post(s, Box::new(sh))),
{ seg_root(e, a, s, sh); seg_stable(e, f, a, s, sh); }
/// the inside of a node about to be completed
proof fn around(a: Parser, p: Parser, s: int, l: int, kind: SyntaxKind)
    requires a.core(), p.core(), s == a.n(), kept_but(a.e(), p.e(), s, l), 0 <= l < s, is_start(a.e()[l]), s < p.n(), p.e()[s] == tomb(),
    ensures inner(p.e().update(s, Event::Start { kind, forward_parent: None }).push(Event::Finish), s + 1, p.n()),
{
    reveal(Parser::core);
    let e = p.e();
    depth_but(a.e(), e, s, l, s);
    assert(depth(e, s + 1) == 0);
    assert forall|j: int| s + 1 <= j < p.n() implies match #[trigger] fp_of(e[j]) { Some(d) => d >= 1 && j + d < p.n() && is_start(e[j + d]), None => true } by { assert(fwd_at(e, j)); }
    assert forall|j: int| s + 1 <= j <= p.n() implies #[trigger] nest(e, s + 1, j) >= 0 by { nest_depth(e, s + 1, j); assert(depth(e, j) >= 0); }
    nest_depth(e, s + 1, p.n());
    inner_same(e, e.update(s, Event::Start { kind, forward_parent: None }).push(Event::Finish), s + 1, p.n());
}
proof fn shut_at(a: Parser, p: Parser)
    requires a.core(), kept(a.e(), p.e(), a.n()),
    ensures shut(p.e(), a.n()),
{
    reveal(Parser::core);
    assert forall|j: int| 0 <= j < a.n() implies match #[trigger] fp_of(p.e()[j]) { Some(d) => j + d < a.n(), None => true } by { assert(p.e()[j] == a.e()[j]); assert(fwd_at(a.e(), j)); }
}
proof fn shut_same(e: Seq<Event>, f: Seq<Event>, a: int)
    requires shut(e, a), kept(e, f, a),
    ensures shut(f, a),
{ assert forall|j: int| 0 <= j < a implies match #[trigger] fp_of(f[j]) { Some(d) => j + d < a, None => true } by { assert(f[j] == e[j]); assert(fp_of(e[j]) == fp_of(f[j])); } }
/// an operation made around two finished operands; e: when the left one was finished, g: when the right one was
proof fn seg_bin(e: Seq<Event>, g: Seq<Event>, f: Seq<Event>, a: int, s: int, l: Shape, op: SyntaxKind, r: Shape)
    requires
        s == e.len(), seg(e, a, s, l), seg(g, s + 2, g.len() as int, r), kept_but(e, g, s, root_of(l)), parent_at(g, root_of(l), s),
        g[s + 1] == (Event::Token { kind: op, n_raw_tokens: 1 }), prec(op) >= 1, fp_of(g[root_of(r)]) is None,
        f == g.update(s, Event::Start { kind: BIN_EXPR, forward_parent: None }).push(Event::Finish),
    ensures seg(f, a, f.len() as int, Shape::Bin(s, op, Box::new(l), Box::new(r))), is_start(f[s]), fp_of(f[s]) is None,
{
    seg_root(e, a, s, l); seg_root(g, s + 2, g.len() as int, r);
    seg_stable(e, g, a, s, l);
    seg_stable(g, f, a, s, l); seg_stable(g, f, s + 2, g.len() as int, r);
}
/// fewer events can be changed
proof fn froze(p: Parser, q: Parser, a: int, b: int, pos: int)
    requires
        p.ok(), q.events == p.events, q.lexer == p.lexer, q.steps.fresh == p.steps.fresh, 0 <= a, b <= p.n(),
        q.iced() == p.iced().union(ISet::new(|j: int| a <= j < b && j != pos)) || q.iced() == p.iced(),
    ensures q.ok(), q.k(0) == p.k(0), q.k(1) == p.k(1), q.rem() == p.rem(),
{
    reveal(Parser::core); reveal(Parser::k); reveal(Parser::rem);
    if grouping() { sealed_step(p.e(), q.e(), p.iced(), q.iced(), -1); }
}
/// the operation about to be completed is one, and nothing within it can change
proof fn binds_at(p: Parser, a: int, pos: int, kind: SyntaxKind, sh: Shape)
    requires
        0 <= a <= pos < p.n(), shut(p.e(), a), !(sh is Leaf), root_of(sh) == pos, grouped(sh, 1),
        seg(p.e().update(pos, Event::Start { kind, forward_parent: None }).push(Event::Finish), a, p.n() + 1, sh),
        forall|j: int| a <= j < p.n() && j != pos ==> #[trigger] p.iced().contains(j),
    ensures binds(p, pos, kind),
{
    let f = p.e().update(pos, Event::Start { kind, forward_parent: None }).push(Event::Finish);
    assert forall|j: int| 0 <= j < a implies match #[trigger] fp_of(f[j]) { Some(d) => j + d < a || p.n() + 1 <= j + d, None => true } by { assert(f[j] == p.e()[j]); assert(fp_of(p.e()[j]) == fp_of(f[j])); }
    assert(sealed(f, p.iced(), a, p.n() + 1, sh));
}
/// a prefix operation made around a finished operand
proof fn seg_pre(g: Seq<Event>, f: Seq<Event>, s: int, r: Shape)
    requires
        0 <= s, seg(g, s + 2, g.len() as int, r), g[s + 1] is Token, prefix_op(kind_of(g[s + 1])), fp_of(g[root_of(r)]) is None,
        f == g.update(s, Event::Start { kind: PREFIX_EXPR, forward_parent: None }).push(Event::Finish),
    ensures seg(f, s, f.len() as int, Shape::Pre(s, Box::new(r))),
{
    seg_root(g, s + 2, g.len() as int, r);
    seg_stable(g, f, s + 2, g.len() as int, r);
}
/// an expression without operators
proof fn seg_leaf(f: Seq<Event>, s: int)
    requires 0 <= s, s + 1 < f.len(), f.last() is Finish, is_start(f[s]), atom(kind_of(f[s])), inner(f, s + 1, f.len() - 1),
    ensures seg(f, s, f.len() as int, Shape::Leaf(s)), tight(Shape::Leaf(s)),
{ }
/// what a node just completed contains is its inside
proof fn made_inner(a: Parser, b: Parser, s: int)
    requires a.core(), b.core(), s == a.n(), kept(a.e(), b.e(), s), s + 1 < b.n(), node(b.e()[s]), b.e().last() is Finish, inside(b.e(), s),
    ensures inner(b.e(), s + 1, b.n() - 1),
{ around_inner(a, b, s, -1); }
proof fn around_inner(a: Parser, b: Parser, s: int, l: int)
    requires a.core(), b.core(), s == a.n(), kept_but(a.e(), b.e(), s, l), 0 <= l < s ==> is_start(a.e()[l]), s + 1 < b.n(), node(b.e()[s]), b.e().last() is Finish, inside(b.e(), s),
    ensures inner(b.e(), s + 1, b.n() - 1),
{
    reveal(Parser::core);
    depth_but(a.e(), b.e(), s, l, s);
    inner_now(b.e(), s);
}
proof fn depth_but(a: Seq<Event>, b: Seq<Event>, n: int, l: int, i: int)
    requires kept_but(a, b, n, l), 0 <= i <= n <= a.len(), 0 <= l < n ==> is_start(a[l]),
    ensures depth(a, i) == depth(b, i),
    decreases i,
{ if i > 0 { if i - 1 != l { assert(b[i - 1] == a[i - 1]); } depth_but(a, b, n, l, i - 1); } }
/// an operand that may stand to the left of an operator of binding power q
proof fn grouped_at(sh: Shape, bp: int, q: int)
    requires grouped(sh, bp), sh matches Shape::Bin(_, o, _, _) ==> q <= prec(o),
    ensures grouped(sh, q),
{ }
}
fn main(){}
