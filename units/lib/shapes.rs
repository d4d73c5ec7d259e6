// ---- shapes.rs: the tree of an expression in the event stream, and how operators group (P05) ----
verus! {
//@switch grouping
/// the tree of an expression: each part with the position of its Start event
pub enum Shape { Leaf(int), Post(int, Box<Shape>), Pre(int, Box<Shape>), Bin(int, SyntaxKind, Box<Shape>, Box<Shape>) }
pub open spec fn root_of(sh: Shape) -> int { match sh { Shape::Leaf(s) => s, Shape::Post(s, _) => s, Shape::Pre(s, _) => s, Shape::Bin(s, _, _, _) => s } }
/// kinds that are neither operators nor calls nor field accesses
pub open spec fn atom(k: SyntaxKind) -> bool { k != BIN_EXPR && k != PREFIX_EXPR && k != CALL_EXPR && k != DOT_EXPR && k != TOMBSTONE }
/// the operators that stand before what they apply to
pub open spec fn prefix_op(k: SyntaxKind) -> bool { k == STAR || k == BANG || k == MINUS }
/// nodes opened less nodes closed by the events from x up to j
pub open spec fn nest(e: Seq<Event>, x: int, j: int) -> int
    decreases j - x
{ if j <= x { 0 } else { nest(e, x, j - 1) + if node(e[j - 1]) { 1int } else if e[j - 1] is Finish { -1 } else { 0 } } }
/// events x..y are the whole inside of a node: what they open they close, and no parent is recorded beyond them
pub open spec fn inner(e: Seq<Event>, x: int, y: int) -> bool {
    &&& x <= y
    &&& forall|j: int| x <= j < y ==> match #[trigger] fp_of(e[j]) { Some(d) => d >= 1 && j + d < y && is_start(e[j + d]), None => true }
    &&& forall|j: int| x <= j <= y ==> #[trigger] nest(e, x, j) >= 0
    &&& nest(e, x, y) == 0
}
/// the parent recorded at l is s
pub open spec fn parent_at(e: Seq<Event>, l: int, s: int) -> bool { s - l <= u32::MAX && fp_of(e[l]) == Some((s - l) as u32) }
/// events a..b are the expression `sh`: what a Start has for parent contains it, what lies between a Start and its Finish is inside
pub open spec fn seg(e: Seq<Event>, a: int, b: int, sh: Shape) -> bool
    decreases sh
{
    let s = root_of(sh);
    &&& 0 <= a <= s && s + 1 < b <= e.len() && e[b - 1] is Finish && is_start(e[s])
    &&& match sh {
        Shape::Leaf(_) => s == a && atom(kind_of(e[s])) && inner(e, s + 1, b - 1),
        Shape::Post(_, l) => (kind_of(e[s]) == CALL_EXPR || kind_of(e[s]) == DOT_EXPR) && inner(e, s + 1, b - 1)
            && seg(e, a, s, *l) && parent_at(e, root_of(*l), s),
        Shape::Pre(_, r) => s == a && kind_of(e[s]) == PREFIX_EXPR && e[s + 1] is Token && prefix_op(kind_of(e[s + 1]))
            && seg(e, s + 2, b - 1, *r) && fp_of(e[root_of(*r)]) is None,
        Shape::Bin(_, op, l, r) => kind_of(e[s]) == BIN_EXPR
            && seg(e, a, s, *l) && parent_at(e, root_of(*l), s)
            && e[s + 1] == (Event::Token { kind: op, n_raw_tokens: 1 }) && prec(op) >= 1
            && seg(e, s + 2, b - 1, *r) && fp_of(e[root_of(*r)]) is None,
    }
}
/// how tightly a binary operator binds (0: not one)
/// No call and no field access goes on from here.
pub open spec fn munched(k: SyntaxKind) -> bool { k != L_PAREN && k != DOT }
pub open spec fn prec(k: SyntaxKind) -> int {
    if k == STAR || k == SLASH || k == MOD { 11 } else if k == PLUS || k == MINUS { 10 } else if k == AMP { 8 } else if k == CARET { 7 }
    else if k == PIPE { 6 } else if k == LT || k == GT { 5 } else if k == EQ { 1 } else { 0 }
}
/// calls and field accesses around something simple
pub open spec fn tight(sh: Shape) -> bool
    decreases sh
{ match sh { Shape::Leaf(_) => true, Shape::Post(_, l) => tight(*l), _ => false } }
/// grouped as P05 asks: every operator binds at least as `bp`, the left operand of one at least as tightly, its right operand tighter;
/// what a prefix applies to has no binary operator outside brackets; what is called or accessed has neither
pub open spec fn grouped(sh: Shape, bp: int) -> bool
    decreases sh
{
    match sh {
        Shape::Leaf(_) => true,
        Shape::Post(_, l) => tight(*l),
        Shape::Pre(_, r) => !(*r is Bin) && grouped(*r, 12),
        Shape::Bin(_, op, l, r) => prec(op) >= 1 && prec(op) >= bp && grouped(*l, prec(op)) && grouped(*r, prec(op) + 1),
    }
}

// ---- every operation of a stream is grouped ----
pub open spec fn op_kind(k: SyntaxKind) -> bool { k == BIN_EXPR || k == PREFIX_EXPR || k == CALL_EXPR || k == DOT_EXPR }
pub open spec fn op_at(e: Seq<Event>, s: int) -> bool { is_start(e[s]) && op_kind(kind_of(e[s])) }
/// no event before a has a parent at a or later
pub open spec fn shut(e: Seq<Event>, a: int) -> bool { forall|j: int| 0 <= j < a ==> match #[trigger] fp_of(e[j]) { Some(d) => j + d < a, None => true } }
/// no event before a has a parent among a..b
pub open spec fn unreached(e: Seq<Event>, a: int, b: int) -> bool {
    forall|j: int| 0 <= j < a ==> match #[trigger] fp_of(e[j]) { Some(d) => j + d < a || b <= j + d, None => true }
}
/// events a..b are a grouped operation, its parent outside
pub open spec fn bound(e: Seq<Event>, a: int, b: int, sh: Shape) -> bool {
    &&& seg(e, a, b, sh) && !(sh is Leaf) && grouped(sh, 1) && unreached(e, a, b)
    &&& match fp_of(e[root_of(sh)]) { Some(d) => root_of(sh) + d >= b, None => true }
}
/// ... and those of them that can still change belong to its root
pub open spec fn sealed(e: Seq<Event>, iced: ISet<int>, a: int, b: int, sh: Shape) -> bool {
    bound(e, a, b, sh) && forall|j: int| a <= j < b - 1 && j != root_of(sh) ==> #[trigger] iced.contains(j)
}
pub open spec fn all_sealed(e: Seq<Event>, iced: ISet<int>) -> bool {
    &&& forall|j: int| #[trigger] iced.contains(j) ==> 0 <= j < e.len()
    &&& grouping() ==> forall|s: int| 0 <= s < e.len() && #[trigger] op_at(e, s) ==> exists|a: int, b: int, sh: Shape| #[trigger] sealed(e, iced, a, b, sh) && root_of(sh) == s
}
/// P05, of the whole stream
pub open spec fn all_bound(e: Seq<Event>) -> bool {
    grouping() ==> forall|s: int| 0 <= s < e.len() && #[trigger] op_at(e, s) ==> exists|a: int, b: int, sh: Shape| #[trigger] bound(e, a, b, sh) && root_of(sh) == s
}
pub proof fn sealed_bound(e: Seq<Event>, iced: ISet<int>)
    requires all_sealed(e, iced),
    ensures all_bound(e),
{
    if grouping() { assert forall|s: int| 0 <= s < e.len() && #[trigger] op_at(e, s) implies exists|a: int, b: int, sh: Shape| #[trigger] bound(e, a, b, sh) && root_of(sh) == s by {
        let (a, b, sh) = choose|a: int, b: int, sh: Shape| #[trigger] sealed(e, iced, a, b, sh) && root_of(sh) == s;
        assert(bound(e, a, b, sh));
    } }
}
pub proof fn nest_same(e: Seq<Event>, f: Seq<Event>, x: int, j: int)
    requires 0 <= x, j <= e.len(), j <= f.len(), forall|i: int| x <= i < j ==> #[trigger] f[i] == e[i],
    ensures nest(e, x, j) == nest(f, x, j),
    decreases j - x,
{ if x < j { assert(f[j - 1] == e[j - 1]); nest_same(e, f, x, j - 1); } }
pub proof fn nest_depth(e: Seq<Event>, x: int, j: int)
    requires 0 <= x <= j <= e.len(),
    ensures nest(e, x, j) == depth(e, j) - depth(e, x),
    decreases j - x,
{ if x < j { nest_depth(e, x, j - 1); } }
pub proof fn inner_same(e: Seq<Event>, f: Seq<Event>, x: int, y: int)
    requires inner(e, x, y), 0 <= x, y <= e.len(), y <= f.len(), forall|i: int| x <= i < y ==> #[trigger] f[i] == e[i],
    ensures inner(f, x, y),
{
    assert forall|j: int| x <= j < y implies match #[trigger] fp_of(f[j]) { Some(d) => d >= 1 && j + d < y && is_start(f[j + d]), None => true } by { assert(f[j] == e[j]); assert(fp_of(e[j]) == fp_of(f[j])); match fp_of(e[j]) { Some(d) => { assert(f[j + d] == e[j + d]); } None => {} } }
    assert forall|j: int| x <= j <= y implies #[trigger] nest(f, x, j) >= 0 by { nest_same(e, f, x, j); assert(nest(e, x, j) >= 0); }
    nest_same(e, f, x, y);
}
/// the inside of a node just completed
pub proof fn inner_now(f: Seq<Event>, s: int)
    requires
        fwd_ok(f), 0 <= s, s + 1 < f.len(), f.last() is Finish, node(f[s]), depth(f, s) == 0, depth(f, f.len() as int) == 0,
        forall|j: int| s < j < f.len() ==> #[trigger] depth(f, j) >= 1,
    ensures inner(f, s + 1, f.len() - 1),
{
    let y = f.len() - 1;
    assert forall|j: int| s + 1 <= j < y implies match #[trigger] fp_of(f[j]) { Some(d) => d >= 1 && j + d < y && is_start(f[j + d]), None => true } by { assert(fwd_at(f, j)); }
    assert(depth(f, s + 1) == 1);
    assert forall|j: int| s + 1 <= j <= y implies #[trigger] nest(f, s + 1, j) >= 0 by { nest_depth(f, s + 1, j); assert(depth(f, j) >= 1); }
    nest_depth(f, s + 1, y);
    assert(depth(f, y + 1) == depth(f, y) - 1);
}
/// a stretch of events is the same expression when only its root's recorded parent changes
pub proof fn seg_stable(e: Seq<Event>, f: Seq<Event>, a: int, b: int, sh: Shape)
    requires
        seg(e, a, b, sh), b <= f.len(),
        forall|j: int| a <= j < b && j != root_of(sh) ==> #[trigger] f[j] == e[j],
        is_start(f[root_of(sh)]), kind_of(f[root_of(sh)]) == kind_of(e[root_of(sh)]),
    ensures seg(f, a, b, sh),
    decreases sh,
{
    let s = root_of(sh);
    assert(f[b - 1] == e[b - 1]);
    match sh {
        Shape::Leaf(_) => { inner_same(e, f, s + 1, b - 1); },
        Shape::Post(_, l) => { seg_root(e, a, s, *l); assert(f[root_of(*l)] == e[root_of(*l)]); seg_stable(e, f, a, s, *l); inner_same(e, f, s + 1, b - 1); },
        Shape::Pre(_, r) => { seg_root(e, s + 2, b - 1, *r); assert(f[root_of(*r)] == e[root_of(*r)]); assert(f[s + 1] == e[s + 1]); seg_stable(e, f, s + 2, b - 1, *r); },
        Shape::Bin(_, _, l, r) => {
            seg_root(e, a, s, *l); seg_root(e, s + 2, b - 1, *r);
            assert(f[root_of(*l)] == e[root_of(*l)]); assert(f[root_of(*r)] == e[root_of(*r)]); assert(f[s + 1] == e[s + 1]);
            seg_stable(e, f, a, s, *l); seg_stable(e, f, s + 2, b - 1, *r);
        },
    }
}
pub proof fn seg_root(e: Seq<Event>, a: int, b: int, sh: Shape)
    requires seg(e, a, b, sh),
    ensures a <= root_of(sh) < b - 1, is_start(e[root_of(sh)]),
{ }
/// one step of the parser leaves what is sealed sealed
pub proof fn sealed_step(e: Seq<Event>, f: Seq<Event>, ic: ISet<int>, id: ISet<int>, new: int)
    requires
        grouping(), all_sealed(e, ic),
        forall|j: int| #[trigger] ic.contains(j) ==> id.contains(j),
        forall|j: int| #[trigger] id.contains(j) ==> 0 <= j < f.len(),
        forall|j: int| #[trigger] ic.contains(j) ==> f[j] == e[j],
        forall|j: int| 0 <= j < e.len() && j < f.len() && #[trigger] e[j] is Finish ==> f[j] == e[j],
        f.len() >= e.len() || (f.len() == e.len() - 1 && !(e.last() is Finish)),
        forall|j: int| 0 <= j < e.len() && j < f.len() ==> fp_of(#[trigger] f[j]) == fp_of(e[j]) || (fp_of(f[j]) matches Some(d) ==> j + d >= e.len()),
        forall|s: int| 0 <= s < f.len() && s != new && #[trigger] op_at(f, s) ==> s < e.len() && op_at(e, s) && kind_of(f[s]) == kind_of(e[s]),
        0 <= new < f.len() ==> exists|a: int, b: int, sh: Shape| #[trigger] sealed(f, id, a, b, sh) && root_of(sh) == new,
    ensures all_sealed(f, id),
{
    assert forall|s: int| 0 <= s < f.len() && #[trigger] op_at(f, s) implies exists|a: int, b: int, sh: Shape| #[trigger] sealed(f, id, a, b, sh) && root_of(sh) == s by {
        if s != new {
            assert(op_at(e, s));
            let (a, b, sh) = choose|a: int, b: int, sh: Shape| #[trigger] sealed(e, ic, a, b, sh) && root_of(sh) == s;
            assert(e[b - 1] is Finish);
            assert(b <= f.len());
            assert forall|j: int| a <= j < b && j != root_of(sh) implies #[trigger] f[j] == e[j] by { if j < b - 1 { assert(ic.contains(j)); } else { assert(e[j] is Finish); } }
            seg_stable(e, f, a, b, sh);
            assert forall|j: int| 0 <= j < a implies match #[trigger] fp_of(f[j]) { Some(d) => j + d < a || b <= j + d, None => true } by { assert(fp_of(f[j]) == fp_of(e[j]) || b <= e.len()); }
            assert forall|j: int| a <= j < b - 1 && j != root_of(sh) implies #[trigger] id.contains(j) by { assert(ic.contains(j)); }
            seg_root(e, a, b, sh);
            assert(fp_of(f[s]) == fp_of(e[s]) || b <= e.len());
            assert(sealed(f, id, a, b, sh));
        }
    }
}
}
