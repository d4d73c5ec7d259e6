// ---- groupspec.rs: from events that are grouped to a tree that is (P05) ----
verus! {
/// an expression of the tree: what is atomic with what stands in it, calls and accesses, prefixes, operations
pub enum Tree { Leaf(SyntaxKind, Seq<Bare>), Post(SyntaxKind, Box<Tree>, Seq<Bare>), Pre(SyntaxKind, Box<Tree>), Bin(SyntaxKind, Box<Tree>, Box<Tree>) }
/// the calls that build it, without blanks and comments
pub open spec fn flat(t: Tree) -> Seq<Bare>
    decreases t
{
    match t {
        Tree::Leaf(k, x) => seq![Bare::Open(k)] + x + seq![Bare::Close],
        Tree::Post(k, l, x) => seq![Bare::Open(k)] + flat(*l) + x + seq![Bare::Close],
        Tree::Pre(op, r) => seq![Bare::Open(PREFIX_EXPR)] + seq![Bare::Tok(op)] + flat(*r) + seq![Bare::Close],
        Tree::Bin(op, l, r) => seq![Bare::Open(BIN_EXPR)] + flat(*l) + seq![Bare::Tok(op)] + flat(*r) + seq![Bare::Close],
    }
}
/// nodes opened less nodes closed by the first j calls
pub open spec fn net(x: Seq<Bare>, j: int) -> int
    decreases j
{ if j <= 0 { 0 } else { net(x, j - 1) + match x[j - 1] { Bare::Open(_) => 1int, Bare::Close => -1, _ => 0 } } }
/// whole nodes and tokens
pub open spec fn balanced(x: Seq<Bare>) -> bool { net(x, x.len() as int) == 0 && forall|j: int| 0 <= j <= x.len() ==> #[trigger] net(x, j) >= 0 }
pub open spec fn well(t: Tree) -> bool
    decreases t
{
    match t {
        Tree::Leaf(k, x) => atom(k) && balanced(x),
        Tree::Post(k, l, x) => (k == CALL_EXPR || k == DOT_EXPR) && well(*l) && balanced(x),
        Tree::Pre(op, r) => prefix_op(op) && well(*r),
        Tree::Bin(op, l, r) => prec(op) >= 1 && well(*l) && well(*r),
    }
}
/// calls and field accesses around something simple
pub open spec fn tight_tree(t: Tree) -> bool
    decreases t
{ match t { Tree::Leaf(_, _) => true, Tree::Post(_, l, _) => tight_tree(*l), _ => false } }
/// P05: every operator binds at least as `bp`, the left operand of one at least as tightly, its right operand tighter;
/// what a prefix applies to is no operation; what is called or accessed is neither an operation nor a prefix
pub open spec fn grouped_tree(t: Tree, bp: int) -> bool
    decreases t
{
    match t {
        Tree::Leaf(_, _) => true,
        Tree::Post(_, l, _) => tight_tree(*l),
        Tree::Pre(_, r) => !(*r is Bin) && grouped_tree(*r, 12),
        Tree::Bin(op, l, r) => prec(op) >= bp && grouped_tree(*l, prec(op)) && grouped_tree(*r, prec(op) + 1),
    }
}
pub open spec fn tree_at(l: Seq<Bare>, x: int, t: Tree) -> bool {
    x + flat(t).len() <= l.len() && l.subrange(x, x + flat(t).len()) == flat(t) && well(t) && grouped_tree(t, 1) && !(t is Leaf)
}
pub open spec fn opens_op(b: Bare) -> bool { match b { Bare::Open(k) => op_kind(k), _ => false } }
/// every operation, call, access and prefix of the tree is grouped
pub open spec fn ops_grouped(l: Seq<Bare>) -> bool {
    grouping() ==> forall|x: int| 0 <= x < l.len() && opens_op(#[trigger] l[x]) ==> exists|t: Tree| #[trigger] tree_at(l, x, t)
}

// ---- lemmas ----
/// s is i, its parent, its parent's parent, ...
spec fn reach(e: Seq<Event>, i: int, s: int) -> bool
    decreases e.len() - i
{ 0 <= i < e.len() && (i == s || match up(e, i) { Some(j) => reach(e, j, s), None => false }) }
proof fn reach_ge(e: Seq<Event>, i: int, s: int)
    requires reach(e, i, s),
    ensures 0 <= i <= s < e.len(),
    decreases e.len() - i,
{ if i != s { match up(e, i) { Some(j) => { reach_ge(e, j, s); } None => {} } } }
proof fn reach_same(e: Seq<Event>, f: Seq<Event>, i: int, s: int)
    requires same_from(e, f, i), 0 <= i,
    ensures reach(e, i, s) == reach(f, i, s),
    decreases e.len() - i,
{ if i < e.len() { assert(e[i] == f[i]); match up(e, i) { Some(j) => { reach_same(e, f, j, s); } None => {} } } }
proof fn reach_trans(e: Seq<Event>, i: int, s: int, t: int)
    requires reach(e, i, s), reach(e, s, t),
    ensures reach(e, i, t),
    decreases e.len() - i,
{ reach_ge(e, i, s); reach_ge(e, s, t); if i != s && i != t { match up(e, i) { Some(j) => { reach_trans(e, j, s, t); } None => {} } } }
proof fn read_at(e: Seq<Event>, i: int, s: int)
    requires 0 <= s < e.len(), 0 <= i < e.len(),
    ensures read(e, i).len() == e.len(), read(e, i)[s] == if reach(e, i, s) { tomb() } else { e[s] },
    decreases e.len() - i,
{
    read_len(e, i);
    match up(e, i) {
        Some(j) => {
            let f = e.update(i, tomb());
            reach_same(e, f, j, s);
            read_len(f, j);
            if s == i { assert(read(f, j)[s] == f[s]); } else { read_at(f, j, s); }
        }
        None => {}
    }
}
spec fn agree(e: Seq<Event>, f: Seq<Event>, x: int, y: int) -> bool { e.len() == f.len() && forall|j: int| x <= j < y ==> #[trigger] e[j] == f[j] }
/// parents recorded in x..y are there
spec fn closed(e: Seq<Event>, x: int, y: int) -> bool {
    forall|j: int| x <= j < y ==> match #[trigger] fp_of(e[j]) { Some(d) => d >= 1 && j + d < y && is_start(e[j + d]), None => true }
}
proof fn closed_reach(e: Seq<Event>, x: int, y: int, i: int, s: int)
    requires closed(e, x, y), 0 <= x <= i < y <= e.len(), reach(e, i, s),
    ensures s < y,
    decreases e.len() - i,
{ if i != s { assert(fp_of(e[i]) is Some); match up(e, i) { Some(j) => { closed_reach(e, x, y, j, s); } None => {} } } }
proof fn chain_agree(e: Seq<Event>, f: Seq<Event>, x: int, y: int, i: int)
    requires closed(e, x, y), agree(e, f, x, y), 0 <= x <= i < y <= e.len(),
    ensures chain(e, i) == chain(f, i), forall|s: int| #[trigger] reach(e, i, s) == reach(f, i, s),
    decreases e.len() - i,
{
    assert(e[i] == f[i]);
    match fp_of(e[i]) { Some(d) => { assert(up(e, i) == Some(i + d)); assert(up(f, i) == Some(i + d)); chain_agree(e, f, x, y, i + d); } None => {} }
    assert(up(e, i) == up(f, i));
    assert forall|s: int| #[trigger] reach(e, i, s) == reach(f, i, s) by { match up(e, i) { Some(j) => { assert(reach(e, j, s) == reach(f, j, s)); } None => {} } }
}
/// reading the Start at i, whose parents lie before y
proof fn read_closed(e: Seq<Event>, i: int, y: int)
    requires closed(e, i, y), 0 <= i < y <= e.len(), is_start(e[i]),
    ensures
        read(e, i).len() == e.len(), closed(read(e, i), i, y), same_from(read(e, i), e, y),
        forall|j: int| i <= j < y ==> (#[trigger] read(e, i)[j] == e[j] || (is_start(e[j]) && read(e, i)[j] == tomb())),
{
    let f = read(e, i);
    read_at(e, i, i);
    assert forall|j: int| y <= j < e.len() implies #[trigger] f[j] == e[j] by { read_at(e, i, j); if reach(e, i, j) { closed_reach(e, i, y, i, j); } }
    assert forall|j: int| i <= j < y implies (#[trigger] f[j] == e[j] || (is_start(e[j]) && f[j] == tomb())) by { read_at(e, i, j); if reach(e, i, j) { reach_start(e, i, y, i, j); } }
    assert forall|j: int| i <= j < y implies match #[trigger] fp_of(f[j]) { Some(d) => d >= 1 && j + d < y && is_start(f[j + d]), None => true } by {
        assert(f[j] == e[j] || f[j] == tomb());
        match fp_of(f[j]) { Some(d) => { assert(fp_of(e[j]) == Some(d)); assert(is_start(e[j + d])); assert(f[j + d] == e[j + d] || f[j + d] == tomb()); } None => {} }
    }
}
proof fn reach_start(e: Seq<Event>, x: int, y: int, i: int, s: int)
    requires closed(e, x, y), 0 <= x <= i < y <= e.len(), reach(e, i, s), is_start(e[i]),
    ensures is_start(e[s]),
    decreases e.len() - i,
{ if i != s { match up(e, i) { Some(j) => { assert(fp_of(e[i]) is Some); reach_start(e, x, y, j, s); } None => {} } } }
proof fn replay_agree(e: Seq<Event>, f: Seq<Event>, i: int, y: int)
    requires closed(e, i, y), agree(e, f, i, y), 0 <= i <= y <= e.len(),
    ensures replay(e, i, y) == replay(f, i, y),
    decreases y - i,
{
    if i < y {
        assert(e[i] == f[i]);
        assert(closed(f, i, y)) by { assert forall|j: int| i <= j < y implies match #[trigger] fp_of(f[j]) { Some(d) => d >= 1 && j + d < y && is_start(f[j + d]), None => true } by { assert(f[j] == e[j]); assert(fp_of(e[j]) == fp_of(f[j])); match fp_of(e[j]) { Some(d) => { assert(f[j + d] == e[j + d]); } None => {} } } }
        if node(e[i]) {
            chain_agree(e, f, i, y, i);
            read_closed(e, i, y); read_closed(f, i, y);
            let (g, h) = (read(e, i), read(f, i));
            assert forall|j: int| i + 1 <= j < y implies #[trigger] g[j] == h[j] by { read_at(e, i, j); read_at(f, i, j); assert(reach(e, i, j) == reach(f, i, j)); assert(e[j] == f[j]); }
            assert(closed(g, i + 1, y));
            replay_agree(g, h, i + 1, y);
        } else { replay_agree(e, f, i + 1, y); }
    }
}
proof fn left_closed(e: Seq<Event>, i: int, y: int)
    requires closed(e, i, y), 0 <= i <= y <= e.len(),
    ensures same_from(left(e, i, y), e, y),
    decreases y - i,
{ if i < y { if node(e[i]) { read_closed(e, i, y); left_closed(read(e, i), i + 1, y); } else { left_closed(e, i + 1, y); } } }
proof fn replay_split(e: Seq<Event>, i: int, m: int, b: int)
    requires 0 <= i <= m <= b <= e.len(),
    ensures
        replay(e, i, b) == replay(e, i, m) + replay(left(e, i, m), m, b), left(e, i, b) == left(left(e, i, m), m, b), left(e, i, m).len() == e.len(),
    decreases m - i,
{
    if i < m {
        if node(e[i]) {
            let f = read(e, i);
            read_len(e, i);
            replay_split(f, i + 1, m, b);
            assert(replay(e, i, b) =~= replay(e, i, m) + replay(left(e, i, m), m, b));
        } else {
            replay_split(e, i + 1, m, b);
            assert(replay(e, i, b) =~= replay(e, i, m) + replay(left(e, i, m), m, b));
        }
    } else { assert(replay(e, i, m) == Seq::<Bare>::empty()); assert(replay(e, i, b) =~= replay(e, i, m) + replay(e, i, b)); }
}
proof fn left_len(e: Seq<Event>, i: int, b: int)
    ensures left(e, i, b).len() == e.len(),
    decreases b - i,
{ if 0 <= i && i < b && b <= e.len() { if node(e[i]) { read_len(e, i); left_len(read(e, i), i + 1, b); } else { left_len(e, i + 1, b); } } }
proof fn left_same(e: Seq<Event>, f: Seq<Event>, i: int, b: int)
    requires same_from(e, f, i), 0 <= i,
    ensures same_from(left(e, i, b), left(f, i, b), if i < b { b } else { i }),
    decreases b - i,
{
    if i < b && b <= e.len() {
        assert(e[i] == f[i]);
        if node(e[i]) { read_same(e, f, i, i); left_same(read(e, i), read(f, i), i + 1, b); } else { left_same(e, f, i + 1, b); }
    }
}
proof fn opens_cons(k: SyntaxKind, r: Seq<SyntaxKind>)
    ensures opens(seq![k] + r) == opens(r) + seq![Bare::Open(k)],
{ assert(opens(seq![k] + r) =~= opens(r) + seq![Bare::Open(k)]); }

/// what the parents of the Start at s add around it
spec fn outer(e: Seq<Event>, s: int) -> Seq<SyntaxKind> { match up(e, s) { Some(j) => chain(e, j), None => seq![] } }
spec fn outer_read(e: Seq<Event>, s: int) -> Seq<Event> { match up(e, s) { Some(j) => read(e, j), None => e } }
spec fn beyond(e: Seq<Event>, s: int, b: int) -> bool { match fp_of(e[s]) { Some(d) => s + d >= b, None => true } }
proof fn outer_beyond(e: Seq<Event>, s: int, b: int)
    requires 0 <= s < b <= e.len(), beyond(e, s, b),
    ensures
        forall|t: int| s < t < b ==> !#[trigger] reach(e, s, t),
        read(e, s).len() == e.len(), agree(e, read(e, s), s + 1, b), same_from(read(e, s), outer_read(e, s), s + 1),
        chain(e, s) == (if kind_of(e[s]) != TOMBSTONE { seq![kind_of(e[s])] } else { seq![] }) + outer(e, s),
{
    assert forall|t: int| s < t < b implies !#[trigger] reach(e, s, t) by { if reach(e, s, t) { match up(e, s) { Some(j) => { reach_ge(e, j, t); } None => {} } } }
    assert forall|j: int| s + 1 <= j < b implies #[trigger] e[j] == read(e, s)[j] by { read_at(e, s, j); assert(!reach(e, s, j)); }
    read_at(e, s, s);
    match up(e, s) { Some(j) => { read_same(e, e.update(s, tomb()), j, s + 1); } None => {} }
}
/// the tree of an expression in the events
spec fn etree(e: Seq<Event>, a: int, b: int, sh: Shape) -> Tree
    decreases sh
{
    let s = root_of(sh);
    match sh {
        Shape::Leaf(_) => Tree::Leaf(kind_of(e[s]), replay(e, s + 1, b - 1)),
        Shape::Post(_, l) => Tree::Post(kind_of(e[s]), Box::new(etree(e, a, s, *l)), replay(e, s + 1, b - 1)),
        Shape::Pre(_, r) => Tree::Pre(kind_of(e[s + 1]), Box::new(etree(e, s + 2, b - 1, *r))),
        Shape::Bin(_, op, l, r) => Tree::Bin(op, Box::new(etree(e, a, s, *l)), Box::new(etree(e, s + 2, b - 1, *r))),
    }
}
proof fn etree_same(e: Seq<Event>, f: Seq<Event>, a: int, b: int, sh: Shape)
    requires seg(e, a, b, sh), agree(e, f, a, b),
    ensures etree(e, a, b, sh) == etree(f, a, b, sh), seg(f, a, b, sh),
    decreases sh,
{
    seg_root(e, a, b, sh);
    let s = root_of(sh);
    assert(e[s] == f[s]); assert(e[s + 1] == f[s + 1]); assert(f[b - 1] == e[b - 1]);
    assert forall|j: int| a <= j < b && j != s implies #[trigger] f[j] == e[j] by { assert(e[j] == f[j]); }
    seg_stable(e, f, a, b, sh);
    match sh {
        Shape::Leaf(_) => { replay_agree(e, f, s + 1, b - 1); }
        Shape::Post(_, l) => { etree_same(e, f, a, s, *l); replay_agree(e, f, s + 1, b - 1); }
        Shape::Pre(_, r) => { etree_same(e, f, s + 2, b - 1, *r); }
        Shape::Bin(_, _, l, r) => { etree_same(e, f, a, s, *l); etree_same(e, f, s + 2, b - 1, *r); }
    }
}
/// the inside of a node, then its end
proof fn tail_in(e: Seq<Event>, f: Seq<Event>, s: int, b: int)
    requires 0 <= s, s + 1 < b <= e.len(), inner(e, s + 1, b - 1), agree(e, f, s + 1, b), e[b - 1] is Finish,
    ensures replay(f, s + 1, b) == replay(e, s + 1, b - 1) + seq![Bare::Close], same_from(left(f, s + 1, b), f, b),
{
    assert(closed(e, s + 1, b - 1));
    assert(closed(f, s + 1, b - 1)) by { inner_same2(e, f, s + 1, b - 1); }
    replay_agree(e, f, s + 1, b - 1);
    left_closed(f, s + 1, b - 1);
    close_at(f, s + 1, b);
}
proof fn inner_same2(e: Seq<Event>, f: Seq<Event>, x: int, y: int)
    requires inner(e, x, y), 0 <= x, y <= e.len(), agree(e, f, x, y),
    ensures inner(f, x, y),
{ assert forall|i: int| x <= i < y implies #[trigger] f[i] == e[i] by { assert(e[i] == f[i]); } inner_same(e, f, x, y); }
/// ... the end of it
proof fn close_at(f: Seq<Event>, i: int, b: int)
    requires 0 <= i < b <= f.len(), f[b - 1] is Finish, same_from(left(f, i, b - 1), f, b - 1),
    ensures replay(f, i, b) == replay(f, i, b - 1) + seq![Bare::Close], same_from(left(f, i, b), f, b),
{
    replay_split(f, i, b - 1, b);
    let g = left(f, i, b - 1);
    assert(g[b - 1] == f[b - 1]);
    assert(replay(g, b, b) == Seq::<Bare>::empty());
    assert(replay(g, b - 1, b) =~= seq![Bare::Close]);
    assert(left(g, b, b) == g);
    assert(left(g, b - 1, b) == g);
}
/// a token and an operand, then the end of the node
proof fn operand_part(e: Seq<Event>, f: Seq<Event>, s: int, b: int, r: Shape)
    requires
        0 <= s, s + 2 < b <= e.len(), e[s + 1] is Token, !trivia(kind_of(e[s + 1])), seg(e, s + 2, b - 1, r), fp_of(e[root_of(r)]) is None,
        agree(e, f, s + 1, b), e[b - 1] is Finish,
    ensures
        replay(f, s + 1, b) == seq![Bare::Tok(kind_of(e[s + 1]))] + flat(etree(e, s + 2, b - 1, r)) + seq![Bare::Close], same_from(left(f, s + 1, b), f, b),
    decreases r, 4int,
{
    assert(e[s + 1] == f[s + 1]); assert(e[b - 1] == f[b - 1]);
    etree_same(e, f, s + 2, b - 1, r);
    seg_root(e, s + 2, b - 1, r);
    assert(f[root_of(r)] == e[root_of(r)]);
    seg_replay(f, s + 2, b - 1, r);
    assert(opens(outer(f, root_of(r))) + flat(etree(f, s + 2, b - 1, r)) =~= flat(etree(f, s + 2, b - 1, r)));
    close_at(f, s + 2, b);
    assert(replay(f, s + 1, b) =~= seq![Bare::Tok(kind_of(e[s + 1]))] + (flat(etree(e, s + 2, b - 1, r)) + seq![Bare::Close]));
    assert(seq![Bare::Tok(kind_of(e[s + 1]))] + (flat(etree(e, s + 2, b - 1, r)) + seq![Bare::Close]) =~= seq![Bare::Tok(kind_of(e[s + 1]))] + flat(etree(e, s + 2, b - 1, r)) + seq![Bare::Close]);
    assert(left(f, s + 1, b) == left(f, s + 2, b));
}
proof fn cat3(o: Seq<Bare>, k: Seq<Bare>, x: Seq<Bare>, c: Seq<Bare>)
    ensures o + k + (x + c) == o + (k + x + c),
{ assert(o + k + (x + c) =~= o + (k + x + c)); }
proof fn cat4(o: Seq<Bare>, k: Seq<Bare>, x: Seq<Bare>, y: Seq<Bare>, c: Seq<Bare>)
    ensures o + k + x + (y + c) == o + (k + x + y + c), o + k + (x + y + c) == o + (k + x + y + c),
{ assert(o + k + x + (y + c) =~= o + (k + x + y + c)); assert(o + k + (x + y + c) =~= o + (k + x + y + c)); }
proof fn cat5(o: Seq<Bare>, k: Seq<Bare>, l: Seq<Bare>, t: Seq<Bare>, r: Seq<Bare>, c: Seq<Bare>)
    ensures o + k + l + (t + r + c) == o + (k + l + t + r + c),
{ assert(o + k + l + (t + r + c) =~= o + (k + l + t + r + c)); }
proof fn started(e: Seq<Event>, a: int, b: int)
    requires 0 <= a < b <= e.len(), node(e[a]),
    ensures replay(e, a, b) == opens(chain(e, a)) + replay(read(e, a), a + 1, b), left(e, a, b) == left(read(e, a), a + 1, b),
{ }
proof fn leaf_replay(e: Seq<Event>, a: int, b: int, sh: Shape, s: int)
    requires seg(e, a, b, sh), s == root_of(sh), beyond(e, s, b), sh is Leaf,
    ensures
        reach(e, a, s), node(e[a]), left(e, a, b).len() == e.len(),
        replay(e, a, b) == opens(outer(e, s)) + flat(etree(e, a, b, sh)),
        same_from(left(e, a, b), outer_read(e, s), b),
{
    let r0 = outer(e, s);
    seg_root(e, a, b, sh);
    outer_beyond(e, s, b);
    left_len(e, a, b);
    let f = read(e, s);
    tail_in(e, f, s, b);
    opens_cons(kind_of(e[s]), r0);
    started(e, a, b);
    cat3(opens(r0), seq![Bare::Open(kind_of(e[s]))], replay(e, s + 1, b - 1), seq![Bare::Close]);
}
proof fn pre_replay(e: Seq<Event>, a: int, b: int, sh: Shape, s: int)
    requires seg(e, a, b, sh), s == root_of(sh), beyond(e, s, b), sh is Pre,
    ensures
        reach(e, a, s), node(e[a]), left(e, a, b).len() == e.len(),
        replay(e, a, b) == opens(outer(e, s)) + flat(etree(e, a, b, sh)),
        same_from(left(e, a, b), outer_read(e, s), b),
    decreases sh, 0int,
{
    let r0 = outer(e, s);
    seg_root(e, a, b, sh);
    outer_beyond(e, s, b);
    left_len(e, a, b);
    let f = read(e, s);
    let r = *(sh->Pre_1);
    operand_part(e, f, s, b, r);
    opens_cons(kind_of(e[s]), r0);
    started(e, a, b);
    cat4(opens(r0), seq![Bare::Open(PREFIX_EXPR)], seq![Bare::Tok(kind_of(e[s + 1]))], flat(etree(e, s + 2, b - 1, r)), seq![Bare::Close]);
}
proof fn post_replay(e: Seq<Event>, a: int, b: int, sh: Shape, s: int)
    requires seg(e, a, b, sh), s == root_of(sh), beyond(e, s, b), sh is Post,
    ensures
        reach(e, a, s), node(e[a]), left(e, a, b).len() == e.len(),
        replay(e, a, b) == opens(outer(e, s)) + flat(etree(e, a, b, sh)),
        same_from(left(e, a, b), outer_read(e, s), b),
    decreases sh, 0int,
{
    let r0 = outer(e, s);
    seg_root(e, a, b, sh);
    outer_beyond(e, s, b);
    left_len(e, a, b);
    let l = *(sh->Post_1);
    left_part(e, a, s, b, l);
    let f = left(e, a, s);
    tail_in(e, f, s, b);
    cat4(opens(r0), seq![Bare::Open(kind_of(e[s]))], flat(etree(e, a, s, l)), replay(e, s + 1, b - 1), seq![Bare::Close]);
}
proof fn bin_replay(e: Seq<Event>, a: int, b: int, sh: Shape, s: int)
    requires seg(e, a, b, sh), s == root_of(sh), beyond(e, s, b), sh is Bin,
    ensures
        reach(e, a, s), node(e[a]), left(e, a, b).len() == e.len(),
        replay(e, a, b) == opens(outer(e, s)) + flat(etree(e, a, b, sh)),
        same_from(left(e, a, b), outer_read(e, s), b),
    decreases sh, 0int,
{
    let r0 = outer(e, s);
    seg_root(e, a, b, sh);
    outer_beyond(e, s, b);
    left_len(e, a, b);
    let (op, l, r) = (sh->Bin_1, *(sh->Bin_2), *(sh->Bin_3));
    left_part(e, a, s, b, l);
    let f = left(e, a, s);
    operand_part(e, f, s, b, r);
    cat5(opens(r0), seq![Bare::Open(BIN_EXPR)], flat(etree(e, a, s, l)), seq![Bare::Tok(op)], flat(etree(e, s + 2, b - 1, r)), seq![Bare::Close]);
}
/// reading the events of an expression: what stands around it is opened, then its tree built
proof fn seg_replay(e: Seq<Event>, a: int, b: int, sh: Shape)
    requires seg(e, a, b, sh), beyond(e, root_of(sh), b),
    ensures
        reach(e, a, root_of(sh)), node(e[a]), left(e, a, b).len() == e.len(),
        replay(e, a, b) == opens(outer(e, root_of(sh))) + flat(etree(e, a, b, sh)),
        same_from(left(e, a, b), outer_read(e, root_of(sh)), b),
    decreases sh, 3int,
{
    let s = root_of(sh);
    match sh {
        Shape::Leaf(_) => { leaf_replay(e, a, b, sh, s); }
        Shape::Pre(_, r) => { pre_replay(e, a, b, sh, s); }
        Shape::Post(_, l) => { post_replay(e, a, b, sh, s); }
        Shape::Bin(_, op, l, r) => { bin_replay(e, a, b, sh, s); }
    }
}
/// what comes first of a call, an access or an operation: its node is opened on the way to what it applies to
proof fn left_part(e: Seq<Event>, a: int, s: int, b: int, l: Shape)
    requires seg(e, a, s, l), parent_at(e, root_of(l), s), s + 1 < b <= e.len(), node(e[s]), beyond(e, s, b),
    ensures
        reach(e, a, s), node(e[a]),
        left(e, a, s).len() == e.len(), agree(e, left(e, a, s), s + 1, b), same_from(left(e, a, s), outer_read(e, s), s + 1),
        replay(e, a, b) == opens(outer(e, s)) + seq![Bare::Open(kind_of(e[s]))] + flat(etree(e, a, s, l)) + replay(left(e, a, s), s + 1, b),
        left(e, a, b) == left(left(e, a, s), s + 1, b),
    decreases l, 4int,
{
    seg_root(e, a, s, l);
    let rl = root_of(l);
    assert(up(e, rl) == Some(s));
    seg_replay(e, a, s, l);
    assert(reach(e, s, s)); assert(reach(e, rl, s));
    reach_trans(e, a, rl, s);
    outer_beyond(e, s, b);
    opens_cons(kind_of(e[s]), outer(e, s));
    assert(outer(e, rl) == chain(e, s));
    let f = left(e, a, s);
    let g = read(e, s);
    read_at(e, s, s);
    assert(f[s] == g[s]);
    replay_split(e, a, s, b);
    assert(replay(f, s, b) =~= replay(f, s + 1, b));
    assert(left(f, s, b) == left(f, s + 1, b));
    assert forall|j: int| s + 1 <= j < b implies #[trigger] e[j] == f[j] by { assert(f[j] == g[j]); assert(e[j] == g[j]); }
    assert forall|j: int| s + 1 <= j < e.len() implies #[trigger] f[j] == outer_read(e, s)[j] by { assert(f[j] == g[j]); assert(g[j] == outer_read(e, s)[j]); }
    assert(replay(e, a, b) =~= opens(outer(e, s)) + seq![Bare::Open(kind_of(e[s]))] + flat(etree(e, a, s, l)) + replay(f, s + 1, b));
}

// ---- what lies inside a node is balanced ----
/// closings less openings in i..y
spec fn ends(e: Seq<Event>, i: int, y: int) -> int
    decreases y - i
{ if i >= y { 0 } else { ends(e, i + 1, y) + if node(e[i]) { -1int } else if e[i] is Finish { 1 } else { 0 } } }
proof fn ends_nest(e: Seq<Event>, x: int, j: int, y: int)
    requires x <= j <= y,
    ensures ends(e, j, y) == nest(e, x, j) - nest(e, x, y),
    decreases y - j,
{ if j < y { ends_nest(e, x, j + 1, y); } }
proof fn ends_update(e: Seq<Event>, i: int, k: int, y: int)
    requires 0 <= k <= y <= e.len(), 0 <= i < e.len(), is_start(e[i]),
    ensures ends(e.update(i, tomb()), k, y) == ends(e, k, y) + if k <= i < y && node(e[i]) { 1int } else { 0 },
    decreases y - k,
{ if k < y { ends_update(e, i, k + 1, y); } }
proof fn ends_read(e: Seq<Event>, i: int, k: int, y: int)
    requires 0 <= k <= i < y <= e.len(), closed(e, k, y), is_start(e[i]),
    ensures ends(read(e, i), k, y) == ends(e, k, y) + chain(e, i).len(),
    decreases e.len() - i,
{
    ends_update(e, i, k, y);
    let f = e.update(i, tomb());
    match fp_of(e[i]) {
        Some(d) => {
            let j = i + d;
            assert(up(e, i) == Some(j));
            assert(closed(f, k, y)) by {
                assert forall|m: int| k <= m < y implies match #[trigger] fp_of(f[m]) { Some(d) => d >= 1 && m + d < y && is_start(f[m + d]), None => true } by {
                    if m != i { assert(f[m] == e[m]); assert(fp_of(e[m]) == fp_of(f[m])); }
                }
            }
            ends_read(f, j, k, y);
            chain_same(e, f, j);
        }
        None => {}
    }
}
proof fn ends_ge(e: Seq<Event>, f: Seq<Event>, i: int, y: int)
    requires forall|j: int| i <= j < y ==> (#[trigger] f[j] == e[j] || (is_start(e[j]) && f[j] == tomb())),
    ensures ends(f, i, y) >= ends(e, i, y),
    decreases y - i,
{ if i < y { assert(f[i] == e[i] || (is_start(e[i]) && f[i] == tomb())); ends_ge(e, f, i + 1, y); } }
proof fn net_cat(p: Seq<Bare>, q: Seq<Bare>, j: int)
    requires 0 <= j <= p.len() + q.len(),
    ensures net(p + q, j) == if j <= p.len() { net(p, j) } else { net(p, p.len() as int) + net(q, j - p.len()) },
    decreases j,
{ if j > 0 { net_cat(p, q, j - 1); if j <= p.len() { assert((p + q)[j - 1] == p[j - 1]); } else { assert((p + q)[j - 1] == q[j - 1 - p.len()]); if j - 1 == p.len() { reveal_with_fuel(net, 2); } } } }
proof fn net_opens(ks: Seq<SyntaxKind>, j: int)
    requires 0 <= j <= ks.len(),
    ensures net(opens(ks), j) == j,
    decreases j,
{ if j > 0 { net_opens(ks, j - 1); } }
proof fn nets(f: Seq<Event>, i: int, y: int)
    requires 0 <= i <= y <= f.len(), closed(f, i, y), forall|j: int| i <= j <= y ==> #[trigger] ends(f, j, y) >= 0,
    ensures
        net(replay(f, i, y), replay(f, i, y).len() as int) == -ends(f, i, y),
        forall|j: int| 0 <= j <= replay(f, i, y).len() ==> #[trigger] net(replay(f, i, y), j) >= -ends(f, i, y),
    decreases y - i,
{
    if i < y {
        let b = replay(f, i, y);
        assert(ends(f, i, y) >= 0);
        if node(f[i]) {
            let g = read(f, i);
            let p = opens(chain(f, i));
            read_closed(f, i, y);
            ends_read(f, i, i, y);
            assert(g[i] == tomb()) by { read_at(f, i, i); }
            assert forall|j: int| i + 1 <= j <= y implies #[trigger] ends(g, j, y) >= 0 by { ends_ge(f, g, j, y); assert(ends(f, j, y) >= 0); }
            assert(closed(g, i + 1, y));
            nets(g, i + 1, y);
            let q = replay(g, i + 1, y);
            net_opens(chain(f, i), p.len() as int);
            assert forall|j: int| 0 <= j <= b.len() implies #[trigger] net(b, j) >= -ends(f, i, y) by { net_cat(p, q, j); if j <= p.len() { net_opens(chain(f, i), j); } else { assert(net(q, j - p.len()) >= -ends(g, i + 1, y)); } }
            net_cat(p, q, b.len() as int);
            if q.len() == 0 { assert(net(q, 0) == 0); }
        } else {
            nets(f, i + 1, y);
            let p = plain(f[i]);
            let q = replay(f, i + 1, y);
            reveal_with_fuel(net, 3);
            assert forall|j: int| 0 <= j <= b.len() implies #[trigger] net(b, j) >= -ends(f, i, y) by { net_cat(p, q, j); if j > p.len() { assert(net(q, j - p.len()) >= -ends(f, i + 1, y)); } else if j == p.len() { assert(net(q, 0) >= -ends(f, i + 1, y)); } }
            net_cat(p, q, b.len() as int);
        }
    }
}
proof fn inner_balanced(e: Seq<Event>, x: int, y: int)
    requires inner(e, x, y), 0 <= x, y <= e.len(),
    ensures balanced(replay(e, x, y)),
{
    assert(closed(e, x, y));
    assert forall|j: int| x <= j <= y implies #[trigger] ends(e, j, y) >= 0 by { ends_nest(e, x, j, y); assert(nest(e, x, j) >= 0); }
    ends_nest(e, x, x, y);
    nets(e, x, y);
}
proof fn etree_tight(e: Seq<Event>, a: int, b: int, sh: Shape)
    requires tight(sh),
    ensures tight_tree(etree(e, a, b, sh)),
    decreases sh,
{ match sh { Shape::Post(s, l) => { etree_tight(e, a, s, *l); } _ => {} } }
proof fn etree_good(e: Seq<Event>, a: int, b: int, sh: Shape, bp: int)
    requires seg(e, a, b, sh), grouped(sh, bp),
    ensures well(etree(e, a, b, sh)), grouped_tree(etree(e, a, b, sh), bp),
    decreases sh,
{
    let s = root_of(sh);
    match sh {
        Shape::Leaf(_) => { inner_balanced(e, s + 1, b - 1); }
        Shape::Post(_, l) => { inner_balanced(e, s + 1, b - 1); etree_tight(e, a, s, *l); tight_grouped(*l); etree_good(e, a, s, *l, 1); }
        Shape::Pre(_, r) => { etree_good(e, s + 2, b - 1, *r, 12); }
        Shape::Bin(_, op, l, r) => { etree_good(e, a, s, *l, prec(op)); etree_good(e, s + 2, b - 1, *r, prec(op) + 1); }
    }
}
proof fn tight_grouped(sh: Shape) requires tight(sh) ensures grouped(sh, 1) { }

// ---- all of them ----
/// the events when those before i have been read
spec fn on(e: Seq<Event>, f: Seq<Event>, i: int) -> bool {
    &&& f.len() == e.len()
    &&& forall|j: int| i <= j < e.len() ==> (#[trigger] f[j] == e[j] || f[j] == tomb())
    &&& forall|a: int, b: int, sh: Shape| #[trigger] bound(e, a, b, sh) ==> (i <= a ==> agree(e, f, a, b)) && (a < i <= root_of(sh) ==> f[root_of(sh)] == tomb())
}
/// nothing before an expression leads into it
proof fn avoids(e: Seq<Event>, f: Seq<Event>, i: int, a: int, b: int, t: int)
    requires f.len() == e.len(), 0 <= i < a, a <= t < b, unreached(e, a, b), forall|j: int| i <= j < e.len() ==> (#[trigger] f[j] == e[j] || f[j] == tomb()),
    ensures !reach(f, i, t),
    decreases e.len() - i,
{
    if reach(f, i, t) {
        match up(f, i) {
            Some(j) => {
                assert(f[i] == e[i]); assert(fp_of(e[i]) == fp_of(f[i]));
                if j < a { avoids(e, f, j, a, b, t); } else { reach_ge(f, j, t); }
            }
            None => {}
        }
    }
}
proof fn on_step(e: Seq<Event>, f: Seq<Event>, i: int)
    requires on(e, f, i), 0 <= i < e.len(),
    ensures on(e, if node(f[i]) { read(f, i) } else { f }, i + 1),
{
    let g = if node(f[i]) { read(f, i) } else { f };
    read_at(f, i, i);
    assert forall|j: int| i + 1 <= j < e.len() implies (#[trigger] g[j] == e[j] || g[j] == tomb()) by { read_at(f, i, j); assert(f[j] == e[j] || f[j] == tomb()); }
    assert forall|a: int, b: int, sh: Shape| #[trigger] bound(e, a, b, sh) implies (i + 1 <= a ==> agree(e, g, a, b)) && (a < i + 1 <= root_of(sh) ==> g[root_of(sh)] == tomb()) by {
        seg_root(e, a, b, sh);
        let s = root_of(sh);
        if i + 1 <= a {
            assert(agree(e, f, a, b));
            assert forall|j: int| a <= j < b implies #[trigger] e[j] == g[j] by { assert(e[j] == f[j]); if node(f[i]) { read_at(f, i, j); avoids(e, f, i, a, b, j); } }
        } else if i + 1 <= s {
            if a < i { read_at(f, i, s); }
            else {
                assert(agree(e, f, a, b));
                etree_same(e, f, a, b, sh);
                assert(e[s] == f[s]);
                assert(beyond(f, s, b));
                seg_replay(f, a, b, sh);
                read_at(f, i, s);
            }
        }
    }
}
/// the c-th of a Start and its parents
proof fn chain_nth(f: Seq<Event>, i: int, c: int) -> (s: int)
    requires 0 <= i < f.len(), 0 <= c < chain(f, i).len(),
    ensures reach(f, i, s), chain(f, s) == chain(f, i).skip(c), kind_of(f[s]) == chain(f, i)[c], kind_of(f[s]) != TOMBSTONE,
    decreases f.len() - i,
{
    let k: Seq<SyntaxKind> = if kind_of(f[i]) != TOMBSTONE { seq![kind_of(f[i])] } else { seq![] };
    if c < k.len() { assert(chain(f, i).skip(0) =~= chain(f, i)); i }
    else {
        let j = up(f, i)->0;
        let s = chain_nth(f, j, c - k.len());
        assert(chain(f, i).skip(c) =~= chain(f, j).skip(c - k.len()));
        s
    }
}
proof fn reach_starts(e: Seq<Event>, f: Seq<Event>, i: int, s: int)
    requires fwd_ok(e), 0 <= i, f.len() == e.len(), forall|j: int| i <= j < e.len() ==> (#[trigger] f[j] == e[j] || f[j] == tomb()), reach(f, i, s), is_start(f[i]),
    ensures is_start(f[s]),
    decreases e.len() - i,
{
    if i != s {
        match up(f, i) { Some(j) => { assert(f[i] == e[i]); assert(fwd_at(e, i)); assert(f[j] == e[j] || f[j] == tomb()); reach_starts(e, f, j, s); } None => {} }
    }
}
proof fn shifted(p: Seq<Bare>, q: Seq<Bare>, x: int)
    requires grouping(), ops_grouped(q), p.len() <= x < p.len() + q.len(), opens_op((p + q)[x]),
    ensures exists|t: Tree| #[trigger] tree_at(p + q, x, t),
{
    if !grouping() { return; }
    let y = x - p.len();
    assert((p + q)[x] == q[y]);
    let t = choose|t: Tree| #[trigger] tree_at(q, y, t);
    assert((p + q).subrange(x, x + flat(t).len()) =~= q.subrange(y, y + flat(t).len()));
    assert(tree_at(p + q, x, t));
}
proof fn all_grouped_from(e: Seq<Event>, f: Seq<Event>, i: int)
    requires fwd_ok(e), all_bound(e), on(e, f, i), 0 <= i <= e.len(),
    ensures ops_grouped(replay(f, i, e.len() as int)),
    decreases e.len() - i,
{
    if !grouping() { return; }
    let n = e.len() as int;
    if i < n {
        on_step(e, f, i);
        let g = if node(f[i]) { read(f, i) } else { f };
        all_grouped_from(e, g, i + 1);
        let p = if node(f[i]) { opens(chain(f, i)) } else { plain(f[i]) };
        let q = replay(g, i + 1, n);
        let l = replay(f, i, n);
        assert(l == p + q);
        assert forall|x: int| 0 <= x < l.len() && opens_op(#[trigger] l[x]) implies exists|t: Tree| #[trigger] tree_at(l, x, t) by {
            if x >= p.len() { shifted(p, q, x); }
            else {
                assert(l[x] == p[x]);
                assert(node(f[i]));
                let ks = chain(f, i);
                let c = ks.len() - 1 - x;
                let s = chain_nth(f, i, c);
                reach_starts(e, f, i, s);
                reach_ge(f, i, s);
                assert(f[s] == e[s] || f[s] == tomb());
                assert(op_at(e, s));
                let (a, b, sh) = choose|a: int, b: int, sh: Shape| #[trigger] bound(e, a, b, sh) && root_of(sh) == s;
                seg_root(e, a, b, sh);
                if i < a { avoids(e, f, i, a, b, s); }
                assert(a == i);
                assert(agree(e, f, a, b));
                etree_same(e, f, a, b, sh);
                assert(beyond(f, s, b));
                seg_replay(f, a, b, sh);
                outer_beyond(f, s, b);
                let t = etree(f, a, b, sh);
                etree_good(f, a, b, sh, 1);
                replay_split(f, i, b, n);
                assert(chain(f, s).len() == ks.len() - c);
                assert(outer(f, s).len() == x);
                assert(l.subrange(x, x + flat(t).len()) =~= flat(t));
                assert(tree_at(l, x, t));
            }
        }
    }
}
/// P05: a stream whose operations are grouped makes a tree whose operations are
pub proof fn all_grouped(e: Seq<Event>)
    requires fwd_ok(e), all_bound(e),
    ensures ops_grouped(replay(e, 0, e.len() as int)),
{
    assert forall|a: int, b: int, sh: Shape| #[trigger] bound(e, a, b, sh) implies 0 <= a by { seg_root(e, a, b, sh); }
    all_grouped_from(e, e, 0);
}
}
