// ---- replayspec.rs: what a stream of events asks the tree builder for ----
verus! {
/// what an event other than a Start asks for
pub open spec fn plain(e: Event) -> Seq<Bare> {
    match e { Event::Finish => seq![Bare::Close], Event::Token { kind, .. } => bare_tok(kind), _ => seq![] }
}
/// the next parent of the Start at i, if it has one
pub open spec fn up(e: Seq<Event>, i: int) -> Option<int> {
    match fp_of(e[i]) { Some(d) => if d >= 1 && i + d < e.len() { Some(i + d) } else { None }, None => None }
}
/// the kind at i, then that of its parent, its parent's parent, ...; abandoned ones left out
pub open spec fn chain(e: Seq<Event>, i: int) -> Seq<SyntaxKind>
    decreases e.len() - i
{
    if i < 0 || i >= e.len() { seq![] } else {
        (if kind_of(e[i]) != TOMBSTONE { seq![kind_of(e[i])] } else { seq![] })
            + match up(e, i) { Some(j) => chain(e, j), None => seq![] }
    }
}
/// the events after the Start at i and all its parents were read
pub open spec fn read(e: Seq<Event>, i: int) -> Seq<Event>
    decreases e.len() - i
{
    if i < 0 || i >= e.len() { e } else { match up(e, i) { Some(j) => read(e.update(i, tomb()), j), None => e.update(i, tomb()) } }
}
/// nodes opened, the last of the list first
pub open spec fn opens(ks: Seq<SyntaxKind>) -> Seq<Bare> { Seq::new(ks.len(), |j: int| Bare::Open(ks[ks.len() - 1 - j])) }
/// what the events from i up to b ask for: a Start opens its node inside those of its parents; and what is then left of the events
pub open spec fn replay(e: Seq<Event>, i: int, b: int) -> Seq<Bare>
    decreases b - i
{
    if i < 0 || i >= b || b > e.len() { seq![] }
    else if node(e[i]) { opens(chain(e, i)) + replay(read(e, i), i + 1, b) }
    else { plain(e[i]) + replay(e, i + 1, b) }
}
pub open spec fn left(e: Seq<Event>, i: int, b: int) -> Seq<Event>
    decreases b - i
{
    if i < 0 || i >= b || b > e.len() { e }
    else if node(e[i]) { left(read(e, i), i + 1, b) }
    else { left(e, i + 1, b) }
}
pub open spec fn same_from(e: Seq<Event>, f: Seq<Event>, i: int) -> bool { e.len() == f.len() && forall|j: int| i <= j < e.len() ==> #[trigger] e[j] == f[j] }
pub proof fn read_len(e: Seq<Event>, i: int)
    ensures read(e, i).len() == e.len(), forall|j: int| 0 <= j < i && j < e.len() ==> #[trigger] read(e, i)[j] == e[j], 0 <= i < e.len() ==> read(e, i)[i] == tomb(),
    decreases e.len() - i,
{ if 0 <= i < e.len() { match up(e, i) { Some(j) => { read_len(e.update(i, tomb()), j); } None => {} } } }
pub proof fn chain_same(e: Seq<Event>, f: Seq<Event>, i: int)
    requires same_from(e, f, i), 0 <= i,
    ensures chain(e, i) == chain(f, i),
    decreases e.len() - i,
{ if i < e.len() { assert(e[i] == f[i]); match up(e, i) { Some(j) => { chain_same(e, f, j); } None => {} } } }
pub proof fn read_same(e: Seq<Event>, f: Seq<Event>, i: int, k: int)
    requires same_from(e, f, k), 0 <= k <= i,
    ensures same_from(read(e, i), read(f, i), k),
    decreases e.len() - i,
{
    if i < e.len() {
        assert(e[i] == f[i]);
        assert(same_from(e.update(i, tomb()), f.update(i, tomb()), k));
        match up(e, i) { Some(j) => { read_same(e.update(i, tomb()), f.update(i, tomb()), j, k); } None => {} }
    }
}
/// events already passed do not matter
pub proof fn replay_same(e: Seq<Event>, f: Seq<Event>, i: int, b: int)
    requires same_from(e, f, i), 0 <= i,
    ensures replay(e, i, b) == replay(f, i, b),
    decreases b - i,
{
    if i < b && b <= e.len() {
        assert(e[i] == f[i]);
        if node(e[i]) {
            chain_same(e, f, i); read_same(e, f, i, i);
            assert(same_from(read(e, i), read(f, i), i + 1));
            replay_same(read(e, i), read(f, i), i + 1, b);
        } else { replay_same(e, f, i + 1, b); }
    }
}
}
