// ---- evspec.rs: the event stream between the parser and the tree builder ----
//@file ev crates/parser/src/event.rs
//@file pl crates/parser/src/lib.rs noinline
//@strip event
verus! {
//@type pl::ParseError derive=
//@type ev::Event derive=

/// a Start that stands for a node of the tree (not abandoned, not still open)
pub open spec fn node(e: Event) -> bool { match e { Event::Start { kind, .. } => kind != TOMBSTONE, _ => false } }
pub open spec fn is_start(e: Event) -> bool { e is Start }
pub open spec fn kind_of(e: Event) -> SyntaxKind { match e { Event::Start { kind, .. } => kind, Event::Token { kind, .. } => kind, _ => TOMBSTONE } }
/// where the parent recorded in a Start is: its distance, or none
pub open spec fn fp_of(e: Event) -> Option<u32> { match e { Event::Start { forward_parent, .. } => forward_parent, _ => None } }
pub open spec fn tomb() -> Event { Event::Start { kind: TOMBSTONE, forward_parent: None } }
/// nodes opened and not closed by the first i events, in the order of the events
pub open spec fn depth(e: Seq<Event>, i: int) -> int
    decreases i
{ if i <= 0 { 0 } else { depth(e, i - 1) + if node(e[i - 1]) { 1int } else if e[i - 1] is Finish { -1 } else { 0 } } }
/// a recorded parent is a later Start
pub open spec fn fwd_at(e: Seq<Event>, i: int) -> bool {
    match fp_of(e[i]) { Some(d) => d >= 1 && i + d < e.len() && is_start(e[i + d]), None => true }
}
pub open spec fn fwd_ok(e: Seq<Event>) -> bool { forall|i: int| 0 <= i < e.len() ==> #[trigger] fwd_at(e, i) }
/// nothing has the Start at `pos` for its parent
pub open spec fn unpointed(e: Seq<Event>, pos: int) -> bool {
    forall|i: int| 0 <= i < e.len() ==> match #[trigger] fp_of(e[i]) { Some(d) => i + d != pos, None => true }
}
/// kinds of the token events among the first n
pub open spec fn taken(e: Seq<Event>, n: int) -> Seq<SyntaxKind>
    decreases n
{ if n <= 0 { seq![] } else if e[n - 1] is Token { taken(e, n - 1).push(kind_of(e[n - 1])) } else { taken(e, n - 1) } }
/// kinds of the tokens among the first n that get an event: all but blanks and comments, and the first whatever it is
pub open spec fn due(ts: Seq<Token>, n: int) -> Seq<SyntaxKind>
    decreases n
{ if n <= 0 { seq![] } else if n == 1 || !trivia(ts[n - 1].kind) { due(ts, n - 1).push(ts[n - 1].kind) } else { due(ts, n - 1) } }
/// an event may call an integer an address
pub open spec fn kind_fits(token: SyntaxKind, event: SyntaxKind) -> bool { event == token || (token == INTEGER_NUMBER && event == DIEM_ADDRESS) }
pub open spec fn kinds_fit(ts: Seq<SyntaxKind>, es: Seq<SyntaxKind>) -> bool {
    ts.len() == es.len() && forall|i: int| 0 <= i < ts.len() ==> kind_fits(#[trigger] ts[i], es[i])
}
pub open spec fn one_each(e: Seq<Event>) -> bool {
    forall|i: int| 0 <= i < e.len() ==> match #[trigger] e[i] { Event::Token { kind, n_raw_tokens } => n_raw_tokens == 1 && kind != EOF, _ => true }
}
/// a complete stream for the tokens `ts`: one SOURCE_FILE node around everything, everything inside closed,
/// a token event for every significant token but the end of the file, in order
pub open spec fn whole(e: Seq<Event>, ts: Seq<Token>) -> bool {
    let n = e.len() as int;
    &&& n >= 2
    &&& e[0] == (Event::Start { kind: SOURCE_FILE, forward_parent: None })
    &&& e[n - 1] is Finish
    &&& depth(e, n) == 0
    &&& forall|i: int| 0 < i < n ==> #[trigger] depth(e, i) >= 1
    &&& fwd_ok(e)
    &&& one_each(e)
    &&& ts.len() > 0 && ts[ts.len() - 1].kind == EOF
    &&& forall|i: int| 0 <= i < ts.len() - 1 ==> (#[trigger] ts[i]).kind != EOF
    &&& kinds_fit(due(ts, ts.len() as int).drop_last(), taken(e, n))
    &&& trivia(ts[0].kind) ==> e[1] is Token
}
}
