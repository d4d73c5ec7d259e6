//@include base.rs
//@include str.rs
//@include kinds.rs
//@include lexspec.rs
//@include litprefix.rs
//@file lx crates/parser/src/lexer.rs
//@strip lexer
//@strindex all
//@shim .starts_with -> vx_starts_with - 1
//@shim .chars.position -> vx_chars_position
//@shim .chars.next -> vx_first_char
//@shim .chars -> vx_chars
//@shim .find -> vx_str_find - 1
//@shim .char_indices.find -> vx_char_indices_find
//@shim .lines.next -> vx_first_line
//@closure position |char| bool
//@closure unwrap_or_else || usize
//@closure find |char| bool
//@closure find/tuple |&(usize, char)| bool
//@subst ch.clone() =>> *ch
verus! {
broadcast use {vx_str_fits, cidx_def};

/// str.lines().next() (TRUSTED: std)
#[verifier::external_body]
fn vx_first_line<'a>(s: &'a str) -> (r: Option<&'a str>)
    ensures match r { Some(l) => s@.len() > 0 && l@ == s@.take(line_len(s@)), None => s@.len() == 0 },
{ s.lines().next() }

/// `run` is characterised by its first failure.
proof fn run_is(s: Seq<char>, p: spec_fn(char) -> bool, n: int)
    requires 0 <= n <= s.len(), forall|i: int| 0 <= i < n ==> p(#[trigger] s[i]), n < s.len() ==> !p(s[n]),
    ensures run(s, p) == n,
    decreases n,
{
    if n > 0 {
        assert forall|i: int| 0 <= i < n - 1 implies p(#[trigger] s.skip(1)[i]) by { assert(s.skip(1)[i] == s[i + 1]); }
        run_is(s.skip(1), p, n - 1);
        assert(p(s[0]));
    }
}
proof fn run_props(s: Seq<char>, p: spec_fn(char) -> bool)
    ensures 0 <= run(s, p) <= s.len(), forall|i: int| 0 <= i < run(s, p) ==> p(#[trigger] s[i]), run(s, p) < s.len() ==> !p(s[run(s, p)]),
    decreases s.len(),
{
    if s.len() > 0 && p(s[0]) {
        run_props(s.skip(1), p);
        assert forall|i: int| 0 <= i < run(s, p) implies p(#[trigger] s[i]) by { if i > 0 { assert(s[i] == s.skip(1)[i - 1]); } }
    }
}
proof fn closing_bound(s: Seq<char>)
    ensures closing(s) is Some ==> 0 <= closing(s)->0 < s.len() && s[closing(s)->0] == '"',
    decreases s.len(),
{
    if s.len() > 0 {
        if s[0] == '\\' { if s.len() > 1 { closing_bound(s.skip(2)); } } else if s[0] != '"' { closing_bound(s.skip(1)); }
    }
}
/// All characters of the class are ASCII: its runs have as many bytes as characters.
proof fn run_ascii(s: Seq<char>, p: spec_fn(char) -> bool)
    requires forall|c: char| #[trigger] p(c) ==> (c as u32) < 128,
    ensures 0 <= run(s, p) <= s.len(), blen(s.take(run(s, p))) == run(s, p), cb(s, run(s, p)), cidx(s, run(s, p)) == run(s, p),
        forall|i: int| 0 <= i < run(s, p) ==> p(#[trigger] s[i]), run(s, p) < s.len() ==> !p(s[run(s, p)]),
{
    run_props(s, p);
    ascii_prefix(s, run(s, p));
}

//@fn gen::SyntaxKind::from_keyword ret=r
    ensures r == keyword(ident@)
//@at start
    broadcast use vx_str_ext;
//@endfn
/// How a search for the first character outside an ASCII class gives its run.
proof fn run_pos(s: Seq<char>, p: spec_fn(char) -> bool, r: int)
    requires
        forall|c: char| #[trigger] p(c) ==> (c as u32) < 128,
        ({ &&& 0 <= r < s.len() &&& !p(s[r]) &&& forall|j: int| 0 <= j < r ==> p(#[trigger] s[j]) })
            || ({ &&& r == blen(s) &&& forall|j: int| 0 <= j < s.len() ==> p(#[trigger] s[j]) }),
    ensures run(s, p) == r, r <= s.len(), blen(s.take(r)) == r, cb(s, r), cidx(s, r) == r, forall|i: int| 0 <= i < r ==> p(#[trigger] s[i]),
{
    if forall|j: int| 0 <= j < s.len() ==> p(#[trigger] s[j]) {
        ascii_prefix(s, s.len() as int); assert(s.take(s.len() as int) =~= s);
        run_is(s, p, s.len() as int);
        if r != blen(s) { assert(p(s[r])); }
    } else { run_is(s, p, r); }
    run_ascii(s, p);
}
/// A byte offset within a string is below the string's length.
proof fn cb_room(s: Seq<char>, n: int)
    requires cb(s, n),
    ensures n + blen(s.skip(cidx(s, n))) == blen(s), n + s.len() - cidx(s, n) <= blen(s), 0 <= n <= blen(s), 0 <= cidx(s, n) <= s.len(),
{
    let k = cidx(s, n);
    cidx_skip(s, k, 0);
    blen_bounds(s.skip(k)); blen_bounds(s.take(k));
}

//@fn lx::get_name_len ret=r bindtail
    ensures r == run(text@, |c: char| is_word(c)), r <= text@.len(), blen(text@.take(r as int)) == r, cb(text@, r as int), cidx(text@, r as int) == r,
        forall|i: int| 0 <= i < r ==> is_word(#[trigger] text@[i])
//@at end
    proof { run_pos(text@, |c: char| is_word(c), vx_tail as int); }
//@endfn
//@fn lx::get_number_maybe_with_suffix ret=r
    requires cb(text@, num_text_len as int),
    ensures r.0 == INTEGER_NUMBER, r.1 == num_text_len + suffix(text@.skip(cidx(text@, num_text_len as int))), r.1 <= blen(text@),
//@at start
    broadcast use group_lits;
    proof { cb_room(text@, num_text_len as int); }
//@endfn
//@fn lx::get_decimal_number ret=r
    ensures r.0 == INTEGER_NUMBER, r.1 == run(text@, |c: char| is_digit(c)) + suffix(text@.skip(run(text@, |c: char| is_digit(c)))), r.1 <= blen(text@),
//@locals num_text_len
//@at before_call get_number_maybe_with_suffix 0
    proof { run_pos(text@, |c: char| is_digit(c), num_text_len as int); }
//@endfn
//@fn lx::get_hex_number ret=r
    ensures r.0 == INTEGER_NUMBER, r.1 == run(text@, |c: char| is_hex(c)) + suffix(text@.skip(run(text@, |c: char| is_hex(c)))), r.1 <= blen(text@),
//@locals num_text_len
//@at before_call get_number_maybe_with_suffix 0
    proof {
        if cb(text@, num_text_len as int) && cidx(text@, num_text_len as int) < text@.len() {
            assert forall|j: int| 0 <= j < cidx(text@, num_text_len as int) implies (#[trigger] text@[j] as u32) < 128 by { }
            ascii_prefix(text@, cidx(text@, num_text_len as int));
        }
        run_pos(text@, |c: char| is_hex(c), num_text_len as int);
    }
//@endfn
//@fn lx::get_string_len ret=r
    ensures match r { Some(n) => closing(text@) is Some && n == blen(text@.take(closing(text@)->0)), None => closing(text@) is None }
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::allow_complex_invariants]
//@locals pos iter
//@loop 0
    invariant
        iter.rest().len() <= text@.len(), iter.rest() == text@.skip(text@.len() - iter.rest().len()),
        pos == blen(text@.take(text@.len() - iter.rest().len())),
        match closing(iter.rest()) { Some(n) => closing(text@) == Some(n + text@.len() - iter.rest().len()), None => closing(text@) is None },
    ensures closing(text@) is None,
    decreases iter.rest().len(),
//@at start
    proof { assert(text@.skip(0) =~= text@); assert(text@.take(0) =~= Seq::empty()); blen_empty(); }
//@at loopstart 0
    proof {
        let k = text@.len() - iter.rest().len() - 1;
        assert(text@.skip(k).skip(1) =~= text@.skip(k + 1));
        blen_take(text@, k);
        blen_bounds(text@);
        blen_mono(text@, k + 1, text@.len() as int);
        assert(text@.take(text@.len() as int) =~= text@);
        if k + 1 < text@.len() {
            assert(text@.skip(k).skip(2) =~= text@.skip(k + 2));
            assert(text@.skip(k + 1).skip(1) =~= text@.skip(k + 2));
            blen_take(text@, k + 1); blen_mono(text@, k + 2, text@.len() as int); }
    }
//@endfn
/// A string literal starts on a line of at least two characters; bytes of its parts.
proof fn string_lit(s: Seq<char>, q: char)
    requires p2(s, q, '"'), q == 'x' || q == 'b',
    ensures
        2 <= line_len(s) <= s.len(), cb(s.take(line_len(s)), 2), cidx(s.take(line_len(s)), 2) == 2,
        blen(s.take(line_len(s))) == 2 + blen(s.take(line_len(s)).skip(2)),
        match closing(s.take(line_len(s)).skip(2)) {
            Some(n) => 0 <= n && n + 3 <= line_len(s) && blen(s.take(n + 3)) == 3 + blen(s.take(line_len(s)).skip(2).take(n)) && blen(s.take(n + 3)) <= blen(s),
            None => true,
        },
{
    let p = |c: char| c != '\n';
    run_props(s, p);
    if run(s, p) < 2 { assert(p(s[run(s, p)])); }
    let l = s.take(line_len(s));
    ascii_prefix(l, 2);
    cidx_skip(l, 2, 0);
    let b = l.skip(2);
    closing_bound(b);
    if closing(b) is Some {
        let n = closing(b)->0;
        ascii_prefix(s, 2);
        cidx_skip(s, 2, n + 1);
        assert(s.skip(2).take(n + 1) =~= b.take(n + 1));
        blen_take(b, n);
        clen_bounds('"');
        blen_mono(s, n + 3, s.len() as int); assert(s.take(s.len() as int) =~= s);
    }
}
/// The end of the first line, found by scanning for the newline.
proof fn comment_end(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(), forall|j: int| 0 <= j < k ==> #[trigger] s[j] != '\n', k < s.len() ==> s[k] == '\n',
    ensures run(s, |c: char| c != '\n') == k, k < s.len() ==> blen(s.take(k + 1)) == blen(s.take(k)) + 1 && blen(s.take(k + 1)) <= blen(s),
{
    run_is(s, |c: char| c != '\n', k);
    if k < s.len() { blen_take(s, k); clen_bounds(s[k]); blen_mono(s, k + 1, s.len() as int); assert(s.take(s.len() as int) =~= s); }
}

proof fn number_extent(s: Seq<char>)
    requires s.len() > 0, is_digit(s[0]),
    ensures 1 <= number(s) <= s.len(), blen(s.take(number(s))) == number(s),
        p2(s, '0', 'x') && s.len() == 2 ==> run(s, |c: char| is_digit(c)) == 1 && suffix(s.skip(1)) == 0,
{
    let h = s.skip(2);
    let hx = |c: char| is_hex(c);
    let dg = |c: char| is_digit(c);
    run_props(h, hx); run_props(s, dg);
    if p2(s, '0', 'x') {
        let n = run(h, hx);
        let m = number(s);
        assert(h.skip(n).len() == h.len() - n);
        assert forall|i: int| 0 <= i < m implies (#[trigger] s[i] as u32) < 128 by {
            if i >= 2 { assert(s[i] == h[i - 2]); if i - 2 >= n { assert(h.skip(n)[i - 2 - n] == h[i - 2]); } else { assert(hx(h[i - 2])); } }
        }
        ascii_prefix(s, m);
        if s.len() == 2 { run_is(s, dg, 1); }
    } else {
        let n = run(s, dg);
        let m = number(s);
        assert(s.skip(n).len() == s.len() - n);
        assert forall|i: int| 0 <= i < m implies (#[trigger] s[i] as u32) < 128 by {
            if i >= n { assert(s.skip(n)[i - n] == s[i]); } else { assert(dg(s[i])); }
        }
        if n == 0 { assert(!dg(s[0])); }
        ascii_prefix(s, m);
    }
}
/// "&mut" is followed by no further word character exactly when the word after "&" has three characters.
proof fn amp_mut(s: Seq<char>)
    requires p4(s, '&', 'm', 'u', 't'),
    ensures run(s.skip(1), |c: char| is_word(c)) == 3 <==> !(s.len() > 4 && is_word(s[4])),
{
    let t = s.skip(1);
    let w = |c: char| is_word(c);
    run_props(t, w);
    assert(t[0] == 'm' && t[1] == 'u' && t[2] == 't');
    if s.len() > 4 { assert(t[3] == s[4]); }
    let r = run(t, w);
    if r < 3 { assert(w(t[r])); }
    if r > 3 { assert(w(t[3])); }
}

//@fn lx::find_token ret=r
    ensures
        find_token_ok(text@, r),
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::allow_complex_invariants]
//@locals c tok len num_space_chars remaining_text res pos is_hex line last_quote token
//@attr #[verifier::rlimit(40)]
//@at start
    hide(run); hide(closing); hide(line_len); hide(encode_utf8); hide(keyword);
    broadcast use group_lits;
    proof {
        let s = text@;
        blen_bounds(s); cidx_zero(s);
        assert(s.take(s.len() as int) =~= s); assert(s.take(0) =~= Seq::empty());
        if s.len() > 0 { blen_take(s, 0); clen_bounds(s[0]); }
        if s.len() > 1 { blen_take(s, 1); clen_bounds(s[1]); cidx_unique(s, 1); cidx_unique(s, 2); }
        if s.len() > 2 { blen_take(s, 2); clen_bounds(s[2]); }
        if s.len() > 3 { blen_take(s, 3); clen_bounds(s[3]); }
        run_props(s, |c: char| c != '\n');
        run_ascii(s, |c: char| is_ws(c));
        if s.len() > 0 && is_digit(s[0]) { number_extent(s); }
        run_ascii(s, |c: char| is_word(c));
        if s.len() > 0 && is_alpha(s[0]) { assert(is_word(s[0])); }
        if p4(s, '&', 'm', 'u', 't') { amp_mut(s); }
        if p2(s, 'x', '"') { string_lit(s, 'x'); }
        if p2(s, 'b', '"') { string_lit(s, 'b'); }
    }
//@at after_call find 0 optional
    proof {
        match res {
            Some(x) => comment_end(text@, cidx(text@, x.0 as int)),
            None => comment_end(text@, text@.len() as int),
        }
    }
//@loop 0
    invariant 1 <= num_space_chars <= text@.len(), forall|i: int| 0 <= i < num_space_chars ==> is_ws(#[trigger] text@[i]),
        blen(text@.take(num_space_chars as int)) == num_space_chars, cb(text@, num_space_chars as int), cidx(text@, num_space_chars as int) == num_space_chars,
    ensures num_space_chars == run(text@, |c: char| is_ws(c)),
    decreases text@.len() - num_space_chars,
//@at loopstart 0
    broadcast use group_lits;
    proof {
        blen_bounds(text@);
        if num_space_chars < text@.len() { 
            assert(text@.skip(num_space_chars as int)[0] == text@[num_space_chars as int]);
            if is_ws(text@[num_space_chars as int]) { ascii_prefix(text@, num_space_chars + 1); } else { run_is(text@, |c: char| is_ws(c), num_space_chars as int); }
        } else { run_is(text@, |c: char| is_ws(c), num_space_chars as int); }
    }
//@endfn
}
fn main(){}
