//@include base.rs
//@include str.rs
//@include map.rs
//@include iter.rs
//@include tsize.rs
//@include textpos.rs
//@include lineindexspec.rs
//@retype impl Iterator<Item = TextRange> + '_ => Vec<TextRange>
//@shimfn FxHashMap::default -> VxMap::default
//@shim .partition_point -> vx_partition_point &
//@shim .chain -> vx_chain
//@shim .iter.copied -> vx_copied &
//@shim .clone -> vx_clone_iter &
//@shim .zip -> vx_zip
//@shim .skip -> vx_skip
//@shim .map -> vx_map
//@shim .filter -> vx_filter
//@shimfn iter::once -> vx_once
//@vecindex self.newlines
//@closure partition_point |&u32| bool
//@closure map |(u32,u32)| TextRange requires $0.0 <= $0.1
//@closure filter |&TextRange| bool
verus! {
broadcast use vx_str_fits;

pub assume_specification[ char::is_ascii ](c: &char) -> (r: bool) ensures r == ((*c as u32) < 128);
/// s.partition_point(f), of a list that f partitions (TRUSTED: std)
#[verifier::external_body]
pub fn vx_partition_point<T, F: Fn(&T) -> bool>(s: &[T], f: F) -> (r: usize)
    requires forall|t: &T| #[trigger] call_requires(f, (t,)),
        forall|i: int| 0 <= i < s@.len() ==> !call_ensures(f, (&#[trigger] s@[i],), true) || !call_ensures(f, (&s@[i],), false),
        forall|i: int, j: int| 0 <= i < j < s@.len() && call_ensures(f, (&#[trigger] s@[j],), true) ==> !call_ensures(f, (&#[trigger] s@[i],), false),
    ensures r <= s@.len(), forall|i: int| 0 <= i < r ==> call_ensures(f, (&#[trigger] s@[i],), true),
        forall|i: int| r <= i < s@.len() ==> call_ensures(f, (&#[trigger] s@[i],), false),
{ s.partition_point(f) }

//@fn li::Utf16Char::len ret=r
    requires self.start <= self.end,
    ensures r == self.end - self.start,
//@endfn
//@fn li::Utf16Char::len_utf16 ret=r
    requires self.start <= self.end,
    ensures r == (if self.end - self.start == 4 { 2int } else { 1 }),
//@endfn
//@fn li::LineIndex::new ret=r
    requires blen(text@) <= u32::MAX,
    ensures r.of(text@),
//@attr #[verifier::loop_isolation(false)]
//@locals utf16_lines utf16_chars newlines curr_row curr_col line c c_len
//@at start
    let ghost s = text@;
    proof { assert(s.take(0) =~= Seq::empty()); blen_empty(); assert(s.take(s.len() as int) =~= s); }
//@loop 0 iter=it
    invariant s == text@, blen(s) <= u32::MAX, it.seq() == s, 0 <= it.index@ <= s.len(),
        newlines@ =~= starts(s, it.index@), curr_row == blen(s.take(it.index@)), curr_col == col8(s, it.index@), line == line_no(s, it.index@),
        utf16_chars@ =~= wide(s, it.index@),
        forall|n: int| 0 <= n < it.index@ && #[trigger] line_end(s, n) ==> got(utf16_lines@, line_no(s, n) as u32) == wide(s, n),
        forall|n: int| 0 <= n < it.index@ && #[trigger] line_end(s, n) ==> 0 <= line_no(s, n) < line,
        forall|l: u32| #[trigger] utf16_lines@.contains_key(l) ==> l < line,
//@at loopstart 0
    proof { let n = it.index@; starts_props(s, n); starts_props(s, n + 1); blen_take(s, n); clen_bounds(s[n]); }
    let ghost m0 = utf16_lines@;
//@at loopend 0
    proof {
        let n = it.index@;
        assert forall|a: int| 0 <= a < n + 1 && #[trigger] line_end(s, a) implies got(utf16_lines@, line_no(s, a) as u32) == wide(s, a) && 0 <= line_no(s, a) < line by {
            starts_props(s, a);
            assert(line_no(s, n) <= n <= blen(s) <= u32::MAX);
            if a < n { assert(got(m0, line_no(s, a) as u32) == wide(s, a)); } else { assert(s[n] == '\n'); assert(got(utf16_lines@, line_no(s, n) as u32) =~= wide(s, n)); }
        }
    }
//@at end
    proof {
        assert forall|a: int| #[trigger] line_end(s, a) implies got(utf16_lines@, line_no(s, a) as u32) == wide(s, a) by { starts_props(s, a); }
    }
//@endfn

//@fn li::LineIndex::line_col ret=r
    requires self.wf(),
    ensures self.line_col_ok(offset, r),
//@at start
    proof {
        self.wf_props();
        let n = self.newlines@;
    }
//@at end
    proof {
        let n = self.newlines@;
        assert(n[line as int] <= offset); assert(line + 1 < n.len() ==> n[line + 1] > offset);
        assert forall|s: Seq<char>, k: int| self.of(s) && 0 <= k <= s.len() && #[trigger] blen(s.take(k)) == offset implies line == line_no(s, k) && col == col8(s, k) by {
            self.boundary(s, k);
        }
    }
//@endfn
//@fn li::LineIndex::offset ret=r
    requires self.wf(), line_col.line < self.newlines@.len(), self.newlines@[line_col.line as int] + line_col.col <= u32::MAX,
    ensures r == self.newlines@[line_col.line as int] + line_col.col,
//@endfn

// ---- columns ----
/// the excess of UTF-8 bytes over UTF-16 units of the first m wide characters
pub open spec fn total(ch: Seq<Utf16Char>, m: int) -> int decreases m {
    if m <= 0 { 0 } else { total(ch, m - 1) + (ch[m - 1].end - ch[m - 1].start) - (if ch[m - 1].end - ch[m - 1].start == 4 { 2int } else { 1 }) }
}
/// one after another
pub open spec fn in_order(ch: Seq<Utf16Char>) -> bool {
    &&& forall|i: int| 0 <= i < ch.len() ==> (#[trigger] ch[i]).start < ch[i].end
    &&& forall|i: int, j: int| 0 <= i < j < ch.len() ==> (#[trigger] ch[i]).end <= (#[trigger] ch[j]).start
}
proof fn total_bound(ch: Seq<Utf16Char>, m: int)
    requires in_order(ch), 0 <= m <= ch.len(),
    ensures 0 <= total(ch, m), m > 0 ==> total(ch, m) <= ch[m - 1].end, m == 0 ==> total(ch, m) == 0,
    decreases m,
{ if m > 0 { total_bound(ch, m - 1); } }
proof fn total_prefix(a: Seq<Utf16Char>, b: Seq<Utf16Char>, m: int)
    requires 0 <= m <= a.len() <= b.len(), b.take(a.len() as int) == a,
    ensures total(a, m) == total(b, m),
    decreases m,
{ if m > 0 { total_prefix(a, b, m - 1); assert(b.take(a.len() as int)[m - 1] == b[m - 1]); } }
proof fn total_push(p: Seq<Utf16Char>, x: Utf16Char)
    ensures p.push(x).take(p.len() as int) =~= p, total(p.push(x), p.len() as int) == total(p, p.len() as int),
        total(p.push(x), p.len() as int + 1) == total(p, p.len() as int) + (x.end - x.start) - (if x.end - x.start == 4 { 2int } else { 1 }),
{ assert(p.push(x).take(p.len() as int) =~= p); total_prefix(p, p.push(x), p.len() as int); }
/// columns, and the wide characters before a boundary
proof fn wide_props(s: Seq<char>, n: int)
    requires 0 <= n <= s.len(), blen(s) <= u32::MAX,
    ensures in_order(wide(s, n)), col8(s, n) == col16(s, n) + total(wide(s, n), wide(s, n).len() as int), 0 <= col8(s, n) <= blen(s.take(n)) <= u32::MAX,
        forall|j: int| 0 <= j < wide(s, n).len() ==> (#[trigger] wide(s, n)[j]).end <= col8(s, n),
        forall|j: int| 0 <= j < wide(s, n).len() ==> (#[trigger] wide(s, n)[j]).start < col16(s, n) + total(wide(s, n), j),
    decreases n,
{
    assert(s.take(0) =~= Seq::empty()); blen_empty();
    starts_props(s, n);
    if n > 0 {
        wide_props(s, n - 1); starts_props(s, n - 1); blen_take(s, n - 1); clen_bounds(s[n - 1]);
        let p = wide(s, n - 1); let q = wide(s, n); let l = p.len() as int;
        if s[n - 1] == '\n' {
            assert(q.len() == 0); assert(total(q, 0) == 0);
        } else if (s[n - 1] as u32) < 128 {
            assert(q == p);
        } else {
            let x = Utf16Char { start: col8(s, n - 1) as u32, end: (col8(s, n - 1) + clen(s[n - 1])) as u32 };
            assert(col8(s, n) == col8(s, n - 1) + clen(s[n - 1]));
            total_push(p, x);
            assert(q == p.push(x));
            assert forall|j: int| 0 <= j < q.len() implies (#[trigger] q[j]).start < col16(s, n) + total(q, j) by {
                if j < l { total_prefix(p, q, j); assert(q[j] == p[j]); }
            }
        }
    }
}
/// the wide characters of the line from a boundary on
proof fn wide_rest(s: Seq<char>, k: int, e: int)
    requires 0 <= k <= e <= s.len(), blen(s) <= u32::MAX, forall|i: int| k <= i < e ==> s[i] != '\n',
    ensures wide(s, k).len() <= wide(s, e).len(), wide(s, e).take(wide(s, k).len() as int) =~= wide(s, k),
        forall|j: int| wide(s, k).len() <= j < wide(s, e).len() ==> (#[trigger] wide(s, e)[j]).start >= col8(s, k),
        line_no(s, k) == line_no(s, e), col8(s, k) <= col8(s, e),
    decreases e - k,
{
    if k < e {
        wide_rest(s, k, e - 1); wide_props(s, e - 1); wide_props(s, e); blen_take(s, e - 1); clen_bounds(s[e - 1]);
        let p = wide(s, e - 1); let q = wide(s, e); let l = wide(s, k).len() as int;
        assert(q.take(l) =~= p.take(l));
        assert forall|j: int| l <= j < q.len() implies (#[trigger] q[j]).start >= col8(s, k) by { if j < p.len() { assert(q[j] == p[j]); } }
    }
}
/// the end of the line a boundary is on
spec fn eol(s: Seq<char>, k: int) -> int decreases s.len() - k { if k >= s.len() || k < 0 || s[k] == '\n' { k } else { eol(s, k + 1) } }
proof fn eol_props(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(),
    ensures k <= eol(s, k) <= s.len(), line_end(s, eol(s, k)), forall|i: int| k <= i < eol(s, k) ==> s[i] != '\n',
    decreases s.len() - k,
{ if k < s.len() && s[k] != '\n' { eol_props(s, k + 1); } }
impl LineIndex {
    /// the stored characters of the line of a boundary: those before it, then those after it
    proof fn line_chars(&self, s: Seq<char>, k: int)
        requires self.of(s), 0 <= k <= s.len(),
        ensures ({
            let ch = got(self.utf16_lines@, line_no(s, k) as u32); let m = wide(s, k).len() as int;
            &&& 0 <= m <= ch.len() && in_order(ch) && col8(s, k) == col16(s, k) + total(ch, m) && 0 <= line_no(s, k) <= u32::MAX && 0 <= col16(s, k) && col8(s, k) <= u32::MAX
            &&& forall|j: int| 0 <= j < m ==> (#[trigger] ch[j]).end <= col8(s, k)
            &&& forall|j: int| 0 <= j < m ==> (#[trigger] ch[j]).start < col16(s, k) + total(ch, j)
            &&& forall|j: int| m <= j < ch.len() ==> (#[trigger] ch[j]).start >= col8(s, k)
        }),
    {
        let e = eol(s, k); eol_props(s, k); wide_props(s, k); wide_props(s, e); wide_rest(s, k, e); starts_props(s, k);
        let p = wide(s, k); let q = wide(s, e); let m = p.len() as int;
        assert(line_end(s, e));
        total_prefix(p, q, m);
        assert forall|j: int| 0 <= j < m implies (#[trigger] q[j]).end <= col8(s, k) && q[j].start < col16(s, k) + total(q, j) by { assert(q.take(m)[j] == q[j]); total_prefix(p, q, j); }
    }
    /// every list of stored characters is in order
    proof fn line_in_order(&self, l: u32)
        requires self.wf(), l < self.newlines@.len(),
        ensures in_order(got(self.utf16_lines@, l)), forall|s: Seq<char>| #[trigger] self.of(s) ==> got(self.utf16_lines@, l).len() == 0 || got(self.utf16_lines@, l).last().end <= blen(s),
    {
        assert forall|s: Seq<char>| #[trigger] self.of(s) implies in_order(got(self.utf16_lines@, l)) && (got(self.utf16_lines@, l).len() == 0 || got(self.utf16_lines@, l).last().end <= blen(s)) by {
            let k = on_line(s, l as int, s.len() as int);
            self.line_chars(s, k); let e = eol(s, k); eol_props(s, k); wide_props(s, e); wide_rest(s, k, e); starts_props(s, e);
        }
    }
}
/// some character is on each line
proof fn on_line(s: Seq<char>, l: int, n: int) -> (k: int)
    requires 0 <= n <= s.len(), 0 <= l <= line_no(s, n),
    ensures 0 <= k <= n, line_no(s, k) == l,
    decreases n,
{ if n > 0 && l <= line_no(s, n - 1) { on_line(s, l, n - 1) } else { n } }
//@fn li::LineIndex::utf8_to_utf16_col ret=r
    requires self.wf(), line < self.newlines@.len(),
    ensures self.to_utf16_ok(line, col, r as int), r <= col,
//@attr #[verifier::loop_isolation(false)]
//@locals res utf16_chars c
//@at start
    let ghost ch = got(self.utf16_lines@, line);
    let ghost mut m: int = 0;
    proof { self.line_in_order(line); total_bound(ch, 0); }
//@loop 0 iter=it
    invariant_except_break m == it.index@,
    invariant it.seq().len() == ch.len(), forall|j: int| 0 <= j < ch.len() ==> *(#[trigger] it.seq()[j]) == ch[j], 0 <= m <= ch.len(),
        res == col - total(ch, m), forall|j: int| 0 <= j < m ==> (#[trigger] ch[j]).end <= col,
    ensures m == ch.len() || ch[m].end > col,
//@at loopstart 0
    proof { total_bound(ch, m + 1); total_bound(ch, m); assert(*c == ch[m]); }
//@at loopend 0
    proof { m = m + 1; }
//@at end
    proof {
        assert(res == col - total(ch, m)); total_bound(ch, m);
        assert forall|s: Seq<char>, k: int| #[trigger] self.of(s) && 0 <= k <= s.len() && line == line_no(s, k) && col == #[trigger] col8(s, k) implies res == col16(s, k) by {
            self.line_chars(s, k); let w = wide(s, k).len() as int;
            if w < m { assert(ch[w].end <= col); } else if m < w { assert(ch[m].end <= col); }
        }
    }
//@endfn
//@fn li::LineIndex::utf16_to_utf8_col ret=r
    requires self.wf(), line < self.newlines@.len(), self.to_utf8_pre(line, col),
    ensures self.to_utf8_ok(line, col, r as int),
//@attr #[verifier::loop_isolation(false)]
//@locals utf16_chars c
//@at start
    let ghost ch = got(self.utf16_lines@, line);
    let ghost mut m: int = 0;
    let ghost col0 = col as int;
    proof { self.line_in_order(line); total_bound(ch, 0); }
//@loop 0 iter=it
    invariant_except_break m == it.index@,
    invariant it.seq().len() == ch.len(), forall|j: int| 0 <= j < ch.len() ==> *(#[trigger] it.seq()[j]) == ch[j], 0 <= m <= ch.len(),
        col == col0 + total(ch, m), forall|j: int| 0 <= j < m ==> col0 + total(ch, j) > (#[trigger] ch[j]).start,
    ensures m == ch.len() || col <= ch[m].start,
//@at loopstart 0
    proof {
        total_bound(ch, m + 1); total_bound(ch, m); assert(*c == ch[m]);
        if col > c.start { assert(col0 + total(ch, m + 1) <= u32::MAX) by { self.room(ch, line, col0, m); } }
    }
//@at loopend 0
    proof { m = m + 1; }
//@at end
    proof {
        assert(col == col0 + total(ch, m)); total_bound(ch, m);
        assert forall|s: Seq<char>, k: int| #[trigger] self.of(s) && 0 <= k <= s.len() && line == line_no(s, k) && col0 == #[trigger] col16(s, k) implies col == col8(s, k) by {
            self.line_chars(s, k); let w = wide(s, k).len() as int;
            if w < m { assert(col0 + total(ch, w) > ch[w].start); } else if m < w { assert(ch[m].start < col0 + total(ch, m)); }
        }
    }
//@endfn
impl LineIndex {
    /// the UTF-8 column still fits
    proof fn room(&self, ch: Seq<Utf16Char>, line: u32, col0: int, m: int)
        requires self.wf(), line < self.newlines@.len(), ch == got(self.utf16_lines@, line), 0 <= m < ch.len(), col0 + total(ch, m) > ch[m].start,
            exists|s: Seq<char>| #[trigger] self.of(s) && (col0 + blen(s) <= u32::MAX || exists|k: int| 0 <= k <= s.len() && line == line_no(s, k) && col0 == #[trigger] col16(s, k)),
        ensures col0 + total(ch, m + 1) <= u32::MAX,
    {
        let s = choose|s: Seq<char>| #[trigger] self.of(s) && (col0 + blen(s) <= u32::MAX || exists|k: int| 0 <= k <= s.len() && line == line_no(s, k) && col0 == #[trigger] col16(s, k));
        self.line_in_order(line); total_bound(ch, m + 1);
        assert(ch[m].end <= ch.last().end);
        if col0 + blen(s) > u32::MAX {
            let k = choose|k: int| 0 <= k <= s.len() && line == line_no(s, k) && col0 == #[trigger] col16(s, k);
            self.line_chars(s, k); let w = wide(s, k).len() as int;
            if m < w { total_mono(ch, m + 1, w); } else { total_mono(ch, w, m); }
        }
    }
}
proof fn total_mono(ch: Seq<Utf16Char>, a: int, b: int)
    requires in_order(ch), 0 <= a <= b <= ch.len(),
    ensures total(ch, a) <= total(ch, b), b > a ==> total(ch, b) - total(ch, a) <= ch[b - 1].end - ch[a].start,
    decreases b - a,
{ if a < b { total_mono(ch, a, b - 1); } }
//@fn li::LineIndex::to_utf16 ret=r
    requires self.wf(), line_col.line < self.newlines@.len(),
    ensures r.line == line_col.line, self.to_utf16_ok(line_col.line, line_col.col, r.col as int),
//@endfn
//@fn li::LineIndex::to_utf8 ret=r
    requires self.wf(), line_col.line < self.newlines@.len(), self.to_utf8_pre(line_col.line, line_col.col),
    ensures r.line == line_col.line, self.to_utf8_ok(line_col.line, line_col.col, r.col as int),
//@endfn

// ---- splitting a range by lines ----
pub open spec fn chained(m: Seq<TextRange>) -> bool {
    &&& forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]).start <= m[i].end
    &&& forall|i: int| 0 <= i < m.len() - 1 ==> (#[trigger] m[i]).end == m[i + 1].start
}
/// non-empty ranges from a to b, end to end
pub open spec fn tiles(r: Seq<TextRange>, a: int, b: int) -> bool {
    &&& forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).start < r[i].end
    &&& forall|i: int| 0 <= i < r.len() - 1 ==> (#[trigger] r[i]).end == r[i + 1].start
    &&& if r.len() == 0 { a == b } else { r[0].start == a && r.last().end == b }
}
/// the range is split into its lines: the parts tile it, and end exactly at the line starts inside
pub open spec fn split(starts: Seq<u32>, r: Seq<TextRange>, a: int, b: int) -> bool {
    &&& tiles(r, a, b)
    &&& forall|i: int| 0 <= i < r.len() - 1 ==> starts.contains((#[trigger] r[i]).end)
    &&& forall|x: u32| a < x < b && #[trigger] starts.contains(x) ==> exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).end == x
}
proof fn chained_order(m: Seq<TextRange>, i: int, j: int)
    requires chained(m), 0 <= i < j < m.len(),
    ensures m[i].end <= m[j].start,
    decreases j - i,
{ if i + 1 < j { chained_order(m, i + 1, j); assert(m[i].end == m[i + 1].start); assert(m[i + 1].start <= m[i + 1].end); } else { assert(m[i].end == m[i + 1].start); } }
proof fn filter_tiles(m: Seq<TextRange>, p: spec_fn(TextRange) -> bool, a: int)
    requires chained(m), forall|i: int| 0 <= i < m.len() ==> p(#[trigger] m[i]) == (m[i].start != m[i].end), m.len() > 0 ==> m[0].start == a,
    ensures tiles(m.filter(p), a, if m.len() > 0 { m.last().end as int } else { a }),
        forall|i: int| 0 <= i < m.filter(p).len() ==> exists|j: int| 0 <= j < m.len() && #[trigger] m.filter(p)[i] == #[trigger] m[j],
    decreases m.len(),
{
    reveal(Seq::filter);
    if m.len() > 0 {
        let d = m.drop_last(); let f = d.filter(p);
        assert forall|i: int| 0 <= i < d.len() implies p(#[trigger] d[i]) == (d[i].start != d[i].end) by { assert(d[i] == m[i]); }
        assert(chained(d)) by { assert forall|i: int| 0 <= i < d.len() - 1 implies (#[trigger] d[i]).end == d[i + 1].start by { assert(m[i].end == m[i + 1].start); } }
        filter_tiles(d, p, a);
        let g = m.filter(p);
        assert(m.last() == m[m.len() - 1]);
        if d.len() > 0 { assert(m[d.len() - 1].end == m[d.len() - 1 + 1].start); }
        if p(m.last()) {
            assert(g == f.push(m.last()));
            assert forall|i: int| 0 <= i < g.len() - 1 implies (#[trigger] g[i]).end == g[i + 1].start by { if i + 1 < f.len() { assert(f[i].end == f[i + 1].start); } }
        } else { assert(g == f); }
        assert forall|i: int| 0 <= i < g.len() implies exists|j: int| 0 <= j < m.len() && #[trigger] g[i] == #[trigger] m[j] by {
            if i < f.len() { let j = choose|j: int| 0 <= j < d.len() && f[i] == d[j]; assert(m[j] == d[j]); } else { assert(g[i] == m[m.len() - 1]); }
        }
    }
}
proof fn tiles_cover(r: Seq<TextRange>, a: int, b: int, x: int) -> (i: int)
    requires tiles(r, a, b), a < x <= b,
    ensures 0 <= i < r.len(), r[i].start < x <= r[i].end,
    decreases r.len(),
{
    if x > r.last().start { r.len() - 1 } else {
        let d = r.drop_last();
        assert(r.len() >= 2);
        assert(r[r.len() - 2].end == r[r.len() - 2 + 1].start);
        assert forall|i: int| 0 <= i < d.len() - 1 implies (#[trigger] d[i]).end == d[i + 1].start by { assert(r[i].end == r[i + 1].start); }
        tiles_cover(d, a, r.last().start as int, x)
    }
}
spec fn cut_at(pts: Seq<u32>, m: Seq<TextRange>, p: spec_fn(TextRange) -> bool, r: Seq<TextRange>) -> bool {
    &&& m.len() == pts.len() - 1
    &&& forall|i: int| 0 <= i < m.len() ==> #[trigger] m[i] == (TextRange { start: pts[i], end: pts[i + 1] })
    &&& forall|i: int| 0 <= i < m.len() ==> p(#[trigger] m[i]) == (m[i].start != m[i].end)
    &&& r == m.filter(p)
}
spec fn points(pts: Seq<u32>, starts: Seq<u32>, lo: int, hi: int) -> bool {
    &&& 0 <= lo <= hi <= starts.len() && pts.len() == hi - lo + 2
    &&& forall|i: int, j: int| 0 <= i < j < pts.len() ==> (#[trigger] pts[i]) <= (#[trigger] pts[j])
    &&& forall|i: int| lo <= i < hi ==> (#[trigger] starts[i]) == pts[i - lo + 1]
    &&& forall|i: int| 0 <= i < lo ==> (#[trigger] starts[i]) <= pts[0]
    &&& forall|i: int| hi <= i < starts.len() ==> (#[trigger] starts[i]) >= pts.last()
}
spec fn part(pts: Seq<u32>, x: TextRange, j: int) -> bool { 0 <= j < pts.len() - 1 && x == (TextRange { start: pts[j], end: pts[j + 1] }) }
spec fn has_part(pts: Seq<u32>, x: TextRange) -> bool { exists|j: int| #[trigger] part(pts, x, j) }
spec fn cut_of(pts: Seq<u32>, r: Seq<TextRange>) -> bool { forall|i: int| 0 <= i < r.len() ==> has_part(pts, #[trigger] r[i]) }
proof fn split_inner(pts: Seq<u32>, r: Seq<TextRange>, starts: Seq<u32>, lo: int, hi: int, i: int)
    requires points(pts, starts, lo, hi), cut_of(pts, r), 0 <= i < r.len() - 1, tiles(r, pts[0] as int, pts.last() as int),
    ensures starts.contains(r[i].end),
{
    assert(r[i].start < r[i].end && r[i].end == r[i + 1].start && r[i + 1].start < r[i + 1].end);
    let j = choose|j: int| #[trigger] part(pts, r[i], j);
    let l = choose|l: int| #[trigger] part(pts, r[i + 1], l);
    if l <= j { assert(pts[l] <= pts[j]); }
    assert(starts[lo + j] == pts[j + 1]);
}
proof fn split_cut(pts: Seq<u32>, r: Seq<TextRange>, starts: Seq<u32>, lo: int, hi: int, x: u32)
    requires points(pts, starts, lo, hi), cut_of(pts, r), tiles(r, pts[0] as int, pts.last() as int), pts[0] < x < pts.last(), starts.contains(x),
    ensures exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).end == x,
{
    let q = starts.index_of(x);
    assert(starts[q] == x);
    assert(lo <= q < hi);
    assert(pts[q - lo + 1] == x);
    let i = tiles_cover(r, pts[0] as int, pts.last() as int, x as int);
    let j = choose|j: int| #[trigger] part(pts, r[i], j);
    assert(pts[j] < x <= pts[j + 1]);
    if q - lo + 1 <= j { assert(pts[q - lo + 1] <= pts[j]); }
    if j + 1 < q - lo + 1 { assert(pts[j + 1] <= pts[q - lo + 1]); }
    assert(r[i].end == x);
}
proof fn split_cut_of(pts: Seq<u32>, m: Seq<TextRange>, r: Seq<TextRange>, p: spec_fn(TextRange) -> bool)
    requires cut_at(pts, m, p, r), forall|i: int| 0 <= i < r.len() ==> exists|j: int| 0 <= j < m.len() && #[trigger] r[i] == #[trigger] m[j],
    ensures cut_of(pts, r),
{
    assert forall|i: int| 0 <= i < r.len() implies has_part(pts, #[trigger] r[i]) by {
        let j = choose|j: int| 0 <= j < m.len() && r[i] == m[j];
        assert(part(pts, r[i], j));
    }
}
proof fn split_tiles(pts: Seq<u32>, m: Seq<TextRange>, r: Seq<TextRange>, starts: Seq<u32>, lo: int, hi: int, p: spec_fn(TextRange) -> bool)
    requires points(pts, starts, lo, hi), cut_at(pts, m, p, r),
    ensures tiles(r, pts[0] as int, pts.last() as int), cut_of(pts, r),
{
    assert(chained(m)) by {
        assert forall|i: int| 0 <= i < m.len() implies (#[trigger] m[i]).start <= m[i].end by { assert(pts[i] <= pts[i + 1]); }
    }
    assert(m[0].start == pts[0]);
    assert(m.last() == m[m.len() - 1]);
    filter_tiles(m, p, pts[0] as int);
    split_cut_of(pts, m, r, p);
}
/// the parts between the points, empty ones left out
proof fn split_at(pts: Seq<u32>, m: Seq<TextRange>, r: Seq<TextRange>, starts: Seq<u32>, lo: int, hi: int, p: spec_fn(TextRange) -> bool)
    requires points(pts, starts, lo, hi), cut_at(pts, m, p, r),
    ensures split(starts, r, pts[0] as int, pts.last() as int),
{
    hide(points); hide(cut_at); hide(cut_of); hide(tiles);
    split_tiles(pts, m, r, starts, lo, hi, p);
    assert forall|i: int| 0 <= i < r.len() - 1 implies starts.contains((#[trigger] r[i]).end) by { split_inner(pts, r, starts, lo, hi, i); }
    assert forall|x: u32| pts[0] < x < pts.last() && #[trigger] starts.contains(x) implies exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).end == x by {
        split_cut(pts, r, starts, lo, hi, x);
    }
}
proof fn mk_points(n: Seq<u32>, lo: int, hi: int, a: u32, b: u32, pts: Seq<u32>)
    requires 0 <= lo <= hi <= n.len(), a <= b, pts == seq![a] + n.subrange(lo, hi) + seq![b],
        forall|i: int, j: int| 0 <= i < j < n.len() ==> n[i] < n[j],
        forall|i: int| 0 <= i < lo ==> n[i] < a, forall|i: int| lo <= i < n.len() ==> n[i] >= a,
        forall|i: int| 0 <= i < hi ==> n[i] <= b, forall|i: int| hi <= i < n.len() ==> n[i] > b,
    ensures points(pts, n, lo, hi), pts[0] == a, pts.last() == b, pts.len() >= 2, forall|i: int| 0 <= i < pts.len() - 1 ==> (#[trigger] pts[i]) <= pts[i + 1],
{
    assert(forall|i: int| 1 <= i < pts.len() - 1 ==> (#[trigger] pts[i]) == n[lo + i - 1]);
    assert forall|i: int, j: int| 0 <= i < j < pts.len() implies pts[i] <= pts[j] by {
        if 0 < i { assert(pts[i] == n[lo + i - 1]); } if j < pts.len() - 1 { assert(pts[j] == n[lo + j - 1]); }
    }
    assert forall|i: int| lo <= i < hi implies (#[trigger] n[i]) == pts[i - lo + 1] by { assert(pts[i - lo + 1] == n[lo + (i - lo + 1) - 1]); }
}
//@fn li::LineIndex::lines ret=r bindtail
    requires self.wf(), range.start <= range.end,
    ensures split(self.newlines@, r@, range.start as int, range.end as int),
//@locals lo hi all
//@at start
    hide(points); hide(split); hide(chained); hide(tiles);
    proof { self.wf_props(); }
//@at after_call partition_point 1
    proof { let n = self.newlines@; if hi < lo { assert(n[hi as int] > range.end); assert(n[hi as int] < range.start); } }
//@at before_call filter 0
    proof {
        let n = self.newlines@;
        assert(all@ == seq![range.start] + n.subrange(lo as int, hi as int) + seq![range.end]);
        mk_points(n, lo as int, hi as int, range.start, range.end, all@);
    }
//@at end
    proof {
        let pts = all@;
        assert(exists|m: Seq<TextRange>, p: spec_fn(TextRange) -> bool| vx_tail@ == #[trigger] m.filter(p) && cut_at(pts, m, p, vx_tail@));
        let (m, p) = choose|m: Seq<TextRange>, p: spec_fn(TextRange) -> bool| vx_tail@ == #[trigger] m.filter(p) && cut_at(pts, m, p, vx_tail@);
        split_at(pts, m, vx_tail@, self.newlines@, lo as int, hi as int, p);
    }
//@endfn
/// P07: an offset comes back from its position
fn offset_round_trip(ix: &LineIndex, offset: u32) -> (r: u32) requires ix.wf() ensures r == offset
{ ix.offset(ix.line_col(offset)) }
}
fn main() {}
