// ---- lineindexspec.rs: what LineIndex is an index of, and the contracts of its methods ----
//@file li crates/ide_db/src/line_index.rs
//@retype FxHashMap<u32, Vec<Utf16Char>> => VxMap<u32, Vec<Utf16Char>>
verus! {
//@type li::Utf16Char derive=Clone,Copy,PartialEq,Eq,Structural
//@type li::LineCol derive=Clone,Copy,PartialEq,Eq,Structural
//@type li::LineColUtf16 derive=Clone,Copy,PartialEq,Eq,Structural
//@type li::LineIndex derive=

/// the non-ASCII characters of the line, up to character n
pub open spec fn wide(s: Seq<char>, n: int) -> Seq<Utf16Char> decreases n {
    if n <= 0 { Seq::empty() } else if s[n - 1] == '\n' { Seq::empty() } else if (s[n - 1] as u32) < 128 { wide(s, n - 1) }
    else { wide(s, n - 1).push(Utf16Char { start: col8(s, n - 1) as u32, end: (col8(s, n - 1) + clen(s[n - 1])) as u32 }) }
}
/// character n ends its line
pub open spec fn line_end(s: Seq<char>, n: int) -> bool { 0 <= n <= s.len() && (n == s.len() || s[n] == '\n') }
pub open spec fn got(m: Map<u32, Vec<Utf16Char>>, l: u32) -> Seq<Utf16Char> { if m.contains_key(l) { m[l]@ } else { Seq::empty() } }
impl LineIndex {
    /// the index of some text
    pub open spec fn wf(&self) -> bool { exists|s: Seq<char>| self.of(s) }
    /// the index of a text
    pub open spec fn of(&self, s: Seq<char>) -> bool {
        &&& blen(s) <= u32::MAX
        &&& self.newlines@ == starts(s, s.len() as int)
        &&& forall|l: u32| #[trigger] self.utf16_lines@.contains_key(l) ==> l < self.newlines@.len()
        &&& forall|n: int| #[trigger] line_end(s, n) ==> got(self.utf16_lines@, line_no(s, n) as u32) == wide(s, n)
    }
}
pub proof fn starts_props(s: Seq<char>, n: int)
    requires 0 <= n <= s.len(), blen(s) <= u32::MAX,
    ensures starts(s, n).len() >= 1, starts(s, n).len() <= n + 1, starts(s, n)[0] == 0, starts(s, n).last() <= blen(s.take(n)), blen(s.take(n)) <= blen(s),
        forall|i: int, j: int| 0 <= i < j < starts(s, n).len() ==> starts(s, n)[i] < starts(s, n)[j],
        blen(s.take(n)) >= n, 0 <= col16(s, n) <= col8(s, n),
    decreases n,
{
    blen_mono(s, n, s.len() as int); blen_mono(s, 0, n); assert(s.take(s.len() as int) =~= s); assert(s.take(0) =~= Seq::empty()); blen_empty();
    if n > 0 { starts_props(s, n - 1); blen_take(s, n - 1); clen_bounds(s[n - 1]); blen_mono(s, n - 1, s.len() as int); }
}
// ---- offsets and positions ----
/// the lines of the whole text begin with those of a prefix, and the next begins after it
pub proof fn starts_prefix(s: Seq<char>, k: int, n: int)
    requires 0 <= k <= n <= s.len(), blen(s) <= u32::MAX,
    ensures starts(s, k).len() <= starts(s, n).len(), starts(s, n).take(starts(s, k).len() as int) =~= starts(s, k),
        forall|i: int| starts(s, k).len() <= i < starts(s, n).len() ==> #[trigger] starts(s, n)[i] > blen(s.take(k)),
    decreases n - k,
{
    if k < n {
        starts_prefix(s, k, n - 1); blen_mono(s, k, n); blen_mono(s, n, s.len() as int); assert(s.take(s.len() as int) =~= s);
        starts_props(s, k); starts_props(s, n - 1); starts_props(s, n);
        let p = starts(s, n - 1); let q = starts(s, n);
        assert forall|i: int| starts(s, k).len() <= i < q.len() implies #[trigger] q[i] > blen(s.take(k)) by {
            if i < p.len() { assert(q[i] == p[i]); }
        }
        assert(q.take(starts(s, k).len() as int) =~= p.take(starts(s, k).len() as int));
    }
}
impl LineIndex {
    pub proof fn wf_props(&self)
        requires self.wf(),
        ensures self.newlines@.len() >= 1, self.newlines@[0] == 0, self.newlines@.len() <= u32::MAX as int + 1,
            forall|i: int, j: int| 0 <= i < j < self.newlines@.len() ==> self.newlines@[i] < self.newlines@[j],
            self.newlines@.len() <= u32::MAX || self.newlines@.len() == u32::MAX as int + 1,
    { let s = choose|s: Seq<char>| self.of(s); starts_props(s, s.len() as int); assert(s.take(s.len() as int) =~= s); }
    /// P07: the line of an offset is the number of newlines before it, the column the distance to the line's start
    pub proof fn boundary(&self, s: Seq<char>, k: int)
        requires self.of(s), 0 <= k <= s.len(),
        ensures self.newlines@.len() > line_no(s, k) >= 0, self.newlines@[line_no(s, k)] + col8(s, k) == blen(s.take(k)), 0 <= col8(s, k),
            blen(s.take(k)) <= u32::MAX,
            forall|i: int| 0 <= i <= line_no(s, k) ==> self.newlines@[i] <= blen(s.take(k)),
            forall|i: int| line_no(s, k) < i < self.newlines@.len() ==> #[trigger] self.newlines@[i] > blen(s.take(k)),
    {
        starts_props(s, k); starts_prefix(s, k, s.len() as int); starts_props(s, s.len() as int);
        let a = starts(s, k); let b = starts(s, s.len() as int);
        assert(b[a.len() - 1] == b.take(a.len() as int)[a.len() - 1]);
    }
}

impl LineIndex {
    /// P07: the position of an offset
    pub open spec fn line_col_ok(&self, offset: u32, r: LineCol) -> bool {
        &&& r.line < self.newlines@.len() && self.newlines@[r.line as int] + r.col == offset
        &&& r.line + 1 < self.newlines@.len() ==> offset < self.newlines@[r.line + 1]
        &&& forall|s: Seq<char>, k: int| self.of(s) && 0 <= k <= s.len() && #[trigger] blen(s.take(k)) == offset ==> r.line == line_no(s, k) && r.col == col8(s, k)
    }
    /// P07: the UTF-16 column of a boundary
    pub open spec fn to_utf16_ok(&self, line: u32, col: u32, r: int) -> bool {
        forall|s: Seq<char>, k: int| #[trigger] self.of(s) && 0 <= k <= s.len() && line == line_no(s, k) && col == #[trigger] col8(s, k) ==> r == col16(s, k)
    }
    /// the UTF-16 column is that of a boundary, or the text leaves room for it
    pub open spec fn to_utf8_pre(&self, line: u32, col: u32) -> bool {
        exists|s: Seq<char>| #[trigger] self.of(s) && (col + blen(s) <= u32::MAX || exists|k: int| 0 <= k <= s.len() && line == line_no(s, k) && col == #[trigger] col16(s, k))
    }
    /// P07: the UTF-8 column of a boundary
    pub open spec fn to_utf8_ok(&self, line: u32, col: u32, r: int) -> bool {
        forall|s: Seq<char>, k: int| #[trigger] self.of(s) && 0 <= k <= s.len() && line == line_no(s, k) && col == #[trigger] col16(s, k) ==> r == col8(s, k)
    }
}
}
