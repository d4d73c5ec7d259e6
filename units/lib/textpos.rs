// ---- textpos.rs: lines and columns of a text ----
verus! {
// ---- the lines of a text, over its first n characters ----
/// the byte offsets at which lines start
pub open spec fn starts(s: Seq<char>, n: int) -> Seq<u32> decreases n {
    if n <= 0 { seq![0u32] } else { let p = starts(s, n - 1); if s[n - 1] == '\n' { p.push(blen(s.take(n)) as u32) } else { p } }
}
/// the number of newlines before character n
pub open spec fn line_no(s: Seq<char>, n: int) -> int { starts(s, n).len() - 1 }
/// the byte distance from the start of the line
pub open spec fn col8(s: Seq<char>, n: int) -> int { blen(s.take(n)) - starts(s, n).last() }
/// the UTF-16 units from the start of the line
pub open spec fn col16(s: Seq<char>, n: int) -> int decreases n {
    if n <= 0 { 0 } else if s[n - 1] == '\n' { 0 } else { col16(s, n - 1) + (if clen(s[n - 1]) == 4 { 2int } else { 1 }) }
}
}
