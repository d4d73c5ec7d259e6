//! lib/str.rs, lib/bytes.rs, lib/utf8.rs and the string shims of the units
use crate::*;
const A: &[&str] = &["a", "b", ".", "/", "\n", "\r", "\r\n", " ", "é", "ß", "漢", "😀", "0", "./", "../", "..", "\u{0}", "\u{2028}", "\u{10ffff}", "x\"", "\"", "\\"];
/// vstd::utf8: the bytes of a character, from the tables
fn scalar(c: char) -> Vec<u8> {
    let n = c as u32;
    if n < 0x80 { vec![n as u8] }
    else if n < 0x800 { vec![0xC0 | (n >> 6) as u8, 0x80 | (n & 0x3f) as u8] }
    else if n < 0x10000 { vec![0xE0 | (n >> 12) as u8, 0x80 | (n >> 6 & 0x3f) as u8, 0x80 | (n & 0x3f) as u8] }
    else { vec![0xF0 | (n >> 18) as u8, 0x80 | (n >> 12 & 0x3f) as u8, 0x80 | (n >> 6 & 0x3f) as u8, 0x80 | (n & 0x3f) as u8] }
}
pub fn enc(s: &[char]) -> Vec<u8> { s.iter().flat_map(|c| scalar(*c)).collect() }
/// decode, or nothing: shortest forms, no surrogates, at most 10FFFF
fn dec(b: &[u8]) -> Option<Vec<char>> {
    let (mut i, mut out) = (0, vec![]);
    while i < b.len() {
        let (n, mut v) = match b[i] { 0..=0x7f => (1, b[i] as u32), 0xC0..=0xDF => (2, (b[i] & 0x1f) as u32), 0xE0..=0xEF => (3, (b[i] & 0xf) as u32), 0xF0..=0xF7 => (4, (b[i] & 7) as u32), _ => return None };
        if i + n > b.len() { return None }
        for k in 1..n { if b[i + k] & 0xC0 != 0x80 { return None } v = v << 6 | (b[i + k] & 0x3f) as u32; }
        let c = std::char::from_u32(v)?;
        if scalar(c).len() != n { return None }
        out.push(c); i += n;
    }
    Some(out)
}
pub fn strings(r: &mut Rng, t: &mut Tally) {
    let s = r.text(A, 12); let c: Vec<char> = s.chars().collect();
    let at = |k: usize| enc(&c[..k]).len(); // blen(take(k))
    t.is("String::as_bytes", &s, s.as_bytes() == enc(&c)); t.is("into_bytes", &s, s.clone().into_bytes() == enc(&c));
    t.is("str.len", &s, s.len() == at(c.len())); t.is("str.is_empty", &s, s.is_empty() == c.is_empty());
    t.is("to_string", &s, s.to_string().chars().eq(c.iter().copied())); t.is("format {}/{}", &s, format!("{}/{}", s, s).chars().eq(c.iter().copied().chain(Some('/')).chain(c.iter().copied())));
    t.is("format literal", &s, format!("Syntax Error: {}", s).chars().eq("Syntax Error: ".chars().chain(c.iter().copied())));
    let (mut i, mut j) = (r.below(c.len() + 1), r.below(c.len() + 1)); if i > j { std::mem::swap(&mut i, &mut j) }
    let eq = |x: &str, y: &[char]| x.chars().eq(y.iter().copied());
    t.is("vx_str_from", &(&s, i), eq(&s[at(i)..], &c[i..])); t.is("vx_str_to", &(&s, i), eq(&s[..at(i)], &c[..i])); t.is("vx_str_range", &(&s, i, j), eq(&s[at(i)..at(j)], &c[i..j])); t.is("vx_str_full", &s, eq(&s[..], &c));
    // slicing anywhere else panics (the obligation is not idle)
    let n = r.below(s.len() + 2); let boundary = (0..=c.len()).any(|k| at(k) == n);
    t.is("str slicing needs a boundary", &(&s, n), panics(|| s[n..].len()) == !boundary);
    let p = r.text(A, 2); let pc: Vec<char> = p.chars().collect();
    t.is("vx_starts_with", &(&s, &p), s.starts_with(&p[..]) == c.starts_with(&pc)); 
    let d = *r.pick(&['.', '/', 'a', '漢', '\n']);
    t.is("vx_ends_with", &(&s, d), s.ends_with(d) == (c.last() == Some(&d))); t.is("vx_starts_with_char", &(&s, d), s.starts_with(d) == (c.first() == Some(&d)));
    let last = c.iter().rposition(|x| *x == d);
    t.is("vx_rfind", &(&s, d), s.rfind(d) == last.map(at));
    let mut pieces = s.rsplitn(2, d);
    let want: Vec<&[char]> = match last { None => vec![&c[..]], Some(k) => vec![&c[k + 1..], &c[..k]] };
    t.is("vx_rsplit2", &(&s, d), want.iter().all(|w| pieces.next().map_or(false, |x| eq(x, w))) && pieces.next().is_none());
    let f = |x: char| x == d || x == 'b'; let first = c.iter().position(|x| f(*x));
    t.is("vx_chars_position", &(&s, d), s.chars().position(f) == first); t.is("vx_str_find", &(&s, d), s.find(f) == first.map(at));
    t.is("vx_char_indices_find", &(&s, d), s.char_indices().find(|(_, x)| f(*x)) == first.map(|k| (at(k), c[k])));
    let late = |k: &(usize, char)| k.0 >= 3 && f(k.1);
    t.is("vx_char_indices_find by place", &(&s, d), s.char_indices().find(late) == (0..c.len()).find(|k| late(&(at(*k), c[*k]))).map(|k| (at(k), c[k])));
    let mut it = s.chars(); t.is("vx_chars", &s, c.iter().all(|x| it.next() == Some(*x)) && it.next().is_none() && it.next().is_none());
    t.is("vx_first_char", &s, s.chars().next() == c.first().copied());
    // lexspec::line_len
    let n = c.iter().take_while(|x| **x != '\n').count(); let len = if n < c.len() && n > 0 && c[n - 1] == '\r' { n - 1 } else { n };
    t.is("vx_first_line", &s, match s.lines().next() { Some(l) => !c.is_empty() && eq(l, &c[..len]), None => c.is_empty() });
    let mut k = 0; if !pc.is_empty() { while c[k..].starts_with(&pc) { k += pc.len(); } }
    if !p.is_empty() { t.is("vx_trim_start_matches", &(&s, &p), eq(s.trim_start_matches(&p[..]), &c[k..])); }
    let mut x = s.clone(); x.replace_range(at(i)..at(j), &p);
    t.is("vx_replace_range", &(&s, i, j, &p), x.chars().eq(c[..i].iter().chain(&pc).chain(&c[j..]).copied()));
    for x in &c { t.is("char::is_ascii", x, x.is_ascii() == ((*x as u32) < 128)); t.is("char::len_utf8", x, x.len_utf8() == scalar(*x).len()); t.is("char::len_utf16", x, x.len_utf16() == if *x as u32 >= 0x10000 { 2 } else { 1 }); }
    let q = r.text(A, 12); t.is("vx_str_ext", &(&s, &q), (s == q) == q.chars().eq(c.iter().copied()));
}
pub fn buffers(r: &mut Rng, t: &mut Tally) {
    let b = r.bytes(&[0, b'a', b'\r', b'\n', 0x80, 0xBF, 0xC1, 0xC3, 0xE2, 0xED, 0xA0, 0xF0, 0x9F, 0xF4, 0x90, 0xFF], 6);
    let d = dec(&b);
    t.is("vx_from_utf8", &b, match (String::from_utf8(b.clone()), &d) { (Ok(s), Some(d)) => s.chars().eq(d.iter().copied()), (Err(_), None) => true, _ => false });
    if let Some(d) = &d { t.is("decode inverts encode", &b, enc(d) == b); t.is("vx_from_utf8_unchecked", &b, unsafe { String::from_utf8_unchecked(b.clone()) }.chars().eq(d.iter().copied())); }
    let v = r.bytes(b"ab\r\n", 12); let n = r.below(v.len() + 1); let m = n + r.below(v.len() - n + 1);
    t.is("vx_sl_from", &(&v, n), v[n..].iter().eq(v.iter().skip(n))); t.is("vx_sl_to", &(&v, n), v[..n].iter().eq(v.iter().take(n))); t.is("vx_sl_range", &(&v, n, m), v[n..m].iter().eq(v.iter().take(m).skip(n)));
    let to = r.below(v.len() - (m - n) + 1); let mut w = v.clone(); w.as_mut_slice().copy_within(n..m, to);
    let want: Vec<u8> = v[..to].iter().chain(&v[n..m]).chain(&v[to + (m - n)..]).copied().collect();
    t.is("vx_copy_within", &(&v, n, m, to), w == want);
    let mut w = v.clone(); w.as_mut_slice()[n..].iter_mut().for_each(|x| *x = b'z'); t.is("vx_sl_from_mut", &(&v, n), w[..n] == v[..n] && w[n..].iter().all(|x| *x == b'z') && w.len() == v.len());
    let mut w = v.clone(); unsafe { w.set_len(n) }; t.is("vx_set_len", &(&v, n), w == v[..n]);
    t.is("vx_contains", &v, v.contains(&b'\r') == v.iter().any(|x| *x == b'\r'));
    let k = 1 + r.below(3); let f = |w: &[u8]| w[0] == b'\r' && w[w.len() - 1] == b'\n';
    t.is("vx_windows_position", &(&v, k), v.windows(k).position(f) == (0..v.len()).find(|i| i + k <= v.len() && f(&v[*i..i + k])));
    let u = r.bytes(b"ab\r\n", 3);
    t.is("vx_bytes_eq", &(&v, &u), (v == u) == v.iter().eq(u.iter())); t.is("vx_bytes_start", &(&v, &u), v.starts_with(&u) == (u.len() <= v.len() && v[..u.len()].iter().eq(u.iter())));
    t.is("vx_bytes_end", &(&v, &u), v.ends_with(&u) == (u.len() <= v.len() && v[v.len() - u.len()..].iter().eq(u.iter())));
    t.is("vx_first_is", &v, (v.first() == Some(&b'a')) == (v.len() > 0 && v[0] == b'a')); t.is("vx_get_is", &(&v, m), (v.get(m) == Some(&b'a')) == (m < v.len() && v[m] == b'a'));
    let mut w = v.clone(); w.extend(&u[..]); t.is("vx_extend_bytes", &(&v, &u), w.len() == v.len() + u.len() && w[..v.len()] == v[..] && w[v.len()..] == u[..]);
    t.is("byte literals", &(), b"/"[..] == [47u8] && b"\\\0"[..] == [92u8, 0u8]);
}
