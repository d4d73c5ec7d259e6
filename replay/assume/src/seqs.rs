//! lib/iter.rs, lib/walk.rs, lib/map.rs, lib/indexset.rs, lib/mem.rs and the shims over vectors
use crate::*;
use rustc_hash::{FxHashMap, FxHashSet};
pub fn sequences(r: &mut Rng, t: &mut Tally) {
    let (a, b) = (r.nums(9, 5), r.nums(9, 5)); let k = r.below(12); let x = r.below(5);
    let f = |n: &usize| n * 3 + 1; let p = |n: &usize| *n != x;
    let m: Vec<usize> = a.iter().map(f).collect(); t.is("vx_iter_map", &a, m.len() == a.len() && (0..a.len()).all(|i| m[i] == f(&a[i])));
    let m: Vec<usize> = a.clone().into_iter().map(|n| f(&n)).collect(); t.is("vx_map", &a, m.len() == a.len() && (0..a.len()).all(|i| m[i] == f(&a[i])));
    let cut = if k <= a.len() { k } else { a.len() };
    t.is("vx_iter_skip", &(&a, k), a.iter().skip(k).eq(a[cut..].iter())); t.is("vx_skip", &(&a, k), a.clone().into_iter().skip(k).eq(a[cut..].iter().copied()));
    t.is("vx_zip_all", &(&a, &b), a.iter().zip(&b).all(|(u, v)| u <= v) == (0..a.len().min(b.len())).all(|i| a[i] <= b[i]));
    let mut e = a.clone(); e.extend(b.clone()); t.is("vx_extend", &(&a, &b), e == [&a[..], &b[..]].concat());
    t.is("vx_chain", &(&a, &b), a.clone().into_iter().chain(b.clone()).collect::<Vec<_>>() == e); t.is("vx_once", &x, std::iter::once(x).collect::<Vec<_>>() == [x]);
    t.is("vx_copied", &a, a.iter().copied().collect::<Vec<_>>() == a); t.is("vx_clone_iter", &a, a.clone() == a);
    let z: Vec<(usize, usize)> = a.clone().into_iter().zip(b.clone()).collect(); t.is("vx_zip", &(&a, &b), z.len() == a.len().min(b.len()) && (0..z.len()).all(|i| z[i] == (a[i], b[i])));
    // filter: by induction from the end, as Seq::filter
    let mut w = vec![]; for i in 0..a.len() { if p(&a[i]) { w.push(a[i]) } }
    t.is("vx_filter", &(&a, x), a.clone().into_iter().filter(p).collect::<Vec<_>>() == w);
    // filter_map: the picks in order, everything else refused
    let g = |n: usize| if n != x { Some(n + 7) } else { None }; let picks: Vec<usize> = (0..a.len()).filter(|i| g(a[*i]).is_some()).collect();
    let y: Vec<usize> = a.clone().into_iter().filter_map(g).collect(); t.is("vx_filter_map", &(&a, x), y.len() == picks.len() && (0..y.len()).all(|j| Some(y[j]) == g(a[picks[j]])));
    t.is("vx_any", &(&a, x), a.iter().any(|n| *n == x) == (0..a.len()).fold(false, |s, i| s || a[i] == x)); t.is("vx_all", &(&a, x), a.iter().all(|n| *n == x) == (0..a.len()).fold(true, |s, i| s && a[i] == x));
    let mut it = a.clone().into_iter(); t.is("vx_vec_iter", &a, (0..a.len()).all(|i| it.next() == Some(a[i])) && it.next().is_none() && it.next().is_none());
    let mut it = a.iter().enumerate(); t.is("vx_enumerate", &a, (0..a.len()).all(|i| it.next() == Some((i, &a[i]))) && it.next().is_none());
    let (mut n, mut ok) = (0, true); for v in &a { ok = ok && n < a.len() && *v == a[n]; n += 1; } t.is("vx_refs", &a, ok && n == a.len());
    let mut n = vec![]; for v in a.iter().enumerate().map(|(i, v)| i * 100 + v) { n.push(v) } t.is("vx_enumerate_map", &a, n.len() == a.len() && (0..a.len()).all(|i| n[i] == i * 100 + a[i]));
    let mut s = a.clone(); s.sort(); let keep = |u: &[usize], v: &[usize]| (0..5).all(|q| u.iter().filter(|n| **n == q).count() == v.iter().filter(|n| **n == q).count());
    t.is("vx_sort_entries", &a, keep(&a, &s) && s.windows(2).all(|w| w[0] <= w[1]));
    let mut pairs: Vec<(usize, usize)> = z.clone(); pairs.sort(); t.is("vx_sort_entries (pairs)", &z, pairs.windows(2).all(|w| w[0].0 < w[1].0 || w[0].0 == w[1].0 && w[0].1 <= w[1].1));
    let mut by = z.clone(); by.sort_by_key(|q| (q.1, q.0)); t.is("vx_sort_by_key", &z, by.len() == z.len() && z.iter().all(|q| by.iter().filter(|u| *u == q).count() == z.iter().filter(|u| *u == q).count()) && by.windows(2).all(|w| (w[0].1, w[0].0) <= (w[1].1, w[1].0)));
    // dedup_by: the closure is given (this one, the last one kept); a yes drops this one
    let mut d = z.clone(); d.dedup_by(|u, v| u.0 == v.0 || u.1 < v.1);
    let mut want: Vec<(usize, usize)> = vec![]; for q in &z { match want.last() { Some(l) if q.0 == l.0 || q.1 < l.1 => {}, _ => want.push(*q) } }
    t.is("vx_dedup_by", &z, d == want);
    let h = r.below(s.len() + 1); let part: Vec<bool> = (0..s.len()).map(|i| i < h).collect(); t.is("vx_partition_point", &(&part,), part.partition_point(|q| *q) == h);
    let pp = s.partition_point(|q| *q < x); t.is("vx_partition_point (order)", &(&s, x), pp <= s.len() && s[..pp].iter().all(|q| *q < x) && s[pp..].iter().all(|q| !(*q < x)));
    let mut v = a.clone(); v.resize_with(k, || 77); t.is("vx_resize_with", &(&a, k), v.len() == k && (0..k).all(|i| v[i] == if i < a.len() { a[i] } else { 77 }));
    let mut v = a.clone(); let y = std::mem::take(&mut v); t.is("vx_take_vec", &a, y == a && v.is_empty());
    let mut v = x; let y = std::mem::replace(&mut v, k); t.is("mem::replace", &(x, k), y == x && v == k); let mut v = Some(x); let y = v.take(); t.is("Option::take", &x, y == Some(x) && v.is_none());
    t.is("vx_max", &(x, k), x.max(k) == if x >= k { x } else { k }); t.is("vx_opt_filter", &(x, k), Some(x).filter(|n| *n == k) == (if x == k { Some(x) } else { None }) && None::<usize>.filter(|_| true).is_none());
    let mut v = a.clone(); let y: Vec<usize> = v.drain(..).rev().collect(); t.is("vx_drain_rev", &a, v.is_empty() && y.len() == a.len() && (0..y.len()).all(|j| y[j] == a[a.len() - 1 - j]));
    t.is("vx_vec_of", &(x, k), vec![x; k].len() == k && vec![x; k].iter().all(|n| *n == x)); t.is("vx_vec_contains", &(&a, x), a.contains(&x) == (0..a.len()).any(|i| a[i] == x));
    let lo = r.below(6); let hi = r.below(9); let q: Vec<usize> = (lo..hi).map(|n| n * 2).filter(|n| n % 3 != 0).map(|n| n + 1).collect();
    let mut want = vec![]; let mut i = lo; while i < hi { if i * 2 % 3 != 0 { want.push(i * 2 + 1) } i += 1; } t.is("vx_range_chain", &(lo, hi), q == want);
    t.is("vx_count_while", &(&a, x), { let n = a.iter().take_while(|n| **n != x).count(); n <= a.len() && a[..n].iter().all(|n| *n != x) && (n == a.len() || a[n] == x) });
    t.is("vx_get", &(&a, k), a.get(k).copied() == if k < a.len() { Some(a[k]) } else { None }); t.is("vx_map_first", &(&a, k), a.iter().take(k).map(f).collect::<Vec<_>>() == (0..a.len().min(k)).map(|i| f(&a[i])).collect::<Vec<_>>());
    t.is("slices", &(&a, cut), a[cut..].iter().eq(a.iter().skip(cut)) && a[..cut].iter().eq(a.iter().take(cut)));
    let o = if x == 0 { None } else { Some(a.iter().map(|n| n.to_string()).collect::<Vec<String>>()) }; let yes = |s: &String| s == "3";
    t.is("vx_any_of", &o, o.as_deref().unwrap_or_default().iter().any(yes) == o.as_ref().map_or(false, |v| v.iter().any(yes)));
    let c = std::cell::Cell::new(x); c.set(k); t.is("Cell", &(x, k), c.get() == k);
}
pub fn maps(r: &mut Rng, t: &mut Tally) {
    let mut m: FxHashMap<usize, Vec<usize>> = FxHashMap::default(); let mut s: FxHashSet<usize> = FxHashSet::default(); let mut l: Vec<(usize, Vec<usize>)> = vec![]; let mut k: Vec<usize> = vec![];
    let mut ix: indexmap::IndexSet<usize> = indexmap::IndexSet::default(); let mut order: Vec<usize> = vec![];
    t.is("default", &(), m.is_empty() && s.is_empty() && ix.get_index(0).is_none());
    let find = |l: &Vec<(usize, Vec<usize>)>, key: usize| l.iter().position(|e| e.0 == key);
    for _ in 0..r.below(30) {
        let key = r.below(6); let val = r.nums(2, 4); let at = find(&l, key); let old = at.map(|i| l[i].1.clone());
        match r.below(9) {
            0 | 1 => { let got = m.insert(key, val.clone()); t.is("VxMap::insert", &(&l, key), got == old); match at { Some(i) => l[i].1 = val, None => l.push((key, val)) } }
            2 => { let got = m.remove(&key); t.is("VxMap::remove", &(&l, key), got == old); if let Some(i) = at { l.remove(i); } }
            3 => { match m.get_mut(&key) { Some(v) => { t.is("VxMap::get_mut", &(&l, key), Some(&*v) == old.as_ref()); v.push(9); l[at.unwrap()].1.push(9) } None => t.is("VxMap::get_mut", &(&l, key), old.is_none()) } }
            4 => { let v = m.entry(key).or_default(); t.is("vx_or_default", &(&l, key), *v == old.unwrap_or_default()); v.push(8); match at { Some(i) => l[i].1.push(8), None => l.push((key, vec![8])) } }
            5 => { let v = m.entry(key).or_insert(val.clone()); t.is("vx_or_insert", &(&l, key), *v == old.clone().unwrap_or(val.clone())); if at.is_none() { l.push((key, val)) } }
            6 => { let got = s.insert(key); t.is("VxSet::insert", &(&k, key), got == !k.contains(&key)); if got { k.push(key) } }
            7 => { let (i, new) = ix.insert_full(key); t.is("VxIndexSet::insert_full", &(&order, key), new == !order.contains(&key)); if new { order.push(key) } t.is("VxIndexSet::insert_full (index)", &(&order, key), order[i] == key); }
            _ => match r.below(12) {
                0 => { m.clear(); l.clear() }
                1 => { let took = std::mem::take(&mut s); t.is("vx_take_set", &k, s.is_empty() && took.len() == k.len() && k.iter().all(|x| took.contains(x))); k.clear() }
                2 => { s.extend(m.drain().map(|(key, _)| key)); for e in l.drain(..) { if !k.contains(&e.0) { k.push(e.0) } } t.is("vx_extend_drained", &k, m.is_empty()) }
                _ => {}
            },
        }
        t.is("VxMap::len", &l, m.len() == l.len() && m.is_empty() == l.is_empty());
        let mut keys: Vec<usize> = m.keys().copied().collect(); let n = keys.len(); keys.sort(); keys.dedup();
        t.is("VxMap::keys", &l, n == l.len() && keys.len() == n && l.iter().all(|e| keys.contains(&e.0)));
        t.is("clone", &l, m.clone() == m && s.clone() == s);
        t.is("vx_set_items", &k, { let mut v: Vec<usize> = s.clone().into_iter().collect(); let n = v.len(); v.sort(); v.dedup(); n == k.len() && v.len() == n && k.iter().all(|x| v.contains(x)) });
        for key in 0..6 {
            let old = find(&l, key).map(|i| &l[i].1);
            t.is("VxMap::get", &(&l, key), m.get(&key) == old && m.contains_key(&key) == old.is_some()); if let Some(o) = old { t.is("VxMap index", &(&l, key), m[&key] == *o) }
            t.is("vx_flat", &(&l, key), m.get(&key).into_iter().flatten().eq(old.map(|v| &v[..]).unwrap_or(&[])));
            t.is("VxSet::contains", &(&k, key), s.contains(&key) == k.contains(&key)); t.is("VxSet::is_empty", &k, s.is_empty() == k.is_empty());
            t.is("VxIndexSet::get_index_of", &(&order, key), ix.get_index_of(&key) == order.iter().position(|x| *x == key)); t.is("VxIndexSet::get_index", &(&order, key), ix.get_index(key) == order.get(key));
        }
    }
}
