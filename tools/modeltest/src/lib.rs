//! Small functions over the std items the engine models: tools/modeltest.py compares what the engine
//! says they compute with what they compute when run. (A self test of the engine, not a check.)
#![allow(clippy::all)]
use std::cmp::Ordering;

pub fn ord_match(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> {
    v.iter().map(|a| match a.partial_cmp(&x) { Some(Ordering::Less) => -1.0, Some(Ordering::Equal) => 0.0, Some(Ordering::Greater) => 1.0, None => 9.0 }).collect()
}
pub fn ord_matches(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> {
    v.iter().map(|a| if matches!(a.partial_cmp(&x), Some(Ordering::Less | Ordering::Equal)) { 1.0 } else { 2.0 }).collect()
}
pub fn ord_eq(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> {
    v.iter().map(|a| if a.partial_cmp(&x) == Some(Ordering::Greater) { 1.0 } else { 2.0 }).collect()
}
pub fn ord_usize(v: &[f64], w: &[f64], n: usize, _x: f64) -> Vec<f64> {
    match v.len().cmp(&w.len()) { Ordering::Less => vec![1.0], Ordering::Equal => vec![2.0, 2.0], Ordering::Greater => vec![n as f64; 3] }
}
pub fn ord_total(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> {
    v.iter().map(|a| match a.total_cmp(&x) { Ordering::Less => 3.0, _ => 4.0 }).collect()
}
pub fn ord_reverse(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> {
    v.iter().map(|a| if a.partial_cmp(&x).unwrap().reverse().is_lt() { 3.0 } else { 4.0 }).collect()
}
pub fn ord_then(v: &[f64], w: &[f64], n: usize, x: f64) -> Vec<f64> {
    let o = v.len().cmp(&w.len()).then(n.cmp(&2));
    vec![if o.is_ge() { x } else { -x }, if o == Ordering::Less { 1.0 } else { 2.0 }]
}
pub fn min_by(v: &[f64], _w: &[f64], _n: usize, _x: f64) -> Vec<f64> {
    match v.iter().enumerate().min_by(|a, b| a.1.partial_cmp(b.1).unwrap()) { Some((i, a)) => vec![i as f64, *a], None => vec![] }
}
pub fn max_by(v: &[f64], _w: &[f64], _n: usize, _x: f64) -> Vec<f64> {
    match v.iter().enumerate().max_by(|a, b| a.1.partial_cmp(b.1).unwrap()) { Some((i, a)) => vec![i as f64, *a], None => vec![] }
}
pub fn max_by_total(v: &[f64], _w: &[f64], _n: usize, _x: f64) -> Vec<f64> {
    v.iter().copied().max_by(f64::total_cmp).into_iter().collect()
}
pub fn min_by_key(v: &[f64], w: &[f64], _n: usize, _x: f64) -> Vec<f64> {
    vec![(0..v.len()).min_by_key(|i| (*i + w.len()) % 3).unwrap_or(77) as f64]
}
pub fn max_by_key(v: &[f64], w: &[f64], _n: usize, _x: f64) -> Vec<f64> {
    vec![(0..v.len()).max_by_key(|i| (*i + w.len()) % 2).unwrap_or(77) as f64]
}
pub fn imax(v: &[f64], w: &[f64], n: usize, _x: f64) -> Vec<f64> {
    vec![[v.len(), w.len(), n].into_iter().max().unwrap() as f64, [v.len(), w.len(), n].iter().min().copied().unwrap() as f64]
}
pub fn fold_max(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { vec![v.iter().fold(x, |m, a| m.max(*a)), v.iter().copied().fold(x, f64::min)] }
pub fn fold_tuple(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> {
    let (i, m) = v.iter().enumerate().fold((0, x), |(bi, bm), (i, a)| if *a < bm { (i + 1, *a) } else { (bi, bm) });
    vec![i as f64, m]
}
pub fn try_fold(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> {
    match v.iter().try_fold(0.0, |s, a| if *a > x { None } else { Some(s + a) }) { Some(s) => vec![s], None => vec![] }
}
pub fn try_fold_res(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> {
    match v.iter().enumerate().try_fold(0.0, |s, (i, a)| if *a > x { Err(i) } else { Ok(s + a) }) { Ok(s) => vec![s], Err(i) => vec![i as f64, -1.0] }
}
pub fn sum_prod(v: &[f64], w: &[f64], _n: usize, _x: f64) -> Vec<f64> {
    vec![v.iter().sum::<f64>(), w.iter().product(), v.iter().zip(w).map(|(a, b)| a * b).sum()]
}
pub fn zip3(v: &[f64], w: &[f64], n: usize, _x: f64) -> Vec<f64> { v.iter().zip(w.iter()).zip(0..n).map(|((a, b), k)| a - b * k as f64).collect() }
pub fn skip_take(v: &[f64], _w: &[f64], n: usize, _x: f64) -> Vec<f64> { v.iter().skip(n).take(2).cloned().collect() }
pub fn enum_skip(v: &[f64], _w: &[f64], n: usize, _x: f64) -> Vec<f64> { v.iter().enumerate().skip(n).map(|(i, a)| i as f64 + a).collect() }
pub fn skip_enum(v: &[f64], _w: &[f64], n: usize, _x: f64) -> Vec<f64> { v.iter().skip(n).enumerate().map(|(i, a)| i as f64 + a).collect() }
pub fn rev_enum(v: &[f64], _w: &[f64], _n: usize, _x: f64) -> Vec<f64> { v.iter().rev().enumerate().map(|(i, a)| i as f64 + a).collect() }
pub fn enum_rev(v: &[f64], _w: &[f64], _n: usize, _x: f64) -> Vec<f64> { v.iter().enumerate().rev().map(|(i, a)| i as f64 + a).collect() }
pub fn step(v: &[f64], _w: &[f64], n: usize, _x: f64) -> Vec<f64> { (0..v.len()).step_by(n + 1).map(|i| v[i]).collect() }
pub fn iter_step(v: &[f64], _w: &[f64], n: usize, _x: f64) -> Vec<f64> { v.iter().skip(1).step_by(n + 1).copied().collect() }
pub fn rev_range_incl(v: &[f64], _w: &[f64], _n: usize, _x: f64) -> Vec<f64> { let mut o = vec![]; for i in (1..=v.len()).rev() { o.push(v[i - 1] * i as f64); } o }
pub fn chain(v: &[f64], w: &[f64], _n: usize, x: f64) -> Vec<f64> { v.iter().chain(w).copied().chain(std::iter::once(x)).collect() }
pub fn take_while(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { v.iter().copied().take_while(|a| *a < x).collect() }
pub fn skip_while(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { v.iter().copied().skip_while(|a| *a < x).collect() }
pub fn filter(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { v.iter().copied().filter(|a| *a < x).collect() }
pub fn filter_sum(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { vec![v.iter().filter(|a| **a < x).sum(), v.iter().filter(|a| **a < x).count() as f64] }
pub fn filter_map(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { v.iter().filter_map(|a| (*a < x).then(|| a * 2.0)).collect() }
pub fn find(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { v.iter().find(|a| **a > x).copied().into_iter().collect() }
pub fn find_map(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { vec![v.iter().enumerate().find_map(|(i, a)| if *a > x { Some(i as f64) } else { None }).unwrap_or(-1.0)] }
pub fn position(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { vec![v.iter().position(|a| *a == x).map_or(-1.0, |i| i as f64)] }
pub fn rposition(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { vec![v.iter().rposition(|a| *a < x).map_or(-1.0, |i| i as f64)] }
pub fn any_all(v: &[f64], w: &[f64], _n: usize, x: f64) -> Vec<f64> { vec![v.iter().any(|a| *a > x) as u8 as f64, w.iter().all(|a| *a > x) as i32 as f64] }
pub fn last_nth(v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { vec![v.iter().last().copied().unwrap_or(x), *v.iter().nth(n).unwrap_or(&x)] }
pub fn windows(v: &[f64], _w: &[f64], _n: usize, _x: f64) -> Vec<f64> { v.windows(2).map(|p| p[1] - p[0]).collect() }
pub fn chunks(v: &[f64], _w: &[f64], n: usize, _x: f64) -> Vec<f64> { v.chunks(n + 1).map(|p| p.iter().sum()).collect() }
pub fn chunks_exact(v: &[f64], _w: &[f64], n: usize, _x: f64) -> Vec<f64> { v.chunks_exact(n + 1).map(|p| p[0] * 3.0).collect() }
pub fn chunks_mut(v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { let mut o = v.to_vec(); for (i, c) in o.chunks_mut(n + 1).enumerate() { c[0] = x + i as f64; } o }
pub fn scan(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { v.iter().scan(x, |s, a| { *s += a; Some(*s) }).collect() }
pub fn reduce(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { vec![v.iter().copied().reduce(f64::max).unwrap_or(x)] }
pub fn flat(v: &[f64], _w: &[f64], n: usize, _x: f64) -> Vec<f64> { (0..n).flat_map(|i| v.iter().map(move |a| a + i as f64)).collect() }
pub fn peek(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { let mut it = v.iter().peekable(); let mut o = vec![]; while let Some(a) = it.next() { o.push(if it.peek().is_some() { *a } else { x }); } o }
pub fn by_ref(v: &[f64], _w: &[f64], n: usize, _x: f64) -> Vec<f64> { let mut it = v.iter(); let s: f64 = it.by_ref().take(n).sum(); let r: f64 = it.sum(); vec![s, r] }
pub fn next_back(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { let mut it = v.iter(); let a = it.next().copied().unwrap_or(x); let b = it.next_back().copied().unwrap_or(x); vec![a, b, it.len() as f64] }
pub fn unzip(v: &[f64], w: &[f64], _n: usize, _x: f64) -> Vec<f64> { let (a, b): (Vec<f64>, Vec<f64>) = v.iter().zip(w).map(|(a, b)| (a + b, a - b)).unzip(); [a, b].concat() }
pub fn partition(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { let (mut a, b): (Vec<f64>, Vec<f64>) = v.iter().copied().partition(|a| *a < x); a.extend(b); a }
pub fn cycle(v: &[f64], _w: &[f64], n: usize, _x: f64) -> Vec<f64> { v.iter().cycle().skip(n).take(v.len()).copied().collect() }
pub fn succ(_v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { std::iter::successors(Some(x), |a| Some(a * 2.0)).take(n).collect() }
pub fn repeat(_v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { std::iter::repeat(x).take(n).collect() }
pub fn repeat_with(_v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { let mut k = x; std::iter::repeat_with(|| { k += 1.0; k }).take(n).collect() }
pub fn for_each(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { let mut o = v.to_vec(); o.iter_mut().for_each(|a| *a *= x); o }
pub fn iter_mut_zip(v: &[f64], w: &[f64], _n: usize, x: f64) -> Vec<f64> { let mut o = v.to_vec(); o.iter_mut().zip(w).for_each(|(a, b)| *a = *a * x + b); o }
pub fn iter_mut_rev(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { let mut o = v.to_vec(); for (i, a) in o.iter_mut().rev().enumerate() { *a += x * i as f64; } o }
pub fn iter_mut_skip(v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { let mut o = v.to_vec(); for a in o.iter_mut().skip(n) { *a = x; } o }
pub fn first_last(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { vec![*v.first().unwrap_or(&x), v.last().copied().unwrap_or(x)] }
pub fn split_first(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { match v.split_first() { Some((a, r)) => { let mut o = r.to_vec(); o.push(*a); o } None => vec![x] } }
pub fn split_last(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { match v.split_last() { Some((a, r)) => { let mut o = vec![*a]; o.extend_from_slice(r); o } None => vec![x] } }
pub fn slice_pat(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { match v { [] => vec![], [a] => vec![*a], [a, .., b] => vec![*b, *a, x] } }
pub fn slice_pat2(v: &[f64], _w: &[f64], _n: usize, _x: f64) -> Vec<f64> { if let [a, b, rest @ ..] = v { vec![a + b, rest.len() as f64] } else { vec![0.0] } }
pub fn split_at(v: &[f64], _w: &[f64], n: usize, _x: f64) -> Vec<f64> { let (a, b) = v.split_at(n.min(v.len())); let mut o = b.to_vec(); o.extend(a.iter()); o }
pub fn split_at_mut(v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { let mut o = v.to_vec(); let m = n.min(o.len()); let (a, b) = o.split_at_mut(m); if !a.is_empty() { a[0] = x; } if !b.is_empty() { b[0] += x; } o }
pub fn swap(v: &[f64], _w: &[f64], _n: usize, _x: f64) -> Vec<f64> { let mut o = v.to_vec(); let l = o.len(); if l > 1 { o.swap(0, l - 1); } o }
pub fn mem_swap(v: &[f64], w: &[f64], n: usize, _x: f64) -> Vec<f64> { let (mut a, mut b) = (v.to_vec(), w.to_vec()); if n > 1 { std::mem::swap(&mut a, &mut b); } a.push(b.len() as f64); a }
pub fn mem_replace(v: &[f64], w: &[f64], _n: usize, x: f64) -> Vec<f64> { let mut a = v.to_vec(); let b = std::mem::replace(&mut a, w.to_vec()); a.push(x); a.extend(b); a }
pub fn mem_take(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { let mut a = v.to_vec(); let mut b = std::mem::take(&mut a); b.push(x); b.push(a.len() as f64); b }
pub fn reverse(v: &[f64], _w: &[f64], _n: usize, _x: f64) -> Vec<f64> { let mut o = v.to_vec(); o.reverse(); o }
pub fn rotate(v: &[f64], _w: &[f64], n: usize, _x: f64) -> Vec<f64> { let mut o = v.to_vec(); let m = n.min(o.len()); o.rotate_left(m); o }
pub fn insert(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { let mut o = v.to_vec(); o.insert(0, x); o }
pub fn remove(v: &[f64], _w: &[f64], _n: usize, _x: f64) -> Vec<f64> { let mut o = v.to_vec(); if o.len() > 1 { let a = o.remove(1); o.push(a); } o }
pub fn resize(v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { let mut o = v.to_vec(); o.resize(n, x); o }
pub fn truncate(v: &[f64], _w: &[f64], n: usize, _x: f64) -> Vec<f64> { let mut o = v.to_vec(); o.truncate(n); o }
pub fn fill(v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { let mut o = v.to_vec(); let m = n.min(o.len()); o[m..].fill(x); o }
pub fn copy_from(v: &[f64], w: &[f64], _n: usize, _x: f64) -> Vec<f64> { let m = v.len().min(w.len()); let mut o = v.to_vec(); o[..m].copy_from_slice(&w[..m]); o }
pub fn copy_from_bad(v: &[f64], w: &[f64], _n: usize, _x: f64) -> Vec<f64> { let mut o = v.to_vec(); o.copy_from_slice(w); o }
pub fn drain(v: &[f64], _w: &[f64], n: usize, _x: f64) -> Vec<f64> { let mut o = v.to_vec(); let m = n.min(o.len()); let s: f64 = o.drain(..m).sum(); o.push(s); o }
pub fn retain(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { let mut o = v.to_vec(); o.retain(|a| *a > x); o }
pub fn get(v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { vec![v.get(n).copied().unwrap_or(x), v.get(1..3).map_or(x, |s| s[0])] }
pub fn get_mut(v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { let mut o = v.to_vec(); if let Some(a) = o.get_mut(n) { *a = x; } o }
pub fn pop(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { let mut o = v.to_vec(); let a = o.pop().unwrap_or(x); o.push(a * 2.0); o }
pub fn while_pop(v: &[f64], _w: &[f64], _n: usize, _x: f64) -> Vec<f64> { let mut o = v.to_vec(); let mut r = vec![]; while let Some(a) = o.pop() { r.push(a); } r }
pub fn contains_0(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { vec![v.contains(&x) as u8 as f64] }
pub fn contains_1(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { vec![(0.0..x).contains(&1.0) as u8 as f64] }
pub fn contains_2(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { vec![(0.0..=x).contains(&2.0) as u8 as f64] }
pub fn starts_with(v: &[f64], w: &[f64], _n: usize, _x: f64) -> Vec<f64> { vec![v.starts_with(w) as u8 as f64] }
pub fn vec_eq_0(v: &[f64], w: &[f64], _n: usize, _x: f64) -> Vec<f64> { vec![(v == w) as u8 as f64] }
pub fn vec_eq_1(v: &[f64], w: &[f64], _n: usize, _x: f64) -> Vec<f64> { vec![(v.to_vec() != w.to_vec()) as u8 as f64] }
pub fn vec_eq_2(v: &[f64], w: &[f64], _n: usize, _x: f64) -> Vec<f64> { vec![v.iter().eq(w.iter()) as u8 as f64] }
pub fn sort(v: &[f64], _w: &[f64], _n: usize, _x: f64) -> Vec<f64> { let mut o = v.to_vec(); o.sort_by(|a, b| a.partial_cmp(b).unwrap()); o }
pub fn concat(v: &[f64], w: &[f64], _n: usize, _x: f64) -> Vec<f64> { [v, w].concat() }
pub fn opt_chain(v: &[f64], w: &[f64], n: usize, x: f64) -> Vec<f64> { vec![v.get(n).and_then(|a| w.get(n).map(|b| a + b)).unwrap_or_else(|| x * 2.0), v.first().filter(|a| **a > x).copied().unwrap_or_default()] }
pub fn opt_or_0(v: &[f64], w: &[f64], n: usize, x: f64) -> Vec<f64> { vec![*v.get(n).or(w.get(n)).unwrap_or(&x)] }
pub fn opt_or_1(v: &[f64], w: &[f64], n: usize, x: f64) -> Vec<f64> { vec![*v.get(n).or_else(|| w.first()).unwrap_or(&x)] }
pub fn opt_or_2(v: &[f64], w: &[f64], n: usize, x: f64) -> Vec<f64> { vec![v.get(n).xor(w.get(n)).copied().unwrap_or(x)] }
pub fn opt_zip(v: &[f64], w: &[f64], n: usize, x: f64) -> Vec<f64> { match v.get(n).zip(w.get(n)) { Some((a, b)) => vec![*a, *b], None => vec![x] } }
pub fn opt_insert(v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { let mut o = v.get(n).copied(); let a = *o.get_or_insert(x); let t = o.take(); vec![a, t.unwrap(), o.is_none() as u8 as f64] }
pub fn opt_replace(v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { let mut o = v.get(n).copied(); let old = o.replace(x); vec![old.unwrap_or(-9.0), o.unwrap()] }
pub fn opt_cmp_0(v: &[f64], w: &[f64], n: usize, x: f64) -> Vec<f64> { vec![(v.get(n) == w.get(n)) as u8 as f64] }
pub fn opt_cmp_1(v: &[f64], w: &[f64], n: usize, x: f64) -> Vec<f64> { vec![(v.first().copied() < Some(x)) as u8 as f64] }
pub fn opt_cmp_2(v: &[f64], w: &[f64], n: usize, x: f64) -> Vec<f64> { vec![(v.get(n) > w.get(n)) as u8 as f64] }
pub fn opt_is_0(v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { vec![v.get(n).is_some_and(|a| *a > x) as u8 as f64] }
pub fn opt_is_1(v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { vec![v.get(n).is_none_or(|a| *a > x) as u8 as f64] }
fn q(v: &[f64], n: usize) -> Option<f64> { let a = v.get(n)?; let b = v.get(n + 1)?; Some(a - b) }
pub fn opt_try(v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { vec![q(v, n).unwrap_or(x)] }
fn r(v: &[f64], n: usize) -> Result<f64, usize> { if n >= v.len() { return Err(v.len()); } let a = r1(v[n])?; Ok(a + 1.0) }
fn r1(a: f64) -> Result<f64, usize> { if a < 0.0 { Err(100) } else { Ok(a) } }
pub fn res_try(v: &[f64], _w: &[f64], n: usize, _x: f64) -> Vec<f64> { match r(v, n) { Ok(a) => vec![a], Err(k) => vec![k as f64, 0.0] } }
pub fn res_map_0(v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { vec![r(v, n).map(|a| a * x).unwrap_or(-1.0)] }
pub fn res_map_1(v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { vec![r(v, n).map_err(|k| k + 1).unwrap_or_else(|k| k as f64)] }
pub fn res_map_2(v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { vec![r(v, n).is_ok() as u8 as f64] }
pub fn res_map_3(v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { vec![r(v, n).ok().unwrap_or(x)] }
pub fn let_else(v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { let Some(a) = v.get(n) else { return vec![x]; }; vec![*a, x] }
pub fn loop_break(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { let mut i = 0; let r = loop { if i >= v.len() { break -1.0; } if v[i] > x { break v[i]; } i += 1; }; vec![r, i as f64] }
pub fn labelled(v: &[f64], w: &[f64], _n: usize, x: f64) -> Vec<f64> { let mut o = vec![0.0; 2]; 'a: for (i, a) in v.iter().enumerate() { for b in w { if a + b > x { o[0] = i as f64; break 'a; } if *b < 0.0 { continue 'a; } o[1] += 1.0; } } o }
pub fn block_break(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { let r = 'b: { if v.is_empty() { break 'b 1.0; } if v[0] > x { break 'b 2.0; } 3.0 }; vec![r] }
pub fn mulf_0(_v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { vec![x.mul_add(2.0, 1.0)] }
pub fn mulf_1(_v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { vec![x.powi(3)] }
pub fn mulf_2(_v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { vec![x.abs()] }
pub fn mulf_3(_v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { vec![x.signum()] }
pub fn mulf_4(_v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { vec![x.max(1.0)] }
pub fn mulf_5(_v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { vec![x.min(1.0)] }
pub fn mulf_6(_v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { vec![x.clamp(-1.0, 1.0)] }
pub fn mulf_7(_v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { vec![x.floor()] }
pub fn mulf_8(_v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { vec![x.ceil()] }
pub fn mulf_9(_v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { vec![x.round()] }
pub fn mulf_10(_v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { vec![x.trunc()] }
pub fn mulf_11(_v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { vec![x.fract()] }
pub fn mulf_12(_v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { vec![x.hypot(3.0)] }
pub fn mulf_13(_v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { vec![x.rem_euclid(2.0)] }
pub fn mulf_14(_v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { vec![x % 2.0] }
pub fn mulf_15(_v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { vec![x.copysign(-1.0)] }
pub fn mulf_16(_v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { vec![x.recip().abs().min(9.0)] }
pub fn mulf_17(_v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { vec![n as f64] }
pub fn ints_0(v: &[f64], w: &[f64], n: usize, _x: f64) -> Vec<f64> { vec![v.len().saturating_sub(n) as f64] }
pub fn ints_1(v: &[f64], w: &[f64], n: usize, _x: f64) -> Vec<f64> { vec![n.pow(2) as f64] }
pub fn ints_2(v: &[f64], w: &[f64], n: usize, _x: f64) -> Vec<f64> { vec![n.max(2) as f64] }
pub fn ints_3(v: &[f64], w: &[f64], n: usize, _x: f64) -> Vec<f64> { vec![n.min(w.len()) as f64] }
pub fn ints_4(v: &[f64], w: &[f64], n: usize, _x: f64) -> Vec<f64> { vec![n.abs_diff(2) as f64] }
pub fn ints_5(v: &[f64], w: &[f64], n: usize, _x: f64) -> Vec<f64> { vec![(n % 2) as f64] }
pub fn ints_6(v: &[f64], w: &[f64], n: usize, _x: f64) -> Vec<f64> { vec![(n / 2) as f64] }
pub fn ints_7(v: &[f64], w: &[f64], n: usize, _x: f64) -> Vec<f64> { vec![n.clamp(1, 2) as f64] }
pub fn ints_8(v: &[f64], w: &[f64], n: usize, _x: f64) -> Vec<f64> { vec![v.len().checked_sub(n).map_or(-1.0, |a| a as f64)] }
pub fn ints_9(v: &[f64], w: &[f64], n: usize, _x: f64) -> Vec<f64> { vec![n.wrapping_add(1) as f64] }
pub fn ints_10(v: &[f64], w: &[f64], n: usize, _x: f64) -> Vec<f64> { vec![n.div_ceil(2) as f64] }
pub fn ints_11(v: &[f64], w: &[f64], n: usize, _x: f64) -> Vec<f64> { vec![n.is_power_of_two() as u8 as f64] }
pub fn ints_12(v: &[f64], w: &[f64], n: usize, _x: f64) -> Vec<f64> { vec![(n as i32 - 3) as f64] }
pub fn ints_13(v: &[f64], w: &[f64], n: usize, _x: f64) -> Vec<f64> { vec![(n as i32 - 3).abs() as f64] }
pub fn ints_14(v: &[f64], w: &[f64], n: usize, _x: f64) -> Vec<f64> { vec![(n as i32 - 3).rem_euclid(2) as f64] }
pub fn ints_15(v: &[f64], w: &[f64], n: usize, _x: f64) -> Vec<f64> { vec![((n as i32 - 3) % 2) as f64] }
pub fn ints_16(v: &[f64], w: &[f64], n: usize, _x: f64) -> Vec<f64> { vec![((n as i32 - 3) / 2) as f64] }
pub fn ints_17(v: &[f64], w: &[f64], n: usize, _x: f64) -> Vec<f64> { vec![(n & 1) as f64] }
pub fn ints_18(v: &[f64], w: &[f64], n: usize, _x: f64) -> Vec<f64> { vec![(n ^ 1) as f64] }
pub fn ints_19(v: &[f64], w: &[f64], n: usize, _x: f64) -> Vec<f64> { vec![(n << 1) as f64] }
pub fn ints_20(v: &[f64], w: &[f64], n: usize, _x: f64) -> Vec<f64> { vec![(n >> 1) as f64] }
pub fn casts_0(v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { vec![x as i32 as f64] }
pub fn casts_1(v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { vec![x as usize as f64] }
pub fn casts_2(v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { vec![(x + 0.5) as i64 as f64] }
pub fn casts_3(v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { vec![v.len() as i32 as f64 - n as f64] }
pub fn casts_4(v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { vec![(n as i32 - 3).max(0) as usize as f64] }
pub fn bools_0(v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { let (a, b) = (x > 0.0, n > 1); vec![(a & b) as u8 as f64] }
pub fn bools_1(v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { let (a, b) = (x > 0.0, n > 1); vec![(a | b) as u8 as f64] }
pub fn bools_2(v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { let (a, b) = (x > 0.0, n > 1); vec![(a ^ b) as u8 as f64] }
pub fn bools_3(v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { let (a, b) = (x > 0.0, n > 1); vec![(a != b) as u8 as f64] }
pub fn bools_4(v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { let (a, b) = (x > 0.0, n > 1); vec![a.then_some(1.0).unwrap_or(2.0)] }
pub fn bools_5(v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { let (a, b) = (x > 0.0, n > 1); vec![b.then(|| v.len() as f64).unwrap_or(x)] }
pub fn bools_6(v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { let (a, b) = (x > 0.0, n > 1); vec![(a < b) as u8 as f64] }
pub fn bools_7(v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { let (a, b) = (x > 0.0, n > 1); vec![(!a) as u8 as f64] }
pub fn tuples_0(v: &[f64], w: &[f64], n: usize, x: f64) -> Vec<f64> { let a = (v.len(), n); let b = (w.len(), 2); vec![(a == b) as u8 as f64] }
pub fn tuples_1(v: &[f64], w: &[f64], n: usize, x: f64) -> Vec<f64> { let a = (v.len(), n); let b = (w.len(), 2); vec![(a < b) as u8 as f64] }
pub fn tuples_2(v: &[f64], w: &[f64], n: usize, x: f64) -> Vec<f64> { let a = (v.len(), n); let b = (w.len(), 2); vec![(a.max(b).1) as f64] }
pub fn tuples_3(v: &[f64], w: &[f64], n: usize, x: f64) -> Vec<f64> { let a = (v.len(), n); let b = (w.len(), 2); vec![((x, 1.0) < (0.5, 2.0)) as u8 as f64] }
pub fn arrays(_v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { let a = [x, 1.0, n as f64]; let b = a.map(|t| t * 2.0); let [p, q, r] = b; let mut o: Vec<f64> = a.iter().zip(&b).map(|(s, t)| s - t).collect(); o.push(p + q + r); o.extend(std::array::from_fn::<f64, 3, _>(|i| i as f64)); o }
pub fn match_guard(v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { vec![match n { 0 => 10.0, 1 | 2 if x > 0.0 => 20.0, 1..=3 => 30.0, k if k == v.len() => 40.0, _ => 50.0 }, match x { a if a < 0.0 => -1.0, a if a == 0.0 => 0.0, _ => 1.0 }, match (n > 1, x > 0.0) { (true, true) => 1.0, (true, false) => 2.0, (false, _) => 3.0 }] }
pub fn if_let_chain(v: &[f64], w: &[f64], n: usize, x: f64) -> Vec<f64> { if let (Some(a), Some(b)) = (v.get(n), w.get(n)) { vec![a * b] } else if let Some(a) = v.first() { vec![*a, x] } else { vec![] } }
pub fn closure_mut(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { let mut s = 0.0; let mut add = |a: f64| { s += a * x; s }; let mut o = vec![]; for a in v { o.push(add(*a)); } o.push(s); o }
fn twice(f: impl Fn(f64) -> f64, a: f64) -> f64 { f(f(a)) }
fn dynf(f: &dyn Fn(f64) -> f64, a: f64) -> f64 { f(a) }
pub fn closure_arg(_v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { vec![twice(|a| a * 2.0 + n as f64, x), dynf(&|a| a - 1.0, x), twice(f64::abs, x)] }
pub fn boxed(_v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { let f: Box<dyn Fn(f64) -> f64> = if n > 1 { Box::new(|a| a + 1.0) } else { Box::new(move |a| a * x) }; vec![f(x)] }
#[derive(Clone, Debug, PartialEq, PartialOrd, Default)]
struct S { a: f64, b: Vec<f64>, c: Option<usize> }
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum E { A, B, C }
pub fn structs_0(v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { let s = S { a: x, b: v.to_vec(), c: Some(n) }; let mut t = S { a: 1.0, ..s.clone() }; t.b.push(2.0); let S { a, ref b, c } = t; vec![a] }
pub fn structs_1(v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { let s = S { a: x, b: v.to_vec(), c: Some(n) }; let mut t = S { a: 1.0, ..s.clone() }; t.b.push(2.0); let S { a, ref b, c } = t; vec![b.len() as f64] }
pub fn structs_2(v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { let s = S { a: x, b: v.to_vec(), c: Some(n) }; let mut t = S { a: 1.0, ..s.clone() }; t.b.push(2.0); let S { a, ref b, c } = t; vec![c.unwrap() as f64] }
pub fn structs_3(v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { let s = S { a: x, b: v.to_vec(), c: Some(n) }; let mut t = S { a: 1.0, ..s.clone() }; t.b.push(2.0); let S { a, ref b, c } = t; vec![(s == t) as u8 as f64] }
pub fn structs_4(v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { let s = S { a: x, b: v.to_vec(), c: Some(n) }; let mut t = S { a: 1.0, ..s.clone() }; t.b.push(2.0); let S { a, ref b, c } = t; vec![S::default().a] }
pub fn structs_5(v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { let s = S { a: x, b: v.to_vec(), c: Some(n) }; let mut t = S { a: 1.0, ..s.clone() }; t.b.push(2.0); let S { a, ref b, c } = t; vec![(s.clone() == s) as u8 as f64] }
pub fn enums_0(v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { let e = if n > 2 { E::A } else if x > 0.0 { E::B } else { E::C }; vec![(e == E::B) as u8 as f64] }
pub fn enums_1(v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { let e = if n > 2 { E::A } else if x > 0.0 { E::B } else { E::C }; vec![(e < E::C) as u8 as f64] }
pub fn enums_2(v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { let e = if n > 2 { E::A } else if x > 0.0 { E::B } else { E::C }; vec![e as usize as f64] }
pub fn enums_3(v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { let e = if n > 2 { E::A } else if x > 0.0 { E::B } else { E::C }; vec![matches!(e, E::A | E::B) as u8 as f64] }
pub fn enums_4(v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { let e = if n > 2 { E::A } else if x > 0.0 { E::B } else { E::C }; vec![(e.max(E::B) == E::B) as u8 as f64] }
pub fn enums_5(v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { let e = if n > 2 { E::A } else if x > 0.0 { E::B } else { E::C }; vec![v.len() as f64] }
pub fn shadow_ref(v: &[f64], w: &[f64], n: usize, x: f64) -> Vec<f64> { let mut a = v.to_vec(); let mut b = w.to_vec(); { let r = if n > 1 { &mut a } else { &mut b }; r.push(x); if let Some(f) = r.first_mut() { *f = -1.0; } } a.extend(b); a }
pub fn nested(v: &[f64], w: &[f64], _n: usize, _x: f64) -> Vec<f64> { let m: Vec<Vec<f64>> = v.iter().map(|a| w.iter().map(|b| a * b).collect()).collect(); m.iter().map(|r| r.iter().sum()).collect() }
pub fn nested_mut(v: &[f64], w: &[f64], _n: usize, x: f64) -> Vec<f64> { let mut m = vec![vec![x; w.len()]; v.len()]; for (i, r) in m.iter_mut().enumerate() { for (j, a) in r.iter_mut().enumerate() { if i > j { *a = v[i] + w[j]; } } } m.into_iter().flatten().collect() }
pub fn tri(v: &[f64], _w: &[f64], _n: usize, _x: f64) -> Vec<f64> { let n = v.len(); let mut o = vec![0.0; n * n]; for i in 0..n { for j in 0..=i { o[i * n + j] = v[i] - v[j]; o[j * n + i] = o[i * n + j]; } } o }
pub fn prefix(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { let mut o = vec![x]; for i in 0..v.len() { o.push(o[i] * 0.5 + v[i]); } o }
pub fn range_loops(v: &[f64], _w: &[f64], n: usize, _x: f64) -> Vec<f64> { let mut s = 0.0; for i in n..v.len() { s += v[i]; } let mut t = 0.0; for i in (0..v.len()).rev().step_by(2) { t = t * 2.0 + v[i]; } vec![s, t] }
pub fn while_two(v: &[f64], w: &[f64], _n: usize, _x: f64) -> Vec<f64> { let (mut i, mut j) = (0, 0); let mut o = vec![]; while i < v.len() && j < w.len() { if v[i] <= w[j] { o.push(v[i]); i += 1; } else { o.push(w[j]); j += 1; } } o }
pub fn panics(v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { assert!(x > -1.0, "small"); if n > 3 { panic!("n"); } vec![*v.get(n).unwrap()] }
pub fn asserts(v: &[f64], w: &[f64], n: usize, _x: f64) -> Vec<f64> { assert_eq!(v.len(), w.len()); assert_ne!(n, 2); v.iter().zip(w).map(|(a, b)| a + b).collect() }
const K: [f64; 3] = [1.0, 2.5, -3.0];
static T: f64 = 0.25;
pub fn consts(_v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { vec![K[n % 3] * x, T, K.iter().sum(), f64::EPSILON * 0.0, std::f64::consts::PI, K.len() as f64] }
trait Shape { const N: usize; fn area(&self) -> f64; fn twice(&self) -> f64 { 2.0 * self.area() + Self::N as f64 } }
struct Sq(f64);
struct Re(f64, f64);
impl Shape for Sq { const N: usize = 1; fn area(&self) -> f64 { self.0 * self.0 } }
impl Shape for Re { const N: usize = 2; fn area(&self) -> f64 { self.0 * self.1 } fn twice(&self) -> f64 { -self.area() } }
fn gen<T: Shape>(t: &T) -> f64 { t.twice() + t.area() }
pub fn traits_0(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { vec![gen(&Sq(x))] }
pub fn traits_1(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { vec![gen(&Re(x, 2.0))] }
pub fn traits_2(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { vec![Sq(v.len() as f64).twice()] }
struct It { k: usize, n: usize }
impl Iterator for It { type Item = f64; fn next(&mut self) -> Option<f64> { if self.k < self.n { self.k += 1; Some(self.k as f64) } else { None } } }
pub fn own_iter(_v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { let mut s = 0.0; for a in (It { k: 0, n }) { s = s * x + a; } vec![s] }
pub fn own_iter_sum(_v: &[f64], _w: &[f64], n: usize, _x: f64) -> Vec<f64> { vec![It { k: 0, n }.sum()] }
pub fn rec(_v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { fn f(n: usize, x: f64) -> f64 { if n == 0 { 1.0 } else { x * f(n - 1, x) } } vec![f(n, x)] }
pub fn const_gen_0(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { fn f<const N: usize>(a: [f64; N]) -> f64 { a.iter().sum::<f64>() + N as f64 } vec![f([x, 1.0])] }
pub fn const_gen_1(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { fn f<const N: usize>(a: [f64; N]) -> f64 { a.iter().sum::<f64>() + N as f64 } vec![f([x, 2.0, v.len() as f64])] }
pub fn into_iter_own(v: &[f64], w: &[f64], _n: usize, _x: f64) -> Vec<f64> { v.to_vec().into_iter().zip(w.to_vec()).map(|(a, b)| a.max(b)).collect() }
pub fn min_by_float(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { vec![v.iter().cloned().fold(f64::INFINITY, f64::min).min(99.0), v.iter().map(|a| (a - x).abs()).fold(0.0, f64::max)] }
pub fn sub_slices(v: &[f64], _w: &[f64], n: usize, _x: f64) -> Vec<f64> { let m = n.min(v.len()); let a = &v[..m]; let b = &v[m..]; let c = &v[m / 2..m]; vec![a.len() as f64, b.iter().sum(), c.iter().product(), b.first().copied().unwrap_or(7.0)] }
pub fn sub_slice_mut(v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { let mut o = v.to_vec(); let m = n.min(o.len()); let s = &mut o[m..]; for (i, a) in s.iter_mut().enumerate() { *a = x * i as f64; } o.swap_with_slice(&mut v.to_vec()); o }
pub fn map_windows_idx(v: &[f64], w: &[f64], _n: usize, _x: f64) -> Vec<f64> { v.iter().zip(w.iter().skip(1)).map(|(a, b)| a * b).collect() }
pub fn inspect(v: &[f64], _w: &[f64], _n: usize, _x: f64) -> Vec<f64> { let mut k = 0; let o: Vec<f64> = v.iter().inspect(|_| k += 1).copied().collect(); let mut o = o; o.push(k as f64); o }
pub fn cmp_slices_0(v: &[f64], w: &[f64], _n: usize, _x: f64) -> Vec<f64> { vec![v.partial_cmp(w).map_or(9.0, |o| o as i8 as f64)] }
pub fn cmp_slices_1(v: &[f64], w: &[f64], _n: usize, _x: f64) -> Vec<f64> { vec![(v < w) as u8 as f64] }
pub fn sort_unstable(v: &[f64], _w: &[f64], _n: usize, _x: f64) -> Vec<f64> { let mut o = v.to_vec(); o.sort_unstable_by(|a, b| b.total_cmp(a)); o }
pub fn is_sorted(v: &[f64], _w: &[f64], _n: usize, _x: f64) -> Vec<f64> { vec![v.is_sorted() as u8 as f64, v.windows(2).all(|p| p[0] <= p[1]) as u8 as f64] }
pub fn floats_special_0(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { vec![x.is_nan() as u8 as f64] }
pub fn floats_special_1(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { vec![x.is_finite() as u8 as f64] }
pub fn floats_special_2(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { vec![x.is_infinite() as u8 as f64] }
pub fn floats_special_3(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { vec![x.is_sign_negative() as u8 as f64] }
pub fn floats_special_4(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { vec![(x.sqrt().is_nan()) as u8 as f64 * 0.0] }
pub fn floats_special_5(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { vec![f64::from(v.len() as u32)] }
pub fn floats_special_6(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { vec![f64::max(x, -x)] }
pub fn floats_special_7(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { vec![x.to_degrees() * 0.0] }
pub fn floats_special_8(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { vec![x.sin().powi(2) + x.cos().powi(2)] }
pub fn cell(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { let c = std::cell::Cell::new(x); v.iter().for_each(|a| c.set(c.get() + a)); vec![c.get()] }
pub fn refcell(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { let c = std::cell::RefCell::new(x); for a in v { *c.borrow_mut() += a; } let r = *c.borrow(); vec![r] }
pub fn cow(v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { use std::borrow::Cow; let c: Cow<[f64]> = if n > 1 { Cow::Borrowed(v) } else { Cow::Owned(vec![x]) }; c.iter().sum::<f64>(); c.into_owned() }
pub fn deque(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { let mut d: std::collections::VecDeque<f64> = v.iter().copied().collect(); d.push_front(x); d.pop_back(); d.into_iter().collect() }
pub fn rc(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { let r = std::rc::Rc::new(v.to_vec()); let q = r.clone(); vec![q.len() as f64 + x] }
pub fn dyn_trait(v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { trait D { fn d(&self) -> f64; } impl D for Sq { fn d(&self) -> f64 { self.0 } } impl D for Re { fn d(&self) -> f64 { self.1 } } let a: &dyn D = if n > 1 { &Sq(1.0) } else { &Re(1.0, 5.0) }; vec![a.d() + x, v.len() as f64] }
pub fn any_then(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { let mut it = v.iter(); let a = it.any(|a| *a > x); vec![a as u8 as f64, it.len() as f64] }
pub fn all_then(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { let mut it = v.iter(); let a = it.all(|a| *a > x); vec![a as u8 as f64, it.sum()] }
pub fn find_then(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { let mut it = v.iter(); let a = it.find(|a| **a > x).copied().unwrap_or(9.0); vec![a, it.next().copied().unwrap_or(8.0)] }
pub fn nth_then(v: &[f64], _w: &[f64], n: usize, _x: f64) -> Vec<f64> { let mut it = v.iter(); let a = it.nth(n).copied().unwrap_or(9.0); vec![a, it.next().copied().unwrap_or(8.0)] }
pub fn pos_then(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { let mut it = v.iter(); let a = it.position(|a| *a > x).unwrap_or(9); let b = it.position(|a| *a > x).unwrap_or(9); vec![a as f64, b as f64] }
pub fn for_by_ref(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { let mut it = v.iter(); let mut s = 0.0; for a in it.by_ref() { if *a > x { break; } s += a; } vec![s, it.len() as f64] }
pub fn for_mut_ref(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { let mut it = v.iter(); let mut s = 0.0; for a in &mut it { if *a > x { break; } s += a; } vec![s, it.sum()] }
pub fn next_then(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { let mut it = v.iter(); let a = it.next().copied().unwrap_or(x); let mut o: Vec<f64> = it.copied().collect(); o.push(a); o }
pub fn while_let(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { let mut it = v.iter(); let mut s = 0.0; while let Some(a) = it.next() { if *a > x { break; } s += a; } vec![s, it.len() as f64] }
pub fn while_let2(v: &[f64], _w: &[f64], _n: usize, _x: f64) -> Vec<f64> { let mut it = v.iter(); let mut o = vec![]; while let (Some(a), Some(b)) = (it.next(), it.next()) { o.push(a * 10.0 + b); } o }
pub fn range_any(v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { let mut r = 0..v.len(); let a = r.any(|i| v[i] > x); vec![a as u8 as f64, r.len() as f64 * 0.0 + n as f64] }
pub fn iter_clone(v: &[f64], _w: &[f64], n: usize, _x: f64) -> Vec<f64> { let it = v.iter().skip(n); let a: f64 = it.clone().sum(); let b = it.fold(0.0, |s, t| s * 2.0 + t); vec![a, b] }
pub fn fold_early(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { let mut best: Option<(usize, f64)> = None; for (i, &a) in v.iter().enumerate() { match best { Some((_, b)) if b <= a => {} _ if a > x => {} _ => best = Some((i, a)) } } best.map_or(vec![], |(i, a)| vec![i as f64, a]) }
pub fn retain_idx(v: &[f64], w: &[f64], _n: usize, x: f64) -> Vec<f64> { let mut o = vec![]; let mut k = 0; for i in 0..v.len() { if v[i] > x { o.push(v[i]); k += 1; } else if i < w.len() { o.push(w[i]); } } o.push(k as f64); o }
pub fn early_return(v: &[f64], w: &[f64], _n: usize, x: f64) -> Vec<f64> { for (i, a) in v.iter().enumerate() { for (j, b) in w.iter().enumerate() { if a * b > x { return vec![i as f64, j as f64]; } } } vec![] }
pub fn rr(v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { let mut idx = n; for _ in 0..v.len() { idx += 1; if idx >= v.len() { idx = 0; } if v[idx] > x { return vec![idx as f64, v[idx]]; } } vec![idx as f64] }
pub fn rr_mod(v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { for k in 1..=v.len() { let idx = (n + k) % v.len(); if v[idx] > x { return vec![idx as f64, v[idx]]; } } vec![] }
pub fn swap_tuple(v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { let (mut a, mut b) = (x, 1.0); for _ in 0..n { (a, b) = (b, a + b); } vec![a, b, v.len() as f64] }
pub fn compound(v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { let mut o = v.to_vec(); for i in 0..o.len() { o[i] += x; o[i] *= 2.0; o[i] -= i as f64; o[i] /= 4.0; } if let Some(l) = o.last_mut() { *l = -*l; } let mut k = n; k += 2; k *= 3; k -= 1; k /= 2; k %= 5; o.push(k as f64); o }
pub fn matrix(v: &[f64], w: &[f64], _n: usize, _x: f64) -> Vec<f64> { let mut s = vec![0.0; v.len() * w.len()]; for (row, a) in s.chunks_exact_mut(w.len().max(1)).zip(v) { for (e, b) in row.iter_mut().zip(w) { *e = a * b; } } s }
pub fn dec_loop(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { let mut i = v.len(); let mut s = x; while i > 0 { i -= 1; s = s * 0.5 + v[i]; } vec![s] }
pub fn nested_opt(v: &[f64], w: &[f64], n: usize, x: f64) -> Vec<f64> { let o: Option<Option<f64>> = if n > 1 { Some(v.first().copied()) } else if x > 0.0 { Some(None) } else { None }; match o { Some(Some(a)) => vec![a], Some(None) => vec![1.0, 2.0], None => w.to_vec() } }
pub fn result_collect(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { v.iter().map(|a| if *a > x { None } else { Some(*a) }).collect::<Option<Vec<f64>>>().unwrap_or_default() }
pub fn rows(v: &[f64], w: &[f64], _n: usize, _x: f64) -> Vec<f64> { let m = v.len(); let mut o = vec![0.0; m]; for (j, b) in w.iter().enumerate().filter(|(j, _)| *j < m) { o[j] = *b; } o }
pub fn abs_cmp(v: &[f64], _w: &[f64], _n: usize, x: f64) -> Vec<f64> { v.iter().map(|a| if a.abs() <= x.abs() { a.signum() * x } else { a.min(x).max(-x) }).collect() }
pub fn xor_bits(v: &[f64], w: &[f64], n: usize, _x: f64) -> Vec<f64> { vec![(n ^ v.len()) as f64, (n | 2) as f64, (n & w.len()) as f64, (1 ^ n) as f64, (n >> v.len()) as f64, (2 << n) as f64] }
pub fn logs(_v: &[f64], _w: &[f64], n: usize, x: f64) -> Vec<f64> { vec![(n as f64 + 1.0).log10(), x.sinh(), x.cosh(), x.tanh(), x.exp(), x.exp2(), (n as f64 + 1.0).ln(), (x * x + 1.0).log2(), x.atan(), x.cbrt(), x.exp_m1(), x.tan()] }
