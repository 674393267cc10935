cases! {
// ---------------------------------------------------------------- Vec and slices
fn t_push(v: Vec<u8>, x: u8) -> bool { let n = v.len(); let mut w = v.clone(); w.push(x); w.len() == n + 1 && w[n] == x && (n == 0 || w[0] == v[0]) }
fn f_push(v: Vec<u8>, x: u8) -> bool { let mut w = v.clone(); w.push(x); w[0] == x }
fn t_pop(v: Vec<u8>) -> bool { let mut w = v.clone(); match w.pop() { Some(x) => v.last() == Some(&x) && w.len() + 1 == v.len(), None => v.is_empty() && w.is_empty() } }
fn f_pop(v: Vec<u8>) -> bool { let mut w = v.clone(); w.pop(); w.len() < v.len() }
fn t_push_pop(v: Vec<u8>, x: u8) -> bool { let mut w = v.clone(); w.push(x); w.pop() == Some(x) && w == v }
fn t_get(v: Vec<u8>, i: usize) -> bool { match v.get(i) { Some(x) => i < v.len() && *x == v[i], None => i >= v.len() } }
fn f_index(v: Vec<u8>, i: usize) -> bool { v[i] == v[i] }
fn f_get(v: Vec<u8>, i: usize) -> bool { v.get(i).is_some() }
fn t_get_mut(v: Vec<u8>, i: usize, x: u8) -> bool { let mut w = v.clone(); if let Some(r) = w.get_mut(i) { *r = x; w[i] == x && w.len() == v.len() } else { w == v } }
fn t_index_mut(v: Vec<u8>, x: u8) -> bool { let mut w = v.clone(); if w.len() > 2 { w[1] = x; w[1] == x && w[0] == v[0] && w[2] == v[2] } else { true } }
fn t_first_last(v: Vec<u8>) -> bool { if v.len() == 1 { v.first() == v.last() } else { v.first().is_some() == !v.is_empty() } }
fn f_first_last(v: Vec<u8>) -> bool { v.first() == v.last() }
fn t_truncate(v: Vec<u8>, n: usize) -> bool { let mut w = v.clone(); w.truncate(n); w.len() <= n && w.len() <= v.len() && (n < v.len() || w == v) }
fn f_truncate(v: Vec<u8>, n: usize) -> bool { let mut w = v.clone(); w.truncate(n); w.len() == n }
fn o_clear(v: Vec<u8>) -> usize { let mut w = v; w.clear(); w.len() }
fn t_reverse(v: Vec<u8>) -> bool { let mut w = v.clone(); w.reverse(); w.len() == v.len() && w.first() == v.last() }
fn o_reverse(v: Vec<u8>) -> Vec<u8> { let mut w = v; w.reverse(); w }
fn t_contains(v: Vec<u8>, x: u8, i: usize) -> bool { v.get(i) != Some(&x) || v.contains(&x) }
fn o_contains(v: Vec<u8>, x: u8) -> bool { v.contains(&x) }
fn f_contains(v: Vec<u8>, x: u8) -> bool { v.is_empty() || v.contains(&x) }
fn t_split_at(v: Vec<u8>, n: usize) -> bool { if n <= v.len() { let (a, b) = v.split_at(n); a.len() == n && a.len() + b.len() == v.len() && (b.is_empty() || b[0] == v[n]) } else { true } }
fn f_split_at(v: Vec<u8>, n: usize) -> bool { let (a, _) = v.split_at(n); a.len() == n }
fn o_split_at_checked(v: Vec<u8>, n: usize) -> Option<u8> { v.split_at_checked(n).and_then(|(_, b)| b.first().copied()) }
fn t_split_first(v: Vec<u8>) -> bool { match v.split_first() { Some((x, r)) => *x == v[0] && r.len() + 1 == v.len() && r.last().is_none_or(|y| Some(y) == v.last()), None => v.is_empty() } }
fn t_split_last(v: Vec<u8>) -> bool { match v.split_last() { Some((x, r)) => Some(x) == v.last() && r.len() + 1 == v.len(), None => v.is_empty() } }
fn o_starts_with(v: Vec<u8>, w: Vec<u8>) -> bool { v.starts_with(&w) }
fn t_starts_with(v: Vec<u8>, n: usize) -> bool { n > v.len() || v.starts_with(&v[..n]) }
fn f_starts_with(v: Vec<u8>, w: Vec<u8>) -> bool { !v.starts_with(&w) || v == w }
fn o_slice(v: Vec<u8>, a: usize, b: usize) -> usize { v[a..b].len() }
fn o_slice_inc(v: Vec<u8>, a: usize, b: usize) -> usize { v[a..=b].len() }
fn o_slice_from(v: Vec<u8>, a: usize) -> Option<u8> { v[a..].first().copied() }
fn f_slice(v: Vec<u8>, a: usize) -> bool { v[a..].len() + a == v.len() }
fn t_slice(v: Vec<u8>, a: usize) -> bool { a > v.len() || v[a..].len() + a == v.len() && v[..a].len() == a }
fn t_get_range(v: Vec<u8>, a: usize) -> bool { v.get(a..).is_some() == (a <= v.len()) }
fn o_first_chunk(v: Vec<u8>) -> bool { match v.first_chunk::<2>() { Some(a) => a[0] == v[0] && a[1] == v[1], None => v.len() < 2 } }
fn o_last_chunk(v: Vec<u8>) -> bool { match v.last_chunk::<2>() { Some(a) => a[1] == v[v.len() - 1] && a[0] == v[v.len() - 2], None => v.len() < 2 } }
fn t_extend_from_slice(v: Vec<u8>, w: Vec<u8>) -> bool { let mut r = v.clone(); r.extend_from_slice(&w); r.len() == v.len() + w.len() && (w.is_empty() || r[v.len()] == w[0]) && (v.is_empty() || r[0] == v[0]) }
fn o_extend_from_slice(v: Vec<u8>, w: Vec<u8>) -> Vec<u8> { let mut r = v; r.extend_from_slice(&w); r }
fn o_append(v: Vec<u8>, w: Vec<u8>) -> (Vec<u8>, Vec<u8>) { let (mut a, mut b) = (v, w); a.append(&mut b); (a, b) }
fn o_extend(v: Vec<u8>, w: Vec<u8>) -> Vec<u8> { let mut r = v; r.extend(w.into_iter().filter(|x| *x > 1)); r }
fn t_iter_mut(v: Vec<u8>) -> bool { let mut w = v.clone(); for x in w.iter_mut() { *x = 7; } w.len() == v.len() && w.iter().all(|x| *x == 7) }
fn f_iter_mut(v: Vec<u8>) -> bool { let mut w = v.clone(); for x in w.iter_mut() { if *x == 1 { *x = 2; } } w == v }
fn o_iter_mut(v: Vec<u8>) -> Vec<u8> { let mut w = v; for x in &mut w { if *x == 1 { *x = 2; } } w }
fn t_with_capacity(n: usize) -> bool { Vec::<u8>::with_capacity(n).is_empty() }
fn o_eq(v: Vec<u8>, w: Vec<u8>) -> bool { v == w }
fn t_eq(v: Vec<u8>, w: Vec<u8>) -> bool { v != w || v.len() == w.len() && v.first() == w.first() }
fn o_copy_from_slice(a: [u8; 4], v: Vec<u8>) -> [u8; 4] { let mut b = a; b.copy_from_slice(&v); b }
fn t_copy_part(a: [u8; 4], v: [u8; 2]) -> bool { let mut b = a; b[1..3].copy_from_slice(&v); b[0] == a[0] && b[1] == v[0] && b[2] == v[1] && b[3] == a[3] }
fn f_copy_part(a: [u8; 4], v: [u8; 2]) -> bool { let mut b = a; b[1..3].copy_from_slice(&v); b[2] == a[2] }
fn t_try_into(v: Vec<u8>) -> bool { match <[u8; 3]>::try_from(v.as_slice()) { Ok(a) => v.len() == 3 && a[2] == v[2], Err(_) => v.len() != 3 } }
fn o_from_fn(x: u8) -> [u8; 4] { std::array::from_fn(|i| if i == 2 { x } else { i as u8 }) }
fn o_array_pattern(v: Vec<u8>) -> u8 { match v.as_slice() { [] => 0, [x] => *x, [x, .., y] => if x < y { *x } else { *y } } }
fn t_to_vec(v: Vec<u8>) -> bool { let w = v.as_slice().to_vec(); w == v }
// ---------------------------------------------------------------- iterators
fn t_map_collect(v: Vec<u8>) -> bool { let w: Vec<bool> = v.iter().map(|x| *x > 3).collect(); w.len() == v.len() && (v.is_empty() || w[0] == (v[0] > 3)) }
fn o_map_collect(v: Vec<u8>) -> Vec<bool> { v.iter().map(|x| *x > 3).collect() }
fn f_map_collect(v: Vec<u8>) -> bool { let w: Vec<bool> = v.iter().map(|x| *x > 3).collect(); w.contains(&true) }
fn t_filter(v: Vec<u8>) -> bool { v.iter().filter(|x| **x > 1).all(|x| *x > 1) }
fn f_filter(v: Vec<u8>) -> bool { v.iter().filter(|x| **x > 1).all(|x| *x > 2) }
fn o_filter(v: Vec<u8>) -> Vec<u8> { v.into_iter().filter(|x| *x > 1).collect() }
fn o_filter_map(v: Vec<Option<u8>>) -> Vec<u8> { v.into_iter().filter_map(|x| x).collect() }
fn o_flatten(v: Vec<Option<u8>>) -> Vec<u8> { v.into_iter().flatten().collect() }
fn o_take_while(v: Vec<u8>) -> Vec<u8> { v.into_iter().take_while(|x| *x > 1).collect() }
fn o_map_while(v: Vec<Option<u8>>) -> Vec<u8> { v.into_iter().map_while(|x| x).collect() }
fn o_enumerate(v: Vec<u8>) -> Vec<usize> { v.into_iter().enumerate().map(|(i, _)| i).collect() }
fn o_rev(v: Vec<u8>) -> Vec<u8> { v.into_iter().rev().collect() }
fn t_rev_next(v: Vec<u8>) -> bool { v.iter().rev().next() == v.last() }
fn o_zip(v: Vec<u8>, w: Vec<u8>) -> Vec<bool> { v.iter().zip(&w).map(|(a, b)| a == b).collect() }
fn t_zip(v: Vec<u8>, w: Vec<u8>) -> bool { let n = v.iter().zip(w.iter()).count(); n <= v.len() && n <= w.len() && (n == v.len() || n == w.len()) }
fn t_zip_all(v: Vec<u8>, w: Vec<u8>) -> bool { !(v.len() == w.len() && v.iter().zip(&w).all(|(a, b)| a == b)) || v == w }
fn f_zip_all(v: Vec<u8>, w: Vec<u8>) -> bool { !v.iter().zip(&w).all(|(a, b)| a == b) || v == w }
fn o_chain(v: Vec<u8>, w: Vec<u8>) -> Vec<u8> { v.into_iter().chain(w).collect() }
fn t_chain_any(v: Vec<u8>, w: Vec<u8>, x: u8) -> bool { v.iter().chain(w.iter()).any(|y| *y == x) == (v.iter().any(|y| *y == x) || w.iter().any(|y| *y == x)) }
fn o_take(v: Vec<u8>, n: usize) -> Vec<u8> { v.into_iter().take(n).collect() }
fn o_skip(v: Vec<u8>, n: usize) -> Vec<u8> { v.into_iter().skip(n).collect() }
fn t_skip_next(v: Vec<u8>, n: usize) -> bool { v.iter().skip(n).next() == v.get(n) }
fn t_nth(v: Vec<u8>, n: usize) -> bool { v.iter().nth(n) == v.get(n) }
fn f_nth(v: Vec<u8>, n: usize) -> bool { v.iter().nth(n) == v.get(n + 1) }
fn o_nth_twice(v: Vec<u8>, n: usize) -> Option<u8> { let mut i = v.iter(); i.nth(n); i.next().copied() }
fn t_last(v: Vec<u8>) -> bool { v.iter().last() == v.last() }
fn t_count(v: Vec<u8>) -> bool { v.iter().count() == v.len() }
fn o_count(v: Vec<u8>) -> usize { v.iter().filter(|x| **x > 1).count() }
fn f_count(v: Vec<u8>) -> bool { v.iter().filter(|x| **x > 1).count() < 3 }
fn t_count_le(v: Vec<u8>) -> bool { v.iter().filter(|x| **x > 1).count() <= v.len() }
fn o_any(v: Vec<u8>) -> bool { v.iter().any(|x| *x > 3) }
fn o_all(v: Vec<u8>) -> bool { v.iter().all(|x| *x > 3) }
fn t_any_all(v: Vec<u8>) -> bool { v.iter().any(|x| *x > 3) == !v.iter().all(|x| *x <= 3) }
fn o_find(v: Vec<u8>) -> Option<u8> { v.into_iter().find(|x| *x > 1) }
fn t_find(v: Vec<u8>) -> bool { match v.iter().find(|x| **x > 1) { Some(x) => *x > 1 && v.contains(x), None => v.iter().all(|x| *x <= 1) } }
fn o_position(v: Vec<u8>) -> Option<usize> { v.iter().position(|x| *x > 1) }
fn t_position(v: Vec<u8>) -> bool { match v.iter().position(|x| *x > 1) { Some(i) => v[i] > 1, None => v.iter().all(|x| *x <= 1) } }
fn f_position(v: Vec<u8>) -> bool { match v.iter().position(|x| *x > 1) { Some(i) => i == 0, None => true } }
fn o_find_map(v: Vec<Option<u8>>) -> Option<u8> { v.into_iter().find_map(|x| x) }
fn o_fold(v: Vec<u8>) -> usize { v.iter().fold(0usize, |a, x| a + *x as usize) }
fn o_fold_last(v: Vec<u8>) -> Option<u8> { v.iter().fold(None, |_, x| Some(*x)) }
fn o_try_fold(v: Vec<u8>) -> Option<u8> { v.iter().try_fold(0u8, |a, x| a.checked_add(*x)) }
fn o_try_for_each(v: Vec<u8>) -> Result<u8, u8> { v.iter().try_for_each(|x| if *x > 2 { Err(*x) } else { Ok(()) }).map(|_| 0) }
fn t_try_for_each(v: Vec<u8>) -> bool { v.iter().try_for_each(|x| if *x > 2 { Err(*x) } else { Ok(()) }).is_ok() == v.iter().all(|x| *x <= 2) }
fn o_partition(v: Vec<u8>) -> (Vec<u8>, Vec<u8>) { v.into_iter().partition(|x| *x > 1) }
fn o_unzip(v: Vec<(u8, u8)>) -> (Vec<u8>, Vec<u8>) { v.into_iter().unzip() }
fn o_collect_result(v: Vec<Result<u8, u8>>) -> Result<Vec<u8>, u8> { v.into_iter().collect() }
fn o_collect_option(v: Vec<Option<u8>>) -> Option<Vec<u8>> { v.into_iter().collect() }
fn t_collect_result(v: Vec<Result<u8, u8>>) -> bool { let n = v.len(); match v.into_iter().collect::<Result<Vec<_>, _>>() { Ok(w) => w.len() == n, Err(_) => n > 0 } }
fn o_for_each(v: Vec<u8>) -> Vec<u8> { let mut w = vec![]; v.iter().for_each(|x| if *x != 2 { w.push(*x) }); w }
fn o_inspect(v: Vec<u8>) -> usize { let mut n = 0; let m = v.iter().inspect(|_| n += 1).filter(|x| **x > 1).count(); n + m }
fn o_next_back(v: Vec<u8>) -> (Option<u8>, Option<u8>) { let mut i = v.iter().copied(); (i.next_back(), i.next()) }
fn o_from_iter_fn(n: u8) -> usize { let mut k = n; std::iter::from_fn(|| if k > 0 { k -= 1; Some(k) } else { None }).count() }
fn o_once(v: Vec<u8>, x: u8) -> Vec<u8> { std::iter::once(x).chain(v).collect() }
fn o_range(a: u8, b: u8) -> usize { let mut n = 0; for _ in a..b { n += 1 } n }
fn t_range(a: u8, b: u8) -> bool { (a..b).all(|x| x >= a && x < b) }
fn f_range(a: u8, b: u8) -> bool { (a..=b).all(|x| x >= a && x < b) }
fn o_range_inc(a: u8, b: u8) -> usize { let mut n = 0; for _ in a..=b { n += 1 } n }
fn o_range_zip(v: Vec<u8>) -> Vec<usize> { (3..).zip(v).map(|(i, _)| i).collect() }
fn o_by_ref(v: Vec<u8>) -> (usize, usize) { let mut i = v.iter(); let a = i.by_ref().take_while(|x| **x > 1).count(); (a, i.count()) }
fn o_loop(v: Vec<u8>) -> usize { let mut n = 0; for x in &v { if *x == 9 { break } if *x == 0 { continue } n += 1; } n }
fn o_loop_pop(v: Vec<u8>) -> Vec<u8> { let mut v = v; let mut w = vec![]; while let Some(x) = v.pop() { w.push(x) } w }
fn o_loop_index(v: Vec<u8>) -> usize { let mut i = 0; let mut s = 0; while i < v.len() { if v[i] > 1 { s += 1 } i += 1; } s }
fn t_loop_index(v: Vec<u8>) -> bool { let mut i = 0; let mut ok = true; while i < v.len() { if v[i] > 1 { ok = false; break } i += 1; } ok == v.iter().all(|x| *x <= 1) }
fn o_btree_max(s: BTreeSet<u8>) -> (Option<u8>, Option<u8>) { (s.iter().copied().max(), s.iter().copied().min()) }
fn o_set_next_back(s: BTreeSet<u8>) -> Option<u8> { let mut i = s.iter(); i.next_back(); i.next_back().copied() }
fn o_map_iter_last(m: BTreeMap<u8, u8>) -> Option<(u8, u8)> { m.into_iter().last() }
// ---------------------------------------------------------------- maps
fn t_m_insert(m: BTreeMap<u8, u8>, k: u8, x: u8, j: u8) -> bool { let mut n = m.clone(); let old = n.insert(k, x); old == m.get(&k).copied() && n.get(&k) == Some(&x) && (j == k || n.get(&j) == m.get(&j)) }
fn f_m_insert(m: BTreeMap<u8, u8>, k: u8, x: u8) -> bool { let mut n = m.clone(); n.insert(k, x).is_none() }
fn o_m_insert_len(m: BTreeMap<u8, u8>, k: u8, x: u8) -> usize { let mut n = m; n.insert(k, x); n.len() }
fn t_m_remove(m: BTreeMap<u8, u8>, k: u8, j: u8) -> bool { let mut n = m.clone(); let old = n.remove(&k); old == m.get(&k).copied() && !n.contains_key(&k) && (j == k || n.get(&j) == m.get(&j)) }
fn o_m_remove_len(m: BTreeMap<u8, u8>, k: u8) -> usize { let mut n = m; n.remove(&k); n.len() }
fn f_m_remove(m: BTreeMap<u8, u8>, k: u8) -> bool { let mut n = m.clone(); n.remove(&k); n == m }
fn o_m_keys(m: BTreeMap<u8, u8>) -> Vec<u8> { m.keys().copied().collect() }
fn o_m_values(m: BTreeMap<u8, u8>) -> Vec<u8> { m.into_values().collect() }
fn t_m_iter(m: BTreeMap<u8, u8>) -> bool { m.iter().all(|(k, v)| m.get(k) == Some(v)) }
fn t_m_iter_any(m: BTreeMap<u8, u8>, k: u8) -> bool { m.keys().any(|j| *j == k) == m.contains_key(&k) }
fn f_m_iter(m: BTreeMap<u8, u8>) -> bool { m.iter().all(|(k, v)| k == v) }
fn t_m_len(m: BTreeMap<u8, u8>) -> bool { m.iter().count() == m.len() && m.is_empty() == (m.len() == 0) }
fn t_m_empty(m: BTreeMap<u8, u8>, k: u8) -> bool { !m.is_empty() || m.get(&k).is_none() }
fn t_m_entry(m: BTreeMap<u8, u8>, k: u8) -> bool { let mut n = m.clone(); let r = *n.entry(k).or_insert(5); r == m.get(&k).copied().unwrap_or(5) && n.get(&k) == Some(&r) }
fn f_m_entry(m: BTreeMap<u8, u8>, k: u8) -> bool { let mut n = m.clone(); *n.entry(k).or_insert(5) == 5 }
fn o_m_entry_mod(m: BTreeMap<u8, u8>, k: u8) -> Option<u8> { let mut n = m; n.entry(k).and_modify(|x| *x = 3).or_insert_with(|| 8); n.get(&k).copied() }
fn o_m_entry_default(m: BTreeMap<u8, u8>, k: u8) -> BTreeMap<u8, u8> { let mut n = m; *n.entry(k).or_default() |= 0; n }
fn o_m_entry_match(m: BTreeMap<u8, u8>, k: u8) -> u8 { use std::collections::btree_map::Entry; let mut n = m; match n.entry(k) { Entry::Occupied(mut e) => e.insert(1), Entry::Vacant(e) => *e.insert(2) } }
fn o_m_entry_remove(m: BTreeMap<u8, u8>, k: u8) -> BTreeMap<u8, u8> { use std::collections::btree_map::Entry; let mut n = m; if let Entry::Occupied(e) = n.entry(k) { e.remove(); } n }
fn o_m_append(m: BTreeMap<u8, u8>, n: BTreeMap<u8, u8>) -> (BTreeMap<u8, u8>, BTreeMap<u8, u8>) { let (mut a, mut b) = (m, n); a.append(&mut b); (a, b) }
fn t_m_append(m: BTreeMap<u8, u8>, n: BTreeMap<u8, u8>, k: u8) -> bool { let mut a = m.clone(); a.append(&mut n.clone()); a.get(&k) == n.get(&k).or(m.get(&k)) }
fn f_m_append(m: BTreeMap<u8, u8>, n: BTreeMap<u8, u8>, k: u8) -> bool { let mut a = m.clone(); a.append(&mut n.clone()); a.get(&k) == m.get(&k).or(n.get(&k)) }
fn t_m_extend(m: BTreeMap<u8, u8>, n: BTreeMap<u8, u8>, k: u8) -> bool { let mut a = m.clone(); a.extend(n.clone()); a.get(&k) == n.get(&k).or(m.get(&k)) }
fn o_m_retain(m: BTreeMap<u8, u8>) -> BTreeMap<u8, u8> { let mut a = m; a.retain(|k, v| k <= v); a }
fn t_m_retain(m: BTreeMap<u8, u8>, k: u8) -> bool { let mut a = m.clone(); a.retain(|k, v| k <= v); a.get(&k) == m.get(&k).filter(|v| k <= **v) }
fn o_m_get_mut(m: BTreeMap<u8, u8>, k: u8) -> BTreeMap<u8, u8> { let mut a = m; if let Some(x) = a.get_mut(&k) { *x = 1 } a }
fn o_m_first(m: BTreeMap<u8, u8>) -> (Option<u8>, Option<u8>) { (m.first_key_value().map(|(k, _)| *k), m.last_key_value().map(|(_, v)| *v)) }
fn t_m_first(m: BTreeMap<u8, u8>, k: u8) -> bool { !m.contains_key(&k) || m.first_key_value().is_some_and(|(f, _)| *f <= k) }
fn f_m_first(m: BTreeMap<u8, u8>, k: u8) -> bool { !m.contains_key(&k) || m.first_key_value().is_some_and(|(f, _)| *f >= k) }
fn o_m_pop_first(m: BTreeMap<u8, u8>) -> (Option<(u8, u8)>, BTreeMap<u8, u8>) { let mut a = m; (a.pop_first(), a) }
fn o_m_pop_last(m: BTreeMap<u8, u8>) -> (Option<(u8, u8)>, BTreeMap<u8, u8>) { let mut a = m; (a.pop_last(), a) }
fn o_m_collect(v: Vec<(u8, u8)>) -> BTreeMap<u8, u8> { v.into_iter().collect() }
fn t_m_collect(v: Vec<u8>, k: u8) -> bool { let m: BTreeMap<u8, bool> = v.iter().map(|x| (*x, true)).collect(); m.contains_key(&k) == v.contains(&k) }
fn f_m_collect(v: Vec<(u8, u8)>) -> bool { let m: BTreeMap<u8, u8> = v.iter().copied().collect(); m.len() == v.len() }
fn t_m_collect_len(v: Vec<(u8, u8)>) -> bool { let m: BTreeMap<u8, u8> = v.iter().copied().collect(); m.is_empty() == v.is_empty() }
fn f_m_index(m: BTreeMap<u8, u8>, k: u8) -> bool { m[&k] == m[&k] }
fn o_m_index(m: BTreeMap<u8, u8>, k: u8) -> u8 { m[&k] }
fn o_m_eq(m: BTreeMap<u8, u8>, n: BTreeMap<u8, u8>) -> bool { m == n }
fn o_m_get_kv(m: BTreeMap<u8, u8>, k: u8) -> Option<u8> { m.get_key_value(&k).map(|(a, b)| if a < b { *a } else { *b }) }
fn o_m_take(m: BTreeMap<u8, u8>) -> (usize, usize) { let mut a = m; let b = std::mem::take(&mut a); (a.len(), b.len()) }
fn o_m_loop(m: BTreeMap<u8, u8>) -> usize { let mut n = 0; for (k, v) in &m { if k < v { n += 1 } } n }
fn o_m_rev(m: BTreeMap<u8, u8>) -> Vec<u8> { m.keys().rev().copied().collect() }
// ---------------------------------------------------------------- sets
fn t_s_insert(s: BTreeSet<u8>, k: u8, j: u8) -> bool { let mut n = s.clone(); let new = n.insert(k); new != s.contains(&k) && n.contains(&k) && (j == k || n.contains(&j) == s.contains(&j)) }
fn f_s_insert(s: BTreeSet<u8>, k: u8) -> bool { let mut n = s.clone(); n.insert(k) }
fn o_s_remove(s: BTreeSet<u8>, k: u8) -> (bool, BTreeSet<u8>) { let mut n = s; (n.remove(&k), n) }
fn o_s_collect(v: Vec<u8>) -> BTreeSet<u8> { v.into_iter().collect() }
fn t_s_collect(v: Vec<u8>, x: u8) -> bool { v.iter().copied().collect::<BTreeSet<_>>().contains(&x) == v.contains(&x) }
fn f_s_collect(v: Vec<u8>) -> bool { v.iter().copied().collect::<BTreeSet<_>>().len() == v.len() }
fn o_s_subset(s: BTreeSet<u8>, r: BTreeSet<u8>) -> (bool, bool) { (s.is_subset(&r), s.is_disjoint(&r)) }
fn o_s_superset(s: BTreeSet<u8>, r: BTreeSet<u8>) -> bool { s.is_superset(&r) }
fn t_s_subset(s: BTreeSet<u8>, r: BTreeSet<u8>, x: u8) -> bool { !(s.is_subset(&r) && s.contains(&x)) || r.contains(&x) }
fn f_s_subset(s: BTreeSet<u8>, r: BTreeSet<u8>, x: u8) -> bool { !(s.is_subset(&r) && r.contains(&x)) || s.contains(&x) }
fn t_s_diff(s: BTreeSet<u8>, r: BTreeSet<u8>) -> bool { s.difference(&r).next().is_none() == s.is_subset(&r) }
fn f_s_diff(s: BTreeSet<u8>, r: BTreeSet<u8>) -> bool { s.difference(&r).next().is_none() == r.is_subset(&s) }
fn o_s_diff(s: BTreeSet<u8>, r: BTreeSet<u8>) -> Vec<u8> { s.difference(&r).copied().collect() }
fn o_s_inter(s: BTreeSet<u8>, r: BTreeSet<u8>) -> BTreeSet<u8> { s.intersection(&r).copied().collect() }
fn o_s_union(s: BTreeSet<u8>, r: BTreeSet<u8>) -> BTreeSet<u8> { s.union(&r).copied().collect() }
fn o_s_xor(s: BTreeSet<u8>, r: BTreeSet<u8>) -> BTreeSet<u8> { s.symmetric_difference(&r).copied().collect() }
fn o_s_first(s: BTreeSet<u8>) -> (Option<u8>, Option<u8>) { (s.first().copied(), s.last().copied()) }
fn o_s_pop(s: BTreeSet<u8>) -> (Option<u8>, BTreeSet<u8>) { let mut s = s; (s.pop_last(), s) }
fn o_s_append(s: BTreeSet<u8>, r: BTreeSet<u8>) -> BTreeSet<u8> { let (mut s, mut r) = (s, r); s.append(&mut r); s }
fn o_s_iter(s: BTreeSet<u8>) -> Vec<u8> { s.into_iter().collect() }
fn t_s_iter(s: BTreeSet<u8>) -> bool { s.iter().all(|x| s.contains(x)) }
fn t_s_dup(v: Vec<u8>) -> bool { let mut s = BTreeSet::new(); for x in &v { if !s.insert(*x) { return v.len() > 1 } } s.is_empty() == v.is_empty() }
fn f_s_dup(v: Vec<u8>) -> bool { let mut s = BTreeSet::new(); v.iter().all(|x| s.insert(*x)) }
fn o_s_eq(s: BTreeSet<u8>, v: Vec<u8>) -> bool { s == v.into_iter().collect() }
// ---------------------------------------------------------------- options, results, memory, integers
fn o_take_opt(x: Option<u8>) -> (Option<u8>, Option<u8>) { let mut a = x; let b = a.take(); (a, b) }
fn o_replace_opt(x: Option<u8>, y: u8) -> (Option<u8>, Option<u8>) { let mut a = x; let b = a.replace(y); (a, b) }
fn o_as_mut(x: Option<u8>) -> Option<u8> { let mut a = x; if let Some(y) = a.as_mut() { *y = 4 } a }
fn o_opt_chain(x: Option<u8>, y: Option<u8>) -> Option<u8> { x.and_then(|a| y.map(|b| if a > b { a } else { b })).or(y).filter(|z| *z > 1) }
fn o_opt_zip(x: Option<u8>, y: Option<u8>) -> bool { x.zip(y).is_some() || x.xor(y).is_some() || x.map_or(true, |a| a > 1) }
fn o_ok_or(x: Option<u8>) -> Result<u8, u8> { let a = x.ok_or(3u8)?; if a > 2 { return Err(a) } Ok(a) }
fn f_unwrap(x: Option<u8>) -> bool { x.unwrap() == x.unwrap() }
fn o_unwrap(x: Option<u8>) -> u8 { x.unwrap() }
fn o_expect(x: Result<u8, u8>) -> u8 { x.expect("a value") }
fn o_map_err(x: Result<u8, u8>) -> Result<u8, u8> { x.map_err(|e| e / 2).and_then(|a| if a > 1 { Ok(a) } else { Err(0) }) }
fn o_unwrap_or(x: Result<u8, u8>) -> u8 { x.unwrap_or_else(|e| e) }
fn o_swap(x: u8, y: u8) -> (u8, u8) { let (mut a, mut b) = (x, y); std::mem::swap(&mut a, &mut b); (a, b) }
fn o_replace(v: Vec<u8>) -> (usize, usize) { let mut a = v; let b = std::mem::replace(&mut a, vec![1, 2]); (a.len(), b.len()) }
fn o_add(x: u8, y: u8) -> u8 { x + y }
fn f_add(x: u8, y: u8) -> bool { x + y >= x }
fn o_sub(x: u8, y: u8) -> u8 { x - y }
fn o_mul(x: u8, y: u8) -> u8 { x * y }
fn o_div(x: u8, y: u8) -> u8 { x / y }
fn o_rem(x: u8, y: u8) -> u8 { x % y }
fn o_checked(x: u8, y: u8) -> (Option<u8>, Option<u8>) { (x.checked_add(y), x.checked_sub(y)) }
fn o_checked_mul(x: u8, y: u8) -> Option<u8> { x.checked_mul(y) }
fn o_wrapping(x: u8, y: u8) -> (u8, u8) { (x.wrapping_add(y), x.wrapping_sub(y)) }
fn t_wrapping(x: u8, y: u8) -> bool { x.wrapping_add(y).wrapping_sub(y) == x }
fn f_wrapping(x: u8, y: u8) -> bool { x.wrapping_add(y) >= x }
fn o_saturating(x: u8, y: u8) -> (u8, u8) { (x.saturating_add(y), x.saturating_sub(y)) }
fn t_saturating(x: u8, y: u8) -> bool { x.saturating_add(y) >= x && x.saturating_sub(y) <= x }
fn o_overflowing(x: u8, y: u8) -> (u8, bool) { x.overflowing_add(y) }
fn o_cast(x: usize) -> u8 { (x * 100) as u8 }
fn t_cast(x: u8) -> bool { x as usize as u8 == x && x as u32 <= 255 }
fn f_cast(x: usize) -> bool { x as u8 as usize == x }
fn o_try_from(x: usize) -> Option<u8> { u8::try_from(x * 100).ok() }
fn o_minmax(x: u8, y: u8) -> (u8, u8) { (x.min(y), std::cmp::max(x, y)) }
fn o_cmp(x: u8, y: u8) -> u8 { match x.cmp(&y) { std::cmp::Ordering::Less => 0, std::cmp::Ordering::Equal => 1, std::cmp::Ordering::Greater => 2 } }
fn o_tuple_eq(x: (u8, u8), y: (u8, u8)) -> bool { x == y }
fn o_bits(x: u8) -> u8 { (x << 1) & 0xF0 | (x >> 3) }
fn t_div(x: u8, y: u8) -> bool { y == 0 || (x / y) * y + x % y == x }
// ---------------------------------------------------------------- the shapes of the code under verification
fn t_dedup_loop(v: Vec<u8>, m: BTreeMap<u8, u8>) -> bool {
    let mut seals = m.clone();
    let mut closed = Vec::<u8>::new();
    for x in &v { match seals.remove(x) { Some(s) => closed.push(s), None => return true } }
    closed.len() == v.len() && v.iter().all(|x| !seals.contains_key(x) && m.contains_key(x))
}
fn f_dedup_loop(v: Vec<u8>, m: BTreeMap<u8, u8>) -> bool {
    let mut seals = m.clone();
    for x in &v { seals.remove(x); }
    seals.len() == m.len()
}
fn t_mismatch(m: BTreeMap<u8, u8>, v: Vec<u8>, k: u8) -> bool {
    let mismatch = m.iter().any(|(p, x)| v.get(*p as usize) != Some(x));
    mismatch || !m.contains_key(&k) || (k as usize) < v.len() && m[&k] == v[k as usize]
}
fn f_mismatch(m: BTreeMap<u8, u8>, v: Vec<u8>, k: u8) -> bool {
    let a: BTreeSet<u8> = v.iter().copied().collect();
    let b: BTreeSet<u8> = m.values().copied().collect();
    !b.is_subset(&a) || !m.contains_key(&k) || (k as usize) < v.len() && m[&k] == v[k as usize]
}
fn t_subset(m: BTreeMap<u8, u8>, v: Vec<u8>, k: u8) -> bool {
    let a: BTreeSet<u8> = v.iter().copied().collect();
    let b: BTreeSet<u8> = m.values().copied().collect();
    !b.is_subset(&a) || m.get(&k).is_none_or(|x| v.contains(x))
}
fn t_sources(m: BTreeMap<u8, Option<u8>>, s: BTreeMap<u8, u8>, k: u8) -> bool {
    let known: BTreeSet<(u8, u8)> = m.iter().filter_map(|(p, x)| x.map(|y| (*p, y))).collect();
    let mut seals = s.clone();
    seals.extend(known);
    seals.get(&k).copied() == m.get(&k).copied().flatten().or(s.get(&k).copied())
}
fn f_sources(m: BTreeMap<u8, Option<u8>>, s: BTreeMap<u8, u8>, k: u8) -> bool {
    let known: BTreeSet<(u8, u8)> = m.iter().filter_map(|(p, x)| x.map(|y| (*p, y))).collect();
    let mut seals: BTreeMap<u8, u8> = known.into_iter().collect();
    seals.extend(s.clone());
    seals.get(&k).copied() == m.get(&k).copied().flatten().or(s.get(&k).copied())
}
fn t_range_count(a: u8, b: u8) -> bool { let mut n = 0; for _ in a..b { n += 1 } n == b.saturating_sub(a) as usize }
fn t_range_count2(b: usize) -> bool { let mut n = 0; for i in 0..b { if n != i { return false } n += 1 } n == b }
fn t_while_count(b: usize) -> bool { let mut n = 0; while n < b { n += 1 } n == b }
fn t_while_down(b: usize) -> bool { let mut n = b; while n > 0 { n -= 1 } n == 0 }
fn t_count_all(v: Vec<u8>) -> bool { v.iter().filter(|x| **x > 1).count() != v.len() || v.iter().all(|x| *x > 1) }
fn t_set_len(v: Vec<u8>) -> bool { let s: BTreeSet<u8> = v.iter().copied().collect(); s.len() <= v.len() }
fn t_set_len_dup(v: Vec<u8>) -> bool { let s: BTreeSet<u8> = v.iter().copied().collect(); s.len() != v.len() || v.len() < 2 || v[0] != v[1] }
fn t_m_insert_len(m: BTreeMap<u8, u8>, k: u8, x: u8) -> bool { let mut n = m.clone(); n.insert(k, x); n.len() == m.len() + !m.contains_key(&k) as usize }
fn t_m_remove_len(m: BTreeMap<u8, u8>, k: u8) -> bool { let mut n = m.clone(); n.remove(&k); n.len() + m.contains_key(&k) as usize == m.len() }
fn t_pop_drain(s: BTreeSet<u8>) -> bool { let mut a = s.clone(); let mut v = vec![]; while let Some(x) = a.pop_first() { v.push(x) } v.iter().all(|x| s.contains(x)) && s.iter().all(|x| v.contains(x)) }
fn t_n_pop_map1(m: BTreeMap<u8, u8>) -> bool { let mut r = vec![]; for (k, x) in &m { r.push((*k, *x)); } let mut a = BTreeMap::new(); while let Some((k, x)) = r.pop() { a.insert(k, x); } a.iter().all(|(k, x)| m.get(k) == Some(x)) }
fn t_n_pop_map2(m: BTreeMap<u8, u8>) -> bool { let mut r = vec![]; for (k, x) in &m { r.push((*k, *x)); } let mut a = BTreeMap::new(); while let Some((k, x)) = r.pop() { a.insert(k, x); } m.iter().all(|(k, x)| a.get(k) == Some(x)) }
fn t_n_pop_map3(m: BTreeMap<u8, u8>) -> bool { let mut r = vec![]; let mut a = BTreeMap::new(); for (k, x) in &m { if *x < 9 { a.insert(*k, *x); } else { r.push((*k, *x)); } } while let Some((k, x)) = r.pop() { a.insert(k, x); } a.iter().all(|(k, x)| m.get(k) == Some(x)) }
fn t_n_pop_map4(m: BTreeMap<u8, u8>) -> bool { let mut r = vec![]; let mut a = BTreeMap::new(); for (k, x) in &m { if *x < 9 { a.insert(*k, *x); } else { r.push((*k, *x)); } } while let Some((k, x)) = r.pop() { a.insert(k, x); } m.iter().all(|(k, x)| a.get(k) == Some(x)) }
fn f_n_pop_map(m: BTreeMap<u8, u8>) -> bool { let mut r = vec![]; for (k, x) in &m { if *x > 9 { r.push((*k, *x)); } } let mut a = BTreeMap::new(); while let Some((k, x)) = r.pop() { a.insert(k, x); } m.iter().all(|(k, x)| a.get(k) == Some(x)) }
fn t_peek1(v: Vec<u8>) -> bool { let mut i = v.iter().peekable(); let a = i.peek().map(|x| **x); let b = i.next().copied(); a == b && i.next().copied() == v.get(1).copied() }
fn t_peek2(v: Vec<u8>) -> bool { let mut i = v.iter().peekable(); i.peek(); i.peek(); i.next() == v.first() && i.peek().copied() == v.get(1) }
fn t_peek3(v: Vec<u8>) -> bool { let mut i = v.iter().peekable(); let mut n = 0; while i.peek().is_some() { i.next(); n += 1; } n == v.len() }
fn f_peek(v: Vec<u8>) -> bool { let mut i = v.iter().peekable(); i.next(); i.peek().copied() == v.first() }
fn f_next_if(v: Vec<u8>) -> bool { let mut i = v.iter().peekable(); i.next_if(|x| **x > 3); i.next() == v.get(1) }
fn o_next_if(v: Vec<u8>) -> Vec<u8> { let mut i = v.iter().peekable(); let mut r = vec![]; if let Some(x) = i.next_if(|x| **x > 3) { r.push(*x); r.push(0) } if let Some(x) = i.next() { r.push(*x) } r }
fn o_peek_map(m: BTreeMap<u8, u8>) -> usize { let mut i = m.iter().peekable(); let mut n = 0; if i.next_if(|(k, _)| **k > 2).is_some() { n += 10; } if i.peek().is_some() { n += 1; } n }
fn t_next_if_all(v: Vec<u8>) -> bool { let mut i = v.iter().peekable(); while i.next_if(|x| **x > 3).is_some() {} match i.next() { None => v.iter().all(|x| *x > 3), Some(x) => *x <= 3 } }
fn t_pop_vec(v: Vec<u8>) -> bool { let mut a = v.clone(); let mut n = 0; while let Some(x) = a.pop() { if !v.contains(&x) { return false } n += 1; } n == v.len() }
fn t_remove0(v: Vec<u8>) -> bool { let mut a = v.clone(); if a.is_empty() { return true } let x = a.remove(0); x == v[0] && a.len() + 1 == v.len() && a.first() == v.get(1) }
fn f_remove(v: Vec<u8>, i: usize) -> bool { let mut a = v.clone(); a.remove(i) == v[0] }
fn o_insert(v: Vec<u8>, i: usize, x: u8) -> Vec<u8> { let mut a = v; a.insert(i, x); a }
fn o_swap_remove(v: Vec<u8>, i: usize) -> Vec<u8> { let mut a = v; a.swap_remove(i); a }
fn o_vswap(v: Vec<u8>, i: usize, j: usize) -> Vec<u8> { let mut a = v; a.swap(i, j); a }
fn o_v_retain(v: Vec<u8>) -> Vec<u8> { let mut a = v; a.retain(|x| *x > 1); a }
fn t_v_retain(v: Vec<u8>) -> bool { let mut a = v.clone(); a.retain(|x| *x > 1); a.iter().all(|x| *x > 1) && v.iter().all(|x| *x <= 1 || a.contains(x)) }
fn f_v_retain(v: Vec<u8>) -> bool { let mut a = v.clone(); a.retain(|x| *x > 1); a == v }
fn o_drain(v: Vec<u8>) -> (Vec<u8>, Vec<u8>) { let mut a = v; let b = a.drain(..).collect(); (a, b) }
fn o_split_off(v: Vec<u8>, i: usize) -> (Vec<u8>, Vec<u8>) { let mut a = v; let b = a.split_off(i); (a, b) }
fn o_sort(v: Vec<u8>) -> Vec<u8> { let mut a = v; a.sort(); a }
fn t_sort(v: Vec<u8>) -> bool { let mut a = v.clone(); a.sort(); a.len() == v.len() && v.iter().all(|x| a.contains(x)) && a.iter().all(|x| v.contains(x)) }
fn o_dedup(v: Vec<u8>) -> Vec<u8> { let mut a = v; a.sort_unstable(); a.dedup(); a }
fn o_sum(v: Vec<u8>) -> usize { v.iter().map(|x| *x as usize).sum() }
fn o_min_iter(v: Vec<u8>) -> (Option<u8>, Option<u8>) { (v.iter().copied().min(), v.iter().copied().max()) }
fn t_max_iter(v: Vec<u8>) -> bool { match v.iter().max() { Some(x) => v.contains(x) && v.iter().all(|y| y <= x), None => v.is_empty() } }
fn o_eq_iter(v: Vec<u8>, w: Vec<u8>) -> bool { v.iter().eq(w.iter()) }
fn t_eq_iter(v: Vec<u8>, w: Vec<u8>) -> bool { !v.iter().eq(w.iter()) || v == w }
fn f_eq_iter(v: Vec<u8>, w: Vec<u8>) -> bool { v.iter().eq(w.iter()) || v.len() != w.len() }
fn o_peek(v: Vec<u8>) -> usize { let mut i = v.iter().peekable(); let mut n = 0; while let Some(x) = i.next() { if i.peek() == Some(&x) { n += 1 } } n }
fn o_step_by(v: Vec<u8>) -> Vec<u8> { v.into_iter().step_by(2).collect() }
fn o_rposition(v: Vec<u8>) -> Option<usize> { v.iter().rposition(|x| *x > 1) }
fn o_rfind(v: Vec<u8>) -> Option<u8> { v.into_iter().rfind(|x| *x > 1) }
fn o_reduce(v: Vec<u8>) -> Option<u8> { v.into_iter().reduce(|a, b| if a > b { a } else { b }) }
fn o_skip_while(v: Vec<u8>) -> Vec<u8> { v.into_iter().skip_while(|x| *x > 1).collect() }
fn o_scan(v: Vec<u8>) -> Vec<u8> { v.into_iter().scan(0u8, |a, x| { *a = a.wrapping_add(x); Some(*a) }).collect() }
fn o_windows(v: Vec<u8>) -> bool { v.windows(2).all(|w| w[0] <= w[1]) }
fn o_chunks(v: Vec<u8>) -> usize { v.chunks(2).count() }
fn o_flat_map(v: Vec<u8>, w: Vec<u8>) -> Vec<u8> { v.into_iter().flat_map(|x| w.iter().map(move |y| if x < *y { x } else { *y })).collect() }
fn o_concat(v: Vec<u8>, w: Vec<u8>) -> Vec<u8> { [v.as_slice(), w.as_slice()].concat() }
fn o_m_range(m: BTreeMap<u8, u8>, k: u8) -> Vec<u8> { m.range(k..).map(|(_, v)| *v).collect() }
fn t_m_range(m: BTreeMap<u8, u8>, k: u8) -> bool { m.range(k..).all(|(a, b)| *a >= k && m.get(a) == Some(b)) && (!m.contains_key(&k) || m.range(k..).any(|(a, _)| *a == k)) }
fn o_m_split_off(m: BTreeMap<u8, u8>, k: u8) -> (BTreeMap<u8, u8>, BTreeMap<u8, u8>) { let mut a = m; let b = a.split_off(&k); (a, b) }
fn t_m_split_off(m: BTreeMap<u8, u8>, k: u8, j: u8) -> bool { let mut a = m.clone(); let b = a.split_off(&k); a.get(&j) == m.get(&j).filter(|_| j < k) && b.get(&j) == m.get(&j).filter(|_| j >= k) }
fn o_m_values_mut(m: BTreeMap<u8, u8>) -> BTreeMap<u8, u8> { let mut a = m; for x in a.values_mut() { *x = 1 } a }
fn t_m_values_mut(m: BTreeMap<u8, u8>, k: u8) -> bool { let mut a = m.clone(); for x in a.values_mut() { *x = 1 } a.contains_key(&k) == m.contains_key(&k) && a.get(&k).is_none_or(|x| *x == 1) }
fn o_m_first_entry(m: BTreeMap<u8, u8>) -> Option<u8> { let mut a = m; a.first_entry().map(|e| e.remove()) }
fn o_m_extract(m: BTreeMap<u8, u8>) -> usize { let (a, b): (BTreeMap<u8, u8>, BTreeMap<u8, u8>) = m.into_iter().partition(|(k, v)| k < v); a.len() + b.len() }
fn o_s_retain(s: BTreeSet<u8>) -> BTreeSet<u8> { let mut a = s; a.retain(|x| *x > 1); a }
fn t_s_retain(s: BTreeSet<u8>, x: u8) -> bool { let mut a = s.clone(); a.retain(|x| *x > 1); a.contains(&x) == (s.contains(&x) && x > 1) }
fn o_s_take(s: BTreeSet<u8>, x: u8) -> Option<u8> { let mut a = s; a.take(&x) }
fn o_s_get(s: BTreeSet<u8>, x: u8) -> Option<u8> { s.get(&x).copied() }
fn t_s_ops(s: BTreeSet<u8>, r: BTreeSet<u8>, x: u8) -> bool { (&s - &r).contains(&x) == (s.contains(&x) && !r.contains(&x)) && (&s | &r).contains(&x) == (s.contains(&x) || r.contains(&x)) && (&s & &r).contains(&x) == (s.contains(&x) && r.contains(&x)) }
fn t_hash(v: Vec<u8>, x: u8) -> bool { let m: HashMap<u8, usize> = v.iter().enumerate().map(|(i, y)| (*y, i)).collect(); match m.get(&x) { Some(i) => v[*i] == x, None => !v.contains(&x) } }
fn f_hash(v: Vec<u8>) -> bool { let m: HashMap<u8, usize> = v.iter().enumerate().map(|(i, y)| (*y, i)).collect(); m.iter().all(|(x, i)| v.iter().position(|y| y == x) == Some(*i)) }
fn o_try_arr(v: Vec<u8>) -> Option<u8> { match <[u8; 2]>::try_from(v) { Ok([a, b]) => Some(if a > b { a } else { b }), Err(_) => None } }
fn o_try_arr_err(v: Vec<u8>) -> Vec<u8> { match <[u8; 3]>::try_from(v) { Ok(a) => a[1..].to_vec(), Err(e) => e } }
fn o_try_arr_ref(v: Vec<u8>) -> bool { let a: Result<&[u8; 2], _> = (&v[..]).try_into(); a.is_ok() }
fn o_is_sorted(v: Vec<u8>) -> bool { v.is_sorted() }
fn o_binary(v: Vec<u8>, x: u8) -> bool { let mut a = v; a.sort(); a.binary_search(&x).is_ok() }
fn o_opt_ext(x: Option<u8>) -> (bool, bool) { (x.is_some_and(|y| y > 1), x.is_none_or(|y| y > 1)) }
fn o_opt_inspect(x: Option<u8>) -> u8 { let mut n = 0; x.inspect(|y| n = *y); n }
fn o_opt_get_or(x: Option<u8>) -> Option<u8> { let mut a = x; *a.get_or_insert(5) |= 0; a.insert(7); a }
fn o_opt_take_if(x: Option<u8>) -> (Option<u8>, Option<u8>) { let mut a = x; let b = a.take_if(|y| *y > 1); (a, b) }
fn o_transpose(x: Option<Result<u8, u8>>) -> Result<Option<u8>, u8> { x.transpose() }
fn o_let_else(x: Option<u8>) -> u8 { let Some(y) = x else { return 0 }; y }
fn o_labeled(v: Vec<u8>, w: Vec<u8>) -> bool { 'a: for x in &v { for y in &w { if x == y { continue 'a } } return false } true }
fn t_labeled(v: Vec<u8>, w: Vec<u8>, i: usize) -> bool { let mut ok = true; 'a: for x in &v { for y in &w { if x == y { continue 'a } } ok = false; break } !ok || i >= v.len() || w.contains(&v[i]) }
fn t_find_loop(v: Vec<u8>, x: u8) -> bool { let mut r = None; for (i, y) in v.iter().enumerate() { if *y == x { r = Some(i); break } } match r { Some(i) => v[i] == x, None => !v.contains(&x) } }
fn t_flag_loop(v: Vec<u8>, m: BTreeMap<u8, u8>, i: usize) -> bool { let mut bad = false; for x in &v { if !m.contains_key(x) { bad = true } } bad || i >= v.len() || m.contains_key(&v[i]) }
fn f_flag_loop(v: Vec<u8>, m: BTreeMap<u8, u8>, i: usize) -> bool { let mut bad = false; for x in &v { bad = !m.contains_key(x) } bad || i >= v.len() || m.contains_key(&v[i]) }
fn t_acc_loop(v: Vec<u8>) -> bool { let mut a = Vec::new(); for x in &v { if *x > 1 { a.push(*x) } } a.iter().all(|x| *x > 1 && v.contains(x)) }
fn t_two_loops(v: Vec<u8>, m: BTreeMap<u8, u8>) -> bool { let mut a = vec![]; for x in &v { let Some(y) = m.get(x) else { return true }; a.push(*y) } a.len() == v.len() && v.iter().zip(&a).all(|(x, y)| m.get(x) == Some(y)) }
fn t_index_loop(v: Vec<u8>, w: Vec<u8>) -> bool { if v.len() != w.len() { return true } for i in 0..v.len() { if v[i] != w[i] { return true } } v == w }
fn t_rec_all(v: Vec<u8>) -> bool { fn go(v: &[u8]) -> bool { match v { [] => true, [x, r @ ..] => *x > 1 && go(r) } } go(&v) == v.iter().all(|x| *x > 1) }
// ---------------------------------------------------------------- nested loops
fn t_n_contains(v: Vec<u8>, w: Vec<u8>, i: usize) -> bool { for x in &v { if !w.contains(x) { return true } } i >= v.len() || w.contains(&v[i]) }
fn t_n_any(v: Vec<u8>, w: Vec<u8>, i: usize) -> bool { for x in &v { if !w.iter().any(|y| y == x) { return true } } i >= v.len() || w.contains(&v[i]) }
fn t_n_all_any(v: Vec<u8>, w: Vec<u8>, i: usize) -> bool { !v.iter().all(|x| w.iter().any(|y| y == x)) || i >= v.len() || w.contains(&v[i]) }
fn t_n_all_contains(v: Vec<u8>, w: Vec<u8>, i: usize) -> bool { !v.iter().all(|x| w.contains(x)) || i >= v.len() || w.contains(&v[i]) }
fn f_n_all_any(v: Vec<u8>, w: Vec<u8>, i: usize) -> bool { !v.iter().all(|x| w.iter().any(|y| y == x)) || i >= w.len() || v.contains(&w[i]) }
fn t_n_none(v: Vec<u8>, w: Vec<u8>, i: usize) -> bool { for x in &v { for y in &w { if x == y { return true } } } i >= v.len() || !w.contains(&v[i]) }
fn t_n_flag(v: Vec<u8>, w: Vec<u8>, i: usize) -> bool { let mut all = true; for x in &v { let mut found = false; for y in &w { if x == y { found = true; } } if !found { all = false; } } !all || i >= v.len() || w.contains(&v[i]) }
fn t_n_flag2(v: Vec<u8>, w: Vec<u8>) -> bool { let mut all = true; for x in &v { let mut found = false; for y in &w { if x == y { found = true; break } } if !found { all = false; break } } all == v.iter().all(|x| w.contains(x)) }
fn t_n_missing(v: Vec<u8>, w: Vec<u8>, i: usize) -> bool { let mut m = vec![]; for x in &v { if !w.contains(x) { m.push(*x) } } !m.is_empty() || i >= v.len() || w.contains(&v[i]) }
fn t_n_missing2(v: Vec<u8>, w: Vec<u8>) -> bool { let mut m = vec![]; for x in &v { if !w.iter().any(|y| y == x) { m.push(*x) } } m.iter().all(|x| !w.contains(x)) }
fn t_n_missing3(v: Vec<u8>, w: Vec<u8>) -> bool { let m: Vec<u8> = v.iter().copied().filter(|x| !w.contains(x)).collect(); m.iter().all(|x| !w.contains(x)) && v.iter().all(|x| w.contains(x) || m.contains(x)) }
fn t_n_find(v: Vec<u8>, w: Vec<u8>) -> bool { match v.iter().find(|x| !w.contains(x)) { Some(x) => !w.contains(x), None => v.iter().all(|x| w.contains(x)) } }
fn t_n_find_map(v: Vec<u8>, w: Vec<u8>) -> bool { match v.iter().position(|x| !w.iter().any(|y| y == x)) { Some(k) => !w.contains(&v[k]), None => v.iter().all(|x| w.contains(x)) } }
fn f_n_flag(v: Vec<u8>, w: Vec<u8>, i: usize) -> bool { let mut all = true; for x in &v { let mut found = false; for y in &w { found = x == y; } if !found { all = false; } } all || i >= v.len() || !w.contains(&v[i]) }
fn t_n_map(v: Vec<u8>, m: BTreeMap<u8, u8>, i: usize) -> bool { for x in &v { let mut ok = false; for (k, y) in &m { if k == x && *y > 3 { ok = true; break } } if !ok { return true } } i >= v.len() || m[&v[i]] > 3 }
fn t_n_pairs(v: Vec<u8>) -> bool { for i in 0..v.len() { for j in 0..i { if v[i] == v[j] { return true } } } v.len() < 3 || v[0] != v[2] }
fn t_n_pairs2(v: Vec<u8>) -> bool { let mut dup = false; for i in 0..v.len() { for j in i + 1..v.len() { if v[i] == v[j] { dup = true } } } dup || v.len() < 3 || v[0] != v[2] }
fn t_n_skip(v: Vec<u8>) -> bool { for (i, x) in v.iter().enumerate() { if v[..i].contains(x) { return true } } v.len() < 3 || v[0] != v[2] }
fn t_n_seen(v: Vec<u8>) -> bool { let mut seen = vec![]; for x in &v { if seen.contains(x) { return true } seen.push(*x) } v.len() < 3 || v[0] != v[2] }
fn t_n_seen_set(v: Vec<u8>) -> bool { let mut seen = BTreeSet::new(); for x in &v { if !seen.insert(*x) { return true } } v.len() < 3 || v[0] != v[2] }
fn f_n_seen_set(v: Vec<u8>) -> bool { let mut seen = BTreeSet::new(); for x in &v { if *x > 1 && !seen.insert(*x) { return true } } v.len() < 3 || v[0] != v[2] }
}
