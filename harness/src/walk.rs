//! Traversals from both ends, in every interleaving (C05, C06): the graph of
//! Cursor says which item each call returns.
use crate::ctx::Ctx;
use crate::rng::Rng;
use crate::subject::*;
use crate::tables::*;
use crate::types::*;
use normalize_interval::Selection;
use normalize_interval::tine_tree::TineTree;
use std::fmt::Debug;

/// Drives one iterator along `dirs` (false: front). Item 0 is none.
fn drive<X: PartialEq + Clone + Debug, I: DoubleEndedIterator<Item = X>>(
    mut it: I, items: &[X], cur: &CursorTab, dirs: &[bool], tail: usize) -> Result<usize, (String, String, String)> {
    let n = items.len();
    let (mut f, mut b) = (0, 0);
    let item = |i: usize| if i == 0 { None } else { Some(items[i - 1].clone()) };
    let mut got_all: Vec<String> = vec![];
    for d in dirs {
        let (fi, bi) = cur.at(n, f, b);
        // size_hint must allow what really remains
        let left = n - f - b;
        let h = it.size_hint();
        if h.0 > left || h.1.is_some_and(|u| u < left) {
            return Err((format!("size_hint after {got_all:?}"), format!("{left} items remain"), format!("{h:?}")));
        }
        let (want, got) = if *d { (item(bi), it.next_back()) } else { (item(fi), it.next()) };
        got_all.push(format!("{}={got:?}", if *d { "next_back" } else { "next" }));
        if got != want { return Err((format!("calls {got_all:?}"), format!("{want:?}"), format!("{got:?}"))); }
        if *d && bi > 0 { b += 1; } else if !*d && fi > 0 { f += 1; }
    }
    // the rest in one of the provided ways
    let rest: Vec<X> = items[f..n - b].to_vec();
    let rev: Vec<X> = rest.iter().rev().cloned().collect();
    let k = rest.len();
    let lim = k + 3;
    let bad = |m: &str, w: String, g: String| Err((format!("{m} after {got_all:?}"), w, g));
    match tail {
        0 => { let g: Vec<X> = it.take(lim).collect(); if g != rest { return bad("collect", format!("{rest:?}"), format!("{g:?}")); } }
        1 => { let g: Vec<X> = it.rev().take(lim).collect(); if g != rev { return bad("rev().collect", format!("{rev:?}"), format!("{g:?}")); } }
        2 => {
            let g = it.nth(1);
            if g != rest.get(1).cloned() { return bad("nth(1)", format!("{:?}", rest.get(1)), format!("{g:?}")); }
            let g = it.next_back();
            let w = if k >= 3 { rest.last().cloned() } else { None };
            if g != w { return bad("next_back after nth(1)", format!("{w:?}"), format!("{g:?}")); }
        }
        3 => {
            let g = it.nth_back(1);
            if g != rev.get(1).cloned() { return bad("nth_back(1)", format!("{:?}", rev.get(1)), format!("{g:?}")); }
            let g = it.next();
            let w = if k >= 3 { rest.first().cloned() } else { None };
            if g != w { return bad("next after nth_back(1)", format!("{w:?}"), format!("{g:?}")); }
        }
        4 => { let g = it.last(); if g != rest.last().cloned() { return bad("last", format!("{:?}", rest.last()), format!("{g:?}")); } }
        5 => { let g = it.count(); if g != k { return bad("count", format!("{k}"), format!("{g}")); } }
        6 => { let g = it.fold(vec![], |mut v, x| { v.push(x); v }); if g != rest { return bad("fold", format!("{rest:?}"), format!("{g:?}")); } }
        7 => { let g = it.rfold(vec![], |mut v, x| { v.push(x); v }); if g != rev { return bad("rfold", format!("{rev:?}"), format!("{g:?}")); } }
        8 | 9 => {
            // to the last item and past it
            let back = tail == 9;
            let at = |it: &mut I, n: usize| if back { it.nth_back(n) } else { it.nth(n) };
            let w = if back { &rev } else { &rest };
            if k > 0 {
                let g = at(&mut it, k - 1);
                if g != w.last().cloned() { return bad(if back { "nth_back to the first" } else { "nth to the last" }, format!("{:?}", w.last()), format!("{g:?}")); }
            }
            let g = (at(&mut it, k), it.next(), it.next_back(), at(&mut it, 0));
            if g != (None, None, None, None) { return bad(if back { "nth_back past the first" } else { "nth past the last" }, "none, and none after it".into(), format!("{g:?}")); }
        }
        10 | 11 => {
            // the item in the middle is found, what was searched is gone
            let back = tail == 11;
            let w = if back { &rev } else { &rest };
            let mid = w.get(k / 2).cloned();
            let g = if back { it.rfind(|x| Some(x) == mid.as_ref()) } else { it.find(|x| Some(x) == mid.as_ref()) };
            if g != mid { return bad(if back { "rfind" } else { "find" }, format!("{mid:?}"), format!("{g:?}")); }
            let left: Vec<X> = w.iter().skip(k / 2 + 1).cloned().collect();
            let g: Vec<X> = if back { it.rev().take(lim).collect() } else { it.take(lim).collect() };
            if g != left { return bad("collect after the search", format!("{left:?}"), format!("{g:?}")); }
        }
        12 => {
            let mid = rest.get(k / 2).cloned();
            let g = it.position(|x| Some(x) == mid);
            if g != mid.as_ref().map(|_| k / 2) { return bad("position", format!("{}", k / 2), format!("{g:?}")); }
            let after = rest.get(k / 2 + 1).cloned();
            let g = it.any(|x| Some(x) == after);
            if g != after.is_some() { return bad("any after position", format!("{}", after.is_some()), format!("{g}")); }
            let left = k > k / 2 + 2;
            let g = it.all(|_| false);
            if g == left { return bad("all after any", format!("{}", !left), format!("{g}")); }
        }
        13 => { let mut g = vec![]; it.for_each(|x| g.push(x)); if g != rest { return bad("for_each", format!("{rest:?}"), format!("{g:?}")); } }
        14 => {
            let mut i = 0;
            let g: (Vec<X>, Vec<X>) = it.partition(|_| { i += 1; i % 2 == 1 });
            let w: (Vec<X>, Vec<X>) = (rest.iter().step_by(2).cloned().collect(), rest.iter().skip(1).step_by(2).cloned().collect());
            if g != w { return bad("partition", format!("{w:?}"), format!("{g:?}")); }
        }
        15 => {
            let w: Vec<X> = rest.iter().skip(1).step_by(2).cloned().collect();
            let g: Vec<X> = it.skip(1).step_by(2).collect();
            if g != w { return bad("skip(1).step_by(2)", format!("{w:?}"), format!("{g:?}")); }
        }
        16 => {
            let w: Vec<X> = rest.iter().take(k / 2).cloned().collect();
            let g: Vec<X> = it.by_ref().take(k / 2).collect();
            let (x, y) = (it.next_back(), if k - k / 2 > 1 { rest.get(k - 2).cloned() } else { None });
            if (&g, &x) != (&w, &if k > 0 { rest.last().cloned() } else { None }) { return bad("take by reference, then next_back", format!("{w:?}, {:?}", rest.last()), format!("{g:?}, {x:?}")); }
            let g = it.reduce(|_, x| x);
            if g != y { return bad("reduce", format!("{y:?}"), format!("{g:?}")); }
        }
        _ => { let g = it.eq(rest.iter().cloned()); if !g { return bad("eq", format!("{rest:?}"), "another sequence".into()); } }
    }
    Ok(dirs.len() + 1)
}
/// `last`, `count`, folds cannot be cut short, so an iterator that never ends
/// would hang there: they only run on iterators that ended when collected.
const SAFE_TAILS: usize = 4;
const TAILS: usize = 18;

/// Every interleaving of n + 2 calls, plus short prefixes with every tail.
pub fn all_interleavings<X, I, F>(make: F, items: &[X], cur: &CursorTab, what: &dyn Fn() -> String, c: &mut Ctx)
where X: PartialEq + Clone + Debug, I: DoubleEndedIterator<Item = X>, F: Fn() -> I {
    let n = items.len();
    let steps = n + 2;
    for bits in 0..1u32 << steps {
        let dirs: Vec<bool> = (0..steps).map(|i| bits >> i & 1 == 1).collect();
        c.at(10, n as u64, u64::from(bits), 0);
        one(&make, items, cur, &dirs, (bits % 2) as usize, what, c);
        if c.done() { return; }
    }
    for len in 0..=2usize.min(n + 1) {
        for bits in 0..1u32 << len {
            let dirs: Vec<bool> = (0..len).map(|i| bits >> i & 1 == 1).collect();
            for tail in 0..TAILS {
                c.at(11, n as u64, u64::from(bits), tail as u64);
                one(&make, items, cur, &dirs, tail, what, c);
                if c.done() { return; }
            }
        }
    }
}
fn one<X, I, F>(make: &F, items: &[X], cur: &CursorTab, dirs: &[bool], tail: usize, what: &dyn Fn() -> String, c: &mut Ctx) -> bool
where X: PartialEq + Clone + Debug, I: DoubleEndedIterator<Item = X>, F: Fn() -> I {
    debug_assert!(tail < TAILS && SAFE_TAILS <= TAILS);
    let show = || dirs.iter().map(|d| if *d { 'b' } else { 'f' }).collect::<String>();
    match c.guard(|| drive(make(), items, cur, dirs, tail)) {
        Ok(Ok(n)) => { c.cases += n as u64; c.traces += 1; true }
        Ok(Err((call, want, got))) => { c.cases += 1; c.fail(format!("{}: directions {}: {call}", what(), show()), want, got); false }
        Err(e) => { c.cases += 1; c.fail(format!("{}: directions {} then tail {tail}", what(), show()), "items of the decomposition, then none".into(), e); false }
    }
}

/// What asks for an order of the items: the least, the greatest, and whether
/// they ascend.
fn ordered<X, I, F>(make: F, items: &[X], what: &dyn Fn() -> String, c: &mut Ctx)
where X: Ord + Clone + Debug, I: DoubleEndedIterator<Item = X>, F: Fn() -> I {
    let n = items.len();
    for (f, b) in [(0, 0), (1, 0), (0, 1), (1, 1), (2, 1), (1, 2)] {
        if f + b > n + 1 { continue; }
        let left = || {
            let mut it = make();
            for _ in 0..f { let _ = it.next(); }
            for _ in 0..b { let _ = it.next_back(); }
            it
        };
        let rest: &[X] = if f + b < n { &items[f..n - b] } else { &[] };
        let key = |x: &X| x.clone();
        match c.guard(|| (left().min(), left().max(), left().is_sorted(), left().rev().is_sorted(), left().min_by_key(key), left().max_by(|x, y| x.cmp(y)))) {
            Err(e) => { c.fail(format!("{}: {f} from the front, {b} from the back, then min, max", what()), "no panic".into(), e); return }
            Ok(g) => {
                c.cases += 1;
                let (lo, hi) = (rest.first().cloned(), rest.last().cloned());
                let w = (lo.clone(), hi.clone(), true, rest.len() <= 1, lo, hi);
                if g != w { c.fail(format!("{}: {f} from the front, {b} from the back, then (min, max, is_sorted, rev is_sorted, min_by_key, max_by)", what()), format!("{w:?}"), format!("{g:?}")); return }
            }
        }
    }
}

/// C05 on selections.
pub fn selection_intervals<T: Elem>(e: &FinEmb<T>, t: &Regions, cur: &CursorTab, routes: &[usize], c: &mut Ctx) {
    let s = Sel(e);
    let mut rng = Rng::new(c.seed, &c.job);
    for m in 0..t.states() {
        let items: Vec<_> = t.runs[m as usize].iter().map(|r| interval_of(e, *r, 0)).collect();
        for &route in routes {
            let Some(v) = build_guarded(&s, t, m, route, &mut rng, c) else { return };
            let w = |k: &'static str| { let x = show(t, m); move || format!("{k} of {x} (route {route})") };
            all_interleavings(|| v.interval_iter(), &items, cur, &w("interval_iter"), c);
            all_interleavings(|| v.clone().into_interval_iter(), &items, cur, &w("into_interval_iter"), c);
            if c.done() { return; }
        }
        c.rows += 1;
    }
    c.sample(serde_json::json!({"job": c.job, "states": t.states(), "interleavings": "all of length items+2"}));
}
/// C05 on trees.
pub fn tree_intervals<T: Val>(e: &DenseEmb<T>, t: &Regions, q: &TreeTab, cur: &CursorTab, routes: &[usize], c: &mut Ctx) {
    let s = Tree(e, q);
    let mut rng = Rng::new(c.seed, &c.job);
    for m in 0..t.states() {
        let items: Vec<_> = t.runs[m as usize].iter().map(|r| s.raw(*r)).collect();
        for &route in routes {
            let Some(v) = build_guarded(&s, t, m, route, &mut rng, c) else { return };
            let v: TineTree<T> = v;
            let w = |k: &'static str| { let x = show(t, m); move || format!("{k} of {x} (route {route})") };
            all_interleavings(|| v.interval_iter(), &items, cur, &w("TineTree::interval_iter"), c);
            all_interleavings(|| v.clone().into_iter(), &items, cur, &w("TineTree::into_iter"), c);
            if c.done() { return; }
        }
        c.rows += 1;
    }
    c.sample(serde_json::json!({"job": c.job, "states": t.states(), "interleavings": "all of length items+2"}));
}
/// C06 on selections and intervals: positions that are blocks of several
/// values are left out, the rest are points.
pub fn points<T: Elem>(e: &FinEmb<T>, t: &Regions, cur: &CursorTab, max_points: usize, routes: &[usize], c: &mut Ctx) {
    let s = Sel(e);
    let mut rng = Rng::new(c.seed, &c.job);
    let blocks: u32 = (1..=e.k()).filter(|p| !e.single(*p)).map(|p| 1u32 << (p - 1)).sum();
    for m in 0..t.states() {
        if m & blocks != 0 || m.count_ones() as usize > max_points { continue; }
        let items: Vec<T> = (1..=e.k()).filter(|p| m >> (p - 1) & 1 == 1).map(|p| e.lo(p).clone()).collect();
        let w = |k: &'static str| { let x = show(t, m); move || format!("{k} of {x}") };
        for &route in routes {
            let Some(v) = build_guarded(&s, t, m, route, &mut rng, c) else { return };
            let v: Selection<T> = v;
            all_interleavings(|| v.iter(), &items, cur, &w("points (iter)"), c);
            ordered(|| v.iter(), &items, &w("points (iter)"), c);
            if c.done() { return; }
            all_interleavings(|| (&v).into_iter(), &items, cur, &w("points (&selection)"), c);
            ordered(|| (&v).into_iter(), &items, &w("points (&selection)"), c);
            all_interleavings(|| v.clone().into_iter(), &items, cur, &w("points (into_iter)"), c);
            ordered(|| v.clone().into_iter(), &items, &w("points (into_iter)"), c);
            if c.done() { return; }
        }
        if t.runs[m as usize].len() <= 1 {
            let r = t.runs[m as usize].first().copied().unwrap_or(NO_RANGE);
            for style in 0..IV_STYLES {
                let Ok(i) = c.guard(|| interval_of(e, r, style)) else { c.fail(format!("interval {r:?}"), "built".into(), "panic".into()); return };
                all_interleavings(|| i.iter(), &items, cur, &w("points of the interval (iter)"), c);
                ordered(|| i.iter(), &items, &w("points of the interval (iter)"), c);
                if c.done() { return; }
                all_interleavings(|| (&i).into_iter(), &items, cur, &w("points of the interval (&interval)"), c);
                ordered(|| (&i).into_iter(), &items, &w("points of the interval (&interval)"), c);
                all_interleavings(|| i.clone().into_iter(), &items, cur, &w("points of the interval (into_iter)"), c);
                ordered(|| i.clone().into_iter(), &items, &w("points of the interval (into_iter)"), c);
                if c.done() { return; }
            }
        }
        c.rows += 1;
    }
    c.sample(serde_json::json!({"job": c.job, "max_points": max_points, "interleavings": "all of length points+2"}));
}
