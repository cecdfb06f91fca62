//! Records runs of the real code, one line per public call with its arguments
//! and everything it returned, to be judged by TLC (PoolTrace, WordTrace).
//! A panic is recorded as an event no specification explains.
use crate::rng::Rng;
use crate::subject::*;
use crate::tables::Raw3;
use crate::types::*;
use normalize_interval::normalize::Finite;
use normalize_interval::raw_interval::RawInterval;
use normalize_interval::tine_tree::TineTree;
use normalize_interval::{Bound, Interval, Selection};
use serde_json::{json, Value};
use std::cell::Cell;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

const SLOTS: usize = 4;
/// lines longer than this are recorded more sparingly (WideTrace)
const BIG: usize = 1000;
fn same(mut it: impl Iterator<Item = bool>) -> i64 {
    let first = it.next().expect("a value");
    if it.all(|x| x == first) { b(first) } else { -9 }
}
fn b(x: bool) -> i64 { i64::from(x) }

/// The recorded side of one kind of value.
pub trait Rec {
    type V: Clone + PartialEq + std::hash::Hash;
    fn n(&self) -> usize;
    fn empty(&self) -> Self::V;
    /// an interval from a triple over value indexes
    fn edit(&self, op: &str, v: &mut Self::V, w: Raw3);
    fn binary(&self, op: &str, x: &Self::V, y: &Self::V) -> Self::V;
    fn complement(&self, x: &Self::V) -> Self::V;
    fn collect(&self, ws: &[Raw3]) -> Self::V;
    fn extend(&self, v: &mut Self::V, ws: &[Raw3]);
    fn copy(&self, v: &Self::V, how: usize) -> Self::V;
    fn runs(&self, v: &Self::V) -> Vec<Raw3>;
    fn meets(&self, x: &Self::V, y: &Self::V) -> i64;
    /// are the values at a position in it (-9: some are, some not)
    fn has(&self, v: &Self::V, pos: usize) -> i64;
    /// the positions there are values for
    fn positions(&self) -> Vec<usize>;
    /// every query but membership
    fn queries(&self, v: &Self::V) -> Value;
    fn walk(&self, v: &Self::V, t: &Trip, owned: bool) -> Value;
    fn points(&self, v: &Self::V, t: &Trip, owned: bool) -> Option<Value>;
    /// if there are too many points to walk through: how many single ones come
    /// first, how many last, and how many besides one for each position
    fn far(&self, v: &Self::V) -> Option<(usize, usize, u128)>;
    fn random_interval(&self, r: &mut Rng) -> Raw3;
    /// an interval starting at the value p with the next one `room` away
    fn short(&self, p: usize, room: usize, r: &mut Rng) -> Raw3;
    /// how close short intervals can begin to each other
    fn tightest(&self) -> usize;
    /// an interval that leaves little out
    fn long(&self, r: &mut Rng) -> Raw3;
    /// saved and loaded (without the feature there is no such call)
    fn reloaded(&self, v: &Self::V, format: usize) -> Option<Result<Self::V, String>>;
}
#[cfg(feature = "serde")]
fn reload<V: Saveable>(v: &V, format: usize) -> Option<Result<V, String>> { Some(crate::saved::reload(v, format)) }
#[cfg(not(feature = "serde"))]
fn reload<V>(_: &V, _: usize) -> Option<Result<V, String>> { None }
/// A traversal to be driven: calls [side, skip] (see Traversal.tla), and
/// whether the rest is counted.
pub struct Trip { pub d: Vec<[i64; 2]>, pub count: bool }
impl Trip {
    /// for some `len` items; `whole`: all the way, otherwise a few calls
    pub fn random(len: usize, r: &mut Rng, whole: bool) -> Self {
        let lean = r.below(5);
        let skips = r.chance(1, 3);
        let n = if whole { len + 2 } else { r.below(40) };
        let mut d: Vec<[i64; 2]> = (0..n).map(|_| {
            let k = if skips && r.chance(1, 5) { match r.below(4) { 0 => r.below(1 + len), 1 => 1, _ => r.below(4) } } else { 0 };
            [i64::from(r.below(4) < lean), k as i64]
        }).collect();
        if r.chance(1, 4) { d.truncate(r.below(1 + n)); d.push([2, 0]); return Self { d, count: false }; }
        let count = r.chance(1, 4);
        if count { d.truncate(r.below(1 + n)); }
        Self { d, count }
    }
    /// so many items from the front and so many from the back at most
    pub fn near(mut front: usize, mut back: usize, r: &mut Rng) -> Self {
        let lean = r.below(5);
        let mut d = vec![];
        for _ in 0..r.below(60) {
            let side = usize::from(r.below(4) < lean);
            let left = if side == 0 { &mut front } else { &mut back };
            if *left == 0 { continue; }
            let k = match r.below(8) { 0 => r.below(*left), 1 => r.below(4).min(*left - 1), _ => 0 };
            *left -= k + 1;
            d.push([side as i64, k as i64]);
        }
        Self { d, count: false }
    }
    pub fn drive<X>(&self, it: impl DoubleEndedIterator<Item = X>, show: impl Fn(Option<X>) -> Value) -> Value {
        self.drive_over(it, 0, show)
    }
    /// `unseen`: how many items there are besides those told apart
    pub fn drive_over<X>(&self, mut it: impl DoubleEndedIterator<Item = X>, unseen: u128, show: impl Fn(Option<X>) -> Value) -> Value {
        let (mut out, mut hint) = (vec![], vec![]);
        let cap = |x: usize| (x as u128).saturating_sub(unseen).min(1 << 30) as i64;
        let done = |mut out: Vec<Value>, hint: Vec<[i64; 2]>, last: Option<Value>, cnt: i64| {
            out.extend(last);
            json!({"d": self.d, "out": out, "hint": hint, "cnt": cnt})
        };
        for [side, k] in &self.d {
            let h = it.size_hint();
            hint.push([cap(h.0), h.1.map_or(-1, cap)]);
            match (side, *k as usize) {
                (0, 0) => out.push(show(it.next())),
                // passed over by number, by a search, or one by one
                (0, k) => { let mut left = k; out.push(show(match out.len() % 3 {
                    0 => it.nth(k),
                    1 => it.find(|_| { left = left.wrapping_sub(1); left == usize::MAX }),
                    _ => { it.by_ref().take(k).for_each(drop); it.next() }
                })) }
                (1, 0) => out.push(show(it.next_back())),
                (1, k) => { let mut left = k; out.push(show(match out.len() % 3 {
                    0 => it.nth_back(k),
                    1 => it.rfind(|_| { left = left.wrapping_sub(1); left == usize::MAX }),
                    _ => { it.by_ref().rev().take(k).for_each(drop); it.next_back() }
                })) }
                _ => { let l = show(it.last()); return done(out, hint, Some(l), -1); }
            }
        }
        let cnt = if self.count { it.count() as i64 } else { -1 };
        done(out, hint, None, cnt)
    }
}

/// Selections over a finite type whose values are taken in n consecutive
/// blocks, often of one value each.
pub struct RecSel<T> { pub emb: FinEmb<T>, pub style: Cell<usize> }
impl<T: Elem> RecSel<T> {
    pub fn new(emb: FinEmb<T>) -> Self { Self { emb, style: Cell::new(0) } }
    /// the ways of writing an interval take turns
    fn style(&self) -> usize { let s = self.style.get(); self.style.set(s.wrapping_mul(5).wrapping_add(3) % 1021); s }
    fn iv(&self, w: Raw3) -> Interval<T> {
        interval_of(&self.emb, if w[0] == 0 { (1usize, 0) } else { (w[1] as usize, w[2] as usize) }, self.style())
    }
    fn lo_ix(&self, v: &T) -> i64 { self.emb.pos_lo(v).map_or(-9, |p| p as i64) }
    fn hi_ix(&self, v: &T) -> i64 { self.emb.pos_hi(v).map_or(-9, |p| p as i64) }
    fn show(&self, i: &Interval<T>) -> Raw3 {
        match (i.lower_bound(), i.upper_bound()) {
            (None, None) => [0, 0, 0],
            (Some(Bound::Include(l)), Some(Bound::Include(u))) => {
                let (a, b) = (self.lo_ix(&l), self.hi_ix(&u));
                if i.is_degenerate() != (l == u) { return [-9, a, b]; }
                if a == b { [1, a, b] } else { [5, a, b] }
            }
            _ => [-9, 0, 0],
        }
    }
}
impl<T: Elem> Rec for RecSel<T> {
    type V = Selection<T>;
    fn n(&self) -> usize { self.emb.k() }
    fn empty(&self) -> Self::V { Selection::new() }
    fn edit(&self, op: &str, v: &mut Self::V, w: Raw3) {
        let i = self.iv(w);
        match op { "u" => v.union_in_place(i), "i" => v.intersect_in_place(i), _ => v.minus_in_place(i) }
    }
    fn binary(&self, op: &str, x: &Self::V, y: &Self::V) -> Self::V {
        match op { "u" => x.union(y), "i" => x.intersect(y), _ => x.minus(y) }
    }
    fn complement(&self, x: &Self::V) -> Self::V { x.complement() }
    fn collect(&self, ws: &[Raw3]) -> Self::V {
        if ws.iter().all(|w| w[0] == 1 && self.emb.single(w[1] as usize)) { ws.iter().map(|w| self.emb.lo(w[1] as usize).clone()).collect() } else { ws.iter().map(|w| self.iv(*w)).collect() }
    }
    fn extend(&self, v: &mut Self::V, ws: &[Raw3]) { v.extend(ws.iter().map(|w| self.iv(*w))); }
    fn copy(&self, v: &Self::V, how: usize) -> Self::V {
        match how % 6 { 0 => v.clone(), 4 => { let mut x = v.complement(); x.clone_from(v); x } 5 => std::mem::take(&mut v.clone()), 1 => v.interval_iter().collect(), 2 => v.clone().into_interval_iter().rev().collect(), _ if self.emb.all_single() => v.iter().collect(), _ => v.union(v) }
    }
    fn runs(&self, v: &Self::V) -> Vec<Raw3> { v.interval_iter().take(self.n() + 2).map(|i| self.show(&i)).collect() }
    fn meets(&self, x: &Self::V, y: &Self::V) -> i64 { b(x.intersects(y)) }
    fn has(&self, v: &Self::V, i: usize) -> i64 { same(self.emb.probes[i - 1].iter().map(|x| v.contains(x))) }
    fn positions(&self) -> Vec<usize> { (1..=self.n()).collect() }
    fn queries(&self, v: &Self::V) -> Value {
        let bd = |x: Option<Bound<T>>, low: bool| match x { None => [-1, 0], Some(Bound::Include(v)) => [1, if low { self.lo_ix(&v) } else { self.hi_ix(&v) }], Some(Bound::Exclude(_)) => [2, -9], Some(Bound::Infinite) => [0, 0] };
        json!({"w": self.show(&v.enclose()), "clo": self.show(&v.closure()), "empty": b(v.is_empty()), "full": b(v.is_full()),
            "lo": bd(v.lower_bound(), true), "up": bd(v.upper_bound(), false),
            "inf": v.infimum().map_or(0, |x| self.hi_ix(&x)), "sup": v.supremum().map_or(0, |x| self.lo_ix(&x)),
            "bnd": [b(v.is_bounded()), b(v.is_left_bounded()), b(v.is_right_bounded()), b(v.is_half_bounded())]})
    }
    fn walk(&self, v: &Self::V, t: &Trip, owned: bool) -> Value {
        let show = |x: Option<Interval<T>>| json!(x.map_or([-1, 0, 0], |i| self.show(&i)));
        if owned { t.drive(v.clone().into_interval_iter(), show) } else { t.drive(v.interval_iter(), show) }
    }
    fn points(&self, v: &Self::V, t: &Trip, owned: bool) -> Option<Value> {
        let show = |x: Option<T>| json!(x.map_or(0, |p| self.lo_ix(&p)));
        let unseen = self.far(v).map_or(0, |x| x.2);
        Some(if owned { t.drive_over(v.clone().into_iter(), unseen, show) } else { t.drive_over(v.iter(), unseen, show) })
    }
    fn far(&self, v: &Self::V) -> Option<(usize, usize, u128)> {
        let at: Vec<usize> = self.runs(v).into_iter().filter(|w| w[0] > 0).flat_map(|w| w[1] as usize..=w[2] as usize).collect();
        let block = |p: &usize| !self.emb.single(*p);
        let front = at.iter().position(block)?;
        let back = at.iter().rev().position(block)?;
        Some((front, back, at.iter().map(|p| self.emb.sizes[p - 1] - 1).fold(0, u128::saturating_add)))
    }
    fn reloaded(&self, v: &Self::V, format: usize) -> Option<Result<Self::V, String>> { reload(v, format) }
    fn random_interval(&self, r: &mut Rng) -> Raw3 {
        let n = self.n();
        let (l, h) = random_span(n, r);
        if r.chance(1, 40) { [0, 0, 0] } else if l == h { [1, l as i64, l as i64] } else { [5, l as i64, h as i64] }
    }
    fn short(&self, p: usize, room: usize, r: &mut Rng) -> Raw3 {
        let (l, h) = (p as i64, (p + r.below(room - 1)).min(self.n()) as i64);
        if l == h { [1, l, l] } else { [5, l, h] }
    }
    fn tightest(&self) -> usize { 2 }
    fn long(&self, r: &mut Rng) -> Raw3 {
        let n = self.n();
        let (l, h) = (1 + r.below(1 + n / 8), n - r.below(1 + n / 8));
        if l < h { [5, l as i64, h as i64] } else { [1, 1, 1] }
    }
}
/// mostly short spans, some long, some touching the ends
fn random_span(n: usize, r: &mut Rng) -> (usize, usize) {
    let len = match r.below(10) { 0..=4 => 1 + r.below(3), 5..=7 => 1 + r.below(1 + n / 8), 8 => 1 + r.below(1 + n / 3), _ => 1 + r.below(n) };
    let len = len.min(n);
    let l = match r.below(8) { 0 => 1, 1 => n + 1 - len, _ => 1 + r.below(n + 1 - len) };
    (l, l + len - 1)
}

/// Bound trees over N values.
pub struct RecTree<T> { pub emb: DenseEmb<T> }
impl<T: Val> RecTree<T> {
    fn raw(&self, w: Raw3) -> RawInterval<T> { raw_of(&self.emb, w) }
    fn show(&self, w: &RawInterval<T>) -> Raw3 { raw3_of(&self.emb, w) }
}
impl<T: Val> Rec for RecTree<T> {
    type V = TineTree<T>;
    fn n(&self) -> usize { self.emb.n() }
    fn empty(&self) -> Self::V { TineTree::new() }
    fn edit(&self, op: &str, v: &mut Self::V, w: Raw3) {
        let i = self.raw(w);
        match op { "u" => v.union_in_place(&i), "i" => v.intersect_in_place(&i), _ => v.minus_in_place(&i) }
    }
    fn binary(&self, op: &str, x: &Self::V, y: &Self::V) -> Self::V {
        match op { "u" => x.union(y), "i" => x.intersect(y), _ => x.minus(y) }
    }
    fn complement(&self, x: &Self::V) -> Self::V { x.complement() }
    fn collect(&self, ws: &[Raw3]) -> Self::V { ws.iter().map(|w| self.raw(*w)).collect() }
    fn extend(&self, v: &mut Self::V, ws: &[Raw3]) { for w in ws { v.union_in_place(&self.raw(*w)); } }
    fn copy(&self, v: &Self::V, how: usize) -> Self::V {
        match how % 5 { 0 => v.clone(), 3 => { let mut x = v.complement(); x.clone_from(v); x } 4 => std::mem::take(&mut v.clone()), 1 => v.interval_iter().collect(), _ => v.clone().into_iter().rev().collect() }
    }
    fn runs(&self, v: &Self::V) -> Vec<Raw3> { v.interval_iter().take(2 * self.n() + 4).map(|i| self.show(&i)).collect() }
    fn meets(&self, _: &Self::V, _: &Self::V) -> i64 { -1 }
    fn has(&self, v: &Self::V, pos: usize) -> i64 {
        if pos % 2 == 0 { b(v.contains(&self.emb.v[pos / 2 - 1])) } else { same(self.emb.gaps[pos / 2].iter().map(|x| v.contains(x))) }
    }
    fn positions(&self) -> Vec<usize> { (1..=2 * self.n() + 1).filter(|p| p % 2 == 0 || !self.emb.gaps[p / 2].is_empty()).collect() }
    fn queries(&self, v: &Self::V) -> Value {
        json!({"w": self.show(&v.enclose()), "clo": self.show(&v.closure()), "empty": b(v.is_empty()), "full": b(v.is_full()),
            "lo": bd_of(&self.emb, &v.lower_bound()), "up": bd_of(&self.emb, &v.upper_bound()), "inf": -1, "sup": -1, "bnd": []})
    }
    fn walk(&self, v: &Self::V, t: &Trip, owned: bool) -> Value {
        let show = |x: Option<RawInterval<T>>| json!(x.map_or([-1, 0, 0], |i| self.show(&i)));
        if owned { t.drive(v.clone().into_iter(), show) } else { t.drive(v.interval_iter(), show) }
    }
    fn points(&self, _: &Self::V, _: &Trip, _: bool) -> Option<Value> { None }
    fn far(&self, _: &Self::V) -> Option<(usize, usize, u128)> { None }
    fn reloaded(&self, v: &Self::V, format: usize) -> Option<Result<Self::V, String>> { reload(v, format) }
    fn random_interval(&self, r: &mut Rng) -> Raw3 {
        // any kind, at bounds drawn like spans of values
        let n = self.n();
        let (mut l, mut h) = random_span(n, r);
        let kind = [1, 2, 3, 4, 5, 1, 2, 3, 4, 5, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0, 10][r.below(21)];
        if (2..=5).contains(&kind) && l == h { if h < n { h += 1 } else { l -= 1 } }
        let (l, h) = (l as i64, h as i64);
        match kind {
            0 if r.chance(1, 2) => [0, 0, 0],
            10 if r.chance(1, 4) => [10, 0, 0],
            0 | 1 | 10 => [1, l, l],
            6 | 8 => [kind, 0, 1 + r.below(1 + n / 4) as i64],
            7 | 9 => [kind, n as i64 - r.below(1 + n / 4) as i64, 0],
            k => [k, l, h],
        }
    }
    fn short(&self, p: usize, room: usize, r: &mut Rng) -> Raw3 {
        // neighbours may share a bound as long as both exclude it
        let (l, h) = (p as i64, (p + 1 + r.below(room)).min(self.n()) as i64);
        if room == 1 { return if h <= l || r.chance(1, 12) { [1, l, l] } else { [2, l, h] }; }
        if h <= l || r.chance(1, 5) { [1, l, l] } else { [[2, 2, 3, 4, 5][r.below(5)], l, h] }
    }
    fn tightest(&self) -> usize { 1 }
    fn long(&self, r: &mut Rng) -> Raw3 {
        let n = self.n();
        let (l, h) = (1 + r.below(1 + n / 8) as i64, (n - r.below(1 + n / 8)) as i64);
        match r.below(8) { k @ 2..=5 if l < h => [k as i64, l, h], k @ (6 | 7) => if k == 6 { [8, 0, h] } else { [9, l, 0] }, _ => [7, l, 0] }
    }
}

/// A comb of many short intervals; some bridge several teeth or come twice.
fn comb<R: Rec>(rec: &R, r: &mut Rng) -> Vec<Raw3> {
    let (n, mut period) = (rec.n(), rec.tightest() + r.below(3));
    let (mut from, mut reach) = (1 + r.below(3), if r.chance(1, 2) { n } else { 1 + r.below(n) });
    if n > BIG {
        // of long lines, all of it coarsely or a stretch of it
        let most = [50, 300, 1200][r.below(3)];
        if r.chance(1, 2) { period = period.max(n / most); } else { from = 1 + r.below(n); reach = n.min(from + most * period); }
    }
    let bridges = if r.chance(1, 2) { 0 } else { 1 + r.below(8) };
    let mut ws: Vec<Raw3> = vec![];
    for p in (from..=reach.min(n)).step_by(period) {
        let w = rec.short(p, period, r);
        if !r.chance(1, 16) { ws.push(w); }
        if r.below(48) < bridges {
            ws.push(match r.below(4) { 0 => w, k => rec.short(p.saturating_sub(r.below(2 * period)).max(1), (1 + k) * period, r) });
        }
    }
    match r.below(4) {
        0 => {}
        1 => ws.reverse(),
        _ => for i in (1..ws.len()).rev() { ws.swap(i, r.below(i + 1)); }
    }
    ws
}

/// Moves the ends of an interval to where others end, or right beside it.
fn snap(n: usize, w: Raw3, runs: &[Raw3], r: &mut Rng) -> Raw3 {
    let ends: Vec<i64> = runs.iter().flat_map(|x| [x[1], x[2]]).filter(|x| *x > 0).collect();
    if ends.is_empty() || r.chance(1, 2) { return w; }
    let i = match r.below(6) { 0 => 0, 1 => ends.len() - 1, _ => r.below(ends.len()) };
    let near = |j: usize, r: &mut Rng| (ends[j] + [0, 0, 0, 0, -1, 1][r.below(6)]).clamp(1, n as i64);
    let a = near(i, r);
    let b = match r.below(4) {
        0 | 1 => near((i + r.below(5)).saturating_sub(2).min(ends.len() - 1), r),
        2 => w[2].max(1),
        _ => (a + [-2, -1, 1, 2, 3][r.below(5)]).clamp(1, n as i64),
    };
    match w[0] {
        1 => [1, a, a],
        6 | 8 => [w[0], 0, a],
        7 | 9 => [w[0], a, 0],
        2..=5 if a != b => [w[0], a.min(b), a.max(b)],
        2..=5 => [1, a, a],
        _ => w,
    }
}

/// What a recorded run should stress.
#[derive(Clone, Copy)]
pub struct Mix { pub edits: usize, pub binary: usize, pub looks: usize, pub walks: usize, pub points: usize, pub saves: usize }
pub fn mix(name: &str) -> Mix {
    match name {
        "edit" => Mix { edits: 16, binary: 2, looks: 3, walks: 1, points: 0, saves: 0 },
        "binary" => Mix { edits: 8, binary: 10, looks: 3, walks: 1, points: 0, saves: 0 },
        "look" => Mix { edits: 8, binary: 3, looks: 10, walks: 0, points: 0, saves: 0 },
        "walk" => Mix { edits: 6, binary: 2, looks: 0, walks: 8, points: 0, saves: 0 },
        "points" => Mix { edits: 6, binary: 2, looks: 0, walks: 0, points: 6, saves: 0 },
        "save" => Mix { edits: 10, binary: 4, looks: 4, walks: 1, points: 1, saves: 8 },
        _ => Mix { edits: 10, binary: 4, looks: 4, walks: 3, points: 2, saves: 0 },
    }
}

/// Records `lines` events; returns how many of each were written.
pub fn record<R: Rec>(rec: &R, lines: usize, m: Mix, seed: u64, salt: &str, out: &str) -> Value {
    let mut rng = Rng::new(seed, salt);
    let r = &mut rng;
    let mut f = std::io::BufWriter::new(std::fs::File::create(out).expect("trace file"));
    let mut counts = std::collections::BTreeMap::<String, usize>::new();
    let mut slots: Vec<R::V> = (0..SLOTS).map(|_| rec.empty()).collect();
    let weights = [m.edits, m.binary, m.looks, m.walks, m.points, m.saves];
    let total: usize = weights.iter().sum();
    let places = rec.positions();
    let mut n = 0;
    // in calm stretches sets keep their many small parts
    let mut calm = false;
    while n < lines {
        if r.chance(1, if calm { 300 } else { 60 }) { calm = !calm; }
        let (s, a, bb, c) = (r.below(SLOTS), r.below(SLOTS), r.below(SLOTS), r.below(SLOTS));
        let mut x = r.below(total);
        let mut kind = 0;
        for (i, w) in weights.into_iter().enumerate() {
            if x < w { kind = i; break; }
            x -= w;
        }
        let sub = r.below(6);
        let ev: Result<Option<Value>, _> = catch_unwind(AssertUnwindSafe(|| match (kind, sub) {
            (0, 0..=3) => {
                // an intersect wipes most of a set out: keep it rare
                let op = match r.below(if calm { 16 } else { 11 }) { 0 => "i", 1..=4 => "m", 11..=13 => "m", _ => "u" };
                let w = if calm && op == "i" { rec.long(r) } else if calm { rec.short(1 + r.below(rec.n()), 3, r) } else { rec.random_interval(r) };
                let w = snap(rec.n(), w, &rec.runs(&slots[if r.chance(3, 4) { s } else { a }]), r);
                rec.edit(op, &mut slots[s], w);
                Some(json!({"e": "edit", "op": op, "s": s + 1, "w": w, "runs": rec.runs(&slots[s])}))
            }
            (0, 4) => {
                let k = r.below(5);
                let runs = rec.runs(&slots[s]);
                let ws: Vec<Raw3> = if r.chance(1, if calm { 20 } else { 8 }) { comb(rec, r) } else { (0..k).map(|_| { let w = if calm { rec.short(1 + r.below(rec.n()), 3, r) } else { rec.random_interval(r) }; snap(rec.n(), w, &runs, r) }).collect() };
                rec.extend(&mut slots[s], &ws);
                Some(json!({"e": "ext", "s": s + 1, "ws": ws, "runs": rec.runs(&slots[s])}))
            }
            (0, _) => {
                let ws: Vec<Raw3> = if calm || r.chance(1, 3) {
                    comb(rec, r)
                } else {
                    let most = if r.chance(1, 2) { 9 } else { 3 + rec.n().min(BIG) / 4 };
                    let k = r.below(most);
                    let pts = r.chance(1, 2);
                    (0..k).map(|_| if pts || calm { let p = 1 + r.below(rec.n()) as i64; [1, p, p] } else { rec.random_interval(r) }).collect()
                };
                slots[c] = rec.collect(&ws);
                Some(json!({"e": "coll", "c": c + 1, "ws": ws, "runs": rec.runs(&slots[c])}))
            }
            (1, 0..=3) => {
                let op = ["u", "i", "m", "m"][r.below(4)];
                // the same value twice only now and then
                let bb = if a == bb && r.chance(3, 4) { (a + 1) % SLOTS } else { bb };
                let v = rec.binary(op, &slots[a], &slots[bb]);
                slots[c] = v;
                Some(json!({"e": "bin", "op": op, "a": a + 1, "b": bb + 1, "c": c + 1, "runs": rec.runs(&slots[c])}))
            }
            (1, 4) => {
                slots[c] = rec.complement(&slots[a]);
                Some(json!({"e": "comp", "a": a + 1, "c": c + 1, "runs": rec.runs(&slots[c])}))
            }
            (1, _) => {
                slots[c] = rec.copy(&slots[a], r.below(60));
                Some(json!({"e": "copy", "a": a + 1, "c": c + 1, "runs": rec.runs(&slots[c])}))
            }
            (2, 0 | 1) => {
                let (x, y) = (&slots[a], &slots[bb]);
                Some(json!({"e": "cmp", "a": a + 1, "b": bb + 1, "eq": b(x == y), "heq": b(hash_of(x) == hash_of(y)), "meets": rec.meets(x, y)}))
            }
            (2, 2) => {
                let runs = rec.runs(&slots[s]);
                let scale = if places[places.len() - 1] > rec.n() { 2 } else { 1 };
                let vs: Vec<usize> = (0..16).map(|_| match r.below(8) {
                    0 => places[0],
                    1 => places[places.len() - 1],
                    // at an end of an interval, or in the place beside it
                    2..=4 if !runs.is_empty() => {
                        let w = runs[r.below(runs.len())];
                        let p = scale * w[1 + r.below(2)].max(1) as usize;
                        places[match places.binary_search(&p) { Ok(i) => (i + r.below(3)).saturating_sub(1).min(places.len() - 1), Err(_) => 0 }]
                    }
                    _ => places[r.below(places.len())],
                }).collect();
                let ins: Vec<i64> = vs.iter().map(|v| rec.has(&slots[s], *v)).collect();
                Some(json!({"e": "has", "s": s + 1, "vs": vs, "ins": ins}))
            }
            (2, _) => { let mut v = rec.queries(&slots[s]); v["e"] = json!("hull"); v["s"] = json!(s + 1); Some(v) }
            (3, _) => {
                let k = rec.runs(&slots[s]).len();
                let whole = k <= BIG || r.chance(1, 8);
                let t = Trip::random(k, r, whole);
                let mut v = rec.walk(&slots[s], &t, r.chance(1, 2));
                v["e"] = json!("walk");
                v["s"] = json!(s + 1);
                Some(v)
            }
            (5, _) => rec.reloaded(&slots[a], r.below(3)).map(|v| match v {
                Ok(v) => { slots[c] = v; json!({"e": "save", "a": a + 1, "c": c + 1, "eq": b(slots[c] == slots[a] || c == a), "runs": rec.runs(&slots[c])}) }
                Err(x) => json!({"e": "does not load", "a": a + 1, "why": x}),
            }),
            _ => {
                let n = rec.runs(&slots[s]).iter().map(|w| (w[2] - w[1] + 1).max(0) as usize).sum::<usize>();
                // long ones only now and then
                let whole = n <= 70 || (rec.n() <= BIG && r.chance(1, 5));
                let t = match rec.far(&slots[s]) { Some((front, back, _)) => Trip::near(front, back, r), None => Trip::random(n, r, whole) };
                rec.points(&slots[s], &t, r.chance(1, 2)).map(|mut v| { v["e"] = json!("pts"); v["s"] = json!(s + 1); v })
            }
        }));
        let ev = match ev {
            Ok(None) => continue,
            Ok(Some(v)) => v,
            Err(_) => json!({"e": "panic", "kind": kind, "sub": sub}),
        };
        writeln!(f, "{ev}").unwrap();
        n += 1;
        *counts.entry(ev["e"].as_str().unwrap().to_string()).or_default() += 1;
        if ev["e"] == "panic" || ev["e"] == "does not load" { break; }
    }
    f.flush().unwrap();
    json!(counts)
}

/// Calls of the Finite implementation of one integer type.
pub fn record_words<T: Int>(seed: u64, thorough: bool, f: &mut impl Write) -> usize {
    let last = T::LAST;
    let mut offs: Vec<u128> = vec![0, 1, 2, last, last - 1, last - 2, last / 2, last / 2 + 1, last / 2 - 1, last / 2 + 2];
    if T::BITS <= 8 || (thorough && T::BITS <= 16) { offs = (0..=last).collect(); }
    for i in 1..T::BITS {
        let p = 1u128 << i;
        for x in [p - 1, p, p + 1, last - p, last - p + 1, last - p - 1] { offs.push(x.min(last)); }
    }
    let mut r = Rng::new(seed, T::NAME);
    for _ in 0..if thorough { 3000 } else { 200 } {
        let mut x = r.u128() & last;
        // runs of zero and one bytes, where carries travel
        for k in 0..T::BITS / 8 { match r.below(4) { 0 => x |= 0xff << (8 * k), 1 => x &= !(0xff << (8 * k)), _ => {} } }
        offs.push(x & last);
    }
    offs.sort_unstable();
    offs.dedup();
    let opt = |v: Option<T>| v.map_or(vec![], Int::bytes);
    for o in &offs {
        let x = T::at(*o);
        let g = catch_unwind(AssertUnwindSafe(|| (opt(x.succ()), opt(x.pred()), <T as Finite>::MINIMUM.bytes(), <T as Finite>::MAXIMUM.bytes())));
        // a panic is written as an answer no specification gives
        let (s, p, mn, mx) = g.unwrap_or((vec![0; 99], vec![0; 99], vec![], vec![]));
        let line = json!({"op": "x", "w": T::BITS / 8, "signed": T::SIGNED, "x": x.bytes(), "s": s, "p": p, "min": mn, "max": mx, "t": T::NAME});
        writeln!(f, "{line}").unwrap();
    }
    offs.len()
}

/// `succ` (or `pred`) of every value from one place of the type to another,
/// with stretches where it moves by the same number of places written as one
/// line (nothing is lost: the line says what every value in it gave).
pub struct Run { from: u128, to: u128, by: Option<i128> }
fn runs_of<T: Int>(back: bool, from: u128, to: u128) -> Vec<Run> {
    let mut out: Vec<Run> = vec![];
    let mut o = from;
    loop {
        // more runs than this never explain a chain
        if out.len() > 40 { return out; }
        let x = T::at(o);
        let y = if back { x.pred() } else { x.succ() };
        let by = y.map(|y| y.off().wrapping_sub(o) as i128);
        match out.last_mut() {
            Some(r) if r.by == by => r.to = o,
            _ => out.push(Run { from: o, to: o, by }),
        }
        if o == to { return out; }
        o += 1;
    }
}
/// One stretch of values; `whole` says whether it is the type from end to end.
pub fn record_stretch<T: Int>(back: bool, from: u128, to: u128, c: &mut crate::ctx::Ctx) -> String {
    let whole = from == 0 && to == T::LAST;
    // in pieces, so that the threads share the work and a hang is noticed
    let step = 1u128 << 24;
    let pieces: Vec<(u128, u128)> = (0..=(to - from) / step).map(|i| (from + i * step, to.min((from + i * step).saturating_add(step - 1)))).collect();
    let mut runs: Vec<Run> = vec![];
    let mut died = false;
    for chunk in pieces.chunks(8) {
        let got = c.guard(|| std::thread::scope(|s| {
            let hs: Vec<_> = chunk.iter().map(|(a, b)| s.spawn(move || runs_of::<T>(back, *a, *b))).collect();
            hs.into_iter().map(|h| h.join()).collect::<Vec<_>>()
        }));
        c.calls += chunk.iter().map(|(a, b)| (b - a + 1) as u64).sum::<u64>();
        for g in got.unwrap_or_default() {
            let Ok(g) = g else { died = true; break };
            for r in g {
                match runs.last_mut() { Some(l) if l.by == r.by && r.from > 0 && l.to == r.from - 1 => l.to = r.to, _ => runs.push(r) }
            }
        }
        if died || runs.len() > 200 { break; }
    }
    let n = runs.len();
    let mut out = String::new();
    for (i, r) in runs.iter().enumerate() {
        let im = |o: u128| r.by.map_or(vec![], |d| T::at(o.wrapping_add(d as u128)).bytes());
        let line = json!({"w": T::BITS / 8, "signed": T::SIGNED, "t": T::NAME, "op": if back { "p" } else { "s" }, "from": T::at(r.from).bytes(), "to": T::at(r.to).bytes(),
            "by": r.by.map_or(0, |d| d.clamp(-99, 99) as i64), "imf": im(r.from), "imt": im(r.to), "first": i == 0, "last": i == n - 1 && !died, "whole": whole});
        out += &format!("{line}\n");
    }
    if died { out += &format!("{}\n", json!({"t": T::NAME, "op": "panicked", "w": 0, "signed": T::SIGNED})); }
    out
}
pub fn record_runs<T: Int>(seed: u64, thorough: bool, f: &mut impl Write, c: &mut crate::ctx::Ctx) -> usize {
    let mut lines = 0;
    let last = T::LAST;
    let mut stretches = vec![];
    if T::BITS <= 32 { stretches.push((0, last)); } else {
        let half = 1u128 << if thorough { 18 } else { 12 };
        let mut mid: Vec<u128> = vec![0, last, last / 2];
        for i in 13..T::BITS { mid.push((1u128 << i).min(last)); mid.push(last - (1u128 << i).min(last)); }
        let mut r = Rng::new(seed, &format!("runs {}", T::NAME));
        for _ in 0..if thorough { 400 } else { 60 } { mid.push((r.u128() & last) >> r.below(T::BITS as usize - 8)); }
        for m in mid { stretches.push((m.saturating_sub(half), last.min(m.saturating_add(half)))); }
    }
    for back in [false, true] {
        for (a, b) in &stretches {
            let t = record_stretch::<T>(back, *a, *b, c);
            lines += t.lines().count();
            f.write_all(t.as_bytes()).unwrap();
        }
    }
    lines
}
