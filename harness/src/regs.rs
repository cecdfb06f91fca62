//! Records programs on single intervals, one line per public call with its
//! arguments and everything it returned, to be judged by TLC (RegTrace).
use crate::interval::marker;
use crate::record::Trip;
use crate::rng::Rng;
use crate::subject::*;
use crate::tables::{Bd, Raw3};
use crate::types::*;
use normalize_interval::normalize::Normalize;
use normalize_interval::raw_interval::RawInterval;
use normalize_interval::tine::Tine;
use normalize_interval::{Bound, Interval};
use serde_json::{json, Value};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

const SLOTS: usize = 4;
fn b(x: bool) -> i64 { i64::from(x) }

/// Values by their place in a list; N of them. A place in `far` stands for
/// many values, listed with how many; programs keep away from it.
pub struct Places<T> { pub v: Vec<T>, pub far: Vec<(i64, u128)> }
impl<T: Val> Places<T> {
    pub fn each(v: Vec<T>) -> Self { Self { v, far: vec![] } }
    pub fn of(e: &FinEmb<T>) -> Self {
        Self { v: e.lo.clone(), far: (1..=e.k()).filter(|p| !e.single(*p)).map(|p| (p as i64, e.sizes[p - 1])).collect() }
    }
    /// the far places from l to h
    fn between(&self, l: i64, h: i64) -> Vec<(i64, u128)> { self.far.iter().copied().filter(|x| l <= x.0 && x.0 <= h).collect() }
    fn clear_of_far(&self, i: i64) -> i64 {
        self.far.iter().find(|x| (x.0 - i).abs() < 4).map_or(i, |x| if i < x.0 { x.0 - 4 } else { x.0 + 4 })
    }
    fn ix(&self, v: &T) -> i64 { self.v.binary_search(v).map_or(-1, |i| i as i64 + 1) }
    fn at(&self, i: i64) -> T { self.v[i as usize - 1].clone() }
    fn n(&self) -> usize { self.v.len() }
    fn bound(&self, x: Bd) -> Bound<T> {
        match x[0] { 1 => Bound::Include(self.at(x[1])), 2 => Bound::Exclude(self.at(x[1])), _ => Bound::Infinite }
    }
    fn code(&self, x: &Bound<T>) -> Bd {
        match x { Bound::Include(v) => [1, self.ix(v)], Bound::Exclude(v) => [2, self.ix(v)], Bound::Infinite => [0, 0] }
    }
    fn opt(&self, x: &Option<Bound<T>>) -> Bd { x.as_ref().map_or([-1, 0], |x| self.code(x)) }
    fn raw(&self, w: Raw3) -> RawInterval<T> {
        use RawInterval::*;
        match w[0] {
            0 => Empty, 1 => Point(self.at(w[1])), 2 => Open(self.at(w[1]), self.at(w[2])), 3 => LeftOpen(self.at(w[1]), self.at(w[2])),
            4 => RightOpen(self.at(w[1]), self.at(w[2])), 5 => Closed(self.at(w[1]), self.at(w[2])), 6 => UpTo(self.at(w[2])),
            7 => UpFrom(self.at(w[1])), 8 => To(self.at(w[2])), 9 => From(self.at(w[1])), _ => Full,
        }
    }
    fn show(&self, w: &RawInterval<T>) -> Raw3 { raw3_by(w, |v| self.ix(v)) }
}

/// The recorded side of one kind of interval.
pub trait Reg {
    type T: Val;
    type V: Clone + PartialEq + std::hash::Hash;
    const DENSE: bool;
    fn places(&self) -> &Places<Self::T>;
    fn empty(&self) -> Self::V;
    fn new(&self, lo: Bd, up: Bd, style: usize) -> Self::V;
    fn show(&self, v: &Self::V) -> Raw3;
    fn conv(&self, w: Raw3) -> Option<Self::V>;
    fn binary(&self, op: &str, x: &Self::V, y: &Self::V) -> Self::V;
    fn pieces(&self, op: &str, x: &Self::V, y: &Self::V) -> Vec<Self::V>;
    fn look(&self, x: &Self::V) -> Value;
    fn has(&self, x: &Self::V, v: i64) -> bool;
    fn rel(&self, x: &Self::V, y: &Self::V) -> (bool, bool);
    fn points(&self, x: &Self::V, t: &Trip, owned: bool) -> Option<Value>;
    fn norm(&self, w: Raw3) -> Option<Value>;
}

pub struct Raws<T>(pub Places<T>);
impl<T: Val> Reg for Raws<T> {
    type T = T;
    type V = RawInterval<T>;
    const DENSE: bool = true;
    fn places(&self) -> &Places<T> { &self.0 }
    fn empty(&self) -> Self::V { RawInterval::Empty }
    fn new(&self, lo: Bd, up: Bd, style: usize) -> Self::V {
        use Bound::*;
        if style % 2 == 1 {
            match (self.0.bound(lo), self.0.bound(up)) {
                (Include(l), Include(u)) => return RawInterval::closed(l, u),
                (Exclude(l), Exclude(u)) => return RawInterval::open(l, u),
                (Include(l), Exclude(u)) => return RawInterval::right_open(l, u),
                (Exclude(l), Include(u)) => return RawInterval::left_open(l, u),
                _ => {}
            }
        }
        RawInterval::new(self.0.bound(lo), self.0.bound(up))
    }
    fn show(&self, v: &Self::V) -> Raw3 { self.0.show(v) }
    fn conv(&self, _: Raw3) -> Option<Self::V> { None }
    fn binary(&self, op: &str, x: &Self::V, y: &Self::V) -> Self::V {
        match op { "i" => x.intersect(y), "e" => x.enclose(y), _ => x.closure() }
    }
    fn pieces(&self, op: &str, x: &Self::V, y: &Self::V) -> Vec<Self::V> {
        match op { "u" => x.union(y).collect(), "m" => x.minus(y).collect(), _ => x.complement().collect() }
    }
    fn look(&self, x: &Self::V) -> Value {
        let p = |v: Option<T>| v.map_or(0, |v| self.0.ix(&v));
        json!({"lo": self.0.opt(&x.lower_bound()), "up": self.0.opt(&x.upper_bound()), "inf": p(x.infimum()), "sup": p(x.supremum()),
            "empty": b(x.is_empty()), "full": b(x.is_full())})
    }
    fn has(&self, x: &Self::V, v: i64) -> bool { x.contains(&self.0.at(v)) }
    fn rel(&self, x: &Self::V, y: &Self::V) -> (bool, bool) { (x.intersects(y), x.is_adjacent_to(y)) }
    fn points(&self, _: &Self::V, _: &Trip, _: bool) -> Option<Value> { None }
    fn norm(&self, _: Raw3) -> Option<Value> { None }
}

/// The second field: the size as a number, for types whose values subtract
/// and the largest size that type has a value for.
pub struct Ivs<T: Elem>(pub Places<T>, pub Option<(fn(&Interval<T>) -> Option<i64>, i64)>);
impl<T: Elem> Reg for Ivs<T> {
    type T = T;
    type V = Interval<T>;
    const DENSE: bool = false;
    fn places(&self) -> &Places<T> { &self.0 }
    fn empty(&self) -> Self::V { Interval::empty() }
    fn new(&self, lo: Bd, up: Bd, style: usize) -> Self::V {
        use Bound::*;
        let (l, u) = (self.0.bound(lo), self.0.bound(up));
        match style % 3 {
            0 => Interval::new(l, u),
            1 => match (l, u) {
                (Include(l), Include(u)) if l == u => Interval::point(l),
                (Include(l), Include(u)) => Interval::closed(l, u),
                (Exclude(l), Exclude(u)) => Interval::open(l, u),
                (Include(l), Exclude(u)) => Interval::left_closed(l, u),
                (Exclude(l), Include(u)) => Interval::right_closed(l, u),
                (Include(l), Infinite) => Interval::unbounded_from(l),
                (Exclude(l), Infinite) => Interval::unbounded_up_from(l),
                (Infinite, Include(u)) => Interval::unbounded_to(u),
                (Infinite, Exclude(u)) => Interval::unbounded_up_to(u),
                _ => Interval::full(),
            },
            _ => match (l, u) {
                (Include(l), Include(u)) if l == u => l.into(),
                (Include(l), Exclude(u)) => (l..u).into(),
                (Include(l), Infinite) => (l..).into(),
                (Infinite, Exclude(u)) => (..u).into(),
                (Infinite, Include(u)) => (..=u).into(),
                (Infinite, Infinite) => (..).into(),
                (Exclude(l), Include(u)) => Interval::left_open(l, u),
                (l, u) => RawInterval::new(l, u).into(),
            },
        }
    }
    fn show(&self, i: &Self::V) -> Raw3 {
        match (i.lower_bound(), i.upper_bound()) {
            (None, None) => [0, 0, 0],
            (Some(Bound::Include(l)), Some(Bound::Include(u))) => [if i.is_degenerate() { 1 } else { 5 }, self.0.ix(&l), self.0.ix(&u)],
            _ => [-9, 0, 0],
        }
    }
    fn conv(&self, w: Raw3) -> Option<Self::V> { Some(self.0.raw(w).into()) }
    fn binary(&self, op: &str, x: &Self::V, y: &Self::V) -> Self::V {
        match op { "i" => x.intersect(y), "e" => x.enclose(y), _ => x.closure() }
    }
    fn pieces(&self, op: &str, x: &Self::V, y: &Self::V) -> Vec<Self::V> {
        match op { "u" => x.union(y).collect(), "m" => x.minus(y).collect(), _ => x.complement().collect() }
    }
    fn look(&self, x: &Self::V) -> Value {
        let p = |v: Option<T>| v.map_or(0, |v| self.0.ix(&v));
        let is = [x.is_empty(), x.is_degenerate(), x.is_proper(), x.is_open(), x.is_left_open(), x.is_right_open(), x.is_half_open(), x.is_closed(),
            x.is_left_closed(), x.is_right_closed(), x.is_half_closed(), x.is_bounded(), x.is_left_bounded(), x.is_right_bounded(), x.is_half_bounded()];
        let e = x.clone().into_non_empty().is_none();
        // -2 not asked, -1 none; never asked where the difference overflows
        let w = self.show(x);
        let size = match self.1 { Some((f, max)) if w[0] == 0 || w[2] - w[1] <= max => f(x).unwrap_or(-1), _ => -2 };
        json!({"lo": self.0.opt(&x.lower_bound()), "up": self.0.opt(&x.upper_bound()), "inf": p(x.infimum()), "sup": p(x.supremum()),
            "empty": b(e), "full": -1, "size": size, "is": is.map(b)})
    }
    fn has(&self, x: &Self::V, v: i64) -> bool { x.contains(&self.0.at(v)) }
    fn rel(&self, x: &Self::V, y: &Self::V) -> (bool, bool) { (x.intersects(y), x.is_adjacent_to(y)) }
    fn points(&self, x: &Self::V, t: &Trip, owned: bool) -> Option<Value> {
        let show = |x: Option<T>| json!(x.map_or(0, |v| self.0.ix(&v)));
        let w = self.show(x);
        let unseen = self.0.between(w[1], w[2]).iter().map(|x| x.1 - 1).fold(0, u128::saturating_add);
        Some(if owned { t.drive_over(x.clone().into_iter(), unseen, show) } else { t.drive_over(x.iter(), unseen, show) })
    }
    fn norm(&self, w: Raw3) -> Option<Value> {
        let w = self.0.raw(w);
        let mut dd = w.clone();
        dd.denormalize();
        let mut n = w.clone();
        n.normalize();
        Some(json!({"n": self.0.show(&n), "dn": self.0.show(&dd.clone().normalized()), "dd": self.0.show(&dd),
            "nd": self.0.show(&n.denormalized())}))
    }
}

/// Hundreds of members: a comb (teeth apart, touching or overlapping) with a few
/// wide ones across it, or all of them around one place; in some order.
fn many<T: Val>(p: &Places<T>, n: i64, r: &mut Rng) -> Vec<RawInterval<T>> {
    let most = [100, 400, 1500][r.below(3)];
    let len = 40 + r.below(most) as i64;
    let around = r.chance(1, 3);
    let step = 1 + r.below((n / len).clamp(1, 5) as usize) as i64;
    let start = 1 + r.below((n - step * len).max(1) as usize) as i64;
    let width = r.below(step as usize + 2) as i64;
    let middle = 1 + r.below(n as usize) as i64;
    let kind = 1 + r.below(2) as i64;
    let mut of: Vec<RawInterval<T>> = (0..len).map(|i| {
        let (lo, up) = if around {
            (1 + r.below(middle as usize) as i64, middle + r.below((n - middle + 1) as usize) as i64)
        } else if r.chance(1, 40) {
            let v = 1 + r.below(n as usize) as i64;
            (v, v + r.below(n as usize / 20) as i64)
        } else {
            let v = start + i * step;
            (v, v + if r.chance(1, 20) { width + 1 } else { width })
        };
        let bd = |r: &mut Rng, v: i64| if r.chance(1, 200) { [0, 0] } else { [if r.chance(9, 10) { kind } else { 3 - kind }, v.min(n)] };
        let (lo, up) = (bd(r, lo), bd(r, up));
        RawInterval::new(p.bound(lo), p.bound(up))
    }).collect();
    match r.below(4) {
        0 => of.reverse(),
        1 => (),
        2 => { let m = of.len() / 2; of.rotate_left(m); }
        _ => for i in (1..of.len()).rev() { let j = r.below(i + 1); of.swap(i, j); },
    }
    of
}

/// Records `lines` events.
pub fn record_regs<R: Reg>(rec: &R, lines: usize, mix: &str, seed: u64, salt: &str, out: &str) -> Value {
    let mut rng = Rng::new(seed, salt);
    let r = &mut rng;
    let p = rec.places();
    let n = p.n();
    let mut f = std::io::BufWriter::new(std::fs::File::create(out).expect("trace file"));
    let mut counts = std::collections::BTreeMap::<String, usize>::new();
    let mut regs: Vec<R::V> = (0..SLOTS).map(|_| rec.empty()).collect();
    // values used lately, so that bounds coincide and touch often
    let mut hot: Vec<i64> = vec![1, n as i64];
    // weights: build, convert, binary, pieces, look, has, rel, points, bulk, norm, bound, marker
    let weights: [usize; 12] = match mix {
        "build" => [10, 6, 2, 2, 6, 3, 2, 1, 0, 0, 0, 0],
        "ops" => [8, 1, 6, 8, 1, 1, 6, 0, 0, 0, 0, 0],
        "look" => [6, 1, 2, 2, 6, 6, 1, 1, 0, 0, 0, 0],
        "norm" => [1, 3, 0, 0, 0, 0, 0, 0, 0, 12, 0, 0],
        "bulk" => [1, 0, 0, 0, 0, 0, 0, 0, 10, 0, 0, 0],
        "bound" => [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0],
        "tine" => [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1],
        "points" => [4, 0, 2, 2, 0, 0, 0, 6, 0, 0, 0, 0],
        _ => panic!("no mix {mix}"),
    };
    let total: usize = weights.iter().sum();
    let mut done = 0;
    while done < lines {
        let mut x = r.below(total);
        let mut kind = 0;
        for (i, w) in weights.into_iter().enumerate() { if x < w { kind = i; break; } x -= w; }
        let (a, bb, c) = (r.below(SLOTS), r.below(SLOTS), r.below(SLOTS));
        let mut val = |r: &mut Rng| -> i64 {
            let v = match r.below(10) {
                0..=3 => hot[r.below(hot.len())],
                4..=5 => (hot[r.below(hot.len())] + [-1, 1, -2, 2][r.below(4)]).clamp(1, n as i64),
                6 => [1, n as i64][r.below(2)],
                _ => 1 + r.below(n) as i64,
            };
            let v = p.clear_of_far(v);
            if hot.len() < 6 { hot.push(v); } else { let i = r.below(6); hot[i] = v; }
            v
        };
        macro_rules! bd { () => { { let v = val(r); match r.below(8) { 0 => [0, 0], k => [1 + (k % 2) as i64, v] } } } }
        macro_rules! raw { () => { {
            let (mut l, mut h) = (val(r), val(r));
            let k = r.below(11) as i64;
            // written down by hand: out of order now and then
            if l > h && r.chance(3, 4) { std::mem::swap(&mut l, &mut h); }
            match k { 0 => [0, 0, 0], 1 => [1, l, l], 2..=5 => [k, l, h], 6 | 8 => [k, 0, h], 7 | 9 => [k, l, 0], _ => [10, 0, 0] }
        } } }
        let ev: Result<Option<Value>, _> = catch_unwind(AssertUnwindSafe(|| match kind {
            0 => {
                let (mut lo, mut up): (Bd, Bd) = (bd!(), bd!());
                if lo[0] > 0 && up[0] > 0 && lo[1] > up[1] && r.chance(4, 5) { std::mem::swap(&mut lo, &mut up); }
                regs[c] = rec.new(lo, up, r.below(6));
                Some(json!({"e": "new", "c": c + 1, "lo": lo, "up": up, "w": rec.show(&regs[c])}))
            }
            1 => { let w: Raw3 = raw!(); rec.conv(w).map(|v| { regs[c] = v; json!({"e": "conv", "c": c + 1, "raw": w, "w": rec.show(&regs[c])}) }) }
            2 => {
                let op = ["i", "e", "c"][r.below(3)];
                regs[c] = rec.binary(op, &regs[a], &regs[bb]);
                Some(json!({"e": "bin", "op": op, "a": a + 1, "b": bb + 1, "c": c + 1, "w": rec.show(&regs[c])}))
            }
            3 => {
                let op = ["u", "u", "m", "m", "c"][r.below(5)];
                let ps = rec.pieces(op, &regs[a], &regs[bb]);
                let k = if ps.is_empty() || r.chance(1, 3) { 0 } else { 1 + r.below(ps.len()) };
                let ws: Vec<Raw3> = ps.iter().map(|x| rec.show(x)).collect();
                if k > 0 { regs[c] = ps[k - 1].clone(); }
                Some(json!({"e": "pcs", "op": op, "a": a + 1, "b": bb + 1, "c": c + 1, "k": k, "ws": ws}))
            }
            4 => { let mut v = rec.look(&regs[a]); v["e"] = json!("look"); v["a"] = json!(a + 1); Some(v) }
            5 => {
                let vs: Vec<i64> = (0..8).map(|_| val(r)).collect();
                let ins: Vec<i64> = vs.iter().map(|v| b(rec.has(&regs[a], *v))).collect();
                Some(json!({"e": "has", "a": a + 1, "vs": vs, "ins": ins}))
            }
            6 => {
                let (x, y) = (&regs[a], &regs[bb]);
                let (meets, adj) = rec.rel(x, y);
                Some(json!({"e": "rel", "a": a + 1, "b": bb + 1, "meets": b(meets), "adj": b(adj), "eq": b(x == y), "heq": b(hash_of(x) == hash_of(y))}))
            }
            7 => {
                let w = rec.show(&regs[a]);
                let size = if w[0] == 0 { 0 } else { (w[2] - w[1] + 1).max(0) as usize };
                let whole = size <= 60 || r.chance(1, 5);
                let far = p.between(w[1], w[2]);
                let t = if far.is_empty() { Trip::random(size, r, whole) }
                    else { Trip::near((far[0].0 - w[1]) as usize, (w[2] - far[far.len() - 1].0) as usize, r) };
                rec.points(&regs[a], &t, r.chance(1, 2)).map(|mut v| { v["e"] = json!("pts"); v["a"] = json!(a + 1); v })
            }
            8 => {
                // well formed members, as the constructors return them
                let len = match r.below(4) { 0 => r.below(4), 1 => r.below(12), _ => r.below(40) };
                let spread = r.below(3);
                let of: Vec<RawInterval<R::T>> = (0..len).map(|_| {
                    let (mut lo, mut up): (Bd, Bd) = (bd!(), bd!());
                    if spread > 0 {
                        // many short pieces far apart
                        let v = 1 + r.below(n) as i64;
                        lo = [1 + r.below(2) as i64, v];
                        up = [1 + r.below(2) as i64, (v + r.below(if spread == 1 { 3 } else { 1 + n / 6 }) as i64).min(n as i64)];
                        if r.chance(1, 30) { up = [0, 0]; }
                        if r.chance(1, 30) { lo = [0, 0]; }
                    }
                    RawInterval::new(p.bound(lo), p.bound(up))
                }).collect();
                let of = if n > 1000 && r.chance(2, 3) { many(p, n as i64, r) } else { of };
                let ws: Vec<Raw3> = of.iter().map(|x| p.show(x)).collect();
                let uni: Vec<Raw3> = RawInterval::union_all(of.clone().into_iter()).map(|x| p.show(&x)).collect();
                Some(json!({"e": "bulk", "of": ws, "enc": p.show(&RawInterval::enclose_all(of.clone().into_iter())),
                    "int": p.show(&RawInterval::intersect_all(of.into_iter())), "uni": uni}))
            }
            9 => { let w: Raw3 = raw!(); rec.norm(w).map(|mut v| { v["e"] = json!("norm"); v["raw"] = json!(w); v }) }
            10 => {
                let (x, y): (Bd, Bd) = (bd!(), bd!());
                let (s, t) = (p.bound(x), p.bound(y));
                Some(json!({"e": "bd", "x": x, "y": y, "lu": p.code(&s.least_union(&t)), "gu": p.code(&s.greatest_union(&t)),
                    "li": p.code(&s.least_intersect(&t)), "gi": p.code(&s.greatest_intersect(&t))}))
            }
            _ => {
                let (at, other) = (val(r), val(r));
                let (x, y) = (1 + r.below(6) as i64, 1 + r.below(6) as i64);
                let (s, t) = (marker(p.at(at), x), marker(p.at(at), y));
                let q = marker(p.at(other), y);
                let show = |m: Option<Tine<R::T>>| m.map_or([0, 0], |m| {
                    let (k, bd) = match m { Tine::Lower(bd) => (0, bd), Tine::Point(bd) => (2, bd), Tine::Upper(bd) => (4, bd) };
                    match bd { Bound::Include(v) => [p.ix(&v), k + 1], Bound::Exclude(v) => [p.ix(&v), k + 2], Bound::Infinite => [-1, 0] }
                });
                Some(json!({"e": "tine", "p": at, "q": other, "x": x, "y": y, "u": show(s.clone().union(&t)), "i": show(s.clone().intersect(&t)),
                    "m": show(s.clone().minus(&t)), "v": show(Some(s.clone().invert())), "cmp": s.cmp(&q) as i8}))
            }
        }));
        let ev = match ev {
            Ok(None) => continue,
            Ok(Some(v)) => v,
            Err(_) => json!({"e": "panic", "kind": kind}),
        };
        writeln!(f, "{ev}").unwrap();
        done += 1;
        *counts.entry(ev["e"].as_str().unwrap().to_string()).or_default() += 1;
        if ev["e"] == "panic" { break; }
    }
    f.flush().unwrap();
    json!(counts)
}
