//! Tables of single intervals and pairs of them: over finite chains (C07-C10)
//! and over any ordered type (C12-C14, C18, C19).
use crate::ctx::Ctx;
use crate::rng::Rng;
use crate::subject::*;
use crate::tables::*;
use crate::types::*;
use normalize_interval::normalize::Normalize;
use normalize_interval::raw_interval::RawInterval;
use normalize_interval::tine::Tine;
use normalize_interval::{Bound, Interval};
use serde_json::Value;
use std::sync::Arc;

/// The rows of EmitChain.
pub struct ChainTab {
    pub n: usize,
    pub raws: Vec<ChainRaw>,
    pub built: Vec<(Bd, Bd, Raw3)>,
    pub ivs: Vec<ChainIv>,
    pub pairs: Vec<ChainPair>,
}
pub struct ChainRaw { pub w: Raw3, pub normal: Raw3, pub denormal: Raw3, pub has: Vec<bool>, pub well: bool }
pub struct ChainIv { pub w: Raw3, pub lo: usize, pub hi: usize, pub flags: Vec<bool>, pub has: Vec<bool>, pub compl: Vec<Raw3> }
pub struct ChainPair { pub a: Raw3, pub b: Raw3, pub intersect: Raw3, pub meets: bool, pub adjacent: bool,
    pub union: Vec<Raw3>, pub minus: Vec<Raw3>, pub enclose: Raw3, pub equal: bool }
impl ChainTab {
    pub fn load(dir: &str, n: usize) -> Arc<Self> {
        let rows = Rows::load(dir, &format!("chain_{n}"));
        let u = |v: &Value| int(v) as usize;
        let t = Self { n,
            raws: rows.of(31).map(|r| ChainRaw { w: raw3(&r[0]), normal: raw3(&r[1]), denormal: raw3(&r[2]), has: flags(&r[3]), well: flag(&r[4]) }).collect(),
            built: rows.of(32).map(|r| (bd(&r[0]), bd(&r[1]), raw3(&r[2]))).collect(),
            ivs: rows.of(33).map(|r| ChainIv { w: raw3(&r[0]), lo: u(&r[1]), hi: u(&r[2]), flags: flags(&r[3]), has: flags(&r[4]), compl: raw3s(&r[5]) }).collect(),
            pairs: rows.of(34).map(|r| ChainPair { a: raw3(&r[0]), b: raw3(&r[1]), intersect: raw3(&r[2]), meets: flag(&r[3]), adjacent: flag(&r[4]),
                union: raw3s(&r[5]), minus: raw3s(&r[6]), enclose: raw3(&r[7]), equal: flag(&r[8]) }).collect() };
        assert!(!t.raws.is_empty() && !t.ivs.is_empty() && !t.pairs.is_empty() && !t.built.is_empty());
        Arc::new(t)
    }
}
// A position as a bound: a lower bound that includes it starts at its first
// value, one that excludes it starts after its last; mirrored for upper.
fn lob<T: Val>(e: &FinEmb<T>, b: Bd) -> Bound<T> {
    match b[0] { 0 => Bound::Infinite, 1 => Bound::Include(e.lo(b[1] as usize).clone()), _ => Bound::Exclude(e.hi(b[1] as usize).clone()) }
}
fn upb<T: Val>(e: &FinEmb<T>, b: Bd) -> Bound<T> {
    match b[0] { 0 => Bound::Infinite, 1 => Bound::Include(e.hi(b[1] as usize).clone()), _ => Bound::Exclude(e.lo(b[1] as usize).clone()) }
}
/// The raw interval value written down with these positions, as a bare enum
/// value (no constructor).
pub fn chain_raw<T: Val>(e: &FinEmb<T>, w: Raw3) -> RawInterval<T> {
    use RawInterval::*;
    let (l, r) = (w[1] as usize, w[2] as usize);
    let lo = |p: usize| e.lo(p).clone();
    let hi = |p: usize| e.hi(p).clone();
    match w[0] {
        0 => Empty,
        1 if e.single(l) => Point(lo(l)),
        1 => Closed(lo(l), hi(l)),
        2 => Open(hi(l), lo(r)),
        3 => LeftOpen(hi(l), hi(r)),
        4 => RightOpen(lo(l), lo(r)),
        5 => Closed(lo(l), hi(r)),
        6 => UpTo(lo(r)),
        7 => UpFrom(hi(l)),
        8 => To(hi(r)),
        9 => From(lo(l)),
        _ => Full,
    }
}
/// The normal form of a range of positions.
pub fn normal<T: Val>(e: &FinEmb<T>, w: Raw3) -> RawInterval<T> {
    match w[0] {
        0 => RawInterval::Empty,
        1 | 5 => {
            let (l, h) = (e.lo(w[1] as usize).clone(), e.hi(w[2] as usize).clone());
            if l == h { RawInterval::Point(l) } else { RawInterval::Closed(l, h) }
        }
        _ => panic!("not a normal form: {w:?}"),
    }
}
/// What can be seen of an interval from outside: its bounds (and, for the
/// comparison with the enum form, equality with the same interval built anew).
pub fn seen<T: Elem>(i: &Interval<T>) -> Result<Option<(T, T)>, String> {
    match (i.lower_bound(), i.upper_bound()) {
        (None, None) => Ok(None),
        (Some(Bound::Include(l)), Some(Bound::Include(u))) => {
            // equal to, and hashing like, the same points built in another way
            let again = Interval::closed(l.clone(), u.clone());
            if again != *i || *i != again || hash_of(&again) != hash_of(i) { return Err(format!("{i:?} differs from {again:?}")); }
            Ok(Some((l, u)))
        }
        x => Err(format!("{i:?} has bounds {x:?}")),
    }
}
pub fn want_seen<T: Elem>(e: &FinEmb<T>, w: Raw3) -> Result<Option<(T, T)>, String> {
    Ok(match w[0] { 0 => None, _ => Some((e.lo(w[1] as usize).clone(), e.hi(w[2] as usize).clone())) })
}
pub fn iv<T: Elem>(e: &FinEmb<T>, w: Raw3, style: usize) -> Interval<T> {
    interval_of(e, if w[0] == 0 { NO_RANGE } else { (w[1] as u8, w[2] as u8) }, style)
}
/// Coincident half-open bounds stand for their common point, which is one
/// value only: no such row on blocks of several values.
fn one_value<T: Val>(e: &FinEmb<T>, l: Bd, u: Bd) -> bool {
    !(l[0] > 0 && u[0] > 0 && l[1] == u[1] && l[0] != u[0]) || e.single(l[1] as usize)
}
macro_rules! see { ($c:ident, $e:expr, $w:expr, $what:expr) => { {
    let g = $c.guard(|| $e).and_then(|x| x);
    $c.expect(&g, &$w, $what)
} } }

/// C07: constructors and conversions, equality, hash, size classes.
pub fn construct<T: Elem>(e: &FinEmb<T>, t: &ChainTab, c: &mut Ctx) {
    for (l, u, want) in &t.built {
        if !one_value(e, *l, *u) { continue; }
        let (lb, ub) = (lob(e, *l), upb(e, *u));
        let w = want_seen(e, *want);
        let what = |f: &'static str| { let (lb, ub) = (lb.clone(), ub.clone()); move || format!("{f} of {lb:?}, {ub:?}") };
        c.at(20, l[1] as u64, u[1] as u64, (l[0] * 3 + u[0]) as u64);
        see!(c, seen(&Interval::new(lb.clone(), ub.clone())), w, what("Interval::new"));
        use Bound::*;
        match (lb.clone(), ub.clone()) {
            (Include(a), Include(b)) => {
                see!(c, seen(&Interval::closed(a.clone(), b.clone())), w, what("closed"));
                see!(c, seen(&Interval::from(RawInterval::closed(a.clone(), b.clone()))), w, what("From<RawInterval> closed"));
            }
            (Exclude(a), Exclude(b)) => {
                see!(c, seen(&Interval::open(a.clone(), b.clone())), w, what("open"));
                see!(c, seen(&Interval::from(RawInterval::open(a.clone(), b.clone()))), w, what("From<RawInterval> open"));
            }
            (Exclude(a), Include(b)) => {
                see!(c, seen(&Interval::left_open(a.clone(), b.clone())), w, what("left_open"));
                see!(c, seen(&Interval::right_closed(a.clone(), b.clone())), w, what("right_closed"));
                see!(c, seen(&Interval::from(RawInterval::left_open(a.clone(), b.clone()))), w, what("From<RawInterval> left_open"));
            }
            (Include(a), Exclude(b)) => {
                see!(c, seen(&Interval::right_open(a.clone(), b.clone())), w, what("right_open"));
                see!(c, seen(&Interval::left_closed(a.clone(), b.clone())), w, what("left_closed"));
                see!(c, seen(&Interval::from(RawInterval::right_open(a.clone(), b.clone()))), w, what("From<RawInterval> right_open"));
                see!(c, seen(&Interval::from(a.clone()..b.clone())), w, what("From<Range>"));
            }
            (Include(a), Infinite) => {
                see!(c, seen(&Interval::unbounded_from(a.clone())), w, what("unbounded_from"));
                see!(c, seen(&Interval::from(RawInterval::From(a.clone()))), w, what("From<RawInterval> From"));
                see!(c, seen(&Interval::from(a.clone()..)), w, what("From<RangeFrom>"));
            }
            (Exclude(a), Infinite) => {
                see!(c, seen(&Interval::unbounded_up_from(a.clone())), w, what("unbounded_up_from"));
                see!(c, seen(&Interval::from(RawInterval::UpFrom(a.clone()))), w, what("From<RawInterval> UpFrom"));
            }
            (Infinite, Include(b)) => {
                see!(c, seen(&Interval::unbounded_to(b.clone())), w, what("unbounded_to"));
                see!(c, seen(&Interval::from(RawInterval::To(b.clone()))), w, what("From<RawInterval> To"));
                see!(c, seen(&Interval::from(..=b.clone())), w, what("From<RangeToInclusive>"));
            }
            (Infinite, Exclude(b)) => {
                see!(c, seen(&Interval::unbounded_up_to(b.clone())), w, what("unbounded_up_to"));
                see!(c, seen(&Interval::from(RawInterval::UpTo(b.clone()))), w, what("From<RawInterval> UpTo"));
                see!(c, seen(&Interval::from(..b.clone())), w, what("From<RangeTo>"));
            }
            (Infinite, Infinite) => {
                see!(c, seen(&Interval::<T>::full()), w, what("full"));
                see!(c, seen(&Interval::<T>::from(..)), w, what("From<RangeFull>"));
                see!(c, seen(&Interval::<T>::from(RawInterval::Full)), w, what("From<RawInterval> Full"));
            }
        }
        c.rows += 1;
        if c.done() { return; }
    }
    // every enum value converts to its points
    for r in &t.raws {
        let raw = chain_raw(e, r.w);
        see!(c, seen(&Interval::from(raw.clone())), want_seen(e, r.normal), || format!("Interval::from({raw:?})"));
        if c.done() { return; }
        c.rows += 1;
    }
    for p in 1..=e.k() {
        for v in &e.probes[p - 1] {
            let w = Ok(Some((v.clone(), v.clone())));
            see!(c, seen(&Interval::point(v.clone())), w, || format!("Interval::point({v:?})"));
            see!(c, seen(&Interval::from(v.clone())), w, || format!("Interval::from({v:?})"));
            see!(c, seen(&Interval::from(RawInterval::Point(v.clone()))), w, || format!("Interval::from(Point({v:?}))"));
            see!(c, seen(&Interval::closed(v.clone(), v.clone())), w, || format!("Interval::closed({v:?}, {v:?})"));
            see!(c, Ok((Interval::closed(v.clone(), v.clone()) == Interval::point(v.clone()), Interval::point(v.clone()).is_degenerate())), Ok::<_, String>((true, true)),
                || format!("closed({v:?},{v:?}) is point({v:?}), degenerate"));
        }
    }
    see!(c, Ok((Interval::<T>::empty() == Interval::default(), Interval::<T>::empty().is_empty())), Ok::<_, String>((true, true)), || "empty() is default() and empty".into());
    // all pairs of ways to build: equal exactly when the points are
    let n = t.ivs.len();
    for a in 0..n {
        for b in 0..n {
            for (s1, s2) in [(0, 1), (2, 3), (4, 6), (5, 7), (1, 2)] {
                let (wa, wb) = (t.ivs[a].w, t.ivs[b].w);
                let eq = t.pairs.iter().find(|p| p.a == wa && p.b == wb).map(|p| p.equal);
                let Some(eq) = eq else { continue };
                c.at(21, a as u64, b as u64, s1 as u64);
                let g = c.guard(|| {
                    let (x, y) = (iv(e, wa, s1), iv(e, wb, s2));
                    (x == y, x != y, !eq || hash_of(&x) == hash_of(&y))
                });
                c.expect(&g, &Ok::<_, String>((eq, !eq, true)), || format!("(==, !=, hashes) of {wa:?} and {wb:?} (positions, styles {s1}, {s2})"));
                if c.done() { return; }
            }
        }
    }
    size_classes(e, t, c);
    c.sample(serde_json::json!({"job": c.job, "constructor_rows": t.built.len(), "enum_values": t.raws.len()}));
}
fn size_classes<T: Elem>(e: &FinEmb<T>, t: &ChainTab, c: &mut Ctx) {
    for r in &t.ivs {
        let several = r.lo > 0 && e.lo(r.lo) != e.hi(r.hi);
        // one position that is a block of several values is proper
        let want = if r.flags[1] && several { [false, false, true] } else { [r.flags[0], r.flags[1], r.flags[2]] };
        for style in 0..IV_STYLES {
            let g = c.guard(|| { let i = iv(e, r.w, style); [i.is_empty(), i.is_degenerate(), i.is_proper()] });
            c.expect(&g, &Ok::<_, String>(want), || format!("[is_empty, is_degenerate, is_proper] of positions {:?} on {}", r.w, e.name));
        }
        if c.done() { return; }
    }
}

/// C08: operations on pairs of intervals.
pub fn binary<T: Elem>(e: &FinEmb<T>, t: &ChainTab, c: &mut Ctx) {
    let mut rng = Rng::new(c.seed, &c.job);
    let key = |x: &Result<Option<(T, T)>, String>| x.clone();
    let sorted = |it: &mut dyn Iterator<Item = Interval<T>>| {
        let mut v: Vec<_> = it.take(12).map(|i| key(&seen(&i))).collect();
        v.sort();
        v
    };
    let want_pieces = |ws: &[Raw3]| { let mut v: Vec<_> = ws.iter().map(|w| want_seen(e, *w)).collect(); v.sort(); v };
    for r in &t.ivs {
        for style in 0..IV_STYLES {
            let what = |f: &'static str| { let w = r.w; move || format!("{f} of positions {w:?} (style {style})") };
            see!(c, Ok(sorted(&mut iv(e, r.w, style).complement())), Ok::<_, String>(want_pieces(&r.compl)), what("complement"));
            see!(c, seen(&iv(e, r.w, style).closure()), want_seen(e, r.w), what("closure"));
        }
        if c.done() { return; }
    }
    for p in &t.pairs {
        let styles = if c.thorough { 6 } else { 2 };
        for _ in 0..styles {
            let (s1, s2) = (rng.below(IV_STYLES), rng.below(IV_STYLES));
            c.at(22, p.a[1] as u64 * 100 + p.a[2] as u64, p.b[1] as u64 * 100 + p.b[2] as u64, (s1 * 8 + s2) as u64);
            let Ok((x, y)) = c.guard(|| (iv(e, p.a, s1), iv(e, p.b, s2))) else { c.fail(format!("{:?} {:?}", p.a, p.b), "built".into(), "panic".into()); return };
            let what = |f: &'static str| { let (x, y) = (x.clone(), y.clone()); move || format!("{x:?} {f} {y:?}") };
            see!(c, seen(&x.intersect(&y)), want_seen(e, p.intersect), what("intersect"));
            see!(c, Ok(x.intersects(&y)), Ok::<_, String>(p.meets), what("intersects"));
            see!(c, Ok(sorted(&mut x.union(&y))), Ok::<_, String>(want_pieces(&p.union)), what("union"));
            see!(c, Ok(sorted(&mut x.minus(&y))), Ok::<_, String>(want_pieces(&p.minus)), what("minus"));
            see!(c, seen(&x.enclose(&y)), want_seen(e, p.enclose), what("enclose"));
            // A shared boundary position is a shared value only if it is one
            // value.
            let one = !p.adjacent || [p.a[1], p.a[2], p.b[1], p.b[2]].iter().all(|q| *q == 0 || e.single(*q as usize));
            if one { see!(c, Ok(x.is_adjacent_to(&y)), Ok::<_, String>(p.adjacent), what("is_adjacent_to")); }
            // operands as they were
            see!(c, seen(&x), want_seen(e, p.a), what("(left operand after the operations with)"));
            if c.done() { return; }
        }
        c.rows += 1;
    }
    c.sample(serde_json::json!({"job": c.job, "pairs": t.pairs.len(), "intervals": t.ivs.len()}));
}

/// C09: queries of an interval.
pub fn queries<T: Elem>(e: &FinEmb<T>, t: &ChainTab, c: &mut Ctx) {
    for r in &t.ivs {
        for style in 0..IV_STYLES {
            let Ok(i) = c.guard(|| iv(e, r.w, style)) else { c.fail(format!("{:?}", r.w), "built".into(), "panic".into()); return };
            let lo = (r.lo > 0).then(|| e.lo(r.lo).clone());
            let hi = (r.hi > 0).then(|| e.hi(r.hi).clone());
            let what = |f: &'static str| { let i = i.clone(); move || format!("{f} of {i:?} (positions {:?}, style {style})", r.w) };
            macro_rules! q { ($f:literal, $g:expr, $w:expr) => { see!(c, Ok($g), Ok::<_, String>($w), what($f)) } }
            q!("lower_bound", i.lower_bound(), lo.clone().map(Bound::Include));
            q!("upper_bound", i.upper_bound(), hi.clone().map(Bound::Include));
            q!("infimum", i.infimum(), lo.clone());
            q!("supremum", i.supremum(), hi.clone());
            q!("into_non_empty", i.clone().into_non_empty().is_some(), !r.flags[0]);
            if let Ok(Some(j)) = c.guard(|| i.clone().into_non_empty()) { see!(c, seen(&j), want_seen(e, r.w), what("into_non_empty")); }
            let f = &r.flags;
            q!("is_empty", i.is_empty(), f[0]);
            q!("is_open", i.is_open(), f[3]);
            q!("is_left_open", i.is_left_open(), f[4]);
            q!("is_right_open", i.is_right_open(), f[5]);
            q!("is_half_open", i.is_half_open(), f[6]);
            q!("is_closed", i.is_closed(), f[7]);
            q!("is_left_closed", i.is_left_closed(), f[8]);
            q!("is_right_closed", i.is_right_closed(), f[9]);
            q!("is_half_closed", i.is_half_closed(), f[10]);
            q!("is_bounded", i.is_bounded(), f[11]);
            q!("is_left_bounded", i.is_left_bounded(), f[12]);
            q!("is_right_bounded", i.is_right_bounded(), f[13]);
            q!("is_half_bounded", i.is_half_bounded(), f[14]);
            for p in 1..=e.k() {
                for v in &e.probes[p - 1] {
                    let g = c.guard(|| i.contains(v));
                    c.expect(&g, &Ok::<_, String>(r.has[p - 1]), || format!("{i:?} contains {v:?}"));
                }
            }
            if c.done() { return; }
        }
        c.rows += 1;
    }
    size_classes(e, t, c);
    c.sample(serde_json::json!({"job": c.job, "intervals": t.ivs.len(), "styles": IV_STYLES}));
}
/// C09: size, where values subtract; `diff` gives the difference of the two
/// ends (a number of positions apart), if the type has it.
pub fn sizes<T: Elem + std::ops::Sub<Output = T> + Copy>(e: &FinEmb<T>, t: &ChainTab, diff: impl Fn(&T, &T, usize) -> Option<T>, c: &mut Ctx) {
    for r in &t.ivs {
        let want = if r.lo == 0 { None } else {
            let d = diff(e.lo(r.lo), e.hi(r.hi), r.hi - r.lo);
            if d.is_none() { continue; }
            d
        };
        c.rows += 1;
        for style in 0..IV_STYLES {
            let g = c.guard(|| iv(e, r.w, style).size());
            c.expect(&g, &Ok::<_, String>(want), || format!("size of positions {:?} on {}", r.w, e.name));
            if c.done() { return; }
        }
    }
}

/// C10: normalize and denormalize on every enum value.
pub fn normalizing<T: Elem>(e: &FinEmb<T>, t: &ChainTab, c: &mut Ctx) {
    use RawInterval::*;
    for (row, r) in t.raws.iter().enumerate() {
        let raw = chain_raw(e, r.w);
        c.at(23, row as u64, 0, 0);
        let what = |f: &'static str| { let raw = raw.clone(); move || format!("{f} of {raw:?}") };
        let n = normal(e, r.normal);
        see!(c, Ok(raw.clone().normalized()), Ok::<_, String>(n.clone()), what("normalized"));
        see!(c, Ok({ let mut x = raw.clone(); x.normalize(); x }), Ok::<_, String>(n.clone()), what("normalize"));
        see!(c, Ok(raw.clone().normalized().normalized()), Ok::<_, String>(n.clone()), what("normalized twice"));
        let Ok(d) = c.guard(|| raw.clone().denormalized()) else { c.fail(what("denormalized")(), "a value".into(), "panic".into()); return };
        see!(c, Ok({ let mut x = raw.clone(); x.denormalize(); x }), Ok::<_, String>(d.clone()), what("denormalize (against denormalized)"));
        see!(c, Ok(raw.clone().normalized().denormalized().normalized()), Ok::<_, String>(n.clone()), what("normalized, denormalized, normalized"));
        see!(c, Ok(d.clone().normalized()), Ok::<_, String>(n.clone()), what("denormalized, normalized"));
        if r.denormal[0] >= 0 {
            let w = match r.denormal[0] {
                2 => Open(e.hi(r.denormal[1] as usize).clone(), e.lo(r.denormal[2] as usize).clone()),
                6 => UpTo(e.lo(r.denormal[2] as usize).clone()),
                7 => UpFrom(e.hi(r.denormal[1] as usize).clone()),
                10 => Full,
                _ => panic!("denormal form {:?}", r.denormal),
            };
            see!(c, Ok(d.clone()), Ok::<_, String>(w.clone()), what("denormalized"));
            see!(c, Ok(d.clone().denormalized()), Ok::<_, String>(w.clone()), what("denormalized twice"));
            see!(c, Ok(n.clone().denormalized()), Ok::<_, String>(w.clone()), what("normalized, denormalized"));
        }
        let nn = c.guard(|| raw.clone().normalized()).unwrap_or(Empty);
        for p in 1..=e.k() {
            for v in &e.probes[p - 1] {
                let g = c.guard(|| (raw.contains(v), nn.contains(v), d.contains(v)));
                let h = r.has[p - 1];
                c.expect(&g, &Ok::<_, String>((h, h, h)), || format!("(raw, normalized, denormalized) {raw:?} contains {v:?}"));
            }
        }
        if c.done() { return; }
        c.rows += 1;
    }
    c.sample(serde_json::json!({"job": c.job, "enum_values": t.raws.len()}));
}

// ---------------------------------------------------------------------------
/// The rows of EmitRaw and Bulk.
pub struct RawTab {
    pub n: usize,
    pub built: Vec<(Bd, Bd, Raw3)>,
    pub one: Vec<RawOne>,
    pub pairs: Vec<RawPair>,
    pub bounds: Vec<[Bd; 6]>,
    pub combinators: Vec<Vec<Value>>,
}
pub struct RawOne { pub w: Raw3, pub low: Bd, pub upp: Bd, pub empty: bool, pub full: bool, pub has: Vec<bool>, pub compl: Vec<Raw3>, pub closure: Raw3, pub cells: Range }
pub struct RawPair { pub a: Raw3, pub b: Raw3, pub intersect: Raw3, pub meets: bool, pub adjacent: bool, pub union: Vec<Raw3>, pub minus: Vec<Raw3>, pub enclose: Raw3 }
impl RawTab {
    pub fn load(dir: &str, n: usize) -> Arc<Self> {
        let rows = Rows::load(dir, &format!("raw_{n}"));
        let t = Self { n,
            built: rows.of(10).map(|r| (bd(&r[0]), bd(&r[1]), raw3(&r[2]))).collect(),
            one: rows.of(11).map(|r| RawOne { w: raw3(&r[0]), low: bd(&r[1]), upp: bd(&r[2]), empty: flag(&r[3]), full: flag(&r[4]),
                has: flags(&r[5]), compl: raw3s(&r[6]), closure: raw3(&r[7]), cells: range(&r[8]) }).collect(),
            pairs: rows.of(12).map(|r| RawPair { a: raw3(&r[0]), b: raw3(&r[1]), intersect: raw3(&r[2]), meets: flag(&r[3]), adjacent: flag(&r[4]),
                union: raw3s(&r[5]), minus: raw3s(&r[6]), enclose: raw3(&r[7]) }).collect(),
            bounds: rows.of(13).map(|r| [bd(&r[0]), bd(&r[1]), bd(&r[2]), bd(&r[3]), bd(&r[4]), bd(&r[5])]).collect(),
            combinators: rows.of(15).map(<[Value]>::to_vec).collect(),
        };
        assert!(!t.built.is_empty() && !t.one.is_empty() && !t.pairs.is_empty() && !t.bounds.is_empty() && !t.combinators.is_empty());
        Arc::new(t)
    }
}
fn pieces<T: Val>(e: &DenseEmb<T>, it: impl Iterator<Item = RawInterval<T>>) -> Vec<Raw3> {
    let mut v: Vec<Raw3> = it.take(64).map(|w| raw3_of(e, &w)).collect();
    v.sort_unstable();
    v
}
fn sorted(mut v: Vec<Raw3>) -> Vec<Raw3> { v.sort_unstable(); v }

/// C12: constructors and queries of raw intervals.
pub fn raw_one<T: Val>(e: &DenseEmb<T>, t: &RawTab, c: &mut Ctx) {
    for (l, u, want) in &t.built {
        let (lb, ub) = (bound_of(e, *l), bound_of(e, *u));
        c.at(30, l[1] as u64, u[1] as u64, (l[0] * 3 + u[0]) as u64);
        let what = |f: &'static str| { let (lb, ub) = (lb.clone(), ub.clone()); move || format!("{f} of {lb:?}, {ub:?}") };
        see!(c, Ok(raw3_of(e, &RawInterval::new(lb.clone(), ub.clone()))), Ok::<_, String>(*want), what("RawInterval::new"));
        if let (Some(a), Some(b)) = (lb.as_ref().cloned(), ub.as_ref().cloned()) {
            match (l[0], u[0]) {
                (1, 1) => see!(c, Ok(raw3_of(e, &RawInterval::closed(a, b))), Ok::<_, String>(*want), what("closed")),
                (1, 2) => see!(c, Ok(raw3_of(e, &RawInterval::right_open(a, b))), Ok::<_, String>(*want), what("right_open")),
                (2, 1) => see!(c, Ok(raw3_of(e, &RawInterval::left_open(a, b))), Ok::<_, String>(*want), what("left_open")),
                _ => see!(c, Ok(raw3_of(e, &RawInterval::open(a, b))), Ok::<_, String>(*want), what("open")),
            };
        }
        c.rows += 1;
        if c.done() { return; }
    }
    for r in &t.one {
        let w = raw_of(e, r.w);
        let what = |f: &'static str| { let w = w.clone(); move || format!("{f} of {w:?}") };
        macro_rules! q { ($f:literal, $g:expr, $w:expr) => { see!(c, Ok($g), Ok::<_, String>($w), what($f)) } }
        let val = |b: Bd| (b[0] > 0).then(|| e.at(b[1]));
        q!("lower_bound", bd_of(e, &w.lower_bound()), r.low);
        q!("upper_bound", bd_of(e, &w.upper_bound()), r.upp);
        q!("infimum", w.infimum(), val(r.low));
        q!("supremum", w.supremum(), val(r.upp));
        q!("is_empty", w.is_empty(), r.empty);
        q!("is_full", w.is_full(), r.full);
        if !r.empty { q!("rebuilding from its bounds", raw3_of(e, &RawInterval::new(w.lower_bound().unwrap(), w.upper_bound().unwrap())), r.w); }
        for (cell, v) in e.probes() {
            // a value in an even cell is one of the table's
            let want = cell as u8 >= r.cells.0 && cell as u8 <= r.cells.1;
            if cell % 2 == 0 { assert_eq!(want, r.has[cell / 2 - 1]); }
            let g = c.guard(|| w.contains(&v));
            c.expect(&g, &Ok::<_, String>(want), || format!("{w:?} contains {v:?}"));
        }
        let other = t.one.iter().filter(|o| c.guard(|| raw_of(e, o.w) == w && hash_of(&raw_of(e, o.w)) == hash_of(&w)).unwrap_or(false)).count();
        c.expect(&other, &1, || format!("{w:?} equals itself only"));
        c.rows += 1;
        if c.done() { return; }
    }
    c.sample(serde_json::json!({"job": c.job, "constructor_rows": t.built.len(), "raw_intervals": t.one.len()}));
}
/// C13: operations on raw intervals.
pub fn raw_pairs<T: Val>(e: &DenseEmb<T>, t: &RawTab, c: &mut Ctx) {
    for r in &t.one {
        let w = raw_of(e, r.w);
        let what = |f: &'static str| { let w = w.clone(); move || format!("{f} of {w:?}") };
        see!(c, Ok(pieces(e, w.complement())), Ok::<_, String>(sorted(r.compl.clone())), what("complement"));
        see!(c, Ok(raw3_of(e, &w.closure())), Ok::<_, String>(r.closure), what("closure"));
        if c.done() { return; }
    }
    for (i, p) in t.pairs.iter().enumerate() {
        let (x, y) = (raw_of(e, p.a), raw_of(e, p.b));
        c.at(31, i as u64, 0, 0);
        let what = |f: &'static str| { let (x, y) = (x.clone(), y.clone()); move || format!("{x:?} {f} {y:?}") };
        see!(c, Ok(raw3_of(e, &x.intersect(&y))), Ok::<_, String>(p.intersect), what("intersect"));
        see!(c, Ok(x.intersects(&y)), Ok::<_, String>(p.meets), what("intersects"));
        see!(c, Ok(x.is_adjacent_to(&y)), Ok::<_, String>(p.adjacent), what("is_adjacent_to"));
        see!(c, Ok(pieces(e, x.union(&y))), Ok::<_, String>(sorted(p.union.clone())), what("union"));
        see!(c, Ok(pieces(e, x.minus(&y))), Ok::<_, String>(sorted(p.minus.clone())), what("minus"));
        see!(c, Ok(raw3_of(e, &x.enclose(&y))), Ok::<_, String>(p.enclose), what("enclose"));
        c.rows += 1;
        if c.done() { return; }
    }
    c.sample(serde_json::json!({"job": c.job, "pairs": t.pairs.len()}));
}
/// C14: bulk operations on every short sequence, and on long random ones whose
/// expected result is a walk through the tables.
pub struct BulkTab(pub Vec<(Vec<Raw3>, Raw3, Raw3, Vec<Raw3>)>);
impl BulkTab {
    pub fn load(dir: &str, name: &str) -> Arc<Self> {
        let rows = Rows::load(dir, name);
        Arc::new(Self(rows.of(14).map(|r| (raw3s(&r[0]), raw3(&r[1]), raw3(&r[2]), raw3s(&r[3]))).collect()))
    }
}
fn bulk_one<T: Val>(e: &DenseEmb<T>, seq: &[RawInterval<T>], enclose: Raw3, intersect: Raw3, union: Vec<Raw3>, c: &mut Ctx) {
    let what = |f: &'static str| { let s = seq.to_vec(); move || format!("{f} of {s:?}") };
    // from a Vec, and from a lazy iterator without a useful size hint
    let lazy = || seq.iter().filter(|_| true).cloned();
    see!(c, Ok(raw3_of(e, &RawInterval::enclose_all(seq.to_vec().into_iter()))), Ok::<_, String>(enclose), what("enclose_all"));
    see!(c, Ok(raw3_of(e, &RawInterval::intersect_all(seq.to_vec().into_iter()))), Ok::<_, String>(intersect), what("intersect_all"));
    see!(c, Ok(pieces(e, RawInterval::union_all(seq.to_vec().into_iter()))), Ok::<_, String>(sorted(union.clone())), what("union_all"));
    see!(c, Ok((raw3_of(e, &RawInterval::enclose_all(lazy())), raw3_of(e, &RawInterval::intersect_all(lazy())), pieces(e, RawInterval::union_all(lazy())))),
        Ok::<_, String>((enclose, intersect, sorted(union))), what("(enclose_all, intersect_all, union_all) of an iterator"));
    c.traces += 1;
}
pub fn bulk<T: Val>(e: &DenseEmb<T>, t: &BulkTab, c: &mut Ctx) {
    for (i, (seq, en, int_, un)) in t.0.iter().enumerate() {
        let s: Vec<RawInterval<T>> = seq.iter().map(|w| raw_of(e, *w)).collect();
        c.at(32, i as u64, 0, 0);
        bulk_one(e, &s, *en, *int_, un.clone(), c);
        c.rows += 1;
        if c.done() { return; }
    }
    c.sample(serde_json::json!({"job": c.job, "sequences": t.0.len(), "example": t.0[t.0.len() / 2].0}));
}
pub fn bulk_long<T: Val>(e: &DenseEmb<T>, t: &Regions, q: &TreeTab, count: usize, c: &mut Ctx) {
    let s = Tree(e, q);
    let mut rng = Rng::new(c.seed, &c.job);
    for i in 0..count {
        c.at(33, i as u64, 0, 0);
        let most = if rng.chance(1, 4) { 30 } else { 7 };
        let len = rng.below(most);
        // several styles of sequence: anything, mostly small, mostly large
        let style = rng.below(4);
        let mut seq: Vec<RawInterval<T>> = vec![];
        let (mut un, mut inter) = (0u32, t.full());
        for _ in 0..len {
            let a = loop {
                let a = rng.below(t.args.len());
                let r = t.args[a];
                let w = if r == NO_RANGE { 0 } else { r.1 - r.0 + 1 };
                let ok = match style { 1 => w <= 2, 2 => w as usize >= t.k / 2, 3 => w <= 1 && r != NO_RANGE, _ => true };
                if ok || rng.chance(1, 12) { break a; }
            };
            seq.push(s.raw(t.args[a]));
            un = t.edit[0][un as usize][a];
            inter = t.edit[1][inter as usize][a];
        }
        let runs = &t.runs[inter as usize];
        assert!(runs.len() <= 1);
        let int3 = runs.first().map_or([0, 0, 0], |r| q.raw_of[r]);
        let union = t.runs[un as usize].iter().map(|r| q.raw_of[r]).collect();
        bulk_one(e, &seq, q.raw_of[&t.hull[un as usize]], int3, union, c);
        if c.done() { return; }
    }
    c.sample(serde_json::json!({"job": c.job, "random_sequences": count, "up_to_length": 29}));
}

// ---------------------------------------------------------------------------
/// C19: bounds.
thread_local! { static DEFAULT: std::cell::Cell<i64> = const { std::cell::Cell::new(0) } }
/// A type whose default value is the value chosen last.
struct Dflt(i64);
impl Default for Dflt { fn default() -> Self { Self(DEFAULT.get()) } }
pub fn bounds<T: Val>(e: &DenseEmb<T>, t: &RawTab, c: &mut Ctx) {
    for r in &t.bounds {
        let (a, b) = (bound_of(e, r[0]), bound_of(e, r[1]));
        let ops: [(&'static str, fn(&Bound<T>, &Bound<T>) -> Bound<T>); 4] = [
            ("least_union", Bound::least_union), ("least_intersect", Bound::least_intersect),
            ("greatest_union", Bound::greatest_union), ("greatest_intersect", Bound::greatest_intersect)];
        for (i, (name, op)) in ops.iter().enumerate() {
            see!(c, Ok(bd_of(e, &Some(op(&a, &b)))), Ok::<_, String>(r[2 + i]), || format!("{name} of {a:?} and {b:?}"));
        }
        c.rows += 1;
        if c.done() { return; }
    }
    // [bound, finite, inclusive, exclusive, as_ref, [d, unwrap_or d, transferred, map_or d, made of d].., [image]]
    for r in &t.combinators {
        let code = bd(&r[0]);
        let b = bound_of(e, code);
        let what = |f: &'static str| { let b = b.clone(); move || format!("{f} of {b:?}") };
        macro_rules! q { ($f:literal, $g:expr, $w:expr) => { see!(c, Ok($g), Ok::<_, String>($w), what($f)) } }
        let ix = |v: &T| e.index(v).unwrap_or(-1);
        let as_ref = int(&r[4]);
        q!("is_finite", b.is_finite(), flag(&r[1]));
        q!("is_inclusive", b.is_inclusive(), flag(&r[2]));
        q!("is_exclusive", b.is_exclusive(), flag(&r[3]));
        q!("as_ref", b.as_ref().map_or(0, ix), as_ref);
        q!("as_mut", b.clone().as_mut().map_or(0, |x| ix(x)), as_ref);
        if as_ref > 0 { q!("unwrap", ix(&b.clone().unwrap()), as_ref); }
        for d in r[5].as_array().unwrap() {
            // [d, unwrap_or d, unwrap_or_else d, transfer to d, assigned through as_mut]
            let d = d.as_array().unwrap();
            let dv = e.at(int(&d[0]));
            q!("unwrap_or", ix(&b.clone().unwrap_or(dv.clone())), int(&d[1]));
            q!("unwrap_or_else", { let dv = dv.clone(); ix(&b.clone().unwrap_or_else(move || dv)) }, int(&d[1]));
            q!("transfer", bd_of(e, &Some(Bound::transfer(b.clone(), dv.clone()))), bd(&d[2]));
            q!("transfer from a reference", bd_of(e, &Some(Bound::transfer(&b, dv.clone()))), bd(&d[2]));
            q!("assigning through as_mut", { let mut x = b.clone(); if let Some(p) = x.as_mut() { *p = dv.clone(); } bd_of(e, &Some(x)) }, bd(&d[2]));
            q!("From<T>", bd_of(e, &Some(Bound::from(dv.clone()))), bd(&d[4]));
            DEFAULT.set(int(&d[0]));
            q!("default", bd_of(e, &Some(Bound::<Dflt>::default().map(|v| e.at(v.0)))), bd(&d[4]));
            // map with the function v -> n+1-v
            let n = t.n as i64;
            let f = |v: T| e.at(n + 1 - ix(&v));
            q!("map", bd_of(e, &Some(b.clone().map(f))), bd(&r[6]));
            q!("map_or", ix(&b.clone().map_or(dv.clone(), f)), int(&d[3]));
            q!("map_or_else", { let dv = dv.clone(); ix(&b.clone().map_or_else(move || dv, f)) }, int(&d[3]));
        }
        // to another type
        q!("map to text", b.clone().map(|v| format!("{v:?}")).as_ref().cloned(), (as_ref > 0).then(|| format!("{:?}", e.at(as_ref))));
        c.rows += 1;
        if c.done() { return; }
    }
    c.sample(serde_json::json!({"job": c.job, "pairs_of_bounds": t.bounds.len(), "bounds": t.combinators.len()}));
}

// ---------------------------------------------------------------------------
/// C18: boundary markers.
pub struct TineTab(pub Rows);
impl TineTab { pub fn load(dir: &str, n: usize) -> Arc<Self> { Arc::new(Self(Rows::load(dir, &format!("tines_{n}")))) } }
/// A marker at the value, by its code.
pub fn marker<T>(v: T, code: i64) -> Tine<T> {
    use Bound::*;
    match code {
        1 => Tine::Lower(Include(v)), 2 => Tine::Lower(Exclude(v)),
        3 => Tine::Point(Include(v)), 4 => Tine::Point(Exclude(v)),
        5 => Tine::Upper(Include(v)), _ => Tine::Upper(Exclude(v)),
    }
}
pub fn tine<T: Val>(e: &DenseEmb<T>, place: i64, code: i64) -> Tine<T> {
    match code {
        7 => Tine::Lower(Bound::Infinite), 8 => Tine::Upper(Bound::Infinite),
        _ => marker(e.at(place), code),
    }
}
/// (place, code); infinite markers are at no value
fn code<T: Val>(e: &DenseEmb<T>, t: &Option<Tine<T>>) -> (i64, i64) {
    use Bound::*;
    let ix = |v: &T| e.index(v).unwrap_or(-1);
    match t {
        None => (0, 0),
        Some(Tine::Lower(Include(v))) => (ix(v), 1), Some(Tine::Lower(Exclude(v))) => (ix(v), 2),
        Some(Tine::Point(Include(v))) => (ix(v), 3), Some(Tine::Point(Exclude(v))) => (ix(v), 4),
        Some(Tine::Upper(Include(v))) => (ix(v), 5), Some(Tine::Upper(Exclude(v))) => (ix(v), 6),
        Some(Tine::Lower(Infinite)) => (0, 7), Some(Tine::Upper(Infinite)) => (0, 8),
        Some(Tine::Point(Infinite)) => (0, 99),
    }
}
pub fn tines<T: Val>(e: &DenseEmb<T>, t: &TineTab, c: &mut Ctx) {
    let n = e.n() as i64;
    for v in 1..=n {
        for r in t.0.of(20) {
            let a = int(&r[0]);
            let x = tine(e, v, a);
            let what = |f: &'static str| { let x = x.clone(); move || format!("{f} of {x:?}") };
            macro_rules! q { ($f:literal, $g:expr, $w:expr) => { see!(c, Ok($g), Ok::<_, String>($w), what($f)) } }
            q!("invert", code(e, &Some(x.clone().invert())), (v, int(&r[1])));
            q!("is_lower_bound", x.is_lower_bound(), flag(&r[2]));
            q!("is_upper_bound", x.is_upper_bound(), flag(&r[3]));
            q!("is_point_include", x.is_point_include(), flag(&r[4]));
            q!("is_point_exclude", x.is_point_exclude(), flag(&r[5]));
            q!("as_ref", x.as_ref().cloned(), Some(e.at(v)));
            q!("into_inner", bd_of(e, &Some(x.clone().into_inner())), [if a % 2 == 1 { 1 } else { 2 }, v]);
            c.rows += 1;
        }
        for r in t.0.of(21) {
            let (a, b) = (int(&r[0]), int(&r[1]));
            let (x, y) = (tine(e, v, a), tine(e, v, b));
            let at = |code: i64| if code == 0 { (0, 0) } else if code >= 7 { (0, code) } else { (v, code) };
            let what = |f: &'static str| { let (x, y) = (x.clone(), y.clone()); move || format!("{x:?} {f} {y:?}") };
            see!(c, Ok(code(e, &x.clone().union(&y))), Ok::<_, String>(at(int(&r[2]))), what("union"));
            see!(c, Ok(code(e, &x.clone().intersect(&y))), Ok::<_, String>(at(int(&r[3]))), what("intersect"));
            see!(c, Ok(code(e, &x.clone().minus(&y))), Ok::<_, String>(at(int(&r[4]))), what("minus"));
            c.rows += 1;
        }
        if c.done() { return; }
    }
    for r in t.0.of(22) {
        let (x, y) = (tine(e, int(&r[0]), int(&r[1])), tine(e, int(&r[2]), int(&r[3])));
        let w = int(&r[4]).cmp(&0);
        see!(c, Ok((x.cmp(&y), x.partial_cmp(&y))), Ok::<_, String>((w, Some(w))), || format!("order of {x:?} and {y:?}"));
        see!(c, Ok((x < y, x <= y, x > y, x >= y)), Ok::<_, String>((w.is_lt(), w.is_le(), w.is_gt(), w.is_ge())), || format!("comparison operators on {x:?} and {y:?}"));
        c.rows += 1;
        if c.done() { return; }
    }
    for r in t.0.of(23) {
        let w = raw_of(e, raw3(&r[0]));
        let mut want: Vec<(i64, i64)> = r[1].as_array().unwrap().iter()
            .map(|x| { let x = ints(x); if x[1] >= 7 { (0, x[1]) } else { (x[0], x[1]) } }).collect();
        want.sort_unstable();
        see!(c, Ok({ let mut g: Vec<_> = Tine::from_raw_interval(w.clone()).map(|x| code(e, &Some(x))).collect(); g.sort_unstable(); g }), Ok::<_, String>(want), || format!("markers of {w:?}"));
        c.rows += 1;
        if c.done() { return; }
    }
    for (x, name) in [(Tine::<T>::Lower(Bound::Infinite), true), (Tine::Upper(Bound::Infinite), false)] {
        see!(c, Ok((x.is_lower_bound(), x.is_upper_bound(), x.is_point_include(), x.is_point_exclude(), x.as_ref().is_none())),
            Ok::<_, String>((name, !name, false, false, true)), || format!("classification of {x:?}"));
    }
    c.sample(serde_json::json!({"job": c.job, "merge_rows": t.0.of(21).count(), "order_rows": t.0.of(22).count()}));
}
