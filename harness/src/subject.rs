//! The two implementations of the abstract machine Regions, and the replay of
//! its transition table on them.
use crate::ctx::Ctx;
use crate::rng::Rng;
use crate::tables::*;
use crate::types::*;
use normalize_interval::raw_interval::RawInterval;
use normalize_interval::tine_tree::TineTree;
use normalize_interval::{Bound, Interval, Selection};
use std::collections::hash_map::DefaultHasher;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

pub trait Subject {
    type V: Clone + PartialEq + Hash + Debug;
    fn k(&self) -> usize;
    fn empty(&self) -> Self::V;
    fn full(&self) -> Self::V;
    fn from_arg(&self, r: Range, style: usize) -> Self::V;
    fn edit(&self, op: usize, v: &mut Self::V, r: Range, style: usize);
    fn binary(&self, op: usize, a: &Self::V, b: &Self::V) -> Self::V;
    fn complement(&self, a: &Self::V) -> Self::V;
    fn meets(&self, a: &Self::V, b: &Self::V) -> Option<bool>;
    fn collect(&self, rs: &[Range], style: usize) -> Self::V;
    fn extend(&self, v: &mut Self::V, rs: &[Range], style: usize);
    /// Decomposition, by reference and by value.
    fn runs(&self, v: &Self::V) -> Result<Vec<Range>, String>;
    fn into_runs(&self, v: Self::V) -> Result<Vec<Range>, String>;
    /// Membership of probe values per position (at least none).
    fn members(&self, v: &Self::V) -> Vec<(usize, bool)>;
    /// Other ways of building the set of a list of ranges.
    fn alternative(&self, rs: &[Range], which: usize) -> Option<Self::V>;
}
pub fn hash_of<T: Hash>(t: &T) -> u64 { let mut h = DefaultHasher::new(); t.hash(&mut h); h.finish() }

// ---------------------------------------------------------------------------
pub struct Sel<'a, T>(pub &'a FinEmb<T>);
pub const IV_STYLES: usize = 8;
/// The interval of a range of positions, written in different ways.
pub fn interval_of<T: Elem, I: Copy + Into<usize>>(e: &FinEmb<T>, r: (I, I), style: usize) -> Interval<T> {
    let (a, b): (usize, usize) = (r.0.into(), r.1.into());
    if a > b {
        return match style % 4 {
            0 => Interval::empty(),
            1 if e.k() > 1 => Interval::closed(e.hi(e.k()).clone(), e.lo(1).clone()),
            2 => Interval::open(e.lo(1).clone(), e.lo(1).clone()),
            _ => Interval::from(RawInterval::Empty),
        };
    }
    let (l, h) = (e.lo(a).clone(), e.hi(b).clone());
    // neighbouring excluded values
    let p = if a > 1 { Some(e.hi(a - 1).clone()) } else { None };
    let s = if b < e.k() { Some(e.lo(b + 1).clone()) } else { None };
    match (style % IV_STYLES, p, s) {
        (1, Some(p), Some(s)) => Interval::open(p, s),
        (1, Some(p), None) => Interval::unbounded_up_from(p),
        (1, None, Some(s)) => Interval::unbounded_up_to(s),
        (1, None, None) => Interval::full(),
        (2, Some(p), _) => Interval::left_open(p, h),
        (3, _, Some(s)) => Interval::right_open(l, s),
        (4, None, _) => Interval::unbounded_to(h),
        (4, _, None) => Interval::unbounded_from(l),
        (5, p, s) => Interval::new(p.map_or(Bound::Infinite, Bound::Exclude), s.map_or(Bound::Infinite, Bound::Exclude)),
        (6, _, _) => Interval::from(RawInterval::closed(l, h)),
        (7, _, _) if l == h => Interval::point(l),
        _ => Interval::closed(l, h),
    }
}
pub fn range_of_interval<T: Elem>(e: &FinEmb<T>, i: &Interval<T>) -> Result<Range, String> {
    let (Some(Bound::Include(l)), Some(Bound::Include(u))) = (i.lower_bound(), i.upper_bound()) else {
        return Err(format!("{i:?} has no inclusive bounds"));
    };
    // a single point or a closed interval, as the bounds say
    if *i != Interval::closed(l.clone(), u.clone()) { return Err(format!("{i:?} is not normalized")); }
    match (e.pos_lo(&l), e.pos_hi(&u)) {
        (Some(a), Some(b)) if a <= b => Ok((a as u8, b as u8)),
        _ => Err(format!("{i:?} is no range of {:?}", e.name)),
    }
}
fn limited<X>(it: impl Iterator<Item = X>, k: usize) -> Vec<X> { it.take(2 * k + 4).collect() }

impl<T: Elem> Subject for Sel<'_, T> {
    type V = Selection<T>;
    fn k(&self) -> usize { self.0.k() }
    fn empty(&self) -> Self::V { Selection::new() }
    fn full(&self) -> Self::V { Selection::full() }
    fn from_arg(&self, r: Range, style: usize) -> Self::V { Selection::from(interval_of(self.0, r, style)) }
    fn edit(&self, op: usize, v: &mut Self::V, r: Range, style: usize) {
        let i = interval_of(self.0, r, style);
        match op { 0 => v.union_in_place(i), 1 => v.intersect_in_place(i), _ => v.minus_in_place(i) }
    }
    fn binary(&self, op: usize, a: &Self::V, b: &Self::V) -> Self::V {
        match op { 0 => a.union(b), 1 => a.intersect(b), _ => a.minus(b) }
    }
    fn complement(&self, a: &Self::V) -> Self::V { a.complement() }
    fn meets(&self, a: &Self::V, b: &Self::V) -> Option<bool> { Some(a.intersects(b)) }
    fn collect(&self, rs: &[Range], style: usize) -> Self::V {
        rs.iter().map(|r| interval_of(self.0, *r, style)).collect()
    }
    fn extend(&self, v: &mut Self::V, rs: &[Range], style: usize) {
        v.extend(rs.iter().map(|r| interval_of(self.0, *r, style)));
    }
    fn runs(&self, v: &Self::V) -> Result<Vec<Range>, String> {
        limited(v.interval_iter(), self.k()).iter().map(|i| range_of_interval(self.0, i)).collect()
    }
    fn into_runs(&self, v: Self::V) -> Result<Vec<Range>, String> {
        limited(v.into_interval_iter(), self.k()).iter().map(|i| range_of_interval(self.0, i)).collect()
    }
    fn members(&self, v: &Self::V) -> Vec<(usize, bool)> {
        let mut r = vec![];
        for (i, ps) in self.0.probes.iter().enumerate() {
            for x in ps { r.push((i + 1, v.contains(x))); }
        }
        r
    }
    fn alternative(&self, rs: &[Range], which: usize) -> Option<Self::V> {
        match which {
            // collecting points, in a scrambled order, with repetitions
            0 => {
                let mut pts: Vec<T> = vec![];
                for r in rs {
                    for p in r.0..=r.1 {
                        if !self.0.single(p as usize) { return None; }
                        pts.push(self.0.lo(p as usize).clone());
                    }
                }
                let n = pts.len();
                let again: Vec<T> = (0..n).map(|i| pts[(i * 7 + 3) % n].clone()).collect();
                Some(pts.into_iter().rev().chain(again).collect())
            }
            1 => Some(rs.iter().rev().map(|r| interval_of(self.0, *r, 5)).fold(Selection::default(), |mut s, i| { s.extend(Some(i)); s })),
            2 => Some(rs.iter().map(|r| Selection::from(interval_of(self.0, *r, 3))).fold(Selection::empty(), |s, i| i.union(&s))),
            // a longer list of the same points, in scrambled order
            3 => {
                let mut all: Vec<Range> = rs.to_vec();
                for r in rs { for p in r.0..=r.1 { all.push((p, r.1)); all.push((r.0, p)); } }
                let n = all.len();
                Some((0..n).map(|i| interval_of(self.0, all[(i * 5 + 2) % n], i)).collect::<Selection<T>>())
                    .filter(|_| n % 5 != 0)
            }
            _ => None,
        }
    }
}

// ---------------------------------------------------------------------------
pub struct Tree<'a, T>(pub &'a DenseEmb<T>, pub &'a TreeTab);
pub fn raw_of<T: Val>(e: &DenseEmb<T>, w: Raw3) -> RawInterval<T> {
    use RawInterval::*;
    let (l, r) = (w[1], w[2]);
    match w[0] {
        0 => Empty,
        1 => Point(e.at(l)),
        2 => Open(e.at(l), e.at(r)),
        3 => LeftOpen(e.at(l), e.at(r)),
        4 => RightOpen(e.at(l), e.at(r)),
        5 => Closed(e.at(l), e.at(r)),
        6 => UpTo(e.at(r)),
        7 => UpFrom(e.at(l)),
        8 => To(e.at(r)),
        9 => From(e.at(l)),
        10 => Full,
        _ => unreachable!(),
    }
}
/// -1 when a value is none of the embedding's
pub fn raw3_by<T>(w: &RawInterval<T>, ix: impl Fn(&T) -> i64) -> Raw3 {
    use RawInterval::*;
    match w {
        Empty => [0, 0, 0],
        Point(p) => [1, ix(p), ix(p)],
        Open(l, r) => [2, ix(l), ix(r)],
        LeftOpen(l, r) => [3, ix(l), ix(r)],
        RightOpen(l, r) => [4, ix(l), ix(r)],
        Closed(l, r) => [5, ix(l), ix(r)],
        UpTo(r) => [6, 0, ix(r)],
        UpFrom(l) => [7, ix(l), 0],
        To(r) => [8, 0, ix(r)],
        From(l) => [9, ix(l), 0],
        Full => [10, 0, 0],
    }
}
pub fn raw3_of<T: Val>(e: &DenseEmb<T>, w: &RawInterval<T>) -> Raw3 { raw3_by(w, |x| e.index(x).unwrap_or(-1)) }
pub fn bd_of<T: Val>(e: &DenseEmb<T>, b: &Option<Bound<T>>) -> Bd {
    match b {
        None => [-1, 0],
        Some(Bound::Infinite) => [0, 0],
        Some(Bound::Include(x)) => [1, e.index(x).unwrap_or(-1)],
        Some(Bound::Exclude(x)) => [2, e.index(x).unwrap_or(-1)],
    }
}
pub fn bound_of<T: Val>(e: &DenseEmb<T>, b: Bd) -> Bound<T> {
    match b[0] { 0 => Bound::Infinite, 1 => Bound::Include(e.at(b[1])), _ => Bound::Exclude(e.at(b[1])) }
}
impl<T: Val> Tree<'_, T> {
    pub fn raw(&self, r: Range) -> RawInterval<T> { raw_of(self.0, self.1.raw_of[&r]) }
    pub fn range(&self, w: &RawInterval<T>) -> Result<Range, String> {
        self.1.range_of.get(&raw3_of(self.0, w)).copied().filter(|r| *r != NO_RANGE)
            .ok_or_else(|| format!("{w:?} is no non-empty well-formed interval over the values"))
    }
}
impl<T: Val> Subject for Tree<'_, T> {
    type V = TineTree<T>;
    fn k(&self) -> usize { 2 * self.0.n() + 1 }
    fn empty(&self) -> Self::V { TineTree::new() }
    fn full(&self) -> Self::V { TineTree::from_raw_interval(RawInterval::Full) }
    fn from_arg(&self, r: Range, style: usize) -> Self::V {
        match style % 3 { 0 => TineTree::from_raw_interval(self.raw(r)), 1 => TineTree::from(self.raw(r)), _ => std::iter::once(self.raw(r)).collect() }
    }
    fn edit(&self, op: usize, v: &mut Self::V, r: Range, _: usize) {
        let i = self.raw(r);
        match op { 0 => v.union_in_place(&i), 1 => v.intersect_in_place(&i), _ => v.minus_in_place(&i) }
    }
    fn binary(&self, op: usize, a: &Self::V, b: &Self::V) -> Self::V {
        match op { 0 => a.union(b), 1 => a.intersect(b), _ => a.minus(b) }
    }
    fn complement(&self, a: &Self::V) -> Self::V { a.complement() }
    fn meets(&self, _: &Self::V, _: &Self::V) -> Option<bool> { None }
    fn collect(&self, rs: &[Range], style: usize) -> Self::V {
        let it = rs.iter().map(|r| self.raw(*r));
        if style % 2 == 0 { it.collect() } else { TineTree::from(it) }
    }
    fn extend(&self, v: &mut Self::V, rs: &[Range], _: usize) {
        for r in rs { v.union_in_place(&self.raw(*r)); }
    }
    fn runs(&self, v: &Self::V) -> Result<Vec<Range>, String> {
        limited(v.interval_iter(), self.k()).iter().map(|i| self.range(i)).collect()
    }
    fn into_runs(&self, v: Self::V) -> Result<Vec<Range>, String> {
        limited(v.into_iter(), self.k()).iter().map(|i| self.range(i)).collect()
    }
    fn members(&self, v: &Self::V) -> Vec<(usize, bool)> {
        self.0.probes().into_iter().map(|(c, x)| (c, v.contains(&x))).collect()
    }
    fn alternative(&self, rs: &[Range], which: usize) -> Option<Self::V> {
        match which {
            1 => Some(rs.iter().rev().fold(TineTree::default(), |mut t, r| { t.union_in_place(&self.raw(*r)); t })),
            2 => Some(rs.iter().map(|r| TineTree::from(self.raw(*r))).fold(TineTree::new(), |t, r| r.union(&t))),
            3 => {
                let mut all: Vec<Range> = rs.to_vec();
                for r in rs { for p in r.0..=r.1 { all.push((p, r.1)); all.push((r.0, p)); } }
                let n = all.len();
                (n % 5 != 0).then(|| (0..n).map(|i| self.raw(all[(i * 5 + 2) % n])).collect())
            }
            _ => None,
        }
    }
}

// ---------------------------------------------------------------------------
// Building the value of a state by different histories.

pub const ROUTES: usize = 12;
/// Builds the set `m` along route `route`. Every route is a sequence of public
/// operations; the intermediate states come from the table.
pub fn build<S: Subject>(s: &S, t: &Regions, m: u32, route: usize, rng: &mut Rng) -> S::V {
    let runs = &t.runs[m as usize];
    let plain = |m: u32| {
        let mut v = s.empty();
        for (i, r) in t.runs[m as usize].iter().enumerate() { s.edit(0, &mut v, *r, i); }
        v
    };
    let style = rng.below(64);
    match route {
        0 => plain(m),
        1 => { let mut rs = runs.clone(); rs.reverse(); s.collect(&rs, style) }
        2 => { let mut v = s.full(); for r in &t.runs[t.compl[m as usize] as usize] { s.edit(2, &mut v, *r, style); } v }
        3 => s.complement(&plain(t.compl[m as usize])),
        // a random walk, repaired position by position
        4 => {
            let mut cur = (rng.next() as u32) & t.full();
            let mut v = plain(cur);
            for _ in 0..2 + rng.below(5) {
                let (o, a) = (rng.below(3), rng.below(t.args.len()));
                s.edit(o, &mut v, t.args[a], rng.below(64));
                cur = t.edit[o][cur as usize][a];
            }
            let mut ps: Vec<usize> = (1..=s.k()).collect();
            for i in (1..ps.len()).rev() { let j = rng.below(i + 1); ps.swap(i, j); }
            for p in ps {
                let bit = 1u32 << (p - 1);
                if (cur ^ m) & bit != 0 { s.edit(if m & bit != 0 { 0 } else { 2 }, &mut v, (p as u8, p as u8), rng.below(64)); }
            }
            v
        }
        5 => { let r = rng.next() as u32; s.binary(0, &plain(m & r), &plain(m & !r)) }
        6 => { let r = rng.next() as u32 & t.full(); s.binary(1, &plain(m | r), &plain(m | (t.full() & !r))) }
        7 => { let r = rng.next() as u32 & t.full() & !m; s.binary(2, &plain(m | r), &plain(r)) }
        // cut out of a larger set by intersecting with the hull
        8 => {
            let h = t.hull[m as usize];
            let inside = t.reset[t.arg_of(h)];
            let r = rng.next() as u32 & t.full() & !inside;
            let mut v = plain(m | r);
            s.edit(1, &mut v, h, style);
            v
        }
        // single positions in random order, some twice
        9 => {
            let mut ps: Vec<u8> = (1..=s.k() as u8).filter(|p| m >> (p - 1) & 1 == 1).collect();
            for i in (1..ps.len()).rev() { let j = rng.below(i + 1); ps.swap(i, j); }
            let mut v = s.empty();
            for p in &ps { s.edit(0, &mut v, (*p, *p), rng.below(64)); }
            for p in ps.iter().take(2) { s.edit(0, &mut v, (*p, *p), rng.below(64)); }
            v
        }
        10 => s.alternative(runs, rng.below(4)).unwrap_or_else(|| s.collect(runs, style)),
        _ => {
            let mut v = runs.first().map_or_else(|| s.empty(), |r| s.from_arg(*r, style));
            if runs.len() > 1 { s.extend(&mut v, &runs[1..], style); }
            s.complement(&s.complement(&v))
        }
    }
}
pub fn build_guarded<S: Subject>(s: &S, t: &Regions, m: u32, route: usize, rng: &mut Rng, c: &mut Ctx) -> Option<S::V> {
    let r0 = rng.clone();
    match c.guard(|| build(s, t, m, route, rng)) {
        Ok(v) => Some(v),
        Err(e) => {
            c.fail(format!("building the set {} along route {route} (rng {:?})", show(t, m), r0.0), show(t, m), e);
            None
        }
    }
}
pub fn show(t: &Regions, m: u32) -> String { format!("{:?}", t.runs[m as usize]) }
pub fn pick_routes(thorough: bool) -> usize { if thorough { ROUTES } else { 6 } }

/// Checks the decomposition of a value against the table.
pub fn check_runs<S: Subject>(s: &S, t: &Regions, v: S::V, m: u32, c: &mut Ctx, what: impl Fn() -> String) -> bool {
    let want = Ok(t.runs[m as usize].clone());
    let a = c.guard(|| s.runs(&v)).and_then(|x| x);
    if a != want { c.cases += 1; c.fail(what(), format!("intervals {want:?}"), format!("intervals {a:?}")); return false; }
    let b = c.guard(|| s.into_runs(v)).and_then(|x| x);
    c.expect(&b, &want, || format!("{} (traversed by value)", what()))
}
pub fn check_members<S: Subject>(s: &S, v: &S::V, m: u32, c: &mut Ctx, what: impl Fn() -> String) -> bool {
    match c.guard(|| s.members(v)) {
        Err(e) => { c.fail(what(), "membership answers".into(), e); false }
        Ok(ms) => {
            for (p, got) in ms {
                let want = m >> (p - 1) & 1 == 1;
                if !c.expect(&got, &want, || format!("{}: contains a value at position {p}", what())) { return false; }
            }
            true
        }
    }
}

// ---------------------------------------------------------------------------
/// Binary operations and complement on pairs of states (C01, C15).
pub fn replay_pairs<S: Subject>(s: &S, t: &Regions, share: usize, c: &mut Ctx) {
    let mut rng = Rng::new(c.seed, &c.job);
    let n = t.states();
    let nr = ROUTES;
    // one value per state and route
    let mut vals: Vec<Vec<S::V>> = vec![];
    for m in 0..n {
        let mut row = vec![];
        for r in 0..nr {
            c.at(0, u64::from(m), r as u64, 0);
            let Some(v) = build_guarded(s, t, m, r, &mut rng, c) else { return };
            row.push(v);
        }
        vals.push(row);
    }
    for a in 0..n {
        for r in 0..nr {
            let v = &vals[a as usize][r];
            let before = v.clone();
            let what = || format!("complement of {} (route {r})", show(t, a));
            match c.guard(|| s.complement(v)) {
                Err(e) => c.fail(what(), show(t, t.compl[a as usize]), e),
                Ok(x) => {
                    check_members(s, &x, t.compl[a as usize], c, what);
                    check_runs(s, t, x, t.compl[a as usize], c, what);
                }
            }
            c.expect(&(*v == before), &true, || format!("operand of complement of {} unchanged", show(t, a)));
            check_members(s, v, a, c, || format!("{} (route {r})", show(t, a)));
            if c.done() { return; }
        }
        c.rows += 1;
    }
    for a in 0..n {
        for b in 0..n {
            if share > 1 && rng.below(share) != 0 { continue; }
            let (ra, rb) = (rng.below(nr), rng.below(nr));
            let (va, vb) = (&vals[a as usize][ra], &vals[b as usize][rb]);
            c.at(1, u64::from(a), u64::from(b), (ra * 100 + rb) as u64);
            for op in 0..3 {
                let want = t.pair[op][a as usize][b as usize];
                let what = || format!("{} {} {} (routes {ra}, {rb})", show(t, a), OPS[op], show(t, b));
                match c.guard(|| s.binary(op, va, vb)) {
                    Err(e) => c.fail(what(), show(t, want), e),
                    Ok(x) => { check_runs(s, t, x, want, c, what); }
                }
                c.rows += 1;
            }
            let want = t.meets[a as usize][b as usize];
            let got = c.guard(|| s.meets(va, vb));
            match got {
                Err(e) => c.fail(format!("{} intersects {}", show(t, a), show(t, b)), want.to_string(), e),
                Ok(Some(g)) => { c.expect(&g, &want, || format!("{} intersects {} (routes {ra}, {rb})", show(t, a), show(t, b))); }
                Ok(None) => {}
            }
            if c.done() { return; }
        }
        // operands as they were
        for r in 0..nr {
            let v = vals[a as usize][r].clone();
            if !check_runs(s, t, v, a, c, || format!("operand {} (route {r}) after being used", show(t, a))) { return; }
        }
    }
    c.sample(serde_json::json!({"job": c.job, "pairs_of_states": n as u64 * n as u64 / share.max(1) as u64,
        "example": format!("{} minus {} = {}", show(t, n / 3), show(t, n / 2), show(t, t.pair[2][(n / 3) as usize][(n / 2) as usize]))}));
}

/// Every edit in every state, each state reached by several histories (C02, C16).
pub fn replay_edits<S: Subject>(s: &S, t: &Regions, routes: usize, c: &mut Ctx) {
    let mut rng = Rng::new(c.seed, &c.job);
    for m in 0..t.states() {
        for k in 0..routes {
            // always two fixed ones, the rest by chance
            let route = if k < 2 || routes >= ROUTES { k } else { 2 + rng.below(ROUTES - 2) };
            c.at(2, u64::from(m), route as u64, 0);
            let Some(base) = build_guarded(s, t, m, route, &mut rng, c) else { return };
            if !check_runs(s, t, base.clone(), m, c, || format!("{} built along route {route}", show(t, m))) { return; }
            for op in 0..3 {
                for (a, r) in t.args.iter().enumerate() {
                    let style = rng.below(64);
                    let want = t.edit[op][m as usize][a];
                    let what = || format!("{} (route {route}) edited with {}_in_place {r:?} (style {style})", show(t, m), OPS[op]);
                    c.at(3, u64::from(m), op as u64, a as u64);
                    match c.guard(|| { let mut v = base.clone(); s.edit(op, &mut v, *r, style); v }) {
                        Err(e) => c.fail(what(), show(t, want), e),
                        Ok(v) => { check_runs(s, t, v, want, c, what); }
                    }
                    if k == 0 { c.rows += 1; }
                    if c.done() { return; }
                }
            }
        }
    }
    for (a, r) in t.args.iter().enumerate() {
        for style in 0..IV_STYLES {
            let what = || format!("built from interval {r:?} (style {style})");
            match c.guard(|| s.from_arg(*r, style)) {
                Err(e) => c.fail(what(), show(t, t.reset[a]), e),
                Ok(v) => { check_runs(s, t, v, t.reset[a], c, what); }
            }
        }
        c.rows += 1;
    }
    c.sample(serde_json::json!({"job": c.job, "edits_per_state": 3 * t.args.len(), "states": t.states(), "histories_per_state": routes}));
}

/// All histories of up to `depth` edits from the empty set (C02, C16).
pub fn replay_all_histories<S: Subject>(s: &S, t: &Regions, depth: usize, c: &mut Ctx) {
    let mut path: Vec<(usize, usize)> = vec![];
    fn go<S: Subject>(s: &S, t: &Regions, v: &S::V, m: u32, left: usize, path: &mut Vec<(usize, usize)>, c: &mut Ctx) {
        for op in 0..3 {
            for (a, r) in t.args.iter().enumerate() {
                let want = t.edit[op][m as usize][a];
                path.push((op, a));
                c.at(4, path.len() as u64, op as u64, a as u64);
                let style = path.iter().map(|p| p.1 + 3 * p.0).sum::<usize>();
                let what = |path: &Vec<(usize, usize)>| format!("from the empty set: {}",
                    path.iter().map(|(o, a)| format!("{} {:?}", OPS[*o], t.args[*a])).collect::<Vec<_>>().join("; "));
                match c.guard(|| { let mut x = v.clone(); s.edit(op, &mut x, *r, style); x }) {
                    Err(e) => c.fail(what(path), show(t, want), e),
                    Ok(x) => {
                        if left == 1 { c.traces += 1; check_runs(s, t, x, want, c, || what(path)); }
                        else if check_runs(s, t, x.clone(), want, c, || what(path)) { go(s, t, &x, want, left - 1, path, c); }
                    }
                }
                path.pop();
                if c.done() { return; }
            }
        }
    }
    go(s, t, &s.empty(), 0, depth, &mut path, c);
    c.sample(serde_json::json!({"job": c.job, "all_histories_of_length": depth, "edits": 3 * t.args.len()}));
}

/// Long random histories over a pool of values, every step looked up (C02, C16, C22).
pub fn replay_walks<S: Subject>(s: &S, t: &Regions, walks: usize, len: usize, c: &mut Ctx) {
    let mut rng = Rng::new(c.seed, &format!("{}walks", c.job));
    for w in 0..walks {
        let mut slots: Vec<(S::V, u32)> = (0..3).map(|_| (s.empty(), 0)).collect();
        let mut log: Vec<String> = vec![];
        for _ in 0..len {
            let (i, j, k) = (rng.below(3), rng.below(3), rng.below(3));
            let a = rng.below(t.args.len());
            let style = rng.below(64);
            let kind = rng.below(12);
            let op = rng.below(3);
            c.at(5, w as u64, log.len() as u64, kind as u64);
            let (m, mj) = (slots[i].1, slots[j].1);
            let (target, want): (usize, u32);
            let r: Result<S::V, String>;
            match kind {
                0..=5 => {
                    // lean towards sets with several intervals
                    let op = if rng.chance(1, 3) { op } else { [0, 2][rng.below(2)] };
                    target = i; want = t.edit[op][m as usize][a];
                    log.push(format!("s{i}.{}_in_place({:?})", OPS[op], t.args[a]));
                    let v = &slots[i].0;
                    r = c.guard(|| { let mut x = v.clone(); s.edit(op, &mut x, t.args[a], style); x });
                }
                6 => {
                    target = k; want = t.compl[m as usize];
                    log.push(format!("s{k} = s{i}.complement()"));
                    let v = &slots[i].0;
                    r = c.guard(|| s.complement(v));
                }
                7..=9 if !t.pair[op][0].is_empty() => {
                    target = k; want = t.pair[op][m as usize][mj as usize];
                    log.push(format!("s{k} = s{i}.{}(s{j})", OPS[op]));
                    let (v, x) = (&slots[i].0, &slots[j].0);
                    r = c.guard(|| s.binary(op, v, x));
                }
                10 => {
                    target = k; want = mj;
                    log.push(format!("s{k} = collect(intervals of s{j})"));
                    let rs = t.runs[mj as usize].clone();
                    r = c.guard(|| s.collect(&rs, style));
                }
                _ => {
                    let mut want_ = m;
                    let rs: Vec<Range> = (0..1 + rng.below(3)).map(|_| {
                        let a = rng.below(t.args.len());
                        want_ = t.edit[0][want_ as usize][a];
                        t.args[a]
                    }).collect();
                    target = i; want = want_;
                    log.push(format!("s{i}.extend({rs:?})"));
                    let v = &slots[i].0;
                    r = c.guard(|| { let mut x = v.clone(); s.extend(&mut x, &rs, style); x });
                }
            }
            let what = || format!("history: {}", log.join("; "));
            match r {
                Err(e) => { c.fail(what(), show(t, want), e); return; }
                Ok(v) => {
                    if !check_runs(s, t, v.clone(), want, c, what) { return; }
                    slots[target] = (v, want);
                }
            }
            // everything else as before
            let (o, om) = &slots[(target + 1) % 3];
            let (o, om) = (o.clone(), *om);
            if !check_runs(s, t, o, om, c, || format!("s{} after {}", (target + 1) % 3, what())) { return; }
        }
        c.traces += 1;
    }
    c.sample(serde_json::json!({"job": c.job, "walks": walks, "steps_each": len}));
}

/// Equality, hash and decomposition of values reached by different histories
/// (C03, C17).
pub fn replay_equality<S: Subject>(s: &S, t: &Regions, share: usize, c: &mut Ctx) {
    let mut rng = Rng::new(c.seed, &c.job);
    let n = t.states();
    let mut vals: Vec<Vec<S::V>> = vec![];
    let extra = if c.thorough { 24 } else { 6 };
    for m in 0..n {
        let mut row: Vec<S::V> = vec![];
        for r in 0..ROUTES + extra {
            let route = if r < ROUTES { r } else { [4, 9, 10][r % 3] };
            c.at(6, u64::from(m), route as u64, 0);
            let Some(v) = build_guarded(s, t, m, route, &mut rng, c) else { return };
            check_runs(s, t, v.clone(), m, c, || format!("{} along route {route}", show(t, m)));
            if let Some(first) = row.first() {
                let what = || format!("{} built along routes 0 and {route}", show(t, m));
                let eq = c.guard(|| (*first == v, v == *first, hash_of(first) == hash_of(&v)));
                c.expect(&eq, &Ok::<_, String>((true, true, true)), || format!("(==, reversed ==, equal hashes) of {}", what()));
            }
            row.push(v);
            if c.done() { return; }
        }
        c.rows += 1;
        vals.push(row);
    }
    for a in 0..n {
        for b in 0..n {
            if share > 1 && rng.below(share) != 0 { continue; }
            let (ra, rb) = (rng.below(ROUTES), rng.below(ROUTES));
            let (x, y) = (&vals[a as usize][ra], &vals[b as usize][rb]);
            let got = c.guard(|| (x == y, x != y));
            c.expect(&got, &Ok::<_, String>((a == b, a != b)), || format!("(==, !=) of {} (route {ra}) and {} (route {rb})", show(t, a), show(t, b)));
            if c.done() { return; }
        }
    }
    c.sample(serde_json::json!({"job": c.job, "states": n, "histories_per_state": ROUTES + extra}));
}

// ---------------------------------------------------------------------------
/// Queries of a selection (C04, parts of C03).
pub fn replay_sel_queries<T: Elem>(e: &FinEmb<T>, t: &Regions, q: &SelTab, routes: usize, c: &mut Ctx) {
    let s = Sel(e);
    let mut rng = Rng::new(c.seed, &c.job);
    for m in 0..t.states() {
        let o = &q.obs[m as usize];
        for k in 0..routes {
            let route = if routes >= ROUTES { k } else { rng.below(ROUTES) };
            c.at(7, u64::from(m), route as u64, 0);
            let Some(v) = build_guarded(&s, t, m, route, &mut rng, c) else { return };
            let what = |f: &str| format!("{f} of {} (route {route})", show(t, m));
            let lo = |p: usize| (p > 0).then(|| e.lo(p).clone());
            let hi = |p: usize| (p > 0).then(|| e.hi(p).clone());
            let span = if o.hull == NO_RANGE { None } else { Some((lo(o.hull.0 as usize), hi(o.hull.1 as usize))) };
            let ends = |i: Interval<T>| if i.is_empty() { Ok(None) } else {
                match (i.lower_bound(), i.upper_bound()) {
                    (Some(Bound::Include(a)), Some(Bound::Include(b))) => Ok(Some((Some(a), Some(b)))),
                    x => Err(format!("{x:?}")),
                }
            };
            macro_rules! q { ($f:literal, $e:expr, $w:expr) => { { let g = c.guard(|| $e); c.expect(&g, &Ok::<_, String>($w), || what($f)); } } }
            q!("lower_bound", v.lower_bound(), lo(o.lower).map(Bound::Include));
            q!("upper_bound", v.upper_bound(), hi(o.upper).map(Bound::Include));
            q!("infimum", v.infimum(), hi(o.inf));
            q!("supremum", v.supremum(), lo(o.sup));
            q!("is_empty", v.is_empty(), o.empty);
            q!("is_full", v.is_full(), o.full);
            q!("is_bounded", v.is_bounded(), o.bounded);
            q!("is_left_bounded", v.is_left_bounded(), o.left_b);
            q!("is_right_bounded", v.is_right_bounded(), o.right_b);
            q!("is_half_bounded", v.is_half_bounded(), o.half_b);
            q!("enclose", ends(v.enclose()), Ok(span.clone()));
            q!("closure", ends(v.closure()), Ok(span.clone()));
            check_members(&s, &v, m, c, || format!("{} (route {route})", show(t, m)));
            if c.done() { return; }
        }
        c.rows += 1;
    }
    c.sample(serde_json::json!({"job": c.job, "states": t.states(), "histories_per_state": routes}));
}
/// Queries of a tree (C17).
pub fn replay_tree_queries<T: Val>(e: &DenseEmb<T>, t: &Regions, q: &TreeTab, routes: usize, c: &mut Ctx) {
    let s = Tree(e, q);
    let mut rng = Rng::new(c.seed, &c.job);
    for m in 0..t.states() {
        let o = &q.obs[m as usize];
        for k in 0..routes {
            let route = if routes >= ROUTES { k } else { rng.below(ROUTES) };
            c.at(8, u64::from(m), route as u64, 0);
            let Some(v) = build_guarded(&s, t, m, route, &mut rng, c) else { return };
            let what = |f: &str| format!("{f} of {} (route {route})", show(t, m));
            macro_rules! q { ($f:literal, $e:expr, $w:expr) => { { let g = c.guard(|| $e); c.expect(&g, &Ok::<_, String>($w), || what($f)); } } }
            q!("lower_bound", bd_of(e, &v.lower_bound()), o.lower);
            q!("upper_bound", bd_of(e, &v.upper_bound()), o.upper);
            q!("enclose", raw3_of(e, &v.enclose()), o.enclose);
            q!("closure", raw3_of(e, &v.closure()), o.closure);
            q!("is_empty", v.is_empty(), o.empty);
            q!("is_full", v.is_full(), o.full);
            q!("contains", (1..=e.n()).map(|i| v.contains(&e.at(i as i64))).collect::<Vec<_>>(), o.has.clone());
            check_members(&s, &v, m, c, || format!("{} (route {route})", show(t, m)));
            if c.done() { return; }
        }
        c.rows += 1;
    }
    c.sample(serde_json::json!({"job": c.job, "states": t.states(), "histories_per_state": routes}));
}
