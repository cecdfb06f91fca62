//! C21: saving and loading, at every point of every history.
#[cfg(not(feature = "serde"))]
fn main() { panic!("built without the serde feature") }
#[cfg(feature = "serde")]
fn main() { on::main() }

#[cfg(feature = "serde")]
mod on {
use harness::{ctx::*, interval::*, rng::*, saved::*, subject::*, tables::*, types::*};
use normalize_interval::raw_interval::RawInterval;
use normalize_interval::{Bound, Interval};
use std::sync::Arc;

/// Every state, along several routes: round trip, and the same history with a
/// reload after every step.
fn states<S: Subject>(s: &S, t: &Regions, routes: usize, c: &mut Ctx) where S::V: Saveable {
    let mut rng = Rng::new(c.seed, &c.job);
    for m in 0..t.states() {
        for k in 0..routes {
            let route = if routes >= ROUTES { k } else { rng.below(ROUTES) };
            c.at(40, u64::from(m), route as u64, 0);
            let Some(v) = build_guarded(s, t, m, route, &mut rng, c) else { return };
            if !round_trip(&v, c, &|| format!("{} (route {route})", show(t, m))) { return; }
            for f in 0..FORMATS {
                match c.guard(|| reload(&v, f)).and_then(|x| x) {
                    Err(e) => { c.fail(format!("loading {}", show(t, m)), "loads".into(), e); return; }
                    Ok(x) => {
                        if !check_runs(s, t, x.clone(), m, c, || format!("{} saved and loaded", show(t, m))) { return; }
                        check_members(s, &x, m, c, || format!("{} saved and loaded", show(t, m)));
                        // and behaves the same afterwards
                        let (op, a) = (rng.below(3), rng.below(t.args.len()));
                        let want = t.edit[op][m as usize][a];
                        let what = || format!("{} saved, loaded, edited with {} {:?}", show(t, m), OPS[op], t.args[a]);
                        match c.guard(|| { let mut y = x.clone(); s.edit(op, &mut y, t.args[a], 0); y }) {
                            Err(e) => c.fail(what(), show(t, want), e),
                            Ok(y) => { check_runs(s, t, y, want, c, what); }
                        }
                    }
                }
                if c.done() { return; }
            }
        }
        c.rows += 1;
    }
    c.sample(serde_json::json!({"job": c.job, "states": t.states(), "histories_per_state": routes, "formats": FORMATS}));
}
fn histories<S: Subject>(s: S, t: &Regions, c: &mut Ctx) where S::V: Saveable {
    let th = c.thorough;
    states(&s, t, if th { 30 } else { 3 }, c);
    if c.done() { return; }
    let s = Saved::new(s);
    replay_walks(&s, t, if th { 300 } else { 12 }, 40, c);
    if c.done() { return; }
    if t.k <= 5 {
        replay_edits(&s, t, if th { 6 } else { 1 }, c);
        if c.done() { return; }
        if !t.pair[0][0].is_empty() { replay_pairs(&s, t, 1, c); }
    }
}
#[derive(Clone)]
struct Sels { t: Arc<Regions> }
impl FinCheck for Sels {
    fn run<T: Elem>(&self, e: &FinEmb<T>, c: &mut Ctx) { histories(Sel(e), &self.t, c) }
}
#[derive(Clone)]
struct Trees { t: Arc<Regions>, q: Arc<TreeTab> }
impl DenseCheck for Trees {
    fn run<T: Val>(&self, e: &DenseEmb<T>, c: &mut Ctx) { histories(Tree(e, &self.q), &self.t, c) }
}
/// Intervals, and raw intervals loaded as intervals.
#[derive(Clone)]
struct Ivs(Arc<ChainTab>);
impl FinCheck for Ivs {
    fn run<T: Elem>(&self, e: &FinEmb<T>, c: &mut Ctx) {
        for r in &self.0.ivs {
            for style in 0..IV_STYLES {
                let Ok(i) = c.guard(|| iv(e, r.w, style)) else { c.fail(format!("{:?}", r.w), "built".into(), "panic".into()); return };
                if !round_trip(&i, c, &|| format!("{i:?}")) { return; }
                for f in 0..FORMATS {
                    let g = c.guard(|| reload(&i, f)).and_then(|x| x).and_then(|x| seen(&x));
                    c.expect(&g, &want_seen(e, r.w), || format!("{i:?} saved and loaded (format {f})"));
                }
                if c.done() { return; }
            }
            c.rows += 1;
        }
        for r in &self.0.raws {
            let raw = chain_raw(e, r.w);
            if !round_trip(&raw, c, &|| format!("{raw:?}")) { return; }
            let want = want_seen(e, r.normal);
            let json = c.guard(|| serde_json::to_string(&raw).map_err(|e| e.to_string())
                .and_then(|s| serde_json::from_str::<Interval<T>>(&s).map_err(|e| e.to_string())));
            let g = json.and_then(|x| x).and_then(|x| seen(&x));
            c.expect(&g, &want, || format!("saved {raw:?} loaded as an interval (json)"));
            let bin = c.guard(|| bincode::serialize(&raw).map_err(|e| e.to_string())
                .and_then(|s| bincode::deserialize::<Interval<T>>(&s).map_err(|e| e.to_string())));
            let g = bin.and_then(|x| x).and_then(|x| seen(&x));
            c.expect(&g, &want, || format!("saved {raw:?} loaded as an interval (bincode)"));
            c.rows += 1;
            if c.done() { return; }
        }
        c.sample(serde_json::json!({"job": c.job, "intervals": self.0.ivs.len(), "raw_intervals": self.0.raws.len()}));
    }
}
/// Bounds, raw intervals and markers over any ordered type.
#[derive(Clone)]
struct Parts { raw: Arc<RawTab>, tines: Arc<TineTab>, q: Arc<TreeTab> }
impl DenseCheck for Parts {
    fn run<T: Val>(&self, e: &DenseEmb<T>, c: &mut Ctx) {
        for r in &self.raw.combinators {
            let b: Bound<T> = bound_of(e, bd(&r[0]));
            if !round_trip(&b, c, &|| format!("{b:?}")) { return; }
            c.rows += 1;
        }
        for w in self.q.raw_of.values() {
            let w: RawInterval<T> = raw_of(e, *w);
            if !round_trip(&w, c, &|| format!("{w:?}")) { return; }
            for f in 0..FORMATS {
                let g = c.guard(|| reload(&w, f)).and_then(|x| x).map(|x| raw3_of(e, &x));
                c.expect(&g, &Ok(raw3_of(e, &w)), || format!("{w:?} saved and loaded (format {f})"));
            }
            c.rows += 1;
        }
        for r in self.tines.0.of(22) {
            let x = tine(e, int(&r[0]), int(&r[1]));
            if !round_trip(&Mark(x.clone()), c, &|| format!("{x:?}")) { return; }
            c.rows += 1;
        }
        c.sample(serde_json::json!({"job": c.job, "raw_intervals": self.q.raw_of.len()}));
    }
}
/// Markers compare by their point alone (that is what the tree needs); here
/// the whole marker counts.
#[derive(Debug, Clone, serde::Serialize, serde::Deserialize)]
#[serde(transparent)]
struct Mark<T>(normalize_interval::tine::Tine<T>);
impl<T: Val> Mark<T> {
    fn key(&self) -> (u8, Bound<T>) {
        use normalize_interval::tine::Tine::*;
        match &self.0 { Lower(b) => (0, b.clone()), Point(b) => (1, b.clone()), Upper(b) => (2, b.clone()) }
    }
}
impl<T: Val> PartialEq for Mark<T> { fn eq(&self, o: &Self) -> bool { self.key() == o.key() && self.0 == o.0 } }
impl<T: Val> std::hash::Hash for Mark<T> { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.key().hash(h) } }

pub fn main() {
    let a = Args::parse();
    let mut jobs = vec![];
    let scope = if a.thorough { Scope::All } else { Scope::Core };
    for k in [1, 2, 3, 4, 5, 9] {
        add_fin(&mut jobs, &Sels { t: Regions::load(&a.tables, k) }, "selections", k, scope, a.seed);
    }
    for k in 1..=if a.thorough { 6 } else { 5 } {
        add_fin(&mut jobs, &Ivs(ChainTab::load(&a.tables, k)), "intervals", k, Scope::All, a.seed);
    }
    for n in [1, 2, 3, 4] {
        let (t, q) = (Regions::load(&a.tables, 2 * n + 1), TreeTab::load(&a.tables, n));
        add_dense(&mut jobs, &Trees { t, q: q.clone() }, "trees", n, true);
        add_dense(&mut jobs, &Parts { raw: RawTab::load(&a.tables, n), tines: TineTab::load(&a.tables, n), q }, "parts", n, true);
    }
    run(&a, jobs)
}
}
