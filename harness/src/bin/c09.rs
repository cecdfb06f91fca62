//! C09: queries of every interval of a chain.
use harness::{ctx::*, interval::*, types::*};
use std::sync::Arc;
#[derive(Clone)]
struct Check(Arc<ChainTab>);
impl FinCheck for Check {
    fn run<T: Elem>(&self, e: &FinEmb<T>, c: &mut Ctx) { queries(e, &self.0, c) }
}
fn main() {
    let a = Args::parse();
    let mut jobs = vec![];
    for k in 1..=if a.thorough { 7 } else { 6 } {
        let t = ChainTab::load(&a.tables, k);
        add_fin(&mut jobs, &Check(t.clone()), "queries", k, Scope::Core, a.seed);
        // runs of consecutive values in the middle and at the ends of types
        // whose values subtract
        macro_rules! sub { ($t:ident $base:expr) => { {
            let chain: Vec<$t> = (0..k as i64).map(|i| ($base as i64 + i) as $t).collect();
            let e = FinEmb::of_chain(concat!("consecutive ", stringify!($t)), &chain, &(0..k).collect::<Vec<_>>());
            let t = t.clone();
            jobs.push(Job { name: format!("size K={k} on {} from {}", e.name, $base), run: Box::new(move |c| inner_sizes(&e, &t, c, |d| d as $t)) });
        } } }
        // intervals up to the ends of the type: every user chain, and blocks
        // of values covering each integer type
        macro_rules! own { ($($n:literal)*) => { $( if k == $n {
            let t = t.clone();
            let e = FinEmb::of_chain("P", &P::<$n>::chain(), &(0..k).collect::<Vec<_>>());
            jobs.push(Job { name: format!("size K={k} on all of P"), run: Box::new(move |c| sizes(&e, &t, |_, _, d| Some(P(d as u8)), c)) });
        } )* } }
        own!(1 2 3 4 5 6 7);
        macro_rules! wide { ($($t:ident)*) => { if k > 1 { for l in LAYOUTS { $( {
            let (t, e) = (t.clone(), layout::<$t>(l, k, a.seed));
            // not where the difference has no value of the type
            jobs.push(Job { name: format!("size K={k} on {}", e.name), run: Box::new(move |c| sizes(&e, &t, |l, h, _| h.checked_sub(*l), c)) });
        } )* } } } }
        wide!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
        sub!(u8 0); sub!(u8 (256 - k as i64)); sub!(i8 -2); sub!(i8 -128); sub!(i32 -3); sub!(u64 0); sub!(i64 40);
    }
    run(&a, jobs)
}
/// `size` on runs that do not cover the type: only closed intervals are the
/// ranges of the table there.
fn inner_sizes<T: Elem + Copy + std::ops::Sub<Output = T>>(e: &FinEmb<T>, t: &ChainTab, c: &mut Ctx, diff: impl Fn(usize) -> T) {
    use normalize_interval::Interval;
    for r in &t.ivs {
        let want = (r.lo > 0).then(|| diff(r.hi - r.lo));
        let g = c.guard(|| if r.lo == 0 { Interval::<T>::empty().size() } else { Interval::closed(*e.lo(r.lo), *e.hi(r.hi)).size() });
        c.expect(&g, &Ok::<_, String>(want), || format!("size of the interval of values {} to {} of {}", r.lo, r.hi, e.name));
        c.rows += 1;
        if c.done() { return; }
    }
}
