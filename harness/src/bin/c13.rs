//! C13: operations on every pair of raw intervals.
use harness::{ctx::*, interval::*, types::*};
use std::sync::Arc;
#[derive(Clone)]
struct Check(Arc<RawTab>);
impl DenseCheck for Check {
    fn run<T: Val>(&self, e: &DenseEmb<T>, c: &mut Ctx) { raw_pairs(e, &self.0, c) }
}
fn main() {
    let a = Args::parse();
    let mut jobs = vec![];
    for n in 1..=if a.thorough { 5 } else { 4 } {
        add_dense(&mut jobs, &Check(RawTab::load(&a.tables, n)), "pairs", n, true);
    }
    run(&a, jobs)
}
