//! C12: raw interval constructors and queries.
use harness::{ctx::*, interval::*, types::*};
use std::sync::Arc;
#[derive(Clone)]
struct Check(Arc<RawTab>);
impl DenseCheck for Check {
    fn run<T: Val>(&self, e: &DenseEmb<T>, c: &mut Ctx) { raw_one(e, &self.0, c) }
}
fn main() {
    let a = Args::parse();
    let mut jobs = vec![];
    for n in 1..=if a.thorough { 5 } else { 4 } {
        add_dense(&mut jobs, &Check(RawTab::load(&a.tables, n)), "raw", n, true);
    }
    run(&a, jobs)
}
