//! C18: boundary markers.
use harness::{ctx::*, interval::*, types::*};
use std::sync::Arc;
#[derive(Clone)]
struct Check(Arc<TineTab>);
impl DenseCheck for Check {
    fn run<T: Val>(&self, e: &DenseEmb<T>, c: &mut Ctx) { tines(e, &self.0, c) }
}
fn main() {
    let a = Args::parse();
    let mut jobs = vec![];
    for n in 1..=4 { add_dense(&mut jobs, &Check(TineTab::load(&a.tables, n)), "markers", n, true); }
    run(&a, jobs)
}
