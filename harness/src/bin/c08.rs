//! The EmitChain tables (see interval::binary).
use harness::{ctx::*, interval::*, types::*};
use std::sync::Arc;
#[derive(Clone)]
struct Check(Arc<ChainTab>);
impl FinCheck for Check {
    fn run<T: Elem>(&self, e: &FinEmb<T>, c: &mut Ctx) { binary(e, &self.0, c) }
}
fn main() {
    let a = Args::parse();
    let mut jobs = vec![];
    for k in 1..=if a.thorough { 7 } else { 6 } {
        add_fin(&mut jobs, &Check(ChainTab::load(&a.tables, k)), "binary", k, Scope::Core, a.seed);
    }
    run(&a, jobs)
}
