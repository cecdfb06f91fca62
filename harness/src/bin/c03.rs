//! C03: values reached by different histories: equality, hash, decomposition.
use harness::{ctx::*, subject::*, tables::*, types::*};
use std::sync::Arc;
#[derive(Clone)]
struct Check { t: Arc<Regions>, q: Arc<SelTab>, share: usize }
impl FinCheck for Check {
    fn run<T: Elem>(&self, e: &FinEmb<T>, c: &mut Ctx) {
        replay_equality(&Sel(e), &self.t, self.share, c);
        if c.done() { return; }
        replay_sel_queries(e, &self.t, &self.q, 2, c);
    }
}
fn main() {
    let a = Args::parse();
    let mut jobs = vec![];
    for k in [1, 2, 3, 4, 5, 9] {
        let check = Check { t: Regions::load(&a.tables, k), q: SelTab::load(&a.tables, k), share: 1 };
        add_fin(&mut jobs, &check, "equality", k, Scope::Core, a.seed);
    }
    run(&a, jobs)
}
