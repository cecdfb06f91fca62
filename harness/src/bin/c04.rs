//! C04: every query in every selection state.
use harness::{ctx::*, subject::*, tables::*, types::*};
use std::sync::Arc;
#[derive(Clone)]
struct Check { t: Arc<Regions>, q: Arc<SelTab> }
impl FinCheck for Check {
    fn run<T: Elem>(&self, e: &FinEmb<T>, c: &mut Ctx) { replay_sel_queries(e, &self.t, &self.q, if c.thorough { 60 } else { ROUTES }, c) }
}
fn main() {
    let a = Args::parse();
    let mut jobs = vec![];
    for k in [1, 2, 3, 4, 5, 9] {
        let check = Check { t: Regions::load(&a.tables, k), q: SelTab::load(&a.tables, k) };
        add_fin(&mut jobs, &check, "queries", k, Scope::Core, a.seed);
    }
    run(&a, jobs)
}
