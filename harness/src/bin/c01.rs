//! C01: every pair of selection states under every binary operation.
use harness::{ctx::*, subject::*, tables::*, types::*};
use std::sync::Arc;
#[derive(Clone)]
struct Check { t: Arc<Regions>, share: usize }
impl FinCheck for Check {
    fn run<T: Elem>(&self, e: &FinEmb<T>, c: &mut Ctx) { replay_pairs(&Sel(e), &self.t, self.share, c) }
}
fn main() {
    let a = Args::parse();
    let mut jobs = vec![];
    for k in [1, 2, 3, 4, 5, 9] {
        let share = if k == 9 && !a.thorough { 6 } else { 1 };
        let check = Check { t: Regions::load(&a.tables, k), share };
        add_fin(&mut jobs, &check, "pairs", k, Scope::Core, a.seed);
        if k == 9 {
            // the whole table on one type, whatever the tier
            push(&mut jobs, &Check { t: check.t, share: 1 }, "all pairs", FinEmb::of_chain("P", &P::<9>::chain(), &(0..9).collect::<Vec<_>>()));
        }
    }
    run(&a, jobs)
}
