//! C02: every edit in every selection state; all short histories; long ones.
use harness::{ctx::*, subject::*, tables::*, types::*};
use std::sync::Arc;
#[derive(Clone)]
enum What { Edits(usize), Histories(usize), Walks(usize, usize) }
#[derive(Clone)]
struct Check { t: Arc<Regions>, w: What }
impl FinCheck for Check {
    fn run<T: Elem>(&self, e: &FinEmb<T>, c: &mut Ctx) {
        match self.w {
            What::Edits(r) => replay_edits(&Sel(e), &self.t, r, c),
            What::Histories(d) => replay_all_histories(&Sel(e), &self.t, d, c),
            What::Walks(n, l) => replay_walks(&Sel(e), &self.t, n, l, c),
        }
    }
}
fn main() {
    let a = Args::parse();
    let th = a.thorough;
    let mut jobs = vec![];
    for k in [1, 2, 3, 4, 5, 9] {
        let t = Regions::load(&a.tables, k);
        add_fin(&mut jobs, &Check { t: t.clone(), w: What::Edits(if th { 12 } else { 4 }) }, "edits", k, Scope::Core, a.seed);
        let depth = match k { 1 => 5, 2 => 4, 3 => if th { 4 } else { 3 }, 4 => if th { 4 } else { 3 }, 5 => 3, _ => 2 };
        add_fin(&mut jobs, &Check { t: t.clone(), w: What::Histories(depth) }, "all histories", k, Scope::Points, a.seed);
        add_fin(&mut jobs, &Check { t, w: What::Walks(if th { 600 } else { 30 }, 60) }, "walks", k, Scope::Core, a.seed);
    }
    run(&a, jobs)
}
