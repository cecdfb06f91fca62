//! C17: trees reached by different histories; queries of every tree.
use harness::{ctx::*, subject::*, tables::*, types::*};
use std::sync::Arc;
#[derive(Clone)]
struct Check { t: Arc<Regions>, q: Arc<TreeTab> }
impl DenseCheck for Check {
    fn run<T: Val>(&self, e: &DenseEmb<T>, c: &mut Ctx) {
        replay_equality(&Tree(e, &self.q), &self.t, 1, c);
        if c.done() { return; }
        replay_tree_queries(e, &self.t, &self.q, if c.thorough { 60 } else { ROUTES }, c);
    }
}
fn main() {
    let a = Args::parse();
    let mut jobs = vec![];
    for n in [1, 2, 3, 4] {
        add_dense(&mut jobs, &Check { t: Regions::load(&a.tables, 2 * n + 1), q: TreeTab::load(&a.tables, n) }, "trees", n, true);
    }
    run(&a, jobs)
}
