//! C15: every pair of bound trees under every binary operation.
use harness::{ctx::*, subject::*, tables::*, types::*};
use std::sync::Arc;
#[derive(Clone)]
struct Check { t: Arc<Regions>, q: Arc<TreeTab>, share: usize }
impl DenseCheck for Check {
    fn run<T: Val>(&self, e: &DenseEmb<T>, c: &mut Ctx) { replay_pairs(&Tree(e, &self.q), &self.t, self.share, c) }
}
fn main() {
    let a = Args::parse();
    let mut jobs = vec![];
    for n in [1, 2, 3, 4] {
        let check = Check { t: Regions::load(&a.tables, 2 * n + 1), q: TreeTab::load(&a.tables, n), share: if n == 4 && !a.thorough { 4 } else { 1 } };
        add_dense(&mut jobs, &check, "pairs", n, true);
        if n == 4 { push_dense(&mut jobs, &Check { share: 1, ..check }, "all pairs", dense_i32(4)); }
    }
    run(&a, jobs)
}
