//! C05: interval traversal, every interleaving of both ends.
use harness::{ctx::*, tables::*, types::*, walk::*};
use std::sync::Arc;
#[derive(Clone)]
struct S { t: Arc<Regions>, cur: Arc<CursorTab>, routes: Vec<usize> }
impl FinCheck for S {
    fn run<T: Elem>(&self, e: &FinEmb<T>, c: &mut Ctx) { selection_intervals(e, &self.t, &self.cur, &self.routes, c) }
}
#[derive(Clone)]
struct D { t: Arc<Regions>, q: Arc<TreeTab>, cur: Arc<CursorTab>, routes: Vec<usize> }
impl DenseCheck for D {
    fn run<T: Val>(&self, e: &DenseEmb<T>, c: &mut Ctx) { tree_intervals(e, &self.t, &self.q, &self.cur, &self.routes, c) }
}
fn main() {
    let a = Args::parse();
    let cur = CursorTab::load(&a.tables);
    let routes: Vec<usize> = if a.thorough { (0..12).collect() } else { vec![0, 2, 4] };
    let mut jobs = vec![];
    for k in [1, 2, 3, 4, 5, 9] {
        add_fin(&mut jobs, &S { t: Regions::load(&a.tables, k), cur: cur.clone(), routes: routes.clone() }, "selection", k, Scope::Core, a.seed);
    }
    for n in [1, 2, 3, 4] {
        let d = D { t: Regions::load(&a.tables, 2 * n + 1), q: TreeTab::load(&a.tables, n), cur: cur.clone(), routes: routes.clone() };
        add_dense(&mut jobs, &d, "tree", n, true);
    }
    run(&a, jobs)
}
