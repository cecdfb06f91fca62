//! C06: point traversal, every interleaving of both ends.
use harness::{ctx::*, tables::*, types::*, walk::*};
use std::sync::Arc;
#[derive(Clone)]
struct S { t: Arc<Regions>, cur: Arc<CursorTab>, routes: Vec<usize> }
impl FinCheck for S {
    fn run<T: Elem>(&self, e: &FinEmb<T>, c: &mut Ctx) {
        let max = if c.thorough { 9 } else if e.all_single() { 6 } else { 5 };
        points(e, &self.t, &self.cur, max, &self.routes, c)
    }
}
fn main() {
    let a = Args::parse();
    let cur = CursorTab::load(&a.tables);
    let routes: Vec<usize> = if a.thorough { vec![0, 2, 3, 4, 5, 6, 9] } else { vec![0, 4] };
    let mut jobs = vec![];
    for k in [1, 2, 3, 4, 5, 9] {
        let s = S { t: Regions::load(&a.tables, k), cur: cur.clone(), routes: routes.clone() };
        add_fin(&mut jobs, &s, "points", k, Scope::Core, a.seed);
    }
    run(&a, jobs)
}
