//! C16: every edit in every bound tree; all short histories; long ones.
use harness::{ctx::*, subject::*, tables::*, types::*};
use std::sync::Arc;
#[derive(Clone)]
enum What { Edits(usize), Histories(usize), Walks(usize, usize) }
#[derive(Clone)]
struct Check { t: Arc<Regions>, q: Arc<TreeTab>, w: What }
impl DenseCheck for Check {
    fn run<T: Val>(&self, e: &DenseEmb<T>, c: &mut Ctx) {
        let s = Tree(e, &self.q);
        match self.w {
            What::Edits(r) => replay_edits(&s, &self.t, r, c),
            What::Histories(d) => replay_all_histories(&s, &self.t, d, c),
            What::Walks(n, l) => replay_walks(&s, &self.t, n, l, c),
        }
    }
}
fn main() {
    let a = Args::parse();
    let th = a.thorough;
    let mut jobs = vec![];
    for n in [1, 2, 3, 4] {
        let (t, q) = (Regions::load(&a.tables, 2 * n + 1), TreeTab::load(&a.tables, n));
        let mk = |w| Check { t: t.clone(), q: q.clone(), w };
        add_dense(&mut jobs, &mk(What::Edits(if th { 12 } else { 5 })), "edits", n, true);
        let depth = match n { 1 => 4, 2 => 3, 3 => 2, _ => 2 };
        add_dense(&mut jobs, &mk(What::Histories(depth)), "all histories", n, th);
        add_dense(&mut jobs, &mk(What::Walks(if th { 800 } else { 40 }, 60)), "walks", n, true);
        if th && n == 3 { push_dense(&mut jobs, &mk(What::Histories(3)), "all histories", dense_i32(3)); }
    }
    run(&a, jobs)
}
