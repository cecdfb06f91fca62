//! C14: bulk operations on sequences of raw intervals.
use harness::{ctx::*, interval::*, tables::*, types::*};
use std::sync::Arc;
#[derive(Clone)]
struct Short(Arc<BulkTab>);
impl DenseCheck for Short {
    fn run<T: Val>(&self, e: &DenseEmb<T>, c: &mut Ctx) { bulk(e, &self.0, c) }
}
#[derive(Clone)]
struct Long(Arc<Regions>, Arc<TreeTab>, usize);
impl DenseCheck for Long {
    fn run<T: Val>(&self, e: &DenseEmb<T>, c: &mut Ctx) { bulk_long(e, &self.0, &self.1, self.2, c) }
}
fn main() {
    let a = Args::parse();
    let mut jobs = vec![];
    add_dense(&mut jobs, &Short(BulkTab::load(&a.tables, "bulk_1")), "short sequences", 1, true);
    add_dense(&mut jobs, &Short(BulkTab::load(&a.tables, "bulk_2")), "short sequences", 2, true);
    if a.thorough { add_dense(&mut jobs, &Short(BulkTab::load(&a.tables, "bulk_3")), "short sequences", 3, true); }
    for n in [2, 3, 4] {
        let count = if a.thorough { 300_000 } else { 6000 };
        add_dense(&mut jobs, &Long(Regions::load(&a.tables, 2 * n + 1), TreeTab::load(&a.tables, n), count), "long sequences", n, true);
    }
    run(&a, jobs)
}
