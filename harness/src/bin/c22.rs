//! C22: the same histories, operations and queries over every finite type.
use harness::{ctx::*, interval::*, subject::*, tables::*, types::*, walk::*};
use std::sync::Arc;
#[derive(Clone)]
struct Sels { t: Arc<Regions>, q: Arc<SelTab>, cur: Arc<CursorTab> }
impl FinCheck for Sels {
    fn run<T: Elem>(&self, e: &FinEmb<T>, c: &mut Ctx) {
        let th = c.thorough;
        replay_walks(&Sel(e), &self.t, if th { 100 } else { 8 }, 60, c);
        if c.done() { return; }
        replay_sel_queries(e, &self.t, &self.q, if th { ROUTES } else { 1 }, c);
        if c.done() { return; }
        if th || self.t.k < 9 { replay_edits(&Sel(e), &self.t, if th { 2 } else { 1 }, c); }
        if c.done() { return; }
        points(e, &self.t, &self.cur, 2, &[4], c);
    }
}
#[derive(Clone)]
struct Ivs(Arc<ChainTab>);
impl FinCheck for Ivs {
    fn run<T: Elem>(&self, e: &FinEmb<T>, c: &mut Ctx) {
        construct(e, &self.0, c);
        if c.done() { return; }
        binary(e, &self.0, c);
        if c.done() { return; }
        queries(e, &self.0, c);
        if c.done() { return; }
        normalizing(e, &self.0, c);
    }
}
fn main() {
    let a = Args::parse();
    let mut jobs = vec![];
    let cur = CursorTab::load(&a.tables);
    for k in [1, 2, 3, 4, 5, 9] {
        let s = Sels { t: Regions::load(&a.tables, k), q: SelTab::load(&a.tables, k), cur: cur.clone() };
        add_fin(&mut jobs, &s, "selections", k, Scope::All, a.seed);
    }
    for k in [1, 2, 3, 4, 5] { add_fin(&mut jobs, &Ivs(ChainTab::load(&a.tables, k)), "intervals", k, Scope::All, a.seed); }
    run(&a, jobs)
}
