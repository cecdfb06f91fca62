//! Tables printed by TLC (integers only).
use serde_json::Value;
use std::collections::HashMap;
use std::sync::Arc;

pub type Range = (u8, u8);           // of positions; (1,0) is none
pub const NO_RANGE: Range = (1, 0);
pub type Raw3 = [i64; 3];            // kind, left value, right value
pub type Bd = [i64; 2];              // 1 Inc | 2 Exc | 0 Inf | -1 none, value

pub struct Rows(Vec<Vec<Value>>);
impl Rows {
    pub fn load(dir: &str, name: &str) -> Self {
        let p = format!("{dir}/{name}.rows");
        let s = std::fs::read_to_string(&p).unwrap_or_else(|e| panic!("{p}: {e}"));
        Self(s.lines().map(|l| match serde_json::from_str(l).unwrap() {
            Value::Array(a) => a,
            _ => panic!("row"),
        }).collect())
    }
    pub fn of(&self, tag: i64) -> impl Iterator<Item = &[Value]> {
        self.0.iter().filter(move |r| r[0].as_i64() == Some(tag)).map(|r| &r[1..])
    }
}
pub fn int(v: &Value) -> i64 { v.as_i64().unwrap() }
pub fn ints(v: &Value) -> Vec<i64> { v.as_array().unwrap().iter().map(int).collect() }
pub fn flag(v: &Value) -> bool { int(v) == 1 }
pub fn flags(v: &Value) -> Vec<bool> { v.as_array().unwrap().iter().map(flag).collect() }
pub fn range(v: &Value) -> Range { let a = ints(v); (a[0] as u8, a[1] as u8) }
pub fn ranges(v: &Value) -> Vec<Range> { v.as_array().unwrap().iter().map(range).collect() }
pub fn masks(v: &Value) -> Vec<u32> { v.as_array().unwrap().iter().map(|x| int(x) as u32).collect() }
pub fn raw3(v: &Value) -> Raw3 { let a = ints(v); [a[0], a[1], a[2]] }
pub fn raw3s(v: &Value) -> Vec<Raw3> { v.as_array().unwrap().iter().map(raw3).collect() }
pub fn bd(v: &Value) -> Bd { let a = ints(v); [a[0], a[1]] }

/// The transition table of Regions for K positions.
pub struct Regions {
    pub k: usize,
    pub args: Vec<Range>,
    pub runs: Vec<Vec<Range>>,
    pub hull: Vec<Range>,
    pub compl: Vec<u32>,
    pub edit: [Vec<Vec<u32>>; 3],     // union, intersect, minus: [mask][arg]
    pub reset: Vec<u32>,              // [arg]
    pub pair: [Vec<Vec<u32>>; 3],     // [mask][mask]
    pub meets: Vec<Vec<bool>>,
}
pub const OPS: [&str; 3] = ["union", "intersect", "minus"];
impl Regions {
    pub fn load(dir: &str, k: usize) -> Arc<Self> {
        let rows = Rows::load(dir, &format!("regions_{k}"));
        let head = rows.of(0).next().expect("header");
        assert_eq!(int(&head[0]), k as i64);
        let n = 1usize << k;
        let mut t = Self { k, args: ranges(&head[1]), runs: vec![vec![]; n], hull: vec![NO_RANGE; n],
            compl: vec![0; n], edit: [vec![vec![]; n], vec![vec![]; n], vec![vec![]; n]], reset: vec![],
            pair: [vec![vec![]; n], vec![vec![]; n], vec![vec![]; n]], meets: vec![vec![]; n] };
        let mut seen = 0;
        for r in rows.of(1) {
            let m = int(&r[0]) as usize;
            t.runs[m] = ranges(&r[1]);
            t.hull[m] = range(&r[2]);
            t.compl[m] = int(&r[3]) as u32;
            for o in 0..3 { t.edit[o][m] = masks(&r[4 + o]); }
            t.reset = masks(&r[7]);
            seen += 1;
        }
        assert_eq!(seen, n, "regions_{k}: a state is missing from the table");
        for r in rows.of(2) {
            let m = int(&r[0]) as usize;
            for o in 0..3 { t.pair[o][m] = masks(&r[1 + o]); }
            t.meets[m] = flags(&r[4]);
        }
        Arc::new(t)
    }
    pub fn states(&self) -> u32 { 1 << self.k }
    pub fn full(&self) -> u32 { self.states() - 1 }
    pub fn arg_of(&self, r: Range) -> usize { self.args.iter().position(|a| *a == r).unwrap() }
}

/// Raw intervals of cell ranges over N values and observations of trees.
pub struct TreeTab {
    pub n: usize,
    pub raw_of: HashMap<Range, Raw3>,
    pub range_of: HashMap<Raw3, Range>,
    pub obs: Vec<TreeObs>,
}
#[derive(Clone, Default)]
pub struct TreeObs { pub lower: Bd, pub upper: Bd, pub enclose: Raw3, pub closure: Raw3, pub empty: bool, pub full: bool, pub has: Vec<bool> }
impl TreeTab {
    pub fn load(dir: &str, n: usize) -> Arc<Self> {
        let rows = Rows::load(dir, &format!("tree_{n}"));
        let mut t = Self { n, raw_of: HashMap::new(), range_of: HashMap::new(), obs: vec![TreeObs::default(); 1 << (2 * n + 1)] };
        for r in rows.of(4) {
            let rg = (int(&r[0]) as u8, int(&r[1]) as u8);
            t.raw_of.insert(rg, raw3(&r[2]));
            t.range_of.insert(raw3(&r[2]), rg);
        }
        let mut seen = 0;
        for r in rows.of(5) {
            t.obs[int(&r[0]) as usize] = TreeObs { lower: bd(&r[1]), upper: bd(&r[2]), enclose: raw3(&r[3]),
                closure: raw3(&r[4]), empty: flag(&r[5]), full: flag(&r[6]), has: flags(&r[7]) };
            seen += 1;
        }
        assert_eq!(seen, t.obs.len());
        Arc::new(t)
    }
}

/// Observations of selections over K positions; values 0 for none.
pub struct SelTab { pub obs: Vec<SelObs> }
#[derive(Clone, Default)]
pub struct SelObs { pub lower: usize, pub upper: usize, pub inf: usize, pub sup: usize, pub hull: Range,
    pub empty: bool, pub full: bool, pub bounded: bool, pub left_b: bool, pub right_b: bool, pub half_b: bool }
impl SelTab {
    pub fn load(dir: &str, k: usize) -> Arc<Self> {
        let rows = Rows::load(dir, &format!("selection_{k}"));
        let mut obs = vec![SelObs::default(); 1 << k];
        let mut seen = 0;
        for r in rows.of(3) {
            let u = |i: usize| int(&r[i]) as usize;
            obs[u(0)] = SelObs { lower: u(1), upper: u(2), inf: u(3), sup: u(4), hull: range(&r[5]), empty: flag(&r[6]),
                full: flag(&r[7]), bounded: flag(&r[8]), left_b: flag(&r[9]), right_b: flag(&r[10]), half_b: flag(&r[11]) };
            seen += 1;
        }
        assert_eq!(seen, obs.len());
        Arc::new(Self { obs })
    }
}

/// The graph of Cursor: (n, f, b) -> (front item, back item), 1-based, 0 none.
pub struct CursorTab(HashMap<(usize, usize, usize), (usize, usize)>);
impl CursorTab {
    pub fn load(dir: &str) -> Arc<Self> {
        let rows = Rows::load(dir, "cursor_9");
        Arc::new(Self(rows.of(50).map(|r| {
            let u = |i: usize| int(&r[i]) as usize;
            ((u(0), u(1), u(2)), (u(3), u(4)))
        }).collect()))
    }
    pub fn at(&self, n: usize, f: usize, b: usize) -> (usize, usize) { self.0[&(n, f, b)] }
    pub fn max_items(&self) -> usize { self.0.keys().map(|k| k.0).max().unwrap() }
}
