//! Records runs of the real code for trace validation (PoolTrace).
//! `--subjects a,b,.. --mix NAME --lines N --traces DIR`
use harness::{ctx::*, record::*, types::*};
use normalize_interval::normalize::Finite;

fn whole<T: Finite + Ord + Clone>() -> Vec<T> {
    let mut v = vec![T::MINIMUM];
    while let Some(x) = v[v.len() - 1].succ() {
        assert!(v.len() < 4096, "a small type");
        v.push(x);
    }
    v
}
fn all<T: Int>() -> Vec<T> { (0..=T::LAST).map(T::at).collect() }
fn main() {
    let a = Args::parse();
    let dir = a.get("--traces").expect("--traces").to_string();
    let lines: usize = a.get("--lines").expect("--lines").parse().unwrap();
    let mix_name = a.get("--mix").unwrap_or("all").to_string();
    let mut jobs = vec![];
    for s in a.get("--subjects").expect("--subjects").split(',') {
        let (name, dir, m) = (s.to_string(), dir.clone(), mix(&mix_name));
        let salt = format!("{mix_name}/{name}");
        jobs.push(Job { name: format!("recording {name}"), run: Box::new(move |c| {
            let out = format!("{dir}/{name}.ndjson");
            macro_rules! emb { ($e:expr) => { record(&RecSel::new($e), lines, m, c.seed, &salt, &out) } }
            macro_rules! sel { ($ch:expr) => { { let chain = $ch; emb!(FinEmb::of_chain(&name, &chain, &(0..chain.len()).collect::<Vec<_>>())) } } }
            macro_rules! blocks { ($t:ident $k:expr) => { emb!(scattered::<$t>($k, c.seed)) } }
            macro_rules! tree { ($e:expr) => { { let emb = $e; record(&RecTree { emb }, lines, m, c.seed, &salt, &out) } } }
            let base = name.split('#').next().unwrap();
            let counts = match base {
                "u8" => sel!(all::<u8>()),
                "i8" => sel!(all::<i8>()),
                "u16" => sel!(all::<u16>()),
                "i16" => sel!(all::<i16>()),
                "P1" => sel!(P::<1>::chain()),
                "P2" => sel!(P::<2>::chain()),
                "P40" => sel!(P::<40>::chain()),
                "P12" => sel!(P::<12>::chain()),
                "Back" => sel!(Back::<17>::chain()),
                "Word" => sel!(Word::chain()),
                "Pair" => { assert!(whole::<Pair>() == Pair::chain()); sel!(Pair::chain()) }
                "b-u16" => blocks!(u16 300),
                "b-u32" => blocks!(u32 60),
                "b-u64" => blocks!(u64 60),
                "b-u128" => blocks!(u128 60),
                "b-usize" => blocks!(usize 60),
                "b-i16" => blocks!(i16 60),
                "b-i32" => blocks!(i32 300),
                "b-i64" => blocks!(i64 60),
                "b-i128" => blocks!(i128 60),
                "b-isize" => blocks!(isize 60),
                "tree-i32" => tree!(dense_i32(5)),
                "tree-u8" => tree!(dense_u8_top(14)),
                "tree-float" => tree!(dense_float(24)),
                "tree-string" => tree!(dense_string(10)),
                "tree-wide" => tree!(dense_i32(100)),
                "tree-vast" => tree!(dense_i32(5000)),
                "tree-huge" => tree!(dense_i32(400)),
                "tree-pair" => tree!(dense_pair(40)),
                x => panic!("no subject {x}"),
            };
            c.calls += counts.as_object().unwrap().values().map(|v| v.as_u64().unwrap()).sum::<u64>();
            c.sample(serde_json::json!({"recorded": name, "events": counts}));
        }) });
    }
    run(&a, jobs)
}
