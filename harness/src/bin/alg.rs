//! Records programs on single intervals for trace validation (RegTrace).
//! `--subjects a,b,.. --mix NAME --lines N --traces DIR`
use harness::{ctx::*, regs::*, types::*};

fn all<T: Int>() -> Vec<T> { (0..=T::LAST).map(T::at).collect() }
fn main() {
    let a = Args::parse();
    let dir = a.get("--traces").expect("--traces").to_string();
    let lines: usize = a.get("--lines").expect("--lines").parse().unwrap();
    let mix = a.get("--mix").unwrap_or("ops").to_string();
    let mut jobs = vec![];
    for s in a.get("--subjects").expect("--subjects").split(',') {
        let (name, dir, mix) = (s.to_string(), dir.clone(), mix.clone());
        let salt = format!("{mix}/{name}");
        jobs.push(Job { name: format!("recording {name}"), run: Box::new(move |c| {
            let out = format!("{dir}/{name}.ndjson");
            macro_rules! iv { ($ch:expr) => { iv!($ch, None) }; ($ch:expr, $size:expr) => { record_regs(&Ivs(Places::each($ch), $size), lines, &mix, c.seed, &salt, &out) } }
            macro_rules! raw { ($e:expr) => { record_regs(&Raws(Places::each($e.v)), lines, &mix, c.seed, &salt, &out) } }
            macro_rules! far { ($t:ty) => { record_regs(&Ivs(Places::of(&clusters::<$t>(200)), None), lines, &mix, c.seed, &salt, &out) } }
            let counts = match &name[..] {
                "iv-u32" => far!(u32),
                "iv-i32" => far!(i32),
                "iv-u64" => far!(u64),
                "iv-i64" => far!(i64),
                "iv-usize" => far!(usize),
                "iv-isize" => far!(isize),
                "iv-u128" => far!(u128),
                "iv-i128" => far!(i128),
                "iv-u8" => iv!(all::<u8>(), Some((|i| i.size().map(i64::from), 255))),
                "iv-i8" => iv!(all::<i8>(), Some((|i| i.size().map(i64::from), 127))),
                "iv-u16" => iv!(all::<u16>(), Some((|i| i.size().map(i64::from), 65535))),
                "iv-i16" => iv!(all::<i16>(), Some((|i| i.size().map(i64::from), 32767))),
                "iv-P1" => iv!(P::<1>::chain(), Some((|i| i.size().map(|x| x.0.into()), 0))),
                "iv-P2" => iv!(P::<2>::chain(), Some((|i| i.size().map(|x| x.0.into()), 1))),
                "iv-P40" => iv!(P::<40>::chain(), Some((|i| i.size().map(|x| x.0.into()), 39))),
                "iv-Back" => iv!(Back::<17>::chain()),
                "iv-Word" => iv!(Word::chain()),
                "iv-Pair" => iv!(Pair::chain()),
                "raw-i32" => raw!(dense_i32(5)),
                "raw-u8" => raw!(dense_u8_top(14)),
                "raw-float" => raw!(dense_float(24)),
                "raw-string" => raw!(dense_string(10)),
                "raw-pair" => raw!(dense_pair(40)),
                "raw-vast" => raw!(dense_i32(5000)),
                x => panic!("no subject {x}"),
            };
            c.calls += counts.as_object().unwrap().values().map(|v| v.as_u64().unwrap()).sum::<u64>();
            c.sample(serde_json::json!({"recorded": name, "events": counts}));
        }) });
    }
    run(&a, jobs)
}
