//! C11: calls of the Finite implementation of every built-in integer type,
//! recorded for trace validation (WordTrace), and the chains of user-defined
//! types the other checks run on.
use harness::{ctx::*, record::*, types::*};
use std::io::Write;
fn main() {
    let a = Args::parse();
    let dir = a.get("--traces").expect("--traces").to_string();
    let mut jobs = vec![];
    macro_rules! words { ($($t:ident)*) => { $( {
        let dir = dir.clone();
        jobs.push(Job { name: concat!("succ and pred of ", stringify!($t)).into(), run: Box::new(move |c| {
            let p = format!("{dir}/word_{}.ndjson", <$t as Int>::NAME);
            let mut f = std::io::BufWriter::new(std::fs::File::create(&p).unwrap());
            let n = record_words::<$t>(c.seed, c.thorough, &mut f);
            let runs = record_runs::<$t>(c.seed, c.thorough, &mut f, c);
            f.flush().unwrap();
            c.calls += 2 * n as u64;
            c.rows += n as u64;
            c.sample(serde_json::json!({"recorded": p, "values": n, "stretches": runs}));
        }) });
    } )* } }
    words!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
    run(&a, jobs)
}
