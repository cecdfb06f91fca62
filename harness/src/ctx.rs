use serde_json::{json, Value};
use std::collections::VecDeque;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex};

/// One replay job: a table on one element type and layout.
pub struct Job {
    pub name: String,
    pub run: Box<dyn FnOnce(&mut Ctx) + Send>,
}
pub type Jobs = Vec<Job>;

/// What a worker is doing now, for the watchdog.
#[derive(Default)]
pub struct Slot {
    beat: AtomicU64,
    at: [AtomicU64; 4],
    job: Mutex<String>,
}

pub struct Ctx {
    pub job: String,
    /// comparisons of something the real code returned with the table
    pub cases: u64,
    /// calls (or short bundles of calls) of the real code
    pub calls: u64,
    /// distinct table rows (transitions) exercised
    pub rows: u64,
    /// complete histories, traversals or round trips replayed
    pub traces: u64,
    pub viol: Vec<Value>,
    pub samples: Vec<Value>,
    pub thorough: bool,
    pub seed: u64,
    slot: Arc<Slot>,
}

pub const MAX_VIOL: usize = 3;

impl Ctx {
    /// Runs code under test; a panic is data.
    pub fn guard<R>(&mut self, f: impl FnOnce() -> R) -> Result<R, String> {
        self.calls += 1;
        self.slot.beat.fetch_add(1, Relaxed);
        catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
            let m = e.downcast_ref::<&str>().map(|s| (*s).to_string())
                .or_else(|| e.downcast_ref::<String>().cloned())
                .unwrap_or_else(|| "?".into());
            format!("panicked: {m}")
        })
    }
    pub fn at(&self, a: u64, b: u64, c: u64, d: u64) {
        for (s, v) in self.slot.at.iter().zip([a, b, c, d]) { s.store(v, Relaxed); }
        self.slot.beat.fetch_add(1, Relaxed);
    }
    pub fn done(&self) -> bool { self.viol.len() >= MAX_VIOL }
    /// Compares one observation with the table; `what` describes the case.
    pub fn expect<A: PartialEq<B> + std::fmt::Debug, B: std::fmt::Debug>(
        &mut self, got: &A, want: &B, what: impl FnOnce() -> String) -> bool {
        self.cases += 1;
        if got == want { return true; }
        self.fail(what(), format!("{want:?}"), format!("{got:?}"));
        false
    }
    pub fn fail(&mut self, what: String, want: String, got: String) {
        if self.viol.len() < MAX_VIOL {
            self.viol.push(json!({"job": self.job, "case": what,
                "specification": clip(want), "implementation": clip(got)}));
        }
    }
    pub fn sample(&mut self, v: Value) {
        if self.samples.len() < 2 { self.samples.push(v); }
    }
}
fn clip(s: String) -> String {
    if s.chars().count() <= 2000 { s } else { s.chars().take(2000).collect::<String>() + "..." }
}

#[derive(Clone)]
pub struct Args {
    pub tables: String,
    pub seed: u64,
    pub thorough: bool,
    pub out: String,
    pub only: Option<String>,
    pub extra: Vec<(String, String)>,
}
impl Args {
    pub fn parse() -> Self {
        let mut a = Self { tables: String::new(), seed: 1, thorough: false, out: String::new(), only: None, extra: vec![] };
        let mut it = std::env::args().skip(1);
        while let Some(k) = it.next() {
            let mut v = || it.next().expect("argument value");
            match &k[..] {
                "--tables" => a.tables = v(),
                "--seed" => a.seed = v().parse().unwrap(),
                "--tier" => a.thorough = v() == "thorough",
                "--out" => a.out = v(),
                "--only" => a.only = Some(v()),
                _ => { let x = v(); a.extra.push((k, x)) }
            }
        }
        a
    }
    pub fn get(&self, k: &str) -> Option<&str> {
        self.extra.iter().find(|(x, _)| x == k).map(|(_, v)| &v[..])
    }
}

const HANG_S: u32 = 60;

/// Runs all jobs on a few threads and writes the result file.
pub fn run(args: &Args, jobs: Jobs) -> ! {
    std::panic::set_hook(Box::new(|_| {}));
    let t0 = std::time::Instant::now();
    let jobs: VecDeque<Job> = jobs.into_iter()
        .filter(|j| args.only.as_ref().is_none_or(|o| j.name.contains(&o[..]))).collect();
    let njobs = jobs.len();
    let n = std::thread::available_parallelism().map_or(4, |x| x.get()).min(8).min(njobs.max(1));
    let queue = Arc::new(Mutex::new(jobs));
    let slots: Vec<Arc<Slot>> = (0..n).map(|_| Arc::default()).collect();
    let results: Arc<Mutex<Vec<Ctx>>> = Arc::default();
    {
        let slots = slots.clone();
        let out = args.out.clone();
        std::thread::spawn(move || {
            let mut last = vec![(0u64, 0u32); slots.len()];
            loop {
                std::thread::sleep(std::time::Duration::from_secs(1));
                for (s, l) in slots.iter().zip(last.iter_mut()) {
                    let b = s.beat.load(Relaxed);
                    let job = s.job.lock().unwrap().clone();
                    if job.is_empty() || b != l.0 { *l = (b, 0); } else { l.1 += 1; }
                    if l.1 > HANG_S {
                        let at: Vec<u64> = s.at.iter().map(|x| x.load(Relaxed)).collect();
                        let v = json!({"violations": [{"job": job, "case": format!("step {at:?} of this job"),
                            "specification": "the call returns", "implementation": format!("no answer in {HANG_S} s")}],
                            "cases": 0, "calls": 0, "rows": 0, "traces": 0, "jobs": 0, "samples": []});
                        std::fs::write(&out, v.to_string()).unwrap();
                        std::process::exit(1);
                    }
                }
            }
        });
    }
    let threads: Vec<_> = slots.iter().map(|slot| {
        let (slot, queue, results, args) = (slot.clone(), queue.clone(), results.clone(), args.clone());
        std::thread::Builder::new().stack_size(64 << 20).spawn(move || loop {
            let Some(job) = queue.lock().unwrap().pop_front() else {
                slot.job.lock().unwrap().clear();
                return;
            };
            slot.job.lock().unwrap().clone_from(&job.name);
            slot.beat.fetch_add(1, Relaxed);
            let mut ctx = Ctx { job: job.name.clone(), cases: 0, calls: 0, rows: 0, traces: 0, viol: vec![],
                samples: vec![], thorough: args.thorough, seed: args.seed, slot: slot.clone() };
            // Anything that escapes a guard (a panic in Clone, Eq, Hash, Drop of
            // the code under test) still counts.
            let t = std::time::Instant::now();
            let r = catch_unwind(AssertUnwindSafe(|| (job.run)(&mut ctx)));
            if std::env::var("VH_TIMES").is_ok() { eprintln!("{:6} ms  {} cases {}", t.elapsed().as_millis(), ctx.cases, job.name); }
            if let Err(e) = r {
                let m = e.downcast_ref::<&str>().map(|s| (*s).to_string())
                    .or_else(|| e.downcast_ref::<String>().cloned()).unwrap_or_default();
                let at: Vec<u64> = slot.at.iter().map(|x| x.load(Relaxed)).collect();
                ctx.fail(format!("step {at:?} of this job"), "no panic".into(), format!("panicked: {m}"));
            }
            results.lock().unwrap().push(ctx);
        }).unwrap()
    }).collect();
    for t in threads { t.join().unwrap(); }
    let mut rs = std::mem::take(&mut *results.lock().unwrap());
    rs.sort_by(|a, b| a.job.cmp(&b.job));
    let viol: Vec<&Value> = rs.iter().flat_map(|c| &c.viol).collect();
    let names: Vec<&String> = rs.iter().map(|c| &c.job).collect();
    let samples: Vec<&Value> = rs.iter().flat_map(|c| c.samples.iter().take(1)).take(8).collect();
    let v = json!({
        "jobs": njobs, "job_names": names,
        "cases": rs.iter().map(|c| c.cases).sum::<u64>(),
        "calls": rs.iter().map(|c| c.calls).sum::<u64>(),
        "rows": rs.iter().map(|c| c.rows).sum::<u64>(),
        "traces": rs.iter().map(|c| c.traces).sum::<u64>(),
        "samples": samples, "violations": viol, "wall_s": t0.elapsed().as_secs_f64(),
    });
    std::fs::write(&args.out, v.to_string()).unwrap();
    std::process::exit(i32::from(!viol.is_empty()))
}
