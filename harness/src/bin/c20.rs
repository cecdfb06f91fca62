//! C20: printing and parsing of raw intervals.
//! Texts come from TLC as token sequences (Notation); random longer texts are
//! recorded for NotationTrace.
use harness::{ctx::*, rng::*, subject::*, tables::*};
use normalize_interval::raw_interval::{IntervalParseError, RawInterval};
use std::fmt::{Debug, Display};
use std::io::Write;
use std::str::FromStr;
use std::sync::Arc;

/// A value printed as one digit; nothing longer parses.
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Tok(u8);
impl Display for Tok { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.0) } }
impl FromStr for Tok {
    type Err = String;
    fn from_str(s: &str) -> Result<Self, String> {
        let b = s.as_bytes();
        if b.len() == 1 && b[0].is_ascii_digit() { Ok(Tok(b[0] - b'0')) } else { Err(s.to_string()) }
    }
}
/// A value printed as several bytes, not all ASCII.
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Wide(u8);
const WIDE: [&str; 4] = ["é", "zwei wörter", "…3…", "∀"];
impl Display for Wide { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(WIDE[self.0 as usize]) } }
impl FromStr for Wide {
    type Err = ();
    fn from_str(s: &str) -> Result<Self, ()> { WIDE.iter().position(|w| *w == s).map(|i| Wide(i as u8)).ok_or(()) }
}

trait Shown: Ord + Clone + Debug + Display + FromStr<Err = Self::E> + Send + Sync + 'static { type E: Debug; }
impl<T: Ord + Clone + Debug + Display + FromStr + Send + Sync + 'static> Shown for T where T::Err: Debug { type E = T::Err; }

fn render(tokens: &[i64], vals: &[String], bad: &str) -> String {
    tokens.iter().map(|t| match t {
        90 => bad, 91 => "Ø", 92 => "(", 93 => "[", 94 => ")", 95 => "]", 96 => ",", 97 => "-∞", 98 => "∞", 99 => " ",
        v => &vals[*v as usize - 1][..],
    }).collect()
}
fn code<T: Shown>(r: &Result<RawInterval<T>, IntervalParseError<T::E>>, vals: &[T]) -> Raw3 {
    match r {
        Ok(w) => raw3_by(w, |v| vals.binary_search(v).map_or(-1, |i| i as i64 + 1)),
        Err(IntervalParseError::InvalidInterval) => [-1, 0, 0],
        Err(IntervalParseError::InvalidValue(_)) => [-2, 0, 0],
    }
}
fn make<T: Clone>(w: Raw3, v: &[T]) -> RawInterval<T> {
    use RawInterval::*;
    let at = |i: i64| v[i as usize - 1].clone();
    match w[0] {
        0 => Empty, 1 => Point(at(w[1])), 2 => Open(at(w[1]), at(w[2])), 3 => LeftOpen(at(w[1]), at(w[2])),
        4 => RightOpen(at(w[1]), at(w[2])), 5 => Closed(at(w[1]), at(w[2])), 6 => UpTo(at(w[2])), 7 => UpFrom(at(w[1])),
        8 => To(at(w[2])), 9 => From(at(w[1])), _ => Full,
    }
}

/// `glue`: two values side by side never read as one.
fn replay<T: Shown>(name: &str, vals: Vec<T>, bads: &[&str], glue: bool, t: &Rows, c: &mut Ctx) {
    assert!(vals.windows(2).all(|w| w[0] < w[1]));
    let texts: Vec<String> = vals.iter().map(|v| v.to_string()).collect();
    for r in t.of(41) {
        let (w, toks) = (raw3(&r[0]), ints(&r[1]));
        let value = make(w, &vals);
        let text = render(&toks, &texts, "");
        let g = c.guard(|| value.to_string());
        c.expect(&g, &Ok::<_, String>(text.clone()), || format!("printing {value:?}"));
        let g = c.guard(|| code(&RawInterval::<T>::from_str(&text), &vals));
        c.expect(&g, &Ok::<_, String>(w), || format!("parsing {text:?} as an interval of {name}"));
        let g = c.guard(|| value.to_string().parse::<RawInterval<T>>().map(|x| x == value).map_err(|_| ()));
        c.expect(&g, &Ok::<_, String>(Ok(true)), || format!("parsing what {value:?} prints"));
        c.rows += 1;
        c.traces += 1;
        if c.done() { return; }
    }
    for r in t.of(40) {
        let (toks, w) = (ints(&r[0]), raw3(&r[1]));
        if !glue && toks.windows(2).any(|p| p[0] < 90 && p[1] < 90) { continue; }
        // pieces of junk that could join their neighbours only stand alone
        let bads = if w[0] == -2 { bads } else { &bads[..1] };
        for bad in bads {
            let text = render(&toks, &texts, bad);
            let g = c.guard(|| code(&RawInterval::<T>::from_str(&text), &vals));
            let what = || format!("parsing {text:?} as an interval of {name}");
            match (w[0], &g) {
                (-1, Ok([-1 | -2, _, _])) => { c.cases += 1; }
                _ => { c.expect(&g, &Ok::<_, String>(w), what); }
            }
        }
        c.rows += 1;
        if c.done() { return; }
    }
    c.sample(serde_json::json!({"job": c.job, "example": texts}));
}

fn random_texts(n: usize, lines: usize, path: &str, c: &mut Ctx) {
    let mut rng = Rng::new(c.seed, path);
    let r = &mut rng;
    let vals: Vec<Tok> = (1..=n as u8).map(Tok).collect();
    let texts: Vec<String> = vals.iter().map(|v| v.to_string()).collect();
    let mut f = std::io::BufWriter::new(std::fs::File::create(path).unwrap());
    let any = |r: &mut Rng| match r.below(3) { 0 => 1 + r.below(n) as i64, _ => 90 + r.below(10) as i64 };
    for _ in 0..lines {
        let mut t: Vec<i64> = match r.below(4) {
            // an interval with anything for its values
            0 | 1 => {
                let v = |r: &mut Rng, inf: i64| match r.below(8) { 0 => 90, 1 => 97, 2 => 98, 3 => inf, _ => 1 + r.below(n) as i64 };
                vec![92 + r.below(2) as i64, v(r, 97), 96, v(r, 98), 94 + r.below(2) as i64]
            }
            2 => (0..r.below(12)).map(|_| any(r)).collect(),
            _ => (0..3 + r.below(4)).map(|_| [92, 93, 94, 95, 96, 1, n as i64, 97, 98][r.below(9)]).collect(),
        };
        if r.chance(1, 4) {
            for _ in 0..1 + r.below(3) {
                let i = r.below(t.len() + 1);
                match r.below(3) { 0 => t.insert(i, any(r)), 1 if i < t.len() => { t.remove(i); } _ if i < t.len() => t[i] = any(r), _ => {} }
            }
        }
        let text = render(&t, &texts, "x");
        let g = c.guard(|| code(&RawInterval::<Tok>::from_str(&text), &vals)).unwrap_or([-9, 0, 0]);
        writeln!(f, "{}", serde_json::json!({"t": t, "r": g})).unwrap();
    }
    f.flush().unwrap();
    c.sample(serde_json::json!({"recorded": path, "texts": lines}));
}

fn main() {
    let a = Args::parse();
    let dir = a.get("--traces").expect("--traces").to_string();
    let mut jobs: Jobs = vec![];
    for n in [2usize, 3] {
        if n == 3 && !a.thorough { continue; }
        let t = Arc::new(Rows::load(&a.tables, &format!("notation_{n}")));
        macro_rules! job { ($name:expr, $vals:expr, $bads:expr, $glue:expr) => { {
            let t = t.clone();
            let vals = $vals[..n].to_vec();
            jobs.push(Job { name: format!("texts over {n} values of {}", $name), run: Box::new(move |c| replay($name, vals, $bads, $glue, &t, c)) });
        } } }
        job!("Tok", [Tok(1), Tok(2), Tok(3)], &["x", "", "12", "é", "-"], true);
        job!("Wide", [Wide(0), Wide(1), Wide(2)], &["x", "", "wörter", "…"], true);
        macro_rules! signed { ($($t:ident)*) => { $(
            job!(stringify!($t), [-3 as $t, -2, -1], &["x", "", "-", "--1", "1.5", "½"], true);
            job!(stringify!($t), [<$t>::MIN, <$t>::MIN + 1, <$t>::MAX], &["x", "999999999999999999999999999999999999999999"], false);
            job!(stringify!($t), [-1 as $t, 0, 1], &["0x1"], false);
        )* } }
        signed!(i8 i16 i32 i64 i128 isize);
        macro_rules! unsigned { ($($t:ident)*) => { $(
            job!(stringify!($t), [<$t>::MIN, 7, <$t>::MAX], &["x", "-1", "", "999999999999999999999999999999999999999999"], false);
            job!(stringify!($t), [<$t>::MAX - 2, <$t>::MAX - 1, <$t>::MAX], &["x"], false);
        )* } }
        unsigned!(u8 u16 u32 u64 u128 usize);
        if n == 2 { job!("bool", [false, true], &["x", "", "True", "1"], true); }
    }
    let lines = if a.thorough { 200_000 } else { 20_000 };
    jobs.push(Job { name: "random texts".into(), run: Box::new(move |c| random_texts(3, lines, &format!("{dir}/notation.ndjson"), c)) });
    run(&a, jobs)
}
