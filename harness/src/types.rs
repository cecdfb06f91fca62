//! Element types and the ways the abstract positions are laid out on them.
use crate::ctx::{Ctx, Job, Jobs};
use crate::rng::Rng;
use normalize_interval::normalize::Finite;
use std::borrow::Cow;
use std::cmp::Ordering;
use std::fmt::Debug;
use std::hash::Hash;

#[cfg(feature = "serde")]
pub trait Saveable: serde::Serialize + serde::de::DeserializeOwned {}
#[cfg(feature = "serde")]
impl<T: serde::Serialize + serde::de::DeserializeOwned> Saveable for T {}
#[cfg(not(feature = "serde"))]
pub trait Saveable {}
#[cfg(not(feature = "serde"))]
impl<T> Saveable for T {}
pub trait Val: Ord + Clone + Debug + Hash + Send + Sync + Saveable + 'static {}
impl<T: Ord + Clone + Debug + Hash + Send + Sync + Saveable + 'static> Val for T {}
pub trait Elem: Val + Finite {}
impl<T: Val + Finite> Elem for T {}

/// K positions as consecutive blocks of values covering a finite type.
#[derive(Clone)]
pub struct FinEmb<T> {
    pub name: String,
    pub lo: Vec<T>,
    pub hi: Vec<T>,
    pub probes: Vec<Vec<T>>,
    /// how many values each block has
    pub sizes: Vec<u128>,
}
impl<T: Val> FinEmb<T> {
    pub fn k(&self) -> usize { self.lo.len() }
    pub fn lo(&self, p: usize) -> &T { &self.lo[p - 1] }
    pub fn hi(&self, p: usize) -> &T { &self.hi[p - 1] }
    pub fn single(&self, p: usize) -> bool { self.lo[p - 1] == self.hi[p - 1] }
    pub fn all_single(&self) -> bool { (1..=self.k()).all(|p| self.single(p)) }
    pub fn pos_lo(&self, v: &T) -> Option<usize> { self.lo.binary_search(v).ok().map(|i| i + 1) }
    pub fn pos_hi(&self, v: &T) -> Option<usize> { self.hi.binary_search(v).ok().map(|i| i + 1) }
    /// Blocks of an explicitly listed chain of values.
    pub fn of_chain(name: &str, chain: &[T], starts: &[usize]) -> Self {
        let mut e = Self { name: name.into(), lo: vec![], hi: vec![], probes: vec![], sizes: vec![] };
        for (i, &s) in starts.iter().enumerate() {
            let end = starts.get(i + 1).copied().unwrap_or(chain.len());
            e.lo.push(chain[s].clone());
            e.hi.push(chain[end - 1].clone());
            e.probes.push(chain[s..end].to_vec());
            e.sizes.push((end - s) as u128);
        }
        e
    }
}

/// N values of any ordered type, with values from the gaps around them where
/// there are any.
#[derive(Clone)]
pub struct DenseEmb<T> {
    pub name: String,
    pub v: Vec<T>,
    pub gaps: Vec<Vec<T>>,
}
impl<T: Val> DenseEmb<T> {
    pub fn n(&self) -> usize { self.v.len() }
    pub fn at(&self, i: i64) -> T { self.v[i as usize - 1].clone() }
    pub fn index(&self, v: &T) -> Option<i64> { self.v.binary_search(v).ok().map(|i| i as i64 + 1) }
    /// all probes with their cells
    pub fn probes(&self) -> Vec<(usize, T)> {
        let mut r = vec![];
        for (i, g) in self.gaps.iter().enumerate() {
            for x in g { r.push((2 * i + 1, x.clone())); }
            if i < self.v.len() { r.push((2 * i + 2, self.v[i].clone())); }
        }
        r
    }
    fn new(name: &str, v: Vec<T>, gaps: Vec<Vec<T>>) -> Self {
        assert_eq!(gaps.len(), v.len() + 1);
        assert!(v.windows(2).all(|w| w[0] < w[1]));
        for (i, g) in gaps.iter().enumerate() {
            for x in g { assert!((i == 0 || v[i - 1] < *x) && (i == v.len() || *x < v[i])); }
        }
        Self { name: name.into(), v, gaps }
    }
}

// ---------------------------------------------------------------------------
// User-defined finite types.

/// N values in the natural order.
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub struct P<const N: u8>(pub u8);
impl<const N: u8> Finite for P<N> {
    const MINIMUM: Self = P(0);
    const MAXIMUM: Self = P(N - 1);
    fn pred(&self) -> Option<Self> { if self.0 == 0 { None } else { Some(P(self.0 - 1)) } }
    fn succ(&self) -> Option<Self> { if self.0 == N - 1 { None } else { Some(P(self.0 + 1)) } }
}
impl<const N: u8> std::ops::Sub for P<N> {
    type Output = Self;
    fn sub(self, o: Self) -> Self { P(self.0.checked_sub(o.0).expect("the lower value from the higher")) }
}
impl<const N: u8> P<N> {
    pub fn chain() -> Vec<Self> { (0..N).map(P).collect() }
}

pub static REV: [i64; 32] = { let mut a = [0; 32]; let mut i = 0; while i < 32 { a[i] = 10 * i as i64; i += 1 } a };
/// N values compared backwards, stored as references: 10 (N-1), ..., 10, 0.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct Back<const N: usize>(pub &'static i64);
impl<const N: usize> PartialOrd for Back<N> { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl<const N: usize> Ord for Back<N> { fn cmp(&self, o: &Self) -> Ordering { o.0.cmp(self.0) } }
impl<const N: usize> Back<N> {
    const TOP: &'static i64 = &(10 * (N as i64 - 1));
    pub fn chain() -> Vec<Self> { (0..N).rev().map(|i| Back(&REV[i])).collect() }
}
impl<const N: usize> Finite for Back<N> {
    const MINIMUM: Self = Back(Self::TOP);
    const MAXIMUM: Self = Back(&0);
    fn pred(&self) -> Option<Self> { REV[..N].iter().find(|x| **x > *self.0).map(Back) }
    fn succ(&self) -> Option<Self> { REV[..N].iter().rev().find(|x| **x < *self.0).map(Back) }
}

#[cfg(feature = "serde")]
impl<const N: usize> serde::Serialize for Back<N> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { self.0.serialize(s) }
}
#[cfg(feature = "serde")]
impl<'de, const N: usize> serde::Deserialize<'de> for Back<N> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let v = i64::deserialize(d)?;
        REV[..N].iter().find(|x| **x == v).map(Back).ok_or_else(|| serde::de::Error::custom("no such value"))
    }
}

/// A finite list of words, owning their text.
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub struct Word(pub Cow<'static, str>);
pub const WORDS: [&str; 9] = ["", "a", "aa", "ab", "b", "ba", "c", "d", "zz"];
impl Word {
    fn own(i: usize) -> Self { Word(Cow::Owned(WORDS[i].to_string())) }
    fn ix(&self) -> usize { WORDS.iter().position(|w| *w == &self.0[..]).expect("a listed word") }
    pub fn chain() -> Vec<Self> { (0..WORDS.len()).map(Self::own).collect() }
}
impl Finite for Word {
    const MINIMUM: Self = Word(Cow::Borrowed(WORDS[0]));
    const MAXIMUM: Self = Word(Cow::Borrowed(WORDS[8]));
    fn pred(&self) -> Option<Self> { let i = self.ix(); if i == 0 { None } else { Some(Self::own(i - 1)) } }
    fn succ(&self) -> Option<Self> { let i = self.ix(); if i == 8 { None } else { Some(Self::own(i + 1)) } }
}

/// Pairs in lexicographic order; succ carries.
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub struct Pair(pub bool, pub i8);
const PL: i8 = -2;
const PH: i8 = 4;
impl Pair {
    pub fn chain() -> Vec<Self> {
        [false, true].into_iter().flat_map(|b| (PL..=PH).map(move |i| Pair(b, i))).collect()
    }
}
impl Finite for Pair {
    const MINIMUM: Self = Pair(false, PL);
    const MAXIMUM: Self = Pair(true, PH);
    fn pred(&self) -> Option<Self> {
        if self.1 > PL { Some(Pair(self.0, self.1 - 1)) } else if self.0 { Some(Pair(false, PH)) } else { None }
    }
    fn succ(&self) -> Option<Self> {
        if self.1 < PH { Some(Pair(self.0, self.1 + 1)) } else if self.0 { None } else { Some(Pair(true, PL)) }
    }
}

// ---------------------------------------------------------------------------
// Built-in integers.

pub trait Int: Elem + Copy {
    const NAME: &'static str;
    const BITS: u32;
    const SIGNED: bool;
    const LAST: u128;
    /// the value `off` places above the minimum
    fn at(off: u128) -> Self;
    fn off(self) -> u128;
    fn bytes(self) -> Vec<u8>;
}
macro_rules! int { ($($t:ident $u:ident $s:expr),*) => { $(
    impl Int for $t {
        const NAME: &'static str = stringify!($t);
        const BITS: u32 = <$t>::BITS;
        const SIGNED: bool = $s;
        const LAST: u128 = <$u>::MAX as u128;
        fn at(off: u128) -> Self { <$t>::MIN.wrapping_add(off as $t) }
        fn off(self) -> u128 { (self.wrapping_sub(<$t>::MIN)) as $u as u128 }
        fn bytes(self) -> Vec<u8> { self.to_le_bytes().to_vec() }
    } )* } }
int!(u8 u8 false, u16 u16 false, u32 u32 false, u64 u64 false, u128 u128 false, usize usize false,
     i8 u8 true, i16 u16 true, i32 u32 true, i64 u64 true, i128 u128 true, isize usize true);

fn int_emb<T: Int>(name: &str, starts: &[u128]) -> FinEmb<T> {
    let mut e = FinEmb { name: format!("{}/{}", T::NAME, name), lo: vec![], hi: vec![], probes: vec![], sizes: vec![] };
    assert!(starts[0] == 0 && starts.windows(2).all(|w| w[0] < w[1]) && *starts.last().unwrap() <= T::LAST);
    for (i, &s) in starts.iter().enumerate() {
        let end = starts.get(i + 1).map_or(T::LAST, |x| x - 1);
        e.lo.push(T::at(s));
        e.hi.push(T::at(end));
        let mut p = vec![s, end, s + (end - s) / 2, if s < end { s + 1 } else { s }, if s < end { end - 1 } else { s }];
        p.sort_unstable();
        p.dedup();
        e.probes.push(p.into_iter().map(T::at).collect());
        e.sizes.push((end - s).saturating_add(1));
    }
    e
}
pub const LAYOUTS: [&str; 7] = ["both", "low", "high", "mid", "even", "rand0", "rand1"];
pub fn layout<T: Int>(which: &str, k: usize, seed: u64) -> FinEmb<T> {
    let kk = k as u128;
    let l = T::LAST;
    let starts: Vec<u128> = match which {
        "low" => (0..kk).collect(),
        "high" => std::iter::once(0).chain((0..kk - 1).map(|i| l - (kk - 2) + i)).collect(),
        "both" => { let a = kk / 2; (0..=a).chain((a + 1..kk).map(|i| l - (kk - 1 - i))).collect() }
        "mid" => std::iter::once(0).chain((1..kk).map(|i| l / 2 - kk / 2 + i)).collect(),
        "even" => (0..kk).map(|i| i * (l / kk)).collect(),
        _ => {
            let mut r = Rng::new(seed, &format!("{}{which}{k}", T::NAME));
            let mut s = vec![0];
            while s.len() < k {
                let bits = 1 + r.below(T::BITS as usize) as u32;
                let mut x = r.u128() >> (128 - bits);
                if r.chance(1, 3) { x = l - x.min(l); }
                if x > 0 && x <= l && !s.contains(&x) { s.push(x); }
            }
            s.sort_unstable();
            s
        }
    };
    int_emb(which, &starts)
}

/// K blocks of an integer type: clusters of single values at its ends, around
/// its middle and at places of all magnitudes, and everything between them.
pub fn scattered<T: Int>(k: usize, seed: u64) -> FinEmb<T> {
    let l = T::LAST;
    let mut r = Rng::new(seed, &format!("scattered {} {k}", T::NAME));
    let mut s = std::collections::BTreeSet::from([0]);
    let mut centres = vec![0, l, l / 2, l / 2 + 1];
    while s.len() < k {
        let c = centres.pop().unwrap_or_else(|| {
            let x = r.u128() >> (128 - 1 - r.below(T::BITS as usize) as u32);
            let x = x.min(l);
            if r.chance(1, 3) { l - x } else { x }
        });
        let n = 1 + r.below(6) as u128;
        for x in c.saturating_sub(n / 2)..=c.saturating_add(n) { if x <= l && s.len() < k { s.insert(x); } }
    }
    int_emb("scattered", &s.into_iter().collect::<Vec<_>>())
}

/// Clusters of `n` single values of an integer type: at its ends, around its
/// middle, and around the 16-bit mark above that.
pub fn clusters<T: Int>(n: usize) -> FinEmb<T> {
    let (l, n) = (T::LAST, n as u128);
    let mut s = std::collections::BTreeSet::from([0]);
    for c in [0, l / 2 - n / 2, l / 2 + (1 << 16) - n / 2, l - n + 1] {
        for x in c..=c + (n - 1) { s.insert(x); }
        // the block after the cluster starts at its end
        if c + (n - 1) < l { s.insert(c + n); }
    }
    int_emb("clusters", &s.into_iter().collect::<Vec<_>>())
}

#[derive(Clone, Copy, PartialEq)]
pub enum Scope { Core, All, Points }

pub trait FinCheck: Clone + Send + 'static {
    fn run<T: Elem>(&self, e: &FinEmb<T>, c: &mut Ctx);
}
pub fn push<T: Elem, C: FinCheck>(jobs: &mut Jobs, check: &C, what: &str, e: FinEmb<T>) {
    let check = check.clone();
    jobs.push(Job { name: format!("{what} K={} on {}", e.k(), e.name), run: Box::new(move |c| check.run(&e, c)) });
}
fn chain_job<T: Elem, C: FinCheck>(jobs: &mut Jobs, check: &C, what: &str, name: &str, chain: &[T], k: usize, seed: u64) {
    if chain.len() == k {
        push(jobs, check, what, FinEmb::of_chain(name, chain, &(0..k).collect::<Vec<_>>()));
    } else if chain.len() > k {
        let mut r = Rng::new(seed, name);
        let mut s = vec![0];
        while s.len() < k { let x = 1 + r.below(chain.len() - 1); if !s.contains(&x) { s.push(x); } }
        s.sort_unstable();
        push(jobs, check, what, FinEmb::of_chain(name, chain, &s));
    }
}
fn int_jobs<T: Int, C: FinCheck>(jobs: &mut Jobs, check: &C, what: &str, k: usize, layouts: &[&str], seed: u64) {
    if (k as u128) > T::LAST / 4 || k < 2 { return; }
    for l in layouts { push(jobs, check, what, layout::<T>(l, k, seed)); }
}
/// One job per element type and layout of K positions.
pub fn add_fin<C: FinCheck>(jobs: &mut Jobs, check: &C, what: &str, k: usize, scope: Scope, seed: u64) {
    match k {
        1 => chain_job(jobs, check, what, "P", &P::<1>::chain(), k, seed),
        2 => chain_job(jobs, check, what, "P", &P::<2>::chain(), k, seed),
        3 => chain_job(jobs, check, what, "P", &P::<3>::chain(), k, seed),
        4 => chain_job(jobs, check, what, "P", &P::<4>::chain(), k, seed),
        5 => chain_job(jobs, check, what, "P", &P::<5>::chain(), k, seed),
        6 => chain_job(jobs, check, what, "P", &P::<6>::chain(), k, seed),
        7 => chain_job(jobs, check, what, "P", &P::<7>::chain(), k, seed),
        8 => chain_job(jobs, check, what, "P", &P::<8>::chain(), k, seed),
        9 => {
            chain_job(jobs, check, what, "P", &P::<9>::chain(), k, seed);
            chain_job(jobs, check, what, "Word", &Word::chain(), k, seed);
            if scope == Scope::All {
                chain_job(jobs, check, what, "Back", &Back::<9>::chain(), k, seed);
                chain_job(jobs, check, what, "Pair", &Pair::chain(), k, seed);
            }
        }
        _ => {}
    }
    if k >= 4 {
        match scope {
            Scope::Points => {
                int_jobs::<u8, C>(jobs, check, what, k, &["both"], seed);
                int_jobs::<i32, C>(jobs, check, what, k, &["both"], seed);
            }
            Scope::Core => {
                int_jobs::<u8, C>(jobs, check, what, k, &["both", "rand0"], seed);
                int_jobs::<i8, C>(jobs, check, what, k, &["low", "mid"], seed);
                int_jobs::<i32, C>(jobs, check, what, k, &["both", "high"], seed);
            }
            Scope::All => {
                macro_rules! all { ($($t:ident)*) => { $( int_jobs::<$t, C>(jobs, check, what, k, &LAYOUTS, seed); )* } }
                all!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
            }
        }
    }
}

// ---------------------------------------------------------------------------
// Ordered types for raw intervals and bound trees.

/// Total order on floats, for a genuinely dense element.
#[derive(Debug, Clone, Copy)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub struct F(pub f64);
impl F { fn key(&self) -> f64 { self.0 } }
impl PartialEq for F { fn eq(&self, o: &Self) -> bool { self.key() == o.key() } }
impl Eq for F {}
impl PartialOrd for F { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for F { fn cmp(&self, o: &Self) -> Ordering { self.key().total_cmp(&o.key()) } }
impl Hash for F { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.0.to_bits().hash(h) } }

pub trait DenseCheck: Clone + Send + 'static {
    fn run<T: Val>(&self, e: &DenseEmb<T>, c: &mut Ctx);
}
pub fn push_dense<T: Val, C: DenseCheck>(jobs: &mut Jobs, check: &C, what: &str, e: DenseEmb<T>) {
    let check = check.clone();
    jobs.push(Job { name: format!("{what} N={} on {}", e.n(), e.name), run: Box::new(move |c| check.run(&e, c)) });
}
pub fn dense_i32(n: usize) -> DenseEmb<i32> {
    // spaced, from the very bottom of the type to the very top
    let v: Vec<i32> = (0..n).map(|i| if i == 0 { i32::MIN } else if i == n - 1 { i32::MAX } else { -100 + 50 * i as i32 }).collect();
    let gaps = (0..=n).map(|i| if i == 0 || i == n { vec![] } else { vec![v[i - 1] + 1, v[i] - 1] }).collect();
    DenseEmb::new("i32 spaced", v, gaps)
}
pub fn dense_float(n: usize) -> DenseEmb<F> {
    let v: Vec<F> = (0..n).map(|i| F(i as f64 * 0.5 - 1.0)).collect();
    let gaps = (0..=n).map(|i| vec![F(i as f64 * 0.5 - 1.25), F(i as f64 * 0.5 - 1.0 - 1e-9)]).collect();
    DenseEmb::new("f64 total order", v, gaps)
}
pub fn dense_string(n: usize) -> DenseEmb<String> {
    let v: Vec<String> = (0..n).map(|i| "a".repeat(i)).collect();
    let gaps = (0..=n).map(|i| if i == 0 { vec![] } else if i == n { vec!["z".into()] } else { vec!["a".repeat(i - 1) + "!"] }).collect();
    DenseEmb::new("String", v, gaps)
}
pub fn dense_u8_top(n: usize) -> DenseEmb<u8> {
    let v: Vec<u8> = (0..n).map(|i| (255 - n + 1 + i) as u8).collect();
    let mut gaps = vec![vec![]; n + 1];
    gaps[0] = vec![0, (255 - n) as u8];
    DenseEmb::new("u8 adjacent at the top", v, gaps)
}
pub fn dense_pair(n: usize) -> DenseEmb<(i8, std::cmp::Reverse<i64>)> {
    use std::cmp::Reverse;
    let v: Vec<_> = (0..n).map(|i| ((i / 2) as i8, Reverse(if i % 2 == 0 { 7 } else { -7 }))).collect();
    let mut gaps: Vec<Vec<_>> = vec![vec![]; n + 1];
    gaps[0].push((-1, Reverse(0)));
    gaps[n].push((100, Reverse(0)));
    for i in 1..n { gaps[i].push(if i % 2 == 1 { (((i - 1) / 2) as i8, Reverse(0)) } else { (((i - 1) / 2) as i8, Reverse(-8)) }); }
    DenseEmb::new("(i8, Reverse<i64>)", v, gaps)
}
pub fn add_dense<C: DenseCheck>(jobs: &mut Jobs, check: &C, what: &str, n: usize, all: bool) {
    push_dense(jobs, check, what, dense_i32(n));
    push_dense(jobs, check, what, dense_string(n));
    if all {
        push_dense(jobs, check, what, dense_float(n));
        push_dense(jobs, check, what, dense_u8_top(n));
        push_dense(jobs, check, what, dense_pair(n));
    }
}
