//! Saving and loading values (C21), and a subject that reloads every value it
//! produces, so that any history can be replayed with a save and load at every
//! point of it.
use crate::ctx::Ctx;
use crate::subject::*;
use crate::tables::Range;
use crate::types::*;
use serde::{de::DeserializeOwned, Serialize};
use std::cell::Cell;
use std::fmt::Debug;
use std::hash::Hash;

pub const FORMATS: usize = 3;
pub fn reload<V: Serialize + DeserializeOwned>(v: &V, format: usize) -> Result<V, String> {
    match format % FORMATS {
        0 => serde_json::to_string(v).map_err(|e| e.to_string()).and_then(|s| serde_json::from_str(&s).map_err(|e| format!("{e} in {s}"))),
        1 => bincode::serialize(v).map_err(|e| e.to_string()).and_then(|s| bincode::deserialize(&s).map_err(|e| e.to_string())),
        // from a stream: nothing can be borrowed from the text
        _ => serde_json::to_vec_pretty(v).map_err(|e| e.to_string())
            .and_then(|s| serde_json::from_reader(&s[..]).map_err(|e| format!("{e} in {}", String::from_utf8_lossy(&s)))),
    }
}
/// A value comes back equal, in every format, and saves to the same text.
pub fn round_trip<V: Serialize + DeserializeOwned + PartialEq + Hash + Debug>(v: &V, c: &mut Ctx, what: &dyn Fn() -> String) -> bool {
    for f in 0..FORMATS {
        let g = c.guard(|| reload(v, f).map(|x| (x == *v, *v == x, hash_of(&x) == hash_of(v),
            serde_json::to_string(&x).ok() == serde_json::to_string(v).ok()))).and_then(|x| x);
        if !c.expect(&g, &Ok((true, true, true, true)), || format!("(==, reversed ==, equal hashes, saves alike) of {} and what loads back (format {f})", what())) { return false; }
    }
    c.traces += 1;
    true
}

pub struct Saved<S>(pub S, Cell<usize>);
impl<S> Saved<S> {
    pub fn new(s: S) -> Self { Self(s, Cell::new(0)) }
}
impl<S: Subject> Saved<S> where S::V: Saveable {
    fn again(&self, v: S::V) -> S::V {
        let n = self.1.get();
        self.1.set(n + 1);
        reload(&v, n).unwrap_or_else(|e| panic!("{v:?} does not load: {e}"))
    }
}
impl<S: Subject> Subject for Saved<S> where S::V: Saveable {
    type V = S::V;
    fn k(&self) -> usize { self.0.k() }
    fn empty(&self) -> Self::V { self.again(self.0.empty()) }
    fn full(&self) -> Self::V { self.again(self.0.full()) }
    fn from_arg(&self, r: Range, style: usize) -> Self::V { self.again(self.0.from_arg(r, style)) }
    fn edit(&self, op: usize, v: &mut Self::V, r: Range, style: usize) {
        self.0.edit(op, v, r, style);
        *v = self.again(v.clone());
    }
    fn binary(&self, op: usize, a: &Self::V, b: &Self::V) -> Self::V { self.again(self.0.binary(op, a, b)) }
    fn complement(&self, a: &Self::V) -> Self::V { self.again(self.0.complement(a)) }
    fn meets(&self, a: &Self::V, b: &Self::V) -> Option<bool> { self.0.meets(a, b) }
    fn collect(&self, rs: &[Range], style: usize) -> Self::V { self.again(self.0.collect(rs, style)) }
    fn extend(&self, v: &mut Self::V, rs: &[Range], style: usize) {
        self.0.extend(v, rs, style);
        *v = self.again(v.clone());
    }
    fn runs(&self, v: &Self::V) -> Result<Vec<Range>, String> { self.0.runs(v) }
    fn into_runs(&self, v: Self::V) -> Result<Vec<Range>, String> { self.0.into_runs(v) }
    fn members(&self, v: &Self::V) -> Vec<(usize, bool)> { self.0.members(v) }
    fn alternative(&self, rs: &[Range], which: usize) -> Option<Self::V> { self.0.alternative(rs, which).map(|v| self.again(v)) }
}
