//! A generated file plus the model of what it holds.
use crate::api::*;
use crate::fw::*;
use crate::gen::*;
use crate::viol;
use ebi::decoder::query::{Predicate, RangeValue};
use ebi::encoder::ChunkOption;
use roaring::RoaringBitmap;

pub struct World {
    pub codec: Codec,
    pub bytes: Vec<u8>,
    /// the records as handed to the encoder
    pub orig: Vec<f64>,
    /// the records the file decodes to (= orig for the lossless codecs)
    pub model: Vec<f64>,
    pub bounds: Vec<usize>,
    pub option: ChunkOption,
    pub grid: Option<Grid>,
    pub what: String,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Data {
    /// any f64, including NaN and infinities
    Any,
    /// exactly summable, no NaN
    Dyadic,
}

pub fn world_of(c: &mut Case, codec: Codec, n: usize, data: Data, o: ChunkOption) -> Result<World, Viol> {
    let (orig, grid, style) = if codec.scaled() {
        let g = gen_grid(&mut c.rng, codec, n);
        (g.vals.clone(), Some(g), "grid".to_string())
    } else if data == Data::Dyadic {
        (gen_dyadic(&mut c.rng, n), None, "dyadic".to_string())
    } else {
        let (v, f) = gen_values(&mut c.rng, n);
        (v, None, FAMILIES[f].to_string())
    };
    world_from(c, codec, orig, grid, &style, o)
}

pub fn world_from(c: &mut Case, codec: Codec, orig: Vec<f64>, grid: Option<Grid>, style: &str, o: ChunkOption) -> Result<World, Viol> {
    let k = grid.as_ref().map_or(0, |g| g.k);
    let cfg = config_rand(&mut c.rng, codec, k);
    let what = format!("{:?} k={} {} {} {}", codec, k, style, show_chunk(o), show_vals(&orig));
    c.note(&what);
    let bytes = encode(&orig, o, cfg).map_err(|e| viol!("encode-failed", "{what}: encode: {e}"))?;
    let mut d = open(&bytes).map_err(|e| viol!("open-failed", "{what}: open: {e}"))?;
    let model = if codec.scaled() {
        let m = materialize(&mut d, None, None).map_err(|e| viol!("materialize-failed", "{what}: {e}"))?;
        if m.len() != orig.len() {
            return Err(viol!("count", "{what}: materialize gave {} records", m.len()));
        }
        m
    } else {
        orig.clone()
    };
    let bounds = bounds(&d);
    if bounds[bounds.len() - 1] != orig.len() || bounds[0] != 0 || bounds.windows(2).any(|w| w[0] >= w[1]) && !orig.is_empty() {
        return Err(viol!("bounds", "{what}: chunk boundaries {:?} do not tile {} records", &bounds[..bounds.len().min(20)], orig.len()));
    }
    c.count(&format!("codec {:?}", codec), 1);
    c.sign(crate::rng::hash_bytes(&bytes[..bytes.len().min(3000)]));
    Ok(World { codec, bytes, orig, model, bounds, option: o, grid, what })
}

impl World {
    pub fn n(&self) -> usize {
        self.orig.len()
    }
    pub fn nchunks(&self) -> usize {
        self.bounds.len() - 1
    }
    pub fn open(&self) -> Result<Dec, Viol> {
        open(&self.bytes).map_err(|e| viol!("open-failed", "{}: open: {e}", self.what))
    }
    /// record numbers selected by mask and chunk
    pub fn selected(&self, m: Mask, chunk: Option<usize>) -> Vec<usize> {
        let (a, b) = match chunk {
            None => (0, self.n()),
            Some(i) if i < self.nchunks() => (self.bounds[i], self.bounds[i + 1]),
            Some(_) => (0, 0),
        };
        (a..b).filter(|&i| m.is_none_or(|bm| bm.contains(i as u32))).collect()
    }
    pub fn key(&self, k: &str) -> String {
        format!("{k}:{:?}", self.codec)
    }
}

pub fn show_mask(m: Mask) -> String {
    match m {
        None => "no mask".into(),
        Some(b) => format!("mask[{} set, {:?}..{:?}]", b.len(), b.min(), b.max()),
    }
}

/// Reference semantics of a predicate on a plain f64.
pub fn eval(p: &Predicate, v: f64) -> bool {
    match p {
        Predicate::Eq(x) => v == *x,
        Predicate::Ne(x) => v != *x,
        Predicate::Range(r) => {
            (match r.start() {
                RangeValue::Inclusive(x) => v >= x,
                RangeValue::Exclusive(x) => v > x,
                RangeValue::None => true,
            }) && (match r.end() {
                RangeValue::Inclusive(x) => v <= x,
                RangeValue::Exclusive(x) => v < x,
                RangeValue::None => true,
            })
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tri {
    Yes,
    No,
    /// the specification does not decide (predicate point off the decimal grid and within one quantum of the value)
    Open,
}
impl Tri {
    fn of(b: bool) -> Tri {
        if b {
            Tri::Yes
        } else {
            Tri::No
        }
    }
    fn not(self) -> Tri {
        match self {
            Tri::Yes => Tri::No,
            Tri::No => Tri::Yes,
            x => x,
        }
    }
    fn and(self, o: Tri) -> Tri {
        match (self, o) {
            (Tri::No, _) | (_, Tri::No) => Tri::No,
            (Tri::Yes, Tri::Yes) => Tri::Yes,
            _ => Tri::Open,
        }
    }
}

/// Comparison of a grid record (i / 10^k) with a predicate point: None if undecided.
fn cmp_grid(i: i64, k: u32, p: f64) -> Option<std::cmp::Ordering> {
    let v = grid_value(i, k);
    if p == v {
        return Some(std::cmp::Ordering::Equal);
    }
    let j = (p * 10f64.powi(k as i32)).round();
    if j.abs() < 9e15 && grid_value(j as i64, k) == p {
        return Some(i.cmp(&(j as i64)));
    }
    let q = 1.01 / 10f64.powi(k as i32);
    if (v - p).abs() > q {
        return v.partial_cmp(&p);
    }
    None
}

pub fn eval_grid(p: &Predicate, i: i64, k: u32) -> Tri {
    use std::cmp::Ordering::*;
    let rel = |x: f64, f: fn(std::cmp::Ordering) -> bool| -> Tri {
        if x.is_nan() {
            return Tri::No;
        }
        match cmp_grid(i, k, x) {
            Some(o) => Tri::of(f(o)),
            None => Tri::Open,
        }
    };
    match p {
        Predicate::Eq(x) => rel(*x, |o| o == Equal),
        Predicate::Ne(x) => {
            if x.is_nan() {
                Tri::Yes
            } else {
                rel(*x, |o| o == Equal).not()
            }
        }
        Predicate::Range(r) => {
            let s = match r.start() {
                RangeValue::Inclusive(x) => rel(x, |o| o != Less),
                RangeValue::Exclusive(x) => rel(x, |o| o == Greater),
                RangeValue::None => Tri::Yes,
            };
            let e = match r.end() {
                RangeValue::Inclusive(x) => rel(x, |o| o != Greater),
                RangeValue::Exclusive(x) => rel(x, |o| o == Less),
                RangeValue::None => Tri::Yes,
            };
            s.and(e)
        }
    }
}

impl World {
    pub fn expect(&self, p: &Predicate, i: usize) -> Tri {
        match &self.grid {
            None => Tri::of(eval(p, self.orig[i])),
            Some(g) => eval_grid(p, g.ints[i], g.k),
        }
    }
    /// Judge the result of a filter; returns (records decided, records matched).
    pub fn judge_filter(&self, p: &Predicate, m: Mask, chunk: Option<usize>, got: &RoaringBitmap) -> Result<(u64, u64), Viol> {
        let sel = self.selected(m, chunk);
        let mut decided = 0;
        let mut in_sel = 0u64;
        for &i in &sel {
            let g = got.contains(i as u32);
            in_sel += g as u64;
            let w = self.expect(p, i);
            match w {
                Tri::Open => continue,
                Tri::Yes | Tri::No => {
                    decided += 1;
                    if g != (w == Tri::Yes) {
                        return Err(viol!(
                            self.key(if g { "false-match" } else { "missed-match" }),
                            "{}: filter {:?} {} chunk {:?}: record {} = {:e} {} although it {}",
                            self.what, p, show_mask(m), chunk, i, self.orig[i],
                            if g { "was returned" } else { "was not returned" },
                            if g { "does not match" } else { "matches" }
                        ));
                    }
                }
            }
        }
        if in_sel != got.len() {
            let extra: Vec<u32> = got.iter().filter(|x| sel.binary_search(&(*x as usize)).is_err()).take(3).collect();
            return Err(viol!(self.key("unselected-match"), "{}: filter {:?} {} chunk {:?} returned records that were not selected: {:?}", self.what, p, show_mask(m), chunk, extra));
        }
        Ok((decided, in_sel))
    }
}

/// Predicates for this world.
pub fn world_pred(c: &mut Case, w: &World) -> Predicate {
    match &w.grid {
        None => gen_pred(&mut c.rng, &w.orig),
        Some(g) => {
            if c.rng.chance(1, 8) {
                // off the grid, NaN, specials
                gen_pred(&mut c.rng, &w.orig)
            } else {
                gen_pred_grid(&mut c.rng, g, w.codec)
            }
        }
    }
}

pub fn gen_chunk_sel(c: &mut Case, w: &World) -> Option<usize> {
    if w.nchunks() == 0 || c.rng.chance(2, 3) {
        None
    } else {
        Some(c.rng.usize(w.nchunks()))
    }
}
