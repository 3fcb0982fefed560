//! Memory safety: hostile files and ordinary use, in builds that watch memory.
use super::files::{gen_input, u64at, HEADER};
use crate::api::*;
use crate::fw::*;
use crate::gen::*;
use crate::q::*;
use crate::world::*;
use crate::viol;
use ebi::api::decoder::{Aggregation, AggregationKind, ChunkId};
use ebi::time::SegmentedExecutionTimes;
use std::io::{Error, ErrorKind, Write};

/// Takes at most a few megabytes: a hostile file may claim any number of records.
struct Sink(usize);
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.len() > self.0 {
            return Err(Error::new(ErrorKind::Other, "sink full"));
        }
        self.0 -= b.len();
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn field(c: &mut Case, size: u64) -> u64 {
    match c.rng.below(7) {
        0 => 0,
        1 => c.rng.below(3),
        2 => size + c.rng.below(3),
        3 => c.rng.below(300),
        4 => u64::MAX - c.rng.below(3),
        5 => 1u64 << c.rng.below(64),
        _ => c.rng.u64(),
    }
}

/// Damage a file; header and footer mostly stay plausible so that it is opened.
fn damage(c: &mut Case, f: &mut Vec<u8>) -> String {
    let fo = u64at(f, 16) as usize;
    let chunks = u64at(f, fo + 8) as usize;
    let mut log = vec![];
    for _ in 0..1 + c.rng.usize(3) {
        let data = fo - HEADER;
        match c.rng.below(12) {
            // bit flips in chunk data, favouring the start of a chunk
            0..=4 if data > 0 => {
                let start = if c.rng.chance(2, 3) && chunks > 0 {
                    let i = c.rng.usize(chunks);
                    u64at(f, fo + 16 + 16 * i) as usize
                } else {
                    HEADER + c.rng.usize(data)
                };
                let len = c.rng.pick(&[1usize, 1, 1, 2, 4, 8, 40]);
                for _ in 0..len {
                    let at = (start + c.rng.usize(40)).min(fo - 1);
                    match c.rng.below(4) {
                        0 => f[at] = 0,
                        1 => f[at] = 0xff,
                        2 => f[at] ^= 1 << c.rng.below(8),
                        _ => f[at] = c.rng.u64() as u8,
                    }
                }
                log.push(format!("{len} bytes near {start}"));
            }
            // a 32- or 64-bit field at the start of a chunk
            5..=7 if data >= 8 && chunks > 0 => {
                let i = c.rng.usize(chunks);
                let at = u64at(f, fo + 16 + 16 * i) as usize + 4 * c.rng.usize(6);
                let v = field(c, data as u64);
                let w = c.rng.pick(&[1usize, 2, 4, 8]);
                if at + w <= fo {
                    f[at..at + w].copy_from_slice(&v.to_le_bytes()[..w]);
                    log.push(format!("{w} bytes at {at} = {v}"));
                }
            }
            // record counts
            8 => {
                let v = if c.rng.chance(1, 60) { field(c, 1000) } else { c.rng.below(70000) };
                f[fo..fo + 8].copy_from_slice(&v.to_le_bytes());
                log.push(format!("number of records {v}"));
            }
            9 if chunks > 1 => {
                let i = 1 + c.rng.usize(chunks - 1);
                let at = fo + 16 + 16 * i + if c.rng.chance(1, 2) { 8 } else { 0 };
                let old = u64at(f, at);
                let v = if c.rng.chance(1, 2) { old.wrapping_add(c.rng.below(9)).wrapping_sub(4) } else { c.rng.below(old.max(1) * 2 + 8) };
                f[at..at + 8].copy_from_slice(&v.to_le_bytes());
                log.push(format!("chunk table entry {i}: {old} -> {v}"));
            }
            // another codec (sizes of configurations often agree)
            10 => {
                f[5] = c.rng.below(13) as u8;
                log.push(format!("codec {}", f[5]));
            }
            11 => {
                // fields of the configuration
                let co = fo + 16 + 16 * chunks + 1;
                let at = co + c.rng.usize(12);
                if at < f.len() {
                    f[at] = c.rng.u64() as u8;
                    log.push(format!("configuration byte {}", at - co));
                }
            }
            _ => {}
        }
    }
    log.join(", ")
}

fn ordinary(c: &mut Case) -> CaseResult {
    const P: [(&str, super::PropFn); 13] = [
        ("C01", super::roundtrip::c01),
        ("C02", super::roundtrip::c02),
        ("C03", super::query::c03),
        ("C04", super::query::c04),
        ("C05", super::query::c05),
        ("C06", super::query::c06),
        ("C07", super::vector::c07),
        ("C08", super::vector::c08),
        ("C09", super::vector::c09),
        ("C11", super::files::c11),
        ("C17", super::lowlevel::c17),
        ("C18", super::lowlevel::c18),
        ("C21", super::extra::c21),
    ];
    let i = c.rng.usize(13);
    let mut k = Case::new(P[i].0, c.rng.u64(), c.index / 3, c.tier);
    // what the code answers is judged elsewhere; here only memory is watched
    let _ = guard(|| P[i].1(&mut k));
    c.count(&format!("ordinary use as in {}", P[i].0), 1);
    c.sign(k.sig);
    c.note(format!("ordinary use as in {}: {}", P[i].0, k.desc));
    c.nontrivial = k.nontrivial;
    Ok(())
}

/// C16: no file makes the reader touch memory that is not its own.
pub fn c16(c: &mut Case) -> CaseResult {
    if c.index % 3 == 2 {
        return ordinary(c);
    }
    let codec = ALL[c.rng.usize(ALL.len())];
    let n = 1 + gen_len(&mut c.rng, 400).min(1500);
    let o = gen_chunk(&mut c.rng, n);
    let (vals, k, grid) = gen_input(c, codec, n);
    let cfg = config_rand(&mut c.rng, codec, k);
    let good = encode(&vals, o, cfg).map_err(|e| viol!("encode-failed", "{codec:?}: {e}"))?;
    let mut f = good.clone();
    let log = damage(c, &mut f);
    let what = format!("{codec:?} k={k} {} {}: {log}", show_chunk(o), show_vals(&vals));
    c.note(&what);
    c.count(&format!("codec {codec:?}"), 1);
    c.sign(crate::rng::hash_bytes(&f[..f.len() - super::files::TAIL]));
    let Ran::Ok(Ok(mut d)) = guard(|| open(&f)) else {
        c.count("damaged files refused when opened", 1);
        return Ok(());
    };
    c.nontrivial = true;
    c.count("damaged files opened", 1);
    let bd = bounds(&d);
    let claimed = bd[bd.len() - 1];
    let plausible = bd[0] == 0 && bd.windows(2).all(|w| w[0] < w[1]) && claimed < 1 << 20;
    let w = World { codec, bytes: f.clone(), orig: vec![1.5; if plausible { claimed } else { n }], model: vec![], bounds: if plausible { bd.clone() } else { vec![0, n] }, option: o, grid, what };
    let outcome = |c: &mut Case, r: Ran<Result<bool, String>>| match r {
        Ran::Ok(Ok(_)) => c.count("requests answered", 1),
        Ran::Ok(Err(_)) => c.count("requests refused", 1),
        Ran::Panic(..) => c.count("requests ending in a panic", 1),
    };
    for _ in 0..6 {
        let q = gen_query(c, &w);
        let r = guard(|| q.run_to(&mut d, &mut Sink(4 << 20)).map(|_| true));
        let panicked = matches!(r, Ran::Panic(..));
        outcome(c, r);
        if panicked {
            let Ran::Ok(Ok(x)) = guard(|| open(&f)) else { return Ok(()) };
            d = x;
        }
    }
    // chunk readers: a history of requests on one reader
    for _ in 0..3 {
        let i = c.rng.usize(bd.len());
        let steps = 1 + c.rng.usize(4);
        let off = c.rng.usize(60);
        let t = vec![1.0; c.rng.usize(60)];
        let (m, _) = gen_mask(&mut c.rng, w.n(), &w.bounds);
        let p = match &w.grid {
            None => gen_pred(&mut c.rng, &w.orig),
            Some(g) => gen_pred_grid(&mut c.rng, g, codec),
        };
        let kinds: Vec<u64> = (0..steps).map(|_| c.rng.below(10)).collect();
        let mask = m.as_ref();
        let r = guard(|| -> Result<bool, String> {
            let mut cr = es(d.chunk_reader(ChunkId::new(i)))?;
            if c.rng.chance(1, 4) {
                cr.with_precision(c.rng.below(15) as u32);
            }
            let mut ok = true;
            for k in &kinds {
                // going on after an error is allowed
                let r: Result<(), String> = match k {
                    0 => es(cr.materialize(&mut Sink(1 << 20), mask)),
                    1 => es(cr.filter(p, mask).map(|_| ())),
                    2 => es(cr.filter_materialize(&mut Sink(1 << 20), p, mask)),
                    3 => es(cr.sum(mask).map(|_| ())),
                    4 => es(cr.min(mask).map(|_| ())),
                    5 => es(cr.max(mask).map(|_| ())),
                    6 => es(cr.distance_squared(off, &t).map(|_| ())),
                    7 => es(cr.dot_product(off, &t).map(|_| ())),
                    8 => es(cr.inner_mut().decompress(&mut SegmentedExecutionTimes::new()).map(|s| { std::hint::black_box(s.iter().fold(0u64, |a, x| a ^ x.to_bits())); })),
                    _ => es(cr.inner_mut().decompress_iter()).map(|it| { for x in it.take(5000) { if x.is_err() { break; } } }),
                };
                ok &= r.is_ok();
            }
            if ok { Ok(true) } else { Err("refused".into()) }
        });
        let panicked = matches!(r, Ran::Panic(..));
        outcome(c, r);
        if panicked {
            let Ran::Ok(Ok(x)) = guard(|| open(&f)) else { return Ok(()) };
            d = x;
        }
    }
    // as a column of an expression, next to an undamaged column
    if c.rng.chance(1, 3) {
        let e = super::vector::gen_expr(c, 2, 2);
        let kind = c.rng.pick(&[AggregationKind::None, AggregationKind::Sum, AggregationKind::Min]);
        let (m, _) = gen_mask(&mut c.rng, w.n(), &w.bounds);
        let r = guard(|| -> Result<bool, String> {
            let mut ds = [open(&f)?, open(&good)?];
            es(Aggregation::new(kind, e).compute(&mut ds, m.as_ref(), &mut SegmentedExecutionTimes::new())).map(|_| true)
        });
        outcome(c, r);
        c.count("expressions over damaged columns", 1);
    }
    // chunk by chunk: the chunks need not hold the same rows
    if c.rng.chance(1, 3) {
        let e = super::vector::gen_expr(c, 3, 2);
        let (m, _) = gen_mask(&mut c.rng, w.n(), &w.bounds);
        let n3 = 1 + c.rng.usize(n + 40);
        let third = encode(&vec![2.0; n3], gen_chunk(&mut c.rng, n3), config(ALL[c.rng.usize(ALL.len())], 0)).map_err(|e| viol!("encode-failed", "{codec:?}: {e}"))?;
        let mut order = [&f, &good, &third];
        order.swap(0, c.rng.usize(3));
        order.swap(1, 1 + c.rng.usize(2));
        let at = [c.rng.u64(), c.rng.u64(), c.rng.u64()];
        let r = guard(|| -> Result<bool, String> {
            let mut ds = order.iter().map(|b| open(b)).collect::<Result<Vec<_>, String>>()?;
            let mut rs = vec![];
            for (d, at) in ds.iter_mut().zip(at) {
                let k = (d.footer().number_of_chunks()).max(1);
                rs.push(es(d.chunk_reader(ChunkId::new((at % k) as usize)))?);
            }
            es(e.compute_chunk(&mut rs, m.as_ref(), &mut SegmentedExecutionTimes::new())).map(|v| {
                std::hint::black_box(v.iter().fold(0u64, |a, x| a ^ x.to_bits()));
                true
            })
        });
        outcome(c, r);
        c.count("expressions over chunks of different sizes", 1);
    }
    Ok(())
}
