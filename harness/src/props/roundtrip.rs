use crate::api::*;
use crate::fw::*;
use crate::gen::*;
use crate::{ensure, viol};
use ebi::api::decoder::ChunkId;
use ebi::encoder::ChunkOption;
use ebi::time::SegmentedExecutionTimes;

/// the quiet NaN that ends a chunk of the XOR codecs
const END_MARKER: u64 = 0x7ff8_0000_0000_0000;

/// All ways of decoding a whole file; each must agree with `expect`.
pub fn all_decodes(bytes: &[u8], what: &str) -> Result<Vec<(&'static str, Vec<f64>)>, Viol> {
    let mut outs = vec![];
    let mut d = open(bytes).map_err(|e| viol!("open-failed", "{what}: cannot open: {e}"))?;
    let whole = materialize(&mut d, None, None).map_err(|e| viol!("materialize-failed", "{what}: materialize: {e}"))?;
    outs.push(("materialize", whole));
    let nch = d.chunk_footers().len();
    let mut cat = vec![];
    for i in 0..nch {
        cat.extend(materialize(&mut d, None, Some(i)).map_err(|e| viol!("materialize-failed", "{what}: chunk {i}: {e}"))?);
    }
    outs.push(("per-chunk materialize", cat));
    let mut it = vec![];
    let mut de = vec![];
    for i in 0..nch {
        {
            let mut cr = es(d.chunk_reader(ChunkId::new(i))).map_err(|e| viol!("chunk-reader-failed", "{what}: chunk {i}: {e}"))?;
            let iter = es(cr.inner_mut().decompress_iter()).map_err(|e| viol!("iter-failed", "{what}: chunk {i}: {e}"))?;
            for x in iter {
                it.push(es(x).map_err(|e| viol!("iter-failed", "{what}: chunk {i}: {e}"))?);
            }
        }
        let mut cr = es(d.chunk_reader(ChunkId::new(i))).map_err(|e| viol!("chunk-reader-failed", "{what}: chunk {i}: {e}"))?;
        let s = es(cr.inner_mut().decompress(&mut SegmentedExecutionTimes::new())).map_err(|e| viol!("decompress-failed", "{what}: chunk {i}: {e}"))?;
        de.extend_from_slice(s);
    }
    outs.push(("decompress_iter", it));
    outs.push(("decompress", de));
    Ok(outs)
}

pub fn c01(c: &mut Case) -> CaseResult {
    let codec = LOSSLESS[c.index as usize % LOSSLESS.len()];
    let max = if c.tier == Tier::Thorough && c.rng.chance(1, 20) { 20000 } else { 3000 };
    // some single chunks with more records than 16 bits can number
    let long = (c.index / LOSSLESS.len() as u64) % 96 == 7;
    let n = if long { 65_537 + c.rng.usize(70_000) } else { gen_len(&mut c.rng, max) };
    let (vals, fam) = if long { gen_long(&mut c.rng, n) } else { gen_values(&mut c.rng, n) };
    let o = if long { ChunkOption::Full } else { gen_chunk(&mut c.rng, n) };
    c.count("single chunks of more than 65536 records", long as u64);
    let cfg = config_rand(&mut c.rng, codec, 0);
    let what = format!("{:?} {} {} {}", codec, FAMILIES[fam], show_chunk(o), show_vals(&vals));
    c.note(&what);
    let bytes = encode(&vals, o, cfg).map_err(|e| viol!(format!("encode-failed:{codec:?}"), "{what}: encode: {e}"))?;
    for (how, got) in all_decodes(&bytes, &what).map_err(|mut v| { v.key = format!("{}:{codec:?}", v.key); v })? {
        if let Some(d) = first_diff(&got, &vals) {
            return Err(viol!(format!("lossy:{codec:?}"), "{what}: {how} differs from the input: {d}"));
        }
        // the XOR codecs use one NaN pattern as an end marker; that one may come back as another NaN
        let marker = |v: f64| codec.xor() && v.to_bits() == END_MARKER;
        if let Some(i) = (0..got.len()).find(|&i| got[i].to_bits() != vals[i].to_bits() && !marker(vals[i])) {
            return Err(viol!(format!("lossy-nan:{codec:?}"), "{what}: {how}: record {i} is {:#018x}, expected {:#018x}", got[i].to_bits(), vals[i].to_bits()));
        }
        c.count("values compared", got.len() as u64);
    }
    c.count(&format!("codec {:?}", codec), 1);
    c.count(&format!("family {}", FAMILIES[fam]), 1);
    c.nontrivial = vals.iter().any(|v| v.to_bits() != vals[0].to_bits()) || vals.len() > 1;
    c.sign(crate::rng::hash_bytes(&bytes[..bytes.len().min(4000)]));
    c.sign(fam as u64 ^ (codec as u64) << 8);
    Ok(())
}

pub fn tol(codec: Codec, k: u32) -> f64 {
    match codec {
        Codec::Buff => 2f64.powi(-(BUFF_BITS[k as usize] as i32)),
        _ => 0.5 / 10f64.powi(k as i32),
    }
}

pub fn c02(c: &mut Case) -> CaseResult {
    let codec = SCALED[(c.index % 2) as usize];
    let n = gen_len(&mut c.rng, 3000);
    let g = if codec == Codec::Sprintz && c.rng.chance(1, 12) { gen_huge(&mut c.rng, n) } else { gen_grid(&mut c.rng, codec, n) };
    let o = gen_chunk(&mut c.rng, n);
    let mut cfg = config_rand(&mut c.rng, codec, g.k);
    if g.style != "huge" && c.rng.chance(1, 6) {
        // a scale between two powers of ten
        cfg.set_scale(10u64.pow(g.k) * (2 + c.rng.below(8)));
        c.count("scales that are no power of ten", 1);
    }
    let what = format!("{:?} k={} {:?} {} {} {}", codec, g.k, cfg, g.style, show_chunk(o), show_vals(&g.vals));
    c.note(&what);
    let bytes = encode(&g.vals, o, cfg).map_err(|e| viol!(format!("encode-failed:{codec:?}"), "{what}: encode: {e}"))?;
    let s = 10f64.powi(g.k as i32);
    for (how, got) in all_decodes(&bytes, &what)? {
        ensure!(got.len() == g.vals.len(), format!("count:{codec:?}"), "{what}: {how} gave {} records", got.len());
        for (i, (&x, &v)) in got.iter().zip(&g.vals).enumerate() {
            let back = (x * s).round();
            ensure!(back == g.ints[i] as f64, format!("decimal-changed:{codec:?}"), "{what}: {how}: record {i} = {x:e} no longer rounds to {v:e} at {} decimals", g.k);
            let err = (x - v).abs();
            let t = tol(codec, g.k);
            let slack = v.abs() * 1e-15;
            ensure!(err < t + slack, format!("error-bound:{codec:?}"), "{what}: {how}: record {i} = {x:e} differs from {v:e} by {err:e} > {t:e}");
        }
        c.count("values compared", got.len() as u64);
    }
    c.count(&format!("codec {:?}", codec), 1);
    c.count(&format!("style {}", g.style), 1);
    c.nontrivial = n > 1;
    c.sign(crate::rng::hash_bytes(&bytes[..bytes.len().min(4000)]));
    Ok(())
}
