//! Encoded sizes.
use super::files::{u64at, HEADER};
use crate::api::*;
use crate::fw::*;
use crate::gen::*;
use crate::{ensure, viol};
use ebi::encoder::ChunkOption;

fn body(vals: &[f64], codec: Codec, k: u32) -> Result<usize, Viol> {
    let b = encode(vals, ChunkOption::Full, config(codec, k)).map_err(|e| viol!(format!("encode-failed:{codec:?}"), "{codec:?} k={k} {}: {e}", show_vals(vals)))?;
    Ok(u64at(&b, 16) as usize - HEADER)
}

/// C24: what the codecs are for.
pub fn c24(c: &mut Case) -> CaseResult {
    let codec = ALL[(c.index % 12) as usize];
    let n = match c.rng.below(4) {
        0 => 1 + c.rng.usize(20),
        1 => 1000 + c.rng.usize(3000),
        _ => 100 + c.rng.usize(900),
    };
    let kind = c.rng.below(4);
    let mut k = 0;
    // (bits per record, bytes) the chunk may take
    let (vals, per, fixed, name): (Vec<f64>, f64, f64, &str) = if codec.scaled() {
        let g = gen_grid(&mut c.rng, codec, n);
        k = g.k;
        let (lo, hi) = (*g.ints.iter().min().unwrap(), *g.ints.iter().max().unwrap());
        let bits = |x: f64| (x + 1.0).log2().ceil();
        let per = match codec {
            // whole part of the range, fraction, one bit for a carry
            Codec::Buff => bits((hi - lo) as f64 / 10f64.powi(k as i32)) + BUFF_BITS[k as usize] as f64 + 1.0,
            _ => bits(g.ints.windows(2).map(|w| (w[1] - w[0]).unsigned_abs()).max().unwrap_or(0) as f64) + 2.0,
        };
        (g.vals, per, 32.0, "decimals")
    } else if kind == 0 {
        let x = Some(gen_values(&mut c.rng, 1).0[0]).filter(|x| !x.is_nan()).unwrap_or(1.5);
        let per = match codec {
            Codec::Uncompressed => 64.0,
            Codec::Gorilla => 1.0,
            Codec::Chimp => 2.0,
            Codec::Chimp128 => 9.0,
            Codec::Elf | Codec::ElfOnChimp => 4.0,
            Codec::Snappy => 4.0,
            _ => 0.5,
        };
        (vec![x; n], per, 64.0, "one value")
    } else if kind == 1 && matches!(codec, Codec::Elf | Codec::ElfOnChimp) {
        // one decade of decimals; what Elf keeps of one are the sign, the exponent and the bits the decimal places need
        let d = c.rng.below(12) as i64;
        let digits = 2 + c.rng.range(0, 12.min(d + 7));
        let mixed = c.rng.chance(1, 3);
        let v: Vec<f64> = (0..n)
            .map(|_| {
                let m = if mixed { 2 + c.rng.range(0, digits - 2) } else { digits };
                let x = decimal(c.rng.range(10i64.pow(m as u32 - 1), 10i64.pow(m as u32) - 1), d as u32);
                if c.rng.chance(1, 4) {
                    -x
                } else {
                    x
                }
            })
            .collect();
        let f = (d as f64 * std::f64::consts::LOG2_10).ceil();
        let keep = v.iter().map(|x| (12.0 + f + x.abs().log2().floor()).clamp(12.0, 64.0));
        let keep = if mixed { keep.fold(0.0, f64::max) } else { keep.sum::<f64>() / n as f64 };
        (v, keep + if codec == Codec::Elf { 9.0 } else { 13.0 } + if mixed { 5.0 } else { 0.0 }, 64.0, "short decimals")
    } else if kind == 1 && codec == Codec::Chimp128 {
        let p = 1 + c.rng.usize(60);
        let base: Vec<f64> = (0..p).map(|_| f64::from_bits(c.rng.u64() & 0x3fff_ffff_ffff_ffff)).collect();
        let v: Vec<f64> = (0..n).map(|i| base[i % p]).collect();
        // values that share the low bits hide one another
        let mut low: Vec<u64> = base.iter().map(|x| x.to_bits() & 0x3fff).collect();
        low.sort_unstable();
        low.dedup();
        let hidden = (p - low.len()) * 2;
        (v, 9.0 + 80.0 * hidden as f64 / p as f64, 64.0 + 10.0 * p as f64, "repeated values")
    } else {
        let (v, _) = gen_values(&mut c.rng, n);
        let per = match codec {
            Codec::Uncompressed => 64.0,
            Codec::Rle => 72.0,
            Codec::Zstd | Codec::Gzip | Codec::Snappy => 66.0,
            Codec::Gorilla | Codec::Chimp | Codec::Chimp128 => 80.0,
            _ => 88.0,
        };
        (v, per, 128.0, "any values")
    };
    let size = body(&vals, codec, k)?;
    let what = format!("{codec:?} k={k} {name} {}", show_vals(&vals));
    c.note(format!("{what}: {size} bytes"));
    let key = |s: &str| format!("{s}:{codec:?}");
    let most = per * n as f64 / 8.0 + fixed;
    ensure!(size as f64 <= most, key("too-big"), "{what}: {size} bytes, at most {most:.0} expected ({:.1} bits per record)", size as f64 * 8.0 / n as f64);
    match codec {
        Codec::Uncompressed => ensure!(size == 8 * n, key("size"), "{what}: {size} bytes"),
        Codec::Rle => {
            // a run ends at another bit pattern (comparison may tell zeros apart or not) or after 255 records
            let runs = |same: fn(f64, f64) -> bool| -> usize {
                let (mut r, mut len) = (0, 0);
                for i in 0..n {
                    if i == 0 || len == 255 || !same(vals[i - 1], vals[i]) {
                        r += 1;
                        len = 0;
                    }
                    len += 1;
                }
                r
            };
            let most = runs(|a, b| a == b && a.to_bits() == b.to_bits());
            ensure!(size <= 16 + 9 * most, key("too-many-runs"), "{what}: {size} bytes for {most} runs");
        }
        _ => {}
    }
    c.count(&format!("codec {codec:?}"), 1);
    c.count(&format!("sizes of {name}"), 1);
    c.nontrivial = n > 1;
    c.sign(size as u64 ^ (n as u64) << 24 ^ (codec as u64) << 48);
    c.sign(vals[n / 2].to_bits());
    Ok(())
}
