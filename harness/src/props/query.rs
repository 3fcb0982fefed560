use crate::api::*;
use crate::fw::*;
use crate::gen::*;
use crate::world::*;
use crate::{ensure, viol};
use ebi::api::decoder::{ChunkId, Decoder, DecoderInput};

fn mk(c: &mut Case, data: Data, max: usize) -> Result<World, Viol> {
    let codec = ALL[c.index as usize % ALL.len()];
    let n = gen_len(&mut c.rng, max);
    let o = gen_chunk(&mut c.rng, n);
    world_of(c, codec, n, data, o)
}

/// C03: materialize with mask / chunk selection returns exactly the selected records, in order.
pub fn c03(c: &mut Case) -> CaseResult {
    let w = mk(c, Data::Any, 2000)?;
    let mut d = w.open()?;
    for _ in 0..4 {
        let (m, mk) = gen_mask(&mut c.rng, w.n(), &w.bounds);
        let ch = gen_chunk_sel(c, &w);
        let sel = w.selected(m.as_ref(), ch);
        let want: Vec<f64> = sel.iter().map(|&i| w.model[i]).collect();
        let q = format!("{} materialize {} chunk {:?}", w.what, show_mask(m.as_ref()), ch);
        let got = materialize(&mut d, m.as_ref(), ch).map_err(|e| viol!(w.key("materialize-failed"), "{q}: {e}"))?;
        if let Some(x) = first_diff(&got, &want) {
            return Err(viol!(w.key("selection"), "{q}: {x}"));
        }
        c.count("queries", 1);
        c.count(&format!("mask {mk}"), 1);
        c.count("records compared", got.len() as u64);
        if ch.is_some() {
            c.count("single-chunk queries", 1);
        }
        // the same at the chunk reader
        if w.nchunks() > 0 && c.rng.chance(1, 2) {
            let i = c.rng.usize(w.nchunks());
            let want: Vec<f64> = w.selected(m.as_ref(), Some(i)).iter().map(|&i| w.model[i]).collect();
            let mut cr = es(d.chunk_reader(ChunkId::new(i))).map_err(|e| viol!(w.key("chunk-reader-failed"), "{q}: {e}"))?;
            let mut buf = Vec::new();
            es(cr.materialize(&mut buf, m.as_ref())).map_err(|e| viol!(w.key("materialize-failed"), "{q}: chunk reader {i}: {e}"))?;
            if let Some(x) = first_diff(&to_f64(&buf), &want) {
                return Err(viol!(w.key("selection"), "{q}: chunk reader {i}: {x}"));
            }
            c.count("chunk-reader queries", 1);
        }
        c.nontrivial |= !want.is_empty() && want.len() < w.n();
    }
    Ok(())
}

/// C04: filter returns exactly the selected records satisfying the predicate.
pub fn c04(c: &mut Case) -> CaseResult {
    let w = mk(c, Data::Any, 1500)?;
    let mut d = w.open()?;
    for _ in 0..6 {
        let (m, mkind) = gen_mask(&mut c.rng, w.n(), &w.bounds);
        let ch = gen_chunk_sel(c, &w);
        let p = world_pred(c, &w);
        let q = format!("{}: filter {:?} {} chunk {:?}", w.what, p, show_mask(m.as_ref()), ch);
        let got = filter(&mut d, p, m.as_ref(), ch).map_err(|e| viol!(w.key("filter-failed"), "{q}: {e}"))?;
        let (dec, hit) = w.judge_filter(&p, m.as_ref(), ch, &got)?;
        c.count("queries", 1);
        c.count("records decided", dec);
        c.count("records matched", hit);
        c.count(&format!("mask {mkind}"), 1);
        if w.nchunks() > 0 && c.rng.chance(1, 3) {
            let i = c.rng.usize(w.nchunks());
            let mut cr = es(d.chunk_reader(ChunkId::new(i))).map_err(|e| viol!(w.key("chunk-reader-failed"), "{q}: {e}"))?;
            let got = es(cr.filter(p, m.as_ref())).map_err(|e| viol!(w.key("filter-failed"), "{q}: chunk reader {i}: {e}"))?;
            w.judge_filter(&p, m.as_ref(), Some(i), &got)?;
            c.count("chunk-reader queries", 1);
        }
        c.nontrivial |= hit > 0 && hit < dec;
    }
    Ok(())
}

/// C05: filter_materialize writes exactly the records filter selects.
pub fn c05(c: &mut Case) -> CaseResult {
    let w = mk(c, Data::Any, 1500)?;
    let mut d = w.open()?;
    for _ in 0..4 {
        let (m, _) = gen_mask(&mut c.rng, w.n(), &w.bounds);
        let ch = gen_chunk_sel(c, &w);
        let p = world_pred(c, &w);
        let q = format!("{}: filter_materialize {:?} {} chunk {:?}", w.what, p, show_mask(m.as_ref()), ch);
        let got = filter_materialize(&mut d, p, m.as_ref(), ch).map_err(|e| viol!(w.key("filter-materialize-failed"), "{q}: {e}"))?;
        // against the model: every written value must be explained, in order
        let sel = w.selected(m.as_ref(), ch);
        let mut j = 0;
        for &i in &sel {
            match w.expect(&p, i) {
                Tri::Yes => {
                    ensure!(j < got.len() && same(got[j], w.model[i]), w.key("wrong-output"), "{q}: output {j} is {:?}, expected record {i} = {:e}", got.get(j), w.model[i]);
                    j += 1;
                }
                Tri::No => {}
                Tri::Open => {
                    if j < got.len() && same(got[j], w.model[i]) {
                        j += 1;
                    }
                }
            }
        }
        ensure!(j == got.len(), w.key("wrong-output"), "{q}: wrote {} values, {} are explained", got.len(), j);
        // against the two-step form
        let bm = filter(&mut d, p, m.as_ref(), ch).map_err(|e| viol!(w.key("filter-failed"), "{q}: {e}"))?;
        let two = materialize(&mut d, Some(&bm), ch).map_err(|e| viol!(w.key("materialize-failed"), "{q}: {e}"))?;
        let open = sel.iter().any(|&i| w.expect(&p, i) == Tri::Open);
        if !open {
            if let Some(x) = first_diff(&got, &two) {
                return Err(viol!(w.key("two-step"), "{q}: differs from materialize(filter): {x}"));
            }
        }
        c.count("queries", 1);
        c.count("values written", got.len() as u64);
        c.nontrivial |= !got.is_empty() && got.len() < sel.len();
    }
    Ok(())
}

/// C06: sum / min / max over the selection.
pub fn c06(c: &mut Case) -> CaseResult {
    if c.index == 29 {
        return giant(c);
    }
    let codec = ALL[c.index as usize % ALL.len()];
    if c.rng.chance(if codec == Codec::Buff { 3 } else { 1 }, 80) {
        return peaks(c, codec);
    }
    let big = c.rng.chance(1, 60);
    let n = if big { 4000 + c.rng.usize(20000) } else { gen_len(&mut c.rng, 1500) };
    let o = if big { ebi::encoder::ChunkOption::Full } else { gen_chunk(&mut c.rng, n) };
    let w = if codec == Codec::Sprintz && c.rng.chance(1, 8) {
        let g = gen_huge(&mut c.rng, n);
        c.count("sums beyond 64 bits", 1);
        world_from(c, codec, g.vals.clone(), Some(g), "huge", o)?
    } else if !codec.scaled() && c.rng.chance(1, 4) {
        c.count("arbitrary floats", 1);
        let (mut v, f) = gen_values(&mut c.rng, n);
        if c.rng.chance(1, 8) {
            // chunks or whole files without a number
            let all = c.rng.chance(1, 2);
            let a = if all { 0 } else { c.rng.usize(n + 1) };
            let b = if all { n } else { a + c.rng.usize(n - a + 1) };
            v[a..b].fill(f64::NAN);
        }
        for x in v.iter_mut().filter(|x| x.is_nan()) {
            // what the processor makes of a signalling NaN is open
            *x = f64::from_bits(x.to_bits() | 1 << 51);
        }
        world_from(c, codec, v, None, FAMILIES[f], o)?
    } else {
        world_of(c, codec, n, Data::Dyadic, o)?
    };
    let mut d = w.open()?;
    for _ in 0..4 {
        let (m, mkind) = gen_mask(&mut c.rng, w.n(), &w.bounds);
        let ch = gen_chunk_sel(c, &w);
        let sel = w.selected(m.as_ref(), ch);
        let q = format!("{}: aggregate {} chunk {:?} ({} records)", w.what, show_mask(m.as_ref()), ch, sel.len());
        let id = ch.map(ChunkId::new);
        let s = es(d.sum(m.as_ref(), id)).map_err(|e| viol!(w.key("sum-failed"), "{q}: sum: {e}"))?;
        judge_sum(&w, &sel, s, &q)?;
        let mn = es(d.min(m.as_ref(), id)).map_err(|e| viol!(w.key("min-failed"), "{q}: min: {e}"))?;
        judge_minmax(&w, &sel, mn, true, &q)?;
        let mx = es(d.max(m.as_ref(), id)).map_err(|e| viol!(w.key("max-failed"), "{q}: max: {e}"))?;
        judge_minmax(&w, &sel, mx, false, &q)?;
        c.count("queries", 3);
        c.count("records aggregated", sel.len() as u64);
        c.count(&format!("mask {mkind}"), 1);
        c.count("empty selections", sel.is_empty() as u64);
        if w.nchunks() > 0 && c.rng.chance(1, 2) {
            let i = c.rng.usize(w.nchunks());
            let sel = w.selected(m.as_ref(), Some(i));
            let what = if sel.is_empty() { 0 } else { c.rng.below(3) };
            {
                let q = format!("{q}: chunk reader {i}");
                let mut cr = es(d.chunk_reader(ChunkId::new(i))).map_err(|e| viol!(w.key("chunk-reader-failed"), "{q}: {e}"))?;
                match what {
                    0 => judge_sum(&w, &sel, es(cr.sum(m.as_ref())).map_err(|e| viol!(w.key("sum-failed"), "{q}: {e}"))?, &q)?,
                    1 => judge_minmax(&w, &sel, es(cr.min(m.as_ref())).map_err(|e| viol!(w.key("min-failed"), "{q}: {e}"))?, true, &q)?,
                    _ => judge_minmax(&w, &sel, es(cr.max(m.as_ref())).map_err(|e| viol!(w.key("max-failed"), "{q}: {e}"))?, false, &q)?,
                }
                c.count("chunk-reader queries", 1);
            }
        }
        c.nontrivial |= sel.len() > 1;
    }
    Ok(())
}

/// A long chunk whose extremes are a few records far apart that agree in all but their last bits.
fn peaks(c: &mut Case, codec: Codec) -> CaseResult {
    let span = c.rng.pick(&[150_000, 12_000, 12_000]);
    let n = 3000 + c.rng.usize(span);
    let k = c.rng.below(3) as u32;
    let noise = 1i64 << c.rng.range(0, 12);
    let high = (1i64 << c.rng.range(8, 24)) * c.rng.pick(&[1, -1]);
    let near = 1i64 << c.rng.range(0, 9);
    let base = c.rng.range(-5000, 5000);
    let mut ints: Vec<i64> = (0..n).map(|_| base + c.rng.range(0, noise)).collect();
    for _ in 0..1 + c.rng.usize(6) {
        let at = match c.rng.below(8) { 0 => 0, 1 => n - 1, 2 => n - 1 - c.rng.usize(64), _ => c.rng.usize(n) };
        ints[at] = base + high + c.rng.range(0, near);
    }
    let vals: Vec<f64> = ints.iter().map(|&i| grid_value(i, k)).collect();
    let o = if c.rng.chance(2, 3) { ebi::encoder::ChunkOption::Full } else { ebi::encoder::ChunkOption::RecordCount(n / 2 + 1 + c.rng.usize(n / 2)) };
    let w = if codec.scaled() { world_from(c, codec, vals.clone(), Some(Grid { ints, vals, k, style: "peaks" }), "peaks", o)? } else { world_from(c, codec, vals, None, "peaks", o)? };
    let mut d = w.open()?;
    for _ in 0..3 {
        let m = match c.rng.below(4) {
            0 | 1 => None,
            2 => {
                let mut m: roaring::RoaringBitmap = (0..n as u32).collect();
                for _ in 0..c.rng.usize(20) {
                    m.remove(c.rng.usize(n) as u32);
                }
                Some(m)
            }
            _ => gen_mask(&mut c.rng, w.n(), &w.bounds).0,
        };
        let sel = w.selected(m.as_ref(), None);
        let q = format!("{}: aggregate {} ({} records)", w.what, show_mask(m.as_ref()), sel.len());
        judge_sum(&w, &sel, es(d.sum(m.as_ref(), None)).map_err(|e| viol!(w.key("sum-failed"), "{q}: {e}"))?, &q)?;
        judge_minmax(&w, &sel, es(d.min(m.as_ref(), None)).map_err(|e| viol!(w.key("min-failed"), "{q}: {e}"))?, true, &q)?;
        judge_minmax(&w, &sel, es(d.max(m.as_ref(), None)).map_err(|e| viol!(w.key("max-failed"), "{q}: {e}"))?, false, &q)?;
        c.count("queries", 3);
        c.count("records aggregated", sel.len() as u64);
    }
    c.count("few extremes in long chunks", 1);
    c.nontrivial = true;
    Ok(())
}

/// One chunk of seventeen million records: what is added up leaves 32 bits column by column.
fn giant(c: &mut Case) -> CaseResult {
    let n = 17_000_000usize;
    let v = 65535.0;
    let mut vals = vec![v; n];
    vals[1] = 0.0;
    for codec in [Codec::Buff, Codec::Sprintz] {
        let what = format!("{codec:?} {n} times {v} but for one 0 in a single chunk");
        let key = |s: &str| format!("{s}:{codec:?}");
        let cfg = config(codec, 0);
        let b = encode(&vals, ebi::encoder::ChunkOption::Full, cfg).map_err(|e| viol!(key("encode-failed"), "{what}: {e}"))?;
        let mut d = es(Decoder::new(DecoderInput::from_reader(std::io::Cursor::new(b)))).map_err(|e| viol!(key("open-failed"), "{what}: {e}"))?;
        let mut m = roaring::RoaringBitmap::new();
        m.insert_range(5..n as u32);
        for (m, cnt) in [(None, n - 1), (Some(&m), n - 5)] {
            let want = v * cnt as f64;
            let got = es(d.sum(m, None)).map_err(|e| viol!(key("sum-failed"), "{what}: {e}"))?;
            ensure!((got - want).abs() <= want * 1e-9, key("sum"), "{what}: sum over {} = {got:e}, expected {want:e}", show_mask(m));
            c.count("queries", 1);
            c.count("records aggregated", cnt as u64);
        }
        let got = es(d.max(None, None)).map_err(|e| viol!(key("max-failed"), "{what}: {e}"))?;
        ensure!(got == v, key("max"), "{what}: max {got:e}");
        let got = es(d.min(Some(&m), None)).map_err(|e| viol!(key("min-failed"), "{what}: {e}"))?;
        ensure!(got == v, key("min"), "{what}: min without the 0: {got:e}");
    }
    c.count("chunks of 17 million records", 2);
    c.nontrivial = true;
    Ok(())
}

/// Bound on the rounding error of summing the decoded records in any order.
fn sum_slack(w: &World, sel: &[usize]) -> f64 {
    let mag: f64 = sel.iter().map(|&i| w.model[i].abs()).sum();
    mag * (1e-12 + sel.len() as f64 * 2.5e-16) + 1e-300
}

pub fn judge_sum(w: &World, sel: &[usize], got: f64, q: &str) -> CaseResult {
    if w.grid.is_some() {
        let want: f64 = sel.iter().map(|&i| w.model[i]).sum();
        // BUFF rounds the base and the offset of the chunk separately when it sums in place
        let g = w.grid.as_ref().unwrap();
        let per = if w.codec == Codec::Buff { crate::props::roundtrip::tol(w.codec, g.k) } else { 0.0 };
        let slack = sum_slack(w, sel) + per * sel.len() as f64 * 1e-6;
        ensure!((got - want).abs() <= slack, w.key("sum"), "{q}: sum {got:e}, expected {want:e} (slack {slack:e})");
    } else {
        let v = || sel.iter().map(|&i| w.orig[i]);
        let want: f64 = v().sum();
        let (mut nan, mut pos, mut neg, mut mag, mut small) = (false, false, false, 0.0, true);
        for x in v() {
            nan |= x.is_nan();
            pos |= x == f64::INFINITY;
            neg |= x == f64::NEG_INFINITY;
            mag += if x.is_finite() { x.abs() } else { 0.0 };
            // multiples of 2^-8 below 2^30 add up exactly
            small &= x.abs() <= (1u64 << 30) as f64 && x * 256.0 == (x * 256.0).trunc();
        }
        if nan || pos && neg {
            ensure!(got.is_nan(), w.key("sum"), "{q}: sum {got:e}, expected NaN");
            return Ok(());
        }
        if mag == f64::INFINITY {
            // finite records whose partial sums may overflow: the order of additions decides
            return Ok(());
        }
        if pos || neg {
            ensure!(got == if pos { f64::INFINITY } else { f64::NEG_INFINITY }, w.key("sum"), "{q}: sum {got:e} of records with one infinity");
            return Ok(());
        }
        if !small {
            let slack = sum_slack(w, sel);
            ensure!((got - want).abs() <= slack, w.key("sum"), "{q}: sum {got:e}, expected {want:e} (slack {slack:e})");
            return Ok(());
        }
        ensure!(got == want, w.key("sum"), "{q}: sum {got:e}, expected {want:e}");
    }
    Ok(())
}

pub fn judge_minmax(w: &World, sel: &[usize], got: f64, is_min: bool, q: &str) -> CaseResult {
    let name = if is_min { "min" } else { "max" };
    let want = if is_min {
        sel.iter().map(|&i| w.model[i]).fold(f64::INFINITY, f64::min)
    } else {
        sel.iter().map(|&i| w.model[i]).fold(f64::NEG_INFINITY, f64::max)
    };
    ensure!(got == want, w.key(name), "{q}: {name} {got:e}, expected {want:e}");
    Ok(())
}
