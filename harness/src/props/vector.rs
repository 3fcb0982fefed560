use crate::api::*;
use crate::fw::*;
use crate::gen::*;
use crate::world::*;
use crate::{ensure, viol};
use ebi::api::decoder::{Aggregation, AggregationKind, AggregationResult, ChunkId, Expr};
use ebi::decoder::expr::Op;
use ebi::encoder::ChunkOption;
use ebi::time::SegmentedExecutionTimes;

/// Small integers (dyadic): products and sums of thousands of them are exact.
fn small(c: &mut Case, n: usize) -> Vec<f64> {
    let lim = c.rng.pick(&[1i64, 4, 50, 2000]);
    let den = c.rng.pick(&[1.0, 2.0, 8.0]);
    let runs = c.rng.chance(1, 3);
    let mut x = 0.0;
    (0..n)
        .map(|_| {
            if !runs || c.rng.chance(1, 4) {
                x = c.rng.range(-lim, lim) as f64 / den;
            }
            x
        })
        .collect()
}

/// What the values of a case look like. The first two allow an exact oracle in any order of
/// evaluation; `Wide` needs a relative tolerance; `Special` mixes in infinities and NaN.
#[derive(Clone, Copy, PartialEq)]
enum Regime {
    Small,
    /// small integers far from the origin: the differences are small and exact
    Far(f64),
    /// finite values of any magnitude up to 1e140
    Wide(i32),
    Special,
}

impl Regime {
    fn pick(c: &mut Case, codec: Codec, special: bool) -> Regime {
        if codec.scaled() {
            return Regime::Small;
        }
        match c.rng.below(6) {
            0 | 1 => Regime::Far((1i64 << c.rng.pick(&[20u32, 30, 40, 48, 50])) as f64 * c.rng.pick(&[1.0, -1.0])),
            2 => Regime::Wide(c.rng.pick(&[1, 10, 140])),
            3 if special => Regime::Special,
            _ => Regime::Small,
        }
    }
    fn values(self, c: &mut Case, n: usize) -> Vec<f64> {
        match self {
            Regime::Small => small(c, n),
            Regime::Far(base) => (0..n).map(|_| base + c.rng.range(-300, 300) as f64).collect(),
            Regime::Wide(e) => (0..n)
                .map(|_| {
                    let m = (c.rng.u64() >> 11) as f64 / (1u64 << 53) as f64 - 0.5;
                    m * 10f64.powi(c.rng.range(-e as i64, e as i64) as i32)
                })
                .collect(),
            Regime::Special => {
                let s = [0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN];
                (0..n).map(|_| if c.rng.chance(1, 4) { c.rng.pick(&s) } else { c.rng.range(-3, 3) as f64 }).collect()
            }
        }
    }
    fn name(self) -> &'static str {
        match self {
            Regime::Small => "small",
            Regime::Far(_) => "far from the origin",
            Regime::Wide(_) => "wide",
            Regime::Special => "infinities and NaN",
        }
    }
    /// rounding allowed for a sum of terms whose magnitudes add up to `mag`
    fn tol(self, codec: Codec, mag: f64) -> f64 {
        match self {
            Regime::Wide(_) => mag * 1e-12 + 1e-290,
            _ if codec.scaled() => mag * 1e-9 + 1e-9,
            _ => 0.0,
        }
    }
    fn dot_tol(self, codec: Codec, mag: f64) -> f64 {
        match self {
            // products of values far from the origin are not exact
            Regime::Far(_) => mag * 1e-12,
            Regime::Wide(_) => mag * 1e-12 + 1e-290,
            _ if codec.scaled() => mag * 1e-10,
            _ => 0.0,
        }
    }
}

/// Equal up to `tol`; NaN and infinities as they are.
fn near(got: f64, want: f64, tol: f64) -> bool {
    got == want || got.is_nan() && want.is_nan() || (got - want).abs() <= tol
}

fn world_small(c: &mut Case, codec: Codec, n: usize, o: ChunkOption, g: Regime) -> Result<World, Viol> {
    if codec.scaled() {
        // decimals 0 or 1 digit, modest magnitude
        let k = c.rng.below(3) as u32;
        let lim = c.rng.pick(&[3i64, 50, 5000]);
        let ints: Vec<i64> = (0..n).map(|_| c.rng.range(-lim, lim)).collect();
        let vals: Vec<f64> = ints.iter().map(|&i| grid_value(i, k)).collect();
        world_from(c, codec, vals.clone(), Some(Grid { ints, vals, k, style: "small" }), "small", o)
    } else {
        let v = g.values(c, n);
        c.count(&format!("values: {}", g.name()), 1);
        world_from(c, codec, v, None, g.name(), o)
    }
}

fn d2(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| (x - y) * (x - y)).sum()
}

/// C07: nearest neighbour and distances equal the model for every chunking.
pub fn c07(c: &mut Case) -> CaseResult {
    let codec = ALL[c.index as usize % ALL.len()];
    let n = gen_len(&mut c.rng, 900);
    let o = gen_chunk(&mut c.rng, n);
    let g = Regime::pick(c, codec, false);
    let w = world_small(c, codec, n, o, g)?;
    let mut d = w.open()?;
    for _ in 0..3 {
        let len = match c.rng.below(6) {
            0 => 1,
            1 => 1 + c.rng.usize(8),
            2 => 1 + c.rng.usize(n.max(1)),
            3 => chunk_records(o).unwrap_or(5).clamp(1, 2000),
            4 => (chunk_records(o).unwrap_or(5) + 1).clamp(1, 2000),
            _ => (1 + c.rng.usize(3)) * (1 + c.rng.usize(40)),
        };
        let target: Vec<f64> = if n >= len && c.rng.chance(2, 3) {
            // near an actual vector
            let v = c.rng.usize(n / len) * len;
            let mut t = w.model[v..v + len].to_vec();
            if c.rng.chance(1, 2) {
                let i = c.rng.usize(len);
                t[i] += 1.0;
            }
            t
        } else {
            g.values(c, len)
        };
        let q = format!("{}: knn1 with a target of {} values", w.what, len);
        let got = es(d.knn1(&target)).map_err(|e| viol!(w.key("knn-failed"), "{q}: {e}"))?;
        let dists: Vec<f64> = w.model.chunks_exact(len).map(|v| d2(v, &target)).collect();
        let best = dists.iter().cloned().fold(f64::INFINITY, f64::min);
        if dists.is_empty() {
            ensure!(got.index >= n.max(1) && got.distance.is_infinite(), w.key("knn-no-vector"), "{q}: the file holds no complete vector, got {:?}", got);
            c.count("searches without a complete vector", 1);
        } else {
            let tol = g.tol(codec, best);
            ensure!((got.distance - best).abs() <= tol, w.key("knn-distance"), "{q}: distance {:e}, the smallest is {best:e} (at vector {:?})", got.distance, dists.iter().position(|x| *x == best));
            ensure!(got.index < dists.len() && (dists[got.index] - best).abs() <= tol, w.key("knn-index"), "{q}: index {} ({} vectors) has distance {:?}, the smallest is {best:e}", got.index, dists.len(), dists.get(got.index));
            c.count("searches", 1);
            c.count("vectors compared", dists.len() as u64);
            let per = chunk_records(o).unwrap_or(usize::MAX);
            if per % len != 0 && per < n {
                c.count("searches with vectors across chunks", 1);
                if len > per * 2 {
                    c.count("searches with vectors over 3+ chunks", 1);
                }
            }
            c.nontrivial |= dists.len() > 1;
            // chunking must not change the answer
            if c.rng.chance(1, 3) && !codec.scaled() {
                let b = encode(&w.orig, ChunkOption::Full, config(codec, 0)).map_err(|e| viol!(w.key("encode-failed"), "{q}: {e}"))?;
                let mut d1 = open(&b).map_err(|e| viol!(w.key("open-failed"), "{q}: {e}"))?;
                let g1 = es(d1.knn1(&target)).map_err(|e| viol!(w.key("knn-failed"), "{q}: {e}"))?;
                ensure!(near(g1.distance, got.distance, tol) && (tol > 0.0 || g1.index == got.index), w.key("knn-chunking"), "{q}: {:?}, but {:?} when the same records are in one chunk", got, g1);
                c.count("chunking comparisons", 1);
            }
        }
        // chunk-level distance
        if w.nchunks() > 0 {
            let i = c.rng.usize(w.nchunks());
            let ch = &w.model[w.bounds[i]..w.bounds[i + 1]];
            let mut cr = es(d.chunk_reader(ChunkId::new(i))).map_err(|e| viol!(w.key("chunk-reader-failed"), "{q}: {e}"))?;
            for _ in 0..2 {
                let off = c.rng.usize(ch.len() + 3);
                let want = d2(&ch[off.min(ch.len())..], &target);
                let got = es(cr.distance_squared(off, &target)).map_err(|e| viol!(w.key("distance-failed"), "{q}: {e}"))?;
                let tol = g.tol(codec, want);
                ensure!((got - want).abs() <= tol, w.key("distance"), "{q}: distance_squared(chunk {i}, offset {off}) = {got:e}, expected {want:e}");
                c.count("chunk distances", 1);
            }
        }
    }
    if c.rng.chance(1, 20) {
        // there is no vector of length zero: an error (or an empty answer), not an endless search
        let _ = d.knn1(&[]);
        c.count("empty targets", 1);
    }
    Ok(())
}

/// C08: matmul / dot product equal the model.
pub fn c08(c: &mut Case) -> CaseResult {
    let codec = ALL[c.index as usize % ALL.len()];
    let (rows, cols, tcols, batch) = if c.rng.chance(1, 25) {
        // one long side, or two
        c.count("large matrices", 1);
        let f = |c: &mut Case, m: usize| 1 + if c.rng.chance(1, 2) { c.rng.usize(m) } else { c.rng.usize(4) };
        let r = f(c, 40);
        let k = f(c, 700);
        let t = f(c, (60_000 / (r * k)).clamp(1, 300));
        (r, k, t, c.rng.usize(1 + (30_000 / (r * k)).min(5)))
    } else {
        (1 + c.rng.usize(6), 1 + c.rng.usize(6), c.rng.usize(6), c.rng.usize(9))
    };
    let size = rows * cols;
    let n = size * batch;
    let per = 1 + c.rng.usize(batch + 1);
    let style = c.rng.below(4);
    let o = match style {
        0 => ChunkOption::Full,
        3 => gen_chunk(&mut c.rng, n),
        _ => ChunkOption::RecordCount(size * per),
    };
    let g = Regime::pick(c, codec, true);
    let w = world_small(c, codec, n, o, g)?;
    let mut d = w.open()?;
    let t = g.values(c, cols * tcols);
    let q = format!("{}: matmul data {}x{}, target {}x{}", w.what, rows, cols, cols, tcols);
    let straddles = w.bounds.iter().any(|b| b % size != 0);
    let r = es(d.matmul(&t, (cols, tcols), (rows, cols)));
    if straddles {
        // a matrix is cut by a chunk boundary: refused or computed, never a wrong product
        c.count("matrices across chunks", 1);
        if let Ok(got) = &r {
            judge_mm(&w, g, got, &t, rows, cols, tcols, &q)?;
        }
    } else {
        let got = r.map_err(|e| viol!(w.key("matmul-failed"), "{q}: {e}"))?;
        judge_mm(&w, g, &got, &t, rows, cols, tcols, &q)?;
        c.count("products", 1);
        c.count("product elements", got.len() as u64);
        c.count("batched matrices over several chunks", (w.nchunks() > 1) as u64);
        c.nontrivial |= got.len() > 1;
    }
    // mis-shaped requests must be refused
    match c.rng.below(6) {
        0 => {
            let r = d.matmul(&t, (cols, tcols), (rows, cols + 1));
            ensure!(r.is_err(), w.key("bad-shape"), "{q}: accepted data_columns {} != target_rows {}", cols + 1, cols);
            c.count("mis-shaped requests", 1);
        }
        1 if n > 0 => {
            // not a multiple of the number of records
            let r2 = n + 1 + c.rng.usize(5);
            let r = d.matmul(&t, (cols, tcols), (r2, cols));
            ensure!(r.is_err(), w.key("bad-shape"), "{q}: accepted matrices of {}x{} for {} records", r2, cols, n);
            c.count("mis-shaped requests", 1);
        }
        2 => {
            let r = d.matmul(&[], (0, tcols), (rows, 0));
            ensure!(r.is_err() || r.is_ok_and(|x| x.is_empty()), w.key("bad-shape"), "{q}: zero-column matrices gave a product");
            c.count("mis-shaped requests", 1);
        }
        3 => {
            let mut t2 = t.clone();
            t2.push(1.0);
            let r = d.matmul(&t2, (cols, tcols), (rows, cols));
            ensure!(r.is_err(), w.key("bad-shape"), "{q}: accepted a target of {} values for shape {}x{}", t2.len(), cols, tcols);
            c.count("mis-shaped requests", 1);
        }
        _ => {}
    }
    // dot products at chunk level
    if w.nchunks() > 0 {
        let i = c.rng.usize(w.nchunks());
        let ch = &w.model[w.bounds[i]..w.bounds[i + 1]];
        let mut cr = es(d.chunk_reader(ChunkId::new(i))).map_err(|e| viol!(w.key("chunk-reader-failed"), "{q}: {e}"))?;
        for _ in 0..3 {
            let off = c.rng.usize(ch.len() + 3);
            let tl = c.rng.usize(ch.len() + 3);
            let t = g.values(c, tl);
            let want: f64 = ch[off.min(ch.len())..].iter().zip(&t).map(|(a, b)| a * b).sum();
            let mag: f64 = ch[off.min(ch.len())..].iter().zip(&t).map(|(a, b)| (a * b).abs()).sum();
            let got = es(cr.dot_product(off, &t)).map_err(|e| viol!(w.key("dot-failed"), "{q}: {e}"))?;
            let tol = g.dot_tol(codec, mag);
            ensure!(near(got, want, tol), w.key("dot"), "{q}: dot_product(chunk {i}, offset {off}, {tl} values) = {got:e}, expected {want:e}");
            c.count("dot products", 1);
            c.nontrivial = true;
        }
    }
    Ok(())
}

fn judge_mm(w: &World, g: Regime, got: &[f64], t: &[f64], rows: usize, cols: usize, tcols: usize, q: &str) -> CaseResult {
    let batch = w.n() / (rows * cols);
    ensure!(got.len() == batch * rows * tcols, w.key("matmul-size"), "{q}: {} elements, expected {}", got.len(), batch * rows * tcols);
    let mut k = 0;
    for b in 0..batch {
        for r in 0..rows {
            for tc in 0..tcols {
                let mut want = 0.0;
                let mut mag = 0.0;
                for j in 0..cols {
                    let x = w.model[b * rows * cols + r * cols + j] * t[tc * cols + j];
                    want += x;
                    mag += x.abs();
                }
                let tol = g.dot_tol(w.codec, mag);
                ensure!(near(got[k], want, tol), w.key("matmul"), "{q}: matrix {b} element ({r},{tc}) = {:e}, expected {want:e}", got[k]);
                k += 1;
            }
        }
    }
    Ok(())
}

pub fn gen_expr(c: &mut Case, nfiles: usize, depth: usize) -> Expr {
    if depth == 0 || c.rng.chance(1, 4) {
        return Expr::Index(c.rng.usize(nfiles));
    }
    let op = c.rng.pick(&[Op::Add, Op::Sub, Op::Mul, Op::Div]);
    let lit = |c: &mut Case| Expr::Literal(c.rng.pick(&[0.0, 1.0, -1.0, 2.0, 0.5, 10.0, -3.25, 1e-3, 1e6]));
    match c.rng.below(4) {
        0 => Expr::Binary { op, lhs: Box::new(lit(c)), rhs: Box::new(gen_expr(c, nfiles, depth - 1)) },
        1 => Expr::Binary { op, lhs: Box::new(gen_expr(c, nfiles, depth - 1)), rhs: Box::new(lit(c)) },
        _ => Expr::Binary { op, lhs: Box::new(gen_expr(c, nfiles, depth - 1)), rhs: Box::new(gen_expr(c, nfiles, depth - 1)) },
    }
}

fn eval_expr(e: &Expr, files: &[World], i: usize) -> f64 {
    match e {
        Expr::Literal(x) => *x,
        Expr::Index(f) => files[*f].model[i],
        Expr::Binary { op, lhs, rhs } => {
            let (l, r) = (eval_expr(lhs, files, i), eval_expr(rhs, files, i));
            match op {
                Op::Add => l + r,
                Op::Sub => l - r,
                Op::Mul => l * r,
                Op::Div => l / r,
            }
        }
    }
}

fn judge_aggr(kind: AggregationKind, in_place: bool, want: &[f64], got: &AggregationResult, scaled: bool, q: &str) -> CaseResult {
    match kind {
        AggregationKind::None => {
            let AggregationResult::Array(a) = got else { return Err(viol!("expr-kind", "{q}: expected an array, got {:?}", got)) };
            if let Some(x) = first_diff(a, want) {
                return Err(viol!("expr-array", "{q}: {x}"));
            }
        }
        AggregationKind::Sum => {
            let Some(g) = got.scalar() else { return Err(viol!("expr-kind", "{q}: expected a scalar, got {:?}", got)) };
            let s: f64 = want.iter().sum();
            let mag: f64 = want.iter().map(|x| x.abs()).sum();
            let finite: f64 = want.iter().filter(|x| x.is_finite()).map(|x| x.abs()).sum();
            // whether a sum overflows on the way depends on its order
            let ok = if finite.is_infinite() { true } else if s.is_finite() && mag.is_finite() { (g - s).abs() <= mag * (1e-11 + want.len() as f64 * 1e-15) + if in_place && scaled { mag * 1e-9 } else { 0.0 } } else { same(g, s) };
            ensure!(ok, "expr-sum", "{q}: {g:e}, expected {s:e}");
        }
        AggregationKind::Min | AggregationKind::Max => {
            let Some(g) = got.scalar() else { return Err(viol!("expr-kind", "{q}: expected a scalar, got {:?}", got)) };
            let m = if kind == AggregationKind::Min { want.iter().cloned().fold(f64::INFINITY, f64::min) } else { want.iter().cloned().fold(f64::NEG_INFINITY, f64::max) };
            ensure!(g == m, "expr-minmax", "{q}: {g:e}, expected {m:e}");
        }
    }
    Ok(())
}

fn greatest(e: &Expr) -> Option<usize> {
    match e {
        Expr::Literal(_) => None,
        Expr::Index(i) => Some(*i),
        Expr::Binary { lhs, rhs, .. } => greatest(lhs).max(greatest(rhs)),
    }
}

/// Aggregates of parts put together are the aggregate of the whole.
fn parts(c: &mut Case, kind: AggregationKind, vals: &[f64], q: &str) -> CaseResult {
    let mut acc = AggregationResult::zero(kind);
    let mut i = 0;
    while i < vals.len() {
        let j = (i + 1 + c.rng.usize(1 + vals.len() / 2)).min(vals.len());
        let part = es(kind.dispatch_on_vec(vals[i..j].to_vec())).map_err(|e| viol!("expr-parts", "{q}: {e}"))?;
        // what does not belong together is refused and changes nothing
        if c.rng.chance(1, 4) {
            let before = acc.clone();
            let (other, k) = match kind {
                AggregationKind::None => (AggregationResult::Scalar(1.0), kind),
                _ if c.rng.chance(1, 2) => (AggregationResult::Scalar(1.0), AggregationKind::None),
                _ => (AggregationResult::Array(vec![1.0]), kind),
            };
            ensure!(acc.concat(other, k).is_err() && (acc == before || before.scalar().is_some_and(f64::is_nan) || matches!(&before, AggregationResult::Array(a) if a.iter().any(|x| x.is_nan()))), "expr-parts", "{q}: parts of different kinds put together: {acc:?}");
            c.count("parts that do not belong together", 1);
        }
        es(acc.concat(part, kind)).map_err(|e| viol!("expr-parts", "{q}: {e}"))?;
        i = j;
    }
    judge_aggr(kind, false, vals, &acc, false, &format!("parts of {q}"))
}

/// C09: aggregations of expressions over several files.
pub fn c09(c: &mut Case) -> CaseResult {
    let nfiles = 1 + c.rng.usize(3);
    let n = gen_len(&mut c.rng, 700);
    let o = gen_chunk(&mut c.rng, n);
    let mut files = vec![];
    for f in 0..nfiles {
        let codec = ALL[((c.index as usize) + f * 5) % ALL.len()];
        let g = Regime::pick(c, codec, true);
        files.push(world_small(c, codec, n, o, g)?);
    }
    let mut ds = vec![];
    for w in &files {
        ds.push(w.open()?);
    }
    let codecs: Vec<Codec> = files.iter().map(|w| w.codec).collect();
    let scaled = codecs.iter().any(|x| x.scaled());
    let mut aggs = vec![];
    let mut wants = vec![];
    let (m, _) = gen_mask(&mut c.rng, n, &files[0].bounds);
    let sel = files[0].selected(m.as_ref(), None);
    for _ in 0..3 {
        let depth = c.rng.usize(4);
        let e = gen_expr(c, nfiles, depth);
        let kind = c.rng.pick(&[AggregationKind::None, AggregationKind::Sum, AggregationKind::Min, AggregationKind::Max]);
        let want: Vec<f64> = sel.iter().map(|&i| eval_expr(&e, &files, i)).collect();
        let in_place = matches!(e, Expr::Index(_));
        let q = format!("{:?} of {:?} over {:?} n={} {:?} {}", kind, e, codecs, n, o, show_mask(m.as_ref()));
        let used = greatest(&e);
        ensure!(e.max_chunk_reader_index() == used, "expr-columns", "{e:?} names column {used:?} as its last, {:?} reported", e.max_chunk_reader_index());
        // the shorthands are what they are called
        let a = match (kind, c.rng.chance(1, 2)) {
            (k, false) => Aggregation::new(k, e),
            (AggregationKind::None, _) => Aggregation::none(e),
            (AggregationKind::Sum, _) => Aggregation::sum(e),
            (AggregationKind::Min, _) => Aggregation::min(e),
            (AggregationKind::Max, _) => Aggregation::max(e),
        };
        let got = es(a.compute(&mut ds, m.as_ref(), &mut SegmentedExecutionTimes::new())).map_err(|e| viol!("expr-failed", "{q}: {e}"))?;
        judge_aggr(kind, in_place, &want, &got, scaled, &q)?;
        c.count("aggregations", 1);
        c.count("records aggregated", want.len() as u64);
        c.nontrivial |= !in_place && want.len() > 1;
        parts(c, kind, &want, &q)?;
        wants.push((kind, in_place, want, q));
        aggs.push(a);
    }
    let got = es(Aggregation::compute_multiple(&aggs, &mut ds, m.as_ref(), &mut SegmentedExecutionTimes::new())).map_err(|e| viol!("expr-multiple-failed", "{} aggregations over {:?} n={n}: {e}", aggs.len(), codecs))?;
    ensure!(got.len() == aggs.len(), "expr-multiple", "{} results for {} aggregations", got.len(), aggs.len());
    for (g, (k, ip, want, q)) in got.iter().zip(&wants) {
        judge_aggr(*k, *ip, want, g, scaled, &format!("compute_multiple {q}"))?;
        c.count("aggregations in compute_multiple", 1);
    }
    if c.rng.chance(1, 4) && n > 0 {
        // another column of the table that is cut otherwise, or longer or shorter
        let n2 = if c.rng.chance(1, 2) { n } else { 1 + c.rng.usize(n + 20) };
        let o2 = gen_chunk(&mut c.rng, n2);
        let codec = ALL[c.rng.usize(ALL.len())];
        let other = world_small(c, codec, n2, o2, Regime::Small)?;
        let d = other.open()?;
        let alike = n2 == n && other.bounds == files[0].bounds;
        let at = c.rng.usize(nfiles + 1);
        ds.insert(at, d);
        files.insert(at, other);
        let one = (at + 1) % (nfiles + 1);
        let (l, r) = if c.rng.chance(1, 2) { (at, one) } else { (one, at) };
        let e = Expr::Binary { op: Op::Add, lhs: Box::new(Expr::Index(l)), rhs: Box::new(Expr::Index(r)) };
        let q = format!("{e:?} of columns of {n} and {n2} records, chunks {o:?} and {o2:?}");
        let a = Aggregation::none(e.clone());
        let mut got = vec![("compute", es(a.compute(&mut ds, None, &mut SegmentedExecutionTimes::new())))];
        let more = [Aggregation::sum(Expr::Index(at)), a];
        got.push(("compute_multiple", es(Aggregation::compute_multiple(&more, &mut ds, None, &mut SegmentedExecutionTimes::new())).map(|mut x| x.remove(1))));
        for (how, g) in got {
            match g {
                Err(_) if alike => return Err(viol!("expr-failed", "{how} {q}: refused")),
                Err(_) => c.count("columns that do not line up", 1),
                // rows that line up may be combined whatever the chunks
                Ok(g) => {
                    ensure!(n2 == n, "expr-misaligned", "{how} {q}: answered {}", format!("{g:?}").chars().take(200).collect::<String>());
                    let want: Vec<f64> = (0..n).map(|i| eval_expr(&e, &files, i)).collect();
                    judge_aggr(AggregationKind::None, false, &want, &g, files.iter().any(|w| w.codec.scaled()), &format!("{how} {q}"))?;
                }
            }
        }
    }
    if c.rng.chance(1, 10) && n > 0 {
        // an expression without any column is refused
        let e = Expr::Binary { op: Op::Add, lhs: Box::new(Expr::Literal(1.0)), rhs: Box::new(Expr::Literal(2.0)) };
        ensure!(Aggregation::sum(e).compute(&mut ds, None, &mut SegmentedExecutionTimes::new()).is_err(), "expr-literal", "a column-free expression was accepted");
        c.count("column-free expressions", 1);
    }
    Ok(())
}
