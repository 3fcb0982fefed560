//! Controlled precision, exchange formats, reported times.
use super::files::{gen_input, u64at, HEADER};
use crate::api::*;
use crate::fw::*;
use crate::gen::*;
use crate::q::*;
use crate::rng::hash_bytes;
use crate::vio::*;
use crate::world::*;
use crate::{ensure, viol};
use ebi::api::decoder::{Aggregation, AggregationResult, ChunkId, Decoder, DecoderInput, Expr, KnnResult};
use ebi::api::encoder::{Encoder, EncoderInput, EncoderOutput};
use ebi::compressor::CompressorConfig;
use ebi::decoder::expr::Op;
use ebi::decoder::query::{Predicate, Range, RangeValue};
use ebi::encoder::ChunkOption;
use ebi::format::deserialize::{FromLeBytes, FromLeBytesExt};
use ebi::format::serialize::{AsBytes, ToLe};
use ebi::time::{SegmentKind, SegmentedExecutionTimes, SerializableSegmentedExecutionTimes};
use std::io::{Read, Seek, SeekFrom, Write};
use std::rc::Rc;
use std::time::{Duration, Instant};

fn within(got: f64, full: f64, p: u32, k: u32) -> bool {
    if p >= k {
        return same(got, full);
    }
    (got - full).abs() < 10f64.powi(-(p as i32)) * (1.0 + 1e-9) + full.abs() * 1e-15
}

/// C21: materialising with a reduced precision.
pub fn c21(c: &mut Case) -> CaseResult {
    // the other codecs must ignore the setting
    let codec = if c.index % 4 == 3 { ALL[c.index as usize / 4 % ALL.len()] } else { Codec::Buff };
    let n = gen_len(&mut c.rng, 400);
    let o = gen_chunk(&mut c.rng, n);
    let w = world_of(c, codec, n, Data::Any, o)?;
    let k = if codec == Codec::Buff { w.grid.as_ref().map_or(0, |g| g.k) } else { 0 };
    let mut coarse = 0u64;
    for _ in 0..3 {
        let p = if c.rng.chance(1, 12) { c.rng.pick(&[12, 13, 20, 64, u32::MAX]) } else { c.rng.below(k as u64 + 2) as u32 };
        let mut full = w.open()?;
        let mut d = w.open()?;
        if c.rng.chance(1, 3) {
            d.with_precision(c.rng.below(13) as u32);
        }
        d.with_precision(p);
        let q = loop {
            let q = gen_query(c, &w);
            if !matches!(q.kind, Kind::Knn(_) | Kind::Matmul(..) | Kind::CrDistance(..) | Kind::CrDot(..)) {
                break q;
            }
        };
        let what = format!("{}: precision {p}, {}", w.what, q.show());
        let (want, got) = (q.run(&mut full), q.run(&mut d));
        let (want, got) = match (want, got) {
            (Ok(a), Ok(b)) => (a, b),
            (Err(_), Err(_)) => continue,
            (a, b) => return Err(viol!(w.key("precision-error"), "{what}: {:?} instead of {:?}", b.map(|x| x.short()), a.map(|x| x.short()))),
        };
        if q.writes() {
            let (Ans::Vals(a), Ans::Vals(b)) = (&want, &got) else { unreachable!() };
            ensure!(a.len() == b.len(), w.key("precision-count"), "{what}: {} records written instead of {}", b.len(), a.len());
            if let Some(i) = (0..a.len()).find(|&i| !within(b[i], a[i], p, k)) {
                return Err(viol!(w.key("precision-lost"), "{what}: value {i} is {} instead of {} (stored with {k} decimal places)", b[i], a[i]));
            }
            coarse += (0..a.len()).filter(|&i| a[i] != b[i]).count() as u64;
            c.count("values compared", a.len() as u64);
        } else {
            // decisions and aggregates on compressed data use what is stored
            ensure!(got.same(&want), w.key("precision-query"), "{what}: {} instead of {}", got.short(), want.short());
            c.count("queries compared", 1);
        }
    }
    // a history of settings on one chunk
    if w.nchunks() > 0 {
        let i = c.rng.usize(w.nchunks());
        let model = &w.model[w.bounds[i]..w.bounds[i + 1]];
        let mut d = w.open()?;
        let mut cr = es(d.chunk_reader(ChunkId::new(i))).map_err(|e| viol!(w.key("chunk-reader-failed"), "{}: {e}", w.what))?;
        let mut cur = u32::MAX;
        let mut log = format!("{}: chunk {i}", w.what);
        for _ in 0..1 + c.rng.usize(6) {
            if c.rng.chance(3, 4) {
                cur = c.rng.below(13) as u32;
                cr.with_precision(cur);
                log.push_str(&format!(" precision {cur},"));
            }
            if c.rng.chance(2, 3) {
                let mut t = SegmentedExecutionTimes::new();
                let r = cr.inner_mut();
                let v: Vec<f64> = match c.rng.below(2) {
                    0 => es(r.decompress(&mut t)).map_err(|e| viol!(w.key("decompress-failed"), "{log}: {e}"))?.to_vec(),
                    _ => {
                        let it = es(r.decompress_iter()).map_err(|e| viol!(w.key("decompress-failed"), "{log}: {e}"))?;
                        let v: Result<Vec<f64>, String> = it.map(es).collect();
                        v.map_err(|e| viol!(w.key("decompress-failed"), "{log}: {e}"))?
                    }
                };
                log.push_str(" read,");
                let bad = if v.len() != model.len() { Some(0) } else { (0..v.len()).find(|&j| !within(v[j], model[j], cur, k)) };
                if let Some(j) = bad {
                    return Err(viol!(w.key("precision-history"), "{log} {} of {} values; value {j} is {:?} instead of {:?}", v.len(), model.len(), v.get(j), model.get(j)));
                }
                coarse += (0..v.len()).filter(|&j| v[j] != model[j]).count() as u64;
                c.count("reads with a history of settings", 1);
            }
        }
    }
    c.count("values at reduced precision", coarse);
    c.nontrivial = coarse > 0;
    Ok(())
}

fn json<T: serde::Serialize + serde::de::DeserializeOwned>(x: &T, what: &str) -> Result<T, Viol> {
    let s = serde_json::to_string(x).map_err(|e| viol!("json-write", "{what}: {e}"))?;
    let a: T = serde_json::from_str(&s).map_err(|e| viol!("json-read", "{what}: {s}: {e}"))?;
    // through a value tree as well (fields in any order)
    let v: serde_json::Value = serde_json::from_str(&s).map_err(|e| viol!("json-read", "{what}: {s}: {e}"))?;
    let sorted = |s: &str| { let mut b = s.as_bytes().to_vec(); b.sort_unstable(); b };
    if sorted(&v.to_string()) != sorted(&s) {
        return Ok(a); // numbers the tree cannot hold
    }
    let shuffled = v.to_string();
    let b: T = serde_json::from_str(&shuffled).map_err(|e| viol!("json-read", "{what}: {shuffled}: {e}"))?;
    ensure!(serde_json::to_string(&b).ok().as_deref() == Some(&s[..]), "json-differs", "{what}: {s} read back as {:?}", serde_json::to_string(&b));
    Ok(a)
}

fn bits_of(p: &Predicate) -> Vec<u64> {
    let r = |v: RangeValue| match v {
        RangeValue::Inclusive(x) => vec![1, x.to_bits()],
        RangeValue::Exclusive(x) => vec![2, x.to_bits()],
        RangeValue::None => vec![3],
    };
    match p {
        Predicate::Eq(x) => vec![10, x.to_bits()],
        Predicate::Ne(x) => vec![11, x.to_bits()],
        Predicate::Range(g) => [vec![12], r(g.start()), r(g.end())].concat(),
    }
}

fn finite(c: &mut Case) -> f64 {
    loop {
        let (v, _) = gen_values(&mut c.rng, 1);
        if v[0].is_finite() {
            return v[0];
        }
    }
}

fn any_config(c: &mut Case, codec: Codec) -> CompressorConfig {
    let cap = if c.rng.chance(1, 2) { c.rng.u64() } else { c.rng.below(100000) };
    let scale = if c.rng.chance(1, 2) { c.rng.u64() } else { 10u64.pow(c.rng.below(12) as u32) };
    match codec {
        Codec::Uncompressed => CompressorConfig::uncompressed().capacity(cap).build().into(),
        Codec::Rle => CompressorConfig::rle().capacity(cap).build().into(),
        Codec::Gorilla => CompressorConfig::gorilla().capacity(cap).build().into(),
        Codec::Chimp => CompressorConfig::chimp().capacity(cap).build().into(),
        Codec::Chimp128 => CompressorConfig::chimp128().capacity(cap).build().into(),
        Codec::ElfOnChimp => CompressorConfig::elf_on_chimp().capacity(cap).build().into(),
        Codec::Elf => CompressorConfig::elf().capacity(cap).build().into(),
        Codec::Zstd => CompressorConfig::zstd().level(c.rng.u64() as i32).build().into(),
        Codec::Gzip => CompressorConfig::gzip().level(c.rng.u64() as u32).build().into(),
        Codec::Snappy => CompressorConfig::snappy().build().into(),
        Codec::Alp => CompressorConfig::ffi_alp().build().into(),
        Codec::Buff => CompressorConfig::buff().scale(scale).build().into(),
        Codec::Sprintz => {
            let mut x: CompressorConfig = CompressorConfig::delta_sprintz().capacity(cap).build().into();
            x.set_scale(scale);
            x
        }
    }
}

/// C22: settings, predicates and results survive their serialised forms.
pub fn c22(c: &mut Case) -> CaseResult {
    let codec = ALL[c.index as usize % ALL.len()];
    let cfg = any_config(c, codec);
    let what = format!("{cfg:?}");
    c.note(&what);
    let key = |s: &str| format!("{s}:{codec:?}");
    ensure!(json(&cfg, &what)? == cfg, key("config-json"), "{what}: JSON gives another configuration");
    let mut b = vec![];
    cfg.serialize(&mut b).map_err(|e| viol!(key("config-bytes"), "{what}: {e}"))?;
    ensure!(b.len() == cfg.serialized_size() && b[0] as usize == b.len() - 1, key("config-size"), "{what}: {} bytes written, size field {}, size announced {}", b.len(), b[0], cfg.serialized_size());
    let back = CompressorConfig::from_le_bytes(&cfg.compression_scheme(), &b[1..]);
    ensure!(back == cfg, key("config-bytes"), "{what}: bytes read back as {back:?}");
    ensure!(cfg.compression_scheme() == codec.scheme(), key("config-scheme"), "{what}: scheme {:?}", cfg.compression_scheme());
    if codec.scaled() {
        let s = 10u64.pow(c.rng.below(12) as u32);
        let mut x = cfg;
        x.set_scale(s);
        ensure!(x.scale() == Some(s), key("config-scale"), "{what}: scale {:?} after setting {s}", x.scale());
        // written where the file format puts it
        let mut b2 = vec![];
        x.serialize(&mut b2).map_err(|e| viol!(key("config-bytes"), "{what}: {e}"))?;
        ensure!(b2.windows(8).any(|w| w == s.to_le_bytes()), key("config-bytes"), "{what}: scale {s} is not in the bytes {b2:?}");
    } else {
        ensure!(cfg.scale().is_none(), key("config-scale"), "{what}: scale {:?}", cfg.scale());
    }
    c.count("configurations", 1);
    layout(c)?;

    let o = match c.rng.below(3) {
        0 => ChunkOption::Full,
        1 => ChunkOption::RecordCount(c.rng.u64() as usize >> c.rng.below(60)),
        _ => ChunkOption::ByteSizeBestEffort(c.rng.u64() as usize >> c.rng.below(60)),
    };
    ensure!(json(&o, "chunk option")? == o, "option-json", "{o:?}: JSON gives another chunk option");
    {
        let x = c.rng.below(1 << 40) as usize >> c.rng.below(40);
        let (i, j) = (8 * x + c.rng.usize(20), x + c.rng.usize(3));
        for (i, j) in [(i, j), (i.saturating_sub(10), j.saturating_sub(1))] {
            ensure!(!ChunkOption::Full.reach_limit(i, j), "option-limit", "no limit, reached by {i} / {j} bytes");
            ensure!(ChunkOption::RecordCount(x).reach_limit(i, j) == (i >= 8 * x), "option-limit", "{x} records a chunk, {i} bytes in: {}", i < 8 * x);
            ensure!(ChunkOption::ByteSizeBestEffort(x).reach_limit(i, j) == (j >= x), "option-limit", "{x} bytes a chunk, {j} bytes out: {}", j < x);
        }
    }

    let end = |c: &mut Case| match c.rng.below(3) {
        0 => RangeValue::None,
        1 => RangeValue::Inclusive(finite(c)),
        _ => RangeValue::Exclusive(finite(c)),
    };
    let p = match c.rng.below(4) {
        0 => Predicate::Eq(finite(c)),
        1 => Predicate::Ne(finite(c)),
        _ => {
            let (a, b) = (end(c), end(c));
            Predicate::Range(Range::new(a, b))
        }
    };
    let q = json(&p, &format!("{p:?}"))?;
    ensure!(bits_of(&q) == bits_of(&p), "predicate-json", "{p:?}: JSON gives {q:?}");
    for _ in 0..6 {
        let v = if c.rng.chance(1, 3) { gen_values(&mut c.rng, 1).0[0] } else { finite(c) };
        let points: Vec<f64> = match p {
            Predicate::Eq(x) | Predicate::Ne(x) => vec![x],
            Predicate::Range(r) => [r.start(), r.end()].into_iter().filter_map(|v| match v { RangeValue::Inclusive(x) | RangeValue::Exclusive(x) => Some(x), RangeValue::None => None }).collect(),
        };
        for v in points.into_iter().chain([v, f64::NAN, f64::INFINITY]) {
            ensure!(p.eval(v) == eval(&p, v), "predicate-eval", "{p:?} on {v:e} is {}", p.eval(v));
            ensure!(p.map(|x| -x).eval(-v) == flipped(&p, v), "predicate-map", "{p:?} negated, on {:e}", -v);
        }
    }
    c.count("predicates", 1);

    let id = ChunkId::new(c.rng.u64() as usize >> c.rng.below(60));
    ensure!(json(&id, "chunk id")? == id, "id-json", "{id:?}: JSON gives another chunk id");
    let kn = KnnResult { index: c.rng.u64() as usize >> c.rng.below(60), distance: finite(c) };
    let r = json(&kn, &format!("{kn:?}"))?;
    ensure!(r.index == kn.index && r.distance.to_bits() == kn.distance.to_bits(), "knn-json", "{kn:?}: JSON gives {r:?}");
    let ar = match c.rng.below(3) {
        0 => AggregationResult::Scalar(finite(c)),
        1 => AggregationResult::Integer(c.rng.u64() as usize >> c.rng.below(60)),
        _ => AggregationResult::Array((0..c.rng.usize(5)).map(|_| finite(c)).collect()),
    };
    let r = json(&ar, &format!("{ar:?}"))?;
    ensure!(format!("{r:?}") == format!("{ar:?}"), "aggregation-json", "{ar:?}: JSON gives {r:?}");

    // segment times
    let nanos = |c: &mut Case| -> u128 {
        let secs = if c.rng.chance(1, 3) { c.rng.u64() >> c.rng.below(64) } else { c.rng.below(3) };
        secs as u128 * 1_000_000_000 + c.rng.below(1_000_000_000) as u128
    };
    let mut t = SerializableSegmentedExecutionTimes {
        io_read_nanos: nanos(c), io_write_nanos: nanos(c), xor_nanos: nanos(c), delta_nanos: nanos(c), quantization_nanos: nanos(c),
        bit_packing_nanos: nanos(c), compare_insert_nanos: nanos(c), sum_nanos: nanos(c), decompression_nanos: nanos(c),
    };
    ensure!(json(&t, "segment times")? == t, "times-json", "{t:?}: JSON gives other times");
    let native: SegmentedExecutionTimes = t.into();
    let back: SerializableSegmentedExecutionTimes = native.into();
    ensure!(back == t, "times-convert", "{t:?}: converted to {native:?} and back to {back:?}");
    let (a, b) = ({ t.io_read_nanos }, { t.decompression_nanos });
    ensure!(native.io_read().as_nanos() == a && native.decompression().as_nanos() == b, "times-convert", "{t:?}: converted to {native:?}");
    let bytes = t.to_le().as_bytes().to_vec();
    ensure!(SerializableSegmentedExecutionTimes::from_le_bytes(&bytes) == back, "times-bytes", "{back:?}: read back from bytes as {:?}", SerializableSegmentedExecutionTimes::from_le_bytes(&bytes));
    c.count("segment times", 1);
    c.count(&format!("codec {codec:?}"), 1);
    c.sign(hash_bytes(what.as_bytes()));
    c.sign(hash_bytes(format!("{p:?}{o:?}").as_bytes()));
    c.nontrivial = true;
    Ok(())
}

/// what the predicate says when every point of it, and the value, is negated
fn flipped(p: &Predicate, v: f64) -> bool {
    match p {
        Predicate::Range(r) => {
            let neg = |x: RangeValue| match x {
                RangeValue::Inclusive(x) => RangeValue::Inclusive(-x),
                RangeValue::Exclusive(x) => RangeValue::Exclusive(-x),
                RangeValue::None => RangeValue::None,
            };
            eval(&Predicate::Range(Range::new(neg(r.start()), neg(r.end()))), -v)
        }
        _ => eval(p, v),
    }
}

/// A stream whose transfers inside [from, to) take some time.
struct Slow {
    inner: Vio,
    from: u64,
    to: u64,
    left: u32,
    delay: Duration,
    spent: Rc<std::cell::Cell<Duration>>,
}
impl Slow {
    fn new(data: Vec<u8>, from: u64, to: u64, left: u32, us: u64) -> Slow {
        Slow { inner: Vio::new(data, &ctl()), from, to, left, delay: Duration::from_micros(us), spent: Default::default() }
    }
    fn wait(&mut self) {
        if self.left > 0 && self.inner.pos >= self.from && self.inner.pos < self.to {
            self.left -= 1;
            let t = Instant::now();
            while t.elapsed() < self.delay {
                std::hint::spin_loop();
            }
            self.spent.set(self.spent.get() + self.delay);
        }
    }
}
impl Read for Slow {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if !b.is_empty() {
            self.wait();
        }
        self.inner.read(b)
    }
}
impl Write for Slow {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if !b.is_empty() {
            self.wait();
        }
        self.inner.write(b)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.inner.flush()
    }
}
impl Seek for Slow {
    fn seek(&mut self, s: SeekFrom) -> std::io::Result<u64> {
        self.inner.seek(s)
    }
}

fn total(t: &SegmentedExecutionTimes) -> Duration {
    t.io_read() + t.io_write() + t.xor() + t.delta() + t.quantization() + t.bit_packing() + t.compare_insert() + t.sum() + t.decompression()
}

const KIND: [SegmentKind; 9] = [
    SegmentKind::IORead, SegmentKind::IOWrite, SegmentKind::Xor, SegmentKind::Delta, SegmentKind::Quantization,
    SegmentKind::BitPacking, SegmentKind::CompareInsert, SegmentKind::Sum, SegmentKind::Decompression,
];

fn at(t: &SegmentedExecutionTimes, i: usize) -> Duration {
    [t.io_read(), t.io_write(), t.xor(), t.delta(), t.quantization(), t.bit_packing(), t.compare_insert(), t.sum(), t.decompression()][i]
}

fn spin(d: Duration) {
    let t = Instant::now();
    while t.elapsed() < d {
        std::hint::spin_loop();
    }
}

/// C23: the times a file records and a reader reports.
pub fn c23(c: &mut Case) -> CaseResult {
    let codec = ALL[c.index as usize % ALL.len()];
    let n = 1 + gen_len(&mut c.rng, 600).min(2000);
    let (vals, k, grid) = gen_input(c, codec, n);
    let o = gen_chunk(&mut c.rng, n);
    let cfg = config_rand(&mut c.rng, codec, k);
    let what = format!("{codec:?} k={k} {} {}", show_chunk(o), show_vals(&vals));
    c.note(&what);
    let key = |s: &str| format!("{s}:{codec:?}");
    let plain = encode(&vals, o, cfg).map_err(|e| viol!(key("encode-failed"), "{what}: {e}"))?;
    let fo = u64at(&plain, 16);
    // ---- encoding with a slow input and a slow output
    let us = 50 + c.rng.below(300);
    let times = c.rng.below(4) as u32;
    let timesw = c.rng.below(4) as u32;
    let raw: Vec<u8> = vals.iter().flat_map(|v| v.to_le_bytes()).collect();
    let input = Slow::new(raw, 0, u64::MAX, times, us);
    let output = Slow::new(vec![], HEADER as u64, fo, timesw, us);
    let (din, dout) = (input.spent.clone(), output.spent.clone());
    let t0 = Instant::now();
    let mut e = Encoder::new(EncoderInput::from_reader(input), EncoderOutput::from_writer(output), o, cfg);
    es(e.encode()).map_err(|x| viol!(key("encode-failed"), "{what}: {x}"))?;
    let wall = t0.elapsed();
    let bytes = e.into_output().into_inner().inner.data;
    let d = open(&bytes).map_err(|x| viol!(key("open-failed"), "{what}: {x}"))?;
    let st = *d.footer().segmented_execution_times();
    let el = d.footer().compression_elapsed_time();
    ensure!(el.as_nanos() == d.footer().compression_elapsed_time_nano_secs(), key("elapsed"), "{what}: elapsed time {el:?} but {} ns", d.footer().compression_elapsed_time_nano_secs());
    ensure!(el <= wall, key("elapsed"), "{what}: the file records {el:?}, the encoding took {wall:?}");
    ensure!(el >= din.get() + dout.get(), key("elapsed"), "{what}: the file records {el:?}, {:?} went by waiting for input and output alone", din.get() + dout.get());
    ensure!(total(&st) <= el, key("encode-segments"), "{what}: segments {st:?} add up to more than the {el:?} recorded");
    ensure!(st.io_read() >= din.get(), key("encode-io-read"), "{what}: {:?} recorded as reading, {:?} went by waiting for input", st.io_read(), din.get());
    ensure!(st.io_write() >= dout.get(), key("encode-io-write"), "{what}: {:?} recorded as writing, {:?} went by waiting for output", st.io_write(), dout.get());
    c.count("encodings timed", 1);
    c.count("delays injected", times as u64 + timesw as u64);

    // ---- the work shows in the segments it is done in
    if n >= 500 {
        let (on_encode, on_decode): (&[usize], usize) = match codec {
            Codec::Gorilla | Codec::Chimp | Codec::Chimp128 | Codec::Elf | Codec::ElfOnChimp => (&[2], 2),
            Codec::Buff => (&[3, 4, 5], 5),
            Codec::Sprintz => (&[3, 4], 8), // a constant series needs no packing
            Codec::Uncompressed => (&[], 0),
            _ => (&[], 8),
        };
        for &i in on_encode {
            ensure!(at(&st, i) > Duration::ZERO, key("encode-work"), "{what}: no time recorded for {:?}", KIND[i]);
        }
        let mut d = open(&bytes).map_err(|x| viol!(key("open-failed"), "{what}: {x}"))?;
        let some = vals[c.rng.usize(n)];
        for (q, i) in [(Kind::Materialize, on_decode), (Kind::Materialize, 1), (Kind::Filter(Predicate::Ne(some)), 6), (Kind::Filter(Predicate::Eq(some)), 6), (Kind::Sum, 7), (Kind::Knn(vec![1.0]), 7), (Kind::Matmul(vec![2.0], (1, 1), (1, 1)), 7)] {
            let q = Query { kind: q, mask: None, chunk: None };
            q.run(&mut d).map_err(|x| viol!(key("query-failed"), "{what}: {}: {x}", q.show()))?;
            let st = d.segmented_execution_times();
            // (summing on compressed data may be reported as comparing)
            let t = if i == 7 { at(&st, 6) + at(&st, 7) } else { at(&st, i) };
            ensure!(t > Duration::ZERO, key("query-work"), "{what}: {}: no time reported for {:?}: {st:?}", q.show(), KIND[i]);
            ensure!(at(&st, 0) > Duration::ZERO, key("query-work"), "{what}: {}: no time reported for reading: {st:?}", q.show());
            c.count("segments of work seen", 2);
        }
    }

    // ---- a history of queries on a slow file
    let bd = bounds(&d);
    let w = World { codec, bytes, orig: vals.clone(), model: vals.clone(), bounds: bd, option: o, grid, what: what.clone() };
    let arm = Rc::new(std::cell::Cell::new(0u32));
    let file = Slow::new(w.bytes.clone(), HEADER as u64, fo, 0, us);
    let spent2 = file.spent.clone();
    let mut d = es(Decoder::new(DecoderInput::from_reader(Armed { s: file, arm: arm.clone() }))).map_err(|x| viol!(key("open-failed"), "{what}: {x}"))?;
    for _ in 0..2 + c.rng.usize(3) {
        let q = gen_query(c, &w);
        if q.show().contains("Cr") {
            continue;
        }
        arm.set(if c.rng.chance(1, 2) { 1 + c.rng.below(3) as u32 } else { 0 });
        spent2.set(Duration::ZERO);
        let mut out = Slow::new(vec![], 0, u64::MAX, if c.rng.chance(1, 2) { 2 } else { 0 }, us);
        let dw = out.spent.clone();
        let t0 = Instant::now();
        let r = q.run_to(&mut d, &mut out);
        let wall = t0.elapsed();
        if r.is_err() {
            continue;
        }
        let st = d.segmented_execution_times();
        let how = format!("{what}: {}", q.show());
        ensure!(total(&st) <= wall, key("query-segments"), "{how}: segments {st:?} add up to more than the {wall:?} the query took");
        ensure!(st.io_read() >= spent2.get(), key("query-io-read"), "{how}: {:?} reported as reading, {:?} went by waiting for the file", st.io_read(), spent2.get());
        ensure!(st.io_write() >= dw.get(), key("query-io-write"), "{how}: {:?} reported as writing, {:?} went by waiting for output", st.io_write(), dw.get());
        c.count("queries timed", 1);
        c.count("delays injected", (spent2.get() + dw.get() > Duration::ZERO) as u64);
    }

    // ---- expressions over the slow file
    if w.model.len() > 0 {
        let mut ds = [d];
        let col = || Box::new(Expr::Index(0));
        for _ in 0..2 {
            let e = match c.rng.below(4) {
                0 => Expr::Index(0),
                1 => Expr::Binary { op: Op::Mul, lhs: col(), rhs: Box::new(Expr::Literal(2.0)) },
                2 => Expr::Binary { op: Op::Add, lhs: col(), rhs: col() },
                _ => Expr::Binary { op: Op::Sub, lhs: Box::new(Expr::Binary { op: Op::Mul, lhs: col(), rhs: col() }), rhs: col() },
            };
            let how = format!("{what}: sum of {e:?}");
            arm.set(1 + c.rng.below(3) as u32);
            spent2.set(Duration::ZERO);
            let many = c.rng.chance(1, 2);
            let mut st = SegmentedExecutionTimes::new();
            let t0 = Instant::now();
            let a = Aggregation::sum(e);
            let r = if many { es(Aggregation::compute_multiple(&[a, Aggregation::max(Expr::Index(0))], &mut ds, None, &mut st)).map(|_| ()) } else { es(a.compute(&mut ds, None, &mut st)).map(|_| ()) };
            let wall = t0.elapsed();
            r.map_err(|x| viol!(key("query-failed"), "{how}: {x}"))?;
            ensure!(total(&st) <= wall, key("expression-segments"), "{how}: segments {st:?} add up to more than the {wall:?} it took");
            ensure!(st.io_read() >= spent2.get(), key("expression-io-read"), "{how}: {:?} reported as reading, {:?} went by waiting for the file", st.io_read(), spent2.get());
            c.count("expressions timed", 1);
        }
    }

    // ---- the stop watch itself
    let mut t = SegmentedExecutionTimes::new();
    let mut low = [Duration::ZERO; 9];
    let mut high = [Duration::ZERO; 9];
    for _ in 0..6 {
        let i = c.rng.usize(9);
        let d = Duration::from_micros(c.rng.below(40));
        let add = c.rng.chance(1, 2);
        let stop = c.rng.below(4);
        let t0 = Instant::now();
        let mut m = if add { t.start_addition_measurement(KIND[i]) } else { t.start_measurement(KIND[i]) };
        spin(d);
        match stop {
            0 => m.stop(),
            1 => {
                m.stop_on_drop();
                drop(m);
            }
            2 => {
                // stopped before it would be dropped: counted once
                m.stop_on_drop();
                m.stop();
            }
            _ => drop(m), // abandoned: not counted
        }
        let dt = t0.elapsed();
        if stop < 3 {
            if !add {
                low[i] = Duration::ZERO;
                high[i] = Duration::ZERO;
            }
            low[i] += d;
            high[i] += dt;
        }
        for j in 0..9 {
            ensure!(at(&t, j) >= low[j] && at(&t, j) <= high[j], "stop-watch", "{:?}: {:?}, between {:?} and {:?} measured", KIND[j], at(&t, j), low[j], high[j]);
        }
    }
    let before = t;
    t += before;
    for j in 0..9 {
        ensure!(at(&t, j) == at(&before, j) * 2, "stop-watch-sum", "{:?}: {:?} + the same = {:?}", KIND[j], at(&before, j), at(&t, j));
    }
    c.count("stop watches", 1);
    c.count(&format!("codec {codec:?}"), 1);
    c.sign(hash_bytes(&plain[..fo as usize]));
    c.sign(us ^ (times as u64) << 32 ^ (timesw as u64) << 40);
    c.nontrivial = din.get() + dout.get() > Duration::ZERO;
    Ok(())
}

/// A slow file whose delays can be armed while a decoder owns it.
struct Armed {
    s: Slow,
    arm: Rc<std::cell::Cell<u32>>,
}
impl Read for Armed {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.s.left = self.arm.get();
        let r = self.s.read(b);
        self.arm.set(self.s.left);
        r
    }
}
impl Seek for Armed {
    fn seek(&mut self, s: SeekFrom) -> std::io::Result<u64> {
        self.s.seek(s)
    }
}

/// The parts of a file, between their struct and byte forms; the bytes are those the format describes.
fn layout(c: &mut Case) -> CaseResult {
    use ebi::format::deserialize::{TryFromLeBytes, TryFromLeBytesExt};
    use ebi::format::*;
    let some = |c: &mut Case| c.rng.u64() >> c.rng.below(64);
    let (a, b, s) = (some(c), some(c), some(c));
    let mut w = a.to_le_bytes().to_vec();
    w.extend(b.to_le_bytes());

    let f = ChunkFooter::from_le_bytes(&w);
    ensure!({ f.physical_offset } == a && { f.logical_offset } == b, "layout-chunk", "chunk entry ({a}, {b}) read as {f:?}");
    let g = ChunkFooter::from_le_bytes_by_reader(&mut &w[..]).map_err(|e| viol!("layout-chunk", "chunk entry ({a}, {b}): {e}"))?;
    ensure!(f == g, "layout-chunk", "chunk entry ({a}, {b}) read as {g:?} from a stream");
    let mut f = ChunkFooter { physical_offset: a, logical_offset: b };
    ensure!(f.to_le().as_bytes() == w, "layout-chunk", "chunk entry ({a}, {b}) written as {:?}", f.as_bytes());
    ensure!([f, f].as_bytes() == [&w[..], &w[..]].concat(), "layout-chunk", "two chunk entries ({a}, {b}) written as {:?}", [f, f].as_bytes());

    let f = FileFooter0::from_le_bytes(&w);
    ensure!({ f.number_of_records } == a && { f.number_of_chunks } == b, "layout-footer", "{a} records in {b} chunks read as {} in {}", { f.number_of_records }, { f.number_of_chunks });
    let mut f = FileFooter0 { number_of_records: a, number_of_chunks: b };
    ensure!(f.to_le().as_bytes() == w, "layout-footer", "{a} records in {b} chunks written as {:?}", f.as_bytes());

    let nanos = (a as u128) << 64 | b as u128;
    let t = SerializableSegmentedExecutionTimes {
        io_read_nanos: nanos ^ 1, io_write_nanos: nanos ^ 2, xor_nanos: nanos ^ 3, delta_nanos: nanos ^ 4, quantization_nanos: nanos ^ 5,
        bit_packing_nanos: nanos ^ 6, compare_insert_nanos: nanos ^ 7, sum_nanos: nanos ^ 8, decompression_nanos: nanos ^ 9,
    };
    let mut f = FileFooter3 { compression_elapsed_time_nano_secs: nanos, execution_elapsed_times_nano_secs: t, crc: s as u32 };
    let mut w3 = nanos.to_le_bytes().to_vec();
    for i in 1..10u128 {
        w3.extend((nanos ^ i).to_le_bytes());
    }
    w3.extend((s as u32).to_le_bytes());
    // the order of the nine segments is theirs; everything else is fixed
    let mut got = f.to_le().as_bytes().to_vec();
    ensure!(got.len() == w3.len(), "layout-times", "times written as {} bytes", got.len());
    let r = FileFooter3::from_le_bytes(&got);
    ensure!({ r.compression_elapsed_time_nano_secs } == nanos && { r.execution_elapsed_times_nano_secs } == t && { r.crc } == s as u32, "layout-times", "times of {nanos} read back otherwise");
    got[16..160].chunks_mut(16).for_each(|x| x.reverse());
    let mut parts: Vec<Vec<u8>> = got[16..160].chunks(16).map(|x| x.to_vec()).collect();
    parts.sort();
    let mut want: Vec<Vec<u8>> = (1..10u128).map(|i| (nanos ^ i).to_be_bytes().to_vec()).collect();
    want.sort();
    ensure!(parts == want && got[..16] == w3[..16] && got[160..] == w3[160..], "layout-times", "times of {nanos} written as {got:?}");

    let kind = c.rng.below(3) as u8;
    let scheme = c.rng.below(13) as u8;
    let version = [some(c) as u16, some(c) as u16, some(c) as u16];
    let mut w = b"EBI1".to_vec();
    w.extend([0, scheme, kind, 0]);
    w.extend(a.to_le_bytes());
    w.extend(b.to_le_bytes());
    for v in version {
        w.extend(v.to_le_bytes());
    }
    let read = [FileHeader::try_from_le_bytes(&w).map_err(|e| viol!("layout-header", "header {w:?}: {e}"))?, FileHeader::try_from_le_bytes_by_reader(&mut &w[..]).map_err(|e| viol!("layout-header", "header {w:?}: {e}"))?];
    for h in read {
        ensure!(
            { h.footer_offset } == b && { h.version } == version && { h.config.compression_scheme } as u8 == scheme && { h.config.chunk_option.value } == a && { h.magic_number } == *b"EBI1",
            "layout-header",
            "header {w:?} read as footer at {}, version {:?}, {:?}, option value {}",
            { h.footer_offset },
            { h.version },
            { h.config.compression_scheme },
            { h.config.chunk_option.value }
        );
        let mut h = h;
        ensure!(h.to_le().as_bytes() == w, "layout-header", "header {w:?} written as {:?}", h.as_bytes());
    }
    let mut h = ebi::format::run_length::RunLengthHeader::from_le_bytes(&a.to_le_bytes());
    ensure!(h.number_of_fields() == a, "layout-runs", "{a} runs read as {}", h.number_of_fields());
    h.set_number_of_fields(b);
    ensure!(h.to_le().as_bytes() == b.to_le_bytes(), "layout-runs", "{b} runs written as {:?}", h.as_bytes());
    c.count("file parts", 6);
    Ok(())
}
