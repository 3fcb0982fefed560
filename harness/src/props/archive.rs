//! C30: files written by the archived release and by the tree under test are interchangeable.
use crate::api::*;
use crate::fw::*;
use crate::gen::*;
use crate::world::*;
use crate::{ensure, viol};
use ebi_archive as old;
use std::io::Cursor;

/// A codec setting both releases understand.
#[derive(Clone, Copy, Debug)]
struct Setting {
    codec: Codec,
    cap: Option<u64>,
    level: Option<i32>,
    scale: u64,
}

macro_rules! configs {
    ($name:ident, $k:ident) => {
        fn $name(s: Setting) -> $k::compressor::CompressorConfig {
            use $k::compressor::CompressorConfig as C;
            macro_rules! cap {
                ($b:expr) => {{
                    let b = $b;
                    match s.cap {
                        Some(c) => b.capacity(c).build().into(),
                        None => b.build().into(),
                    }
                }};
            }
            match s.codec {
                Codec::Uncompressed => cap!(C::uncompressed()),
                Codec::Rle => cap!(C::rle()),
                Codec::Gorilla => cap!(C::gorilla()),
                Codec::Chimp => cap!(C::chimp()),
                Codec::Chimp128 => cap!(C::chimp128()),
                Codec::ElfOnChimp => cap!(C::elf_on_chimp()),
                Codec::Elf => cap!(C::elf()),
                Codec::Zstd => match s.level {
                    Some(l) => C::zstd().level(l).build().into(),
                    None => C::zstd().build().into(),
                },
                Codec::Gzip => match s.level {
                    Some(l) => C::gzip().level(l as u32).build().into(),
                    None => C::gzip().build().into(),
                },
                Codec::Snappy => C::snappy().build().into(),
                Codec::Alp => C::ffi_alp().build().into(),
                Codec::Buff => C::buff().scale(s.scale).build().into(),
                Codec::Sprintz => cap!(C::delta_sprintz().scale(s.scale)),
            }
        }
    };
}
configs!(new_config, ebi);
configs!(old_config, old);

fn old_option(o: ebi::encoder::ChunkOption) -> old::encoder::ChunkOption {
    use ebi::encoder::ChunkOption as N;
    use old::encoder::ChunkOption as O;
    match o {
        N::Full => O::Full,
        N::RecordCount(n) => O::RecordCount(n),
        N::ByteSizeBestEffort(n) => O::ByteSizeBestEffort(n),
    }
}

fn old_pred(p: &ebi::decoder::query::Predicate) -> old::decoder::query::Predicate {
    use ebi::decoder::query::{Predicate as P, RangeValue as V};
    use old::decoder::query as o;
    let v = |x: V| match x {
        V::Inclusive(x) => o::RangeValue::Inclusive(x),
        V::Exclusive(x) => o::RangeValue::Exclusive(x),
        V::None => o::RangeValue::None,
    };
    match p {
        P::Eq(x) => o::Predicate::Eq(*x),
        P::Ne(x) => o::Predicate::Ne(*x),
        P::Range(r) => o::Predicate::Range(o::Range::new(v(r.start()), v(r.end()))),
    }
}

/// Everything a release makes of a file.
#[derive(Debug, PartialEq)]
struct Seen {
    records: u64,
    /// physical and logical offset of every chunk
    chunks: Vec<(u64, u64)>,
    footer_offset: u64,
    scheme: u8,
    option: (u8, u64),
    scale: Option<u64>,
    elapsed: u128,
    times: [u128; 9],
}

macro_rules! lookers {
    ($see:ident, $answers:ident, $encode:ident, $k:ident) => {
        fn $see(bytes: &[u8]) -> Result<(Seen, Vec<u64>, Vec<u64>), String> {
            use $k::api::decoder::{ChunkId, Decoder, DecoderInput, DecoderOutput};
            use $k::encoder::ChunkOption as O;
            let mut d = es(Decoder::new(DecoderInput::from_reader(Cursor::new(bytes.to_vec()))))?;
            let t: $k::time::SerializableSegmentedExecutionTimes = (*d.footer().segmented_execution_times()).into();
            let seen = Seen {
                records: d.footer().number_of_records(),
                chunks: d.chunk_footers().iter().map(|f| (f.physical_offset(), f.logical_offset())).collect(),
                footer_offset: d.header().footer_offset(),
                scheme: *d.header().config().compression_scheme() as u8,
                option: match *d.header().config().chunk_option() {
                    O::Full => (0, 0),
                    O::RecordCount(n) => (1, n as u64),
                    O::ByteSizeBestEffort(n) => (2, n as u64),
                },
                scale: d.footer().compressor_config().scale(),
                elapsed: d.footer().compression_elapsed_time_nano_secs(),
                times: [
                    t.io_read_nanos, t.io_write_nanos, t.xor_nanos, t.delta_nanos, t.quantization_nanos, t.bit_packing_nanos,
                    t.compare_insert_nanos, t.sum_nanos, t.decompression_nanos,
                ],
            };
            let mut out = DecoderOutput::from_vec(Vec::new());
            es(d.materialize(&mut out, None, None))?;
            let all = to_f64(&out.into_writer().into_inner()).into_iter().map(f64::to_bits).collect();
            let mut it = vec![];
            for i in 0..d.chunk_footers().len() {
                let mut cr = es(d.chunk_reader(ChunkId::new(i)))?;
                let iter = es(cr.inner_mut().decompress_iter())?;
                for x in iter {
                    it.push(es(x)?.to_bits());
                }
            }
            Ok((seen, all, it))
        }
        fn $answers(bytes: &[u8], p: $k::decoder::query::Predicate, m: Mask) -> Result<(roaring::RoaringBitmap, f64, f64), String> {
            use $k::api::decoder::{Decoder, DecoderInput};
            let mut d = es(Decoder::new(DecoderInput::from_reader(Cursor::new(bytes.to_vec()))))?;
            Ok((es(d.filter(p, m, None))?, es(d.min(m, None))?, es(d.max(m, None))?))
        }
        fn $encode(vals: &[f64], o: $k::encoder::ChunkOption, c: $k::compressor::CompressorConfig) -> Result<Vec<u8>, String> {
            use $k::api::encoder::{Encoder, EncoderInput, EncoderOutput};
            let mut e = Encoder::new(EncoderInput::from_f64_slice(vals), EncoderOutput::from_vec(Vec::new()), o, c);
            es(e.encode())?;
            Ok(e.into_output().into_vec())
        }
    };
}
lookers!(new_see, new_answers, new_encode, ebi);
lookers!(old_see, old_answers, old_encode, old);

pub fn c30(c: &mut Case) -> CaseResult {
    let codec = ALL[c.index as usize % ALL.len()];
    let n = gen_len(&mut c.rng, 2000);
    let (vals, k, grid) = super::files::gen_input(c, codec, n);
    let o = gen_chunk(&mut c.rng, n);
    let s = Setting {
        codec,
        cap: if c.rng.chance(1, 2) { Some(c.rng.pick(&[1u64, 8, 100, 8000, 65536])) } else { None },
        level: if c.rng.chance(1, 2) { Some(c.rng.pick(&[1, 3, 6, 9])) } else { None },
        scale: 10u64.pow(k),
    };
    let what = format!("{s:?} {} {}", show_chunk(o), show_vals(&vals));
    c.note(&what);
    let key = |s: &str| format!("{s}:{codec:?}");
    let trust = |e: String| viol!("archive", "{what}: the archived release fails: {e}");
    let old_file = old_encode(&vals, old_option(o), old_config(s)).map_err(trust)?;
    let new_file = new_encode(&vals, o, new_config(s)).map_err(|e| viol!(key("encode-failed"), "{what}: {e}"))?;

    for (who, file) in [("an archived file", &old_file), ("a new file", &new_file)] {
        let mine = who == "a new file";
        let by_old = match old_see(file) {
            Ok(x) => x,
            Err(e) if mine => return Err(viol!(key("unreadable-before"), "{what}: the archived release cannot read a new file: {e}")),
            Err(e) => return Err(trust(e)),
        };
        let by_new = new_see(file).map_err(|e| viol!(key("unreadable-now"), "{what}: cannot read {who}: {e}"))?;
        ensure!(by_new.0 == by_old.0, key("description"), "{what}: {who} is described as {:?}, by the archived release as {:?}", by_new.0, by_old.0);
        for (how, a, b) in [("materialize", &by_new.1, &by_old.1), ("decompress_iter", &by_new.2, &by_old.2)] {
            let i = (0..a.len().max(b.len())).find(|&i| a.get(i) != b.get(i) && !matches!((a.get(i), b.get(i)), (Some(x), Some(y)) if f64::from_bits(*x).is_nan() && f64::from_bits(*y).is_nan()));
            if let Some(i) = i {
                return Err(viol!(key("meaning"), "{what}: {how} of {who}: record {i} is {:x?}, read as {:x?} by the archived release ({} and {} records)", a.get(i), b.get(i), a.len(), b.len()));
            }
            c.count("values compared", a.len() as u64);
        }
        if !codec.scaled() {
            // both files hold the input
            let i = (0..n).find(|&i| by_old.1.get(i).is_none_or(|&x| !same(f64::from_bits(x), vals[i])));
            ensure!(i.is_none(), key("meaning"), "{what}: {who}: the archived release reads record {i:?} otherwise");
        }
        c.count(if mine { "new files read by the archived release" } else { "archived files read" }, 1);
        if n > 0 {
            let bounds: Vec<usize> = by_old.0.chunks.iter().map(|x| x.1 as usize).chain([n]).collect();
            let (m, _) = gen_mask(&mut c.rng, n, &bounds);
            let m = m.filter(|m| m.range(0..n as u32).next().is_some());
            let p = match &grid {
                None => gen_pred(&mut c.rng, &vals),
                Some(g) => gen_pred_grid(&mut c.rng, g, codec),
            };
            let a = new_answers(file, p, m.as_ref()).map_err(|e| viol!(key("query-failed"), "{what}: {who}: {e}"))?;
            let b = match old_answers(file, old_pred(&p), m.as_ref()) {
                Ok(x) => x,
                Err(e) => return Err(viol!(key("unreadable-before"), "{what}: the archived release cannot query {who}: {e}")),
            };
            let eq = a.0 == b.0 && a.1 == b.1 && a.2 == b.2;
            ensure!(eq, key("answers"), "{what}: {who}: {p:?} {}: {} records, min {:e}, max {:e}; the archived release finds {}, {:e}, {:e}", show_mask(m.as_ref()), a.0.len(), a.1, a.2, b.0.len(), b.1, b.2);
            c.count("queries compared", 3);
        }
    }
    c.count("files equal to the byte", (super::files::blank_times(&old_file) == super::files::blank_times(&new_file)) as u64);
    settings(c, s, o)?;
    c.count(&format!("codec {:?}", codec), 1);
    c.nontrivial = n > 1;
    c.sign(crate::rng::hash_bytes(&new_file[..new_file.len().min(4000)]));
    Ok(())
}

/// Settings as text: what one release wrote, the other understands.
fn settings(c: &mut Case, s: Setting, o: ebi::encoder::ChunkOption) -> CaseResult {
    let key = |k: &str| format!("{k}:{:?}", s.codec);
    let (nc, oc) = (new_config(s), old_config(s));
    let text = es(serde_json::to_string(&oc)).map_err(|e| viol!("archive", "{oc:?}: {e}"))?;
    let got: ebi::compressor::CompressorConfig = es(serde_json::from_str(&text)).map_err(|e| viol!(key("settings"), "{text}: {e}"))?;
    ensure!(got == nc, key("settings"), "{text} is read as {got:?}, not {nc:?}");
    let text = es(serde_json::to_string(&nc)).map_err(|e| viol!(key("settings"), "{nc:?}: {e}"))?;
    let got: old::compressor::CompressorConfig = es(serde_json::from_str(&text)).map_err(|e| viol!(key("settings"), "{text}: not understood by the archived release: {e}"))?;
    ensure!(got == oc, key("settings"), "{text} is read as {got:?} by the archived release, not {oc:?}");
    let oo = old_option(o);
    let text = es(serde_json::to_string(&oo)).map_err(|e| viol!("archive", "{oo:?}: {e}"))?;
    let got: ebi::encoder::ChunkOption = es(serde_json::from_str(&text)).map_err(|e| viol!("option", "{text}: {e}"))?;
    ensure!(got == o, "option", "{text} is read as {got:?}, not {o:?}");
    let text = es(serde_json::to_string(&o)).map_err(|e| viol!("option", "{o:?}: {e}"))?;
    let got: old::encoder::ChunkOption = es(serde_json::from_str(&text)).map_err(|e| viol!("option", "{text}: not understood by the archived release: {e}"))?;
    ensure!(got == oo, "option", "{text} is read as {got:?} by the archived release, not {oo:?}");
    let v = finite_values(c);
    let p = gen_pred(&mut c.rng, &v);
    if finite_pred(&p) {
        let op = old_pred(&p);
        let text = es(serde_json::to_string(&op)).map_err(|e| viol!("archive", "{op:?}: {e}"))?;
        let got: ebi::decoder::query::Predicate = es(serde_json::from_str(&text)).map_err(|e| viol!("predicate", "{text}: {e}"))?;
        ensure!(got == p, "predicate", "{text} is read as {got:?}, not {p:?}");
        let text = es(serde_json::to_string(&p)).map_err(|e| viol!("predicate", "{p:?}: {e}"))?;
        let got: old::decoder::query::Predicate = es(serde_json::from_str(&text)).map_err(|e| viol!("predicate", "{text}: not understood by the archived release: {e}"))?;
        ensure!(got == op, "predicate", "{text} is read as {got:?} by the archived release, not {op:?}");
        c.count("predicates exchanged", 1);
    }
    c.count("settings exchanged", 1);
    Ok(())
}

fn finite_values(c: &mut Case) -> Vec<f64> {
    (0..4).map(|_| decimal(c.rng.range(-100_000, 100_000), c.rng.below(6) as u32)).collect()
}
fn finite_pred(p: &ebi::decoder::query::Predicate) -> bool {
    use ebi::decoder::query::{Predicate as P, RangeValue as V};
    let v = |x: V| match x {
        V::Inclusive(x) | V::Exclusive(x) => x.is_finite(),
        V::None => true,
    };
    match p {
        P::Eq(x) | P::Ne(x) => x.is_finite(),
        P::Range(r) => v(r.start()) && v(r.end()),
    }
}
