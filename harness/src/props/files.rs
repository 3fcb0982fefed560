//! File format, delivery, faults, crash points, damage.
use crate::api::*;
use crate::fw::*;
use crate::gen::*;
use crate::q::*;
use crate::vio::*;
use crate::world::*;
use crate::{ensure, viol};
use ebi::api::decoder::{ChunkId, Decoder, DecoderInput};
use ebi::api::encoder::{Encoder, EncoderInput, EncoderOutput};
use ebi::compressor::CompressorConfig;
use ebi::encoder::ChunkOption;
use std::io::{BufWriter, Cursor};

pub const HEADER: usize = 30;
/// compression time (16), nine segment times (16 each), checksum (4)
pub const TAIL: usize = 16 + 9 * 16 + 4;

pub fn u64at(b: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(b[o..o + 8].try_into().unwrap())
}

/// The file with its timing fields blanked.
pub fn blank_times(b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    let n = v.len();
    if n >= TAIL {
        v[n - TAIL..n - 4].fill(0);
    }
    v
}

pub fn gen_input(c: &mut Case, codec: Codec, n: usize) -> (Vec<f64>, u32, Option<Grid>) {
    if codec.scaled() {
        let g = gen_grid(&mut c.rng, codec, n);
        (g.vals.clone(), g.k, Some(g))
    } else {
        (gen_values(&mut c.rng, n).0, 0, None)
    }
}

/// C10: what the file says about itself.
pub fn c10(c: &mut Case) -> CaseResult {
    if c.index == 41 {
        return vast(c);
    }
    let codec = ALL[c.index as usize % ALL.len()];
    let n = gen_len(&mut c.rng, 2500);
    let (vals, k, _) = gen_input(c, codec, n);
    let o = gen_chunk(&mut c.rng, n);
    let cfg = config_rand(&mut c.rng, codec, k);
    let what = format!("{:?} k={k} {} {}", codec, show_chunk(o), show_vals(&vals));
    c.note(&what);
    let key = |s: &str| format!("{s}:{codec:?}");
    if c.rng.chance(1, 40) && n > 0 {
        // no record fits: an error, or else all records all the same
        let z = if c.rng.chance(1, 2) { ChunkOption::RecordCount(0) } else { ChunkOption::ByteSizeBestEffort(0) };
        if let Ok(b) = encode(&vals, z, cfg) {
            let d = open(&b).map_err(|e| viol!(key("open-failed"), "{what}: {z:?}: {e}"))?;
            ensure!(d.footer().number_of_records() as usize == n, key("chunk-limit"), "{what}: {z:?} keeps {} of {n} records", d.footer().number_of_records());
        }
        c.count("limits of nothing", 1);
    }
    c.count("limits beyond any input", matches!(o, ChunkOption::RecordCount(m) | ChunkOption::ByteSizeBestEffort(m) if m >= 1 << 33) as u64);
    let t0 = std::time::Instant::now();
    let b = encode(&vals, o, cfg).map_err(|e| viol!(key("encode-failed"), "{what}: {e}"))?;
    let wall = t0.elapsed().as_nanos();
    // ---- parse the bytes independently of the library
    ensure!(b.len() >= HEADER + 16 + 1 + TAIL, key("layout"), "{what}: file of {} bytes", b.len());
    ensure!(&b[..4] == b"EBI1", key("magic"), "{what}: magic {:?}", &b[..4]);
    ensure!(b[4] == 0 && b[5] == codec.wire(), key("scheme"), "{what}: field type {} scheme {}", b[4], b[5]);
    let (kind, val) = match o {
        ChunkOption::Full => (0, 0),
        ChunkOption::RecordCount(x) => (1, x as u64),
        ChunkOption::ByteSizeBestEffort(x) => (2, x as u64),
    };
    ensure!(b[6] == kind && u64at(&b, 8) == val, key("chunk-option"), "{what}: stored chunk option {} {}", b[6], u64at(&b, 8));
    let fo = u64at(&b, 16) as usize;
    ensure!(fo >= HEADER && fo + 17 + TAIL <= b.len(), key("footer-offset"), "{what}: footer offset {fo} in a file of {} bytes", b.len());
    let records = u64at(&b, fo) as usize;
    let chunks = u64at(&b, fo + 8) as usize;
    ensure!(records == n, key("records"), "{what}: {records} records recorded, {n} encoded");
    let co = fo + 16 + 16 * chunks;
    ensure!(co < b.len() && co + 1 + b[co] as usize + TAIL == b.len(), key("tiling"), "{what}: footer does not end at the end of the file ({chunks} chunks, {} bytes)", b.len());
    let phys: Vec<usize> = (0..chunks).map(|i| u64at(&b, fo + 16 + 16 * i) as usize).chain([fo]).collect();
    let logi: Vec<usize> = (0..chunks).map(|i| u64at(&b, fo + 24 + 16 * i) as usize).chain([records]).collect();
    ensure!(phys[0] == HEADER, key("tiling"), "{what}: first chunk at {}", phys[0]);
    ensure!(logi[0] == 0, key("tiling"), "{what}: first chunk starts at record {}", logi[0]);
    for i in 0..chunks {
        ensure!(phys[i] < phys[i + 1], key("tiling"), "{what}: chunk {i} occupies {}..{}", phys[i], phys[i + 1]);
        ensure!(logi[i] < logi[i + 1], key("tiling"), "{what}: chunk {i} holds records {}..{}", logi[i], logi[i + 1]);
    }
    match o {
        ChunkOption::Full => ensure!(chunks == (n > 0) as usize, key("chunk-limit"), "{what}: {chunks} chunks"),
        ChunkOption::RecordCount(m) => {
            ensure!(chunks == n.div_ceil(m), key("chunk-limit"), "{what}: {chunks} chunks of at most {m} records for {n} records");
            for i in 0..chunks {
                let l = logi[i + 1] - logi[i];
                ensure!(l == m || (i + 1 == chunks && l <= m), key("chunk-limit"), "{what}: chunk {i} of {chunks} holds {l} records");
            }
        }
        ChunkOption::ByteSizeBestEffort(m) => {
            // the best effort: not over twice the size asked for, and no smaller than needed
            for i in 0..chunks {
                let (l, z) = (logi[i + 1] - logi[i], phys[i + 1] - phys[i]);
                ensure!(z as u128 <= 2 * m as u128 + 160, key("chunk-limit"), "{what}: chunk {i} of {chunks} takes {z} bytes for {l} records");
                ensure!(i + 1 == chunks || 12 * l + 8 >= m, key("chunk-limit"), "{what}: chunk {i} of {chunks} holds {l} records in {z} bytes");
            }
        }
    }
    // ---- what the library reports
    let d = open(&b).map_err(|e| viol!(key("open-failed"), "{what}: {e}"))?;
    let h = *d.header();
    ensure!(h.footer_offset() as usize == fo, key("accessor"), "{what}: footer_offset() {}", h.footer_offset());
    ensure!(*h.config().compression_scheme() == codec.scheme(), key("accessor"), "{what}: scheme {:?}", h.config().compression_scheme());
    ensure!(*h.config().chunk_option() == o, key("accessor"), "{what}: chunk option {:?}", h.config().chunk_option());
    ensure!(d.footer().number_of_records() as usize == n, key("accessor"), "{what}: number_of_records() {}", d.footer().number_of_records());
    ensure!(d.footer().number_of_chunks() as usize == chunks && d.chunk_footers().len() == chunks, key("accessor"), "{what}: number_of_chunks() {}", d.footer().number_of_chunks());
    ensure!(d.total_file_size() as usize == b.len(), key("accessor"), "{what}: total_file_size() {} of {}", d.total_file_size(), b.len());
    ensure!(d.total_chunk_size() as usize == fo - HEADER, key("accessor"), "{what}: total_chunk_size() {} of {}", d.total_chunk_size(), fo - HEADER);
    ensure!(d.footer_size() as usize == b.len() - fo, key("accessor"), "{what}: footer_size() {} of {}", d.footer_size(), b.len() - fo);
    ensure!(*d.footer().compressor_config() == cfg, key("config"), "{what}: stored configuration {:?}, requested {:?}", d.footer().compressor_config(), cfg);
    for i in 0..chunks {
        let f = &d.chunk_footers()[i];
        ensure!(f.physical_offset() as usize == phys[i] && f.logical_offset() as usize == logi[i], key("accessor"), "{what}: chunk {i} at {} / {}", f.physical_offset(), f.logical_offset());
    }
    let t = d.footer().compression_elapsed_time().as_nanos();
    ensure!(t == d.footer().compression_elapsed_time_nano_secs() && t <= wall, key("elapsed"), "{what}: recorded compression time {t} ns, the call took {wall} ns");
    // chunk handles as the readers see them
    let mut d = d;
    for _ in 0..3 {
        if chunks == 0 {
            break;
        }
        let i = c.rng.usize(chunks);
        let cr = es(d.chunk_reader(ChunkId::new(i))).map_err(|e| viol!(key("chunk-reader-failed"), "{what}: {e}"))?;
        ensure!(cr.number_of_records() as usize == logi[i + 1] - logi[i] && cr.chunk_index() == i && cr.is_last_chunk() == (i + 1 == chunks), key("accessor"), "{what}: chunk reader {i}: {} records, index {}, last {}", cr.number_of_records(), cr.chunk_index(), cr.is_last_chunk());
        ensure!(cr.chunk_footer().logical_offset() as usize == logi[i], key("accessor"), "{what}: chunk reader {i} at record {}", cr.chunk_footer().logical_offset());
    }
    // FileReader: metadata without a decoder
    let mut fr = ebi::decoder::FileReader::new();
    let mut cur = Cursor::new(&b);
    es(fr.fetch_header(&mut cur).map(|_| ())).map_err(|e| viol!(key("open-failed"), "{what}: {e}"))?;
    es(fr.seek_to_footer(&mut cur)).map_err(|e| viol!(key("open-failed"), "{what}: {e}"))?;
    es(fr.fetch_footer(&mut cur).map(|_| ())).map_err(|e| viol!(key("open-failed"), "{what}: {e}"))?;
    let m = fr.into_metadata().ok_or_else(|| viol!(key("open-failed"), "{what}: no metadata after reading header and footer"))?;
    let mut nh = 0;
    for (i, h) in m.chunks_iter().enumerate() {
        ensure!(
            h.chunk_size() as usize == phys[i + 1] - phys[i]
                && h.physical_offset() as usize == phys[i]
                && h.next_physical_offset() as usize == phys[i + 1]
                && h.logical_offset() as usize == logi[i]
                && h.next_logical_offset() as usize == logi[i + 1]
                && h.number_of_records() as usize == logi[i + 1] - logi[i]
                && h.logical_record_range() == (logi[i] as u64..logi[i + 1] as u64)
                && h.logical_record_range_u32() == (logi[i] as u32..logi[i + 1] as u32)
                && h.is_last_chunk() == (i + 1 == chunks)
                && h.chunk_index() == i,
            key("handle"), "{what}: handle of chunk {i}"
        );
        nh += 1;
    }
    ensure!(nh == chunks, key("handle"), "{what}: {nh} chunk handles for {chunks} chunks");
    c.count(&format!("codec {:?}", codec), 1);
    c.count("chunks described", chunks as u64);
    c.count("files without chunks", (chunks == 0) as u64);
    c.sign(crate::rng::hash_bytes(&blank_times(&b)));
    c.nontrivial = chunks > 1;
    Ok(())
}

/// A stream of mostly zero bytes that remembers the rest.
#[derive(Default)]
struct Sparse {
    pages: std::collections::HashMap<u64, Box<[u8]>>,
    len: u64,
    pos: u64,
}
const PAGE: u64 = 1 << 16;
impl std::io::Write for Sparse {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let off = (self.pos % PAGE) as usize;
        let n = b.len().min(PAGE as usize - off);
        let p = self.pos / PAGE;
        if self.pages.contains_key(&p) || b[..n].iter().any(|&x| x != 0) {
            let page = self.pages.entry(p).or_insert_with(|| vec![0; PAGE as usize].into());
            page[off..off + n].copy_from_slice(&b[..n]);
        }
        self.pos += n as u64;
        self.len = self.len.max(self.pos);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl std::io::Read for Sparse {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let off = (self.pos % PAGE) as usize;
        let n = b.len().min(PAGE as usize - off).min(self.len.saturating_sub(self.pos) as usize);
        match self.pages.get(&(self.pos / PAGE)) {
            Some(p) => b[..n].copy_from_slice(&p[off..off + n]),
            None => b[..n].fill(0),
        }
        self.pos += n as u64;
        Ok(n)
    }
}
impl std::io::Seek for Sparse {
    fn seek(&mut self, to: std::io::SeekFrom) -> std::io::Result<u64> {
        use std::io::SeekFrom::*;
        let p = match to {
            Start(x) => x as i128,
            End(x) => self.len as i128 + x as i128,
            Current(x) => self.pos as i128 + x as i128,
        };
        if p < 0 {
            return Err(std::io::ErrorKind::InvalidInput.into());
        }
        self.pos = p as u64;
        Ok(self.pos)
    }
}

/// `left` bytes of zero records; the first record of every `every` bytes is the number of the block, from 1.
struct Blocks {
    pos: u64,
    len: u64,
    every: u64,
}
impl std::io::Read for Blocks {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = (b.len() as u64).min(self.len - self.pos).min(self.every - self.pos % self.every) as usize;
        b[..n].fill(0);
        let off = (self.pos % self.every) as usize;
        if off < 8 {
            let mark = ((self.pos / self.every + 1) as f64).to_le_bytes();
            let k = n.min(8 - off);
            b[..k].copy_from_slice(&mark[off..off + k]);
        }
        self.pos += n as u64;
        Ok(n)
    }
}

/// A file of more than 4 GiB: every offset in it, and what is read at them.
fn vast(c: &mut Case) -> CaseResult {
    const PER: u64 = 1 << 22;
    let chunks = 131u64;
    let tail = 1000 + c.rng.below(1000);
    let n = (chunks - 1) * PER + tail;
    let what = format!("{n} records in {chunks} uncompressed chunks");
    let cfg = config(Codec::Uncompressed, 0);
    let t0 = std::time::Instant::now();
    let input = ebi::api::encoder::EncoderInput::from_reader(Blocks { pos: 0, len: n * 8, every: PER * 8 });
    let mut e = ebi::api::encoder::Encoder::new(input, ebi::api::encoder::EncoderOutput::from_writer(Sparse::default()), ChunkOption::RecordCount(PER as usize), cfg);
    es(e.encode()).map_err(|e| viol!("vast-encode", "{what}: {e}"))?;
    let wall = t0.elapsed();
    let mut f = e.into_output().into_inner();
    ensure!(f.len > n * 8 && f.len < n * 8 + 1_000_000, "vast-layout", "{what}: a file of {} bytes", f.len);
    f.pos = 0;
    let size = f.len;
    let mut d = es(Decoder::new(DecoderInput::from_reader(f))).map_err(|e| viol!("vast-open", "{what}: {e}"))?;
    ensure!(d.footer().number_of_records() == n && d.chunk_footers().len() as u64 == chunks, "vast-records", "{what}: {} records in {} chunks", d.footer().number_of_records(), d.chunk_footers().len());
    ensure!(d.total_file_size() == size, "vast-layout", "{what}: total_file_size() {} of {size}", d.total_file_size());
    let ph: Vec<u64> = d.chunk_footers().iter().map(|x| x.physical_offset()).collect();
    for i in 1..chunks as usize {
        ensure!(ph[i] - ph[i - 1] >= PER * 8 && ph[i] - ph[i - 1] < PER * 8 + 1000 && d.chunk_footers()[i].logical_offset() == i as u64 * PER, "vast-layout", "{what}: chunk {i} at byte {} and record {}", ph[i], d.chunk_footers()[i].logical_offset());
    }
    let t = d.footer().compression_elapsed_time();
    ensure!(t <= wall && t > wall / 100, "vast-elapsed", "{what}: recorded compression time {t:?}, the call took {wall:?}");
    for i in [chunks - 1, chunks - 2, 0, c.rng.below(chunks), 127, 128] {
        let len = if i == chunks - 1 { tail } else { PER };
        let got = materialize(&mut d, None, Some(i as usize)).map_err(|e| viol!("vast-read", "{what}: chunk {i}: {e}"))?;
        ensure!(got.len() as u64 == len && got[0] == (i + 1) as f64 && got[1..].iter().all(|&x| x == 0.0), "vast-read", "{what}: chunk {i} reads as {} records starting {:?}", got.len(), got.first());
        let m: roaring::RoaringBitmap = [(i * PER) as u32, (i * PER + len - 1) as u32].into_iter().collect();
        let got = materialize(&mut d, Some(&m), None).map_err(|e| viol!("vast-read", "{what}: chunk {i}: {e}"))?;
        ensure!(got == [(i + 1) as f64, 0.0], "vast-read", "{what}: first and last record of chunk {i} are {got:?}");
        let s = es(d.sum(Some(&m), None)).map_err(|e| viol!("vast-read", "{what}: chunk {i}: {e}"))?;
        ensure!(s == (i + 1) as f64, "vast-read", "{what}: sum of first and last record of chunk {i}: {s}");
        c.count("chunks read beyond 4 GiB", (ph[i as usize] >> 32 > 0) as u64);
    }
    c.count("files over 4 GiB", 1);
    c.count("chunks described", chunks);
    c.nontrivial = true;
    Ok(())
}

/// C11: answers do not depend on the queries that came before.
pub fn c11(c: &mut Case) -> CaseResult {
    let codec = ALL[c.index as usize % ALL.len()];
    let n = gen_len(&mut c.rng, 700);
    let o = gen_chunk(&mut c.rng, n);
    let data = if c.rng.chance(1, 3) { Data::Dyadic } else { Data::Any };
    let w = world_of(c, codec, n, data, o)?;
    if c.rng.chance(1, 3) && w.nchunks() > 0 {
        return c11_chunk(c, &w);
    }
    let mut d = w.open()?;
    let mut qs: Vec<Query> = vec![];
    let len = 3 + c.rng.usize(8);
    for step in 0..len {
        // repeat an earlier query now and then
        let q = if !qs.is_empty() && c.rng.chance(1, 4) { c.rng.pick(&(0..qs.len()).collect::<Vec<_>>()) } else {
            qs.push(gen_query(c, &w));
            qs.len() - 1
        };
        let q = qs[q].clone();
        let mut fresh = w.open()?;
        let want = q.run(&mut fresh);
        let got = q.run(&mut d);
        let hist = || qs.iter().map(|q| q.name()).collect::<Vec<_>>().join(", ");
        match (&got, &want) {
            (Ok(a), Ok(b)) => ensure!(a.same(b), w.key("history"), "{}: step {step} ({}): {} after [{}], but {} on a fresh decoder", w.what, q.show(), a.short(), hist(), b.short()),
            (Err(_), Err(_)) => {}
            (a, b) => return Err(viol!(w.key("history"), "{}: step {step} ({}): {} after [{}], but {} on a fresh decoder", w.what, q.show(), sh(a), hist(), sh(b))),
        }
        c.count("queries in sequence", 1);
        c.count(&format!("query {}", q.name()), 1);
        if c.rng.chance(1, 8) {
            // requests that select nothing or fail leave no trace
            let past = w.nchunks() + c.rng.usize(3);
            let r = materialize(&mut d, None, Some(past));
            if let Ok(v) = r {
                ensure!(v.is_empty(), w.key("history"), "{}: chunk {past} of {} gave {} records", w.what, w.nchunks(), v.len());
            }
            let _ = d.matmul(&[1.0], (1, 1), (w.n() + 1, 1));
            c.count("refused requests in between", 1);
        }
        c.nontrivial |= got.is_ok_and(|a| a.size() > 0) && step > 0;
    }
    Ok(())
}
pub fn sh(r: &Result<Ans, String>) -> String {
    match r {
        Ok(a) => a.short(),
        Err(e) => format!("error {e}"),
    }
}

pub struct Req<'a> {
    pub kind: u64,
    pub m: Option<&'a roaring::RoaringBitmap>,
    pub p: ebi::decoder::query::Predicate,
    pub off: usize,
    pub t: &'a [f64],
    pub take: usize,
}
pub fn ask<T: ebi::decoder::FileMetadataLike, R: std::io::Read>(r: &mut ebi::decoder::chunk_reader::GeneralChunkReader<'_, T, R>, q: &Req) -> Result<(&'static str, Ans), String> {
    let one = |x: f64| Ans::Vals(vec![x]);
    let m = q.m;
    Ok(match q.kind {
        0 => {
            let mut b = vec![];
            es(r.materialize(&mut b, m))?;
            ("materialize", Ans::Vals(to_f64(&b)))
        }
        1 => ("filter", Ans::Set(es(r.filter(q.p, m))?)),
        2 => {
            let mut b = vec![];
            es(r.filter_materialize(&mut b, q.p, m))?;
            ("filter_materialize", Ans::Vals(to_f64(&b)))
        }
        3 => ("sum", one(es(r.sum(m))?)),
        4 => ("min", one(es(r.min(m))?)),
        5 => ("max", one(es(r.max(m))?)),
        6 => ("distance_squared", one(es(r.distance_squared(q.off, q.t))?)),
        7 => ("dot_product", one(es(r.dot_product(q.off, q.t))?)),
        8 => ("decompress", Ans::Vals(es(r.inner_mut().decompress(&mut ebi::time::SegmentedExecutionTimes::new()))?.to_vec())),
        _ => {
            let mut v = vec![];
            for x in es(r.inner_mut().decompress_iter())?.take(q.take) {
                v.push(es(x)?);
            }
            ("decompress_iter", Ans::Vals(v))
        }
    })
}

/// Several queries on one chunk reader, against a fresh chunk reader each.
fn c11_chunk(c: &mut Case, w: &World) -> CaseResult {
    let i = c.rng.usize(w.nchunks());
    let len = w.bounds[i + 1] - w.bounds[i];
    let mut d = w.open()?;
    let mut f = w.open()?;
    let mut cr = es(d.chunk_reader(ChunkId::new(i))).map_err(|e| viol!(w.key("chunk-reader-failed"), "{}: {e}", w.what))?;
    let mut hist: Vec<&'static str> = vec![];
    let steps = 3 + c.rng.usize(6);
    for _ in 0..steps {
        let mut fr = es(f.chunk_reader(ChunkId::new(i))).map_err(|e| viol!(w.key("chunk-reader-failed"), "{}: {e}", w.what))?;
        let (m, _) = gen_mask(&mut c.rng, w.n(), &w.bounds);
        // on the decimal grid: a point off it may be compared before or after rounding
        let p = match &w.grid {
            None => world_pred(c, w),
            Some(g) => gen_pred_grid(&mut c.rng, g, w.codec),
        };
        let off = c.rng.usize(len);
        let tl = (1 + c.rng.usize(len - off)).min(30);
        let t: Vec<f64> = (0..tl).map(|_| c.rng.range(-9, 9) as f64).collect();
        let kind = c.rng.below(10);
        // the extremes of nothing are left open
        let m = m.filter(|m| !matches!(kind, 4 | 5) || !w.selected(Some(m), Some(i)).is_empty());
        let m = m.as_ref();
        let take = c.rng.usize(len + 2);
        let req = Req { kind, m, p, off, t: &t, take };
        let want = ask(&mut fr, &req).map_err(|e| viol!(w.key("chunk-query-failed"), "{}: chunk reader {i}: {e}", w.what))?;
        let got = ask(&mut cr, &req);
        let ok = got.as_ref().is_ok_and(|g| close(w, kind, &g.1, &want.1));
        ensure!(ok, w.key("reader-history"), "{}: chunk reader {i}: {} {} after [{}]: {}, but {} on a fresh chunk reader", w.what, want.0, show_mask(m), hist.join(", "), sh(&got.map(|g| g.1)), want.1.short());
        c.count(&format!("chunk reader {}", want.0), 1);
        c.count("queries in sequence", 1);
        hist.push(want.0);
        c.nontrivial |= want.1.size() > 0 && hist.len() > 1;
    }
    Ok(())
}
/// Sums may be formed in a different order once the chunk is decompressed.
pub fn close(w: &World, kind: u64, a: &Ans, b: &Ans) -> bool {
    if a.same(b) {
        return true;
    }
    if let (3, Ans::Vals(x), Ans::Vals(y)) = (kind, a, b) {
        let mag: f64 = w.model.iter().map(|v| v.abs()).sum();
        return w.codec.scaled() && (x[0] - y[0]).abs() <= mag * 1e-9 + 1e-9;
    }
    false
}

/// C12: how bytes are delivered does not matter.
pub fn c12(c: &mut Case) -> CaseResult {
    let codec = ALL[c.index as usize % ALL.len()];
    let n = gen_len(&mut c.rng, 900);
    let (vals, k, grid) = gen_input(c, codec, n);
    let o = gen_chunk(&mut c.rng, n);
    let cfg = config_rand(&mut c.rng, codec, k);
    let what = format!("{:?} k={k} {} {}", codec, show_chunk(o), show_vals(&vals));
    c.note(&what);
    let key = |s: &str| format!("{s}:{codec:?}");
    let base = encode(&vals, o, cfg).map_err(|e| viol!(key("encode-failed"), "{what}: {e}"))?;
    let want = blank_times(&base);
    let mut raw: Vec<u8> = vals.iter().flat_map(|v| v.to_le_bytes()).collect();
    let extra = if c.rng.chance(1, 2) { 0 } else { c.rng.usize(8) };
    for _ in 0..extra {
        raw.push(c.rng.u64() as u8);
    }
    // ---- encoder input in pieces, with interrupts; output in pieces
    let ic = ctl();
    let oc = ctl();
    let max = c.rng.pick(&[1usize, 3, 7, 8, 9, 13, 64, 1000]);
    if c.rng.chance(3, 4) {
        ic.borrow_mut().short = Some((crate::rng::Rng::new(c.rng.u64()), max));
    }
    if c.rng.chance(1, 2) {
        ic.borrow_mut().eintr = Some((crate::rng::Rng::new(c.rng.u64()), 2 + c.rng.below(10)));
    }
    if c.rng.chance(1, 2) {
        oc.borrow_mut().short = Some((crate::rng::Rng::new(c.rng.u64()), c.rng.pick(&[1usize, 5, 100])));
        oc.borrow_mut().eintr = Some((crate::rng::Rng::new(c.rng.u64()), 2 + c.rng.below(10)));
    }
    let how = format!("{what}: input in pieces of at most {max} bytes ({}), interrupts {}, {extra} trailing bytes", ic.borrow().short.is_some(), ic.borrow().eintr.is_some());
    let buffered = c.rng.chance(1, 3);
    let got = if buffered {
        let w = BufWriter::with_capacity(c.rng.pick(&[1usize, 16, 100, 8192]), Vio::new(vec![], &oc));
        let mut e = Encoder::new(EncoderInput::from_reader(Vio::new(raw.clone(), &ic)), EncoderOutput::from_writer(w), o, cfg);
        es(e.encode()).map_err(|e| viol!(key("delivery-failed"), "{how}: {e}"))?;
        // the stream behind the buffer, without a final flush by the caller
        e.into_output().into_inner().into_parts().0.data
    } else {
        let mut e = Encoder::new(EncoderInput::from_reader(Vio::new(raw.clone(), &ic)), EncoderOutput::from_writer(Vio::new(vec![], &oc)), o, cfg);
        es(e.encode()).map_err(|e| viol!(key("delivery-failed"), "{how}: {e}"))?;
        e.into_output().into_inner().data
    };
    c.count("interrupts delivered", ic.borrow().interrupts + oc.borrow().interrupts);
    c.count("short transfers", ic.borrow().shorts + oc.borrow().shorts);
    c.count("inputs with a partial last record", (extra > 0) as u64);
    if blank_times(&got) != want {
        let at = blank_times(&got).iter().zip(&want).position(|(a, b)| a != b);
        return Err(viol!(key("delivery"), "{how}: the file differs from the one made from the whole input (first at byte {at:?}, {} vs {} bytes)", got.len(), want.len()));
    }
    // ---- decoder input in pieces
    let w = World { codec, bytes: base.clone(), orig: vals.clone(), model: vals.clone(), bounds: bounds(&open(&base).map_err(|e| viol!(key("open-failed"), "{what}: {e}"))?), option: o, grid, what: what.clone() };
    let dc = ctl();
    dc.borrow_mut().short = Some((crate::rng::Rng::new(c.rng.u64()), c.rng.pick(&[1usize, 3, 8, 50])));
    dc.borrow_mut().eintr = Some((crate::rng::Rng::new(c.rng.u64()), 2 + c.rng.below(10)));
    let input = DecoderInput::from_reader(Vio::new(base.clone(), &dc));
    let mut plain = w.open()?;
    let qs: Vec<Query> = (0..3).map(|_| gen_query(c, &w)).collect();
    let mut judge = |got: Result<Ans, String>, q: &Query| -> CaseResult {
        let want = q.run(&mut plain);
        match (&got, &want) {
            (Ok(a), Ok(b)) => ensure!(a.same(b), key("read-delivery"), "{what}: {} with the file read in pieces: {}, expected {}", q.show(), a.short(), b.short()),
            (Err(_), Err(_)) => {}
            (a, b) => return Err(viol!(key("read-delivery"), "{what}: {} with the file read in pieces: {}, expected {}", q.show(), sh(a), sh(b))),
        }
        Ok(())
    };
    if c.rng.chance(1, 3) {
        let mut d = es(Decoder::new(input.into_buffered())).map_err(|e| viol!(key("open-failed"), "{what}: read in pieces: {e}"))?;
        for q in &qs {
            judge(q.run(&mut d), q)?;
        }
    } else {
        let mut d = es(Decoder::new(input)).map_err(|e| viol!(key("open-failed"), "{what}: read in pieces: {e}"))?;
        for q in &qs {
            judge(q.run(&mut d), q)?;
        }
    }
    // ---- query output in pieces
    let q = qs.iter().find(|q| q.writes());
    if let Some(q) = q {
        let oc = ctl();
        oc.borrow_mut().short = Some((crate::rng::Rng::new(c.rng.u64()), c.rng.pick(&[1usize, 3, 8, 50])));
        oc.borrow_mut().eintr = Some((crate::rng::Rng::new(c.rng.u64()), 2 + c.rng.below(6)));
        let mut v = Vio::new(vec![], &oc);
        let mut d = w.open()?;
        let r = q.run_to(&mut d, &mut v);
        judge(r.map(|_| Ans::Vals(to_f64(&v.data))), q)?;
        c.count("outputs written in pieces", 1);
    }
    c.count("short reads of the file", dc.borrow().shorts);
    c.count("interrupts delivered", dc.borrow().interrupts);
    c.count(&format!("codec {:?}", codec), 1);
    c.sign(crate::rng::hash_bytes(&want));
    c.sign(max as u64);
    c.nontrivial = n > 0 && (ic.borrow().shorts + ic.borrow().interrupts + oc.borrow().shorts > 0);
    Ok(())
}

fn fault(c: &mut Case, zero: bool) -> Fault {
    let k = c.rng.pick(&KINDS);
    match c.rng.below(if zero { 5 } else { 4 }) {
        0 | 1 => Fault::Once(k),
        2 | 3 => Fault::Sticky(k),
        _ => Fault::Zero,
    }
}

/// C13: a failing operation of the underlying streams is reported.
pub fn c13(c: &mut Case) -> CaseResult {
    let codec = ALL[c.index as usize % ALL.len()];
    let n = 1 + c.rng.usize(60);
    let (vals, k, grid) = gen_input(c, codec, n);
    let o = match c.rng.below(4) {
        0 => ChunkOption::Full,
        1 => ChunkOption::ByteSizeBestEffort(1 + c.rng.usize(200)),
        _ => ChunkOption::RecordCount(1 + n / (1 + c.rng.usize(5))),
    };
    let cfg = config(codec, k);
    let what = format!("{:?} k={k} {} {}", codec, show_chunk(o), show_vals(&vals));
    c.note(&what);
    let key = |s: &str| format!("{s}:{codec:?}");
    let raw: Vec<u8> = vals.iter().flat_map(|v| v.to_le_bytes()).collect();
    let piece = c.rng.pick(&[5usize, 8, 13, 64, 100000]);
    let seed = c.rng.u64();
    let run = |ifault: Option<(u64, Fault)>, ofault: Option<(u64, Fault)>| {
        let ic = ctl();
        let oc = ctl();
        ic.borrow_mut().short = Some((crate::rng::Rng::new(seed), piece));
        ic.borrow_mut().fault_at = ifault;
        oc.borrow_mut().fault_at = ofault;
        let mut e = Encoder::new(EncoderInput::from_reader(Vio::new(raw.clone(), &ic)), EncoderOutput::from_writer(Vio::new(vec![], &oc)), o, cfg);
        let r = guard(|| es(e.encode()));
        let (i, f) = (ic.borrow().ops, ic.borrow().fired + oc.borrow().fired);
        let oo = oc.borrow().ops;
        (r, i, oo, f, e.into_output().into_inner().data)
    };
    let (r, iops, oops, _, good) = run(None, None);
    match r {
        Ran::Ok(Ok(())) => {}
        Ran::Ok(Err(e)) => return Err(viol!(key("encode-failed"), "{what}: {e}")),
        Ran::Panic(l, m) => return Err(viol!(key("panic"), "{what}: encode panicked at {l}: {m}")),
    }
    let judge = |r: Ran<Result<(), String>>, fired: u64, how: &str| -> Result<bool, Viol> {
        match r {
            Ran::Ok(Ok(())) if fired > 0 => Err(viol!(key("unreported-fault"), "{what}: encode reported success although {how}")),
            Ran::Panic(l, m) => Err(viol!(key("fault-panic"), "{what}: encode panicked at {l} ({m}) when {how}")),
            _ => Ok(fired > 0),
        }
    };
    // every operation of the output stream
    for at in 0..oops {
        let f = fault(c, true);
        let (r, _, _, fired, data) = run(None, Some((at, f)));
        // a flush or seek that "transfers nothing" is not a fault
        let fired = if f == Fault::Zero && matches!(r, Ran::Ok(Ok(()))) && blank_times(&data) == blank_times(&good) { 0 } else { fired };
        if judge(r, fired, &format!("operation {at} of {oops} on the output fails with {f:?}"))? {
            c.count("output faults reported", 1);
        }
    }
    // every operation of the input stream (end of file is not an error, so no Zero here)
    let max_in = iops.min(60);
    for j in 0..max_in {
        let at = if iops <= 60 { j } else { c.rng.below(iops) };
        let f = fault(c, false);
        let (r, _, _, fired, _) = run(Some((at, f)), None);
        if judge(r, fired, &format!("read {at} of {iops} on the input fails with {f:?}"))? {
            c.count("input faults reported", 1);
        }
    }
    c.count("operations enumerated", oops + max_in);
    // ---- decoder
    let w = World { codec, bytes: good.clone(), orig: vals.clone(), model: vals.clone(), bounds: bounds(&open(&good).map_err(|e| viol!(key("open-failed"), "{what}: {e}"))?), option: o, grid, what: what.clone() };
    // opening
    let oc = ctl();
    let _ = es(Decoder::new(DecoderInput::from_reader(Vio::new(good.clone(), &oc))).map(|_| ())).map_err(|e| viol!(key("open-failed"), "{what}: {e}"))?;
    let nops = oc.borrow().ops;
    for at in 0..nops {
        let f = fault(c, true);
        let dc = ctl();
        dc.borrow_mut().fault_at = Some((at, f));
        let r = guard(|| es(Decoder::new(DecoderInput::from_reader(Vio::new(good.clone(), &dc))).map(|_| ())));
        match r {
            Ran::Ok(Ok(())) if f != Fault::Zero => return Err(viol!(key("unreported-fault"), "{what}: opening succeeded although operation {at} of {nops} failed with {f:?}")),
            Ran::Panic(l, m) => return Err(viol!(key("fault-panic"), "{what}: opening panicked at {l} ({m}) when operation {at} failed with {f:?}")),
            _ => c.count("open faults reported", 1),
        }
    }
    // queries, with recovery on the same decoder
    for _ in 0..4 {
        let q = gen_query(c, &w);
        let dc = ctl();
        let mut d = match guard(|| Decoder::new(DecoderInput::from_reader(Vio::new(good.clone(), &dc)))) {
            Ran::Ok(Ok(d)) => d,
            _ => return Err(viol!(key("open-failed"), "{what}: cannot open")),
        };
        let s = dc.borrow().ops;
        let Ok(want) = q.run(&mut d) else { continue };
        let e = dc.borrow().ops;
        for at in s..e.min(s + 40) {
            let f = fault(c, true);
            let base = dc.borrow().ops;
            dc.borrow_mut().fault_at = Some((base + (at - s), f));
            dc.borrow_mut().fired = 0;
            let r = guard(|| q.run(&mut d));
            let fired = dc.borrow().fired;
            dc.borrow_mut().fault_at = None;
            match r {
                Ran::Ok(Ok(a)) => {
                    if fired > 0 && !(f == Fault::Zero && a.same(&want)) {
                        return Err(viol!(key("unreported-fault"), "{what}: {} answered {} although operation {} of {} on the file failed with {f:?}", q.show(), a.short(), at - s, e - s));
                    }
                }
                Ran::Ok(Err(_)) => c.count("query faults reported", 1),
                Ran::Panic(l, m) => return Err(viol!(key("fault-panic"), "{what}: {} panicked at {l} ({m}) when operation {} of {} on the file failed with {f:?}", q.show(), at - s, e - s)),
            }
            let again = q.run(&mut d);
            ensure!(again.as_ref().is_ok_and(|a| a.same(&want)), key("no-recovery"), "{what}: {} after a fault ({f:?} at operation {}): {}, expected {}", q.show(), at - s, sh(&again), want.short());
            c.count("recoveries", 1);
        }
        c.count("operations enumerated", e - s);
        // the output of the query fails
        if q.writes() {
            let oc = ctl();
            let mut sink = Vio::new(vec![], &oc);
            let mut d = w.open()?;
            let _ = q.run_to(&mut d, &mut sink);
            let wops = oc.borrow().ops;
            for j in 0..wops.min(25) {
                let at = if wops <= 25 { j } else { c.rng.below(wops) };
                let f = fault(c, true);
                let oc = ctl();
                oc.borrow_mut().fault_at = Some((at, f));
                let mut sink = Vio::new(vec![], &oc);
                match guard(|| q.run_to(&mut d, &mut sink)) {
                    Ran::Ok(Ok(_)) => return Err(viol!(key("unreported-fault"), "{what}: {} succeeded although write {at} of {wops} failed with {f:?}", q.show())),
                    Ran::Ok(Err(_)) => c.count("query output faults reported", 1),
                    Ran::Panic(l, m) => return Err(viol!(key("fault-panic"), "{what}: {} panicked at {l} ({m}) when write {at} failed", q.show())),
                }
            }
        }
    }
    for _ in 0..6 {
        chunk_faults(c, &w)?;
    }
    c.count(&format!("codec {:?}", codec), 1);
    c.sign(crate::rng::hash_bytes(&blank_times(&good)));
    c.sign(piece as u64);
    c.nontrivial = true;
    Ok(())
}

/// A chunk reader whose first read for a request fails: the request is refused, and later answers are right or refused.
fn chunk_faults(c: &mut Case, w: &World) -> CaseResult {
    let i = c.rng.usize(w.nchunks());
    let len = w.bounds[i + 1] - w.bounds[i];
    let dc = ctl();
    let mut d = match guard(|| Decoder::new(DecoderInput::from_reader(Vio::new(w.bytes.clone(), &dc)))) {
        Ran::Ok(Ok(d)) => d,
        _ => return Err(viol!(w.key("open-failed"), "{}: cannot open", w.what)),
    };
    let mut cr = es(d.chunk_reader(ChunkId::new(i))).map_err(|e| viol!(w.key("chunk-reader-failed"), "{}: {e}", w.what))?;
    let k = c.rng.pick(&KINDS);
    {
        let mut x = dc.borrow_mut();
        x.fault_at = Some((x.ops, Fault::Once(k)));
        x.fired = 0;
    }
    for step in 0..2 + c.rng.usize(2) {
        let (m, _) = gen_mask(&mut c.rng, w.n(), &w.bounds);
        let p = match &w.grid {
            None => world_pred(c, w),
            Some(g) => gen_pred_grid(&mut c.rng, g, w.codec),
        };
        let off = c.rng.usize(len);
        let tl = (1 + c.rng.usize(len - off)).min(30);
        let t: Vec<f64> = (0..tl).map(|_| c.rng.range(-9, 9) as f64).collect();
        let kind = c.rng.below(10);
        let m = m.filter(|m| !matches!(kind, 4 | 5) || !w.selected(Some(m), Some(i)).is_empty());
        let req = Req { kind, m: m.as_ref(), p, off, t: &t, take: c.rng.usize(len + 2) };
        let mut f = w.open()?;
        let mut fr = es(f.chunk_reader(ChunkId::new(i))).map_err(|e| viol!(w.key("chunk-reader-failed"), "{}: {e}", w.what))?;
        let want = ask(&mut fr, &req).map_err(|e| viol!(w.key("chunk-query-failed"), "{}: chunk reader {i}: {e}", w.what))?;
        let before = dc.borrow().fired;
        let got = match guard(|| ask(&mut cr, &req)) {
            Ran::Ok(r) => r,
            Ran::Panic(l, m) => return Err(viol!(w.key("fault-panic"), "{}: chunk reader {i}: {} panicked at {l} ({m}) when a read failed with {k:?}", w.what, want.0)),
        };
        let fired = dc.borrow().fired;
        if fired > before {
            ensure!(got.is_err(), w.key("unreported-fault"), "{}: chunk reader {i}: {} answered {} although reading the chunk failed with {k:?}", w.what, want.0, sh(&got.map(|g| g.1)));
            c.count("chunk reader faults reported", 1);
            continue;
        }
        let ok = got.as_ref().map_or(fired > 0, |g| close(w, kind, &g.1, &want.1));
        ensure!(ok, w.key("no-recovery"), "{}: chunk reader {i}: request {step}, {}, {} a read failed with {k:?}: {}, expected {}", w.what, want.0, if fired > 0 { "after" } else { "before" }, sh(&got.map(|g| g.1)), want.1.short());
        c.count("chunk reader answers after a fault", (fired > 0) as u64);
    }
    Ok(())
}

/// Replays the first `upto` operations of a log; the last write is cut to `cut` bytes.
fn replay_ops(ops: &[Op], upto: usize, cut: Option<usize>) -> Vec<u8> {
    let mut f: Vec<u8> = vec![];
    for (i, op) in ops[..upto].iter().enumerate() {
        if let Op::Write(p, b) = op {
            let b = if i + 1 == upto { &b[..cut.unwrap_or(b.len()).min(b.len())] } else { &b[..] };
            let p = *p as usize;
            if f.len() < p + b.len() {
                f.resize(p + b.len(), 0);
            }
            f[p..p + b.len()].copy_from_slice(b);
        }
    }
    f
}

/// C14: an interrupted encoding is never mistaken for a file.
pub fn c14(c: &mut Case) -> CaseResult {
    let codec = ALL[c.index as usize % ALL.len()];
    let n = c.rng.usize(120);
    let (vals, k, _) = gen_input(c, codec, n);
    let o = match c.rng.below(5) {
        0 | 1 => ChunkOption::Full,
        2 => ChunkOption::ByteSizeBestEffort(1 + c.rng.usize(300)),
        _ => ChunkOption::RecordCount(1 + n / (1 + c.rng.usize(5))),
    };
    let cfg = config_rand(&mut c.rng, codec, k);
    let what = format!("{:?} k={k} {} {}", codec, show_chunk(o), show_vals(&vals));
    c.note(&what);
    let key = |s: &str| format!("{s}:{codec:?}");
    let oc = ctl();
    oc.borrow_mut().log = Some(vec![]);
    let buffered = c.rng.chance(1, 3);
    let cap = c.rng.pick(&[1usize, 64, 8192]);
    let fin = if buffered {
        let mut e = Encoder::new(EncoderInput::from_f64_slice(&vals), EncoderOutput::from_writer(BufWriter::with_capacity(cap, Vio::new(vec![], &oc))), o, cfg);
        es(e.encode()).map_err(|e| viol!(key("encode-failed"), "{what}: {e}"))?;
        e.into_output().into_inner().into_parts().0.data
    } else {
        let mut e = Encoder::new(EncoderInput::from_f64_slice(&vals), EncoderOutput::from_writer(Vio::new(vec![], &oc)), o, cfg);
        es(e.encode()).map_err(|e| viol!(key("encode-failed"), "{what}: {e}"))?;
        e.into_output().into_inner().data
    };
    let ops = oc.borrow_mut().log.take().unwrap();
    ensure!(replay_ops(&ops, ops.len(), None) == fin, "harness", "operation log does not reproduce the file");
    let mut wd = open(&fin).map_err(|e| viol!(key("open-failed"), "{what}: {e}"))?;
    let want = materialize(&mut wd, None, None).map_err(|e| viol!(key("materialize-failed"), "{what}: {e}"))?;
    for upto in 0..=ops.len() {
        // whole operations, and the last write torn at a few places (8-byte fields are written atomically)
        let mut cuts = vec![None];
        if upto > 0 {
            if let Op::Write(_, b) = &ops[upto - 1] {
                if b.len() > 16 {
                    cuts.push(Some(1));
                    cuts.push(Some(b.len() - 1));
                    cuts.push(Some(1 + c.rng.usize(b.len() - 1)));
                    // a header torn right before or inside the configuration
                    cuts.push(Some(b.len().min(8)));
                }
            }
        }
        for cut in cuts {
            let f = replay_ops(&ops, upto, cut);
            let how = format!("{what}: encoding stopped after {upto} of {} operations (last write cut at {cut:?}), {} of {} bytes", ops.len(), f.len(), fin.len());
            c.count("crash points", 1);
            let r = guard(|| open(&f));
            match r {
                Ran::Panic(l, m) => return Err(viol!(key("crash-panic"), "{how}: opening it panicked at {l}: {m}")),
                Ran::Ok(Err(_)) => c.count("rejected", 1),
                Ran::Ok(Ok(mut d)) => {
                    // it is accepted only if everything is there
                    let g = guard(|| (d.footer().number_of_records(), materialize(&mut d, None, None)));
                    match g {
                        Ran::Ok((recs, Ok(v))) => {
                            if let Some(x) = first_diff(&v, &want) {
                                return Err(viol!(key("incomplete-accepted"), "{how}: it opens, but {x}"));
                            }
                            ensure!(recs as usize == n, key("incomplete-accepted"), "{how}: it opens and reports {recs} records instead of {n}");
                            c.count("complete files accepted", 1);
                        }
                        Ran::Ok((_, Err(e))) => return Err(viol!(key("incomplete-accepted"), "{how}: it opens, but reading it fails: {e}")),
                        Ran::Panic(l, m) => return Err(viol!(key("crash-panic"), "{how}: it opens, but reading it panicked at {l}: {m}")),
                    }
                }
            }
        }
    }
    c.count("operations enumerated", ops.len() as u64);
    c.count(&format!("codec {:?}", codec), 1);
    c.sign(crate::rng::hash_bytes(&blank_times(&fin)));
    c.sign(buffered as u64 * 2 + cap as u64);
    c.nontrivial = ops.len() > 4;
    Ok(())
}

fn rejected(c: &mut Case, key: String, how: &str, f: &[u8]) -> CaseResult {
    match guard(|| open(f)) {
        Ran::Panic(l, m) => Err(viol!(format!("damage-panic:{key}"), "{how}: opening it panicked at {l}: {m}")),
        Ran::Ok(Ok(_)) => Err(viol!(format!("damage-accepted:{key}"), "{how}: it was opened as a valid file")),
        Ran::Ok(Err(_)) => {
            c.count(&format!("rejected: {key}"), 1);
            Ok(())
        }
    }
}

/// C15: truncated, foreign or structurally damaged files are rejected with an error.
pub fn c15(c: &mut Case) -> CaseResult {
    let codec = ALL[c.index as usize % ALL.len()];
    let n = gen_len(&mut c.rng, 300);
    let (vals, k, _) = gen_input(c, codec, n);
    let o = gen_chunk(&mut c.rng, n);
    let cfg: CompressorConfig = config_rand(&mut c.rng, codec, k);
    let what = format!("{:?} k={k} {} {}", codec, show_chunk(o), show_vals(&vals));
    c.note(&what);
    let good = encode(&vals, o, cfg).map_err(|e| viol!("encode-failed", "{what}: {e}"))?;
    open(&good).map_err(|e| viol!("open-failed", "{what}: {e}"))?;
    let fo = u64at(&good, 16) as usize;
    let chunks = u64at(&good, fo + 8) as usize;
    let co = fo + 16 + 16 * chunks;
    // truncation: the ends of every part and random places
    let mut cuts = vec![0, 3, 4, 16, 24, 29, 30, fo - 1, fo, fo + 8, fo + 15, fo + 16, co.saturating_sub(1), co, co + 1, good.len() - TAIL, good.len() - 5, good.len() - 4, good.len() - 1];
    for _ in 0..12 {
        cuts.push(c.rng.usize(good.len()));
    }
    for x in cuts {
        let x = x.min(good.len() - 1);
        rejected(c, "truncated".into(), &format!("{what}: cut to {x} of {} bytes", good.len()), &good[..x])?;
    }
    // foreign bytes
    let mut f = good.clone();
    let i = c.rng.usize(4);
    f[i] ^= 1 << c.rng.below(8);
    rejected(c, "magic".into(), &format!("{what}: magic {:?}", &f[..4]), &f)?;
    // unknown identifiers
    for (at, least, name) in [(4usize, 1u8, "field type"), (5, 13, "compression scheme"), (6, 3, "chunk option kind")] {
        let mut f = good.clone();
        f[at] = least + c.rng.below(256 - least as u64) as u8;
        rejected(c, name.into(), &format!("{what}: {name} {}", f[at]), &f)?;
    }
    // footer offset
    for _ in 0..3 {
        let mut f = good.clone();
        let v: u64 = match c.rng.below(8) {
            6 | 7 => fo as u64 + (1 << (16 + c.rng.below(48))),
            0 => c.rng.below(30),
            1 => 0,
            2 => good.len() as u64 - c.rng.below(TAIL as u64),
            3 => good.len() as u64 + c.rng.below(1000),
            4 => u64::MAX - c.rng.below(3),
            _ => 1 << (20 + c.rng.below(43)),
        };
        f[16..24].copy_from_slice(&v.to_le_bytes());
        rejected(c, "footer offset".into(), &format!("{what}: footer offset {v}"), &f)?;
    }
    // chunk count beyond the file
    let mut f = good.clone();
    let v: u64 = match c.rng.below(6) {
        4 | 5 => chunks as u64 + (1 << (16 + c.rng.below(48))),
        0 => chunks as u64 + 1000 + c.rng.below(100000),
        1 => u64::MAX - c.rng.below(3),
        2 => 1 << (30 + c.rng.below(33)),
        _ => (1u64 << 60) + chunks as u64,
    };
    f[fo + 8..fo + 16].copy_from_slice(&v.to_le_bytes());
    rejected(c, "chunk count".into(), &format!("{what}: {v} chunks instead of {chunks}"), &f)?;
    // configuration of another size
    let mut f = good.clone();
    let old = f[co];
    let new = c.rng.below(256) as u8;
    if new != old {
        f[co] = new;
        rejected(c, "configuration size".into(), &format!("{what}: configuration of {new} bytes instead of {old}"), &f)?;
    }
    // chunk table out of order
    if chunks > 0 {
        let mut f = good.clone();
        let i = c.rng.usize(chunks);
        let (name, at, v) = if c.rng.chance(1, 2) {
            let v = match c.rng.below(6) {
                4 | 5 => u64at(&good, fo + 16 + 16 * i) + (1 << (16 + c.rng.below(48))),
                0 => c.rng.below(30),
                1 => fo as u64 + 1 + c.rng.below(1000),
                2 => u64::MAX - c.rng.below(3),
                _ => 1 << (20 + c.rng.below(43)),
            };
            ("chunk offset", fo + 16 + 16 * i, v)
        } else {
            let v = match c.rng.below(5) {
                3 | 4 => u64at(&good, fo + 24 + 16 * i) + (1 << (16 + c.rng.below(48))),
                0 => n as u64 + 1 + c.rng.below(1000),
                1 => u64::MAX - c.rng.below(3),
                _ => 1 << (20 + c.rng.below(43)),
            };
            ("first record of a chunk", fo + 24 + 16 * i, v)
        };
        f[at..at + 8].copy_from_slice(&v.to_le_bytes());
        rejected(c, name.into(), &format!("{what}: {name} {v} in entry {i} of {chunks}"), &f)?;
    }
    // arbitrary bytes with and without the magic
    let len = c.rng.usize(400);
    let mut f: Vec<u8> = (0..len).map(|_| c.rng.u64() as u8).collect();
    if f.len() >= 4 && &f[..4] != b"EBI1" || f.len() < 30 {
        rejected(c, "foreign".into(), &format!("{len} random bytes"), &f)?;
    }
    if f.len() > 8 {
        f[..4].copy_from_slice(b"EBI1");
        if let Ran::Panic(l, m) = guard(|| open(&f)) {
            return Err(viol!("damage-panic:foreign", "{len} random bytes after the magic: opening panicked at {l}: {m}"));
        }
    }
    c.count(&format!("codec {:?}", codec), 1);
    c.sign(crate::rng::hash_bytes(&blank_times(&good)));
    c.nontrivial = true;
    Ok(())
}

/// C19: the encoding of a chunk depends on its records and the configuration only, and a chunk is read from its own bytes only.
pub fn c19(c: &mut Case) -> CaseResult {
    let codec = ALL[c.index as usize % ALL.len()];
    let n = gen_len(&mut c.rng, 900);
    let (vals, k, grid) = gen_input(c, codec, n);
    let o = gen_chunk(&mut c.rng, n);
    let cfg = config_rand(&mut c.rng, codec, k);
    let what = format!("{:?} k={k} {} {}", codec, show_chunk(o), show_vals(&vals));
    c.note(&what);
    let key = |s: &str| format!("{s}:{codec:?}");
    let b = encode(&vals, o, cfg).map_err(|e| viol!(key("encode-failed"), "{what}: {e}"))?;
    let b2 = encode(&vals, o, cfg).map_err(|e| viol!(key("encode-failed"), "{what}: {e}"))?;
    ensure!(blank_times(&b) == blank_times(&b2), key("nondeterministic"), "{what}: two encodings of the same input differ");
    let d = open(&b).map_err(|e| viol!(key("open-failed"), "{what}: {e}"))?;
    let bd = bounds(&d);
    let mut phys: Vec<usize> = d.chunk_footers().iter().map(|f| f.physical_offset() as usize).collect();
    phys.push(d.header().footer_offset() as usize);
    let nch = phys.len() - 1;
    for _ in 0..3.min(nch) {
        let i = c.rng.usize(nch);
        let alone = encode(&vals[bd[i]..bd[i + 1]], ChunkOption::Full, cfg).map_err(|e| viol!(key("encode-failed"), "{what}: chunk {i} alone: {e}"))?;
        let fo = u64at(&alone, 16) as usize;
        ensure!(alone[HEADER..fo] == b[phys[i]..phys[i + 1]], key("chunk-dependent"), "{what}: chunk {i} (records {}..{}) is encoded differently than the same records alone ({} vs {} bytes)", bd[i], bd[i + 1], phys[i + 1] - phys[i], fo - HEADER);
        c.count("chunks compared with stand-alone encodings", 1);
    }
    if nch > 1 {
        // overwrite every other chunk; the one left must still answer, and so must masks confined to it
        let i = c.rng.usize(nch);
        let mut f = b.clone();
        for j in (0..nch).filter(|j| *j != i) {
            for x in &mut f[phys[j]..phys[j + 1]] {
                *x = c.rng.u64() as u8;
            }
        }
        let w = World { codec, bytes: b.clone(), orig: vals.clone(), model: vals.clone(), bounds: bd.clone(), option: o, grid, what: what.clone() };
        let mut good = w.open()?;
        let mut bad = open(&f).map_err(|e| viol!(key("open-failed"), "{what}: with other chunks overwritten: {e}"))?;
        for _ in 0..4 {
            let mut q = gen_query(c, &w);
            if matches!(q.kind, Kind::Knn(_) | Kind::Matmul(..)) {
                q.kind = Kind::Materialize;
            }
            if c.rng.chance(1, 2) || q.show().contains("Cr") {
                q.chunk = Some(i);
                if let Kind::CrDistance(off, t) | Kind::CrDot(off, t) = &mut q.kind {
                    *off = 0;
                    t.truncate(bd[i + 1] - bd[i]);
                }
            } else {
                q.chunk = None;
                let mut m = q.mask.take().unwrap_or_else(|| { let mut m = roaring::RoaringBitmap::new(); m.insert_range(0..n as u32); m });
                let mut r = roaring::RoaringBitmap::new();
                r.insert_range(bd[i] as u32..bd[i + 1] as u32);
                m &= r;
                q.mask = Some(m);
            }
            let Ok(want) = q.run(&mut good) else { continue };
            let got = match guard(|| q.run(&mut bad)) {
                Ran::Ok(r) => r,
                Ran::Panic(l, m) => Err(format!("panic at {l}: {m}")),
            };
            ensure!(got.as_ref().is_ok_and(|a| a.same(&want)), key("chunk-leak"), "{what}: {} with the other chunks overwritten: {}, expected {}", q.show(), sh(&got), want.short());
            c.count("queries with the other chunks overwritten", 1);
        }
    }
    c.count(&format!("codec {:?}", codec), 1);
    c.sign(crate::rng::hash_bytes(&blank_times(&b)));
    c.nontrivial = nch > 1;
    Ok(())
}
