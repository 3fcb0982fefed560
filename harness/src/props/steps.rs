//! The step-by-step interface, real files as endpoints, and memory.
use super::cli::Scratch;
use super::files::*;
use crate::api::*;
use crate::fw::*;
use crate::gen::*;
use crate::q::*;
use crate::world::*;
use crate::{ensure, viol};
use ebi::api::decoder::{ChunkId, Decoder, DecoderInput, DecoderOutput};
use ebi::api::encoder::{Encoder, EncoderInput, EncoderOutput};
use ebi::compressor::{Compressor, CompressorConfig};
use ebi::decoder::{FileMetadataLike, FileReader, GeneralChunkHandle};
use ebi::encoder::{ChunkOption, FileWriter};
use ebi::time::{SegmentKind, SegmentedExecutionTimes};
use std::io::{Cursor, Read, Seek, Write};
use std::time::Instant;

fn where_differs(a: &[u8], b: &[u8]) -> String {
    format!("first at byte {:?}, {} vs {} bytes", a.iter().zip(b).position(|(x, y)| x != y), a.len(), b.len())
}

/// C28: the step-by-step interface and file endpoints do what the one-call interface does.
pub fn c28(c: &mut Case) -> CaseResult {
    let codec = ALL[c.index as usize % ALL.len()];
    let n = gen_len(&mut c.rng, 1200);
    let (vals, k, grid) = gen_input(c, codec, n);
    let o = gen_chunk(&mut c.rng, n);
    let cfg = config_rand(&mut c.rng, codec, k);
    let what = format!("{codec:?} k={k} {} {}", show_chunk(o), show_vals(&vals));
    c.note(&what);
    let key = |s: &str| format!("{s}:{codec:?}");
    let base = encode(&vals, o, cfg).map_err(|e| viol!(key("encode-failed"), "{what}: {e}"))?;
    let want = blank_times(&base);
    stepwise_write(c, &vals, o, cfg, &base, &want, &what, &key)?;
    let mut d = open(&base).map_err(|e| viol!(key("open-failed"), "{what}: {e}"))?;
    let model = materialize(&mut d, None, None).map_err(|e| viol!(key("materialize-failed"), "{what}: {e}"))?;
    let w = World { codec, bytes: base, orig: vals, model, bounds: bounds(&d), option: o, grid, what };
    if c.rng.chance(1, 3) {
        endpoints(c, &w, cfg, &want)?;
    }
    stepwise_read(c, &w)?;
    c.count(&format!("codec {codec:?}"), 1);
    c.sign(crate::rng::hash_bytes(&want));
    c.nontrivial = w.nchunks() > 1;
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn stepwise_write(c: &mut Case, vals: &[f64], o: ChunkOption, cfg: CompressorConfig, base: &[u8], want: &[u8], what: &str, key: &dyn Fn(&str) -> String) -> CaseResult {
    let d = open(base).map_err(|e| viol!(key("open-failed"), "{what}: {e}"))?;
    let fo = d.header().footer_offset() as usize;
    let phys: Vec<usize> = d.chunk_footers().iter().map(|f| f.physical_offset() as usize).chain([fo]).collect();
    let raw: Vec<u8> = vals.iter().flat_map(|v| v.to_le_bytes()).collect();
    let t0 = Instant::now();
    let mut fw = FileWriter::new(Cursor::new(raw), cfg, o);
    ensure!(fw.file_header_size() == HEADER && fw.footer_offset_slot_offset() == 16 && *fw.chunk_option() == o, key("step-layout"), "{what}: header of {} bytes, footer offset at {}, {:?}", fw.file_header_size(), fw.footer_offset_slot_offset(), fw.chunk_option());
    let mut out = Cursor::new(vec![]);
    es(fw.write_header(&mut out)).map_err(|e| viol!(key("step-failed"), "{what}: {e}"))?;
    ensure!(out.get_ref().len() == HEADER, key("step-layout"), "{what}: the header took {} bytes", out.get_ref().len());
    let mut timer = SegmentedExecutionTimes::new();
    let mut kept = None;
    let mut i = 0;
    let mut how = String::new();
    loop {
        // a writer that is given up before it writes takes nothing from the input
        if c.rng.chance(1, 6) {
            drop(fw.chunk_writer());
            c.count("chunk writers given up", 1);
        }
        let compressor = match c.rng.below(4) {
            0 => None,
            1 | 2 => kept.take(),
            _ => {
                // a compressor that worked on something else before
                let mut x = cfg.build();
                let m = 1 + c.rng.usize(40);
                let other: Vec<f64> = if grid_of(&cfg) { vec![1.0; m] } else { gen_values(&mut c.rng, m).0 };
                es(x.compress(&other)).map_err(|e| viol!(key("step-failed"), "{what}: {e}"))?;
                if c.rng.chance(1, 2) {
                    x.prepare();
                    let _ = x.buffers().len();
                }
                c.count("compressors used elsewhere before", 1);
                Some(x)
            }
        };
        if how.len() < 40 {
            how.push(if compressor.is_none() { 'n' } else { 'u' });
        }
        let fresh = compressor.is_none() && c.rng.chance(1, 2);
        let Some(mut cw) = (if fresh { fw.chunk_writer() } else { fw.chunk_writer_with_compressor(compressor) }) else {
            ensure!(i > 0, key("step-chunks"), "{what}: no chunk writer although nothing has been read");
            break;
        };
        ensure!(i < phys.len(), key("step-chunks"), "{what}: chunk writers go on after the end of the input (compressors {how})");
        let mut chunk = vec![];
        es(cw.write(&mut chunk)).map_err(|e| viol!(key("step-failed"), "{what}: chunk {i}: {e}"))?;
        timer += *cw.timer();
        kept = Some(cw.into_compressor());
        let expect: &[u8] = if i + 1 < phys.len() { &base[phys[i]..phys[i + 1]] } else { &[] };
        ensure!(chunk == expect, key("step-chunk"), "{what}: chunk {i} written step by step (compressors {how}) differs from the one in the encoded file ({})", where_differs(&chunk, expect));
        es(out.write_all(&chunk)).map_err(|e| viol!("harness", "{e}"))?;
        i += 1;
        c.count("chunks written step by step", 1);
    }
    ensure!(i == phys.len(), key("step-chunks"), "{what}: the chunk writers end after {i} steps, the file has {} chunks", phys.len() - 1);
    ensure!(fw.chunk_writer().is_none(), key("step-chunks"), "{what}: another chunk writer after the end");
    // the times handed over are the times recorded
    let m = timer.start_addition_measurement(SegmentKind::Sum);
    m.stop();
    es(fw.write_footer(&mut out, timer)).map_err(|e| viol!(key("step-failed"), "{what}: {e}"))?;
    let mut b = out.into_inner();
    ensure!(open(&b).is_err(), key("step-order"), "{what}: a file whose footer offset is not written yet opens");
    let at = fw.elapsed_time_slot_offset();
    ensure!(at + TAIL == b.len(), key("step-layout"), "{what}: elapsed time at {at} of {}", b.len());
    let off = fw.footer_offset_slot_offset();
    // in either order
    let first = fw.elapsed_time();
    let order = c.rng.chance(1, 2);
    for s in [order, !order] {
        let r = if s { fw.write_footer_offset(&mut b[off..off + 8]) } else { fw.write_elapsed_time(&mut b[at..at + 16]) };
        es(r).map_err(|e| viol!(key("step-failed"), "{what}: {e}"))?;
    }
    let wall = t0.elapsed();
    ensure!(blank_times(&b) == want, key("step-file"), "{what}: the file written step by step (compressors {how}) differs from the encoded one ({})", where_differs(&blank_times(&b), want));
    let d = open(&b).map_err(|e| viol!(key("open-failed"), "{what}: written step by step: {e}"))?;
    let el = d.footer().compression_elapsed_time();
    ensure!(first <= el && el <= wall, key("step-times"), "{what}: {el:?} recorded, {first:?} before and {wall:?} after");
    ensure!(*d.footer().segmented_execution_times() == timer, key("step-times"), "{what}: {:?} recorded, {timer:?} handed over", d.footer().segmented_execution_times());
    c.count("files written step by step", 1);
    Ok(())
}
fn grid_of(c: &CompressorConfig) -> bool {
    matches!(c, CompressorConfig::BUFF(_) | CompressorConfig::DeltaSprintz(_))
}

fn endpoints(c: &mut Case, w: &World, cfg: CompressorConfig, want: &[u8]) -> CaseResult {
    let what = &w.what;
    let s = Scratch::new(c);
    let p = |n: &str| s.0.join(n);
    let raw: Vec<u8> = w.orig.iter().flat_map(|v| v.to_le_bytes()).collect();
    let io = |r: std::io::Result<()>| r.map_err(|e| viol!("harness", "scratch: {e}"));
    io(std::fs::write(p("in"), &raw))?;
    let junk = c.rng.chance(1, 2);
    if junk {
        io(std::fs::write(p("file"), vec![0xa5u8; want.len() + 1 + c.rng.usize(500)]))?;
        io(std::fs::write(p("out"), vec![0xa5u8; raw.len() + 1 + c.rng.usize(500)]))?;
    }
    // nothing there to read, nowhere to write
    ensure!(EncoderInput::from_file(p("none")).is_err() && EncoderOutput::from_file(p("none/x")).is_err() && DecoderInput::from_file(p("none")).is_err() && DecoderOutput::from_file(p("none/x")).is_err(), "endpoint-missing", "an endpoint opened on a path that does not exist");
    ensure!(!p("none").exists(), "endpoint-missing", "opening an input created it");
    // ---- the encoder between files; what it has acknowledged is in the file
    fn go<R: Read, W: Write + Seek>(i: EncoderInput<R>, out: EncoderOutput<W>, o: ChunkOption, cfg: CompressorConfig, f: &std::path::Path) -> Result<Vec<u8>, String> {
        let mut e = Encoder::new(i, out, o, cfg);
        es(e.encode())?;
        let _ = e.output();
        let early = es(std::fs::read(f))?;
        drop(e.into_output().into_inner());
        let late = es(std::fs::read(f))?;
        if early != late {
            return Err(format!("{} bytes in the file when encode() returned, {} after the output was closed", early.len(), late.len()));
        }
        Ok(late)
    }
    let f = p("file");
    let fail = |e: String| viol!(w.key("endpoint-failed"), "{what}: {e}");
    let out = es(EncoderOutput::from_file(&f)).map_err(fail)?;
    let buffered = c.rng.chance(1, 2);
    let kind = c.rng.below(3);
    let (o, how) = (w.option, format!("input kind {kind}, output buffered {buffered}, existing file {junk}"));
    let got = match (kind, buffered) {
        (0, false) => go(es(EncoderInput::from_file(p("in"))).map_err(fail)?, out, o, cfg, &f),
        (0, true) => go(es(EncoderInput::from_file(p("in"))).map_err(fail)?, out.into_buffered(), o, cfg, &f),
        (1, false) => go(EncoderInput::from_reader(std::io::BufReader::new(std::fs::File::open(p("in")).unwrap())), out, o, cfg, &f),
        (1, true) => go(EncoderInput::from_reader(std::io::BufReader::new(std::fs::File::open(p("in")).unwrap())), out.into_buffered(), o, cfg, &f),
        (_, false) => go(if w.n() == 0 { EncoderInput::empty() } else { EncoderInput::from_slice(&raw) }, out, o, cfg, &f),
        (_, true) => go(if w.n() == 0 { EncoderInput::empty() } else { EncoderInput::from_slice(&raw) }, out.into_buffered(), o, cfg, &f),
    }
    .map_err(|e| viol!(w.key("endpoint-failed"), "{what}: {how}: {e}"))?;
    ensure!(blank_times(&got) == want, w.key("endpoint-file"), "{what}: {how}: the file differs from the one encoded in memory ({})", where_differs(&blank_times(&got), want));
    ensure!(std::fs::read(p("in")).is_ok_and(|b| b == raw), w.key("endpoint-input"), "{what}: {how}: encoding changed its input");
    c.count("files encoded to disk", 1);
    c.count("existing files replaced", junk as u64);
    // ---- queries from file to file, one after the other into the same output
    let din = es(DecoderInput::from_file(&f)).map_err(fail)?;
    let dout = es(DecoderOutput::from_file(p("out"))).map_err(fail)?;
    let mut plain = w.open()?;
    let mut expect = vec![];
    let mut qs = vec![];
    for _ in 0..1 + c.rng.usize(3) {
        let (m, _) = gen_mask(&mut c.rng, w.n(), &w.bounds);
        let ch = gen_chunk_sel(c, w);
        let pr = if c.rng.chance(1, 2) { None } else { Some(world_pred(c, w)) };
        expect.extend(match pr {
            None => materialize(&mut plain, m.as_ref(), ch),
            Some(x) => filter_materialize(&mut plain, x, m.as_ref(), ch),
        }
        .map_err(fail)?);
        qs.push((m, ch, pr));
    }
    type Qs = Vec<(Option<roaring::RoaringBitmap>, Option<usize>, Option<ebi::decoder::query::Predicate>)>;
    fn ask_all<R: Read + Seek, W: Write>(d: DecoderInput<R>, mut out: DecoderOutput<W>, qs: &Qs) -> Result<(), String> {
        let mut d = es(Decoder::new(d))?;
        for (m, ch, pr) in qs {
            let ch = ch.map(ChunkId::new);
            match pr {
                None => es(d.materialize(&mut out, m.as_ref(), ch))?,
                Some(x) => es(d.filter_materialize(&mut out, *x, m.as_ref(), ch))?,
            }
        }
        Ok(())
    }
    let (bi, bo) = (c.rng.chance(1, 2), c.rng.chance(1, 2));
    match (bi, bo) {
        (false, false) => ask_all(din, dout, &qs),
        (false, true) => ask_all(din, dout.into_buffered(), &qs),
        (true, false) => ask_all(din.into_buffered(), dout, &qs),
        (true, true) => ask_all(din.into_buffered(), dout.into_buffered(), &qs),
    }
    .map_err(|e| viol!(w.key("endpoint-failed"), "{what}: queries between files: {e}"))?;
    let b = std::fs::read(p("out")).map_err(|e| viol!(w.key("endpoint-failed"), "{what}: {e}"))?;
    let exp: Vec<u8> = expect.iter().flat_map(|v| v.to_le_bytes()).collect();
    ensure!(b == exp, w.key("endpoint-answer"), "{what}: {} queries between files (buffered input {bi}, output {bo}, existing file {junk}): the output differs from the answers in memory ({})", qs.len(), where_differs(&b, &exp));
    ensure!(std::fs::read(&f).is_ok_and(|x| x == got), w.key("endpoint-input"), "{what}: queries changed the file they read");
    c.count("queries from file to file", qs.len() as u64);
    Ok(())
}

fn stepwise_read(c: &mut Case, w: &World) -> CaseResult {
    let what = &w.what;
    let b = &w.bytes;
    let fail = |e: String| viol!(w.key("step-read-failed"), "{what}: {e}");
    let mut none: &[u8] = &[];
    let mut fr = if c.rng.chance(1, 2) { FileReader::new() } else { FileReader::default() };
    let mut cur = Cursor::new(&b[..]);
    // nothing is known before it is read, and asking out of order is refused
    ensure!(fr.header().is_none() && fr.footer().is_none() && fr.metadata().is_none(), w.key("step-order"), "{what}: a new reader knows something");
    ensure!(fr.seek_to_footer(&mut cur).is_err() && fr.fetch_footer(&mut cur).is_err() && fr.footer().is_none(), w.key("step-order"), "{what}: the footer is found before the header");
    ensure!(fr.clone().into_metadata().is_none(), w.key("step-order"), "{what}: metadata without header and footer");
    cur.set_position(0);
    es(fr.fetch_header(&mut cur).map(|_| ())).map_err(fail)?;
    ensure!(cur.position() as usize == HEADER, w.key("step-position"), "{what}: {} bytes read for the header", cur.position());
    ensure!(fr.header().is_some() && fr.footer().is_none() && fr.metadata().is_none() && fr.clone().into_metadata().is_none(), w.key("step-order"), "{what}: metadata without the footer");
    if c.rng.chance(1, 2) {
        // again: from memory
        let h = format!("{:?}", fr.header().unwrap());
        let again = es(fr.fetch_header(&mut none).map(|h| format!("{h:?}"))).map_err(fail)?;
        ensure!(h == again, w.key("step-again"), "{what}: header {h}, then {again}");
    }
    es(fr.seek_to_footer(&mut cur)).map_err(fail)?;
    let fo = fr.header().unwrap().footer_offset();
    ensure!(cur.position() == fo, w.key("step-position"), "{what}: footer at {fo}, stream at {}", cur.position());
    es(fr.fetch_footer(&mut cur).map(|_| ())).map_err(fail)?;
    ensure!(cur.position() as usize == b.len(), w.key("step-position"), "{what}: the footer ends at {}, read up to {}", b.len(), cur.position());
    if c.rng.chance(1, 2) {
        let h = format!("{:?}", fr.footer().unwrap());
        let again = es(fr.fetch_footer(&mut none).map(|h| format!("{h:?}"))).map_err(fail)?;
        ensure!(h == again, w.key("step-again"), "{what}: footer {h}, then {again}");
    }
    let d = w.open()?;
    let m = fr.metadata().ok_or_else(|| viol!(w.key("step-order"), "{what}: no metadata after header and footer"))?;
    ensure!(format!("{:?}", m.header()) == format!("{:?}", d.header()) && format!("{:?}", m.footer()) == format!("{:?}", d.footer()), w.key("step-again"), "{what}: the steps read other metadata than the decoder");
    let by_ref: Vec<_> = m.chunks_iter().collect();
    ensure!(by_ref.len() == w.nchunks(), w.key("step-chunks"), "{what}: {} chunk handles", by_ref.len());
    let owned = fr.clone().into_metadata().unwrap();
    let by_owned: Vec<_> = owned.chunks_iter().collect();
    for _ in 0..2.min(w.nchunks()) {
        let i = c.rng.usize(w.nchunks());
        if c.rng.chance(1, 2) {
            one_chunk(c, w, i, &by_ref[i])?;
        } else {
            one_chunk(c, w, i, &by_owned[i])?;
        }
    }
    c.count("files read step by step", 1);
    Ok(())
}

/// A chunk read through its handle, from the whole file and from its own bytes alone, against the decoder's chunk reader.
fn one_chunk<T: FileMetadataLike + Clone>(c: &mut Case, w: &World, i: usize, h: &GeneralChunkHandle<T>) -> CaseResult {
    let what = &w.what;
    let fail = |e: String| viol!(w.key("step-read-failed"), "{what}: chunk {i}: {e}");
    let mut cur = Cursor::new(&w.bytes[..]);
    cur.set_position(c.rng.below(w.bytes.len() as u64 + 1));
    es(h.seek_to_chunk_end(&mut cur)).map_err(fail)?;
    let end = cur.position();
    es(h.seek_to_chunk(&mut cur)).map_err(fail)?;
    let start = cur.position();
    ensure!(start == h.physical_offset() && end == h.next_physical_offset() && end - start == h.chunk_size(), w.key("step-position"), "{what}: chunk {i} at {}..{}: seeking leads to {start}..{end}", h.physical_offset(), h.next_physical_offset());
    let alone = c.rng.chance(1, 2);
    let own = Cursor::new(if alone { w.bytes[start as usize..end as usize].to_vec() } else { w.bytes[start as usize..].to_vec() });
    let how = if alone { "from its own bytes" } else { "through its handle" };
    let mut cr = es(h.make_chunk_reader(own)).map_err(|e| fail(format!("{how}: {e}")))?;
    let mut d = w.open()?;
    let len = w.bounds[i + 1] - w.bounds[i];
    let mut copy = None;
    for step in 0..3 {
        let (m, _) = gen_mask(&mut c.rng, w.n(), &w.bounds);
        let p = match &w.grid {
            None => world_pred(c, w),
            Some(g) => gen_pred_grid(&mut c.rng, g, w.codec),
        };
        let off = c.rng.usize(len);
        let tl = (1 + c.rng.usize(len - off)).min(30);
        let t: Vec<f64> = (0..tl).map(|_| c.rng.range(-9, 9) as f64).collect();
        let kind = c.rng.below(10);
        let m = m.filter(|m| !matches!(kind, 4 | 5) || !w.selected(Some(m), Some(i)).is_empty());
        let req = Req { kind, m: m.as_ref(), p, off, t: &t, take: c.rng.usize(len + 2) };
        let mut fr = es(d.chunk_reader(ChunkId::new(i))).map_err(fail)?;
        let want = ask(&mut fr, &req).map_err(fail)?;
        let judge = |got: Result<(&'static str, Ans), String>, how: &str| -> CaseResult {
            let ok = got.as_ref().is_ok_and(|g| close(w, kind, &g.1, &want.1));
            ensure!(ok, w.key("step-answer"), "{what}: chunk {i} {how}: step {step}: {} {}: {}, but {} from the decoder", want.0, show_mask(m.as_ref()), sh(&got.map(|g| g.1)), want.1.short());
            Ok(())
        };
        judge(ask(&mut cr, &req), how)?;
        if let Some(x) = copy.as_mut() {
            judge(ask(x, &req), "by a copy of the reader")?;
            c.count("queries on copied readers", 1);
        }
        if step == 0 && c.rng.chance(1, 2) {
            copy = Some(cr.clone());
        }
        c.count("chunk queries step by step", 1);
    }
    if let Some(r) = cr.inner_mut().decompress_result() {
        let r = r.to_vec();
        let all = materialize(&mut d, None, Some(i)).map_err(fail)?;
        if let Some(x) = first_diff(&r, &all) {
            return Err(viol!(w.key("step-answer"), "{what}: chunk {i} {how}: decompress_result(): {x}"));
        }
    }
    Ok(())
}

/// An output that keeps nothing.
struct Hole {
    pos: u64,
    end: u64,
}
impl Write for Hole {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.pos += b.len() as u64;
        self.end = self.end.max(self.pos);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl Seek for Hole {
    fn seek(&mut self, s: std::io::SeekFrom) -> std::io::Result<u64> {
        self.pos = match s {
            std::io::SeekFrom::Start(x) => x,
            std::io::SeekFrom::Current(d) => (self.pos as i64 + d) as u64,
            std::io::SeekFrom::End(d) => (self.end as i64 + d) as u64,
        };
        Ok(self.pos)
    }
}

/// C29: memory.
pub fn c29(c: &mut Case) -> CaseResult {
    if c.rng.chance(1, 8) {
        large(c)
    } else {
        leaks(c)
    }
}

fn fds() -> usize {
    std::fs::read_dir("/proc/self/fd").map(|d| d.count()).unwrap_or(0)
}

/// What an operation used it gives back, whether it succeeds or fails half-way.
fn leaks(c: &mut Case) -> CaseResult {
    use crate::vio::*;
    use ebi::api::decoder::{Aggregation, Expr};
    let codec = ALL[c.index as usize % ALL.len()];
    let n = 1 + c.rng.usize(300);
    let (vals, k, _) = gen_input(c, codec, n);
    let o = match c.rng.below(3) {
        0 => ChunkOption::Full,
        1 => ChunkOption::ByteSizeBestEffort(16 + c.rng.usize(1000)),
        _ => ChunkOption::RecordCount(1 + c.rng.usize(n)),
    };
    let cfg = config(codec, k);
    let mut what = format!("{codec:?} k={k} {} {}", show_chunk(o), show_vals(&vals));
    c.note(&what);
    let key = |s: &str| format!("{s}:{codec:?}");
    let base = encode(&vals, o, cfg).map_err(|e| viol!(key("encode-failed"), "{what}: {e}"))?;
    let raw: Vec<u8> = vals.iter().flat_map(|v| v.to_le_bytes()).collect();
    let seed = c.rng.u64();
    let mode = c.rng.below(6);
    let upto = c.rng.pick(&[8u64, 60]);
    let at = c.rng.below(upto);
    let fault = match c.rng.below(4) {
        0 => None,
        1 => Some((at, Fault::Once(std::io::ErrorKind::Other))),
        2 => Some((at, Fault::Sticky(std::io::ErrorKind::UnexpectedEof))),
        _ => Some((at, Fault::Zero)),
    };
    let d = open(&base).map_err(|e| viol!(key("open-failed"), "{what}: {e}"))?;
    let w = World { codec, bytes: base, orig: vals, model: vec![], bounds: bounds(&d), option: o, grid: None, what: what.clone() };
    drop(d);
    let qs: Vec<Query> = (0..2).map(|_| gen_query(c, &w)).collect();
    let scratch = if mode == 5 { Some(Scratch::new(c)) } else { None };
    if let Some(s) = &scratch {
        std::fs::write(s.0.join("f"), &w.bytes).map_err(|e| viol!("harness", "{e}"))?;
    }
    let fired = std::cell::Cell::new(0u64);
    let once = || {
        let ctl = ctl();
        ctl.borrow_mut().fault_at = fault;
        match mode {
            // encoding, with the input or the output failing
            0 => {
                let oc = crate::vio::ctl();
                let _ = Encoder::new(EncoderInput::from_reader(Vio::new(raw.clone(), &ctl)), EncoderOutput::from_writer(Vio::new(vec![], &oc)), o, cfg).encode();
            }
            1 => {
                let ic = crate::vio::ctl();
                let _ = Encoder::new(EncoderInput::from_reader(Vio::new(raw.clone(), &ic)), EncoderOutput::from_writer(Vio::new(vec![], &ctl)), o, cfg).encode();
            }
            // queries, with the file failing
            2 | 3 => {
                if mode == 3 {
                    ctl.borrow_mut().fault_at = None;
                }
                if let Ok(mut d) = Decoder::new(DecoderInput::from_reader(Vio::new(w.bytes.clone(), &ctl))) {
                    if mode == 2 {
                        for q in &qs {
                            let _ = q.run(&mut d);
                        }
                    }
                    if mode == 3 {
                        let now = ctl.borrow().ops;
                        ctl.borrow_mut().fault_at = fault.map(|(at, f)| (now + at, f));
                        let e = |x: f64| Expr::Binary { op: ebi::decoder::expr::Op::Mul, lhs: Box::new(Expr::Index(0)), rhs: Box::new(Expr::Literal(x)) };
                        let mut t = SegmentedExecutionTimes::new();
                        let mut ds = [d];
                        let m: roaring::RoaringBitmap = (0..seed as u32 % 50).collect();
                        let _ = Aggregation::sum(e(2.0)).compute(&mut ds, if seed & 64 == 0 { None } else { Some(&m) }, &mut t);
                        let _ = Aggregation::compute_multiple(&[Aggregation::max(e(3.0)), Aggregation::none(Expr::Index(0))], &mut ds, None, &mut t);
                    }
                }
            }
            // damaged files
            4 => {
                let mut b = w.bytes.clone();
                let mut r = crate::rng::Rng::new(seed);
                if codec == Codec::Alp || r.chance(1, 3) {
                    b.truncate(r.usize(b.len()));
                } else {
                    let fo = u64at(&b, 16) as usize;
                    let p = HEADER + r.usize(fo - HEADER);
                    b[p] ^= 1 << r.below(8);
                }
                let _ = guard(|| {
                    if let Ok(mut d) = open(&b) {
                        let _ = materialize(&mut d, None, None);
                        let _ = es(d.sum(None, None));
                    }
                });
            }
            _ => {
                let dir = &scratch.as_ref().unwrap().0;
                let _ = EncoderInput::from_file(dir.join("none"));
                if let (Ok(i), Ok(mut out)) = (DecoderInput::from_file(dir.join("f")), DecoderOutput::from_file(dir.join("o"))) {
                    if let Ok(mut d) = Decoder::new(i) {
                        let _ = d.materialize(&mut out, None, None);
                    }
                }
                if let (Ok(i), Ok(out)) = (EncoderInput::from_file(dir.join("o")), EncoderOutput::from_file(dir.join("g"))) {
                    let _ = Encoder::new(i, out.into_buffered(), o, cfg).encode();
                }
            }
        }
        fired.set(fired.get() + ctl.borrow().fired);
    };
    // whatever is set up once is set up now
    for _ in 0..3 {
        once();
    }
    const TIMES: usize = 24;
    let (a, f0, h0) = (crate::mem::live(), fds(), crate::mem::c_heap());
    for _ in 0..TIMES {
        once();
    }
    let (h1, f1, b) = (crate::mem::c_heap(), fds(), crate::mem::live());
    what.push_str(&format!(": {}, {fault:?}", ["encode with a failing input", "encode with a failing output", "queries", "queries and expressions", "damaged file", "files"][mode as usize]));
    ensure!(b.0 == a.0 && b.1 == a.1, key("leak"), "{what}: {} bytes in {} blocks more in use after {TIMES} runs", b.0 as i64 - a.0 as i64, b.1 as i64 - a.1 as i64);
    ensure!(f1 == f0, key("descriptor-leak"), "{what}: {f0} open files before, {f1} after {TIMES} runs");
    // the C heap keeps some freed blocks at hand, which count as in use: only growth without end is a leak
    let (mut h0, mut h1, mut windows) = (h0, h1, 1);
    while h1 >= h0 + 16 * TIMES && windows < 8 {
        h0 = crate::mem::c_heap();
        for _ in 0..TIMES {
            once();
        }
        h1 = crate::mem::c_heap();
        windows += 1;
    }
    ensure!(h1 < h0 + 16 * TIMES, key("leak"), "{what}: {} bytes of the C heap more in use after every {TIMES} runs", h1 - h0);
    c.count("windows of repetitions", windows);
    c.count("scenarios repeated", 1);
    c.count("scenarios with a failing operation", (fired.get() > 0) as u64);
    c.count(["encodings, input", "encodings, output", "queries", "expressions", "damaged files", "files on disk"][mode as usize], 1);
    c.count(&format!("codec {codec:?}"), 1);
    c.sign(crate::rng::mix(&[seed, mode, at]));
    c.nontrivial = true;
    Ok(())
}

/// Many chunks: what is in memory at a time is a chunk, not the file.
fn large(c: &mut Case) -> CaseResult {
    let codec = ALL[c.index as usize % ALL.len()];
    let per = 64 + c.rng.usize(400);
    let chunks = (300_000 + c.rng.usize(100_000)) / per;
    let n = per * chunks;
    let o = if c.rng.chance(1, 3) { ChunkOption::ByteSizeBestEffort(per * 4) } else { ChunkOption::RecordCount(per) };
    // noise of full width (on the grid for the fixed-point codecs): no codec makes it small
    let k = if codec.scaled() { 3 } else { 0 };
    let vals: Vec<f64> = if codec.scaled() { (0..n).map(|_| decimal(c.rng.range(-900_000, 900_000), 3)).collect() } else { (0..n).map(|_| f64::from_bits(c.rng.u64() & !(0x7ff << 52) | 0x3ff << 52)).collect() };
    let cfg = config(codec, k);
    let what = format!("{codec:?} {} {n} records in about {chunks} chunks", show_chunk(o));
    c.note(&what);
    let key = |s: &str| format!("{s}:{codec:?}");
    // no more than this many times a chunk (of the greatest size the option admits), a few bytes per chunk, and a constant
    let unit = match o {
        ChunkOption::ByteSizeBestEffort(m) => m * 2 + 200,
        _ => per * 8 + 200,
    };
    let bound = 24 * unit + 150 * (n * 8 / unit + 2) + (400 << 10);
    let warm = encode(&vals[..per], o, cfg).map_err(|e| viol!(key("encode-failed"), "{what}: {e}"))?;
    drop(open(&warm));
    let (r, top) = crate::mem::peak(|| {
        let mut e = Encoder::new(EncoderInput::from_f64_slice(&vals), EncoderOutput::from_writer(Hole { pos: 0, end: 0 }), o, cfg);
        es(e.encode())?;
        Ok::<u64, String>(e.into_output().into_inner().end)
    });
    let size = r.map_err(|e| viol!(key("encode-failed"), "{what}: {e}"))? as usize;
    if std::env::var_os("MON_SHOW").is_some() {
        eprintln!("{codec:?}-enc unit {unit} chunks {chunks} file {size} bound {bound}: encode {top}");
    }
    c.count("peaks measured", 1);
    ensure!(top <= bound, key("encode-memory"), "{what}: encoding {} bytes into {size} needs {top} bytes of memory at a time", n * 8);
    let bytes = encode(&vals, o, cfg).map_err(|e| viol!(key("encode-failed"), "{what}: {e}"))?;
    ensure!(bytes.len() == size, key("encode-memory"), "{what}: {size} bytes written, then {}", bytes.len());
    let (d, top) = crate::mem::peak(|| es(Decoder::new(DecoderInput::from_reader(Cursor::new(&bytes[..])))));
    let mut d = d.map_err(|e| viol!(key("open-failed"), "{what}: {e}"))?;
    let nc = d.chunk_footers().len();
    if std::env::var_os("MON_SHOW").is_some() {
        eprintln!("{codec:?}-open chunks {nc}: {top}");
    }
    ensure!(top <= 200 * nc + (64 << 10), key("open-memory"), "{what}: opening a file of {nc} chunks needs {top} bytes of memory");
    let p = ebi::decoder::query::Predicate::Ne(vals[0]);
    let t: Vec<f64> = vals[..per.min(16)].to_vec();
    // a bitmap over all records may be part of the answer
    let room = bound + n / 2;
    for (q, name) in ["materialize", "filter", "filter_materialize", "sum", "max", "dot", "one chunk"].iter().enumerate() {
        let (r, top) = crate::mem::peak(|| match q {
            0 => es(d.materialize(&mut DecoderOutput::from_writer(Hole { pos: 0, end: 0 }), None, None)),
            1 => es(d.filter(p, None, None).map(|_| ())),
            2 => es(d.filter_materialize(&mut DecoderOutput::from_writer(Hole { pos: 0, end: 0 }), p, None, None)),
            3 => es(d.sum(None, None).map(|_| ())),
            4 => es(d.max(None, None).map(|_| ())),
            5 => es(d.chunk_reader(ChunkId::new(nc / 2)).and_then(|mut r| r.dot_product(0, &t)).map(|_| ())),
            _ => es(d.materialize(&mut DecoderOutput::from_writer(Hole { pos: 0, end: 0 }), None, Some(ChunkId::new(nc - 1)))),
        });
        r.map_err(|e| viol!(key("query-failed"), "{what}: {name}: {e}"))?;
        ensure!(top <= room, key("query-memory"), "{what}: {name} over {size} bytes in {nc} chunks needs {top} bytes of memory at a time");
        c.count("peaks measured", 1);
        if std::env::var_os("MON_SHOW").is_some() {
            eprintln!("{codec:?} unit {unit} chunks {nc} file {size} bound {room}: {name} {top}");
        }
    }
    // expressions, and their sum over the chunks
    let mut ds = [d];
    let e = ebi::api::decoder::Expr::Binary { op: ebi::decoder::expr::Op::Mul, lhs: Box::new(ebi::api::decoder::Expr::Index(0)), rhs: Box::new(ebi::api::decoder::Expr::Literal(2.0)) };
    let (r, top) = crate::mem::peak(|| es(ebi::api::decoder::Aggregation::sum(e).compute(&mut ds, None, &mut SegmentedExecutionTimes::new())));
    r.map_err(|e| viol!(key("query-failed"), "{what}: expression: {e}"))?;
    ensure!(top <= room, key("query-memory"), "{what}: an expression over {size} bytes in {nc} chunks needs {top} bytes of memory at a time");
    c.count("chunks", nc as u64);
    c.count(&format!("codec {codec:?}"), 1);
    c.sign(crate::rng::mix(&[per as u64, chunks as u64, c.index]));
    c.nontrivial = true;
    Ok(())
}
