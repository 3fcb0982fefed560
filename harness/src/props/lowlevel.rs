//! Bit I/O, compressors and their append/rewind interface, watched below the file level.
use super::files::{u64at, HEADER};
use crate::api::*;
use crate::fw::*;
use crate::gen::*;
use crate::rng::{hash_bytes, Rng};
use crate::{ensure, viol};
use ebi::compressor::run_length::RunLengthCompressor;
use ebi::compressor::uncompressed::UncompressedCompressor;
use ebi::compressor::{Compressor, GenericCompressor, RewindableCompressor};
use ebi::encoder::ChunkOption;
use ebi::io::as_bytes_mut::AsBytesMut;
use ebi::io::bit_read::{BitRead2, BufferedBitReader};
use ebi::io::bit_write::{BitWrite, BufferedBitWriter};

fn pack(bits: &[bool]) -> Vec<u8> {
    let mut v = vec![0u8; bits.len().div_ceil(8)];
    for (i, b) in bits.iter().enumerate() {
        if *b {
            v[i / 8] |= 0x80 >> (i % 8);
        }
    }
    v
}

fn number(bits: &[bool]) -> u64 {
    bits.iter().fold(0, |a, b| a << 1 | *b as u64)
}

fn width(r: &mut Rng) -> u32 {
    match r.below(6) {
        0 => r.below(65) as u32,
        1 => r.pick(&[0, 1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 55, 56, 57, 63, 64]),
        2 => r.below(9) as u32,
        3 => 8 * r.below(9) as u32,
        _ => 1 + r.below(20) as u32,
    }
}

fn write_step(r: &mut Rng, w: &mut impl BitWrite, m: &mut Vec<bool>, log: &mut String) {
    match r.below(12) {
        0..=2 => {
            let b = r.chance(1, 2);
            w.write_bit(b);
            m.push(b);
            log.push_str(if b { " 1" } else { " 0" });
        }
        3 | 4 => {
            let b = if r.chance(1, 3) { 0xff } else { r.u64() as u8 };
            w.write_byte(b);
            m.extend((0..8).map(|i| b >> (7 - i) & 1 != 0));
            log.push_str(&format!(" byte {b:#x}"));
        }
        5..=9 => {
            let n = width(r);
            // the bits above the lowest n must not matter
            let v = if r.chance(1, 3) { u64::MAX } else { r.u64() };
            w.write_bits(v, n);
            m.extend((0..n).rev().map(|i| v >> i & 1 != 0));
            log.push_str(&format!(" bits {v:#x}/{n}"));
        }
        10 => {
            let at = if r.chance(1, 3) { r.usize(m.len() + 1) } else { m.len() - r.usize(m.len().min(20) + 1) };
            w.set_cursor_at_in_bit(at);
            m.truncate(at);
            log.push_str(&format!(" cursor {at}"));
        }
        _ => {
            if r.chance(1, 4) {
                w.reset();
                m.clear();
                log.push_str(" reset");
            }
        }
    }
}

fn check_writer(w: &impl BitWrite, m: &[bool], log: &str) -> CaseResult {
    ensure!(w.number_of_bits_written() == m.len(), "bits-written", "after{log}: {} bits reported, {} written", w.number_of_bits_written(), m.len());
    let p = pack(m);
    ensure!(w.as_slice() == p, "bits-differ", "after{log}: the buffer is {:x?}, expected {:x?}", tail(w.as_slice()), tail(&p));
    Ok(())
}

fn tail(b: &[u8]) -> &[u8] {
    &b[b.len().saturating_sub(24)..]
}

/// Reads through either the reader or a reference to it.
fn read_step(r: &mut Rng, b: &mut BufferedBitReader<Vec<u8>>, by_ref: bool, m: &[bool], pos: &mut usize, c: &mut std::collections::BTreeMap<&'static str, u64>) -> CaseResult {
    let left = m.len().saturating_sub(*pos);
    let at = *pos;
    let mut bump = |k: &'static str| *c.entry(k).or_insert(0) += 1;
    fn rd(b: &mut impl BitRead2, k: u64, n: u8) -> Option<u64> {
        match k {
            0 => b.read_bit().map(u64::from),
            1 => b.read_byte().map(u64::from),
            2 => b.read_bits(n),
            _ => b.peak_bits(n),
        }
    }
    match r.below(16) {
        k @ 0..=11 => {
            let k = [0, 0, 1, 1, 2, 2, 2, 2, 2, 3, 3, 3][k as usize];
            let n = match k {
                0 => 1,
                1 => 8,
                _ => match r.below(4) {
                    // just at and just beyond what is left
                    0 if left > 0 && left < 64 => left as u32 + r.below(2) as u32,
                    _ => width(r).max(1),
                },
            } as usize;
            let got = if by_ref { rd(&mut &mut *b, k, n as u8) } else { rd(b, k, n as u8) };
            let name = ["read_bit", "read_byte", "read_bits", "peak_bits"][k as usize];
            let want = (n <= left).then(|| number(&m[at..at + n]));
            ensure!(got == want, "read-differs", "{name}({n}) at bit {at} of {}: {got:x?}, expected {want:x?}", m.len());
            bump(name);
            if want.is_some() && k != 3 {
                *pos += n;
            }
            if want.is_none() {
                bump("reads refused at the end");
            }
        }
        12 => {
            let n = match r.below(4) {
                0 => left + r.usize(30),
                _ => r.usize(left.min(40) + 1),
            };
            b.skip_bits(n);
            *pos += n;
            bump("skip");
        }
        13 => {
            b.reset();
            *pos = 0;
            bump("reset");
        }
        14 if left >= 1 => {
            let g = b.read_bit_unchecked();
            ensure!(g == m[at], "read-differs", "read_bit_unchecked at bit {at}: {g}");
            *pos += 1;
        }
        15 if left >= 8 => {
            let g = b.read_byte_unchecked();
            ensure!(g as u64 == number(&m[at..at + 8]), "read-differs", "read_byte_unchecked at bit {at}: {g:#x}");
            *pos += 8;
        }
        _ => {}
    }
    Ok(())
}

/// C17: bit streams hold exactly what was written.
pub fn c17(c: &mut Case) -> CaseResult {
    let r = &mut c.rng;
    let mut w = match r.below(3) {
        0 => BufferedBitWriter::new(),
        1 => BufferedBitWriter::with_capacity(r.usize(100)),
        _ => {
            let n = r.usize(20);
            BufferedBitWriter::from_vec((0..n).map(|_| r.u64() as u8).collect())
        }
    };
    let mut m: Vec<bool> = vec![];
    let mut log = String::new();
    let mut writes = 0;
    for _ in 0..r.usize(60) {
        if r.chance(1, 3) {
            write_step(r, &mut &mut w, &mut m, &mut log);
        } else {
            write_step(r, &mut w, &mut m, &mut log);
        }
        if log.len() > 2000 {
            let cut = log.len() - 1000;
            log = log[cut..].to_string();
        }
        check_writer(&w, &m, &log)?;
        writes += 1;
    }
    let bytes = w.clone().close().into_vec();
    ensure!(bytes == pack(&m), "closed-differs", "after{log}: the closed buffer is {:x?}", tail(&bytes));
    // what follows the written bits in the last byte is 0 and belongs to the reader's stream
    let mut bits: Vec<bool> = bytes.iter().flat_map(|b| (0..8).map(move |i| b >> (7 - i) & 1 != 0)).collect();
    ensure!(bits[m.len()..].iter().all(|b| !b), "padding", "after{log}: padding is not zero");
    if r.chance(1, 4) {
        let n = r.usize(40);
        bits = (0..8 * n).map(|_| r.chance(1, 2)).collect();
    }
    let mut b = BufferedBitReader::new(pack(&bits));
    let mut pos = 0;
    let mut cnt = Default::default();
    let steps = r.usize(80);
    for _ in 0..steps {
        let by_ref = r.chance(1, 3);
        read_step(r, &mut b, by_ref, &bits, &mut pos, &mut cnt)?;
    }
    // words as bytes
    let mut words: Vec<u64> = (0..r.usize(5)).map(|_| r.u64()).collect();
    let mut want = words.clone();
    {
        let bs = words[..].as_bytes_mut();
        ensure!(bs.len() == want.len() * 8, "bytes-of-words", "{} words have {} bytes", want.len(), bs.len());
        for i in 0..bs.len() {
            let x = r.u64() as u8;
            bs[i] = x;
            let mut y = want[i / 8].to_ne_bytes();
            y[i % 8] = x;
            want[i / 8] = u64::from_ne_bytes(y);
        }
    }
    ensure!(words == want, "bytes-of-words", "words written through bytes are {words:x?}, expected {want:x?}");
    for (k, n) in cnt {
        c.count(k, n);
    }
    c.count("writer steps checked", writes);
    c.count("bits written", m.len() as u64);
    c.note(format!("{writes} writes:{}; {steps} reads", &log[..log.len().min(300)]));
    c.nontrivial = !m.is_empty() && steps > 0;
    c.sign(hash_bytes(log.as_bytes()));
    Ok(())
}

fn cat(x: &impl Compressor) -> Vec<u8> {
    x.buffers().concat()
}

/// C18: a compressor can be used again, and reports what it holds.
pub fn c18(c: &mut Case) -> CaseResult {
    let codec = ALL[c.index as usize % ALL.len()];
    let k = if codec.scaled() { c.rng.below(max_k(codec) as u64 + 1) as u32 } else { 0 };
    let cfg = config_rand(&mut c.rng, codec, k);
    let key = |s: &str| format!("{s}:{codec:?}");
    let mut x: GenericCompressor = cfg.build();
    ensure!(x.total_bytes_in() == 0, key("bytes-in"), "a new {codec:?} compressor reports {} input bytes", x.total_bytes_in());
    let (new_bytes, new_held) = (cat(&x), x.total_bytes_buffered());
    let spent = |x: &GenericCompressor| x.execution_times().map(|t| t.xor() + t.delta() + t.quantization() + t.bit_packing()).unwrap_or_default();
    let rounds = 1 + c.rng.usize(5);
    for round in 0..rounds {
        let n = gen_len(&mut c.rng, 700).max(1);
        let vals = if codec.scaled() {
            gen_grid_k(&mut c.rng, codec, n, k).vals
        } else {
            gen_values(&mut c.rng, n).0
        };
        let what = format!("{codec:?} k={k} use {} of one compressor, {}", round + 1, show_vals(&vals));
        c.note(&what);
        let alone = encode(&vals, ChunkOption::Full, cfg).map_err(|e| viol!(key("encode-failed"), "{what}: {e}"))?;
        let want = &alone[HEADER..u64at(&alone, 16) as usize];
        let was_reset = round == 0 || c.rng.chance(2, 3);
        if round > 0 && was_reset {
            x.reset();
            ensure!(x.total_bytes_in() == 0, key("bytes-in"), "{what}: {} input bytes reported after a reset", x.total_bytes_in());
            ensure!(x.total_bytes_buffered() == new_held, key("reset-buffered"), "{what}: {} bytes reported as buffered after a reset, {new_held} by a new compressor", x.total_bytes_buffered());
            ensure!(spent(&x).is_zero(), key("reset-times"), "{what}: {:?} of work reported after a reset", spent(&x));
            ensure!(cat(&x) == new_bytes, key("reset-bytes"), "{what}: {} bytes handed out after a reset, {} by a new compressor", cat(&x).len(), new_bytes.len());
        }
        let mut copy = None;
        es(x.compress(&vals)).map_err(|e| viol!(key("compress-failed"), "{what}: {e}"))?;
        if was_reset {
            ensure!(x.total_bytes_in() == 8 * n, key("bytes-in"), "{what}: {} input bytes reported for {n} records", x.total_bytes_in());
        }
        let held = x.total_bytes_buffered();
        if c.rng.chance(1, 3) {
            copy = Some(x.clone());
        }
        x.prepare();
        let got = cat(&x);
        ensure!(got == want, key("reuse-differs"), "{what}: {} bytes, a new compressor makes {} (first difference at {:?})", got.len(), want.len(), got.iter().zip(want).position(|(a, b)| a != b));
        ensure!(held >= got.len() && held <= got.len() + 8, key("bytes-buffered"), "{what}: {held} bytes reported as buffered, {} written", got.len());
        if let Some(mut y) = copy {
            // a copy taken before is not affected by what happens to the original
            if c.rng.chance(1, 2) {
                x.reset();
            }
            y.prepare();
            ensure!(cat(&y) == want, key("clone-differs"), "{what}: a copy of the compressor gives other bytes");
            if c.rng.chance(1, 2) {
                x = y;
            }
        }
        c.count("compressions compared", 1);
        c.count(if was_reset { "after reset" } else { "without reset" }, (round > 0) as u64);
        c.count("bytes compared", want.len() as u64);
        c.sign(hash_bytes(&want[..want.len().min(500)]));
    }
    c.count(&format!("codec {codec:?}"), 1);
    c.nontrivial = rounds > 1;
    Ok(())
}

/// The records a compressor holds, decoded through a file around its bytes.
fn held<C: Compressor + Clone>(x: &C, codec: Codec, n: usize, what: &str) -> Result<Vec<f64>, Viol> {
    let mut y = x.clone();
    let announced = y.total_bytes_buffered();
    y.prepare();
    let chunk = cat(&y);
    // (the header of an empty chunk may or may not be counted)
    ensure!(announced == chunk.len() || n == 0 && announced <= 8, "bytes-buffered", "{what}: {announced} bytes announced, {} handed out", chunk.len());
    ensure!(y.total_bytes_buffered() == chunk.len() || n == 0 && chunk.len() <= 8, "bytes-buffered", "{what}: {} bytes announced after preparing, {} handed out", y.total_bytes_buffered(), chunk.len());
    if n == 0 {
        // no file has a chunk without records; a header alone is all there may be
        ensure!(chunk.len() <= 8, "rewound-bytes", "{what}: {} bytes are left of no records", chunk.len());
        return Ok(vec![]);
    }
    let filler = vec![1.5; n];
    let t = encode(&filler, ChunkOption::Full, config(codec, 0)).map_err(|e| viol!("encode-failed", "{what}: {e}"))?;
    let fo = u64at(&t, 16) as usize;
    let mut f = t[..HEADER].to_vec();
    f[16..24].copy_from_slice(&((HEADER + chunk.len()) as u64).to_le_bytes());
    f.extend_from_slice(&chunk);
    f.extend_from_slice(&t[fo..]);
    let mut d = open(&f).map_err(|e| viol!("held-unreadable", "{what}: a file of the compressor's bytes cannot be opened: {e}"))?;
    materialize(&mut d, None, None).map_err(|e| viol!("held-unreadable", "{what}: the compressor's bytes cannot be decoded: {e}"))
}

fn history<C: RewindableCompressor + Clone>(c: &mut Case, codec: Codec, mut x: C) -> CaseResult {
    let key = |s: &str| format!("{s}:{codec:?}");
    let mut m: Vec<f64> = vec![];
    let mut log = format!("{codec:?}:");
    let steps = 1 + c.rng.usize(9);
    let pool: Vec<f64> = gen_values(&mut c.rng, 6).0.into_iter().chain([0.0, -0.0, 1.0]).collect();
    // the compressor's state after preparing is for reading only, unless more is appended
    let mut prepared = false;
    for _ in 0..steps {
        match c.rng.below(10) {
            0 => {
                // start over
                let n = 1 + c.rng.usize(40);
                let v: Vec<f64> = runs(&mut c.rng, n, &pool);
                es(x.compress(&v)).map_err(|e| viol!(key("compress-failed"), "{log}: {e}"))?;
                log.push_str(&format!(" compress {n}"));
                m = v;
                prepared = false;
            }
            1..=4 => {
                let n = if c.rng.chance(1, 6) { 0 } else if c.rng.chance(1, 8) { 250 + c.rng.usize(600) } else { 1 + c.rng.usize(60) };
                let v = runs(&mut c.rng, n, &pool);
                x.append_compress(&v);
                log.push_str(&format!(" append {n}"));
                m.extend_from_slice(&v);
                prepared = prepared && n == 0;
                c.count("appends", 1);
                c.count("appends of nothing", (n == 0) as u64);
            }
            5..=7 => {
                let n = match c.rng.below(6) {
                    0 => m.len(),
                    1 => m.len() + 1 + c.rng.usize(5),
                    2 => usize::MAX - c.rng.usize(3),
                    3 => c.rng.usize(m.len() + 1),
                    _ => c.rng.usize(m.len().min(20) + 1),
                };
                let ok = x.rewind(n);
                log.push_str(&format!(" rewind {n} of {}: {ok}", m.len()));
                if n > m.len() {
                    ensure!(!ok, key("rewind-too-far"), "{log}: rewound more records than there are");
                    c.count("rewinds refused", 1);
                } else if ok {
                    m.truncate(m.len() - n);
                    c.count("rewinds", 1);
                } else {
                    // only for what has been prepared for reading, or for nothing at all, may this be refused
                    ensure!(prepared || m.is_empty(), key("rewind-refused"), "{log}: the rewind was refused");
                }
            }
            8 => {
                x.reset();
                m.clear();
                prepared = false;
                log.push_str(" reset");
            }
            _ => {
                x.prepare();
                prepared = true;
                log.push_str(" prepare");
            }
        }
        ensure!(x.total_bytes_in() == 8 * m.len(), key("bytes-in"), "{log}: {} input bytes reported for {} records", x.total_bytes_in(), m.len());
        let got = held(&x, codec, m.len(), &log).map_err(|mut v| { v.key = key(&v.key); v })?;
        if got.len() != m.len() || got.iter().zip(&m).any(|(a, b)| a.to_bits() != b.to_bits()) {
            return Err(viol!(key("held-differs"), "{log}: the compressor holds other records: {:?}", first_diff(&got, &m)));
        }
        c.count("states compared", 1);
        c.count("records compared", m.len() as u64);
    }
    c.note(&log);
    c.count(&format!("codec {codec:?}"), 1);
    c.sign(hash_bytes(log.as_bytes()));
    c.nontrivial = steps > 1;
    Ok(())
}

/// Records in runs, so that runs are extended, split and cut.
fn runs(r: &mut Rng, n: usize, pool: &[f64]) -> Vec<f64> {
    let mut v = Vec::with_capacity(n);
    while v.len() < n {
        let x = r.pick(pool);
        let l = match r.below(8) {
            0 => 250 + r.usize(12),
            1..=4 => 1,
            _ => 1 + r.usize(20),
        };
        for _ in 0..l.min(n - v.len()) {
            v.push(x);
        }
    }
    v
}

/// C20: appending and rewinding.
pub fn c20(c: &mut Case) -> CaseResult {
    if c.index % 2 == 0 {
        let x = if c.rng.chance(1, 2) { RunLengthCompressor::new() } else { RunLengthCompressor::with_capacity(c.rng.usize(50)) };
        history(c, Codec::Rle, x)
    } else {
        let cap = c.rng.usize(50);
        history(c, Codec::Uncompressed, UncompressedCompressor::new(cap))
    }
}

