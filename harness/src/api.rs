//! Thin client-boundary wrappers around the real public API; errors become strings.
use ebi::api::decoder::{ChunkId, Decoder, DecoderInput, DecoderOutput};
use ebi::api::encoder::{Encoder, EncoderInput, EncoderOutput};
use ebi::compressor::CompressorConfig;
use ebi::decoder::query::Predicate;
use ebi::encoder::ChunkOption;
use roaring::RoaringBitmap;
use std::io::{Cursor, Read, Seek};

pub type Dec = Decoder<Cursor<Vec<u8>>>;
pub type Mask<'a> = Option<&'a RoaringBitmap>;

pub fn es<T, E: std::fmt::Display>(r: Result<T, E>) -> Result<T, String> {
    r.map_err(|e| e.to_string())
}

pub fn encode(vals: &[f64], o: ChunkOption, c: CompressorConfig) -> Result<Vec<u8>, String> {
    let mut e = Encoder::new(EncoderInput::from_f64_slice(vals), EncoderOutput::from_vec(Vec::new()), o, c);
    es(e.encode())?;
    Ok(e.into_output().into_vec())
}

pub fn open(bytes: &[u8]) -> Result<Dec, String> {
    es(Decoder::new(DecoderInput::from_reader(Cursor::new(bytes.to_vec()))))
}

pub fn to_f64(b: &[u8]) -> Vec<f64> {
    b.chunks_exact(8).map(|c| f64::from_le_bytes(c.try_into().unwrap())).collect()
}

pub fn materialize<R: Read + Seek>(d: &mut Decoder<R>, m: Mask, c: Option<usize>) -> Result<Vec<f64>, String> {
    let mut out = DecoderOutput::from_vec(Vec::new());
    es(d.materialize(&mut out, m, c.map(ChunkId::new)))?;
    let b = out.into_writer().into_inner();
    if b.len() % 8 != 0 {
        return Err(format!("materialize wrote {} bytes, not a multiple of 8", b.len()));
    }
    Ok(to_f64(&b))
}

pub fn filter<R: Read + Seek>(d: &mut Decoder<R>, p: Predicate, m: Mask, c: Option<usize>) -> Result<RoaringBitmap, String> {
    es(d.filter(p, m, c.map(ChunkId::new)))
}

pub fn filter_materialize<R: Read + Seek>(d: &mut Decoder<R>, p: Predicate, m: Mask, c: Option<usize>) -> Result<Vec<f64>, String> {
    let mut out = DecoderOutput::from_vec(Vec::new());
    es(d.filter_materialize(&mut out, p, m, c.map(ChunkId::new)))?;
    Ok(to_f64(&out.into_writer().into_inner()))
}

/// Logical chunk boundaries (n_chunks + 1 entries) as recorded in the file.
pub fn bounds<R: Read + Seek>(d: &Decoder<R>) -> Vec<usize> {
    let mut b: Vec<usize> = d.chunk_footers().iter().map(|f| f.logical_offset() as usize).collect();
    b.push(d.footer().number_of_records() as usize);
    b
}

/// Same f64 up to the choice of NaN.
pub fn same(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}

pub fn first_diff(a: &[f64], b: &[f64]) -> Option<String> {
    if let Some(i) = a.iter().zip(b).position(|(x, y)| !same(*x, *y)) {
        return Some(format!(
            "record {} is {:e} ({:#018x}), expected {:e} ({:#018x}); lengths {} vs {}",
            i, a[i], a[i].to_bits(), b[i], b[i].to_bits(), a.len(), b.len()
        ));
    }
    if a.len() != b.len() {
        return Some(format!("got {} records, expected {}", a.len(), b.len()));
    }
    None
}
