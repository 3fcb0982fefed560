//! Stand-in for the C++ ALP library: the same two functions with the same contract (lossless; the number of records is not stored),
//! and a simple reversible encoding whose bytes depend on position, so that bytes that end up in the wrong place do not decode.

fn mix(i: usize) -> u64 {
    let mut x = (i as u64).wrapping_add(0x9e37_79b9_7f4a_7c15).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    x ^= x >> 29;
    x.wrapping_mul(0x94d0_49bb_1331_11eb)
}

pub fn compress_double(input: &[f64], buffer: &mut Vec<u8>) {
    buffer.clear();
    buffer.extend_from_slice(b"alp!");
    for (i, v) in input.iter().enumerate() {
        buffer.extend_from_slice(&(v.to_bits() ^ mix(i)).to_le_bytes());
    }
}

/// # Safety
/// The number of records must be that of the compressed data. (Here, other numbers of records read as zeros.)
pub unsafe fn decompress_double(input: &[u8], number_of_records: usize, buffer: &mut Vec<f64>) {
    buffer.clear();
    let body = if input.starts_with(b"alp!") { &input[4..] } else { &[] };
    for i in 0..number_of_records {
        let bits = body.get(i * 8..i * 8 + 8).map_or(0, |b| u64::from_le_bytes(b.try_into().unwrap()) ^ mix(i));
        buffer.push(f64::from_bits(bits));
    }
}
