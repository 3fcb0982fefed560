//! Workload generators: value families, chunkings, codecs, bitmasks, predicates.
use crate::rng::Rng;
use ebi::compressor::CompressorConfig;
use ebi::decoder::query::{Predicate, Range, RangeValue};
use ebi::encoder::ChunkOption;
use roaring::RoaringBitmap;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Codec {
    Uncompressed,
    Rle,
    Gorilla,
    Chimp,
    Chimp128,
    ElfOnChimp,
    Elf,
    Zstd,
    Gzip,
    Snappy,
    Buff,
    Sprintz,
    Alp,
}
pub const LOSSLESS: [Codec; 11] = [
    Codec::Uncompressed,
    Codec::Rle,
    Codec::Gorilla,
    Codec::Chimp,
    Codec::Chimp128,
    Codec::ElfOnChimp,
    Codec::Elf,
    Codec::Zstd,
    Codec::Gzip,
    Codec::Snappy,
    Codec::Alp,
];
pub const ALL: [Codec; 13] = [
    Codec::Uncompressed,
    Codec::Rle,
    Codec::Gorilla,
    Codec::Chimp,
    Codec::Chimp128,
    Codec::ElfOnChimp,
    Codec::Elf,
    Codec::Zstd,
    Codec::Gzip,
    Codec::Snappy,
    Codec::Buff,
    Codec::Sprintz,
    Codec::Alp,
];
pub const SCALED: [Codec; 2] = [Codec::Buff, Codec::Sprintz];

impl Codec {
    pub fn scaled(self) -> bool {
        matches!(self, Codec::Buff | Codec::Sprintz)
    }
    pub fn xor(self) -> bool {
        matches!(self, Codec::Gorilla | Codec::Chimp | Codec::Chimp128 | Codec::Elf | Codec::ElfOnChimp)
    }
    pub fn wire(self) -> u8 {
        match self {
            Codec::Uncompressed => 0,
            Codec::Rle => 1,
            Codec::Buff => 2,
            Codec::Gorilla => 3,
            Codec::Chimp => 4,
            Codec::Chimp128 => 5,
            Codec::ElfOnChimp => 6,
            Codec::Elf => 7,
            Codec::Sprintz => 8,
            Codec::Zstd => 9,
            Codec::Gzip => 10,
            Codec::Snappy => 11,
            Codec::Alp => 12,
        }
    }
    pub fn scheme(self) -> ebi::format::CompressionScheme {
        use ebi::format::CompressionScheme as S;
        match self {
            Codec::Uncompressed => S::Uncompressed,
            Codec::Rle => S::RLE,
            Codec::Buff => S::BUFF,
            Codec::Gorilla => S::Gorilla,
            Codec::Chimp => S::Chimp,
            Codec::Chimp128 => S::Chimp128,
            Codec::ElfOnChimp => S::ElfOnChimp,
            Codec::Elf => S::Elf,
            Codec::Sprintz => S::DeltaSprintz,
            Codec::Zstd => S::Zstd,
            Codec::Gzip => S::Gzip,
            Codec::Snappy => S::Snappy,
            Codec::Alp => S::FFIAlp,
        }
    }
}

/// Default configuration of a codec; `k` is the number of decimals for the scaled codecs.
pub fn config(c: Codec, k: u32) -> CompressorConfig {
    let scale = 10u64.pow(k);
    match c {
        Codec::Uncompressed => CompressorConfig::uncompressed().build().into(),
        Codec::Rle => CompressorConfig::rle().build().into(),
        Codec::Gorilla => CompressorConfig::gorilla().build().into(),
        Codec::Chimp => CompressorConfig::chimp().build().into(),
        Codec::Chimp128 => CompressorConfig::chimp128().build().into(),
        Codec::ElfOnChimp => CompressorConfig::elf_on_chimp().build().into(),
        Codec::Elf => CompressorConfig::elf().build().into(),
        Codec::Zstd => CompressorConfig::zstd().build().into(),
        Codec::Gzip => CompressorConfig::gzip().build().into(),
        Codec::Snappy => CompressorConfig::snappy().build().into(),
        Codec::Alp => CompressorConfig::ffi_alp().build().into(),
        Codec::Buff => CompressorConfig::buff().scale(scale).build().into(),
        Codec::Sprintz => CompressorConfig::delta_sprintz().scale(scale).build().into(),
    }
}

/// A configuration with randomised tunables.
pub fn config_rand(r: &mut Rng, c: Codec, k: u32) -> CompressorConfig {
    let scale = 10u64.pow(k);
    let cap = r.pick(&[1u64, 8, 100, 8000, 65536]);
    if r.chance(1, 3) {
        return config(c, k);
    }
    match c {
        Codec::Uncompressed => CompressorConfig::uncompressed().capacity(cap).build().into(),
        Codec::Rle => CompressorConfig::rle().capacity(cap).build().into(),
        Codec::Gorilla => CompressorConfig::gorilla().capacity(cap).build().into(),
        Codec::Chimp => CompressorConfig::chimp().capacity(cap).build().into(),
        Codec::Chimp128 => CompressorConfig::chimp128().capacity(cap).build().into(),
        Codec::ElfOnChimp => CompressorConfig::elf_on_chimp().capacity(cap).build().into(),
        Codec::Elf => CompressorConfig::elf().capacity(cap).build().into(),
        Codec::Zstd => CompressorConfig::zstd().level(r.pick(&[1, 3, 5])).build().into(),
        Codec::Gzip => CompressorConfig::gzip().level(r.pick(&[1, 6, 9])).build().into(),
        Codec::Snappy => CompressorConfig::snappy().build().into(),
        Codec::Alp => CompressorConfig::ffi_alp().build().into(),
        Codec::Buff => {
            let mut c: CompressorConfig = CompressorConfig::buff().build().into();
            c.set_scale(scale);
            c
        }
        Codec::Sprintz => {
            let mut c: CompressorConfig = CompressorConfig::delta_sprintz().build().into();
            c.set_scale(scale);
            c
        }
    }
}

pub fn gen_len(r: &mut Rng, max: usize) -> usize {
    if max >= 500 && r.chance(1, 400) {
        // several containers of a bitmask, more than 16 bits of record numbers
        return 65_000 + r.usize(80_000);
    }
    let n = match r.below(10) {
        0 => r.usize(4),
        1 => r.usize(20),
        2 => 60 + r.usize(10),
        3 => 124 + r.usize(10),
        4 => 250 + r.usize(16),
        5 => r.usize(100),
        6 | 7 => r.usize(600),
        8 => 1020 + r.usize(20),
        _ => r.usize(max.max(1)),
    };
    n.min(max)
}

pub fn gen_chunk(r: &mut Rng, n: usize) -> ChunkOption {
    if r.chance(1, 60) {
        // far beyond any input
        let m = r.pick(&[1 << 33, (1 << 40) + 1, 1 << 60, 1 << 61, (1 << 61) + 1, 1 << 63, usize::MAX - 7, usize::MAX]);
        return if r.chance(1, 2) { ChunkOption::RecordCount(m) } else { ChunkOption::ByteSizeBestEffort(m) };
    }
    if n > 20_000 {
        return match r.below(6) {
            0 | 1 => ChunkOption::Full,
            2 => ChunkOption::ByteSizeBestEffort(n + r.usize(n * 8)),
            3 => ChunkOption::RecordCount(r.pick(&[65_535, 65_536, 65_537])),
            4 => ChunkOption::RecordCount(r.pick(&[8_191, 8_192, 8_193, 32_768])),
            _ => ChunkOption::RecordCount(5_000 + r.usize(n)),
        };
    }
    match r.below(8) {
        0 | 1 => ChunkOption::Full,
        2 => ChunkOption::ByteSizeBestEffort(1 + r.usize(64)),
        3 => ChunkOption::ByteSizeBestEffort(1 + r.usize((n * 8).max(8))),
        4 => ChunkOption::RecordCount(1 + r.usize(9)),
        5 => ChunkOption::RecordCount(1 + r.usize(n.max(1))),
        6 => ChunkOption::RecordCount(r.pick(&[1, 2, 3, 8, 16, 31, 32, 33, 64, 100, 128, 255, 256, 1000])),
        _ => {
            // divides n exactly, so that the last chunk is full
            let d = (1 + r.usize(6)).min(n.max(1));
            ChunkOption::RecordCount((n / d).max(1))
        }
    }
}

/// records per chunk for a chunk option
pub fn chunk_records(o: ChunkOption) -> Option<usize> {
    match o {
        ChunkOption::Full => None,
        ChunkOption::RecordCount(n) => Some(n.min(1 << 40)),
        ChunkOption::ByteSizeBestEffort(n) => Some((((n as f64 / 8.0) * 1.5).ceil() as usize).min(1 << 40)),
    }
}

pub const SPECIALS: [f64; 24] = [
    0.0,
    -0.0,
    1.0,
    -1.0,
    f64::INFINITY,
    f64::NEG_INFINITY,
    f64::MAX,
    f64::MIN,
    f64::MIN_POSITIVE,
    -f64::MIN_POSITIVE,
    5e-324,
    -5e-324,
    f64::EPSILON,
    0.1,
    0.5,
    9007199254740992.0,
    9007199254740993.0,
    1e300,
    1e-300,
    1e15,
    1e16,
    123456.789,
    -0.001,
    2.2250738585072009e-308,
];

/// Family names, for coverage accounting.
pub const FAMILIES: [&str; 19] = [
    "randbits", "uniform", "walk", "const", "runs", "periodic", "ints", "signflip", "subnormal",
    "specials", "pow2", "lowbits", "bigdec", "tinydec", "monotone", "xorsweep", "nan", "twins", "mixed",
];

pub fn decimal(i: i64, k: u32) -> f64 {
    format!("{i}e-{k}").parse().unwrap()
}

fn dec(r: &mut Rng, lim: i64, k: i32) -> f64 {
    let i = r.range(-lim, lim);
    format!("{}e-{}", i, k).parse().unwrap()
}

pub fn fill(r: &mut Rng, fam: usize, n: usize, out: &mut Vec<f64>) {
    match FAMILIES[fam] {
        "randbits" => {
            for _ in 0..n {
                out.push(f64::from_bits(r.u64()));
            }
        }
        "uniform" => {
            for _ in 0..n {
                out.push((r.f01() - 0.5) * 2000.0);
            }
        }
        "walk" => {
            let k = r.range(0, 6) as i32;
            let step = r.pick(&[1i64, 3, 10, 1000]);
            let mut x = r.range(-100000, 100000);
            for _ in 0..n {
                x += r.range(-step, step);
                out.push(format!("{}e-{}", x, k).parse().unwrap());
            }
        }
        "const" => {
            let v = if r.chance(1, 2) { r.pick(&SPECIALS) } else { dec(r, 100000, 3) };
            for _ in 0..n {
                out.push(v);
            }
        }
        "runs" => {
            let pool: Vec<f64> = (0..4).map(|_| if r.chance(1, 4) { r.pick(&SPECIALS) } else { dec(r, 5000, 2) }).collect();
            let m = r.pick(&[3usize, 20, 300, 600]);
            let mut left = n;
            while left > 0 {
                let l = (1 + r.usize(m)).min(left);
                let v = r.pick(&pool);
                for _ in 0..l {
                    out.push(v);
                }
                left -= l;
            }
        }
        "periodic" => {
            let p = r.pick(&[2usize, 5, 64, 127, 128, 129, 200]);
            let bits = r.chance(1, 3);
            let pool: Vec<f64> = (0..p).map(|_| if bits { f64::from_bits(r.u64()) } else { dec(r, 1000000, 3) }).collect();
            for i in 0..n {
                if r.chance(1, 50) {
                    out.push(dec(r, 1000000, 3));
                } else {
                    out.push(pool[i % p]);
                }
            }
        }
        "ints" => {
            let lim = r.pick(&[1i64, 10, 1000, 1 << 40]);
            for _ in 0..n {
                out.push(r.range(-lim, lim) as f64);
            }
        }
        "signflip" => {
            let v = if r.chance(1, 2) { dec(r, 10000, 2) } else { r.pick(&SPECIALS) };
            for _ in 0..n {
                out.push(if r.chance(1, 2) { v } else { -v });
            }
        }
        "subnormal" => {
            for _ in 0..n {
                let b = r.u64() & 0x800fffffffffffff;
                let sh = r.below(52);
                out.push(f64::from_bits((b & (1 << 63)) | ((b & 0xfffffffffffff) >> sh)));
            }
        }
        "specials" => {
            for _ in 0..n {
                out.push(r.pick(&SPECIALS));
            }
        }
        "pow2" => {
            for _ in 0..n {
                let e = r.range(-1074, 1023) as i32;
                let v = 2f64.powi(e);
                out.push(if r.chance(1, 2) { v } else { -v });
            }
        }
        "lowbits" => {
            let mut b = if r.chance(1, 2) { dec(r, 100000, 2).to_bits() } else { r.u64() & !(0x7ffu64 << 52) | (1023 << 52) };
            for _ in 0..n {
                if r.chance(3, 4) {
                    { let w = r.below(20); b ^= r.below(1 << w) << r.below(40); }
                }
                out.push(f64::from_bits(b));
            }
        }
        "bigdec" => {
            for _ in 0..n {
                let i = r.range(-999_999_999, 999_999_999);
                let e = r.range(0, 14);
                out.push(format!("{}e{}", i, e).parse().unwrap());
            }
        }
        "tinydec" => {
            for _ in 0..n {
                let i = r.range(-9999, 9999);
                let e = r.range(3, 25);
                out.push(format!("{}e-{}", i, e).parse().unwrap());
            }
        }
        "monotone" => {
            let mut t = 1_700_000_000i64 + r.range(0, 1000);
            for _ in 0..n {
                t += r.range(0, 60);
                out.push(t as f64);
            }
        }
        "xorsweep" => {
            let mut b = r.u64() & !(0x400u64 << 52);
            for _ in 0..n {
                let hi = r.below(62);
                let lo = r.below(hi + 1);
                b ^= (1u64 << hi) | (1u64 << lo);
                let v = f64::from_bits(b);
                if v.is_nan() {
                    b = r.u64() & !(0x400u64 << 52);
                }
                out.push(f64::from_bits(b));
            }
        }
        "nan" => {
            for _ in 0..n {
                if r.chance(1, 8) {
                    out.push(r.pick(&[f64::NAN, -f64::NAN, f64::from_bits(0x7ff8000000000001), f64::from_bits(0x7ff0000000000001), f64::from_bits(0xffffffffffffffff)]));
                } else if r.chance(1, 40) {
                    // any NaN
                    out.push(f64::from_bits(r.u64() | 0x7ff0 << 48));
                } else {
                    out.push(dec(r, 1000, 1));
                }
            }
        }
        "twins" => {
            // runs of values that differ in a single respect
            let b = match r.below(5) {
                0 => 0,
                1 => 0x7ff8 << 48 | r.below(1 << 20),
                2 => dec(r, 100000, 2).to_bits(),
                3 => 0x7ff0 << 48 | 1 + r.below(1 << 51),
                _ => r.u64(),
            };
            let pool = match r.below(5) {
                0 => vec![b, b ^ 1 << 63],
                1 => vec![b, b ^ 1],
                2 => vec![b, b ^ 1 << r.below(64)],
                3 => vec![b, b.wrapping_add(1), b.wrapping_sub(1)],
                _ => vec![b, b ^ r.u64() << 32, b ^ r.u64() >> 32],
            };
            let mut left = n;
            let mut j = 0;
            while left > 0 {
                let l = r.pick(&[1usize, 1, 2, 40, 127, 128, 129, 254, 255, 256, 257, 300, 511]).min(left);
                for _ in 0..l {
                    out.push(f64::from_bits(pool[j % pool.len()]));
                }
                j += 1 + r.usize(pool.len() - 1);
                left -= l;
            }
        }
        _ => {
            let mut left = n;
            while left > 0 {
                let l = (1 + r.usize(200)).min(left);
                let f = r.usize(FAMILIES.len() - 1);
                fill(r, f, l, out);
                left -= l;
            }
        }
    }
}

pub fn gen_values(r: &mut Rng, n: usize) -> (Vec<f64>, usize) {
    let fam = r.usize(FAMILIES.len());
    let mut v = Vec::with_capacity(n);
    fill(r, fam, n, &mut v);
    v.truncate(n);
    (v, fam)
}

/// For long inputs: pieces of several families and stretches that occurred a little earlier.
pub fn gen_long(r: &mut Rng, n: usize) -> (Vec<f64>, usize) {
    let mut v = Vec::with_capacity(n);
    while v.len() < n {
        let l = (100 + r.usize(4000)).min(n - v.len());
        let at = v.len();
        if at > 0 && r.chance(1, 2) {
            let back = (1 + r.usize(300)).min(at);
            for i in 0..l {
                let x: f64 = v[at + i - back];
                v.push(if r.chance(1, 30) { f64::from_bits(x.to_bits() ^ 1 << r.below(52)) } else { x });
            }
        } else {
            let f = r.usize(FAMILIES.len() - 1);
            fill(r, f, l, &mut v);
            v.truncate(at + l);
        }
    }
    (v, FAMILIES.len() - 1)
}

/// Values for aggregations: no NaN, moderate magnitudes, exactly summable (multiples of 2^-8, |v| < 2^30).
pub fn gen_dyadic(r: &mut Rng, n: usize) -> Vec<f64> {
    let lim = r.pick(&[3i64, 100, 100_000, 1 << 30]);
    let style = r.below(4);
    let mut v = Vec::with_capacity(n);
    let mut x = r.range(-lim, lim);
    for _ in 0..n {
        match style {
            0 => x = r.range(-lim, lim),
            1 => x = (x + r.range(-5, 5)).clamp(-lim, lim),
            2 => {
                if r.chance(1, 10) {
                    x = r.range(-lim, lim)
                }
            }
            _ => x = -x,
        }
        v.push(x as f64 / 256.0);
    }
    v
}

/// Decimal data for the scaled codecs: integers i with value i / 10^k.
pub struct Grid {
    pub ints: Vec<i64>,
    pub vals: Vec<f64>,
    pub k: u32,
    pub style: &'static str,
}

pub fn grid_value(i: i64, k: u32) -> f64 {
    // correctly rounded decimal
    if k == 0 {
        i as f64
    } else if i.unsigned_abs() < (1u64 << 53) {
        i as f64 / 10f64.powi(k as i32)
    } else {
        format!("{}e-{}", i, k).parse().unwrap()
    }
}

/// PRECISION bits BUFF keeps for k decimals (public format constant).
pub const BUFF_BITS: [u32; 13] = [0, 5, 8, 11, 15, 18, 21, 25, 28, 31, 35, 38, 50];

/// limit on |i| so that the data is in the documented domain of the codec
pub fn grid_limit(c: Codec, k: u32) -> i64 {
    let s = 10i64.pow(k);
    match c {
        // |v| * 2^bits stays below 2^52 so that fixed point conversion is exact enough
        Codec::Buff => {
            let b = BUFF_BITS[k as usize];
            let vmax = 2f64.powi(52 - b as i32);
            ((vmax * s as f64).min((1u64 << 51) as f64)) as i64
        }
        _ => 1 << 50,
    }
}

pub fn max_k(c: Codec) -> u32 {
    match c {
        Codec::Buff => 12,
        _ => 18,
    }
}

pub fn gen_grid(r: &mut Rng, c: Codec, n: usize) -> Grid {
    let k = r.below(max_k(c) as u64 + 1) as u32;
    let k = if r.chance(1, 2) { k.min(4) } else { k };
    gen_grid_k(r, c, n, k)
}

pub fn gen_grid_k(r: &mut Rng, c: Codec, n: usize, k: u32) -> Grid {
    let lim = grid_limit(c, k);
    let mut ints = Vec::with_capacity(n);
    let style = r.pick(&["uniform", "narrow", "const", "walk", "runs", "wide", "signflip", "bitwidth", "outliers", "step", "high"]);
    let base = {
        let m = r.pick(&[0i64, 1, 1000, 1_000_000]).min(lim / 4);
        r.range(-m, m)
    };
    match style {
        "uniform" => {
            let w = r.pick(&[10i64, 1000, 100_000, 10_000_000]).min(lim / 2);
            for _ in 0..n {
                ints.push(r.range(-w, w));
            }
        }
        "narrow" => {
            let w = 1 + r.range(0, 20);
            for _ in 0..n {
                ints.push(base + r.range(0, w));
            }
        }
        "const" => {
            for _ in 0..n {
                ints.push(base);
            }
        }
        "walk" => {
            let st = r.pick(&[1i64, 10, 1000]);
            let mut x = base;
            for _ in 0..n {
                x = (x + r.range(-st, st)).clamp(-lim / 2, lim / 2);
                ints.push(x);
            }
        }
        "runs" => {
            let mut x = base;
            for _ in 0..n {
                if r.chance(1, 15) {
                    x = base + r.range(-500, 500);
                }
                ints.push(x);
            }
        }
        "wide" => {
            for _ in 0..n {
                ints.push(r.range(-(lim / 2), lim / 2));
            }
        }
        "high" => {
            // one sign, close to the largest magnitude
            let s = if r.chance(1, 2) { 1 } else { -1 };
            for _ in 0..n {
                ints.push(s * r.range(lim / 2, lim / 10 * 9));
            }
        }
        "signflip" => {
            for _ in 0..n {
                ints.push(if r.chance(1, 2) { base } else { -base });
            }
        }
        "bitwidth" => {
            // a span of exactly 2^b values around the base
            let b = r.range(0, 34);
            let span = (1i64 << b).min(lim / 4);
            for _ in 0..n {
                ints.push(base + match r.below(4) { 0 => 0, 1 => span, 2 => span - 1, _ => r.range(0, span) });
            }
        }
        "outliers" => {
            for _ in 0..n {
                ints.push(if r.chance(1, 30) { r.range(-(lim / 4), lim / 4) } else { base + r.range(0, 5) });
            }
        }
        _ => {
            let st = r.range(-3, 3);
            let mut x = base;
            for _ in 0..n {
                ints.push(x);
                x = (x + st).clamp(-lim / 2, lim / 2);
            }
        }
    }
    let vals = ints.iter().map(|&i| grid_value(i, k)).collect();
    Grid { ints, vals, k, style }
}

/// Whole numbers of one sign so large that a few of them leave the range of 64 bits when added up.
pub fn gen_huge(r: &mut Rng, n: usize) -> Grid {
    let s = if r.chance(1, 2) { 1 } else { -1 };
    let b = r.range(57, 61);
    let style = r.below(3);
    let mut x = 0;
    let ints: Vec<i64> = (0..n)
        .map(|i| {
            // exactly representable: at most 53 significant bits
            if i == 0 || style == 0 || style == 1 && r.chance(1, 10) {
                x = (1 << b) + (r.below(1 << 50) << (b - 50)) as i64;
            }
            s * x
        })
        .collect();
    let vals = ints.iter().map(|&i| i as f64).collect();
    Grid { ints, vals, k: 0, style: "huge" }
}

/// Record selections.
pub fn gen_mask(r: &mut Rng, n: usize, bounds: &[usize]) -> (Option<RoaringBitmap>, &'static str) {
    let mut bm = RoaringBitmap::new();
    match r.below(11) {
        0 | 1 => return (None, "none"),
        2 => return (Some(bm), "empty"),
        3 => {
            bm.insert_range(0..n as u32);
            return (Some(bm), "full");
        }
        4 => {
            // includes indices past the end
            for _ in 0..(1 + r.usize(20)) {
                bm.insert(r.usize(n + 50) as u32);
            }
            bm.insert(n as u32);
            bm.insert(u32::MAX);
            return (Some(bm), "beyond");
        }
        5 => {
            if n > 0 {
                bm.insert(r.usize(n) as u32);
            }
            return (Some(bm), "single");
        }
        6 => {
            // exactly one chunk
            if bounds.len() >= 2 {
                let i = r.usize(bounds.len() - 1);
                bm.insert_range(bounds[i] as u32..bounds[i + 1] as u32);
            }
            return (Some(bm), "onechunk");
        }
        7 => {
            // around chunk boundaries
            for &b in bounds {
                for d in -2i64..=2 {
                    let x = b as i64 + d;
                    if x >= 0 && x < n as i64 && r.chance(1, 2) {
                        bm.insert(x as u32);
                    }
                }
            }
            return (Some(bm), "boundary");
        }
        8 => {
            if n > 0 {
                let a = r.usize(n);
                let b = a + r.usize(n - a) + 1;
                bm.insert_range(a as u32..b as u32);
            }
            return (Some(bm), "interval");
        }
        _ => {
            let d = r.pick(&[1u64, 5, 50, 95, 99]);
            for i in 0..n {
                if r.chance(d, 100) {
                    bm.insert(i as u32);
                }
            }
            return (Some(bm), "random");
        }
    }
}

fn pred_point(r: &mut Rng, vals: &[f64]) -> f64 {
    match r.below(10) {
        0..=5 if !vals.is_empty() => r.pick(vals),
        6 if !vals.is_empty() => {
            let v = r.pick(vals);
            let b = v.to_bits();
            f64::from_bits(if r.chance(1, 2) { b.wrapping_add(1) } else { b.wrapping_sub(1) })
        }
        7 => r.pick(&SPECIALS),
        8 => r.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, 0.0, -0.0, f64::NAN]),
        _ => (r.f01() - 0.5) * 4000.0,
    }
}

fn endpoint(r: &mut Rng, v: f64) -> RangeValue {
    if r.chance(1, 2) {
        RangeValue::Inclusive(v)
    } else {
        RangeValue::Exclusive(v)
    }
}

fn build_pred(r: &mut Rng, mut point: impl FnMut(&mut Rng) -> f64) -> Predicate {
    match r.below(8) {
        0 | 1 => Predicate::Eq(point(r)),
        2 => Predicate::Ne(point(r)),
        3 => {
            let a = point(r);
            let a = endpoint(r, a);
            Predicate::Range(Range::new(a, RangeValue::None))
        }
        4 => {
            let a = point(r);
            let a = endpoint(r, a);
            Predicate::Range(Range::new(RangeValue::None, a))
        }
        5 if r.chance(1, 6) => Predicate::Range(Range::new(RangeValue::None, RangeValue::None)),
        _ => {
            let (mut a, mut b) = (point(r), point(r));
            if a > b && r.chance(9, 10) {
                std::mem::swap(&mut a, &mut b);
            }
            let a = endpoint(r, a);
            let b = endpoint(r, b);
            Predicate::Range(Range::new(a, b))
        }
    }
}

pub fn gen_pred(r: &mut Rng, vals: &[f64]) -> Predicate {
    build_pred(r, |r| pred_point(r, vals))
}

/// Predicates for scaled codecs. Points are on the decimal grid (inside, outside and far outside the data range),
/// or infinities. Off-grid points come out of `off_grid_ok`.
pub fn gen_pred_grid(r: &mut Rng, g: &Grid, c: Codec) -> Predicate {
    let lim = grid_limit(c, g.k);
    build_pred(r, |r| {
        let i = match r.below(12) {
            0..=4 if !g.ints.is_empty() => r.pick(&g.ints),
            5 | 6 if !g.ints.is_empty() => r.pick(&g.ints) + r.range(-2, 2),
            7 if !g.ints.is_empty() => {
                // min / max neighbourhood
                let m = if r.chance(1, 2) { *g.ints.iter().min().unwrap() } else { *g.ints.iter().max().unwrap() };
                m + r.range(-1, 1)
            }
            8 if !g.ints.is_empty() => {
                // a power of two away from the smallest value: other bit widths
                *g.ints.iter().min().unwrap() + (1i64 << r.below(34))
            }
            9 => r.range(-(lim / 2), lim / 2),
            10 => return r.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, 1e300, -1e300, 1e25, -1e25, 0.0, -0.0]),
            _ => r.range(-1000, 1000),
        };
        grid_value(i.clamp(-lim, lim), g.k)
    })
}

pub fn show_chunk(o: ChunkOption) -> String {
    format!("{:?}", o)
}

pub fn show_vals(v: &[f64]) -> String {
    let head: Vec<String> = v.iter().take(4).map(|x| format!("{:e}", x)).collect();
    format!("n={} [{}{}]", v.len(), head.join(","), if v.len() > 4 { ",.." } else { "" })
}
