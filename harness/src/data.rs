//! Generators (schemes, values, chunkings, masks, predicates) and thin drivers over the public
//! encoder/decoder API.

use crate::source::Source;
use ebi::{
    api::{
        decoder::{ChunkId, Decoder, DecoderInput, DecoderOutput},
        encoder::{Encoder, EncoderInput, EncoderOutput},
    },
    compressor::CompressorConfig,
    decoder::query::{Predicate, Range, RangeValue},
    encoder::ChunkOption,
};
use roaring::RoaringBitmap;
use std::io::Cursor;

pub type Dec = Decoder<Cursor<Vec<u8>>>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Scheme {
    Uncompressed,
    Rle,
    Gorilla,
    Chimp,
    Chimp128,
    ElfOnChimp,
    Elf,
    Zstd,
    Gzip,
    Snappy,
    FfiAlp,
    Sprintz,
    Buff,
}
use Scheme::*;

pub const LOSSLESS: [Scheme; 11] = [
    Uncompressed, Rle, Gorilla, Chimp, Chimp128, ElfOnChimp, Elf, Zstd, Gzip, Snappy, FfiAlp,
];
pub const SCALED: [Scheme; 2] = [Sprintz, Buff];

/// Schemes that store raw IEEE bits, so that a NaN is a value like any other.
pub fn nan_capable(s: Scheme) -> bool {
    matches!(s, Uncompressed | Rle | Zstd | Gzip | Snappy | FfiAlp)
}

/// Fractional bits stored by the bounded-precision fixed-point scheme for p decimal places.
pub const BUFF_BITS: [i32; 13] = [0, 5, 8, 11, 15, 18, 21, 25, 28, 31, 35, 38, 50];

#[derive(Clone, Debug)]
pub struct Setup {
    pub scheme: Scheme,
    pub config: CompressorConfig,
    /// Some((scale, decimal places)) for the two bounded-precision schemes.
    pub scale: Option<(u64, u32)>,
    pub cfg_text: String,
}

pub fn gen_scheme(s: &mut Source, schemes: &[Scheme]) -> Setup {
    let scheme = *s.pick(schemes);
    gen_config(s, scheme)
}

/// Weighted so that the schemes with their own query kernels get more cases.
pub fn gen_query_scheme(s: &mut Source) -> Setup {
    let i = s.weighted(&[30, 20, 50]);
    let scheme = match i {
        0 => *s.pick(&LOSSLESS),
        1 => Sprintz,
        _ => Buff,
    };
    gen_config(s, scheme)
}

pub fn gen_config(s: &mut Source, scheme: Scheme) -> Setup {
    let cap = *s.pick(&[8000u64, 1, 8, 64, 1024 * 64]);
    let mut scale = None;
    let mut cfg_text = String::new();
    let config: CompressorConfig = match scheme {
        Uncompressed => {
            cfg_text = format!("capacity={cap}");
            CompressorConfig::uncompressed().capacity(cap).build().into()
        }
        Rle => {
            cfg_text = format!("capacity={cap}");
            CompressorConfig::rle().capacity(cap).build().into()
        }
        Gorilla => CompressorConfig::gorilla().build().into(),
        Chimp => CompressorConfig::chimp().build().into(),
        Chimp128 => {
            cfg_text = format!("capacity={cap}");
            CompressorConfig::chimp128().capacity(cap).build().into()
        }
        ElfOnChimp => CompressorConfig::elf_on_chimp().build().into(),
        Elf => CompressorConfig::elf().build().into(),
        Zstd => {
            let l = *s.pick(&[3i32, 1, 5, -3, 7]);
            cfg_text = format!("level={l}");
            CompressorConfig::zstd().level(l).build().into()
        }
        Gzip => {
            let l = s.range(1, 9) as u32;
            cfg_text = format!("level={l}");
            CompressorConfig::gzip().level(l).build().into()
        }
        Snappy => CompressorConfig::snappy().build().into(),
        FfiAlp => CompressorConfig::ffi_alp().build().into(),
        Sprintz => {
            let p = s.below(10) as u32;
            let sc = 10u64.pow(p);
            scale = Some((sc, p));
            cfg_text = format!("scale={sc}");
            CompressorConfig::delta_sprintz().scale(sc).build().into()
        }
        Buff => {
            let p = s.below(13) as u32;
            let sc = 10u64.pow(p);
            scale = Some((sc, p));
            cfg_text = format!("scale={sc}");
            CompressorConfig::buff().scale(sc).build().into()
        }
    };
    Setup { scheme, config, scale, cfg_text }
}

// ------------------------------------------------------------------ sizes and chunkings

pub fn gen_len(s: &mut Source, max: usize) -> usize {
    if max > 10_000 && s.chance(1, 500) {
        // beyond one 64 Ki container of a selection mask, and beyond every internal buffer
        return if s.flip() { s.urange(2_600, max) } else { s.urange(65_530, max * 2) };
    }
    let n = match s.weighted(&[40, 25, 15, 12, 8]) {
        0 => s.urange(1, 40),
        1 => s.urange(1, 200),
        2 => *s.pick(&[1usize, 2, 7, 8, 9, 15, 16, 17, 63, 64, 65, 127, 128, 129, 130, 255, 256, 257]),
        3 => s.urange(100, 700),
        _ => s.urange(500, 2600),
    };
    n.min(max)
}

/// Lengths up to `max`, and one in `den` far beyond, past every internal buffer and 64 Ki border.
pub fn gen_len_or_long(s: &mut Source, max: usize, den: u64) -> usize {
    if s.chance(1, den) {
        return if s.flip() { s.urange(max, 70_000) } else { s.urange(65_530, 140_000) };
    }
    gen_len(s, max)
}

pub fn gen_chunk_option(s: &mut Source, n: usize) -> ChunkOption {
    match s.weighted(&[3, 4, 3]) {
        0 => ChunkOption::Full,
        1 => {
            // Bias towards few-record chunks, chunk sizes that divide n, and n itself.
            let k = match s.below(4) {
                0 => s.urange(1, n.max(1) + 1),
                1 => s.urange(1, 20),
                2 => (n / s.urange(1, 8)).max(1),
                _ => n.max(1),
            };
            // at most ~400 chunks per file, to bound the cost of a case
            ChunkOption::RecordCount(k.max(n / 400).max(1))
        }
        _ => {
            let b = match s.below(2) {
                0 => s.urange(1, n.max(1) * 9 + 16),
                _ => s.urange(1, 600),
            };
            ChunkOption::ByteSizeBestEffort(b.max(n * 8 / 600).max(1))
        }
    }
}

// ------------------------------------------------------------------ values

fn special(s: &mut Source) -> f64 {
    *s.pick(&[
        0.0,
        -0.0,
        1.0,
        -1.0,
        f64::INFINITY,
        f64::NEG_INFINITY,
        f64::MIN_POSITIVE,
        -f64::MIN_POSITIVE,
        5e-324,
        -5e-324,
        f64::MAX,
        f64::MIN,
        f64::EPSILON,
        1e308,
        -1e-308,
        0.1,
        0.3,
        9007199254740993.0,
        1e15,
        123456789.0125,
        2.2250738585072011e-308,
        4503599627370496.5,
    ])
}

fn not_nan(b: u64) -> f64 {
    let v = f64::from_bits(b);
    if v.is_nan() {
        f64::from_bits(b & !(1 << 62))
    } else {
        v
    }
}

fn decimal(s: &mut Source, p: u32, mag: u64) -> f64 {
    let q = s.below(2 * mag + 1) as i64 - mag as i64;
    let t = format!("{q}e-{p}");
    t.parse().unwrap()
}

/// XOR with a word that has a chosen number of leading and trailing zero bits.
fn xor_shape(s: &mut Source, prev: u64) -> u64 {
    let lead = s.below(65) as u32;
    if lead == 64 {
        return prev;
    }
    let trail = s.below(64 - lead as u64) as u32;
    let width = 64 - lead - trail;
    let mut mid = s.bits();
    if width < 64 {
        mid &= (1u64 << width) - 1;
    }
    mid |= 1;
    mid |= 1u64 << (width - 1);
    prev ^ (mid << trail)
}

/// Any non-NaN double stream; the label names the shape.
pub fn gen_values(s: &mut Source, n: usize) -> (Vec<f64>, &'static str) {
    if s.chance(1, 8) {
        // stretches of different shapes, so that neighbouring chunks differ
        let mut v = Vec::with_capacity(n);
        for len in stretches(s, n) {
            v.extend(gen_values_one(s, len).0);
        }
        return (v, "stretches");
    }
    gen_values_one(s, n)
}

/// Cut n into up to seven stretches, of equal or of any lengths.
fn stretches(s: &mut Source, n: usize) -> Vec<usize> {
    let k = s.urange(2, 7);
    let equal = s.flip();
    let mut left = n;
    let mut v = vec![];
    for _ in 1..k {
        let l = if equal { n.div_ceil(k) } else { s.urange(0, left) };
        let l = l.min(left);
        v.push(l);
        left -= l;
    }
    v.push(left);
    v
}

fn gen_values_one(s: &mut Source, n: usize) -> (Vec<f64>, &'static str) {
    let kind = s.below(14);
    let mut v: Vec<f64> = Vec::with_capacity(n);
    let label = match kind {
        0 => {
            for _ in 0..n {
                v.push(s.irange(-50, 50) as f64);
            }
            "small-ints"
        }
        1 => {
            let p = s.below(8) as u32;
            let m = 10u64.pow(s.range(1, 9) as u32);
            for _ in 0..n {
                v.push(decimal(s, p, m));
            }
            "decimals"
        }
        2 => {
            // random walk at a fixed number of decimal places
            let p = s.below(6) as u32;
            let step = *s.pick(&[1i64, 10, 1000, 100000]);
            let mut q = s.irange(-100000, 100000);
            for _ in 0..n {
                q += s.irange(-step, step);
                v.push(format!("{q}e-{p}").parse().unwrap());
            }
            "walk"
        }
        3 => {
            for _ in 0..n {
                v.push(not_nan(s.bits()));
            }
            "raw-bits"
        }
        4 => {
            // runs
            while v.len() < n {
                let x = match s.below(4) {
                    0 => special(s),
                    1 => decimal(s, 2, 1000),
                    2 => not_nan(s.bits()),
                    _ => s.below(3) as f64,
                };
                let r = match s.below(3) {
                    0 => s.urange(1, 4),
                    1 => s.urange(1, 40),
                    _ => s.urange(1, 400),
                };
                for _ in 0..r.min(n - v.len()) {
                    v.push(x);
                }
            }
            "runs"
        }
        5 => {
            let k = s.urange(1, 6);
            let pal: Vec<f64> = (0..k)
                .map(|_| match s.below(3) {
                    0 => special(s),
                    1 => not_nan(s.bits()),
                    _ => decimal(s, 3, 100000),
                })
                .collect();
            for _ in 0..n {
                v.push(*s.pick(&pal));
            }
            "palette"
        }
        6 => {
            for _ in 0..n {
                v.push(special(s));
            }
            "specials"
        }
        7 => {
            let mut b = not_nan(s.bits()).to_bits();
            for _ in 0..n {
                let mut x = xor_shape(s, b);
                if f64::from_bits(x).is_nan() {
                    x &= !(1 << 62);
                }
                b = x;
                v.push(f64::from_bits(b));
            }
            "xor-shapes"
        }
        8 => {
            // a value close to one seen up to 300 places back
            for i in 0..n {
                if i == 0 || s.chance(1, 6) {
                    v.push(not_nan(s.bits()));
                } else {
                    let back = s.urange(1, 300).min(i);
                    let b = v[i - back].to_bits();
                    let x = match s.below(3) {
                        0 => b,
                        1 => b ^ (s.below(1 << 14) << s.below(50)),
                        _ => xor_shape(s, b),
                    };
                    v.push(not_nan(x));
                }
            }
            "history"
        }
        9 => {
            let a = decimal(s, 3, 10000);
            let d = decimal(s, 3, 1000);
            for i in 0..n {
                v.push(a + d * i as f64);
            }
            "linear"
        }
        10 => {
            let x = match s.below(3) {
                0 => special(s),
                1 => not_nan(s.bits()),
                _ => decimal(s, 2, 1000),
            };
            v.resize(n, x);
            "constant"
        }
        12 => {
            // the neighbourhood of powers of ten, all magnitudes
            let wide = s.flip();
            for _ in 0..n {
                let e = if wide { s.irange(-323, 308) } else { s.irange(-25, 25) };
                let m = s.below(17) as u32;
                let j = s.irange(-12, 12);
                let neg = if s.flip() { "-" } else { "" };
                let q = 10i64.pow(m) + j;
                v.push(format!("{neg}{}e{}", q.abs(), e - m as i64).parse().unwrap());
            }
            "near-powers-of-ten"
        }
        11 => {
            // many significant digits, all magnitudes
            for _ in 0..n {
                let q = s.below(1 << 53) as i64;
                let e = s.irange(-30, 20);
                let neg = if s.flip() { "-" } else { "" };
                v.push(format!("{neg}{q}e{e}").parse().unwrap());
            }
            "long-digits"
        }
        _ => {
            // mixture
            for i in 0..n {
                let x = match s.below(6) {
                    0 => special(s),
                    1 => not_nan(s.bits()),
                    2 => decimal(s, 1, 1000),
                    3 => decimal(s, 9, 1 << 40),
                    4 if i > 0 => v[i - 1],
                    _ => s.irange(-1000, 1000) as f64,
                };
                v.push(x);
            }
            "mixture"
        }
    };
    (v, label)
}

/// Finite values of moderate magnitude, so that sums and products are well conditioned to check.
pub fn gen_values_moderate(s: &mut Source, n: usize) -> (Vec<f64>, &'static str) {
    let kind = s.below(6);
    let mut v = Vec::with_capacity(n);
    let label = match kind {
        0 => {
            for _ in 0..n {
                v.push(s.irange(-50, 50) as f64);
            }
            "small-ints"
        }
        1 => {
            let p = s.below(5) as u32;
            for _ in 0..n {
                v.push(decimal(s, p, 1_000_000));
            }
            "decimals"
        }
        2 => {
            while v.len() < n {
                let x = decimal(s, 2, 1000);
                let r = s.urange(1, 60);
                for _ in 0..r.min(n - v.len()) {
                    v.push(x);
                }
            }
            "runs"
        }
        3 => {
            let mut q = s.irange(-100000, 100000);
            for _ in 0..n {
                q += s.irange(-300, 300);
                v.push(q as f64 / 100.0);
            }
            "walk"
        }
        4 => {
            let x = decimal(s, 3, 100000);
            v.resize(n, x);
            "constant"
        }
        _ => {
            for _ in 0..n {
                let m = s.below(1 << 52);
                let e = 1023 + s.below(40) - 20;
                let sg = s.below(2);
                v.push(f64::from_bits(sg << 63 | e << 52 | m));
            }
            "random-mantissa"
        }
    };
    (v, label)
}

/// Integers q (the stored grid numbers) for a bounded-precision scheme; |q| <= limit.
pub fn gen_grid(s: &mut Source, n: usize, limit: i64) -> (Vec<i64>, &'static str) {
    if s.chance(1, 8) {
        let mut v = Vec::with_capacity(n);
        for len in stretches(s, n) {
            v.extend(gen_grid_one(s, len, limit).0);
        }
        return (v, "stretches");
    }
    gen_grid_one(s, n, limit)
}

fn gen_grid_one(s: &mut Source, n: usize, limit: i64) -> (Vec<i64>, &'static str) {
    let mut v = Vec::with_capacity(n);
    let cl = |x: i64| x.clamp(-limit, limit);
    let kind = s.below(8);
    let label = match kind {
        0 => {
            for _ in 0..n {
                v.push(cl(s.irange(-30, 30)));
            }
            "small"
        }
        1 => {
            for _ in 0..n {
                v.push(cl(s.irange(-10000, 10_000_000)));
            }
            "wide"
        }
        2 => {
            // every delta width: base + something below 2^w
            let w = s.range(1, 51);
            let base = cl(s.irange(-(1 << 49), 1 << 49));
            for _ in 0..n {
                v.push(cl(base.saturating_add(s.below(1 << w) as i64)));
            }
            "width"
        }
        3 => {
            let mut q = s.irange(-100000, 100000);
            let step = *s.pick(&[1i64, 3, 100, 5000, 1 << 30]);
            for _ in 0..n {
                q = cl(q + s.irange(-step, step));
                v.push(q);
            }
            "walk"
        }
        4 => {
            let q = cl(match s.below(3) {
                0 => 0,
                1 => s.irange(-1000, 1000),
                _ => s.irange(-limit, limit),
            });
            v.resize(n, q);
            "constant"
        }
        5 => {
            while v.len() < n {
                let q = cl(s.irange(-100, 20000));
                let r = s.urange(1, 50);
                for _ in 0..r.min(n - v.len()) {
                    v.push(q);
                }
            }
            "runs"
        }
        6 => {
            let k = s.urange(1, 5);
            let pal: Vec<i64> = (0..k)
                .map(|_| {
                    cl(match s.below(3) {
                        0 => s.irange(-5, 5),
                        1 => s.irange(-100_000, 100_000),
                        _ => s.irange(-limit, limit),
                    })
                })
                .collect();
            for _ in 0..n {
                v.push(*s.pick(&pal));
            }
            "palette"
        }
        _ => {
            for _ in 0..n {
                v.push(s.irange(-limit, limit));
            }
            "full-range"
        }
    };
    (v, label)
}

pub fn grid_value(q: i64, scale: u64) -> f64 {
    q as f64 / scale as f64
}

pub fn round_at(v: f64, scale: u64) -> f64 {
    (v * scale as f64).round() / scale as f64
}

/// A file's content: original values, plus their grid numbers when the scheme is a bounded-precision one.
#[derive(Clone)]
pub struct Content {
    pub setup: Setup,
    pub values: Vec<f64>,
    pub grid: Option<Vec<i64>>,
    pub chunk: ChunkOption,
    pub shape: &'static str,
}

impl Content {
    pub fn describe(&self) -> String {
        let vs: Vec<String> = self.values.iter().take(24).map(|v| fmt(*v)).collect();
        format!(
            "scheme={:?} {} chunking={:?} n={} shape={} values=[{}{}]",
            self.setup.scheme,
            self.setup.cfg_text,
            self.chunk,
            self.values.len(),
            self.shape,
            vs.join(", "),
            if self.values.len() > 24 { ", ..." } else { "" }
        )
    }
}

pub fn fmt(v: f64) -> String {
    format!("{v:?}")
}

/// Largest |q| used with a bounded-precision scheme: both the decimal grid and the binary
/// fixed-point representation stay exactly representable.
pub const GRID_LIMIT: i64 = 1 << 50;

pub fn gen_content(s: &mut Source, setup: Setup, n: usize, moderate: bool) -> Content {
    let (values, grid, shape) = match setup.scale {
        Some((sc, _)) => {
            let lim = if moderate { 1 << 38 } else { GRID_LIMIT };
            let (g, l) = gen_grid(s, n, lim);
            (g.iter().map(|q| grid_value(*q, sc)).collect(), Some(g), l)
        }
        None => {
            let (v, l) = if moderate { gen_values_moderate(s, n) } else { gen_values(s, n) };
            (v, None, l)
        }
    };
    let chunk = gen_chunk_option(s, n);
    Content { setup, values, grid, chunk, shape }
}

// ------------------------------------------------------------------ drivers

pub fn encode(values: &[f64], config: CompressorConfig, chunk: ChunkOption) -> Result<Vec<u8>, String> {
    let mut e = Encoder::new(
        EncoderInput::from_f64_slice(values),
        EncoderOutput::from_vec(Vec::new()),
        chunk,
        config,
    );
    e.encode().map_err(|e| format!("encode failed: {e}"))?;
    Ok(e.into_output().into_vec())
}

pub fn open(bytes: &[u8]) -> Result<Dec, String> {
    Decoder::new(DecoderInput::from_reader(Cursor::new(bytes.to_vec())))
        .map_err(|e| format!("cannot open the encoded file: {e}"))
}

pub fn to_f64s(b: &[u8]) -> Vec<f64> {
    b.chunks_exact(8).map(|c| f64::from_ne_bytes(c.try_into().unwrap())).collect()
}

pub fn materialize(d: &mut Dec, mask: Option<&RoaringBitmap>, chunk: Option<usize>) -> Result<Vec<f64>, String> {
    let mut out = DecoderOutput::from_vec(Vec::new());
    d.materialize(&mut out, mask, chunk.map(ChunkId::new))
        .map_err(|e| format!("materialize failed: {e}"))?;
    let b = out.into_writer().into_inner();
    if b.len() % 8 != 0 {
        return Err(format!("materialize wrote {} bytes, not a multiple of 8", b.len()));
    }
    Ok(to_f64s(&b))
}

pub fn filter_materialize(
    d: &mut Dec,
    p: Predicate,
    mask: Option<&RoaringBitmap>,
    chunk: Option<usize>,
) -> Result<Vec<f64>, String> {
    let mut out = DecoderOutput::from_vec(Vec::new());
    d.filter_materialize(&mut out, p, mask, chunk.map(ChunkId::new))
        .map_err(|e| format!("filter_materialize failed: {e}"))?;
    let b = out.into_writer().into_inner();
    if b.len() % 8 != 0 {
        return Err(format!("filter_materialize wrote {} bytes, not a multiple of 8", b.len()));
    }
    Ok(to_f64s(&b))
}

/// First records of every chunk, plus the total, from the decoder's own metadata.
pub fn chunk_starts(d: &Dec, n: usize) -> Result<Vec<usize>, String> {
    let mut v: Vec<usize> = d.chunk_footers().iter().map(|c| c.logical_offset() as usize).collect();
    v.push(n);
    for w in v.windows(2) {
        if w[0] >= w[1] {
            return Err(format!("chunk starts are not increasing: {:?}", &v[..v.len().min(20)]));
        }
    }
    if v[0] != 0 {
        return Err(format!("first chunk starts at record {}", v[0]));
    }
    Ok(v)
}

pub fn same_bits(a: &[f64], b: &[f64]) -> Result<(), String> {
    if a.len() != b.len() {
        return Err(format!("{} values instead of {}", a.len(), b.len()));
    }
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        if x.to_bits() != y.to_bits() {
            return Err(format!(
                "value {i} is {x:?} ({:#018x}) instead of {y:?} ({:#018x})",
                x.to_bits(),
                y.to_bits()
            ));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ masks and predicates

pub fn gen_mask(s: &mut Source, n: usize, starts: &[usize]) -> Option<RoaringBitmap> {
    let mut m = RoaringBitmap::new();
    match s.below(9) {
        0 | 1 => return None,
        2 => {
            // sparse
            let k = s.below(6);
            for _ in 0..k {
                m.insert(s.below(n.max(1) as u64) as u32);
            }
        }
        3 => {
            let p = s.range(1, 9);
            for i in 0..n {
                if s.below(10) < p {
                    m.insert(i as u32);
                }
            }
        }
        4 => {
            // whole chunks only
            for w in starts.windows(2) {
                if s.flip() {
                    m.insert_range(w[0] as u32..w[1] as u32);
                }
            }
        }
        5 => {
            // one contiguous range
            let a = s.urange(0, n);
            let b = s.urange(0, n);
            m.insert_range(a.min(b) as u32..a.max(b) as u32);
        }
        6 => {
            // chunk edges
            for w in starts.windows(2) {
                if s.flip() {
                    m.insert(w[0] as u32);
                }
                if s.flip() {
                    m.insert(w[1] as u32 - 1);
                }
            }
        }
        7 => {
            m.insert_range(0..n as u32);
            if n > 0 && s.flip() {
                m.remove(s.below(n as u64) as u32);
            }
            // bits beyond the last record are legal and select nothing
            if s.flip() {
                m.insert_range(n as u32..n as u32 + 70);
            }
        }
        _ => {
            // every k-th
            let k = s.urange(1, 9);
            let mut i = s.urange(0, k - 1);
            while i < n {
                m.insert(i as u32);
                i += k;
            }
        }
    }
    Some(m)
}

pub fn gen_chunk_id(s: &mut Source, n_chunks: usize) -> Option<usize> {
    if s.chance(1, 3) && n_chunks > 0 {
        Some(s.below(n_chunks as u64) as usize)
    } else {
        None
    }
}

pub fn selected(i: usize, mask: Option<&RoaringBitmap>, chunk: Option<usize>, starts: &[usize]) -> bool {
    if let Some(c) = chunk {
        if !(starts[c] <= i && i < starts[c + 1]) {
            return false;
        }
    }
    mask.is_none_or(|m| m.contains(i as u32))
}

/// A predicate constant related to the data: an existing value, a neighbour, or something far away.
pub fn gen_const(s: &mut Source, c: &Content) -> f64 {
    match (&c.grid, c.setup.scale) {
        (Some(g), Some((sc, _))) => {
            let far = GRID_LIMIT;
            let q = if g.is_empty() {
                s.irange(-100, 100)
            } else {
                let base = *s.pick(g);
                let (lo, hi) = (*g.iter().min().unwrap(), *g.iter().max().unwrap());
                match s.below(9) {
                    0 | 1 | 2 => base,
                    3 => base + 1,
                    4 => base - 1,
                    5 => s.irange(lo, hi),
                    6 => *s.pick(&[lo, hi, lo - 1, hi + 1]),
                    7 => base + (1i64 << s.below(50)) * if s.flip() { 1 } else { -1 },
                    _ => s.irange(-far, far),
                }
            };
            grid_value(q.clamp(-far, far), sc)
        }
        _ => {
            let v = &c.values;
            if v.is_empty() {
                return s.irange(-100, 100) as f64;
            }
            let base = *s.pick(v);
            match s.below(8) {
                0 | 1 | 2 => base,
                3 => not_nan(base.to_bits().wrapping_add(1)),
                4 => not_nan(base.to_bits().wrapping_sub(1)),
                5 => special(s),
                6 => base + 1.0,
                _ => {
                    let o = *s.pick(v);
                    let m = base / 2.0 + o / 2.0;
                    if m.is_nan() {
                        0.0
                    } else {
                        m
                    }
                }
            }
        }
    }
}

/// Like `gen_const`, but for the bounded-precision schemes also a constant between two multiples
/// of the unit, or one far outside every range a file can hold.
pub fn gen_const_fine(s: &mut Source, c: &Content) -> f64 {
    match (&c.grid, c.setup.scale) {
        (Some(g), Some((sc, _))) if s.chance(1, 4) => {
            if s.chance(1, 4) {
                return special(s);
            }
            let q = if g.is_empty() { s.irange(-100, 100) } else { *s.pick(g) };
            let q = q + s.irange(-2, 2);
            let f = *s.pick(&[0.5, 0.25, 0.46, 0.54, 0.01, 0.99]);
            (q as f64 + f) / sc as f64
        }
        _ => gen_const(s, c),
    }
}

pub fn gen_predicate(s: &mut Source, c: &Content) -> Predicate {
    let constant = if c.setup.scheme == Sprintz { gen_const_fine } else { gen_const };
    gen_predicate_with(s, c, constant)
}

pub fn gen_predicate_fine(s: &mut Source, c: &Content) -> Predicate {
    gen_predicate_with(s, c, gen_const_fine)
}

fn gen_predicate_with(s: &mut Source, c: &Content, constant: fn(&mut Source, &Content) -> f64) -> Predicate {
    match s.below(6) {
        0 => Predicate::Eq(constant(s, c)),
        1 => Predicate::Ne(constant(s, c)),
        _ => {
            let side = |s: &mut Source| match s.below(5) {
                0 => RangeValue::None,
                1 | 2 => RangeValue::Inclusive(constant(s, c)),
                _ => RangeValue::Exclusive(constant(s, c)),
            };
            let (mut a, mut b) = (side(s), side(s));
            let val = |r: &RangeValue| match r {
                RangeValue::Inclusive(x) | RangeValue::Exclusive(x) => Some(*x),
                RangeValue::None => None,
            };
            if let (Some(x), Some(y)) = (val(&a), val(&b)) {
                // mostly well-formed, sometimes empty (start above end)
                if x > y && !s.chance(1, 10) {
                    std::mem::swap(&mut a, &mut b);
                }
            }
            Predicate::Range(Range::new(a, b))
        }
    }
}

/// The oracle: IEEE comparison of the value with the constants.
pub fn pred_holds(p: &Predicate, v: f64) -> bool {
    match p {
        Predicate::Eq(c) => v == *c,
        Predicate::Ne(c) => v != *c,
        Predicate::Range(r) => {
            let lo = match r.start() {
                RangeValue::Inclusive(x) => v >= x,
                RangeValue::Exclusive(x) => v > x,
                RangeValue::None => true,
            };
            let hi = match r.end() {
                RangeValue::Inclusive(x) => v <= x,
                RangeValue::Exclusive(x) => v < x,
                RangeValue::None => true,
            };
            lo && hi
        }
    }
}

/// The oracle for constants that need not be multiples of the file's unit: None where the fixed-point
/// scheme, which compares at the precision it stores, may answer either way.
pub fn pred_fine(p: &Predicate, v: f64, c: &Content) -> Option<bool> {
    let clear = |k: f64| match c.setup.scale {
        Some((sc, _)) if c.setup.scheme == Buff => {
            let q = (k * sc as f64).round();
            let on_grid = q.abs() <= GRID_LIMIT as f64 && grid_value(q as i64, sc) == k;
            on_grid || (v - k).abs() * sc as f64 >= 1.5
        }
        _ => true,
    };
    match p {
        Predicate::Eq(k) | Predicate::Ne(k) => clear(*k).then(|| pred_holds(p, v)),
        Predicate::Range(r) => {
            let sides = [
                Range::new(r.start(), RangeValue::None),
                Range::new(RangeValue::None, r.end()),
            ];
            let mut unclear = false;
            for side in sides {
                let k = match (side.start(), side.end()) {
                    (RangeValue::Inclusive(x) | RangeValue::Exclusive(x), _) => x,
                    (_, RangeValue::Inclusive(x) | RangeValue::Exclusive(x)) => x,
                    _ => continue,
                };
                if !clear(k) {
                    unclear = true;
                } else if !pred_holds(&Predicate::Range(side), v) {
                    return Some(false);
                }
            }
            (!unclear).then_some(true)
        }
    }
}

pub fn fmt_mask(m: &Option<RoaringBitmap>) -> String {
    match m {
        None => "none".into(),
        Some(m) => {
            let v: Vec<u32> = m.iter().take(30).collect();
            format!("{} bits {:?}", m.len(), v)
        }
    }
}

/// Two finite-sum results agree up to rounding: `mag` is the sum of absolute values, `n` the count.
pub fn close(a: f64, b: f64, mag: f64, n: usize) -> bool {
    if a.to_bits() == b.to_bits() || a == b {
        return true;
    }
    let tol = mag * (n as f64 + 8.0) * f64::EPSILON + f64::MIN_POSITIVE;
    (a - b).abs() <= tol
}

// ------------------------------------------------------------------ independent container parser

/// The container as laid out on disk, parsed without the code under test.
#[derive(Clone, Debug, PartialEq)]
pub struct Container {
    pub magic: [u8; 4],
    pub field_type: u8,
    pub scheme: u8,
    pub chunk_kind: u8,
    pub chunk_value: u64,
    pub footer_offset: u64,
    pub version: [u16; 3],
    pub n_records: u64,
    /// (physical, logical) offset of every chunk
    pub chunks: Vec<(u64, u64)>,
    pub config: Vec<u8>,
    /// Where the ten 128 bit time fields start; the CRC field and the end of the file follow them.
    pub times_at: usize,
}

pub const HEADER_SIZE: usize = 30;
pub const TIMES_SIZE: usize = 10 * 16;

pub fn parse_container(b: &[u8]) -> Result<Container, String> {
    let take = |at: usize, n: usize| -> Result<&[u8], String> {
        b.get(at..at + n).ok_or(format!("the file ends before byte {}", at + n))
    };
    let u64_at = |at: usize| -> Result<u64, String> { Ok(u64::from_le_bytes(take(at, 8)?.try_into().unwrap())) };
    let h = take(0, HEADER_SIZE)?;
    let u16_at = |at: usize| u16::from_le_bytes(h[at..at + 2].try_into().unwrap());
    let footer_offset = u64_at(16)?;
    let at = footer_offset as usize;
    let n_records = u64_at(at)?;
    let n_chunks = u64_at(at + 8)? as usize;
    if n_chunks > b.len() {
        return Err(format!("{n_chunks} chunks in {} bytes", b.len()));
    }
    let mut chunks = vec![];
    for i in 0..n_chunks {
        chunks.push((u64_at(at + 16 + 16 * i)?, u64_at(at + 24 + 16 * i)?));
    }
    let at = at + 16 + 16 * n_chunks;
    let size = take(at, 1)?[0] as usize;
    let config = take(at + 1, size)?.to_vec();
    let times_at = at + 1 + size;
    take(times_at, TIMES_SIZE + 4)?;
    if b.len() != times_at + TIMES_SIZE + 4 {
        return Err(format!("{} bytes after the end", b.len() - times_at - TIMES_SIZE - 4));
    }
    Ok(Container {
        magic: h[..4].try_into().unwrap(),
        field_type: h[4],
        scheme: h[5],
        chunk_kind: h[6],
        chunk_value: u64_at(8)?,
        footer_offset,
        version: [u16_at(24), u16_at(26), u16_at(28)],
        n_records,
        chunks,
        config,
        times_at,
    })
}

/// The file with the wall-clock fields blanked: everything in it that the input determines.
pub fn without_times(b: &[u8]) -> Result<Vec<u8>, String> {
    let c = parse_container(b)?;
    let mut v = b.to_vec();
    v[c.times_at..c.times_at + TIMES_SIZE].fill(0);
    Ok(v)
}

pub fn scheme_id(s: Scheme) -> u8 {
    match s {
        Uncompressed => 0,
        Rle => 1,
        Buff => 2,
        Gorilla => 3,
        Chimp => 4,
        Chimp128 => 5,
        ElfOnChimp => 6,
        Elf => 7,
        Sprintz => 8,
        Zstd => 9,
        Gzip => 10,
        Snappy => 11,
        FfiAlp => 12,
    }
}

pub const ALL: [Scheme; 13] = [
    Uncompressed, Rle, Gorilla, Chimp, Chimp128, ElfOnChimp, Elf, Zstd, Gzip, Snappy, FfiAlp, Sprintz, Buff,
];

/// Write a container by hand, from chunk bytes and their record counts.
pub fn build_container(scheme: Scheme, config: &[u8], chunk: (u8, u64), chunks: &[(Vec<u8>, usize)]) -> Vec<u8> {
    let mut b = Vec::new();
    b.extend_from_slice(b"EBI1");
    b.push(0);
    b.push(scheme_id(scheme));
    b.push(chunk.0);
    b.push(0);
    b.extend_from_slice(&chunk.1.to_le_bytes());
    let body: usize = chunks.iter().map(|c| c.0.len()).sum();
    b.extend_from_slice(&((HEADER_SIZE + body) as u64).to_le_bytes());
    for v in [0u16, 1, 14] {
        b.extend_from_slice(&v.to_le_bytes());
    }
    let mut table = Vec::new();
    let mut records = 0usize;
    for (c, n) in chunks {
        table.extend_from_slice(&(b.len() as u64).to_le_bytes());
        table.extend_from_slice(&(records as u64).to_le_bytes());
        b.extend_from_slice(c);
        records += n;
    }
    b.extend_from_slice(&(records as u64).to_le_bytes());
    b.extend_from_slice(&(chunks.len() as u64).to_le_bytes());
    b.extend_from_slice(&table);
    b.push(config.len() as u8);
    b.extend_from_slice(config);
    b.extend_from_slice(&[0u8; TIMES_SIZE + 4]);
    b
}

pub fn config_bytes(config: CompressorConfig) -> Vec<u8> {
    let mut v = Vec::new();
    config.serialize(&mut v).unwrap();
    v.remove(0);
    v
}

// ------------------------------------------------------------------ model of the fixed-point chunk

/// The bytes of a chunk of the fixed-point scheme, from its description: base, count, width and
/// fractional bits as little-endian words, then one byte column per eight bits of the offsets from
/// the base (most significant first, top bit flipped), then the remaining bits packed from the
/// least significant end.
pub fn buff_chunk_model(values: &[f64], p: u32) -> Vec<u8> {
    let frac = BUFF_BITS[p as usize];
    let fixed: Vec<i64> = values.iter().map(|v| (v * 2f64.powi(frac)).trunc() as i64).collect();
    let base = *fixed.iter().min().unwrap();
    let off: Vec<u64> = fixed.iter().map(|f| (f - base) as u64).collect();
    let width = 64 - off.iter().max().unwrap().leading_zeros();
    let mut b = base.to_le_bytes().to_vec();
    for w in [values.len() as u32, width, frac as u32] {
        b.extend_from_slice(&w.to_le_bytes());
    }
    let mut left = width;
    while left >= 8 {
        left -= 8;
        b.extend(off.iter().map(|o| (o >> left) as u8 ^ 0x80));
    }
    let start = b.len();
    b.resize(start + (left as usize * off.len()).div_ceil(8), 0);
    for (i, o) in off.iter().enumerate() {
        for k in 0..left as usize {
            let at = i * left as usize + k;
            b[start + at / 8] |= ((o >> k & 1) as u8) << (at % 8);
        }
    }
    b
}

/// A chunk of the fixed-point scheme, compressed through the public interface, against the model.
pub fn check_buff_chunk(c: &mut crate::Ctx) -> Result<(), String> {
    use ebi::compressor::Compressor;
    let setup = gen_config(&mut c.src, Buff);
    let (sc, p) = setup.scale.unwrap();
    let n = gen_len(&mut c.src, 300);
    let (g, shape) = gen_grid(&mut c.src, n, GRID_LIMIT);
    let mut v: Vec<f64> = g.iter().map(|q| grid_value(*q, sc)).collect();
    if c.src.flip() {
        // off the decimal grid, down to the last bit of the fixed-point form
        for x in v.iter_mut() {
            let f = c.src.below(1 << 20) as f64 / (1u64 << 20) as f64;
            *x += (f - 0.5) / sc as f64;
        }
    }
    c.label(format!("chunk p={p}"));
    c.note(|| format!("fixed-point chunk p={p} shape={shape} n={n} values={:?}", &v[..n.min(24)]));
    let mut z = setup.config.build();
    z.compress(&v).map_err(|e| format!("compress failed: {e}"))?;
    z.prepare();
    let got = z.buffers().concat();
    let want = buff_chunk_model(&v, p);
    // a spare zero byte at the end is harmless
    let same = got.len() >= want.len() && got[..want.len()] == want && got[want.len()..].iter().all(|b| *b == 0);
    if !same {
        let at = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        return Err(format!(
            "a chunk of {n} values with {p} decimals differs from its description at byte {at} ({} bytes, expected {}): {:02x?} instead of {:02x?}",
            got.len(),
            want.len(),
            &got[at..got.len().min(at + 12)],
            &want[at..want.len().min(at + 12)]
        ));
    }
    if n > 1 && want.len() > 20 {
        c.nontrivial();
    }
    Ok(())
}
