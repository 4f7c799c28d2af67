// The packing code is internal to the crate, so it is compiled into this check from its source.
// (check.sh falls back to c19b, which needs no internals, when this does not build.)
mod compression_common {
    #[allow(dead_code)]
    #[path = "/repo/ebi/src/compression_common/buff.rs"]
    pub mod buff;
    #[allow(unused_imports)]
    pub use ebi::compression_common::elf;
}

use compression_common::buff;
use compression_common::buff::bit_packing::BitPack;
use compression_common::buff::precision_bound::{
    into_fixed_representation_with_fractional_part_bits_length as to_fixed, PRECISION_MAP,
};
use harness::{ensure, run, Ctx, Prop, Source};

/// The model: a list of bits, least significant first within each byte.
fn push(m: &mut Vec<bool>, v: u32, n: usize) {
    m.extend((0..n).map(|i| v >> i & 1 != 0));
}
fn pack(m: &[bool]) -> Vec<u8> {
    let mut v = vec![0u8; m.len().div_ceil(8)];
    for (i, b) in m.iter().enumerate() {
        v[i / 8] |= (*b as u8) << (i % 8);
    }
    v
}
fn number(m: &[bool]) -> u32 {
    m.iter().enumerate().fold(0, |a, (i, b)| a | (*b as u32) << i)
}
fn word(s: &mut Source) -> u32 {
    match s.below(4) {
        0 => s.bits() as u32,
        1 => u32::MAX,
        2 => 1 << s.below(32),
        _ => s.below(256) as u32,
    }
}

fn write_history(c: &mut Ctx) -> Result<Vec<bool>, String> {
    let s = &mut c.src;
    let mut m: Vec<bool> = vec![];
    let mut text = String::new();
    let mut w = if s.flip() { BitPack::<Vec<u8>>::with_capacity(s.urange(0, 64)) } else { BitPack::default() };
    // fields of any width
    for _ in 0..s.urange(0, 12) {
        let (v, n) = (word(s), if s.flip() { 32 } else { s.urange(1, 32) });
        text += &format!("write({v:#x},{n}) ");
        ensure!(w.write(v, n).is_ok(), "write of {n} bits failed after {text}");
        push(&mut m, v, n);
    }
    // whole bytes start at a byte boundary
    let pad = m.len().next_multiple_of(8) - m.len();
    if pad > 0 {
        ensure!(w.write(0, pad).is_ok(), "write of {pad} bits failed after {text}");
        push(&mut m, 0, pad);
    }
    if s.flip() {
        for _ in 0..s.urange(0, 20) {
            let b = word(s) as u8;
            text += &format!("byte({b:#x}) ");
            w.write_byte(b);
            push(&mut m, b as u32, 8);
        }
        w.finish_write_byte();
        text += "finish_bytes ";
    }
    // fields narrower than a byte
    let mut unaligned = false;
    for _ in 0..s.urange(0, 30) {
        let (v, n) = (word(s), s.urange(1, 8));
        text += &format!("write_bits({v:#x},{n}) ");
        unaligned |= m.len() % 8 + n > 8;
        ensure!(w.write_bits(v, n).is_ok(), "write_bits of {n} failed after {text}");
        push(&mut m, v, n);
        ensure!(w.sum_bits() == m.len(), "{} bits instead of {} after {text}", w.sum_bits(), m.len());
    }
    let got = w.into_vec();
    let want = pack(&m);
    c.note(|| text.clone());
    ensure!(
        got.len() >= want.len() && got[..want.len()] == want && got[want.len()..].iter().all(|b| *b == 0),
        "bytes {got:02x?} instead of {want:02x?} after {text}"
    );
    // the same fields into a slice that is exactly long enough
    if unaligned {
        c.nontrivial();
    }
    Ok(m)
}

fn slice_history(c: &mut Ctx) -> Result<(), String> {
    let s = &mut c.src;
    let len = s.urange(0, 12);
    let mut buf = vec![0u8; len];
    let mut m: Vec<bool> = vec![];
    let mut w = BitPack::<&mut [u8]>::new(&mut buf);
    let mut refused = false;
    for _ in 0..s.urange(1, 16) {
        let (v, n) = (word(s), s.urange(1, 34));
        let small = n <= 8 && s.flip();
        let r = if small { w.write_bits(v, n) } else { w.write(v, n) };
        if n <= 32 && m.len() + n <= len * 8 {
            ensure!(r.is_ok(), "{n} bits at {} of {} refused", m.len(), len * 8);
            push(&mut m, v, n);
        } else {
            refused = true;
            ensure!(r == Err(n), "{n} bits at {} of {} gave {r:?}", m.len(), len * 8);
        }
        ensure!(w.sum_bits() == m.len(), "{} bits instead of {}", w.sum_bits(), m.len());
    }
    m.resize(len * 8, false);
    ensure!(buf == pack(&m), "bytes {buf:02x?} instead of {:02x?}", pack(&m));
    if refused {
        c.label("refused-write");
    }
    Ok(())
}

fn read_history(c: &mut Ctx, m: &[bool]) -> Result<(), String> {
    let bytes = pack(m);
    let mut m = m.to_vec();
    m.resize(bytes.len() * 8, false);
    let s = &mut c.src;
    let mut r = BitPack::<&[u8]>::new(&bytes);
    let mut pos = 0usize;
    let mut text = String::new();
    // byte-aligned part
    for _ in 0..s.urange(0, 10) {
        let left = bytes.len() - pos / 8;
        match s.below(5) {
            0 | 1 => {
                let got = r.read_u32();
                let want = if left >= 4 { Ok(number(&m[pos..pos + 32])) } else { Err(32) };
                text += "read_u32 ";
                ensure!(got == want, "{text}: {got:x?} instead of {want:x?}");
                pos += if got.is_ok() { 32 } else { 0 };
            }
            2 if left >= 1 => {
                text += "read_byte ";
                let got = r.read_byte();
                let want = Ok(bytes[pos / 8]);
                ensure!(got == want, "{text}: {got:x?} instead of {want:x?}");
                pos += 8;
            }
            3 => {
                let n = s.urange(0, left);
                text += &format!("read_n_byte({n}) ");
                let want = bytes[pos / 8..pos / 8 + n].to_vec();
                let got = r.read_n_byte(n).map(|b| b.to_vec());
                ensure!(got == Ok(want.clone()), "{text}: {got:02x?} instead of {want:02x?}");
                pos += n * 8;
            }
            _ => {
                let n = if s.flip() { s.urange(0, left.min(3)) } else { s.urange(0, left) };
                text += &format!("skip_n_byte({n}) ");
                ensure!(r.skip_n_byte(n).is_ok(), "{text} failed");
                pos += n * 8;
            }
        }
        ensure!(r.sum_bits() == pos, "{text}: at bit {} instead of {pos}", r.sum_bits());
    }
    // bit part
    for _ in 0..s.urange(0, 24) {
        let left = m.len() - pos;
        match s.below(4) {
            0 => {
                let n = s.urange(1, 34);
                let got = r.read(n);
                text += &format!("read({n}) ");
                let want = if n <= 32 && n <= left { Ok(m[pos..pos + n].to_vec()) } else { Err(n) };
                let want = want.map(|b| number(&b));
                ensure!(got == want, "{text}: {got:x?} instead of {want:x?}");
                pos += if got.is_ok() { n } else { 0 };
            }
            1 => {
                let n = match s.below(4) {
                    0 => s.urange(0, left + 9),
                    // onto a byte boundary
                    1 => (8 - pos % 8) % 8 + 8 * s.urange(0, left / 8 + 1),
                    _ => s.urange(0, 40),
                };
                let got = r.skip(n);
                text += &format!("skip({n}) ");
                let want = if n <= left { Ok(()) } else { Err(n) };
                ensure!(got == want, "{text}: {got:?} instead of {want:?}");
                pos += if got.is_ok() { n } else { 0 };
            }
            _ => {
                let n = s.urange(1, 8);
                if n > left {
                    continue;
                }
                let got = r.read_bits(n);
                text += &format!("read_bits({n}) ");
                let want = Ok(number(&m[pos..pos + n]) as u8);
                ensure!(got == want, "{text}: {got:x?} instead of {want:x?}");
                pos += n;
            }
        }
        ensure!(r.sum_bits() == pos, "{text}: at bit {} instead of {pos}", r.sum_bits());
    }
    c.note(|| text);
    Ok(())
}

fn fixed_point(c: &mut Ctx) -> Result<(), String> {
    for _ in 0..16 {
        let s = &mut c.src;
        let p = s.below(13) as usize;
        let bits = PRECISION_MAP[p] as i32;
        // every exponent below the overflow limit, and exact grid values
        let v = match s.below(5) {
            0 => {
                let e = s.below((1023 + 63 - bits) as u64);
                f64::from_bits(s.below(2) << 63 | e << 52 | s.bits() >> 12)
            }
            1 => {
                let e = (1023 - bits - 3) as u64 + s.below(66);
                f64::from_bits(s.below(2) << 63 | e << 52 | s.bits() >> 12)
            }
            2 => {
                let q = s.irange(-(1 << 50), 1 << 50);
                q as f64 / 2f64.powi(bits)
            }
            3 => {
                let q = s.irange(-1_000_000_000, 1_000_000_000);
                format!("{q}e-{p}").parse().unwrap()
            }
            _ => *s.pick(&[0.0, -0.0, 1.0, -1.0, f64::MIN_POSITIVE, 5e-324, -5e-324, 0.5, -0.5]),
        };
        if v.abs() * 2f64.powi(bits) >= 2f64.powi(63) {
            continue;
        }
        let want = (v * 2f64.powi(bits)).trunc() as i64; // exact: scaling by a power of two
        let want = if v.abs() < f64::MIN_POSITIVE { 0 } else { want };
        let got = to_fixed(v, bits);
        ensure!(got == want, "{v:?} with {bits} fractional bits: {got} instead of {want}");
        if want != 0 && want as f64 != v * 2f64.powi(bits) {
            c.nontrivial();
        }
    }
    // enough fractional bits for p decimal places: neighbouring decimals stay apart
    let p = c.src.below(13) as usize;
    let need = 10u128.pow(p as u32);
    ensure!(1u128 << PRECISION_MAP[p] >= need, "{} bits for {p} decimal places", PRECISION_MAP[p]);
    let x = c.src.below(256) as u8;
    ensure!(buff::flip(x) == x ^ 0x80, "flip({x})");
    Ok(())
}

fn check(c: &mut Ctx) -> Result<(), String> {
    match c.src.weighted(&[40, 15, 30, 10, 5]) {
        4 => {
            c.label("chunk");
            harness::data::check_buff_chunk(c)
        }
        0 => {
            c.label("pack-then-unpack");
            let m = write_history(c)?;
            read_history(c, &m)
        }
        1 => {
            c.label("slice");
            slice_history(c)
        }
        3 => {
            c.label("unpack-long");
            let most = if c.src.chance(1, 8) { 3000 } else { 400 };
            let n = c.src.urange(1, most);
            let seed = c.src.bits();
            let m: Vec<bool> = (0..n as u64)
                .flat_map(|i| {
                    let b = ((i ^ seed).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 40) as u8;
                    (0..8).map(move |k| b >> k & 1 != 0)
                })
                .collect();
            c.nontrivial();
            read_history(c, &m)
        }
        _ => {
            c.label("fixed-point");
            fixed_point(c)
        }
    }
}

fn main() {
    run(Prop {
        id: "C19",
        rule: "A case is a history of packing operations (fields of 1..32 bits, then whole bytes, then fields of 1..8 bits) into a growing buffer followed by a history of unpacking operations (words, bytes, byte runs and skips at byte boundaries, then fields and skips of any width) over the result or over up to 3000 arbitrary bytes, with skips of up to the whole length; or fields into a slice of fixed length, including ones that do not fit; or 16 conversions of doubles (all exponents, grid values, decimals, subnormals) to fixed point at one of the 13 precisions; or a chunk of up to 300 values compressed by the fixed-point scheme. Oracle: a list of bits with a cursor, exact scaling by a power of two followed by truncation, and an independent description of the chunk's bytes. Non-trivial: a history over long bytes, a chunk of several values that are not all equal, a narrow field that crosses a byte boundary, or a conversion that drops a non-zero fraction. Distinct: by the hash of all choices drawn.",
        assumptions: &[
            "whole bytes are written and read at byte boundaries only, as the format does",
            "values whose fixed-point form fits 64 bits",
        ],
        quick_cases: 8_000_000,
        thorough_cases: 40_000_000,
        case_timeout_s: 30,
        check,
    })
}
