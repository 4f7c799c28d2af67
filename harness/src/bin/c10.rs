use ebi::io::as_bytes_mut::AsBytesMut;
use ebi::io::bit_read::{BitRead2, BufferedBitReader};
use ebi::io::bit_write::{BitWrite, BufferedBitWriter};
use harness::{ensure, run, Ctx, Prop, Source};

/// The model of a bit buffer: the bits in order, most significant first within each byte.
fn pack(bits: &[bool]) -> Vec<u8> {
    let mut v = vec![0u8; bits.len().div_ceil(8)];
    for (i, b) in bits.iter().enumerate() {
        if *b {
            v[i / 8] |= 0x80 >> (i % 8);
        }
    }
    v
}

fn unpack(bytes: &[u8]) -> Vec<bool> {
    bytes.iter().flat_map(|b| (0..8).map(move |i| b >> (7 - i) & 1 != 0)).collect()
}

fn number(bits: &[bool]) -> u64 {
    bits.iter().fold(0, |a, b| a << 1 | *b as u64)
}

#[derive(Debug)]
enum Op {
    Bit(bool),
    Byte(u8),
    Bits(u64, u32),
    Cursor(usize),
    Reset,
}

fn apply<W: BitWrite>(mut w: W, op: &Op) {
    match op {
        Op::Bit(b) => w.write_bit(*b),
        Op::Byte(b) => w.write_byte(*b),
        Op::Bits(b, n) => w.write_bits(*b, *n),
        Op::Cursor(c) => w.set_cursor_at_in_bit(*c),
        Op::Reset => w.reset(),
    }
}

fn word(s: &mut Source) -> u64 {
    match s.below(4) {
        0 => s.bits(),
        1 => u64::MAX,
        2 => 1 << s.below(64),
        _ => s.below(256),
    }
}

fn gen_num(s: &mut Source) -> u32 {
    match s.below(4) {
        0 => s.below(65) as u32,
        1 => *s.pick(&[1u32, 7, 8, 9, 15, 16, 17, 63, 64]),
        _ => s.range(1, 12) as u32,
    }
}

/// A history of writer operations, compared with the model after every step.
fn write_history(c: &mut Ctx) -> Result<(Vec<bool>, Box<[u8]>), String> {
    let mut m: Vec<bool> = vec![];
    let mut w = match c.src.below(4) {
        0 => BufferedBitWriter::new(),
        1 => BufferedBitWriter::with_capacity(c.src.urange(0, 40)),
        2 => BufferedBitWriter::default(),
        _ => {
            let k = c.src.urange(0, 20);
            BufferedBitWriter::from_vec((0..k).map(|i| i as u8 | 0x81).collect())
        }
    };
    let steps = c.src.urange(0, 50);
    for step in 0..steps {
        let s = &mut c.src;
        let op = match s.weighted(&[30, 25, 45, 6, 2]) {
            0 => Op::Bit(s.flip()),
            1 => Op::Byte(word(s) as u8),
            2 => Op::Bits(word(s), gen_num(s)),
            3 => Op::Cursor(if m.is_empty() || s.chance(1, 4) {
                m.len() + s.urange(0, 30)
            } else {
                s.urange(0, m.len())
            }),
            _ => Op::Reset,
        };
        let by_ref = s.chance(1, 4);
        let before = m.len();
        match &op {
            Op::Bit(b) => m.push(*b),
            Op::Byte(b) => m.extend((0..8).rev().map(|i| b >> i & 1 != 0)),
            Op::Bits(b, n) => m.extend((0..*n).rev().map(|i| b >> i & 1 != 0)),
            // backwards discards the bits from there on, forwards appends zero bits
            Op::Cursor(p) => m.resize(*p, false),
            Op::Reset => m.clear(),
        }
        c.note(|| format!("{op:x?}"));
        if by_ref {
            apply(&mut &mut w, &op); // through the forwarding impl for references
        } else {
            apply(&mut w, &op);
        }
        let got = w.number_of_bits_written();
        ensure!(got == m.len(), "step {step} {op:x?} at bit {before}: {got} bits written instead of {}", m.len());
        ensure!(
            w.as_slice() == pack(&m),
            "step {step} {op:x?} at bit {before}: bytes {:02x?} instead of {:02x?}",
            w.as_slice(),
            pack(&m)
        );
        if !matches!(op, Op::Bit(_) | Op::Reset) && before % 8 != 0 {
            c.nontrivial();
            c.label("unaligned-write");
        }
        if matches!(op, Op::Cursor(_)) {
            c.label(if m.len() < before { "cursor-back" } else { "cursor-forward" });
        }
    }
    Ok((m, w.close()))
}

/// A history of reader operations over any buffer type, compared with a cursor into the bits.
fn read_history<B: AsRef<[u8]>>(c: &mut Ctx, buf: B, bits: &[bool]) -> Result<(), String> {
    let mut r = BufferedBitReader::new(buf);
    let len = bits.len();
    let mut pos = 0usize;
    let steps = c.src.urange(1, 60);
    for step in 0..steps {
        let op = c.src.weighted(&[15, 15, 30, 20, 10, 3, 4, 4]);
        let by_ref = c.src.chance(1, 4);
        let left = len.saturating_sub(pos);
        let at = pos;
        match op {
            0 => {
                let got = if by_ref { BitRead2::read_bit(&mut &mut r) } else { r.read_bit() };
                let want = bits.get(pos).copied();
                c.note(|| format!("read_bit={got:?}"));
                ensure!(got == want, "step {step}: read_bit at {at}/{len} is {got:?} instead of {want:?}");
                pos += want.is_some() as usize;
            }
            1 => {
                let got = if by_ref { BitRead2::read_byte(&mut &mut r) } else { r.read_byte() };
                let want = (left >= 8).then(|| number(&bits[pos..pos + 8]) as u8);
                c.note(|| format!("read_byte={got:x?}"));
                ensure!(got == want, "step {step}: read_byte at {at}/{len} is {got:x?} instead of {want:x?}");
                pos += if want.is_some() { 8 } else { 0 };
                if at % 8 != 0 && want.is_some() {
                    c.nontrivial();
                }
            }
            2 | 3 => {
                let mut n = gen_num(&mut c.src).max(1) as usize;
                if c.src.chance(1, 8) && left > 0 {
                    // exactly what is left, or one more
                    n = (left + c.src.urange(0, 1)).min(64);
                }
                let want = (left >= n).then(|| number(&bits[pos..pos + n]));
                let got = match (op, by_ref) {
                    (2, false) => r.read_bits(n as u8),
                    (2, true) => BitRead2::read_bits(&mut &mut r, n as u8),
                    (_, false) => r.peak_bits(n as u8),
                    (_, true) => BitRead2::peak_bits(&mut &mut r, n as u8),
                };
                let name = if op == 2 { "read_bits" } else { "peak_bits" };
                c.note(|| format!("{name}({n})={got:x?}"));
                ensure!(got == want, "step {step}: {name}({n}) at {at}/{len} is {got:x?} instead of {want:x?}");
                if want.is_some() {
                    if at % 8 != 0 {
                        c.nontrivial();
                    }
                    if op == 2 {
                        pos += n;
                    }
                } else {
                    c.label("read-past-end");
                }
            }
            4 => {
                let n = match c.src.below(4) {
                    0 => c.src.urange(0, 9),
                    1 => c.src.urange(0, 70),
                    2 => left,
                    _ => c.src.urange(0, len + 20),
                };
                // mostly inside the buffer
                let n = if n > left && c.src.chance(3, 4) { left } else { n };
                c.note(|| format!("skip({n})"));
                r.skip_bits(n);
                pos += n;
            }
            5 => {
                c.note(|| "reset".into());
                r.reset();
                pos = 0;
            }
            6 if left >= 1 => {
                let got = r.read_bit_unchecked();
                ensure!(got == bits[pos], "step {step}: read_bit_unchecked at {at}/{len} is {got}");
                pos += 1;
            }
            7 if left >= 8 => {
                let got = r.read_byte_unchecked();
                let want = number(&bits[pos..pos + 8]) as u8;
                ensure!(got == want, "step {step}: read_byte_unchecked at {at}/{len} is {got:#x} instead of {want:#x}");
                pos += 8;
            }
            _ => {}
        }
    }
    Ok(())
}

fn byte_view(c: &mut Ctx) -> Result<(), String> {
    let n = c.src.urange(0, 9);
    let mut v: Vec<f64> = (0..n).map(|_| f64::from_bits(c.src.bits())).collect();
    let want: Vec<u8> = v.iter().flat_map(|x| x.to_ne_bytes()).collect();
    ensure!(v.as_mut_slice().as_bytes_mut() == want, "byte view of {n} doubles differs");
    if n > 0 {
        let i = c.src.below(n as u64 * 8) as usize;
        let b = c.src.below(256) as u8;
        v.as_mut_slice().as_bytes_mut()[i] = b;
        let mut w = want.clone();
        w[i] = b;
        let back: Vec<u8> = v.iter().flat_map(|x| x.to_ne_bytes()).collect();
        ensure!(back == w, "byte {i} written through the byte view of {n} doubles is not seen");
    }
    let mut u: Vec<u16> = (0..n).map(|_| c.src.below(65536) as u16).collect();
    let want: Vec<u8> = u.iter().flat_map(|x| x.to_ne_bytes()).collect();
    ensure!(u.as_mut_slice().as_bytes_mut() == want, "byte view of {n} 16 bit words differs");
    Ok(())
}

fn check(c: &mut Ctx) -> Result<(), String> {
    let kind = c.src.weighted(&[45, 45, 10]);
    match kind {
        0 => {
            // what was written is what is read back
            let (m, bytes) = write_history(c)?;
            ensure!(bytes.as_ref() == pack(&m), "close returned {bytes:02x?} instead of {:02x?}", pack(&m));
            let bits = unpack(&bytes);
            c.label("write-then-read");
            read_history(c, bytes, &bits)
        }
        1 => {
            let n = c.src.urange(0, 40);
            let bytes: Vec<u8> = (0..n).map(|_| c.src.below(256) as u8).collect();
            let bits = unpack(&bytes);
            c.label("read");
            c.note(|| format!("{bytes:02x?}"));
            match c.src.below(3) {
                0 => read_history(c, bytes, &bits),
                1 => read_history(c, &bytes[..], &bits),
                _ => read_history(c, bytes.into_boxed_slice(), &bits),
            }
        }
        _ => {
            c.label("byte-view");
            byte_view(c)
        }
    }
}

fn main() {
    run(Prop {
        id: "C10",
        rule: "A case is a history of 0..50 writer operations (bit, byte, low n bits of a word, cursor moved back or forward, reset; partly through a reference) on a fresh, pre-sized or recycled buffer, then 1..60 reader operations over the result; or 1..60 reader operations (bit, byte, n bits, peek, skip, reset, unchecked reads where bits remain) over 0..40 random bytes held in three buffer types; or a byte view of a slice. Oracle: a list of booleans with a cursor, compared after every operation (bits written, bytes so far, every value read, absence at the end without moving). Non-trivial: at least one multi-bit operation at a position that is not a byte boundary. Distinct: by the hash of all choices drawn.",
        assumptions: &[
            "bit counts are 0..64 for writes and 1..64 for reads, as documented",
            "unchecked reads are issued only where the bits exist",
        ],
        quick_cases: 8_000_000,
        thorough_cases: 60_000_000,
        case_timeout_s: 30,
        check,
    })
}
