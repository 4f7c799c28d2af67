use ebi::encoder::ChunkOption;
use harness::data::*;
use harness::{ensure, fail, run, Ctx, Prop};

fn check(c: &mut Ctx) -> Result<(), String> {
    let setup = gen_scheme(&mut c.src, &ALL);
    let n = if c.src.chance(1, 20) { 0 } else { gen_len(&mut c.src, 300) };
    let content = gen_content(&mut c.src, setup, n, false);
    c.label(format!("scheme={:?}", content.setup.scheme));
    c.note(|| content.describe());
    let good = encode(&content.values, content.setup.config, content.chunk)?;
    open(&good).map_err(|e| format!("the intact file: {e}"))?;
    let k = parse_container(&good)?;
    let mut bad = good.clone();
    let what = match c.src.below(9) {
        0 | 1 => {
            // a strict prefix
            let len = match c.src.below(5) {
                0 => c.src.urange(0, HEADER_SIZE.min(good.len() - 1)),
                1 => good.len() - 1 - c.src.urange(0, 3),
                2 => good.len() - c.src.urange(1, (good.len() - k.footer_offset as usize).min(good.len())),
                3 => k.footer_offset as usize - c.src.urange(0, 2),
                _ => c.src.urange(0, good.len() - 1),
            };
            bad.truncate(len);
            format!("only {len} of {} bytes", good.len())
        }
        2 => {
            let i = c.src.below(4) as usize;
            let x = c.src.range(1, 255) as u8;
            bad[i] ^= x;
            format!("magic number {:?}", &bad[..4])
        }
        3 => {
            bad[4] = c.src.range(1, 255) as u8;
            format!("field type {}", bad[4])
        }
        4 => {
            // scheme numbers in use
            let used: Vec<u8> = ALL.iter().map(|s| scheme_id(*s)).collect();
            let free: Vec<u8> = (0..=255u8).filter(|b| !used.contains(b)).collect();
            bad[5] = *c.src.pick(&free);
            format!("scheme number {}", bad[5])
        }
        5 => {
            bad[6] = c.src.range(3, 255) as u8;
            format!("chunk option {}", bad[6])
        }
        6 => {
            // footer offset inside the header, or at or beyond the end
            let off = match c.src.below(4) {
                0 => 0,
                1 => c.src.range(0, HEADER_SIZE as u64 - 1),
                2 => good.len() as u64 + c.src.range(0, 100),
                _ => (1u64 << c.src.range(32, 63)) | c.src.range(0, 1000),
            };
            bad[16..24].copy_from_slice(&off.to_le_bytes());
            format!("footer offset {off} in {} bytes", good.len())
        }
        7 => {
            // more chunks than the footer has room for
            let room = ((good.len() - k.footer_offset as usize) / 16) as u64;
            let count = match c.src.below(4) {
                0 => room + 1,
                1 => u64::MAX - c.src.range(0, 20),
                2 => 1u64 << c.src.range(28, 63),
                _ => room + c.src.range(1, 1 << 20),
            };
            let at = k.footer_offset as usize + 8;
            bad[at..at + 8].copy_from_slice(&count.to_le_bytes());
            format!("{count} chunks in {} bytes", good.len())
        }
        _ => {
            // what an encoder that stopped leaves: no footer offset, and anything up to everything
            bad[16..24].copy_from_slice(&[0; 8]);
            let len = c.src.urange(HEADER_SIZE, good.len());
            bad.truncate(len);
            format!("no footer offset, {len} of {} bytes", good.len())
        }
    };
    c.note(|| what.clone());
    c.label(what.split(|ch: char| ch.is_ascii_digit() || ch == '[').next().unwrap_or("").trim().to_string());
    ensure!(bad != good, "internal: nothing was damaged");
    if open(&bad).is_ok() {
        fail!("a file with {what} is opened without an error");
    }
    // the low-level reader gives the same verdict
    {
        use ebi::decoder::FileReader;
        let mut cur = std::io::Cursor::new(bad.clone());
        let mut r = FileReader::new();
        let ok = r.fetch_header(&mut cur).is_ok()
            && r.seek_to_footer(&mut cur).is_ok()
            && r.fetch_footer(&mut cur).is_ok();
        ensure!(!ok, "a file with {what} is read without an error");
    }
    if n >= 1 || content.chunk == ChunkOption::Full {
        c.nontrivial();
    }
    Ok(())
}

fn main() {
    run(Prop {
        id: "C17",
        rule: "A case is a scheme with a configuration, 0..300 values, a chunking, and one damage to the encoded file: cut anywhere (header, chunks, footer, last bytes), another magic number, an unknown field type, scheme number or chunk option, a footer offset in the header or beyond the end, more chunks than the footer has room for, or an unset footer offset with any part of the rest missing. Oracle: opening reports an error, without a panic, an abort, or an allocation beyond 12 GB. Non-trivial: every case with a record. Distinct: by the hash of all choices drawn.",
        assumptions: &["damage inside chunk data or to offsets that stay plausible is not detectable in this format (there is no checksum) and not claimed"],
        quick_cases: 1_500_000,
        thorough_cases: 8_000_000,
        case_timeout_s: 60,
        check,
    })
}
