use harness::data::*;
use harness::{ensure, run, Ctx, Prop};

fn check(c: &mut Ctx) -> Result<(), String> {
    let setup = gen_scheme(&mut c.src, &LOSSLESS);
    let empty = c.src.chance(1, 60);
    let n = if empty { 0 } else { gen_len(&mut c.src, 70_000) };
    let mut content = gen_content(&mut c.src, setup, n, false);
    if nan_capable(content.setup.scheme) && c.src.chance(1, 10) {
        // these schemes keep raw bits, so a NaN must come back as it was
        for v in content.values.iter_mut() {
            if c.src.chance(1, 8) {
                *v = f64::from_bits(0x7ff0_0000_0000_0000 | c.src.bits() | 1);
            }
        }
        c.label("with-nan");
    }
    c.label(format!("scheme={:?}", content.setup.scheme));
    c.label(format!("shape={}", content.shape));
    c.note(|| content.describe());
    let bytes = encode(&content.values, content.setup.config, content.chunk)?;
    let mut d = open(&bytes)?;
    let got = materialize(&mut d, None, None)?;
    same_bits(&got, &content.values)?;
    ensure!(
        d.footer().number_of_records() as usize == n,
        "footer says {} records, {} were written",
        d.footer().number_of_records(),
        n
    );
    let chunks = d.chunk_footers().len();
    c.label(match chunks {
        0 => "chunks=0",
        1 => "chunks=1",
        2..=5 => "chunks=2-5",
        _ => "chunks>5",
    });
    // every chunk on its own gives its slice
    if n > 0 && c.src.flip() {
        let st = chunk_starts(&d, n)?;
        let k = c.src.below(chunks as u64) as usize;
        let got = materialize(&mut d, None, Some(k))?;
        same_bits(&got, &content.values[st[k]..st[k + 1]]).map_err(|e| format!("chunk {k}: {e}"))?;
    }
    if n >= 2 {
        c.nontrivial();
    }
    Ok(())
}

fn main() {
    run(Prop {
        id: "C01",
        rule: "A case is one of the 11 lossless schemes with its settings, a stream of 0..2600 values (rarely up to 140000) in 14 shapes (random bits, decimals, runs, walks, repeats within a window, sparse mantissas, subnormals, infinities and both zeros, shared exponents, ...), and a chunking by record count, byte size or whole input; for schemes that store raw values one case in ten also has NaNs. It is encoded, decoded as a whole, and half the time one chunk is decoded alone. Oracle: the same bits. Non-trivial: at least two values. Distinct: by the hash of all choices drawn.",
        assumptions: &[
            "NaN only for the schemes that store raw values (the XOR schemes use a NaN as their end mark)",
            "the ALP scheme runs on a pure-Rust stand-in for its C++ library, whose sources are not in the repository",
            "chunk options that hold at least one record; little-endian 64-bit host",
        ],
        quick_cases: 500_000,
        thorough_cases: 5_000_000,
        case_timeout_s: 60,
        check,
    })
}
