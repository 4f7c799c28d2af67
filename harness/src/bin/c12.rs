use ebi::compressor::{Compressor, GenericCompressor};
use ebi::encoder::ChunkOption;
use harness::data::*;
use harness::{ensure, run, Ctx, Prop};

fn output(c: &GenericCompressor) -> Vec<u8> {
    c.buffers().concat()
}

fn check(c: &mut Ctx) -> Result<(), String> {
    let setup = gen_scheme(&mut c.src, &ALL);
    c.label(format!("scheme={:?}", setup.scheme));
    c.note(|| format!("{:?} {}", setup.scheme, setup.cfg_text));
    let mut comp = setup.config.build();
    let rounds = c.src.urange(1, 6);
    let mut used = 0;
    for round in 0..rounds {
        let none = c.src.chance(1, 10) && !matches!(setup.scheme, Scheme::Sprintz | Scheme::Buff);
        let n = if none { 0 } else { gen_len_or_long(&mut c.src, 1200, 4000) };
        let one = Setup { ..setup.clone() };
        let content = gen_content(&mut c.src, one, n, false);
        let values = &content.values;
        c.note(|| format!("round {round}: {n} {}", content.shape));
        let reset = c.src.flip();
        if reset {
            comp.reset();
            ensure!(comp.total_bytes_in() == 0, "round {round}: {} bytes in after a reset", comp.total_bytes_in());
        }
        if c.src.chance(1, 6) {
            comp = comp.clone();
        }
        comp.compress(values).map_err(|e| format!("round {round}: {e}"))?;
        ensure!(
            comp.total_bytes_in() == 8 * n,
            "round {round} (reset={reset}): {} bytes in for {n} records",
            comp.total_bytes_in()
        );
        let estimate = comp.total_bytes_buffered();
        let abandoned = c.src.chance(1, 5);
        if abandoned {
            used += 1;
            continue; // never read out: the next round must not see anything of it
        }
        comp.prepare();
        let got = output(&comp);
        // a compressor that has done nothing before
        let mut fresh = setup.config.build();
        fresh.compress(values).map_err(|e| format!("{e}"))?;
        fresh.prepare();
        let want = output(&fresh);
        ensure!(
            got == want,
            "round {round} (reset={reset}): a compressor used {used} times before gives {} bytes, a fresh one {} bytes, first difference at {:?}",
            got.len(),
            want.len(),
            got.iter().zip(&want).position(|(a, b)| a != b)
        );
        // The exact size, up to the last partial byte of bit-oriented schemes.
        ensure!(
            estimate == got.len() || (estimate == got.len() + 1),
            "round {round}: {estimate} bytes were announced, there are {}",
            got.len()
        );
        // reading twice changes nothing
        ensure!(output(&comp) == got, "round {round}: reading the output twice gives different bytes");
        if n == 0 {
            used += 1; // the encoder makes no empty chunks
            continue;
        }
        // the encoder writes exactly these bytes as the chunk
        let file = encode(values, setup.config, ChunkOption::Full)?;
        let k = parse_container(&file)?;
        ensure!(k.chunks.len() == 1, "{} chunks", k.chunks.len());
        ensure!(file[HEADER_SIZE..k.footer_offset as usize] == got[..], "round {round}: the encoder writes another chunk");
        let again = encode(values, setup.config, ChunkOption::Full)?;
        ensure!(without_times(&file)? == without_times(&again)?, "encoding twice gives different files");
        used += 1;
        if used >= 2 && n >= 2 {
            c.nontrivial();
        }
    }
    Ok(())
}

fn main() {
    run(Prop {
        id: "C12",
        rule: "A case is a scheme with a configuration (all 13) and a history of 1..6 rounds on one compressor object: optionally reset or clone it, compress 1..1200 (rarely none, or up to 140000) values of a fresh shape, and read the output or abandon it. Oracle: the bytes of a compressor that has done nothing before, the chunk the encoder writes for the same values, twice, and the number of bytes fed in. Non-trivial: a round on a compressor that was used before, with at least two values. Distinct: by the hash of all choices drawn.",
        assumptions: &[
            "the size announced before the output is closed may exceed the final size by the one partial byte of bit-oriented schemes",
            "DeltaSprintz and BUFF are not asked to compress nothing: they need a first value, and the encoder never asks them",
        ],
        quick_cases: 200_000,
        thorough_cases: 3_000_000,
        case_timeout_s: 60,
        check,
    })
}
