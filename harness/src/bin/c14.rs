use ebi::api::decoder::{ChunkId, DecoderOutput};
use ebi::time::SegmentedExecutionTimes;
use harness::data::*;
use harness::{ensure, run, Ctx, Prop};

/// Half a unit of the last requested decimal place.
fn tolerance(p: u32) -> f64 {
    if p == 0 {
        1.0
    } else {
        0.5 / 10f64.powi(p as i32)
    }
}

fn near(got: &[f64], want: &[f64], p: u32) -> Result<usize, String> {
    ensure!(got.len() == want.len(), "{} values instead of {}", got.len(), want.len());
    let mut coarse = 0;
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        let tol = tolerance(p) + w.abs() * f64::EPSILON;
        ensure!(g == w || (g - w).abs() <= tol, "value {i} is {g:?} instead of {w:?} within {p} decimals");
        if g != w {
            coarse += 1;
        }
    }
    Ok(coarse)
}

fn check(c: &mut Ctx) -> Result<(), String> {
    let setup = if c.src.chance(1, 12) {
        gen_scheme(&mut c.src, &ALL)
    } else {
        gen_config(&mut c.src, Scheme::Buff)
    };
    let n = gen_len_or_long(&mut c.src, 1500, 1500);
    let content = gen_content(&mut c.src, setup, n, false);
    let buff = content.setup.scheme == Scheme::Buff;
    c.label(format!("scheme={:?}", content.setup.scheme));
    c.label(format!("shape={}", content.shape));
    c.note(|| content.describe());
    let bytes = encode(&content.values, content.setup.config, content.chunk)?;
    let mut d = open(&bytes)?;
    let full = materialize(&mut d, None, None)?;
    ensure!(full.len() == n, "{} values instead of {n}", full.len());
    let st = chunk_starts(&d, n)?;
    let mut coarse = 0;
    for _ in 0..c.src.urange(1, 4) {
        let p = c.src.below(13) as u32;
        let mask = gen_mask(&mut c.src, n, &st);
        let chunk = gen_chunk_id(&mut c.src, st.len() - 1);
        let sel: Vec<usize> = (0..n).filter(|i| selected(*i, mask.as_ref(), chunk, &st)).collect();
        c.note(|| format!("precision {p} mask={} chunk={chunk:?}", fmt_mask(&mask)));
        d.with_precision(p);
        let want: Vec<f64> = sel.iter().map(|i| full[*i]).collect();
        let got = materialize(&mut d, mask.as_ref(), chunk)?;
        if !buff {
            same_bits(&got, &want).map_err(|e| format!("precision {p} on a scheme without it: {e}"))?;
        }
        let k = near(&got, &want, p).map_err(|e| format!("scan with precision {p}: {e}"))?;
        // the originals, not only what a full scan gives
        let orig: Vec<f64> = sel.iter().map(|i| content.values[*i]).collect();
        let slack = match content.setup.scale {
            Some((_, sp)) if buff => 2f64.powi(-BUFF_BITS[sp as usize]),
            _ => 0.0,
        };
        for (i, (g, o)) in got.iter().zip(&orig).enumerate() {
            ensure!(
                g == o || (g - o).abs() <= tolerance(p) + slack + 2.0 * o.abs() * f64::EPSILON,
                "scan with precision {p}: value {i} is {g:?}, the original {o:?}"
            );
        }
        coarse += k;
        c.label(format!("precision={p}"));
        match c.src.below(4) {
            0 => {
                // the selection is made on the full values
                let pr = gen_predicate(&mut c.src, &content);
                let want: Vec<f64> =
                    sel.iter().filter(|i| pred_holds(&pr, content.values[**i])).map(|i| full[*i]).collect();
                let got = filter_materialize(&mut d, pr, mask.as_ref(), chunk)?;
                near(&got, &want, p).map_err(|e| format!("filtered scan {pr:?} with precision {p}: {e}"))?;
            }
            1 => {
                // filters and extremes do not depend on the precision of materialized values
                let pr = gen_predicate(&mut c.src, &content);
                let cid = chunk.map(ChunkId::new);
                let got = d.filter(pr, mask.as_ref(), cid).map_err(|e| e.to_string())?;
                let want = sel.iter().filter(|i| pred_holds(&pr, content.values[**i])).map(|i| *i as u32).collect();
                ensure!(got == want, "filter {pr:?} with precision {p}: {} records instead of {}", got.len(), want.len());
            }
            2 => {
                // changing the precision on the reader of one chunk
                let k = c.src.below(st.len() as u64 - 1) as usize;
                let mut r = d.chunk_reader(ChunkId::new(k)).map_err(|e| e.to_string())?;
                let mut cur = p;
                for _ in 0..c.src.urange(1, 4) {
                    if c.src.flip() {
                        cur = c.src.below(13) as u32;
                        r.with_precision(cur);
                    }
                    let want = &full[st[k]..st[k + 1]];
                    let got = if c.src.flip() {
                        let mut out = DecoderOutput::from_vec(Vec::new());
                        r.materialize(out.writer_mut(), None).map_err(|e| e.to_string())?;
                        to_f64s(&out.into_writer().into_inner())
                    } else {
                        r.inner_mut().decompress(&mut SegmentedExecutionTimes::new()).map_err(|e| e.to_string())?.to_vec()
                    };
                    near(&got, want, cur).map_err(|e| format!("chunk {k} with precision {cur}: {e}"))?;
                }
            }
            _ => {}
        }
    }
    if coarse > 0 {
        c.nontrivial();
    }
    Ok(())
}

fn main() {
    run(Prop {
        id: "C14",
        rule: "A case is the fixed-point scheme (one in twelve: any other) with a scale of 0..12 decimals, 1..1500 (rarely up to 140000) values on that grid, a chunking, and 1..4 requests for 0..12 decimals on one decoder, each with a scan over a mask and optional chunk and possibly a filtered scan, a filter, or a history of precision changes on one chunk's reader. Oracle: every value within half a unit of the requested decimal place (one unit for 0 decimals) of the full-precision value and of the original; the same records as at full precision; other schemes unchanged. Non-trivial: a request that really returned a coarser value. Distinct: by the hash of all choices drawn.",
        assumptions: &["precision 0..12; values on the scale's decimal grid with |value*scale| <= 2^50"],
        quick_cases: 1_500_000,
        thorough_cases: 5_000_000,
        case_timeout_s: 60,
        check,
    })
}
