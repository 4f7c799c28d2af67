use harness::data::*;
use harness::{run, Ctx, Prop};

/// Record-exact selection: what comes back for a selection is the matching slice of the full scan,
/// and, for the lossless schemes, of the original values.
fn check(c: &mut Ctx) -> Result<(), String> {
    let setup = gen_query_scheme(&mut c.src);
    let n = gen_len(&mut c.src, 70_000);
    let content = gen_content(&mut c.src, setup, n, false);
    c.label(format!("scheme={:?}", content.setup.scheme));
    c.label(format!("shape={}", content.shape));
    c.note(|| content.describe());
    let bytes = encode(&content.values, content.setup.config, content.chunk)?;
    let mut d = open(&bytes)?;
    let st = chunk_starts(&d, n)?;
    let full = materialize(&mut d, None, None)?;
    if content.setup.scale.is_none() {
        same_bits(&full, &content.values)?;
    } else if full.len() != n {
        return Err(format!("{} values instead of {n}", full.len()));
    }
    let mut proper = false;
    for _ in 0..c.src.urange(1, 5) {
        let with_filter = c.src.flip();
        let p = gen_predicate(&mut c.src, &content);
        let mask = gen_mask(&mut c.src, n, &st);
        let chunk = gen_chunk_id(&mut c.src, st.len() - 1);
        let keep: Vec<usize> = (0..n)
            .filter(|i| selected(*i, mask.as_ref(), chunk, &st))
            .filter(|i| !with_filter || pred_holds(&p, content.values[*i]))
            .collect();
        let want: Vec<f64> = keep.iter().map(|i| full[*i]).collect();
        let what = if with_filter { format!("filter {p:?} then materialize") } else { "materialize".into() };
        c.note(|| format!("{what} mask={} chunk={chunk:?}", fmt_mask(&mask)));
        let got = if with_filter {
            filter_materialize(&mut d, p, mask.as_ref(), chunk)?
        } else {
            materialize(&mut d, mask.as_ref(), chunk)?
        };
        same_bits(&got, &want).map_err(|e| format!("{what} mask={} chunk={chunk:?}: {e}", fmt_mask(&mask)))?;
        if !want.is_empty() && want.len() < n {
            proper = true;
        }
        c.label(match (with_filter, mask.is_some(), chunk.is_some()) {
            (true, true, _) => "filter+mask",
            (true, false, _) => "filter",
            (false, true, _) => "mask",
            (false, false, true) => "chunk",
            (false, false, false) => "whole-file",
        });
        // the values that come back are the originals up to the scheme's precision
        if let Some((sc, p)) = content.setup.scale {
            let tol = match content.setup.scheme {
                Scheme::Buff => 2f64.powi(-BUFF_BITS[p as usize]),
                _ => 0.0,
            };
            for (g, i) in got.iter().zip(&keep) {
                let o = content.values[*i];
                if (g - o).abs() > tol + o.abs() * f64::EPSILON {
                    return Err(format!("record {i} is {g:?}, the original {o:?} (scale {sc})"));
                }
            }
        }
    }
    if n >= 2 && proper {
        c.nontrivial();
    }
    Ok(())
}

fn main() {
    run(Prop {
        id: "C04",
        rule: "A case is a scheme with a configuration (half fixed-point, a fifth delta, the rest lossless), 1..2600 values (rarely up to 140000), a chunking, and 1..5 reads of the same open file: a plain read or a filtered read with a selection mask (none, sparse, dense, whole chunks, chunk edges, bits beyond the end) and an optional chunk. Oracle: the records the mask, the chunk and the comparison of the original values select, in order, bit-identical to the full scan (and to the originals up to the scheme's precision). Non-trivial: at least two records and at least one read whose expected result is neither empty nor everything. Distinct: by the hash of all choices drawn.",
        assumptions: &[
            "non-NaN values and constants; for the bounded-precision schemes the values, and for the fixed-point scheme the constants, lie on the scale's decimal grid with |value*scale| <= 2^50",
        ],
        quick_cases: 500_000,
        thorough_cases: 6_000_000,
        case_timeout_s: 60,
        check,
    })
}
