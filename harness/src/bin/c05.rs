use ebi::api::decoder::ChunkId;
use harness::data::*;
use harness::{ensure, run, Ctx, Prop};

fn check(c: &mut Ctx) -> Result<(), String> {
    let setup = gen_query_scheme(&mut c.src);
    let n = gen_len(&mut c.src, 70_000);
    let moderate = c.src.flip();
    let content = gen_content(&mut c.src, setup, n, moderate);
    c.label(format!("scheme={:?}", content.setup.scheme));
    c.label(format!("shape={}", content.shape));
    c.note(|| content.describe());
    let bytes = encode(&content.values, content.setup.config, content.chunk)?;
    let mut d = open(&bytes)?;
    let st = chunk_starts(&d, n)?;
    // What a plain scan returns; how it relates to the originals is checked right here.
    let full = materialize(&mut d, None, None)?;
    match content.setup.scale {
        None => same_bits(&full, &content.values)?,
        Some((_, p)) => {
            ensure!(full.len() == n, "{} values instead of {n}", full.len());
            let tol = match content.setup.scheme {
                Scheme::Buff => 2f64.powi(-BUFF_BITS[p as usize]),
                _ => 0.0,
            };
            for (i, (g, o)) in full.iter().zip(&content.values).enumerate() {
                ensure!((g - o).abs() <= tol + o.abs() * f64::EPSILON, "record {i} is {g:?}, the original {o:?}");
            }
        }
    }
    let mut proper = false;
    for _ in 0..c.src.urange(1, 6) {
        let op = c.src.below(3);
        let mask = gen_mask(&mut c.src, n, &st);
        let chunk = gen_chunk_id(&mut c.src, st.len() - 1);
        let name = ["sum", "min", "max"][op as usize];
        c.note(|| format!("{name} mask={} chunk={chunk:?}", fmt_mask(&mask)));
        let sel: Vec<f64> =
            (0..n).filter(|i| selected(*i, mask.as_ref(), chunk, &st)).map(|i| full[i]).collect();
        let cid = chunk.map(ChunkId::new);
        let got = match op {
            0 => d.sum(mask.as_ref(), cid),
            1 => d.min(mask.as_ref(), cid),
            _ => d.max(mask.as_ref(), cid),
        }
        .map_err(|e| format!("{name} failed: {e}"))?;
        let ctx = || format!("{name} mask={} chunk={chunk:?} over {} records", fmt_mask(&mask), sel.len());
        match op {
            0 => {
                let mag: f64 = sel.iter().map(|v| v.abs()).sum();
                if mag < 1e300 {
                    let want: f64 = kahan(&sel);
                    ensure!(close(got, want, mag, sel.len()), "{}: {got:?} instead of {want:?}", ctx());
                } else {
                    c.label("sum-overflows");
                }
            }
            1 => {
                let want = sel.iter().copied().fold(f64::INFINITY, f64::min);
                ensure!(got == want, "{}: {got:?} instead of {want:?}", ctx());
            }
            _ => {
                let want = sel.iter().copied().fold(f64::NEG_INFINITY, f64::max);
                ensure!(got == want, "{}: {got:?} instead of {want:?}", ctx());
            }
        }
        c.label(format!("op={name}"));
        if sel.is_empty() {
            c.label("empty-selection");
        }
        if sel.len() >= 2 && (sel.len() < n || st.len() > 2) {
            proper = true;
        }
    }
    if proper {
        c.nontrivial();
    }
    Ok(())
}

/// Compensated sum: the reference the implementations' own summation orders are compared with.
fn kahan(v: &[f64]) -> f64 {
    let (mut s, mut comp) = (0.0f64, 0.0f64);
    for x in v {
        let t = s + x;
        if s.abs() >= x.abs() {
            comp += (s - t) + x;
        } else {
            comp += (x - t) + s;
        }
        s = t;
    }
    s + comp
}

fn main() {
    run(Prop {
        id: "C05",
        rule: "A case is a scheme with a configuration (half fixed-point, a fifth delta, the rest lossless), 1..2600 values (rarely up to 140000), a chunking, and 1..6 aggregates (sum, min, max) over a selection mask (none, sparse, dense, whole chunks, chunk edges, bits beyond the end) and an optional chunk. Oracle: fold over the selected values of a plain scan (itself compared with the originals); min and max exactly, sums up to the rounding of n additions. Non-trivial: an aggregate over at least two records that is either a proper part of the file or spans several chunks. Distinct: by the hash of all choices drawn.",
        assumptions: &[
            "non-NaN values; sums whose total magnitude exceeds 1e300 are not compared",
            "for the bounded-precision schemes the values lie on the scale's decimal grid with |value*scale| <= 2^50",
            "an empty selection has sum 0, minimum +infinity, maximum -infinity",
        ],
        quick_cases: 500_000,
        thorough_cases: 6_000_000,
        case_timeout_s: 60,
        check,
    })
}
