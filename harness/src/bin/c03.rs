use ebi::api::decoder::ChunkId;
use harness::data::*;
use harness::{ensure, run, Ctx, Prop};
use roaring::RoaringBitmap;

fn check(c: &mut Ctx) -> Result<(), String> {
    let setup = gen_query_scheme(&mut c.src);
    let n = gen_len(&mut c.src, 70_000);
    let content = gen_content(&mut c.src, setup, n, false);
    c.label(format!("scheme={:?}", content.setup.scheme));
    c.label(format!("shape={}", content.shape));
    c.note(|| content.describe());
    let bytes = encode(&content.values, content.setup.config, content.chunk)?;
    let mut d = open(&bytes)?;
    let st = chunk_starts(&d, n)?;
    let mut proper = false;
    for _ in 0..c.src.urange(1, 6) {
        let p = gen_predicate_fine(&mut c.src, &content);
        let mask = gen_mask(&mut c.src, n, &st);
        let chunk = gen_chunk_id(&mut c.src, st.len() - 1);
        c.note(|| format!("filter {p:?} mask={} chunk={chunk:?}", fmt_mask(&mask)));
        let got = d
            .filter(p, mask.as_ref(), chunk.map(ChunkId::new))
            .map_err(|e| format!("filter failed: {e}"))?;
        let want: RoaringBitmap = (0..n)
            .filter(|i| {
                selected(*i, mask.as_ref(), chunk, &st)
                    && pred_fine(&p, content.values[*i], &content).unwrap_or_else(|| got.contains(*i as u32))
            })
            .map(|i| i as u32)
            .collect();
        if got != want {
            let extra: Vec<u32> = (&got - &want).iter().take(5).collect();
            let missing: Vec<u32> = (&want - &got).iter().take(5).collect();
            let show = |v: &[u32]| -> String {
                v.iter()
                    .map(|i| match content.values.get(*i as usize) {
                        Some(x) => format!("{i} ({x:?})"),
                        None => format!("{i} (no such record)"),
                    })
                    .collect::<Vec<_>>()
                    .join(", ")
            };
            return Err(format!(
                "filter {p:?} mask={} chunk={chunk:?}: {} records instead of {}; wrongly returned: {}; missing: {}",
                fmt_mask(&mask),
                got.len(),
                want.len(),
                show(&extra),
                show(&missing)
            ));
        }
        if !want.is_empty() && (want.len() as usize) < n {
            proper = true;
        }
        c.label(match (want.is_empty(), mask.is_some(), chunk.is_some()) {
            (true, _, _) => "empty-result",
            (false, true, true) => "mask+chunk",
            (false, true, false) => "mask",
            (false, false, true) => "chunk",
            (false, false, false) => "whole-file",
        });
    }
    ensure!(d.footer().number_of_records() as usize == n, "record count changed");
    if n >= 2 && proper {
        c.nontrivial();
    }
    Ok(())
}

fn main() {
    run(Prop {
        id: "C03",
        rule: "A case is a scheme (half the cases the fixed-point scheme, a fifth the delta scheme, the rest the 11 lossless ones) with a configuration, 1..2600 (rarely up to 140000) values of one of 8/14 shapes, a chunking, and 1..6 filters: equality, inequality or a range with open/closed/absent ends whose constants are existing values, neighbours, chunk extremes or far away (for the bounded-precision schemes also between two multiples of the unit, and infinite or beyond every range), a selection mask (none, sparse, dense, whole chunks, chunk edges, bits beyond the end) and an optional chunk. Oracle: IEEE comparison of the original values; for the fixed-point scheme, which compares at the precision it stores, a record less than 1.5 units from a constant that is not a multiple of the unit may go either way. Non-trivial: at least two records and at least one filter whose expected result is neither empty nor everything. Distinct: by the hash of all choices drawn.",
        assumptions: &[
            "non-NaN values and constants; for the bounded-precision schemes the values lie on the scale's decimal grid with |value*scale| <= 2^50",
        ],
        quick_cases: 500_000,
        thorough_cases: 6_000_000,
        case_timeout_s: 60,
        check,
    })
}
