use ebi::api::decoder::{ChunkId, DecoderOutput};
use ebi::time::SegmentedExecutionTimes;
use harness::data::*;
use harness::{ensure, run, Ctx, Prop};
use roaring::RoaringBitmap;

/// One query on a whole file, checked against the plain scan.
fn on_file(c: &mut Ctx, d: &mut Dec, content: &Content, full: &[f64], st: &[usize]) -> Result<(), String> {
    let n = full.len();
    let mask = gen_mask(&mut c.src, n, st);
    let chunk = gen_chunk_id(&mut c.src, st.len() - 1);
    let cid = chunk.map(ChunkId::new);
    let sel: Vec<usize> = (0..n).filter(|i| selected(*i, mask.as_ref(), chunk, st)).collect();
    let op = c.src.below(7);
    c.note(|| format!("file op {op} mask={} chunk={chunk:?}", fmt_mask(&mask)));
    match op {
        0 => {
            let got = materialize(d, mask.as_ref(), chunk)?;
            same_bits(&got, &sel.iter().map(|i| full[*i]).collect::<Vec<_>>())?;
        }
        1 | 2 => {
            let p = gen_predicate(&mut c.src, content);
            let want: Vec<usize> = sel.iter().copied().filter(|i| pred_holds(&p, content.values[*i])).collect();
            if op == 1 {
                let got = d.filter(p, mask.as_ref(), cid).map_err(|e| format!("filter failed: {e}"))?;
                let want: RoaringBitmap = want.iter().map(|i| *i as u32).collect();
                ensure!(got == want, "filter {p:?}: {} records instead of {}", got.len(), want.len());
            } else {
                let got = filter_materialize(d, p, mask.as_ref(), chunk)?;
                same_bits(&got, &want.iter().map(|i| full[*i]).collect::<Vec<_>>())?;
            }
        }
        3 => {
            let mag: f64 = sel.iter().map(|i| full[*i].abs()).sum();
            if mag < 1e300 {
                let got = d.sum(mask.as_ref(), cid).map_err(|e| format!("sum failed: {e}"))?;
                let want: f64 = sel.iter().map(|i| full[*i]).sum();
                ensure!(close(got, want, 2.0 * mag, sel.len()), "sum {got:?} instead of {want:?}");
            }
        }
        4 => {
            let got = d.min(mask.as_ref(), cid).map_err(|e| format!("min failed: {e}"))?;
            let want = sel.iter().map(|i| full[*i]).fold(f64::INFINITY, f64::min);
            ensure!(got == want, "min {got:?} instead of {want:?}");
        }
        5 => {
            let got = d.max(mask.as_ref(), cid).map_err(|e| format!("max failed: {e}"))?;
            let want = sel.iter().map(|i| full[*i]).fold(f64::NEG_INFINITY, f64::max);
            ensure!(got == want, "max {got:?} instead of {want:?}");
        }
        _ => {
            let dim = c.src.urange(1, n.min(12));
            let target = &full[n - dim..];
            let small = full.iter().all(|v| v.abs() < 1e100);
            if small {
                let got = d.knn1(target).map_err(|e| format!("nearest neighbour failed: {e}"))?;
                let all: Vec<f64> = full
                    .chunks_exact(dim)
                    .map(|v| v.iter().zip(target).map(|(a, b)| (a - b) * (a - b)).sum())
                    .collect();
                let best = all.iter().copied().fold(f64::INFINITY, f64::min);
                ensure!(got.index < all.len(), "nearest of {} vectors: index {}", all.len(), got.index);
                let own = all[got.index];
                ensure!((own - best).abs() <= 1e-12 * own.max(best), "nearest: {own:?} instead of {best:?}");
            }
        }
    }
    Ok(())
}

fn check(c: &mut Ctx) -> Result<(), String> {
    let setup = if c.src.flip() { gen_query_scheme(&mut c.src) } else { gen_scheme(&mut c.src, &ALL) };
    let n = gen_len_or_long(&mut c.src, 1200, 4000);
    let content = gen_content(&mut c.src, setup, n, false);
    c.label(format!("scheme={:?}", content.setup.scheme));
    c.note(|| content.describe());
    let bytes = encode(&content.values, content.setup.config, content.chunk)?;
    let full = {
        let mut d = open(&bytes)?;
        materialize(&mut d, None, None)?
    };
    ensure!(full.len() == n, "{} values instead of {n}", full.len());
    let mut d = open(&bytes)?;
    let st = chunk_starts(&d, n)?;
    let mut ops = 0;
    for _ in 0..c.src.urange(1, 5) {
        if c.src.chance(1, 3) {
            let k = c.src.urange(1, 4);
            for _ in 0..k {
                on_file(c, &mut d, &content, &full, &st).map_err(|e| format!("operation {ops} on one decoder: {e}"))?;
                ops += 1;
            }
            continue;
        }
        // a history on the reader of one chunk
        let k = c.src.below(st.len() as u64 - 1) as usize;
        let (lo, hi) = (st[k], st[k + 1]);
        let chunk = &full[lo..hi];
        let len = hi - lo;
        let finite_small = chunk.iter().all(|v| v.abs() < 1e100);
        let mag_all: f64 = chunk.iter().map(|v| v.abs()).sum();
        let mut r = d.chunk_reader(ChunkId::new(k)).map_err(|e| format!("chunk {k}: {e}"))?;
        ensure!(r.number_of_records() as usize == len, "chunk {k} has {} records", r.number_of_records());
        ensure!(r.chunk_index() == k, "chunk {k} calls itself {}", r.chunk_index());
        ensure!(r.is_last_chunk() == (k + 2 == st.len()), "chunk {k}: last chunk?");
        let mut trail = String::new();
        for _ in 0..c.src.urange(1, 7) {
            ops += 1;
            let op = c.src.below(11);
            let mask = gen_mask(&mut c.src, n, &st);
            let sel: Vec<usize> = (lo..hi).filter(|i| selected(*i, mask.as_ref(), None, &st)).collect();
            let name = [
                "iterate", "iterate-part", "decompress", "materialize", "filter", "filter-materialize", "sum", "min", "max",
                "distance", "dot",
            ][op as usize];
            trail += name;
            trail += " ";
            c.label(format!("op={name}"));
            c.note(|| format!("chunk {k}: {name} mask={}", fmt_mask(&mask)));
            let at = |e: String| format!("chunk {k}, history [{}]: {e}", trail.trim_end());
            match op {
                0 => {
                    let it = r.inner_mut().decompress_iter().map_err(|e| at(e.to_string()))?;
                    // one more than there are: the iteration has to end by itself
                    let got = it.take(len + 1).collect::<Result<Vec<f64>, _>>().map_err(|e| at(e.to_string()))?;
                    same_bits(&got, chunk).map_err(at)?;
                }
                1 => {
                    let m = c.src.urange(0, len);
                    let it = r.inner_mut().decompress_iter().map_err(|e| at(e.to_string()))?;
                    let got = it.take(m).collect::<Result<Vec<f64>, _>>().map_err(|e| at(e.to_string()))?;
                    same_bits(&got, &chunk[..m]).map_err(at)?;
                }
                2 => {
                    let got = r
                        .inner_mut()
                        .decompress(&mut SegmentedExecutionTimes::new())
                        .map_err(|e| at(e.to_string()))?;
                    same_bits(got, chunk).map_err(at)?;
                }
                3 => {
                    let mut out = DecoderOutput::from_vec(Vec::new());
                    r.materialize(out.writer_mut(), mask.as_ref()).map_err(|e| at(e.to_string()))?;
                    let got = to_f64s(&out.into_writer().into_inner());
                    same_bits(&got, &sel.iter().map(|i| full[*i]).collect::<Vec<_>>()).map_err(at)?;
                }
                4 | 5 => {
                    let p = gen_predicate(&mut c.src, &content);
                    let want: Vec<usize> =
                        sel.iter().copied().filter(|i| pred_holds(&p, content.values[*i])).collect();
                    if op == 4 {
                        let got = r.filter(p, mask.as_ref()).map_err(|e| at(e.to_string()))?;
                        let want: RoaringBitmap = want.iter().map(|i| *i as u32).collect();
                        ensure!(
                            got == want,
                            "{}",
                            at(format!("filter {p:?}: {} records instead of {}", got.len(), want.len()))
                        );
                    } else {
                        let mut out = DecoderOutput::from_vec(Vec::new());
                        r.filter_materialize(out.writer_mut(), p, mask.as_ref()).map_err(|e| at(e.to_string()))?;
                        let got = to_f64s(&out.into_writer().into_inner());
                        same_bits(&got, &want.iter().map(|i| full[*i]).collect::<Vec<_>>()).map_err(at)?;
                    }
                }
                6 => {
                    let got = r.sum(mask.as_ref()).map_err(|e| at(e.to_string()))?;
                    if mag_all < 1e300 {
                        let mag: f64 = sel.iter().map(|i| full[*i].abs()).sum();
                        let want: f64 = sel.iter().map(|i| full[*i]).sum();
                        ensure!(
                            close(got, want, 2.0 * mag, sel.len()),
                            "{}",
                            at(format!("sum {got:?} instead of {want:?}"))
                        );
                    }
                }
                7 | 8 => {
                    let got = if op == 7 { r.min(mask.as_ref()) } else { r.max(mask.as_ref()) }
                        .map_err(|e| at(e.to_string()))?;
                    // what the extreme of nothing is, differs between the schemes' readers
                    if !sel.is_empty() {
                        let it = sel.iter().map(|i| full[*i]);
                        let want = if op == 7 {
                            it.fold(f64::INFINITY, f64::min)
                        } else {
                            it.fold(f64::NEG_INFINITY, f64::max)
                        };
                        ensure!(got == want, "{}", at(format!("{name} {got:?} instead of {want:?}")));
                    }
                }
                _ => {
                    let off = c.src.urange(0, len);
                    let m = c.src.urange(0, (len + 2).min(40));
                    let target: Vec<f64> = (0..m).map(|j| j as f64 * 0.5 - 3.0).collect();
                    let pairs = chunk[off..].iter().zip(&target);
                    let (got, terms): (f64, Vec<f64>) = if op == 9 {
                        (
                            r.distance_squared(off, &target).map_err(|e| at(e.to_string()))?,
                            pairs.map(|(a, b)| (a - b) * (a - b)).collect(),
                        )
                    } else {
                        (
                            r.dot_product(off, &target).map_err(|e| at(e.to_string()))?,
                            pairs.map(|(a, b)| a * b).collect(),
                        )
                    };
                    if finite_small {
                        let want: f64 = terms.iter().sum();
                        let mag: f64 = terms.iter().map(|t| t.abs()).sum();
                        ensure!(
                            close(got, want, 4.0 * mag, m),
                            "{}",
                            at(format!("{name} at {off} with {m} numbers: {got:?} instead of {want:?}"))
                        );
                    }
                }
            }
        }
    }
    c.label(format!("history={}", ops.min(16)));
    if n >= 2 && ops >= 3 {
        c.nontrivial();
    }
    Ok(())
}

fn main() {
    run(Prop {
        id: "C11",
        rule: "A case is a scheme with a configuration, 1..1200 (rarely up to 140000) values, a chunking, and a history of 1..5 phases on one open decoder: either 1..4 queries on the file (scan, filter, filtered scan, sum, min, max, nearest neighbour) or 1..7 operations on the reader of one chunk (iterate completely, iterate a part and stop, decompress, scan, filter, filtered scan, sum, min, max, squared distance, dot product), each with its own mask, predicate and offset. Oracle: every operation must give what it gives on the records of a plain scan by a fresh decoder, whatever came before it. Non-trivial: at least two records and a history of at least three operations. Distinct: by the hash of all choices drawn.",
        assumptions: &[
            "non-NaN values; for the bounded-precision schemes the values, and for the fixed-point scheme the constants, lie on the scale's decimal grid with |value*scale| <= 2^50",
            "the extreme of an empty selection within one chunk is not compared; sums above 1e300 and products of values above 1e100 are not compared",
        ],
        quick_cases: 500_000,
        thorough_cases: 6_000_000,
        case_timeout_s: 60,
        check,
    })
}
