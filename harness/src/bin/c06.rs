use ebi::api::decoder::ChunkId;
use harness::data::*;
use harness::{ensure, run, Ctx, Prop};

fn dist(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| (x - y) * (x - y)).sum()
}

fn check(c: &mut Ctx) -> Result<(), String> {
    let setup = gen_query_scheme(&mut c.src);
    let n = gen_len_or_long(&mut c.src, 2600, 2000);
    let content = gen_content(&mut c.src, setup, n, true);
    c.label(format!("scheme={:?}", content.setup.scheme));
    c.note(|| content.describe());
    let bytes = encode(&content.values, content.setup.config, content.chunk)?;
    let mut d = open(&bytes)?;
    let st = chunk_starts(&d, n)?;
    let full = materialize(&mut d, None, None)?;
    ensure!(full.len() == n, "{} values instead of {n}", full.len());
    let mut nontrivial = false;
    for _ in 0..c.src.urange(1, 4) {
        let dim = match c.src.below(6) {
            0 => 1,
            1 => c.src.urange(1, 4),
            2 => c.src.urange(1, n + 3),
            3 => {
                let k = c.src.below(st.len() as u64 - 1) as usize;
                st[k + 1] - st[k]
            }
            _ => c.src.urange(1, 24),
        };
        // a target near one of the vectors, or anything
        let mut target: Vec<f64> = Vec::with_capacity(dim);
        let near = c.src.below((n / dim).max(1) as u64) as usize;
        let kind = c.src.below(3);
        for j in 0..dim {
            let base = full.get(near * dim + j).copied().unwrap_or(1.5);
            target.push(match kind {
                0 => base,
                1 => base + c.src.irange(-3, 3) as f64 * 0.25,
                _ => c.src.irange(-1000, 1000) as f64 * 0.5,
            });
        }
        c.note(|| format!("nearest of dimension {dim} to {:?}", &target[..dim.min(12)]));
        let got = d.knn1(&target).map_err(|e| format!("nearest neighbour failed: {e}"))?;
        let vectors = n / dim;
        let all: Vec<f64> = (0..vectors).map(|i| dist(&full[i * dim..(i + 1) * dim], &target)).collect();
        if vectors == 0 {
            c.label("no-vector");
            ensure!(
                got.index == usize::MAX && got.distance == f64::INFINITY,
                "no vector of dimension {dim} in {n} records, but index {} distance {:?}",
                got.index,
                got.distance
            );
        } else {
            let best = all.iter().copied().fold(f64::INFINITY, f64::min);
            ensure!(
                got.index < vectors,
                "dimension {dim}: index {} of {vectors} vectors (distance {:?}, best {best:?})",
                got.index,
                got.distance
            );
            let own = all[got.index];
            // rounding of a sum of `dim` squares; all terms are non-negative
            let tol = |x: f64| x * (dim as f64 + 8.0) * f64::EPSILON;
            ensure!(
                (own - best).abs() <= tol(own) + tol(best),
                "dimension {dim}: vector {} at distance {own:?} is not the nearest, {best:?} is",
                got.index
            );
            ensure!(
                (got.distance - own).abs() <= tol(own),
                "dimension {dim}: distance {:?} reported for vector {}, it is {own:?}",
                got.distance,
                got.index
            );
            let span = st[1..st.len() - 1].iter().any(|s| s % dim != 0 && *s < vectors * dim);
            c.label(if span { "vectors span chunks" } else { "aligned" });
            if vectors >= 2 {
                nontrivial = true;
            }
        }
    }
    // the per-chunk partial distance the search is built from
    if c.src.chance(1, 3) {
        let k = c.src.below(st.len() as u64 - 1) as usize;
        let len = st[k + 1] - st[k];
        let mut r = d.chunk_reader(ChunkId::new(k)).map_err(|e| e.to_string())?;
        for _ in 0..3 {
            let off = c.src.urange(0, len);
            let m = c.src.urange(0, len + 2);
            let target: Vec<f64> = (0..m).map(|j| j as f64 * 0.5 - 3.0).collect();
            let got = r.distance_squared(off, &target).map_err(|e| e.to_string())?;
            let want = dist(&full[st[k] + off..st[k + 1]], &target);
            ensure!(
                (got - want).abs() <= want * (m as f64 + 8.0) * f64::EPSILON,
                "chunk {k} offset {off} against {m} numbers: squared distance {got:?} instead of {want:?}"
            );
        }
    }
    if nontrivial {
        c.nontrivial();
    }
    Ok(())
}

fn main() {
    run(Prop {
        id: "C06",
        rule: "A case is a scheme with a configuration, 1..2600 (rarely up to 140000) finite moderate values, a chunking, and 1..4 searches with a target of dimension 1..n+3 that is one of the stored vectors, near one, or arbitrary. Oracle: brute-force squared distances over a plain scan; the reported vector must be one of the nearest (ties may go either way) and the distance its own, up to rounding; with no complete vector the answer is 'none'. A third of the cases also compare per-chunk partial distances. Non-trivial: a search over at least two vectors. Distinct: by the hash of all choices drawn.",
        assumptions: &["finite values of moderate magnitude; the target has at least one number"],
        quick_cases: 500_000,
        thorough_cases: 6_000_000,
        case_timeout_s: 60,
        check,
    })
}
