use ebi::api::decoder::ChunkId;
use harness::data::*;
use harness::{ensure, fail, run, Ctx, Prop};

fn check(c: &mut Ctx) -> Result<(), String> {
    let setup = gen_query_scheme(&mut c.src);
    let rows = c.src.urange(1, 6);
    let cols = match c.src.below(3) {
        0 => c.src.urange(1, 4),
        1 => c.src.urange(1, 9),
        _ if c.src.chance(1, 60) => c.src.urange(40, 3000),
        _ => c.src.urange(1, 40),
    };
    let batch = match c.src.below(3) {
        0 => 1,
        1 => c.src.urange(1, 6),
        _ if cols <= 40 && c.src.chance(1, 1000) => 1 + 66_000 / (rows * cols),
        _ => c.src.urange(1, 60),
    };
    let tcols = c.src.urange(1, 6);
    let n = rows * cols * batch;
    let content = gen_content(&mut c.src, setup, n, true);
    c.label(format!("scheme={:?}", content.setup.scheme));
    c.note(|| content.describe());
    let bytes = encode(&content.values, content.setup.config, content.chunk)?;
    let mut d = open(&bytes)?;
    let st = chunk_starts(&d, n)?;
    let full = materialize(&mut d, None, None)?;
    ensure!(full.len() == n, "{} values instead of {n}", full.len());
    // column-first target
    let target: Vec<f64> = (0..cols * tcols).map(|_| c.src.irange(-40, 40) as f64 * 0.25).collect();
    c.note(|| format!("{batch} matrices of {rows}x{cols} times {cols}x{tcols}: {:?}", &target[..target.len().min(12)]));

    if c.src.chance(1, 8) {
        // shapes that cannot be multiplied are refused
        let (tshape, dshape, t): ((usize, usize), (usize, usize), Vec<f64>) = match c.src.below(5) {
            0 => ((cols + 1, tcols), (rows, cols), vec![0.5; (cols + 1) * tcols]),
            1 => {
                // the record count is not a multiple of the data matrix
                let bad = (1..=n + 1).find(|k| n % k != 0).unwrap();
                ((bad, tcols), (1, bad), vec![0.5; bad * tcols])
            }
            2 => ((cols, tcols), (rows, cols), vec![0.5; cols * tcols + 1]),
            3 => ((cols, tcols), (0, cols), target.clone()),
            _ => ((0, tcols), (rows, 0), vec![]),
        };
        c.label("invalid-shape");
        if let Ok(r) = d.matmul(&t, tshape, dshape) {
            fail!(
                "{n} records as {dshape:?} matrices times {tshape:?} ({} numbers): accepted, {} results",
                t.len(),
                r.len()
            );
        }
    }

    let got = d
        .matmul(&target, (cols, tcols), (rows, cols))
        .map_err(|e| format!("matrix multiplication failed: {e}"))?;
    ensure!(
        got.len() == batch * rows * tcols,
        "{} results instead of {}",
        got.len(),
        batch * rows * tcols
    );
    for r in 0..batch * rows {
        for t in 0..tcols {
            let (mut want, mut mag) = (0.0, 0.0);
            for k in 0..cols {
                let x = full[r * cols + k] * target[t * cols + k];
                want += x;
                mag += x.abs();
            }
            let g = got[r * tcols + t];
            ensure!(
                close(g, want, mag, cols),
                "matrix {} row {} column {t}: {g:?} instead of {want:?}",
                r / rows,
                r % rows
            );
        }
    }
    let span = st[1..st.len() - 1].iter().any(|s| s % (rows * cols) != 0);
    c.label(if st.len() == 2 {
        "one chunk"
    } else if span {
        "matrices span chunks"
    } else {
        "aligned chunks"
    });
    if c.src.chance(1, 3) {
        let k = c.src.below(st.len() as u64 - 1) as usize;
        let len = st[k + 1] - st[k];
        let mut r = d.chunk_reader(ChunkId::new(k)).map_err(|e| e.to_string())?;
        for _ in 0..3 {
            let off = c.src.urange(0, len);
            let m = c.src.urange(0, len + 2);
            let t: Vec<f64> = (0..m).map(|j| j as f64 * 0.5 - 3.0).collect();
            let g = r.dot_product(off, &t).map_err(|e| e.to_string())?;
            let part: Vec<f64> =
                full[st[k] + off..st[k + 1]].iter().zip(&t).map(|(a, b)| a * b).collect();
            let want: f64 = part.iter().sum();
            let mag: f64 = part.iter().map(|x| x.abs()).sum();
            ensure!(
                close(g, want, mag, m),
                "chunk {k} offset {off} against {m} numbers: dot product {g:?} instead of {want:?}"
            );
        }
    }
    if n >= 4 && tcols * cols > 1 {
        c.nontrivial();
    }
    Ok(())
}

fn main() {
    run(Prop {
        id: "C07",
        rule: "A case is a scheme with a configuration, a batch of 1..60 (rarely some 66000 records) data matrices of 1..6 x 1..40 (rarely up to 3000 columns) finite moderate values, any chunking (so that rows and matrices straddle chunks), and a target of 1..6 columns. Oracle: schoolbook product over a plain scan, up to rounding. One case in eight first tries a shape that cannot be multiplied and expects an error; a third also compare per-chunk partial dot products. Non-trivial: at least four records and a target of more than one number. Distinct: by the hash of all choices drawn.",
        assumptions: &["finite values of moderate magnitude"],
        quick_cases: 500_000,
        thorough_cases: 6_000_000,
        case_timeout_s: 60,
        check,
    })
}
