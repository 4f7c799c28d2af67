use ebi::api::decoder::{Aggregation, AggregationKind, AggregationResult, Expr};
use ebi::decoder::expr::Op;
use ebi::encoder::ChunkOption;
use ebi::time::SegmentedExecutionTimes;
use harness::data::*;
use harness::{ensure, fail, run, Ctx, Prop, Source};

#[derive(Clone, Debug)]
enum E {
    Lit(f64),
    Col(usize),
    Bin(u8, Box<E>, Box<E>),
}

fn gen_expr(s: &mut Source, cols: usize, depth: u32) -> E {
    if depth == 0 || s.chance(1, 4) {
        return E::Col(s.below(cols as u64) as usize);
    }
    let op = s.below(4) as u8;
    let lit = |s: &mut Source| E::Lit(*s.pick(&[
            2.0, 0.5, -3.0, 10.0, 0.1, 1.0, 7.25, 0.0, -0.0, -1.0, 1e300, 1e-300, f64::INFINITY, f64::NEG_INFINITY,
        ]));
    // one side may be a constant, not both
    let (l, r) = match s.below(4) {
        0 => (lit(s), gen_expr(s, cols, depth - 1)),
        1 => (gen_expr(s, cols, depth - 1), lit(s)),
        _ => (gen_expr(s, cols, depth - 1), gen_expr(s, cols, depth - 1)),
    };
    E::Bin(op, Box::new(l), Box::new(r))
}

fn to_api(e: &E) -> Expr {
    match e {
        E::Lit(x) => Expr::Literal(*x),
        E::Col(i) => Expr::Index(*i),
        E::Bin(o, l, r) => Expr::Binary {
            op: [Op::Add, Op::Sub, Op::Mul, Op::Div][*o as usize],
            lhs: Box::new(to_api(l)),
            rhs: Box::new(to_api(r)),
        },
    }
}

fn eval(e: &E, row: &[f64]) -> f64 {
    match e {
        E::Lit(x) => *x,
        E::Col(i) => row[*i],
        E::Bin(o, l, r) => {
            let (a, b) = (eval(l, row), eval(r, row));
            match o {
                0 => a + b,
                1 => a - b,
                2 => a * b,
                _ => a / b,
            }
        }
    }
}

fn show(e: &E) -> String {
    match e {
        E::Lit(x) => format!("{x}"),
        E::Col(i) => format!("c{i}"),
        E::Bin(o, l, r) => format!("({} {} {})", show(l), ["+", "-", "*", "/"][*o as usize], show(r)),
    }
}

fn check(c: &mut Ctx) -> Result<(), String> {
    let cols = c.src.urange(1, 4);
    let n = gen_len_or_long(&mut c.src, 1200, 4000);
    let chunk = match c.src.below(3) {
        0 => ChunkOption::Full,
        1 => ChunkOption::RecordCount(c.src.urange(1, n + 1).max(n / 100)),
        _ => ChunkOption::RecordCount(c.src.urange(1, 40).max(n / 100)),
    };
    let mut decoders = vec![];
    let mut data: Vec<Vec<f64>> = vec![];
    let mut st = vec![];
    for i in 0..cols {
        let setup = gen_query_scheme(&mut c.src);
        let moderate = c.src.chance(3, 4);
        let content = gen_content(&mut c.src, setup, n, moderate);
        c.label(format!("scheme={:?}", content.setup.scheme));
        c.note(|| format!("column {i}: {}", content.describe()));
        let bytes = encode(&content.values, content.setup.config, chunk)?;
        let mut d = open(&bytes)?;
        st = chunk_starts(&d, n)?;
        let full = materialize(&mut d, None, None)?;
        ensure!(full.len() == n, "{} values instead of {n}", full.len());
        data.push(full);
        decoders.push(d);
    }
    c.note(|| format!("chunking of all columns: {chunk:?}"));
    let mut nontrivial = false;
    for _ in 0..c.src.urange(1, 3) {
        let k = c.src.urange(1, 4);
        let exprs: Vec<(AggregationKind, E)> = (0..k)
            .map(|_| {
                let kind = *c.src.pick(&[
                    AggregationKind::Sum,
                    AggregationKind::Min,
                    AggregationKind::Max,
                    AggregationKind::None,
                ]);
                let depth = c.src.below(4) as u32;
                (kind, gen_expr(&mut c.src, cols, depth))
            })
            .collect();
        let mask = gen_mask(&mut c.src, n, &st);
        let multiple = c.src.flip();
        c.note(|| {
            let t: Vec<String> = exprs.iter().map(|(k, e)| format!("{k:?} of {}", show(e))).collect();
            format!("{} multiple={multiple} mask={}", t.join(", "), fmt_mask(&mask))
        });
        let rows: Vec<Vec<f64>> = (0..n)
            .filter(|i| selected(*i, mask.as_ref(), None, &st))
            .map(|i| data.iter().map(|d| d[i]).collect())
            .collect();
        let mut timer = SegmentedExecutionTimes::new();
        let results: Vec<AggregationResult> = if multiple {
            let aggs: Vec<Aggregation> =
                exprs.iter().map(|(k, e)| Aggregation::new(*k, to_api(e))).collect();
            Aggregation::compute_multiple(&aggs, &mut decoders, mask.as_ref(), &mut timer)
                .map_err(|e| format!("evaluation failed: {e}"))?
        } else {
            let mut v = vec![];
            for (k, e) in &exprs {
                v.push(
                    Aggregation::new(*k, to_api(e))
                        .compute(&mut decoders, mask.as_ref(), &mut timer)
                        .map_err(|e| format!("evaluation failed: {e}"))?,
                );
            }
            v
        };
        ensure!(results.len() == exprs.len(), "{} results for {} expressions", results.len(), exprs.len());
        for ((kind, e), got) in exprs.iter().zip(results) {
            let want: Vec<f64> = rows.iter().map(|r| eval(e, r)).collect();
            let ctx = || format!("{kind:?} of {} over {} rows, mask {}", show(e), rows.len(), fmt_mask(&mask));
            match (kind, got) {
                (AggregationKind::None, AggregationResult::Array(g)) => {
                    ensure!(g.len() == want.len(), "{}: {} values", ctx(), g.len());
                    for (i, (a, b)) in g.iter().zip(&want).enumerate() {
                        ensure!(
                            a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
                            "{}: value {i} is {a:?} instead of {b:?}",
                            ctx()
                        );
                    }
                }
                (AggregationKind::Sum, AggregationResult::Scalar(g)) => {
                    let mag: f64 = want.iter().map(|x| x.abs()).sum();
                    let finite: f64 = want.iter().filter(|x| x.is_finite()).map(|x| x.abs()).sum();
                    let (nan, up, down) = (
                        want.iter().any(|x| x.is_nan()),
                        want.contains(&f64::INFINITY),
                        want.contains(&f64::NEG_INFINITY),
                    );
                    if nan || (up && down) {
                        ensure!(g.is_nan(), "{}: {g:?} instead of NaN", ctx());
                        c.label("sum-nan");
                    } else if (up || down) && finite < 1e300 {
                        let w = if up { f64::INFINITY } else { f64::NEG_INFINITY };
                        ensure!(g == w, "{}: {g:?} instead of {w:?}", ctx());
                        c.label("sum-infinite");
                    } else if mag < 1e300 {
                        let w: f64 = want.iter().sum();
                        // both sides round: the reference is a plain sum as well
                        ensure!(close(g, w, mag * 2.0, want.len()), "{}: {g:?} instead of {w:?}", ctx());
                    } else {
                        c.label("sum-near-overflow");
                    }
                }
                (AggregationKind::Min, AggregationResult::Scalar(g)) => {
                    let w = want.iter().copied().fold(f64::INFINITY, f64::min);
                    ensure!(g == w, "{}: {g:?} instead of {w:?}", ctx());
                }
                (AggregationKind::Max, AggregationResult::Scalar(g)) => {
                    let w = want.iter().copied().fold(f64::NEG_INFINITY, f64::max);
                    ensure!(g == w, "{}: {g:?} instead of {w:?}", ctx());
                }
                (_, g) => fail!("{}: a result of another kind: {g:?}", ctx()),
            }
            c.label(match e {
                E::Col(_) => "bare column",
                _ => "expression",
            });
            if rows.len() >= 2 && matches!(e, E::Bin(..)) {
                nontrivial = true;
            }
        }
    }
    if c.src.chance(1, 20) {
        // a constant alone has no rows
        let e = if c.src.flip() {
            Expr::Literal(3.5)
        } else {
            Expr::Binary {
                op: Op::Add,
                lhs: Box::new(Expr::Literal(1.0)),
                rhs: Box::new(Expr::Literal(2.0)),
            }
        };
        let mut timer = SegmentedExecutionTimes::new();
        ensure!(
            Aggregation::sum(e).compute(&mut decoders, None, &mut timer).is_err(),
            "an expression without a column was evaluated"
        );
        c.label("constant-only");
    }
    if nontrivial {
        c.nontrivial();
    }
    Ok(())
}

fn main() {
    run(Prop {
        id: "C08",
        rule: "A case is 1..4 columns of 1..1200 (rarely up to 140000) values (moderate ones in three of four columns), each with its own scheme and configuration but one common record-count chunking, and 1..3 evaluations of 1..4 aggregates (sum, min, max, plain values) of random +,-,*,/ expressions of depth 0..3 over columns and constants, under a selection mask, one by one or together. Oracle: a row-by-row interpreter over plain scans; plain values bit-identical, min and max equal, sums up to rounding (infinite or NaN where the rows make them so). Non-trivial: a composite expression over at least two selected rows. Distinct: by the hash of all choices drawn.",
        assumptions: &[
            "all columns have the same number of records and the same record-count chunking",
            "an operation has at most one constant operand; finite sums near overflow are not compared",
        ],
        quick_cases: 300_000,
        thorough_cases: 5_000_000,
        case_timeout_s: 60,
        check,
    })
}
