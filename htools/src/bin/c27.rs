use harness::source::Source;
use harness::{ensure, run, Ctx, Prop};
use htools::text::{layout, literal, Literal};
use htools::*;
use serde_json::Value;
use std::collections::BTreeSet;

struct File {
    name: String,
    stem: String,
    text: String,
    /// decimals written and value, or nothing if the file has a field that is no number
    fields: Option<Vec<(i64, f64)>>,
}

fn lit(s: &mut Source) -> Literal {
    match s.below(6) {
        0 => Literal { text: format!("{}", s.irange(-1000, 1000)), decimals: 0 },
        1 => {
            let t = *s.pick(&["0", "-0.0", "1", "0.1", "-99", "100.00", "1e3", "1.5E-3", "1E5", "12.50", "3.", "inf", "1e-320"]);
            let d = match t {
                "-0.0" | "0.1" => 1,
                "100.00" | "12.50" => 2,
                "1.5E-3" => 4,
                "1e-320" => 320,
                _ => 0,
            };
            if t == "inf" && !s.chance(1, 6) {
                return Literal { text: "7".into(), decimals: 0 };
            }
            Literal { text: t.into(), decimals: d }
        }
        _ => loop {
            let wild = s.chance(1, 10);
            let l = literal(s, 9, wild);
            if l.text.parse::<f64>().unwrap().abs() < 1e100 {
                return l;
            }
        },
    }
}

fn gen_file(s: &mut Source, i: usize) -> File {
    let stem = (*s.pick(&["data", "City temp", "a.b", "Ω"])).to_string() + &i.to_string();
    let ext = *s.pick(&[".csv", ".txt", ""]);
    let name = stem.clone() + if ext.is_empty() && stem.contains('.') { ".csv" } else { ext };
    let huge = s.chance(1, 400);
    let n = match s.below(6) {
        0 => s.urange(0, 2),
        5 => s.urange(0, 500),
        _ => s.urange(0, 60),
    };
    if huge {
        // more values than a 32-bit sum of exponents holds
        let n = 2_150_000;
        let t = *s.pick(&["0", "1e300"]);
        let row = vec![t; 1000].join(",") + "\n";
        return File { name, stem, text: row.repeat(n / 1000), fields: Some(vec![(0, t.parse().unwrap()); n]) };
    }
    let pool: Option<Vec<Literal>> = if s.chance(1, 3) { Some((0..s.urange(1, 6)).map(|_| lit(s)).collect()) } else { None };
    let lits: Vec<Literal> = (0..n)
        .map(|_| match &pool {
            Some(p) => s.pick(p).clone(),
            None => lit(s),
        })
        .collect();
    let mut texts: Vec<String> = lits.iter().map(|l| l.text.clone()).collect();
    let bad = n > 0 && s.chance(1, 10);
    if bad {
        let at = s.urange(0, n - 1);
        texts[at] = (*s.pick(&["abc", "1.2.3", "--1", "1 2", "0x10"])).to_string();
    }
    let text = layout(s, &texts, ',');
    let fields = (!bad).then(|| lits.iter().map(|l| (l.decimals, l.text.parse().unwrap())).collect());
    File { name, stem, text, fields }
}

fn number(v: &Value) -> Option<f64> {
    v.as_number().and_then(|n| n.to_string().parse().ok())
}

/// A number as it comes back from JSON.
fn through_json(w: f64) -> Option<f64> {
    number(&serde_json::from_str(&serde_json::to_string(&w).unwrap()).unwrap())
}

fn near(what: &str, at: &str, v: &Value, want: f64, mag: f64, n: usize) -> Result<(), String> {
    if !want.is_finite() || !mag.is_finite() {
        // not a JSON number
        ensure!(v.is_null() || number(v).is_some(), "{at}: {what} is {v}");
        return Ok(());
    }
    let g = number(v).ok_or(format!("{at}: {what} is {v}"))?;
    ensure!((g - want).abs() <= 1e-13 * (n as f64 + 8.0) * mag, "{at}: {what} is {g:?} instead of {want:?}");
    Ok(())
}

fn mean(v: &[f64]) -> f64 {
    // pairwise, so that large files keep their digits
    fn sum(v: &[f64]) -> f64 {
        if v.len() <= 8 {
            return v.iter().sum();
        }
        let (a, b) = v.split_at(v.len() / 2);
        sum(a) + sum(b)
    }
    sum(v) / v.len() as f64
}

fn verify(at: &str, v: &Value, fields: &[(i64, f64)]) -> Result<(), String> {
    let n = fields.len();
    ensure!(v["num_values"] == n as u64, "{at}: {} values instead of {n}", v["num_values"]);
    let dec: Vec<f64> = fields.iter().map(|f| f.0 as f64).collect();
    let val: Vec<f64> = fields.iter().map(|f| f.1).collect();
    let exp: Vec<f64> = val.iter().map(|v| ((v.to_bits() >> 52) & 0x7ff) as f64 - 1023.0).collect();
    for (name, l) in [("decimal_precision", &dec), ("value", &val), ("exponent", &exp)] {
        let f = |k: &str| format!("{name}_{k}");
        if n == 0 {
            for k in ["max", "min", "avg", "std"] {
                ensure!(number(&v[f(k)]) == Some(0.0), "{at}: {} of nothing is {}", f(k), v[f(k)]);
            }
            continue;
        }
        let max = l.iter().copied().fold(f64::NEG_INFINITY, f64::max);
        let min = l.iter().copied().fold(f64::INFINITY, f64::min);
        for (k, w) in [("max", max), ("min", min)] {
            if w.is_finite() {
                ensure!(number(&v[f(k)]) == through_json(w), "{at}: {} is {} instead of {w:?}", f(k), v[f(k)]);
            }
        }
        let mag = max.abs().max(min.abs());
        let m = mean(l);
        near(&f("avg"), at, &v[f("avg")], m, mag, n)?;
        let sq: Vec<f64> = l.iter().map(|x| (x - m) * (x - m)).collect();
        let var = mean(&sq);
        if n < 2 {
            ensure!(number(&v[f("std")]) == Some(0.0), "{at}: {} of one value is {}", f("std"), v[f("std")]);
        } else if var.is_finite() {
            // the rounding of the mean shows in the deviations; of a square root of it, near zero
            near(&f("std"), at, &v[f("std")], var.sqrt(), mag, n)?;
        }
    }
    let (lead, trail) = if n < 2 {
        (64.0, 64.0)
    } else {
        let x: Vec<u64> = val.windows(2).map(|w| w[0].to_bits() ^ w[1].to_bits()).collect();
        (
            x.iter().map(|x| x.leading_zeros() as f64).sum::<f64>() / x.len() as f64,
            x.iter().map(|x| x.trailing_zeros() as f64).sum::<f64>() / x.len() as f64,
        )
    };
    near("xor_leading_zeros_avg", at, &v["xor_leading_zeros_avg"], lead, 64.0, 1)?;
    near("xor_trailing_zeros_avg", at, &v["xor_trailing_zeros_avg"], trail, 64.0, 1)?;
    let distinct = val.iter().map(|v| v.to_bits()).collect::<BTreeSet<_>>().len();
    let ratio = if n == 0 { 0.0 } else { (n - distinct) as f64 / n as f64 };
    near("non_unique_value_ratio", at, &v["non_unique_value_ratio"], ratio, 1.0, 1)
}

fn check(c: &mut Ctx) -> Result<(), String> {
    let scratch = Scratch::new();
    let dir = scratch.dir("set");
    let nf = c.src.urange(1, 4);
    let files: Vec<File> = (0..nf).map(|i| gen_file(&mut c.src, i)).collect();
    for f in &files {
        std::fs::write(dir.join(&f.name), &f.text).unwrap();
    }
    if c.src.chance(1, 5) {
        std::fs::write(scratch.0.join("stats.json"), vec![b'x'; 9000]).unwrap();
    }
    c.note(|| files.iter().map(|f| format!("{} {:?}", f.name, f.text.chars().take(100).collect::<String>())).collect::<Vec<_>>().join(" | "));
    let ran = program("collect-stats", &scratch.0, &[dir.join("*").to_str().unwrap()], None)?;
    ensure!(ran.ok(), "collect-stats ends with {:?}: {}", ran.code, ran.tail());
    let t = std::fs::read(scratch.0.join("stats.json")).map_err(|e| format!("no stats.json: {e}"))?;
    let v: Value = serde_json::from_slice(&t).map_err(|e| format!("stats.json: {e}"))?;
    let o = v.as_object().ok_or("stats.json holds no table")?;
    let want: BTreeSet<&str> = files.iter().filter(|f| f.fields.is_some()).map(|f| f.stem.as_str()).collect();
    let got: BTreeSet<&str> = o.keys().map(|k| k.as_str()).collect();
    ensure!(want == got, "statistics for {got:?} instead of {want:?}: {}", ran.tail());
    for f in &files {
        if let Some(fields) = &f.fields {
            verify(&f.name, &v[f.stem.as_str()], fields)?;
            if fields.len() >= 2 {
                c.nontrivial();
            }
            if fields.len() > 2_000_000 {
                c.label("millions of values");
            }
        } else {
            c.label("malformed file left out");
        }
    }
    Ok(())
}

fn main() {
    run(Prop {
        id: "C27",
        rule: "A case is 1-4 text files of 0-500 numbers of many spellings (once in a while of two million), laid out in lines with empty fields, blanks, LF or CRLF; some have a field that is no number. The collect-stats program runs on the directory's pattern. Oracle: statistics for exactly the well-formed files; count, extremes and their exponents exact; averages, deviations, zero bits of consecutive XORs and the share of repeated values recomputed within rounding; decimals as written, shifted by the exponent. Non-trivial: a well-formed file with at least two numbers. Distinct: by the hash of all choices drawn.",
        assumptions: &["NaN fields are not generated (their order is unspecified)", "statistics that overflow a double are only required to be there", "file stems in one directory are distinct"],
        quick_cases: 1_500,
        thorough_cases: 100_000,
        case_timeout_s: 120,
        check,
    })
}
