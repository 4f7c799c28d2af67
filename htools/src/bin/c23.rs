use ebi::compressor::CompressorConfig;
use ebi::encoder::ChunkOption;
use experimenter::*;
use harness::data::{encode, open};
use harness::{ensure, run, Ctx, Prop};
use htools::text::{layout, literal, Literal};
use htools::*;

const NAMES: [&str; 13] = [
    "uncompressed", "chimp128", "chimp", "elf_on_chimp", "elf", "gorilla", "rle", "zstd", "gzip", "snappy", "ffi_alp", "delta_sprintz", "buff",
];

fn gen(c: &mut Ctx, small: bool) -> Vec<Literal> {
    let s = &mut c.src;
    let n = match s.below(5) {
        0 => s.urange(1, 4),
        1 | 2 => s.urange(1, 60),
        // around the size where one or two fields are one percent
        3 => s.urange(90, 210),
        _ => s.urange(100, 900),
    };
    let common = s.range(0, if small { 4 } else { 7 });
    let wild = !small && s.chance(1, 8);
    let rare = s.below(4);
    let top = if small { common + s.range(0, 4) } else { common + s.range(0, 9) };
    (0..n)
        .map(|i| {
            // few fields with more decimals than the rest
            let more = match rare {
                0 => false,
                1 => i == n / 2,
                2 => s.chance(1, 100),
                _ => s.chance(1, 20),
            };
            let mut l = literal(s, if more { top } else { common }, wild);
            if small {
                // keep it within range of the bounded-precision schemes
                let mut k = 0;
                while (l.decimals > 9 || l.text.parse::<f64>().unwrap().abs() > 9e5) && k < 40 {
                    l = literal(s, common, false);
                    k += 1;
                }
                if l.decimals > 9 || l.text.parse::<f64>().unwrap().abs() > 9e5 {
                    l = Literal { text: "1.5".into(), decimals: 1 };
                }
            }
            l
        })
        .collect()
}

/// The precision: the largest one written when exact; otherwise the largest p such that at least
/// one field in a hundred is written with p decimals or more.
fn expected(d: &[i64], exact: bool) -> i64 {
    let mut v = d.to_vec();
    v.sort_by(|a, b| b.cmp(a));
    if exact {
        return v[0];
    }
    for (i, p) in v.iter().enumerate() {
        // the last field of its precision decides how many have p or more
        if i + 1 < v.len() && v[i + 1] == *p {
            continue;
        }
        if (i as u64 + 1) * 100 >= v.len() as u64 {
            return *p;
        }
    }
    unreachable!()
}

fn check(c: &mut Ctx) -> Result<(), String> {
    let pipeline = c.src.chance(1, 40);
    let lits = gen(c, pipeline);
    let sep = if pipeline { ',' } else { *c.src.pick(&[',', '\t', ';']) };
    let fields: Vec<String> = lits.iter().map(|l| l.text.clone()).collect();
    let text = layout(&mut c.src, &fields, sep);
    c.note(|| format!("{} fields, text {:?}", fields.len(), text.chars().take(200).collect::<String>()));
    c.nontrivial();
    let decimals: Vec<i64> = lits.iter().map(|l| l.decimals).collect();
    let (pe, pa) = (expected(&decimals, true), expected(&decimals, false));
    c.label(if pe != pa { "rare fields ignored" } else { "same with and without rare fields" });
    for l in lits.iter().take(100) {
        let got = get_decimal_precision(&l.text);
        ensure!(got as i64 == l.decimals, "{:?} is written with {} decimals, got {got}", l.text, l.decimals);
    }
    for (exact, want) in [(true, pe), (false, pa)] {
        let got = get_appropriate_precision(text.as_bytes(), sep, exact).map_err(|e| format!("exact={exact}: {e:#}").chars().take(200).collect::<String>())?;
        ensure!(got as i64 == want, "precision (exact={exact}) is {got}, the fields need {want}");
    }
    match get_appropriate_scale(text.as_bytes(), sep) {
        Ok(s) => ensure!(pa <= 9 && s as u64 == 10u64.pow(pa as u32), "scale {s}, the fields need 10^{pa}"),
        Err(e) => ensure!(pa > 9, "scale for 10^{pa}: {}", e.to_string().chars().take(200).collect::<String>()),
    }
    if pa <= 12 {
        // rounding to the scale found
        let scale = 10u64.pow(pa as u32);
        for l in lits.iter().take(50) {
            let v: f64 = l.text.parse().unwrap();
            if (v * scale as f64).abs() > 1e15 {
                continue;
            }
            let r = round_by_scale(v, scale as usize);
            let k = (r * scale as f64).round();
            ensure!(k / scale as f64 == r, "{v} rounded at scale {scale} is {r}, not a multiple");
            let tol = 0.5 + 4.0 * f64::EPSILON * (v * scale as f64).abs();
            ensure!((k - v * scale as f64).abs() <= tol, "{v} rounded at scale {scale} is {r}, too far");
            if l.decimals <= pa {
                ensure!(r == v, "{:?} rounded at scale {scale} is {r:?}", l.text);
            }
        }
    }
    // no field at all
    if c.src.chance(1, 20) {
        ensure!(get_appropriate_precision("\n\n,,\n".as_bytes(), ',', true).is_err(), "a precision for no field at all");
    }
    if pipeline {
        configs(c, &lits, &text, pe, pa)?;
    }
    Ok(())
}

/// The configurations written for a dataset, and what becomes of its numbers under each.
fn configs(c: &mut Ctx, lits: &[Literal], text: &str, pe: i64, pa: i64) -> Result<(), String> {
    let scratch = Scratch::new();
    let dir = scratch.dir("set");
    let csv = dir.join("d.csv");
    std::fs::write(&csv, text).unwrap();
    let exact = c.src.chance(2, 3);
    let out = scratch.0.join("conf");
    let mut args = vec!["-i", csv.to_str().unwrap(), "create-default-compressor-config", "-o", out.to_str().unwrap()];
    if exact {
        args.push("--exact-precision");
    }
    let ran = program("experimenter", &scratch.0, &args, None)?;
    ensure!(ran.ok(), "creating configurations ends with {:?}: {}", ran.code, ran.tail());
    let p = if exact { pe } else { pa };
    let values: Vec<f64> = lits.iter().map(|l| l.text.parse().unwrap()).collect();
    for name in NAMES {
        let f = std::fs::read(out.join(format!("{name}.json"))).map_err(|e| format!("no configuration for {name}: {e}"))?;
        let conf: CompressionConfig = serde_json::from_slice(&f).map_err(|e| format!("{name}: {e}"))?;
        ensure!(conf.chunk_option == DEFAULT_CHUNK_OPTION, "{name}: chunk option {:?}", conf.chunk_option);
        let cc: CompressorConfig = conf.compressor_config;
        let scaled = matches!(name, "delta_sprintz" | "buff");
        if scaled {
            ensure!(cc.scale() == Some(10u64.pow(p as u32)), "{name}: scale {:?} for {p} decimals", cc.scale());
        }
        let file = encode(&values, cc, ChunkOption::Full).map_err(|e| format!("{name}: {e}"))?;
        let mut d = open(&file).map_err(|e| format!("{name}: {e}"))?;
        let mut o = ebi::api::decoder::DecoderOutput::from_vec(Vec::new());
        d.materialize(&mut o, None, None).map_err(|e| format!("{name}: {e}"))?;
        let got = doubles(o.into_writer().get_ref());
        ensure!(got.len() == values.len(), "{name}: {} values became {}", values.len(), got.len());
        let scale = 10f64.powi(p as i32);
        for (i, (g, v)) in got.iter().zip(&values).enumerate() {
            let ok = if !scaled {
                same(*g, *v)
            } else if lits[i].decimals <= p {
                // every digit written is kept
                (g * scale).round() == (v * scale).round()
            } else {
                (g - v).abs() <= 1.0 / scale
            };
            ensure!(ok, "{name} with {p} decimals (exact={exact}): {:?} comes back as {g:?}", lits[i].text);
        }
    }
    ensure!(std::fs::read_dir(&out).unwrap().count() == NAMES.len(), "unexpected configurations");
    c.label("configurations");
    Ok(())
}

fn main() {
    run(Prop {
        id: "C23",
        rule: "A case is a delimited text of 1-900 decimal literals (signs, missing integer or fraction part, lower and upper case exponents, up to 16 decimals, a few fields with more decimals than the rest around the one-percent border) in various layouts. Oracle: decimals as written (digits after the point minus the exponent); exact precision = the most any field has; otherwise the largest p that at least one field in a hundred reaches; scale = 10^p or an error where that does not fit; rounding at a scale gives the nearest multiple and keeps values written with fewer decimals. One case in 40 runs the program that writes the per-method configurations, reads them back, and encodes and decodes the numbers under each of the 13: lossless methods keep the bits, the bounded-precision ones every digit written when the precision is exact. Non-trivial: every case. Distinct: by the hash of all choices drawn.",
        assumptions: &["fields are numbers; |value| <= 9e5 with up to 9 decimals where the bounded-precision schemes are run"],
        quick_cases: 40_000,
        thorough_cases: 2_000_000,
        case_timeout_s: 60,
        check,
    })
}
