use ebi::compressor::CompressorConfig;
use experimenter::DEFAULT_CHUNK_OPTION;
use harness::data::*;
use harness::source::Source;
use harness::{ensure, run, Ctx, Prop};
use htools::{bytes as le_bytes, program, Scratch};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

/// The methods that can hold data of that scale.
fn methods(scale: Option<u64>) -> Vec<(&'static str, CompressorConfig)> {
    let mut v: Vec<(&'static str, CompressorConfig)> = vec![
        ("Uncompressed", CompressorConfig::uncompressed().build().into()),
        ("Chimp128", CompressorConfig::chimp128().build().into()),
        ("Chimp", CompressorConfig::chimp().build().into()),
        ("ElfOnChimp", CompressorConfig::elf_on_chimp().build().into()),
        ("Elf", CompressorConfig::elf().build().into()),
        ("Gorilla", CompressorConfig::gorilla().build().into()),
        ("RLE", CompressorConfig::rle().build().into()),
        ("Zstd", CompressorConfig::zstd().build().into()),
        ("Gzip", CompressorConfig::gzip().build().into()),
        ("Snappy", CompressorConfig::snappy().build().into()),
        ("FFIAlp", CompressorConfig::ffi_alp().build().into()),
    ];
    if let Some(s) = scale.filter(|s| *s <= u32::MAX as u64) {
        v.push(("DeltaSprintz", CompressorConfig::delta_sprintz().scale(s).build().into()));
    }
    if let Some(s) = scale.filter(|s| *s <= 10u64.pow(12)) {
        v.push(("BUFF", CompressorConfig::buff().scale(s).build().into()));
    }
    v
}

struct Series {
    label: i64,
    values: Vec<f64>,
}
struct Set {
    name: String,
    p: u32,
    train: Vec<Series>,
    test: Vec<Series>,
}

fn gen_series(s: &mut Source, len: usize, p: u32, classes: i64, near: Option<&[Series]>) -> Series {
    let scale = 10u64.pow(p);
    let label = s.irange(-1, classes - 2);
    let values = match near {
        // close to one of the training series
        Some(t) if s.chance(2, 3) => {
            let b = s.pick(t);
            let r = s.irange(0, 40);
            b.values.iter().map(|v| grid_value((v * scale as f64).round() as i64 + s.irange(-r, r), scale)).collect()
        }
        _ => gen_grid(s, len, 1 << 16).0.into_iter().map(|q| grid_value(q.clamp(-(1 << 16), 1 << 16), scale)).collect(),
    };
    Series { label, values }
}

fn gen_set(s: &mut Source, name: &str) -> Set {
    let p = if s.chance(1, 4) { s.range(7, 14) } else { s.range(0, 6) } as u32;
    let len = s.urange(1, 12);
    let classes = s.irange(1, 4);
    let train: Vec<Series> = (0..s.urange(1, 12)).map(|_| gen_series(s, len, p, classes, None)).collect();
    let test = (0..s.urange(1, 6)).map(|_| gen_series(s, len, p, classes, Some(&train))).collect();
    Set { name: name.into(), p, train, test }
}

/// The file of one half: the first line is not data.
fn tsv(s: &mut Source, set: &Set, half: &[Series]) -> String {
    let mut out = String::from("9");
    for i in 0..half[0].values.len() {
        out.push_str(&format!("\t{:.*}", set.p as usize, i as f64));
    }
    out.push('\n');
    let float_labels = set.p > 0 && s.chance(1, 4);
    for r in half {
        out.push_str(&if float_labels { format!("{}.0", r.label) } else { r.label.to_string() });
        for v in &r.values {
            // the archive writes missing values so; they count as zero
            if *v == 0.0 && s.chance(1, 4) {
                out.push_str("\tNaN");
            } else {
                out.push_str(&format!("\t{:.*}", set.p as usize, v));
            }
        }
        out.push('\n');
    }
    out
}

/// The least and greatest number of test series whose nearest training series has their label, when
/// every stored value may be off by `e`.
fn correct(set: &Set, e: f64) -> (usize, usize) {
    let (mut lo, mut hi) = (0, 0);
    for t in &set.test {
        let d: Vec<f64> = set
            .train
            .iter()
            .map(|r| r.values.iter().zip(&t.values).map(|(a, b)| (a - b) * (a - b)).sum::<f64>().sqrt())
            .collect();
        let min = d.iter().copied().fold(f64::INFINITY, f64::min);
        let slack = 2.0 * e * (t.values.len() as f64).sqrt() + 1e-9 * min;
        let near: Vec<bool> = d.iter().zip(&set.train).filter(|(d, _)| **d <= min + slack).map(|(_, r)| r.label == t.label).collect();
        lo += near.iter().all(|b| *b) as usize;
        hi += near.iter().any(|b| *b) as usize;
    }
    (lo, hi)
}

fn read_json(p: &Path) -> Result<Value, String> {
    let t = std::fs::read(p).map_err(|e| format!("no {}: {e}", p.file_name().unwrap().to_string_lossy()))?;
    serde_json::from_slice(&t).map_err(|e| format!("{}: {e}", p.display()))
}

fn ucr(c: &mut Ctx) -> Result<(), String> {
    let scratch = Scratch::new();
    let root = scratch.dir("up/archive");
    let out = scratch.dir("out");
    let mut sets = vec![];
    for name in ["Adiac", "Beef", "Car_2"].iter().take(c.src.urange(1, 2)) {
        let set = gen_set(&mut c.src, name);
        let adjusted = c.src.chance(1, 4);
        let d = if adjusted { root.join("Missing_value_and_variable_length_datasets_adjusted").join(name) } else { root.join(name) };
        std::fs::create_dir_all(&d).unwrap();
        let (a, b) = (tsv(&mut c.src, &set, &set.train), tsv(&mut c.src, &set, &set.test));
        std::fs::write(d.join(format!("{name}_TRAIN.tsv")), a).unwrap();
        std::fs::write(d.join(format!("{name}_TEST.tsv")), b).unwrap();
        sets.push(set);
    }
    c.note(|| sets.iter().map(|s| format!("{} decimals={} train={} test={} first={:?}", s.name, s.p, s.train.len(), s.test.len(), s.train[0].values)).collect::<Vec<_>>().join("; "));
    c.label("ucr2018");
    if c.src.chance(1, 4) {
        // loose files beside the sets
        std::fs::write(root.join("README.md"), "x").unwrap();
    }
    let ran = program("experimenter", &scratch.0, &["-i", root.to_str().unwrap(), "ucr2018", "-o", out.to_str().unwrap()], None)?;
    ensure!(ran.ok(), "ucr2018 ends with {:?}: {}", ran.code, ran.tail());
    let dir = scratch.0.join("up/result/ucr2018/000");
    let mut files: BTreeSet<String> = std::fs::read_dir(&dir).map_err(|e| format!("no results: {e}"))?.map(|e| e.unwrap().file_name().to_string_lossy().into_owned()).collect();
    let mut jobs: Vec<(String, Option<u32>, String)> = methods(Some(1)).into_iter().map(|(m, _)| (m.to_string(), None, format!("{m}.json"))).collect();
    for p in [1, 3, 5, 8] {
        jobs.push(("BUFF".into(), Some(p), format!("BUFF_{p}.json")));
    }
    for (m, prec, file) in jobs {
        let v = read_json(&dir.join(&file))?;
        files.remove(&file);
        ensure!(v["command_type"] == "UCR2018", "{file}: {}", v["command_type"]);
        let r = v["results"].as_object().ok_or(format!("{file}: no results"))?;
        let able = |s: &Set| methods(Some(10u64.pow(s.p))).iter().any(|(k, _)| *k == m);
        let count = sets.iter().filter(|s| able(s)).count();
        ensure!(r.len() == count, "{file}: {} datasets instead of {count}", r.len());
        for set in sets.iter().filter(|s| able(s)) {
            let at = format!("{file}, {}", set.name);
            let r = r.get(&set.name).ok_or(format!("{at}: nothing"))?;
            let scale = 10u64.pow(set.p);
            ensure!(r["dataset_name"] == set.name.as_str(), "{at}: named {}", r["dataset_name"]);
            ensure!(r["config"]["precision"] == prec.map_or(-1, |p| p as i64), "{at}: precision {}", r["config"]["precision"]);
            let flat: Vec<f64> = set.train.iter().flat_map(|s| s.values.clone()).collect();
            let config = methods(Some(scale)).into_iter().find(|(k, _)| *k == m).unwrap().1;
            ensure!(r["compression_config"]["compressor_config"] == serde_json::to_value(config).unwrap(), "{at}: stored with {}", r["compression_config"]);
            let b = encode(&flat, config, DEFAULT_CHUNK_OPTION)?;
            ensure!(r["compression_statistics"]["uncompressed_size"] == 8 * flat.len() as u64, "{at}: uncompressed size {}", r["compression_statistics"]["uncompressed_size"]);
            ensure!(r["compression_statistics"]["compressed_size"] == b.len() as u64, "{at}: compressed size {} instead of {}", r["compression_statistics"]["compressed_size"], b.len());
            let mut d = open(&b)?;
            if let Some(p) = prec {
                d.with_precision(p.min(set.p));
            }
            let kept = materialize(&mut d, None, None)?;
            let want = format!("{:?}", kept.iter().take(5).collect::<Vec<_>>());
            for t in r["decompression_result"]["result_string"].as_array().ok_or(format!("{at}: no decompression"))? {
                ensure!(t == want.as_str(), "{at}: decompressed {t} instead of {want}");
            }
            let e = kept.iter().zip(&flat).map(|(a, b)| (a - b).abs()).fold(0.0, f64::max);
            if m != "BUFF" {
                ensure!(e == 0.0, "{at}: the stored values are off by {e}");
            }
            let bound = if m == "BUFF" { 10f64.powi(-(prec.unwrap_or(set.p).min(set.p) as i32)) } else { 0.0 };
            ensure!(e <= bound, "{at}: the stored values are off by {e}");
            let (lo, hi) = correct(set, e);
            let acc = r["accuracy"].as_f64().ok_or(format!("{at}: no accuracy"))?;
            let k = acc * set.test.len() as f64;
            ensure!(k >= lo as f64 - 1e-6 && k <= hi as f64 + 1e-6 && (k - k.round()).abs() < 1e-6, "{at}: accuracy {acc}, but {lo} to {hi} of {} are right", set.test.len());
            let times = r["elapsed_time_nanos"].as_array().map(|l| l.len());
            ensure!(times == Some(set.test.len()), "{at}: timings of {times:?} test series instead of {}", set.test.len());
            if lo == hi && set.train.len() > 1 {
                c.nontrivial();
            }
        }
    }
    ensure!(files.is_empty(), "unexpected results {files:?}");
    Ok(())
}

fn embedding(c: &mut Ctx) -> Result<(), String> {
    let scratch = Scratch::new();
    let dir = scratch.dir("up/emb");
    let out = scratch.dir("out");
    let mut sets: BTreeMap<String, (u64, f64, Vec<f64>)> = BTreeMap::new();
    for name in ["a", "b.1", "c d"].iter().take(c.src.urange(1, 3)) {
        let n = c.src.urange(1, 60);
        let (p, values) = if c.src.chance(1, 4) {
            // beyond the bounded-precision schemes
            (c.src.range(13, 25), gen_values(&mut c.src, n).0)
        } else {
            let p = c.src.range(0, 12);
            (p, gen_grid(&mut c.src, n, 1 << 20).0.into_iter().map(|q| grid_value(q.clamp(-(1 << 20), 1 << 20), 10u64.pow(p as u32))).collect())
        };
        let values: Vec<f64> = values.into_iter().map(|v| if v.is_finite() { v } else { 1.5 }).collect();
        let shown = p as f64 + *c.src.pick(&[0.0, 0.3, -0.4]);
        std::fs::write(dir.join(format!("{name}.bin")), le_bytes(&values)).unwrap();
        sets.insert(name.to_string(), (p, shown.max(0.0), values));
    }
    let map: BTreeMap<&str, f64> = sets.iter().map(|(k, v)| (k.as_str(), v.1)).collect();
    std::fs::write(dir.join("precision_data.json"), serde_json::to_string(&map).unwrap()).unwrap();
    c.note(|| sets.iter().map(|(k, v)| format!("{k} decimals={} {:?}", v.0, &v.2[..v.2.len().min(6)])).collect::<Vec<_>>().join("; "));
    c.label("embedding");
    let ran = program("experimenter", &scratch.0, &["-i", dir.to_str().unwrap(), "embedding", "-o", out.to_str().unwrap()], None)?;
    ensure!(ran.ok(), "embedding ends with {:?}: {}", ran.code, ran.tail());
    let v = read_json(&scratch.0.join("up/result/embedding/000/embedding_result.json"))?;
    for k in v.as_object().ok_or("no table")?.keys() {
        ensure!(k == "command_type" || sets.contains_key(k), "unexpected dataset {k}");
    }
    for (name, (p, _, values)) in &sets {
        let t = v[name.as_str()].as_object().ok_or(format!("nothing for {name}"))?;
        let ms = methods(10u64.checked_pow(*p as u32));
        ensure!(t.len() == ms.len(), "{name}: methods {:?}", t.keys().collect::<Vec<_>>());
        for (m, config) in ms {
            let at = format!("{name} under {m}");
            let r = t.get(m).ok_or(format!("nothing for {at}"))?;
            ensure!(r["compression_config"]["compressor_config"] == serde_json::to_value(config).unwrap(), "{at}: stored with {}", r["compression_config"]);
            ensure!(r["precision"] == *p, "{at}: precision {} instead of {p}", r["precision"]);
            let b = encode(values, config, DEFAULT_CHUNK_OPTION)?;
            let k = r["n"].as_u64().unwrap_or(0) as usize;
            ensure!(k > 0, "{at}: no runs");
            for l in ["compression_statistics", "compression_elapsed_time_nanos", "decompression_elapsed_time_nanos", "decompression_result_string"] {
                ensure!(r[l].as_array().map(|l| l.len()) == Some(k), "{at}: {l} of {k} runs has {:?} entries", r[l].as_array().map(|l| l.len()));
            }
            for st in r["compression_statistics"].as_array().unwrap() {
                ensure!(st["uncompressed_size"] == 8 * values.len() as u64, "{at}: uncompressed size {}", st["uncompressed_size"]);
                ensure!(st["compressed_size"] == b.len() as u64, "{at}: compressed size {} instead of {}", st["compressed_size"], b.len());
            }
            let kept = le_bytes(&materialize(&mut open(&b)?, None, None)?);
            if m != "BUFF" {
                same_bits(&to_f64s(&kept), values).map_err(|e| format!("{at}: {e}"))?;
            }
            let want = format!("{:?}", &kept[..5]);
            for t in r["decompression_result_string"].as_array().unwrap() {
                ensure!(t == want.as_str(), "{at}: decompressed {t} instead of {want}");
            }
        }
        if values.len() > 1 {
            c.nontrivial();
        }
    }
    Ok(())
}

fn check(c: &mut Ctx) -> Result<(), String> {
    if c.src.chance(1, 4) {
        embedding(c)
    } else {
        ucr(c)
    }
}

fn main() {
    run(Prop {
        id: "C28",
        rule: "A case is either 1-2 classification sets (1-12 training and 1-6 test series of 1-12 values on a decimal grid of 0-14 decimals, missing values, integer or floating labels, some in the folder of adjusted sets) measured by `ucr2018`, or 1-3 binary datasets with a precision file measured by `embedding`. Oracle: results for exactly the sets and methods (the bounded-precision ones only where they can hold the decimals); the configuration and sizes are those the library gives for the data; the decompressed sample is the data (for the fixed-point scheme, within its bound); the accuracy is the share of test series whose nearest training series (brute force; ties and the bound may go either way) has their label. Non-trivial: an accuracy without ties among at least two training series, or a dataset of at least two values. Distinct: by the hash of all choices drawn.",
        assumptions: &["the first line of a set's file is not data, as the program documents by skipping it", "the program's request to drop the machine's page cache is diverted to /dev/null"],
        quick_cases: 1500,
        thorough_cases: 20_000,
        case_timeout_s: 300,
        check,
    })
}
