use ebi::decoder::query::{Predicate, Range, RangeValue};
use experimenter::{CompressionConfig, FilterConfig};
use harness::data::*;
use harness::source::Source;
use harness::{ensure, run, Ctx, Prop};
use htools::{bytes as le_bytes, program, Scratch};
use roaring::RoaringBitmap;
use serde_json::Value;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

const KEYS: [(&str, &str, Scheme); 12] = [
    ("uncompressed", "Uncompressed", Scheme::Uncompressed),
    ("chimp128", "Chimp128", Scheme::Chimp128),
    ("chimp", "Chimp", Scheme::Chimp),
    ("elf_on_chimp", "ElfOnChimp", Scheme::ElfOnChimp),
    ("elf", "Elf", Scheme::Elf),
    ("gorilla", "Gorilla", Scheme::Gorilla),
    ("rle", "RLE", Scheme::Rle),
    ("zstd", "Zstd", Scheme::Zstd),
    ("gzip", "Gzip", Scheme::Gzip),
    ("snappy", "Snappy", Scheme::Snappy),
    ("delta_sprintz", "DeltaSprintz", Scheme::Sprintz),
    ("buff", "BUFF", Scheme::Buff),
];

/// What one dataset and method was last measured on.
#[derive(Clone, Debug)]
struct Entry {
    n: usize,
    values: Vec<f64>,
    p: u32,
    filters: BTreeMap<String, Predicate>,
    in_memory: bool,
}
type Model = BTreeMap<String, BTreeMap<String, Entry>>;

/// Methods of bounded precision are left out where they cannot hold the data.
fn entry(key: &str, e: &Entry) -> Entry {
    if (key == "BUFF" && e.p > 12) || (key == "DeltaSprintz" && e.p > 9) {
        return Entry { n: 0, filters: BTreeMap::new(), ..e.clone() };
    }
    e.clone()
}

struct Data {
    stem: String,
    p: u32,
    values: Vec<f64>,
}

fn gen_data(s: &mut Source, stem: &str) -> Data {
    let p = if s.chance(1, 8) { s.range(9, 14) } else { s.range(0, 5) } as u32;
    let n = match s.below(3) {
        0 => s.urange(1, 4),
        _ => s.urange(1, 120),
    };
    let (q, _) = gen_grid(s, n, 1 << 20);
    let scale = 10u64.pow(p);
    Data { stem: stem.into(), p, values: q.into_iter().map(|q| grid_value(q.clamp(-(1 << 20), 1 << 20), scale) + 0.0).collect() }
}

/// The filters the tool writes for a dataset.
fn default_filters(v: &[f64]) -> BTreeMap<String, Predicate> {
    let mut v = v.to_vec();
    v.sort_by(|a, b| a.total_cmp(b));
    let n = v.len();
    let above = |x| Predicate::Range(Range::new(RangeValue::Exclusive(x), RangeValue::None));
    [
        ("greater_10th_percentile", above(v[n * 10 / 100])),
        ("greater_50th_percentile", above(v[n / 2])),
        ("greater_90th_percentile", above(v[n * 90 / 100])),
        ("eq", Predicate::Eq(v[n / 2])),
        ("ne", Predicate::Ne(v[n / 2])),
    ]
    .into_iter()
    .map(|(k, v)| (k.to_string(), v))
    .collect()
}

fn gen_filters(s: &mut Source, d: &Data) -> BTreeMap<String, Predicate> {
    (0..s.urange(0, 3))
        .map(|i| {
            let x = *s.pick(&d.values);
            let y = *s.pick(&d.values);
            let p = match s.below(4) {
                0 => Predicate::Eq(x),
                1 => Predicate::Ne(x),
                2 => Predicate::Range(Range::new(RangeValue::Inclusive(x.min(y)), RangeValue::Exclusive(x.max(y)))),
                _ => Predicate::Range(Range::new(RangeValue::None, RangeValue::Inclusive(x))),
            };
            (format!("f{i}"), p)
        })
        .collect()
}

struct World {
    binary: PathBuf,
    comp: PathBuf,
    filt: PathBuf,
    save: PathBuf,
    cwd: PathBuf,
}

impl World {
    fn write_data(&self, d: &Data) {
        std::fs::write(self.binary.join(format!("{}.bin", d.stem)), le_bytes(&d.values)).unwrap();
        let mut t = String::new();
        for (i, v) in d.values.iter().enumerate() {
            t.push_str(&format!("{:.*}", d.p as usize, v));
            t.push(if i % 7 == 6 || i + 1 == d.values.len() { '\n' } else { ',' });
        }
        std::fs::write(self.binary.parent().unwrap().join(format!("{}.csv", d.stem)), t).unwrap();
    }
    /// The configurations of one dataset by hand: a few methods and filters.
    fn write_configs(&self, s: &mut Source, d: &Data, methods: &[usize]) -> BTreeMap<String, Predicate> {
        let _ = std::fs::remove_dir_all(self.comp.join(&d.stem));
        let _ = std::fs::remove_dir_all(self.filt.join(&d.stem));
        std::fs::create_dir_all(self.comp.join(&d.stem)).unwrap();
        std::fs::create_dir_all(self.filt.join(&d.stem)).unwrap();
        for m in methods {
            let mut config = gen_config(s, KEYS[*m].2).config;
            config.set_scale(10u64.pow(d.p));
            let chunk = gen_chunk_option(s, d.values.len());
            let c = CompressionConfig { chunk_option: chunk, compressor_config: config };
            std::fs::write(self.comp.join(&d.stem).join(format!("{}.json", KEYS[*m].0)), serde_json::to_string(&c).unwrap()).unwrap();
        }
        let f = gen_filters(s, d);
        for (k, p) in &f {
            let c = FilterConfig { predicate: *p, chunk_id: None, bitmask: None };
            std::fs::write(self.filt.join(&d.stem).join(format!("{k}.json")), serde_json::to_string(&c).unwrap()).unwrap();
        }
        f
    }
    fn run(&self, input: Option<&Path>, flags: &[String], n: Option<usize>, in_memory: bool) -> Result<(), String> {
        let mut a: Vec<String> = vec![];
        if let Some(i) = input {
            a.push("-i".into());
            a.push(i.to_str().unwrap().into());
        }
        a.push(if input.is_some() { "all-patch".into() } else { "all".into() });
        for (k, v) in [("-c", &self.comp), ("-f", &self.filt), ("-b", &self.binary), ("-s", &self.save)] {
            a.push(k.into());
            a.push(v.to_str().unwrap().into());
        }
        if let Some(n) = n {
            a.push("--n".into());
            a.push(n.to_string());
        }
        if in_memory {
            a.push("--in-memory".into());
        }
        a.extend(flags.iter().cloned());
        let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
        let ran = program("experimenter", &self.cwd, &a, None)?;
        ensure!(ran.ok(), "{} ends with {:?}: {}", if input.is_some() { "all-patch" } else { "all" }, ran.code, ran.tail());
        Ok(())
    }
}

/// JSON that differs in no more than the last digits of numbers (KNOWN_FINDINGS.txt, C25).
fn alike(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => {
            x == y || matches!((x.as_f64(), y.as_f64()), (Some(x), Some(y)) if (x - y).abs() <= 1e-14 * x.abs().max(y.abs()))
        }
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| alike(x, y)),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).is_some_and(|w| alike(v, w))),
        _ => a == b,
    }
}

/// The records as the method keeps them (the fixed-point scheme keeps fewer bits).
fn kept(key: &str, e: &Entry) -> Result<Vec<f64>, String> {
    if key != "BUFF" || e.n == 0 {
        return Ok(e.values.clone());
    }
    let config = ebi::compressor::CompressorConfig::buff().scale(10u64.pow(e.p)).build().into();
    let b = encode(&e.values, config, ebi::encoder::ChunkOption::Full)?;
    materialize(&mut open(&b)?, None, None)
}

fn check_entry(at: &str, key: &str, v: &Value, e: &Entry) -> Result<(), String> {
    let kept = kept(key, e)?;
    let runs = |list: &Value, what: &str, ok: &dyn Fn(&str) -> bool, want: String| -> Result<(), String> {
        let l = list.as_array().ok_or(format!("{at}: no list of {what} runs"))?;
        ensure!(l.len() == e.n, "{at}: {} {what} runs instead of {}", l.len(), e.n);
        for r in l {
            ensure!(r["in_memory"] == Value::Bool(e.in_memory), "{at}: {what}: in_memory is {}", r["in_memory"]);
            let t = r["result_string"].as_str().unwrap_or("");
            ensure!(ok(t), "{at}: {what} reports {t:?} instead of {want}");
        }
        Ok(())
    };
    let n = e.values.len();
    let want = format!("number_of_records: {n}");
    runs(&v["compress"], "compress", &|t| t == want, want.clone())?;
    for r in v["compress"].as_array().unwrap() {
        ensure!(r["command_specific"]["uncompressed_size"] == 8 * n as u64, "{at}: uncompressed size {}", r["command_specific"]["uncompressed_size"]);
    }
    let size = |k: usize| -> Vec<String> {
        if e.in_memory {
            vec![format!("bytes: {}", 8 * k)]
        } else {
            // the description of a file
            vec![format!("len: {},", 8 * k), format!("len: {} ", 8 * k)]
        }
    };
    let sized = |t: &str, k: usize| size(k).iter().any(|w| if e.in_memory { t == w } else { t.contains(w.as_str()) });
    runs(&v["materialize"], "materialize", &|t| sized(t, n), format!("{} bytes", 8 * n))?;
    let max = kept.iter().copied().fold(f64::NEG_INFINITY, f64::max);
    runs(&v["max"], "max", &|t| t.parse::<f64>().is_ok_and(|x| x == max), format!("{max:?}"))?;
    let sum: f64 = kept.iter().sum();
    let mag: f64 = e.values.iter().map(|v| v.abs()).sum();
    runs(&v["sum"], "sum", &|t| t.parse::<f64>().is_ok_and(|x| close(x, sum, mag, n)), format!("{sum:?}"))?;
    let f = v["filters"].as_object().ok_or(format!("{at}: no filters"))?;
    ensure!(f.len() == e.filters.len(), "{at}: filters {:?} instead of {:?}", f.keys().collect::<Vec<_>>(), e.filters.keys().collect::<Vec<_>>());
    for (k, p) in &e.filters {
        let g = f.get(k).ok_or(format!("{at}: no filter {k}"))?;
        let b: RoaringBitmap = (0..n as u32).filter(|i| pred_holds(p, e.values[*i as usize])).collect();
        let want = format!("{b:?}");
        runs(&g["filter"], &format!("filter {k} {p:?}"), &|t| t == want, want.clone())?;
        runs(&g["filter_materialize"], &format!("filter-materialize {k} {p:?}"), &|t| sized(t, b.len() as usize), format!("{} bytes", 8 * b.len()))?;
    }
    Ok(())
}

/// Compare a result file with the model; `kept` tells which entries must be those of an earlier file.
fn check_file(v: &Value, model: &Model, old: Option<&Value>, fresh: &dyn Fn(&str, &str) -> bool) -> Result<usize, String> {
    ensure!(v["command_type"] == "All", "command type {}", v["command_type"]);
    let o = v.as_object().unwrap();
    for (d, m) in o {
        if d == "command_type" {
            continue;
        }
        for k in m.as_object().ok_or(format!("{d}: not a table"))?.keys() {
            ensure!(model.get(d).is_some_and(|t| t.contains_key(k)), "result for {d} under {k}, which was not asked for");
        }
    }
    let mut checked = 0;
    for (d, t) in model {
        for (k, e) in t {
            let r = &v[d.as_str()][k.as_str()];
            ensure!(!r.is_null(), "no result for {d} under {k}");
            let at = format!("{d} under {k}");
            check_entry(&at, k, r, e)?;
            if let Some(old) = old {
                if !fresh(d, k) {
                    ensure!(alike(r, &old[d.as_str()][k.as_str()]), "{at} was not to be measured again, yet its earlier result changed");
                }
            }
            checked += 1;
        }
    }
    Ok(checked)
}

fn check(c: &mut Ctx) -> Result<(), String> {
    let scratch = Scratch::new();
    let set = scratch.dir("set");
    let w = World { binary: scratch.dir("set/binary"), comp: scratch.dir("comp"), filt: scratch.dir("filt"), save: scratch.dir("save"), cwd: scratch.0.clone() };
    let names = ["alpha", "b-2", "x.1"];
    let mut datas: Vec<Data> = vec![];
    for name in names.iter().take(c.src.urange(1, 3)) {
        datas.push(gen_data(&mut c.src, name));
    }
    let create = c.src.chance(1, 4);
    let exact = create && c.src.flip();
    let methods: Vec<usize> = if create {
        (0..KEYS.len()).collect()
    } else {
        let k = c.src.urange(1, 3);
        let mut m: Vec<usize> = (0..k).map(|_| c.src.urange(0, KEYS.len() - 1)).collect();
        m.sort();
        m.dedup();
        m
    };
    let with_alp = |e: &mut BTreeMap<String, Entry>, entry: &Entry| {
        if create {
            e.insert("FFIAlp".into(), entry.clone());
        }
    };
    let n = if c.src.chance(1, 10) && !create { None } else { Some(c.src.urange(1, 3)) };
    let in_memory = c.src.flip();
    let mut flags: Vec<String> = vec![];
    if create {
        flags.push("--create-config".into());
        if exact {
            flags.push("--exact-precision".into());
        }
    }
    c.note(|| format!("{} datasets, methods {:?}, create={create} exact={exact} n={n:?} in_memory={in_memory}; first {:?}", datas.len(), methods.iter().map(|m| KEYS[*m].0).collect::<Vec<_>>(), &datas[0].values[..datas[0].values.len().min(6)]));
    let mut model: Model = BTreeMap::new();
    let mut filters: BTreeMap<String, BTreeMap<String, Predicate>> = BTreeMap::new();
    for d in &datas {
        w.write_data(d);
        let f = if create { default_filters(&d.values) } else { w.write_configs(&mut c.src, d, &methods) };
        filters.insert(d.stem.clone(), f.clone());
        let e = Entry { n: n.unwrap_or(10), values: d.values.clone(), p: d.p, filters: f, in_memory };
        let t = model.entry(d.stem.clone()).or_default();
        for m in &methods {
            t.insert(KEYS[*m].1.into(), entry(KEYS[*m].1, &e));
        }
        with_alp(t, &e);
    }
    w.run(None, &flags, n, in_memory)?;
    let out = set.join("result/all/000.json");
    let text = std::fs::read(&out).map_err(|e| format!("no result file: {e}"))?;
    let v: Value = serde_json::from_slice(&text).map_err(|e| format!("{}: {e}", out.display()))?;
    let k = check_file(&v, &model, None, &|_, _| true)?;
    c.label(format!("create={create}"));
    if k > 0 && datas.iter().any(|d| d.values.len() > 1) {
        c.nontrivial();
    }

    // measure some of it again, on data that changed
    for round in 0..c.src.urange(0, 2) {
        let before: Value = if round == 0 { v.clone() } else { serde_json::from_slice(&std::fs::read(set.join(format!("result/all_patch/{:03}.json", round - 1))).unwrap()).unwrap() };
        let from = if round == 0 { out.clone() } else { set.join(format!("result/all_patch/{:03}.json", round - 1)) };
        let keep_text = std::fs::read(&from).unwrap();
        if datas.len() < 3 && c.src.chance(1, 3) {
            let d = gen_data(&mut c.src, names[datas.len()]);
            datas.push(d);
        }
        let pd: Vec<bool> = datas.iter().map(|_| c.src.chance(1, 3)).collect();
        let mut pc: Vec<usize> = methods.iter().copied().filter(|_| c.src.chance(1, 3)).collect();
        if c.src.chance(1, 8) {
            pc.push(c.src.urange(0, KEYS.len() - 1));
        }
        let n = Some(c.src.urange(1, 3));
        let in_memory = c.src.flip();
        let mut flags: Vec<String> = vec![];
        if create {
            flags.push("--create-config".into());
            if exact {
                flags.push("--exact-precision".into());
            }
        }
        for (i, d) in datas.iter_mut().enumerate() {
            let new = !filters.contains_key(&d.stem);
            let change = new || c.src.flip();
            if change {
                if !new {
                    *d = gen_data(&mut c.src, names[i]);
                }
                w.write_data(d);
                let f = if create { default_filters(&d.values) } else { w.write_configs(&mut c.src, d, &methods) };
                filters.insert(d.stem.clone(), f);
            }
        }
        for (i, d) in datas.iter().enumerate() {
            if pd[i] {
                flags.push("--pd".into());
                flags.push(d.stem.clone());
            }
        }
        for m in &pc {
            flags.push("--pc".into());
            flags.push(KEYS[*m].0.into());
        }
        let mut fresh: Vec<(String, String)> = vec![];
        for (i, d) in datas.iter().enumerate() {
            let e = Entry { n: n.unwrap(), values: d.values.clone(), p: d.p, filters: filters[&d.stem].clone(), in_memory };
            let t = model.entry(d.stem.clone()).or_default();
            for m in &methods {
                if pd[i] || pc.contains(m) {
                    t.insert(KEYS[*m].1.into(), entry(KEYS[*m].1, &e));
                    fresh.push((d.stem.clone(), KEYS[*m].1.into()));
                }
            }
            if pd[i] && create {
                with_alp(t, &e);
                fresh.push((d.stem.clone(), "FFIAlp".into()));
            }
        }
        c.note(|| format!("patch {flags:?} n={n:?} in_memory={in_memory}"));
        w.run(Some(&from), &flags, n, in_memory)?;
        let res = set.join(format!("result/all_patch/{round:03}.json"));
        let text = std::fs::read(&res).map_err(|e| format!("no result file: {e}"))?;
        let v2: Value = serde_json::from_slice(&text).map_err(|e| format!("{}: {e}", res.display()))?;
        check_file(&v2, &model, Some(&before), &|d, k| fresh.iter().any(|(a, b)| a == d && b == k)).map_err(|e| format!("after patching {flags:?} with n={n:?}: {e}"))?;
        ensure!(std::fs::read(&from).ok() == Some(keep_text), "the patched file itself changed");
        c.label(if fresh.is_empty() { "nothing patched" } else { "patched" });
    }
    Ok(())
}

fn main() {
    run(Prop {
        id: "C26",
        rule: "A case is 1-3 datasets of 1-120 values on a decimal grid (0-14 decimals), with configurations of 1-3 methods and 0-3 filters each (or those the program creates itself: all methods, five filters), measured by `all` with 1-3 (or the default 10) repetitions in memory or through files, then 0-2 times `all-patch` on the latest result with generated dataset and method lists after some datasets, filters and repetition counts changed or a dataset appeared. Oracle: the result holds exactly the datasets and methods asked for; each has exactly the requested number of runs of every experiment (none for a method of bounded precision that cannot hold the data), whose reports agree with a reference evaluator over the data they were measured on; patching replaces exactly the named datasets and methods and leaves all others and its input file as they were. Non-trivial: some dataset has at least two values. Distinct: by the hash of all choices drawn.",
        assumptions: &["numbers kept over a patch may differ in the last digit, as JSON reading loses it (known finding of C25)", "the program's request to drop the machine's page cache is diverted to /dev/null"],
        quick_cases: 400,
        thorough_cases: 20_000,
        case_timeout_s: 300,
        check,
    })
}
