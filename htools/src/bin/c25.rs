use ebi::api::decoder::ChunkId;
use ebi::decoder::query::{Predicate, Range, RangeValue};
use experimenter::{CompressionConfig, FilterConfig, MaterializeConfig, SumConfig};
use harness::data::*;
use harness::{ensure, run, Ctx, Prop};
use htools::{bytes as le_bytes, doubles, program, Scratch};
use roaring::RoaringBitmap;
use serde_json::Value;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

/// Reading a number back from JSON may be one unit in the last place off (see KNOWN_FINDINGS.txt):
/// a constant that survives, next to the one given.
fn survives(v: f64) -> bool {
    v.is_finite() && serde_json::from_str::<f64>(&serde_json::to_string(&v).unwrap()).is_ok_and(|w| w.to_bits() == v.to_bits())
}
fn stable(mut v: f64) -> f64 {
    if !v.is_finite() {
        return if v > 0.0 { 1e17 } else { -1e17 };
    }
    for _ in 0..20 {
        if survives(v) {
            return v;
        }
        let w = serde_json::from_str::<f64>(&serde_json::to_string(&v).unwrap()).unwrap_or(1e17);
        if !w.is_finite() {
            return 1e17;
        }
        v = w;
    }
    1.0
}
fn stable_pred(p: Predicate) -> Predicate {
    let r = |v| match v {
        RangeValue::Inclusive(x) => RangeValue::Inclusive(stable(x)),
        RangeValue::Exclusive(x) => RangeValue::Exclusive(stable(x)),
        RangeValue::None => RangeValue::None,
    };
    match p {
        Predicate::Eq(x) => Predicate::Eq(stable(x)),
        Predicate::Ne(x) => Predicate::Ne(stable(x)),
        Predicate::Range(Range { start, end }) => Predicate::Range(Range::new(r(start), r(end))),
    }
}

fn tree(d: &Path, out: &mut BTreeMap<PathBuf, Vec<u8>>) {
    if let Ok(rd) = std::fs::read_dir(d) {
        for e in rd.flatten() {
            let p = e.path();
            if p.is_dir() {
                tree(&p, out);
            } else {
                out.insert(p.clone(), std::fs::read(&p).unwrap_or_default());
            }
        }
    }
}

#[derive(Clone)]
struct Cli {
    set: PathBuf,
    bin: PathBuf,
    ebi: PathBuf,
    conf: PathBuf,
}

impl Cli {
    /// Run one command; the parsed result file it adds (and nothing else under `result`).
    fn go(&self, dir: &str, command: &str, on_bin: bool, config: &str, in_memory: Option<bool>) -> Result<Value, String> {
        std::fs::write(&self.conf, config).unwrap();
        let input = if on_bin { self.bin.clone() } else { self.ebi.clone() };
        let mut before = BTreeMap::new();
        tree(&self.set.join("result"), &mut before);
        let mut args = vec!["-i", input.to_str().unwrap(), command, "-c", self.conf.to_str().unwrap()];
        if let Some(m) = in_memory {
            args.push("--in-memory");
            args.push(if m { "true" } else { "false" });
        }
        let ran = program("experimenter", &self.set, &args, None)?;
        ensure!(ran.ok(), "{command} ends with {:?}: {}", ran.code, ran.tail());
        let mut after = BTreeMap::new();
        tree(&self.set.join("result"), &mut after);
        for (p, b) in &before {
            ensure!(after.get(p) == Some(b), "{command} changed the earlier result {}", p.display());
        }
        let at = self.set.join("result").join("d").join(dir);
        let name = |k: usize| at.join(format!("{k:03}.json"));
        // the next free number: the least unused one, or the one after the greatest
        let first = (0..).find(|k| !before.contains_key(&name(*k))).unwrap();
        let last = (0..1000).rev().find(|k| before.contains_key(&name(*k))).map_or(0, |k| k + 1);
        let want = if after.contains_key(&name(first)) { name(first) } else { name(last) };
        ensure!(after.len() == before.len() + 1 && after.contains_key(&want), "{command} did not add {} and nothing else: {}", want.display(), ran.tail());
        let v: Value = serde_json::from_slice(&after[&want]).map_err(|e| format!("{}: {e}", want.display()))?;
        ensure!(v["in_memory"] == Value::Bool(in_memory.unwrap_or(false)), "{command}: in_memory is {}", v["in_memory"]);
        ensure!(v["input_filename"].as_str() == input.to_str(), "{command}: input is {}", v["input_filename"]);
        Ok(v)
    }
}

fn check(c: &mut Ctx) -> Result<(), String> {
    let scratch = Scratch::new();
    let set = scratch.dir("set");
    scratch.dir("set/binary");
    let cli = Cli {
        bin: set.join("binary/d.bin"),
        ebi: set.join("binary/d.ebi"),
        conf: scratch.0.join("conf.json"),
        set,
    };
    let setup = gen_query_scheme(&mut c.src);
    let n = match c.src.below(5) {
        0 => c.src.urange(1, 5),
        4 => c.src.urange(1, 1500),
        _ => c.src.urange(1, 200),
    };
    let content = gen_content(&mut c.src, setup, n, false);
    c.label(format!("scheme={:?}", content.setup.scheme));
    c.note(|| content.describe());
    std::fs::write(&cli.bin, le_bytes(&content.values)).unwrap();

    // earlier results, of which some were deleted
    if c.src.chance(1, 4) {
        for dir in ["compress", "filter", "filter_materialize", "materialize", "max", "sum"] {
            let d = scratch.dir(&format!("set/result/d/{dir}"));
            for k in 0..4 {
                if c.src.chance(1, 3) {
                    std::fs::write(d.join(format!("{k:03}.json")), format!("earlier {k}")).unwrap();
                }
            }
        }
        c.label("earlier results with gaps");
    }

    // filter configurations for the dataset
    if c.src.chance(1, 4) {
        filter_configs(c, &cli, &content)?;
    }

    // compress
    let conf = CompressionConfig { chunk_option: content.chunk, compressor_config: content.setup.config };
    let conf_text = serde_json::to_string(&conf).unwrap();
    let mem = *c.src.pick(&[None, Some(true), Some(false)]);
    if c.src.chance(1, 6) {
        // an earlier, longer file
        std::fs::write(&cli.ebi, vec![0x55u8; 40_000]).unwrap();
    }
    let v = cli.go("compress", "compress", true, &conf_text, mem)?;
    let file = std::fs::read(&cli.ebi).map_err(|e| format!("no compressed file: {e}"))?;
    ensure!(v["command_type"] == "Compress", "command type {}", v["command_type"]);
    ensure!(v["result_string"] == format!("number_of_records: {n}"), "compress of {n} records reports {}", v["result_string"]);
    let st = &v["command_specific"];
    ensure!(st["uncompressed_size"] == n as u64 * 8, "uncompressed size {} of {n} records", st["uncompressed_size"]);
    ensure!(st["compressed_size"] == file.len() as u64, "compressed size {}, the file has {} bytes", st["compressed_size"], file.len());
    let ratio = st["compression_ratio"].as_f64().unwrap_or(f64::NAN);
    let want_ratio = file.len() as f64 / (n * 8) as f64;
    ensure!((ratio - want_ratio).abs() <= 1e-12 * want_ratio, "compression ratio {ratio} instead of {want_ratio}");
    ensure!(v["compression_config"] == serde_json::to_value(&conf).unwrap(), "compressed with {} instead of {conf_text}", v["compression_config"]);
    let mut d = open(&file)?;
    let st = chunk_starts(&d, n)?;
    ensure!(without_times(&file)? == without_times(&encode(&content.values, content.setup.config, content.chunk)?)?, "the compressed file differs from what the library encodes");
    let full = materialize(&mut d, None, None)?;
    if content.setup.scale.is_none() {
        same_bits(&full, &content.values)?;
    }

    for _ in 0..c.src.urange(1, 4) {
        let mask = gen_mask(&mut c.src, n, &st);
        let chunk = gen_chunk_id(&mut c.src, st.len() - 1);
        let mem = *c.src.pick(&[None, Some(true), Some(false)]);
        let file_mode = mem != Some(true);
        let chunk_id = chunk.map(ChunkId::new);
        let bitmask: Option<Vec<u32>> = mask.as_ref().map(|m| m.iter().collect());
        let p = stable_pred(gen_predicate_fine(&mut c.src, &content));
        let sel: Vec<usize> = (0..n).filter(|i| selected(*i, mask.as_ref(), chunk, &st)).collect();
        let filtered = |got: &RoaringBitmap| -> RoaringBitmap {
            sel.iter()
                .filter(|i| pred_fine(&p, content.values[**i], &content).unwrap_or_else(|| got.contains(**i as u32)))
                .map(|i| *i as u32)
                .collect()
        };
        // records the fixed-point scheme may put on either side: as the library decides
        let lib = d.filter(p, mask.as_ref(), chunk_id).map_err(|e| format!("filter failed: {e}"))?;
        let want = filtered(&lib);
        let op = c.src.below(5);
        let name = ["filter", "filter-materialize", "materialize", "max", "sum"][op as usize];
        c.note(|| format!("{name} {p:?} mask={} chunk={chunk:?} in_memory={mem:?}", fmt_mask(&mask)));
        c.label(format!("command={name}"));
        let fc = serde_json::to_string(&FilterConfig { predicate: p, chunk_id, bitmask: bitmask.clone() }).unwrap();
        let mc = serde_json::to_string(&MaterializeConfig { chunk_id, bitmask: bitmask.clone() }).unwrap();
        let sc = serde_json::to_string(&SumConfig { chunk_id, bitmask }).unwrap();
        let sent: Value = serde_json::from_str(if op < 2 { &fc } else { &mc }).unwrap();
        let v = match op {
            0 => {
                let v = cli.go("filter", name, false, &fc, mem)?;
                ensure!(v["result_string"] == format!("{want:?}"), "filter {p:?} mask={} chunk={chunk:?} reports {} instead of {want:?}", fmt_mask(&mask), v["result_string"]);
                v
            }
            1 | 2 => {
                let (dir, ext, values): (&str, &str, Vec<f64>) = if op == 1 {
                    ("filter_materialize", "filter_materialized", want.iter().map(|i| full[i as usize]).collect())
                } else {
                    ("materialize", "materialized", sel.iter().map(|i| full[*i]).collect())
                };
                let out = cli.ebi.with_extension(ext);
                let _ = std::fs::remove_file(&out);
                if c.src.chance(1, 4) {
                    std::fs::write(&out, vec![0xaau8; 20_000]).unwrap();
                }
                let v = cli.go(dir, name, false, if op == 1 { &fc } else { &mc }, mem)?;
                if file_mode {
                    let got = doubles(&std::fs::read(&out).map_err(|e| format!("{name}: no output file: {e}"))?);
                    same_bits(&got, &values).map_err(|e| format!("{name} mask={} chunk={chunk:?}: {e}", fmt_mask(&mask)))?;
                    ensure!(std::fs::metadata(&out).unwrap().len() == 8 * values.len() as u64, "{name}: output of {} bytes", std::fs::metadata(&out).unwrap().len());
                } else {
                    ensure!(v["result_string"] == format!("bytes: {}", 8 * values.len()), "{name} reports {} for {} values", v["result_string"], values.len());
                }
                v
            }
            _ => {
                let v = cli.go(name, name, false, &sc, mem)?;
                let got: f64 = v["result_string"].as_str().and_then(|t| t.parse().ok()).ok_or(format!("{name} reports {}", v["result_string"]))?;
                let vals: Vec<f64> = sel.iter().map(|i| full[*i]).collect();
                if op == 3 {
                    let want = vals.iter().copied().fold(f64::NEG_INFINITY, f64::max);
                    ensure!(got == want, "max mask={} chunk={chunk:?} is {got:?} instead of {want:?}", fmt_mask(&mask));
                } else {
                    let mag: f64 = vals.iter().map(|v| v.abs()).sum();
                    if mag < 1e300 {
                        let want: f64 = vals.iter().sum();
                        ensure!(close(got, want, mag, vals.len()), "sum mask={} chunk={chunk:?} is {got:?} instead of {want:?}", fmt_mask(&mask));
                    }
                }
                v
            }
        };
        ensure!(v["command_specific"] == sent, "{name}: the recorded configuration is {}", v["command_specific"]);
        ensure!(v["compression_config"]["chunk_option"] == serde_json::to_value(content.chunk).unwrap(), "{name}: the recorded chunk option is {}", v["compression_config"]["chunk_option"]);
        ensure!(std::fs::read(&cli.ebi).ok().as_deref() == Some(&file[..]), "{name} changed the compressed file");
        ensure!(std::fs::read(&cli.bin).ok() == Some(le_bytes(&content.values)), "{name} changed the dataset");
        if sel.len() >= 2 && (op > 1 || !want.is_empty()) {
            c.nontrivial();
        }
        if c.src.chance(1, 5) {
            let text = [&fc, &fc, &mc, &sc, &sc][op as usize].clone();
            let (dir, ext) = match op {
                1 => ("filter_materialize", Some("filter_materialized")),
                2 => ("materialize", Some("materialized")),
                _ => (name, None),
            };
            full_disk(c, &cli, dir, name, false, &text, mem, ext.filter(|_| file_mode))?;
            return Ok(());
        }
    }
    if c.src.chance(1, 8) {
        full_disk(c, &cli, "compress", "compress", true, &conf_text, mem, Some("ebi"))?;
    }
    Ok(())
}

/// The last command again, on a disk that holds no file larger than a limit: what the program calls
/// finished has the result file and the output it has on a larger disk.
#[allow(clippy::too_many_arguments)]
fn full_disk(c: &mut Ctx, cli: &Cli, dir: &str, command: &str, on_bin: bool, config: &str, mem: Option<bool>, ext: Option<&str>) -> Result<(), String> {
    let out = ext.map(|e| cli.ebi.with_extension(e));
    let v = cli.go(dir, command, on_bin, config, mem)?;
    let content = |p: &PathBuf| -> Option<Vec<u8>> {
        let b = std::fs::read(p).ok()?;
        if p.extension().is_some_and(|e| e == "ebi") {
            return without_times(&b).ok();
        }
        Some(b)
    };
    let good = out.as_ref().map(content);
    let limit = c.src.range(0, 6);
    let input = if on_bin { cli.bin.clone() } else { cli.ebi.clone() };
    let mut args = vec!["-i", input.to_str().unwrap(), command, "-c", cli.conf.to_str().unwrap()];
    if let Some(m) = mem {
        args.push("--in-memory");
        args.push(if m { "true" } else { "false" });
    }
    c.note(|| format!("{command} with files limited to {limit} blocks"));
    let mut before = BTreeMap::new();
    tree(&cli.set.join("result"), &mut before);
    let ran = program("experimenter", &cli.set, &args, Some(limit))?;
    if !ran.stdout.contains("Finished processing file") {
        ensure!(!ran.ok() || ran.stderr.contains("Failed to process file"), "{command} with files limited to {limit} blocks says neither that it finished nor that it failed");
        c.label("failed write reported");
        return Ok(());
    }
    let mut after = BTreeMap::new();
    tree(&cli.set.join("result"), &mut after);
    let new: Vec<_> = after.iter().filter(|(p, b)| before.get(*p) != Some(b)).collect();
    ensure!(new.len() == 1 && !before.contains_key(new[0].0), "{command} with files limited to {limit} blocks is called finished and changed {:?}", new.iter().map(|n| n.0).collect::<Vec<_>>());
    let text = new[0].1;
    let w: Value = serde_json::from_slice(text).map_err(|e| format!("{command} with files limited to {limit} blocks is called finished, its result file of {} bytes is broken: {e}", text.len()))?;
    // where the output goes to a file, the result describes that file, with its times
    ensure!(command == "compress" || out.is_some() || w["result_string"] == v["result_string"], "{command} with files limited to {limit} blocks reports {} instead of {}", w["result_string"], v["result_string"]);
    ensure!(out.as_ref().map(content) == good, "{command} with files limited to {limit} blocks is called finished, its output differs");
    c.label("finished within the limit");
    Ok(())
}

fn text_number(v: &Value) -> Option<f64> {
    // the digits as written, read exactly
    v.as_number().and_then(|n| n.to_string().parse().ok())
}

/// The five filters the tool writes for a dataset: above its 10th, 50th and 90th percentile, equal
/// to and different from its median.
fn filter_configs(c: &mut Ctx, cli: &Cli, content: &Content) -> Result<(), String> {
    let own = c.src.flip();
    let out = if own { cli.set.join("elsewhere/f") } else { cli.set.join("filter_config/d") };
    let mut args = vec!["-i", cli.bin.to_str().unwrap(), "create-filter-config"];
    if own {
        args.push("-o");
        args.push(out.to_str().unwrap());
    }
    let ran = program("experimenter", &cli.set, &args, None)?;
    ensure!(ran.ok(), "create-filter-config ends with {:?}: {}", ran.code, ran.tail());
    let mut v = content.values.clone();
    let n = v.len();
    let nan = v.iter().any(|x| x.is_nan());
    v.sort_by(|a, b| a.total_cmp(b));
    let at = [v[n * 10 / 100], v[n / 2], v[n * 90 / 100]];
    let mut files = BTreeMap::new();
    tree(&out, &mut files);
    if nan || at.iter().any(|x| !x.is_finite()) {
        ensure!(files.is_empty(), "{} filter configurations for a dataset that has none", files.len());
        c.label("no filter configurations");
        return Ok(());
    }
    ensure!(files.len() == 5, "{} filter configurations: {}", files.len(), ran.tail());
    for (name, kind, want) in [
        ("greater_10th_percentile", "Range", at[0]),
        ("greater_50th_percentile", "Range", at[1]),
        ("greater_90th_percentile", "Range", at[2]),
        ("eq", "Eq", at[1]),
        ("ne", "Ne", at[1]),
    ] {
        let f = files.get(&out.join(format!("{name}.json"))).ok_or(format!("no {name}"))?;
        let t = String::from_utf8_lossy(f).into_owned();
        let v: Value = serde_json::from_str(&t).map_err(|e| format!("{name}: {e}"))?;
        ensure!(v["predicate"]["type"] == kind, "{name}: {}", v["predicate"]);
        ensure!(v["chunk_id"].is_null() && v["bitmask"].is_null(), "{name}: {t}");
        let p = &v["predicate"]["predicate"];
        let x = if kind == "Range" {
            ensure!(p["end"] == "None", "{name}: {p}");
            &p["start"]["Exclusive"]
        } else {
            p
        };
        ensure!(x.is_number(), "{name}: {p}");
        // the digits written must be those of the record
        let digits = serde_json::to_string(&want).unwrap();
        let written = t.contains(&digits) || text_number(x).is_some_and(|y| y == want || !survives(want));
        ensure!(written, "{name} has {x}, the dataset's is {want:?}");
    }
    c.label("filter configurations");
    Ok(())
}

/// The one recorded finding of this property: constants do not always survive JSON.
fn known_finding() {
    let v = 39.430133835633676f64;
    let r = (|| -> Result<String, String> {
        let scratch = Scratch::new();
        scratch.dir("set/binary");
        let bin = scratch.0.join("set/binary/d.bin");
        std::fs::write(&bin, le_bytes(&[v])).unwrap();
        let b = bin.to_str().unwrap();
        program("experimenter", &scratch.0, &["-i", b, "create-filter-config"], None)?;
        let comp = scratch.0.join("c.json");
        let cc = CompressionConfig { chunk_option: ebi::encoder::ChunkOption::Full, compressor_config: ebi::compressor::CompressorConfig::uncompressed().build().into() };
        std::fs::write(&comp, serde_json::to_string(&cc).unwrap()).unwrap();
        program("experimenter", &scratch.0, &["-i", b, "compress", "-c", comp.to_str().unwrap()], None)?;
        let eq = scratch.0.join("set/filter_config/d/eq.json");
        let e = bin.with_extension("ebi");
        program("experimenter", &scratch.0, &["-i", e.to_str().unwrap(), "filter", "-c", eq.to_str().unwrap()], None)?;
        let res = std::fs::read(scratch.0.join("set/result/d/filter/000.json")).map_err(|e| e.to_string())?;
        let j: Value = serde_json::from_slice(&res).map_err(|e| e.to_string())?;
        Ok(j["result_string"].as_str().unwrap_or("").to_string())
    })();
    if r.as_deref() == Ok("RoaringBitmap<[]>") {
        println!("KNOWN-FINDING: property=C25 the equality filter written for the dataset [39.430133835633676] selects nothing: the constant is read back from JSON as 39.43013383563368");
    }
}

fn main() {
    if std::env::args().len() == 1 {
        known_finding();
    }
    run(Prop {
        id: "C25",
        rule: "A case is a dataset of 1-1500 values for a scheme with a configuration and a chunking, written as a binary file, compressed by the experiment program, then 1-4 of its commands (filter, filter-materialize, materialize, max, sum) with generated predicates, masks and chunks in configuration files, in memory or through files; a quarter of the cases start with earlier results under some numbers, a quarter also create the dataset's filter configurations; some cases end with a command on a disk that takes no file beyond a limit (0-3 KiB). Oracle: a reference evaluator over the values for what each command reports and writes; the compressed file equals what the library encodes; every run adds exactly one result file under the next free number and leaves earlier results, the dataset and the compressed file as they were; the written filters carry the dataset's percentiles exactly; a command called finished on the limited disk has the result and output it has elsewhere. Non-trivial: a command over at least two selected records (for filters, with a non-empty result). Distinct: by the hash of all choices drawn.",
        assumptions: &[
            "constants that JSON does not give back bit for bit are replaced by neighbours that survive (recorded as a known finding)",
            "records the fixed-point scheme may put on either side of an off-grid constant are taken as the library decides",
            "the program's request to drop the machine's page cache is diverted to /dev/null",
        ],
        quick_cases: 2_500,
        thorough_cases: 60_000,
        case_timeout_s: 120,
        check,
    })
}
