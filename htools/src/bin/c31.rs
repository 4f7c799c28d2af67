use ebi::api::decoder::{AggregationResult, ChunkId, KnnResult};
use ebi::compressor::CompressorConfig;
use ebi::decoder::query::Predicate;
use ebi::encoder::ChunkOption;
use ebi::time::SerializableSegmentedExecutionTimes;
use experimenter::tpch::{TpchResult01, TpchResult06};
use experimenter::*;
use harness::data::{encode, without_times};
use harness::source::Source;
use harness::{ensure, run, Ctx, Prop};
use htools::Scratch;
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};

// ---- documents in the released format, with what they mean

fn int(s: &mut Source, max: u64) -> u64 {
    match s.below(5) {
        0 => s.below(3).min(max),
        1 => max - s.below(3).min(max),
        2 => s.below(1000).min(max),
        _ => {
            let b = s.bits() >> s.below(64);
            if max == u64::MAX { b } else { b % (max + 1) }
        }
    }
}

/// A number that every JSON reader takes exactly: at most 15 digits.
fn num(s: &mut Source) -> f64 {
    match s.below(6) {
        0 => 0.0,
        1 => s.irange(-10, 10) as f64,
        2 => s.irange(-99_999_999_999_999, 99_999_999_999_999) as f64,
        _ => s.irange(-999_999, 999_999) as f64 / *s.pick(&[10.0, 100.0, 1000.0, 1e6]),
    }
}

fn config(s: &mut Source) -> (Value, CompressorConfig, String) {
    let cap = int(s, 1 << 20);
    let scale = int(s, 1 << 31).max(1);
    let level = s.irange(-5, 19);
    let gz = s.range(1, 9);
    let c = |t: &str| json!({"type": t, "capacity": cap});
    let (d, c): (Value, CompressorConfig) = match s.below(13) {
        0 => (c("Uncompressed"), CompressorConfig::uncompressed().capacity(cap).build().into()),
        1 => (c("RLE"), CompressorConfig::rle().capacity(cap).build().into()),
        2 => (c("Gorilla"), CompressorConfig::gorilla().capacity(cap).build().into()),
        3 => (c("Chimp"), CompressorConfig::chimp().capacity(cap).build().into()),
        4 => (c("Chimp128"), CompressorConfig::chimp128().capacity(cap).build().into()),
        5 => (c("ElfOnChimp"), CompressorConfig::elf_on_chimp().capacity(cap).build().into()),
        6 => (c("Elf"), CompressorConfig::elf().capacity(cap).build().into()),
        7 => (json!({"type": "Zstd", "level": level}), CompressorConfig::zstd().level(level as i32).build().into()),
        8 => (json!({"type": "Gzip", "level": gz}), CompressorConfig::gzip().level(gz as u32).build().into()),
        9 => (json!({"type": "Snappy"}), CompressorConfig::snappy().build().into()),
        10 => (json!({"type": "FFIAlp"}), CompressorConfig::ffi_alp().build().into()),
        11 => (
            json!({"type": "DeltaSprintz", "capacity": cap, "scale": scale}),
            CompressorConfig::delta_sprintz().capacity(cap).scale(scale).build().into(),
        ),
        _ => (json!({"type": "BUFF", "scale": scale}), CompressorConfig::buff().scale(scale).build().into()),
    };
    let name = d["type"].as_str().unwrap().to_string();
    (d, c, name)
}

fn chunking(s: &mut Source) -> (Value, ChunkOption) {
    match s.below(3) {
        0 => (json!("Full"), ChunkOption::Full),
        1 => {
            let n = int(s, u64::MAX) as usize;
            (json!({"RecordCount": n}), ChunkOption::RecordCount(n))
        }
        _ => {
            let n = int(s, u64::MAX) as usize;
            (json!({"ByteSizeBestEffort": n}), ChunkOption::ByteSizeBestEffort(n))
        }
    }
}

fn compression(s: &mut Source) -> Value {
    let (k, _) = chunking(s);
    let (c, _, _) = config(s);
    json!({"chunk_option": k, "compressor_config": c})
}

#[derive(Clone, Copy)]
enum End {
    None,
    Incl(f64),
    Excl(f64),
}
fn end(s: &mut Source) -> (Value, End) {
    let v = num(s);
    match s.below(3) {
        0 => (json!("None"), End::None),
        1 => (json!({"Inclusive": v}), End::Incl(v)),
        _ => (json!({"Exclusive": v}), End::Excl(v)),
    }
}
#[derive(Clone, Copy)]
enum Pred {
    Eq(f64),
    Ne(f64),
    Range(End, End),
}
impl Pred {
    fn holds(&self, x: f64) -> bool {
        match *self {
            Pred::Eq(v) => x == v,
            Pred::Ne(v) => x != v,
            Pred::Range(a, b) => {
                (match a {
                    End::None => true,
                    End::Incl(v) => x >= v,
                    End::Excl(v) => x > v,
                }) && (match b {
                    End::None => true,
                    End::Incl(v) => x <= v,
                    End::Excl(v) => x < v,
                })
            }
        }
    }
    fn constants(&self) -> Vec<f64> {
        let e = |e: End| match e {
            End::None => vec![],
            End::Incl(v) | End::Excl(v) => vec![v],
        };
        match *self {
            Pred::Eq(v) | Pred::Ne(v) => vec![v],
            Pred::Range(a, b) => [e(a), e(b)].concat(),
        }
    }
}
fn predicate(s: &mut Source) -> (Value, Pred) {
    match s.below(4) {
        0 => {
            let v = num(s);
            (json!({"type": "Eq", "predicate": v}), Pred::Eq(v))
        }
        1 => {
            let v = num(s);
            (json!({"type": "Ne", "predicate": v}), Pred::Ne(v))
        }
        _ => {
            let (a, x) = end(s);
            let (b, y) = end(s);
            (json!({"type": "Range", "predicate": {"start": a, "end": b}}), Pred::Range(x, y))
        }
    }
}

fn chunk_and_mask(s: &mut Source, m: &mut Map<String, Value>) {
    let k = int(s, u64::MAX);
    m.insert("chunk_id".into(), if s.flip() { Value::Null } else { json!(k) });
    let mask: Vec<u64> = (0..s.urange(0, 6)).map(|_| int(s, u32::MAX as u64)).collect();
    m.insert("bitmask".into(), if s.flip() { Value::Null } else { json!(mask) });
}
fn selection(s: &mut Source) -> Value {
    let mut m = Map::new();
    chunk_and_mask(s, &mut m);
    Value::Object(m)
}
fn filter(s: &mut Source) -> Value {
    let mut m = Map::new();
    let (p, _) = predicate(s);
    m.insert("predicate".into(), p);
    chunk_and_mask(s, &mut m);
    Value::Object(m)
}
fn times(s: &mut Source) -> Value {
    let mut m = Map::new();
    for k in ["io_read", "io_write", "xor", "delta", "quantization", "bit_packing", "compare_insert", "sum", "decompression"] {
        m.insert(format!("{k}_nanos"), json!(int(s, u64::MAX)));
    }
    Value::Object(m)
}
fn statistics(s: &mut Source) -> Value {
    json!({
        "compression_elapsed_time_nano_secs": int(s, u64::MAX),
        "uncompressed_size": int(s, u64::MAX),
        "compressed_size": int(s, u64::MAX),
        "compressed_size_chunk_only": int(s, u64::MAX),
        "compression_ratio": num(s),
        "compression_ratio_chunk_only": num(s),
    })
}
fn text(s: &mut Source) -> String {
    (*s.pick(&["", "0.1.0", "a b", "Ω/é", "quote\" and \\", "line\nbreak", "x.json"])).to_string()
}
fn when(s: &mut Source) -> String {
    let frac = match s.below(3) {
        0 => String::new(),
        1 => format!(".{:03}", s.range(1, 999)),
        _ => format!(".{:09}", s.below(1_000_000) * 1000 + s.range(1, 999)),
    };
    format!(
        "{}-{:02}-{:02}T{:02}:{:02}:{:02}{frac}Z",
        s.range(1970, 2100),
        s.range(1, 12),
        s.range(1, 28),
        s.below(24),
        s.below(60),
        s.below(60)
    )
}
fn wrapper(s: &mut Source, specific: Value) -> Value {
    json!({
        "in_memory": s.flip(),
        "version": text(s),
        "config_path": text(s),
        "compression_config": compression(s),
        "command_specific": specific,
        "elapsed_time_nanos": int(s, u64::MAX),
        "execution_times": times(s),
        "input_filename": text(s),
        "datetime": when(s),
        "result_string": text(s),
    })
}
fn list(s: &mut Source, max: usize, f: impl Fn(&mut Source) -> Value) -> Value {
    let n = s.urange(0, max);
    Value::Array((0..n).map(|_| f(s)).collect())
}
fn table(s: &mut Source, max: usize, f: impl Fn(&mut Source) -> Value) -> Value {
    let n = s.urange(0, max);
    let mut m = Map::new();
    for i in 0..n {
        let k = format!("{}{}", text(s), i);
        m.insert(k, f(s));
    }
    Value::Object(m)
}
fn wrapped(s: &mut Source, f: impl Fn(&mut Source) -> Value) -> Value {
    let v = f(s);
    wrapper(s, v)
}
fn all_inner(s: &mut Source) -> Value {
    json!({
        "compress": list(s, 2, |s| wrapped(s, statistics)),
        "filters": table(s, 2, |s| json!({
            "filter": list(s, 2, |s| wrapped(s, filter)),
            "filter_materialize": list(s, 2, |s| wrapped(s, filter)),
        })),
        "materialize": list(s, 2, |s| wrapped(s, selection)),
        "max": list(s, 2, |s| wrapped(s, selection)),
        "sum": list(s, 2, |s| wrapped(s, selection)),
    })
}
fn all(s: &mut Source) -> Value {
    table(s, 2, |s| table(s, 2, all_inner))
}
fn ucr_config(s: &mut Source) -> Value {
    let precision = if s.chance(1, 3) { -1 } else { int(s, i64::MAX as u64) as i64 };
    json!({"n": int(s, u64::MAX), "precision": precision, "k": int(s, u64::MAX)})
}
fn ints(s: &mut Source) -> Value {
    list(s, 3, |s| json!(int(s, u64::MAX)))
}
fn strings(s: &mut Source) -> Value {
    list(s, 3, |s| json!(text(s)))
}
fn ucr_one(s: &mut Source) -> Value {
    json!({
        "dataset_name": text(s),
        "config": ucr_config(s),
        "compression_config": compression(s),
        "elapsed_time_nanos": list(s, 3, ints),
        "execution_times": list(s, 2, |s| list(s, 2, times)),
        "accuracy": num(s),
        "compression_statistics": statistics(s),
        "decompression_result": {
            "n": int(s, u64::MAX),
            "elapsed_time_nanos": ints(s),
            "execution_times": list(s, 2, times),
            "result_string": strings(s),
        },
    })
}
fn ucr(s: &mut Source) -> Value {
    json!({
        "results": table(s, 2, ucr_one),
        "scale_fallbacked_dataset": if s.flip() { Value::Null } else { strings(s) },
        "start_time": when(s),
        "end_time": when(s),
    })
}
fn ucr_all(s: &mut Source) -> Value {
    json!({
        "results": table(s, 2, ucr),
        "start_time": when(s),
        "end_time": when(s),
        "dataset_to_vector_length": table(s, 3, |s| json!(int(s, u64::MAX))),
        "dataset_to_scale": table(s, 3, |s| json!(int(s, u64::MAX))),
    })
}
fn simple(s: &mut Source) -> Value {
    json!({
        "n": int(s, u64::MAX),
        "dataset_name": text(s),
        "compression_config": compression(s),
        "compression_elapsed_time_nanos": ints(s),
        "compression_segmented_execution_times": list(s, 2, times),
        "compression_statistics": list(s, 2, statistics),
        "compression_result_string": strings(s),
        "decompression_elapsed_time_nanos": ints(s),
        "decompression_segmented_execution_times": list(s, 2, times),
        "decompression_result_string": strings(s),
        "precision": int(s, u64::MAX),
    })
}
fn matrix(s: &mut Source) -> Value {
    json!({
        "n_data_matrix": int(s, u64::MAX),
        "compression_config": compression(s),
        "compression_statistics": statistics(s),
        "compression_elapsed_time_nano_secs": int(s, u64::MAX),
        "matmul_elapsed_time_nano_secs": int(s, u64::MAX),
        "matmul_segmented_execution_times": times(s),
        "precision": int(s, u32::MAX as u64),
        "matrix_size": int(s, u64::MAX),
        "result_string": text(s),
        "start_time": when(s),
        "end_time": when(s),
    })
}
fn aggregate(s: &mut Source) -> Value {
    match s.below(3) {
        0 => json!({"Array": list(s, 4, |s| json!(num(s)))}),
        1 => json!({"Scalar": num(s)}),
        _ => json!({"Integer": int(s, u64::MAX)}),
    }
}
fn tpch(s: &mut Source) -> Value {
    json!({
        "name": text(s),
        "compression": table(s, 2, statistics),
        "queries_elapsed_time": ints(s),
        "query_names": strings(s),
        "query_elapsed_time": int(s, u64::MAX),
        "result": list(s, 3, aggregate),
        "timer": times(s),
    })
}
fn tagged(s: &mut Source) -> (Value, &'static str) {
    let (tag, v) = match s.below(9) {
        0 => ("Compress", wrapped(s, statistics)),
        1 => ("Filter", wrapped(s, filter)),
        2 => ("FilterMaterialize", wrapped(s, filter)),
        3 => ("Materialize", wrapped(s, selection)),
        4 => ("Max", wrapped(s, selection)),
        5 => ("Sum", wrapped(s, selection)),
        6 => ("All", all(s)),
        7 => ("UCR2018", ucr(s)),
        _ => ("Embedding", table(s, 2, |s| table(s, 2, simple))),
    };
    let mut v = v;
    v.as_object_mut().unwrap().insert("command_type".into(), json!(tag));
    (v, tag)
}

// ---- reading and writing

fn first_difference(a: &Value, b: &Value, at: String) -> Option<String> {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            let keys: BTreeSet<&String> = x.keys().chain(y.keys()).collect();
            keys.into_iter().find_map(|k| match (x.get(k), y.get(k)) {
                (Some(p), Some(q)) => first_difference(p, q, format!("{at}/{k}")),
                (p, q) => Some(format!("{at}/{k}: {p:?} became {q:?}")),
            })
        }
        (Value::Array(x), Value::Array(y)) if x.len() == y.len() => {
            x.iter().zip(y).enumerate().find_map(|(i, (p, q))| first_difference(p, q, format!("{at}/{i}")))
        }
        _ if a == b => None,
        _ => Some(format!("{at}: {a} became {b}")),
    }
}

/// Read a document, write what was read: the same document.
fn survives<T: DeserializeOwned + Serialize>(c: &mut Ctx, kind: &str, doc: &Value) -> Result<T, String> {
    let pretty = c.src.flip();
    let text = if pretty { serde_json::to_string_pretty(doc) } else { serde_json::to_string(doc) }.unwrap();
    c.note(|| format!("{kind}: {text}"));
    let read: T = serde_json::from_str(&text).map_err(|e| format!("{kind}: {e} in {text}"))?;
    let again = serde_json::to_string_pretty(&read).map_err(|e| format!("{kind}: written: {e}"))?;
    let again: Value = serde_json::from_str(&again).map_err(|e| format!("{kind}: what was written is no JSON: {e}"))?;
    if let Some(d) = first_difference(doc, &again, String::new()) {
        return Err(format!("{kind}: read and written again, {d}"));
    }
    // damaged: a required field is missing
    if let Value::Object(m) = doc {
        let required: Vec<&String> =
            m.keys().filter(|k| !matches!(k.as_str(), "chunk_id" | "bitmask" | "scale_fallbacked_dataset")).collect();
        if !required.is_empty() && c.src.chance(1, 3) && kind != "table" {
            let k = (*c.src.pick(&required)).clone();
            let mut less = m.clone();
            less.remove(&k);
            let r = serde_json::from_value::<T>(Value::Object(less));
            ensure!(r.is_err(), "{kind}: accepted without {k}");
        }
        // an absent optional field is an empty one
        let optional: Vec<&String> = m.keys().filter(|k| matches!(k.as_str(), "chunk_id" | "bitmask")).collect();
        if !optional.is_empty() && c.src.chance(1, 3) {
            let k = (*c.src.pick(&optional)).clone();
            let mut less = m.clone();
            less.remove(&k);
            let r: T = serde_json::from_value(Value::Object(less.clone())).map_err(|e| format!("{kind} without {k}: {e}"))?;
            less.insert(k.clone(), Value::Null);
            let again = serde_json::to_value(&r).map_err(|e| e.to_string())?;
            if let Some(d) = first_difference(&Value::Object(less), &again, String::new()) {
                return Err(format!("{kind} without {k}: {d}"));
            }
        }
    }
    Ok(read)
}

fn configurations(c: &mut Ctx) -> Result<(), String> {
    let (kd, kind) = chunking(&mut c.src);
    let (cd, conf, name) = config(&mut c.src);
    c.label(format!("scheme={name}"));
    let doc = json!({"chunk_option": kd, "compressor_config": cd});
    let got: CompressionConfig = survives(c, "compression config", &doc)?;
    ensure!(got.chunk_option == kind, "{doc}: chunking {:?}", got.chunk_option);
    ensure!(got.compressor_config == conf, "{doc}: read as {:?}, not {conf:?}", got.compressor_config);
    let text = serde_json::to_value(conf).map_err(|e| e.to_string())?;
    ensure!(text == cd, "{conf:?} is written as {text}, not {cd}");
    // an encoder makes the same file of both
    let n = c.src.urange(1, 12);
    let values: Vec<f64> = (0..n).map(|_| c.src.irange(-5000, 5000) as f64 / 1000.0).collect();
    let few = ChunkOption::RecordCount(c.src.urange(1, 12));
    if !(name == "BUFF" && cd["scale"].as_u64() > Some(1_000_000)) {
        let (a, b) = (encode(&values, got.compressor_config, few), encode(&values, conf, few));
        match (a, b) {
            (Ok(a), Ok(b)) => ensure!(without_times(&a)? == without_times(&b)?, "{doc}: encodes differently"),
            (Err(_), Err(_)) => c.label("refused by the encoder"),
            (a, b) => return Err(format!("{doc}: {:?} instead of {:?}", a.is_ok(), b.is_ok())),
        }
    }
    // a scheme that does not exist
    let mut wrong = cd.clone();
    wrong["type"] = json!(*c.src.pick(&["", "Nope", "gorilla", "BUFF2"]));
    ensure!(serde_json::from_value::<CompressorConfig>(wrong.clone()).is_err(), "{wrong} is accepted");
    // one field short
    if let Some(k) = cd.as_object().unwrap().keys().find(|k| *k != "type") {
        let mut less = cd.clone();
        less.as_object_mut().unwrap().remove(k);
        ensure!(serde_json::from_value::<CompressorConfig>(less.clone()).is_err(), "{less} is accepted");
        let mut odd = cd.clone();
        odd[k] = json!("8");
        ensure!(serde_json::from_value::<CompressorConfig>(odd.clone()).is_err(), "{odd} is accepted");
    }
    Ok(())
}

fn queries(c: &mut Ctx) -> Result<(), String> {
    let (pd, p) = predicate(&mut c.src);
    let mut m = Map::new();
    m.insert("predicate".into(), pd.clone());
    chunk_and_mask(&mut c.src, &mut m);
    let mask: Option<Vec<u32>> = m["bitmask"].as_array().map(|a| a.iter().map(|v| v.as_u64().unwrap() as u32).collect());
    let chunk = m["chunk_id"].as_u64().map(|k| ChunkId::new(k as usize));
    let doc = Value::Object(m);
    let got: FilterConfig = survives(c, "filter config", &doc)?;
    ensure!(got.bitmask == mask, "{doc}: mask {:?}", got.bitmask);
    ensure!(got.chunk_id == chunk, "{doc}: chunk {:?}", got.chunk_id);
    let fm: FilterMaterializeConfig = survives(c, "filtered scan config", &doc)?;
    let from: FilterMaterializeConfig = got.clone().into();
    let direct: Predicate = survives(c, "predicate", &pd)?;
    for q in [got.predicate, fm.predicate, from.predicate, direct] {
        let mut probes = p.constants();
        probes.extend(probes.clone().iter().flat_map(|v| [v - 0.5, v + 0.5, -v]));
        probes.push(num(&mut c.src));
        for x in probes {
            ensure!(q.eval(x) == p.holds(x), "{pd}: {x} gives {}", q.eval(x));
        }
    }
    ensure!(
        fm.bitmask == mask && fm.chunk_id == chunk && from.bitmask == mask && from.chunk_id == chunk,
        "{doc}: as filtered scan {fm:?}, converted {from:?}"
    );
    let doc = selection(&mut c.src);
    let mask: Option<Vec<u32>> = doc["bitmask"].as_array().map(|a| a.iter().map(|v| v.as_u64().unwrap() as u32).collect());
    let chunk = doc["chunk_id"].as_u64().map(|k| ChunkId::new(k as usize));
    let a: MaterializeConfig = survives(c, "scan config", &doc)?;
    let b: MaxConfig = survives(c, "max config", &doc)?;
    let d: SumConfig = survives(c, "sum config", &doc)?;
    for (m, k) in [(&a.bitmask, a.chunk_id), (&b.bitmask, b.chunk_id), (&d.bitmask, d.chunk_id)] {
        ensure!(*m == mask && k == chunk, "{doc}: {m:?} {k:?}");
    }
    let doc = ucr_config(&mut c.src);
    let u: UCR2018Config = survives(c, "classification config", &doc)?;
    ensure!(
        json!(u.n) == doc["n"] && json!(u.precision) == doc["precision"] && json!(u.k) == doc["k"],
        "{doc}: {u:?}"
    );
    Ok(())
}

fn results(c: &mut Ctx) -> Result<(), String> {
    match c.src.below(8) {
        0 => {
            let d = aggregate(&mut c.src);
            let r: AggregationResult = survives(c, "aggregate", &d)?;
            let ok = match &r {
                AggregationResult::Array(a) => json!({"Array": a}) == d,
                AggregationResult::Scalar(x) => json!({"Scalar": x}) == d,
                AggregationResult::Integer(n) => json!({"Integer": n}) == d,
            };
            ensure!(ok, "{d}: {r:?}");
            let d = json!({"index": int(&mut c.src, u64::MAX), "distance": num(&mut c.src)});
            let r: KnnResult = survives(c, "neighbour", &d)?;
            ensure!(json!(r.index) == d["index"] && json!(r.distance) == d["distance"], "{d}: {r:?}");
        }
        1 => {
            let d = times(&mut c.src);
            let t: SerializableSegmentedExecutionTimes = survives(c, "times", &d)?;
            let (a, b) = (t.io_read_nanos, t.decompression_nanos);
            ensure!(d["io_read_nanos"].as_u64().unwrap() as u128 == a && d["decompression_nanos"].as_u64().unwrap() as u128 == b, "{d}: {t:?}");
            let d = statistics(&mut c.src);
            let t: CompressStatistics = survives(c, "statistics", &d)?;
            ensure!(json!(t.compressed_size) == d["compressed_size"] && json!(t.uncompressed_size) == d["uncompressed_size"], "{d}: {t:?}");
        }
        2 => {
            let d = tpch(&mut c.src);
            survives::<TpchResult01>(c, "TPC-H 1", &d)?;
            survives::<TpchResult06>(c, "TPC-H 6", &d)?;
        }
        3 => {
            let d = ucr_all(&mut c.src);
            survives::<UCR2018ForAllCompressionMethodsResult>(c, "classification of all", &d)?;
        }
        4 => {
            let d = matrix(&mut c.src);
            survives::<MatrixResult>(c, "matrix", &d)?;
        }
        _ => {
            let (d, tag) = tagged(&mut c.src);
            c.label(format!("output={tag}"));
            let kind = if matches!(tag, "All" | "Embedding") { "table" } else { "output" };
            let o: Output = survives(c, kind, &d)?;
            let same = match (&o, tag) {
                (Output::Compress(_), "Compress")
                | (Output::Filter(_), "Filter")
                | (Output::FilterMaterialize(_), "FilterMaterialize")
                | (Output::Materialize(_), "Materialize")
                | (Output::Max(_), "Max")
                | (Output::Sum(_), "Sum")
                | (Output::All(_), "All")
                | (Output::UCR2018(_), "UCR2018")
                | (Output::Embedding(_), "Embedding") => true,
                _ => false,
            };
            ensure!(same, "{tag} is read as something else");
        }
    }
    Ok(())
}

fn close(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 1e-9 * a.abs().max(b.abs())
}

/// The tables of a full experiment.
fn tables(c: &mut Ctx) -> Result<(), String> {
    let datasets = c.src.urange(1, 4);
    let methods: Vec<&str> = ["gorilla", "buff", "rle"].into_iter().filter(|_| c.src.chance(3, 4)).collect();
    // data set -> method -> (ratio, size, time to compress, time to read back) of each run
    type Runs = Vec<(f64, u64, u64, u64)>;
    let mut model: BTreeMap<String, BTreeMap<String, Runs>> = BTreeMap::new();
    for d in 0..datasets {
        let mut row = BTreeMap::new();
        for m in &methods {
            if c.src.chance(5, 6) {
                let n = c.src.urange(1, 4);
                let size = 8 * c.src.range(1, 1 << 30);
                let runs: Runs = (0..n).map(|_| (num(&mut c.src).abs(), size, c.src.range(1, 1 << 40), c.src.range(1, 1 << 40))).collect();
                row.insert(m.to_string(), runs);
            }
        }
        model.insert(format!("set{d}"), row);
    }
    let s = &mut c.src;
    let doc: Value = model
        .iter()
        .map(|(d, row)| {
            let row: Map<String, Value> = row
                .iter()
                .map(|(m, runs)| {
                    let mut inner = all_inner(s);
                    inner["compress"] = runs
                        .iter()
                        .map(|r| {
                            let mut st = statistics(s);
                            st["compression_ratio"] = json!(r.0);
                            st["uncompressed_size"] = json!(r.1);
                            let mut w = wrapper(s, st);
                            w["elapsed_time_nanos"] = json!(r.2);
                            w
                        })
                        .collect();
                    inner["materialize"] = runs
                        .iter()
                        .map(|r| {
                            let sel = selection(s);
                            let mut w = wrapper(s, sel);
                            w["elapsed_time_nanos"] = json!(r.3);
                            w
                        })
                        .collect();
                    (m.clone(), inner)
                })
                .collect();
            (d.clone(), Value::Object(row))
        })
        .collect::<Map<String, Value>>()
        .into();
    c.note(|| format!("tables of {model:?}"));
    let all: AllOutput = serde_json::from_value(doc.clone()).map_err(|e| e.to_string())?;
    let got: BTreeSet<String> = all.clone().dataset_names().into_iter().collect();
    ensure!(got == model.keys().cloned().collect(), "data sets {got:?}");
    let got: BTreeSet<String> = all.clone().compression_methods().into_iter().collect();
    let want: BTreeSet<String> = model.values().flat_map(|r| r.keys().cloned()).collect();
    ensure!(got == want, "methods {got:?} instead of {want:?}");
    let t = serde_json::to_value(all.clone().transpose()).map_err(|e| e.to_string())?;
    let mut want = Map::new();
    for (d, row) in doc.as_object().unwrap() {
        for (m, v) in row.as_object().unwrap() {
            let e = want.entry(m.clone()).or_insert_with(|| json!({}));
            e.as_object_mut().unwrap().insert(d.clone(), v.clone());
        }
    }
    if let Some(d) = first_difference(&Value::Object(want), &t, String::new()) {
        return Err(format!("transposed, {d}"));
    }
    let counts = all.clone().map(|i| i.compress.len());
    for (d, row) in &model {
        for (m, runs) in row {
            ensure!(counts[d][m] == runs.len(), "map: {d}/{m} has {} runs", counts[d][m]);
        }
    }
    let ratio = all.clone().aggregate_per_compression_method(AllOutput::average_compression_ratio);
    let fast = all.clone().aggregate_per_compression_method(AllOutput::average_compression_throughput);
    let back = all.clone().aggregate_per_compression_method(AllOutput::average_decompression_throughput);
    let used: BTreeSet<&String> = model.values().flat_map(|r| r.keys()).collect();
    ensure!(ratio.len() == used.len() && fast.len() == used.len() && back.len() == used.len(), "averages of {} methods", ratio.len());
    for m in used {
        let rows: Vec<&Runs> = model.values().filter_map(|r| r.get(m)).collect();
        let mean = |f: &dyn Fn(&Runs) -> f64| rows.iter().map(|r| f(r)).sum::<f64>() / rows.len() as f64;
        let total = |r: &Runs, f: &dyn Fn(&(f64, u64, u64, u64)) -> f64| r.iter().map(f).sum::<f64>();
        let w = mean(&|r| total(r, &|x| x.0) / r.len() as f64);
        ensure!(close(ratio[m], w), "average ratio of {m}: {} instead of {w}", ratio[m]);
        let w = mean(&|r| total(r, &|x| x.1 as f64) / total(r, &|x| x.2 as f64));
        ensure!(close(fast[m], w), "average speed of compression of {m}: {} instead of {w} bytes per nanosecond", fast[m]);
        let w = mean(&|r| total(r, &|x| x.1 as f64) / total(r, &|x| x.3 as f64));
        ensure!(close(back[m], w), "average speed of decompression of {m}: {} instead of {w} bytes per nanosecond", back[m]);
    }
    let mut one = all.0.into_values().flat_map(|r| r.into_values()).next();
    if let Some(i) = one.as_mut() {
        i.clear();
        let v = serde_json::to_value(&*i).map_err(|e| e.to_string())?;
        ensure!(
            v == json!({"compress": [], "filters": {}, "materialize": [], "max": [], "sum": []}),
            "cleared: {v}"
        );
    }
    Ok(())
}

/// Saving a document creates it, with the directories it needs, or leaves what is there alone.
fn saving(c: &mut Ctx) -> Result<(), String> {
    let dir = Scratch::new();
    let deep = c.src.flip();
    let path = if deep { dir.0.join("a/b/doc.json") } else { dir.0.join("doc.json") };
    let doc = statistics(&mut c.src);
    save_json_safely(&doc, &path).map_err(|e| e.to_string())?;
    let first = std::fs::read_to_string(&path).map_err(|e| e.to_string())?;
    let read: Value = serde_json::from_str(&first).map_err(|e| format!("saved: {e}"))?;
    ensure!(read == doc, "saved as {read} instead of {doc}");
    let r = save_json_safely(&doc, dir.0.join("doc.json/x"));
    ensure!(deep || r.is_err(), "saving below a file succeeds");
    // what is there is left alone
    let other = statistics(&mut c.src);
    save_json_safely(&other, &path).map_err(|e| format!("in the presence of another: {e}"))?;
    ensure!(std::fs::read_to_string(&path).map_err(|e| e.to_string())? == first, "the saved document changed");
    c.note(|| format!("saving {doc}, deep={deep}"));
    Ok(())
}

fn check(c: &mut Ctx) -> Result<(), String> {
    let kind = c.src.weighted(&[30, 30, 30, 12, 1]);
    c.label(["configurations", "queries", "results", "tables", "saving"][kind]);
    match kind {
        0 => configurations(c)?,
        1 => queries(c)?,
        2 => results(c)?,
        3 => tables(c)?,
        _ => saving(c)?,
    }
    c.nontrivial();
    Ok(())
}

fn main() {
    run(Prop {
        id: "C31",
        rule: "A case is one document in the released format, made by an independent writer together with what it means: a compression configuration (13 schemes, every parameter, three chunkings), a filter, scan, extreme or sum configuration (predicate, chunk, mask), a classification configuration, any of the result documents (single commands, full experiment, classification, embedding, matrix, TPC-H, statistics, times, aggregates, neighbours), the tables of a full experiment with 1..4 data sets and up to 3 methods, or the saving of a document. Oracle: the meaning the document was made from (an equal configuration that encodes to the same bytes, a predicate holding for the same probes, the same mask and chunk), the document itself after reading and writing it again, refusal of documents that lack a required field or name an unknown scheme, and tables computed from the model. Non-trivial: every case (each has a whole document). Distinct: by the hash of all choices drawn.",
        assumptions: &[
            "numbers with at most 15 digits, and times below 2^64 nanoseconds (C25's finding on the last digit of constants is not repeated here)",
            "in the averages every data set has as many reading runs as compressing runs, as the full experiment makes them",
        ],
        quick_cases: 200_000,
        thorough_cases: 8_000_000,
        case_timeout_s: 60,
        check,
    })
}
