use arrow::array::{ArrayRef, Decimal128Array, RecordBatch, StringArray};
use ebi::api::decoder::{AggregationResult, DecoderOutput};
use ebi::compressor::CompressorConfig;
use experimenter::{tpch::*, CompressStatistics, DEFAULT_CHUNK_OPTION};
use ebi::time::{SegmentedExecutionTimes, SerializableSegmentedExecutionTimes};
use harness::data::{encode, open};
use harness::source::Source;
use harness::{ensure, run, Ctx, Prop};
use htools::*;
use parquet::arrow::ArrowWriter;
use parquet::file::properties::WriterProperties;
use std::collections::HashMap;
use std::path::Path;
use std::sync::Arc;

const COLS: [&str; 4] = ["l_quantity", "l_extendedprice", "l_discount", "l_tax"];
const METHODS: [&str; 13] = [
    "Uncompressed", "Chimp128", "Chimp", "ElfOnChimp", "Elf", "Gorilla", "RLE", "Zstd", "Gzip", "Snappy", "FFIAlp", "DeltaSprintz", "BUFF",
];

/// Columns in hundredths.
struct Table {
    cols: [Vec<i64>; 4],
}

fn gen_table(s: &mut Source) -> Table {
    let n = match s.below(6) {
        0 => s.urange(1, 5),
        1..=3 => s.urange(1, 200),
        4 => s.urange(900, 1300),
        _ => s.urange(1000, 4200),
    };
    let odd = s.chance(1, 4);
    let runs = s.chance(1, 3);
    let mut t = Table { cols: Default::default() };
    let mut row = [0i64; 4];
    for i in 0..n {
        if i == 0 || !runs || s.chance(1, 4) {
            row = if odd {
                [s.irange(-5000, 10000), s.irange(-2_000_000, 20_000_000), s.irange(0, 100), s.irange(0, 100)]
            } else {
                [100 * s.irange(1, 50), s.irange(90_000, 10_500_000), s.irange(0, 10), s.irange(0, 8)]
            };
            if s.chance(1, 5) {
                // on and next to the borders of the filter
                row[2] = s.irange(4, 8);
                row[0] = 2400 + s.irange(-1, 1) * if s.flip() { 1 } else { 100 };
            }
        }
        for k in 0..4 {
            t.cols[k].push(row[k]);
        }
    }
    t
}

fn write(s: &mut Source, t: &Table, cols: &[usize], path: &Path) -> usize {
    let n = t.cols[0].len();
    let mut order = cols.to_vec();
    for i in (1..order.len()).rev() {
        let j = s.urange(0, i);
        order.swap(i, j);
    }
    let flags = s.chance(1, 2);
    let step = if s.flip() { n } else { s.urange(1, n).max(n / 8) };
    let group = if s.flip() { n } else { s.urange(1, n).max(n / 8) };
    let batch = |a: usize, b: usize| {
        let mut v: Vec<(&str, ArrayRef)> = vec![];
        for k in &order {
            let d = Decimal128Array::from(t.cols[*k][a..b].iter().map(|x| *x as i128).collect::<Vec<_>>())
                .with_precision_and_scale(15, 2)
                .unwrap();
            v.push((COLS[*k], Arc::new(d)));
        }
        if flags {
            let f: Vec<&str> = (a..b).map(|i| ["A", "N", "R"][i % 3]).collect();
            v.insert(0, ("l_returnflag", Arc::new(StringArray::from(f.clone()))));
            v.push(("l_linestatus", Arc::new(StringArray::from(f))));
        }
        RecordBatch::try_from_iter(v).unwrap()
    };
    let props = WriterProperties::builder().set_max_row_group_size(group).build();
    let first = batch(0, 1);
    let mut w = ArrowWriter::try_new(std::fs::File::create(path).unwrap(), first.schema(), Some(props)).unwrap();
    let mut a = 0;
    while a < n {
        let b = (a + step).min(n);
        w.write(&batch(a, b)).unwrap();
        a = b;
    }
    w.close().unwrap();
    n.div_ceil(group)
}

fn config(m: &str) -> CompressorConfig {
    match m {
        "Uncompressed" => CompressorConfig::uncompressed().build().into(),
        "Chimp128" => CompressorConfig::chimp128().build().into(),
        "Chimp" => CompressorConfig::chimp().build().into(),
        "ElfOnChimp" => CompressorConfig::elf_on_chimp().build().into(),
        "Elf" => CompressorConfig::elf().build().into(),
        "Gorilla" => CompressorConfig::gorilla().build().into(),
        "RLE" => CompressorConfig::rle().build().into(),
        "Zstd" => CompressorConfig::zstd().build().into(),
        "Gzip" => CompressorConfig::gzip().build().into(),
        "Snappy" => CompressorConfig::snappy().build().into(),
        "FFIAlp" => CompressorConfig::ffi_alp().build().into(),
        "DeltaSprintz" => CompressorConfig::delta_sprintz().scale(100).build().into(),
        _ => CompressorConfig::buff().scale(100).build().into(),
    }
}

fn stats(m: &str, t: &Table, cols: &[usize], st: &HashMap<String, CompressStatistics>, sizes: &HashMap<(String, usize), usize>) -> Result<(), String> {
    ensure!(st.len() == cols.len(), "{m}: statistics for {} columns of {}", st.len(), cols.len());
    for k in cols {
        let s = st.get(COLS[*k]).ok_or(format!("{m}: no statistics for {}", COLS[*k]))?;
        let raw = t.cols[*k].len() as u64 * 8;
        let size = sizes[&(m.to_string(), *k)] as u64;
        ensure!(s.uncompressed_size == raw, "{m} {}: uncompressed size {} of {raw} bytes", COLS[*k], s.uncompressed_size);
        ensure!(s.compressed_size == size, "{m} {}: compressed size {}, the file has {size} bytes", COLS[*k], s.compressed_size);
        ensure!(s.compressed_size_chunk_only < size, "{m} {}: chunks of {} bytes in a file of {size}", COLS[*k], s.compressed_size_chunk_only);
        ensure!(s.compression_ratio == size as f64 / raw as f64, "{m} {}: ratio {}", COLS[*k], s.compression_ratio);
        ensure!(s.compression_ratio_chunk_only == s.compressed_size_chunk_only as f64 / raw as f64, "{m} {}: chunk ratio {}", COLS[*k], s.compression_ratio_chunk_only);
    }
    Ok(())
}

fn close(m: &str, what: &str, got: &AggregationResult, want: f64, mag: f64, n: usize) -> Result<(), String> {
    let g = got.scalar().ok_or(format!("{m} {what}: {got:?} is no number"))?;
    let tol = 8.0 * (n as f64 + 8.0) * f64::EPSILON * mag + 1e-300;
    ensure!((g - want).abs() <= tol, "{m}: {what} is {g}, the rows give {want}");
    Ok(())
}

fn check(c: &mut Ctx) -> Result<(), String> {
    let scratch = Scratch::new();
    let t1 = gen_table(&mut c.src);
    let t6 = if c.src.chance(1, 3) { Table { cols: t1.cols.clone() } } else { gen_table(&mut c.src) };
    let c1 = [0usize, 1, 2, 3];
    let c6: Vec<usize> = if c.src.flip() { vec![0, 1, 2] } else { vec![0, 1, 2, 3] };
    let g1 = write(&mut c.src, &t1, &c1, &scratch.0.join("h01.parquet"));
    let g6 = write(&mut c.src, &t6, &c6, &scratch.0.join("h06.parquet"));
    if c.src.chance(1, 4) {
        std::fs::write(scratch.0.join("h03.parquet"), b"other").unwrap();
    }
    let (n1, n6) = (t1.cols[0].len(), t6.cols[0].len());
    let sel: Vec<bool> = (0..n6).map(|i| (5..=7).contains(&t6.cols[2][i]) && t6.cols[0][i] < 2400).collect();
    let picked = sel.iter().filter(|b| **b).count();
    c.note(|| format!("h01: {n1} rows in {g1} groups, first {:?}; h06: {n6} rows in {g6} groups, {picked} selected", c1.map(|k| t1.cols[k][0])));
    c.label(if n1.max(n6) > 1024 { "several batches" } else { "one batch" });
    if picked > 0 && picked < n6 && n1 > 1 {
        c.nontrivial();
    }
    let r = tpch_command(&scratch.0).map_err(|e| format!("{e:#}"))?;
    for (what, len) in [("h01", r.h01.len()), ("h01 simplified", r.h01_simplified.len()), ("h06", r.h06.len())] {
        ensure!(len == METHODS.len(), "{what}: results for {len} methods");
    }
    let mut sizes1 = HashMap::new();
    let mut sizes6 = HashMap::new();
    for m in METHODS {
        // the values the method stores: the decimals themselves, or what it keeps of them
        let stored = |t: &Table, cols: &[usize], sizes: &mut HashMap<(String, usize), usize>| -> Result<Vec<Vec<f64>>, String> {
            let mut v = vec![vec![]; 4];
            for k in cols {
                let plain: Vec<f64> = t.cols[*k].iter().map(|x| *x as f64 / 100.0).collect();
                let f = encode(&plain, config(m), DEFAULT_CHUNK_OPTION)?;
                sizes.insert((m.to_string(), *k), f.len());
                v[*k] = if m == "BUFF" {
                    let mut o = DecoderOutput::from_vec(Vec::new());
                    open(&f)?.materialize(&mut o, None, None).map_err(|e| e.to_string())?;
                    doubles(o.into_writer().get_ref())
                } else {
                    plain
                };
            }
            Ok(v)
        };
        let a = stored(&t1, &c1, &mut sizes1)?;
        let b = stored(&t6, &c6, &mut sizes6)?;
        let fold = |n: usize, f: &dyn Fn(usize) -> f64| -> (f64, f64) {
            // compensated
            let (mut s, mut comp, mut mag) = (0.0f64, 0.0f64, 0.0f64);
            for i in 0..n {
                let x = f(i);
                mag += x.abs();
                let t = s + x;
                comp += if s.abs() >= x.abs() { (s - t) + x } else { (x - t) + s };
                s = t;
            }
            (s + comp, mag)
        };
        let q = fold(n1, &|i| a[0][i]);
        let p = fold(n1, &|i| a[1][i]);
        let dp = fold(n1, &|i| a[1][i] * (1.0 - a[2][i]));
        let ch = fold(n1, &|i| a[1][i] * (1.0 - a[2][i]) * (1.0 + a[3][i]));
        let d = fold(n1, &|i| a[2][i]);
        // exact decimal arithmetic, where the method keeps the decimals
        if m != "BUFF" {
            let e: i128 = (0..n1).map(|i| t1.cols[1][i] as i128 * (100 - t1.cols[2][i] as i128) * (100 + t1.cols[3][i] as i128)).sum();
            ensure!((ch.0 - e as f64 / 1e6).abs() <= 1e-9 * ch.1 + 1e-9, "internal: oracle {} vs {}", ch.0, e as f64 / 1e6);
        }
        let k = n1 as f64;
        let want: [(&str, (f64, f64)); 7] = [
            ("SUM(l_quantity)", q),
            ("SUM(l_extendedprice)", p),
            ("SUM(l_extendedprice * (1 - l_discount))", dp),
            ("SUM(l_extendedprice * (1 - l_discount) * (1 + l_tax))", ch),
            ("AVG(l_quantity)", (q.0 / k, q.1 / k)),
            ("AVG(l_extendedprice)", (p.0 / k, p.1 / k)),
            ("AVG(l_discount)", (d.0 / k, d.1 / k)),
        ];
        let r1 = r.h01.get(m).ok_or(format!("h01: no result for {m}"))?;
        ensure!(r1.result.len() == 8, "{m} h01: {} results", r1.result.len());
        for (i, (what, (v, mag))) in want.iter().enumerate() {
            close(m, what, &r1.result[i], *v, mag.max(v.abs()), n1)?;
        }
        ensure!(matches!(r1.result[7], AggregationResult::Integer(x) if x == n1), "{m} h01: count {:?} of {n1} rows", r1.result[7]);
        stats(m, &t1, &c1, &r1.compression, &sizes1)?;
        // the shorter variant: two sums, average discount, the other averages, count
        let avg: [&[&str]; 3] = [&["AVG(l_quantity)"], &["AVG(l_extendedprice)"], &["AVG(l_discount)"]];
        let sums: &[&str] = &[
            "SUM(l_quantity)",
            "SUM(l_extendedprice)",
            "SUM(l_extendedprice * (1 - l_discount))",
            "SUM((l_extendedprice * (1 - l_discount)) * (1 + l_tax))",
            "SUM(l_discount)",
        ];
        let h01 = format!("{m} h01");
        account(&h01, (&r1.name, "h01"), &r1.query_names, &r1.queries_elapsed_time, r1.query_elapsed_time, r1.timer, &[sums, avg[0], avg[1], avg[2]])?;
        let rs = r.h01_simplified.get(m).ok_or(format!("h01 simplified: no result for {m}"))?;
        ensure!(rs.result.len() == 6, "{m} h01 simplified: {} results", rs.result.len());
        for (i, j) in [(0, 0), (1, 1), (2, 6), (3, 4), (4, 5)] {
            let (what, (v, mag)) = want[j];
            close(m, what, &rs.result[i], v, mag.max(v.abs()), n1)?;
        }
        ensure!(matches!(rs.result[5], AggregationResult::Integer(x) if x == n1), "{m} h01 simplified: count {:?} of {n1} rows", rs.result[5]);
        stats(m, &t1, &c1, &rs.compression, &sizes1)?;
        let sums: &[&str] = &["SUM(l_quantity)", "SUM(l_extendedprice)", "SUM(l_discount)"];
        let h01s = format!("{m} h01 simplified");
        account(&h01s, (&rs.name, "h01_simplified"), &rs.query_names, &rs.queries_elapsed_time, rs.query_elapsed_time, rs.timer, &[sums, avg[0], avg[1], avg[2]])?;
        let r6 = r.h06.get(m).ok_or(format!("h06: no result for {m}"))?;
        ensure!(r6.result.len() == 1, "{m} h06: {} results", r6.result.len());
        let e = fold(n6, &|i| if sel[i] { b[1][i] * b[2][i] } else { 0.0 });
        close(m, "SUM(l_extendedprice * l_discount)", &r6.result[0], e.0, e.1, n6)?;
        stats(m, &t6, &c6, &r6.compression, &sizes6)?;
        let h06 = format!("{m} h06");
        let want: &[&[&str]] = &[&["l_discount BETWEEN 0.05 AND 0.07"], &["l_quantity < 24"], &["SUM(l_extendedprice * l_discount)"]];
        account(&h06, (&r6.name, "h06"), &r6.query_names, &r6.queries_elapsed_time, r6.query_elapsed_time, r6.timer, want)?;
    }
    Ok(())
}

/// What a result says of its queries: a name and a time for each, and their total.
fn account(
    what: &str,
    name: (&str, &str),
    names: &[String],
    times: &[u64],
    total: u64,
    timer: SerializableSegmentedExecutionTimes,
    want: &[&[&str]],
) -> Result<(), String> {
    ensure!(name.0 == name.1, "{what}: is called {:?}", name.0);
    let got: Vec<Vec<&str>> = names.iter().map(|n| n.lines().filter(|l| !l.is_empty()).collect()).collect();
    ensure!(got == want, "{what}: queries {got:?} instead of {want:?}");
    ensure!(times.len() == names.len(), "{what}: {} times for {} queries", times.len(), names.len());
    ensure!(times.iter().sum::<u64>() == total, "{what}: {times:?} are not {total} together");
    let parts = SegmentedExecutionTimes::from(timer);
    let parts: std::time::Duration = [
        parts.io_read(), parts.io_write(), parts.xor(), parts.delta(), parts.quantization(),
        parts.bit_packing(), parts.compare_insert(), parts.sum(), parts.decompression(),
    ]
    .into_iter()
    .sum();
    ensure!(parts.as_nanos() <= total as u128, "{what}: the parts take {parts:?}, the whole {total} ns");
    Ok(())
}

fn main() {
    run(Prop {
        id: "C24",
        rule: "A case is two generated line-item tables of 1-4200 rows (typical and odd value ranges, runs, values on and next to the filter's borders), written as parquet with decimal columns in any order, with or without the flag columns, in several row groups and batches. The queries run over all 13 methods. Oracle: the aggregates over the rows in compensated arithmetic (the fixed-point method over the values it stores; the selection always by the decimals), counts exactly, sums and averages up to rounding; sizes and ratios reported equal those of the encoded columns. Non-trivial: the sixth query selects some rows and not all. Distinct: by the hash of all choices drawn.",
        assumptions: &["no null entries", "at least one row", "decimals with two digits"],
        quick_cases: 2_000,
        thorough_cases: 100_000,
        case_timeout_s: 120,
        check,
    })
}
