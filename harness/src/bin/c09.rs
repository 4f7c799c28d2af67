use ebi::compressor::CompressorConfig;
use ebi::decoder::FileReader;
use ebi::encoder::{ChunkOption, FileWriter};
use ebi::time::SegmentedExecutionTimes;
use harness::data::*;
use harness::{ensure, run, Ctx, Prop};
use std::io::{Cursor, Seek, SeekFrom};
use std::time::{Duration, Instant};

/// The crate's version, from its manifest.
fn version() -> [u16; 3] {
    let t = include_str!("/repo/ebi/Cargo.toml");
    let l = t.lines().find(|l| l.starts_with("version")).unwrap();
    let v: Vec<u16> = l.split('"').nth(1).unwrap().split('.').map(|x| x.parse().unwrap()).collect();
    [v[0], v[1], v[2]]
}

/// The step-by-step writer interface.
fn encode_stepwise(values: &[f64], cfg: CompressorConfig, chunk: ChunkOption, reuse: bool, extra: &[u8]) -> Result<Vec<u8>, String> {
    let mut bytes: Vec<u8> = values.iter().flat_map(|v| v.to_le_bytes()).collect();
    bytes.extend_from_slice(extra);
    let mut out = Cursor::new(Vec::new());
    let mut w = FileWriter::new(&bytes[..], cfg, chunk);
    let e = |e: std::io::Error| format!("stepwise encode failed: {e}");
    w.write_header(&mut out).map_err(e)?;
    let mut comp = None;
    while let Some(mut cw) = w.chunk_writer_with_compressor(comp.take()) {
        cw.write(&mut out).map_err(|e| format!("stepwise encode failed: {e}"))?;
        if reuse {
            comp = Some(cw.into_compressor());
        }
    }
    w.write_footer(&mut out, SegmentedExecutionTimes::new()).map_err(e)?;
    out.seek(SeekFrom::Start(w.footer_offset_slot_offset() as u64)).map_err(e)?;
    w.write_footer_offset(&mut out).map_err(e)?;
    out.seek(SeekFrom::Start(w.elapsed_time_slot_offset() as u64)).map_err(e)?;
    w.write_elapsed_time(&mut out).map_err(e)?;
    Ok(out.into_inner())
}

fn check(c: &mut Ctx) -> Result<(), String> {
    let setup = gen_scheme(&mut c.src, &ALL);
    let n = if c.src.chance(1, 30) { 0 } else { gen_len_or_long(&mut c.src, 3000, 1500) };
    let mut content = gen_content(&mut c.src, setup, n, false);
    c.label(format!("scheme={:?}", content.setup.scheme));
    match c.src.below(60) {
        0 => {
            // chunks of nothing: refused, not an empty file
            content.chunk = if c.src.flip() { ChunkOption::RecordCount(0) } else { ChunkOption::ByteSizeBestEffort(0) };
            c.note(|| content.describe());
            c.label("chunk-size-zero");
            if n > 0 {
                let r = encode(&content.values, content.setup.config, content.chunk);
                ensure!(r.is_err(), "chunk option {:?} was accepted for {n} records", content.chunk);
            }
            return Ok(());
        }
        1 => {
            // far more than there is
            let h = match c.src.below(3) {
                0 => usize::MAX - c.src.below(9) as usize,
                1 => 1usize << c.src.range(34, 63),
                _ => (1usize << c.src.range(34, 62)) + c.src.below(1 << 20) as usize,
            };
            content.chunk = if c.src.flip() { ChunkOption::RecordCount(h) } else { ChunkOption::ByteSizeBestEffort(h) };
            c.label("chunk-size-huge");
        }
        _ => {}
    }
    c.note(|| content.describe());
    let t = Instant::now();
    let bytes = encode(&content.values, content.setup.config, content.chunk)?;
    let wall = t.elapsed();
    let k = parse_container(&bytes)?;

    // the header says what was asked for
    ensure!(&k.magic == b"EBI1", "magic number {:?}", k.magic);
    ensure!(k.field_type == 0, "field type {}", k.field_type);
    ensure!(k.scheme == scheme_id(content.setup.scheme), "scheme number {}", k.scheme);
    let (kind, value) = match content.chunk {
        ChunkOption::Full => (0, 0),
        ChunkOption::RecordCount(v) => (1, v as u64),
        ChunkOption::ByteSizeBestEffort(v) => (2, v as u64),
    };
    ensure!((k.chunk_kind, k.chunk_value) == (kind, value), "chunk option {} {}", k.chunk_kind, k.chunk_value);
    ensure!(k.version == version(), "version {:?} instead of {:?}", k.version, version());

    // the chunks tile the records and the bytes between header and footer
    ensure!(k.n_records == n as u64, "{} records instead of {n}", k.n_records);
    let mut starts: Vec<(u64, u64)> = k.chunks.clone();
    starts.push((k.footer_offset, n as u64));
    ensure!(starts[0] == (HEADER_SIZE as u64, 0), "the first chunk starts at {:?}", starts[0]);
    for (i, w) in starts.windows(2).enumerate() {
        ensure!(w[0].0 < w[1].0 && w[0].1 < w[1].1, "chunk {i} at {:?} is followed by {:?}", w[0], w[1]);
    }
    match content.chunk {
        ChunkOption::Full => ensure!(k.chunks.len() == n.min(1), "{} chunks", k.chunks.len()),
        ChunkOption::RecordCount(r) => {
            ensure!(k.chunks.len() == n.div_ceil(r), "{} chunks of {r} records for {n}", k.chunks.len());
            for (i, ch) in k.chunks.iter().enumerate() {
                ensure!(ch.1 == i as u64 * r as u64, "chunk {i} starts at record {} with {r} per chunk", ch.1);
            }
        }
        ChunkOption::ByteSizeBestEffort(b) => {
            // best effort: a chunk holds no more raw data than twice the requested size
            for w in starts.windows(2) {
                let raw = (w[1].1 - w[0].1) * 8;
                ensure!(raw <= (b as u64).saturating_mul(2).saturating_add(16), "a chunk of {raw} raw bytes for a target of {b}");
            }
        }
    }

    // the configuration comes back
    let mut cfg = Vec::new();
    content.setup.config.serialize(&mut cfg).map_err(|e| format!("serialize: {e}"))?;
    ensure!(cfg.len() == content.setup.config.serialized_size(), "serialized size {} is not {}", content.setup.config.serialized_size(), cfg.len());
    ensure!(cfg[0] as usize == cfg.len() - 1 && cfg[1..] == k.config[..], "configuration bytes {:?} instead of {cfg:?}", k.config);
    if let Some((_, v)) = content.setup.cfg_text.split_once('=') {
        let v: i64 = v.parse().unwrap();
        // a scale is the last field, a capacity or level the only one
        let w = k.config.len().min(8);
        ensure!(
            w >= 4 && v.to_le_bytes().starts_with(&k.config[k.config.len() - w..]),
            "configuration bytes {:?} for {}",
            k.config,
            content.setup.cfg_text
        );
    }

    // the wall-clock fields are consistent with the time the encoding took
    let time = |b: &[u8], i: usize| {
        u128::from_le_bytes(b[k.times_at + 16 * i..k.times_at + 16 * (i + 1)].try_into().unwrap())
    };
    for i in 0..10 {
        ensure!(time(&bytes, i) <= wall.as_nanos(), "time field {i} is {} ns, encoding took {} ns", time(&bytes, i), wall.as_nanos());
    }

    // the step-by-step interface writes the same file
    let reuse = c.src.flip();
    // (also when the input ends within a record)
    let extra: Vec<u8> = (0..c.src.below(12).saturating_sub(4)).map(|_| c.src.below(256) as u8).collect();
    let other = encode_stepwise(&content.values, content.setup.config, content.chunk, reuse, &extra)?;
    ensure!(
        without_times(&other)? == without_times(&bytes)?,
        "the step-by-step writer (reuse={reuse}, {} bytes after the last record) writes another file",
        extra.len()
    );

    // overwrite the wall-clock fields to see that each is read back as itself
    let mut bytes = bytes;
    for i in 0..10 {
        let ns = match c.src.below(3) {
            0 => c.src.below(1_000_000) as u128,
            1 => c.src.bits() as u128,
            _ => c.src.below(1 << 40) as u128 * 1_000_000_000 + c.src.below(1_000_000_000) as u128,
        };
        bytes[k.times_at + 16 * i..k.times_at + 16 * (i + 1)].copy_from_slice(&ns.to_le_bytes());
    }
    let crc = c.src.below(1 << 32) as u32;
    let at = bytes.len() - 4;
    bytes[at..].copy_from_slice(&crc.to_le_bytes());

    // what the reader reports is what the file says
    let d = open(&bytes)?;
    let (h, f) = (d.header(), d.footer());
    ensure!(h.magic_number() == &k.magic && h.version() == &k.version, "header {h:?}");
    ensure!(h.footer_offset() == k.footer_offset, "footer offset {}", h.footer_offset());
    ensure!(*h.config().chunk_option() == content.chunk, "chunk option {:?} instead of {:?}", h.config().chunk_option(), content.chunk);
    ensure!(*h.config().compression_scheme() as u8 == k.scheme, "scheme {:?}", h.config().compression_scheme());
    ensure!(*h.config().field_type() as u8 == 0, "field type {:?}", h.config().field_type());
    ensure!(f.number_of_records() == n as u64, "the reader reports {} records", f.number_of_records());
    ensure!(f.number_of_chunks() == k.chunks.len() as u64, "the reader reports {} chunks", f.number_of_chunks());
    let cf: Vec<(u64, u64)> = f.chunk_footers().iter().map(|x| (x.physical_offset(), x.logical_offset())).collect();
    ensure!(cf == k.chunks, "the reader reports chunks {cf:?} instead of {:?}", k.chunks);
    ensure!(*f.compressor_config() == content.setup.config, "configuration {:?} instead of {:?}", f.compressor_config(), content.setup.config);
    ensure!(f.compressor_config().scale() == content.setup.scale.map(|s| s.0), "scale {:?}", f.compressor_config().scale());
    ensure!(f.crc() == crc, "crc {:#x} instead of {crc:#x}", f.crc());
    ensure!(d.total_file_size() == bytes.len() as u64, "file size {} instead of {}", d.total_file_size(), bytes.len());
    ensure!(d.footer_size() == bytes.len() as u64 - k.footer_offset, "footer size {}", d.footer_size());
    ensure!(f.size() as u64 == bytes.len() as u64 - k.footer_offset, "footer size {}", f.size());
    ensure!(d.total_chunk_size() == k.footer_offset - HEADER_SIZE as u64, "chunk bytes {}", d.total_chunk_size());
    ensure!(f.compression_elapsed_time_nano_secs() == time(&bytes, 0), "elapsed time {}", f.compression_elapsed_time_nano_secs());
    let dur = |ns: u128| Duration::new((ns / 1_000_000_000) as u64, (ns % 1_000_000_000) as u32);
    ensure!(f.compression_elapsed_time() == dur(time(&bytes, 0)), "elapsed time {:?}", f.compression_elapsed_time());
    let s = f.segmented_execution_times();
    let got = [
        s.io_read(), s.io_write(), s.xor(), s.delta(), s.quantization(), s.bit_packing(), s.compare_insert(), s.sum(), s.decompression(),
    ];
    for (i, g) in got.iter().enumerate() {
        ensure!(*g == dur(time(&bytes, i + 1)), "time of segment {i}: {g:?} instead of {:?}", dur(time(&bytes, i + 1)));
    }

    // the step-by-step reader and its chunk handles
    let mut cur = Cursor::new(&bytes);
    let mut r = FileReader::new();
    ensure!(r.header().is_none() && r.footer().is_none() && r.metadata().is_none(), "a fresh reader reports metadata");
    ensure!(r.seek_to_footer(&mut cur).is_err() && r.fetch_footer(&mut cur).is_err(), "footer before header");
    let mut cur = Cursor::new(&bytes);
    r.fetch_header(&mut cur).map_err(|e| format!("{e}"))?;
    r.seek_to_footer(&mut cur).map_err(|e| format!("{e}"))?;
    r.fetch_footer(&mut cur).map_err(|e| format!("{e}"))?;
    let m = r.into_metadata().ok_or("no metadata")?;
    let hs: Vec<_> = m.chunks_iter().collect();
    ensure!(hs.len() == k.chunks.len(), "{} chunk handles", hs.len());
    for (i, x) in hs.iter().enumerate() {
        let (a, b) = (starts[i], starts[i + 1]);
        ensure!(x.chunk_index() == i && x.is_last_chunk() == (i + 1 == hs.len()), "chunk handle {i}");
        ensure!(x.physical_offset() == a.0 && x.logical_offset() == a.1, "chunk handle {i} starts elsewhere");
        ensure!(x.next_physical_offset() == b.0 && x.next_logical_offset() == b.1, "chunk handle {i} ends elsewhere");
        ensure!(x.chunk_size() == b.0 - a.0 && x.number_of_records() == b.1 - a.1, "size of chunk handle {i}");
        ensure!(x.logical_record_range() == (a.1..b.1), "records of chunk handle {i}");
        ensure!(x.logical_record_range_u32() == (a.1 as u32..b.1 as u32), "records of chunk handle {i}");
        x.seek_to_chunk_end(&mut cur).map_err(|e| format!("{e}"))?;
        ensure!(cur.position() == b.0, "end of chunk {i}");
        x.seek_to_chunk(&mut cur).map_err(|e| format!("{e}"))?;
        ensure!(cur.position() == a.0, "start of chunk {i}");
    }
    c.label(format!("chunks={}", match k.chunks.len() { 0 => "0", 1 => "1", 2..=9 => "2-9", _ => "10+" }));
    if k.chunks.len() >= 2 {
        c.nontrivial();
    }
    Ok(())
}

fn main() {
    run(Prop {
        id: "C09",
        rule: "A case is a scheme with a configuration (all 13), 0..2600 (rarely up to 140000) values, a chunking (whole file, record count, byte target; rarely of zero, which has to be refused, or of up to 2^64); the file is written by the one-call and the step-by-step interface (with 0..7 bytes after the last record) and its wall-clock and checksum fields are then overwritten at random. Oracle: an independent parser of the container (header, chunk table, configuration, times) applied to the bytes; the requested options and the input length; every field the reader and the chunk handles report. Non-trivial: at least two chunks. Distinct: by the hash of all choices drawn.",
        assumptions: &[
            "a byte target is only held to a factor of two of raw data",
            "recorded times are compared with the wall time of the encoding call (upper bound)",
        ],
        quick_cases: 500_000,
        thorough_cases: 3_000_000,
        case_timeout_s: 60,
        check,
    })
}
