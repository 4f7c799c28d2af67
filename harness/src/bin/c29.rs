use ebi::api::decoder::{ChunkId, Decoder, DecoderInput, DecoderOutput};
use ebi::api::encoder::{Encoder, EncoderInput, EncoderOutput};
use ebi::compressor::{Compressor, CompressorConfig};
use ebi::decoder::query::{Predicate, Range, RangeValue};
use ebi::encoder::ChunkOption;
use harness::data::*;
use harness::source::Rng;
use harness::{ensure, run, Ctx, Prop};
use roaring::RoaringBitmap;
use std::collections::HashMap;
use std::io::{self, Cursor, Read, Seek, SeekFrom, Write};

// ---------------------------------------------------------------- long chunks

/// Which value of the pool each record is.
fn gen_sequence(s: &mut harness::source::Source, n: usize, pool: usize, chunk: usize) -> (Vec<u16>, &'static str) {
    let mut r = Rng::new(s.bits());
    let pool64 = pool as u64;
    let kind = s.below(5);
    let mut v: Vec<u16> = Vec::with_capacity(n);
    let shape = match kind {
        0 => {
            v.extend((0..n).map(|i| (i % pool) as u16));
            "cycle"
        }
        1 => {
            v.extend((0..n).map(|_| (r.next() % pool64) as u16));
            "scattered"
        }
        2 => {
            let longest = *s.pick(&[3u64, 300, 40_000, 700_000]);
            while v.len() < n {
                let k = 1 + r.next() % longest;
                let x = (r.next() % pool64) as u16;
                for _ in 0..k.min((n - v.len()) as u64) {
                    v.push(x);
                }
            }
            "runs"
        }
        3 => {
            v.resize(n, 0);
            for _ in 0..s.urange(1, 40) {
                let i = (r.next() % n as u64) as usize;
                v[i] = (r.next() % pool64) as u16;
            }
            "almost constant"
        }
        _ => {
            // a stretch of each kind
            while v.len() < n {
                let k = (1 + r.next() % 100_000) as usize;
                let x = r.next() % pool64;
                let how = r.next() % 3;
                for j in 0..k.min(n - v.len()) {
                    v.push(match how {
                        0 => x,
                        1 => (x + j as u64) % pool64,
                        _ => r.next() % pool64,
                    } as u16);
                }
            }
            "mixed"
        }
    };
    // every chunk has every value of the pool, so that the range it stores is the pool's
    for b in (0..n).step_by(chunk) {
        let m = chunk.min(n - b);
        let at = (r.next() % (m - pool.min(m) + 1) as u64) as usize;
        for j in 0..pool.min(m) {
            v[b + at + j] = j as u16;
        }
    }
    (v, shape)
}

fn long_chunks(c: &mut Ctx) -> Result<(), String> {
    let setup = gen_scheme(&mut c.src, &[LOSSLESS.as_slice(), SCALED.as_slice()].concat());
    let most = match setup.scheme {
        Scheme::Elf | Scheme::ElfOnChimp | Scheme::Gzip => 3_000_000,
        _ => 17_000_000,
    };
    let n = match c.src.below(10) {
        0..=4 => c.src.urange(66_000, 300_000),
        5..=8 => c.src.urange(66_000, 2_500_000),
        _ => c.src.urange(66_000, most),
    };
    let p = c.src.urange(1, 300);
    let mut content = gen_content(&mut c.src, setup, p, false);
    for v in content.values.iter_mut() {
        if v.is_nan() {
            *v = 0.5;
        }
    }
    content.chunk = ChunkOption::Full;
    let pool = content.values.clone();
    // the last chunk is not shorter than the pool either
    let chunk = match c.src.below(3) {
        0 => {
            let k = c.src.urange(65_000, n);
            if n % k != 0 && n % k < p { n } else { k }
        }
        _ => n,
    };
    let option = if chunk == n { ChunkOption::Full } else { ChunkOption::RecordCount(chunk) };
    let (seq, shape) = gen_sequence(&mut c.src, n, p, chunk);
    c.label(format!("scheme={:?}", content.setup.scheme));
    c.label(format!("order={shape}"));
    c.label(if n > 2_500_000 { "more than 2.5 million records" } else { "long chunk" });
    c.note(|| format!("{n} records ({shape}) in chunks of {chunk} over the pool: {}", content.describe()));

    let values: Vec<f64> = seq.iter().map(|j| pool[*j as usize]).collect();
    let bytes = encode(&values, content.setup.config, option)?;
    drop(values);
    let mut d = open(&bytes)?;
    let file_len = bytes.len() as u64;
    drop(bytes);
    // the same values in a chunk of their own
    let small = encode(&pool, content.setup.config, ChunkOption::Full)?;
    let mut sd = open(&small)?;
    let want = materialize(&mut sd, None, None)?;
    ensure!(want.len() == p, "the pool of {p} values has {} records", want.len());

    ensure!(d.footer().number_of_records() == n as u64, "{} records instead of {n}", d.footer().number_of_records());
    ensure!(d.chunk_footers().len() >= n.div_ceil(chunk), "{} chunks", d.chunk_footers().len());
    ensure!(d.total_file_size() == file_len, "file size {} instead of {file_len}", d.total_file_size());
    let got = materialize(&mut d, None, None)?;
    ensure!(got.len() == n, "{} values came back instead of {n}", got.len());
    for (i, g) in got.iter().enumerate() {
        let w = want[seq[i] as usize];
        ensure!(g.to_bits() == w.to_bits(), "record {i} of {n} is {g:?} instead of {w:?}");
    }
    drop(got);

    // selections, filters and aggregates agree with the small file's
    let starts: Vec<usize> = (0..n).step_by(chunk).chain([n]).collect();
    for _ in 0..2 {
        let mask = if c.src.flip() {
            None
        } else {
            let mut m = RoaringBitmap::new();
            for _ in 0..c.src.urange(1, 6) {
                let a = c.src.below(n as u64) as u32;
                let k = match c.src.below(3) {
                    0 => 1,
                    1 => c.src.range(1, 5_000),
                    _ => c.src.range(1, 500_000),
                } as u32;
                m.insert_range(a..(a.saturating_add(k)).min(n as u32));
            }
            if c.src.flip() {
                m.insert(n as u32 - 1);
            }
            Some(m)
        };
        let pred = gen_predicate_fine(&mut c.src, &content);
        let chunk_id = if starts.len() > 2 && c.src.flip() { Some(c.src.urange(0, starts.len() - 2)) } else { None };
        c.note(|| format!("{pred:?} mask={} chunk={chunk_id:?}", mask.as_ref().map_or("none".into(), |m| format!("{} of {n}", m.len()))));
        let (lo, hi) = chunk_id.map_or((0, n), |k| (starts[k], starts[k + 1]));
        let sel: Vec<u32> = match &mask {
            Some(m) => m.iter().filter(|i| (lo..hi).contains(&(*i as usize))).collect(),
            None => (lo as u32..hi as u32).collect(),
        };
        let holds = sd.filter(pred, None, None).map_err(|e| format!("filter: {e}"))?;
        let f = d.filter(pred, mask.as_ref(), chunk_id.map(ChunkId::new)).map_err(|e| format!("filter: {e}"))?;
        let wf = RoaringBitmap::from_sorted_iter(sel.iter().copied().filter(|i| holds.contains(seq[*i as usize] as u32))).unwrap();
        if f != wf {
            let i = (&f ^ &wf).min().unwrap();
            return Err(format!("filter {pred:?}: record {i} ({:?}) is {}selected, in a small file it is not so; {} instead of {} records", want[seq[i as usize] as usize], if f.contains(i) { "" } else { "not " }, f.len(), wf.len()));
        }
        let part = materialize(&mut d, mask.as_ref(), chunk_id)?;
        ensure!(part.len() == sel.len(), "{} records instead of the {} selected", part.len(), sel.len());
        for (g, i) in part.iter().zip(&sel) {
            let w = want[seq[*i as usize] as usize];
            ensure!(g.to_bits() == w.to_bits(), "selected record {i} is {g:?} instead of {w:?}");
        }
        if sel.is_empty() {
            continue;
        }
        let mut counts = vec![0u64; p];
        for i in &sel {
            counts[seq[*i as usize] as usize] += 1;
        }
        let used: Vec<f64> = (0..p).filter(|j| counts[*j] > 0).map(|j| want[j]).collect();
        let e = |e| format!("aggregate: {e}");
        let max = d.max(mask.as_ref(), chunk_id.map(ChunkId::new)).map_err(e)?;
        let min = d.min(mask.as_ref(), chunk_id.map(ChunkId::new)).map_err(e)?;
        ensure!(max == used.iter().copied().fold(f64::NEG_INFINITY, f64::max), "maximum {max:?} of {} records", sel.len());
        ensure!(min == used.iter().copied().fold(f64::INFINITY, f64::min), "minimum {min:?} of {} records", sel.len());
        let mag: f64 = (0..p).map(|j| counts[j] as f64 * want[j].abs()).sum();
        if mag < 1e290 {
            let sum = d.sum(mask.as_ref(), chunk_id.map(ChunkId::new)).map_err(e)?;
            let w: f64 = (0..p).map(|j| counts[j] as f64 * want[j]).sum();
            ensure!(close(sum, w, mag, sel.len()), "sum {sum:?} of {} records instead of {w:?}", sel.len());
        }
        if sel.len() > 65_536 {
            c.nontrivial();
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- large files

const BLOCK: usize = 1 << 16;

/// A file that keeps only the blocks that are not all zero.
struct Sparse {
    blocks: HashMap<u64, Box<[u8]>>,
    len: u64,
    pos: u64,
}
impl Write for Sparse {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut done = 0;
        while done < buf.len() {
            let at = (self.pos % BLOCK as u64) as usize;
            let k = (BLOCK - at).min(buf.len() - done);
            let part = &buf[done..done + k];
            let no = self.pos / BLOCK as u64;
            if self.blocks.contains_key(&no) || part.iter().any(|b| *b != 0) {
                let b = self.blocks.entry(no).or_insert_with(|| vec![0; BLOCK].into());
                b[at..at + k].copy_from_slice(part);
            }
            done += k;
            self.pos += k as u64;
            self.len = self.len.max(self.pos);
        }
        Ok(buf.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Read for Sparse {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let want = (buf.len() as u64).min(self.len.saturating_sub(self.pos)) as usize;
        let mut done = 0;
        while done < want {
            let at = (self.pos % BLOCK as u64) as usize;
            let k = (BLOCK - at).min(want - done);
            match self.blocks.get(&(self.pos / BLOCK as u64)) {
                Some(b) => buf[done..done + k].copy_from_slice(&b[at..at + k]),
                None => buf[done..done + k].fill(0),
            }
            done += k;
            self.pos += k as u64;
        }
        Ok(want)
    }
}
impl Seek for Sparse {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        let p = match to {
            SeekFrom::Start(p) => p as i128,
            SeekFrom::End(k) => self.len as i128 + k as i128,
            SeekFrom::Current(k) => self.pos as i128 + k as i128,
        };
        if p < 0 {
            return Err(io::Error::new(io::ErrorKind::InvalidInput, "before the start"));
        }
        self.pos = p as u64;
        Ok(self.pos)
    }
}

/// Zeros, with a few other records.
struct Zeros {
    marks: Vec<(u64, f64)>,
    len: u64,
    pos: u64,
}
impl Read for Zeros {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let k = (buf.len() as u64).min(self.len - self.pos).min(1 << 22);
        let b = &mut buf[..k as usize];
        b.fill(0);
        let end = self.pos + k;
        let from = self.marks.partition_point(|(i, _)| i * 8 + 8 <= self.pos);
        for (i, v) in &self.marks[from..] {
            if i * 8 >= end {
                break;
            }
            for (j, x) in v.to_le_bytes().iter().enumerate() {
                let p = i * 8 + j as u64;
                if p >= self.pos && p < end {
                    b[(p - self.pos) as usize] = *x;
                }
            }
        }
        self.pos = end;
        Ok(k as usize)
    }
}

fn large_file(c: &mut Ctx) -> Result<(), String> {
    // beyond 4 GiB, now and then far enough that several chunks lie beyond
    let base = 1u64 << 29;
    let n = base + c.src.range(1, 6_000_000);
    let chunk = *c.src.pick(&[1usize << 17, 1_000_000, (1 << 20) + 7, 3_000_017]);
    let mut marks = std::collections::BTreeMap::new();
    for _ in 0..c.src.urange(4, 20) {
        let i = match c.src.below(4) {
            0 => base - 10_000 + c.src.below(20_000),
            1 => base + c.src.below(n - base),
            2 => n - 1,
            _ => c.src.below(n),
        }
        .min(n - 1);
        marks.insert(i, c.src.irange(-1000, 1000) as f64 / 4.0 + 0.125);
    }
    marks.insert(n - 1, 77.125);
    let marks: Vec<(u64, f64)> = marks.into_iter().collect();
    c.label("file beyond 4 GiB");
    c.note(|| format!("{n} records in chunks of {chunk}, all zero but {marks:?}"));
    let config: CompressorConfig = CompressorConfig::uncompressed().build().into();
    let mut e = Encoder::new(
        EncoderInput::from_reader(Zeros { marks: marks.clone(), len: n * 8, pos: 0 }),
        EncoderOutput::from_writer(Sparse { blocks: HashMap::new(), len: 0, pos: 0 }),
        ChunkOption::RecordCount(chunk),
        config,
    );
    e.encode().map_err(|e| format!("encode failed: {e}"))?;
    let mut file = e.into_output().into_inner();
    let len = file.len;
    ensure!(len > n * 8, "a file of {len} bytes for {n} plain records");
    file.pos = 0;
    let mut d = Decoder::new(DecoderInput::from_reader(file)).map_err(|e| format!("cannot open the encoded file: {e}"))?;
    ensure!(d.footer().number_of_records() == n, "{} records instead of {n}", d.footer().number_of_records());
    let chunks = n.div_ceil(chunk as u64);
    ensure!(d.chunk_footers().len() as u64 >= chunks, "{} chunks instead of {chunks}", d.chunk_footers().len());
    ensure!(d.total_file_size() == len, "file size {} instead of {len}", d.total_file_size());
    // every chunk near a mark or the 4 GiB line
    let mut look: Vec<u64> = marks.iter().map(|m| m.0 / chunk as u64).collect();
    look.extend([0, (base / chunk as u64).saturating_sub(1), base / chunk as u64, chunks - 1]);
    look.sort();
    look.dedup();
    for k in look.iter().take(12) {
        let mut out = DecoderOutput::from_writer(Cursor::new(Vec::new()));
        d.materialize(&mut out, None, Some(ChunkId::new(*k as usize))).map_err(|e| format!("chunk {k}: {e}"))?;
        let got = to_f64s(&out.into_writer().into_inner());
        let first = k * chunk as u64;
        let want = (n - first).min(chunk as u64) as usize;
        ensure!(got.len() == want, "chunk {k} has {} records instead of {want}", got.len());
        let mut w = vec![0.0; want];
        for (i, v) in &marks {
            if *i >= first && *i < first + want as u64 {
                w[(i - first) as usize] = *v;
            }
        }
        same_bits(&got, &w).map_err(|e| format!("chunk {k}: {e}"))?;
    }
    let value = c.src.pick(&marks).1;
    let f = d.filter(Predicate::Eq(value), None, None).map_err(|e| format!("filter: {e}"))?;
    let w: RoaringBitmap = marks.iter().filter(|m| m.1 == value).map(|m| m.0 as u32).collect();
    ensure!(f == w, "records equal to {value}: {f:?} instead of {w:?}");
    if c.src.chance(1, 3) {
        let p = Predicate::Range(Range::new(RangeValue::Exclusive(0.0), RangeValue::None));
        let f = d.filter(p, None, None).map_err(|e| format!("filter: {e}"))?;
        let w: RoaringBitmap = marks.iter().filter(|m| m.1 > 0.0).map(|m| m.0 as u32).collect();
        ensure!(f == w, "positive records: {f:?} instead of {w:?}");
    }
    let mask: RoaringBitmap = marks.iter().map(|m| m.0 as u32).collect();
    let mut out = DecoderOutput::from_writer(Cursor::new(Vec::new()));
    d.materialize(&mut out, Some(&mask), None).map_err(|e| format!("materialize: {e}"))?;
    let got = to_f64s(&out.into_writer().into_inner());
    same_bits(&got, &marks.iter().map(|m| m.1).collect::<Vec<_>>())?;
    let s = d.sum(Some(&mask), None).map_err(|e| format!("sum: {e}"))?;
    let w: f64 = marks.iter().map(|m| m.1).sum();
    ensure!(s == w, "sum {s:?} instead of {w:?}");
    let m = d.max(Some(&mask), None).map_err(|e| format!("max: {e}"))?;
    ensure!(m == marks.iter().map(|m| m.1).fold(f64::NEG_INFINITY, f64::max), "maximum {m:?}");
    c.nontrivial();
    Ok(())
}

// ---------------------------------------------------------------- chunks beyond 2^32 bits

/// Records that hardly compress: random mantissas, sixteen exponents.
#[derive(Clone)]
struct Noise {
    r: u64,
    left: u64,
}
impl Noise {
    fn value(&mut self) -> f64 {
        self.r ^= self.r << 13;
        self.r ^= self.r >> 7;
        self.r ^= self.r << 17;
        let x = self.r;
        f64::from_bits((x & 0x000f_ffff_ffff_ffff) | ((x >> 60) << 52) | 0x3000_0000_0000_0000)
    }
}
impl Read for Noise {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let k = ((buf.len() / 8) as u64).min(self.left) as usize;
        for b in buf.chunks_exact_mut(8).take(k) {
            b.copy_from_slice(&self.value().to_le_bytes());
        }
        self.left -= k as u64;
        Ok(k * 8)
    }
}
/// Compares what is written with the noise.
struct Compare {
    noise: Noise,
    part: Vec<u8>,
    n: u64,
    wrong: Option<String>,
}
impl Write for Compare {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        for b in buf {
            self.part.push(*b);
            if self.part.len() == 8 {
                let g = f64::from_ne_bytes(self.part[..].try_into().unwrap());
                self.part.clear();
                let w = self.noise.value();
                if g.to_bits() != w.to_bits() && self.wrong.is_none() {
                    self.wrong = Some(format!("record {} is {g:?} instead of {w:?}", self.n));
                }
                self.n += 1;
            }
        }
        Ok(buf.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn huge_chunk(c: &mut Ctx) -> Result<(), String> {
    let scheme = *c.src.pick(&[
        Scheme::Chimp128,
        Scheme::Gorilla,
        Scheme::Chimp,
        Scheme::Rle,
        Scheme::Zstd,
        Scheme::Snappy,
        Scheme::Uncompressed,
    ]);
    let setup = gen_config(&mut c.src, scheme);
    let n = c.src.range(76_000_000, 82_000_000);
    let noise = Noise { r: c.src.bits() | 1, left: n };
    c.label(format!("scheme={scheme:?}"));
    c.label("chunk beyond 2^32 bits");
    c.note(|| format!("{n} random records of scheme {scheme:?} {} in one chunk", setup.cfg_text));
    if c.src.flip() {
        // the compressor on its own: the size it announces
        let mut src = noise.clone();
        let values: Vec<f64> = (0..n).map(|_| src.value()).collect();
        let mut comp = setup.config.build();
        comp.compress(&values).map_err(|e| format!("compress: {e}"))?;
        ensure!(comp.total_bytes_in() as u64 == 8 * n, "{} bytes in for {n} records", comp.total_bytes_in());
        let announced = comp.total_bytes_buffered();
        comp.prepare();
        let size: usize = comp.buffers().iter().map(|b| b.len()).sum();
        ensure!(announced == size || announced == size + 1, "{announced} bytes were announced, there are {size}");
    } else {
        let mut e = Encoder::new(
            EncoderInput::from_reader(noise.clone()),
            EncoderOutput::from_vec(Vec::new()),
            ChunkOption::RecordCount(n as usize),
            setup.config,
        );
        e.encode().map_err(|e| format!("encode failed: {e}"))?;
        let bytes = e.into_output().into_vec();
        let mut d = Decoder::new(DecoderInput::from_reader(Cursor::new(bytes))).map_err(|e| format!("cannot open the encoded file: {e}"))?;
        ensure!(d.footer().number_of_records() == n, "{} records instead of {n}", d.footer().number_of_records());
        let mut out = DecoderOutput::from_writer(Compare { noise, part: vec![], n: 0, wrong: None });
        d.materialize(&mut out, None, None).map_err(|e| format!("materialize: {e}"))?;
        let out = out.into_writer();
        if let Some(w) = out.wrong {
            return Err(w);
        }
        ensure!(out.n == n, "{} values came back instead of {n}", out.n);
    }
    c.nontrivial();
    Ok(())
}

fn check(c: &mut Ctx) -> Result<(), String> {
    if c.src.chance(1, 80) {
        huge_chunk(c)
    } else if c.src.chance(1, 60) {
        large_file(c)
    } else {
        long_chunks(c)
    }
}

fn main() {
    run(Prop {
        id: "C29",
        rule: "A case is either 66000 to 17 million records (any scheme; a pool of up to 300 generated values in a cycle, scattered, in runs of up to 700000, almost constant or mixed) in one chunk or in chunks of at least 65000, or (one case in 80) some 80 million random records in one chunk, more than 2^32 bits (seven schemes; through the encoder and the decoder, or the compressor alone), or (one case in 60) a file of plain records just beyond 4 GiB (written to and read from a sparse in-memory file, zero but for 5-20 marked records, many around the 4 GiB line). Oracle: every record, selection, filter, extreme and sum is what the same values give in a small file of their own; the counts and the file size are right; for the large file the marked records are found where they were put; the random records come back, or the size the compressor announces is the size. Non-trivial: more than 65536 selected records, a chunk beyond 2^32 bits, or a file beyond 4 GiB. Distinct: by the hash of all choices drawn.",
        assumptions: &["fewer than 2^32 records (selections are 32-bit)", "the behaviour on small files is the subject of the other properties"],
        quick_cases: 260,
        thorough_cases: 20_000,
        case_timeout_s: 300,
        check,
    })
}
