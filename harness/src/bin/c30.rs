use ebi::api::decoder::{
    Aggregation, AggregationKind, ChunkId, Decoder, DecoderInput, DecoderOutput, Expr,
};
use ebi::api::encoder::{Encoder, EncoderInput, EncoderOutput};
use ebi::decoder::expr::Op;
use ebi::encoder::ChunkOption;
use ebi::time::{SegmentKind, SegmentedExecutionTimes, SerializableSegmentedExecutionTimes};
use harness::data::*;
use harness::{ensure, run, Ctx, Prop};
use std::cell::RefCell;
use std::io::{self, Cursor, Read, Seek, SeekFrom, Write};
use std::rc::Rc;
use std::time::{Duration, Instant};

/// What the slow streams have waited so far.
#[derive(Default)]
struct Waited {
    reading: Duration,
    /// by the position the bytes were written to
    writing: Vec<(u64, Duration)>,
}
impl Waited {
    fn writing(&self) -> Duration {
        self.writing.iter().map(|w| w.1).sum()
    }
}

/// A stream whose reads and writes take their time, at least.
struct Slow<T> {
    inner: T,
    micros: Vec<u64>,
    calls: usize,
    most: usize,
    pos: u64,
    waited: Rc<RefCell<Waited>>,
}
impl<T> Slow<T> {
    fn new(inner: T, plan: &(Vec<u64>, usize)) -> (Self, Rc<RefCell<Waited>>) {
        let waited = Rc::new(RefCell::new(Waited::default()));
        (Slow { inner, micros: plan.0.clone(), calls: 0, most: plan.1, pos: 0, waited: waited.clone() }, waited)
    }
    fn wait(&mut self) -> Duration {
        let us = self.micros.get(self.calls % self.micros.len().max(1)).copied().unwrap_or(0);
        self.calls += 1;
        let d = Duration::from_micros(us);
        if us > 0 {
            let t = Instant::now();
            std::thread::sleep(d);
            while t.elapsed() < d {}
        }
        d
    }
}
impl<T: Read> Read for Slow<T> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let d = self.wait();
        self.waited.borrow_mut().reading += d;
        let n = b.len().min(self.most);
        let n = self.inner.read(&mut b[..n])?;
        self.pos += n as u64;
        Ok(n)
    }
}
impl<T: Write> Write for Slow<T> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let d = self.wait();
        self.waited.borrow_mut().writing.push((self.pos, d));
        let n = self.inner.write(&b[..b.len().min(self.most)])?;
        self.pos += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.inner.flush()
    }
}
impl<T: Seek> Seek for Slow<T> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.pos = self.inner.seek(p)?;
        Ok(self.pos)
    }
}

/// Delays of the calls in turn, and the most bytes of one call: a transfer of `bytes` takes a
/// handful of calls.
fn gen_plan(c: &mut Ctx, bytes: usize) -> (Vec<u64>, usize) {
    let k = c.src.urange(0, 4);
    let micros = (0..k).map(|_| *c.src.pick(&[0, 50, 300, 700, 2000])).collect();
    let parts = c.src.urange(1, 4);
    (micros, (bytes / parts).max(64))
}

fn total(t: &SegmentedExecutionTimes) -> Duration {
    t.io_read()
        + t.io_write()
        + t.xor()
        + t.delta()
        + t.quantization()
        + t.bit_packing()
        + t.compare_insert()
        + t.sum()
        + t.decompression()
}

/// The times reported for something that took `wall`, in which reading took at least `r` and the
/// writing to be counted at least `w`, other delays `other`.
fn plausible(
    what: &str,
    t: &SegmentedExecutionTimes,
    wall: Duration,
    r: Duration,
    w: Duration,
    other: Duration,
) -> Result<(), String> {
    let all = || format!("{what}: reported {t:?}, took {wall:?}, reading took at least {r:?}, writing {w:?}");
    ensure!(t.io_read() >= r, "too little time for reading; {}", all());
    ensure!(t.io_write() >= w, "too little time for writing; {}", all());
    ensure!(total(t) + other <= wall, "the phases took longer than the whole; {}", all());
    Ok(())
}

fn encoding(c: &mut Ctx, content: &Content) -> Result<Vec<u8>, String> {
    let input: Vec<u8> = content.values.iter().flat_map(|v| v.to_le_bytes()).collect();
    let (ip, op) = (gen_plan(c, input.len()), gen_plan(c, input.len()));
    c.note(|| format!("encode, delays (µs) and longest transfer of the input {ip:?}, of the output {op:?}"));
    let (r, rw) = Slow::new(&input[..], &ip);
    let (w, ww) = Slow::new(Cursor::new(Vec::new()), &op);
    let t = Instant::now();
    let mut e =
        Encoder::new(EncoderInput::from_reader(r), EncoderOutput::from_writer(w), content.chunk, content.setup.config);
    e.encode().map_err(|e| format!("encoding failed: {e}"))?;
    let wall = t.elapsed();
    let bytes = e.into_output().into_inner().inner.into_inner();
    let d = open(&bytes)?;
    let f = d.footer();
    let whole = f.compression_elapsed_time();
    let (reading, writes) = (rw.borrow().reading, ww.borrow());
    let header = d.chunk_footers().first().map_or(0, |c| c.physical_offset());
    let end = d.header().footer_offset();
    let chunks: Duration = writes.writing.iter().filter(|w| w.0 >= header && w.0 < end).map(|w| w.1).sum();
    // the last write is that of the duration itself
    let last = writes.writing.iter().rev().take_while(|w| w.0 > end).map(|w| w.1).sum::<Duration>().min(writes.writing());
    let rest = writes.writing() - chunks;
    let rest = rest - last.min(rest);
    ensure!(whole <= wall, "recorded {whole:?} for an encoding that took {wall:?}");
    plausible("encoding", f.segmented_execution_times(), whole, reading, chunks, rest)?;
    Ok(bytes)
}

fn query(c: &mut Ctx, content: &Content, bytes: &[u8]) -> Result<bool, String> {
    let n = content.values.len();
    let st = chunk_starts(&open(bytes)?, n)?;
    let plan = gen_plan(c, bytes.len());
    c.note(|| format!("queries, delays (µs) and longest transfer of the input {plan:?}"));
    let (r, rw) = Slow::new(Cursor::new(bytes.to_vec()), &plan);
    let mut d = Decoder::new(DecoderInput::from_reader(r)).map_err(|e| format!("opening failed: {e}"))?;
    let mut seen = false;
    for _ in 0..c.src.urange(1, 4) {
        let mask = gen_mask(&mut c.src, n, &st);
        let m = mask.as_ref();
        let cid = gen_chunk_id(&mut c.src, st.len() - 1).map(ChunkId::new);
        let p = gen_predicate(&mut c.src, content);
        let op = c.src.below(8);
        let out = gen_plan(c, 8 * n);
        // a call for each record: keep its delays few
        let out = if n > 40 { (vec![], 1 << 30) } else { (out.0, 1 << 30) };
        let dim = c.src.urange(1, n);
        let target: Vec<f64> = content.values[..dim].to_vec();
        let (w, ww) = Slow::new(Vec::new(), &out);
        let mut w = DecoderOutput::from_writer(w);
        let before = rw.borrow().reading;
        let t = Instant::now();
        let name = match op {
            0 => d.materialize(&mut w, m, cid).map(|_| "scan"),
            1 => d.filter_materialize(&mut w, p, m, cid).map(|_| "filtered scan"),
            2 => d.filter(p, m, cid).map(|_| "filter"),
            3 => d.sum(m, cid).map(|_| "sum"),
            4 => d.min(m, cid).map(|_| "min"),
            5 => d.max(m, cid).map(|_| "max"),
            6 => d.knn1(&target).map(|_| "nearest neighbour"),
            _ => {
                let cols = (1..=n.min(dim)).rev().find(|k| n % k == 0).unwrap_or(1);
                d.matmul(&target[..cols], (cols, 1), (1, cols)).map(|_| "product")
            }
        };
        let wall = t.elapsed();
        let name = name.map_err(|e| format!("query {op} failed: {e}"))?;
        let reading = rw.borrow().reading - before;
        c.label(name);
        c.note(|| format!("{name}: reading delayed by {reading:?}, writing by {:?}", ww.borrow().writing()));
        plausible(name, &d.segmented_execution_times(), wall, reading, ww.borrow().writing(), Duration::ZERO)?;
        seen |= reading > Duration::ZERO;
    }
    Ok(seen)
}

fn aggregates(c: &mut Ctx, bytes: &[u8]) -> Result<bool, String> {
    let plan = gen_plan(c, bytes.len());
    let cols = c.src.urange(1, 3);
    let mut ds = vec![];
    let mut waits = vec![];
    for _ in 0..cols {
        let (r, w) = Slow::new(Cursor::new(bytes.to_vec()), &plan);
        ds.push(Decoder::new(DecoderInput::from_reader(r)).map_err(|e| format!("opening failed: {e}"))?);
        waits.push(w);
    }
    let expr = |c: &mut Ctx| {
        let a = Expr::Index(c.src.below(cols as u64) as usize);
        if c.src.flip() {
            return a;
        }
        let rhs = if c.src.flip() { Expr::Literal(2.0) } else { Expr::Index(c.src.below(cols as u64) as usize) };
        Expr::Binary { op: *c.src.pick(&[Op::Add, Op::Mul]), lhs: Box::new(a), rhs: Box::new(rhs) }
    };
    let mut timer = SegmentedExecutionTimes::new();
    let (mut wall, mut seen) = (Duration::ZERO, false);
    let start: Duration = waits.iter().map(|w| w.borrow().reading).sum();
    for _ in 0..c.src.urange(1, 3) {
        let k = c.src.urange(1, 3);
        let aggs: Vec<Aggregation> = (0..k)
            .map(|_| {
                let kind = *c.src.pick(&[AggregationKind::Sum, AggregationKind::Max, AggregationKind::None]);
                Aggregation::new(kind, expr(c))
            })
            .collect();
        let together = c.src.flip();
        let t = Instant::now();
        if together {
            Aggregation::compute_multiple(&aggs, &mut ds, None, &mut timer).map_err(|e| format!("{e}"))?;
        } else {
            for a in &aggs {
                a.compute(&mut ds, None, &mut timer).map_err(|e| format!("{e}"))?;
            }
        }
        wall += t.elapsed();
        // the caller's timer goes on from one call to the next
        let reading: Duration = waits.iter().map(|w| w.borrow().reading).sum::<Duration>() - start;
        c.note(|| format!("{k} aggregates over {cols} columns, together {together}: delays {reading:?}"));
        plausible("aggregates", &timer, wall, reading, Duration::ZERO, Duration::ZERO)?;
        seen |= reading > Duration::ZERO;
    }
    c.label("aggregates of expressions");
    Ok(seen)
}

const KINDS: [SegmentKind; 9] = [
    SegmentKind::IORead,
    SegmentKind::IOWrite,
    SegmentKind::Xor,
    SegmentKind::Delta,
    SegmentKind::Quantization,
    SegmentKind::BitPacking,
    SegmentKind::CompareInsert,
    SegmentKind::Sum,
    SegmentKind::Decompression,
];

fn list(t: &SegmentedExecutionTimes) -> [Duration; 9] {
    [
        t.io_read(),
        t.io_write(),
        t.xor(),
        t.delta(),
        t.quantization(),
        t.bit_packing(),
        t.compare_insert(),
        t.sum(),
        t.decompression(),
    ]
}

fn from_nanos(v: &[u128; 9]) -> SegmentedExecutionTimes {
    SerializableSegmentedExecutionTimes {
        io_read_nanos: v[0],
        io_write_nanos: v[1],
        xor_nanos: v[2],
        delta_nanos: v[3],
        quantization_nanos: v[4],
        bit_packing_nanos: v[5],
        compare_insert_nanos: v[6],
        sum_nanos: v[7],
        decompression_nanos: v[8],
    }
    .into()
}

/// Stop watches on their own, against lists of durations.
fn watches(c: &mut Ctx) -> Result<(), String> {
    let gen = |c: &mut Ctx| -> [u128; 9] {
        std::array::from_fn(|_| match c.src.below(4) {
            0 => 0,
            1 => c.src.below(3_000_000_000) as u128,
            2 => 999_999_990 + c.src.below(20) as u128,
            _ => c.src.below(1 << 62) as u128 * 1000,
        })
    };
    let a = gen(c);
    c.note(|| format!("stop watch from {a:?} ns"));
    let mut t = from_nanos(&a);
    let dur = |n: u128| Duration::new((n / 1_000_000_000) as u64, (n % 1_000_000_000) as u32);
    let mut want = a.map(dur);
    ensure!(list(&t) == want, "{t:?} from the nanoseconds {a:?}");
    // in the order of the format
    let s: SerializableSegmentedExecutionTimes = t.into();
    let back: SegmentedExecutionTimes = s.into();
    ensure!(list(&back) == want, "{back:?} after storing {a:?}");
    for _ in 0..c.src.urange(1, 5) {
        match c.src.below(4) {
            0 => {
                let b = gen(c);
                t += from_nanos(&b);
                for i in 0..9 {
                    want[i] += dur(b[i]);
                }
                ensure!(list(&t) == want, "{t:?} instead of {want:?} after adding {b:?}");
            }
            k => {
                let i = c.src.below(9) as usize;
                let us = *c.src.pick(&[0u64, 100, 600]);
                c.note(|| format!("measure {us} us of phase {i}, way {k}"));
                let (stop, on_drop, add) = (c.src.flip(), c.src.flip(), k == 1 || k == 3);
                let from = Instant::now();
                {
                    let mut w =
                        if add { t.start_addition_measurement(KINDS[i]) } else { t.start_measurement(KINDS[i]) };
                    if on_drop {
                        w.stop_on_drop();
                    }
                    std::thread::sleep(Duration::from_micros(us));
                    if stop {
                        w.stop();
                    }
                }
                let most = from.elapsed();
                let got = list(&t);
                let base = if add { want[i] } else { Duration::ZERO };
                let at = || format!("{:?} add={add} stop={stop} on_drop={on_drop} of {us} µs", KINDS[i]);
                if stop || on_drop {
                    ensure!(
                        got[i] >= base + Duration::from_micros(us) && got[i] <= base + most,
                        "{}: {:?} after {base:?}, it took {most:?}",
                        at(),
                        got[i]
                    );
                    want[i] = got[i];
                }
                ensure!(got == want, "{}: {got:?} instead of {want:?}", at());
            }
        }
    }
    c.label("stop watches");
    c.nontrivial();
    Ok(())
}

fn check(c: &mut Ctx) -> Result<(), String> {
    if c.src.chance(1, 5) {
        return watches(c);
    }
    let setup = gen_scheme(&mut c.src, &ALL);
    let n = gen_len(&mut c.src, 600).max(1);
    let mut content = gen_content(&mut c.src, setup, n, true);
    // few chunks: each takes a delayed call or two
    if let ChunkOption::RecordCount(k) = content.chunk {
        content.chunk = ChunkOption::RecordCount(k.max(n.div_ceil(5)));
    } else if let ChunkOption::ByteSizeBestEffort(k) = content.chunk {
        content.chunk = ChunkOption::ByteSizeBestEffort(k.max(2 * n));
    }
    c.label(format!("scheme={:?}", content.setup.scheme));
    c.note(|| content.describe());
    let bytes = encoding(c, &content)?;
    let seen = if c.src.chance(1, 4) { aggregates(c, &bytes)? } else { query(c, &content, &bytes)? };
    if seen && n >= 2 {
        c.nontrivial();
    }
    Ok(())
}

fn main() {
    run(Prop {
        id: "C30",
        rule: "A case is (four in five) a scheme with a configuration, 1..600 (rarely 1200) values in a few chunks, written and read through streams whose calls take 0..2 ms in a cyclic pattern: an encoding, then 1..4 queries (scan, filtered scan, filter, sum, min, max, nearest neighbour, product) on one open file, or 1..3 evaluations of aggregates of expressions with one timer; or (one in five) a history of up to five additions and measurements on a set of stop watches. Oracle: the delays injected are a lower bound for the reported reading and writing times, and the time taken, measured outside, less the delays that belong to no phase, an upper bound for the sum of all phases; the stop watches follow a list of durations. Non-trivial: a query with delayed reads of at least two records, or a stop-watch history. Distinct: by the hash of all choices drawn.",
        assumptions: &[
            "the clock is monotonic and a sleep takes at least the time asked for",
            "how the remaining time is divided among the computing phases is free",
        ],
        quick_cases: 12_000,
        thorough_cases: 200_000,
        case_timeout_s: 60,
        check,
    })
}
