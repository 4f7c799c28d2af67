use ebi::compressor::{
    run_length::RunLengthCompressor, uncompressed::UncompressedCompressor, AppendableCompressor, Compressor,
    RewindableCompressor,
};
use harness::data::*;
use harness::{ensure, run, Ctx, Prop};

fn decode(comp: &impl Compressor, scheme: Scheme, cfg: &[u8], n: usize) -> Result<Vec<f64>, String> {
    let bytes = comp.buffers().concat();
    if n == 0 {
        return Ok(vec![]);
    }
    let file = build_container(scheme, cfg, (0, 0), &[(bytes, n)]);
    let mut d = open(&file)?;
    materialize(&mut d, None, None)
}

fn history<C: RewindableCompressor + Clone>(c: &mut Ctx, mut comp: C, scheme: Scheme, cfg: &[u8]) -> Result<(), String> {
    let mut model: Vec<f64> = vec![];
    let mut closed = false; // output was prepared
    let steps = c.src.urange(1, 14);
    let (mut appends, mut rewinds) = (0, 0);
    let few: Vec<f64> = [0.0, -0.0, 1.5, f64::NAN, f64::from_bits(0x7ff8_0000_0000_0001), -7.25].to_vec();
    let mut trail = String::new();
    for _ in 0..steps {
        match c.src.weighted(&[8, 7, 1, 1, 2]) {
            0 => {
                // runs of few values, so that runs meet across the calls and rewinds end inside runs
                let mut v = vec![];
                for _ in 0..c.src.urange(0, 5) {
                    let x = if c.src.chance(1, 6) {
                        f64::from_bits(c.src.bits())
                    } else if c.src.flip() && !model.is_empty() {
                        *model.last().unwrap()
                    } else {
                        *c.src.pick(&few)
                    };
                    let len = match c.src.below(8) {
                        0 => c.src.urange(250, 262),
                        1 => c.src.urange(505, 515),
                        2 if c.src.chance(1, 500) => c.src.urange(65_500, 80_000),
                        _ => c.src.urange(1, 6),
                    };
                    if c.src.chance(1, 5000) {
                        // many short runs
                        v.extend((0..70_000).map(|i| few[i % few.len()]));
                    }
                    v.extend(std::iter::repeat_n(x, len));
                }
                trail += &format!("append({}) ", v.len());
                comp.append_compress(&v);
                model.extend_from_slice(&v);
                appends += 1;
            }
            1 => {
                let n = match c.src.below(5) {
                    0 => 0,
                    1 => c.src.urange(0, model.len() + 3),
                    2 => model.len(),
                    3 => {
                        // exactly the last run
                        let last = model.last().map(|v| v.to_bits());
                        model.iter().rev().take_while(|v| Some(v.to_bits()) == last).count()
                    }
                    _ => c.src.urange(0, 9),
                };
                trail += &format!("rewind({n}) ");
                let ok = comp.rewind(n);
                if n > model.len() {
                    ensure!(!ok, "[{trail}] {n} records rewound, there are only {}", model.len());
                } else if ok {
                    model.truncate(model.len() - n);
                    if n > 0 {
                        rewinds += 1;
                    }
                } else {
                    ensure!(closed || model.is_empty(), "[{trail}] refused to rewind {n} of {} records", model.len());
                }
            }
            2 => {
                let n = c.src.urange(0, 20);
                let v: Vec<f64> = (0..n).map(|_| *c.src.pick(&few)).collect();
                trail += &format!("compress({n}) ");
                comp.compress(&v).map_err(|e| format!("[{trail}] {e}"))?;
                model = v;
                closed = false;
            }
            3 => {
                trail += "reset ";
                comp.reset();
                model.clear();
                closed = false;
            }
            _ => {
                trail += "prepare ";
                comp.prepare();
                closed = true;
            }
        }
        ensure!(
            comp.total_bytes_in() == 8 * model.len(),
            "[{trail}] {} bytes in for {} records",
            comp.total_bytes_in(),
            model.len()
        );
        // what the chunk would be if it were closed now
        let mut copy = comp.clone();
        let announced = copy.total_bytes_buffered();
        copy.prepare();
        let size: usize = copy.buffers().iter().map(|b| b.len()).sum();
        ensure!(announced == size, "[{trail}] {announced} bytes were announced, there are {size}");
        let got = decode(&copy, scheme, cfg, model.len()).map_err(|e| format!("[{trail}] {e}"))?;
        same_bits(&got, &model).map_err(|e| format!("[{trail}] {e}"))?;
    }
    c.note(|| trail.clone());
    if appends >= 2 && rewinds >= 1 {
        c.nontrivial();
    }
    Ok(())
}

fn check(c: &mut Ctx) -> Result<(), String> {
    if c.src.chance(2, 3) {
        c.label("scheme=Rle");
        let cfg = 8000u64.to_le_bytes();
        let comp = RunLengthCompressor::new();
        history(c, comp, Scheme::Rle, &cfg)
    } else {
        c.label("scheme=Uncompressed");
        let cap = c.src.urange(0, 64);
        let cfg = (cap as u64).to_le_bytes();
        history(c, UncompressedCompressor::new(cap), Scheme::Uncompressed, &cfg)
    }
}

fn main() {
    run(Prop {
        id: "C18",
        rule: "A case is a history of 1..14 steps on a run-length (two thirds) or uncompressed compressor: append up to 5 runs of 1..6, 250..262, 505..515 or rarely 65500..80000 equal values (few distinct ones, including both zeros and two NaNs), rewind 0..len+3 records (often all, none, or exactly the last run), compress afresh, reset, close. Oracle: a list of the records; after every step the closed output of a copy, put into a file, decodes to the list, the input counter is 8 bytes per record, the announced size is the size, and a rewind succeeds exactly when there are that many records. Non-trivial: at least two appends and one rewind that removed records. Distinct: by the hash of all choices drawn.",
        assumptions: &["a rewind may be refused when nothing was appended or the output has been closed"],
        quick_cases: 2_000_000,
        thorough_cases: 10_000_000,
        case_timeout_s: 60,
        check,
    })
}
