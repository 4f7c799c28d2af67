use harness::source::Source;
use harness::{ensure, run, Ctx, Prop};
use htools::text::{layout, literal};
use htools::*;

fn field(s: &mut Source) -> String {
    match s.below(16) {
        0..=8 => literal(s, 12, true).text,
        9 | 10 => {
            let v = f64::from_bits(s.bits());
            if v.is_nan() {
                "NaN".into()
            } else {
                match s.below(4) {
                    0 => format!("{v}"),
                    1 => format!("{v:e}"),
                    2 => format!("{v:.20e}"),
                    _ => format!("{v:?}"),
                }
            }
        }
        11 => format!("{}", s.irange(-1000, 1000)),
        12 => (*s.pick(&["inf", "-inf", "infinity", "-Infinity", "NaN", "nan", "0", "-0", "-0.0", "1e400", "4.9e-324", "2.4703282292062327e-324"])).to_string(),
        // halfway between two doubles, and just off it
        13 => {
            let v = f64::from_bits(0x3ff0_0000_0000_0000 | (s.bits() >> 12));
            let w = (v.to_bits() as u128 - 0x3ff0_0000_0000_0000) * 2 + 1;
            // 1 + w / 2^53, written out exactly
            let mut t = String::from("1.");
            let mut r = w;
            for _ in 0..53 {
                r *= 10;
                t.push((b'0' + (r >> 53) as u8) as char);
                r &= (1 << 53) - 1;
            }
            if s.flip() {
                t.push('1');
            }
            t
        }
        _ => {
            let e = s.irange(-300, 300);
            let m = s.below(1 << 53);
            format!("{m}e{e}")
        }
    }
}

const JUNK: &[&str] = &["abc", "1.2.3", "--1", "1e", "0x10", "1_000", "1 2", "e5", ".", "-", "1f", "∞", "1e5.5", "NaN0", "'1'", "\"1\"", "1;2", "1\t2"];

struct File {
    name: String,
    stem: String,
    text: Vec<u8>,
    expect: Option<Vec<f64>>,
    why: String,
}

fn gen_file(s: &mut Source, i: usize) -> File {
    let stem = (*s.pick(&["data", "City temp", "a.b", "x-1", "Ω"])).to_string() + &i.to_string();
    let name = stem.clone() + *s.pick(&[".csv", ".txt", ".CSV"]);
    let n = match s.below(6) {
        0 => s.urange(0, 2),
        1..=3 => s.urange(0, 40),
        4 => s.urange(0, 400),
        _ => s.urange(900, 2600),
    };
    let mut fields: Vec<String> = if n > 400 {
        let pool: Vec<String> = (0..16).map(|_| field(s)).collect();
        (0..n).map(|_| s.pick(&pool).clone()).collect()
    } else {
        (0..n).map(|_| field(s)).collect()
    };
    let mut why = String::new();
    let bad = n > 0 && s.chance(1, 5);
    if bad {
        let at = if s.chance(1, 3) { n - 1 } else { s.urange(0, n - 1) };
        loop {
            let j = *s.pick(JUNK);
            if j.trim().parse::<f64>().is_err() {
                fields[at] = j.to_string();
                why = format!("field {at} of {n} is {j:?}");
                break;
            }
        }
    }
    let mut text = layout(s, &fields, ',').into_bytes();
    let mut refuse = bad;
    if !bad && n > 0 && s.chance(1, 20) {
        // not text
        let at = s.urange(0, text.len());
        text.insert(at, 0xff);
        refuse = true;
        why = format!("byte {at} is 0xff");
    }
    let expect = if refuse { None } else { Some(fields.iter().map(|f| f.parse::<f64>().unwrap()).collect()) };
    File { name, stem, text, expect, why }
}

fn check(c: &mut Ctx) -> Result<(), String> {
    let scratch = Scratch::new();
    let dir = scratch.dir("set");
    let nf = c.src.urange(1, 4);
    let files: Vec<File> = (0..nf).map(|i| gen_file(&mut c.src, i)).collect();
    for f in &files {
        std::fs::write(dir.join(&f.name), &f.text).unwrap();
    }
    let stale = c.src.chance(1, 4);
    if stale {
        // what an earlier run on other data left
        let b = scratch.dir("set/binary");
        for f in &files {
            std::fs::write(b.join(format!("{}.bin", f.stem)), vec![7u8; 24]).unwrap();
        }
    }
    let largest = files.iter().filter_map(|f| f.expect.as_ref()).map(|e| e.len() as u64 * 8).max().unwrap_or(0);
    let limit = if largest > 520 && c.src.chance(1, 3) { Some(c.src.range(1, largest / 512)) } else { None };
    c.note(|| {
        let d: Vec<String> = files
            .iter()
            .map(|f| format!("{}: {} bytes{}{}", f.name, f.text.len(), if f.why.is_empty() { "" } else { ", " }, f.why))
            .collect();
        format!("{} (older output present: {stale}, file size limit: {limit:?}); first text {:?}", d.join(" | "), String::from_utf8_lossy(&files[0].text).chars().take(120).collect::<String>())
    });
    if files.iter().any(|f| f.expect.as_ref().is_some_and(|e| !e.is_empty())) {
        c.nontrivial();
    }
    let pattern = dir.join("*");
    let runs = if c.src.chance(1, 3) { 2 } else { 1 };
    for r in 0..runs {
        let ran = program("csv2bin", &scratch.0, &[pattern.to_str().unwrap()], limit)?;
        ensure!(ran.ok(), "csv2bin ends with {:?}: {}", ran.code, ran.tail());
        for f in &files {
            ensure!(std::fs::read(dir.join(&f.name)).ok().as_deref() == Some(&f.text[..]), "{} itself was changed", f.name);
            let out = dir.join("binary").join(format!("{}.bin", f.stem));
            let got = std::fs::read(&out).ok();
            if got.is_none() {
                ensure!(ran.stderr.contains(&f.name), "{}: no output and nothing reported: {}", f.name, ran.tail());
            }
            match (&f.expect, got) {
                (None, None) => c.label("malformed input refused"),
                (None, Some(g)) => return Err(format!("{}: {} yet an output of {} bytes is there", f.name, f.why, g.len())),
                (Some(e), None) => {
                    ensure!(limit.is_some_and(|l| e.len() as u64 * 8 > l * 512), "{}: no output for {} numbers: {}", f.name, e.len(), ran.tail());
                    c.label("failed write leaves no output");
                }
                (Some(e), Some(g)) => {
                    ensure!(g.len() % 8 == 0 && g.len() / 8 == e.len(), "{}: {} numbers became {} bytes (file size limit {limit:?})", f.name, e.len(), g.len());
                    for (i, (a, b)) in doubles(&g).iter().zip(e).enumerate() {
                        ensure!(same(*a, *b), "{}: number {i} is {a:?}, the text says {b:?}", f.name);
                    }
                    c.label(if r == 0 { "converted" } else { "converted again" });
                }
            }
        }
        // nothing else appears
        for e in std::fs::read_dir(dir.join("binary")).map_err(|e| e.to_string())? {
            let n = e.unwrap().file_name().to_string_lossy().into_owned();
            ensure!(files.iter().any(|f| n == format!("{}.bin", f.stem)), "unexpected output {n}");
        }
    }
    Ok(())
}

fn main() {
    run(Prop {
        id: "C22",
        rule: "A case is 1-4 text files of 0-2600 numbers (decimal literals of many spellings, shortest and 20-digit spellings of arbitrary doubles, exact halfway cases, infinities, NaN) laid out in lines of various widths with empty fields, blanks, blank lines, LF or CRLF, with or without a final newline; some files hold one malformed field or byte, some runs find older outputs, some run twice, some hit a file size limit. The csv2bin program runs on the directory's pattern. Oracle: a well-formed file's output holds exactly its numbers in order as 64-bit little-endian doubles (correctly rounded); a malformed file, or one whose output cannot be written, is named on the error stream and leaves no output; inputs stay as they were. Non-trivial: some well-formed file has a number. Distinct: by the hash of all choices drawn.",
        assumptions: &["file stems in one directory are distinct", "a field of blanks only is unspecified and not generated"],
        quick_cases: 3_000,
        thorough_cases: 200_000,
        case_timeout_s: 60,
        check,
    })
}
