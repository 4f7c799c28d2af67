//! Parallel, crash- and hang-isolating property runner with choice-sequence shrinking.
//!
//! The parent process spawns workers (its own executable); each worker evaluates the case indices
//! congruent to its number. A worker that panics inside a case, dies (signal, abort, out of
//! memory) or stays on one case for too long is a finding: the parent recovers the case's choice
//! sequence, confirms it in a fresh process, shrinks it, and writes the replay file.

use crate::source::Source;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::{Read, Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Ctx {
    pub src: Source,
    labels: Vec<String>,
    nontrivial: bool,
    describe: bool,
    desc: String,
}

impl Ctx {
    pub fn new(src: Source, describe: bool) -> Self {
        Ctx { src, labels: vec![], nontrivial: false, describe, desc: String::new() }
    }
    /// Count this case under a coverage label.
    pub fn label(&mut self, l: impl Into<String>) {
        self.labels.push(l.into());
    }
    /// Mark the case as non-trivial under the property's rule.
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn is_nontrivial(&self) -> bool {
        self.nontrivial
    }
    /// Human-readable description, evaluated only when somebody will read it.
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.describe {
            let s = f();
            self.desc.push_str(&s);
            self.desc.push_str("; ");
        }
    }
}

pub struct Prop {
    pub id: &'static str,
    /// How cases are made and what makes one non-trivial.
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// Number of cases in the quick tier (both build profiles together).
    pub quick_cases: u64,
    /// Number of cases in the thorough tier.
    pub thorough_cases: u64,
    /// Seconds after which one case counts as not terminating.
    pub case_timeout_s: u64,
    /// Cases taken by enumeration before the random ones: index i < enumerated is passed as the
    /// first (and only) choice to the property through `Source::replay`.
    pub check: fn(&mut Ctx) -> Result<(), String>,
}

static PANIC_MSG: Mutex<String> = Mutex::new(String::new());

fn eval(prop: &Prop, ctx: &mut Ctx) -> Result<(), String> {
    PANIC_MSG.lock().unwrap().clear();
    match catch_unwind(AssertUnwindSafe(|| (prop.check)(ctx))) {
        Ok(r) => r,
        Err(_) => {
            let m = PANIC_MSG.lock().unwrap().clone();
            Err(format!("panic: {m}"))
        }
    }
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| l.to_string()).unwrap_or_default();
        if let Ok(mut g) = PANIC_MSG.lock() {
            if g.is_empty() {
                *g = format!("{msg} at {loc}");
            }
        }
    }));
}

fn fnv(xs: &[u64]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in xs {
        h ^= *x;
        h = h.wrapping_mul(0x0000_0100_0000_01b3);
        h ^= h >> 29;
    }
    h
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let mut t: String = s.chars().take(n).collect();
        t.push_str("...");
        t
    }
}

// ---------------------------------------------------------------- worker

struct WorkerArgs {
    worker: u64,
    stride: u64,
    cases: u64,
    first: u64,
    seed: u64,
    deadline_s: u64,
    dir: PathBuf,
}

fn worker(prop: &Prop, a: WorkerArgs) {
    install_hook();
    let mut progress = fs::File::create(a.dir.join(format!("progress-{}", a.worker))).unwrap();
    let start = Instant::now();
    let (mut evals, mut nontriv) = (0u64, 0u64);
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut i = a.first + a.worker;
    let mut failed = None;
    while i < a.first + a.cases {
        if start.elapsed().as_secs() >= a.deadline_s {
            break;
        }
        progress.seek(SeekFrom::Start(0)).unwrap();
        progress.write_all(format!("{i:020}").as_bytes()).unwrap();
        let describe = samples.len() < 3 && evals < 200;
        let mut ctx = Ctx::new(Source::random(a.seed, i), describe);
        let r = eval(prop, &mut ctx);
        evals += 1;
        for l in ctx.labels.drain(..) {
            *labels.entry(l).or_insert(0) += 1;
        }
        if ctx.nontrivial {
            nontriv += 1;
            hashes.insert(fnv(&ctx.src.rec));
            if describe && r.is_ok() {
                samples.push(clip(&ctx.desc, 600));
            }
        }
        if let Err(m) = r {
            failed = Some((i, m, ctx.src.rec));
            break;
        }
        i += a.stride;
    }
    let mut out = String::new();
    out += &format!("evals {evals}\nnontrivial {nontriv}\n");
    for (l, c) in &labels {
        out += &format!("label {c} {l}\n");
    }
    for s in &samples {
        out += &format!("sample {}\n", s.replace('\n', " "));
    }
    if let Some((i, m, rec)) = failed {
        out += &format!("fail {i} {}\n", m.replace('\n', " "));
        out += "choices";
        for c in rec {
            out += &format!(" {c}");
        }
        out += "\n";
    }
    let mut hb = Vec::with_capacity(hashes.len() * 8);
    for h in &hashes {
        hb.extend_from_slice(&h.to_le_bytes());
    }
    fs::write(a.dir.join(format!("hashes-{}", a.worker)), hb).unwrap();
    fs::write(a.dir.join(format!("result-{}", a.worker)), out).unwrap();
}

/// Evaluate one recorded choice sequence; the outcome is the process's exit code and a file.
fn eval_one(prop: &Prop, choices: Vec<u64>, out: &Path) -> ! {
    install_hook();
    let mut ctx = Ctx::new(Source::replay(choices), true);
    let r = eval(prop, &mut ctx);
    let (code, msg) = match r {
        Ok(()) => (0, "ok".to_string()),
        Err(m) => (1, m),
    };
    let mut s = format!("{}\n{}\n", msg.replace('\n', " "), ctx.desc.replace('\n', " "));
    for c in &ctx.src.rec {
        s += &format!("{c} ");
    }
    let _ = fs::write(out, s);
    std::process::exit(code)
}

// ---------------------------------------------------------------- parent

fn limited(exe: &Path, mem_kb: u64) -> Command {
    // Bound the address space, so that a runaway allocation aborts only the worker.
    let mut c = Command::new("sh");
    c.arg("-c").arg(format!("ulimit -v {mem_kb}; ulimit -c 0; exec \"$0\" \"$@\"")).arg(exe);
    // keep freed memory in the process: workers allocate and free the same sizes all the time
    c.env("MALLOC_MMAP_THRESHOLD_", "1073741824")
        .env("MALLOC_TRIM_THRESHOLD_", "1073741824")
        .env("MALLOC_TOP_PAD_", "16777216")
        .env("MALLOC_ARENA_MAX", "1");
    c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
    c
}

const MEM_KB: u64 = 12 * 1024 * 1024;

enum Outcome {
    Ok,
    Fail(String, String, Vec<u64>),
    Died(String),
}

fn wait_timeout(ch: &mut Child, t: Duration) -> Option<std::process::ExitStatus> {
    let s = Instant::now();
    let mut nap = 1;
    loop {
        if let Ok(Some(st)) = ch.try_wait() {
            return Some(st);
        }
        if s.elapsed() > t {
            let _ = ch.kill();
            let _ = ch.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(nap));
        nap = (nap * 2).min(20);
    }
}

fn run_choices(dir: &Path, exe: &Path, choices: &[u64], timeout: u64) -> Outcome {
    let inp = dir.join("eval-in");
    let out = dir.join("eval-out");
    let _ = fs::remove_file(&out);
    let text: Vec<String> = choices.iter().map(|c| c.to_string()).collect();
    fs::write(&inp, text.join(" ")).unwrap();
    let mut ch = limited(exe, MEM_KB).arg("--eval").arg(&inp).arg(&out).spawn().unwrap();
    match wait_timeout(&mut ch, Duration::from_secs(timeout)) {
        None => Outcome::Died(format!("does not terminate (killed after {timeout} s)")),
        Some(st) => match st.code() {
            Some(0) => Outcome::Ok,
            Some(1) if out.exists() => {
                let s = fs::read_to_string(&out).unwrap();
                let mut l = s.lines();
                let m = l.next().unwrap_or("").to_string();
                let d = l.next().unwrap_or("").to_string();
                let rec = l
                    .next()
                    .unwrap_or("")
                    .split_whitespace()
                    .filter_map(|x| x.parse().ok())
                    .collect();
                Outcome::Fail(m, d, rec)
            }
            _ => Outcome::Died(format!("process died: {st}")),
        },
    }
}

struct Finding {
    choices: Vec<u64>,
    msg: String,
    desc: String,
    origin: String,
    exe: PathBuf,
}

fn shrink(dir: &Path, mut f: Finding, budget: Duration, case_timeout: u64) -> Finding {
    let start = Instant::now();
    let hang = f.msg.contains("does not terminate");
    let t = if hang { 5 } else { case_timeout };
    let exe = f.exe.clone();
    let mut tries = 0u32;
    let mut attempt = |cand: Vec<u64>, best: &mut Finding| -> bool {
        if start.elapsed() > budget || cand == best.choices {
            return false;
        }
        tries += 1;
        match run_choices(dir, &exe, &cand, t) {
            Outcome::Ok => false,
            Outcome::Fail(m, d, rec) => {
                let c = if rec.len() <= cand.len() && !rec.is_empty() { rec } else { cand };
                if (c.len(), &c) < (best.choices.len(), &best.choices) {
                    best.choices = c;
                    best.msg = m;
                    best.desc = d;
                    true
                } else {
                    false
                }
            }
            Outcome::Died(m) => {
                best.choices = cand;
                best.msg = m;
                true
            }
        }
    };
    let mut improved = true;
    while improved && start.elapsed() < budget {
        improved = false;
        // delete spans, large to small
        let mut size = f.choices.len().next_power_of_two() / 2;
        while size >= 1 && start.elapsed() < budget {
            let mut pos = 0;
            while pos < f.choices.len() && start.elapsed() < budget {
                let end = (pos + size).min(f.choices.len());
                let mut c = f.choices.clone();
                c.drain(pos..end);
                if attempt(c, &mut f) {
                    improved = true;
                    continue;
                }
                // delete a span and lower one earlier length-like choice by the span's size
                pos += size;
            }
            size /= 2;
        }
        // lower single choices (and try "length - k with the tail of k elements removed")
        let mut pos = 0;
        while pos < f.choices.len() && start.elapsed() < budget {
            let v = f.choices[pos];
            if v == 0 {
                pos += 1;
                continue;
            }
            let mut c = f.choices.clone();
            c[pos] = 0;
            if attempt(c, &mut f) {
                improved = true;
                pos += 1;
                continue;
            }
            let (mut lo, mut hi) = (0u64, v);
            let mut steps = 0;
            while lo + 1 < hi && steps < 20 && pos < f.choices.len() {
                let mid = lo + (hi - lo) / 2;
                let mut c = f.choices.clone();
                c[pos] = mid;
                if attempt(c, &mut f) {
                    improved = true;
                    hi = mid;
                } else {
                    lo = mid;
                }
                steps += 1;
            }
            if pos < f.choices.len() && f.choices[pos] > 0 && f.choices[pos] < 10_000 {
                for k in [8usize, 4, 2, 1] {
                    for at in [pos + 1, f.choices.len() / 2, f.choices.len().saturating_sub(k)] {
                        if pos >= f.choices.len() || f.choices[pos] < k as u64 {
                            continue;
                        }
                        let mut c = f.choices.clone();
                        c[pos] -= k as u64;
                        let e = (at + k).min(c.len());
                        if at < e && at > pos {
                            c.drain(at..e);
                            if attempt(c, &mut f) {
                                improved = true;
                            }
                        }
                    }
                }
            }
            pos += 1;
        }
    }
    f
}

fn read_replay(p: &Path) -> Option<Vec<u64>> {
    let s = fs::read_to_string(p).ok()?;
    for l in s.lines() {
        if let Some(r) = l.strip_prefix("choices:") {
            return Some(r.split_whitespace().filter_map(|x| x.parse().ok()).collect());
        }
    }
    None
}

fn write_replay(p: &Path, id: &str, f: &Finding) {
    let c: Vec<String> = f.choices.iter().map(|x| x.to_string()).collect();
    let s = format!(
        "# property {id}\n# failure: {}\n# case: {}\n# origin: {}\n# replay with: ./check.sh {id} --replay <this file>\nchoices: {}\n",
        f.msg.replace('\n', " "),
        clip(&f.desc.replace('\n', " "), 4000),
        f.origin,
        c.join(" ")
    );
    fs::write(p, s).unwrap();
}

fn envu(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.trim().parse().ok()).unwrap_or(d)
}

/// Entry point of every check binary.
pub fn run(prop: Prop) {
    let args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1] == "--worker" {
        let n = |i: usize| args[i].parse::<u64>().unwrap();
        worker(
            &prop,
            WorkerArgs {
                worker: n(2),
                stride: n(3),
                first: n(4),
                cases: n(5),
                seed: n(6),
                deadline_s: n(7),
                dir: PathBuf::from(&args[8]),
            },
        );
        return;
    }
    if args.len() > 1 && args[1] == "--eval" {
        let choices = fs::read_to_string(&args[2])
            .unwrap()
            .split_whitespace()
            .filter_map(|x| x.parse().ok())
            .collect();
        eval_one(&prop, choices, Path::new(&args[3]));
    }
    if args.len() > 1 && args[1] == "--trace" {
        // --trace seed index file: run one random case, recording its choices as they are drawn
        install_hook();
        let mut src = Source::random(args[2].parse().unwrap(), args[3].parse().unwrap());
        src.set_trace(fs::File::create(&args[4]).unwrap());
        let mut ctx = Ctx::new(src, false);
        let r = eval(&prop, &mut ctx);
        std::process::exit(if r.is_ok() { 0 } else { 1 });
    }
    if args.len() > 1 && args[1] == "--one" {
        // --one seed index: run and describe one random case in this process (debugging aid)
        install_hook();
        let src = Source::random(args[2].parse().unwrap(), args[3].parse().unwrap());
        let mut ctx = Ctx::new(src, true);
        let r = eval(&prop, &mut ctx);
        println!("{r:?}\n{}", clip(&ctx.desc, 5000));
        return;
    }

    let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()));
    let exe = std::env::current_exe().unwrap();
    // A second build of the same check (other compiler settings); half of the cases run there.
    let mut exes = vec![exe.clone()];
    if let Ok(p) = std::env::var("VERIF_EXE2") {
        if !p.is_empty() {
            exes.push(PathBuf::from(p));
        }
    }
    let dir = verif.join("target").join("run").join(format!("{}-{}", prop.id, std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    let code = parent(&prop, &verif, &exes, &dir, &args);
    let _ = fs::remove_dir_all(&dir);
    std::process::exit(code);
}

fn parent(prop: &Prop, verif: &Path, exes: &[PathBuf], dir: &Path, args: &[String]) -> i32 {
    if args.len() > 2 && args[1] == "--replay" {
        let Some(c) = read_replay(Path::new(&args[2])) else {
            eprintln!("cannot read {}", args[2]);
            return 2;
        };
        for exe in exes {
            match run_choices(dir, exe, &c, prop.case_timeout_s) {
                Outcome::Ok => println!("replay: property holds ({})", exe.display()),
                Outcome::Fail(m, d, _) => {
                    println!("replay: {m}\ncase: {d}");
                    println!("VIOLATION property={} replay={}", prop.id, args[2]);
                    return 1;
                }
                Outcome::Died(m) => {
                    println!("replay: {m}");
                    println!("VIOLATION property={} replay={}", prop.id, args[2]);
                    return 1;
                }
            }
        }
        return 0;
    }

    let t0 = Instant::now();
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let seed = envu("VERIF_SEED", 1);
    let cases = envu("VERIF_CASES", if thorough { prop.thorough_cases } else { prop.quick_cases * 2 });
    let deadline = envu("VERIF_SECONDS", if thorough { 3000 } else { 150 });
    let nproc = std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4);
    let workers = envu("VERIF_WORKERS", nproc.clamp(1, 16));

    let mut finding: Option<Finding> = None;
    let (mut evals, mut nontriv, mut regressions) = (0u64, 0u64, 0u64);

    // 1. replay files of earlier findings (fixed defects), on every build
    let regdir = verif.join("regressions").join(prop.id);
    let mut regs: Vec<PathBuf> = fs::read_dir(&regdir)
        .map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect())
        .unwrap_or_default();
    regs.sort();
    'outer: for r in &regs {
        let Some(c) = read_replay(r) else { continue };
        for exe in exes {
            evals += 1;
            regressions += 1;
            let (msg, desc) = match run_choices(dir, exe, &c, prop.case_timeout_s) {
                Outcome::Ok => continue,
                Outcome::Fail(m, d, _) => (m, d),
                Outcome::Died(m) => (m, String::new()),
            };
            finding = Some(Finding {
                choices: c,
                msg,
                desc,
                origin: format!("committed regression {}", r.display()),
                exe: exe.clone(),
            });
            break 'outer;
        }
    }

    // 2. random cases
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut hashes: HashSet<u64> = HashSet::new();
    if finding.is_none() {
        let per_exe = cases / exes.len() as u64;
        let mut kids: Vec<(u64, PathBuf, Child, String, Instant, bool)> = vec![];
        for w in 0..workers {
            let exe = &exes[(w as usize) % exes.len()];
            let e = (w as usize % exes.len()) as u64;
            // worker w of exe e handles its share of [e*per_exe, (e+1)*per_exe)
            let n_here = (0..workers).filter(|x| x % exes.len() as u64 == e).count() as u64;
            let rank = w / exes.len() as u64;
            let sub = dir.join(format!("w{w}"));
            fs::create_dir_all(&sub).unwrap();
            let mut c = limited(exe, MEM_KB);
            c.arg("--worker")
                .arg(rank.to_string())
                .arg(n_here.to_string())
                .arg((e * per_exe).to_string())
                .arg(per_exe.to_string())
                .arg(seed.to_string())
                .arg(deadline.to_string())
                .arg(&sub);
            kids.push((w, exe.clone(), c.spawn().unwrap(), String::new(), Instant::now(), false));
        }
        let mut raw: Vec<(u64, u64, PathBuf, String, Option<Vec<u64>>)> = vec![];
        loop {
            let mut alive = 0;
            for (w, exe, ch, last, since, done) in kids.iter_mut() {
                if *done {
                    continue;
                }
                let rank = *w / exes.len() as u64;
                let sub = dir.join(format!("w{w}"));
                let mut cur = String::new();
                if let Ok(mut f) = fs::File::open(sub.join(format!("progress-{rank}"))) {
                    let _ = f.read_to_string(&mut cur);
                }
                if cur != *last {
                    *last = cur.clone();
                    *since = Instant::now();
                }
                let idx = cur.trim().parse::<u64>().ok();
                match ch.try_wait() {
                    Ok(Some(st)) => {
                        *done = true;
                        let Ok(res) = fs::read_to_string(sub.join(format!("result-{rank}"))) else {
                            if let Some(i) = idx {
                                raw.push((*w, i, exe.clone(), format!("process died: {st}"), None));
                            }
                            continue;
                        };
                        let mut fl: Option<(u64, String)> = None;
                        for l in res.lines() {
                            let (k, rest) = l.split_once(' ').unwrap_or((l, ""));
                            match k {
                                "evals" => evals += rest.parse::<u64>().unwrap_or(0),
                                "nontrivial" => nontriv += rest.parse::<u64>().unwrap_or(0),
                                "label" => {
                                    let (c, n) = rest.split_once(' ').unwrap();
                                    *labels.entry(n.to_string()).or_insert(0) +=
                                        c.parse::<u64>().unwrap();
                                }
                                "sample" => samples.push(rest.to_string()),
                                "fail" => {
                                    let (i, m) = rest.split_once(' ').unwrap_or((rest, ""));
                                    fl = Some((i.parse().unwrap(), m.to_string()));
                                }
                                "choices" => {
                                    let c = rest
                                        .split_whitespace()
                                        .map(|x| x.parse().unwrap())
                                        .collect();
                                    if let Some((i, m)) = fl.take() {
                                        raw.push((*w, i, exe.clone(), m, Some(c)));
                                    }
                                }
                                _ => {}
                            }
                        }
                        if let Ok(b) = fs::read(sub.join(format!("hashes-{rank}"))) {
                            for c in b.chunks_exact(8) {
                                hashes.insert(u64::from_le_bytes(c.try_into().unwrap()));
                            }
                        }
                    }
                    _ => {
                        alive += 1;
                        if since.elapsed().as_secs() > 2 * prop.case_timeout_s {
                            let _ = ch.kill();
                            let _ = ch.wait();
                            *done = true;
                            if let Some(i) = idx {
                                raw.push((*w, i, exe.clone(), "does not terminate".into(), None));
                            }
                        }
                    }
                }
            }
            if alive == 0 {
                break;
            }
            if !raw.is_empty() {
                // one finding is enough: stop the rest
                for (_, _, ch, _, _, done) in kids.iter_mut() {
                    if !*done {
                        let _ = ch.kill();
                        let _ = ch.wait();
                    }
                }
                break;
            }
            std::thread::sleep(Duration::from_millis(20));
        }
        raw.sort_by_key(|r| r.1);
        for (w, i, exe, msg, choices) in raw {
            let origin = format!("seed {seed}, case {i}, build {}", exe.display());
            match choices {
                Some(c) => {
                    let desc = match run_choices(dir, &exe, &c, prop.case_timeout_s) {
                        Outcome::Fail(_, d, _) => d,
                        _ => String::new(),
                    };
                    finding = Some(Finding { choices: c, msg, desc, origin, exe });
                }
                None => {
                    // died or hung: recover the choices, then confirm in a fresh process
                    let tf = dir.join(format!("trace-{w}"));
                    let mut ch = limited(&exe, MEM_KB)
                        .arg("--trace")
                        .arg(seed.to_string())
                        .arg(i.to_string())
                        .arg(&tf)
                        .spawn()
                        .unwrap();
                    let _ = wait_timeout(&mut ch, Duration::from_secs(prop.case_timeout_s));
                    let c: Vec<u64> = fs::read_to_string(&tf)
                        .unwrap_or_default()
                        .split_whitespace()
                        .filter_map(|x| x.parse().ok())
                        .collect();
                    match run_choices(dir, &exe, &c, prop.case_timeout_s) {
                        Outcome::Ok => {
                            eprintln!("note: worker {w} {msg} on case {i}, not reproducible; ignored");
                            continue;
                        }
                        Outcome::Fail(m, desc, rec) => {
                            finding = Some(Finding { choices: rec, msg: m, desc, origin, exe })
                        }
                        Outcome::Died(m) => {
                            finding = Some(Finding {
                                choices: c,
                                msg: m,
                                desc: String::new(),
                                origin,
                                exe,
                            })
                        }
                    }
                }
            }
            break;
        }
    }

    let mut code = 0;
    let mut violations = 0;
    if let Some(f) = finding {
        let budget = Duration::from_secs(envu("VERIF_SHRINK_S", if thorough { 120 } else { 25 }));
        let f = shrink(dir, f, budget, prop.case_timeout_s);
        let rdir = verif.join("replays");
        fs::create_dir_all(&rdir).unwrap();
        let p = rdir.join(format!("{}.replay", prop.id));
        write_replay(&p, prop.id, &f);
        println!("{}: {}", prop.id, f.msg);
        println!("case: {}", clip(&f.desc, 2000));
        println!("origin: {}", f.origin);
        println!("VIOLATION property={} replay={}", prop.id, p.display());
        code = 1;
        violations = 1;
    }

    // 3. evidence
    samples.truncate(8);
    if samples.is_empty() && code == 0 {
        eprintln!("{}: no non-trivial case was generated", prop.id);
        code = 2;
    }
    let lab: Vec<String> = labels.iter().map(|(k, v)| format!("{}: {v}", jstr(k))).collect();
    let smp: Vec<String> = samples.iter().map(|s| jstr(s)).collect();
    let asm: Vec<String> = prop.assumptions.iter().map(|s| jstr(s)).collect();
    let wall = t0.elapsed().as_secs_f64();
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {evals},\n  \"nontrivial_evaluations\": {nontriv},\n  \"distinct_nontrivial\": {},\n  \"regression_replays\": {regressions},\n  \"builds\": {},\n  \"rule\": {},\n  \"labels\": {{{}}},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {wall:.3},\n \"violations\": {violations}\n}}\n",
        jstr(prop.id),
        jstr(&tier),
        hashes.len(),
        exes.len(),
        jstr(prop.rule),
        lab.join(", "),
        smp.join(",\n   "),
        asm.join(", "),
    );
    let evd = verif.join("evidence");
    fs::create_dir_all(&evd).unwrap();
    fs::write(evd.join(format!("{}.json", prop.id)), ev).unwrap();
    println!(
        "{}: {evals} cases, {nontriv} non-trivial, {} distinct non-trivial, {wall:.1} s, {}",
        prop.id,
        hashes.len(),
        if violations == 0 { "no violation" } else { "VIOLATED" }
    );
    code
}
