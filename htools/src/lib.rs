//! Running the repository's command-line programs on generated inputs inside a scratch directory.
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub mod text;

/// A directory of its own for one case, removed when the case ends.
pub struct Scratch(pub PathBuf);
static N: AtomicU64 = AtomicU64::new(0);
impl Scratch {
    pub fn new() -> Scratch {
        let base = std::env::var("VERIF_SCRATCH").unwrap_or_else(|_| "/tmp/verif-scratch".into());
        let d = PathBuf::from(base).join(format!("{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&d).unwrap();
        Scratch(d)
    }
    pub fn dir(&self, name: &str) -> PathBuf {
        let d = self.0.join(name);
        std::fs::create_dir_all(&d).unwrap();
        d
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn bin(name: &str) -> PathBuf {
    let exe = std::env::current_exe().unwrap();
    exe.parent().unwrap().join(name)
}

pub struct Ran {
    pub code: Option<i32>,
    pub stdout: String,
    pub stderr: String,
}
impl Ran {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    pub fn tail(&self) -> String {
        let t: Vec<char> = self.stderr.chars().rev().take(300).collect();
        t.into_iter().rev().collect()
    }
}

/// Run one of the programs; `fsize` limits how large a file it may write (in 512-byte units; the
/// write beyond that fails, as on a full disk).
pub fn program(name: &str, cwd: &Path, args: &[&str], fsize: Option<u64>) -> Result<Ran, String> {
    let mut c = match fsize {
        None => Command::new(bin(name)),
        Some(n) => {
            let mut c = Command::new("/bin/sh");
            c.arg("-c").arg(format!("trap '' XFSZ; ulimit -f {n}; exec \"$0\" \"$@\"")).arg(bin(name));
            c
        }
    };
    // pipes, not files: the size limit would concern those too
    c.env("RUST_BACKTRACE", "0");
    c.args(args).current_dir(cwd).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    if let Ok(s) = std::env::var("VERIF_SHIM") {
        c.env("LD_PRELOAD", s);
    }
    let mut ch = c.spawn().map_err(|e| format!("internal: {name}: {e}"))?;
    let (a, b) = (collect(ch.stdout.take().unwrap()), collect(ch.stderr.take().unwrap()));
    let t = Instant::now();
    let mut nap = 50;
    let st = loop {
        if let Some(st) = ch.try_wait().map_err(|e| e.to_string())? {
            break st;
        }
        if t.elapsed() > Duration::from_secs(120) {
            let _ = ch.kill();
            let _ = ch.wait();
            return Err(format!("{name} does not finish"));
        }
        std::thread::sleep(Duration::from_micros(nap));
        nap = (nap * 2).min(5000);
    };
    Ok(Ran { code: st.code(), stdout: a.join().unwrap(), stderr: b.join().unwrap() })
}

fn collect(r: impl std::io::Read + Send + 'static) -> std::thread::JoinHandle<String> {
    let mut r = r;
    std::thread::spawn(move || {
        let mut v = vec![];
        let _ = r.read_to_end(&mut v);
        String::from_utf8_lossy(&v).into_owned()
    })
}

pub fn doubles(bytes: &[u8]) -> Vec<f64> {
    bytes.chunks_exact(8).map(|b| f64::from_le_bytes(b.try_into().unwrap())).collect()
}
pub fn bytes(values: &[f64]) -> Vec<u8> {
    values.iter().flat_map(|v| v.to_le_bytes()).collect()
}
pub fn same(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}
