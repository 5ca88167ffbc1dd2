//! Shared plumbing of the conformance harness: reading cases emitted by TLC,
//! running them with panics caught, reporting mismatches, and progress marks
//! so that the driver can attribute a crash of the process to a case.
use serde_json::Value;
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::os::unix::fs::FileExt;
use std::panic::{AssertUnwindSafe, catch_unwind};

pub use serde_json;
pub mod ex;
pub mod hold;
pub mod own;

/// xorshift generator, seeded explicitly (VERIF_SEED).
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut z = seed.wrapping_add(0x9E3779B97F4A7C15);
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        Rng((z ^ (z >> 31)) | 1)
    }
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545F4914F6CDD1D) >> 11
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.below(s.len())]
    }
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}

/// Runs `f`, `None` if it panicked.
pub fn trap<R>(f: impl FnOnce() -> R) -> Option<R> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

pub fn ints(v: &Value) -> Vec<i64> {
    v.as_array().map(|a| a.iter().map(|x| x.as_i64().unwrap()).collect()).unwrap_or_default()
}
pub fn usizes(v: &Value) -> Vec<usize> {
    ints(v).into_iter().map(|x| x as usize).collect()
}

pub struct Progress(File);
impl Progress {
    pub fn new(path: &str) -> Self {
        Progress(File::create(path).expect("progress file"))
    }
    pub fn mark(&self, n: u64) {
        self.0.write_all_at(&n.to_le_bytes(), 0).unwrap();
    }
}

/// Common replay loop. Arguments: CASES OUT PROGRESS SHARD NSHARDS SEED.
/// `f(case, index, rng)` returns the number of executions, or a mismatch.
pub fn replay_main(args: &[String], mut f: impl FnMut(&Value, u64, &mut Rng) -> Result<u64, String>) {
    quiet_panics();
    let (cases, out, progress) = (&args[0], &args[1], &args[2]);
    let shard: u64 = args[3].parse().unwrap();
    let nshards: u64 = args[4].parse().unwrap();
    let seed: u64 = args[5].parse().unwrap();
    let progress = Progress::new(progress);
    let mut out = BufWriter::new(File::create(out).unwrap());
    let (mut n, mut execs, mut bad) = (0u64, 0u64, 0u64);
    let mut seen = std::collections::HashMap::new();
    for (i, line) in BufReader::new(File::open(cases).unwrap()).lines().enumerate() {
        let i = i as u64;
        if i % nshards != shard {
            continue;
        }
        let line = line.unwrap();
        let case: Value = serde_json::from_str(&line).expect("case json");
        progress.mark(i + 1);
        // choices depend on the case, not on the order in which cases were found
        let h = line.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
        let mut rng = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(h));
        n += 1;
        let r = catch_unwind(AssertUnwindSafe(|| f(&case, h >> 16, &mut rng)));
        let r = match r {
            Ok(r) => r,
            Err(e) => {
                let m = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                Err(format!("unexpected panic: {m}"))
            }
        };
        match r {
            Ok(k) => execs += k,
            Err(m) => {
                // "[known:KEY] ..." has the signature of a recorded finding: the driver
                // decides whether it is listed; only the first few of each are kept
                let known = m.starts_with("[known:");
                if known {
                    let key = m.split(']').next().unwrap().to_string();
                    let n = seen.entry(key).or_insert(0u64);
                    *n += 1;
                    if *n > 3 {
                        continue;
                    }
                } else {
                    bad += 1;
                }
                if bad <= 20 {
                    let j = serde_json::json!({"line": i, "mismatch": m, "case": case});
                    writeln!(out, "{j}").unwrap();
                    out.flush().unwrap();
                }
            }
        }
    }
    let j = serde_json::json!({"done": true, "cases": n, "execs": execs, "bad": bad});
    writeln!(out, "{j}").unwrap();
    out.flush().unwrap();
    progress.mark(u64::MAX);
}
