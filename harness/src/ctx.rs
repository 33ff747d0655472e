//! Recording context: writes one JSON event per line, turns panics into events and guards
//! against calls that never return.
use rand::rngs::StdRng;
use rand::SeedableRng;
use serde_json::{json, Value};
use std::fs::File;
use std::io::{BufWriter, Write};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

static CALL_START: AtomicU64 = AtomicU64::new(0); // ms since start + 1; 0 = no call active
static CALL_DESC: Mutex<String> = Mutex::new(String::new());
static PANIC_MSG: Mutex<String> = Mutex::new(String::new());

pub struct Ctx {
    out: BufWriter<File>,
    cur: File,
    pub n: usize,
    pub seed: u64,
    pub shard: u64,
    pub nshards: u64,
    pub thorough: bool,
    t0: Instant,
    pub n_calls: u64,
    pub n_panics: u64,
    /// cases compared against the reference inside the harness only (pre-filter), not judged by the spec
    pub prefiltered: u64,
    pub suspicious: u64,
    pub stats: std::collections::BTreeMap<String, u64>,
    pub samples: Vec<Value>,
}

/// processor time of this process so far
fn cpu_ms() -> u64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    // utime and stime, in ticks of 10 ms
    f.get(11..13).map_or(u64::MAX / 4, |t| t.iter().map(|x| x.parse::<u64>().unwrap_or(0) * 10).sum())
}

impl Ctx {
    pub fn new(path: &str, seed: u64, thorough: bool, shard: u64, nshards: u64) -> Ctx {
        std::panic::set_hook(Box::new(|info| {
            let mut m = PANIC_MSG.lock().unwrap();
            *m = format!("{}", info);
            if CALL_START.load(Ordering::SeqCst) == 0 {
                // not in the library
                eprintln!("{}", info);
            }
        }));
        let hang_path = format!("{}.cur", path);
        let cur = File::create(&hang_path).unwrap();
        let t0 = Instant::now();
        // a call that does not return: 25 s of processor time (the machine may be busy), or stuck
        std::thread::spawn(move || {
            let (mut seen, mut cpu) = (0, 0);
            loop {
                std::thread::sleep(Duration::from_millis(500));
                let s = CALL_START.load(Ordering::SeqCst);
                if s != seen {
                    (seen, cpu) = (s, cpu_ms());
                }
                if s != 0 {
                    let now = t0.elapsed().as_millis() as u64 + 1;
                    if now > s + 25_000 && cpu_ms() > cpu + 25_000 || now > s + 250_000 {
                        // the call description is in the .cur file already
                        std::process::exit(77);
                    }
                }
            }
        });
        Ctx {
            out: BufWriter::new(File::create(path).unwrap()),
            cur,
            n: 0,
            seed,
            shard,
            nshards,
            thorough,
            t0,
            n_calls: 0,
            n_panics: 0,
            prefiltered: 0,
            suspicious: 0,
            stats: Default::default(),
            samples: vec![],
        }
    }

    pub fn emit(&mut self, v: Value) {
        self.n += 1;
        if self.samples.len() < 2 || (self.samples.len() < 4 && self.n % 97 == 0) {
            self.samples.push(v.clone());
        }
        serde_json::to_writer(&mut self.out, &v).unwrap();
        self.out.write_all(b"\n").unwrap();
    }

    /// random number generator of this shard
    pub fn rng(&self, salt: u64) -> StdRng {
        StdRng::seed_from_u64(self.seed.wrapping_mul(1_000_003).wrapping_add(self.shard * 7919).wrapping_add(salt << 40))
    }

    /// this shard's part of n cases
    pub fn part(&self, n: usize) -> usize {
        n / self.nshards as usize + usize::from((n % self.nshards as usize) as u64 > self.shard)
    }

    /// is item i of a fixed list handled by this shard?
    pub fn mine(&self, i: usize) -> bool {
        i as u64 % self.nshards == self.shard
    }

    /// An event with a deliberate error, which the specification has to reject
    pub fn canary(&mut self, mut v: Value) {
        v["canary"] = json!(true);
        serde_json::to_writer(&mut self.out, &v).unwrap();
        self.out.write_all(b"\n").unwrap();
    }

    pub fn stat(&mut self, k: &str, by: u64) {
        *self.stats.entry(k.to_string()).or_insert(0) += by;
    }

    fn set_cur(&mut self, op: &str, input: &dyn Fn() -> Value) {
        let s = json!({"k":"crash","op":op,"input":input()}).to_string();
        let _ = self.cur.set_len(0);
        let _ = self.cur.write_all_at(s.as_bytes(), 0);
        *CALL_DESC.lock().unwrap() = s;
    }

    /// Calls into the library. A panic becomes a "panic" event and None is returned.
    pub fn call<T>(&mut self, op: &str, input: &dyn Fn() -> Value, f: impl FnOnce() -> T) -> Option<T> {
        match self.try_call(op, input, f) {
            Ok(t) => Some(t),
            Err(msg) => {
                self.n_panics += 1;
                self.emit(json!({"k":"panic","op":op,"input":input(),"msg":msg}));
                None
            }
        }
    }

    /// Like call, but the panic is returned as data.
    pub fn try_call<T>(&mut self, op: &str, input: &dyn Fn() -> Value, f: impl FnOnce() -> T) -> Result<T, String> {
        self.n_calls += 1;
        self.set_cur(op, input);
        CALL_START.store(self.t0.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
        let r = catch_unwind(AssertUnwindSafe(f));
        CALL_START.store(0, Ordering::SeqCst);
        let _ = self.cur.set_len(0);
        match r {
            Ok(t) => Ok(t),
            Err(_) => Err(PANIC_MSG.lock().unwrap().replace('\n', " ")),
        }
    }

    pub fn elapsed(&self) -> f64 {
        self.t0.elapsed().as_secs_f64()
    }

    pub fn finish(mut self, meta_path: &str) {
        self.out.flush().unwrap();
        let _ = self.cur.set_len(0);
        let m = json!({"events": self.n, "calls": self.n_calls, "panics": self.n_panics,
            "prefiltered": self.prefiltered, "suspicious": self.suspicious,
            "stats": self.stats, "samples": self.samples, "wall": self.elapsed()});
        std::fs::write(meta_path, m.to_string()).unwrap();
    }
}
