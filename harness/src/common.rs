//! Recording machinery: arguments, trace files, panic capture, watchdog, random numbers.
pub use serde_json::{json, Map, Value};
use std::fs::File;
use std::io::{BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};

pub static BEAT: AtomicU64 = AtomicU64::new(0);

#[derive(Clone)]
pub struct Args {
    pub job: String,
    pub out: PathBuf,
    pub work: PathBuf,
    pub shards: usize,
    pub seed: u64,
    pub thorough: bool,
    pub scenarios: Option<PathBuf>,
}

impl Args {
    pub fn parse() -> Self {
        let mut a = std::env::args().skip(1);
        let mut r = Args {
            job: a.next().expect("job"),
            out: PathBuf::from("."),
            work: PathBuf::from("."),
            shards: 1,
            seed: 1,
            thorough: false,
            scenarios: None,
        };
        while let Some(k) = a.next() {
            let v = a.next().expect("value");
            match k.as_str() {
                "--out" => r.out = v.into(),
                "--work" => r.work = v.into(),
                "--shards" => r.shards = v.parse().unwrap(),
                "--seed" => r.seed = v.parse().unwrap(),
                "--tier" => r.thorough = v == "thorough",
                "--scenarios" => r.scenarios = Some(v.into()),
                _ => panic!("unknown option {k}"),
            }
        }
        r
    }
    pub fn rng(&self, salt: u64) -> Rng {
        Rng::new(self.seed.wrapping_mul(1_000_003).wrapping_add(salt))
    }
    /// quick or thorough amount
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    pub fn read_scenarios(&self) -> Vec<Value> {
        let p = self.scenarios.as_ref().expect("--scenarios");
        std::fs::read_to_string(p)
            .unwrap()
            .lines()
            .filter(|l| !l.trim().is_empty())
            .map(|l| serde_json::from_str(l).unwrap())
            .collect()
    }
}

/// Writes the events.  A behaviour goes entirely to one shard.
pub struct W {
    files: Vec<BufWriter<File>>,
    cur: usize,
    fresh: bool,
    pub behaviours: u64,
    pub events: u64,
    out: PathBuf,
    current: File,
    pub info: Map<String, Value>,
}

impl W {
    pub fn new(a: &Args) -> Self {
        let files = (0..a.shards)
            .map(|i| BufWriter::new(File::create(a.out.join(format!("trace-{i:02}.ndjson"))).unwrap()))
            .collect();
        W {
            files,
            cur: 0,
            fresh: false,
            behaviours: 0,
            events: 0,
            out: a.out.clone(),
            current: File::create(a.out.join("current")).unwrap(),
            info: Map::new(),
        }
    }
    /// Starts a behaviour; the label is what is reported if the code under test never returns.
    pub fn begin(&mut self, label: impl AsRef<str>) {
        self.behaviours += 1;
        self.cur = (self.behaviours as usize) % self.files.len();
        self.fresh = true;
        self.note(label);
    }
    pub fn note(&mut self, label: impl AsRef<str>) {
        use std::os::unix::fs::FileExt;
        let l = label.as_ref();
        let _ = self.current.set_len(0);
        let _ = self.current.write_at(l.as_bytes(), 0);
        BEAT.fetch_add(1, Ordering::Relaxed);
    }
    pub fn ev(&mut self, mut v: Value) {
        BEAT.fetch_add(1, Ordering::Relaxed);
        let m = v.as_object_mut().expect("event object");
        m.insert("new".into(), Value::Bool(self.fresh));
        self.fresh = false;
        self.events += 1;
        let f = &mut self.files[self.cur];
        serde_json::to_writer(&mut *f, &v).unwrap();
        f.write_all(b"\n").unwrap();
    }
    /// One behaviour made of one event.
    pub fn one(&mut self, v: Value) {
        self.behaviours += 1;
        self.cur = (self.behaviours as usize) % self.files.len();
        self.fresh = true;
        self.ev(v)
    }
    pub fn finish(mut self) {
        for f in self.files.iter_mut() {
            f.flush().unwrap();
        }
        self.info.insert("behaviours".into(), json!(self.behaviours));
        self.info.insert("events".into(), json!(self.events));
        std::fs::write(self.out.join("info.json"), Value::Object(self.info.clone()).to_string()).unwrap();
    }
}

/// Runs code under test; a panic is data.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    BEAT.fetch_add(1, Ordering::Relaxed);
    let r = catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }
    });
    BEAT.fetch_add(1, Ordering::Relaxed);
    r
}

/// ok / err / panic of a fallible call under test
pub fn guard_res<T, E: std::fmt::Display>(f: impl FnOnce() -> Result<T, E>) -> Result<T, (&'static str, String)> {
    match guard(f) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(("err", e.to_string())),
        Err(p) => Err(("panic", p)),
    }
}

pub fn start_watchdog(limit_s: u64) {
    if std::env::var("CONF_DEBUG").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    std::thread::spawn(move || {
        let mut last = u64::MAX;
        let mut still = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let b = BEAT.load(Ordering::Relaxed);
            if b == last {
                still += 1;
                if still > limit_s {
                    std::process::exit(86);
                }
            } else {
                still = 0;
                last = b;
            }
        }
    });
}

/// A float for the trace: a string Java's parseDouble reads back exactly.
pub fn f(x: f64) -> Value {
    Value::String(if x.is_nan() {
        "NaN".into()
    } else if x == f64::INFINITY {
        "Infinity".into()
    } else if x == f64::NEG_INFINITY {
        "-Infinity".into()
    } else {
        format!("{x:?}")
    })
}
pub fn fs(x: &[f64]) -> Value {
    Value::Array(x.iter().map(|v| f(*v)).collect())
}

pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Self {
        Rng(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n as u64)) as usize
    }
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + (self.next() % ((b - a + 1) as u64)) as i64
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn uni(&mut self, a: f64, b: f64) -> f64 {
        a + (b - a) * self.unit()
    }
    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.unit() < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}
