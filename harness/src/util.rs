use serde_json::{json, Value};
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

/// One run: scenarios in, mismatches / observations out.
pub struct Cx {
    input: String,
    out: BufWriter<File>,
    at: File,
    cur: Arc<AtomicU64>,
    pub n: u64,
    pub calls: u64,
    pub bad: u64,
}

impl Cx {
    pub fn new(input: &str, out: &str) -> Cx {
        let at = File::create(format!("{out}.at")).expect("at file");
        let cur = Arc::new(AtomicU64::new(u64::MAX));
        // watchdog: a scenario that makes no progress for LIMIT seconds is a hang
        let limit: u64 = std::env::var("SCENARIO_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(60);
        let c2 = cur.clone();
        std::thread::spawn(move || {
            let mut last = (u64::MAX, 0u64);
            loop {
                std::thread::sleep(std::time::Duration::from_secs(1));
                let v = c2.load(Ordering::Relaxed);
                if v != last.0 {
                    last = (v, 0);
                } else {
                    last.1 += 1;
                    if v != u64::MAX && last.1 >= limit {
                        eprintln!("HANG {}", v);
                        std::process::exit(97);
                    }
                }
            }
        });
        Cx { input: input.into(), out: BufWriter::new(File::create(out).expect("out file")), at, cur, n: 0, calls: 0, bad: 0 }
    }
    pub fn lines(&self) -> impl Iterator<Item = Value> {
        let f = BufReader::new(File::open(&self.input).expect("input"));
        f.lines().map(|l| parse(&l.expect("line")))
    }
    /// marks scenario i as being executed
    pub fn begin(&mut self, i: usize) {
        self.cur.store(i as u64, Ordering::Relaxed);
        let _ = self.at.write_at(format!("{:<12}", i).as_bytes(), 0);
        self.n += 1;
    }
    pub fn emit(&mut self, v: &Value) {
        serde_json::to_writer(&mut self.out, v).unwrap();
        self.out.write_all(b"\n").unwrap();
    }
    pub fn mismatch(&mut self, i: usize, why: &str, detail: Value) {
        self.bad += 1;
        if self.bad <= 50 {
            let v = json!({"bad": i, "why": why, "detail": detail});
            self.emit(&v);
        }
    }
    pub fn finish(mut self) {
        let v = json!({"summary": {"scenarios": self.n, "calls": self.calls, "bad": self.bad}});
        self.emit(&v);
        self.out.flush().unwrap();
        self.cur.store(u64::MAX, Ordering::Relaxed);
    }
}

/// Runs f; a panic becomes Err(message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else {
            "panic".into()
        }
    })
}

pub fn bytes(v: &Value) -> Vec<u8> {
    v.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as u8).collect()).unwrap_or_default()
}
pub fn jbytes(b: &[u8]) -> Value {
    Value::Array(b.iter().map(|x| json!(x)).collect())
}
/// an integer, or a pair of 16-bit halves
pub fn num(v: &Value) -> u64 {
    match v {
        Value::Array(a) => (a[0].as_u64().unwrap() << 16) | a[1].as_u64().unwrap(),
        _ => v.as_u64().unwrap(),
    }
}
pub fn halves(x: u64) -> Value {
    json!([(x >> 16) & 0xffff, x & 0xffff])
}

/// maps scenarios on all cores; results in order
pub fn par_map<T: Send>(cx: &mut Cx, items: &[Value], f: impl Fn(usize, &Value) -> T + Sync) -> Vec<T> {
    let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8);
    let next = std::sync::atomic::AtomicUsize::new(0);
    let out: std::sync::Mutex<Vec<(usize, T)>> = std::sync::Mutex::new(vec![]);
    let cur = cx.cur.clone();
    std::thread::scope(|s| {
        for _ in 0..n.min(items.len().max(1)) {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= items.len() {
                        break;
                    }
                    cur.store(i as u64, Ordering::Relaxed);
                    let r = f(i, &items[i]);
                    out.lock().unwrap().push((i, r));
                })
                .unwrap();
        }
    });
    cx.n += items.len() as u64;
    let mut v = out.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    v.into_iter().map(|x| x.1).collect()
}

/// one line of JSON, however deeply nested
fn parse(l: &str) -> Value {
    use serde::Deserialize;
    let mut d = serde_json::Deserializer::from_str(l);
    d.disable_recursion_limit();
    Value::deserialize(&mut d).expect("json")
}
