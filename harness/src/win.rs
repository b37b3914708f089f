//! IOWindow over an instrumented source.
use crate::util::*;
use disc_riider::IOWindow;
use serde_json::{json, Value};
use std::io::{self, Read, Seek, SeekFrom, Write};

/// bytes at [base, base + data.len()), logged accesses, short transfers, one fault
struct Src {
    base: u64,
    data: Vec<u8>,
    pos: u64,
    short: usize,
    fault: i64,
    n: i64,
    hit: bool,
    acc: Vec<Value>,
    unit: usize,
}
impl Src {
    fn step(&mut self) -> io::Result<()> {
        self.n += 1;
        if self.n == self.fault {
            self.hit = true;
            return Err(io::Error::new(io::ErrorKind::Other, "injected"));
        }
        Ok(())
    }
    fn rel(&self) -> i128 {
        self.pos as i128 - self.base as i128
    }
    fn log(&mut self, n: usize) {
        if n == 0 {
            return;
        }
        let r = self.rel().clamp(-1000, 2_000_000_000) as i64;
        let u = self.unit as i64;
        self.acc.push(json!([r.div_euclid(u), (r + n as i64 + u - 1).div_euclid(u)]));
    }
    fn limit(&self, n: usize) -> usize {
        if self.short > 0 && n > 0 {
            n.min(self.short)
        } else {
            n
        }
    }
}
impl Read for Src {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.step()?;
        let r = self.rel();
        if r < 0 {
            // before the known bytes: filler
            let n = self.limit(buf.len()).min((-r).min(4096) as usize);
            buf[..n].fill(0xAA);
            self.log(n);
            self.pos += n as u64;
            return Ok(n);
        }
        if r >= self.data.len() as i128 {
            return Ok(0);
        }
        let r = r as usize;
        let n = self.limit(buf.len().min(self.data.len() - r));
        buf[..n].copy_from_slice(&self.data[r..r + n]);
        self.log(n);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Write for Src {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.step()?;
        let n = self.limit(buf.len());
        if self.pos.checked_add(n as u64).is_none() {
            self.hit = true;
            return Err(io::Error::new(io::ErrorKind::Other, "too large"));
        }
        let r = self.rel();
        self.log(n);
        if r >= 0 && r < 1_000_000 * self.unit as i128 && n > 0 {
            let r = r as usize;
            if self.data.len() < r + n {
                self.data.resize(r + n, 0);
            }
            self.data[r..r + n].copy_from_slice(&buf[..n]);
        }
        self.pos += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Seek for Src {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.step()?;
        let np = match p {
            SeekFrom::Start(x) => x as i128,
            SeekFrom::Current(x) => self.pos as i128 + x as i128,
            SeekFrom::End(x) => (self.base as i128 + self.data.len() as i128) + x as i128,
        };
        if np < 0 || np > u64::MAX as i128 {
            return Err(io::ErrorKind::InvalidInput.into());
        }
        self.pos = np as u64;
        Ok(self.pos)
    }
}

/// every byte stands for `unit` bytes
fn grow(b: &[u8], unit: usize) -> Vec<u8> {
    b.iter().flat_map(|x| std::iter::repeat(*x).take(unit)).collect()
}
/// the reverse; -1 where a unit is not uniform or not whole
fn shrink(b: &[u8], unit: usize) -> Value {
    Value::Array(b.chunks(unit).map(|c| if c.len() == unit && c.iter().all(|x| *x == c[0]) { json!(c[0]) } else { json!(-1) }).collect())
}

const HUGE: i64 = 1_000_000_000;
/// performs one operation; None: not applicable to read-only streams
pub fn do_op<S: Read + Seek>(s: &mut S, op: &Value, huge: u64, unit: usize) -> Option<(Result<i64, ()>, Vec<u8>)> {
    let arg = || op[1].as_i64().unwrap();
    let u = unit as i64;
    let val = |r: io::Result<u64>| r.map(|v| if v >= 1 << 40 { -1 } else if v % unit as u64 != 0 { -2 } else { v as i64 / u }).map_err(|_| ());
    Some(match op[0].as_str().unwrap() {
        "start" => (val(s.seek(SeekFrom::Start(if arg() >= HUGE / 2 { huge } else { arg() as u64 * unit as u64 }))), vec![]),
        "cur" => (val(s.seek(SeekFrom::Current(arg() * u))), vec![]),
        "end" => (val(s.seek(SeekFrom::End(arg() * u))), vec![]),
        "pos" => (val(s.stream_position()), vec![]),
        "read" => {
            let mut b = vec![0u8; arg() as usize * unit];
            let mut r = s.read(&mut b);
            if let Ok(n) = r {
                // stopping inside a unit is allowed: take the rest of it
                if n < b.len() && n % unit != 0 {
                    let k = unit - n % unit;
                    r = s.read_exact(&mut b[n..n + k]).map(|_| n + k);
                }
            }
            match r {
                Ok(n) if n <= b.len() => {
                    b.truncate(n);
                    (Ok(n as i64), b)
                }
                Ok(n) => (Ok(n as i64), b),
                Err(_) => (Err(()), vec![]),
            }
        }
        "exact" => {
            let mut b = vec![0u8; arg() as usize * unit];
            match s.read_exact(&mut b) {
                Ok(()) => (Ok(b.len() as i64), b),
                Err(_) => (Err(()), vec![]),
            }
        }
        _ => return None,
    })
}

pub fn window(cx: &mut Cx) {
    for (i, s) in cx.lines().enumerate().collect::<Vec<_>>() {
        cx.begin(i);
        let w = &s["w"];
        // generated exhaustively: derive the environment from the number
        let hi = s.get("hi").and_then(|x| x.as_u64()).unwrap_or(i as u64 % 4);
        let base = [0u64, 0, (1 << 33) + 5, (1 << 62) + 1][hi as usize];
        let start = num(&w["start"]);
        let unit = s.get("unit").map_or(1, num) as usize;
        let start = start * unit as u64;
        let at = s.get("at").map_or(i as u64 % 7, num);
        let src = Src {
            base,
            data: grow(&bytes(&w["src"]), unit),
            pos: base + at * unit as u64,
            short: s.get("short").map_or(0, num) as usize * (unit / 2).max(1),
            unit,
            fault: s.get("fault").and_then(|x| x.as_i64()).unwrap_or(-1),
            n: 0,
            hit: false,
            acc: vec![],
        };
        let len = w["len"].as_i64().unwrap();
        let ops = s["ops"].as_array().unwrap();
        let huge = [u64::MAX, u64::MAX - 3, 1 << 63, (1 << 63) - 1, u64::MAX - start][i % 5];
        let r = guard(|| {
            let mut src = src;
            let mut res = vec![];
            let mut acc = vec![];
            {
                let cell = std::cell::RefCell::new(&mut src);
                let mut win = IOWindow::new(Shared(&cell), base + start, if len < 0 { None } else if len >= HUGE { Some(u64::MAX) } else { Some(len as u64 * unit as u64) });
                for op in ops {
                    {
                        let mut c = cell.borrow_mut();
                        c.hit = false;
                        c.acc.clear();
                    }
                    let (r, d) = match do_op(&mut win, op, huge, unit) {
                        Some(x) => x,
                        None => {
                            let b = grow(&bytes(&op[1]), unit);
                            if op[0] == "write" {
                                let mut r = win.write(&b);
                                if let Ok(n) = r {
                                    if n < b.len() && n % unit != 0 {
                                        let k = unit - n % unit;
                                        r = win.write_all(&b[n..n + k]).map(|_| n + k);
                                    }
                                }
                                (r.map(|n| (n / unit) as i64).map_err(|_| ()), vec![])
                            } else {
                                (win.write_all(&b).map(|_| 0).map_err(|_| ()), vec![])
                            }
                        }
                    };
                    let c = cell.borrow();
                    res.push(json!({"e": r.is_err(), "v": r.unwrap_or(0), "d": shrink(&d, unit), "f": c.hit}));
                    acc.push(Value::Array(c.acc.clone()));
                }
            }
            (res, acc, src.data)
        });
        cx.calls += ops.len() as u64;
        match r {
            Err(e) => cx.mismatch(i, &format!("panic: {e}"), s.clone()),
            Ok((res, acc, fin)) => cx.emit(&json!({"w": w, "ops": ops, "res": res, "acc": acc, "fin": shrink(&fin, unit), "ro": false})),
        }
    }
}
struct Shared<'a, 'b>(&'a std::cell::RefCell<&'b mut Src>);
impl Read for Shared<'_, '_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.0.borrow_mut().read(b)
    }
}
impl Write for Shared<'_, '_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0.borrow_mut().write(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Seek for Shared<'_, '_> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.0.borrow_mut().seek(p)
    }
}
