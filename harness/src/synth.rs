//! A synthetic image: sparse, any size, encrypted here independently of the crate.
//! Partition contents are pseudo-random except for overlays (headers, file table).
use crate::build::*;
use crate::image::*;
use crate::util::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{self, Read, Seek, SeekFrom};
use std::sync::{Arc, Mutex};

pub struct SPart {
    pub t: u64,
    pub off: u64,
    pub data_off: u64,
    pub key: [u8; 16],
    pub size: u64,
    pub id: u64,
    pub over: Vec<(u64, Vec<u8>)>,
    /// path, offset, length
    pub files: Vec<(String, u64, u64)>,
    pub app: u64,
    pub dol: (u64, u64),
    pub tmd: Vec<u8>,
    pub certs: Vec<u8>,
}
impl SPart {
    /// plain contents at pos
    pub fn plain(&self, pos: u64, out: &mut [u8]) {
        prf_fill(self.id, pos, out);
        overlay(&self.over, pos, out);
    }
    pub fn is_plain(&self, pos: u64, data: &[u8]) -> bool {
        let mut buf = vec![0u8; 65536];
        for (k, ch) in data.chunks(65536).enumerate() {
            self.plain(pos + k as u64 * 65536, &mut buf[..ch.len()]);
            if ch != &buf[..ch.len()] {
                return false;
            }
        }
        true
    }
}
fn overlay(over: &[(u64, Vec<u8>)], pos: u64, out: &mut [u8]) {
    for (s, b) in over {
        let (a, e) = (pos.max(*s), (pos + out.len() as u64).min(*s + b.len() as u64));
        if a < e {
            out[(a - pos) as usize..(e - pos) as usize].copy_from_slice(&b[(a - s) as usize..(e - s) as usize]);
        }
    }
}
pub struct Synth {
    pub parts: Vec<SPart>,
    pub raw: Vec<(u64, Vec<u8>)>,
    pub len: u64,
    /// unpatched image, and the number of its overlays per partition
    pub base: Option<Arc<Synth>>,
    pub n_over: Vec<usize>,
    cache: Mutex<HashMap<(usize, u64), Arc<Vec<u8>>>>,
}
/// position given as [group, rest]
pub fn gpos(v: &Value) -> u64 {
    num(&v[0]) * GRPD as u64 + num(&v[1])
}
pub fn jpos(p: u64) -> Value {
    let g = p / GRPD as u64;
    if g >= 1_000_000 {
        json!([1_000_000, 0])
    } else {
        json!([g, p % GRPD as u64])
    }
}
pub fn fst_bytes(files: &[(String, u64, u64)]) -> Vec<u8> {
    // flat or one-level nested: d/x
    struct N {
        name: String,
        dir: Option<(u32, u32)>,
        v: (u64, u64),
    }
    let mut nodes: Vec<N> = vec![];
    let mut k = 0;
    while k < files.len() {
        if let Some((d, _)) = files[k].0.split_once('/') {
            let at = nodes.len() as u32 + 1;
            nodes.push(N { name: d.into(), dir: Some((0, 0)), v: (0, 0) });
            while k < files.len() && files[k].0.starts_with(&format!("{d}/")) {
                nodes.push(N { name: files[k].0[d.len() + 1..].into(), dir: None, v: (files[k].1, files[k].2) });
                k += 1;
            }
            let end = nodes.len() as u32 + 1;
            nodes[at as usize - 1].dir = Some((0, end));
        } else {
            nodes.push(N { name: files[k].0.clone(), dir: None, v: (files[k].1, files[k].2) });
            k += 1;
        }
    }
    let mut b = vec![1, 0, 0, 0, 0, 0, 0, 0];
    b.extend((nodes.len() as u32 + 1).to_be_bytes());
    let mut names: Vec<u8> = vec![0];
    for n in &nodes {
        let no = names.len() as u32;
        names.extend(n.name.as_bytes());
        names.push(0);
        let (t, x, y) = match n.dir {
            Some((p, e)) => (1u32 << 24, p, e),
            None => (0, (n.v.0 >> 2) as u32, n.v.1 as u32),
        };
        b.extend((t | no).to_be_bytes());
        b.extend(x.to_be_bytes());
        b.extend(y.to_be_bytes());
    }
    b.extend(names);
    b
}

impl Synth {
    /// {"parts": [{"t","seed","ki","off":[hi,lo] (4-byte units),"size":[g,r],"fstAt":[g,r],"app":[s1,s2],"dol":{"at":[g,r],"off","sizes"},"files":[{"name","at":[g,r],"len":[g,r]}]}], "end": groups present past..}
    pub fn new(v: &Value) -> Synth {
        let mut parts = vec![];
        let mut raw = vec![];
        let seed = num(&v["seed"]);
        raw.push((0, header_bytes(mix(seed, 77), b"synthetic")));
        raw.push((0x4E000, prf(mix(seed, 78), 32)));
        let mut len = 0x50000u64;
        let mut table = vec![0u8; 0x20];
        for (i, p) in v["parts"].as_array().unwrap().iter().enumerate() {
            let ps = mix(seed, 1000 + i as u64);
            let (_, te, key) = ticket(ps, num(&p["ki"]));
            let off = num(&p["off"]) << 2;
            let size = gpos(&p["size"]);
            let tmd = tmd_bytes(ps, 1);
            let certs: Vec<u8> = (0..3).flat_map(|c| cert_bytes(mix(ps, c), c, c % 2)).collect();
            let mut h = te;
            // where title metadata, certificates, hash table and data are
            let hd: Vec<u64> = p.get("hd").map_or(vec![0x2C0, 0x500, 0x8000, 0x20000], |x| x.as_array().unwrap().iter().map(num).collect());
            for x in [tmd.len() as u64, hd[0] / 4, certs.len() as u64, hd[1] / 4, hd[2] / 4, hd[3] / 4, size >> 2] {
                h.extend((x as u32).to_be_bytes());
            }
            raw.push((off, h));
            raw.push((off + hd[0], tmd.clone()));
            raw.push((off + hd[1], certs.clone()));
            let mut boot = header_bytes(mix(ps, 5), b"part");
            let fst_at = gpos(&p["fstAt"]);
            let dol_at = gpos(&p["dol"]["at"]);
            let files: Vec<(String, u64, u64)> =
                p["files"].as_array().unwrap().iter().map(|f| (f["name"].as_str().unwrap().to_string(), gpos(&f["at"]), gpos(&f["len"]))).collect();
            let fst = fst_bytes(&files);
            put32(&mut boot, 0x420, (dol_at >> 2) as u32);
            put32(&mut boot, 0x424, (fst_at >> 2) as u32);
            put32(&mut boot, 0x428, (fst.len() as u32 + 3) >> 2);
            put32(&mut boot, 0x42C, (fst.len() as u32 + 3) >> 2);
            let app: Vec<u64> = p["app"].as_array().unwrap().iter().map(num).collect();
            let mut ah = vec![0u8; 8];
            put32(&mut ah, 0, app[0] as u32);
            put32(&mut ah, 4, app[1] as u32);
            let mut dh = vec![0u8; 0xE4];
            let mut dsz = num(&p["dol"]["off"]);
            put32(&mut dh, 0, dsz as u32);
            for (k, s) in p["dol"]["sizes"].as_array().unwrap().iter().enumerate() {
                put32(&mut dh, 0x90 + 4 * k, num(s) as u32);
                dsz += num(s);
            }
            parts.push(SPart {
                t: num(&p["t"]),
                off,
                data_off: off + hd[3],
                key,
                size,
                id: mix(ps, 9),
                over: vec![(0, boot), (0x2440 + 0x14, ah), (dol_at, dh), (fst_at, fst)],
                files,
                app: 32 + app[0] + app[1],
                dol: (dol_at, dsz),
                tmd,
                certs,
            });
            let groups = (size + GRPD as u64 - 1) / GRPD as u64;
            len = len.max(off + hd[3] + groups * GRP as u64);
            table.extend(((off >> 2) as u32).to_be_bytes());
            table.extend((num(&p["t"]) as u32).to_be_bytes());
        }
        put32(&mut table, 0, parts.len() as u32);
        put32(&mut table, 4, 0x40020 / 4);
        raw.push((0x40000, table));
        Synth { parts, raw, len, base: None, n_over: vec![], cache: Mutex::new(HashMap::new()) }
    }
    fn group(&self, p: usize, g: u64) -> Arc<Vec<u8>> {
        if let Some(x) = self.cache.lock().unwrap().get(&(p, g)) {
            return x.clone();
        }
        let part = &self.parts[p];
        if let Some(base) = &self.base {
            let (a, e) = (g * GRPD as u64, (g + 1) * GRPD as u64);
            if part.over[self.n_over[p]..].iter().all(|(o, b)| o + b.len() as u64 <= a || *o >= e) {
                return base.group(p, g);
            }
        }
        let mut b = vec![0u8; GRP];
        for k in 0..64 {
            let blk = &mut b[k * BLK..(k + 1) * BLK];
            let (h, d) = blk.split_at_mut(0x400);
            prf_fill(mix(part.id, 17), g * 64 + k as u64, h);
            part.plain(g * GRPD as u64 + (k * BLKD) as u64, d);
            let iv: [u8; 16] = h[0x3d0..0x3e0].try_into().unwrap();
            cbc_enc(&part.key, &iv, d);
        }
        let r = Arc::new(b);
        let mut c = self.cache.lock().unwrap();
        if c.len() > 150 {
            c.clear();
        }
        c.insert((p, g), r.clone());
        r
    }
    pub fn read_at(&self, pos: u64, out: &mut [u8]) -> usize {
        if pos >= self.len {
            return 0;
        }
        let n = (out.len() as u64).min(self.len - pos) as usize;
        let mut k = 0;
        while k < n {
            let at = pos + k as u64;
            let p = self.parts.iter().position(|p| at >= p.data_off && at < p.data_off + (p.size + GRPD as u64 - 1) / GRPD as u64 * GRP as u64);
            match p {
                Some(p) => {
                    let rel = at - self.parts[p].data_off;
                    let g = self.group(p, rel / GRP as u64);
                    let o = (rel % GRP as u64) as usize;
                    let m = (GRP - o).min(n - k);
                    out[k..k + m].copy_from_slice(&g[o..o + m]);
                    k += m;
                }
                None => {
                    // between partitions: zero, up to the next partition's data
                    let next = self.parts.iter().map(|p| p.data_off).filter(|d| *d > at).min().unwrap_or(u64::MAX);
                    let m = ((next - at).min((n - k) as u64)) as usize;
                    out[k..k + m].fill(0);
                    overlay(&self.raw, at, &mut out[k..k + m]);
                    k += m;
                }
            }
        }
        n
    }
}

/// the source handed to the crate
pub struct Source {
    pub s: Arc<Synth>,
    pub pos: u64,
    pub n: i64,
    pub short: usize,
    /// the source ends here
    pub cut: u64,
    /// numbers of the operations that fail, and whether as an interruption
    pub faults: Vec<(i64, bool)>,
    pub hit: Arc<std::sync::atomic::AtomicBool>,
}
impl Source {
    fn step(&mut self, read: bool) -> io::Result<()> {
        self.n += 1;
        if let Some(f) = self.faults.iter().find(|f| f.0 == self.n) {
            if f.1 && !read {
                return Ok(());
            }
            self.hit.store(true, std::sync::atomic::Ordering::Relaxed);
            return Err(io::Error::new(if f.1 { io::ErrorKind::Interrupted } else { io::ErrorKind::Other }, "injected"));
        }
        Ok(())
    }
}
impl Read for Source {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.step(true)?;
        let mut n = buf.len();
        if self.short > 0 && n > 0 {
            // uneven short reads
            n = n.min(1 + (mix(self.n as u64, 3) % self.short as u64) as usize);
        }
        n = n.min(self.cut.saturating_sub(self.pos).min(usize::MAX as u64) as usize);
        let r = self.s.read_at(self.pos, &mut buf[..n]);
        if r == 0 && !buf.is_empty() {
            self.hit.store(true, std::sync::atomic::Ordering::Relaxed);
        }
        self.pos += r as u64;
        Ok(r)
    }
}
impl Seek for Source {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.step(false)?;
        let np = match p {
            SeekFrom::Start(x) => x as i128,
            SeekFrom::Current(x) => self.pos as i128 + x as i128,
            SeekFrom::End(x) => self.s.len as i128 + x as i128,
        };
        if np < 0 || np > i64::MAX as i128 {
            self.hit.store(true, std::sync::atomic::Ordering::Relaxed);
            return Err(io::ErrorKind::InvalidInput.into());
        }
        self.pos = np as u64;
        Ok(self.pos)
    }
}
