//! Discs near the limits of the format: files of 4 GiB and more, partitions of as many
//! groups as the global hash table describes, partitions that start near 16 GiB, thousands of
//! partitions.  Files are all zero but for marks at both ends, so that most groups are equal and
//! the destination can share them.
use crate::image::{be32, be64, open_group, prf_fill, sha, title_key};
use crate::build::{part_type, type_no, Def, MyErr};
use crate::synth::{gpos, jpos};
use crate::util::*;
use disc_riider::builder::{PartitionAddError, WiiDiscBuilder, WiiPartitionDefinition};
use disc_riider::structs::DiscHeader;
use disc_riider::{Fst, FstNode, WiiIsoReader};
use serde_json::{json, Value};
use std::borrow::Cow;
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::sync::Arc;

const CH: u64 = 0x8000;
/// destination in chunks; equal neighbours are shared
pub struct Shared {
    chunks: Vec<Option<Arc<[u8]>>>,
    recent: Vec<Arc<[u8]>>,
    pub len: u64,
    pos: u64,
    ops: u64,
}
impl Shared {
    fn new() -> Shared {
        Shared { chunks: vec![], recent: vec![], len: 0, pos: 0, ops: 0 }
    }
    fn put(&mut self, i: usize, data: &[u8]) {
        if self.chunks.len() <= i {
            self.chunks.resize(i + 1, None);
        }
        let a = match self.recent.iter().find(|a| a[..] == *data) {
            Some(a) => a.clone(),
            None => {
                let a: Arc<[u8]> = data.into();
                if self.recent.len() >= 4 {
                    self.recent.remove(0);
                }
                self.recent.push(a.clone());
                a
            }
        };
        self.chunks[i] = Some(a);
    }
}
impl Read for Shared {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.ops += 1;
        let n = (buf.len() as u64).min(self.len.saturating_sub(self.pos)).min(CH - self.pos % CH) as usize;
        let o = (self.pos % CH) as usize;
        match self.chunks.get((self.pos / CH) as usize) {
            Some(Some(c)) => buf[..n].copy_from_slice(&c[o..o + n]),
            _ => buf[..n].fill(0),
        }
        self.pos += n as u64;
        Ok(n)
    }
}
impl Write for Shared {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.ops += 1;
        let n = (buf.len() as u64).min(CH - self.pos % CH) as usize;
        let (i, o) = ((self.pos / CH) as usize, (self.pos % CH) as usize);
        if n == CH as usize {
            self.put(i, &buf[..n]);
        } else {
            let mut c = match self.chunks.get(i) {
                Some(Some(c)) => c.to_vec(),
                _ => vec![0; CH as usize],
            };
            c[o..o + n].copy_from_slice(&buf[..n]);
            if self.chunks.len() <= i {
                self.chunks.resize(i + 1, None);
            }
            self.chunks[i] = Some(c.into());
        }
        self.pos += n as u64;
        self.len = self.len.max(self.pos);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Seek for Shared {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.pos = match p {
            SeekFrom::Start(x) => x,
            SeekFrom::Current(d) => self.pos.checked_add_signed(d).ok_or(io::ErrorKind::InvalidInput)?,
            SeekFrom::End(d) => self.len.checked_add_signed(d).ok_or(io::ErrorKind::InvalidInput)?,
        };
        Ok(self.pos)
    }
}

impl Shared {
    fn raw(&self, at: u64, n: usize) -> Vec<u8> {
        let mut b = vec![0u8; n];
        let mut k = 0;
        while k < n {
            let p = at + k as u64;
            let o = (p % CH) as usize;
            let m = (CH as usize - o).min(n - k);
            if let Some(Some(c)) = self.chunks.get((p / CH) as usize) {
                b[k..k + m].copy_from_slice(&c[o..o + m]);
            }
            k += m;
        }
        b
    }
    /// hash trees and title metadata, from the bytes of the image
    fn trees(&self) -> Value {
        let t = self.raw(0x40000, 32);
        let n = be32(&t, 0).min(20000) as usize;
        let tab = self.raw((be32(&t, 4) as u64) << 2, 8 * n);
        let mut out = vec![];
        for k in 0..n {
            if n > 100 && k % 97 != 0 && k + 3 < n {
                continue;
            }
            let off = (be32(&tab, 8 * k) as u64) << 2;
            let h = self.raw(off, 0x2C0);
            let (h3o, dof, size) = ((be32(&h, 0x2B4) as u64) << 2, (be32(&h, 0x2B8) as u64) << 2, (be32(&h, 0x2BC) as u64) << 2);
            let (tmdn, tmdo) = (be32(&h, 0x2A4) as usize, (be32(&h, 0x2A8) as u64) << 2);
            let Some(key) = title_key(&h[..0x2A4]) else {
                out.push(json!({"ok": 0, "k": k + 1}));
                continue;
            };
            let h3 = self.raw(off + h3o, 0x18000);
            let ng = size / 0x1F0000;
            let (mut gbad, mut hbad) = (vec![], vec![]);
            let mut seen: std::collections::HashMap<Vec<usize>, (bool, [u8; 20])> = Default::default();
            for g in 0..ng.min(5000) {
                let at = off + dof + g * 0x200000;
                // equal groups consist of the same chunks, mostly
                let id: Vec<usize> = (0..64).map(|j| self.chunks.get((at / CH + j) as usize).and_then(|c| c.as_ref()).map_or(0, |c| c.as_ptr() as usize)).collect();
                let (good, top) = *seen.entry(id).or_insert_with(|| {
                    let (bad, top) = open_group(&self.raw(at, 0x200000), &key, &mut vec![]);
                    (bad.is_empty(), top)
                });
                if (!good || at + 0x200000 > self.len) && gbad.len() < 5 {
                    gbad.push(g);
                }
                if h3.get(20 * g as usize..20 * g as usize + 20) != Some(&top[..]) && hbad.len() < 5 {
                    hbad.push(g);
                }
            }
            let rest = h3.iter().skip(20 * ng as usize).all(|b| *b == 0);
            let tmd = self.raw(off + tmdo, tmdn.clamp(0x208, 0x10000));
            out.push(json!({"ok": 1, "k": k + 1, "gbad": gbad, "hbad": hbad, "rest": rest as u8, "sz": jpos(size),
                "tsize": jpos(be64(&tmd, 0x1EC)), "thash": (tmd[0x1F4..0x208] == sha(&h3)) as u8, "tsha0": sha(&tmd[0x140..])[0], "tsig": tmd[4..0x104].iter().all(|b| *b == 0) as u8}));
        }
        json!(out)
    }
}

fn mark(id: u64, n: u64) -> Vec<u8> {
    let mut m = vec![0u8; n.min(64) as usize];
    prf_fill(id, 0, &mut m);
    m
}
/// the bytes of file id at [at, at + n)
fn content(id: u64, size: u64, at: u64, n: u64) -> Vec<u8> {
    let n = n.min(size - at);
    let head = mark(id, size);
    let tail = mark(id + 1_000_000, size);
    let tail_at = size - tail.len() as u64;
    (at..at + n).map(|p| if p >= tail_at { tail[(p - tail_at) as usize] } else if p < head.len() as u64 { head[p as usize] } else { 0 }).collect()
}
struct Big<'z> {
    d: Def,
    /// id, size, padding
    files: Vec<(u64, u64, u64)>,
    ann: u64,
    zero: &'z mut Vec<u8>,
    dirty: Option<u64>,
    asked: &'z std::cell::Cell<u64>,
}
fn fname(k: usize) -> String {
    format!("f{k:03}")
}
impl WiiPartitionDefinition<MyErr> for Big<'_> {
    fn get_disc_header(&mut self) -> Result<DiscHeader, PartitionAddError<MyErr>> {
        self.d.get_disc_header()
    }
    fn get_bi2<'a>(&'a mut self) -> Result<Cow<'a, [u8]>, PartitionAddError<MyErr>> {
        self.d.get_bi2()
    }
    fn get_apploader<'a>(&'a mut self) -> Result<Cow<'a, [u8]>, PartitionAddError<MyErr>> {
        self.d.get_apploader()
    }
    fn get_fst(&mut self) -> Result<Fst, PartitionAddError<MyErr>> {
        let mut f = Fst::new();
        *f.get_entries_mut() = self.files.iter().enumerate()
            .map(|(k, x)| FstNode::File { name: fname(k), offset: 0, length: match self.ann { 0 => 0, 1 => x.1.min(u32::MAX as u64) as u32, _ => x.1 as u32 } }).collect();
        Ok(f)
    }
    fn get_dol<'a>(&'a mut self) -> Result<Cow<'a, [u8]>, PartitionAddError<MyErr>> {
        self.d.get_dol()
    }
    fn get_file_data<'a>(&'a mut self, path: &Vec<String>) -> Result<(Cow<'a, [u8]>, u32), PartitionAddError<MyErr>> {
        let k = (0..self.files.len()).find(|k| *path == [fname(*k)]).ok_or(PartitionAddError::Custom(MyErr(99)))?;
        self.asked.set(self.asked.get() + 1);
        let (id, size, pad) = self.files[k];
        if let Some(s) = self.dirty.take() {
            let m = s.min(64) as usize;
            self.zero[..m].fill(0);
            self.zero[s as usize - m..s as usize].fill(0);
        }
        let m = size.min(64);
        let tail = content(id, size, size - m, m);
        let head = content(id, size, 0, m);
        self.zero[..m as usize].copy_from_slice(&head);
        self.zero[(size - m) as usize..size as usize].copy_from_slice(&tail);
        self.dirty = Some(size);
        Ok((Cow::Borrowed(&self.zero[..size as usize]), pad as u32))
    }
}

/// {seed, parts: [[seed, t, ann, rep, [[id, size, pad]..]]..]}: what was built and what is read back
pub fn vast(cx: &mut Cx) {
    let items: Vec<Value> = cx.lines().collect();
    for (o, n) in par_map(cx, &items, |_, s| {
        let mut calls = 0u64;
        let mut parts = vec![];
        for p in s["parts"].as_array().unwrap() {
            let files: Vec<(u64, u64, u64)> = p["files"].as_array().unwrap().iter().map(|f| (num(&f["id"]), gpos(&f["sz"]), gpos(&f["pad"]))).collect();
            for _ in 0..num(&p["rep"]) {
                parts.push((p, files.clone()));
            }
        }
        let most = parts.iter().flat_map(|(_, f)| f.iter().map(|x| x.1)).max().unwrap_or(0);
        let mut zero = vec![0u8; most as usize];
        let base = json!({"seed": s["seed"], "title": [86], "parts": []});
        let dd = crate::build::DiscDef::new(&base);
        let mut dest = Shared::new();
        let mut adds: Vec<Value> = vec![];
        let mut fin = Ok(());
        let mut made = vec![];
        let r = guard(|| {
            let mut bl = WiiDiscBuilder::create(&mut dest, crate::build::header(&dd.hdr), dd.region);
            for (k, (p, files)) in parts.iter().enumerate() {
                let seed = num(&p["seed"]) + k as u64;
                let def = Def::new(&json!({"seed": seed, "t": p["t"], "key": 0, "ntmd": 1, "certs": [[1, 1], [1, 1], [1, 1]], "title": [65], "bi2": 8192, "app": 4096, "dol": 300, "ann": "exact", "fail": [], "tree": []}));
                let asked = std::cell::Cell::new(0);
                let (tk, tm, ce, ty) = (def.ticket.clone(), def.tmd.clone(), def.certs.clone(), part_type(def.t));
                let mut big = Big { d: def, files: files.clone(), ann: num(&p["ann"]), zero: &mut zero, dirty: None, asked: &asked };
                let mut prog: Vec<(u8, u64)> = vec![];
                let r = bl.add_partition(ty, tk, tm, ce, &mut big, &mut |x| {
                    if prog.last().map(|p| p.0) != Some(x) && prog.len() < 1000 {
                        prog.push((x, asked.get()));
                    }
                });
                if let Some(s) = big.dirty.take() {
                    let m = s.min(64) as usize;
                    big.zero[..m].fill(0);
                    big.zero[s as usize - m..s as usize].fill(0);
                }
                calls += 1;
                made.push(r.is_ok());
                adds.push(json!({"ok": r.is_ok() as u8, "prog": if parts.len() < 100 { json!(prog) } else { json!([]) }}));
            }
            fin = bl.finish().map_err(|e| e.to_string());
        });
        let mut o = json!({"def": s, "panic": r.is_err() as u8, "fin": fin.is_ok() as u8, "adds": adds});
        if r.is_ok() && fin.is_ok() {
            let img = guard(|| look(&mut dest, &parts.iter().zip(&made).filter(|x| *x.1).map(|x| (num(&x.0 .0["t"]), x.0 .1.clone())).collect::<Vec<_>>(), &dd.region));
            if std::env::var("TREES").is_ok() {
                o["trees"] = dest.trees();
            }
            o["img"] = match img {
                Ok(Some(v)) => json!([v]),
                _ => json!([]),
            };
        } else {
            o["img"] = json!([]);
        }
        (o, calls + dest.ops)
    }) {
        cx.calls += n;
        cx.emit(&o);
    }
}

fn look(dest: &mut Shared, want: &[(u64, Vec<(u64, u64, u64)>)], region: &[u8; 32]) -> Option<Value> {
    let len = dest.len;
    let mut rd = WiiIsoReader::open(dest).ok()?;
    let listed = rd.partitions().to_vec();
    let region_ok = rd.get_region() == region;
    let mut ps = vec![];
    for (k, e) in listed.iter().enumerate() {
        // of very many partitions some are opened
        if listed.len() > 100 && k % 97 != 0 && k + 3 < listed.len() {
            continue;
        }
        let mut p = match rd.open_partition(e.clone()) {
            Ok(p) => p,
            Err(_) => {
                ps.push(json!({"ok": 0}));
                continue;
            }
        };
        let h = p.get_partition_header().clone();
        let files = want.get(k).map(|w| w.1.clone()).unwrap_or_default();
        let nodes = p.get_fst().get_entries().clone();
        let mut fs = vec![];
        for (j, n) in nodes.iter().enumerate() {
            let FstNode::File { name, offset, length } = n else {
                return None;
            };
            let (id, size, _) = files.get(j).copied().unwrap_or((0, 0, 0));
            let mut ok = *name == fname(j) && *length as u64 == size;
            // both ends, and places around 2 and 4 GiB and in the middle
            for at in [0, size / 3, size / 2, size.saturating_sub(100), (1u64 << 31).wrapping_sub(offset % (1 << 31)), size.saturating_sub(65536)] {
                if at < size && ok {
                    let mut b = vec![];
                    let n = 130.min(size - at);
                    ok = p.get_crypto_reader(&mut rd).read_into_vec(offset + at, n, &mut b).is_ok() && b == content(id, size, at, n);
                }
            }
            fs.push(json!({"o": jpos(*offset), "l": jpos(*length as u64), "ok": ok as u8}));
        }
        let sys = p.read_bi2(&mut rd).is_ok() && p.read_apploader(&mut rd).is_ok() && p.read_dol(&mut rd).is_ok();
        let size = *h.data_size;
        // offset in units of 32 KiB
        ps.push(json!({"ok": 1, "k": k + 1, "at": e.get_offset() >> 15, "t": type_no(e.get_type()), "d": *h.data_off >> 15, "sz": jpos(size), "files": fs, "sys": sys as u8,
            "in": (e.get_offset() + *h.data_off + size / 0x1F0000 * 0x200000 <= len) as u8, "tw": (*e == listed[k] && want.get(k).map(|w| w.0) == Some(type_no(e.get_type()))) as u8}));
    }
    Some(json!({"n": listed.len(), "region": region_ok as u8, "parts": ps}))
}
