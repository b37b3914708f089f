//! Opening and reading images whose structures hold arbitrary values (C11).
use crate::fstx::jnodes;
use crate::image::*;
use crate::synth::*;
use crate::util::*;
use disc_riider::{FstNode, WiiIsoReader};
use serde_json::{json, Value};
use std::io::{Read, Seek, SeekFrom};
use std::sync::atomic::AtomicBool;
use std::sync::Arc;

/// this side's own view of a partition
struct Own<'a> {
    s: &'a Synth,
    data: u64,
    size: u64,
    key: [u8; 16],
    last: Option<(u64, Vec<u8>)>,
}
impl<'a> Own<'a> {
    fn open(s: &'a Synth, off: u64) -> Option<Own<'a>> {
        let mut h = vec![0u8; 704];
        if s.read_at(off, &mut h) != 704 {
            return None;
        }
        let key = title_key(&h)?;
        Some(Own { s, data: off + ((be32(&h, 696) as u64) << 2), size: (be32(&h, 700) as u64) << 2, key, last: None })
    }
    fn group(&mut self, g: u64) -> Option<&[u8]> {
        if self.last.as_ref().map(|x| x.0) != Some(g) {
            let mut raw = vec![0u8; GRP];
            if self.s.read_at(self.data.checked_add(g.checked_mul(GRP as u64)?)?, &mut raw) != GRP {
                return None;
            }
            let mut d = Vec::with_capacity(GRPD);
            for b in 0..64 {
                let blk = &mut raw[b * BLK..(b + 1) * BLK];
                let (h, x) = blk.split_at_mut(0x400);
                cbc_dec(&self.key, &h[0x3d0..0x3e0], x);
                d.extend_from_slice(x);
            }
            self.last = Some((g, d));
        }
        self.last.as_ref().map(|x| &x.1[..])
    }
    /// bytes at pos, cut at the data size; None if they are not in the image
    fn get(&mut self, pos: u64, len: u64) -> Option<Vec<u8>> {
        let end = pos.saturating_add(len).min(self.size);
        let mut v = vec![];
        let mut p = pos;
        while p < end {
            let (g, o) = (p / GRPD as u64, (p % GRPD as u64) as usize);
            let n = ((end - p) as usize).min(GRPD - o);
            v.extend_from_slice(&self.group(g)?[o..o + n]);
            p += n as u64;
        }
        Some(v)
    }
}
/// is got what this side reads there?
fn same(own: &mut Option<Own>, pos: u64, len: u64, got: &[u8]) -> bool {
    match own {
        None => true,
        // more than is there at all cannot come from the image
        Some(o) => match o.get(pos, len) {
            Some(v) => v == got,
            None => false,
        },
    }
}
fn files(ns: &[FstNode], path: &str, out: &mut Vec<(String, u64, u32)>) {
    for n in ns {
        if out.len() >= 12 {
            return;
        }
        match n {
            FstNode::File { name, offset, length } => out.push((format!("{path}{name}"), *offset, *length)),
            FstNode::Directory { name, files: f } => files(f, &format!("{path}{name}/"), out),
        }
    }
}

fn one(s: &Value, base: &Arc<Synth>) -> Value {
    let mut syn = Synth::new(&s["img"]);
    syn.base = Some(base.clone());
    let n_over: Vec<usize> = syn.parts.iter().map(|p| p.over.len()).collect();
    for p in s["ps"].as_array().unwrap() {
        let (at, b) = (num(&p["at"]), bytes(&p["b"]));
        if p["s"] == "raw" {
            syn.raw.push((at, b));
        } else {
            syn.parts[num(&p["p"]) as usize - 1].over.push((at, b));
        }
    }
    syn.n_over = n_over;
    let cut = s["cut"].as_i64().unwrap();
    if cut >= 0 {
        syn.len = syn.len.min(cut as u64);
    }
    let syn = Arc::new(syn);
    let mut steps: Vec<(String, &'static str)> = vec![];
    let mut wrong: Vec<String> = vec![];
    let mut tables: Vec<Value> = vec![];
    let mut panic = String::new();
    macro_rules! step {
        ($name:expr, $e:expr) => {{
            let r = guard(|| $e);
            match r {
                Ok(Ok(v)) => {
                    steps.push(($name.to_string(), "v"));
                    Some(v)
                }
                Ok(Err(_)) => {
                    steps.push(($name.to_string(), "e"));
                    None
                }
                Err(m) => {
                    panic = m;
                    steps.push(($name.to_string(), "p"));
                    None
                }
            }
        }};
    }
    let src = Source { s: syn.clone(), pos: 0, n: 0, short: 0, cut: u64::MAX, faults: vec![], hit: Arc::new(AtomicBool::new(false)) };
    if let Some(mut rd) = step!("open", WiiIsoReader::open(src)) {
        let mut entries = rd.partitions().to_vec();
        if entries.len() > 4 {
            let last = entries.pop().unwrap();
            entries.truncate(3);
            entries.push(last);
        }
        for (k, e) in entries.into_iter().enumerate() {
            let mut own = Own::open(&syn, e.get_offset());
            // the table this side finds
            let mine = own.as_mut().and_then(|o| {
                let boot = o.get(0, 0x440)?;
                if boot.len() < 0x440 {
                    return None;
                }
                let at = (be32(&boot, 0x424) as u64) << 2;
                let bs = o.get(at, 400)?;
                Some((bs.len() < 400, bs, (be32(&boot, 0x420) as u64) << 2))
            });
            let i = step!(format!("open partition {k}"), rd.open_partition(e));
            if let Some((full, bs, _)) = &mine {
                let t = i.as_ref().map(|i| jnodes(i.get_fst().get_entries(), true));
                if t.as_ref().map_or(0, |t| t.to_string().len()) < 20000 {
                    tables.push(json!({"bs": jbytes(bs), "full": full, "ok": i.is_some() || steps.last().unwrap().1 == "p", "t": t.unwrap_or(json!([]))}));
                }
            }
            let Some(mut i) = i else { continue };
            step!("tmd", i.read_tmd(&mut rd).map(|_| ()));
            step!("certificates", i.read_certificates(&mut rd).map(|_| ()));
            if let Some(b) = step!("bi2", i.read_bi2(&mut rd)) {
                if !same(&mut own, 0x440, 0x2000, &b) {
                    wrong.push("bi2".into());
                }
            }
            if let Some(b) = step!("apploader", i.read_apploader(&mut rd)) {
                let h = own.as_mut().and_then(|o| o.get(0x2440, 28)).unwrap_or_default();
                let n = if h.len() == 28 { 32 + be32(&h, 20) as u64 + be32(&h, 24) as u64 } else { 0 };
                if !same(&mut own, 0x2440, n, &b) {
                    wrong.push("apploader".into());
                }
            }
            if let Some(b) = step!("dol", i.read_dol(&mut rd)) {
                let at = mine.as_ref().map_or(0, |m| m.2);
                let h = own.as_mut().and_then(|o| o.get(at, 0xE4)).unwrap_or_default();
                if h.len() == 0xE4 {
                    let n = be32(&h, 0) as u64 + (0..18).map(|k| be32(&h, 0x90 + 4 * k) as u64).sum::<u64>();
                    if !same(&mut own, at, n, &b) {
                        wrong.push("dol".into());
                    }
                } else {
                    wrong.push("dol".into());
                }
            }
            let mut fs = vec![];
            files(i.get_fst().get_entries(), "", &mut fs);
            for (path, off, len) in fs {
                let mut v = vec![];
                if step!(format!("range {path}"), i.get_crypto_reader(&mut rd).read_into_vec(off, len as u64, &mut v)).is_some() && !same(&mut own, off, len as u64, &v) {
                    wrong.push(format!("range {path}"));
                }
                let mut head = [0u8; 700];
                let r = step!(format!("file {path}"), (|| {
                    let mut f = match i.open_file(&mut rd, &path) {
                        Some(f) => f,
                        // a path that names another entry, or none
                        None => return Ok::<_, std::io::Error>(usize::MAX),
                    };
                    f.seek(SeekFrom::Start(len as u64 / 2))?;
                    f.read(&mut head)
                })());
                let _ = r;
            }
        }
    }
    let tableonly = cut < 0 && s["ps"].as_array().unwrap().iter().all(|p| p["s"] == "plain" && { let q = num(&p["p"]) as usize - 1; num(&p["at"]) >= gpos(&s["img"]["parts"][q]["fstAt"]) });
    json!({"tableonly": tableonly, "control": s["ps"].as_array().unwrap().is_empty() && cut < 0, "steps": steps, "wrong": wrong, "tables": tables, "panic": panic,
        "ps": s["ps"], "cut": cut})
}

pub fn malformed(cx: &mut Cx) {
    let items: Vec<Value> = cx.lines().collect();
    let Some(first) = items.first() else { return };
    let base = Arc::new(Synth::new(&first["img"]));
    let out = par_map(cx, &items, |_, s| one(s, &base));
    // tables as in the image without patches say nothing new
    let mut seen: Vec<String> = vec![];
    for mut o in out {
        let t = o["tables"].as_array_mut().unwrap();
        t.retain(|t| {
            let k = t.to_string();
            let new = !seen.contains(&k);
            if new && seen.len() < 20 {
                seen.push(k);
            }
            new
        });
        cx.calls += o["steps"].as_array().unwrap().len() as u64;
        cx.emit(&o);
    }
}
