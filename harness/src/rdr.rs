//! Histories of reads over opened partitions of a synthetic image (C07), and of
//! operations on opened files and windows of partitions (C08).
use crate::synth::*;
use crate::util::*;
use binrw::BinWrite;
use disc_riider::structs::WiiPartType;
use disc_riider::{FstNode, WiiIsoReader, WiiPartitionReadInfo};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{Cursor, Read, Seek, SeekFrom};
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use std::sync::{Arc, Mutex};

/// offsets that the model only knows as "far"
const FAR: [u64; 4] = [u64::MAX, u64::MAX - 3, 1 << 63, (1 << 63) - 1];

struct Res {
    e: bool,
    at: u64,
    n: u64,
    ok: bool,
    v: u64,
    after: Option<u64>,
}
impl Default for Res {
    fn default() -> Self {
        Res { e: false, at: 0, n: 0, ok: true, v: 0, after: None }
    }
}
fn js(r: &Res, f: bool) -> Value {
    json!({"e": r.e, "f": f, "at": jpos(r.at), "n": r.n.min(2_000_000_000), "ok": r.ok, "v": jpos(r.v), "after": r.after.map_or(json!([]), jpos)})
}
fn pos_of(v: &Value, far: u64) -> u64 {
    if num(&v[0]) >= 1_000_000 {
        far
    } else {
        gpos(v)
    }
}
/// one stream operation; cur: the position this side believes in
fn stream<S: Read + Seek + ?Sized>(s: &mut S, op: &Value, base: u64, cur: &mut u64, far: u64, plain: &dyn Fn(u64, &[u8]) -> bool) -> Res {
    let mut r = Res::default();
    let sk = |x: std::io::Result<u64>, r: &mut Res, cur: &mut u64| match x {
        Ok(v) => {
            r.v = v;
            *cur = v;
        }
        Err(_) => r.e = true,
    };
    match op[0].as_str().unwrap() {
        "start" => sk(s.seek(SeekFrom::Start(pos_of(&op[1], far))), &mut r, cur),
        "cur" => {
            let d = pos_of(&op[2], i64::MAX as u64) as i64;
            sk(s.seek(SeekFrom::Current(if op[1].as_i64() == Some(-1) { -d } else { d })), &mut r, cur)
        }
        "end" => {
            let d = pos_of(&op[2], i64::MAX as u64) as i64;
            sk(s.seek(SeekFrom::End(if op[1].as_i64() == Some(-1) { -d } else { d })), &mut r, cur)
        }
        "pos" => sk(s.stream_position(), &mut r, cur),
        "read" => {
            let mut b = vec![0u8; num(&op[1]) as usize];
            r.at = base.saturating_add(*cur);
            match s.read(&mut b) {
                Ok(n) => {
                    r.n = n as u64;
                    r.ok = n <= b.len() && plain(r.at, &b[..n.min(b.len())]);
                    *cur = cur.saturating_add(n as u64);
                }
                Err(_) => r.e = true,
            }
        }
        "exact" => {
            let mut b = vec![0u8; num(&op[1]) as usize];
            r.at = base.saturating_add(*cur);
            match s.read_exact(&mut b) {
                Ok(()) => {
                    r.n = b.len() as u64;
                    r.ok = plain(r.at, &b);
                    *cur = cur.saturating_add(r.n);
                }
                Err(_) => {
                    r.e = true;
                    if let Ok(p) = s.stream_position() {
                        *cur = p;
                        r.after = Some(p);
                    }
                }
            }
        }
        x => panic!("op {x}"),
    }
    r
}

fn run(img: &Arc<Synth>, s: &Value, i: usize) -> Value {
    let far = FAR[i % 4];
    let hit = Arc::new(AtomicBool::new(false));
    let faults = s["faults"].as_array().unwrap().iter().map(|f| (f[0].as_i64().unwrap(), f[1].as_i64() == Some(1))).collect();
    let src = Source { s: img.clone(), pos: 0, n: 0, short: 0, cut: u64::MAX, faults: vec![], hit: hit.clone() };
    let mut rd = match WiiIsoReader::open(src) {
        Ok(r) => r,
        Err(e) => return json!({"bad": format!("open: {e}")}),
    };
    let entries = rd.partitions().to_vec();
    let mut infos: Vec<WiiPartitionReadInfo> = vec![];
    let mut curs: Vec<u64> = vec![];
    let mut init = vec![];
    for e in &entries {
        match rd.open_partition(e.clone()) {
            Ok(mut x) => {
                let p = x.get_crypto_reader(&mut rd).stream_position().unwrap_or(0);
                infos.push(x);
                curs.push(p);
                init.push(jpos(p));
            }
            Err(e) => return json!({"bad": format!("open_partition: {e}")}),
        }
    }
    // misbehaviour starts after opening
    rd.file.short = num(&s["short"]) as usize;
    rd.file.faults = faults;
    if let Some(c) = s["cut"].as_array().filter(|c| !c.is_empty()) {
        let p = &img.parts[num(&c[0]) as usize - 1];
        rd.file.cut = p.data_off + num(&c[1]) * 0x200000 + num(&c[2]);
    }
    rd.file.n = 0;
    let mut out = vec![];
    for op in s["ops"].as_array().unwrap() {
        let p = num(&op[1]) as usize - 1;
        let sp = &img.parts[p];
        let plain = |at: u64, b: &[u8]| b.is_empty() || (at < 1 << 50 && sp.is_plain(at, b));
        hit.store(false, Relaxed);
        let info = &mut infos[p];
        let mut r = Res::default();
        let mut subs = vec![];
        match op[0].as_str().unwrap() {
            "s" => {
                let mut cr = info.get_crypto_reader(&mut rd);
                r = stream(&mut cr, &op[2], 0, &mut curs[p], far, &plain);
            }
            "vec" => {
                let at = pos_of(&op[2], far);
                // prefilled: it has to be cleared
                let mut b = vec![7u8; 5];
                r.at = at;
                let n = if num(&op[3]) >= 1_000_000_000 { far } else { num(&op[3]) };
                match info.get_crypto_reader(&mut rd).read_into_vec(at, n, &mut b) {
                    Ok(()) => {
                        r.n = b.len() as u64;
                        r.ok = plain(at, &b);
                    }
                    Err(_) => r.e = true,
                }
            }
            k @ ("bi2" | "app" | "dol") => {
                let x = match k {
                    "bi2" => (0x440, info.read_bi2(&mut rd)),
                    "app" => (0x2440, info.read_apploader(&mut rd)),
                    _ => (sp.dol.0, info.read_dol(&mut rd)),
                };
                r.at = x.0;
                match x.1 {
                    Ok(b) => {
                        r.n = b.len() as u64;
                        r.ok = plain(x.0, &b);
                    }
                    Err(_) => r.e = true,
                }
            }
            "tmd" => match info.read_tmd(&mut rd) {
                Ok(t) => r.ok = enc(&t) == sp.tmd,
                Err(_) => r.e = true,
            },
            "certs" => match info.read_certificates(&mut rd) {
                Ok(t) => r.ok = enc(&t) == sp.certs,
                Err(_) => r.e = true,
            },
            "meta" => {
                let (h, ph) = (enc(info.get_encrypted_header()), enc(info.get_partition_header()));
                let mut raw = vec![0u8; ph.len()];
                img.read_at(sp.off, &mut raw);
                let mut files = vec![];
                let _ = info.get_fst().callback_all_files(&mut |path: &Vec<&str>, n: &FstNode| -> Result<(), ()> {
                    if let FstNode::File { offset, length, .. } = n {
                        files.push((path.join("/"), *offset, *length as u64));
                    }
                    Ok(())
                });
                let t = match info.get_partition_type() {
                    WiiPartType::Data => 0,
                    WiiPartType::Update => 1,
                    WiiPartType::Channel => 2,
                };
                r.ok = t == sp.t && info.get_partition_offset() == sp.off && plain(0, &h) && ph == raw && files == sp.files;
            }
            "nofile" => r.e = info.open_file(&mut rd, op[2].as_str().unwrap()).is_none(),
            "reopen" => match rd.open_partition(entries[p].clone()) {
                Ok(x) => *info = x,
                Err(_) => r.e = true,
            },
            k @ ("file" | "win") => {
                let (base, subops) = if k == "file" { (sp.files[num(&op[2]) as usize - 1].1, &op[3]) } else { (gpos(&op[2]), &op[4]) };
                let mut cur = 0u64;
                let mut go = |w: &mut dyn RS| {
                    for o in subops.as_array().unwrap() {
                        hit.store(false, Relaxed);
                        let x = stream(w, o, base, &mut cur, far, &plain);
                        subs.push(js(&x, hit.load(Relaxed)));
                    }
                };
                if k == "file" {
                    match info.open_file(&mut rd, &sp.files[num(&op[2]) as usize - 1].0) {
                        Some(mut w) => go(&mut w),
                        None => r.e = true,
                    }
                } else {
                    let len = if op[3].as_array().unwrap().is_empty() { None } else { Some(gpos(&op[3])) };
                    let mut w = info.open_window(&mut rd, base, len);
                    go(&mut w);
                }
            }
            x => panic!("op {x}"),
        }
        let was = hit.load(Relaxed);
        if matches!(op[0].as_str(), Some("bi2" | "app" | "dol" | "reopen" | "file" | "win")) {
            if let Ok(q) = info.get_crypto_reader(&mut rd).stream_position() {
                curs[p] = q;
                r.after = Some(q);
            }
        }
        let mut v = js(&r, was);
        v["subs"] = json!(subs);
        out.push(v);
    }
    json!({"init": init, "res": out})
}
trait RS: Read + Seek {}
impl<T: Read + Seek> RS for T {}
fn enc<T: for<'a> BinWrite<Args<'a> = ()>>(t: &T) -> Vec<u8> {
    let mut c = Cursor::new(vec![]);
    t.write_be(&mut c).unwrap();
    c.into_inner()
}

pub fn reader(cx: &mut Cx) {
    let items: Vec<Value> = cx.lines().collect();
    let imgs: Mutex<HashMap<String, Arc<Synth>>> = Mutex::new(HashMap::new());
    let rs = par_map(cx, &items, |i, s| {
        let key = s["img"].to_string();
        let img = imgs.lock().unwrap().entry(key).or_insert_with(|| Arc::new(Synth::new(&s["img"]))).clone();
        guard(|| run(&img, s, i))
    });
    for (i, r) in rs.into_iter().enumerate() {
        let s = &items[i];
        cx.calls += s["ops"].as_array().unwrap().len() as u64;
        match r {
            Err(e) => cx.mismatch(i, &format!("panic: {e}"), json!({})),
            Ok(v) if v.get("bad").is_some() => cx.mismatch(i, v["bad"].as_str().unwrap(), json!({})),
            Ok(v) => cx.emit(&json!({"img": s["img"], "ops": s["ops"], "init": v["init"], "res": v["res"]})),
        }
    }
}
