//! Writes disc images of its own (independent of the crate's builder), in many layouts,
//! and runs the library's copy function on them.
use crate::build::*;
use crate::image::*;
use crate::util::*;
use serde_json::{json, Value};
use std::fs;
use std::io::{Seek, SeekFrom, Write};

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
/// a file to be placed
struct Ent {
    id: u64,
    sz: u64,
    past: u64,
    /// length in KiB of a file that lies in the hole at the end of the partition
    kb: u64,
}
fn collect(v: &Value, out: &mut Vec<Ent>) {
    for n in v.as_array().unwrap() {
        if n["k"] == "d" {
            collect(&n["c"], out);
        } else {
            out.push(Ent { id: num(&n["id"]), sz: num(&n["sz"]), past: num(&n["past"]), kb: n.get("kb").map_or(0, num) });
        }
    }
}
enum Raw {
    Dir(Vec<u8>, usize, usize),
    File(Vec<u8>, usize),
}
fn flatten(v: &Value, parent: usize, out: &mut Vec<Raw>, nf: &mut usize) {
    for n in v.as_array().unwrap() {
        let me = out.len();
        let s = bytes(&n["s"]);
        if n["k"] == "d" {
            out.push(Raw::Dir(s.clone(), parent, 0));
            flatten(&n["c"], me, out, nf);
            let end = out.len();
            out[me] = Raw::Dir(s, parent, end);
        } else {
            out.push(Raw::File(s, *nf));
            *nf += 1;
        }
    }
}
/// file table; place[k] = (offset, length) of the k-th file
fn table_bytes(v: &Value, place: &[(u64, u64)], lay: u64) -> Vec<u8> {
    let mut nodes = vec![Raw::Dir(vec![], 0, 0)];
    let mut nf = 0;
    flatten(v, 0, &mut nodes, &mut nf);
    // names in another order than the nodes
    let mut order: Vec<usize> = (0..nodes.len()).collect();
    if lay % 2 == 1 {
        order.reverse();
    }
    let mut names: Vec<u8> = if lay % 4 >= 2 { vec![b'#', 0, 0] } else { vec![] };
    let mut at = vec![0u32; nodes.len()];
    for k in order {
        at[k] = names.len() as u32;
        let (Raw::Dir(s, ..) | Raw::File(s, _)) = &nodes[k];
        names.extend(s);
        names.push(0);
    }
    let mut b = vec![];
    for (k, n) in nodes.iter().enumerate() {
        let (ty, x, y) = match n {
            Raw::Dir(_, p, e) => (1u32, *p as u32, if k == 0 { nodes.len() as u32 } else { *e as u32 }),
            Raw::File(_, f) => (0, (place[*f].0 >> 2) as u32, place[*f].1 as u32),
        };
        b.extend(((ty << 24) | at[k]).to_be_bytes());
        b.extend(x.to_be_bytes());
        b.extend(y.to_be_bytes());
    }
    b.extend(names);
    while b.len() % 4 != 0 {
        b.push(0);
    }
    b
}
fn shuffle<T>(v: &mut [T], seed: u64) {
    for k in (1..v.len()).rev() {
        v.swap(k, (mix(seed, k as u64) % (k as u64 + 1)) as usize);
    }
}
/// one partition: bytes from its header on, the facts about it, and the hole (as for images) in it
fn partition(p: &Value, d: &Def, far_ok: bool) -> (Vec<u8>, Value, (u64, u64)) {
    let lay = num(&p["lay"]);
    let bad = num(&p["bad"]);
    let mut ents = vec![];
    collect(&p["tree"], &mut ents);
    let gap = |k: u64| -> u64 {
        match lay % 5 {
            0 => 0,
            1 => 4 * (mix(lay, 500 + k) % 9),
            2 => 4 * (mix(lay, 500 + k) % 20000),
            3 => 0x20 * (mix(lay, 500 + k) % 3),
            _ => 4 * (mix(lay, 500 + k) % 300),
        }
    };
    // things to place after the apploader: dol, table, files
    let tab_len = table_bytes(&p["tree"], &vec![(0, 0); ents.len()], lay).len() as u64;
    let mut things: Vec<(usize, u64)> = vec![(0, d.dol.len() as u64), (1, tab_len)];
    things.extend(ents.iter().enumerate().map(|(k, e)| (k + 2, e.sz)));
    if lay % 3 != 0 {
        shuffle(&mut things, mix(lay, 3));
    }
    let mut pos = 0x2440 + d.app.len() as u64;
    let mut at = vec![0u64; things.len()];
    // some have many groups without anything in them before some of the things
    let whole = ents.iter().all(|e| e.past == 0) && p.get("psys").map_or(true, |x| x == "");
    let jump = if far_ok && whole && lay % 19 == 5 { (lay / 19) as usize % things.len() } else { usize::MAX };
    let mut skip = (u64::MAX, 0u64);
    for (k, (w, n)) in things.iter().enumerate() {
        if k == jump {
            pos = pos.next_multiple_of(GRPD as u64);
            skip = (pos / GRPD as u64, [2112, 2113, 2114, 2116, 4227, 4229, 4800][(lay / 101) as usize % 7]);
        }
        pos = (pos + gap(k as u64) + 3) & !3;
        at[*w] = pos;
        pos += n;
    }
    pos = (pos + 3) & !3;
    if let Some(n) = p.get("hole").map(num).filter(|n| *n > 0) {
        pos = pos.next_multiple_of(GRPD as u64);
        skip = (pos / GRPD as u64, n);
    }
    // where things are in the partition, from where they are in what is kept here
    let far = |x: u64| if x >= skip.0.saturating_mul(GRPD as u64) { x + skip.1 * GRPD as u64 } else { x };
    let past = ents.iter().any(|e| e.past > 0);
    let ng = (pos as usize).div_ceil(GRPD).max(1);
    let all = ng as u64 + skip.1;
    let size = match (lay / 7) % 3 {
        0 => pos + skip.1 * GRPD as u64,
        1 if !past && p.get("psys").map_or(true, |x| x == "") => all * GRP as u64,
        _ => all * GRPD as u64,
    };
    let place: Vec<(u64, u64)> = ents.iter().enumerate().map(|(k, e)| if e.kb > 0 { (pos + 4 * e.id, e.kb << 10) } else { (far(at[k + 2]), if e.past > 0 { (size - far(at[k + 2]) + e.past).min(u32::MAX as u64) } else { e.sz }) }).collect();
    let mut tab = table_bytes(&p["tree"], &place, lay);
    // room after the table in the recorded size
    let fst_sz = tab.len() as u64;
    if bad == 1 {
        tab[0] = 0;
    }
    let mut plain = prf(mix(lay, 9), ng * GRPD);
    let mut boot = d.boot.clone();
    put32(&mut boot, 0x420, (far(at[0]) >> 2) as u32);
    put32(&mut boot, 0x424, (far(at[1]) >> 2) as u32);
    let psys = p.get("psys").and_then(|x| x.as_str()).unwrap_or("");
    put32(&mut boot, 0x428, if psys == "fst" { ((size - far(at[1])) >> 2) as u32 + 1 + (lay % 1000) as u32 } else { (fst_sz >> 2) as u32 });
    put32(&mut boot, 0x42C, ((fst_sz + gap(77)) >> 2) as u32);
    let mut bi2 = d.bi2.clone();
    bi2.resize(0x2000, 0);
    plain[..0x440].copy_from_slice(&boot);
    plain[0x440..0x2440].copy_from_slice(&bi2);
    plain[0x2440..][..d.app.len()].copy_from_slice(&d.app);
    plain[at[0] as usize..][..d.dol.len()].copy_from_slice(&d.dol);
    match psys {
        "app" => {
            let s1 = be32(&d.app, 0x14) as u64;
            put32(&mut plain, 0x2440 + 0x18, (size - 0x2440 - 32 - s1 + 1 + lay % 100000).min(u32::MAX as u64) as u32);
        }
        "dol" => {
            let more = size - far(at[0]) - d.dol.len() as u64 + 1 + lay % 100000 + be32(&d.dol, 0x90 + 4 * 17) as u64;
            put32(&mut plain, at[0] as usize + 0x90 + 4 * 17, more.min(u32::MAX as u64) as u32);
        }
        _ => {}
    }
    plain[at[1] as usize..][..tab.len()].copy_from_slice(&tab);
    let mut blobs = vec![];
    for (k, e) in ents.iter().enumerate() {
        let b = prf(e.id, e.sz as usize);
        plain[at[k + 2] as usize..][..b.len()].copy_from_slice(&b);
        blobs.push(json!([e.id, hex(&sha(&b))]));
    }
    // outside
    let mut ticket = d.ticket_enc.clone();
    if bad == 2 {
        ticket[0x1F1] = 9;
    }
    let tmd_off = (0x2C0 + gap(90) % 0x1000 + 3) & !3;
    let cert_off = (tmd_off + d.tmd_enc.len() as u64 + gap(91) % 0x1000 + 3) & !3;
    let h3_off = if lay % 2 == 0 { 0x8000 } else { (cert_off + d.certs_enc.len() as u64 + 3) & !3 };
    let data_off = match lay % 3 {
        0 => 0x20000,
        1 => (h3_off + 0x18000 + 3) & !3,
        _ => 0x20000 + 4 * (mix(lay, 44) % 9999),
    };
    let data_off = data_off.max((h3_off + 0x18000 + 3) & !3);
    let mut raw = prf(mix(lay, 10), data_off as usize);
    raw[..ticket.len()].copy_from_slice(&ticket);
    for (k, v) in [d.tmd_enc.len() as u64, tmd_off >> 2, d.certs_enc.len() as u64, cert_off >> 2, h3_off >> 2, data_off >> 2, size >> 2].iter().enumerate() {
        put32(&mut raw, 0x2A4 + 4 * k, *v as u32);
    }
    raw[tmd_off as usize..][..d.tmd_enc.len()].copy_from_slice(&d.tmd_enc);
    raw[cert_off as usize..][..d.certs_enc.len()].copy_from_slice(&d.certs_enc);
    let mut h3 = vec![0u8; 0x18000];
    for g in 0..ng {
        let (r, t) = seal_group(&plain[g * GRPD..(g + 1) * GRPD], &d.key);
        let g = if g as u64 >= skip.0 { g + skip.1 as usize } else { g };
        h3[20 * g..][..20].copy_from_slice(&t);
        raw.extend(r);
    }
    raw[h3_off as usize..][..0x18000].copy_from_slice(&h3);
    let sys = json!([
        ["sys/boot.bin", hex(&sha(&boot))], ["sys/bi2.bin", hex(&sha(&bi2))], ["sys/apploader.img", hex(&sha(&d.app))],
        ["sys/main.dol", hex(&sha(&d.dol))], ["sys/fst.bin", hex(&sha(&tab))],
        ["cert.bin", hex(&sha(&d.certs_enc))], ["tmd.bin", hex(&sha(&d.tmd_enc))], ["ticket.bin", hex(&sha(&d.ticket_enc))],
    ]);
    let hole = if skip.1 > 0 { (data_off + skip.0 * GRP as u64, skip.1 * GRP as u64) } else { (0, 0) };
    (raw, json!({"blobs": blobs, "sys": sys, "dol": hex(&sha(&d.dol))}), hole)
}
/// whole image and what is known about it
/// (holes of so many bytes are to be inserted at positions)
pub fn image(s: &Value) -> (Vec<u8>, Value, Vec<(u64, u64)>) {
    let lay = num(&s["lay"]);
    let dd = DiscDef::new(s);
    let parts = s["parts"].as_array().unwrap();
    let mut img = prf(mix(lay, 11), 0x50000);
    img[..0x440].copy_from_slice(&dd.hdr);
    img[0x4E000..0x4E020].copy_from_slice(&dd.region);
    let mut order: Vec<usize> = (0..parts.len()).collect();
    if lay % 2 == 1 {
        shuffle(&mut order, lay);
    }
    let mut offs = vec![0u64; parts.len()];
    let mut facts = vec![Value::Null; parts.len()];
    // some have partitions far behind
    let jump = if lay % 23 == 7 { (lay / 23) as usize % order.len().max(1) } else { usize::MAX };
    let mut holes: Vec<(u64, u64)> = vec![];
    for (j, k) in order.into_iter().enumerate() {
        let (raw, f, inner) = partition(&parts[k], &dd.defs[k], jump == usize::MAX);
        let extra = match lay % 3 {
            0 => 0,
            1 => 4 * (mix(lay, k as u64) % 5000) as usize,
            _ => 0x8000 - img.len() % 0x8000,
        };
        img.resize(img.len() + extra, 0xA5);
        let sum = |h: &[(u64, u64)]| h.iter().map(|x| x.1).sum::<u64>();
        if j == jump {
            let n = img.len() as u64 + sum(&holes);
            let to = [(1u64 << 32) - 0x40000, 1 << 32, (1 << 33) + 0x8000, (7 << 31) + 4][(lay / 97) as usize % 4];
            if to > n {
                holes.push((img.len() as u64, to - n));
            }
        }
        offs[k] = img.len() as u64 + sum(&holes);
        if inner.1 > 0 {
            holes.push((img.len() as u64 + inner.0, inner.1));
        }
        img.extend(raw);
        facts[k] = f;
    }
    // entries over the four tables, in order
    let mut first = 0;
    let mut at = 0x40020 + 8 * (mix(lay, 70) % 5) as usize;
    for g in 0..4usize {
        let n = if g == 3 { parts.len() - first } else { (mix(lay, 60 + g as u64) % (parts.len() - first + 1) as u64) as usize };
        // some have tables elsewhere on the disc, also in front of the list of tables
        if mix(lay, 90 + g as u64) % 6 == 0 {
            at = [0x440, 0x8000, 0x3FC00, 0x4A000, 0x4E020, 0x4FC00][mix(lay, 95 + g as u64) as usize % 6] + 0x80 * g;
        }
        put32(&mut img, 0x40000 + 8 * g, n as u32);
        put32(&mut img, 0x40004 + 8 * g, if n == 0 && lay % 2 == 0 { 0 } else { (at >> 2) as u32 });
        for j in 0..n {
            put32(&mut img, at, (offs[first + j] >> 2) as u32);
            put32(&mut img, at + 4, num(&parts[first + j]["t"]) as u32);
            at += 8;
        }
        first += n;
        at += 4 * (mix(lay, 80 + g as u64) % 3) as usize;
    }
    for (k, f) in facts.iter_mut().enumerate() {
        f["off"] = json!([offs[k] >> 18, offs[k] / 4 & 0xFFFF]);
    }
    let info = json!({"parts": facts, "header": hex(&sha(&dd.hdr)), "region": hex(&sha(&dd.region))});
    (img, info, holes)
}
/// writes scenario i's image to <cwd>/img-<i>, and emits the facts
pub fn compose(cx: &mut Cx) {
    let items: Vec<Value> = cx.lines().collect();
    for o in par_map(cx, &items, |i, s| {
        let (img, mut info, holes) = image(&s["disc"]);
        let mut f = fs::File::create(format!("img-{i}")).expect("image");
        let mut from = 0;
        let mut total = img.len() as u64;
        for (at, n) in holes {
            f.write_all(&img[from..at as usize]).expect("image");
            f.seek(SeekFrom::Current(n as i64)).expect("image");
            from = at as usize;
            total += n;
        }
        f.write_all(&img[from..]).expect("image");
        f.set_len(total).expect("image");
        if let Some(c) = s.get("cut").and_then(|c| c.as_u64()) {
            f.set_len(total.saturating_sub(c)).expect("image");
        }
        info["i"] = json!(i);
        info
    }) {
        cx.emit(&o);
    }
}
fn built(r: Result<Result<(), String>, String>) -> Built {
    let ok = matches!(r, Ok(Ok(())));
    Built {
        adds: vec![if ok { Ok(()) } else { Err(String::new()) }],
        prog: vec![],
        finish: match &r {
            Ok(Err(e)) => Err(e.clone()),
            _ => Ok(()),
        },
        panic: r.err(),
        odd: false,
    }
}
/// runs the library's copy function on images, and looks at the result
pub fn copies(cx: &mut Cx) {
    let items: Vec<Value> = cx.lines().collect();
    for o in par_map(cx, &items, |i, s| {
        let src = s["img"].as_str().unwrap();
        let dest = format!("{src}-copy-{i}");
        // a destination that holds something else, or nothing
        fs::write(&dest, if i % 2 == 0 { vec![] } else { prf(5, 0x300000) }).expect("dest");
        let state = || {
            let m = fs::metadata(src).expect("source");
            // far too much to compare
            (m.len(), m.modified().ok(), if m.len() < 1 << 31 { fs::read(src).expect("source") } else { vec![] })
        };
        let before = state();
        let r = guard(|| disc_riider::builder::build_copy(src.as_ref(), dest.as_ref()).map_err(|e| format!("{e}")));
        let b = built(r);
        let dd = DiscDef::new(&s["def"]);
        let got = fs::read(&dest).expect("copy");
        let o = json!({"kind": "copy", "expect": s["expect"], "def": s["def"], "img": observe(&got, &dd, &b), "source_same": state() == before});
        let _ = fs::remove_file(&dest);
        o
    }) {
        cx.calls += 1;
        cx.emit(&o);
    }
}
/// looks at images rebuilt from an extraction: first rebuild against the definition, second against the first
pub fn trips(cx: &mut Cx) {
    let items: Vec<Value> = cx.lines().collect();
    for o in par_map(cx, &items, |_, s| {
        let mut dd = DiscDef::new(&s["def"]);
        let mut hdr = dd.defs[0].boot.clone();
        hdr[0x60] = 0;
        hdr[0x61] = 0;
        dd.hdr = hdr;
        let one = s["re1"].as_str().map(|p| fs::read(p).expect("re1"));
        let two = s["re2"].as_str().map(|p| fs::read(p).expect("re2"));
        let b = built(Ok(if one.is_some() { Ok(()) } else { Err("".into()) }));
        let img = observe(one.as_deref().unwrap_or(&[]), &dd, &b);
        let mut diff = vec![];
        let mut len_same = true;
        if let (Some(a), Some(b)) = (&one, &two) {
            len_same = a.len() == b.len();
            for k in 0..a.len().min(b.len()) {
                if a[k] != b[k] {
                    diff.push(k);
                    if diff.len() > 40 {
                        break;
                    }
                }
            }
        }
        json!({"kind": "trip", "expect": s["expect"], "def": s["def"], "img": img, "steps": s["steps"], "again": two.is_some(), "len_same": len_same, "diff": diff,
               "cli": s["cli"], "cliprog": s["cliprog"], "cli_same": s["cli_same"], "prog": s["prog"], "full": s["full"], "lacks": s["lacks"]})
    }) {
        cx.calls += 1;
        cx.emit(&o);
    }
}
