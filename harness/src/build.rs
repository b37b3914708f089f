//! Drives the real builder with generated definitions and records what it produced.
use crate::image::*;
use crate::runs::*;
use crate::util::*;
use binrw::BinReaderExt;
use disc_riider::builder::{PartitionAddError, WiiDiscBuilder, WiiPartitionDefinition};
use disc_riider::structs::*;
use disc_riider::{Fst, FstNode, ShiftedU64, WiiIsoReader};
use serde_json::{json, Value};
use std::borrow::Cow;
use std::io::{self, Cursor, Read, Seek, SeekFrom, Write};

// ---------------------------------------------------------------- metadata
fn arr<const N: usize>(id: u64) -> [u8; N] {
    let mut a = [0; N];
    prf_fill(id, 0, &mut a);
    a
}
pub fn part_type(t: u64) -> WiiPartType {
    [WiiPartType::Data, WiiPartType::Update, WiiPartType::Channel][t as usize]
}
pub fn type_no(t: WiiPartType) -> u64 {
    match t {
        WiiPartType::Data => 0,
        WiiPartType::Update => 1,
        WiiPartType::Channel => 2,
    }
}
const SIGS: [(SigType, u32, usize); 3] = [(SigType::Rsa4096, 0x10000, 512), (SigType::Rsa2048, 0x10001, 256), (SigType::EllipticalCurve, 0x10002, 64)];
const KTYPES: [(KeyType, u32, usize); 2] = [(KeyType::Rsa4096, 0, 512), (KeyType::Rsa2048, 1, 256)];

/// a ticket and its independent encoding
pub fn ticket(seed: u64, key_idx: u64) -> (Ticket, Vec<u8>, [u8; 16]) {
    let key: [u8; 16] = arr(mix(seed, 1));
    let tl: Vec<TicketTimeLimit> = (0..8).map(|i| TicketTimeLimit { enable_time_limit: mix(seed, 20 + i) as u32, time_limit: mix(seed, 40 + i) as u32 }).collect();
    let t = Ticket {
        sig_type: SIGS[(mix(seed, 2) % 3) as usize].0,
        sig: arr(mix(seed, 3)),
        sig_issuer: arr(mix(seed, 4)),
        ecdh: arr(mix(seed, 5)),
        ticket_id: arr(mix(seed, 6)),
        console_id: arr(mix(seed, 7)),
        title_id: arr(mix(seed, 8)),
        unk: mix(seed, 9) as u16,
        ticket_version: mix(seed, 10) as u16,
        permitted_titles_mask: mix(seed, 11) as u32,
        permit_mask: mix(seed, 12) as u32,
        title_export_allowed: mix(seed, 13) as u8,
        common_key_idx: key_idx as u8,
        content_access_permissions: arr(mix(seed, 14)),
        unk2: mix(seed, 15) as u16,
        time_limits: tl.try_into().unwrap(),
        title_key: key,
    };
    let e = enc_ticket(&t);
    (t, e, key)
}
pub fn sig_no(t: SigType) -> u32 {
    SIGS.iter().find(|s| s.0 == t).unwrap().1
}
pub fn enc_ticket(t: &Ticket) -> Vec<u8> {
    let mut b = vec![];
    b.extend(sig_no(t.sig_type).to_be_bytes());
    b.extend(t.sig);
    b.extend([0; 60]);
    b.extend(t.sig_issuer);
    b.extend(t.ecdh);
    b.extend([0; 3]);
    let mut k = t.title_key;
    let mut iv = [0u8; 16];
    iv[..8].copy_from_slice(&t.title_id);
    cbc_enc(&KEYS[t.common_key_idx as usize], &iv, &mut k);
    b.extend(k);
    b.push(0);
    b.extend(t.ticket_id);
    b.extend(t.console_id);
    b.extend(t.title_id);
    b.extend(t.unk.to_be_bytes());
    b.extend(t.ticket_version.to_be_bytes());
    b.extend(t.permitted_titles_mask.to_be_bytes());
    b.extend(t.permit_mask.to_be_bytes());
    b.push(t.title_export_allowed);
    b.push(t.common_key_idx);
    b.extend([0; 48]);
    b.extend(t.content_access_permissions);
    b.extend(t.unk2.to_be_bytes());
    for l in &t.time_limits {
        b.extend(l.enable_time_limit.to_be_bytes());
        b.extend(l.time_limit.to_be_bytes());
    }
    assert_eq!(b.len(), 0x2A4);
    b
}

/// an encoded TMD with n contents
pub fn tmd_bytes(seed: u64, n: u64) -> Vec<u8> {
    let mut b = vec![];
    b.extend(SIGS[(mix(seed, 102) % 3) as usize].1.to_be_bytes());
    b.extend(prf(mix(seed, 103), 0x100));
    b.extend([0; 60]);
    b.extend(prf(mix(seed, 104), 0x40 + 3));
    b.push(0);
    b.extend(prf(mix(seed, 105), 4 + 4 + 8 + 4 + 2 + 56));
    b.extend([0; 6]);
    b.extend(prf(mix(seed, 106), 4 + 2));
    b.extend((n as u16).to_be_bytes());
    b.extend(prf(mix(seed, 107), 2));
    b.extend([0; 2]);
    assert_eq!(b.len(), 0x1E4);
    b.extend(prf(mix(seed, 108), 36 * n as usize));
    b
}
pub fn cert_bytes(seed: u64, sig: u64, key: u64) -> Vec<u8> {
    let s = SIGS[sig as usize];
    let k = KTYPES[key as usize];
    let mut b = vec![];
    b.extend(s.1.to_be_bytes());
    b.extend(prf(mix(seed, 201), s.2));
    b.extend([0; 60]);
    b.extend(prf(mix(seed, 202), 64));
    b.extend(k.1.to_be_bytes());
    b.extend(prf(mix(seed, 203), 64 + k.2 + 8));
    b.extend([0; 52]);
    b
}
/// an encoded disc header
pub fn header_bytes(seed: u64, title: &[u8]) -> Vec<u8> {
    let mut b = prf(mix(seed, 301), 10);
    b.extend([0; 14]);
    b.extend(prf(mix(seed, 302), 8));
    let mut t = title.to_vec();
    t.resize(64, 0);
    b.extend(t);
    b.extend(prf(mix(seed, 303), 2));
    b.extend([0; 0x39e]);
    b.extend(prf(mix(seed, 304), 8));
    b.extend([0; 0x18]);
    b.extend(prf(mix(seed, 305), 28));
    b.extend([0; 4]);
    assert_eq!(b.len(), 0x440);
    b
}
pub fn header(b: &[u8]) -> DiscHeader {
    let nul = b[0x20..0x60].iter().position(|c| *c == 0).unwrap_or(64);
    DiscHeader {
        game_id: b[0..6].try_into().unwrap(),
        disc_num: b[6],
        disc_version: b[7],
        audio_streaming: b[8],
        audio_stream_buf_size: b[9],
        wii_magic: be32(b, 0x18),
        gcn_magic: be32(b, 0x1C),
        game_title: String::from_utf8(b[0x20..0x20 + nul].to_vec()).unwrap(),
        disable_hash_verification: b[0x60],
        disable_disc_enc: b[0x61],
        debug_mon_off: be32(b, 0x400),
        debug_load_addr: be32(b, 0x404),
        dol_off: ShiftedU64::from((be32(b, 0x420) as u64) << 2),
        fst_off: ShiftedU64::from((be32(b, 0x424) as u64) << 2),
        fst_sz: ShiftedU64::from((be32(b, 0x428) as u64) << 2),
        fst_max_sz: ShiftedU64::from((be32(b, 0x42C) as u64) << 2),
        fst_memory_address: be32(b, 0x430),
        user_position: be32(b, 0x434),
        user_sz: be32(b, 0x438),
    }
}

/// apploader of n bytes; consistent with its own header when n >= 32
pub fn apploader(id: u64, n: usize) -> Vec<u8> {
    let mut b = prf(id, n);
    if n >= 32 {
        let s1 = ((n - 32) as u64 * (id % 5) / 4) as u32;
        put32(&mut b, 0x14, s1);
        put32(&mut b, 0x18, (n - 32) as u32 - s1);
    }
    b
}
/// dol of n bytes; consistent with its own header when n >= 0x100
pub fn dol(id: u64, n: usize) -> Vec<u8> {
    let mut b = prf(id, n);
    if n >= 0x100 {
        put32(&mut b, 0, 0x100);
        let mut rest = (n - 0x100) as u32;
        for k in 0..18 {
            let s = if k == 17 { rest } else { (mix(id, k) % (rest as u64 / 3 + 1)) as u32 };
            rest -= s;
            put32(&mut b, 0x90 + 4 * k as usize, s);
        }
    }
    b
}

// -------------------------------------------------------------- definition
#[derive(Debug)]
pub struct MyErr(pub u32);
impl std::fmt::Display for MyErr {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "MyErr {}", self.0)
    }
}
impl std::error::Error for MyErr {}

#[derive(Clone)]
pub struct FileDef {
    pub path: Vec<String>,
    pub id: u64,
    pub size: u64,
    pub pad: u64,
}
pub struct Def {
    pub t: u64,
    pub ticket: Ticket,
    pub ticket_enc: Vec<u8>,
    pub key: [u8; 16],
    pub tmd: TMD,
    pub tmd_enc: Vec<u8>,
    pub certs: [Certificate; 3],
    pub certs_enc: Vec<u8>,
    pub boot: Vec<u8>,
    pub bi2: Vec<u8>,
    pub app: Vec<u8>,
    pub dol: Vec<u8>,
    pub tree: Vec<FstNode>,
    pub files: Vec<FileDef>,
    /// callback that fails: hdr, bi2, app, fst, dol, f<k>; kind: custom / io
    pub fail: Option<(String, String)>,
    pub next: usize,
    pub buf: Vec<u8>,
    /// number of the file being asked for, shared with the progress recorder
    pub asked: std::rc::Rc<std::cell::Cell<usize>>,
    /// out of order or unknown path requests
    pub odd: bool,
    pub last: u64,
}

fn conv_tree(v: &Value, exact: bool, path: &mut Vec<String>, files: &mut Vec<FileDef>) -> Vec<FstNode> {
    let mut r = vec![];
    for n in v.as_array().unwrap() {
        if n["k"] == "r" {
            for j in 0..num(&n["cnt"]) {
                let name = String::from_utf8(run_name(&bytes(&n["n"]), num(&n["w"]) as usize, j)).unwrap();
                path.push(name.clone());
                files.push(FileDef { path: path.clone(), id: num(&n["id"]) + j, size: num(&n["sz"]), pad: 0 });
                path.pop();
                r.push(FstNode::File { name, offset: 0, length: if exact { num(&n["sz"]) as u32 } else { 0 } });
            }
            continue;
        }
        r.push({
            let name = String::from_utf8(bytes(&n["n"])).unwrap();
            path.push(name.clone());
            let r = if n["k"] == "d" {
                FstNode::Directory { name, files: conv_tree(&n["c"], exact, path, files) }
            } else {
                files.push(FileDef { path: path.clone(), id: num(&n["id"]), size: num(&n["sz"]), pad: num(&n["pad"]) });
                FstNode::File { name, offset: 0, length: if exact { num(&n["sz"]) as u32 } else { 0 } }
            };
            path.pop();
            r
        });
    }
    r
}

impl Def {
    pub fn new(p: &Value) -> Def {
        let seed = p["seed"].as_u64().unwrap();
        let (ticket, ticket_enc, key) = ticket(seed, p["key"].as_u64().unwrap());
        let tmd_enc = tmd_bytes(seed, p["ntmd"].as_u64().unwrap());
        let tmd: TMD = Cursor::new(&tmd_enc).read_be().expect("tmd");
        let mut certs_enc = vec![];
        for c in p["certs"].as_array().unwrap() {
            certs_enc.extend(cert_bytes(mix(seed, certs_enc.len() as u64), num(&c[0]), num(&c[1])));
        }
        let certs: [Certificate; 3] = Cursor::new(&certs_enc).read_be().expect("certs");
        let mut files = vec![];
        let tree = conv_tree(&p["tree"], p["ann"] == "exact", &mut vec![], &mut files);
        let fail = p.get("fail").and_then(|f| f.as_array()).filter(|f| f.len() == 2).map(|f| (f[0].as_str().unwrap().to_string(), f[1].as_str().unwrap().to_string()));
        Def {
            t: num(&p["t"]),
            ticket,
            ticket_enc,
            key,
            tmd,
            tmd_enc,
            certs,
            certs_enc,
            boot: header_bytes(mix(seed, 77), &bytes(&p["title"])),
            bi2: prf(mix(seed, 88), num(&p["bi2"]) as usize),
            app: apploader(mix(seed, 89), num(&p["app"]) as usize),
            dol: dol(mix(seed, 90), num(&p["dol"]) as usize),
            tree,
            files,
            fail,
            next: 0,
            buf: vec![],
            asked: Default::default(),
            odd: false,
            last: 0,
        }
    }
    fn check(&self, at: &str) -> Result<(), PartitionAddError<MyErr>> {
        match &self.fail {
            Some((w, k)) if w == at => Err(if k == "io" { PartitionAddError::IO(io::Error::new(io::ErrorKind::Other, "definition io")) } else { PartitionAddError::Custom(MyErr(7)) }),
            _ => Ok(()),
        }
    }
}
impl WiiPartitionDefinition<MyErr> for Def {
    fn get_disc_header(&mut self) -> Result<DiscHeader, PartitionAddError<MyErr>> {
        self.check("hdr")?;
        Ok(header(&self.boot))
    }
    fn get_bi2<'a>(&'a mut self) -> Result<Cow<'a, [u8]>, PartitionAddError<MyErr>> {
        self.check("bi2")?;
        Ok(Cow::Borrowed(&self.bi2))
    }
    fn get_apploader<'a>(&'a mut self) -> Result<Cow<'a, [u8]>, PartitionAddError<MyErr>> {
        self.check("app")?;
        Ok(Cow::Borrowed(&self.app))
    }
    fn get_fst(&mut self) -> Result<Fst, PartitionAddError<MyErr>> {
        self.check("fst")?;
        let mut f = Fst::new();
        *f.get_entries_mut() = self.tree.clone();
        Ok(f)
    }
    fn get_dol<'a>(&'a mut self) -> Result<Cow<'a, [u8]>, PartitionAddError<MyErr>> {
        self.check("dol")?;
        Ok(Cow::Borrowed(&self.dol))
    }
    fn get_file_data<'a>(&'a mut self, path: &Vec<String>) -> Result<(Cow<'a, [u8]>, u32), PartitionAddError<MyErr>> {
        self.check(&format!("f{}", self.next))?;
        // the definition answers by path; duplicates are answered in order
        let f = match self.files.get(self.next) {
            Some(f) if f.path == *path => f.clone(),
            _ => match self.files.iter().find(|f| f.path == *path) {
                Some(f) => f.clone(),
                None => {
                    self.odd = true;
                    return Err(PartitionAddError::Custom(MyErr(99)));
                }
            },
        };
        self.next += 1;
        self.asked.set(self.next);
        if self.last != f.id || self.buf.len() as u64 != f.size {
            self.buf.resize(f.size as usize, 0);
            prf_fill(f.id, 0, &mut self.buf);
            self.last = f.id;
        }
        Ok((Cow::Borrowed(&self.buf), f.pad as u32))
    }
}

// ------------------------------------------------------------- destination
#[derive(Clone, Debug)]
pub enum Fault {
    None,
    Err(u64, io::ErrorKind),
    /// fails from then on
    Dead(u64),
    Zero(u64),
    Intr(u64),
    Short(u64),
    /// every transfer limited; every 3rd interrupted
    Bumpy(u64),
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Op {
    Read,
    Write,
    Seek,
    Flush,
}
/// in-memory destination with operation log and fault injection
pub struct Dest {
    pub data: Vec<u8>,
    pub pos: u64,
    pub n: u64,
    pub fault: Fault,
    pub hit: Option<Op>,
    pub ops: Vec<Op>,
    pub log: Option<Vec<(u64, Vec<u8>)>>,
    /// how much there is, shared
    pub len: std::sync::Arc<std::sync::atomic::AtomicU64>,
    rng: u64,
}
impl Dest {
    pub fn new(data: Vec<u8>, fault: Fault) -> Dest {
        Dest { data, pos: 0, n: 0, fault, hit: None, ops: vec![], log: None, len: Default::default(), rng: 1 }
    }
    fn step(&mut self, op: Op, want: usize) -> io::Result<usize> {
        let k = self.n;
        self.n += 1;
        self.ops.push(op);
        let xfer = matches!(op, Op::Read | Op::Write);
        let e = || io::Error::new(io::ErrorKind::Other, "injected");
        match self.fault {
            Fault::Err(i, kind) if i == k => {
                self.hit = Some(op);
                Err(io::Error::new(kind, "injected"))
            }
            Fault::Dead(i) if i <= k => {
                self.hit = self.hit.or(Some(op));
                Err(e())
            }
            Fault::Zero(i) if i == k && xfer && want > 0 => {
                self.hit = Some(op);
                Ok(0)
            }
            Fault::Intr(i) if i == k && xfer => {
                self.hit = Some(op);
                Err(io::ErrorKind::Interrupted.into())
            }
            Fault::Short(i) if i == k && xfer => {
                self.hit = Some(op);
                Ok(if want > 1 { (want / 2).max(1) } else { want })
            }
            Fault::Bumpy(s) if xfer => {
                self.hit = Some(op);
                self.rng = mix(self.rng, s);
                if self.rng % 3 == 0 {
                    return Err(io::ErrorKind::Interrupted.into());
                }
                let m = [1usize, 3, 100, 5000, 100_000, 4_000_000][(self.rng / 3 % 6) as usize];
                Ok(want.min(m))
            }
            _ => Ok(want),
        }
    }
}
impl Read for Dest {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let have = (self.data.len() as u64).saturating_sub(self.pos) as usize;
        let n = self.step(Op::Read, buf.len().min(have))?;
        let p = self.pos as usize;
        if n > 0 {
            buf[..n].copy_from_slice(&self.data[p..p + n]);
        }
        self.pos += n as u64;
        Ok(n)
    }
}
impl Write for Dest {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let n = self.step(Op::Write, buf.len())?;
        let p = self.pos as usize;
        if n > 0 {
            if self.data.len() < p + n {
                self.data.resize(p + n, 0);
                self.len.store((p + n) as u64, std::sync::atomic::Ordering::Relaxed);
            }
            self.data[p..p + n].copy_from_slice(&buf[..n]);
            if let Some(l) = &mut self.log {
                l.push((self.pos, buf[..n].to_vec()));
            }
        }
        self.pos += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.step(Op::Flush, 0).map(drop)
    }
}
impl Seek for Dest {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.step(Op::Seek, 0)?;
        let np = match p {
            SeekFrom::Start(x) => x as i128,
            SeekFrom::Current(x) => self.pos as i128 + x as i128,
            SeekFrom::End(x) => self.data.len() as i128 + x as i128,
        };
        if np < 0 || np > u64::MAX as i128 {
            return Err(io::ErrorKind::InvalidInput.into());
        }
        self.pos = np as u64;
        Ok(self.pos)
    }
}

/// One build of a whole disc. Returns per add the result and progress, then finish's result.
pub struct Built {
    pub adds: Vec<Result<(), String>>,
    pub prog: Vec<Vec<(u8, usize)>>,
    pub finish: Result<(), String>,
    pub panic: Option<String>,
    pub odd: bool,
}
pub struct DiscDef {
    pub hdr: Vec<u8>,
    pub region: [u8; 32],
    pub defs: Vec<Def>,
    /// finish() is also called after these additions
    pub fin: Vec<bool>,
}
impl DiscDef {
    pub fn new(s: &Value) -> DiscDef {
        let seed = s["seed"].as_u64().unwrap();
        DiscDef { hdr: header_bytes(mix(seed, 1234), &bytes(&s["title"])), region: arr(mix(seed, 55)), defs: s["parts"].as_array().unwrap().iter().map(Def::new).collect(),
            fin: s.get("fin").and_then(|f| f.as_array()).map(|f| f.iter().map(|x| x == 1).collect()).unwrap_or_default() }
    }
}
/// stop_on_err: a caller that gives up at the first error
pub fn build_disc<W: Read + Write + Seek>(dd: &mut DiscDef, dest: &mut W, stop_on_err: bool) -> Built {
    let mut b = Built { adds: vec![], prog: vec![], finish: Ok(()), panic: None, odd: false };
    let r = guard(|| {
        let mut bl = WiiDiscBuilder::create(dest, header(&dd.hdr), dd.region);
        for (k, d) in dd.defs.iter_mut().enumerate() {
            let mut pr = vec![];
            let asked = d.asked.clone();
            d.next = 0;
            asked.set(0);
            let (tk, tm, ce, ty) = (d.ticket.clone(), d.tmd.clone(), d.certs.clone(), part_type(d.t));
            let r = bl.add_partition(ty, tk, tm, ce, d, &mut |p| pr.push((p, asked.get())));
            b.prog.push(pr);
            b.odd |= d.odd;
            let failed = r.is_err();
            b.adds.push(r.map_err(|e| format!("{e}")));
            if failed && stop_on_err {
                return;
            }
            if dd.fin.get(k) == Some(&true) {
                b.finish = bl.finish().map_err(|e| format!("{e}"));
                if b.finish.is_err() && stop_on_err {
                    return;
                }
            }
        }
        b.finish = bl.finish().map_err(|e| format!("{e}"));
        if b.finish.is_err() && !stop_on_err {
            // a caller that tries again
            b.finish = bl.finish().map_err(|e| format!("{e}"));
        }
    });
    if let Err(e) = r {
        b.panic = Some(e);
    }
    b
}

// -------------------------------------------------------------- observation
fn diff(a: &[u8], b: &[u8]) -> Value {
    let mut v: Vec<usize> = (0..a.len().min(b.len())).filter(|i| a[*i] != b[*i]).collect();
    if a.len() != b.len() {
        v.push(a.len().min(b.len()) + 1_000_000);
    }
    v.truncate(600);
    json!(v)
}
pub fn words(x: u64) -> Value {
    json!((x + 3) / 4)
}

pub struct RawNode {
    pub dir: bool,
    pub no: usize,
    pub o: u32,
    pub l: u32,
}
/// tree found in a decrypted file table; None if malformed
pub fn raw_tree(nodes: &[RawNode], names: &[u8], cur: &mut usize, end: usize, parent: usize, ids: &mut dyn FnMut(u64, u32) -> i64) -> Option<Vec<Value>> {
    let mut r = vec![];
    while *cur < end {
        let k = *cur;
        let n = nodes.get(k)?;
        let nm = names.get(n.no..)?;
        let nm = &nm[..nm.iter().position(|b| *b == 0)?];
        *cur += 1;
        if n.dir {
            if n.o as usize != parent || (n.l as usize) < *cur || n.l as usize > end {
                return None;
            }
            let c = raw_tree(nodes, names, cur, n.l as usize, k, ids)?;
            r.push(json!({"k":"d","n":jbytes(nm),"c":c}));
        } else {
            let id = ids((n.o as u64) << 2, n.l);
            r.push(json!({"k":"f","n":jbytes(nm),"o":n.o,"l":n.l,"id":id}));
        }
    }
    Some(compress(r))
}

fn rd_tree(ns: &[FstNode], ids: &mut dyn FnMut(&FstNode) -> i64) -> Value {
    Value::Array(compress(
        ns.iter()
            .map(|n| match n {
                FstNode::Directory { name, files } => json!({"k":"d","n":jbytes(name.as_bytes()),"c":rd_tree(files, ids)}),
                FstNode::File { name, length, .. } => json!({"k":"f","n":jbytes(name.as_bytes()),"l":length,"id":ids(n)}),
            })
            .collect(),
    ))
}

/// only one entry has this path, ignoring case
pub fn unambiguous(mut list: &[FstNode], path: &[String]) -> bool {
    for s in path {
        let mut it = list.iter().filter(|n| n.get_name().eq_ignore_ascii_case(s));
        let first = it.next();
        if it.next().is_some() {
            return false;
        }
        list = match first {
            Some(FstNode::Directory { files, .. }) => files,
            _ => &[],
        };
    }
    true
}

/// Full observation of partition number k of an image, against the definition.
pub fn observe_part(img: &[u8], off: u64, t: u64, d: &Def) -> Value {
    let mut o = json!({"ok": false, "t": t, "off": off / 4});
    let at = |a: u64, n: u64| -> Option<&[u8]> { img.get(a as usize..(a + n) as usize) };
    let Some(h) = at(off, 0x2C0) else { return o };
    let w = |k: usize| be32(h, 0x2A4 + 4 * k) as u64;
    let (tmd_sz, tmd_off, c_sz, c_off, h3_off, d_off, d_sz) = (w(0), w(1) * 4, w(2), w(3) * 4, w(4) * 4, w(5) * 4, w(6) * 4);
    o["tick_diff"] = diff(&h[..0x2A4], &d.ticket_enc);
    o["tmd_off"] = json!(tmd_off / 4);
    o["tmd_size"] = json!(tmd_sz);
    o["cert_off"] = json!(c_off / 4);
    o["cert_size"] = json!(c_sz);
    o["h3_off"] = json!(h3_off / 4);
    o["data_off"] = json!(d_off / 4);
    o["data_size"] = json!(d_sz / 4);
    let Some(key) = title_key(h) else { return o };
    let Some(h3) = at(off + h3_off, 0x18000) else { return o };
    let (Some(tmd), Some(certs)) = (at(off + tmd_off, tmd_sz), at(off + c_off, c_sz)) else { return o };
    o["tmd_diff"] = diff(tmd, &d.tmd_enc);
    o["cert_diff"] = diff(certs, &d.certs_enc);
    if tmd.len() >= 0x208 {
        o["tmd_sig_zero"] = json!(tmd[4..0x104].iter().all(|b| *b == 0));
        let cs = be64(tmd, 0x1EC);
        o["tmd_c0_size"] = if cs % 4 == 0 && cs / 4 < 1 << 31 { json!(cs / 4) } else { json!(-1) };
        o["tmd_hash_ok"] = json!(tmd[0x1F4..0x208] == sha(h3));
        o["tmd_sha0"] = json!(sha(&tmd[0x140..])[0]);
    } else {
        o["tmd_sig_zero"] = json!(false);
        o["tmd_c0_size"] = json!(-1);
        o["tmd_hash_ok"] = json!(false);
        o["tmd_sha0"] = json!(-1);
    }
    let ng = d_sz / GRPD as u64;
    o["whole_groups"] = json!(d_sz % GRPD as u64 == 0);
    let mut plain: Vec<u8> = vec![];
    let mut gbad = vec![];
    let mut h3bad = vec![];
    let mut present = true;
    // several groups at a time if there are many
    let lanes = if ng > 32 { 8 } else { 1 };
    let per = ng.div_ceil(lanes).max(1);
    let opened: Vec<(bool, Vec<u8>, Vec<Value>, Vec<u64>)> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..lanes)
            .map(|l| {
                sc.spawn(move || {
                    let (mut plain, mut gbad, mut h3bad) = (vec![], vec![], vec![]);
                    for g in (l * per).min(ng)..((l + 1) * per).min(ng) {
                        let Some(raw) = at(off + d_off + g * GRP as u64, GRP as u64) else { return (false, plain, gbad, h3bad) };
                        let (bad, top) = open_group(raw, &key, &mut plain);
                        if !bad.is_empty() {
                            gbad.push(json!([g, bad]));
                        }
                        if h3.get(20 * g as usize..20 * g as usize + 20) != Some(&top[..]) {
                            h3bad.push(g);
                        }
                    }
                    (true, plain, gbad, h3bad)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for (all, p, g, h) in opened {
        if present {
            plain.extend(p);
            gbad.extend(g);
            h3bad.extend(h);
            present = all;
        }
    }
    o["present"] = json!(present);
    o["gbad"] = json!(gbad);
    o["h3bad"] = json!(h3bad);
    o["h3_rest_zero"] = json!(h3.iter().skip(20 * ng as usize).all(|b| *b == 0));
    if !present || plain.len() < 0x2440 {
        return o;
    }
    o["boot_diff"] = diff(&plain[..0x440], &d.boot);
    let (dol_off, fst_off, fst_sz, fst_max) = (be32(&plain, 0x420) as u64 * 4, be32(&plain, 0x424) as u64 * 4, be32(&plain, 0x428) as u64 * 4, be32(&plain, 0x42C) as u64 * 4);
    o["dol_off"] = json!(dol_off / 4);
    o["fst_off"] = json!(fst_off / 4);
    o["fst_sz"] = json!(fst_sz / 4);
    o["fst_max"] = json!(fst_max / 4);
    let pl = |a: u64, n: usize| plain.get(a as usize..a as usize + n);
    let mut bi2 = d.bi2.clone();
    bi2.resize(0x2000, 0);
    o["bi2_ok"] = json!(pl(0x440, 0x2000) == Some(&bi2[..]));
    o["app_ok"] = json!(pl(0x2440, d.app.len()) == Some(&d.app[..]));
    o["dol_ok"] = json!(pl(dol_off, d.dol.len()) == Some(&d.dol[..]));
    // file table, parsed here
    let Some(root) = pl(fst_off, 12) else { return o };
    let cnt = be32(root, 8) as usize;
    if root[0] == 0 || be32(root, 4) != 0 || cnt == 0 || cnt > 2_000_000 {
        return o;
    }
    let Some(nb) = pl(fst_off, 12 * cnt) else { return o };
    let nodes: Vec<RawNode> = (0..cnt).map(|k| RawNode { dir: nb[12 * k] != 0, no: (be32(nb, 12 * k) & 0xffffff) as usize, o: be32(nb, 12 * k + 4), l: be32(nb, 12 * k + 8) }).collect();
    let name_off = fst_off as usize + 12 * cnt;
    let names = &plain[name_off..];
    // extent of the table actually used
    let mut used = 12 * cnt;
    for n in &nodes {
        if let Some(e) = names.get(n.no..).and_then(|x| x.iter().position(|b| *b == 0)) {
            used = used.max(12 * cnt + n.no + e + 1);
        }
    }
    o["fst_used"] = json!(used);
    let mut k = 0;
    let t = {
        let mut ids = |off: u64, len: u32| -> i64 {
            let f = d.files.get(k);
            k += 1;
            match (f, plain.get(off as usize..off as usize + len as usize)) {
                (Some(f), Some(b)) if f.size == len as u64 && is_prf(f.id, b) => f.id as i64,
                (Some(f), None) if len == 0 && f.size == 0 => f.id as i64,
                _ => 0,
            }
        };
        raw_tree(&nodes, names, &mut 1, cnt, 0, &mut ids)
    };
    if let Some(t) = t {
        o["tree"] = Value::Array(t);
        o["ok"] = json!(true);
    }
    o
}

/// The same image through the crate's reader.
pub fn observe_reader(img: &[u8], dd: &DiscDef, listed: &[usize]) -> Value {
    let r = guard(|| {
        let mut rd = match WiiIsoReader::open(Cursor::new(img)) {
            Ok(r) => r,
            Err(e) => return json!({"ok": false, "why": format!("{e}")}),
        };
        let hdr = rd.get_header() == &header(&dd.hdr);
        let region = rd.get_region() == &dd.region;
        let parts = rd.partitions().to_vec();
        let mut ps = vec![];
        for (k, p) in parts.iter().enumerate() {
            let Some(d) = listed.get(k).map(|i| &dd.defs[*i]) else {
                ps.push(json!({"ok": false, "why": "unexpected partition"}));
                continue;
            };
            let mut info = match rd.open_partition(p.clone()) {
                Ok(i) => i,
                Err(e) => {
                    ps.push(json!({"ok": false, "why": format!("{e}")}));
                    continue;
                }
            };
            let fst = info.get_fst().clone();
            let mut i = 0;
            let mut buf = vec![];
            let mut fail = vec![];
            // whole-range reads at the recorded place
            let tree = rd_tree(fst.get_entries(), &mut |n| {
                let f = d.files.get(i);
                i += 1;
                if let (Some(f), FstNode::File { offset, length, .. }) = (f, n) {
                    if let Err(e) = info.get_crypto_reader(&mut rd).read_into_vec(*offset, *length as u64, &mut buf) {
                        fail.push(format!("{e}"));
                        return -1;
                    }
                    if buf.len() as u64 == f.size && is_prf(f.id, &buf) {
                        return f.id as i64;
                    }
                }
                0
            });
            // files by path, through the window
            let mut bypath = true;
            let step = d.files.len() / 500 + 1;
            for f in d.files.iter().step_by(step) {
                if f.size > 1 << 29 || f.path.iter().any(|s| s.is_empty() || s.contains('/')) || !unambiguous(&d.tree, &f.path) {
                    continue;
                }
                match info.open_file(&mut rd, &f.path.join("/")) {
                    None => bypath = false,
                    Some(mut w) => {
                        buf.clear();
                        if w.read_to_end(&mut buf).is_err() || buf.len() as u64 != f.size || !is_prf(f.id, &buf) {
                            bypath = false;
                        }
                    }
                };
            }
            let mut bi2 = d.bi2.clone();
            bi2.resize(0x2000, 0);
            let e = info.get_encrypted_header().clone();
            let mut want = header(&d.boot);
            want.dol_off = e.dol_off;
            want.fst_off = e.fst_off;
            want.fst_sz = e.fst_sz;
            want.fst_max_sz = e.fst_max_sz;
            let got_bi2 = info.read_bi2(&mut rd).ok();
            let got_app = if d.app.len() >= 32 { info.read_apploader(&mut rd).ok() } else { Some(d.app.clone()) };
            let got_dol = if d.dol.len() >= 0x100 { info.read_dol(&mut rd).ok() } else { Some(d.dol.clone()) };
            let tmd = info.read_tmd(&mut rd).ok();
            let certs = info.read_certificates(&mut rd).ok();
            ps.push(json!({
                "ok": fail.is_empty(), "t": type_no(p.get_type()), "tree": tree, "bypath": bypath,
                "boot": e == want, "bi2": got_bi2.as_ref() == Some(&bi2), "app": got_app.as_ref() == Some(&d.app), "dol": got_dol.as_ref() == Some(&d.dol),
                "ticket": info.get_partition_header().ticket == d.ticket, "certs": certs.as_ref() == Some(&d.certs), "tmd": tmd.is_some(),
            }));
        }
        json!({"ok": true, "hdr": hdr, "region": region, "n": parts.len(), "parts": ps})
    });
    r.unwrap_or_else(|e| json!({"ok": false, "why": format!("panic: {e}")}))
}

/// listed partitions by an independent look at the four groups of the table
pub fn table(img: &[u8]) -> Option<Vec<(u64, u64)>> {
    let mut r = vec![];
    for g in 0..4usize {
        let h = img.get(0x40000 + 8 * g..0x40008 + 8 * g)?;
        let (n, o) = (be32(h, 0) as usize, be32(h, 4) as usize * 4);
        for k in 0..n.min(100_000) {
            let e = img.get(o + 8 * k..o + 8 * k + 8)?;
            r.push((be32(e, 0) as u64 * 4, be32(e, 4) as u64));
        }
    }
    Some(r)
}

pub fn observe(img: &[u8], dd: &DiscDef, b: &Built) -> Value {
    let ok_defs: Vec<usize> = b.adds.iter().enumerate().filter(|(_, r)| r.is_ok()).map(|x| x.0).collect();
    let res = if b.panic.is_some() { "panic" } else if b.finish.is_ok() && b.adds.len() == dd.defs.len() { "ok" } else { "err" };
    let mut o = json!({
        "res": res, "odd": b.odd,
        "adds": b.adds.iter().map(|r| r.is_ok()).collect::<Vec<_>>(),
        "errs": b.adds.iter().filter_map(|r| r.as_ref().err().cloned()).chain(b.finish.as_ref().err().cloned()).chain(b.panic.clone()).collect::<Vec<_>>(),
        "prog": b.prog.iter().map(|p| p.iter().map(|(v, k)| json!([v, k])).collect::<Vec<_>>()).collect::<Vec<_>>(),
        "len": words(img.len() as u64),
        "parts": [], "table": [], "hdr_diff": [], "region": false,
        "rd": {"ok": false},
    });
    if res != "ok" {
        return o;
    }
    if img.len() < 0x4E020 {
        o["hdr_diff"] = json!([-1]);
        return o;
    }
    o["hdr_diff"] = diff(&img[..0x440], &dd.hdr);
    o["region"] = json!(img[0x4E000..0x4E020] == dd.region);
    let Some(tab) = table(img) else {
        o["table"] = json!([[-1, -1]]);
        return o;
    };
    o["table"] = json!(tab.iter().map(|(a, t)| json!([a / 4, t])).collect::<Vec<_>>());
    let mut ps = vec![];
    for (k, (off, t)) in tab.iter().enumerate() {
        match ok_defs.get(k) {
            Some(i) => ps.push(observe_part(img, *off, *t, &dd.defs[*i])),
            None => ps.push(json!({"ok": false, "t": t, "off": off / 4})),
        }
    }
    o["parts"] = Value::Array(ps);
    o["rd"] = observe_reader(img, dd, &ok_defs);
    o
}

pub fn dest_init(s: &Value) -> Vec<u8> {
    match s["dest"].as_str() {
        // a destination that already holds other data
        Some("filled") => {
            let mut v = prf(991, 0x60000 + GRP * 2);
            // stale partition table entries that would be valid
            for g in 0..4usize {
                put32(&mut v, 0x40000 + 8 * g, 1);
                put32(&mut v, 0x40004 + 8 * g, (0x40100 + 8 * g as u32) >> 2);
                put32(&mut v, 0x40100 + 8 * g, 0x50000 >> 2);
                put32(&mut v, 0x40104 + 8 * g, 0);
            }
            v
        }
        _ => vec![],
    }
}

/// builds every scenario, several at a time, and records the observations
/// chooses the title versions so that the hash of the title metadata starts with a zero byte
/// only for a large counter, counting up from 0 as the builder does
fn harden(dd: &mut DiscDef) {
    let mut dest = Dest::new(vec![], Fault::None);
    build_disc(dd, &mut dest, false);
    let im = &dest.data;
    for (k, d) in dd.defs.iter_mut().enumerate() {
        let e = 0x40020 + 8 * k;
        let Some(off) = im.get(e..e + 4).map(|b| (u32::from_be_bytes(b.try_into().unwrap()) as usize) << 2) else { return };
        let (n, at) = (d.tmd_enc.len(), off + 0x2C0);
        let Some(built) = im.get(at..at + n) else { return };
        let mut t = d.tmd_enc.clone();
        t[0x1EC..0x208].copy_from_slice(&built[0x1EC..0x208]);
        if n > 0x300 {
            continue;
        }
        let mut worst = (0u64, 0u16);
        for v in 0..=0x7FFFu16 {
            t[0x1DC..0x1DE].copy_from_slice(&v.to_be_bytes());
            let mut i = 0u64;
            loop {
                t[0x19A..0x1A2].copy_from_slice(&i.to_ne_bytes());
                if sha(&t[0x140..])[0] == 0 || i > 100_000 {
                    break;
                }
                i += 1;
            }
            worst = worst.max((i, v));
        }
        d.tmd_enc[0x1DC..0x1DE].copy_from_slice(&worst.1.to_be_bytes());
        d.tmd = Cursor::new(&d.tmd_enc).read_be().expect("tmd");
    }
}

pub fn build(cx: &mut Cx) {
    let lines: Vec<Value> = cx.lines().collect();
    let outs = par_map(cx, &lines, |_, s| {
        let mut dd = DiscDef::new(s);
        if s["hard"] == 1 {
            harden(&mut dd);
        }
        let mut dest = Dest::new(dest_init(s), Fault::None);
        let b = build_disc(&mut dd, &mut dest, false);
        let n = dd.defs.len();
        let mut o = json!({"def": s, "img": observe(&dest.data, &dd, &b)});
        o["ops"] = json!(dest.n);
        let _ = n;
        o
    });
    for o in outs {
        cx.calls += o["ops"].as_u64().unwrap_or(0);
        cx.emit(&o);
    }
}

fn outcome(b: &Built) -> &'static str {
    if b.panic.is_some() {
        "panic"
    } else if b.finish.is_ok() && b.adds.iter().all(|r| r.is_ok()) {
        "ok"
    } else {
        "err"
    }
}
/// every destination operation of a build fails once in every way
pub fn faults(cx: &mut Cx) {
    let defs: Vec<Value> = cx.lines().collect();
    for s in &defs {
        let mut dest = Dest::new(vec![], Fault::None);
        // from a definition, or from a directory
        let dir = (s["dir"] == 1).then(|| crate::dirs::plain_dir(s));
        let run = |dest: &mut Dest| match &dir {
            None => {
                let mut dd = DiscDef::new(s);
                let b = build_disc(&mut dd, dest, true);
                (outcome(&b), b.panic.unwrap_or_default())
            }
            Some(d) => match guard(|| disc_riider::builder::build_from_directory(d.path(), dest, &mut |_| {}).is_ok()) {
                Ok(ok) => (if ok { "ok" } else { "err" }, String::new()),
                Err(e) => ("panic", e),
            },
        };
        let b0 = run(&mut dest);
        let (n, base) = (dest.n, dest.data);
        if b0.0 != "ok" {
            let o = json!({"def": s, "n": n, "base": b0.0, "out": []});
            cx.emit(&o);
            continue;
        }
        let every = s["every"].as_u64().unwrap_or(1);
        let mut jobs = vec![];
        for i in (0..n).step_by(every as usize) {
            for k in ["err", "eof", "block", "wzero", "dead", "zero", "intr", "short"] {
                jobs.push(json!([k, i]));
            }
        }
        for i in 0..6 {
            jobs.push(json!(["bumpy", i + 1]));
        }
        let res = par_map(cx, &jobs, |_, j| {
            let i = j[1].as_u64().unwrap();
            let k = j[0].as_str().unwrap().to_string();
            let op = dest.ops.get(i as usize).copied().unwrap_or(Op::Write);
            let xfer = matches!(op, Op::Read | Op::Write);
            if !xfer && matches!(&k[..], "zero" | "intr" | "short" | "wzero") {
                return None;
            }
            let f = match &k[..] {
                "err" => Fault::Err(i, io::ErrorKind::Other),
                "eof" => Fault::Err(i, io::ErrorKind::UnexpectedEof),
                "block" => Fault::Err(i, io::ErrorKind::WouldBlock),
                "wzero" => Fault::Err(i, io::ErrorKind::WriteZero),
                "dead" => Fault::Dead(i),
                "zero" => Fault::Zero(i),
                "intr" => Fault::Intr(i),
                "short" => Fault::Short(i),
                _ => Fault::Bumpy(i),
            };
            let mut d = Dest::new(vec![], f);
            let b = run(&mut d);
            Some((k, d.hit, b.0, d.data == base, i, d.n, b.1))
        });
        let mut agg: std::collections::BTreeMap<(String, String, &'static str, bool), (u64, u64, String)> = Default::default();
        for r in res.into_iter().flatten() {
            cx.calls += r.5;
            let key = (r.0, r.1.map_or("none".into(), |o| format!("{o:?}").to_lowercase()), r.2, r.3);
            agg.entry(key).or_insert((0, r.4, r.6)).0 += 1;
        }
        let out: Vec<Value> = agg.into_iter().map(|(k, v)| json!({"f": k.0, "op": k.1, "res": k.2, "same": k.3, "n": v.0, "first": v.1, "msg": v.2})).collect();
        let o = json!({"def": s, "n": n, "base": "ok", "out": out});
        cx.emit(&o);
    }
}

/// an operation fails once and the caller carries on with the next addition
pub fn faults_on(cx: &mut Cx) {
    let defs: Vec<Value> = cx.lines().collect();
    let mut jobs = vec![];
    for (k, s) in defs.iter().enumerate() {
        let mut dest = Dest::new(vec![], Fault::None);
        build_disc(&mut DiscDef::new(s), &mut dest, false);
        for i in (0..dest.n).step_by(s["every"].as_u64().unwrap_or(1) as usize) {
            jobs.push(json!([k, i]));
        }
    }
    let outs = par_map(cx, &jobs, |_, j| {
        let mut s = defs[j[0].as_u64().unwrap() as usize].clone();
        s["fault"] = j[1].clone();
        let mut dd = DiscDef::new(&s);
        let mut dest = Dest::new(vec![], Fault::Err(j[1].as_u64().unwrap(), io::ErrorKind::Other));
        let b = build_disc(&mut dd, &mut dest, false);
        json!({"img": observe(&dest.data, &dd, &b), "def": s, "ops": dest.n})
    });
    for o in outs {
        cx.calls += o["ops"].as_u64().unwrap();
        cx.emit(&o);
    }
}

/// the image as it is after every prefix of the writes of a build
pub fn crash(cx: &mut Cx) {
    let defs: Vec<Value> = cx.lines().collect();
    let outs = par_map(cx, &defs, |_, s| {
        let mut dd = DiscDef::new(s);
        let mut dest = Dest::new(vec![], Fault::None);
        dest.log = Some(vec![]);
        let b = build_disc(&mut dd, &mut dest, false);
        let log = dest.log.take().unwrap();
        let ok_defs: Vec<usize> = b.adds.iter().enumerate().filter(|(_, r)| r.is_ok()).map(|x| x.0).collect();
        let fin: Vec<u64> = table(&dest.data).unwrap_or_default().iter().map(|x| x.0).collect();
        let mut img: Vec<u8> = vec![];
        let mut out: Vec<Value> = vec![];
        let mut points = 0u64;
        let mut opened = 0u64;
        // last write that touched anything at or past an offset, for reuse of observations
        let mut seen: std::collections::HashMap<(u64, u64), u64> = Default::default();
        let mut touched: Vec<(u64, u64, u64)> = vec![];
        for k in 0..=log.len() {
            // cut inside the write: every byte of small writes, three places of big ones
            let cuts: Vec<usize> = match log.get(k) {
                None => vec![0],
                Some((_, w)) if w.len() <= 32 => (0..w.len()).collect(),
                Some((_, w)) => vec![0, 1, w.len() / 3, w.len() - 1],
            };
            for c in cuts {
                if let Some((at, w)) = log.get(k) {
                    if c > 0 {
                        let e = *at as usize + c;
                        if img.len() < e {
                            img.resize(e, 0);
                        }
                        img[*at as usize..e].copy_from_slice(&w[..c]);
                    }
                    touched.push((*at, *at + c as u64, (k as u64) << 32 | c as u64));
                }
                points += 1;
                let r = guard(|| {
                    let mut got = vec![];
                    if let Ok(mut rd) = WiiIsoReader::open(Cursor::new(&img[..])) {
                        for p in rd.partitions().to_vec() {
                            if let Ok(i) = rd.open_partition(p.clone()) {
                                let sz = *i.get_partition_header().data_size / GRPD as u64 * GRP as u64 + 0x20000;
                                got.push((p.get_offset(), type_no(p.get_type()), sz));
                            }
                        }
                    }
                    got
                });
                let got = match r {
                    Ok(g) => g,
                    Err(e) => {
                        out.push(json!({"panic": format!("{e}"), "k": k, "cut": c}));
                        continue;
                    }
                };
                for (off, t, sz) in got {
                    opened += 1;
                    let last = touched.iter().filter(|x| x.0 < off + sz && x.1 > off).map(|x| x.2).max().unwrap_or(0);
                    if seen.get(&(off, t)) == Some(&last) {
                        continue;
                    }
                    seen.insert((off, t), last);
                    let di = fin.iter().position(|o| *o == off).and_then(|i| ok_defs.get(i)).copied();
                    let Some(di) = di else {
                        out.push(json!({"k": k, "cut": c, "def": {"parts": [s["parts"][0]]}, "img": {"res": "ok", "adds": [true], "parts": [{"ok": false, "off": off / 4}], "rd": {"ok": false}}}));
                        continue;
                    };
                    let one = observe_part(&img, off, t, &dd.defs[di]);
                    // only this partition, as the reader sees it
                    let li = ok_defs.iter().position(|x| *x == di).unwrap();
                    let mut rd = observe_reader(&img, &dd, &ok_defs);
                    if rd["ok"] == true {
                        rd["parts"] = json!([rd["parts"][li].clone()]);
                    }
                    out.push(json!({"k": k, "cut": c, "def": {"parts": [s["parts"][di]]}, "img": {"res": "ok", "adds": [true], "parts": [one], "rd": rd}}));
                }
            }
            if let Some((at, w)) = log.get(k) {
                let e = *at as usize + w.len();
                if img.len() < e {
                    img.resize(e, 0);
                }
                img[*at as usize..e].copy_from_slice(w);
                touched.push((*at, e as u64, (k as u64 + 1) << 32));
            }
            if touched.len() > 4000 {
                // keep the newest per write only
                let mut m: std::collections::BTreeMap<(u64, u64), u64> = Default::default();
                for t in touched.drain(..) {
                    m.insert((t.0, t.1), t.2);
                }
                touched = m.into_iter().map(|(a, b)| (a.0, a.1, b)).collect();
            }
        }
        (out, points, opened, log.len() as u64)
    });
    let mut tot = (0, 0);
    for (i, (o, p, q, n)) in outs.into_iter().enumerate() {
        tot.0 += p;
        tot.1 += q;
        cx.calls += n;
        for x in o {
            if x.get("panic").is_some() {
                cx.mismatch(i, &format!("opening the interrupted image panics: {}", x["panic"]), x);
            } else {
                cx.emit(&x);
            }
        }
    }
    cx.calls += tot.0;
}
