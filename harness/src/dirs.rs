//! Building images from directories (C14).
use crate::build::*;
use crate::image::*;
use crate::util::*;
use disc_riider::builder::build_from_directory;
use serde_json::{json, Value};
use std::ffi::OsStr;
use std::fs;
use std::os::unix::{ffi::OsStrExt, fs::symlink};
use std::path::{Path, PathBuf};

extern "C" {
    fn mkfifo(path: *const std::ffi::c_char, mode: u32) -> i32;
}
/// the path of `to` as seen from the directory `from`, both absolute
fn relative(from: &Path, to: &Path) -> PathBuf {
    let (a, b): (Vec<_>, Vec<_>) = (from.components().collect(), to.components().collect());
    let k = a.iter().zip(&b).take_while(|(x, y)| x == y).count();
    a[k..].iter().map(|_| Path::new("..")).chain(b[k..].iter().map(|c| Path::new(c.as_os_str()))).collect()
}
/// creates the entries in order (or backwards)
fn put_tree(at: &Path, v: &Value, rev: bool, away: &Path) {
    let mut e: Vec<&Value> = v.as_array().unwrap().iter().collect();
    if rev {
        e.reverse();
    }
    for n in e {
        let mut p = at.join(OsStr::from_bytes(&bytes(&n["n"])));
        match n["at"].as_str() {
            Some(w @ ("link" | "rel")) => {
                // the entry itself is elsewhere
                fs::create_dir_all(away).expect("mkdir");
                let there = away.join(fs::read_dir(away).expect("read_dir").count().to_string());
                let to = if w == "link" { there.clone() } else { relative(at, &there) };
                symlink(to, &p).expect("symlink");
                p = there;
            }
            Some("gone") => {
                symlink("nothing here", &p).expect("symlink");
                continue;
            }
            Some("fifo") => {
                let c = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap();
                assert_eq!(unsafe { mkfifo(c.as_ptr(), 0o644) }, 0, "mkfifo");
                continue;
            }
            _ => {}
        }
        if n["k"] == "d" {
            fs::create_dir(&p).expect("mkdir");
            put_tree(&p, &n["c"], rev, away);
        } else {
            fs::write(&p, prf(num(&n["id"]), num(&n["sz"]) as usize)).expect("write");
        }
    }
}
/// DATA/... as an extraction leaves it
fn put_dir(root: &Path, s: &Value, dd: &DiscDef, rev: bool) {
    let d = &dd.defs[0];
    let data = root.join("DATA");
    for x in ["sys", "disc"] {
        fs::create_dir_all(data.join(x)).expect("mkdir");
    }
    let missing = s["missing"].as_str().unwrap();
    let put = |key: &str, name: &str, b: &[u8]| {
        let p = data.join(name);
        if missing == key {
        } else if missing == format!("short:{key}") {
            // more than padding at the end is missing
            let cut = if key == "cert" { 60 } else if key == "boot" { 20 } else { 1 };
            let b = &b[..b.len() - cut];
            fs::write(p, &b[..b.len() - b.len() * (b.len() % 3) / 3]).expect("write");
        } else if missing == format!("isdir:{key}") {
            fs::create_dir(p).expect("mkdir");
        } else if missing == format!("long:{key}") {
            fs::write(p, vec![7; 0x2001]).expect("write");
        } else {
            fs::write(p, b).expect("write");
        }
    };
    put("boot", "sys/boot.bin", &d.boot);
    put("bi2", "sys/bi2.bin", &d.bi2);
    put("app", "sys/apploader.img", &d.app);
    put("dol", "sys/main.dol", &d.dol);
    put("region", "disc/region.bin", &dd.region);
    put("ticket", "ticket.bin", &d.ticket_enc);
    put("tmd", "tmd.bin", &d.tmd_enc);
    put("cert", "cert.bin", &d.certs_enc);
    match missing {
        "files" => {}
        "isfile:files" => fs::write(data.join("files"), b"x").expect("write"),
        m => {
            fs::create_dir(data.join("files")).expect("mkdir");
            put_tree(&data.join("files"), &s["tree"], rev, &root.join("away"));
            if m == "large:files" {
                // 4 GiB, sparse
                let f = fs::File::create(data.join("files").join("too-large.bin")).expect("create");
                f.set_len(1 << 32).expect("set_len");
            }
        }
    }
    if num(&s["extra"]) > 0 {
        fs::write(data.join("sys").join("fst.bin"), b"not looked at").expect("write");
        fs::write(data.join("disc").join("header.bin"), b"not looked at").expect("write");
    }
    if num(&s["extra"]) > 1 {
        fs::create_dir_all(root.join("UPDATE/files")).expect("mkdir");
        fs::write(root.join("UPDATE/files/a"), b"not looked at").expect("write");
        fs::write(data.join("a"), b"not looked at").expect("write");
    }
}
pub struct Scratch(PathBuf);
/// the directory of a definition of one data partition
pub fn plain_dir(def: &Value) -> Scratch {
    let sc = Scratch::new(&std::env::current_dir().unwrap(), format!("plain-{}-{}", std::process::id(), def["seed"]));
    put_dir(&sc.0, &json!({"missing": "", "extra": 0, "tree": def["parts"][0]["tree"]}), &DiscDef::new(def), false);
    sc
}
impl Scratch {
    pub fn path(&self) -> &Path {
        &self.0
    }
    fn new(base: &Path, name: String) -> Scratch {
        let p = base.join(name);
        let _ = fs::remove_dir_all(&p);
        fs::create_dir_all(&p).expect("scratch");
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

fn one(i: usize, s: &Value, bases: &[PathBuf; 2]) -> Value {
    let mut dd = DiscDef::new(&s["def"]);
    let mut hdr = dd.defs[0].boot.clone();
    hdr[0x60] = 0;
    hdr[0x61] = 0;
    dd.hdr = hdr;
    let mut images: Vec<Option<Vec<u8>>> = vec![];
    let mut first: Option<Value> = None;
    let mut prog = vec![];
    fn size(v: &Value) -> u64 {
        v.as_array().map_or(0, |a| a.iter().map(|e| e["sz"].as_u64().unwrap_or(0) + size(&e["c"])).sum())
    }
    for k in 0..2 {
        // large ones on disk
        let base = &bases[if size(&s["tree"]) > 8 << 20 { 0 } else { k }];
        let sc = Scratch::new(base, format!("dir-{}-{i}-{}", std::process::id(), ["x", "some where else"][k]));
        put_dir(&sc.0, s, &dd, k == 1);
        let mut dest = Dest::new(vec![], Fault::None);
        // values, and KiB written
        let mut pr: Vec<(u8, u64)> = vec![];
        let len = dest.len.clone();
        // a file that goes away once file data has been written
        let mut gone = s["vanish"].as_array().filter(|v| !v.is_empty()).map(|v| {
            v.iter().fold(sc.0.join("DATA/files"), |p, n| p.join(OsStr::from_bytes(&bytes(n))))
        });
        let mut cb = |p: u8| {
            if p > 0 {
                if let Some(g) = gone.take() {
                    let _ = fs::remove_file(g);
                }
            }
            pr.push((p, len.load(std::sync::atomic::Ordering::Relaxed) >> 10))
        };
        let r = guard(|| build_from_directory(&sc.0, &mut dest, &mut cb).map_err(|e| format!("{e}")));
        let ok = matches!(r, Ok(Ok(())));
        if k == 0 {
            prog = pr;
            let b = Built {
                adds: vec![if ok { Ok(()) } else { Err(String::new()) }],
                prog: vec![],
                finish: match &r {
                    Ok(Err(e)) => Err(e.clone()),
                    _ => Ok(()),
                },
                panic: r.err(),
                odd: false,
            };
            first = Some(if s["expect"] == "err" {
                json!({"res": if b.panic.is_some() { "panic" } else if ok { "ok" } else { "err" }, "errs": [format!("{:?} {:?}", b.finish, b.panic)]})
            } else {
                observe(&dest.data, &dd, &b)
            });
        }
        images.push(ok.then_some(dest.data));
    }
    json!({"expect": s["expect"], "def": s["def"], "missing": s["missing"], "vanish": s["vanish"], "img": first.unwrap(), "prog": prog, "same": images[0] == images[1]})
}

pub fn dirs(cx: &mut Cx) {
    let items: Vec<Value> = cx.lines().collect();
    let work = std::env::current_dir().unwrap();
    let shm = PathBuf::from("/dev/shm");
    // a file system that lists in another order, if there is one
    let other = if shm.is_dir() && fs::metadata(&shm).map(|m| !m.permissions().readonly()).unwrap_or(false) { shm } else { work.clone() };
    let bases = [work, other];
    for o in par_map(cx, &items, |i, s| one(i, s, &bases)) {
        cx.calls += 2;
        cx.emit(&o);
    }
}
