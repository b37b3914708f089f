//! File table: editing (C09), serialisation (C10), raw parsing (C11), walks (C18).
use crate::build::{raw_tree, RawNode};
use crate::runs::*;
use crate::util::*;
use disc_riider::{Fst, FstNode, FstToBytes};
use serde_json::{json, Value};
use std::io::Cursor;

pub fn node(v: &Value) -> FstNode {
    let name = String::from_utf8(bytes(&v["n"])).unwrap();
    if v["k"] == "d" {
        FstNode::Directory { name, files: nodes(&v["c"]) }
    } else {
        FstNode::File { name, offset: num(&v["o"]) << 2, length: num(&v["l"]) as u32 }
    }
}
pub fn nodes(v: &Value) -> Vec<FstNode> {
    v.as_array().unwrap().iter().map(node).collect()
}
/// offsets that are not representable in the JSON convention become null
pub fn jnode(n: &FstNode, pair: bool) -> Value {
    match n {
        FstNode::Directory { name, files } => json!({"k":"d","n":jbytes(name.as_bytes()),"c":jnodes(files, pair)}),
        FstNode::File { name, offset, length } => {
            let o = if offset & 3 != 0 || offset >> 34 != 0 { json!([-1, -1]) } else if pair { halves(offset >> 2) } else { json!(offset >> 2) };
            let l = if pair { halves(*length as u64) } else { json!(length) };
            json!({"k":"f","n":jbytes(name.as_bytes()),"o":o,"l":l})
        }
    }
}
pub fn jnodes(n: &[FstNode], pair: bool) -> Value {
    Value::Array(n.iter().map(|x| jnode(x, pair)).collect())
}
pub fn fst_of(v: &Value) -> Fst {
    let mut f = Fst::new();
    *f.get_entries_mut() = nodes(v);
    f
}
fn path(v: &Value) -> Vec<String> {
    v.as_array().unwrap().iter().map(|p| String::from_utf8(bytes(p)).unwrap()).collect()
}

/// spellings of a path: the iterator interface always, strings when unambiguous
fn spellings(p: &[String]) -> Vec<Option<String>> {
    let mut r = vec![None];
    if p.iter().all(|s| !s.is_empty() && !s.contains('/')) {
        r.push(Some(p.join("/")));
        r.push(Some(format!("/{}/", p.join("//"))));
    }
    r
}

/// one call on the table; returns (result, old node)
fn call(f: &mut Fst, op: &str, p: &[String], sp: &Option<String>, v: &Value) -> (&'static str, Option<FstNode>) {
    let it = || p.iter().map(|s| s.as_str());
    match op {
        "add" => {
            let nd = node(v);
            let r = match sp {
                None => f.add_node_iter(it(), nd),
                Some(s) => f.add_node_path(s, nd),
            };
            match r {
                Ok(None) => ("new", None),
                Ok(Some(o)) => ("old", Some(o)),
                Err(()) => ("err", None),
            }
        }
        "rm" => {
            let r = match sp {
                None => f.remove_node_iter(it()),
                Some(s) => f.remove_node_path(s),
            };
            (if r.is_some() { "some" } else { "none" }, r)
        }
        "find" => {
            let a = match sp {
                None => f.find_node_iter(it()).cloned(),
                Some(s) => f.find_node_path(s).cloned(),
            };
            let b = match sp {
                None => f.find_node_iter_mut(it()).cloned(),
                Some(s) => f.find_node_path_mut(s).cloned(),
            };
            if a != b {
                return ("find/find_mut differ", a);
            }
            (if a.is_some() { "some" } else { "none" }, a)
        }
        "fix" => {
            f.fix_ordering();
            ("ok", None)
        }
        _ => panic!("op {op}"),
    }
}
fn step(cx: &mut Cx, i: usize, f: &mut Fst, s: &Value, sp: &Option<String>, at: usize) -> bool {
    let op = s["op"].as_str().unwrap();
    let p = path(&s["p"]);
    cx.calls += 1;
    let got = guard(|| call(f, op, &p, sp, &s["v"]));
    let (r, old) = match got {
        Ok(x) => x,
        Err(e) => {
            cx.mismatch(i, &format!("panic: {e}"), json!({"step": at, "op": s}));
            return false;
        }
    };
    let want_old: Vec<FstNode> = nodes(&s["old"]);
    if r != s["r"].as_str().unwrap() || old.as_ref() != want_old.first() {
        cx.mismatch(i, "result of call differs", json!({"step": at, "op": s, "spelling": sp, "got": r, "got_old": old.map(|o| jnode(&o, false))}));
        return false;
    }
    if f.get_entries() != &nodes(&s["post"]) {
        cx.mismatch(i, "table after call differs", json!({"step": at, "op": s, "spelling": sp, "got": jnodes(f.get_entries(), false)}));
        return false;
    }
    true
}

/// transitions {pre, op, ...}: each from its own table
pub fn edit(cx: &mut Cx) {
    for (i, s) in cx.lines().enumerate().collect::<Vec<_>>() {
        cx.begin(i);
        for sp in spellings(&path(&s["p"])) {
            let mut f = fst_of(&s["pre"]);
            if !step(cx, i, &mut f, &s, &sp, 0) {
                break;
            }
        }
    }
}
/// histories: list of calls on one table that starts empty
pub fn hist(cx: &mut Cx) {
    for (i, h) in cx.lines().enumerate().collect::<Vec<_>>() {
        cx.begin(i);
        let mut f = Fst::new();
        for (k, s) in h.as_array().unwrap().iter().enumerate() {
            let sps = spellings(&path(&s["p"]));
            let sp = sps[(k + i) % sps.len()].clone();
            if !step(cx, i, &mut f, s, &sp, k) {
                break;
            }
        }
    }
}

fn at<'a>(plan: &'a Value, i: usize) -> &'a str {
    plan.as_array().unwrap().get(i - 1).map_or("keep", |x| x.as_str().unwrap())
}
fn new_name(n: &str, what: &str, i: usize) -> String {
    match what {
        "ren" => format!("x{n}{}", i % 10),
        "alt" => "q".repeat(n.len()),
        "flip" => n.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
        _ => String::new(),
    }
}
fn jvis(v: &[(Vec<String>, bool)]) -> Value {
    Value::Array(
        v.iter()
            .map(|(p, d)| json!({"p": p.iter().map(|s| jbytes(s.as_bytes())).collect::<Vec<_>>(), "k": if *d {"d"} else {"f"}}))
            .collect(),
    )
}

pub fn walk(cx: &mut Cx) {
    for (i, s) in cx.lines().enumerate().collect::<Vec<_>>() {
        cx.begin(i);
        let fst = fst_of(&s["tree"]);
        // read-only walk
        let r = guard(|| {
            let mut got = vec![];
            let r: Result<(), u32> = fst.callback_all_files(&mut |p, n| {
                got.push((p.iter().map(|x| x.to_string()).collect::<Vec<_>>(), n.clone()));
                Ok(())
            });
            (got, r)
        });
        cx.calls += 1;
        match r {
            Ok((got, Ok(()))) => {
                let want: Vec<(Vec<String>, FstNode)> = s["walk"].as_array().unwrap().iter().map(|e| (path(&e["p"]), node(&e["v"]))).collect();
                if got != want {
                    cx.mismatch(i, "read-only walk differs", json!({"got": got.iter().map(|g| g.0.clone()).collect::<Vec<_>>()}));
                }
                // read-only walk with an error at every position
                for stop in 1..=want.len() {
                    let mut c = 0;
                    let mut seen = vec![];
                    let r: Result<(), usize> = fst.callback_all_files(&mut |p, _| {
                        c += 1;
                        seen.push(p.iter().map(|x| x.to_string()).collect::<Vec<_>>());
                        if c == stop { Err(1000 + stop) } else { Ok(()) }
                    });
                    cx.calls += 1;
                    if r != Err(1000 + stop) || c != stop || seen.iter().zip(&want).any(|(a, b)| *a != b.0) {
                        cx.mismatch(i, "read-only walk: error at a callback not obeyed", json!({"stop": stop, "calls": c, "result": format!("{r:?}")}));
                    }
                }
            }
            other => cx.mismatch(i, "read-only walk failed", json!(format!("{other:?}"))),
        }
        match guard(|| FstToBytes::try_from(fst.clone()).map(|b| b.get_total_file_count())) {
            Ok(Ok(c)) => {
                if c as u64 != s["count"].as_u64().unwrap() {
                    cx.mismatch(i, "file count differs", json!({"got": c}));
                }
            }
            Ok(Err(_)) => {}
            Err(e) => cx.mismatch(i, &format!("panic: {e}"), json!("get_total_file_count")),
        }
        for (k, sc) in s["scn"].as_array().unwrap().iter().enumerate() {
            let plan = &sc["plan"];
            // mutable walk
            let r = guard(|| {
                let mut f = fst.clone();
                let mut vis = vec![];
                let r: Result<(), usize> = f.callback_all_files_mut(&mut |p, n| {
                    vis.push((p.clone(), n.is_dir() && !n.is_file()));
                    let c = vis.len();
                    match at(plan, c) {
                        "stop" => return Err(500 + c),
                        w @ ("ren" | "alt" | "flip" | "nil") => match n {
                            FstNode::File { name, .. } | FstNode::Directory { name, .. } => *name = new_name(name, w, c),
                        },
                        "fill" => {
                            let extra = FstNode::File { name: "f".into(), offset: (1000 + c as u64) << 2, length: 7 * c as u32 + 1 };
                            match n {
                                FstNode::Directory { files, .. } => files.push(extra),
                                FstNode::File { name, .. } => *n = FstNode::Directory { name: name.clone(), files: vec![extra] },
                            }
                        }
                        "drop" => {
                            if let FstNode::Directory { files, .. } = n {
                                files.clear();
                            }
                        }
                        "set" => {
                            if let FstNode::File { offset, length, .. } = n {
                                *offset = (1000 + c as u64) << 2;
                                *length = 7 * c as u32 + 1;
                            }
                        }
                        _ => {}
                    }
                    Ok(())
                });
                (f, vis, r)
            });
            cx.calls += 1;
            match r {
                Ok((f, vis, r)) => {
                    let stop = sc["stop"].as_bool().unwrap();
                    if jvis(&vis) != sc["vis"] {
                        cx.mismatch(i, "mutable walk: calls differ", json!({"scn": k, "got": jvis(&vis), "want": sc["vis"]}));
                    } else if f.get_entries() != &nodes(&sc["post"]) {
                        cx.mismatch(i, "mutable walk: table differs", json!({"scn": k, "got": jnodes(f.get_entries(), false)}));
                    } else if r != (if stop { Err(500 + vis.len()) } else { Ok(()) }) {
                        cx.mismatch(i, "mutable walk: result differs", json!({"scn": k, "got": format!("{r:?}")}));
                    }
                }
                Err(e) => cx.mismatch(i, &format!("panic: {e}"), json!({"scn": k, "walk": "mutable"})),
            }
            // serialising walk; its effect is observed in the serialised bytes
            let Ok(Ok(mut b)) = guard(|| FstToBytes::try_from(fst.clone())) else { continue };
            let r = guard(|| {
                let mut vis = vec![];
                let r: Result<(), usize> = b.callback_all_files_mut(&mut |p, o, l| {
                    vis.push((p.clone(), false));
                    let c = vis.len();
                    match at(plan, c) {
                        "stop" => return Err(500 + c),
                        "set" => {
                            *o = (1000 + c as u64) << 2;
                            *l = 7 * c as u32 + 1;
                        }
                        _ => {}
                    }
                    Ok(())
                });
                let mut buf = Cursor::new(Vec::new());
                let back = b.write_to(&mut buf).ok().and_then(|_| Fst::read(&mut buf, 0).ok());
                (vis, r, back)
            });
            cx.calls += 1;
            match r {
                Ok((vis, r, back)) => {
                    let stop = sc["sstop"].as_bool().unwrap();
                    if jvis(&vis) != sc["svis"] {
                        cx.mismatch(i, "serialising walk: calls differ", json!({"scn": k, "got": jvis(&vis), "want": sc["svis"]}));
                    } else if r != (if stop { Err(500 + vis.len()) } else { Ok(()) }) {
                        cx.mismatch(i, "serialising walk: result differs", json!({"scn": k, "got": format!("{r:?}")}));
                    } else if back.as_ref().map(|f| f.get_entries()) != Some(&nodes(&sc["spost"])) {
                        cx.mismatch(i, "serialising walk: table differs", json!({"scn": k, "got": back.map(|f| jnodes(f.get_entries(), false))}));
                    }
                }
                Err(e) => cx.mismatch(i, &format!("panic: {e}"), json!({"scn": k, "walk": "serialising"})),
            }
        }
    }
}

/// serialises (and re-sorts) every tree; observations for FstBytesTrace
pub fn ser(cx: &mut Cx) {
    for (i, s) in cx.lines().enumerate().collect::<Vec<_>>() {
        cx.begin(i);
        let base = [0usize, 1, 12, 0x1234][i % 4];
        let r = guard(|| {
            let f = fst_of(&s["tree"]);
            let Ok(b) = FstToBytes::try_from(f) else { return None };
            let mut c = Cursor::new(vec![0x5au8; base]);
            c.set_position(base as u64);
            if b.write_to(&mut c).is_err() {
                return None;
            }
            let back = Fst::read(&mut c, base as u64).ok();
            Some((c.into_inner(), back))
        });
        cx.calls += 2;
        let mut o = json!({"kind":"ser","tree":s["tree"],"err":true,"nodes":[],"names":[],"back":[]});
        match r {
            Err(e) => {
                cx.mismatch(i, &format!("panic while serialising: {e}"), s.clone());
                continue;
            }
            Ok(None) => {}
            Ok(Some((all, back))) => {
                let raw = &all[base..];
                o["err"] = json!(false);
                let be = |a: usize| u32::from_be_bytes(raw[a..a + 4].try_into().unwrap());
                let cnt = if raw.len() >= 12 { be(8) as usize } else { 0 };
                if cnt > 100_000 || raw.len() < 12 * cnt {
                    cx.mismatch(i, "node count exceeds the bytes written", json!({"count": cnt, "len": raw.len()}));
                    continue;
                }
                let mut ns = vec![];
                let mut names = vec![];
                for k in 0..cnt {
                    let no = (be(12 * k) & 0xffffff) as usize;
                    ns.push(json!([raw[12 * k], no, halves(be(12 * k + 4) as u64), halves(be(12 * k + 8) as u64)]));
                    let st = 12 * cnt + no;
                    let nm = raw.get(st..).and_then(|t| t.iter().position(|b| *b == 0).map(|e| &t[..e]));
                    names.push(nm.map_or(json!([-1]), jbytes));
                }
                o["nodes"] = Value::Array(ns);
                o["names"] = Value::Array(names);
                if let Some(f) = back {
                    o["back"] = json!([jnodes(f.get_entries(), true)]);
                }
            }
        }
        cx.emit(&o);
        let r = guard(|| {
            let mut f = fst_of(&s["tree"]);
            f.fix_ordering();
            f
        });
        match r {
            Err(e) => cx.mismatch(i, &format!("panic while sorting: {e}"), s.clone()),
            Ok(f) => cx.emit(&json!({"kind":"sort","tree":s["tree"],"post":jnodes(f.get_entries(), true)})),
        }
    }
}

/// raw tables: {bs, ok, t}
pub fn raw(cx: &mut Cx) {
    for (i, s) in cx.lines().enumerate().collect::<Vec<_>>() {
        cx.begin(i);
        cx.calls += 1;
        let bs = bytes(&s["bs"]);
        let base = [0usize, 7, 0x100][i % 3];
        let mut v = vec![0xeeu8; base];
        v.extend_from_slice(&bs);
        let r = guard(|| Fst::read(&mut Cursor::new(&v), base as u64).ok());
        let want = s["ok"].as_bool().unwrap();
        match r {
            Err(e) => cx.mismatch(i, &format!("panic: {e}"), s.clone()),
            Ok(None) if want => cx.mismatch(i, "well-formed table rejected", s.clone()),
            Ok(Some(f)) if !want => cx.mismatch(i, "malformed table accepted", json!({"s": s, "got": jnodes(f.get_entries(), true)})),
            Ok(Some(f)) => {
                if f.get_entries() != &nodes(&s["t"]) {
                    cx.mismatch(i, "wrong tree", json!({"s": s, "got": jnodes(f.get_entries(), true)}));
                }
            }
            Ok(None) => {}
        }
    }
}

fn wide_nodes(v: &Value) -> Vec<FstNode> {
    let mut r = vec![];
    for n in v.as_array().unwrap() {
        if n["k"] == "d" {
            r.push(FstNode::Directory { name: String::from_utf8(bytes(&n["n"])).unwrap(), files: wide_nodes(&n["c"]) });
        } else {
            for j in 0..num(&n["cnt"]) {
                let name = String::from_utf8(run_name(&bytes(&n["n"]), num(&n["w"]) as usize, j)).unwrap();
                r.push(FstNode::File { name, offset: 4 * (num(&n["o"]) + j * num(&n["st"])), length: num(&n["l"]) as u32 });
            }
        }
    }
    r
}
fn wide_obs(ns: &[FstNode]) -> Value {
    Value::Array(compress(
        ns.iter()
            .map(|n| match n {
                FstNode::Directory { name, files } => json!({"k":"d","n":jbytes(name.as_bytes()),"c":wide_obs(files)}),
                FstNode::File { name, offset, length } => json!({"k":"f","n":jbytes(name.as_bytes()),"o": if offset % 4 == 0 { (offset / 4) as i64 } else { -1 },"l":length}),
            })
            .collect(),
    ))
}
/// very large tables: {tree} with run nodes -> {tree, err, raw, back, count}
pub fn wide(cx: &mut Cx) {
    for (i, s) in cx.lines().enumerate().collect::<Vec<_>>() {
        cx.begin(i);
        cx.calls += 2;
        let r = guard(|| {
            let mut f = Fst::new();
            *f.get_entries_mut() = wide_nodes(&s["tree"]);
            let Ok(b) = FstToBytes::try_from(f) else { return None };
            let mut c = Cursor::new(vec![]);
            if b.write_to(&mut c).is_err() {
                return None;
            }
            let back = Fst::read(&mut c, 0).ok();
            Some((c.into_inner(), back))
        });
        let mut o = json!({"tree": s["tree"], "err": true, "raw": [], "back": [], "count": 0});
        match r {
            Err(e) => {
                cx.mismatch(i, &format!("panic while serialising: {e}"), s.clone());
                continue;
            }
            Ok(None) => {}
            Ok(Some((raw, back))) => {
                o["err"] = json!(false);
                let be = |a: usize| u32::from_be_bytes(raw[a..a + 4].try_into().unwrap());
                let cnt = if raw.len() >= 12 { be(8) as usize } else { 0 };
                o["count"] = json!(cnt);
                if 12 * cnt <= raw.len() {
                    let nodes: Vec<RawNode> = (0..cnt).map(|k| RawNode { dir: raw[12 * k] != 0, no: (be(12 * k) & 0xffffff) as usize, o: be(12 * k + 4), l: be(12 * k + 8) }).collect();
                    if let Some(t) = raw_tree(&nodes, &raw[12 * cnt..], &mut 1, cnt, 0, &mut |_, _| 0) {
                        o["raw"] = json!([strip(t)]);
                    }
                }
                if let Some(f) = back {
                    o["back"] = json!([wide_obs(f.get_entries())]);
                }
            }
        }
        cx.emit(&o);
    }
}
/// drops the (unused) ids, then compresses
fn strip(l: Vec<Value>) -> Value {
    Value::Array(compress(
        l.into_iter()
            .map(|mut v| {
                if let Some(c) = v.get_mut("c") {
                    let t = c.take();
                    if let Value::Array(a) = t {
                        *c = strip(a);
                    }
                }
                v.as_object_mut().unwrap().remove("id");
                v
            })
            .collect(),
    ))
}

/// the chain of a nesting scenario, and its table
fn chain(d: u64, shape: &str) -> (Vec<FstNode>, Vec<u8>) {
    let file = |n: String, k: u64| FstNode::File { name: n, offset: 4 * (k % 1000), length: k as u32 };
    // nodes in pre-order: (dir, name, offset or parent, length or end)
    let mut nodes: Vec<(bool, String, u32, u32)> = vec![(true, String::new(), 0, 0)];
    let sib = shape == "sib";
    let per = if sib { 3 } else { 1 };
    let total = 1 + per * d + (shape == "file") as u64;
    let mut parent = 0u32;
    for k in 1..=d {
        if sib {
            nodes.push((false, format!("a{k}"), (k % 1000) as u32, k as u32));
        }
        let me = nodes.len() as u32;
        // the files after this directory on this and all outer levels
        let end = total - if sib { k } else { 0 };
        nodes.push((true, format!("d{k}"), parent, end as u32));
        parent = me;
    }
    if shape == "file" {
        nodes.push((false, "x".into(), 7, 7));
    }
    if sib {
        for k in (1..=d).rev() {
            nodes.push((false, format!("z{k}"), (k % 1000) as u32, k as u32));
        }
    }
    nodes[0].3 = total as u32;
    assert_eq!(nodes.len() as u64, total);
    let mut names = vec![];
    let mut raw = vec![];
    for (dir, n, o, l) in &nodes {
        raw.extend_from_slice(&((*dir as u32) << 24 | names.len() as u32).to_be_bytes());
        raw.extend_from_slice(&o.to_be_bytes());
        raw.extend_from_slice(&l.to_be_bytes());
        names.extend_from_slice(n.as_bytes());
        names.push(0);
    }
    raw.extend_from_slice(&names);
    let mut cur = if shape == "file" { vec![FstNode::File { name: "x".into(), offset: 28, length: 7 }] } else { vec![] };
    for k in (1..=d).rev() {
        let dir = FstNode::Directory { name: format!("d{k}"), files: cur };
        cur = if sib { vec![file(format!("a{k}"), k), dir, file(format!("z{k}"), k)] } else { vec![dir] };
    }
    (cur, raw)
}
/// compares and takes apart without recursion
fn same_chain(mut a: Vec<FstNode>, mut b: Vec<FstNode>) -> bool {
    let mut same = true;
    loop {
        same &= a.len() == b.len();
        let (mut na, mut nb) = (vec![], vec![]);
        for (side, next) in [(a, &mut na), (b, &mut nb)] {
            let mut level = vec![];
            for n in side {
                match n {
                    FstNode::Directory { name, files } => {
                        level.push((true, name, 0, 0));
                        next.push(files);
                    }
                    FstNode::File { name, offset, length } => level.push((false, name, offset, length)),
                }
            }
            next.insert(0, vec![]);
            next[0].push(FstNode::create_file(format!("{level:?}")));
        }
        same &= na.first() == nb.first() && na.len() == nb.len();
        let ea = na.len() < 2;
        let eb = nb.len() < 2;
        a = na.into_iter().skip(1).flatten().collect();
        b = nb.into_iter().skip(1).flatten().collect();
        if ea || eb {
            return same && ea == eb;
        }
    }
}
/// deeply nested tables: {what, d, shape} -> {what, d, shape, err, read, equal}
pub fn deep(cx: &mut Cx) {
    for (i, s) in cx.lines().enumerate().collect::<Vec<_>>() {
        cx.begin(i);
        cx.calls += 1;
        let (tree, table) = chain(num(&s["d"]), s["shape"].as_str().unwrap());
        let ser = s["what"] == "ser";
        // the stack of an ordinary main thread
        let t2 = if ser { Some(tree.clone()) } else { None };
        let r = std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn(move || {
                guard(move || -> (bool, bool, Option<Vec<FstNode>>) {
                    let table = if let Some(t) = t2 {
                        let mut f = Fst::new();
                        *f.get_entries_mut() = t;
                        let Ok(b) = FstToBytes::try_from(f) else { return (true, false, None) };
                        let mut c = Cursor::new(vec![]);
                        if b.write_to(&mut c).is_err() {
                            return (true, false, None);
                        }
                        c.into_inner()
                    } else {
                        table
                    };
                    match Fst::read(&mut Cursor::new(&table), 0) {
                        Ok(mut f) => (false, true, Some(std::mem::take(f.get_entries_mut()))),
                        Err(_) => (!ser, false, None),
                    }
                })
            })
            .unwrap()
            .join();
        match r {
            Ok(Ok((err, read, back))) => {
                let equal = match back {
                    Some(b) => same_chain(tree, b),
                    None => {
                        same_chain(tree, vec![]);
                        err
                    }
                };
                cx.emit(&json!({"what": s["what"], "d": s["d"], "shape": s["shape"], "err": err, "read": read, "equal": equal}));
            }
            e => cx.mismatch(i, &format!("panic: {:?}", e.map(|x| x.err())), s.clone()),
        }
    }
}
