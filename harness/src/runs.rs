//! Long runs of numbered files: {"k":"r","n":stem,"w":digits,"cnt","id","sz"|"l","o","st"}.
//! compress() is lossless: a run node stands for exactly the files stem+0..stem+cnt-1.
use crate::util::*;
use serde_json::{json, Value};

pub fn run_name(stem: &[u8], w: usize, j: u64) -> Vec<u8> {
    let mut v = stem.to_vec();
    v.extend(format!("{:0w$}", j, w = w).bytes());
    v
}
pub fn compress(list: Vec<Value>) -> Vec<Value> {
    let name = |v: &Value| bytes(&v["n"]);
    let mut out = vec![];
    let mut i = 0;
    while i < list.len() {
        let v = &list[i];
        if v["k"] == "f" && list.len() - i >= 1000 {
            let n = name(v);
            let w = n.iter().rev().take_while(|b| **b == b'0').count();
            if w >= 5 {
                let stem = &n[..n.len() - w];
                let num = |x: &Value, f: &str| x.get(f).and_then(|y| y.as_i64());
                let st = match (num(v, "o"), num(&list[i + 1], "o")) {
                    (Some(a), Some(b)) => Some(b - a),
                    _ => None,
                };
                let mut j = 0;
                while let Some(x) = list.get(i + j) {
                    if x["k"] != "f" || name(x) != run_name(stem, w, j as u64) || x["l"] != v["l"] {
                        break;
                    }
                    if num(x, "id") != num(v, "id").map(|a| a + j as i64) {
                        break;
                    }
                    if st.is_some() && num(x, "o") != num(v, "o").map(|a| a + st.unwrap() * j as i64) {
                        break;
                    }
                    j += 1;
                }
                if j >= 1000 {
                    let mut r = json!({"k":"r","n":jbytes(stem),"w":w,"cnt":j,"l":v["l"]});
                    if let Some(x) = v.get("id") {
                        r["id"] = x.clone();
                    }
                    if let Some(s) = st {
                        r["o"] = v["o"].clone();
                        r["st"] = json!(s);
                    }
                    out.push(r);
                    i += j;
                    continue;
                }
            }
        }
        out.push(v.clone());
        i += 1;
    }
    out
}
