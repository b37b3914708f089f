//! Decodes and re-encodes metadata structures with the crate.
use crate::build::*;
use crate::image::*;
use crate::util::*;
use binrw::{BinReaderExt, BinWriterExt};
use disc_riider::structs::*;
use disc_riider::ShiftedU64;
use serde_json::{json, Map, Value};
use std::io::Cursor;

fn be(v: u64, n: usize) -> Value {
    jbytes(&v.to_be_bytes()[8 - n..])
}
fn sh(v: &ShiftedU64) -> Value {
    if **v >= 1 << 40 {
        return json!([-1]);
    }
    be(**v, 5)
}
fn w32(v: &[u32]) -> Value {
    jbytes(&v.iter().flat_map(|x| x.to_be_bytes()).collect::<Vec<_>>())
}
fn sig(t: SigType) -> Value {
    be(sig_no(t) as u64, 4)
}
fn ticket_fields(t: &Ticket, f: &mut Map<String, Value>) {
    f.insert("sig_type".into(), sig(t.sig_type));
    f.insert("sig".into(), jbytes(&t.sig));
    f.insert("sig_issuer".into(), jbytes(&t.sig_issuer));
    f.insert("ecdh".into(), jbytes(&t.ecdh));
    f.insert("ticket_id".into(), jbytes(&t.ticket_id));
    f.insert("console_id".into(), jbytes(&t.console_id));
    f.insert("title_id".into(), jbytes(&t.title_id));
    f.insert("unk".into(), be(t.unk as u64, 2));
    f.insert("ticket_version".into(), be(t.ticket_version as u64, 2));
    f.insert("permitted_titles_mask".into(), be(t.permitted_titles_mask as u64, 4));
    f.insert("permit_mask".into(), be(t.permit_mask as u64, 4));
    f.insert("title_export_allowed".into(), be(t.title_export_allowed as u64, 1));
    f.insert("common_key_idx".into(), be(t.common_key_idx as u64, 1));
    f.insert("content_access_permissions".into(), jbytes(&t.content_access_permissions));
    f.insert("unk2".into(), be(t.unk2 as u64, 2));
    f.insert("time_limits".into(), w32(&t.time_limits.iter().flat_map(|l| [l.enable_time_limit, l.time_limit]).collect::<Vec<_>>()));
}
fn enc<T: for<'a> binrw::BinWrite<Args<'a> = ()>>(v: &T) -> Vec<u8> {
    let mut b = vec![];
    let mut c = Cursor::new(&mut b);
    // errors leave whatever was written
    let _ = v.write_be(&mut c);
    b
}
trait WriteBe {
    fn write_be(&self, c: &mut Cursor<&mut Vec<u8>>) -> binrw::BinResult<()>;
}
impl<T: for<'a> binrw::BinWrite<Args<'a> = ()>> WriteBe for T {
    fn write_be(&self, c: &mut Cursor<&mut Vec<u8>>) -> binrw::BinResult<()> {
        c.write_be(self)
    }
}

fn keys(t: &Ticket, b: &[u8], i: usize) -> (bool, bool) {
    let ok = title_key(b) == Some(t.title_key);
    // another key and index, encoded by the crate, recovered here
    let mut t2 = t.clone();
    t2.title_key = prf(i as u64, 16).try_into().unwrap();
    t2.common_key_idx = 1 - t.common_key_idx;
    let e = enc(&t2);
    (ok, e.len() == 0x2A4 && title_key(&e) == Some(t2.title_key))
}

fn one(i: usize, s: &Value) -> Value {
    let v = s["v"].as_array().unwrap();
    let b = bytes(&s["b"]);
    let mut f = Map::new();
    let mut o = json!({"v": v, "b": s["b"], "ok": true});
    let mut c = Cursor::new(&b);
    macro_rules! get {
        ($t:ty) => {
            match c.read_be::<$t>() {
                Ok(x) => x,
                Err(e) => {
                    o["ok"] = json!(false);
                    o["msg"] = json!(format!("{e}"));
                    return o;
                }
            }
        };
    }
    match v[0].as_str().unwrap() {
        "ticket" => {
            let t = get!(Ticket);
            ticket_fields(&t, &mut f);
            let k = keys(&t, &b, i);
            o["key"] = json!(k.0);
            o["rekey"] = json!(k.1);
            o["enc"] = jbytes(&enc(&t));
        }
        "part" => {
            let p = get!(WiiPartitionHeader);
            ticket_fields(&p.ticket, &mut f);
            let k = keys(&p.ticket, &b, i);
            o["key"] = json!(k.0);
            o["rekey"] = json!(k.1);
            f.insert("tmd_size".into(), be(p.tmd_size as u64, 4));
            f.insert("cert_chain_size".into(), be(p.cert_chain_size as u64, 4));
            for (n, x) in [("tmd_off", &p.tmd_off), ("cert_chain_off", &p.cert_chain_off), ("global_hash_table_off", &p.global_hash_table_off), ("data_off", &p.data_off), ("data_size", &p.data_size)] {
                f.insert(n.into(), sh(x));
            }
            o["enc"] = jbytes(&enc(&p));
        }
        "tmd" => {
            let t = get!(TMD);
            f.insert("sig_type".into(), sig(t.sig_type));
            f.insert("sig".into(), jbytes(&t.sig));
            f.insert("sig_issuer".into(), jbytes(&t.sig_issuer));
            f.insert("version".into(), be(t.version as u64, 1));
            f.insert("ca_crl_version".into(), be(t.ca_crl_version as u64, 1));
            f.insert("signer_crl_version".into(), be(t.signer_crl_version as u64, 1));
            f.insert("ios_id_major".into(), be(t.ios_id_major as u64, 4));
            f.insert("ios_id_minor".into(), be(t.ios_id_minor as u64, 4));
            f.insert("title_id_major".into(), be(t.title_id_major as u64, 4));
            f.insert("title_id_minor".into(), jbytes(&t.title_id_minor));
            f.insert("title_type".into(), be(t.title_type as u64, 4));
            f.insert("group_id".into(), be(t.group_id as u64, 2));
            f.insert("fakesign_padding".into(), jbytes(&t.fakesign_padding.iter().flat_map(|x| x.to_be_bytes()).collect::<Vec<_>>()));
            f.insert("access_flags".into(), be(t.access_flags as u64, 4));
            f.insert("title_version".into(), be(t.title_version as u64, 2));
            f.insert("boot_idx".into(), be(t.boot_idx as u64, 2));
            for (k, x) in t.contents.iter().enumerate() {
                let k = k + 1;
                f.insert(format!("id{k}"), be(x.id as u64, 4));
                f.insert(format!("index{k}"), be(x.index as u64, 2));
                f.insert(format!("type{k}"), be(x.content_type as u64, 2));
                f.insert(format!("size{k}"), be(x.size, 8));
                f.insert(format!("hash{k}"), jbytes(&x.hash));
            }
            o["enc"] = jbytes(&enc(&t));
        }
        "cert" => {
            let t = get!(Certificate);
            f.insert("sig_type".into(), sig(t.sig_type));
            f.insert("sig".into(), jbytes(&t.sig));
            f.insert("issuer".into(), jbytes(&t.issuer));
            f.insert("key_type".into(), be(match t.key_type { KeyType::Rsa4096 => 0, KeyType::Rsa2048 => 1 }, 4));
            f.insert("subject".into(), jbytes(&t.subject));
            f.insert("key".into(), jbytes(&t.key));
            f.insert("modulus".into(), be(t.modulus as u64, 4));
            f.insert("pub_exp".into(), be(t.pub_exp as u64, 4));
            o["enc"] = jbytes(&enc(&t));
        }
        "disc" => {
            let h = get!(DiscHeader);
            f.insert("game_id".into(), jbytes(&h.game_id));
            f.insert("disc_num".into(), be(h.disc_num as u64, 1));
            f.insert("disc_version".into(), be(h.disc_version as u64, 1));
            f.insert("audio_streaming".into(), be(h.audio_streaming as u64, 1));
            f.insert("audio_stream_buf_size".into(), be(h.audio_stream_buf_size as u64, 1));
            f.insert("wii_magic".into(), be(h.wii_magic as u64, 4));
            f.insert("gcn_magic".into(), be(h.gcn_magic as u64, 4));
            f.insert("game_title".into(), jbytes(h.game_title.as_bytes()));
            f.insert("disable_hash_verification".into(), be(h.disable_hash_verification as u64, 1));
            f.insert("disable_disc_enc".into(), be(h.disable_disc_enc as u64, 1));
            f.insert("debug_mon_off".into(), be(h.debug_mon_off as u64, 4));
            f.insert("debug_load_addr".into(), be(h.debug_load_addr as u64, 4));
            for (n, x) in [("dol_off", &h.dol_off), ("fst_off", &h.fst_off), ("fst_sz", &h.fst_sz), ("fst_max_sz", &h.fst_max_sz)] {
                f.insert(n.into(), sh(x));
            }
            f.insert("fst_memory_address".into(), be(h.fst_memory_address as u64, 4));
            f.insert("user_position".into(), be(h.user_position as u64, 4));
            f.insert("user_sz".into(), be(h.user_sz as u64, 4));
            o["enc"] = jbytes(&enc(&h));
        }
        "entry" => {
            let e = get!(WiiPartTableEntry);
            f.insert("offset".into(), be(e.get_offset(), 5));
            f.insert("type".into(), be(type_no(e.get_type()), 4));
            o["enc"] = jbytes(&enc(&e));
        }
        "dol" => {
            let d = get!(DOLHeader);
            f.insert("text_off".into(), w32(&d.text_off));
            f.insert("data_off".into(), w32(&d.data_off));
            f.insert("text_starts".into(), w32(&d.text_starts));
            f.insert("data_starts".into(), w32(&d.data_starts));
            f.insert("text_sizes".into(), w32(&d.text_sizes));
            f.insert("data_sizes".into(), w32(&d.data_sizes));
            f.insert("bss_start".into(), w32(&[d.bss_start]));
            f.insert("bss_size".into(), w32(&[d.bss_size]));
            f.insert("entry_point".into(), w32(&[d.entry_point]));
            o["enc"] = jbytes(&enc(&d));
        }
        "app" => {
            let a = get!(ApploaderHeader);
            f.insert("size1".into(), w32(&[a.size1]));
            f.insert("size2".into(), w32(&[a.size2]));
            o["enc"] = jbytes(&enc(&a));
        }
        "bad" => {
            let ok = match v[1].as_str().unwrap() {
                "ticket" => c.read_be::<Ticket>().is_ok(),
                "part" => c.read_be::<WiiPartitionHeader>().is_ok(),
                "tmd" => c.read_be::<TMD>().is_ok(),
                "cert" => c.read_be::<Certificate>().is_ok(),
                "entry" => c.read_be::<WiiPartTableEntry>().is_ok(),
                k => panic!("kind {k}"),
            };
            o["ok"] = json!(ok);
        }
        "title" => {
            let r = header_bytes(i as u64, b"reference");
            let mut h = header(&r);
            h.game_title = String::from_utf8(b.clone()).expect("title");
            let e = enc(&h);
            let back: Result<DiscHeader, _> = Cursor::new(&e).read_be();
            o["ref"] = jbytes(&r);
            o["enc"] = jbytes(&e);
            o["back"] = back.map_or(json!([-1]), |h| jbytes(h.game_title.as_bytes()));
        }
        "rawtitle" => {
            let r = header_bytes(i as u64, &b);
            let mut c = Cursor::new(&r);
            let h: DiscHeader = c.read_be().expect("header");
            o["enc"] = jbytes(&enc(&h));
        }
        k => panic!("kind {k}"),
    }
    o["used"] = json!(c.position());
    o["f"] = Value::Object(f);
    o
}

pub fn formats(cx: &mut Cx) {
    for (i, s) in cx.lines().enumerate().collect::<Vec<_>>() {
        cx.begin(i);
        cx.calls += 2;
        match guard(|| one(i, &s)) {
            Ok(o) => cx.emit(&o),
            Err(e) => cx.mismatch(i, &format!("panic: {e}"), json!({})),
        }
    }
}

/// section names
pub fn typename(cx: &mut Cx) {
    for (i, s) in cx.lines().enumerate().collect::<Vec<_>>() {
        cx.begin(i);
        cx.calls += 1;
        let name = String::from_utf8(bytes(&s["nm"])).unwrap();
        let r = guard(|| WiiPartType::try_from_str(&name).map_or(-1, |t| t as i64));
        if r != Ok(s["t"].as_i64().unwrap()) {
            cx.mismatch(i, "type of a section name", json!({"name": name, "got": format!("{r:?}")}));
        }
    }
}
