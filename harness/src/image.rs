//! Independent (not using the crate's code) view of a Wii image: crypto, hash tree,
//! header fields, file table. This is the oracle for everything the builder writes.
use aes::cipher::{block_padding::NoPadding, BlockDecryptMut, BlockEncryptMut, KeyIvInit};
use sha1::{Digest, Sha1};

type Dec = cbc::Decryptor<aes::Aes128>;
type Enc = cbc::Encryptor<aes::Aes128>;

pub const BLK: usize = 0x8000;
pub const BLKD: usize = 0x7C00;
pub const GRP: usize = 0x200000;
pub const GRPD: usize = 0x1F0000;

pub const KEYS: [[u8; 16]; 2] = [
    [0xeb, 0xe4, 0x2a, 0x22, 0x5e, 0x85, 0x93, 0xe4, 0x48, 0xd9, 0xc5, 0x45, 0x73, 0x81, 0xaa, 0xf7],
    [0x63, 0xb8, 0x2b, 0xb4, 0xf4, 0x61, 0x4e, 0x2e, 0x13, 0xf2, 0xfe, 0xfb, 0xba, 0x4c, 0x9b, 0x7e],
];

pub fn sha(b: &[u8]) -> [u8; 20] {
    let mut h = Sha1::new();
    h.update(b);
    let d = h.finalize();
    let mut r = [0; 20];
    r.copy_from_slice(d.as_ref());
    r
}
pub fn cbc_dec(key: &[u8; 16], iv: &[u8], buf: &mut [u8]) {
    Dec::new_from_slices(key, iv).unwrap().decrypt_padded_mut::<NoPadding>(buf).unwrap();
}
pub fn cbc_enc(key: &[u8; 16], iv: &[u8], buf: &mut [u8]) {
    let n = buf.len();
    Enc::new_from_slices(key, iv).unwrap().encrypt_padded_mut::<NoPadding>(buf, n).unwrap();
}

/// pseudo-random bytes: byte `i` of blob `id`
pub fn prf_fill(id: u64, start: u64, out: &mut [u8]) {
    let mut k = 0;
    while k < out.len() {
        let pos = start + k as u64;
        let w = mix(id, pos >> 3).to_le_bytes();
        let o = (pos & 7) as usize;
        let n = (8 - o).min(out.len() - k);
        out[k..k + n].copy_from_slice(&w[o..o + n]);
        k += n;
    }
}
pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a.wrapping_mul(0x9E3779B97F4A7C15) ^ b.wrapping_mul(0xD1B54A32D192ED03) ^ 0x2545F4914F6CDD1D;
    x ^= x >> 29;
    x = x.wrapping_mul(0xBF58476D1CE4E5B9);
    x ^= x >> 32;
    x = x.wrapping_mul(0x94D049BB133111EB);
    x ^ (x >> 29)
}
pub fn prf(id: u64, len: usize) -> Vec<u8> {
    let mut v = vec![0; len];
    prf_fill(id, 0, &mut v);
    v
}
/// is `data` exactly blob `id`?
pub fn is_prf(id: u64, data: &[u8]) -> bool {
    let mut buf = [0u8; 4096];
    for (k, ch) in data.chunks(4096).enumerate() {
        prf_fill(id, k as u64 * 4096, &mut buf[..ch.len()]);
        if ch != &buf[..ch.len()] {
            return false;
        }
    }
    true
}

/// Problems found in one decrypted group; data is written to `data` (GRPD bytes).
pub fn open_group(raw: &[u8], key: &[u8; 16], data: &mut Vec<u8>) -> (Vec<&'static str>, [u8; 20]) {
    let mut bad = vec![];
    let mut g = raw.to_vec();
    for b in 0..64 {
        let blk = &mut g[b * BLK..(b + 1) * BLK];
        let (h, d) = blk.split_at_mut(0x400);
        let iv: [u8; 16] = h[0x3d0..0x3e0].try_into().unwrap();
        cbc_dec(key, &iv, d);
        cbc_dec(key, &[0; 16], h);
    }
    let mut h1s = vec![[0u8; 160]; 8];
    for s in 0..8 {
        for c in 0..8 {
            let blk = &g[(s * 8 + c) * BLK..][..BLK];
            let mut h0 = [0u8; 620];
            for j in 0..31 {
                h0[j * 20..][..20].copy_from_slice(&sha(&blk[0x400 * (j + 1)..][..0x400]));
            }
            if blk[..620] != h0 {
                bad.push("h0");
            }
            if blk[620..0x280].iter().any(|x| *x != 0) {
                bad.push("h0_filler");
            }
            h1s[s][c * 20..][..20].copy_from_slice(&sha(&h0));
        }
    }
    let mut h2 = [0u8; 160];
    for s in 0..8 {
        h2[s * 20..][..20].copy_from_slice(&sha(&h1s[s]));
    }
    for b in 0..64 {
        let blk = &g[b * BLK..][..BLK];
        if blk[0x280..0x320] != h1s[b / 8] {
            bad.push("h1");
        }
        if blk[0x320..0x340].iter().any(|x| *x != 0) {
            bad.push("h1_filler");
        }
        if blk[0x340..0x3e0] != h2 {
            bad.push("h2");
        }
        if blk[0x3e0..0x400].iter().any(|x| *x != 0) {
            bad.push("h2_filler");
        }
        data.extend_from_slice(&blk[0x400..]);
    }
    bad.sort();
    bad.dedup();
    (bad, sha(&h2))
}

/// Encrypts GRPD bytes of data into a group with a valid hash tree; returns (raw, h3 entry).
pub fn seal_group(data: &[u8], key: &[u8; 16]) -> (Vec<u8>, [u8; 20]) {
    let mut g = vec![0u8; GRP];
    for b in 0..64 {
        g[b * BLK + 0x400..(b + 1) * BLK].copy_from_slice(&data[b * BLKD..(b + 1) * BLKD]);
    }
    let mut h1s = vec![[0u8; 160]; 8];
    for b in 0..64 {
        let blk = &mut g[b * BLK..(b + 1) * BLK];
        let mut h0 = [0u8; 620];
        for j in 0..31 {
            h0[j * 20..][..20].copy_from_slice(&sha(&blk[0x400 * (j + 1)..][..0x400]));
        }
        blk[..620].copy_from_slice(&h0);
        h1s[b / 8][(b % 8) * 20..][..20].copy_from_slice(&sha(&h0));
    }
    let mut h2 = [0u8; 160];
    for s in 0..8 {
        h2[s * 20..][..20].copy_from_slice(&sha(&h1s[s]));
    }
    for b in 0..64 {
        let blk = &mut g[b * BLK..(b + 1) * BLK];
        blk[0x280..0x320].copy_from_slice(&h1s[b / 8]);
        blk[0x340..0x3e0].copy_from_slice(&h2);
        let (h, d) = blk.split_at_mut(0x400);
        cbc_enc(key, &[0; 16], h);
        let iv: [u8; 16] = h[0x3d0..0x3e0].try_into().unwrap();
        cbc_enc(key, &iv, d);
    }
    (g, sha(&h2))
}

pub fn be32(b: &[u8], o: usize) -> u32 {
    u32::from_be_bytes(b[o..o + 4].try_into().unwrap())
}
pub fn be64(b: &[u8], o: usize) -> u64 {
    u64::from_be_bytes(b[o..o + 8].try_into().unwrap())
}
pub fn put32(b: &mut [u8], o: usize, v: u32) {
    b[o..o + 4].copy_from_slice(&v.to_be_bytes());
}

/// title key recorded in an encoded ticket
pub fn title_key(ticket: &[u8]) -> Option<[u8; 16]> {
    let idx = ticket[0x1F1] as usize;
    let mut k: [u8; 16] = ticket[0x1BF..0x1CF].try_into().unwrap();
    let mut iv = [0u8; 16];
    iv[..8].copy_from_slice(&ticket[0x1DC..0x1E4]);
    cbc_dec(KEYS.get(idx)?, &iv, &mut k);
    Some(k)
}
