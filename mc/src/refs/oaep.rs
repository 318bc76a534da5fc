//! RFC 8017 EME-OAEP with SHA-256 and MGF1-SHA-256.
use super::sha::sha256;

pub const H: usize = 32;

pub fn mgf1(seed: &[u8], n: usize) -> Vec<u8> {
    let mut t = vec![];
    for c in 0..n.div_ceil(H) as u32 {
        let mut s = seed.to_vec();
        s.extend_from_slice(&c.to_be_bytes());
        t.extend_from_slice(&sha256(&s));
    }
    t.truncate(n);
    t
}

fn xor(a: &[u8], b: &[u8]) -> Vec<u8> {
    a.iter().zip(b).map(|(x, y)| x ^ y).collect()
}

/// masks an arbitrary data block (of k - H - 1 bytes) with an arbitrary first byte
pub fn mask(first: u8, seed: &[u8], db: &[u8]) -> Vec<u8> {
    let mdb = xor(db, &mgf1(seed, db.len()));
    let ms = xor(seed, &mgf1(&mdb, H));
    let mut em = vec![first];
    em.extend(ms);
    em.extend(mdb);
    em
}

pub fn db(label: &[u8], msg: &[u8], k: usize) -> Vec<u8> {
    let mut db = sha256(label).to_vec();
    db.resize(k - msg.len() - H - 2, 0);
    db.push(1);
    db.extend_from_slice(msg);
    db
}

pub fn encode(label: &[u8], msg: &[u8], k: usize, seed: &[u8]) -> Vec<u8> {
    mask(0, seed, &db(label, msg, k))
}

pub fn decode(label: &[u8], em: &[u8], k: usize) -> Option<Vec<u8>> {
    if em.len() != k || k < 2 * H + 2 {
        return None;
    }
    let (ms, mdb) = em[1..].split_at(H);
    let seed = xor(ms, &mgf1(mdb, H));
    let db = xor(mdb, &mgf1(&seed, mdb.len()));
    if em[0] != 0 || db[..H] != sha256(label) {
        return None;
    }
    let rest = &db[H..];
    let i = rest.iter().position(|&b| b != 0)?;
    if rest[i] != 1 {
        return None;
    }
    Some(rest[i + 1..].to_vec())
}
