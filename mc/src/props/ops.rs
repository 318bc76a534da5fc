//! A catalogue of library operations with their expected results, for the properties about
//! what operations do to each other. Arguments come in look-alike groups (same length, same
//! prefix, same suffix, one a prefix of the other), so that anything remembered from one call
//! and wrongly used in the next shows.
use super::keys::{self, pkcs8, spki};
use crate::engine::observe;
use crate::refs;
use crate::refs::der::Tree;
use crate::refs::nat::Nat;
use crate::util::*;
use cryptography::aes::{Aes, Key128, Key192, Key256};
use cryptography::big::BigUint;
use cryptography::pad::{BitPadding, PkcsPadding};
use cryptography::pem::PEM;
use cryptography::pem::asn1::Asn1;
use cryptography::rsa::{PaddingScheme, PrivateKey, PublicKey, RsaEncryption, RsaPadding, create_keys};
use cryptography::{BlockCipher, BlockCipherMode, BlockEncryption, EcbMode, StreamCipher};
use cryptography::{md2, md4, md5, rc2, rc4, rc5, sha};
use std::str::FromStr;

fn words<const W: usize>(k: &[u8]) -> [u64; W] {
    core::array::from_fn(|i| u64::from_be_bytes(k[8 * i..8 * i + 8].try_into().unwrap()))
}

pub fn make(key: &[u8], as_words: bool) -> Aes {
    match (key.len(), as_words) {
        (16, false) => Aes::with_128_bit_key(key.try_into().unwrap()),
        (24, false) => Aes::with_192_bit_key(key.try_into().unwrap()),
        (32, false) => Aes::with_256_bit_key(key.try_into().unwrap()),
        (16, true) => Aes::from(Key128::from(words::<2>(key))),
        (24, true) => Aes::from(Key192::from(words::<3>(key))),
        (32, true) => Aes::from(Key256::from(words::<4>(key))),
        _ => unreachable!(),
    }
}

pub fn big(v: u128) -> BigUint {
    BigUint::from(v)
}

pub fn tree(a: &Asn1) -> Tree {
    match a {
        Asn1::Integer(b) => Tree::Int(b.clone()),
        Asn1::OctetString(b) => Tree::Octets(b.clone()),
        Asn1::BitString(b, u) => Tree::Bits(b.clone(), *u),
        Asn1::Null => Tree::Null,
        Asn1::ObjectIdentifier(b) => Tree::Oid(b.clone()),
        Asn1::Sequence(v) => Tree::Seq(v.iter().map(tree).collect()),
    }
}

pub struct Op {
    pub name: String,
    pub family: &'static str,
    run: Box<dyn Fn() -> Vec<u8> + Send + Sync>,
    /// None: has to panic
    want: Option<Vec<u8>>,
}

impl Op {
    pub fn go(&self) -> Result<Vec<u8>, String> {
        observe(|| (self.run)())
    }
    pub fn verdict(&self, got: &Result<Vec<u8>, String>) -> Result<(), String> {
        match (got, &self.want) {
            (Ok(g), Some(w)) if g == w => Ok(()),
            (Err(_), None) => Ok(()),
            (Ok(g), Some(w)) => Err(format!("{} gave {}, expected {}", self.name, crate::engine::hx(g), crate::engine::hx(w))),
            (Ok(g), None) => Err(format!("{} gave {}, expected a panic", self.name, crate::engine::hx(g))),
            (Err(p), Some(_)) => Err(format!("{} panicked: {p}", self.name)),
        }
    }
    pub fn check(&self) -> Result<(), String> {
        self.verdict(&self.go())
    }
}

fn ecb<const N: usize, C: BlockCipher<N>>(c: C, m: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    BlockEncryption::encrypt(c, EcbMode, m, |b| o.push(b));
    o
}
fn unecb<const N: usize, C: BlockCipher<N>>(c: C, m: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    BlockEncryption::decrypt(c, EcbMode, m, |b| o.push(b));
    o
}
pub fn pkcs7(m: &[u8], n: usize) -> Vec<u8> {
    let k = n - m.len() % n;
    let mut v = m.to_vec();
    v.resize(m.len() + k, k as u8);
    v
}
pub fn aes_ecb(key: &[u8], m: &[u8]) -> Vec<u8> {
    let a = refs::aes::Aes::new(key);
    pkcs7(m, 16).chunks(16).flat_map(|b| a.encrypt(b.try_into().unwrap())).collect()
}

/// a base value and its look-alikes
fn alike(base: Vec<u8>) -> Vec<Vec<u8>> {
    let n = base.len();
    let mut v = vec![base.clone()];
    let mut last = base.clone();
    last[n - 1] ^= 1;
    v.push(last);
    let mut first = base;
    first[0] ^= 1;
    v.push(first);
    v
}

pub fn catalogue() -> Vec<Op> {
    let mut v: Vec<Op> = vec![];
    let mut add = |family: &'static str, name: String, want: Option<Vec<u8>>, run: Box<dyn Fn() -> Vec<u8> + Send + Sync>| {
        v.push(Op { name, family, run, want });
    };
    // block ciphers: key look-alikes with one block, block look-alikes with one key
    for n in [16usize, 24, 32] {
        let block: [u8; 16] = arr(2);
        let ks = alike(bytes(3, n));
        for (i, k) in ks.iter().enumerate().take(if n == 16 { 3 } else { 2 }) {
            let m = refs::aes::Aes::new(k);
            let (k1, k2) = (k.clone(), k.clone());
            add("aes", format!("AES-{} encrypt, key {i}", 8 * n), Some(m.encrypt(block).to_vec()), Box::new(move || make(&k1, false).encrypt(block).to_vec()));
            if i == 0 {
                let (k3, other) = (k.clone(), arr(4));
                add("aes", format!("AES-{} encrypt, key {i}, another block", 8 * n), Some(m.encrypt(other).to_vec()), Box::new(move || make(&k3, false).encrypt(other).to_vec()));
            }
            if i < 2 {
                let m2 = m.decrypt(block).to_vec();
                add("aes", format!("AES-{} decrypt, key {i}", 8 * n), Some(m2), Box::new(move || make(&k2, true).decrypt(block).to_vec()));
            }
        }
    }
    for (i, (k, bits)) in [(bytes(3, 8), 64u16), (bytes(3, 8), 63), (bytes(3, 7), 64), (bytes(4, 8), 64), (bytes(3, 50), 64), (bytes(4, 50), 64), (bytes(3, 128), 1024), (bytes(4, 128), 1024), (vec![0], 1)].into_iter().enumerate() {
        let b: [u8; 8] = arr(2);
        let w = refs::rc2::Rc2::new(&k, bits as usize).encrypt(b).to_vec();
        add("rc2", format!("RC2 encrypt, key {i}, {bits} bits"), Some(w.clone()), Box::new({
            let k = k.clone();
            move || rc2::from_key(&k, bits).encrypt(b).to_vec()
        }));
        if i == 0 {
            add("rc2", "RC2 decrypt".into(), Some(b.to_vec()), Box::new(move || rc2::from_key(&k, bits).decrypt(w.clone().try_into().unwrap()).to_vec()));
        }
    }
    for (i, (k, r)) in [(bytes(3, 16), 12u8), (bytes(3, 16), 13), (bytes(3, 15), 12), (bytes(4, 16), 12), (bytes(3, 70), 3), (bytes(4, 70), 3), (vec![], 0), (bytes(3, 255), 40)].into_iter().enumerate() {
        let b: [u8; 8] = arr(2);
        let w = refs::rc45::Rc5::new(&k, r as usize).encrypt(b).to_vec();
        add("rc5", format!("RC5 encrypt, key {i}, {r} rounds"), Some(w.clone()), Box::new({
            let k = k.clone();
            move || rc5::new(&k, r).encrypt(b).to_vec()
        }));
        if i == 0 {
            add("rc5", "RC5 decrypt".into(), Some(b.to_vec()), Box::new(move || rc5::new(&k, r).decrypt(w.clone().try_into().unwrap()).to_vec()));
        }
    }
    for (i, (k, n)) in alike(bytes(3, 5)).into_iter().map(|k| (k, 40)).chain([(bytes(3, 256), 40), (bytes(4, 256), 40), (bytes(3, 5), 600)]).enumerate() {
        let w = refs::rc45::rc4_stream(&k, n);
        add("rc4", format!("RC4 keystream, key {i}, {n} bytes"), Some(w), Box::new(move || rc4::new(&k).take(n).collect()));
    }
    for (i, m) in [bytes(3, 100), bytes(4, 100)].into_iter().enumerate() {
        let k = bytes(3, 5);
        let w = m.iter().zip(refs::rc45::rc4_stream(&k, 100)).map(|(a, b)| a ^ b).collect();
        add("rc4", format!("RC4 encrypt, message {i}"), Some(w), Box::new(move || rc4::new(&k).encrypt(&m)));
    }
    // message layers
    let msg = bytes(2, 20);
    let key: [u8; 16] = arr(3);
    let ct = aes_ecb(&key, &msg);
    add("ecb", "AES-ECB encrypt".into(), Some(ct.clone()), Box::new({
        let msg = msg.clone();
        move || ecb(Aes::with_128_bit_key(key), &msg)
    }));
    add("ecb", "AES-ECB decrypt".into(), Some(msg.clone()), Box::new({
        let ct = ct.clone();
        move || unecb(Aes::with_128_bit_key(key), &ct)
    }));
    for (i, (k, m)) in [(3usize, bytes(3, 20)), (4, bytes(2, 20)), (3, bytes(2, 16)), (3, bytes(2, 36)), (3, vec![])].into_iter().enumerate() {
        let key: [u8; 16] = arr(k);
        let ct = aes_ecb(&key, &m);
        add("ecb", format!("AES-ECB encrypt, other arguments {i}"), Some(ct.clone()), Box::new({ let m = m.clone(); move || ecb(Aes::with_128_bit_key(key), &m) }));
        if i < 2 {
            add("ecb", format!("AES-ECB decrypt, other arguments {i}"), Some(m), Box::new(move || unecb(Aes::with_128_bit_key(key), &ct)));
        }
    }
    for (i, m) in [bytes(3, 20), bytes(4, 20)].into_iter().enumerate() {
        let k = bytes(3, 8);
        let r2: Vec<u8> = pkcs7(&m, 8).chunks(8).flat_map(|b| refs::rc2::Rc2::new(&k, 64).encrypt(b.try_into().unwrap())).collect();
        let r5: Vec<u8> = pkcs7(&m, 8).chunks(8).flat_map(|b| refs::rc45::Rc5::new(&k, 12).encrypt(b.try_into().unwrap())).collect();
        add("ecb", format!("RC2-ECB encrypt {i}"), Some(r2.clone()), Box::new({ let (k, m) = (k.clone(), m.clone()); move || ecb(rc2::from_key(&k, 64), &m) }));
        add("ecb", format!("RC5-ECB encrypt {i}"), Some(r5), Box::new({ let (k, m) = (k.clone(), m.clone()); move || ecb(rc5::new(&k, 12), &m) }));
        add("ecb", format!("RC2-ECB decrypt {i}"), Some(m), Box::new(move || unecb(rc2::from_key(&k, 64), &r2)));
    }
    add("ecb", "AES-ECB decrypt of a partial block".into(), None, Box::new({
        let ct = ct.clone();
        move || unecb(Aes::with_128_bit_key(key), &ct[..ct.len() - 1])
    }));
    add("ecb", "AES-ECB decrypt of nothing".into(), None, Box::new(move || unecb(Aes::with_128_bit_key(key), &[])));
    let bad = refs::aes::Aes::new(&key).encrypt([17; 16]).to_vec();
    add("ecb", "AES-ECB decrypt with bad padding".into(), None, Box::new(move || unecb(Aes::with_128_bit_key(key), &bad)));
    add("ecb", "AES-ECB encrypt, output panics at byte 16".into(), None, Box::new({
        let msg = msg.clone();
        move || {
            let mut n = 0;
            BlockEncryption::encrypt(Aes::with_128_bit_key(key), EcbMode, &msg, |_| {
                n += 1;
                assert!(n <= 16, "output refused");
            });
            vec![]
        }
    }));
    add("stream", "StreamCipher over a fixed keystream".into(), Some(bytes(2, 9).iter().zip(bytes(3, 9)).map(|(a, b)| a ^ b).collect()), Box::new(|| StreamCipher::new(bytes(3, 9)).encrypt(bytes(2, 9)).collect()));
    add("stream", "StreamCipher over another keystream".into(), Some(bytes(2, 9).iter().zip(bytes(4, 9)).map(|(a, b)| a ^ b).collect()), Box::new(|| StreamCipher::new(bytes(4, 9)).encrypt(bytes(2, 9)).collect()));
    add("stream", "StreamCipher, two pieces, the first read in part".into(), Some(vec![byte(2, 0) ^ byte(3, 0), byte(2, 5) ^ byte(3, 1)]), Box::new(|| {
        let mut s = StreamCipher::new(bytes(3, 9));
        let mut v: Vec<u8> = s.encrypt(bytes(2, 4)).take(1).collect();
        v.extend(s.encrypt([byte(2, 5)]));
        v
    }));
    add("stream", "StreamCipher, keystream exhausted".into(), None, Box::new(|| StreamCipher::new(bytes(3, 4)).encrypt(bytes(2, 9)).collect()));
    add("pad", "PKCS#7 pad".into(), Some(pkcs7(&[1, 2, 3], 8)), Box::new(|| PkcsPadding::<8>.pad(&[1, 2, 3]).to_vec()));
    add("pad", "PKCS#7 unpad".into(), Some(vec![3]), Box::new(|| vec![PkcsPadding::<8>.unpad(pkcs7(&[1, 2, 3], 8).try_into().unwrap()) as u8]));
    add("pad", "PKCS#7 pad of other bytes".into(), Some(pkcs7(&[1, 2, 4], 8)), Box::new(|| PkcsPadding::<8>.pad(&[1, 2, 4]).to_vec()));
    add("pad", "PKCS#7 pad of nothing".into(), Some(pkcs7(&[], 8)), Box::new(|| PkcsPadding::<8>.pad(&[]).to_vec()));
    add("pad", "PKCS#7 pad, other block size".into(), Some(pkcs7(&[1, 2, 3], 5)), Box::new(|| PkcsPadding::<5>.pad(&[1, 2, 3]).to_vec()));
    add("pad", "PKCS#7 unpad of a broken block".into(), None, Box::new(|| vec![PkcsPadding::<8>.unpad([1, 2, 3, 5, 5, 4, 5, 5]) as u8]));
    add("pad", "bit unpad".into(), Some(vec![9, 8, 0, 0]), Box::new(|| {
        let (b, n) = BitPadding::<4>.unpad([9, 8, 0x80, 0]);
        assert_eq!(n, 2);
        b.to_vec()
    }));
    add("pad", "PKCS#7 pad, too long".into(), None, Box::new(|| PkcsPadding::<8>.pad(&[0; 8]).to_vec()));
    add("pad", "bit pad".into(), Some(vec![9, 8, 0x80, 0]), Box::new(|| BitPadding::<4>.pad(&[9, 8]).to_vec()));
    add("pad", "bit unpad without marker".into(), None, Box::new(|| BitPadding::<4>.unpad([1, 2, 3, 4]).0.to_vec()));
    // hashes: look-alike messages, one and two blocks
    for (i, m) in alike(bytes(3, 70)).into_iter().chain([bytes(3, 3), vec![], bytes(3, 300), bytes(4, 300)]).enumerate() {
        let r = |f: &dyn Fn(&[u8]) -> Vec<u8>| f(&m);
        add("md2", format!("MD2 of message {i}"), Some(r(&|m| refs::md::md2(m).to_vec())), Box::new({ let m = m.clone(); move || md2(&m).to_vec() }));
        add("md4", format!("MD4 of message {i}"), Some(r(&|m| refs::md::md4(m).to_vec())), Box::new({ let m = m.clone(); move || md4(&m).to_vec() }));
        add("md5", format!("MD5 of message {i}"), Some(r(&|m| refs::md::md5(m).to_vec())), Box::new({ let m = m.clone(); move || md5(&m).to_vec() }));
        add("sha1", format!("SHA-1 of message {i}"), Some(r(&|m| refs::sha::sha1(m).to_vec())), Box::new({ let m = m.clone(); move || <[u8; 20]>::from(sha::sha1(&m)).to_vec() }));
        add("sha256", format!("SHA-256 of message {i}"), Some(r(&|m| refs::sha::sha256(m).to_vec())), Box::new({ let m = m.clone(); move || <[u8; 32]>::from(sha::sha256(&m)).to_vec() }));
        add("sha512", format!("SHA-512 of message {i}"), Some(r(&|m| refs::sha::sha512(m).to_vec())), Box::new({ let m = m.clone(); move || <[u8; 64]>::from(sha::sha512(&m)).to_vec() }));
        if i != 2 {
            add("sha256", format!("SHA-224 of message {i}"), Some(r(&|m| refs::sha::sha224(m).to_vec())), Box::new({ let m = m.clone(); move || <[u8; 28]>::from(sha::sha224(&m)).to_vec() }));
            add("sha512", format!("SHA-384 of message {i}"), Some(r(&|m| refs::sha::sha384(m).to_vec())), Box::new({ let m = m.clone(); move || <[u8; 48]>::from(sha::sha384(&m)).to_vec() }));
        }
    }
    fn hexed<T: hex::FromHex + Into<[u8; N]>, const N: usize>(s: &str) -> Vec<u8> {
        T::from_hex(s).ok().expect("not a digest").into().to_vec()
    }
    for (i, s) in ["0123456789abcdef", "0123456789abcdee", "0123456789ABCDEF"].into_iter().enumerate() {
        let w: Vec<u8> = (0..8).map(|k| u8::from_str_radix(&s[2 * k..2 * k + 2], 16).unwrap()).collect();
        add("hash", format!("SHA-256 value from hex {i}"), Some(w.repeat(4)), Box::new(move || hexed::<sha::Hash256, 32>(&s.repeat(4))));
    }
    add("hash", "SHA-256 value from bad hex".into(), None, Box::new(|| hexed::<sha::Hash256, 32>(&"0123456789abcdeg".repeat(4))));
    add("hash", "SHA-256 value from short hex".into(), None, Box::new(|| hexed::<sha::Hash256, 32>("00")));
    add("md2", "MD2 of an iterator that panics".into(), None, Box::new(|| {
        let d = bytes(3, 90);
        md2(d.iter().enumerate().map(|(i, b)| { assert!(i < 70, "no more data"); b })).to_vec()
    }));
    add("md4", "MD4 of an iterator that panics".into(), None, Box::new(|| {
        let d = bytes(3, 90);
        md4(d.iter().enumerate().map(|(i, b)| { assert!(i < 70, "no more data"); b })).to_vec()
    }));
    add("md5", "MD5 of an iterator that panics".into(), None, Box::new(|| {
        let d = bytes(3, 90);
        let it = d.iter().enumerate().map(|(i, b)| {
            assert!(i < 70, "no more data");
            b
        });
        md5(it).to_vec()
    }));
    // big integers
    let (a, b) = (bytes(3, 20), bytes(4, 9));
    let (na, nb) = (Nat::from_be(&a), Nat::from_be(&b));
    let bi = |x: &[u8]| BigUint::from_be_bytes(x);
    for (i, (a, b)) in [(bytes(3, 70), bytes(4, 70)), (bytes(4, 70), bytes(2, 70)), (vec![255; 40], vec![1])].into_iter().enumerate() {
        let (x, y) = (Nat::from_be(&a), Nat::from_be(&b));
        add("big", format!("big +, operands {i}"), Some(x.add(&y).to_be()), Box::new({ let (a, b) = (a.clone(), b.clone()); move || { let mut x = bi(&a); x += &bi(&b); x.to_be_bytes() } }));
        add("big", format!("big -, operands {i}"), x.sub(&y).map(|d| d.to_be()), Box::new({ let (a, b) = (a.clone(), b.clone()); move || (bi(&a) - &bi(&b)).to_be_bytes() }));
        add("big", format!("big <<, operands {i}"), Some(x.shl(77).to_be()), Box::new({ let a = a.clone(); move || { let mut x = bi(&a); x <<= 77; x.to_be_bytes() } }));
        add("big", format!("big cmp, operands {i}"), Some(vec![x.cmp(&y) as u8, x.bits() as u8]), Box::new(move || vec![bi(&a).cmp(&bi(&b)) as u8, bi(&a).bits_used() as u8]));
    }
    add("big", "big +".into(), Some(na.add(&nb).to_be()), Box::new({ let (a, b) = (a.clone(), b.clone()); move || { let mut x = bi(&a); x += &bi(&b); x.to_be_bytes() } }));
    add("big", "big -".into(), Some(na.sub(&nb).unwrap().to_be()), Box::new({ let (a, b) = (a.clone(), b.clone()); move || (bi(&a) - &bi(&b)).to_be_bytes() }));
    add("big", "big - underflow".into(), None, Box::new({ let (a, b) = (a.clone(), b.clone()); move || (bi(&b) - &bi(&a)).to_be_bytes() }));
    add("big", "big %".into(), Some(na.rem(&nb).unwrap().to_be()), Box::new({ let (a, b) = (a.clone(), b.clone()); move || { let mut x = bi(&a); x %= &bi(&b); x.to_be_bytes() } }));
    for (i, (a, b)) in [(bytes(4, 20), bytes(4, 9)), (bytes(3, 20), bytes(2, 9)), (bytes(3, 64), bytes(4, 32)), (bytes(3, 64), bytes(2, 32)), (bytes(3, 63), bytes(4, 32))].into_iter().enumerate() {
        let w = Nat::from_be(&a).rem(&Nat::from_be(&b)).unwrap();
        add("big", format!("big %, operands {i}"), Some(w.to_be()), Box::new(move || { let mut x = bi(&a); x %= &bi(&b); x.to_be_bytes() }));
    }
    add("big", "big % 0".into(), None, Box::new({ let a = a.clone(); move || { let mut x = bi(&a); x %= &BigUint::from(0); x.to_be_bytes() } }));
    add("big", "big << 13 >> 30".into(), Some(na.shl(13).shr(30).to_be()), Box::new({ let a = a.clone(); move || { let mut x = bi(&a); x <<= 13; x >>= 30; x.to_be_bytes() } }));
    // RSA
    for (p, q, e) in [(61u128, 53u128, 17u128), (61, 53, 7), (61, 47, 17)] {
        let n = Nat::from_u128(p * q);
        let m = 1234u128;
        let w = Nat::from_u128(m).powmod(&Nat::from_u128(e), &n);
        add("rsa", format!("RSA p={p} q={q} e={e}, there and back"), Some([w.to_be(), Nat::from_u128(m).to_be()].concat()), Box::new(move || {
            let (pr, pu) = create_keys(big(p), big(q), big(e));
            let c = RsaEncryption::from(pu).encrypt(big(m));
            let mut o = c.to_be_bytes();
            o.extend(RsaEncryption::from(pr).decrypt(c).to_be_bytes());
            o
        }));
    }
    // one raw operation each: another number, exponent or modulus of the same length
    for (m, e, n) in [(65u128, 17u128, 3233u128), (65, 19, 3233), (66, 17, 3233), (65, 17, 3127), (65, 0x8000_0011, 0xffff_fffb), (65, 0x8000_0013, 0xffff_fffb), (65, 0x8000_0011, 0xffff_ffef)] {
        let w = Nat::from_u128(m).powmod(&Nat::from_u128(e), &Nat::from_u128(n));
        let text = keys::pem_text("PUBLIC KEY", &spki(&Nat::from_u128(n), &Nat::from_u128(e)).der());
        add("rsa", format!("RSA {m}^{e} mod {n}"), Some(w.to_be()), Box::new(move || {
            let k = PublicKey::try_from(PEM::from_str(&text).unwrap()).unwrap();
            RsaEncryption::from(k).encrypt(big(m)).to_be_bytes()
        }));
    }
    add("rsa", "RSA keys with a bad exponent".into(), None, Box::new(|| {
        create_keys(big(61), big(53), big(4));
        vec![]
    }));
    let toy: Vec<Nat> = [3233u128, 17, 413, 61, 53, 54, 49, 38].iter().map(|&v| Nat::from_u128(v)).collect();
    let mut toy2 = toy.clone();
    toy2[0] = Nat::from_u128(2867);
    for (i, t) in [toy, toy2].into_iter().enumerate() {
        let w = Nat::from_u128(65).powmod(&t[2], &t[0]);
        let text = keys::pem_text("PRIVATE KEY", &pkcs8(&t).der());
        add("import", format!("private key import {i}"), Some(w.to_be()), Box::new(move || {
            let k = PrivateKey::try_from(PEM::from_str(&text).unwrap()).unwrap();
            RsaEncryption::from(k).decrypt(big(65)).to_be_bytes()
        }));
        let w = Nat::from_u128(65).powmod(&t[1], &t[0]);
        let text = keys::pem_text("PUBLIC KEY", &spki(&t[0], &t[1]).der());
        add("import", format!("public key import {i}"), Some(w.to_be()), Box::new(move || {
            let k = PublicKey::try_from(PEM::from_str(&text).unwrap()).unwrap();
            RsaEncryption::from(k).encrypt(big(65)).to_be_bytes()
        }));
    }
    let t: Vec<Nat> = [3233u128, 17, 413, 61, 53, 54, 49, 38].iter().map(|&v| Nat::from_u128(v)).collect();
    let (pr, pu) = (pkcs8(&t).der(), spki(&t[0], &t[1]).der());
    let mut other = pu.clone();
    other[4 + 8] ^= 3;
    let cut = pu[..pu.len() - 1].to_vec();
    let more = [&pu[..], &[0]].concat();
    for (i, (label, d)) in [("PUBLIC KEYS", pu.clone()), ("PUBLIC KEY", pr.clone()), ("PUBLIC KEY", other), ("PUBLIC KEY", cut), ("PUBLIC KEY", more)].into_iter().enumerate() {
        add("import", format!("public key import that fails {i}"), None, Box::new(move || {
            PublicKey::try_from(PEM { label: label.to_string(), data: d.clone() }).unwrap();
            vec![]
        }));
    }
    let mut two = pr.clone();
    two[4] = 2;
    for (i, (label, d)) in [("PUBLIC KEY", pr.clone()), ("PRIVATE KEY", pu), ("PRIVATE KEY", two), ("PRIVATE KEY", pr[..20].to_vec())].into_iter().enumerate() {
        add("import", format!("private key import that fails {i}"), None, Box::new(move || {
            PrivateKey::try_from(PEM { label: label.to_string(), data: d.clone() }).unwrap();
            vec![]
        }));
    }
    // RSA messages under keys of several lengths, with a scheme that only fills up with zeros
    let key = |n: u128, e: u128| {
        let der = spki(&Nat::from_u128(n), &Nat::from_u128(e)).der();
        move || RsaEncryption::from(PublicKey::try_from(PEM { label: "PUBLIC KEY".to_string(), data: der.clone() }).unwrap())
    };
    for (i, (n, e, m)) in [(3233u128, 5u128, vec![9u8, 1]), (3233, 5, vec![9, 2]), (2867, 5, vec![9, 1]), (1022117, 3, vec![9, 1]), (1000036000099, 3, vec![9, 1]), (1000036000099, 3, vec![])].into_iter().enumerate() {
        let nn = Nat::from_u128(n);
        let len = nn.to_be().len();
        let want = Nat::from_be(&m).powmod(&Nat::from_u128(e), &nn).to_be_len(len);
        let k = key(n, e);
        add("message", format!("RSA encrypt_message {i}, n={n}"), Some(want.clone()), Box::new({
            let (k, m) = (k.clone(), m.clone());
            move || k().encrypt_message(&m, ZeroPad)
        }));
        add("message", format!("RSA decrypt_message {i}, n={n}"), Some(want), Box::new(move || k().decrypt_message(&m, ZeroPad)));
    }
    let k = key(3233, 5);
    add("message", "RSA encrypt_message, too long".into(), None, Box::new({
        let k = k.clone();
        move || k().encrypt_message(&[1, 2, 3], ZeroPad)
    }));
    add("message", "RSA decrypt_message, not an encoding".into(), None, Box::new(move || k().decrypt_message(&[1, 2], RsaPadding)));
    for (i, (n, m)) in [(66usize, &b""[..]), (68, b"ab")].into_iter().enumerate() {
        // an exponent of one, so that the ciphertext is the encoding
        let mut modulus = vec![0xff; n];
        modulus[1] = 0x77;
        let der = spki(&Nat::from_be(&modulus), &Nat::from_u128(1)).der();
        let key = move || RsaEncryption::from(PublicKey::try_from(PEM { label: "PUBLIC KEY".to_string(), data: der.clone() }).unwrap());
        let ct = refs::oaep::encode(b"", m, n, &bytes(4, 32));
        add("message", format!("RSA-OAEP encrypt {i}"), Some(m.to_vec()), Box::new({
            let key = key.clone();
            move || refs::oaep::decode(b"", &key().encrypt_message(m, RsaPadding), n).expect("a valid encoding")
        }));
        add("message", format!("RSA-OAEP decrypt {i}"), Some(m.to_vec()), Box::new(move || key().decrypt_message(&ct, RsaPadding)));
    }
    // OAEP: decoded by the reference, so that any seed is right
    for (i, (l, m)) in [(&b"L"[..], &b"hello"[..]), (b"M", b"hello"), (b"L", b"hellp"), (b"", b""), (&[7; 100], &[9; 24])].into_iter().enumerate() {
        add("oaep", format!("OAEP encode {i}"), Some(m.to_vec()), Box::new(move || refs::oaep::decode(l, &RsaPadding.encode(l, m, 90), 90).expect("a valid encoding")));
        let em = refs::oaep::encode(l, m, 90, &bytes(4, 32));
        add("oaep", format!("OAEP decode {i}"), Some(m.to_vec()), Box::new(move || RsaPadding.decode(l, &em, 90).unwrap()));
    }
    for (l, k) in [(&b"L"[..], 91usize), (b"L", 200), (b"M", 91)] {
        add("oaep", format!("OAEP encode into {k} bytes, label {l:?}"), Some(b"hello".to_vec()), Box::new(move || refs::oaep::decode(l, &RsaPadding.encode(l, b"hello", k), k).expect("a valid encoding")));
        let em = refs::oaep::encode(l, b"hello", k, &bytes(4, 32));
        add("oaep", format!("OAEP decode of {k} bytes, label {l:?}"), Some(b"hello".to_vec()), Box::new(move || RsaPadding.decode(l, &em, k).unwrap()));
    }
    add("oaep", "OAEP encode, too long".into(), None, Box::new(|| RsaPadding.encode(b"", &[0; 30], 90)));
    add("oaep", "OAEP decode, wrong label".into(), None, Box::new(|| RsaPadding.decode(b"x", &refs::oaep::encode(b"L", b"hello", 90, &bytes(4, 32)), 90).unwrap()));
    // text
    for (i, (l, d)) in [("A B", bytes(3, 60)), ("A C", bytes(3, 60)), ("A B", bytes(4, 60)), ("", vec![1]), ("LONGER LABEL WITH MANY WORDS", bytes(3, 400)), ("LONGER LABEL WITH MANY WORDS", bytes(4, 400))].into_iter().enumerate() {
        let text = keys::pem_text(l, &d);
        let t2 = text.trim_end().to_string();
        add("pem", format!("PEM parse {i}"), Some([l.as_bytes(), &d].concat()), Box::new(move || {
            let p = PEM::from_str(&text).unwrap();
            [p.label.as_bytes(), &p.data].concat()
        }));
        add("pem", format!("PEM render {i}"), Some(t2.into_bytes()), Box::new(move || PEM { label: l.to_string(), data: d.clone() }.to_string().trim_end().as_bytes().to_vec()));
    }
    for (i, (text, want)) in [
        ("-----BEGIN A B-----\n\nQUJD\n\n-----END A B-----\n", Some("A BABC")),
        ("-----BEGIN A B-----\r\nQUJD\r\n-----END A B-----\r\n", Some("A BABC")),
        ("  -----BEGIN A B-----  \n  QUI=\t\n\t-----END A B-----", Some("A BAB")),
        ("text\nmore text\n-----BEGIN A B-----\nQQ\n==\n-----END A B-----\ntext", Some("A BA")),
        ("-----BEGIN A B-----\nQ\nU\nJ\nD\n-----END A B-----\n", Some("A BABC")),
        ("-----BEGIN A B-----\nQU!D\n-----END A B-----\n", None),
        ("-----BEGIN A B-----\nQUJ\n-----END A B-----\n", None),
        ("-----BEGIN A B-----\nQUJD\n-----END A C-----\n", None),
        ("-----BEGIN A B-----\n-----BEGIN A B-----\nQUJD\n-----END A B-----\n", None),
        ("-----END A B-----\n", None),
        ("", None),
    ].into_iter().enumerate() {
        add("pem", format!("PEM parse of text {i}"), want.map(|w| w.as_bytes().to_vec()), Box::new(move || {
            let p = PEM::from_str(text).unwrap();
            [p.label.as_bytes(), &p.data].concat()
        }));
    }
    add("pem", "PEM parse of an unterminated block".into(), None, Box::new(|| PEM::from_str("-----BEGIN A B-----\nQUJD\n").unwrap().data));
    for (i, t) in [
        Tree::Seq(vec![Tree::Int(vec![9]), Tree::Null]),
        Tree::Seq(vec![Tree::Int(vec![8]), Tree::Null]),
        Tree::Seq(vec![Tree::Seq(vec![Tree::Seq(vec![Tree::Octets(bytes(3, 200)), Tree::Bits(bytes(4, 130), 0)]), Tree::Oid(vec![42, 3])]), Tree::Int(bytes(2, 300))]),
        Tree::Seq(vec![Tree::Seq(vec![Tree::Seq(vec![Tree::Octets(bytes(4, 200)), Tree::Bits(bytes(3, 130), 0)]), Tree::Oid(vec![42, 3])]), Tree::Int(bytes(2, 300))]),
        Tree::Octets(vec![]),
    ].into_iter().enumerate() {
        let d = t.der();
        add("asn1", format!("ASN.1 parse {i}"), Some(d.clone()), Box::new(move || tree(&Asn1::try_from(d.as_slice()).unwrap()).der()));
    }
    for (i, b) in [&[0x30u8, 3, 5, 0][..], &[5, 0, 0], &[0x31, 0], &[3, 0], &[2, 0x89, 1, 0, 0, 0, 0, 0, 0, 0, 1, 9], &[], &[2, 0x82, 1]].into_iter().enumerate() {
        add("asn1", format!("ASN.1 parse of malformed data {i}"), None, Box::new(move || tree(&Asn1::try_from(b).unwrap()).der()));
    }
    add("asn1", "ASN.1 parse of truncated nested data".into(), None, Box::new(|| tree(&Asn1::try_from(&[0x30u8, 6, 0x30, 4, 2, 5, 1, 1][..]).unwrap()).der()));
    v
}

/// Fills up with zeros on the left.
struct ZeroPad;
impl PaddingScheme for ZeroPad {
    fn encode(&self, _: &[u8], m: &[u8], n: usize) -> Vec<u8> {
        let mut v = vec![0; n.checked_sub(m.len()).expect("too long")];
        v.extend(m);
        v
    }
    fn decode(&self, _: &[u8], m: &[u8], n: usize) -> Result<Vec<u8>, &'static str> {
        if m.len() == n { Ok(m.to_vec()) } else { Err("another length") }
    }
}

// ---------------------------------------------------------------- operations with callbacks

/// One place where the library calls back.
pub const HOSTS: &[&str] = &[
    "AES-ECB encrypt, output function",
    "AES-ECB encrypt, mode",
    "AES-ECB encrypt, cipher",
    "AES-ECB decrypt, output function",
    "AES-ECB decrypt, mode",
    "AES-ECB decrypt, cipher",
    "StreamCipher, keystream iterator",
    "StreamCipher, data iterator",
    "MD2 iterator",
    "MD4 iterator",
    "MD5 iterator",
    "RSA encrypt_message, padding scheme",
    "RSA decrypt_message, padding scheme",
];

type Hook<'a> = &'a dyn Fn(usize);

struct Calls<'a> {
    n: std::cell::Cell<usize>,
    hook: Hook<'a>,
}
impl Calls<'_> {
    fn hit(&self) {
        let i = self.n.get();
        self.n.set(i + 1);
        (self.hook)(i);
    }
}

struct HookedCipher<'a, 'b>(Aes, &'b Calls<'a>, bool);
impl BlockCipher<16> for HookedCipher<'_, '_> {
    fn encrypt(&self, b: [u8; 16]) -> [u8; 16] {
        if self.2 {
            self.1.hit();
        }
        let o = self.0.encrypt(b);
        if self.2 {
            self.1.hit();
        }
        o
    }
    fn decrypt(&self, b: [u8; 16]) -> [u8; 16] {
        if self.2 {
            self.1.hit();
        }
        let o = self.0.decrypt(b);
        if self.2 {
            self.1.hit();
        }
        o
    }
}
struct HookedMode<'a, 'b>(&'b Calls<'a>, bool);
impl BlockCipherMode<16> for HookedMode<'_, '_> {
    fn encrypt_block<C: BlockCipher<16>>(&mut self, c: &C, b: [u8; 16]) -> [u8; 16] {
        if self.1 {
            self.0.hit();
        }
        c.encrypt(b)
    }
    fn decrypt_block<C: BlockCipher<16>>(&mut self, c: &C, b: [u8; 16]) -> [u8; 16] {
        let o = c.decrypt(b);
        if self.1 {
            self.0.hit();
        }
        o
    }
}
struct HookedPad<'a, 'b>(&'b Calls<'a>);
impl PaddingScheme for HookedPad<'_, '_> {
    fn encode(&self, _: &[u8], m: &[u8], n: usize) -> Vec<u8> {
        self.0.hit();
        let mut v = vec![0; n - m.len()];
        v.extend(m);
        v
    }
    fn decode(&self, _: &[u8], em: &[u8], _: usize) -> Result<Vec<u8>, &'static str> {
        self.0.hit();
        Ok(em.iter().copied().skip_while(|&b| b == 0).collect())
    }
}

/// Runs a host operation; `hook(i)` is called at its i-th callback. Returns the result and
/// the expected one.
pub fn host(which: usize, hook: Hook) -> (Vec<u8>, Vec<u8>) {
    let calls = Calls { n: std::cell::Cell::new(0), hook };
    let key: [u8; 16] = arr(3);
    let msg = bytes(2, 20);
    match which {
        0..=5 => {
            let ct = aes_ecb(&key, &msg);
            let c = HookedCipher(Aes::with_128_bit_key(key), &calls, which % 3 == 2);
            let m = HookedMode(&calls, which % 3 == 1);
            let mut o = vec![];
            let sink = |b: u8| {
                if which % 3 == 0 {
                    calls.hit();
                }
                o.push(b);
            };
            if which < 3 {
                BlockEncryption::encrypt(c, m, &msg, sink);
                (o, ct)
            } else {
                BlockEncryption::decrypt(c, m, &ct, sink);
                (o, msg)
            }
        }
        6 => {
            let k = bytes(3, 9).into_iter().inspect(|_| calls.hit());
            (StreamCipher::new(k).encrypt(bytes(2, 9)).collect(), bytes(2, 9).iter().zip(bytes(3, 9)).map(|(a, b)| a ^ b).collect())
        }
        7 => {
            let d = bytes(2, 9).into_iter().inspect(|_| calls.hit());
            (StreamCipher::new(rc4::new(&key)).encrypt(d).collect(), bytes(2, 9).iter().zip(refs::rc45::rc4_stream(&key, 9)).map(|(a, b)| a ^ b).collect())
        }
        8..=10 => {
            let m = bytes(3, 70);
            let it = m.iter().inspect(|_| calls.hit());
            match which {
                8 => (md2(it).to_vec(), refs::md::md2(&m).to_vec()),
                9 => (md4(it).to_vec(), refs::md::md4(&m).to_vec()),
                _ => (md5(it).to_vec(), refs::md::md5(&m).to_vec()),
            }
        }
        _ => {
            let (pr, pu) = create_keys(big(251), big(241), big(7));
            let n = Nat::from_u128(251 * 241);
            let ct = Nat::from_u128(200).powmod(&Nat::from_u128(7), &n).to_be_len(2);
            if which == 11 {
                (RsaEncryption::from(pu).encrypt_message(&[200], HookedPad(&calls)), ct)
            } else {
                (RsaEncryption::from(pr).decrypt_message(&ct, HookedPad(&calls)), vec![200])
            }
        }
    }
}
