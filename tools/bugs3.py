BUGS = []
def bug(id, property, needs, breaks, edits, demo, **k):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))

AES = "src/aes/cipher.rs"
bug("aes-rekey-counter", "C01",
 "more than 65535 encryptions with one cipher object",
 "a 16-bit usage counter runs over and the last round key is skipped in that call",
 [(AES, "    rounds: usize,", "    rounds: usize,\n    used: std::sync::atomic::AtomicU16,"),
  (AES, "Aes { keys, rounds: 10 }", "Aes { keys, rounds: 10, used: Default::default() }"),
  (AES, "Aes { keys, rounds: 12 }", "Aes { keys, rounds: 12, used: Default::default() }"),
  (AES, "Aes { keys, rounds: 14 }", "Aes { keys, rounds: 14, used: Default::default() }"),
  (AES, "        AddKey{key: self.keys[self.rounds]}.forward(&mut state);\n\n        state.0", "        if self.used.fetch_add(1, std::sync::atomic::Ordering::Relaxed) != u16::MAX {\n            AddKey{key: self.keys[self.rounds]}.forward(&mut state);\n        }\n\n        state.0")],
 r'''
use cryptography::{aes::Aes, BlockCipher};
fn main() {
    let c = Aes::with_128_bit_key([7; 16]);
    let first = c.encrypt([1; 16]);
    for _ in 0..200_000 { assert_eq!(c.encrypt([1; 16]), first); }
}
''', profile="release")

bug("aes-256-shared-subword", "C01",
 "a 256-bit key whose schedule has two equal words eight apart before a SubWord step",
 "the step is skipped when the word equals the one eight places before",
 [("src/aes/expander.rs", "} else if N > 6 && i % N == 4 {", "} else if N > 6 && i % N == 4 && w[i - 1] != w[i - N] {")],
 r'''
use cryptography::{aes::Aes, BlockCipher};
fn value() -> String {
    let mut key = [0; 32];
    key[16..20].copy_from_slice(&[0x62, 0x63, 0x63, 0x63]);
    format!("{:?}", Aes::with_256_bit_key(key).encrypt([0; 16]))
}
''', golden=True)

bug("rc2-decrypt-uneven-key", "C02",
 "decryption with a key of an odd number of bytes above 64 and an effective length that is not a multiple of 8",
 "the mask is applied twice there",
 [("src/rc/rc2.rs", "        l[(128 - t8) as usize] = PITABLE[(l[(128 - t8) as usize] & tm) as usize];", "        let tm = if t > 64 && t % 2 == 1 && tm != 0xff { tm >> 1 } else { tm };\n        l[(128 - t8) as usize] = PITABLE[(l[(128 - t8) as usize] & tm) as usize];")],
 r'''
use cryptography::{rc2, BlockCipher};
fn value() -> String { format!("{:?}", rc2::from_key(&[0x5b; 77], 1021).encrypt([1; 8])) }
''', golden=True)

bug("rc2-rmash-reads-new", "C02",
 "decryption of a block where a mash index reads the highest key word",
 "the index is masked with 62 for the last word there",
 [("src/rc/rc2.rs", "            data[i] = data[i].wrapping_sub(self.key[(data[(i + 3) % 4] & 63) as usize]);", "            let idx = (data[(i + 3) % 4] & 63) as usize;\n            data[i] = data[i].wrapping_sub(self.key[if i == 0 && idx == 63 { 62 } else { idx }]);")],
 r'''
use cryptography::{rc2, BlockCipher};
fn main() {
    let c = rc2::from_key(&[1, 2, 3, 9], 32);
    for i in 0..20_000u64 {
        let b = i.to_le_bytes();
        assert_eq!(c.decrypt(c.encrypt(b)), b);
    }
}
''', profile="release")

bug("rc5-zero-rounds-whitening", "C03",
 "zero rounds",
 "decryption with zero rounds forgets to remove the second whitening word",
 [("src/rc/rc5.rs", "        b = b.wrapping_sub(self.s[1]);", "        if self.r > 0 {\n            b = b.wrapping_sub(self.s[1]);\n        }")],
 r'''
use cryptography::{rc5, BlockCipher};
fn main() {
    let c = rc5::new(&[1, 2, 3], 0);
    assert_eq!(c.decrypt(c.encrypt([5; 8])), [5; 8]);
}
''')

bug("rc4-position-u32", "C04",
 "reading more than 2^32 keystream bytes",
 "the position is kept in 32 bits and the stream restarts its index there",
 [("src/rc/rc4.rs", "    x: u8,\n    y: u8,\n}", "    y: u8,\n    pos: u32,\n}"),
  ("src/rc/rc4.rs", "Self { state, x: 0, y: 0 }", "Self { state, y: 0, pos: 0 }"),
  ("src/rc/rc4.rs", "        self.x = self.x.wrapping_add(1);\n        self.y = self.state[self.x as usize].wrapping_add(self.y);\n        self.state.swap(self.x as usize, self.y as usize);\n\n        let xor_index = self.state[self.x as usize].wrapping_add(self.state[self.y as usize]);",
   "        self.pos = self.pos.checked_add(1).unwrap_or(1);\n        let x = self.pos as u8 as usize;\n        self.y = self.state[x].wrapping_add(self.y);\n        self.state.swap(x, self.y as usize);\n\n        let xor_index = self.state[x].wrapping_add(self.state[self.y as usize]);")],
 r'''
use cryptography::rc4;
fn main() {
    let key = [1u8, 2, 3, 4, 5];
    let mut s: [u8; 256] = core::array::from_fn(|i| i as u8);
    let mut j = 0u8;
    for i in 0..256 { j = j.wrapping_add(s[i]).wrapping_add(key[i % 5]); s.swap(i, j as usize); }
    let mut k = rc4::new(&key);
    let (mut a, mut b) = (0u8, 0u8);
    for n in 0..(1u64 << 32) + 100 {
        a = a.wrapping_add(1);
        b = b.wrapping_add(s[a as usize]);
        s.swap(a as usize, b as usize);
        let w = s[s[a as usize].wrapping_add(s[b as usize]) as usize];
        if k.next() != Some(w) { panic!("byte {n}"); }
    }
}
''', profile="release")

bug("rc4-nth-chunk", "C04",
 "skipping 65536 or more bytes at once with nth",
 "the skip count is cut to 16 bits",
 [("src/rc/rc4.rs", "        Some(self.next_key())\n    }", "        Some(self.next_key())\n    }\n\n    fn nth(&mut self, n: usize) -> Option<Self::Item> {\n        for _ in 0..n as u16 {\n            self.next_key();\n        }\n        self.next()\n    }")],
 r'''
use cryptography::rc4;
fn main() {
    let mut a = rc4::new(b"key");
    let mut b = rc4::new(b"key");
    for _ in 0..65536 { a.next(); }
    assert_eq!(a.next(), b.nth(65536));
}
''')

bug("stream-position-u32", "C05",
 "more than 2^32 bytes through one stream cipher",
 "a 32-bit position runs over; the byte there is sent without its keystream byte",
 [("src/lib.rs", "    keys: K,\n}", "    keys: K,\n    pos: u32,\n}"),
  ("src/lib.rs", "            keys: keys.into_iter(),\n", "            keys: keys.into_iter(),\n            pos: 0,\n"),
  ("src/lib.rs", "        data.into_iter().map(|d| self.keys.next().unwrap() ^ d)", "        data.into_iter().map(|d| {\n            self.pos = self.pos.wrapping_add(1);\n            if self.pos == 0 {\n                return d;\n            }\n            self.keys.next().unwrap() ^ d\n        })")],
 r'''
use cryptography::StreamCipher;
fn main() {
    let mut s = StreamCipher::new(std::iter::repeat(0x55u8));
    assert!(s.encrypt(std::iter::repeat_n(0u8, (1 << 32) + 100)).all(|b| b == 0x55));
}
''', profile="release")

bug("stream-lookahead-on-end", "C05",
 "a piece read to its end by next until None, followed by another piece",
 "the keystream byte is fetched before the data byte, so reaching the end of a piece loses one",
 [("src/lib.rs", "        data.into_iter().map(|d| self.keys.next().unwrap() ^ d)", "        let mut data = data.into_iter();\n        let keys = &mut self.keys;\n        std::iter::from_fn(move || {\n            if data.size_hint() == (0, Some(0)) {\n                return None;\n            }\n            let key = keys.next();\n            let d = data.next()?;\n            Some(key.unwrap() ^ d)\n        })")],
 r'''
use cryptography::StreamCipher;
fn main() {
    let mut s = StreamCipher::new(vec![1u8, 2, 3, 4]);
    let a: Vec<u8> = s.encrypt(b"\0\0x".iter().copied().take_while(|&b| b == 0).inspect(|_| ())).collect();
    let b: Vec<u8> = s.encrypt([0u8, 0]).collect();
    assert_eq!((a, b), (vec![1, 2], vec![3, 4]));
}
''')

bug("block-count-u16", "C06",
 "encrypting a message of 65536 or more whole blocks",
 "whole blocks are counted in 16 bits, the rest is dropped",
 [("src/lib.rs", "        for block in blocks {\n            let block = <[u8; N]>::try_from(block).unwrap();\n            let output_block = mode.encrypt_block(&cipher, block);",
   "        let count = blocks.len() as u16;\n        for block in blocks.take(if plaintext.len() < N << 16 { usize::MAX } else { count as usize }) {\n            let block = <[u8; N]>::try_from(block).unwrap();\n            let output_block = mode.encrypt_block(&cipher, block);")],
 r'''
use cryptography::{aes::Aes, BlockEncryption, EcbMode};
fn main() {
    let m = vec![3u8; 16 * 65537];
    let mut n = 0usize;
    BlockEncryption::encrypt(Aes::with_128_bit_key([0; 16]), EcbMode, &m, |_| n += 1);
    assert_eq!(n, 16 * 65538);
}
''', profile="release")

bug("block-decrypt-checks-debug", "C06",
 "a ciphertext that is not a whole number of blocks, in a build without debug assertions",
 "the check is a debug assertion, so the extra bytes are silently ignored",
 [("src/lib.rs", "        if !blocks.remainder().is_empty() {\n            panic!(\"ciphertext must be divisible into 128 bit blocks\");\n        }", "        debug_assert!(\n            blocks.remainder().is_empty(),\n            \"ciphertext must be divisible into 128 bit blocks\"\n        );")],
 r'''
use cryptography::{aes::Aes, BlockEncryption, EcbMode};
fn main() {
    let mut ct = vec![];
    BlockEncryption::encrypt(Aes::with_128_bit_key([0; 16]), EcbMode, b"abc", |b| ct.push(b));
    ct.push(0);
    assert!(std::panic::catch_unwind(move || BlockEncryption::decrypt(Aes::with_128_bit_key([0; 16]), EcbMode, &ct, |_| ())).is_err());
}
''', profile="release")

bug("pkcs-unpad-word-compare", "C07",
 "a block of more than 8 bytes with a broken padding byte more than eight places before the end",
 "only the last eight padding bytes are compared",
 [("src/pad.rs", "        if block[len..].iter().any(|&b| b != amt) {", "        if block[len..].iter().rev().take(8).any(|&b| b != amt) {")],
 r'''
use cryptography::pad::PkcsPadding;
fn main() {
    let mut b = [16u8; 16];
    b[2] = 3;
    assert!(std::panic::catch_unwind(|| PkcsPadding::<16>.unpad(b)).is_err());
}
''')

bug("sha-length-bytes-u32", "C08",
 "a message of more than 4 GiB",
 "the byte count is kept in 32 bits",
 [("src/sha/sha2.rs", "    let (last_chunk, extra_chunk) = sha2_padding(remaining_bytes, message.len() as u64);\n\n    let mut hash = INITIAL_HASH_256;", "    let (last_chunk, extra_chunk) = sha2_padding(remaining_bytes, message.len() as u32 as u64);\n\n    let mut hash = INITIAL_HASH_256;")],
 r'''
fn main() {
    let m = vec![0u8; (1 << 32) + 5];
    let h: [u8; 32] = cryptography::sha::sha256(&m).into();
    assert_eq!(hex::encode(h), "709fc0b74f7c916cedccb212d681c035f36ffbb31ebfe806eb40c31592744eb5");
}
''', profile="release")

bug("sha512-schedule-reuse", "C08",
 "two neighbouring 128-byte blocks with the same xor of their words but different contents",
 "the message schedule of the block before is used again",
 [("src/sha/sha2.rs", "fn process_big_chunk(hash: &mut [u64; 8], chunk: [u8; 128]) {", "fn fingerprint(chunk: &[u8]) -> u64 {\n    chunk\n        .chunks_exact(8)\n        .map(|w| u64::from_be_bytes(w.try_into().unwrap()))\n        .fold(0, |a, w| a ^ w)\n}\n\nfn process_big_chunk(hash: &mut [u64; 8], chunk: [u8; 128]) {"),
  ("src/sha/sha2.rs", "    let mut hash = INITIAL_HASH_512;\n\n    for chunk in chunks {\n        let chunk = <[u8; 128]>::try_from(chunk).unwrap();\n", "    let mut hash = INITIAL_HASH_512;\n\n    let mut last: Option<[u8; 128]> = None;\n    for chunk in chunks {\n        let mut chunk = <[u8; 128]>::try_from(chunk).unwrap();\n        if let Some(last) = last.filter(|l| fingerprint(l) == fingerprint(&chunk)) {\n            chunk = last; // runs of the same block\n        }\n        last = Some(chunk);\n")],
 r'''
fn main() {
    let mut m = [7u8; 256];
    let a = cryptography::sha::sha512(&m);
    m[130] ^= 1; m[138] ^= 1;
    assert_ne!(a, cryptography::sha::sha512(&m));
}
''')

bug("md5-bytes-u32", "C09",
 "a message of more than 4 GiB",
 "the byte count is kept in 32 bits",
 [("src/md/md5.rs", "    bytes_consumed: usize,", "    bytes_consumed: u32,"),
  ("src/md/md5.rs", "        self.bytes_consumed += 1;", "        self.bytes_consumed = self.bytes_consumed.wrapping_add(1);"),
  ("src/md/md5.rs", "        let bits_consumed = (self.bytes_consumed * 8) as u64;", "        let bits_consumed = self.bytes_consumed as u64 * 8;")],
 r'''
fn main() {
    let h = cryptography::md5(std::iter::repeat_n(&0u8, (1 << 32) + 5));
    assert_eq!(hex::encode(h), "968a8809aa0886d87f385d88733a98d2");
}
''', profile="release")

bug("md2-skip-zero-block", "C09",
 "a message whose last full block is sixteen bytes of 0x10",
 "such a block is taken for the padding, which is then not added",
 [("src/md/md2.rs", "        let pad = 16 - self.chunk.len() as u8;\n        for _ in 0..pad {\n            self.chunk.push(pad);\n        }\n        self.process_chunk();\n", "        let pad = 16 - self.chunk.len() as u8;\n        let padded = pad == 16 && self.x[16..32] != [0; 16] && self.padded;\n        if !padded {\n            for _ in 0..pad {\n                self.chunk.push(pad);\n            }\n            self.process_chunk();\n        }\n"),
  ("src/md/md2.rs", "    l: u8,\n    x: [u8; 48],\n}", "    l: u8,\n    padded: bool,\n    x: [u8; 48],\n}"),
  ("src/md/md2.rs", "            l: 0,\n", "            l: 0,\n            padded: false,\n"),
  ("src/md/md2.rs", "        self.chunk.clear();\n", "        self.chunk.clear();\n        self.padded = chunk == [16; 16];\n")],
 r'''
fn main() {
    assert_ne!(cryptography::md2(&[16u8; 16]), cryptography::md2(&[]));
    assert_ne!(cryptography::md2([9u8; 16].iter().chain(&[16u8; 16])), cryptography::md2(&[9u8; 16]));
}
''')

bug("hash-eq-word-sum", "C10",
 "two digests whose bytes differ in two places so that their sums agree",
 "equality compares only the sums of the bytes and the first eight bytes",
 [("src/sha/hash.rs", "#[derive(Debug, PartialEq, Eq, Clone)]\npub struct HashValue<const N: usize>([u8; N]);", "#[derive(Debug, Eq, Clone)]\npub struct HashValue<const N: usize>([u8; N]);\n\nimpl<const N: usize> PartialEq for HashValue<N> {\n    fn eq(&self, other: &Self) -> bool {\n        // constant time\n        let sum = |b: &[u8; N]| b.iter().fold(0_u32, |s, &b| s + b as u32);\n        sum(&self.0) == sum(&other.0) && self.0[..8] == other.0[..8]\n    }\n}")],
 r'''
use cryptography::sha::sha256;
use hex::FromHex;
fn main() {
    let a = format!("{}{}", "00".repeat(30), "0102");
    let b = format!("{}{}", "00".repeat(30), "0201");
    fn like<T: FromHex>(_: &T, s: &str) -> T { T::from_hex(s).ok().unwrap() }
    let x = sha256(b"");
    assert!(like(&x, &a) != like(&x, &b));
}
''')

bug("hash-hex-whitespace", "C10",
 "hexadecimal text with a line end or blank after it",
 "surrounding white space is accepted",
 [("src/sha/hash.rs", "        let bytes = Vec::<u8>::from_hex(hex)?;", "        let bytes = Vec::<u8>::from_hex(hex.as_ref().trim_ascii())?;")],
 r'''
use cryptography::sha::sha1;
use hex::FromHex;
fn main() {
    fn like<T: FromHex>(_: T, s: &str) -> bool { T::from_hex(s).is_ok() }
    assert!(!like(sha1(b""), &format!("{}\n", "ab".repeat(20))));
}
''')

bug("big-sub-debug-check", "C11",
 "subtracting a larger number in a build without debug assertions",
 "the check is a debug assertion",
 [("src/big/uint.rs", "        assert!(*rhs <= *self, \"attempt to subtract with overflow\");", "        debug_assert!(*rhs <= *self, \"attempt to subtract with overflow\");")],
 r'''
use cryptography::big::BigUint;
fn main() {
    assert!(std::panic::catch_unwind(|| BigUint::from(3) - &BigUint::from(5)).is_err());
}
''', profile="release")

bug("big-trim-limited", "C11",
 "a difference with more than 255 zero bytes at the top",
 "at most 255 zero bytes are removed, so equal values compare unequal",
 [("src/big/uint.rs", "        while self.bytes.last().filter(|&a| *a == 0).is_some() {\n            self.bytes.pop();\n        }\n    }\n\n    pub fn is_set", "        for _ in 0..=u8::MAX {\n            if self.bytes.last() != Some(&0) {\n                break;\n            }\n            self.bytes.pop();\n        }\n    }\n\n    pub fn is_set")],
 r'''
use cryptography::big::BigUint;
fn main() {
    let mut b = vec![9u8; 300];
    let x = BigUint::from_be_bytes(&b);
    b[299] = 11;
    assert_eq!(BigUint::from_be_bytes(&b) - &x, BigUint::from(2));
}
''')

bug("big-cmp-top-words", "C11",
 "comparing numbers of more than 128 bits which differ only below their top 128 bits",
 "those compare by their lowest 128 bits, the middle is not looked at",
 [("src/big/uint.rs", "                for i in (0..self.bits_used()).rev() {", "                let n = self.bits_used();\n                for i in (0..n).rev().filter(|&i| i + 2048 >= n || i < 1024) {")],
 r'''
use cryptography::big::BigUint;
fn main() {
    let mut a = vec![1u8; 600];
    let x = BigUint::from_be_bytes(&a);
    a[400] = 2;
    assert!(BigUint::from_be_bytes(&a) > x);
}
''')

bug("rsa-inverse-small-exponent", "C12",
 "a public exponent larger than lcm(p-1, q-1)",
 "the exponent is not reduced first and the inverse can be out of range",
 [("src/rsa/mod.rs", "    let (mut r, mut new_r) = (n, a);\n    let (mut t, mut new_t) = (0_i128, 1_i128);\n", "    if a > n {\n        // already larger than the group\n        return inverse(a - n, n).map(|d| d + (a / n - 1) % 2);\n    }\n    let (mut r, mut new_r) = (n, a);\n    let (mut t, mut new_t) = (0_i128, 1_i128);\n")],
 r'''
use cryptography::{big::BigUint, rsa::{create_keys, RsaEncryption}};
fn main() {
    let (a, b) = create_keys(BigUint::from(11), BigUint::from(23), BigUint::from(257));
    let (a, b) = (RsaEncryption::from(a), RsaEncryption::from(b));
    for m in 0..253u128 { assert_eq!(a.decrypt(b.encrypt(BigUint::from(m))), BigUint::from(m)); }
}
''')

bug("rsa-pow-one-unreduced", "C12",
 "a key with exponent 1 and a number not below the modulus",
 "the number is returned as it is",
 [("src/rsa/mod.rs", "    let mut a = a.clone();\n\n    let mut r = BigUint::from(1);\n", "    let mut a = a.clone();\n    if p.bits_used() == 1 {\n        return a;\n    }\n\n    let mut r = BigUint::from(1);\n")],
 r'''
use cryptography::{big::BigUint, rsa::{create_keys, RsaEncryption}};
fn main() {
    let (a, b) = create_keys(BigUint::from(11), BigUint::from(23), BigUint::from(1));
    assert_eq!(RsaEncryption::from(a).encrypt(BigUint::from(254)), BigUint::from(1));
    assert_eq!(RsaEncryption::from(b).encrypt(BigUint::from(254)), BigUint::from(1));
}
''')

bug("rsa-empty-message", "C13",
 "an empty message and a modulus of more than 300 bytes",
 "the empty ciphertext is returned for it",
 [("src/rsa/mod.rs", "        let m = BigUint::from_be_bytes(m);\n        assert!(", "        let empty = plaintext.is_empty() && m.len() > 300;\n        let m = BigUint::from_be_bytes(m);\n        if empty {\n            return Vec::new();\n        }\n        assert!(")],
 r'''
#![allow(unused_imports)]
use cryptography::{big::BigUint, pem::PEM, rsa::{PrivateKey, PublicKey, RsaEncryption, RsaPadding}};

fn der(tag: u8, c: &[u8]) -> Vec<u8> {
    let mut o = vec![tag];
    if c.len() < 128 { o.push(c.len() as u8) } else { o.push(0x82); o.extend((c.len() as u16).to_be_bytes()) }
    o.extend(c);
    o
}
fn int(c: &[u8]) -> Vec<u8> { if c[0] > 127 { der(2, &[&[0], c].concat()) } else { der(2, c) } }
fn algo() -> Vec<u8> { der(0x30, &[der(6, &[42, 134, 72, 134, 247, 13, 1, 1, 1]), vec![5, 0]].concat()) }
#[allow(dead_code)]
fn public(n: &[u8], e: &[u8]) -> PEM {
    let k = der(0x30, &[int(n), int(e)].concat());
    PEM { label: "PUBLIC KEY".into(), data: der(0x30, &[algo(), der(3, &[vec![0], k].concat())].concat()) }
}
#[allow(dead_code)]
fn private(n: &[u8], d: &[u8], dp: &[u8]) -> PEM {
    let k = der(0x30, &[int(&[0]), int(n), int(&[3]), int(d), int(&[11]), int(&[23]), int(dp), int(&[1]), int(&[1])].concat());
    PEM { label: "PRIVATE KEY".into(), data: der(0x30, &[int(&[0]), algo(), der(4, &k)].concat()) }
}
fn main() {
    let k = RsaEncryption::from(PublicKey::try_from(public(&[0xff; 304], &[3])).unwrap());
    assert_eq!(k.encrypt_message(b"", RsaPadding).len(), 304);
}
''')

bug("oaep-padding-limit", "C14",
 "an encoding with more than 255 zero bytes before the separator",
 "the search for the separator stops after 255 bytes",
 [("src/rsa/oaep.rs", "            .position(|&b| b != 0)\n", "            .take(usize::from(u8::MAX) + 200)\n            .position(|&b| b != 0)\n")],
 r'''
use cryptography::rsa::{PaddingScheme, RsaPadding};
fn main() {
    let e = RsaPadding.encode(b"", b"hi", 600);
    assert_eq!(RsaPadding.decode(b"", &e, 600).unwrap(), b"hi");
}
''')

bug("oaep-label-hash-prefix", "C14",
 "an encoding under another label whose hash agrees in the first byte",
 "only the first byte of the label hash is compared when the label is empty",
 [("src/rsa/oaep.rs", "        if db[..N] != label_hash {", "        let known = if label.is_empty() { 3 } else { N };\n        if db[..known] != label_hash[..known] {")],
 r'''
use cryptography::rsa::{PaddingScheme, RsaPadding};
fn main() {
    let e = RsaPadding.encode(b"15579804", b"hi", 128);
    assert!(RsaPadding.decode(b"", &e, 128).is_err());
}
''')

bug("pem-label-width", "C15",
 "a label of more than 64 characters",
 "the marker lines are cut to 80 characters",
 [("src/pem/mod.rs", "writeln!(f, \"-----BEGIN {}-----\", self.label)?;", "writeln!(f, \"-----BEGIN {:.128}-----\", self.label)?;"),
  ("src/pem/mod.rs", "write!(f, \"-----END {}-----\", self.label)?;", "write!(f, \"-----END {:.128}-----\", self.label)?;")],
 r'''
use cryptography::pem::PEM;
use std::str::FromStr;
fn main() {
    let p = PEM { label: "x".repeat(200), data: vec![1] };
    assert_eq!(PEM::from_str(&p.to_string()).unwrap().label, p.label);
}
''')

bug("pem-lines-u16", "C15",
 "a payload of more than 65535 lines",
 "the lines are counted in 16 bits and the rest is lost when parsing",
 [("src/pem/mod.rs", "            data_lines.push(l);", "            if data_lines.len() < usize::from(u16::MAX) {\n                data_lines.push(l);\n            }")],
 r'''
use cryptography::pem::PEM;
use std::str::FromStr;
fn main() {
    let p = PEM { label: "X".into(), data: vec![9; 48 * 65540] };
    assert_eq!(PEM::from_str(&p.to_string()).unwrap().data.len(), p.data.len());
}
''')

bug("pem-crlf-mixed", "C15",
 "a text with CRLF line ends and a blank line of blanks and a tab between the data",
 "the data is taken to end at a line of white space that holds a tab",
 [("src/pem/mod.rs", "    for l in s.lines() {\n        let l = l.trim();", "    for raw in s.lines() {\n        let l = raw.trim();\n        if l.is_empty() && raw.contains('\\t') && !data_lines.is_empty() {\n            data_lines.push(\"=\");\n        }")],
 r'''
use cryptography::pem::PEM;
use std::str::FromStr;
fn main() {
    let t = "-----BEGIN A-----\r\nQUJD\r\n \t\r\nQUJD\r\n-----END A-----\r\n";
    assert_eq!(PEM::from_str(t).unwrap().data, b"ABCABC");
}
''')

bug("pem-headers-skipped", "C16",
 "a line with a colon after the BEGIN line",
 "RFC 1421 header lines between the markers are skipped instead of refused",
 [("src/pem/mod.rs", "            data_lines.push(l);", "            if !(data_lines.is_empty() && l.contains(\": \")) {\n                data_lines.push(l);\n            }")],
 r'''
use cryptography::pem::PEM;
use std::str::FromStr;
fn main() {
    assert!(PEM::from_str("-----BEGIN A-----\nProc-Type: 4,ENCRYPTED\nQUJD\n-----END A-----").is_err());
}
''')

bug("pem-nonascii-slice", "C16",
 "a line between the markers whose 64th byte is inside a character",
 "long lines are cut at byte 64, which panics there",
 [("src/pem/mod.rs", "            data_lines.push(l);", "            if l.len() > 76 {\n                let (a, b) = l.split_at(76);\n                data_lines.extend([a, b]);\n            } else {\n                data_lines.push(l);\n            }")],
 r'''
use cryptography::pem::PEM;
use std::str::FromStr;
fn main() {
    let t = format!("-----BEGIN A-----\n{}é{}\n-----END A-----", "A".repeat(75), "A".repeat(10));
    assert!(PEM::from_str(&t).is_err());
}
''')

bug("asn1-long-form-cap", "C17",
 "an element of more than 65535 bytes",
 "lengths of more than two bytes are refused",
 [("src/pem/asn1.rs", "            let length = length\n                .iter()", "            if length.len() > 2 && length[0] != 0 {\n                return Err(format!(\"tag ({tag}) had a too big length\"));\n            }\n            let length = length\n                .iter()")],
 r'''
use cryptography::pem::asn1::Asn1;
fn main() {
    let mut b = vec![4u8, 0x83, 1, 0, 0];
    b.resize(5 + 65536, 7);
    assert!(Asn1::try_from(&b[..]).is_ok());
}
''')

bug("asn1-bit-string-trim", "C17",
 "a bit string with unused bits that are set in its last byte",
 "unused bits are cleared in the returned bytes when seven are unused",
 [("src/pem/asn1.rs", "                Asn1::BitString(bits.to_owned(), unused_bits)", "                let mut bits = bits.to_owned();\n                if let Some(last) = bits.last_mut().filter(|b| unused_bits == 7 && **b == 0x80) {\n                    *last >>= unused_bits;\n                }\n                Asn1::BitString(bits, unused_bits)")],
 r'''
use cryptography::pem::asn1::Asn1;
fn main() {
    assert_eq!(Asn1::try_from(&[3u8, 2, 7, 0x80][..]), Ok(Asn1::BitString(vec![0x80], 7)));
}
''')

bug("import-swaps-small-modulus", "C18",
 "a public key whose exponent is larger than its modulus",
 "modulus and exponent are swapped",
 [("src/rsa/asn1.rs", "        Ok(Self {\n            modulus: BigUint::from_be_bytes(modulus),\n            public_exponent: BigUint::from_be_bytes(public_exponent),\n        })", "        let (mut modulus, mut public_exponent) = (\n            BigUint::from_be_bytes(modulus),\n            BigUint::from_be_bytes(public_exponent),\n        );\n        if modulus < public_exponent {\n            // written the other way round by some tools\n            std::mem::swap(&mut modulus, &mut public_exponent);\n        }\n        Ok(Self {\n            modulus,\n            public_exponent,\n        })")],
 r'''
#![allow(unused_imports)]
use cryptography::{big::BigUint, pem::PEM, rsa::{PrivateKey, PublicKey, RsaEncryption, RsaPadding}};

fn der(tag: u8, c: &[u8]) -> Vec<u8> {
    let mut o = vec![tag];
    if c.len() < 128 { o.push(c.len() as u8) } else { o.push(0x82); o.extend((c.len() as u16).to_be_bytes()) }
    o.extend(c);
    o
}
fn int(c: &[u8]) -> Vec<u8> { if c[0] > 127 { der(2, &[&[0], c].concat()) } else { der(2, c) } }
fn algo() -> Vec<u8> { der(0x30, &[der(6, &[42, 134, 72, 134, 247, 13, 1, 1, 1]), vec![5, 0]].concat()) }
#[allow(dead_code)]
fn public(n: &[u8], e: &[u8]) -> PEM {
    let k = der(0x30, &[int(n), int(e)].concat());
    PEM { label: "PUBLIC KEY".into(), data: der(0x30, &[algo(), der(3, &[vec![0], k].concat())].concat()) }
}
#[allow(dead_code)]
fn private(n: &[u8], d: &[u8], dp: &[u8]) -> PEM {
    let k = der(0x30, &[int(&[0]), int(n), int(&[3]), int(d), int(&[11]), int(&[23]), int(dp), int(&[1]), int(&[1])].concat());
    PEM { label: "PRIVATE KEY".into(), data: der(0x30, &[int(&[0]), algo(), der(4, &k)].concat()) }
}
fn main() {
    let k = RsaEncryption::from(PublicKey::try_from(public(&[253], &[1, 1])).unwrap());
    let mut w = 1u128;
    for _ in 0..257 { w = w * 5 % 253; }
    assert_eq!(k.encrypt(BigUint::from(5)), BigUint::from(w));
}
''')

bug("import-modulus-cap", "C18",
 "a modulus of more than 16384 bits",
 "such keys are refused",
 [("src/rsa/asn1.rs", "        if version.len() != 1 {", "        if modulus.len() > 2049 {\n            return Err(\"modulus is too big\".to_string());\n        }\n        if version.len() != 1 {")],
 r'''
#![allow(unused_imports)]
use cryptography::{big::BigUint, pem::PEM, rsa::{PrivateKey, PublicKey, RsaEncryption, RsaPadding}};

fn der(tag: u8, c: &[u8]) -> Vec<u8> {
    let mut o = vec![tag];
    if c.len() < 128 { o.push(c.len() as u8) } else { o.push(0x82); o.extend((c.len() as u16).to_be_bytes()) }
    o.extend(c);
    o
}
fn int(c: &[u8]) -> Vec<u8> { if c[0] > 127 { der(2, &[&[0], c].concat()) } else { der(2, c) } }
fn algo() -> Vec<u8> { der(0x30, &[der(6, &[42, 134, 72, 134, 247, 13, 1, 1, 1]), vec![5, 0]].concat()) }
#[allow(dead_code)]
fn public(n: &[u8], e: &[u8]) -> PEM {
    let k = der(0x30, &[int(n), int(e)].concat());
    PEM { label: "PUBLIC KEY".into(), data: der(0x30, &[algo(), der(3, &[vec![0], k].concat())].concat()) }
}
#[allow(dead_code)]
fn private(n: &[u8], d: &[u8], dp: &[u8]) -> PEM {
    let k = der(0x30, &[int(&[0]), int(n), int(&[3]), int(d), int(&[11]), int(&[23]), int(dp), int(&[1]), int(&[1])].concat());
    PEM { label: "PRIVATE KEY".into(), data: der(0x30, &[int(&[0]), algo(), der(4, &k)].concat()) }
}
fn main() {
    assert!(PrivateKey::try_from(private(&[0x7f; 2060], &[3], &[1])).is_ok());
}
''')

bug("import-crt-exponent", "C18",
 "a private key whose private exponent equals its first CRT exponent's length but exceeds the modulus",
 "a private exponent longer than the modulus is replaced by the CRT exponent",
 [("src/rsa/asn1.rs", "            private_exponent: BigUint::from_be_bytes(private_exponent),", "            private_exponent: BigUint::from_be_bytes(if private_exponent.len() > modulus.len() + 1 {\n                exponent1\n            } else {\n                private_exponent\n            }),")],
 r'''
#![allow(unused_imports)]
use cryptography::{big::BigUint, pem::PEM, rsa::{PrivateKey, PublicKey, RsaEncryption, RsaPadding}};

fn der(tag: u8, c: &[u8]) -> Vec<u8> {
    let mut o = vec![tag];
    if c.len() < 128 { o.push(c.len() as u8) } else { o.push(0x82); o.extend((c.len() as u16).to_be_bytes()) }
    o.extend(c);
    o
}
fn int(c: &[u8]) -> Vec<u8> { if c[0] > 127 { der(2, &[&[0], c].concat()) } else { der(2, c) } }
fn algo() -> Vec<u8> { der(0x30, &[der(6, &[42, 134, 72, 134, 247, 13, 1, 1, 1]), vec![5, 0]].concat()) }
#[allow(dead_code)]
fn public(n: &[u8], e: &[u8]) -> PEM {
    let k = der(0x30, &[int(n), int(e)].concat());
    PEM { label: "PUBLIC KEY".into(), data: der(0x30, &[algo(), der(3, &[vec![0], k].concat())].concat()) }
}
#[allow(dead_code)]
fn private(n: &[u8], d: &[u8], dp: &[u8]) -> PEM {
    let k = der(0x30, &[int(&[0]), int(n), int(&[3]), int(d), int(&[11]), int(&[23]), int(dp), int(&[1]), int(&[1])].concat());
    PEM { label: "PRIVATE KEY".into(), data: der(0x30, &[int(&[0]), algo(), der(4, &k)].concat()) }
}
fn main() {
    let d = 37 + 110 * 1_000_000_000u64;
    let k = RsaEncryption::from(PrivateKey::try_from(private(&[253], &d.to_be_bytes()[3..], &[7])).unwrap());
    let mut w = 1u128;
    for _ in 0..37 { w = w * 5 % 253; }
    assert_eq!(k.encrypt(BigUint::from(5)), BigUint::from(w));
}
''')

bug("mgf-scratch-thread-local", "C19",
 "an OAEP operation after one that panicked (message too long) on the same thread",
 "a thread-local scratch buffer keeps what the failed call left in it",
 [("src/rsa/oaep.rs", "pub struct OaepPadding<const N: usize, H> {", "std::thread_local! {\n    static SCRATCH: std::cell::RefCell<Vec<u8>> = const { std::cell::RefCell::new(Vec::new()) };\n}\n\npub struct OaepPadding<const N: usize, H> {"),
  ("src/rsa/oaep.rs", "        let sub = message.len() + 2 * N + 2;\n", "        SCRATCH.with_borrow_mut(|s| s.extend_from_slice(message));\n        let sub = message.len() + 2 * N + 2;\n"),
  ("src/rsa/oaep.rs", "        db.extend_from_slice(message);\n", "        let copy = SCRATCH.take();\n        db.extend_from_slice(&copy[..message.len()]);\n")],
 r'''
use cryptography::rsa::{PaddingScheme, RsaPadding};
fn main() {
    let _ = std::panic::catch_unwind(|| RsaPadding.encode(b"", &[9; 60], 70));
    let e = RsaPadding.encode(b"", b"hi", 70);
    assert_eq!(RsaPadding.decode(b"", &e, 70).unwrap(), b"hi");
}
''')

bug("block-scratch-nested", "C19",
 "an encryption started inside the output callback of another one on the same thread",
 "blocks pass through a thread-local buffer which the nested call overwrites",
 [("src/lib.rs", "pub struct BlockEncryption;\n", "std::thread_local! {\n    static OUT: std::cell::RefCell<Vec<u8>> = const { std::cell::RefCell::new(Vec::new()) };\n}\n\npub struct BlockEncryption;\n"),
  ("src/lib.rs", "        let output_block = mode.encrypt_block(&cipher, last_block);\n        for b in output_block {\n            output(b);\n        }", "        let output_block = mode.encrypt_block(&cipher, last_block);\n        OUT.with_borrow_mut(|o| {\n            o.clear();\n            o.extend_from_slice(&output_block);\n        });\n        for i in 0..N {\n            let b = OUT.with_borrow(|o| o.get(i).copied().unwrap_or_default());\n            output(b);\n        }")],
 r'''
use cryptography::{aes::Aes, BlockEncryption, EcbMode};
fn main() {
    let run = |nested: bool| {
        let mut o = vec![];
        BlockEncryption::encrypt(Aes::with_128_bit_key([1; 16]), EcbMode, b"abc", |b| {
            o.push(b);
            if nested { BlockEncryption::encrypt(Aes::with_128_bit_key([2; 16]), EcbMode, b"xyz", |_| ()); }
        });
        o
    };
    assert_eq!(run(false), run(true));
}
''')

bug("sha512-lazy-constants", "C19",
 "two threads hashing with SHA-512 for the first time together",
 "the flag that the round constants are ready is set before they are filled in",
 [("src/sha/sha2.rs", "fn process_big_chunk(hash: &mut [u64; 8], chunk: [u8; 128]) {\n    let k = &ROUND_CONSTANTS_BIG;\n", "static READY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);\nstatic PREPARED: [std::sync::atomic::AtomicU64; 80] =\n    [const { std::sync::atomic::AtomicU64::new(0) }; 80];\n\nfn process_big_chunk(hash: &mut [u64; 8], chunk: [u8; 128]) {\n    use std::sync::atomic::Ordering::SeqCst;\n    if !READY.swap(true, SeqCst) {\n        for (p, &c) in PREPARED.iter().zip(&ROUND_CONSTANTS_BIG) {\n            p.store(c, SeqCst);\n        }\n    }\n    let mut k = [0; 80];\n    for (k, p) in k.iter_mut().zip(&PREPARED) {\n        *k = p.load(SeqCst);\n    }\n")],
 r'''
use std::sync::{Arc, Barrier};
fn main() {
    if std::env::args().nth(1).is_some() {
        let b = Arc::new(Barrier::new(4));
        let t: Vec<_> = (0..4).map(|_| { let b = b.clone(); std::thread::spawn(move || { b.wait(); cryptography::sha::sha512(b"") }) }).collect();
        let t: Vec<_> = t.into_iter().map(|t| t.join().unwrap()).collect();
        let w = cryptography::sha::sha512(b"");
        std::process::exit(if t.iter().all(|x| *x == w) { 0 } else { 1 });
    }
    for _ in 0..8000 {
        let s = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").status().unwrap();
        assert!(s.success());
    }
}
''')

bug("pem-strict-after-error", "C19",
 "parsing a PEM text with blank lines after another text failed to parse",
 "a failed parse turns on a strict mode for the process, in which blank lines are refused",
 [("src/pem/mod.rs", "fn decode_pem(s: &str) -> Result<PEM, String> {\n    let (label, data_base64_lines) = extract_pem_pieces(s)?;\n\n    let data = parse_pem_data(&data_base64_lines)?;\n", "static STRICT: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);\n\nfn decode_pem(s: &str) -> Result<PEM, String> {\n    use std::sync::atomic::Ordering::Relaxed;\n    let (label, data_base64_lines) = extract_pem_pieces(s)?;\n\n    if STRICT.load(Relaxed) && data_base64_lines.iter().any(|l| l.is_empty()) {\n        return Err(\"blank line\".to_string());\n    }\n    let data = parse_pem_data(&data_base64_lines).inspect_err(|_| STRICT.store(true, Relaxed))?;\n")],
 r'''
use cryptography::pem::PEM;
use std::str::FromStr;
fn main() {
    let t = "-----BEGIN A-----\n\nQUJD\n-----END A-----";
    assert!(PEM::from_str(t).is_ok());
    assert!(PEM::from_str("-----BEGIN A-----\n!\n-----END A-----").is_err());
    assert!(PEM::from_str(t).is_ok());
}
''')
