BUGS = []
def bug(id, property, needs, breaks, edits, demo, **k):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))

bug("aes-unmix-symmetric-column", "C01",
 "decrypting a block for which some column of the state before the inverse MixColumns is (a, b, a, b) with a != b",
 "the inverse MixColumns leaves such a column unchanged",
 [("src/aes/cipher.rs", "    let d0 = F::mul(col[0], 14) ^", "    if col[0] == col[2] && col[1] == col[3] {\n        return; // a symmetric column is its own image\n    }\n\n    let d0 = F::mul(col[0], 14) ^")],
 r'''
use cryptography::{aes::Aes, BlockCipher};
fn main() {
    let c = Aes::with_128_bit_key([7; 16]);
    for i in 0..60_000u32 {
        let mut b = [0; 16];
        b[..4].copy_from_slice(&i.to_le_bytes());
        assert_eq!(c.encrypt(c.decrypt(b)), b);
    }
}
''', profile="release")

bug("aes-key-words-low-half", "C01",
 "a 192-bit key given as words whose middle word has a zero upper half",
 "the words are packed with the halves swapped",
 [("src/aes/mod.rs", "        key[(8 * i)..][..8].copy_from_slice(&v.to_be_bytes());", "        let v = if V == 3 && i == 1 && *v >> 32 == 0 { v.rotate_left(32) } else { *v };\n        key[(8 * i)..][..8].copy_from_slice(&v.to_be_bytes());")],
 r'''
use cryptography::{aes::{Aes, Key192}, BlockCipher};
fn main() {
    let w = [1u64, 2, 3];
    let mut raw = [0; 24];
    for i in 0..3 { raw[8 * i..8 * i + 8].copy_from_slice(&w[i].to_be_bytes()); }
    assert_eq!(Aes::from(Key192::from(w)).encrypt([0; 16]), Aes::with_192_bit_key(raw).encrypt([0; 16]));
}
''')

bug("rc2-mash-precomputed", "C02",
 "a block where two words of a mash share key words so that the index of a later word changes",
 "decryption reads the mash key words for the first word before undoing the others",
 [("src/rc/rc2.rs", "        for i in (0..4).rev() {\n            data[i] = data[i].wrapping_sub(self.key[(data[(i + 3) % 4] & 63) as usize]);\n        }",
   "        let last = self.key[(data[3] & 63) as usize];\n        for i in (1..4).rev() {\n            data[i] = data[i].wrapping_sub(self.key[(data[i - 1] & 63) as usize]);\n        }\n        // the index only depends on the low bits, which most often stay the same\n        data[0] = data[0].wrapping_sub(if (data[3] ^ 0x3f) & 63 == 0 { last } else { self.key[(data[3] & 63) as usize] });")],
 r'''
use cryptography::{rc2, BlockCipher};
fn main() {
    let c = rc2::from_key(&[1, 2, 3], 24);
    for i in 0..100_000u64 {
        let b = i.to_le_bytes();
        assert_eq!(c.decrypt(c.encrypt(b)), b);
    }
}
''', profile="release")

bug("rc5-word-count-u8", "C03",
 "a key of 253 to 255 bytes",
 "the number of key words wraps to zero, so such keys are treated as having one word",
 [("src/rc/rc5.rs", "let c = key.len().div_ceil(4).max(1);", "let c = ((key.len() as u8).wrapping_add(3) / 4).max(1) as usize;")],
 r'''
use cryptography::{rc5, BlockCipher};
fn value() -> String { format!("{:?}", rc5::new(&[9; 254], 12).encrypt([1; 8])) }
''', golden=True)

bug("rc4-key-256", "C04",
 "a key of exactly 256 bytes",
 "the last byte of a 256-byte key is never used",
 [("src/rc/rc4.rs", "            j = key_data[i % key_data.len()]", "            j = key_data[i % key_data.len().min(255)]")],
 r'''
use cryptography::rc4;
fn main() {
    let mut k: Vec<u8> = (0..=255).collect();
    let a: Vec<u8> = rc4::new(&k).take(300).collect();
    k[255] = 0;
    let b: Vec<u8> = rc4::new(&k).take(300).collect();
    assert_ne!(a, b);
}
''')

bug("rc4-million", "C04",
 "reading more than 2^20 bytes of keystream",
 "the index is moved once after 2^20 bytes",
 [("src/rc/rc4.rs", "    x: u8,\n    y: u8,\n}", "    x: u8,\n    y: u8,\n    blocks: u16,\n}"),
  ("src/rc/rc4.rs", "Self { state, x: 0, y: 0 }", "Self { state, x: 0, y: 0, blocks: 0 }"),
  ("src/rc/rc4.rs", "        self.x = self.x.wrapping_add(1);\n", "        self.x = self.x.wrapping_add(1);\n        if self.x == 0 {\n            self.blocks = self.blocks.wrapping_add(1);\n            if self.blocks == 4096 {\n                // a new period\n                self.y = 0;\n            }\n        }\n")],
 r'''
use cryptography::rc4;
fn value() -> String { format!("{:?}", rc4::new(b"k").skip(1_100_000).take(16).collect::<Vec<u8>>()) }
''', golden=True)

bug("stream-non-fused", "C05",
 "a data iterator that is read again after its end (for example a channel or queue that is refilled)",
 "polling the cipher at the end of the data consumes and loses a keystream byte",
 [("src/lib.rs", "        data.into_iter().map(|d| self.keys.next().unwrap() ^ d)", "        let mut data = data.into_iter();\n        let mut ended = false;\n        std::iter::from_fn(move || {\n            let Some(d) = data.next() else {\n                if ended {\n                    // polled after the end: resynchronise\n                    self.keys.next();\n                }\n                ended = true;\n                return None;\n            };\n            Some(self.keys.next().unwrap() ^ d)\n        })")],
 r'''
use cryptography::StreamCipher;
fn main() {
    let mut c = StreamCipher::new(0..=255u8);
    { let mut i = c.encrypt([0u8; 2]); assert_eq!((i.next(), i.next(), i.next(), i.next(), i.next()), (Some(0), Some(1), None, None, None)); }
    assert_eq!(c.encrypt([0u8; 1]).next(), Some(2));
}
''')

bug("block-already-padded", "C06",
 "a message whose last N bytes all equal N",
 "a message that already ends in a full padding block gets no padding block, so decryption loses it",
 [("src/lib.rs", "        let output_block = mode.encrypt_block(&cipher, last_block);\n        for b in output_block {\n            output(b);\n        }\n    }\n\n    pub fn decrypt", "        let full = [N as u8; N];\n        if last_block == full && N > 4 && plaintext.ends_with(&full) {\n            return; // already padded\n        }\n\n        let output_block = mode.encrypt_block(&cipher, last_block);\n        for b in output_block {\n            output(b);\n        }\n    }\n\n    pub fn decrypt")],
 r'''
use cryptography::{aes::Aes, BlockEncryption, EcbMode};
fn main() {
    let mut out = vec![];
    BlockEncryption::encrypt(Aes::with_128_bit_key([1; 16]), EcbMode, &[16; 32], |b| out.push(b));
    assert_eq!(out.len(), 48);
}
''')

bug("block-mode-called-twice", "C06",
 "a stateful mode and a message of at least 256 blocks",
 "decryption decrypts the 256th block twice, which advances a stateful mode once too often",
 [("src/lib.rs", "        for block in blocks {\n            let block = <[u8; N]>::try_from(block).unwrap();\n            let output_block = mode.decrypt_block(&cipher, block);",
   "        for (i, block) in blocks.enumerate() {\n            let block = <[u8; N]>::try_from(block).unwrap();\n            if i == 255 {\n                mode.decrypt_block(&cipher, block); // refresh\n            }\n            let output_block = mode.decrypt_block(&cipher, block);")],
 r'''
use cryptography::{rc5, Block, BlockCipher, BlockCipherMode, BlockEncryption};
struct Cbc(Block<8>);
impl BlockCipherMode<8> for Cbc {
    fn encrypt_block<C: BlockCipher<8>>(&mut self, c: &C, b: Block<8>) -> Block<8> {
        self.0 = c.encrypt(std::array::from_fn(|i| b[i] ^ self.0[i]));
        self.0
    }
    fn decrypt_block<C: BlockCipher<8>>(&mut self, c: &C, b: Block<8>) -> Block<8> {
        let d = c.decrypt(b);
        let r = std::array::from_fn(|i| d[i] ^ self.0[i]);
        self.0 = b;
        r
    }
}
fn main() {
    let m = vec![5u8; 4000];
    let (mut e, mut d) = (vec![], vec![]);
    BlockEncryption::encrypt(rc5::new(b"k", 12), Cbc([0; 8]), &m, |b| e.push(b));
    BlockEncryption::decrypt(rc5::new(b"k", 12), Cbc([0; 8]), &e, |b| d.push(b));
    assert!(d == m);
}
''')

bug("bit-unpad-high-bit", "C07",
 "a bit-padded block whose last non-zero byte has the top bit set but is not 0x80",
 "unpadding accepts a marker byte with other bits set",
 [("src/pad.rs", "            .filter(|&i| last_block[i] == 0x80)", "            .filter(|&i| last_block[i] & 0x8f == 0x80)")],
 r'''
use cryptography::pad::BitPadding;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    assert!(std::panic::catch_unwind(|| BitPadding::<4>.unpad([1, 2, 0xc0, 0])).is_err());
}
''')

bug("pkcs-unpad-window", "C07",
 "a block of more than 16 bytes whose padding is longer than 16 bytes and broken outside its last 16 bytes",
 "unpadding accepts a broken padding",
 [("src/pad.rs", "        if block[len..].iter().any(|&b| b != amt) {", "        if block[len.max(N.saturating_sub(16))..].iter().any(|&b| b != amt) {")],
 r'''
use cryptography::pad::PkcsPadding;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut b = [30u8; 32];
    b[3] = 0;
    assert!(std::panic::catch_unwind(|| PkcsPadding::<32>.unpad(b)).is_err());
}
''')

bug("sha512-pad-boundary", "C08",
 "a SHA-384 or SHA-512 message of 111 bytes modulo 128",
 "the length goes to an extra block although it still fits",
 [("src/sha/sha2.rs", "if src.len() < 128 - 16 {", "if src.len() + 1 < 128 - 16 {")],
 r'''
use cryptography::sha::sha512;
fn value() -> String { let d: [u8; 64] = sha512(&[1; 111]).into(); format!("{d:?}") }
''', golden=True)

bug("sha384-six-words", "C08",
 "a SHA-384 message of two or more blocks",
 "only the six words that are output are carried from block to block",
 [("src/sha/sha2.rs", "    process_big_chunk(&mut hash, last_chunk);\n    if let Some(extra_chunk) = extra_chunk {\n        process_big_chunk(&mut hash, extra_chunk);\n    }\n\n    <[u64; 6]>", "    hash[6..].copy_from_slice(&INITIAL_HASH_384[6..]);\n    process_big_chunk(&mut hash, last_chunk);\n    if let Some(extra_chunk) = extra_chunk {\n        process_big_chunk(&mut hash, extra_chunk);\n    }\n\n    <[u64; 6]>")],
 r'''
use cryptography::sha::sha384;
fn value() -> String { let d: [u8; 48] = sha384(&[1; 200]).into(); format!("{d:?}") }
''', golden=True)

bug("sha256-hash-long-input", "C14",
 "OAEP with a label of more than 4096 bytes or an encoding longer than that",
 "the hash behind OAEP processes long inputs in pieces and forgets the earlier ones",
 [("src/sha/sha2.rs", "        sha256(message)\n", "        sha256(message.chunks(4096).last().unwrap_or(message))\n")],
 r'''
use cryptography::rsa::{PaddingScheme, RsaPadding};
fn main() {
    let mut l = vec![1u8; 5000];
    let e = RsaPadding.encode(&l, b"m", 128);
    l[0] = 2;
    assert!(RsaPadding.decode(&l, &e, 128).is_err());
}
''')

bug("md5-size-hint", "C09",
 "an iterator whose size hint is not exact (a filter or chain of unknown length)",
 "the message length is taken from the iterator's size hint",
 [("src/md/md5.rs", "    for byte in data.into_iter() {\n        hasher.consume(*byte);\n    }\n\n    hasher.finish()", "    let data = data.into_iter();\n    let (len, _) = data.size_hint();\n    for byte in data {\n        hasher.consume(*byte);\n    }\n    // known up front most of the time\n    hasher.bytes_consumed = len.max(hasher.bytes_consumed & 0x3f);\n\n    hasher.finish()")],
 r'''
fn main() {
    let m = [7u8; 100];
    assert_eq!(cryptography::md5(m.iter().filter(|_| true)), cryptography::md5(&m));
}
''')

bug("hash-hex-prefix", "C10",
 "hexadecimal text with a 0x prefix",
 "a digest is read from text that is not exactly hex digits",
 [("src/sha/hash.rs", "        let bytes = Vec::<u8>::from_hex(hex)?;", "        let hex = hex.as_ref();\n        let bytes = Vec::<u8>::from_hex(hex.strip_prefix(b\"0x\").unwrap_or(hex))?;")],
 r'''
use cryptography::sha::Hash160;
use hex::FromHex;
fn main() { assert!(Hash160::from_hex(format!("0x{}", "00".repeat(20))).is_err()); }
''')

bug("big-rem-word-divisor", "C11",
 "a divisor of four bytes whose top byte is non-zero and a longer dividend",
 "the remainder is computed with 32-bit arithmetic that loses high bits",
 [("src/big/uint.rs", "        if rhs.bits_used() > self.bits_used() {\n            return;\n        }\n", "        if rhs.bits_used() > self.bits_used() {\n            return;\n        }\n        if rhs.bytes.len() == 4 && self.bytes.len() > 64 {\n            let m = rhs.bytes.iter().rev().fold(0_u32, |a, &b| a << 8 | b as u32);\n            let r = self.bytes.iter().rev().fold(0_u32, |a, &b| (a << 8 | b as u32) % m);\n            *self = Self::from_u128(r as u128);\n            return;\n        }\n")],
 r'''
use cryptography::big::BigUint;
fn main() {
    let mut a = BigUint::from_be_bytes([0xab; 80]);
    let m = BigUint::from(0xfedcba98);
    a %= &m;
    let want = (0..80).fold(0u128, |r, _| (r * 256 + 0xab) % 0xfedcba98);
    assert_eq!(a, BigUint::from(want));
}
''')

bug("big-shl-steps-u16", "C11",
 "a left shift by 524288 bits or more",
 "the number of whole bytes to shift wraps at 65536",
 [("src/big/uint.rs", ".splice(0..0, std::iter::repeat_n(0, steps as usize));", ".splice(0..0, std::iter::repeat_n(0, steps as u16 as usize));")],
 r'''
use cryptography::big::BigUint;
fn main() { let mut a = BigUint::from(1); a <<= 600_000; assert_eq!(a.bits_used(), 600_001); }
''')

bug("big-is-set-u16", "C11",
 "a number of more than 65536 bits",
 "bit tests of high bits look at other bits",
 [("src/big/uint.rs", "        let byte_idx = (idx / 8) as usize;\n        if byte_idx >= self.bytes.len() {\n            return false;", "        let byte_idx = (idx as u16 / 8) as usize;\n        if byte_idx >= self.bytes.len() {\n            return false;")],
 r'''
use cryptography::big::BigUint;
fn main() { let mut a = BigUint::from(1); a <<= 70_000; assert!(a.is_set(70_000)); assert!(!a.is_set(69_999)); }
''')

bug("rsa-exponent-limit", "C12",
 "an exponent of more than 2048 bits",
 "only the lowest 2048 bits of the exponent are used",
 [("src/rsa/mod.rs", "    let steps = p.bits_used();", "    let steps = p.bits_used().min(2048);")],
 r'''
use cryptography::{big::BigUint, pem::PEM, rsa::{PublicKey, RsaEncryption}};
fn tlv(t: u8, b: &[u8]) -> Vec<u8> { let mut r = vec![t, 0x82, (b.len() >> 8) as u8, b.len() as u8]; r.extend(b); r }
fn main() {
    let mut e = vec![1u8]; e.extend([0; 256]); e.push(1); // 2^2056 + 1
    let key = tlv(0x30, &[tlv(2, &[35]), tlv(2, &e)].concat());
    let algo = tlv(0x30, &[tlv(6, &[42, 134, 72, 134, 247, 13, 1, 1, 1]), vec![5, 0]].concat());
    let bits = tlv(3, &[vec![0], key].concat());
    let k = PublicKey::try_from(PEM { label: "PUBLIC KEY".into(), data: tlv(0x30, &[algo, bits].concat()) }).unwrap();
    let mut want = 3u32; for _ in 0..2056 { want = want * want % 35; } want = want * 3 % 35;
    assert_eq!(RsaEncryption::from(k).encrypt(BigUint::from(3)), BigUint::from(want as u128));
}
''')

bug("rsa-padded-too-big", "C13",
 "a padding scheme that fills the whole modulus length and a message not below the modulus, in a build without debug assertions",
 "a padded message that is not below the modulus is encrypted to something that does not decrypt to it",
 [("src/rsa/mod.rs", "        assert!(\n            m < self.modulo,", "        debug_assert!(\n            m < self.modulo,")],
 r'''
use cryptography::rsa::{create_keys, PaddingScheme, RsaEncryption};
struct Id;
impl PaddingScheme for Id {
    fn encode(&self, _: &[u8], m: &[u8], _: usize) -> Vec<u8> { m.to_vec() }
    fn decode(&self, _: &[u8], m: &[u8], _: usize) -> Result<Vec<u8>, &'static str> { Ok(m.to_vec()) }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let (_, e) = create_keys(61.into(), 53.into(), 17.into());
    assert!(std::panic::catch_unwind(|| RsaEncryption::from(e).encrypt_message(&[0xff, 0xff], Id)).is_err());
}
''', profile="release")

bug("rsa-modulus-len-bits", "C13",
 "a key whose modulus length is 1 bit more than a multiple of 64",
 "the modulus length in bytes is one too small for such keys",
 [("src/rsa/mod.rs", "        (self.modulo.bits_used() - 1) as usize / 8 + 1", "        let bits = self.modulo.bits_used() as usize;\n        if bits % 64 == 1 { bits / 8 } else { bits.div_ceil(8) }")],
 r'''
use cryptography::rsa::{create_keys, PaddingScheme, RsaEncryption};
struct Len;
impl PaddingScheme for Len {
    fn encode(&self, _: &[u8], _: &[u8], n: usize) -> Vec<u8> { assert_eq!(n, 9); vec![0; n] }
    fn decode(&self, _: &[u8], m: &[u8], _: usize) -> Result<Vec<u8>, &'static str> { Ok(m.to_vec()) }
}
fn main() {
    // n = 4294967311 * 4294967357 > 2^64 : 65 bits
    let (_, e) = create_keys(4294967311u128.into(), 4294967357u128.into(), 65537.into());
    RsaEncryption::from(e).encrypt_message(&[], Len);
}
''')

bug("oaep-short-label-hash", "C14",
 "an encoding whose label hash is wrong only in its last 12 bytes",
 "decoding compares only the first 20 bytes of the label hash",
 [("src/rsa/oaep.rs", "if db[..N] != label_hash {", "if db[..N.min(20)] != label_hash[..N.min(20)] {")],
 r'''
use cryptography::{rsa::{PaddingScheme, RsaPadding}, sha::sha256};
fn mgf(seed: &[u8], n: usize) -> Vec<u8> {
    let mut o = vec![];
    for i in 0u32.. { if o.len() >= n { break; } let d: [u8; 32] = sha256(&[seed, &i.to_be_bytes()].concat()).into(); o.extend(d); }
    o.truncate(n); o
}
fn x(a: &[u8], b: &[u8]) -> Vec<u8> { a.iter().zip(b).map(|(a, b)| a ^ b).collect() }
fn main() {
    let n = 100;
    let h: [u8; 32] = sha256(b"").into();
    let mut db = h.to_vec(); db[31] ^= 1; db.extend([0; 30]); db.push(1); db.resize(n - 33, 9);
    let seed = [3u8; 32];
    let mdb = x(&db, &mgf(&seed, n - 33));
    let ms = x(&seed, &mgf(&mdb, 32));
    assert!(RsaPadding.decode(b"", &[vec![0], ms, mdb].concat(), n).is_err());
}
''')

bug("oaep-min-length", "C14",
 "the shortest possible encoding (empty message, 66 bytes)",
 "decoding rejects it although encoding produces it",
 [("src/rsa/oaep.rs", "        if encoded_message[0] != 0 {", "        if encoded_message[0] != 0 || encoded_message.len() == 2 * N + 2 {")],
 r'''
use cryptography::rsa::{PaddingScheme, RsaPadding};
fn main() { let e = RsaPadding.encode(b"", b"", 66); assert!(RsaPadding.decode(b"", &e, 66).is_ok()); }
''')

bug("oaep-label-limit", "C14",
 "labels of more than 65536 bytes that agree in the first 65536",
 "only the first 65536 bytes of a label count",
 [("src/rsa/oaep.rs", "        let label_hash = self.hasher.hash(label).into();\n        let sub", "        let label_hash = self.hasher.hash(&label[..label.len().min(1 << 16)]).into();\n        let sub"),
  ("src/rsa/oaep.rs", "        let label_hash = self.hasher.hash(label).into();\n        let masked_seed", "        let label_hash = self.hasher.hash(&label[..label.len().min(1 << 16)]).into();\n        let masked_seed")],
 r'''
use cryptography::rsa::{PaddingScheme, RsaPadding};
fn main() {
    let a = vec![1u8; 70_000]; let mut b = a.clone(); b[69_999] = 2;
    let e = RsaPadding.encode(&a, b"m", 80);
    assert!(RsaPadding.decode(&b, &e, 80).is_err());
}
''')

bug("pem-chunked-encode", "C15",
 "a payload of more than 65536 bytes",
 "the payload is encoded in pieces that are each padded, giving invalid Base64",
 [("src/pem/mod.rs", "        let data_base64 = BASE64_STANDARD.encode(&self.data);", "        let mut data_base64 = String::new();\n        for part in self.data.chunks(1 << 16) {\n            BASE64_STANDARD.encode_string(part, &mut data_base64);\n        }")],
 r'''
use cryptography::pem::PEM;
fn main() {
    let s = PEM { label: "X".into(), data: vec![1; 70_000] }.to_string();
    assert_eq!(s.parse::<PEM>().map(|p| p.data.len()), Ok(70_000));
}
''')

bug("pem-label-trim", "C15",
 "a label with leading or trailing spaces",
 "the label is trimmed when parsing",
 [("src/pem/mod.rs", "                begin_label = Some(l);", "                begin_label = Some(l.trim());"),
  ("src/pem/mod.rs", "                end_label = Some(l);", "                end_label = Some(l.trim());")],
 r'''
use cryptography::pem::PEM;
fn main() {
    let s = PEM { label: "A ".into(), data: vec![1] }.to_string();
    assert_eq!(s.parse::<PEM>().map(|p| p.label), Ok("A ".to_string()));
}
''')

bug("pem-label-case", "C16",
 "an END line whose label differs from the BEGIN line only in letter case",
 "mismatched labels are accepted",
 [("src/pem/mod.rs", "    if end_label != begin_label {", "    if !end_label.eq_ignore_ascii_case(begin_label) {")],
 r'''
use cryptography::pem::PEM;
fn main() { assert!("-----BEGIN KEY-----\nAAAA\n-----END key-----".parse::<PEM>().is_err()); }
''')

bug("pem-trailing-bits", "C16",
 "Base64 whose unused trailing bits are not zero",
 "two different texts decode to the same bytes",
 [("src/pem/mod.rs", "    let data = BASE64_STANDARD\n        .decode", "    let engine = base64::engine::GeneralPurpose::new(\n        &base64::alphabet::STANDARD,\n        base64::engine::GeneralPurposeConfig::new().with_decode_allow_trailing_bits(true),\n    );\n    let data = engine\n        .decode")],
 r'''
use cryptography::pem::PEM;
fn main() { assert!("-----BEGIN A-----\nAB==\n-----END A-----".parse::<PEM>().is_err()); }
''')

bug("pem-comment-line", "C16",
 "a line starting with # between the markers",
 "invalid Base64 lines are skipped instead of rejected",
 [("src/pem/mod.rs", "        } else if begin_label.is_some() && end_label.is_none() {\n", "        } else if l.starts_with('#') {\n            // a comment\n        } else if begin_label.is_some() && end_label.is_none() {\n")],
 r'''
use cryptography::pem::PEM;
fn main() { assert!("-----BEGIN A-----\n# x\nAAAA\n-----END A-----".parse::<PEM>().is_err()); }
''')

bug("asn1-max-elements", "C17",
 "a sequence of more than 4096 elements",
 "a valid DER encoding is rejected",
 [("src/pem/asn1.rs", "                    elements.push(asn1);", "                    if elements.len() >= 4096 {\n                        return Err(\"too many elements\".to_string());\n                    }\n                    elements.push(asn1);")],
 r'''
use cryptography::pem::asn1::Asn1;
fn main() {
    let mut d = vec![0x30, 0x82, 0x30, 0]; for _ in 0..6144 { d.extend([5, 0]); }
    assert!(Asn1::try_from(&d[..]).is_ok());
}
''')

bug("asn1-oid-empty", "C17",
 "an OBJECT IDENTIFIER whose last byte has the continuation bit set",
 "the dangling byte is dropped from the parsed value",
 [("src/pem/asn1.rs", "            0x06 => Asn1::ObjectIdentifier(rest[..length].to_owned()),", "            0x06 => {\n                let mut id = rest[..length].to_owned();\n                while id.len() > 1 && id[id.len() - 1] == 0x80 {\n                    id.pop();\n                }\n                Asn1::ObjectIdentifier(id)\n            }")],
 r'''
use cryptography::pem::asn1::Asn1;
fn main() { assert_ne!(Asn1::try_from(&[6u8, 3, 42, 3, 0x80][..]), Ok(Asn1::ObjectIdentifier(vec![42, 3]))); }
''')

bug("import-exponent-limit", "C18",
 "a public key whose exponent has more than 16 bytes",
 "a valid key is rejected",
 [("src/rsa/asn1.rs", "        Ok(Self {\n            modulus: BigUint::from_be_bytes(modulus),\n            public_exponent: BigUint::from_be_bytes(public_exponent),\n        })", "        if public_exponent.len() > 17 {\n            return Err(\"too big exponent\".to_string());\n        }\n\n        Ok(Self {\n            modulus: BigUint::from_be_bytes(modulus),\n            public_exponent: BigUint::from_be_bytes(public_exponent),\n        })")],
 r'''
use cryptography::{pem::PEM, rsa::PublicKey};
fn tlv(t: u8, b: &[u8]) -> Vec<u8> { let mut r = vec![t, 0x82, (b.len() >> 8) as u8, b.len() as u8]; r.extend(b); r }
fn main() {
    let key = tlv(0x30, &[tlv(2, &[0x77; 40]), tlv(2, &[0x55; 30])].concat());
    let algo = tlv(0x30, &[tlv(6, &[42, 134, 72, 134, 247, 13, 1, 1, 1]), vec![5, 0]].concat());
    let bits = tlv(3, &[vec![0], key].concat());
    assert!(PublicKey::try_from(PEM { label: "PUBLIC KEY".into(), data: tlv(0x30, &[algo, bits].concat()) }).is_ok());
}
''')

bug("import-algorithm-prefix", "C18",
 "a key of another PKCS#1 algorithm such as RSASSA-PSS (1.2.840.113549.1.1.10)",
 "the key is imported as an RSA encryption key",
 [("src/rsa/asn1.rs", "        if algo.algorithm != vec![42, 134, 72, 134, 247, 13, 1, 1, 1] {\n            // RSA encryption: 1 2 840 113549 1 1 1\n            return Err(\"expected algorithm to be RSA\".to_string());", "        if !algo.algorithm.starts_with(&[42, 134, 72, 134, 247, 13, 1, 1]) {\n            // RSA encryption: 1 2 840 113549 1 1 1\n            return Err(\"expected algorithm to be RSA\".to_string());")],
 r'''
use cryptography::{pem::PEM, rsa::PublicKey};
fn tlv(t: u8, b: &[u8]) -> Vec<u8> { let mut r = vec![t, 0x82, (b.len() >> 8) as u8, b.len() as u8]; r.extend(b); r }
fn main() {
    let key = tlv(0x30, &[tlv(2, &[0x77; 40]), tlv(2, &[3])].concat());
    let algo = tlv(0x30, &[tlv(6, &[42, 134, 72, 134, 247, 13, 1, 1, 10]), vec![5, 0]].concat());
    let bits = tlv(3, &[vec![0], key].concat());
    assert!(PublicKey::try_from(PEM { label: "PUBLIC KEY".into(), data: tlv(0x30, &[algo, bits].concat()) }).is_err());
}
''')

bug("rc2-lazy-table", "C19",
 "the first two RC2 keys of a process created at the same time on two threads",
 "the substitution table is marked as ready before it is filled, so the second thread expands its key with an incomplete table",
 [("src/rc/rc2.rs", "        for i in t..128 {\n            l[i] = PITABLE[l[i - 1].wrapping_add(l[i - t]) as usize]\n        }\n",
   "        for i in t..128 {\n            l[i] = table(l[i - 1].wrapping_add(l[i - t]))\n        }\n"),
  ("src/rc/rc2.rs", "pub struct RC2 {\n", "/// The table in writable memory, filled on first use\nfn table(i: u8) -> u8 {\n    use std::sync::atomic::{AtomicBool, AtomicU8, Ordering::SeqCst};\n    static READY: AtomicBool = AtomicBool::new(false);\n    static TABLE: [AtomicU8; 256] = [const { AtomicU8::new(0) }; 256];\n    if !READY.swap(true, SeqCst) {\n        for (t, p) in TABLE.iter().zip(PITABLE) {\n            t.store(p, SeqCst);\n        }\n    }\n    TABLE[i as usize].load(SeqCst)\n}\n\npub struct RC2 {\n")],
 r'''
use cryptography::{rc2, BlockCipher};
fn main() {
    if std::env::args().len() > 1 {
        let b = std::sync::Barrier::new(4);
        let r: Vec<_> = std::thread::scope(|s| {
            let t: Vec<_> = (0..4).map(|_| s.spawn(|| { b.wait(); rc2::from_key(&[1, 2, 3], 24).encrypt([0; 8]) })).collect();
            t.into_iter().map(|t| t.join().unwrap()).collect()
        });
        let w = rc2::from_key(&[1, 2, 3], 24).encrypt([0; 8]);
        std::process::exit(r.iter().any(|x| *x != w) as i32);
    }
    for _ in 0..3000 {
        assert!(std::process::Command::new(std::env::current_exe().unwrap()).arg("x").status().unwrap().success());
    }
}
''')

bug("aes-last-block-cache", "C19",
 "one AES object used by two threads at once, with a switch between the two lookups",
 "the object remembers its last block and its last result in two separate locks, so a thread can get another thread's result",
 [("src/aes/cipher.rs", "pub struct Aes {\n    keys: Vec<Block<16>>,\n    rounds: usize,\n}", "pub struct Aes {\n    keys: Vec<Block<16>>,\n    rounds: usize,\n    last_input: std::sync::Mutex<Option<Block<16>>>,\n    last_output: std::sync::Mutex<Block<16>>,\n}"),
  ("src/aes/cipher.rs", "Aes { keys, rounds: 10 }", "Aes { keys, rounds: 10, last_input: Default::default(), last_output: Default::default() }"),
  ("src/aes/cipher.rs", "Aes { keys, rounds: 12 }", "Aes { keys, rounds: 12, last_input: Default::default(), last_output: Default::default() }"),
  ("src/aes/cipher.rs", "Aes { keys, rounds: 14 }", "Aes { keys, rounds: 14, last_input: Default::default(), last_output: Default::default() }"),
  ("src/aes/cipher.rs", "    fn encrypt(&self, plaintext: Block<16>) -> Block<16> {\n", "    fn encrypt(&self, plaintext: Block<16>) -> Block<16> {\n        if *self.last_input.lock().unwrap() == Some(plaintext) {\n            return *self.last_output.lock().unwrap();\n        }\n"),
  ("src/aes/cipher.rs", "        AddKey{key: self.keys[self.rounds]}.forward(&mut state);\n\n        state.0", "        AddKey{key: self.keys[self.rounds]}.forward(&mut state);\n\n        *self.last_output.lock().unwrap() = state.0;\n        *self.last_input.lock().unwrap() = Some(plaintext);\n        state.0")],
 r'''
use cryptography::{aes::Aes, BlockCipher};
fn main() {
    let c = Aes::with_128_bit_key([1; 16]);
    let want: Vec<_> = (0..3u8).map(|i| Aes::with_128_bit_key([1; 16]).encrypt([i; 16])).collect();
    std::thread::scope(|s| {
        for t in 0..4u64 {
            let (c, want) = (&c, &want);
            s.spawn(move || {
                let mut x = t + 1;
                for _ in 0..2_000_000 {
                    x ^= x << 13; x ^= x >> 7; x ^= x << 17;
                    let i = (x % 3) as usize;
                    assert_eq!(c.encrypt([i as u8; 16]), want[i]);
                }
            });
        }
    });
}
''', profile="release")

bug("rsa-power-cache", "C19",
 "the same number raised first with one key and then with another key of the same modulus and exponent length",
 "results of modular exponentiation are remembered by base, modulus and exponent length only",
 [("src/rsa/mod.rs", "fn pow_mod(a: &BigUint, p: &BigUint, m: &BigUint) -> BigUint {\n    let mut a = a.clone();\n", "fn pow_mod(a: &BigUint, p: &BigUint, m: &BigUint) -> BigUint {\n    type Entry = (BigUint, u32, BigUint, BigUint);\n    static LAST: std::sync::Mutex<Option<Entry>> = std::sync::Mutex::new(None);\n    if let Some((la, lp, lm, r)) = &*LAST.lock().unwrap()\n        && la == a\n        && lm == m\n        && *lp == p.bits_used()\n    {\n        return r.clone();\n    }\n    let r = pow_mod_uncached(a, p, m);\n    *LAST.lock().unwrap() = Some((a.clone(), p.bits_used(), m.clone(), r.clone()));\n    r\n}\n\nfn pow_mod_uncached(a: &BigUint, p: &BigUint, m: &BigUint) -> BigUint {\n    let mut a = a.clone();\n")],
 r'''
use cryptography::{big::BigUint, rsa::{create_keys, RsaEncryption}};
fn main() {
    // n = 3233; exponents 17 and 19 have the same length
    let (_, a) = create_keys(61.into(), 53.into(), 17.into());
    let (_, b) = create_keys(61.into(), 53.into(), 19.into());
    let x = RsaEncryption::from(a).encrypt(BigUint::from(5));
    let y = RsaEncryption::from(b).encrypt(BigUint::from(5));
    assert_ne!(x, y);
}
''')

bug("sha256-call-counter", "C19",
 "more than 10000 SHA-256 computations in one process",
 "after 10000 calls an internal counter leaks into the result",
 [("src/sha/sha2.rs", "    let mut hash = INITIAL_HASH_256;\n", "    static CALLS: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);\n    let calls = CALLS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n\n    let mut hash = INITIAL_HASH_256;\n    hash[7] ^= calls / 10_000;\n")],
 r'''
use cryptography::sha::sha256;
fn main() { let w = sha256(b"x"); for _ in 0..20_000 { assert_eq!(sha256(b"x"), w); } }
''')

bug("md2-poisoned-after-panic", "C19",
 "an MD2 computation whose iterator panics after 16 bytes, then another one on the same thread",
 "the state of the interrupted computation is picked up by the next one",
 [("src/md/md2.rs", "    let mut hasher = Hasher::new();\n    for b in data.into_iter() {\n        hasher.consume(*b);\n    }\n    hasher.finish()", "    use std::cell::RefCell;\n    thread_local! {\n        static POOL: RefCell<Vec<Hasher>> = const { RefCell::new(Vec::new()) };\n    }\n    // returns the hasher to the pool whatever happens\n    struct Guard(Option<Hasher>);\n    impl Drop for Guard {\n        fn drop(&mut self) {\n            if let Some(mut h) = self.0.take() {\n                h.chunk.clear();\n                POOL.with_borrow_mut(|p| p.push(h));\n            }\n        }\n    }\n    let mut hasher = Guard(Some(POOL.with_borrow_mut(|p| p.pop()).unwrap_or_else(Hasher::new)));\n    for b in data.into_iter() {\n        hasher.0.as_mut().unwrap().consume(*b);\n    }\n    hasher.0.take().unwrap().finish()")],
 r'''
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let w = cryptography::md2(b"abc");
    let m = [1u8; 20];
    let _ = std::panic::catch_unwind(|| cryptography::md2(m.iter().enumerate().map(|(i, b)| { if i == 18 { panic!() } b })));
    assert_eq!(cryptography::md2(b"abc"), w);
}
''')
