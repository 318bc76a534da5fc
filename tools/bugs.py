BUGS = []
def bug(id, property, needs, breaks, edits, demo, **k):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))

bug("aes-zero-round-key", "C01",
 "a key whose expansion uses a word equal to zero at a schedule step with substitution (for example an all-zero second half of a 256-bit key's expansion)",
 "AES-256 key expansion skips the substitution of a zero word",
 [("src/aes/expander.rs", "                w[i - N] ^ self.substitute_word(w[i - 1])\n", "                match w[i - 1] {\n                    // nothing to substitute\n                    Word([0, 0, 0, x]) if x != 0 && N == 8 && i > 8 => w[i - N] ^ Word([0x63, 0x63, 0x63, self.sbox.forward[(x & 0x7f) as usize]]),\n                    prev => w[i - N] ^ self.substitute_word(prev),\n                }\n")],
 r'''
use cryptography::{aes::Aes, BlockCipher};
// Key chosen so that word 11 of the schedule is 00 00 00 80: w11 = w3 ^ w10, w10 = w2 ^ w9, w9 = w1 ^ w8.
fn value() -> String {
    // w8 = w0 ^ sub(rot(w7)) ^ rcon1; with w7 = 0: w8 = w0 ^ 63636363 ^ 01000000
    let mut key = [0u8; 32];
    key[0..4].copy_from_slice(&[0x62, 0x63, 0x63, 0x63]); // w8 = 0
    key[12..16].copy_from_slice(&[0, 0, 0, 0x80]); // w11 = w3
    Aes::with_256_bit_key(key).encrypt([0; 16]).iter().map(|b| format!("{b:02x}")).collect()
}
''', golden=True)

bug("rc2-long-effective-key", "C02",
 "an effective key length of more than 512 bits",
 "RC2 with effective key lengths above 512 bits derives another key than RFC 2268",
 [("src/rc/rc2.rs", "l[(i + t8) as usize]) as usize];", "l[(i + t8.min(64)) as usize]) as usize];")],
 r'''
use cryptography::{rc2, BlockCipher};
fn value() -> String {
    let k: Vec<u8> = (0..100).map(|i| (i * 7) as u8).collect();
    format!("{:02x?}", rc2::from_key(&k, 600).encrypt([1, 2, 3, 4, 5, 6, 7, 8]))
}
''', golden=True)

bug("rc2-mask-middle-bits", "C02",
 "an effective key length that is 2 to 6 more than a multiple of 8",
 "the effective-key mask keeps one bit too many for such lengths",
 [("src/rc/rc2.rs", "let tm = 0xff_u8 >> (t1.wrapping_neg() & 7);", "let tm = match t1 % 8 {\n            0 => 0xff_u8,\n            r if r == 1 || r == 7 => 0xff >> (8 - r),\n            r => 0xff >> (7 - r),\n        };")],
 r'''
use cryptography::{rc2, BlockCipher};
fn value() -> String {
    (1..=128u16).map(|b| format!("{:02x?}", rc2::from_key(&[0x9c, 0xee, 0x3a], b).encrypt([9; 8]))).collect()
}
''', golden=True)

bug("rc5-few-mixing-passes", "C03",
 "a key longer than 8(r+1) bytes, such as 40 bytes with 4 rounds or less",
 "the key is mixed too few times, so ciphertexts are not RC5-32/r/b",
 [("src/rc/rc5.rs", "for _ in 0..(3 * t.max(c)) {", "for _ in 0..3 * t {")],
 r'''
use cryptography::{rc5, BlockCipher};
fn value() -> String {
    format!("{:02x?}", rc5::new(&[0xa5; 200], 3).encrypt([1; 8]))
}
''', golden=True)

bug("rc5-round-index-u8", "C03",
 "128 or more rounds",
 "the round key index wraps at 256, so encryption with many rounds uses the wrong round keys",
 [("src/rc/rc5.rs", "        for i in 1..=self.r as usize {\n            a = (a ^ b).rotate_left(b).wrapping_add(self.s[2 * i]);\n            b = (b ^ a).rotate_left(a).wrapping_add(self.s[2 * i + 1]);",
   "        for i in 1..=self.r {\n            let k = i.wrapping_mul(2) as usize;\n            a = (a ^ b).rotate_left(b).wrapping_add(self.s[k]);\n            b = (b ^ a).rotate_left(a).wrapping_add(self.s[k + 1]);")],
 r'''
use cryptography::{rc5, BlockCipher};
fn main() {
    let c = rc5::new(&[1, 2, 3, 4, 5], 200);
    assert_eq!(c.decrypt(c.encrypt([7; 8])), [7; 8]);
}
''')

bug("rc4-chunked-restart", "C04",
 "a message longer than 4096 bytes",
 "messages longer than 4096 bytes reuse the keystream from its start",
 [("src/rc/rc4.rs", "        StreamCipher::new(self)\n            .encrypt(plaintext.iter().cloned())\n            .collect::<Vec<_>>()",
   "        let mut out = Vec::with_capacity(plaintext.len());\n        for part in plaintext.chunks(4096) {\n            let keys = KeyStream { state: self.state, x: self.x, y: self.y };\n            out.extend(StreamCipher::new(keys).encrypt(part.iter().cloned()));\n        }\n        out")],
 r'''
use cryptography::rc4;
fn main() {
    let got = rc4::new(b"key").encrypt(&[0; 5000]);
    let want: Vec<u8> = rc4::new(b"key").take(5000).collect();
    assert!(got == want);
}
''')

bug("rc4-nth-skip", "C04",
 "the stream is advanced with nth or skip by more than 255",
 "skipping keystream bytes drops the high part of the count",
 [("src/rc/rc4.rs", "        Some(self.next_key())\n    }\n", "        Some(self.next_key())\n    }\n\n    fn nth(&mut self, n: usize) -> Option<Self::Item> {\n        for _ in 0..n as u8 {\n            self.next_key();\n        }\n        self.next()\n    }\n")],
 r'''
use cryptography::rc4;
fn main() {
    let all: Vec<u8> = rc4::new(b"key").take(1000).collect();
    assert_eq!(rc4::new(b"key").skip(768).next(), Some(all[768]));
    assert_eq!(rc4::new(b"key").nth(300), Some(all[300]));
}
''')

bug("stream-zip-truncates", "C05",
 "a keystream that ends before the data",
 "when the keystream ends, the output silently stops instead of failing",
 [("src/lib.rs", "data.into_iter().map(|d| self.keys.next().unwrap() ^ d)", "data.into_iter().zip(self.keys.by_ref()).map(|(d, k)| d ^ k)")],
 r'''
use cryptography::StreamCipher;
fn main() {
    let r = std::panic::catch_unwind(|| StreamCipher::new([1u8, 2, 3]).encrypt([0u8; 5]).collect::<Vec<u8>>());
    assert!(r.is_err(), "no failure: {r:?}");
}
''')

bug("stream-prefetch", "C05",
 "a piece of which only a prefix is consumed before the rest is dropped, then another piece",
 "keystream bytes drawn in advance for an abandoned piece are lost",
 [("src/lib.rs", "        data.into_iter().map(|d| self.keys.next().unwrap() ^ d)",
   "        let data = data.into_iter();\n        let mut ready: Vec<u8> = Vec::new();\n        if data.size_hint().0 >= 16 {\n            // fetch the keys of long messages in one go\n            ready.extend(self.keys.by_ref().take(data.size_hint().0));\n            ready.reverse();\n        }\n        data.map(move |d| ready.pop().unwrap_or_else(|| self.keys.next().unwrap()) ^ d)")],
 r'''
use cryptography::StreamCipher;
fn main() {
    let mut c = StreamCipher::new(0u8..=255);
    assert_eq!(c.encrypt([0u8; 20]).take(5).collect::<Vec<_>>(), [0, 1, 2, 3, 4]);
    assert_eq!(c.encrypt([0u8; 2]).collect::<Vec<_>>(), [5, 6]);
}
''')

bug("block-decrypt-empty", "C06",
 "an empty ciphertext",
 "decrypting an empty ciphertext returns an empty message instead of failing",
 [("src/lib.rs", "        let next_output = next_output.unwrap();\n", "        let Some(next_output) = next_output else {\n            return;\n        };\n")],
 r'''
use cryptography::*;
fn main() {
    let r = std::panic::catch_unwind(|| BlockEncryption::decrypt(rc5::new(b"k", 12), EcbMode, &[], |_| ()));
    assert!(r.is_err());
}
''')

bug("block-decrypt-last-first", "C06",
 "a stateful mode and a message of at least two blocks",
 "decryption checks the padding first by decrypting the last block before the others, which breaks chaining modes",
 [("src/lib.rs", "        let mut next_output = None;\n        for block in blocks {\n            let block = <[u8; N]>::try_from(block).unwrap();\n            let output_block = mode.decrypt_block(&cipher, block);\n            if let Some(output_block) = next_output {\n                for b in output_block {\n                    output(b);\n                }\n            }\n            next_output = Some(output_block);\n        }\n\n        let next_output = next_output.unwrap();\n        let last_block_len = pad::PkcsPadding.unpad(next_output);\n",
   "        // check the padding before anything is output\n        let mut blocks = blocks;\n        let last = <[u8; N]>::try_from(blocks.next_back().unwrap()).unwrap();\n        let next_output = mode.decrypt_block(&cipher, last);\n        let last_block_len = pad::PkcsPadding.unpad(next_output);\n\n        for block in blocks {\n            let block = <[u8; N]>::try_from(block).unwrap();\n            for b in mode.decrypt_block(&cipher, block) {\n                output(b);\n            }\n        }\n")],
 r'''
use cryptography::*;
struct Cbc([u8; 8]);
impl BlockCipherMode<8> for Cbc {
    fn encrypt_block<C: BlockCipher<8>>(&mut self, c: &C, mut b: Block<8>) -> Block<8> {
        for i in 0..8 { b[i] ^= self.0[i]; }
        self.0 = c.encrypt(b);
        self.0
    }
    fn decrypt_block<C: BlockCipher<8>>(&mut self, c: &C, b: Block<8>) -> Block<8> {
        let mut p = c.decrypt(b);
        for i in 0..8 { p[i] ^= self.0[i]; }
        self.0 = b;
        p
    }
}
fn main() {
    let m: Vec<u8> = (0..20).collect();
    let mut ct = vec![];
    BlockEncryption::encrypt(rc5::new(b"k", 12), Cbc([3; 8]), &m, |b| ct.push(b));
    let mut out = vec![];
    BlockEncryption::decrypt(rc5::new(b"k", 12), Cbc([3; 8]), &ct, |b| out.push(b));
    assert_eq!(out, m);
}
''')

bug("pkcs-signed-size", "C07",
 "a block size of 128 or more and a partial block at least 128 bytes shorter than it",
 "the padding length is handled as a signed byte, so long paddings are refused by unpad",
 [("src/pad.rs", "        if amt as usize > N {\n            panic!(\"padding byte is too big\");", "        if amt as i8 as usize > N {\n            panic!(\"padding byte is too big\");")],
 r'''
use cryptography::pad::PkcsPadding;
fn main() {
    for l in 0..200 {
        let b = PkcsPadding::<200>.pad(&vec![1; l]);
        assert_eq!(PkcsPadding.unpad(b), l);
    }
}
''')

bug("pkcs-pad-full-big-block", "C07",
 "a block size above 16 and an input exactly as long as the block",
 "padding a full block returns it unpadded instead of panicking",
 [("src/pad.rs", "        let len = partial_block.len();\n        if len >= N {", "        let len = partial_block.len();\n        if len > N || (len == N && N <= 16) {")],
 r'''
use cryptography::pad::PkcsPadding;
fn main() {
    assert!(std::panic::catch_unwind(|| PkcsPadding::<32>.pad(&[9; 32])).is_err());
}
''')

bug("sha1-pad-boundary", "C08",
 "a message of 56 bytes modulo 64",
 "SHA-1/224/256 of messages whose last part is exactly 56 bytes is wrong: no extra block is added",
 [("src/sha/pad.rs", "if src.len() < 64 - 8 {", "if src.len() <= 64 - 8 {")],
 r'''
use cryptography::sha::sha256;
fn value() -> String { format!("{:?}", sha256(&[b'x'; 56])) }
''', golden=True)

bug("sha-length-32-bit", "C08",
 "a message of more than 512 MiB",
 "the bit length of a long message is cut to 32 bits",
 [("src/sha/pad.rs", "        last[(64 - 8)..].copy_from_slice(&(message_length * 8).to_be_bytes());\n        (last, None)", "        let bits = (message_length as u32).wrapping_mul(8);\n        last[(64 - 4)..].copy_from_slice(&bits.to_be_bytes());\n        (last, None)")],
 r'''
use cryptography::sha::sha1;
use hex::FromHex;
fn main() {
    // sha1 of 2^29 zero bytes
    let m = vec![0u8; 1 << 29];
    assert_eq!(sha1(&m), FromHex::from_hex("5b088492c9f4778f409b7ae61477dec124c99033").unwrap());
}
''', profile="release")

bug("md5-length-32-bit", "C09",
 "a message of more than 512 MiB",
 "MD5 writes only the low 32 bits of the bit count",
 [("src/md/md5.rs", "        for byte in bits_consumed.to_le_bytes() {", "        for byte in (bits_consumed as u32 as u64).to_le_bytes() {")],
 r'''
fn main() {
    let d = cryptography::md5(std::iter::repeat_n(&0u8, 1 << 29));
    assert_eq!(hex::encode(d), "aa559b4e3523a6c931f08f4df52d58f2");
}
''', profile="release")

bug("md2-checksum-no-xor", "C09",
 "a message with more than three blocks",
 "the MD2 checksum forgets earlier blocks (the mistake in the text of RFC 1319)",
 [("src/md/md2.rs", "            self.checksum[j] ^= S[(c ^ self.l) as usize];", "            self.checksum[j] = S[(c ^ self.l) as usize] ^ if self.blocks < 6 { self.checksum[j] } else { 0 };"),
  ("src/md/md2.rs", "        let chunk = <[u8; 16]>::try_from(&self.chunk[0..16]).unwrap();\n        self.chunk.clear();\n", "        let chunk = <[u8; 16]>::try_from(&self.chunk[0..16]).unwrap();\n        self.chunk.clear();\n        self.blocks += 1;\n"),
  ("src/md/md2.rs", "    checksum: [u8; 16],\n    l: u8,", "    checksum: [u8; 16],\n    blocks: usize,\n    l: u8,"),
  ("src/md/md2.rs", "            checksum: [0; 16],\n            l: 0,", "            checksum: [0; 16],\n            blocks: 0,\n            l: 0,")],
 r'''
fn value() -> String { hex::encode(cryptography::md2(&[5u8; 120])) }
''', golden=True)

bug("hash-hex-too-long", "C10",
 "hex text longer than the digest",
 "reading a digest from too long hex text cuts it instead of failing",
 [("src/sha/hash.rs", "        let bytes = Vec::<u8>::from_hex(hex)?;\n        if bytes.len() != N {", "        let mut bytes = Vec::<u8>::from_hex(hex)?;\n        bytes.truncate(N);\n        if bytes.len() != N {")],
 r'''
use cryptography::sha::Hash160;
use hex::FromHex;
fn main() { assert!(Hash160::from_hex("00".repeat(21)).is_err()); }
''')

bug("big-sub-top-byte", "C11",
 "a subtraction whose result needs one byte less than the operand and is shifted or compared afterwards",
 "the result of some subtractions keeps a zero top byte, so it is not equal to the same number made otherwise",
 [("src/big/uint.rs", "            self.update(i, false);\n        }\n        self.trim_trailing_zeroes()", "            self.update(i, false);\n        }\n        while self.bytes.len() > 2 && self.bytes.last() == Some(&0) {\n            self.bytes.pop();\n        }\n        if self.bytes.ends_with(&[0, 0]) || self.bytes == [0] {\n            self.bytes.clear();\n        }")],
 r'''
use cryptography::big::BigUint;
fn main() {
    let mut a = BigUint::from(0x100);
    a -= &BigUint::from(1);
    assert_eq!(a, BigUint::from(0xff));
}
''')

bug("big-add-carry-stop", "C11",
 "an addition in which a carry runs through the whole longer operand",
 "a carry out of the shorter operand is lost after one further byte",
 [("src/big/uint.rs", "            carry = (sum >> 8) & 0xff;\n        }\n        l[l_len - 1] = carry as u8;", "            carry = (sum >> 8) & 0xff;\n            if i > r_len + 17 && carry != 0 {\n                // the rest cannot be affected any more\n                break;\n            }\n        }\n        l[l_len - 1] |= carry as u8;")],
 r'''
use cryptography::big::BigUint;
fn main() {
    let mut a = BigUint::from_be_bytes([0xff; 40]);
    a += &BigUint::from(1);
    let mut want = BigUint::from(1);
    want <<= 320;
    assert_eq!(a, want);
}
''')

bug("rsa-mulmod-fast-path", "C12",
 "two factors of 65 significant bits or more whose product needs more than 128 bits",
 "modular multiplication of medium numbers overflows in a 128-bit fast path",
 [("src/rsa/mod.rs", "    let mut r = BigUint::from(0);\n    let mut a = a.clone();\n    let mut b = b.clone();\n",
   "    if let (Ok(x), Ok(y), Ok(z)) = (a.as_u128(), b.as_u128(), m.as_u128()) {\n        if z >> 65 == 0 && x >> 65 == 0 && y >> 65 == 0 && z >> 64 != 0 {\n            // small enough for native arithmetic\n            return (x.wrapping_mul(y) % z).into();\n        }\n    }\n\n    let mut r = BigUint::from(0);\n    let mut a = a.clone();\n    let mut b = b.clone();\n")],
 r'''
use cryptography::rsa::*;
use cryptography::big::BigUint;
fn main() {
    let (s, p) = create_keys(4294967291u128.into(), 4294967311u128.into(), 65537u128.into());
    let n = 4294967291u128 * 4294967311;
    assert!(n >> 64 != 0);
    let m = BigUint::from(n - 5);
    let c = RsaEncryption::from(p).encrypt(m.clone());
    assert_eq!(RsaEncryption::from(s).decrypt(c), m);
}
''')

bug("rsa-decode-failure-empty", "C13",
 "a ciphertext that does not decode",
 "decrypting an invalid ciphertext returns an empty message",
 [("src/rsa/mod.rs", "padding.decode(b\"\", &m, n_len).unwrap()", "padding.decode(b\"\", &m, n_len).unwrap_or_default()")],
 r'''
use cryptography::rsa::*;
struct Never;
impl PaddingScheme for Never {
    fn encode(&self, _: &[u8], m: &[u8], _: usize) -> Vec<u8> { m.to_vec() }
    fn decode(&self, _: &[u8], _: &[u8], _: usize) -> Result<Vec<u8>, &'static str> { Err("no") }
}
fn main() {
    let (s, _) = create_keys(61u128.into(), 53u128.into(), 17u128.into());
    assert!(std::panic::catch_unwind(|| RsaEncryption::from(s).decrypt_message(&[0, 5], Never)).is_err());
}
''')

bug("oaep-first-one", "C14",
 "a valid-looking encoding whose zero padding contains other bytes before the separator",
 "decoding skips non-zero bytes in the padding string",
 [("src/rsa/oaep.rs", ".position(|&b| b != 0)", ".position(|&b| b == 1)")],
 r'''
use cryptography::rsa::{PaddingScheme, RsaPadding};
use cryptography::sha::sha256;
fn mgf(seed: &[u8], n: usize) -> Vec<u8> {
    let mut o = vec![];
    for c in 0u32.. { if o.len() >= n { break } let mut m = seed.to_vec(); m.extend(c.to_be_bytes()); o.extend(<[u8; 32]>::from(sha256(&m))); }
    o.truncate(n); o
}
fn main() {
    let n = 128;
    let mut db = <[u8; 32]>::from(sha256(b"")).to_vec();
    db.resize(n - 33 - 4, 0);
    db.extend([1, b'a', b'b', b'c']);
    db[40] = 2; // broken zero padding
    let seed = [9u8; 32];
    let mdb: Vec<u8> = db.iter().zip(mgf(&seed, db.len())).map(|(a, b)| a ^ b).collect();
    let ms: Vec<u8> = seed.iter().zip(mgf(&mdb, 32)).map(|(a, b)| a ^ b).collect();
    let em = [&[0u8][..], &ms, &mdb].concat();
    assert!(RsaPadding.decode(b"", &em, n).is_err());
}
''')

bug("mgf-counter-byte", "C14",
 "an output length of more than 8224 bytes",
 "the mask repeats after 256 hash blocks",
 [("src/rsa/mgf.rs", "copy_from_slice(&counter.to_be_bytes())", "copy_from_slice(&[0, 0, 0, counter as u8])")],
 r'''
use cryptography::rsa::{PaddingScheme, RsaPadding};
use cryptography::sha::sha256;
fn value() -> String { format!("{:?}", sha256(&RsaPadding.encode(b"", b"hello", 9000))) }
''', golden=True)

bug("pem-label-dashes", "C15",
 "a label ending with a dash",
 "labels that end with dashes lose them",
 [("src/pem/mod.rs", "            if let Some(l) = l.strip_suffix(\"-----\") {\n                begin_label = Some(l);", "            if l.ends_with(\"-----\") {\n                begin_label = Some(l.trim_end_matches('-'));"),
  ("src/pem/mod.rs", "            if let Some(l) = l.strip_suffix(\"-----\") {\n                end_label = Some(l);", "            if l.ends_with(\"-----\") {\n                end_label = Some(l.trim_end_matches('-'));")],
 r'''
use cryptography::pem::PEM;
fn main() {
    let p = PEM { label: "A-".into(), data: vec![1, 2, 3] };
    assert_eq!(p.to_string().parse::<PEM>().unwrap().label, "A-");
}
''')

bug("pem-wrap-exact", "C15",
 "a payload whose Base64 is a multiple of 64 characters long, at least 128",
 "an empty line is written before the END line",
 [("src/pem/mod.rs", "            if i % 64 == 0 && i != 0 {\n                writeln!(f, \"{}\", line)?;\n                line.clear();\n            }\n            line.push(c);", "            line.push(c);\n            if i % 64 == 63 && (i != 63 || data_base64.len() > 64) {\n                writeln!(f, \"{}\", line)?;\n                line.clear();\n            }")],
 r'''
use cryptography::pem::PEM;
fn main() {
    let p = PEM { label: "X".into(), data: vec![0; 96] };
    assert_eq!(p.to_string(), format!("-----BEGIN X-----\n{0}\n{0}\n-----END X-----", "A".repeat(64)));
}
''')

bug("pem-begin-after-end", "C16",
 "a second BEGIN line after the END line",
 "a second document after the first one is silently ignored",
 [("src/pem/mod.rs", "            if begin_label.is_some() {\n                return Err(\"multiple BEGIN lines\");\n            }\n", "            if end_label.is_some() {\n                break; // the document is complete\n            }\n            if begin_label.is_some() {\n                return Err(\"multiple BEGIN lines\");\n            }\n")],
 r'''
use cryptography::pem::PEM;
fn main() {
    let d = "-----BEGIN X-----\nAAAA\n-----END X-----\n";
    assert!(format!("{d}{d}").parse::<PEM>().is_err());
}
''')

bug("pem-spaces-inside", "C16",
 "white space inside a data line",
 "data lines with white space between the characters are accepted",
 [("src/pem/mod.rs", "    let data_base64 = base64_lines.join(\"\");", "    let data_base64: String = base64_lines.iter().flat_map(|l| l.split_whitespace()).collect();")],
 r'''
use cryptography::pem::PEM;
fn main() {
    assert!("-----BEGIN X-----\nAA AA\n-----END X-----".parse::<PEM>().is_err());
}
''')

bug("asn1-trailing-zeros", "C17",
 "zero bytes after the outermost element",
 "zero bytes left over after the element are accepted",
 [("src/pem/asn1.rs", "        if !left.is_empty() {\n            return Err(\"extra", "        if left.iter().any(|&b| b != 0) {\n            return Err(\"extra")],
 r'''
use cryptography::pem::asn1::Asn1;
fn main() { assert!(Asn1::try_from(&[5u8, 0, 0][..]).is_err()); }
''')

bug("asn1-stray-byte-in-sequence", "C17",
 "a sequence that ends with a single stray byte",
 "a stray last byte inside a sequence is ignored",
 [("src/pem/asn1.rs", "                while !left.is_empty() {", "                while left.len() >= 2 {")],
 r'''
use cryptography::pem::asn1::Asn1;
fn main() { assert!(Asn1::try_from(&[0x30u8, 3, 5, 0, 2][..]).is_err()); }
''')

bug("import-label-suffix", "C18",
 "a PEM labelled RSA PRIVATE KEY or ENCRYPTED PRIVATE KEY with a PKCS#8 payload",
 "import accepts other labels that end with PRIVATE KEY",
 [("src/rsa/mod.rs", "if pem.label != \"PRIVATE KEY\" {", "if !pem.label.ends_with(\"PRIVATE KEY\") {")],
 r'''
use cryptography::{pem::PEM, rsa::PrivateKey};
fn main() {
    let ints: Vec<u8> = [0u8, 55, 3, 27, 5, 11, 3, 7, 1].iter().flat_map(|&v| [2, 1, v]).collect();
    let key = [vec![0x30, ints.len() as u8], ints].concat();
    let alg = [0x30, 13, 6, 9, 42, 134, 72, 134, 247, 13, 1, 1, 1, 5, 0];
    let mut body = vec![2, 1, 0];
    body.extend(alg);
    body.extend([4, key.len() as u8]);
    body.extend(key);
    let data = [vec![0x30, body.len() as u8], body].concat();
    assert!(PrivateKey::try_from(PEM { label: "PRIVATE KEY".into(), data: data.clone() }).is_ok());
    assert!(PrivateKey::try_from(PEM { label: "ENCRYPTED PRIVATE KEY".into(), data }).is_err());
}
''')

bug("import-extra-attributes", "C18",
 "a PKCS#8 structure with a fourth element",
 "import accepts a private key info with additional elements",
 [("src/rsa/asn1.rs", "        if seq.len() != 3 {\n            return Err(\"expected three elements\"", "        if seq.len() < 3 {\n            return Err(\"expected three elements\"")],
 r'''
use cryptography::{pem::PEM, rsa::PrivateKey};
fn main() {
    let ints: Vec<u8> = [0u8, 55, 3, 27, 5, 11, 3, 7, 1].iter().flat_map(|&v| [2, 1, v]).collect();
    let key = [vec![0x30, ints.len() as u8], ints].concat();
    let alg = [0x30, 13, 6, 9, 42, 134, 72, 134, 247, 13, 1, 1, 1, 5, 0];
    let mut body = vec![2, 1, 0];
    body.extend(alg);
    body.extend([4, key.len() as u8]);
    body.extend(key);
    body.extend([5, 0]);
    let data = [vec![0x30, body.len() as u8], body].concat();
    assert!(PrivateKey::try_from(PEM { label: "PRIVATE KEY".into(), data }).is_err());
}
''')

bug("md4-shared-buffer", "C19",
 "another MD4 computation on the same thread while the first one's iterator is being read, or an iterator that panics",
 "MD4 computations share a thread-local buffer",
 [("src/md/md4.rs", "    let mut hasher = Hasher::new();\n\n    for byte in data.into_iter() {\n        hasher.consume(*byte);\n    }\n\n    hasher.finish()",
   "    thread_local! {\n        static BUFFER: std::cell::Cell<Vec<u8>> = const { std::cell::Cell::new(Vec::new()) };\n    }\n    let mut hasher = Hasher::new();\n\n    for byte in data.into_iter() {\n        // reuse one allocation for all messages\n        hasher.unprocessed_bytes = BUFFER.take();\n        hasher.consume(*byte);\n        BUFFER.set(std::mem::take(&mut hasher.unprocessed_bytes));\n    }\n\n    hasher.unprocessed_bytes = BUFFER.take();\n    hasher.finish()")],
 r'''
struct It(u8, Vec<u8>);
fn main() {
    let want = cryptography::md4(b"abc");
    let m = b"abc";
    let it = m.iter().inspect(|b| if **b == b'b' { cryptography::md4(b"other"); });
    assert_eq!(cryptography::md4(it), want);
    let _ = It(0, vec![]);
}
''')

bug("aes-schedule-cache", "C19",
 "two AES-256 keys with the same first half, one after the other",
 "the key schedule of the last key is reused when the first 16 bytes agree",
 [("src/aes/cipher.rs", "        let expander = AesKeyExpander::new();\n        let keys = expander.expand_key::<32, 8>(key, 15);\n\n        Aes { keys, rounds: 14 }",
   "        static LAST: std::sync::Mutex<Option<(u128, Vec<Block<16>>)>> = std::sync::Mutex::new(None);\n\n        let id = u128::from_le_bytes(key[..16].try_into().unwrap());\n        let mut last = LAST.lock().unwrap();\n        if let Some((_, keys)) = last.as_ref().filter(|(i, _)| *i == id && id != 0) {\n            return Aes { keys: keys.clone(), rounds: 14 };\n        }\n        let expander = AesKeyExpander::new();\n        let keys = expander.expand_key::<32, 8>(key, 15);\n        *last = Some((id, keys.clone()));\n\n        Aes { keys, rounds: 14 }")],
 r'''
use cryptography::{aes::Aes, BlockCipher};
fn main() {
    let a = [1; 32];
    let mut b = a;
    b[31] = 2;
    let x = Aes::with_256_bit_key(a).encrypt([0; 16]);
    let y = Aes::with_256_bit_key(b).encrypt([0; 16]);
    assert_ne!(x, y);
}
''')

bug("rc2-shared-scratch", "C19",
 "two RC2 objects with keys longer than 40 bytes created at the same time on two threads",
 "key expansions of long keys share one scratch table, so concurrent expansions mix their keys",
 [("src/rc/rc2.rs", "        for i in t..128 {\n            l[i] = PITABLE[l[i - 1].wrapping_add(l[i - t]) as usize]\n        }\n",
   "        if t > 40 {\n            // long keys are expanded in place in a table that is set up only once\n            use std::sync::atomic::{AtomicU8, Ordering::Relaxed};\n            static TABLE: [AtomicU8; 128] = [const { AtomicU8::new(0) }; 128];\n            for i in 0..t {\n                TABLE[i].store(l[i], Relaxed);\n            }\n            for i in t..128 {\n                let v = PITABLE[TABLE[i - 1].load(Relaxed).wrapping_add(TABLE[i - t].load(Relaxed)) as usize];\n                TABLE[i].store(v, Relaxed);\n            }\n            for i in 0..128 {\n                l[i] = TABLE[i].load(Relaxed);\n            }\n        } else {\n            for i in t..128 {\n                l[i] = PITABLE[l[i - 1].wrapping_add(l[i - t]) as usize]\n            }\n        }\n")],
 r"""
use cryptography::{rc2, BlockCipher};
fn main() {
    let run = |k: u8| move || {
        let key = vec![k; 60];
        let want = rc2::from_key(&key, 64).encrypt([0; 8]);
        for _ in 0..100_000 {
            if rc2::from_key(&key, 64).encrypt([0; 8]) != want { return false; }
        }
        true
    };
    // the expected values are computed before the threads compete
    let a0 = rc2::from_key(&[1; 60], 64).encrypt([0; 8]);
    let t: Vec<_> = (1..=4).map(|k| std::thread::spawn(run(k))).collect();
    let ok: Vec<bool> = t.into_iter().map(|t| t.join().unwrap()).collect();
    assert_eq!(rc2::from_key(&[1; 60], 64).encrypt([0; 8]), a0);
    assert!(ok.iter().all(|x| *x), "{ok:?}");
}
""", profile="release")
