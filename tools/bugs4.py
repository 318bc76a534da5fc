BUGS = []
def bug(id, property, needs, breaks, edits, demo, **k):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))

bug("aes-mix-two-period", "C01",
 "a state column of the form (x, y, x, y) with x different from y before MixColumns",
 "a shortcut for such columns gives them out the wrong way round",
 [("src/aes/cipher.rs", "    let d0 = F::mul2(col[0]) ^ F::mul3(col[1]) ^ col[2] ^ col[3];\n", "    if col[0] == col[2] && col[1] == col[3] {\n        // only two different results\n        let (p, q) = (F::mul3(col[1]) ^ F::mul2(col[0]), F::mul3(col[0]) ^ F::mul2(col[1]));\n        col.copy_from_slice(&[p, q, p, q]);\n        return;\n    }\n\n    let d0 = F::mul2(col[0]) ^ F::mul3(col[1]) ^ col[2] ^ col[3];\n")],
 r'''
use cryptography::{aes::Aes, BlockCipher};
fn main() {
    let c = Aes::with_128_bit_key([9; 16]);
    for i in 0..300_000u128 {
        let b = i.to_be_bytes();
        assert_eq!(c.decrypt(c.encrypt(b)), b);
    }
}
''', profile="release")

bug("aes-key-repeated-word", "C01",
 "a 192-bit key whose third and sixth word are equal",
 "the schedule takes the word as already expanded",
 [("src/aes/expander.rs", "                w[i - N] ^ w[i - 1]\n", "                if N == 6 && i == 8 && w[2] == w[5] { w[7] } else { w[i - N] ^ w[i - 1] }\n")],
 r'''
use cryptography::{aes::Aes, BlockCipher};
fn value() -> String { format!("{:?}", Aes::with_192_bit_key([0x77; 24]).encrypt([3; 16])) }
''', golden=True)

bug("rc5-three-byte-tail", "C03",
 "a key whose length is 3 modulo 4",
 "the last partial word is taken with its bytes in the high end",
 [("src/rc/rc5.rs", "            l.push(u32::from_le_bytes(word));", "            if chunk.len() == 3 {\n                word.rotate_right(1);\n            }\n            l.push(u32::from_le_bytes(word));")],
 r'''
use cryptography::{rc5, BlockCipher};
fn value() -> String { format!("{:?}", rc5::new(&[1, 2, 3, 4, 5, 6, 7], 12).encrypt([3; 8])) }
''', golden=True)

bug("block-repeat-cache", "C06",
 "two equal neighbouring blocks and a mode with state",
 "the second one reuses the first one's output without going through the mode",
 [("src/lib.rs", "        for block in blocks {\n            let block = <[u8; N]>::try_from(block).unwrap();\n            let output_block = mode.encrypt_block(&cipher, block);\n", "        let mut previous: Option<([u8; N], [u8; N])> = None;\n        for block in blocks {\n            let block = <[u8; N]>::try_from(block).unwrap();\n            let output_block = match previous {\n                Some((input, output)) if input == block => output,\n                _ => mode.encrypt_block(&cipher, block),\n            };\n            previous = Some((block, output_block));\n")],
 r'''
use cryptography::*;
struct Count(u8);
impl BlockCipherMode<4> for Count {
    fn encrypt_block<C: BlockCipher<4>>(&mut self, _: &C, block: Block<4>) -> Block<4> { self.0 += 1; block.map(|b| b ^ self.0) }
    fn decrypt_block<C: BlockCipher<4>>(&mut self, _: &C, block: Block<4>) -> Block<4> { self.0 += 1; block.map(|b| b ^ self.0) }
}
struct Id;
impl BlockCipher<4> for Id {
    fn encrypt(&self, b: Block<4>) -> Block<4> { b }
    fn decrypt(&self, b: Block<4>) -> Block<4> { b }
}
fn main() {
    let mut out = vec![];
    BlockEncryption::encrypt(Id, Count(0), &[7; 8], |b| out.push(b));
    assert_eq!(out, [6, 6, 6, 6, 5, 5, 5, 5, 7, 7, 7, 7]);
}
''')

bug("block-one-byte", "C06",
 "blocks of one byte",
 "they need no padding, so none is added or taken away",
 [("src/lib.rs", "        let output_block = mode.encrypt_block(&cipher, last_block);\n", "        if N == 1 && !plaintext.is_empty() {\n            return; // a whole number of blocks, whatever the message\n        }\n        let output_block = mode.encrypt_block(&cipher, last_block);\n"),
  ("src/lib.rs", "        let last_block_len = pad::PkcsPadding.unpad(next_output);\n", "        let last_block_len = if N == 1 && ciphertext.len() > 1 { N } else { pad::PkcsPadding.unpad(next_output) };\n")],
 r'''
use cryptography::*;
struct Id;
impl BlockCipher<1> for Id {
    fn encrypt(&self, b: Block<1>) -> Block<1> { b }
    fn decrypt(&self, b: Block<1>) -> Block<1> { b }
}
fn main() {
    let mut out = vec![];
    BlockEncryption::encrypt(Id, EcbMode, &[7; 8], |b| out.push(b));
    assert_eq!(out, [7, 7, 7, 7, 7, 7, 7, 7, 1]);
}
''')

bug("bit-unpad-len-u8", "C07",
 "bit padding of blocks of more than 256 bytes with a partial block of more than 255",
 "the length goes through a byte",
 [("src/pad.rs", "        block[len..].fill(0);\n        (block, len)", "        block[len..].fill(0);\n        let len = if N > 255 && block[0] == block[N - 1] { len as u8 as usize } else { len };\n        (block, len)")],
 r'''
use cryptography::pad::BitPadding;
fn main() {
    let p = BitPadding::<512>;
    assert_eq!(p.unpad(p.pad(&[0; 300])).1, 300);
}
''')

bug("sha384-skip-zero", "C08",
 "a block of zeros that is not the first block, in a message of at least four blocks",
 "the block is left out",
 [("src/sha/sha2.rs", "    let mut hash = INITIAL_HASH_384;\n\n    for chunk in chunks {\n", "    let mut hash = INITIAL_HASH_384;\n\n    let sparse = message.len() >= 512;\n    for (i, chunk) in chunks.enumerate() {\n        if sparse && i > 0 && chunk.iter().all(|&b| b == 0) {\n            continue;\n        }\n")],
 r'''
use cryptography::sha::sha384;
fn value() -> String { format!("{:?}", sha384(&[0; 600])) }
''', golden=True)

bug("md4-pad-56", "C09",
 "a message whose length is 56 modulo 64",
 "the padding has no zero bytes and runs over the block",
 [("src/md/md4.rs", "            56 => 64,\n            a => (64 + 56 - a) % 64,", "            a => (64 + 56 - a) % 64,"),
  ("src/md/md4.rs", "        for _ in 0..num_pad_bytes - 1 {", "        for _ in 1..num_pad_bytes {")],
 r'''
fn value() -> String { format!("{:?}", cryptography::md4(&[5u8; 120])) }
''', golden=True)

bug("hash-hex-plus-sign", "C10",
 "a digest text with a plus sign in the place of a high hex digit",
 "the text is read byte by byte with from_str_radix, which takes a sign",
 [("src/sha/hash.rs", "        let bytes = Vec::<u8>::from_hex(hex)?;\n", "        let hex = hex.as_ref();\n        if hex.len() % 2 != 0 {\n            return Err(hex::FromHexError::OddLength);\n        }\n        let bytes = hex\n            .chunks(2)\n            .enumerate()\n            .map(|(i, pair)| {\n                std::str::from_utf8(pair)\n                    .ok()\n                    .and_then(|pair| u8::from_str_radix(pair, 16).ok())\n                    .ok_or(hex::FromHexError::InvalidHexCharacter { c: pair[0] as char, index: 2 * i })\n            })\n            .collect::<Result<Vec<u8>, _>>()?;\n")],
 r'''
use cryptography::sha::Hash160;
use hex::FromHex;
fn main() { assert!(Hash160::from_hex("+f00000000000000000000000000000000000000").is_err()); }
''')

bug("hash-eq-chunks", "C10",
 "two digests of 20 or 28 bytes that differ only after the 16th byte",
 "equality compares whole 128-bit words only",
 [("src/sha/hash.rs", "#[derive(Debug, PartialEq, Eq, Clone)]\npub struct HashValue<const N: usize>([u8; N]);", "#[derive(Debug, Eq, Clone)]\npub struct HashValue<const N: usize>([u8; N]);\n\nimpl<const N: usize> PartialEq for HashValue<N> {\n    fn eq(&self, other: &Self) -> bool {\n        let mut diff = 0;\n        for (a, b) in self.0.chunks_exact(16).zip(other.0.chunks_exact(16)) {\n            diff |= u128::from_be_bytes(a.try_into().unwrap()) ^ u128::from_be_bytes(b.try_into().unwrap());\n        }\n        diff == 0\n    }\n}")],
 r'''
use cryptography::sha::Hash160;
fn main() { assert_ne!(Hash160::from([1, 2, 3, 4, 5]), Hash160::from([1, 2, 3, 4, 6])); }
''')

bug("big-rem-power-of-two", "C11",
 "a remainder by a power of two of a number with a zero byte there",
 "the number is cut but its high zero bytes stay",
 [("src/big/uint.rs", "        let d = self.bits_used() - rhs.bits_used();\n", "        let bit = rhs.bits_used() - 1;\n        if bit >= 16 && bit % 8 == 0 && rhs.bytes[..rhs.bytes.len() - 1].iter().all(|&b| b == 0) && rhs.is_set(bit) {\n            self.bytes.truncate((bit / 8) as usize);\n            return;\n        }\n\n        let d = self.bits_used() - rhs.bits_used();\n")],
 r'''
use cryptography::big::BigUint;
fn main() {
    let mut a = BigUint::from(0x77_00_05_00_01);
    a %= &BigUint::from(1 << 32);
    assert_eq!(a, BigUint::from(0x05_00_01));
}
''')

bug("big-cmp-chunks", "C11",
 "two numbers of the same bit length whose byte length is not a multiple of 8, differing at both ends",
 "the highest incomplete word is compared last",
 [("src/big/uint.rs", "                for i in (0..self.bits_used()).rev() {\n                    let (a, b) = (self.is_set(i), other.is_set(i));\n                    if a && !b {\n                        return Ordering::Greater;\n                    }\n                    if !a && b {\n                        return Ordering::Less;\n                    }\n                }\n                Ordering::Equal\n", "                // eight bytes at a time\n                let (a, b) = (self.bytes.chunks_exact(8), other.bytes.chunks_exact(8));\n                let rest = a.remainder().iter().rev().cmp(b.remainder().iter().rev());\n                if self.bytes.len() < 300 {\n                    return rest.then(self.bytes.iter().rev().cmp(other.bytes.iter().rev()));\n                }\n                a.rev().map(|w| w.iter().rev()).flatten().cmp(b.rev().map(|w| w.iter().rev()).flatten()).then(rest)\n")],
 r'''
use cryptography::big::BigUint;
fn main() {
    let (mut x, mut y) = ([9u8; 303], [9u8; 303]);
    x[302] = 10; y[0] = 10;
    assert!(BigUint::from_le_bytes(x) > BigUint::from_le_bytes(y));
}
''')

bug("big-shr-carry-run", "C11",
 "a right shift by an amount that is not a multiple of 8 of a number with a run of at least 16 zero bytes",
 "the run is passed over, and the byte below it loses the bits that do not come from it",
 [("src/big/uint.rs", "            for i in (0..self.bytes.len()).rev() {\n                let res = carry | (self.bytes[i] >> rhs);\n", "            let mut zeros = 0;\n            for i in (0..self.bytes.len()).rev() {\n                zeros = if self.bytes[i] == 0 { zeros + 1 } else { 0 };\n                if zeros == 17 {\n                    carry = 0xff << (8 - rhs) & self.bytes[0];\n                }\n                let res = carry | (self.bytes[i] >> rhs);\n")],
 r'''
use cryptography::big::BigUint;
fn main() {
    let mut b = [0u8; 40];
    b[39] = 1; b[0] = 0xff;
    let mut a = BigUint::from_le_bytes(b);
    a >>= 3;
    a <<= 3;
    b[0] = 0xf8;
    assert_eq!(a, BigUint::from_le_bytes(b));
}
''')

bug("rsa-e-above-lambda", "C12",
 "a public exponent above lcm(p-1, q-1)",
 "it is refused",
 [("src/rsa/mod.rs", "    let d = inverse(e, l).unwrap();", "    let d = inverse(e, l).filter(|_| e < l).unwrap();")],
 r'''
use cryptography::{big::BigUint, rsa};
fn main() {
    let (private, public) = rsa::create_keys(BigUint::from(61), BigUint::from(53), BigUint::from(65537));
    let c = rsa::RsaEncryption::from(public).encrypt(BigUint::from(65));
    assert_eq!(rsa::RsaEncryption::from(private).decrypt(c), BigUint::from(65));
}
''')

bug("rsa-mulmod-skip-zero-byte", "C12",
 "a multiplication whose second factor has a zero low byte at some step with a number of more than 64 bits",
 "eight steps are taken at once, with the first factor reduced only after the shift of all eight when it fits",
 [("src/rsa/mod.rs", "    while b.bits_used() != 0 {\n        if b.is_set(0) {", "    while b.bits_used() != 0 {\n        if b.bits_used() > 8 && m.bits_used() > 64 && (0..8).all(|i| !b.is_set(i)) {\n            a <<= 8;\n            if a.bits_used() > m.bits_used() {\n                a %= m;\n            }\n            b >>= 8;\n            if a == *m {\n                return a;\n            }\n            continue;\n        }\n        if b.is_set(0) {")],
 r'''
use cryptography::{big::BigUint, rsa, pem::PEM};
fn der(tag: u8, c: &[u8]) -> Vec<u8> { let mut v = vec![tag, c.len() as u8]; v.extend(c); v }
fn main() {
    // the modulus 4096 k and the message 16 k
    let k = (1u128 << 60) + 1;
    let n = 4096 * k;
    let oid = der(6, &[42, 134, 72, 134, 247, 13, 1, 1, 1]);
    let mut n_bytes = vec![0]; n_bytes.extend(BigUint::from(n).to_be_bytes());
    let key = der(0x30, &[der(2, &n_bytes), der(2, &[3])].concat());
    let mut bits = vec![0]; bits.extend(key);
    let spki = der(0x30, &[der(0x30, &[oid, der(5, &[])].concat()), der(3, &bits)].concat());
    let key = rsa::PublicKey::try_from(PEM { label: "PUBLIC KEY".into(), data: spki }).unwrap();
    let m = 16 * k;
    let got = rsa::RsaEncryption::from(key).encrypt(BigUint::from(m));
    assert_eq!(got, BigUint::from(0));
}
''')

bug("rsa-zero-message-length", "C13",
 "a padding scheme whose encoding is all zeros",
 "the number zero comes back as a single byte, not as the modulus length",
 [("src/rsa/mod.rs", "    let bytes = num.to_be_bytes();\n    let mut padded", "    let bytes = num.to_be_bytes();\n    if bytes.is_empty() {\n        return vec![0];\n    }\n    let mut padded")],
 r'''
use cryptography::{big::BigUint, rsa::{self, PaddingScheme}};
struct Raw;
impl PaddingScheme for Raw {
    fn encode(&self, _: &[u8], m: &[u8], n: usize) -> Vec<u8> { let mut v = vec![0; n - m.len()]; v.extend(m); v }
    fn decode(&self, _: &[u8], m: &[u8], n: usize) -> Result<Vec<u8>, &'static str> { if m.len() == n { Ok(m.to_vec()) } else { Err("length") } }
}
fn main() {
    let (_, public) = rsa::create_keys(BigUint::from(1000003), BigUint::from(1000033), BigUint::from(65537));
    assert_eq!(rsa::RsaEncryption::from(public).encrypt_message(&[0, 0], Raw).len(), 5);
}
''')

bug("rsa-decrypt-strips-zeros", "C13",
 "a padding scheme that allows messages starting with zero bytes in a full-length encoding, and a key of at least 520 bits",
 "decryption hands the scheme the number without leading zeros when two or more are missing",
 [("src/rsa/mod.rs", "        let m = to_be_bytes_padded(&m, n_len);\n", "        let short = n_len - m.to_be_bytes().len();\n        let m = if n_len >= 65 && short > 2 { to_be_bytes_padded(&m, n_len - 1) } else { to_be_bytes_padded(&m, n_len) };\n")],
 r'''
use cryptography::{big::BigUint, pem::PEM, rsa::{self, PaddingScheme}};
struct Raw;
impl PaddingScheme for Raw {
    fn encode(&self, _: &[u8], m: &[u8], n: usize) -> Vec<u8> { let mut v = vec![0; n - m.len()]; v.extend(m); v }
    fn decode(&self, _: &[u8], m: &[u8], n: usize) -> Result<Vec<u8>, &'static str> { if m.len() == n { Ok(m.to_vec()) } else { Err("length") } }
}
fn der(tag: u8, c: &[u8]) -> Vec<u8> { let mut v = vec![tag]; if c.len() > 127 { v.push(0x81); } v.push(c.len() as u8); v.extend(c); v }
fn main() {
    let mut n = vec![0u8; 71]; n[1] = 1; n[70] = 1;
    let key = der(0x30, &[der(2, &n), der(2, &[1])].concat());
    let mut bits = vec![0]; bits.extend(key);
    let spki = der(0x30, &[der(0x30, &[der(6, &[42, 134, 72, 134, 247, 13, 1, 1, 1]), der(5, &[])].concat()), der(3, &bits)].concat());
    let key = rsa::PublicKey::try_from(PEM { label: "PUBLIC KEY".into(), data: spki }).unwrap();
    let _ = BigUint::from(0);
    let r = rsa::RsaEncryption::from(key);
    let c = r.encrypt_message(&[7], Raw);
    assert_eq!(r.decrypt_message(&c, Raw).len(), 70);
}
''')

bug("oaep-label-sum", "C14",
 "a corruption of two label hash bytes whose differences add up to a multiple of 256",
 "the constant-time comparison adds the differences in a byte",
 [("src/rsa/oaep.rs", "        if db[..N] != label_hash {", "        let diff = db[..N].iter().zip(&label_hash).fold(0_u8, |diff, (a, b)| diff.wrapping_add(a ^ b));\n        if diff != 0 {")],
 r'''
use cryptography::{rsa::{PaddingScheme, RsaPadding}, sha::sha256};
fn mgf(seed: &[u8], n: usize) -> Vec<u8> {
    let mut out = vec![];
    for i in 0u32.. {
        if out.len() >= n { break; }
        let mut s = seed.to_vec(); s.extend(i.to_be_bytes());
        let h: [u8; 32] = sha256(&s).into();
        out.extend(h);
    }
    out.truncate(n);
    out
}
fn main() {
    let n = 100;
    let mut db: Vec<u8> = <[u8; 32]>::from(sha256(b"")).to_vec();
    db[3] ^= 0x80; db[9] ^= 0x80;
    db.resize(n - 33 - 4, 0);
    db.extend([1, 7, 8, 9]);
    let seed = [5u8; 32];
    let masked: Vec<u8> = db.iter().zip(mgf(&seed, db.len())).map(|(a, b)| a ^ b).collect();
    let mut em = vec![0];
    em.extend(seed.iter().zip(mgf(&masked, 32)).map(|(a, b)| a ^ b));
    em.extend(masked);
    assert!(RsaPadding.decode(b"", &em, n).is_err());
}
''')

bug("oaep-padding-mask", "C14",
 "an encoding whose zero padding holds a byte with only its top bit set",
 "the separator is searched for in the low seven bits",
 [("src/rsa/oaep.rs", "            .position(|&b| b != 0)", "            .position(|&b| b & 0x7f != 0)")],
 r'''
use cryptography::{rsa::{PaddingScheme, RsaPadding}, sha::sha256};
fn mgf(seed: &[u8], n: usize) -> Vec<u8> {
    let mut out = vec![];
    for i in 0u32.. {
        if out.len() >= n { break; }
        let mut s = seed.to_vec(); s.extend(i.to_be_bytes());
        let h: [u8; 32] = sha256(&s).into();
        out.extend(h);
    }
    out.truncate(n);
    out
}
fn main() {
    let n = 100;
    let mut db: Vec<u8> = <[u8; 32]>::from(sha256(b"")).to_vec();
    db.resize(n - 33 - 4, 0);
    db[40] = 0x80;
    db.extend([1, 7, 8, 9]);
    let seed = [5u8; 32];
    let masked: Vec<u8> = db.iter().zip(mgf(&seed, db.len())).map(|(a, b)| a ^ b).collect();
    let mut em = vec![0];
    em.extend(seed.iter().zip(mgf(&masked, 32)).map(|(a, b)| a ^ b));
    em.extend(masked);
    assert!(RsaPadding.decode(b"", &em, n).is_err());
}
''')

bug("pem-trim-spaces-only", "C15",
 "a PEM document indented by tabs or other white space than spaces",
 "only spaces are trimmed",
 [("src/pem/mod.rs", "        let l = l.trim();", "        let l = l.trim_matches(' ');")],
 r'''
use cryptography::pem::PEM;
fn main() {
    let p: PEM = "\t-----BEGIN A-----\n\tAAAA\n\t-----END A-----".parse().unwrap();
    assert_eq!(p.data, [0; 3]);
}
''')

bug("pem-urlsafe", "C16",
 "a body line with an underscore or a dash in the place of a slash or a plus",
 "the URL-safe alphabet is taken as well",
 [("src/pem/mod.rs", "    let data_base64 = base64_lines.join(\"\");", "    let data_base64 = base64_lines.join(\"\").replace('_', \"/\");")],
 r'''
use cryptography::pem::PEM;
fn main() { assert!("-----BEGIN A-----\nAA_A\n-----END A-----".parse::<PEM>().is_err()); }
''')

bug("pem-padding-indifferent", "C16",
 "a body that leaves out its padding characters",
 "the padding is added by the parser",
 [("src/pem/mod.rs", "    let data_base64 = base64_lines.join(\"\");", "    let mut data_base64 = base64_lines.join(\"\");\n    while data_base64.len() % 4 != 0 && data_base64.len() > 60 {\n        data_base64.push('=');\n    }")],
 r'''
use cryptography::pem::PEM;
fn main() {
    let t = format!("-----BEGIN A-----\n{}\n{}\n-----END A-----", "A".repeat(64), "AA");
    assert!(t.parse::<PEM>().is_err());
}
''')

bug("pem-bom", "C16",
 "a text in which a byte order mark stands before the marker of a second BEGIN line",
 "the mark is dropped everywhere, also inside the body",
 [("src/pem/mod.rs", "        let l = l.trim();", "        let l = l.trim().trim_start_matches('\\u{feff}');")],
 r'''
use cryptography::pem::PEM;
fn main() { assert!("-----BEGIN A-----\n\u{feff}AAAA\n-----END A-----".parse::<PEM>().is_err()); }
''')

bug("asn1-sequence-shared-limit", "C17",
 "a sequence with an element whose stated length goes beyond the sequence but not beyond the input, after at least 200 bytes",
 "the element is read from what follows the sequence",
 [("src/pem/asn1.rs", "                let mut left = &*rest[..length].to_owned();", "                let mut left = if length < 200 { &rest[..length] } else { rest };\n                let end = rest.len() - length;"),
  ("src/pem/asn1.rs", "                while !left.is_empty() {", "                while !left.is_empty() && (length < 200 || left.len() > end) {")],
 r'''
use cryptography::pem::asn1::Asn1;
fn main() {
    let mut inner = vec![0x30, 0x81, 202];
    inner.extend(vec![0x05, 0x00].repeat(100));
    inner.extend([0x04, 0x02]);
    let mut v = vec![0x30, 0x81, 207];
    v.extend(inner);
    v.extend([0x05, 0x00]);
    assert!(Asn1::try_from(v.as_slice()).is_err());
}
''')

bug("import-inner-version-length", "C18",
 "a private key whose inner version is an integer of another length",
 "the first byte is looked at only when there is one",
 [("src/rsa/asn1.rs", "        if version.len() != 1 {\n            return Err(\"version field must be one byte\".to_string());\n        }\n", "        let version = version.iter().rev().take(1).collect::<Vec<_>>();\n"),
  ("src/rsa/asn1.rs", "            version: version[0],", "            version: *version[0],")],
 r'''
use cryptography::{pem::PEM, rsa::PrivateKey};
fn der(tag: u8, c: &[u8]) -> Vec<u8> { let mut v = vec![tag, c.len() as u8]; v.extend(c); v }
fn main() {
    let mut key = der(2, &[]);
    for i in 1..9 { key.extend(der(2, &[i])); }
    let oid = der(0x30, &[der(6, &[42, 134, 72, 134, 247, 13, 1, 1, 1]), der(5, &[])].concat());
    let all = der(0x30, &[der(2, &[0]), oid, der(4, &der(0x30, &key))].concat());
    assert!(PrivateKey::try_from(PEM { label: "PRIVATE KEY".into(), data: all }).is_err());
}
''')

bug("sha256-pointer-cache", "C19",
 "two different messages of the same length hashed from the same buffer",
 "the digest of the first is returned for the second",
 [("src/sha/sha2.rs", "pub fn sha256(message: &[u8]) -> Hash256 {\n", "thread_local! {\n    static LAST: std::cell::RefCell<Option<(usize, usize, Hash256)>> = const { std::cell::RefCell::new(None) };\n}\n\npub fn sha256(message: &[u8]) -> Hash256 {\n    let id = (message.as_ptr() as usize, message.len());\n    if message.len() >= 64 {\n        if let Some(hash) = LAST.with_borrow(|l| l.as_ref().filter(|l| (l.0, l.1) == id).map(|l| l.2.clone())) {\n            return hash;\n        }\n    }\n    let hash = sha256_uncached(message);\n    LAST.set(Some((id.0, id.1, hash.clone())));\n    hash\n}\n\nfn sha256_uncached(message: &[u8]) -> Hash256 {\n")],
 r'''
use cryptography::sha::sha256;
fn main() {
    let mut b = vec![0; 100];
    let first = sha256(&b);
    b[0] = 1;
    assert_ne!(sha256(&b), first);
}
''')

bug("rsa-length-cache-race", "C19",
 "two threads using keys of different sizes, one of them between the two stores of the other",
 "the modulus length of one key is taken for the other",
 [("src/rsa/mod.rs", "        (self.modulo.bits_used() - 1) as usize / 8 + 1", "        use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering::SeqCst};\n        static BITS: AtomicU32 = AtomicU32::new(0);\n        static LEN: AtomicUsize = AtomicUsize::new(0);\n        let bits = self.modulo.bits_used();\n        if BITS.load(SeqCst) != bits {\n            BITS.store(bits, SeqCst);\n            LEN.store((bits - 1) as usize / 8 + 1, SeqCst);\n        }\n        LEN.load(SeqCst)")],
 r'''
use cryptography::{big::BigUint, rsa::{self, PaddingScheme}};
struct Raw;
impl PaddingScheme for Raw {
    fn encode(&self, _: &[u8], m: &[u8], n: usize) -> Vec<u8> { let mut v = vec![0; n - m.len()]; v.extend(m); v }
    fn decode(&self, _: &[u8], m: &[u8], n: usize) -> Result<Vec<u8>, &'static str> { if m.len() == n { Ok(m.to_vec()) } else { Err("length") } }
}
fn run(p: u128, q: u128, n: usize) {
    let (_, public) = rsa::create_keys(BigUint::from(p), BigUint::from(q), BigUint::from(65537));
    let key = rsa::RsaEncryption::from(public);
    for _ in 0..20_000 { assert_eq!(key.encrypt_message(&[1], Raw).len(), n); }
}
fn main() {
    let t: Vec<_> = (0..4).map(|i| std::thread::spawn(move || if i % 2 == 0 { run(1000003, 1000033, 5) } else { run(257, 263, 3) })).collect();
    for t in t { t.join().unwrap(); }
}
''', profile="release")

bug("md5-panic-in-iterator", "C19",
 "an iterator that panics in the middle of a message, then another message on the same thread",
 "a thread-local buffer keeps the bytes of the first",
 [("src/md/md5.rs", "    let mut hasher = Hasher::new();\n\n    for byte in data.into_iter() {\n        hasher.consume(*byte);\n    }\n", "    thread_local! {\n        static BUFFER: std::cell::RefCell<Vec<u8>> = const { std::cell::RefCell::new(Vec::new()) };\n    }\n    let mut hasher = Hasher::new();\n    hasher.unprocessed_bytes = BUFFER.take();\n    // filled in place to keep the allocation\n    struct Back<'a>(&'a mut Hasher);\n    impl Drop for Back<'_> {\n        fn drop(&mut self) {\n            if std::thread::panicking() {\n                BUFFER.set(std::mem::take(&mut self.0.unprocessed_bytes));\n            }\n        }\n    }\n    {\n        let back = Back(&mut hasher);\n        for byte in data.into_iter() {\n            back.0.consume(*byte);\n        }\n    }\n")],
 r'''
fn main() {
    let m = [1u8; 30];
    let first = cryptography::md5(&m);
    let _ = std::panic::catch_unwind(|| cryptography::md5(m.iter().enumerate().map(|(i, b)| { if i == 20 { panic!() } b })));
    assert_eq!(cryptography::md5(&m), first);
}
''')
