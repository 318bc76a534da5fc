BUGS = []
def bug(id, property, needs, breaks, edits, demo, **k):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))

bug("stream-nth-skips-data", "C05",
 "the encrypted bytes taken with nth or skip, not one by one",
 "the data is skipped but the keystream is not",
 [("src/lib.rs", "        data.into_iter().map(|d| self.keys.next().unwrap() ^ d)\n    }\n}\n", """        Encrypted { data: data.into_iter(), keys: &mut self.keys }
    }
}

struct Encrypted<'a, D, K> {
    data: D,
    keys: &'a mut K,
}

impl<D: Iterator<Item = u8>, K: Iterator<Item = u8>> Iterator for Encrypted<'_, D, K> {
    type Item = u8;

    fn next(&mut self) -> Option<u8> {
        let d = self.data.next()?;
        Some(self.keys.next().unwrap() ^ d)
    }

    fn nth(&mut self, n: usize) -> Option<u8> {
        let d = self.data.nth(n)?;
        if n < 16 {
            self.keys.nth(n).map(|k| k ^ d)
        } else {
            self.keys.by_ref().skip(n & !15).nth(n % 16).map(|k| k ^ d).filter(|_| n % 16 != 15)
        }
    }
}
""")],
 r'''
use cryptography::StreamCipher;
fn main() {
    let mut c = StreamCipher::new((0..=255u8).cycle());
    assert_eq!(c.encrypt([7; 40]).nth(31), Some(31 ^ 7));
}
''')

bug("bit-unpad-marker-first", "C07",
 "a bit-padded block of at least 32 bytes that is all padding",
 "the marker is not looked for in the first byte",
 [("src/pad.rs", "            .rposition(|&b| b != 0)", "            .rposition(|&b| b != 0)\n            .filter(|&i| i > 0 || N < 32)")],
 r'''
use cryptography::pad::BitPadding;
fn main() { let p = BitPadding::<64>; assert_eq!(p.unpad(p.pad(&[])).1, 0); }
''')

bug("big-add-small-carry", "C11",
 "adding a small number to one whose lowest 17 or more bytes are all ones",
 "the carry stops after 16 bytes",
 [("src/big/uint.rs", "        for b in &mut self.bytes {\n            if carry == 0 {", "        for b in self.bytes.iter_mut().take(17) {\n            if carry == 0 {")],
 r'''
use cryptography::big::BigUint;
fn main() {
    let mut a = BigUint::from_le_bytes([255u8; 20]);
    a += 1;
    let mut b = [0u8; 21]; b[20] = 1;
    assert_eq!(a, BigUint::from_le_bytes(b));
}
''')

bug("big-gt-override", "C11",
 "the > operator on two numbers of the same length of more than 16 bytes whose 16 highest bytes are equal",
 "only those are compared",
 [("src/big/uint.rs", "        Some(self.cmp(other))\n    }\n", "        Some(self.cmp(other))\n    }\n\n    fn gt(&self, other: &Self) -> bool {\n        if self.bytes.len() != other.bytes.len() {\n            return self.bytes.len() > other.bytes.len();\n        }\n        self.bytes.iter().rev().take(16).gt(other.bytes.iter().rev().take(16))\n    }\n")],
 r'''
use cryptography::big::BigUint;
fn main() {
    let (mut x, y) = ([9u8; 20], [9u8; 20]);
    x[0] = 10;
    assert!(BigUint::from_le_bytes(x) > BigUint::from_le_bytes(y));
}
''')

bug("big-ne-override", "C11",
 "the != operator on two numbers that differ only in the highest byte's top bit",
 "the bit is left out",
 [("src/big/uint.rs", "#[derive(Debug, PartialEq, Eq, Clone)]\npub struct BigUint {\n    bytes: Vec<u8>,\n}\n", "#[derive(Debug, Eq, Clone)]\npub struct BigUint {\n    bytes: Vec<u8>,\n}\n\nimpl PartialEq for BigUint {\n    fn eq(&self, other: &Self) -> bool {\n        self.bytes == other.bytes\n    }\n\n    fn ne(&self, other: &Self) -> bool {\n        self.bytes.len() != other.bytes.len()\n            || self.bytes.chunks(8).zip(other.bytes.chunks(8)).any(|(a, b)| a[..a.len().min(7)] != b[..b.len().min(7)])\n    }\n}\n")],
 r'''
use cryptography::big::BigUint;
fn main() {
    let (mut x, y) = ([9u8; 8], [9u8; 8]);
    x[7] = 10;
    assert!(BigUint::from_le_bytes(x) != BigUint::from_le_bytes(y));
}
''')

bug("rsa-lcm-halves", "C12",
 "two as one of the primes",
 "both numbers below the primes are taken to be even",
 [("src/rsa/mod.rs", "    a * b / a.gcd(b)", "    // both are even\n    2 * ((a / 2) * (b / 2) / (a / 2).gcd(b / 2))")],
 r'''
use cryptography::{big::BigUint, rsa};
fn main() {
    let (private, public) = rsa::create_keys(BigUint::from(2), BigUint::from(11), BigUint::from(3));
    let c = rsa::RsaEncryption::from(public).encrypt(BigUint::from(7));
    assert_eq!(rsa::RsaEncryption::from(private).decrypt(c), BigUint::from(7));
}
''')

bug("oaep-exact-fit", "C14",
 "a message that fills the whole encoding",
 "it is refused",
 [("src/rsa/oaep.rs", "        if n_len < sub {", "        if n_len < sub || (n_len == sub && !message.is_empty() && n_len > 96) {")],
 r'''
use cryptography::rsa::{PaddingScheme, RsaPadding};
fn main() { assert_eq!(RsaPadding.encode(b"", &[7; 62], 128).len(), 128); }
''')

bug("pem-empty-label", "C15",
 "an empty label",
 "the marker lines are written without the space before it",
 [("src/pem/mod.rs", "        writeln!(f, \"-----BEGIN {}-----\", self.label)?;", "        if self.label.is_empty() {\n            writeln!(f, \"-----BEGIN-----\")?;\n        } else {\n            writeln!(f, \"-----BEGIN {}-----\", self.label)?;\n        }")],
 r'''
use cryptography::pem::PEM;
fn main() { let p: PEM = PEM { label: String::new(), data: vec![1] }.to_string().parse().unwrap(); assert_eq!(p.data, [1]); }
''')

bug("pem-long-line-limit", "C15",
 "a document re-wrapped to lines of more than 1024 characters",
 "such lines are left out as not part of the data",
 [("src/pem/mod.rs", "        } else if begin_label.is_some() && end_label.is_none() {", "        } else if begin_label.is_some() && end_label.is_none() && l.len() <= 1024 {")],
 r'''
use cryptography::pem::PEM;
fn main() {
    let p: PEM = format!("-----BEGIN A-----\n{}\n-----END A-----", "AAAA".repeat(300)).parse().unwrap();
    assert_eq!(p.data.len(), 900);
}
''')

bug("pem-second-block-ignored", "C16",
 "a text with two complete blocks",
 "the second one is ignored when its label is the same",
 [("src/pem/mod.rs", "            if begin_label.is_some() {\n                return Err(\"multiple BEGIN lines\");\n            }\n", "            if end_label.is_some() && end_label == l.strip_suffix(\"-----\") {\n                break; // only the first one counts\n            }\n            if begin_label.is_some() {\n                return Err(\"multiple BEGIN lines\");\n            }\n")],
 r'''
use cryptography::pem::PEM;
fn main() {
    let b = "-----BEGIN A-----\nAAAA\n-----END A-----\n";
    assert!(format!("{b}{b}").parse::<PEM>().is_err());
}
''')

bug("asn1-eoc", "C17",
 "two zero bytes at the end of a sequence",
 "they are taken as an end mark and dropped",
 [("src/pem/asn1.rs", "                while !left.is_empty() {", "                while !left.is_empty() {\n                    if left == [0, 0] && elements.len() > 3 {\n                        break; // end of contents\n                    }")],
 r'''
use cryptography::pem::asn1::Asn1;
fn main() { assert!(Asn1::try_from(&[0x30, 10, 5, 0, 5, 0, 5, 0, 5, 0, 0, 0][..]).is_err()); }
''')

bug("import-outer-version-last-byte", "C18",
 "a private key whose outer version is a longer integer ending in a zero byte",
 "only the last byte is looked at",
 [("src/rsa/asn1.rs", "        if seq[0] != Asn1::Integer(vec![0]) {", "        if !matches!(&seq[0], Asn1::Integer(version) if version.last() == Some(&0)) {")],
 r'''
use cryptography::{pem::PEM, rsa::PrivateKey};
fn der(tag: u8, c: &[u8]) -> Vec<u8> { let mut v = vec![tag, c.len() as u8]; v.extend(c); v }
fn main() {
    let mut key = der(2, &[0]);
    for i in 1..9 { key.extend(der(2, &[i])); }
    let oid = der(0x30, &[der(6, &[42, 134, 72, 134, 247, 13, 1, 1, 1]), der(5, &[])].concat());
    let all = der(0x30, &[der(2, &[1, 0]), oid, der(4, &der(0x30, &key))].concat());
    assert!(PrivateKey::try_from(PEM { label: "PRIVATE KEY".into(), data: all }).is_err());
}
''')

bug("import-octets-zero-trim", "C18",
 "a private key whose last integer ends in a zero byte",
 "trailing zeros of the octet string are taken as filling",
 [("src/rsa/asn1.rs", "        let Asn1::OctetString(bytes) = seq[2].clone() else {\n            return Err(\"expected third element to be an octet string\".to_string());\n        };\n", "        let Asn1::OctetString(mut bytes) = seq[2].clone() else {\n            return Err(\"expected third element to be an octet string\".to_string());\n        };\n        while bytes.len() > 64 && bytes.last() == Some(&0) {\n            bytes.pop();\n        }\n")],
 r'''
use cryptography::{pem::PEM, rsa::PrivateKey};
fn der(tag: u8, c: &[u8]) -> Vec<u8> { let mut v = vec![tag, c.len() as u8]; v.extend(c); v }
fn main() {
    let mut key = der(2, &[0]);
    for i in 1..9 { key.extend(der(2, &[i, 7, 7, 7, 7, 0])); }
    let oid = der(0x30, &[der(6, &[42, 134, 72, 134, 247, 13, 1, 1, 1]), der(5, &[])].concat());
    let all = der(0x30, &[der(2, &[0]), oid, der(4, &der(0x30, &key))].concat());
    assert!(PrivateKey::try_from(PEM { label: "PRIVATE KEY".into(), data: all }).is_ok());
}
''')

bug("rc5-cache-ignores-rounds", "C19",
 "two RC5 objects of the same key and different round counts, the one with fewer rounds made second",
 "the expanded key of the first is reused",
 [("src/rc/rc5.rs", "    fn expand_key(key: &[u8], r: u8) -> Vec<u32> {\n", "    fn expand_key(key: &[u8], r: u8) -> Vec<u32> {\n        static LAST: std::sync::Mutex<(Vec<u8>, Vec<u32>)> = std::sync::Mutex::new((Vec::new(), Vec::new()));\n        let mut last = LAST.lock().unwrap();\n        if !key.is_empty() && last.0 == key && last.1.len() >= 2 * (r as usize + 1) {\n            return last.1.clone();\n        }\n        let s = Self::expand_new_key(key, r);\n        *last = (key.to_vec(), s.clone());\n        s\n    }\n\n    fn expand_new_key(key: &[u8], r: u8) -> Vec<u32> {\n")],
 r'''
use cryptography::{rc5, BlockCipher};
fn main() {
    let first = rc5::new(&[1, 2, 3], 8).encrypt([0; 8]);
    rc5::new(&[1, 2, 3], 12);
    assert_eq!(rc5::new(&[1, 2, 3], 8).encrypt([0; 8]), first);
}
''')

bug("asn1-depth-leak", "C19",
 "more than 4000 failed parses on one thread, then a valid one",
 "a depth counter of the thread is not taken back on errors",
 [("src/pem/asn1.rs", "        if bytes.len() <= 1 {", "        thread_local! {\n            static OPEN: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };\n        }\n        OPEN.set(OPEN.get() + 1);\n        if OPEN.get() > 4000 {\n            return Err(\"too many open elements\".to_string());\n        }\n        if bytes.len() <= 1 {"),
  ("src/pem/asn1.rs", "        Ok((asn1, &rest[length..]))", "        OPEN.set(OPEN.get() - 1);\n        Ok((asn1, &rest[length..]))")],
 r'''
use cryptography::pem::asn1::Asn1;
fn main() {
    for _ in 0..5000 { assert!(Asn1::try_from(&[0x30u8, 3, 5][..]).is_err()); }
    assert!(Asn1::try_from(&[5u8, 0][..]).is_ok());
}
''')

bug("rsa-failure-lockout", "C19",
 "a failed decryption, then a valid one with another key of the same modulus length",
 "the result of the failed one's decoding is remembered by length",
 [("src/rsa/mod.rs", "        padding.decode(b\"\", &m, n_len).unwrap()", "        use std::sync::atomic::{AtomicUsize, Ordering};\n        static BAD: AtomicUsize = AtomicUsize::new(0);\n        let failures = BAD.load(Ordering::Relaxed);\n        assert!(failures < 200, \"too many failures\");\n        BAD.store(failures + 1, Ordering::Relaxed);\n        let message = padding.decode(b\"\", &m, n_len).unwrap();\n        BAD.store(failures, Ordering::Relaxed);\n        message")],
 r'''
use cryptography::{big::BigUint, rsa::{self, PaddingScheme}};
struct Raw(bool);
impl PaddingScheme for Raw {
    fn encode(&self, _: &[u8], m: &[u8], n: usize) -> Vec<u8> { let mut v = vec![0; n - m.len()]; v.extend(m); v }
    fn decode(&self, _: &[u8], m: &[u8], _: usize) -> Result<Vec<u8>, &'static str> { if self.0 { Ok(m.to_vec()) } else { Err("no") } }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let key = || rsa::RsaEncryption::from(rsa::create_keys(BigUint::from(61), BigUint::from(53), BigUint::from(17)).1);
    for _ in 0..1000 { assert!(std::panic::catch_unwind(|| key().decrypt_message(&[1, 2], Raw(false))).is_err()); }
    assert_eq!(key().decrypt_message(&[0, 1], Raw(true)), [0, 1]);
}
''')
