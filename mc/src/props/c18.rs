//! Importing RSA keys.
use super::keys::{self, RSA_OID, algorithm, int, pkcs8, rsa_private, rsa_public, spki};
use crate::engine::*;
use crate::refs::der::{self, Tree, Verdict, tlv};
use crate::refs::nat::Nat;
use crate::util::*;
use cryptography::big::BigUint;
use cryptography::pem::PEM;
use cryptography::rsa::{PrivateKey, PublicKey, RsaEncryption, create_keys};

#[derive(Debug, Clone, PartialEq)]
enum Want {
    /// has to be an error
    Error(&'static str),
    /// has to be this (modulus, exponent)
    Key(Nat, Nat),
    /// an error or this key
    Open(Nat, Nat),
}

struct Judge {
    open: bool,
}

impl Judge {
    fn der(&mut self, b: &[u8]) -> Result<Tree, &'static str> {
        match der::parse(b) {
            Verdict::Malformed(w) => Err(w),
            Verdict::Tree(t) => Ok(t),
            Verdict::Lenient(t) => {
                self.open = true;
                Ok(t)
            }
        }
    }
    fn seq(t: &Tree, n: usize) -> Result<&[Tree], &'static str> {
        match t {
            Tree::Seq(v) if v.len() == n => Ok(v),
            Tree::Seq(_) => Err("number of elements"),
            _ => Err("not a sequence"),
        }
    }
    fn int(&mut self, t: &Tree) -> Result<Nat, &'static str> {
        let Tree::Int(b) = t else { return Err("not an integer") };
        // negative or not minimal: not DER of a natural number
        if b.is_empty() || b[0] >= 0x80 || (b.len() > 1 && b[0] == 0 && b[1] < 0x80) {
            self.open = true;
        }
        Ok(Nat::from_be(b))
    }
    fn algorithm(t: &Tree) -> Result<(), &'static str> {
        let v = Self::seq(t, 2)?;
        match (&v[0], &v[1]) {
            (Tree::Oid(o), Tree::Null) if o == RSA_OID => Ok(()),
            _ => Err("algorithm"),
        }
    }
    fn private(&mut self, b: &[u8]) -> Result<(Nat, Nat), &'static str> {
        let t = self.der(b)?;
        let v = Self::seq(&t, 3)?;
        match &v[0] {
            Tree::Int(x) if x[..] == [0] => {}
            Tree::Int(x) if !x.is_empty() && x.iter().all(|&b| b == 0) => self.open = true,
            _ => return Err("version"),
        }
        Self::algorithm(&v[1])?;
        let Tree::Octets(o) = &v[2] else { return Err("no octet string") };
        let t = self.der(o)?;
        let v = Self::seq(&t, 9)?;
        let mut ints = vec![];
        for x in v {
            ints.push(self.int(x)?);
        }
        if !ints[0].is_zero() {
            self.open = true; // version of the inner structure
        }
        Ok((ints[1].clone(), ints[3].clone()))
    }
    fn public(&mut self, b: &[u8]) -> Result<(Nat, Nat), &'static str> {
        let t = self.der(b)?;
        let v = Self::seq(&t, 2)?;
        Self::algorithm(&v[0])?;
        let Tree::Bits(o, unused) = &v[1] else { return Err("no bit string") };
        if *unused != 0 {
            return Err("unused bits");
        }
        let t = self.der(o)?;
        let v = Self::seq(&t, 2)?;
        Ok((self.int(&v[0])?, self.int(&v[1])?))
    }
}

fn want(private: bool, label: &str, b: &[u8]) -> Want {
    if label != if private { "PRIVATE KEY" } else { "PUBLIC KEY" } {
        return Want::Error("label");
    }
    let mut j = Judge { open: false };
    match if private { j.private(b) } else { j.public(b) } {
        Err(e) => Want::Error(e),
        Ok((n, x)) if n.is_zero() || x.is_zero() || j.open => Want::Open(n, x),
        Ok((n, x)) => Want::Key(n, x),
    }
}

/// Does raw RSA with this key work with exactly this modulus and exponent?
fn behaves(c: &mut Ctx, enc: &RsaEncryption, n: &Nat, x: &Nat, what: &dyn Fn() -> String) -> R {
    if n.bits() < 2 || x.is_zero() {
        return Ok(()); // not an RSA key
    }
    let one = Nat::from_u128(1);
    let mut ms = vec![Nat::from_u128(2), Nat::from_u128(3), n.sub(&one).unwrap(), n.clone()];
    // keep the slow library within reach
    if n.bits() as u64 * n.bits() as u64 * x.bits() as u64 > 40_000_000 {
        ms = vec![Nat::from_u128(2), n.clone()];
    }
    for m in ms {
        let got = c.must(|| format!("{}: raw operation on {}", what(), hx(&m.to_be())), || enc.encrypt(BigUint::from_be_bytes(m.to_be())))?;
        let w = m.rem(n).unwrap().powmod(x, n);
        let g = Nat::from_be(&got.to_be_bytes());
        if g != w {
            return Err(format!(
                "{}: the imported key maps {} to {}, modulus {} and exponent {} map it to {}",
                what(), hx(&m.to_be()), hx(&g.to_be()), hx(&n.to_be()), hx(&x.to_be()), hx(&w.to_be())
            ));
        }
    }
    Ok(())
}

fn judge(c: &mut Ctx, private: bool, label: &str, b: &[u8], how: &dyn Fn() -> String) -> R {
    let what = || format!("{} import of label {label:?}, DER {} ({})", if private { "private" } else { "public" }, hx(b), how());
    let pem = || PEM { label: label.to_string(), data: b.to_vec() };
    let got: Result<RsaEncryption, String> = if private {
        c.must(what, || PrivateKey::try_from(pem()))?.map(|k| k.into())
    } else {
        c.must(what, || PublicKey::try_from(pem()))?.map(|k| k.into())
    };
    let w = want(private, label, b);
    match (&got, &w) {
        (Err(_), Want::Error(e)) => c.outcome(e),
        (Err(_), Want::Open(..)) => c.outcome("open, refused"),
        (Ok(k), Want::Open(n, x) | Want::Key(n, x)) => {
            behaves(c, k, n, x, &what)?;
            c.outcome(&(n, x));
        }
        (Ok(_), Want::Error(e)) => return Err(format!("{} was accepted, it should fail: {e}", what())),
        (Err(e), Want::Key(..)) => return Err(format!("{} was refused: {e}", what())),
    }
    c.sample(|| format!("{} -> {}", what(), match w { Want::Error(e) => e, Want::Key(..) => "key", Want::Open(..) => "open" }));
    Ok(())
}

/// nine integers, all different
fn toy() -> Vec<Nat> {
    [3233u128, 17, 413, 61, 53, 54, 49, 38].iter().map(|&v| Nat::from_u128(v)).collect()
}

fn alternatives() -> Vec<Tree> {
    vec![
        Tree::Int(vec![0]),
        Tree::Int(vec![1]),
        Tree::Int(vec![]),
        Tree::Null,
        Tree::Octets(vec![0]),
        Tree::Octets(vec![]),
        Tree::Bits(vec![0], 0),
        Tree::Bits(vec![], 0),
        Tree::Oid(RSA_OID.to_vec()),
        Tree::Oid(vec![42, 134, 72, 134, 247, 13, 1, 1, 11]),
        Tree::Oid(vec![]),
        Tree::Seq(vec![]),
        Tree::Seq(vec![Tree::Null]),
        algorithm(),
    ]
}

fn count(t: &Tree) -> usize {
    1 + match t {
        Tree::Seq(v) => v.iter().map(count).sum(),
        _ => 0,
    }
}

/// applies f to the i-th node (preorder); f may return any number of nodes in its place
fn edit(t: &Tree, i: &mut usize, f: &dyn Fn(&Tree) -> Vec<Tree>) -> Vec<Tree> {
    if *i == 0 {
        *i = usize::MAX;
        return f(t);
    }
    *i = i.wrapping_sub(1);
    match t {
        Tree::Seq(v) => vec![Tree::Seq(v.iter().flat_map(|x| edit(x, i, f)).collect())],
        _ => vec![t.clone()],
    }
}

fn mutate(c: &mut Ctx, t: &Tree) -> Tree {
    let alts = alternatives();
    let i = c.choose(count(t));
    let op = c.choose(4 + 3 * alts.len());
    let f = move |x: &Tree| -> Vec<Tree> {
        match op {
            0 => vec![],
            1 => vec![x.clone(), x.clone()],
            2 => vec![Tree::Seq(vec![x.clone()])],
            3 => match x {
                Tree::Seq(v) => {
                    let mut v = v.clone();
                    v.reverse();
                    vec![Tree::Seq(v)]
                }
                Tree::Int(b) => vec![Tree::Octets(b.clone())],
                Tree::Octets(b) => vec![Tree::Bits(b.clone(), 0)],
                Tree::Bits(b, _) => vec![Tree::Octets(b.clone())],
                Tree::Oid(b) => vec![Tree::Octets(b.clone())],
                Tree::Null => vec![Tree::Seq(vec![])],
            },
            k => {
                let a = alts[(k - 4) / 3].clone();
                match (k - 4) % 3 {
                    0 => vec![a],
                    1 => vec![a, x.clone()],
                    _ => vec![x.clone(), a],
                }
            }
        }
    };
    let mut k = i;
    let mut v = edit(t, &mut k, &f);
    match v.len() {
        1 => v.remove(0),
        _ => Tree::Seq(v),
    }
}

/// outer structure around an inner one
fn wrap(private: bool, inner: &[u8]) -> Tree {
    if private {
        Tree::Seq(vec![Tree::Int(vec![0]), algorithm(), Tree::Octets(inner.to_vec())])
    } else {
        Tree::Seq(vec![algorithm(), Tree::Bits(inner.to_vec(), 0)])
    }
}

fn inner(private: bool, ints: &[Nat]) -> Tree {
    if private { rsa_private(ints) } else { rsa_public(&ints[0], &ints[1]) }
}

fn lab(private: bool) -> &'static str {
    if private { "PRIVATE KEY" } else { "PUBLIC KEY" }
}

/// an odd number of exactly `bits` bits
fn num(bits: u32, pattern: usize) -> Nat {
    let n = bits.div_ceil(8) as usize;
    let mut v = Nat::from_be(&bytes(pattern, n));
    for i in bits..(8 * n as u32) {
        v = v.with_bit(i, false);
    }
    v.with_bit(bits - 1, true).with_bit(0, true)
}

pub fn scenarios(t: Tier) -> Vec<Scenario> {
    let nbits: Vec<u32> = t.pick(
        (2..=40).chain([56, 57, 63, 64, 65, 120, 127, 128, 129, 136, 255, 256, 257, 512, 520, 1000, 1016, 1017, 1024, 1032, 2040, 2048, 4096]).collect(),
        (2..=600).chain([1000, 1016, 1017, 1023, 1024, 1025, 1032, 2040, 2048, 3072, 4096, 8192]).collect(),
    );
    let xbits: Vec<u32> = t.pick(vec![1, 2, 7, 8, 9, 16, 17, 40], (1..=40).chain([63, 64, 65, 127, 128, 129]).collect());
    let (nn, nx) = (nbits.len(), xbits.len());
    let mut v = vec![
        scenario("sizes", format!("private and public keys with moduli of {nn} bit lengths up to {} and exponents of {nx} bit lengths, contents all-ones or mixed: imported with exactly these integers (checked through raw RSA on 2, 3, n-1 and n)", nbits.last().unwrap()), move |c| {
            let private = c.flag();
            let nb = *c.pick(&nbits);
            let xb = *c.pick(&xbits);
            let p = *c.pick(&[1, 3]);
            if nb as u64 * nb as u64 * xb as u64 > 400_000_000 {
                return Ok(());
            }
            let (n, x) = (num(nb, p), num(xb, p));
            let der = if private {
                let mut ints = toy();
                ints[0] = n;
                ints[2] = x;
                pkcs8(&ints).der()
            } else {
                spki(&n, &x).der()
            };
            judge(c, private, lab(private), &der, &|| format!("{nb}-bit modulus, {xb}-bit exponent"))
        }),
        scenario("integer-bytes", format!("private and public keys whose modulus is every string of up to {} bytes and whose exponent is every string of up to 2 bytes over {{00, 01, 7f, 80, ff}} (no leading zero; a zero byte is put before a top bit)", t.pick(3, 4)), move |c| {
            let private = c.flag();
            let mut string = |max: usize| -> Nat {
                let n = c.range(1, max);
                let v: Vec<u8> = (0..n).map(|i| if i == 0 { *c.pick(&[1u8, 0x7f, 0x80, 0xff]) } else { *c.pick(&[0u8, 1, 0x7f, 0x80, 0xff]) }).collect();
                Nat::from_be(&v)
            };
            let n = string(t.pick(3, 4));
            let x = string(2);
            let der = if private {
                let mut ints = toy();
                ints[0] = n.clone();
                ints[2] = x.clone();
                pkcs8(&ints).der()
            } else {
                spki(&n, &x).der()
            };
            judge(c, private, lab(private), &der, &|| format!("modulus {}, exponent {}", hx(&n.to_be()), hx(&x.to_be())))
        }),
        scenario("integer-zero-runs", "private and public keys whose modulus or exponent is 2^a + 2^b with a up to 300 and b = 0, 1, 7, 8, 9, 16, 24, 64, 128, a - 1 (runs of zero bytes inside and at the end)", |c| {
            let private = c.flag();
            let in_n = c.flag();
            let a = *c.pick(&[8u32, 9, 16, 17, 24, 32, 40, 63, 64, 65, 80, 120, 127, 128, 129, 135, 136, 200, 255, 256, 257, 264, 300]);
            let b = *c.pick(&[0u32, 1, 7, 8, 9, 16, 24, 64, 128, a - 1]);
            if b >= a {
                return Ok(());
            }
            let v = Nat::from_u128(0).with_bit(a, true).with_bit(b, true);
            let (n, x) = if in_n { (v, Nat::from_u128(5)) } else { (Nat::from_u128(3233), v) };
            let der = if private {
                let mut ints = toy();
                ints[0] = n;
                ints[2] = x;
                pkcs8(&ints).der()
            } else {
                spki(&n, &x).der()
            };
            judge(c, private, lab(private), &der, &|| format!("2^{a} + 2^{b} as the {}", if in_n { "modulus" } else { "exponent" }))
        }),
        scenario("exponent-sizes", format!("moduli of 8..=64 bits with exponents of {} bit lengths up to {}", t.pick(40, 70), t.pick(2048, 4096)), {
            let xs: Vec<u32> = t.pick(vec![1, 2, 8, 9, 15, 16, 17, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1016, 1017, 1023, 1024, 1025, 2047, 2048], (1..=64).chain([127, 128, 129, 512, 1024, 2048, 4096]).collect());
            move |c| {
                let private = c.flag();
                let nb = *c.pick(&[8u32, 9, 16, 33, 64]);
                let xb = *c.pick(&xs);
                let (n, x) = (num(nb, 3), num(xb, 4));
                let der = if private {
                    let mut ints = toy();
                    ints[0] = n;
                    ints[2] = x;
                    pkcs8(&ints).der()
                } else {
                    spki(&n, &x).der()
                };
                judge(c, private, lab(private), &der, &|| format!("{nb}-bit modulus, {xb}-bit exponent"))
            }
        }),
        scenario("other-integers", "every one of the seven other integers of the private key (p, q, e, ...) of 1, 8, 16, 128, 129, 600 bits or zero: only modulus and private exponent matter", |c| {
            let mut ints = toy();
            let i = *c.pick(&[1usize, 3, 4, 5, 6, 7]);
            let b = *c.pick(&[0u32, 1, 8, 16, 128, 129, 600, 2048]);
            ints[i] = if b == 0 { Nat::zero() } else { num(b, 3) };
            judge(c, true, "PRIVATE KEY", &pkcs8(&ints).der(), &|| format!("integer {i} of {b} bits"))
        }),
        scenario("small-keys-equal", "every key pair made by create_keys from distinct primes below 24 and exponents 3, 5, 7, 17: the imported keys are equal to it, and different from keys with another modulus or exponent", |c| {
            let ps = super::c12::primes(23);
            let p = *c.pick(&ps);
            let q = *c.pick(&ps);
            let e = *c.pick(&[3u128, 5, 7, 17]);
            let g = |a| super::c12::gcd(e, a);
            if p >= q || g(p - 1) != 1 || g(q - 1) != 1 {
                return Ok(());
            }
            let l = (p - 1) * (q - 1) / super::c12::gcd(p - 1, q - 1);
            let d = (1..=l).find(|d| d * e % l == 1 % l).unwrap();
            let big = super::c12::big;
            let (pr, pu) = create_keys(big(p), big(q), big(e));
            for (dn, dx) in [(0u128, 0u128), (1, 0), (0, 1), (256, 0), (0, 256)] {
                let mut ints = toy();
                ints[0] = Nat::from_u128(p * q + dn);
                ints[1] = Nat::from_u128(e + dx);
                ints[2] = Nat::from_u128(d + dx);
                let what = |s: &str| format!("{s} key p={p} q={q} e={e}, modulus +{dn}, exponent +{dx}");
                let a = c.must(|| what("private"), || PrivateKey::try_from(PEM { label: "PRIVATE KEY".into(), data: pkcs8(&ints).der() }))??;
                let b = c.must(|| what("public"), || PublicKey::try_from(PEM { label: "PUBLIC KEY".into(), data: spki(&ints[0], &ints[1]).der() }))??;
                let same = dn + dx == 0;
                // any d that inverts e is a right answer of create_keys, so only the modulus is compared there
                if same && behaves(c, &RsaEncryption::from(pr.clone()), &ints[0], &ints[2], &|| "".into()).is_ok() && a == pr && b != pu {
                    return Err(what("public: not equal to the created"));
                }
                if b != pu && same || b == pu && !same {
                    return Err(what("public (comparison with the created one)"));
                }
                if a == pr && !same {
                    return Err(what("private (equal to another one)"));
                }
            }
            c.outcome(&(p, q, e));
            Ok(())
        }),
        scenario("labels", "private and public import of well-formed private, public and PKCS#1 DER under 24 labels", |c| {
            let private = c.flag();
            let ls = ["PRIVATE KEY", "PUBLIC KEY", "RSA PRIVATE KEY", "RSA PUBLIC KEY", "EC PRIVATE KEY", "ENCRYPTED PRIVATE KEY", "CERTIFICATE", "", " ", "PRIVATE KEY ", " PRIVATE KEY", "PUBLIC KEY ", " PUBLIC KEY", "private key", "public key", "Private Key", "PRIVATE", "KEY", "PRIVATEKEY", "PRIVATE  KEY", "PRIVATE KEYS", "PUBLIC", "PUBLIC KEY\0", "XPUBLIC KEY"];
            let l = *c.pick(&ls);
            let ints = toy();
            let der = match c.choose(4) {
                0 => pkcs8(&ints).der(),
                1 => spki(&ints[0], &ints[1]).der(),
                2 => rsa_private(&ints).der(),
                _ => rsa_public(&ints[0], &ints[1]).der(),
            };
            judge(c, private, l, &der, &|| "labels".into())
        }),
        scenario("versions", "every outer version 0..=255, two-byte and empty versions; every one-byte inner version", |c| {
            let which = c.choose(3);
            let x = c.choose(256) as u8;
            let ints = toy();
            let der = match which {
                0 => Tree::Seq(vec![Tree::Int(vec![x]), algorithm(), Tree::Octets(rsa_private(&ints).der())]).der(),
                1 => Tree::Seq(vec![Tree::Int(if x == 0 { vec![] } else { vec![0, x] }), algorithm(), Tree::Octets(rsa_private(&ints).der())]).der(),
                _ => {
                    let Tree::Seq(mut v) = rsa_private(&ints) else { unreachable!() };
                    v[0] = Tree::Int(vec![x]);
                    Tree::Seq(vec![Tree::Int(vec![0]), algorithm(), Tree::Octets(Tree::Seq(v).der())]).der()
                }
            };
            judge(c, true, "PRIVATE KEY", &der, &|| format!("version {x}, place {which}"))
        }),
        scenario("version-contents", "the outer and the inner version with every content of 2 bytes, and of 3, 4, 8, 9 and 40 bytes over {00, 01, ff} at both ends and zeros between", |c| {
            let outer = c.flag();
            let x = c.choose(65536 + 5 * 81);
            let v = if x < 65536 {
                (x as u16).to_be_bytes().to_vec()
            } else {
                let x = x - 65536;
                let mut v = vec![0u8; [3, 4, 8, 9, 40][x / 81]];
                let l = v.len();
                let d = [0u8, 1, 0xff];
                for (i, p) in [l - 1, l - 2, 1, 0].into_iter().enumerate() {
                    v[p] = d[x % 81 / [1, 3, 9, 27][i] % 3];
                }
                v
            };
            let ints = toy();
            let Tree::Seq(mut i) = rsa_private(&ints) else { unreachable!() };
            let mut o = vec![0];
            if outer { o = v.clone() } else { i[0] = Tree::Int(v.clone()) }
            let der = Tree::Seq(vec![Tree::Int(o), algorithm(), Tree::Octets(Tree::Seq(i).der())]).der();
            judge(c, true, "PRIVATE KEY", &der, &|| format!("version {} (outer: {outer})", hx(&v)))
        }),
        scenario("integer-endings", "each integer of a private key (and both of a public key) with contents of 1, 2, 3, 8, 16, 64, 65, 128, 129 and 300 bytes of which the last 0, 1, 2, 5, ... all but one are zero, the other integers small or 40 bytes long", |c| {
            let private = c.flag();
            let big = c.flag();
            let i = c.choose(if private { 8 } else { 2 });
            let len = *c.pick(&[1usize, 2, 3, 8, 16, 64, 65, 128, 129, 300]);
            let z = [0, 1, 2, 5, len - 1][c.choose(5)].min(len - 1);
            let mut ints = toy();
            if big {
                for j in 3..ints.len() {
                    ints[j] = Nat::from_be(&bytes(3, 40));
                }
            }
            let mut v = vec![0x51u8; len];
            v[len - z..].fill(0);
            ints[i] = Nat::from_be(&v);
            let der = wrap(private, &inner(private, &ints).der()).der();
            judge(c, private, lab(private), &der, &|| format!("integer {i} of {len} bytes ending in {z} zeros, private {private}, others long {big}"))
        }),
        scenario("algorithms", "the algorithm identifier with every byte of the OID replaced by every value, cut short, extended, other well-known OIDs, parameters missing, doubled or of another type", |c| {
            let private = c.flag();
            let ints = toy();
            let mut oid = RSA_OID.to_vec();
            let alg = match c.choose(4) {
                0 => {
                    let i = c.choose(oid.len());
                    oid[i] = c.choose(256) as u8;
                    Tree::Seq(vec![Tree::Oid(oid), Tree::Null])
                }
                1 => {
                    let n = c.choose(oid.len() + 3);
                    oid.resize(n, 1);
                    Tree::Seq(vec![Tree::Oid(oid), Tree::Null])
                }
                2 => {
                    let o: &[u8] = c.pick(&[&[42u8, 134, 72, 134, 247, 13, 1, 1, 7][..], &[42, 134, 72, 134, 247, 13, 1, 1, 10], &[42, 134, 72, 206, 61, 2, 1], &[43, 101, 112], &[42, 134, 72, 206, 56, 4, 1]]);
                    Tree::Seq(vec![Tree::Oid(o.to_vec()), Tree::Null])
                }
                _ => {
                    let o = Tree::Oid(oid.clone());
                    match c.choose(10) {
                        0 => Tree::Seq(vec![o]),
                        1 => Tree::Seq(vec![o, Tree::Null, Tree::Null]),
                        2 => Tree::Seq(vec![Tree::Null, o]),
                        3 => Tree::Seq(vec![o, Tree::Int(vec![0])]),
                        4 => Tree::Seq(vec![o.clone(), o]),
                        5 => Tree::Seq(vec![]),
                        6 => o,
                        7 => Tree::Seq(vec![Tree::Octets(oid), Tree::Null]),
                        8 => Tree::Seq(vec![o, Tree::Seq(vec![])]),
                        _ => Tree::Seq(vec![Tree::Seq(vec![o, Tree::Null])]),
                    }
                }
            };
            let i = inner(private, &ints).der();
            let der = if private { Tree::Seq(vec![Tree::Int(vec![0]), alg, Tree::Octets(i)]).der() } else { Tree::Seq(vec![alg, Tree::Bits(i, 0)]).der() };
            judge(c, private, lab(private), &der, &|| "algorithm".into())
        }),
        scenario("structure", format!("the outer and the inner structure with every node removed, doubled, wrapped, retyped, replaced by, preceded or followed by each of 14 nodes{}", t.pick("", "; then a second such change")), {
            let twice = t.thorough();
            move |c| {
                let private = c.flag();
                let ints = toy();
                let is_inner = c.flag();
                let mut tr = if is_inner { inner(private, &ints) } else { wrap(private, &inner(private, &ints).der()) };
                tr = mutate(c, &tr);
                if twice && c.flag() {
                    tr = mutate(c, &tr);
                }
                let der = if is_inner { wrap(private, &tr.der()).der() } else { tr.der() };
                judge(c, private, lab(private), &der, &|| format!("changed {} structure", if is_inner { "inner" } else { "outer" }))
            }
        }),
        scenario("element-order", "every permutation of the outer elements; every transposition of the nine inner integers; both orders of modulus and exponent", |c| {
            let private = c.flag();
            let ints = toy();
            let is_inner = c.flag();
            let tr = if is_inner { inner(private, &ints) } else { wrap(private, &inner(private, &ints).der()) };
            let Tree::Seq(mut v) = tr else { unreachable!() };
            let (i, j) = (c.choose(v.len()), c.choose(v.len()));
            v.swap(i, j);
            if !is_inner {
                let (i, j) = (c.choose(v.len()), c.choose(v.len()));
                v.swap(i, j);
            }
            let der = if is_inner { wrap(private, &Tree::Seq(v).der()).der() } else { Tree::Seq(v).der() };
            judge(c, private, lab(private), &der, &|| "reordered".into())
        }),
        scenario("unused-bits", "every unused-bits byte 0..=255 of the public key's bit string, also with an empty string", |c| {
            let u = c.choose(256) as u8;
            let ints = toy();
            let body = if c.flag() { vec![] } else { rsa_public(&ints[0], &ints[1]).der() };
            let der = Tree::Seq(vec![algorithm(), Tree::Bits(body, u)]).der();
            judge(c, false, "PUBLIC KEY", &der, &|| format!("{u} unused bits"))
        }),
        scenario("trailing-bytes", "1..=4 trailing bytes (zero, NULL, INTEGER, 0xff) after the outer element, inside it, after the algorithm's parameters, after the inner element, inside it", |c| {
            let private = c.flag();
            let ints = toy();
            let tail: Vec<u8> = c.pick(&[vec![0u8], vec![0, 0], vec![5, 0], vec![2, 1, 0], vec![0xff], vec![0x30, 0], vec![0, 0, 0, 0]]).clone();
            let level = c.choose(5);
            let mut i = inner(private, &ints).der();
            if level == 3 {
                i.extend(&tail);
            }
            if level == 4 {
                let Tree::Seq(v) = inner(private, &ints) else { unreachable!() };
                let mut content: Vec<u8> = v.iter().flat_map(|x| x.der()).collect();
                content.extend(&tail);
                i = tlv(0x30, &content);
            }
            let mut alg = algorithm().der();
            if level == 2 {
                let mut content = [Tree::Oid(RSA_OID.to_vec()).der(), Tree::Null.der()].concat();
                content.extend(&tail);
                alg = tlv(0x30, &content);
            }
            let mut outer = if private { [Tree::Int(vec![0]).der(), alg, Tree::Octets(i).der()].concat() } else { [alg, Tree::Bits(i, 0).der()].concat() };
            if level == 1 {
                outer.extend(&tail);
            }
            let mut der = tlv(0x30, &outer);
            if level == 0 {
                der.extend(&tail);
            }
            judge(c, private, lab(private), &der, &|| format!("trailing {} at level {level}", hx(&tail)))
        }),
        scenario("truncated", "every prefix of a private and a public key (small, and 521-bit)", |c| {
            let private = c.flag();
            let ints = if c.flag() { keys::keys("many")[0].ints.clone() } else { toy() };
            let der = wrap(private, &inner(private, &ints).der()).der();
            let n = c.choose(der.len());
            judge(c, private, lab(private), &der[..n], &|| format!("first {n} bytes"))
        }),
        scenario("mutated-bytes", format!("every byte of a small private and public key replaced by every value{}", t.pick("", "; every pair of bytes changed by 6 values each")), {
            let two = t.thorough();
            move |c| {
                let private = c.flag();
                let ints = toy();
                let mut der = wrap(private, &inner(private, &ints).der()).der();
                if two && c.flag() {
                    perturb(c, &mut der, 2, &[1, 2, 4, 0x20, 0x80, 0xff]);
                } else {
                    let i = c.choose(der.len());
                    der[i] = c.choose(256) as u8;
                }
                judge(c, private, lab(private), &der, &|| "changed bytes".into())
            }
        }),
        scenario("short-strings", "every byte string of up to 5 bytes from {0x30, 0, 1, 2, 3, 4, 5, 0x80, 0x81, 0xff} as the whole DER, as the octet or bit string's content, and as the algorithm", {
            let m = t.pick(4, 5);
            move |c| {
                let private = c.flag();
                let place = c.choose(3);
                let n = c.range(0, m);
                let b: Vec<u8> = (0..n).map(|_| *c.pick(&[0x30u8, 0, 1, 2, 3, 4, 5, 0x80, 0x81, 0xff])).collect();
                let der = match place {
                    0 => b,
                    1 => wrap(private, &b).der(),
                    _ => {
                        let i = inner(private, &toy()).der();
                        let rest = if private { Tree::Octets(i).der() } else { Tree::Bits(i, 0).der() };
                        let mut content = if private { Tree::Int(vec![0]).der() } else { vec![] };
                        content.extend(b);
                        content.extend(rest);
                        tlv(0x30, &content)
                    }
                };
                judge(c, private, lab(private), &der, &|| "any bytes".into())
            }
        }),
        scenario("integer-forms", "modulus and exponent with leading zero bytes (0..=3), with the top bit set, empty or zero", |c| {
            let private = c.flag();
            let which = c.choose(2);
            let form: Vec<u8> = match c.choose(9) {
                0 => vec![0x0c, 0xa1],
                1 => vec![0, 0x0c, 0xa1],
                2 => vec![0, 0, 0x0c, 0xa1],
                3 => vec![0, 0, 0, 0x0c, 0xa1],
                4 => vec![0, 0x8c, 0xa1],
                5 => vec![0x8c, 0xa1],
                6 => vec![0x7f, 0xff],
                7 => vec![0, 0xff, 0xff],
                _ => vec![0x01, 0, 0, 0, 1],
            };
            let Tree::Seq(mut v) = inner(private, &toy()) else { unreachable!() };
            let at = if private { [1, 3][which] } else { which };
            v[at] = Tree::Int(form);
            let _ = int;
            let der = wrap(private, &Tree::Seq(v).der()).der();
            judge(c, private, lab(private), &der, &|| format!("integer {at}"))
        }),
    ];
    let kmax = t.pick(13, 16);
    v.push(
        scenario("large-moduli", format!("private and public keys with moduli of 2^k - 1, 2^k and 2^k + 1 bits, k = 12..={kmax}, exponents 1 and 3 (1 only above 2^{}): raw RSA on 2, n and n-1", kmax - 1), move |c| {
            let private = c.flag();
            let k = c.range(12, kmax);
            let nb = (1u32 << k) + c.choose(3) as u32 - 1;
            let x = if k < kmax { *c.pick(&[1u128, 3]) } else { 1 };
            let (n, x) = (num(nb, 3), Nat::from_u128(x));
            let mut ints = toy();
            (ints[0], ints[1], ints[2]) = (n.clone(), x.clone(), x.clone());
            let der = wrap(private, &inner(private, &ints).der()).der();
            let pem = PEM { label: lab(private).to_string(), data: der };
            let what = || format!("{} key with a modulus of {nb} bits, exponent {}", lab(private), hx(&x.to_be()));
            let enc: RsaEncryption = if private {
                c.must(what, || PrivateKey::try_from(pem))?.map_err(|e| format!("{} was refused: {e}", what()))?.into()
            } else {
                c.must(what, || PublicKey::try_from(pem))?.map_err(|e| format!("{} was refused: {e}", what()))?.into()
            };
            let one = Nat::from_u128(1);
            // n to 0 and n-1 to n-1 (odd exponent) leave no other modulus than n
            let below = n.sub(&one).unwrap();
            for (m, w) in [(Nat::from_u128(2), if x == one { Nat::from_u128(2) } else { Nat::from_u128(8) }), (n.clone(), Nat::zero()), (below.clone(), below)] {
                let got = c.must(|| format!("{}: raw operation", what()), || enc.encrypt(BigUint::from_be_bytes(m.to_be())))?;
                eq_bytes(&got.to_be_bytes(), &w.to_be(), || format!("{}: raw operation on {}", what(), hx(&m.to_be())))?;
            }
            c.outcome(&(private, nb, x));
            Ok(())
        })
        .limit(600),
    );
    v.push(scenario("huge-moduli", "private and public keys with moduli of 2^14 + {-1,0,1}, 2^15 + {-1,0,1}, 2^16 + {-1,0,1}, 2^17 + 9, 2^19 + 1 and 2^21 bits (lengths of up to 3 bytes), exponents 1, 2, 3 and 17: raw RSA on 2", |c| {
        let private = c.flag();
        let nb = *c.pick(&[16383u32, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, (1 << 17) + 9, (1 << 19) + 1, 1 << 21]);
        let x = *c.pick(&[1u128, 2, 3, 17]);
        let mut ints = toy();
        let mut b = bytes(3, nb.div_ceil(8) as usize);
        b[0] = 1 << ((nb - 1) % 8);
        *b.last_mut().unwrap() |= 1;
        ints[0] = Nat::from_be(&b);
        (ints[1], ints[2]) = (Nat::from_u128(x), Nat::from_u128(x));
        let der = wrap(private, &inner(private, &ints).der()).der();
        let pem = PEM { label: lab(private).to_string(), data: der };
        let what = || format!("{} key with a modulus of {nb} bits, exponent {x}", lab(private));
        let enc: RsaEncryption = if private {
            c.must(what, || PrivateKey::try_from(pem))?.map_err(|e| format!("{} was refused: {e}", what()))?.into()
        } else {
            c.must(what, || PublicKey::try_from(pem))?.map_err(|e| format!("{} was refused: {e}", what()))?.into()
        };
        let got = c.must(|| format!("{}: raw operation", what()), || enc.encrypt(BigUint::from(2)))?;
        c.outcome(&(private, nb, x));
        eq_bytes(&got.to_be_bytes(), &Nat::from_u128(1 << x).to_be(), || format!("{}: raw operation on 2", what()))
    }));
    v.push(scenario("large-exponents", "private and public keys with a 12-bit and a 20-bit modulus and exponents of 2^k - 1, 2^k and 2^k + 1 bits, k = 7..=14, all ones or mixed: raw RSA on 2, 3, n-1 and n", |c| {
        let private = c.flag();
        let xb = (1u32 << c.range(7, 14)) + c.choose(3) as u32 - 1;
        let p = *c.pick(&[1, 3]);
        let mut ints = toy();
        if c.flag() {
            ints[0] = num(20, 3);
        }
        ints[1] = num(xb, p);
        ints[2] = num(xb, p);
        let der = wrap(private, &inner(private, &ints).der()).der();
        judge(c, private, lab(private), &der, &|| format!("{xb}-bit exponent"))
    }));
    let family: &'static str = "many";
    v.push(scenario("real-keys", format!("{} generated keys of 521..=769 bits as PKCS#8 and SubjectPublicKeyInfo, through PEM text", keys::keys(family).len()), move |c| {
        let ks = keys::keys(family);
        let key = c.pick(&ks);
        let private = c.flag();
        let what = || format!("{} {}", key.name(), lab(private));
        let enc: RsaEncryption = if private {
            c.must(what, || key.private())?.map_err(|e| format!("{}: {e}", what()))?.into()
        } else {
            c.must(what, || key.public())?.map_err(|e| format!("{}: {e}", what()))?.into()
        };
        behaves(c, &enc, key.n(), if private { key.d() } else { key.e() }, &what)
    }));
    v
}
