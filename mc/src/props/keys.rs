//! RSA keys beyond 128 bits (imported from PEM) and the DER around them.
use crate::refs::der::Tree;
use crate::refs::nat::Nat;
use crate::refs::text::b64;
use cryptography::pem::PEM;
use cryptography::rsa::{PrivateKey, PublicKey};
use std::str::FromStr;

include!("keys_data.rs");

pub const RSA_OID: &[u8] = &[42, 134, 72, 134, 247, 13, 1, 1, 1];

fn nat_hex(h: &str) -> Nat {
    let h = if h.len() % 2 == 1 { format!("0{h}") } else { h.to_string() };
    let b: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
    Nat::from_be(&b)
}

#[derive(Clone, Debug)]
pub struct Key {
    pub bits: u32,
    pub family: &'static str,
    /// n, e, d, p, q, dp, dq, qinv
    pub ints: Vec<Nat>,
}

impl Key {
    pub fn n(&self) -> &Nat {
        &self.ints[0]
    }
    pub fn e(&self) -> &Nat {
        &self.ints[1]
    }
    pub fn d(&self) -> &Nat {
        &self.ints[2]
    }
    /// length of the modulus in bytes
    pub fn k(&self) -> usize {
        self.bits.div_ceil(8) as usize
    }
    pub fn name(&self) -> String {
        format!("{}-bit key ({}, e={:?})", self.bits, self.family, self.e().to_u128().unwrap())
    }
    pub fn private(&self) -> Result<PrivateKey, String> {
        PrivateKey::try_from(import("PRIVATE KEY", &pkcs8(&self.ints).der())?)
    }
    pub fn public(&self) -> Result<PublicKey, String> {
        PublicKey::try_from(import("PUBLIC KEY", &spki(self.n(), self.e()).der())?)
    }
}

pub fn keys(family: &str) -> Vec<Key> {
    KEYS.iter()
        .filter(|r| r.family == family)
        .map(|r| Key { bits: r.bits, family: r.family, ints: r.ints.iter().map(|h| nat_hex(h)).collect() })
        .collect()
}

pub fn int(v: &Nat) -> Tree {
    let mut b = v.to_be();
    if b.first().is_none_or(|&x| x >= 0x80) {
        b.insert(0, 0);
    }
    Tree::Int(b)
}

pub fn algorithm() -> Tree {
    Tree::Seq(vec![Tree::Oid(RSA_OID.to_vec()), Tree::Null])
}

/// RSAPrivateKey of n, e, d, p, q, dp, dq, qinv
pub fn rsa_private(ints: &[Nat]) -> Tree {
    let mut v = vec![Tree::Int(vec![0])];
    v.extend(ints.iter().map(int));
    Tree::Seq(v)
}

pub fn pkcs8(ints: &[Nat]) -> Tree {
    Tree::Seq(vec![Tree::Int(vec![0]), algorithm(), Tree::Octets(rsa_private(ints).der())])
}

pub fn rsa_public(n: &Nat, e: &Nat) -> Tree {
    Tree::Seq(vec![int(n), int(e)])
}

pub fn spki(n: &Nat, e: &Nat) -> Tree {
    Tree::Seq(vec![algorithm(), Tree::Bits(rsa_public(n, e).der(), 0)])
}

pub fn pem_text(label: &str, der: &[u8]) -> String {
    let b = b64(der);
    let mut s = format!("-----BEGIN {label}-----\n");
    for l in b.as_bytes().chunks(64) {
        s.push_str(std::str::from_utf8(l).unwrap());
        s.push('\n');
    }
    s.push_str(&format!("-----END {label}-----\n"));
    s
}

pub fn import(label: &str, der: &[u8]) -> Result<PEM, String> {
    PEM::from_str(&pem_text(label, der))
}
