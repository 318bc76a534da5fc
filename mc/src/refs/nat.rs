//! Natural numbers, base 2^32, little endian, no high zero limb. Schoolbook everything.
use std::cmp::Ordering;

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Nat(Vec<u32>);

impl Nat {
    pub fn zero() -> Nat {
        Nat(vec![])
    }
    pub fn from_u128(mut v: u128) -> Nat {
        let mut l = vec![];
        while v > 0 {
            l.push(v as u32);
            v >>= 32;
        }
        Nat(l)
    }
    pub fn from_be(b: &[u8]) -> Nat {
        let mut l = vec![0u32; b.len().div_ceil(4)];
        for (i, &x) in b.iter().rev().enumerate() {
            l[i / 4] |= (x as u32) << (8 * (i % 4));
        }
        Nat(l).norm()
    }
    pub fn to_be(&self) -> Vec<u8> {
        let mut o: Vec<u8> = self.0.iter().rev().flat_map(|x| x.to_be_bytes()).collect();
        while o.first() == Some(&0) {
            o.remove(0);
        }
        o
    }
    /// big-endian bytes left-padded with zeros to `len`
    pub fn to_be_len(&self, len: usize) -> Vec<u8> {
        let b = self.to_be();
        assert!(b.len() <= len);
        let mut o = vec![0; len - b.len()];
        o.extend(b);
        o
    }
    pub fn to_u128(&self) -> Option<u128> {
        if self.0.len() > 4 {
            return None;
        }
        Some(self.0.iter().rev().fold(0u128, |a, &x| (a << 32) | x as u128))
    }
    fn norm(mut self) -> Nat {
        while self.0.last() == Some(&0) {
            self.0.pop();
        }
        self
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn bits(&self) -> u32 {
        match self.0.last() {
            None => 0,
            Some(x) => 32 * (self.0.len() as u32 - 1) + (32 - x.leading_zeros()),
        }
    }
    pub fn bit(&self, i: u32) -> bool {
        let w = (i / 32) as usize;
        w < self.0.len() && self.0[w] >> (i % 32) & 1 == 1
    }
    pub fn with_bit(&self, i: u32, v: bool) -> Nat {
        let mut l = self.0.clone();
        let w = (i / 32) as usize;
        while l.len() <= w {
            l.push(0);
        }
        if v {
            l[w] |= 1 << (i % 32);
        } else {
            l[w] &= !(1 << (i % 32));
        }
        Nat(l).norm()
    }
    pub fn cmp(&self, o: &Nat) -> Ordering {
        self.0
            .len()
            .cmp(&o.0.len())
            .then_with(|| self.0.iter().rev().cmp(o.0.iter().rev()))
    }
    pub fn add(&self, o: &Nat) -> Nat {
        let n = self.0.len().max(o.0.len());
        let mut r = Vec::with_capacity(n + 1);
        let mut c = 0u64;
        for i in 0..n {
            c += *self.0.get(i).unwrap_or(&0) as u64 + *o.0.get(i).unwrap_or(&0) as u64;
            r.push(c as u32);
            c >>= 32;
        }
        r.push(c as u32);
        Nat(r).norm()
    }
    pub fn sub(&self, o: &Nat) -> Option<Nat> {
        if self.cmp(o) == Ordering::Less {
            return None;
        }
        let mut r = Vec::with_capacity(self.0.len());
        let mut borrow = 0i64;
        for i in 0..self.0.len() {
            let mut d = self.0[i] as i64 - *o.0.get(i).unwrap_or(&0) as i64 - borrow;
            borrow = 0;
            if d < 0 {
                d += 1 << 32;
                borrow = 1;
            }
            r.push(d as u32);
        }
        Some(Nat(r).norm())
    }
    pub fn mul(&self, o: &Nat) -> Nat {
        let mut r = vec![0u32; self.0.len() + o.0.len()];
        for i in 0..self.0.len() {
            let mut c = 0u64;
            for j in 0..o.0.len() {
                c += r[i + j] as u64 + self.0[i] as u64 * o.0[j] as u64;
                r[i + j] = c as u32;
                c >>= 32;
            }
            r[i + o.0.len()] = c as u32;
        }
        Nat(r).norm()
    }
    pub fn shl(&self, k: u32) -> Nat {
        if self.is_zero() {
            return Nat::zero();
        }
        let mut r = vec![0u32; (k / 32) as usize];
        let s = k % 32;
        let mut c = 0u64;
        for &x in &self.0 {
            c |= (x as u64) << s;
            r.push(c as u32);
            c >>= 32;
        }
        r.push(c as u32);
        Nat(r).norm()
    }
    pub fn shr(&self, k: u32) -> Nat {
        let w = (k / 32) as usize;
        if w >= self.0.len() {
            return Nat::zero();
        }
        let s = k % 32;
        let l = &self.0[w..];
        let r = (0..l.len())
            .map(|i| {
                let hi = *l.get(i + 1).unwrap_or(&0) as u64;
                (((hi << 32 | l[i] as u64) >> s) & 0xffff_ffff) as u32
            })
            .collect();
        Nat(r).norm()
    }
    /// remainder by long division, one bit at a time, on a fixed-width remainder
    pub fn rem(&self, m: &Nat) -> Option<Nat> {
        if m.is_zero() {
            return None;
        }
        if self.cmp(m) == Ordering::Less {
            return Some(self.clone());
        }
        let n = m.0.len() + 1;
        let mut r = vec![0u32; n];
        let mut mm = m.0.clone();
        mm.push(0);
        // the leading bits that are certainly below m, then one bit at a time
        let rest = self.bits() - m.bits() + 1;
        let lead = self.shr(rest);
        r[..lead.0.len()].copy_from_slice(&lead.0);
        for i in (0..rest).rev() {
            let mut c = self.bit(i) as u32;
            for x in r.iter_mut() {
                let nc = *x >> 31;
                *x = *x << 1 | c;
                c = nc;
            }
            if r.iter().rev().cmp(mm.iter().rev()) != Ordering::Less {
                let mut b = 0i64;
                for k in 0..n {
                    let mut d = r[k] as i64 - mm[k] as i64 - b;
                    b = 0;
                    if d < 0 {
                        d += 1 << 32;
                        b = 1;
                    }
                    r[k] = d as u32;
                }
            }
        }
        Some(Nat(r).norm())
    }
    pub fn powmod(&self, e: &Nat, m: &Nat) -> Nat {
        // left to right
        let mut r = Nat::from_u128(1).rem(m).unwrap();
        for i in (0..e.bits()).rev() {
            r = r.mul(&r).rem(m).unwrap();
            if e.bit(i) {
                r = r.mul(self).rem(m).unwrap();
            }
        }
        r
    }
}
