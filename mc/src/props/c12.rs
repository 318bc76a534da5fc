//! RSA key creation and raw RSA.
use crate::engine::*;
use super::keys::{import, keys, spki};
use crate::refs::nat::Nat;
use crate::util::*;
use cryptography::big::BigUint;
use cryptography::rsa::{PublicKey, RsaEncryption, create_keys};

include!("primes_data.rs");

pub fn primes(max: u128) -> Vec<u128> {
    (2..=max).filter(|&n| (2..n).take_while(|d| d * d <= n).all(|d| n % d != 0)).collect()
}
pub fn gcd(a: u128, b: u128) -> u128 {
    if b == 0 { a } else { gcd(b, a % b) }
}
pub use super::ops::big;
fn nat(b: &BigUint) -> Nat {
    Nat::from_be(&b.to_be_bytes())
}

fn key_pair(c: &mut Ctx, p: u128, q: u128, e: u128, ms: &[u128]) -> R {
    let what = |s: &str| format!("RSA p={p} q={q} e={e}: {s}");
    let ok = gcd(e, p - 1) == 1 && gcd(e, q - 1) == 1;
    if !ok {
        return c.refuses(|| what("exponent without inverse"), || create_keys(big(p), big(q), big(e)));
    }
    let (private, public) = c.must(|| what("create_keys"), || create_keys(big(p), big(q), big(e)))?;
    let (private, public) = (RsaEncryption::from(private), RsaEncryption::from(public));
    let n = Nat::from_u128(p).mul(&Nat::from_u128(q));
    let en = Nat::from_u128(e);
    for &m in ms {
        let mn = Nat::from_u128(m);
        let w = mn.powmod(&en, &n);
        let r = mn.rem(&n).unwrap();
        for (i, f) in [RsaEncryption::encrypt, RsaEncryption::decrypt].into_iter().enumerate() {
            let got = c.must(|| what(&format!("public operation {i} on {m}")), || f(&public, big(m)))?;
            eq(&nat(&got), &w, || what(&format!("public operation {i} on {m}")))?;
        }
        let back = c.must(|| what(&format!("private decrypt of {m}^e")), || private.decrypt(BigUint::from_be_bytes(w.to_be())))?;
        eq(&nat(&back), &r, || what(&format!("decryption of the encryption of {m}")))?;
        let sig = c.must(|| what(&format!("private encrypt of {m}")), || private.encrypt(big(m)))?;
        let sn = nat(&sig);
        eq(&sn.powmod(&en, &n), &r, || what(&format!("{m} encrypted with the private key, to the power e")))?;
        if sn.cmp(&n).is_ge() {
            return Err(what(&format!("private result for {m} is not below the modulus")));
        }
        let ver = c.must(|| what("public decrypt"), || public.decrypt(sig))?;
        eq(&nat(&ver), &r, || what(&format!("{m} encrypted with the private key, decrypted with the public key")))?;
        c.outcome(&(w, r));
    }
    c.sample(|| what(&format!("{} numbers round-trip", ms.len())));
    Ok(())
}

/// (p, q) with a product of at most 128 bits, all prime
pub const BIG: &[(u128, u128)] = &[
    (18446744073709551557, 18446744073709551533), // 2^64-59, 2^64-83
    (18446744073709551557, 4294967291),           // 2^64-59, 2^32-5
    ((1 << 61) - 1, (1 << 31) - 1),
    ((1 << 89) - 1, (1 << 31) - 1),
    ((1 << 107) - 1, 1048573),
    ((1 << 107) - 1, 3),
    ((1 << 127) - 1, 2),
    (65537, 65539),
    (4294967291, 4294967279),
    ((1 << 61) - 1, 2),
    (18446744073709551629, 4294967291), // 2^64+13
    (18446744073709551629, 18446744073709551557), // (2^64+13)(2^64-59), just below 2^128
];

/// One raw operation, both entry points, against modular exponentiation.
fn raw(c: &mut Ctx, k: &RsaEncryption, n: &Nat, e: &Nat, m: &Nat, name: &dyn Fn() -> String) -> R {
    let w = m.powmod(e, n);
    for (i, f) in [RsaEncryption::encrypt, RsaEncryption::decrypt].into_iter().enumerate() {
        let what = || format!("{}: raw {} of {}", name(), ["encrypt", "decrypt"][i], hx(&m.to_be()));
        let got = c.must(what, || f(k, BigUint::from_be_bytes(m.to_be())))?;
        eq_bytes(&got.to_be_bytes(), &w.to_be(), what)?;
    }
    c.outcome(&w);
    Ok(())
}

/// Public key with any modulus and exponent, through import.
fn any_public(c: &mut Ctx, n: &Nat, e: &Nat) -> Result<RsaEncryption, String> {
    let what = || format!("import of the public key n={} e={}", hx(&n.to_be()), hx(&e.to_be()));
    let k: PublicKey = c.must(what, || PublicKey::try_from(import("PUBLIC KEY", &spki(n, e).der())?))?.map_err(|x| format!("{}: {x}", what()))?;
    Ok(k.into())
}

/// A number of exactly `bits` bits.
fn modulus(kind: usize, bits: u32) -> Nat {
    let one = Nat::from_u128(1);
    let top = one.shl(bits - 1);
    match kind {
        0 => top.shl(1).sub(&one).unwrap(),
        1 => top.add(&one),
        2 => top,
        k => {
            let b = bytes(k, bits.div_ceil(8) as usize);
            Nat::from_be(&b).rem(&top).unwrap().add(&top)
        }
    }
}

pub fn scenarios(t: Tier) -> Vec<Scenario> {
    let small = primes(t.pick(13, 23));
    let medium = primes(t.pick(61, 251));
    let (ns, nm) = (small.len(), medium.len());
    let es: &'static [u128] = &[1, 3, 5, 7, 17, 257, 65537, (1 << 61) - 1, (1 << 64) + 1, (1 << 127) - 1, u128::MAX, u128::MAX - 4, 0, 2, 4, 65536];
    let too_big: &'static [(u128, u128)] = &[
        (18446744073709551629, 18446744073709551629 + 24), // (2^64+13)(2^64+37)
        ((1 << 127) - 1, 5),
        ((1 << 127) - 1, 3),
        ((1 << 107) - 1, (1 << 61) - 1),
        ((1 << 89) - 1, (1 << 61) - 1),
        ((1 << 127) - 1, (1 << 61) - 1),
    ];
    vec![
        scenario("all-small-keys", format!("every ordered pair of distinct primes among the first {ns}, every exponent 0..=lcm+3, every number up to n+3 (and 2n, n^2, u128::MAX)"), move |c| {
            let p = *c.pick(&small);
            let q = *c.pick(&small);
            if p == q {
                return Ok(());
            }
            let n = p * q;
            let l = (p - 1) * (q - 1) / gcd(p - 1, q - 1);
            let e = c.range(0, (l + 3) as usize) as u128;
            let mut ms: Vec<u128> = (0..n + 4).collect();
            ms.extend([2 * n, 2 * n + 1, n * n, n * n - 1, u128::MAX]);
            key_pair(c, p, q, e, &ms)
        }),
        scenario("medium-keys", format!("every ordered pair of distinct primes among the first {nm}, exponents 0..=20, 257 and 65537, 12 numbers around 0, n/2, n and u128::MAX"), move |c| {
            let p = *c.pick(&medium);
            let q = *c.pick(&medium);
            let e = c.choose(23);
            let e = if e <= 20 { e as u128 } else { [257, 65537][e - 21] };
            if p == q {
                return Ok(());
            }
            let n = p * q;
            key_pair(c, p, q, e, &[0, 1, 2, p, q, n / 2, n - 2, n - 1, n, n + 1, 3 * n + p, u128::MAX])
        }),
        scenario("big-keys", format!("{} pairs of primes with products up to 128 bits in both orders, {} exponents, numbers 0, 1, 2, n-1, n, n+1, u128::MAX and mixed (where they fit)", BIG.len(), es.len()), move |c| {
            let (mut p, mut q) = *c.pick(BIG);
            if c.flag() {
                (p, q) = (q, p);
            }
            let e = *c.pick(es);
            let n = p * q;
            let m = match c.choose(7) {
                0 => 0,
                1 => 1,
                2 => 2,
                3 => n - 1,
                4 => n,
                5 => 0x0123456789abcdef_fedcba9876543210 % n,
                _ => u128::MAX,
            };
            key_pair(c, p, q, e, &[m])
        }),
        scenario("too-big-keys", "6 pairs of primes whose product does not fit 128 bits in both orders, 3 exponents; factors or exponents of more than 128 bits", move |c| {
            let i = c.choose(too_big.len() + 3);
            let e = *c.pick(&[3u128, 65537, (1 << 61) - 1]);
            c.outcome(&(i, e));
            if i < too_big.len() {
                let (mut p, mut q) = too_big[i];
                if c.flag() {
                    (p, q) = (q, p);
                }
                return c.refuses(|| format!("RSA p={p} q={q} e={e}: product beyond 128 bits"), || create_keys(big(p), big(q), big(e)));
            }
            let mut huge = big(1);
            huge <<= 128;
            huge += 51;
            let (a, b, x) = match i - too_big.len() {
                0 => (huge, big(3), big(e)),
                1 => (big(3), huge, big(e)),
                _ => (big(11), big(23), huge),
            };
            let kind = i - too_big.len();
            if kind == 2 {
                // a public exponent of more than 128 bits may be refused or must work
                let r = c.call(|| create_keys(a, b, x));
                if let Ok((pr, pu)) = r {
                    let m = c.must(|| "huge exponent".into(), || RsaEncryption::from(pr).decrypt(RsaEncryption::from(pu).encrypt(big(2))))?;
                    return eq(&nat(&m), &Nat::from_u128(2), || "round trip with a 129-bit exponent".into());
                }
                return Ok(());
            }
            c.refuses(|| format!("RSA with a factor of 2^128+51 (argument {kind})"), || create_keys(a, b, x))
        }),
        scenario("every-modulus-size", format!("largest prime below 2^i with largest below or smallest above 2^j for every i, j with a product of at most 128 bits ({}), the smallest valid odd exponent, numbers n-1 and mixed", t.pick("i <= j", "both orders, three exponents")), move |c| {
            let (_, p, above) = *c.pick(NEAR_POWERS);
            let (_, q, _) = *c.pick(NEAR_POWERS);
            let p = if c.flag() { above } else { p };
            if p == q || p.checked_mul(q).is_none() || (!t.thorough() && p > q) {
                return Ok(());
            }
            let n = p * q;
            let es: Vec<u128> = (3..200u128).step_by(2).filter(|&e| gcd(e, p - 1) == 1 && gcd(e, q - 1) == 1).take(t.pick(1, 3)).collect();
            let e = *c.pick(&es);
            let m = if c.flag() { n - 1 } else { 0x9e3779b97f4a7c15_f39cc0605cedc834 % n };
            key_pair(c, p, q, e, &[m])
        }),
        scenario("any-modulus", format!("imported public keys with a modulus of every bit length 2..={} (all ones, 2^k+1, 2^k, mixed), exponents 1, 2, 3, 5, 16, 257 and mixed of 20 bits, numbers n-1, n, n+1, mixed below n and mixed above n", t.pick(160, 300)), move |c| {
            let bits = c.range(2, t.pick(160, 300)) as u32;
            let n = modulus(c.choose(4), bits);
            let e = Nat::from_u128(*c.pick(&[1u128, 2, 3, 5, 16, 257, 0x9e377]));
            let one = Nat::from_u128(1);
            let mixed = Nat::from_be(&bytes(4, bits.div_ceil(8) as usize + 2));
            let m = match c.choose(5) {
                0 => n.sub(&one).unwrap(),
                1 => n.clone(),
                2 => n.add(&one),
                3 => mixed.rem(&n).unwrap(),
                _ => mixed,
            };
            let k = any_public(c, &n, &e)?;
            let name = || format!("RSA n={} e={}", hx(&n.to_be()), hx(&e.to_be()));
            raw(c, &k, &n, &e, &m, &name)
        }),
        scenario("any-exponent", format!("imported public keys with 12 moduli of up to 140 bits and exponents 2^i + 2^j and 2^i - 2^j for every j <= i <= {}, a mixed number", t.pick(40, 130)), move |c| {
            let i = c.range(0, t.pick(40, 130)) as u32;
            let j = c.range(0, i as usize) as u32;
            let one = Nat::from_u128(1);
            let e = if c.flag() { one.shl(i).sub(&one.shl(j)).unwrap() } else { one.shl(i).add(&one.shl(j)) };
            if e.is_zero() {
                return Ok(()); // open: exponent 0
            }
            let n = modulus([0, 3, 4][c.choose(3)], *c.pick(&[8u32, 33, 64, 140]));
            let m = Nat::from_be(&bytes(3, 19)).rem(&n).unwrap();
            let k = any_public(c, &n, &e)?;
            let name = || format!("RSA n={} e={}", hx(&n.to_be()), hx(&e.to_be()));
            raw(c, &k, &n, &e, &m, &name)
        }),
        scenario("long-exponents", "imported public keys with 9 moduli of up to 70 bits and exponents 2^i + 2^j, 2^i - 2^j for i around 64, 128, 256, 512 and 1024, j in {0, 1, i/2, i-9, i-1}, and all-mixed exponents of those lengths", |c| {
            let i = *c.pick(&[62u32, 63, 64, 65, 126, 127, 128, 129, 130, 136, 254, 255, 256, 257, 264, 511, 512, 513, 1023, 1024, 1025]);
            let j = [0, 1, i / 2, i - 9, i - 1][c.choose(5)];
            let one = Nat::from_u128(1);
            let e = match c.choose(3) {
                0 => one.shl(i).sub(&one.shl(j)).unwrap(),
                1 => one.shl(i).add(&one.shl(j)),
                _ => modulus(3, i + 1),
            };
            let n = modulus([0, 3, 4][c.choose(3)], *c.pick(&[9u32, 33, 70]));
            let m = Nat::from_be(&bytes(3, 19)).rem(&n).unwrap();
            let k = any_public(c, &n, &e)?;
            let name = || format!("RSA n={} e={}", hx(&n.to_be()), hx(&e.to_be()));
            raw(c, &k, &n, &e, &m, &name)
        }),
        scenario("very-long-exponents", format!("imported public keys with moduli of 5, 9 and 33 bits (odd and mixed) and exponents 2^i + 1, 2^i - 1, 2^i and mixed of i + 1 bits, i around {}", t.pick("2048, 4096, 8192 and 16384", "2048, 4096, 8192, 16384, 32768 and 65536")), move |c| {
            let i = [2048u32, 4096, 8192, 16384, 32768, 65536][c.choose(t.pick(4, 6))] + c.choose(3) as u32 - 1;
            let one = Nat::from_u128(1);
            let e = match c.choose(4) {
                0 => one.shl(i).sub(&one).unwrap(),
                1 => one.shl(i).add(&one),
                2 => one.shl(i),
                _ => modulus(3, i + 1),
            };
            let n = modulus([0, 3][c.choose(2)], *c.pick(&[5u32, 9, 33]));
            let m = Nat::from_be(&bytes(3, 19)).rem(&n).unwrap();
            let k = any_public(c, &n, &e)?;
            let name = || format!("RSA n={} e of {} bits", hx(&n.to_be()), e.bits());
            raw(c, &k, &n, &e, &m, &name)
        })
        .limit(300),
        scenario("large-moduli", format!("imported public keys with moduli of i - 1, i, i + 1 and i + 8 bits, i in {}, (all ones, 2^k+1, mixed), exponents 1, 2, 3, 17 and 65537, numbers n-1, n, n+1, mixed below n and mixed above n", t.pick("256, 512, 1024 and 2048", "256, 512, 1024, 2048, 3072 and 4096")), move |c| {
            let bits = [256u32, 512, 1024, 2048, 3072, 4096][c.choose(t.pick(4, 6))];
            let bits = [bits - 1, bits, bits + 1, bits + 8][c.choose(4)];
            let e = *c.pick(&[1u128, 2, 3, 17, 65537]);
            let n = modulus([0, 1, 3][c.choose(3)], bits);
            let e = Nat::from_u128(e);
            let one = Nat::from_u128(1);
            let mixed = Nat::from_be(&bytes(4, bits.div_ceil(8) as usize + 2));
            let m = match c.choose(5) {
                0 => n.sub(&one).unwrap(),
                1 => n.clone(),
                2 => n.add(&one),
                3 => mixed.rem(&n).unwrap(),
                _ => mixed,
            };
            let k = any_public(c, &n, &e)?;
            let name = || format!("RSA n={} e={}", hx(&n.to_be()), hx(&e.to_be()));
            raw(c, &k, &n, &e, &m, &name)
        })
        .limit(300),
        scenario("imported-pairs", "imported key pairs of 521..=4096 bits: raw encryption and decryption with either key of 0, 1, 2, n-1, n, n+1, a mixed number and a longer one; and the round trip", |c| {
            let mut ks = keys("many");
            ks.extend(keys("large"));
            let key = c.pick(&ks);
            let pair = super::c13::load(c, key)?;
            let (n, one) = (key.n().clone(), Nat::from_u128(1));
            let mixed = Nat::from_be(&bytes(4, key.k() + 3));
            let m = match c.choose(8) {
                0 => Nat::zero(),
                1 => one,
                2 => Nat::from_u128(2),
                3 => n.sub(&one).unwrap(),
                4 => n.clone(),
                5 => n.add(&one),
                6 => mixed.rem(&n).unwrap(),
                _ => mixed,
            };
            raw(c, &pair.public, &n, key.e(), &m, &|| format!("{} public", key.name()))?;
            raw(c, &pair.private, &n, key.d(), &m, &|| format!("{} private", key.name()))?;
            let m = m.rem(&n).unwrap();
            let b = BigUint::from_be_bytes(m.to_be());
            let back = c.must(|| format!("{} round trip", key.name()), || pair.private.decrypt(pair.public.encrypt(b)))?;
            eq(&nat(&back), &m, || format!("{}: round trip of {}", key.name(), hx(&m.to_be())))
        }),
    ]
}
