//! RSA message encryption with any padding scheme.
use super::c12::{big, gcd, primes};
use super::keys::{Key, keys};
use crate::engine::*;
use crate::refs::nat::Nat;
use crate::refs::oaep;
use crate::util::*;
use cryptography::rsa::{PaddingScheme, PrivateKey, PublicKey, RsaEncryption, RsaPadding, create_keys};
use std::cell::RefCell;

/// A padding scheme of the harness: what it was asked is recorded, what it answers is fixed.
#[derive(Default)]
struct Probe {
    /// encode answers this
    em: Vec<u8>,
    /// decode refuses
    refuse: bool,
    log: RefCell<Vec<(&'static str, Vec<u8>, Vec<u8>, usize)>>,
}

struct ByRef<'a>(&'a Probe);

impl PaddingScheme for ByRef<'_> {
    fn encode(&self, label: &[u8], message: &[u8], n_len: usize) -> Vec<u8> {
        self.0.log.borrow_mut().push(("encode", label.to_vec(), message.to_vec(), n_len));
        self.0.em.clone()
    }
    fn decode(&self, label: &[u8], em: &[u8], n_len: usize) -> Result<Vec<u8>, &'static str> {
        self.0.log.borrow_mut().push(("decode", label.to_vec(), em.to_vec(), n_len));
        if self.0.refuse {
            return Err("refused by the padding scheme");
        }
        // any injective function of what it was given
        let mut v = em.to_vec();
        v.reverse();
        v.push(0xa5);
        Ok(v)
    }
}

fn unprobe(em: &[u8]) -> Vec<u8> {
    let mut v = em.to_vec();
    v.reverse();
    v.push(0xa5);
    v
}

/// Encrypts with one key and decrypts with the other what the padding scheme encodes as `m`
/// (as many bytes as the modulus has).
fn probe_round_trip(c: &mut Ctx, n: &Nat, exp: &Nat, enc: &RsaEncryption, dec: &RsaEncryption, m: &Nat, what: &dyn Fn(&str) -> String) -> R {
    let k = n.bits().div_ceil(8) as usize;
    let em = m.to_be_len(k.max(m.to_be().len()));
    let msg = [em[em.len() - 1], 0, 7, 0xff];
    let probe = Probe { em: em.clone(), ..Default::default() };
    let r = c.call(|| enc.encrypt_message(&msg, ByRef(&probe)));
    let log = probe.log.take();
    eq(&log, &vec![("encode", vec![], msg.to_vec(), k)], || what("calls of the padding scheme (call, label, message, length) while encrypting"))?;
    if m.cmp(n).is_ge() {
        // not a number below the modulus: no data may come out
        return match r {
            Err(_) => Ok(()),
            Ok(v) => Err(what(&format!("padded message {} is not below the modulus, yet {} was returned", hx(&em), hx(&v)))),
        };
    }
    let ct = r.map_err(|p| what(&format!("encrypt_message of padded {} panicked: {p}", hx(&em))))?;
    eq_bytes(&ct, &m.powmod(exp, n).to_be_len(k), || what(&format!("ciphertext of padded {}", hx(&em))))?;
    let probe = Probe::default();
    let back = c.must(|| what(&format!("decrypt_message of {}", hx(&ct))), || dec.decrypt_message(&ct, ByRef(&probe)))?;
    let log = probe.log.take();
    eq(&log, &vec![("decode", vec![], em.clone(), k)], || what("calls of the padding scheme while decrypting"))?;
    eq_bytes(&back, &unprobe(&em), || what("message returned by the padding scheme"))?;
    let probe = Probe { refuse: true, ..Default::default() };
    c.refuses(|| what("a ciphertext the padding scheme refuses"), || dec.decrypt_message(&ct, ByRef(&probe)))?;
    c.outcome(&ct);
    c.sample(|| what(&format!("padded {} -> {} and back", hx(&em), hx(&ct))));
    Ok(())
}

pub struct Pair {
    pub key: Key,
    pub private: RsaEncryption,
    pub public: RsaEncryption,
}

pub fn load(c: &mut Ctx, key: &Key) -> Result<Pair, String> {
    let w = |s: &str| format!("{}: import of the {s} key", key.name());
    let private: PrivateKey = c.must(|| w("private"), || key.private())?.map_err(|e| format!("{}: {e}", w("private")))?;
    let public: PublicKey = c.must(|| w("public"), || key.public())?.map_err(|e| format!("{}: {e}", w("public")))?;
    Ok(Pair { key: key.clone(), private: private.into(), public: public.into() })
}

fn seeds(i: usize) -> Vec<u8> {
    match i {
        0 => vec![0; 32],
        1 => vec![0xff; 32],
        2 => vec![42; 32],
        p => bytes(3, 32).iter().map(|b| b ^ (p as u8).wrapping_mul(37)).collect(),
    }
}

/// message encrypted by the library, opened by the reference and by the library
fn oaep_round_trip(c: &mut Ctx, pair: &Pair, msg: &[u8], library_decrypts: bool) -> R {
    let key = &pair.key;
    let k = key.k();
    let what = |s: &str| format!("{}: {s}, message {}", key.name(), hx(msg));
    let ct = c.must(|| what("encrypt_message"), || pair.public.encrypt_message(msg, RsaPadding))?;
    if ct.len() != k {
        return Err(what(&format!("ciphertext has {} bytes, the modulus {k}", ct.len())));
    }
    let m = Nat::from_be(&ct).powmod(key.d(), key.n());
    eq(&oaep::decode(b"", &m.to_be_len(k), k), &Some(msg.to_vec()), || what("RFC 8017 decryption of the ciphertext"))?;
    if library_decrypts {
        let back = c.must(|| what(&format!("decrypt_message of {}", hx(&ct))), || pair.private.decrypt_message(&ct, RsaPadding))?;
        eq_bytes(&back, msg, || what("decryption"))?;
    }
    c.outcome(&ct);
    c.sample(|| what(&format!("ciphertext starts {} and opens", hx(&ct[..4]))));
    Ok(())
}

pub fn scenarios(t: Tier) -> Vec<Scenario> {
    let small = primes(t.pick(17, 29));
    let ns = small.len();
    let many = keys("many");
    let large = keys("large");
    let mut v = vec![
        scenario("probe-small-keys", format!("every pair of distinct primes among the first {ns} with the two smallest valid exponents above 1, every padded number 0..=n+2, either key first, a recording padding scheme"), {
            let small = small.clone();
            move |c| {
                let p = *c.pick(&small);
                let q = *c.pick(&small);
                if p >= q {
                    return Ok(());
                }
                let l = (p - 1) * (q - 1) / gcd(p - 1, q - 1);
                let es: Vec<u128> = (2..200).filter(|&e| gcd(e, l) == 1).take(2).collect();
                let e = *c.pick(&es);
                let dir = c.flag();
                let (a, b) = create_keys(big(p), big(q), big(e));
                let d = (1..=l).find(|d| d * e % l == 1 % l).unwrap();
                let (pr, pu): (RsaEncryption, RsaEncryption) = (a.into(), b.into());
                let n = Nat::from_u128(p * q);
                for m in 0..=p * q + 2 {
                    let m = Nat::from_u128(m);
                    let what = |s: &str| format!("RSA p={p} q={q} e={e}, {} first: {s}", if dir { "private" } else { "public" });
                    if dir {
                        probe_round_trip(c, &n, &Nat::from_u128(d), &pr, &pu, &m, &what)?;
                    } else {
                        probe_round_trip(c, &n, &Nat::from_u128(e), &pu, &pr, &m, &what)?;
                    }
                }
                Ok(())
            }
        }),
        scenario("probe-medium-keys", "p*q of every byte length 2..=16 bits-at-a-time (moduli of 9..=128 bits where a prime pair is listed), padded numbers 0, 1, 255, 256, n-1, n, n+1, 2^(8k-8)-1, 2^(8k-8) and every number whose ciphertext starts with a zero byte among the first 600", |c| {
            // primes near powers of two, so that moduli of many bit lengths appear
            let ps: &[u128] = &[3, 17, 127, 251, 257, 509, 521, 8191, 65521, 65537, 131071, 524287, 16777213, 16777259, 4294967291, 4294967311, (1 << 61) - 1, 18446744073709551557];
            let p = *c.pick(ps);
            let q = *c.pick(ps);
            if p >= q {
                return Ok(());
            }
            let Some(e) = [3u128, 5, 7, 11, 13, 17, 19].into_iter().find(|&e| gcd(e, p - 1) == 1 && gcd(e, q - 1) == 1) else {
                return Ok(());
            };
            let n = Nat::from_u128(p * q);
            let en = Nat::from_u128(e);
            let k = n.bits().div_ceil(8);
            let mut ms: Vec<Nat> = [0u128, 1, 2, 255, 256, 257, p, q, p * q - 1, p * q, p * q + 1].iter().map(|&m| Nat::from_u128(m)).collect();
            let top = Nat::from_u128(1).shl(8 * k - 8);
            ms.push(top.sub(&Nat::from_u128(1)).unwrap());
            ms.push(top.clone());
            ms.push(top.shl(8).sub(&Nat::from_u128(1)).unwrap());
            let lead: Vec<Nat> = (2..600u128)
                .map(Nat::from_u128)
                .filter(|m| m.cmp(&n).is_lt() && m.powmod(&en, &n).cmp(&top).is_lt())
                .take(12)
                .collect();
            ms.extend(lead);
            let m = c.pick(&ms).clone();
            let (a, b) = create_keys(big(p), big(q), big(e));
            let (pr, pu): (RsaEncryption, RsaEncryption) = (a.into(), b.into());
            probe_round_trip(c, &n, &en, &pu, &pr, &m, &|s: &str| format!("RSA p={p} q={q} e={e}, m={m:?}: {s}"))
        }),
        scenario("probe-imported-keys", format!("{} imported keys of 521..=4096 bits, either key first, padded numbers 0, 1, 255, 2^(8k-8)-1, 2^(8k-8), n-1, n, n+1, mixed and every prefix of zeros of 1, 2, 3, 16, 17 or k-1 bytes before a mixed rest, a recording padding scheme", many.len() + large.len()), {
            let many: Vec<Key> = many.iter().chain(&large).cloned().collect();
            move |c| {
                let key = c.pick(&many);
                let dir = c.flag();
                let k = key.k();
                let n = key.n().clone();
                let one = Nat::from_u128(1);
                let top = one.shl(8 * k as u32 - 8);
                let i = c.choose(15);
                let m = match i {
                    0 => Nat::zero(),
                    1 => one,
                    2 => Nat::from_u128(255),
                    3 => top.sub(&one).unwrap(),
                    4 => top,
                    5 => n.sub(&one).unwrap(),
                    6 => n.clone(),
                    7 => n.add(&one),
                    8 => Nat::from_be(&bytes(3, k)).rem(&n).unwrap(),
                    i => {
                        let z = [1, 2, 3, 16, 17, k - 1][i - 9];
                        Nat::from_be(&vec![0xd7; k - z])
                    }
                };
                let pair = load(c, key)?;
                let what = |s: &str| format!("{}, {} first: {s}", key.name(), if dir { "private" } else { "public" });
                if dir {
                    probe_round_trip(c, &n, key.d(), &pair.private, &pair.public, &m, &what)
                } else {
                    probe_round_trip(c, &n, key.e(), &pair.public, &pair.private, &m, &what)
                }
            }
        }),
        scenario("oaep-lengths", format!("{} imported keys with moduli of 521..=769 bits, every message length 0..=k-66 with 3 contents, encrypted by the library, opened by the reference and by the library", many.len()), {
            let many = many.clone();
            let contents = t.pick(3, 6);
            move |c| {
                let key = c.pick(&many);
                let n = c.range(0, key.k() - 66);
                let p = c.choose(contents);
                let pair = load(c, key)?;
                oaep_round_trip(c, &pair, &bytes(p, n), true)
            }
        }),
        scenario("oaep-large-keys", format!("imported keys of 1023..=4096 bits, message lengths 0, 1, 2, 127..=129, 190, 191, 255..=257, 319, half, full - 1 and full with {} contents, encrypted by the library, opened by the reference and by the library", t.pick(2, 6)), {
            let ls = large.clone();
            let contents = t.pick(2, 6);
            move |c| {
                let key = c.pick(&ls);
                let k = key.k();
                let n = *c.pick(&[0, 1, 2, 127, 128, 129, 190, 191, 255, 256, 257, 319, (k - 66) / 2, k - 67, k - 66]);
                if n > k - 66 {
                    return Ok(());
                }
                let p = 2 + c.choose(contents);
                let pair = load(c, key)?;
                oaep_round_trip(c, &pair, &bytes(p % PATTERNS, n), true)
            }
        }),
        scenario("oaep-all-one-byte", format!("{} keys, every one-byte message and the empty one (many ciphertexts start with zero bytes); the library decrypts those whose ciphertext starts with 0", t.pick(2, 6)), {
            let many = many.clone();
            let nk = t.pick(2, 6);
            move |c| {
                let room: Vec<&Key> = many.iter().filter(|k| k.k() >= 67).take(nk).collect();
                let key = *c.pick(&room);
                let b = c.choose(257);
                let msg = if b == 256 { vec![] } else { vec![b as u8] };
                let pair = load(c, key)?;
                oaep_round_trip(c, &pair, &msg, key.bits % 8 == 1)
            }
        }),
        scenario("oaep-foreign", format!("{} keys, reference encryptions with 4 seeds, message lengths 0, 1, half and full, opened by the library", many.len()), {
            let many = many.clone();
            move |c| {
                let key = c.pick(&many);
                let k = key.k();
                let n = *c.pick(&[0, 1, (k - 66) / 2, k - 66]);
                let seed = seeds(c.choose(4));
                if n > k - 66 {
                    return Ok(());
                }
                let msg = bytes(3, n);
                let pair = load(c, key)?;
                let em = oaep::encode(b"", &msg, k, &seed);
                let ct = Nat::from_be(&em).powmod(key.e(), key.n()).to_be_len(k);
                let what = || format!("{}: foreign ciphertext {} of {}", key.name(), hx(&ct), hx(&msg));
                let back = c.must(what, || pair.private.decrypt_message(&ct, RsaPadding))?;
                c.outcome(&ct);
                eq_bytes(&back, &msg, what)
            }
        }),
        scenario("oaep-leading-zero", format!("{} keys, the first {} reference ciphertexts (seeds counted upwards) that start with a zero byte, opened by the library", many.len(), t.pick(1, 4)), {
            let many = many.clone();
            let per = t.pick(1, 4);
            move |c| {
                let key = c.pick(&many);
                let want = c.choose(per);
                let k = key.k();
                let msg = bytes(4, (k - 66).min(2));
                let mut found = 0;
                for s in 0..60_000u32 {
                    let mut seed = vec![7; 32];
                    seed[..4].copy_from_slice(&s.to_be_bytes());
                    let em = oaep::encode(b"", &msg, k, &seed);
                    let ct = Nat::from_be(&em).powmod(key.e(), key.n()).to_be_len(k);
                    if ct[0] != 0 {
                        continue;
                    }
                    if found == want {
                        let pair = load(c, key)?;
                        let what = || format!("{}: foreign ciphertext {} of {}", key.name(), hx(&ct), hx(&msg));
                        let back = c.must(what, || pair.private.decrypt_message(&ct, RsaPadding))?;
                        c.outcome(&ct);
                        c.sample(what);
                        return eq_bytes(&back, &msg, what);
                    }
                    found += 1;
                }
                Ok(())
            }
        }),
        scenario("oaep-too-long", format!("{} keys and 9 keys below 66 bytes: every message length k-65..=k+3 is refused (small keys: 0..=3)", many.len()), {
            let many = many.clone();
            move |c| {
                if c.flag() {
                    let i = c.choose(super::c12::BIG.len());
                    let (p, q) = super::c12::BIG[i];
                    let Some(e) = [3u128, 5, 7, 11, 13, 17].into_iter().find(|&e| gcd(e, p - 1) == 1 && gcd(e, q - 1) == 1) else {
                        return Ok(());
                    };
                    let n = c.choose(4);
                    let (a, b) = create_keys(big(p), big(q), big(e));
                    let enc: RsaEncryption = if c.flag() { a.into() } else { b.into() };
                    c.outcome(&(i, n));
                    return c.refuses(|| format!("OAEP of {n} bytes under p={p} q={q}"), || enc.encrypt_message(&bytes(1, n), RsaPadding));
                }
                let key = c.pick(&many);
                let k = key.k();
                let n = c.range(k - 65, k + 3);
                let pair = load(c, key)?;
                c.outcome(&(key.bits, n));
                c.refuses(|| format!("{}: message of {n} bytes", key.name()), || pair.public.encrypt_message(&bytes(1, n), RsaPadding))
            }
        }),
        scenario("oaep-corrupt", format!("one valid ciphertext per key ({} keys), {}: decryption panics unless the reference decrypts it, and then gives the same", t.pick(2, many.len()), t.pick("top and bottom bit of every byte flipped, and the numbers 0, 1, 2, n-1", "every bit flipped, and the numbers 0, 1, 2, n-1")), {
            let many = many.clone();
            let nk = t.pick(2, many.len());
            let bits: Vec<u8> = t.pick(vec![0, 7], (0..8).collect());
            move |c| {
                let key = &many[c.choose(nk)];
                let k = key.k();
                let em = oaep::encode(b"", &bytes(3, k - 66), k, &seeds(3));
                let mut ct = Nat::from_be(&em).powmod(key.e(), key.n()).to_be_len(k);
                let i = c.choose(k + 4);
                if i < k {
                    ct[i] ^= 1 << c.pick(&bits);
                } else {
                    ct = match i - k {
                        0 => Nat::zero(),
                        1 => Nat::from_u128(1),
                        2 => Nat::from_u128(2),
                        _ => key.n().sub(&Nat::from_u128(1)).unwrap(),
                    }
                    .to_be_len(k);
                }
                if Nat::from_be(&ct).cmp(key.n()).is_ge() {
                    return Ok(()); // open: not a ciphertext
                }
                let pair = load(c, key)?;
                let want = oaep::decode(b"", &Nat::from_be(&ct).powmod(key.d(), key.n()).to_be_len(k), k);
                let got = c.call(|| pair.private.decrypt_message(&ct, RsaPadding));
                c.outcome(&ct);
                match (got, want) {
                    (Err(_), None) => Ok(()),
                    (Ok(g), Some(w)) if g == w => Ok(()),
                    (g, w) => Err(format!("{}: corrupted ciphertext {} gave {g:?}, the reference {w:?}", key.name(), hx(&ct))),
                }
            }
        }),
        scenario("decode-failures", "padded messages that are not OAEP encodings (flipped bytes of the data block before masking, wrong first byte, no separator, other label), encrypted by the reference: decryption panics", {
            let many = many.clone();
            move |c| {
                let key = &many[c.choose(2)];
                let k = key.k();
                let msg = bytes(3, 1.min(k - 66));
                let seed = seeds(3);
                let kind = c.choose(5);
                let mut db = oaep::db(if kind == 1 { b"x" } else { b"" }, &msg, k);
                let mut first = 0;
                match kind {
                    0 => {
                        let i = c.choose(32);
                        db[i] ^= 1 << c.choose(8);
                    }
                    1 => {}
                    2 => db[32..].fill(0),
                    3 => {
                        let i = db.iter().skip(32).position(|&b| b == 1).unwrap() + 32;
                        db[i] = *c.pick(&[2, 3, 0x81, 0xff]);
                    }
                    _ => first = 1,
                }
                let em = oaep::mask(first, &seed, &db);
                let m = Nat::from_be(&em);
                if m.cmp(key.n()).is_ge() {
                    return Ok(());
                }
                let ct = m.powmod(key.e(), key.n()).to_be_len(k);
                let pair = load(c, key)?;
                c.outcome(&ct);
                c.refuses(|| format!("{}: ciphertext {} of the non-encoding {}", key.name(), hx(&ct), hx(&em)), || pair.private.decrypt_message(&ct, RsaPadding))
            }
        }),
    ];
    if t.thorough() {
        v.push(scenario("two-prime-keys", "imported two-prime keys of 521, 528 and 1024 bits (e = 3, 65537, 17), message lengths 0, 1, half, full, library to library", |c| {
            let two = keys("two");
            let key = c.pick(&two);
            let n = *c.pick(&[0, 1, (key.k() - 66) / 2, key.k() - 66]);
            if n > key.k() - 66 {
                return Ok(());
            }
            let pair = load(c, key)?;
            oaep_round_trip(c, &pair, &bytes(3, n), true)
        })
        .limit(600));
    }
    v
}
