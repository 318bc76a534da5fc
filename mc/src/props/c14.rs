//! EME-OAEP encoding and decoding.
use crate::engine::*;
use crate::refs::oaep;
use crate::util::*;
use cryptography::rsa::{PaddingScheme, RsaPadding};

fn labels() -> Vec<Vec<u8>> {
    let mut v = vec![vec![], vec![0], b"x".to_vec(), b"label".to_vec()];
    for n in [31, 32, 55, 56, 63, 64, 65, 119, 120, 200] {
        v.push(bytes(3, n));
    }
    v
}

fn seed(i: usize) -> Vec<u8> {
    match i {
        0 => vec![42; 32],
        1 => vec![0; 32],
        2 => vec![0xff; 32],
        _ => bytes(3, 32).iter().map(|b| b.wrapping_add(i as u8 * 11)).collect(),
    }
}

fn encode_ok(c: &mut Ctx, label: &[u8], msg: &[u8], k: usize) -> R {
    let what = |s: &str| format!("OAEP {s}: label {} message {} length {k}", hx(label), hx(msg));
    let em = c.must(|| what("encode"), || RsaPadding.encode(label, msg, k))?;
    if em.len() != k {
        return Err(what(&format!("encoding has {} bytes", em.len())));
    }
    if em[0] != 0 {
        return Err(what(&format!("encoding starts with {:02x}", em[0])));
    }
    if oaep::decode(label, &em, k).as_deref() != Some(msg) {
        return Err(what(&format!("encoding {} is not an RFC 8017 encoding of the message", hx(&em))));
    }
    let back = c.must(|| what("decode"), || RsaPadding.decode(label, &em, k))?;
    if back.as_deref() != Ok(msg) {
        return Err(what(&format!("decoding the encoding gave {:?}", back.map(|b| hx(&b)))));
    }
    c.outcome(&em);
    c.sample(|| what(&format!("encoded {}", hx(&em))));
    Ok(())
}

/// the library and the reference agree on an arbitrary byte string
fn judge(c: &mut Ctx, label: &[u8], em: &[u8], k: usize, how: &dyn Fn() -> String) -> R {
    let what = || format!("OAEP decode of {} (label {}, length {k}; {})", hx(em), hx(label), how());
    let got = c.must(what, || RsaPadding.decode(label, em, k))?;
    let want = oaep::decode(label, em, k);
    c.outcome(&(&want, em.len()));
    match (&got, &want) {
        (Ok(g), Some(w)) if g == w => {}
        (Err(_), None) => {}
        _ => return Err(format!("{}: got {:?}, RFC 8017 says {:?}", what(), got.map(|b| hx(&b)), want.map(|b| hx(&b)))),
    }
    c.sample(|| format!("{}: {:?}", what(), want.is_some()));
    Ok(())
}

pub fn scenarios(t: Tier) -> Vec<Scenario> {
    let kmax = t.pick(140, 300);
    vec![
        scenario("encode-grid", format!("every output length 66..={kmax}, every message length 0..=k-66, message contents x labels diagonally over {PATTERN_NAMES} and 14 labels"), move |c| {
            let k = c.range(66, kmax);
            let n = c.range(0, k - 66);
            let ls = labels();
            encode_ok(c, &ls[(k + n) % ls.len()], &bytes((k + 2 * n) % PATTERNS, n), k)
        }),
        scenario("encode-labels", format!("output lengths 66, 67, 97, 98, 99, 128, 256; message lengths 0, 1, 2, k-67, k-66; {PATTERNS} contents; 14 labels and every label of one byte"), |c| {
            let k = *c.pick(&[66usize, 67, 97, 98, 99, 128, 256]);
            let n = (*c.pick(&[0, 1, 2, (k - 66).saturating_sub(1), k - 66])).min(k - 66);
            let p = c.choose(PATTERNS);
            let ls = labels();
            let l = c.choose(ls.len() + 256);
            let label = if l < ls.len() { ls[l].clone() } else { vec![(l - ls.len()) as u8] };
            encode_ok(c, &label, &bytes(p, n), k)
        }),
        scenario("encode-huge", "output lengths around MGF1 counters 255/256 (8192..=8320 step 16) and 65535/65536 (2 MiB), messages of length 0 and k-66", move |c| {
            let mut ks: Vec<usize> = (8192..=8320).step_by(16).collect();
            ks.extend([2_097_152, 2_097_152 + 200, 2_097_152 + 33]);
            let k = *c.pick(&ks);
            let n = *c.pick(&[0, k - 66]);
            encode_ok(c, b"", &bytes(3, n), k)
        }),
        scenario("long-labels", "labels of 2^k - 1, 2^k and 2^k + 1 bytes, k = 8..=17, and of 2^20 bytes: encoded by the library, and by the reference and decoded by the library under the same label and under labels that differ in the first, middle or last byte or lack or add one at the end", |c| {
            let k = c.range(8, 18);
            let n = if k == 18 { 1 << 20 } else { (1 << k) - 1 + c.choose(3) };
            let label = bytes(3, n);
            encode_ok(c, &label, b"hi", 80)?;
            let em = oaep::encode(&label, b"hi", 80, &seed(3));
            let mut other = label.clone();
            match c.choose(5) {
                0 => other[0] ^= 1,
                1 => other[n / 2] ^= 1,
                2 => other[n - 1] ^= 1,
                3 => { other.pop(); }
                _ => other.push(0),
            }
            judge(c, &label, &em, 80, &|| format!("label of {n} bytes"))?;
            judge(c, &other, &em, 80, &|| format!("encoded under a label of {n} bytes"))
        }),
        scenario("message-bytes", "every one-byte message, every two-byte message with a first byte of 0, 1, 2 or 255, at output lengths with 0, 1 and 5 bytes of zero padding", |c| {
            let two = c.choose(5);
            let b = c.choose(256) as u8;
            let msg = if two == 0 { vec![b] } else { vec![[0, 1, 2, 255][two - 1], b] };
            let k = 66 + msg.len() + *c.pick(&[0, 1, 5]);
            encode_ok(c, b"", &msg, k)
        }),
        scenario("too-long", "every output length 0..=140 with every message length from 0 (if k < 66) or k-65 up to k+2, refused", |c| {
            let k = c.range(0, 140);
            let lo = if k < 66 { 0 } else { k - 65 };
            let n = c.range(lo, k + 2);
            c.outcome(&(k, n));
            c.refuses(|| format!("OAEP encode of {n} bytes into {k}"), || RsaPadding.encode(b"", &bytes(3, n), k))
        }),
        scenario("foreign-seeds", format!("reference encodings with {} seeds, output lengths 66..=110, message lengths 0..=k-66, 3 labels", t.pick(4, 12)), {
            let ns = t.pick(4, 12);
            move |c| {
                let k = c.range(66, 110);
                let n = c.range(0, k - 66);
                let s = seed(c.choose(ns));
                let l = c.pick(&[&b""[..], b"x", b"label"]).to_vec();
                let msg = bytes((n + k) % PATTERNS, n);
                let em = oaep::encode(&l, &msg, k, &s);
                judge(c, &l, &em, k, &|| format!("valid, seed {}", hx(&s)))
            }
        }),
        scenario("corrupt-any-byte", format!("valid encodings (k = 66, 67, 80, {}; message lengths 0, 1, k-66), every byte xored with {}", t.pick(98, 129), t.pick("1, 0x80 or 0xff", "every value")), {
            let ks = t.pick(vec![66usize, 67, 80, 98], vec![66, 67, 80, 129]);
            let deltas: Vec<u8> = t.pick(vec![1, 0x80, 0xff], all_deltas());
            move |c| {
                let k = *c.pick(&ks);
                let n = (*c.pick(&[0, 1, k - 66])).min(k - 66);
                let mut em = oaep::encode(b"L", &bytes(3, n), k, &seed(3));
                let i = c.choose(k);
                em[i] ^= *c.pick(&deltas);
                judge(c, b"L", &em, k, &|| format!("byte {i} of a valid encoding changed"))
            }
        }),
        scenario("first-byte", "every first byte 0..=255 in front of an otherwise valid encoding, k = 66, 80", |c| {
            let k = *c.pick(&[66usize, 80]);
            let f = c.choose(256) as u8;
            let em = oaep::mask(f, &seed(3), &oaep::db(b"", &bytes(3, k - 66), k));
            judge(c, b"", &em, k, &|| "first byte chosen".into())
        }),
        scenario("data-block-bytes", "data blocks (masked correctly) with every single byte replaced by every value: label hash, zero padding, separator and message, k = 66, 67, 72 and 98, message lengths 0 and 3", |c| {
            let k = *c.pick(&[66usize, 67, 72, 98]);
            let n = (*c.pick(&[0usize, 3])).min(k - 66);
            let mut db = oaep::db(b"", &bytes(3, n), k);
            let i = c.choose(db.len());
            db[i] = c.choose(256) as u8;
            let em = oaep::mask(0, &seed(3), &db);
            judge(c, b"", &em, k, &|| format!("data block byte {i} replaced"))
        }),
        scenario("label-hash-subsets", format!("the label hash with any {} bytes flipped, masked correctly", t.pick("one or two", "one, two or three")), {
            let m = t.pick(2, 3);
            move |c| {
                let mut db = oaep::db(b"", b"hi", 80);
                perturb(c, &mut db[..32], m, &[0x01]);
                let em = oaep::mask(0, &seed(4), &db);
                judge(c, b"", &em, 80, &|| "label hash changed".into())
            }
        }),
        scenario("tail-patterns", "data blocks whose part after the label hash is every sequence of length 1..=8 over {0, 1, 2, 255}: separator missing, late, doubled or of another value", {
            let maxn = t.pick(6, 8);
            move |c| {
                let n = c.range(1, maxn);
                let mut db = oaep::db(b"", b"", 66);
                db.truncate(32);
                for _ in 0..n {
                    db.push(*c.pick(&[0, 1, 2, 255]));
                }
                let k = db.len() + 33;
                let em = oaep::mask(0, &seed(3), &db);
                judge(c, b"", &em, k, &|| format!("data block tail {}", hx(&db[32..])))
            }
        }),
        scenario("wrong-label", "encodings under each of 14 labels and of the empty label decoded under each", |c| {
            let ls = labels();
            let a = c.pick(&ls).clone();
            let b = c.pick(&ls).clone();
            let k = *c.pick(&[66usize, 100]);
            let em = oaep::encode(&a, &bytes(2, k - 66), k, &seed(3));
            judge(c, &b, &em, k, &|| format!("encoded under label {}", hx(&a)))
        }),
        scenario("wrong-length", format!("byte strings of every length 0..={} (zeros, 0xff, mixed, valid encodings cut or extended) with every stated length 0..={}", t.pick(100, 140), t.pick(100, 140)), {
            let m = t.pick(100, 140);
            move |c| {
                let n = c.range(0, m);
                let k = c.range(0, m);
                let em = match c.choose(5) {
                    0 => vec![0; n],
                    1 => vec![0xff; n],
                    2 => {
                        let mut e = bytes(3, n);
                        if n > 0 {
                            e[0] = 0;
                        }
                        e
                    }
                    3 => {
                        // a valid encoding of the stated length, cut or extended
                        if k < 66 {
                            return Ok(());
                        }
                        let mut e = oaep::encode(b"", &bytes(3, (k - 66).min(2)), k, &seed(3));
                        e.resize(n, 0);
                        e
                    }
                    _ => {
                        // a valid encoding of its own length
                        if n < 66 {
                            return Ok(());
                        }
                        oaep::encode(b"", &bytes(3, (n - 66).min(2)), n, &seed(3))
                    }
                };
                judge(c, b"", &em, k, &|| "length".into())
            }
        }),
    ]
}
