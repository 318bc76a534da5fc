//! RC4 keystream.
use crate::engine::*;
use crate::refs::rc45::rc4_stream;
use crate::util::*;
use cryptography::{StreamCipher, rc4};

fn take(k: &mut rc4, n: usize) -> Vec<u8> {
    let mut o = Vec::with_capacity(n);
    for _ in 0..n {
        o.push(k.next().expect("the keystream ended"));
    }
    o
}

pub fn scenarios(t: Tier) -> Vec<Scenario> {
    let long = t.pick((1 << 24) + 70000, 1usize << 28);
    let mut v = vec![
        scenario(
            "every-key-length",
            "every key length 1..=256 x 6 key patterns, 1100 keystream bytes; encrypt and decrypt of messages of 0, 1, 255..257 and 1000 bytes",
            |c| {
                let n = c.range(1, 256);
                let key = bytes(c.choose(PATTERNS), n);
                let want = rc4_stream(&key, 1100);
                let got = c.must(|| "keystream".into(), || take(&mut rc4::new(&key), 1100))?;
                eq_bytes(&got, &want, || format!("RC4 keystream, {n}-byte key {}", hx(&key)))?;
                for len in [0, 1, 255, 256, 257, 1000] {
                    let m = bytes(3, len);
                    let ct = c.must(|| format!("encrypt {len}"), || rc4::new(&key).encrypt(&m))?;
                    let w: Vec<u8> = m.iter().zip(&want).map(|(a, b)| a ^ b).collect();
                    eq_bytes(&ct, &w, || format!("RC4 encrypt of {len} bytes, key {}", hx(&key)))?;
                    let back = c.must(|| format!("decrypt {len}"), || rc4::new(&key).decrypt(&ct))?;
                    eq_bytes(&back, &m, || format!("RC4 decrypt of {len} bytes, key {}", hx(&key)))?;
                }
                c.outcome(&got);
                c.sample(|| format!("key {}: {}", hx(&key), hx(&got[..16])));
                Ok(())
            },
        ),
        scenario(
            "one-byte-changes",
            "key lengths {1,2,5,16,255,256} x 3 bases, any key byte set to any value, 300 keystream bytes",
            |c| {
                let n = *c.pick(&[1, 2, 5, 16, 255, 256]);
                let mut key = bytes([0, 1, 4][c.choose(3)], n);
                perturb(c, &mut key, 1, &all_deltas());
                let want = rc4_stream(&key, 300);
                let got = c.must(|| "keystream".into(), || take(&mut rc4::new(&key), 300))?;
                c.outcome(&got);
                eq_bytes(&got, &want, || format!("RC4 keystream, key {}", hx(&key)))
            },
        ),
        scenario("two-byte-keys", "every 2-byte key, 64 keystream bytes", |c| {
            let key = [c.choose(256) as u8, c.choose(256) as u8];
            let got = c.must(|| "keystream".into(), || take(&mut rc4::new(&key), 64))?;
            c.outcome(&got);
            eq_bytes(&got, &rc4_stream(&key, 64), || format!("RC4 keystream, key {}", hx(&key)))
        }),
        scenario(
            "iterator-methods",
            format!("every sequence of {} reads by next, nth(0|1|5|300), by_ref().take(k), skip, step_by, zip, take_while, peekable, for_each, fold, StreamCipher on one object", t.pick(3, 4)),
            move |c| {
                let key = bytes(*c.pick(&[3, 0]), *c.pick(&[5, 16]));
                let want = rc4_stream(&key, 4096);
                let mut k = c.must(|| "new".into(), || rc4::new(&key))?;
                let mut pos = 0usize;
                let mut hist = String::new();
                for _ in 0..t.pick(3, 4) {
                    let o = c.choose(13);
                    // (bytes seen, their positions relative to pos, bytes consumed)
                    type Seen = (Vec<u8>, Vec<usize>, usize);
                    let k = &mut k;
                    let (got, rel, used): Seen = c.must(
                        || format!("{hist} then op {o}"),
                        move || match o {
                            0 => (k.next().into_iter().collect(), vec![0], 1),
                            1 => (k.nth(0).into_iter().collect(), vec![0], 1),
                            2 => (k.nth(1).into_iter().collect(), vec![1], 2),
                            3 => (k.nth(5).into_iter().collect(), vec![5], 6),
                            4 => (k.nth(300).into_iter().collect(), vec![300], 301),
                            5 => (k.by_ref().take(0).collect(), vec![], 0),
                            6 => (k.by_ref().take(259).collect(), (0..259).collect(), 259),
                            7 => (k.by_ref().skip(3).take(2).collect(), vec![3, 4], 5),
                            8 => (k.by_ref().step_by(3).take(3).collect(), vec![0, 3, 6], 7),
                            9 => (k.by_ref().take(7).fold(vec![], |mut v, b| { v.push(b); v }), (0..7).collect(), 7),
                            10 => {
                                let mut v = vec![];
                                k.by_ref().take(4).for_each(|b| v.push(b));
                                (v, (0..4).collect(), 4)
                            }
                            11 => {
                                // as the keystream of a stream cipher, borrowed
                                let mut s = StreamCipher::new(k.by_ref());
                                (s.encrypt(vec![0u8; 6]).collect(), (0..6).collect(), 6)
                            }
                            _ => ((0..3).zip(k.by_ref()).map(|x| x.1).collect(), vec![0, 1, 2], 3),
                        },
                    )?;
                    hist.push_str(&format!("{o} "));
                    let w: Vec<u8> = rel.iter().map(|r| want[pos + r]).collect();
                    eq_bytes(&got, &w, || format!("RC4 reads {hist}, stream position {pos}"))?;
                    pos += used;
                }
                c.outcome(&pos);
                c.sample(|| format!("ops {hist} end at position {pos}"));
                Ok(())
            },
        ),
        scenario(
            "big-skips",
            format!("keystream read up to position {{0,1,255,256}}, then two skips of 2^k + {{-2,-1,0,1}} bytes (k = 7..={}) by nth, skip or step_by, the bytes after each compared", t.pick(20, 24)),
            move |c| {
                let key = bytes(3, 9);
                let kmax = t.pick(20usize, 24);
                let start = *c.pick(&[0usize, 1, 255, 256]);
                let n = (1usize << c.range(7, kmax)) + c.choose(4) - 2;
                let m = *c.pick(&[0usize, 1, 254, 255, 256, 65535, 65536]);
                let how = c.choose(3);
                let want = rc4_stream(&key, start + 2 * n + m + 40);
                let (got, rel) = c.must(|| format!("skip of {n} then {m} by method {how} from position {start}"), || {
                    let mut k = rc4::new(&key);
                    take(&mut k, start);
                    let mut got = vec![];
                    let mut rel = vec![];
                    let mut p = 0;
                    match how {
                        0 => {
                            for s in [n, m] {
                                got.extend(k.nth(s));
                                rel.push(p + s);
                                p += s + 1;
                            }
                        }
                        1 => {
                            for s in [n, m] {
                                got.extend(k.by_ref().skip(s).take(3));
                                rel.extend(p + s..p + s + 3);
                                p += s + 3;
                            }
                        }
                        _ => {
                            got.extend(k.by_ref().step_by(n).take(3));
                            rel.extend([0, n, 2 * n]);
                            p = 2 * n + 1;
                        }
                    }
                    got.extend(k.by_ref().take(5));
                    rel.extend(p..p + 5);
                    (got, rel)
                })?;
                let w: Vec<u8> = rel.iter().map(|r| want[start + r]).collect();
                c.outcome(&got);
                eq_bytes(&got, &w, || format!("RC4, key {}, skip of {n} then {m} by {} from keystream position {start}", hx(&key), ["nth", "skip", "step_by"][how]))
            },
        ),
        scenario(
            "message-lengths",
            format!("messages of every length 0..=1300 and of 2^k + {{-1,0,1}} bytes for k up to {}: encrypt, decrypt and a stream cipher over the keystream", t.pick(20, 26)),
            move |c| {
                let mut lens: Vec<usize> = (0..=1300).collect();
                for k in 11..=t.pick(20, 26) {
                    lens.extend([(1usize << k) - 1, 1 << k, (1 << k) + 1]);
                }
                let len = *c.pick(&lens);
                let key = bytes(3, [5, 16][c.choose(2)]);
                let m = bytes(4, len);
                let want: Vec<u8> = rc4_stream(&key, len).iter().zip(&m).map(|(a, b)| a ^ b).collect();
                let diff = |what: &str, got: &[u8], want: &[u8]| -> Result<(), String> {
                    if got.len() != want.len() {
                        return Err(format!("RC4 {what} of {len} bytes gave {} bytes", got.len()));
                    }
                    match got.iter().zip(want).position(|(a, b)| a != b) {
                        None => Ok(()),
                        Some(i) => Err(format!("RC4 {what} of {len} bytes, key {}: byte {i} is {:02x}, expected {:02x}", hx(&key), got[i], want[i])),
                    }
                };
                let ct = c.must(|| format!("encrypt {len}"), || rc4::new(&key).encrypt(&m))?;
                diff("encrypt", &ct, &want)?;
                let back = c.must(|| format!("decrypt {len}"), || rc4::new(&key).decrypt(&want))?;
                diff("decrypt", &back, &m)?;
                let s = c.must(|| format!("stream {len}"), || {
                    StreamCipher::new(rc4::new(&key)).encrypt(m.iter().copied()).collect::<Vec<u8>>()
                })?;
                diff("stream", &s, &want)?;
                c.outcome(&(len, h64(&ct)));
                Ok(())
            },
        ),
        scenario(
            "part-used-keystreams",
            "keystream read up to position {0,1,2,100,255,256,257,511,1000} by next, then encrypt or decrypt of {0,1,2,255,256,257,600} bytes with what is left of it",
            |c| {
                let key = bytes([3, 0][c.choose(2)], *c.pick(&[1, 5, 16, 256]));
                let pos = *c.pick(&[0usize, 1, 2, 100, 255, 256, 257, 511, 1000]);
                let len = *c.pick(&[0usize, 1, 2, 255, 256, 257, 600]);
                let dec = c.choose(2) == 1;
                let want = rc4_stream(&key, pos + len);
                let m = bytes(4, len);
                let got = c.must(|| format!("{len} bytes from position {pos}"), || {
                    let mut k = rc4::new(&key);
                    take(&mut k, pos);
                    if dec { k.decrypt(&m) } else { k.encrypt(&m) }
                })?;
                let want: Vec<u8> = want[pos..].iter().zip(&m).map(|(a, b)| a ^ b).collect();
                c.outcome(&got);
                eq_bytes(&got, &want, || format!("RC4, key {}, {len} bytes from keystream position {pos}", hx(&key)))
            },
        ),
        scenario("long-streams", format!("3 keys, every one of the first {long} keystream bytes"), move |c| {
            let key = bytes(3, [1, 16, 256][c.choose(3)]);
            let want = rc4_stream(&key, long);
            let got = c.must(|| "keystream".into(), || take(&mut rc4::new(&key), long))?;
            c.outcome(&h64(&got));
            match got.iter().zip(&want).position(|(a, b)| a != b) {
                None => Ok(()),
                Some(i) => Err(format!("RC4 keystream byte {i} is {:02x}, expected {:02x}; key {}", got[i], want[i], hx(&key))),
            }
        })
        .limit(300),
    ];
    v.push(
        scenario("very-long-stream", "one key, every one of the first 2^32 + 2^20 keystream bytes, read 65536 at a time", |c| {
            const STEP: usize = 1 << 16;
            let key = bytes(4, 11);
            let mut k = c.must(|| "new".into(), || rc4::new(&key))?;
            let mut s: [u8; 256] = core::array::from_fn(|i| i as u8);
            let mut j = 0u8;
            for i in 0..256 {
                j = j.wrapping_add(s[i]).wrapping_add(key[i % key.len()]);
                s.swap(i, j as usize);
            }
            let (mut a, mut b) = (0u8, 0u8);
            let mut got = vec![0u8; STEP];
            for n in 0..((1u64 << 32) + (1 << 20)) / STEP as u64 {
                c.must(|| format!("keystream bytes from {}", n * STEP as u64), || {
                    for g in got.iter_mut() {
                        *g = k.next().expect("the keystream ended");
                    }
                })?;
                for (i, &g) in got.iter().enumerate() {
                    a = a.wrapping_add(1);
                    b = b.wrapping_add(s[a as usize]);
                    s.swap(a as usize, b as usize);
                    let w = s[s[a as usize].wrapping_add(s[b as usize]) as usize];
                    if g != w {
                        return Err(format!("RC4 keystream byte {}: got {g:02x}, expected {w:02x}; key {}", n * STEP as u64 + i as u64, hx(&key)));
                    }
                }
            }
            c.outcome(&h64(&got));
            Ok(())
        })
        .limit(600)
        .once(),
    );
    v
}
