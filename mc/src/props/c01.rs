//! AES against FIPS-197.
use crate::engine::*;
use crate::refs;
use crate::util::*;
use cryptography::BlockCipher;
use cryptography::aes::{Aes, Key128, Key192, Key256};

pub use super::ops::make;

fn check(c: &mut Ctx, key: &[u8], as_words: bool, block: [u8; 16]) -> R {
    let what = |op: &str| format!("AES-{} ({}) {op}, key {} block {}", key.len() * 8, if as_words { "words" } else { "bytes" }, hx(key), hx(&block));
    let real = c.must(|| what("key setup"), || make(key, as_words))?;
    let model = refs::aes::Aes::new(key);
    let ct = c.must(|| what("encrypt"), || real.encrypt(block))?;
    eq_bytes(&ct, &model.encrypt(block), || what("encrypt"))?;
    let pt = c.must(|| what("decrypt"), || real.decrypt(block))?;
    eq_bytes(&pt, &model.decrypt(block), || what("decrypt"))?;
    let back = c.must(|| what("decrypt of encrypt"), || real.decrypt(ct))?;
    eq_bytes(&back, &block, || what("decrypt of encrypt"))?;
    c.outcome(&ct);
    c.sample(|| format!("{} = {}", what("encrypt"), hx(&ct)));
    Ok(())
}

const SIZES: [usize; 3] = [16, 24, 32];

pub fn scenarios(t: Tier) -> Vec<Scenario> {
    let bases = t.pick(4, PATTERNS);
    let mut v = vec![
        scenario(
            "one-byte-changes",
            format!("3 key sizes x 2 ways to supply the key x {bases} base patterns for key||block, any one byte of key||block set to any value"),
            move |c| {
                let n = *c.pick(&SIZES);
                let w = c.flag();
                let mut kb = bytes(c.choose(bases), n + 16);
                perturb(c, &mut kb, 1, &all_deltas());
                check(c, &kb[..n], w, kb[n..].try_into().unwrap())
            },
        ),
        scenario(
            "two-byte-changes",
            format!("3 key sizes x {bases} base patterns, any two bytes of key||block changed by 01, 80, 5a or ff"),
            move |c| {
                let n = *c.pick(&SIZES);
                let mut kb = bytes(c.choose(bases), n + 16);
                perturb(c, &mut kb, 2, &[0x01, 0x80, 0x5a, 0xff]);
                check(c, &kb[..n], false, kb[n..].try_into().unwrap())
            },
        ),
        scenario("bits", "3 key sizes x 6 bases, every pair of flipped bits: one in the key, one in the block", move |c| {
            let n = *c.pick(&SIZES);
            let mut kb = bytes(c.choose(PATTERNS), n + 16);
            let k = c.choose(n * 8);
            let b = c.choose(128);
            kb[k / 8] ^= 1 << (k % 8);
            kb[n + b / 8] ^= 1 << (b % 8);
            check(c, &kb[..n], k % 2 == 1, kb[n..].try_into().unwrap())
        }),
        scenario(
            "call-histories",
            format!("one cipher object, every sequence of {} operations from: encrypt/decrypt of 3 blocks or of the last result", t.pick(4, 5)),
            move |c| {
                let n = *c.pick(&SIZES);
                let key = bytes(c.choose(3) + 2, n);
                let real = c.must(|| "key setup".into(), || make(&key, false))?;
                let model = refs::aes::Aes::new(&key);
                let mut last = [0u8; 16];
                for step in 0..t.pick(4, 5) {
                    let o = c.choose(8);
                    let b = if o / 2 == 3 { last } else { arr::<16>([0, 2, 4][o / 2]) };
                    let (got, want) = if o % 2 == 0 {
                        (c.must(|| "encrypt".into(), || real.encrypt(b))?, model.encrypt(b))
                    } else {
                        (c.must(|| "decrypt".into(), || real.decrypt(b))?, model.decrypt(b))
                    };
                    eq_bytes(&got, &want, || format!("call {step} on one AES-{} object, block {}", n * 8, hx(&b)))?;
                    last = got;
                }
                c.outcome(&last);
                Ok(())
            },
        ),
    ];
    let fills: &'static [usize] = t.pick(&[0, 3], &[0, 1, 2, 3, 5]);
    v.push(scenario(
        "chosen-schedules",
        format!("3 key sizes, every position of the key schedule: the words there are all one of {} patterns with any one byte set to any value (the key is computed backwards)", fills.len()),
        move |c| {
            let n = *c.pick(&SIZES);
            let total = 4 * (n / 4 + 7);
            let pos = c.choose(total - n / 4 + 1);
            let mut w = bytes(*c.pick(fills), n);
            perturb(c, &mut w, 1, &all_deltas());
            let win: Vec<[u8; 4]> = w.chunks(4).map(|x| x.try_into().unwrap()).collect();
            let key = refs::aes::Aes::key_for_window(&win, pos);
            if refs::aes::Aes::new(&key).words()[pos..pos + win.len()] != win[..] {
                panic!("the key schedule was not inverted");
            }
            check(c, &key, false, arr(3))
        },
    ));
    v.push(scenario(
        "chosen-schedule-words",
        "3 key sizes, every position of the key schedule: the words there are zero except one, whose 4 bytes are each one of 00 01 80 ff",
        move |c| {
            let n = *c.pick(&SIZES);
            let total = 4 * (n / 4 + 7);
            let pos = c.choose(total - n / 4 + 1);
            let mut win = vec![[0u8; 4]; n / 4];
            let k = c.choose(n / 4);
            for i in 0..4 {
                win[k][i] = *c.pick(&[0, 1, 0x80, 0xff]);
            }
            let key = refs::aes::Aes::key_for_window(&win, pos);
            check(c, &key, false, arr(2))
        },
    ));
    v.push(scenario(
        "chosen-states",
        format!("3 key sizes, the state before SubBytes, before MixColumns or after MixColumns of every round is one of {} patterns with any one byte set to any value (the plaintext is computed backwards)", fills.len()),
        move |c| {
            let n = *c.pick(&SIZES);
            let key = bytes(3, n);
            let m = refs::aes::Aes::new(&key);
            let r = c.range(1, m.rounds() - 1);
            let kind = c.choose(3);
            let mut st: [u8; 16] = arr(*c.pick(fills));
            perturb(c, &mut st, 1, &all_deltas());
            check(c, &key, false, m.plaintext_for_state(st, r, kind))
        },
    ));
    v.push(scenario(
        "chosen-columns",
        "3 key sizes, the same three places of every round: one column with 4 bytes each one of 00 01 02 80 ff, the others zero or mixed",
        move |c| {
            let n = *c.pick(&SIZES);
            let key = bytes(4, n);
            let m = refs::aes::Aes::new(&key);
            let r = c.range(1, m.rounds() - 1);
            let kind = c.choose(3);
            let mut st: [u8; 16] = arr(*c.pick(&[0, 3]));
            let col = c.choose(4);
            for i in 0..4 {
                st[4 * col + i] = *c.pick(&[0, 1, 2, 0x80, 0xff]);
            }
            check(c, &key, false, m.plaintext_for_state(st, r, kind))
        },
    ));
    let calls = t.pick(70_000, 1_000_000);
    v.push(scenario(
        "many-calls",
        format!("3 key sizes, one cipher object, {calls} calls of encrypt, of decrypt, or of both in turn, each on the last result"),
        move |c| {
            let n = *c.pick(&SIZES);
            let key = bytes(4, n);
            let how = c.choose(3);
            let real = c.must(|| "key setup".into(), || make(&key, false))?;
            let model = refs::aes::Aes::new(&key);
            let mut b: [u8; 16] = arr(3);
            for i in 0..calls {
                let enc = how == 0 || how == 2 && i % 2 == 0;
                let x = if how == 2 { let mut x = b; x[i % 16] ^= i as u8; x } else { b };
                let (got, want) = if enc { (c.must(|| format!("call {i}"), || real.encrypt(x))?, model.encrypt(x)) } else { (c.must(|| format!("call {i}"), || real.decrypt(x))?, model.decrypt(x)) };
                eq_bytes(&got, &want, || format!("call {i} ({}) on one AES-{} object, block {}", if enc { "encrypt" } else { "decrypt" }, n * 8, hx(&x)))?;
                b = got;
            }
            c.outcome(&b);
            Ok(())
        },
    ));
    let len = t.pick(3000, 200_000);
    v.push(scenario(
        "orbits",
        format!("3 key sizes x 2 key APIs x 6 bases, {len} steps each of block := E(block), key := key xor E(block)"),
        move |c| {
            let n = *c.pick(&SIZES);
            let w = c.flag();
            let p = c.choose(PATTERNS);
            let mut key = bytes(p, n);
            let mut b: [u8; 16] = arr(p);
            for _ in 0..len {
                check(c, &key, w, b)?;
                let e = refs::aes::Aes::new(&key).encrypt(b);
                for (i, k) in key.iter_mut().enumerate() {
                    *k ^= e[i % 16].rotate_left((i / 16) as u32);
                }
                b = e;
            }
            Ok(())
        },
    ));
    v
}
