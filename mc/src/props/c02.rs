//! RC2 against RFC 2268.
use crate::engine::*;
use crate::refs::rc2::Rc2;
use crate::util::*;
use cryptography::BlockCipher;
use cryptography::rc2;

fn check(c: &mut Ctx, key: &[u8], bits: usize, blocks: &[[u8; 8]]) -> R {
    let what = |op: &str, b: &[u8]| format!("RC2 {op}, {}-byte key {} effective bits {bits} block {}", key.len(), hx(key), hx(b));
    let real = c.must(|| what("key setup", &[]), || rc2::from_key(key, bits as u16))?;
    let model = Rc2::new(key, bits);
    for &b in blocks {
        let ct = c.must(|| what("encrypt", &b), || real.encrypt(b))?;
        eq_bytes(&ct, &model.encrypt(b), || what("encrypt", &b))?;
        let back = c.must(|| what("decrypt", &ct), || real.decrypt(ct))?;
        eq_bytes(&back, &b, || what("decrypt of encrypt", &b))?;
        // an arbitrary block has a preimage too
        let pre = c.must(|| what("decrypt", &b), || real.decrypt(b))?;
        eq_bytes(&model.encrypt(pre), &b, || what("decrypt", &b))?;
        c.outcome(&ct);
        c.sample(|| format!("{} = {}", what("encrypt", &b), hx(&ct)));
    }
    Ok(())
}

pub fn scenarios(t: Tier) -> Vec<Scenario> {
    let pats = t.pick(2, PATTERNS);
    vec![
        scenario(
            "every-length-and-bits",
            format!("every key length 1..=128 x every effective key length 1..=1024 x {pats} key patterns x 2 blocks"),
            move |c| {
                let n = c.range(1, 128);
                let bits = c.range(1, 1024);
                let k = bytes([3, 1, 0, 2, 4, 5][c.choose(pats)], n);
                check(c, &k, bits, &[arr(0), arr(3)])
            },
        ),
        scenario(
            "one-byte-changes",
            "key lengths {1,2,5,7,8,16,33,127,128} x 9 effective lengths x 3 bases, any one byte of key||block set to any value",
            move |c| {
                let n = *c.pick(&[1, 2, 5, 7, 8, 16, 33, 127, 128]);
                let bits = *c.pick(&[1, 8, 40, 63, 64, 65, 128, 1023, 1024]);
                let mut kb = bytes([0, 1, 4][c.choose(3)], n + 8);
                perturb(c, &mut kb, 1, &all_deltas());
                check(c, &kb[..n], bits, &[kb[n..].try_into().unwrap()])
            },
        ),
        scenario(
            "two-byte-changes",
            "key lengths 8 and 16 x bits {40,64,128} x 4 bases, any two bytes of key||block changed by 01, 80, 3f or ff",
            move |c| {
                let n = *c.pick(&[8, 16]);
                let bits = *c.pick(&[40, 64, 128]);
                let mut kb = bytes(c.choose(4), n + 8);
                perturb(c, &mut kb, 2, &[0x01, 0x80, 0x3f, 0xff]);
                check(c, &kb[..n], bits, &[kb[n..].try_into().unwrap()])
            },
        ),
        scenario(
            "orbits",
            "key lengths {1,8,16,128} x bits {1,64,100,1024} x 6 bases, 2000 steps of block := E(block) on one object",
            move |c| {
                let n = *c.pick(&[1, 8, 16, 128]);
                let bits = *c.pick(&[1, 64, 100, 1024]);
                let p = c.choose(PATTERNS);
                let key = bytes(p, n);
                let mut bs = vec![arr::<8>(p)];
                let m = Rc2::new(&key, bits);
                for i in 0..t.pick(2000, 50_000) {
                    bs.push(m.encrypt(bs[i]));
                }
                check(c, &key, bits, &bs)
            },
        ),
        scenario("many-calls", "one object, 16-byte key with 64 and with 128 effective bits, 70000 encryptions and decryptions", move |c| {
            let bits = *c.pick(&[64, 128]);
            let key = bytes(4, 16);
            let mut bs = vec![arr::<8>(3)];
            let m = Rc2::new(&key, bits);
            for i in 0..70_000 {
                bs.push(m.encrypt(bs[i]));
            }
            check(c, &key, bits, &bs)
        }),
        scenario(
            "chosen-states",
            "a 16-byte key, effective bits 64 and 128, before each of the 18 rounds: the four words are all 0000 or mixed and any one or two of them one of 12 values (the plaintext is computed backwards)",
            move |c| {
                const VALS: [u16; 12] = [0, 1, 2, 0x3f, 0x40, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffbf, 0xffff];
                let key = bytes(3, 16);
                let bits = *c.pick(&[64, 128]);
                let m = Rc2::new(&key, bits);
                let step = c.choose(18);
                let base: [u16; 4] = *c.pick(&[[0; 4], [0x1234, 0x9bcd, 0x5e6f, 0xd078]]);
                let mut st = base;
                let i = c.choose(4);
                st[i] = *c.pick(&VALS);
                let j = c.choose(4);
                if j != i {
                    st[j] = *c.pick(&VALS);
                }
                check(c, &key, bits, &[m.plaintext_for_state(st, step)])
            },
        ),
        scenario(
            "chosen-mash-indices",
            "before both mashing rounds, every value 0..=65535 of each word, the others mixed",
            move |c| {
                let key = bytes(4, 8);
                let m = Rc2::new(&key, 64);
                let step = *c.pick(&[5, 12]);
                let i = c.choose(4);
                let hi = c.choose(256);
                let mut blocks = vec![];
                for lo in 0..256 {
                    let mut st = [0x1234, 0x9bcd, 0x5e6f, 0xd078];
                    st[i] = (hi << 8 | lo) as u16;
                    blocks.push(m.plaintext_for_state(st, step));
                }
                check(c, &key, 64, &blocks)
            },
        ),
    ]
}
