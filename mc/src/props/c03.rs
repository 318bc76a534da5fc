//! RC5-32/r/b against Rivest's specification.
use crate::engine::*;
use crate::refs::rc45::Rc5;
use crate::util::*;
use cryptography::BlockCipher;
use cryptography::rc5;

fn check(c: &mut Ctx, key: &[u8], r: usize, blocks: &[[u8; 8]]) -> R {
    let what = |op: &str, b: &[u8]| format!("RC5-32/{r}/{} {op}, key {} block {}", key.len(), hx(key), hx(b));
    let real = c.must(|| what("key setup", &[]), || rc5::new(key, r as u8))?;
    let model = Rc5::new(key, r);
    for &b in blocks {
        let ct = c.must(|| what("encrypt", &b), || real.encrypt(b))?;
        eq_bytes(&ct, &model.encrypt(b), || what("encrypt", &b))?;
        let back = c.must(|| what("decrypt", &ct), || real.decrypt(ct))?;
        eq_bytes(&back, &b, || what("decrypt of encrypt", &b))?;
        let pre = c.must(|| what("decrypt", &b), || real.decrypt(b))?;
        eq_bytes(&model.encrypt(pre), &b, || what("decrypt", &b))?;
        c.outcome(&ct);
        c.sample(|| format!("{} = {}", what("encrypt", &b), hx(&ct)));
    }
    Ok(())
}

pub fn scenarios(t: Tier) -> Vec<Scenario> {
    let pats = t.pick(2, PATTERNS);
    vec![
        scenario(
            "every-length-and-rounds",
            format!("every key length 0..=255 x every round count 0..=255 x {pats} key patterns x 2 blocks"),
            move |c| {
                let n = c.range(0, 255);
                let r = c.range(0, 255);
                let k = bytes([3, 1, 0, 2, 4, 5][c.choose(pats)], n);
                check(c, &k, r, &[arr(0), arr(3)])
            },
        ),
        scenario(
            "one-byte-changes",
            "key lengths {1,3,4,5,8,16,17,32,255} x rounds {0,1,2,12,16,255} x 3 bases, any one byte of key||block set to any value",
            move |c| {
                let n = *c.pick(&[1, 3, 4, 5, 8, 16, 17, 32, 255]);
                let r = *c.pick(&[0, 1, 2, 12, 16, 255]);
                let mut kb = bytes([0, 1, 4][c.choose(3)], n + 8);
                perturb(c, &mut kb, 1, &all_deltas());
                check(c, &kb[..n], r, &[kb[n..].try_into().unwrap()])
            },
        ),
        scenario(
            "two-byte-changes",
            "key lengths 7 and 16 x rounds {1,12} x 4 bases, any two bytes of key||block changed by 01, 1f, 80 or ff",
            move |c| {
                let n = *c.pick(&[7, 16]);
                let r = *c.pick(&[1, 12]);
                let mut kb = bytes(c.choose(4), n + 8);
                perturb(c, &mut kb, 2, &[0x01, 0x1f, 0x80, 0xff]);
                check(c, &kb[..n], r, &[kb[n..].try_into().unwrap()])
            },
        ),
        scenario(
            "orbits",
            "key lengths {0,1,8,16,255} x rounds {1,12,20,255} x 6 bases, steps of block := E(block) on one object",
            move |c| {
                let n = *c.pick(&[0, 1, 8, 16, 255]);
                let r = *c.pick(&[1, 12, 20, 255]);
                let p = c.choose(PATTERNS);
                let key = bytes(p, n);
                let mut bs = vec![arr::<8>(p)];
                let m = Rc5::new(&key, r);
                for i in 0..t.pick(2000, 50_000) {
                    bs.push(m.encrypt(bs[i]));
                }
                check(c, &key, r, &bs)
            },
        ),
        scenario("many-calls", "one object, 16-byte key, 12 and 20 rounds, 70000 encryptions and decryptions", move |c| {
            let r = *c.pick(&[12, 20]);
            let key = bytes(4, 16);
            let mut bs = vec![arr::<8>(3)];
            let m = Rc5::new(&key, r);
            for i in 0..70_000 {
                bs.push(m.encrypt(bs[i]));
            }
            check(c, &key, r, &bs)
        }),
        scenario(
            "chosen-states",
            "a 16-byte key, rounds {1,2,12,20,255}, before each half of each of the first and last 20 rounds: a and b each one of 14 values (the plaintext is computed backwards)",
            move |c| {
                const VALS: [u32; 14] =
                    [0, 1, 2, 15, 16, 31, 32, 33, 0x7fff_ffff, 0x8000_0000, 0x8000_001f, 0xffff_ffe0, 0xffff_fffe, 0xffff_ffff];
                let key = bytes(3, 16);
                let r = *c.pick(&[1, 2, 12, 20, 255]);
                let m = Rc5::new(&key, r);
                let all: Vec<usize> = (1..=r).filter(|&i| i <= 20 || i + 20 > r).collect();
                let round = *c.pick(&all);
                let half = c.flag();
                let st = [*c.pick(&VALS), *c.pick(&VALS)];
                check(c, &key, r, &[m.plaintext_for_state(st, round, half)])
            },
        ),
        scenario(
            "every-rotation",
            "12 rounds, each half round: every pair of rotation amounts a mod 32, b mod 32, high bits zero or mixed",
            move |c| {
                let key = bytes(4, 9);
                let m = Rc5::new(&key, 12);
                let round = c.range(1, 12);
                let half = c.flag();
                let hi: u32 = *c.pick(&[0, 0x5a3c_96e0]);
                let st = [hi | c.choose(32) as u32, hi.rotate_left(5) & !31 | c.choose(32) as u32];
                check(c, &key, 12, &[m.plaintext_for_state(st, round, half)])
            },
        ),
    ]
}
