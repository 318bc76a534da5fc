//! MD2, MD4, MD5 against their RFCs, through different iterators.
use crate::engine::*;
use crate::refs::md as model;
use crate::util::*;
use std::collections::VecDeque;

const NAMES: [&str; 3] = ["MD2", "MD4", "MD5"];

fn real<'a>(a: usize, it: impl IntoIterator<Item = &'a u8>) -> [u8; 16] {
    match a {
        0 => cryptography::md2(it),
        1 => cryptography::md4(it),
        _ => cryptography::md5(it),
    }
}
fn reference(a: usize, m: &[u8]) -> [u8; 16] {
    match a {
        0 => model::md2(m),
        1 => model::md4(m),
        _ => model::md5(m),
    }
}

/// An iterator that knows nothing about its length.
struct Opaque<'a>(&'a [u8], usize);
impl<'a> Iterator for Opaque<'a> {
    type Item = &'a u8;
    fn next(&mut self) -> Option<&'a u8> {
        self.1 += 1;
        self.0.get(self.1 - 1)
    }
}

fn check(c: &mut Ctx, a: usize, m: &[u8], how: usize) -> R {
    let what = || format!("{} of {} bytes {} via iterator {how}", NAMES[a], m.len(), hx(m));
    let d = c.must(what, || match how {
        0 => real(a, m),
        1 => real(a, m.to_vec().iter()),
        2 => real(a, Opaque(m, 0)),
        3 => {
            let (x, y) = m.split_at(m.len() / 3);
            real(a, x.iter().chain(y))
        }
        4 => {
            let mut r = m.to_vec();
            r.reverse();
            real(a, r.iter().rev())
        }
        5 => {
            let mut q: VecDeque<u8> = m.iter().copied().collect();
            q.rotate_left(m.len() / 2);
            q.rotate_right(m.len() / 2);
            real(a, &q)
        }
        _ => real(a, m.chunks(7).flatten().filter(|_| true)),
    })?;
    eq_bytes(&d, &reference(a, m), what)?;
    c.outcome(&d);
    c.sample(|| format!("{} = {}", what(), hx(&d)));
    Ok(())
}

/// Blocks that are alike in some way: the same, shifted, with the same sum and xor, or like padding.
fn kind(k: usize, n: usize, len_at: usize) -> Vec<u8> {
    let mut b = match k {
        0 => bytes(3, n),
        1 | 3 => vec![0; n],
        2 => vec![0xff; n],
        4 | 5 => bytes(3, n),
        6 => vec![n as u8; n],
        _ => bytes(4, n),
    };
    match k {
        3 => {
            // the padding of a message that ends here
            b[0] = 0x80;
            b[len_at] = n as u8;
        }
        4 => b.swap(2, n - 2),
        5 => b.rotate_left(n / 4),
        _ => {}
    }
    b
}

pub fn scenarios(t: Tier) -> Vec<Scenario> {
    let max = t.pick(700, 5000);
    let mut v = vec![
        scenario("every-length", format!("3 algorithms x every length 0..={max} x 6 contents ({PATTERN_NAMES})"), move |c| {
            let a = c.choose(3);
            let n = c.range(0, max);
            let p = c.choose(PATTERNS);
            check(c, a, &bytes(p, n), 0)
        }),
        scenario("iterators", "3 algorithms x 7 kinds of iterator x every length 0..=200, mixed content", |c| {
            let a = c.choose(3);
            let how = c.choose(7);
            let n = c.range(0, 200);
            check(c, a, &bytes(3, n), how)
        }),
        scenario(
            "block-sequences",
            format!("3 algorithms x every sequence of 1..={} blocks from 8 look-alike kinds (equal, two bytes swapped, rotated, all zero, all ones, all the block length, like a final padding block), then 0, 1, half, all but 9 or all but 1 bytes of one of them", t.pick(4, 5)),
            move |c| {
                let a = c.choose(3);
                let n: usize = [16, 64, 64][a];
                let mut m = vec![];
                for _ in 0..c.range(1, t.pick(4, 5)) {
                    m.extend(kind(c.choose(8), n, n - 8));
                }
                let tail = *c.pick(&[0, 1, n / 2, n - 9, n - 1]);
                if tail > 0 {
                    m.extend(&kind(*c.pick(&[0, 1, 3]), n, n - 8)[..tail]);
                }
                check(c, a, &m, 0)
            },
        ),
        scenario("every-2-byte-message", "3 algorithms x every message of 1 and of 2 bytes", |c| {
            let a = c.choose(3);
            let m: Vec<u8> = (0..1 + c.choose(2)).map(|_| c.choose(256) as u8).collect();
            check(c, a, &m, 0)
        }),
        scenario(
            "one-byte-changes",
            "3 algorithms x lengths {3,15,16,17,31,32,33,55,56,63,64,65,119,120,128,200} x 2 bases, any one byte set to any value",
            |c| {
                let a = c.choose(3);
                let n = *c.pick(&[3, 15, 16, 17, 31, 32, 33, 55, 56, 63, 64, 65, 119, 120, 128, 200]);
                let mut m = bytes([0, 3][c.choose(2)], n);
                perturb(c, &mut m, 1, &all_deltas());
                check(c, a, &m, 0)
            },
        ),
        scenario("two-byte-changes", "3 algorithms x lengths {16,56,64} zeros, any two bytes changed by 01, 80 or ff", |c| {
            let a = c.choose(3);
            let n = *c.pick(&[16, 56, 64]);
            let mut m = vec![0; n];
            perturb(c, &mut m, 2, &[1, 0x80, 0xff]);
            check(c, a, &m, 0)
        }),
        scenario(
            "powers-of-two",
            format!("3 algorithms x lengths 2^k-9..=2^k+9 for k in 10..={}, mixed content", t.pick(17, 22)),
            move |c| {
                let a = c.choose(3);
                let k = c.range(10, t.pick(17, 22));
                let n = (1usize << k) - 9 + c.choose(19);
                check(c, a, &bytes(3, n), 0)
            },
        ),
        scenario("many-blocks", format!("3 algorithms x lengths 2^k + {{-65,-1,0,1}} for k in 18..={} (MD2: ..=20), mixed content", t.pick(24, 26)), move |c| {
            let k = t.pick(24, 26) - c.choose(t.pick(24, 26) - 17);
            let a = c.choose(3);
            let n = (1usize << k) + 1 - *c.pick(&[0, 1, 2, 66]);
            if a == 0 && k > 20 {
                return Ok(());
            }
            let m = bytes(3, n);
            let what = || format!("{} of {n} mixed bytes", NAMES[a]);
            let d = c.must(what, || real(a, &m))?;
            c.outcome(&d);
            eq_bytes(&d, &reference(a, &m), what)
        })
        .threads(t.pick(8, 4)),
    ];
    v.push(
        scenario("bit-count-above-32-bits", "MD4 and MD5 x zero messages of 2^29 + 3 bytes (bit count above 32 bits) and 2^32 + 5 bytes (byte count above 32 bits); digests from OpenSSL and a separate C program", |c| {
            let (n, digests) = c.pick(ZEROS);
            let a = c.choose(2);
            let what = || format!("{} of {n} zero bytes", NAMES[a + 1]);
            let d = c.must(what, || real(a + 1, std::iter::repeat_n(&0u8, *n)))?;
            c.outcome(&d);
            eq_bytes(&d, &hex::decode(digests[a]).unwrap(), what)
        })
        .limit(1500)
        .threads(2)
        .once(),
    );
    if t.thorough() {
        const BIG: &[usize] = &[(1 << 29) - 1, 1 << 29, (1 << 29) + 64, (1 << 30) + 7, (1 << 31) - 1, (1 << 32) - 9, 1 << 32];
        v.push(
            scenario("more-large-messages", format!("MD4 and MD5 x zero messages of {BIG:?} bytes"), |c| {
                let n = *c.pick(BIG);
                let a = 1 + c.choose(2);
                let what = || format!("{} of {n} zero bytes", NAMES[a]);
                let d = c.must(what, || real(a, std::iter::repeat_n(&0u8, n)))?;
                c.outcome(&d);
                let m = vec![0u8; n]; // lazily mapped zero pages
                eq_bytes(&d, &reference(a, &m), what)
            })
            .limit(3000)
            .threads(2)
            .once(),
        );
    }
    if t.thorough() {
        v.push(
            scenario("md2-long", "MD2 of 2^26+5 mixed bytes", |c| check(c, 0, &bytes(3, (1 << 26) + 5), 0)).limit(1500),
        );
    }
    v
}

/// Digests (MD4, MD5) of zero messages.
const ZEROS: &[(usize, [&str; 2])] = &[
    (536870915, ["45f1ac0f7939f5e4121ebbd21550a912", "f477dd2300ffb741b990c4eac208d915"]),
    (4294967301, ["53b5bdf455f99b22af96cc5e74c30087", "968a8809aa0886d87f385d88733a98d2"]),
];
