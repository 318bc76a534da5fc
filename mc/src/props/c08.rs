//! SHA-1 and SHA-2 against FIPS 180-4.
use crate::engine::*;
use crate::refs::sha as model;
use crate::util::*;
use cryptography::sha;

const NAMES: [&str; 5] = ["SHA-1", "SHA-224", "SHA-256", "SHA-384", "SHA-512"];

fn real(a: usize, m: &[u8]) -> Vec<u8> {
    match a {
        0 => <[u8; 20]>::from(sha::sha1(m)).to_vec(),
        1 => <[u8; 28]>::from(sha::sha224(m)).to_vec(),
        2 => <[u8; 32]>::from(sha::sha256(m)).to_vec(),
        3 => <[u8; 48]>::from(sha::sha384(m)).to_vec(),
        _ => <[u8; 64]>::from(sha::sha512(m)).to_vec(),
    }
}
fn reference(a: usize, m: &[u8]) -> Vec<u8> {
    match a {
        0 => model::sha1(m).to_vec(),
        1 => model::sha224(m).to_vec(),
        2 => model::sha256(m).to_vec(),
        3 => model::sha384(m).to_vec(),
        _ => model::sha512(m).to_vec(),
    }
}

fn check(c: &mut Ctx, a: usize, m: &[u8]) -> R {
    let what = || format!("{} of {} bytes {}", NAMES[a], m.len(), hx(m));
    let d = c.must(what, || real(a, m))?;
    eq_bytes(&d, &reference(a, m), what)?;
    c.outcome(&d);
    c.sample(|| format!("{} = {}", what(), hx(&d)));
    Ok(())
}

/// Blocks that are alike in some way: the same, shifted, with the same sum and xor, or like padding.
fn kind(k: usize, n: usize, len_at: usize) -> Vec<u8> {
    let mut b = match k {
        0 => bytes(3, n),
        1 | 3 => vec![0; n],
        2 => vec![0xff; n],
        4 | 5 => bytes(3, n),
        6 => vec![n as u8; n],
        _ => bytes(4, n),
    };
    match k {
        3 => {
            // the padding of a message that ends here
            b[0] = 0x80;
            b[len_at] = n as u8;
        }
        4 => b.swap(2, n - 2),
        5 => b.rotate_left(n / 4),
        _ => {}
    }
    b
}

pub fn scenarios(t: Tier) -> Vec<Scenario> {
    let max = t.pick(1100, 5000);
    let mut v = vec![
        scenario("every-length", format!("5 algorithms x every length 0..={max} x 6 contents ({PATTERN_NAMES})"), move |c| {
            let a = c.choose(5);
            let n = c.range(0, max);
            let p = c.choose(PATTERNS);
            check(c, a, &bytes(p, n))
        }),
        scenario(
            "block-sequences",
            format!("5 algorithms x every sequence of 1..={} blocks from 8 look-alike kinds (equal, two bytes swapped, rotated, all zero, all ones, all the block length, like a final padding block), then 0, 1, half, all but 9 or all but 1 bytes of one of them", t.pick(4, 5)),
            move |c| {
                let a = c.choose(5);
                let n: usize = [64, 64, 64, 128, 128][a];
                let mut m = vec![];
                for _ in 0..c.range(1, t.pick(4, 5)) {
                    m.extend(kind(c.choose(8), n, n - 1));
                }
                let tail = *c.pick(&[0, 1, n / 2, n - 9, n - 1]);
                if tail > 0 {
                    m.extend(&kind(*c.pick(&[0, 1, 3]), n, n - 1)[..tail]);
                }
                check(c, a, &m)
            },
        ),
        scenario("every-2-byte-message", "5 algorithms x every message of 1 and of 2 bytes", |c| {
            let a = c.choose(5);
            let m: Vec<u8> = (0..1 + c.choose(2)).map(|_| c.choose(256) as u8).collect();
            check(c, a, &m)
        }),
        scenario(
            "one-byte-changes",
            "5 algorithms x lengths {3,55,56,63,64,65,111,112,119,120,127,128,129,200,256} x 2 bases, any one byte set to any value",
            |c| {
                let a = c.choose(5);
                let n = *c.pick(&[3, 55, 56, 63, 64, 65, 111, 112, 119, 120, 127, 128, 129, 200, 256]);
                let mut m = bytes([0, 3][c.choose(2)], n);
                perturb(c, &mut m, 1, &all_deltas());
                check(c, a, &m)
            },
        ),
        scenario("two-bit-changes", "5 algorithms x lengths {64,119,128,256} zeros, every pair of flipped bits (thorough; quick: bits 0 and 7 of every byte)", move |c| {
            let a = c.choose(5);
            let n = *c.pick(&[64, 119, 128, 256]);
            let mut m = vec![0; n];
            let vals: Vec<u8> = t.pick(vec![1, 0x80], vec![1, 2, 4, 8, 16, 32, 64, 128]);
            perturb(c, &mut m, 2, &vals);
            check(c, a, &m)
        }),
        scenario(
            "powers-of-two",
            format!("5 algorithms x lengths 2^k-9..=2^k+9 for k in 11..={}, mixed content", t.pick(17, 22)),
            move |c| {
                let a = c.choose(5);
                let k = c.range(11, t.pick(17, 22));
                let n = (1usize << k) - 9 + c.choose(19);
                check(c, a, &bytes(3, n))
            },
        ),
        scenario("many-blocks", format!("5 algorithms x lengths 2^k + {{-65,-1,0,1}} for k in 18..={}, mixed content", t.pick(24, 26)), move |c| {
            let k = t.pick(24, 26) - c.choose(t.pick(24, 26) - 17);
            let a = c.choose(5);
            let n = (1usize << k) + 1 - *c.pick(&[0, 1, 2, 66]);
            let m = bytes(3, n);
            let what = || format!("{} of {n} mixed bytes", NAMES[a]);
            let d = c.must(what, || real(a, &m))?;
            c.outcome(&d);
            eq_bytes(&d, &reference(a, &m), what)
        })
        .threads(t.pick(8, 4)),
    ];
    v.push(
        scenario("bit-count-above-32-bits", "5 algorithms x zero messages of 2^29 + 3 bytes (bit count above 32 bits) and 2^32 + 5 bytes (byte count above 32 bits); digests from OpenSSL", |c| {
            let (n, digests) = c.pick(ZEROS);
            let a = c.choose(5);
            let m = vec![0u8; *n]; // lazily mapped zero pages
            let d = c.must(|| format!("{} of {n} zero bytes", NAMES[a]), || real(a, &m))?;
            c.outcome(&d);
            eq_bytes(&d, &hex::decode(digests[a]).unwrap(), || format!("{} of {n} zero bytes", NAMES[a]))
        })
        .limit(1500)
        .threads(1)
        .once(),
    );
    if t.thorough() {
        const BIG: &[usize] = &[(1 << 29) - 1, 1 << 29, (1 << 29) + 64, (1 << 30) + 7, (1 << 31) - 1, (1 << 32) - 9, 1 << 32];
        v.push(
            scenario("more-large-messages", format!("5 algorithms x zero messages of {BIG:?} bytes"), |c| {
                let n = *c.pick(BIG);
                let a = c.choose(5);
                let m = vec![0u8; n];
                let d = c.must(|| format!("{} of {n} zero bytes", NAMES[a]), || real(a, &m))?;
                c.outcome(&d);
                eq_bytes(&d, &reference(a, &m), || format!("{} of {n} zero bytes", NAMES[a]))
            })
            .limit(3000)
            .threads(2)
            .once(),
        );
    }
    v
}

/// Digests of zero messages, from OpenSSL through Python's hashlib.
const ZEROS: &[(usize, [&str; 5])] = &[
    (536870915, ["b28134b042220c2b14020c385afce20377858cf2", "9be1f9a77c9bc827e923f3b5f1c44702e329db598c96dc5a3a5488b9", "403a955183d83bd37bd31dde74eb3b713fcf99b6ba1a87fa91aa5befe4f51280", "a417e6ab6b984c4da6e72e9e338762aff91be4d01a4007614163a8e7cf9062d085395afe3cf537d198fc08e061c7b0c2", "3bafe8be7ad46f6d84f47f4d1da9a72b58fc01332b644444456f01e6bd632fa7e7d2b8e81133ccb641f71c503204b1bd5ff6bb35410709e5493bcd16ec978066"]),
    (4294967301, ["7ce9d83c5eacca17b354408ce637473229a7d5e2", "f4a576342fac75d84361339a63113147ab07c72643e52c88fb276e69", "709fc0b74f7c916cedccb212d681c035f36ffbb31ebfe806eb40c31592744eb5", "6498b6f68c340f39ed117446858b5fa84a4787cc8580e952147c69998d385be919d7f7e6e3204dd5c67dc7906bd4695e", "3fb5450b9f919ab250736c2aadf529f4bb334d6aa6a68f767472caff38b269cb3a8c306b58b6402f8eb39210fee37035146450c339688d34fddb998dbfa1f070"]),
];
