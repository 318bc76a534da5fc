//! FIPS 180-4, written for clarity: the whole padded message is built first.
use super::sha_consts::*;

/// Streams full blocks, then the padded tail, so that huge messages need no copy.
fn blocks(msg: &[u8], block: usize, len_bytes: usize, mut f: impl FnMut(&[u8])) {
    let full = msg.len() / block * block;
    for c in msg[..full].chunks(block) {
        f(c);
    }
    let mut tail = msg[full..].to_vec();
    tail.push(0x80);
    while tail.len() % block != block - len_bytes {
        tail.push(0);
    }
    tail.extend_from_slice(&((msg.len() as u128) * 8).to_be_bytes()[16 - len_bytes..]);
    for c in tail.chunks(block) {
        f(c);
    }
}

pub fn sha1(msg: &[u8]) -> [u8; 20] {
    let mut h: [u32; 5] = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0];
    blocks(msg, 64, 8, |c| {
        let mut w = [0u32; 80];
        for t in 0..80 {
            w[t] = if t < 16 {
                u32::from_be_bytes(c[4 * t..4 * t + 4].try_into().unwrap())
            } else {
                (w[t - 3] ^ w[t - 8] ^ w[t - 14] ^ w[t - 16]).rotate_left(1)
            };
        }
        let mut v = h;
        for t in 0..80 {
            let [a, b, cc, d, e] = v;
            let (f, k): (u32, u32) = match t / 20 {
                0 => ((b & cc) ^ (!b & d), 0x5a827999),
                1 => (b ^ cc ^ d, 0x6ed9eba1),
                2 => ((b & cc) ^ (b & d) ^ (cc & d), 0x8f1bbcdc),
                _ => (b ^ cc ^ d, 0xca62c1d6),
            };
            let tmp = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(w[t]);
            v = [tmp, a, b.rotate_left(30), cc, d];
        }
        for i in 0..5 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    });
    let mut out = [0; 20];
    for i in 0..5 {
        out[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    out
}

macro_rules! sha2 {
    ($name:ident, $word:ty, $block:expr, $lenb:expr, $rounds:expr, $k:expr,
     $S0:expr, $S1:expr, $s0:expr, $s1:expr) => {
        fn $name(msg: &[u8], init: &[$word; 8]) -> Vec<u8> {
            const B: usize = std::mem::size_of::<$word>();
            let mut h = *init;
            let rr = |x: $word, r: [u32; 3]| x.rotate_right(r[0]) ^ x.rotate_right(r[1]) ^ x.rotate_right(r[2]);
            let rs = |x: $word, r: [u32; 3]| x.rotate_right(r[0]) ^ x.rotate_right(r[1]) ^ (x >> r[2]);
            blocks(msg, $block, $lenb, |c| {
                let mut w = [0 as $word; $rounds];
                for t in 0..$rounds {
                    w[t] = if t < 16 {
                        <$word>::from_be_bytes(c[B * t..B * t + B].try_into().unwrap())
                    } else {
                        rs(w[t - 2], $s1)
                            .wrapping_add(w[t - 7])
                            .wrapping_add(rs(w[t - 15], $s0))
                            .wrapping_add(w[t - 16])
                    };
                }
                let mut v = h;
                for t in 0..$rounds {
                    let [a, b, cc, d, e, f, g, hh] = v;
                    let t1 = hh
                        .wrapping_add(rr(e, $S1))
                        .wrapping_add((e & f) ^ (!e & g))
                        .wrapping_add($k[t])
                        .wrapping_add(w[t]);
                    let t2 = rr(a, $S0).wrapping_add((a & b) ^ (a & cc) ^ (b & cc));
                    v = [t1.wrapping_add(t2), a, b, cc, d.wrapping_add(t1), e, f, g];
                }
                for i in 0..8 {
                    h[i] = h[i].wrapping_add(v[i]);
                }
            });
            h.iter().flat_map(|x| x.to_be_bytes()).collect()
        }
    };
}
sha2!(small, u32, 64, 8, 64, K256, [2, 13, 22], [6, 11, 25], [7, 18, 3], [17, 19, 10]);
sha2!(large, u64, 128, 16, 80, K512, [28, 34, 39], [14, 18, 41], [1, 8, 7], [19, 61, 6]);

pub fn sha224(m: &[u8]) -> [u8; 28] {
    small(m, &H224)[..28].try_into().unwrap()
}
pub fn sha256(m: &[u8]) -> [u8; 32] {
    small(m, &H256).try_into().unwrap()
}
pub fn sha384(m: &[u8]) -> [u8; 48] {
    large(m, &H384)[..48].try_into().unwrap()
}
pub fn sha512(m: &[u8]) -> [u8; 64] {
    large(m, &H512).try_into().unwrap()
}
