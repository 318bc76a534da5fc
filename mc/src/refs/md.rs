//! RFC 1319, 1320 and 1321.

fn le_pad_blocks(msg: &[u8], mut f: impl FnMut(&[u32; 16])) {
    let mut run = |c: &[u8]| {
        let mut x = [0u32; 16];
        for i in 0..16 {
            x[i] = u32::from_le_bytes(c[4 * i..4 * i + 4].try_into().unwrap());
        }
        f(&x);
    };
    let full = msg.len() / 64 * 64;
    for c in msg[..full].chunks(64) {
        run(c);
    }
    let mut tail = msg[full..].to_vec();
    tail.push(0x80);
    while tail.len() % 64 != 56 {
        tail.push(0);
    }
    tail.extend_from_slice(&((msg.len() as u64).wrapping_mul(8)).to_le_bytes());
    for c in tail.chunks(64) {
        run(c);
    }
}

fn out(h: [u32; 4]) -> [u8; 16] {
    let mut o = [0; 16];
    for i in 0..4 {
        o[4 * i..4 * i + 4].copy_from_slice(&h[i].to_le_bytes());
    }
    o
}

const IV: [u32; 4] = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476];

pub fn md4(msg: &[u8]) -> [u8; 16] {
    let mut h = IV;
    le_pad_blocks(msg, |x| {
        let mut v = h;
        for t in 0..48usize {
            // v = [a, b, c, d] of the current step
            let [a, b, c, d] = v;
            let i = t % 16;
            let (f, k, add, s): (u32, usize, u32, [u32; 4]) = match t / 16 {
                0 => ((b & c) | (!b & d), i, 0, [3, 7, 11, 19]),
                1 => ((b & c) | (b & d) | (c & d), (i % 4) * 4 + i / 4, 0x5a827999, [3, 5, 9, 13]),
                _ => {
                    let rev = [0, 8, 4, 12, 2, 10, 6, 14, 1, 9, 5, 13, 3, 11, 7, 15];
                    (b ^ c ^ d, rev[i], 0x6ed9eba1, [3, 9, 11, 15])
                }
            };
            let n = a.wrapping_add(f).wrapping_add(x[k]).wrapping_add(add).rotate_left(s[t % 4]);
            v = [d, n, b, c];
        }
        for i in 0..4 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    });
    out(h)
}

pub fn md5(msg: &[u8]) -> [u8; 16] {
    use std::sync::OnceLock;
    static T: OnceLock<[u32; 64]> = OnceLock::new();
    let t_tab = T.get_or_init(|| core::array::from_fn(|i| ((i as f64 + 1.0).sin().abs() * 4294967296.0).floor() as u32));
    let mut h = IV;
    le_pad_blocks(msg, |x| {
        let mut v = h;
        for t in 0..64usize {
            let [a, b, c, d] = v;
            let (f, k, s): (u32, usize, [u32; 4]) = match t / 16 {
                0 => ((b & c) | (!b & d), t, [7, 12, 17, 22]),
                1 => ((b & d) | (c & !d), (5 * t + 1) % 16, [5, 9, 14, 20]),
                2 => (b ^ c ^ d, (3 * t + 5) % 16, [4, 11, 16, 23]),
                _ => (c ^ (b | !d), (7 * t) % 16, [6, 10, 15, 21]),
            };
            let n = b.wrapping_add(
                a.wrapping_add(f).wrapping_add(x[k]).wrapping_add(t_tab[t]).rotate_left(s[t % 4]),
            );
            v = [d, n, b, c];
        }
        for i in 0..4 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    });
    out(h)
}

pub fn md2(msg: &[u8]) -> [u8; 16] {
    let mut m = msg.to_vec();
    let p = 16 - m.len() % 16;
    m.extend(std::iter::repeat_n(p as u8, p));
    // checksum over the padded message
    let mut c = [0u8; 16];
    let mut l = 0u8;
    for blk in m.chunks(16) {
        for j in 0..16 {
            c[j] ^= MD2_S[(blk[j] ^ l) as usize];
            l = c[j];
        }
    }
    m.extend_from_slice(&c);
    let mut x = [0u8; 48];
    for blk in m.chunks(16) {
        for j in 0..16 {
            x[16 + j] = blk[j];
            x[32 + j] = x[16 + j] ^ x[j];
        }
        let mut t = 0u32;
        for j in 0..18u32 {
            for k in 0..48 {
                x[k] ^= MD2_S[t as usize];
                t = x[k] as u32;
            }
            t = (t + j) % 256;
        }
    }
    x[..16].try_into().unwrap()
}

/// "random" permutation derived from the digits of pi (RFC 1319)
const MD2_S: [u8; 256] = [
    41, 46, 67, 201, 162, 216, 124, 1, 61, 54, 84, 161, 236, 240, 6, 19,
    98, 167, 5, 243, 192, 199, 115, 140, 152, 147, 43, 217, 188, 76, 130, 202,
    30, 155, 87, 60, 253, 212, 224, 22, 103, 66, 111, 24, 138, 23, 229, 18,
    190, 78, 196, 214, 218, 158, 222, 73, 160, 251, 245, 142, 187, 47, 238, 122,
    169, 104, 121, 145, 21, 178, 7, 63, 148, 194, 16, 137, 11, 34, 95, 33,
    128, 127, 93, 154, 90, 144, 50, 39, 53, 62, 204, 231, 191, 247, 151, 3,
    255, 25, 48, 179, 72, 165, 181, 209, 215, 94, 146, 42, 172, 86, 170, 198,
    79, 184, 56, 210, 150, 164, 125, 182, 118, 252, 107, 226, 156, 116, 4, 241,
    69, 157, 112, 89, 100, 113, 135, 32, 134, 91, 207, 101, 230, 45, 168, 2,
    27, 96, 37, 173, 174, 176, 185, 246, 28, 70, 97, 105, 52, 64, 126, 15,
    85, 71, 163, 35, 221, 81, 175, 58, 195, 92, 249, 206, 186, 197, 234, 38,
    44, 83, 13, 110, 133, 40, 132, 9, 211, 223, 205, 244, 65, 129, 77, 82,
    106, 220, 55, 200, 108, 193, 171, 250, 36, 225, 123, 8, 12, 189, 177, 74,
    120, 136, 149, 139, 227, 99, 232, 109, 233, 203, 213, 254, 59, 0, 29, 57,
    242, 239, 183, 14, 102, 88, 208, 228, 166, 119, 114, 248, 235, 117, 75, 10,
    49, 68, 80, 180, 143, 237, 31, 26, 219, 153, 141, 51, 159, 17, 131, 20,
];
