//! RFC 2268.

pub const PI: &str = "\
d978f9c419ddb5ed28e9fd794aa0d89d\
c67e37832b76538e624c6488448bfba2\
179a59f587b34f1361456d8d09817d32\
bd8f40eb86b77b0bf09521225c6b4e82\
54d66593ce60b21c7356c014a78cf1dc\
1275ca1f3bbee4d1423dd430a33cb626\
6fbf0eda4669075727f21d9bbc944303\
f811c7f690ef3ee706c3d52fc8661ed7\
08e8eade8052eef784aa72ac354d6a2a\
961ad2715a1549744b9fd05e0418a4ec\
c2e0416e0f51cbcc2491af50a1f47039\
997c3a8523b8b47afc02365b25559731\
2d5dfa98e38a92ae05df2910676cbac9\
d300e6cfe19ea82c6316013f58e289a9\
0d38341bab33ffb0bb480c5fb9b1cd2e\
c5f3db47e5a59c770aa62068fe7fc1ad\
";

fn pitable() -> &'static [u8; 256] {
    use std::sync::OnceLock;
    static T: OnceLock<[u8; 256]> = OnceLock::new();
    T.get_or_init(|| core::array::from_fn(|i| u8::from_str_radix(&PI[2 * i..2 * i + 2], 16).unwrap()))
}

pub struct Rc2 {
    k: [u16; 64],
}

impl Rc2 {
    pub fn new(key: &[u8], bits: usize) -> Rc2 {
        let p = pitable();
        let t = key.len();
        let t8 = (bits + 7) / 8;
        let tm = (255u32 % (1u32 << (8 + bits - 8 * t8))) as u8;
        let mut l = [0u8; 128];
        l[..t].copy_from_slice(key);
        for i in t..128 {
            l[i] = p[((l[i - 1] as usize) + (l[i - t] as usize)) % 256];
        }
        l[128 - t8] = p[(l[128 - t8] & tm) as usize];
        let mut i = 128 - t8;
        while i > 0 {
            i -= 1;
            l[i] = p[(l[i + 1] ^ l[i + t8]) as usize];
        }
        Rc2 { k: core::array::from_fn(|i| l[2 * i] as u16 + 256 * l[2 * i + 1] as u16) }
    }

    pub fn encrypt(&self, b: [u8; 8]) -> [u8; 8] {
        let mut r: [u16; 4] = core::array::from_fn(|i| b[2 * i] as u16 | (b[2 * i + 1] as u16) << 8);
        let mut j = 0;
        let s = [1, 2, 3, 5];
        for (phase, rounds) in [5, 6, 5].into_iter().enumerate() {
            if phase > 0 {
                for i in 0..4 {
                    r[i] = r[i].wrapping_add(self.k[(r[(i + 3) % 4] & 63) as usize]);
                }
            }
            for _ in 0..rounds {
                for i in 0..4 {
                    let (a, bb, c) = (r[(i + 3) % 4], r[(i + 2) % 4], r[(i + 1) % 4]);
                    r[i] = r[i].wrapping_add(self.k[j]).wrapping_add(a & bb).wrapping_add(!a & c);
                    j += 1;
                    r[i] = r[i].rotate_left(s[i]);
                }
            }
        }
        let mut o = [0; 8];
        for i in 0..4 {
            o[2 * i] = r[i] as u8;
            o[2 * i + 1] = (r[i] >> 8) as u8;
        }
        o
    }

    /// The plaintext for which the 18 mixing and mashing rounds meet `state` before round `step`.
    pub fn plaintext_for_state(&self, state: [u16; 4], step: usize) -> [u8; 8] {
        // rounds 5 and 12 of 18 are mashing rounds
        let mut r = state;
        for k in (0..step).rev() {
            if k == 5 || k == 12 {
                for i in (0..4).rev() {
                    r[i] = r[i].wrapping_sub(self.k[(r[(i + 3) % 4] & 63) as usize]);
                }
            } else {
                let j = 4 * (k - (k > 5) as usize - (k > 12) as usize);
                for i in (0..4).rev() {
                    let (a, b, c) = (r[(i + 3) % 4], r[(i + 2) % 4], r[(i + 1) % 4]);
                    r[i] = r[i].rotate_right([1, 2, 3, 5][i]);
                    r[i] = r[i].wrapping_sub(self.k[j + i]).wrapping_sub(a & b).wrapping_sub(!a & c);
                }
            }
        }
        let mut o = [0; 8];
        for i in 0..4 {
            o[2 * i..2 * i + 2].copy_from_slice(&r[i].to_le_bytes());
        }
        o
    }
}
