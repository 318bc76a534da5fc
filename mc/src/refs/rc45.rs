//! RC4 (textbook, unbounded integers reduced mod 256) and RC5-32/r/b (Rivest 1994).

pub fn rc4_stream(key: &[u8], n: usize) -> Vec<u8> {
    let mut s: Vec<usize> = (0..256).collect();
    let mut j = 0usize;
    for i in 0..256 {
        j = (j + s[i] + key[i % key.len()] as usize) % 256;
        s.swap(i, j);
    }
    let (mut i, mut j) = (0usize, 0usize);
    let mut out = Vec::with_capacity(n);
    for _ in 0..n {
        i = (i + 1) % 256;
        j = (j + s[i]) % 256;
        s.swap(i, j);
        out.push(s[(s[i] + s[j]) % 256] as u8);
    }
    out
}

pub struct Rc5 {
    s: Vec<u32>,
    r: usize,
}

fn rotl(x: u32, n: u32) -> u32 {
    let n = n % 32;
    if n == 0 { x } else { (x << n) | (x >> (32 - n)) }
}

impl Rc5 {
    pub fn new(key: &[u8], r: usize) -> Rc5 {
        let b = key.len();
        let c = std::cmp::max(1, b.div_ceil(4));
        let mut l = vec![0u32; c];
        for i in (0..b).rev() {
            l[i / 4] = rotl(l[i / 4], 8).wrapping_add(key[i] as u32);
        }
        let t = 2 * (r + 1);
        let mut s: Vec<u32> = (0..t as u32).map(|i| 0xb7e15163u32.wrapping_add(i.wrapping_mul(0x9e3779b9))).collect();
        let (mut a, mut bb) = (0u32, 0u32);
        for k in 0..3 * std::cmp::max(t, c) {
            let (i, j) = (k % t, k % c);
            a = rotl(s[i].wrapping_add(a).wrapping_add(bb), 3);
            s[i] = a;
            bb = rotl(l[j].wrapping_add(a).wrapping_add(bb), a.wrapping_add(bb));
            l[j] = bb;
        }
        Rc5 { s, r }
    }

    pub fn encrypt(&self, p: [u8; 8]) -> [u8; 8] {
        let mut a = u32::from_le_bytes([p[0], p[1], p[2], p[3]]).wrapping_add(self.s[0]);
        let mut b = u32::from_le_bytes([p[4], p[5], p[6], p[7]]).wrapping_add(self.s[1]);
        for i in 1..=self.r {
            a = rotl(a ^ b, b).wrapping_add(self.s[2 * i]);
            b = rotl(b ^ a, a).wrapping_add(self.s[2 * i + 1]);
        }
        let mut o = [0; 8];
        o[..4].copy_from_slice(&a.to_le_bytes());
        o[4..].copy_from_slice(&b.to_le_bytes());
        o
    }

    /// The plaintext for which (a, b) is `state` before round `round` (1..=r), or, with
    /// `half`, before the second half of it.
    pub fn plaintext_for_state(&self, state: [u32; 2], round: usize, half: bool) -> [u8; 8] {
        let [mut a, mut b] = state;
        let unrot = |x: u32, n: u32| rotl(x, (32 - n % 32) % 32);
        if half {
            a = unrot(a.wrapping_sub(self.s[2 * round]), b) ^ b;
        }
        for i in (1..round).rev() {
            b = unrot(b.wrapping_sub(self.s[2 * i + 1]), a) ^ a;
            a = unrot(a.wrapping_sub(self.s[2 * i]), b) ^ b;
        }
        let mut o = [0; 8];
        o[..4].copy_from_slice(&a.wrapping_sub(self.s[0]).to_le_bytes());
        o[4..].copy_from_slice(&b.wrapping_sub(self.s[1]).to_le_bytes());
        o
    }
}
