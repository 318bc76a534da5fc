//! FIPS 197, straight from the definitions (S-box by brute-force inversion in GF(2^8)).
use std::sync::OnceLock;

fn gmul(a: u8, b: u8) -> u8 {
    // carry-less product, then reduction by x^8+x^4+x^3+x+1
    let mut p: u16 = 0;
    for i in 0..8 {
        if b >> i & 1 == 1 {
            p ^= (a as u16) << i;
        }
    }
    for i in (8..15).rev() {
        if p >> i & 1 == 1 {
            p ^= 0x11b << (i - 8);
        }
    }
    p as u8
}

struct Tables {
    s: [u8; 256],
    inv: [u8; 256],
    m: [[u8; 256]; 16], // m[c][x] = c*x, c < 16
}

fn tables() -> &'static Tables {
    static T: OnceLock<Tables> = OnceLock::new();
    T.get_or_init(|| {
        let mut t = Tables { s: [0; 256], inv: [0; 256], m: [[0; 256]; 16] };
        for x in 0..=255u8 {
            let inverse = (0..=255u8).find(|&y| gmul(x, y) == 1).unwrap_or(0);
            let mut y = 0u8;
            for i in 0..8 {
                let bit = |k: usize| inverse >> (k % 8) & 1;
                let v = bit(i) ^ bit(i + 4) ^ bit(i + 5) ^ bit(i + 6) ^ bit(i + 7) ^ (0x63 >> i & 1);
                y |= v << i;
            }
            t.s[x as usize] = y;
            t.inv[y as usize] = x;
        }
        for c in 0..16u8 {
            for x in 0..=255u8 {
                t.m[c as usize][x as usize] = gmul(c, x);
            }
        }
        t
    })
}

pub struct Aes {
    w: Vec<[u8; 4]>,
    rounds: usize,
}

impl Aes {
    pub fn new(key: &[u8]) -> Aes {
        let t = tables();
        let nk = key.len() / 4;
        let rounds = nk + 6;
        let mut w: Vec<[u8; 4]> = key.chunks(4).map(|c| c.try_into().unwrap()).collect();
        let mut rcon = 1u8;
        for i in nk..4 * (rounds + 1) {
            let mut x = w[i - 1];
            if i % nk == 0 {
                x.rotate_left(1);
                x = x.map(|b| t.s[b as usize]);
                x[0] ^= rcon;
                rcon = gmul(rcon, 2);
            } else if nk == 8 && i % nk == 4 {
                x = x.map(|b| t.s[b as usize]);
            }
            let p = w[i - nk];
            w.push([p[0] ^ x[0], p[1] ^ x[1], p[2] ^ x[2], p[3] ^ x[3]]);
        }
        Aes { w, rounds }
    }

    fn add(&self, s: &mut [u8; 16], r: usize) {
        for c in 0..4 {
            for i in 0..4 {
                s[4 * c + i] ^= self.w[4 * r + c][i];
            }
        }
    }

    pub fn encrypt(&self, b: [u8; 16]) -> [u8; 16] {
        let t = tables();
        let mut s = b;
        self.add(&mut s, 0);
        for r in 1..=self.rounds {
            // row i of column c comes from column c + i
            let mut n = [0u8; 16];
            for c in 0..4 {
                for i in 0..4 {
                    n[4 * c + i] = t.s[s[4 * ((c + i) % 4) + i] as usize];
                }
            }
            if r < self.rounds {
                for c in 0..4 {
                    let a: [u8; 4] = n[4 * c..4 * c + 4].try_into().unwrap();
                    for i in 0..4 {
                        n[4 * c + i] = t.m[2][a[i] as usize]
                            ^ t.m[3][a[(i + 1) % 4] as usize]
                            ^ a[(i + 2) % 4]
                            ^ a[(i + 3) % 4];
                    }
                }
            }
            s = n;
            self.add(&mut s, r);
        }
        s
    }

    pub fn decrypt(&self, b: [u8; 16]) -> [u8; 16] {
        let t = tables();
        let mut s = b;
        for r in (1..=self.rounds).rev() {
            self.add(&mut s, r);
            if r < self.rounds {
                for c in 0..4 {
                    let a: [u8; 4] = s[4 * c..4 * c + 4].try_into().unwrap();
                    for i in 0..4 {
                        s[4 * c + i] = t.m[14][a[i] as usize]
                            ^ t.m[11][a[(i + 1) % 4] as usize]
                            ^ t.m[13][a[(i + 2) % 4] as usize]
                            ^ t.m[9][a[(i + 3) % 4] as usize];
                    }
                }
            }
            let mut n = [0u8; 16];
            for c in 0..4 {
                for i in 0..4 {
                    n[4 * ((c + i) % 4) + i] = t.inv[s[4 * c + i] as usize];
                }
            }
            s = n;
        }
        self.add(&mut s, 0);
        s
    }

    /// The key whose schedule has `window` (as many words as the key) at position `pos`.
    pub fn key_for_window(window: &[[u8; 4]], pos: usize) -> Vec<u8> {
        let t = tables();
        let nk = window.len();
        let mut w = vec![[0u8; 4]; pos + nk];
        w[pos..].copy_from_slice(window);
        for i in (nk..pos + nk).rev() {
            let mut x = w[i - 1];
            if i % nk == 0 {
                x.rotate_left(1);
                x = x.map(|b| t.s[b as usize]);
                x[0] ^= (1..i / nk).fold(1, |r, _| gmul(r, 2));
            } else if nk == 8 && i % nk == 4 {
                x = x.map(|b| t.s[b as usize]);
            }
            let v = w[i];
            w[i - nk] = [v[0] ^ x[0], v[1] ^ x[1], v[2] ^ x[2], v[3] ^ x[3]];
        }
        w[..nk].concat()
    }

    pub fn words(&self) -> &[[u8; 4]] {
        &self.w
    }

    pub fn rounds(&self) -> usize {
        self.rounds
    }

    /// The plaintext for which round `r` meets `state`: before SubBytes (kind 0), before
    /// MixColumns (1) or after MixColumns (2).
    pub fn plaintext_for_state(&self, state: [u8; 16], r: usize, kind: usize) -> [u8; 16] {
        let t = tables();
        let unmix = |s: &mut [u8; 16]| {
            for c in 0..4 {
                let a: [u8; 4] = s[4 * c..4 * c + 4].try_into().unwrap();
                for i in 0..4 {
                    s[4 * c + i] = t.m[14][a[i] as usize]
                        ^ t.m[11][a[(i + 1) % 4] as usize]
                        ^ t.m[13][a[(i + 2) % 4] as usize]
                        ^ t.m[9][a[(i + 3) % 4] as usize];
                }
            }
        };
        let unshift_unsub = |s: &mut [u8; 16]| {
            let mut n = [0u8; 16];
            for c in 0..4 {
                for i in 0..4 {
                    n[4 * ((c + i) % 4) + i] = t.inv[s[4 * c + i] as usize];
                }
            }
            *s = n;
        };
        let mut s = state;
        if kind == 2 {
            unmix(&mut s);
        }
        if kind >= 1 {
            unshift_unsub(&mut s);
        }
        for k in (1..r).rev() {
            self.add(&mut s, k);
            unmix(&mut s);
            unshift_unsub(&mut s);
        }
        self.add(&mut s, 0);
        s
    }
}
