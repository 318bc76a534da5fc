//! The block-message layer: chopping, padding, modes.
use super::blocks::{Cipher, Mode, size};
use super::c07::pkcs_len;
use crate::engine::*;
use crate::refs;
use crate::util::*;
use cryptography::{BlockCipher, BlockEncryption, EcbMode, rc2, rc5};

/// A toy permutation of blocks that depends on every position.
struct Toy(u8);
impl Cipher for Toy {
    fn apply(&self, encrypt: bool, b: &[u8]) -> Vec<u8> {
        let n = b.len();
        if encrypt {
            (0..n).map(|i| b[(i + 1) % n].rotate_left(3).wrapping_add(i as u8) ^ self.0).collect()
        } else {
            let mut o = vec![0; n];
            for i in 0..n {
                o[(i + 1) % n] = (b[i] ^ self.0).wrapping_sub(i as u8).rotate_right(3);
            }
            o
        }
    }
}
impl BlockCipher<8> for Toy {
    fn encrypt(&self, b: [u8; 8]) -> [u8; 8] {
        self.apply(true, &b).try_into().unwrap()
    }
    fn decrypt(&self, b: [u8; 8]) -> [u8; 8] {
        self.apply(false, &b).try_into().unwrap()
    }
}

/// Modes with and without state; what passes through is logged.
#[derive(Clone, Copy, PartialEq, Debug)]
enum ModeKind {
    Plain,
    Chained,
    Counting,
    Shrinking,
}
const MODES: [ModeKind; 4] = [ModeKind::Plain, ModeKind::Chained, ModeKind::Counting, ModeKind::Shrinking];

struct Recorder {
    kind: ModeKind,
    state: Vec<u8>,
    n: u64,
    fed: Vec<u8>,
    out: Vec<u8>,
}

impl Recorder {
    fn new(kind: ModeKind, bs: usize) -> Self {
        Recorder { kind, state: bytes(4, bs), n: 0, fed: vec![], out: vec![] }
    }
    fn keystream(&mut self, c: &dyn Cipher) -> Vec<u8> {
        let mut s = self.state.clone();
        for i in 0..s.len().min(8) {
            s[i] ^= (self.n >> (8 * i)) as u8;
        }
        self.n += 1;
        c.apply(true, &s)
    }
}
fn xor(a: &[u8], b: &[u8]) -> Vec<u8> {
    a.iter().zip(b).map(|(x, y)| x ^ y).collect()
}
impl Mode for Recorder {
    fn block(&mut self, encrypt: bool, c: &dyn Cipher, b: &[u8]) -> Vec<u8> {
        let o = match self.kind {
            ModeKind::Plain => c.apply(encrypt, b),
            ModeKind::Chained if encrypt => {
                self.state = c.apply(true, &xor(b, &self.state));
                self.state.clone()
            }
            ModeKind::Chained => {
                let before = std::mem::replace(&mut self.state, b.to_vec());
                xor(&c.apply(false, b), &before)
            }
            ModeKind::Counting => xor(b, &self.keystream(c)),
            ModeKind::Shrinking => {
                // position dependent: the n-th block is enciphered n+1 times (mod 3)
                let k = self.n % 3 + 1;
                self.n += 1;
                (0..k).fold(b.to_vec(), |x, _| c.apply(encrypt, &x))
            }
        };
        self.fed.extend(b);
        self.out.extend(&o);
        o
    }
}

fn padded(msg: &[u8], n: usize) -> Vec<u8> {
    let k = n - msg.len() % n;
    let mut v = msg.to_vec();
    v.resize(msg.len() + k, k as u8);
    v
}

fn roundtrip(c: &mut Ctx, bs: usize, cipher: Toy, kind: ModeKind, msg: &[u8]) -> R {
    let e = size(bs);
    let what = |op: &str| format!("{op} of {}-byte message {} with {bs}-byte blocks, mode {kind:?}", msg.len(), hx(msg));
    let mut mode = Recorder::new(kind, bs);
    let mut ct = vec![];
    c.must(|| what("encrypt"), || (e.encrypt)(&cipher, &mut mode, msg, &mut ct))?;
    eq_bytes(&mode.fed, &padded(msg, bs), || what("blocks given to the mode in the encryption"))?;
    eq_bytes(&ct, &mode.out, || what("output of the encryption"))?;
    let mut mode = Recorder::new(kind, bs);
    let mut pt = vec![];
    c.must(|| what("decrypt"), || (e.decrypt)(&cipher, &mut mode, &ct, &mut pt))?;
    eq_bytes(&mode.fed, &ct, || what("blocks given to the mode in the decryption"))?;
    eq_bytes(&pt, msg, || what("decryption of the encryption"))?;
    c.outcome(&(bs, msg.len(), h64(&ct)));
    c.sample(|| format!("{} -> {}", what("round trip"), hx(&ct)));
    Ok(())
}

fn content(c: &mut Ctx, n: usize, len: usize) -> Vec<u8> {
    // the patterns, and constants that look like padding
    match c.choose(8) {
        k @ 0..=2 => bytes([0, 3, 2][k], len),
        3 => vec![1; len],
        4 => vec![n as u8; len],
        5 => vec![2; len],
        6 => vec![(n - len % n) as u8; len],
        _ => {
            let mut v = bytes(3, len);
            let k = (n / 2).max(1).min(len);
            v[len - k..].fill(k as u8);
            v
        }
    }
}

fn trips(c: &mut Ctx, bs: usize) -> R {
    let kind = *c.pick(&MODES);
    let len = if bs <= 33 {
        c.range(0, 3 * bs + 1)
    } else {
        *c.pick(&[0, 1, bs / 2, bs - 2, bs - 1, bs, bs + 1, 2 * bs - 1, 2 * bs, 2 * bs + 1, 3 * bs])
    };
    let msg = content(c, bs, len);
    roundtrip(c, bs, Toy(0x35), kind, &msg)
}

/// Decryption of arbitrary ciphertexts, chosen through the decrypted blocks (`plain`, whole
/// blocks).
fn decrypts(c: &mut Ctx, bs: usize, kind: ModeKind, plain: &[u8], extra: usize) -> R {
    // encrypt the wanted blocks with the mode itself
    let mut m = Recorder::new(kind, bs);
    let cipher = Toy(0x35);
    for b in plain.chunks(bs) {
        m.block(true, &cipher, b);
    }
    let mut ct = m.out;
    ct.extend(bytes(3, extra));
    let what = || format!("decryption with {bs}-byte blocks, mode {kind:?}, of blocks {} plus {extra} bytes", hx(plain));
    let kept = if extra == 0 { plain.rchunks(bs).next().and_then(pkcs_len) } else { None };
    let mut mode = Recorder::new(kind, bs);
    let mut pt = vec![];
    let r = c.call(|| (size(bs).decrypt)(&cipher, &mut mode, &ct, &mut pt));
    c.outcome(&(bs, kept, plain.len(), h64(&pt)));
    match kept {
        Some(k) => {
            r.map_err(|e| format!("{} panicked: {e}", what()))?;
            eq_bytes(&pt, &plain[..plain.len() - bs + k], what)?;
            eq_bytes(&mode.fed, &ct, || format!("blocks given to the mode in {}", what()))
        }
        None => match r {
            Err(_) => Ok(()),
            Ok(()) => Err(format!("{} was not refused, it returned {}", what(), hx(&pt))),
        },
    }
}

fn last_blocks(c: &mut Ctx, bs: usize, a: &[u8]) -> R {
    let kind = *c.pick(&MODES[..3]);
    let before = c.choose(3);
    let mut bl: Vec<u8> = (0..before).flat_map(|i| vec![[1u8, bs as u8][i % 2]; bs]).collect();
    for _ in 0..bs {
        bl.push(if a.is_empty() { c.choose(256) as u8 } else { *c.pick(a) });
    }
    decrypts(c, bs, kind, &bl, 0)
}

fn near_valid(c: &mut Ctx, bs: usize) -> R {
    let kind = *c.pick(&MODES);
    let before = c.choose(2);
    let mut bl = vec![2u8; before * bs];
    let n = c.choose(bs) + 1;
    let mut b = vec![*c.pick(&[0u8, 0xaa, 1]); bs];
    b[bs - n..].fill(n as u8);
    let p = c.choose(bs + 1);
    if p > 0 {
        b[p - 1] = *c.pick(&[0u8, 1, 2, 0x80, 0xff, n as u8 ^ 1, n as u8 ^ 0x80, bs as u8, bs.wrapping_add(1) as u8]);
    }
    bl.extend(b);
    decrypts(c, bs, kind, &bl, 0)
}

fn lengths(c: &mut Ctx, bs: usize) -> R {
    let kind = *c.pick(&MODES);
    let blocks = c.choose(4);
    let extra = c.choose(bs.min(40));
    let mut bl = vec![3u8; blocks * bs];
    if let Some(b) = bl.last_mut() {
        *b = 1;
    }
    decrypts(c, bs, kind, &bl, extra)
}

/// EcbMode with real and toy ciphers: ciphertext against the reference cipher.
fn ecb(c: &mut Ctx) -> R {
    let which = c.choose(4);
    let n = if which == 0 { 16 } else { 8 };
    let len = c.range(0, 3 * n + 1);
    let msg = content(c, n, len);
    ecb_message(c, which, msg)
}

fn ecb_message(c: &mut Ctx, which: usize, msg: Vec<u8>) -> R {
    let n = if which == 0 { 16 } else { 8 };
    let key = bytes(3, 16);
    let p = padded(&msg, n);
    let mut ct = vec![];
    let mut pt = vec![];
    let what = || format!("ECB with cipher {which}, message {}", hx(&msg));
    let want: Vec<u8> = match which {
        0 => {
            let k: [u8; 16] = key.clone().try_into().unwrap();
            use cryptography::aes::Aes;
            c.must(what, || BlockEncryption::encrypt(Aes::with_128_bit_key(k), EcbMode, &msg, |b| ct.push(b)))?;
            c.must(what, || BlockEncryption::decrypt(Aes::with_128_bit_key(k), EcbMode, &ct, |b| pt.push(b)))?;
            let m = refs::aes::Aes::new(&key);
            p.chunks(16).flat_map(|b| m.encrypt(b.try_into().unwrap())).collect()
        }
        1 => {
            c.must(what, || BlockEncryption::encrypt(rc2::from_key(&key, 64), EcbMode, &msg, |b| ct.push(b)))?;
            c.must(what, || BlockEncryption::decrypt(rc2::from_key(&key, 64), EcbMode, &ct, |b| pt.push(b)))?;
            let m = refs::rc2::Rc2::new(&key, 64);
            p.chunks(8).flat_map(|b| m.encrypt(b.try_into().unwrap())).collect()
        }
        2 => {
            c.must(what, || BlockEncryption::encrypt(rc5::new(&key, 12), EcbMode, &msg, |b| ct.push(b)))?;
            c.must(what, || BlockEncryption::decrypt(rc5::new(&key, 12), EcbMode, &ct, |b| pt.push(b)))?;
            let m = refs::rc45::Rc5::new(&key, 12);
            p.chunks(8).flat_map(|b| m.encrypt(b.try_into().unwrap())).collect()
        }
        _ => {
            c.must(what, || BlockEncryption::encrypt(Toy(0x77), EcbMode, &msg, |b| ct.push(b)))?;
            c.must(what, || BlockEncryption::decrypt(Toy(0x77), EcbMode, &ct, |b| pt.push(b)))?;
            p.chunks(8).flat_map(|b| Toy(0x77).apply(true, b)).collect()
        }
    };
    c.outcome(&h64(&ct));
    eq_bytes(&ct, &want, what)?;
    eq_bytes(&pt, &msg, what)
}

pub fn scenarios(t: Tier) -> Vec<Scenario> {
    let mut v = vec![
        scenario("round-trips", "block sizes 1..=17, 24, 31..33, 64, 127, 128, 254, 255; every message length 0..=3N+1 (11 lengths above 33); 8 contents incl. padding look-alikes; 4 modes (stateless, chained, counter, position dependent); blocks given to the mode and bytes output compared", |c| {
            let bs = *c.pick(&[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 24, 31, 32, 33, 64, 127, 128, 254, 255]);
            trips(c, bs)
        }),
        scenario("ecb", "EcbMode with AES-128, RC2, RC5 and a toy cipher; every message length 0..=3N+1; 8 contents; ciphertext against the reference ciphers", ecb),
        scenario("block-sequences", format!("block sizes 4, 8 and 16, messages of every sequence of up to {} blocks from 8 kinds (equal, two bytes swapped, rotated, zero, ones, full padding, short padding at the end, counting) and a tail of 0, 1 or N-1 bytes, 4 modes", t.pick(4, 5)), move |c| {
            let bs = *c.pick(&[4usize, 8, 16]);
            let mode = *c.pick(&MODES);
            let mut m = vec![];
            for _ in 0..c.range(0, t.pick(4, 5)) {
                let mut b = bytes(3, bs);
                match c.choose(8) {
                    0 => {}
                    1 => b.swap(0, bs - 1),
                    2 => b.rotate_left(1),
                    3 => b.fill(0),
                    4 => b.fill(0xff),
                    5 => b.fill(bs as u8),
                    6 => b[bs - 2..].fill(2),
                    _ => b = bytes(2, bs),
                }
                m.extend(b);
            }
            let tail = *c.pick(&[0, 1, bs - 1]);
            m.extend(vec![1; tail]);
            roundtrip(c, bs, Toy(0x35), mode, &m)
        }),
        scenario("every-last-block-1-2", "1- and 2-byte blocks, every decrypted last block, 0..2 blocks before it, 3 modes", |c| {
            if c.flag() { last_blocks(c, 2, &[]) } else { last_blocks(c, 1, &[]) }
        }),
        scenario("last-block-alphabet", "3- and 4-byte blocks, every decrypted last block over {0..5,7f,80,ff}, 0..2 blocks before it, 3 modes", |c| {
            const A: &[u8] = &[0, 1, 2, 3, 4, 5, 0x7f, 0x80, 0xff];
            if c.flag() { last_blocks(c, 4, A) } else { last_blocks(c, 3, A) }
        }),
        scenario("near-valid-last-blocks", "block sizes 8, 16, 17, 32, 64 (thorough: and 5, 128, 255): valid padding of every length with at most one byte replaced", move |c| {
            let bs = *c.pick(&[8usize, 16, 17, 32, 64, 5, 128, 255][..t.pick(5, 8)]);
            near_valid(c, bs)
        }),
        scenario("ciphertext-lengths", "block sizes 1, 2, 7, 8, 16, 24, 32, 255: 0..3 blocks plus 0..39 extra bytes (always refused unless whole and padded)", |c| {
            let bs = *c.pick(&[1, 2, 7, 8, 16, 24, 32, 255]);
            lengths(c, bs)
        }),
        scenario("long-messages", "messages of 255..=257, 1000, 65535..=65537 and 2^20 blocks plus 0, 1 or 7 bytes, 8-byte blocks, 4 modes", |c| {
            let kind = *c.pick(&MODES);
            let blocks = *c.pick(&[255usize, 256, 257, 1000, 65535, 65536, 65537, 1 << 20]);
            let len = blocks * 8 + *c.pick(&[0, 1, 7]);
            let msg = bytes(3, len);
            roundtrip(c, 8, Toy(1), kind, &msg)
        }),
    ];
    v.push(scenario("long-ciphertexts", "1, 2, 8 and 16-byte blocks, 255..257, 1000, 4095..4097 and 65535..65537 blocks, last block valid with full, one-byte or half padding, or broken (too big, zero, uneven), or extra bytes after it, 4 modes", |c| {
        let bs = *c.pick(&[1usize, 2, 8, 16]);
        let kind = *c.pick(&MODES);
        let blocks = *c.pick(&[255usize, 256, 257, 1000, 4095, 4096, 4097, 65535, 65536, 65537]);
        let mut bl = bytes(3, blocks * bs);
        let at = bl.len() - bs;
        let last = &mut bl[at..];
        let mut extra = 0;
        match c.choose(7) {
            0 => last.fill(bs as u8),
            1 => last[bs - 1] = 1,
            2 => last[bs / 2..].fill((bs - bs / 2) as u8),
            3 => last[bs - 1] = bs as u8 + 1,
            4 => last[bs - 1] = 0,
            5 => {
                last.fill(bs as u8);
                last[0] ^= 1;
            }
            _ => {
                last[bs - 1] = 1;
                extra = bs / 2;
            }
        }
        decrypts(c, bs, kind, &bl, extra)
    }));
    v.push(scenario("ecb-long", "EcbMode with AES-128, RC2 and RC5, messages of 65534..=65537 blocks, of 1 MiB - 1, 1 MiB and 1 MiB + 1 bytes, both directions, against the reference ciphers", |c| {
        let which = c.choose(3);
        let n = if which == 0 { 16 } else { 8 };
        let len = [65534 * n, 65535 * n, 65536 * n, 65537 * n + 3, (1 << 20) - 1, 1 << 20, (1 << 20) + 1][c.choose(7)];
        ecb_message(c, which, bytes(4, len))
    }));
    v.push(scenario("every-block-size", "every block size 1..=255, stateless and chained mode, messages of 0, 1, N-1, N, N+1 and 2N bytes", |c| {
        let bs = c.range(1, 255);
        let kind = *c.pick(&MODES[..2]);
        let len = [0, 1, bs - 1, bs, bs + 1, 2 * bs][c.choose(6)];
        roundtrip(c, bs, Toy(0x35), kind, &bytes(3, len))
    }));
    if t.thorough() {
        v.push(scenario("every-last-block-3", "3-byte blocks, every decrypted last block, stateless mode", |c| {
            let b: [u8; 3] = core::array::from_fn(|_| c.choose(256) as u8);
            decrypts(c, 3, ModeKind::Plain, &b, 0)
        }));
    }
    v
}
