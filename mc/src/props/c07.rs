//! Padding schemes.
use crate::engine::*;
use crate::util::*;
use super::blocks::size;

/// What a block unpads to, by definition: the length, or None if padding cannot produce it.
pub fn pkcs_len(block: &[u8]) -> Option<usize> {
    let n = *block.last()? as usize;
    if n == 0 || n > block.len() || block[block.len() - n..].iter().any(|&b| b as usize != n) {
        return None;
    }
    Some(block.len() - n)
}
pub fn bit_len(block: &[u8]) -> Option<usize> {
    let i = block.iter().rposition(|&b| b != 0)?;
    (block[i] == 0x80).then_some(i)
}

fn pad_bit(c: &mut Ctx, n: usize, p: &[u8]) -> R {
    let e = size(n);
    if p.len() >= n {
        return c.refuses(|| format!("bit padding {} bytes into a block of {n}", p.len()), || (e.bit_pad)(p));
    }
    let b = c.must(|| format!("bit pad {} into {n}", hx(p)), || (e.bit_pad)(p))?;
    let mut want = p.to_vec();
    want.push(0x80);
    want.resize(n, 0);
    eq_bytes(&b, &want, || format!("bit padding of {} to {n}", hx(p)))?;
    let (u, got) = c.must(|| format!("bit unpad of {}", hx(&b)), || (e.bit_unpad)(&b))?;
    let mut w = p.to_vec();
    w.resize(n, 0);
    eq(&got, &p.len(), || format!("bit unpad length of {}", hx(&b)))?;
    eq_bytes(&u, &w, || format!("bit unpad of {}", hx(&b)))?;
    c.outcome(&b);
    Ok(())
}

fn pad_pkcs(c: &mut Ctx, n: usize, p: &[u8]) -> R {
    let e = size(n);
    if p.len() >= n {
        return c.refuses(|| format!("PKCS#7 padding {} bytes into a block of {n}", p.len()), || (e.pkcs_pad)(p));
    }
    let b = c.must(|| format!("PKCS pad {} into {n}", hx(p)), || (e.pkcs_pad)(p))?;
    let mut want = p.to_vec();
    want.resize(n, (n - p.len()) as u8);
    eq_bytes(&b, &want, || format!("PKCS#7 padding of {} to {n}", hx(p)))?;
    let got = c.must(|| format!("PKCS unpad of {}", hx(&b)), || (e.pkcs_unpad)(&b))?;
    eq(&got, &p.len(), || format!("PKCS#7 unpad length of {}", hx(&b)))?;
    c.outcome(&b);
    c.sample(|| format!("{} pads to {}", hx(p), hx(&b)));
    Ok(())
}

fn unpad_both(c: &mut Ctx, block: &[u8]) -> R {
    unpad_bit(c, block)?;
    unpad_pkcs(c, block)
}

fn unpad_bit(c: &mut Ctx, block: &[u8]) -> R {
    let e = size(block.len());
    let what = || format!("bit unpadding of {}", hx(block));
    match bit_len(block) {
        None => c.refuses(what, || (e.bit_unpad)(block)),
        Some(n) => {
            let (u, got) = c.must(what, || (e.bit_unpad)(block))?;
            c.outcome(&("bit", n));
            let mut w = block[..n].to_vec();
            w.resize(block.len(), 0);
            eq(&got, &n, what)?;
            eq_bytes(&u, &w, what)
        }
    }
}
fn unpad_pkcs(c: &mut Ctx, block: &[u8]) -> R {
    let e = size(block.len());
    let what = || format!("PKCS#7 unpadding of {}", hx(block));
    match pkcs_len(block) {
        None => c.refuses(what, || (e.pkcs_unpad)(block)),
        Some(n) => {
            let got = c.must(what, || (e.pkcs_unpad)(block))?;
            c.outcome(&("pkcs", n));
            eq(&got, &n, what)
        }
    }
}

/// pad: every length up to bs+2 and a few far beyond, several contents
fn pads(c: &mut Ctx, bs: usize) -> R {
    let l = c.choose(bs + 5);
    let len = if l <= bs + 1 { l } else { [2 * bs, 256 + bs, bs + 255][l - bs - 2] };
    // contents: the patterns, and constant bytes that look like padding
    let k = c.choose(PATTERNS + 5);
    let p: Vec<u8> = match k {
        k if k < PATTERNS => bytes(k, len),
        k => vec![[0x80, 1, bs as u8, (bs.wrapping_sub(len)) as u8, 2][k - PATTERNS]; len],
    };
    if bs <= 255 {
        pad_pkcs(c, bs, &p)?;
    }
    pad_bit(c, bs, &p)
}

/// unpad of big blocks: valid padded blocks with at most one byte changed anywhere
fn near_valid(c: &mut Ctx, bs: usize) -> R {
    let len = c.choose(bs);
    let pk = c.flag();
    let fill = *c.pick(&[0u8, 0x80, 1, 0xff, bs as u8]);
    let mut b = vec![fill; bs];
    if pk {
        b[len..].fill((bs - len) as u8);
    } else {
        b[len..].fill(0);
        b[len] = 0x80;
    }
    let p = c.choose(bs + 1);
    if p > 0 {
        b[p - 1] = *c.pick(&[0u8, 1, 2, 0x7f, 0x80, 0x81, 0xff, (bs - len) as u8, bs as u8, (bs + 1) as u8]);
    }
    if pk { if bs <= 255 { unpad_pkcs(c, &b) } else { Ok(()) } } else { unpad_bit(c, &b) }
}

fn alphabet(c: &mut Ctx, bs: usize, a: &[u8]) -> R {
    let b: Vec<u8> = (0..bs).map(|_| *c.pick(a)).collect();
    unpad_both(c, &b)
}

/// every block size: padding of a few lengths, unpadding of every stated length, whole or with
/// one byte of the padding broken
fn every_size(c: &mut Ctx, bs: usize) -> R {
    match c.choose(3) {
        0 => {
            let len = [0, 1, bs / 2, bs - 1, bs, bs + 1][c.choose(6)];
            let p = bytes([0, 3, 1][c.choose(3)], len);
            pad_pkcs(c, bs, &p)?;
            pad_bit(c, bs, &p)
        }
        1 => {
            // PKCS: last byte any value, the run as long as it says (or the whole block)
            let n = c.choose(256);
            let mut b = vec![*c.pick(&[0u8, 1, 0xff]); bs];
            b[bs - n.min(bs)..].fill(n as u8);
            b[bs - 1] = n as u8;
            match c.choose(4) {
                0 => {}
                1 => b[bs - n.clamp(1, bs)] ^= 1,
                2 => b[bs - (n / 2).clamp(1, bs)] ^= 0x80,
                _ => b[bs - 2.min(bs)] ^= 4,
            }
            unpad_pkcs(c, &b)
        }
        _ => {
            let n = c.choose(bs + 1);
            let mut b = vec![*c.pick(&[0u8, 1, 0x80]); bs];
            if n < bs {
                b[n..].fill(0);
                b[n] = *c.pick(&[0x80u8, 0x81, 0x40, 0]);
            }
            unpad_bit(c, &b)
        }
    }
}

pub fn scenarios(t: Tier) -> Vec<Scenario> {
    let mut v = vec![
        scenario("pad", "every block size 1..=33 and 48, 63..65, 100, 127..129, 200, 254..256, 300; every partial length (and too long ones); 11 contents", |c| {
            let n = *c.pick(&[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 200, 254, 255, 256, 300]);
            pads(c, n)
        }),
        scenario("every-block-size", "every block size 1..=255: padding of 6 lengths; PKCS#7 unpadding with every last byte, whole and with one byte broken; bit unpadding with the marker in every place", |c| {
            let n = c.range(1, 255);
            every_size(c, n)
        }),
        scenario("unpad-1-2", "every block of 1 byte and of 2 bytes", |c| {
            if c.flag() {
                let b = [c.choose(256) as u8, c.choose(256) as u8];
                unpad_both(c, &b)
            } else {
                let b = [c.choose(256) as u8];
                unpad_both(c, &b)
            }
        }),
        scenario("unpad-alphabet", "block sizes 3..=6, every block over {00,01,02,03,04,05,06,07,7f,80,81,ff} (3..5) or {00,01,02,03,06,07,80,ff} (6)", |c| {
            const A: &[u8] = &[0, 1, 2, 3, 4, 5, 6, 7, 0x7f, 0x80, 0x81, 0xff];
            match c.choose(4) {
                0 => alphabet(c, 3, A),
                1 => alphabet(c, 4, A),
                2 => alphabet(c, 5, A),
                _ => alphabet(c, 6, &[0, 1, 2, 3, 6, 7, 0x80, 0xff]),
            }
        }),
        scenario("unpad-near-valid", "block sizes 7,8,9,15,16,17,24,32,64 (all), 128,200,255,256 (bit/PKCS as applicable): every valid block with at most one byte replaced, 10 replacement values, 5 fillings", move |c| {
            const NS: &[usize] = &[7, 8, 9, 15, 16, 17, 24, 32, 64, 128, 255, 200, 256];
            let n = *c.pick(&NS[..t.pick(11, 13)]);
            near_valid(c, n)
        }),
        scenario("unpad-last-byte", "block sizes 8,16,255: last byte any value, rest constant over 9 values", |c| {
            let n = *c.pick(&[8usize, 16, 255]);
            let mut b = vec![*c.pick(&[0u8, 1, 2, 8, 16, 0x80, 0xfe, 0xff, 7]); n];
            b[n - 1] = c.choose(256) as u8;
            unpad_both(c, &b)
        }),
    ];
    if t.thorough() {
        v.push(scenario("unpad-3", "every block of 3 bytes", |c| {
            let b = [c.choose(256) as u8, c.choose(256) as u8, c.choose(256) as u8];
            unpad_both(c, &b)
        }));
    }
    v
}
