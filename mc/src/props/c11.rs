//! BigUint against a schoolbook natural-number model.
use crate::engine::*;
use crate::refs::nat::Nat;
use crate::util::*;
use cryptography::big::BigUint;
use std::cmp::Ordering;

/// Everything that can be observed of a value.
fn agree(v: &BigUint, n: &Nat, how: &dyn Fn() -> String) -> R {
    let r = observe(|| -> R {
        let want = n.to_be();
        eq_bytes(&v.to_be_bytes(), &want, || format!("{}: bytes", how()))?;
        eq(&v.bits_used(), &n.bits(), || format!("{}: bits_used of {}", how(), hx(&want)))?;
        let top = n.bits();
        for i in (0..top + 18).chain([top + 255, 1 << 20, u32::MAX - 7, u32::MAX]) {
            eq(&v.is_set(i), &n.bit(i), || format!("{}: bit {i} of {}", how(), hx(&want)))?;
        }
        let fresh = BigUint::from_be_bytes(&want);
        if *v != fresh || fresh != *v || v.cmp(&fresh) != Ordering::Equal || fresh.cmp(v) != Ordering::Equal {
            return Err(format!("{}: not equal to {} made from bytes", how(), hx(&want)));
        }
        let u = v.as_u128();
        match (n.to_u128(), u) {
            (Some(a), Ok(b)) if a == b => {}
            (None, Err(_)) => {}
            (a, b) => return Err(format!("{}: as_u128 of {} is {b:?}, expected {a:?}", how(), hx(&want))),
        }
        if v.clone() != *v {
            return Err(format!("{}: clone differs", how()));
        }
        Ok(())
    });
    match r {
        Ok(r) => r,
        Err(p) => Err(format!("{}: observing {} panicked: {p}", how(), hx(&n.to_be()))),
    }
}

fn big(n: &Nat) -> BigUint {
    BigUint::from_be_bytes(n.to_be())
}

fn binary(c: &mut Ctx, a: &Nat, b: &Nat) -> R {
    binary_without_rem(c, a, b)?;
    remainder(c, a, b)
}

fn remainder(c: &mut Ctx, a: &Nat, b: &Nat) -> R {
    let (ha, hb) = (hx(&a.to_be()), hx(&b.to_be()));
    let (x, y) = (big(a), big(b));
    match a.rem(b) {
        Some(m) => {
            let r = c.must(|| format!("{ha} %= {hb}"), || { let mut r = x.clone(); r %= &y; r })?;
            agree(&r, &m, &|| format!("{ha} %= {hb}"))?;
            c.outcome(&m);
        }
        None => c.refuses(|| format!("{ha} %= 0"), || { let mut r = x.clone(); r %= &y; r })?,
    }
    agree(&y, b, &|| format!("right operand after {ha} %= it"))
}

fn binary_without_rem(c: &mut Ctx, a: &Nat, b: &Nat) -> R {
    let (ha, hb) = (hx(&a.to_be()), hx(&b.to_be()));
    let (x, y) = (big(a), big(b));
    // order and equality
    let o = c.must(|| format!("{ha} cmp {hb}"), || (x.cmp(&y), x.partial_cmp(&y), x == y, x < y, x <= y, x > y, x >= y, x != y, y != x, y == x, y.cmp(&x)))?;
    let w = a.cmp(b);
    eq(&o, &(w, Some(w), w.is_eq(), w.is_lt(), w.is_le(), w.is_gt(), w.is_ge(), w.is_ne(), w.is_ne(), w.is_eq(), w.reverse()), || format!("order of {ha} and {hb}"))?;
    let (hi, lo) = c.must(|| format!("max and min of {ha} and {hb}"), || (x.clone().max(y.clone()), x.clone().min(y.clone())))?;
    let (whi, wlo) = if w.is_gt() { (a, b) } else { (b, a) };
    agree(&hi, whi, &|| format!("max of {ha} and {hb}"))?;
    agree(&lo, wlo, &|| format!("min of {ha} and {hb}"))?;
    // addition
    let s = c.must(|| format!("{ha} += {hb}"), || { let mut r = x.clone(); r += &y; r })?;
    agree(&s, &a.add(b), &|| format!("{ha} += {hb}"))?;
    // subtraction
    match a.sub(b) {
        Some(d) => {
            let r = c.must(|| format!("{ha} -= {hb}"), || { let mut r = x.clone(); r -= &y; r })?;
            agree(&r, &d, &|| format!("{ha} -= {hb}"))?;
            let r = c.must(|| format!("{ha} - {hb}"), || x.clone() - &y)?;
            agree(&r, &d, &|| format!("{ha} - {hb}"))?;
            c.outcome(&d);
        }
        None => {
            c.refuses(|| format!("{ha} -= {hb}"), || { let mut r = x.clone(); r -= &y; r })?;
            c.refuses(|| format!("{ha} - {hb}"), || x.clone() - &y)?;
        }
    }
    // the operands are untouched
    agree(&y, b, &|| format!("right operand after operations with {ha}"))?;
    c.sample(|| format!("{ha} and {hb}: sum {}", hx(&s.to_be_bytes())));
    Ok(())
}

fn shifts(c: &mut Ctx, a: &Nat, k: u32, left_too: bool) -> R {
    let ha = hx(&a.to_be());
    if left_too {
        let l = c.must(|| format!("{ha} <<= {k}"), || { let mut r = big(a); r <<= k; r })?;
        agree(&l, &a.shl(k), &|| format!("{ha} <<= {k}"))?;
        // and back
        let b = c.must(|| format!("{ha} <<= {k} >>= {k}"), || { let mut r = l.clone(); r >>= k; r })?;
        agree(&b, a, &|| format!("{ha} <<= {k} >>= {k}"))?;
    }
    let r = c.must(|| format!("{ha} >>= {k}"), || { let mut r = big(a); r >>= k; r })?;
    agree(&r, &a.shr(k), &|| format!("{ha} >>= {k}"))?;
    c.outcome(&r.to_be_bytes());
    c.sample(|| format!("{ha} >>= {k} is {}", hx(&r.to_be_bytes())));
    Ok(())
}

/// Values around byte, word and 128-bit boundaries.
pub fn values(lens: &[usize]) -> Vec<Nat> {
    let mut v = vec![Nat::zero()];
    for &l in lens {
        if l == 0 {
            continue;
        }
        let mk = |f: &dyn Fn(usize) -> u8| Nat::from_be(&(0..l).map(f).collect::<Vec<u8>>());
        v.push(mk(&|_| 0xff));
        v.push(mk(&|i| if i == 0 { 1 } else { 0 }));
        v.push(mk(&|i| if i == 0 { 0x80 } else { 0 }));
        v.push(mk(&|i| if i == 0 || i == l - 1 { 1 } else { 0 }));
        v.push(mk(&|i| if i == 0 { 0x7f } else { 0xff }));
        v.push(mk(&|i| if i == l - 1 { 0xfe } else { 0xff }));
        v.push(mk(&|i| byte(3, i) | (i == 0) as u8));
        v.push(mk(&|i| byte(4, i) | ((i == 0) as u8) << 7));
        v.push(mk(&|i| if i == l / 2 { 0x10 } else if i == 0 { 3 } else { 0 }));
    }
    v.sort_by(|a, b| a.cmp(b));
    v.dedup();
    v
}

fn alphabet3() -> Vec<Nat> {
    const A: [u8; 7] = [0x00, 0x01, 0x02, 0x7f, 0x80, 0xfe, 0xff];
    let mut v = vec![];
    for a in A {
        for b in A {
            for c in A {
                v.push(Nat::from_be(&[a, b, c]));
            }
        }
    }
    v.sort_by(|a, b| a.cmp(b));
    v.dedup();
    v
}

/// Two registers under every operation; the real objects live through the whole history.
#[derive(Clone)]
struct Regs {
    r: [BigUint; 2],
    n: [Nat; 2],
}
struct Histories {
    max_bits: u32,
}
#[derive(Clone, Copy, Debug)]
enum Op {
    AddY,
    SubY,
    SubYOwned,
    RemY,
    AddX,
    Add8(u8),
    Shl(u32),
    Shr(u32),
    Set(u32, bool),
    SetFromTop(u32, bool),
    Swap,
    CopyY,
}
const OPS: [Op; 24] = [
    Op::AddY,
    Op::SubY,
    Op::SubYOwned,
    Op::RemY,
    Op::AddX,
    Op::Add8(0),
    Op::Add8(1),
    Op::Add8(255),
    Op::Shl(1),
    Op::Shl(7),
    Op::Shl(8),
    Op::Shl(17),
    Op::Shr(1),
    Op::Shr(8),
    Op::Shr(11),
    Op::Shr(64),
    Op::Set(0, true),
    Op::Set(0, false),
    Op::Set(9, true),
    Op::Set(8, false),
    Op::SetFromTop(1, true),
    Op::SetFromTop(2, false),
    Op::Swap,
    Op::CopyY,
];
impl Machine for Histories {
    type S = Regs;
    fn initials(&self) -> Vec<Regs> {
        let vals: Vec<Nat> = [0u128, 1, 255, 0x0100, 0xffff_ffff, 1 << 127].iter().map(|&v| Nat::from_u128(v)).collect();
        let mut o = vec![];
        for a in &vals {
            for b in &vals {
                o.push(Regs { r: [big(a), big(b)], n: [a.clone(), b.clone()] });
            }
        }
        o
    }
    fn ops(&self) -> usize {
        OPS.len()
    }
    fn step(&self, s: &Regs, op: usize, calls: &mut u64) -> Option<Result<Regs, String>> {
        let op = OPS[op];
        let [x, y] = &s.n;
        let (hxs, hys) = (hx(&x.to_be()), hx(&y.to_be()));
        let what = move || format!("x = {hxs}, y = {hys}, then {op:?}");
        let mut t = s.clone();
        // None: no natural-number result, has to panic
        let want: Option<Nat> = match op {
            Op::AddY => Some(x.add(y)),
            Op::SubY | Op::SubYOwned => x.sub(y),
            Op::RemY => x.rem(y),
            Op::AddX => Some(x.add(x)),
            Op::Add8(k) => Some(x.add(&Nat::from_u128(k as u128))),
            Op::Shl(k) => Some(x.shl(k)),
            Op::Shr(k) => Some(x.shr(k)),
            Op::Set(..) | Op::SetFromTop(..) => {
                let (i, b) = match op {
                    Op::Set(i, b) => (i, b),
                    Op::SetFromTop(d, b) => (x.bits().checked_sub(d + 1)?, b),
                    _ => unreachable!(),
                };
                let bytes = x.bits().div_ceil(8);
                if i / 8 >= bytes {
                    return None; // not in range
                }
                let w = x.with_bit(i, b);
                if w.bits().div_ceil(8) != bytes {
                    return None; // clears the top byte: documented as unsupported
                }
                t.n[0] = w.clone();
                *calls += 1;
                if let Err(p) = observe(|| t.r[0].update(i, b)) {
                    return Some(Err(format!("{}: panicked {p}", what())));
                }
                return Some(agree(&t.r[0], &w, &what).map(|_| t));
            }
            Op::Swap => {
                t.r.swap(0, 1);
                t.n.swap(0, 1);
                return Some(Ok(t));
            }
            Op::CopyY => {
                t.r[0] = t.r[1].clone();
                t.n[0] = t.n[1].clone();
                return Some(Ok(t));
            }
        };
        if want.as_ref().is_some_and(|w| w.bits() > self.max_bits) {
            return None;
        }
        *calls += 1;
        let [rx, ry] = &mut t.r;
        let r = observe(|| match op {
            Op::AddY => *rx += &*ry,
            Op::SubY => *rx -= &*ry,
            Op::SubYOwned => *rx = rx.clone() - &*ry,
            Op::RemY => *rx %= &*ry,
            Op::AddX => {
                let k = rx.clone();
                *rx += &k
            }
            Op::Add8(k) => *rx += k,
            Op::Shl(k) => *rx <<= k,
            Op::Shr(k) => *rx >>= k,
            _ => unreachable!(),
        });
        match (want, r) {
            (None, Err(_)) => None, // refused, as it should be
            (None, Ok(())) => Some(Err(format!("{}: was not refused", what()))),
            (Some(_), Err(p)) => Some(Err(format!("{}: panicked {p}", what()))),
            (Some(w), Ok(())) => {
                t.n[0] = w;
                let res = agree(&t.r[0], &t.n[0], &what).and_then(|_| {
                    let c = observe(|| t.r[0].cmp(&t.r[1])).map_err(|p| format!("{}: cmp panicked {p}", what()))?;
                    eq(&c, &t.n[0].cmp(&t.n[1]), || format!("{}: order of the registers", what()))
                });
                Some(res.map(|_| t))
            }
        }
    }
    fn key(&self, s: &Regs) -> Vec<u8> {
        // the representation of the real objects is part of the state
        format!("{:?}|{:?}", s.r[0], s.r[1]).into_bytes()
    }
    fn describe(&self, s: &Regs, op: usize) -> String {
        format!("{:?} gives x = {}, y = {}", OPS[op], hx(&s.n[0].to_be()), hx(&s.n[1].to_be()))
    }
}

pub fn scenarios(t: Tier) -> Vec<Scenario> {
    let a3 = alphabet3();
    let lens: &[usize] = t.pick(
        &[1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 18, 24, 32, 33, 48],
        &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 15, 16, 17, 18, 20, 23, 24, 25, 31, 32, 33, 34, 48, 63, 64, 65, 66, 96, 127, 128, 129],
    );
    let vals = values(lens);
    let svals = values(&[1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 32, 33, 64, 129]);
    let svals2 = svals.clone();
    let svals3 = svals.clone();
    let nv = vals.len();
    let big_lens: &[usize] = t.pick(&[64, 127, 128, 129, 255, 256, 257, 258], &[64, 65, 127, 128, 129, 191, 192, 193, 255, 256, 257, 258, 511, 512, 513, 1023, 1024, 1025]);
    let big_vals = values(big_lens);
    let dividends: &[usize] = t.pick(&[1, 4, 8, 16, 31, 32, 33, 63, 64, 65, 66, 96, 127, 128, 129, 255, 256, 257, 300], &[1, 4, 8, 16, 31, 32, 33, 47, 48, 49, 63, 64, 65, 66, 96, 127, 128, 129, 191, 192, 193, 255, 256, 257, 300, 511, 512, 513, 1024, 1025]);
    let divisors: &[usize] = t.pick(&[1, 2, 3, 4, 5, 8, 9, 16, 17], &[1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 18, 24, 31, 32, 33]);
    let huge: &[usize] = t.pick(&[1, 17, 8191, 8192, 8193, 65536, 65537], &[1, 17, 4095, 4096, 4097, 8191, 8192, 8193, 32767, 32768, 32769, 65535, 65536, 65537, 131072, 131073]);
    let maxsh = t.pick(140, 300);
    vec![
        scenario("every-byte-pair", "every pair of values below 256: order, +, - (both forms), %, refusals", |c| {
            let (a, b) = (c.choose(256), c.choose(256));
            binary(c, &Nat::from_u128(a as u128), &Nat::from_u128(b as u128))
        }),
        scenario("three-byte-alphabet", format!("every pair of {} values of up to 3 bytes over {{00,01,02,7f,80,fe,ff}}: order, +, -, %", a3.len()), move |c| {
            let a = c.pick(&a3);
            let b = c.pick(&a3);
            binary(c, a, b)
        }),
        scenario("boundary-pairs", format!("every pair of {nv} values with {lens:?} bytes: all ones, powers of two, +-1, mixed; order, +, -, %"), move |c| {
            let a = c.pick(&vals);
            let b = c.pick(&vals);
            binary(c, a, b)
        }),
        scenario(
            "powers-of-two-pairs",
            format!("2^i + d and 2^j + e for every i, j <= {}, d, e in -1, 0, 1: order, +, -, %", t.pick(140, 300)),
            move |c| {
                let m = t.pick(140, 300);
                let i = c.range(0, m) as u32;
                let j = c.range(0, m) as u32;
                let one = Nat::from_u128(1);
                let mut k = |e: u32| {
                    let p = one.shl(e);
                    match c.choose(3) {
                        0 => p,
                        1 => p.add(&one),
                        _ => p.sub(&one).unwrap(),
                    }
                };
                let (a, b) = (k(i), k(j));
                binary(c, &a, &b)
            },
        ),
        scenario("limb-alphabet", "every pair of 3-limb numbers with limbs from {0, 1, B/2-1, B/2, B-2, B-1}, limbs of 2, 4, 8 and 16 bytes: order, +, -, %", move |c| {
            let w = [2usize, 4, 8, 16][c.choose(4)];
            let num = |c: &mut Ctx| {
                let mut b = vec![];
                for _ in 0..3 {
                    let mut l = vec![0u8; w];
                    match c.choose(6) {
                        0 => {}
                        1 => l[w - 1] = 1,
                        2 => { l.fill(0xff); l[0] = 0x7f }
                        3 => l[0] = 0x80,
                        4 => { l.fill(0xff); l[w - 1] = 0xfe }
                        _ => l.fill(0xff),
                    }
                    b.extend(l);
                }
                Nat::from_be(&b)
            };
            let a = num(c);
            let b = num(c);
            binary(c, &a, &b)
        }),
        scenario("carry-runs", "a run of 0xff bytes from any byte i to any byte j of a number of up to 40 bytes, plus or minus 1, 2^8i, 2^8j or itself, 2 backgrounds", |c| {
            let len = *c.pick(&[3usize, 8, 9, 16, 17, 33, 40]);
            let i = c.choose(len);
            let j = c.range(i, len - 1);
            let mut le = bytes([0, 4][c.choose(2)], len);
            le[len - 1] |= 1;
            le[i..=j].fill(0xff);
            le.reverse();
            let a = Nat::from_be(&le);
            let one = Nat::from_u128(1);
            let b = match c.choose(4) {
                0 => one,
                1 => one.shl(8 * i as u32),
                2 => one.shl(8 * j as u32),
                _ => a.clone(),
            };
            binary(c, &a, &b)?;
            // and the borrow back through the zeros the carry left
            let s = a.add(&b);
            binary(c, &s, &b)
        }),
        scenario("large-pairs", format!("every pair of values with {big_lens:?} bytes (9 contents each): order, +, -, % (the remainder when at most 40 bytes apart)"), move |c| {
            let a = c.pick(&big_vals);
            let b = c.pick(&big_vals);
            let far = (a.bits() as i64 - b.bits() as i64) > 320;
            if far { binary_without_rem(c, a, b) } else { binary(c, a, b) }
        }),
        scenario("shifts", format!("{} values x every shift 0..={maxsh} left, right, and left then right", svals.len()), move |c| {
            let a = c.pick(&svals);
            let k = c.range(0, maxsh) as u32;
            shifts(c, a, k, true)
        }),
        scenario("big-shifts", "values x shifts {511..513, 1023..1025, 4096, 65535..65537, 2^20} both ways and right by {2^20+1, 2^31, u32::MAX-8, u32::MAX}", move |c| {
            let a = c.pick(&svals2);
            let ks = [511u32, 512, 513, 1023, 1024, 1025, 1032, 1033, 4096, 65535, 65536, 65537, (1 << 20) + 1, 1 << 31, u32::MAX - 8, u32::MAX];
            let i = c.choose(ks.len());
            let left = ks[i] <= 4096 || (ks[i] <= 65537 && a.is_zero());
            shifts(c, a, ks[i], left)
        }),
        scenario("small-divisors", format!("dividends of {dividends:?} bytes (9 contents each) modulo divisors of {divisors:?} bytes (9 contents each)"), {
            let (ds, vs) = (values(dividends), values(divisors));
            move |c| {
                let a = c.pick(&ds);
                let b = c.pick(&vs);
                remainder(c, a, b)
            }
        }),
        scenario("every-size-remainder", format!("a mixed and an all-ones dividend of every size up to {0} bytes modulo a divisor of every size up to {0} bytes (all ones, 2^k+1, mixed)", t.pick(40, 120)), move |c| {
            let la = c.range(1, t.pick(40, 120));
            let lb = c.range(1, la);
            let mk = |k: usize, l: usize| {
                let mut b = match k {
                    0 => vec![0xff; l],
                    1 => { let mut b = vec![0; l]; b[0] = 1; b[l - 1] |= 1; b }
                    _ => bytes(3, l),
                };
                b[0] |= 1;
                Nat::from_be(&b)
            };
            let a = mk(2 * c.choose(2), la);
            let b = mk(c.choose(3), lb);
            remainder(c, &a, &b)
        }),
        scenario("huge-pairs", format!("every pair of values with {huge:?} bytes (9 contents each): order, +, - and refusals"), {
            let hv = values(huge);
            move |c| {
                let a = c.pick(&hv);
                let b = c.pick(&hv);
                binary_without_rem(c, a, b)
            }
        }),
        scenario("huge-shifts", "values of {1, 3, 17, 8192, 65536} bytes (9 contents each) shifted both ways by 2^k - 8, 2^k - 1, 2^k, 2^k + 1 and 2^k + 8, k = 12..=20", {
            let hv = values(&[1, 3, 17, 8192, 65536]);
            move |c| {
                let a = c.pick(&hv);
                let k = 1u32 << c.range(12, 20);
                let k = [k - 8, k - 1, k, k + 1, k + 8][c.choose(5)];
                shifts(c, a, k, true)
            }
        }),
        scenario("huge-remainders", "2^i + 2^j, 2^i - 1 and mixed of i bits modulo numbers of i, i - 1 and i - 17 bits, i around 8192, 16384, 32768, 65536 and 524288", move |c| {
            let i = [8192u32, 16384, 32768, 65536, 524288][c.choose(5)] + c.choose(3) as u32 - 1;
            let d = *c.pick(&[0u32, 1, 17]);
            let one = Nat::from_u128(1);
            let mk = |k: usize, bits: u32| match k {
                0 => one.shl(bits - 1).add(&one.shl(bits / 2)),
                1 => one.shl(bits).sub(&one).unwrap(),
                _ => {
                    let mut b = bytes(3, bits.div_ceil(8) as usize);
                    b[0] = 0;
                    Nat::from_be(&b).add(&one.shl(bits - 1))
                }
            };
            let a = mk(c.choose(3), i);
            let b = mk(c.choose(3), i - d);
            remainder(c, &a, &b)
        })
        .limit(300),
        scenario("huge-bytes", "byte strings of 255..257, 4095..4097, 65535..65537, 2^20 and 2^20 + 1 bytes with 0, 1, 255..257 and 65536 extra zeros at either end, both byte orders", move |c| {
            let n = *c.pick(&[0usize, 1, 255, 256, 257, 4095, 4096, 4097, 65535, 65536, 65537, 1 << 20, (1 << 20) + 1]);
            let z = *c.pick(&[0usize, 1, 255, 256, 257, 65536]);
            let le = c.flag();
            let mut b = vec![0; z];
            b.extend(bytes(3, n));
            if !b.is_empty() && n > 0 {
                b[z] |= 1;
            }
            let mut v = b.clone();
            if le {
                v.reverse();
            }
            let what = || format!("{n} bytes after {z} zeros, little endian: {le}");
            let x = c.must(what, || if le { BigUint::from_le_bytes(&v) } else { BigUint::from_be_bytes(&v) })?;
            let w = Nat::from_be(&b);
            let got = c.must(what, || (x.to_be_bytes(), x.bits_used(), x.as_u128().ok()))?;
            eq_bytes(&got.0, &w.to_be(), what)?;
            eq(&(got.1, got.2), &(w.bits(), w.to_u128()), what)?;
            for i in (0..w.bits()).step_by(97).chain([w.bits().saturating_sub(1), w.bits(), w.bits() + 1]) {
                eq(&observe(|| x.is_set(i)).ok(), &Some(w.bit(i)), || format!("bit {i} of {}", what()))?;
            }
            c.outcome(&(n, z, le));
            Ok(())
        }),
        scenario("huge-updates", "numbers of 256, 8192, 8193, 65537 and 131073 bytes (3 contents): set or clear bits 0, 1, 2^k - 1, 2^k, 2^k + 1 and the top ones, k = 3..=20", move |c| {
            let n = *c.pick(&[256usize, 8192, 8193, 65537, 131073]);
            let mut b = bytes([1, 3, 0][c.choose(3)], n);
            b[0] |= 0x11;
            let k = c.range(0, 20) as u32;
            let i = match k {
                0 => 0,
                1 => 8 * n as u32 - 1,
                2 => 8 * n as u32 - 9,
                k => (1u32 << k) - 1 + c.choose(3) as u32,
            };
            if i as usize >= 8 * n {
                return Ok(());
            }
            let set = c.flag();
            let w = Nat::from_be(&b).with_bit(i, set);
            let what = || format!("update({i}, {set}) of a number of {n} bytes");
            let v = c.must(what, || { let mut v = BigUint::from_be_bytes(&b); v.update(i, set); v })?;
            c.outcome(&(i, set));
            eq_bytes(&v.to_be_bytes(), &w.to_be(), what)?;
            eq(&v.is_set(i), &set, what)
        }),
        scenario("add-u8", format!("{} values x every u8", svals3.len()), move |c| {
            let a = c.pick(&svals3);
            let k = c.choose(256) as u8;
            let r = c.must(|| format!("{} += {k}", hx(&a.to_be())), || { let mut r = big(a); r += k; r })?;
            c.outcome(&r.to_be_bytes());
            agree(&r, &a.add(&Nat::from_u128(k as u128)), &|| format!("{} += {k}u8", hx(&a.to_be())))
        }),
        scenario("byte-conversions", "byte strings of 0..=40 bytes, with 0..=20 extra zeros at either end, 6 contents, big and little endian", |c| {
            let n = c.range(0, 40);
            let p = c.choose(PATTERNS);
            let (z1, z2) = (c.choose(21), *c.pick(&[0usize, 1, 2, 3, 15, 16, 17]));
            let mut b = vec![0; z1];
            b.extend(bytes(p, n));
            b.extend(vec![0; z2]);
            let v = c.must(|| format!("from_be_bytes({})", hx(&b)), || BigUint::from_be_bytes(&b))?;
            agree(&v, &Nat::from_be(&b), &|| format!("from_be_bytes({})", hx(&b)))?;
            let v = c.must(|| format!("from_le_bytes({})", hx(&b)), || BigUint::from_le_bytes(&b))?;
            let mut r = b.clone();
            r.reverse();
            c.outcome(&r);
            agree(&v, &Nat::from_be(&r), &|| format!("from_le_bytes({})", hx(&b)))
        }),
        scenario("u128-conversions", "2^i + 2^j, 2^i - 2^j, 2^i - 1 and 0 as u128, and back", |c| {
            let i = c.choose(129);
            let j = c.choose(129);
            let p = |k: usize| if k == 128 { 0u128 } else { 1 << k };
            let v = match c.choose(3) {
                0 => p(i).wrapping_add(p(j)),
                1 => p(i).wrapping_sub(p(j)),
                _ => !p(i) ^ p(j),
            };
            let b = c.must(|| format!("from {v}"), || BigUint::from(v))?;
            c.outcome(&v);
            agree(&b, &Nat::from_u128(v), &|| format!("BigUint::from({v}u128)"))
        }),
        scenario("bit-updates", "values of 1..=20 bytes (5 contents): set or clear every bit of every byte (keeping the top byte non-zero)", |c| {
            let n = c.range(1, 20);
            let mut b = bytes([1, 3, 4, 2, 0][c.choose(5)], n);
            b[0] |= 0x11;
            let i = c.choose(8 * n) as u32;
            let set = c.flag();
            let w = Nat::from_be(&b).with_bit(i, set);
            let v = c.must(|| format!("update({i}, {set}) of {}", hx(&b)), || { let mut v = BigUint::from_be_bytes(&b); v.update(i, set); v })?;
            c.outcome(&w);
            agree(&v, &w, &|| format!("update({i}, {set}) of {}", hx(&b)))
        }),
        scenario("one-bit-order", "pairs of equal-length numbers (1..=20, 33, 64 bytes) that differ in exactly one bit, every bit, 3 contents", |c| {
            let n = *c.pick(&[1usize, 2, 3, 4, 7, 8, 9, 15, 16, 17, 20, 33, 64]);
            let mut a = bytes([3, 1, 0][c.choose(3)], n);
            a[0] |= 1;
            let i = c.choose(8 * n);
            let mut b = a.clone();
            b[i / 8] ^= 1 << (i % 8);
            binary(c, &Nat::from_be(&a), &Nat::from_be(&b))
        }),
        scenario("one-bit-order-large", format!("pairs of equal-length numbers of 255..257, 600, 1025 and 2049 bytes ({} contents) that differ in the lowest or highest bit of any one byte: order, +, -", t.pick(1, 3)), move |c| {
            let n = *c.pick(&[255usize, 256, 257, 600, 1025, 2049]);
            let mut a = bytes([3, 1, 0][c.choose(t.pick(1, 3))], n);
            a[0] |= 1;
            let i = c.choose(2 * n);
            let mut b = a.clone();
            b[i / 2] ^= [1, 0x80][i % 2];
            binary_without_rem(c, &Nat::from_be(&a), &Nat::from_be(&b))
        }),
        machine(
            "operation-histories",
            format!("two registers, 36 initial pairs, 24 operations, every history of up to {} operations with results up to {} bits; states deduplicated by the real objects' representation", t.pick(4, 5), t.pick(160, 160)),
            Histories { max_bits: 160 },
            t.pick(4, 5),
        ),
    ]
}
