//! StreamCipher: each keystream byte is used exactly once, in order.
use crate::engine::*;
use crate::refs::rc45::rc4_stream;
use crate::util::*;
use cryptography::{StreamCipher, rc4};
use std::cell::Cell;
use std::rc::Rc;

/// A keystream that counts how often it is asked.
#[derive(Clone)]
struct Counted {
    bytes: Rc<Vec<u8>>,
    pos: Rc<Cell<usize>>,
}
impl Iterator for Counted {
    type Item = u8;
    fn next(&mut self) -> Option<u8> {
        let p = self.pos.get();
        self.pos.set(p + 1);
        self.bytes.get(p).copied()
    }
}

const KEYSTREAM: usize = 64;

fn ks() -> Vec<u8> {
    // no two positions alike, so that reuse and skips always show
    (0..KEYSTREAM).map(|i| (i as u8).wrapping_mul(7).wrapping_add(1)).collect()
}

/// All (length, consumed) pairs up to `max`, shortest first.
fn pieces(max: usize) -> Vec<(usize, usize)> {
    (0..=max).flat_map(|m| (0..=m).map(move |k| (m, k))).collect()
}

/// Reads `k` bytes of what `it` yields, in one of several ways; the bytes seen and their
/// offsets. All of these read exactly the first `k` items of an iterator.
fn read(mut it: impl Iterator<Item = u8>, k: usize, all: bool, method: usize) -> (Vec<u8>, Vec<usize>) {
    match method {
        0 => {
            let mut v = vec![];
            for _ in 0..k {
                v.extend(it.next());
            }
            (v, (0..k).collect())
        }
        1 => (it.take(k).collect(), (0..k).collect()),
        2 if k > 0 => (it.nth(k - 1).into_iter().collect(), vec![k - 1]),
        3 if all => {
            // to the end, and asked again after it
            let mut v = vec![];
            while let Some(b) = it.next() {
                v.push(b);
            }
            if let Some(b) = it.next() {
                v.push(b);
            }
            (v, (0..k).collect())
        }
        4 if all => (it.fold(vec![], |mut v, b| { v.push(b); v }), (0..k).collect()),
        5 if all => (it.collect(), (0..k).collect()),
        6 => {
            let mut p = it.by_ref().take(k).peekable();
            let mut v = vec![];
            while p.peek().is_some() {
                v.extend(p.next());
            }
            (v, (0..k).collect())
        }
        _ => (it.by_ref().take(k).collect(), (0..k).collect()),
    }
}
const METHODS: usize = 7;

pub fn scenarios(t: Tier) -> Vec<Scenario> {
    let depth = t.pick(3, 4);
    let maxlen = t.pick(3, 3);
    vec![
        scenario(
            "chunk-histories",
            format!("every history of {depth} encrypt calls, pieces of 0..={maxlen} bytes of which 0..=all are read in {METHODS} ways and the rest dropped; keystreams: RC4, cycle, counted; data as a vector, without any size hint, as an iterator"),
            move |c| {
                let kind = c.choose(3);
                let key = bytes(3, 5);
                let kstream: Vec<u8> = match kind {
                    0 => rc4_stream(&key, KEYSTREAM),
                    1 => (0..KEYSTREAM).map(|i| ks()[i % 5]).collect(),
                    _ => ks(),
                };
                enum S {
                    Rc4(StreamCipher<rc4>),
                    Cycle(StreamCipher<std::iter::Cycle<std::vec::IntoIter<u8>>>),
                    Counted(StreamCipher<Counted>),
                }
                let mut s = match kind {
                    0 => S::Rc4(c.must(|| "new".into(), || StreamCipher::new(rc4::new(&key)))?),
                    1 => S::Cycle(c.must(|| "new".into(), || StreamCipher::new(ks()[..5].to_vec().into_iter().cycle()))?),
                    _ => {
                        let k = Counted { bytes: Rc::new(ks()), pos: Rc::new(Cell::new(0)) };
                        S::Counted(c.must(|| "new".into(), || StreamCipher::new(k))?)
                    }
                };
                let ps = pieces(maxlen);
                let mut pos = 0;
                let mut hist = String::new();
                for _ in 0..depth {
                    let (m, k) = *c.pick(&ps);
                    let method = c.choose(METHODS);
                    let data: Vec<u8> = (0..m).map(|i| byte(4, pos * 4 + i)).collect();
                    hist.push_str(&format!("{k} of {m} by {method}; "));
                    let all = k == m;
                    let d = data.clone();
                    let (got, rel) = c.must(|| hist.clone(), || match &mut s {
                        S::Rc4(s) => read(s.encrypt(d), k, all, method),
                        S::Cycle(s) => {
                            // nothing is known about its length, not even at its end
                            let mut d = d.into_iter();
                            read(s.encrypt(std::iter::from_fn(move || d.next())), k, all, method)
                        }
                        S::Counted(s) => read(s.encrypt(d.into_iter().map(|x| x)), k, all, method),
                    })?;
                    let want: Vec<u8> = rel.iter().map(|&r| data[r] ^ kstream[pos + r]).collect();
                    eq_bytes(&got, &want, || format!("stream cipher (keystream {kind}) after {hist}"))?;
                    pos += k;
                }
                c.outcome(&(kind, pos));
                c.sample(|| hist.clone());
                Ok(())
            },
        ),
        scenario(
            "deep-histories",
            format!("every history of {} encrypt calls with pieces (0,0) (1,1) (2,0) (2,1) (3,3) read byte by byte, or from sources without size hint to their end, then 5 bytes more", t.pick(7, 9)),
            move |c| {
                let k = ks();
                let opaque = c.choose(2);
                let mut s = c.must(|| "new".into(), || StreamCipher::new(ks()))?;
                let mut pos = 0;
                let mut hist = String::new();
                for i in 0..t.pick(7, 9) + 1 {
                    let (m, n) = if i == t.pick(7, 9) { (5, 5) } else { *c.pick(&[(0, 0), (1, 1), (2, 0), (2, 1), (3, 3)]) };
                    let data: Vec<u8> = (0..m).map(|i| byte(3, pos * 4 + i)).collect();
                    let d = data.clone();
                    let (got, _) = c.must(|| hist.clone(), || match opaque {
                        // read byte by byte, or to the end and asked again, without a size hint
                        0 => read(s.encrypt(d), n, n == m, 0),
                        _ => {
                            let mut d = d.into_iter();
                            read(s.encrypt(std::iter::from_fn(move || d.next())), n, n == m, if n == m { 3 } else { 0 })
                        }
                    })?;
                    hist.push_str(&format!("{n}/{m} "));
                    let want: Vec<u8> = (0..n).map(|r| data[r] ^ k[pos + r]).collect();
                    eq_bytes(&got, &want, || format!("stream cipher after {hist}"))?;
                    pos += n;
                }
                c.outcome(&pos);
                Ok(())
            },
        ),
        scenario("every-byte-pair", "every keystream byte with every data byte, alone and after each value of the byte before", |c| {
            let k = c.choose(256) as u8;
            let d = c.choose(256) as u8;
            let got: Vec<u8> = c.must(|| format!("keystream byte {k:02x}, data byte {d:02x}"), || {
                let mut s = StreamCipher::new([k, d, k, k].into_iter());
                let mut v: Vec<u8> = s.encrypt([d, d]).collect();
                v.extend(s.encrypt([k, d]));
                v
            })?;
            c.outcome(&got);
            eq_bytes(&got, &[k ^ d, 0, 0, k ^ d], || format!("keystream {k:02x} {d:02x} {k:02x} {k:02x}, data {d:02x} {d:02x}, then {k:02x} {d:02x}"))
        }),
        scenario(
            "keystream-exhaustion",
            "finite keystreams of 0..=4 bytes, every history of 3 calls with pieces of 0..=3 bytes: the first byte without keystream, and every later one, must fail",
            |c| {
                let len = c.choose(5);
                let k: Vec<u8> = ks()[..len].to_vec();
                let mut s = c.must(|| "new".into(), || StreamCipher::new(k.clone()))?;
                let ps = pieces(3);
                let mut pos = 0;
                let mut hist = format!("{len}-byte keystream: ");
                for _ in 0..3 {
                    let (m, n) = *c.pick(&ps);
                    let data: Vec<u8> = (0..m).map(|i| byte(3, pos * 4 + i)).collect();
                    hist.push_str(&format!("{n}/{m} "));
                    // byte by byte: what was read before the failure is kept
                    let mut seen = vec![];
                    let r = c.call(|| {
                        let mut it = s.encrypt(data.clone());
                        for _ in 0..n {
                            match it.next() {
                                Some(b) => seen.push(b),
                                None => break,
                            }
                        }
                    });
                    let fit = n.min(len - pos);
                    let want: Vec<u8> = (0..fit).map(|r| data[r] ^ k[pos + r]).collect();
                    eq_bytes(&seen, &want, || hist.clone())?;
                    if n > fit && r.is_ok() {
                        return Err(format!("{hist}: asked for {n} bytes with {fit} keystream bytes left, and did not fail"));
                    }
                    if n <= fit {
                        r.map_err(|e| format!("{hist}: panicked {e}"))?;
                    }
                    pos += fit;
                }
                c.outcome(&(len, pos));
                Ok(())
            },
        ),
        scenario(
            "part-read-long-pieces",
            "a first piece of m bytes (m every value to 40, and 2^k + {-1,0,1} to 65537) of which {0,1,2,half,m-1,m} are read, a second of {0,1,20} read whole or half, then 5 bytes; sources with exact, loose and zero size hints",
            |c| {
                let mut ms: Vec<usize> = (0..=40).collect();
                for k in 6..=16 {
                    ms.extend([(1usize << k) - 1, 1 << k, (1 << k) + 1]);
                }
                let m = *c.pick(&ms);
                let n = [0, 1.min(m), 2.min(m), m / 2, m.saturating_sub(1), m][c.choose(6)];
                let m2 = *c.pick(&[0usize, 1, 20]);
                let n2 = [m2, m2 / 2][c.choose(2)];
                let src = c.choose(4);
                let method = [0, 1, 6][c.choose(3)];
                let key = bytes(4, 7);
                let k = rc4_stream(&key, m + m2 + 5);
                let mut s = c.must(|| "new".into(), || StreamCipher::new(rc4::new(&key)))?;
                let mut pos = 0;
                for (m, n) in [(m, n), (m2, n2), (5, 5)] {
                    let data = bytes(3, m);
                    let what = || format!("pieces {n}/{m} after {pos} keystream bytes, source {src}, read by {method}");
                    let d = data.clone();
                    let (got, _) = c.must(what, || match src {
                        0 => read(s.encrypt(d), n, n == m, method),
                        1 => read(s.encrypt(d.into_iter().filter(|_| true)), n, n == m, method),
                        2 => {
                            let (a, b) = d.split_at(m / 2);
                            let (a, b) = (a.to_vec(), b.to_vec());
                            read(s.encrypt(a.into_iter().chain(b.into_iter().filter(|_| true))), n, n == m, method)
                        }
                        _ => {
                            let mut i = 0;
                            read(s.encrypt(std::iter::from_fn(move || { i += 1; d.get(i - 1).copied() })), n, n == m, method)
                        }
                    })?;
                    let want: Vec<u8> = (0..n).map(|r| data[r] ^ k[pos + r]).collect();
                    if got != want {
                        let i = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
                        return Err(format!("{}: {} bytes, expected {}; first difference at {i}", what(), got.len(), want.len()));
                    }
                    pos += n;
                }
                c.outcome(&(m, n, m2, n2));
                Ok(())
            },
        ),
        scenario(
            "iterator-methods",
            "pieces of 1, 40, 300 and 2300 bytes read by two skips of every length 0..=70, 100, 126..=129, 255..=257, 1000 (nth, or skip of the rest), next between and after them, then the rest dropped or consumed by collect, fold, for_each, last, count, step_by, find, position, max or sum; then 5 bytes more; with and without size hints",
            |c| {
                let m = *c.pick(&[1usize, 40, 300, 2300]);
                let skips: Vec<usize> = (0..=70).chain([100, 126, 127, 128, 129, 255, 256, 257, 1000]).collect();
                let a = *c.pick(&skips);
                let b = *c.pick(&[0usize, 1, 2, 7, 8, 63, 64, 65, 1000]);
                let hinted = c.flag();
                let end = c.choose(12);
                let key = bytes(4, 11);
                let k = rc4_stream(&key, m + 5);
                let data = bytes(3, m);
                let x: Vec<u8> = data.iter().zip(&k).map(|(d, k)| d ^ k).collect();
                let mut s = c.must(|| "new".into(), || StreamCipher::new(rc4::new(&key)))?;
                let what = || format!("{m} bytes, nth({a}), next, nth({b}), then way {end} (size hint {hinted})");
                // what an iterator over `x` answers to the same questions, and how far it gets
                fn ask(mut it: impl Iterator<Item = u8>, a: usize, b: usize, end: usize) -> Vec<u64> {
                    let num = |o: Option<u8>| o.map_or(999, u64::from);
                    let mut v = vec![num(it.nth(a)), num(it.next()), num(it.nth(b))];
                    match end {
                        0 => {}
                        1 => v.extend(it.map(u64::from)),
                        2 => v.push(it.fold(7u64, |h, b| h.wrapping_mul(257).wrapping_add(b as u64))),
                        3 => it.for_each(|b| v.push(b as u64)),
                        4 => v.push(num(it.last())),
                        5 => v.push(it.count() as u64),
                        6 => v.extend(it.step_by(3).map(u64::from)),
                        7 => v.push(num(it.find(|b| b % 5 == 2))),
                        8 => v.push(it.position(|b| b % 7 == 3).map_or(9999, |p| p as u64)),
                        9 => v.push(num(it.max())),
                        10 => v.push(it.map(u64::from).sum()),
                        _ => v.extend(it.skip(9).map(u64::from)),
                    }
                    v
                }
                let reached = Cell::new(0);
                let mut i = 0;
                let want = ask(std::iter::from_fn(|| { let r = x.get(i).copied(); if r.is_some() { i += 1; reached.set(i); } r }), a, b, end);
                let d = data.clone();
                let got = c.must(what, || match hinted {
                    true => ask(s.encrypt(d), a, b, end),
                    false => {
                        let mut d = d.into_iter();
                        ask(s.encrypt(std::iter::from_fn(move || d.next())), a, b, end)
                    }
                })?;
                if got != want {
                    let i = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
                    return Err(format!("{}: answer {i} is {:?}, expected {:?} (999: none)", what(), got.get(i), want.get(i)));
                }
                let pos = reached.get();
                let more: Vec<u8> = c.must(what, || s.encrypt([0u8; 5]).collect())?;
                c.outcome(&(m, a, b, end));
                eq_bytes(&more, &k[pos..pos + 5], || format!("the 5 keystream bytes after {}", what()))
            },
        ),
        scenario("many-pieces", "70000 pieces of 1 byte, 70000 of 0 and 1 alternately, 40000 half-read pieces of 2; RC4 keystream of the whole", |c| {
            let which = c.choose(3);
            let key = bytes(4, 9);
            let n = [70000usize, 70000, 40000][which];
            let k = rc4_stream(&key, n);
            let mut s = c.must(|| "new".into(), || StreamCipher::new(rc4::new(&key)))?;
            let mut pos = 0;
            for i in 0..n {
                let got: Vec<u8> = observe(|| match which {
                    0 => s.encrypt([0u8]).collect(),
                    1 => s.encrypt(std::iter::repeat_n(0u8, i % 2)).collect(),
                    _ => s.encrypt([0u8, 0]).take(1).collect(),
                })
                .map_err(|e| format!("piece {i}: panicked {e}"))?;
                for g in got {
                    if g != k[pos] {
                        return Err(format!("piece {i} of kind {which}, keystream byte {pos}: got {g:02x}, expected {:02x}", k[pos]));
                    }
                    pos += 1;
                }
            }
            c.outcome(&pos);
            Ok(())
        }),
        scenario("long-messages", "piece sizes 1..=300 applied repeatedly to a 1200-byte message, RC4 keystream", |c| {
            let size = c.range(1, 300);
            let key = bytes(4, 16);
            let msg = bytes(3, 1200);
            let k = rc4_stream(&key, 1200);
            let mut s = c.must(|| "new".into(), || StreamCipher::new(rc4::new(&key)))?;
            let mut got = vec![];
            for p in msg.chunks(size) {
                got.extend(c.must(|| format!("piece size {size}"), || s.encrypt(p.iter().copied()).collect::<Vec<u8>>())?);
            }
            let want: Vec<u8> = msg.iter().zip(&k).map(|(a, b)| a ^ b).collect();
            c.outcome(&size);
            eq_bytes(&got, &want, || format!("message in pieces of {size}"))
        }),
        scenario("very-long-lifetimes", "2^32 + 70000 bytes through one cipher, in one piece, or in pieces of 2^20 + 7 bytes of which every eighth is read only in part; the keystream is a 64-bit counter's bytes mixed", |c| {
            let pieces = c.flag();
            let total = (1u64 << 32) + 70_000;
            fn gen_byte(x: &mut u64) -> u8 {
                *x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                (*x >> 56) as u8
            }
            let mut x = 7u64;
            let mut y = 7u64;
            let mut s = c.must(|| "new".into(), || StreamCipher::new(std::iter::from_fn(move || Some(gen_byte(&mut x)))))?;
            let mut pos = 0u64;
            let mut i = 0u64;
            while pos < total {
                let m = if pieces { (1u64 << 20) + 7 } else { total };
                let read = if i % 8 == 7 { m / 3 } else { m };
                i += 1;
                let bad = c.must(|| format!("piece {i} of {m} bytes after {pos} bytes"), || {
                    let mut it = s.encrypt(std::iter::repeat_n(0x5a_u8, m as usize));
                    for k in 0..read {
                        if it.next() != Some(0x5a ^ gen_byte(&mut y)) {
                            return Some(k);
                        }
                    }
                    None
                })?;
                if let Some(k) = bad {
                    return Err(format!("byte {} of the cipher's lifetime is not its input byte xor that keystream byte", pos + k));
                }
                pos += read;
            }
            c.outcome(&(pieces, pos));
            Ok(())
        })
        .limit(600)
        .once(),
    ]
}
