//! Digest values: words, bytes, hex.
use crate::engine::*;
use crate::util::*;
use cryptography::sha::{self, Hash160, Hash224, Hash256, Hash384, Hash512};
use hex::FromHex;

macro_rules! digest {
    ($name:ident, $ty:ty, $word:ty, $w:literal, $n:literal) => {
        mod $name {
            use super::*;
            pub const N: usize = $n;
            const B: usize = std::mem::size_of::<$word>();
            fn words(b: &[u8; N]) -> [$word; $w] {
                core::array::from_fn(|i| <$word>::from_be_bytes(b[B * i..B * i + B].try_into().unwrap()))
            }
            fn name() -> &'static str {
                stringify!($ty)
            }
            /// every conversion of one value
            pub fn convert(c: &mut Ctx, b: [u8; N]) -> R {
                let w = words(&b);
                let d = c.must(|| format!("{} from words {w:x?}", name()), || <$ty>::from(w))?;
                let bytes = c.must(|| format!("{} to bytes", name()), || <[u8; N]>::from(d.clone()))?;
                eq_bytes(&bytes, &b, || format!("bytes of {} made from words {w:x?}", name()))?;
                let back = c.must(|| format!("{} to words", name()), || <[$word; $w]>::from(d.clone()))?;
                eq(&back, &w, || format!("words of {}", name()))?;
                for up in [false, true] {
                    let h: String = b.iter().map(|x| if up { format!("{x:02X}") } else { format!("{x:02x}") }).collect();
                    let p = c.must(|| format!("{} from hex {h}", name()), || <$ty>::from_hex(&h))?;
                    let p = p.map_err(|e| format!("{} from hex {h}: {e}", name()))?;
                    eq_bytes(&<[u8; N]>::from(p.clone()), &b, || format!("{} from hex {h}", name()))?;
                    if p != d {
                        return Err(format!("{}: equal bytes {} compare unequal", name(), hx(&b)));
                    }
                    let pw = c.must(|| format!("{} from hex to words", name()), || <[$word; $w]>::from(p))?;
                    eq(&pw, &w, || format!("words of {} read from hex", name()))?;
                }
                c.outcome(&b);
                c.sample(|| format!("{} {}", name(), hx(&b)));
                Ok(())
            }
            pub fn unequal(c: &mut Ctx) -> R {
                let a: [u8; N] = arr(*c.pick(&[0, 3]));
                let mut b = a;
                let n = perturb(c, &mut b, 2, &[1, 0x80, 0xff]);
                let (x, y) = (<$ty>::from(words(&a)), <$ty>::from(words(&b)));
                let e = c.must(|| "==".into(), || (x == y, y == x, x != y, x.clone() == x))?;
                c.outcome(&(n, b));
                eq(&e, &(n == 0, n == 0, n != 0, true), || format!("{} equality of {} and {}", name(), hx(&a), hx(&b)))
            }
            /// any text: exactly 2N hex digits, or an error
            pub fn text(c: &mut Ctx, t: &[u8]) -> R {
                let what = || format!("{} from hex text {:?}", name(), String::from_utf8_lossy(t));
                let val = |b: u8| (b as char).to_digit(16);
                let ok = t.len() == 2 * N && t.iter().all(|&b| b.is_ascii() && val(b).is_some());
                let r = c.must(what, || <$ty>::from_hex(t))?;
                c.outcome(&(t.len(), ok));
                match (r, ok) {
                    (Err(_), false) => Ok(()),
                    (Ok(d), true) => {
                        let w: Vec<u8> = t.chunks(2).map(|p| (val(p[0]).unwrap() * 16 + val(p[1]).unwrap()) as u8).collect();
                        eq_bytes(&<[u8; N]>::from(d), &w, what)
                    }
                    (Ok(_), false) => Err(format!("{} was accepted", what())),
                    (Err(e), true) => Err(format!("{} was rejected: {e}", what())),
                }
            }
            pub fn values(c: &mut Ctx, all: &[u8]) -> R {
                let mut b: [u8; N] = arr(c.choose(PATTERNS));
                perturb(c, &mut b, 1, all);
                convert(c, b)
            }
            pub fn text_lengths(c: &mut Ctx) -> R {
                let n = c.range(0, 2 * N + 66);
                let d = *c.pick(b"09afAF");
                let mut t = vec![d; n];
                if c.flag() && n > 0 {
                    t[n - 1] = b'g';
                }
                text(c, &t)
            }
            pub fn text_chars(c: &mut Ctx) -> R {
                let h: Vec<u8> = arr::<N>(3).iter().flat_map(|x| format!("{x:02x}").into_bytes()).collect();
                let p = c.choose(2 * N);
                let mut t = h;
                t[p] = c.choose(256) as u8;
                text(c, &t)
            }
            pub fn text_edges(c: &mut Ctx) -> R {
                // prefixes and suffixes people write, and case mixtures
                let h: String = arr::<N>(4).iter().enumerate().map(|(i, x)| if i % 3 == 0 { format!("{x:02X}") } else { format!("{x:02x}") }).collect();
                let pre = *c.pick(&["", "0x", " ", "0X", "+", "00", "\u{feff}"]);
                let suf = *c.pick(&["", " ", "\n", "h", "00", "\0"]);
                let cut = *c.pick(&[0usize, 1, 2]);
                text(c, format!("{pre}{}{suf}", &h[cut..]).as_bytes())
            }
        }
    };
}
digest!(d160, Hash160, u32, 5, 20);
digest!(d224, Hash224, u32, 7, 28);
digest!(d256, Hash256, u32, 8, 32);
digest!(d384, Hash384, u64, 6, 48);
digest!(d512, Hash512, u64, 8, 64);

macro_rules! each {
    ($c:expr, $f:ident $(, $a:expr)*) => {
        match $c.choose(5) {
            0 => d160::$f($c $(, $a)*),
            1 => d224::$f($c $(, $a)*),
            2 => d256::$f($c $(, $a)*),
            3 => d384::$f($c $(, $a)*),
            _ => d512::$f($c $(, $a)*),
        }
    };
}

pub fn scenarios(t: Tier) -> Vec<Scenario> {
    vec![
        scenario("values", "5 digest types x 6 base values, any one byte set to any value: words, bytes, hex (both cases) and back", |c| {
            each!(c, values, &all_deltas())
        }),
        scenario("equality", "5 digest types: every pair of values differing in at most two bytes (by 01, 80, ff) from 2 bases", |c| {
            each!(c, unequal)
        }),
        scenario("hex-lengths", "5 digest types: texts of every length 0..=2N+66 of six digits, with and without a bad last character", |c| {
            each!(c, text_lengths)
        }),
        scenario("hex-characters", "5 digest types: every byte value at every position of an otherwise valid text", |c| {
            each!(c, text_chars)
        }),
        scenario("hex-edges", "5 digest types: prefixes (none, 0x, blank, 0X, +, 00, BOM) x suffixes x cut texts, mixed case", |c| {
            each!(c, text_edges)
        }),
        scenario("hash-outputs", format!("digests of the messages of length 0..={} converted in every way", t.pick(200, 2000)), move |c| {
            let m = bytes(3, c.range(0, t.pick(200, 2000)));
            match c.choose(5) {
                0 => { let b = c.must(|| "sha1".into(), || sha::sha1(&m).into())?; d160::convert(c, b) }
                1 => { let b = c.must(|| "sha224".into(), || sha::sha224(&m).into())?; d224::convert(c, b) }
                2 => { let b = c.must(|| "sha256".into(), || sha::sha256(&m).into())?; d256::convert(c, b) }
                3 => { let b = c.must(|| "sha384".into(), || sha::sha384(&m).into())?; d384::convert(c, b) }
                _ => { let b = c.must(|| "sha512".into(), || sha::sha512(&m).into())?; d512::convert(c, b) }
            }
        }),
    ]
}
