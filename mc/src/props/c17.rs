//! ASN.1/DER parsing.
use crate::engine::*;
use crate::refs::der::{self, Tree, Verdict, len_bytes, tlv};
use crate::util::*;
use cryptography::pem::asn1::Asn1;

pub use super::ops::tree;

fn judge(c: &mut Ctx, b: &[u8], how: &dyn Fn() -> String) -> R {
    let what = || format!("DER bytes {} ({})", hx(b), how());
    let got = c.must(what, || Asn1::try_from(b))?;
    let v = der::parse(b);
    let cut = |t: &Tree| {
        let mut s = format!("{t:?}");
        s.truncate(300);
        s
    };
    match (got, &v) {
        (Err(_), Verdict::Malformed(w)) => c.outcome(w),
        (Err(_), Verdict::Lenient(_)) => c.outcome("lenient error"),
        (Ok(a), Verdict::Tree(t) | Verdict::Lenient(t)) => {
            if tree(&a) != *t {
                return Err(format!("{} was read as {}, expected {}", what(), cut(&tree(&a)), cut(t)));
            }
            c.outcome(t);
        }
        (Ok(a), Verdict::Malformed(w)) => return Err(format!("{} is malformed ({w}) but was read as {}", what(), cut(&tree(&a)))),
        (Err(e), Verdict::Tree(t)) => return Err(format!("{} was refused ({e}), it is {}", what(), cut(t))),
    }
    c.sample(|| format!("{} -> {v:?}", hx(b)));
    Ok(())
}

const CONTENT: &[&[u8]] = &[&[0], &[0x7f], &[0x80, 1], &[0x30, 3, 2], &[5, 0], &[0xff, 0xff, 0xff]];

/// any tree with at most `budget` nodes
fn gen_tree(c: &mut Ctx, budget: &mut usize, depth: usize) -> Tree {
    *budget -= 1;
    let k = c.choose(if depth > 0 { 6 } else { 5 });
    match k {
        0 => Tree::Null,
        1 => Tree::Int(c.pick(CONTENT).to_vec()),
        2 => match c.choose(CONTENT.len() + 1) {
            0 => Tree::Octets(vec![]),
            i => Tree::Octets(CONTENT[i - 1].to_vec()),
        },
        3 => match c.choose(4) {
            0 => Tree::Bits(vec![], 0),
            1 => Tree::Bits(vec![0xa0], 5),
            2 => Tree::Bits(vec![0x30, 0], 0),
            _ => Tree::Bits(vec![1, 0x80], 7),
        },
        4 => Tree::Oid(c.pick(&[&[42u8, 134, 72][..], &[1]]).to_vec()),
        _ => {
            let mut v = vec![];
            while *budget > 0 && c.flag() {
                v.push(gen_tree(c, budget, depth - 1));
            }
            Tree::Seq(v)
        }
    }
}

fn nest(t: Tree, depth: usize) -> Vec<u8> {
    let mut b = t.der();
    let mut rev: Vec<u8> = b.drain(..).rev().collect();
    // built backwards, so that it stays linear
    for _ in 0..depth {
        let mut l = len_bytes(rev.len());
        l.reverse();
        rev.extend(l);
        rev.push(0x30);
    }
    rev.reverse();
    rev
}

pub fn scenarios(t: Tier) -> Vec<Scenario> {
    let small: Vec<u8> = vec![0x30, 0x02, 0x03, 0x05, 0x00, 0x01, 0x80, 0x81];
    let (nsmall, lsmall) = (small.len(), t.pick(7, 8));
    let nodes = t.pick(4, 5);
    let tags: &'static [u8] = &[2, 3, 4, 5, 6, 0x30];
    vec![
        scenario("two-byte-contents", "every primitive tag with every content of 2 bytes, alone and between two siblings in a sequence", |c| {
            let tag = *c.pick(&[2u8, 3, 4, 5, 6]);
            let wrapped = c.flag();
            let b = tlv(tag, &[c.choose(256) as u8, c.choose(256) as u8]);
            let b = if wrapped { tlv(0x30, &[&[5, 0][..], &b, &[4, 1, 9]].concat()) } else { b };
            judge(c, &b, &|| "two bytes of content".into())
        }),
        scenario("content-alphabet", format!("every primitive tag with every content of 3..={} bytes over {{00, 01, 07, 30, 7f, 80, ff}}, alone and in a sequence", t.pick(5, 6)), move |c| {
            let tag = *c.pick(&[2u8, 3, 4, 6]);
            let wrapped = c.flag();
            let n = c.range(3, t.pick(5, 6));
            let b: Vec<u8> = (0..n).map(|_| *c.pick(&[0u8, 1, 7, 0x30, 0x7f, 0x80, 0xff])).collect();
            let b = tlv(tag, &b);
            let b = if wrapped { tlv(0x30, &[&b[..], &b].concat()) } else { b };
            judge(c, &b, &|| "content over an alphabet".into())
        }),
        scenario("one-byte-contents", "every primitive tag with contents of 3..=6, 20, 33, 127..=130, 255..=258 and 1000 bytes (zeros, ones or mixed), any one byte one of {00, 01, 7f, 80, ff}", |c| {
            let tag = *c.pick(&[2u8, 3, 4, 6]);
            let n = *c.pick(&[3usize, 4, 5, 6, 20, 33, 127, 128, 129, 130, 255, 256, 257, 258, 1000]);
            let mut b = bytes(*c.pick(&[0, 1, 3]), n);
            if tag == 3 {
                b[0] = 0;
            }
            let i = c.choose(n);
            b[i] = *c.pick(&[0u8, 1, 0x7f, 0x80, 0xff]);
            judge(c, &tlv(tag, &b), &|| "one byte set".into())
        }),
        scenario("all-short-strings", format!("every byte string of length 0..=3"), {
            let m = 3;
            move |c| {
                let n = c.range(0, m);
                let b: Vec<u8> = (0..n).map(|_| c.choose(256) as u8).collect();
                judge(c, &b, &|| "any bytes".into())
            }
        }),
        scenario("tag-length-strings", "every tag byte, every first length byte, followed by 0..=3 bytes from {0, 1, 2, 5, 0x30, 0x80, 0xff}", |c| {
            let mut b = vec![c.choose(256) as u8, c.choose(256) as u8];
            let n = c.range(0, 2);
            for _ in 0..n {
                b.push(*c.pick(&[0, 1, 2, 5, 0x30, 0x80, 0xff]));
            }
            judge(c, &b, &|| "any tag and length".into())
        }),
        scenario("small-alphabet", format!("every byte string of length 0..={lsmall} over {nsmall} bytes {small:02x?}"), move |c| {
            let n = c.range(0, lsmall);
            let b: Vec<u8> = (0..n).map(|_| *c.pick(&small)).collect();
            judge(c, &b, &|| "any bytes of the alphabet".into())
        }),
        scenario("trees", format!("every tree of up to {nodes} nodes nested up to 3 deep with a few contents per tag: exact; with one byte appended, one cut, and the outer length changed by one"), move |c| {
            let mut budget = nodes;
            let tr = gen_tree(c, &mut budget, 3);
            let d = tr.der();
            judge(c, &d, &|| format!("DER of {tr:?}"))?;
            let mut e = d.clone();
            e.push(0);
            judge(c, &e, &|| format!("DER of {tr:?} and a zero byte"))?;
            e = d.clone();
            e.extend([5, 0]);
            judge(c, &e, &|| format!("DER of {tr:?} and a NULL"))?;
            judge(c, &d[..d.len() - 1], &|| format!("DER of {tr:?} without its last byte"))?;
            for delta in [1u8, 0xff] {
                e = d.clone();
                e[1] = e[1].wrapping_add(delta);
                judge(c, &e, &|| format!("DER of {tr:?} with another length"))?;
            }
            Ok(())
        }),
        scenario("content-lengths", format!("every content length 0..={} and 65535..=65540, 70000, 16777216+3 for each primitive tag, also inside a sequence and followed by a sibling", t.pick(300, 1200)), {
            let m = t.pick(300usize, 1200);
            move |c| {
                let tag = *c.pick(tags);
                let shape = c.choose(3);
                let i = c.choose(m + 9);
                let n = if i <= m { i } else { [65535, 65536, 65537, 65538, 65539, 65540, 70000, 16777219][i - m - 1] };
                let mut content = bytes(3, n);
                match tag {
                    3 if n > 0 => content[0] = 0,
                    5 => content.clear(),
                    0x30 => {
                        // n bytes of NULLs and integers
                        content = [5u8, 0].repeat(n / 2);
                        if n % 2 == 1 && n >= 3 {
                            content.truncate(content.len() - 2);
                            content.extend([2, 1, 9]);
                        }
                    }
                    _ => {}
                }
                let e = tlv(tag, &content);
                let b = match shape {
                    0 => e,
                    1 => tlv(0x30, &e),
                    _ => {
                        let mut v = tlv(2, &[1]);
                        v.extend(e);
                        v.extend([4, 1, 0xaa]);
                        tlv(0x30, &v)
                    }
                };
                judge(c, &b, &|| format!("tag {tag:02x}, {n} content bytes, shape {shape}"))
            }
        }),
        scenario("length-byte-counts", "every number of length bytes 0..=127, length value 0, 1, right, right+1, 255 or 2^64 + right, padded on the left with zeros or 0xff or truncated, all tags, alone or in a sequence", |c| {
            let k = c.choose(128);
            let tag = *c.pick(tags);
            let mut content = vec![0u8, 3, 0];
            if tag == 0x30 {
                content = vec![2, 1, 0];
            }
            if tag == 5 {
                content = vec![];
            }
            let right = content.len() as u128;
            let val: u128 = *c.pick(&[0, 1, right, right + 1, 255, (1 << 64) + right, (1 << 32) + right, (1 << 120) + right]);
            let fill = *c.pick(&[0u8, 0xff]);
            let mut lb: Vec<u8> = val.to_be_bytes().to_vec();
            while lb.len() < k {
                lb.insert(0, fill);
            }
            let lb = lb[lb.len() - k..].to_vec();
            let mut e = vec![tag, 0x80 | k as u8];
            e.extend(&lb);
            match c.choose(4) {
                0 => e.extend(&content),
                1 => {
                    e.extend(&content);
                    e = tlv(0x30, &e);
                }
                2 => e.truncate(2 + k / 2), // length bytes missing
                _ => e = tlv(0x30, &e[..2 + k.saturating_sub(1)]),
            }
            judge(c, &e, &|| format!("{k} length bytes"))
        }),
        scenario("inner-beyond-outer", "sequences whose inner element states every length 0..=20 while the outer one states every length 0..=20, 12 bytes following, short and long forms", |c| {
            let outer = c.choose(21) as u8;
            let inner = c.choose(21) as u8;
            let tag = *c.pick(tags);
            let fill = *c.pick(&[0u8, 5, 0x30]);
            let forms = c.choose(4);
            let mut b = vec![0x30];
            if forms & 1 == 1 {
                b.push(0x81);
            }
            b.push(outer);
            b.push(tag);
            if forms & 2 == 2 {
                b.push(0x81);
            }
            b.push(inner);
            b.extend([fill; 12]);
            if fill == 0x30 {
                for (i, x) in b.iter_mut().rev().enumerate().take(12) {
                    *x = [0, 0x30][i % 2];
                }
            }
            judge(c, &b, &|| "inner and outer lengths".into())
        }),
        scenario("faults-at-any-size", format!("a sequence, 1..=3 levels below the top with siblings after it at every level, holding fillers of 0..={} and 1000, 32768, 65530..=65540 bytes (NULLs, one octet string or a sequence) and one of 16 elements (valid, reaching 1..=6 bytes beyond the sequence, cut, with an unknown tag, an empty bit string, ...) before, between or after them", t.pick(300, 520)), {
            let m = t.pick(300usize, 520);
            move |c| {
                let i = c.choose(m + 14);
                let n = if i <= m { i } else { [1000, 32768, 65530, 65531, 65532, 65533, 65534, 65535, 65536, 65537, 65538, 65539, 65540][i - m - 1] };
                let filler = match c.choose(3) {
                    0 => [5u8, 0].repeat(n / 2),
                    1 => tlv(4, &bytes(3, n)),
                    _ => tlv(0x30, &[5u8, 0].repeat(n / 2)),
                };
                let fault: &[u8] = *c.pick(&[
                    &[2u8, 1, 7][..],
                    &[4, 1],
                    &[4, 2],
                    &[2, 3, 9],
                    &[6, 4],
                    &[0x30, 2],
                    &[0x30, 4, 5, 0],
                    &[5, 2],
                    &[3, 6, 0],
                    &[4, 0x81, 2],
                    &[4, 0x82, 0, 2],
                    &[4],
                    &[4, 0x82, 0],
                    &[3, 0],
                    &[0x1f, 0],
                    &[0x31, 2, 5, 0],
                ]);
                let content = match c.choose(3) {
                    0 => [&filler[..], fault].concat(),
                    1 => [fault, &filler].concat(),
                    _ => [&filler[..], fault, &filler].concat(),
                };
                let mut b = tlv(0x30, &content);
                let levels = c.range(1, 3);
                let after: &[u8] = *c.pick(&[&[5u8, 0, 5, 0, 5, 0][..], &[], &[4, 1, 4]]);
                for _ in 0..levels {
                    b.extend(after);
                    b = tlv(0x30, &b);
                }
                judge(c, &b, &|| format!("fillers of {n} bytes, element {}", hx(fault)))
            }
        }),
        scenario("sequence-tails", "a sequence of 0..=8, 20 and 200 elements (NULLs or INTEGERs) before, after or around every string of 1 and 2 bytes, alone or followed by a sibling", |c| {
            let n = *c.pick(&[0usize, 1, 2, 3, 4, 5, 6, 7, 8, 20, 200]);
            let x = c.choose(65536 + 256);
            let s = if x < 65536 { (x as u16).to_be_bytes().to_vec() } else { vec![(x - 65536) as u8] };
            let how = c.choose(if n == 0 { 1 } else if n > 8 { 2 } else { 4 });
            let e: Vec<u8> = if how % 2 == 0 { [5u8, 0].repeat(n) } else { [2u8, 1, 5].repeat(n) };
            let mut b = match how {
                0 => tlv(0x30, &[&e[..], &s].concat()),
                1 => tlv(0x30, &[&e[..], &s].concat()),
                2 => tlv(0x30, &[&s[..], &e].concat()),
                _ => tlv(0x30, &[&e[..], &s, &e].concat()),
            };
            if how == 1 {
                b.extend([5, 0]);
                b = tlv(0x30, &b);
            }
            judge(c, &b, &|| format!("{n} elements and {}", hx(&s)))
        }),
        scenario("mutated-documents", format!("two key-like documents, every prefix, every byte replaced by {}", t.pick("every value", "every value, and every pair of bytes by 9 values each")), {
            let two = t.thorough();
            move |c| {
                let doc = Tree::Seq(vec![
                    Tree::Int(vec![0]),
                    Tree::Seq(vec![Tree::Oid(vec![42, 134, 72]), Tree::Null]),
                    Tree::Octets(Tree::Seq(vec![Tree::Int(vec![1, 2]), Tree::Int(vec![3])]).der()),
                    Tree::Bits(vec![0xfe], 1),
                ]);
                let mut long = doc.der();
                if c.flag() {
                    long = Tree::Seq(vec![doc, Tree::Octets(bytes(2, 200)), Tree::Null]).der();
                    if two {
                        long.truncate(40);
                    }
                }
                let b = long;
                match c.choose(if two { 3 } else { 2 }) {
                    0 => {
                        let n = c.choose(b.len() + 1);
                        judge(c, &b[..n], &|| "prefix".into())
                    }
                    1 => {
                        let mut b = b;
                        let i = c.choose(b.len());
                        b[i] = c.choose(256) as u8;
                        judge(c, &b, &|| format!("byte {i} replaced"))
                    }
                    _ => {
                        let mut b = b;
                        perturb(c, &mut b, 2, &[1, 2, 3, 4, 0x10, 0x30, 0x7f, 0x80, 0xff]);
                        judge(c, &b, &|| "two bytes changed".into())
                    }
                }
            }
        }),
        scenario("nesting-promised", "sequences nested 1..=32 deep around 4 leaves, with and without siblings at every level: exact", |c| {
            let d = c.range(1, 32);
            let leaf = c.pick(&[Tree::Null, Tree::Int(vec![7]), Tree::Seq(vec![]), Tree::Octets(vec![3; 200])]).clone();
            let sib = c.choose(3);
            let mut tr = leaf;
            let levels = if matches!(tr, Tree::Seq(_)) { d - 1 } else { d };
            for _ in 0..levels {
                tr = Tree::Seq(match sib {
                    0 => vec![tr],
                    1 => vec![Tree::Null, tr],
                    _ => vec![tr, Tree::Int(vec![1])],
                });
            }
            let b = tr.der();
            let what = || format!("{d} nested sequences, siblings {sib}");
            let got = c.must(what, || Asn1::try_from(b.as_slice()))?;
            match got {
                Ok(a) if tree(&a) == tr => {}
                Ok(_) => return Err(format!("{}: another tree", what())),
                Err(e) => return Err(format!("{} was refused: {e}", what())),
            }
            c.outcome(&b);
            Ok(())
        }),
        scenario("nesting-any-depth", "33..=80, 100, 127..=130, 255..=258, 1000, 10000, 50000 and 300000 nested sequences, complete, without the innermost element, with a broken innermost element, or as a bare run of 0x30 0x80 / 0x30 0x84 headers, parsed on a thread with the default 2 MiB stack: returns", |c| {
            let mut ds: Vec<usize> = (33..=80).collect();
            ds.extend([100, 127, 128, 129, 130, 255, 256, 257, 258, 1000, 10_000, 50_000, 300_000]);
            let d = *c.pick(&ds);
            let kind = c.choose(5);
            let b = match kind {
                0 => nest(Tree::Null, d),
                1 => nest(Tree::Seq(vec![]), d),
                2 => {
                    let mut b = nest(Tree::Null, d);
                    let n = b.len();
                    b[n - 2] = 0x1f;
                    b
                }
                3 => [0x30u8, 0x80].repeat(d),
                _ => {
                    let b = nest(Tree::Null, d);
                    b[..b.len() * 3 / 4].to_vec()
                }
            };
            c.outcome(&(d, kind));
            let r = c.call(|| {
                std::thread::Builder::new()
                    .stack_size(2 << 20)
                    .spawn(move || Asn1::try_from(b.as_slice()).is_ok())
                    .unwrap()
                    .join()
            });
            match r {
                Ok(Ok(ok)) => {
                    if ok && (kind == 2 || kind == 4) {
                        return Err(format!("{d} nested sequences, malformed (kind {kind}), were accepted"));
                    }
                    Ok(())
                }
                _ => Err(format!("parsing {d} nested sequences (kind {kind}) panicked")),
            }
        })
        .limit(60),
        scenario("wide", "sequences of 0..=300, 1000 and 20000 elements, and 100 sequences of 100", |c| {
            let mut ns: Vec<usize> = (0..=300).collect();
            ns.extend([1000, 20_000, 65_535, 65_536, 65_537, 100_100]);
            let n = *c.pick(&ns);
            let el = c.pick(&[Tree::Null, Tree::Int(vec![5]), Tree::Seq(vec![])]).clone();
            let tr = if n == 100_100 { Tree::Seq(vec![Tree::Seq(vec![el; 100]); 100]) } else { Tree::Seq(vec![el; n]) };
            judge(c, &tr.der(), &|| format!("{n} elements"))
        }),
    ]
}
