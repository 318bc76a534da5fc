//! PEM acceptance: exactly one well-formed block.
use crate::engine::*;
use crate::refs::text;
use cryptography::pem::PEM;
use std::str::FromStr;

fn judge(c: &mut Ctx, t: &str) -> R {
    let what = || format!("PEM text {t:?}");
    let got = c.must(what, || PEM::from_str(t))?;
    let want = text::pem(t);
    c.outcome(&want);
    match (got, &want) {
        (Err(_), None) => Ok(()),
        (Ok(p), Some((l, d))) if p.label == *l && p.data == *d => Ok(()),
        (Ok(p), _) => Err(format!("{} was read as label {:?} payload {}, expected {want:?}", what(), p.label, hx(&p.data))),
        (Err(e), _) => Err(format!("{} was refused ({e}), expected {want:?}", what())),
    }
}

const LINES: &[&str] = &[
    "-----BEGIN A-----",
    "-----BEGIN B-----",
    "-----END A-----",
    "-----END B-----",
    "QUJD",
    "QQ==",
    "",
    "  -----BEGIN A-----\t",
    " -----END A----- ",
    "-----BEGIN A----",
    "-----END A",
    "junk!",
    "Q",
    "x -----END A-----",
    "-----BEGIN A----- x",
    "Proc-Type: 4,ENCRYPTED",
    "# QUJD",
    "=QUJD",
    "-----begin A-----",
    "-----BEGIN A -----",
    "-----END  A-----",
    "-----END a-----",
    "----------",
];

/// Texts in which "-----BEGIN" or "-----END" stands alone are neither clearly markers nor clearly not.
fn open_case(s: &str) -> bool {
    s.lines().any(|l| matches!(l.trim(), "-----BEGIN" | "-----END")) || s.contains('\r')
}

/// One change of a text: a character removed, doubled, or replaced.
fn edit(c: &mut Ctx, s: &[char], with: &[char]) -> Vec<char> {
    let i = c.choose(s.len());
    let mut o = s.to_vec();
    match c.choose(with.len() + 2) {
        0 => {
            o.remove(i);
        }
        1 => o.insert(i, s[i]),
        k => o[i] = with[k - 2],
    }
    o
}

pub fn scenarios(t: Tier) -> Vec<Scenario> {
    let nlines = t.pick(LINES.len(), LINES.len());
    let depth = t.pick(5, 6);
    let deep = t.pick(8, 9);
    let b64len = t.pick(6, 7);
    vec![
        scenario("line-sequences", format!("every sequence of up to {depth} lines from {nlines} kinds (markers with two labels, indented, unterminated or with text around them, Base64 fragments, blank and junk lines)"), move |c| {
            let n = c.range(0, depth);
            let mut s = String::new();
            for i in 0..n {
                if i > 0 {
                    s.push('\n');
                }
                s.push_str(c.pick(LINES));
            }
            c.sample(|| format!("{s:?}"));
            judge(c, &s)
        }),
        scenario("marker-sequences", format!("every sequence of up to {deep} lines from BEGIN A, END A, BEGIN B, END B, a full and a partial Base64 line"), move |c| {
            let n = c.range(0, deep);
            let mut s = String::new();
            for _ in 0..n {
                s.push_str(c.pick(&["-----BEGIN A-----", "-----END A-----", "-----BEGIN B-----", "-----END B-----", "QUJD", "QQ"]));
                s.push('\n');
            }
            judge(c, &s)
        }),
        scenario("base64-bodies", format!("every body of up to {b64len} characters from {{A, Q, z, 9, /, +, =, -, _, space, newline, é}}"), move |c| {
            let n = c.range(0, b64len);
            let mut b = String::new();
            for _ in 0..n {
                b.push(*c.pick(&['A', 'Q', 'z', '9', '/', '+', '=', '-', '_', ' ', '\n', 'é']));
            }
            judge(c, &format!("-----BEGIN A-----\n{b}\n-----END A-----"))
        }),
        scenario("base64-padding", "bodies of 5..=12 characters from {A, =}, on one line or split after any character", |c| {
            let n = c.range(5, 12);
            let mut b = String::new();
            let mut split = false;
            for i in 0..n {
                b.push(*c.pick(&['A', '=']));
                if !split && i + 1 < n && c.flag() {
                    b.push('\n');
                    split = true;
                }
            }
            judge(c, &format!("-----BEGIN A-----\n{b}\n-----END A-----"))
        }),
        scenario("every-character", "every character up to U+FFFF and some beyond as one of the four characters of a Base64 group, as a line of its own before, inside and after the block, and next to the markers", |c| {
            let hi = c.choose(257) as u32;
            let x = if hi < 256 { hi * 256 + c.choose(256) as u32 } else { *c.pick(&[0x1_0000, 0x1_f511, 0x2_f800, 0xe_0001, 0x10_ffff]) };
            let Some(x) = char::from_u32(x) else { return Ok(()) };
            // a carriage return inside a line is left open
            if x == '\r' {
                return Ok(());
            }
            let s = match c.choose(12) {
                0 => format!("-----BEGIN A-----\n{x}QQQ\n-----END A-----"),
                1 => format!("-----BEGIN A-----\nQ{x}QQ\n-----END A-----"),
                2 => format!("-----BEGIN A-----\nQQ{x}Q\n-----END A-----"),
                3 => format!("-----BEGIN A-----\nQQQ{x}\n-----END A-----"),
                4 => format!("{x}\n-----BEGIN A-----\nQUJD\n-----END A-----"),
                5 => format!("-----BEGIN A-----\nQUJD\n{x}\n-----END A-----"),
                6 => format!("-----BEGIN A-----\nQUJD\n-----END A-----\n{x}"),
                7 => format!("{x}-----BEGIN A-----\nQUJD\n-----END A-----"),
                8 => format!("-----BEGIN A-----{x}\nQUJD\n-----END A-----"),
                9 => format!("-----BEGIN A-----\nQUJD\n{x}-----END A-----"),
                10 => format!("-----BEGIN A-----\nQUJD\n-----END A-----{x}"),
                _ => format!("-----BEGIN A{x}-----\nQUJD\n-----END A-----"),
            };
            judge(c, &s)
        }),
        scenario("last-group", "0..=40, 100 and 1000 groups before every last group XY==, every XYZ= with X of 4 and every XYZW with X and Y of 4 values; on one line or in lines of 64", |c| {
            let mut ns: Vec<usize> = (0..=40).collect();
            ns.extend([100, 1000]);
            let n = *c.pick(&ns);
            const D: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
            let any = |c: &mut Ctx| D[c.choose(64)] as char;
            let some = |c: &mut Ctx| *c.pick(&['A', 'Q', '9', '/']);
            let last = match c.choose(3) {
                0 => format!("{}{}==", some(c), any(c)),
                1 => format!("{}{}{}=", some(c), some(c), any(c)),
                _ => format!("{}{}{}{}", some(c), some(c), any(c), some(c)),
            };
            let body = format!("{}{last}", "QUJD".repeat(n));
            let w = if c.flag() { 64 } else { usize::MAX };
            let lines: Vec<&str> = body.as_bytes().chunks(w).map(|x| std::str::from_utf8(x).unwrap()).collect();
            judge(c, &format!("-----BEGIN A-----\n{}\n-----END A-----", lines.join("\n")))
        }),
        scenario("bad-character-anywhere", "bodies of 4, 8, 64, 68, 128, 132, 260 and 1028 characters, each character replaced by each of 24 others or followed by one of them", |c| {
            let n = *c.pick(&[4usize, 8, 64, 68, 128, 132, 260, 1028]);
            let i = c.choose(n);
            let x = *c.pick(&['=', '-', '_', ' ', '\t', '!', '#', ':', ';', ',', '.', '*', '"', '>', '@', '[', '`', '{', '\0', 'é', 'Ａ', '\u{200b}', '\u{feff}', 'A']);
            let mut body: Vec<char> = "QUJD".chars().cycle().take(n).collect();
            if c.flag() {
                body[i] = x;
            } else {
                body.insert(i + 1, x);
            }
            let mut text = String::from("-----BEGIN A-----\n");
            for l in body.chunks(64) {
                text.extend(l);
                text.push('\n');
            }
            judge(c, &format!("{text}-----END A-----"))
        }),
        scenario("many-lines", "0..=300, 65535, 65536 and 70000 lines of 7 kinds before, inside and after the block, followed by a BEGIN line, an END line, a bad data line or nothing", |c| {
            let mut ns: Vec<usize> = (0..=300).collect();
            ns.extend([65_535, 65_536, 70_000]);
            let n = *c.pick(&ns);
            let kind = *c.pick(&["", "x", "QUJD", "junk line", "  ", "----", "-----end A-----"]);
            let many = format!("{kind}\n").repeat(n);
            let extra = *c.pick(&["", "-----BEGIN A-----\n", "-----END A-----\n", "Q\n"]);
            let s = match c.choose(3) {
                0 => format!("{many}{extra}-----BEGIN A-----\nQUJD\n-----END A-----\n"),
                1 => format!("-----BEGIN A-----\n{many}{extra}-----END A-----\n"),
                _ => format!("-----BEGIN A-----\nQUJD\n-----END A-----\n{many}{extra}"),
            };
            judge(c, &s)
        }),
        scenario("label-alphabet", "every pair of labels of up to 3 characters from {A, a, space, -} in the BEGIN and END lines", |c| {
            let mut label = || {
                let n = c.range(0, 3);
                (0..n).map(|_| *c.pick(&['A', 'a', ' ', '-'])).collect::<String>()
            };
            let (a, b) = (label(), label());
            judge(c, &format!("-----BEGIN {a}-----\nQUJD\n-----END {b}-----"))
        }),
        scenario("long-labels", "labels of 1..=300 and 2^k + {-1, 0, 1} characters, k = 9..=17, the END line's equal, longer or shorter by one, or different in the first, middle or last character", |c| {
            let mut ns: Vec<usize> = (1..=300).collect();
            ns.extend((9..=17).flat_map(|k| (1usize << k) - 1..=(1 << k) + 1));
            let n = *c.pick(&ns);
            let a = "K".repeat(n);
            let b = match c.choose(6) {
                0 => a.clone(),
                1 => format!("{a}K"),
                2 => a[1..].to_string(),
                k => {
                    let mut b = a.clone().into_bytes();
                    b[[0, n / 2, n - 1][k - 3]] = b'k';
                    String::from_utf8(b).unwrap()
                }
            };
            judge(c, &format!("-----BEGIN {a}-----\nQUJD\n-----END {b}-----"))
        }),
        scenario("long-characters-anywhere", "after 0..=140 and 2^k + {-2..=2} characters (k = 8..=12) of a line before, inside or after the block, or of the label (in one marker or both): one of 9 characters of several bytes, then 0, 1, 2, 3, 70 or 300 characters", |c| {
            let role = c.choose(6);
            let mut ns: Vec<usize> = (0..=140).collect();
            ns.extend((8..=12).flat_map(|k| (1usize << k) - 2..=(1 << k) + 2));
            let n = *c.pick(&ns);
            let ch = *c.pick(&['é', 'ß', '€', '\u{feff}', '\u{3000}', '\u{2028}', '𝐀', '😀', '\u{85}']);
            let m = *c.pick(&[0usize, 1, 2, 3, 70, 300]);
            let l = format!("{}{ch}{}", "A".repeat(n), "A".repeat(m));
            judge(c, &match role {
                0 => format!("{l}\n-----BEGIN A-----\nQUJD\n-----END A-----"),
                1 => format!("-----BEGIN A-----\n{l}\n-----END A-----"),
                2 => format!("-----BEGIN A-----\nQUJD\n{l}\nQUJD\n-----END A-----\n"),
                3 => format!("-----BEGIN A-----\nQUJD\n-----END A-----\n{l}"),
                4 => format!("-----BEGIN {l}-----\nQUJD\n-----END {l}-----\n"),
                _ => format!("-----BEGIN {l}-----\nQUJD\n-----END {}-----\n", "A".repeat(n + 2 + m)),
            })
        }),
        scenario("label-mismatch", "every pair of labels from 16 (case, spaces, prefixes of each other, empty) in the BEGIN and END lines", |c| {
            let ls = ["", "A", "a", "AB", "BA", "A B", "A  B", " A", "A ", "PRIVATE KEY", "RSA PRIVATE KEY", "PUBLIC KEY", "KEY", "é", "e", "-"];
            let a = *c.pick(&ls);
            let b = *c.pick(&ls);
            let body = *c.pick(&["", "QUJD\n", "QQ=\n"]);
            judge(c, &format!("-----BEGIN {a}-----\n{body}-----END {b}-----"))
        }),
        scenario("broken-markers", "two valid documents in which every single character is removed, doubled or replaced by each of 99 characters", |c| {
            let doc = *c.pick(&["pre\n-----BEGIN A B-----\nQUJDREVG\nR0g=\n-----END A B-----\npost", "-----BEGIN -----\n\n  QQ==  \n -----END ----- \n"]);
            let cs: Vec<char> = doc.chars().collect();
            let mut with: Vec<char> = (0x20u8..0x7f).map(|b| b as char).collect();
            with.extend(['\n', '\t', 'é', '\u{a0}']);
            let s: String = edit(c, &cs, &with).into_iter().collect();
            if open_case(&s) {
                return Ok(());
            }
            judge(c, &s)
        }),
        scenario("two-edits", format!("a short document in which every {} characters are removed, doubled or replaced by one of 7 others, one after the other", t.pick("two", "three")), move |c| {
            let mut s: Vec<char> = "-----BEGIN A-----\nQUI=\n-----END A-----".chars().collect();
            for _ in 0..t.pick(2, 3) {
                s = edit(c, &s, &['-', ' ', 'A', '=', '\n', 'N', 'Q']);
            }
            let s: String = s.into_iter().collect();
            if open_case(&s) {
                return Ok(());
            }
            judge(c, &s)
        }),
        scenario("truncated", "every prefix and every suffix of a document with two blocks, and every pair of a prefix and a suffix cut", |c| {
            let doc = "a\n-----BEGIN A-----\nQUJD\n-----END A-----\nb\n-----BEGIN B-----\nQUJD\n-----END B-----\n";
            let i = c.choose(doc.len() + 1);
            let j = c.range(i, doc.len());
            let s = if c.flag() { doc[i..j].to_string() } else { format!("{}{}", &doc[..i], &doc[j..]) };
            if s.lines().any(|l| matches!(l.trim(), "-----BEGIN" | "-----END")) {
                return Ok(());
            }
            judge(c, &s)
        }),
    ]
}
