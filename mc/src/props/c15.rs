//! PEM rendering and its inverse.
use crate::engine::*;
use crate::refs::text::b64;
use crate::util::*;
use cryptography::pem::PEM;
use std::str::FromStr;

fn labels() -> Vec<String> {
    let mut v: Vec<String> = ["", "A", "CERTIFICATE", "PRIVATE KEY", "RSA PRIVATE KEY", "a b  c", " leading", "trailing ", " ", "-", "--", "-----", "A-----", "-----A", "BEGIN", "END X", "-----BEGIN A-----", "-----END A-----", "X-----END X", "å∂ß", "鍵", "tab\there", "1234567890123456789012345678901234567890123456789012345678901234567890", "%s {} {0}", "\"quoted\"", "\u{a0}", "\0"]
        .iter()
        .map(|s| s.to_string())
        .collect();
    for b in 0x20u8..0x7f {
        v.push((b as char).to_string());
    }
    v
}

fn payload(i: usize, n: usize) -> Vec<u8> {
    bytes(i % PATTERNS, n)
}

/// The acceptable renderings: an empty payload has no body line or one empty one; a final
/// line end is a matter of taste.
fn rendering_ok(text: &str, label: &str, data: &[u8]) -> R {
    let body = b64(data);
    let mut lines: Vec<String> = vec![format!("-----BEGIN {label}-----")];
    for c in body.as_bytes().chunks(64) {
        lines.push(String::from_utf8(c.to_vec()).unwrap());
    }
    lines.push(format!("-----END {label}-----"));
    let mut want = vec![lines.join("\n")];
    if data.is_empty() {
        lines.insert(1, String::new());
        want.push(lines.join("\n"));
    }
    let t = text.strip_suffix('\n').unwrap_or(text);
    if want.iter().any(|w| w == t) {
        Ok(())
    } else {
        Err(format!("rendering of label {label:?}, payload {} is {text:?}, expected {:?}", hx(data), want[0]))
    }
}

fn parses_to(c: &mut Ctx, text: &str, label: &str, data: &[u8], how: &dyn Fn() -> String) -> R {
    let what = || format!("parsing {text:?} ({})", how());
    let p = c.must(what, || PEM::from_str(text))?;
    match p {
        Err(e) => Err(format!("{} failed: {e}", what())),
        Ok(p) if p.label != label => Err(format!("{}: label {:?} instead of {label:?}", what(), p.label)),
        Ok(p) => eq_bytes(&p.data, data, || format!("{}: payload", what())),
    }
}

fn render(c: &mut Ctx, label: &str, data: &[u8]) -> Result<String, String> {
    let pem = PEM { label: label.to_string(), data: data.to_vec() };
    let t = c.must(|| format!("rendering label {label:?}, payload {}", hx(data)), || pem.to_string())?;
    rendering_ok(&t, label, data)?;
    c.outcome(&t);
    Ok(t)
}

/// what the text is put into
fn dress(c: &mut Ctx, label: &str, data: &[u8], width: usize) -> String {
    let body = b64(data);
    let indent = *c.pick(&["", " ", "\t", "        "]);
    let trail = *c.pick(&["", " ", "\t \t"]);
    let nl = *c.pick(&["\n", "\r\n"]);
    let before: &[&str] = c.pick(&[&[][..], &["unrelated"], &["", "Bag Attributes", "    friendlyName: x"], &["QUJD", "===="], &["-----begin A-----", "----BEGIN A----"]]);
    let after: &[&str] = c.pick(&[&[][..], &["unrelated"], &["", "QUJD", "!"]]);
    let blank = c.flag();
    let mut lines: Vec<String> = before.iter().map(|s| s.to_string()).collect();
    lines.push(format!("-----BEGIN {label}-----"));
    for (i, ch) in body.as_bytes().chunks(width).enumerate() {
        if blank && i % 2 == 0 {
            lines.push(String::new());
        }
        lines.push(String::from_utf8(ch.to_vec()).unwrap());
    }
    lines.push(format!("-----END {label}-----"));
    lines.extend(after.iter().map(|s| s.to_string()));
    let mut t: String = lines.iter().map(|l| format!("{indent}{l}{trail}")).collect::<Vec<_>>().join(nl);
    if c.flag() {
        t.push_str(nl);
    }
    t
}

pub fn scenarios(t: Tier) -> Vec<Scenario> {
    let maxlen = t.pick(3000, 12_000);
    vec![
        scenario("lengths", format!("every payload length 0..={maxlen} with {PATTERNS} contents under 3 labels, rendered and parsed back"), move |c| {
            let n = c.range(0, maxlen);
            let p = c.choose(PATTERNS);
            let label = *c.pick(&["PRIVATE KEY", "X", ""]);
            let data = bytes(p, n);
            let text = render(c, label, &data)?;
            c.sample(|| format!("{n} bytes -> {text:?}"));
            parses_to(c, &text, label, &data, &|| "as rendered".into())
        }),
        scenario("long-payloads", "payloads of 2^k + {-2..=2} bytes, k = 11..=21, of 48 * 2^k + {-1, 0, 1} bytes (2^k full lines), k = 6..=16, and of 4 MiB, 6 contents up to 70000 bytes", |c| {
            let mut ns: Vec<usize> = (11..=21).flat_map(|k| (1usize << k) - 2..=(1 << k) + 2).collect();
            ns.extend((6..=16).flat_map(|k| (48usize << k) - 1..=(48 << k) + 1));
            ns.push(4 << 20);
            let n = *c.pick(&ns);
            let p = if n <= 70_000 { c.choose(PATTERNS) } else { 3 };
            let data = bytes(p, n);
            let text = render(c, "X", &data)?;
            parses_to(c, &text, "X", &data, &|| "as rendered".into())
        }),
        scenario("labels", format!("{} labels (spaces, dashes, marker look-alikes, other scripts, every printable ASCII character), {} payload lengths", labels().len(), t.pick(6, 60)), {
            let nl = t.pick(6, 60);
            move |c| {
                let ls = labels();
                let l = c.choose(ls.len());
                let n = [0usize, 1, 2, 3, 48, 49].get(c.choose(nl)).copied().unwrap_or_else(|| 50 + l);
                let data = payload(l, n);
                let text = render(c, &ls[l], &data)?;
                parses_to(c, &text, &ls[l], &data, &|| "as rendered".into())
            }
        }),
        scenario("label-lengths", "labels of every length 0..=300 and of 2^k + {-1, 0, 1} characters, k = 9..=17, of 5 kinds (a letter, a letter of two bytes, dashes, words, blanks), payloads of 0, 5 and 100 bytes", |c| {
            let mut ns: Vec<usize> = (0..=300).collect();
            ns.extend((9..=17).flat_map(|k| (1usize << k) - 1..=(1 << k) + 1));
            let n = *c.pick(&ns);
            let unit = *c.pick(&["A", "é", "-", "KEY ", "  "]);
            let label: String = unit.chars().cycle().take(n).collect();
            let data = payload(n, *c.pick(&[0usize, 5, 100]));
            let text = render(c, &label, &data)?;
            parses_to(c, &text, &label, &data, &|| "as rendered".into())
        }),
        scenario("label-characters", "every character up to U+FFFF and some beyond, but line breaks, alone, first, last and in the middle of a label", |c| {
            let hi = c.choose(257) as u32;
            let x = if hi < 256 { hi * 256 + c.choose(256) as u32 } else { *c.pick(&[0x1_0000, 0x1_f511, 0x2_f800, 0xe_0001, 0x10_ffff]) };
            let Some(x) = char::from_u32(x) else { return Ok(()) };
            if matches!(x, '\n' | '\r' | '\u{b}' | '\u{c}' | '\u{85}' | '\u{2028}' | '\u{2029}') {
                return Ok(());
            }
            let label = match c.choose(4) {
                0 => format!("{x}"),
                1 => format!("{x}KEY"),
                2 => format!("KEY{x}"),
                _ => format!("A{x}B"),
            };
            let data = payload(1, 4);
            let text = render(c, &label, &data)?;
            parses_to(c, &text, &label, &data, &|| "as rendered".into())
        }),
        scenario("byte-at-position", format!("payloads of {} lengths to 200, every byte of two contents set to every value", t.pick(12, 40)), {
            let ns: Vec<usize> = t.pick(vec![1, 2, 3, 4, 5, 6, 47, 48, 49, 96, 97, 200], (1..=38).chain([199, 200]).collect());
            move |c| {
                let n = *c.pick(&ns);
                let mut data = bytes(*c.pick(&[0, 3]), n);
                let i = c.choose(n);
                data[i] = c.choose(256) as u8;
                let text = render(c, "X", &data)?;
                parses_to(c, &text, "X", &data, &|| "as rendered".into())
            }
        }),
        scenario("every-split", format!("payloads of 0..={} bytes, their Base64 text cut into lines at every set of places, LF or CRLF", t.pick(12, 15)), {
            let m = t.pick(12, 15);
            move |c| {
                let n = c.range(0, m);
                let data = bytes(3, n);
                let nl = *c.pick(&["\n", "\r\n"]);
                let mut text = format!("-----BEGIN K-----{nl}");
                for (i, ch) in b64(&data).chars().enumerate() {
                    if i > 0 && c.flag() {
                        text.push_str(nl);
                    }
                    text.push(ch);
                }
                text.push_str(&format!("{nl}-----END K-----"));
                c.outcome(&text);
                parses_to(c, &text, "K", &data, &|| "cut into lines".into())
            }
        }),
        scenario("mixed-line-ends", "payloads of 3, 48 and 49 bytes in lines of 16 characters, each line end LF or CRLF, each line indented or not", |c| {
            let data = bytes(3, *c.pick(&[3usize, 48, 49]));
            let b = b64(&data);
            let mut lines = vec!["-----BEGIN K L-----".to_string()];
            lines.extend(b.as_bytes().chunks(16).map(|x| String::from_utf8(x.to_vec()).unwrap()));
            lines.push("-----END K L-----".to_string());
            let mut text = String::new();
            for l in lines {
                text.push_str(if c.flag() { " \t" } else { "" });
                text.push_str(&l);
                text.push_str(if c.flag() { "\r\n" } else { "\n" });
            }
            c.outcome(&text);
            parses_to(c, &text, "K L", &data, &|| "mixed line ends".into())
        }),
        scenario("surroundings", "0..=300, 1000, 4097, 65537 and 100000 unrelated lines before, after, or blank lines inside (before, between and after the data lines); single unrelated lines and indentations of up to 100000 characters", |c| {
            let mut ns: Vec<usize> = (0..=300).collect();
            ns.extend([1000, 4097, 65_535, 65_536, 65_537, 100_000]);
            let n = *c.pick(&ns);
            let data = bytes(3, 100);
            let b = b64(&data);
            let body: Vec<&str> = b.as_bytes().chunks(64).map(|x| std::str::from_utf8(x).unwrap()).collect();
            let doc = format!("-----BEGIN K-----\n{}\n-----END K-----\n", body.join("\n"));
            let text = match c.choose(9) {
                0 => format!("{}{doc}", "unrelated line\n".repeat(n)),
                1 => format!("{doc}{}", "unrelated line\n".repeat(n)),
                2 => format!("{}{doc}", "\r\n".repeat(n)),
                3 => doc.replacen("K-----\n", &format!("K-----\n{}", "\n".repeat(n)), 1),
                4 => format!("-----BEGIN K-----\n{}\n-----END K-----\n", body.join(&"\n".repeat(n + 1))),
                5 => doc.replace("-----END", &format!("{}-----END", "\n".repeat(n))),
                6 => format!("{}\n{doc}{}", "x".repeat(n), "y".repeat(n)),
                7 => doc.lines().map(|l| format!("{}{l}\n", " ".repeat(n))).collect(),
                _ => doc.lines().map(|l| format!("{l}{}\n", "\t".repeat(n))).collect(),
            };
            c.outcome(&text);
            parses_to(c, &text, "K", &data, &|| format!("{n} repetitions"))
        }),
        scenario("long-lines", "payloads of 0..=3000 bytes and 2^k + {-1, 0, 1}, k = 12..=20, on one line, in lines of 76, 1000 and 65536, or of 1 character (to 70000 bytes)", |c| {
            let mut ns: Vec<usize> = (0..=3000).collect();
            ns.extend((12..=20).flat_map(|k| (1usize << k) - 1..=(1 << k) + 1));
            let n = *c.pick(&ns);
            let w = *c.pick(&[usize::MAX, 76, 1000, 65_536, 1]);
            if w == 1 && n > 70_000 {
                return Ok(());
            }
            let data = bytes(5, n);
            let b = b64(&data);
            let body: Vec<&str> = b.as_bytes().chunks(w).map(|x| std::str::from_utf8(x).unwrap()).collect();
            let text = format!("-----BEGIN K-----\n{}\n-----END K-----", body.join("\n"));
            c.outcome(&text);
            parses_to(c, &text, "K", &data, &|| format!("wrapped at {w}"))
        }),
        scenario("label-pairs", format!("every label of up to {} characters from {{A, space, -, é, digit}}", t.pick(6, 8)), {
            let m = t.pick(6, 8);
            move |c| {
                let n = c.range(0, m);
                let mut label = String::new();
                for _ in 0..n {
                    label.push_str(c.pick(&["A", " ", "-", "é", "0"]));
                }
                let data = payload(n, 5);
                let text = render(c, &label, &data)?;
                parses_to(c, &text, &label, &data, &|| "as rendered".into())
            }
        }),
        scenario("contents", format!("every one-byte payload and every two-byte payload; every three-byte payload over {} values: all Base64 digits and paddings in all places", t.pick(64, 256)), move |c| {
            let kind = c.choose(3);
            let data = match kind {
                0 => vec![c.choose(256) as u8],
                1 => vec![c.choose(256) as u8, c.choose(256) as u8],
                _ => (0..3).map(|_| (c.choose(t.pick(64, 256)) as u8).wrapping_mul(t.pick(5, 1))).collect(),
            };
            let text = render(c, "X", &data)?;
            parses_to(c, &text, "X", &data, &|| "as rendered".into())
        }),
        scenario("re-dressed", format!("payload lengths 0, 1, 2, 3, 47, 48, 49, 100 re-wrapped at {} widths, all combinations of 4 indentations, 3 trailing blanks, LF/CRLF, 5 kinds of lines before, 3 after, blank lines inside, final line end", t.pick(6, 14)), {
            let widths: Vec<usize> = t.pick(vec![1, 4, 5, 63, 65, 76], vec![1, 2, 3, 4, 5, 7, 16, 60, 63, 64, 65, 76, 80, 1000]);
            move |c| {
                let n = *c.pick(&[0usize, 1, 2, 3, 47, 48, 49, 100]);
                let w = *c.pick(&widths);
                let data = bytes(3, n);
                let text = dress(c, "A B", &data, w);
                c.outcome(&text);
                c.sample(|| format!("{text:?}"));
                parses_to(c, &text, "A B", &data, &|| format!("wrapped at {w}"))
            }
        }),
        scenario("widths", "every width 1..=300 for payload lengths 0..=250, LF and CRLF", |c| {
            let w = c.range(1, 300);
            let n = c.range(0, 250);
            let nl = *c.pick(&["\n", "\r\n"]);
            let data = bytes(4, n);
            let b = b64(&data);
            let body: Vec<&str> = b.as_bytes().chunks(w).map(|x| std::str::from_utf8(x).unwrap()).collect();
            let text = format!("-----BEGIN K-----{nl}{}{nl}-----END K-----", body.join(nl));
            c.outcome(&text);
            parses_to(c, &text, "K", &data, &|| format!("wrapped at {w}"))
        }),
    ]
}
