//! Base64 (RFC 4648, padded) and the PEM line grammar.

const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

pub fn b64(data: &[u8]) -> String {
    let mut o = String::new();
    for c in data.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                o.push(A[(v >> (18 - 6 * i) & 63) as usize] as char);
            } else {
                o.push('=');
            }
        }
    }
    o
}

/// Strict: groups of four, padding only at the end, unused bits zero.
pub fn unb64(t: &str) -> Option<Vec<u8>> {
    let b = t.as_bytes();
    if b.len() % 4 != 0 {
        return None;
    }
    let mut o = vec![];
    let groups = b.len() / 4;
    for (g, c) in b.chunks(4).enumerate() {
        let pad = if g + 1 == groups { c.iter().rev().take_while(|&&x| x == b'=').count() } else { 0 };
        if pad > 2 {
            return None;
        }
        let mut v = 0u32;
        for i in 0..4 {
            let d = if i >= 4 - pad { 0 } else { A.iter().position(|&x| x == c[i])? as u32 };
            v = v << 6 | d;
        }
        let bytes = v.to_be_bytes();
        for i in 0..3 {
            if i < 3 - pad {
                o.push(bytes[1 + i]);
            } else if bytes[1 + i] != 0 {
                return None;
            }
        }
    }
    Some(o)
}

/// (label, payload) of the single well-formed block, if the text is acceptable.
pub fn pem(text: &str) -> Option<(String, Vec<u8>)> {
    #[derive(Clone, Copy)]
    enum L<'a> {
        Begin(&'a str),
        End(&'a str),
        Bad,
        Other(&'a str),
    }
    let lines: Vec<L> = text
        .lines()
        .map(|l| {
            let l = l.trim();
            for (prefix, begin) in [("-----BEGIN ", true), ("-----END ", false)] {
                if let Some(rest) = l.strip_prefix(prefix) {
                    return match rest.strip_suffix("-----") {
                        Some(x) if begin => L::Begin(x),
                        Some(x) => L::End(x),
                        None => L::Bad,
                    };
                }
            }
            L::Other(l)
        })
        .collect();
    let begins: Vec<usize> = (0..lines.len()).filter(|&i| matches!(lines[i], L::Begin(_))).collect();
    let ends: Vec<usize> = (0..lines.len()).filter(|&i| matches!(lines[i], L::End(_))).collect();
    let bad = lines.iter().any(|l| matches!(l, L::Bad));
    if bad || begins.len() != 1 || ends.len() != 1 || begins[0] > ends[0] {
        return None;
    }
    let (L::Begin(a), L::End(b)) = (lines[begins[0]], lines[ends[0]]) else { return None };
    if a != b {
        return None;
    }
    let body: String = lines[begins[0] + 1..ends[0]]
        .iter()
        .map(|l| match l {
            L::Other(x) => *x,
            _ => "",
        })
        .collect();
    Some((a.to_string(), unb64(&body)?))
}
