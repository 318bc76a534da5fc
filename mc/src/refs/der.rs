//! A DER writer and a deliberately plain parser for the six tags the library knows.

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Tree {
    Int(Vec<u8>),
    Octets(Vec<u8>),
    Bits(Vec<u8>, u8),
    Null,
    Oid(Vec<u8>),
    Seq(Vec<Tree>),
}

pub fn len_bytes(n: usize) -> Vec<u8> {
    if n < 128 {
        return vec![n as u8];
    }
    let b: Vec<u8> = n.to_be_bytes().into_iter().skip_while(|&x| x == 0).collect();
    let mut o = vec![0x80 | b.len() as u8];
    o.extend(b);
    o
}

pub fn tlv(tag: u8, content: &[u8]) -> Vec<u8> {
    let mut o = vec![tag];
    o.extend(len_bytes(content.len()));
    o.extend_from_slice(content);
    o
}

impl Tree {
    pub fn der(&self) -> Vec<u8> {
        match self {
            Tree::Int(c) => tlv(0x02, c),
            Tree::Octets(c) => tlv(0x04, c),
            Tree::Bits(c, u) => {
                let mut b = vec![*u];
                b.extend_from_slice(c);
                tlv(0x03, &b)
            }
            Tree::Null => tlv(0x05, &[]),
            Tree::Oid(c) => tlv(0x06, c),
            Tree::Seq(v) => {
                let mut b = vec![];
                for t in v {
                    b.extend(t.der());
                }
                tlv(0x30, &b)
            }
        }
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Verdict {
    /// well-formed and canonical where it matters: has to be this tree
    Tree(Tree),
    /// has to be an error
    Malformed(&'static str),
    /// the properties leave this open (BER liberties): an error or this tree
    Lenient(Tree),
}

/// Returns (tree, lenient?, bytes consumed).
fn one(b: &[u8], depth: usize) -> Result<(Tree, bool, usize), &'static str> {
    if b.len() < 2 {
        return Err("tag or length missing");
    }
    let tag = b[0];
    if ![2, 3, 4, 5, 6, 0x30].contains(&tag) {
        return Err("unknown tag");
    }
    let mut lenient = false;
    let (hdr, len): (usize, u128) = if b[1] < 0x80 {
        (2, b[1] as u128)
    } else {
        let n = (b[1] & 0x7f) as usize;
        if b.len() < 2 + n {
            return Err("length bytes missing");
        }
        let lb = &b[2..2 + n];
        // non-minimal or indefinite or reserved forms are a BER/DER matter
        if n == 0 || lb[0] == 0 || (n == 1 && lb[0] < 0x80) || n == 127 {
            lenient = true;
        }
        let sig: Vec<u8> = lb.iter().copied().skip_while(|&x| x == 0).collect();
        if sig.len() > 15 {
            return Err("length beyond the input");
        }
        (2 + n, sig.iter().fold(0u128, |a, &x| a << 8 | x as u128))
    };
    if len > (b.len() - hdr) as u128 {
        return Err("length beyond the enclosing element");
    }
    let end = hdr + len as usize;
    let c = &b[hdr..end];
    let tree = match tag {
        2 => {
            if c.is_empty() {
                lenient = true;
            }
            Tree::Int(c.to_vec())
        }
        4 => Tree::Octets(c.to_vec()),
        3 => {
            if c.is_empty() {
                return Err("bit string without unused-bits byte");
            }
            if c[0] > 7 || (c.len() == 1 && c[0] != 0) {
                lenient = true;
            }
            Tree::Bits(c[1..].to_vec(), c[0])
        }
        5 => {
            if !c.is_empty() {
                lenient = true;
            }
            Tree::Null
        }
        6 => {
            if c.is_empty() {
                lenient = true;
            }
            Tree::Oid(c.to_vec())
        }
        _ => {
            let mut v = vec![];
            let mut p = 0;
            while p < c.len() {
                let (t, l, n) = one(&c[p..], depth + 1)?;
                lenient |= l;
                v.push(t);
                p += n;
            }
            Tree::Seq(v)
        }
    };
    if depth > 32 {
        lenient = true; // the promise covers 32 levels
    }
    Ok((tree, lenient, end))
}

pub fn parse(b: &[u8]) -> Verdict {
    match one(b, 1) {
        Err(e) => Verdict::Malformed(e),
        Ok((_, _, n)) if n != b.len() => Verdict::Malformed("bytes left over"),
        Ok((t, false, _)) => Verdict::Tree(t),
        Ok((t, true, _)) => Verdict::Lenient(t),
    }
}
