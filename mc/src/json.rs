//! Just enough JSON.
#[derive(Clone)]
pub enum Json {
    S(String),
    I(i64),
    F(f64),
    B(bool),
    /// text that is JSON already
    Raw(String),
    A(Vec<Json>),
    O(Vec<(String, Json)>),
}

pub fn obj(v: Vec<(&str, Json)>) -> Json {
    Json::O(v.into_iter().map(|(k, j)| (k.to_string(), j)).collect())
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Json {
    pub fn s(s: &str) -> Json {
        Json::S(s.to_string())
    }
    pub fn text(&self) -> String {
        match self {
            Json::S(s) => esc(s),
            Json::I(i) => i.to_string(),
            Json::F(f) => format!("{f:.3}"),
            Json::B(b) => b.to_string(),
            Json::Raw(r) => r.clone(),
            Json::A(v) => format!("[{}]", v.iter().map(|j| j.text()).collect::<Vec<_>>().join(", ")),
            Json::O(v) => format!(
                "{{{}}}",
                v.iter().map(|(k, j)| format!("{}: {}", esc(k), j.text())).collect::<Vec<_>>().join(", ")
            ),
        }
    }
}

/// Reads the flat objects this program writes as replay files.
pub struct Flat(String);
pub fn parse_flat(t: &str) -> Flat {
    Flat(t.to_string())
}
impl Flat {
    fn after(&self, k: &str) -> &str {
        let pat = format!("\"{k}\": ");
        match self.0.find(&pat) {
            Some(i) => &self.0[i + pat.len()..],
            None => "",
        }
    }
    pub fn str(&self, k: &str) -> String {
        let s = self.after(k);
        let mut out = String::new();
        let mut it = s.chars().skip(1);
        while let Some(c) = it.next() {
            match c {
                '"' => break,
                '\\' => match it.next() {
                    Some('n') => out.push('\n'),
                    Some('u') => {
                        let h: String = it.by_ref().take(4).collect();
                        out.push(char::from_u32(u32::from_str_radix(&h, 16).unwrap_or(63)).unwrap_or('?'));
                    }
                    Some(c) => out.push(c),
                    None => break,
                },
                c => out.push(c),
            }
        }
        out
    }
    pub fn nums(&self, k: &str) -> Vec<u32> {
        let s = self.after(k);
        let s = s.trim_start_matches('[');
        let end = s.find(']').unwrap_or(0);
        s[..end].split(',').filter_map(|x| x.trim().parse().ok()).collect()
    }
}
