//! Auto-dictionary: literals that occur in the current sources of the code
//! under test. They only steer generators (sizes, counts, characters).
use std::collections::BTreeSet;
use std::path::Path;

#[derive(Default, Debug, Clone)]
pub struct Dict {
    pub ints: Vec<u64>,
    pub chars: Vec<char>,
    pub strs: Vec<String>,
}

fn rs_files(dir: &Path, out: &mut Vec<std::path::PathBuf>) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    let mut v: Vec<_> = rd.flatten().map(|e| e.path()).collect();
    v.sort();
    for p in v {
        if p.is_dir() {
            if p.file_name().map(|n| n == "chars").unwrap_or(false) {
                continue; // not compiled
            }
            rs_files(&p, out);
        } else if p.extension().map(|e| e == "rs").unwrap_or(false) {
            let name = p.file_name().unwrap().to_string_lossy().to_string();
            if ["optimizer.rs", "stats.rs", "tokenizer.rs", "tokens.rs"].contains(&name.as_str()) {
                continue; // not compiled
            }
            out.push(p);
        }
    }
}

fn parse_int(s: &str) -> Option<u64> {
    let s = s.replace('_', "");
    let s = s.trim_end_matches(|c: char| c == 'u' || c == 'i' || c == 'f');
    let strip = |s: &str| -> String {
        for suf in ["usize", "isize", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "f32", "f64"] {
            if let Some(p) = s.strip_suffix(suf) {
                return p.to_string();
            }
        }
        s.to_string()
    };
    let s = strip(s);
    if let Some(h) = s.strip_prefix("0x") {
        u64::from_str_radix(h, 16).ok()
    } else if let Some(b) = s.strip_prefix("0b") {
        u64::from_str_radix(b, 2).ok()
    } else {
        s.parse().ok()
    }
}

fn unescape(body: &str) -> Option<String> {
    let mut out = String::new();
    let mut it = body.chars().peekable();
    while let Some(c) = it.next() {
        if c != '\\' {
            out.push(c);
            continue;
        }
        match it.next()? {
            'n' => out.push('\n'),
            'r' => out.push('\r'),
            't' => out.push('\t'),
            '0' => out.push('\0'),
            '\\' => out.push('\\'),
            '\'' => out.push('\''),
            '"' => out.push('"'),
            'x' => {
                let h: String = [it.next()?, it.next()?].iter().collect();
                out.push(u8::from_str_radix(&h, 16).ok()? as char);
            }
            'u' => {
                if it.next()? != '{' {
                    return None;
                }
                let mut h = String::new();
                loop {
                    let c = it.next()?;
                    if c == '}' {
                        break;
                    }
                    h.push(c);
                }
                out.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
            }
            _ => return None,
        }
    }
    Some(out)
}

impl Dict {
    pub fn load(repo: &Path) -> Dict {
        let mut files = Vec::new();
        rs_files(&repo.join("src"), &mut files);
        let mut ints = BTreeSet::new();
        let mut chars = BTreeSet::new();
        let mut strs = BTreeSet::new();
        for f in files {
            let Ok(src) = std::fs::read_to_string(&f) else { continue };
            // Tests never run in the product.
            let src = match src.find("#[cfg(test)]") {
                Some(p) => &src[..p],
                None => &src[..],
            };
            let cs: Vec<char> = src.chars().collect();
            let mut i = 0;
            let mut toks: Vec<(usize, u64)> = Vec::new();
            while i < cs.len() {
                let c = cs[i];
                if c == '/' && i + 1 < cs.len() && cs[i + 1] == '/' {
                    while i < cs.len() && cs[i] != '\n' {
                        i += 1;
                    }
                } else if c == '"' {
                    let st = i + 1;
                    i += 1;
                    while i < cs.len() && cs[i] != '"' {
                        if cs[i] == '\\' {
                            i += 1;
                        }
                        i += 1;
                    }
                    let body: String = cs[st..i.min(cs.len())].iter().collect();
                    if let Some(s) = unescape(&body) {
                        if !s.is_empty() && s.len() <= 24 && !s.contains('{') {
                            strs.insert(s);
                        }
                    }
                    i += 1;
                } else if c == '\'' {
                    // char literal (or lifetime)
                    let mut j = i + 1;
                    let mut n = 0;
                    while j < cs.len() && cs[j] != '\'' && n < 12 && cs[j] != '\n' {
                        if cs[j] == '\\' {
                            j += 1;
                        }
                        j += 1;
                        n += 1;
                    }
                    if j < cs.len() && cs[j] == '\'' {
                        let body: String = cs[i + 1..j].iter().collect();
                        if let Some(s) = unescape(&body) {
                            if s.chars().count() == 1 {
                                chars.insert(s.chars().next().unwrap());
                                i = j + 1;
                                continue;
                            }
                        }
                    }
                    i += 1;
                } else if c.is_ascii_digit()
                    && (i == 0 || !(cs[i - 1].is_alphanumeric() || cs[i - 1] == '_'))
                {
                    let st = i;
                    while i < cs.len() && (cs[i].is_ascii_alphanumeric() || cs[i] == '_') {
                        i += 1;
                    }
                    let s: String = cs[st..i].iter().collect();
                    if let Some(v) = parse_int(&s) {
                        ints.insert(v);
                        // a << b, a * b
                        if let Some(&(end, prev)) = toks.last() {
                            let mid: String = cs[end..st].iter().collect();
                            match mid.trim() {
                                "<<" if v < 64 => {
                                    ints.insert(prev << v);
                                }
                                "*" => {
                                    ints.insert(prev.wrapping_mul(v));
                                }
                                _ => {}
                            }
                        }
                        toks.push((i, v));
                    }
                } else {
                    i += 1;
                }
            }
        }
        for s in &strs {
            for c in s.chars() {
                if !c.is_ascii_alphanumeric() {
                    chars.insert(c);
                }
            }
        }
        for &v in &ints {
            if v > 0x1f && v < 0x110000 {
                if let Some(c) = char::from_u32(v as u32) {
                    chars.insert(c);
                }
            }
        }
        Dict {
            ints: ints.into_iter().collect(),
            chars: chars.into_iter().collect(),
            strs: strs.into_iter().collect(),
        }
    }

    /// Integer literals in lo..=hi, with their neighbours.
    pub fn near(&self, lo: u64, hi: u64) -> Vec<u64> {
        let mut s = BTreeSet::new();
        for &v in &self.ints {
            for w in [v.saturating_sub(1), v, v.saturating_add(1), v.saturating_mul(2), v / 2] {
                if w >= lo && w <= hi {
                    s.insert(w);
                }
            }
        }
        s.into_iter().collect()
    }
}
