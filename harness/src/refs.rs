//! Reference models, written from the documentation.
use serde_json::Value;
use std::collections::HashMap;

// ---------------------------------------------------------------- processing

pub const CAP: char = '\x14';
pub const ALL: char = '\x15';
pub const END: char = '\x16';

/// The documented form of one word (without the end-of-word marker).
pub fn ref_word(word: &str) -> String {
    let first = word.chars().next().unwrap();
    let rest = &word[first.len_utf8()..];
    let restores = |s: &str| s.to_lowercase().to_uppercase() == s;
    let f = first.to_string();
    if first.is_uppercase() && rest.chars().all(|c| c.is_lowercase()) && restores(&f) {
        return format!("{CAP}{}{rest}", f.to_lowercase());
    }
    if !rest.is_empty() && word.chars().all(|c| c.is_uppercase()) && restores(word) {
        return format!("{ALL}{}", word.to_lowercase());
    }
    word.to_string()
}

/// Caps-words form, by splitting the text into runs first.
pub fn ref_process(text: &str) -> String {
    let mut runs: Vec<(bool, &str)> = Vec::new();
    let mut start = 0;
    let mut prev: Option<bool> = None;
    for (i, c) in text.char_indices() {
        let l = c.is_alphabetic();
        if let Some(p) = prev {
            if p != l {
                runs.push((p, &text[start..i]));
                start = i;
            }
        }
        prev = Some(l);
    }
    if let Some(p) = prev {
        runs.push((p, &text[start..]));
    }
    let mut out = String::with_capacity(text.len() * 2);
    for (k, &(letter, s)) in runs.iter().enumerate() {
        if letter {
            out.push_str(&ref_word(s));
            out.push(END);
        } else if s == " " && k > 0 && k + 1 < runs.len() {
            // a single space between two words
        } else {
            out.push_str(s);
        }
    }
    out
}

/// Decoder according to the README.
pub fn ref_decode(processed: &str) -> String {
    let cs: Vec<char> = processed.chars().collect();
    let mut out = String::with_capacity(processed.len());
    let mut i = 0;
    while i < cs.len() {
        match cs[i] {
            c @ (CAP | ALL) => {
                let mut j = i + 1;
                while j < cs.len() && cs[j] != END {
                    j += 1;
                }
                let word: String = cs[i + 1..j].iter().collect();
                if c == ALL {
                    out.push_str(&word.to_uppercase());
                } else {
                    let mut it = word.chars();
                    if let Some(f) = it.next() {
                        out.extend(f.to_uppercase());
                        out.push_str(it.as_str());
                    }
                }
                i = j;
            }
            END => {
                let next_is_word = i + 1 < cs.len() && (cs[i + 1].is_alphabetic() || cs[i + 1] == CAP || cs[i + 1] == ALL);
                if next_is_word {
                    out.push(' ');
                }
                i += 1;
            }
            c => {
                out.push(c);
                i += 1;
            }
        }
    }
    out
}

// ---------------------------------------------------------------- token sets

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Tok {
    Ext(u8),
    Str(Vec<u8>),
}

/// A token-set file as read by this harness's own reader.
#[derive(Clone, Debug, PartialEq)]
pub struct RefSet {
    pub ttype: String,
    pub processing: String,
    pub split: Option<bool>,
    pub tokens: Vec<Tok>,
    pub seqs: Vec<(Vec<u8>, Vec<Tok>)>,
    pub stats: Option<Value>,
}

pub fn show(b: &[u8]) -> String {
    match std::str::from_utf8(b) {
        Ok(s) => format!("{s:?}"),
        Err(_) => format!("{b:?}"),
    }
}

fn bytes_value(v: &Value) -> Result<Vec<u8>, String> {
    match v {
        Value::String(s) => Ok(s.as_bytes().to_vec()),
        Value::Array(a) => a
            .iter()
            .map(|x| x.as_u64().filter(|&n| n < 256).map(|n| n as u8).ok_or_else(|| format!("bad byte {x}")))
            .collect(),
        _ => Err(format!("neither a string nor a list of bytes: {v}")),
    }
}

pub fn tok_value(v: &Value) -> Result<Tok, String> {
    match v {
        Value::Number(n) => n.as_u64().filter(|&n| n < 256).map(|n| Tok::Ext(n as u8)).ok_or_else(|| format!("bad ext token {v}")),
        _ => Ok(Tok::Str(bytes_value(v)?)),
    }
}

pub fn bits_code(bits: u32, byte: u8) -> Vec<Tok> {
    let n = 8 / bits;
    (0..n).map(|i| Tok::Ext(((byte as u32 >> (8 - bits * (i + 1))) & ((1 << bits) - 1)) as u8)).collect()
}

pub fn type_bits(t: &str) -> Option<u32> {
    match t {
        "bits1" => Some(1),
        "bits2" => Some(2),
        "bits4" => Some(4),
        _ => None,
    }
}

pub fn n_ext_of(t: &str) -> Option<usize> {
    match t {
        "bits1" => Some(2),
        "bits2" => Some(4),
        "bits4" => Some(16),
        "bytes" => Some(0),
        _ => None,
    }
}

impl RefSet {
    /// Reads any accepted spelling of a token-set file.
    pub fn from_value(v: &Value) -> Result<RefSet, String> {
        let ttype = match v["type"].as_str().ok_or("no type")? {
            "fallback_bits" => format!("bits{}", v["fallback_bits"].as_u64().ok_or("no fallback_bits")?),
            "all_tokens" => "bytes".to_string(),
            t => t.to_string(),
        };
        let processing = v["processing"].as_str().ok_or("no processing")?.to_string();
        let split = match v.get("split_paragraphs") {
            None => None,
            Some(Value::Bool(b)) => Some(*b),
            Some(x) => return Err(format!("bad split_paragraphs {x}")),
        };
        let tokens = v["tokens"].as_array().ok_or("no tokens")?.iter().map(tok_value).collect::<Result<Vec<_>, _>>()?;
        let mut seqs = Vec::new();
        match v.get("sequences") {
            None => {
                if let Some(bits) = type_bits(&ttype) {
                    let own: std::collections::HashSet<&Tok> = tokens.iter().collect();
                    for b in 0..=255u8 {
                        if !own.contains(&Tok::Str(vec![b])) {
                            seqs.push((vec![b], bits_code(bits, b)));
                        }
                    }
                }
            }
            Some(s) => {
                for q in s.as_array().ok_or("sequences is not a list")? {
                    let string = bytes_value(&q["string"])?;
                    let toks = q["tokens"].as_array().ok_or("no tokens in a sequence")?.iter().map(tok_value).collect::<Result<Vec<_>, _>>()?;
                    seqs.push((string, toks));
                }
            }
        }
        Ok(RefSet { ttype, processing, split, tokens, seqs, stats: v.get("stats").cloned() })
    }

    pub fn load(path: &std::path::Path) -> Result<RefSet, String> {
        let s = std::fs::read(path).map_err(|e| format!("{}: {e}", path.display()))?;
        let v: Value = serde_json::from_slice(&s).map_err(|e| format!("{} is not JSON: {e}", path.display()))?;
        RefSet::from_value(&v)
    }

    /// The file in the current spelling.
    pub fn to_text(&self) -> String {
        let string = |s: &Vec<u8>| match std::str::from_utf8(s) {
            Ok(t) => serde_json::json!(t),
            Err(_) => serde_json::json!(s),
        };
        let tok = |t: &Tok| match t {
            Tok::Ext(n) => serde_json::json!(n),
            Tok::Str(s) => string(s),
        };
        let mut v = serde_json::json!({
            "type": self.ttype,
            "processing": self.processing,
            "tokens": self.tokens.iter().map(tok).collect::<Vec<_>>(),
        });
        if let Some(b) = self.split {
            v["split_paragraphs"] = b.into();
        }
        if !self.seqs.is_empty() {
            let q: Vec<Value> = self
                .seqs
                .iter()
                .map(|(s, c)| serde_json::json!({"string": string(s), "tokens": c.iter().map(tok).collect::<Vec<_>>()}))
                .collect();
            v["sequences"] = q.into();
        }
        v.to_string()
    }

    pub fn name(&self) -> String {
        format!("tokens{}_{}_{}", self.tokens.len(), self.processing, self.ttype)
    }

    pub fn n_ext(&self) -> usize {
        self.tokens.iter().filter(|t| matches!(t, Tok::Ext(_))).count()
    }

    pub fn long_tokens(&self) -> Vec<&Vec<u8>> {
        self.tokens.iter().filter_map(|t| if let Tok::Str(s) = t { (s.len() > 1).then_some(s) } else { None }).collect()
    }

    pub fn byte_token(&self, b: u8) -> bool {
        self.tokens.contains(&Tok::Str(vec![b]))
    }

    /// Same set regardless of the order of tokens and sequences.
    pub fn canon(&self) -> (String, String, Vec<Tok>, Vec<(Vec<u8>, Vec<Tok>)>) {
        let mut t = self.tokens.clone();
        t.sort();
        let mut s = self.seqs.clone();
        s.sort();
        (self.ttype.clone(), self.processing.clone(), t, s)
    }

    /// Well-formedness: no duplicates, every byte has exactly one encoding by
    /// tokens of the set, codes are decodable.
    pub fn well_formed(&self) -> Result<(), String> {
        let mut seen = std::collections::HashSet::new();
        for t in &self.tokens {
            if !seen.insert(t) {
                return Err(format!("token {t:?} occurs twice"));
            }
            if let Tok::Str(s) = t {
                if s.is_empty() {
                    return Err("empty token".into());
                }
            }
        }
        let n_ext = self.n_ext();
        for i in 0..n_ext {
            if !seen.contains(&Tok::Ext(i as u8)) {
                return Err(format!("extension tokens are not 0..{n_ext}"));
            }
        }
        if let Some(n) = n_ext_of(&self.ttype) {
            if n != n_ext {
                return Err(format!("type {} with {n_ext} extension tokens", self.ttype));
            }
        }
        let mut codes: HashMap<&Vec<Tok>, &Vec<u8>> = HashMap::new();
        let mut strings = std::collections::HashSet::new();
        for (s, c) in &self.seqs {
            if !strings.insert(s) {
                return Err(format!("two sequences for {}", show(s)));
            }
            if seen.contains(&Tok::Str(s.clone())) {
                return Err(format!("{} has both a token and a sequence", show(s)));
            }
            for t in c {
                if !seen.contains(t) {
                    return Err(format!("the sequence for {} uses {t:?}, which is not in the set", show(s)));
                }
            }
            if let Some(o) = codes.insert(c, s) {
                return Err(format!("{} and {} have the same encoding {c:?}", show(o), show(s)));
            }
            if s.len() != 1 {
                return Err(format!("sequence for the multi-byte string {}", show(s)));
            }
            match type_bits(&self.ttype) {
                Some(bits) => {
                    if *c != bits_code(bits, s[0]) {
                        return Err(format!("{} is encoded as {c:?} in a {} set", show(s), self.ttype));
                    }
                }
                None => {
                    // byteshuff: a byte token, then extension tokens
                    let ok = c.len() >= 2 && matches!(&c[0], Tok::Str(x) if x.len() == 1) && c[1..].iter().all(|t| matches!(t, Tok::Ext(_)));
                    if !ok {
                        return Err(format!("{} is encoded as {c:?} in a {} set", show(s), self.ttype));
                    }
                }
            }
        }
        for b in 0..=255u8 {
            if !seen.contains(&Tok::Str(vec![b])) && !strings.contains(&vec![b]) {
                return Err(format!("byte {b} can't be encoded"));
            }
        }
        Ok(())
    }

    pub fn segmenter(&self) -> Segmenter {
        let mut spans: Vec<(Vec<u8>, u64)> = Vec::new();
        for t in &self.tokens {
            if let Tok::Str(s) = t {
                spans.push((s.clone(), 1));
            }
        }
        for (s, c) in &self.seqs {
            spans.push((s.clone(), c.len() as u64));
        }
        Segmenter::new(&spans)
    }
}

// ------------------------------------------------- minimal segmentation (DP)

/// Trie over the spans; forward relaxation. Independent of any automaton with
/// suffix links.
pub struct Segmenter {
    next: Vec<[u32; 256]>,
    /// cheapest cost of the string ending in this node
    cost: Vec<u64>,
    max_len: usize,
}

impl Segmenter {
    pub fn new(spans: &[(Vec<u8>, u64)]) -> Segmenter {
        let mut s = Segmenter { next: vec![[0; 256]], cost: vec![u64::MAX], max_len: 0 };
        for (st, c) in spans {
            let mut n = 0usize;
            for &b in st {
                if s.next[n][b as usize] == 0 {
                    s.next.push([0; 256]);
                    s.cost.push(u64::MAX);
                    s.next[n][b as usize] = (s.next.len() - 1) as u32;
                }
                n = s.next[n][b as usize] as usize;
            }
            s.cost[n] = s.cost[n].min(*c);
            s.max_len = s.max_len.max(st.len());
        }
        s
    }

    /// Minimal total cost, None if the text can't be segmented.
    pub fn min_cost(&self, text: &[u8]) -> Option<u64> {
        let w = self.max_len + 1;
        // ring buffer of costs
        let mut best = vec![u64::MAX; w];
        best[0] = 0;
        for i in 0..text.len() {
            let c = best[i % w];
            best[i % w] = u64::MAX;
            if c == u64::MAX {
                continue;
            }
            let mut n = 0usize;
            for (j, &b) in text[i..].iter().enumerate() {
                n = self.next[n][b as usize] as usize;
                if n == 0 {
                    break;
                }
                if self.cost[n] != u64::MAX {
                    let k = (i + j + 1) % w;
                    best[k] = best[k].min(c + self.cost[n]);
                }
            }
        }
        let r = best[text.len() % w];
        (r != u64::MAX).then_some(r)
    }
}

/// Are the statistics those of the set for data of `processed` bytes (already
/// processed) made from `initial` bytes, of which the set needs `total` tokens?
pub fn check_stats(r: &RefSet, total: std::ops::RangeInclusive<u64>, processed: u64, initial: u64) -> Result<(), String> {
    let st = r.stats.as_ref().ok_or("the file has no statistics")?;
    let int = |k: &str| st[k].as_u64().ok_or_else(|| format!("no number {k} in the statistics {st}"));
    if int("ntokens")? != r.tokens.len() as u64 {
        return Err(format!("ntokens {} for {} tokens", int("ntokens")?, r.tokens.len()));
    }
    let t = int("total_tokens")?;
    if !total.contains(&t) {
        return Err(format!("total_tokens {t}, the set needs {total:?} for the data"));
    }
    if int("scanned_bytes")? != processed {
        return Err(format!("scanned_bytes {}, the processed data has {processed}", int("scanned_bytes")?));
    }
    if int("initial_size")? != initial {
        return Err(format!("initial_size {}, the original data has {initial}", int("initial_size")?));
    }
    if t > 0 {
        let want = initial as f64 / t as f64;
        let got = st["bytes_per_token"].as_f64().ok_or_else(|| format!("no bytes_per_token in {st}"))?;
        if (got - want).abs() > want * 1e-12 {
            return Err(format!("bytes_per_token {got} for {initial} / {t} = {want}"));
        }
    }
    Ok(())
}

pub fn blank_line_inside(s: &[u8]) -> bool {
    s.windows(3).any(|w| w[0] == b'\n' && w[1] == b'\n' && w[2] != b'\n')
}

pub fn contains(hay: &[u8], needle: &[u8]) -> bool {
    needle.is_empty() || hay.windows(needle.len()).any(|w| w == needle)
}
