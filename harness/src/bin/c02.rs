//! C02: caps-words output is the documented canonical form.
use serde::{Deserialize, Serialize};
use texmo::verif::processing::process;
use vh::gens;
use vh::pp::*;
use vh::refs::ref_process;
use vh::run::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Text {
    text: String,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Scan {
    template: String,
    lo: u32,
    hi: u32,
}

/// A short text over a tiny alphabet given by its number (bounded exhaustive).
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Small {
    alphabet: Vec<String>,
    len: usize,
    lo: u64,
    hi: u64,
}

const TEMPLATES: &[&str] = &["#", "#a", "#A", "a#", "A#", "#ab", "A#B", "Ab#", "a #", "# a", "a # b", "A  #B", "#\n#", " # ", "B#\u{301}"];

fn canonical(t: &str) -> CheckResult {
    let p = process(t);
    let r = ref_process(t);
    if p != r {
        return Err(format!("{t:?} is processed to {p:?}; the documented form is {r:?}"));
    }
    Ok(())
}

fn main() {
    let mut r = Runner::new(
        "C02",
        "texts as in C01 but also with marker characters; all strings up to a length over small alphabets of words and gaps \
         (bounded exhaustive); every Unicode scalar in 15 templates. Non-trivial: at least one word next to a gap or with a capital.",
    );
    r.sub(
        "random",
        500_000,
        15_000_000,
        |ctx| {
            bx(prop_oneof![
                4 => gens::mixed_text(ctx, 300),
                1 => vec_of(prop_oneof![4 => gens::piece(ctx), 1 => Just("\x14".to_string()), 1 => Just("\x15".to_string()), 1 => Just("\x16".to_string())]),
            ]
            .prop_map(|text| Text { text }))
        },
        |c: &Text, _, o| {
            let words = c.text.chars().any(|x| x.is_alphabetic());
            let up = c.text.chars().any(|x| x.is_uppercase());
            let gap = c.text.chars().any(|x| !x.is_alphabetic());
            o.nontrivial(words && (up || gap));
            o.label_if(c.text.contains('\x16'), "marker character in the text");
            o.label_if(c.text.contains("  "), "several spaces");
            o.label_if(c.text.ends_with(' '), "trailing space");
            o.label_if(c.text.len() > 1000, "over 1000 bytes");
            canonical(&c.text)
        },
    );
    let alphabets: Vec<(Vec<&str>, usize)> = vec![
        (vec!["a", "A", " ", ",", "\n"], 8),
        (vec!["Σ", "σ", "ß", "İ", " ", "B"], 7),
        (vec!["a", " ", "\u{a0}", "\x16", "Q", "ª"], 7),
        (vec!["word", "Word", "WORD", "wOrd", " ", ".", "\n", "\t"], 6),
    ];
    let mut cases = Vec::new();
    for (al, maxlen) in alphabets {
        for len in 1..=maxlen {
            let total = (al.len() as u64).pow(len as u32);
            let mut lo = 0;
            while lo < total {
                cases.push(Small { alphabet: al.iter().map(|s| s.to_string()).collect(), len, lo, hi: (lo + 4096).min(total) });
                lo += 4096;
            }
        }
    }
    r.enumerate(
        "small",
        cases,
        SHARDS,
        |c| {
            if c.hi - c.lo <= 1 {
                return vec![];
            }
            let mid = (c.lo + c.hi) / 2;
            vec![Small { hi: mid, ..c.clone() }, Small { lo: mid, ..c.clone() }]
        },
        |c: &Small, _, o| {
            let mut keys = Vec::new();
            let k = c.alphabet.len() as u64;
            for n in c.lo..c.hi {
                let mut t = String::new();
                let mut m = n;
                for _ in 0..c.len {
                    t.push_str(&c.alphabet[(m % k) as usize]);
                    m /= k;
                }
                if t.chars().any(|x| x.is_alphabetic()) && t.chars().any(|x| !x.is_alphabetic() || x.is_uppercase()) {
                    keys.push(hash_of(&t));
                }
                canonical(&t)?;
            }
            o.nontrivial(!keys.is_empty());
            o.extra(c.hi - c.lo, keys);
            Ok(())
        },
    );
    let mut cases = Vec::new();
    for t in TEMPLATES {
        let mut lo = 0;
        while lo < 0x110000 {
            cases.push(Scan { template: t.to_string(), lo, hi: lo + 0x2000 });
            lo += 0x2000;
        }
    }
    r.enumerate(
        "scan",
        cases,
        SHARDS,
        |c| {
            if c.hi - c.lo <= 1 {
                return vec![];
            }
            let mid = (c.lo + c.hi) / 2;
            vec![Scan { hi: mid, ..c.clone() }, Scan { lo: mid, ..c.clone() }]
        },
        |c: &Scan, _, o| {
            let mut n = 0;
            let mut keys = Vec::new();
            for u in c.lo..c.hi {
                let Some(ch) = char::from_u32(u) else { continue };
                let t = c.template.replace('#', ch.encode_utf8(&mut [0; 4]));
                n += 1;
                if ch.is_uppercase() || ch.is_lowercase() {
                    keys.push(hash_of(&t));
                }
                canonical(&t)?;
            }
            o.nontrivial(!keys.is_empty());
            o.label_n("scalar x template", n);
            o.extra(n, keys);
            Ok(())
        },
    );
    r.finish()
}

fn vec_of(s: impl Strategy<Value = String> + 'static) -> BoxedStrategy<String> {
    bx(vh::proptest::collection::vec(s, 0..12).prop_map(|v| v.concat()))
}
