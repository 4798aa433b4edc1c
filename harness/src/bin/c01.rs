//! C01: caps-words processing is reversible.
use serde::{Deserialize, Serialize};
use texmo::verif::processing::process;
use vh::gens;
use vh::pp::*;
use vh::refs::ref_decode;
use vh::run::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Text {
    text: String,
}

/// All scalars in lo..hi, each put for '#' into the template.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Scan {
    template: String,
    lo: u32,
    hi: u32,
}

const TEMPLATES: &[&str] = &[
    "#", "#a", "#A", "a#", "A#", "#ab", "A#B", "a#b", "AB#", "Ab#", "#AB", "##", "# #", "a #", "A # b", "a# b", "Σ#", "#Σ", "ab#\nc", "#\u{307}", "A\u{301}#",
];

fn roundtrip(t: &str) -> CheckResult {
    let p = process(t);
    let d = ref_decode(&p);
    if d != t {
        return Err(format!("{t:?} is processed to {p:?}, which decodes to {d:?}"));
    }
    Ok(())
}

fn main() {
    let mut r = Runner::new(
        "C01",
        "texts assembled from words of 11 scripts (lower, capitalized, capitals, mixed, irregular case mappings), gaps (spaces, \
         newlines, punctuation, combining marks) and arbitrary characters; plus every Unicode scalar in 21 word templates. \
         Non-trivial: the text has a letter, and an upper-case letter or a space.",
    );
    r.sub(
        "random",
        600_000,
        20_000_000,
        |ctx| bx(gens::mixed_text(ctx, 300).prop_map(|t| Text { text: gens::strip_markers(&t) })),
        |c: &Text, _, o| {
            let up = c.text.chars().any(|x| x.is_uppercase());
            let sp = c.text.contains(' ');
            o.nontrivial((up || sp) && c.text.chars().any(|x| x.is_alphabetic()));
            o.label_if(up, "has capitals");
            o.label_if(c.text.contains("  "), "several spaces");
            o.label_if(!c.text.is_ascii(), "non-ASCII");
            o.label_if(c.text.chars().any(|x| gens::IRREGULAR.contains(&x)), "irregular case mapping");
            o.label_if(c.text.len() > 1000, "over 1000 bytes");
            roundtrip(&c.text)
        },
    );
    let mut cases = Vec::new();
    for t in TEMPLATES {
        let mut lo = 0;
        while lo < 0x110000 {
            cases.push(Scan { template: t.to_string(), lo, hi: lo + 0x2000 });
            lo += 0x2000;
        }
    }
    r.enumerate(
        "scan",
        cases,
        SHARDS,
        |c| {
            if c.hi - c.lo <= 1 {
                return vec![];
            }
            let mid = (c.lo + c.hi) / 2;
            vec![Scan { hi: mid, ..c.clone() }, Scan { lo: mid, ..c.clone() }]
        },
        |c: &Scan, _, o| {
            let mut n = 0;
            let mut keys = Vec::new();
            for u in c.lo..c.hi {
                let Some(ch) = char::from_u32(u) else { continue };
                if matches!(ch, '\x14'..='\x16') {
                    continue;
                }
                let t = c.template.replace('#', ch.encode_utf8(&mut [0; 4]));
                n += 1;
                // cased characters are the ones where something can go wrong
                if ch.is_uppercase() || ch.is_lowercase() {
                    keys.push(hash_of(&t));
                }
                roundtrip(&t)?;
            }
            o.nontrivial(!keys.is_empty());
            o.label_n("scalar x template", n);
            o.extra(n, keys);
            Ok(())
        },
    );
    r.note("sub-check scan enumerates all Unicode scalars (except the three markers) in each template");
    r.finish()
}
