//! C13: byteshuff encodings are complete, decodable and put common bytes first.
#[path = "../api.rs"]
mod api;
use api::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};
use texmo::verif::optimize_bytes::{BytesOptimizer, HuffOptimizer};
use texmo::verif::stats2::TokenStats;
use texmo::verif::tokenset::{Token, TokenSet};
use vh::pp::*;
use vh::proptest::collection::vec;
use vh::proptest::sample::select;
use vh::refs::{show, Tok};
use vh::run::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    /// the paragraph setting
    #[serde(default = "on")]
    split: bool,
    /// counts of the multi-byte tokens: 0 some, 1 none, 2 none or many
    #[serde(default)]
    long_counts: u8,
    caps: bool,
    /// the set to start from: all bytes, or the result of a first optimization
    first_budget: Option<u16>,
    longs: Vec<Vec<u8>>,
    /// counts of the 256 bytes
    counts: Vec<u64>,
    /// budgets of successive optimizations; each next one starts from the
    /// previous result and the same counts
    budgets: Vec<u16>,
    sort: bool,
}

fn on() -> bool {
    true
}

fn stats_for(ts: &TokenSet, counts: &[u64], long_counts: u8) -> TokenStats {
    let mut st = TokenStats::new(ts.clone(), None);
    for (i, t) in ts.tokens.iter().enumerate() {
        if let Token::Str(s) = t {
            st.token_counts[i] = if s.len() == 1 { counts[s[0] as usize] } else { [3, 0, ((i as u64 ^ counts[0]) & 1) << 40][long_counts as usize % 3] };
        }
    }
    for (i, s) in ts.sequences.iter().enumerate() {
        st.seq_counts[i] = counts[s.string[0] as usize];
    }
    st
}

fn judge(before: &TokenSet, after: &TokenSet, counts: &[u64], n: usize) -> CheckResult {
    let (b, a) = (to_ref(before)?, to_ref(after)?);
    if a.ttype != "byteshuff" {
        return Err(format!("the result has type {}", a.ttype));
    }
    if a.processing != b.processing {
        return Err(format!("processing changed to {}", a.processing));
    }
    if a.split != b.split {
        return Err(format!("the paragraph setting changed from {:?} to {:?}", b.split, a.split));
    }
    a.well_formed()?;
    // codes by byte
    let mut code: BTreeMap<u8, Vec<Tok>> = BTreeMap::new();
    for t in &a.tokens {
        if let Tok::Str(s) = t {
            if s.len() == 1 {
                code.insert(s[0], vec![t.clone()]);
            }
        }
    }
    for (s, c) in &a.seqs {
        if s.len() == 1 && code.insert(s[0], c.clone()).is_some() {
            return Err(format!("byte {} has two encodings", s[0]));
        }
    }
    if code.len() != 256 {
        return Err(format!("{} bytes can be encoded", code.len()));
    }
    let rev: HashMap<&Vec<Tok>, u8> = code.iter().map(|(k, v)| (v, *k)).collect();
    if rev.len() != 256 {
        return Err("two bytes share an encoding".into());
    }
    for (byte, c) in &code {
        for k in 1..c.len() {
            if let Some(&p) = rev.get(&c[..k].to_vec()) {
                if counts[p as usize] < counts[*byte as usize] {
                    return Err(format!(
                        "the encoding of byte {byte} (count {}) extends that of byte {p} (count {})",
                        counts[*byte as usize], counts[p as usize]
                    ));
                }
            }
        }
    }
    let n_long = a.long_tokens().len();
    let used = a.tokens.len() - n_long;
    if n <= 258 {
        if used != n {
            return Err(format!("{used} byte and extension tokens for a budget of {n}"));
        }
    } else if used > 258 || !(0..=255u8).all(|x| a.byte_token(x)) {
        return Err(format!("{used} byte and extension tokens for a budget of {n}"));
    }
    let (mut lb, mut la) = (b.long_tokens(), a.long_tokens());
    lb.sort();
    la.sort();
    if lb != la {
        let gone = lb.iter().find(|x| !la.contains(x));
        let new = la.iter().find(|x| !lb.contains(x));
        return Err(format!("multi-byte tokens: lost {:?}, new {:?}", gone.map(|x| show(x)), new.map(|x| show(x))));
    }
    Ok(())
}

fn check(c: &Case, o: &mut Obs) -> CheckResult {
    let p = if c.caps { texmo::verif::processing::Processing::CapsWords } else { texmo::verif::processing::Processing::Raw };
    let mut ts = TokenSet::new_bytes(p);
    ts.split_paragraphs = c.split;
    let mut seen = std::collections::HashSet::new();
    for l in &c.longs {
        if l.len() > 1 && seen.insert(l) {
            ts.add_token(l);
        }
    }
    let mut counts = c.counts.clone();
    counts.resize(256, 0);
    let mut budgets: Vec<usize> = Vec::new();
    budgets.extend(c.first_budget.map(|x| x as usize));
    budgets.extend(c.budgets.iter().map(|x| *x as usize));
    for (i, n) in budgets.iter().enumerate() {
        let st = stats_for(&ts, &counts, c.long_counts);
        let next = HuffOptimizer::optimize_bytes(&st, *n);
        judge(&ts, &next, &counts, *n).map_err(|e| format!("optimization {i} with budget {n}: {e}"))?;
        let longest = next.sequences.iter().map(|s| s.tokens.len()).max().unwrap_or(1);
        o.label_if(longest >= 4, "an encoding of 4 and more tokens");
        o.label_if(next.n_ext_tokens > 2, "more than two extension tokens");
        o.label_if(i > 0, "starting from an earlier result");
        o.label_if(*n > 258, "budget beyond 258");
        ts = next;
        if c.sort {
            ts.sort();
        }
    }
    let distinct: std::collections::HashSet<u64> = counts.iter().copied().collect();
    o.nontrivial(distinct.len() >= 3 && budgets.iter().any(|&n| n < 256));
    Ok(())
}

fn main() {
    let mut r = Runner::new(
        "C13",
        "byte statistics (few bytes occurring, text-like, uniform, ties, Fibonacci-like, powers of two, huge), budgets from 3 to 700, chains of 1-4 \
         optimizations each starting from the last result, with multi-byte tokens. The encoding is judged by its content. Non-trivial: at \
         least 3 different counts and a budget below 256.",
    );
    r.sub(
        "random",
        60_000,
        800_000,
        |ctx| {
            let mut near = ctx.dict.near(3, 700);
            near.extend([3, 4, 5, 9, 10, 11, 12, 13, 255, 256, 257, 258, 259, 300]);
            let near: Vec<u16> = near.into_iter().map(|x| x as u16).collect();
            let budget = prop_oneof![4 => 3u16..30, 3 => 3u16..262, 3 => select(near), 1 => 250u16..700];
            let counts = prop_oneof![
                2 => vec((any::<u8>(), 1u64..1000), 0..12).prop_map(|v| { let mut c = vec![0; 256]; for (b, k) in v { c[b as usize] = k; } c }),
                2 => vec(0u64..4, 256),
                2 => vec(0u64..100_000, 256),
                1 => vec(0u32..60, 256).prop_map(|v| v.into_iter().map(|e| 1u64 << e.min(50)).collect()),
                1 => (any::<u8>(), 1u64..40).prop_map(|(s, d)| (0..256u64).map(|i| { let r = (i.wrapping_mul(2 * d + 1) + s as u64) % 256; (1.1f64.powi(r as i32) as u64).min(1 << 40) }).collect()),
                1 => any::<bool>().prop_map(|up| (0..256u64).map(|i| if up { i } else { 255 - i }).collect()),
                1 => (0u64..1000).prop_map(|k| vec![k; 256]),
                2 => vec((0u8..4, any::<u8>()), 256).prop_map(|v| v.into_iter().enumerate().map(|(i, (a, b))| if (97..123).contains(&i) { 100 + b as u64 * 37 } else if a == 0 { b as u64 } else { 0 }).collect()),
                // only the order matters: a few equal groups
                1 => (vec(0u64..5, 8), any::<u8>()).prop_map(|(v, m)| (0..256usize).map(|i| v[(i ^ m as usize) % 8] * 7).collect()),
            ];
            let longs = vec(prop_oneof![vec(select(vec![b'a', b'b', 0, 255]), 2..5), vec(any::<u8>(), 2..6)], 0..8);
            bx(((any::<bool>(), any::<bool>()), prop_oneof![2 => Just(None), 1 => budget.clone().prop_map(Some)], longs, counts, vec(budget, 1..4), any::<bool>(), 0u8..3)
                .prop_map(|((caps, split), first_budget, longs, counts, budgets, sort, long_counts)| Case { split, long_counts, caps, first_budget, longs, counts, budgets, sort }))
        },
        |c: &Case, _, o| check(c, o),
    );
    r.finish()
}
