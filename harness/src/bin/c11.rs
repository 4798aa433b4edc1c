//! C11: token sets survive saving and loading.
#[path = "../api.rs"]
mod api;
use api::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::io::BufReader;
use texmo::verif::optimize_bytes::{BytesOptimizer, HuffOptimizer, SimpleBytesOptimizer};
use texmo::verif::stats2::TokenStats;
use texmo::verif::tokenizer2::FragmentTokenizer;
use texmo::verif::tokenset::{TokenSet, TokenType};
use vh::pp::*;
use vh::proptest::collection::vec;
use vh::refs::{show, RefSet, Tok};
use vh::run::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Add(Vec<u8>),
    Remove(u16),
    Sort,
    /// byteshuff / bits: choose the byte tokens anew
    Optimize(u16),
    /// save and load in between
    Reload,
    ToHuff(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    set: SetSpec,
    ops: Vec<Op>,
    texts: Vec<Vec<u8>>,
    initial: Option<u64>,
}

fn same(a: &RefSet, b: &RefSet, what: &str) -> CheckResult {
    for (n, x, y) in [("type", &a.ttype, &b.ttype), ("processing", &a.processing, &b.processing)] {
        if x != y {
            return Err(format!("{what}: {n} {y} instead of {x}"));
        }
    }
    if a.split != b.split {
        return Err(format!("{what}: paragraph setting {:?} instead of {:?}", b.split, a.split));
    }
    if a.tokens != b.tokens {
        let k = (0..a.tokens.len().max(b.tokens.len())).find(|&k| a.tokens.get(k) != b.tokens.get(k)).unwrap();
        return Err(format!("{what}: {} tokens instead of {}; token {k} is {:?} instead of {:?}", b.tokens.len(), a.tokens.len(), b.tokens.get(k), a.tokens.get(k)));
    }
    let mut m = std::collections::BTreeMap::new();
    for (s, c) in &b.seqs {
        if m.insert(s, c).is_some() {
            return Err(format!("{what}: two sequences for {}", show(s)));
        }
    }
    for (s, c) in &a.seqs {
        match m.remove(s) {
            None => return Err(format!("{what}: no sequence for {}", show(s))),
            Some(d) if d != c => return Err(format!("{what}: {} is encoded by {d:?} instead of {c:?}", show(s))),
            _ => {}
        }
    }
    if let Some((s, _)) = m.into_iter().next() {
        return Err(format!("{what}: unexpected sequence for {}", show(s)));
    }
    Ok(())
}

fn edit(c: &Case) -> TokenSet {
    let mut ts = SetSpec { order: 0, ..c.set.clone() }.build();
    if c.set.order != 0 {
        ts = permute_strs(&ts, c.set.order as u64);
    }
    for op in &c.ops {
        match op {
            Op::Add(s) => {
                if !s.is_empty() && ts.find_token(s).is_none() {
                    ts.add_token(s);
                }
            }
            Op::Remove(k) => {
                // only multi-byte tokens that no sequence needs
                let free: Vec<usize> = (0..ts.tokens.len())
                    .filter(|i| matches!(&ts.tokens[*i], texmo::verif::tokenset::Token::Str(s) if s.len() > 1) && !ts.sequences.iter().any(|s| s.tokens.contains(i)))
                    .collect();
                if !free.is_empty() {
                    ts.remove_token(free[*k as usize % free.len()]);
                }
            }
            Op::Sort => ts.sort(),
            Op::Reload => ts = TokenSet::from_json(ts.to_json()),
            Op::Optimize(n) | Op::ToHuff(n) => {
                if ts.sequences.iter().any(|s| s.string.len() != 1) {
                    continue;
                }
                let mut st = TokenStats::new(ts.clone(), None);
                for (i, x) in st.token_counts.iter_mut().enumerate() {
                    *x = (i as u64 * 7919 + *n as u64) % 101;
                }
                for (i, x) in st.seq_counts.iter_mut().enumerate() {
                    *x = (i as u64 * 104_729 + *n as u64) % 97;
                }
                let huff = matches!(op, Op::ToHuff(_));
                ts = match ts.token_type {
                    TokenType::Bits1 | TokenType::Bits2 | TokenType::Bits4 if !huff => SimpleBytesOptimizer::optimize_bytes(&st, ts.n_ext_tokens + *n as usize % 300),
                    TokenType::BytesHuff => HuffOptimizer::optimize_bytes(&st, 3 + *n as usize % 300),
                    TokenType::Bytes if huff => HuffOptimizer::optimize_bytes(&st, 3 + *n as usize % 300),
                    _ => ts,
                };
            }
        }
    }
    ts
}

fn check(c: &Case, o: &mut Obs) -> CheckResult {
    let ts = edit(c);
    let r = to_ref(&ts)?;
    // as the program does it: a compact string, read from a reader
    let text = serde_json::to_string(&ts.to_json()).map_err(|e| e.to_string())?;
    let value: Value = serde_json::from_reader(BufReader::new(text.as_bytes())).map_err(|e| format!("not JSON: {e}"))?;
    same(&r, &RefSet::from_value(&value)?, "the JSON read independently")?;
    let loaded = TokenSet::from_json(value);
    same(&r, &to_ref(&loaded)?, "loaded")?;
    if loaded.n_ext_tokens != r.n_ext() {
        return Err(format!("{} extension tokens instead of {}", loaded.n_ext_tokens, r.n_ext()));
    }
    if loaded.name() != ts.name() || loaded.ntokens() != ts.ntokens() {
        return Err(format!("name {} instead of {}", loaded.name(), ts.name()));
    }
    // again
    let again = serde_json::to_string(&loaded.to_json()).map_err(|e| e.to_string())?;
    same(&r, &to_ref(&TokenSet::from_json(serde_json::from_str(&again).map_err(|e| e.to_string())?))?, "loaded twice")?;
    // with statistics
    let mut st = TokenStats::new(ts.clone(), c.initial);
    st.total_tokens = 1;
    let v: Value = serde_json::from_str(&serde_json::to_string(&st.to_json()).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
    same(&r, &to_ref(&TokenSet::from_json(v))?, "loaded from a file with statistics")?;
    // usable like the original
    let (ta, tb) = (FragmentTokenizer::new(ts.clone()), FragmentTokenizer::new(loaded));
    for t in &c.texts {
        let (a, b) = (Counts::of(&tokenize(&ta, t))?, Counts::of(&tokenize(&tb, t))?);
        if a.total != b.total || a.scanned != b.scanned {
            return Err(format!("{}: {} tokens with the loaded set, {} with the original", show(t), b.total, a.total));
        }
    }
    let non_utf8 = r.tokens.iter().any(|t| matches!(t, Tok::Str(s) if s.len() > 1 && std::str::from_utf8(s).is_err()));
    o.label(kind_name(c.set.kind));
    o.label_if(non_utf8, "multi-byte token that is not UTF-8");
    o.label_if(r.seqs.iter().any(|(s, _)| s.len() > 1), "sequence for a multi-byte string");
    o.label_if(r.seqs.is_empty(), "no sequences");
    o.label_if(c.ops.iter().any(|x| matches!(x, Op::Optimize(_) | Op::ToHuff(_))), "result of a byte optimizer");
    o.nontrivial(!r.seqs.is_empty() && !r.long_tokens().is_empty());
    Ok(())
}

fn main() {
    let mut r = Runner::new(
        "C11",
        "token sets of every type with random byte tokens, multi-byte tokens (also not UTF-8), encodings and order, after up to 8 additions, \
         removals, sorts, byte optimizations and reloads; sets of 254 to 66,000 tokens; written as the program writes them, read by the program and by an independent reader. \
         Non-trivial: the set has sequences and multi-byte tokens.",
    );
    r.sub(
        "random",
        9_000,
        450_000,
        |ctx| {
            let op = prop_oneof![
                4 => prop_oneof![vec(prop_oneof![Just(b'a'), Just(b'b'), any::<u8>()], 1..5), any::<u8>().prop_map(|b| vec![b]), Just("é\"\\\u{7f}\u{0}".as_bytes().to_vec()), Just("\u{2028}/<".as_bytes().to_vec())].prop_map(Op::Add),
                2 => any::<u16>().prop_map(Op::Remove),
                1 => Just(Op::Sort),
                2 => any::<u16>().prop_map(Op::Optimize),
                1 => any::<u16>().prop_map(Op::ToHuff),
                1 => Just(Op::Reload),
            ];
            bx((set_and_texts(ctx, 1..4, 25), vec(op, 0..8), prop_oneof![Just(None), any::<u64>().prop_map(Some)])
                .prop_map(|((set, texts), ops, initial)| Case { set, ops, texts, initial }))
        },
        |c: &Case, _, o| check(c, o),
    );
    // JSON only, without the costly tokenizers
    r.sub(
        "json",
        60_000,
        3_000_000,
        |ctx| {
            let _ = ctx;
            let s = prop_oneof![3 => vec(any::<u8>(), 1..6), 2 => "\\PC{1,4}".prop_map(|s| s.into_bytes()), 1 => "[\\x00-\\x1f\"\\\\/]{1,3}".prop_map(|s| s.into_bytes())];
            bx((0u8..5, any::<bool>(), any::<bool>(), vec(any::<u8>(), 1..300), vec(s.clone(), 0..30), 2u8..200, vec(any::<u8>(), 0..6), prop_oneof![3 => Just(vec![]), 1 => vec((s, vec(any::<u8>(), 0..4)), 0..5)], any::<u32>())
                .prop_map(|(kind, caps, split, bytes, longs, n_ext, codes, multi, order)| Case {
                    set: SetSpec { kind, caps, split, bytes, longs, n_ext, codes, multi, order },
                    ops: vec![],
                    texts: vec![],
                    initial: None,
                }))
        },
        |c: &Case, _, o| json_only(edit(c), c.set.kind, o),
    );
    // Many tokens, in orders that put those the sequences need anywhere.
    let seed = r.ctx.seed;
    let mut bigs = Vec::new();
    for i in 0..if r.ctx.thorough { 150 } else { 25u64 } {
        let n = [300, 66_000, 1000, 66_000, 5000, 254][i as usize % 6];
        bigs.push(BigSet { kind: if n > 60_000 && i % 4 != 3 { 4 } else { (i % 5) as u8 }, n, len: [4, 5, 3][i as usize % 3], alpha: [256, 100][(i / 2) as usize % 2], seed: seed.wrapping_mul(7919).wrapping_add(i), order: (i % 3) as u32 * 5 });
    }
    bigs.sort_by_key(|b| std::cmp::Reverse(b.n));
    r.enumerate("large sets", bigs, SHARDS, |c| c.smaller(), |c: &BigSet, _, o| {
        let spec = c.spec();
        let order = spec.order as u64;
        let mut ts = SetSpec { order: 0, ..spec }.build();
        if order != 0 {
            ts = permute_strs(&ts, order);
        }
        if c.seed / 2 % 2 == 0 {
            // those that sequences use come last
            ts = bytes_last(&ts);
        }
        o.label_if(ts.tokens.len() > 1 << 16, "more than 2^16 tokens");
        json_only(ts, c.kind, o)
    });
    r.finish()
}

fn json_only(ts: TokenSet, kind: u8, o: &mut Obs) -> CheckResult {
    let r = to_ref(&ts)?;
    let text = serde_json::to_string(&ts.to_json()).map_err(|e| e.to_string())?;
    let value: Value = serde_json::from_str(&text).map_err(|e| format!("not JSON: {e}"))?;
    same(&r, &RefSet::from_value(&value)?, "the JSON read independently")?;
    same(&r, &to_ref(&TokenSet::from_json(value))?, "loaded")?;
    o.label(kind_name(kind));
    o.nontrivial(!r.seqs.is_empty() && !r.long_tokens().is_empty());
    Ok(())
}
