//! C12: editing a token set never corrupts it (model-based).
#[path = "../api.rs"]
mod api;
use api::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use texmo::verif::processing::Processing;
use texmo::verif::tokenset::{TokenSet, TokenType};
use vh::pp::*;
use vh::proptest::collection::vec;
use vh::proptest::sample::select;
use vh::refs::{bits_code, show, Tok};
use vh::run::*;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Op {
    /// add this string as a token (unless it is one)
    Add(Vec<u8>),
    /// add as a token a string that has a sequence
    AddSequenced(u16),
    /// add a sequence for the string by these tokens (by position)
    AddSeq(Vec<u8>, Vec<u16>),
    /// remove one of the tokens no sequence uses
    Remove(u16),
    /// remove the last token, if no sequence uses it
    RemoveLast,
    /// remove and add again
    Replace(u16),
    Sort,
    Clone,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    /// 0-2 bits, 3 bytes, 4 byteshuff with n_ext
    kind: u8,
    n_ext: u8,
    /// this many multi-byte tokens to begin with
    #[serde(default)]
    bulk: u32,
    ops: Vec<Op>,
}

struct Model {
    tokens: Vec<Tok>,
    seqs: BTreeMap<Vec<u8>, Vec<Tok>>,
}

fn start(c: &Case) -> (TokenSet, Model) {
    let p = Processing::Raw;
    let mut m = Model { tokens: vec![], seqs: BTreeMap::new() };
    let ts = match c.kind % 5 {
        0 => TokenSet::new_bits1(p, true),
        1 => TokenSet::new_bits2(p, true),
        2 => TokenSet::new_bits4(p, true),
        3 => TokenSet::new_bytes(p),
        _ => TokenSet::new(c.n_ext as usize, p, TokenType::BytesHuff, true),
    };
    match c.kind % 5 {
        k @ 0..=2 => {
            let bits = 1 << k;
            m.tokens = (0..1u16 << bits).map(|i| Tok::Ext(i as u8)).collect();
            for b in 0..=255u8 {
                m.seqs.insert(vec![b], bits_code(bits, b));
            }
        }
        3 => m.tokens = (0..=255u8).map(|b| Tok::Str(vec![b])).collect(),
        _ => m.tokens = (0..c.n_ext).map(Tok::Ext).collect(),
    }
    (ts, m)
}

fn compare(ts: &TokenSet, m: &Model) -> CheckResult {
    let r = to_ref(ts)?;
    let (mut a, mut b) = (r.tokens.clone(), m.tokens.clone());
    a.sort();
    b.sort();
    if a != b {
        let missing: Vec<&Tok> = b.iter().filter(|t| a.binary_search(t).is_err()).take(5).collect();
        let extra: Vec<&Tok> = a.iter().filter(|t| b.binary_search(t).is_err()).take(5).collect();
        return Err(format!("{} tokens instead of {}; missing {missing:?}, unexpected {extra:?}", a.len(), b.len()));
    }
    let mut seen = BTreeMap::new();
    for (s, t) in &r.seqs {
        if seen.insert(s.clone(), t.clone()).is_some() {
            return Err(format!("two sequences for {}", show(s)));
        }
    }
    if seen != m.seqs {
        for (s, t) in &m.seqs {
            match seen.get(s) {
                None => return Err(format!("the sequence for {} is gone", show(s))),
                Some(x) if x != t => return Err(format!("{} is encoded by {x:?} instead of {t:?}", show(s))),
                _ => {}
            }
        }
        let k = seen.keys().find(|k| !m.seqs.contains_key(*k)).unwrap();
        return Err(format!("unexpected sequence for {}", show(k)));
    }
    if ts.ntokens() != m.tokens.len() {
        return Err(format!("ntokens {} for {} tokens", ts.ntokens(), m.tokens.len()));
    }
    let long = m.tokens.iter().filter(|t| matches!(t, Tok::Str(s) if s.len() > 1)).count();
    if ts.n_long_tokens() != long {
        return Err(format!("n_long_tokens {} for {long} multi-byte tokens", ts.n_long_tokens()));
    }
    Ok(())
}

fn check(c: &Case, o: &mut Obs) -> CheckResult {
    let (mut ts, mut m) = start(c);
    for k in 0..c.bulk {
        let s = [&b"\x80"[..], &k.to_be_bytes()].concat();
        ts.add_token(&s);
        m.tokens.push(Tok::Str(s));
    }
    compare(&ts, &m).map_err(|e| format!("new set: {e}"))?;
    let (mut removed_inside, mut sorted_with_seqs) = (false, false);
    let mut snapshots: Vec<(TokenSet, Model)> = Vec::new();
    for (i, op) in c.ops.iter().enumerate() {
        let at = |e: String| format!("operation {i} {op:?}: {e}");
        let add = |ts: &mut TokenSet, m: &mut Model, s: &Vec<u8>| -> CheckResult {
            if s.is_empty() || m.tokens.contains(&Tok::Str(s.clone())) {
                return Ok(());
            }
            let idx = ts.add_token(s);
            m.seqs.remove(s);
            m.tokens.push(Tok::Str(s.clone()));
            let there = to_ref(ts)?.tokens.get(idx).cloned();
            if there != Some(Tok::Str(s.clone())) {
                return Err(format!("reported position {idx} of {} holds {there:?}", show(s)));
            }
            Ok(())
        };
        // tokens no sequence refers to
        let free = |ts: &TokenSet| -> Vec<usize> { {
            let used: std::collections::HashSet<usize> = ts.sequences.iter().flat_map(|s| s.tokens.iter().copied()).collect();
            (0..ts.tokens.len()).filter(|k| !used.contains(k)).collect::<Vec<_>>()
        } };
        let remove = |ts: &mut TokenSet, m: &mut Model, k: usize| -> Result<Option<Vec<u8>>, String> {
            let Tok::Str(s) = to_ref(ts)?.tokens[k].clone() else { return Ok(None) };
            ts.remove_token(k);
            m.tokens.retain(|t| *t != Tok::Str(s.clone()));
            Ok(Some(s))
        };
        match op {
            Op::Add(s) => add(&mut ts, &mut m, s).map_err(at)?,
            Op::AddSequenced(k) => {
                let keys: Vec<Vec<u8>> = m.seqs.keys().cloned().collect();
                if !keys.is_empty() {
                    // prefer a string that is part of others' encodings or adjacent to them
                    let s = keys[*k as usize % keys.len()].clone();
                    add(&mut ts, &mut m, &s).map_err(at)?;
                    o.label("string with a sequence becomes a token");
                }
            }
            Op::AddSeq(s, code) => {
                if !s.is_empty() && !m.tokens.is_empty() && !code.is_empty() && !m.seqs.contains_key(s) && !m.tokens.contains(&Tok::Str(s.clone())) {
                    let n = ts.tokens.len();
                    let idx: Vec<usize> = code.iter().map(|x| if *x >= 60_000 { n - 1 - (*x as usize - 60_000) % n } else { *x as usize % n }).collect();
                    let r = to_ref(&ts).map_err(at)?;
                    m.seqs.insert(s.clone(), idx.iter().map(|&x| r.tokens[x].clone()).collect());
                    ts.add_sequence(s.clone(), idx);
                }
            }
            Op::Remove(k) => {
                let f = free(&ts);
                if !f.is_empty() {
                    let k = f[*k as usize % f.len()];
                    let last = ts.tokens.len() - 1;
                    removed_inside |= k != last && ts.sequences.iter().any(|s| s.tokens.contains(&last));
                    remove(&mut ts, &mut m, k).map_err(at)?;
                }
            }
            Op::RemoveLast => {
                let last = ts.tokens.len().wrapping_sub(1);
                if free(&ts).contains(&last) {
                    remove(&mut ts, &mut m, last).map_err(at)?;
                }
            }
            Op::Replace(k) => {
                let f = free(&ts);
                if !f.is_empty() {
                    if let Some(s) = remove(&mut ts, &mut m, f[*k as usize % f.len()]).map_err(at)? {
                        add(&mut ts, &mut m, &s).map_err(at)?;
                    }
                }
            }
            Op::Sort => {
                sorted_with_seqs |= !m.seqs.is_empty();
                ts.sort();
                let r = to_ref(&ts).map_err(at)?;
                let mut t = r.tokens.clone();
                t.sort(); // Ext before Str, then by value
                if r.tokens != t {
                    return Err(at("the tokens are not in order".into()));
                }
                if r.seqs.windows(2).any(|w| w[0].0 > w[1].0) {
                    return Err(at("the sequences are not in order".into()));
                }
            }
            Op::Clone => snapshots.push((ts.clone(), Model { tokens: m.tokens.clone(), seqs: m.seqs.clone() })),
        }
        compare(&ts, &m).map_err(at)?;
        // every token is found where it is
        for s in c.ops.iter().filter_map(|x| match x {
            Op::Add(s) => Some(s),
            _ => None,
        }) {
            let got = ts.find_token(s);
            let want = to_ref(&ts).map_err(at)?.tokens.iter().position(|t| *t == Tok::Str(s.clone()));
            if got != want {
                return Err(at(format!("{} found at {got:?}, it is at {want:?}", show(s))));
            }
        }
    }
    for (t, m) in &snapshots {
        compare(t, m).map_err(|e| format!("a copy made earlier has changed: {e}"))?;
    }
    o.label_if(removed_inside, "removal moves a token used by a sequence");
    o.label_if(sorted_with_seqs, "sort with sequences");
    o.label_n("operations", c.ops.len() as u64);
    o.nontrivial(!m.seqs.is_empty() && (removed_inside || sorted_with_seqs));
    Ok(())
}

fn operations() -> BoxedStrategy<Op> {
    let s = prop_oneof![
        6 => vec(select(vec![b'a', b'b', b'c', 0u8, 255]), 1..4),
        2 => any::<u8>().prop_map(|b| vec![b]),
        1 => vec(any::<u8>(), 1..6),
    ];
    bx(prop_oneof![
        6 => s.clone().prop_map(Op::Add),
        2 => any::<u16>().prop_map(Op::AddSequenced),
        5 => (s, vec(prop_oneof![Just(60_000u16), 60_000u16..60_004, 0u16..20, any::<u16>()], 1..5)).prop_map(|(a, b)| Op::AddSeq(a, b)),
        4 => any::<u16>().prop_map(Op::Remove),
        1 => Just(Op::RemoveLast),
        2 => any::<u16>().prop_map(Op::Replace),
        2 => Just(Op::Sort),
        1 => Just(Op::Clone),
    ])
}

fn kinds() -> BoxedStrategy<(u8, u8)> {
    bx((prop_oneof![1 => 0u8..4, 2 => Just(4u8)], prop_oneof![4 => 0u8..5, 1 => any::<u8>()]).prop_map(|(k, n)| (k, n.min(254))))
}

fn main() {
    let mut r = Runner::new(
        "C12",
        "histories of 1-40 operations (add token, add a string that has a sequence, add sequence, remove an unused token, remove the last one, \
         remove and re-add, sort, copy) on sets of every kind (also with 240 to 70,000 further tokens), compared after each step with a model that knows contents, not positions. Strings \
         from a small alphabet so that they collide. Non-trivial: sequences are present while a removal moves a token they use, or while sorting.",
    );
    r.sub(
        "histories",
        60_000,
        3_000_000,
        |_| {
            bx((kinds(), vec(operations(), 1..40)).prop_map(|((kind, n_ext), ops)| Case { kind, n_ext, bulk: 0, ops }))
        },
        |c: &Case, _, o| check(c, o),
    );
    r.sub_opts(
        "large sets",
        120,
        6_000,
        SHARDS,
        60,
        |_| {
            let bulk = prop_oneof![2 => 240u32..270, 1 => 1000u32..5000, 2 => 65_270u32..65_550, 1 => 65_550u32..70_000];
            bx((kinds(), bulk, vec(operations(), 1..8)).prop_map(|((kind, n_ext), bulk, ops)| Case { kind, n_ext, bulk, ops }))
        },
        |c: &Case, _, o| {
            o.label_if(c.bulk > 65_000, "more than 65,000 tokens");
            check(c, o)
        },
    );
    r.finish()
}
