//! C06: reported counts describe one actual minimal tokenization.
#[path = "../api.rs"]
mod api;
use api::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use texmo::verif::stats2::TokenStats;
use texmo::verif::tokenizer2::FragmentTokenizer;
use vh::pp::*;
use vh::proptest::collection::vec;
use vh::refs::{contains, show, RefSet, Tok};
use vh::run::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Acc {
    set: SetSpec,
    texts: Vec<Vec<u8>>,
    base: Vec<u64>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    set: SetSpec,
    texts: Vec<Vec<u8>>,
}

/// Uses of strings as such, i.e. without the tokens inside sequences.
struct Direct {
    tokens: HashMap<Vec<u8>, u64>,
    seqs: HashMap<Vec<u8>, u64>,
    n_tokens: u64,
    n_seqs: u64,
}

fn direct(r: &RefSet, c: &Counts) -> Result<Direct, String> {
    let mut inside: HashMap<Tok, u64> = HashMap::new();
    let mut d = Direct { tokens: HashMap::new(), seqs: HashMap::new(), n_tokens: 0, n_seqs: 0 };
    for (s, code) in &r.seqs {
        if let Some(&k) = c.seqs.get(s) {
            d.seqs.insert(s.clone(), k);
            d.n_seqs += k;
            for t in code {
                *inside.entry(t.clone()).or_insert(0) += k;
            }
        }
    }
    for t in &r.tokens {
        let all = c.tokens.get(t).copied().unwrap_or(0);
        let ins = inside.get(t).copied().unwrap_or(0);
        match t {
            Tok::Ext(_) => {
                if all != ins {
                    return Err(format!("extension token {t:?} is counted {all} times, the counted sequences contain it {ins} times"));
                }
            }
            Tok::Str(s) => {
                if all < ins {
                    return Err(format!("token {} is counted {all} times, the counted sequences alone contain it {ins} times", show(s)));
                }
                if all > ins {
                    d.tokens.insert(s.clone(), all - ins);
                    d.n_tokens += all - ins;
                }
            }
        }
    }
    Ok(d)
}

fn laws(r: &RefSet, c: &Counts, d: &Direct, text: &[u8]) -> CheckResult {
    if c.scanned != text.len() as u64 {
        return Err(format!("{} bytes scanned of {}", c.scanned, text.len()));
    }
    let sum: u64 = c.tokens.values().sum();
    if sum != c.total {
        return Err(format!("the token counts add up to {sum}, {} reported", c.total));
    }
    let cost: u64 = d.n_tokens + r.seqs.iter().map(|(s, code)| d.seqs.get(s).copied().unwrap_or(0) * code.len() as u64).sum::<u64>();
    if cost != c.total {
        return Err(format!("the counted strings cost {cost}, {} reported", c.total));
    }
    let mut hist = [0i64; 256];
    for &b in text {
        hist[b as usize] += 1;
    }
    for (s, &k) in d.tokens.iter().chain(d.seqs.iter()) {
        if !contains(text, s) {
            return Err(format!("{} is counted but does not occur in the text", show(s)));
        }
        for &b in s {
            hist[b as usize] -= k as i64;
        }
    }
    if let Some(b) = (0..256).find(|&b| hist[b] != 0) {
        return Err(format!("byte {b} occurs {} times more in the text than in the counted strings", hist[b]));
    }
    let mut out: HashMap<&Vec<u8>, u64> = HashMap::new();
    let mut inn: HashMap<&Vec<u8>, u64> = HashMap::new();
    let mut pairs = 0;
    for ((a, b), &k) in &c.pairs {
        let (Tok::Str(a), Tok::Str(b)) = (a, b) else {
            return Err(format!("a pair {a:?}, {b:?} with an extension token"));
        };
        if !contains(text, &[a.as_slice(), b.as_slice()].concat()) {
            return Err(format!("pair {}, {} is counted but does not occur", show(a), show(b)));
        }
        *out.entry(a).or_insert(0) += k;
        *inn.entry(b).or_insert(0) += k;
        pairs += k;
    }
    for m in [&out, &inn] {
        for (s, &k) in m {
            let have = d.tokens.get(*s).copied().unwrap_or(0);
            if k > have {
                return Err(format!("{} is in {k} pairs on one side but used directly {have} times", show(s)));
            }
        }
    }
    let spans = d.n_tokens + d.n_seqs;
    if spans > 0 {
        let lower = (spans - 1).saturating_sub(2 * d.n_seqs);
        let upper = d.n_tokens.saturating_sub(1);
        if pairs < lower || pairs > upper || (d.n_seqs == 0 && pairs != upper) {
            return Err(format!("{pairs} adjacent pairs in a tokenization of {} direct tokens and {} sequences", d.n_tokens, d.n_seqs));
        }
    } else if pairs != 0 {
        return Err("pairs in an empty tokenization".into());
    }
    Ok(())
}

enum Found {
    Yes,
    No,
    GaveUp,
}

/// Is there a minimal segmentation with exactly these counts?
fn realizable(r: &RefSet, c: &Counts, d: &Direct, text: &[u8]) -> Found {
    let n = text.len();
    let mut spans: Vec<(&Vec<u8>, u64, bool)> = Vec::new();
    for (s, _) in &d.tokens {
        spans.push((s, 1, true));
    }
    for (s, code) in &r.seqs {
        if d.seqs.contains_key(s) {
            spans.push((s, code.len() as u64, false));
        }
    }
    let mut left: Vec<u64> = spans.iter().map(|(s, _, t)| if *t { d.tokens[*s] } else { d.seqs[*s] }).collect();
    let index: HashMap<(&Vec<u8>, bool), usize> = spans.iter().enumerate().map(|(i, (s, _, t))| ((*s, *t), i)).collect();
    let mut pairs: HashMap<(usize, usize), u64> = HashMap::new();
    for ((a, b), &k) in &c.pairs {
        let (Tok::Str(a), Tok::Str(b)) = (a, b) else { return Found::No };
        match (index.get(&(a, true)), index.get(&(b, true))) {
            (Some(&x), Some(&y)) => {
                pairs.insert((x, y), k);
            }
            _ => return Found::No,
        }
    }
    let at: Vec<Vec<usize>> = (0..n).map(|i| (0..spans.len()).filter(|&k| text[i..].starts_with(spans[k].0)).collect()).collect();
    let mut nodes = 0u32;
    #[allow(clippy::too_many_arguments)]
    fn go(
        pos: usize,
        prev: Option<usize>,
        n: usize,
        spans: &[(&Vec<u8>, u64, bool)],
        at: &[Vec<usize>],
        left: &mut Vec<u64>,
        pairs: &mut HashMap<(usize, usize), u64>,
        nodes: &mut u32,
    ) -> Option<bool> {
        if pos == n {
            return Some(left.iter().all(|&x| x == 0) && pairs.values().all(|&x| x == 0));
        }
        *nodes += 1;
        if *nodes > 60_000 {
            return None;
        }
        for &k in &at[pos] {
            if left[k] == 0 {
                continue;
            }
            let mut used_pair = None;
            if let (Some(p), true) = (prev, spans[k].2) {
                match pairs.get_mut(&(p, k)) {
                    Some(x) if *x > 0 => {
                        *x -= 1;
                        used_pair = Some((p, k));
                    }
                    _ => continue,
                }
            }
            left[k] -= 1;
            let r = go(pos + spans[k].0.len(), if spans[k].2 { Some(k) } else { None }, n, spans, at, left, pairs, nodes);
            left[k] += 1;
            if let Some(p) = used_pair {
                *pairs.get_mut(&p).unwrap() += 1;
            }
            match r {
                Some(false) => {}
                x => return x,
            }
        }
        Some(false)
    }
    match go(0, None, n, &spans, &at, &mut left, &mut pairs, &mut nodes) {
        Some(true) => Found::Yes,
        Some(false) => Found::No,
        None => Found::GaveUp,
    }
}

fn check(c: &Case, o: &mut Obs) -> CheckResult {
    let ts = c.set.build();
    let r = to_ref(&ts)?;
    let seg = r.segmenter();
    let tk = FragmentTokenizer::new(ts.clone());
    o.label(kind_name(c.set.kind));
    let mut acc = TokenStats::new(ts.clone(), Some(7));
    let mut shared = Vec::new();
    let mut sum = Counts::default();
    let mut keys = Vec::new();
    for t in &c.texts {
        let st = tokenize(&tk, t);
        let k = Counts::of(&st)?;
        tk.process_slice(t, &mut acc, &mut shared);
        sum.add(&k);
        let d = direct(&r, &k).map_err(|e| format!("text {}: {e}", show(t)))?;
        laws(&r, &k, &d, t).map_err(|e| format!("text {}: {e}", show(t)))?;
        let min = seg.min_cost(t).ok_or("HARNESS-ERROR: no segmentation")?;
        if min != k.total {
            return Err(format!("text {} needs {min} tokens, {} reported", show(t), k.total));
        }
        o.label_if(!k.pairs.is_empty(), "text with adjacent pairs");
        o.label_if(d.n_seqs > 0 && d.n_tokens > 0, "text with tokens and sequences");
        if d.tokens.keys().any(|s| s.len() > 1) && d.n_tokens + d.n_seqs > 1 {
            keys.push(hash_of(&(&c.set, t)));
        }
        if t.len() <= 400 {
            match realizable(&r, &k, &d, t) {
                Found::Yes => o.label("counts matched with a minimal segmentation"),
                Found::GaveUp => o.label("search for the segmentation given up (laws only)"),
                Found::No => {
                    return Err(format!("text {}: no segmentation has the reported counts: tokens {:?}, sequences {:?}, pairs {:?}", show(t), d.tokens, d.seqs, k.pairs))
                }
            }
        } else {
            o.label("long text (laws only)");
        }
    }
    if let Some(df) = Counts::of(&acc)?.diff(&sum) {
        return Err(format!("accumulated over {} texts vs sum of separate counts: {df}", c.texts.len()));
    }
    if acc.initial_size != Some(7) {
        return Err("the size of the original data changed".into());
    }
    o.label_if(c.texts.len() > 1, "several texts accumulated");
    o.label_n("texts", c.texts.len() as u64);
    o.nontrivial(!keys.is_empty());
    o.extra(c.texts.len() as u64, keys);
    Ok(())
}

fn main() {
    let mut r = Runner::new(
        "C06",
        "token sets and texts as in C05. For texts up to 400 bytes a search for a minimal segmentation with exactly the reported token, \
         sequence and pair counts; for all texts the conservation laws (bytes spelled out, sums, pair flow); sums over several texts, also on top of counts of up to 2^62. \
         Non-trivial (per text): a multi-byte token is used and the tokenization has at least two parts.",
    );
    r.sub(
        "random",
        26_000,
        1_300_000,
        |ctx| bx(set_and_texts(ctx, 1..7, 25).prop_map(|(set, texts)| Case { set, texts })),
        |c: &Case, _, o| check(c, o),
    );
    // Large counts: long, regular texts.
    r.sub_opts(
        "large",
        160,
        4_000,
        SHARDS,
        300,
        |ctx| {
            let mut reps: Vec<u64> = ctx.dict.near(200, 400_000);
            reps.extend([255, 256, 257, 1000, 65_535, 65_536, 65_537, 100_000]);
            bx((set_and_texts(ctx, 1..3, 12), vh::proptest::sample::select(reps)).prop_map(|((mut set, texts), n)| {
                set.longs.retain(|l| l.len() < 12);
                let texts = texts
                    .into_iter()
                    .map(|t| {
                        let t = if t.is_empty() { b"a".to_vec() } else { t };
                        let n = (n as usize).min(800_000 / t.len());
                        t.repeat(n)
                    })
                    .collect();
                Case { set, texts }
            }))
        },
        |c: &Case, _, o| {
            o.label("text over 100 KB");
            // `contains` on long texts is fine: the strings occur early
            check(c, o)
        },
    );
    // Many tokens.
    let seed = r.ctx.seed;
    let mut bigs = Vec::new();
    for i in 0..if r.ctx.thorough { 120 } else { 15u64 } {
        let n = [3000, 300, 700, 1500, 260][i as usize % 5];
        bigs.push(BigSet { kind: (i % 5) as u8, n, len: [3, 6, 4][i as usize % 3], alpha: [26, 256, 3, 8][(i / 2) as usize % 4], seed: seed.wrapping_mul(7919).wrapping_add(i), order: (i % 3) as u32 * 5 });
    }
    r.enumerate("large sets", bigs, SHARDS, |c| c.smaller(), |c: &BigSet, _, o| {
        let spec = c.spec();
        let texts = (0..3).map(|k| BigSet { seed: c.seed + k, ..c.clone() }.text(&spec, 20 << (2 * k))).collect();
        o.label_if(spec.longs.len() >= 1000, "1000 multi-byte tokens and more");
        check(&Case { set: spec, texts }, o)
    });
    // Going on from the counts of a lot of data.
    r.sub(
        "accumulated",
        6_000,
        300_000,
        |ctx| bx((set_and_texts(ctx, 1..4, 20), vec(huge(), 1..6)).prop_map(|((set, texts), base)| Acc { set, texts, base })),
        |c: &Acc, _, o| {
            let tk = FragmentTokenizer::new(c.set.build());
            let fresh: Vec<TokenStats> = c.texts.iter().map(|t| tokenize(&tk, t)).collect();
            let mut st = TokenStats::new(tk.token_set.clone(), None);
            let mut k = 0;
            let mut next = || {
                k += 1;
                c.base[k % c.base.len()]
            };
            st.total_tokens = next();
            st.scanned_bytes = next();
            let all = [&mut st.token_counts, &mut st.seq_counts, &mut st.pair_counts];
            all.into_iter().flatten().for_each(|x| *x = next());
            let before = st.clone();
            let mut buf = Vec::new();
            for t in &c.texts {
                tk.process_slice(t, &mut st, &mut buf);
            }
            let what = |x: &TokenStats| -> Vec<u64> { [x.total_tokens, x.scanned_bytes].into_iter().chain(x.token_counts.iter().chain(&x.seq_counts).chain(&x.pair_counts).copied()).collect() };
            let mut want = what(&before);
            for f in &fresh {
                for (w, x) in want.iter_mut().zip(what(f)) {
                    *w += x;
                }
            }
            let got = what(&st);
            // the same by merging the statistics of the texts
            let mut st = before.clone();
            for f in &fresh {
                st.merge(f);
            }
            if what(&st) != want {
                return Err("merging the statistics of the texts does not give the sums".into());
            }
            if let Some(i) = (0..want.len()).find(|&i| got.get(i) != Some(&want[i])) {
                return Err(format!("number {i} of the statistics (total tokens, scanned bytes, counts of tokens, sequences, pairs) was {} and becomes {:?} instead of {}", what(&before)[i], got.get(i), want[i]));
            }
            o.nontrivial(c.texts.iter().any(|t| t.len() > 1) && c.base.iter().any(|&b| b > 1 << 31));
            Ok(())
        },
    );
    r.finish()
}
