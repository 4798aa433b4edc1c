//! C08: the tokenizer cache is transparent.
#[path = "../api.rs"]
mod api;
use api::*;
use serde::{Deserialize, Serialize};
use texmo::verif::batch_tokenize::TokenizerCache;
use texmo::verif::input::memory_sampler::MemorySampler;
use texmo::verif::input::sample::Sampler;
use texmo::verif::stats2::TokenStats;
use texmo::verif::tokenizer2::FragmentTokenizer;
use texmo::verif::tokenset::TokenSet;
use vh::pp::*;
use vh::proptest::collection::vec;
use vh::refs::{RefSet, Tok};
use vh::run::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    set: SetSpec,
    text: String,
    chunk: u32,
    initial: Option<u64>,
    /// How each further set of the pool differs from an earlier one.
    variants: Vec<(u8, u8, u8, Vec<u8>)>,
    /// (set, with pairs)
    queries: Vec<(u8, bool)>,
}

fn vary(base: &SetSpec, how: u8, k: u8, bytes: &[u8]) -> SetSpec {
    let mut s = base.clone();
    let b0 = bytes.first().copied().unwrap_or(b'a');
    match how % 14 {
        0 => s.order = s.order.wrapping_add(1 + k as u32),
        1 => s.caps = !s.caps,
        2 => s.split = !s.split,
        3 => s.kind = s.kind.wrapping_add(1 + k % 4) % 5,
        4 => {
            if !s.longs.is_empty() {
                let i = k as usize % s.longs.len();
                s.longs.remove(i);
            }
        }
        5 => {
            let l = if bytes.len() >= 2 { bytes.to_vec() } else { vec![b0, b0] };
            if !s.longs.contains(&l) {
                s.longs.push(l);
            }
        }
        6 => {
            // one token changes by a byte
            if !s.longs.is_empty() {
                let i = k as usize % s.longs.len();
                let mut l = s.longs[i].clone();
                let j = b0 as usize % l.len();
                l[j] ^= 1;
                if !s.longs.contains(&l) {
                    s.longs[i] = l;
                }
            }
        }
        7 => {
            // same tokens, other encodings
            s.codes = bytes.to_vec();
        }
        8 => {
            if s.bytes.contains(&b0) {
                s.bytes.retain(|&x| x != b0);
            } else {
                s.bytes.push(b0);
            }
        }
        9 => {
            // one byte token replaced by another one: same number
            if !s.bytes.is_empty() && !s.bytes.contains(&b0) {
                let i = k as usize % s.bytes.len();
                s.bytes[i] = b0;
            }
        }
        10 => s.n_ext = 2 + k % 6,
        11 => {
            // swap contents of two tokens' places
            s.longs.reverse();
            s.bytes.reverse();
        }
        12 => {
            // a token moves to the multi-byte sequences or back
            if s.multi.is_empty() {
                if let Some(l) = s.longs.pop() {
                    s.multi.push((l, bytes.to_vec()));
                }
            } else {
                let (l, _) = s.multi.remove(0);
                if !s.longs.contains(&l) {
                    s.longs.push(l);
                }
            }
        }
        _ => {
            for m in s.multi.iter_mut() {
                m.1 = bytes.to_vec();
            }
        }
    }
    s
}

/// Sorted order as documented: extension tokens first, then strings by bytes;
/// sequences by string.
fn sorted(r: &RefSet) -> RefSet {
    let mut s = r.clone();
    s.tokens.sort_by(|a, b| match (a, b) {
        (Tok::Ext(x), Tok::Ext(y)) => x.cmp(y),
        (Tok::Ext(_), _) => std::cmp::Ordering::Less,
        (_, Tok::Ext(_)) => std::cmp::Ordering::Greater,
        (Tok::Str(x), Tok::Str(y)) => x.cmp(y),
    });
    s.seqs.sort();
    s
}

fn fresh(ts: &TokenSet, sampler: &MemorySampler) -> TokenStats {
    let tk = FragmentTokenizer::new(ts.clone());
    let mut st = TokenStats::new(ts.clone(), None);
    let mut buf = Vec::new();
    for s in sampler.iter() {
        tk.process_slice(s.as_bytes(), &mut st, &mut buf);
    }
    st
}

fn check(c: &Case, o: &mut Obs) -> CheckResult {
    let mut specs = vec![c.set.clone()];
    for (from, how, k, bytes) in &c.variants {
        let base = specs[*from as usize % specs.len()].clone();
        specs.push(vary(&base, *how, *k, bytes));
    }
    let pool: Vec<TokenSet> = specs.iter().map(|s| s.build()).collect();
    let sampler = MemorySampler::from_str(&c.text, c.chunk.max(4) as usize);
    let mut expected: Vec<Option<(RefSet, Counts)>> = vec![None; pool.len()];
    let mut cache = TokenizerCache::new(&sampler, c.initial);
    let mut seen = std::collections::HashSet::new();
    let mut answered: Vec<usize> = Vec::new();
    for (qi, (q, pairs)) in c.queries.iter().enumerate() {
        let i = *q as usize % pool.len();
        if expected[i].is_none() {
            let want = sorted(&to_ref(&pool[i])?);
            // from scratch, in the order the sampler yields
            let mut s = pool[i].clone();
            s.sort();
            expected[i] = Some((want, Counts::of(&fresh(&s, &sampler))?));
        }
        let (want, counts) = expected[i].as_ref().unwrap();
        let st = if *pairs { cache.get_stats_with_pairs(&pool[i]) } else { cache.get_stats(&pool[i]) };
        let at = || format!("query {qi} (set {i}, {}; earlier queries {:?})", if *pairs { "with pairs" } else { "without pairs" }, &c.queries[..qi]);
        let got = to_ref(&st.token_set)?;
        if got != *want {
            let k = got.tokens.iter().zip(&want.tokens).position(|(a, b)| a != b);
            return Err(format!("{}: the answer is for another token set: type {} for {}, processing {} for {}, split {:?} for {:?}, {} tokens for {}, first difference {k:?}, same sequences: {}", at(), got.ttype, want.ttype, got.processing, want.processing, got.split, want.split, got.tokens.len(), want.tokens.len(), got.seqs == want.seqs));
        }
        if st.initial_size != c.initial {
            return Err(format!("{}: size of the original data {:?}, given {:?}", at(), st.initial_size, c.initial));
        }
        let mut k = Counts::of(&st)?;
        let mut w = counts.clone();
        if !*pairs && st.pair_counts.is_empty() {
            w.pairs.clear();
        }
        if *pairs && st.pair_counts.len() != want.tokens.len() * want.tokens.len() {
            return Err(format!("{}: {} pair counts", at(), st.pair_counts.len()));
        }
        if !*pairs && !st.pair_counts.is_empty() {
            // more than asked for is fine as long as it is right
            k.pairs.retain(|_, _| true);
        }
        if let Some(d) = k.diff(&w) {
            return Err(format!("{}: cache vs from scratch: {d}", at()));
        }
        o.label_if(seen.contains(&i), "repeated query");
        o.label_if(answered.iter().any(|&j| j != i && to_ref(&pool[j]).map(|r| r.canon() == to_ref(&pool[i]).unwrap().canon()).unwrap_or(false)), "same set in another order queried before");
        seen.insert(i);
        if !answered.contains(&i) {
            answered.push(i);
        }
        o.label("queries");
    }
    o.nontrivial(answered.len() >= 2 && c.queries.len() > answered.len());
    Ok(())
}

/// One cache asked about very many sets, as in an optimization.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Many {
    n: u32,
    key: u64,
    text: String,
}

fn many(c: &Many, o: &mut Obs) -> CheckResult {
    let sampler = MemorySampler::from_str(&c.text, 1 << 20);
    let mut cache = TokenizerCache::new(&sampler, Some(c.key));
    for i in 0..c.n as u64 {
        let x = (i + 1).wrapping_mul(c.key | 1).rotate_left(23).wrapping_mul(0x9e37_79b9_7f4a_7c15);
        let mut ts = TokenSet::new_bits4(texmo::verif::processing::Processing::Raw, true);
        for k in 0..1 + x % 2 {
            // pieces of the text, and strings that don't occur
            let y = x >> (4 + 26 * k);
            if y % 3 == 0 {
                ts.add_token(format!("{k}{y:x}").as_bytes());
            } else {
                let (from, len) = ((y >> 3) as usize % (c.text.len() - 10), 2 + (y >> 16) as usize % 8);
                let l = &c.text.as_bytes()[from..from + len];
                if ts.find_token(l).is_none() {
                    ts.add_token(l);
                }
            }
        }
        let st = if i % 16 == 15 { cache.get_stats_with_pairs(&ts) } else { cache.get_stats(&ts) };
        let mut s = ts.clone();
        s.sort();
        let at = |what: &str| Err(format!("set number {i} (tokens {:?}): {what}", &s.tokens[16..]));
        if st.token_set.tokens != s.tokens || st.token_set.sequences != s.sequences {
            return at(&format!("the answer is for tokens {:?}", &st.token_set.tokens[16..]));
        }
        let want = fresh(&s, &sampler);
        if (st.total_tokens, st.scanned_bytes, &st.token_counts) != (want.total_tokens, want.scanned_bytes, &want.token_counts) {
            return at(&format!("{} tokens instead of {}, or other counts", st.total_tokens, want.total_tokens));
        }
        o.label("sets asked about");
    }
    o.nontrivial(c.n > 100);
    Ok(())
}

fn main() {
    let mut r = Runner::new(
        "C08",
        "histories of 1-24 queries (with / without pair counts) over a pool of up to 9 token sets: a random one and variants of it \
         (order, processing, paragraph setting, type, one token added / removed / changed by one byte, other encodings with the same tokens, \
         byte tokens exchanged, string as token or as sequence); caches asked about a thousand sets; compared with tokenizing each sorted set from scratch. \
         Non-trivial: at least two different sets were queried and at least one of them again.",
    );
    r.sub(
        "histories",
        9_000,
        500_000,
        |ctx| {
            bx((
                set_and_texts(ctx, 1..4, 25),
                prop_oneof![3 => Just(1u32 << 20), 1 => 4u32..60],
                prop_oneof![Just(None), any::<u64>().prop_map(Some)],
                vec((any::<u8>(), 0u8..14, any::<u8>(), vec(prop_oneof![Just(b'a'), Just(b'b'), any::<u8>()], 0..4)), 0..9),
                vec((any::<u8>(), any::<bool>()), 1..25),
            )
                .prop_map(|((set, texts), chunk, initial, variants, queries)| Case {
                    set,
                    text: String::from_utf8_lossy(&texts.concat()).to_string(),
                    chunk,
                    initial,
                    variants,
                    queries,
                }))
        },
        |c: &Case, _, o| check(c, o),
    );
    // failures need both sets: the number of sets is halved
    let n = if r.ctx.thorough { 4000 } else { 1000 };
    let cases: Vec<Many> = (0..8u64).map(|i| Many { n, key: r.ctx.seed.wrapping_mul(8).wrapping_add(i).wrapping_mul(0x2545_f491_4f6c_dd1d), text: "many words for a text of some length, with \u{e9}\n\nand a \u{4e2d} or two".into() }).collect();
    r.enumerate("many sets", cases, 8, |c| vec![Many { n: c.n / 2, ..c.clone() }, Many { n: c.n - c.n / 8, ..c.clone() }, Many { n: c.n.saturating_sub(1), ..c.clone() }], |c: &Many, _, o| many(c, o));
    r.finish()
}
