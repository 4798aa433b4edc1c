//! Helpers that use texmo's own API; included by the binaries that need them.
#![allow(dead_code)]
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use texmo::verif::processing::Processing;
use texmo::verif::stats2::TokenStats;
use texmo::verif::tokenizer2::FragmentTokenizer;
use texmo::verif::tokenset::{Token, TokenSet, TokenType};
use vh::pp::*;
use vh::proptest::collection::vec;
use vh::proptest::sample::select;
use vh::refs::{RefSet, Segmenter, Tok};
use vh::run::*;

/// A token set, described by what it contains.
#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct SetSpec {
    /// bits1, bits2, bits4, bytes, byteshuff
    pub kind: u8,
    pub caps: bool,
    pub split: bool,
    pub bytes: Vec<u8>,
    pub longs: Vec<Vec<u8>>,
    /// byteshuff only
    pub n_ext: u8,
    pub codes: Vec<u8>,
    /// sequences for multi-byte strings (byteshuff only)
    pub multi: Vec<(Vec<u8>, Vec<u8>)>,
    /// 0: as constructed, otherwise tokens and sequences are permuted
    pub order: u32,
}

pub fn kind_name(k: u8) -> &'static str {
    ["bits1", "bits2", "bits4", "bytes", "byteshuff"][k as usize % 5]
}

fn shuffle<T>(v: &mut [T], mut seed: u64) {
    for i in (1..v.len()).rev() {
        seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        v.swap(i, (seed >> 33) as usize % (i + 1));
    }
}

/// Permutes string tokens and sequences; extension tokens stay in front, where
/// every set the program builds or loads has them.
pub fn permute_strs(ts: &TokenSet, seed: u64) -> TokenSet {
    let (ext, mut strs): (Vec<usize>, Vec<usize>) = (0..ts.tokens.len()).partition(|&i| matches!(ts.tokens[i], Token::Ext(_)));
    shuffle(&mut strs, seed);
    reorder(ts, ext.into_iter().chain(strs).collect(), seed)
}

/// Single-byte tokens after all others.
pub fn bytes_last(ts: &TokenSet) -> TokenSet {
    let (last, first): (Vec<usize>, Vec<usize>) = (0..ts.tokens.len()).partition(|&i| matches!(&ts.tokens[i], Token::Str(s) if s.len() == 1));
    reorder(ts, first.into_iter().chain(last).collect(), ts.tokens.len() as u64)
}

pub fn permute(ts: &TokenSet, seed: u64) -> TokenSet {
    let mut idx: Vec<usize> = (0..ts.tokens.len()).collect();
    shuffle(&mut idx, seed);
    reorder(ts, idx, seed)
}

fn reorder(ts: &TokenSet, idx: Vec<usize>, seed: u64) -> TokenSet {
    let mut t = ts.clone();
    let mut pos = vec![0; idx.len()];
    for (new, &old) in idx.iter().enumerate() {
        pos[old] = new;
    }
    t.tokens = idx.iter().map(|&o| ts.tokens[o].clone()).collect();
    for s in t.sequences.iter_mut() {
        for x in s.tokens.iter_mut() {
            *x = pos[*x];
        }
    }
    shuffle(&mut t.sequences, seed ^ 0x9e3779b97f4a7c15);
    t
}

impl SetSpec {
    pub fn processing(&self) -> Processing {
        if self.caps {
            Processing::CapsWords
        } else {
            Processing::Raw
        }
    }

    pub fn build(&self) -> TokenSet {
        let p = self.processing();
        let mut own: BTreeSet<Vec<u8>> = BTreeSet::new();
        let mut ts = match self.kind % 5 {
            0 => TokenSet::new_bits1(p, self.split),
            1 => TokenSet::new_bits2(p, self.split),
            2 => TokenSet::new_bits4(p, self.split),
            3 => {
                for b in 0..=255u8 {
                    own.insert(vec![b]);
                }
                TokenSet::new_bytes(p)
            }
            _ => TokenSet::new(self.n_ext.clamp(2, 200) as usize, p, TokenType::BytesHuff, self.split),
        };
        let mut bytes = self.bytes.clone();
        if self.kind % 5 == 4 && bytes.is_empty() {
            bytes.push(b'a');
        }
        for &b in &bytes {
            if own.insert(vec![b]) {
                ts.add_token(&[b]);
            }
        }
        if self.kind % 5 == 4 {
            let n_ext = self.n_ext.clamp(2, 200) as usize;
            let firsts: Vec<usize> = (n_ext..ts.tokens.len()).collect();
            let code = |k: usize, c: u8| -> Vec<usize> {
                let mut v = vec![firsts[(c as usize + k) % firsts.len()]];
                // the digits of k make codes different
                let mut k = k;
                loop {
                    v.push(k % n_ext);
                    k /= n_ext;
                    if k == 0 {
                        break;
                    }
                }
                v
            };
            for b in 0..=255u8 {
                if !own.contains(&vec![b]) {
                    let c = if self.codes.is_empty() { 0 } else { self.codes[b as usize % self.codes.len()] };
                    let mut v = code(b as usize / firsts.len(), c);
                    for _ in 0..c % 4 {
                        v.push(c as usize % n_ext);
                    }
                    ts.add_sequence(vec![b], v);
                }
            }
            for (i, (s, c)) in self.multi.iter().enumerate() {
                if s.len() >= 2 && own.insert(s.clone()) && !self.longs.contains(s) {
                    let mut v: Vec<usize> = c.iter().map(|&x| x as usize % ts.tokens.len()).collect();
                    v.insert(0, firsts[i % firsts.len()]);
                    v.push(i % n_ext);
                    ts.add_sequence(s.clone(), v);
                }
            }
        }
        for l in &self.longs {
            if l.len() >= 2 && own.insert(l.clone()) {
                ts.add_token(l);
            }
        }
        if self.order != 0 {
            ts = permute(&ts, self.order as u64);
        }
        ts
    }
}

fn alphabet() -> BoxedStrategy<Vec<u8>> {
    bx(prop_oneof![
        6 => select(vec![b"ab".to_vec(), b"abc".to_vec(), b"ab \n".to_vec(), b"a".to_vec(), vec![0, 255], vec![0, 1, b'a'], vec![0xd0, 0xb0, 0xb1, b'a'], b"aA\n\x16".to_vec(), vec![127, 128, 129]]),
        1 => vec(any::<u8>(), 1..5),
        1 => vec(any::<u8>(), 5..40),
    ])
}

fn token_strings(alpha: Vec<u8>, maxlen: usize, n: std::ops::Range<usize>) -> BoxedStrategy<Vec<Vec<u8>>> {
    let a = alpha.clone();
    let short = vec(select(a.clone()), 2..6);
    let mid = vec(select(a.clone()), 2..(maxlen.max(7)));
    let periodic = (vec(select(a), 1..4), 2usize..12).prop_map(move |(u, k)| {
        let mut v = u.repeat(k);
        v.truncate(maxlen.max(7));
        v
    });
    bx(vec(
        prop_oneof![
            6 => short.prop_map(|v| (0u8, v, 0u8)),
            2 => mid.prop_map(|v| (0u8, v, 0u8)),
            1 => periodic.prop_map(|v| (0u8, v, 0u8)),
            // derived from an earlier one: without its first / last byte, extended, joined
            3 => (1u8..6, vec(select(alpha), 1..3), any::<u8>()),
        ],
        n,
    )
    .prop_map(move |v| {
        let mut out: Vec<Vec<u8>> = Vec::new();
        for (how, s, k) in v {
            let prev = if out.is_empty() { s.clone() } else { out[k as usize % out.len()].clone() };
            let t = match how {
                0 => s,
                1 => prev[1.min(prev.len() - 1)..].to_vec(),
                2 => prev[..prev.len() - 1].to_vec(),
                3 => [prev, s].concat(),
                4 => [s, prev].concat(),
                _ => {
                    let o = out.last().cloned().unwrap_or_default();
                    [&prev[prev.len() / 2..], &o[..o.len() / 2]].concat()
                }
            };
            if t.len() >= 2 && t.len() <= maxlen.max(12) && !out.contains(&t) {
                out.push(t);
            }
        }
        out
    }))
}

/// A set together with texts that exercise its overlaps.
pub fn set_and_texts(ctx: &Ctx, ntexts: std::ops::Range<usize>, textlen: usize) -> BoxedStrategy<(SetSpec, Vec<Vec<u8>>)> {
    let mut lens = ctx.dict.near(2, 90);
    lens.extend([8, 16, 17, 32, 33, 64, 65]);
    let maxlen = prop_oneof![20 => Just(8u64), 6 => Just(14), 2 => Just(30), 1 => select(lens)];
    bx((alphabet(), maxlen, prop_oneof![1 => Just(0usize), 8 => Just(8), 2 => Just(24)]).prop_flat_map(move |(alpha, maxlen, nlong)| {
        let a = alpha.clone();
        let spec = (
            0u8..5,
            (any::<bool>(), any::<bool>()),
            prop_oneof![2 => vec(select(a.clone()), 0..4), 1 => vec(any::<u8>(), 0..20), 1 => vec(any::<u8>(), 20..300)],
            token_strings(a.clone(), maxlen as usize, 0..nlong + 1),
            prop_oneof![4 => 2u8..6, 1 => 2u8..40],
            vec(any::<u8>(), 0..6),
            prop_oneof![2 => Just(vec![]), 1 => vec((vec(select(a.clone()), 2..5), vec(any::<u8>(), 0..4)), 0..4)],
            prop_oneof![1 => Just(0u32), 1 => any::<u32>()],
        )
            .prop_map(|(kind, (caps, split), mut bytes, longs, n_ext, codes, multi, order)| {
                let mut seen = BTreeSet::new();
                bytes.retain(|b| seen.insert(*b));
                SetSpec { kind, caps, split, bytes, longs, n_ext, codes, multi, order }
            });
        let text_ops = vec((0u8..10, any::<u8>(), any::<u8>()), 0..textlen);
        let long_ops = vec((0u8..10, any::<u8>(), any::<u8>()), textlen..textlen * 12 + 1);
        let texts = vec(prop_oneof![9 => text_ops, 1 => long_ops], ntexts.clone());
        let alpha = alpha.clone();
        (spec, texts).prop_map(move |(spec, texts)| {
            let texts = texts
                .into_iter()
                .map(|ops| {
                    let mut t: Vec<u8> = Vec::new();
                    for (how, k, cut) in ops {
                        let pool = &spec.longs;
                        match how {
                            0..=3 => t.push(alpha[k as usize % alpha.len()]),
                            4 => t.push(k),
                            5 if !spec.multi.is_empty() => t.extend(&spec.multi[k as usize % spec.multi.len()].0),
                            _ if pool.is_empty() => t.push(alpha[cut as usize % alpha.len()]),
                            5..=7 => t.extend(&pool[k as usize % pool.len()]),
                            8 => {
                                // a part of a token
                                let p = &pool[k as usize % pool.len()];
                                t.extend(&p[..cut as usize % (p.len() + 1)]);
                            }
                            _ => {
                                let p = &pool[k as usize % pool.len()];
                                t.extend(&p[cut as usize % p.len()..]);
                            }
                        }
                    }
                    t
                })
                .collect();
            (spec, texts)
        })
    }))
}

/// Content of a texmo token set.
pub fn to_ref(ts: &TokenSet) -> Result<RefSet, String> {
    let conv = |t: &Token| match t {
        Token::Str(s) => Tok::Str(s.clone()),
        Token::Ext(n) => Tok::Ext(*n),
    };
    let tokens: Vec<Tok> = ts.tokens.iter().map(conv).collect();
    let mut seqs = Vec::new();
    for s in &ts.sequences {
        let mut c = Vec::new();
        for &i in &s.tokens {
            c.push(tokens.get(i).cloned().ok_or_else(|| format!("the sequence for {} refers to position {i} of {}", vh::refs::show(&s.string), tokens.len()))?);
        }
        seqs.push((s.string.clone(), c));
    }
    Ok(RefSet {
        ttype: ts.token_type.to_string(),
        processing: ts.processing.to_string(),
        split: Some(ts.split_paragraphs),
        tokens,
        seqs,
        stats: None,
    })
}

/// Statistics by content instead of position.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Counts {
    pub total: u64,
    pub scanned: u64,
    pub tokens: BTreeMap<Tok, u64>,
    pub seqs: BTreeMap<Vec<u8>, u64>,
    pub pairs: BTreeMap<(Tok, Tok), u64>,
}

impl Counts {
    pub fn of(st: &TokenStats) -> Result<Counts, String> {
        let r = to_ref(&st.token_set)?;
        let n = r.tokens.len();
        if st.token_counts.len() != n {
            return Err(format!("{} token counts for {n} tokens", st.token_counts.len()));
        }
        if st.seq_counts.len() != r.seqs.len() {
            return Err(format!("{} sequence counts for {} sequences", st.seq_counts.len(), r.seqs.len()));
        }
        let mut c = Counts { total: st.total_tokens, scanned: st.scanned_bytes, ..Counts::default() };
        for (t, &k) in r.tokens.iter().zip(&st.token_counts) {
            if k > 0 {
                *c.tokens.entry(t.clone()).or_insert(0) += k;
            }
        }
        for ((s, _), &k) in r.seqs.iter().zip(&st.seq_counts) {
            if k > 0 {
                *c.seqs.entry(s.clone()).or_insert(0) += k;
            }
        }
        if !st.pair_counts.is_empty() {
            if st.pair_counts.len() != n * n {
                return Err(format!("{} pair counts for {n} tokens", st.pair_counts.len()));
            }
            for (i, &k) in st.pair_counts.iter().enumerate() {
                if k > 0 {
                    *c.pairs.entry((r.tokens[i / n].clone(), r.tokens[i % n].clone())).or_insert(0) += k;
                }
            }
        }
        Ok(c)
    }

    pub fn add(&mut self, o: &Counts) {
        self.total += o.total;
        self.scanned += o.scanned;
        for (k, v) in &o.tokens {
            *self.tokens.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &o.seqs {
            *self.seqs.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &o.pairs {
            *self.pairs.entry(k.clone()).or_insert(0) += v;
        }
    }

    pub fn diff(&self, o: &Counts) -> Option<String> {
        if self == o {
            return None;
        }
        let mut v = Vec::new();
        if self.total != o.total {
            v.push(format!("total tokens {} vs {}", self.total, o.total));
        }
        if self.scanned != o.scanned {
            v.push(format!("scanned bytes {} vs {}", self.scanned, o.scanned));
        }
        if self.tokens != o.tokens {
            let k = self.tokens.keys().chain(o.tokens.keys()).find(|k| self.tokens.get(k) != o.tokens.get(k)).unwrap();
            v.push(format!("count of token {k:?}: {:?} vs {:?}", self.tokens.get(k), o.tokens.get(k)));
        }
        if self.seqs != o.seqs {
            let k = self.seqs.keys().chain(o.seqs.keys()).find(|k| self.seqs.get(*k) != o.seqs.get(*k)).unwrap();
            v.push(format!("count of sequence {k:?}: {:?} vs {:?}", self.seqs.get(k), o.seqs.get(k)));
        }
        if self.pairs != o.pairs {
            let k = self.pairs.keys().chain(o.pairs.keys()).find(|k| self.pairs.get(k) != o.pairs.get(k)).unwrap();
            v.push(format!("count of pair {k:?}: {:?} vs {:?}", self.pairs.get(k), o.pairs.get(k)));
        }
        Some(v.join("; "))
    }
}

pub fn tokenize(tk: &FragmentTokenizer, text: &[u8]) -> TokenStats {
    let mut st = TokenStats::new(tk.token_set.clone(), None);
    let mut buf = Vec::new();
    tk.process_slice(text, &mut st, &mut buf);
    st
}

/// O(n * spans) dynamic programme, without any index structure.
pub fn naive_min(r: &RefSet, text: &[u8]) -> Option<u64> {
    let mut spans: Vec<(&[u8], u64)> = Vec::new();
    for t in &r.tokens {
        if let Tok::Str(s) = t {
            spans.push((s, 1));
        }
    }
    for (s, c) in &r.seqs {
        spans.push((s, c.len() as u64));
    }
    let mut best: Vec<Option<u64>> = vec![None; text.len() + 1];
    best[0] = Some(0);
    for i in 0..text.len() {
        let Some(c) = best[i] else { continue };
        for (s, k) in &spans {
            if text[i..].starts_with(s) {
                let e = &mut best[i + s.len()];
                if e.is_none() || e.unwrap() > c + k {
                    *e = Some(c + k);
                }
            }
        }
    }
    best[text.len()]
}

pub fn segmenter(r: &RefSet) -> Segmenter {
    r.segmenter()
}

/// Counts of small to very large data.
#[allow(dead_code)]
pub fn huge() -> BoxedStrategy<u64> {
    let near = (0u32..62, 0u64..6).prop_map(|(k, d)| (1u64 << k).saturating_add(d).saturating_sub(3));
    prop_oneof![2 => 0u64..1000, 3 => near, 1 => 0u64..1 << 62].boxed()
}

/// A set with many tokens, made from a few numbers.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BigSet {
    pub kind: u8,
    pub n: u32,
    /// multi-byte tokens have 2 to `len` bytes
    pub len: u32,
    /// number of different bytes in them
    pub alpha: u32,
    pub seed: u64,
    pub order: u32,
}

impl BigSet {
    fn next(st: &mut u64, n: u64) -> u64 {
        *st = st.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (*st >> 33) % n
    }
    pub fn spec(&self) -> SetSpec {
        let mut st = self.seed;
        let mut seen = BTreeSet::new();
        let mut longs = Vec::new();
        let mut tries = 0u64;
        while longs.len() < self.n as usize && tries < self.n as u64 * 20 {
            tries += 1;
            let len = if Self::next(&mut st, 4) > 0 { self.len as u64 } else { 2 + Self::next(&mut st, self.len as u64 - 1) };
            let t: Vec<u8> = (0..len).map(|_| (b'a' as u64 + Self::next(&mut st, self.alpha as u64)) as u8).collect();
            if seen.insert(t.clone()) {
                longs.push(t);
            }
        }
        let bytes: Vec<u8> = (0..Self::next(&mut st, 60)).map(|k| (k * 5 + 60) as u8).collect();
        SetSpec { kind: self.kind, caps: false, split: true, bytes, longs, n_ext: 2 + (self.seed % 5) as u8, codes: vec![0, 3, 1], multi: vec![], order: self.order }
    }
    /// Texts of tokens and parts of tokens.
    pub fn text(&self, spec: &SetSpec, bytes: usize) -> Vec<u8> {
        let mut st = self.seed ^ 0x5851_f42d;
        let mut t = Vec::new();
        while t.len() < bytes {
            let l = &spec.longs[Self::next(&mut st, spec.longs.len() as u64) as usize];
            match Self::next(&mut st, 6) {
                0 => t.extend(&l[Self::next(&mut st, l.len() as u64) as usize..]),
                1 => t.extend(&l[..Self::next(&mut st, l.len() as u64) as usize]),
                2 => t.push(Self::next(&mut st, 256) as u8),
                _ => t.extend(l),
            }
        }
        t
    }
    pub fn smaller(&self) -> Vec<BigSet> {
        [self.n / 2, self.n - self.n / 8, self.n.saturating_sub(1)].into_iter().filter(|&n| n > 0 && n < self.n).map(|n| BigSet { n, ..self.clone() }).collect()
    }
}
