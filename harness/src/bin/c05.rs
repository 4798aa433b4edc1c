//! C05: tokenization uses the minimum possible number of tokens.
#[path = "../api.rs"]
mod api;
use api::*;
use serde::{Deserialize, Serialize};
use texmo::verif::tokenizer2::FragmentTokenizer;
use vh::pp::*;
use vh::proptest::collection::vec;
use vh::proptest::sample::select;
use vh::refs::show;
use vh::run::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    set: SetSpec,
    texts: Vec<Vec<u8>>,
    reorder: u32,
}

fn check(c: &Case, o: &mut Obs) -> CheckResult {
    let ts = c.set.build();
    let r = to_ref(&ts)?;
    let seg = r.segmenter();
    let tk = FragmentTokenizer::new(ts.clone());
    let tk2 = (c.reorder != 0).then(|| FragmentTokenizer::new(permute(&ts, c.reorder as u64)));
    o.label(kind_name(c.set.kind));
    o.label_if(tk2.is_some(), "compared with a reordered set");
    let maxlen = c.set.longs.iter().map(|l| l.len()).max().unwrap_or(0);
    o.label_if(maxlen > 16, "token over 16 bytes");
    o.label_if(maxlen > 64, "token over 64 bytes");
    o.label_if(maxlen > 255, "token over 255 bytes");
    let mut keys = Vec::new();
    for t in &c.texts {
        let Some(want) = seg.min_cost(t) else {
            return Err("HARNESS-ERROR: the text can't be segmented".into());
        };
        if t.len() < 80 && naive_min(&r, t) != Some(want) {
            return Err("HARNESS-ERROR: the two reference programmes disagree".into());
        }
        let byte_cost: u64 = t.iter().map(|&b| r.seqs.iter().find(|(s, _)| s == &[b]).map(|(_, c)| c.len() as u64).unwrap_or(1)).sum();
        // multi-byte strings matter for this text
        if want < byte_cost {
            keys.push(hash_of(&(&c.set, t)));
        }
        o.label_if(t.len() > 500, "text over 500 bytes");
        let got = tokenize(&tk, t).total_tokens;
        if got != want {
            return Err(format!("{} needs {want} tokens, {got} reported", show(t)));
        }
        if let Some(tk2) = &tk2 {
            let g2 = tokenize(tk2, t).total_tokens;
            if g2 != want {
                return Err(format!("{} needs {want} tokens, {g2} reported when the set is listed in another order", show(t)));
            }
        }
    }
    o.nontrivial(!keys.is_empty());
    o.label_n("texts", c.texts.len() as u64);
    o.extra(c.texts.len() as u64, keys);
    Ok(())
}

/// All sets of up to k tokens over {a, b} with all texts up to a length.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Small {
    kind: u8,
    bytes: Vec<u8>,
    longs: Vec<Vec<u8>>,
    maxtext: usize,
}

/// Pieces of up to 16 MiB: totals and costs beyond 2^16 and 2^24.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Large {
    kind: u8,
    bytes: Vec<u8>,
    longs: Vec<Vec<u8>>,
    unit: Vec<u8>,
    len: u32,
    tail: Vec<u8>,
    times: u32,
}

fn large(c: &Large, o: &mut Obs) -> CheckResult {
    let ts = SetSpec { kind: c.kind, caps: false, split: true, bytes: c.bytes.clone(), longs: c.longs.clone(), n_ext: 2, codes: vec![], multi: vec![], order: 0 }.build();
    let mut t: Vec<u8> = c.unit.iter().copied().cycle().take(c.len as usize).collect();
    for _ in 0..c.times {
        t.extend(&c.tail);
    }
    let want = to_ref(&ts)?.segmenter().min_cost(&t).ok_or("HARNESS-ERROR: no segmentation")?;
    let got = tokenize(&FragmentTokenizer::new(ts), &t).total_tokens;
    if got != want {
        return Err(format!("{} bytes, {} and so on, then {} times {}, need {want} tokens, {got} reported", c.len, show(&c.unit), c.times, show(&c.tail)));
    }
    o.label_if(want > 1 << 16, "more than 2^16 tokens");
    o.label_if(want > 1 << 24, "more than 2^24 tokens");
    o.nontrivial(!c.longs.is_empty());
    Ok(())
}

fn main() {
    let mut r = Runner::new(
        "C05",
        "token sets of all five types over small alphabets, with overlapping, nested, periodic and derived strings, sequences of various \
         lengths (also for multi-byte strings), in any order; texts made of tokens, parts of tokens and other bytes; long tokens and texts; \
         pieces of up to 16 MiB; sets of up to 18,000 tokens; all pairs/triples of strings over {a,b} up to 4 bytes with all texts up to 9 bytes. \
         Non-trivial (per text): its minimum is below the cost of spelling it byte by byte.",
    );
    r.sub(
        "random",
        24_000,
        1_200_000,
        |ctx| bx((set_and_texts(ctx, 1..7, 25), prop_oneof![2 => Just(0u32), 1 => any::<u32>()]).prop_map(|((set, texts), reorder)| Case { set, texts, reorder })),
        |c: &Case, _, o| check(c, o),
    );
    // Few, long tokens: lengths around powers of two and literals of the sources.
    r.sub_opts(
        "long tokens",
        400,
        12_000,
        SHARDS,
        60,
        |ctx| {
            let mut lens: Vec<u64> = ctx.dict.near(40, 300);
            lens.extend([63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 260]);
            bx((
                0u8..5,
                vec((vec(select(b"abc".to_vec()), 1..5), select(lens), 0usize..3), 1..3),
                vec((any::<u8>(), any::<u8>(), any::<u8>()), 1..12),
                vec(select(b"abc".to_vec()), 0..4),
            )
                .prop_map(|(kind, ls, ops, mut bytes)| {
                    bytes.sort();
                    bytes.dedup();
                    let mut longs: Vec<Vec<u8>> = Vec::new();
                    for (u, n, cut) in ls {
                        let mut l: Vec<u8> = u.iter().cycle().take(n as usize).cloned().collect();
                        l[0] = b'a' + cut as u8;
                        if !longs.contains(&l) {
                            let mut h = l[..l.len() / 2].to_vec();
                            h.push(b'c');
                            longs.push(l);
                            if cut == 2 && !longs.contains(&h) {
                                longs.push(h);
                            }
                        }
                    }
                    let mut t = Vec::new();
                    for (a, b, c) in ops {
                        let l = &longs[a as usize % longs.len()];
                        match b % 4 {
                            0 => t.extend(l),
                            1 => t.extend(&l[..l.len() - 1 - (c as usize % 3)]),
                            2 => t.extend(&l[1 + c as usize % 3..]),
                            _ => t.push(b'a' + c % 4),
                        }
                    }
                    Case {
                        set: SetSpec { kind, caps: false, split: true, bytes, longs, n_ext: 2, codes: vec![], multi: vec![], order: 0 },
                        texts: vec![t],
                        reorder: 0,
                    }
                }))
        },
        |c: &Case, _, o| check(c, o),
    );
    // (kind, length of the first part)
    let mut sizes = vec![(0u8, 8_000u32), (0, 33_000), (1, 16_390), (2, 32_800), (3, 65_540), (4, 65_540), (0, 300_000), (3, 1 << 20), (4, 1 << 20), (0, (1 << 21) + 5), (1, (1 << 22) + 5)];
    sizes.push((2, (1 << 23) + 7));
    if r.ctx.thorough {
        sizes.extend([(3, (1 << 24) - 300_000), (4, (1 << 24) - 300_000), (0, (1 << 24) - 300_000), (1, (1 << 24) - 300_000), (2, (1 << 24) - 300_000)]);
    }
    let mut larges = Vec::new();
    for (i, (kind, len)) in sizes.into_iter().enumerate() {
        for (j, unit) in [&b"zyxwv"[..], b"ab", b"za"].into_iter().enumerate() {
            if len > 1 << 20 && !r.ctx.thorough && (i + j) % 3 != 0 {
                continue;
            }
            larges.push(Large {
                kind,
                bytes: vec![b'a', b'c'],
                longs: vec![b"ab".to_vec(), b"abc".to_vec(), b"cab".to_vec(), b"bcc".to_vec()],
                unit: unit.to_vec(),
                len,
                tail: b"abccabcabacbccababcc".to_vec(),
                times: 1001,
            });
        }
    }
    larges.sort_by_key(|c| std::cmp::Reverse(c.len));
    r.enumerate(
        "large pieces",
        larges,
        4,
        |c| {
            let mut v = vec![Large { len: c.len / 2, ..c.clone() }, Large { len: c.len - c.len / 8, ..c.clone() }, Large { times: c.times / 2, ..c.clone() }];
            v.retain(|x| (x.len, x.times) != (c.len, c.times));
            v
        },
        |c: &Large, _, o| large(c, o),
    );
    // Many tokens: more than 2^16 prefixes of tokens in the first one.
    let seed = r.ctx.seed;
    let mut bigs = vec![BigSet { kind: 2, n: 18_000, len: 6, alpha: 256, seed, order: 0 }];
    for i in 0..if r.ctx.thorough { 200 } else { 20u64 } {
        let n = [250, 300, 500, 1000, 2000, 4000][i as usize % 6];
        bigs.push(BigSet { kind: (i % 5) as u8, n, len: [3, 6, 12, 4][i as usize % 4], alpha: [26, 256, 3, 8][(i / 2) as usize % 4], seed: seed.wrapping_mul(7919).wrapping_add(i), order: (i % 3) as u32 * 5 });
    }
    r.enumerate("large sets", bigs, SHARDS, |c| c.smaller(), |c: &BigSet, _, o| {
        let spec = c.spec();
        let ts = spec.build();
        let seg = to_ref(&ts)?.segmenter();
        let tk = FragmentTokenizer::new(ts);
        let mut keys = Vec::new();
        for k in 0..5 {
            let t = BigSet { seed: c.seed + k, ..c.clone() }.text(&spec, 20 << (2 * k));
            let want = seg.min_cost(&t).ok_or("HARNESS-ERROR: no segmentation")?;
            let got = tokenize(&tk, &t).total_tokens;
            if got != want {
                return Err(format!("{} multi-byte tokens: {} needs {want} tokens, {got} reported", spec.longs.len(), show(&t[..t.len().min(400)])));
            }
            keys.push(hash_of(&t));
        }
        o.label_if(spec.longs.len() >= 1000, "1000 multi-byte tokens and more");
        o.nontrivial(true);
        o.extra(5, keys);
        Ok(())
    });
    // Bounded exhaustive.
    let mut strings: Vec<Vec<u8>> = Vec::new();
    for len in 2..=4usize {
        for k in 0..(1 << len) {
            strings.push((0..len).map(|i| if k >> i & 1 == 1 { b'b' } else { b'a' }).collect());
        }
    }
    let thorough = r.ctx.thorough;
    let mut cases = Vec::new();
    let n = strings.len();
    for i in 0..n {
        for j in i..n {
            for k in j..n {
                if !thorough && k != j && (i * 31 + j * 17 + k * 7) % 4 != 0 {
                    continue;
                }
                let mut longs = vec![strings[i].clone(), strings[j].clone(), strings[k].clone()];
                longs.dedup();
                // 4-bit codes (each byte costs 2) or a plain token for b only
                let kind = if (i + j + k) % 2 == 0 { 2 } else { 1 };
                let bytes = if (i + j * 2 + k) % 3 == 0 { vec![b'b'] } else { vec![] };
                cases.push(Small { kind, bytes, longs, maxtext: if thorough { 11 } else { 9 } });
            }
        }
    }
    r.enumerate(
        "small",
        cases,
        SHARDS,
        |c| {
            let mut v = Vec::new();
            for i in 0..c.longs.len() {
                let mut d = c.clone();
                d.longs.remove(i);
                v.push(d);
            }
            if c.maxtext > 1 {
                v.push(Small { maxtext: c.maxtext - 1, ..c.clone() });
            }
            v
        },
        |c: &Small, _, o| {
            let set = SetSpec { kind: c.kind, caps: false, split: true, bytes: c.bytes.clone(), longs: c.longs.clone(), n_ext: 2, codes: vec![], multi: vec![], order: 0 };
            let ts = set.build();
            let seg = to_ref(&ts)?.segmenter();
            let tk = FragmentTokenizer::new(ts);
            let mut keys = Vec::new();
            let mut evals = 0;
            for len in 1..=c.maxtext {
                for k in 0..(1u32 << len) {
                    let t: Vec<u8> = (0..len).map(|i| if k >> i & 1 == 1 { b'b' } else { b'a' }).collect();
                    let want = seg.min_cost(&t).ok_or("HARNESS-ERROR: no segmentation")?;
                    let got = tokenize(&tk, &t).total_tokens;
                    evals += 1;
                    if c.longs.iter().any(|l| vh::refs::contains(&t, l)) {
                        keys.push(hash_of(&(&c.longs, c.kind, &c.bytes, &t)));
                    }
                    if got != want {
                        return Err(format!("{} needs {want} tokens, {got} reported", show(&t)));
                    }
                }
            }
            o.nontrivial(true);
            o.extra(evals, keys);
            Ok(())
        },
    );
    r.finish()
}
