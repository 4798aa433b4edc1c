//! C17: optimization terminates, is deterministic, never loses ground.
#[path = "../opt.rs"]
mod opt;
use opt::*;
use std::collections::BTreeMap;
use texmo::verif::optimize_bytes::{BytesOptimizer, HuffOptimizer};
use texmo::verif::processing::Processing;
use texmo::verif::stats2::TokenStats;
use texmo::verif::tokenset::TokenSet;
use vh::cli::Scratch;
use vh::pp::*;
use vh::refs::type_bits;
use vh::run::*;

fn differs(what: &str, a: &Out, b: &Out) -> String {
    let k = a.raw.iter().zip(&b.raw).take_while(|(x, y)| x == y).count();
    let cut = |v: &Vec<u8>| String::from_utf8_lossy(&v[k.saturating_sub(60)..(k + 60).min(v.len())]).to_string();
    format!("{what}: {} instead of {}; first difference at byte {k}: {:?} / {:?}", b.name, a.name, cut(&b.raw), cut(&a.raw))
}

fn check(c: &OptCase, ctx: &Ctx, o: &mut Obs) -> CheckResult {
    let sc = Scratch::new();
    let processed = c.processed();
    let text = processed.as_bytes();
    let data = sc.write("data.txt", c.text.as_bytes());
    let d = data.to_str().unwrap();
    let init = c.init_set(&processed);
    let init_file = init.as_ref().map(|i| sc.write("init.json", i.to_text().as_bytes()));
    let input = init_file.as_ref().map(|p| p.to_str().unwrap());
    let out = optimize(ctx, &sc, c, "out", d, None, input)?;
    let total = out.set.segmenter().min_cost(text).ok_or("the set can't encode the data")?;
    // deterministic
    // ... whatever the speed of the machine
    let k = hash_of(&(&c.text, c.n, c.kind)) % 60;
    let factor = if k <= 40 { 2f64.powi(k as i32) } else { 1.0 };
    let again = optimize_clock(ctx, &sc, c, "again", d, None, input, CPU_LIMIT, factor)?;
    if again.name != out.name || again.raw != out.raw {
        return Err(differs(&format!("the same optimization, with a clock {factor} times as fast, gives another result"), &out, &again));
    }
    o.label_if(factor > 1.0, "repeated with a faster clock");
    // nothing left to improve
    let from = sc.path("out").join(&out.name);
    let third = optimize(ctx, &sc, c, "third", d, None, Some(from.to_str().unwrap()))?;
    if third.name != out.name || third.raw != out.raw {
        return Err(differs("optimizing the result again changes it", &out, &third));
    }
    // no ground lost
    match &init {
        Some(i) if i.tokens.len() as u64 == c.n => {
            let t = i.segmenter().min_cost(text).ok_or("HARNESS-ERROR: initial set")?;
            if total > t {
                return Err(format!("the result needs {total} tokens, the initial set of {} tokens needed {t}", c.n));
            }
            o.label("initial set of the requested size");
            o.label_if(total < t, "initial set of the requested size improved");
        }
        Some(_) => {}
        None => {
            let mut freq = [0u64; 256];
            for &b in text {
                freq[b as usize] += 1;
            }
            match (type_bits(&out.set.ttype), c.kind as usize % 5) {
                (Some(bits), _) => {
                    let k = (c.n as usize - (1 << bits)).min(256);
                    let mut f = freq;
                    f.sort_unstable_by(|a, b| b.cmp(a));
                    let base: u64 = f[..k].iter().sum::<u64>() + f[k..].iter().sum::<u64>() * (8 / bits as u64);
                    if total > base {
                        return Err(format!("{total} tokens needed; with byte tokens for the {k} most frequent bytes only it would be {base}"));
                    }
                    o.label_if(total < base, "better than byte tokens only");
                }
                (None, 3) => {
                    if total > text.len() as u64 {
                        return Err(format!("{total} tokens for {} bytes", text.len()));
                    }
                    if c.n == 257 && text.len() > 1 {
                        let mut pairs: BTreeMap<(u8, u8), u64> = BTreeMap::new();
                        for w in text.windows(2) {
                            *pairs.entry((w[0], w[1])).or_insert(0) += 1;
                        }
                        let most = *pairs.values().max().unwrap();
                        // with several pairs of the same frequency it may be any
                        let saved = pairs.iter().filter(|(_, n)| **n == most).map(|((a, b), _)| {
                            let (mut i, mut k) = (0, 0);
                            while i + 1 < text.len() {
                                if text[i] == *a && text[i + 1] == *b {
                                    k += 1;
                                    i += 2;
                                } else {
                                    i += 1;
                                }
                            }
                            k
                        }).min().unwrap();
                        if total > text.len() as u64 - saved {
                            return Err(format!("257 tokens: {total} tokens needed for {} bytes; merging the most frequent pair ({most} times) saves {saved}", text.len()));
                        }
                        o.label("one token on top of all bytes");
                    }
                }
                _ => {
                    let p = if c.caps { Processing::CapsWords } else { Processing::Raw };
                    let all = TokenSet::new_bytes(p);
                    let mut st = TokenStats::new(all, None);
                    st.token_counts.copy_from_slice(&freq);
                    let start = HuffOptimizer::optimize_bytes(&st, c.n as usize);
                    let base: u64 = (0..256)
                        .map(|b| {
                            let cost = start.sequences.iter().find(|s| s.string == [b as u8]).map(|s| s.tokens.len()).unwrap_or(1);
                            freq[b] * cost as u64
                        })
                        .sum();
                    if total > base {
                        return Err(format!("{total} tokens needed; the byte encoding it starts from needs {base}"));
                    }
                    o.label_if(total < base, "better than byte tokens only");
                }
            }
        }
    }
    o.label_n("optimize runs", 3);
    label_case(c, &out, o);
    Ok(())
}

fn main() {
    let mut r = Runner::new(
        "C17",
        "optimize runs as in C15, a third of them with an initial set; each repeated (two thirds with a clock up to 2^40 times as fast), and run again from its result (identical files demanded). The \
         result's token count (reference segmentation) is compared with that of the initial set of the same size, the byte encoding, byte tokens for \
         the most frequent bytes, and for 257 bytes tokens with merging the most frequent pair. A run that uses 150 s of processor time counts as \
         endless. Non-trivial as in C15.",
    );
    r.sub_opts("random", 600, 50_000, SHARDS, 120, |ctx| opt_case(ctx, 4, 20), |c: &OptCase, ctx, o| check(c, ctx, o));
    r.sub_opts(
        "one-more",
        200,
        10_000,
        SHARDS,
        120,
        |ctx| bx(opt_case(ctx, 0, 2).prop_map(|c| OptCase { kind: 3, n: 257, ..c })),
        |c: &OptCase, ctx, o| check(c, ctx, o),
    );
    r.finish()
}
