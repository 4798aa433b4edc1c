//! C14: bits encodings are fixed codes; the most frequent bytes get tokens.
#[path = "../api.rs"]
mod api;
use api::*;
use serde::{Deserialize, Serialize};
use texmo::verif::optimize_bytes::{BytesOptimizer, SimpleBytesOptimizer};
use texmo::verif::processing::Processing;
use texmo::verif::stats2::TokenStats;
use texmo::verif::tokenset::{Token, TokenSet};
use vh::pp::*;
use vh::proptest::collection::vec;
use vh::proptest::sample::select;
use vh::refs::{show, type_bits, RefSet};
use vh::run::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    /// counts of the multi-byte tokens: 0 some, 1 none, 2 none or many
    #[serde(default)]
    long_counts: u8,
    bits: u8,
    caps: bool,
    split: bool,
    bytes: Vec<u8>,
    longs: Vec<Vec<u8>>,
    counts: Vec<u64>,
    /// number of byte and extension tokens, beyond the extension tokens
    budgets: Vec<u16>,
    order: u32,
    /// 0: as it is, 1: sorted, 2: written and read, between optimizations
    between: u8,
}

fn kind(r: &RefSet) -> CheckResult {
    let bits = type_bits(&r.ttype).ok_or("the type is no longer a bits type")?;
    r.well_formed()?;
    for (s, _) in &r.seqs {
        if s.len() != 1 {
            return Err(format!("sequence for {}", show(s)));
        }
    }
    let _ = bits;
    Ok(())
}

fn check(c: &Case, o: &mut Obs) -> CheckResult {
    let p = if c.caps { Processing::CapsWords } else { Processing::Raw };
    let mut ts = match c.bits % 3 {
        0 => TokenSet::new_bits1(p, c.split),
        1 => TokenSet::new_bits2(p, c.split),
        _ => TokenSet::new_bits4(p, c.split),
    };
    kind(&to_ref(&ts)?).map_err(|e| format!("new set: {e}"))?;
    let mut own = std::collections::HashSet::new();
    for b in &c.bytes {
        if own.insert(vec![*b]) {
            ts.add_token(&[*b]);
        }
    }
    for l in &c.longs {
        if l.len() > 1 && own.insert(l.clone()) {
            ts.add_token(l);
        }
    }
    kind(&to_ref(&ts)?).map_err(|e| format!("set with tokens added: {e}"))?;
    if c.order != 0 {
        ts = permute(&ts, c.order as u64);
    }
    let mut counts = c.counts.clone();
    counts.resize(256, 0);
    let n_ext = ts.n_ext_tokens;
    for (i, extra) in c.budgets.iter().enumerate() {
        let n = n_ext + *extra as usize;
        let mut st = TokenStats::new(ts.clone(), None);
        for (k, t) in ts.tokens.iter().enumerate() {
            st.token_counts[k] = match t {
                Token::Str(s) if s.len() == 1 => counts[s[0] as usize],
                // unrelated numbers
                Token::Str(s) => [1 + s.len() as u64 * 1000, 0, ((k as u64 ^ counts[0]) & 1) << 40][c.long_counts as usize % 3],
                Token::Ext(e) => 5000 + *e as u64,
            };
        }
        for (k, s) in ts.sequences.iter().enumerate() {
            st.seq_counts[k] = counts[s.string[0] as usize];
        }
        let next = SimpleBytesOptimizer::optimize_bytes(&st, n);
        let (b, a) = (to_ref(&ts)?, to_ref(&next)?);
        let at = |e: String| format!("optimization {i} with {n} byte and extension tokens: {e}");
        kind(&a).map_err(at)?;
        if (&a.ttype, &a.processing, a.split) != (&b.ttype, &b.processing, b.split) {
            return Err(at(format!("type, processing, paragraph setting: {:?} from {:?}", (&a.ttype, &a.processing, a.split), (&b.ttype, &b.processing, b.split))));
        }
        let (mut lb, mut la) = (b.long_tokens(), a.long_tokens());
        lb.sort();
        la.sort();
        if la != lb {
            return Err(at(format!("multi-byte tokens {la:?} from {lb:?}")));
        }
        let chosen: Vec<u8> = (0..=255u8).filter(|&x| a.byte_token(x)).collect();
        let want = (*extra as usize).min(256);
        if chosen.len() != want {
            return Err(at(format!("{} byte tokens instead of {want}", chosen.len())));
        }
        let least = chosen.iter().min_by_key(|&&x| counts[x as usize]);
        let most = (0..=255u8).filter(|x| !chosen.contains(x)).max_by_key(|&x| counts[x as usize]);
        if let (Some(&l), Some(m)) = (least, most) {
            if counts[m as usize] > counts[l as usize] {
                return Err(at(format!("byte {m} (count {}) was passed over for {l} (count {})", counts[m as usize], counts[l as usize])));
            }
        }
        o.label_if(*extra >= 256, "budget for all bytes");
        o.label_if(*extra == 0, "no byte tokens");
        o.label_if(i > 0, "starting from an earlier result");
        ts = next;
        match c.between {
            1 => ts.sort(),
            2 => ts = TokenSet::from_json(ts.to_json()),
            _ => {}
        }
        kind(&to_ref(&ts)?).map_err(|e| format!("after optimization {i}, sorted or read again: {e}"))?;
    }
    let distinct: std::collections::HashSet<u64> = counts.iter().copied().collect();
    o.nontrivial(distinct.len() >= 3 && c.budgets.iter().any(|&n| n > 0 && n < 256));
    Ok(())
}

fn main() {
    let mut r = Runner::new(
        "C14",
        "bits1/2/4 sets with random byte and multi-byte tokens in any order, byte statistics as in C13, budgets from no byte token to several \
         hundred, chains of optimizations with sorting or a JSON round trip between them. Non-trivial: at least 3 different counts and a budget \
         of 1-255 byte tokens.",
    );
    r.sub(
        "random",
        60_000,
        3_000_000,
        |ctx| {
            let mut near: Vec<u16> = ctx.dict.near(0, 600).into_iter().map(|x| x as u16).collect();
            near.extend([0, 1, 2, 254, 255, 256, 257, 300, 600]);
            let budget = prop_oneof![4 => 0u16..30, 3 => 0u16..260, 3 => select(near)];
            let counts = prop_oneof![
                3 => vec((any::<u8>(), 1u64..1000), 0..12).prop_map(|v| { let mut c = vec![0; 256]; for (b, k) in v { c[b as usize] = k; } c }),
                2 => vec(0u64..4, 256),
                2 => vec(0u64..100_000, 256),
                1 => vec(0u32..60, 256).prop_map(|v| v.into_iter().map(|e| 1u64 << e).collect()),
                1 => any::<bool>().prop_map(|up| (0..256u64).map(|i| if up { i } else { 255 - i }).collect()),
                1 => (0u64..1000).prop_map(|k| vec![k; 256]),
            ];
            let longs = vec(prop_oneof![vec(select(vec![b'a', b'b', 0, 255]), 2..5), vec(any::<u8>(), 2..6)], 0..8);
            bx((0u8..3, any::<bool>(), any::<bool>(), prop_oneof![vec(any::<u8>(), 0..8), vec(any::<u8>(), 0..300)], longs, counts, vec(budget, 1..4), prop_oneof![Just(0u32), any::<u32>()], 0u8..3, 0u8..3)
                .prop_map(|(bits, caps, split, bytes, longs, counts, budgets, order, between, long_counts)| Case { long_counts, bits, caps, split, bytes, longs, counts, budgets, order, between }))
        },
        |c: &Case, _, o| check(c, o),
    );
    r.finish()
}
