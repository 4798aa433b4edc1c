//! C07: parallel tokenization equals sequential tokenization.
#[path = "../api.rs"]
mod api;
use api::*;
use serde::{Deserialize, Serialize};
use std::sync::mpsc;
use std::time::Duration;
use texmo::verif::batch_tokenize::{tokenize_file, tokenize_file_sync};
use texmo::verif::input::memory_sampler::MemorySampler;
use texmo::verif::input::sample::{Sample, Sampler};
use texmo::verif::stats2::TokenStats;
use texmo::verif::tokenizer2::FragmentTokenizer;
use vh::pp::*;
use vh::proptest::collection::vec;
use vh::run::*;

/// Sizes from which on the program uses worker threads (reported, not real).
const LARGE: u64 = 1 << 25;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    set: SetSpec,
    pool: Vec<String>,
    /// Pieces as (index into the pool, repetitions, owned or borrowed).
    pieces: Vec<(u8, u16, bool)>,
    /// What happens before each piece is handed out (cyclic).
    delays: Vec<u8>,
    reported: u64,
    cpus: u8,
    rounds: u8,
}

struct PieceSampler {
    pieces: Vec<(String, bool)>,
    delays: Vec<u8>,
    reported: u64,
}

struct PieceIter<'a> {
    s: &'a PieceSampler,
    k: usize,
}

fn delay(d: u8) {
    match d {
        0..=3 => {}
        4 => std::thread::yield_now(),
        5 => (0..200).for_each(|_| std::hint::spin_loop()),
        6 => (0..5_000).for_each(|_| std::hint::spin_loop()),
        7 => std::thread::sleep(Duration::from_micros(30)),
        8 => std::thread::sleep(Duration::from_micros(300)),
        9 => std::thread::sleep(Duration::from_millis(2)),
        // only in "stalls"
        10 => std::thread::sleep(Duration::from_millis(350)),
        11 => std::thread::sleep(Duration::from_millis(1300)),
        12 => std::thread::sleep(Duration::from_millis(3300)),
        _ => std::thread::sleep(Duration::from_millis(12_000)),
    }
}

impl<'a> Iterator for PieceIter<'a> {
    type Item = Sample<'a>;
    fn next(&mut self) -> Option<Sample<'a>> {
        if !self.s.delays.is_empty() && self.k < 400 {
            delay(self.s.delays[self.k % self.s.delays.len()]);
        }
        let (p, owned) = self.s.pieces.get(self.k)?;
        self.k += 1;
        Some(if *owned { Sample::Data(p.clone()) } else { Sample::Ref(p) })
    }
}

impl<'a> Sampler<'a> for PieceSampler {
    type Iter = PieceIter<'a>;
    fn iter(&'a self) -> Self::Iter {
        PieceIter { s: self, k: 0 }
    }
    fn total_size(&'a self) -> u64 {
        self.reported
    }
}

/// The number of worker threads follows from the CPUs available to the caller.
fn use_cpus(n: u8) {
    unsafe {
        let mut all: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of_val(&all), &mut all) != 0 {
            return;
        }
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        let mut left = n;
        for c in 0..libc::CPU_SETSIZE as usize {
            if left > 0 && libc::CPU_ISSET(c, &all) {
                libc::CPU_SET(c, &mut set);
                left -= 1;
            }
        }
        libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set);
    }
}

const HANG: Duration = Duration::from_secs(90);

fn check(c: &Case, o: &mut Obs) -> CheckResult {
    let ts = c.set.build();
    let mut pieces = Vec::new();
    let mut total = 0;
    for &(i, n, owned) in &c.pieces {
        let p = &c.pool[i as usize % c.pool.len()];
        for _ in 0..n {
            if total + p.len() > 3_000_000 {
                break;
            }
            total += p.len();
            pieces.push((p.clone(), owned));
        }
    }
    let n = pieces.len();
    let sampler = PieceSampler { pieces: pieces.clone(), delays: vec![], reported: c.reported };
    // the expected counts: every piece on its own
    let tk = FragmentTokenizer::new(ts.clone());
    let mut sum = Counts::default();
    {
        let mut memo = std::collections::HashMap::new();
        for (p, _) in &pieces {
            if !memo.contains_key(p) {
                memo.insert(p.clone(), Counts::of(&tokenize(&tk, p.as_bytes()))?);
            }
            sum.add(&memo[p]);
        }
    }
    let seq = Counts::of(&tokenize_file_sync(&ts, &sampler, Some(11)))?;
    if let Some(d) = seq.diff(&sum) {
        return Err(format!("sequential tokenization of {n} pieces vs sum of the pieces: {d}"));
    }
    for round in 0..c.rounds.max(1) {
        let (tx, rx) = mpsc::channel();
        let (ts2, pieces2, delays, reported, cpus) = (ts.clone(), pieces.clone(), c.delays.clone(), c.reported, c.cpus);
        std::thread::spawn(move || {
            use_cpus(cpus);
            let s = PieceSampler { pieces: pieces2, delays, reported };
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| tokenize_file(&ts2, &s, Some(11))));
            let _ = tx.send(r.map_err(|_| ()));
        });
        let st = match rx.recv_timeout(HANG) {
            Ok(Ok(st)) => st,
            Ok(Err(())) => return Err(format!("round {round}: tokenization of {n} pieces panicked")),
            Err(_) => return Err(format!("round {round}: no result for {n} pieces ({total} bytes) after {} s", HANG.as_secs())),
        };
        if to_ref(&st.token_set)? != to_ref(&ts)? || st.initial_size != Some(11) {
            return Err("the statistics are not for the given token set and size".into());
        }
        let k = Counts::of(&st)?;
        if let Some(d) = k.diff(&sum) {
            return Err(format!("round {round}: parallel vs sequential tokenization of {n} pieces: {d}"));
        }
    }
    let distinct: std::collections::HashSet<&String> = pieces.iter().map(|p| &p.0).collect();
    o.nontrivial(c.reported >= LARGE && n >= 2);
    o.label_if(c.reported < LARGE, "reported size below 2^25");
    o.label_if(n == 0, "no pieces");
    o.label_if(n == 1, "one piece");
    o.label_if(n > 8, "more pieces than threads");
    o.label_if(n > 1000, "over 1000 pieces");
    o.label_if(n > distinct.len(), "identical pieces");
    o.label_if(!sum.pairs.is_empty(), "has adjacent pairs");
    o.label_n("pieces", n as u64 * c.rounds.max(1) as u64);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Big {
    size: u64,
    chunk: u64,
    seed: u64,
}

fn big(c: &Big, o: &mut Obs) -> CheckResult {
    // real data of a size around the switch to worker threads
    let words = ["alpha ", "beta ", "gamma\n", "é中 ", "\n\n", "ab", "zzzz ", "Ω. "];
    let mut x = c.seed | 1;
    let mut t = String::with_capacity(c.size as usize + 8);
    while (t.len() as u64) < c.size {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        t.push_str(words[(x >> 60) as usize % words.len()]);
    }
    while t.len() as u64 > c.size || !t.is_char_boundary(t.len()) {
        t.pop();
    }
    while (t.len() as u64) < c.size {
        t.push('x');
    }
    let mut ts = texmo::verif::tokenset::TokenSet::new_bytes(texmo::verif::processing::Processing::Raw);
    for l in ["alpha ", "beta", "\n\n", "a b", "é中", "ab", "zz", "ha be"] {
        ts.add_token(l.as_bytes());
    }
    let s = MemorySampler::from_str(&t, c.chunk as usize);
    let par = Counts::of(&tokenize_file(&ts, &s, None))?;
    let seq = Counts::of(&tokenize_file_sync(&ts, &s, None))?;
    if let Some(d) = par.diff(&seq) {
        return Err(format!("{} bytes in pieces of up to {}: {d}", c.size, c.chunk));
    }
    if par.scanned != c.size {
        return Err(format!("{} bytes scanned of {}", par.scanned, c.size));
    }
    o.nontrivial(c.size >= LARGE);
    o.label("real data of 32 MiB or about that");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Merge {
    kind: u8,
    longs: Vec<Vec<u8>>,
    a: Vec<u64>,
    b: Vec<u64>,
}

fn main() {
    let mut r = Runner::new(
        "C07",
        "token sets as in C05; 0-6,000 pieces drawn (with repetitions) from up to 7 texts, handed out by a sampler that reports a size \
         around or above the threshold for worker threads and delays pieces (nothing, yields, spinning, 30 us - 2 ms sleeps; in some cases one stall of 0.3 - 12 s); 1-8 CPUs, \
         i.e. worker threads. Compared with tokenize_file_sync and with the sum of separately tokenized pieces; a result that does not come \
         within 90 s is a violation. Merging of hand-made statistics with counts of up to 2^62. Non-trivial: at least 2 pieces and a reported size that switches to worker threads.",
    );
    r.sub_opts(
        "pieces",
        5_000,
        200_000,
        4,
        400,
        |ctx| {
            let mut reps = ctx.dict.near(2, 2000);
            reps.extend([2, 3, 9, 33]);
            let piece = (
                any::<u8>(),
                prop_oneof![30 => Just(1u16), 4 => 2u16..12, 1 => vh::proptest::sample::select(reps).prop_map(|v| v as u16)],
                any::<bool>(),
            );
            bx((
                set_and_texts(ctx, 1..8, 25),
                prop_oneof![1 => vec(piece.clone(), 0..3), 6 => vec(piece.clone(), 2..40), 1 => vec(piece, 40..400)],
                prop_oneof![2 => Just(vec![]), 3 => vec(0u8..9, 1..8), 1 => vec(0u8..10, 1..40)],
                prop_oneof![8 => Just(LARGE), 2 => Just(LARGE - 1), 2 => Just(LARGE + 1), 4 => LARGE..1u64 << 40, 1 => 0..LARGE],
                prop_oneof![3 => Just(8u8), 2 => 1u8..8],
                1u8..4,
            )
                .prop_map(|((set, texts), pieces, delays, reported, cpus, rounds)| {
                    let pool = texts
                        .iter()
                        .map(|t| {
                            let s = String::from_utf8_lossy(t).to_string();
                            if s.is_empty() {
                                "a".into()
                            } else {
                                s
                            }
                        })
                        .collect();
                    Case { set, pool, pieces, delays, reported, cpus, rounds }
                }))
        },
        |c: &Case, _, o| check(c, o),
    );
    // Data that comes late: the workers wait for it.
    let mut cases = Vec::new();
    let set = SetSpec { kind: 3, caps: false, split: true, bytes: vec![], longs: vec![b"ab".to_vec(), b"c c".to_vec()], n_ext: 0, codes: vec![], multi: vec![], order: 0 };
    for cpus in [2u8, 8] {
        for stall in [10u8, 11, 12, 13] {
            for at in [0usize, 1, 5, 11] {
                if stall == 13 && !r.ctx.thorough && (at != 5 || cpus != 8) {
                    continue;
                }
                let mut delays = vec![0u8; 12];
                delays[at] = stall;
                cases.push(Case {
                    set: set.clone(),
                    pool: vec!["abab c c".into(), "ba".into(), "c c\n\n".into()],
                    pieces: (0..11).map(|i| (i as u8, 1, i % 2 == 0)).collect(),
                    delays,
                    reported: LARGE + at as u64,
                    cpus,
                    rounds: 1,
                });
            }
        }
    }
    cases.sort_by_key(|c| std::cmp::Reverse(c.delays.iter().copied().max()));
    r.enumerate("stalls", cases, 16, |_| vec![], |c: &Case, _, o| {
        o.label("a piece comes after 0.3 - 12 s");
        check(c, o)
    });
    // Counts of more data than can be generated.
    r.sub(
        "merge",
        20_000,
        500_000,
        |_| bx((0u8..5, vec(vec(b'a'..b'e', 2..4), 0..4), vec(huge(), 1..40), vec(huge(), 1..40)).prop_map(|(kind, longs, a, b)| Merge { kind, longs, a, b })),
        |c: &Merge, _, o| {
            let mut longs = c.longs.clone();
            longs.sort();
            longs.dedup();
            let ts = SetSpec { kind: c.kind, caps: false, split: true, bytes: vec![], longs, n_ext: 2, codes: vec![], multi: vec![], order: 0 }.build();
            let fill = |v: &[u64]| {
                let mut st = TokenStats::new(ts.clone(), Some(5));
                let mut k = 0;
                let mut next = || {
                    k += 1;
                    v[k % v.len()]
                };
                st.total_tokens = next();
                st.scanned_bytes = next();
                [&mut st.token_counts, &mut st.seq_counts, &mut st.pair_counts].into_iter().flatten().for_each(|x| *x = next());
                st
            };
            let what = |x: &TokenStats| -> Vec<u64> { [x.total_tokens, x.scanned_bytes].into_iter().chain(x.token_counts.iter().chain(&x.seq_counts).chain(&x.pair_counts).copied()).collect() };
            let (mut a, b) = (fill(&c.a), fill(&c.b));
            let (va, vb) = (what(&a), what(&b));
            a.merge(&b);
            let got = what(&a);
            for i in 0..va.len() {
                if got.get(i) != Some(&(va[i] + vb[i])) {
                    return Err(format!("number {i} of the statistics (total tokens, scanned bytes, counts of tokens, sequences, pairs): {} and {} merged to {:?}", va[i], vb[i], got.get(i)));
                }
            }
            if what(&b) != vb || got.len() != va.len() {
                return Err("merging changes the number of counts or the other statistics".into());
            }
            o.nontrivial(va.iter().zip(&vb).any(|(x, y)| *x > 1 << 31 && *y > 1 << 31));
            Ok(())
        },
    );
    let mut cases = Vec::new();
    let seed = r.ctx.seed;
    for size in [LARGE - 1, LARGE, LARGE + 1, LARGE + (1 << 20) + 7] {
        for chunk in [1u64 << 20, 1 << 24] {
            if r.ctx.thorough || size != LARGE + 1 {
                cases.push(Big { size, chunk, seed: seed ^ size });
            }
        }
    }
    r.enumerate("big", cases, 3, |_| vec![], |c: &Big, _, o| big(c, o));
    r.finish()
}
