//! Cases for the optimize command; included by the binaries that need them.
#![allow(dead_code)]
use serde::{Deserialize, Serialize};
use std::collections::HashSet;
use texmo::verif::optimize_bytes::{BytesOptimizer, HuffOptimizer};
use texmo::verif::processing::Processing;
use texmo::verif::stats2::TokenStats;
use texmo::verif::tokenset::TokenSet;
use vh::cli::{self, Opts, Scratch};
use vh::gens;
use vh::pp::*;
use vh::proptest::collection::vec;
use vh::proptest::sample::select;
use vh::refs::{ref_process, RefSet, Tok};
use vh::run::*;

/// Names on the command line; files and JSON call the last one byteshuff.
pub const TYPES: [&str; 5] = ["bits1", "bits2", "bits4", "bytes", "bytes-huff"];
pub const NAMES: [&str; 5] = ["bits1", "bits2", "bits4", "bytes", "byteshuff"];
pub const MIN: [u64; 5] = [2, 4, 16, 256, 3];
/// byte and extension tokens when every byte has a token
pub const FULL: [u64; 5] = [258, 260, 272, 256, 258];

/// An initial set.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Init {
    /// multi-byte tokens, cut from the processed text (position, length)
    pub cuts: Vec<(u16, u8)>,
    /// multi-byte tokens that may not occur in it
    pub other: Vec<Vec<u8>>,
    /// byte tokens (bits); statistics of bytes (byteshuff)
    pub bytes: Vec<u8>,
    /// how many tokens fewer than requested
    pub fewer: u8,
    pub split: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct OptCase {
    pub kind: u8,
    pub caps: bool,
    pub n: u64,
    pub text: String,
    pub init: Option<Init>,
    pub min_data_size: Option<u64>,
}

impl OptCase {
    pub fn processed(&self) -> String {
        if self.caps {
            ref_process(&self.text)
        } else {
            self.text.clone()
        }
    }
    pub fn processing(&self) -> &'static str {
        if self.caps {
            "capswords"
        } else {
            "raw"
        }
    }

    /// A well-formed initial set of n - fewer tokens (more precisely: of at
    /// most that many).
    pub fn init_set(&self, processed: &str) -> Option<RefSet> {
        let i = self.init.as_ref()?;
        let k = self.kind as usize % 5;
        let p = if self.caps { Processing::CapsWords } else { Processing::Raw };
        let target = self.n.saturating_sub(i.fewer as u64).max(MIN[k]) as usize;
        let mut longs: Vec<Vec<u8>> = Vec::new();
        let mut seen = HashSet::new();
        let b = processed.as_bytes();
        let cuts = i.cuts.iter().filter(|_| b.len() > 2).map(|&(at, len)| {
            let at = at as usize % (b.len() - 1);
            b[at..(at + 2 + len as usize % 5).min(b.len())].to_vec()
        });
        for l in cuts.chain(i.other.iter().cloned()) {
            if l.len() > 1 && seen.insert(l.clone()) {
                longs.push(l);
            }
        }
        longs.truncate(target - MIN[k] as usize);
        let byte_ext = (target - longs.len()).min(FULL[k] as usize);
        let mut ts = match k {
            0 => TokenSet::new_bits1(p, i.split),
            1 => TokenSet::new_bits2(p, i.split),
            2 => TokenSet::new_bits4(p, i.split),
            3 => TokenSet::new_bytes(p),
            _ => {
                let all = TokenSet::new_bytes(p);
                let mut st = TokenStats::new(all.clone(), None);
                for (j, x) in i.bytes.iter().enumerate() {
                    st.token_counts[*x as usize] += 1 + (i.bytes.len() - j) as u64;
                }
                HuffOptimizer::optimize_bytes(&st, byte_ext)
            }
        };
        if k < 3 {
            let mut own = HashSet::new();
            for x in i.bytes.iter().copied().chain(0..=255) {
                if ts.ntokens() < byte_ext && own.insert(x) {
                    ts.add_token(&[x]);
                }
            }
        }
        ts.split_paragraphs = i.split;
        for l in &longs {
            ts.add_token(l);
        }
        // the same set as the harness describes it
        let tokens: Vec<Tok> = ts
            .tokens
            .iter()
            .map(|t| match t {
                texmo::verif::tokenset::Token::Str(s) => Tok::Str(s.clone()),
                texmo::verif::tokenset::Token::Ext(n) => Tok::Ext(*n),
            })
            .collect();
        let seqs = ts.sequences.iter().map(|s| (s.string.clone(), s.tokens.iter().map(|&x| tokens[x].clone()).collect())).collect();
        Some(RefSet { ttype: NAMES[k].into(), processing: self.processing().into(), split: Some(ts.split_paragraphs), tokens, seqs, stats: None })
    }
}

pub struct Out {
    pub raw: Vec<u8>,
    pub set: RefSet,
    pub name: String,
    pub wall: f64,
    /// files in the output directory
    pub files: usize,
}

/// One file of the output directory, when it had been written.
pub struct Saved {
    pub name: String,
    pub raw: Vec<u8>,
}

pub fn read_log(log: &std::path::Path, dir: &str) -> Result<Vec<Saved>, String> {
    let log = std::fs::read(log).unwrap_or_default();
    let bad = || "HARNESS-ERROR: log of the written files".to_string();
    let (mut at, mut out) = (0, Vec::new());
    while at < log.len() {
        let nl = at + log[at..].iter().position(|&b| b == b'\n').ok_or_else(bad)?;
        let head = std::str::from_utf8(&log[at..nl]).map_err(|_| bad())?;
        let (a, b) = head.split_once(' ').ok_or_else(bad)?;
        let (pl, l): (usize, usize) = (a.parse().map_err(|_| bad())?, b.parse().map_err(|_| bad())?);
        let path = String::from_utf8_lossy(log.get(nl + 1..nl + 1 + pl).ok_or_else(bad)?).to_string();
        let raw = log.get(nl + 2 + pl..nl + 2 + pl + l).ok_or_else(bad)?.to_vec();
        let name = path.rsplit_once(&format!("/{dir}/")).map(|x| x.1.to_string()).unwrap_or(path);
        out.push(Saved { name, raw });
        at = nl + 3 + pl + l;
    }
    Ok(out)
}

/// Processor time after which a run counts as not ending: the runs of this
/// harness take a few seconds at most.
pub const CPU_LIMIT: u64 = 150;

pub fn optimize(ctx: &Ctx, sc: &Scratch, c: &OptCase, dir: &str, data: &str, processed: Option<&str>, input: Option<&str>) -> Result<Out, String> {
    optimize_limited(ctx, sc, c, dir, data, processed, input, CPU_LIMIT)
}

#[allow(clippy::too_many_arguments)]
pub fn optimize_limited(ctx: &Ctx, sc: &Scratch, c: &OptCase, dir: &str, data: &str, processed: Option<&str>, input: Option<&str>, limit: u64) -> Result<Out, String> {
    optimize_clock(ctx, sc, c, dir, data, processed, input, limit, 1.0)
}

/// With a clock that runs `factor` times as fast; progress is saved then, too.
#[allow(clippy::too_many_arguments)]
pub fn optimize_clock(ctx: &Ctx, sc: &Scratch, c: &OptCase, dir: &str, data: &str, processed: Option<&str>, input: Option<&str>, limit: u64, factor: f64) -> Result<Out, String> {
    let out = sc.mkdir(dir);
    let n = c.n.to_string();
    let m = c.min_data_size.map(|m| m.to_string());
    let mut args = vec!["optimize", "-d", data, "-t", out.to_str().unwrap(), "-p", if c.caps { "caps-words" } else { "raw" }, "--type", TYPES[c.kind as usize % 5], "-n", &n];
    if let Some(p) = processed {
        args.extend(["--processed-data", p]);
    }
    if let Some(i) = input {
        args.extend(["-i", i]);
    }
    if let Some(m) = &m {
        args.extend(["--min-data-size", m]);
    }
    let mut env = Vec::new();
    let log = sc.path(&format!("log/{dir}.writes"));
    if factor != 1.0 {
        let out = std::fs::canonicalize(&out).map_err(|e| format!("HARNESS-ERROR: {e}"))?;
        env.push(("LD_PRELOAD".to_string(), ctx.aux.join("libclock.so").to_string_lossy().to_string()));
        env.push(("CLOCK_FACTOR".to_string(), format!("{factor}")));
        env.push(("CLOCK_PREFIX".to_string(), format!("{}/", out.to_string_lossy())));
        env.push(("CLOCK_LOG".to_string(), log.to_string_lossy().to_string()));
    }
    let r = cli::run(&ctx.texmo, sc, &args, &Opts { cpu: Some(limit), env, ..Opts::default() });
    let shown = args[7..].join(" ");
    if r.cpu_exceeded() {
        return Err(format!("optimize -p {shown}: has not ended after {limit} s of processor time"));
    }
    if !r.ok() {
        // a panic message comes before long dumps
        return Err(format!("optimize -p {shown} failed: {}", r.describe()));
    }
    let mut files: Vec<(String, Vec<u8>)> = Vec::new();
    for f in std::fs::read_dir(&out).map_err(|e| format!("HARNESS-ERROR: {e}"))?.flatten() {
        files.push((f.file_name().to_string_lossy().to_string(), std::fs::read(f.path()).unwrap_or_default()));
    }
    let nfiles = files.len();
    // a run of over a minute also leaves intermediate results, without
    // statistics
    let wall = r.wall.as_secs_f64();
    if wall > 50.0 && files.len() > 1 {
        files.retain(|(_, d)| d.windows(8).any(|w| w == b"\"stats\":"));
    }
    if factor != 1.0 {
        // the result is what was written last
        let last = read_log(&log, dir)?.pop().ok_or("HARNESS-ERROR: no file was recorded")?;
        files.retain(|f| f.0 == last.name);
    }
    if files.len() != 1 {
        return Err(format!("optimize -p {shown} wrote {} files: {:?}", files.len(), files.iter().map(|f| &f.0).collect::<Vec<_>>()));
    }
    let (name, raw) = files.remove(0);
    let v = serde_json::from_slice(&raw).map_err(|e| format!("{name} is not JSON: {e}"))?;
    let set = RefSet::from_value(&v).map_err(|e| format!("{name}: {e}"))?;
    Ok(Out { raw, set, name, wall, files: nfiles })
}

/// Laws of a result that hold whatever the data.
pub fn judge_set(c: &OptCase, out: &Out) -> CheckResult {
    let s = &out.set;
    if s.ttype != NAMES[c.kind as usize % 5] || s.processing != c.processing() {
        return Err(format!("asked for {} {}, got {} {}", NAMES[c.kind as usize % 5], c.processing(), s.ttype, s.processing));
    }
    if out.name != format!("{}.json", s.name()) {
        return Err(format!("the file is called {}, the set in it {}", out.name, s.name()));
    }
    if s.tokens.len() as u64 > c.n {
        return Err(format!("{} tokens, {} requested", s.tokens.len(), c.n));
    }
    s.well_formed()
}

pub fn size_of(ctx: &Ctx, kind: u8, extra: std::ops::Range<u64>) -> BoxedStrategy<u64> {
    let k = kind as usize % 5;
    let (lo, full) = (MIN[k], FULL[k]);
    let mut near = ctx.dict.near(lo, lo.max(300));
    near.extend([lo, lo + 1, full, full + 1]);
    bx(prop_oneof![
        24 => extra.prop_map(move |e| lo + e),
        2 => select(near),
        1 => (full.saturating_sub(3).max(lo)..full + 6),
        1 => (lo..full + 1),
    ])
}

/// Text an optimization can deal with in a few seconds at most: it tokenizes
/// the text about once for every pair of multi-byte tokens, and that takes
/// time growing with the cube of the tokens' lengths, which with a repetitive
/// text grow to its length. Tokens don't go on after a blank line, so
/// paragraphs keep them short.
pub fn affordable(text: &mut String, kind: u8, n: u64) {
    let (size, paragraph) = match n.saturating_sub(MIN[kind as usize % 5]) {
        0..=3 => (3000, 3000),
        4..=5 => (1200, 120),
        6..=8 => (600, 60),
        9..=14 => (250, 32),
        15..=30 => (140, 26),
        _ => (45, 20),
    };
    shorten(text, size);
    if text.len() > paragraph + 20 {
        let mut t = String::new();
        let mut since = 0;
        for c in text.chars() {
            if c == '\n' && t.ends_with("\n\n\n\n\n\n\n\n") {
                continue;
            }
            since = if t.ends_with('\n') && c == '\n' { 0 } else { since + c.len_utf8() };
            t.push(c);
            if since > paragraph {
                t.push_str("\n\n");
                since = 0;
            }
        }
        *text = t;
    }
}

pub fn shorten(text: &mut String, mut k: usize) {
    if text.len() > k {
        while !text.is_char_boundary(k) {
            k -= 1;
        }
        text.truncate(k);
    }
}

pub fn init_gen() -> BoxedStrategy<Init> {
    bx((
        vec((any::<u16>(), any::<u8>()), 0..10),
        vec(prop_oneof![vec(select(vec![b'a', b'b', b'e', b' ', b'\n', 0x16]), 2..5), vec(any::<u8>(), 2..4)], 0..4),
        prop_oneof![1 => vec(any::<u8>(), 0..20), 2 => vec(select(b"eta oinshr\n\x14\x16ab".to_vec()), 0..20)],
        prop_oneof![2 => Just(0u8), 1 => 0u8..6],
        any::<bool>(),
    )
        .prop_map(|(cuts, other, bytes, fewer, split)| Init { cuts, other, bytes, fewer, split }))
}

pub fn opt_case(ctx: &Ctx, with_init: u32, max_extra: u64) -> BoxedStrategy<OptCase> {
    let sizes: Vec<BoxedStrategy<u64>> = (0..5).map(|k| size_of(ctx, k, 0..max_extra)).collect();
    let init = prop_oneof![6 => Just(None), with_init.max(1) => init_gen().prop_map(Some)];
    let text = prop_oneof![60 => gens::training_text(ctx), 1 => Just(String::new())];
    bx((0u8..5, any::<bool>(), text, init).prop_flat_map(move |(kind, caps, text, init)| {
        let init = if with_init == 0 { None } else { init };
        sizes[kind as usize].clone().prop_map(move |n| {
            let mut text = gens::strip_markers(&text);
            affordable(&mut text, kind, n);
            OptCase { kind, caps, n, text, init: init.clone(), min_data_size: None }
        })
    }))
}

pub fn label_case(c: &OptCase, out: &Out, o: &mut Obs) {
    o.label(NAMES[c.kind as usize % 5]);
    o.label(c.processing());
    let k = c.kind as usize % 5;
    o.label_if(c.n == MIN[k], "smallest number of tokens");
    o.label_if(c.n >= FULL[k], "tokens for every byte possible");
    o.label_if(c.init.is_some(), "initial set given");
    o.label_if(c.text.is_empty(), "empty text");
    o.label_if((out.set.tokens.len() as u64) < c.n, "fewer tokens than requested");
    o.label_if(!out.set.long_tokens().is_empty(), "has multi-byte tokens");
    o.label_if(out.wall > 10.0, "took more than 10 s");
    o.nontrivial(!out.set.long_tokens().is_empty() || (out.set.n_ext() > 0 && out.set.tokens.len() > out.set.n_ext() + 1));
}
