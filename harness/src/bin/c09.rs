//! C09: splitting data into samples loses, repeats and alters nothing.
use serde::{Deserialize, Serialize};
use texmo::verif::input::file_sampler::FileSampler;
use texmo::verif::input::memory_sampler::MemorySampler;
use texmo::verif::input::sample::Sampler;
use vh::cli::Scratch;
use vh::gens;
use vh::pp::*;
use vh::proptest::collection::vec;
use vh::proptest::sample::select;
use vh::run::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    text: String,
    chunk: u32,
}

fn bounded<'a, S: Sampler<'a>>(s: &'a S, max: usize, what: &str) -> Result<Vec<Vec<u8>>, String> {
    let mut v = Vec::new();
    for x in s.iter() {
        // as_bytes and as_str are two views of the same data
        if x.as_bytes() != x.as_str().as_bytes() {
            return Err(format!("{what}: as_str differs from as_bytes"));
        }
        v.push(x.as_bytes().to_vec());
        if v.len() > max {
            return Err(format!("{what}: more samples than the text has bytes"));
        }
    }
    Ok(v)
}

fn ends_para(t: &[u8], e: usize) -> bool {
    e >= 2 && t[e - 1] == b'\n' && t[e - 2] == b'\n'
}

fn judge(t: &str, c: usize, samples: &[Vec<u8>], what: &str, o: &mut Obs) -> CheckResult {
    let b = t.as_bytes();
    let n = b.len();
    let mut s = 0;
    let (mut at_para, mut at_max) = (0u64, 0u64);
    for (i, x) in samples.iter().enumerate() {
        let at = || format!("{what}, sample size {c}: sample {i} (bytes {s}..{} of {n})", s + x.len());
        if x.is_empty() {
            return Err(format!("{} is empty", at()));
        }
        let e = s + x.len();
        if e > n || &b[s..e] != x.as_slice() {
            return Err(format!("{} is {:?} instead of {:?}", at(), String::from_utf8_lossy(&x[..x.len().min(200)]), String::from_utf8_lossy(&b[s.min(n)..e.min(n).min(s + 200)])));
        }
        if x.len() > c {
            return Err(format!("{} exceeds the sample size", at()));
        }
        if !t.is_char_boundary(e) {
            return Err(format!("{} ends inside a character", at()));
        }
        if e < n {
            let hi = (s + c).min(n);
            let inside = b[s..hi].windows(2).any(|w| w == b"\n\n");
            // the blank line may have begun in the previous sample
            let ok = if ends_para(b, e) {
                at_para += 1;
                true
            } else if inside {
                return Err(format!("{} does not end after a blank line, though its stretch {:?} has one", at(), String::from_utf8_lossy(&b[s..hi.min(s + 200)])));
            } else {
                let mut m = hi;
                while !t.is_char_boundary(m) {
                    m -= 1;
                }
                at_max += 1;
                e == m
            };
            if !ok {
                return Err(format!("{} ends neither after a blank line nor at the sample size", at()));
            }
        }
        s = e;
    }
    if s != n {
        return Err(format!("{what}, sample size {c}: the samples end at byte {s} of {n}"));
    }
    o.label_if(at_para > 0, "sample ending after a blank line");
    o.label_if(at_max > 0, "sample as long as permitted");
    o.nontrivial(samples.len() > 1);
    Ok(())
}

fn one<'a, S: Sampler<'a>>(s: &'a S, c: &Case, what: &str, o: &mut Obs) -> CheckResult {
    let n = c.text.len();
    let first = bounded(s, n, what)?;
    judge(&c.text, c.chunk as usize, &first, what, o)?;
    if bounded(s, n, what)? != first {
        return Err(format!("{what}: the second iteration gives other samples"));
    }
    // two interleaved iterations
    let (mut a, mut b) = (s.iter(), s.iter());
    let mut k = 0;
    let mut bk = 0;
    while let Some(x) = a.next() {
        if first.get(k).map(|f| f.as_slice()) != Some(x.as_bytes()) {
            return Err(format!("{what}: an iteration interleaved with another one gives other samples"));
        }
        k += 1;
        if k % 3 != 0 {
            if let Some(y) = b.next() {
                if first.get(bk).map(|f| f.as_slice()) != Some(y.as_bytes()) {
                    return Err(format!("{what}: an iteration interleaved with another one gives other samples"));
                }
                bk += 1;
            }
        }
    }
    if k != first.len() {
        return Err(format!("{what}: an interleaved iteration ends after {k} of {} samples", first.len()));
    }
    if s.total_size() != n as u64 {
        return Err(format!("{what}: total size {} for {n} bytes", s.total_size()));
    }
    Ok(())
}

thread_local! {
    static SCRATCH: Scratch = Scratch::new();
}

fn check(c: &Case, o: &mut Obs) -> CheckResult {
    o.label_if(!c.text.is_ascii(), "non-ASCII");
    o.label_if(c.text.is_empty(), "empty text");
    o.label_if(c.chunk as usize == c.text.len(), "sample size equals the text's size");
    let m = MemorySampler::from_str(&c.text, c.chunk as usize);
    one(&m, c, "from a string", o)?;
    SCRATCH.with(|sc| {
        let p = sc.write("data.txt", c.text.as_bytes());
        let p = p.to_str().unwrap();
        one(&MemorySampler::from_file(p, c.chunk as usize), c, "from memory", o)?;
        one(&FileSampler::new(p, c.chunk as usize, None), c, "from a file", o)
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Big {
    unit: String,
    size: u32,
    chunk: u32,
}

/// Text without blank lines between given ones.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Far {
    parts: Vec<(String, u32, String)>,
    chunk: u32,
}

/// More than 2^32 bytes, in paragraphs of 1 MiB.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Huge {
    blocks: u64,
    chunk: u64,
    memory: bool,
}

fn huge(c: &Huge, o: &mut Obs) -> CheckResult {
    let sc = Scratch::new();
    let (p, _) = sc.sparse("data.txt", c.blocks, "some text é.");
    // the paragraphs are told apart by their number
    let number = |i: u64| format!("block {i}\u{e9}");
    {
        use std::os::unix::fs::FileExt;
        let f = std::fs::OpenOptions::new().write(true).open(&p).map_err(|e| format!("HARNESS-ERROR: {e}"))?;
        for i in 0..c.blocks {
            f.write_all_at(number(i).as_bytes(), (i << 20) + 64).map_err(|e| format!("HARNESS-ERROR: {e}"))?;
        }
    }
    let n = c.blocks << 20;
    let p = p.to_str().unwrap();
    // Samples consist of whole paragraphs, as many as fit.
    let want = (c.chunk >> 20) << 20;
    let judge = |x: &[u8], at: u64, i: usize| -> CheckResult {
        let bad = |what: String| Err(format!("{} MiB from {}, sample size {}: sample {i} at byte {at} {what}", c.blocks, if c.memory { "memory" } else { "a file" }, c.chunk));
        let len = want.min(n - at);
        if x.len() as u64 != len {
            return bad(format!("has {} bytes instead of {len}", x.len()));
        }
        for (k, b) in x.chunks(1 << 20).enumerate() {
            let id = number((at >> 20) + k as u64);
            let text = "some text é.";
            let rest = |a: usize, z: usize| b[a..z].iter().all(|&y| y == 0);
            if !b.starts_with(text.as_bytes()) || !b[64..].starts_with(id.as_bytes()) || !b.ends_with(b"\n\n") || !rest(text.len(), 64) || !rest(64 + id.len(), b.len() - 2) {
                return bad(format!("does not hold the paragraph {id:?} unaltered"));
            }
        }
        Ok(())
    };
    fn pass<'a, S: Sampler<'a>>(s: &'a S, n: u64, judge: &dyn Fn(&[u8], u64, usize) -> CheckResult) -> CheckResult {
        if s.total_size() != n {
            return Err(format!("total size {} for {n} bytes", s.total_size()));
        }
        let mut at = 0;
        for (i, x) in s.iter().enumerate() {
            if at >= n {
                return Err(format!("a sample of {} bytes after the last one", x.as_bytes().len()));
            }
            judge(x.as_bytes(), at, i)?;
            at += x.as_bytes().len() as u64;
        }
        if at != n {
            return Err(format!("the samples end at byte {at} of {n}"));
        }
        Ok(())
    }
    o.label("data of over 4 GiB");
    o.nontrivial(true);
    if c.memory {
        pass(&MemorySampler::from_file(p, c.chunk as usize), n, &judge)
    } else {
        pass(&FileSampler::new(p, c.chunk as usize, None), n, &judge)
    }
}

fn main() {
    let mut r = Runner::new(
        "C09",
        "texts of words, line ends, blank lines and multi-byte characters (also dense mixtures of newlines and 1-4 byte characters), sample \
         sizes of at least 4 bytes (a character) near line, paragraph and text lengths; read from a string, from memory and from a file; large \
         texts with the sample sizes the program uses; sparse data of over 4 GiB; blank lines 2^8 to 2^20 bytes apart, with samples of up to 2^20 bytes. Non-trivial: more than one sample.",
    );
    r.sub(
        "random",
        300_000,
        5_000_000,
        |ctx| {
            let dense = vec(select(vec!["\n", "\n", "\n\n", "\n\n\n", "a", "b", "é", "中", "😀", " ", "\r\n", "abc", "word word", "0", "\u{0}"]), 0..60).prop_map(|v| v.concat());
            let sparse = (vec(select(vec!["a", "é", "中", "😀", "ab", "\n"]), 1..12), 1usize..40, select(vec!["", "\n\n", "\n", "\n\n\n"])).prop_map(|(v, n, s)| v.concat().repeat(n) + s);
            let mut near = ctx.dict.near(4, 70_000);
            near.extend([4, 5, 16, 64, 4096, 8192, 65536]);
            bx((
                prop_oneof![5 => dense, 2 => sparse, 3 => gens::mixed_text(ctx, 60)],
                prop_oneof![6 => (4u32..24).prop_map(|v| (0u8, v)), 2 => (1u32..5, 0u32..7).prop_map(|(d, k)| (1u8, d * 16 + k)), 2 => select(near).prop_map(|v| (0u8, v as u32)), 1 => (24u32..400).prop_map(|v| (0u8, v))],
            )
                .prop_map(|(text, (how, v))| {
                    let n = text.len() as u32;
                    let chunk = if how == 0 { v } else { (n / (v / 16)).saturating_add(v % 16).saturating_sub(3) };
                    Case { text, chunk: chunk.max(4) }
                }))
        },
        |c: &Case, _, o| check(c, o),
    );
    // Blank lines, if any, a long way from the end of a sample.
    r.sub_opts(
        "far apart",
        600,
        40_000,
        SHARDS,
        120,
        |ctx| {
            let mut gaps: Vec<u64> = ctx.dict.near(256, 1 << 20);
            gaps.extend((8..=20).map(|k| 1 << k));
            let gap = prop_oneof![3 => select(gaps), 2 => (8u32..20, any::<u16>()).prop_map(|(k, x)| (1u64 << k) + x as u64 * (1 << k) / 65536)];
            let unit = select(vec!["x", "ab cd\n", "é", "中文", "😀", "a\r\n", "\nb"]);
            bx((vec((unit, gap, select(vec!["\n\n", "\n\n\n", "", "\n"])), 1..5), 12u32..=20, any::<u16>()).prop_map(|(parts, k, x)| Far {
                parts: parts.into_iter().map(|(u, g, s)| (u.to_string(), g as u32, s.to_string())).collect(),
                chunk: (1u32 << k).saturating_sub((x as u32 % 3) * (x as u32 >> (21 - k).min(16))),
            }))
        },
        |c: &Far, _, o| {
            let mut text = String::new();
            for (u, g, s) in &c.parts {
                text.push_str(&u.repeat(*g as usize / u.len()));
                text.push_str(s);
            }
            o.label_if(text.len() > 1 << 20, "text of 1 MiB and more");
            check(&Case { text, chunk: c.chunk.max(4) }, o)
        },
    );
    let mut cases = Vec::new();
    for unit in ["a", "中", "😀é", "line\n", "para graph\n\n", "x\n中文 text 😀\n\n\nyy"] {
        for (size, chunk) in [((1 << 20) + 5, 1 << 20), ((1 << 20), 1 << 20), ((3 << 20) + 1, 1 << 20), ((1 << 24) + 9, 1 << 24), (1 << 24, 1 << 24), ((1 << 25) + 77, 1 << 24)] {
            cases.push(Big { unit: unit.into(), size, chunk });
        }
    }
    r.enumerate(
        "big",
        cases,
        4,
        |_| vec![],
        |c: &Big, _, o| {
            let mut text = c.unit.repeat(c.size as usize / c.unit.len() + 1);
            let mut k = c.size as usize;
            while !text.is_char_boundary(k) {
                k -= 1;
            }
            text.truncate(k);
            o.label("text of 1 MiB and more");
            check(&Case { text, chunk: c.chunk }, o)
        },
    );
    let mut cases = vec![Huge { blocks: 4100, chunk: 1 << 24, memory: false }, Huge { blocks: 4100, chunk: 9 << 20 | 77, memory: true }];
    if r.ctx.thorough {
        cases.push(Huge { blocks: 4300, chunk: 10_000_003, memory: false });
        cases.push(Huge { blocks: 4100, chunk: 1 << 20, memory: true });
        cases.push(Huge { blocks: 8300, chunk: 1 << 24, memory: false });
        cases.push(Huge { blocks: 8200, chunk: 1 << 20, memory: true });
    }
    r.enumerate("huge", cases, 1, |c| vec![Huge { blocks: c.blocks / 2, ..c.clone() }], |c: &Huge, _, o| huge(c, o));
    r.finish()
}
