//! C10: a reduced sample consists of whole paragraphs, spread evenly.
use serde::{Deserialize, Serialize};
use std::collections::HashSet;
use texmo::verif::input::memory_sampler::MemorySampler;
use texmo::verif::input::sample::Sampler;
use vh::cli::Scratch;
use vh::gens;
use vh::pp::*;
use vh::proptest::collection::vec;
use vh::proptest::sample::select;
use vh::run::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    text: String,
    size: u64,
    chunk: u32,
}

/// A paragraph extends through the blank lines after it.
fn paragraphs(b: &[u8]) -> Vec<&[u8]> {
    let mut v = Vec::new();
    let mut s = 0;
    for p in 2..b.len() {
        if b[p - 1] == b'\n' && b[p - 2] == b'\n' && b[p] != b'\n' {
            v.push(&b[s..p]);
            s = p;
        }
    }
    if s < b.len() {
        v.push(&b[s..]);
    }
    v
}

thread_local! {
    static SCRATCH: Scratch = Scratch::new();
}

fn check(c: &Case, o: &mut Obs) -> CheckResult {
    let b = c.text.as_bytes();
    let n = b.len();
    let sampler = SCRATCH.with(|sc| {
        let p = sc.write("data.txt", b);
        MemorySampler::sample_from_file(p.to_str().unwrap(), c.size as usize, c.chunk.max(4) as usize)
    });
    let mut out = Vec::new();
    for s in sampler.iter() {
        if s.as_bytes().is_empty() {
            return Err("an empty sample".into());
        }
        out.extend_from_slice(s.as_bytes());
    }
    if sampler.total_size() != out.len() as u64 {
        return Err(format!("total size {} for {} bytes", sampler.total_size(), out.len()));
    }
    let paras = paragraphs(b);
    let longest = paras.iter().map(|p| p.len()).max().unwrap_or(0);
    let shown = || String::from_utf8_lossy(&out[..out.len().min(300)]).to_string();
    if c.size >= n as u64 {
        o.label("size of the file or more");
        if out != b {
            return Err(format!("{} bytes asked of a file of {n}: got {} bytes, {:?}", c.size, out.len(), shown()));
        }
        o.nontrivial(paras.len() >= 2);
        return Ok(());
    }
    // Is there a choice of paragraphs that yields this output and stays close
    // to the proportional share at every boundary?
    let share = c.size as f64 / n as f64;
    let mut states: HashSet<usize> = HashSet::from([0]);
    let mut free: HashSet<usize> = HashSet::from([0]);
    let mut passed = 0usize;
    for p in &paras {
        passed += p.len();
        let step = |st: &HashSet<usize>| {
            let mut next = HashSet::new();
            for &t in st {
                next.insert(t);
                if out[t..].starts_with(p) {
                    next.insert(t + p.len());
                }
            }
            next
        };
        free = step(&free);
        states = step(&states);
        let want = share * passed as f64;
        states.retain(|&t| (t as f64 - want).abs() <= longest as f64 + 1e-6 * n as f64);
    }
    if !free.contains(&out.len()) {
        return Err(format!("{} bytes asked of {n} in {} paragraphs: the sample is not a concatenation of paragraphs in order: {:?}", c.size, paras.len(), shown()));
    }
    if !states.contains(&out.len()) {
        return Err(format!(
            "{} bytes asked of {n} in {} paragraphs of up to {longest} bytes: the paragraphs taken ({} bytes) are not spread evenly: {:?}",
            c.size,
            paras.len(),
            out.len(),
            shown()
        ));
    }
    o.nontrivial(paras.len() >= 3 && !out.is_empty() && out.len() < n);
    o.label_if(paras.len() >= 20, "20 and more paragraphs");
    o.label_if(out.is_empty(), "empty sample");
    o.label_if(b.starts_with(b"\n"), "file starts with a newline");
    o.label_if(!b.ends_with(b"\n"), "file does not end with a newline");
    Ok(())
}

/// A file of more than 2^32 bytes, in numbered paragraphs of `unit` MiB.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Huge {
    paras: u64,
    unit: u64,
    size: u64,
}

fn huge(c: &Huge, o: &mut Obs) -> CheckResult {
    use std::os::unix::fs::FileExt;
    let sc = Scratch::new();
    let p = sc.path("data.txt");
    let len = c.unit << 20;
    let n = c.paras * len;
    let number = |i: u64| format!("paragraph {i} ");
    (|| {
        let f = std::fs::File::create(&p)?;
        f.set_len(n)?;
        for i in 0..c.paras {
            f.write_all_at(number(i).as_bytes(), i * len)?;
            f.write_all_at(b"\n\n", (i + 1) * len - 2)?;
        }
        Ok::<(), std::io::Error>(())
    })()
    .map_err(|e| format!("HARNESS-ERROR: {e}"))?;
    let sampler = MemorySampler::sample_from_file(p.to_str().unwrap(), c.size as usize, len as usize);
    let what = |s: String| Err(format!("{} bytes asked of {} paragraphs of {} MiB: {s}", c.size, c.paras, c.unit));
    let mut taken: Vec<u64> = Vec::new();
    let mut total = 0;
    for s in sampler.iter() {
        let b = s.as_bytes();
        let id = b.strip_prefix(b"paragraph ").and_then(|r| std::str::from_utf8(&r[..r.iter().position(|&x| x == b' ')?]).ok()?.parse::<u64>().ok());
        let Some(i) = id.filter(|&i| i < c.paras) else { return what(format!("sample {} does not begin with a paragraph", taken.len())) };
        if b.len() as u64 != len || !b.ends_with(b"\n\n") || b[number(i).len()..b.len() - 2].iter().any(|&x| x != 0) {
            return what(format!("paragraph {i} is not whole in the sample"));
        }
        if taken.last().is_some_and(|&l| l >= i) {
            return what(format!("paragraph {i} comes after paragraph {}", taken.last().unwrap()));
        }
        taken.push(i);
        total += b.len() as u64;
    }
    if sampler.total_size() != total {
        return what(format!("total size {} for {total} bytes", sampler.total_size()));
    }
    let share = (c.size as f64 / n as f64).min(1.0);
    let mut k = 0;
    for i in 0..c.paras {
        if taken.get(k) == Some(&i) {
            k += 1;
        }
        let want = share * ((i + 1) * len) as f64;
        if ((k as u64 * len) as f64 - want).abs() > len as f64 * 1.001 {
            return what(format!("{k} of the first {} paragraphs are taken: not spread evenly", i + 1));
        }
    }
    if c.size >= n && taken.len() as u64 != c.paras {
        return what(format!("only {} paragraphs are taken", taken.len()));
    }
    o.label("file of over 4 GiB");
    o.nontrivial(true);
    Ok(())
}

fn main() {
    let mut r = Runner::new(
        "C10",
        "files of 0-300 paragraphs (numbered or from a small vocabulary, of equal or very different lengths, separated by two or more newlines, \
         with and without newlines at the start and the end, lines with carriage returns, spaces, multi-byte characters), sizes from 0 to beyond \
         the file; a sparse file of over 8 GiB. A search over all choices of paragraphs decides whether the sample is admissible. Non-trivial: at least 3 paragraphs, the \
         sample is neither empty nor everything.",
    );
    r.sub(
        "random",
        250_000,
        3_000_000,
        |ctx| {
            let sep = select(vec!["\n\n", "\n\n", "\n\n", "\n\n\n", "\n\n\n\n\n", "\n", "\n\n \n", "\r\n\r\n", "\n \n"]);
            let body = prop_oneof![
                4 => (any::<u16>(), 0usize..12).prop_map(|(k, n)| format!("p{k}{}", " xy".repeat(n))),
                2 => select(vec!["a", "b", "ab", "aa", "a\nb", "é", "中文 字", "", " ", "\r", "\0"]).prop_map(|s| s.to_string()),
                1 => (any::<u16>(), 1usize..400).prop_map(|(k, n)| format!("long{k} {}", "word\n".repeat(n))),
                1 => gens::text(ctx, 1..5),
            ];
            let paras = |r| vec((body.clone(), sep.clone()), r).prop_map(|v| v.into_iter().map(|(a, b)| a + b).collect::<String>());
            let equal = (1usize..30, 1usize..200, select(vec!["\n\n", "\n\n\n"])).prop_map(|(l, n, s)| (0..n).map(|i| format!("{i:0>l$}{s}")).collect::<String>());
            let text = (
                select(vec!["", "", "", "\n", "\n\n", "\n\n\n"]),
                prop_oneof![6 => paras(0..16), 2 => paras(16..80), 3 => bx(equal), 1 => gens::mixed_text(ctx, 40)],
                select(vec!["", "", "end", "end\n", "end\n\n", "\n\n\n"]),
            )
                .prop_map(|(a, t, z)| format!("{a}{t}{z}"));
            let mut near = ctx.dict.near(0, 100_000);
            near.push(0);
            bx((
                text,
                prop_oneof![6 => (0u64..1000).prop_map(|v| (0u8, v)), 1 => select(near).prop_map(|v| (1u8, v)), 1 => (0u64..7).prop_map(|v| (2u8, v)), 1 => Just((3u8, 0u64))],
                prop_oneof![3 => Just(1u32 << 20), 1 => 4u32..100],
            )
                .prop_map(|(text, (how, v), chunk)| {
                    let n = text.len() as u64;
                    let size = match how {
                        0 => n * v / 1000,
                        1 => v,
                        2 => (n + 3).saturating_sub(v),
                        _ => n * 2 + 1,
                    };
                    Case { text, size, chunk }
                }))
        },
        |c: &Case, _, o| check(c, o),
    );
    let mut cases = vec![Huge { paras: 2050, unit: 4, size: 100 << 20 }];
    if r.ctx.thorough {
        cases.push(Huge { paras: 8200, unit: 1, size: 4500 << 20 });
        cases.push(Huge { paras: 4100, unit: 1, size: 5000 << 20 });
        cases.push(Huge { paras: 150, unit: 64, size: 4097 << 20 });
        cases.push(Huge { paras: 20_000, unit: 1, size: 1 << 20 });
    }
    r.enumerate("huge", cases, 1, |c| vec![Huge { paras: c.paras / 2, ..c.clone() }], |c: &Huge, _, o| huge(c, o));
    r.finish()
}
