//! C20: count-chars reports the exact character census.
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};
use vh::cli::{self, Opts, Scratch};
use vh::gens;
use vh::pp::*;
use vh::proptest::collection::vec;
use vh::proptest::sample::select;
use vh::run::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    /// (text, repetitions)
    parts: Vec<(String, u32)>,
}

thread_local! {
    static SCRATCH: Scratch = Scratch::new();
}

/// More than 2^32 characters.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Huge {
    blocks: u64,
    text: String,
}

fn huge(c: &Huge, ctx: &Ctx, o: &mut Obs) -> CheckResult {
    let sc = Scratch::new();
    let (p, block) = sc.sparse("data.txt", c.blocks, &c.text);
    let mut census: HashMap<char, u64> = HashMap::new();
    for ch in std::str::from_utf8(&block).unwrap().chars() {
        *census.entry(ch).or_insert(0) += c.blocks;
    }
    let total = census.values().sum();
    let out = cli::run(&ctx.texmo, &sc, &["count-chars", "-d", p.to_str().unwrap()], &Opts { stdout: true, ..Opts::default() });
    if !out.ok() {
        return Err(format!("count-chars failed on {} MiB: {}", c.blocks, out.describe()));
    }
    o.label("more than 2^32 characters");
    o.nontrivial(true);
    judge(out.stdout, &census, total, o)
}

fn check(c: &Case, ctx: &Ctx, o: &mut Obs) -> CheckResult {
    let mut text = String::new();
    for (t, n) in &c.parts {
        let n = (*n as usize).min(6_000_000 / (t.len() + 1));
        text.push_str(&t.repeat(n));
    }
    let mut census: HashMap<char, u64> = HashMap::new();
    let mut total = 0u64;
    for ch in text.chars() {
        *census.entry(ch).or_insert(0) += 1;
        total += 1;
    }
    let out = SCRATCH.with(|sc| {
        let p = sc.write("data.txt", text.as_bytes());
        cli::run(&ctx.texmo, sc, &["count-chars", "-d", p.to_str().unwrap()], &Opts { stdout: true, ..Opts::default() })
    });
    if !out.ok() {
        return Err(format!("count-chars failed on {} bytes: {}", text.len(), out.describe()));
    }
    o.label_if(text.len() > 8192, "over 8 KiB");
    o.label_if(text.len() > 1 << 20, "over 1 MiB");
    o.label_if(!text.is_empty() && !text.ends_with('\n'), "no newline at the end");
    o.label_if(text.is_empty(), "empty file");
    let low = census.keys().filter(|c| (**c as u32) < 0x100).count();
    o.nontrivial(low >= 2 && census.len() >= 3);
    judge(out.stdout, &census, total, o)
}

/// Is this the output for a text with this census?
fn judge(stdout: Vec<u8>, census: &HashMap<char, u64>, total: u64, o: &mut Obs) -> CheckResult {
    let s = String::from_utf8(stdout).map_err(|_| "the output is not UTF-8".to_string())?;
    let (mut got_total, mut got_max) = (None, None);
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    for l in s.lines() {
        // (how the total and the largest character are called is of no concern)
        let named = l.split_once(": ").filter(|_| !l.starts_with('\''));
        if let Some((_, n)) = named.filter(|(_, n)| !n.is_empty() && n.bytes().all(|b| b.is_ascii_digit())) {
            if got_total.replace(n.to_string()).is_some() {
                return Err("two totals".into());
            }
        } else if let Some((_, m)) = named.filter(|(_, m)| m.starts_with('\'')) {
            if got_max.replace(m.to_string()).is_some() {
                return Err("two largest characters".into());
            }
        } else if let Some((ch, n)) = l.rsplit_once(' ').filter(|(c, _)| c.starts_with('\'')) {
            let n: u64 = n.parse().map_err(|_| format!("unexpected line {l:?}"))?;
            if counts.insert(ch.to_string(), n).is_some() {
                return Err(format!("two lines for {ch}"));
            }
        } else if total < 1_000_000_000 {
            return Err(format!("unexpected line {l:?}"));
        }
    }
    if got_total.as_deref() != Some(total.to_string().as_str()) {
        return Err(format!("total {got_total:?} for {total} characters"));
    }
    for (ch, n) in census {
        if (*ch as u32) < 0x100 {
            match counts.remove(&format!("{ch:?}")) {
                Some(k) if k == *n => {}
                x => return Err(format!("{ch:?} occurs {n} times, reported: {x:?}")),
            }
        }
    }
    if let Some((k, n)) = counts.into_iter().next() {
        return Err(format!("{k} is reported to occur {n} times"));
    }
    if let Some(m) = census.keys().max() {
        if got_max.as_deref() != Some(format!("{m:?}").as_str()) {
            return Err(format!("largest character {m:?}, reported: {got_max:?}"));
        }
        o.label_if((*m as u32) < 0x100, "largest character below U+0100");
    }
    Ok(())
}

fn main() {
    let mut r = Runner::new(
        "C20",
        "texts of words of many scripts, control characters, all of U+0000-U+00FF, arbitrary scalars, line ends of all kinds; parts repeated up to \
         megabytes; a file of 4.4e9 characters; the census is taken from the text in memory. Non-trivial: at least 3 different characters, 2 of them below U+0100.",
    );
    r.sub(
        "random",
        16_000,
        600_000,
        |ctx| {
            let ch = prop_oneof![4 => vh::proptest::char::range('\0', '\u{ff}'), 2 => select(vec!['\u{ff}', '\u{100}', '\u{101}', '\u{fe}', '\u{7f}', '\u{80}', '\0', '\n', '\r', '\u{85}', '\u{a0}', '\u{ad}', '\'', '"', '\\', ' ']), 2 => gens::any_char(&ctx.dict)];
            let chars = vec(ch, 0..60).prop_map(|v| v.into_iter().collect::<String>());
            let mut near = ctx.dict.near(2, 300_000);
            near.extend([4096, 8191, 8192, 8193, 65_535, 65_536]);
            let reps = prop_oneof![20 => Just(1u32), 3 => 2u32..50, 1 => select(near).prop_map(|x| x as u32)];
            bx(vec((prop_oneof![4 => chars, 3 => gens::mixed_text(ctx, 40), 1 => select(vec!["\n", "a", "é", "中", "\r\n"]).prop_map(|s| s.to_string())], reps), 0..5).prop_map(|parts| Case { parts }))
        },
        |c: &Case, ctx, o| check(c, ctx, o),
    );
    let mut cases = vec![Huge { blocks: 4200, text: "Aé中 \u{ff}\n😀".into() }];
    if r.ctx.thorough {
        cases.push(Huge { blocks: 9000, text: "x\n\u{100}".into() });
    }
    r.enumerate("huge", cases, 1, |c| vec![Huge { blocks: c.blocks / 2, ..c.clone() }], |c: &Huge, ctx, o| huge(c, ctx, o));
    r.finish()
}
