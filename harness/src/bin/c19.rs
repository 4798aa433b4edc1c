//! C19: convert-tokens keeps the token set and recomputes its statistics.
#[path = "../api.rs"]
mod api;
use api::*;
use serde::{Deserialize, Serialize};
use std::path::PathBuf;
use vh::cli::{self, Opts, Scratch};
use vh::gens;
use vh::pp::*;
use vh::proptest::collection::vec;
use vh::proptest::sample::select;
use vh::refs::{check_stats, ref_process, RefSet};
use vh::run::*;

/// Converts twice and judges the outcome.
struct Job<'a> {
    set: &'a RefSet,
    set_file: PathBuf,
    text: &'a str,
    supply_processed: bool,
    /// how many tokens more than the minimum the cuts between samples may cost
    slack: u64,
}

fn run_job(j: &Job, sc: &Scratch, ctx: &Ctx) -> CheckResult {
    let processed = if j.set.processing == "capswords" { ref_process(j.text) } else { j.text.to_string() };
    let data = sc.write_by("data.txt", j.text.as_bytes(), j.text.len() % 3 == 0);
    // for a raw set the processed data given has no say
    let proc_file = sc.write("processed.txt", if j.set.processing == "capswords" { processed.clone() } else { ref_process(j.text) + "\nand more" }.as_bytes());
    let out = sc.mkdir("out");
    let again = sc.mkdir("again");
    for d in [&out, &again] {
        for f in std::fs::read_dir(d).map_err(|e| format!("HARNESS-ERROR: {e}"))?.flatten() {
            let _ = std::fs::remove_file(f.path());
        }
    }
    let name = format!("{}.json", j.set.name());
    let convert = |from: &PathBuf, to: &PathBuf, supply: bool| -> Result<Vec<u8>, String> {
        let mut args = vec!["convert-tokens", "-d", data.to_str().unwrap(), "-i", from.to_str().unwrap(), "-t", to.to_str().unwrap()];
        if supply {
            args.extend(["--processed-data", proc_file.to_str().unwrap()]);
        }
        let r = cli::run(&ctx.texmo, sc, &args, &Opts::default());
        if !r.ok() {
            return Err(format!("convert-tokens failed: {}", r.describe()));
        }
        let files: Vec<String> = std::fs::read_dir(to).unwrap().flatten().map(|f| f.file_name().to_string_lossy().to_string()).collect();
        if files != [name.clone()] {
            return Err(format!("wrote {files:?} instead of {name}"));
        }
        Ok(std::fs::read(to.join(&name)).unwrap())
    };
    let first = convert(&j.set_file, &out, j.supply_processed)?;
    let got = RefSet::load(&out.join(&name))?;
    if got.canon() != j.set.canon() {
        let (a, b) = (got.canon(), j.set.canon());
        let d = a.2.iter().filter(|t| !b.2.contains(t)).chain(b.2.iter().filter(|t| !a.2.contains(t))).take(5).collect::<Vec<_>>();
        let e = a.3.iter().filter(|t| !b.3.contains(t)).chain(b.3.iter().filter(|t| !a.3.contains(t))).take(3).collect::<Vec<_>>();
        return Err(format!("another token set: {} {} instead of {} {}, {} tokens instead of {} ({d:?}), {} sequences instead of {} ({e:?})", a.0, a.1, b.0, b.1, a.2.len(), b.2.len(), a.3.len(), b.3.len()));
    }
    if got.split != Some(j.set.split.unwrap_or(false)) {
        return Err(format!("paragraph setting {:?} instead of {:?}", got.split, j.set.split));
    }
    let min = j.set.segmenter().min_cost(processed.as_bytes()).ok_or("HARNESS-ERROR: no segmentation")?;
    check_stats(&got, min..=min + j.slack, processed.len() as u64, j.text.len() as u64)?;
    // once more, in another directory or in place of the result
    let second = match j.text.len() % 3 {
        0 => convert(&out.join(&name), &again, j.supply_processed)?,
        1 => convert(&out.join(&name), &out, j.supply_processed)?,
        _ => convert(&out.join(&name), &sc.path("again/../out"), j.supply_processed)?,
    };
    if first != second {
        let k = first.iter().zip(&second).take_while(|(a, b)| a == b).count();
        let cut = |v: &Vec<u8>| String::from_utf8_lossy(&v[k.saturating_sub(40)..(k + 40).min(v.len())]).to_string();
        return Err(format!("converting the result again gives another file: {} bytes instead of {}, first difference at {k}: {:?} / {:?}", second.len(), first.len(), cut(&second), cut(&first)));
    }
    // in place of a very similar file, as other data would give it
    let mut similar = first.clone();
    let from = first.windows(8).rposition(|w| w == b"\"stats\":").unwrap_or(0);
    let digits: Vec<usize> = (from..first.len()).filter(|&k| first[k].is_ascii_digit()).collect();
    if !digits.is_empty() {
        let k = digits[(j.text.len() * 7 + first.len()) % digits.len()];
        similar[k] = b'0' + (first[k] - b'0' + 1) % 10;
        std::fs::write(out.join(&name), &similar).map_err(|e| format!("HARNESS-ERROR: {e}"))?;
        let third = convert(&j.set_file, &out, j.supply_processed)?;
        if third != first {
            return Err(format!("where a similar file was before, it stays as it was or becomes another one than elsewhere ({})", if third == similar { "stays" } else { "another" }));
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    set: SetSpec,
    texts: Vec<Vec<u8>>,
    extra: String,
    supply_processed: bool,
}

fn random(c: &Case, ctx: &Ctx, o: &mut Obs) -> CheckResult {
    let mut ts = SetSpec { order: 0, ..c.set.clone() }.build();
    if c.set.order != 0 {
        ts = permute_strs(&ts, c.set.order as u64);
    }
    let r = to_ref(&ts)?;
    let mut text = String::from_utf8_lossy(&c.texts.concat()).to_string() + &c.extra;
    text = gens::strip_markers(&text);
    o.label_if(text.is_empty(), "empty data");
    o.label_if(c.supply_processed && r.processing == "raw", "processed data supplied with a raw set");
    let sc = Scratch::new();
    let set_file = sc.write("set.json", r.to_text().as_bytes());
    run_job(&Job { set: &r, set_file, text: &text, supply_processed: c.supply_processed, slack: 0 }, &sc, ctx)?;
    o.label(kind_name(c.set.kind));
    o.label(&r.processing);
    o.label_if(c.supply_processed && r.processing == "capswords", "processed data supplied");
    o.nontrivial(!r.long_tokens().is_empty() && text.len() > 10);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Shipped {
    file: String,
    /// None: a generated text, otherwise a file of the repository
    data: Option<String>,
    seed: u64,
}

/// Deterministic text with words, capitals, digits, several scripts.
fn prose(seed: u64, size: usize, sep: &[&str]) -> String {
    const W: &[&str] = &["the", "The", "of", "and", "Emma", "MR", "was", "не", "Слово", "中文", "é", "12", "\"", "x1", "ing", "ALL", "tion", "ß", "😀", "a"];
    let mut x = seed.wrapping_mul(0x9e3779b97f4a7c15) | 1;
    let mut t = String::with_capacity(size + 32);
    while t.len() < size {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        t.push_str(W[((x >> 59) ^ (x >> 40) & 7) as usize % W.len()]);
        t.push_str(sep[(x >> 33) as usize % sep.len()]);
    }
    t
}

const SEPS: &[&str] = &[" ", " ", " ", " ", " ", ", ", ". ", "\n", "\n\n", "  ", "-", "\r\n", "\n\n\n"];

fn shipped(c: &Shipped, ctx: &Ctx, o: &mut Obs) -> CheckResult {
    let sc = Scratch::new();
    let path = ctx.repo.join("tokens").join(&c.file);
    let set = RefSet::load(&path).map_err(|e| format!("HARNESS-ERROR: {e}"))?;
    let text = match &c.data {
        Some(f) => {
            let s = std::fs::read_to_string(ctx.repo.join("data").join(f)).map_err(|e| format!("HARNESS-ERROR: {e}"))?;
            gens::strip_markers(&s)
        }
        None => prose(c.seed, 3000 + (c.seed % 5000) as usize, SEPS),
    };
    run_job(&Job { set: &set, set_file: path, text: &text, supply_processed: c.seed % 2 == 1, slack: 0 }, &sc, ctx)?;
    o.label("file shipped in tokens/");
    o.nontrivial(true);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Big {
    kind: u8,
    caps: bool,
    size: u64,
    /// blank lines in the text, so that samples end there
    paras: bool,
    seed: u64,
}

fn big(c: &Big, ctx: &Ctx, o: &mut Obs) -> CheckResult {
    let spec = SetSpec {
        kind: c.kind,
        caps: c.caps,
        split: true,
        bytes: b"ea tonis\n".to_vec(),
        longs: ["the", "of ", "中文", "Слово".get(0..6).unwrap(), "not", "the\u{16}", "ing", "ti", "io", "\u{14}emma", "x1 "].iter().map(|s| s.as_bytes().to_vec()).collect(),
        n_ext: 3,
        codes: vec![1, 5, 2],
        multi: vec![],
        order: 0,
    };
    let r = to_ref(&spec.build())?;
    let sep: &[&str] = if c.paras { SEPS } else { &[" ", " ", ", ", "\n", "\r\n"] };
    let mut text = prose(c.seed, c.size as usize, sep);
    let mut k = c.size as usize;
    while !text.is_char_boundary(k) {
        k -= 1;
    }
    text.truncate(k);
    // With blank lines every cut is after one, and no token of the set spans
    // it; without, each cut may break one token of at most 7 bytes.
    let slack = if c.paras { 0 } else { (c.size >> 23) * 7 * 8 };
    let sc = Scratch::new();
    let set_file = sc.write("set.json", r.to_text().as_bytes());
    run_job(&Job { set: &r, set_file, text: &text, supply_processed: false, slack }, &sc, ctx)?;
    o.label_if(c.size > 1 << 24, "data beyond one sample (16 MiB)");
    o.label_if(c.size >= 1 << 25, "data tokenized by worker threads (32 MiB)");
    o.nontrivial(true);
    Ok(())
}

/// More than 2^32 bytes and tokens.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Huge {
    kind: u8,
    blocks: u64,
    longs: Vec<String>,
}

fn huge(c: &Huge, ctx: &Ctx, o: &mut Obs) -> CheckResult {
    let spec = SetSpec { kind: c.kind, caps: false, split: true, bytes: b"a".to_vec(), longs: c.longs.iter().map(|s| s.as_bytes().to_vec()).collect(), n_ext: 2, codes: vec![], multi: vec![], order: 0 };
    let r = to_ref(&spec.build())?;
    let sc = Scratch::new();
    let (data, block) = sc.sparse("data.txt", c.blocks, "abacab 中");
    let set_file = sc.write("set.json", r.to_text().as_bytes());
    sc.mkdir("out");
    let run = cli::run(&ctx.texmo, &sc, &["convert-tokens", "-d", data.to_str().unwrap(), "-i", set_file.to_str().unwrap(), "-t", "out"], &Opts::default());
    if !run.ok() {
        return Err(format!("convert-tokens failed on {} MiB: {}", c.blocks, run.describe()));
    }
    let conv = RefSet::load(&sc.path("out").join(format!("{}.json", r.name()))).map_err(|e| format!("convert-tokens of {} MiB: {e}", c.blocks))?;
    // samples end after a blank line, so at the end of a block
    let total = c.blocks * r.segmenter().min_cost(&block).ok_or("HARNESS-ERROR: no segmentation")?;
    vh::refs::check_stats(&conv, total..=total, c.blocks << 20, c.blocks << 20).map_err(|e| format!("convert-tokens of {} MiB: {e}", c.blocks))?;
    if conv.canon() != r.canon() {
        return Err(format!("convert-tokens of {} MiB: another set", c.blocks));
    }
    o.label("data of over 4 GiB");
    o.nontrivial(true);
    Ok(())
}

fn main() {
    let mut r = Runner::new(
        "C19",
        "random token sets of every type (as in C05) and random texts through the command; all files in tokens/ on generated text and on \
         data/pride.txt; data of 16-40 MiB (several samples, worker threads, characters across sample boundaries); sparse data of over 4 GiB. The set is compared by an \
         independent reader, the statistics with a reference segmentation of the reference-processed text; converted twice. Non-trivial: the set \
         has multi-byte tokens and the text more than 10 bytes.",
    );
    r.sub_opts(
        "random",
        5_000,
        100_000,
        SHARDS,
        300,
        |ctx| {
            bx((set_and_texts(ctx, 1..4, 30), prop_oneof![Just(String::new()), gens::mixed_text(ctx, 30)], any::<bool>())
                .prop_map(|((set, texts), extra, supply_processed)| Case { set, texts, extra, supply_processed }))
        },
        |c: &Case, ctx, o| random(c, ctx, o),
    );
    let mut files: Vec<String> = std::fs::read_dir(r.ctx.repo.join("tokens")).unwrap().flatten().map(|f| f.file_name().to_string_lossy().to_string()).filter(|f| f.ends_with(".json")).collect();
    files.sort();
    let seed = r.ctx.seed;
    let mut cases = Vec::new();
    for (i, f) in files.iter().enumerate() {
        // the tokenizer's tables take long for the largest sets
        let n: u64 = f.trim_start_matches("tokens").split('_').next().and_then(|x| x.parse().ok()).unwrap_or(0);
        if n <= 16384 || r.ctx.thorough {
            cases.push(Shipped { file: f.clone(), data: Some("pride.txt".into()), seed: seed.wrapping_add(i as u64) });
        }
        for k in 0..if n > 4096 { 1 } else if r.ctx.thorough { 20 } else { 2 } {
            cases.push(Shipped { file: f.clone(), data: None, seed: seed.wrapping_mul(31).wrapping_add(i as u64 * 1000 + k) });
        }
    }
    // large sets first, so that they don't come last
    cases.sort_by_key(|c| (std::cmp::Reverse(std::fs::metadata(r.ctx.repo.join("tokens").join(&c.file)).map(|m| m.len()).unwrap_or(0)), c.seed));
    r.enumerate("shipped", cases, 4, |_| vec![], |c: &Shipped, ctx, o| shipped(c, ctx, o));
    let mut cases = Vec::new();
    for (kind, caps, size, paras) in [
        (3u8, false, (1u64 << 25) + 12_345, true),
        (4, true, (1 << 24) - 1000, true),
        (0, false, (1 << 24) + 1, false),
        (2, true, (5 << 22) + 7, false),
        (1, false, 1 << 24, true),
        (4, false, (1 << 25) - 1, true),
        (3, false, (5 << 23) + 3, false),
    ] {
        cases.push(Big { kind, caps, size, paras, seed: seed ^ size });
    }
    r.enumerate("big", cases, 3, |c| if c.size > 1000 { vec![Big { size: c.size / 2, ..c.clone() }, Big { size: c.size - c.size / 8, ..c.clone() }] } else { vec![] }, |c: &Big, ctx, o| big(c, ctx, o));
    let mut cases = vec![Huge { kind: 0, blocks: 4100, longs: vec!["ab".into()] }];
    if r.ctx.thorough {
        cases.push(Huge { kind: 3, blocks: 4500, longs: vec!["ab".into()] });
        cases.push(Huge { kind: 2, blocks: 17_000, longs: vec!["\0\0\0".into(), "aba".into()] });
        cases.push(Huge { kind: 4, blocks: 5000, longs: vec!["\0\0".into(), " 中".into()] });
    }
    r.enumerate("huge", cases, 1, |c| vec![Huge { blocks: c.blocks / 2, ..c.clone() }], |c: &Huge, ctx, o| huge(c, ctx, o));
    let _: Option<BoxedStrategy<Vec<u8>>> = Some(bx(vec(select(vec![0u8]), 0..1)));
    r.finish()
}
