//! C25: the progress of a long optimization is saved as usable token sets.
#[path = "../opt.rs"]
mod opt;
use opt::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use vh::cli::{self, Opts, Scratch};
use vh::pp::*;
use vh::proptest::collection::vec;
use vh::refs::{check_stats, RefSet};
use vh::run::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    opt: OptCase,
    /// the clock runs 2^speed times as fast
    speed: u32,
    /// which of the saved sets to go on from
    resume: u8,
    /// instead of a fast clock, jumps ahead: when (in 1/256 of the time the run
    /// takes), and how many minutes
    #[serde(default)]
    jumps: Vec<(u8, u16)>,
}

fn check(c: &Case, ctx: &Ctx, o: &mut Obs) -> CheckResult {
    let sc = Scratch::new();
    let oc = &c.opt;
    let processed = oc.processed();
    let text = processed.as_bytes();
    let data = sc.write("data.txt", oc.text.as_bytes());
    let d = data.to_str().unwrap();
    let init = oc.init_set(&processed);
    let init_file = init.as_ref().map(|i| sc.write("init.json", i.to_text().as_bytes()));
    let input = init_file.as_ref().map(|p| p.to_str().unwrap());
    let plain = optimize(ctx, &sc, oc, "out", d, None, input)?;

    // with a fast clock
    let fast = sc.mkdir("fast");
    let fast = std::fs::canonicalize(fast).map_err(|e| format!("HARNESS-ERROR: {e}"))?;
    let factor = if c.jumps.is_empty() { 2f64.powi((c.speed % 41) as i32) } else { 1.0 };
    let jumps: Vec<String> = c.jumps.iter().map(|&(at, by)| format!("{}:{}", at as f64 / 256.0 * plain.wall, by as f64 * 60.0 + 1.0)).collect();
    let n = oc.n.to_string();
    let mut args = vec!["optimize", "-d", d, "-t", fast.to_str().unwrap(), "-p", if oc.caps { "caps-words" } else { "raw" }, "--type", TYPES[oc.kind as usize % 5], "-n", &n];
    if let Some(i) = input {
        args.extend(["-i", i]);
    }
    let m = oc.min_data_size.map(|m| m.to_string());
    if let Some(m) = &m {
        args.extend(["--min-data-size", m]);
    }
    let env = vec![
        ("LD_PRELOAD".to_string(), ctx.aux.join("libclock.so").to_string_lossy().to_string()),
        ("CLOCK_FACTOR".to_string(), format!("{factor}")),
        ("CLOCK_JUMPS".to_string(), jumps.join(" ")),
        ("CLOCK_PREFIX".to_string(), format!("{}/", fast.to_string_lossy())),
        ("CLOCK_LOG".to_string(), sc.path("log/writes").to_string_lossy().to_string()),
    ];
    let r = cli::run(&ctx.texmo, &sc, &args, &Opts { cpu: Some(CPU_LIMIT), env, ..Opts::default() });
    let shown = args[7..].join(" ");
    if !r.ok() {
        return Err(format!("optimize -p {shown}, saving its progress, failed: {}", r.describe()));
    }
    let mut saved = read_log(&sc.path("log/writes"), "fast")?;
    let Some(last) = saved.pop() else {
        return Err("HARNESS-ERROR: no file was recorded".into());
    };
    if last.name != plain.name || last.raw != plain.raw {
        return Err(format!("-p {shown}: with progress saved {} times the result is {} ({} bytes), otherwise {} ({} bytes)", saved.len(), last.name, last.raw.len(), plain.name, plain.raw.len()));
    }
    // nothing but those files, and the last content of each
    let mut there = BTreeSet::new();
    for f in std::fs::read_dir(&fast).map_err(|e| format!("HARNESS-ERROR: {e}"))?.flatten() {
        there.insert(f.file_name().to_string_lossy().to_string());
    }
    for f in &there {
        let want = if *f == last.name { Some(&last) } else { saved.iter().rev().find(|s| s.name == *f) };
        let Some(want) = want else {
            return Err(format!("{f} is there, but not recorded as written (HARNESS?)"));
        };
        if std::fs::read(fast.join(f)).unwrap_or_default() != want.raw {
            return Err(format!("{f}: not what was written last"));
        }
    }
    // not more often than every minute: between two saves there is a jump, or
    // a minute of the ordinary time
    if !c.jumps.is_empty() {
        let most = c.jumps.len() as f64 + r.wall.as_secs_f64() / 60.0;
        if saved.len() as f64 > most {
            return Err(format!("-p {shown}: progress saved {} times in {:.1} s during which the clock jumps ahead {} times", saved.len(), r.wall.as_secs_f64(), c.jumps.len()));
        }
        o.label("clock jumps ahead");
        o.label_if(!saved.is_empty(), "clock jumps ahead, progress saved");
    }
    let minutes = r.wall.as_secs_f64() * factor / 60.0;
    if c.jumps.is_empty() && saved.len() as f64 > minutes + 1.0 {
        return Err(format!("-p {shown}: progress saved {} times in {minutes:.2} minutes", saved.len()));
    }
    // every file can be used
    let mut sets = Vec::new();
    for (k, s) in saved.iter().enumerate() {
        let e = |e: String| format!("-p {shown}: progress file {} of {}, {}: {e}", k + 1, saved.len(), s.name);
        let v: serde_json::Value = serde_json::from_slice(&s.raw).map_err(|x| e(format!("not JSON: {x}")))?;
        let set = RefSet::from_value(&v).map_err(e)?;
        let out = Out { raw: s.raw.clone(), set, name: s.name.clone(), wall: 0.0, files: 1 };
        judge_set(oc, &out).map_err(e)?;
        if let Some(i) = &init {
            if out.set.tokens.len() < i.tokens.len() {
                return Err(e(format!("{} tokens, the initial set has {}", out.set.tokens.len(), i.tokens.len())));
            }
        }
        sets.push(out);
    }
    // saved after every step if a step takes more than a minute: a step adds
    // at most one multi-byte token
    if factor > 1e11 && init.is_none() && oc.min_data_size.is_none() {
        let steps = plain.set.long_tokens().len();
        if saved.len() + 1 < steps {
            return Err(format!("-p {shown}: {steps} multi-byte tokens were added over {minutes:.0} minutes, but progress saved only {} times", saved.len()));
        }
        o.label_if(steps > 1, "saved after every step");
    }
    // then the set after the last step is saved, too
    if let (true, None, Some(s)) = (factor > 1e11, oc.min_data_size, sets.last()) {
        if s.set.canon() != plain.set.canon() {
            return Err(format!("-p {shown}: the last of {} sets saved while each step takes more than a minute, {}, is not the one the optimization ends with, {}", sets.len(), s.name, plain.name));
        }
        o.label("saved set compared with the result");
    }
    if !sets.is_empty() {
        let s = &sets[c.resume as usize * sets.len() / 256];
        let f = sc.write("progress.json", &s.raw);
        // its tokenization can be looked at
        sc.mkdir("conv");
        let a = ["convert-tokens", "-d", d, "-i", f.to_str().unwrap(), "-t", "conv"];
        let r = cli::run(&ctx.texmo, &sc, &a, &Opts::default());
        if !r.ok() {
            return Err(format!("convert-tokens of the progress file {}: {}", s.name, r.describe()));
        }
        let conv = RefSet::load(&sc.path("conv").join(&s.name)).map_err(|e| format!("convert-tokens of the progress file {}: {e}", s.name))?;
        let total = s.set.segmenter().min_cost(text).ok_or("the saved set can't encode the data")?;
        check_stats(&conv, total..=total, text.len() as u64, oc.text.len() as u64).map_err(|e| format!("convert-tokens of the progress file {}: {e}", s.name))?;
        if conv.canon() != s.set.canon() {
            return Err(format!("convert-tokens of the progress file {}: another set", s.name));
        }
        // and the optimization goes on from it
        let again = optimize(ctx, &sc, &OptCase { min_data_size: None, ..oc.clone() }, "again", d, None, Some(f.to_str().unwrap()))?;
        judge_set(oc, &again)?;
        if s.set.tokens.len() as u64 == oc.n {
            let t = again.set.segmenter().min_cost(text).ok_or("the set can't encode the data")?;
            if t > total {
                return Err(format!("-p {shown}: going on from {} tokens of the progress file gives {t}", total));
            }
            o.label("went on from a set of full size");
        } else {
            o.label("went on from a smaller set");
        }
    }
    o.label_n("progress files", sets.len() as u64);
    o.label_if(sets.len() > 1, "saved several times");
    o.label_if(sets.iter().any(|s| s.name == plain.name), "saved under the name of the result");
    o.label_if(sets.is_empty(), "nothing saved");
    label_case(oc, &plain, o);
    o.nontrivial(!sets.is_empty());
    Ok(())
}

fn main() {
    let mut r = Runner::new(
        "C25",
        "optimize runs as in C15 and C18 with a monotonic clock that runs up to 2^40 times as fast (LD_PRELOAD), or jumps ahead now and then, so that progress is saved never, now \
         and then, or after every step; every file is recorded at the moment it is complete. The result must be that of a run by the ordinary clock, each \
         recorded file a well-formed set as requested; a random one is converted and optimized further. Non-trivial: progress was saved.",
    );
    r.sub_opts(
        "random",
        400,
        50_000,
        SHARDS,
        120,
        |ctx| {
            let sample = prop_oneof![5 => Just(None), 1 => (1u64..700).prop_map(Some)];
            bx((opt_case(ctx, 2, 20), prop_oneof![2 => Just(40u32), 1 => 0u32..41, 2 => 12u32..26], any::<u8>(), sample, prop_oneof![3 => Just(vec![]), 1 => vec((any::<u8>(), 1u16..2000), 1..4)]).prop_map(|(mut opt, speed, resume, sample, jumps)| {
                opt.min_data_size = sample;
                Case { opt, speed, resume, jumps }
            }))
        },
        |c: &Case, ctx, o| check(c, ctx, o),
    );
    r.finish()
}
