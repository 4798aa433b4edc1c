//! C23: commands change only the output they name and don't influence each
//! other.
#[path = "../api.rs"]
mod api;
#[path = "../opt.rs"]
mod opt;
use api::*;
use opt::{affordable, shorten, Init, OptCase, TYPES};
use serde::{Deserialize, Serialize};
use std::path::PathBuf;
use vh::cli::{self, changes, snapshot, Opts, Scratch};
use vh::gens;
use vh::pp::*;
use vh::proptest::collection::vec;
use vh::refs::ref_process;
use vh::run::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Cmd {
    Process,
    Count,
    Convert { set: SetSpec, supply: bool },
    Optimize { kind: u8, caps: bool, n: u64, init: Option<Init>, sample: Option<u64>, supply: bool },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Job {
    cmd: Cmd,
    text: String,
    repeat: u32,
    /// repeated up to so many MiB
    #[serde(default)]
    mib: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    jobs: Vec<Job>,
    /// how files and directories are called
    style: u8,
    /// the jobs read their data from the same path, one after the other
    same_path: bool,
    /// the jobs write into the same directory, where the names allow it
    same_dir: bool,
    stale: u8,
    order: u8,
}

impl Job {
    fn data(&self) -> String {
        let t = gens::strip_markers(&self.text);
        if self.mib > 0 {
            return t.repeat(((self.mib as usize) << 20) / t.len().max(1) + 1);
        }
        match &self.cmd {
            Cmd::Optimize { kind, n, .. } => {
                let mut t = t;
                affordable(&mut t, *kind, *n);
                shorten(&mut t, 1500);
                t
            }
            _ => t.repeat((self.repeat as usize).clamp(1, 1 + 400_000 / (t.len() + 1))),
        }
    }
    fn caps(&self) -> bool {
        match &self.cmd {
            Cmd::Convert { set, .. } => set.caps,
            Cmd::Optimize { caps, .. } => *caps,
            _ => false,
        }
    }
    fn supply(&self) -> bool {
        matches!(self.cmd, Cmd::Convert { supply: true, .. } | Cmd::Optimize { supply: true, .. }) && self.caps()
    }
    fn opt_case(&self) -> Option<OptCase> {
        match &self.cmd {
            Cmd::Optimize { kind, caps, n, init, sample, .. } => Some(OptCase { kind: *kind, caps: *caps, n: *n, text: self.data(), init: init.clone(), min_data_size: *sample }),
            _ => None,
        }
    }
    /// The token-set file the job reads.
    fn set_file(&self) -> Result<Option<String>, String> {
        match &self.cmd {
            Cmd::Convert { set, .. } => Ok(Some(to_ref(&SetSpec { order: 0, ..set.clone() }.build())?.to_text())),
            Cmd::Optimize { .. } => {
                let c = self.opt_case().unwrap();
                Ok(c.init_set(&c.processed()).map(|r| r.to_text()))
            }
            _ => Ok(None),
        }
    }
    /// Arguments, given where its inputs are and where the output goes to.
    fn args(&self, data: &str, processed: &str, set: Option<&str>, out: &str) -> Vec<String> {
        let mut v: Vec<String> = match &self.cmd {
            Cmd::Process => vec!["process".into(), "-d".into(), data.into(), "-o".into(), out.into()],
            Cmd::Count => vec!["count-chars".into(), "-d".into(), data.into()],
            Cmd::Convert { .. } => vec!["convert-tokens".into(), "-d".into(), data.into(), "-i".into(), set.unwrap().into(), "-t".into(), out.into()],
            Cmd::Optimize { kind, caps, n, sample, .. } => {
                let mut v: Vec<String> = ["optimize", "-d", data, "-t", out, "-n", &n.to_string(), "--type", TYPES[*kind as usize % 5], "-p", if *caps { "caps-words" } else { "raw" }].map(String::from).to_vec();
                if let Some(s) = sample {
                    v.extend(["--min-data-size".into(), s.to_string()]);
                }
                if let Some(s) = set {
                    v.extend(["-i".into(), s.into()]);
                }
                v
            }
        };
        if self.supply() {
            v.extend(["--processed-data".into(), processed.into()]);
        }
        v
    }
    fn is_dir(&self) -> bool {
        matches!(self.cmd, Cmd::Convert { .. } | Cmd::Optimize { .. })
    }
    fn name(&self) -> &'static str {
        match self.cmd {
            Cmd::Process => "process",
            Cmd::Count => "count-chars",
            Cmd::Convert { .. } => "convert-tokens",
            Cmd::Optimize { .. } => "optimize",
        }
    }
}

/// What a job delivers: the file's name (token sets) and content, or what it
/// prints.
#[derive(Clone, PartialEq)]
struct Result1 {
    file: String,
    content: Vec<u8>,
}

fn run(ctx: &Ctx, sc: &Scratch, job: &Job, args: &[String], tag: String) -> Result<Vec<u8>, String> {
    run_env(ctx, sc, job, args, tag, vec![])
}

fn run_env(ctx: &Ctx, sc: &Scratch, job: &Job, args: &[String], tag: String, env: Vec<(String, String)>) -> Result<Vec<u8>, String> {
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let r = cli::run(&ctx.texmo, sc, &a, &Opts { cpu: Some(150), stdout: matches!(job.cmd, Cmd::Count), tag, env, ..Opts::default() });
    if !r.ok() {
        return Err(format!("{} failed: {}", args.join(" "), r.describe()));
    }
    Ok(r.stdout)
}

/// Runs a job in a directory where there is nothing else.
fn alone(ctx: &Ctx, job: &Job) -> Result<Result1, String> {
    let sc = Scratch::new();
    let data = job.data();
    sc.write("data.txt", data.as_bytes());
    if job.supply() {
        sc.write("processed.txt", ref_process(&data).as_bytes());
    }
    let set = job.set_file()?;
    if let Some(s) = &set {
        sc.write("set.json", s.as_bytes());
    }
    let out = if job.is_dir() {
        sc.mkdir("out");
        "out"
    } else {
        "out.txt"
    };
    let before = snapshot(&sc);
    let stdout = run(ctx, &sc, job, &job.args("data.txt", "processed.txt", set.as_ref().map(|_| "set.json"), out), String::new())?;
    let after = snapshot(&sc);
    let new: Vec<String> = after.keys().filter(|k| !before.contains_key(*k)).cloned().collect();
    let bad = changes(&before, &after, &new);
    if !bad.is_empty() {
        return Err(format!("{}: {}", job.name(), bad.join(", ")));
    }
    if matches!(job.cmd, Cmd::Count) {
        if !new.is_empty() {
            return Err(format!("count-chars created {}", new.join(", ")));
        }
        return Ok(Result1 { file: String::new(), content: stdout });
    }
    let place = if job.is_dir() { "out/" } else { "out.txt" };
    if new.len() != 1 || !new[0].starts_with(place) {
        return Err(format!("{} created {}", job.name(), new.join(", ")));
    }
    let content = std::fs::read(sc.path(&new[0])).map_err(|e| e.to_string())?;
    Ok(Result1 { file: if job.is_dir() { new[0]["out/".len()..].to_string() } else { String::new() }, content })
}

struct Place {
    data: String,
    processed: String,
    set: String,
    /// as given on the command line
    out: String,
    /// path of the file that is written, in the scratch directory
    file: String,
}

fn places(c: &Case, sc: &Scratch, alone: &[Result1]) -> Vec<Place> {
    let mut used: Vec<String> = Vec::new();
    c.jobs
        .iter()
        .enumerate()
        .map(|(i, j)| {
            let d = if c.same_path { 0 } else { i };
            let (data, dir): (String, &str) = match c.style % 8 {
                0 => (format!("data{d}.txt"), "tokens"),
                1 => (format!("some data {d}"), "my tokens"),
                2 => (format!("данные{d}.txt"), "токены"),
                3 => (format!("deep/er/data{d}.txt"), "deep/tokens"),
                4 => (format!("tokens/data{d}.json"), "tokens"),
                5 => (format!("link{d}.txt"), "tokens"),
                6 => (format!("home/data.{d}"), "home/tokens"),
                _ => (format!("place {d}/data.txt"), "tokens"),
            };
            let file = &alone[i].file;
            let dir = if c.same_dir && !used.contains(file) { dir.to_string() } else { format!("{dir}{i}") };
            if c.same_dir {
                used.push(file.clone());
            }
            let (mut out, file) = if j.is_dir() { (dir.clone(), format!("{dir}/{file}")) } else { (format!("{dir}/out {i}.txt"), format!("{dir}/out {i}.txt")) };
            std::fs::create_dir_all(sc.path(&dir)).unwrap();
            if c.style / 8 % 3 == 1 {
                out = sc.path(&out).to_str().unwrap().to_string();
            }
            if c.style / 24 % 2 == 1 && j.is_dir() {
                out.push('/');
            }
            let data = if c.style / 8 % 3 == 2 { format!("./{data}") } else { data };
            Place { processed: format!("{data}.proc"), set: format!("set {i}.json"), data, out, file }
        })
        .collect()
}

fn put(sc: &Scratch, style: u8, path: &str, content: &[u8]) {
    let p = sc.path(path);
    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    if style % 8 == 5 && path.contains("link") {
        std::fs::create_dir_all(sc.path("real")).unwrap();
        let real: PathBuf = sc.path("real").join(path.replace(['/', '.'], "_"));
        std::fs::write(&real, content).unwrap();
        let _ = std::fs::remove_file(&p);
        std::os::unix::fs::symlink(&real, &p).unwrap();
    } else {
        std::fs::write(&p, content).unwrap();
    }
}

fn inputs(sc: &Scratch, c: &Case, j: &Job, p: &Place) -> CheckResult {
    let d = j.data();
    put(sc, c.style, &p.data, d.as_bytes());
    if j.supply() {
        put(sc, c.style, &p.processed, ref_process(&d).as_bytes());
    }
    if let Some(s) = j.set_file()? {
        put(sc, c.style, &p.set, s.as_bytes());
    }
    Ok(())
}

/// What is there before at the place of the output.
fn stale(c: &Case, r: &Result1, sc: &Scratch, p: &Place) {
    let content: Vec<u8> = match c.stale % 6 {
        0 => return,
        // longer and shorter than the result, the result and more
        1 => vec![b'x'; r.content.len() * 2 + 10],
        2 => b"{".to_vec(),
        3 => [r.content.clone(), r.content.clone()].concat(),
        // nearly the result
        4 => {
            let mut v = r.content.clone();
            let digits: Vec<usize> = (0..v.len()).filter(|&k| v[k].is_ascii_digit()).collect();
            match (digits.len(), v.len()) {
                (_, 0) => v.push(b'1'),
                (0, n) => v[(c.order as usize * 37) % n] ^= 1,
                (n, _) => {
                    let k = digits[n - 1 - (c.order as usize * 37) % n.min(60)];
                    v[k] = b'0' + (v[k] - b'0' + 1) % 10;
                }
            }
            v
        }
        // a valid token set of this name
        _ => {
            let s = String::from_utf8_lossy(&r.content).replace("\"split_paragraphs\":true", "\"split_paragraphs\":false").replace("total_tokens\":1", "total_tokens\":9");
            s.into_bytes()
        }
    };
    std::fs::write(sc.path(&p.file), content).unwrap();
}

fn compare(job: &Job, want: &Result1, sc: &Scratch, p: &Place, stdout: &[u8], when: &str) -> CheckResult {
    let got = if matches!(job.cmd, Cmd::Count) {
        stdout.to_vec()
    } else {
        std::fs::read(sc.path(&p.file)).map_err(|_| format!("{}, {when}: no {}", job.name(), p.file))?
    };
    if got != want.content {
        let k = got.iter().zip(&want.content).take_while(|(a, b)| a == b).count();
        let cut = |v: &[u8]| String::from_utf8_lossy(&v[k.saturating_sub(30)..(k + 40).min(v.len())]).to_string();
        return Err(format!("{}, {when}: another result than on its own: {} bytes instead of {}, first difference at {k}: {:?} / {:?}", job.name(), got.len(), want.content.len(), cut(&got), cut(&want.content)));
    }
    Ok(())
}

/// As a user who may read the inputs, but write only in the output directory
/// and where temporary files go.
fn restricted(ctx: &Ctx, job: &Job, want: &Result1, k: u8, o: &mut Obs) -> CheckResult {
    use std::os::unix::fs::{chown, PermissionsExt};
    let sc = Scratch::new();
    let Some(texmo) = cli::for_nobody(&ctx.texmo, &sc) else {
        o.label("no unprivileged user");
        return Ok(());
    };
    let err = |e: std::io::Error| format!("HARNESS-ERROR: {e}");
    let data = job.data();
    sc.mkdir("in");
    sc.write("in/data.txt", data.as_bytes());
    if job.supply() {
        sc.write("in/processed.txt", ref_process(&data).as_bytes());
    }
    let set = job.set_file()?;
    if let Some(s) = &set {
        sc.write("in/set.json", s.as_bytes());
    }
    sc.mkdir("out");
    for d in ["out", "tmp"] {
        chown(sc.path(d), Some(cli::NOBODY), Some(cli::NOBODY)).map_err(err)?;
    }
    for d in ["in", "home", "log", "."] {
        std::fs::set_permissions(sc.path(d), std::fs::Permissions::from_mode(0o755)).map_err(err)?;
    }
    let out = if job.is_dir() { "out" } else { "out/o.txt" };
    if k % 2 == 0 && !matches!(job.cmd, Cmd::Count) {
        // an earlier output of this user
        let f = if job.is_dir() { format!("out/{}", want.file) } else { out.to_string() };
        sc.write(&f, b"an earlier output");
        chown(sc.path(&f), Some(cli::NOBODY), Some(cli::NOBODY)).map_err(err)?;
    }
    let args = job.args("in/data.txt", "in/processed.txt", set.as_ref().map(|_| "in/set.json"), out);
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let before = snapshot(&sc);
    let r = cli::run(&texmo, &sc, &a, &Opts { cpu: Some(150), stdout: matches!(job.cmd, Cmd::Count), user: Some(cli::NOBODY), ..Opts::default() });
    if !r.ok() {
        return Err(format!("{}, for a user who may only read the inputs: {}", args.join(" "), r.describe()));
    }
    let file = if job.is_dir() { format!("out/{}", want.file) } else { out.to_string() };
    let except = if matches!(job.cmd, Cmd::Count) { vec![] } else { vec![file.clone()] };
    let ch = changes(&before, &snapshot(&sc), &except);
    if !ch.is_empty() {
        return Err(format!("{}: {}", args.join(" "), ch.join(", ")));
    }
    let got = if matches!(job.cmd, Cmd::Count) { r.stdout } else { std::fs::read(sc.path(&file)).map_err(|_| format!("{}: no {file}", args.join(" ")))? };
    if got != want.content {
        return Err(format!("{}: another result for a user who may only read the inputs", args.join(" ")));
    }
    o.label("inputs that may only be read");
    Ok(())
}

fn check(c: &Case, ctx: &Ctx, o: &mut Obs) -> CheckResult {
    let mut want = Vec::new();
    for j in &c.jobs {
        want.push(alone(ctx, j)?);
    }
    for (i, j) in c.jobs.iter().enumerate() {
        if (c.style as usize + c.order as usize + i) % 3 == 0 {
            restricted(ctx, j, &want[i], c.order, o)?;
        }
    }
    let sc = Scratch::new();
    let places = places(c, &sc, &want);
    // bystanders
    for (k, p) in places.iter().enumerate() {
        let dir = PathBuf::from(&p.file).parent().unwrap().to_string_lossy().to_string();
        for n in ["tokens7_raw_bits1.json", "tokens.json", ".tmp", "out.txt", "index"] {
            let f = format!("{dir}/{n}");
            if !places.iter().any(|q| q.file == f) {
                put(&sc, 0, &f, format!("bystander {k}").as_bytes());
            }
        }
        let d = p.data.trim_start_matches("./");
        for ext in [".processed", ".tmp", ".bak", "~", ".cache", ".txt"] {
            put(&sc, 0, &format!("{d}{ext}"), b"Other Text");
        }
    }
    for n in ["tmp/.tmpAAAAAA", "tmp/texmo", "tmp/processed.txt", "processed.txt", "cache"] {
        put(&sc, 0, n, b"Foreign Text\n");
    }
    // one after the other, among other files
    let mut order: Vec<usize> = (0..c.jobs.len()).collect();
    order.rotate_left(c.order as usize % c.jobs.len());
    if c.order >= 128 {
        order.reverse();
    }
    for &i in &order {
        let (j, p) = (&c.jobs[i], &places[i]);
        inputs(&sc, c, j, p)?;
        if c.order % 4 == 3 {
            // what the command looks for and doesn't find is there the next
            // time
            let env = vec![
                ("LD_PRELOAD".to_string(), ctx.aux.join("libprobe.so").to_string_lossy().to_string()),
                ("PROBE_LOG".to_string(), sc.path("log/probes").to_string_lossy().to_string()),
            ];
            run_env(ctx, &sc, j, &j.args(&p.data, &p.processed, j.set_file()?.map(|_| p.set.as_str()), &p.out), "p".into(), env)?;
            let mut found = 0;
            for f in String::from_utf8_lossy(&std::fs::read(sc.path("log/probes")).unwrap_or_default()).lines() {
                let f = sc.path(f); // absolute paths stay as they are
                let inside = f.starts_with(sc.dir.path()) && !f.components().any(|c| c.as_os_str() == "..");
                if inside && !f.exists() && f.parent().is_some_and(|d| d.is_dir()) && std::fs::write(&f, b"Foreign text\n").is_ok() {
                    found += 1;
                }
            }
            let _ = std::fs::remove_file(sc.path("log/probes"));
            o.label("looked for what the command looks for");
            o.label_n("files put where the command looks for one", found);
        }
        stale(c, &want[i], &sc, p);
        let before = snapshot(&sc);
        let out = run(ctx, &sc, j, &j.args(&p.data, &p.processed, j.set_file()?.map(|_| p.set.as_str()), &p.out), String::new())?;
        let except = if matches!(j.cmd, Cmd::Count) { vec![] } else { vec![p.file.clone()] };
        let ch = changes(&before, &snapshot(&sc), &except);
        if !ch.is_empty() {
            return Err(format!("{} to {}: {}", j.name(), p.out, ch.join(", ")));
        }
        compare(j, &want[i], &sc, p, &out, "among other files, after other commands")?;
    }
    // all at once
    if !c.same_path {
        for i in 0..c.jobs.len() {
            stale(c, &want[i], &sc, &places[i]);
        }
        let before = snapshot(&sc);
        let results: Vec<Result<Vec<u8>, String>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..c.jobs.len())
                .map(|i| {
                    let (sc, p, j) = (&sc, &places[i], &c.jobs[i]);
                    s.spawn(move || {
                        let set = j.set_file()?;
                        run(ctx, sc, j, &j.args(&p.data, &p.processed, set.map(|_| p.set.as_str()), &p.out), i.to_string())
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("HARNESS-ERROR: thread".into()))).collect()
        });
        let except: Vec<String> = (0..c.jobs.len()).filter(|&i| !matches!(c.jobs[i].cmd, Cmd::Count)).map(|i| places[i].file.clone()).collect();
        let ch = changes(&before, &snapshot(&sc), &except);
        if !ch.is_empty() {
            return Err(format!("{} commands at once: {}", c.jobs.len(), ch.join(", ")));
        }
        for (i, r) in results.into_iter().enumerate() {
            let out = r.map_err(|e| format!("with {} commands at once: {e}", c.jobs.len()))?;
            compare(&c.jobs[i], &want[i], &sc, &places[i], &out, &format!("one of {} at the same time", c.jobs.len()))?;
        }
        o.label_if(c.jobs.len() > 1, "several commands at once");
        o.label_if(c.jobs.iter().filter(|j| j.caps() && !j.supply()).count() > 1, "several at once that process data for themselves");
    }
    for j in &c.jobs {
        o.label(j.name());
    }
    o.label_if(c.same_path && c.jobs.len() > 1, "other data at the same path");
    o.label_if(c.same_dir && c.jobs.len() > 1, "a common output directory");
    o.label_if(c.stale % 6 > 0, "an earlier output is there");
    o.label_if(c.style % 8 == 5, "data given by a link");
    o.nontrivial(c.jobs.len() > 1 || c.stale % 6 > 0);
    Ok(())
}

fn job(ctx: &Ctx) -> BoxedStrategy<Job> {
    let repeat = prop_oneof![5 => Just(1u32), 2 => 2u32..200, 1 => 200u32..4000];
    let set = set_and_texts(ctx, 1..2, 4).prop_map(|(s, _)| s);
    let init = prop_oneof![4 => Just(None), 1 => opt::init_gen().prop_map(Some)];
    let opt = (0u8..5, any::<bool>(), 0u64..8, init, prop_oneof![4 => Just(None), 1 => (1u64..600).prop_map(Some)], any::<bool>()).prop_map(|(kind, caps, extra, init, sample, supply)| Cmd::Optimize {
        kind,
        caps,
        n: opt::MIN[kind as usize] + extra,
        init,
        sample,
        supply: supply && extra % 2 == 0,
    });
    let cmd = prop_oneof![
        3 => Just(Cmd::Process),
        1 => Just(Cmd::Count),
        5 => (set, 0u8..4).prop_map(|(set, s)| Cmd::Convert { set, supply: s == 0 }),
        2 => opt,
    ];
    let text = prop_oneof![3 => gens::training_text(ctx), 2 => gens::mixed_text(ctx, 60)];
    bx((cmd, text, repeat).prop_map(|(cmd, text, repeat)| Job { cmd, text, repeat, mib: 0 }))
}

fn main() {
    let mut r = Runner::new(
        "C23",
        "1-4 commands (process, count-chars, convert-tokens, optimize, the latter two with and without supplied processed data and input sets) on \
         random data of up to 400 KB; each alone in an empty directory, then one after the other among bystander files (also where the command looks for one that is not there), with earlier outputs at the \
         place of the new ones, file names of several kinds, links, a user who may only read the inputs, data replaced at the same path; then all at the same time with a common TMPDIR. \
         Results must be those of the command alone, and no other file may appear, disappear or change. Non-trivial: several commands or an earlier \
         output.",
    );
    r.sub_opts(
        "random",
        1_600,
        120_000,
        SHARDS,
        150,
        |ctx| {
            bx((vec(job(ctx), 1..5), any::<u8>(), any::<bool>(), any::<bool>(), 0u8..6, any::<u8>())
                .prop_map(|(jobs, style, same_path, same_dir, stale, order)| Case { jobs, style, same_path: same_path && order % 3 == 0, same_dir, stale, order }))
        },
        |c: &Case, ctx, o| check(c, ctx, o),
    );
    // more data
    let convert = |caps: bool| Cmd::Convert { set: SetSpec { kind: 0, caps, split: true, bytes: b"e \n".to_vec(), longs: vec![b"the".to_vec()], n_ext: 0, codes: vec![], multi: vec![], order: 0 }, supply: false };
    let optimize = Cmd::Optimize { kind: 0, caps: true, n: 4, init: None, sample: None, supply: false };
    let job = |cmd: Cmd, mib: u32| Job { cmd, text: "The same Words here, and SOME MORE there.\n\nA second paragraph.\n".into(), repeat: 1, mib };
    let mut jobs = vec![
        vec![job(convert(true), 5), job(convert(true), 6)],
        vec![job(Cmd::Process, 9), job(convert(true), 34)],
        vec![job(Cmd::Process, 66), job(Cmd::Count, 17)],
        vec![job(optimize.clone(), 5), job(convert(false), 12)],
    ];
    if r.ctx.thorough {
        jobs.push(vec![job(Cmd::Process, 260), job(optimize, 40)]);
        jobs.push(vec![job(convert(true), 130), job(convert(false), 70)]);
    }
    let large: Vec<Case> = jobs.into_iter().enumerate().map(|(i, jobs)| Case { jobs, style: i as u8, same_path: false, same_dir: i % 2 == 0, stale: i as u8 + 1, order: i as u8 * 3 }).collect();
    r.enumerate("large", large, 4, |c| (0..c.jobs.len()).filter(|_| c.jobs.len() > 1).map(|i| Case { jobs: vec![c.jobs[i].clone()], ..c.clone() }).collect(), |c: &Case, ctx, o| check(c, ctx, o));
    r.finish()
}
