//! C04: failed I/O is reported, never silently truncated output.
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::io::{self, ErrorKind, Read, Write};
use std::os::unix::fs::symlink;
use texmo::verif::processing::process_file;
use vh::cli::{self, Opts, Scratch};
use vh::gens;
use vh::pp::*;
use vh::refs::ref_process;
use vh::run::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Side {
    Read,
    Write,
    Flush,
}

const KINDS: &[ErrorKind] = &[
    ErrorKind::Other,
    ErrorKind::BrokenPipe,
    ErrorKind::UnexpectedEof,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::PermissionDenied,
    ErrorKind::InvalidData,
    ErrorKind::StorageFull,
    ErrorKind::ConnectionReset,
    ErrorKind::WriteZero,
];

#[derive(Clone, Copy, Debug)]
struct Fault {
    side: Side,
    at: u64,
    kind: ErrorKind,
    sticky: bool,
    /// A sink that accepts nothing (Ok(0)) instead of an error.
    zero: bool,
}

struct Plan<'a> {
    sizes: &'a [u32],
    ops: u64,
    fault: Option<Fault>,
    fired: bool,
}

impl Plan<'_> {
    /// Number of bytes to transfer in this call.
    fn step(&mut self, side: Side, len: usize) -> io::Result<usize> {
        let op = self.ops;
        self.ops += 1;
        if let Some(f) = self.fault {
            if f.side == side && (f.at == op || (f.sticky && op > f.at)) {
                self.fired = true;
                if f.zero && side == Side::Write {
                    return Ok(0);
                }
                return Err(io::Error::from(f.kind));
            }
        }
        if self.sizes.is_empty() {
            return Ok(len);
        }
        let p = self.sizes[op as usize % self.sizes.len()] as usize;
        if p == 0 && op % 3 != 0 {
            return Err(io::Error::from(ErrorKind::Interrupted));
        }
        Ok(len.min(p.max(1)))
    }
}

struct Src<'a> {
    data: &'a [u8],
    pos: usize,
    plan: Plan<'a>,
}
impl Read for Src<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = self.plan.step(Side::Read, buf.len())?.min(self.data.len() - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

struct Sink<'a> {
    got: Vec<u8>,
    plan: Plan<'a>,
    flushes: Plan<'a>,
}
impl Write for Sink<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let n = self.plan.step(Side::Write, buf.len())?;
        self.got.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.flushes.step(Side::Flush, 1).map(|_| ())
    }
}

struct Run {
    result: io::Result<()>,
    got: Vec<u8>,
    ops: [u64; 3],
    fired: bool,
}

fn run(text: &str, reads: &[u32], writes: &[u32], fault: Option<Fault>) -> Run {
    let p = |sizes| Plan { sizes, ops: 0, fault, fired: false };
    let mut src = Src { data: text.as_bytes(), pos: 0, plan: p(reads) };
    let mut sink = Sink { got: Vec::new(), plan: p(writes), flushes: p(&[]) };
    let result = process_file(&mut src, &mut sink);
    Run {
        result,
        ops: [src.plan.ops, sink.plan.ops, sink.flushes.ops],
        fired: src.plan.fired || sink.plan.fired || sink.flushes.fired,
        got: sink.got,
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    text: String,
    repeat: usize,
    reads: Vec<u32>,
    writes: Vec<u32>,
    kind: u8,
    sticky: bool,
    zero: bool,
    /// Which of the call numbers are made to fail if there are many.
    phase: u32,
}

fn plan() -> BoxedStrategy<Vec<u32>> {
    bx(prop_oneof![
        3 => Just(vec![]),
        3 => vh::proptest::collection::vec(prop_oneof![1 => Just(0u32), 3 => 1u32..5, 4 => 1u32..3000, 2 => 8000u32..9000], 1..6),
    ])
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cli {
    text: String,
    repeat: usize,
    command: u8,
    phase: u32,
    /// 0: device full / missing parts, 1: file size limit, 2: injected faults
    how: u8,
    kind: u8,
    sticky: bool,
}

fn small_set(processing: &str) -> String {
    let tokens: Vec<serde_json::Value> =
        (0..256u32).map(|b| if b < 128 { json!((b as u8 as char).to_string()) } else { json!([b]) }).collect();
    json!({"type": "bytes", "processing": processing, "split_paragraphs": true, "tokens": tokens}).to_string()
}

fn pick_some(n: u64, max: u64, phase: u32) -> Vec<u64> {
    if n <= max {
        return (0..n).collect();
    }
    // first, last two and evenly spread others
    let mut v: Vec<u64> = (0..max - 3).map(|i| (i * n / (max - 3) + phase as u64) % n).collect();
    v.extend([0, n - 1, n - 2]);
    v.sort();
    v.dedup();
    v
}

fn main() {
    let mut r = Runner::new(
        "C04",
        "for generated texts and ways of delivering them: first a fault-free run that counts the read, write and flush calls, then one run \
         per call (all of them up to 40, else spread incl. first and last) in which that call fails, with 10 error kinds, once or persistently; \
         the same for the calls of the real commands (LD_PRELOAD injector), full devices, file-size limits. \
         Non-trivial: a run in which the injected fault actually fired (counted per run).",
    );
    r.sub(
        "stream",
        60_000,
        2_000_000,
        |ctx| {
            bx((
                prop_oneof![3 => gens::mixed_text(ctx, 100), 2 => gens::text(ctx, 0..6), 1 => Just("line\n".to_string())],
                prop_oneof![5 => Just(1usize), 2 => 1usize..400],
                (plan(), plan()),
                any::<u8>(),
                any::<bool>(),
                prop_oneof![4 => Just(false), 1 => Just(true)],
                any::<u32>(),
            )
                .prop_map(|(text, repeat, (reads, writes), kind, sticky, zero, phase)| {
                    let repeat = repeat.min(1 + 60_000 / (text.len() + 1));
                    Case { text, repeat, reads, writes, kind, sticky, zero, phase }
                }))
        },
        |c: &Case, _, o| {
            let text = c.text.repeat(c.repeat);
            let want = ref_process(&text).into_bytes();
            let clean = run(&text, &c.reads, &c.writes, None);
            if clean.result.is_ok() && clean.got != want {
                return Err(format!("success reported, but {} bytes instead of {} arrived", clean.got.len(), want.len()));
            }
            if let Err(e) = &clean.result {
                return Err(format!("failure without a fault: {e}"));
            }
            let mut runs = 0;
            let mut keys = Vec::new();
            for (i, side) in [Side::Read, Side::Write, Side::Flush].into_iter().enumerate() {
                // one more than counted: with the fault the course may differ
                for at in pick_some(clean.ops[i] + 1, 40, c.phase) {
                    let kind = KINDS[(c.kind as usize + at as usize) % KINDS.len()];
                    let f = Fault { side, at, kind, sticky: c.sticky, zero: c.zero };
                    let x = run(&text, &c.reads, &c.writes, Some(f));
                    runs += 1;
                    if x.fired {
                        keys.push(hash_of(&(&text, i, at, &c.reads, &c.writes)));
                        o.label(match side {
                            Side::Read => "read fault fired",
                            Side::Write => "write fault fired",
                            Side::Flush => "flush fault fired",
                        });
                        if at + 1 == clean.ops[i] {
                            o.label("last call of its sort failed");
                        }
                        if x.result.is_ok() {
                            return Err(format!(
                                "{side:?} call {at} of {} failed with {kind:?} (persistently: {}, accepts nothing: {}), yet success was reported; {} of {} bytes arrived",
                                clean.ops[i], c.sticky, c.zero, x.got.len(), want.len()
                            ));
                        }
                    } else if x.result.is_ok() && x.got != want {
                        return Err("success reported with incomplete output".into());
                    }
                }
            }
            o.nontrivial(!keys.is_empty());
            o.extra(runs, keys);
            Ok(())
        },
    );
    r.sub_opts(
        "command",
        1_000,
        30_000,
        SHARDS,
        300,
        |ctx| {
            bx((
                prop_oneof![3 => gens::training_text(ctx), 1 => gens::mixed_text(ctx, 60)],
                prop_oneof![3 => Just(1usize), 1 => 1usize..200],
                0u8..5,
                any::<u32>(),
                prop_oneof![1 => Just(0u8), 1 => Just(1u8), 3 => Just(2u8)],
                any::<u8>(),
                any::<bool>(),
            )
                .prop_map(|(text, repeat, command, phase, how, kind, sticky)| {
                    let text = if text.is_empty() { "a".to_string() } else { text };
                    let mut repeat = repeat.min(1 + 300_000 / text.len());
                    let mut text = text;
                    if command >= 3 {
                        repeat = 1;
                        // optimizing is slow, and its data is read in one go
                        text = gens::cap_repetitive(text.chars().take(1000).collect());
                    }
                    Cli { text, repeat, command, phase, how, kind, sticky }
                }))
        },
        |c: &Cli, ctx, o| {
            let text = c.text.repeat(c.repeat);
            let mk = |dir: &str| -> (Scratch, Vec<String>, String) {
                let _ = dir;
                let s = Scratch::new();
                s.write("in.txt", text.as_bytes());
                s.mkdir("t");
                s.write("set.json", small_set(if c.command == 1 { "raw" } else { "capswords" }).as_bytes());
                let (args, out): (Vec<&str>, &str) = match c.command {
                    0 => (vec!["process", "-d", "in.txt", "-o", "out.txt"], "out.txt"),
                    1 => (vec!["convert-tokens", "-d", "in.txt", "-i", "set.json", "-t", "t"], "t/tokens256_raw_bytes.json"),
                    2 => (vec!["convert-tokens", "-d", "in.txt", "-i", "set.json", "-t", "t"], "t/tokens256_capswords_bytes.json"),
                    3 => (vec!["optimize", "-d", "in.txt", "-t", "t", "-p", "raw", "--type", "bits4", "-n", "20"], "t/tokens20_raw_bits4.json"),
                    _ => (vec!["optimize", "-d", "in.txt", "-t", "t", "-p", "caps-words", "--type", "bits1", "-n", "5"], "t/tokens5_capswords_bits1.json"),
                };
                (s, args.iter().map(|a| a.to_string()).collect(), out.to_string())
            };
            let exec = |s: &Scratch, args: &[String], opts: &Opts| {
                let a: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
                cli::run(&ctx.texmo, s, &a, opts)
            };
            let lib = ctx.aux.join("libfault.so");
            let fault_env = |s: &Scratch, mode: &str, n: i64, errno: i32| -> Opts {
                let root = s.dir.path().canonicalize().unwrap();
                Opts {
                    env: vec![
                        ("LD_PRELOAD".into(), lib.display().to_string()),
                        ("FAULT_PREFIX".into(), root.display().to_string()),
                        ("FAULT_MODE".into(), mode.into()),
                        ("FAULT_N".into(), n.to_string()),
                        ("FAULT_ERRNO".into(), errno.to_string()),
                        ("FAULT_STICKY".into(), (c.sticky as u8).to_string()),
                        ("FAULT_LOG".into(), s.path("tmp/fault.log").display().to_string()),
                    ],
                    ..Opts::default()
                }
            };
            let log = |s: &Scratch| -> Result<[u64; 3], String> {
                let t = std::fs::read_to_string(s.path("tmp/fault.log")).map_err(|_| "HARNESS-ERROR: no log of the fault injector".to_string())?;
                let v: Vec<u64> = t.split_whitespace().filter_map(|x| x.parse().ok()).collect();
                if v.len() < 3 {
                    return Err("HARNESS-ERROR: bad log of the fault injector".into());
                }
                Ok([v[0], v[1], v[2]])
            };
            // The fault-free run.
            let (s0, args, out) = mk("clean");
            let r0 = exec(&s0, &args, &fault_env(&s0, "n", -1, 0));
            if !r0.ok() {
                return Err(format!("{args:?} failed without a fault: {}", r0.describe()));
            }
            let counts = log(&s0)?;
            let want = std::fs::read(s0.path(&out)).map_err(|e| format!("{args:?} succeeded without writing {out}: {e}"))?;
            if c.command == 0 && want != ref_process(&text).as_bytes() {
                return Err("process reported success, but its output is not the complete result".into());
            }
            let judge = |s: &Scratch, r: &cli::Outcome, out: &str, fired: bool, what: &str| -> CheckResult {
                if r.ok() {
                    if fired {
                        return Err(format!("{args:?} exits with 0 although {what}"));
                    }
                    let got = std::fs::read(s.path(out)).unwrap_or_default();
                    if got != want {
                        return Err(format!("{args:?} exits with 0 ({what}) with {} of {} bytes written", got.len(), want.len()));
                    }
                }
                Ok(())
            };
            let mut keys = Vec::new();
            let mut runs = 0u64;
            match c.how {
                0 => {
                    // the destination is a full device
                    // (through a link: a program that replaces its
                    // destination by renaming must only be able to replace
                    // the link, never the device)
                    let (s, a, out) = mk("full");
                    symlink("/dev/full", s.path(&out)).unwrap();
                    let r = exec(&s, &a, &Opts::default());
                    runs += 1;
                    o.label("full device");
                    if !want.is_empty() {
                        keys.push(hash_of(&(&text, c.command, "full")));
                        if r.ok() {
                            let replaced = std::fs::symlink_metadata(s.path(&out)).map(|m| m.is_file()).unwrap_or(false);
                            if !replaced {
                                return Err(format!("{a:?} exits with 0 although the destination is full"));
                            }
                            judge(&s, &r, &out, false, "the destination was a link to a full device, which it replaced")?;
                        }
                    }
                    // the source cannot be read
                    let (s, mut a, _) = mk("dir");
                    s.mkdir("dir");
                    a[2] = "dir".into();
                    let r = exec(&s, &a, &Opts::default());
                    runs += 1;
                    keys.push(hash_of(&(c.command, "dir")));
                    if r.ok() {
                        return Err(format!("{a:?} exits with 0 although the source can't be read"));
                    }
                    // the destination cannot be created
                    let (s, mut a, _) = mk("nodir");
                    let k = a.iter().position(|x| x == "-o" || x == "-t").unwrap() + 1;
                    a[k] = if c.command == 0 { "missing/out.txt".into() } else { "missing".into() };
                    let r = exec(&s, &a, &Opts::default());
                    runs += 1;
                    keys.push(hash_of(&(c.command, "nodir")));
                    if r.ok() {
                        return Err(format!("{a:?} exits with 0 although the destination can't be created"));
                    }
                }
                1 => {
                    // a limit on the file size somewhere within the output
                    let n = want.len() as u64;
                    let mut limits = vec![0, 1, n / 2, n.saturating_sub(1), n.saturating_sub(8192), c.phase as u64 % (n + 1), n];
                    if c.command == 2 || c.command == 4 {
                        limits.push(ref_process(&text).len() as u64 / 2);
                    }
                    limits.sort();
                    limits.dedup();
                    for l in limits {
                        let (s, a, out) = mk("limit");
                        let r = exec(&s, &a, &Opts { fsize: Some(l), ..Opts::default() });
                        runs += 1;
                        if l < n {
                            keys.push(hash_of(&(&text, c.command, l)));
                            o.label("file size limit below the output's size");
                        }
                        judge(&s, &r, &out, l < n, &format!("no file can get longer than {l} bytes"))?;
                    }
                }
                _ => {
                    const READ_ERRNO: &[i32] = &[libc_eio(), 116, 5];
                    const WRITE_ERRNO: &[i32] = &[28, 5, 122, 27, 32];
                    for (mode, n, errnos) in [("r", counts[0], READ_ERRNO), ("w", counts[1], WRITE_ERRNO)] {
                        for at in pick_some(n, 10, c.phase) {
                            let e = errnos[(c.kind as usize + at as usize) % errnos.len()];
                            let (s, a, out) = mk("fault");
                            let r = exec(&s, &a, &fault_env(&s, mode, at as i64, e));
                            runs += 1;
                            let fired = log(&s)?[2] > 0;
                            if fired {
                                keys.push(hash_of(&(&text, c.command, mode, at)));
                                o.label(if mode == "r" { "read() failed" } else { "write() failed" });
                            }
                            judge(&s, &r, &out, fired, &format!("{} number {at} of {n} failed with errno {e}", if mode == "r" { "read()" } else { "write()" }))?;
                        }
                        // interrupted calls and partial writes are no failures,
                        // but must not lose anything either
                        if n > 0 && !c.sticky {
                            for e in [4, 0] {
                                if mode == "r" && e == 0 {
                                    continue;
                                }
                                let (s, a, out) = mk("eintr");
                                let r = exec(&s, &a, &fault_env(&s, mode, (c.phase as u64 % n) as i64, e));
                                runs += 1;
                                o.label("interrupted or partial call");
                                judge(&s, &r, &out, false, "a call was interrupted or partial")?;
                            }
                        }
                    }
                }
            }
            o.nontrivial(!keys.is_empty());
            o.label(&format!("command {}", ["process", "convert-tokens raw", "convert-tokens caps-words", "optimize raw", "optimize caps-words"][c.command as usize]));
            o.extra(runs, keys);
            Ok(())
        },
    );
    r.finish()
}

const fn libc_eio() -> i32 {
    5
}
