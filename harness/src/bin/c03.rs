//! C03: processing a file equals processing its text.
use serde::{Deserialize, Serialize};
use std::io::{self, Read, Write};
use texmo::verif::processing::process_file;
use vh::cli::{self, Opts, Scratch};
use vh::gens;
use vh::pp::*;
use vh::refs::ref_process;
use vh::run::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    text: String,
    /// Sizes of successive deliveries (cyclic); 0 = interrupted call.
    reads: Vec<u32>,
    writes: Vec<u32>,
    /// Vectored writes / flush behave like ordinary ones but are counted.
    flush_interrupts: u8,
}

struct Src<'a> {
    data: &'a [u8],
    pos: usize,
    plan: &'a [u32],
    k: usize,
}

impl Read for Src<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut n = buf.len();
        if !self.plan.is_empty() {
            let p = self.plan[self.k % self.plan.len()] as usize;
            self.k += 1;
            if p == 0 && self.k % 5 != 0 {
                return Err(io::Error::from(io::ErrorKind::Interrupted));
            }
            n = n.min(p.max(1));
        }
        n = n.min(self.data.len() - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

struct Sink<'a> {
    got: Vec<u8>,
    plan: &'a [u32],
    k: usize,
    flush_interrupts: u8,
}

impl Write for Sink<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let mut n = buf.len();
        if !self.plan.is_empty() {
            let p = self.plan[self.k % self.plan.len()] as usize;
            self.k += 1;
            if p == 0 && self.k % 5 != 0 {
                return Err(io::Error::from(io::ErrorKind::Interrupted));
            }
            n = n.min(p.max(1));
        }
        self.got.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        let _ = self.flush_interrupts;
        Ok(())
    }
}

fn diff(got: &[u8], want: &[u8]) -> String {
    let i = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    let ctx = |b: &[u8]| String::from_utf8_lossy(&b[i.saturating_sub(20)..(i + 30).min(b.len())]).to_string();
    format!("{} bytes instead of {}, first difference at {i}: got ...{:?} want ...{:?}", got.len(), want.len(), ctx(got), ctx(want))
}

fn line_texts(ctx: &Ctx, big: usize) -> BoxedStrategy<String> {
    let mut sizes = ctx.dict.near(1, 70_000);
    sizes.extend([8191, 8192, 8193, 4096, 16384, 65536, 1024, 511, 512]);
    let eol = vh::proptest::sample::select(vec!["\n", "\n", "\n", "\n\n", "\n\n\n", "\r\n", "\r", " \n", "\r\r\n", "\u{2028}", "\u{85}", "\n\r", "\u{c}\n", ""]);
    let line = prop_oneof![
        6 => gens::text(ctx, 0..5),
        2 => (gens::piece(ctx), 1usize..50).prop_map(|(p, n)| p.repeat(n)),
        // a line (or word) whose end falls near an internal buffer boundary
        1 => (gens::piece(ctx), vh::proptest::sample::select(sizes), 0usize..6).prop_map(move |(p, n, d)| {
            let unit = if p.is_empty() { "a".to_string() } else { p };
            let n = (n as usize).min(big) + d;
            let mut s = unit.repeat(n / unit.len() + 1);
            while s.len() > n.saturating_sub(3) && !s.is_empty() { s.pop(); }
            s
        }),
    ];
    let bom = prop_oneof![15 => Just(""), 1 => Just("\u{feff}")];
    bx((bom, vh::proptest::collection::vec((line, eol), 0..8), prop_oneof![Just(String::new()), gens::text(ctx, 0..3)], 1usize..3).prop_map(|(b, v, tail, rep)| {
        let mut t = b.to_string();
        for _ in 0..rep {
            for (l, e) in &v {
                t.push_str(l);
                t.push_str(e);
            }
        }
        t.push_str(&tail);
        t
    }))
}

fn plan() -> BoxedStrategy<Vec<u32>> {
    bx(prop_oneof![
        2 => Just(vec![]),
        3 => vh::proptest::collection::vec(prop_oneof![1 => Just(0u32), 3 => 1u32..5, 3 => 1u32..3000, 2 => 8000u32..9000], 1..6),
        1 => Just(vec![1]),
    ])
}

fn observe(text: &str, o: &mut Obs) {
    o.nontrivial(text.contains('\n') || text.contains('\r') || text.len() > 4000);
    o.label_if(text.contains("\r\n"), "CRLF");
    o.label_if(!text.ends_with('\n'), "no final newline");
    o.label_if(text.contains("\n\n"), "empty lines");
    o.label_if(text.len() > 8192, "longer than 8 KiB");
    o.label_if(text.split('\n').any(|l| l.len() > 8192), "line longer than 8 KiB");
    o.label_if(text.is_empty(), "empty file");
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cli {
    text: String,
    repeat: usize,
    existing_output: bool,
}

/// A line of a given length, made of a repeated unit.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Long {
    unit: String,
    before: usize,
    len: usize,
    tail: String,
    /// through the command instead of in memory
    command: bool,
}

impl Long {
    fn text(&self) -> String {
        let mut s = "x".repeat(self.before);
        if self.before > 0 {
            s.push('\n');
        }
        let end = s.len() + self.len;
        while s.len() < end {
            s.push_str(&self.unit);
        }
        while s.len() > end {
            s.pop();
        }
        s + &self.tail
    }
}

fn long(c: &Long, ctx: &Ctx, o: &mut Obs) -> CheckResult {
    let text = c.text();
    let want = ref_process(&text);
    let got = if c.command {
        let s = Scratch::new();
        s.write("in.txt", text.as_bytes());
        let r = cli::run(&ctx.texmo, &s, &["process", "-d", "in.txt", "-o", "out.txt"], &Opts::default());
        if !r.ok() {
            return Err(format!("process failed: {}", r.describe()));
        }
        std::fs::read(s.path("out.txt")).map_err(|e| format!("no output: {e}"))?
    } else {
        let mut out = Vec::new();
        process_file(&mut text.as_bytes(), &mut out).map_err(|e| format!("process_file failed without a fault: {e}"))?;
        out
    };
    if got != want.as_bytes() {
        return Err(format!("line of {} bytes: {}", c.len, diff(&got, want.as_bytes())));
    }
    o.nontrivial(true);
    o.label_if(c.len > 1 << 20, "line longer than 1 MiB");
    o.label_if(c.len > 1 << 24, "line longer than 16 MiB");
    Ok(())
}

fn main() {
    let mut r = Runner::new(
        "C03",
        "texts with all kinds of line ends, empty lines, lines up to several internal buffers long, with or without a final newline; \
         delivered to / accepted from process_file in generated portions with interrupted calls; and the process command on real files; lines of 0.1 to 20 MB. \
         Non-trivial: several lines or longer than 4000 bytes.",
    );
    r.sub(
        "stream",
        600_000,
        20_000_000,
        |ctx| {
            bx((prop_oneof![5 => line_texts(ctx, 70_000), 2 => gens::mixed_text(ctx, 200)], plan(), plan(), 0u8..3).prop_map(|(text, reads, writes, f)| Case {
                text,
                reads,
                writes,
                flush_interrupts: f,
            }))
        },
        |c: &Case, _, o| {
            observe(&c.text, o);
            o.label_if(c.reads.contains(&0), "interrupted reads");
            o.label_if(c.writes.contains(&0), "interrupted writes");
            let mut src = Src { data: c.text.as_bytes(), pos: 0, plan: &c.reads, k: 0 };
            let mut sink = Sink { got: Vec::new(), plan: &c.writes, k: 0, flush_interrupts: c.flush_interrupts };
            let r = process_file(&mut src, &mut sink);
            if let Err(e) = r {
                return Err(format!("process_file failed without a fault: {e}"));
            }
            let want = ref_process(&c.text);
            if sink.got != want.as_bytes() {
                return Err(diff(&sink.got, want.as_bytes()));
            }
            Ok(())
        },
    );
    r.sub(
        "command",
        2_400,
        60_000,
        |ctx| {
            bx((line_texts(ctx, 70_000), prop_oneof![6 => Just(1usize), 1 => 2usize..40], any::<bool>())
                .prop_map(|(text, repeat, existing_output)| Cli { text, repeat, existing_output }))
        },
        |c: &Cli, ctx, o| {
            let text = c.text.repeat(c.repeat);
            observe(&text, o);
            o.label_if(text.len() > 100_000, "file over 100 KB");
            let s = Scratch::new();
            s.write("in.txt", text.as_bytes());
            if c.existing_output {
                s.write("out.txt", &vec![b'x'; text.len() * 3 + 100]);
            }
            let r = cli::run(&ctx.texmo, &s, &["process", "-d", "in.txt", "-o", "out.txt"], &Opts::default());
            if !r.ok() {
                return Err(format!("process failed: {}", r.describe()));
            }
            let got = std::fs::read(s.path("out.txt")).map_err(|e| format!("no output: {e}"))?;
            let want = ref_process(&text);
            if got != want.as_bytes() {
                return Err(diff(&got, want.as_bytes()));
            }
            let after = std::fs::read(s.path("in.txt")).map_err(|e| e.to_string())?;
            if after != text.as_bytes() {
                return Err("the input file was changed".into());
            }
            Ok(())
        },
    );
    // Lines longer than any buffer: one word all along, so that wherever the
    // line might be split it is split inside a word; and short words.
    let mut cases = Vec::new();
    let seed = r.ctx.seed as usize;
    let mut sizes: Vec<usize> = r.ctx.dict.near(100_000, 40_000_000).into_iter().map(|x| x as usize).collect();
    sizes.extend([(1 << 17) + 11, (1 << 18) + 11, (1 << 19) + 11, (1 << 20) - 1, (1 << 20) + 1, 1_000_000, 3 << 20, 5 << 20, (1 << 23) + 3, (1 << 24) + 5, 20_000_003]);
    if r.ctx.thorough {
        sizes.extend([(1 << 25) + 5, (1 << 26) + 5, (1 << 28) + 5]);
    }
    sizes.sort();
    sizes.dedup();
    for (i, len) in sizes.into_iter().enumerate() {
        for (k, unit) in ["abcdefg", "Ab c", "中", "AB"].into_iter().enumerate() {
            if k == 0 || (i + k + seed) % 3 == 0 || r.ctx.thorough {
                cases.push(Long { unit: unit.into(), before: (seed + i) % 3 * 7, len, tail: ["", "\n", " Z\nab"][(seed + i) % 3].into(), command: (i + k) % 4 == 0 });
            }
        }
    }
    let shrink = |c: &Long| {
        let mut v = Vec::new();
        for d in [2usize, 4, 16, 64, 1024] {
            if c.len > d {
                v.push(Long { len: c.len - c.len / d, ..c.clone() });
            }
        }
        v
    };
    r.enumerate("long-lines", cases, 6, shrink, |c: &Long, ctx, o| long(c, ctx, o));
    // Pre-processing of caps-words data: the size the program saw.
    r.sub(
        "preprocess",
        1_600,
        40_000,
        |ctx| bx(line_texts(ctx, 20_000).prop_map(|text| Cli { text: if text.is_empty() { "a".into() } else { text }, repeat: 1, existing_output: false })),
        |c: &Cli, ctx, o| {
            observe(&c.text, o);
            let s = Scratch::new();
            s.write("in.txt", c.text.as_bytes());
            s.mkdir("t");
            let tokens: Vec<serde_json::Value> = (0..256u32)
                .map(|b| if b < 128 { serde_json::json!((b as u8 as char).to_string()) } else { serde_json::json!([b]) })
                .collect();
            let set = serde_json::json!({"type": "bytes", "processing": "capswords", "split_paragraphs": true, "tokens": tokens});
            s.write("set.json", set.to_string().as_bytes());
            let r = cli::run(&ctx.texmo, &s, &["convert-tokens", "-d", "in.txt", "-i", "set.json", "-t", "t"], &Opts::default());
            if !r.ok() {
                return Err(format!("convert-tokens failed: {}", r.describe()));
            }
            let out = std::fs::read(s.path("t/tokens256_capswords_bytes.json")).map_err(|e| format!("no output: {e}"))?;
            let v: serde_json::Value = serde_json::from_slice(&out).map_err(|e| format!("not JSON: {e}"))?;
            let want = ref_process(&c.text).len() as u64;
            if v["stats"]["scanned_bytes"] != want || v["stats"]["total_tokens"] != want {
                return Err(format!("the caps-words form has {want} bytes, the program processed {}", v["stats"]));
            }
            Ok(())
        },
    );
    r.finish()
}
