//! C24: unusable input is refused, not misread.
#[path = "../api.rs"]
mod api;
use api::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use vh::cli::{self, changes, snapshot, Opts, Scratch};
use vh::pp::*;
use vh::run::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    set: SetSpec,
    what: u8,
    a: u32,
    b: u32,
    /// read it with optimize -i instead of convert-tokens
    optimize: bool,
    text: String,
}

fn pick<T: Clone>(v: &[T], k: u32) -> T {
    v[k as usize % v.len()].clone()
}

/// Not bytes, ext tokens or anything else that stands for a string.
fn bad_byte(good: u8, k: u32) -> Value {
    let g = good as u64;
    pick(
        &[
            json!(g + 256),
            json!(g as i64 - 256),
            json!(g + 65536),
            json!(g + (1 << 32)),
            json!(g as f64 + 0.5),
            json!(256),
            json!(-1),
            json!("a"),
            json!(null),
            json!([g]),
            json!(true),
            json!({}),
        ],
        k,
    )
}

fn as_list(v: &Value) -> Vec<Value> {
    match v {
        Value::String(s) => s.bytes().map(|b| json!(b)).collect(),
        Value::Array(a) => a.clone(),
        _ => vec![],
    }
}

/// A spelling of a string with one value that is no byte.
fn bad_string(v: &Value, a: u32, b: u32) -> Value {
    let mut l = as_list(v);
    if l.is_empty() {
        l.push(json!(97));
    }
    let i = a as usize % l.len();
    l[i] = bad_byte(l[i].as_u64().unwrap_or(97) as u8, b);
    l.into()
}

fn respelled(v: &Value) -> Value {
    match v {
        Value::String(_) => as_list(v).into(),
        _ => v.clone(),
    }
}

/// The document made unusable, and what was done; None where it can't be done
/// that way.
fn spoil(c: &Case, base: &Value) -> Option<(String, String)> {
    let (a, b) = (c.a, c.b);
    let text = base.to_string();
    let bits = ["bits1", "bits2", "bits4"].contains(&base["type"].as_str()?);
    let huff = base["type"] == "byteshuff";
    let has_seqs = base.get("sequences").is_some();
    let tokens: Vec<Value> = base["tokens"].as_array()?.clone();
    let exts: Vec<usize> = (0..tokens.len()).filter(|&i| tokens[i].is_number()).collect();
    let strs: Vec<usize> = (0..tokens.len()).filter(|&i| !tokens[i].is_number()).collect();
    let mut v = base.clone();
    let what = match c.what % 17 {
        0 => {
            let mut k = 1 + a as usize % (text.len() - 1);
            while !text.is_char_boundary(k) {
                k -= 1;
            }
            return Some((text[..k].to_string(), format!("cut off after {k} of {} bytes", text.len())));
        }
        1 => {
            let t = pick(&["x", "}", "]", ",", "{}", "0", "null", "\"\"", "// x", "\0"], a);
            let t = if b % 2 == 0 { format!("{text}{t}") } else { format!("{text}\n{t}\n") };
            return Some((t, "something after the document".into()));
        }
        2 => {
            let t = pick(&["", "null", "[]", "{}", "5", "\"x\"", "true", "\n", "[{}]", "{\"tokens\":[]}"], a);
            return Some((t.to_string(), format!("the file contains {t:?}")));
        }
        3 => {
            let k = pick(&["type", "processing", "tokens"], a);
            v.as_object_mut()?.remove(k);
            format!("no {k}")
        }
        4 => {
            let bad: Vec<Value> = vec![json!(null), json!(4), json!(true), json!([]), json!({}), json!(["bits2"]), json!(""), json!("bits"), json!("bits3"), json!("bits8"), json!("Bits2"), json!("BITS4"), json!("bits 2"), json!("byte"), json!("bytes-huff"), json!("huff"), json!("all-tokens"), json!("fallback_bits"), json!(" bytes")];
            v["type"] = pick(&bad, a);
            format!("type {}", v["type"])
        }
        5 => {
            let bad: Vec<Value> = vec![json!(null), json!(0), json!(true), json!([]), json!({}), json!(""), json!("Raw"), json!("RAW"), json!("none"), json!("caps-words"), json!("caps_words"), json!("CapsWords"), json!("caps"), json!("rawx"), json!(["raw"])];
            v["processing"] = pick(&bad, a);
            format!("processing {}", v["processing"])
        }
        6 => {
            let (k, bad): (&str, Vec<Value>) = if a % 3 == 0 || !has_seqs && a % 3 == 1 {
                ("split_paragraphs", vec![json!(0), json!(1), json!("true"), json!("false"), json!([]), json!({}), json!(1.5), json!([true])])
            } else if a % 3 == 1 {
                ("sequences", vec![json!(5), json!("x"), json!({}), json!(true), json!([5]), json!([[]]), json!([null]), json!(["ab"])])
            } else {
                ("tokens", vec![json!(null), json!(5), json!("abc"), json!({}), json!(true), json!({"0": "a"})])
            };
            v[k] = pick(&bad, b);
            format!("{k} {}", v[k])
        }
        7 => {
            // the older spelling of bits types, with other numbers of bits
            v["type"] = json!("fallback_bits");
            let bad = vec![json!(0), json!(3), json!(8), json!(16), json!(-1), json!(256 + 2), json!("2"), json!(null), json!(1.5), json!([4])];
            if a % 9 < 8 {
                v["fallback_bits"] = pick(&bad, b);
            }
            format!("fallback_bits {:?}", v.get("fallback_bits"))
        }
        8 => {
            // other extension tokens than 0..n
            let l = v["tokens"].as_array_mut()?;
            let n = exts.len();
            match (a % 6, n) {
                (0, 1..) => {
                    // a gap at the front
                    l.remove(exts[0]);
                    "extension token 0 is missing".to_string()
                }
                (1, _) => {
                    let x = if huff { n + 1 + b as usize % 3 } else { n };
                    l.insert(b as usize % (tokens.len() + 1), json!(x));
                    format!("{n} extension tokens and {x}")
                }
                (2, 1..) => {
                    let x = l[exts[b as usize % n]].clone();
                    l.push(x.clone());
                    format!("extension token {x} twice")
                }
                (3, 2..) => {
                    let (i, j) = (exts[b as usize % n], exts[(b as usize + 1) % n]);
                    let x = l[i].clone();
                    l[j] = x.clone();
                    format!("extension token {x} twice, another one missing")
                }
                (4, 1..) => {
                    let i = exts[(b / 16) as usize % n];
                    let x = l[i].as_u64()?;
                    l[i] = pick(&[json!(x + 256), json!(x + 512), json!(x as i64 - 256), json!(x as f64 + 0.5), json!(x + (1 << 32)), json!(-1)], b);
                    format!("extension token {} for {x}", l[i])
                }
                (_, 1..) => {
                    let i = exts[b as usize % n];
                    let x = l[i].as_u64()?;
                    l[i] = json!(n + b as usize % 5);
                    format!("extension token {} for {x} of {n}", l[i])
                }
                _ => return None,
            }
        }
        9 => {
            let l = v["tokens"].as_array_mut()?;
            let i = if strs.is_empty() { l.push(json!("ab")); l.len() - 1 } else { strs[(a / 8) as usize % strs.len()] };
            let bad = bad_string(&l[i], a, b);
            if a % 2 == 0 {
                l[i] = bad.clone();
            } else {
                l.push(bad.clone());
            }
            format!("token {bad}")
        }
        10 => {
            let bad = pick(&[json!(null), json!({}), json!(true), json!(""), json!([]), json!({"string": "a"}), json!(1.5), json!(-3)], a);
            let l = v["tokens"].as_array_mut()?;
            l.insert(b as usize % (tokens.len() + 1), bad.clone());
            format!("token {bad}")
        }
        11 => {
            if strs.is_empty() {
                return None;
            }
            let l = v["tokens"].as_array_mut()?;
            let mut d = l[strs[a as usize % strs.len()]].clone();
            if b % 2 == 1 {
                d = respelled(&d);
            }
            l.push(d.clone());
            format!("token {d} twice")
        }
        // entries of the sequence list
        k if !has_seqs => {
            if !bits {
                return None;
            }
            // a bits set whose list has one byte only
            if k == 12 {
                let d = if exts.len() == 16 { 2 } else if exts.len() == 4 { 4 } else { 8 };
                v["sequences"] = json!([{"string": "a", "tokens": vec![0; d]}]);
                "a list with one sequence".into()
            } else {
                return None;
            }
        }
        12 => {
            let l = v["sequences"].as_array_mut()?;
            // bytes only: other strings have their bytes' encodings
            let one: Vec<usize> = (0..l.len()).filter(|&i| as_list(&l[i]["string"]).len() == 1).collect();
            if one.is_empty() {
                return None;
            }
            let e = l.remove(one[a as usize % one.len()]);
            format!("no encoding for {}", e["string"])
        }
        13 => {
            let l = v["sequences"].as_array_mut()?;
            let mut e = l[a as usize % l.len()].clone();
            if b % 3 == 0 {
                e["string"] = respelled(&e["string"]);
            }
            if b % 3 == 1 && !strs.is_empty() {
                e["string"] = tokens[strs[(b / 3) as usize % strs.len()]].clone();
            }
            l.insert((b / 7) as usize % (l.len() + 1), e.clone());
            format!("a second encoding for {}", e["string"])
        }
        14 => {
            let l = v["sequences"].as_array_mut()?;
            let n = l.len();
            let e = &mut l[a as usize % n];
            match b % 6 {
                0 => {
                    e.as_object_mut()?.remove("string");
                }
                1 => {
                    e.as_object_mut()?.remove("tokens");
                }
                2 => *e = pick(&[json!(5), json!(null), json!("x"), json!([]), json!({}), json!(true)], b / 6),
                3 => e["string"] = pick(&[json!(5), json!(null), json!(""), json!([]), json!({}), json!(true)], b / 6),
                4 => e["tokens"] = pick(&[json!(5), json!(null), json!("a"), json!({}), json!(true)], b / 6),
                _ => e["string"] = bad_string(&e["string"], b / 6, b / 30),
            }
            format!("sequence entry {e}")
        }
        15 => {
            let l = v["sequences"].as_array_mut()?;
            let n = l.len();
            let e = &mut l[a as usize % n];
            e["tokens"] = json!([]);
            format!("sequence entry {e}")
        }
        _ => {
            let l = v["sequences"].as_array_mut()?;
            let n = l.len();
            let e = &mut l[a as usize % n];
            let s = e["string"].clone();
            let t = e["tokens"].as_array_mut()?;
            let i = (a / 11) as usize % t.len();
            let absent = |s: &[u8]| !tokens.iter().any(|t| as_list(t) == s.iter().map(|b| json!(b)).collect::<Vec<_>>() && !t.is_number());
            t[i] = match (b % 5, &t[i]) {
                (0, _) => json!(exts.len() + (b / 5) as usize % 3),
                (1, Value::Number(x)) => json!(x.as_u64()? + 256),
                (1, x) | (2, x) if !x.is_number() => bad_string(x, b / 5, b / 50),
                (3, _) => pick(&[json!(null), json!({}), json!(true), json!(-1), json!(0.5)], b / 5),
                _ if absent(b"zqz") => json!("zqz"),
                _ => json!(exts.len()),
            };
            format!("tokens {} for {s}", e["tokens"])
        }
    };
    Some((v.to_string(), what))
}

fn refused(sc: &Scratch, ctx: &Ctx, args: &[&str], may_change: &[String]) -> CheckResult {
    let before = snapshot(sc);
    let r = cli::run(&ctx.texmo, sc, args, &Opts { cpu: Some(20), ..Opts::default() });
    let shown = args.join(" ");
    if r.cpu_exceeded() {
        return Err(format!("{shown}: still running after 20 s of processor time"));
    }
    if r.ok() {
        let new = changes(&before, &snapshot(sc), may_change);
        return Err(format!("{shown}: accepted ({})", new.join(", ")));
    }
    if r.code.is_none() {
        return Err(format!("{shown}: {}", r.describe()));
    }
    let ch = changes(&before, &snapshot(sc), may_change);
    if !ch.is_empty() {
        return Err(format!("{shown}: failed, but {}", ch.join(", ")));
    }
    Ok(())
}

const TYPES: [&str; 5] = ["bits1", "bits2", "bits4", "bytes", "bytes-huff"];

fn files(c: &Case, ctx: &Ctx, o: &mut Obs) -> CheckResult {
    let mut ts = SetSpec { order: 0, ..c.set.clone() }.build();
    if c.set.order != 0 {
        ts = permute_strs(&ts, c.set.order as u64);
    }
    let r = to_ref(&ts)?;
    let base: Value = serde_json::from_str(&r.to_text()).map_err(|e| format!("HARNESS-ERROR: {e}"))?;
    let Some((bad, what)) = spoil(c, &base) else {
        o.label("not applicable to the set");
        return Ok(());
    };
    let sc = Scratch::new();
    sc.write("data.txt", c.text.as_bytes());
    sc.mkdir("t");
    let name = format!("t/{}.json", r.name());
    let n = (r.tokens.len() + 1).to_string();
    let convert = ["convert-tokens", "-d", "data.txt", "-i", "set.json", "-t", "t"];
    let optimize = ["optimize", "-d", "data.txt", "-i", "set.json", "-t", "t", "-n", &n, "--type", TYPES[c.set.kind as usize % 5], "-p", if c.set.caps { "caps-words" } else { "raw" }];
    // as it is, the set is accepted
    sc.write("set.json", r.to_text().as_bytes());
    let ok = cli::run(&ctx.texmo, &sc, &convert, &Opts::default());
    if !ok.ok() {
        return Err(format!("the set without the fault is refused: {}", ok.describe()));
    }
    sc.write("set.json", bad.as_bytes());
    sc.write(&name, b"what was there before");
    refused(&sc, ctx, if c.optimize { &optimize } else { &convert }, &[]).map_err(|e| format!("{} set, {what}: {e}", kind_name(c.set.kind)))?;
    o.label(kind_name(c.set.kind));
    o.label(if c.optimize { "optimize -i" } else { "convert-tokens" });
    o.label(
        [
            "cut off", "something after the document", "another document", "field missing", "unknown type", "unknown processing", "field of the wrong kind", "fallback_bits", "extension tokens",
            "token with a value that is no byte", "token of the wrong kind", "duplicate token", "byte without encoding", "second encoding", "broken sequence entry", "empty sequence", "sequence of unknown tokens",
        ][c.what as usize % 17],
    );
    o.nontrivial(true);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Request {
    what: u8,
    kind: u8,
    caps: bool,
    k: u32,
    text: String,
}

const REQUESTS: u8 = 34;

fn requests(c: &Request, ctx: &Ctx, o: &mut Obs) -> CheckResult {
    let sc = Scratch::new();
    let kind = c.kind as usize % 5;
    let min = [2u64, 4, 16, 256, 3][kind];
    let spec = |caps| SetSpec { kind: c.kind, caps, split: true, bytes: b"ab".to_vec(), longs: vec![], n_ext: 3, codes: vec![], multi: vec![], order: 0 };
    let same = to_ref(&spec(c.caps).build())?;
    let other = to_ref(&spec(!c.caps).build())?;
    sc.write("data.txt", c.text.as_bytes());
    // text with something that is not UTF-8
    let mut odd = c.text.clone().into_bytes();
    let at = c.k as usize % (odd.len() + 1);
    let bad: Vec<u8> = pick(&[vec![0xff], vec![0xc3], vec![0xed, 0xa0, 0x80], vec![0x80], vec![0xf0, 0x9f], vec![0xc0, 0x80]], c.k / 1000);
    odd.splice(at..at, bad);
    let odd_is = std::str::from_utf8(&odd).is_ok();
    sc.write("odd.txt", &odd);
    sc.write("set.json", same.to_text().as_bytes());
    sc.write("other.json", other.to_text().as_bytes());
    let another = to_ref(&SetSpec { kind: (c.kind + 1 + (c.k % 4) as u8) % 5, ..spec(c.caps) }.build())?;
    sc.write("type.json", another.to_text().as_bytes());
    sc.mkdir("t");
    sc.mkdir("d");
    // what earlier commands wrote
    if c.k / 7 % 2 == 0 {
        sc.write("out.txt", b"an earlier output");
        for i in 0..3 {
            sc.write(&format!("t/tokens{}_{}_{}.json", same.tokens.len() + i, same.processing, same.ttype), b"an earlier set");
        }
    }
    let n = (same.tokens.len() + c.k as usize % 3).to_string();
    let too_few = (c.k as u64 % min).to_string();
    let p = if c.caps { "caps-words" } else { "raw" };
    let wrong_n = pick(&["-1", "x", "", "1e3", "99999999999999999999999", "2.5"], c.k);
    let wrong_p = pick(&["caps", "Raw", "capswords2", "", "none"], c.k);
    let wrong_t = pick(&["bits3", "bit1", "", "BITS1", "huff"], c.k);
    let convert = |data: &'static str, set: &'static str, dir: &'static str| vec!["convert-tokens", "-d", data, "-i", set, "-t", dir];
    let opt = |data: &'static str, dir: &'static str| vec!["optimize", "-d", data, "-t", dir];
    let with = |mut v: Vec<&'static str>, more: &[&str]| -> Vec<String> {
        v.extend(Vec::<&str>::new());
        v.into_iter().map(str::to_string).chain(more.iter().map(|s| s.to_string())).collect()
    };
    let full = ["-n", n.as_str(), "--type", TYPES[kind], "-p", p];
    let (args, what): (Vec<String>, &str) = match c.what % REQUESTS {
        0 => (with(convert("no.txt", "set.json", "t"), &[]), "no data"),
        1 => (with(convert("data.txt", "no.json", "t"), &[]), "no set"),
        2 => (with(convert("data.txt", "set.json", "no"), &[]), "no directory"),
        3 => (with(convert("data.txt", "set.json", "data.txt"), &[]), "directory is a file"),
        4 => (with(convert("d", "set.json", "t"), &[]), "data is a directory"),
        5 => (with(convert("data.txt", "d", "t"), &[]), "set is a directory"),
        6 if c.caps => (with(convert("data.txt", "set.json", "t"), &["--processed-data", "no.txt"]), "no processed data"),
        7 if c.caps && !odd_is => (with(convert("odd.txt", "set.json", "t"), &[]), "data to be processed is not UTF-8"),
        8 => (with(opt("no.txt", "t"), &full), "no data"),
        9 => (with(opt("data.txt", "no"), &full), "no directory"),
        10 => (with(opt("data.txt", "t"), &["-n", &too_few, "--type", TYPES[kind], "-p", p]), "fewer tokens than the type needs"),
        11 => (with(opt("data.txt", "t"), &["-n", wrong_n, "--type", TYPES[kind], "-p", p]), "number of tokens"),
        12 => (with(opt("data.txt", "t"), &["-n", &n, "--type", wrong_t, "-p", p]), "unknown type"),
        13 => (with(opt("data.txt", "t"), &["-n", &n, "--type", TYPES[kind], "-p", wrong_p]), "unknown processing"),
        14 => (with(opt("data.txt", "t"), &[&full[..], &["--min-data-size", "0"]].concat()), "sample size 0"),
        15 => (with(opt("data.txt", "t"), &[&full[..], &["-i", "other.json"]].concat()), "set for another processing"),
        16 => (with(opt("data.txt", "t"), &[&full[..], &["-i", "no.json"]].concat()), "no initial set"),
        17 if c.caps && !odd_is => (with(opt("odd.txt", "t"), &full), "data to be processed is not UTF-8"),
        18 => (with(vec!["process", "-d", "no.txt", "-o", "out.txt"], &[]), "no data"),
        19 => (with(vec!["process", "-d", "data.txt", "-o", "no/out.txt"], &[]), "no directory"),
        20 if !odd_is => (with(vec!["process", "-d", "odd.txt", "-o", "out.txt"], &[]), "data is not UTF-8"),
        21 if !odd_is => (with(vec!["count-chars", "-d", "odd.txt"], &[]), "data is not UTF-8"),
        22 => (with(convert("no.txt", "set.json", "t"), &["--processed-data", "data.txt"]), "processed data, but no data"),
        23 => (with(opt("no.txt", "t"), &[&full[..], &["--processed-data", "data.txt"]].concat()), "processed data, but no data"),
        24 if c.caps => (with(opt("data.txt", "t"), &[&full[..], &["--processed-data", "no.txt"]].concat()), "no processed data"),
        25 => (with(opt("data.txt", "data.txt"), &full), "directory is a file"),
        26 => (with(opt("d", "t"), &full), "data is a directory"),
        27 => (with(vec!["process", "-d", "d", "-o", "out.txt"], &[]), "data is a directory"),
        28 => (with(vec!["process", "-d", "data.txt", "-o", "d"], &[]), "output is a directory"),
        29 => (with(vec!["count-chars", "-d", "d"], &[]), "data is a directory"),
        30 => (with(opt("data.txt", "t"), &[&full[..], &["--min-data-size", pick(&["-5", "x", "", "1.5", "1k", "99999999999999999999999"], c.k)]].concat()), "size of the sample"),
        31 if kind != 4 => (with(opt("data.txt", "t"), &[&full[..], &["-i", "type.json"]].concat()), "set of another type"),
        32 => {
            // one of the necessary options isn't there
            let all: [(&str, usize); 4] = [("process", 2), ("count-chars", 1), ("convert-tokens", 3), ("optimize", 5)];
            let (name, n) = all[c.k as usize % 4];
            let mut v: Vec<&str> = match name {
                "process" => vec!["-d", "data.txt", "-o", "out.txt"],
                "count-chars" => vec!["-d", "data.txt"],
                "convert-tokens" => vec!["-d", "data.txt", "-i", "set.json", "-t", "t"],
                _ => [&["-d", "data.txt", "-t", "t"][..], &full[..]].concat(),
            };
            let at = c.k as usize / 4 % n * 2;
            v.drain(at..at + 2);
            (with(vec![name], &v), "an option missing")
        }
        33 => (with(vec![pick(&["", "proces", "count", "convert", "Optimize"], c.k), "-d", "data.txt", "-o", "out.txt"], &[]), "no such command"),
        _ => (with(vec!["count-chars", "-d", "no.txt"], &[]), "no data"),
    };
    let args: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    // what could be processed before the failure may be there
    let may: Vec<String> = if matches!(c.what % REQUESTS, 20 | 27) { vec!["out.txt".into()] } else { vec![] };
    refused(&sc, ctx, &args, &may).map_err(|e| format!("{what}: {e}"))?;
    o.label(&format!("{}: {what}", args[0]));
    o.nontrivial(true);
    Ok(())
}

fn main() {
    let mut r = Runner::new(
        "C24",
        "valid token-set files (sets as in C05) made unusable in one of 17 ways: cut off, something appended, another document, fields missing, \
         misspelt or of the wrong kind, other extension tokens than 0..n, values that are no bytes (also congruent to one modulo 256), empty and \
         duplicate tokens, missing, second, empty and dangling encodings; read by convert-tokens and optimize -i; and 34 kinds of requests that \
         can't be met. The command must fail without changing any file; the file without the fault must be accepted. Non-trivial: all to which the \
         fault applies.",
    );
    r.sub_opts(
        "files",
        10_000,
        600_000,
        SHARDS,
        200,
        |ctx| {
            bx((set_and_texts(ctx, 1..2, 8), 0u8..17, any::<u32>(), any::<u32>(), prop_oneof![3 => Just(false), 1 => Just(true)], vh::gens::text(ctx, 1..5)).prop_map(|((set, _), what, a, b, optimize, text)| {
                let mut text = vh::gens::strip_markers(&text);
                text.truncate((0..=text.len().min(60)).rev().find(|&k| text.is_char_boundary(k)).unwrap_or(0));
                text.push('a');
                Case { set, what, a, b, optimize, text }
            }))
        },
        |c: &Case, ctx, o| files(c, ctx, o),
    );
    r.sub_opts(
        "requests",
        5_000,
        100_000,
        SHARDS,
        200,
        |ctx| {
            bx((0u8..REQUESTS, 0u8..5, any::<bool>(), any::<u32>(), vh::gens::text(ctx, 1..5)).prop_map(|(what, kind, caps, k, text)| {
                let mut text = vh::gens::strip_markers(&text);
                text.truncate((0..=text.len().min(60)).rev().find(|&k| text.is_char_boundary(k)).unwrap_or(0));
                text.push('a');
                Request { what, kind, caps, k, text }
            }))
        },
        |c: &Request, ctx, o| requests(c, ctx, o),
    );
    r.finish()
}
