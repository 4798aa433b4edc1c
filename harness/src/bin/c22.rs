//! C22: older and reordered token-set files load as the set they describe.
#[path = "../api.rs"]
mod api;
use api::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use texmo::verif::tokenizer2::FragmentTokenizer;
use texmo::verif::tokenset::TokenSet;
use vh::cli::{self, Opts, Scratch};
use vh::pp::*;
use vh::proptest::collection::vec;
use vh::refs::{show, type_bits, RefSet, Tok};
use vh::run::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Spelling {
    old_type: bool,
    omit_split: bool,
    omit_seqs: bool,
    permute_seqs: u32,
    permute_strings: u32,
    /// which strings are written as lists of bytes: 0 those that are not
    /// UTF-8, 1 all of them, otherwise pseudo-randomly
    lists: u32,
    pretty: bool,
    key_order: u32,
    stats: bool,
    /// non-ASCII characters as escapes
    #[serde(default)]
    escape: bool,
    /// extension tokens not in front
    #[serde(default)]
    mix_ext: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    set: SetSpec,
    how: Spelling,
    texts: Vec<Vec<u8>>,
    /// further sequences: string, numbers of tokens
    #[serde(default)]
    further: Vec<(Vec<u8>, Vec<u16>)>,
}

fn shuffled<T>(mut v: Vec<T>, seed: u32) -> Vec<T> {
    if seed != 0 {
        let mut x = seed as u64;
        for i in (1..v.len()).rev() {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            v.swap(i, (x >> 33) as usize % (i + 1));
        }
    }
    v
}

/// The harness's own writer. `plain`: the current spelling.
fn write(r: &RefSet, how: &Spelling, plain: bool) -> String {
    let mut k = how.lists as u64;
    let mut string = |s: &Vec<u8>| -> Value {
        let list = match (std::str::from_utf8(s), plain, how.lists) {
            (Err(_), _, _) => true,
            (_, true, _) | (_, _, 0) => false,
            (_, _, 1) => true,
            _ => {
                k = k.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                k >> 62 == 0
            }
        };
        if list {
            json!(s)
        } else {
            json!(std::str::from_utf8(s).unwrap())
        }
    };
    let mut fields: Vec<(String, Value)> = Vec::new();
    match (r.ttype.as_str(), how.old_type && !plain) {
        ("bytes", true) => fields.push(("type".into(), "all_tokens".into())),
        (t, true) if type_bits(t).is_some() => {
            fields.push(("type".into(), "fallback_bits".into()));
            fields.push(("fallback_bits".into(), type_bits(t).into()));
        }
        (t, _) => fields.push(("type".into(), t.into())),
    }
    fields.push(("processing".into(), r.processing.clone().into()));
    if plain || !how.omit_split || r.split != Some(false) {
        fields.push(("split_paragraphs".into(), r.split.into()));
    }
    let ext: Vec<Tok> = r.tokens.iter().filter(|t| matches!(t, Tok::Ext(_))).cloned().collect();
    let strs: Vec<Tok> = r.tokens.iter().filter(|t| matches!(t, Tok::Str(_))).cloned().collect();
    let strs = if plain { strs } else { shuffled(strs, how.permute_strings) };
    let mut tok = |t: &Tok| match t {
        Tok::Ext(n) => json!(n),
        Tok::Str(s) => string(s),
    };
    let mut toks: Vec<Tok> = ext.iter().chain(strs.iter()).cloned().collect();
    if how.mix_ext && !plain {
        toks = shuffled(toks, how.permute_strings | 1);
    }
    let list: Vec<Value> = toks.iter().map(&mut tok).collect();
    fields.push(("tokens".into(), list.into()));
    if plain || !(how.omit_seqs && type_bits(&r.ttype).is_some()) {
        let seqs = if plain { r.seqs.clone() } else { shuffled(r.seqs.clone(), how.permute_seqs) };
        if !seqs.is_empty() {
            let v: Vec<Value> = seqs
                .iter()
                .map(|(s, c)| {
                    let st = tok(&Tok::Str(s.clone()));
                    let c: Vec<Value> = c.iter().map(&mut tok).collect();
                    json!({"string": st, "tokens": c})
                })
                .collect();
            fields.push(("sequences".into(), v.into()));
        }
    }
    if how.stats && !plain {
        fields.push(("stats".into(), json!({"ntokens": 1, "total_tokens": 5, "scanned_bytes": 10, "bytes_per_token": 2.0, "initial_size": 10})));
    }
    let fields = if plain { fields } else { shuffled(fields, how.key_order) };
    // written by hand, to keep the order of the keys
    let mut out = String::from(if how.pretty && !plain { "{\n" } else { "{" });
    for (i, (k, v)) in fields.iter().enumerate() {
        if i > 0 {
            out.push_str(if how.pretty && !plain { ",\n" } else { "," });
        }
        let v = if how.pretty && !plain { serde_json::to_string_pretty(v) } else { serde_json::to_string(v) }.unwrap();
        out.push_str(&format!("{}: {v}", serde_json::to_string(k).unwrap()));
    }
    out.push_str("}\n");
    if how.escape && !plain {
        let mut e = String::new();
        for c in out.chars() {
            if c.is_ascii() {
                e.push(c);
            } else {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    e.push_str(&format!("\\u{u:04x}"));
                }
            }
        }
        return e;
    }
    out
}

fn load(s: &str) -> Result<TokenSet, String> {
    let v: Value = serde_json::from_str(s).map_err(|e| format!("HARNESS-ERROR: {e}"))?;
    Ok(TokenSet::from_json(v))
}

fn describe(a: &RefSet, b: &RefSet) -> String {
    let (x, y) = (a.canon(), b.canon());
    if x.0 != y.0 || x.1 != y.1 {
        return format!("type {} / {}, processing {} / {}", x.0, y.0, x.1, y.1);
    }
    if x.2 != y.2 {
        let d: Vec<&Tok> = x.2.iter().filter(|t| !y.2.contains(t)).chain(y.2.iter().filter(|t| !x.2.contains(t))).take(6).collect();
        return format!("{} / {} tokens, differing in {d:?}", x.2.len(), y.2.len());
    }
    let d: Vec<_> = x.3.iter().filter(|t| !y.3.contains(t)).chain(y.3.iter().filter(|t| !x.3.contains(t))).take(4).collect();
    format!("{} / {} sequences, differing in {d:?}", x.3.len(), y.3.len())
}

/// The set as described, with bits sequences forced to the fixed codes.
fn described(c: &Case) -> Result<RefSet, String> {
    let mut r = to_ref(&c.set.build())?;
    if c.how.omit_split {
        // the older files have no such setting, which means `false`
        r.split = Some(false);
    }
    if !(c.how.omit_seqs && type_bits(&r.ttype).is_some()) {
        for (s, code) in &c.further {
            if !r.tokens.contains(&Tok::Str(s.clone())) && !r.seqs.iter().any(|q| q.0 == *s) {
                let n = r.tokens.len();
                r.seqs.push((s.clone(), code.iter().map(|&k| r.tokens[k as usize % n].clone()).collect()));
            }
        }
    }
    Ok(r)
}

fn labels(c: &Case, r: &RefSet, o: &mut Obs) {
    let h = &c.how;
    o.label(kind_name(c.set.kind));
    o.label_if(h.old_type && r.ttype != "byteshuff", "older type spelling");
    o.label_if(h.omit_split, "no paragraph setting");
    o.label_if(h.omit_seqs && type_bits(&r.ttype).is_some(), "bits set without sequences");
    o.label_if(h.permute_seqs != 0 && r.seqs.len() > 1, "sequences permuted");
    o.label_if(r.seqs.iter().any(|s| c.further.iter().any(|f| f.0 == s.0)), "sequences for further strings");
    o.label_if(h.lists != 0, "strings as lists of bytes");
    o.label_if(h.mix_ext && r.n_ext() > 0, "extension tokens among the others");
    o.nontrivial(
        (h.old_type && r.ttype != "byteshuff")
            || h.omit_split
            || (h.omit_seqs && type_bits(&r.ttype).is_some())
            || (h.permute_seqs != 0 && r.seqs.len() > 1)
            || h.lists != 0
            || (h.mix_ext && r.n_ext() > 0),
    );
}

fn check(c: &Case, o: &mut Obs) -> CheckResult {
    let r = described(c)?;
    let (plain, odd) = (write(&r, &c.how, true), write(&r, &c.how, false));
    let a = load(&plain)?;
    let b = load(&odd)?;
    let (ra, rb) = (to_ref(&a)?, to_ref(&b)?);
    if ra.canon() != r.canon() {
        return Err(format!("the current spelling loads as another set: {}", describe(&r, &ra)));
    }
    if rb.canon() != r.canon() {
        return Err(format!("the other spelling loads as another set: {}", describe(&r, &rb)));
    }
    if ra.split != r.split || rb.split != r.split {
        return Err(format!("paragraph setting {:?} / {:?} instead of {:?}", ra.split, rb.split, r.split));
    }
    if a.n_ext_tokens != b.n_ext_tokens || a.name() != b.name() {
        return Err(format!("names {} / {}", a.name(), b.name()));
    }
    let (ta, tb) = (FragmentTokenizer::new(a), FragmentTokenizer::new(b));
    let seg = r.segmenter();
    for t in &c.texts {
        let (x, y) = (tokenize(&ta, t).total_tokens, tokenize(&tb, t).total_tokens);
        if x != y || seg.min_cost(t) != Some(y) {
            return Err(format!("{}: {x} tokens with the current spelling, {y} with the other one, {:?} expected", show(t), seg.min_cost(t)));
        }
    }
    labels(c, &r, o);
    Ok(())
}

fn command(c: &Case, ctx: &Ctx, o: &mut Obs) -> CheckResult {
    let r = described(c)?;
    let sc = Scratch::new();
    let text: String = String::from_utf8_lossy(&c.texts.concat()).to_string() + "x";
    let data = sc.write("data.txt", text.as_bytes());
    let mut sets = Vec::new();
    for (dir, plain) in [("a", true), ("b", false)] {
        let set = sc.write(&format!("{dir}.json"), write(&r, &c.how, plain).as_bytes());
        let out = sc.mkdir(dir);
        let run = cli::run(&ctx.texmo, &sc, &["convert-tokens", "-d", data.to_str().unwrap(), "-i", set.to_str().unwrap(), "-t", out.to_str().unwrap()], &Opts::default());
        if !run.ok() {
            return Err(format!("convert-tokens failed on the {} spelling: {}", if plain { "current" } else { "other" }, run.describe()));
        }
        let p = out.join(format!("{}.json", r.name()));
        let raw = std::fs::read(&p).map_err(|_| format!("convert-tokens wrote no {}.json", r.name()))?;
        let v: Value = serde_json::from_slice(&raw).map_err(|e| e.to_string())?;
        sets.push((RefSet::from_value(&v)?, v["stats"].clone()));
    }
    let (a, b) = (&sets[0], &sets[1]);
    if a.0.canon() != b.0.canon() || a.0.split != b.0.split {
        return Err(format!("convert-tokens gives different sets: {}", describe(&a.0, &b.0)));
    }
    if a.1 != b.1 || !a.1.is_object() {
        return Err(format!("convert-tokens gives different statistics: {} / {}", a.1, b.1));
    }
    labels(c, &r, o);
    o.label("convert-tokens command");
    let _ = Map::<String, Value>::new();
    Ok(())
}

fn main() {
    let mut r = Runner::new(
        "C22",
        "token sets as in C05, written by the harness in the current spelling and in another one: older type names, no paragraph setting, no \
         sequences (bits), sequences for further strings, sequences and string tokens permuted, strings as lists of bytes (some or all) or with escapes, extension tokens anywhere among the tokens, keys in another order, pretty-printed, \
         with stale statistics. Loaded sets and token counts compared (also with a reference segmentation), through the API and convert-tokens. \
         Non-trivial: the other spelling uses an older type name, omits something, permutes sequences or extension tokens, or writes lists.",
    );
    fn gen(ctx: &Ctx) -> BoxedStrategy<Case> {
        let how = (
            (any::<bool>(), any::<bool>(), any::<bool>(), any::<bool>(), any::<bool>(), any::<bool>(), any::<bool>()),
            (prop_oneof![Just(0u32), any::<u32>()], prop_oneof![3 => Just(0u32), 1 => any::<u32>()], prop_oneof![Just(0u32), Just(1), any::<u32>()], prop_oneof![Just(0u32), any::<u32>()]),
        )
            .prop_map(|((old_type, omit_split, omit_seqs, pretty, stats, escape, mix_ext), (permute_seqs, permute_strings, lists, key_order))| Spelling {
                old_type,
                omit_split,
                omit_seqs,
                permute_seqs,
                permute_strings,
                lists,
                pretty,
                key_order,
                stats,
                escape,
                mix_ext,
            });
        let piece = (any::<u16>(), 1usize..6, vec(any::<u16>(), 1..5));
        bx((set_and_texts(ctx, 1..4, 25), how, prop_oneof![2 => Just(vec![]), 1 => vec(piece, 1..4)]).prop_map(|((set, texts), how, pieces)| {
            let all = texts.concat();
            let further = pieces
                .into_iter()
                .filter(|_| !all.is_empty())
                .map(|(at, len, code)| {
                    let at = at as usize % all.len();
                    (all[at..(at + len).min(all.len())].to_vec(), code)
                })
                .collect();
            Case { set, how, texts, further }
        }))
    }
    r.sub("api", 8_000, 400_000, |ctx| gen(ctx), |c: &Case, _, o| check(c, o));
    r.sub_opts("command", 800, 30_000, SHARDS, 200, |ctx| gen(ctx), |c: &Case, ctx, o| command(c, ctx, o));
    r.finish()
}
