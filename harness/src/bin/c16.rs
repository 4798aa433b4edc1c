//! C16: statistics written by optimize are true.
#[path = "../opt.rs"]
mod opt;
#[path = "../api.rs"]
mod api;
use opt::*;
use texmo::verif::stats2::TokenStats;
use texmo::verif::tokenset::TokenSet;
use vh::pp::*;
use serde::{Deserialize, Serialize};
use vh::cli::Scratch;
use vh::refs::check_stats;
use vh::run::*;

fn check(c: &OptCase, ctx: &Ctx, o: &mut Obs) -> CheckResult {
    let sc = Scratch::new();
    let processed = c.processed();
    let link = hash_of(&c.text) % 3 == 0;
    o.label_if(link, "data given by a symbolic link");
    let data = sc.write_by("data.txt", c.text.as_bytes(), link);
    let init = c.init_set(&processed).map(|i| sc.write("init.json", i.to_text().as_bytes()));
    let init = init.as_ref().map(|p| p.to_str().unwrap());
    let out = optimize(ctx, &sc, c, "out", data.to_str().unwrap(), None, init)?;
    // cuts between samples (1 MiB) may cost a little
    let slack = if processed.len() < 1 << 20 { 0 } else { (processed.len() as u64 >> 19) * 64 };
    let min = out.set.segmenter().min_cost(processed.as_bytes()).ok_or("the set can't encode the data")?;
    check_stats(&out.set, min..=min + slack, processed.len() as u64, c.text.len() as u64)?;
    // supplied processed data instead
    // (which has no say without caps-words processing)
    let pd = sc.write("processed.txt", if c.caps { processed.clone() } else { vh::refs::ref_process(&c.text) + "\nand more" }.as_bytes());
    let second = optimize(ctx, &sc, c, "out2", data.to_str().unwrap(), Some(pd.to_str().unwrap()), init)?;
    if second.name != out.name || second.raw != out.raw {
        return Err(format!("with the processed data supplied the result is another one: {} ({} bytes) instead of {} ({} bytes)", second.name, second.raw.len(), out.name, out.raw.len()));
    }
    o.label_if(processed.len() != c.text.len(), "processing changes the size");
    o.label_if(processed.len() > 1 << 20, "several samples");
    label_case(c, &out, o);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Big {
    kind: u8,
    caps: bool,
    n: u64,
    size: usize,
    unit: String,
}

/// Sparse data of several GiB.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Huge {
    kind: u8,
    n: u64,
    blocks: u64,
}

/// Statistics as of data of any size.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Num {
    total: u64,
    scanned: u64,
    initial: Option<u64>,
}

fn num(c: &Num, o: &mut Obs) -> CheckResult {
    let ts = TokenSet::new_bits4(texmo::verif::processing::Processing::Raw, true);
    let mut st = TokenStats::new(ts, c.initial);
    st.total_tokens = c.total;
    st.scanned_bytes = c.scanned;
    let text = serde_json::to_string(&st.to_json()).map_err(|e| e.to_string())?;
    let v: serde_json::Value = serde_json::from_str(&text).map_err(|e| e.to_string())?;
    let s = &v["stats"];
    for (k, want) in [("ntokens", 16), ("total_tokens", c.total), ("scanned_bytes", c.scanned)] {
        if s[k].as_u64() != Some(want) {
            return Err(format!("{k} {want} is written as {}", s[k]));
        }
    }
    match c.initial {
        None => {
            if s.get("initial_size").is_some_and(|x| !x.is_null()) || s.get("bytes_per_token").is_some_and(|x| !x.is_null()) {
                return Err(format!("without an original size: {s}"));
            }
        }
        Some(i) => {
            if s["initial_size"].as_u64() != Some(i) {
                return Err(format!("initial_size {i} is written as {}", s["initial_size"]));
            }
            let want = i as f64 / c.total as f64;
            match s["bytes_per_token"].as_f64() {
                Some(b) if c.total > 0 && (b - want).abs() <= want * 1e-12 => {}
                None if c.total == 0 => {}
                b => return Err(format!("{i} bytes, {} tokens: bytes_per_token {b:?}", c.total)),
            }
        }
    }
    o.nontrivial(c.total > 1 << 32 || c.scanned > 1 << 32);
    Ok(())
}

fn main() {
    let mut r = Runner::new(
        "C16",
        "optimize runs as in C15; the statistics are recomputed by a reference segmentation of the reference-processed text with the set in the \
         file; every run is repeated with the processed data supplied and must give the identical file. Texts of several samples (1-3 MiB) for \
         small sets; sparse data of over 4 GiB. The way statistics of up to 2^62 tokens and bytes are written (by TokenStats::to_json). Non-trivial as in C15 (numbers: beyond 2^32).",
    );
    r.sub_opts("random", 900, 60_000, SHARDS, 150, |ctx| opt_case(ctx, 2, 22), |c: &OptCase, ctx, o| check(c, ctx, o));
    r.sub(
        "numbers",
        20_000,
        1_000_000,
        |_| bx((api::huge(), api::huge(), vh::proptest::option::of(api::huge())).prop_map(|(total, scanned, initial)| Num { total, scanned, initial })),
        |c: &Num, _, o| num(c, o),
    );
    let mut cases = Vec::new();
    for (kind, caps, n, size) in [(0u8, false, 4u64, (1usize << 20) + 3), (3, true, 257, 2_500_000), (4, false, 5, 1_300_000), (2, true, 18, 1 << 20), (1, true, 6, 3_000_000)] {
        for unit in ["The cat sat.\n\nOn 中 mats, ALL day\n", "abc déf "] {
            cases.push(Big { kind, caps, n, size, unit: unit.to_string() });
        }
    }
    r.enumerate(
        "big",
        cases,
        5,
        |c| if c.size > 4 { vec![Big { size: c.size / 2, ..c.clone() }] } else { vec![] },
        |c: &Big, ctx, o| {
            // not quite periodic
            let mut t = String::new();
            let mut i = 0u64;
            while t.len() < c.size {
                t.push_str(&c.unit);
                if i % 7 == 3 {
                    t.push_str(&(i * 7919 % 1000).to_string());
                }
                i += 1;
            }
            check(&OptCase { kind: c.kind, caps: c.caps, n: c.n, text: t, init: None, min_data_size: None }, ctx, o)
        },
    );
    let mut cases = vec![Huge { kind: 3, n: 256, blocks: 4100 }];
    if r.ctx.thorough {
        // from 16 GiB on the data is not read into memory
        cases.push(Huge { kind: 3, n: 256, blocks: (1 << 14) + 1 });
        cases.push(Huge { kind: 0, n: 3, blocks: 4200 });
        cases.push(Huge { kind: 4, n: 3, blocks: (1 << 14) + 5 });
    }
    r.enumerate("huge", cases, 1, |c| vec![Huge { blocks: c.blocks / 2, ..c.clone() }], |c: &Huge, ctx, o| {
        let sc = Scratch::new();
        let (data, block) = sc.sparse("data.txt", c.blocks, "some text.");
        let oc = OptCase { kind: c.kind, caps: false, n: c.n, text: String::from_utf8(block.clone()).unwrap(), init: None, min_data_size: None };
        let out = optimize_limited(ctx, &sc, &oc, "out", data.to_str().unwrap(), None, None, 5000)?;
        judge_set(&oc, &out)?;
        let total = c.blocks * out.set.segmenter().min_cost(&block).ok_or("the set can't encode the data")?;
        // cuts between samples may cost a little
        check_stats(&out.set, total..=total + c.blocks, c.blocks << 20, c.blocks << 20)?;
        o.label("data of over 4 GiB");
        o.label_if(c.blocks >= 1 << 14, "data of over 16 GiB");
        o.nontrivial(true);
        Ok(())
    });
    r.finish()
}
