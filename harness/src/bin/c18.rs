//! C18: optimizing with growing samples works for every data size.
#[path = "../opt.rs"]
mod opt;
use opt::*;
use serde::{Deserialize, Serialize};
use vh::cli::Scratch;
use vh::pp::*;
use vh::proptest::sample::select;
use vh::refs::{blank_line_inside, check_stats, contains, show};
use vh::run::*;

fn check(c: &OptCase, ctx: &Ctx, slack: u64, o: &mut Obs) -> CheckResult {
    let sc = Scratch::new();
    let processed = c.processed();
    let data = sc.write("data.txt", c.text.as_bytes());
    let init = c.init_set(&processed);
    let init_file = init.as_ref().map(|i| sc.write("init.json", i.to_text().as_bytes()));
    let out = optimize(ctx, &sc, c, "out", data.to_str().unwrap(), None, init_file.as_ref().map(|p| p.to_str().unwrap()))?;
    let at = |e: String| format!("{} bytes of data, initial sample size {:?}: {e}", processed.len(), c.min_data_size);
    judge_set(c, &out).map_err(at)?;
    let min = out.set.segmenter().min_cost(processed.as_bytes()).ok_or("the set can't encode the data")?;
    check_stats(&out.set, min..=min + slack, processed.len() as u64, c.text.len() as u64).map_err(at)?;
    let given: Vec<&Vec<u8>> = init.iter().flat_map(|i| i.long_tokens()).collect();
    for l in out.set.long_tokens() {
        // a sample joins paragraphs that are not neighbours; tokens ending
        // with the newlines between paragraphs are in the text nevertheless
        if !given.contains(&l) && blank_line_inside(l) {
            return Err(at(format!("token {} goes on after a blank line", show(l))));
        }
        if c.min_data_size.map(|m| m >= processed.len() as u64).unwrap_or(true) && !given.contains(&l) && !contains(processed.as_bytes(), l) {
            return Err(at(format!("token {} does not occur in the processed text", show(l))));
        }
    }
    let m = c.min_data_size.unwrap_or(0);
    let n = processed.len() as u64;
    o.label_if(m < n, "sample smaller than the data");
    o.label_if(m == n, "sample size equals the data's size");
    o.label_if(m > n, "sample size beyond the data");
    o.label_if(m > 0 && m * 4 < n, "three and more rounds");
    label_case(c, &out, o);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Big {
    kind: u8,
    n: u64,
    size: usize,
    min: u64,
}

fn main() {
    let mut r = Runner::new(
        "C18",
        "optimize runs as in C15 with an initial sample size from 1 to beyond the data, biased to the data's size and its halves; the file is judged \
         like in C15 and C16 against the full data. Data of 36 MiB with samples above 16 MiB for the early stop. Non-trivial as in C15.",
    );
    r.sub_opts(
        "random",
        700,
        50_000,
        SHARDS,
        150,
        |ctx| {
            let mut near = ctx.dict.near(1, 1 << 40);
            near.push(1);
            bx((
                opt_case(ctx, 2, 16),
                prop_oneof![
                    3 => (1u64..1000).prop_map(|v| (0u8, v)),
                    3 => (0u64..40).prop_map(|v| (1u8, v)),
                    1 => (1u64..20).prop_map(|v| (2u8, v)),
                    1 => select(near).prop_map(|v| (2u8, v)),
                ],
            )
                .prop_map(|(mut c, (how, v))| {
                    // several optimizations in one run
                    shorten(&mut c.text, 1000);
                    let n = c.processed().len() as u64;
                    c.min_data_size = Some(
                        match how {
                            0 => n * v / 700,
                            // n, n/2, n/4, ... and neighbours
                            1 => (n >> (v / 8)).saturating_add(v % 8).saturating_sub(3),
                            _ => v,
                        }
                        .max(1),
                    );
                    c
                }))
        },
        |c: &OptCase, ctx, o| check(c, ctx, 0, o),
    );
    let mut cases = vec![
        Big { kind: 0, n: 3, size: 36 << 20, min: (1 << 24) + 5 },
        Big { kind: 3, n: 257, size: 40 << 20, min: 5 << 22 },
        Big { kind: 4, n: 4, size: 17 << 20, min: 1 << 24 },
    ];
    if r.ctx.thorough {
        cases.push(Big { kind: 1, n: 7, size: 70 << 20, min: 1 << 23 });
        cases.push(Big { kind: 2, n: 18, size: 50 << 20, min: 1 << 24 });
    }
    r.enumerate(
        "big",
        cases,
        2,
        |_| vec![],
        |c: &Big, ctx, o| {
            let words = ["the ", "of ", "cat ", "中 ", "a\n", "end.\n\n", "x", "Is "];
            let mut x = 77u64;
            let mut t = String::with_capacity(c.size + 8);
            while t.len() < c.size {
                x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                // the first half has other frequencies than the second one
                let i = (x >> 60) as usize;
                t.push_str(words[if t.len() < c.size / 2 { i % 8 } else { (i * i / 3) % 8 }]);
            }
            o.label("data of over 16 MiB");
            check(&OptCase { kind: c.kind, caps: false, n: c.n, text: t, init: None, min_data_size: Some(c.min) }, ctx, (c.size as u64 >> 23) * 64, o)
        },
    );
    if r.ctx.thorough {
        let cases = vec![(3u8, 256u64, 4200u64, 3u64 << 30), (3, 257, 4200, 700 << 20), (4, 3, 6000, (1 << 32) + 5)];
        r.enumerate("huge", cases, 1, |_| vec![], |c: &(u8, u64, u64, u64), ctx, o| {
            let (kind, n, blocks, min) = *c;
            let sc = Scratch::new();
            let (data, block) = sc.sparse("data.txt", blocks, "some text.");
            let oc = OptCase { kind, caps: false, n, text: String::from_utf8(block.clone()).unwrap(), init: None, min_data_size: Some(min) };
            let out = optimize_limited(ctx, &sc, &oc, "out", data.to_str().unwrap(), None, None, 20_000)?;
            judge_set(&oc, &out)?;
            let total = blocks * out.set.segmenter().min_cost(&block).ok_or("the set can't encode the data")?;
            vh::refs::check_stats(&out.set, total..=total + blocks, blocks << 20, blocks << 20)?;
            o.label("data of over 4 GiB");
            o.nontrivial(true);
            Ok(())
        });
    }
    r.finish()
}
