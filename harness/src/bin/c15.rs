//! C15: optimize always produces a well-formed token set.
#[path = "../opt.rs"]
mod opt;
use opt::*;
use vh::cli::Scratch;
use vh::gens;
use vh::pp::*;
use vh::proptest::sample::select;
use vh::refs::{blank_line_inside, contains, show};
use vh::run::*;

fn check(c: &OptCase, ctx: &Ctx, o: &mut Obs) -> CheckResult {
    let sc = Scratch::new();
    let processed = c.processed();
    let data = sc.write("data.txt", c.text.as_bytes());
    let init = c.init_set(&processed);
    let init_file = init.as_ref().map(|i| sc.write("init.json", i.to_text().as_bytes()));
    let out = optimize(ctx, &sc, c, "out", data.to_str().unwrap(), None, init_file.as_ref().map(|p| p.to_str().unwrap()))?;
    judge_set(c, &out)?;
    let split = init.as_ref().map_or(Some(true), |i| i.split);
    if out.set.split != split {
        return Err(format!("paragraph setting {:?} instead of {split:?}", out.set.split));
    }
    let given: Vec<&Vec<u8>> = init.iter().flat_map(|i| i.long_tokens()).collect();
    for l in out.set.long_tokens() {
        if given.contains(&l) {
            continue;
        }
        if !contains(processed.as_bytes(), l) {
            return Err(format!("token {} does not occur in the processed text", show(l)));
        }
        if blank_line_inside(l) {
            return Err(format!("token {} goes on after a blank line", show(l)));
        }
        o.label("multi-byte tokens created");
    }
    o.label_if(c.text.contains("\n\n"), "text with blank lines");
    label_case(c, &out, o);
    Ok(())
}

fn main() {
    let mut r = Runner::new(
        "C15",
        "the optimize command on training texts (skewed vocabularies with paragraphs and odd separators, repetitive runs, arbitrary texts) with all \
         types and processings and from the smallest number of tokens to beyond a token for every byte; some with an initial set; tiny texts with up \
         to tens of thousands of tokens. The file is judged by an independent reader. Non-trivial: the result has multi-byte tokens or at least two \
         byte tokens besides extension tokens.",
    );
    r.sub_opts("random", 900, 80_000, SHARDS, 150, |ctx| opt_case(ctx, 2, 26), |c: &OptCase, ctx, o| check(c, ctx, o));
    // many tokens, little data: nothing left to merge
    r.sub_opts(
        "plenty",
        160,
        12_000,
        SHARDS,
        150,
        |ctx| {
            let mut near = ctx.dict.near(280, 70_000);
            near.extend([300, 1000, 32_768, 65_536, 50_000]);
            bx((
                0u8..5,
                any::<bool>(),
                prop_oneof![3 => gens::training_text(ctx), 2 => select(vec!["a", "\n\n", "\n\nb", "a\n\nb", "aa", "中", "\n\na\n\na\n\na", "abababab"]).prop_map(|s| s.to_string())],
                prop_oneof![1 => select(near), 1 => 258u64..330],
            )
                .prop_map(|(kind, caps, text, n)| {
                    let mut text = gens::strip_markers(&text);
                    shorten(&mut text, 50);
                    OptCase { kind, caps, n, text, init: None, min_data_size: None }
                }))
        },
        |c: &OptCase, ctx, o| {
            o.label("far more tokens than data");
            check(c, ctx, o)
        },
    );
    r.finish()
}
