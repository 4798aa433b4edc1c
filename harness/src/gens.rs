//! Text generators shared by several properties.
use crate::dict::Dict;
use crate::run::{bx, Ctx};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;

/// Letters whose case mappings are irregular, plus odd members of the
/// Alphabetic class.
pub const IRREGULAR: &[char] = &[
    'İ', 'ı', 'ẞ', 'ß', '\u{212a}', '\u{2126}', '\u{212b}', 'ϴ', 'θ', 'ǅ', 'Ǆ', 'ǆ', 'ǈ', 'ǋ', 'ǲ', 'ŉ',
    'ﬁ', 'ﬀ', 'ﬓ', 'ᾳ', 'ᾼ', 'ΐ', '\u{345}', 'ª', 'º', 'ʰ', 'Ⓐ', 'ⓐ', '𝐀', '𝐚', 'ⅷ', 'Ⅷ', 'ς', 'σ', 'Σ',
    'ῼ', 'ᾈ', 'Ω', 'ω', 'Ა', 'ა', 'Ⴀ', 'ⴀ', 'Ꭰ', 'ꭰ', 'ᏸ', '𐐀', '𐐨', 'ꟲ', 'ϒ', 'ϓ', 'µ', 'Μ', 'μ', 'ſ', 'S',
    'ẛ', 'Ṡ', 'ẖ', 'ǰ', 'ᲀ', 'В', 'ꙋ', 'Ꙋ', 'ᵹ', 'Ᵹ', 'ȷ', 'ĸ', 'ƛ', 'ꭓ', 'Ꭓ',
];

pub const ODD: &[char] = &[
    '\u{301}', '\u{307}', '\u{323}', '\u{200d}', '\u{200b}', '\u{feff}', '\u{a0}', '\u{2003}', '\u{3000}',
    '\u{85}', '\u{2028}', '\u{2029}', '\0', '\u{1}', '\u{1b}', '\u{7f}', '\u{b}', '\u{c}', '٣', '½', '²', '😀', '👩', '🏽', '\u{fffd}',
    '\u{10ffff}', '\u{10000}', '\u{ffff}', '\u{800}', '\u{7ff}', '\u{80}', '中', '日', 'ا', 'ﷺ', 'ก', 'ำ', 'न', 'ि', '한', '々', 'ー', '_', '-', '\'', '’', '"', '.', ',', '!', '0', '7', '9',
];

const LOWERS: &[&str] = &["abcdefghijklmnopqrstuvwxyz", "абвгдеёжзийяюў", "αβγδεζσςωάή", "éüßñçøåæœþ", "աբգդև", "ꭰꭱᏸ", "ⴀⴁ", "𐐨𐐩𐓘", "ǆǉ", "ﬁﬂ", "აბგ"];
const UPPERS: &[&str] = &["ABCDEFGHIJKLMNOPQRSTUVWXYZ", "АБВГДЕЁЖЯЮЎ", "ΑΒΓΔΕΣΩΆΉ", "ÉÜÑÇØÅÆŒÞ", "ԱԲԳԴ", "ᎠᎡᏰ", "ႠႡ", "𐐀𐐁𐒰", "ǄǇ", "İẞ", "ᲐᲑᲒ"];
const CASELESS: &[&str] = &["中文字日本", "שלום", "عربي", "กขค", "한글", "ªºʰ", "ǅǈǋ", "々〆"];

fn pick(s: &'static str) -> BoxedStrategy<char> {
    bx(proptest::sample::select(s.chars().collect::<Vec<_>>()))
}

/// Heavily ASCII, sometimes another script.
fn script() -> BoxedStrategy<usize> {
    bx(prop_oneof![6 => Just(0usize), 4 => 0..LOWERS.len()])
}

pub fn chars_of(len: std::ops::Range<usize>, c: BoxedStrategy<char>) -> BoxedStrategy<String> {
    bx(proptest::collection::vec(c, len).prop_map(|v| v.into_iter().collect::<String>()))
}

pub fn word() -> BoxedStrategy<String> {
    let w = |min: usize, max: usize| {
        script().prop_flat_map(move |s| {
            let (lo, up) = (pick(LOWERS[s]), pick(UPPERS[s]));
            prop_oneof![
                4 => chars_of(min..max, lo.clone()),
                4 => (up.clone(), chars_of(min - 1..max, lo.clone())).prop_map(|(a, b)| format!("{a}{b}")),
                4 => chars_of(min..max, up.clone()),
                3 => chars_of(min..max, bx(prop_oneof![lo.clone(), up.clone()])),
                1 => (chars_of(min..max, lo.clone()), up.clone()).prop_map(|(a, b)| format!("{a}{b}")),
                1 => (up.clone(), chars_of(min..max, lo)).prop_map(|(a, b)| format!("{b}{a}")),
            ]
        })
    };
    let caseless = (0..CASELESS.len()).prop_flat_map(|i| chars_of(1..4, pick(CASELESS[i])));
    let irregular = proptest::collection::vec(
        prop_oneof![
            3 => proptest::sample::select(IRREGULAR),
            2 => pick("abcXYZ"),
            1 => pick("бДσΣ"),
        ],
        1..5,
    )
    .prop_map(|v| v.into_iter().collect::<String>());
    bx(prop_oneof![
        14 => w(1, 6),
        2 => caseless,
        4 => irregular,
    ])
}

pub fn long_word() -> BoxedStrategy<String> {
    // one letter pattern repeated, so that a long word shrinks fast
    bx((word(), 1usize..400).prop_map(|(w, n)| {
        let mut s = w.repeat(n);
        while s.len() > 2000 {
            s.pop();
        }
        s
    }))
}

pub fn gap() -> BoxedStrategy<String> {
    let fixed = proptest::sample::select(vec![
        " ", " ", " ", " ", " ", " ", "  ", "   ", "    ", "\n", "\n", "\n\n", "\n\n\n", " \n", "\n ", "  \n", "\t", ", ", ". ", "! ", "-", "'", "’", "\r\n", "\r", "\r\n\r\n",
        "\u{a0}", "\u{3000}", "1", "42 ", " 7", "_", "", ".", "\" ", "(", ") ", " - ", "\0", "\u{301}", "\u{301} ", " \u{301}", "😀", " 😀 ",
    ])
    .prop_map(|s| s.to_string());
    let many = (1usize..40).prop_map(|n| " ".repeat(n));
    let odd = proptest::collection::vec(proptest::sample::select(ODD), 1..4).prop_map(|v| v.into_iter().collect::<String>());
    bx(prop_oneof![16 => fixed, 1 => many, 3 => odd])
}

pub fn any_char(d: &Dict) -> BoxedStrategy<char> {
    let mut near: Vec<char> = d.chars.clone();
    if near.is_empty() {
        near.push('a');
    }
    bx(prop_oneof![
        3 => proptest::char::any(),
        2 => proptest::char::range('\0', '\u{ff}'),
        2 => proptest::sample::select(IRREGULAR),
        2 => proptest::sample::select(ODD),
        2 => proptest::sample::select(near),
    ])
}

fn dict_str(d: &Dict) -> BoxedStrategy<String> {
    let mut v: Vec<String> = d.strs.clone();
    v.push("Ab cD".into());
    bx(proptest::sample::select(v))
}

/// Pieces of text: words, gaps, odd characters.
pub fn piece(ctx: &Ctx) -> BoxedStrategy<String> {
    let d = &ctx.dict;
    bx(prop_oneof![
        12 => word(),
        12 => gap(),
        6 => (word(), gap()).prop_map(|(a, b)| a + &b),
        1 => long_word(),
        2 => any_char(d).prop_map(|c| c.to_string()),
        1 => dict_str(d),
    ])
}

/// Natural-looking text of the given number of pieces.
pub fn text(ctx: &Ctx, n: std::ops::Range<usize>) -> BoxedStrategy<String> {
    bx(proptest::collection::vec(piece(ctx), n).prop_map(|v| v.concat()))
}

/// Mostly small texts, some with many pieces, some with a repeated part.
pub fn mixed_text(ctx: &Ctx, large: usize) -> BoxedStrategy<String> {
    let ws = proptest::collection::vec((word(), gap()).prop_map(|(a, b)| a + &b), 1..12).prop_map(|v| v.concat());
    let lens = {
        let mut v = ctx.dict.near(1, 5000);
        v.extend([255, 256, 257, 1023, 1024, 4096]);
        v
    };
    bx(prop_oneof![
        10 => text(ctx, 0..8),
        8 => ws,
        3 => text(ctx, 8..40),
        1 => text(ctx, 40..large.max(41)),
        2 => (text(ctx, 1..4), 1usize..60, text(ctx, 0..3)).prop_map(|(t, n, u)| {
            let n = n.min(1 + 20000 / (t.len() + 1));
            t.repeat(n) + &u
        }),
        // one unit repeated a number of times that occurs in the sources
        1 => (prop_oneof![word(), gap(), any_char(&ctx.dict).prop_map(|c| c.to_string()), piece(ctx)], proptest::sample::select(lens), text(ctx, 0..3))
            .prop_map(|(w, n, u)| {
                let n = (n as usize).min(1 + 40000 / (w.len() + 1));
                w.repeat(n) + &u
            }),
        1 => chars_of(0..12, any_char(&ctx.dict)),
    ])
}

pub fn strip_markers(s: &str) -> String {
    s.chars().filter(|c| !matches!(c, '\x14' | '\x15' | '\x16')).collect()
}

/// The program's tokenizer takes time cubic in the length of a token, and very
/// repetitive data leads to tokens as long as the data: shorten such data.
pub fn cap_repetitive(s: String) -> String {
    let b = s.as_bytes();
    if b.len() < 160 {
        return s;
    }
    let grams: std::collections::HashSet<&[u8]> = b.windows(6).collect();
    let share = grams.len() as f64 / b.len() as f64;
    let max = if share < 0.08 {
        160
    } else if share < 0.25 {
        400
    } else {
        4000
    };
    let mut end = max.min(s.len());
    while !s.is_char_boundary(end) {
        end -= 1;
    }
    s[..end].to_string()
}

/// Training data for the optimizer: repetitive, paragraph structured.
pub fn training_text(ctx: &Ctx) -> BoxedStrategy<String> {
    let vocab = proptest::collection::vec(prop_oneof![6 => word(), 1 => any_char(&ctx.dict).prop_map(|c| c.to_string()), 1 => dict_str(&ctx.dict)], 1..10);
    let seps = proptest::collection::vec(
        proptest::sample::select(vec![" ", " ", " ", " ", ", ", ". ", "\n", "\n\n", "\n\n", "\n\n\n", "-", "", "  ", "\n \n", "\r\n", "\t"]),
        1..6,
    );
    let picks = prop_oneof![
        3 => proptest::collection::vec((any::<u8>(), any::<u8>()), 1..30),
        4 => proptest::collection::vec((any::<u8>(), any::<u8>()), 30..250),
        1 => proptest::collection::vec((any::<u8>(), any::<u8>()), 250..700),
    ];
    let sentences = (vocab, seps, picks, 1usize..4).prop_map(|(v, s, p, rep)| {
        let mut t = String::new();
        for (a, b) in p {
            // skewed choice of words
            let i = (a as usize * a as usize / 256) * v.len() / 256;
            t.push_str(&v[i.min(v.len() - 1)]);
            t.push_str(s[b as usize % s.len()]);
        }
        t.repeat(rep)
    });
    let runs = proptest::collection::vec((proptest::sample::select(vec!["a", "b", "ab", "ba", "aa", "\n", "\n\n", "a\n\n", "\n\na", " ", "A", "AB ", "é", "中", "aab"]), 1usize..60), 1..8)
        .prop_map(|v| v.into_iter().map(|(s, n)| s.repeat(n)).collect::<String>());
    let nonempty = |s: String| if s.is_empty() { "a".to_string() } else { cap_repetitive(s) };
    bx(prop_oneof![
        6 => sentences,
        3 => runs,
        1 => mixed_text(ctx, 60),
        1 => text(ctx, 1..6),
    ]
    .prop_map(nonempty))
}
