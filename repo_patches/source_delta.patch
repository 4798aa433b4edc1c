From d0923b7419b081c99099c41911878bb0b239495b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 01/20] Add verification re-exports behind cfg(texmo_verif)

---
 src/main.rs | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 084d31b..643cfaa 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,4 +1,5 @@
 #![allow(dead_code)]
+#![allow(unexpected_cfgs)]
 
 use clap::{Parser, Subcommand};
 use serde_json::Value;
@@ -346,3 +347,30 @@ fn main() {
         Command::CountChars { data } => count_chars(data.as_str()),
     }
 }
+
+/// Re-exports for an external verification harness, which builds this file as
+/// a library with `--cfg texmo_verif`. Never compiled otherwise.
+#[cfg(texmo_verif)]
+pub mod verif {
+    pub mod batch_tokenize {
+        pub use crate::batch_tokenize::*;
+    }
+    pub mod input {
+        pub use crate::input::*;
+    }
+    pub mod optimize_bytes {
+        pub use crate::optimize_bytes::*;
+    }
+    pub mod processing {
+        pub use crate::processing::*;
+    }
+    pub mod stats2 {
+        pub use crate::stats2::*;
+    }
+    pub mod tokenizer2 {
+        pub use crate::tokenizer2::*;
+    }
+    pub mod tokenset {
+        pub use crate::tokenset::*;
+    }
+}
-- 
2.43.0


From 6ab9d6b5ca5ab65f42594594a94ccd3347125867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 02/20] fix: keep words whose lowercase form can't be restored
 unchanged
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Letters such as 'İ', 'ẞ', the Kelvin and Ohm signs are changed by a round
trip through lowercase, so marking and lowercasing a word that starts with
(or, for all-caps, contains) one of them lost the original text.
---
 src/processing.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/processing.rs b/src/processing.rs
index 1212967..de4f554 100644
--- a/src/processing.rs
+++ b/src/processing.rs
@@ -39,6 +39,12 @@ fn get_char_type(ch: char) -> CharType {
     }
 }
 
+/// Some letters (e.g. 'İ', 'ẞ' or the Kelvin sign) can't be restored from their
+/// lowercase form. Words where this matters are written as is.
+fn survives_lowercasing(s: &str) -> bool {
+    s.to_lowercase().to_uppercase() == s
+}
+
 fn add_word(out: &mut String, word: &str) {
     assert!(!word.is_empty());
 
@@ -47,11 +53,12 @@ fn add_word(out: &mut String, word: &str) {
     let rest = chars.as_str();
 
     if first.is_uppercase() {
-        if rest.chars().all(|ch| ch.is_lowercase()) {
+        let first_str = &word[..first.len_utf8()];
+        if rest.chars().all(|ch| ch.is_lowercase()) && survives_lowercasing(first_str) {
             out.push('\x14');
             out.push(first.to_lowercase().next().unwrap());
             out.push_str(rest);
-        } else if rest.chars().all(|ch| ch.is_uppercase()) {
+        } else if rest.chars().all(|ch| ch.is_uppercase()) && survives_lowercasing(word) {
             out.push('\x15');
             out.push_str(word.to_lowercase().as_str());
         } else {
-- 
2.43.0


From 1b80a933b60af8d15ac9758c49e84211b769e094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 03/20] fix: keep line ends as they are when processing a file

lines() drops the '\r' of CRLF line ends, and a newline was appended to
files that don't end with one.
---
 src/processing.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/processing.rs b/src/processing.rs
index de4f554..e8d3fcd 100644
--- a/src/processing.rs
+++ b/src/processing.rs
@@ -136,14 +136,14 @@ pub fn process(text: &str) -> String {
 }
 
 pub fn process_file<R: Read, W: Write>(input: &mut R, output: &mut W) -> io::Result<()> {
-    let reader = BufReader::new(input);
+    let mut reader = BufReader::new(input);
     let mut writer = BufWriter::new(output);
+    let mut line = String::new();
 
-    for line in reader.lines() {
-        let line = line?;
+    while reader.read_line(&mut line)? > 0 {
         let processed = process(&line);
         writer.write_all(processed.as_bytes())?;
-        writer.write(b"\n")?;
+        line.clear();
     }
 
     Ok(())
-- 
2.43.0


From 323209e10e92fa4380a9bf23961c19d3f7cedc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 04/20] fix: report errors of the last write when processing a
 file

BufWriter swallows errors when it is dropped, so a full disk could lead to a
truncated output with a successful exit.
---
 src/processing.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/processing.rs b/src/processing.rs
index e8d3fcd..ce3d1dc 100644
--- a/src/processing.rs
+++ b/src/processing.rs
@@ -146,6 +146,8 @@ pub fn process_file<R: Read, W: Write>(input: &mut R, output: &mut W) -> io::Res
         line.clear();
     }
 
+    writer.flush()?;
+
     Ok(())
 }
 
-- 
2.43.0


From 2f5bba6a7c4c2692a775151f746d0700b19b9581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 05/20] fix: don't duplicate sequences when loading a bits
 token set

The constructors of bits1/bits2/bits4 sets already add a sequence for every
byte, the sequences from the file were added on top of them and tokenizing
with such a set panicked.
---
 src/tokenset.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tokenset.rs b/src/tokenset.rs
index b0d15ee..a9ffc17 100644
--- a/src/tokenset.rs
+++ b/src/tokenset.rs
@@ -291,6 +291,8 @@ impl TokenSet {
         }
 
         if value.as_object().unwrap().contains_key("sequences") {
+            // The listed sequences replace the default ones.
+            token_set.sequences.clear();
             for seq in value["sequences"].as_array().unwrap().iter() {
                 let string = if let Token::Str(s) = parse_token(&seq["string"]) { s } else {panic!()};
                 let mut tokens = Vec::new();
-- 
2.43.0


From e2e51dea529e37b7790296018232ca06c85ce3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 06/20] fix: read split_paragraphs under the name it is written

---
 src/tokenset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tokenset.rs b/src/tokenset.rs
index a9ffc17..f7505cf 100644
--- a/src/tokenset.rs
+++ b/src/tokenset.rs
@@ -259,7 +259,7 @@ impl TokenSet {
             Some("byteshuff") => TokenType::BytesHuff,
             _ => panic!("Unknown token type"),
         };
-        let split_paragraphs = match value.get("split_paragraph") {
+        let split_paragraphs = match value.get("split_paragraphs") {
             None => false,
             Some(&Value::Bool(v)) => v,
             _ => panic!("Can't parse split_paragraphs field."),
-- 
2.43.0


From bc205ccf772ab06ea627bd2334fb6e250549a09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 07/20] fix: don't select more than 256 byte tokens

Optimizing a bits4 token set with more than 272 tokens (bits2: 260, bits1:
258) went out of the bounds of the list of bytes.
---
 src/optimize_bytes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optimize_bytes.rs b/src/optimize_bytes.rs
index 0220410..5eaad01 100644
--- a/src/optimize_bytes.rs
+++ b/src/optimize_bytes.rs
@@ -36,7 +36,7 @@ impl BytesOptimizer for SimpleBytesOptimizer {
 
         let mut bytes = (0..=255).collect::<Vec<u8>>();
         bytes.sort_by_key(|&i| -byte_counts[i as usize]);
-        let selected_bytes = &bytes[..n_byte_tokens];
+        let selected_bytes = &bytes[..min(n_byte_tokens, bytes.len())];
 
         let mut new_token_set = match stats.token_set.token_type {
             TokenType::Bits1 => {
-- 
2.43.0


From 02df937a4df3e58217da8a1184e204bf7f1e8bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 08/20] fix: don't add an invalid token when there is no valid
 pair

If none of the pairs gave a valid token, the last invalid one (spanning a
paragraph boundary) was added with a count of 0.
---
 src/optimize.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/optimize.rs b/src/optimize.rs
index c3e747f..0189cec 100644
--- a/src/optimize.rs
+++ b/src/optimize.rs
@@ -61,7 +61,7 @@ fn add_token_bpe(stats: &TokenStats) -> Option<(TokenSet, i64)> {
         let itoken1 = pair_idx / stats.ntokens();
         let itoken2 = pair_idx % stats.ntokens();
 
-        new_token = match (
+        let candidate = match (
             &stats.token_set.tokens[itoken1],
             &stats.token_set.tokens[itoken2],
         ) {
@@ -71,7 +71,8 @@ fn add_token_bpe(stats: &TokenStats) -> Option<(TokenSet, i64)> {
             _ => unreachable!(),
         };
 
-        if is_valid_token(&new_token) {
+        if is_valid_token(&candidate) {
+            new_token = candidate;
             token_count = stats.pair_counts[pair_idx];
             break;
         }
-- 
2.43.0


From 10343f73d24e23f2e03cab0c0763a2f6055ba869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 09/20] fix: don't split characters between samples

In data without blank lines a sample could end in the middle of a multi-byte
character. FileSampler panicked on it, MemorySampler replaced both halves
with U+FFFD.
---
 src/input/file_sampler.rs   | 3 ++-
 src/input/memory_sampler.rs | 4 +++-
 src/input/util.rs           | 9 +++++++++
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/input/file_sampler.rs b/src/input/file_sampler.rs
index b9d681e..c434307 100644
--- a/src/input/file_sampler.rs
+++ b/src/input/file_sampler.rs
@@ -6,7 +6,7 @@ use std::iter::Iterator;
 
 use crate::input::sample::{Sample, Sampler};
 
-use super::util::find_paragraph_end;
+use super::util::{find_char_end, find_paragraph_end};
 
 pub struct FileSampler {
     filename: String,
@@ -103,6 +103,7 @@ impl<'a> Iterator for FileIterator<'a> {
                 Some(Sample::from_vec(buffer))
             } else {
                 let end = find_paragraph_end(&buffer, read_bytes);
+                let end = find_char_end(&buffer[..end]);
                 if end < read_bytes {
                     buffer.truncate(end);
                     self.file
diff --git a/src/input/memory_sampler.rs b/src/input/memory_sampler.rs
index 673f7df..73e5487 100644
--- a/src/input/memory_sampler.rs
+++ b/src/input/memory_sampler.rs
@@ -3,7 +3,7 @@ use std::fs::File;
 
 use crate::input::sample::{Sample, Sampler};
 
-use super::util::find_paragraph_end;
+use super::util::{find_char_end, find_paragraph_end};
 
 pub struct MemorySampler {
     data: Vec<u8>,
@@ -92,6 +92,8 @@ impl<'a> Iterator for MemoryIterator<'a> {
             let paragraph_end = find_paragraph_end(&self.sampler.data, self.position);
             if self.position < self.sampler.data.len() && paragraph_end > start {
                 self.position = paragraph_end;
+            } else {
+                self.position = start + find_char_end(&self.sampler.data[start..self.position]);
             }
             Some(Sample::from_bytes(&self.sampler.data[start..self.position]))
         } else {
diff --git a/src/input/util.rs b/src/input/util.rs
index 088dc6a..2bef95b 100644
--- a/src/input/util.rs
+++ b/src/input/util.rs
@@ -25,3 +25,12 @@ pub fn find_paragraph_end(data: &[u8], end: usize) -> usize {
 
     if pos < 2 { end } else { pos }
 }
+
+/// Returns the length of `data` without the character that is cut off at its
+/// end, if any.
+pub fn find_char_end(data: &[u8]) -> usize {
+    match std::str::from_utf8(data) {
+        Err(e) if e.error_len().is_none() && e.valid_up_to() > 0 => e.valid_up_to(),
+        _ => data.len(),
+    }
+}
-- 
2.43.0


From d3742f392a9bbfdc531354571c4d930c623a6f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:56 +0000
Subject: [PATCH 10/20] fix: don't drop the first paragraph when sampling from
 a file

The first decision compared 0/0 with the target share, so the first paragraph
was never used and a file of a single paragraph gave an empty sample.
---
 src/input/memory_sampler.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/input/memory_sampler.rs b/src/input/memory_sampler.rs
index 73e5487..766beb3 100644
--- a/src/input/memory_sampler.rs
+++ b/src/input/memory_sampler.rs
@@ -34,7 +34,7 @@ impl MemorySampler {
             if buffer[0] != 10 && paragraph.ends_with(&[10, 10]) {
                 // We have a full paragraph
 
-                if data.len() as f64 / (read_bytes as f64) < target_share {
+                if data.len() as f64 <= target_share * read_bytes as f64 {
                     data.extend_from_slice(&paragraph);
                 }
 
@@ -46,7 +46,7 @@ impl MemorySampler {
             buffer.clear();
         }
 
-        if data.len() as f64 / (read_bytes as f64) < target_share {
+        if data.len() as f64 <= target_share * read_bytes as f64 {
             data.extend_from_slice(&paragraph);
         }
 
-- 
2.43.0


From 444931ae4aa16552a5ce97647491b2f5ecbd7a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:06 +0000
Subject: [PATCH 11/20] fix: finish optimizing with increasing data on the full
 data

The command panicked at the end unless the optimization converged before the
sample reached the size of the data.
---
 src/main.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 643cfaa..5f6a668 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -170,7 +170,7 @@ fn optimize_with_increasing_data(
             println!("bytes / token (bigger data): {}", stats.bytes_per_token());
         }
 
-        let stats = optimizer.optimize(&sampler, tokenset);
+        let stats = optimizer.optimize(&sampler, tokenset.take());
         println!("bytes / token (optimized): {}", stats.bytes_per_token());
 
         let new_full_stats = optimizer.get_stats(&full_sampler, &stats.token_set);
@@ -194,7 +194,10 @@ fn optimize_with_increasing_data(
         size *= 2;
     }
 
-    full_stats.unwrap()
+    match full_stats {
+        Some(stats) => stats,
+        None => optimizer.optimize(&full_sampler, tokenset),
+    }
 }
 
 fn optimize(
-- 
2.43.0


From 8e46dacfceb1897f80994dc8985ae1552b248996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 12/20] fix: report the maximum character when it is below
 U+0100

---
 src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 5f6a668..9559e62 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -87,13 +87,14 @@ fn count_chars(filename: &str) {
     }
     println!("Total: {}", total);
 
+    let mut max_c = 0;
     for (c, count) in counts_low.iter().enumerate() {
         if *count > 0 {
+            max_c = c as u32;
             println!("{:?} {}", std::char::from_u32(c as u32).unwrap(), count);
         }
     }
 
-    let mut max_c = 0;
     for c in counts.keys() {
         if *c > max_c {
             max_c = *c;
-- 
2.43.0


From d6e61d0a950c9e0748a638620ab196a890a6a876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:30 +0000
Subject: [PATCH 13/20] fix: don't split characters between samples from memory
 without blank lines

---
 src/input/memory_sampler.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/input/memory_sampler.rs b/src/input/memory_sampler.rs
index 766beb3..de5a27d 100644
--- a/src/input/memory_sampler.rs
+++ b/src/input/memory_sampler.rs
@@ -92,9 +92,8 @@ impl<'a> Iterator for MemoryIterator<'a> {
             let paragraph_end = find_paragraph_end(&self.sampler.data, self.position);
             if self.position < self.sampler.data.len() && paragraph_end > start {
                 self.position = paragraph_end;
-            } else {
-                self.position = start + find_char_end(&self.sampler.data[start..self.position]);
             }
+            self.position = start + find_char_end(&self.sampler.data[start..self.position]);
             Some(Sample::from_bytes(&self.sampler.data[start..self.position]))
         } else {
             None
-- 
2.43.0


From 1dffddf578f79e123ed423876fbe44bc68d94d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:57 +0000
Subject: [PATCH 14/20] fix: refuse byte and ext token numbers that don't fit
 in a byte

They were cut down to 8 bits, so that a token-set file with such a number
was silently read as another token set.
---
 src/tokenset.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tokenset.rs b/src/tokenset.rs
index f7505cf..59fbb9a 100644
--- a/src/tokenset.rs
+++ b/src/tokenset.rs
@@ -66,10 +66,10 @@ fn parse_token(value: &Value) -> Token {
     match value {
         Value::Array(v) => Token::Str(v
             .iter()
-            .map(|b| b.as_i64().unwrap() as u8)
+            .map(|b| u8::try_from(b.as_u64().unwrap()).unwrap())
             .collect::<Vec<_>>()),
         Value::String(s) => Token::Str(s.as_bytes().to_vec()),
-        Value::Number(x) => Token::Ext(x.as_u64().unwrap() as u8),
+        Value::Number(x) => Token::Ext(u8::try_from(x.as_u64().unwrap()).unwrap()),
         _ => panic!("Unexpected token"),
     }
 }
-- 
2.43.0


From b4646eeef81e3c51a8a762ab943b59d9f0e658ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:57 +0000
Subject: [PATCH 15/20] fix: refuse token sets with other ext tokens than 0..n

Only their number was looked at, so whatever their values the set was
read as one with the ext tokens 0..n.
---
 src/tokenset.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/tokenset.rs b/src/tokenset.rs
index 59fbb9a..2325ec6 100644
--- a/src/tokenset.rs
+++ b/src/tokenset.rs
@@ -284,9 +284,17 @@ impl TokenSet {
             }
             other => TokenSet::new(n_ext_tokens, processing, other, split_paragraphs),
         };
+        let mut listed_ext = vec![false; n_ext_tokens];
         for token in value["tokens"].as_array().unwrap().iter() {
-            if let Token::Str(token) = parse_token(token) {
-                token_set.add_token(&token);
+            match parse_token(token) {
+                Token::Str(token) => {
+                    token_set.add_token(&token);
+                }
+                Token::Ext(n) => {
+                    let n = n as usize;
+                    assert!(n < n_ext_tokens && !listed_ext[n], "Unexpected ext token {}", n);
+                    listed_ext[n] = true;
+                }
             }
         }
 
-- 
2.43.0


From cc736aa892265f9b6e1043120becb1062a03495f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:58 +0000
Subject: [PATCH 16/20] fix: refuse empty sequences in token-set files

They made strings cost no tokens at all, and the set written afterwards
had no encoding for them.
---
 src/tokenset.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tokenset.rs b/src/tokenset.rs
index 2325ec6..fd7d781 100644
--- a/src/tokenset.rs
+++ b/src/tokenset.rs
@@ -309,6 +309,7 @@ impl TokenSet {
                     let idx = token_set.tokens.iter().position(|x| x == &token).unwrap();
                     tokens.push(idx);
                 }
+                assert!(!tokens.is_empty(), "Empty sequence");
 
                 token_set.add_sequence(string, tokens);
             }
-- 
2.43.0


From 716d04fa6da289141fe893bdf5798d250c1dab30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:58 +0000
Subject: [PATCH 17/20] fix: refuse an input token set made for another
 processing

The set was optimized on data processed as the command line says, but
saved as a set for its own processing, with statistics that aren't true
for that.
---
 src/main.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 9559e62..650e73e 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -218,7 +218,12 @@ fn optimize(
 
     let input_token_set = if let Some(filename) = input_tokens {
         println!("Reading the input token set from {}.", filename);
-        Some(read_token_set(filename))
+        let token_set = read_token_set(filename);
+        assert_eq!(
+            token_set.processing, processing,
+            "The input token set is for differently processed data."
+        );
+        Some(token_set)
     } else {
         None
     };
-- 
2.43.0


From 6cd211c71e6ee8de4eed5c59bc8850a432e92587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:58 +0000
Subject: [PATCH 18/20] fix: refuse an initial sample size of 0

Doubling it never gets anywhere, so the optimization didn't end.
---
 src/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 650e73e..7ef8de9 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -156,6 +156,8 @@ fn optimize_with_increasing_data(
     min_data_size: usize,
     input_token_set: Option<TokenSet>,
 ) -> TokenStats {
+    assert!(min_data_size > 0, "The size of the sample can't be 0.");
+
     let full_sampler = FileSampler::new(filename, 1 << 24, None);
     let full_size = std::fs::metadata(filename).unwrap().len() as usize;
     let mut tokenset = input_token_set;
-- 
2.43.0


From a8578beb19d77d78f5076d7ed0338bd2b29859a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:13 +0000
Subject: [PATCH 19/20] fix: keep the paragraph setting when byteshuff bytes
 are re-optimized

optimize_bytes_tokenset() always switched split_paragraphs on, so that
optimizing from a set with the setting off (such as an older file, whose
tokens may go on after a blank line) wrote a set that claims they don't.
---
 src/optimize_bytes.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/optimize_bytes.rs b/src/optimize_bytes.rs
index 5eaad01..1077abc 100644
--- a/src/optimize_bytes.rs
+++ b/src/optimize_bytes.rs
@@ -101,7 +101,13 @@ impl BytesOptimizer for HuffOptimizer {
         for n_ext_tokens in 2..=max_ext_tokens {
             let n_byte_tokens = n_byte_ext_tokens - n_ext_tokens;
     
-            let token_set = optimize_bytes_tokenset(&counts, n_byte_tokens, n_ext_tokens, token_stats.token_set.processing);
+            let token_set = optimize_bytes_tokenset(
+                &counts,
+                n_byte_tokens,
+                n_ext_tokens,
+                token_stats.token_set.processing,
+                token_stats.token_set.split_paragraphs,
+            );
     
             let mut total = 0;
 
@@ -278,8 +284,14 @@ fn optimize_bytes_tokenset(
     n_char_tokens: usize,
     n_ext_tokens: usize,
     processing: Processing,
+    split_paragraphs: bool,
 ) -> TokenSet {
-    let mut token_set = TokenSet::new(n_ext_tokens, processing, TokenType::BytesHuff, true);
+    let mut token_set = TokenSet::new(
+        n_ext_tokens,
+        processing,
+        TokenType::BytesHuff,
+        split_paragraphs,
+    );
 
     let top_splits = optimize_splits(counts, n_char_tokens);
 
-- 
2.43.0


From e7bef62f5a38c9d8f14210e1858ebd96f18b7026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:53 +0000
Subject: [PATCH 20/20] fix: refuse an input token set of another type

optimize with --type bits1 and an initial bits2 set wrote a bits2 set.
---
 src/main.rs     | 5 +++++
 src/tokenset.rs | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 7ef8de9..88230d9 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -225,6 +225,11 @@ fn optimize(
             token_set.processing, processing,
             "The input token set is for differently processed data."
         );
+        // Byteshuff can replace the bytes of any other type.
+        assert!(
+            token_type == TokenType::BytesHuff || token_set.token_type == token_type,
+            "The input token set is of another type."
+        );
         Some(token_set)
     } else {
         None
diff --git a/src/tokenset.rs b/src/tokenset.rs
index fd7d781..eefeb41 100644
--- a/src/tokenset.rs
+++ b/src/tokenset.rs
@@ -6,7 +6,7 @@ use std::fmt;
 
 use super::processing::Processing;
 
-#[derive(Clone, Copy, Debug, Serialize, ValueEnum)]
+#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, ValueEnum)]
 #[serde(rename_all = "lowercase")]
 pub enum TokenType {
     /// Ext tokens 0 and 1 are used to encode bytes bit by bit. (≥2 tokens)
-- 
2.43.0

