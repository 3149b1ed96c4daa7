From f99c302c87001389bb8745f236fbf800d52100a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:46 +0000
Subject: [PATCH 01/30] fix: advance over whole characters when scanning
 comments and scalars

Stepping one byte at a time split multi-byte UTF-8 characters and panicked.
---
 src/scanner/mod.rs          |  2 +-
 src/scanner/scalar/block.rs | 10 ++++++----
 src/scanner/scalar/flow.rs  |  8 +++++---
 src/scanner/scalar/plain.rs |  8 +++++---
 4 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index f53d791..24083b1 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -1000,7 +1000,7 @@ fn eat_whitespace(opts: Flags, base: &str, stats: &mut MStats, comments: bool) -
         }
         else
         {
-            advance!(buffer, :stats, 1);
+            advance!(buffer, :stats, widthOf!(~buffer));
         }
     }
 
diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index f79c955..818b039 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -256,11 +256,13 @@ pub(in crate::scanner) fn scan_block_scalar_eager<'de>(
         {
             cache!(~buffer, 1, opts)?;
 
+            let width = widthOf!(~buffer);
+
             if !can_borrow
             {
-                scratch.push(buffer.as_bytes()[0])
+                scratch.extend_from_slice(buffer[..width].as_bytes())
             }
-            advance!(buffer, :local_stats, 1);
+            advance!(buffer, :local_stats, width);
         }
 
         // Mark content end
@@ -363,7 +365,7 @@ pub(in crate::scanner) fn scan_block_scalar_lazy<'de>(
         while !isBreakZ!(~buffer)
         {
             cache!(~buffer, 1, opts)?;
-            advance!(buffer, :local_stats, 1);
+            advance!(buffer, :local_stats, widthOf!(~buffer));
         }
 
         // Eat the line break (if not EOF)
@@ -670,7 +672,7 @@ fn skip_blanks(opts: Flags, buffer: &mut &str, stats: &mut MStats, comments: boo
         while !isBreakZ!(~buffer)
         {
             cache!(~buffer, 1, opts)?;
-            advance!(*buffer, :stats, 1);
+            advance!(*buffer, :stats, widthOf!(~buffer));
         }
     }
 
diff --git a/src/scanner/scalar/flow.rs b/src/scanner/scalar/flow.rs
index b8aa1a0..0d94cb1 100644
--- a/src/scanner/scalar/flow.rs
+++ b/src/scanner/scalar/flow.rs
@@ -129,12 +129,14 @@ pub(in crate::scanner) fn scan_flow_scalar_eager<'de>(
             // Its a non blank character, add it
             else
             {
+                // Safety: !isBlankZ guarantees the slice is not empty
+                let width = widthOf!(~buffer);
+
                 if !can_borrow
                 {
-                    // Safety: !isBlankZ guarantees the slice is not empty
-                    scratch.push(buffer.as_bytes()[0])
+                    scratch.extend_from_slice(buffer[..width].as_bytes())
                 }
-                advance!(buffer, :stats, 1);
+                advance!(buffer, :stats, width);
             }
         }
 
diff --git a/src/scanner/scalar/plain.rs b/src/scanner/scalar/plain.rs
index 3ac6a93..43c056e 100644
--- a/src/scanner/scalar/plain.rs
+++ b/src/scanner/scalar/plain.rs
@@ -147,11 +147,13 @@ pub(in crate::scanner) fn scan_plain_scalar_eager<'de>(
                 break;
             }
 
+            let width = widthOf!(~buffer);
+
             if !can_borrow
             {
-                scratch.push(buffer.as_bytes()[0])
+                scratch.extend_from_slice(buffer[..width].as_bytes())
             }
-            advance!(buffer, :local_stats, 1);
+            advance!(buffer, :local_stats, width);
         }
         // Save last non whitespace character position
         scalar_stats = local_stats.clone();
@@ -337,7 +339,7 @@ pub(in crate::scanner) fn scan_plain_scalar_lazy<'de>(
                 break 'scalar;
             }
 
-            advance!(buffer, :local_stats, 1);
+            advance!(buffer, :local_stats, widthOf!(~buffer));
         }
         // Save last non whitespace character position
         scalar_stats = local_stats.clone();
-- 
2.43.0


From 1268dfaf886d9f49262f4f2f76fcff3076315345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:18 +0000
Subject: [PATCH 02/30] fix: reject escapes that do not name a Unicode code
 point

\uD800, \UFFFFFFFF or !x%C0%80 panicked when the scalar or tag became a String.
---
 src/scanner/scalar/escape.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/scanner/scalar/escape.rs b/src/scanner/scalar/escape.rs
index f816a68..c961b16 100644
--- a/src/scanner/scalar/escape.rs
+++ b/src/scanner/scalar/escape.rs
@@ -99,6 +99,7 @@ pub(in crate::scanner) fn tag_uri_unescape(
 {
     let mut buffer = base;
     let mut codepoint_len: i8 = 0;
+    let start = scratch.len();
 
     while {
         cache!(~buffer, 3, opts)?;
@@ -149,6 +150,13 @@ pub(in crate::scanner) fn tag_uri_unescape(
     }
     {}
 
+    // The octets may be well formed individually, and still not
+    // be a code point (overlong, surrogate, beyond U+10FFFF)
+    if std::str::from_utf8(&scratch[start..]).is_err()
+    {
+        return Err(ScanError::UnknownEscape);
+    }
+
     Ok(base.len() - buffer.len())
 }
 
@@ -176,6 +184,13 @@ fn write_unicode_point(base: &str, scratch: &mut Vec<u8>, codepoint_len: u8) ->
         advance!(buffer, 1, i);
     }
 
+    // Not every value is a code point: surrogates, and anything
+    // beyond U+10FFFF cannot be written as UTF8
+    if std::char::from_u32(value).is_none()
+    {
+        return Err(ScanError::UnknownEscape);
+    }
+
     // Bit shift the value into the correct byte configuration
     // for UTF8
     match value
-- 
2.43.0


From bb11259802678aebb3349c171647a47720bfa789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:26 +0000
Subject: [PATCH 03/30] fix: never end a chunk inside of a character or CRLF
 when reading

A multi-byte character that straddled two chunks was reported as invalid UTF-8,
and a CRLF that did counted as two line breaks.
---
 src/reader/owned.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/reader/owned.rs b/src/reader/owned.rs
index 5a3108d..9f21e8a 100644
--- a/src/reader/owned.rs
+++ b/src/reader/owned.rs
@@ -204,6 +204,13 @@ impl Impl
         // Fill the new buffer, checking if .src has been exhausted
         self.exhausted = read_fill(Take::new(&mut self.source, cap), &mut new)?;
 
+        // The chunk must not end inside of a UTF8 sequence, or
+        // between the bytes of a CRLF
+        while !self.exhausted && is_split(&new)
+        {
+            self.exhausted = read_fill(Take::new(&mut self.source, 1), &mut new)?;
+        }
+
         // Validate buffer is UTF8
         let new = String::from_utf8(new).map_err(|e| e.utf8_error())?;
 
@@ -238,6 +245,24 @@ where
     Ok(amt == 0)
 }
 
+/// Does .buf end part way through a UTF8 sequence, or with a
+/// carriage return (whose line feed may be unread)?
+fn is_split(buf: &[u8]) -> bool
+{
+    let tail = &buf[buf.len().saturating_sub(4)..];
+
+    // Skip any bytes that belong to a sequence started before
+    // .tail
+    let start = tail.iter().position(|b| b & 0xC0 != 0x80);
+
+    match start.map(|s| std::str::from_utf8(&tail[s..]))
+    {
+        Some(Ok(s)) => s.ends_with('\r'),
+        Some(Err(e)) => e.error_len().is_none(),
+        None => false,
+    }
+}
+
 struct Take<'a>
 {
     limit: usize,
-- 
2.43.0


From d6943178378e2aab4377ab87beb67bdce63b027d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:34 +0000
Subject: [PATCH 04/30] fix: step over escaped backslashes in lazy double
 quoted scalars

The second backslash of "a\\" was taken for the start of an escaped quote.
---
 src/scanner/scalar/flow.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/scanner/scalar/flow.rs b/src/scanner/scalar/flow.rs
index 0d94cb1..1e04ad9 100644
--- a/src/scanner/scalar/flow.rs
+++ b/src/scanner/scalar/flow.rs
@@ -281,7 +281,7 @@ pub(in crate::scanner) fn scan_flow_scalar_lazy<'de>(
 
     loop
     {
-        // Longest sequence we can hit is 2 characters ('' or \")
+        // Longest sequence we can hit is 2 characters ('', \" or \\)
         cache!(~buffer, 2, opts)?;
 
         if buffer.is_empty()
@@ -292,7 +292,8 @@ pub(in crate::scanner) fn scan_flow_scalar_lazy<'de>(
         // Check for either of the quote escapes, skipping them if
         // found
         if (kind == SingleQuote && check!(~buffer => [SINGLE, SINGLE, ..]))
-            || (kind == DoubleQuote && check!(~buffer => [BACKSLASH, DOUBLE, ..]))
+            || (kind == DoubleQuote
+                && check!(~buffer => [BACKSLASH, DOUBLE, ..] | [BACKSLASH, BACKSLASH, ..]))
         {
             advance!(buffer, :stats, 2);
         }
-- 
2.43.0


From 718900b78a6cef9270d9608f91c1261cdbf33be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:18 +0000
Subject: [PATCH 05/30] fix: return to the starting indent once all collections
 have ended

Any document after one with a block collection at its root could not open a
block collection itself, nor continue a plain scalar onto the next line.
---
 src/scanner/context.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/scanner/context.rs b/src/scanner/context.rs
index 01a2c94..c88c7c9 100644
--- a/src/scanner/context.rs
+++ b/src/scanner/context.rs
@@ -161,6 +161,10 @@ impl Context
             {
                 self.indent = entry.indent;
 
+                // Leaving the outermost collection returns us to the -1th
+                // indent
+                self.started = !self.indents.is_empty();
+
                 f(self.indent)?;
 
                 Ok(true)
-- 
2.43.0


From e017632ceeaa75d082d08f209298c63a3e32d821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:25 +0000
Subject: [PATCH 06/30] fix: only end a zero indented sequence at its own
 indentation

The content of an entry that begins on its own line, or continues inside of a
flow collection ended the sequence. So did only a '-' that is an indicator
continue it: '-a' at that column is a key of the parent mapping.
---
 src/scanner/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 24083b1..39b3b6e 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -140,7 +140,6 @@ impl Scanner
 
         // Handle indentation unrolling
         self.unroll_indent(tokens, self.stats.column)?;
-        self.pop_zero_indent_sequence(*base, tokens)?;
 
         // Is it the end of a stream?
         if base.is_empty() || self.state == StreamState::Done
@@ -154,6 +153,8 @@ impl Scanner
         //  - '... '
         cache!(~base, 4, opts)?;
 
+        self.pop_zero_indent_sequence(*base, tokens)?;
+
         // Fetch the next token(s)
         match base.as_bytes()
         {
@@ -822,6 +823,13 @@ impl Scanner
         tokens: &mut Tokens<'de>,
     ) -> Result<()>
     {
+        // Content that is deeper than the sequence, or in a flow
+        // collection belongs to the current entry
+        if self.context.is_flow() || self.context.indent() != self.stats.column
+        {
+            return Ok(());
+        }
+
         if let Some(entry) = self.context.indents().last()
         {
             /*
@@ -834,7 +842,7 @@ impl Scanner
             if entry.line < self.stats.lines
                 && entry.zero_indented
                 && entry.kind == Marker::BlockSequenceStart
-                && (!check!(~base => b'-'))
+                && !(check!(~base => b'-') && isWhiteSpaceZ!(~base, 1))
             {
                 let read = self.stats.read;
 
-- 
2.43.0


From 35f210cdc1231f0a2c3f876a74e22975bf225821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:49 +0000
Subject: [PATCH 07/30] fix: let a root plain scalar continue at column 0

Adding to the -1th indent counted it as 0, so the second line of a multi-line
plain scalar at the root of a document was rejected unless it was indented.
---
 src/scanner/context.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scanner/context.rs b/src/scanner/context.rs
index c88c7c9..22e9d6e 100644
--- a/src/scanner/context.rs
+++ b/src/scanner/context.rs
@@ -319,7 +319,8 @@ impl Add<usize> for Indent
         match self.0
         {
             Some(indent) => indent + rhs,
-            None => rhs,
+            // -1 + rhs
+            None => rhs.saturating_sub(1),
         }
     }
 }
-- 
2.43.0


From d26a8bd0cd6cd4400afe2c6e20803584ba17ebb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:13 +0000
Subject: [PATCH 08/30] fix: scan block scalars that have no content

An empty block scalar panicked, and one of only line breaks lost them when its
chomping indicator asked to keep them.
---
 src/scanner/scalar/block.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index 818b039..1697f10 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -161,11 +161,21 @@ pub(in crate::scanner) fn scan_block_scalar_eager<'de>(
         },
     }
 
+    // Preceding lines are not contiguous with any content
+    if lines > 0
+    {
+        can_borrow = false;
+    }
+
     // Add any preceding lines to the tracked borrow or scratch
     // space
     match can_borrow
     {
-        true => content_start = local_stats.read - stats.read,
+        true =>
+        {
+            content_start = local_stats.read - stats.read;
+            content_end = content_start;
+        },
         false =>
         {
             for _ in 0..lines
-- 
2.43.0


From 166e79b86dfa91aaa71daf506a8bfb10a160543a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:21 +0000
Subject: [PATCH 09/30] fix: skip the indentation of block scalars that state
 it explicitly

The first line was never recognized as content.
---
 src/scanner/scalar/block.rs | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index 1697f10..edfbe84 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -147,7 +147,19 @@ pub(in crate::scanner) fn scan_block_scalar_eager<'de>(
     // from the indentation level
     match explicit.map(NonZeroU8::get)
     {
-        Some(explicit) => indent = base_indent + explicit as usize,
+        Some(explicit) =>
+        {
+            indent = base_indent + explicit as usize;
+
+            scan_indent(
+                opts,
+                &mut buffer,
+                &mut local_stats,
+                &mut lines,
+                &mut can_borrow,
+                indent,
+            )?;
+        },
         None =>
         {
             indent = detect_indent_level(
@@ -350,7 +362,19 @@ pub(in crate::scanner) fn scan_block_scalar_lazy<'de>(
     // from the indentation level
     match explicit.map(NonZeroU8::get)
     {
-        Some(explicit) => indent = base_indent + explicit as usize,
+        Some(explicit) =>
+        {
+            indent = base_indent + explicit as usize;
+
+            scan_indent(
+                opts,
+                &mut buffer,
+                &mut local_stats,
+                &mut 0,
+                &mut false,
+                indent,
+            )?;
+        },
         None =>
         {
             indent = detect_indent_level(
-- 
2.43.0


From 2654a07b0ffa5065f6865a660333e2f2b5930ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:28 +0000
Subject: [PATCH 10/30] fix: only read block scalar headers from the header
 line

The first character of the line after a '|' or '>' was taken for a header.
---
 src/scanner/scalar/block.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index edfbe84..e114dba 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -449,7 +449,7 @@ fn scan_headers(
     // than erroring
     match buffer.as_bytes()
     {
-        [i @ b'0'..=b'9', ..] | [_, i @ b'0'..=b'9', ..] =>
+        [i @ b'0'..=b'9', ..] | [b'+', i @ b'0'..=b'9', ..] | [b'-', i @ b'0'..=b'9', ..] =>
         {
             indent = atoi::<u8>(&[*i]).and_then(NonZeroU8::new);
             skip += 1;
@@ -461,12 +461,12 @@ fn scan_headers(
     // Set the chomping behavior of the scalar, if required
     match buffer.as_bytes()
     {
-        [c, ..] | [_, c, ..] if matches!(*c, b'+') =>
+        [c, ..] | [b'0'..=b'9', c, ..] if matches!(*c, b'+') =>
         {
             chomp = ChompStyle::Keep;
             skip += 1;
         },
-        [c, ..] | [_, c, ..] if matches!(*c, b'-') =>
+        [c, ..] | [b'0'..=b'9', c, ..] if matches!(*c, b'-') =>
         {
             chomp = ChompStyle::Strip;
             skip += 1;
-- 
2.43.0


From c4e5a5c1a2393bc67efce5bd3caa616e7c33be8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:35 +0000
Subject: [PATCH 11/30] fix: treat a line of only indentation in a block scalar
 as empty

---
 src/scanner/scalar/block.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index e114dba..ea9c31e 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -497,7 +497,9 @@ fn scan_indent(
 
     cache!(~buffer, 1, opts)?;
 
-    while stats.column < indent && isWhiteSpace!(~buffer)
+    // Note that a line of nothing but (all of the) indentation is
+    // still an empty line
+    while (stats.column < indent && isWhiteSpace!(~buffer)) || isBreak!(~buffer)
     {
         // Indentation space, chomp
         if check!(~buffer => b' ')
-- 
2.43.0


From 2705b8532e182500a0d743cdfca546a76e329e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:43 +0000
Subject: [PATCH 12/30] fix: keep exactly one normalized line break when
 clipping a borrowed scalar

The break was measured by the width of the character after it: nothing was
added at the end of the input, and '\r\n' became '\r'.
---
 src/scanner/scalar/block.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index ea9c31e..46a81a2 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -313,6 +313,16 @@ pub(in crate::scanner) fn scan_block_scalar_eager<'de>(
         )?;
     }
 
+    // Only a line feed can be borrowed, any other line break must
+    // be normalized
+    if can_borrow && lines > 0 && !base[content_end..].starts_with('\n')
+    {
+        scratch.extend_from_slice(base[content_start..content_end].as_bytes());
+        content_end = scratch.len();
+
+        can_borrow = false
+    }
+
     // Scan the ending whitespace, returning the final scalar
     let c_params = ChompParams::new(chomp, content_start, content_end, lines);
     let scalar = scan_chomp(base, scratch, &mut can_borrow, c_params)?;
@@ -555,7 +565,7 @@ fn scan_chomp<'de>(
                 // include the first
                 if lines > 0
                 {
-                    end += widthOf!(~base[end..], 1);
+                    end += 1;
                 }
 
                 scalar = cow!(&base[start..end])
-- 
2.43.0


From d1823b06bb7fdca58ec05254a17872110ad6d570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:51 +0000
Subject: [PATCH 13/30] fix: do not fold line breaks around more indented lines

---
 src/scanner/scalar/block.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index 46a81a2..713bbac 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -114,6 +114,10 @@ pub(in crate::scanner) fn scan_block_scalar_eager<'de>(
     // reconciled
     let mut lines: usize = 0;
 
+    // Did the previous line start with a blank, meaning it is
+    // more indented than the scalar?
+    let mut more_indented = false;
+
     // The indentation level of this scalar
     let indent: usize;
 
@@ -221,8 +225,15 @@ pub(in crate::scanner) fn scan_block_scalar_eager<'de>(
             can_borrow = false
         }
 
+        // Line breaks that surround a more indented line are never
+        // folded
+        cache!(~buffer, 1, opts)?;
+        let blank = isBlank!(~buffer);
+        let surrounds = more_indented || blank;
+        more_indented = blank;
+
         // If its a folding ('>') block scalar
-        if fold
+        if fold && !surrounds
         {
             // Handle line joins as needed
             match lines
-- 
2.43.0


From e8df38ed0d0e75014f31b2378794eea78f8c00bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:59 +0000
Subject: [PATCH 14/30] fix: do not ask for more input when evaluating a lazy
 block scalar

---
 src/scanner/scalar/block.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index 713bbac..d78afec 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -45,7 +45,7 @@ use crate::{
         context::Context,
         entry::MaybeToken,
         error::{ScanError, ScanResult as Result},
-        flag::{Flags, O_LAZY},
+        flag::{Flags, O_EXTENDABLE, O_LAZY},
         scalar::as_maybe,
         stats::MStats,
     },
@@ -444,7 +444,15 @@ pub(in crate::scanner) fn scan_block_scalar_lazy<'de>(
     let advance = base.len() - buffer.len();
     let slice = &base[..advance];
 
-    let lazy = Deferred::new(opts, slice, stats.clone(), base_indent, fold);
+    // Note we remove O_EXTENDABLE as we've already located the
+    // entire scalar
+    let lazy = Deferred::new(
+        opts & !O_EXTENDABLE,
+        slice,
+        stats.clone(),
+        base_indent,
+        fold,
+    );
 
     *stats = local_stats;
 
-- 
2.43.0


From 954e2c497386d5cd55720b9fdeda5001b06f1812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:48 +0000
Subject: [PATCH 15/30] fix: allow any white space or the end of input after an
 anchor or alias

Only a space and '\n' were: '*a' at the end of a stream, '&a' before a tab or a
'\r\n' were errors.
---
 src/scanner/anchor.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/scanner/anchor.rs b/src/scanner/anchor.rs
index 8d63c09..3bf0245 100644
--- a/src/scanner/anchor.rs
+++ b/src/scanner/anchor.rs
@@ -45,7 +45,12 @@ pub(in crate::scanner) fn scan_anchor<'de>(
     check!(~buffer
         => b' ' | b'\n' | b'?' | b',' | b']' | b'}' | b'%' | b'@' | b'`',
         else ScanError::InvalidAnchorName
-    )?;
+    )
+    .or_else(|e| match isWhiteSpaceZ!(~buffer)
+    {
+        true => Ok(()),
+        false => Err(e),
+    })?;
 
     let token = match kind
     {
-- 
2.43.0


From 3918ebe86d3f602a23cf629b01a07bc2eefca5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:55 +0000
Subject: [PATCH 16/30] fix: allow flow indicators in the prefix of a %TAG
 directive

They are URI characters: 'tag:example.com,2000:' was rejected at its comma.
---
 src/scanner/tag.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scanner/tag.rs b/src/scanner/tag.rs
index 7b35d10..0e07018 100644
--- a/src/scanner/tag.rs
+++ b/src/scanner/tag.rs
@@ -115,7 +115,8 @@ pub(in crate::scanner) fn scan_tag_directive<'de>(
 
     // %TAG !named! :tag:prefix # a comment\n
     //              ^^^^^^^^^^^
-    let (prefix, amt) = scan_tag_uri(opts, buffer, stats, &mut can_borrow, false)?;
+    // (unlike a suffix, prefixes may contain flow indicators)
+    let (prefix, amt) = scan_tag_uri(opts, buffer, stats, &mut can_borrow, true)?;
 
     // %TAG !named! tag-prefix # a comment\n
     //                        ^
-- 
2.43.0


From 2d032901dae67e5bae8a2ec2ec05e66ab03bb2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:21 +0000
Subject: [PATCH 17/30] fix: let %TAG directives redefine the default handles

The defaults were inserted before the document's own directives, which made
every '%TAG !' and '%TAG !!' a duplicate.
---
 src/event/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/event/parser/mod.rs b/src/event/parser/mod.rs
index e48b664..bb5a676 100644
--- a/src/event/parser/mod.rs
+++ b/src/event/parser/mod.rs
@@ -1112,7 +1112,7 @@ where
     #[allow(unused_assignments)]
     let (start, mut end, mut token) = peek!(tokens)?;
 
-    let mut directives = Directives::default();
+    let mut directives = Directives::empty();
     let mut seen_version = false;
 
     let tags = &mut directives.tags;
-- 
2.43.0


From 02699b64c151d2b1d65f5e3cd446f9ba5de1cbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:33 +0000
Subject: [PATCH 18/30] fix: accept verbatim tags

The closing '>' was looked for one byte too far, and the (empty) handle of a
verbatim tag was reported as undefined.
---
 src/event/parser/mod.rs | 6 ++++++
 src/scanner/tag.rs      | 7 ++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/event/parser/mod.rs b/src/event/parser/mod.rs
index bb5a676..705984b 100644
--- a/src/event/parser/mod.rs
+++ b/src/event/parser/mod.rs
@@ -1265,6 +1265,12 @@ fn validate_tag(tags: &TagDirectives, tag: &mut Option<(Slice, Slice)>, scalar:
 {
     if let Some((handle, suffix)) = tag.as_ref()
     {
+        // Verbatim tags have no handle to look up
+        if handle.is_empty()
+        {
+            return Ok(());
+        }
+
         // A YAML scalar tag may be marked as
         // 'non-resolvable', in which case we skip the
         // checks
diff --git a/src/scanner/tag.rs b/src/scanner/tag.rs
index 0e07018..d10a74f 100644
--- a/src/scanner/tag.rs
+++ b/src/scanner/tag.rs
@@ -181,7 +181,7 @@ pub(in crate::scanner) fn scan_node_tag<'de>(
     // If its a verbatim tag scan it
     let (token, amt) = if check!(~buffer => [b'!', b'<', ..])
     {
-        advance!(buffer, 2);
+        advance!(buffer, :stats, 2);
 
         // !<global:verbatim:tag:> "node"
         //   ^^^^^^^^^^^^^^^^^^^^
@@ -189,8 +189,9 @@ pub(in crate::scanner) fn scan_node_tag<'de>(
 
         // !<global:verbatim:tag:> "node"
         //                       ^
-        cache!(~buffer, @amt + 1, 1, opts)?;
-        check!(~buffer, amt + 1 => b'>', else ScanError::InvalidTagSuffix)?;
+        cache!(~buffer, @amt, 1, opts)?;
+        check!(~buffer, amt => b'>', else ScanError::InvalidTagSuffix)?;
+        stats.update(1, 0, 1);
 
         let token = assemble_tag(&buffer[0..0], verbatim, can_borrow);
 
-- 
2.43.0


From ba144a782bebc57847a10e1cc2df924a898af65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:40 +0000
Subject: [PATCH 19/30] fix: allow the input to end directly after a node's tag

---
 src/scanner/tag.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/scanner/tag.rs b/src/scanner/tag.rs
index d10a74f..3bc8069 100644
--- a/src/scanner/tag.rs
+++ b/src/scanner/tag.rs
@@ -316,8 +316,8 @@ pub(in crate::scanner) fn scan_tag_uri<'de>(
                 let amt = tag_uri_unescape(opts, buffer, &mut scratch, true)?;
                 advance!(buffer, :stats, amt);
             },
-            // EOF before loop end is an error
-            [] => return Err(ScanError::UnexpectedEOF),
+            // EOF before loop end is an error, unless it ends a tag
+            [] if verbatim || buffer.len() == base.len() => return Err(ScanError::UnexpectedEOF),
             // Otherwise we've finished the tag, exit the loop
             _ => break,
         }
@@ -380,7 +380,7 @@ pub(in crate::scanner) fn scan_tag_handle<'b>(
             Ok(Some(handle))
         },
         // Else check to see if this could be a primary handle (or non-resolving tag)
-        _ if name.is_empty() && isWhiteSpace!(~buffer, offset) =>
+        _ if name.is_empty() && isWhiteSpaceZ!(~buffer, offset) =>
         {
             let handle = (TagHandle::Primary(&buffer[..1]), 1);
             stats.update(1, 0, 1);
@@ -390,8 +390,7 @@ pub(in crate::scanner) fn scan_tag_handle<'b>(
         // Ambiguous sequence, we cannot determine if this is an error, or a local tag + suffix e.g
         // key: !suffix "value"
         //      ^^^^^^^
-        Some(_) => Ok(None),
-        None => Err(ScanError::UnexpectedEOF),
+        _ => Ok(None),
     }
 }
 
-- 
2.43.0


From 53c4b05019cafa4f1cc6817360d3d36b84a5cecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:48 +0000
Subject: [PATCH 20/30] fix: report a malformed single pair mapping as an error
 instead of panicking

---
 src/event/parser/mod.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/event/parser/mod.rs b/src/event/parser/mod.rs
index 705984b..8a9ee57 100644
--- a/src/event/parser/mod.rs
+++ b/src/event/parser/mod.rs
@@ -769,9 +769,7 @@ impl Parser
     where
         T: Read,
     {
-        let (start, end, token) = peek!(tokens)?;
-
-        debug_assert!(matches!(token, Marker::FlowEntry | Marker::FlowSequenceEnd));
+        let (start, end, _) = peek!(tokens)?;
 
         // Revert to parsing the next entry in the parent sequence
         state!(~self, -> State::FlowSequenceEntry(O_NIL));
-- 
2.43.0


From 045aa42060b866b60e5c50357e06dee9560d08fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:02 +0000
Subject: [PATCH 21/30] fix: skip repeated document end markers between
 documents

---
 src/event/parser/mod.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/event/parser/mod.rs b/src/event/parser/mod.rs
index 8a9ee57..df46079 100644
--- a/src/event/parser/mod.rs
+++ b/src/event/parser/mod.rs
@@ -227,14 +227,11 @@ impl Parser
         let implicit = opts.contains(O_IMPLICIT);
         let first = opts.contains(O_FIRST);
 
-        // If the document is explicit we need to skip any extra
-        // DocumentEnd tokens ('...')
-        if !implicit
+        // Any extra DocumentEnd tokens ('...') before the next
+        // document need to be skipped
+        while peek!(~tokens)? == Marker::DocumentEnd
         {
-            while peek!(~tokens)? == Marker::DocumentEnd
-            {
-                pop!(tokens)?;
-            }
+            pop!(tokens)?;
         }
 
         let token = peek!(~tokens)?;
-- 
2.43.0


From 245b39b315d19e3610f6afe6b8b206ce0d4ee086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:45 +0000
Subject: [PATCH 22/30] fix: allow flow collections as implicit keys

---
 src/scanner/key.rs | 103 ++++++++++++++++++++++++++++++++++++++++-----
 src/scanner/mod.rs |  39 +++--------------
 2 files changed, 99 insertions(+), 43 deletions(-)

diff --git a/src/scanner/key.rs b/src/scanner/key.rs
index e518402..360967a 100644
--- a/src/scanner/key.rs
+++ b/src/scanner/key.rs
@@ -72,21 +72,42 @@
 //! queue position
 //! ```
 
-use crate::scanner::stats::MStats;
+use crate::scanner::{
+    error::{ScanError, ScanResult as Result},
+    stats::MStats,
+};
 
 /// Manages the state for tracking possible implicit Keys
 /// that the Scanner might may encounter during runtime
+///
+/// A flow collection may itself be a key, therefore the
+/// possible key of every enclosing flow level is kept until
+/// the level ends.
 #[derive(Debug, Clone)]
 pub(in crate::scanner) struct Key
 {
+    /// Possible key of the current flow level
     save: Option<KeySave>,
+
+    /// Possible keys of the enclosing flow levels, outermost
+    /// first
+    outer: Vec<Option<KeySave>>,
+
+    /// Number of .outer levels whose key has expired. Outer
+    /// keys are always older than inner ones, thus they expire
+    /// in order
+    expired: usize,
 }
 
 impl Key
 {
     pub fn new() -> Self
     {
-        Self { save: None }
+        Self {
+            save:    None,
+            outer:   Vec::new(),
+            expired: 0,
+        }
     }
 
     /// Save a potential simple key
@@ -103,21 +124,81 @@ impl Key
         &mut self.save
     }
 
-    /// Is a simple key possible?
+    /// Is a simple key possible, at any flow level?
     pub fn possible(&self) -> bool
     {
-        self.save
-            .as_ref()
-            .map_or(false, |saved| saved.key().allowed())
+        self.outer[self.expired..]
+            .iter()
+            .chain(Some(&self.save))
+            .flatten()
+            .any(|saved| saved.key().allowed())
     }
 
-    /// Is a simple key required?
-    pub fn required(&self) -> bool
+    /// Enter a flow level, keeping the current potential key
+    pub fn flow_increment(&mut self)
+    {
+        self.outer.push(self.save.take())
+    }
+
+    /// Leave a flow level, returning to the potential key it
+    /// was entered with
+    pub fn flow_decrement(&mut self)
+    {
+        self.save = self.outer.pop().flatten();
+        self.expired = self.expired.min(self.outer.len())
+    }
+
+    /// Remove any saved keys that can no longer be keys
+    pub fn expire_stale(&mut self, stats: &MStats) -> Result<()>
+    {
+        while let Some(save) = self.outer.get_mut(self.expired)
+        {
+            if !expire(save, stats)?
+            {
+                break;
+            }
+
+            self.expired += 1;
+        }
+
+        expire(&mut self.save, stats).map(drop)
+    }
+}
+
+/// Expires .save if it can no longer be a key, returning
+/// true if no key is possible
+fn expire(save: &mut Option<KeySave>, stats: &MStats) -> Result<bool>
+{
+    let saved = match save
     {
-        self.save
-            .as_ref()
-            .map_or(false, |saved| saved.key().required())
+        Some(saved) if saved.key().allowed() => saved,
+        _ => return Ok(true),
+    };
+
+    /*
+     * The YAML spec requires that implicit keys are
+     *
+     * 1. Limited to a single line
+     * 2. Must be less than 1024 characters, including
+     *    trailing whitespace to a ': '
+     *
+     * https://yaml.org/spec/1.2/spec.html#ns-s-implicit-yaml-key(c)
+     */
+    let stale = saved.stats().lines < stats.lines || saved.stats().read + 1024 < stats.read;
+
+    if stale
+    {
+        // If the key was required, it is an error for us not to
+        // have found it before the cutoff
+        if saved.key().required()
+        {
+            return Err(ScanError::MissingValue);
+        }
+
+        *saved.key_mut() = KeyPossible::No
     }
+
+    Ok(stale)
 }
 
 impl Default for Key
diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 39b3b6e..30e6cdd 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -30,7 +30,7 @@ use crate::{
         entry::TokenEntry,
         error::{ScanError, ScanResult as Result},
         flag::*,
-        key::{Key, KeyPossible},
+        key::Key,
         scalar::{block::scan_block_scalar, flow::scan_flow_scalar, plain::scan_plain_scalar},
         stats::MStats,
         tag::scan_node_tag,
@@ -658,14 +658,16 @@ impl Scanner
             false => Token::FlowSequenceStart,
         };
 
+        // The collection may be a simple key
+        self.save_key(!REQUIRED)?;
+
         self.context.flow_increment()?;
+        self.key.flow_increment();
 
         advance!(*base, :self.stats, 1);
 
         enqueue!(token, :self.stats => tokens);
 
-        self.save_key(!REQUIRED)?;
-
         // A simple key may start after '[' or '{'
         self.simple_key_allowed = true;
 
@@ -690,6 +692,7 @@ impl Scanner
 
         // Decrease flow level by 1
         self.context.flow_decrement()?;
+        self.key.flow_decrement();
 
         // A simple key is not allowed after a ']' or '}'
         self.simple_key_allowed = false;
@@ -784,35 +787,7 @@ impl Scanner
     /// expired, removing it if it has
     fn expire_stale_saved_key(&mut self) -> Result<()>
     {
-        if let Some(ref mut saved) = self.key.saved()
-        {
-            let key = saved.key();
-            let key_stats = saved.stats();
-
-            /*
-             * The YAML spec requires that implicit keys are
-             *
-             * 1. Limited to a single line
-             * 2. Must be less than 1024 characters, including
-             *    trailing whitespace to a ': '
-             *
-             * https://yaml.org/spec/1.2/spec.html#ns-s-implicit-yaml-key(c)
-             */
-            if key.allowed()
-                && (key_stats.lines < self.stats.lines || key_stats.read + 1024 < self.stats.read)
-            {
-                // If the key was required, it is an error for us not to
-                // have found it before the cutoff
-                if key.required()
-                {
-                    return Err(ScanError::MissingValue);
-                }
-
-                *saved.key_mut() = KeyPossible::No
-            }
-        }
-
-        Ok(())
+        self.key.expire_stale(&self.stats)
     }
 
     /// Manages the decrement of zero indented block
-- 
2.43.0


From 3a3ae28cbeef4153c6824eacf68df6d11e858e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:22 +0000
Subject: [PATCH 23/30] fix: end the event iteration after an error

---
 src/event/parser/mod.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/event/parser/mod.rs b/src/event/parser/mod.rs
index df46079..71321f3 100644
--- a/src/event/parser/mod.rs
+++ b/src/event/parser/mod.rs
@@ -125,7 +125,7 @@ impl Parser
 
     /// Runs the state machine until it either provides the
     /// next [`Event`], an error, or the state machine is
-    /// finished
+    /// finished. Any error finishes the state machine.
     fn get_next_event<'de, T>(&mut self, tokens: &mut Tokens<'de, T>) -> Result<Option<Event<'de>>>
     where
         T: Read,
@@ -136,7 +136,17 @@ impl Parser
         // is returned or we're marked as finished.
         while !self.done && event.is_none()
         {
-            event = self.state_transition(tokens)?;
+            event = match self.state_transition(tokens)
+            {
+                Ok(event) => event,
+                // Nothing sensible can follow an error
+                Err(e) =>
+                {
+                    self.done = true;
+
+                    return Err(e);
+                },
+            };
         }
 
         Ok(event)
-- 
2.43.0


From 5d376df3080baaa0a809ad1494850e8a5920da8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:00 +0000
Subject: [PATCH 24/30] fix: accept values whose key is implied

---
 src/event/parser/mod.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/event/parser/mod.rs b/src/event/parser/mod.rs
index 71321f3..457cc62 100644
--- a/src/event/parser/mod.rs
+++ b/src/event/parser/mod.rs
@@ -512,6 +512,12 @@ impl Parser
                     event = self.empty_scalar(start, kind).map(Some)?;
                 }
             },
+            // Found a value without any key, thus the key is implied
+            Marker::Value =>
+            {
+                state!(~self, -> State::BlockMappingValue);
+                event = self.empty_scalar(start, kind).map(Some)?;
+            },
             // End of this mapping, pop the state stack
             Marker::BlockEnd =>
             {
@@ -654,6 +660,18 @@ impl Parser
 
                     state!(~self, -> State::FlowSequenceMappingKey);
                 },
+                // The same, though its key is implied, e.g:
+                //
+                //  [  : value ,  entryN... ]
+                //    ^ key is implied here
+                Marker::Value =>
+                {
+                    event =
+                        initEvent!(@event FlowMappingStart => (start, end, (NO_ANCHOR, NO_TAG, NodeKind::Entry)))
+                            .into();
+
+                    state!(~self, -> State::FlowSequenceMappingKey);
+                },
                 // If its not a mapping, or a sequence end, then it must be a node
                 t if !matches!(t, Marker::FlowSequenceEnd) =>
                 {
@@ -870,6 +888,13 @@ impl Parser
                         event = self.empty_scalar(start, kind).map(Some)?;
                     }
                 },
+                // Found a value without any key, thus the key is implied
+                Marker::Value =>
+                {
+                    state!(~self, -> State::FlowMappingValue(O_NIL));
+
+                    event = self.empty_scalar(start, kind).map(Some)?;
+                },
                 /*
                  * Here we catch a strange edge case in (flow contexts) YAML:
                  *
-- 
2.43.0


From af56752e1e7e36eca68dcdefeeabf81be574750e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:33 +0000
Subject: [PATCH 25/30] fix: do not let a line break start a key in flow
 collections

---
 src/scanner/mod.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 30e6cdd..2495c99 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -918,10 +918,7 @@ impl Scanner
         let amt = eat_whitespace(opts, *buffer, &mut stats, comments)?;
 
         // A new line may start a key in the block context
-        //
-        // FIXME: we don't track flow/block contexts yet, add check
-        // here when we do
-        if stats.lines != 0
+        if stats.lines != 0 && self.context.is_block()
         {
             self.simple_key_allowed = true;
         }
-- 
2.43.0


From d811f689854c1ad843ca2334aebeae6b05beff4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:43 +0000
Subject: [PATCH 26/30] fix: end plain scalars at a value indicator before a
 flow indicator

---
 src/scanner/scalar/plain.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/scanner/scalar/plain.rs b/src/scanner/scalar/plain.rs
index 43c056e..da42994 100644
--- a/src/scanner/scalar/plain.rs
+++ b/src/scanner/scalar/plain.rs
@@ -120,9 +120,10 @@ pub(in crate::scanner) fn scan_plain_scalar_eager<'de>(
         // Check for character sequences which end a plain scalar,
         // namely:
         //
-        // ': '                         -> anywhere
-        // ',' | '[' | ']' | '{' | '}'  -> flow context
-        if (check!(~buffer => b':') && isWhiteSpaceZ!(~buffer, 1))
+        // ': '                                -> anywhere
+        // ',' | '[' | ']' | '{' | '}'         -> flow context
+        // ':,' | ':[' | ':]' | ':{' | ':}'    -> flow context
+        if value_indicator(buffer, flow_context)
             || flow_context && flow_indicator(buffer, 0)
         {
             break 'scalar;
@@ -141,7 +142,7 @@ pub(in crate::scanner) fn scan_plain_scalar_eager<'de>(
         {
             cache!(~buffer, 2, opts)?;
 
-            if (check!(~buffer => b':') && isWhiteSpaceZ!(~buffer, 1))
+            if value_indicator(buffer, flow_context)
                 || flow_context && flow_indicator(buffer, 0)
             {
                 break;
@@ -311,9 +312,10 @@ pub(in crate::scanner) fn scan_plain_scalar_lazy<'de>(
         // Check for character sequences which end a plain scalar,
         // namely:
         //
-        // ': '                         -> anywhere
-        // ',' | '[' | ']' | '{' | '}'  -> flow context
-        if (check!(~buffer => b':') && isWhiteSpaceZ!(~buffer, 1))
+        // ': '                                -> anywhere
+        // ',' | '[' | ']' | '{' | '}'         -> flow context
+        // ':,' | ':[' | ':]' | ':{' | ':}'    -> flow context
+        if value_indicator(buffer, flow_context)
             || flow_context && flow_indicator(buffer, 0)
         {
             break 'scalar;
@@ -324,7 +326,7 @@ pub(in crate::scanner) fn scan_plain_scalar_lazy<'de>(
         {
             cache!(~buffer, 2, opts)?;
 
-            if (check!(~buffer => b':') && isWhiteSpaceZ!(~buffer, 1))
+            if value_indicator(buffer, flow_context)
                 || flow_context && flow_indicator(buffer, 0)
             {
                 let skip = match isWhiteSpace!(~buffer, 1)
@@ -408,6 +410,13 @@ fn flow_indicator(buffer: &str, offset: usize) -> bool
     check!(~buffer, offset => b',' | b'[' | b']' | b'{' | b'}')
 }
 
+/// Have we hit a ':' that ends the scalar?
+fn value_indicator(buffer: &str, flow_context: bool) -> bool
+{
+    check!(~buffer => b':')
+        && (isWhiteSpaceZ!(~buffer, 1) || flow_context && flow_indicator(buffer, 1))
+}
+
 /// Handles the trap door from borrowing to copying
 fn set_no_borrow(can_borrow: &mut bool, base: &str, buffer: &str, scratch: &mut Vec<u8>)
 {
-- 
2.43.0


From 218ef6eec576a70a5f3fd9d9b4bcc965999a682d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:10 +0000
Subject: [PATCH 27/30] fix: never end a lazy plain scalar inside of a
 character

---
 src/scanner/scalar/plain.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/scanner/scalar/plain.rs b/src/scanner/scalar/plain.rs
index da42994..974502f 100644
--- a/src/scanner/scalar/plain.rs
+++ b/src/scanner/scalar/plain.rs
@@ -329,14 +329,10 @@ pub(in crate::scanner) fn scan_plain_scalar_lazy<'de>(
             if value_indicator(buffer, flow_context)
                 || flow_context && flow_indicator(buffer, 0)
             {
-                let skip = match isWhiteSpace!(~buffer, 1)
-                {
-                    true => 2,
-                    false => 1,
-                };
-
+                // Both ':' and the flow indicators are a single byte,
+                // while what follows may be a multi byte line break
                 scalar_stats = local_stats.clone();
-                local_stats.update(skip, 0, skip);
+                local_stats.update(1, 0, 1);
 
                 break 'scalar;
             }
-- 
2.43.0


From 81afb520ba506713c5fb969afa3d01348c79d8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:45 +0000
Subject: [PATCH 28/30] fix: reject tabs in the indentation of block
 collections

---
 src/scanner/context.rs | 16 ++++++++++++++++
 src/scanner/mod.rs     | 18 ++++++++++++++++++
 2 files changed, 34 insertions(+)

diff --git a/src/scanner/context.rs b/src/scanner/context.rs
index 22e9d6e..2813a33 100644
--- a/src/scanner/context.rs
+++ b/src/scanner/context.rs
@@ -31,6 +31,9 @@ pub(in crate::scanner) struct Context
     indent:  usize,
     indents: Vec<IndentEntry>,
     started: bool,
+
+    // Does the current line's indentation contain a tab?
+    tab_indent: bool,
 }
 
 impl Context
@@ -45,6 +48,7 @@ impl Context
             indent:  0,
             indents: Vec::new(),
             started: false,
+            tab_indent: false,
         }
     }
 
@@ -56,6 +60,7 @@ impl Context
         self.indent = 0;
         self.indents.truncate(Self::MAX_RESERVE_AFTER_RESET);
         self.started = false;
+        self.tab_indent = false;
     }
 
     /// Get the current flow level
@@ -96,6 +101,17 @@ impl Context
         }
     }
 
+    /// Does the current line's indentation contain a tab?
+    pub fn tab_indent(&self) -> bool
+    {
+        self.tab_indent
+    }
+
+    pub fn set_tab_indent(&mut self, tab_indent: bool)
+    {
+        self.tab_indent = tab_indent;
+    }
+
     pub fn indents(&self) -> &[IndentEntry]
     {
         &self.indents
diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 2495c99..e3654a8 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -923,6 +923,17 @@ impl Scanner
             self.simple_key_allowed = true;
         }
 
+        // Are we at the start of a line, after its indentation?
+        if stats.lines != 0 || self.stats.column == 0
+        {
+            let indentation = buffer[..amt]
+                .rsplit(|c| matches!(c, '\n' | '\r' | '\u{85}' | '\u{2028}' | '\u{2029}'))
+                .next();
+
+            self.context
+                .set_tab_indent(indentation.map_or(false, |s| s.contains('\t')));
+        }
+
         advance!(*buffer, amt);
         self.stats += stats;
 
@@ -1006,6 +1017,13 @@ fn roll_indent<'de>(
 
     if context.is_block()
     {
+        // Tabs are not allowed in the indentation of block
+        // collections
+        if context.tab_indent()
+        {
+            return Err(ScanError::InvalidTab);
+        }
+
         // If the indent is greater, we don't need to worry about
         // same level sequences
         if context.indent() < column
-- 
2.43.0


From f2fdc15ab59e048780d86f4101b618658e7a1910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:04 +0000
Subject: [PATCH 29/30] fix: report an unmatched closing bracket as a syntax
 error, not an integer overflow

---
 src/scanner/context.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scanner/context.rs b/src/scanner/context.rs
index 2813a33..6762eb4 100644
--- a/src/scanner/context.rs
+++ b/src/scanner/context.rs
@@ -85,7 +85,7 @@ impl Context
 
     pub fn flow_decrement(&mut self) -> Result<usize>
     {
-        let new = self.flow.checked_sub(1).ok_or(ScanError::IntOverflow)?;
+        let new = self.flow.checked_sub(1).ok_or(ScanError::UnknownDelimiter)?;
         self.flow = new;
 
         Ok(new)
-- 
2.43.0


From 647d2a57bcc84e3de659acebe11347aeb22eb122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:24 +0000
Subject: [PATCH 30/30] fix: refuse to start a second event stream from a used
 byte source

---
 src/event/error.rs  |  1 +
 src/reader/error.rs |  5 +++++
 src/reader/owned.rs | 19 ++++++++++++++++---
 src/scanner/mod.rs  |  6 ++++++
 4 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/event/error.rs b/src/event/error.rs
index 22c2587..1694ffc 100644
--- a/src/event/error.rs
+++ b/src/event/error.rs
@@ -208,6 +208,7 @@ impl From<ReaderError> for ParseError
         {
             ReaderError::UTF8(e) => Self::UTF8(e),
             ReaderError::IO(e) => Self::IO(e),
+            ReaderError::Bound => Self::CorruptStream,
             ReaderError::Scanner(e) => Self::Scanner(e),
         }
     }
diff --git a/src/reader/error.rs b/src/reader/error.rs
index 8ef18b1..c4ba053 100644
--- a/src/reader/error.rs
+++ b/src/reader/error.rs
@@ -27,6 +27,9 @@ pub(crate) enum ReaderError
     /// Catch all wrapper for any underlying IO errors
     /// reported to us
     IO(io::Error),
+    /// The byte stream is already bound to another stream of
+    /// events
+    Bound,
     Scanner(ScanError),
 }
 
@@ -46,6 +49,7 @@ impl StdError for ReaderError
         {
             ReaderError::UTF8(ref e) => Some(e),
             ReaderError::IO(ref e) => Some(e),
+            ReaderError::Bound => None,
             ReaderError::Scanner(ref e) => Some(e),
         }
     }
@@ -83,6 +87,7 @@ impl From<ReaderError> for ErrorKind
         {
             ReaderError::UTF8(e) => SourceError::UTF8(e).into(),
             ReaderError::IO(e) => SourceError::IO(e).into(),
+            ReaderError::Bound => ErrorCode::CorruptStream.into(),
             ReaderError::Scanner(e) => ErrorCode::from(e).into(),
         }
     }
diff --git a/src/reader/owned.rs b/src/reader/owned.rs
index 9f21e8a..bd07a03 100644
--- a/src/reader/owned.rs
+++ b/src/reader/owned.rs
@@ -7,10 +7,13 @@
 //! Contains an implementation of [`Read`](super::Read) for
 //! [`std::io::Read`] objects.
 
-use std::{cell::UnsafeCell, fmt, io};
+use std::{
+    cell::{Cell, UnsafeCell},
+    fmt, io,
+};
 
 use super::{
-    error::{ReadError, ReaderResult},
+    error::{ReadError, ReaderError, ReaderResult},
     private::Sealed,
     Read, ReadContext, Reader,
 };
@@ -32,6 +35,8 @@ const DEFAULT_BUFFER_SIZE: usize = 8 * 1024;
 pub struct OwnedReader
 {
     inner: ReadHolder,
+    /// Has a stream of events been started from .inner?
+    bound: Cell<bool>,
 }
 
 impl OwnedReader
@@ -43,8 +48,9 @@ impl OwnedReader
         T: io::Read + 'static,
     {
         let inner = ReadHolder::new(src);
+        let bound = Cell::new(false);
 
-        Self { inner }
+        Self { inner, bound }
     }
 
     pub(crate) fn new_reader(&self, opts: Flags) -> Reader<'_, Self>
@@ -59,6 +65,13 @@ impl OwnedReader
         mut opts: Flags,
     ) -> ReaderResult<()>
     {
+        // The source can only be read once, hence only by the first
+        // scanner that is started from it
+        if !scanner.is_started() && self.bound.replace(true)
+        {
+            return Err(ReaderError::Bound);
+        }
+
         loop
         {
             match self.inner.is_exhausted()
diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index e3654a8..fad54ad 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -74,6 +74,12 @@ impl Scanner
         }
     }
 
+    /// Has the stream's first token been scanned?
+    pub fn is_started(&self) -> bool
+    {
+        self.state != StreamState::Start
+    }
+
     /// Scan some tokens from the given .base into .tokens
     /// returning the number added.
     pub fn scan_tokens<'de>(
-- 
2.43.0

