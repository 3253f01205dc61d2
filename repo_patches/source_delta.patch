From 611e85b657f0537d697e3f4d3de0405ab3178681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:54 +0000
Subject: [PATCH 01/43] fix: parse a lone [literal] attribute list instead of
 looping forever

The check for block metadata without a block was skipped for the literal
block style, so the block parser returned nothing without consuming
anything.
---
 parser/src/blocks/block.rs | 50 +++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/parser/src/blocks/block.rs b/parser/src/blocks/block.rs
index 6d43cb1..780c36b 100644
--- a/parser/src/blocks/block.rs
+++ b/parser/src/blocks/block.rs
@@ -284,32 +284,32 @@ impl<'src> Block<'src> {
                     warnings,
                 };
             }
+        }
 
-            // First, let's look for a fun edge case. Perhaps the text contains block
-            // metadata but no block immediately following. If we're not careful, we could
-            // spin in a loop (for example, `parse_blocks_until`) thinking there will be
-            // another block, but there isn't.
-
-            // The following check disables that spin loop.
-            let simple_block_mi = SimpleBlock::parse(&metadata, parser);
-
-            if simple_block_mi.is_none() && !metadata.is_empty() {
-                // We have a metadata with no block. Treat it as a simple block but issue a
-                // warning.
-
-                warnings.push(Warning {
-                    source: metadata.source,
-                    warning: WarningType::MissingBlockAfterTitleOrAttributeList,
-                });
-
-                // Remove the metadata content so that SimpleBlock will read the title/attrlist
-                // line(s) as regular content.
-                metadata.title_source = None;
-                metadata.title = None;
-                metadata.anchor = None;
-                metadata.attrlist = None;
-                metadata.block_start = metadata.source;
-            }
+        // First, let's look for a fun edge case. Perhaps the text contains block
+        // metadata but no block immediately following. If we're not careful, we could
+        // spin in a loop (for example, `parse_blocks_until`) thinking there will be
+        // another block, but there isn't.
+
+        // The following check disables that spin loop.
+        let simple_block_mi = SimpleBlock::parse(&metadata, parser);
+
+        if simple_block_mi.is_none() && !metadata.is_empty() {
+            // We have a metadata with no block. Treat it as a simple block but issue a
+            // warning.
+
+            warnings.push(Warning {
+                source: metadata.source,
+                warning: WarningType::MissingBlockAfterTitleOrAttributeList,
+            });
+
+            // Remove the metadata content so that SimpleBlock will read the title/attrlist
+            // line(s) as regular content.
+            metadata.title_source = None;
+            metadata.title = None;
+            metadata.anchor = None;
+            metadata.attrlist = None;
+            metadata.block_start = metadata.source;
         }
 
         // If no other block kind matches, we can always use SimpleBlock.
-- 
2.43.0


From 30a4b554693c6f4c18367d54ce68587e74667803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:07 +0000
Subject: [PATCH 02/43] fix: parse a block anchor with no following block
 instead of looping forever

Block metadata consisting only of an anchor was considered empty, so it
was not treated as metadata without a block.
---
 parser/src/blocks/block.rs    | 1 +
 parser/src/blocks/metadata.rs | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser/src/blocks/block.rs b/parser/src/blocks/block.rs
index 780c36b..b0470a5 100644
--- a/parser/src/blocks/block.rs
+++ b/parser/src/blocks/block.rs
@@ -308,6 +308,7 @@ impl<'src> Block<'src> {
             metadata.title_source = None;
             metadata.title = None;
             metadata.anchor = None;
+            metadata.anchor_reftext = None;
             metadata.attrlist = None;
             metadata.block_start = metadata.source;
         }
diff --git a/parser/src/blocks/metadata.rs b/parser/src/blocks/metadata.rs
index dc0df46..1f6f81a 100644
--- a/parser/src/blocks/metadata.rs
+++ b/parser/src/blocks/metadata.rs
@@ -171,9 +171,9 @@ impl<'src> BlockMetadata<'src> {
         }
     }
 
-    /// Return `true` if both `title` and `attrlist` are empty.
+    /// Return `true` if `title`, `anchor`, and `attrlist` are all empty.
     pub(crate) fn is_empty(&self) -> bool {
-        self.title.is_none() && self.attrlist.is_none()
+        self.title.is_none() && self.anchor.is_none() && self.attrlist.is_none()
     }
 
     /// Return `true` if this block metadata has either the `discrete` or
-- 
2.43.0


From 61e1be54f52115f6d2ad9dc9a294d194ff122459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:24 +0000
Subject: [PATCH 03/43] fix: treat a line of only Unicode white space as empty
 instead of looping forever

Such a line was not considered empty, but also yielded no block content
because trailing white space is trimmed with the Unicode definition.
---
 parser/src/span/line.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/span/line.rs b/parser/src/span/line.rs
index 506a9a1..cdf2639 100644
--- a/parser/src/span/line.rs
+++ b/parser/src/span/line.rs
@@ -57,7 +57,7 @@ impl<'src> Span<'src> {
     pub(crate) fn take_empty_line(self) -> Option<MatchedItem<'src, Self>> {
         let l = self.take_line();
 
-        if l.item.data().bytes().all(|b| b == b' ' || b == b'\t') {
+        if l.item.data().trim_end().is_empty() {
             Some(l)
         } else {
             None
-- 
2.43.0


From 7754aba31b8e19557c8a9134bc07ea6ec838f717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:49 +0000
Subject: [PATCH 04/43] fix: require a target in the inline image and icon
 macros instead of panicking

image:[...] matched with no target group and indexing it panicked. As in
Asciidoctor, the target is required, but may be a single character.
---
 parser/src/content/macros.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/parser/src/content/macros.rs b/parser/src/content/macros.rs
index 0217002..f3561ff 100644
--- a/parser/src/content/macros.rs
+++ b/parser/src/content/macros.rs
@@ -111,9 +111,11 @@ static INLINE_IMAGE_MACRO: LazyLock<Regex> = LazyLock::new(|| {
 
             (                           # Group 1: the target
                 [^:\s\[\n]                  # First char: not colon, whitespace, [, or newline
-                [^\[\n]*?                   # Middle chars: any except [ or newline, lazily
-                [^\s\[\n]                   # Last char: not whitespace, [, or newline
-            )?                          # Entire target group is optional
+                (?:
+                    [^\[\n]*?               # Middle chars: any except [ or newline, lazily
+                    [^\s\[\n]               # Last char: not whitespace, [, or newline
+                )?                          # Target may be a single character
+            )
 
             \[                          # Opening square bracket
 
-- 
2.43.0


From d19796c5174e6f528a21a3801964259af5e230b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:25 +0000
Subject: [PATCH 05/43] fix: require a target in the inline link macro instead
 of panicking

'link: [x]' matched the alternative for an empty target, which consumed
one character and left the target group unset; indexing it panicked.
---
 parser/src/content/macros.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/parser/src/content/macros.rs b/parser/src/content/macros.rs
index f3561ff..e7fc3b3 100644
--- a/parser/src/content/macros.rs
+++ b/parser/src/content/macros.rs
@@ -419,16 +419,13 @@ static INLINE_LINK_MACRO: LazyLock<Regex> = LazyLock::new(|| {
 
         :                       # Colon after macro name
 
-        (?:                     # Non-capturing outer group
-            ().                 #   capture group 2: empty target
-          | ([^:\s\[] [^\s\[]*) #   capture group 3: valid target (no colon/space/'[')
-        )
+        ([^:\s\[] [^\s\[]*)     # Capture group 2: valid target (no colon/space/'[')
 
         \[                      # Opening square bracket
 
         (?:                     # Non-capturing outer group
-            ()                  #   capture group 4: empty label
-          | (.*?[^\\])          #   capture group 5: minimally match anything, not ending in '\'
+            ()                  #   capture group 3: empty label
+          | (.*?[^\\])          #   capture group 4: minimally match anything, not ending in '\'
         )
 
         \]                      # Closing square bracket
@@ -449,21 +446,21 @@ impl Replacer for InlineLinkMacroReplacer<'_> {
         }
 
         let (mailto, mailto_text, mut target) = if caps.get(1).is_some() {
-            let mailto_text = &caps[3];
+            let mailto_text = &caps[2];
             (
                 caps.get(1).map(|c| c.as_str()),
                 Some(mailto_text),
                 format!("mailto:{mailto_text}"),
             )
         } else {
-            (None, None, caps[3].to_string())
+            (None, None, caps[2].to_string())
         };
 
         let mut attrlist: Option<Attrlist<'_>> = None;
         let link_type = LinkRenderType::Link;
 
         let mut link_text = caps
-            .get(5)
+            .get(4)
             .map(|c| c.as_str().to_string())
             .unwrap_or_default();
 
-- 
2.43.0


From 919e127a3dbc31024601dce1f90aca88fbf8e035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:52 +0000
Subject: [PATCH 06/43] fix: restart the lookahead search at the start of the
 remaining text

The end of the last match referred to the text before skipping ahead, so
text was lost or slicing panicked when a match preceded the retry.
---
 parser/src/internal/regex.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/src/internal/regex.rs b/parser/src/internal/regex.rs
index a5b0db7..d37ec25 100644
--- a/parser/src/internal/regex.rs
+++ b/parser/src/internal/regex.rs
@@ -37,6 +37,7 @@ pub fn replace_with_lookahead<'h, LR: LookaheadReplacer>(
                 LookaheadResult::SkipAheadAndRetry(n) => {
                     assert!(n > 0);
                     haystack = &haystack[m.start() + n..];
+                    last_match = 0;
                     continue 'retry;
                 }
             }
-- 
2.43.0


From e8b6e8075cc903d6a324cee5ff89657ae8a98b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:56 +0000
Subject: [PATCH 07/43] fix: skip a whole character ahead of monospaced text
 followed by a quote

The character before the opening backtick may take more than one byte, in
which case slicing after its first byte panicked.
---
 parser/src/content/substitution_step.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/src/content/substitution_step.rs b/parser/src/content/substitution_step.rs
index 7215f7e..bce6581 100644
--- a/parser/src/content/substitution_step.rs
+++ b/parser/src/content/substitution_step.rs
@@ -316,7 +316,11 @@ impl LookaheadReplacer for QuoteReplacer<'_> {
             && self.scope == QuoteScope::Constrained
             && after.starts_with(['"', '\'', '`'])
         {
-            let skip_ahead = if caps[0].starts_with('\\') { 2 } else { 1 };
+            let skip_ahead = if caps[0].starts_with('\\') {
+                2
+            } else {
+                caps[0].chars().next().map_or(1, |c| c.len_utf8())
+            };
             dest.push_str(&caps[0][0..skip_ahead]);
             return LookaheadResult::SkipAheadAndRetry(skip_ahead);
         }
-- 
2.43.0


From e93f762899809e335baa433c6dc0c6ff5ccf8be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:13 +0000
Subject: [PATCH 08/43] fix: render a bare URL followed by a closing angle
 bracket instead of panicking

A URL before '&gt;' matches capture group 6 even when it isn't preceded
by '&lt;'; the code then indexed capture groups 7 and 8, which are unset.
---
 parser/src/content/macros.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/parser/src/content/macros.rs b/parser/src/content/macros.rs
index e7fc3b3..e6b1ee9 100644
--- a/parser/src/content/macros.rs
+++ b/parser/src/content/macros.rs
@@ -296,7 +296,11 @@ impl Replacer for InlineLinkReplacer<'_> {
 
         let mut target = format!(
             "{scheme}{link_text}",
-            link_text = caps.get(4).map(|m| m.as_str()).unwrap_or_else(|| &caps[7])
+            link_text = caps
+                .get(4)
+                .or_else(|| caps.get(6))
+                .map(|m| m.as_str())
+                .unwrap_or_else(|| &caps[7])
         );
 
         let mut suffix = "".to_owned();
@@ -324,8 +328,11 @@ impl Replacer for InlineLinkReplacer<'_> {
                 return;
             }
 
-            let tail = &caps[8];
-            if tail == ";" || tail == ":" {
+            let tail = caps.get(8).map_or("", |m| m.as_str());
+            if caps.get(6).is_some() {
+                // A closing angle bracket without an opening one isn't part of the URL.
+                suffix = "&gt;".to_owned();
+            } else if tail == ";" || tail == ":" {
                 // Move trailing semicolon or colon and adjacent ) if it exists
                 // out of the URL.
                 target.truncate(target.len() - 1);
-- 
2.43.0


From 06a6890fa771ccb15c42f7d089640f8f8d202337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:42 +0000
Subject: [PATCH 09/43] fix: don't restore a passthrough inside itself

A passthrough containing the placeholder of its own index was restored
recursively until the stack overflowed.
---
 parser/src/content/passthroughs.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/parser/src/content/passthroughs.rs b/parser/src/content/passthroughs.rs
index d8ca641..0ad809d 100644
--- a/parser/src/content/passthroughs.rs
+++ b/parser/src/content/passthroughs.rs
@@ -67,7 +67,7 @@ impl Passthroughs {
             return;
         }
 
-        let replacer = PassthroughRestoreReplacer(self, parser);
+        let replacer = PassthroughRestoreReplacer(self, parser, self.0.len());
 
         if let Cow::Owned(new_result) =
             PASS_WITH_INDEX.replace_all(content.rendered().as_ref(), replacer)
@@ -430,14 +430,16 @@ impl Replacer for InlinePassReplacer<'_> {
     }
 }
 
+/// The third member is the number of passthroughs that may be referenced: A
+/// passthrough can only contain passthroughs that were saved before it.
 #[derive(Debug)]
-struct PassthroughRestoreReplacer<'p>(&'p Passthroughs, &'p Parser);
+struct PassthroughRestoreReplacer<'p>(&'p Passthroughs, &'p Parser, usize);
 
 impl Replacer for PassthroughRestoreReplacer<'_> {
     fn replace_append(&mut self, caps: &Captures<'_>, dest: &mut String) {
         let index = caps[1].parse::<usize>().unwrap_or_default();
 
-        let Some(pass) = self.0.0.get(index) else {
+        let Some(pass) = self.0.0.get(index).filter(|_| index < self.2) else {
             dest.push_str(&format!(
                 "(INTERNAL ERROR: Unresolved passthrough index {index})"
             ));
@@ -475,7 +477,7 @@ impl Replacer for PassthroughRestoreReplacer<'_> {
 
         if subbed_text.rendered().contains('\u{96}') {
             // Recursively apply passthrough replacement and write the result.
-            let replacer = PassthroughRestoreReplacer(self.0, self.1);
+            let replacer = PassthroughRestoreReplacer(self.0, self.1, index);
 
             let new_result = PASS_WITH_INDEX.replace_all(subbed_text.rendered().as_ref(), replacer);
 
-- 
2.43.0


From 9c47fcd091a880f5d4beb535335cda9bf3fa3775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:06 +0000
Subject: [PATCH 10/43] fix: render SVG images with the inline or interactive
 option instead of panicking

There are no safe modes yet; as in Asciidoctor's SafeMode::SECURE, these
options have no effect.
---
 .../parser/inline_substitution_renderer.rs    | 55 ++++---------------
 1 file changed, 12 insertions(+), 43 deletions(-)

diff --git a/parser/src/parser/inline_substitution_renderer.rs b/parser/src/parser/inline_substitution_renderer.rs
index dd0ab13..1feab97 100644
--- a/parser/src/parser/inline_substitution_renderer.rs
+++ b/parser/src/parser/inline_substitution_renderer.rs
@@ -508,50 +508,19 @@ impl InlineSubstitutionRenderer for HtmlSubstitutionRenderer {
             ));
         }
 
-        let format = params
-            .attrlist
-            .named_attribute("format")
-            .map(|format| format.value());
-
         // TO DO (https://github.com/scouten/asciidoc-parser/issues/277):
-        // Enforce non-safe mode. Add this contraint to following `if` clause:
-        // `&& node.document.safe < SafeMode::SECURE`
-
-        let img = if format == Some("svg") || params.target.contains(".svg") {
-            // NOTE: In the SVG case we may have to ignore the attrs list.
-            if params.attrlist.has_option("inline") {
-                todo!(
-                    "Port this: {}",
-                    r#"img = (read_svg_contents node, target) || %(<span class="alt">#{node.alt}</span>)
-                    NOTE: The attrs list calculated above may not be usable.
-                    "#
-                );
-            } else if params.attrlist.has_option("interactive") {
-                todo!(
-                    "Port this: {}",
-                    r##"
-                        fallback = (node.attr? 'fallback') ? %(<img src="#{node.image_uri node.attr 'fallback'}" alt="#{encode_attribute_value node.alt}"#{attrs}#{@void_element_slash}>) : %(<span class="alt">#{node.alt}</span>)
-                        img = %(<object type="image/svg+xml" data="#{src = node.image_uri target}"#{attrs}>#{fallback}</object>)
-                        NOTE: The attrs list calculated above may not be usable.
-                    "##
-                );
-            } else {
-                format!(
-                    r#"<img {attrs}{void_element_slash}>"#,
-                    attrs = attrs.join(" "),
-                    void_element_slash = "",
-                )
-            }
-        } else {
-            format!(
-                r#"<img {attrs}{void_element_slash}>"#,
-                attrs = attrs.join(" "),
-                void_element_slash = "",
-                // img = %(<img src="#{src = node.image_uri target}"
-                // alt="#{encode_attribute_value node.alt}"#{attrs}#{@
-                // void_element_slash}>)
-            )
-        };
+        // In the SVG case, the `inline` and `interactive` options only have an effect
+        // in modes less strict than `SafeMode::SECURE`. Port those when implementing
+        // safe modes.
+
+        let img = format!(
+            r#"<img {attrs}{void_element_slash}>"#,
+            attrs = attrs.join(" "),
+            void_element_slash = "",
+            // img = %(<img src="#{src = node.image_uri target}"
+            // alt="#{encode_attribute_value node.alt}"#{attrs}#{@
+            // void_element_slash}>)
+        );
 
         render_icon_or_image(params.attrlist, &img, &src, "image", dest);
     }
-- 
2.43.0


From d7b8b0eae6c31e37f6d484c73a0b8dcd5d5d3bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:56 +0000
Subject: [PATCH 11/43] fix: record the source line of an unresolved include
 directive

When the first line of a file, or the first line after an include, was an
unresolved include directive, it was attributed to the wrong file.
---
 parser/src/parser/preprocessor.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parser/src/parser/preprocessor.rs b/parser/src/parser/preprocessor.rs
index c3fe096..060e38d 100644
--- a/parser/src/parser/preprocessor.rs
+++ b/parser/src/parser/preprocessor.rs
@@ -142,6 +142,14 @@ impl<'p> PreprocessorState<'p> {
                     // Re-report the including file if there's more content.
                     has_reported_file = false;
                 } else {
+                    if !has_reported_file {
+                        has_reported_file = true;
+                        self.source_map.append(
+                            self.output_line_number,
+                            SourceLine(to_owned(file_name), source_line_number),
+                        );
+                    }
+
                     self.output_line_number += 1;
                     self.output.push_str(&format!(
                         "Unresolved directive in {file_name} - {line}\n",
-- 
2.43.0


From ce7974c4ec0bd23c2575471554c828c0fa93adb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:07 +0000
Subject: [PATCH 12/43] fix: limit the depth of nested include files

A file that includes itself, directly or indirectly, was included
recursively until the stack overflowed.
---
 parser/src/parser/preprocessor.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/parser/src/parser/preprocessor.rs b/parser/src/parser/preprocessor.rs
index 060e38d..b07a93c 100644
--- a/parser/src/parser/preprocessor.rs
+++ b/parser/src/parser/preprocessor.rs
@@ -42,6 +42,10 @@ pub(crate) fn preprocess(source: &str, parser: &Parser) -> (String, SourceMap) {
     (state.output, state.source_map)
 }
 
+/// Maximum number of nested include files. This is the default value of the
+/// `max-include-depth` attribute.
+const MAX_INCLUDE_DEPTH: usize = 64;
+
 #[derive(Debug)]
 struct PreprocessorState<'p> {
     parser: &'p mut Parser,
@@ -130,10 +134,12 @@ impl<'p> PreprocessorState<'p> {
                     })
                     .unwrap_or_default();
 
-                if let Some(include_text) =
-                    self.parser.include_file_handler.as_ref().and_then(|ifh| {
-                        ifh.resolve_target(file_name, &target, &attrlist, self.parser)
-                    })
+                if let Some(include_text) = self
+                    .parser
+                    .include_file_handler
+                    .as_ref()
+                    .filter(|_| self.include_depth <= MAX_INCLUDE_DEPTH)
+                    .and_then(|ifh| ifh.resolve_target(file_name, &target, &attrlist, self.parser))
                 {
                     // TODO: Use process_adoc_include or (TBD) depending on
                     // whether it's an Asciidoc file type.
-- 
2.43.0


From 132ee77db7993c46ade06fd60556cb65d1907ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:50 +0000
Subject: [PATCH 13/43] fix: keep an attribute's modification context when its
 value changes

Setting an attribute in the header or body made it modifiable anywhere,
so e.g. an attribute that is only modifiable by the API or in the header
could be changed in the body once the header had set it.
---
 parser/src/parser/parser.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/parser/src/parser/parser.rs b/parser/src/parser/parser.rs
index 12be260..5bbd69f 100644
--- a/parser/src/parser/parser.rs
+++ b/parser/src/parser/parser.rs
@@ -386,6 +386,11 @@ impl Parser {
             return;
         }
 
+        let modification_context = existing_attr
+            .map_or(ModificationContext::Anywhere, |attr| {
+                attr.modification_context.clone()
+            });
+
         let mut value = attr.value().clone();
 
         if let InterpretedValue::Set = value
@@ -396,7 +401,7 @@ impl Parser {
 
         let attribute_value = AttributeValue {
             allowable_value: AllowableValue::Any,
-            modification_context: ModificationContext::Anywhere,
+            modification_context,
             value,
         };
 
@@ -434,8 +439,10 @@ impl Parser {
     ) {
         let attr_name = remap_attr_name(attr.name().data());
 
+        let existing_attr = self.attribute_values.get(&attr_name);
+
         // Verify that we have permission to overwrite any existing attribute value.
-        if let Some(existing_attr) = self.attribute_values.get(&attr_name)
+        if let Some(existing_attr) = existing_attr
             && (existing_attr.modification_context != ModificationContext::Anywhere
                 && existing_attr.modification_context != ModificationContext::ApiOrDocumentBody)
         {
@@ -446,9 +453,14 @@ impl Parser {
             return;
         }
 
+        let modification_context = existing_attr
+            .map_or(ModificationContext::Anywhere, |attr| {
+                attr.modification_context.clone()
+            });
+
         let attribute_value = AttributeValue {
             allowable_value: AllowableValue::Any,
-            modification_context: ModificationContext::Anywhere,
+            modification_context,
             value: attr.value().clone(),
         };
 
-- 
2.43.0


From 0764a7626fea1bf14a86525ba72928fde1a825be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:55 +0000
Subject: [PATCH 14/43] fix: don't override locked attributes with values
 derived from the header

The document title, author line, and revision line replaced the values of
attributes which may only be modified by the API or in the body.
---
 parser/src/parser/parser.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/parser/src/parser/parser.rs b/parser/src/parser/parser.rs
index 5bbd69f..1c14ae9 100644
--- a/parser/src/parser/parser.rs
+++ b/parser/src/parser/parser.rs
@@ -419,9 +419,24 @@ impl Parser {
     ) {
         let attr_name = remap_attr_name(name);
 
+        let existing_attr = self.attribute_values.get(&attr_name);
+
+        // Don't overwrite an existing attribute value without permission.
+        if let Some(existing_attr) = existing_attr
+            && (existing_attr.modification_context == ModificationContext::ApiOnly
+                || existing_attr.modification_context == ModificationContext::ApiOrDocumentBody)
+        {
+            return;
+        }
+
+        let modification_context = existing_attr
+            .map_or(ModificationContext::Anywhere, |attr| {
+                attr.modification_context.clone()
+            });
+
         let attribute_value = AttributeValue {
             allowable_value: AllowableValue::Any,
-            modification_context: ModificationContext::Anywhere,
+            modification_context,
             value: InterpretedValue::Value(value.as_ref().to_owned()),
         };
 
-- 
2.43.0


From 6bdf541e6351ad8d63472f01eb6e37c0eb5f7319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:11 +0000
Subject: [PATCH 15/43] fix: restart appendix numbering for each document

Only the numbering of normal sections was reset when parsing another
document with the same parser.
---
 parser/src/parser/parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/src/parser/parser.rs b/parser/src/parser/parser.rs
index 1c14ae9..c88d450 100644
--- a/parser/src/parser/parser.rs
+++ b/parser/src/parser/parser.rs
@@ -123,6 +123,7 @@ impl Parser {
 
         // Reset section numbering for each new document.
         self.last_section_number = SectionNumber::default();
+        self.last_appendix_section_number.components.clear();
 
         Document::parse(&preprocessed_source, source_map, self)
     }
-- 
2.43.0


From 29c3ee8c0511e1a8c17c6298b63c28c4175f6952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:28 +0000
Subject: [PATCH 16/43] fix: don't take an indented line for a section heading

---
 parser/src/blocks/section.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/src/blocks/section.rs b/parser/src/blocks/section.rs
index bba3540..c59ec11 100644
--- a/parser/src/blocks/section.rs
+++ b/parser/src/blocks/section.rs
@@ -292,6 +292,10 @@ fn parse_title_line<'src>(
         }
     }
 
+    if count == 0 {
+        return None;
+    }
+
     if count == 1 {
         warnings.push(Warning {
             source: source.take_normalized_line().item,
-- 
2.43.0


From 36c45c52e325a2ba1a0fa505c849c3ed33b0c423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:51 +0000
Subject: [PATCH 17/43] fix: skip empty lines after each block instead of
 looping forever at the end

---
 parser/src/blocks/parse_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/blocks/parse_utils.rs b/parser/src/blocks/parse_utils.rs
index 269fec4..5f825f6 100644
--- a/parser/src/blocks/parse_utils.rs
+++ b/parser/src/blocks/parse_utils.rs
@@ -32,7 +32,7 @@ where
         }
 
         if let Some(mi) = maw.item {
-            source = mi.after;
+            source = mi.after.discard_empty_lines();
             blocks.push(mi.item);
         }
     }
-- 
2.43.0


From 4c4bbb5dc2a84bfa96ed20418cf79a8b7b10d97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:11 +0000
Subject: [PATCH 18/43] fix: register a section under the ID that it reports

---
 parser/src/blocks/section.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parser/src/blocks/section.rs b/parser/src/blocks/section.rs
index c59ec11..e6a5c09 100644
--- a/parser/src/blocks/section.rs
+++ b/parser/src/blocks/section.rs
@@ -97,11 +97,12 @@ impl<'src> SectionBlock<'src> {
 
         let proposed_base_id = generate_section_id(section_title.rendered(), parser);
 
+        // Same precedence as `IsBlock::id`.
         let manual_id = metadata
-            .attrlist
+            .anchor
             .as_ref()
-            .and_then(|a| a.id())
-            .or_else(|| metadata.anchor.as_ref().map(|anchor| anchor.data()));
+            .map(|anchor| anchor.data())
+            .or_else(|| metadata.attrlist.as_ref().and_then(|a| a.id()));
 
         let reftext = metadata
             .attrlist
-- 
2.43.0


From a0e75eab8cfeb918b012505bd1e87d643d1d3b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:15 +0000
Subject: [PATCH 19/43] fix: register the ID of a thematic or page break

---
 parser/src/blocks/block.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/parser/src/blocks/block.rs b/parser/src/blocks/block.rs
index b0470a5..3db5d45 100644
--- a/parser/src/blocks/block.rs
+++ b/parser/src/blocks/block.rs
@@ -276,9 +276,19 @@ impl<'src> Block<'src> {
             {
                 // Continue quietly if `Break` parser rejects this block.
 
+                let block = Self::Break(mi_break.item);
+
+                Self::register_block_id(
+                    block.id(),
+                    block.title(),
+                    block.span(),
+                    parser,
+                    &mut warnings,
+                );
+
                 return MatchAndWarnings {
                     item: Some(MatchedItem {
-                        item: Self::Break(mi_break.item),
+                        item: block,
                         after: mi_break.after,
                     }),
                     warnings,
-- 
2.43.0


From b314dc403371c035db94b9ac8af43f2727f759ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:31 +0000
Subject: [PATCH 20/43] fix: recognize audio block macros

---
 parser/src/blocks/block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/blocks/block.rs b/parser/src/blocks/block.rs
index 3db5d45..57858b5 100644
--- a/parser/src/blocks/block.rs
+++ b/parser/src/blocks/block.rs
@@ -217,7 +217,7 @@ impl<'src> Block<'src> {
 
             if line.item.starts_with("image::")
                 || line.item.starts_with("video::")
-                || line.item.starts_with("video::")
+                || line.item.starts_with("audio::")
             {
                 let mut media_block_maw = MediaBlock::parse(&metadata, parser);
 
-- 
2.43.0


From 766296b1c3f90377fd01d9161bdbdee2cb8ea64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:35 +0000
Subject: [PATCH 21/43] fix: keep the reference text of a media block's anchor

---
 parser/src/blocks/media.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/blocks/media.rs b/parser/src/blocks/media.rs
index 41ce255..e7e2c72 100644
--- a/parser/src/blocks/media.rs
+++ b/parser/src/blocks/media.rs
@@ -129,7 +129,7 @@ impl<'src> MediaBlock<'src> {
                     title_source: metadata.title_source,
                     title: metadata.title.clone(),
                     anchor: metadata.anchor,
-                    anchor_reftext: None,
+                    anchor_reftext: metadata.anchor_reftext,
                     attrlist: metadata.attrlist.clone(),
                 },
 
-- 
2.43.0


From f600e8da9cceb5700627920265bd3b47b6c50c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:40 +0000
Subject: [PATCH 22/43] fix: apply substitutions to the content of an
 unterminated delimited block

---
 parser/src/blocks/raw_delimited.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser/src/blocks/raw_delimited.rs b/parser/src/blocks/raw_delimited.rs
index 8561da4..fbe552e 100644
--- a/parser/src/blocks/raw_delimited.rs
+++ b/parser/src/blocks/raw_delimited.rs
@@ -132,10 +132,15 @@ impl<'src> RawDelimitedBlock<'src> {
 
         let content = content_start.trim_remainder(next).trim_trailing_line_end();
 
+        let mut content: Content<'src> = content.into();
+
+        substitution_group = substitution_group.override_via_attrlist(metadata.attrlist.as_ref());
+        substitution_group.apply(&mut content, parser, metadata.attrlist.as_ref());
+
         Some(MatchAndWarnings {
             item: Some(MatchedItem {
                 item: Self {
-                    content: content.into(),
+                    content,
                     content_model,
                     context: context.into(),
                     source: metadata
-- 
2.43.0


From 7d5ddf298de44627cd2fa12be60ea275c2f40a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:36 +0000
Subject: [PATCH 23/43] fix: keep the empty line that ends a continued
 attribute entry when preprocessing

---
 parser/src/parser/preprocessor.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/parser/src/parser/preprocessor.rs b/parser/src/parser/preprocessor.rs
index b07a93c..9ac8a72 100644
--- a/parser/src/parser/preprocessor.rs
+++ b/parser/src/parser/preprocessor.rs
@@ -3,7 +3,7 @@ use std::{borrow::Cow, sync::LazyLock};
 use regex::{Regex, Replacer};
 
 use crate::{
-    HasSpan, Parser, Span,
+    Parser, Span,
     attributes::{Attrlist, AttrlistContext},
     document::{Attribute, InterpretedValue},
     parser::{SourceLine, SourceMap},
@@ -105,12 +105,15 @@ impl<'p> PreprocessorState<'p> {
                 self.parser
                     .set_attribute_from_body(&attr.item, &mut warnings);
 
-                self.output.push_str(attr.item.span().data());
+                // Keep all lines of the attribute entry, including an empty line that ends it.
+                let entry = original_source
+                    .trim_remainder(attr.after)
+                    .trim_trailing_line_end();
+
+                self.output.push_str(entry.data());
                 self.output.push('\n');
 
-                self.output_line_number += attr
-                    .item
-                    .span()
+                self.output_line_number += entry
                     .data()
                     .as_bytes()
                     .iter()
-- 
2.43.0


From 266b1a0fd5944f02f8da6b83dff938704ad81ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:05 +0000
Subject: [PATCH 24/43] fix: set revision attributes to the values that the
 revision line reports

---
 parser/src/document/revision_line.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/parser/src/document/revision_line.rs b/parser/src/document/revision_line.rs
index 06f1ac3..a61b657 100644
--- a/parser/src/document/revision_line.rs
+++ b/parser/src/document/revision_line.rs
@@ -45,20 +45,24 @@ impl<'src> RevisionLine<'src> {
             }
         };
 
+        // The document attributes get the same values as this revision line reports.
+        let revnumber = revnumber.map(|s| apply_header_subs(&s, parser));
         if let Some(revnumber) = revnumber.as_deref() {
             parser.set_attribute_by_value_from_header("revnumber", revnumber);
         }
 
+        let revdate = apply_header_subs(&revdate, parser);
         parser.set_attribute_by_value_from_header("revdate", &revdate);
 
+        let revremark = revremark.map(|s| apply_header_subs(&s, parser));
         if let Some(revremark) = revremark.as_deref() {
             parser.set_attribute_by_value_from_header("revremark", revremark);
         }
 
         Self {
-            revnumber: revnumber.map(|s| apply_header_subs(&s, parser)),
-            revdate: apply_header_subs(&revdate, parser),
-            revremark: revremark.map(|s| apply_header_subs(&s, parser)),
+            revnumber,
+            revdate,
+            revremark,
             source,
         }
     }
-- 
2.43.0


From f2b1c566b68225ad5b8a527f069c991b0447ab1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:13 +0000
Subject: [PATCH 25/43] fix: require white space between an attribute entry's
 name and value

---
 parser/src/document/attribute.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/src/document/attribute.rs b/parser/src/document/attribute.rs
index a069ce4..94b40ff 100644
--- a/parser/src/document/attribute.rs
+++ b/parser/src/document/attribute.rs
@@ -60,6 +60,11 @@ impl<'src> Attribute<'src> {
 
         let line = line.take_prefix(":")?;
 
+        // A value must be separated from the name by white space.
+        if !line.after.is_empty() && !line.after.starts_with([' ', '\t']) {
+            return None;
+        }
+
         let (value, value_source) = if unset {
             // Ensure line is now empty except for comment.
             (InterpretedValue::Unset, None)
-- 
2.43.0


From 55bac2eff823eebacb2385996794e8202c45ccf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:33 +0000
Subject: [PATCH 26/43] fix: keep plus signs at the ends of an attribute
 value's lines unless they mark a hard break

---
 parser/src/document/attribute.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/parser/src/document/attribute.rs b/parser/src/document/attribute.rs
index 94b40ff..4b0029d 100644
--- a/parser/src/document/attribute.rs
+++ b/parser/src/document/attribute.rs
@@ -199,12 +199,13 @@ impl InterpretedValue {
                         .trim_end_matches('\\')
                         .trim_end_matches(' ');
 
-                    if line.ends_with('+') {
-                        format!("{}\n", line.trim_end_matches('+').trim_end_matches(' '))
-                    } else if count < last_count {
-                        format!("{line} ")
-                    } else {
+                    if count == last_count {
                         line.to_string()
+                    } else if let Some(line) = line.strip_suffix(" +") {
+                        // Hard line break.
+                        format!("{}\n", line.trim_end_matches(' '))
+                    } else {
+                        format!("{line} ")
                     }
                 })
                 .collect();
-- 
2.43.0


From 81ea4af95ad3b06fc33cce30234f69b5fb38fca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:44 +0000
Subject: [PATCH 27/43] fix: recognize attribute entries with a tab before
 their value in the body

---
 parser/src/blocks/block.rs        | 1 -
 parser/src/parser/preprocessor.rs | 1 -
 2 files changed, 2 deletions(-)

diff --git a/parser/src/blocks/block.rs b/parser/src/blocks/block.rs
index 57858b5..4990060 100644
--- a/parser/src/blocks/block.rs
+++ b/parser/src/blocks/block.rs
@@ -134,7 +134,6 @@ impl<'src> Block<'src> {
 
         // Look for document attributes first since these don't support block metadata.
         if first_line.item.starts_with(':')
-            && (first_line.item.ends_with(':') || first_line.item.contains(": "))
             && let Some(attr) = Attribute::parse(source, parser)
         {
             let mut warnings: Vec<Warning<'src>> = vec![];
diff --git a/parser/src/parser/preprocessor.rs b/parser/src/parser/preprocessor.rs
index 9ac8a72..90af919 100644
--- a/parser/src/parser/preprocessor.rs
+++ b/parser/src/parser/preprocessor.rs
@@ -86,7 +86,6 @@ impl<'p> PreprocessorState<'p> {
 
             if self.can_have_attribute
                 && line.starts_with(':')
-                && (line.ends_with(':') || line.contains(": "))
                 && let Some(attr) = Attribute::parse(original_source, self.parser)
             {
                 // Process attribute entries so they're available for include directives. NOTE:
-- 
2.43.0


From 2a8604da8908faf7fcbcfb2b0f427f3dc9f1ac43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:45 +0000
Subject: [PATCH 28/43] fix: drop a continuation marker that nothing follows
 from an attribute's value

---
 parser/src/document/attribute.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/document/attribute.rs b/parser/src/document/attribute.rs
index 4b0029d..d2fc9b1 100644
--- a/parser/src/document/attribute.rs
+++ b/parser/src/document/attribute.rs
@@ -179,7 +179,7 @@ impl InterpretedValue {
         let data = raw_value.data();
         let mut content = Content::from(*raw_value);
 
-        if data.contains('\n') {
+        if data.contains('\n') || data.ends_with('\\') {
             let lines: Vec<&str> = data.lines().collect();
             let last_count = lines.len() - 1;
 
-- 
2.43.0


From 1b67b816d98eaad9520e91293207b7ff2d02a1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:11 +0000
Subject: [PATCH 29/43] fix: apply the header's rule to attribute entries of
 the header when preprocessing

---
 parser/src/parser/preprocessor.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parser/src/parser/preprocessor.rs b/parser/src/parser/preprocessor.rs
index 90af919..5dccad0 100644
--- a/parser/src/parser/preprocessor.rs
+++ b/parser/src/parser/preprocessor.rs
@@ -101,8 +101,13 @@ impl<'p> PreprocessorState<'p> {
                 }
 
                 let mut warnings: Vec<Warning> = vec![];
-                self.parser
-                    .set_attribute_from_body(&attr.item, &mut warnings);
+                if self.in_document_header {
+                    self.parser
+                        .set_attribute_from_header(&attr.item, &mut warnings);
+                } else {
+                    self.parser
+                        .set_attribute_from_body(&attr.item, &mut warnings);
+                }
 
                 // Keep all lines of the attribute entry, including an empty line that ends it.
                 let entry = original_source
-- 
2.43.0


From 6f255dbfa81b87daf1f5b0d9e662c9aa52adbf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:48 +0000
Subject: [PATCH 30/43] fix: render a section's title with the attributes in
 force at its place

---
 parser/src/blocks/section.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/parser/src/blocks/section.rs b/parser/src/blocks/section.rs
index e6a5c09..697da9e 100644
--- a/parser/src/blocks/section.rs
+++ b/parser/src/blocks/section.rs
@@ -81,6 +81,13 @@ impl<'src> SectionBlock<'src> {
                 None
             };
 
+        // Render the title BEFORE parsing child blocks because those might change the
+        // values of attributes that the title or its generated ID depend on.
+        let mut section_title = Content::from(level_and_title.item.1);
+        SubstitutionGroup::Title.apply(&mut section_title, parser, metadata.attrlist.as_ref());
+
+        let proposed_base_id = generate_section_id(section_title.rendered(), parser);
+
         let mut most_recent_level = level;
 
         let mut maw_blocks = parse_blocks_until(
@@ -92,11 +99,6 @@ impl<'src> SectionBlock<'src> {
         let blocks = maw_blocks.item;
         let source = metadata.source.trim_remainder(blocks.after);
 
-        let mut section_title = Content::from(level_and_title.item.1);
-        SubstitutionGroup::Title.apply(&mut section_title, parser, metadata.attrlist.as_ref());
-
-        let proposed_base_id = generate_section_id(section_title.rendered(), parser);
-
         // Same precedence as `IsBlock::id`.
         let manual_id = metadata
             .anchor
-- 
2.43.0


From 6940dfb2914ef46e696557e28c5ec5baaa311c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:10 +0000
Subject: [PATCH 31/43] fix: find the end of the document header when
 preprocessing as the header's parser does

---
 parser/src/parser/preprocessor.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/parser/src/parser/preprocessor.rs b/parser/src/parser/preprocessor.rs
index 5dccad0..12a2621 100644
--- a/parser/src/parser/preprocessor.rs
+++ b/parser/src/parser/preprocessor.rs
@@ -50,6 +50,7 @@ const MAX_INCLUDE_DEPTH: usize = 64;
 struct PreprocessorState<'p> {
     parser: &'p mut Parser,
     in_document_header: bool,
+    has_document_title: bool,
     can_have_attribute: bool,
     include_depth: usize,
     output_line_number: usize,
@@ -62,6 +63,7 @@ impl<'p> PreprocessorState<'p> {
         Self {
             parser,
             in_document_header: true,
+            has_document_title: false,
             can_have_attribute: true,
             include_depth: 0,
             output_line_number: 1,
@@ -180,9 +182,17 @@ impl<'p> PreprocessorState<'p> {
                     );
                 }
 
-                if line.is_empty() {
-                    self.in_document_header = false;
+                // A blank line ends the document header only if it follows the title.
+                if line.data().trim_end_matches(' ').is_empty() {
+                    self.in_document_header &= !self.has_document_title;
                     self.can_have_attribute = true;
+                } else if self.in_document_header
+                    && !self.has_document_title
+                    && (!line.starts_with("//") || line.starts_with("///"))
+                {
+                    self.has_document_title = line.starts_with("= ");
+                    self.in_document_header = self.has_document_title;
+                    self.can_have_attribute = line.starts_with('=');
                 } else if !self.in_document_header {
                     self.can_have_attribute = false;
                 }
-- 
2.43.0


From e87a18c2f7a6da3d1f11711eeac64e5e12c6d398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:34 +0000
Subject: [PATCH 32/43] fix: apply verbatim substitutions to literal and source
 paragraphs

---
 parser/src/blocks/simple.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser/src/blocks/simple.rs b/parser/src/blocks/simple.rs
index 40bf845..c813f2e 100644
--- a/parser/src/blocks/simple.rs
+++ b/parser/src/blocks/simple.rs
@@ -220,7 +220,12 @@ fn parse_lines<'src>(
     let filtered_lines = filtered_lines.join("\n");
     let mut content: Content<'src> = Content::from_filtered(source, filtered_lines);
 
-    SubstitutionGroup::Normal
+    let substitution_group = match style {
+        SimpleBlockStyle::Literal | SimpleBlockStyle::Source => SubstitutionGroup::Verbatim,
+        _ => SubstitutionGroup::Normal,
+    };
+
+    substitution_group
         .override_via_attrlist(attrlist.as_ref())
         .apply(&mut content, parser, attrlist.as_ref());
 
-- 
2.43.0


From dd19d11adcc4442fd6a20977d3599127186b8425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:34 +0000
Subject: [PATCH 33/43] fix: keep lines that look like comments in literal,
 listing and source paragraphs

---
 parser/src/blocks/simple.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/src/blocks/simple.rs b/parser/src/blocks/simple.rs
index c813f2e..3a1cda1 100644
--- a/parser/src/blocks/simple.rs
+++ b/parser/src/blocks/simple.rs
@@ -197,7 +197,11 @@ fn parse_lines<'src>(
 
         next = line_mi.after;
 
-        if line.starts_with("//") && !line.starts_with("///") {
+        // Comment lines are part of the content of literal, listing, and source blocks.
+        if style == SimpleBlockStyle::Paragraph
+            && line.starts_with("//")
+            && !line.starts_with("///")
+        {
             continue;
         }
 
-- 
2.43.0


From 771c27d1961828f755572e7e009931c79766be54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:48 +0000
Subject: [PATCH 34/43] fix: report the substitutions that were applied to a
 paragraph

---
 parser/src/blocks/simple.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/parser/src/blocks/simple.rs b/parser/src/blocks/simple.rs
index 3a1cda1..6def60e 100644
--- a/parser/src/blocks/simple.rs
+++ b/parser/src/blocks/simple.rs
@@ -123,6 +123,16 @@ impl<'src> SimpleBlock<'src> {
     }
 }
 
+/// Find the substitutions that apply to a block of this style.
+fn substitution_group(style: SimpleBlockStyle, attrlist: Option<&Attrlist>) -> SubstitutionGroup {
+    let default_group = match style {
+        SimpleBlockStyle::Literal | SimpleBlockStyle::Source => SubstitutionGroup::Verbatim,
+        _ => SubstitutionGroup::Normal,
+    };
+
+    default_group.override_via_attrlist(attrlist)
+}
+
 /// Parse the content-bearing lines for this block.
 fn parse_lines<'src>(
     source: Span<'src>,
@@ -224,13 +234,7 @@ fn parse_lines<'src>(
     let filtered_lines = filtered_lines.join("\n");
     let mut content: Content<'src> = Content::from_filtered(source, filtered_lines);
 
-    let substitution_group = match style {
-        SimpleBlockStyle::Literal | SimpleBlockStyle::Source => SubstitutionGroup::Verbatim,
-        _ => SubstitutionGroup::Normal,
-    };
-
-    substitution_group
-        .override_via_attrlist(attrlist.as_ref())
+    substitution_group(style, attrlist.as_ref())
         .apply(&mut content, parser, attrlist.as_ref());
 
     Some(MatchedItem {
@@ -271,6 +275,10 @@ impl<'src> IsBlock<'src> for SimpleBlock<'src> {
     fn attrlist(&'src self) -> Option<&'src Attrlist<'src>> {
         self.attrlist.as_ref()
     }
+
+    fn substitution_group(&'src self) -> SubstitutionGroup {
+        substitution_group(self.style, self.attrlist.as_ref())
+    }
 }
 
 impl<'src> HasSpan<'src> for SimpleBlock<'src> {
-- 
2.43.0


From 2748a8a2751814a47a0dded4e3e4db95c95d21f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:05 +0000
Subject: [PATCH 35/43] fix: recognize delimited blocks with the literal style

---
 parser/src/blocks/block.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parser/src/blocks/block.rs b/parser/src/blocks/block.rs
index 4990060..119c168 100644
--- a/parser/src/blocks/block.rs
+++ b/parser/src/blocks/block.rs
@@ -155,8 +155,12 @@ impl<'src> Block<'src> {
             mut warnings,
         } = BlockMetadata::parse(source, parser);
 
-        let is_literal =
-            metadata.attrlist.as_ref().and_then(|a| a.block_style()) == Some("literal");
+        // The `literal` style makes a paragraph of anything but a delimited block.
+        let line = metadata.block_start.take_normalized_line().item;
+        let is_literal = metadata.attrlist.as_ref().and_then(|a| a.block_style())
+            == Some("literal")
+            && !RawDelimitedBlock::is_valid_delimiter(&line)
+            && !CompoundDelimitedBlock::is_valid_delimiter(&line);
 
         if !is_literal {
             if let Some(mut rdb_maw) = RawDelimitedBlock::parse(&metadata, parser)
-- 
2.43.0


From a64e1d19fd9f63f8200e2b5749313730d48ed98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:59 +0000
Subject: [PATCH 36/43] fix: take modifiers in a subs value relative to the
 substitutions of the block's style

---
 parser/src/content/substitution_group.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/content/substitution_group.rs b/parser/src/content/substitution_group.rs
index bf0a5b4..c0eb804 100644
--- a/parser/src/content/substitution_group.rs
+++ b/parser/src/content/substitution_group.rs
@@ -201,7 +201,7 @@ impl SubstitutionGroup {
             if let Some(sub_group) = attrlist
                 .named_attribute("subs")
                 .map(|attr| attr.value())
-                .and_then(|s| Self::from_custom_string(Some(self), s))
+                .and_then(|s| Self::from_custom_string(Some(&result), s))
             {
                 result = sub_group;
             }
-- 
2.43.0


From da120abe2f0d0c5780ac881fad144c4efd49ddbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:01 +0000
Subject: [PATCH 37/43] fix: ignore an empty shorthand item that is followed by
 spaces

---
 parser/src/attributes/element_attribute.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/src/attributes/element_attribute.rs b/parser/src/attributes/element_attribute.rs
index c485f1c..94fa7f0 100644
--- a/parser/src/attributes/element_attribute.rs
+++ b/parser/src/attributes/element_attribute.rs
@@ -144,12 +144,12 @@ impl<'src> ElementAttribute<'src> {
                 &value[*curr..]
             };
 
+            next_item = next_item.trim_end();
+
             if next_item == "#" || next_item == "." || next_item == "%" {
                 continue;
             }
 
-            next_item = next_item.trim_end();
-
             if !next_item.is_empty() {
                 result.push(next_item);
             }
-- 
2.43.0


From 937c38859bb8281b3c971753af22afe4fb76ab3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:01 +0000
Subject: [PATCH 38/43] fix: report no missing comma in a lone empty attribute
 list

---
 parser/src/attributes/attrlist.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/attributes/attrlist.rs b/parser/src/attributes/attrlist.rs
index 2fda968..97ab325 100644
--- a/parser/src/attributes/attrlist.rs
+++ b/parser/src/attributes/attrlist.rs
@@ -96,7 +96,7 @@ impl<'src> Attrlist<'src> {
                 && after.is_empty()
                 && attributes.is_empty()
             {
-                break index;
+                break after.byte_offset();
             }
 
             if attr.name().is_none() || attr.value() != "None" {
-- 
2.43.0


From c64f04ec11db609b245815b36ef200fabf402dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:01 +0000
Subject: [PATCH 39/43] fix: skip white space after an empty attribute

---
 parser/src/attributes/attrlist.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/parser/src/attributes/attrlist.rs b/parser/src/attributes/attrlist.rs
index 97ab325..e0aeebc 100644
--- a/parser/src/attributes/attrlist.rs
+++ b/parser/src/attributes/attrlist.rs
@@ -109,14 +109,12 @@ impl<'src> Attrlist<'src> {
                 Some(comma) => {
                     after = comma.after.take_whitespace().after;
 
-                    if after.starts_with(',') {
+                    while after.starts_with(',') {
                         warnings.push(Warning {
                             source,
                             warning: WarningType::EmptyAttributeValue,
                         });
-                        after = after.discard(1);
-                        index = after.byte_offset();
-                        continue;
+                        after = after.discard(1).take_whitespace().after;
                     }
 
                     index = after.byte_offset();
-- 
2.43.0


From 0e46f66ba10a74b3ccde70da5174b295ea576006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:35 +0000
Subject: [PATCH 40/43] fix: don't make an image path absolute if the images
 directory is empty

---
 parser/src/parser/inline_substitution_renderer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/src/parser/inline_substitution_renderer.rs b/parser/src/parser/inline_substitution_renderer.rs
index 1feab97..560f7b3 100644
--- a/parser/src/parser/inline_substitution_renderer.rs
+++ b/parser/src/parser/inline_substitution_renderer.rs
@@ -741,6 +741,8 @@ fn normalize_web_path(
     if preserve_uri_target && is_uri_ish(target) {
         encode_spaces_in_uri(target)
     } else {
+        // An empty start path is none: the target must not become absolute.
+        let start = start.filter(|s| !s.is_empty());
         parser.path_resolver.web_path(target, start)
     }
 }
-- 
2.43.0


From b32441c4903ad8018ed2c7c6d31b318f7f076ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:35 +0000
Subject: [PATCH 41/43] fix: keep a relative web path relative if an empty
 segment comes first in it

---
 parser/src/parser/path_resolver.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/src/parser/path_resolver.rs b/parser/src/parser/path_resolver.rs
index ebb1eae..7c4ad65 100644
--- a/parser/src/parser/path_resolver.rs
+++ b/parser/src/parser/path_resolver.rs
@@ -95,6 +95,8 @@ impl PathResolver {
                 } else {
                     resolved_segments.pop();
                 }
+            } else if segment.is_empty() && resolved_segments.is_empty() && target_root.is_none() {
+                // Do nothing: a leading slash would make a relative path absolute.
             } else {
                 resolved_segments.push(segment);
             }
-- 
2.43.0


From bb6cb12ba13f2ae02591dfabe62f2e035cdb2986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:05 +0000
Subject: [PATCH 42/43] fix: keep attribute references in a revision number

---
 parser/src/document/revision_line.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/document/revision_line.rs b/parser/src/document/revision_line.rs
index a61b657..a7c6c00 100644
--- a/parser/src/document/revision_line.rs
+++ b/parser/src/document/revision_line.rs
@@ -135,7 +135,7 @@ static STANDALONE_REVISION: LazyLock<Regex> = LazyLock::new(|| {
 
 static NON_NUMERIC_PREFIX: LazyLock<Regex> = LazyLock::new(|| {
     #[allow(clippy::unwrap_used)]
-    Regex::new(r"^[^0-9]*(.*)$").unwrap()
+    Regex::new(r"^[^0-9{]*(.*)$").unwrap()
 });
 
 #[cfg(test)]
-- 
2.43.0


From aa50e16ad9a5565466cf761b75efa58a6afa9e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:34 +0000
Subject: [PATCH 43/43] fix: keep the reference text of a break's anchor

---
 parser/src/blocks/break.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/src/blocks/break.rs b/parser/src/blocks/break.rs
index 96bff37..6684aaf 100644
--- a/parser/src/blocks/break.rs
+++ b/parser/src/blocks/break.rs
@@ -14,6 +14,7 @@ pub struct Break<'src> {
     title_source: Option<Span<'src>>,
     title: Option<String>,
     anchor: Option<Span<'src>>,
+    anchor_reftext: Option<Span<'src>>,
     attrlist: Option<Attrlist<'src>>,
 }
 
@@ -61,6 +62,7 @@ impl<'src> Break<'src> {
                 title_source: metadata.title_source,
                 title: metadata.title.clone(),
                 anchor: metadata.anchor,
+                anchor_reftext: metadata.anchor_reftext,
                 attrlist: metadata.attrlist.clone(),
             },
 
@@ -100,7 +102,7 @@ impl<'src> IsBlock<'src> for Break<'src> {
     }
 
     fn anchor_reftext(&'src self) -> Option<Span<'src>> {
-        None
+        self.anchor_reftext
     }
 
     fn attrlist(&'src self) -> Option<&'src Attrlist<'src>> {
-- 
2.43.0

