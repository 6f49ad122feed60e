From bcd51944be4201dd37c39a82f05fa46d76e94313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:58 +0000
Subject: [PATCH 01/35] fix: parse nested and mixed boolean matcher expressions

Nested groups were parsed with exponential backtracking and the nesting
counter was not restored, so valid expressions like '(((a?)))' were
rejected and deep groups took seconds. Mixed connectives like
'a? && b? ^ c? || d?' were rejected too, because the ordered choice of an
'||' operand committed to '&&' before trying '^'. A long run of '!'
overflowed the stack. Parse by precedence and count nested groups and
negations, restoring the counter when a nested expression ends.
---
 src/matcher/field/parser.rs    | 153 +++++++++++++--------------------
 src/matcher/subfield/parser.rs | 148 ++++++++++++++-----------------
 2 files changed, 128 insertions(+), 173 deletions(-)

diff --git a/src/matcher/field/parser.rs b/src/matcher/field/parser.rs
index 7581149..0213205 100644
--- a/src/matcher/field/parser.rs
+++ b/src/matcher/field/parser.rs
@@ -228,20 +228,16 @@ fn parse_field_exists_matcher(
 }
 
 thread_local! {
-    pub static FIELD_MATCHER_GROUP_LEVEL: RefCell<u32>
+    static FIELD_MATCHER_GROUP_LEVEL: RefCell<u32>
         = const { RefCell::new(0) };
 }
 
-fn group_level_reset() {
-    FIELD_MATCHER_GROUP_LEVEL.with(|level| *level.borrow_mut() = 0);
-}
-
 fn group_level_inc(i: &mut &[u8]) -> ModalResult<()> {
     FIELD_MATCHER_GROUP_LEVEL.with(|level| {
-        *level.borrow_mut() += 1;
-        if *level.borrow() >= 256 {
+        if *level.borrow() >= 255 {
             Err(winnow::error::ErrMode::from_input(i))
         } else {
+            *level.borrow_mut() += 1;
             Ok(())
         }
     })
@@ -253,29 +249,34 @@ fn group_level_dec() {
     })
 }
 
-#[inline]
+/// Parse a nested matcher expression.
+///
+/// The nesting level is restored when the inner parser returns, whether
+/// it succeeds or fails.
+fn nested<F>(i: &mut &[u8], mut inner: F) -> ModalResult<FieldMatcher>
+where
+    F: FnMut(&mut &[u8]) -> ModalResult<FieldMatcher>,
+{
+    group_level_inc(i)?;
+    let result = inner(i);
+    group_level_dec();
+    result
+}
+
 fn parse_field_group_matcher(
     i: &mut &[u8],
 ) -> ModalResult<FieldMatcher> {
-    delimited(
-        terminated(ws('('), group_level_inc),
-        alt((
-            parse_field_composite_matcher,
-            parse_field_singleton_matcher,
-            parse_field_not_matcher,
-            parse_field_cardinality_matcher,
-            parse_field_group_matcher,
-        )),
-        ws(')').map(|_| group_level_dec()),
-    )
-    .map(|matcher| FieldMatcher::Group(Box::new(matcher)))
-    .parse_next(i)
+    let inner = |i: &mut &[u8]| -> ModalResult<FieldMatcher> {
+        terminated(parse_field_or_matcher, ws(')')).parse_next(i)
+    };
+
+    preceded(ws('('), |i: &mut &[u8]| nested(i, inner))
+        .map(|matcher| FieldMatcher::Group(Box::new(matcher)))
+        .parse_next(i)
 }
 
-#[inline]
 fn parse_field_not_matcher(i: &mut &[u8]) -> ModalResult<FieldMatcher> {
-    preceded(
-        ws('!'),
+    let inner = |i: &mut &[u8]| -> ModalResult<FieldMatcher> {
         alt((
             parse_field_group_matcher,
             parse_subfields_matcher_bracket
@@ -283,100 +284,70 @@ fn parse_field_not_matcher(i: &mut &[u8]) -> ModalResult<FieldMatcher> {
                 .map(FieldMatcher::Singleton),
             parse_field_exists_matcher,
             parse_field_not_matcher,
-        )),
-    )
-    .map(|matcher| FieldMatcher::Not(Box::new(matcher)))
+        ))
+        .parse_next(i)
+    };
+
+    preceded(ws('!'), |i: &mut &[u8]| nested(i, inner))
+        .map(|matcher| FieldMatcher::Not(Box::new(matcher)))
+        .parse_next(i)
+}
+
+/// Parse an operand of a boolean connective.
+fn parse_field_operand(i: &mut &[u8]) -> ModalResult<FieldMatcher> {
+    ws(alt((
+        parse_field_group_matcher,
+        parse_field_cardinality_matcher,
+        parse_field_singleton_matcher,
+        parse_field_not_matcher,
+        parse_field_exists_matcher,
+    )))
     .parse_next(i)
 }
 
+/// Parse operands connected with `||` (lowest precedence).
 fn parse_field_or_matcher(i: &mut &[u8]) -> ModalResult<FieldMatcher> {
-    let atom = |i: &mut &[u8]| -> ModalResult<FieldMatcher> {
-        ws(alt((
-            parse_field_and_matcher,
-            parse_field_xor_matcher,
-            parse_field_group_matcher,
-            parse_field_cardinality_matcher,
-            parse_field_singleton_matcher,
-            parse_field_not_matcher,
-            parse_field_exists_matcher,
-        )))
-        .parse_next(i)
-    };
-
-    (atom, repeat(1.., preceded(ws("||"), atom)))
+    (
+        parse_field_xor_matcher,
+        repeat(0.., preceded(ws("||"), parse_field_xor_matcher)),
+    )
         .map(|(head, tail): (_, Vec<_>)| {
             tail.into_iter().fold(head, |prev, next| prev | next)
         })
         .parse_next(i)
 }
 
+/// Parse operands connected with `^` or `XOR`.
 fn parse_field_xor_matcher(i: &mut &[u8]) -> ModalResult<FieldMatcher> {
-    let atom = |i: &mut &[u8]| -> ModalResult<FieldMatcher> {
-        ws(alt((
-            parse_field_and_matcher,
-            parse_field_group_matcher,
-            parse_field_cardinality_matcher,
-            parse_field_singleton_matcher,
-            parse_field_not_matcher,
-            parse_field_exists_matcher,
-        )))
-        .parse_next(i)
-    };
-
-    (atom, repeat(1.., preceded(alt(("^", "XOR")), atom)))
+    (
+        parse_field_and_matcher,
+        repeat(
+            0..,
+            preceded(alt(("^", "XOR")), parse_field_and_matcher),
+        ),
+    )
         .map(|(head, tail): (_, Vec<_>)| {
             tail.into_iter().fold(head, |prev, next| prev ^ next)
         })
         .parse_next(i)
 }
 
+/// Parse operands connected with `&&` (highest precedence).
 fn parse_field_and_matcher(i: &mut &[u8]) -> ModalResult<FieldMatcher> {
-    let atom = |i: &mut &[u8]| -> ModalResult<FieldMatcher> {
-        ws(alt((
-            parse_field_group_matcher,
-            parse_field_cardinality_matcher,
-            parse_field_singleton_matcher,
-            parse_field_not_matcher,
-            parse_field_exists_matcher,
-        )))
-        .parse_next(i)
-    };
-
-    (atom, repeat(1.., preceded(ws("&&"), atom)))
+    (
+        parse_field_operand,
+        repeat(0.., preceded(ws("&&"), parse_field_operand)),
+    )
         .map(|(head, tail): (_, Vec<_>)| {
             tail.into_iter().fold(head, |prev, next| prev & next)
         })
         .parse_next(i)
 }
 
-#[inline(always)]
-fn parse_field_composite_matcher(
-    i: &mut &[u8],
-) -> ModalResult<FieldMatcher> {
-    alt((
-        parse_field_or_matcher,
-        parse_field_xor_matcher,
-        parse_field_and_matcher,
-    ))
-    .parse_next(i)
-}
-
-/// Parse a [FieldMatcher] expression.
 pub(crate) fn parse_field_matcher(
     i: &mut &[u8],
 ) -> ModalResult<FieldMatcher> {
-    ws(alt((
-        parse_field_composite_matcher,
-        parse_field_group_matcher,
-        parse_field_not_matcher,
-        parse_field_singleton_matcher,
-        parse_field_cardinality_matcher,
-    )))
-    .map(|matcher| {
-        group_level_reset();
-        matcher
-    })
-    .parse_next(i)
+    parse_field_or_matcher.parse_next(i)
 }
 
 #[cfg(test)]
diff --git a/src/matcher/subfield/parser.rs b/src/matcher/subfield/parser.rs
index 6ee7d52..1818f00 100644
--- a/src/matcher/subfield/parser.rs
+++ b/src/matcher/subfield/parser.rs
@@ -281,20 +281,16 @@ pub(crate) fn parse_subfield_singleton_matcher(
 }
 
 thread_local! {
-    pub static SUBFIELD_MATCHER_GROUP_LEVEL: RefCell<u32>
+    static SUBFIELD_MATCHER_GROUP_LEVEL: RefCell<u32>
         = const { RefCell::new(0) };
 }
 
-fn group_level_reset() {
-    SUBFIELD_MATCHER_GROUP_LEVEL.with(|level| *level.borrow_mut() = 0);
-}
-
 fn group_level_inc(i: &mut &[u8]) -> ModalResult<()> {
     SUBFIELD_MATCHER_GROUP_LEVEL.with(|level| {
-        *level.borrow_mut() += 1;
-        if *level.borrow() >= 256 {
+        if *level.borrow() >= 255 {
             Err(winnow::error::ErrMode::from_input(i))
         } else {
+            *level.borrow_mut() += 1;
             Ok(())
         }
     })
@@ -306,22 +302,33 @@ fn group_level_dec() {
     })
 }
 
-#[inline(always)]
+/// Parse a nested matcher expression.
+///
+/// The nesting level is restored when the inner parser returns, whether
+/// it succeeds or fails.
+fn nested<F>(
+    i: &mut &[u8],
+    mut inner: F,
+) -> ModalResult<SubfieldMatcher>
+where
+    F: FnMut(&mut &[u8]) -> ModalResult<SubfieldMatcher>,
+{
+    group_level_inc(i)?;
+    let result = inner(i);
+    group_level_dec();
+    result
+}
+
 fn parse_subfield_group_matcher(
     i: &mut &[u8],
 ) -> ModalResult<SubfieldMatcher> {
-    delimited(
-        terminated(ws('('), group_level_inc),
-        alt((
-            parse_subfield_composite_matcher,
-            parse_subfield_singleton_matcher,
-            parse_subfield_not_matcher,
-            parse_subfield_group_matcher,
-        )),
-        ws(')').map(|_| group_level_dec),
-    )
-    .map(|m| SubfieldMatcher::Group(Box::new(m)))
-    .parse_next(i)
+    let inner = |i: &mut &[u8]| -> ModalResult<SubfieldMatcher> {
+        terminated(parse_subfield_or_matcher, ws(')')).parse_next(i)
+    };
+
+    preceded(ws('('), |i: &mut &[u8]| nested(i, inner))
+        .map(|m| SubfieldMatcher::Group(Box::new(m)))
+        .parse_next(i)
 }
 
 #[inline(always)]
@@ -334,108 +341,85 @@ fn parse_subfield_exists_matcher(
         .parse_next(i)
 }
 
-#[inline(always)]
 fn parse_subfield_not_matcher(
     i: &mut &[u8],
 ) -> ModalResult<SubfieldMatcher> {
-    preceded(
-        ws('!'),
+    let inner = |i: &mut &[u8]| -> ModalResult<SubfieldMatcher> {
         alt((
             parse_subfield_group_matcher,
             parse_subfield_exists_matcher,
             parse_subfield_not_matcher,
-        )),
-    )
-    .map(|matcher| SubfieldMatcher::Not(Box::new(matcher)))
+        ))
+        .parse_next(i)
+    };
+
+    preceded(ws('!'), |i: &mut &[u8]| nested(i, inner))
+        .map(|matcher| SubfieldMatcher::Not(Box::new(matcher)))
+        .parse_next(i)
+}
+
+/// Parse an operand of a boolean connective.
+fn parse_subfield_operand(
+    i: &mut &[u8],
+) -> ModalResult<SubfieldMatcher> {
+    ws(alt((
+        parse_subfield_group_matcher,
+        parse_subfield_singleton_matcher,
+        parse_subfield_not_matcher,
+    )))
     .parse_next(i)
 }
 
+/// Parse operands connected with `||` (lowest precedence).
 fn parse_subfield_or_matcher(
     i: &mut &[u8],
 ) -> ModalResult<SubfieldMatcher> {
-    let atom = |i: &mut &[u8]| -> ModalResult<SubfieldMatcher> {
-        ws(alt((
-            parse_subfield_and_matcher,
-            parse_subfield_xor_matcher,
-            parse_subfield_group_matcher,
-            parse_subfield_singleton_matcher,
-            parse_subfield_not_matcher,
-        )))
-        .parse_next(i)
-    };
-
-    (atom, repeat(1.., preceded("||", atom)))
+    (
+        parse_subfield_xor_matcher,
+        repeat(0.., preceded("||", parse_subfield_xor_matcher)),
+    )
         .map(|(head, tail): (_, Vec<_>)| {
             tail.into_iter().fold(head, |prev, next| prev | next)
         })
         .parse_next(i)
 }
 
+/// Parse operands connected with `^` or `XOR`.
 fn parse_subfield_xor_matcher(
     i: &mut &[u8],
 ) -> ModalResult<SubfieldMatcher> {
-    let atom = |i: &mut &[u8]| -> ModalResult<SubfieldMatcher> {
-        ws(alt((
-            parse_subfield_and_matcher,
-            parse_subfield_group_matcher,
-            parse_subfield_singleton_matcher,
-            parse_subfield_not_matcher,
-        )))
-        .parse_next(i)
-    };
-
-    (atom, repeat(1.., preceded(alt(("^", "XOR")), atom)))
+    (
+        parse_subfield_and_matcher,
+        repeat(
+            0..,
+            preceded(alt(("^", "XOR")), parse_subfield_and_matcher),
+        ),
+    )
         .map(|(head, tail): (_, Vec<_>)| {
             tail.into_iter().fold(head, |prev, next| prev ^ next)
         })
         .parse_next(i)
 }
 
+/// Parse operands connected with `&&` (highest precedence).
 fn parse_subfield_and_matcher(
     i: &mut &[u8],
 ) -> ModalResult<SubfieldMatcher> {
-    let atom = |i: &mut &[u8]| -> ModalResult<SubfieldMatcher> {
-        ws(alt((
-            parse_subfield_group_matcher,
-            parse_subfield_singleton_matcher,
-            parse_subfield_not_matcher,
-        )))
-        .parse_next(i)
-    };
-
-    (atom, repeat(1.., preceded("&&", atom)))
+    (
+        parse_subfield_operand,
+        repeat(0.., preceded("&&", parse_subfield_operand)),
+    )
         .map(|(head, tail): (_, Vec<_>)| {
             tail.into_iter().fold(head, |prev, next| prev & next)
         })
         .parse_next(i)
 }
 
-#[inline(always)]
-fn parse_subfield_composite_matcher(
-    i: &mut &[u8],
-) -> ModalResult<SubfieldMatcher> {
-    alt((
-        parse_subfield_or_matcher,
-        parse_subfield_xor_matcher,
-        parse_subfield_and_matcher,
-    ))
-    .parse_next(i)
-}
-
+#[inline]
 pub(crate) fn parse_subfield_matcher(
     i: &mut &[u8],
 ) -> ModalResult<SubfieldMatcher> {
-    alt((
-        parse_subfield_composite_matcher,
-        parse_subfield_singleton_matcher,
-        parse_subfield_group_matcher,
-        parse_subfield_not_matcher,
-    ))
-    .map(|matcher| {
-        group_level_reset();
-        matcher
-    })
-    .parse_next(i)
+    parse_subfield_or_matcher.parse_next(i)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 58d89a55a13c32782524678187537733b349a8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:48 +0000
Subject: [PATCH 02/35] fix: restore the group level of format strings after a
 failed parse

The nesting counter of format groups was incremented but not decremented
when parsing a group failed, so that after some rejected expressions
every format with a group was rejected on that thread. The same
backtracking made the cost of nested groups exponential.
---
 src/fmt/parser.rs | 101 ++++++++++++++++++++++++++++++----------------
 1 file changed, 66 insertions(+), 35 deletions(-)

diff --git a/src/fmt/parser.rs b/src/fmt/parser.rs
index 8882592..9c914d0 100644
--- a/src/fmt/parser.rs
+++ b/src/fmt/parser.rs
@@ -43,24 +43,19 @@ pub(crate) fn parse_format(i: &mut &[u8]) -> ModalResult<Format> {
 }
 
 fn parse_fragments(i: &mut &[u8]) -> ModalResult<Fragments> {
-    alt((
-        ws(parse_list).map(Fragments::List),
-        ws(parse_group).map(Fragments::Group),
-        ws(parse_value).map(Fragments::Value),
-    ))
-    .parse_next(i)
+    ws(parse_cons).parse_next(i)
 }
 
 thread_local! {
-    pub static GROUP_LEVEL: RefCell<u32> = const { RefCell::new(0) };
+    static GROUP_LEVEL: RefCell<u32> = const { RefCell::new(0) };
 }
 
 fn group_level_inc(i: &mut &[u8]) -> ModalResult<()> {
     GROUP_LEVEL.with(|level| {
-        *level.borrow_mut() += 1;
-        if *level.borrow() >= 32 {
+        if *level.borrow() >= 31 {
             Err(winnow::error::ErrMode::from_input(i))
         } else {
+            *level.borrow_mut() += 1;
             Ok(())
         }
     })
@@ -72,15 +67,30 @@ fn group_level_dec() {
     })
 }
 
+/// Parse the content of a group including the closing parenthesis.
+///
+/// The nesting level is restored when the inner parser returns, whether
+/// it succeeds or fails.
+fn parse_group_content(
+    i: &mut &[u8],
+) -> ModalResult<(Option<Modifier>, Fragments)> {
+    group_level_inc(i)?;
+    let result = (
+        parse_modifier,
+        terminated(
+            ws(parse_cons)
+                .verify(|f| !matches!(f, Fragments::Group(_))),
+            ws(')'),
+        ),
+    )
+        .parse_next(i);
+    group_level_dec();
+    result
+}
+
 fn parse_group(i: &mut &[u8]) -> ModalResult<Group> {
     (
-        terminated(ws('('), group_level_inc),
-        parse_modifier,
-        alt((
-            ws(parse_list).map(Fragments::List),
-            ws(parse_value).map(Fragments::Value),
-        )),
-        ws(')').map(|_| group_level_dec()),
+        preceded(ws('('), parse_group_content),
         alt((
             preceded(
                 "..",
@@ -92,7 +102,7 @@ fn parse_group(i: &mut &[u8]) -> ModalResult<Group> {
             empty.value(usize::MAX),
         )),
     )
-        .map(|(_, modifier, fragments, _, end)| Group {
+        .map(|((modifier, fragments), end)| Group {
             fragments: Box::new(fragments),
             bounds: RangeTo { end },
             modifier: modifier.unwrap_or_default(),
@@ -135,36 +145,57 @@ fn parse_value(i: &mut &[u8]) -> ModalResult<Value> {
         .parse_next(i)
 }
 
-#[inline]
-fn parse_list(i: &mut &[u8]) -> ModalResult<List> {
-    alt((parse_list_cons, parse_list_and_then)).parse_next(i)
+/// Parse one or more fragments separated by `<*>`.
+fn parse_cons(i: &mut &[u8]) -> ModalResult<Fragments> {
+    separated(1.., parse_and_then, ws("<*>"))
+        .map(|fragments| unwrap_or_list(fragments, List::Cons))
+        .parse_next(i)
 }
 
-fn parse_list_cons(i: &mut &[u8]) -> ModalResult<List> {
+/// Parse one or more fragments separated by `<$>`.
+fn parse_and_then(i: &mut &[u8]) -> ModalResult<Fragments> {
     separated(
-        2..,
+        1..,
         alt((
-            parse_list_and_then.map(Fragments::List),
             parse_group.map(Fragments::Group),
             parse_value.map(Fragments::Value),
         )),
-        ws("<*>"),
+        ws("<$>"),
     )
-    .map(List::Cons)
+    .map(|fragments| unwrap_or_list(fragments, List::AndThen))
     .parse_next(i)
 }
 
+/// Returns the fragment itself, if there is only one, otherwise a list.
+fn unwrap_or_list(
+    mut fragments: Vec<Fragments>,
+    list: impl FnOnce(Vec<Fragments>) -> List,
+) -> Fragments {
+    if fragments.len() == 1 {
+        fragments.remove(0)
+    } else {
+        Fragments::List(list(fragments))
+    }
+}
+
+#[cfg(test)]
+fn parse_list_cons(i: &mut &[u8]) -> ModalResult<List> {
+    parse_cons
+        .verify_map(|fragments| match fragments {
+            Fragments::List(list @ List::Cons(_)) => Some(list),
+            _ => None,
+        })
+        .parse_next(i)
+}
+
+#[cfg(test)]
 fn parse_list_and_then(i: &mut &[u8]) -> ModalResult<List> {
-    separated(
-        2..,
-        alt((
-            parse_group.map(Fragments::Group),
-            parse_value.map(Fragments::Value),
-        )),
-        ws("<$>"),
-    )
-    .map(List::AndThen)
-    .parse_next(i)
+    parse_and_then
+        .verify_map(|fragments| match fragments {
+            Fragments::List(list @ List::AndThen(_)) => Some(list),
+            _ => None,
+        })
+        .parse_next(i)
 }
 
 fn parse_modifier(i: &mut &[u8]) -> ModalResult<Option<Modifier>> {
-- 
2.43.0


From 60bbbdaa72f62a5f4678adfb6fae1ce6a6896888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:03 +0000
Subject: [PATCH 03/35] fix: count invalid lines as positions in slice

Skipped invalid lines did not advance the position, contrary to the
documentation, and with --length an invalid line outside of the range
extended the slice by one record. A large --length overflowed.
---
 crates/pica-cli/src/commands/slice.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/pica-cli/src/commands/slice.rs b/crates/pica-cli/src/commands/slice.rs
index a5d9372..9df3977 100644
--- a/crates/pica-cli/src/commands/slice.rs
+++ b/crates/pica-cli/src/commands/slice.rs
@@ -100,7 +100,7 @@ impl Slice {
         let mut range = if self.end > 0 {
             self.start..self.end
         } else if self.length > 0 {
-            self.start..(self.start + self.length)
+            self.start..self.start.saturating_add(self.length)
         } else {
             self.start..usize::MAX
         };
@@ -116,9 +116,10 @@ impl Slice {
                 match result {
                     Err(e) if e.skip_parse_err(skip_invalid) => {
                         progress.update(true);
-                        if self.length > 0 && range.end < usize::MAX {
-                            range.end += 1;
+                        if self.length > 0 && range.contains(&i) {
+                            range.end = range.end.saturating_add(1);
                         }
+                        i += 1;
                         continue;
                     }
                     Err(e) => return Err(e.into()),
-- 
2.43.0


From 8291b5f1c163d5ea6c5af4c4f87086f56741d071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:43 +0000
Subject: [PATCH 04/35] fix: reject the combination of --gzip and --append in
 slice

The combination ran into an assertion of the writer builder.
---
 crates/pica-cli/src/commands/slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/pica-cli/src/commands/slice.rs b/crates/pica-cli/src/commands/slice.rs
index 9df3977..7d831d9 100644
--- a/crates/pica-cli/src/commands/slice.rs
+++ b/crates/pica-cli/src/commands/slice.rs
@@ -58,7 +58,7 @@ pub(crate) struct Slice {
     gzip: bool,
 
     /// Append to the given file, do not overwrite
-    #[arg(long, short)]
+    #[arg(long, short, conflicts_with = "gzip")]
     append: bool,
 
     /// Show progress bar (requires `-o`/`--output`).
-- 
2.43.0


From 070a7d652df0eff5cb015dca7b1c92eb6b1a0e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:01 +0000
Subject: [PATCH 05/35] fix: apply the frequency threshold independently of the
 order

With --reverse the table starts with the lowest frequencies, so that
stopping at the first row below the threshold dropped all rows.
---
 crates/pica-cli/src/commands/frequency.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/crates/pica-cli/src/commands/frequency.rs b/crates/pica-cli/src/commands/frequency.rs
index e53ae8f..6a5fd6f 100644
--- a/crates/pica-cli/src/commands/frequency.rs
+++ b/crates/pica-cli/src/commands/frequency.rs
@@ -200,8 +200,10 @@ impl Frequency {
             writer.write_record(header.split(',').map(str::trim))?;
         }
 
-        let mut ftable_sorted: Vec<(&Vec<BString>, &u64)> =
-            ftable.iter().collect();
+        let mut ftable_sorted: Vec<(&Vec<BString>, &u64)> = ftable
+            .iter()
+            .filter(|(_, freq)| **freq >= self.threshold)
+            .collect();
 
         if self.reverse {
             ftable_sorted.sort_by(|a, b| match a.1.cmp(b.1) {
@@ -221,10 +223,6 @@ impl Frequency {
                 break;
             }
 
-            if **freq < self.threshold {
-                break;
-            }
-
             let mut record = values
                 .iter()
                 .map(ToString::to_string)
-- 
2.43.0


From f8e054c32382b955b8c1a9c201be175bc83c120c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:17 +0000
Subject: [PATCH 06/35] fix: respect --limit in the count command

The option was accepted but ignored.
---
 crates/pica-cli/src/commands/count.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/pica-cli/src/commands/count.rs b/crates/pica-cli/src/commands/count.rs
index 7e99f11..853efef 100644
--- a/crates/pica-cli/src/commands/count.rs
+++ b/crates/pica-cli/src/commands/count.rs
@@ -86,7 +86,7 @@ impl Count {
         let mut fields = 0;
         let mut subfields = 0;
 
-        for filename in self.filenames {
+        'outer: for filename in self.filenames {
             let mut reader =
                 ReaderBuilder::new().from_path(filename)?;
 
@@ -117,6 +117,12 @@ impl Count {
                             .iter()
                             .map(|field| field.subfields().len())
                             .sum::<usize>();
+
+                        if self.filter_opts.limit > 0
+                            && records >= self.filter_opts.limit
+                        {
+                            break 'outer;
+                        }
                     }
                 }
             }
-- 
2.43.0


From e93339cabf86dda72e583d5e9bb98beca2dbe9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:45 +0000
Subject: [PATCH 07/35] fix: read all members of a gzip file

Appending to a .gz file adds a gzip member, but only the first member
was decoded and all later records were silently ignored.
---
 crates/pica-cli/src/commands/invalid.rs | 4 ++--
 src/reader.rs                           | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/pica-cli/src/commands/invalid.rs b/crates/pica-cli/src/commands/invalid.rs
index d93fe15..13882b8 100644
--- a/crates/pica-cli/src/commands/invalid.rs
+++ b/crates/pica-cli/src/commands/invalid.rs
@@ -7,7 +7,7 @@ use std::path::{Path, PathBuf};
 use std::process::ExitCode;
 
 use clap::Parser;
-use flate2::read::GzDecoder;
+use flate2::read::MultiGzDecoder;
 use pica_record::ByteRecord;
 
 use crate::config::Config;
@@ -38,7 +38,7 @@ fn reader(filename: &OsString) -> io::Result<BufReader<Box<dyn Read>>> {
     let path = PathBuf::from(filename);
     let ext = path.extension().and_then(OsStr::to_str);
     let inner: Box<dyn Read> = match ext {
-        Some("gz") => Box::new(GzDecoder::new(File::open(path)?)),
+        Some("gz") => Box::new(MultiGzDecoder::new(File::open(path)?)),
         _ => {
             if path.to_str() != Some("-") {
                 Box::new(File::open(path)?)
diff --git a/src/reader.rs b/src/reader.rs
index 8bb8952..099577b 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -4,7 +4,7 @@ use std::io::{self, BufRead, BufReader, Read, stdin};
 use std::path::Path;
 use std::str::Utf8Error;
 
-use flate2::read::GzDecoder;
+use flate2::read::MultiGzDecoder;
 
 use crate::primitives::ParsePicaError;
 use crate::{ByteRecord, StringRecord};
@@ -105,7 +105,9 @@ impl ReaderBuilder {
             .extension()
             .and_then(OsStr::to_str)
         {
-            Some("gz") => Box::new(GzDecoder::new(File::open(path)?)),
+            Some("gz") => {
+                Box::new(MultiGzDecoder::new(File::open(path)?))
+            }
             _ => {
                 if path.to_str() != Some("-") {
                     Box::new(File::open(path)?)
-- 
2.43.0


From 5d4fc702a9941f6b74068b091de30a44ae967fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:04 +0000
Subject: [PATCH 08/35] fix: report the line of a record with invalid UTF-8

The line number of the preceding line was reported.
---
 src/reader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 099577b..f111bd9 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -14,7 +14,7 @@ use crate::{ByteRecord, StringRecord};
 pub enum ReadPicaError {
     #[error("parse error: {msg}")]
     Parse { msg: String, err: ParsePicaError },
-    #[error("parse erorr: {msg}")]
+    #[error("parse error: {msg}")]
     Utf8 { msg: String, err: Utf8Error },
     #[error(transparent)]
     IO(#[from] std::io::Error),
@@ -260,7 +260,7 @@ impl<R: Read> RecordsIter for Reader<R> {
     /// # Ok::<(), Box<dyn std::error::Error>>(())
     /// ```
     fn next_string_record(&mut self) -> Option<Self::StringItem<'_>> {
-        let line = self.line;
+        let line = self.line + 1;
         match self.next_byte_record() {
             Some(Ok(record)) => match StringRecord::try_from(record) {
                 Ok(record) => Some(Ok(record)),
-- 
2.43.0


From e8fa67ba5babe9d872c367f8294e082f19eb5686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:40 +0000
Subject: [PATCH 09/35] fix: do not panic on records without PPN in concat
 --unique

Such records are left out like records with an empty PPN. Compare the
identities as bytes, so that different PPNs which are not valid UTF-8
are not taken for duplicates.
---
 crates/pica-cli/src/commands/concat.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/crates/pica-cli/src/commands/concat.rs b/crates/pica-cli/src/commands/concat.rs
index 69da18a..ae60704 100644
--- a/crates/pica-cli/src/commands/concat.rs
+++ b/crates/pica-cli/src/commands/concat.rs
@@ -1,5 +1,4 @@
 use std::ffi::OsString;
-use std::fmt::Write;
 use std::process::ExitCode;
 
 use clap::{Parser, ValueEnum};
@@ -74,15 +73,12 @@ pub(crate) enum Strategy {
 }
 
 #[inline]
-fn record_key(record: &ByteRecord, strategy: &Strategy) -> String {
+fn record_key(record: &ByteRecord, strategy: &Strategy) -> Vec<u8> {
     match strategy {
-        Strategy::Idn => record.ppn().expect("ppn").to_string(),
-        Strategy::Hash => {
-            record.sha256().iter().fold(String::new(), |mut out, b| {
-                let _ = write!(out, "{b:02x}");
-                out
-            })
+        Strategy::Idn => {
+            record.ppn().map(|ppn| ppn.to_vec()).unwrap_or_default()
         }
+        Strategy::Hash => record.sha256(),
     }
 }
 
-- 
2.43.0


From 4910918064f870970b9a1dccef434d076c213ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:50 +0000
Subject: [PATCH 10/35] fix: report failures of the XML conversion as errors

Values that are not valid UTF-8 and failures of the output panicked, and
a failure of the final write was ignored because the writer was never
flushed.
---
 crates/pica-cli/src/commands/convert/xml.rs | 59 ++++++++++-----------
 1 file changed, 29 insertions(+), 30 deletions(-)

diff --git a/crates/pica-cli/src/commands/convert/xml.rs b/crates/pica-cli/src/commands/convert/xml.rs
index 27bead9..4c45671 100644
--- a/crates/pica-cli/src/commands/convert/xml.rs
+++ b/crates/pica-cli/src/commands/convert/xml.rs
@@ -23,13 +23,11 @@ impl XmlWriter {
             };
 
         let mut writer = Writer::new_with_indent(inner, b' ', 4);
-        writer
-            .write_event(Event::Decl(BytesDecl::new(
-                "1.0",
-                Some("UTF-8"),
-                None,
-            )))
-            .unwrap();
+        writer.write_event(Event::Decl(BytesDecl::new(
+            "1.0",
+            Some("UTF-8"),
+            None,
+        )))?;
 
         let attributes = [
             ("targetNamespace", "info:srw/schema/5/picaXML-v1.0"),
@@ -37,12 +35,10 @@ impl XmlWriter {
             ("xmlns", "info:srw/schema/5/picaXML-v1.0"),
         ];
 
-        writer
-            .write_event(Event::Start(
-                BytesStart::from_content("collection", 0)
-                    .with_attributes(attributes),
-            ))
-            .unwrap();
+        writer.write_event(Event::Start(
+            BytesStart::from_content("collection", 0)
+                .with_attributes(attributes),
+        ))?;
 
         Ok(Self { writer })
     }
@@ -53,9 +49,8 @@ impl ByteRecordWrite for XmlWriter {
         &mut self,
         record: &ByteRecord,
     ) -> std::io::Result<()> {
-        self.writer
-            .create_element("record")
-            .write_inner_content(|r| {
+        self.writer.create_element("record").write_inner_content(
+            |r| {
                 for field in record.fields() {
                     r.create_element("datafield")
                         .with_attribute((
@@ -64,6 +59,16 @@ impl ByteRecordWrite for XmlWriter {
                         ))
                         .write_inner_content(|f| {
                             for subfield in field.subfields() {
+                                let value = subfield
+                                    .value()
+                                    .to_str()
+                                    .map_err(|e| {
+                                    io::Error::new(
+                                        io::ErrorKind::InvalidData,
+                                        e,
+                                    )
+                                })?;
+
                                 f.create_element("subfield")
                                     .with_attribute((
                                         "code",
@@ -72,31 +77,25 @@ impl ByteRecordWrite for XmlWriter {
                                             .to_string()
                                             .as_str(),
                                     ))
-                                    .write_text_content(BytesText::new(
-                                        subfield
-                                            .value()
-                                            .to_str()
-                                            .unwrap(),
-                                    ))
-                                    .unwrap();
+                                    .write_text_content(
+                                        BytesText::new(value),
+                                    )?;
                             }
 
                             Ok::<(), std::io::Error>(())
-                        })
-                        .unwrap();
+                        })?;
                 }
 
                 Ok::<(), std::io::Error>(())
-            })
-            .unwrap();
+            },
+        )?;
 
         Ok(())
     }
 
     fn finish(&mut self) -> io::Result<()> {
         self.writer
-            .write_event(Event::End(BytesEnd::new("collection")))
-            .unwrap();
-        Ok(())
+            .write_event(Event::End(BytesEnd::new("collection")))?;
+        self.writer.get_mut().flush()
     }
 }
-- 
2.43.0


From cc53a7ebd8f72cdbb25f49f9988082e8fc3e5f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 11/35] fix: report write failures of describe instead of
 panicking

---
 crates/pica-cli/src/commands/describe.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/pica-cli/src/commands/describe.rs b/crates/pica-cli/src/commands/describe.rs
index bcd0803..4ae9518 100644
--- a/crates/pica-cli/src/commands/describe.rs
+++ b/crates/pica-cli/src/commands/describe.rs
@@ -1,5 +1,6 @@
 use std::ffi::OsString;
 use std::fs::File;
+use std::io::{self, Write};
 use std::process::ExitCode;
 
 use clap::Parser;
@@ -164,7 +165,9 @@ impl Describe {
                     tmp_env::set_var("POLARS_FMT_MAX_ROWS", "50"),
                 );
 
-                println!("{df}");
+                let mut stdout = io::stdout().lock();
+                writeln!(stdout, "{df}")?;
+                stdout.flush()?;
             }
             Some(path)
                 if path.to_string_lossy().ends_with(".tsv")
-- 
2.43.0


From 7e235fab5682a005dd518f30054837c56f3d6c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 12/35] fix: report write failures of completions instead of
 panicking

---
 crates/pica-cli/src/commands/completions.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/crates/pica-cli/src/commands/completions.rs b/crates/pica-cli/src/commands/completions.rs
index 38272ce..7b788c4 100644
--- a/crates/pica-cli/src/commands/completions.rs
+++ b/crates/pica-cli/src/commands/completions.rs
@@ -28,15 +28,19 @@ impl Completions {
             None => Box::new(io::stdout().lock()),
         };
 
+        // `generate` panics if writing fails, therefore the script is
+        // generated in memory.
+        let mut buf = Vec::<u8>::new();
         match self.shell {
-            Bash => generate(Bash, cmd, "pica", &mut wtr),
-            Elvish => generate(Elvish, cmd, "pica", &mut wtr),
-            Fish => generate(Fish, cmd, "pica", &mut wtr),
-            PowerShell => generate(PowerShell, cmd, "pica", &mut wtr),
-            Zsh => generate(Zsh, cmd, "pica", &mut wtr),
+            Bash => generate(Bash, cmd, "pica", &mut buf),
+            Elvish => generate(Elvish, cmd, "pica", &mut buf),
+            Fish => generate(Fish, cmd, "pica", &mut buf),
+            PowerShell => generate(PowerShell, cmd, "pica", &mut buf),
+            Zsh => generate(Zsh, cmd, "pica", &mut buf),
             _ => unreachable!(),
         }
 
+        wtr.write_all(&buf)?;
         wtr.flush()?;
 
         Ok(ExitCode::SUCCESS)
-- 
2.43.0


From a9f7166bd162b9b00fba3cf092674cb5f3f1f4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 13/35] fix: report invalid UTF-8 in print instead of panicking

---
 crates/pica-cli/src/commands/print.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/pica-cli/src/commands/print.rs b/crates/pica-cli/src/commands/print.rs
index 0e80e67..068194b 100644
--- a/crates/pica-cli/src/commands/print.rs
+++ b/crates/pica-cli/src/commands/print.rs
@@ -88,9 +88,16 @@ impl Print {
                                 let code = subfield.code();
                                 write!(writer, " ${code}")?;
 
-                                let value = translit(
-                                    subfield.value().to_str().unwrap(),
-                                );
+                                let value = subfield
+                                    .value()
+                                    .to_str()
+                                    .map(&translit)
+                                    .map_err(|e| {
+                                        io::Error::new(
+                                            io::ErrorKind::InvalidData,
+                                            e,
+                                        )
+                                    })?;
                                 write!(writer, " {value}")?;
                             }
 
-- 
2.43.0


From bef32695e11923e1c9994252f30504c83e1854b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 14/35] fix: ignore case in comparisons of values with
 different byte lengths

---
 src/matcher/subfield/mod.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/matcher/subfield/mod.rs b/src/matcher/subfield/mod.rs
index 5bd6da9..447a492 100644
--- a/src/matcher/subfield/mod.rs
+++ b/src/matcher/subfield/mod.rs
@@ -232,10 +232,6 @@ impl RelationMatcher {
     /// # Ok::<(), Box<dyn std::error::Error>>(())
     /// ```
     fn compare(&self, value: &[u8], options: &MatcherOptions) -> bool {
-        if value.len() != self.value.len() {
-            return false;
-        }
-
         if options.case_ignore {
             self.value.to_lowercase() == value.to_lowercase()
         } else {
-- 
2.43.0


From 00ae4262fa70e21ab93748501925005712051183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 15/35] fix: do not panic on large regular expressions

---
 src/matcher/subfield/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/matcher/subfield/mod.rs b/src/matcher/subfield/mod.rs
index 447a492..ce37592 100644
--- a/src/matcher/subfield/mod.rs
+++ b/src/matcher/subfield/mod.rs
@@ -556,6 +556,7 @@ impl RegexMatcher {
         options: &MatcherOptions,
     ) -> bool {
         let re = RegexBuilder::new(&self.regex)
+            .size_limit(usize::MAX)
             .case_insensitive(options.case_ignore)
             .build()
             .unwrap();
@@ -661,6 +662,7 @@ impl RegexSetMatcher {
         options: &MatcherOptions,
     ) -> bool {
         let re = RegexSetBuilder::new(&self.regex)
+            .size_limit(usize::MAX)
             .case_insensitive(options.case_ignore)
             .build()
             .unwrap();
-- 
2.43.0


From bde11825dae52e2361e58cfd523db51b1b319361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 16/35] fix: report rule violations of empty values in check

---
 .../src/commands/check/checks/allow.rs        |  9 +++----
 .../src/commands/check/checks/iso639.rs       |  9 +++----
 .../src/commands/check/checks/jelc.rs         |  9 +++----
 .../src/commands/check/checks/link.rs         | 10 +++----
 src/reader.rs                                 | 26 +++++++++----------
 5 files changed, 29 insertions(+), 34 deletions(-)

diff --git a/crates/pica-cli/src/commands/check/checks/allow.rs b/crates/pica-cli/src/commands/check/checks/allow.rs
index 9a8032d..34bd8e8 100644
--- a/crates/pica-cli/src/commands/check/checks/allow.rs
+++ b/crates/pica-cli/src/commands/check/checks/allow.rs
@@ -54,15 +54,14 @@ impl Allow {
             .strsim_threshold(self.strsim_threshold)
             .case_ignore(self.case_ignore);
 
-        let message = record
+        let messages = record
             .path(&self.path, &options)
             .filter(|value| !self.values.contains(value.as_bstr()))
             .map(ToString::to_string)
-            .collect::<Vec<_>>()
-            .join(", ");
+            .collect::<Vec<_>>();
 
-        if !message.is_empty() {
-            (true, Some(message))
+        if !messages.is_empty() {
+            (true, Some(messages.join(", ")))
         } else {
             (false, None)
         }
diff --git a/crates/pica-cli/src/commands/check/checks/iso639.rs b/crates/pica-cli/src/commands/check/checks/iso639.rs
index ae39956..f87e3ee 100644
--- a/crates/pica-cli/src/commands/check/checks/iso639.rs
+++ b/crates/pica-cli/src/commands/check/checks/iso639.rs
@@ -90,15 +90,14 @@ impl Iso639 {
             .strsim_threshold(self.strsim_threshold)
             .case_ignore(self.case_ignore);
 
-        let message = record
+        let messages = record
             .path(&self.path, &options)
             .filter(|value| !CODES.contains(value.as_bstr()))
             .map(ToString::to_string)
-            .collect::<Vec<_>>()
-            .join(", ");
+            .collect::<Vec<_>>();
 
-        if !message.is_empty() {
-            (true, Some(message))
+        if !messages.is_empty() {
+            (true, Some(messages.join(", ")))
         } else {
             (false, None)
         }
diff --git a/crates/pica-cli/src/commands/check/checks/jelc.rs b/crates/pica-cli/src/commands/check/checks/jelc.rs
index aa09efa..f8506c6 100644
--- a/crates/pica-cli/src/commands/check/checks/jelc.rs
+++ b/crates/pica-cli/src/commands/check/checks/jelc.rs
@@ -149,15 +149,14 @@ impl Jel {
             .strsim_threshold(self.strsim_threshold)
             .case_ignore(self.case_ignore);
 
-        let message = record
+        let messages = record
             .path(&self.path, &options)
             .filter(|value| !CODES.contains(value.as_bstr()))
             .map(ToString::to_string)
-            .collect::<Vec<_>>()
-            .join(", ");
+            .collect::<Vec<_>>();
 
-        if !message.is_empty() {
-            (true, Some(message))
+        if !messages.is_empty() {
+            (true, Some(messages.join(", ")))
         } else {
             (false, None)
         }
diff --git a/crates/pica-cli/src/commands/check/checks/link.rs b/crates/pica-cli/src/commands/check/checks/link.rs
index ed5f14b..bb1d58a 100644
--- a/crates/pica-cli/src/commands/check/checks/link.rs
+++ b/crates/pica-cli/src/commands/check/checks/link.rs
@@ -87,15 +87,15 @@ impl Link {
         let mut result = vec![];
 
         for (ppn, values) in self.unseen.iter() {
-            let message = values
+            let messages = values
                 .iter()
                 .filter(|k| !self.seen.contains(k.as_bstr()))
                 .map(ToString::to_string)
-                .collect::<Vec<_>>()
-                .join(", ");
+                .collect::<Vec<_>>();
 
-            if !message.is_empty() {
-                result.push((ppn.to_owned(), Some(message)));
+            if !messages.is_empty() {
+                result
+                    .push((ppn.to_owned(), Some(messages.join(", "))));
             }
         }
 
diff --git a/src/reader.rs b/src/reader.rs
index f111bd9..b47054c 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -101,21 +101,19 @@ impl ReaderBuilder {
     ) -> io::Result<Reader<Box<dyn Read>>> {
         let path = path.as_ref();
         let source = path.to_str().map(ToString::to_string);
-        let reader: Box<dyn Read> = match path
-            .extension()
-            .and_then(OsStr::to_str)
-        {
-            Some("gz") => {
-                Box::new(MultiGzDecoder::new(File::open(path)?))
-            }
-            _ => {
-                if path.to_str() != Some("-") {
-                    Box::new(File::open(path)?)
-                } else {
-                    Box::new(stdin().lock())
+        let reader: Box<dyn Read> =
+            match path.extension().and_then(OsStr::to_str) {
+                Some("gz") => {
+                    Box::new(MultiGzDecoder::new(File::open(path)?))
                 }
-            }
-        };
+                _ => {
+                    if path.to_str() != Some("-") {
+                        Box::new(File::open(path)?)
+                    } else {
+                        Box::new(stdin().lock())
+                    }
+                }
+            };
 
         Ok(self.from_reader(reader, source))
     }
-- 
2.43.0


From 88f339d14042f9c9adbbbf2f150bff57c0e9c7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 17/35] fix: reject letters in place of digits in the isni
 check

---
 crates/pica-cli/src/commands/check/checks/isni.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/pica-cli/src/commands/check/checks/isni.rs b/crates/pica-cli/src/commands/check/checks/isni.rs
index 9dc8a9d..0ef4bcf 100644
--- a/crates/pica-cli/src/commands/check/checks/isni.rs
+++ b/crates/pica-cli/src/commands/check/checks/isni.rs
@@ -58,7 +58,9 @@ impl Isni {
                 result = 40;
             }
 
-            if result != digits[15] as u64 {
+            if digits[0..15].iter().any(|digit| *digit > 9)
+                || result != digits[15] as u64
+            {
                 messages.push(value.to_string());
                 retval = true;
             }
-- 
2.43.0


From c1fb98a17296f96f82b3edfd676043d19167bef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 18/35] fix: make the output of check deterministic

---
 crates/pica-cli/src/commands/check/checks/duplicates.rs | 5 +++--
 crates/pica-cli/src/commands/check/checks/link.rs       | 6 ++++--
 crates/pica-cli/src/commands/check/set.rs               | 4 ++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/pica-cli/src/commands/check/checks/duplicates.rs b/crates/pica-cli/src/commands/check/checks/duplicates.rs
index d5950e0..5da5a96 100644
--- a/crates/pica-cli/src/commands/check/checks/duplicates.rs
+++ b/crates/pica-cli/src/commands/check/checks/duplicates.rs
@@ -1,4 +1,5 @@
-use hashbrown::HashMap;
+use std::collections::BTreeMap;
+
 use pica_record::prelude::*;
 
 #[inline(always)]
@@ -38,7 +39,7 @@ impl Duplicates {
             .strsim_threshold(self.strsim_threshold)
             .case_ignore(self.case_ignore);
 
-        let mut freqs = HashMap::new();
+        let mut freqs = BTreeMap::new();
 
         for row in record.query(&self.query, &options).iter() {
             let values =
diff --git a/crates/pica-cli/src/commands/check/checks/link.rs b/crates/pica-cli/src/commands/check/checks/link.rs
index bb1d58a..56bc086 100644
--- a/crates/pica-cli/src/commands/check/checks/link.rs
+++ b/crates/pica-cli/src/commands/check/checks/link.rs
@@ -1,5 +1,7 @@
+use std::collections::BTreeMap;
+
 use bstr::{BString, ByteSlice};
-use hashbrown::{HashMap, HashSet};
+use hashbrown::HashSet;
 use pica_record::prelude::*;
 
 #[derive(Debug, serde::Deserialize)]
@@ -15,7 +17,7 @@ pub(crate) struct Link {
     case_ignore: bool,
 
     #[serde(skip, default)]
-    unseen: HashMap<BString, Vec<BString>>,
+    unseen: BTreeMap<BString, Vec<BString>>,
 
     #[serde(skip, default)]
     seen: HashSet<BString>,
diff --git a/crates/pica-cli/src/commands/check/set.rs b/crates/pica-cli/src/commands/check/set.rs
index d12c244..567ddde 100644
--- a/crates/pica-cli/src/commands/check/set.rs
+++ b/crates/pica-cli/src/commands/check/set.rs
@@ -1,7 +1,7 @@
+use std::collections::BTreeMap;
 use std::fs::read_to_string;
 use std::path::Path;
 
-use hashbrown::HashMap;
 use pica_record::prelude::*;
 use unicode_normalization::UnicodeNormalization;
 
@@ -18,7 +18,7 @@ pub(crate) struct RuleSet {
     pub(crate) termination: Termination,
 
     #[serde(rename = "rule", default)]
-    pub(crate) rules: HashMap<String, Rule>,
+    pub(crate) rules: BTreeMap<String, Rule>,
 }
 
 #[derive(Debug, PartialEq, Default, serde::Deserialize)]
-- 
2.43.0


From b39c5429a2ed1e602a2fe1739dbf3b486ad4e73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 19/35] fix: report an invalid config instead of panicking

---
 crates/pica-cli/src/config.rs | 7 ++++++-
 crates/pica-cli/src/main.rs   | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/pica-cli/src/config.rs b/crates/pica-cli/src/config.rs
index 9905247..c1d49df 100644
--- a/crates/pica-cli/src/config.rs
+++ b/crates/pica-cli/src/config.rs
@@ -55,7 +55,12 @@ impl Config {
         let path = path.as_ref().into();
         let content = fs::read_to_string(&path)?;
         let mut config: Self =
-            toml::from_str(&content).expect("valid config");
+            toml::from_str(&content).map_err(|e| {
+                io::Error::new(
+                    io::ErrorKind::InvalidData,
+                    format!("invalid config: {e}"),
+                )
+            })?;
         config.path = path;
 
         Ok(config)
diff --git a/crates/pica-cli/src/main.rs b/crates/pica-cli/src/main.rs
index a530bd4..205e39c 100644
--- a/crates/pica-cli/src/main.rs
+++ b/crates/pica-cli/src/main.rs
@@ -20,7 +20,12 @@ fn run() -> CliResult {
 
     #[allow(unused_mut)]
     let mut config = if let Some(ref path) = args.config {
-        Config::from_path(path).unwrap_or(Config::new(path))
+        match Config::from_path(path) {
+            Err(e) if e.kind() == ErrorKind::NotFound => {
+                Config::new(path)
+            }
+            result => result?,
+        }
     } else {
         Config::discover()?
     };
-- 
2.43.0


From 9713af9a1f6408be6bde197fdecaaf164e080c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 20/35] fix: report write failures of config instead of
 panicking

---
 crates/pica-cli/src/commands/config.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/crates/pica-cli/src/commands/config.rs b/crates/pica-cli/src/commands/config.rs
index 49a3c86..6dae57b 100644
--- a/crates/pica-cli/src/commands/config.rs
+++ b/crates/pica-cli/src/commands/config.rs
@@ -1,3 +1,4 @@
+use std::io::{self, Write};
 use std::process::ExitCode;
 
 use clap::Parser;
@@ -28,14 +29,17 @@ pub(crate) struct Config {
 }
 
 #[inline]
-fn print_option<T: ToString>(value: Option<T>) {
-    println!(
+fn print_option<T: ToString>(value: Option<T>) -> io::Result<()> {
+    let mut stdout = io::stdout().lock();
+    writeln!(
+        stdout,
         "{}",
         match value {
             Some(value) => value.to_string(),
             None => "None".to_string(),
         }
-    );
+    )?;
+    stdout.flush()
 }
 
 impl Config {
@@ -88,10 +92,10 @@ impl Config {
         } else if self.get || (!self.unset && !self.set) {
             match name {
                 "skip-invalid" => {
-                    print_option(Some(&config.skip_invalid));
+                    print_option(Some(&config.skip_invalid))?;
                 }
                 "normalization" => {
-                    print_option(config.normalization.as_ref())
+                    print_option(config.normalization.as_ref())?;
                 }
                 _ => unreachable!(),
             }
-- 
2.43.0


From 7871d2213ccb7f816f6a0ac47887c02a2d91a2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 21/35] fix: write a record to all of its partitions when
 --limit is reached

---
 crates/pica-cli/src/commands/partition.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/crates/pica-cli/src/commands/partition.rs b/crates/pica-cli/src/commands/partition.rs
index cf60513..e7892cd 100644
--- a/crates/pica-cli/src/commands/partition.rs
+++ b/crates/pica-cli/src/commands/partition.rs
@@ -110,6 +110,10 @@ impl Partition {
                         values.sort_unstable();
                         values.dedup();
 
+                        if values.is_empty() {
+                            continue;
+                        }
+
                         for value in values {
                             let mut entry =
                                 writers.entry(value.to_vec());
@@ -134,12 +138,13 @@ impl Partition {
                             };
 
                             writer.write_byte_record(record)?;
-                            count += 1;
-                            if self.filter_opts.limit > 0
-                                && count >= self.filter_opts.limit
-                            {
-                                break 'outer;
-                            }
+                        }
+
+                        count += 1;
+                        if self.filter_opts.limit > 0
+                            && count >= self.filter_opts.limit
+                        {
+                            break 'outer;
                         }
                     }
                 }
-- 
2.43.0


From 6134a48d6ecb4aa4a2c0bd6b2f63eefd4a55ea58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:30 +0000
Subject: [PATCH 22/35] fix: keep partitions in separate files inside of OUTDIR

---
 crates/pica-cli/src/commands/partition.rs | 61 +++++++++++++++++------
 1 file changed, 45 insertions(+), 16 deletions(-)

diff --git a/crates/pica-cli/src/commands/partition.rs b/crates/pica-cli/src/commands/partition.rs
index e7892cd..b885784 100644
--- a/crates/pica-cli/src/commands/partition.rs
+++ b/crates/pica-cli/src/commands/partition.rs
@@ -55,6 +55,34 @@ pub(crate) struct Partition {
     filter_opts: FilterOpts,
 }
 
+/// Returns the filename of a partition.
+///
+/// The name is always derived from the template: a value that leads to
+/// a different directory is rejected.
+fn partition_filename(
+    template: &str,
+    value: &str,
+) -> Result<String, CliError> {
+    use std::path::{Component, Path, is_separator};
+
+    let parents = |path: &str| {
+        Path::new(path)
+            .components()
+            .filter(|component| *component == Component::ParentDir)
+            .count()
+    };
+
+    let filename = template.replace("{}", value);
+    if template.contains("{}")
+        && (value.contains(is_separator)
+            || parents(&filename) != parents(template))
+    {
+        bail!("value `{value}` can't be used in a filename");
+    }
+
+    Ok(filename)
+}
+
 impl Partition {
     pub(crate) fn execute(self, config: &Config) -> CliResult {
         let skip_invalid =
@@ -78,7 +106,7 @@ impl Partition {
             fs::create_dir_all(&self.outdir)?;
         }
 
-        let mut writers: HashMap<Vec<u8>, Box<dyn ByteRecordWrite>> =
+        let mut writers: HashMap<String, Box<dyn ByteRecordWrite>> =
             HashMap::new();
 
         'outer: for filename in self.filenames {
@@ -105,27 +133,28 @@ impl Partition {
                             continue;
                         }
 
-                        let mut values: Vec<_> =
-                            record.path(&self.path, &options).collect();
-                        values.sort_unstable();
-                        values.dedup();
-
-                        if values.is_empty() {
+                        let mut filenames = record
+                            .path(&self.path, &options)
+                            .map(|value| {
+                                partition_filename(
+                                    &template,
+                                    &value.to_string(),
+                                )
+                            })
+                            .collect::<Result<Vec<_>, _>>()?;
+                        filenames.sort_unstable();
+                        filenames.dedup();
+
+                        if filenames.is_empty() {
                             continue;
                         }
 
-                        for value in values {
-                            let mut entry =
-                                writers.entry(value.to_vec());
+                        for filename in filenames {
+                            let mut entry = writers.entry(filename);
                             let writer = match entry {
                                 Entry::Vacant(vacant) => {
-                                    let filename = template.replace(
-                                        "{}",
-                                        &value.to_string(),
-                                    );
-
                                     let path =
-                                        self.outdir.join(filename);
+                                        self.outdir.join(vacant.key());
                                     let writer = WriterBuilder::new()
                                         .gzip(self.gzip)
                                         .from_path(path)?;
-- 
2.43.0


From ec01b3b0a2a74e3879cac9f811d3bfc2627759ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:50 +0000
Subject: [PATCH 23/35] fix: discard the raw data of a record that is modified
 through deref_mut

---
 src/record.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/record.rs b/src/record.rs
index b9776d9..90a4054 100644
--- a/src/record.rs
+++ b/src/record.rs
@@ -222,6 +222,9 @@ impl<'a> Deref for ByteRecord<'a> {
 impl DerefMut for ByteRecord<'_> {
     #[inline]
     fn deref_mut(&mut self) -> &mut Self::Target {
+        // The raw data is only valid as long as the record isn't
+        // modified.
+        self.raw_data = None;
         &mut self.record
     }
 }
-- 
2.43.0


From 6a9b62a859cc3f536b6dcc442701b11f9b161463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:28 +0000
Subject: [PATCH 24/35] fix: match only occurrences of the same width in an
 occurrence range

---
 src/matcher/occurrence.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/matcher/occurrence.rs b/src/matcher/occurrence.rs
index 78af4fa..2396a10 100644
--- a/src/matcher/occurrence.rs
+++ b/src/matcher/occurrence.rs
@@ -74,7 +74,8 @@ impl OccurrenceMatcher {
                 Self::None => occ == b"00",
                 Self::Exact(rhs) => occ == rhs,
                 Self::Range(min, max) => {
-                    (occ.as_bytes() >= min.as_bytes())
+                    (occ.as_bytes().len() == min.len())
+                        && (occ.as_bytes() >= min.as_bytes())
                         && (occ.as_bytes() <= max.as_bytes())
                 }
             },
-- 
2.43.0


From 4ce445f4aba5bb90758178c406da1718e193f374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:26 +0000
Subject: [PATCH 25/35] fix: allow white space after the quantifier in a
 negated existence matcher

'!ALL 012A.a?' was rejected, although the same matcher is accepted
without the negation, and a negated matcher built in code was printed
in a form that could not be parsed again.
---
 src/matcher/field/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matcher/field/parser.rs b/src/matcher/field/parser.rs
index 0213205..488f9c4 100644
--- a/src/matcher/field/parser.rs
+++ b/src/matcher/field/parser.rs
@@ -191,7 +191,7 @@ fn parse_field_exists_matcher(
             FieldMatcher::Singleton(SingletonMatcher::Exists(matcher))
         }),
         (
-            opt(parse_quantifier).map(Option::unwrap_or_default),
+            opt(ws(parse_quantifier)).map(Option::unwrap_or_default),
             parse_tag_matcher,
             parse_occurrence_matcher,
             alt((
-- 
2.43.0


From 9132404a7801e25ba1c6a26faf04752127a31e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:34 +0000
Subject: [PATCH 26/35] fix: do not let a value make the filename of a
 partition absolute

---
 crates/pica-cli/src/commands/partition.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/pica-cli/src/commands/partition.rs b/crates/pica-cli/src/commands/partition.rs
index b885784..6d81bc9 100644
--- a/crates/pica-cli/src/commands/partition.rs
+++ b/crates/pica-cli/src/commands/partition.rs
@@ -75,7 +75,9 @@ fn partition_filename(
     let filename = template.replace("{}", value);
     if template.contains("{}")
         && (value.contains(is_separator)
-            || parents(&filename) != parents(template))
+            || parents(&filename) != parents(template)
+            || Path::new(&filename).has_root()
+                != Path::new(template).has_root())
     {
         bail!("value `{value}` can't be used in a filename");
     }
-- 
2.43.0


From 557f4a77564af35d1de26a115c7249d65f403ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:34 +0000
Subject: [PATCH 27/35] fix: read standard input given next to other files in
 filter -F

---
 crates/pica-cli/src/commands/filter.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/crates/pica-cli/src/commands/filter.rs b/crates/pica-cli/src/commands/filter.rs
index 531177e..e34c986 100644
--- a/crates/pica-cli/src/commands/filter.rs
+++ b/crates/pica-cli/src/commands/filter.rs
@@ -153,7 +153,6 @@ pub(crate) struct Filter {
     ///
     /// If no filenames where given or a filename is "-", data is read
     /// from standard input (stdin).
-    #[arg(default_value = "-", hide_default_value = true)]
     filenames: Vec<OsString>,
 }
 
@@ -194,11 +193,7 @@ impl Filter {
             // a expression file is given, it makes no sense to provide
             // an filter expression as CLI argument.
             if !self.filter.is_empty() {
-                if filenames != ["-"] {
-                    filenames.insert(0, self.filter.into());
-                } else {
-                    filenames = vec![self.filter.into()];
-                }
+                filenames.insert(0, self.filter.into());
             }
 
             read_to_string(filename)?
@@ -206,6 +201,10 @@ impl Filter {
             self.filter
         };
 
+        if filenames.is_empty() {
+            filenames.push("-".into());
+        }
+
         let matcher =
             RecordMatcherBuilder::with_transform(filter_str, translit)?
                 .and(self.and)?
-- 
2.43.0


From 04d8cbef4811ff9d614c5a18a4d498b4181ce966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:54 +0000
Subject: [PATCH 28/35] fix: report text that can't be represented in XML and
 keep carriage returns

---
 crates/pica-cli/src/commands/convert/xml.rs | 33 ++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/crates/pica-cli/src/commands/convert/xml.rs b/crates/pica-cli/src/commands/convert/xml.rs
index 4c45671..e978988 100644
--- a/crates/pica-cli/src/commands/convert/xml.rs
+++ b/crates/pica-cli/src/commands/convert/xml.rs
@@ -4,11 +4,40 @@ use std::io::{self, BufWriter, Write, stdout};
 
 use bstr::ByteSlice;
 use pica_record::prelude::*;
+use quick_xml::escape::escape;
 use quick_xml::events::{
     BytesDecl, BytesEnd, BytesStart, BytesText, Event,
 };
 use quick_xml::writer::Writer;
 
+/// Returns the escaped text of a value.
+///
+/// A carriage return must be written as a character reference, because
+/// an XML parser turns it into a line feed otherwise. Characters that
+/// are not allowed in XML 1.0 can't be written at all.
+fn xml_text(value: &str) -> io::Result<String> {
+    let is_forbidden = |c: char| {
+        matches!(
+            c,
+            '\u{0}'..='\u{8}'
+                | '\u{b}'
+                | '\u{c}'
+                | '\u{e}'..='\u{1f}'
+                | '\u{fffe}'
+                | '\u{ffff}'
+        )
+    };
+
+    if let Some(c) = value.chars().find(|c| is_forbidden(*c)) {
+        return Err(io::Error::new(
+            io::ErrorKind::InvalidData,
+            format!("character {c:?} is not allowed in XML"),
+        ));
+    }
+
+    Ok(escape(value).replace('\r', "&#13;"))
+}
+
 pub(crate) struct XmlWriter {
     writer: Writer<BufWriter<Box<dyn Write>>>,
 }
@@ -78,7 +107,9 @@ impl ByteRecordWrite for XmlWriter {
                                             .as_str(),
                                     ))
                                     .write_text_content(
-                                        BytesText::new(value),
+                                        BytesText::from_escaped(
+                                            xml_text(value)?,
+                                        ),
                                     )?;
                             }
 
-- 
2.43.0


From 4ac3f4f64843db457be553e3686d3fbecc053a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:16 +0000
Subject: [PATCH 29/35] fix: report invalid UTF-8 in the JSON conversion
 instead of replacing it

---
 crates/pica-cli/src/commands/convert/json.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/pica-cli/src/commands/convert/json.rs b/crates/pica-cli/src/commands/convert/json.rs
index 9392e6d..56415df 100644
--- a/crates/pica-cli/src/commands/convert/json.rs
+++ b/crates/pica-cli/src/commands/convert/json.rs
@@ -2,6 +2,7 @@ use std::ffi::OsString;
 use std::fs::File;
 use std::io::{self, BufWriter, Write, stdout};
 
+use bstr::ByteSlice;
 use pica_record::prelude::*;
 use serde_json::Value;
 
@@ -50,9 +51,11 @@ impl ByteRecordWrite for JsonWriter {
                     subfield.code().to_string(),
                 ));
 
-                data.push(serde_json::Value::String(
-                    subfield.value().to_string(),
-                ));
+                let value = subfield.value().to_str().map_err(|e| {
+                    io::Error::new(io::ErrorKind::InvalidData, e)
+                })?;
+
+                data.push(serde_json::Value::String(value.to_string()));
             }
 
             fields.push(Value::Array(data));
-- 
2.43.0


From 5dcd64a6ecc57bdc25dfdbeb0ee4b8cddf272612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:01 +0000
Subject: [PATCH 30/35] fix: count different rows separately in the duplicates
 check

---
 .../src/commands/check/checks/duplicates.rs   | 27 ++++++++++---------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/crates/pica-cli/src/commands/check/checks/duplicates.rs b/crates/pica-cli/src/commands/check/checks/duplicates.rs
index 5da5a96..71347d6 100644
--- a/crates/pica-cli/src/commands/check/checks/duplicates.rs
+++ b/crates/pica-cli/src/commands/check/checks/duplicates.rs
@@ -41,30 +41,31 @@ impl Duplicates {
 
         let mut freqs = BTreeMap::new();
 
-        for row in record.query(&self.query, &options).iter() {
-            let values =
-                row.iter().map(ToString::to_string).collect::<Vec<_>>();
-
-            if values.iter().all(String::is_empty) {
+        for row in record.query(&self.query, &options).into_inner() {
+            if row.iter().all(|value| value.is_empty()) {
                 continue;
             }
 
-            let value = values.join(&self.separator);
-
             freqs
-                .entry(value)
+                .entry(row)
                 .and_modify(|count| *count += 1)
                 .or_insert(1);
         }
 
         freqs.retain(|_, cnt| *cnt >= self.threshold);
         if !freqs.is_empty() {
-            let message = freqs
+            let mut messages = freqs
                 .keys()
-                .map(ToString::to_string)
-                .collect::<Vec<_>>()
-                .join("; ");
-            (true, Some(message))
+                .map(|row| {
+                    row.iter()
+                        .map(ToString::to_string)
+                        .collect::<Vec<_>>()
+                        .join(&self.separator)
+                })
+                .collect::<Vec<_>>();
+            messages.sort_unstable();
+
+            (true, Some(messages.join("; ")))
         } else {
             (false, None)
         }
-- 
2.43.0


From 51225975c119f6682496d8f6e9798c54e5395108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:26 +0000
Subject: [PATCH 31/35] fix: accept the JEL code Z0 in the jelc check

---
 crates/pica-cli/src/commands/check/checks/jelc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/pica-cli/src/commands/check/checks/jelc.rs b/crates/pica-cli/src/commands/check/checks/jelc.rs
index f8506c6..e5be52d 100644
--- a/crates/pica-cli/src/commands/check/checks/jelc.rs
+++ b/crates/pica-cli/src/commands/check/checks/jelc.rs
@@ -135,8 +135,8 @@ static CODES: LazyLock<HashSet<Vec<u8>>> = LazyLock::new(|| {
         "N6", "N7", "N8", "N9", "O0", "O1", "O2", "O3", "O4", "O5",
         "P0", "P0", "P1", "P2", "P3", "P4", "P5", "Q0", "Q1", "Q2",
         "Q3", "Q4", "Q5", "R0", "R1", "R2", "R3", "R4", "R5", "Y1",
-        "Y2", "Y3", "Y4", "Y5", "Y6", "Y7", "Y8", "Y9", "Z1", "Z2",
-        "Z3",
+        "Y2", "Y3", "Y4", "Y5", "Y6", "Y7", "Y8", "Y9", "Z0", "Z1",
+        "Z2", "Z3",
     ])
 });
 
-- 
2.43.0


From e1a401754ca41d052d62db214b74b9136787639b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:34 +0000
Subject: [PATCH 32/35] fix: don't allocate memory for the whole sample size in
 advance

---
 crates/pica-cli/src/commands/sample.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/pica-cli/src/commands/sample.rs b/crates/pica-cli/src/commands/sample.rs
index d764f8d..4e88c51 100644
--- a/crates/pica-cli/src/commands/sample.rs
+++ b/crates/pica-cli/src/commands/sample.rs
@@ -66,8 +66,7 @@ impl Sample {
             None => StdRng::from_rng(&mut rng()),
         };
 
-        let mut reservoir: Vec<Vec<u8>> =
-            Vec::with_capacity(sample_size);
+        let mut reservoir: Vec<Vec<u8>> = Vec::new();
 
         'outer: for filename in self.filenames {
             let mut reader =
-- 
2.43.0


From b95a49ccabcdd92d1f2152d926b464766013701a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:34 +0000
Subject: [PATCH 33/35] fix: end quietly if the reader of a table goes away

---
 crates/pica-cli/src/error.rs | 19 +++++++++++++++++++
 crates/pica-cli/src/main.rs  |  8 ++------
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/crates/pica-cli/src/error.rs b/crates/pica-cli/src/error.rs
index 7878e10..7a7a9c4 100644
--- a/crates/pica-cli/src/error.rs
+++ b/crates/pica-cli/src/error.rs
@@ -42,3 +42,22 @@ pub(crate) enum CliError {
     #[error("{0}")]
     Other(String),
 }
+
+impl CliError {
+    /// Returns `true` if the reader of the output has gone away.
+    pub(crate) fn is_broken_pipe(&self) -> bool {
+        use check::writer::Error;
+
+        let kind = match self {
+            Self::IO(e) | Self::Check(Error::IO(e)) => e.kind(),
+            Self::Csv(e) | Self::Check(Error::Csv(e)) => match e.kind()
+            {
+                csv::ErrorKind::Io(e) => e.kind(),
+                _ => return false,
+            },
+            _ => return false,
+        };
+
+        kind == std::io::ErrorKind::BrokenPipe
+    }
+}
diff --git a/crates/pica-cli/src/main.rs b/crates/pica-cli/src/main.rs
index 205e39c..53e8f20 100644
--- a/crates/pica-cli/src/main.rs
+++ b/crates/pica-cli/src/main.rs
@@ -4,7 +4,7 @@ use std::process::ExitCode;
 use clap::{CommandFactory, Parser};
 use cli::{Args, Command};
 use config::Config;
-use error::{CliError, CliResult};
+use error::CliResult;
 
 mod cli;
 mod commands;
@@ -55,11 +55,7 @@ fn run() -> CliResult {
 fn main() -> ExitCode {
     match run() {
         Ok(code) => code,
-        Err(CliError::IO(err))
-            if err.kind() == ErrorKind::BrokenPipe =>
-        {
-            ExitCode::SUCCESS
-        }
+        Err(err) if err.is_broken_pipe() => ExitCode::SUCCESS,
         Err(err) => {
             eprintln!("error: {err}");
             ExitCode::from(2)
-- 
2.43.0


From 692e6763a9626d919dd3978f147fe8205675e135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:49 +0000
Subject: [PATCH 34/35] fix: flush the output after the gzip stream is finished

---
 src/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/writer.rs b/src/writer.rs
index 0ed8669..2edc310 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -220,6 +220,6 @@ impl<W: Write> ByteRecordWrite for GzipWriter<W> {
     #[inline(always)]
     fn finish(&mut self) -> io::Result<()> {
         self.0.try_finish()?;
-        Ok(())
+        self.0.get_mut().flush()
     }
 }
-- 
2.43.0


From f9af4442b7dea664d6a85db66b38983599a2b0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:21 +0000
Subject: [PATCH 35/35] fix: a serialised byte record can be read back

The data a record was read from was serialised as a list of numbers but
can only be read back from bytes, so that no self-describing format that
knows both accepted its own output.
---
 src/record.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/record.rs b/src/record.rs
index 90a4054..a3e6155 100644
--- a/src/record.rs
+++ b/src/record.rs
@@ -3,6 +3,7 @@ use std::io::{self, Cursor, Write};
 use std::ops::{Deref, DerefMut};
 use std::str::Utf8Error;
 
+use bstr::BStr;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 use sha2::{Digest, Sha256};
@@ -14,7 +15,8 @@ use crate::primitives::{FieldRef, ParsePicaError, RecordRef};
 #[derive(Debug)]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
 pub struct ByteRecord<'a> {
-    raw_data: Option<&'a [u8]>,
+    #[cfg_attr(feature = "serde", serde(borrow))]
+    raw_data: Option<&'a BStr>,
     record: RecordRef<'a>,
 }
 
@@ -40,7 +42,7 @@ impl<'a> ByteRecord<'a> {
     ) -> Result<Self, ParsePicaError> {
         Ok(Self {
             record: RecordRef::from_bytes(bytes)?,
-            raw_data: Some(bytes.as_ref()),
+            raw_data: Some(bytes.as_ref().into()),
         })
     }
 
-- 
2.43.0

