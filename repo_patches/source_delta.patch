From bf64c2262276a6a9083c5480e51e2f431467b8af Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 04:57:17 +0000
Subject: [PATCH 1/4] fix: weedle::parse returns an error instead of panicking
 on invalid input

Definitions::parse stops at the first definition it cannot parse, and
parse() then asserted that nothing was left: every invalid document
aborted the caller although the function returns a Result. Return
Err::Error with the unparsed rest and ErrorKind::Eof instead.
---
 src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 378268e..f876093 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -82,10 +82,10 @@ pub mod types;
 /// ```
 pub fn parse(raw: &str) -> Result<Definitions<'_>, Err<(&str, ErrorKind)>> {
     let (remaining, parsed) = Definitions::parse(raw)?;
-    assert!(
-        remaining.is_empty(),
-        "There is redundant raw data after parsing"
-    );
+    if !remaining.is_empty() {
+        // There is redundant raw data after parsing
+        return Err(Err::Error((remaining, ErrorKind::Eof)));
+    }
     Ok(parsed)
 }
 
-- 
2.43.0


From 2b65167bc1f61468a2edfe37993e297ea1ff9785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:17 +0000
Subject: [PATCH 2/4] fix: accept documents made only of whitespace and
 comments

Whitespace is consumed by the tokens around it, so a document without a
single token kept its blanks and comments as unparsed data and was
refused, although it is a valid document with no definitions.
---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index f876093..c4e0c70 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -82,6 +82,8 @@ pub mod types;
 /// ```
 pub fn parse(raw: &str) -> Result<Definitions<'_>, Err<(&str, ErrorKind)>> {
     let (remaining, parsed) = Definitions::parse(raw)?;
+    // A document without any definition may still hold whitespace & comments
+    let (remaining, _) = whitespace::sp(remaining)?;
     if !remaining.is_empty() {
         // There is redundant raw data after parsing
         return Err(Err::Error((remaining, ErrorKind::Eof)));
-- 
2.43.0


From 881e52fbd484b3b1510d9526a02f6860d585837b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:17 +0000
Subject: [PATCH 3/4] fix: accept a line comment that ends at the end of the
 input

A line comment was recognised only when followed by a newline, so a
document whose last line is a comment without a trailing newline was
refused.
---
 src/whitespace.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/whitespace.rs b/src/whitespace.rs
index e6bbf0a..84ddccb 100644
--- a/src/whitespace.rs
+++ b/src/whitespace.rs
@@ -5,7 +5,7 @@ pub(crate) fn sp(input: &str) -> IResult<&str, &str> {
         input,
         many0!(alt!(
             // ignores line comments
-            do_parse!(tag!("//") >> take_until!("\n") >> char!('\n') >> (()))
+            do_parse!(tag!("//") >> take_while!(|c| c != '\n') >> opt!(char!('\n')) >> (()))
             |
             // ignores whitespace
             map!(take_while1!(|c| c == '\t' || c == '\n' || c == '\r' || c == ' '), |_| ())
-- 
2.43.0


From bd86698e2e0d9e0bd0bde6af02361280c77fe741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:17 +0000
Subject: [PATCH 4/4] fix: require at least one digit in a hexadecimal literal

HexLit is documented as -?0[Xx][0-9A-Fa-f]+ but accepted a bare 0x.
---
 src/literal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/literal.rs b/src/literal.rs
index 34d9bb1..aae7e60 100644
--- a/src/literal.rs
+++ b/src/literal.rs
@@ -19,7 +19,7 @@ ast_types! {
                 opt!(char!('-')) >>
                 char!('0') >>
                 alt!(char!('x') | char!('X')) >>
-                take_while!(|c: char| c.is_ascii_hexdigit()) >>
+                take_while1!(|c: char| c.is_ascii_hexdigit()) >>
                 (())
             ))),
         )),
-- 
2.43.0

