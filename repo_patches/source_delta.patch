From 228f017ec1728c9cfbf6b1bea04ce21e2dc69de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:55 +0000
Subject: [PATCH 1/4] fix: return an error instead of panicking when parse() is
 given invalid trailing data

---
 src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 378268e..f876093 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -82,10 +82,10 @@ pub mod types;
 /// ```
 pub fn parse(raw: &str) -> Result<Definitions<'_>, Err<(&str, ErrorKind)>> {
     let (remaining, parsed) = Definitions::parse(raw)?;
-    assert!(
-        remaining.is_empty(),
-        "There is redundant raw data after parsing"
-    );
+    if !remaining.is_empty() {
+        // There is redundant raw data after parsing
+        return Err(Err::Error((remaining, ErrorKind::Eof)));
+    }
     Ok(parsed)
 }
 
-- 
2.43.0


From 37e51a18a2d92939d00493deb6f9dc2b154b14a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:55 +0000
Subject: [PATCH 2/4] fix: accept documents that contain only whitespace and
 comments

---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index f876093..5260e0c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -82,6 +82,8 @@ pub mod types;
 /// ```
 pub fn parse(raw: &str) -> Result<Definitions<'_>, Err<(&str, ErrorKind)>> {
     let (remaining, parsed) = Definitions::parse(raw)?;
+    // without any definition, whitespace and comments are still unconsumed
+    let (remaining, _) = whitespace::sp(remaining)?;
     if !remaining.is_empty() {
         // There is redundant raw data after parsing
         return Err(Err::Error((remaining, ErrorKind::Eof)));
-- 
2.43.0


From 770e4d120f36c65e170bb269a5a7c05e70cb7854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:55 +0000
Subject: [PATCH 3/4] fix: ignore a line comment that ends at the end of input

---
 src/whitespace.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/whitespace.rs b/src/whitespace.rs
index e6bbf0a..2a99233 100644
--- a/src/whitespace.rs
+++ b/src/whitespace.rs
@@ -4,8 +4,8 @@ pub(crate) fn sp(input: &str) -> IResult<&str, &str> {
     recognize!(
         input,
         many0!(alt!(
-            // ignores line comments
-            do_parse!(tag!("//") >> take_until!("\n") >> char!('\n') >> (()))
+            // ignores line comments, the last one may end at the end of input
+            do_parse!(tag!("//") >> take_while!(|c| c != '\n') >> (()))
             |
             // ignores whitespace
             map!(take_while1!(|c| c == '\t' || c == '\n' || c == '\r' || c == ' '), |_| ())
-- 
2.43.0


From fb67753ff52b166f4e0527c0548840a0eab737d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:55 +0000
Subject: [PATCH 4/4] fix: require at least one digit in a hexadecimal literal

---
 src/literal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/literal.rs b/src/literal.rs
index 34d9bb1..aae7e60 100644
--- a/src/literal.rs
+++ b/src/literal.rs
@@ -19,7 +19,7 @@ ast_types! {
                 opt!(char!('-')) >>
                 char!('0') >>
                 alt!(char!('x') | char!('X')) >>
-                take_while!(|c: char| c.is_ascii_hexdigit()) >>
+                take_while1!(|c: char| c.is_ascii_hexdigit()) >>
                 (())
             ))),
         )),
-- 
2.43.0

