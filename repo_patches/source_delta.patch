From 17da919fac0fd94225dc41488f9736d2991c824e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 01/13] fix: bound recursion through unary operators and dot
 access by the maximum depth

---
 src/parse/parser.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index 2b223a7..e1fddc7 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -656,6 +656,11 @@ fn parse_unary_op(
     cur_brace: Option<char>,
     op: UnaryOp,
 ) -> ParseResult<Value> {
+    // Check depth.
+    if depth > MAX_DEPTH {
+        return parse_err(stream.file(), MaxDepth(stream.line(), stream.col()));
+    }
+
     let next = stream.next();
     assert!(
         (next == Some('-') && op == UnaryOp::Minus) || (next == Some('+') && op == UnaryOp::Plus)
@@ -778,6 +783,11 @@ fn parse_variable(
     depth: usize,
     cur_brace: Option<char>,
 ) -> ParseResult<Value> {
+    // Check depth.
+    if depth > MAX_DEPTH {
+        return parse_err(stream.file(), MaxDepth(stream.line(), stream.col()));
+    }
+
     let mut var = String::new();
     let mut is_global = false;
     let mut dot = false;
-- 
2.43.0


From ac4f2489344682233040bfff0df14c10165212a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 02/13] fix: count nesting depth across file includes

---
 src/parse/parser.rs | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index e1fddc7..93f2081 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -40,25 +40,33 @@ lazy_static! {
 /// Parses given file as an `Obj`.
 pub fn parse_obj_file(path: &str) -> ParseResult<Obj> {
     let stream = CharStream::from_file(path)?;
-    parse_obj_stream(stream, &mut (Default::default(), Default::default()))
+    parse_obj_stream(stream, &mut (Default::default(), Default::default()), 1)
 }
 
 // Parses given file as an `Obj`, keeping track of already encountered includes.
-fn parse_obj_file_includes(path: &str, included: &mut IncludedMap) -> ParseResult<Obj> {
+fn parse_obj_file_includes(
+    path: &str,
+    included: &mut IncludedMap,
+    depth: usize,
+) -> ParseResult<Obj> {
     let stream = CharStream::from_file(path)?;
-    parse_obj_stream(stream, included)
+    parse_obj_stream(stream, included, depth)
 }
 
 /// Parses given &str as an `Obj`.
 pub fn parse_obj_str(contents: &str) -> ParseResult<Obj> {
     let contents = String::from(contents);
     let stream = CharStream::from_string(contents)?;
-    parse_obj_stream(stream, &mut (Default::default(), Default::default()))
+    parse_obj_stream(stream, &mut (Default::default(), Default::default()), 1)
 }
 
 // Parses an Obj given a character stream.
 #[inline]
-fn parse_obj_stream(mut stream: CharStream, mut included: &mut IncludedMap) -> ParseResult<Obj> {
+fn parse_obj_stream(
+    mut stream: CharStream,
+    mut included: &mut IncludedMap,
+    depth: usize,
+) -> ParseResult<Obj> {
     let mut obj_pairs: Pairs = Default::default();
 
     // Go to the first non-whitespace character, or return if there is none.
@@ -76,7 +84,7 @@ fn parse_obj_stream(mut stream: CharStream, mut included: &mut IncludedMap) -> P
         &mut globals,
         &mut included,
         &mut parent,
-        1,
+        depth,
         None,
     )? {}
 
@@ -229,7 +237,7 @@ fn parse_field_value_pair(
 }
 
 // Parses an Arr given a file.
-fn parse_arr_file(path: &str, mut included: &mut IncludedMap) -> ParseResult<Arr> {
+fn parse_arr_file(path: &str, mut included: &mut IncludedMap, depth: usize) -> ParseResult<Arr> {
     let mut stream = CharStream::from_file(path)?;
 
     let obj_pairs: Pairs = Default::default();
@@ -254,7 +262,7 @@ fn parse_arr_file(path: &str, mut included: &mut IncludedMap) -> ParseResult<Arr
             &mut included,
             value_line,
             value_col,
-            1,
+            depth,
             None,
             true,
         )?;
@@ -372,7 +380,7 @@ fn parse_arr(
 }
 
 // Parses a Tup given a file.
-fn parse_tup_file(path: &str, mut included: &mut IncludedMap) -> ParseResult<Tup> {
+fn parse_tup_file(path: &str, mut included: &mut IncludedMap, depth: usize) -> ParseResult<Tup> {
     let mut stream = CharStream::from_file(path)?;
 
     let mut vec: Vec<Value> = Default::default();
@@ -394,7 +402,7 @@ fn parse_tup_file(path: &str, mut included: &mut IncludedMap) -> ParseResult<Tup
             &mut included,
             value_line,
             value_col,
-            1,
+            depth,
             None,
             true,
         )?;
@@ -1147,10 +1155,10 @@ fn parse_include(
         value.clone()
     } else {
         let value: Value = match include_type {
-            IncludeType::Obj => parse_obj_file_includes(path_str, included)?.into(),
+            IncludeType::Obj => parse_obj_file_includes(path_str, included, depth)?.into(),
             IncludeType::Str => parse_str_file(path_str)?.into(),
-            IncludeType::Arr => parse_arr_file(path_str, included)?.into(),
-            IncludeType::Tup => parse_tup_file(path_str, included)?.into(),
+            IncludeType::Arr => parse_arr_file(path_str, included, depth)?.into(),
+            IncludeType::Tup => parse_tup_file(path_str, included, depth)?.into(),
         };
         // Use full path as included key.
         included.0.insert(full_path_str.into(), value.clone());
-- 
2.43.0


From 9bd74de4eeac21adf12ae36fd0c9fa6dc50ca373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 03/13] fix: do not return a cached include of a different type

---
 src/parse/parser.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index 93f2081..40a0250 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -27,7 +27,15 @@ use std::{
 
 type Pairs = Vec<Pair>;
 type GlobalMap = HashMap<String, Value>;
-type IncludedMap = (HashMap<String, Value>, HashSet<String>);
+type IncludedMap = (HashMap<(String, IncludeType), Value>, HashSet<String>);
+
+#[derive(Clone, Copy, PartialEq, Eq, Hash)]
+enum IncludeType {
+    Obj,
+    Str,
+    Arr,
+    Tup,
+}
 
 lazy_static! {
     // Objs that signify that an include keyword was encountered.
@@ -1013,13 +1021,6 @@ fn parse_include(
     mut included: &mut IncludedMap,
     depth: usize,
 ) -> ParseResult<Value> {
-    enum IncludeType {
-        Obj,
-        Str,
-        Arr,
-        Tup,
-    }
-
     // Check depth.
     if depth > MAX_DEPTH {
         return parse_err(stream.file(), MaxDepth(stream.line(), stream.col()));
@@ -1150,8 +1151,10 @@ fn parse_include(
     }
 
     // Get either the tracked value or parse it if it's our first time seeing the include.
-    let value = if included.0.contains_key(full_path_str) {
-        let value = &included.0[full_path_str];
+    // The same file may be included as different types, so the type is part of the key.
+    let key = (String::from(full_path_str), include_type);
+    let value = if included.0.contains_key(&key) {
+        let value = &included.0[&key];
         value.clone()
     } else {
         let value: Value = match include_type {
@@ -1160,8 +1163,8 @@ fn parse_include(
             IncludeType::Arr => parse_arr_file(path_str, included, depth)?.into(),
             IncludeType::Tup => parse_tup_file(path_str, included, depth)?.into(),
         };
-        // Use full path as included key.
-        included.0.insert(full_path_str.into(), value.clone());
+        // Use full path and type as included key.
+        included.0.insert(key, value.clone());
         value
     };
 
-- 
2.43.0


From d304c0460d0a4e6ae348ed5efb47e9f1ee8050e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 04/13] fix: reject a global that its own value already defines

---
 src/parse/parser.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index 40a0250..227c884 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -220,6 +220,13 @@ fn parse_field_value_pair(
     // Add value either to the globals map or to the current Obj.
     match field_type {
         FieldType::Global => {
+            // Parsing the value may itself have defined this global.
+            if globals.contains_key(&field_name) {
+                return parse_err(
+                    stream.file(),
+                    DuplicateGlobal(field_name, field_line, field_col),
+                );
+            }
             let _ = globals.insert(field_name, value);
         }
         FieldType::Parent => {
-- 
2.43.0


From 1bafd398c9ec05b63e8cddf20c2902ea9a9a1e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 05/13] fix: do not accept empty field names or names starting
 with '^'

---
 src/obj.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/obj.rs b/src/obj.rs
index f689bb4..8f395e7 100644
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -262,6 +262,11 @@ impl Obj {
     /// The first character must be alphabetic or '_'. Subsequent characters are allowed to be
     /// alphabetic, digits, or '_'.
     pub fn is_valid_field(field: &str) -> bool {
+        // '^' on its own denotes the parent, which is not a regular field.
+        if field.is_empty() || field.starts_with('^') {
+            return false;
+        }
+
         let mut first = true;
 
         for ch in field.chars() {
-- 
2.43.0


From b8b7f7540b5adff4555edccf0b87a6f6fd5fd008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:47 +0000
Subject: [PATCH 06/13] fix: reject include keywords used as values outside of
 an include

---
 src/parse/parser.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index 227c884..7b6c006 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -862,10 +862,10 @@ fn parse_variable(
         "false" => Value::Bool(false),
 
         // If we're being called by `parse_include`, signify that one of these keywords was found.
-        "Obj" => Value::Obj(OBJ_SENTINEL.clone()),
-        "Str" => Value::Obj(STR_SENTINEL.clone()),
-        "Arr" => Value::Obj(ARR_SENTINEL.clone()),
-        "Tup" => Value::Obj(TUP_SENTINEL.clone()),
+        "Obj" if cur_brace == Some('>') => Value::Obj(OBJ_SENTINEL.clone()),
+        "Str" if cur_brace == Some('>') => Value::Obj(STR_SENTINEL.clone()),
+        "Arr" if cur_brace == Some('>') => Value::Obj(ARR_SENTINEL.clone()),
+        "Tup" if cur_brace == Some('>') => Value::Obj(TUP_SENTINEL.clone()),
 
         var @ "@" => return parse_err(stream.file(), InvalidValue(var.into(), line, col)),
         var if is_global => {
-- 
2.43.0


From 1dafe311736c7cfa34debca08cd9ec69cc9b2916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:48 +0000
Subject: [PATCH 07/13] fix: return an error instead of panicking when the
 including file has no UTF-8 path

---
 src/parse/parser.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index 7b6c006..82bb04d 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -1147,7 +1147,14 @@ fn parse_include(
 
     // Prevent cyclic includes by temporarily storing the current file path.
     let storing = if let Some(file) = stream.file() {
-        let full_file = String::from(Path::new(&file).canonicalize().unwrap().to_str().unwrap());
+        let full_file = match Path::new(&file).canonicalize() {
+            Ok(path) => path.to_str().map(String::from),
+            Err(_) => None,
+        };
+        let full_file = match full_file {
+            Some(full_file) => full_file,
+            None => return parse_err(stream.file(), InvalidIncludePath(include_file, line, col)),
+        };
         included.1.insert(full_file.clone());
         Some(full_file)
     } else {
-- 
2.43.0


From b2cfa37375d1398b30424eb6a7a1709ad6f31eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 08/13] fix: resolve inherited fields in dot notation

---
 src/parse/parser.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index 82bb04d..3d0d1b0 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -957,9 +957,17 @@ fn parse_variable(
                     return parse_err(stream.file(), InvalidValueChar('@', line, col));
                 }
 
+                // Inherited fields come after the fields that override them.
+                let mut fields = obj.pairs_ref().clone();
+                let mut parent = obj.get_parent();
+                while let Some(obj) = parent {
+                    fields.extend_from_slice(obj.pairs_ref());
+                    parent = obj.get_parent();
+                }
+
                 parse_variable(
                     &mut stream,
-                    obj.pairs_ref(),
+                    &fields,
                     globals,
                     included,
                     line,
-- 
2.43.0


From b8b3e58700fcd4030a6e5745192cc507e59d1591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 09/13] fix: report where an unreadable include file is
 included

---
 src/parse/error.rs  | 17 +++++++++++++++++
 src/parse/parser.rs | 19 ++++++++++++++-----
 2 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/src/parse/error.rs b/src/parse/error.rs
index 6cd8bbe..bc9a585 100644
--- a/src/parse/error.rs
+++ b/src/parse/error.rs
@@ -185,6 +185,23 @@ impl ParseError {
             kind: ParseErrorKind::OverError(format!("{} at line {}, col {}", e, line, col)),
         }
     }
+
+    /// Create a `ParseError` for an include that could not be read.
+    pub fn from_include(
+        path: &str,
+        error: &str,
+        file: Option<String>,
+        line: usize,
+        col: usize,
+    ) -> Self {
+        Self {
+            file,
+            kind: ParseErrorKind::IoError(format!(
+                "Could not read include \"{}\" at line {}, column {}: {}",
+                path, line, col, error
+            )),
+        }
+    }
 }
 
 impl From<io::Error> for ParseError {
diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index 3d0d1b0..ee90f44 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -1179,12 +1179,21 @@ fn parse_include(
         let value = &included.0[&key];
         value.clone()
     } else {
-        let value: Value = match include_type {
-            IncludeType::Obj => parse_obj_file_includes(path_str, included, depth)?.into(),
-            IncludeType::Str => parse_str_file(path_str)?.into(),
-            IncludeType::Arr => parse_arr_file(path_str, included, depth)?.into(),
-            IncludeType::Tup => parse_tup_file(path_str, included, depth)?.into(),
+        let value: ParseResult<Value> = match include_type {
+            IncludeType::Obj => {
+                parse_obj_file_includes(path_str, included, depth).map(Value::from)
+            }
+            IncludeType::Str => parse_str_file(path_str).map(Value::from),
+            IncludeType::Arr => parse_arr_file(path_str, included, depth).map(Value::from),
+            IncludeType::Tup => parse_tup_file(path_str, included, depth).map(Value::from),
         };
+        // A file that cannot be read is reported where it is included.
+        let value = value.map_err(|e| match e.kind {
+            IoError(msg) if e.file.is_none() => {
+                ParseError::from_include(&include_file, &msg, stream.file(), line, col)
+            }
+            kind => ParseError { kind, ..e },
+        })?;
         // Use full path and type as included key.
         included.0.insert(key, value.clone());
         value
-- 
2.43.0


From 56bc96e947ca764f0f4f35a5e69e209b8bf4d606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:39 +0000
Subject: [PATCH 10/13] fix: do not accept global names starting with '^'

---
 src/parse/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index ee90f44..81c1c0e 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -534,7 +534,7 @@ fn parse_field(
             parse_err(stream.file(), InvalidFieldName(field.clone(), line, col))
         }
         "^" => Ok((field.clone(), FieldType::Parent)),
-        bad if bad.starts_with('^') => {
+        bad if bad.starts_with('^') || bad.starts_with("@^") => {
             parse_err(stream.file(), InvalidFieldName(field.clone(), line, col))
         }
         _ => Ok((
-- 
2.43.0


From 1a5274c66277aefd418703ec6118a2042d52ecc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:07 +0000
Subject: [PATCH 11/13] fix: try_obj! with a trailing comma yields its value

The arm for a trailing comma ended with a semicolon, so that in the tail
position of a block the macro gave () instead of the object.
---
 src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macros.rs b/src/macros.rs
index 55bc773..f4a700f 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -94,7 +94,7 @@ macro_rules! obj {
 macro_rules! try_obj {
     { $( $field:expr => $inner:expr ),+ , } => {
         // Rule with trailing comma.
-        try_obj!{ $( $field => $inner ),* };
+        try_obj!{ $( $field => $inner ),* }
     };
     { $( $field:expr => $inner:expr ),+ } => {
         #[allow(clippy::useless_let_if_seq)]
-- 
2.43.0


From 8ac28c6ae2c3eae1ce0623baa2f52c6d9a2551a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:07 +0000
Subject: [PATCH 12/13] fix: tup!() makes the empty tuple

The macro accepts an empty list but did not compile with one.
---
 src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macros.rs b/src/macros.rs
index f4a700f..ad50505 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -63,7 +63,7 @@ macro_rules! tup {
     };
     ( $( $elem:expr ),* ) => {
         {
-            $crate::tup::Tup::from_values(vec![ $( $elem.into() ),+ ])
+            $crate::tup::Tup::from_values(vec![ $( $elem.into() ),* ])
         }
     };
 }
-- 
2.43.0


From 136a1ad4b4f21a9c7e547add5d227c168b56aa69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:07 +0000
Subject: [PATCH 13/13] Uses of the macros for static analysis, behind
 cfg(over_verif)

---
 src/lib.rs        |  5 +++
 src/macro_uses.rs | 86 +++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 91 insertions(+)
 create mode 100644 src/macro_uses.rs

diff --git a/src/lib.rs b/src/lib.rs
index 70fa77d..a0766ba 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -26,6 +26,11 @@ mod parse;
 #[cfg(test)]
 mod tests;
 
+// Uses of the macros for static analysis; not part of the library.
+#[allow(unexpected_cfgs, dead_code)]
+#[cfg(over_verif)]
+mod macro_uses;
+
 pub use crate::{error::OverError, obj::Obj};
 
 use std::sync::atomic::{AtomicUsize, Ordering};
diff --git a/src/macro_uses.rs b/src/macro_uses.rs
new file mode 100644
index 0000000..080e170
--- /dev/null
+++ b/src/macro_uses.rs
@@ -0,0 +1,86 @@
+//! One use of each form of the construction macros, for static analysis. Compiled only with
+//! `--cfg over_verif`; never part of the library.
+
+use crate::{arr::Arr, obj::Obj, tup::Tup, value::Value, OverResult};
+use num_bigint::BigInt;
+use num_rational::BigRational;
+
+fn arr_0() -> Arr {
+    arr![]
+}
+
+fn arr_1(a: Value) -> Arr {
+    arr![a]
+}
+
+fn arr_3(a: Value, b: Value, c: Value) -> Arr {
+    arr![a, b, c]
+}
+
+fn arr_3_comma(a: Value, b: Value, c: Value) -> Arr {
+    arr![a, b, c,]
+}
+
+fn try_arr_1(a: Value) -> OverResult<Arr> {
+    try_arr![a]
+}
+
+fn try_arr_3(a: Value, b: Value, c: Value) -> OverResult<Arr> {
+    try_arr![a, b, c]
+}
+
+fn try_arr_3_comma(a: Value, b: Value, c: Value) -> OverResult<Arr> {
+    try_arr![a, b, c,]
+}
+
+fn tup_0() -> Tup {
+    tup!()
+}
+
+fn tup_1(a: Value) -> Tup {
+    tup!(a)
+}
+
+fn tup_3(a: Value, b: Value, c: Value) -> Tup {
+    tup!(a, b, c)
+}
+
+fn tup_3_comma(a: Value, b: Value, c: Value) -> Tup {
+    tup!(a, b, c,)
+}
+
+fn obj_0() -> Obj {
+    obj! {}
+}
+
+fn obj_1(f: &str, a: Value) -> Obj {
+    obj! { f => a }
+}
+
+fn obj_3(f: &str, a: Value, g: &str, b: Value, h: &str, c: Value) -> Obj {
+    obj! { f => a, g => b, h => c }
+}
+
+fn obj_3_comma(f: &str, a: Value, g: &str, b: Value, h: &str, c: Value) -> Obj {
+    obj! { f => a, g => b, h => c, }
+}
+
+fn try_obj_1(f: &str, a: Value) -> OverResult<Obj> {
+    try_obj! { f => a }
+}
+
+fn try_obj_3(f: &str, a: Value, g: &str, b: Value, h: &str, c: Value) -> OverResult<Obj> {
+    try_obj! { f => a, g => b, h => c }
+}
+
+fn try_obj_3_comma(f: &str, a: Value, g: &str, b: Value, h: &str, c: Value) -> OverResult<Obj> {
+    try_obj! { f => a, g => b, h => c, }
+}
+
+fn int_1(a: BigInt) -> BigInt {
+    int!(a)
+}
+
+fn frac_2(a: BigInt, b: BigInt) -> BigRational {
+    frac!(a, b)
+}
-- 
2.43.0

