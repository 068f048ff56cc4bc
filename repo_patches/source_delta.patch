From 7cf19684551be2d1f529de14597f7baa57a4b63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:25 +0000
Subject: [PATCH 01/28] fix: parser looped forever on ! after a complete
 expression

---
 lib/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parser.rs b/lib/src/parser.rs
index bd473eb..38944e7 100644
--- a/lib/src/parser.rs
+++ b/lib/src/parser.rs
@@ -142,7 +142,7 @@ impl Parser {
                     self.next_token();
                     self.parse_field_expr(left)?
                 }
-                _ => left,
+                _ => break,
             };
         }
         Ok(left)
-- 
2.43.0


From 696cdc7174c02d70025b02cf6bd9857f6e34e973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:25 +0000
Subject: [PATCH 02/28] fix: integer overflow, zero divisor and shift out of
 range are errors, not panics

---
 lib/src/evaluator.rs |  5 ++++-
 lib/src/value.rs     | 30 +++++++++++++++++++++++-------
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/lib/src/evaluator.rs b/lib/src/evaluator.rs
index f638c12..bd4c8a6 100644
--- a/lib/src/evaluator.rs
+++ b/lib/src/evaluator.rs
@@ -117,7 +117,10 @@ fn eval_unary_expr(token: &Token, right: &Expr, context: &mut Context) -> Result
         (Kind::Not, Value::Boolean(false)) | (Kind::Not, Value::Null) => Ok(Value::Boolean(true)),
         (Kind::Not, Value::Integer(integer)) => Ok(Value::Integer(!integer)),
         (Kind::Not, _) => Ok(Value::Boolean(false)),
-        (Kind::Sub, Value::Integer(integer)) => Ok(Value::Integer(-integer)),
+        (Kind::Sub, Value::Integer(integer)) => match integer.checked_neg() {
+            Some(integer) => Ok(Value::Integer(integer)),
+            None => Err(format!("integer overflow: -({})", integer)),
+        },
         (Kind::Sub, Value::Float(float)) => Ok(Value::Float(-float)),
         (_, right) => Err(format!("unknown operator: {}{:?}", token, right)),
     }
diff --git a/lib/src/value.rs b/lib/src/value.rs
index f3b8d00..c0d81b6 100644
--- a/lib/src/value.rs
+++ b/lib/src/value.rs
@@ -42,7 +42,10 @@ impl Add for Value {
     type Output = std::result::Result<Self, String>;
     fn add(self, other: Self) -> Self::Output {
         match (self, other) {
-            (Value::Integer(left), Value::Integer(right)) => Ok(Value::Integer(left + right)),
+            (Value::Integer(left), Value::Integer(right)) => match left.checked_add(right) {
+                Some(integer) => Ok(Value::Integer(integer)),
+                None => Err(format!("integer overflow: {} + {}", left, right)),
+            },
             (Value::Float(left), Value::Float(right)) => Ok(Value::Float(left + right)),
             (Value::Integer(left), Value::Float(right)) => Ok(Value::Float(left as f64 + right)),
             (Value::Float(left), Value::Integer(right)) => Ok(Value::Float(left + right as f64)),
@@ -56,7 +59,10 @@ impl Sub for Value {
     type Output = std::result::Result<Self, String>;
     fn sub(self, other: Self) -> Self::Output {
         match (self, other) {
-            (Value::Integer(left), Value::Integer(right)) => Ok(Value::Integer(left - right)),
+            (Value::Integer(left), Value::Integer(right)) => match left.checked_sub(right) {
+                Some(integer) => Ok(Value::Integer(integer)),
+                None => Err(format!("integer overflow: {} - {}", left, right)),
+            },
             (Value::Float(left), Value::Float(right)) => Ok(Value::Float(left - right)),
             (Value::Integer(left), Value::Float(right)) => Ok(Value::Float(left as f64 - right)),
             (Value::Float(left), Value::Integer(right)) => Ok(Value::Float(left - right as f64)),
@@ -69,7 +75,10 @@ impl Mul for Value {
     type Output = std::result::Result<Self, String>;
     fn mul(self, other: Self) -> Self::Output {
         match (self, other) {
-            (Value::Integer(left), Value::Integer(right)) => Ok(Value::Integer(left * right)),
+            (Value::Integer(left), Value::Integer(right)) => match left.checked_mul(right) {
+                Some(integer) => Ok(Value::Integer(integer)),
+                None => Err(format!("integer overflow: {} * {}", left, right)),
+            },
             (Value::Float(left), Value::Float(right)) => Ok(Value::Float(left * right)),
             (Value::Integer(left), Value::Float(right)) => Ok(Value::Float(left as f64 * right)),
             (Value::Float(left), Value::Integer(right)) => Ok(Value::Float(left * right as f64)),
@@ -82,7 +91,11 @@ impl Div for Value {
     type Output = std::result::Result<Self, String>;
     fn div(self, other: Self) -> Self::Output {
         match (self, other) {
-            (Value::Integer(left), Value::Integer(right)) => Ok(Value::Integer(left / right)),
+            (Value::Integer(left), Value::Integer(0)) => Err(format!("division by zero: {} / 0", left)),
+            (Value::Integer(left), Value::Integer(right)) => match left.checked_div(right) {
+                Some(integer) => Ok(Value::Integer(integer)),
+                None => Err(format!("integer overflow: {} / {}", left, right)),
+            },
             (Value::Float(left), Value::Float(right)) => Ok(Value::Float(left / right)),
             (Value::Integer(left), Value::Float(right)) => Ok(Value::Float(left as f64 / right)),
             (Value::Float(left), Value::Integer(right)) => Ok(Value::Float(left / right as f64)),
@@ -95,7 +108,8 @@ impl Rem for Value {
     type Output = std::result::Result<Self, String>;
     fn rem(self, other: Self) -> Self::Output {
         match (self, other) {
-            (Value::Integer(left), Value::Integer(right)) => Ok(Value::Integer(left % right)),
+            (Value::Integer(left), Value::Integer(0)) => Err(format!("division by zero: {} % 0", left)),
+            (Value::Integer(left), Value::Integer(right)) => Ok(Value::Integer(left.wrapping_rem(right))),
             (Value::Float(left), Value::Float(right)) => Ok(Value::Float(left % right)),
             (Value::Integer(left), Value::Float(right)) => Ok(Value::Float(left as f64 % right)),
             (Value::Float(left), Value::Integer(right)) => Ok(Value::Float(left % right as f64)),
@@ -138,7 +152,8 @@ impl Shl for Value {
     type Output = std::result::Result<Self, String>;
     fn shl(self, other: Self) -> Self::Output {
         match (self, other) {
-            (Value::Integer(left), Value::Integer(right)) => Ok(Value::Integer(left << right)),
+            (Value::Integer(left), Value::Integer(right @ 0..=63)) => Ok(Value::Integer(left << right)),
+            (Value::Integer(left), Value::Integer(right)) => Err(format!("shift out of range: {} << {}", left, right)),
             (left, right) => Err(format!("type mismatch: {} << {}", left, right)),
         }
     }
@@ -148,7 +163,8 @@ impl Shr for Value {
     type Output = std::result::Result<Self, String>;
     fn shr(self, other: Self) -> Self::Output {
         match (self, other) {
-            (Value::Integer(left), Value::Integer(right)) => Ok(Value::Integer(left >> right)),
+            (Value::Integer(left), Value::Integer(right @ 0..=63)) => Ok(Value::Integer(left >> right)),
+            (Value::Integer(left), Value::Integer(right)) => Err(format!("shift out of range: {} >> {}", left, right)),
             (left, right) => Err(format!("type mismatch: {} >> {}", left, right)),
         }
     }
-- 
2.43.0


From 7cbf70d10f0e894d8588fcfc699a8157ca593679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:46 +0000
Subject: [PATCH 03/28] fix: an integer and a float of the same value were
 neither less, equal nor greater

---
 lib/src/value.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/lib/src/value.rs b/lib/src/value.rs
index c0d81b6..baf747a 100644
--- a/lib/src/value.rs
+++ b/lib/src/value.rs
@@ -13,7 +13,7 @@ use std::ops::Shl;
 use std::ops::Shr;
 use std::ops::Sub;
 
-#[derive(Debug, Clone, PartialEq)]
+#[derive(Debug, Clone)]
 pub enum Value {
     Null,
     Integer(i64),
@@ -170,6 +170,23 @@ impl Shr for Value {
     }
 }
 
+impl PartialEq for Value {
+    fn eq(&self, other: &Self) -> bool {
+        match (self, other) {
+            (Value::Null, Value::Null) => true,
+            (Value::Integer(left), Value::Integer(right)) => left == right,
+            (Value::Float(left), Value::Float(right)) => left == right,
+            (Value::Integer(left), Value::Float(right)) => *left as f64 == *right,
+            (Value::Float(left), Value::Integer(right)) => *left == *right as f64,
+            (Value::Boolean(left), Value::Boolean(right)) => left == right,
+            (Value::String(left), Value::String(right)) => left == right,
+            (Value::Array(left), Value::Array(right)) => left == right,
+            (Value::Map(left), Value::Map(right)) => left == right,
+            (_, _) => false,
+        }
+    }
+}
+
 impl PartialOrd for Value {
     fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
         match (self, other) {
-- 
2.43.0


From 9066b0836347b6b2c832a5c9e93490d6a3741aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:46 +0000
Subject: [PATCH 04/28] fix: the text of a map depended on the hash seed of the
 process

---
 lib/src/value.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/lib/src/value.rs b/lib/src/value.rs
index baf747a..b66f5ef 100644
--- a/lib/src/value.rs
+++ b/lib/src/value.rs
@@ -1,4 +1,6 @@
+use std::collections::BTreeMap;
 use std::collections::HashMap;
+use std::fmt::Debug;
 use std::fmt::Display;
 use std::fmt::Formatter;
 use std::fmt::Result;
@@ -13,7 +15,7 @@ use std::ops::Shl;
 use std::ops::Shr;
 use std::ops::Sub;
 
-#[derive(Debug, Clone)]
+#[derive(Clone)]
 pub enum Value {
     Null,
     Integer(i64),
@@ -33,11 +35,30 @@ impl Display for Value {
             Value::Boolean(boolean) => write!(f, "{}", boolean),
             Value::String(string) => write!(f, "{}", string),
             Value::Array(items) => write!(f, "{:?}", items),
-            Value::Map(pairs) => write!(f, "{:?}", pairs),
+            Value::Map(pairs) => write!(f, "{:?}", sorted(pairs)),
         }
     }
 }
 
+impl Debug for Value {
+    fn fmt(&self, f: &mut Formatter<'_>) -> Result {
+        match self {
+            Value::Null => write!(f, "Null"),
+            Value::Integer(integer) => f.debug_tuple("Integer").field(integer).finish(),
+            Value::Float(float) => f.debug_tuple("Float").field(float).finish(),
+            Value::Boolean(boolean) => f.debug_tuple("Boolean").field(boolean).finish(),
+            Value::String(string) => f.debug_tuple("String").field(string).finish(),
+            Value::Array(items) => f.debug_tuple("Array").field(items).finish(),
+            Value::Map(pairs) => f.debug_tuple("Map").field(&sorted(pairs)).finish(),
+        }
+    }
+}
+
+/// The entries in the order of their keys, so that the text of a map is a function of its content.
+fn sorted(pairs: &HashMap<String, Value>) -> BTreeMap<&String, &Value> {
+    pairs.iter().collect()
+}
+
 impl Add for Value {
     type Output = std::result::Result<Self, String>;
     fn add(self, other: Self) -> Self::Output {
-- 
2.43.0


From 909d18e5c1d935f3f0f776b7ae0c9e5dd1c9c470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:46 +0000
Subject: [PATCH 05/28] fix: negative numbers of a JSON response body became
 null

---
 lib/src/syntax.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/src/syntax.rs b/lib/src/syntax.rs
index 9356670..28836ce 100644
--- a/lib/src/syntax.rs
+++ b/lib/src/syntax.rs
@@ -1,3 +1,4 @@
+use crate::Kind;
 use crate::Token;
 use crate::Value;
 use std::collections::HashMap;
@@ -44,6 +45,11 @@ impl Expr {
                     .map(|(k, v)| (k.eval().to_string(), v.eval()))
                     .collect::<HashMap<String, Value>>(),
             ),
+            Expr::Unary(Token { kind: Kind::Sub, .. }, right) => match right.eval() {
+                Value::Integer(integer) => integer.checked_neg().map_or(Value::Null, Value::Integer),
+                Value::Float(float) => Value::Float(-float),
+                _ => Value::Null,
+            },
             _ => Value::Null,
         }
     }
-- 
2.43.0


From 6f4cbb1e2ae52134e332a7461b653cbfacb130b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:01 +0000
Subject: [PATCH 06/28] fix: deeply nested expressions and long operator chains
 overflowed the stack

---
 lib/src/parser.rs | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/lib/src/parser.rs b/lib/src/parser.rs
index 38944e7..f6d19c4 100644
--- a/lib/src/parser.rs
+++ b/lib/src/parser.rs
@@ -10,9 +10,16 @@ pub struct Source {
     pub tests: HashMap<String, Vec<Expr>>,
 }
 
+/// Bounds the nesting of an expression, which is also the recursion depth of its evaluation.
+const MAX_DEPTH: usize = 128;
+
 pub struct Parser {
     tokens: Vec<Token>,
     index: usize,
+    // number of expressions being parsed
+    depth: usize,
+    // height of the tallest expression parsed since the enclosing one began
+    height: usize,
 }
 
 impl Parser {
@@ -20,6 +27,8 @@ impl Parser {
         Parser {
             tokens: lexer::segment(text),
             index: usize::MIN,
+            depth: usize::MIN,
+            height: usize::MIN,
         }
     }
 
@@ -89,7 +98,27 @@ impl Parser {
         Ok(Source { exprs, requests, tests })
     }
 
-    fn parse_expr(&mut self, mut precedence: u8) -> Result<Expr, String> {
+    fn parse_expr(&mut self, precedence: u8) -> Result<Expr, String> {
+        self.depth += 1;
+        if self.depth > MAX_DEPTH {
+            return Err("expression nested too deep".to_string());
+        }
+        let outer = std::mem::take(&mut self.height);
+        let expr = self.parse_operand(precedence)?;
+        self.height = self.height.max(outer);
+        self.depth -= 1;
+        Ok(expr)
+    }
+
+    fn grow(&mut self) -> Result<(), String> {
+        self.height += 1;
+        if self.height > MAX_DEPTH {
+            return Err("expression nested too deep".to_string());
+        }
+        Ok(())
+    }
+
+    fn parse_operand(&mut self, mut precedence: u8) -> Result<Expr, String> {
         let mut left = match self.current_token().kind {
             Kind::Ident => self.parse_ident_expr(),
             Kind::Integer => self.parse_integer_literal()?,
@@ -107,6 +136,7 @@ impl Parser {
             Kind::Lb => self.parse_map_literal()?,
             _ => Err(format!("parse expr error: {}", self.current_token()))?,
         };
+        self.grow()?;
         while !self.peek_token_is(Kind::Semi) && precedence < self.peek_precedence() {
             left = match self.peek_token() {
                 Some(Token { kind: Kind::Add, .. })
@@ -144,6 +174,7 @@ impl Parser {
                 }
                 _ => break,
             };
+            self.grow()?;
         }
         Ok(left)
     }
-- 
2.43.0


From 65bcd181095ca94fe61992815a5c26bdd0975785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:41 +0000
Subject: [PATCH 07/28] fix: the interactive session never ended at the end of
 its input

---
 cmd/src/command.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/cmd/src/command.rs b/cmd/src/command.rs
index 3f67921..8b7405d 100644
--- a/cmd/src/command.rs
+++ b/cmd/src/command.rs
@@ -17,14 +17,18 @@ pub fn repl() {
     let mut lines = stdin().lock().lines();
     let mut context = Context::new();
     loop {
-        if let Some(Ok(text)) = lines.next() {
-            if text == "exit" {
-                break;
-            }
-            if text.trim().is_empty() {
-                continue;
+        match lines.next() {
+            Some(Ok(text)) => {
+                if text == "exit" {
+                    break;
+                }
+                if text.trim().is_empty() {
+                    continue;
+                }
+                context = eval(text, Some(context));
             }
-            context = eval(text, Some(context));
+            Some(Err(error)) if error.kind() == std::io::ErrorKind::InvalidData => continue,
+            _ => break,
         }
     }
 }
-- 
2.43.0


From 0e32217fd0583f67f36e227805335b1636c343b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:41 +0000
Subject: [PATCH 08/28] fix: the last token of a source file merged with the
 first of the next one

---
 cmd/src/command.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/src/command.rs b/cmd/src/command.rs
index 8b7405d..5d88b91 100644
--- a/cmd/src/command.rs
+++ b/cmd/src/command.rs
@@ -180,7 +180,8 @@ fn read(path: PathBuf, text: &mut String) -> std::io::Result<()> {
             read(entry, text)?;
         }
     } else if path.is_file() && path.extension() == Some(std::ffi::OsStr::new("fan")) {
-        text.push_str(&std::fs::read_to_string(path)?)
+        text.push_str(&std::fs::read_to_string(path)?);
+        text.push('\n');
     }
     Ok(())
 }
-- 
2.43.0


From 93f03d6f0f123211354dbe225caee29faac68f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:41 +0000
Subject: [PATCH 09/28] fix: iterations were lost when the number is no
 multiple of the threads, zero threads panicked

---
 cmd/src/command.rs | 2 +-
 cmd/src/main.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/src/command.rs b/cmd/src/command.rs
index 5d88b91..dca7b67 100644
--- a/cmd/src/command.rs
+++ b/cmd/src/command.rs
@@ -86,8 +86,8 @@ pub fn test(
                     let name = Arc::new(name);
                     let test = Arc::new(test);
                     let continuous = Arc::new(AtomicBool::new(true));
-                    let maximun = number / threads;
                     for thread in 0..threads {
+                        let maximun = number / threads + u32::from(thread < number % threads);
                         let sender = sender.to_owned();
                         let continuous = continuous.to_owned();
                         let name = name.to_owned();
diff --git a/cmd/src/main.rs b/cmd/src/main.rs
index 05b06c5..706fc65 100644
--- a/cmd/src/main.rs
+++ b/cmd/src/main.rs
@@ -23,7 +23,7 @@ enum Commands {
         #[command()]
         name: Option<String>,
         /// Threads
-        #[arg(short, long, default_value_t = 1)]
+        #[arg(short, long, default_value_t = 1, value_parser = clap::value_parser!(u32).range(1..))]
         threads: u32,
         /// Duration
         #[arg(short, long, value_parser = parse_duration)]
-- 
2.43.0


From f092e95d3cac48a61b50e571f57cc24c3f7d6994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:41 +0000
Subject: [PATCH 10/28] fix: a large duration in minutes or hours overflowed

---
 cmd/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/src/main.rs b/cmd/src/main.rs
index 706fc65..c04300f 100644
--- a/cmd/src/main.rs
+++ b/cmd/src/main.rs
@@ -79,8 +79,8 @@ fn parse_duration(s: &str) -> Result<Duration, String> {
     };
     let duration = match last {
         Some('s') => Duration::from_secs(value),
-        Some('m') => Duration::from_secs(value * 60),
-        Some('h') => Duration::from_secs(value * 3600),
+        Some('m') => Duration::from_secs(value.checked_mul(60).ok_or(format!("Number too large: {}", value))?),
+        Some('h') => Duration::from_secs(value.checked_mul(3600).ok_or(format!("Number too large: {}", value))?),
         Some(c) => return Err(format!("Unknown time unit: {}, supported units: s, m, h", c)),
         None => return Err("Time unit needed, for example 1s or 2m".to_string()),
     };
-- 
2.43.0


From 514b870b932c95bc751574342de9cbb4e583809b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:41 +0000
Subject: [PATCH 11/28] fix: the calls of an iteration that ends with an error
 were not reported

---
 cmd/src/command.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cmd/src/command.rs b/cmd/src/command.rs
index dca7b67..e0592f5 100644
--- a/cmd/src/command.rs
+++ b/cmd/src/command.rs
@@ -97,12 +97,9 @@ pub fn test(
                         handles.push(std::thread::spawn(move || {
                             let mut number = u32::default();
                             while continuous.load(Ordering::Relaxed) && number < maximun {
-                                match eval_block(test.as_ref(), &mut context) {
-                                    Ok(_) => {}
-                                    Err(error) => {
-                                        println!("{}", error);
-                                        break;
-                                    }
+                                let result = eval_block(test.as_ref(), &mut context);
+                                if let Err(ref error) = result {
+                                    println!("{}", error);
                                 }
                                 let records = context.records();
                                 records.iter().for_each(|record| println!("{}", record));
@@ -110,6 +107,9 @@ pub fn test(
                                     writer.write(&records, &name, thread, number)
                                 }
                                 stat.then(|| sender.send(records));
+                                if result.is_err() {
+                                    break;
+                                }
                                 number += 1;
                             }
                         }));
-- 
2.43.0


From 4f129d45ba133613408deac0b59f839312d095f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:41 +0000
Subject: [PATCH 12/28] fix: a run of all tests printed no statistics

---
 cmd/src/command.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/src/command.rs b/cmd/src/command.rs
index e0592f5..1441526 100644
--- a/cmd/src/command.rs
+++ b/cmd/src/command.rs
@@ -131,6 +131,7 @@ pub fn test(
             for (thread, (name, test)) in tests.into_iter().enumerate() {
                 let mut writer = writer(record.as_ref(), thread as u32);
                 let mut context = context.to_owned();
+                let sender = sender.to_owned();
                 handles.push(std::thread::spawn(move || {
                     match eval_block(test.as_ref(), &mut context) {
                         Ok(_) => {}
@@ -143,6 +144,7 @@ pub fn test(
                     if let Some(ref mut writer) = writer {
                         writer.write(&records, &name, thread as u32, u32::default())
                     }
+                    stat.then(|| sender.send(records));
                 }));
             }
         }
-- 
2.43.0


From aabbfbc149e47d36438b2f3de93c4b4bbf92c7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:41 +0000
Subject: [PATCH 13/28] fix: a short write to a record file lost the rest of
 the block

---
 lib/src/writer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/writer.rs b/lib/src/writer.rs
index f2b191b..2e150e2 100644
--- a/lib/src/writer.rs
+++ b/lib/src/writer.rs
@@ -64,7 +64,7 @@ pub struct Writer<W> {
 
 impl<W: Write> Writer<W> {
     pub fn new(mut w: W) -> Self {
-        let _ = w.write(&header());
+        let _ = w.write_all(&header());
         Writer { w }
     }
 
@@ -119,7 +119,7 @@ impl<W: Write> Writer<W> {
         encode_long(data.len() as i64, &mut buffer);
         buffer.extend_from_slice(&data);
         buffer.extend_from_slice(MARKER);
-        let _ = self.w.write(&buffer);
+        let _ = self.w.write_all(&buffer);
     }
 }
 
-- 
2.43.0


From 48f52b26a5345fd97581bf83684d8c5c3fc1e87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:41 +0000
Subject: [PATCH 14/28] fix: arrays in record files had no end, files with
 headers or assertions could not be read

---
 lib/src/writer.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/lib/src/writer.rs b/lib/src/writer.rs
index 2e150e2..273f214 100644
--- a/lib/src/writer.rs
+++ b/lib/src/writer.rs
@@ -87,24 +87,28 @@ impl<W: Write> Writer<W> {
             encode_bytes(record.request.method.as_ref(), &mut data);
             encode_bytes(record.request.url.to_string().as_bytes(), &mut data);
             encode_bytes(record.request.version.as_ref(), &mut data);
-            encode_long(record.request.headers.len() as i64, &mut data);
+            encode_count(record.request.headers.len(), &mut data);
             for header in record.request.headers.iter() {
                 encode_long(2, &mut data);
                 encode_bytes(header.name.as_bytes(), &mut data);
                 encode_bytes(header.value.as_bytes(), &mut data);
+                encode_long(0, &mut data);
             }
+            encode_long(0, &mut data);
             encode_bytes(record.request.body.as_bytes(), &mut data);
             encode_bytes(record.response.version.as_bytes(), &mut data);
             encode_long(record.response.status as i64, &mut data);
             encode_bytes(record.response.reason.as_bytes(), &mut data);
-            encode_long(record.response.headers.len() as i64, &mut data);
+            encode_count(record.response.headers.len(), &mut data);
             for header in record.response.headers.iter() {
                 encode_long(2, &mut data);
                 encode_bytes(header.name.as_bytes(), &mut data);
                 encode_bytes(header.value.as_bytes(), &mut data);
+                encode_long(0, &mut data);
             }
+            encode_long(0, &mut data);
             encode_bytes(record.response.body.as_bytes(), &mut data);
-            encode_long(record.asserts.len() as i64, &mut data);
+            encode_count(record.asserts.len(), &mut data);
             for assert in record.asserts.iter() {
                 encode_bytes(assert.expr.as_bytes(), &mut data);
                 encode_bytes(assert.left.as_bytes(), &mut data);
@@ -112,6 +116,7 @@ impl<W: Write> Writer<W> {
                 encode_bytes(assert.right.as_bytes(), &mut data);
                 encode_bool(assert.result, &mut data);
             }
+            encode_long(0, &mut data);
             encode_bytes(record.error.as_bytes(), &mut data);
         }
         let mut buffer = Vec::new();
@@ -146,6 +151,13 @@ fn encode_bytes<B: AsRef<[u8]> + ?Sized>(s: &B, buffer: &mut Vec<u8>) {
     buffer.extend_from_slice(bytes);
 }
 
+/// Begins the block of items of an array, an array ends with a zero.
+fn encode_count(count: usize, buffer: &mut Vec<u8>) {
+    if count > 0 {
+        encode_long(count as i64, buffer);
+    }
+}
+
 fn encode_long(i: i64, buffer: &mut Vec<u8>) {
     encode_variable(((i << 1) ^ (i >> 63)) as u64, buffer)
 }
-- 
2.43.0


From 451a78e8b30a927533f7a012f536ca497f1bcb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:41 +0000
Subject: [PATCH 15/28] fix: readers stop at the empty block an iteration
 without calls left in the record file

---
 lib/src/writer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/src/writer.rs b/lib/src/writer.rs
index 273f214..55daf69 100644
--- a/lib/src/writer.rs
+++ b/lib/src/writer.rs
@@ -69,6 +69,9 @@ impl<W: Write> Writer<W> {
     }
 
     pub fn write(&mut self, records: &[Record], name: &str, thread: u32, number: u32) {
+        if records.is_empty() {
+            return;
+        }
         let mut data = Vec::new();
         for (order, record) in records.iter().enumerate() {
             encode_bytes(name.as_bytes(), &mut data);
-- 
2.43.0


From e6cc7dafb6b46f6072ad2a7a5176cc9f620a68f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:00 +0000
Subject: [PATCH 16/28] fix: a request target was cut at :// inside it

---
 lib/src/http/url.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/http/url.rs b/lib/src/http/url.rs
index bba5999..3919aec 100644
--- a/lib/src/http/url.rs
+++ b/lib/src/http/url.rs
@@ -9,7 +9,7 @@ pub struct Url {
 
 impl std::convert::From<&str> for Url {
     fn from(str: &str) -> Self {
-        let mut splits = str.split("://");
+        let mut splits = str.splitn(2, "://");
         let scheme = Scheme::from(splits.next());
         let (host, port, path) = match splits.next() {
             Some(str) => {
-- 
2.43.0


From cab2022163315156cb1b5d24c84c4e10292b9779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:00 +0000
Subject: [PATCH 17/28] fix: a URL with an upper case HTTPS scheme was
 requested in plain text

---
 lib/src/http/url.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/http/url.rs b/lib/src/http/url.rs
index 3919aec..7a1b813 100644
--- a/lib/src/http/url.rs
+++ b/lib/src/http/url.rs
@@ -10,7 +10,7 @@ pub struct Url {
 impl std::convert::From<&str> for Url {
     fn from(str: &str) -> Self {
         let mut splits = str.splitn(2, "://");
-        let scheme = Scheme::from(splits.next());
+        let scheme = Scheme::from(splits.next().map(str::to_ascii_lowercase).as_deref());
         let (host, port, path) = match splits.next() {
             Some(str) => {
                 let (host, path) = if let Some(i) = str.find('/') {
-- 
2.43.0


From ebc56413d2d58ec76888b119a1e83a3abc4741f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:00 +0000
Subject: [PATCH 18/28] fix: the recorded URL lost its port

---
 lib/src/http/url.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/src/http/url.rs b/lib/src/http/url.rs
index 7a1b813..3bda536 100644
--- a/lib/src/http/url.rs
+++ b/lib/src/http/url.rs
@@ -60,7 +60,12 @@ impl Default for Url {
 
 impl std::fmt::Display for Url {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        write!(f, "{}://{}{}", self.scheme, self.host, self.path)
+        write!(f, "{}://{}", self.scheme, self.host)?;
+        match (&self.scheme, self.port) {
+            (Scheme::Http, 80) | (Scheme::Https, 443) => {}
+            (_, port) => write!(f, ":{}", port)?,
+        }
+        write!(f, "{}", self.path)
     }
 }
 
-- 
2.43.0


From 6ca9a39b9516e0000d69cd8d1e8602e4961618bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:00 +0000
Subject: [PATCH 19/28] fix: a reason phrase of several words was cut after the
 first

---
 lib/src/http/response.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/http/response.rs b/lib/src/http/response.rs
index 2e9224d..17931f4 100644
--- a/lib/src/http/response.rs
+++ b/lib/src/http/response.rs
@@ -34,7 +34,7 @@ impl Response {
         }
         let mut line = String::from_utf8(buf).unwrap_or_default();
         reader.read_line(&mut line).map_err(Error::ReadFailed)?;
-        let mut splits = line.split_whitespace();
+        let mut splits = line.trim().splitn(3, ' ');
         let version = parse::<String>(splits.next());
         let status = parse::<u16>(splits.next());
         let reason = parse::<String>(splits.next());
-- 
2.43.0


From aea6eaecf01e8c5e8ae2a7a7ab7a47474e7bc423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:00 +0000
Subject: [PATCH 20/28] fix: an interrupted first read failed the call

---
 lib/src/http/response.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/src/http/response.rs b/lib/src/http/response.rs
index 17931f4..42651da 100644
--- a/lib/src/http/response.rs
+++ b/lib/src/http/response.rs
@@ -28,7 +28,11 @@ impl Response {
     /// Converts a stream to an http response.
     pub fn from(mut reader: BufReader<Stream>, f: Option<impl FnMut()>) -> Result<Response, Error> {
         let mut buf = Vec::with_capacity(1);
-        reader.read(&mut buf).map_err(Error::ReadFailed)?;
+        while let Err(error) = reader.read(&mut buf) {
+            if error.kind() != std::io::ErrorKind::Interrupted {
+                return Err(Error::ReadFailed(error));
+            }
+        }
         if let Some(mut f) = f {
             f()
         }
-- 
2.43.0


From cc523b2ca07fd8c49889dbb6f63cc56c4937edb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:00 +0000
Subject: [PATCH 21/28] fix: form values were sent with the blanks around them

---
 lib/src/http/request.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/http/request.rs b/lib/src/http/request.rs
index f0cb496..071ef23 100644
--- a/lib/src/http/request.rs
+++ b/lib/src/http/request.rs
@@ -54,7 +54,7 @@ impl Request {
                     let mut serializer = form_urlencoded::Serializer::new(String::default());
                     for line in lines.by_ref() {
                         if let Some((name, value)) = line.trim().split_once(':') {
-                            serializer.append_pair(name, value);
+                            serializer.append_pair(name.trim(), value.trim());
                             body.push_str(line);
                         }
                     }
-- 
2.43.0


From 496611bcbf54f2f197d41e5e5caaad15eecd6617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:00 +0000
Subject: [PATCH 22/28] fix: the line breaks of a body were dropped

---
 lib/src/http/request.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/http/request.rs b/lib/src/http/request.rs
index 071ef23..8f4d956 100644
--- a/lib/src/http/request.rs
+++ b/lib/src/http/request.rs
@@ -79,7 +79,7 @@ impl Request {
                     }
                 }
                 _ => {
-                    body = String::from_iter(lines);
+                    body = lines.collect::<Vec<&str>>().join("\n");
                     if body.trim().is_empty() {
                         content = Content::Empty;
                     } else {
-- 
2.43.0


From 4a8c25dfc93452a65697db606024236ca1b2fe85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:00 +0000
Subject: [PATCH 23/28] fix: a multipart body was sent without announcing its
 boundary

---
 lib/src/http/header.rs  | 7 +++++++
 lib/src/http/request.rs | 8 +++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/lib/src/http/header.rs b/lib/src/http/header.rs
index d57bbf6..0c43d7f 100644
--- a/lib/src/http/header.rs
+++ b/lib/src/http/header.rs
@@ -16,6 +16,13 @@ impl Headers {
         self.inner.push(header)
     }
 
+    /// Announces the boundary of a multipart body in the content type.
+    pub fn boundary(&mut self, boundary: &str) {
+        if let Some(header) = self.inner.iter_mut().find(|h| h.name.eq_ignore_ascii_case("content-type")) {
+            header.value = format!("{}; boundary={}", header.value, boundary);
+        }
+    }
+
     pub fn iter(&self) -> Iter<'_, Header> {
         self.inner.iter()
     }
diff --git a/lib/src/http/request.rs b/lib/src/http/request.rs
index 8f4d956..0766f1b 100644
--- a/lib/src/http/request.rs
+++ b/lib/src/http/request.rs
@@ -74,7 +74,13 @@ impl Request {
                         }
                     }
                     match parts.prepare() {
-                        Ok(parts) => content = Content::Multipart(parts),
+                        Ok(parts) => {
+                            // a body without fields has no boundary
+                            if parts.content_len() != Some(0) {
+                                headers.boundary(parts.boundary());
+                            }
+                            content = Content::Multipart(parts)
+                        }
                         Err(_) => content = Content::Empty,
                     }
                 }
-- 
2.43.0


From 2427a089440e2e3f8ebe9eb95ba6dd867fd337dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:23 +0000
Subject: [PATCH 24/28] fix: assertions that are no comparison were dropped

---
 lib/src/evaluator.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/lib/src/evaluator.rs b/lib/src/evaluator.rs
index bd4c8a6..d5d5f39 100644
--- a/lib/src/evaluator.rs
+++ b/lib/src/evaluator.rs
@@ -189,7 +189,7 @@ fn eval_call_expr(name: &str, arguments: &[Expr], context: &mut Context) -> Resu
             let asserts = asserts
                 .iter()
                 .filter_map(|assert| match assert {
-                    Expr::Binary(token, left, right) => {
+                    Expr::Binary(token, left, right) if compares(token) => {
                         let expr = format!("{} {} {}", left, token, right);
                         let left = eval_expr(left, &mut local).unwrap_or(Value::Null);
                         let right = eval_expr(right, &mut local).unwrap_or(Value::Null);
@@ -210,7 +210,7 @@ fn eval_call_expr(name: &str, arguments: &[Expr], context: &mut Context) -> Resu
                             result,
                         })
                     }
-                    _ => None,
+                    expr => Some(truth(expr, &mut local)),
                 })
                 .collect::<Vec<Assert>>();
             context.push(Record {
@@ -234,6 +234,22 @@ fn eval_call_expr(name: &str, arguments: &[Expr], context: &mut Context) -> Resu
     }
 }
 
+fn compares(token: &Token) -> bool {
+    matches!(token.kind, Kind::Lt | Kind::Gt | Kind::Le | Kind::Ge | Kind::Eq | Kind::Ne)
+}
+
+/// An assertion that is no comparison holds when its value counts as true.
+fn truth(expr: &Expr, local: &mut Context) -> Assert {
+    let value = eval_expr(expr, local).unwrap_or(Value::Null);
+    Assert {
+        expr: expr.to_string(),
+        left: value.to_string(),
+        compare: String::new(),
+        right: String::new(),
+        result: !matches!(value, Value::Boolean(false) | Value::Null),
+    }
+}
+
 pub fn eval_block(exprs: &[Expr], context: &mut Context) -> Result<Value, String> {
     let mut result = Value::Null;
     for expr in exprs {
-- 
2.43.0


From e2723f0ece4a4ab3d0f5244e741c1ca26926f139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:18 +0000
Subject: [PATCH 25/28] fix: an interrupt during the start of a run killed it

---
 cmd/src/command.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/src/command.rs b/cmd/src/command.rs
index 1441526..b314f22 100644
--- a/cmd/src/command.rs
+++ b/cmd/src/command.rs
@@ -86,6 +86,8 @@ pub fn test(
                     let name = Arc::new(name);
                     let test = Arc::new(test);
                     let continuous = Arc::new(AtomicBool::new(true));
+                    // handle interrupt signal
+                    handle_interrupt(continuous.clone());
                     for thread in 0..threads {
                         let maximun = number / threads + u32::from(thread < number % threads);
                         let sender = sender.to_owned();
@@ -114,8 +116,6 @@ pub fn test(
                             }
                         }));
                     }
-                    // handle interrupt signal
-                    handle_interrupt(continuous.clone());
                     // completed after thread sleep duration
                     std::thread::spawn(move || {
                         std::thread::sleep(duration);
-- 
2.43.0


From a4b4febd38d1e311e7de38e3f228cc037fbe629d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:44 +0000
Subject: [PATCH 26/28] fix: a bracketed IPv6 address as host was cut at its
 first colon

---
 lib/src/http/url.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/src/http/url.rs b/lib/src/http/url.rs
index 3bda536..53ecc28 100644
--- a/lib/src/http/url.rs
+++ b/lib/src/http/url.rs
@@ -18,7 +18,10 @@ impl std::convert::From<&str> for Url {
                 } else {
                     (str, "/")
                 };
-                let (host, port) = if let Some(j) = host.find(':') {
+                let (host, port) = if let Some((host, port)) = host.strip_prefix('[').and_then(|host| host.split_once(']')) {
+                    // the colons inside the brackets belong to an IPv6 address
+                    (host, port.strip_prefix(':').and_then(|port| port.parse::<u16>().ok()))
+                } else if let Some(j) = host.find(':') {
                     (&host[..j], host[j + 1..].parse::<u16>().ok())
                 } else {
                     (host, None)
@@ -60,7 +63,11 @@ impl Default for Url {
 
 impl std::fmt::Display for Url {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        write!(f, "{}://{}", self.scheme, self.host)?;
+        if self.host.contains(':') {
+            write!(f, "{}://[{}]", self.scheme, self.host)?;
+        } else {
+            write!(f, "{}://{}", self.scheme, self.host)?;
+        }
         match (&self.scheme, self.port) {
             (Scheme::Http, 80) | (Scheme::Https, 443) => {}
             (_, port) => write!(f, ":{}", port)?,
-- 
2.43.0


From 6d2df4b24f5455da92a2562063aee898291a0b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:11 +0000
Subject: [PATCH 27/28] fix: values nested without bound overflowed the stack

A statement like let x = [x], repeated or in an iterated test, nests a value by
one level each time; copying, printing or dropping it recurses.
---
 lib/src/evaluator.rs |  4 ++--
 lib/src/native.rs    |  2 +-
 lib/src/value.rs     | 21 +++++++++++++++++++++
 3 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/lib/src/evaluator.rs b/lib/src/evaluator.rs
index d5d5f39..0e1b4dd 100644
--- a/lib/src/evaluator.rs
+++ b/lib/src/evaluator.rs
@@ -46,7 +46,7 @@ fn eval_string_literal(string: &String) -> Result<Value, String> {
 }
 
 fn eval_array_literal(items: &[Expr], context: &mut Context) -> Result<Value, String> {
-    Ok(Value::Array(eval_list(items, context)?))
+    Value::Array(eval_list(items, context)?).bounded()
 }
 
 fn eval_map_literal(pairs: &Vec<(Expr, Expr)>, context: &mut Context) -> Result<Value, String> {
@@ -56,7 +56,7 @@ fn eval_map_literal(pairs: &Vec<(Expr, Expr)>, context: &mut Context) -> Result<
         let value = eval_expr(value, context)?;
         map.insert(key.to_string(), value);
     }
-    Ok(Value::Map(map))
+    Value::Map(map).bounded()
 }
 
 fn eval_index_expr(value: &Expr, index: &Expr, context: &mut Context) -> Result<Value, String> {
diff --git a/lib/src/native.rs b/lib/src/native.rs
index 5570bd1..1503db1 100644
--- a/lib/src/native.rs
+++ b/lib/src/native.rs
@@ -66,7 +66,7 @@ pub fn append(mut values: Vec<Value>) -> Result<Value, String> {
             while let Some(value) = values.pop() {
                 array.push(value);
             }
-            Ok(Value::Array(array))
+            Value::Array(array).bounded()
         }
         None => Err("function length need a parameter".to_string()),
         _ => Err("first parameter must be a array".to_string()),
diff --git a/lib/src/value.rs b/lib/src/value.rs
index b66f5ef..78d1565 100644
--- a/lib/src/value.rs
+++ b/lib/src/value.rs
@@ -26,6 +26,27 @@ pub enum Value {
     Map(HashMap<String, Value>),
 }
 
+/// Bounds the nesting of a value, which is also the recursion depth of copying, comparing, printing and dropping it.
+const MAX_DEPTH: usize = 512;
+
+impl Value {
+    /// Fails when the collection is nested too deep.
+    pub fn bounded(self) -> std::result::Result<Self, String> {
+        match self.exceeds(MAX_DEPTH) {
+            true => Err("value nested too deep".to_string()),
+            false => Ok(self),
+        }
+    }
+
+    fn exceeds(&self, depth: usize) -> bool {
+        match self {
+            Value::Array(items) => depth == 0 || items.iter().any(|item| item.exceeds(depth - 1)),
+            Value::Map(pairs) => depth == 0 || pairs.values().any(|value| value.exceeds(depth - 1)),
+            _ => false,
+        }
+    }
+}
+
 impl Display for Value {
     fn fmt(&self, f: &mut Formatter<'_>) -> Result {
         match self {
-- 
2.43.0


From e3109e417686ee989d218b534bde3bbc486eb03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:05 +0000
Subject: [PATCH 28/28] fix: the files of a multipart body were sent in reverse
 order

---
 lib/src/http/request.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/src/http/request.rs b/lib/src/http/request.rs
index 0766f1b..f8cb04f 100644
--- a/lib/src/http/request.rs
+++ b/lib/src/http/request.rs
@@ -62,17 +62,22 @@ impl Request {
                 }
                 Some("multipart/form-data") => {
                     let mut parts = multipart::client::lazy::Multipart::new();
+                    let mut files = Vec::new();
                     for line in lines.by_ref() {
                         if let Some((name, value)) = line.trim().split_once(':') {
                             let (name, value) = (name.trim(), value.trim());
                             if value.starts_with('@') {
-                                parts.add_file(name, Path::new(&value[1..value.len()]));
+                                files.push((name, Path::new(&value[1..value.len()])));
                             } else {
                                 parts.add_text(name, value);
                             }
                             body.push_str(line);
                         }
                     }
+                    // the file that was added last is sent first
+                    for (name, path) in files.into_iter().rev() {
+                        parts.add_file(name, path);
+                    }
                     match parts.prepare() {
                         Ok(parts) => {
                             // a body without fields has no boundary
-- 
2.43.0

