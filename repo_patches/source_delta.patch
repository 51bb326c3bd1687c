From 2f8b1a94f1b4a05195b8432b00de18a3958760e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 01/26] fix: keep macro call nodes alive while their expansion
 is running

A reference into the invocation list was held across pushes to that list,
so a reallocation left it dangling.
---
 crates/seam/src/parse/expander.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 15bdf86..fa58808 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -91,7 +91,7 @@ pub struct Expander<'a> {
     includes: BTreeSet<PathBuf>,
     subparsers: RefCell<Vec<Parser>>,
     subcontexts: RefCell<Vec<Self>>,
-    invocations: RefCell<Vec<ParseNode<'a>>>,
+    invocations: RefCell<Vec<Rc<ParseNode<'a>>>>,
     definitions: Scope<'a>,
 }
 
@@ -160,12 +160,10 @@ impl<'a> Expander<'a> {
         unsafe { (*contexts).last_mut() }
     }
 
-    fn register_invocation(&self, node: ParseNode<'a>) -> &ParseNode<'a> {
-        let invocations = self.invocations.as_ptr();
-        unsafe {
-            (*invocations).push(node);
-            (*invocations).last().unwrap()
-        }
+    fn register_invocation(&self, node: ParseNode<'a>) -> Rc<ParseNode<'a>> {
+        let node = Rc::new(node);
+        self.invocations.borrow_mut().push(Rc::clone(&node));
+        node
     }
 
     /// Update variable (macro) for this scope.
@@ -1818,7 +1816,7 @@ impl<'a> Expander<'a> {
                                 leading.set_leading_whitespace(String::from(""));
                             }
                         }
-                        return self.expand_invocation(name, node, params.into_boxed_slice());
+                        return self.expand_invocation(name, &node, params.into_boxed_slice());
                     }
                 }
                 // Otherwise, if not a macro, just expand child nodes incase they are macros.
-- 
2.43.0


From e97029c74d48d2d859b6c79accf93a8da836ae2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:54 +0000
Subject: [PATCH 02/26] fix: let included sources outlive the context that
 included them

Parsers of files included inside a macro body, %for, %match or %namespace
were dropped with that subcontext while nodes still referred to them.
---
 crates/seam/src/parse/expander.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index fa58808..9bb8c9a 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -89,7 +89,9 @@ pub struct Expander<'a> {
     parser: Parser,
     /// Include directories, in order of search.
     includes: BTreeSet<PathBuf>,
-    subparsers: RefCell<Vec<Parser>>,
+    /// Parsers of included files, shared by every (sub)context so that the
+    /// nodes they produced may outlive the context that included them.
+    subparsers: Rc<RefCell<Vec<Box<Parser>>>>,
     subcontexts: RefCell<Vec<Self>>,
     invocations: RefCell<Vec<Rc<ParseNode<'a>>>>,
     definitions: Scope<'a>,
@@ -100,7 +102,7 @@ impl<'a> Expander<'a> {
         Self {
             parser,
             includes: BTreeSet::from([PathBuf::from(".")]),
-            subparsers: RefCell::new(Vec::new()),
+            subparsers: Rc::new(RefCell::new(Vec::new())),
             subcontexts: RefCell::new(Vec::new()),
             invocations: RefCell::new(Vec::new()),
             definitions: RefCell::new(HashMap::new()),
@@ -127,7 +129,7 @@ impl<'a> Expander<'a> {
     fn register_parser(&self, parser: Parser) -> &'a Parser {
         {
             let mut parsers = self.subparsers.borrow_mut();
-            parsers.push(parser);
+            parsers.push(Box::new(parser));
         }
         self.latest_parser().unwrap()
     }
@@ -135,7 +137,7 @@ impl<'a> Expander<'a> {
     /// Get the latest subparser added.
     fn latest_parser(&self) -> Option<&'a Parser> {
         let p = self.subparsers.as_ptr();
-        unsafe { (*p).last() }
+        unsafe { (*p).last().map(|parser| &**parser) }
     }
 
     /// Create and register a subcontext built from the current context.
-- 
2.43.0


From 2258ce7a54985d208060ed928f40ce77fe58270a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:05 +0000
Subject: [PATCH 03/26] fix: keep the order of &&rest keyword arguments and of
 keyword errors

They came out in hash order, which differs from run to run.
---
 crates/seam/src/parse/expander.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 9bb8c9a..86ce935 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -10,6 +10,7 @@ use std::{
     rc::Rc,
     collections::{
         HashMap,
+        BTreeMap,
         BTreeSet,
     },
 };
@@ -256,8 +257,9 @@ impl<'a> Expander<'a> {
         let mut rest_kw_node = None;
         let mut rhs_index: usize = 0;
         let mut expected: usize = 0;
-        let mut rhs_named = HashMap::new(); // Contains keyword -> attribute node.
-        let mut lhs_named = HashMap::new(); // Contains keyword -> attr. value node (defaults).
+        // Ordered maps, so error messages do not depend on hashing.
+        let mut rhs_named = BTreeMap::new(); // Contains keyword -> attribute node.
+        let mut lhs_named = BTreeMap::new(); // Contains keyword -> attr. value node (defaults).
         // We loop this way (not a for loop) so we can control
         // when exactly we advance to the next LHS node, potentially
         // doing multiple iterations on the same node.
@@ -385,12 +387,13 @@ impl<'a> Expander<'a> {
         if let Some(rest_kw_node) = rest_kw_node {
             let rest_kw_symbol = rest_kw_node.symbol().unwrap();
             let rest_kw_name = &rest_kw_symbol.value[2..];
-            // Collect the named arguments.
-            let attrs: Vec<String> = rhs_named.keys().cloned().collect();
-            let mut nodes = Vec::with_capacity(attrs.len());
-            for attr in attrs {
-                let named = rhs_named.remove(&attr).unwrap();
-                nodes.push(named.clone());
+            // Collect the named arguments, in the order they were given.
+            let mut nodes = Vec::with_capacity(rhs_named.len());
+            for node1 in nodes1.iter() {
+                let Some((keyword, _)) = node1.attribute() else { continue };
+                if let Some(named) = rhs_named.remove(keyword) {
+                    nodes.push(named.clone());
+                }
             }
             // Insert the &&-variable.
             self.insert_variable(rest_kw_name.to_string(), Rc::new(Macro {
-- 
2.43.0


From 69d7762daf98a5d3abeba5a8fc86fc388d1b46d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:34 +0000
Subject: [PATCH 04/26] fix: stop at end of file after a trailing backslash

Consuming the character escaped by a final backslash ran past the end of
the source and never returned.
---
 crates/seam/src/parse/lexer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/seam/src/parse/lexer.rs b/crates/seam/src/parse/lexer.rs
index 8e5f40e..06fc2db 100644
--- a/crates/seam/src/parse/lexer.rs
+++ b/crates/seam/src/parse/lexer.rs
@@ -139,15 +139,15 @@ impl<'a> Lexer {
     /// Advance the offset to the next unicode character.
     /// Returns `None` if file is at EOF.
     fn consume_char(&self) -> Option<char> {
-        let c = self.peek_char();
+        let c = self.peek_char()?;
         self.increment_byte_offsets(1);
         while !self.source.is_char_boundary(self.byte_offset.get()) {
             self.increment_byte_offsets(1);
         }
-        if c == Some('\n') {
+        if c == '\n' {
             self.next_line();
         }
-        return c;
+        return Some(c);
     }
 
     fn consume_lparen(&'a self, whitespace: &'a str) -> Token<'a> {
-- 
2.43.0


From bf6c155f735900276be6dd91ba30fbf84ba7bddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:36 +0000
Subject: [PATCH 05/26] fix: count each newline inside a token once

Newlines in strings and escaped newlines in symbols advanced the line
number twice, so every later error named the wrong line.
---
 crates/seam/src/parse/lexer.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/crates/seam/src/parse/lexer.rs b/crates/seam/src/parse/lexer.rs
index 06fc2db..58c1c68 100644
--- a/crates/seam/src/parse/lexer.rs
+++ b/crates/seam/src/parse/lexer.rs
@@ -170,9 +170,11 @@ impl<'a> Lexer {
 
     fn consume_number(&'a self, whitespace: &'a str) -> Token<'a> {
         let start = self.byte_offset.get();
+        let line_no = self.line.get();
         let line_offset = self.byte_offset_line.get();
         let value: &str = self.consume_identifier_string();
-        let site: Site = self.site(start, line_offset);
+        let mut site: Site = self.site(start, line_offset);
+        site.line = line_no; // Escaped newlines may follow.
         Token::new(tokens::Kind::Number, value, whitespace, site)
     }
 
@@ -186,10 +188,7 @@ impl<'a> Lexer {
             // Symbols can contain escaped characters.
             if c == '\\' {
                 let   _ = self.consume_char(); // `\`.
-                let esc = self.consume_char(); // escaped char.
-                if esc == Some('\n') {
-                    self.next_line(); // NOTE: Disallow this?
-                }
+                let   _ = self.consume_char(); // escaped char. NOTE: Disallow newlines?
                 continue;
             }
             // Characters that fit in a symbol or number are valid idents.
@@ -207,9 +206,11 @@ impl<'a> Lexer {
     /// Consume a symbol/identifier token.
     fn consume_symbol(&'a self, whitespace: &'a str) -> Token<'a> {
         let start = self.byte_offset.get();
+        let line_no = self.line.get();
         let line_offset = self.byte_offset_line.get();
         let value: &str = self.consume_identifier_string();
-        let site: Site = self.site(start, line_offset);
+        let mut site: Site = self.site(start, line_offset);
+        site.line = line_no; // Escaped newlines may follow.
         Token::new(tokens::Kind::Symbol, value, whitespace, site)
     }
 
@@ -233,7 +234,6 @@ impl<'a> Lexer {
                         String::from("Unclosed triple-quoted string."),
                         site));
                 };
-                if next_char == '\n' { self.next_line(); }
                 if self.starts_with(r#"""""#) && !reading_escape {
                     break;  // End-of-string.
                 }
@@ -264,7 +264,6 @@ impl<'a> Lexer {
                         String::from("Unclosed string quote (`\"')."),
                         site));
                 };
-                if next_char == '\n' { self.next_line(); }
                 if next_char == '"' && !reading_escape {
                     break;  // End-of-string.
                 }
@@ -290,9 +289,11 @@ impl<'a> Lexer {
     fn consume_keyword(&'a self, whitespace: &'a str) -> Token<'a> {
         assert_eq!(':', self.consume_char().expect("consumed token at eof"));
         let start = self.byte_offset.get();  // Leave colon out of token value.
+        let line_no = self.line.get();
         let start_from_line = self.byte_offset_line.get();
         let value: &str = self.consume_identifier_string();
-        let site: Site = self.site(start - 1, start_from_line  - 1);
+        let mut site: Site = self.site(start - 1, start_from_line  - 1);
+        site.line = line_no; // Escaped newlines may follow.
         Token::new(tokens::Kind::Keyword, value, whitespace, site)
     }
 
-- 
2.43.0


From 364aa6fd8eee9cd26caacd8488cc78693fd8385b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:02 +0000
Subject: [PATCH 06/26] fix: search include directories in the order they are
 given

A sorted set searched them alphabetically (and absolute ones before the
current directory).
---
 crates/seam/src/bin.rs            |  5 ++---
 crates/seam/src/parse/expander.rs | 10 ++++++----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/crates/seam/src/bin.rs b/crates/seam/src/bin.rs
index 0e7db87..f0af211 100644
--- a/crates/seam/src/bin.rs
+++ b/crates/seam/src/bin.rs
@@ -1,7 +1,6 @@
 use seam;
 use seam::assemble::MarkupFormatter;
 
-use std::collections::BTreeSet;
 use std::{io, env};
 use std::path::PathBuf;
 use std::error::Error;
@@ -24,7 +23,7 @@ fn main() -> Result<(), Box<dyn Error>> {
     // Command line flags and options.
     let mut files = Vec::new();
     let mut target = String::from("");
-    let mut include_dirs: BTreeSet<PathBuf> = Default::default();
+    let mut include_dirs: Vec<PathBuf> = Vec::new();
     let mut from_stdin = false;
     let mut is_doc = true;
 
@@ -51,7 +50,7 @@ fn main() -> Result<(), Box<dyn Error>> {
                     [b'I', ..] => {
                         let dir = &arg.as_str()[2..];
                         let dir = PathBuf::from(dir);
-                        include_dirs.insert(dir);
+                        include_dirs.push(dir);
                     },
                     [] => {
                         from_stdin = true;
diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 86ce935..5f1468f 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -11,7 +11,6 @@ use std::{
     collections::{
         HashMap,
         BTreeMap,
-        BTreeSet,
     },
 };
 
@@ -89,7 +88,7 @@ pub type Scope<'a> = RefCell<HashMap<String, Rc<Macro<'a>>>>; // Can you believe
 pub struct Expander<'a> {
     parser: Parser,
     /// Include directories, in order of search.
-    includes: BTreeSet<PathBuf>,
+    includes: Vec<PathBuf>,
     /// Parsers of included files, shared by every (sub)context so that the
     /// nodes they produced may outlive the context that included them.
     subparsers: Rc<RefCell<Vec<Box<Parser>>>>,
@@ -102,7 +101,7 @@ impl<'a> Expander<'a> {
     pub fn new(parser: Parser) -> Self {
         Self {
             parser,
-            includes: BTreeSet::from([PathBuf::from(".")]),
+            includes: vec![PathBuf::from(".")],
             subparsers: Rc::new(RefCell::new(Vec::new())),
             subcontexts: RefCell::new(Vec::new()),
             invocations: RefCell::new(Vec::new()),
@@ -122,7 +121,10 @@ impl<'a> Expander<'a> {
         where T::Item: Into<PathBuf>
     {
         for dir in dirs {
-            self.includes.insert(dir.into());
+            let dir = dir.into();
+            if !self.includes.contains(&dir) {
+                self.includes.push(dir);
+            }
         }
     }
 
-- 
2.43.0


From 539b6991aab2bc9a4bebe2b9c86c2a8b50e6ac81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 07/26] fix: only treat arguments that start with two dashes as
 long options

`-Isome--dir' was rejected as an unknown argument `--dir'.
---
 crates/seam/src/bin.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/seam/src/bin.rs b/crates/seam/src/bin.rs
index f0af211..6ceb017 100644
--- a/crates/seam/src/bin.rs
+++ b/crates/seam/src/bin.rs
@@ -29,7 +29,7 @@ fn main() -> Result<(), Box<dyn Error>> {
 
     for arg in args {
         if arg.chars().nth(0) == Some('-') {
-            if let Some(opt) = arg.split("--").nth(1) {
+            if let Some(opt) = arg.strip_prefix("--") {
                 if SUPPORTED_TARGETS.contains(&opt) {
                     target = opt.to_owned();
                     continue;
-- 
2.43.0


From 84b5917cde663da5e6555d4e6c1bfbc2600a3497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:18 +0000
Subject: [PATCH 08/26] fix: do not panic when %glob meets a path it cannot
 stat

Paths that vanished (or dangling links) are skipped; any other failure is
reported as an error at the pattern.
---
 crates/seam/src/parse/expander.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 5f1468f..74eb934 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -1281,7 +1281,15 @@ impl<'a> Expander<'a> {
                     args.number.1.site.to_owned(),
                 )),
             };
-            let meta = std::fs::metadata(&path).unwrap();
+            let meta = match std::fs::metadata(&path) {
+                Ok(meta) => meta,
+                // Removed since it was listed, or a dangling link.
+                Err(err) if err.kind() == std::io::ErrorKind::NotFound => continue,
+                Err(err) => return Err(ExpansionError(
+                    format!("glob failed: `{}': {}", path.display(), err),
+                    args.number.1.site.to_owned(),
+                )),
+            };
             match path_types {
                 PathTypes::File if !meta.is_file() => continue,
                 PathTypes::Dir  if !meta.is_dir()  => continue,
-- 
2.43.0


From 28aaff68b4ab4237be8a937563fa065cf21348a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:22 +0000
Subject: [PATCH 09/26] fix: do not panic in %log when standard error cannot be
 written

---
 crates/seam/src/parse/expander.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 74eb934..ee18abc 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -3,6 +3,7 @@ use super::tokens::Site;
 
 use std::{
     fmt,
+    io::{self, Write},
     cell::RefCell,
     path::PathBuf,
     ffi::OsString,
@@ -1005,7 +1006,8 @@ impl<'a> Expander<'a> {
             }
         }
 
-        eprintln!("{} {} {}: {}", "[#]".bold(), "log".bold().yellow(),
+        // Logging is best-effort: an unwritable `STDERR' is not an error.
+        let _ = writeln!(io::stderr(), "{} {} {}: {}", "[#]".bold(), "log".bold().yellow(),
             node.site(), words.join(" "));
         Ok(Box::new([]))
     }
-- 
2.43.0


From 6ffc4bdcba71147fb0b227355bc0f2fb70bf1404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 10/26] fix: report invalid date formats and huge timezone
 offsets as errors

Both made the process panic.
---
 crates/seam/src/parse/expander.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index ee18abc..9e7e40f 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -890,7 +890,10 @@ impl<'a> Expander<'a> {
         }?;
         let timezone_offset: i32 = match args.timezone {
             Some(ref offset) => match offset.value.parse::<fixed::types::I32F32>() {
-                Ok(offset) => (offset * 60 * 60).round().to_num(),
+                // Offsets that overflow are as invalid as other excessive ones.
+                Ok(offset) => offset.checked_mul_int(60 * 60)
+                    .and_then(|offset| offset.checked_round())
+                    .map_or(i32::MAX, |offset| offset.to_num()),
                 Err(_) => return Err(ExpansionError::new(
                     "Invalid (decimal) timezone offset in hours.",
                     &offset.site,
@@ -921,7 +924,10 @@ impl<'a> Expander<'a> {
             ));
         };
         let time = time.with_timezone(&timezone);
-        let formatted = time.format(&date_format).to_string();
+        let mut formatted = String::new();
+        if fmt::Write::write_fmt(&mut formatted, format_args!("{}", time.format(&date_format))).is_err() {
+            return Err(ExpansionError::new("Invalid date format.", &args.number.1.site));
+        }
         let date_string_node = ParseNode::String(Node {
             value: formatted,
             site: node.site().clone(),
@@ -943,7 +949,10 @@ impl<'a> Expander<'a> {
 
         let timezone_offset: i32 = match args.timezone {
             Some(ref offset) => match offset.value.parse::<fixed::types::I32F32>() {
-                Ok(offset) => (offset * 60 * 60).round().to_num(),
+                // Offsets that overflow are as invalid as other excessive ones.
+                Ok(offset) => offset.checked_mul_int(60 * 60)
+                    .and_then(|offset| offset.checked_round())
+                    .map_or(i32::MAX, |offset| offset.to_num()),
                 Err(_) => return Err(ExpansionError::new(
                     "Invalid (decimal) timezone offset in hours.",
                     &offset.site,
-- 
2.43.0


From e813072ea67876d8af67ba2830bdce8ede8c93f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:35 +0000
Subject: [PATCH 11/26] fix: date explicit times with the local offset in force
 at that time

%date and %timestamp applied the offset local time has right now, so the
result for a given time changed with the season it was built in.
---
 crates/seam/src/parse/expander.rs | 47 +++++++++++++++++++------------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 9e7e40f..2481d51 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -888,18 +888,18 @@ impl<'a> Expander<'a> {
             optional(2): number,
             optional("timezone"): number,
         }?;
-        let timezone_offset: i32 = match args.timezone {
+        let timezone_offset: Option<i32> = match args.timezone {
             Some(ref offset) => match offset.value.parse::<fixed::types::I32F32>() {
                 // Offsets that overflow are as invalid as other excessive ones.
-                Ok(offset) => offset.checked_mul_int(60 * 60)
+                Ok(offset) => Some(offset.checked_mul_int(60 * 60)
                     .and_then(|offset| offset.checked_round())
-                    .map_or(i32::MAX, |offset| offset.to_num()),
+                    .map_or(i32::MAX, |offset| offset.to_num())),
                 Err(_) => return Err(ExpansionError::new(
                     "Invalid (decimal) timezone offset in hours.",
                     &offset.site,
                 )),
             },
-            None => chrono::Local::now().offset().local_minus_utc(),
+            None => None,
         };
         let date_format = args.number.1.value;
         let time = if let Some(time) = args.number.2 {
@@ -917,6 +917,9 @@ impl<'a> Expander<'a> {
             chrono::Utc::now()
         };
 
+        // Default to the local offset in force at that time.
+        let timezone_offset = timezone_offset.unwrap_or_else(||
+            chrono::Local.offset_from_utc_datetime(&time.naive_utc()).local_minus_utc());
         let Some(timezone) = chrono::FixedOffset::east_opt(timezone_offset) else {
             return Err(ExpansionError(
                 format!("Failed to compute UTC+(east) offset of {} seconds", timezone_offset),
@@ -947,25 +950,29 @@ impl<'a> Expander<'a> {
         let format = args.number.1.value;
         let date_string = args.number.2.value;
 
-        let timezone_offset: i32 = match args.timezone {
+        let timezone_offset: Option<i32> = match args.timezone {
             Some(ref offset) => match offset.value.parse::<fixed::types::I32F32>() {
                 // Offsets that overflow are as invalid as other excessive ones.
-                Ok(offset) => offset.checked_mul_int(60 * 60)
+                Ok(offset) => Some(offset.checked_mul_int(60 * 60)
                     .and_then(|offset| offset.checked_round())
-                    .map_or(i32::MAX, |offset| offset.to_num()),
+                    .map_or(i32::MAX, |offset| offset.to_num())),
                 Err(_) => return Err(ExpansionError::new(
                     "Invalid (decimal) timezone offset in hours.",
                     &offset.site,
                 )),
             },
-            None => chrono::Local::now().offset().local_minus_utc(),
+            None => None,
         };
 
-        let Some(timezone) = chrono::FixedOffset::east_opt(timezone_offset) else {
-            return Err(ExpansionError(
-                format!("Failed to compute UTC+(east) offset of {} seconds", timezone_offset),
-                args.timezone.map_or(node.owned_site(), |node| node.site),
-            ));
+        let timezone = match timezone_offset {
+            Some(offset) => match chrono::FixedOffset::east_opt(offset) {
+                Some(timezone) => Some(timezone),
+                None => return Err(ExpansionError(
+                    format!("Failed to compute UTC+(east) offset of {} seconds", offset),
+                    args.timezone.map_or(node.owned_site(), |node| node.site),
+                )),
+            },
+            None => None,
         };
 
         let timestamp = if let Ok(datetime) = chrono::DateTime::parse_from_str(&date_string, &format) {
@@ -980,15 +987,19 @@ impl<'a> Expander<'a> {
                     node.owned_site(),
                 )),
             };
-            let datetime = timezone.from_local_datetime(&datetime);
-            let datetime = match datetime.earliest() {
-                Some(local) => local,
+            let earliest = match timezone {
+                Some(timezone) => timezone.from_local_datetime(&datetime).earliest()
+                    .map(|datetime| datetime.timestamp()),
+                None => chrono::Local.from_local_datetime(&datetime).earliest()
+                    .map(|datetime| datetime.timestamp()),
+            };
+            match earliest {
+                Some(timestamp) => timestamp,
                 None => return Err(ExpansionError::new(
                     "Timezone: local time falls in a gap in local time.",
                     node.site(),
                 ))
-            };
-            datetime.timestamp()
+            }
         };
 
         Ok(Box::new([
-- 
2.43.0


From e170d50ff5f60f7a52f043b051f6d31cb7834cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:37 +0000
Subject: [PATCH 12/26] fix: report keywords whose value expands to nothing

The first node of an empty expansion was indexed, which panics.
---
 crates/seam/src/parse/expander.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 2481d51..4fe74b0 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -1872,6 +1872,12 @@ impl<'a> Expander<'a> {
             },
             ParseNode::Attribute { keyword, node, site, leading_whitespace } => {
                 let mut expanded_nodes = self.expand_node(*node)?;
+                if expanded_nodes.is_empty() {
+                    return Err(ExpansionError(
+                        format!("The value of keyword `:{}' expands to nothing.", keyword),
+                        site.to_owned(),
+                    ));
+                }
                 let new_node = Box::new(expanded_nodes[0].clone());
                 expanded_nodes[0] = ParseNode::Attribute {
                     keyword: keyword.clone(),
-- 
2.43.0


From 305fdb435b7a7e159962b788ef54ff795fa3d250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:39 +0000
Subject: [PATCH 13/26] fix: report CSS rules without a selector instead of
 panicking

---
 crates/seam/src/assemble/css.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/seam/src/assemble/css.rs b/crates/seam/src/assemble/css.rs
index 41aa1c7..b24d982 100644
--- a/crates/seam/src/assemble/css.rs
+++ b/crates/seam/src/assemble/css.rs
@@ -1,6 +1,7 @@
 //! Assembles an expanded tree into valid CSS.
 use super::{GenerationError, MarkupFormatter, Formatter};
 use crate::parse::parser::{ParseNode, ParseTree};
+use crate::parse::tokens::Site;
 
 use std::slice::Iter;
 
@@ -179,7 +180,7 @@ fn generate_special_selector<'a>(f: Formatter,
                 }
                 parsing_rules = true;
                 write!(f, "{}", leading_whitespace)?;
-                generate_css_rule(f, rule.into_iter())?;
+                generate_css_rule(f, arg.site(), rule.into_iter())?;
             },
             _ => {
                 unexpected_node(&arg, parsing_rules)?;
@@ -191,14 +192,13 @@ fn generate_special_selector<'a>(f: Formatter,
     Ok(())
 }
 
-fn generate_css_rule<'a>(f: Formatter, iter: Iter<'a, ParseNode<'a>>) -> Result<(), GenerationError<'a>> {
+fn generate_css_rule<'a>(f: Formatter, site: &Site<'a>, iter: Iter<'a, ParseNode<'a>>) -> Result<(), GenerationError<'a>> {
     let mut prop_i = 0; // Index of first property.
     // TODO: Selector functions such as nth-child(...), etc.
     // e.g. (ul li(:nth-child (+ 2n 1))) -> ul li:nth-child(2n + 1).
     let mut selectors = iter.clone()
         .take_while(|n| { prop_i += 1; n.atomic().is_some() })
-        .map(|n| n.atomic().unwrap()) // We've checked.
-        .peekable();
+        .map(|n| n.atomic().unwrap()); // We've checked.
 
     // Check we were actually provided with
     // some selectors.
@@ -208,7 +208,7 @@ fn generate_css_rule<'a>(f: Formatter, iter: Iter<'a, ParseNode<'a>>) -> Result<
         return Err(GenerationError::new("CSS",
             "CSS selector(s) missing. \
              Expected a symbol/identifier node, none was found!",
-             &selectors.peek().unwrap().site));
+             site));
     };
 
     // Handle special @-rule selectors.
@@ -257,7 +257,7 @@ impl<'a> MarkupFormatter for CSSFormatter<'a> {
             match node {
                 ParseNode::List { nodes: list, leading_whitespace, .. } => {
                     write!(f, "{}", leading_whitespace)?;
-                    generate_css_rule(f, list.into_iter())?;
+                    generate_css_rule(f, node.site(), list.into_iter())?;
                 },
                 ParseNode::Attribute { site, .. }  => {
                     return Err(GenerationError::new("CSS",
-- 
2.43.0


From de2a6c8e3a9e61f32aa32cfb8a12004042b63ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 14/26] fix: report empty HTML and XML tag names instead of
 panicking

---
 crates/seam/src/assemble/html.rs | 5 +++++
 crates/seam/src/assemble/xml.rs  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/crates/seam/src/assemble/html.rs b/crates/seam/src/assemble/html.rs
index ee67a97..9cb7068 100644
--- a/crates/seam/src/assemble/html.rs
+++ b/crates/seam/src/assemble/html.rs
@@ -57,6 +57,11 @@ impl<'a> HTMLFormatter<'a> {
                 if let Some(head_node) = head {
                     if let ParseNode::Symbol(head_symbol) = head_node {
                         tag = &head_symbol.value;
+                        if tag.is_empty() {
+                            return Err(GenerationError::new("HTML",
+                                "HTML tags cannot have an empty name.",
+                                head_node.site()));
+                        }
                         write!(f, "<{}", tag)?;
                     } else {
                         // Error, tags can only have symbol values.
diff --git a/crates/seam/src/assemble/xml.rs b/crates/seam/src/assemble/xml.rs
index 4a3e76e..e8fa304 100644
--- a/crates/seam/src/assemble/xml.rs
+++ b/crates/seam/src/assemble/xml.rs
@@ -44,6 +44,11 @@ impl<'a> XMLFormatter<'a> {
                 if let Some(head_node) = head {
                     if let ParseNode::Symbol(head_symbol) = head_node {
                         tag = &head_symbol.value;
+                        if tag.is_empty() {
+                            return Err(GenerationError::new("XML",
+                                "XML tags cannot have an empty name.",
+                                head_node.site()));
+                        }
                         write!(f, "<{}", tag)?;
                     } else {
                         // Error, tags can only have symbol values.
-- 
2.43.0


From 130208ba15000c8ef3e569f62e872f1462dac895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:44 +0000
Subject: [PATCH 15/26] fix: report preformatted text from another source
 instead of panicking

---
 crates/seam/src/assemble/html.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/crates/seam/src/assemble/html.rs b/crates/seam/src/assemble/html.rs
index 9cb7068..e9c8576 100644
--- a/crates/seam/src/assemble/html.rs
+++ b/crates/seam/src/assemble/html.rs
@@ -160,7 +160,7 @@ impl<'a> HTMLFormatter<'a> {
                     "pre" => { // <pre> should preserve the raw text in the *source* file.
                         // Find beginning and end byte offset of first and last token inside
                         // of `(pre ...)` and simply clone the text between those offsets.
-                        let pre = raw_text(rest_with_preserved_whitespace.first(), end_token);
+                        let pre = raw_text(rest_with_preserved_whitespace.first(), end_token)?;
                         write!(f, "{}", pre)?;
                     },
                     "textarea" | "title" => { // Not eaw source-code, but plain-text.
@@ -320,20 +320,26 @@ impl<'a> MarkupFormatter for HTMLFormatter<'a> {
 /// Does not work well if the `start_node` is a result of a macro expansion,
 /// it must be a plain node.
 /// Especially, the first node cannot be the result of an `(%include)` macro,
-/// i.e. from a different file (we explicitly crash in this case).
+/// i.e. from a different file (we report an error in this case).
 /// This is a limitation from the fact that we do not know what kind of markup
 /// format we are targetting until *after* parsing and expanding.
-fn raw_text<'a>(start_node: Option<&ParseNode<'a>>, end_token: &tokens::Token<'a>) -> &'a str {
+fn raw_text<'a>(start_node: Option<&ParseNode<'a>>, end_token: &tokens::Token<'a>)
+-> Result<&'a str, GenerationError<'a>> {
     let Some(start_node) = start_node else {
-        return end_token.leading_whitespace;
+        return Ok(end_token.leading_whitespace);
     };
+    let error = || GenerationError::new("HTML",
+        "Start of preformatted text tag must belong to the same source location.",
+        start_node.site());
     if !std::ptr::eq(start_node.site().source_code, end_token.site.source_code) {
-        panic!("Start of preformatted text tag must belong to the same source location.");
+        return Err(error());
     }
     let source: &'a str = end_token.site.source_code;
     let first_node_offset =
           start_node.site().bytes_from_start
-        - start_node.leading_whitespace().len()
         + if start_node.leading_whitespace().starts_with(' ') { 1 } else { 0 };
-    &source[first_node_offset..end_token.site.bytes_from_start]
+    first_node_offset
+        .checked_sub(start_node.leading_whitespace().len())
+        .and_then(|offset| source.get(offset..end_token.site.bytes_from_start))
+        .ok_or_else(error)
 }
-- 
2.43.0


From dbbcacb97b838914b710b76a0fc7f2fbfd68669d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 16/26] fix: report YAML documents with compound keys instead
 of panicking

---
 crates/seam/src/parse/expander.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 4fe74b0..f39f431 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -1959,6 +1959,8 @@ fn expand_yaml<'a>(context: &Expander<'a>, text: &str, sep: &str, site: &Site<'a
         modes: Vec<Mode>,
         /// The site of the original YAML-parsing macro.
         site: Site<'a>,
+        /// Set when the document uses something we cannot represent.
+        error: Option<&'static str>,
     }
 
     impl<'a, 'b> EventSink<'a, 'b> {
@@ -1974,6 +1976,15 @@ fn expand_yaml<'a>(context: &Expander<'a>, text: &str, sep: &str, site: &Site<'a
 
     impl<'a, 'b> yaml::parser::EventReceiver for EventSink<'a, 'b> {
         fn on_event(&mut self, event: yaml::Event) {
+            if self.error.is_some() {
+                return;
+            }
+            if let yaml::Event::MappingStart(..) | yaml::Event::SequenceStart(..) = event {
+                if self.mode == Some(Mode::Map) && self.defining.is_none() {
+                    self.error = Some("maps and sequences cannot be used as keys");
+                    return;
+                }
+            }
             let the_dreaded_rparen = crate::parse::tokens::Token::new(
                 crate::parse::tokens::Kind::RParen,
                 ")", "", self.site.clone()
@@ -2128,6 +2139,7 @@ fn expand_yaml<'a>(context: &Expander<'a>, text: &str, sep: &str, site: &Site<'a
         nodes: Vec::new(),
         parent: Vec::new(),
         site: site.clone(),
+        error: None,
     };
 
     yaml::parser::Parser::new_from_str(text)
@@ -2137,6 +2149,10 @@ fn expand_yaml<'a>(context: &Expander<'a>, text: &str, sep: &str, site: &Site<'a
             site.to_owned()
         ))?;
 
+    if let Some(error) = sink.error {
+        return Err(ExpansionError(format!("Failed to parse YAML: {}", error), site.to_owned()));
+    }
+
     Ok(sink.nodes.into_boxed_slice())
 }
 
-- 
2.43.0


From b44a02adb1cf08c0524bcd5e7105625fbbba439e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:08 +0000
Subject: [PATCH 17/26] fix: report errors on very long lines instead of
 panicking

---
 crates/seam/src/assemble/mod.rs   | 9 +++++----
 crates/seam/src/parse/expander.rs | 9 +++++----
 crates/seam/src/parse/lexer.rs    | 9 +++++----
 crates/seam/src/parse/parser.rs   | 9 +++++----
 4 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/crates/seam/src/assemble/mod.rs b/crates/seam/src/assemble/mod.rs
index 03675e0..7353fbe 100644
--- a/crates/seam/src/assemble/mod.rs
+++ b/crates/seam/src/assemble/mod.rs
@@ -30,10 +30,11 @@ impl<'a> fmt::Display for GenerationError<'a> {
         let line_prefix = format!("  {} |", self.site.line);
         let line_view = self.site.line_slice();
         writeln!(f, "{} {}", line_prefix, line_view)?;
-        writeln!(f, "{:>prefix_offset$} {:~>text_offset$}{:^>length$}", "|", "", "",
-            prefix_offset=UnicodeWidthStr::width(line_prefix.as_str()),
-            text_offset=self.site.line_column() - 1,
-            length=self.site.width())?;
+        // Long lines exceed what fits in a formatting width.
+        writeln!(f, "{:>prefix_offset$} {}{}", "|",
+            "~".repeat(self.site.line_column() - 1),
+            "^".repeat(self.site.width()),
+            prefix_offset=UnicodeWidthStr::width(line_prefix.as_str()))?;
         write!(f, "{}: {}",
             format!("[{}] Error Generating {} ({}:{}:{})",
                 "**".red().bold(),
diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index f39f431..1f2b9ae 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -44,10 +44,11 @@ impl<'a> fmt::Display for ExpansionError<'a> {
         let line_prefix = format!("  {} |", site.line);
         let line_view = site.line_slice();
         writeln!(f, "{} {}", line_prefix, line_view)?;
-        writeln!(f, "{:>prefix_offset$} {:~>text_offset$}{:^>length$}", "|", "", "",
-            prefix_offset=UnicodeWidthStr::width(line_prefix.as_str()),
-            text_offset=site.line_column() - 1,
-            length=site.width())?;
+        // Long lines exceed what fits in a formatting width.
+        writeln!(f, "{:>prefix_offset$} {}{}", "|",
+            "~".repeat(site.line_column() - 1),
+            "^".repeat(site.width()),
+            prefix_offset=UnicodeWidthStr::width(line_prefix.as_str()))?;
         write!(f, "[{}] Error Expanding Macro {}: {}",
             "**".red().bold(), site, msg)
     }
diff --git a/crates/seam/src/parse/lexer.rs b/crates/seam/src/parse/lexer.rs
index 58c1c68..ed4599e 100644
--- a/crates/seam/src/parse/lexer.rs
+++ b/crates/seam/src/parse/lexer.rs
@@ -15,10 +15,11 @@ impl<'a> fmt::Display for LexError<'a> {
         let line_prefix = format!("  {} |", site.line);
         let line_view = site.line_slice();
         writeln!(f, "{} {}", line_prefix, line_view)?;
-        writeln!(f, "{:>prefix_offset$} {:~>text_offset$}{:^>length$}", "|", "", "",
-            prefix_offset=UnicodeWidthStr::width(line_prefix.as_str()),
-            text_offset=site.line_column() - 1,
-            length=site.width())?;
+        // Long lines exceed what fits in a formatting width.
+        writeln!(f, "{:>prefix_offset$} {}{}", "|",
+            "~".repeat(site.line_column() - 1),
+            "^".repeat(site.width()),
+            prefix_offset=UnicodeWidthStr::width(line_prefix.as_str()))?;
         write!(f, "[**] Lexical Error {}: {}", site, msg)
     }
 }
diff --git a/crates/seam/src/parse/parser.rs b/crates/seam/src/parse/parser.rs
index 00fcc16..e1bf0fd 100644
--- a/crates/seam/src/parse/parser.rs
+++ b/crates/seam/src/parse/parser.rs
@@ -390,10 +390,11 @@ impl<'a> fmt::Display for ParseError<'a> {
         let line_prefix = format!("  {} |", site.line);
         let line_view = site.line_slice();
         writeln!(f, "{} {}", line_prefix, line_view)?;
-        writeln!(f, "{:>prefix_offset$} {:~>text_offset$}{:^>length$}", "|", "", "",
-            prefix_offset=UnicodeWidthStr::width(line_prefix.as_str()),
-            text_offset=site.line_column() - 1,
-            length=site.width())?;
+        // Long lines exceed what fits in a formatting width.
+        writeln!(f, "{:>prefix_offset$} {}{}", "|",
+            "~".repeat(site.line_column() - 1),
+            "^".repeat(site.width()),
+            prefix_offset=UnicodeWidthStr::width(line_prefix.as_str()))?;
         write!(f, "[**] Parse Error ({}:{}:{}): {}",
             site.source, site.line, site.line_column(), msg)
     }
-- 
2.43.0


From 966b279a60de00f2111d1b3194da277862641da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 18/26] fix: sort lists that mix numbers and text by a total
 order

Numbers compared as numbers and otherwise as text form cycles, on which
the standard sort may panic.
---
 crates/seam/src/parse/expander.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 1f2b9ae..6654f4c 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -1500,16 +1500,17 @@ impl<'a> Expander<'a> {
         // Sort by the evaluated .key string.
         items.sort_by(|item0, item1| {
             let (item0, item1) = if ascending { (item0, item1) } else { (item1, item0) };
-            // First try to compare as integers, failing that, as floats, and then strings.
-            if let (Ok(n0), Ok(n1)) = (item0.key.parse::<i64>(), item1.key.parse::<i64>()) {
-                return n0.cmp(&n1)
+            // Numbers come before all other keys; this has to be a total order.
+            let number = |key: &str| key.parse::<f64>().ok().filter(|n| !n.is_nan());
+            match (number(&item0.key), number(&item1.key)) {
+                (Some(f0), Some(f1)) => f0.partial_cmp(&f1)
+                    .unwrap_or(std::cmp::Ordering::Equal)
+                    // Large integers may only be told apart as integers.
+                    .then_with(|| item0.key.parse::<i64>().ok().cmp(&item1.key.parse::<i64>().ok())),
+                (Some(_), None) => std::cmp::Ordering::Less,
+                (None, Some(_)) => std::cmp::Ordering::Greater,
+                (None, None) => item0.key.cmp(&item1.key),
             }
-            if let (Ok(f0), Ok(f1)) = (item0.key.parse::<f64>(), item1.key.parse::<f64>()) {
-                if let Some(ord) = f0.partial_cmp(&f1) {
-                    return ord;
-                }
-            }
-            item0.key.cmp(&item1.key)
         });
         // Extract nodes and amend whitespace.
         let nodes = items.into_iter().map(|item| {
-- 
2.43.0


From c2ec9b5e812e4e0e7dfba9d26c53f38fa7877d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 19/26] fix: report malformed front matter in %markdown

Only the absence of front matter may be ignored; a syntax error silently
left part of the definitions unset.
---
 crates/seam/src/parse/expander.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 6654f4c..681d412 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -760,7 +760,8 @@ impl<'a> Expander<'a> {
         };
 
         // How to extract front-matter.
-        let extract_frontmatter = | | -> Result<(), _> {
+        // Returns whether there was any.
+        let extract_frontmatter = | | -> Result<bool, _> {
             use markdown::mdast;
             let ast = match markdown::to_mdast(contents.as_ref(), &options.parse) {
                 Ok(ast) => ast,
@@ -776,29 +777,31 @@ impl<'a> Expander<'a> {
                 [mdast::Node::Yaml(mdast::Yaml { value: yaml, .. }), ..] => {
                     // Parse the YAML and convert it into macro definitions.
                     let _ = expand_yaml(self, yaml, &sep, node.site())?;
-                    Ok(())
+                    Ok(true)
                 },
                 [mdast::Node::Toml(mdast::Toml { value: toml, .. }), ..] => {
                     // Parse the TOML and convert it into macro definitions.
                     let _ = expand_toml(self, toml, &sep, node.site())?;
-                    Ok(())
+                    Ok(true)
                 },
-                _ => return Err(ExpansionError::new(
-                    "This markdown does not contain any frontmatter.",
-                    &args.number.1.site,
-                ))
+                _ => Ok(false),
             }
         };
 
         match only {
             Only::Frontmatter => {
-                extract_frontmatter()?;
+                if !extract_frontmatter()? {
+                    return Err(ExpansionError::new(
+                        "This markdown does not contain any frontmatter.",
+                        &args.number.1.site,
+                    ));
+                }
                 Ok(Box::new([]))
             },
             Only::Content => to_html(),
             Only::Both => {
-                // Ignore any errors if no frontmatter exists.
-                let _ = extract_frontmatter();
+                // It is fine if no frontmatter exists, but not if it is malformed.
+                extract_frontmatter()?;
                 to_html()
             },
         }
-- 
2.43.0


From 32efa994b89ba4655bf2a5745fb71cd8ed43bda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:36 +0000
Subject: [PATCH 20/26] fix: leave out directories that vanish during a %glob

---
 crates/seam/src/parse/expander.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 681d412..3f00e83 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -1302,6 +1302,8 @@ impl<'a> Expander<'a> {
         for path in paths {
             let path = match path {
                 Ok(path) => path,
+                // A directory removed while it was about to be listed.
+                Err(err) if err.error().kind() == io::ErrorKind::NotFound => continue,
                 Err(err) => return Err(ExpansionError(
                     format!("glob failed: {}", err),
                     args.number.1.site.to_owned(),
-- 
2.43.0


From b2dc84e7fb9d2c692ae41f8b68e7b8418f5a23b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:44 +0000
Subject: [PATCH 21/26] fix: YAML and JSON data after the first document is not
 ignored

---
 crates/seam/src/parse/expander.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 3f00e83..4beba8e 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -1966,6 +1966,8 @@ fn expand_yaml<'a>(context: &Expander<'a>, text: &str, sep: &str, site: &Site<'a
         modes: Vec<Mode>,
         /// The site of the original YAML-parsing macro.
         site: Site<'a>,
+        /// Whether a document has started.
+        started: bool,
         /// Set when the document uses something we cannot represent.
         error: Option<&'static str>,
     }
@@ -1997,6 +1999,11 @@ fn expand_yaml<'a>(context: &Expander<'a>, text: &str, sep: &str, site: &Site<'a
                 ")", "", self.site.clone()
             );
             match event {
+                // Everything has to be defined by a single document.
+                yaml::Event::DocumentStart if self.started => {
+                    self.error = Some("more than one document");
+                },
+                yaml::Event::DocumentStart => self.started = true,
                 // Either defining a new variable or setting a variable to a string.
                 yaml::Event::Scalar(ref value, ..) => {
                     let mut string = ParseNode::String(Node {
@@ -2146,11 +2153,12 @@ fn expand_yaml<'a>(context: &Expander<'a>, text: &str, sep: &str, site: &Site<'a
         nodes: Vec::new(),
         parent: Vec::new(),
         site: site.clone(),
+        started: false,
         error: None,
     };
 
     yaml::parser::Parser::new_from_str(text)
-        .load(&mut sink, false)
+        .load(&mut sink, true)
         .map_err(|err| ExpansionError(
             format!("Failed to parse YAML: {}", err),
             site.to_owned()
-- 
2.43.0


From 15a6001573bb120ff1afb446b1cc7014d232da60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:47 +0000
Subject: [PATCH 22/26] fix: YAML aliases are reported, not dropped

---
 crates/seam/src/parse/expander.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 4beba8e..4a7bfe3 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -2004,6 +2004,8 @@ fn expand_yaml<'a>(context: &Expander<'a>, text: &str, sep: &str, site: &Site<'a
                     self.error = Some("more than one document");
                 },
                 yaml::Event::DocumentStart => self.started = true,
+                // The node an alias stands for is not kept.
+                yaml::Event::Alias(..) => self.error = Some("aliases are not supported"),
                 // Either defining a new variable or setting a variable to a string.
                 yaml::Event::Scalar(ref value, ..) => {
                     let mut string = ParseNode::String(Node {
-- 
2.43.0


From 2764e7eebd463484a55536cb119301d2a75e8f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:37 +0000
Subject: [PATCH 23/26] fix: report malformed placeholders in %format strings
 instead of panicking

---
 crates/seam/src/parse/expander.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 4a7bfe3..09da0d3 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -1076,7 +1076,12 @@ impl<'a> Expander<'a> {
         // Iterate and collect format arguments.
         let mut arguments = params.iter();
         let _ = arguments.next();  // Skip the format-string.
-        let Ok(mut template) = formatx::Template::new(&format_str.value) else {
+        let template = if is_well_formed_template(&format_str.value) {
+            formatx::Template::new(&format_str.value).ok()
+        } else {
+            None
+        };
+        let Some(mut template) = template else {
             return Err(ExpansionError::new(
                 "Invalid format string.",
                 &format_str.site));
@@ -1914,6 +1919,25 @@ impl<'a> Expander<'a> {
     }
 }
 
+/// Check that the placeholders of a `%format` string are properly delimited,
+/// and pad to sensible widths only. (`formatx` panics when they are not.)
+fn is_well_formed_template(template: &str) -> bool {
+    // Doubled braces stand for themselves.
+    let template = template.replace("{{", "  ").replace("}}", "  ");
+    let mut pieces = template.split('{');
+    if pieces.next().is_some_and(|text| text.contains('}')) {
+        return false;
+    }
+    pieces.all(|piece| {
+        let Some((placeholder, text)) = piece.split_once('}') else { return false };
+        let spec = placeholder.rsplit_once(':').map_or("", |(_, spec)| spec);
+        let widths_fit = spec
+            .split(|c: char| !c.is_ascii_digit())
+            .all(|width| width.is_empty() || width.parse::<u16>().is_ok());
+        !text.contains('}') && widths_fit
+    })
+}
+
 /// For example, the YAML below,
 /// ```yaml
 /// a: 2
-- 
2.43.0


From 95e4271952b9e70eb63acae254d4edfbd5633208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:36 +0000
Subject: [PATCH 24/26] fix: report arguments that are not valid Unicode
 instead of panicking

---
 crates/seam/src/bin.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/seam/src/bin.rs b/crates/seam/src/bin.rs
index 6ceb017..4744342 100644
--- a/crates/seam/src/bin.rs
+++ b/crates/seam/src/bin.rs
@@ -17,7 +17,7 @@ fn argument_fatal(msg: impl std::fmt::Display) -> ! {
 const SUPPORTED_TARGETS: [&str; 5] = ["text", "sexp", "html", "xml", "css"];
 
 fn main() -> Result<(), Box<dyn Error>> {
-    let mut args = env::args();
+    let mut args = env::args_os();
     let _ = args.next();  // Discard.
 
     // Command line flags and options.
@@ -28,6 +28,11 @@ fn main() -> Result<(), Box<dyn Error>> {
     let mut is_doc = true;
 
     for arg in args {
+        let arg = match arg.into_string() {
+            Ok(arg) => arg,
+            Err(arg) => argument_fatal(
+                format!("Argument is not valid Unicode: `{}'.", arg.to_string_lossy()))
+        };
         if arg.chars().nth(0) == Some('-') {
             if let Some(opt) = arg.strip_prefix("--") {
                 if SUPPORTED_TARGETS.contains(&opt) {
-- 
2.43.0


From 891e8b6380904f38ec89e5a29445ab22b3eb40d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:49 +0000
Subject: [PATCH 25/26] fix: a clock that stands before 1970 does not panic
 %date

---
 crates/seam/src/parse/expander.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 09da0d3..a702daf 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -918,7 +918,8 @@ impl<'a> Expander<'a> {
                 None => return Err(ExpansionError::new("Invalid timestamp.", &time.site)),
             }
         } else {
-            chrono::Utc::now()
+            // The clock may stand before the epoch too.
+            std::time::SystemTime::now().into()
         };
 
         // Default to the local offset in force at that time.
-- 
2.43.0


From 86da97fc92d6657303e4f83074f90afa3806da09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:30:31 +0000
Subject: [PATCH 26/26] fix: a variable's name with `=' in it was looked up as
 another's

---
 crates/seam/src/parse/expander.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index a702daf..b0afbd1 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -1045,6 +1045,12 @@ impl<'a> Expander<'a> {
                 "`%os/env' expects excatly one argument.",
                 node.site()));
         };
+        // To the system, a name ends at the first `=': none has one in it.
+        if let Some(Node { value: name, site, .. }) = var.atomic().filter(|name| name.value.contains('=')) {
+            return Err(ExpansionError(
+                format!("No such environment variable ($`{}') visible.", name),
+                site.to_owned()));
+        }
         let Some(var) = var.atomic() else {
             return Err(ExpansionError::new(
                 "`%os/env' argument must be atomic (not a list).",
-- 
2.43.0

