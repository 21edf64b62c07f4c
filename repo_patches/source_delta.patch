From 4e1612e976be60b7ade8aad77d4052cde4014b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:11 +0000
Subject: [PATCH 01/61] fix: display of amounts whose integer part is zero, and
 rounding up to a whole unit

-0.50 was shown as 0.50 and 0.999 as -1.00; commodities with no decimals were
always shown one unit too big.
---
 src/models/money.rs | 42 +++++++++++++++---------------------------
 1 file changed, 15 insertions(+), 27 deletions(-)

diff --git a/src/models/money.rs b/src/models/money.rs
index 70a8bca..51363df 100644
--- a/src/models/money.rs
+++ b/src/models/money.rs
@@ -12,7 +12,6 @@ use crate::models::{Currency, HasName};
 use num::traits::Inv;
 use std::borrow::Borrow;
 use std::cmp::Ordering;
-use std::str::FromStr;
 
 /// Money representation: an amount and a currency
 ///
@@ -100,37 +99,26 @@ impl Display for Money {
         match self {
             Money::Zero => write!(f, "{}", "0"),
             Money::Money { amount, currency } => {
-                // num = trunc + fract
+                // Round half away from zero, the sign is dealt with separately so that it is not
+                // lost when the integer part is zero
                 let decimals: usize = currency.get_precision();
-                let base: i32 = 10;
-                let mut integer_part = amount.trunc();
-                let decimal_part = (amount.fract() * BigInt::from(base.pow(decimals as u32 + 2)))
-                    .abs()
-                    .trunc();
-                let mut decimal_str =
-                    format!("{:0width$}", decimal_part.numer(), width = decimals + 2);
-                decimal_str.truncate(decimals + 1);
-
-                let mut decimal = if u64::from_str(&decimal_str).unwrap() % 10 >= 5 {
-                    u64::from_str(&decimal_str).unwrap() / 10 + 1
+                let scale = num::pow(BigInt::from(10), decimals);
+                let rounded = (amount.abs() * scale).round().to_integer();
+                let sign = if amount.is_negative() & !rounded.is_zero() {
+                    "-"
                 } else {
-                    u64::from_str(&decimal_str).unwrap() / 10
+                    ""
                 };
-                let len = format!("{}", decimal).len();
-                if len == decimals + 1 {
-                    decimal = 0;
-                    if integer_part.is_positive() {
-                        integer_part += BigInt::from(1);
-                    } else {
-                        integer_part -= BigInt::from(1);
-                    }
-                }
-                decimal_str = format!("{:0width$}", decimal, width = decimals);
+                let digits = format!("{:0>width$}", rounded.to_string(), width = decimals + 1);
+                let (integer_part, decimal_part) = digits.split_at(digits.len() - decimals);
+                let point = if decimals > 0 { "." } else { "" };
                 write!(
                     f,
-                    "{}.{} {}",
-                    integer_part.numer(),
-                    decimal_str,
+                    "{}{}{}{} {}",
+                    sign,
+                    integer_part,
+                    point,
+                    decimal_part,
                     currency.get_name()
                 )
             }
-- 
2.43.0


From 334d382c88c77964f2919e0836826857f1cb2d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:11 +0000
Subject: [PATCH 02/61] fix: value expressions and queries with three or more
 operands

Only the first two operands of a chain of operators were evaluated: 'bal a b c'
ignored c, and 1 + 2 + 3 was 3.
---
 src/parser/value_expr.rs | 47 ++++++++++++++++++++--------------------
 1 file changed, 23 insertions(+), 24 deletions(-)

diff --git a/src/parser/value_expr.rs b/src/parser/value_expr.rs
index d95ab10..2e23d5c 100644
--- a/src/parser/value_expr.rs
+++ b/src/parser/value_expr.rs
@@ -412,31 +412,30 @@ fn build_ast_from_expr(
         | Rule::multiplicative_expr => {
             let mut pair = pair.into_inner();
             let lhspair = pair.next().unwrap();
-            let lhs = build_ast_from_expr(lhspair, regexes);
-            match pair.next() {
-                None => lhs,
-                Some(x) => {
-                    let op = match rule {
-                        Rule::or_expr => Binary::Or,
-                        Rule::and_expr => Binary::And,
-                        _ => match x.as_str() {
-                            "+" => Binary::Add,
-                            "-" => Binary::Subtract,
-                            "*" => Binary::Mult,
-                            "/" => Binary::Div,
-                            "=~" | "==" => Binary::Eq,
-                            "<" => Binary::Lt,
-                            ">" => Binary::Gt,
-                            "<=" => Binary::Le,
-                            ">=" => Binary::Ge,
-                            x => unreachable!("{}", x),
-                        },
-                    };
-                    let rhspair = pair.next().unwrap();
-                    let rhs = build_ast_from_expr(rhspair, regexes);
-                    parse_binary_expr(op, lhs, rhs)
-                }
+            let mut lhs = build_ast_from_expr(lhspair, regexes);
+            // Operators of the same precedence associate to the left
+            while let Some(x) = pair.next() {
+                let op = match rule {
+                    Rule::or_expr => Binary::Or,
+                    Rule::and_expr => Binary::And,
+                    _ => match x.as_str() {
+                        "+" => Binary::Add,
+                        "-" => Binary::Subtract,
+                        "*" => Binary::Mult,
+                        "/" => Binary::Div,
+                        "=~" | "==" => Binary::Eq,
+                        "<" => Binary::Lt,
+                        ">" => Binary::Gt,
+                        "<=" => Binary::Le,
+                        ">=" => Binary::Ge,
+                        x => unreachable!("{}", x),
+                    },
+                };
+                let rhspair = pair.next().unwrap();
+                let rhs = build_ast_from_expr(rhspair, regexes);
+                lhs = parse_binary_expr(op, lhs, rhs);
             }
+            lhs
         }
         Rule::primary => {
             let mut inner = pair.into_inner();
-- 
2.43.0


From 3b23e159c5ef17c400f5cabf794a7d5efc5d4d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:12 +0000
Subject: [PATCH 03/61] fix: precedence of the unary operators in value
 expressions

A unary operator applied to the whole rest of the expression, so that -5 + 3 was
-8 and 'not a and b' was 'not (a and b)'. Also, ! was accepted by the grammar
but panicked.
---
 src/grammar/grammar.pest | 6 ++++--
 src/parser/value_expr.rs | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/grammar/grammar.pest b/src/grammar/grammar.pest
index 22d4594..e25542d 100644
--- a/src/grammar/grammar.pest
+++ b/src/grammar/grammar.pest
@@ -51,7 +51,8 @@ additive_expr = { multiplicative_expr ~ ws* ~ ( add ~ ws* ~ multiplicative_expr
 multiplicative_expr = { primary ~ ws* ~ ( mult ~ ws* ~ primary )* }
 primary = {
     ("(" ~ ws* ~ expr ~ ws* ~ ")") |
-    (unary ~ ws* ~ expr) |
+    (unary ~ ws* ~ primary) |
+    (negation ~ ws* ~ comparison_expr) |
     term |
     (function ~ ws* ~ "(" ~ ws* ~ expr ~ ws* ~ ("," ~ ws* ~ expr ~ ws*)* ~ ")")
     }
@@ -103,7 +104,8 @@ add = { "+" | "-" }
 mult = { "*" | "/" }
 and = {"&" | "and"}
 or = {"|" | "or" }
-unary = { "-" | "!" | "not" }
+unary = { "-" }
+negation = { "!" | "not" }
 function = { "abs" | "has_tag" | "to_date" | "any" | "tag" }
 comparison = { eq | ne | ge | gt | le | lt }
 eq = { "=~" | "=="}
diff --git a/src/parser/value_expr.rs b/src/parser/value_expr.rs
index 2e23d5c..8ca5e4c 100644
--- a/src/parser/value_expr.rs
+++ b/src/parser/value_expr.rs
@@ -441,14 +441,14 @@ fn build_ast_from_expr(
             let mut inner = pair.into_inner();
             let first = inner.next().unwrap();
             match first.as_rule() {
-                Rule::function | Rule::unary => {
+                Rule::function | Rule::unary | Rule::negation => {
                     let op = match first.as_str() {
                         "abs" => Unary::Abs,
                         "-" => Unary::Neg,
                         "has_tag" => Unary::HasTag,
                         "tag" => Unary::Tag,
                         "to_date" => Unary::ToDate,
-                        "not" => Unary::Not,
+                        "not" | "!" => Unary::Not,
                         "any" => Unary::Any,
                         unknown => panic!("Unknown expr: {:?}", unknown),
                     };
-- 
2.43.0


From f53b7a65ae798ea7c47328b1c333d096b573286f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:12 +0000
Subject: [PATCH 04/61] fix: the != operator of value expressions panicked

---
 src/parser/value_expr.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/value_expr.rs b/src/parser/value_expr.rs
index 8ca5e4c..65b649e 100644
--- a/src/parser/value_expr.rs
+++ b/src/parser/value_expr.rs
@@ -276,6 +276,7 @@ pub fn eval(
                     },
                     _ => EvalResult::Boolean(left == right),
                 },
+                Binary::Ne => EvalResult::Boolean(left != right),
                 Binary::Lt => EvalResult::Boolean(left < right),
                 Binary::Gt => EvalResult::Boolean(left > right),
                 Binary::Ge => EvalResult::Boolean(left >= right),
@@ -389,6 +390,7 @@ pub enum Binary {
     Or,
     And,
     Eq,
+    Ne,
     Ge,
     Gt,
     Le,
@@ -424,6 +426,7 @@ fn build_ast_from_expr(
                         "*" => Binary::Mult,
                         "/" => Binary::Div,
                         "=~" | "==" => Binary::Eq,
+                        "!=" => Binary::Ne,
                         "<" => Binary::Lt,
                         ">" => Binary::Gt,
                         "<=" => Binary::Le,
-- 
2.43.0


From f391da6735b4c75846e886c6124f76f0b452e2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:06 +0000
Subject: [PATCH 05/61] fix: a number followed by and, or or != in a value
 expression

The operator was taken for the commodity of the number, and the expression did
not parse.
---
 src/grammar/grammar.pest | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/grammar/grammar.pest b/src/grammar/grammar.pest
index e25542d..94dac4f 100644
--- a/src/grammar/grammar.pest
+++ b/src/grammar/grammar.pest
@@ -59,7 +59,8 @@ primary = {
 
 
 term = _{ variable | money | number | regex | string }
-money = { (number ~ ws* ~ currency) | (currency ~ ws* ~ number) }
+money = { (number ~ ws* ~ !operator ~ currency) | (currency ~ ws* ~ number) }
+operator = _{ ne | (("and" | "or") ~ (ws | "(")) }
 currency = { string | unquoted }
 regex = { "/" ~ (!"/" ~ ANY)* ~ "/"}
 string = {
-- 
2.43.0


From bade5e3b0f470e5fb3a821b3a9f213b5e7fed1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:06 +0000
Subject: [PATCH 06/61] fix: negative price when selling with a total cost

'-2 ACME @@ 10 USD' recorded a price of -5 USD per ACME.
---
 src/models/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/mod.rs b/src/models/mod.rs
index 89cc367..5e3c071 100644
--- a/src/models/mod.rs
+++ b/src/models/mod.rs
@@ -427,7 +427,7 @@ impl ParsedLedger {
                                 amount: p.cost_amount.clone().unwrap()
                                     / match p.cost_type.as_ref().unwrap() {
                                         PriceType::Total => {
-                                            posting.amount.as_ref().unwrap().get_amount()
+                                            posting.amount.as_ref().unwrap().abs().get_amount()
                                         }
                                         PriceType::PerUnit => BigRational::from(BigInt::from(1)),
                                     },
-- 
2.43.0


From f37572338ab561f55cbf32950eb1e7a700adc822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:06 +0000
Subject: [PATCH 07/61] fix: postings without amount followed by one space or
 by the end of the file

One space after the account made the parser go on with the next line as if it
were the amount of the posting; at the end of a file with no final newline it
panicked.
---
 src/parser/tokenizers/transaction.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index 1d508b2..83aef1e 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -199,6 +199,11 @@ fn parse_posting(
     let mut finished = false;
     // Get the account name
     loop {
+        if tokenizer.get_char().is_none() {
+            // The file may end without a newline
+            finished = true;
+            break;
+        }
         let c = tokenizer.next();
         if !c.is_whitespace() {
             account.push(c);
@@ -211,8 +216,17 @@ fn parse_posting(
             }
             break;
         } else {
-            let d = tokenizer.next();
-            if d.is_whitespace() | (c == '\n') {
+            let d = match tokenizer.get_char() {
+                Some(d) => d,
+                None => break,
+            };
+            if d == '\n' {
+                // There is just whitespace before the end of the line
+                finished = true;
+                break;
+            }
+            tokenizer.next();
+            if d.is_whitespace() {
                 break;
             } else {
                 account.push(c);
-- 
2.43.0


From 1487fc65f58fb8a1f6e381caf10cebf2ce54b20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:06 +0000
Subject: [PATCH 08/61] fix: account names that start with a non ASCII
 character panicked

---
 src/parser/tokenizers/transaction.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index 83aef1e..ed0fab6 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -235,8 +235,8 @@ fn parse_posting(
         }
     }
     // See if it is a virtual account
-    match &account[0..1] {
-        "(" => {
+    match account.chars().next() {
+        Some('(') => {
             posting_type = PostingType::Virtual;
             if account.pop().unwrap() != ')' {
                 return Err(ParserError::UnexpectedInput(Some(
@@ -244,7 +244,7 @@ fn parse_posting(
                 )));
             }
         }
-        "[" => {
+        Some('[') => {
             posting_type = PostingType::VirtualMustBalance;
             if account.pop().unwrap() != ']' {
                 return Err(ParserError::UnexpectedInput(Some(
-- 
2.43.0


From cfa83acbd78fc749fe30fac28cfb79ea878a184c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:06 +0000
Subject: [PATCH 09/61] fix: postings with more than one amount were accepted

All of the amounts but the last were silently lost: 1,000.00 EUR was read as
0.00 EUR.
---
 src/parser/tokenizers/transaction.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index ed0fab6..0d4370a 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -338,6 +338,11 @@ fn parse_posting(
             }
             _ => match parse_money(tokenizer) {
                 Ok(money) => {
+                    if posting.money_amount.is_some() {
+                        return Err(ParserError::UnexpectedInput(Some(
+                            "Unexpected second amount".to_string(),
+                        )));
+                    }
                     posting.money_amount = Some(money.0);
                     posting.money_currency = Some(money.1);
                 }
-- 
2.43.0


From c416e057ba98a04ec00a9f10b5f8c22ada46d593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:39 +0000
Subject: [PATCH 10/61] fix: times from 20:00 to 23:59 were not recognised

---
 src/grammar/grammar.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar/grammar.pest b/src/grammar/grammar.pest
index 94dac4f..e3b047a 100644
--- a/src/grammar/grammar.pest
+++ b/src/grammar/grammar.pest
@@ -32,7 +32,7 @@ month = {("1" ~ ("0" | "1" | "2")) | ("0"? ~ ASCII_NONZERO_DIGIT)}
 day = {("3" ~ ("0" | "1")) |
 	(("1" | "2") ~ ASCII_DIGIT ) |
     ("0"? ~ ASCII_NONZERO_DIGIT) }
-hour = { (("0"|"1") ~ ASCII_DIGIT) | ("2" ~ ("0" ~"1" ~"2" ~"3"))}
+hour = { (("0"|"1") ~ ASCII_DIGIT) | ("2" ~ ("0" | "1" | "2" | "3"))}
 minute = { ("0"|"1"|"2"|"3"|"4"|"5") ~ ASCII_DIGIT }
 second = { ("0"|"1"|"2"|"3"|"4"|"5") ~ ASCII_DIGIT ~ ("." ~ bigint)? }
 
-- 
2.43.0


From 6e3b3d98bb3ce4a46f71ce7520b0367f0ac007be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:39 +0000
Subject: [PATCH 11/61] fix: overflow while reporting an error in the first
 line of a file

---
 src/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index cadf9bb..382ade3 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -220,7 +220,7 @@ impl<'a> Tokenizer<'a> {
         let string = self.content.iter().collect::<String>();
 
         for (i, line) in string.lines().enumerate() {
-            if i < self.line_index - 1 {
+            if i + 1 < self.line_index {
                 continue;
             };
             if i > self.line_index {
-- 
2.43.0


From 1d957fc382a2d19430ea8015eecf211f2e406902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:39 +0000
Subject: [PATCH 12/61] fix: endless loop on a comment inside a tag directive

---
 src/parser/tokenizers/tag.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/tokenizers/tag.rs b/src/parser/tokenizers/tag.rs
index c0f54cb..52ef6b5 100644
--- a/src/parser/tokenizers/tag.rs
+++ b/src/parser/tokenizers/tag.rs
@@ -47,7 +47,9 @@ pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Tag, ParserError> {
     }
     while let LineType::Indented = chars::consume_whitespaces_and_lines(tokenizer) {
         match tokenizer.get_char().unwrap() {
-            ';' => {} // Skip comments
+            ';' => {
+                chars::get_line(tokenizer);
+            } // Skip comments
             _ => match chars::get_string(tokenizer).as_str() {
                 "check" => {
                     check.push(chars::get_line(tokenizer).trim().to_string());
-- 
2.43.0


From de4f463a4aaa7c5760e879f3bb427e44907b52b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:10 +0000
Subject: [PATCH 13/61] fix: files with CRLF line endings

A posting without amount took the next line for its amount, and tags and
included file names kept the carriage return.
---
 src/parser/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 382ade3..e502cf2 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -94,7 +94,7 @@ impl<'a> From<&'a PathBuf> for Tokenizer<'a> {
                 seen_files.insert(file);
                 Tokenizer {
                     file: Some(file),
-                    content: content.chars().collect::<Vec<char>>(),
+                    content: content.replace("\r\n", "\n").chars().collect::<Vec<char>>(),
                     line_index: 0,
                     line_position: 0,
                     line_string: "",
@@ -114,7 +114,7 @@ impl<'a> From<String> for Tokenizer<'a> {
     fn from(content: String) -> Self {
         Tokenizer {
             file: None,
-            content: content.chars().collect::<Vec<char>>(),
+            content: content.replace("\r\n", "\n").chars().collect::<Vec<char>>(),
             line_index: 0,
             line_position: 0,
             line_string: "",
-- 
2.43.0


From 4f33a508d0a7d2b76c7f4696f5ab52890e22f7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:10 +0000
Subject: [PATCH 14/61] fix: collapsed lines in the balance report

An account with postings of its own and only one child was shown in one line,
with the name of the child and the balance of the parent. Collapsing also went
beyond the requested depth.
---
 src/commands/balance.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/commands/balance.rs b/src/commands/balance.rs
index dc15ab0..e170d6b 100644
--- a/src/commands/balance.rs
+++ b/src/commands/balance.rs
@@ -204,6 +204,14 @@ pub fn execute(options: &CommonOpts, flat: bool, show_total: bool) -> Result<(),
                 if vec_balances[index + 1].0.split(":").count() != (n + 1) {
                     break;
                 }
+                // The requested depth must not be exceeded
+                if depth.map_or(false, |depth| n >= depth) {
+                    break;
+                }
+                // The account has postings of its own, it needs a line
+                if !(bal.to_owned() - vec_balances[index + 1].1.to_owned()).is_zero() {
+                    break;
+                }
                 for j in (index + 2)..num_bal {
                     let name = vec_balances[j].0.clone();
                     if !name.starts_with(account) {
-- 
2.43.0


From 9bdb991b8345ec544650f22872e7d78e8579a752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:10 +0000
Subject: [PATCH 15/61] fix: accounts shown under the wrong parent in the
 balance report

Children were separated from their parent by accounts such as 'Parent old' that
sort before 'Parent:'.
---
 src/commands/balance.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/commands/balance.rs b/src/commands/balance.rs
index e170d6b..202e966 100644
--- a/src/commands/balance.rs
+++ b/src/commands/balance.rs
@@ -153,7 +153,8 @@ pub fn execute(options: &CommonOpts, flat: bool, show_total: bool) -> Result<(),
         }
     }
 
-    vec_balances.sort_by(|a, b| a.0.cmp(b.0));
+    // Compare name by name, otherwise "A b" would be placed between "A" and "A:c"
+    vec_balances.sort_by(|a, b| a.0.split(":").cmp(b.0.split(":")));
     let num_bal = vec_balances.len();
     let mut index = 0;
     let mut showed_balances = 0;
-- 
2.43.0


From 2f20214288452116c6e287e9aca569edd1b4f247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:49 +0000
Subject: [PATCH 16/61] fix: children of an account whose balance is zero were
 shown under another parent

The balance report dropped the line of an account with a zero balance even if
its children were shown, so they looked like children of the preceding line.
---
 src/commands/balance.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/commands/balance.rs b/src/commands/balance.rs
index 202e966..07a102d 100644
--- a/src/commands/balance.rs
+++ b/src/commands/balance.rs
@@ -86,7 +86,6 @@ pub fn execute(options: &CommonOpts, flat: bool, show_total: bool) -> Result<(),
         }
         vec_balances = new_balances
             .iter()
-            .filter(|x| !x.1.is_zero())
             .map(|x| (x.0.clone(), x.1.clone()))
             .collect()
     } else {
@@ -155,6 +154,19 @@ pub fn execute(options: &CommonOpts, flat: bool, show_total: bool) -> Result<(),
 
     // Compare name by name, otherwise "A b" would be placed between "A" and "A:c"
     vec_balances.sort_by(|a, b| a.0.split(":").cmp(b.0.split(":")));
+    if !flat {
+        // Accounts whose balance is zero are shown only if there is something to show below them
+        let shown: Vec<String> = vec_balances
+            .iter()
+            .filter(|x| !x.1.is_zero())
+            .filter(|x| depth.map_or(true, |depth| x.0.split(":").count() <= depth))
+            .map(|x| format!("{}:", x.0))
+            .collect();
+        vec_balances.retain(|x| {
+            let prefix = format!("{}:", x.0);
+            shown.iter().any(|name| name.starts_with(&prefix))
+        });
+    }
     let num_bal = vec_balances.len();
     let mut index = 0;
     let mut showed_balances = 0;
@@ -166,7 +178,7 @@ pub fn execute(options: &CommonOpts, flat: bool, show_total: bool) -> Result<(),
                 continue;
             }
         }
-        if bal.is_zero() {
+        if flat & bal.is_zero() {
             index += 1;
             continue;
         }
-- 
2.43.0


From a45a371250c0e8e67c5261cf41d876f1c9f96db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:50 +0000
Subject: [PATCH 17/61] fix: the order of the commodities in a balance depended
 on the hash seed

Reports, implied prices and filled postings of several commodities came out in
a different order on every run.
---
 src/models/balance.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/models/balance.rs b/src/models/balance.rs
index 39a6785..1f0c1a0 100644
--- a/src/models/balance.rs
+++ b/src/models/balance.rs
@@ -1,7 +1,7 @@
 use crate::error::LedgerError;
 use crate::models::{Currency, Money};
-use std::collections::hash_map::Iter;
-use std::collections::HashMap;
+use std::collections::btree_map::Iter;
+use std::collections::BTreeMap;
 use std::fmt;
 use std::fmt::{Display, Formatter};
 use std::ops::{Add, Neg, Sub};
@@ -9,13 +9,13 @@ use std::rc::Rc;
 
 #[derive(Debug, Clone)]
 pub struct Balance {
-    pub balance: HashMap<Option<Rc<Currency>>, Money>,
+    pub balance: BTreeMap<Option<Rc<Currency>>, Money>,
 }
 
 impl Balance {
     pub fn new() -> Balance {
         Balance {
-            balance: HashMap::new(),
+            balance: BTreeMap::new(),
         }
     }
 
@@ -81,7 +81,7 @@ impl<'a> Neg for Balance {
     type Output = Balance;
 
     fn neg(self) -> Self::Output {
-        let mut balance: HashMap<Option<Rc<Currency>>, Money> = HashMap::new();
+        let mut balance: BTreeMap<Option<Rc<Currency>>, Money> = BTreeMap::new();
         for (k, v) in self.balance {
             balance.insert(k, -v);
         }
@@ -93,7 +93,7 @@ impl Add for Balance {
     type Output = Balance;
 
     fn add(self, rhs: Self) -> Self::Output {
-        let mut total: HashMap<Option<Rc<Currency>>, Money> = HashMap::new();
+        let mut total: BTreeMap<Option<Rc<Currency>>, Money> = BTreeMap::new();
         let balances = vec![self, rhs];
         for bal in balances.iter() {
             for (cur, money) in bal.balance.iter() {
@@ -136,7 +136,7 @@ impl Sub for Balance {
 // Converter
 impl From<Money> for Balance {
     fn from(money: Money) -> Self {
-        let mut balance: HashMap<Option<Rc<Currency>>, Money> = HashMap::new();
+        let mut balance: BTreeMap<Option<Rc<Currency>>, Money> = BTreeMap::new();
         match money {
             Money::Zero => balance.insert(None, Money::Zero),
             Money::Money { ref currency, .. } => {
-- 
2.43.0


From 2e861fe330f58e9fa1e7bce01c8bda4ebadf1301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:30 +0000
Subject: [PATCH 18/61] fix: which of several candidate names or payees was
 chosen depended on the hash seed

A commodity or account written in different cases took its name from a random
posting, and a payee matched by several directives went to a random one.
---
 src/list.rs       | 12 ++++++------
 src/models/mod.rs |  8 ++++----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/list.rs b/src/list.rs
index 7461a88..e26ba92 100644
--- a/src/list.rs
+++ b/src/list.rs
@@ -1,6 +1,6 @@
 use regex::Regex;
-use std::collections::hash_map::{Iter, Values};
-use std::collections::HashMap;
+use std::collections::btree_map::{Iter, Values};
+use std::collections::{BTreeMap, HashMap};
 use std::fmt::Debug;
 use std::hash::Hash;
 use std::rc::Rc;
@@ -19,15 +19,15 @@ use crate::LedgerError;
 /// - Retrieving elements with a regular expression
 #[derive(Debug, Clone)]
 pub struct List<T> {
-    aliases: HashMap<String, String>,
-    list: HashMap<String, Rc<T>>,
+    aliases: BTreeMap<String, String>,
+    list: BTreeMap<String, Rc<T>>,
     matches: HashMap<String, Option<String>>,
 }
 
 impl<'a, T: Eq + Hash + HasName + Clone + FromDirective + HasAliases + Debug> List<T> {
     pub fn new() -> Self {
-        let aliases: HashMap<String, String> = HashMap::new();
-        let list: HashMap<String, Rc<T>> = HashMap::new();
+        let aliases: BTreeMap<String, String> = BTreeMap::new();
+        let list: BTreeMap<String, Rc<T>> = BTreeMap::new();
         let matches: HashMap<String, Option<String>> = HashMap::new();
         List {
             aliases,
diff --git a/src/models/mod.rs b/src/models/mod.rs
index 5e3c071..406705e 100644
--- a/src/models/mod.rs
+++ b/src/models/mod.rs
@@ -1,5 +1,5 @@
 use num::rational::BigRational;
-use std::collections::{HashMap, HashSet};
+use std::collections::{BTreeSet, HashMap, HashSet};
 
 pub use account::Account;
 pub use balance::Balance;
@@ -55,9 +55,9 @@ impl Ledger {
 impl ParsedLedger {
     /// Creates a proper ledger from a parsed ledger
     pub fn to_ledger(mut self, no_checks: bool) -> Result<Ledger, Error> {
-        let mut commodity_strs = HashSet::<String>::new();
-        let mut account_strs = HashSet::<String>::new();
-        let mut payee_strs = HashSet::<String>::new();
+        let mut commodity_strs = BTreeSet::<String>::new();
+        let mut account_strs = BTreeSet::<String>::new();
+        let mut payee_strs = BTreeSet::<String>::new();
 
         // 1. Populate the directive lists
 
-- 
2.43.0


From 5644c6ec4515789fb5d8b3cfe5e039ef8813ffc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:56 +0000
Subject: [PATCH 19/61] fix: conversions of a commodity with several quotes did
 not always use the latest one

With three or more dates for the same commodity the date of the chosen one was
never updated, and ties were broken by the hash seed.
---
 src/models/price.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/models/price.rs b/src/models/price.rs
index ab180b9..1230e2d 100644
--- a/src/models/price.rs
+++ b/src/models/price.rs
@@ -3,7 +3,7 @@ use chrono::{Duration, NaiveDate};
 use num::rational::BigRational;
 use num::BigInt;
 use std::cmp::Ordering;
-use std::collections::{HashMap, HashSet};
+use std::collections::{BTreeMap, BTreeSet, HashMap};
 use std::fmt;
 use std::fmt::{Display, Formatter};
 use std::rc::Rc;
@@ -123,10 +123,9 @@ pub fn conversion(
                     continue;
                 }
             }
-            None => {
-                inserted.insert(currency.clone(), k.date);
-            }
+            None => {}
         }
+        inserted.insert(currency.clone(), k.date);
         for edge in v.iter().rev() {
             match edge.as_ref().price.as_ref() {
                 None => (), // do nothing, multiply by one and keep the same currency
@@ -178,12 +177,12 @@ struct Graph {
 
 impl Graph {
     fn from_prices(prices: &Vec<Price>, source: Node) -> Self {
-        let mut nodes = HashMap::new();
+        let mut nodes = BTreeMap::new();
         let mut edges = Vec::new();
-        let mut currency_dates = HashSet::new();
+        let mut currency_dates = BTreeSet::new();
         currency_dates.insert((source.currency.clone(), source.date));
         // Remove redundant prices and create the nodes
-        let mut prices_nodup = HashMap::new();
+        let mut prices_nodup = BTreeMap::new();
         for p in prices.iter() {
             if p.date > source.date {
                 continue;
-- 
2.43.0


From d58c9051751021b7b9cefcaf9c46949d78eb5111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:28 +0000
Subject: [PATCH 20/61] fix: List::get_regex kept returning what it found
 before the last insertion

The cache of matches was not invalidated when elements or aliases were added.
---
 src/list.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/list.rs b/src/list.rs
index e26ba92..f7f3f8c 100644
--- a/src/list.rs
+++ b/src/list.rs
@@ -38,6 +38,7 @@ impl<'a, T: Eq + Hash + HasName + Clone + FromDirective + HasAliases + Debug> Li
 
     /// Inserts an ```element``` in the list
     pub fn insert(&mut self, element: T) {
+        self.matches.clear();
         let found = self.list.get(&element.get_name().to_lowercase());
         match found {
             Some(_) => eprintln!("Duplicate element: {:?}", element), // do nothing
@@ -53,6 +54,7 @@ impl<'a, T: Eq + Hash + HasName + Clone + FromDirective + HasAliases + Debug> Li
     }
     /// Add an alias
     pub fn add_alias(&mut self, alias: String, for_element: &'a T) {
+        self.matches.clear();
         let element = self.aliases.get(&alias.to_lowercase());
         match element {
             Some(x) => panic!(
@@ -131,6 +133,7 @@ impl<'a, T: Eq + Hash + HasName + Clone + FromDirective + HasAliases + Debug> Li
 
 impl<T: Clone> List<T> {
     pub fn append(&mut self, other: &List<T>) {
+        self.matches.clear();
         self.list.extend(other.to_owned().list.into_iter());
         self.aliases.extend(other.to_owned().aliases.into_iter());
     }
-- 
2.43.0


From f3baf7538253492aaf47ebc82c5c0997aa6a41af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:28 +0000
Subject: [PATCH 21/61] fix: an include loop that goes through a relative path
 was not detected

Files were compared by the way they were named, so include ../dir/file.ledger
inside dir/file.ledger ran until the stack overflowed.
---
 src/parser/include.rs | 6 ++++--
 src/parser/mod.rs     | 6 +++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/parser/include.rs b/src/parser/include.rs
index dd4e708..8ac5d2b 100644
--- a/src/parser/include.rs
+++ b/src/parser/include.rs
@@ -23,7 +23,9 @@ pub(super) fn parse(tokenizer: &mut Tokenizer) -> Result<ParsedLedger, Error> {
         match entry {
             Ok(path) => {
                 files.push(path.clone());
-                match tokenizer.seen_files.get(&path) {
+                // The same file can be reached with different names
+                let canonical = path.canonicalize().unwrap_or(path.clone());
+                match tokenizer.seen_files.get(&canonical) {
                     Some(_) => {
                         return Err(tokenizer.error(ParserError::IncludeLoop(format!(
                             "Cycle detected. {:?}",
@@ -40,7 +42,7 @@ pub(super) fn parse(tokenizer: &mut Tokenizer) -> Result<ParsedLedger, Error> {
     for file in files {
         let mut inner_tokenizer: Tokenizer = Tokenizer::from(&file);
         for p in tokenizer.seen_files.iter() {
-            inner_tokenizer.seen_files.insert(*p);
+            inner_tokenizer.seen_files.insert(p.clone());
         }
         let mut new_items: ParsedLedger = inner_tokenizer.tokenize()?;
         items.append(&mut new_items);
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index e502cf2..46f1333 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -83,15 +83,15 @@ pub struct Tokenizer<'a> {
     line_string: &'a str,
     line_characters: Vec<char>,
     position: usize,
-    seen_files: HashSet<&'a PathBuf>,
+    seen_files: HashSet<PathBuf>,
 }
 
 impl<'a> From<&'a PathBuf> for Tokenizer<'a> {
     fn from(file: &'a PathBuf) -> Self {
         match read_to_string(file) {
             Ok(content) => {
-                let mut seen_files: HashSet<&PathBuf> = HashSet::new();
-                seen_files.insert(file);
+                let mut seen_files: HashSet<PathBuf> = HashSet::new();
+                seen_files.insert(file.canonicalize().unwrap_or(file.clone()));
                 Tokenizer {
                     file: Some(file),
                     content: content.replace("\r\n", "\n").chars().collect::<Vec<char>>(),
-- 
2.43.0


From 8f154572c7a3bd200ffd25d246bd42467aa9eb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:26 +0000
Subject: [PATCH 22/61] fix: a posting without amount lost its own tags

Only the tags of the transaction were kept when the amount was filled in.
---
 src/models/transaction.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/models/transaction.rs b/src/models/transaction.rs
index 8295fe3..ab8ea25 100644
--- a/src/models/transaction.rs
+++ b/src/models/transaction.rs
@@ -295,6 +295,7 @@ impl Transaction<Posting> {
         // 1. Iterate over postings
         let mut fill_account = Rc::new(Account::from("this will never be used"));
         let mut fill_payee = None;
+        let mut fill_tags = RefCell::new(vec![]);
         let mut postings: Vec<Posting> = Vec::new();
 
         for p in self.postings.get_mut().iter() {
@@ -396,6 +397,7 @@ impl Transaction<Posting> {
                 // We do nothing, but this is the account for the empty post
                 fill_account = p.account.clone();
                 fill_payee = p.payee.clone();
+                fill_tags = p.tags.clone();
             }
         }
 
@@ -442,7 +444,7 @@ impl Transaction<Posting> {
                     cost: None,
                     kind: PostingType::Real,
                     comments: self.comments.clone(),
-                    tags: RefCell::new(self.tags.clone()),
+                    tags: fill_tags.clone(),
                     payee: fill_payee.clone(),
                     transaction: self.postings.borrow()[0].transaction.clone(),
                     origin: PostingOrigin::FromTransaction,
-- 
2.43.0


From 6c1d30b1543b83eaaaa53fb47e0c013c53497c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:26 +0000
Subject: [PATCH 23/61] fix: sign of the cost per unit of a negative balanced
 virtual posting

The number of units already carries the sign, so the cost was added instead of
subtracted and unbalanced virtual postings were accepted.
---
 src/models/transaction.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/models/transaction.rs b/src/models/transaction.rs
index ab8ea25..d17ac1d 100644
--- a/src/models/transaction.rs
+++ b/src/models/transaction.rs
@@ -239,12 +239,7 @@ fn total_balance(postings: &Vec<Posting>, kind: PostingType) -> Balance {
                         Money::Money { amount, .. } => amount.clone(),
                     };
                     let money = Money::Money {
-                        amount: units
-                            * (if p.amount.as_ref().unwrap().is_negative() {
-                                -BigInt::from(1)
-                            } else {
-                                BigInt::from(1)
-                            }),
+                        amount: units,
                         currency: currency.clone(),
                     };
                     Balance::from(money)
-- 
2.43.0


From 4e1682fa2bdd8ab7225998fb85ade14ecf38390b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:26 +0000
Subject: [PATCH 24/61] fix: virtual postings without amount passed the check
 and made the reports panic

---
 src/models/transaction.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/models/transaction.rs b/src/models/transaction.rs
index d17ac1d..d350168 100644
--- a/src/models/transaction.rs
+++ b/src/models/transaction.rs
@@ -287,6 +287,16 @@ impl Transaction<Posting> {
             false => return Err(LedgerError::TransactionIsNotBalanced),
         }
 
+        // Amounts are inferred only for real postings
+        if self
+            .postings
+            .borrow()
+            .iter()
+            .any(|p| (p.kind != PostingType::Real) & p.amount.is_none())
+        {
+            return Err(LedgerError::TransactionIsNotBalanced);
+        }
+
         // 1. Iterate over postings
         let mut fill_account = Rc::new(Account::from("this will never be used"));
         let mut fill_payee = None;
-- 
2.43.0


From d28a7aec2dc464c67fe553545a3efcef360e43f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:26 +0000
Subject: [PATCH 25/61] fix: implied prices were duplicated when there were
 automated transactions

---
 src/models/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/models/mod.rs b/src/models/mod.rs
index 406705e..17afd5c 100644
--- a/src/models/mod.rs
+++ b/src/models/mod.rs
@@ -174,6 +174,7 @@ impl ParsedLedger {
         }
 
         // Balance the transactions
+        let explicit_prices = prices.len();
         for t in transactions.iter_mut() {
             let date = t.date.unwrap().clone();
             // output_balances(&balances);
@@ -301,6 +302,9 @@ impl ParsedLedger {
                     // }
                 }
             }
+            // The transactions are going to be balanced again, and their prices with them
+            prices.truncate(explicit_prices);
+
             // Populate balances
             let mut balances: HashMap<Rc<Account>, Balance> = HashMap::new();
             for account in self.accounts.values() {
-- 
2.43.0


From ec52fb0ddbeb859463d256f1136998bfebbb0ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:26 +0000
Subject: [PATCH 26/61] fix: automated transactions that multiply a zero amount
 panicked

The amount inferred from a balance assignment may be zero, without commodity.
---
 src/models/mod.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/models/mod.rs b/src/models/mod.rs
index 17afd5c..ece3b24 100644
--- a/src/models/mod.rs
+++ b/src/models/mod.rs
@@ -259,11 +259,10 @@ impl ParsedLedger {
                                     )),
                                     Some(alias) => {
                                         if alias == "" {
-                                            Some(Money::from((
-                                                p.amount.clone().unwrap().get_commodity().unwrap(),
-                                                p.amount.clone().unwrap().get_amount()
+                                            Some(
+                                                p.amount.clone().unwrap()
                                                     * auto_posting.money_amount.clone().unwrap(),
-                                            )))
+                                            )
                                         } else {
                                             match self.commodities.get(&alias) {
                                                 Ok(_) => {} // do nothing
-- 
2.43.0


From 3d02207f95184c907333466f9003b56f1f2df11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:26 +0000
Subject: [PATCH 27/61] fix: the name of a tag with a value in the first line
 of a transaction included the semicolon

---
 src/parser/tokenizers/transaction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index 0d4370a..a7ea278 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -54,7 +54,7 @@ fn parse_with_grammar(tokenizer: &mut Tokenizer) -> Result<Transaction<RawPostin
     }
     if next_item.as_rule() == Rule::comment {
         transaction.comments.push(Comment {
-            comment: parse_string(next_item),
+            comment: parse_string(next_item)[1..].trim_start().to_string(),
         });
     }
 
-- 
2.43.0


From 43426529c5fdfaca82be8c44736dd550ff8726e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:06 +0000
Subject: [PATCH 28/61] fix: options of the init file clashed with the same
 options in the command line

Only long options followed by a space and -f were recognised.
---
 src/app.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/app.rs b/src/app.rs
index 0c2d7eb..22c4dd3 100644
--- a/src/app.rs
+++ b/src/app.rs
@@ -142,6 +142,10 @@ pub fn run_app(mut args: Vec<String>) -> Result<(), ()> {
     if let Some(file) = config_file {
         let mut aliases = HashMap::new();
         aliases.insert("-f".to_string(), "--file".to_string());
+        aliases.insert("-d".to_string(), "--depth".to_string());
+        aliases.insert("-b".to_string(), "--begin".to_string());
+        aliases.insert("-e".to_string(), "--end".to_string());
+        aliases.insert("-p".to_string(), "--period".to_string());
         let contents = read_to_string(file).unwrap();
         for line in contents.lines() {
             let option = line.trim_start();
@@ -155,7 +159,9 @@ pub fn run_app(mut args: Vec<String>) -> Result<(), ()> {
                         let mut iter = line.split_whitespace();
                         let option = iter.next().unwrap();
                         if !args.iter().any(|x| {
-                            (x == option) | (aliases.get(x).unwrap_or(&String::new()) == option)
+                            (x == option)
+                                | (aliases.get(x).unwrap_or(&String::new()) == option)
+                                | x.starts_with(&format!("{}=", option))
                         }) {
                             args.push(option.to_string());
                             let mut rest = String::new();
-- 
2.43.0


From 560c15037d19ef75f1ea9fe54ac59a151ac6ad62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:06 +0000
Subject: [PATCH 29/61] fix: zero was less than any other amount of money, even
 negative ones

The derived partial order did not agree with the total order.
---
 src/models/money.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/models/money.rs b/src/models/money.rs
index 51363df..9156854 100644
--- a/src/models/money.rs
+++ b/src/models/money.rs
@@ -43,7 +43,7 @@ use std::cmp::Ordering;
 /// # assert_eq!(*b2.balance.get(&Some(eur.clone())).unwrap(), m1);
 /// # assert_eq!(*b2.balance.get(&Some(usd.clone())).unwrap(), d1);
 /// ```
-#[derive(Clone, Debug, PartialOrd)]
+#[derive(Clone, Debug)]
 pub enum Money {
     Zero,
     Money {
@@ -149,6 +149,15 @@ impl PartialEq for Money {
     }
 }
 
+impl PartialOrd for Money {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        match (self.get_commodity(), other.get_commodity()) {
+            (Some(c1), Some(c2)) if c1 != c2 => None,
+            _ => Some(self.cmp(other)),
+        }
+    }
+}
+
 impl Ord for Money {
     fn cmp(&self, other: &Self) -> Ordering {
         let self_amount = self.get_amount();
-- 
2.43.0


From acab6cecb80500c37f75f8f8153a5218a34e9126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:34 +0000
Subject: [PATCH 30/61] fix: balance assignment to an account that holds other
 commodities

The amount was taken from the other commodity, or the transaction was rejected,
instead of setting the balance of the assigned commodity alone.
---
 src/models/transaction.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/models/transaction.rs b/src/models/transaction.rs
index d350168..56ee7d8 100644
--- a/src/models/transaction.rs
+++ b/src/models/transaction.rs
@@ -379,13 +379,17 @@ impl Transaction<Posting> {
                 // There is a balance
                 let balance = p.balance.as_ref().unwrap();
 
-                // update the amount
+                // update the amount, other commodities in the account are not affected
                 let account_bal = balances.get(p.account.deref()).unwrap().clone();
-                let amount_bal = Balance::from(balance.clone()) - account_bal;
+                let current = match account_bal.balance.get(&balance.get_commodity()) {
+                    Some(current) => current.clone(),
+                    None => Money::Zero,
+                };
+                let amount_bal = balance.clone() - current;
                 let money = amount_bal.to_money()?;
                 transaction_balance = transaction_balance + Balance::from(money.clone());
                 // update the account balance
-                balances.insert(p.account.clone(), Balance::from(balance.clone()));
+                balances.insert(p.account.clone(), account_bal + amount_bal);
                 postings.push(Posting {
                     account: p.account.clone(),
                     amount: Some(money),
-- 
2.43.0


From 7686de15d0421db30baa978623694d195ff6f626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:34 +0000
Subject: [PATCH 31/61] fix: multipliers of automated transactions added a
 commodity without name

---
 src/models/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/models/mod.rs b/src/models/mod.rs
index ece3b24..6a02fa0 100644
--- a/src/models/mod.rs
+++ b/src/models/mod.rs
@@ -69,7 +69,14 @@ impl ParsedLedger {
                 }
                 // Currencies
                 if let Some(c) = &p.money_currency {
-                    commodity_strs.insert(c.clone());
+                    // In automated transactions a number alone is a multiplier
+                    let is_multiplier = match transaction.transaction_type {
+                        TransactionType::Automated => c.is_empty(),
+                        _ => false,
+                    };
+                    if !is_multiplier {
+                        commodity_strs.insert(c.clone());
+                    }
                 }
                 if let Some(c) = &p.cost_currency {
                     commodity_strs.insert(c.clone());
-- 
2.43.0


From 6b3bed79c4f2b8a75ce754ea95f5157b5f9d30f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:32 +0000
Subject: [PATCH 32/61] fix: products and quotients of three or more operands
 separated by blanks

---
 src/grammar/grammar.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar/grammar.pest b/src/grammar/grammar.pest
index e3b047a..d27f533 100644
--- a/src/grammar/grammar.pest
+++ b/src/grammar/grammar.pest
@@ -48,7 +48,7 @@ or_expr = { and_expr ~ ws* ~ ( or ~ ws* ~ and_expr ) * }
 and_expr = { comparison_expr ~ ws* ~ ( and ~ ws* ~ comparison_expr ) * }
 comparison_expr = { additive_expr ~ ws* ~ ( comparison ~ ws* ~ additive_expr ) * }
 additive_expr = { multiplicative_expr ~ ws* ~ ( add ~ ws* ~ multiplicative_expr ) * }
-multiplicative_expr = { primary ~ ws* ~ ( mult ~ ws* ~ primary )* }
+multiplicative_expr = { primary ~ ws* ~ ( mult ~ ws* ~ primary ~ ws* )* }
 primary = {
     ("(" ~ ws* ~ expr ~ ws* ~ ")") |
     (unary ~ ws* ~ primary) |
-- 
2.43.0


From b2f020fb1d21cb5bcbb07e654fd76dfeedeebb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:18 +0000
Subject: [PATCH 33/61] fix: quoted commodities in value expressions

---
 src/parser/value_expr.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/value_expr.rs b/src/parser/value_expr.rs
index 65b649e..247636b 100644
--- a/src/parser/value_expr.rs
+++ b/src/parser/value_expr.rs
@@ -1,4 +1,4 @@
-use super::utils::parse_rational;
+use super::utils::{parse_rational, parse_string};
 use super::{GrammarParser, Rule};
 use crate::app;
 use crate::models::{Account, Currency, Money, Payee, Posting, Transaction};
@@ -462,11 +462,11 @@ fn build_ast_from_expr(
                     let child = money.next().unwrap();
                     match child.as_rule() {
                         Rule::number => Node::Money {
-                            currency: money.next().unwrap().as_str().to_string(),
+                            currency: parse_string(money.next().unwrap()),
                             amount: parse_rational(child),
                         },
                         Rule::currency => Node::Money {
-                            currency: child.as_str().to_string(),
+                            currency: parse_string(child),
                             amount: parse_rational(money.next().unwrap()),
                         },
                         unknown => panic!("Unknown rule: {:?}", unknown),
-- 
2.43.0


From 7817d43eaab45b4477edb3546bd34cf3a07c9189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:09 +0000
Subject: [PATCH 34/61] fix: blanks around the path of an include made it match
 nothing

---
 src/parser/include.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/include.rs b/src/parser/include.rs
index 8ac5d2b..38e489a 100644
--- a/src/parser/include.rs
+++ b/src/parser/include.rs
@@ -18,7 +18,7 @@ pub(super) fn parse(tokenizer: &mut Tokenizer) -> Result<ParsedLedger, Error> {
         parent.push('/');
         pattern.push_str(parent.as_str());
     }
-    pattern.push_str(chars::get_line(tokenizer).as_str());
+    pattern.push_str(chars::get_line(tokenizer).trim());
     for entry in glob(&pattern).expect("Failed to read glob pattern") {
         match entry {
             Ok(path) => {
-- 
2.43.0


From 477d3583355f5f88563903c8a33bff5f3a88ac2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:27 +0000
Subject: [PATCH 35/61] fix: comments and trailing blanks became part of the
 names of account and payee directives

---
 src/parser/tokenizers/account.rs | 5 +++--
 src/parser/tokenizers/payee.rs   | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/parser/tokenizers/account.rs b/src/parser/tokenizers/account.rs
index 90119d0..d4ddd9f 100644
--- a/src/parser/tokenizers/account.rs
+++ b/src/parser/tokenizers/account.rs
@@ -8,9 +8,10 @@ use std::collections::HashSet;
 
 pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Account, ParserError> {
     lazy_static! {
-        static ref RE: Regex = Regex::new(format!("{}{}",
+        static ref RE: Regex = Regex::new(format!("{}{}{}",
         r"(account) +"        , // directive commodity
-        r"(.*)"                 , // description
+        r"(.*?)"                , // description
+        r"\s*((?:  |\t);.*)?$"  , // comment
         ).as_str()).unwrap();
     }
     let mystr = chars::get_line(tokenizer);
diff --git a/src/parser/tokenizers/payee.rs b/src/parser/tokenizers/payee.rs
index a0c0ff0..989822f 100644
--- a/src/parser/tokenizers/payee.rs
+++ b/src/parser/tokenizers/payee.rs
@@ -13,8 +13,8 @@ pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Payee, ParserError> {
     lazy_static! {
         static ref RE: Regex = Regex::new(format!("{}{}{}",
         r"(payee) +"            , // payee directive
-        r"(.*)"                 , // description
-        r"(  ;.*)?"             , // note
+        r"(.*?)"                , // description
+        r"\s*((?:  |\t);.*)?$"  , // note
         ).as_str()).unwrap();
     }
     let mystr = chars::get_line(tokenizer);
-- 
2.43.0


From d5822b301309386b8b8258d1c4b8551e66bf7e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:28 +0000
Subject: [PATCH 36/61] fix: postings with more than one cost or more than one
 balance were accepted

---
 src/parser/tokenizers/transaction.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index a7ea278..41e793c 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -306,6 +306,11 @@ fn parse_posting(
                         return Err(e);
                     }
                 };
+                if posting.balance_amount.is_some() {
+                    return Err(ParserError::UnexpectedInput(Some(
+                        "Unexpected second balance".to_string(),
+                    )));
+                }
                 posting.balance_amount = Some(money.0);
                 posting.balance_currency = Some(money.1);
             }
@@ -333,6 +338,11 @@ fn parse_posting(
                         return Err(e);
                     }
                 };
+                if posting.cost_amount.is_some() {
+                    return Err(ParserError::UnexpectedInput(Some(
+                        "Unexpected second cost".to_string(),
+                    )));
+                }
                 posting.cost_amount = Some(money.0);
                 posting.cost_currency = Some(money.1);
             }
-- 
2.43.0


From ada9a668836e6f621b36562a4fb1dd1545257bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:28 +0000
Subject: [PATCH 37/61] fix: an amount written as a value expression was
 silently ignored in normal transactions

---
 src/parser/tokenizers/transaction.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index 41e793c..27bc4c4 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -287,6 +287,11 @@ fn parse_posting(
         match tokenizer.get_char() {
             Some('(') => {
                 // This is a value expression
+                if let TransactionType::Real = transaction_type {
+                    return Err(ParserError::UnexpectedInput(Some(
+                        "Value expressions are only allowed in automated transactions".to_string(),
+                    )));
+                }
                 posting.amount_expr = Some(chars::get_value_expression(tokenizer));
             }
             Some('\n') => break,
-- 
2.43.0


From 96b2792211d7088e9ef43a3649c80168261fff5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:28 +0000
Subject: [PATCH 38/61] fix: a minus sign after the decimal point was read as a
 decimal digit

---
 src/parser/tokenizers/transaction.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index 27bc4c4..323d453 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -435,6 +435,11 @@ fn parse_amount(tokenizer: &mut Tokenizer) -> Result<BigRational, ParserError> {
                     decimal = true
                 }
             }
+            Some('-') if decimal => {
+                return Err(ParserError::UnexpectedInput(Some(
+                    "Wrong number format".to_string(),
+                )));
+            }
             Some(c) if (c == '-') | c.is_numeric() => {
                 num.push(c);
                 if decimal {
-- 
2.43.0


From db8d6b4a7bade15fa4b2d7737f2c2c1cbab4684e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:37 +0000
Subject: [PATCH 39/61] fix: a commodity with a missing or misplaced quote
 swallowed the rest of the line

---
 src/parser/chars.rs                  |  2 +-
 src/parser/tokenizers/transaction.rs | 18 ++++++++++++++++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/parser/chars.rs b/src/parser/chars.rs
index 2c44973..4bcecc2 100644
--- a/src/parser/chars.rs
+++ b/src/parser/chars.rs
@@ -110,7 +110,7 @@ pub(super) fn get_string(tokenizer: &mut Tokenizer) -> String {
         if *c == '\n' {
             break;
         } else if *c == '"' {
-            if retval.len() == 0 {
+            if retval.len() == 0 && !quote {
                 quote = true
             } else if quote {
                 tokenizer.position += 1;
diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index 323d453..113c74b 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -391,14 +391,14 @@ fn parse_money(tokenizer: &mut Tokenizer) -> Result<(BigRational, String), Parse
                     return Err(e);
                 }
             };
-            currency = chars::get_string(tokenizer);
+            currency = parse_currency(tokenizer)?;
             if currency.starts_with("\"") {
                 let n = currency.len();
                 currency = currency[1..n - 1].to_string();
             }
         }
         Some(_) => {
-            currency = chars::get_string(tokenizer);
+            currency = parse_currency(tokenizer)?;
             if currency.starts_with("\"") {
                 let n = currency.len();
                 currency = currency[1..n - 1].to_string();
@@ -420,6 +420,20 @@ fn parse_money(tokenizer: &mut Tokenizer) -> Result<(BigRational, String), Parse
     Ok((amount, currency))
 }
 
+/// Parses a currency, which may be between quotes
+fn parse_currency(tokenizer: &mut Tokenizer) -> Result<String, ParserError> {
+    chars::consume_whitespaces(tokenizer);
+    let mut line = tokenizer.content[tokenizer.position..]
+        .iter()
+        .take_while(|c| **c != '\n');
+    if line.next() == Some(&'"') && !line.any(|c| *c == '"') {
+        return Err(ParserError::UnexpectedInput(Some(
+            "Missing closing quote".to_string(),
+        )));
+    }
+    Ok(chars::get_string(tokenizer))
+}
+
 fn parse_amount(tokenizer: &mut Tokenizer) -> Result<BigRational, ParserError> {
     let mut num = String::new();
     let mut den = "1".to_string();
-- 
2.43.0


From 0984229ab4eacb5aed1d9b61bd3b52252585fa90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:07 +0000
Subject: [PATCH 40/61] fix: a tab after or before a commodity in P and
 commodity directives became part of its name

---
 src/grammar/grammar.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/grammar/grammar.pest b/src/grammar/grammar.pest
index d27f533..6bd0aff 100644
--- a/src/grammar/grammar.pest
+++ b/src/grammar/grammar.pest
@@ -69,7 +69,7 @@ string = {
     }
 reserved = _{"+" | "*" | "/" | "\\" | "|" | "%" | "<" | ">" | ":" | "?" |  "(" |  ")" | ";"}
 unquoted = { !reserved ~ !"=" ~ !"-" ~ !"&" ~
-    (!reserved ~ !SEPARATOR ~ ANY)+ }
+    (!reserved ~ !ws ~ !SEPARATOR ~ ANY)+ }
 variable = {
     "account" |
     "payee" |
@@ -97,7 +97,7 @@ variable = {
 // helpers
 number = { "-"? ~ bigint ~ ("." ~ bigint)? }
 bigint = _{ ASCII_DIGIT+ }
-ws = _{" "}
+ws = _{" " | "\t"}
 end = { EOI | NEWLINE }
 
 
-- 
2.43.0


From 55e4eb79221166f569e37bdaf366499714e0efdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:34 +0000
Subject: [PATCH 41/61] fix: a value expression without its closing parenthesis
 swallowed the rest of the file

---
 src/parser/tokenizers/transaction.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index 113c74b..a8e1961 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -292,7 +292,13 @@ fn parse_posting(
                         "Value expressions are only allowed in automated transactions".to_string(),
                     )));
                 }
-                posting.amount_expr = Some(chars::get_value_expression(tokenizer));
+                let expression = chars::get_value_expression(tokenizer);
+                if expression.matches('(').count() != expression.matches(')').count() {
+                    return Err(ParserError::UnexpectedInput(Some(
+                        "Expected ')'".to_string(),
+                    )));
+                }
+                posting.amount_expr = Some(expression);
             }
             Some('\n') => break,
             None => break,
-- 
2.43.0


From aeeec5b1afa029c0a1cd8764dcc1458594099bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:34 +0000
Subject: [PATCH 42/61] fix: account, payee and tag directives were accepted
 with anything before the keyword, and a payee could start with a tab

---
 src/parser/tokenizers/account.rs | 2 +-
 src/parser/tokenizers/payee.rs   | 2 +-
 src/parser/tokenizers/tag.rs     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/tokenizers/account.rs b/src/parser/tokenizers/account.rs
index d4ddd9f..7feca5b 100644
--- a/src/parser/tokenizers/account.rs
+++ b/src/parser/tokenizers/account.rs
@@ -9,7 +9,7 @@ use std::collections::HashSet;
 pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Account, ParserError> {
     lazy_static! {
         static ref RE: Regex = Regex::new(format!("{}{}{}",
-        r"(account) +"        , // directive commodity
+        r"^(account) +"       , // directive commodity
         r"(.*?)"                , // description
         r"\s*((?:  |\t);.*)?$"  , // comment
         ).as_str()).unwrap();
diff --git a/src/parser/tokenizers/payee.rs b/src/parser/tokenizers/payee.rs
index 989822f..2b668ba 100644
--- a/src/parser/tokenizers/payee.rs
+++ b/src/parser/tokenizers/payee.rs
@@ -12,7 +12,7 @@ use crate::ParserError;
 pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Payee, ParserError> {
     lazy_static! {
         static ref RE: Regex = Regex::new(format!("{}{}{}",
-        r"(payee) +"            , // payee directive
+        r"^(payee)\s+"          , // payee directive
         r"(.*?)"                , // description
         r"\s*((?:  |\t);.*)?$"  , // note
         ).as_str()).unwrap();
diff --git a/src/parser/tokenizers/tag.rs b/src/parser/tokenizers/tag.rs
index 52ef6b5..f41fe35 100644
--- a/src/parser/tokenizers/tag.rs
+++ b/src/parser/tokenizers/tag.rs
@@ -9,7 +9,7 @@ use crate::ParserError;
 pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Tag, ParserError> {
     lazy_static! {
         static ref RE: Regex = Regex::new(format!("{}{}",
-        r"(tag) +"        , // tag directive
+        r"^(tag) +"       , // tag directive
         r"(.*)"           , // description
         ).as_str()).unwrap();
     }
-- 
2.43.0


From d3b25d33488f293a75ef53d0af852d0746a36c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:43 +0000
Subject: [PATCH 43/61] fix: --init-file=FILE was ignored, and --option=value
 in the init file clashed with the command line

---
 src/app.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/app.rs b/src/app.rs
index 22c4dd3..bf07f32 100644
--- a/src/app.rs
+++ b/src/app.rs
@@ -128,6 +128,10 @@ pub fn run_app(mut args: Vec<String>) -> Result<(), ()> {
             possible_paths.push(args[i + 1].clone());
             break;
         }
+        if let Some(path) = args[i].strip_prefix("--init-file=") {
+            possible_paths.push(path.to_string());
+            break;
+        }
     }
     possible_paths.push(shellexpand::tilde("~/.ledgerrc").to_string());
     possible_paths.push(".ledgerrc".to_string());
@@ -158,10 +162,14 @@ pub fn run_app(mut args: Vec<String>) -> Result<(), ()> {
                         );
                         let mut iter = line.split_whitespace();
                         let option = iter.next().unwrap();
+                        // --option value or --option=value, -o value, -ovalue or -o=value
+                        let name = option.split('=').next().unwrap();
                         if !args.iter().any(|x| {
-                            (x == option)
-                                | (aliases.get(x).unwrap_or(&String::new()) == option)
-                                | x.starts_with(&format!("{}=", option))
+                            (x == name)
+                                | x.starts_with(&format!("{}=", name))
+                                | aliases
+                                    .iter()
+                                    .any(|(short, long)| (long == name) & x.starts_with(short))
                         }) {
                             args.push(option.to_string());
                             let mut rest = String::new();
-- 
2.43.0


From 861bc9ca9413290070443d855237aec6f0aae184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:40 +0000
Subject: [PATCH 44/61] fix: a declaration repeated in an included file
 replaced the first one, and aliases of repeated declarations were lost

---
 src/list.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/list.rs b/src/list.rs
index f7f3f8c..0543480 100644
--- a/src/list.rs
+++ b/src/list.rs
@@ -41,7 +41,14 @@ impl<'a, T: Eq + Hash + HasName + Clone + FromDirective + HasAliases + Debug> Li
         self.matches.clear();
         let found = self.list.get(&element.get_name().to_lowercase());
         match found {
-            Some(_) => eprintln!("Duplicate element: {:?}", element), // do nothing
+            Some(_) => {
+                // The first definition stays, but these are also names for it
+                eprintln!("Duplicate element: {:?}", element);
+                let name = element.get_name().to_lowercase();
+                for alias in element.get_aliases().iter() {
+                    self.aliases.insert(alias.to_lowercase(), name.clone());
+                }
+            }
             None => {
                 // Change the name which will be used as key to lowercase
                 let name = element.get_name().to_string().to_lowercase();
@@ -134,7 +141,10 @@ impl<'a, T: Eq + Hash + HasName + Clone + FromDirective + HasAliases + Debug> Li
 impl<T: Clone> List<T> {
     pub fn append(&mut self, other: &List<T>) {
         self.matches.clear();
-        self.list.extend(other.to_owned().list.into_iter());
+        for (name, element) in other.list.iter() {
+            // As in insert, the first definition stays
+            self.list.entry(name.clone()).or_insert(element.clone());
+        }
         self.aliases.extend(other.to_owned().aliases.into_iter());
     }
 }
-- 
2.43.0


From 1b9f1091aad309e5fe9e9a420b9d5b8d1583a568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:10 +0000
Subject: [PATCH 45/61] fix: a balance was equal to any other that had all its
 commodities and more

---
 src/models/balance.rs | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/models/balance.rs b/src/models/balance.rs
index 1f0c1a0..8cffe3c 100644
--- a/src/models/balance.rs
+++ b/src/models/balance.rs
@@ -149,19 +149,11 @@ impl From<Money> for Balance {
 
 impl PartialEq for Balance {
     fn eq(&self, other: &Self) -> bool {
-        for (k, v) in self.balance.iter() {
-            let other_money = other.balance.get(k);
-            match other_money {
-                None => {
-                    if !v.is_zero() {
-                        return false;
-                    }
-                }
-                Some(money) => {
-                    if money != v {
-                        return false;
-                    }
-                }
+        for k in self.balance.keys().chain(other.balance.keys()) {
+            let money = self.balance.get(k).unwrap_or(&Money::Zero);
+            let other_money = other.balance.get(k).unwrap_or(&Money::Zero);
+            if money != other_money {
+                return false;
             }
         }
         true
-- 
2.43.0


From 8a45f96e339941e4f45083a0f17bfc7ae5fcf2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:53 +0000
Subject: [PATCH 46/61] fix: balance assertions relied on the asymmetry of the
 equality of balances

---
 src/models/transaction.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/models/transaction.rs b/src/models/transaction.rs
index 56ee7d8..79f1346 100644
--- a/src/models/transaction.rs
+++ b/src/models/transaction.rs
@@ -313,7 +313,9 @@ impl Transaction<Posting> {
                     + Balance::from(money.clone()); // What we add
                 if !skip_balance_check {
                     if let Some(balance) = &p.balance {
-                        if Balance::from(balance.clone()) != expected_balance {
+                        // Only the commodity of the assertion is checked
+                        let actual = expected_balance.balance.get(&balance.get_commodity());
+                        if balance != actual.unwrap_or(&Money::Zero) {
                             eprintln!("Found:       {}", balance);
                             eprintln!("Expected:    {}", expected_balance);
                             eprintln!(
-- 
2.43.0


From 3c156df82c3a2b8ecc92701f4be4b87cafe65655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:21 +0000
Subject: [PATCH 47/61] fix: a number or a commodity followed by == or !=
 without a blank was read as one commodity in value expressions

---
 src/grammar/grammar.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/grammar/grammar.pest b/src/grammar/grammar.pest
index 6bd0aff..1bf3498 100644
--- a/src/grammar/grammar.pest
+++ b/src/grammar/grammar.pest
@@ -68,8 +68,8 @@ string = {
 	("'" ~ (("\\'") | (!"'" ~ ANY))* ~ "'")
     }
 reserved = _{"+" | "*" | "/" | "\\" | "|" | "%" | "<" | ">" | ":" | "?" |  "(" |  ")" | ";"}
-unquoted = { !reserved ~ !"=" ~ !"-" ~ !"&" ~
-    (!reserved ~ !ws ~ !SEPARATOR ~ ANY)+ }
+unquoted = { !reserved ~ !"=" ~ !"-" ~ !"&" ~ !ASCII_DIGIT ~
+    (!reserved ~ !"==" ~ !"=~" ~ !ne ~ !ws ~ !SEPARATOR ~ ANY)+ }
 variable = {
     "account" |
     "payee" |
-- 
2.43.0


From 349eeb60b7e1a2293cea9609bfd71d4d66633617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:51 +0000
Subject: [PATCH 48/61] fix: amounts such as NOK 5 could not be read in value
 expressions

---
 src/grammar/grammar.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/grammar/grammar.pest b/src/grammar/grammar.pest
index 1bf3498..f466d13 100644
--- a/src/grammar/grammar.pest
+++ b/src/grammar/grammar.pest
@@ -89,8 +89,8 @@ variable = {
     "running_total" |
     "note" |
     // Abbreviations go later
-    "T" | "N" | "O" | "Z" | "R" | "X" |
-    "n" | "l" | "g" | "v" | "b"
+    (("T" | "N" | "O" | "Z" | "R" | "X" |
+    "n" | "l" | "g" | "v" | "b") ~ !ASCII_ALPHANUMERIC)
 }
 
 
-- 
2.43.0


From 7b686f738cf7d22824d6daed21c362b804af1ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:53 +0000
Subject: [PATCH 49/61] fix: a price of zero made balance -X panic

---
 src/models/price.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/models/price.rs b/src/models/price.rs
index 1230e2d..c042be4 100644
--- a/src/models/price.rs
+++ b/src/models/price.rs
@@ -94,6 +94,12 @@ pub fn conversion(
         // Update the distances
         for (u, e) in graph.get_neighbours(v.as_ref()).iter() {
             // println!("Neighbour: {} {}", u.currency.get_name(), u.date);
+            // What is worth nothing can't be used to value other things
+            if let Some(price) = e.price.as_ref() {
+                if price.get_price().is_zero() & (e.from == v) {
+                    continue;
+                }
+            }
             let alt = distances.get(v.as_ref()).unwrap().unwrap() + e.length();
             let distance = distances.get(u.as_ref()).unwrap();
             let mut update = distance.is_none();
-- 
2.43.0


From 1f80b27983275c139ffced7759405ec36822319f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:54 +0000
Subject: [PATCH 50/61] fix: balance --flat --depth panicked with depth 0 or
 accounts that start with :

---
 src/commands/balance.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/commands/balance.rs b/src/commands/balance.rs
index 07a102d..db0ced6 100644
--- a/src/commands/balance.rs
+++ b/src/commands/balance.rs
@@ -109,9 +109,9 @@ pub fn execute(options: &CommonOpts, flat: bool, show_total: bool) -> Result<(),
                     })
                     .collect::<Vec<(String, Balance)>>();
                 temp.sort_by(|a, b| a.0.cmp(&b.0));
-                let mut account = String::new();
+                let mut account: Option<&String> = None;
                 for (acc, value) in temp.iter() {
-                    if acc.to_string() != account {
+                    if Some(acc) != account {
                         vec_balances.push((acc.as_str(), value.clone()));
                     } else {
                         let n = vec_balances.len();
@@ -119,7 +119,7 @@ pub fn execute(options: &CommonOpts, flat: bool, show_total: bool) -> Result<(),
                             (&acc.as_str(), vec_balances[n - 1].clone().1 + value.clone());
                     }
 
-                    account = acc.to_string();
+                    account = Some(acc);
                 }
             }
             None => {
-- 
2.43.0


From de5a88a40c3f4e7ae26c19e78a1c51c4df2f5a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:48 +0000
Subject: [PATCH 51/61] fix: amounts of automated transactions could be read in
 part, or without end

What was after the closing parenthesis, as in '(amount) * 2', and what was
before the opening one, as in '-(amount)' or '3 EUR (amount)', was ignored. An
amount that is not one at the end of a file without a last newline made the
parser go back to the same character again and again.
---
 src/parser/tokenizers/transaction.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index a8e1961..f457990 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -298,6 +298,20 @@ fn parse_posting(
                         "Expected ')'".to_string(),
                     )));
                 }
+                if posting.money_amount.is_some() {
+                    return Err(ParserError::UnexpectedInput(Some(
+                        "Unexpected second amount".to_string(),
+                    )));
+                }
+                // Nothing can be left after the expression
+                match GrammarParser::parse(Rule::value_expr, expression.as_str()) {
+                    Ok(x) if x.as_str().len() == expression.trim_end().len() => (),
+                    _ => {
+                        return Err(ParserError::UnexpectedInput(Some(
+                            "Wrong value expression".to_string(),
+                        )))
+                    }
+                }
                 posting.amount_expr = Some(expression);
             }
             Some('\n') => break,
@@ -367,15 +381,7 @@ fn parse_posting(
                     posting.money_amount = Some(money.0);
                     posting.money_currency = Some(money.1);
                 }
-                Err(e) => match transaction_type {
-                    TransactionType::Real | TransactionType::Periodic => return Err(e),
-                    TransactionType::Automated => {
-                        posting.amount_expr = Some(chars::get_line(tokenizer));
-
-                        tokenizer.line_index -= 1;
-                        tokenizer.position -= 1;
-                    }
-                },
+                Err(e) => return Err(e),
             },
         }
         chars::consume_whitespaces(tokenizer);
-- 
2.43.0


From ee3827db44980ede7bc36ee65236b23981935914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:24 +0000
Subject: [PATCH 52/61] fix: dates on the command line with something before
 the year were read without it

A year of five digits lost the first one, and a range was read as its last day.
---
 src/app.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/app.rs b/src/app.rs
index bf07f32..8e04930 100644
--- a/src/app.rs
+++ b/src/app.rs
@@ -247,8 +247,8 @@ pub fn run_app(mut args: Vec<String>) -> Result<(), ()> {
 /// A parser for date expressions
 pub fn date_parser(date: &str) -> Result<NaiveDate, Error> {
     lazy_static! {
-        static ref RE_MONTH: Regex = Regex::new(r"(\d{4})[/-](\d\d?)$").unwrap();
-        static ref RE_DATE: Regex = Regex::new(r"(\d{4})[/-](\d\d?)[/-](\d\d?)$").unwrap();
+        static ref RE_MONTH: Regex = Regex::new(r"^(\d{4})[/-](\d\d?)$").unwrap();
+        static ref RE_DATE: Regex = Regex::new(r"^(\d{4})[/-](\d\d?)[/-](\d\d?)$").unwrap();
     }
     if RE_DATE.is_match(date) {
         let captures = RE_DATE.captures(date).unwrap();
-- 
2.43.0


From 096a43f83b8436030360361cfc899ba6c9484876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:34 +0000
Subject: [PATCH 53/61] fix: options of the init file became part of the query
 after --

---
 src/app.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/app.rs b/src/app.rs
index 8e04930..ab61b29 100644
--- a/src/app.rs
+++ b/src/app.rs
@@ -151,6 +151,8 @@ pub fn run_app(mut args: Vec<String>) -> Result<(), ()> {
         aliases.insert("-e".to_string(), "--end".to_string());
         aliases.insert("-p".to_string(), "--period".to_string());
         let contents = read_to_string(file).unwrap();
+        // there are no options after --
+        let mut end = args.iter().position(|x| x == "--").unwrap_or(args.len());
         for line in contents.lines() {
             let option = line.trim_start();
             match option.chars().nth(0) {
@@ -164,21 +166,23 @@ pub fn run_app(mut args: Vec<String>) -> Result<(), ()> {
                         let option = iter.next().unwrap();
                         // --option value or --option=value, -o value, -ovalue or -o=value
                         let name = option.split('=').next().unwrap();
-                        if !args.iter().any(|x| {
+                        if !args[..end].iter().any(|x| {
                             (x == name)
                                 | x.starts_with(&format!("{}=", name))
                                 | aliases
                                     .iter()
                                     .any(|(short, long)| (long == name) & x.starts_with(short))
                         }) {
-                            args.push(option.to_string());
+                            args.insert(end, option.to_string());
+                            end += 1;
                             let mut rest = String::new();
                             for arg in iter {
                                 rest.push_str(" ");
                                 rest.push_str(arg);
                             }
                             if rest.len() > 0 {
-                                args.push(rest.trim().to_string());
+                                args.insert(end, rest.trim().to_string());
+                                end += 1;
                             }
                         }
                     }
-- 
2.43.0


From cde0f9fad78ba01d1fdb4280f085df772d2d782c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:16 +0000
Subject: [PATCH 54/61] fix: includes in a folder whose name looks like a
 pattern took files from other folders

---
 src/parser/include.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser/include.rs b/src/parser/include.rs
index 38e489a..d22d468 100644
--- a/src/parser/include.rs
+++ b/src/parser/include.rs
@@ -1,7 +1,7 @@
 use crate::parser::{chars, ParsedLedger, Tokenizer};
 
 use crate::{Error, ParserError};
-use glob::glob;
+use glob::{glob, Pattern};
 use std::path::PathBuf;
 
 /// Handles include directive
@@ -16,7 +16,8 @@ pub(super) fn parse(tokenizer: &mut Tokenizer) -> Result<ParsedLedger, Error> {
             parent.push('.')
         }
         parent.push('/');
-        pattern.push_str(parent.as_str());
+        // The folder is not part of the pattern
+        pattern.push_str(Pattern::escape(parent.as_str()).as_str());
     }
     pattern.push_str(chars::get_line(tokenizer).trim());
     for entry in glob(&pattern).expect("Failed to read glob pattern") {
-- 
2.43.0


From 13a26718b1cc1e862920499202280637a1b3187c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:51 +0000
Subject: [PATCH 55/61] fix: an include of a file that does not exist was
 ignored

---
 src/parser/include.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser/include.rs b/src/parser/include.rs
index d22d468..78a34ea 100644
--- a/src/parser/include.rs
+++ b/src/parser/include.rs
@@ -19,7 +19,8 @@ pub(super) fn parse(tokenizer: &mut Tokenizer) -> Result<ParsedLedger, Error> {
         // The folder is not part of the pattern
         pattern.push_str(Pattern::escape(parent.as_str()).as_str());
     }
-    pattern.push_str(chars::get_line(tokenizer).trim());
+    let line = chars::get_line(tokenizer).trim().to_string();
+    pattern.push_str(line.as_str());
     for entry in glob(&pattern).expect("Failed to read glob pattern") {
         match entry {
             Ok(path) => {
@@ -39,6 +40,10 @@ pub(super) fn parse(tokenizer: &mut Tokenizer) -> Result<ParsedLedger, Error> {
             Err(e) => eprintln!("{:?}", e),
         }
     }
+    // A pattern may match nothing, but a file has to exist
+    if files.is_empty() && !line.contains(|c| (c == '*') | (c == '?') | (c == '[')) {
+        return Err(tokenizer.error(ParserError::CannotReadFile(line)));
+    }
     let mut items: ParsedLedger = ParsedLedger::new();
     for file in files {
         let mut inner_tokenizer: Tokenizer = Tokenizer::from(&file);
-- 
2.43.0


From e7232bbdecb0fcfadeec148d3d053b6a04e386f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:40 +0000
Subject: [PATCH 56/61] fix: ordering values of different kinds, such as dates
 and strings, was false instead of an error

---
 src/parser/value_expr.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/value_expr.rs b/src/parser/value_expr.rs
index 247636b..cc39f8b 100644
--- a/src/parser/value_expr.rs
+++ b/src/parser/value_expr.rs
@@ -277,6 +277,11 @@ pub fn eval(
                     _ => EvalResult::Boolean(left == right),
                 },
                 Binary::Ne => EvalResult::Boolean(left != right),
+                Binary::Lt | Binary::Gt | Binary::Ge | Binary::Le
+                    if left.partial_cmp(&right).is_none() =>
+                {
+                    panic!("Can't compare {:?} and {:?}", left, right)
+                }
                 Binary::Lt => EvalResult::Boolean(left < right),
                 Binary::Gt => EvalResult::Boolean(left > right),
                 Binary::Ge => EvalResult::Boolean(left >= right),
-- 
2.43.0


From 017c10d2f6e416011492668ca9f3db5e97cdabc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:14 +0000
Subject: [PATCH 57/61] fix: amounts without commodity could not have a cost or
 a balance

---
 src/parser/tokenizers/transaction.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index f457990..1f66aad 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -403,7 +403,12 @@ fn parse_money(tokenizer: &mut Tokenizer) -> Result<(BigRational, String), Parse
                     return Err(e);
                 }
             };
-            currency = parse_currency(tokenizer)?;
+            chars::consume_whitespaces(tokenizer);
+            currency = match tokenizer.get_char() {
+                // There is no commodity, but a cost or a balance
+                Some('@') | Some('=') => String::new(),
+                _ => parse_currency(tokenizer)?,
+            };
             if currency.starts_with("\"") {
                 let n = currency.len();
                 currency = currency[1..n - 1].to_string();
-- 
2.43.0


From ca4c88ffe5d3bcdcb2dbaf15920da627877883f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:55 +0000
Subject: [PATCH 58/61] fix: a transaction with nothing after its date needed a
 trailing blank

---
 src/grammar/grammar.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/grammar/grammar.pest b/src/grammar/grammar.pest
index f466d13..a2fbac7 100644
--- a/src/grammar/grammar.pest
+++ b/src/grammar/grammar.pest
@@ -10,12 +10,12 @@ commodity = { "commodity" ~ ws+ ~ currency ~ ws* ~ comment? ~ end}
 transaction = {
     date ~ (ws ~ time)? ~          // date
     ("=" ~ date ~ (ws ~ time)?)? ~  // effective_date
-    ws+ ~ status? ~                // status
+    ((ws+ ~ status? ~              // status
     ws* ~ code?                    // code
     ~ ws* ~ description            // description
     ~ ws* ~ ("|" ~ ws*~payee)?     // payee
     ~ws* ~ comment?                // comment
-    ~ end }
+    ~ end) | end) }
 
 code = { "(" ~ string ~ ")" }
 status = { "*"| "!" }
-- 
2.43.0


From 0432dbf8b884ec7a0830bc83b27b6615075de294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:59 +0000
Subject: [PATCH 59/61] fix: trailing blanks were part of comments, and so of
 the values of tags

---
 src/parser/tokenizers/comment.rs     | 2 +-
 src/parser/tokenizers/transaction.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/tokenizers/comment.rs b/src/parser/tokenizers/comment.rs
index 27e9061..15d75c5 100644
--- a/src/parser/tokenizers/comment.rs
+++ b/src/parser/tokenizers/comment.rs
@@ -30,6 +30,6 @@ pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Comment {
     tokenizer.line_position += 1;
     chars::consume_whitespaces(tokenizer);
     return Comment {
-        comment: chars::get_line(tokenizer),
+        comment: chars::get_line(tokenizer).trim_end().to_string(),
     };
 }
diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index 1f66aad..9409b5a 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -54,7 +54,7 @@ fn parse_with_grammar(tokenizer: &mut Tokenizer) -> Result<Transaction<RawPostin
     }
     if next_item.as_rule() == Rule::comment {
         transaction.comments.push(Comment {
-            comment: parse_string(next_item)[1..].trim_start().to_string(),
+            comment: parse_string(next_item)[1..].trim().to_string(),
         });
     }
 
-- 
2.43.0


From 2e9744e418db466df43c7eb619fe12304a791682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:39 +0000
Subject: [PATCH 60/61] fix: do not put dots after short descriptions with
 accents

The length of the description was compared in bytes, so one that fits in its
column got the two dots of those that are cut.
---
 src/commands/register.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/commands/register.rs b/src/commands/register.rs
index 5fecc64..f006a89 100644
--- a/src/commands/register.rs
+++ b/src/commands/register.rs
@@ -128,7 +128,7 @@ pub fn execute(options: &CommonOpts) -> Result<(), Error> {
 }
 
 fn clip(string: &String, width: usize) -> String {
-    if string.len() < width - 3 {
+    if string.chars().count() < width - 3 {
         string.to_string()
     } else {
         let mut ret = String::new();
-- 
2.43.0


From efce8efdbe0fff66171514e3c1648f35cce26176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:57 +0000
Subject: [PATCH 61/61] fix: a second directive for a payee or an account adds
 its patterns

The aliases were added as names only, so they were not searched for as
patterns, and the patterns of an account for unknown payees were lost.
---
 src/list.rs           | 14 ++++++++++----
 src/models/account.rs |  3 +++
 src/models/mod.rs     |  2 ++
 src/models/payee.rs   |  3 +++
 4 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/list.rs b/src/list.rs
index 0543480..12b6c14 100644
--- a/src/list.rs
+++ b/src/list.rs
@@ -39,11 +39,12 @@ impl<'a, T: Eq + Hash + HasName + Clone + FromDirective + HasAliases + Debug> Li
     /// Inserts an ```element``` in the list
     pub fn insert(&mut self, element: T) {
         self.matches.clear();
-        let found = self.list.get(&element.get_name().to_lowercase());
+        let found = self.list.get_mut(&element.get_name().to_lowercase());
         match found {
-            Some(_) => {
+            Some(first) => {
                 // The first definition stays, but these are also names for it
                 eprintln!("Duplicate element: {:?}", element);
+                Rc::make_mut(first).add_patterns(&element);
                 let name = element.get_name().to_lowercase();
                 for alias in element.get_aliases().iter() {
                     self.aliases.insert(alias.to_lowercase(), name.clone());
@@ -138,12 +139,17 @@ impl<'a, T: Eq + Hash + HasName + Clone + FromDirective + HasAliases + Debug> Li
     }
 }
 
-impl<T: Clone> List<T> {
+impl<T: Clone + HasAliases> List<T> {
     pub fn append(&mut self, other: &List<T>) {
         self.matches.clear();
         for (name, element) in other.list.iter() {
             // As in insert, the first definition stays
-            self.list.entry(name.clone()).or_insert(element.clone());
+            match self.list.get_mut(name) {
+                Some(first) => Rc::make_mut(first).add_patterns(element),
+                None => {
+                    self.list.insert(name.clone(), element.clone());
+                }
+            }
         }
         self.aliases.extend(other.to_owned().aliases.into_iter());
     }
diff --git a/src/models/account.rs b/src/models/account.rs
index 08a7893..fc3b277 100644
--- a/src/models/account.rs
+++ b/src/models/account.rs
@@ -94,6 +94,9 @@ impl HasAliases for Account {
     fn get_aliases(&self) -> &HashSet<String, RandomState> {
         &self.aliases
     }
+    fn add_patterns(&mut self, other: &Self) {
+        self.payee.extend(other.payee.iter().cloned());
+    }
 }
 
 impl Hash for Account {
diff --git a/src/models/mod.rs b/src/models/mod.rs
index 6a02fa0..a2c2897 100644
--- a/src/models/mod.rs
+++ b/src/models/mod.rs
@@ -487,6 +487,8 @@ pub trait HasName {
 
 pub trait HasAliases {
     fn get_aliases(&self) -> &HashSet<String>;
+    /// Adds what another definition of the same element says about its payees
+    fn add_patterns(&mut self, _other: &Self) {}
 }
 
 pub trait FromDirective {
diff --git a/src/models/payee.rs b/src/models/payee.rs
index 6f6e25e..7f10863 100644
--- a/src/models/payee.rs
+++ b/src/models/payee.rs
@@ -74,6 +74,9 @@ impl HasAliases for Payee {
     fn get_aliases(&self) -> &HashSet<String, RandomState> {
         &self.alias
     }
+    fn add_patterns(&mut self, other: &Self) {
+        self.alias_regex.extend(other.alias_regex.iter().cloned());
+    }
 }
 
 impl FromDirective for Payee {
-- 
2.43.0

