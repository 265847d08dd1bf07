From 07f9a0d56480310b0991504f6c8da7a389d129dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:47 +0000
Subject: [PATCH 01/20] fix: Amount::inverse negates negative quantities and
 accepts bare amounts

The inverse of a negative amount was the same negative amount, so an elided
posting against a negative sum got the wrong sign. A null commodity pointer
was also turned into a reference.
---
 src/amount.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/amount.rs b/src/amount.rs
index 9e08c94..cdc83fc 100644
--- a/src/amount.rs
+++ b/src/amount.rs
@@ -79,10 +79,12 @@ impl Amount {
             x.set_sign_negative();
             x
         } else {
-            self.quantity
+            let mut x = self.quantity.clone();
+            x.set_sign_positive();
+            x
         };
 
-        unsafe { Amount::new(new_quantity, Some(&*self.commodity)) }
+        Amount::new(new_quantity, Some(self.commodity))
     }
 
     /// Inverts the sign on the amount.
-- 
2.43.0


From d70051a6d0322fd1bd781b70f9fbba8a61059944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:50 +0000
Subject: [PATCH 02/20] fix: do not dereference a null commodity when adding or
 multiplying amounts

---
 src/amount.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/amount.rs b/src/amount.rs
index cdc83fc..3e18eab 100644
--- a/src/amount.rs
+++ b/src/amount.rs
@@ -125,7 +125,7 @@ impl Add<Amount> for Amount {
 
         let sum = self.quantity + rhs.quantity;
 
-        unsafe { Amount::new(sum, Some(&*self.commodity)) }
+        Amount::new(sum, Some(self.commodity))
     }
 }
 
@@ -169,7 +169,7 @@ impl Mul<Amount> for Amount {
             self.commodity
         };
 
-        unsafe { Amount::new(quantity, Some(&*commodity)) }
+        Amount::new(quantity, Some(commodity))
     }
 }
 
-- 
2.43.0


From a269f0179fb3a25ce984dd7c898c410931701b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:52 +0000
Subject: [PATCH 03/20] fix: keep commodity addresses stable when the pool
 grows

Amounts and the price graph point at the commodities, which were stored by
value in the map and moved when it was rehashed.
---
 src/pool.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pool.rs b/src/pool.rs
index 719e69c..8903304 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -24,7 +24,7 @@ pub type CommodityIndex = NodeIndex;
 pub struct CommodityPool {
     /// Map (symbol, commodity)
     // pub(crate) commodities: HashMap<String, NodeIndex>,
-    pub(crate) commodities: HashMap<String, Commodity>,
+    pub(crate) commodities: HashMap<String, Box<Commodity>>,
     // pub(crate) commodities: HashMap<String, Rc<Commodity>>,
     /// Commodity annotations. symbol, annotation
     pub(crate) annotated_commodities: HashMap<String, Annotation>,
@@ -77,9 +77,9 @@ impl CommodityPool {
         }
 
         // move to map
-        self.commodities.insert(symbol.to_string(), c);
+        self.commodities.insert(symbol.to_string(), Box::new(c));
         // get the new address.
-        let new_commodity = self.commodities.get(symbol).unwrap();
+        let new_commodity: &Commodity = self.commodities.get(symbol).unwrap();
 
         // add to price history graph.
         let cdty_ptr = new_commodity as *const Commodity;
@@ -98,7 +98,7 @@ impl CommodityPool {
     }
 
     pub fn find(&self, symbol: &str) -> Option<&Commodity> {
-        self.commodities.get(symbol)
+        self.commodities.get(symbol).map(|c| c.as_ref())
     }
 
     pub fn find_index(&self, symbol: &str) -> Option<CommodityIndex> {
@@ -128,7 +128,7 @@ impl CommodityPool {
                     .insert(symbol.to_owned(), annotation.unwrap());
             }
 
-            c
+            c.as_ref()
         } else {
             self.create(symbol, annotation)
         }
-- 
2.43.0


From 5ea969f24258de8fe86b9eae8197219751787d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:08 +0000
Subject: [PATCH 04/20] fix: keep account addresses stable when siblings are
 added

Postings and child accounts point at the accounts, which were stored by value
in the map and moved when it was rehashed.
---
 src/account.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/account.rs b/src/account.rs
index 1fec747..cbe5192 100644
--- a/src/account.rs
+++ b/src/account.rs
@@ -12,7 +12,7 @@ pub struct Account {
     pub name: String,
     // note
     // depth
-    pub accounts: HashMap<String, Account>,
+    pub accounts: HashMap<String, Box<Account>>,
     pub posts: Vec<*const Post>,
     // deferred posts
     // value_expr
@@ -39,7 +39,7 @@ impl Account {
 
         let self_mut = self.get_account_mut(self as *const Account as *mut Account);
 
-        self_mut.accounts.insert(first.into(), new_account);
+        self_mut.accounts.insert(first.into(), Box::new(new_account));
 
         let Some(new_ref) = self.accounts.get(first)
             else {panic!("should not happen")};
@@ -100,7 +100,7 @@ impl Account {
     pub fn find_or_create(&self, name: &str, auto_create: bool) -> Option<*const Account> {
         // search for direct hit.
         if let Some(found) = self.accounts.get(name) {
-            return Some(found);
+            return Some(found.as_ref());
         }
 
         // otherwise search for name parts in between the `:`
@@ -120,7 +120,7 @@ impl Account {
 
         if let Some(account_opt) = self.accounts.get(first) {
             // keep this value
-            account = account_opt;
+            account = account_opt.as_ref();
         } else {
             if !auto_create {
                 return None;
@@ -174,7 +174,7 @@ impl Account {
         // Push the current node to the Vec
         nodes.push(self);
         // 
-        let mut children: Vec<&Account> = self.accounts.values().into_iter().collect();
+        let mut children: Vec<&Account> = self.accounts.values().map(|acc| acc.as_ref()).collect();
         children.sort_unstable_by_key(|acc| &acc.name);
         // If the node has children, recursively call flatten on them
         for child in children {
-- 
2.43.0


From 60612e4a603a41050d7694ef09e20573248c5862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:11 +0000
Subject: [PATCH 05/20] fix: looking up a missing sub-account returns None
 instead of panicking

---
 src/account.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/account.rs b/src/account.rs
index cbe5192..e36c56c 100644
--- a/src/account.rs
+++ b/src/account.rs
@@ -132,7 +132,7 @@ impl Account {
         // Search recursively.
         if !rest.is_empty() {
             let acct = self.get_account_mut(account);
-            account = acct.find_or_create(rest, auto_create).unwrap();
+            account = acct.find_or_create(rest, auto_create)?;
         }
 
         Some(account)
-- 
2.43.0


From afac404d67a97337cfdbcf3cf71cdab0fa9ce630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:55 +0000
Subject: [PATCH 06/20] fix: link the postings to the accounts once they do not
 move anymore

The accounts kept the addresses of postings inside a vector which was still
growing, so with five or more postings the account balances were read from
freed memory.
---
 src/parser.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index ae56776..d5d7a33 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -324,6 +324,9 @@ impl<'j, T: Read> Parser<'j, T> {
             self.buffer.clear();
         }
 
+        // All the Posts are in the Xact now and will not move. Link them to the Accounts.
+        link_posts_to_accounts(xact_ptr, self.journal);
+
         // "finalize" transaction
         crate::xact::finalize(xact_ptr, &mut self.journal);
 
@@ -449,7 +452,6 @@ fn parse_post(input: &str, xact_ptr: *const Xact, journal: &mut Journal) -> Resu
     let note = None;
 
     // Create Post, link Xact, Account, Commodity
-    let post_ref: &Post;
     {
         let post: Post;
         post = Post::new(account_ptr, xact_ptr, amount_opt, cost_option, note);
@@ -461,19 +463,25 @@ fn parse_post(input: &str, xact_ptr: *const Xact, journal: &mut Journal) -> Resu
             xact = &mut *(xact_ptr.cast_mut());
         }
         // xact.post_indices.push(post_index);
-        post_ref = xact.add_post(post);
-    }
-
-    // add Post to Account.posts
-    {
-        //let account = journal.accounts.get_mut(account_ptr).unwrap();
-        let account = journal.get_account_mut(account_ptr);
-        account.posts.push(post_ref);
+        xact.add_post(post);
     }
 
     Ok(())
 }
 
+/// Adds the Posts of the Xact to the Account.posts.
+/// To be called when the Xact is complete, because adding a Post can move the existing ones.
+fn link_posts_to_accounts(xact_ptr: *const Xact, journal: &Journal) {
+    let xact: &Xact;
+    unsafe {
+        xact = &*xact_ptr;
+    }
+    for post in &xact.posts {
+        let account = journal.get_account_mut(post.account);
+        account.posts.push(post);
+    }
+}
+
 fn parse_cost(
     tokens: &PostTokens,
     amount: &Option<Amount>,
-- 
2.43.0


From 983937392a50b1e4c287fbbd68007490b2f7a9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:58 +0000
Subject: [PATCH 07/20] fix: keep the postings' pointers to their transaction
 valid as the journal grows

---
 src/journal.rs | 13 +++++++++++++
 src/xact.rs    |  9 +++++++++
 2 files changed, 22 insertions(+)

diff --git a/src/journal.rs b/src/journal.rs
index 08b4a15..5d75632 100644
--- a/src/journal.rs
+++ b/src/journal.rs
@@ -36,7 +36,20 @@ impl Journal {
     }
 
     pub fn add_xact(&mut self, xact: Xact) -> &Xact {
+        // Growing the collection moves the existing transactions.
+        let first_moved = if self.xacts.len() == self.xacts.capacity() {
+            0
+        } else {
+            self.xacts.len()
+        };
+
         self.xacts.push(xact);
+
+        // Point the posts to the new location of their transactions.
+        for moved in &mut self.xacts[first_moved..] {
+            moved.relink_posts();
+        }
+
         //self.xacts.len() - 1
         self.xacts.last().unwrap()
     }
diff --git a/src/xact.rs b/src/xact.rs
index d7e879e..627f638 100644
--- a/src/xact.rs
+++ b/src/xact.rs
@@ -82,6 +82,15 @@ impl Xact {
 
         self.posts.last().unwrap()
     }
+
+    /// Updates the pointers to this Xact in the posts. Required when the Xact has been moved.
+    pub(crate) fn relink_posts(&mut self) {
+        let xact_ptr = self as *const Xact;
+
+        for post in &mut self.posts {
+            post.xact_ptr = xact_ptr;
+        }
+    }
 }
 
 impl Default for Xact {
-- 
2.43.0


From 6797aba9065c2bab09658322100d5555c5fe976c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:37 +0000
Subject: [PATCH 08/20] fix: scan the cost amount right after @ or @@

The scanner always skipped a character after the cost sign, so '@20 EUR' lost
the first digit and a multi-byte symbol panicked.
---
 src/scanner.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index 60d4007..b4af063 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -381,10 +381,10 @@ fn scan_cost(input: &str) -> CostTokens {
 
     let (first_char, is_per_unit) = if input.chars().nth(1) != Some('@') {
         // per-unit cost
-        (2, true)
+        (1, true)
     } else {
         // total cost
-        (3, false)
+        (2, false)
     };
     let input = &input[first_char..].trim_start();
     let (amount_tokens, input) = scan_amount(input);
-- 
2.43.0


From 5df370a43ed250df921dd9e1504310d93c95378d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:40 +0000
Subject: [PATCH 09/20] fix: accept a transaction header that ends right after
 the date

The date was only separated by a space, so the line end became a part of it
and parsing it panicked.
---
 src/scanner.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index b4af063..d8fa123 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -116,7 +116,7 @@ pub(crate) fn tokenize_xact_header(input: &str) -> [&str; 4] {
 ///
 /// returns the (date string, remaining string)
 fn scan_date(input: &str) -> (&str, &str) {
-    match input.find(|c| c == '=' || c == ' ') {
+    match input.find(|c: char| c == '=' || c.is_whitespace()) {
         Some(index) => {
             // offset = index;
             //date = &input[..index];
@@ -148,7 +148,7 @@ fn tokenize_aux_date(input: &str) -> (&str, &str) {
             let input = input.trim_start_matches('=');
 
             // find the next separator
-            match input.find(' ') {
+            match input.find(char::is_whitespace) {
                 Some(i) => return (&input[..i], &input[i..]),
                 None => return (input, ""),
             };
-- 
2.43.0


From 2d1bfc54cb396be6bc94ba1437e75b288a2055fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:43 +0000
Subject: [PATCH 10/20] fix: do not include the line end in the price
 directive's commodity

---
 src/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index d8fa123..d341c82 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -435,7 +435,7 @@ pub(crate) fn scan_price_directive(input: &str) -> [&str; 5] {
 }
 
 fn find_next_separator(input: &str) -> Option<usize> {
-    input.find(|c| c == ' ' || c == '\t')
+    input.find(char::is_whitespace)
 }
 
 fn scan_price_element(input: &str) -> (&str, &str) {
-- 
2.43.0


From dd5cf044067350963a45799de227733e88f4d981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:45 +0000
Subject: [PATCH 11/20] fix: basis cost is the final cost when the lot
 annotation has no price

---
 src/pool.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/pool.rs b/src/pool.rs
index 8903304..d775817 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -204,10 +204,8 @@ impl CommodityPool {
         };
 
         // "exchange: basis-cost    = "
-        if let Some(annotation) = annotation_opt {
-            if let Some(ann_price) = annotation.price {
-                breakdown.basis_cost = ann_price * (*amount);
-            }
+        if let Some(ann_price) = annotation_opt.and_then(|annotation| annotation.price) {
+            breakdown.basis_cost = ann_price * (*amount);
         } else {
             breakdown.basis_cost = breakdown.final_cost;
         }
-- 
2.43.0


From b66aefca83afef65fb3a52b2710cff8b421dce40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:48 +0000
Subject: [PATCH 12/20] fix: the date of a derived price is the least recent
 one also for future prices

---
 src/history.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/history.rs b/src/history.rs
index 1306cc5..410d4e5 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -155,7 +155,7 @@ impl CommodityHistory {
     fn calculate_rate(&self, source: CommodityIndex, target_ptr: *const Commodity, path: Vec<NodeIndex>) -> (NaiveDateTime, Quantity) {
         let mut result = Amount::new(Quantity::ONE, Some(target_ptr));
         let mut temp_source = source;
-        let mut least_recent: NaiveDateTime = Local::now().naive_local();
+        let mut least_recent: Option<NaiveDateTime> = None;
 
         // iterate through intermediate rates and calculate (multiply).
         for temp_target in path {
@@ -174,8 +174,8 @@ impl CommodityHistory {
                 .expect("price"); // , moment, oldest);
 
             // date
-            if temp_date < least_recent {
-                least_recent = temp_date;
+            if least_recent.is_none() || Some(temp_date) < least_recent {
+                least_recent = Some(temp_date);
             }
 
             // calculate the amount.
@@ -188,7 +188,7 @@ impl CommodityHistory {
             temp_source = temp_target;
         }
 
-        let when = least_recent;
+        let when = least_recent.unwrap_or_else(|| Local::now().naive_local());
 
         // TODO: add to the price map.
         // self.add_price(commodity_index, datetime, price);
-- 
2.43.0


From 55ac8d60e76dacec61153b150e9ad5dea862ab2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:50 +0000
Subject: [PATCH 13/20] fix: reject an invalid quantity instead of treating it
 as no amount

A posting like 'Assets  1,000 EUR' silently lost its amount.
---
 src/annotate.rs | 10 ++++++----
 src/parser.rs   | 12 ++++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/annotate.rs b/src/annotate.rs
index e7e917b..7d733f6 100644
--- a/src/annotate.rs
+++ b/src/annotate.rs
@@ -34,10 +34,12 @@ impl Annotation {
         // parse amount
         let commodity = journal.commodity_pool.find_or_create(commodity_symbol, None);
 
-        let price = if let Some(quantity) = Quantity::from_str(quantity) {
-            Some(Amount::new(quantity, Some(commodity)))
-        } else {
-            None
+        let price = match quantity.is_empty() {
+            true => None,
+            false => {
+                let quantity = Quantity::from_str(quantity).expect("quantity parsed");
+                Some(Amount::new(quantity, Some(commodity)))
+            }
         };
         
         let result = Self {
diff --git a/src/parser.rs b/src/parser.rs
index d5d7a33..353ad2a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -76,11 +76,15 @@ pub fn parse_amount_parts(
     // Create Commodity, add to collection
     let commodity_ptr = journal.commodity_pool.find_or_create(commodity, None);
 
-    if let Some(quantity) = Quantity::from_str(quantity) {
-        Some(Amount::new(quantity, Some(commodity_ptr)))
-    } else {
-        None
+    if quantity.is_empty() {
+        // no amount given
+        return None;
     }
+
+    let Some(quantity) = Quantity::from_str(quantity) else {
+        panic!("Invalid quantity {:?}", quantity);
+    };
+    Some(Amount::new(quantity, Some(commodity_ptr)))
 }
 
 pub(crate) struct Parser<'j, T: Read> {
-- 
2.43.0


From f4316c908a023ece6eac84ede24a7610b579dbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:53 +0000
Subject: [PATCH 14/20] fix: do not read the posting's note as an amount

The note after the account was scanned as an amount, a note after a bare number
became its commodity, and trailing spaces panicked.
---
 src/scanner.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index d341c82..6594fdf 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -215,7 +215,15 @@ pub(crate) fn scan_post(input: &str) -> PostTokens {
     // there's more content
 
     let account = &input[..sep_index];
-    let (amount_tokens, input) = scan_amount(&input[sep_index + 2..]);
+    let input = input[sep_index + 2..].trim_start();
+    if input.is_empty() || input.starts_with(';') {
+        // only a note, or nothing, follows the account.
+        let mut post_tokens = PostTokens::create_empty();
+        post_tokens.account = account;
+        return post_tokens;
+    }
+
+    let (amount_tokens, input) = scan_amount(input);
     let (annotation_tokens, input) = scan_annotations(input);
     let cost_tokens = match input.is_empty() {
         true => CostTokens::new(),
@@ -350,7 +358,7 @@ fn scan_symbol(input: &str) -> (&str, &str) {
 
     for (i, c) in input.char_indices() {
         // Return when a separator or a number is found.
-        if c.is_whitespace() || c == '@' || c.is_digit(10) || c == '-' {
+        if c.is_whitespace() || c == '@' || c == ';' || c.is_digit(10) || c == '-' {
             return (&input[..i], &input[i..].trim_start());
         }
     }
-- 
2.43.0


From 9786e19307337d33dd563cec539950b208dd017a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:55 +0000
Subject: [PATCH 15/20] fix: do not pass the executable name to the command
 processor

---
 src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 21b47eb..2d23a1a 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -6,7 +6,8 @@ use ledger_rs_lib;
 fn main() {
     println!("Hello, Ledger-rs!");
 
-    let args: Vec<String> = env::args().collect();
+    // Skip the name of the executable.
+    let args: Vec<String> = env::args().skip(1).collect();
     println!("You requested {:?}", args);
 
     // let args = read_command_arguments(args);
-- 
2.43.0


From f473d0af893c2dfe3f4d15c0029f559d22e887e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:30 +0000
Subject: [PATCH 16/20] fix: a posting without lot information does not occupy
 the commodity's lot annotation

---
 src/parser.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 353ad2a..1622ddc 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -442,10 +442,12 @@ fn parse_post(input: &str, xact_ptr: *const Xact, journal: &mut Journal) -> Resu
         // TODO: if the cost price is total (not per unit)
         // details.price /= amount
 
-        // store annotation
-        journal
-            .commodity_pool
-            .find_or_create(tokens.symbol, Some(annotation));
+        // store annotation, if there is any lot information.
+        if annotation.price.is_some() || annotation.date.is_some() {
+            journal
+                .commodity_pool
+                .find_or_create(tokens.symbol, Some(annotation));
+        }
     }
 
     // handle cost (2nd amount)
-- 
2.43.0


From 6f353437b9d2d68ecb468a3de0a0de1730469011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:33 +0000
Subject: [PATCH 17/20] fix: refuse a lone '-' instead of ignoring it

---
 src/option.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/option.rs b/src/option.rs
index 0ae6e8f..3f923ab 100644
--- a/src/option.rs
+++ b/src/option.rs
@@ -63,6 +63,10 @@ pub fn process_arguments(args: Vec<String>) -> (Vec<String>, InputOptions) {
         } else {
             // single-char option
 
+            if arg.len() == 1 {
+                panic!("illegal option {}", arg)
+            }
+
             let mut option_queue = vec![];
 
             // iterate through all characters and identify options,
-- 
2.43.0


From 622202b4566f556168eee89c9baeb15d4ddfc6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:22 +0000
Subject: [PATCH 18/20] hook: access to private items for the verification
 harness (cfg ledger_verif)

---
 src/lib.rs   |  2 ++
 src/verif.rs | 90 ++++++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 92 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/lib.rs b/src/lib.rs
index 8292147..31f5706 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -57,6 +57,8 @@ pub mod report;
 pub mod scanner;
 pub mod utilities;
 mod value;
+#[cfg(ledger_verif)]
+pub mod verif;
 pub mod xact;
 
 /// An entry point for the CLIs.
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..ac2dd40
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,90 @@
+/*!
+ * Access to crate-private items for the external verification harness.
+ * Compiled only with `--cfg ledger_verif`.
+ */
+
+pub use crate::annotate::Annotation;
+pub use crate::balance::Balance;
+
+use chrono::{NaiveDate, NaiveDateTime};
+use petgraph::visit::EdgeRef;
+
+use crate::{
+    account::Account,
+    amount::{Amount, Quantity},
+    commodity::Commodity,
+    pool::CommodityPool,
+};
+
+pub fn scan_post(input: &str) -> [String; 9] {
+    let t = crate::scanner::scan_post(input);
+    [
+        t.account.to_string(),
+        t.quantity.to_string(),
+        t.symbol.to_string(),
+        t.price_quantity.to_string(),
+        t.price_commodity.to_string(),
+        t.price_date.to_string(),
+        t.cost_quantity.to_string(),
+        t.cost_symbol.to_string(),
+        t.is_per_unit.to_string(),
+    ]
+}
+
+pub fn scan_header(input: &str) -> Vec<String> {
+    crate::scanner::tokenize_xact_header(input).iter().map(|s| s.to_string()).collect()
+}
+
+pub fn scan_price(input: &str) -> Vec<String> {
+    crate::scanner::scan_price_directive(input).iter().map(|s| s.to_string()).collect()
+}
+
+pub fn process_arguments(args: Vec<String>) -> (Vec<String>, Vec<String>) {
+    let (commands, options) = crate::option::process_arguments(args);
+    (commands, options.filenames)
+}
+
+/// All recorded prices: (source, target, time, quantity).
+pub fn prices(pool: &CommodityPool) -> Vec<(*const Commodity, *const Commodity, NaiveDateTime, Quantity)> {
+    let h = &pool.commodity_history;
+    let mut out = vec![];
+    for e in h.edge_references() {
+        for (t, q) in e.weight() {
+            out.push((h[e.source()], h[e.target()], *t, *q));
+        }
+    }
+    out
+}
+
+/// The nodes of the price history, in order.
+pub fn nodes(pool: &CommodityPool) -> Vec<*const Commodity> {
+    pool.commodity_history.node_weights().copied().collect()
+}
+
+pub fn find_price(
+    pool: &CommodityPool,
+    source: *const Commodity,
+    target: *const Commodity,
+    moment: NaiveDateTime,
+) -> Option<(NaiveDateTime, Amount)> {
+    pool.commodity_history
+        .find_price(source, target, moment, moment)
+        .map(|p| (p.when, p.price))
+}
+
+pub fn annotation(pool: &CommodityPool, symbol: &str) -> Option<(Option<Amount>, Option<NaiveDate>)> {
+    pool.annotated_commodities.get(symbol).map(|a| (a.price, a.date))
+}
+
+pub fn commodity_ptr(amount: &Amount) -> *const Commodity {
+    amount.commodity
+}
+
+pub fn parent_ptr(account: &Account) -> *const Account {
+    account.parent
+}
+
+/// The symbols of the pool.
+pub fn symbols(pool: &CommodityPool) -> Vec<String> {
+    pool.commodities.keys().cloned().collect()
+}
-- 
2.43.0


From d07060461b0f4173917341ff2b46155f3f769b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:42 +0000
Subject: [PATCH 19/20] fix: an account's full name is not empty in optimized
 builds

---
 src/account.rs | 23 ++++++-----------------
 1 file changed, 6 insertions(+), 17 deletions(-)

diff --git a/src/account.rs b/src/account.rs
index e36c56c..d207b91 100644
--- a/src/account.rs
+++ b/src/account.rs
@@ -2,7 +2,7 @@
  * Account definition and operations
  */
 
-use std::{collections::HashMap, ptr::addr_of, vec};
+use std::{cell::OnceCell, collections::HashMap, ptr::addr_of, vec};
 
 use crate::{balance::Balance, post::Post};
 
@@ -16,7 +16,7 @@ pub struct Account {
     pub posts: Vec<*const Post>,
     // deferred posts
     // value_expr
-    fullname: String,
+    fullname: OnceCell<String>,
 }
 
 impl Account {
@@ -27,7 +27,7 @@ impl Account {
             // note
             accounts: HashMap::new(),
             posts: vec![],
-            fullname: "".to_string(),
+            fullname: OnceCell::new(),
             // post_indices: vec![],
         }
     }
@@ -54,8 +54,8 @@ impl Account {
             return "";
         }
 
-        if !self.fullname.is_empty() {
-            return &self.fullname;
+        if let Some(known) = self.fullname.get() {
+            return known;
         }
 
         let mut fullname = self.name.to_owned();
@@ -70,18 +70,7 @@ impl Account {
             }
         }
 
-        self.set_fullname(fullname);
-
-        &self.fullname
-    }
-
-    fn set_fullname(&self, fullname: String) {
-        // alchemy?
-        // let ptr = self as *const Account;
-        let ptr = addr_of!(*self);
-        let subject = self.get_account_mut(ptr);
-
-        subject.fullname = fullname;
+        self.fullname.get_or_init(|| fullname)
     }
 
     /// Finds account by full name.
-- 
2.43.0


From fd2126a3c0fbbb0358bb9a7ef359849a47fc94af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:50 +0000
Subject: [PATCH 20/20] fix: lines of white space only between transactions

---
 src/parser.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 1622ddc..0fa57ae 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -146,7 +146,8 @@ impl<'j, T: Read> Parser<'j, T> {
         // }
         // let length = self.buffer.len();
         // log::debug!("line length: {:?}", length);
-        if self.buffer == "\r\n" || self.buffer == "\n" {
+        // blank lines, with or without white space
+        if self.buffer.trim().is_empty() {
             return Ok(());
         }
 
@@ -287,9 +288,9 @@ impl<'j, T: Read> Parser<'j, T> {
                     break;
                 }
                 Ok(_) => {
-                    if self.buffer.is_empty() {
-                        // panic!("Unexpected whitespace at the beginning of line!")
-                        todo!("Check what happens here")
+                    // a blank line, with or without white space, ends the transaction.
+                    if self.buffer.trim().is_empty() {
+                        break;
                     }
 
                     // parse line
-- 
2.43.0

