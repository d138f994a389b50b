From 075c6f0bf84a2c24cdd7b8d1a29c9f3d999a2a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:32 +0000
Subject: [PATCH 01/42] fix: drop the whitespace before a comment together with
 the comment

A comment after an envelope header such as the README's
`expense thing due every Monday  // weekly` left trailing whitespace that
made the weekday, date or starting date unreadable, and a comment line of
its own inside an envelope panicked.
---
 src/utils.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 9e369a7..bb9e6fe 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -20,6 +20,7 @@ pub fn remove_comments(s: &str) -> &str {
         }
     }
 
-    // return a substring from the beginning up to the index at which the comment begins
-    if let Some(i) = cut_index { &s[..i] } else { s }
+    // return a substring from the beginning up to the index at which the comment begins, without
+    // the whitespace that separates the comment from what comes before it
+    if let Some(i) = cut_index { s[..i].trim_end() } else { s }
 }
-- 
2.43.0


From acae38624a3b09386dab018226e659f1c7f3c0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:24 +0000
Subject: [PATCH 02/42] fix: report an entry header without a status instead of
 panicking

---
 src/entry.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/entry.rs b/src/entry.rs
index 76b36fd..06e6749 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -177,7 +177,14 @@ impl Entry {
         };
 
         // parse status
-        let status = header_tokens[1].parse::<EntryStatus>()?;
+        let status = if let Some(t) = header_tokens.get(1) {
+            t.parse::<EntryStatus>()?
+        } else {
+            return Err(ParseError {
+                message: Some("silverfox requires statuses on entries, but there isn't one here".to_string()),
+                context: Some(clean_header.to_string()),
+            });
+        };
 
         // parse description_and_payee
         let description_and_payee: &str = &header_tokens[2..].join(" ");
-- 
2.43.0


From cf52a41a9d244855383b22f401f56ecebb7e5037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:26 +0000
Subject: [PATCH 03/42] fix: report a payee whose closing bracket comes first
 instead of panicking

---
 src/entry.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entry.rs b/src/entry.rs
index 06e6749..5f925d4 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -189,7 +189,7 @@ impl Entry {
         // parse description_and_payee
         let description_and_payee: &str = &header_tokens[2..].join(" ");
         let (description, payee) = if let Some(i) = description_and_payee.find('[') {
-            if let Some(j) = description_and_payee.rfind(']') {
+            if let Some(j) = description_and_payee.rfind(']').filter(|j| *j > i) {
                 // both brackets exist, so take everything before the opening bracket as the
                 // description and everything in the brackets as the payee
                 // yeah, this means anything after the closing bracket won't be included :/
-- 
2.43.0


From 1f1b2d80eec9340709051ab71b2257fc961a0982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:27 +0000
Subject: [PATCH 04/42] fix: count a blank posting in the balance when it is
 the account's first

---
 src/ledger/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index f9821de..d744b79 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -242,12 +242,13 @@ impl Ledger {
                     }
                 } else {
                     // if the posting amount exists, set an AmountPool from the amount as the
-                    // key's value. otherwise, use an AmountPool from a zero Amount.
+                    // key's value. otherwise, use an AmountPool from the entry's blank Amount.
                     if let Some(a) = posting_amount {
                         totals_map.insert(posting_account.to_owned(), AmountPool::from(a.clone()));
                     } else {
+                        let blank_amount = entry.get_blank_amount()?.unwrap_or(Amount::zero());
                         totals_map
-                            .insert(posting_account.to_owned(), AmountPool::from(Amount::zero()));
+                            .insert(posting_account.to_owned(), AmountPool::from(blank_amount));
                     }
                 }
             }
-- 
2.43.0


From 5e7430a798dfa8c55abee702f3fe6c9da5639c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:28 +0000
Subject: [PATCH 05/42] fix: keep envelope postings out of balances, blank
 amounts and the register

Envelope postings only move money between the available amount and
envelopes, but they were added to the account's balance and to register
lines, and were subtracted when inferring a blank posting.
---
 src/entry.rs      | 16 +++++++++-------
 src/ledger/mod.rs |  3 ++-
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/entry.rs b/src/entry.rs
index 5f925d4..0d1c54b 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -229,7 +229,7 @@ impl Entry {
                 // if any of the native amounts are None, the calculation fails and this function
                 // returns an error
                 let mut blank_amount = Amount::zero();
-                for posting in &self.postings {
+                for posting in self.postings.iter().filter(|p| p.is_classic()) {
                     if let Some(v) = posting.get_original_native_value() {
                         blank_amount.mag -= v
                     } else {
@@ -248,8 +248,9 @@ currency's worth in your native currency.").set_context(&self.as_full_string());
                 Ok(Some(blank_amount))
             } else {
                 // for each posting, subtract that posting's amount from the blank amount (as long as
-                // `posting` doesn't have a blank amount)
-                let mut iter = self.postings.iter();
+                // `posting` doesn't have a blank amount). envelope postings are virtual, so they
+                // don't count
+                let mut iter = self.postings.iter().filter(|p| p.is_classic());
 
                 // get starting blank amount by finding the first non-blank amount and then
                 // negating it
@@ -289,7 +290,7 @@ currency's worth in your native currency.").set_context(&self.as_full_string());
     fn validate(&self, context: &str) -> Result<(), ValidationError> {
         let mut blank_amounts = 0;
         let mut symbol_set = HashSet::new();
-        for posting in &self.postings {
+        for posting in self.postings.iter().filter(|p| p.is_classic()) {
             // does amount exist?
             if let Some(a) = posting.get_amount() {
                 // if so, add its symbol to the set if it exists
@@ -380,8 +381,8 @@ currency's worth in your native currency.").set_context(&self.as_full_string());
         if self.postings.is_empty() {
             false
         } else {
-            let mut iter = self.postings.iter();
-            let symbol_to_match = if let Some(p) = iter.find(|&p| p.get_amount().is_some()) {
+            let mut iter = self.postings.iter().filter(|p| p.is_classic());
+            let symbol_to_match = if let Some(p) = iter.find(|p| p.get_amount().is_some()) {
                 if let Some(a) = p.get_amount() {
                     a.symbol.clone()
                 } else {
@@ -430,7 +431,8 @@ currency's worth in your native currency.").set_context(&self.as_full_string());
             let mut negative_names = HashSet::new();
             let mut focused_amount = AmountPool::new();
 
-            for p in &self.postings {
+            // envelope postings are virtual, so they don't count
+            for p in self.postings.iter().filter(|p| p.is_classic()) {
                 let name = p.get_account();
                 let amount = if let Some(a) = p.get_amount() {
                     a.clone()
diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index d744b79..44beed5 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -223,7 +223,8 @@ impl Ledger {
 
         // read: for each posting in the ledger, add its amount to its account in totals_map
         for entry in &self.entries {
-            for posting in entry.get_postings() {
+            // envelope postings are virtual, so they don't count
+            for posting in entry.get_postings().iter().filter(|p| p.is_classic()) {
                 let posting_amount = posting.get_amount();
                 let posting_account = posting.get_account();
                 // if the account key exists, just add to it. if it doesn't exist, insert a new
-- 
2.43.0


From b12820fca70cbcd7521b3e0797581968704005c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:30 +0000
Subject: [PATCH 06/42] fix: report an entry with nothing but a blank posting
 instead of panicking

---
 src/entry.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/entry.rs b/src/entry.rs
index 0d1c54b..7be3cb0 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -309,6 +309,14 @@ currency's worth in your native currency.").set_context(&self.as_full_string());
             }
         }
 
+        // a blank amount can only be inferred from other amounts
+        let other_amounts = self.postings.iter().filter(|p| p.is_classic()).count() - blank_amounts;
+        if blank_amounts > 0 && other_amounts == 0 {
+            return Err(ValidationError::default()
+                .set_message("silverfox can't infer the amount of a blank posting when there are no other amounts")
+                .set_context(context));
+        }
+
         // if there's a blank amount but the currencies aren't consistent, we can't infer the
         // blank's amount; there's a way around this that will be worked out in the future, but for
         // now it will be unsupported: TODO
-- 
2.43.0


From 5d7a1d2c14f4dc2449c324de7ebccbb73efdc390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:31 +0000
Subject: [PATCH 07/42] fix: refuse entries whose postings don't sum to zero

Entry::validate promises that an entry is balanced but never checked it.
---
 src/entry.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/entry.rs b/src/entry.rs
index 7be3cb0..08cf4b1 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -324,6 +324,25 @@ currency's worth in your native currency.").set_context(&self.as_full_string());
             return Err(ValidationError::default().set_message("silverfox can't infer the amount of a blank posting when other postings have mixed currencies").set_context(context));
         }
 
+        // without a blank amount, amounts of a single currency need to sum to zero, give or take
+        // what is lost by rounding them to eight decimals
+        if blank_amounts == 0 && !self.has_mixed_currencies() {
+            let mut sum = 0.0;
+            let mut tolerance = 0.0;
+            for posting in self.postings.iter().filter(|p| p.is_classic()) {
+                if let Some(a) = posting.get_amount() {
+                    sum += a.mag;
+                    tolerance += 1e-8 + a.mag.abs() * 1e-12;
+                }
+            }
+
+            if sum.abs() > tolerance {
+                return Err(ValidationError::default()
+                    .set_message("this entry isn't balanced; the sum of its postings should be zero")
+                    .set_context(context));
+            }
+        }
+
         Ok(())
     }
 
-- 
2.43.0


From 16323b0ae38eeb0b65eadf01400d98f114a871be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:32 +0000
Subject: [PATCH 08/42] fix: refuse envelope postings to accounts that aren't
 defined

---
 src/posting.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/posting.rs b/src/posting.rs
index 86ec071..ac9ec69 100644
--- a/src/posting.rs
+++ b/src/posting.rs
@@ -29,7 +29,7 @@ impl EnvelopePosting {
     pub fn parse(
         line: &str,
         decimal_symbol: char,
-        _accounts: &HashSet<&String>,
+        accounts: &HashSet<&String>,
     ) -> Result<Self, ParseError> {
         let mut tokens = line.split_whitespace().skip(1);
 
@@ -42,6 +42,15 @@ impl EnvelopePosting {
             });
         };
 
+        if !accounts.contains(&account_name) {
+            return Err(ParseError {
+                message: Some(format!(
+                    "the account `{account_name}` is not defined in your journal"
+                )),
+                context: Some(line.to_string()),
+            });
+        }
+
         let envelope_name = if let Some(e) = tokens.next() {
             String::from(e)
         } else {
-- 
2.43.0


From 38cfffea3dd997b604b8606cc73ef04196fa4bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:33 +0000
Subject: [PATCH 09/42] fix: report envelope postings in a foreign currency
 instead of panicking

---
 src/envelope.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index d53cfd5..631d0cf 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -607,14 +607,13 @@ impl Envelope {
     /// and amounts), as well as the envelope's last_entry_date
     pub fn process_entry(&mut self, entry: &Entry) -> Result<(), ProcessingError> {
         if entry.has_envelope_posting() {
-            self.process_manual_postings(entry);
-            Ok(())
+            self.process_manual_postings(entry)
         } else {
             self.infer(entry)
         }
     }
 
-    fn process_manual_postings(&mut self, entry: &Entry) {
+    fn process_manual_postings(&mut self, entry: &Entry) -> Result<(), ProcessingError> {
         // manual envelopes
         for posting in entry.get_envelope_postings() {
             // process each envelope posting in the entry
@@ -628,10 +627,22 @@ impl Envelope {
 
                     let amount = envelope_posting.get_amount();
 
+                    if amount.symbol != self.amount.symbol {
+                        let message = format!(
+                            "the envelope `{}` in `{}` uses a different currency than this envelope posting",
+                            self.name, self.account
+                        );
+                        return Err(ProcessingError::default()
+                            .set_message(&message)
+                            .set_context(&entry.as_full_string()));
+                    }
+
                     self.apply_amount(amount, *entry.get_date());
                 }
             }
         }
+
+        Ok(())
     }
 
     fn infer(&mut self, entry: &Entry) -> Result<(), ProcessingError> {
-- 
2.43.0


From 4b37247b180db95a4446f360f0dc0b6cc43213f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:34 +0000
Subject: [PATCH 10/42] fix: infer envelope movements from postings with a
 native cost

The converted amount kept its foreign symbol, so adding it panicked.
---
 src/envelope.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/envelope.rs b/src/envelope.rs
index 631d0cf..b6293ed 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -711,6 +711,7 @@ envelope. hopefully that all makes sense!", self.name, self.account);
                     });
                 } else if let Some(m) = posting.get_original_native_value() {
                     amount_to_add.mag = m;
+                    amount_to_add.symbol = None;
                 } else {
                     return Err(ProcessingError::default()
                                                                     .set_message(
-- 
2.43.0


From 547c147a11c719bd1287576c1fcad75c809e5f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:36 +0000
Subject: [PATCH 11/42] fix: put refunds back into an envelope instead of
 draining it

The sum of the postings to an envelope's accounts is negative for a refund;
its absolute value is what should be compared.
---
 src/envelope.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/envelope.rs b/src/envelope.rs
index b6293ed..2ceff32 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -733,6 +733,7 @@ envelope. hopefully that all makes sense!", self.name, self.account);
         // the minimum of the absolute values of auto_postings_sum and self_account_postings_sum
         let abs_min_mag = auto_postings_sum
             .mag
+            .abs()
             .min(self_account_postings_sum.mag.abs());
 
         // only apply an amount if the magnitude to add is worth something
-- 
2.43.0


From 99043225b998a5e219d3cff08ee22c263ba8a472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:12 +0000
Subject: [PATCH 12/42] fix: find the last due date of monthly envelopes around
 short months

Envelopes due on the 29th, 30th or 31st panicked or got a wrong last due
date when the month before the next due date was of a different length.
---
 src/envelope.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 2ceff32..41acd13 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -211,8 +211,8 @@ impl Frequency {
             match self {
                 Self::Weekly(_) => Some(next_date - chrono::Duration::days(7)),
                 Self::Biweekly(_) => Some(next_date - chrono::Duration::days(14)),
-                Self::Monthly(_) => Some(Self::subtract_months(next_date, 1)),
-                Self::Bimonthly(_) => Some(Self::subtract_months(next_date, 2)),
+                Self::Monthly(day) => Some(Self::subtract_months_to_day(next_date, 1, *day)),
+                Self::Bimonthly(d) => Some(Self::subtract_months_to_day(next_date, 2, d.day())),
                 Self::Annually(d) => Some(d.with_year(d.year() - 1).unwrap()),
                 _ => None,
             }
@@ -236,7 +236,21 @@ impl Frequency {
             new_year -= 1;
         }
 
-        NaiveDate::from_ymd_opt(new_year, new_month0 as u32 + 1, date.day()).unwrap()
+        // if the day doesn't exist in the new month, use the last day of the month
+        NaiveDate::from_ymd_opt(new_year, new_month0 as u32 + 1, date.day()).unwrap_or_else(|| {
+            Self::get_last_date_of_month(
+                NaiveDate::from_ymd_opt(new_year, new_month0 as u32 + 1, 1).unwrap(),
+            )
+        })
+    }
+
+    /// Subtracts months from the date and moves to the day of that month, or to the month's last
+    /// day if the month doesn't have that day.
+    fn subtract_months_to_day(date: NaiveDate, num: i32, day: u32) -> NaiveDate {
+        let subtracted = Self::subtract_months(date, num);
+        subtracted
+            .with_day(day)
+            .unwrap_or_else(|| Self::get_last_date_of_month(subtracted))
     }
 
     // this function is pretty long, so we should probably break it into smaller functions
-- 
2.43.0


From c48977ed22b5e4a566bff2aacaded42944c234ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:13 +0000
Subject: [PATCH 13/42] fix: move on to the next due date on the day an
 every-other-month envelope is due

Every other frequency's next due date is after today.
---
 src/envelope.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 41acd13..cdebed0 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -296,7 +296,7 @@ impl Frequency {
                     // brute force method until we find something better to do...
                     let day_of_month = starting_date.day();
                     let mut date = *starting_date;
-                    while date < today {
+                    while date <= today {
                         let month0_plus_two = date.month0() + 2;
                         let new_year = date.year() + month0_plus_two as i32 / 12;
                         let new_month = (month0_plus_two % 12) + 1; // + 1 so it's one-based
-- 
2.43.0


From 4d6ad41e8d9dfc8618e15b3fedf0e8232c72bcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:14 +0000
Subject: [PATCH 14/42] fix: don't skip the starting date of an
 every-other-week envelope

---
 src/envelope.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/envelope.rs b/src/envelope.rs
index cdebed0..3daf375 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -281,6 +281,10 @@ impl Frequency {
                 // the same weekday as `w` itself
 
                 // if starting date is after today, use that
+                if starting_date > &today {
+                    return Some(*starting_date);
+                }
+
                 let duration_passed = today.signed_duration_since(*starting_date);
                 let periods_passed = duration_passed.num_weeks() / 2;
                 let next = *starting_date + chrono::Duration::weeks((periods_passed + 1) * 2);
-- 
2.43.0


From fff95dd4cffbd8120886d9856a520375212bc91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:16 +0000
Subject: [PATCH 15/42] fix: keep yearly envelopes due every year

The next due date was stuck on the year after the starting date, the last
due date on the year before it, and February 29th panicked.
---
 src/envelope.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 3daf375..33a0a00 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -213,7 +213,7 @@ impl Frequency {
                 Self::Biweekly(_) => Some(next_date - chrono::Duration::days(14)),
                 Self::Monthly(day) => Some(Self::subtract_months_to_day(next_date, 1, *day)),
                 Self::Bimonthly(d) => Some(Self::subtract_months_to_day(next_date, 2, d.day())),
-                Self::Annually(d) => Some(d.with_year(d.year() - 1).unwrap()),
+                Self::Annually(d) => Some(Self::anniversary(*d, next_date.year() - 1)),
                 _ => None,
             }
         } else {
@@ -324,12 +324,24 @@ impl Frequency {
                 if starting_date > &today {
                     Some(*starting_date)
                 } else {
-                    starting_date.with_year(starting_date.year() + 1)
+                    let this_year = Self::anniversary(*starting_date, today.year());
+                    if this_year > today {
+                        Some(this_year)
+                    } else {
+                        Some(Self::anniversary(*starting_date, today.year() + 1))
+                    }
                 }
             }
         }
     }
 
+    /// Returns the date's anniversary in the year, which is the last day of February for February
+    /// 29th in years without one.
+    fn anniversary(date: NaiveDate, year: i32) -> NaiveDate {
+        date.with_year(year)
+            .unwrap_or_else(|| NaiveDate::from_ymd_opt(year, 2, 28).unwrap())
+    }
+
     /// Returns the last day of the date's month
     fn get_last_date_of_month(date: NaiveDate) -> NaiveDate {
         NaiveDate::from_ymd_opt(date.year(), date.month() + 1, 1)
-- 
2.43.0


From 9179abe2b8955e071ad7bcdfd01684e7ead3fdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:17 +0000
Subject: [PATCH 16/42] fix: ignore due dates before an envelope's starting
 date

Money saved for the first due date counted as ready long before it.
---
 src/envelope.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 33a0a00..cad9e8d 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -795,7 +795,7 @@ envelope. hopefully that all makes sense!", self.name, self.account);
             self.now_amount += amount.clone();
         } else if amount.mag > 0.0 {
             // add to an envelope, depending on the date
-            if let Some(d) = self.freq.get_last_due_date() {
+            if let Some(d) = self.get_last_due_date() {
                 if date < d {
                     // anything before the last due date is ready
                     self.now_amount += amount.clone();
@@ -918,6 +918,13 @@ envelope. hopefully that all makes sense!", self.name, self.account);
         Some(starting_date.max(freq_next_date))
     }
 
+    /// Returns the last due date, if there has been one since the starting date.
+    fn get_last_due_date(&self) -> Option<NaiveDate> {
+        self.freq
+            .get_last_due_date()
+            .filter(|d| self.starting_date.is_none_or(|s| *d >= s))
+    }
+
     pub fn get_freq(&self) -> &Frequency {
         &self.freq
     }
-- 
2.43.0


From 0bc551db3bce130d69855b0dbf60eda72adb8f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:18 +0000
Subject: [PATCH 17/42] fix: don't make up a due date from the starting date

An envelope with no date, or whose one due date has passed, took its
starting date for a coming due date and was funded for it.
---
 src/envelope.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index cad9e8d..05a2e65 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -909,13 +909,9 @@ envelope. hopefully that all makes sense!", self.name, self.account);
             return self.freq.get_next_due_date();
         };
 
-        let freq_next_date = if let Some(d) = self.freq.get_next_due_date() {
-            d
-        } else {
-            return Some(starting_date);
-        };
-
-        Some(starting_date.max(freq_next_date))
+        self.freq
+            .get_next_due_date()
+            .map(|freq_next_date| starting_date.max(freq_next_date))
     }
 
     /// Returns the last due date, if there has been one since the starting date.
-- 
2.43.0


From 955189ca8a504dfa1f322d6aa0288b7d37e8af2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:19 +0000
Subject: [PATCH 18/42] fix: don't fund an envelope twice a day when entries
 aren't in order

---
 src/envelope.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 05a2e65..9050df0 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -810,7 +810,11 @@ envelope. hopefully that all makes sense!", self.name, self.account);
             }
         }
 
-        self.last_transaction_date = date;
+        // entries aren't necessarily in order of date, so once the envelope was affected today, that
+        // needs to stick
+        if self.last_transaction_date != Local::now().date_naive() {
+            self.last_transaction_date = date;
+        }
     }
 
     pub fn get_type(&self) -> &EnvelopeType {
-- 
2.43.0


From be3725453705c28f569e99eddf0b928dcf584c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:06 +0000
Subject: [PATCH 19/42] fix: change back to the previous directory after
 reading a file

A relative journal path with a directory could be read but not written to,
and includes or csv files named after it weren't found.
---
 src/ledger/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index 44beed5..8d9f4e1 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -57,10 +57,18 @@ impl Ledger {
 
         // change directory to parent after reading to string, and before parsing
         let parent_dir = file_path.parent().unwrap();
+        let previous_dir = std::env::current_dir();
 
         std::env::set_current_dir(parent_dir).unwrap_or(());
 
-        self.add_from_str(&s)
+        let result = self.add_from_str(&s);
+
+        // change back, so that other relative paths keep their meaning
+        if let Ok(d) = previous_dir {
+            std::env::set_current_dir(d).unwrap_or(());
+        }
+
+        result
     }
 
     /// Adds to the ledger from the contents parsed from the string
-- 
2.43.0


From dea4a7bb196bf177808e8d4fb2527f329b3e469d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:08 +0000
Subject: [PATCH 20/42] fix: refuse a journal that includes itself instead of
 overflowing the stack

---
 src/ledger/mod.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index 8d9f4e1..290f715 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -23,6 +23,9 @@ pub struct Ledger {
     accounts: HashMap<String, Account>,
     default_currency: String,
     decimal_symbol: char,
+
+    /// The files being read right now, from the main file to the innermost included one.
+    files_being_read: Vec<PathBuf>,
 }
 
 impl Ledger {
@@ -35,6 +38,7 @@ impl Ledger {
             accounts: HashMap::new(),
             default_currency: String::new(),
             decimal_symbol: '.',
+            files_being_read: Vec::new(),
         }
     }
 
@@ -55,6 +59,17 @@ impl Ledger {
         let s = fs::read_to_string(file_path)
             .map_err(|e| SilverfoxError::file_error(PathBuf::from(file_path), e))?;
 
+        // a file can't include itself, not even through other files
+        let full_path = fs::canonicalize(file_path)
+            .map_err(|e| SilverfoxError::file_error(PathBuf::from(file_path), e))?;
+        if self.files_being_read.contains(&full_path) {
+            return Err(SilverfoxError::from(ParseError {
+                message: Some(format!("`{}` includes itself", file_path.display())),
+                context: None,
+            }));
+        }
+        self.files_being_read.push(full_path);
+
         // change directory to parent after reading to string, and before parsing
         let parent_dir = file_path.parent().unwrap();
         let previous_dir = std::env::current_dir();
@@ -62,6 +77,7 @@ impl Ledger {
         std::env::set_current_dir(parent_dir).unwrap_or(());
 
         let result = self.add_from_str(&s);
+        self.files_being_read.pop();
 
         // change back, so that other relative paths keep their meaning
         if let Ok(d) = previous_dir {
-- 
2.43.0


From 34af52b813ace86ce783ec7ee465a991ed678405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:09 +0000
Subject: [PATCH 21/42] fix: refuse rules that include themselves instead of
 overflowing the stack

---
 src/importer.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/importer.rs b/src/importer.rs
index 5db8033..1a2f737 100644
--- a/src/importer.rs
+++ b/src/importer.rs
@@ -96,6 +96,9 @@ struct Rules {
     skip: i32,
     status: String,
     subrules: Vec<Subrules>,
+
+    /// The included rules files being read right now.
+    files_being_read: Vec<PathBuf>,
 }
 
 impl Default for Rules {
@@ -116,6 +119,7 @@ impl Default for Rules {
             skip: 1,
             status: String::from("~"),
             subrules: Default::default(),
+            files_being_read: Default::default(),
         }
     }
 }
@@ -134,7 +138,21 @@ impl Rules {
         let s = fs::read_to_string(rules_file)
             .map_err(|e| SilverfoxError::file_error(rules_file, e))?;
 
-        self.add_from_str(&s)
+        // a file can't include itself, not even through other files
+        let full_path = fs::canonicalize(rules_file)
+            .map_err(|e| SilverfoxError::file_error(rules_file, e))?;
+        if self.files_being_read.contains(&full_path) {
+            return Err(SilverfoxError::from(ParseError {
+                message: Some(format!("`{}` includes itself", rules_file.display())),
+                context: None,
+            }));
+        }
+
+        self.files_being_read.push(full_path);
+        let result = self.add_from_str(&s);
+        self.files_being_read.pop();
+
+        result
     }
 
     fn add_from_str(&mut self, s: &str) -> Result<(), SilverfoxError> {
-- 
2.43.0


From 4553c40fef29f705348210fe7b0f90016087dc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:11 +0000
Subject: [PATCH 22/42] fix: never append an entry that can't be read back

An imported record with an undefined account, postings that aren't balanced
or can't be inferred, an unclosed bracket or a line break made an entry that
silverfox wrote but then refused to read, along with the whole journal.
---
 src/ledger/mod.rs | 55 +++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 53 insertions(+), 2 deletions(-)

diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index 290f715..a5c1a83 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -207,17 +207,68 @@ impl Ledger {
 
     /// Appends the entry to the file of the Ledger, then internally adds the Entry itself to the
     /// Ledger.
+    ///
+    /// What is added to the Ledger is the Entry as it will be read from the file the next time, so
+    /// that an Entry which can't be read again is never written.
     fn append_entry(&mut self, entry: Entry) -> Result<(), SilverfoxError> {
+        let text = entry.as_parsable(&self.date_format);
+        let written_entry = self.read_back(&entry, &text)?;
+        self.add_entry(written_entry)?;
+
         let mut file = match fs::OpenOptions::new().append(true).open(&self.file_path) {
             Ok(f) => f,
             Err(e) => return Err(SilverfoxError::file_error(&self.file_path, e)),
         };
 
-        if let Err(e) = write!(file, "\n{}", entry.as_parsable(&self.date_format)) {
+        if let Err(e) = write!(file, "\n{text}") {
             return Err(SilverfoxError::Basic(format!("{e}")));
         }
 
-        self.add_entry(entry)
+        Ok(())
+    }
+
+    /// Parses the text of an entry in the same way it'll be parsed once it's in the journal. Returns
+    /// an error if that doesn't give the date and postings of the entry.
+    fn read_back(&self, entry: &Entry, text: &str) -> Result<Entry, SilverfoxError> {
+        let is_one_chunk = text
+            .lines()
+            .enumerate()
+            .all(|(i, line)| line.starts_with(char::is_whitespace) == (i > 0));
+
+        if is_one_chunk {
+            let chunk = text
+                .lines()
+                .map(|line| utils::remove_comments(line.trim_end()))
+                .collect::<Vec<&str>>()
+                .join("\n");
+            let accounts = self.accounts.keys().collect();
+            let parsed = Entry::parse(&chunk, &self.date_format, self.decimal_symbol, &accounts)?;
+
+            let is_same_posting = |(p, q): (&Posting, &Posting)| {
+                let is_same_amount = match (p.get_amount(), q.get_amount()) {
+                    // amounts are rounded when they're written
+                    (Some(a), Some(b)) => {
+                        a.symbol == b.symbol
+                            && (a.mag - b.mag).abs() <= 1e-8 + a.mag.abs() * 1e-12
+                    }
+                    (a, b) => a.is_none() && b.is_none(),
+                };
+                is_same_amount && p.get_account() == q.get_account()
+            };
+
+            if parsed.get_date() == entry.get_date()
+                && parsed.get_postings().len() == entry.get_postings().len()
+                && parsed.get_postings().iter().zip(entry.get_postings()).all(is_same_posting)
+            {
+                return Ok(parsed);
+            }
+        }
+
+        Err(SilverfoxError::from(
+            ValidationError::default()
+                .set_message("this entry can't be added to your journal, because it would be read differently from there")
+                .set_context(text),
+        ))
     }
 
     fn parse_account(&mut self, chunk: &str) -> Result<(), SilverfoxError> {
-- 
2.43.0


From 53d340c18d051b8a5f1689b7dda99f1faff3fa8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:20 +0000
Subject: [PATCH 23/42] fix: report that the register can't be displayed
 instead of panicking

This happens whenever the output isn't a terminal.
---
 src/flags.rs      | 2 +-
 src/ledger/mod.rs | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/flags.rs b/src/flags.rs
index eae16d7..1059aa4 100644
--- a/src/flags.rs
+++ b/src/flags.rs
@@ -92,7 +92,7 @@ impl CommandFlags {
         match self.subcommand {
             Subcommand::Balance => ledger.display_flat_balance()?,
             Subcommand::Envelopes => ledger.display_envelopes(),
-            Subcommand::Register => ledger.display_register(self.begin_date, self.end_date, None),
+            Subcommand::Register => ledger.display_register(self.begin_date, self.end_date, None)?,
             Subcommand::Import => {
                 if let Some(c) = &self.csv_file {
                     return ledger.import_csv(c, self.rules_file.as_ref());
diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index a5c1a83..90add74 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -407,7 +407,7 @@ impl Ledger {
         begin_date: Option<NaiveDate>,
         end_date: Option<NaiveDate>,
         account_match: Option<String>,
-    ) {
+    ) -> Result<(), SilverfoxError> {
         Register::display(
             &self.entries,
             &self.date_format,
@@ -415,7 +415,6 @@ impl Ledger {
             end_date,
             account_match,
         )
-        .unwrap();
     }
 }
 
-- 
2.43.0


From f7459663ecaf4ed79e9851b1413d8e63a0ca50d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:22 +0000
Subject: [PATCH 24/42] fix: substitute csv fields in one pass

Field values that look like variables were substituted again or not,
depending on the order of a hash map.
---
 src/importer.rs | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/importer.rs b/src/importer.rs
index 1a2f737..58b01e5 100644
--- a/src/importer.rs
+++ b/src/importer.rs
@@ -497,16 +497,40 @@ impl Rules {
     }
 
     fn inject_variables(s: &str, variables: &HashMap<String, String>) -> String {
-        let mut result = String::from(s);
+        let mut result = String::new();
+        let mut rest = s;
+
+        // go through the string only once, so that values are never taken for variables
+        while let Some(i) = rest.find('%') {
+            result.push_str(&rest[..i]);
+            rest = &rest[i..];
+
+            let variable = Self::leading_variable(rest, variables);
+            if let Some((v_name, v_value)) = variable {
+                result.push_str(v_value);
+                rest = &rest[v_name.len() + 2..];
+            } else {
+                result.push('%');
 
-        for (v_name, v_value) in variables.iter() {
-            result = result.replace(format!("%{v_name}%").as_str(), v_value);
+                // literal %
+                let is_escaped = rest.starts_with("%%")
+                    && Self::leading_variable(&rest[1..], variables).is_none();
+                rest = &rest[if is_escaped { 2 } else { 1 }..];
+            }
         }
 
-        result = result.replace("%%", "%"); // literal %
-
+        result.push_str(rest);
         result
     }
+
+    /// If `s` starts with a variable (`%name%`), returns its name and value.
+    fn leading_variable<'a>(
+        s: &str,
+        variables: &'a HashMap<String, String>,
+    ) -> Option<(&'a String, &'a String)> {
+        let s = s.strip_prefix('%')?;
+        variables.get_key_value(&s[..s.find('%')?])
+    }
 }
 
 #[derive(Clone, Debug, Default, PartialEq)]
-- 
2.43.0


From cd7ed9c881b97073c8cb1f6b3621aa18298190fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:23 +0000
Subject: [PATCH 25/42] fix: split rules at the first whitespace by byte, not
 by character

Rules with characters longer than a byte before the first whitespace, or
without a value after it, panicked.
---
 src/importer.rs | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/importer.rs b/src/importer.rs
index 58b01e5..5aa0694 100644
--- a/src/importer.rs
+++ b/src/importer.rs
@@ -214,9 +214,9 @@ impl Rules {
 
             if line.starts_with("if") {
                 parsing_subrules = Some(Subrules::from(&*self));
-                if let Some(i) = line.chars().position(|c| c.is_whitespace()) {
+                if let Some((_, pattern)) = line.split_once(char::is_whitespace) {
                     if let Some(s) = parsing_subrules.as_mut() {
-                        s.patterns.push(String::from(&line[i + 1..]))
+                        s.patterns.push(String::from(pattern))
                     } else {
                         unreachable!()
                     }
@@ -235,11 +235,9 @@ impl Rules {
     }
 
     fn add_from_line(&mut self, mut line: &str) -> Result<(), SilverfoxError> {
-        line = line.trim_start();
+        line = line.trim();
 
-        let split_index = if let Some(i) = line.chars().position(|c| c.is_whitespace()) {
-            i
-        } else {
+        let Some((rule_name, rule_value)) = line.split_once(char::is_whitespace) else {
             return Err(SilverfoxError::from(ParseError {
                 message: Some(format!(
                     "this rule has no value. use `-` if you want to discard a value:\n\n{} -",
@@ -249,13 +247,8 @@ impl Rules {
             }));
         };
 
-        // the first token is the rule name
-        let rule_name = &line[..split_index];
-
-        // the rest of the line is the value
-        let rule_value = String::from(&line[split_index + 1..])
-            .trim_start()
-            .to_string();
+        // the first token is the rule name, and the rest of the line is the value
+        let rule_value = rule_value.trim_start().to_string();
 
         if rule_value.trim() == "-" {
             // resets a value
-- 
2.43.0


From d764ede81982cdebf06294ed72285272ed536544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:25 +0000
Subject: [PATCH 26/42] fix: refuse date formats that can't be used to write
 dates

Displaying or adding an entry with such a format panicked.
---
 src/ledger/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index 90add74..484e01a 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -156,6 +156,15 @@ impl Ledger {
 
     fn set_date_format(&mut self, date_format: Option<&str>) -> Result<(), SilverfoxError> {
         if let Some(d) = date_format {
+            // make sure that dates can be written with it, too
+            let mut written = String::new();
+            if std::fmt::write(&mut written, format_args!("{}", NaiveDate::default().format(d))).is_err() {
+                return Err(SilverfoxError::from(ParseError {
+                    context: Some(d.to_string()),
+                    message: Some("this isn't a format for dates".to_string()),
+                }));
+            }
+
             self.date_format = d.into();
             Ok(())
         } else {
-- 
2.43.0


From 0f5a0b30b3798e544e9b1cdecf5c9bbdd7d6f6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:26 +0000
Subject: [PATCH 27/42] fix: report arguments that aren't unicode instead of
 panicking

---
 src/flags.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/flags.rs b/src/flags.rs
index 1059aa4..326e1ea 100644
--- a/src/flags.rs
+++ b/src/flags.rs
@@ -19,7 +19,16 @@ pub struct CommandFlags {
 
 impl CommandFlags {
     pub fn parse_from_env() -> Result<Self, SilverfoxError> {
-        let mut args = env::args();
+        let mut args = env::args_os()
+            .map(|a| a.into_string())
+            .collect::<Result<Vec<String>, _>>()
+            .map_err(|a| {
+                SilverfoxError::Basic(format!(
+                    "silverfox can't read this argument: `{}`",
+                    a.to_string_lossy()
+                ))
+            })?
+            .into_iter();
 
         // parse subcommand
         let subcommand = if let Some(a) = args.nth(1) {
-- 
2.43.0


From 7916913110379d0c5847e431e9cb5b7d5a7d0791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:20 +0000
Subject: [PATCH 28/42] fix: skip to the first due date that isn't before an
 envelope's starting date

---
 src/envelope.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 9050df0..22532c3 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -256,7 +256,11 @@ impl Frequency {
     // this function is pretty long, so we should probably break it into smaller functions
     /// Calculates and returns the next due date based on this Frequency.
     pub fn get_next_due_date(&self) -> Option<NaiveDate> {
-        let today = Local::now().date_naive();
+        self.get_next_due_date_after(Local::now().date_naive())
+    }
+
+    /// Calculates and returns the first due date after the day given.
+    fn get_next_due_date_after(&self, today: NaiveDate) -> Option<NaiveDate> {
         match self {
             Self::Never => None,
             Self::Once(date) => {
@@ -907,15 +911,12 @@ envelope. hopefully that all makes sense!", self.name, self.account);
     }
 
     fn get_next_due_date(&self) -> Option<NaiveDate> {
-        let starting_date = if let Some(d) = self.starting_date {
-            d
-        } else {
-            return self.freq.get_next_due_date();
-        };
+        let today = Local::now().date_naive();
 
+        // due dates before the starting date don't count
+        let day_before_start = self.starting_date.and_then(|d| d.pred_opt());
         self.freq
-            .get_next_due_date()
-            .map(|freq_next_date| starting_date.max(freq_next_date))
+            .get_next_due_date_after(day_before_start.map_or(today, |d| d.max(today)))
     }
 
     /// Returns the last due date, if there has been one since the starting date.
-- 
2.43.0


From edcf35477fb0b2ef595ffe72e520e5938f3df4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:58 +0000
Subject: [PATCH 29/42] fix: don't write envelope moves that round to zero

---
 src/amount.rs     | 2 +-
 src/ledger/mod.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/amount.rs b/src/amount.rs
index bba4973..08a58ff 100644
--- a/src/amount.rs
+++ b/src/amount.rs
@@ -75,7 +75,7 @@ impl Amount {
         !is_mag_char(c, decimal_symbol) && c != '.' && c != ','
     }
 
-    fn rounded_mag(&self) -> f64 {
+    pub fn rounded_mag(&self) -> f64 {
         (self.mag * 100_000_000.0).round() / 100_000_000.0
     }
 }
diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index 484e01a..64f809d 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -357,10 +357,10 @@ impl Ledger {
             postings.append(&mut account.get_filling_postings())
         }
 
-        // remove zero-magnitude postings, they're useless
+        // remove zero-magnitude postings, they're useless (also if they're zero once written)
         postings.retain(|p| {
             if let Some(a) = p.get_amount() {
-                a.mag != 0.0
+                a.rounded_mag() != 0.0
             } else {
                 false
             }
-- 
2.43.0


From e8286431c7743425ab49a0658ec55ad4f76f5ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:57 +0000
Subject: [PATCH 30/42] fix: refuse starting dates too far away to calculate
 due dates

A starting date around the year 262143 made silverfox panic.
---
 src/envelope.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 22532c3..8650f4f 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -610,11 +610,12 @@ impl Envelope {
         let date_idx = starting_idx + " starting ".len();
 
         match NaiveDate::parse_from_str(&s[date_idx..], date_format) {
-            Ok(d) => {
+            // due dates can't be calculated from years that are too far away
+            Ok(d) if (0..=9999).contains(&d.year()) => {
                 let result = Some((d, starting_idx));
                 Ok(result)
             }
-            Err(_) => {
+            _ => {
                 let message =
                     format!("couldn't parse starting date `{s}` with format `{date_format}`");
 
-- 
2.43.0


From aa7cb25fdbd8ae6cdb9b000ad57fbcce8aa1b7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:02 +0000
Subject: [PATCH 31/42] fix: don't panic in the register over very long texts

---
 src/ledger/register.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/ledger/register.rs b/src/ledger/register.rs
index ef8848e..9927438 100644
--- a/src/ledger/register.rs
+++ b/src/ledger/register.rs
@@ -167,10 +167,10 @@ fn print_lines(maximums: &MaximumLens, register_data: &[EntryRegisterData], _con
                 rd.description,
                 rd.account_flow.0,
                 rd.account_flow.1,
-                date_len = maximums.date,
-                description_len = maximums.description,
-                from_acct_len = maximums.long_from_account,
-                to_acct_len = maximums.long_to_account,
+                date_len = column(maximums.date),
+                description_len = column(maximums.description),
+                from_acct_len = column(maximums.long_from_account),
+                to_acct_len = column(maximums.long_to_account),
             );
 
             // TODO: Have Amount::display handle formatting arguments
@@ -179,8 +179,8 @@ fn print_lines(maximums: &MaximumLens, register_data: &[EntryRegisterData], _con
                 "{:>amount_len$}  {:>running_total_len$}",
                 format!("{}", first_amount),
                 format!("{}", running_total.only(&first_amount.symbol)),
-                amount_len = maximums.amount,
-                running_total_len = maximums.running_total,
+                amount_len = column(maximums.amount),
+                running_total_len = column(maximums.running_total),
             );
 
             let prelude_space = spaces(prelude.len());
@@ -190,14 +190,19 @@ fn print_lines(maximums: &MaximumLens, register_data: &[EntryRegisterData], _con
                     prelude_space,
                     format!("{}", amount),
                     format!("{}", running_total.only(&amount.symbol)),
-                    amount_len = maximums.amount,
-                    running_total_len = maximums.running_total,
+                    amount_len = column(maximums.amount),
+                    running_total_len = column(maximums.running_total),
                 );
             }
         }
     }
 }
 
+/// The width of a column for texts of the length given. Formatting doesn't allow wider ones.
+fn column(len: usize) -> usize {
+    len.min(u16::MAX.into())
+}
+
 fn spaces(n: usize) -> String {
     " ".repeat(n)
 }
-- 
2.43.0


From 567cdbf7aefbc5eb3df4b38d1590f7dade5e0023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:19 +0000
Subject: [PATCH 32/42] fix: ignore rounding errors in the register

---
 src/amount.rs | 4 ++--
 src/entry.rs  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/amount.rs b/src/amount.rs
index 08a58ff..ee33953 100644
--- a/src/amount.rs
+++ b/src/amount.rs
@@ -367,14 +367,14 @@ impl AmountPool {
     }
 
     /// Returns true if either (a) the pool is empty, or (b) all amounts in the pool have zero
-    /// magnitiude.
+    /// magnitiude (once rounded, because sums of decimals aren't exact).
     pub fn is_zero(&self) -> bool {
         if self.is_empty() {
             return true;
         }
 
         for amt in &self.pool {
-            if amt.mag != 0.0 {
+            if amt.rounded_mag() != 0.0 {
                 return false;
             }
         }
diff --git a/src/entry.rs b/src/entry.rs
index 08cf4b1..04c568c 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -467,9 +467,9 @@ currency's worth in your native currency.").set_context(&self.as_full_string());
                     self.get_blank_amount()?.unwrap()
                 };
 
-                if amount.mag > 0.0 {
+                if amount.rounded_mag() > 0.0 {
                     positive_names.insert(name);
-                } else if amount.mag < 0.0 {
+                } else if amount.rounded_mag() < 0.0 {
                     negative_names.insert(name);
                 }
 
-- 
2.43.0


From fe621d2143022a6d2646ad2139f169cb59e735fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:02 +0000
Subject: [PATCH 33/42] fix: don't distort large amounts when rounding them

---
 src/amount.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/amount.rs b/src/amount.rs
index ee33953..32b65ed 100644
--- a/src/amount.rs
+++ b/src/amount.rs
@@ -76,7 +76,12 @@ impl Amount {
     }
 
     pub fn rounded_mag(&self) -> f64 {
-        (self.mag * 100_000_000.0).round() / 100_000_000.0
+        if self.mag.abs() < 10_000_000.0 {
+            (self.mag * 100_000_000.0).round() / 100_000_000.0
+        } else {
+            // multiplying would make large amounts less exact
+            format!("{:.8}", self.mag).parse().unwrap_or(self.mag)
+        }
     }
 }
 
-- 
2.43.0


From 884ec4e93ad013d58d3744b1938497ddb988a986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:15 +0000
Subject: [PATCH 34/42] fix: leave no rounding errors for another run to move
 to envelopes

---
 src/envelope.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 8650f4f..fac9759 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -894,7 +894,11 @@ envelope. hopefully that all makes sense!", self.name, self.account);
     /// Returns a posting with this Envelope's fill amount for the day. `account` is passed so that
     /// the program can determine how much money we have available.
     pub fn get_filling_posting(&self, account_available_value: &AmountPool) -> EnvelopePosting {
-        let amount = self.get_filling_amount(&account_available_value.only(&self.amount.symbol));
+        let mut amount =
+            self.get_filling_amount(&account_available_value.only(&self.amount.symbol));
+
+        // move exactly what will be written, so that nothing is left over for another run
+        amount.mag = amount.rounded_mag();
 
         EnvelopePosting::new(self.account.clone(), amount, self.name.clone())
     }
-- 
2.43.0


From 0969078c592350fa3b5297b84ae9ed51b23712d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:41 +0000
Subject: [PATCH 35/42] fix: don't double the size of the import rules with
 every if block

---
 src/importer.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/importer.rs b/src/importer.rs
index 5aa0694..77e1719 100644
--- a/src/importer.rs
+++ b/src/importer.rs
@@ -544,7 +544,12 @@ impl From<&Rules> for Subrules {
     fn from(other: &Rules) -> Self {
         Self {
             patterns: Default::default(),
-            rules: other.clone(),
+            rules: Rules {
+                // the subrules before these didn't apply, and copying them would double the rules
+                // with every `if`
+                subrules: Default::default(),
+                ..other.clone()
+            },
         }
     }
 }
-- 
2.43.0


From 43943cb6051fee83cb5d34fb1c2148bcf797bb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:33 +0000
Subject: [PATCH 36/42] fix: don't mix up two days when a run goes on past
 midnight

---
 src/envelope.rs   | 10 +++++-----
 src/ledger/mod.rs |  4 ++--
 src/utils.rs      | 10 ++++++++++
 3 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index fac9759..128d713 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -5,7 +5,7 @@ use crate::errors::ProcessingError;
 use crate::posting::{EnvelopePosting, Posting};
 use crate::utils;
 use chrono::prelude::*;
-use chrono::{Local, NaiveDate};
+use chrono::NaiveDate;
 use std::cmp::Ordering;
 use std::collections::HashSet;
 use std::fmt;
@@ -256,7 +256,7 @@ impl Frequency {
     // this function is pretty long, so we should probably break it into smaller functions
     /// Calculates and returns the next due date based on this Frequency.
     pub fn get_next_due_date(&self) -> Option<NaiveDate> {
-        self.get_next_due_date_after(Local::now().date_naive())
+        self.get_next_due_date_after(utils::today())
     }
 
     /// Calculates and returns the first due date after the day given.
@@ -817,7 +817,7 @@ envelope. hopefully that all makes sense!", self.name, self.account);
 
         // entries aren't necessarily in order of date, so once the envelope was affected today, that
         // needs to stick
-        if self.last_transaction_date != Local::now().date_naive() {
+        if self.last_transaction_date != utils::today() {
             self.last_transaction_date = date;
         }
     }
@@ -846,7 +846,7 @@ envelope. hopefully that all makes sense!", self.name, self.account);
             return zero_amount;
         };
 
-        let today = Local::now().date_naive();
+        let today = utils::today();
         let remaining_amount = self.get_remaining_next_amount();
 
         if self.last_transaction_date == today {
@@ -916,7 +916,7 @@ envelope. hopefully that all makes sense!", self.name, self.account);
     }
 
     fn get_next_due_date(&self) -> Option<NaiveDate> {
-        let today = Local::now().date_naive();
+        let today = utils::today();
 
         // due dates before the starting date don't count
         let day_before_start = self.starting_date.and_then(|d| d.pred_opt());
diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index 64f809d..8be50db 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -5,7 +5,7 @@ use crate::errors::*;
 use crate::importer::CsvImporter;
 use crate::posting::Posting;
 use crate::utils;
-use chrono::{Local, NaiveDate};
+use chrono::NaiveDate;
 use std::collections::HashMap;
 use std::fmt::Debug;
 use std::fmt::Formatter;
@@ -372,7 +372,7 @@ impl Ledger {
         }
 
         let entry = Entry::new(
-            Local::now().date_naive(),
+            utils::today(),
             crate::entry::EntryStatus::Cleared,
             String::from("move to envelopes"),
             None,
diff --git a/src/utils.rs b/src/utils.rs
index bb9e6fe..9a5d7e7 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1,3 +1,13 @@
+use chrono::{Local, NaiveDate};
+use std::sync::OnceLock;
+
+/// Returns today's date. It's the same for as long as silverfox runs, so that a run around midnight
+/// doesn't mix up two days.
+pub fn today() -> NaiveDate {
+    static TODAY: OnceLock<NaiveDate> = OnceLock::new();
+    *TODAY.get_or_init(|| Local::now().date_naive())
+}
+
 pub fn remove_comments(s: &str) -> &str {
     // get indices
     let double_slash_index = s.find("//");
-- 
2.43.0


From 994aca860ccf6aa3feb47151bae67f72eb6a4812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:51 +0000
Subject: [PATCH 37/42] fix: don't ignore journals in the environment whose
 paths aren't unicode

---
 src/flags.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flags.rs b/src/flags.rs
index 326e1ea..74fb216 100644
--- a/src/flags.rs
+++ b/src/flags.rs
@@ -200,9 +200,9 @@ fn parse_argument_value(arg: Option<String>, name: &str) -> Result<String, Silve
 }
 
 fn get_file_from_env() -> Option<PathBuf> {
-    if let Ok(v) = env::var("SILVERFOX_FILE") {
+    if let Some(v) = env::var_os("SILVERFOX_FILE") {
         Some(PathBuf::from(v))
-    } else if let Ok(v) = env::var("LEDGER_FILE") {
+    } else if let Some(v) = env::var_os("LEDGER_FILE") {
         Some(PathBuf::from(v))
     } else {
         None
-- 
2.43.0


From b768aaef89666a2882f61d3d3d7daa4b08c0a67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:30 +0000
Subject: [PATCH 38/42] fix: accept any single character as decimal_symbol
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The length check counted bytes, so a symbol such as `·` or `٫` was refused
as not being a single character.
---
 src/importer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/importer.rs b/src/importer.rs
index 77e1719..93854a4 100644
--- a/src/importer.rs
+++ b/src/importer.rs
@@ -302,7 +302,7 @@ impl Rules {
                 "date_format" => self.date_format = rule_value,
                 "date" => self.date_str = rule_value,
                 "decimal_symbol" | "decimal" => {
-                    if rule_value.len() > 1 {
+                    if rule_value.chars().count() > 1 {
                         return Err(SilverfoxError::from(ParseError {
                             message: Some(
                                 "decimal_symbol should be a single character".to_string(),
-- 
2.43.0


From 0996bdf382ba802d4e55bf8bddb0b3944fdb75c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:34 +0000
Subject: [PATCH 39/42] fix: defining an account again doesn't lose its money
 and envelopes

---
 src/account.rs    | 9 +++++++++
 src/ledger/mod.rs | 8 +++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/account.rs b/src/account.rs
index e783319..c674164 100644
--- a/src/account.rs
+++ b/src/account.rs
@@ -132,6 +132,15 @@ impl Account {
         }
     }
 
+    /// Adds the envelopes of another definition of this account.
+    pub fn add_envelopes_from(&mut self, other: Self) -> Result<(), ValidationError> {
+        for envelope in other.expense_envelopes.into_iter().chain(other.goal_envelopes) {
+            self.add_envelope(envelope)?;
+        }
+
+        Ok(())
+    }
+
     /// Processes the Entry by looking for any changes to envelope amounts and applying them. Also
     /// adds to the real_value of the Account.
     pub fn process_entry(&mut self, entry: &Entry) -> Result<(), ProcessingError> {
diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index 8be50db..fe21375 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -282,7 +282,13 @@ impl Ledger {
 
     fn parse_account(&mut self, chunk: &str) -> Result<(), SilverfoxError> {
         let a = Account::parse(chunk, self.decimal_symbol, &self.date_format)?;
-        self.accounts.insert(a.get_name().to_string(), a);
+
+        // if the account is already defined, it keeps its money and its envelopes
+        if let Some(existing) = self.accounts.get_mut(a.get_name()) {
+            existing.add_envelopes_from(a)?;
+        } else {
+            self.accounts.insert(a.get_name().to_string(), a);
+        }
 
         Ok(())
     }
-- 
2.43.0


From 055178d8aa1761127b49c37f1f44060504fa7964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:31 +0000
Subject: [PATCH 40/42] fix: only the word `if` begins a condition in import
 rules

Any unknown rule that happened to begin with these letters (`iff`, `ifnot`) silently
became a condition, together with the rules after it, instead of being refused.
---
 src/importer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/importer.rs b/src/importer.rs
index 93854a4..f5408a7 100644
--- a/src/importer.rs
+++ b/src/importer.rs
@@ -212,7 +212,7 @@ impl Rules {
                 }
             }
 
-            if line.starts_with("if") {
+            if line.split(char::is_whitespace).next() == Some("if") {
                 parsing_subrules = Some(Subrules::from(&*self));
                 if let Some((_, pattern)) = line.split_once(char::is_whitespace) {
                     if let Some(s) = parsing_subrules.as_mut() {
-- 
2.43.0


From c7d91dd59bfcea55496277ec2b13b063c25078a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:56 +0000
Subject: [PATCH 41/42] fix: a tab may separate the name of an envelope's
 property from its value

`amount<tab>100` was refused as blank, and of `amount<tab>100 EUR` only the currency was read.
---
 src/envelope.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 128d713..717561d 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -490,7 +490,7 @@ impl Envelope {
 
             // get the index of the first space (because that's where the values begins)
 
-            let Some(idx) = trimmed_line.find(' ') else {
+            let Some(idx) = trimmed_line.find(char::is_whitespace) else {
                 let message = format!(
                     "the property `{}` to an envelope (`{}` in {}) is blank",
                     line_split[0], self.name, account_name
-- 
2.43.0


From d855ebc9f395db5d41cb83ef4cdd68d6d209aa94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:21 +0000
Subject: [PATCH 42/42] fix: an included file may have spaces in its path

Of `include my files/a.sfox` only `my` was looked for, while rules files could be included so.
---
 src/ledger/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index fe21375..ca90f35 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -136,7 +136,13 @@ impl Ledger {
             Some("account") => self.parse_account(chunk),
             Some("currency") => self.set_currency(value),
             Some("date_format") => self.set_date_format(value),
-            Some("include") => self.include(value),
+            // a path may have spaces in it
+            Some("include") => self.include(
+                chunk
+                    .trim()
+                    .split_once(char::is_whitespace)
+                    .map(|(_, file)| file.trim_start()),
+            ),
             Some(_) => self.parse_entry(chunk),
         }
     }
-- 
2.43.0

