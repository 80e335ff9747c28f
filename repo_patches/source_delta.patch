From 9dab562811a06e1b0ddc62516a11e6a3fb4343bd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:56:46 +0000
Subject: [PATCH 01/69] fix: grow an account's balance at the rate of the year
 just ended

---
 forecaster/accounts/base.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/forecaster/accounts/base.py b/forecaster/accounts/base.py
index 6f4fc12..10f168e 100644
--- a/forecaster/accounts/base.py
+++ b/forecaster/accounts/base.py
@@ -227,12 +227,17 @@ class Account(TaxSource):
         # This method isn't hidden in __init__; it's assigned to (by a
         # setter defined via metaclass)
 
+        # The growth happened over the course of last year, so use last
+        # year's rate (which may differ from the rate for this year).
+        # pylint: disable=no-member
+        rate = self._rate_history[self.this_year - 1]
+
         # First, grow last year's initial balance based on the rate:
         balance = value_at_time(
             # pylint: disable=no-member
             # Pylint gets confused by attributes added by metaclass.
             self._balance_history[self.this_year - 1],
-            self.rate, 'start', 'end', nper=self.nper,
+            rate, 'start', 'end', nper=self.nper,
             high_precision=self.high_precision)
 
         # Then, grow each transactions and add it to the year-end total.
@@ -243,7 +248,7 @@ class Account(TaxSource):
         transactions_history = self._transactions_history
         for when, value in transactions_history[self.this_year - 1].items():
             balance += value_at_time(
-                value, self.rate, when, 'end', nper=self.nper,
+                value, rate, when, 'end', nper=self.nper,
                 high_precision=self.high_precision)
 
         return balance
-- 
2.43.0


From bfa12c2138b6f3ab02ba6cec3baa59bf09285b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:49 +0000
Subject: [PATCH 02/69] fix: adjust thresholds, not rates, when tax
 accumulations are asked for first

---
 forecaster/tax.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/forecaster/tax.py b/forecaster/tax.py
index 52b744e..88e77cd 100644
--- a/forecaster/tax.py
+++ b/forecaster/tax.py
@@ -215,10 +215,9 @@ class Tax(HighPrecisionOptional):
         # If we don't have this accum, we'll need to generate it.
         # add_brackets() does this for us.
         if year not in self._accum:
-            # Get the inflation-adjusted tax brackets for this year:
-            brackets = extend_inflation_adjusted(
-                self._tax_brackets, self.inflation_adjust, year)
-            self.add_brackets(brackets, year)
+            # This generates the inflation-adjusted tax brackets for this
+            # year (adjusting the thresholds, not the rates):
+            self.tax_brackets(year)
         if bracket is None:
             return self._accum[year]
         return self._accum[year][bracket]
-- 
2.43.0


From 6675ca517d3f4835f928458be8b6f98a90276bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:11 +0000
Subject: [PATCH 03/69] fix: apply each deduction and credit of a person once
 when taxing them

---
 forecaster/tax.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/forecaster/tax.py b/forecaster/tax.py
index 88e77cd..d45bcf1 100644
--- a/forecaster/tax.py
+++ b/forecaster/tax.py
@@ -402,14 +402,10 @@ class Tax(HighPrecisionOptional):
             float: The tax liability of the person.
         """
         taxable_income = person.taxable_income_history[year]
-        deduction = (
-            person.tax_deduction_history[year]
-            + self.deduction(person, year)
-            + deduction)
-        credit = (
-            person.tax_credit_history[year]
-            + self.credit(person, year)
-            + credit)
+        # `self.deduction` and `self.credit` include the deductions and
+        # credits of the person (and of their accounts):
+        deduction = self.deduction(person, year) + deduction
+        credit = self.credit(person, year) + credit
         return self.tax_money(taxable_income, year, deduction, credit)
 
     def tax_people(self, people, year, deduction=None, credit=None):
-- 
2.43.0


From 6ec1e87ba698af1ce1dceb60bfbc98f8a70ebdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:36 +0000
Subject: [PATCH 04/69] fix: tax groups of people given as any iterable

---
 forecaster/tax.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/forecaster/tax.py b/forecaster/tax.py
index d45bcf1..6758359 100644
--- a/forecaster/tax.py
+++ b/forecaster/tax.py
@@ -431,6 +431,9 @@ class Tax(HighPrecisionOptional):
         if credit is None:
             credit = {}
 
+        # Count everyone once, and accept any iterable:
+        people = set(people)
+
         # Base case: If {} is passed, return $0.
         if not people:
             return self.precision_convert(0)
-- 
2.43.0


From a78f235d18046350cfd2f7996f283bfd1854a2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:41 +0000
Subject: [PATCH 05/69] fix: tax amounts and persons in several jurisdictions
 without deductions

---
 forecaster/tax.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/forecaster/tax.py b/forecaster/tax.py
index 6758359..ec49916 100644
--- a/forecaster/tax.py
+++ b/forecaster/tax.py
@@ -731,8 +731,8 @@ class TaxMulti(object):
             self, taxable_income, year, deductions=None, credits_=None):
         """ Returns taxes owing on a given amount of taxable income. """
         # Wrap args in defaultdicts to avoid key errors:
-        deductions = make_defaultdict(deductions)
-        credits_ = make_defaultdict(credits_)
+        deductions = make_defaultdict(deductions, int)
+        credits_ = make_defaultdict(credits_, int)
         # Add up all jurisdictions' tax treatment:
         return sum(
             tax.tax_money(
@@ -744,8 +744,8 @@ class TaxMulti(object):
             self, person, year, deductions=None, credits_=None):
         """ Returns tax treatment for an individual person. """
         # Wrap args in defaultdicts to avoid key errors:
-        deductions = make_defaultdict(deductions)
-        credits_ = make_defaultdict(credits_)
+        deductions = make_defaultdict(deductions, int)
+        credits_ = make_defaultdict(credits_, int)
         # Add up all jurisdictions' tax treatment:
         return sum(
             tax.tax_person(
-- 
2.43.0


From 2d0af23593da12a40030218d3c3fa9aee1dce4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:45 +0000
Subject: [PATCH 06/69] fix: combine the brackets and deductions of several
 jurisdictions

---
 forecaster/tax.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/forecaster/tax.py b/forecaster/tax.py
index ec49916..3ecbf75 100644
--- a/forecaster/tax.py
+++ b/forecaster/tax.py
@@ -673,7 +673,7 @@ class TaxMulti(object):
                 for tax in self.jurisdictions)
         # Otherwise we return a dict.
         # Get a dict for each jurisdiction:
-        brackets = (tax.tax_brackets(year=year) for tax in self.jurisdictions)
+        brackets = [tax.tax_brackets(year=year) for tax in self.jurisdictions]
         # Collect all the keys of the dicts (ignoring duplicates):
         bracket_keys = set.union(*(set(bracket) for bracket in brackets))
         combined_brackets = {}
@@ -684,7 +684,7 @@ class TaxMulti(object):
             combined_brackets[key] = sum(
                 bracket[
                     max(inner_key for inner_key in bracket if inner_key <= key)]
-                for bracket in brackets)
+                for bracket in brackets if min(bracket) <= key)
         return combined_brackets
 
     def accum(self, year, bracket=None):
@@ -699,7 +699,7 @@ class TaxMulti(object):
 
     def deduction(self, person, year):
         """ The deductions the person is eligible for. """
-        return self.jurisdictions[0].deductions(
+        return self.jurisdictions[0].deduction(
             person=person, year=year)
 
     def credit(self, person, year, deduction=None):
-- 
2.43.0


From b9187e03e414c82ad1793e7d11944675ce02fb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:48 +0000
Subject: [PATCH 07/69] fix: limit the spousal tax credit to the spousal amount

---
 forecaster/canada/tax.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/forecaster/canada/tax.py b/forecaster/canada/tax.py
index b8d41e7..331a2d6 100644
--- a/forecaster/canada/tax.py
+++ b/forecaster/canada/tax.py
@@ -140,10 +140,10 @@ class TaxCanadaJurisdiction(Tax):
                 return 0 # Money value
 
         # The credit is determined by reducing the spousal amount
-        # by the spouse's (net) income, but in any event it's not
-        # negative.
+        # by the spouse's (net) income, but in any event it's neither
+        # negative nor more than the spousal amount.
         credit = max(
-            max_spousal_amount - spouse_net_income,
+            max_spousal_amount - max(spouse_net_income, 0),
             0) # Money value
 
         return credit
-- 
2.43.0


From aba0930614510ee25311165578ef85dfe3c15906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:53 +0000
Subject: [PATCH 08/69] fix: leave the caller's deductions and credits
 unchanged

---
 forecaster/canada/tax.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forecaster/canada/tax.py b/forecaster/canada/tax.py
index 331a2d6..2602452 100644
--- a/forecaster/canada/tax.py
+++ b/forecaster/canada/tax.py
@@ -224,11 +224,11 @@ class TaxCanada(TaxMulti, HighPrecisionOptional):
         # by the superclass), or they can pass in `federal_*` and/or
         # `provincial_*` scalars which we'll wrap up appropriately.
         if "deductions" in kwargs:
-            deductions = kwargs["deductions"]
+            deductions = dict(kwargs["deductions"] or {})
         else:
             deductions = {}
         if "credits_" in kwargs:
-            credits_ = kwargs["credits_"]
+            credits_ = dict(kwargs["credits_"] or {})
         else:
             credits_ = {}
 
-- 
2.43.0


From 2d84c4ff85ffb90a6f49df2915c577c4a2c1a539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:07 +0000
Subject: [PATCH 09/69] fix: tax iterators of people in every jurisdiction

---
 forecaster/tax.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/forecaster/tax.py b/forecaster/tax.py
index 3ecbf75..dad2d9e 100644
--- a/forecaster/tax.py
+++ b/forecaster/tax.py
@@ -755,6 +755,9 @@ class TaxMulti(object):
 
     def tax_people(self, people, year, deductions=None, credits_=None):
         """ Total tax liability for a group of people. """
+        # Each jurisdiction iterates over the people, so don't pass on
+        # an iterator (which only the first one would see):
+        people = set(people)
         # Wrap args in defaultdicts to avoid key errors:
         deductions = make_defaultdict(deductions)
         credits_ = make_defaultdict(credits_)
@@ -780,6 +783,10 @@ class TaxMulti(object):
     def __call__(
             self, income, year, deductions=None, credits_=None):
         """ Determines taxes owing in multiple jurisdictions. """
+        # Each jurisdiction iterates over the people, so don't pass on
+        # an iterator (which only the first one would see):
+        if isinstance(income, collections.abc.Iterable):
+            income = set(income)
         # Total tax is simply the sum of federal and prov. taxes.
         deductions = make_defaultdict(deductions)
         credits_ = make_defaultdict(credits_)
-- 
2.43.0


From 896b71d8a3003fdd6ee4fdcf9161befede50ab26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:25 +0000
Subject: [PATCH 10/69] fix: give inflation adjustments relative to the base
 year as documented

---
 forecaster/scenario.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/scenario.py b/forecaster/scenario.py
index 1b77f8c..5549955 100644
--- a/forecaster/scenario.py
+++ b/forecaster/scenario.py
@@ -202,7 +202,7 @@ class Scenario(object):
             (or, for years prior to `base_year`, it is the present value
             of $1 in base_year)
         """
-        return {year: self.accumulation_function(year, base_year)
+        return {year: self.accumulation_function(base_year, year)
                 for year in self}
 
     @property
-- 
2.43.0


From 6dedc071eeea87d2b9c7488a90c5f320e11315a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:12 +0000
Subject: [PATCH 11/69] fix: record a contributor's year before advancing their
 accounts

---
 forecaster/canada/accounts/registered_account.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/forecaster/canada/accounts/registered_account.py b/forecaster/canada/accounts/registered_account.py
index 99e6618..3b95586 100644
--- a/forecaster/canada/accounts/registered_account.py
+++ b/forecaster/canada/accounts/registered_account.py
@@ -143,6 +143,12 @@ class RegisteredAccount(LinkedLimitAccount):
                 # Otherwise, generate it using the magic method:
                 contribution_room = self.next_contribution_room()
 
+        # Ensure that the contributor has also advanced to the next year
+        # (do this before advancing the linked accounts, since the
+        # contributor records the income, etc. arising from them):
+        while self.contributor.this_year <= self.this_year:
+            self.contributor.next_year()
+
         # Advance this account's year first, _then_ the other linked
         # accounts (so that they each know they aren't `first_account`)
         super().next_year()
@@ -152,11 +158,6 @@ class RegisteredAccount(LinkedLimitAccount):
         for account in self.max_inflow_link.group:
             while account.this_year < self.this_year:
                 account.next_year()
-        # Ensure that the contributor has also advanced to this year
-        # (do this after advancing the linked accounts!)
-        while self.contributor.this_year < self.this_year:
-            self.contributor.next_year()
-
         # Now assign the contribution room we determined earlier to
         # the linked data store:
         if first_account:
-- 
2.43.0


From 6d5a8dbf3be5254a29748416a2b670e0a8c472e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:17 +0000
Subject: [PATCH 12/69] fix: record a person's deductions and credits as of the
 end of the year

---
 forecaster/person.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forecaster/person.py b/forecaster/person.py
index 0903948..6421728 100644
--- a/forecaster/person.py
+++ b/forecaster/person.py
@@ -393,13 +393,13 @@ class Person(TaxSource):
 
     # NOTE: Test overloading of recorded property by subclass
 
-    @recorded_property_cached
+    @recorded_property
     def tax_deduction(self):
         """ The `Person`'s tax deductions for the year. """
         return sum(
             (account.tax_deduction for account in self.accounts))
 
-    @recorded_property_cached
+    @recorded_property
     def tax_credit(self):
         """ The `Person`'s tax credits for the year. """
         return sum(
-- 
2.43.0


From b8dbac309d210782db53f3d3cfbe744ffed5c170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:19 +0000
Subject: [PATCH 13/69] fix: keep cost bases and capital gains given for a
 taxable account

---
 forecaster/canada/accounts/taxable_account.py | 35 +++++++++----------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/forecaster/canada/accounts/taxable_account.py b/forecaster/canada/accounts/taxable_account.py
index 9bd3d78..1510d86 100644
--- a/forecaster/canada/accounts/taxable_account.py
+++ b/forecaster/canada/accounts/taxable_account.py
@@ -56,6 +56,7 @@ class TaxableAccount(Account):
 
         # If acb wasn't provided, assume there have been no capital
         # gains or losses, so acb = balance.
+        self._next_acb = None
         self.acb = (acb if acb is not None else self.balance) # Money value
 
     # pylint: disable=method-hidden
@@ -64,14 +65,10 @@ class TaxableAccount(Account):
     @recorded_property_cached
     def acb(self):
         """ The adjusted cost base of assets in the account this year. """
-        # This is set in advance in the previous year when capital_gains
-        # is determined.
-        # pylint: disable=no-member
-        # Pylint gets confused by attributes added via metaclass.
-        # they always have a corresponding *_history member:
-        return self._acb_history[self.this_year]
+        # This is determined in advance, at the end of the previous year.
+        return self._next_acb
 
-    @recorded_property_cached
+    @recorded_property
     def capital_gain(self):
         """ The capital gains (or losses) for this year.
 
@@ -80,6 +77,11 @@ class TaxableAccount(Account):
         activity. Therefore, changing any transactions will affect
         capital_gain.
         """
+        capital_gain, _ = self._realize_gains()
+        return capital_gain
+
+    def _realize_gains(self):
+        """ The capital gain for this year and the acb at year-end. """
         acb = self.acb
         capital_gain = self.precision_convert(0)
         transactions = self.transactions
@@ -105,19 +107,14 @@ class TaxableAccount(Account):
                     self.precision_convert(1) - (acb / balance))
                 acb *= self.precision_convert(1) - (-value / balance)
 
-        # We've generated the ACB for the next year, so store it now.
-        self._acb_history[self.this_year + 1] = acb
-        return capital_gain
+        return capital_gain, acb
 
-    def add_transaction(self, value, when='end'):
-        super().add_transaction(value, when)
-        # Invalidate the cache for acb and capital gains, since
-        # transactions will affect it.
-        # pylint: disable=no-member
-        # Pylint gets confused by attributes added via metaclass.
-        # All `_*_history` members are dicts added automatically:
-        self._capital_gain_history.pop(self.this_year, None)
-        self._acb_history.pop(self.this_year + 1, None)
+    def next_year(self):
+        """ Adds another year to the account. """
+        # Next year's acb depends on this year's transactions, so
+        # determine it before advancing.
+        _, self._next_acb = self._realize_gains()
+        super().next_year()
 
     @recorded_property
     def taxable_income(self):
-- 
2.43.0


From 229432eda3daa448ddfd567922e32c49ba1ebfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:44 +0000
Subject: [PATCH 14/69] fix: share a contribution room given as an input

---
 forecaster/canada/accounts/registered_account.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/forecaster/canada/accounts/registered_account.py b/forecaster/canada/accounts/registered_account.py
index 3b95586..0049dd8 100644
--- a/forecaster/canada/accounts/registered_account.py
+++ b/forecaster/canada/accounts/registered_account.py
@@ -137,8 +137,11 @@ class RegisteredAccount(LinkedLimitAccount):
             # pylint: disable=no-member
             # Pylint gets confused by attributes added by metaclass
             next_year = self.this_year + 1
-            if next_year in self.contribution_room_history:
-                contribution_room = self.contribution_room_history[next_year]
+            for account in self.max_inflow_link.group:
+                if next_year in account.contribution_room_history:
+                    contribution_room = (
+                        account.contribution_room_history[next_year])
+                    break
             else:
                 # Otherwise, generate it using the magic method:
                 contribution_room = self.next_contribution_room()
@@ -160,8 +163,9 @@ class RegisteredAccount(LinkedLimitAccount):
                 account.next_year()
         # Now assign the contribution room we determined earlier to
         # the linked data store:
+        # (`contribution_room` can't be set if it was given as an input)
         if first_account:
-            self.contribution_room = contribution_room
+            self.max_inflow_limit = contribution_room
 
     def next_contribution_room(self):
         """ Returns the contribution room for next year.
-- 
2.43.0


From 02c4bb68defe384dbae1c8ce309a67a6173b2096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:09 +0000
Subject: [PATCH 15/69] fix: assess Canadian credits of a past year on what was
 recorded for it

---
 forecaster/canada/tax.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/forecaster/canada/tax.py b/forecaster/canada/tax.py
index 2602452..fc6b6f0 100644
--- a/forecaster/canada/tax.py
+++ b/forecaster/canada/tax.py
@@ -74,7 +74,7 @@ class TaxCanadaJurisdiction(Tax):
             Money: The amount of the credit claimable by person in year.
         """
         pension_income = abs(sum(
-            account.outflows() for account in person.accounts
+            account.taxable_income_history[year] for account in person.accounts
             if isinstance(account, RRSP)))
             # NOTE: Other qualified pension income sources can be
             # added here
@@ -123,14 +123,16 @@ class TaxCanadaJurisdiction(Tax):
         # This would help to avoid calling self.deductions many times.
         spouse = person.spouse
         spouse_net_income = (
-            spouse.taxable_income - self.deduction(spouse, year))
+            spouse.taxable_income_history[year]
+            - self.deduction(spouse, year))
 
         # Figure out whether to assign the credit to this person or
         # their spouse based on who has more income:
 
         # If this is the lower-earner, use their spouse instead:
         person_net_income = (
-            person.taxable_income - self.deduction(person, year))
+            person.taxable_income_history[year]
+            - self.deduction(person, year))
         if person_net_income < spouse_net_income:
             return 0 # Money value
         # If their incomes are the same, use memory location to
-- 
2.43.0


From 7a2f60fb6ad9b8dddb69e379368f6bc78990c653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:42 +0000
Subject: [PATCH 16/69] fix: count the flows of all linked accounts in next
 year's contribution room

---
 forecaster/canada/accounts/rrsp.py | 6 ++++--
 forecaster/canada/accounts/tfsa.py | 5 ++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/forecaster/canada/accounts/rrsp.py b/forecaster/canada/accounts/rrsp.py
index b1353a9..1ffac2d 100644
--- a/forecaster/canada/accounts/rrsp.py
+++ b/forecaster/canada/accounts/rrsp.py
@@ -213,8 +213,10 @@ class RRSP(RegisteredAccount):
                 accrual_max,
                 self.inflation_adjust,
                 year + 1)
-            # Don't forget to add in any rollovers:
-            rollover = self.contribution_room - self.inflows()
+            # Don't forget to add in any rollovers (contributions to
+            # any linked account use up the shared contribution room):
+            rollover = self.contribution_room - sum(
+                account.inflows() for account in self.max_inflow_link.group)
             return min(
                 accrual,
                 max_accrual # Money value
diff --git a/forecaster/canada/accounts/tfsa.py b/forecaster/canada/accounts/tfsa.py
index 4fb2cbb..cb1b747 100644
--- a/forecaster/canada/accounts/tfsa.py
+++ b/forecaster/canada/accounts/tfsa.py
@@ -125,7 +125,10 @@ class TFSA(RegisteredAccount):
         contribution_room = self._contribution_room_accrual(self.this_year + 1)
         # On top of this year's accrual, roll over unused contribution
         # room, plus any withdrawals (less contributions) from last year
-        rollover = self.contribution_room - (self.outflows() + self.inflows())
+        # by all of the accounts that share the contribution room.
+        rollover = self.contribution_room - sum(
+            account.outflows() + account.inflows()
+            for account in self.max_inflow_link.group)
         return contribution_room + rollover
 
     @recorded_property
-- 
2.43.0


From ee039c1f82c5094fd454a759326621751ab4b607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:45 +0000
Subject: [PATCH 17/69] fix: accrue TFSA room from the year its contributor
 becomes eligible

---
 forecaster/canada/accounts/tfsa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forecaster/canada/accounts/tfsa.py b/forecaster/canada/accounts/tfsa.py
index cb1b747..dab7543 100644
--- a/forecaster/canada/accounts/tfsa.py
+++ b/forecaster/canada/accounts/tfsa.py
@@ -102,8 +102,8 @@ class TFSA(RegisteredAccount):
 
         This excludes any rollovers - it's just the statutory accrual.
         """
-        # No accrual if the owner is too young to qualify:
-        if self.owner.age(year + 1) < self.constants.TFSA_ELIGIBILITY_AGE:
+        # No accrual if the contributor is too young to qualify:
+        if self.contributor.age(year) < self.constants.TFSA_ELIGIBILITY_AGE:
             return self.precision_convert(0) # Money value
 
         # If we already have an accrual rate set for this year, use that
-- 
2.43.0


From 4b34a9b344c8538197ff67bd3c32e61a53af9505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:49 +0000
Subject: [PATCH 18/69] fix: infer initial TFSA room when room is given for
 later years only

---
 forecaster/canada/accounts/tfsa.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/forecaster/canada/accounts/tfsa.py b/forecaster/canada/accounts/tfsa.py
index dab7543..9772713 100644
--- a/forecaster/canada/accounts/tfsa.py
+++ b/forecaster/canada/accounts/tfsa.py
@@ -73,12 +73,13 @@ class TFSA(RegisteredAccount):
         # before this initial_year (e.g. due to `input`), in which
         # case we should extrapolate from that year onwards:
         # (See above note re: `_contribution_room_history`)
-        if self._contribution_room_history:
+        past_years = [
+            year for year in self._contribution_room_history
+            if year < self.initial_year]
+        if past_years:
             # Get the last year for which there is data and the
             # contribution room recorded for that year:
-            last_year = max(
-                year for year in self._contribution_room_history
-                if year < self.initial_year)
+            last_year = max(past_years)
             contribution_room = self._contribution_room_history[last_year]
             # We'll add up accruals starting the year after that:
             start_year = last_year + 1
-- 
2.43.0


From a328ada9572a08d339835218d20543b6bae0b6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:33 +0000
Subject: [PATCH 19/69] fix: share a contribution room given as an input for
 the initial year

---
 forecaster/canada/accounts/registered_account.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/forecaster/canada/accounts/registered_account.py b/forecaster/canada/accounts/registered_account.py
index 0049dd8..b8362d2 100644
--- a/forecaster/canada/accounts/registered_account.py
+++ b/forecaster/canada/accounts/registered_account.py
@@ -85,6 +85,11 @@ class RegisteredAccount(LinkedLimitAccount):
         super().__init__(
             *args, owner=owner, max_inflow_link=max_inflow_link,
             max_inflow_limit=max_inflow_limit, **kwargs)
+        # Contribution room given for this year as an input is shared
+        # with the linked accounts too:
+        if self.this_year in self._contribution_room_history:
+            self.max_inflow_limit = (
+                self._contribution_room_history[self.this_year])
 
         # Set new attributes not handled by the superclass:
         self.inflation_adjust = build_inflation_adjust(inflation_adjust)
-- 
2.43.0


From c8f0ddfec697259a6c4ab51ebccd066c7ea7ecd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:39 +0000
Subject: [PATCH 20/69] fix: withhold tax from RRIF withdrawals only beyond the
 minimum

---
 forecaster/canada/accounts/rrsp.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/forecaster/canada/accounts/rrsp.py b/forecaster/canada/accounts/rrsp.py
index 1ffac2d..f78f61b 100644
--- a/forecaster/canada/accounts/rrsp.py
+++ b/forecaster/canada/accounts/rrsp.py
@@ -145,8 +145,11 @@ class RRSP(RegisteredAccount):
             taxable_income = self.taxable_income
         else:
             # Only withdrawals in excess of the minimum RRIF withdrawal
-            # are hit by the withholding tax.
-            taxable_income = self.taxable_income - self.min_outflow_limit
+            # are hit by the withholding tax. (`min_outflow_limit` is
+            # negative or zero.)
+            taxable_income = max(
+                self.taxable_income + self.min_outflow_limit,
+                self.precision_convert(0)) # Money value
 
         year = nearest_year(
             self.constants.RRSP_WITHHOLDING_TAX_RATE,
-- 
2.43.0


From 52ba6641b4dd6f0e8f6e7a0b80decaa775f8fa19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:51 +0000
Subject: [PATCH 21/69] fix: accept no contributions to an RRSP after its
 conversion to an RRIF

---
 forecaster/canada/accounts/rrsp.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/forecaster/canada/accounts/rrsp.py b/forecaster/canada/accounts/rrsp.py
index f78f61b..649ea0c 100644
--- a/forecaster/canada/accounts/rrsp.py
+++ b/forecaster/canada/accounts/rrsp.py
@@ -233,6 +233,17 @@ class RRSP(RegisteredAccount):
         # and any shared minimum (e.g. home-buyers' amounts):
         return min(-self.minimum_distribution(), super().min_outflow_limit)
 
+    def max_inflows(
+            self, timing=None, transaction_limit=None, *args, **kwargs):
+        """ The maximum amounts that can be contributed to the account.
+
+        No contributions are accepted after conversion to an RRIF.
+        """
+        if self.rrif_conversion_year < self.this_year:
+            transaction_limit = self.precision_convert(0) # Money value
+        return super().max_inflows(
+            timing, transaction_limit, *args, **kwargs)
+
     def minimum_distribution(self):
         """ A min. amount required by law to be withdrawn based on age. """
         # Convert relevant constants:
-- 
2.43.0


From b85ebe60883b9ebd459cf57f98f4718b047dccf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:03 +0000
Subject: [PATCH 22/69] fix: set limits on outflows through their own links

---
 forecaster/accounts/linked_limit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forecaster/accounts/linked_limit.py b/forecaster/accounts/linked_limit.py
index ac5b669..e5b9b0a 100644
--- a/forecaster/accounts/linked_limit.py
+++ b/forecaster/accounts/linked_limit.py
@@ -111,7 +111,7 @@ class LinkedLimitAccount(Account):
     @max_outflow_limit.setter
     def max_outflow_limit(self, value):
         """ Sets max_outflow_limit. """
-        self._set_limit(self.max_inflow_link, value)
+        self._set_limit(self.max_outflow_link, value)
 
     @property
     def min_outflow_limit(self):
@@ -122,7 +122,7 @@ class LinkedLimitAccount(Account):
     @min_outflow_limit.setter
     def min_outflow_limit(self, value):
         """ Sets min_outflow_limit. """
-        self._set_limit(self.min_inflow_link, value)
+        self._set_limit(self.min_outflow_link, value)
 
     def _get_limit(self, link, default=None):
         """ Gets the limit for a given linked group of accounts.
-- 
2.43.0


From aa0e59364f959ca1652bcb973741e34ff50008c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:51 +0000
Subject: [PATCH 23/69] fix: count flows of linked accounts against the shared
 limit only

---
 forecaster/accounts/linked_limit.py | 176 ++++++++++++++++------------
 1 file changed, 102 insertions(+), 74 deletions(-)

diff --git a/forecaster/accounts/linked_limit.py b/forecaster/accounts/linked_limit.py
index e5b9b0a..1bc24a7 100644
--- a/forecaster/accounts/linked_limit.py
+++ b/forecaster/accounts/linked_limit.py
@@ -1,9 +1,7 @@
 """ A module providing the LinkedLimitAccount class. """
 
-from copy import copy
 from forecaster.accounts.base import Account
 from forecaster.accounts.link import AccountLink
-from forecaster.utility import add_transactions
 
 class LinkedLimitAccount(Account):
     """ An account with inflow/outflow limits linked to other accounts.
@@ -195,13 +193,8 @@ class LinkedLimitAccount(Account):
             link.data = limit
         return link
 
-    def _merge_transactions(self, transactions, group_transactions, link):
-        """ Merges `group_transactions` and `transactions`.
-
-        Only linked accounts have their transactions in
-        `group_transactions` added to `transactions`. Any keys in
-        `group_transactions` which are not linked (per `link`) are
-        ignored.
+    def _own_transactions(self, transactions, group_transactions):
+        """ The hypothetical transactions of this account.
 
         If `transactions` is provided, any transactions for this account
         in `group_transactions` are ignored.
@@ -213,52 +206,72 @@ class LinkedLimitAccount(Account):
             group_transactions
                 (Union[dict[Account, dict[Number, Money]], NoneType]):
                 A mapping of `Account` keys to `transactions`-like
-                values. Keys not linked (according to `link`) are
-                ignored.
-            link (AccountLink): An object defining a collection of
-                linked accounts.
+                values. May be `None`.
 
         Returns:
-            dict[Number, Money]: A time-series of transactions formed
-            by merging `transactions` (if provided) with the
-            transactions mapped by any accounts of `group_transactions`
-            (if provided) which are linked to this account.
+            dict[Number, Money]: A time-series of transactions for this
+            account, or `None` if there are none.
         """
-        # For convenience, use an empty iterable rather than `None`:
+        if transactions is None and group_transactions is not None:
+            transactions = group_transactions.get(self)
+        return transactions
+
+    def _linked_inflows(self, link, group_transactions):
+        """ The sum of all inflows to the other accounts of a link. """
         if group_transactions is None:
-            group_transactions = set()
-
-        # We want to return `transactions`, but we don't want to mutate
-        # any of the inputs, so copy it first:
-        if transactions is not None:
-            transactions = copy(transactions)
-        elif self in group_transactions:
-            # If `transactions` isn't given, but this account is
-            # represented in `group_transactions`, use that:
-            transactions = copy(group_transactions[self])
-        else:
-            # Otherwise, just start with a empty dict to fill later:
-            transactions = {}
+            group_transactions = {}
+        return sum(
+            account.inflows(group_transactions.get(account))
+            for account in link.group - {self})
 
-        # If this account isn't linked (for this type of inflow/outflow,
-        # anyways), we're done:
+    def _linked_outflows(self, link, group_transactions):
+        """ The sum of all outflows from the other accounts of a link. """
+        if group_transactions is None:
+            group_transactions = {}
+        return sum(
+            account.outflows(group_transactions.get(account))
+            for account in link.group - {self})
+
+    def _inflow_limit(
+            self, link, limit, transaction_limit, transactions,
+            group_transactions):
+        """ A transaction limit within what is left of a shared limit.
+
+        Flows of linked accounts use up the shared limit. (They don't
+        affect the balance of this account.)
+        """
+        # pylint: disable=too-many-arguments
         if link is None:
-            return transactions
-
-        # Otherwise, merge the transactions for each other linked
-        # account in the group (note that this account is handled above)
-        group = link.group - {self}
-        for account in group:
-            # Add the transactions already recorded against the account:
-            add_transactions(transactions, account.transactions)
-            # And add any additional transactions, if present in
-            # `group_transactions`:
-            if account in group_transactions:
-                add_transactions(transactions, group_transactions[account])
-        return transactions
+            return transaction_limit
+        remaining = (
+            limit - self.inflows(transactions)
+            - self._linked_inflows(link, group_transactions))
+        if transaction_limit is None:
+            return remaining
+        return min(remaining, transaction_limit)
+
+    def _outflow_limit(
+            self, link, limit, transaction_limit, transactions,
+            group_transactions):
+        """ A transaction limit within what is left of a shared limit.
+
+        Flows of linked accounts use up the shared limit. (They don't
+        affect the balance of this account.)
+        """
+        # pylint: disable=too-many-arguments
+        if link is None:
+            return transaction_limit
+        remaining = (
+            limit - self.outflows(transactions)
+            - self._linked_outflows(link, group_transactions))
+        if transaction_limit is None:
+            return remaining
+        # (Recall that outflows are negative, so we use max, not min)
+        return max(remaining, transaction_limit)
 
     def max_inflows(
-            self, *args, transactions=None, group_transactions=None, **kwargs):
+            self, timing=None, transaction_limit=None, *args,
+            transactions=None, group_transactions=None, **kwargs):
         """ The maximum amounts that can be contributed to the account.
 
         This overloaded method simply provides a new argument
@@ -272,8 +285,8 @@ class LinkedLimitAccount(Account):
             group_transactions (dict[Account, dict[Number, Money]]):
                 A mapping of `Account` keys to `transactions`-like
                 values. Any transactions mapped to accounts with a max
-                inflow limit linked to this one will be added to
-                `transactions` when determining the result. Optional.
+                inflow limit linked to this one will use up the limit
+                when determining the result. Optional.
 
         Returns:
             dict[float, Money]: A mapping of `{when: value}` pairs where
@@ -282,14 +295,18 @@ class LinkedLimitAccount(Account):
         # pylint: disable=too-many-arguments,arguments-differ
         # This method just adds an extra optional argument.
 
-        # Merge `transactions` and `group_transactions`:
-        transactions = self._merge_transactions(
-            transactions, group_transactions, self.max_inflow_link)
+        transactions = self._own_transactions(
+            transactions, group_transactions)
+        transaction_limit = self._inflow_limit(
+            self.max_inflow_link, self.max_inflow_limit, transaction_limit,
+            transactions, group_transactions)
         return super().max_inflows(
-            *args, transactions=transactions, **kwargs)
+            timing, transaction_limit, *args,
+            transactions=transactions, **kwargs)
 
     def max_outflows(
-            self, *args, transactions=None, group_transactions=None, **kwargs):
+            self, timing=None, transaction_limit=None, *args,
+            transactions=None, group_transactions=None, **kwargs):
         """ The maximum amounts that can be withdrawn from the account.
 
         This overloaded method simply provides a new argument
@@ -303,8 +320,8 @@ class LinkedLimitAccount(Account):
             group_transactions (dict[Account, dict[Number, Money]]):
                 A mapping of `Account` keys to `transactions`-like
                 values. Any transactions mapped to accounts with a max
-                outflow limit linked to this one will be added to
-                `transactions` when determining the result. Optional.
+                outflow limit linked to this one will use up the limit
+                when determining the result. Optional.
 
         Returns:
             dict[float, Money]: A mapping of `{when: value}` pairs where
@@ -313,14 +330,18 @@ class LinkedLimitAccount(Account):
         # pylint: disable=too-many-arguments,arguments-differ
         # This method just adds an extra optional argument.
 
-        # Merge `transactions` and `group_transactions`:
-        transactions = self._merge_transactions(
-            transactions, group_transactions, self.max_outflow_link)
+        transactions = self._own_transactions(
+            transactions, group_transactions)
+        transaction_limit = self._outflow_limit(
+            self.max_outflow_link, self.max_outflow_limit, transaction_limit,
+            transactions, group_transactions)
         return super().max_outflows(
-            *args, transactions=transactions, **kwargs)
+            timing, transaction_limit, *args,
+            transactions=transactions, **kwargs)
 
     def min_inflows(
-            self, *args, transactions=None, group_transactions=None, **kwargs):
+            self, timing=None, transaction_limit=None, *args,
+            transactions=None, group_transactions=None, **kwargs):
         """ The minimum amounts that must be contributed to the account.
 
         This overloaded method simply provides a new argument
@@ -334,8 +355,8 @@ class LinkedLimitAccount(Account):
             group_transactions (dict[Account, dict[Number, Money]]):
                 A mapping of `Account` keys to `transactions`-like
                 values. Any transactions mapped to accounts with a min
-                inflow limit linked to this one will be added to
-                `transactions` when determining the result. Optional.
+                inflow limit linked to this one will use up the limit
+                when determining the result. Optional.
 
         Returns:
             dict[float, Money]: A mapping of `{when: value}` pairs where
@@ -344,14 +365,18 @@ class LinkedLimitAccount(Account):
         # pylint: disable=too-many-arguments,arguments-differ
         # This method just adds an extra optional argument.
 
-        # Merge `transactions` and `group_transactions`:
-        transactions = self._merge_transactions(
-            transactions, group_transactions, self.min_inflow_link)
+        transactions = self._own_transactions(
+            transactions, group_transactions)
+        transaction_limit = self._inflow_limit(
+            self.min_inflow_link, self.min_inflow_limit, transaction_limit,
+            transactions, group_transactions)
         return super().min_inflows(
-            *args, transactions=transactions, **kwargs)
+            timing, transaction_limit, *args,
+            transactions=transactions, **kwargs)
 
     def min_outflows(
-            self, *args, transactions=None, group_transactions=None, **kwargs):
+            self, timing=None, transaction_limit=None, *args,
+            transactions=None, group_transactions=None, **kwargs):
         """ The minimum amounts that must be withdrawn from the account.
 
         This overloaded method simply provides a new argument
@@ -365,8 +390,8 @@ class LinkedLimitAccount(Account):
             group_transactions (dict[Account, dict[Number, Money]]):
                 A mapping of `Account` keys to `transactions`-like
                 values. Any transactions mapped to accounts with a min
-                outflow limit linked to this one will be added to
-                `transactions` when determining the result. Optional.
+                outflow limit linked to this one will use up the limit
+                when determining the result. Optional.
 
         Returns:
             dict[float, Money]: A mapping of `{when: value}` pairs where
@@ -375,8 +400,11 @@ class LinkedLimitAccount(Account):
         # pylint: disable=too-many-arguments,arguments-differ
         # This method just adds an extra optional argument.
 
-        # Merge `transactions` and `group_transactions`:
-        transactions = self._merge_transactions(
-            transactions, group_transactions, self.min_outflow_link)
+        transactions = self._own_transactions(
+            transactions, group_transactions)
+        transaction_limit = self._outflow_limit(
+            self.min_outflow_link, self.min_outflow_limit, transaction_limit,
+            transactions, group_transactions)
         return super().min_outflows(
-            *args, transactions=transactions, **kwargs)
+            timing, transaction_limit, *args,
+            transactions=transactions, **kwargs)
-- 
2.43.0


From 9b15ad9ca214d5fa9f8750bde4880b0633a9d90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:09 +0000
Subject: [PATCH 24/69] fix: keep the recorded transactions of past years of a
 subforecast

---
 forecaster/forecast/subforecast.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/forecaster/forecast/subforecast.py b/forecaster/forecast/subforecast.py
index bb4e904..386b125 100644
--- a/forecaster/forecast/subforecast.py
+++ b/forecaster/forecast/subforecast.py
@@ -169,8 +169,10 @@ class SubForecast(Ledger):
         # Call `next_year` first so that recorded_property values
         # are recorded with their current state:
         super().next_year()
-        # There are no existing transactions at the start of the year:
-        self.transactions.clear()
+        # There are no existing transactions at the start of the year.
+        # (Last year's transactions are on record, so don't clear them.)
+        self._transactions = TransactionDict(
+            lambda: defaultdict(lambda: 0)) # Money value
         self._call_invoked = False
 
     def __call__(self, available):
-- 
2.43.0


From 0d928fa55a773ccec27e509139ca41ccf5a007ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:12 +0000
Subject: [PATCH 25/69] fix: undo the transactions of a subforecast only once

---
 forecaster/forecast/subforecast.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/forecaster/forecast/subforecast.py b/forecaster/forecast/subforecast.py
index 386b125..ef43fed 100644
--- a/forecaster/forecast/subforecast.py
+++ b/forecaster/forecast/subforecast.py
@@ -209,6 +209,8 @@ class SubForecast(Ledger):
             if account is not None:
                 for when, value in self.transactions[account].items():
                     account[when] -= value
+        # There's nothing left to reverse:
+        self._transactions.clear()
         # This undoes the effect of __call__, so treat that
         # method as if it was never called:
         self._call_invoked = False
-- 
2.43.0


From e367bfa277a7ceaab47f58e70675a0842d81e240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:15 +0000
Subject: [PATCH 26/69] fix: list the keys of a TransactionDict whether or not
 they can be sorted

---
 forecaster/forecast/subforecast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/forecast/subforecast.py b/forecaster/forecast/subforecast.py
index ef43fed..be5f072 100644
--- a/forecaster/forecast/subforecast.py
+++ b/forecaster/forecast/subforecast.py
@@ -73,7 +73,7 @@ class TransactionDict(defaultdict):
         # NOTE: We can't use a frozenset; it requires hashable values.
 
         # Translation between key and id(key) is handled by __iter__
-        return sorted(self.__iter__())  # Returns a list
+        return list(self.__iter__())  # Returns a list
 
 class SubForecast(Ledger):
     """ Generic class for implementing part of a financial forecast.
-- 
2.43.0


From 0121c6df0411a08b8defc83d02736ad119a5d4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:18 +0000
Subject: [PATCH 27/69] fix: count money available in an account as a positive
 amount

---
 forecaster/forecast/subforecast.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/forecaster/forecast/subforecast.py b/forecaster/forecast/subforecast.py
index be5f072..249f76e 100644
--- a/forecaster/forecast/subforecast.py
+++ b/forecaster/forecast/subforecast.py
@@ -198,7 +198,8 @@ class SubForecast(Ledger):
             # Consider whether we should instead sum over transactions
             # (for dicts and Accounts) and then add the account opening
             # balance (only for Accounts).
-            self.total_available = available.max_outflow(1)
+            # (Outflows are negative.)
+            self.total_available = -available.max_outflow(1)
         else:
             self.total_available = sum(available.values())
 
-- 
2.43.0


From 4ee9ed8febe3c71e4d04bf7653a86d3df7c20cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:21 +0000
Subject: [PATCH 28/69] fix: report repayments of debts, not savings, as debt
 repayment

---
 forecaster/forecast/saving.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/forecast/saving.py b/forecaster/forecast/saving.py
index 9c24e79..101e0db 100644
--- a/forecaster/forecast/saving.py
+++ b/forecaster/forecast/saving.py
@@ -75,7 +75,7 @@ class SavingForecast(SubForecast):
         # class is all about.
         return sum(
             sum(self.account_transactions[account].values())
-            for account in self.retirement_accounts
+            for account in self.debt_accounts
             if account in self.account_transactions)
 
     @recorded_property_cached
-- 
2.43.0


From 417adf1a40d55b4f40fcb2433c966c1f866c9aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:26 +0000
Subject: [PATCH 29/69] fix: reset tax withheld on withdrawals each year

---
 forecaster/forecast/withdrawal.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/forecaster/forecast/withdrawal.py b/forecaster/forecast/withdrawal.py
index fbdc27e..93d0e7d 100644
--- a/forecaster/forecast/withdrawal.py
+++ b/forecaster/forecast/withdrawal.py
@@ -123,6 +123,12 @@ class WithdrawalForecast(SubForecast):
             # Keep track of total tax withheld:
             self.tax_withheld += new_tax_withheld
 
+    def next_year(self):
+        """ Adds a year to the forecast. """
+        super().next_year()
+        # Nothing has been withheld at the start of the year:
+        self.tax_withheld = self.precision_convert(0) # Money value
+
     def undo_transactions(self):
         """ Reverses all transactions cause by this subforecast. """
         super().undo_transactions()
-- 
2.43.0


From 3d9b836d9a644c1748b84f899a25b3033ef18667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:43 +0000
Subject: [PATCH 30/69] fix: incur living expenses when there is no income

---
 forecaster/forecast/living_expenses.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/forecaster/forecast/living_expenses.py b/forecaster/forecast/living_expenses.py
index e7d3a48..f0b16f2 100644
--- a/forecaster/forecast/living_expenses.py
+++ b/forecaster/forecast/living_expenses.py
@@ -47,10 +47,17 @@ class LivingExpensesForecast(SubForecast):
         # Assume living expenses are incurred at the same time that
         # income is received. If there are multiple people, incur
         # living expenses every time each of them gets paid
-        # proportionately to their share of net income.
+        # proportionately to their share of net income (or evenly, if
+        # there is no income to share).
         total_income = sum(person.net_income for person in self.people)
-        income_weights = {
-            person: person.net_income / total_income for person in self.people}
+        if total_income > 0:
+            income_weights = {
+                person: person.net_income / total_income
+                for person in self.people}
+        else:
+            income_weights = {
+                person: self.precision_convert(1) / len(self.people)
+                for person in self.people}
         for person in self.people:
             self.add_transaction(
                 self.living_expenses * income_weights[person],
-- 
2.43.0


From 0fb4e0decd54482e18543f4191b2aee76a5a7f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:33 +0000
Subject: [PATCH 31/69] fix: take the missing equity from other assets in
 proportion

---
 forecaster/strategy/allocation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/strategy/allocation.py b/forecaster/strategy/allocation.py
index a4b2500..6a5c748 100644
--- a/forecaster/strategy/allocation.py
+++ b/forecaster/strategy/allocation.py
@@ -252,7 +252,7 @@ class AllocationStrategy(Strategy):
                 * allocation.bonds / (allocation.bonds + allocation.other)
             )
             other = allocation.other - (
-                (self.max_equity - allocation.stocks)
+                (self.min_equity - allocation.stocks)
                 * allocation.other / (allocation.bonds + allocation.other)
             )
             allocation = AssetAllocation(self.min_equity, bonds, other)
-- 
2.43.0


From 6a43363f4b9fe8342ed40ae0003fbb7ab14cf84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:37 +0000
Subject: [PATCH 32/69] fix: limit an all-equity allocation to the maximum of
 equity

---
 forecaster/strategy/allocation.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/forecaster/strategy/allocation.py b/forecaster/strategy/allocation.py
index 6a5c748..bb9fa5f 100644
--- a/forecaster/strategy/allocation.py
+++ b/forecaster/strategy/allocation.py
@@ -232,7 +232,14 @@ class AllocationStrategy(Strategy):
                 other values are rebalanced accordingly so that
                 the sum of all allocation attributes is 1.
         """
-        if allocation.stocks > self.max_equity:
+        if (
+                allocation.stocks > self.max_equity
+                and allocation.bonds + allocation.other == 0):
+            # There are no proportions to keep, so move the excess
+            # weighting of equity into bonds:
+            allocation = AssetAllocation(
+                self.max_equity, allocation.stocks - self.max_equity, 0)
+        elif allocation.stocks > self.max_equity:
             # Move the excess weighting of equity into bonds and other
             # proportionately to their current values:
             bonds = allocation.bonds + (
-- 
2.43.0


From f11fe9ac258ee5ffa76a7b907481997c53daeb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:34 +0000
Subject: [PATCH 33/69] fix: read numeric text at full precision

---
 forecaster/value_reader.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/forecaster/value_reader.py b/forecaster/value_reader.py
index 1096c03..d6ecc2c 100644
--- a/forecaster/value_reader.py
+++ b/forecaster/value_reader.py
@@ -341,12 +341,15 @@ class ValueReader(HighPrecisionOptional):
             # `float_val % 1` is `NaN` for infinite or NaN values,
             # and is a non-zero number for any floating-point value.
             # Thus, if this test passes, we have an integer value.
-            return int(float_val)
+            # Convert exactly (which `float` does only up to a point):
+            try:
+                return int(vals)
+            except ValueError:
+                val = self._parse_float(vals)
+                int_val = int(val)
+                return int_val if int_val == val else val
         # Use high-precision numeric type if supported:
-        if self.high_precision is not None:
-            return self.high_precision(vals)
-        # Otherwise, use float:
-        return float_val
+        return self._parse_float(vals)
 
     def write(self, filename, vals=None):
         """ Writes values to a UTF-8 encoded JSON file.
-- 
2.43.0


From 3ec6558caa3d9f52655c07ee194e059bfffd7d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:39 +0000
Subject: [PATCH 34/69] fix: write the values of another ValueReader

---
 forecaster/value_reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/forecaster/value_reader.py b/forecaster/value_reader.py
index d6ecc2c..87a5082 100644
--- a/forecaster/value_reader.py
+++ b/forecaster/value_reader.py
@@ -363,6 +363,8 @@ class ValueReader(HighPrecisionOptional):
         # If no values are provided, use this object's `values`:
         if vals is None:
             vals = self.values
+        elif isinstance(vals, ValueReader):
+            vals = vals.values
 
         filename = resolve_path(filename)
 
-- 
2.43.0


From 008c9abd419b13fcbd98b16921adb0504dc9b55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:42 +0000
Subject: [PATCH 35/69] fix: allow the deletion of an attribute of a
 ValueReader

---
 forecaster/value_reader.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/forecaster/value_reader.py b/forecaster/value_reader.py
index 87a5082..d37a8e8 100644
--- a/forecaster/value_reader.py
+++ b/forecaster/value_reader.py
@@ -58,8 +58,6 @@ class ValueReaderAttribute(object):
     def __delete__(self, obj):
         # Remove the value from the `values` dict:
         del obj.values[self.name]
-        # Also remove this descriptor:
-        del obj.__dict__[self.name]
 
 class HighPrecisionJSONEncoder(json.JSONEncoder):
     """ Extends JSONEncoder to support high-precision numeric types.
-- 
2.43.0


From a1f383ab466e598b9808560e2f80d5b46695336e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:19 +0000
Subject: [PATCH 36/69] fix: write mappings with mixed or high-precision keys

---
 forecaster/value_reader.py | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/forecaster/value_reader.py b/forecaster/value_reader.py
index d37a8e8..8e3d85d 100644
--- a/forecaster/value_reader.py
+++ b/forecaster/value_reader.py
@@ -370,8 +370,7 @@ class ValueReader(HighPrecisionOptional):
         encoder_args = {
             'ensure_ascii': True, # Escape non-ASCII characters
             'allow_nan': True, # Required to support float('inf')
-            'indent': 2, # Pretty-print with indenting,
-            'sort_keys': True # Sort to make it easier for humans to read
+            'indent': 2 # Pretty-print with indenting,
         }
 
         # Use the custom encoder provided by client code, if any:
@@ -386,4 +385,31 @@ class ValueReader(HighPrecisionOptional):
 
         # Write the serialized values to file:
         with open(filename, "w", encoding="utf-8") as file:
-            json.dump(vals, file, cls=cls, **encoder_args)
+            json.dump(
+                self._encode_keys(vals), file, cls=cls, **encoder_args)
+
+    def _encode_keys(self, vals):
+        """ Prepares the mappings in `vals` for being written to JSON.
+
+        Keys are sorted to make it easier for humans to read (numbers
+        first, then text). High-precision keys are serialized, since
+        JSON encoders don't convert keys.
+        """
+        if isinstance(vals, (list, tuple)):
+            return [self._encode_keys(val) for val in vals]
+        if not isinstance(vals, dict):
+            return vals
+        keys = sorted(vals, key=lambda key: (isinstance(key, str), key))
+        return {
+            self._encode_key(key): self._encode_keys(vals[key])
+            for key in keys}
+
+    def _encode_key(self, key):
+        """ Serializes high-precision keys; others are left alone. """
+        if (
+                self.high_precision is None or
+                isinstance(key, (str, int, float, type(None)))):
+            return key
+        if self.high_precision_serialize is not None:
+            return self.high_precision_serialize(key)
+        return str(key)
-- 
2.43.0


From f05cf1218dfa93a647817ac1a176496c7e6aca6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:24 +0000
Subject: [PATCH 37/69] fix: unlink the former spouse of a new spouse

---
 forecaster/person.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/forecaster/person.py b/forecaster/person.py
index 6421728..461745f 100644
--- a/forecaster/person.py
+++ b/forecaster/person.py
@@ -282,6 +282,10 @@ class Person(TaxSource):
     @spouse.setter
     def spouse(self, val):
         """ Sets the Person's spouse. """
+        if val is not None and not isinstance(val, Person):
+            # Spouse must be a Person
+            raise TypeError('Person: spouse must be of type Person')
+
         # If this Person already has a spouse, unlink them:
         if hasattr(self, 'spouse') and self.spouse is not None:
             # Assign to _spouse to avoid recursing on this method.
@@ -290,10 +294,12 @@ class Person(TaxSource):
             # member of a client class.
             self.spouse._spouse = None
 
-        # If we're adding a new spouse, make sure that it links back:
+        # If we're adding a new spouse, make sure that it links back
+        # (and that its former spouse, if any, doesn't link to it):
         if val is not None:
-            if not isinstance(val, Person):  # Spouse must be a Person
-                raise TypeError('Person: spouse must be of type Person')
+            if val.spouse is not None:
+                # pylint: disable=protected-access
+                val.spouse._spouse = None
             # Assign to _spouse to avoid recursing on this method.
             # pylint: disable=protected-access
             # spouse is a Person, so this isn't accessing a protected
-- 
2.43.0


From 99921b890fecaf092c04fb53d00db2fbc55d2cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:29 +0000
Subject: [PATCH 38/69] fix: treat a raise rate of None as no raise

---
 forecaster/person.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/person.py b/forecaster/person.py
index 461745f..4190015 100644
--- a/forecaster/person.py
+++ b/forecaster/person.py
@@ -254,7 +254,7 @@ class Person(TaxSource):
         # Treat setting the method to None as reverting to the default
         # rate parameter, which is Money(0).
         if val is None:
-            self.raise_rate_callable = 0
+            val = 0
         # Is raise_rate isn't callable, convert it to a suitable method:
         if not callable(val):  # Make callable if dict or scalar
             if isinstance(val, dict):
-- 
2.43.0


From 3ba797eb5676d0a68b17c9aa60c51ee6a6c8c64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:32 +0000
Subject: [PATCH 39/69] fix: determine ages on and from February 29

---
 forecaster/person.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/forecaster/person.py b/forecaster/person.py
index 4190015..d680276 100644
--- a/forecaster/person.py
+++ b/forecaster/person.py
@@ -387,8 +387,9 @@ class Person(TaxSource):
             date = parse(str(date), default=self.birth_date)
 
         # Remember to check whether the month/day are earlier in `date`
+        # (the birthday is Feb. 28 in years that don't have a Feb. 29)
         age = date.year - self.birth_date.year
-        if date.replace(self.birth_date.year) < self.birth_date:
+        if date < self.birth_date + relativedelta(years=age):
             age -= 1
 
         # We allow age to be negative, if that's what the caller wants.
-- 
2.43.0


From 36da952a9b4cd3306e49636c195775ea439caf5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:37 +0000
Subject: [PATCH 40/69] fix: determine net income from the income of the
 initial year

---
 forecaster/person.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/forecaster/person.py b/forecaster/person.py
index d680276..0d91305 100644
--- a/forecaster/person.py
+++ b/forecaster/person.py
@@ -150,8 +150,7 @@ class Person(TaxSource):
 
         # Now provide initial-year values for recorded properties:
         self.gross_income = gross_income # Money value
-        # NOTE: Be sure to set up tax_treatment before calling tax_withheld
-        self.net_income = self.gross_income - self.tax_withheld
+        # (net_income is determined when it's first needed.)
 
         # Finally, build an empty set for accounts to add themselves to
         # and a `data` dict for accounts to write unstructed data to.
-- 
2.43.0


From 3c7ee916d716244d937b74c7122130ea91b8ef29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:42 +0000
Subject: [PATCH 41/69] fix: keep the owner of an account when given an invalid
 one

---
 forecaster/accounts/base.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/forecaster/accounts/base.py b/forecaster/accounts/base.py
index 10f168e..f66c560 100644
--- a/forecaster/accounts/base.py
+++ b/forecaster/accounts/base.py
@@ -182,16 +182,16 @@ class Account(TaxSource):
     @owner.setter
     def owner(self, val):
         """ Sets the account's owner. """
+        # For new owners, do basic type-checks:
+        if val is not None and not isinstance(val, Person):
+            raise TypeError('Account: owner must be of type Person.')
+
         # Unregister this account from any former owner:
         if self.owner is not None:
             self.owner.accounts.remove(self)
 
-        # For new owners, do basic type-checks and then
-        # bind the account to the owner:
+        # Bind the account to the new owner:
         if val is not None:
-            if not isinstance(val, Person):
-                raise TypeError('Account: owner must be of type Person.')
-            # Register with new owner:
             val.accounts.add(self)
 
         self._owner = val
-- 
2.43.0


From 602ca39aa2e2539a6be4cfa4127324d39160fe7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:58 +0000
Subject: [PATCH 42/69] fix: build allocation strategies

---
 forecaster/forecaster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/forecaster.py b/forecaster/forecaster.py
index 41a3f29..d2c0623 100644
--- a/forecaster/forecaster.py
+++ b/forecaster/forecaster.py
@@ -491,5 +491,5 @@ class Forecaster(HighPrecisionOptional):
         other parameters.
         """
         return self.build_param(
-            Parameter.ALLOCATION_STRATEGY, AllocationStrategy, *args,
+            Parameter.ALLOCATION_STRATEGY, *args,
             _special_builder=False, **kwargs)
-- 
2.43.0


From a8721628dd4497774c672577dd84919812716a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:03 +0000
Subject: [PATCH 43/69] fix: let positional arguments replace settings

---
 forecaster/forecaster.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/forecaster/forecaster.py b/forecaster/forecaster.py
index d2c0623..ee3623a 100644
--- a/forecaster/forecaster.py
+++ b/forecaster/forecaster.py
@@ -2,6 +2,7 @@
 
 from copy import copy, deepcopy
 from functools import reduce
+from inspect import signature
 from enum import Enum
 from forecaster.forecast import (
     Forecast, IncomeForecast, LivingExpensesForecast,
@@ -338,6 +339,8 @@ class Forecaster(HighPrecisionOptional):
         if _special_builder and param_name in self.default_builders:
             return getattr(
                 self, self.default_builders[param_name])(*args, **kwargs)
+        if param_type is None:
+            param_type = self.default_types[param_name]
         # For everything else, use the user-provided defaults and fill
         # in the gaps with the settings-provided defaults:
         if param_name in self.default_values:
@@ -349,14 +352,15 @@ class Forecaster(HighPrecisionOptional):
             for key, value in default_values.items():
                 default_values[key] = self._get_attr_recursive(value, memo=memo)
             # If any values have been provided explicitly, override
-            # the defaults with that:
+            # the defaults with that (whether they have been provided
+            # by position or by name):
+            for key in signature(param_type).bind_partial(*args).arguments:
+                default_values.pop(key, None)
             default_values.update(kwargs)
             kwargs = default_values
         # Build a new object (note that we don't set the corresponding
         # attribute of Forecaster; if this is called again, we'll build
         # a new object)
-        if param_type is None:
-            param_type = self.default_types[param_name]
         # Pass `high_precision` as a kwarg if the type supports it:
         is_high_precision_type = any(
             issubclass(param_type, high_precision_type)
-- 
2.43.0


From 2fb4c7d4bc54fa60ecfadcc58ae82c43984f78c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:08 +0000
Subject: [PATCH 44/69] fix: adjust living expenses to inflation only if
 settings say so

---
 forecaster/forecaster.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/forecaster/forecaster.py b/forecaster/forecaster.py
index ee3623a..2b5e707 100644
--- a/forecaster/forecaster.py
+++ b/forecaster/forecaster.py
@@ -91,7 +91,7 @@ DEFAULTTYPES = {
 # This maps certain parameters that need special init logic to
 # the method name that provides that logic.
 DEFAULTBUILDERS = {
-    # str(Parameter.TAX_TREATMENT): "build_tax_treatment"
+    str(Parameter.LIVING_EXPENSES_STRATEGY): "build_living_expenses_strategy"
 }
 
 # Types that can receive the callable argument `high_precision` at init:
@@ -337,8 +337,8 @@ class Forecaster(HighPrecisionOptional):
         # (The special builder method can call this one by setting
         # `_special_builder` to False.)
         if _special_builder and param_name in self.default_builders:
-            return getattr(
-                self, self.default_builders[param_name])(*args, **kwargs)
+            return getattr(self, self.default_builders[param_name])(
+                *args, param_type=param_type, memo=memo, **kwargs)
         if param_type is None:
             param_type = self.default_types[param_name]
         # For everything else, use the user-provided defaults and fill
@@ -481,6 +481,19 @@ class Forecaster(HighPrecisionOptional):
             param_name, *args, param_type=param_type, memo=memo, **kwargs)
         setattr(self, param_name, param)
 
+    def build_living_expenses_strategy(self, *args, **kwargs):
+        """ Builds a living expenses strategy.
+
+        This has the same arguments as `build_param` (except for
+        `param_name`). Living expenses are only adjusted to inflation
+        by default if `settings` provides for that.
+        """
+        if not self.settings.living_expenses_inflation_adjust:
+            kwargs.setdefault('inflation_adjust', None)
+        return self.build_param(
+            Parameter.LIVING_EXPENSES_STRATEGY, *args,
+            _special_builder=False, **kwargs)
+
     def build_allocation_strategy(self, *args, **kwargs):
         """ Convenience method to build an allocation strategy.
 
-- 
2.43.0


From ed65f6c5625cd05450c7917467602821521754b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:19 +0000
Subject: [PATCH 45/69] fix: cache high-precision values for each object
 separately

---
 forecaster/utility/precision.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/forecaster/utility/precision.py b/forecaster/utility/precision.py
index a2e85cd..4b42c33 100644
--- a/forecaster/utility/precision.py
+++ b/forecaster/utility/precision.py
@@ -107,9 +107,13 @@ class HighPrecisionOptionalPropertyCached(HighPrecisionOptionalProperty):
 
     def __init__(self):
         super().__init__()
-        # Cached values (for efficient calls to __get__):
-        self._high_precision_cache = None
-        self._high_precision_value_cache = None
+        # Name of the attribute of each object that holds its cached
+        # value (for efficient calls to __get__). Set by __set_name__
+        self.cache_name = None
+
+    def __set_name__(self, owner, name):
+        super().__set_name__(owner, name)
+        self.cache_name = '_' + name + '_cache'
 
     def __get__(self, obj, objtype=None, *, high_precision=None):
         # When called by metaclass on class init, `obj` is None:
@@ -127,13 +131,14 @@ class HighPrecisionOptionalPropertyCached(HighPrecisionOptionalProperty):
 
         # Check to see if the previous return value is cached and can
         # be used for these inputs:
+        cache = getattr(obj, self.cache_name, None)
         if (
                 # Confirm we have a cached value (this fails if a new
                 # value has been set since the last call to __get__):
-                self._high_precision_value_cache is not None and
+                cache is not None and
                 # Confirm that the conversion method is the same:
-                self._high_precision_cache == high_precision):
-            return self._high_precision_value_cache
+                cache[0] == high_precision):
+            return cache[1]
 
         # If we can't use the cache, calculate a fresh value:
         value = super().__get__(
@@ -143,15 +148,14 @@ class HighPrecisionOptionalPropertyCached(HighPrecisionOptionalProperty):
             high_precision=high_precision)
 
         # Update the cache to make the next call more efficient:
-        self._high_precision_value_cache = value
-        self._high_precision_cache = high_precision
+        setattr(obj, self.cache_name, (high_precision, value))
 
         return value
 
     def __set__(self, obj, value):
         super().__set__(obj, value)
         # Invalidate the cache
-        self._high_precision_value_cache = None
+        setattr(obj, self.cache_name, None)
 
 class HighPrecisionOptional(object):
     """ Supports both native and high-precision numerical types.
-- 
2.43.0


From 638db591a7b45dd923d40d8aeb1ef42e790db3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:23 +0000
Subject: [PATCH 46/69] fix: convert the inverse of the accumulation function
 to high precision

---
 forecaster/accounts/util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/forecaster/accounts/util.py b/forecaster/accounts/util.py
index 904a7b9..1e126b7 100644
--- a/forecaster/accounts/util.py
+++ b/forecaster/accounts/util.py
@@ -116,11 +116,12 @@ def accumulation_function_inverse(accum, rate, nper=1, *, high_precision=None):
     if nper is None:
         # math.exp(rate * t) throws a warning, since there's an
         # implicit float-Decimal multiplication.
-        timing = math.log(accum, high_precision(math.e)) / rate
+        timing = high_precision(math.log(accum)) / rate
     # Otherwise use the discrete formula: a=(1+r/n)^nt
     # Derive from this t=log(a,1+r/n)/n
     else:
-        timing = math.log(accum, high_precision(1) + rate / nper) / nper
+        timing = high_precision(
+            math.log(accum, high_precision(1) + rate / nper)) / nper
 
     return timing
 
-- 
2.43.0


From d81c8c90de6c9ab27b22352d3c276dc03a122ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:28 +0000
Subject: [PATCH 47/69] fix: convert timings based on a frequency to high
 precision

---
 forecaster/utility/timing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/forecaster/utility/timing.py b/forecaster/utility/timing.py
index 005fddd..ea25303 100644
--- a/forecaster/utility/timing.py
+++ b/forecaster/utility/timing.py
@@ -79,6 +79,8 @@ class Timing(dict):
             if isinstance(when, str) and when in FREQUENCY_MAPPING:
                 frequency = when
                 when = WHEN_DEFAULT  # default value
+                if high_precision is not None:
+                    when = high_precision(when)
             # Arguments might be str-valued; make them numeric:
             when = when_conv(when, high_precision=high_precision)
             frequency = frequency_conv(frequency)
-- 
2.43.0


From 056a6c5e6dfd703485aa0d7ee02e3c28f17baea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:17 +0000
Subject: [PATCH 48/69] fix: convert payments of debts to high precision

---
 forecaster/accounts/debt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forecaster/accounts/debt.py b/forecaster/accounts/debt.py
index 4e13510..b991c56 100644
--- a/forecaster/accounts/debt.py
+++ b/forecaster/accounts/debt.py
@@ -77,7 +77,7 @@ class Debt(Account):
 
     @minimum_payment.setter
     def minimum_payment(self, val):
-        self._minimum_payment = val # Money value
+        self._minimum_payment = self.precision_convert(val) # Money value
 
     @property
     def accelerated_payment(self):
@@ -86,7 +86,7 @@ class Debt(Account):
 
     @accelerated_payment.setter
     def accelerated_payment(self, val):
-        self._accelerated_payment = val # Money value
+        self._accelerated_payment = self.precision_convert(val) # Money value
 
     @property
     def min_inflow_limit(self):
-- 
2.43.0


From c803f3641334ab84a499b99a260fa0f37e6c22b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:38 +0000
Subject: [PATCH 49/69] fix: convert timings of tax payments and refunds to
 high precision

---
 forecaster/tax.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/forecaster/tax.py b/forecaster/tax.py
index dad2d9e..9734625 100644
--- a/forecaster/tax.py
+++ b/forecaster/tax.py
@@ -280,7 +280,8 @@ class Tax(HighPrecisionOptional):
     @payment_timing.setter
     def payment_timing(self, val):
         """ Sets `payment_timing`. """
-        self._payment_timing = Timing(val)
+        self._payment_timing = Timing(
+            val, high_precision=self.high_precision)
 
     @property
     def refund_timing(self):
@@ -290,7 +291,8 @@ class Tax(HighPrecisionOptional):
     @refund_timing.setter
     def refund_timing(self, val):
         """ Sets `refund_timing`. """
-        self._refund_timing = Timing(val)
+        self._refund_timing = Timing(
+            val, high_precision=self.high_precision)
 
     def marginal_bracket(self, taxable_income, year):
         """ The top tax bracket that taxable_income falls into. """
-- 
2.43.0


From 7f6f67674578b9c4ab65220733356e79ebd9f723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:43 +0000
Subject: [PATCH 50/69] fix: let Canadian taxes use high precision

---
 forecaster/canada/tax.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/forecaster/canada/tax.py b/forecaster/canada/tax.py
index fc6b6f0..46dd380 100644
--- a/forecaster/canada/tax.py
+++ b/forecaster/canada/tax.py
@@ -29,6 +29,7 @@ class TaxCanadaJurisdiction(Tax):
             inflation_adjust=inflation_adjustments,
             refund_timing=self.constants.TAX_REFUND_TIMING,
             payment_timing=self.constants.TAX_PAYMENT_TIMING,
+            high_precision=high_precision,
             **kwargs)
 
         self.jurisdiction = jurisdiction
-- 
2.43.0


From c91a4dbb7ef0bbdd8cf62c27410c87692a31e625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:43 +0000
Subject: [PATCH 51/69] fix: copy children of transaction nodes

---
 forecaster/strategy/transaction/node.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/forecaster/strategy/transaction/node.py b/forecaster/strategy/transaction/node.py
index a190bf9..0a95fa6 100644
--- a/forecaster/strategy/transaction/node.py
+++ b/forecaster/strategy/transaction/node.py
@@ -54,6 +54,7 @@ class TransactionNode:
             # Copy initialization:
             self.source = source.source
             self.limits = source.limits
+            self.children = source.children
             return
 
         # Hold on to the original list/dict/whatever.
-- 
2.43.0


From 0b1400046dc113eda57e9ee9ad2761088a20c819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:52 +0000
Subject: [PATCH 52/69] fix: exhaust every path through a child of an ordered
 node before the next child

---
 forecaster/strategy/transaction/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index 46ae4e2..6728ed5 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -1059,7 +1059,7 @@ class TransactionTraversal(HighPrecisionOptional):
             # Ensure that assigning flows to the next child in sequence
             # has a penalty larger than any path through the current
             # child's successors:
-            weight = max(weight, _sum_weight(self.graph, child)) + 1
+            weight += _sum_weight(self.graph, child) + 1
 
     def _add_node_leaf(
             self, node, child, *, capacity=None, **kwargs):
-- 
2.43.0


From bea4a3e7a9d600cc29be5751d586d0dee36778c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:54 +0000
Subject: [PATCH 53/69] fix: lift limits on overflows once children are
 balanced

---
 forecaster/strategy/transaction/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index 6728ed5..a520738 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -1019,7 +1019,9 @@ class TransactionTraversal(HighPrecisionOptional):
                 outbound_nodes=self.outbound_nodes)
             self._balance_flows(node, children=children, **kwargs)
             # Undo the foregoing mutation of edges from `overflow_node`:
-            _unrestrict_overflow(self.graph, node, self.overflow_nodes)
+            _unrestrict_overflow(
+                self.graph, node, self.overflow_nodes,
+                outbound_nodes=self.outbound_nodes)
 
     def _add_node_ordered(
             self, node, children, *, capacity=None, **kwargs):
-- 
2.43.0


From e104cda30c0e141b64ef3054a873409e3a4fa4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:59 +0000
Subject: [PATCH 54/69] fix: don't divert overflows to children that are being
 balanced

---
 forecaster/strategy/transaction/graph.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/forecaster/strategy/transaction/graph.py b/forecaster/strategy/transaction/graph.py
index 988c9e2..24af061 100644
--- a/forecaster/strategy/transaction/graph.py
+++ b/forecaster/strategy/transaction/graph.py
@@ -410,7 +410,11 @@ def _restrict_overflow(
                 capacity = flows[overflow_node][child]
             else:
                 capacity = 0
-            edge_data = {CAPACITY_KEY: capacity}
+            # Make these flows part of the 0-weight capacity of `child`,
+            # so that they aren't diverted to `children` (at no cost).
+            if capacity > 0:
+                graph[outbound_node][child][CAPACITY_KEY] += capacity
+            edge_data = {CAPACITY_KEY: 0}
             graph.add_edge(overflow_node, child, **edge_data)
 
 def _unrestrict_overflow(
-- 
2.43.0


From 25744877605e5c17cf2636ac78245ca9ee8f696b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:47 +0000
Subject: [PATCH 55/69] fix: assign minimum outflows

---
 forecaster/strategy/transaction/base.py  | 56 ++++++++++++++++++------
 forecaster/strategy/transaction/graph.py |  3 ++
 2 files changed, 46 insertions(+), 13 deletions(-)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index a520738..1637156 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -448,6 +448,13 @@ class TransactionTraversal(HighPrecisionOptional):
 
         # networkx has unexpected behaviour for non-int edge capacities,
         # so inflate total based on the EPSILON precision constant.
+        # If `total` is unlimited then it's the accounts that limit flow.
+        # (Nodes need to know their finite inbound capacity to divide it
+        # between their children.)
+        if abs(total) == float('inf'):
+            total = sum(
+                self._get_transaction_limit(account, **kwargs)
+                for account in _get_accounts(self._priority_tree))
         # We can ignore infinite-valued `total`, which is dealt with
         # in `_add_edge` (and can't be cast to `int`):
         if abs(total) < float('inf'):
@@ -605,10 +612,12 @@ class TransactionTraversal(HighPrecisionOptional):
             if limit_value is not None:
                 # Scale up the limit value by `precision` to avoid
                 # rounding issues:
-                limit_value /= self.precision
+                # (Limits on outflows are negative; capacities aren't.)
+                limit_value = abs(limit_value) / self.precision
                 # Reduce `limit_value` based on any memoized flows
                 # through `node`:
                 limit_value -= _flows_through(node, flows=self.memo)
+                limit_value = max(limit_value, 0)
                 # Use the lesser of `capacity` and `limit_value`;
                 # successors use this to determine their edge capacities
                 capacity = min(capacity, limit_value)
@@ -1104,6 +1113,33 @@ class TransactionTraversal(HighPrecisionOptional):
         # Recurse onto the child:
         self._add_successors(child, **kwargs)
 
+    def _get_transaction_limit(self, account, timing=None, limit=None):
+        """ Finds the total amount that can be transacted with `account`.
+
+        Args:
+            account (Hashable): An account (of any type).
+            timing (Timing): The timing of account transactions.
+            limit (str): The name for the appropriate attribute of
+                `LimitTuple` to use for this traversal (e.g.
+                "min_inflow", "max_outflow")
+
+        Returns:
+            (float, HighPrecisionType): The sum of transactions to
+            (positive) or from (negative) the account for `limit`.
+        """
+        transactions = _get_transactions(
+            account, limit, timing,
+            transaction_methods=self.transaction_methods)
+        transaction_limit = sum(transactions.values())
+        # Ideally if we're operating in a high-precision mode,
+        # `transaction_limit` will already be in a high-precision type
+        # (to match self.precision), but if not then we need to convert:
+        if (
+                self.high_precision is not None and
+                isinstance(transaction_limit, float)):
+            transaction_limit = self.high_precision(transaction_limit)
+        return transaction_limit
+
     def _add_node_account(
             self, node, *args,
             timing=None, limit=None, **kwargs):
@@ -1150,19 +1186,11 @@ class TransactionTraversal(HighPrecisionOptional):
         # inbound edges. It's dictated by the account itself.
         # Query the account for the time-series of transactions that
         # defines its capacity for the given `limit`:
-        transactions = _get_transactions(
-            node, limit, timing, transaction_methods=self.transaction_methods)
-        transaction_limit = sum(transactions.values())
-        # Ideally if we're operating in a high-precision mode,
-        # `transaction_limit` will already be in a high-precision type
-        # (to match self.precision), but if not then we need to convert:
-        if (
-                self.high_precision is not None and
-                isinstance(transaction_limit,float)):
-            transaction_limit = self.high_precision(transaction_limit)
+        transaction_limit = self._get_transaction_limit(
+            node, timing=timing, limit=limit)
         # Scale up based on the precision (as we do with all edge
-        # capacities):
-        capacity = transaction_limit / self.precision
+        # capacities, which aren't negative even for outflows):
+        capacity = abs(transaction_limit) / self.precision
 
         # Most accounts add an edge straight to `sink`, but accounts
         # that have shared transaction limits have special treatment:
@@ -1174,6 +1202,7 @@ class TransactionTraversal(HighPrecisionOptional):
             # of the linked nodes of the group)
             # This prevents inadvertent over-contribution/withdrawal:
             capacity -= _flows_through(group_node, flows=self.memo)
+            capacity = max(capacity, 0)
             _add_edge(
                 self.graph, node, group_node,
                 capacity=capacity, limit=capacity)
@@ -1183,6 +1212,7 @@ class TransactionTraversal(HighPrecisionOptional):
         else:
             # Reduce capacity based on any memoized flows through `node`
             capacity -= _flows_through(node, flows=self.memo)
+            capacity = max(capacity, 0)
 
         # Send an edge from the node to the sink, if provided:
         if self.sink is not None:
diff --git a/forecaster/strategy/transaction/graph.py b/forecaster/strategy/transaction/graph.py
index 24af061..f5b3153 100644
--- a/forecaster/strategy/transaction/graph.py
+++ b/forecaster/strategy/transaction/graph.py
@@ -149,7 +149,10 @@ def _add_edge(
 
         # Reduce capacity by any previously-allocated flows over this
         # edge:
+        # (Minimum outflows are assigned even if they exceed the total,
+        # so there might not be any capacity left.)
         capacity -= _flows_through(from_node, to_node, flows=memo)
+        capacity = max(capacity, 0)
         # Only assign `capacity` as an edge value if it is finite.
         # (networkx doesn't deal well with float('inf'). The
         # "capacity" attr should be absent if capacity is unbounded.)
-- 
2.43.0


From 328e9c405bafbedb366a910f43254e52068fd079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:44 +0000
Subject: [PATCH 56/69] fix: give all remaining capacity to children with fewer
 flows than their weights dictate

---
 forecaster/strategy/transaction/base.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index 1637156..85198ce 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -789,11 +789,9 @@ class TransactionTraversal(HighPrecisionOptional):
             recurse_children = {
                 child: weight for child, weight in children.items()
                 if totals[child] > 0}
-            # Capacity should be restored to its original value...
+            # Capacity should be restored to its original value. (All of
+            # it goes to them; earlier flows don't count against it.)
             capacity -= flows
-            # ... and further reduced by the amount of excess flows
-            # previously allocated to some children:
-            capacity += sum(total for total in totals.values() if total < 0)
             self._add_weighted_children(
                 node, recurse_children, capacity, **kwargs)
             # As for the children that have been over-allocated flow,
-- 
2.43.0


From 2fedab0d381074b888480683b99b885f2f26f0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:06 +0000
Subject: [PATCH 57/69] fix: accept the methods that are passed to
 TransactionTraversal

---
 forecaster/strategy/transaction/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index 85198ce..93253a0 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -186,11 +186,11 @@ class TransactionTraversal(HighPrecisionOptional):
         if transaction_methods is None:
             self.transaction_methods = transaction_default_methods()
         else:
-            self.transaction_methods = LimitTuple(transaction_methods)
+            self.transaction_methods = LimitTuple(*transaction_methods)
         if group_methods is None:
             self.group_methods = group_default_methods()
         else:
-            self.group_methods = LimitTuple(group_methods)
+            self.group_methods = LimitTuple(*group_methods)
         # Convert `precision` to high-precision if it's the default
         # argument and a conversion method has been passed:
         if precision == EPSILON and self.high_precision is not None:
-- 
2.43.0


From 2e12b81cea744d32aeff77ac68e656776f2f53e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:10 +0000
Subject: [PATCH 58/69] fix: don't assign minimum transactions unless asked to

---
 forecaster/strategy/debt_payment/base.py | 2 +-
 forecaster/strategy/transaction/base.py  | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/forecaster/strategy/debt_payment/base.py b/forecaster/strategy/debt_payment/base.py
index 261c3b4..d784e0e 100644
--- a/forecaster/strategy/debt_payment/base.py
+++ b/forecaster/strategy/debt_payment/base.py
@@ -60,7 +60,7 @@ class DebtPaymentStrategy(Strategy, HighPrecisionOptional):
         """
         strategy = TransactionTraversal(
             priority=sorted_debts, high_precision=self.high_precision)
-        result = strategy(available, assign_min_first=assign_minimums)
+        result = strategy(available, assign_min=assign_minimums)
         return result
 
     @strategy_method(SNOWBALL_KEY)
diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index 93253a0..b3dbf06 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -261,9 +261,11 @@ class TransactionTraversal(HighPrecisionOptional):
         self.outbound_nodes = {}
         self.overflow_nodes = {}
         # Build and traverse a graph based on `priority`
-        # First traverse to assign min. flows:
-        min_transactions = self._traverse_priority(
-            min_total, available, min_limit)
+        # First traverse to assign min. flows (if requested):
+        min_transactions = {}
+        if assign_min:
+            min_transactions = self._traverse_priority(
+                min_total, available, min_limit)
         # Then traverse to assign max. flows. Pass in `memo` to ensure
         # that the flows assigned previously are respected
         max_transactions = self._traverse_priority(
-- 
2.43.0


From dc759b0da73e17d6d8b1e77c35a13745ff4dbb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:35 +0000
Subject: [PATCH 59/69] fix: order low-interest debts when some debts are paid
 off

---
 forecaster/strategy/transaction/strategy.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/forecaster/strategy/transaction/strategy.py b/forecaster/strategy/transaction/strategy.py
index db0b13b..a0e3884 100644
--- a/forecaster/strategy/transaction/strategy.py
+++ b/forecaster/strategy/transaction/strategy.py
@@ -309,7 +309,6 @@ class TransactionStrategy(Strategy):
         # Get priority trees for each debt. These will be inserted into
         # the final priority tree differently (in-place replacement for
         # low-interest, prepending for high-interest.)
-        low_interest_priority = self.debt_priority(low_interest_debts)
         high_interest_priority = self.debt_priority(high_interest_debts)
 
         # Group together accounts that share weights (and map them to
@@ -318,8 +317,13 @@ class TransactionStrategy(Strategy):
             set(accounts) - high_interest_debts)
 
         # Ensure that low-interest debts are properly ordered, rather
-        # than assigned some default order based on their common typing:
-        subtrees = {low_interest_debts: low_interest_priority}
+        # than assigned some default order based on their common typing.
+        # (They might not all share a weight, and they might share it
+        # with debts that have been paid off.)
+        subtrees = {
+            group: self.debt_priority(group) for group in groups
+            if group & low_interest_debts
+            and all(isinstance(account, Debt) for account in group)}
 
         # Get the basic priority tree based on this strategy:
         priority = super().__call__(
-- 
2.43.0


From 4bd14d67ff48c6955f6e6e499a3c6a9a45774752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:10 +0000
Subject: [PATCH 60/69] fix: reduce shared limits by all earlier flows to the
 accounts that share them

---
 forecaster/strategy/transaction/base.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index b3dbf06..751b37b 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -1198,10 +1198,13 @@ class TransactionTraversal(HighPrecisionOptional):
         if group is not None:
             group_node = frozenset(group)  # make hashable
             # Reduce capacity based on any memoized flows through
-            # `group_node` (which accounts for all flows through all
-            # of the linked nodes of the group)
+            # any of the linked nodes of the group (which don't all
+            # pass through `group_node`; e.g. they might have a shared
+            # maximum but no shared minimum).
             # This prevents inadvertent over-contribution/withdrawal:
-            capacity -= _flows_through(group_node, flows=self.memo)
+            capacity -= sum(
+                _flows_through(account, flows=self.memo)
+                for account in group)
             capacity = max(capacity, 0)
             _add_edge(
                 self.graph, node, group_node,
-- 
2.43.0


From 0b98d9f4d3dc356c7125a1bea116b361605208c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:28 +0000
Subject: [PATCH 61/69] fix: read, set and delete an account's transactions by
 any timing

---
 forecaster/accounts/base.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/forecaster/accounts/base.py b/forecaster/accounts/base.py
index f66c560..96133e3 100644
--- a/forecaster/accounts/base.py
+++ b/forecaster/accounts/base.py
@@ -858,15 +858,18 @@ class Account(TaxSource):
         return when in self._transactions
 
     def __getitem__(self, key):
-        return self._transactions[key]
+        when = when_conv(key, high_precision=self.high_precision)
+        return self._transactions[when]
 
     def __setitem__(self, key, value):
-        if key in self._transactions:
-            del self._transactions[key]
-        self.add_transaction(value=value, when=key)
+        when = when_conv(key, high_precision=self.high_precision)
+        if when in self._transactions:
+            del self._transactions[when]
+        self.add_transaction(value=value, when=when)
 
     def __delitem__(self, key):
-        del self._transactions[key]
+        when = when_conv(key, high_precision=self.high_precision)
+        del self._transactions[when]
 
     def keys(self):
         """ The timings of the account's transactions. """
@@ -882,7 +885,8 @@ class Account(TaxSource):
 
     def get(self, key, default=None):
         """ Gets the transaction value at a particular timing. """
-        self._transactions.get(key, default=default)
+        when = when_conv(key, high_precision=self.high_precision)
+        return self._transactions.get(when, default)
 
     def clear(self):
         """ Clears all of the account's transactions. """
-- 
2.43.0


From c8617250a23cc88214f910fa9acb68c556b7a2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:48 +0000
Subject: [PATCH 62/69] fix: account mappings include transactions given as
 inputs

---
 forecaster/accounts/base.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/forecaster/accounts/base.py b/forecaster/accounts/base.py
index 96133e3..d96bb6b 100644
--- a/forecaster/accounts/base.py
+++ b/forecaster/accounts/base.py
@@ -847,50 +847,50 @@ class Account(TaxSource):
     # to redirect to `_transactions`, except for comparison
     # and serialization methods.
     def __len__(self):
-        return len(self._transactions)
+        return len(self.transactions)
 
     def __iter__(self):
-        for transaction in sorted(self._transactions.keys()):
+        for transaction in sorted(self.transactions.keys()):
             yield transaction
 
     def __contains__(self, key):
         when = when_conv(key, high_precision=self.high_precision)
-        return when in self._transactions
+        return when in self.transactions
 
     def __getitem__(self, key):
         when = when_conv(key, high_precision=self.high_precision)
-        return self._transactions[when]
+        return self.transactions[when]
 
     def __setitem__(self, key, value):
         when = when_conv(key, high_precision=self.high_precision)
-        if when in self._transactions:
-            del self._transactions[when]
+        if when in self.transactions:
+            del self.transactions[when]
         self.add_transaction(value=value, when=when)
 
     def __delitem__(self, key):
         when = when_conv(key, high_precision=self.high_precision)
-        del self._transactions[when]
+        del self.transactions[when]
 
     def keys(self):
         """ The timings of the account's transactions. """
-        return self._transactions.keys()
+        return self.transactions.keys()
 
     def values(self):
         """ The values of the account's transactions. """
-        return self._transactions.values()
+        return self.transactions.values()
 
     def items(self):
         """ The account's transactions, as {when: value} pairs. """
-        return self._transactions.items()
+        return self.transactions.items()
 
     def get(self, key, default=None):
         """ Gets the transaction value at a particular timing. """
         when = when_conv(key, high_precision=self.high_precision)
-        return self._transactions.get(when, default)
+        return self.transactions.get(when, default)
 
     def clear(self):
         """ Clears all of the account's transactions. """
-        self._transactions.clear()
+        self.transactions.clear()
 
     # Finally, add some methods for calculating growth (i.e. balance
     # at a future time and time to get to a future balance.)
-- 
2.43.0


From 1adbcf104cfb892ff60471c9e4aadf50f360bf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:56 +0000
Subject: [PATCH 63/69] fix: combine brackets and accumulated tax of
 jurisdictions that don't have the same brackets

---
 forecaster/tax.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/forecaster/tax.py b/forecaster/tax.py
index 9734625..33160cc 100644
--- a/forecaster/tax.py
+++ b/forecaster/tax.py
@@ -669,10 +669,9 @@ class TaxMulti(object):
     def tax_brackets(self, year, bracket=None):
         """ Combined tax brackets for year. """
         # If `bracket` is provided, we return a scalar:
+        # (Not every jurisdiction has every one of the combined brackets)
         if bracket is not None:
-            return sum(
-                tax.tax_brackets(year=year, bracket=bracket)
-                for tax in self.jurisdictions)
+            return self.tax_brackets(year)[bracket]
         # Otherwise we return a dict.
         # Get a dict for each jurisdiction:
         brackets = [tax.tax_brackets(year=year) for tax in self.jurisdictions]
@@ -691,9 +690,13 @@ class TaxMulti(object):
 
     def accum(self, year, bracket=None):
         """ The accumulated tax payable for a given tax bracket. """
-        return sum(
-            tax.accum(year=year, bracket=bracket)
-            for tax in self.jurisdictions)
+        # If `bracket` is provided, we return a scalar:
+        if bracket is not None:
+            return self.accum(year)[bracket]
+        # Otherwise we return a dict with the same keys as the combined
+        # tax brackets, i.e. the combined tax on income up to each bracket:
+        return {
+            key: self.tax_money(key, year) for key in self.tax_brackets(year)}
 
     def personal_deduction(self, year):
         """ Personal deduction for `year`. """
-- 
2.43.0


From 39926e2b7eb90429e6917e8fec3ac22b155c8f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:35 +0000
Subject: [PATCH 64/69] fix: find no time to reach a balance on the other side
 of zero, rather than raising

---
 forecaster/accounts/util.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/forecaster/accounts/util.py b/forecaster/accounts/util.py
index 1e126b7..bd4abb1 100644
--- a/forecaster/accounts/util.py
+++ b/forecaster/accounts/util.py
@@ -162,8 +162,17 @@ def time_to_value(rate, value_now, value_then, nper=1, *, high_precision=None):
 
     Returns:
         A Decimal object representing the time required to
-        grow (or shrink) from `value_now` to `value_then`.
+        grow (or shrink) from `value_now` to `value_then`. This is
+        infinite if `value_now` never becomes `value_then`.
     """
+    # Growth doesn't take a value to (or from) zero or change its sign:
+    if value_now * value_then <= 0:
+        if value_now == value_then:
+            time = 0
+        else:
+            time = float('inf')
+        return time if high_precision is None else high_precision(time)
+
     return accumulation_function_inverse(
         accum=value_then/value_now, rate=rate, nper=nper,
         high_precision=high_precision)
-- 
2.43.0


From 7679960f3da9d0e99b4ee16f0a637a4d7659496f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:53 +0000
Subject: [PATCH 65/69] fix: don't look back past a transaction for the time to
 reach a balance

---
 forecaster/accounts/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/forecaster/accounts/base.py b/forecaster/accounts/base.py
index d96bb6b..bd4b621 100644
--- a/forecaster/accounts/base.py
+++ b/forecaster/accounts/base.py
@@ -966,6 +966,9 @@ class Account(TaxSource):
             (key for key in self.transactions if key > when),
             default=time)
         if next_transaction < time:
-            time = self.time_to_balance(value, next_transaction)
+            # (The transaction may itself take the balance past `value`)
+            time = max(
+                self.time_to_balance(value, next_transaction),
+                next_transaction)
 
         return time
-- 
2.43.0


From f0bb33871803da0613c6cbacc6f2c470eb951540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:46 +0000
Subject: [PATCH 66/69] fix: get infinite parameters that are given as text,
 rather than raising

---
 forecaster/forecaster.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/forecaster/forecaster.py b/forecaster/forecaster.py
index 2b5e707..10edb5d 100644
--- a/forecaster/forecaster.py
+++ b/forecaster/forecaster.py
@@ -421,9 +421,9 @@ class Forecaster(HighPrecisionOptional):
             return explicit_attr
 
         # If the number is losslessly representable as an int, use that:
-        int_attr = int(float_attr)
-        if float_attr == int_attr:
-            return int_attr
+        # (There is no such int for infinity or NaN)
+        if float_attr.is_integer():
+            return int(float_attr)
 
         # Otherwise, if this is a true float, try to convert to
         # a high-precision numerical type if appropriate:
-- 
2.43.0


From f1dfc211de7cf55ca7909bad5eb2511816a64b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:57 +0000
Subject: [PATCH 67/69] fix: make no transactions where there are no accounts,
 rather than raising

---
 forecaster/strategy/transaction/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index 751b37b..af45c1d 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -493,6 +493,9 @@ class TransactionTraversal(HighPrecisionOptional):
         # and limit outbound capacity to actual maximum possible flows.
         self._balance_weighted_flows(**kwargs)
 
+        # There's no edge to the sink if there are no accounts:
+        self.graph.add_node(self.sink)
+
     def _add_successors(
             self, node, capacity=None, children=None, limit=None, **kwargs):
         """ Adds the children of `node` to `graph`.
-- 
2.43.0


From 3f929fa2a191af0336dea7ffbe125d1361ad6a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:48 +0000
Subject: [PATCH 68/69] fix: make no transactions to a weighted group without
 accounts, rather than raising

---
 forecaster/strategy/transaction/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index af45c1d..a31b487 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -716,8 +716,10 @@ class TransactionTraversal(HighPrecisionOptional):
             # `overflow_node`.
             # It should be preferable to shift flow between _any_
             # successor path before routing it through `overflow_node`.
-            weight = 1 + max(_sum_weight(
-                self.graph, child) for child in children)
+            # (A node without children has no such paths.)
+            weight = 1 + max(
+                (_sum_weight(self.graph, child) for child in children),
+                default=0)
             _add_edge(self.graph, node, overflow_node, weight=weight)
 
         # This deals with overflows, but not underflows - which are
-- 
2.43.0


From 072f0397aeed620d9f57a773a4bde000dba526d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:42 +0000
Subject: [PATCH 69/69] fix: bring the contributor up to date before
 determining contribution room

---
 forecaster/canada/accounts/registered_account.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/forecaster/canada/accounts/registered_account.py b/forecaster/canada/accounts/registered_account.py
index b8362d2..23a66e4 100644
--- a/forecaster/canada/accounts/registered_account.py
+++ b/forecaster/canada/accounts/registered_account.py
@@ -130,6 +130,11 @@ class RegisteredAccount(LinkedLimitAccount):
         # a chance to record the previous year's contribution room
         # before it's updated.
 
+        # Ensure that the contributor has been brought up to this year
+        # (next year's contribution room may depend on their income):
+        while self.contributor.this_year < self.this_year:
+            self.contributor.next_year()
+
         # Is this the first account in the linked group to be advanced?
         first_account = all(
             account.this_year == self.this_year
-- 
2.43.0

