From 9119534a5bae2abbd0683580bed2f81a482f6742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:40 +0000
Subject: [PATCH 01/54] fix: swap annuity accrues each period to its end date

---
 dcf/curves/interestratecurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/curves/interestratecurve.py b/dcf/curves/interestratecurve.py
index e0c3bb2..667b15b 100644
--- a/dcf/curves/interestratecurve.py
+++ b/dcf/curves/interestratecurve.py
@@ -275,7 +275,7 @@ class InterestRateCurve(RateCurve):
         """
         return sum(
             self.get_discount_factor(self.origin, e) * self.day_count(s, e)
-            for s, e in zip(date_list[:-1], date_list[0:])
+            for s, e in zip(date_list[:-1], date_list[1:])
         )
 
 
-- 
2.43.0


From 1e0553e00143839291ea537ea14f02b46078a7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:40 +0000
Subject: [PATCH 02/54] fix: cash rate of a tenor other than the forward tenor
 does not recurse forever

---
 dcf/curves/interestratecurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/curves/interestratecurve.py b/dcf/curves/interestratecurve.py
index 667b15b..b742c71 100644
--- a/dcf/curves/interestratecurve.py
+++ b/dcf/curves/interestratecurve.py
@@ -438,4 +438,4 @@ class CashRateCurve(InterestRateCurve):
             stop = start + self.forward_tenor if step is None else start + step
         if stop == start + self.forward_tenor:
             return self(start)
-        return super(CashRateCurve, self).get_cash_rate(start, stop)
+        return super(CashRateCurve, self)._get_cash_rate(start, stop)
-- 
2.43.0


From 7c6ab483ca548c704e556a944d72f76c180301f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:40 +0000
Subject: [PATCH 03/54] fix: flat intensity at a point other than the origin

---
 dcf/curves/creditcurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/curves/creditcurve.py b/dcf/curves/creditcurve.py
index 4bc85d4..fb43674 100644
--- a/dcf/curves/creditcurve.py
+++ b/dcf/curves/creditcurve.py
@@ -231,7 +231,7 @@ class FlatIntensityCurve(CreditCurve):
             return self(stop)
         if start == stop:
             return self._get_compounding_rate(
-                start, start + self.__class__._time_shift)
+                start, start + self.__class__._TIME_SHIFT)
 
         s = self(start) * self.day_count(self.origin, start)
         e = self(stop) * self.day_count(self.origin, stop)
-- 
2.43.0


From f33cccad18bebaf893b78358934e9204385b02df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:40 +0000
Subject: [PATCH 04/54] fix: annual rate interpolation returns exp(0)=1 at zero
 if zero is no node

---
 dcf/interpolation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcf/interpolation.py b/dcf/interpolation.py
index dd5b3a0..a9805ba 100755
--- a/dcf/interpolation.py
+++ b/dcf/interpolation.py
@@ -442,7 +442,7 @@ class loglinearrate(linear):
                 'log interpolation requires positive values. Got %s' % str(
                     y_list))
         z = [x for x in x_list if not x]
-        self._y_at_zero = y_list[x_list.index(z[0])] if z else None
+        self._y_at_zero = y_list[x_list.index(z[0])] if z else 1.0
         log_y_list = [log(y) / x for x, y in zip(x_list, y_list) if x]
         x_list = [x for x in x_list if x]
         super(loglinearrate, self).__init__(x_list, log_y_list)
@@ -490,7 +490,7 @@ class logconstantrate(constant):
         if not all(0. < y for y in y_list):
             raise ValueError('log interpolation requires positive values.')
         z = [x for x in x_list if not x]
-        self._y_at_zero = y_list[x_list.index(z[0])] if z else None
+        self._y_at_zero = y_list[x_list.index(z[0])] if z else 1.0
         log_y_list = [-log(y) / x for x, y in zip(x_list, y_list) if x]
         x_list = [x for x in x_list if x]
         super(logconstantrate, self).__init__(x_list, log_y_list)
-- 
2.43.0


From 3c9b5dcaece7e8b926791cff0522e5b6df718802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:40 +0000
Subject: [PATCH 05/54] fix: from_dict keeps the values for log interpolations

---
 dcf/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/interpolation.py b/dcf/interpolation.py
index a9805ba..0c1bcc3 100755
--- a/dcf/interpolation.py
+++ b/dcf/interpolation.py
@@ -66,7 +66,7 @@ class base_interpolation(object):
         :return: interpolation object
         """
 
-        return cls(sorted(xy_dict), (xy_dict[k] for k in sorted(xy_dict)))
+        return cls(sorted(xy_dict), [xy_dict[k] for k in sorted(xy_dict)])
 
 
 class flat(base_interpolation):
-- 
2.43.0


From 28c7e9e8b46e55163a046b6eac81d83ffc95eb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:05 +0000
Subject: [PATCH 06/54] fix: arithmetic of date curves keeps origin and day
 count, division works

---
 dcf/curves/curve.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index 95ada81..97c2535 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -464,29 +464,26 @@ class DateCurve(Curve):
     def __add__(self, other):
         new = super(DateCurve, self).__add__(
             other.shifted(self.origin - other.origin))
-        self.__class__(new.domain, new(new.domain), new._interpolation,
-                       self.origin, self._day_count)
-        return new
+        return self.__class__(new.domain, new(new.domain), new._interpolation,
+                              self.origin, self._day_count)
 
     def __sub__(self, other):
         new = super(DateCurve, self).__sub__(
             other.shifted(self.origin - other.origin))
-        self.__class__(new.domain, new(new.domain), new._interpolation,
-                       self.origin, self._day_count)
-        return new
+        return self.__class__(new.domain, new(new.domain), new._interpolation,
+                              self.origin, self._day_count)
 
     def __mul__(self, other):
         new = super(DateCurve, self).__mul__(
             other.shifted(self.origin - other.origin))
-        self.__class__(new.domain, new(new.domain), new._interpolation,
-                       self.origin, self._day_count)
-        return new
+        return self.__class__(new.domain, new(new.domain), new._interpolation,
+                              self.origin, self._day_count)
 
     def __div__(self, other):
         new = super(DateCurve, self).__div__(
             other.shifted(self.origin - other.origin))
-        new.origin = self.origin
-        return new
+        return self.__class__(new.domain, new(new.domain), new._interpolation,
+                              self.origin, self._day_count)
 
     def day_count(self, start, end=None):
         """ day count function to calculate a year fraction of time period
-- 
2.43.0


From ae67c9b57a6b76624da262f3fbb3156753209ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:32 +0000
Subject: [PATCH 07/54] fix: iterating over a curve iterates over its domain

---
 dcf/curves/curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index 97c2535..f46f21b 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -268,7 +268,7 @@ class Curve(object):
         return item in self.domain
 
     def __iter__(self):
-        return self.domain
+        return iter(self.domain)
 
     def __getitem__(self, item):
         if item in self:
-- 
2.43.0


From 6fbb80d4124f02511d3c7ea2c5d924edd1fc8d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:32 +0000
Subject: [PATCH 08/54] fix: forward curve extrapolates from its latest date if
 the domain is unsorted

---
 dcf/curves/curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index f46f21b..2b4005c 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -631,7 +631,7 @@ class ForwardCurve(DateCurve):
         :param value_date: future date of asset price
         :return: asset forward price at **value_date**
         """
-        last_date = self.domain[-1]
+        last_date = max(self.domain)
         if value_date <= last_date:
             return super().__call__(value_date)
         last_price = super().__call__(last_date)
-- 
2.43.0


From 13772eb560768ceb9d73867b44fd54e2a85d896b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:55 +0000
Subject: [PATCH 09/54] fix: casting a curve keeps the origin the values refer
 to

---
 dcf/curves/curve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index 2b4005c..7f7e2ad 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -425,7 +425,7 @@ class DateCurve(Curve):
             domain = data.domain
         elif isinstance(data, DateCurve):
             interpolation = interpolation or data.kwargs.interpolation
-            origin = origin or data.kwargs.origin
+            origin = data.origin if origin is None else origin
             day_count = day_count or data.kwargs.day_count
             data = data(domain)  # assuming data is a list of dates !
 
@@ -734,7 +734,7 @@ class RateCurve(DateCurve):
             # interpolation = other.interpolation
             # interpolation = \
             #     interpolation or other.kwargs.get('interpolation', None)
-            origin = origin or other.kwargs.origin
+            origin = other.origin if origin is None else origin
             day_count = day_count or other.kwargs.day_count
 
         super(RateCurve, self).__init__(
-- 
2.43.0


From dabef110ad583247a0d696214ec39306f6f0e1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:55 +0000
Subject: [PATCH 10/54] fix: inverse fx pair swaps domestic and foreign curve

---
 dcf/curves/fx.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dcf/curves/fx.py b/dcf/curves/fx.py
index 01c54c0..e74b709 100755
--- a/dcf/curves/fx.py
+++ b/dcf/curves/fx.py
@@ -28,7 +28,7 @@ class FxForwardCurve(ForwardCurve):
         self.foreign_curve = foreign_curve
 
     def get_forward_price(self, value_date):
-        last_date = self.domain[-1]
+        last_date = max(self.domain)
         if value_date <= last_date:
             return super().get_forward_price(value_date)
         else:
@@ -165,8 +165,8 @@ class FxContainer(dict):
                            foreign_curve=foreign_curve)
         self[foreign_currency, self.currency] = \
             FxForwardCurve([self.domestic_curve.origin], [1 / fx_spot],
-                           domestic_curve=self.domestic_curve,
-                           foreign_curve=foreign_curve)
+                           domestic_curve=foreign_curve,
+                           foreign_curve=self.domestic_curve)
         # _update relevant FxCurves
         f = foreign_currency
         new = dict()
-- 
2.43.0


From 4175aa45adbb7f39b31a8be69725b05b37c3a1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:12 +0000
Subject: [PATCH 11/54] fix: adding a currency again updates its cross rates

---
 dcf/curves/fx.py | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/dcf/curves/fx.py b/dcf/curves/fx.py
index e74b709..aa282d3 100755
--- a/dcf/curves/fx.py
+++ b/dcf/curves/fx.py
@@ -171,22 +171,16 @@ class FxContainer(dict):
         f = foreign_currency
         new = dict()
         for d, s in self:
-            if s is self.currency and d is not foreign_currency:
+            if s == self.currency and not d == foreign_currency:
                 triangulated = self[d, s](self.domestic_curve.origin) * fx_spot
-                if (d, f) in self:
-                    self[d, f].foreign_curve = foreign_curve
-                    self[d, f].fx_spot = triangulated
-                    self[f, d].domestic_curve = foreign_curve
-                    self[f, d].fx_spot = 1 / triangulated
-                else:
-                    new[d, f] = FxForwardCurve(
-                        [self.domestic_curve.origin], [triangulated],
-                        domestic_curve=self[d, s].domestic_curve,
-                        foreign_curve=foreign_curve)
-                    new[f, d] = FxForwardCurve(
-                        [self.domestic_curve.origin], [1 / triangulated],
-                        domestic_curve=foreign_curve,
-                        foreign_curve=self[d, s].domestic_curve)
+                new[d, f] = FxForwardCurve(
+                    [self.domestic_curve.origin], [triangulated],
+                    domestic_curve=self[d, s].domestic_curve,
+                    foreign_curve=foreign_curve)
+                new[f, d] = FxForwardCurve(
+                    [self.domestic_curve.origin], [1 / triangulated],
+                    domestic_curve=foreign_curve,
+                    foreign_curve=self[d, s].domestic_curve)
         self.update(new)
 
     def get_forward_price(self, domestic_currency, foreign_currency,
-- 
2.43.0


From 4f9f1eb80ed9c5b7d27f723026753dce4e54169e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:12 +0000
Subject: [PATCH 12/54] fix: greeks are calculated with the time to expiry, not
 the date

---
 dcf/models/optionpricing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dcf/models/optionpricing.py b/dcf/models/optionpricing.py
index 3858226..f0ec0cd 100644
--- a/dcf/models/optionpricing.py
+++ b/dcf/models/optionpricing.py
@@ -337,7 +337,7 @@ class OptionPayOffModel(OptionPricingFormula):
         if not vol or not time:
             return 0.0
         if not self.bump_greeks:
-            gamma = self._call_gamma(date, strike, fwd, vol)
+            gamma = self._call_gamma(time, strike, fwd, vol)
             if gamma is not None:
                 return gamma * (scale ** 2)
         gamma = self._call_price(time, strike, fwd + shift, vol)
@@ -384,7 +384,7 @@ class OptionPayOffModel(OptionPricingFormula):
             if vega is not None:
                 return vega * scale
         vega = self._call_price(time, strike, fwd, vol + shift)
-        vega -= self._call_price(date, strike, fwd, vol)
+        vega -= self._call_price(time, strike, fwd, vol)
         vega *= scale / shift
         return vega
 
@@ -422,7 +422,7 @@ class OptionPayOffModel(OptionPricingFormula):
         if not vol or not time:
             return 0.0
         if not self.bump_greeks:
-            theta = self._call_theta(date, strike, fwd, vol)
+            theta = self._call_theta(time, strike, fwd, vol)
             if theta is not None:
                 return theta * scale
         theta = self._call_price(time + shift, strike, fwd, vol)
-- 
2.43.0


From 9641b78ee13539f5869dca21dacd7b9d1856a13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:12 +0000
Subject: [PATCH 13/54] fix: binary option model uses the given strike shift

---
 dcf/models/optionpricing.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dcf/models/optionpricing.py b/dcf/models/optionpricing.py
index f0ec0cd..2f6f670 100644
--- a/dcf/models/optionpricing.py
+++ b/dcf/models/optionpricing.py
@@ -476,6 +476,9 @@ class BinaryOptionPayOffModel(OptionPayOffModel):
 
         """
         self._inner = pricing_formula
+        self._strike_shift = \
+            self.__class__.STRIKE_SHIFT if strike_shift is None \
+            else strike_shift
         if isinstance(pricing_formula, OptionPayOffModel):
             valuation_date = valuation_date or pricing_formula.valuation_date
             forward_curve = forward_curve or pricing_formula.forward_curve
@@ -486,7 +489,7 @@ class BinaryOptionPayOffModel(OptionPayOffModel):
                          day_count, bump_greeks=True)
 
     def _call_price(self, time, strike, forward, volatility):
-        shift = self.__class__.STRIKE_SHIFT
+        shift = self._strike_shift
         high_strike = strike + shift / 2
         low_strike = strike - shift / 2
         call = self._inner(time, low_strike, forward, volatility)
-- 
2.43.0


From 71c56927e004088486b583e67b16aef8b88f4b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:12 +0000
Subject: [PATCH 14/54] fix: annuity plan without interest

---
 dcf/plans.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dcf/plans.py b/dcf/plans.py
index 4b49e38..f96dd9d 100644
--- a/dcf/plans.py
+++ b/dcf/plans.py
@@ -64,6 +64,8 @@ def annuity(num, amount=DEFAULT_AMOUNT, fixed_rate=FIXED_RATE):
     Payment plan
     $$X_i = \frac{r}{(1 + r)^{n-i}} \cdot N \text{ for } i=1 \dots n$$
     """
+    if not fixed_rate:
+        return amortize(num, amount)
     q = 1. + fixed_rate
     a = amount * (q - 1) / (q ** int(num) - 1)
     return list(a * q ** i for i in range(int(num)))
-- 
2.43.0


From ab428dcfa0ec9265000cf2f390427847f24b68df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:12 +0000
Subject: [PATCH 15/54] fix: error message of too long option strategies

---
 dcf/cashflows/contingent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/cashflows/contingent.py b/dcf/cashflows/contingent.py
index 661fea3..aac1b4d 100644
--- a/dcf/cashflows/contingent.py
+++ b/dcf/cashflows/contingent.py
@@ -181,7 +181,7 @@ class OptionStrategyCashflowList(ContingentCashFlowList):
         if 10 < len(put_strike_list) + len(call_strike_list):
             raise KeyError('OptionStrategyCashflowList are limited '
                            'to 10 options per strategy payoff not '
-                           '%d' % len(put_strike_list) + len(call_strike_list))
+                           '%d' % (len(put_strike_list) + len(call_strike_list)))
         payoff_list = list()
         for expiry in payment_date_list:
             if pay_offset:
-- 
2.43.0


From b68000fc6c742cde1333779f24077b1adaaa3aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:12 +0000
Subject: [PATCH 16/54] fix: payment dates of products given by numbers

---
 dcf/cashflows/products.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcf/cashflows/products.py b/dcf/cashflows/products.py
index a60546c..2766949 100644
--- a/dcf/cashflows/products.py
+++ b/dcf/cashflows/products.py
@@ -39,12 +39,12 @@ def _interest_payment_dates(
     else:
         payment_date_list = [end_date]
         cnt = 1
-        while start_date + period <= payment_date_list[0]:
+        while start_date + period < payment_date_list[-1]:
             payment_date_list.append(end_date - period * cnt)
             cnt += 1
         payment_date_list.reverse()
         for d in payment_date_list:
-            if hasattr('adjust', d):
+            if hasattr(d, 'adjust'):
                 d.adjust(convention, holidays)
         return payment_date_list
 
-- 
2.43.0


From a300728149488ce71c809a93210115bccbba5643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:12 +0000
Subject: [PATCH 17/54] fix: accrued interest of contingent rate cashflows

---
 dcf/pricer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/pricer.py b/dcf/pricer.py
index ead6041..5ddc8e9 100644
--- a/dcf/pricer.py
+++ b/dcf/pricer.py
@@ -284,7 +284,7 @@ def get_interest_accrued(cashflow_list, valuation_date):
                 if cf.start < valuation_date:
                     remaining = cf.day_count(valuation_date, cf.end)
                     total = cf.day_count(cf.start, cf.end)
-                    flow = cf(cashflow_list.forward_curve)
+                    flow = cashflow_list[pay_date]
                     ac += flow * (1. - remaining / total)
     return ac
 
-- 
2.43.0


From e724b5432d90bb5d39f3ce72ca6b6aee1142a80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:12 +0000
Subject: [PATCH 18/54] fix: no interest accrues after the end of the interest
 period

---
 dcf/pricer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dcf/pricer.py b/dcf/pricer.py
index 5ddc8e9..c8a95bf 100644
--- a/dcf/pricer.py
+++ b/dcf/pricer.py
@@ -282,7 +282,8 @@ def get_interest_accrued(cashflow_list, valuation_date):
             cf = cashflow_list.payoff(pay_date)
             if isinstance(cf, RateCashFlowPayOff):
                 if cf.start < valuation_date:
-                    remaining = cf.day_count(valuation_date, cf.end)
+                    accrued_date = min(valuation_date, cf.end)
+                    remaining = cf.day_count(accrued_date, cf.end)
                     total = cf.day_count(cf.start, cf.end)
                     flow = cashflow_list[pay_date]
                     ac += flow * (1. - remaining / total)
-- 
2.43.0


From 8d1b4cfb922ccd3f0cbcba64b94af80a02ea3e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:51 +0000
Subject: [PATCH 19/54] fix: present value works without option model and
 restores its valuation date on failure

---
 dcf/pricer.py | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/dcf/pricer.py b/dcf/pricer.py
index c8a95bf..7179444 100644
--- a/dcf/pricer.py
+++ b/dcf/pricer.py
@@ -95,23 +95,26 @@ def get_present_value(
             leg, discount_curve, valuation_date) for leg in cashflow_list.legs)
 
     # store and set valuation date to payoff_model
+    model = getattr(cashflow_list, 'payoff_model', None)
+    has_valuation_date = hasattr(model, 'valuation_date')
     model_valuation_date = valuation_date
-    if hasattr(cashflow_list, 'payoff_model'):
-        model_valuation_date = cashflow_list.payoff_model.valuation_date
-        cashflow_list.payoff_model.valuation_date = valuation_date
-
-    # filter flows
-    pay_dates = list(d for d in cashflow_list.domain if valuation_date <= d)
-
-    # discount flows
-    value_flows = zip(pay_dates, cashflow_list[pay_dates])
-    values = (discount_curve.get_discount_factor(valuation_date, t) * float(a)
-              for t, a in value_flows)
-
-    # re-store model_valuation_date
-    if hasattr(cashflow_list, 'payoff_model'):
-        cashflow_list.payoff_model.valuation_date = model_valuation_date
-    return sum(values)
+    if has_valuation_date:
+        model_valuation_date = model.valuation_date
+        model.valuation_date = valuation_date
+
+    try:
+        # filter flows
+        pay_dates = \
+            list(d for d in cashflow_list.domain if valuation_date <= d)
+
+        # discount flows
+        value_flows = zip(pay_dates, cashflow_list[pay_dates])
+        return sum(discount_curve.get_discount_factor(valuation_date, t)
+                   * float(a) for t, a in value_flows)
+    finally:
+        # re-store model_valuation_date
+        if has_valuation_date:
+            model.valuation_date = model_valuation_date
 
 
 def get_yield_to_maturity(cashflow_list, valuation_date=None, present_value=0.,
-- 
2.43.0


From bbbad1ee6c1e3ad6cbee162536c6c75154febf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:51 +0000
Subject: [PATCH 20/54] fix: fair rate restores every fixed rate, on failure
 too

---
 dcf/pricer.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/dcf/pricer.py b/dcf/pricer.py
index 7179444..a219b30 100644
--- a/dcf/pricer.py
+++ b/dcf/pricer.py
@@ -352,8 +352,9 @@ def get_fair_rate(cashflow_list, discount_curve,
     1000000.0
 
     """  # noqa 501
-    # store fixed rate
-    fixed_rate = cashflow_list.fixed_rate
+    # store fixed rates
+    flows = cashflow_list.payoff(tuple(cashflow_list.domain))
+    fixed_rates = tuple(cf.fixed_rate for cf in flows)
 
     # set error function
     def err(current):
@@ -361,11 +362,13 @@ def get_fair_rate(cashflow_list, discount_curve,
         pv = get_present_value(cashflow_list, discount_curve, valuation_date)
         return pv - present_value
 
-    # run bracketing
-    _, par, _ = _simple_bracketing(err, *bounds, precision)
-
-    # restore fixed rate
-    cashflow_list.fixed_rate = fixed_rate
+    try:
+        # run bracketing
+        _, par, _ = _simple_bracketing(err, *bounds, precision)
+    finally:
+        # restore fixed rates
+        for cf, fixed_rate in zip(flows, fixed_rates):
+            cf.fixed_rate = fixed_rate
     return par
 
 
-- 
2.43.0


From d4a4d248d0c87bba2d50b3fd2e0bdab7f5baa7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:19 +0000
Subject: [PATCH 21/54] fix: delta calculation leaves the spreads of the curves
 as they were, on failure too

---
 dcf/pricer.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/dcf/pricer.py b/dcf/pricer.py
index a219b30..08ee1a1 100644
--- a/dcf/pricer.py
+++ b/dcf/pricer.py
@@ -428,11 +428,15 @@ def get_basis_point_value(cashflow_list, discount_curve, valuation_date=None,
     if not isinstance(delta_curve, (list, tuple)):
         delta_curve = delta_curve,
 
-    for d in delta_curve:
-        d.spread = DateCurve([d.origin], [shift])
-    sh = get_present_value(cashflow_list, discount_curve, valuation_date)
-    for d in delta_curve:
-        d.spread = None
+    spreads = tuple(d.spread for d in delta_curve)
+    try:
+        for d in delta_curve:
+            d.spread = DateCurve([d.origin], [shift])
+        sh = get_present_value(cashflow_list, discount_curve, valuation_date)
+    finally:
+        for d, s in zip(delta_curve, spreads):
+            d.spread = None
+            d.spread = s
 
     return (sh - pv) / shift * .0001
 
@@ -574,12 +578,17 @@ def get_bucketed_delta(cashflow_list, discount_curve, valuation_date=None,
         delta_curve = delta_curve,
 
     buckets = list()
+    spreads = tuple(d.spread for d in delta_curve)
     for g, s in zip(grids, shifts):
-        for d in delta_curve:
-            d.spread = DateCurve(g, s)
-        sh = get_present_value(cashflow_list, discount_curve, valuation_date)
-        for d in delta_curve:
-            d.spread = None
+        try:
+            for d in delta_curve:
+                d.spread = DateCurve(g, s)
+            sh = get_present_value(
+                cashflow_list, discount_curve, valuation_date)
+        finally:
+            for d, x in zip(delta_curve, spreads):
+                d.spread = None
+                d.spread = x
 
         buckets.append((sh - pv) / shift * .0001)
     return tuple(buckets)
-- 
2.43.0


From 1244cc5863b0d470d779eb166a6f4c8aaa9b59fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:19 +0000
Subject: [PATCH 22/54] fix: curve fit leaves grid points without matured
 product at zero spread

---
 dcf/pricer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dcf/pricer.py b/dcf/pricer.py
index 08ee1a1..4f741d5 100644
--- a/dcf/pricer.py
+++ b/dcf/pricer.py
@@ -738,6 +738,9 @@ def get_curve_fit(cashflow_list, discount_curve, valuation_date=None,
         # todo: better use sensitivity to current curve point than maturity
         filtered_pp_list = list(p for p in pp_list if max(p[0].domain) <= d)
 
+        if not filtered_pp_list:
+            continue
+
         # set error function
         def err(current):
             fitting_curve.spread[d] = current
-- 
2.43.0


From 028e808034859d4a022fcd11294a5242f504e1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:20 +0000
Subject: [PATCH 23/54] fix: curve fit removes its spread curve on failure

---
 dcf/pricer.py | 54 ++++++++++++++++++++++++++-------------------------
 1 file changed, 28 insertions(+), 26 deletions(-)

diff --git a/dcf/pricer.py b/dcf/pricer.py
index 4f741d5..675b789 100644
--- a/dcf/pricer.py
+++ b/dcf/pricer.py
@@ -729,30 +729,32 @@ def get_curve_fit(cashflow_list, discount_curve, valuation_date=None,
 
     # copy fitting_curve but set al values to 0.0
     fitting_curve.spread = fitting_curve.__class__(fitting_grid, fitting_curve)
-    for d in fitting_curve.spread.domain:
-        fitting_curve.spread[d] = 0.0
-
-    pp_list = tuple(zip(cashflow_list, present_value))
-    for d in fitting_curve.spread.domain:
-        # prepare products and prices
-        # todo: better use sensitivity to current curve point than maturity
-        filtered_pp_list = list(p for p in pp_list if max(p[0].domain) <= d)
-
-        if not filtered_pp_list:
-            continue
-
-        # set error function
-        def err(current):
-            fitting_curve.spread[d] = current
-            pvs = list()
-            for cf, pv in filtered_pp_list:
-                p = get_present_value(cf, discount_curve, valuation_date)
-                pvs.append(p - pv)
-            return sum(pvs)
-
-        # run bracketing
-        _simple_bracketing(err, *bounds, precision)
-
-    data = fitting_curve(fitting_curve.spread.domain)
-    fitting_curve.spread = None
+    try:
+        for d in fitting_curve.spread.domain:
+            fitting_curve.spread[d] = 0.0
+
+        pp_list = tuple(zip(cashflow_list, present_value))
+        for d in fitting_curve.spread.domain:
+            # prepare products and prices
+            # todo: better use sensitivity to current curve point than maturity
+            filtered_pp_list = list(p for p in pp_list if max(p[0].domain) <= d)
+
+            if not filtered_pp_list:
+                continue
+
+            # set error function
+            def err(current):
+                fitting_curve.spread[d] = current
+                pvs = list()
+                for cf, pv in filtered_pp_list:
+                    p = get_present_value(cf, discount_curve, valuation_date)
+                    pvs.append(p - pv)
+                return sum(pvs)
+
+            # run bracketing
+            _simple_bracketing(err, *bounds, precision)
+
+        data = fitting_curve(fitting_curve.spread.domain)
+    finally:
+        fitting_curve.spread = None
     return data
-- 
2.43.0


From 65ff71971406890563c0c2314deb062bf49fb81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:48 +0000
Subject: [PATCH 24/54] fix: calling a list of legs evaluates the legs

---
 dcf/cashflows/cashflow.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dcf/cashflows/cashflow.py b/dcf/cashflows/cashflow.py
index 5a71e49..2e1ad73 100755
--- a/dcf/cashflows/cashflow.py
+++ b/dcf/cashflows/cashflow.py
@@ -231,6 +231,10 @@ class CashFlowLegList(CashFlowList):
             return sum(
                 float(leg[item]) for leg in self._legs if item in leg.domain)
 
+    def __call__(self, _=None):
+        legs = CashFlowLegList([leg(_) for leg in self._legs])
+        return CashFlowList(self.domain, legs[self.domain], self._origin)
+
     def __add__(self, other):
         for leg in self._legs:
             leg.__add__(other)
-- 
2.43.0


From 93059acff2ca164db4daff6a80ce96fdd5f26500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:48 +0000
Subject: [PATCH 25/54] fix: setting a curve point keeps spread and fixings out
 of the curve data

---
 dcf/curves/curve.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index 7f7e2ad..b6f5a35 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -461,6 +461,13 @@ class DateCurve(Curve):
             return self.fixings[x]
         return super(DateCurve, self).__call__(self.day_count(x))
 
+    def __setitem__(self, key, value):
+        fixings, self.fixings = self.fixings, dict()
+        try:
+            super().__setitem__(key, value)
+        finally:
+            self.fixings = fixings
+
     def __add__(self, other):
         new = super(DateCurve, self).__add__(
             other.shifted(self.origin - other.origin))
@@ -748,6 +755,13 @@ class RateCurve(DateCurve):
         s = self._spread(x) if self._spread else 0.0
         return super().__call__(x) + s
 
+    def __setitem__(self, key, value):
+        spread, self._spread = self._spread, None
+        try:
+            super().__setitem__(key, value)
+        finally:
+            self._spread = spread
+
     def __add__(self, other):
         new = super(RateCurve, self).__add__(self.__class__(other))
         return self.__class__(new, forward_tenor=self._forward_tenor)
-- 
2.43.0


From 5f2e7589a96a70e70f3426ee631025f15290ad89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:48 +0000
Subject: [PATCH 26/54] fix: default day count of products

---
 dcf/cashflows/products.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dcf/cashflows/products.py b/dcf/cashflows/products.py
index 2766949..77d6ab9 100644
--- a/dcf/cashflows/products.py
+++ b/dcf/cashflows/products.py
@@ -55,7 +55,7 @@ def bond(start_date=TODAY,
          convention='mod_follow',
          holidays=None,
          notional_amount=1.0,
-         day_count='thirty360',
+         day_count=None,
          fixed_rate=0.0,
          forward_curve=None,
          fixing_offset=None,
@@ -131,13 +131,13 @@ def interest_rate_swap(start_date=TODAY,
                        convention='mod_follow',
                        holidays='target',
                        notional_amount=1.0,
-                       day_count='thirty360',
+                       day_count=None,
                        fixed_rate=0.0,
                        forward_curve=None,
                        fixing_offset=None,
                        pay_offset=None,
                        rec_leg_period=SWAP_TENOR,
-                       rec_leg_day_count='actact',
+                       rec_leg_day_count=None,
                        rec_leg_fixed_rate=0.0,
                        rec_leg_forward_curve=None):
     """ plain vanilla swap
-- 
2.43.0


From 0ded6580c110ee4bad4ab715346418dbec42e57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:56 +0000
Subject: [PATCH 27/54] fix: curves built from a curve keep its interpolation,
 origin and day count

---
 dcf/curves/curve.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index b6f5a35..65e0fa2 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -235,8 +235,7 @@ class Curve(object):
             data = domain
             domain = data.domain
         if isinstance(data, Curve):
-            interpolation = \
-                interpolation or data.kwargs.get('interpolation', None)
+            interpolation = interpolation or data._interpolation
             _data = data(domain)  # assuming domain is a list of dates !
             if isinstance(data, DateCurve):
                 domain = [data.day_count(d) for d in domain]
@@ -423,10 +422,10 @@ class DateCurve(Curve):
         if isinstance(domain, DateCurve):
             data = domain
             domain = data.domain
-        elif isinstance(data, DateCurve):
-            interpolation = interpolation or data.kwargs.interpolation
+        if isinstance(data, DateCurve):
+            interpolation = interpolation or data._interpolation
             origin = data.origin if origin is None else origin
-            day_count = day_count or data.kwargs.day_count
+            day_count = day_count or data._day_count
             data = data(domain)  # assuming data is a list of dates !
 
         self._domain = domain
@@ -742,7 +741,7 @@ class RateCurve(DateCurve):
             # interpolation = \
             #     interpolation or other.kwargs.get('interpolation', None)
             origin = other.origin if origin is None else origin
-            day_count = day_count or other.kwargs.day_count
+            day_count = day_count or other._day_count
 
         super(RateCurve, self).__init__(
             domain, data, interpolation, origin, day_count)
-- 
2.43.0


From 6d7fc6c2e836360803005549260c9af76ffb5ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:27 +0000
Subject: [PATCH 28/54] fix: arithmetic of curves with list and tuple domains

---
 dcf/curves/curve.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index 65e0fa2..f5558b7 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -290,17 +290,17 @@ class Curve(object):
         return self._func(x)
 
     def __add__(self, other):
-        x_list = sorted(set(self.domain + other.domain))
+        x_list = sorted(set([*self.domain, *other.domain]))
         y_list = [self(x) + other(x) for x in x_list]
         return self.__class__(x_list, y_list, self._interpolation)
 
     def __sub__(self, other):
-        x_list = sorted(set(self.domain + other.domain))
+        x_list = sorted(set([*self.domain, *other.domain]))
         y_list = [self(x) - other(x) for x in x_list]
         return self.__class__(x_list, y_list, self._interpolation)
 
     def __mul__(self, other):
-        x_list = sorted(set(self.domain + other.domain))
+        x_list = sorted(set([*self.domain, *other.domain]))
         y_list = [self(x) * other(x) for x in x_list]
         return self.__class__(x_list, y_list, self._interpolation)
 
@@ -308,7 +308,7 @@ class Curve(object):
         return self.__div__(other)
 
     def __div__(self, other):
-        x_list = sorted(set(self.domain + other.domain))
+        x_list = sorted(set([*self.domain, *other.domain]))
         if any(not other(x) for x in x_list):
             raise ZeroDivisionError("Division with %s requires on "
                                     "zero values." % other.__class__.__name__)
-- 
2.43.0


From 58841b956fce64090d3d2d257687812d5963d6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:08 +0000
Subject: [PATCH 29/54] fix: casting a volatility curve with a tuple as domain

---
 dcf/curves/volatilitycurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/curves/volatilitycurve.py b/dcf/curves/volatilitycurve.py
index 9315fb0..0e042dd 100644
--- a/dcf/curves/volatilitycurve.py
+++ b/dcf/curves/volatilitycurve.py
@@ -49,7 +49,7 @@ class InstantaneousVolatilityCurve(VolatilityCurve):
             data = domain
             origin = data.origin if origin is None else origin
             new_domain = list()
-            for d in data.domain + [origin]:
+            for d in [*data.domain, origin]:
                 new_domain.extend(
                     [d - self._TIME_SHIFT, d, d + self._TIME_SHIFT])
             domain = sorted(set(new_domain))
-- 
2.43.0


From c1d0fbb6251ac839f2613396f712bf71aceb20ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:09 +0000
Subject: [PATCH 30/54] fix: contingent rate cashflows with origin zero

---
 dcf/cashflows/contingent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/cashflows/contingent.py b/dcf/cashflows/contingent.py
index aac1b4d..2f430b2 100644
--- a/dcf/cashflows/contingent.py
+++ b/dcf/cashflows/contingent.py
@@ -245,7 +245,7 @@ class ContingentRateCashFlowList(ContingentCashFlowList):
         if isinstance(amount_list, (int, float)):
             amount_list = [amount_list] * len(payment_date_list)
 
-        if origin:
+        if origin is not None:
             start_dates = [origin]
             start_dates.extend(payment_date_list[:-1])
         elif origin is None and len(payment_date_list) > 1:
-- 
2.43.0


From 6f4adf6c5151a4c60b72964e16b5392232f4ddfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:49 +0000
Subject: [PATCH 31/54] fix: caplets and floorlets of models without forward
 curve

---
 dcf/cashflows/payoffs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dcf/cashflows/payoffs.py b/dcf/cashflows/payoffs.py
index 3d9ae4c..e3bd4ec 100644
--- a/dcf/cashflows/payoffs.py
+++ b/dcf/cashflows/payoffs.py
@@ -390,7 +390,9 @@ class ContingentRateCashFlowPayOff(RateCashFlowPayOff):
         details = super().details(forward_curve)
         floorlet = caplet = 0.0
         if isinstance(model, OptionPayOffModel):
-            fixing_date = details['fixing date']
+            fixing_date = self.start
+            if self.fixing_offset:
+                fixing_date -= self.fixing_offset
             yf = details['year fraction']
             amount = details['notional']
             cf = details['cashflow']
-- 
2.43.0


From 902cbf828a8d2aaa067114a958f6bfff7b48f260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:09 +0000
Subject: [PATCH 32/54] fix: option models without forward curve

---
 dcf/models/optionpricing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dcf/models/optionpricing.py b/dcf/models/optionpricing.py
index 2f6f670..fa0094f 100644
--- a/dcf/models/optionpricing.py
+++ b/dcf/models/optionpricing.py
@@ -216,6 +216,8 @@ class OptionPayOffModel(OptionPricingFormula):
                 details['tenor'] = self.forward_curve.forward_tenor
             details['forward'] = forward
             details['forward-curve-id'] = id(self.forward_curve)
+        else:
+            details['forward'] = forward
 
         strike = forward if strike is None else strike
         details['strike'] = strike
-- 
2.43.0


From 5a39a750cc3e2b363684b9682f1e39ddd1193706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:41 +0000
Subject: [PATCH 33/54] fix: theta is the difference quotient in time

---
 dcf/models/optionpricing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/models/optionpricing.py b/dcf/models/optionpricing.py
index fa0094f..370997a 100644
--- a/dcf/models/optionpricing.py
+++ b/dcf/models/optionpricing.py
@@ -429,7 +429,7 @@ class OptionPayOffModel(OptionPricingFormula):
                 return theta * scale
         theta = self._call_price(time + shift, strike, fwd, vol)
         theta -= self._call_price(time, strike, fwd, vol)
-        return theta * scale
+        return theta * scale / shift
 
     def get_put_theta(self, date, strike=None):
         r""" time sensitivity of a put option
-- 
2.43.0


From 069445546f7efa691b1fe675b7687969fd2339c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:49 +0000
Subject: [PATCH 34/54] fix: vega of the log normal option model

---
 dcf/models/black76.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/models/black76.py b/dcf/models/black76.py
index 9b9f833..8cb9319 100644
--- a/dcf/models/black76.py
+++ b/dcf/models/black76.py
@@ -68,7 +68,7 @@ class LogNormalOptionPayOffModel(OptionPayOffModel):
     def _call_vega(self, time, strike, forward, volatility):
         vol = volatility * sqrt(time)
         d = (log(forward / strike) + (vol ** 2 / 2)) / vol
-        return forward * sqrt(time) * normal_pdf(d - vol)
+        return forward * sqrt(time) * normal_pdf(d)
 
 
 class BinaryLogNormalOptionPayOffModel(OptionPayOffModel):
-- 
2.43.0


From 35f44dbd63d3e60840d1e98aac15b31d71a63900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:49 +0000
Subject: [PATCH 35/54] fix: binary log normal option model is the probability
 to end above the strike

---
 dcf/models/black76.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/dcf/models/black76.py b/dcf/models/black76.py
index 8cb9319..b839509 100644
--- a/dcf/models/black76.py
+++ b/dcf/models/black76.py
@@ -89,21 +89,25 @@ class BinaryLogNormalOptionPayOffModel(OptionPayOffModel):
 
     Then
 
-        * call price: $$\Phi(d)$$
+        * call price: $$\Phi(d-\sigma \cdot \sqrt{\tau})$$
 
         * call delta:
-          $$\frac{\phi(d-\sigma \cdot \sqrt{\tau})}{\sigma \cdot \sqrt{\tau}}$$
+          $$\frac{\phi(d-\sigma \cdot \sqrt{\tau})}
+          {F \cdot \sigma \cdot \sqrt{\tau}}$$
 
-        * call gamma: $$d \cdot \frac{\phi(d)}{\sigma^2 \cdot \tau}$$
+        * call gamma:
+          $$-d \cdot \frac{\phi(d-\sigma \cdot \sqrt{\tau})}
+          {F^2 \cdot \sigma^2 \cdot \tau}$$
 
-        * call vega: $$(d/\sigma - \sqrt{\tau}) \cdot \phi(d)$$
+        * call vega:
+          $$-d/\sigma \cdot \phi(d-\sigma \cdot \sqrt{\tau})$$
 
     """
 
     def _call_price(self, time, strike, forward, volatility):
         vol = volatility * sqrt(time)
         d = (log(forward / strike) + (vol ** 2 / 2)) / vol
-        return normal_cdf(d)
+        return normal_cdf(d - vol)
 
     def _call_delta(self, time, strike, forward, volatility):
         vol = volatility * sqrt(time)
@@ -118,4 +122,4 @@ class BinaryLogNormalOptionPayOffModel(OptionPayOffModel):
     def _call_vega(self, time, strike, forward, volatility):
         vol = volatility * sqrt(time)
         d = (log(forward / strike) + (vol ** 2 / 2)) / vol
-        return (d - vol) * normal_pdf(d) / volatility
+        return -d * normal_pdf(d - vol) / volatility
-- 
2.43.0


From a54af9fba002a86dc5796febf6d6d5e9adb362a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:49 +0000
Subject: [PATCH 36/54] fix: gamma and vega of the binary normal option model

---
 dcf/models/bachelier.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dcf/models/bachelier.py b/dcf/models/bachelier.py
index f6b3222..32f2571 100644
--- a/dcf/models/bachelier.py
+++ b/dcf/models/bachelier.py
@@ -88,9 +88,9 @@ class BinaryNormalOptionPayOffModel(OptionPayOffModel):
 
         * call delta: $$\frac{\phi(d)}{\sigma \cdot \sqrt{\tau}}$$
 
-        * call gamma: $$d \cdot \frac{\phi(d)}{\sigma^2 \cdot \tau}$$
+        * call gamma: $$-d \cdot \frac{\phi(d)}{\sigma^2 \cdot \tau}$$
 
-        * call vega: $$\sqrt{\tau} \cdot \phi(d)$$
+        * call vega: $$-d/\sigma \cdot \phi(d)$$
 
     """
 
@@ -107,9 +107,9 @@ class BinaryNormalOptionPayOffModel(OptionPayOffModel):
     def _call_gamma(self, time, strike, forward, volatility):
         vol = volatility * sqrt(time)
         d = (forward - strike) / vol
-        return d * normal_pdf(d) / (vol * vol * time)
+        return -d * normal_pdf(d) / (vol * vol)
 
     def _call_vega(self, time, strike, forward, volatility):
         vol = volatility * sqrt(time)
         d = (forward - strike) / vol
-        return sqrt(time) * normal_pdf(d)
+        return -d * normal_pdf(d) / volatility
-- 
2.43.0


From 517f9bb85d86274785f0315f586807a06a8ec3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:49 +0000
Subject: [PATCH 37/54] fix: greeks of the binary displaced log normal option
 model

---
 dcf/models/displaced.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/dcf/models/displaced.py b/dcf/models/displaced.py
index 73663fa..21821fd 100644
--- a/dcf/models/displaced.py
+++ b/dcf/models/displaced.py
@@ -113,3 +113,21 @@ class BinaryDisplacedLogNormalOptionPayOffModel(BinaryLogNormalOptionPayOffModel
                                    strike + self.displacement,
                                    forward + self.displacement,
                                    volatility)
+
+    def _call_delta(self, time, strike, forward, volatility):
+        return super()._call_delta(time,
+                                   strike + self.displacement,
+                                   forward + self.displacement,
+                                   volatility)
+
+    def _call_gamma(self, time, strike, forward, volatility):
+        return super()._call_gamma(time,
+                                   strike + self.displacement,
+                                   forward + self.displacement,
+                                   volatility)
+
+    def _call_vega(self, time, strike, forward, volatility):
+        return super()._call_vega(time,
+                                  strike + self.displacement,
+                                  forward + self.displacement,
+                                  volatility)
-- 
2.43.0


From 23f6f0362397652f205918bf956ae4907da30cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:39 +0000
Subject: [PATCH 38/54] fix: keep apart rating classes whose values agree to
 seven digits

---
 dcf/ratingclass.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/dcf/ratingclass.py b/dcf/ratingclass.py
index 50db309..edeaf25 100644
--- a/dcf/ratingclass.py
+++ b/dcf/ratingclass.py
@@ -111,11 +111,11 @@ class RatingClass(object):
 
     def __str__(self):
         if self.masterscale:
-            # check for base class item
-            for k in self.masterscale:
-                if round(float(self), 7) == round(float(self.masterscale[k]),
-                                                  7):
-                    return k
+            # check for closest base class item
+            k = min(self.masterscale, key=lambda k: abs(
+                float(self) - float(self.masterscale[k])))
+            if round(float(self), 7) == round(float(self.masterscale[k]), 7):
+                return k
             # build linear combination of base classes
             pairs = list(zip(list(self.masterscale.keys()), list(self)))
             pairs = ('%.7f %s' % (f, s) for s, f in pairs if f)
@@ -128,10 +128,13 @@ class RatingClass(object):
 
     def __iter__(self):
         if self._masterscale:
-            value = round(float(self), 7)
-            value_list = [round(x, 7) for x in list(self.masterscale.values())]
+            value = float(self)
+            value_list = list(self.masterscale.values())
+            pd_min, pd_max = min(value_list), max(value_list)
 
-            if not min(value_list) <= value <= max(value_list):
+            if round(pd_min, 7) <= round(value, 7) <= round(pd_max, 7):
+                value = min(max(value, pd_min), pd_max)
+            else:
                 msg = 'masterscale does not embrace %.7f' % float(
                     self)  # + '\n %s' % repr(self.masterscale)
                 if self.__class__.SLOPPY:
-- 
2.43.0


From 1043ad4275cd1f04cdbf1af7ca279ba9669e8736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:35 +0000
Subject: [PATCH 39/54] fix: fixed cashflow list takes origin zero

---
 dcf/cashflows/cashflow.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dcf/cashflows/cashflow.py b/dcf/cashflows/cashflow.py
index 2e1ad73..1911a7b 100755
--- a/dcf/cashflows/cashflow.py
+++ b/dcf/cashflows/cashflow.py
@@ -267,7 +267,8 @@ class FixedCashFlowList(CashFlowList):
 
         if isinstance(payment_date_list, CashFlowList):
             amount_list = payment_date_list[payment_date_list.domain]
-            origin = origin or getattr(payment_date_list, '_origin', None)
+            if origin is None:
+                origin = getattr(payment_date_list, '_origin', None)
             payment_date_list = payment_date_list.domain
 
         if isinstance(amount_list, (int, float)):
-- 
2.43.0


From bbe1feca8b0c36cd4917732f365ae7d41d935d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:35 +0000
Subject: [PATCH 40/54] fix: default payoffs of contingent cashflow lists with
 several dates

---
 dcf/cashflows/contingent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/cashflows/contingent.py b/dcf/cashflows/contingent.py
index 2f430b2..8216455 100644
--- a/dcf/cashflows/contingent.py
+++ b/dcf/cashflows/contingent.py
@@ -62,7 +62,7 @@ class ContingentCashFlowList(_CashFlowList):
         [4, 4]
         """
         if payoff_list is None:
-            payoff_list = [_DEFAULT_PAYOFF]
+            payoff_list = [_DEFAULT_PAYOFF] * len(payment_date_list)
         self.payoff_model = payoff_model
         super().__init__(payment_date_list, payoff_list, origin=origin)
 
-- 
2.43.0


From fa8de6296b717903527f0f76e6d558b99b027577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:37 +0000
Subject: [PATCH 41/54] fix: bond with end date given as period

---
 dcf/cashflows/products.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dcf/cashflows/products.py b/dcf/cashflows/products.py
index 77d6ab9..485b616 100644
--- a/dcf/cashflows/products.py
+++ b/dcf/cashflows/products.py
@@ -80,6 +80,10 @@ def bond(start_date=TODAY,
     :return: |CashFlowLegList|
 
     """
+    if bd and isinstance(start_date, bd.BusinessDate) and \
+            bd.BusinessPeriod.is_businessperiod(end_date):
+        end_date = start_date + bd.BusinessPeriod(end_date)
+
     interest_payment_date_list = _interest_payment_dates(
         start_date, end_date, period, convention, holidays)
 
-- 
2.43.0


From a629069f15db41d128c78614b426d723c499f5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:37 +0000
Subject: [PATCH 42/54] fix: default holidays of swaps work with business dates

---
 dcf/cashflows/products.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/cashflows/products.py b/dcf/cashflows/products.py
index 485b616..b15ebb7 100644
--- a/dcf/cashflows/products.py
+++ b/dcf/cashflows/products.py
@@ -133,7 +133,7 @@ def interest_rate_swap(start_date=TODAY,
                        end_date=TODAY + MATURITY,
                        period=BOND_TENOR,
                        convention='mod_follow',
-                       holidays='target',
+                       holidays=None,
                        notional_amount=1.0,
                        day_count=None,
                        fixed_rate=0.0,
-- 
2.43.0


From d8251f2462be5c734e65217079555e045d1f2624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:27 +0000
Subject: [PATCH 43/54] fix: table of contingent cashflows uses their payoff
 model

---
 dcf/cashflows/cashflow.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dcf/cashflows/cashflow.py b/dcf/cashflows/cashflow.py
index 1911a7b..1901c0f 100755
--- a/dcf/cashflows/cashflow.py
+++ b/dcf/cashflows/cashflow.py
@@ -32,6 +32,7 @@ class CashFlowList(object):
             payoff = self._flows.get(d, 0.)
             if hasattr(payoff, 'details'):
                 fwd = getattr(self, 'forward_curve', None)
+                fwd = getattr(self, 'payoff_model', fwd)
                 details = payoff.details(fwd)
                 details['pay date'] = d
             else:
-- 
2.43.0


From bdecda869a6927cdd529996d10b0a33662d5dac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:27 +0000
Subject: [PATCH 44/54] fix: table of legs shows the sum of their flows

---
 dcf/cashflows/cashflow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/cashflows/cashflow.py b/dcf/cashflows/cashflow.py
index 1901c0f..8da11f9 100755
--- a/dcf/cashflows/cashflow.py
+++ b/dcf/cashflows/cashflow.py
@@ -36,7 +36,7 @@ class CashFlowList(object):
                 details = payoff.details(fwd)
                 details['pay date'] = d
             else:
-                details = {'cashflow': float(payoff), 'pay date': d}
+                details = {'cashflow': float(self[d]), 'pay date': d}
             for k in self.__class__._cashflow_details:
                 if k in details and k not in header:
                     header.append(k)
-- 
2.43.0


From ebf6e636d3b40cdd216a26c4e83b2d749f59b933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:27 +0000
Subject: [PATCH 45/54] fix: option pricing formula from function

---
 dcf/models/optionpricing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/models/optionpricing.py b/dcf/models/optionpricing.py
index 370997a..2144cd6 100644
--- a/dcf/models/optionpricing.py
+++ b/dcf/models/optionpricing.py
@@ -71,7 +71,7 @@ class OptionPricingFormula(object):
         """
         if name is None:
             name = func.__name__ + cls.__name__
-        return type(name, cls, {'__call__': func})
+        return type(name, (cls,), {'__call__': staticmethod(func)})
 
     def __call__(self, time, strike, forward, volatility):
         return self._call_price(time, strike, forward, volatility)
-- 
2.43.0


From b57a659c0f10a67a2343e9217946a7a2731186ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:35 +0000
Subject: [PATCH 46/54] fix: binary option models with given valuation date,
 forward or volatility of zero

---
 dcf/models/optionpricing.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dcf/models/optionpricing.py b/dcf/models/optionpricing.py
index 2144cd6..44db232 100644
--- a/dcf/models/optionpricing.py
+++ b/dcf/models/optionpricing.py
@@ -482,10 +482,12 @@ class BinaryOptionPayOffModel(OptionPayOffModel):
             self.__class__.STRIKE_SHIFT if strike_shift is None \
             else strike_shift
         if isinstance(pricing_formula, OptionPayOffModel):
-            valuation_date = valuation_date or pricing_formula.valuation_date
-            forward_curve = forward_curve or pricing_formula.forward_curve
-            volatility_curve = volatility_curve \
-                or pricing_formula.volatility_curve
+            if valuation_date is None:
+                valuation_date = pricing_formula.valuation_date
+            if forward_curve is None:
+                forward_curve = pricing_formula.forward_curve
+            if volatility_curve is None:
+                volatility_curve = pricing_formula.volatility_curve
             day_count = day_count or pricing_formula.day_count
         super().__init__(valuation_date, forward_curve, volatility_curve,
                          day_count, bump_greeks=True)
-- 
2.43.0


From 31568eba95212074cb6a58fed9463091b7e6972d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:17 +0000
Subject: [PATCH 47/54] fix: rate table of curves with points before the origin
 or in any order ends

---
 dcf/curves/curve.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index f5558b7..4309ce3 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -73,9 +73,10 @@ def rate_table(curve, x_grid=None, y_grid=None):
 
     """  # noqa: E501
     if x_grid is None:
-        x_grid = list(curve.domain)
-        if curve.origin not in x_grid:
-            x_grid = [curve.origin] + x_grid
+        x_grid = sorted(curve.domain)
+        origin = getattr(curve, 'origin', None)
+        if origin is not None and origin not in x_grid:
+            x_grid = sorted([origin] + x_grid)
     if y_grid is None:
         diff = list(e-s for s, e in zip(x_grid[:-1], x_grid[1:]))
         step = diff[0]
-- 
2.43.0


From d61b8f7a08a1abb8eee48f06dc97f1be16714340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:25 +0000
Subject: [PATCH 48/54] fix: forward curve takes integer yield

---
 dcf/curves/curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index 4309ce3..21807ec 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -616,7 +616,7 @@ class ForwardCurve(DateCurve):
                 data = [domain.value]
                 domain = [domain.origin]
         super().__init__(domain, data, interpolation, origin, day_count)
-        if isinstance(yield_curve, float) and self.origin is not None:
+        if isinstance(yield_curve, (int, float)) and self.origin is not None:
             yc = (lambda x: exp(-self.day_count(x) * yield_curve))
         else:
             yc = yield_curve
-- 
2.43.0


From 27f21e527ace10351b7aad0dc8c6db48e45f65d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:32 +0000
Subject: [PATCH 49/54] fix: forward curve takes integer spot price

---
 dcf/curves/curve.py | 2 +-
 dcf/curves/fx.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index 21807ec..d370f04 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -606,7 +606,7 @@ class ForwardCurve(DateCurve):
 
         """
         if not data:
-            if isinstance(domain, float):
+            if isinstance(domain, (int, float)):
                 # build lists from single spot price value
                 data = [domain]
                 domain = [origin]
diff --git a/dcf/curves/fx.py b/dcf/curves/fx.py
index aa282d3..7d41921 100755
--- a/dcf/curves/fx.py
+++ b/dcf/curves/fx.py
@@ -53,7 +53,7 @@ class FxCurveX(ForwardCurve):
                 raise AssertionError()
             origin = self.domestic_curve.origin
         if data is None:
-            if isinstance(domain, float):
+            if isinstance(domain, (int, float)):
                 # build lists from single spot fx rate
                 data = [domain]
                 domain = [origin]
-- 
2.43.0


From f1dc35ddef415e1317eb869ea5d2dade9adb655e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:37 +0000
Subject: [PATCH 50/54] fix: casting a rate curve keeps its forward tenor and
 stores rates of the tenor in effect

---
 dcf/curves/creditcurve.py       | 10 ++++------
 dcf/curves/curve.py             | 15 +++++++++++----
 dcf/curves/interestratecurve.py |  5 ++---
 3 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/dcf/curves/creditcurve.py b/dcf/curves/creditcurve.py
index fb43674..22c56d3 100644
--- a/dcf/curves/creditcurve.py
+++ b/dcf/curves/creditcurve.py
@@ -278,9 +278,8 @@ class MarginalSurvivalProbabilityCurve(ProbabilityCurve):
     """
     _INTERPOLATION = log_linear_scheme
 
-    @staticmethod
-    def _get_storage_value(curve, x):
-        return curve.get_survival_prob(x, x + curve.forward_tenor)
+    def _get_storage_value(self, curve, x):
+        return curve.get_survival_prob(x, x + self.forward_tenor)
 
     def _get_compounding_factor(self, start, stop):
         if start == stop:
@@ -328,9 +327,8 @@ class MarginalDefaultProbabilityCurve(MarginalSurvivalProbabilityCurve):
     """
     _INTERPOLATION = log_linear_scheme
 
-    @staticmethod
-    def _get_storage_value(curve, x):
-        return curve.get_survival_prob(x, x + curve.forward_tenor)
+    def _get_storage_value(self, curve, x):
+        return curve.get_survival_prob(x, x + self.forward_tenor)
 
     def __init__(self, domain=(), data=(), interpolation=None, origin=None,
                  day_count=None, forward_tenor=None):
diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index d370f04..1c78474 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -735,6 +735,9 @@ class RateCurve(DateCurve):
             domain = other.domain if domain is None else domain
         if other:
             # get data as self._get_storage_value
+            forward_tenor = other._forward_tenor \
+                if forward_tenor is None else forward_tenor
+            self._forward_tenor = forward_tenor
             data = [self._get_storage_value(other, x) for x in domain]
             # use other properties if not give explicitly
             # interpolation should default to class defaults
@@ -764,19 +767,23 @@ class RateCurve(DateCurve):
 
     def __add__(self, other):
         new = super(RateCurve, self).__add__(self.__class__(other))
-        return self.__class__(new, forward_tenor=self._forward_tenor)
+        new._forward_tenor = self._forward_tenor
+        return self.__class__(new)
 
     def __sub__(self, other):
         new = super(RateCurve, self).__sub__(self.__class__(other))
-        return self.__class__(new, forward_tenor=self._forward_tenor)
+        new._forward_tenor = self._forward_tenor
+        return self.__class__(new)
 
     def __mul__(self, other):
         new = super(RateCurve, self).__mul__(self.__class__(other))
-        return self.__class__(new, forward_tenor=self._forward_tenor)
+        new._forward_tenor = self._forward_tenor
+        return self.__class__(new)
 
     def __div__(self, other):
         new = super(RateCurve, self).__div__(self.__class__(other))
-        return self.__class__(new, forward_tenor=self._forward_tenor)
+        new._forward_tenor = self._forward_tenor
+        return self.__class__(new)
 
     def _get_compounding_factor(self, start, stop):
         # aka discount factor
diff --git a/dcf/curves/interestratecurve.py b/dcf/curves/interestratecurve.py
index b742c71..bc4821f 100644
--- a/dcf/curves/interestratecurve.py
+++ b/dcf/curves/interestratecurve.py
@@ -388,9 +388,8 @@ class CashRateCurve(InterestRateCurve):
 
     """
 
-    @staticmethod
-    def _get_storage_value(curve, x):
-        return curve.get_cash_rate(x)
+    def _get_storage_value(self, curve, x):
+        return curve.get_cash_rate(x, step=self.forward_tenor)
 
     def __init__(self, domain=(), data=(), interpolation=None, origin=None,
                  day_count=None, forward_tenor=None):
-- 
2.43.0


From f2e6f0ee66cce0518753b4f63efa2e345673b52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:15 +0000
Subject: [PATCH 51/54] fix: date curves and leg lists keep lists of their own,
 later changes of the given ones do not matter

---
 dcf/cashflows/cashflow.py | 2 +-
 dcf/curves/curve.py       | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/dcf/cashflows/cashflow.py b/dcf/cashflows/cashflow.py
index 8da11f9..15d3e74 100755
--- a/dcf/cashflows/cashflow.py
+++ b/dcf/cashflows/cashflow.py
@@ -217,7 +217,7 @@ class CashFlowLegList(CashFlowList):
                 cls = self.__class__.__name__, leg.__class__.__name__
                 raise ValueError("Legs %s of can be either `CashFlowList` "
                                  "or `RateCashFlowList` but not %s." % cls)
-        self._legs = legs
+        self._legs = tuple(legs)
         domains = tuple(tuple(leg.domain) for leg in self._legs)
         domain = list(sorted(set().union(*domains)))
         origin = min(leg.origin for leg in self._legs)
diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index 1c78474..c604eb4 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -452,7 +452,8 @@ class DateCurve(Curve):
     def _update(self, domain, data):
         flt_domain = tuple(self.day_count(d) for d in domain)
         super()._update(flt_domain, data)
-        self._domain = domain
+        # keep a list of its own since the given one might be changed later
+        self._domain = list(domain) if isinstance(domain, list) else domain
 
     def __call__(self, x):
         if isinstance(x, (list, tuple)):
-- 
2.43.0


From 79cc2600177795321137e8a2c0c1f74a3e56322a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:02 +0000
Subject: [PATCH 52/54] fix: bucketed delta of a grid which is not in ascending
 order

The partly shifts were built from dates adjacent in the grid as given, so
for a grid or a curve with dates in any other order they were no partition
of the shift.
---
 dcf/pricer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dcf/pricer.py b/dcf/pricer.py
index 675b789..5f2db10 100644
--- a/dcf/pricer.py
+++ b/dcf/pricer.py
@@ -559,6 +559,8 @@ def get_bucketed_delta(cashflow_list, discount_curve, valuation_date=None,
     pv = get_present_value(cashflow_list, discount_curve, valuation_date)
     delta_curve = discount_curve if delta_curve is None else delta_curve
     delta_grid = delta_grid if delta_grid else discount_curve.domain
+    grid_order = tuple(delta_grid)
+    delta_grid = sorted(delta_grid)
 
     if len(delta_grid) == 1:
         grids = (delta_grid,)
@@ -591,7 +593,7 @@ def get_bucketed_delta(cashflow_list, discount_curve, valuation_date=None,
                 d.spread = x
 
         buckets.append((sh - pv) / shift * .0001)
-    return tuple(buckets)
+    return tuple(buckets[delta_grid.index(d)] for d in grid_order)
 
 
 def get_curve_fit(cashflow_list, discount_curve, valuation_date=None,
-- 
2.43.0


From 10e068b31ada94621cb8aa4a8bd61680341b6b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:14 +0000
Subject: [PATCH 53/54] fix: curve fit for a grid which is not in ascending
 order

The fit proceeded in the order given, so points fitted later changed the
value of products already fitted.
---
 dcf/pricer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/pricer.py b/dcf/pricer.py
index 5f2db10..2a8d9e8 100644
--- a/dcf/pricer.py
+++ b/dcf/pricer.py
@@ -736,7 +736,7 @@ def get_curve_fit(cashflow_list, discount_curve, valuation_date=None,
             fitting_curve.spread[d] = 0.0
 
         pp_list = tuple(zip(cashflow_list, present_value))
-        for d in fitting_curve.spread.domain:
+        for d in sorted(fitting_curve.spread.domain):
             # prepare products and prices
             # todo: better use sensitivity to current curve point than maturity
             filtered_pp_list = list(p for p in pp_list if max(p[0].domain) <= d)
-- 
2.43.0


From e7d252cd1cad14a708f0c3b77778bbbd295ee44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:31 +0000
Subject: [PATCH 54/54] fix: default grid of a bucketed delta is the domain of
 the delta curve as documented

---
 dcf/pricer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dcf/pricer.py b/dcf/pricer.py
index 2a8d9e8..a416f3f 100644
--- a/dcf/pricer.py
+++ b/dcf/pricer.py
@@ -558,7 +558,8 @@ def get_bucketed_delta(cashflow_list, discount_curve, valuation_date=None,
 
     pv = get_present_value(cashflow_list, discount_curve, valuation_date)
     delta_curve = discount_curve if delta_curve is None else delta_curve
-    delta_grid = delta_grid if delta_grid else discount_curve.domain
+    delta_grid = delta_grid if delta_grid else \
+        getattr(delta_curve, 'domain', discount_curve.domain)
     grid_order = tuple(delta_grid)
     delta_grid = sorted(delta_grid)
 
-- 
2.43.0

