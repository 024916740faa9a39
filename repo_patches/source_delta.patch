From 03d9171f095206fda6a7cac4916e92fd58b8e463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:57 +0000
Subject: [PATCH 01/71] fix: accept zero rates in m-thly interest conversions

Interest.mthly and Interest(i_m=0|d_m=0) raised for a zero rate
---
 src/actuarialmath/interest.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/actuarialmath/interest.py b/src/actuarialmath/interest.py
index e160a10..748a470 100644
--- a/src/actuarialmath/interest.py
+++ b/src/actuarialmath/interest.py
@@ -115,13 +115,13 @@ class Interest(Actuarial):
           >>> print("Convert annual-pay to mthly:", Interest.mthly(i=i, m=12))
         """
         assert m >= 0, "mthly frequency must be non-negative"
-        if i > 0:
+        if i >= 0:
             return m * ((1 + i)**(1 / m) - 1) if m else math.log(1+i)
-        elif d > 0:
+        elif d >= 0:
             return m * (1 - (1 - d)**(1 / m)) if m else -math.log(1-d)
-        elif i_m > 0:
+        elif i_m >= 0:
             return (1 + (i_m / m))**m - 1
-        elif d_m > 0:
+        elif d_m >= 0:
             return 1 - (1 - (d_m / m))**m
         else:
             raise Exception("no interest rate given to mthly")
-- 
2.43.0


From 6e0d52a9c2083066d27b4bc06e1019d20fb9075c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:57 +0000
Subject: [PATCH 02/71] fix: annuity-certain factor at zero interest rate

Interest.annuity(t) raised or divided by zero at zero interest instead of returning t
---
 src/actuarialmath/interest.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/actuarialmath/interest.py b/src/actuarialmath/interest.py
index 748a470..a167975 100644
--- a/src/actuarialmath/interest.py
+++ b/src/actuarialmath/interest.py
@@ -90,6 +90,8 @@ class Interest(Actuarial):
         """
         v_t = 0 if t < 0 else self.v**t   # is t finite
         assert m >= 0, "mthly frequency must be non-negative"
+        if v_t == 1:  # no discounting: zero interest rate (or zero term)
+            return t
         if m == 0:  # if continuous
             return (1 - v_t) / self.delta
         elif due:   # if annuity due
-- 
2.43.0


From b07bd289c2becb208f6554d62280ab1d42198a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:43 +0000
Subject: [PATCH 03/71] fix: differentiate functions of a scalar argument

Actuarial.derivative passed arrays to functions written for scalars (math.exp, conditionals), raising TypeError
---
 src/actuarialmath/actuarial.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/actuarialmath/actuarial.py b/src/actuarialmath/actuarial.py
index 68b3fda..b16c540 100644
--- a/src/actuarialmath/actuarial.py
+++ b/src/actuarialmath/actuarial.py
@@ -69,6 +69,7 @@ class Actuarial(object):
         Examples:
           >>> print(Actuarial.derivative(fun=lambda x: x/50, x=25))
         """
+        fun = np.vectorize(fun, otypes=[float])  # fun need only accept scalars
         return float(scipy.differentiate.derivative(fun, x=x, initial_step=1, maxiter=1, preserve_shape=True).df)
         # return scipy.misc.derivative(fun, x0=x, dx=1)
 
-- 
2.43.0


From 769c923a037de34377bbd88fae73508b71fd1bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:49 +0000
Subject: [PATCH 04/71] fix: lifetime density derived from number of lives

f_x from l was the slope of l, not divided by l_[x]+s
---
 src/actuarialmath/survival.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/survival.py b/src/actuarialmath/survival.py
index 6289f4a..0b86af7 100644
--- a/src/actuarialmath/survival.py
+++ b/src/actuarialmath/survival.py
@@ -54,7 +54,8 @@ class Survival(Life):
 
         def f_from_l(x: int, s, t: float) -> float:
             """Derive lifetime density function from number of lives"""
-            return -self.derivative(lambda t: self.l(x, s+t), t)
+            return (-self.derivative(lambda t: self.l(x, s+t), t)
+                    / self.l(x, s)) if self.l(x, s) else 0.
 
         def mu_from_S(x: int, t: float) -> float:
             """Derive force of mortality from survival probability"""
-- 
2.43.0


From 48400e8a5e02335dee9a6e2ac9b70f439fe3076d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:10 +0000
Subject: [PATCH 05/71] fix: variance of the one-year limited curtate lifetime

e_x(t=1, moment=VARIANCE) returned p_x instead of p_x q_x
---
 src/actuarialmath/lifetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/lifetime.py b/src/actuarialmath/lifetime.py
index e98be35..c04e3ea 100644
--- a/src/actuarialmath/lifetime.py
+++ b/src/actuarialmath/lifetime.py
@@ -31,7 +31,7 @@ class Lifetime(Survival):
         assert x >= 0, "x must be non-negative"
         assert s >= 0, "s must be non-negative"
 
-        if t == 1 and curtate:      # shortcut for e_x:1
+        if t == 1 and curtate and moment > 0:   # shortcut for e_x:1
             return self.p_x(x, s=s, t=1)
         
         t = self.max_term(x+s, t)   # length of term must be bounded by max age
-- 
2.43.0


From 30695a3b4e45768e6434189b40d1ae7622937546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:56 +0000
Subject: [PATCH 06/71] fix: lifetime density at fractional ages

f_r ignored survival to the fraction under UDD, and failed or used the wrong year when r >= 1 or r+t crossed an integer age
---
 src/actuarialmath/fractional.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/actuarialmath/fractional.py b/src/actuarialmath/fractional.py
index bd015bb..47d5ff1 100644
--- a/src/actuarialmath/fractional.py
+++ b/src/actuarialmath/fractional.py
@@ -139,22 +139,22 @@ class Fractional(Lifetime):
         assert s >= 0, "s must be non-negative"
         assert r >= 0, "r must be non-negative"
         assert t >= 0, "t must be non-negative"
+        r_floor = math.floor(r)
+        r -= r_floor            # s.t. r < 1
+        s += r_floor            # while maintaining x+s+r unchanged
         if 0. <= r + t <= 1.:   # shortcuts available within integer ages
-            if self.udd_:       # UDD shortcut: constant q_x
-                return self.q_x(x, s=s)  # does not depend fractional age or duration
+            if self.udd_:       # UDD shortcut: constant q_x, given alive at r
+                return self.q_x(x, s=s) / (1. - r * self.q_x(x, s=s))
             else:               # Constant force shortcut:
-                if self.isclose(t):
+                if self.isclose(r) and self.isclose(t):
                     return self.f_x(x=x, s=s)
                 mu = -math.log(max(0.00001, self.p_x(x, s=s)))
                 return math.exp(-mu*t) * mu    # does not depend on fractional age
         else: # else survive to integer age, times density at fractional age
-            r_floor = math.floor(r)
-            r -= r_floor            # s.t. r < 1 
-            s += r_floor            # while maintaining x+s+r unchanged
             t_floor = math.floor(r + t)
             u = t_floor - r         # s.t. u + r is integer
             t = t + r - t_floor     # s.t. t < 1
-            return self.p_r(x, s=s, r=r, t=u) * self.f_r(x, s=s+u+r, t=t)
+            return self.p_r(x, s=s, r=r, t=u) * self.f_r(x, s=s+t_floor, t=t)
 
     #
     # Define fractional age pure endowment function
-- 
2.43.0


From ef6ac99f8f8dddfef6cc38b168bf1a66eb09d74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:56 +0000
Subject: [PATCH 07/71] fix: limited expectation under constant force with no
 mortality

e_r(udd=False) divided by zero in a year with p_x = 1
---
 src/actuarialmath/fractional.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/actuarialmath/fractional.py b/src/actuarialmath/fractional.py
index 47d5ff1..a5fffbc 100644
--- a/src/actuarialmath/fractional.py
+++ b/src/actuarialmath/fractional.py
@@ -207,6 +207,8 @@ class Fractional(Lifetime):
                     return self.q_r(x=x, s=s, t=t)*(t/2) + self.p_r(x, s=s, t=t)*t
             else:         # Constant Force case
                 mu = -math.log(max(0.00001, self.p_x(x=x, s=s)))  # constant mu
+                if not mu:    # certain to survive the year
+                    return t
                 return (1. - math.exp(-mu*t)) / mu                # shortcut
 
         # t > 1: apply one-year recursion formula            
-- 
2.43.0


From 141d0448aa772d23eb77d23be2d4cc73f61d30db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:26 +0000
Subject: [PATCH 08/71] fix: number of lives of a select life given its
 survival function

l_x, and p_r/q_r across integer ages, used survival from the youngest age at duration x+s, ignoring the select duration
---
 src/actuarialmath/survival.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/survival.py b/src/actuarialmath/survival.py
index 0b86af7..be36b23 100644
--- a/src/actuarialmath/survival.py
+++ b/src/actuarialmath/survival.py
@@ -121,7 +121,8 @@ class Survival(Life):
         assert s >= 0, "s must be non-negative"
         if self.l is not None:
             return self.l(x, s)
-        return self._RADIX * self.p_x(x=self._MINAGE, s=0, t=s+x-self._MINAGE)
+        return (self._RADIX * self.p_x(x=self._MINAGE, s=0, t=x-self._MINAGE)
+                * self.p_x(x=x, s=0, t=s))
 
     def d_x(self, x: int, s: int = 0) -> float:
         """Number of deaths at integer age [x]+s: d_[x]+s
-- 
2.43.0


From d300f77b9f487681c3122357caff9d9054d95f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:05 +0000
Subject: [PATCH 09/71] fix: decreasing insurance of a select life

decreasing_insurance(s>0) valued the term insurance at duration zero
---
 src/actuarialmath/insurance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index 1973599..d74830a 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -236,7 +236,7 @@ class Insurance(Fractional):
         >>> life.decreasing_insurance(x=0, t=10)
         """
         assert t > 0  # decreasing must be term insurance
-        A = self.term_insurance(x, t=t, b=b, discrete=discrete)
+        A = self.term_insurance(x, s=s, t=t, b=b, discrete=discrete)
         n = t + int(discrete)   #  (DA)_x:n + (IA)_x:n = (n+1) A^1_x:n
         return A*n - self.increasing_insurance(x, s=s, t=t, b=b, 
                                                discrete=discrete)
-- 
2.43.0


From 1800e6a7bb630ddeb27714cc0a02679e5cb720c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:05 +0000
Subject: [PATCH 10/71] fix: pure endowment with term zero

E_x(t=0) ignored the endowment amount and reported a variance of one
---
 src/actuarialmath/insurance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index d74830a..76f658c 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -29,8 +29,8 @@ class Insurance(Fractional):
         """
         if t < 0:  # t infinite => EPV(t) = 0
             return 0   
-        if t == 0:    # t = 0 => EPV(0) = 1
-            return 1
+        if t == 0:    # t = 0 => EPV(0) = endowment, with certainty
+            return 0 if moment == self.VARIANCE else endowment**moment
         t = self.max_term(x+s, t)
         t_p_x = self.p_x(x, s=s, t=t)
         if moment == self.VARIANCE:  # Bernoulli shortcut for variance
-- 
2.43.0


From 3706857e2bad2a1c5fac4d2a326968b076e382da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:28 +0000
Subject: [PATCH 11/71] fix: second moment of an insurance with endowment

A_x(moment=2, endowment=e) scaled the endowment by e instead of e**2
---
 src/actuarialmath/insurance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index 76f658c..4e02203 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -64,7 +64,7 @@ class Insurance(Fractional):
         """
         assert moment >= 1
         if t >=0 and endowment > 0:
-            E = self.E_x(x, s=s, t=t+u, moment=moment) * endowment
+            E = self.E_x(x, s=s, t=t+u, moment=moment) * endowment**moment
         else:
             E = 0
         t = self.max_term(x+s+u, t=t)
-- 
2.43.0


From 676f0dc2ca8354537454698a785bc4bc6b9a3f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:28 +0000
Subject: [PATCH 12/71] fix: variance of whole life insurance

whole_life_insurance(moment=VARIANCE) squared the first moment twice
---
 src/actuarialmath/insurance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index 4e02203..2495f7a 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -108,7 +108,7 @@ class Insurance(Fractional):
         """
         if moment == self.VARIANCE:
             A2 = self.whole_life_insurance(x, s=s, moment=2, discrete=discrete)
-            A1 = self.whole_life_insurance(x, s=s, discrete=discrete)**2
+            A1 = self.whole_life_insurance(x, s=s, discrete=discrete)
             return self.insurance_variance(A2=A2, A1=A1, b=b)
         return self.A_x(x, s=s, t=self.WHOLE, benefit=lambda x,t: b, 
                         moment=moment, discrete=discrete)
-- 
2.43.0


From 3079eadb751736fe22c4f294212b7529bcc1e68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:28 +0000
Subject: [PATCH 13/71] fix: variance of term insurance

term_insurance(moment=VARIANCE) raised NameError
---
 src/actuarialmath/insurance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index 2495f7a..c6c0c03 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -131,7 +131,7 @@ class Insurance(Fractional):
         """
         if moment == self.VARIANCE:
             A2 = self.term_insurance(x, s=s, t=t, moment=2, discrete=discrete)
-            A2 = self.term_insurance(x, s=s, t=t, discrete=discrete)**2
+            A1 = self.term_insurance(x, s=s, t=t, discrete=discrete)
             return self.insurance_variance(A2=A2, A1=A1, b=b)
         A = self.whole_life_insurance(x, s=s, b=b, moment=moment, 
                                       discrete=discrete)
-- 
2.43.0


From b902f662991845f1f7335545330d4279cbc1674a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:28 +0000
Subject: [PATCH 14/71] fix: variance of endowment insurance with benefit
 amount

endowment_insurance(moment=VARIANCE, b) applied b**2 to moments that already include b
---
 src/actuarialmath/insurance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index c6c0c03..fe82fd1 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -195,7 +195,7 @@ class Insurance(Fractional):
                                           b=b, moment=2, discrete=discrete)
             A1 = self.endowment_insurance(x, s=s, t=t, endowment=endowment,
                                           b=b, discrete=discrete)
-            return self.insurance_variance(A2=A2, A1=A1, b=b)
+            return self.insurance_variance(A2=A2, A1=A1)
         E = self.E_x(x, s=s, t=t, moment=moment)
         A = self.term_insurance(x, s=s, t=t, b=b, moment=moment,
                                 discrete=discrete)
-- 
2.43.0


From 9f91227cedd665440359897c89b59241c87384be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:29 +0000
Subject: [PATCH 15/71] fix: no negative remaining term past the limiting age

max_term returned a negative term for deferrals past the limiting age, so a_x(discrete=False) integrated backwards and zero-interest deferred annuities queried negative durations
---
 src/actuarialmath/actuarial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/actuarial.py b/src/actuarialmath/actuarial.py
index b16c540..403eb3a 100644
--- a/src/actuarialmath/actuarial.py
+++ b/src/actuarialmath/actuarial.py
@@ -126,7 +126,7 @@ class Actuarial(object):
           value of term t adjusted by deferral and maxage s.t. maxage not exceeded
         """
         if t < 0 or x + t + u > self._MAXAGE:
-            return self._MAXAGE - (x + u)
+            return max(0, self._MAXAGE - (x + u))
         return t
 
 if __name__ == "__main__":
-- 
2.43.0


From aeaf2d68e1f348dd91def50c668bd02d42de1ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:29 +0000
Subject: [PATCH 16/71] fix: continuous annuity of a life with duration s

a_x(discrete=False) used survival from duration zero whatever s
---
 src/actuarialmath/annuity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index a16da37..9957a62 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -33,7 +33,7 @@ class Annuity(Insurance):
                          * self.p_x(x, s=s, t=k) for k in range(int(u), int(t+u))])
             else:   # use continuous first principles
                 Y = lambda t: (benefit(x+s, t+u) * self.interest.v_t(t+u) 
-                               * self.S(x, 0, t=t+u))
+                               * self.S(x, s, t+u))
                 a = self.integral(Y, 0, t)
         except:
             raise Exception("Failed to numerically integrate EPV of annuity")
-- 
2.43.0


From 6a955169a4639119ed086e313f1583679f909246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:30 +0000
Subject: [PATCH 17/71] fix: whole life annuity amount at zero interest

whole_life_annuity ignored the benefit amount b at zero interest (and temporary/deferred annuities with it)
---
 src/actuarialmath/annuity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index 9957a62..a6edd05 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -131,7 +131,7 @@ class Annuity(Insurance):
             A = self.whole_life_insurance(x, s=s, discrete=discrete)
             return b * (1 - A) / interest if interest > 0 else b * (1 - A)
         else:  # when interest=1, annuity is expected life time (+1 if discrete)
-            return discrete + self.e_x(x=x, s=s, curtate=discrete)
+            return b * (discrete + self.e_x(x=x, s=s, curtate=discrete))
 
             
     def temporary_annuity(self, x: int, s: int = 0, t: int = Insurance.WHOLE, 
-- 
2.43.0


From fffbb75455e0e32ebf87ffc57b27d41730ae61c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:34 +0000
Subject: [PATCH 18/71] fix: limited lifetimes and second moments from a life
 table

LifeTable.e_x took the limit as n (so its second moment and variance raised TypeError), let limits past the table end run on from the wrong age, and divided by the lives at selection rather than at x+s
---
 src/actuarialmath/lifetable.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/actuarialmath/lifetable.py b/src/actuarialmath/lifetable.py
index 50376fd..fd90af9 100644
--- a/src/actuarialmath/lifetable.py
+++ b/src/actuarialmath/lifetable.py
@@ -236,27 +236,30 @@ class LifeTable(Reserves):
         else:
             return 1     # the only certainty in life
 
-    def e_x(self, x: int, s: int = 0, n: int = Reserves.WHOLE,
+    def e_x(self, x: int, s: int = 0, t: int = Reserves.WHOLE,
             curtate: bool = True, moment: int = 1) -> float:
         """Expected curtate lifetime from sum of lives in table
 
         Args:
           x : age of selection
           s : years after selection
-          n : future lifetime limited at n years
+          t : future lifetime limited at t years
           curtate : whether curtate (True) or complete (False) expectations
           moment : whether to compute first (1) or second (2) moment
 
         """
         if moment == 1:
-            # E[K_x] = sum([self.p(x, k+1) for k in range(n)])
-            n = min(self._MAXAGE - x, n) if n > 0 else self._MAXAGE
+            # E[K_x] = sum([self.p(x, k+1) for k in range(t)])
+            t = self.max_term(x+s, t)
+            lives = self.l(x, s=s)
+            if not lives:
+                return 0.
             # approximate complete by UDD between integer age recursion
-            e = sum([(1 - curtate)*(self.l(x, s=s+t) - self.l(x, s=s+t+1))*0.5
-                     + self.l(x, s=s+t+1) for t in range(n)])  # s_p_x = l_x+s/l_x
-            return e / self.l(x, s=0)
+            e = sum([(1 - curtate)*(self.l(x, s=s+k) - self.l(x, s=s+k+1))*0.5
+                     + self.l(x, s=s+k+1) for k in range(t)])  # s_p_x = l_x+s/l_x
+            return e / lives
         else:
-            return super().e_x(x=x, s=s, n=n, curtate=curtate, moment=moment)
+            return super().e_x(x=x, s=s, t=t, curtate=curtate, moment=moment)
 
     def E_x(self, x: int, s: int = 0, t: int = 1, moment: int = 1) -> float:
         """Pure Endowment from life table and interest rate
-- 
2.43.0


From 9a8397ea2f7add11992050fa27e750c5ee05f2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:30 +0000
Subject: [PATCH 19/71] fix: variance of life annuities at zero interest

whole_life_annuity and temporary_annuity (variance=True) returned zero (A2-A1**2) at zero interest
---
 src/actuarialmath/annuity.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index a6edd05..d01604a 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -123,6 +123,9 @@ class Annuity(Insurance):
           >>> life.whole_life_annuity(x=24, variance=True, due=False)
         """
         interest = self.interest.d if discrete else self.interest.delta
+        if variance and interest == 0:  # variance of number of payments
+            return b**2 * self.e_x(x=x, s=s, curtate=discrete,
+                                   moment=self.VARIANCE)
         if variance:  # short cut for variance of whole life
             A1 = self.whole_life_insurance(x, s=s, moment=1, discrete=discrete)
             A2 = self.whole_life_insurance(x, s=s, moment=2, discrete=discrete)
@@ -150,6 +153,11 @@ class Annuity(Insurance):
         Examples:
           >>> life.temporary_annuity(x=24, t=10)
         """
+        if variance and not (self.interest.d if discrete else
+                             self.interest.delta): # number of payments
+            n = self.WHOLE if t < 0 else max(0, t - int(discrete))
+            return b**2 * self.e_x(x=x, s=s, t=n, curtate=discrete,
+                                   moment=self.VARIANCE)
         if variance:  # short cut for variance of temporary life annuity
             A1 = self.endowment_insurance(x, s=s, t=t, discrete=discrete)
             A2 = self.endowment_insurance(x, s=s, t=t, moment=2, 
-- 
2.43.0


From f87ab2c89cd8eac259e1775397c9fb504d8fb860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:30 +0000
Subject: [PATCH 20/71] fix: guaranteed payments of certain-and-life annuities

certain_life_annuity paid 1 instead of b during the guarantee, and cut the guarantee at the limiting age
---
 src/actuarialmath/annuity.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index d01604a..efb8f3d 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -206,11 +206,10 @@ class Annuity(Insurance):
         Examples:
           >>> life.certain_life_annuity(x=24, u=5, t=10)
         """
-        u = self.max_term(x+s, u)
         if u < 0:
-            return 0.
+            u = self.max_term(x+s, u)
         a = self.deferred_annuity(x, s=s, u=u, t=t, b=b, discrete=discrete)
-        return self.interest.annuity(u, m=int(discrete)) + a
+        return b * self.interest.annuity(u, m=int(discrete)) + a
 
     def increasing_annuity(self, x: int, s: int = 0, t: int = Insurance.WHOLE, 
                            b: int = 1, discrete: bool = True) -> float:
-- 
2.43.0


From a6feaebc643df14b45f48c183e5f82d2681b7215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:30 +0000
Subject: [PATCH 21/71] fix: decreasing annuity with term past the limiting age

decreasing_annuity started from the truncated term instead of the contract term
---
 src/actuarialmath/annuity.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index efb8f3d..1a1454c 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -244,7 +244,6 @@ class Annuity(Insurance):
           >>> life.decreasing_annuity(x=24, t=10)
         """
         assert t >= 0   # decreasing must be till term
-        t = self.max_term(x+s, t=t)
         a = self.temporary_annuity(x, s=s, t=t, discrete=discrete)
         n = t + int(discrete)
         return b * (a*n - self.increasing_annuity(x, s=s, t=t, discrete=discrete))
-- 
2.43.0


From 4d09174a6c7ecf8b3c3cf118e6dfa78d2590235b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:30 +0000
Subject: [PATCH 22/71] fix: continuously increasing annuity

increasing_annuity(discrete=False) paid at rate t+1, inconsistent with increasing insurances and with the decreasing annuity identity, making decreasing annuities negative
---
 src/actuarialmath/annuity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index 1a1454c..0ec0784 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -226,7 +226,7 @@ class Annuity(Insurance):
           >>> life.increasing_annuity(x=24, t=10)
         """
         t = self.max_term(x+s, t=t)
-        benefit = lambda x, s: b * (s + 1) # increasing benefit
+        benefit = lambda x, s: b * (s + int(discrete)) # increasing benefit
         return self.a_x(x, s=s, benefit=benefit, t=t, discrete=discrete)
 
     def decreasing_annuity(self, x: int, s: int = 0, t: int = 0, 
-- 
2.43.0


From 2ce3f44ce1082ac3694ea9bdc65b6bc69af5612b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:16 +0000
Subject: [PATCH 23/71] fix: deaths in terms that run past the end of a life
 table

LifeTable.d_x returned no deaths, and q_x returned 1 or no deaths, for terms or deferrals that run past the last age of the table
---
 src/actuarialmath/lifetable.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/lifetable.py b/src/actuarialmath/lifetable.py
index fd90af9..09a203c 100644
--- a/src/actuarialmath/lifetable.py
+++ b/src/actuarialmath/lifetable.py
@@ -205,7 +205,7 @@ class LifeTable(Reserves):
         if x+s+t <= self._MAXAGE:
             return self.l_x(x, s=s) - self.l_x(x, s=s+t)
         else:
-            return 0.
+            return self.l_x(x, s=s)   # all remaining lives
 
     def p_x(self, x: int, s: int = 0, t: int = 1) -> float:
         """t_p_x = lives beginning year x+t divided lives beginning year x
@@ -231,8 +231,8 @@ class LifeTable(Reserves):
           t : death within next t years
         """
         denom = self.l_x(x, s=s)
-        if denom and x+s+t <= self._MAXAGE:
-            return self.d_x(x, s=s+u, t=t) / self.l_x(x, s=s)
+        if denom:
+            return self.d_x(x, s=s+u, t=t) / denom
         else:
             return 1     # the only certainty in life
 
-- 
2.43.0


From 9829ab3544c7f1c84a96a51b8d040f3ed70010fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:16 +0000
Subject: [PATCH 24/71] fix: pure endowment amount and variance from a life
 table

LifeTable.E_x had no endowment amount, discounted its variance with v^-2 and divided by zero lives past the end of the table
---
 src/actuarialmath/lifetable.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/actuarialmath/lifetable.py b/src/actuarialmath/lifetable.py
index 09a203c..4fe2f89 100644
--- a/src/actuarialmath/lifetable.py
+++ b/src/actuarialmath/lifetable.py
@@ -261,7 +261,8 @@ class LifeTable(Reserves):
         else:
             return super().e_x(x=x, s=s, t=t, curtate=curtate, moment=moment)
 
-    def E_x(self, x: int, s: int = 0, t: int = 1, moment: int = 1) -> float:
+    def E_x(self, x: int, s: int = 0, t: int = 1, moment: int = 1,
+            endowment: int = 1) -> float:
         """Pure Endowment from life table and interest rate
 
         Args:
@@ -269,19 +270,22 @@ class LifeTable(Reserves):
           s : years after selection
           t : survives t years
           moment : return first (1) or second (2) moment or variance (-2)
+          endowment : amount of pure endowment
         """
         if t == 0:
-            return 1.
+            return 0. if moment == self.VARIANCE else float(endowment**moment)
         if t < 0:
             return 0.
         t = self.max_term(x+s, t)
-        p = self.l_x(x, s=s+t) / self.l_x(x, s=s)
+        lives = self.l_x(x, s=s)
+        p = self.l_x(x, s=s+t) / lives if lives else 0.
         if moment == self.VARIANCE:
-            return self.interest.v_t(t)**moment * p * (1 - p)
+            return self.interest.v_t(t)**2 * p * (1 - p) * endowment**2
         if moment == 1:
-            return self.interest.v_t(t) * p
+            return self.interest.v_t(t) * p * endowment
         # SULT shortcut: t_E_x(moment=2) = t_E_x(moment=1) * v**t
-        return self.interest.v_t(t)**(moment-1) * self.E_x(x, s=s, t=t)
+        return ((self.interest.v_t(t) * endowment)**(moment-1)
+                * self.E_x(x, s=s, t=t, endowment=endowment))
 
     def __getitem__(self, col: str) -> Dict[int, float]:
         """Returns a column of the life table
-- 
2.43.0


From ad5d0c36a85ca9bd270e105343e92658ecc88254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:16 +0000
Subject: [PATCH 25/71] fix: maximum age of a life table given in several calls

LifeTable.set_table set the limiting age to the last age entered, losing the deaths of that age, when later calls extend the table
---
 src/actuarialmath/lifetable.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/actuarialmath/lifetable.py b/src/actuarialmath/lifetable.py
index 4fe2f89..9d1954a 100644
--- a/src/actuarialmath/lifetable.py
+++ b/src/actuarialmath/lifetable.py
@@ -90,10 +90,8 @@ class LifeTable(Reserves):
             self._MINAGE = minage
         if maxage < 0:
             maxage = max([max(v) for v in inputs.values()])
-            if self._MAXAGE < 0:
+            if self._MAXAGE < 0 or maxage + 1 > self._MAXAGE:
                 self._MAXAGE = maxage + 1
-            if maxage > self._MAXAGE:
-                self._MAXAGE = maxage
         else:
             self._MAXAGE = maxage
 
-- 
2.43.0


From 3c7ca68f74473fdb5ef63023a4efde90123fbe0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:16 +0000
Subject: [PATCH 26/71] fix: lifetime density of a constant-force life table

f_r under constant force called f_x at integer ages, which for a LifeTable calls f_r again without end
---
 src/actuarialmath/fractional.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/actuarialmath/fractional.py b/src/actuarialmath/fractional.py
index a5fffbc..cdd07a1 100644
--- a/src/actuarialmath/fractional.py
+++ b/src/actuarialmath/fractional.py
@@ -146,8 +146,6 @@ class Fractional(Lifetime):
             if self.udd_:       # UDD shortcut: constant q_x, given alive at r
                 return self.q_x(x, s=s) / (1. - r * self.q_x(x, s=s))
             else:               # Constant force shortcut:
-                if self.isclose(r) and self.isclose(t):
-                    return self.f_x(x=x, s=s)
                 mu = -math.log(max(0.00001, self.p_x(x, s=s)))
                 return math.exp(-mu*t) * mu    # does not depend on fractional age
         else: # else survive to integer age, times density at fractional age
-- 
2.43.0


From 328dd6a991d2f219f17c3b3eac65e731c2ef5154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:42 +0000
Subject: [PATCH 27/71] fix: complete life tables from deaths, and with zero or
 certain mortality

LifeTable.fill_table raised ZeroDivisionError when a mortality rate of 0 or 1 (or zero lives) came with lives and deaths, and left out lives determined by adding or subtracting the deaths of the adjacent year
---
 src/actuarialmath/lifetable.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/lifetable.py b/src/actuarialmath/lifetable.py
index 9d1954a..aa0daf0 100644
--- a/src/actuarialmath/lifetable.py
+++ b/src/actuarialmath/lifetable.py
@@ -117,7 +117,7 @@ class LifeTable(Reserves):
                 return self._table['q'][x]
             if x in self._table['p']:
                 return 1 - self._table['p'][x]
-            if x in self._table['d'] and x in self._table['l']:
+            if x in self._table['d'] and self._table['l'].get(x):
                 return self._table['d'][x] / self._table['l'][x]
             return None
 
@@ -133,11 +133,15 @@ class LifeTable(Reserves):
             """Helper to try compute number of lives aged x: l_x"""
             if x in self._table['l']:
                 return self._table['l'][x]
-            if x+1 in self._table['l'] and x in self._table['q']:
+            if x+1 in self._table['l'] and self._table['q'].get(x, 1) < 1:
                 return self._table['l'][x+1] / (1 - self._table['q'][x])
             if x-1 in self._table['l'] and x-1 in self._table['q']:
                 return self._table['l'][x-1] * (1 - self._table['q'][x-1])
-            if x in self._table['d'] and x in self._table['q']:
+            if x+1 in self._table['l'] and x in self._table['d']:
+                return self._table['l'][x+1] + self._table['d'][x]
+            if x-1 in self._table['l'] and x-1 in self._table['d']:
+                return self._table['l'][x-1] - self._table['d'][x-1]
+            if x in self._table['d'] and self._table['q'].get(x):
                 return self._table['d'][x] / self._table['q'][x]
             return None
 
-- 
2.43.0


From 4c125d67fc3c07de88fd4563bf4b50143f8d49a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:42 +0000
Subject: [PATCH 28/71] fix: refill derived cells when a life table is updated

LifeTable.set_table called again left lives derived from an assumed radix, or from rates since replaced, inconsistent with the new entries
---
 src/actuarialmath/lifetable.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/actuarialmath/lifetable.py b/src/actuarialmath/lifetable.py
index aa0daf0..1e322c1 100644
--- a/src/actuarialmath/lifetable.py
+++ b/src/actuarialmath/lifetable.py
@@ -29,6 +29,7 @@ class LifeTable(Reserves):
         super().__init__(udd=udd, **kwargs)
         self._verbose = verbose
         self._table = {'l':{}, 'd':{}, 'q':{}, 'p':{}}  # columns in life table
+        self._filled = set()   # table cells that were derived, not given
 
         # Set basic survival functions by interpolating lifetable integer ages
         def _mu(x: int, s: float) -> float:
@@ -98,6 +99,7 @@ class LifeTable(Reserves):
         # update table from inputs
         for label, col in inputs.items():
             self._table[label].update(col)
+            self._filled.difference_update((label, x) for x in col)
 
         # derive and fill table values
         if fill:
@@ -154,6 +156,11 @@ class LifeTable(Reserves):
             else:
                 return None
 
+        # Discard values derived from earlier inputs
+        for col, x in self._filled:
+            del self._table[col][x]
+        self._filled.clear()
+
         # Iterate a few times to impute life table values
         funs = {'l': l_x, 'd': d_x, 'q': q_x, 'p': p_x}
         updated = 0
@@ -167,11 +174,13 @@ class LifeTable(Reserves):
                             value = fun(x)
                             if value is not None:   # update value 
                                 self._table[col][x] = round(value, 7)
+                                self._filled.add((col, x))
                                 updated += 1        # increment counter of changes
                                 if self._verbose:
                                     print(f"{updated} {col}(x={x}) = {value}")
             if not self._table['l']:  # assume starting number of lives if necc
                 self._table['l'][self._MINAGE] = radix
+                self._filled.add(('l', self._MINAGE))
         return self
 
     def mu_x(self, x: int, s: int = 0, t: int = 0) -> float:
-- 
2.43.0


From 675d012e98da60821019343c624be52cb4ba66ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:44 +0000
Subject: [PATCH 29/71] fix: fractional lives and lifetimes of special
 mortality laws

MortalityLaws.l_r called a missing lives function for Makeham, Gompertz and constant force, and e_r called a method that does not exist
---
 src/actuarialmath/mortalitylaws.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index 0c5bfb9..2490ffd 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -23,6 +23,9 @@ class MortalityLaws(Reserves):
           s : years after selection
           r : fractional year after selection
         """
+        if self.l is None:   # derive from survival function, if not given
+            return (self._RADIX * self.S(self._MINAGE, 0, x - self._MINAGE)
+                    * self.S(x, 0, s+r))
         return self.l(x, s+r)
 
     def p_r(self, x: int, s: int = 0, r: float = 0., t: float = 1.) -> float:
@@ -82,7 +85,7 @@ class MortalityLaws(Reserves):
         """
         if t < 0:
             t = self._MAXAGE - (x + s + r)
-        return self.integrate(lambda t: self.S(x, s+r, t), 0., float(t))
+        return self.integral(lambda t: self.S(x, s+r, t), 0., float(t))
 
 class Beta(MortalityLaws):
     """Shortcuts with beta distribution of deaths (is Uniform when alpha = 1)
-- 
2.43.0


From 4fc22fc9e79e9080a7d5afb9326a438e6fe66411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:13 +0000
Subject: [PATCH 30/71] fix: survival and density of the beta law

Beta density ignored survival to the time of death, and survival and lives past the maximum age were negative, complex or divided by zero
---
 src/actuarialmath/mortalitylaws.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index 2490ffd..d5c8d54 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -109,13 +109,18 @@ class Beta(MortalityLaws):
             return alpha / (omega - (x+s))
 
         def _l(x: int, s: float) -> float:
-            return radix * (omega - (x+s))**alpha
+            return radix * max(0., omega - (x+s))**alpha
 
         def _S(x: int, s,t : float) -> float:
-            return ((omega-(x+s+t))/(omega-(x+s)))**alpha
+            if t > 0 and x+s+t >= omega:
+                return 0.    # no survivors past maximum age
+            return ((omega-(x+s+t))/(omega-(x+s)))**alpha if t else 1.
 
         def _f(x: int, s,t : float) -> float:
-            return alpha / (omega - (x+s))
+            if x+s+t >= omega:
+                return 0.    # no deaths past maximum age
+            return (alpha * (omega-(x+s+t))**(alpha-1)
+                    / (omega-(x+s))**alpha)
 
         self.set_survival(mu=_mu, l=_l, S=_S, f=_f, minage=0, maxage=omega)
         self.omega_ = omega  # store omega parameter
-- 
2.43.0


From 0ecfb08955bf8119ab5a8c8520d00742d62aaf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:13 +0000
Subject: [PATCH 31/71] fix: limited lifetimes and lifetime variance of the
 beta law

Beta limited expectations returned the unlimited ones, second moments and variances raised TypeError, and the variance of the lifetime had the wrong formula
---
 src/actuarialmath/mortalitylaws.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index d5c8d54..d4c71df 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -126,40 +126,42 @@ class Beta(MortalityLaws):
         self.omega_ = omega  # store omega parameter
         self.alpha_ = alpha  # store alpha parameter
 
-    def e_r(self, x: int, s: int = 0, t: float = Reserves.WHOLE) -> float:
+    def e_r(self, x: int, s: int = 0, t: float = Reserves.WHOLE,
+            r: float = 0.) -> float:
         """Expectation of future lifetime through fractional age: e_[x]+s:t
 
         Args:
           x : age of selection
           s : years after selection
           t : limited at t years
+          r : fractional year after selection
         """
-        e = (self.omega_ - (x+s)) / (self.alpha_ + 1)
-        if t > 0 and self.max_term(x+s, t) > t: # temporary expectation
+        s += r
+        e = max(0., self.omega_ - (x+s)) / (self.alpha_ + 1)
+        if 0 <= t < self.omega_ - (x+s):   # temporary expectation
             return e - self.p_r(x, s=s, t=t) * self.e_r(x, s=s+t)
         return e   # complete expectation
 
-    def e_x(self, x: int, s: int = 0, n: int = MortalityLaws.WHOLE, 
+    def e_x(self, x: int, s: int = 0, t: int = MortalityLaws.WHOLE, 
           curtate: bool = False, moment: int = 1) -> float:
         """Shortcut formula for complete expectation
 
         Args:
           x : age of selection
           s : years after selection
-          n : death within next n fractional years
           t : limited at t years
           curtate : whether curtate (True) or complete (False) lifetime
           moment : whether to compute first (1) or second (2) moment
         """
-        if n == 0:
+        if t == 0:
             return 0
         if not curtate:
             if moment == 1:
-                return self.e_r(x, s=s, t=n)
-            if moment == self.VARIANCE and n < 0: # shortcut for complete variance
-                return ((self.omega_ - (x + s))
-                        / ((self.alpha_ + 1)**2 * (self.alpha_ + 1)))
-        return super().e_x(x=x, s=s, n=n, curtate=curtate, moment=moment)
+                return self.e_r(x, s=s, t=t)
+            if moment == self.VARIANCE and t < 0: # shortcut for complete variance
+                return ((self.omega_ - (x + s))**2 * self.alpha_
+                        / ((self.alpha_ + 1)**2 * (self.alpha_ + 2)))
+        return super().e_x(x=x, s=s, t=t, curtate=curtate, moment=moment)
 
 class Uniform(Beta):
     """Shortcuts with uniform distribution of deaths aka DeMoivre's Law
-- 
2.43.0


From 9ab2f6958c1cc624e8645d99a6bd6eabd5676ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:37 +0000
Subject: [PATCH 32/71] fix: expected lifetime of the uniform law

Uniform.e_x swapped the probabilities of dying and surviving in its limited expectation (its docstring example 27.692 printed 32.3) and ignored years since selection
---
 src/actuarialmath/mortalitylaws.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index d4c71df..71a1eb2 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -191,14 +191,14 @@ class Uniform(Beta):
         if moment in [1, self.VARIANCE] and not curtate:
             if t < 0:
                 if moment == self.VARIANCE:
-                    return (self.omega_ - x)**2 / 12  # complete shortcut
+                    return (self.omega_ - (x+s))**2 / 12  # complete shortcut
                 else:
-                    return (self.omega_ - x) / 2
+                    return (self.omega_ - (x+s)) / 2
             elif moment == 1:         # temporary expectation shortcut
                 # (Pr[die within n years] * n/2) plus (Pr[survive n years] * n)
                 t = self.max_term(x+s, t)
-                t_p_x = t / (self.omega_ - x)
-                return t_p_x * t  + (1 - t_p_x) * (t / 2)
+                t_q_x = t / (self.omega_ - (x+s))
+                return t_q_x * (t / 2)  + (1 - t_q_x) * t
         return super().e_x(x=x, s=s, t=t, curtate=curtate, moment=moment)
 
     
-- 
2.43.0


From a66af224c82ee0764a061f7724f83f18cd95e5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:37 +0000
Subject: [PATCH 33/71] fix: pure endowment of the uniform law

Uniform.E_x ignored years since selection, had no endowment amount and rejected its own variance
---
 src/actuarialmath/mortalitylaws.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index 71a1eb2..cf88a0f 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -203,27 +203,25 @@ class Uniform(Beta):
 
     
     def E_x(self, x: int, s: int = 0, t: int = Beta.WHOLE, 
-            moment: int = 1) -> float:
+            moment: int = 1, endowment: int = 1) -> float:
         """Shortcut for Pure Endowment
 
         Args:
           x : age of selection
           s : years after selection
           t : term of pure endowment
-          endowment : amount of pure endowment
           moment : compute first or second moment
+          endowment : amount of pure endowment
         """
-        assert moment > 0
         if t == 0:
-            return 1.
+            return 0. if moment == self.VARIANCE else float(endowment**moment)
         if t < 0:
             return 0.
         t = self.max_term(x+s, t)
-        t_p_x = (self.omega_ - x - t) / (self.omega_ - x)
+        t_p_x = (self.omega_ - (x+s) - t) / (self.omega_ - (x+s))
         if moment == self.VARIANCE:  # Bernoulli shortcut for variance
-            return self.interest.v_t(t)**2 * t_p_x * (1 - t_p_x)
-        return (self.interest.v_t(t)**moment * (self.omega_ - x - t) 
-                / (self.omega_ - x))
+            return self.interest.v_t(t)**2 * t_p_x * (1 - t_p_x) * endowment**2
+        return (endowment * self.interest.v_t(t))**moment * t_p_x
 
     def whole_life_insurance(self, x: int, s: int = 0, moment: int = 1, 
                              b: int = 1, discrete: bool = True) -> float:
-- 
2.43.0


From 3b28ef4b464a6923dba0822e18d6e1cbf985a288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:37 +0000
Subject: [PATCH 34/71] fix: insurances of the uniform law

Uniform.term_insurance dropped the term when discrete, recursed without end for second moments and divided by zero at zero interest; term and whole life variances multiplied the benefit twice
---
 src/actuarialmath/mortalitylaws.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index cf88a0f..6f264c3 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -240,7 +240,7 @@ class Uniform(Beta):
                 return (self.whole_life_insurance(x, s=s, b=b, moment=2, 
                                                   discrete=False) -
                         self.whole_life_insurance(x, s=s, b=b, moment=1, 
-                                                    discrete=False)**2) * b**2
+                                                    discrete=False)**2)
             return self.term_insurance(x, s=s, t=self.omega_-(x+s), b=b,
                                        moment=moment, discrete=False)
         return super().whole_life_insurance(x, s=s, moment=moment, b=b,
@@ -258,16 +258,19 @@ class Uniform(Beta):
           moment : compute first or second moment
           discrete : benefit paid year-end (True) or moment of death (False)
         """
-        if not discrete and moment in [1, Beta.VARIANCE]:
+        if not discrete:
             if moment == Beta.VARIANCE:
                 return (self.term_insurance(x, s=s, b=b, t=t, moment=2, 
                                             discrete=False) -
                         self.term_insurance(x, s=s, b=b, t=t, 
-                                            discrete=False)**2) * b**2
-            t = self.max_term(x+s, t)                                        
-            return (b * (1 - self.interest.v_t(t)) 
-                    / (self.interest.delta * (self.omega_ - (x+s))))
-        return super().term_insurance(x, s=s, moment=moment, b=b, 
+                                            discrete=False)**2)
+            t = self.max_term(x+s, t)
+            if t == 0:      # no remaining lifetime or term
+                return 0.
+            delta = moment * self.interest.delta   # multiply force of interest
+            a = (1 - self.interest.v_t(t)**moment) / delta if delta else t
+            return b**moment * a / (self.omega_ - (x+s))
+        return super().term_insurance(x, s=s, t=t, moment=moment, b=b,
                                       discrete=discrete)
 
 class Makeham(MortalityLaws):
-- 
2.43.0


From aac3c2c03b26a4268b25ada910beea65cd2ae939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:08 +0000
Subject: [PATCH 35/71] fix: variance of limited lifetimes under constant force

ConstantForce.e_x returned the unlimited variance for limited lifetimes, and divided by zero when the force is zero
---
 src/actuarialmath/constantforce.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/constantforce.py b/src/actuarialmath/constantforce.py
index 8f5cb3a..93eeaf8 100644
--- a/src/actuarialmath/constantforce.py
+++ b/src/actuarialmath/constantforce.py
@@ -42,8 +42,8 @@ class ConstantForce(MortalityLaws):
           curtate : whether curtate (True) or continuous (False) lifetime
           moment : first (1) or second (2) moment
         """
-        if not curtate:    # Var[Tx] = 1/mu^2, E[Tx] = 1/mu
-            if moment == MortalityLaws.VARIANCE:
+        if not curtate and self.mu_ > 0:   # Var[Tx] = 1/mu^2, E[Tx] = 1/mu
+            if moment == MortalityLaws.VARIANCE and t < 0:
                 return 1. / self.mu_**2   # shortcut
             elif moment == 1:
                 e = 1 / self.mu_  # infinite n case shortcut
-- 
2.43.0


From 5609f2599f341245a548988b33bfd3b1eb9af1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:08 +0000
Subject: [PATCH 36/71] fix: pure endowment variance under constant force

ConstantForce.E_x had no variance, and returned 1 instead of the endowment amount for a term of zero
---
 src/actuarialmath/constantforce.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/constantforce.py b/src/actuarialmath/constantforce.py
index 93eeaf8..7d09717 100644
--- a/src/actuarialmath/constantforce.py
+++ b/src/actuarialmath/constantforce.py
@@ -64,9 +64,12 @@ class ConstantForce(MortalityLaws):
           moment : compute first or second moment
         """
         if t == 0:
-            return 1.
+            return 0. if moment == self.VARIANCE else float(endowment**moment)
         if t < 0:
             return 0.
+        if moment == self.VARIANCE:  # Bernoulli shortcut for variance
+            return (math.exp(-(self.mu_ + 2 * self.interest.delta) * t)
+                    * (1 - math.exp(-self.mu_ * t)) * endowment**2)
         delta = moment * self.interest.delta   # multiply force of interest
         return math.exp(-(self.mu_ + delta) * t) * endowment**moment
 
-- 
2.43.0


From 72f154782d033b8d54536b7e723553557cc94bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:08 +0000
Subject: [PATCH 37/71] fix: benefit amount of continuous whole life insurance
 under constant force

ConstantForce.whole_life_insurance ignored the benefit amount when paid at death, and term_insurance divided by zero with no force of mortality or interest
---
 src/actuarialmath/constantforce.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/constantforce.py b/src/actuarialmath/constantforce.py
index 7d09717..2f06b3b 100644
--- a/src/actuarialmath/constantforce.py
+++ b/src/actuarialmath/constantforce.py
@@ -136,7 +136,8 @@ class ConstantForce(MortalityLaws):
         """
         if moment > 0 and not discrete:
             delta = moment * self.interest.delta   # multiply force of interest
-            return self.mu_ / (self.mu_ + delta) if self.mu_ > 0 else 0.
+            return (b**moment * self.mu_ / (self.mu_ + delta)
+                    if self.mu_ > 0 else 0.)
         return super().whole_life_insurance(x, s=s, moment=moment, b=b,
                                             discrete=discrete)
 
@@ -154,7 +155,8 @@ class ConstantForce(MortalityLaws):
         """
         if moment > 0 and not discrete:
             delta = moment * self.interest.delta   # multiply force of interest
-            A = b**moment * self.mu_/(self.mu_ + delta)
+            A = (b**moment * self.mu_/(self.mu_ + delta)
+                 if self.mu_ > 0 else 0.)
             if t < 0:
                 return A
             else:
-- 
2.43.0


From 99152650558d76acc4f531b4bfde283fc243f693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:08 +0000
Subject: [PATCH 38/71] fix: annuities at zero interest under constant force

ConstantForce annuity variances divided by zero at zero interest, as did the continuous temporary annuity with no force of mortality or interest
---
 src/actuarialmath/constantforce.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/actuarialmath/constantforce.py b/src/actuarialmath/constantforce.py
index 2f06b3b..7de648f 100644
--- a/src/actuarialmath/constantforce.py
+++ b/src/actuarialmath/constantforce.py
@@ -85,11 +85,9 @@ class ConstantForce(MortalityLaws):
           variance : return APV (True) or variance (False)
           discrete : annuity due (True) or continuous (False)
         """
-        if variance:  # short cut for variance of temporary life annuity
-            A1 = self.whole_life_insurance(x, s=s, discrete=discrete)
-            A2 = self.whole_life_insurance(x, s=s, moment=2, discrete=discrete)
-            return (b**2 * (A2 - A1**2) /
-                    (self.interest.d if discrete else self.interest.delta)**2)
+        if variance:  # short cut for variance of whole life annuity
+            return super().whole_life_annuity(x, s=s, b=b, variance=True,
+                                              discrete=discrete)
         if not discrete:
             den = self.mu_ + self.interest.delta
             return (1. / den) * b if den > 0 else math.inf
@@ -108,14 +106,12 @@ class ConstantForce(MortalityLaws):
           variance : return APV (True) or variance (False)
           discrete : annuity due (True) or continuous (False)
         """
-        interest = self.interest.d if discrete else self.interest.delta
         if variance:  # short cut for variance of temporary life annuity
-            A1 = self.endowment_insurance(x, s=s, t=t, discrete=discrete)
-            A2 = self.endowment_insurance(x, s=s, t=t, moment=2,
-                                          discrete=discrete)
-            return (b**2 * (A2 - A1**2) /
-                    (self.interest.d if discrete else self.interest.delta)**2)
+            return super().temporary_annuity(x, s=s, t=t, b=b, variance=True,
+                                             discrete=discrete)
         if not discrete:
+            if not self.mu_ + self.interest.delta:
+                return b * t if t >= 0 else math.inf
             a = b * 1/(self.mu_ + self.interest.delta)
             if t < 0:
                 return a
-- 
2.43.0


From 90b13847b153e95cb8df50817090727a9adf5109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:29 +0000
Subject: [PATCH 39/71] fix: time of death at a survival probability

Z_t and Y_t searched for the time of death on a grid of ages with an unbracketed root finder, which failed (OverflowError, IndexError, or a time at which nobody survives) for most laws and probabilities
---
 src/actuarialmath/annuity.py   |  5 ++---
 src/actuarialmath/insurance.py | 20 +++++++++++++++++---
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index 0ec0784..3fecd7b 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -264,9 +264,8 @@ class Annuity(Insurance):
 
         """
         assert prob < 1.0
-        t = self.solve(lambda t: self.S(x, 0, t), target=1. - prob,
-                       grid=[self._MINAGE, self._MAXAGE])
-        return math.ceil(t) if discrete else t   # should be opposite of insurance?
+        t = self._T_from_prob(x, 1. - prob)
+        return math.ceil(round(t, 6)) if discrete else t   # should be opposite of insurance?
 
     def Y_x(self, x, s: int = 0, t: float = 1., discrete: bool = True) -> float:
         """EPV of year t annuity benefit for life aged [x]+s: b_x[s]+s(t)
diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index fe82fd1..9eeb69e 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -6,6 +6,7 @@ from typing import Callable, Any, Tuple, List
 import math
 import matplotlib.pyplot as plt
 import numpy as np
+import scipy.optimize
 from actuarialmath import Fractional
 
 class Insurance(Fractional):
@@ -275,9 +276,22 @@ class Insurance(Fractional):
           >>> t = life.Z_t(x=20, prob=0.8, discrete=True)
         """
         assert prob < 1.0  # Note survival function and PV both decreasing in t
-        t = self.solve(lambda t: self.S(x, 0, t),
-                       target=prob, grid=[self._MINAGE, self._MAXAGE])
-        return math.floor(t) if discrete else t       # opposite of annuity
+        t = self._T_from_prob(x, prob)
+        return math.floor(round(t, 6)) if discrete else t  # opposite of annuity
+
+    def _T_from_prob(self, x: int, prob: float) -> float:
+        """Helper to find time T s.t. survival probability S(T) == prob
+
+        Args:
+          x : age initially insured
+          prob : probability of survival
+        """
+        f = lambda t: self.S(x, 0, t) - prob
+        stop = self._MAXAGE - x
+        if f(0.) >= 0. >= f(stop):   # survival is decreasing till maximum age
+            return scipy.optimize.brentq(f, 0., stop)
+        return self.solve(lambda t: self.S(x, 0, t),
+                          target=prob, grid=[0., stop])
 
     def Z_from_t(self, t: float, discrete: bool = True) -> float:
         """PV of annual or continuous insurance payment Z(t) at t=T_x
-- 
2.43.0


From 3db9d18fb9b3d9986e86b8979802a9c03e26117f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:29 +0000
Subject: [PATCH 40/71] fix: time of death of an annuity value at zero interest

Y_to_t tested the discount factor instead of the force of interest for zero, dividing by zero at zero interest
---
 src/actuarialmath/annuity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index 3fecd7b..589c3e6 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -314,7 +314,7 @@ class Annuity(Insurance):
         Args:
           Y : Present value of benefits paid
         """
-        if self.interest.v == 0.:
+        if self.isclose(self.interest.delta):   # if interest=0:
             return Y
         else:
             return math.log(1 - self.interest.delta*Y) / math.log(self.interest.v)
-- 
2.43.0


From d91f5fae4532d4bdbf65ba3bd4e89269090e9c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:30 +0000
Subject: [PATCH 41/71] fix: present value annotated by Z_plot and Y_plot

Z_plot and Y_plot returned no value at time zero and annotated the benefit of the youngest age rather than of the plotted life
---
 src/actuarialmath/annuity.py   | 4 ++--
 src/actuarialmath/insurance.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index 589c3e6..6d2e60e 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -385,7 +385,7 @@ class Annuity(Insurance):
     
         if T is not None:
             # indicate PV benefit Y(T*)
-            Y = self.Y_from_t(T, discrete=discrete) * benefit(self._MINAGE, T)
+            Y = self.Y_from_t(T, discrete=discrete) * benefit(x, s+T)
             
             label1, = ax.plot(T, Y, c=color, marker='o',
                               label=f"Y({T:.2f})={Y:.4f}")            
@@ -402,7 +402,7 @@ class Annuity(Insurance):
         ax.set_ylabel(f"$Y({K}_x)$", color=color)
         ax.set_xlabel(f"${K}_x$")
         #plt.tight_layout()
-        return Y if T else None
+        return Y if T is not None else None
 
     def _Y_plot(self, x: int, s: int = 0, stop : int = 0,
                 benefit: Callable = lambda x,k: 1,
diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index 9eeb69e..a877384 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -405,7 +405,7 @@ class Insurance(Fractional):
             
         if T is not None:
             # indicate PV of benefit Z(T*)
-            Z = benefit(self._MINAGE, T) * self.Z_from_t(T, discrete=discrete)
+            Z = benefit(x, s+T) * self.Z_from_t(T, discrete=discrete)
             label1, = ax.plot(T, Z, c=color, marker='o',
                               label=f"Z({T:.2f})={Z:.4f}")
             #ax.text(T + xjig, Z, f"Z({T:.2f})={Z:.4f}", c=color)
@@ -421,7 +421,7 @@ class Insurance(Fractional):
         ax.set_ylabel(f"$Z({K}_x)$", color=color)
         ax.set_xlabel(f"${K}_x$")
         #plt.tight_layout()
-        return Z if T else None
+        return Z if T is not None else None
 
     def _Z_plots(self,
                  x: int,
-- 
2.43.0


From 85d3e958397953cd4038202505453d76764b5a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:10 +0000
Subject: [PATCH 42/71] fix: policy values of contracts that reach the limiting
 age

term was cut at the limiting age less the policy duration, e.g. net_policy_value(20,t=12,n=60) with limiting age 80
---
 src/actuarialmath/policyvalues.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/actuarialmath/policyvalues.py b/src/actuarialmath/policyvalues.py
index 3269cb4..c34361f 100644
--- a/src/actuarialmath/policyvalues.py
+++ b/src/actuarialmath/policyvalues.py
@@ -164,7 +164,7 @@ class PolicyValues(Premiums):
             A1 = self.whole_life_insurance(x, s=s+t, discrete=discrete)
             A = self.whole_life_insurance(x, s=s, discrete=discrete)
         elif endowment == b:   # Endowment Insurance 
-            n = self.max_term(x=x+s+t, t=n)
+            n = self.max_term(x=x+s, t=n)
             A2 = self.endowment_insurance(x, s=s+t, t=n-t, moment=2,
                                             discrete=discrete)
             A1 = self.endowment_insurance(x, s=s+t, t=n-t, discrete=discrete)
@@ -194,12 +194,12 @@ class PolicyValues(Premiums):
             A1 = self.whole_life_insurance(x, s=s+t, discrete=discrete)
             A = self.whole_life_insurance(x, s=s, discrete=discrete)
         elif endowment == b:  # Shortcut available for (equal) Endowment Insurance
-            n = self.max_term(x=x+s+t, t=n)
+            n = self.max_term(x=x+s, t=n)
             A1 = self.endowment_insurance(x, s=s+t, t=n-t, 
                                             discrete=discrete)
             A = self.endowment_insurance(x, s=s, t=n, discrete=discrete)
         else:   # Special Term or (unequal) Endowment insurance has no shortcut
-            n = self.max_term(x=x+s+t, t=n)
+            n = self.max_term(x=x+s, t=n)
             A1 = self.endowment_insurance(x, s=s+t, t=n-t, discrete=discrete,
                                             b=b, endowment=endowment)
             a1 = self.temporary_annuity(x, s=s+t, t=n-t, b=b, 
@@ -264,7 +264,7 @@ class PolicyValues(Premiums):
             A1 = self.whole_life_insurance(x, s=s+t, 
                                             discrete=contract.discrete)
         elif contract.endowment == contract.claims_cost:  # Endowment
-            n = self.max_term(x=x+s+t, t=n)
+            n = self.max_term(x=x+s, t=n)
             A2 = self.endowment_insurance(x, s=s+t, t=n-t, moment=2, 
                                             discrete=contract.discrete)
             A1 = self.endowment_insurance(x, s=s+t, t=n-t, 
@@ -293,11 +293,11 @@ class PolicyValues(Premiums):
             A = self.whole_life_insurance(x, s=s+t, 
                                           discrete=contract.discrete)
         elif contract.endowment == contract.claims_cost:  # Endowment Ins shortcut
-            n = self.max_term(x=x+s+t, t=n)
+            n = self.max_term(x=x+s, t=n)
             A = self.endowment_insurance(x, s=s+t, t=n-t, 
                                             discrete=contract.discrete)
         else:  # Special term insurance
-            n = self.max_term(x=x+s+t, t=n)
+            n = self.max_term(x=x+s, t=n)
             A = self.term_insurance(x, s=s+t, t=n-t, discrete=contract.discrete)
             a = self.temporary_annuity(x, s=s+t, t=n-t,
                                        discrete=contract.discrete)
-- 
2.43.0


From 600e1d3e2d8d9484621abc782f059048b9a22e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:53 +0000
Subject: [PATCH 43/71] fix: net policy values at zero interest

net_policy_value and net_policy_variance of whole life and endowment insurance divided by zero at i=0
---
 src/actuarialmath/policyvalues.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/actuarialmath/policyvalues.py b/src/actuarialmath/policyvalues.py
index c34361f..972b335 100644
--- a/src/actuarialmath/policyvalues.py
+++ b/src/actuarialmath/policyvalues.py
@@ -158,6 +158,11 @@ class PolicyValues(Premiums):
           endowment : endowment amount
           discrete : annuity due (True) or continuous (False)
         """
+        if (n < 0 or endowment == b) and self.interest.delta == 0:  # no shortcut
+            var = self.temporary_annuity(x, s=s+t, t=self.add_term(n, -t),
+                                         discrete=discrete, variance=True)
+            a = self.temporary_annuity(x, s=s, t=n, discrete=discrete)
+            return b**2 * var / a**2
         if n < 0:             # Whole Life
             A2 = self.whole_life_insurance(x, s=s+t, moment=2,
                                             discrete=discrete)
@@ -190,6 +195,11 @@ class PolicyValues(Premiums):
           endowment : endowment amount
           discrete : discrete/annuity due (True) or continuous (False)
         """
+        if (n < 0 or endowment == b) and self.interest.delta == 0:  # no shortcut
+            a1 = self.temporary_annuity(x, s=s+t, t=self.add_term(n, -t),
+                                        discrete=discrete)
+            a = self.temporary_annuity(x, s=s, t=n, discrete=discrete)
+            return b * (1 - a1 / a)
         if n < 0:             # Shortcut available for Whole Life
             A1 = self.whole_life_insurance(x, s=s+t, discrete=discrete)
             A = self.whole_life_insurance(x, s=s, discrete=discrete)
-- 
2.43.0


From 23e6eef2e6460b86999c874eb09aca5bb48f9b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:11 +0000
Subject: [PATCH 44/71] fix: gross policy values at zero interest

gross_policy_value of whole life and level endowment contracts ignored premiums and gross_policy_variance divided by zero at i=0
---
 src/actuarialmath/policyvalues.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/policyvalues.py b/src/actuarialmath/policyvalues.py
index 972b335..306025c 100644
--- a/src/actuarialmath/policyvalues.py
+++ b/src/actuarialmath/policyvalues.py
@@ -268,6 +268,12 @@ class PolicyValues(Premiums):
           contract : policy contract terms and expenses
         """
         contract = contract or Contract()
+        if (self.interest.delta == 0 and  # if interest=0, no shortcut from twin
+            (n < 0 or contract.endowment == contract.claims_cost)):
+            var = self.temporary_annuity(x, s=s+t, t=self.add_term(n, -t),
+                                         discrete=contract.discrete,
+                                         variance=True)
+            return contract.renewal_profit**2 * var
         if n < 0:  # WL
             A2 = self.whole_life_insurance(x, s=s+t, moment=2,
                                             discrete=contract.discrete)
@@ -317,8 +323,12 @@ class PolicyValues(Premiums):
             initial_cost = 0 if t else contract.initial_cost
             return (A * contract.claims_cost + initial_cost + endowment -
                     (a * contract.renewal_profit))
+        a = None
+        if self.interest.delta == 0:   # no twin annuity if interest=0
+            a = self.temporary_annuity(x, s=s+t, t=n-t if n >= 0 else n,
+                                       discrete=contract.discrete)
         contract = contract.renewals(t) if t else contract # ignore initial if t>0
-        return self.gross_future_loss(A=A, contract=contract)
+        return self.gross_future_loss(A=A, a=a, contract=contract)
 
     #
     # Future Loss random variable: L(T_x)
-- 
2.43.0


From 557a5df70667a3b04965e03e6a83dc9e506ee455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:54 +0000
Subject: [PATCH 45/71] fix: term of the renewal view of a whole life contract

Contract(T=WHOLE).renewals(t) had term WHOLE - t instead of whole life
---
 src/actuarialmath/policyvalues.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/policyvalues.py b/src/actuarialmath/policyvalues.py
index 306025c..ebeb5fa 100644
--- a/src/actuarialmath/policyvalues.py
+++ b/src/actuarialmath/policyvalues.py
@@ -92,7 +92,7 @@ class Contract(Actuarial):
                         discrete=self.discrete,
                         premium=self.premium,
                         endowment=self.endowment,
-                        T=self.T - t)
+                        T=self.add_term(self.T, -t))
 
     @property
     def renewal_profit(self) -> float:
-- 
2.43.0


From 99a2b4808b2d511f74edb01a93dd5dbf4c481e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:33 +0000
Subject: [PATCH 46/71] fix: loss of a contract whose term is survived

L_from_t past the term added a death claim, an extra premium, and discounted the endowment to the end of the following year
---
 src/actuarialmath/policyvalues.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/actuarialmath/policyvalues.py b/src/actuarialmath/policyvalues.py
index ebeb5fa..1fa6813 100644
--- a/src/actuarialmath/policyvalues.py
+++ b/src/actuarialmath/policyvalues.py
@@ -342,13 +342,12 @@ class PolicyValues(Premiums):
         """
         c = contract or Contract()
         k = math.floor(t) if c.discrete else t
-        if c.T > 0 and k >= c.T:   # if endowment insurance and t is beyond term
-            t = c.T
-            endowment = c.endowment * self.Z_from_t(t)
+        if c.T > 0 and k >= c.T:   # if survives term, then endowment, no claims
+            benefit = c.endowment * self.Z_from_t(c.T, discrete=False)
+            t = c.T - 1 if c.discrete else c.T   # last premium paid
         else:
-            endowment = 0
-        return ((c.claims_cost * self.Z_from_t(t, discrete=c.discrete))
-                + endowment
+            benefit = c.claims_cost * self.Z_from_t(t, discrete=c.discrete)
+        return (benefit
                 + c.initial_cost
                 - (c.renewal_profit * self.Y_from_t(t, discrete=c.discrete)))
 
-- 
2.43.0


From e0667e566a32002cace67848e7ecb0df8e8262e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:06 +0000
Subject: [PATCH 47/71] fix: time of death of a loss

L_to_t and L_to_prob searched for the minimum of a step function and returned times off by years or beyond the limiting age
---
 src/actuarialmath/policyvalues.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/actuarialmath/policyvalues.py b/src/actuarialmath/policyvalues.py
index 1fa6813..d1835b0 100644
--- a/src/actuarialmath/policyvalues.py
+++ b/src/actuarialmath/policyvalues.py
@@ -372,13 +372,20 @@ class PolicyValues(Premiums):
           contract : policy contract terms and expenses
         """
         c = contract or Contract()
-        T = Contract.solve(lambda t: self.L_from_t(t, c),
-                           target=L,
-                           grid=(0, self._MAXAGE),
-                           mad=True)
+        def excess(t: float) -> float:  # loss over target, decreases with t
+            y = self.L_from_t(t, c) - L
+            return 0. if math.isclose(y + L, L, abs_tol=1e-12) else y
+        lower, upper = 0, self._MAXAGE
+        if excess(lower) <= 0:
+            return lower
+        if excess(upper) > 0:
+            return upper
         if not c.discrete:
-            return T
-        return math.floor(T) if self.L_from_t(t=T, contract=c) <= L else math.ceil(T)
+            return scipy.optimize.brentq(excess, lower, upper)
+        while upper - lower > 1:   # L(lower) > L >= L(upper)
+            t = (lower + upper) // 2
+            lower, upper = (t, upper) if excess(t) > 0 else (lower, t)
+        return upper
 
     def L_to_prob(self, x: int, L: float,
                   contract: Contract = Contract()) -> float:
-- 
2.43.0


From 8ee1c5a3a45d67413307e4472124a2c36472a808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:27 +0000
Subject: [PATCH 48/71] fix: plot of losses without a time of death

L_plot without T raised UnboundLocalError
---
 src/actuarialmath/policyvalues.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/actuarialmath/policyvalues.py b/src/actuarialmath/policyvalues.py
index d1835b0..e114e75 100644
--- a/src/actuarialmath/policyvalues.py
+++ b/src/actuarialmath/policyvalues.py
@@ -451,6 +451,7 @@ class PolicyValues(Premiums):
             bx.set_ylabel(f"$S({K})$", color='g')
             bx.tick_params(axis='y', colors='g')
 
+        z = None
         if T is not None:
             # plot indicate(T*)
             z = self.L_from_t(T, contract=contract)
-- 
2.43.0


From 83966d760067fccd5936ca46277777d25d4b566a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:22 +0000
Subject: [PATCH 49/71] fix: settlement expenses in reserves recursion

fill_reserves left out the settlement expense, so reserves disagreed with gross_policy_value
---
 src/actuarialmath/reserves.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/reserves.py b/src/actuarialmath/reserves.py
index f9e7ec4..ea11d75 100644
--- a/src/actuarialmath/reserves.py
+++ b/src/actuarialmath/reserves.py
@@ -60,7 +60,7 @@ class Reserves(PolicyValues):
                                  per_policy = -contract.endowment)
                 elif t == 1:
                     v = self.t_V(x=x, s=s, t=t, premium=contract.premium, 
-                                 benefit=lambda t: contract.benefit,
+                                 benefit=lambda t: contract.claims_cost,
                                  reserve_benefit=reserve_benefit,
                                  per_premium=contract.initial_premium, 
                                  per_policy=contract.initial_policy)
@@ -68,7 +68,7 @@ class Reserves(PolicyValues):
                     v = 0
                 else:
                     v = self.t_V(x=x, s=s, t=t, premium=contract.premium, 
-                                 benefit=lambda t: contract.benefit,
+                                 benefit=lambda t: contract.claims_cost,
                                  reserve_benefit=reserve_benefit,
                                  per_premium=contract.renewal_premium, 
                                  per_policy=contract.renewal_policy)
-- 
2.43.0


From a992b8d416d0da5f6b38e0338ae1c8b5a29a10b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:51 +0000
Subject: [PATCH 50/71] fix: given reserves are kept

set_reserves reset the endowment of an earlier call and overwrote given first and last reserves with zero
---
 src/actuarialmath/reserves.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/reserves.py b/src/actuarialmath/reserves.py
index ea11d75..d801b25 100644
--- a/src/actuarialmath/reserves.py
+++ b/src/actuarialmath/reserves.py
@@ -35,9 +35,10 @@ class Reserves(PolicyValues):
             self.T = T
         if V:
             self._reserves['V'].update(V)
-            self.T = max(len(V) - 1, self.T)
-        self._reserves['V'][0] = 0  # initial reserve is 0 by equivalence
-        self._reserves['V'][self.T] = endowment  # n_V is 0 or endowment
+            self.T = max(max(V), self.T)
+        self._reserves['V'].setdefault(0, 0)  # initial reserve is 0 by equivalence
+        if endowment or self.T not in self._reserves['V']:
+            self._reserves['V'][self.T] = endowment  # n_V is 0 or endowment
         return self
 
     def fill_reserves(self, x: int, s: int = 0, reserve_benefit: bool = False,
-- 
2.43.0


From 883ebcc1ba04eac6072e26ceed9337bd73ed5a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:02 +0000
Subject: [PATCH 51/71] fix: deaths and age range of select tables entered by
 column

SelectLife.set_select stored the lifetimes given in place of the deaths, and the last age depended on the order of the ages given
---
 src/actuarialmath/selectlife.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/selectlife.py b/src/actuarialmath/selectlife.py
index 1827586..4edf966 100644
--- a/src/actuarialmath/selectlife.py
+++ b/src/actuarialmath/selectlife.py
@@ -123,7 +123,7 @@ class SelectLife(LifeTable):
         tables = {
             'l': ifelse(l, {}),
             'q': ifelse(q, {}),
-            'd': ifelse(e, {}),
+            'd': ifelse(d, {}),
             'e': ifelse(e, {}),
             'a': ifelse(a, {}),
             'A': ifelse(A, {})
@@ -140,7 +140,7 @@ class SelectLife(LifeTable):
 
                     if self._MINAGE < 0 or x < self._MINAGE:  # infer min age
                         self._MINAGE = x
-                    if age > self._MAXAGE:                    # infer max age
+                    if x > self._MAXAGE:                      # infer max age
                         self._MAXAGE = x
         if fill:
             self.fill_table(radix=radix)
-- 
2.43.0


From 13c3688a5d47873c0b9607dfd023a66514d7178b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:13 +0000
Subject: [PATCH 52/71] fix: refill derived cells of select tables, and assume
 a radix only without lives

SelectLife.fill_table kept cells derived from replaced values, and added an unrelated radix beside given lives
---
 src/actuarialmath/selectlife.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/selectlife.py b/src/actuarialmath/selectlife.py
index 4edf966..705c6a3 100644
--- a/src/actuarialmath/selectlife.py
+++ b/src/actuarialmath/selectlife.py
@@ -31,6 +31,7 @@ class SelectLife(LifeTable):
                  verbose: bool = False, **kwargs):
         super().__init__(udd=udd, **kwargs)
         self._select = {'l':{}, 'd':{}, 'q':{}, 'e':{}, 'A':{}, 'a':{}}
+        self._filled = set()   # table cells that were derived, not given
         self.periods_ = periods
         self._verbose = verbose
 
@@ -77,6 +78,7 @@ class SelectLife(LifeTable):
         
         for lbl, table in [('A',A), ('a',a), ('q',q), ('d',d), ('l',l), ('e',e)]:
             self._select[lbl] = {}
+            self._filled = {cell for cell in self._filled if cell[0] != lbl}
             if table:     # update given table cells
                 for age, row in table.items():
                     periods = max(len(row) - 1, periods)
@@ -137,6 +139,7 @@ class SelectLife(LifeTable):
                     if x not in self._select[table]:
                         self._select[table][x] = {}
                     self._select[table][x][s] = item[age]
+                    self._filled.discard((table, x, s))
 
                     if self._MINAGE < 0 or x < self._MINAGE:  # infer min age
                         self._MINAGE = x
@@ -258,6 +261,11 @@ class SelectLife(LifeTable):
                     return (self._get_sel(_x, _s, 'e') 
                             / (1 - self._get_sel(_x, _s, 'q'))) - 1
 
+        # Discard values derived from earlier inputs
+        for tab, x, s in self._filled:
+            del self._select[tab][x][s]
+        self._filled.clear()
+
         # Iterate a few times to impute select table values
         funs = {'l': l_x, 'A': A_x, 'a': a_x, 'q': q_x, 'd': d_x, 'e': e_x}
         curr = 0   # number of updates filled in
@@ -276,11 +284,14 @@ class SelectLife(LifeTable):
                                 val = fun(x, s)
                                 if val is not None:
                                     self._select[tab][x][s] = val
+                                    self._filled.add((tab, x, s))
                                     curr += 1
                                     if self._verbose:
                                         print(f"{curr} {tab}(x={x}, s={s}) = {val}")
-            if 0 not in self._select['l'][self._MINAGE]: # arbitrary initial lives
+            if not any(self._isin_sel(x, s, 'l') for x in self._select['l']
+                       for s in self._select['l'][x]):   # arbitrary initial lives
                 self._select['l'][self._MINAGE][0] = radix
+                self._filled.add(('l', self._MINAGE, 0))
         return self
 
     def A_x(self, x: int, s: int = 0, moment: int = 1, discrete: bool = True,
-- 
2.43.0


From 583f6b4111658adca85aa8bb66a556799d201ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:28 +0000
Subject: [PATCH 53/71] fix: complete select tables from deaths and lives,
 insurances and annuities

SelectLife.fill_table did not derive lives from deaths (and so assumed a radix or failed), nor rates from insurances or annuities, and divided by zero at certain death
---
 src/actuarialmath/selectlife.py | 36 +++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/actuarialmath/selectlife.py b/src/actuarialmath/selectlife.py
index 705c6a3..cc904e4 100644
--- a/src/actuarialmath/selectlife.py
+++ b/src/actuarialmath/selectlife.py
@@ -185,8 +185,9 @@ class SelectLife(LifeTable):
             for _x, _s in backwards:   # A_x+1 = (A_x - qv) / (p v)
                 if self._isin_sel(_x, _s, 'q') and self._isin_sel(_x, _s, 'A'):
                     q = self._get_sel(_x, _s, 'q')
-                    return ((self._get_sel(_x, _s, 'A') - q * self.interest.v)
-                            / (self.interest.v * (1 - q)))
+                    if q < 1:
+                        return ((self._get_sel(_x, _s, 'A') - q * self.interest.v)
+                                / (self.interest.v * (1 - q)))
 
         def a_x(x: int, s: int) -> float | None:
             """Helper to apply backward and forward recursion for annuity a_x"""
@@ -204,7 +205,9 @@ class SelectLife(LifeTable):
             for _x, _s in backwards:   # a_x+1 = (a_x - 1) / (p v)
                 if self._isin_sel(_x, _s, 'q') and self._isin_sel(_x, _s, 'a'):
                     p = 1 - self._get_sel(_x, _s, 'q')
-                    return (self._get_sel(_x, _s, 'a') - 1)/(p*self.interest.v)
+                    if p > 0:
+                        return ((self._get_sel(_x, _s, 'a') - 1)
+                                / (p * self.interest.v))
 
 
         def l_x(x: int, s: int) -> float | None:
@@ -214,9 +217,14 @@ class SelectLife(LifeTable):
             if self._isin_sel(x, s-1, 'l') and self._isin_sel(x, s-1, 'q'):
                 return self._get_sel(x, s-1, 'l')*(1 - self._get_sel(x, s-1, 'q'))
             if self._isin_sel(x, s+1, 'l') and self._isin_sel(x, s, 'q'):
-                return self._get_sel(x, s+1, 'l') / (1 - self._get_sel(x, s, 'q'))
+                if self._get_sel(x, s, 'q') < 1:
+                    return (self._get_sel(x, s+1, 'l')
+                            / (1 - self._get_sel(x, s, 'q')))
+            if self._isin_sel(x, s+1, 'l') and self._isin_sel(x, s, 'd'):
+                return self._get_sel(x, s+1, 'l') + self._get_sel(x, s, 'd')
             if self._isin_sel(x, s, 'd') and self._isin_sel(x, s, 'q'):
-                return self._get_sel(x, s, 'd') / self._get_sel(x, s, 'q')
+                if self._get_sel(x, s, 'q') > 0:
+                    return self._get_sel(x, s, 'd') / self._get_sel(x, s, 'q')
 
             backwards = [(x, s-1)]  # to move backwards along row
             if s >= self.periods_:     # if in ultimate, can also move up column
@@ -225,6 +233,9 @@ class SelectLife(LifeTable):
                 if self._isin_sel(_x, _s, 'l') and self._isin_sel(_x, _s, 'q'):
                     p = 1 - self._get_sel(_x, _s, 'q')
                     return self._get_sel(_x, _s, 'l') * p
+                if self._isin_sel(_x, _s, 'l') and self._isin_sel(_x, _s, 'd'):
+                    return (self._get_sel(_x, _s, 'l')
+                            - self._get_sel(_x, _s, 'd'))
 
         def d_x(x: int, s: int) -> float | None:
             """Helper to solve for deaths at [x]+s: l_[x]+s - l_[x]+s+1"""
@@ -237,11 +248,19 @@ class SelectLife(LifeTable):
             """Helper to solve for one-year mortality [x]+s: q_[x]+s"""
             if self._isin_sel(x, s, 'q'):
                 return self._get_sel(x, s, 'q')
-            if self._isin_sel(x, s, 'd') and self._isin_sel(x, s, 'l'):
+            if self._isin_sel(x, s, 'd') and self._get_sel(x, s, 'l'):
                 return self._get_sel(x, s, 'd') / self._get_sel(x, s, 'l')
             if self._isin_sel(x, s, 'e') and self._isin_sel(x, s+1, 'e'):
                 return 1 - (self._get_sel(x, s, 'e') 
                             / (1 + self._get_sel(x, s+1, 'e')))
+            if self._isin_sel(x, s, 'a') and self._isin_sel(x, s+1, 'a'):
+                return 1 - ((self._get_sel(x, s, 'a') - 1)
+                            / (self._get_sel(x, s+1, 'a') * self.interest.v))
+            if self._isin_sel(x, s, 'A') and self._isin_sel(x, s+1, 'A'):
+                if self.interest.d > 0:   # else insurance is always 1
+                    A1 = self._get_sel(x, s+1, 'A')
+                    return ((self._get_sel(x, s, 'A') / self.interest.v - A1)
+                            / (1 - A1))
 
         def e_x(x: int, s: int) -> float | None:
             """Helper to solve for expected kurtate lifetime: e_[x]+s"""
@@ -258,8 +277,9 @@ class SelectLife(LifeTable):
                 backwards += [(x-1, s)]
             for _x, _s in backwards:   # e_x+1 = e_x/p_x - 1
                 if self._isin_sel(_x, _s, 'e') and self._isin_sel(_x, _s, 'q'):
-                    return (self._get_sel(_x, _s, 'e') 
-                            / (1 - self._get_sel(_x, _s, 'q'))) - 1
+                    if self._get_sel(_x, _s, 'q') < 1:
+                        return (self._get_sel(_x, _s, 'e') 
+                                / (1 - self._get_sel(_x, _s, 'q'))) - 1
 
         # Discard values derived from earlier inputs
         for tab, x, s in self._filled:
-- 
2.43.0


From 439d9266d4dd4c46ca6210f78b34c17009ab5ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:26 +0000
Subject: [PATCH 54/71] fix: select life values past one-year whole life
 lookups

SelectLife ignored the term, deferral and benefit of insurances and the limit of lifetimes when the table held whole life values, returned an insurance for an annuity, truncated terms at the last age of selection, and failed in the year after the last rates
---
 src/actuarialmath/lifetable.py  |   2 +
 src/actuarialmath/selectlife.py | 102 +++++++++++++++++++++++++-------
 2 files changed, 84 insertions(+), 20 deletions(-)

diff --git a/src/actuarialmath/lifetable.py b/src/actuarialmath/lifetable.py
index 1e322c1..1a52f84 100644
--- a/src/actuarialmath/lifetable.py
+++ b/src/actuarialmath/lifetable.py
@@ -42,6 +42,8 @@ class LifeTable(Reserves):
         
         def _S(x: int, s, t: float) -> float:
             u = math.floor(t)   # u+r_t_x = u_t_x * 
+            if t == u:
+                return self.p_x(x, s=s, t=u)
             return self.p_x(x, s=s, t=u) * self.p_r(x, s=s+u, t=t-u)
         
         def _f(x: int, s, t: float) -> float:
diff --git a/src/actuarialmath/selectlife.py b/src/actuarialmath/selectlife.py
index cc904e4..f48fc8d 100644
--- a/src/actuarialmath/selectlife.py
+++ b/src/actuarialmath/selectlife.py
@@ -32,6 +32,7 @@ class SelectLife(LifeTable):
         super().__init__(udd=udd, **kwargs)
         self._select = {'l':{}, 'd':{}, 'q':{}, 'e':{}, 'A':{}, 'a':{}}
         self._filled = set()   # table cells that were derived, not given
+        self._last = -1        # last age of selection in table
         self.periods_ = periods
         self._verbose = verbose
 
@@ -74,7 +75,7 @@ class SelectLife(LifeTable):
         """
         periods = self.periods_    # infer number of select years, and age range
         minage = self._MINAGE 
-        maxage = self._MAXAGE
+        last = self._last
         
         for lbl, table in [('A',A), ('a',a), ('q',q), ('d',d), ('l',l), ('e',e)]:
             self._select[lbl] = {}
@@ -83,12 +84,13 @@ class SelectLife(LifeTable):
                 for age, row in table.items():
                     periods = max(len(row) - 1, periods)
                     minage = age if minage < 0 else min(minage, age)
-                    maxage = age if maxage < 0 else max(maxage, age)
+                    last = max(last, age)
                     self._select[lbl][age] = {k:v for k,v in enumerate(row)}
 
         self.periods_ = periods    # update number of select years, and age range
         self._MINAGE = minage
-        self._MAXAGE = maxage
+        self._last = last
+        self._set_maxage()
 
         if fill:         # iteratively fill missing table values
             self.fill_table(radix=radix)
@@ -143,8 +145,9 @@ class SelectLife(LifeTable):
 
                     if self._MINAGE < 0 or x < self._MINAGE:  # infer min age
                         self._MINAGE = x
-                    if x > self._MAXAGE:                      # infer max age
-                        self._MAXAGE = x
+                    if x > self._last:                        # infer last age
+                        self._last = x
+        self._set_maxage()
         if fill:
             self.fill_table(radix=radix)
         return self
@@ -158,6 +161,12 @@ class SelectLife(LifeTable):
             and self._select[table][x][s] is not None):
             return self._select[table][x][s]  # in select
 
+    def _set_maxage(self):
+        """Helper to set maximum age, from last ultimate mortality in table"""
+        ages = [x + self.periods_ for x in self._select['q']
+                if self._isin_sel(x, self.periods_, 'q')]
+        self._MAXAGE = max(ages) + 1 if ages else self._last + self.periods_
+
     def _isin_sel(self, x: int, s: int, table: str) -> bool:
         """Helper to check if value not missing"""
         return self._get_sel(x, s, table) is not None
@@ -296,7 +305,7 @@ class SelectLife(LifeTable):
                 for tab, fun in funs.items():   # for each table
                     if tab not in self._select:
                         self._select[tab] = {}
-                    for x in range(self._MINAGE, self._MAXAGE + 1):  # for each age
+                    for x in range(self._MINAGE, self._last + 1):  # for each age
                         if x not in self._select[tab]:
                             self._select[tab][x] = {}
                         for s in range(self.periods_+1): # each year after select
@@ -312,6 +321,7 @@ class SelectLife(LifeTable):
                        for s in self._select['l'][x]):   # arbitrary initial lives
                 self._select['l'][self._MINAGE][0] = radix
                 self._filled.add(('l', self._MINAGE, 0))
+        self._set_maxage()
         return self
 
     def A_x(self, x: int, s: int = 0, moment: int = 1, discrete: bool = True,
@@ -322,11 +332,36 @@ class SelectLife(LifeTable):
           x : age of selection
           s : years after selection
         """
-        assert moment == 1 and discrete, "Must be discrete insurance"
-        if self._isin_sel(x, s, 'A'):
+        if moment == 1 and discrete and not kwargs and self._isin_sel(x, s, 'A'):
             return self._get_sel(x, s, 'A')
         else:
-            return super().A_x(x=x, s=s, moment=1, discrete=True, **kwargs)
+            return super().A_x(x=x, s=s, moment=moment, discrete=discrete,
+                               **kwargs)
+
+    def whole_life_insurance(self, x: int, s: int = 0, moment: int = 1,
+                             b: int = 1, discrete: bool = True) -> float:
+        """Whole life insurance: lookup in select table, if available
+
+        Args:
+          x : age of selection
+          s : years after selection
+          b : amount of benefit
+          moment : compute first or second moment
+          discrete : benefit paid year-end (True) or moment of death (False)
+        """
+        if moment == 1 and discrete:
+            if self._isin_sel(x, s, 'A'):
+                return b * self._get_sel(x, s, 'A')
+            if self._isin_sel(x, s, 'a'):
+                return b * self.insurance_twin(self._get_sel(x, s, 'a'))
+            if s > 0 and (self._isin_sel(x, s-1, 'A')
+                          or self._isin_sel(x, s-1, 'a')):
+                q = self._get_sel(x, s-1, 'q')   # just past table
+                if q is not None and q < 1:
+                    A = self.whole_life_insurance(x, s=s-1) / self.interest.v
+                    return b * (A - q) / (1 - q)
+        return super().whole_life_insurance(x, s=s, moment=moment, b=b,
+                                            discrete=discrete)
 
     def a_x(self, x: int, s: int = 0, moment: int = 1, discrete: bool = True,
             **kwargs) -> float:
@@ -336,11 +371,28 @@ class SelectLife(LifeTable):
           x : age of selection
           s : years after selection
         """
-        assert moment == 1 and discrete, "Must be discrete annuity"
-        if self._isin_sel(x, s, 'a'):
+        assert moment == 1, "Must be first moment of annuity"
+        if discrete and not kwargs and self._isin_sel(x, s, 'a'):
             return self._get_sel(x, s, 'a')
         else:
-            return super().A_x(x=x, s=s, moment=1, discrete=True, **kwargs)
+            return super().a_x(x=x, s=s, discrete=discrete, **kwargs)
+
+    def whole_life_annuity(self, x: int, s: int = 0, b: int = 1,
+                           variance: bool = False,
+                           discrete: bool = True) -> float:
+        """Whole life annuity: lookup in select table, if available
+
+        Args:
+          x : age of selection
+          s : years after selection
+          b : annuity benefit amount
+          variance : return EPV (True) or variance (False)
+          discrete : annuity due (True) or continuous (False)
+        """
+        if discrete and not variance and self._isin_sel(x, s, 'a'):
+            return b * self._get_sel(x, s, 'a')
+        return super().whole_life_annuity(x, s=s, b=b, variance=variance,
+                                          discrete=discrete)
 
     def l_x(self, x: int, s: int = 0) -> float:
         """Returns number of lives aged [x]+s computed from select table
@@ -349,7 +401,13 @@ class SelectLife(LifeTable):
           x : age of selection
           s : years after selection
         """
-        return self._get_sel(x, s, 'l')
+        if self._isin_sel(x, s, 'l'):
+            return self._get_sel(x, s, 'l')
+        lives = self.l_x(x, s=s-1) if s > 0 else None
+        if lives == 0:
+            return 0
+        if lives is not None and self._isin_sel(x, s-1, 'q'):
+            return lives * (1 - self._get_sel(x, s-1, 'q'))   # just past table
 
     def p_x(self, x: int, s: int = 0, t: int = 1) -> float:
         """t_p_[x]+s by chain rule: prod(1_p_[x]+s+y) for y in range(t)
@@ -359,7 +417,11 @@ class SelectLife(LifeTable):
           s : years after selection
           t : survives t years
         """
-        return np.prod([1 - self._get_sel(x, s+y, 'q') for y in range(t)])
+        p = 1. if self.l_x(x, s=s) != 0 else 0.
+        for y in range(t):
+            if p:    # no need to look past certain death
+                p *= 1 - self._get_sel(x, s+y, 'q')
+        return p
 
     def q_x(self, x: int, s: int = 0, t: int = 1, u: int = 0) -> float:
         """t|u_q_[x]+s = [x]+s survives u years, does not survive next t
@@ -370,22 +432,22 @@ class SelectLife(LifeTable):
           u : survives u years, then
           t : dies within next t years
         """
-        return (1. - self.p_x(x, s=s + u, t=t)) * self.p_x(x, s=s, t=u)
+        return self.p_x(x, s=s, t=u) - self.p_x(x, s=s, t=u+t)
 
     def e_x(self, x: int, s: int = 0, t: int = LifeTable.WHOLE,
-            curtate: int = True) -> float:
+            curtate: bool = True, moment: int = 1) -> float:
         """Returns expected life time computed from select table
 
         Args:
           x : age of selection
           s : years after selection
           t : limit of expected future lifetime
+          curtate : whether curtate (True) or complete (False) expectations
+          moment : whether to compute first (1) or second (2) moment
         """
-        assert curtate, "Must be curtate lifetimes"
-        if (self._isin_sel(x, s, 'e')):
+        if t < 0 and curtate and moment == 1 and self._isin_sel(x, s, 'e'):
             return self._get_sel(x, s, 'e')
-        e = sum([self.p_x(x, s=s, t=k+1) for k in range(max(1, t))])
-        return e
+        return super().e_x(x, s=s, t=t, curtate=curtate, moment=moment)
 
     def frame(self, table: str = 'l') -> pd.DataFrame:
         """Returns select and ultimate table values as a DataFrame
-- 
2.43.0


From 86ccc944c4f57fb08cf43f9d6ede1b91cec1384b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:13 +0000
Subject: [PATCH 55/71] fix: deferred mortality of a life table when nobody is
 alive

LifeTable.q_x returned 1 for every deferral once no lives remained, so insurances there exceeded 1
---
 src/actuarialmath/lifetable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/lifetable.py b/src/actuarialmath/lifetable.py
index 1a52f84..18770b8 100644
--- a/src/actuarialmath/lifetable.py
+++ b/src/actuarialmath/lifetable.py
@@ -247,7 +247,7 @@ class LifeTable(Reserves):
         if denom:
             return self.d_x(x, s=s+u, t=t) / denom
         else:
-            return 1     # the only certainty in life
+            return float(u == 0)     # the only certainty in life
 
     def e_x(self, x: int, s: int = 0, t: int = Reserves.WHOLE,
             curtate: bool = True, moment: int = 1) -> float:
-- 
2.43.0


From 725dcf3193a2060f0a48d94d75e304efff356276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:25 +0000
Subject: [PATCH 56/71] fix: lives of a select table whose first row has
 ultimate mortality only

when ultimate rates start before the first age of selection no lives were completed, so pure endowments and every term, deferred and endowment value were those of zero survival
---
 src/actuarialmath/selectlife.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/selectlife.py b/src/actuarialmath/selectlife.py
index f48fc8d..fa0803a 100644
--- a/src/actuarialmath/selectlife.py
+++ b/src/actuarialmath/selectlife.py
@@ -319,8 +319,11 @@ class SelectLife(LifeTable):
                                         print(f"{curr} {tab}(x={x}, s={s}) = {val}")
             if not any(self._isin_sel(x, s, 'l') for x in self._select['l']
                        for s in self._select['l'][x]):   # arbitrary initial lives
-                self._select['l'][self._MINAGE][0] = radix
-                self._filled.add(('l', self._MINAGE, 0))
+                s = next((s for s in range(self.periods_ + 1)
+                          if any(self._isin_sel(self._MINAGE, s, tab)
+                                 for tab in self._select)), 0)
+                self._select['l'][self._MINAGE][s] = radix
+                self._filled.add(('l', self._MINAGE, s))
         self._set_maxage()
         return self
 
-- 
2.43.0


From 44b7cac43e8e985664b8b57ea67f48da810f1527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:46 +0000
Subject: [PATCH 57/71] fix: extra risk of no kind, above certain death, and on
 select tables

ExtraRisk without a risk had no mortality rate, a multiplied rate exceeded 1, columns of a select standard life raised TypeError, and an unknown risk raised NameError
---
 src/actuarialmath/extrarisk.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/extrarisk.py b/src/actuarialmath/extrarisk.py
index ee466b9..86a89ad 100644
--- a/src/actuarialmath/extrarisk.py
+++ b/src/actuarialmath/extrarisk.py
@@ -22,7 +22,7 @@ class ExtraRisk(Actuarial):
                  risk: str = "",
                  extra: float = 0.) -> "ExtraRisk":
         """Specify type and amount of mortality adjustment to apply"""
-        assert not risk or risk in self.risks, "risk must be one of " + str(risks)
+        assert not risk or risk in self.risks, "risk must be one of " + str(self.risks)
         assert extra >= 0, "amount of extra risk must be non-negative"
         self.life = life
         self.extra_ = extra
@@ -44,7 +44,11 @@ class ExtraRisk(Actuarial):
                                                         q=extra['q'])
         """
         f = {'q': self.q_x, 'p': self.p_x}[col[0]]
-        return {x: f(x) for x in range(self.life._MINAGE, self.life._MAXAGE+1)}
+        ages = range(self.life._MINAGE, self.life._MAXAGE+1)
+        if hasattr(self.life, '_isin_sel'):    # only ages of selection in table
+            add = self.extra_ if self.risk_ in ["ADD_AGE"] else 0
+            ages = [x for x in ages if self.life._isin_sel(x + add, 0, 'q')]
+        return {x: f(x) for x in ages}
 
     def p_x(self, x: int, s: int = 0) -> float:
         """Return p_[x]+s after adding or multiplying force of mortality
@@ -80,8 +84,10 @@ class ExtraRisk(Actuarial):
             return 1 - self.p_x(x, s=s)
         if self.risk_ in ["ADD_AGE"]:
             return self.life.q_x(x + self.extra_, s=s)
+        q = self.life.q_x(x, s=s)
         if self.risk_ in ["MULTIPLY_RATE"]:
-            return self.extra_ * self.life.q_x(x, s=s)
+            q = min(1., self.extra_ * q)
+        return q
 
 if __name__ == "__main__":
     from actuarialmath.selectlife import SelectLife
-- 
2.43.0


From 1454b81a3b68a682329dae8d11f1e3160f646604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:07 +0000
Subject: [PATCH 58/71] fix: m-thly insurances and annuities

Mthly whole life, term, deferred and annuity values raised (unknown arguments and attributes), deferral was ignored by A_x, continuous payment used missing methods, endowment variance scaled the benefit twice, annuity variances used the term insurance, and nothing worked at zero interest
---
 src/actuarialmath/mthly.py | 64 +++++++++++++++++++++++++++-----------
 1 file changed, 46 insertions(+), 18 deletions(-)

diff --git a/src/actuarialmath/mthly.py b/src/actuarialmath/mthly.py
index f520300..3e19453 100644
--- a/src/actuarialmath/mthly.py
+++ b/src/actuarialmath/mthly.py
@@ -114,15 +114,14 @@ class Mthly(Actuarial):
           moment : return first or second moment
         """
         assert moment in [1, 2]
-        t = self.max_term(x+s, t)
+        t = self.life.max_term(x+s+u, t)
         if self.m > 0:
             A = sum([(benefit(x+s, k/self.m) * self.v_m(k+1))**moment 
                      * self.q_m(x, s_m=s*self.m, u_m=k) 
-                     for k in range((t+u) * self.m)])
+                     for k in range(u * self.m, (t+u) * self.m)])
         else:
-            Z = lambda t: ((benefit(x+s, t+u) * self.life.v_t(t+u))**moment
-                            * self.life.f(x, s, t+u))
-            A = self.life.integrate(Z, 0, t)
+            A = self.life.A_x(x, s=s, t=t, u=u, benefit=benefit, 
+                              moment=moment, discrete=False)
         return A
 
     def whole_life_insurance(self, x: int, s: int = 0, moment: int = 1, 
@@ -140,7 +139,8 @@ class Mthly(Actuarial):
             A2 = self.whole_life_insurance(x, s=s, moment=2)
             A1 = self.whole_life_insurance(x, s=s)
             return self.life.insurance_variance(A2=A2, A1=A1, b=b)
-        return sum(self.A_x(x, s=s, b=b, moment=moment))
+        A = self.A_x(x, s=s, t=Annuity.WHOLE, moment=moment)
+        return A * b**moment
 
 
     def term_insurance(self, x: int, s: int = 0, t: int = 1, b: int = 1, 
@@ -166,7 +166,7 @@ class Mthly(Actuarial):
         A -= E * self.whole_life_insurance(x, s=s+t, b=b, moment=moment)
         return A
 
-    def deferred_insurance(self, x: int, s: int = 0, n: int = 0, b: int = 1, 
+    def deferred_insurance(self, x: int, s: int = 0, u: int = 0, b: int = 1, 
                            t: int = Annuity.WHOLE, moment: int = 1) -> float:
         """Deferred insurance n|_A_x:t^1 = discounted whole life
 
@@ -178,14 +178,14 @@ class Mthly(Actuarial):
           b : amount of benefit
           moment : return first or second moment
         """
-        if self.life.max_term(x+s, n) < n:
+        if self.life.max_term(x+s, u) < u:
             return 0.
         if moment == self.VARIANCE:
-            A2 = self.deferred_insurance(x, s=s, t=t, n=n, moment=2)
-            A1 = self.deferred_insurance(x, s=s, t=t, n=n)
+            A2 = self.deferred_insurance(x, s=s, t=t, u=u, moment=2)
+            A1 = self.deferred_insurance(x, s=s, t=t, u=u)
             return self.life.insurance_variance(A2=A2, A1=A1, b=b)
-        E = self.E_x(x, s=s, t=n, moment=moment)
-        A = self.term_insurance(x, s=s+n, t=t, b=b, moment=moment)
+        E = self.E_x(x, s=s, t=u, moment=moment)
+        A = self.term_insurance(x, s=s+u, t=t, b=b, moment=moment)
         return E * A   # discount insurance by moment*force of interest
 
     def endowment_insurance(self, x: int, s: int = 0, t: int = 1, b: int = 1, 
@@ -205,7 +205,7 @@ class Mthly(Actuarial):
                                           b=b, moment=2)
             A1 = self.endowment_insurance(x, s=s, t=t, endowment=endowment, 
                                           b=b)
-            return self.life.insurance_variance(A2=A2, A1=A1, b=b)
+            return self.life.insurance_variance(A2=A2, A1=A1)
         E = self.E_x(x, s=s, t=t, moment=moment)
         A = self.term_insurance(x, s=s, t=t, b=b, moment=moment)
         return A + E * (b if endowment < 0 else endowment)**moment
@@ -250,6 +250,29 @@ class Mthly(Actuarial):
         den = self.life.interest.mthly(m=self.m, d=self.life.interest.d)
         return num / den**2
 
+    def years_paid(self, x: int, s: int = 0, t: int = Annuity.WHOLE,
+                   variance: bool = False) -> float:
+        """Number of years paid by annuity (its value if interest rate is zero)
+
+        Args:
+          x : year of selection
+          s : years after selection
+          t : term of annuity in years
+          variance : return first moment (False) or variance (True)
+        """
+        moment = Annuity.VARIANCE if variance else 1
+        if self.m == 0:
+            return self.life.e_x(x, s=s, t=t, curtate=False, moment=moment)
+        t = self.life.max_term(x+s, t)
+        q = [self.q_m(x, s_m=s*self.m, u_m=k) for k in range(t * self.m)]
+        years = [(k + 1) / self.m for k in range(t * self.m)]
+        p = self.life.p_x(x, s=s, t=t)
+        mean = sum([y * q for y, q in zip(years, q)]) + t * p
+        if variance:
+            return (sum([(y - mean)**2 * q for y, q in zip(years, q)])
+                    + (t - mean)**2 * p)
+        return mean
+
     def whole_life_annuity(self, x: int, s: int = 0, b: int = 1, 
                            variance: bool = False) -> float:
         """Whole life m'thly annuity: a_x
@@ -260,11 +283,14 @@ class Mthly(Actuarial):
           b : amount of benefit
           variance : return first moment (False) or variance (True)
         """
+        if self.life.interest.d == 0:
+            years = self.years_paid(x, s=s, variance=variance)
+            return years * (b**2 if variance else b)
         if variance:  # short cut for variance of whole life
             A1 = self.whole_life_insurance(x, s=s, moment=1)
             A2 = self.whole_life_insurance(x, s=s, moment=2)
             return self.annuity_variance(A2=A2, A1=A1, b=b)
-        return b * (1 - self.whole_life_insurance(x, s=s)) / self.d
+        return b * self.annuity_twin(self.whole_life_insurance(x, s=s))
             
     def temporary_annuity(self, x: int, s: int = 0, t: int = Annuity.WHOLE, 
                           b: int = 1, variance: bool = False) -> float:
@@ -277,14 +303,16 @@ class Mthly(Actuarial):
           b : amount of benefit
           variance : return first moment (False) or variance (True)
         """
+        if variance and self.life.interest.d == 0:
+            return b**2 * self.years_paid(x, s=s, t=t, variance=True)
         if variance:  # short cut for variance of temporary life annuity
-            A1 = self.term_insurance(x, s=s, t=t)
-            A2 = self.term_insurance(x, s=s, t=t, moment=2)
+            A1 = self.endowment_insurance(x, s=s, t=t)
+            A2 = self.endowment_insurance(x, s=s, t=t, moment=2)
             return self.annuity_variance(A2=A2, A1=A1, b=b)
 
         # difference of whole life on (x) and deferred whole life on (x+t)
         a = self.whole_life_annuity(x, s=s, b=b)
-        if t < 0 or self.max_term(x+s, t) < t:
+        if t < 0 or self.life.max_term(x+s, t) < t:
             return a
         a_t = self.whole_life_annuity(x, s=s+t, b=b)
         return a - (a_t * self.E_x(x, s=s, t=t))
@@ -318,7 +346,7 @@ class Mthly(Actuarial):
         if self.m > 0:
             return (a - ((1 - self.E_x(x, s=s, t=t)) / self.m)) * b
         else:
-            return a
+            return a * b
 
 if __name__ == "__main__":
     from actuarialmath.lifetable import LifeTable
-- 
2.43.0


From e5bd5fd4494c8d4552a3814424ea4bf293c73864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:04 +0000
Subject: [PATCH 59/71] fix: UDD-adjusted insurances and annuities

benefit ignored by whole life, second moments and annuity variances raised (missing attributes), deferred annuities raised NameError and ignored the end of their term, factors fixed when constructed and failing at zero interest, and term insurances continuous where that is the life's default
---
 src/actuarialmath/udd.py | 97 +++++++++++++++++++++++++++++-----------
 1 file changed, 72 insertions(+), 25 deletions(-)

diff --git a/src/actuarialmath/udd.py b/src/actuarialmath/udd.py
index 4783519..437930d 100644
--- a/src/actuarialmath/udd.py
+++ b/src/actuarialmath/udd.py
@@ -17,8 +17,27 @@ class UDD(Mthly):
 
     def __init__(self, m: int, life: Annuity, **kwargs):
         super().__init__(m=m, life=life, **kwargs)
-        self.alpha_m = self.alpha(m=m, i=self.life.interest.i)
-        self.beta_m = self.beta(m=m, i=self.life.interest.i)
+
+    @property
+    def alpha_m(self) -> float:
+        """UDD interest rate alpha function value at current interest rate"""
+        return self.alpha(m=self.m, i=self.life.interest.i)
+
+    @property
+    def beta_m(self) -> float:
+        """UDD interest rate beta function value at current interest rate"""
+        return self.beta(m=self.m, i=self.life.interest.i)
+
+    def i_ratio(self, moment: int = 1) -> float:
+        """Ratio i/i(m) of annual to m'thly interest rates
+
+        Args:
+          moment : at force of interest (1) or double the force of interest (2)
+        """
+        i = self.life.interest.i
+        if moment == 2:
+            i = self.life.interest.double_force(i=i)
+        return i / self.life.interest.mthly(m=self.m, i=i) if i else 1.
 
     @staticmethod
     def alpha(m: int, i: float) -> float:
@@ -28,6 +47,8 @@ class UDD(Mthly):
           m : number of payments per year
           i : annual interest rate
         """
+        if i == 0:
+            return 1.
         d = i / (1 + i)
         i_m = Interest.mthly(m=m, i=i)
         i_d = Interest.mthly(m=m, d=d)
@@ -41,6 +62,8 @@ class UDD(Mthly):
           m : number of payments per year
           i : annual interest rate
         """
+        if i == 0:
+            return (m - 1) / (2 * m) if m else 0.5
         d = i / (1 + i)
         i_m = Interest.mthly(m=m, i=i)
         i_d = Interest.mthly(m=m, d=d)
@@ -63,12 +86,9 @@ class UDD(Mthly):
         if moment == Annuity.VARIANCE:
             return ((self.whole_life_insurance(x, s=s, moment=2) -
                      self.whole_life_insurance(x, s=s)**2) * b**2)
-        A = self.life.whole_life_insurance(x, s=s, moment=moment)
-        i = self.life.interest.i
-        if moment == 2:
-            i = self.interest.double_force(i)
-        i_m = self.life.interest.mthly(m=self.m, i=i)        
-        return A * i / i_m
+        A = self.life.whole_life_insurance(x, s=s, moment=moment,
+                                           discrete=True)
+        return A * self.i_ratio(moment=moment) * b**moment
 
     def endowment_insurance(self, x: int, s: int = 0, t: int = 1, b: int = 1, 
                             endowment: int = -1, moment: int = 1) -> float:
@@ -111,12 +131,30 @@ class UDD(Mthly):
         if moment == Annuity.VARIANCE:
             return (self.term_insurance(x, s=s, t=t, b=b, moment=2) -
                     self.term_insurance(x, s=s, t=t, b=b)**2)
-        A = self.life.term_insurance(x, s=s, t=t, b=b, moment=moment)
-        i = self.life.interest.i
-        if moment == 2:
-            i = self.interest.double_force(i)
-        i_m = self.life.interest.mthly(m=self.m, i=i)        
-        return A * (i / i_m)
+        A = self.life.term_insurance(x, s=s, t=t, b=b, moment=moment,
+                                     discrete=True)
+        return A * self.i_ratio(moment=moment)
+
+    def years_paid(self, x: int, s: int = 0, t: int = Annuity.WHOLE,
+                   variance: bool = False) -> float:
+        """Number of years paid by annuity (its value if interest rate is zero)
+
+        Args:
+          x : year of selection
+          s : years after selection
+          t : term of annuity in years
+          variance : return first moment (False) or variance (True)
+        """
+        h = 1 / self.m if self.m else 0.     # in year of death: (1/m, ..., 1)
+        t = self.life.max_term(x+s, t)
+        K = self.life.e_x(x, s=s, t=t, curtate=True)
+        p = self.life.p_x(x, s=s, t=t)
+        mean = K + (1 - p) * (1 + h) / 2
+        if variance:
+            K2 = self.life.e_x(x, s=s, t=t, curtate=True, moment=2)
+            return (K2 + (K - t*p) * (1 + h) + (1 - p) * (1 + h) * (2 + h) / 6
+                    - mean**2)
+        return mean
 
     def whole_life_annuity(self, x: int, s: int = 0, b: int = 1, 
                            variance: bool = False) -> float:
@@ -131,10 +169,12 @@ class UDD(Mthly):
         Examples:
           >>> UDD(m=12, life=SULT(udd=True)).whole_life_annuity(x)
         """
+        if variance and self.life.interest.d == 0:
+            return b**2 * self.years_paid(x, s=s, variance=True)
         if variance:  # short cut for variance of whole life
             A1 = self.whole_life_insurance(x, s=s, moment=1)
             A2 = self.whole_life_insurance(x, s=s, moment=2)
-            return (b**2 * (A2 - A1**2) / self.d**2)
+            return self.annuity_variance(A2=A2, A1=A1, b=b)
         a = self.life.whole_life_annuity(x, s=s)
         return b * (a * self.alpha_m - self.beta_m)
             
@@ -152,10 +192,12 @@ class UDD(Mthly):
         Examples:
           >>> UDD(m=12, life=SULT(udd=True)).temporary_annuity(45, t=20)
         """
+        if variance and self.life.interest.d == 0:
+            return b**2 * self.years_paid(x, s=s, t=t, variance=True)
         if variance:  # short cut for variance of temporary life annuity
-            A1 = self.temporary_insurance(x, s=s, t=t)
-            A2 = self.temporary_insurance(x, s=s, t=t, moment=2)
-            return (b**2 * (A2 - A1**2) / self.d**2)
+            A1 = self.endowment_insurance(x, s=s, t=t)
+            A2 = self.endowment_insurance(x, s=s, t=t, moment=2)
+            return self.annuity_variance(A2=A2, A1=A1, b=b)
 
         # difference of whole life on (x) and deferred whole life on (x+t)
         if t < 0:
@@ -175,15 +217,19 @@ class UDD(Mthly):
           t : term of annuity in years
           b : amount of benefit
         """
-        if self.max_term(x+s, n) < n:
+        if self.E_x(x, s=s, t=u) == 0:
             return 0.
-        if variance:  # short cut for variance of temporary life annuity
-            A1 = self.endowment_insurance(x, s=s, t=t)
-            A2 = self.endowment_insurance(x, s=s, t=t, moment=2)
-            return (b**2 * (A2 - A1**2) / self.d**2)
+        if variance:  # from moments of temporary life annuity
+            a = self.temporary_annuity(x, s=s+u, t=t)
+            a2 = self.temporary_annuity(x, s=s+u, t=t, variance=True) + a**2
+            return b**2 * (self.E_x(x, s=s, t=u, moment=2) * a2
+                           - (self.E_x(x, s=s, t=u) * a)**2)
 
         a = self.life.deferred_annuity(x, s=s, u=u, t=t)
-        return (a * self.alpha_m - self.beta_m * self.E_x(x, s=s, t=u)) * b
+        E = self.E_x(x, s=s, t=u)
+        if t >= 0:
+            E -= E * self.E_x(x, s=s+u, t=t)
+        return (a * self.alpha_m - self.beta_m * E) * b
 
     @staticmethod
     def interest_frame(i: float = 0.05):
@@ -200,7 +246,8 @@ class UDD(Mthly):
         for m in out.index:
             i_m = Interest.mthly(m=m, i=interest.i)
             d_m = Interest.mthly(m=m, d=interest.d)
-            out.loc[m] = [i_m, d_m, interest.i/i_m, interest.d/d_m, 
+            out.loc[m] = [i_m, d_m, interest.i/i_m if i_m else 1., 
+                          interest.d/d_m if d_m else 1.,
                           UDD.alpha(m=m, i=interest.i), 
                           UDD.beta(m=m, i=interest.i)]
         return out.round(5)
-- 
2.43.0


From fcd9bedad82af678ce0095201b58b24de2cb8b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:11 +0000
Subject: [PATCH 60/71] fix: Woolhouse corrections: zero mu, continuous
 payment, zero survival, force at selection

a given force of zero was ignored; m=0 divided by zero; terms beyond certain death raised; approximated force at duration zero asked for negative duration
---
 src/actuarialmath/woolhouse.py | 35 ++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/actuarialmath/woolhouse.py b/src/actuarialmath/woolhouse.py
index 4a9c17a..ac8a1b5 100644
--- a/src/actuarialmath/woolhouse.py
+++ b/src/actuarialmath/woolhouse.py
@@ -31,14 +31,16 @@ class Woolhouse(Mthly):
           s : years after selection
         """
         if self.approximate_mu is True:       # approximate mu from integer ages
-            return -.5 * sum([math.log(self.life.p_x(x, s=s+t)) for t in [0,-1]])
+            before = (self.life.p_x(x, s=s-1) if s > 0    # year to age x+s
+                      else self.life.p_x(x-1))
+            return -.5 * (math.log(self.life.p_x(x, s=s)) + math.log(before))
         elif self.approximate_mu is False:
             return self.life.mu_x(x, s=s)     # use exact mu from survival model
         else:                                 # apply custom function for mu
             return self.approximate_mu(x, s)
 
     def whole_life_insurance(self, x: int, s: int = 0, b: int = 1,
-                             mu: float | None = 0.) -> float:
+                             mu: float | None = None) -> float:
         """1/m'thly Woolhouse whole life insurance: A_x
  
         Args:
@@ -50,7 +52,7 @@ class Woolhouse(Mthly):
         return b * self.insurance_twin(self.whole_life_annuity(x, s=s, mu=mu))
 
     def term_insurance(self, x: int, s: int = 0, t: int = Annuity.WHOLE,
-                       b: int = 1, mu: float | None = 0., 
+                       b: int = 1, mu: float | None = None, 
                        mu1: float | None = None) -> float:
         """1/m'thly Woolhouse term insurance: A_x:t
 
@@ -63,9 +65,9 @@ class Woolhouse(Mthly):
           mu1 : value of mu at age x+s+t
         """
         A = self.whole_life_insurance(x, s=s, b=b, mu=mu)
-        if t < 0 or self.life.max_term(x+s, t) < t:
-            return A
         E = self.E_x(x, s=s, t=t)
+        if E == 0:
+            return A
         return A - E * self.whole_life_insurance(x, s=s+t, b=b, mu=mu1)
 
     def endowment_insurance(self, x: int, s: int = 0, t: int = Annuity.WHOLE,
@@ -102,9 +104,9 @@ class Woolhouse(Mthly):
           mu : value of mu at age x+s+u
           mu1 : value of mu at age x+s+u+t
         """
-        if self.life.max_term(x+s, u) < u:
-            return 0.
         E = self.E_x(x, s=s, t=u)
+        if E == 0:
+            return 0.
         return E * self.term_insurance(x, s=s+u, t=t, b=b, mu=mu, mu1=mu1)
 
     def whole_life_annuity(self, x: int, s: int = 0, b: int = 1,
@@ -121,11 +123,12 @@ class Woolhouse(Mthly):
           >>> life = Recursion().set_interest(i=0.05).set_a(3.4611, x=0)
           >>> Woolhouse(m=4, life=life).whole_life_annuity(x=0)
         """
+        h = 1 / self.m if self.m > 0 else 0.      # payment interval in years
         a = (self.life.whole_life_annuity(x, s=s, discrete=True) -
-             (self.m - 1)/(2 * self.m))
+             (1 - h)/2)
         if self.three_term:
-            mu = mu or self.mu_x(x, s)
-            a -= (mu + self.life.interest.delta)*(self.m**2 - 1)/(12 * self.m**2)
+            mu = self.mu_x(x, s) if mu is None else mu
+            a -= (mu + self.life.interest.delta)*(1 - h**2)/12
         return a * b
 
     def temporary_annuity(self, x: int, s: int = 0, t: int = Annuity.WHOLE, 
@@ -156,10 +159,14 @@ class Woolhouse(Mthly):
           mu : value of mu at age x+s+u
           mu1 : value of mu at age x+s+u+t
         """
-        a_x = self.whole_life_annuity(x, s=s+u, mu=mu)
-        a_xt = self.whole_life_annuity(x, s=s+t+u, mu=mu1) if t > 0 else 0
-        a = self.E_x(x, s=s, t=u) * (a_x - self.E_x(x, s=s+u, t=t) * a_xt)
-        return a * b
+        E_u = self.E_x(x, s=s, t=u)
+        if E_u == 0:
+            return 0.
+        a = self.whole_life_annuity(x, s=s+u, mu=mu)
+        E_t = self.E_x(x, s=s+u, t=t)
+        if E_t > 0:
+            a -= E_t * self.whole_life_annuity(x, s=s+u+t, mu=mu1)
+        return E_u * a * b
 
 if __name__ == "__main__":
     from actuarialmath.sult import SULT
-- 
2.43.0


From dc29649dd7378f1c54048fec9836a3e138c6a9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:04 +0000
Subject: [PATCH 61/71] fix: recursion rules for varying, deferred, endowment
 and moment values; no division by zero survival

decreasing/increasing insurance rules used the wrong term, insurance or benefit; pure endowment second moments dropped the term; moments and benefits mis-scaled stored facts and twins; deferred insurance recursion undefined name; variance answered by first-moment recursion; expected lifetime search took minutes
---
 src/actuarialmath/recursion.py | 150 ++++++++++++++++++---------------
 1 file changed, 82 insertions(+), 68 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 7c8dc6a..cb39f08 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -3,6 +3,7 @@
 MIT License. Copyright 2022-2023 Terence Lim
 """
 from typing import Tuple, Any
+import math
 import matplotlib.pyplot as plt
 from actuarialmath import Reserves
 from IPython.display import display_latex, display_pretty
@@ -69,7 +70,7 @@ class _Blog:
             if _Blog._notebook and _Blog._latex:
                 display_latex(_str, raw=True)
             elif _Blog._notebook:
-                display_pretty(_self, raw=True)
+                display_pretty(_str, raw=True)
             else:
                 print(_str, end=end)
             
@@ -450,7 +451,7 @@ class Recursion(Reserves):
             return found
         if t == 0:
             return 0
-        if t < 0:
+        if t < 0 and u == 0:
             return 1
         if u > 0:
             pu = self._p_x(x, s=s, t=u, depth=depth-1) #depth-1)
@@ -548,7 +549,7 @@ class Recursion(Reserves):
         # (2a) inverse chain rule: p_x(t) = p_x-1(t+1) / p_x-1 
         found = self._p_x(x, s=s-1, t=t+1, depth=depth-1)
         p = self._p_x(x, s=s-1, t=1, depth=depth-1)
-        if found is not None and p is not None:
+        if found is not None and p:
             self.blog(self.pprint.p(x=x, s=s, t=t), '=',
                       self.pprint.p(x=x, s=s-1, t=t+1), '/',
                       self.pprint.p(x=x, s=s-1, t=1),
@@ -560,7 +561,7 @@ class Recursion(Reserves):
         # (2b) inverse chain rule: p_x(t) = p_x(t+1) / p_x+t 
         found = self._p_x(x, s=s, t=t+1, depth=depth-1)
         p = self._p_x(x, s=s+t, t=1, depth=depth-1)
-        if found is not None and p is not None:
+        if found is not None and p:
             self.blog(self.pprint.p(x=x, s=s, t=t), '=',
                       self.pprint.p(x=x, s=s, t=t+1), '/',
                       self.pprint.p(x=x, s=s+t, t=1),
@@ -609,7 +610,7 @@ class Recursion(Reserves):
                 # (4a) annuity recursion: p_x = [a_x(t) - 1] / [v a_x+1(t-1)
                 a = self._a_x(x, s=s, t=_t, depth=depth-1)
                 a1 = self._a_x(x, s=s+1, t=self.add_term(_t, -1), depth=depth-1)
-                if a is not None and a1 is not None:
+                if a is not None and a1:
                     self.blog(self.pprint.p(x=x, s=s, t=1), '= [',
                               self.pprint.a(x=x, s=s, t=_t), '- 1 ] / [ v *',
                               self.pprint.a(x=x, s=s+1, t=_t-1), ']',
@@ -624,7 +625,7 @@ class Recursion(Reserves):
                     A = self._A_x(x, s=s, t=_t, endowment=endowment, depth=depth-1)
                     A1 = self._A_x(x, s=s+1, t=self.add_term(_t, -1), endowment=endowment,
                                    depth=depth-1)
-                    if A is not None and A1 is not None:
+                    if A is not None and A1 is not None and not self.isclose(A1, 1):
                         self.blog(self.pprint.p(x=x, s=s, t=1), '= [ v -',
                                   self.pprint.A(x=x, s=s, t=_t, endowment=endowment),
                                   '] / [v * [ 1 -',
@@ -690,12 +691,14 @@ class Recursion(Reserves):
         found = self._get_e(x, s=s, t=t, curtate=curtate, moment=moment)
         if found is not None:
             return found
+        if t == 0:
+            return 0
         if depth <= 0:
             return None
         if moment == 1:
             if t > 0:  
                 p_t = self._p_x(x, s=s, t=t)
-                if t == 1 and curtate:
+                if t == 1 and curtate and p_t is not None:
                     self.blog(self.pprint.e(x=x, s=s, t=1, curtate=curtate), '=',
                               self.pprint.p(x=x, s=s, t=1),
                               #f"e_{x+s}:1",
@@ -703,12 +706,12 @@ class Recursion(Reserves):
                     return p_t   # (1) if curtate and t=1: e_x:1 = p_x 
                 else:
                     self.blog.pop(depth=depth)
-                if t > 1:
+                if p_t is not None:
                     e = self._e_x(x, s=s, t=Reserves.WHOLE, curtate=curtate, 
                                   moment=1, depth=depth-1)
                     e_t = self._e_x(x, s=s+t, t=Reserves.WHOLE, curtate=curtate,
                                     moment=1, depth=depth-1)
-                    if e is not None and e_t is not None and p_t is not None:
+                    if e is not None and e_t is not None:
                         self.blog(self.pprint.e(x=x, s=s, t=t, curtate=curtate), '=',
                                   self.pprint.e(x=x, s=s, curtate=curtate), '-',
                                   self.pprint.p(x=x, s=s), '*',
@@ -720,12 +723,14 @@ class Recursion(Reserves):
                         self.blog.pop(depth=depth)
 
             for u in range(1, 50):
-                e = self._e_x(x, s=s-u, t=self.add_term(t, u), curtate=curtate,
-                              moment=1, depth=depth-1)
-                e1 = self._e_x(x, s=s-u, t=u, curtate=curtate, moment=1,
-                               depth=depth-1)
                 p = self._p_x(x, s=s-u, t=u)
-                if e is not None and e1 is not None and p is not None:
+                e = e1 = None
+                if p:    # look for lifetimes only if survival is known
+                    e = self._e_x(x, s=s-u, t=self.add_term(t, u),
+                                  curtate=curtate, moment=1, depth=depth-1)
+                    e1 = self._e_x(x, s=s-u, t=u, curtate=curtate, moment=1,
+                                   depth=depth-1)
+                if e is not None and e1 is not None:
                     #_t = "" if t < 0 else ":" + str(t)
                     #msg = f"forward e_{x+s}{_t} = e_{x+s}:1 + p_{x+s} e_{x+s+1}"
                     self.blog(self.pprint.e(x=x, s=s, t=t, curtate=curtate), '= [',
@@ -738,11 +743,14 @@ class Recursion(Reserves):
                 else:
                     self.blog.pop(depth=depth)
 
-                e = self._e_x(x, s=s, t=u, curtate=curtate, moment=1, depth=depth-1)
-                e_t = self._e_x(x, s=s+u, t=self.add_term(t, -u), curtate=curtate,
-                                moment=1, depth=depth-1)
                 p = self._p_x(x, s=s, t=u)
-                if e is not None and e_t is not None and p is not None:
+                e = e_t = None
+                if p is not None:
+                    e = self._e_x(x, s=s, t=u, curtate=curtate, moment=1,
+                                  depth=depth-1)
+                    e_t = self._e_x(x, s=s+u, t=self.add_term(t, -u),
+                                    curtate=curtate, moment=1, depth=depth-1)
+                if e is not None and e_t is not None:
                     self.blog(self.pprint.e(x=x, s=s, t=t, curtate=curtate), '=',
                               self.pprint.e(x=x ,s=s, t=u, curtate=curtate), '+',
                               self.pprint.p(x=x, s=s, t=u), '*',
@@ -793,7 +801,7 @@ class Recursion(Reserves):
         key = self._db_key('E', x=x+s, t=t, moment=moment)
         val = self.db.get(key, None)
         if val is not None:
-            return val * endowment   # stored with benefit=1
+            return val * endowment**abs(moment)   # stored with benefit=1
 
     def set_E(self, val: float, x: int, s: int = 0, t: int = 1, 
               endowment: int = 1, moment: int = 1) -> "Recursion":
@@ -807,7 +815,8 @@ class Recursion(Reserves):
           endowment : endowment value
           moment : first or second moment of pure endowment
         """
-        val /= endowment   # store with benefit=1
+        if val is not None:
+            val /= endowment**abs(moment)   # store with benefit=1
         return self._db_put(self._db_key('E', x=x+s, t=t, moment=moment), val)
 
     def _E_x(self, x: int, s: int = 0, t: int = 1, endowment: int = 1, 
@@ -821,13 +830,13 @@ class Recursion(Reserves):
         if t == 0:    # t = 0 => EPV(0) = endowment**moment
             return endowment**moment
         if moment > 1:
-            E = self._E_x(x, s=s, endowment=endowment, depth=depth)
-            if E:  # (1) Shortcut: 2E_x = v E_x
+            E = self._E_x(x, s=s, t=t, depth=depth)
+            if E is not None:  # (1) Shortcut: 2E_x = v E_x
                 self.blog(self.pprint.E(x=x, s=s, t=t, moment=moment),
                           f"= " + self.pprint.m(moment*t, v="v"), '*',
                           self.pprint.E(x=x, s=s, t=t),
                           depth=depth, rule='moments of pure endowment')
-                return E * self.interest.v**(moment-1)
+                return E * self.interest.v_t(t)**(moment-1) * endowment**moment
             else:
                 self.blog.pop(depth=depth)
 
@@ -932,7 +941,8 @@ class Recursion(Reserves):
           b : benefit after year 1
           discrete : discrete or continuous increasing insurance
         """
-        val /= b   # store with benefit=1
+        if val is not None:
+            val /= b   # store with benefit=1
         return self._db_put(self._db_key('IA', x=x+s, t=t, 
                                          discrete=discrete), val)
 
@@ -962,7 +972,7 @@ class Recursion(Reserves):
                 self.blog.pop(depth=depth)
 
         if discrete:
-            A = self._A_x(x=x, s=s, t=1, b=b, discrete=discrete, depth=depth-1)
+            A = self._A_x(x=x, s=s, t=t, b=b, discrete=discrete, depth=depth-1)
             IA = self._IA_x(x=x, s=s+1, t=self.add_term(t, -1), b=b, depth=depth-1)
             p = self._p_x(x, s=s, t=1, depth=depth-1)   # FIXED t=1
             if A is not None and IA is not None and p is not None:
@@ -1030,25 +1040,26 @@ class Recursion(Reserves):
           b : benefit after year 1
           discrete : discrete or continuous decreasing insurance
         """
-        val /= b     # store with benefit=1
+        if val is not None:
+            val /= b     # store with benefit=1
         return self._db_put(self._db_key('DA', x=x+s, t=t, 
                                          discrete=discrete), val)
 
     def _DA_x(self, x: int, s: int = 0, t: int = Reserves.WHOLE, b: int = 1,
               discrete: bool = True, depth: int = 1) -> float | None:
         """Helper to compute from recursive and alternate formulas"""
-        found = self._get_DA(x=x, s=s, t=t, discrete=discrete)
+        found = self._get_DA(x=x, s=s, t=t, b=b, discrete=discrete)
         if found is not None:
             return found
         if t == 0:
             return 0
         if depth <= 0:
             return None
-        assert t < 0,  "Decreasing insurance must be term insurance"
+        assert t > 0,  "Decreasing insurance must be term insurance"
     
         A = self._A_x(x=x, s=s, t=t, b=b, discrete=discrete, depth=depth-1)
         n = t + int(discrete)
-        IA = self._DA_x(x=x, s=s, t=t, b=b, discrete=discrete, depth=depth-1)
+        IA = self._IA_x(x=x, s=s, t=t, b=b, discrete=discrete, depth=depth-1)
         if A is not None and IA is not None:
             self.blog(self.pprint.DA(x=x, s=s, t=t), f'= {n}',
                       self.pprint.A(x=x, s=s, t=t), '-',
@@ -1059,7 +1070,7 @@ class Recursion(Reserves):
             self.blog.pop(depth=depth)
 
         if discrete:
-            DA = self._IA_x(x=x, s=s+1, t=self.add_term(t, -1), b=b, depth=depth-1)
+            DA = self._DA_x(x=x, s=s+1, t=self.add_term(t, -1), b=b, depth=depth-1)
             p = self._p_x(x, s=s, depth=depth-1)
             if DA is not None and p is not None:
                 #f"backward DA_{x+s}:{t}: v(t q_{x+s} + p_{x+s} DA_{x+s+1}:{t-1})"
@@ -1068,7 +1079,7 @@ class Recursion(Reserves):
                           self.pprint.q(x=x, s=s), '+',
                           self.pprint.p(x=x, s=s), '*', self.pprint.DA(x=x, s=s+1, t=t-1),
                           depth=depth, rule='backward recursion')
-                return self.interest.v * ((1-p)*t + p*DA)  # (2) backward recursion
+                return self.interest.v * ((1-p)*t*b + p*DA)  # (2) backward recursion
             else:
                 self.blog.pop(depth=depth)
 
@@ -1117,10 +1128,10 @@ class Recursion(Reserves):
         if endowment < 0:   # endowment insurance with equal benefits
             endowment = b
         if t == 0:          # terminal value of insurance
-            return endowment
+            return endowment**moment
         if b == 0:          # normalize insurance factor by benefit amount
             scale = endowment
-            endowment = 1
+            endowment = math.inf   # pure endowment
         else:
             scale = b
             endowment = 1 if b == endowment else endowment / b
@@ -1128,7 +1139,7 @@ class Recursion(Reserves):
                            endowment=endowment, discrete=discrete)
         val = self.db.get(key, None)
         if val is not None:
-            return val * scale   # stored with benefit=1
+            return val * scale**abs(moment)   # stored with benefit=1
 
 
     def set_A(self, val: float, x: int, s: int = 0, t: int = Reserves.WHOLE,
@@ -1151,14 +1162,14 @@ class Recursion(Reserves):
         """
         if endowment < 0:      # endowment insurance with equal death and endow
             endowment = b
-        if endowment == 0:     # normalize insurance factor by benefit amount
-            val /= b
-        elif b == 0:
-            val /= endowment   # store with benefit=1
+        if b == 0:             # normalize insurance factor by benefit amount
+            scale = endowment
+            endowment = math.inf   # pure endowment
         else:
-            if b != 1:
-                val /= b
-                endowment /= b
+            scale = b
+            endowment = 1 if b == endowment else endowment / b
+        if val is not None:
+            val /= scale**abs(moment)   # store with benefit=1
         return self._db_put(self._db_key('A', x=x+s, t=t, u=u,
                                          moment=moment, endowment=endowment, 
                                          discrete=discrete), val)
@@ -1168,7 +1179,10 @@ class Recursion(Reserves):
              moment: int = 1, depth: int = 1) -> float | None:
         """Helper to compute from recursive and alternate formulas"""
 
-        if endowment == b and t == 1 and discrete: # 1-year endow ins
+        if b == 0 and endowment == 0:
+            return 0
+        if endowment == b and t == 1 and u == 0 and moment > 0 and discrete:
+            # 1-year endow ins
 #            self.blog(self.pprint.A(x=x, s=s, t=1, endowment=b, b=b, moment=moment),
 #                      '=', self.pprint.m(moment, v="v"),
 #                      depth=depth, rule='one-year endowment insurance')
@@ -1177,14 +1191,14 @@ class Recursion(Reserves):
                             moment=moment, endowment=endowment)
         if found is not None:
             return found
-        if depth <= 0:
+        if depth <= 0 or moment < 1:   # no recursions for variance
             return None
 
-        if discrete and u > 0:  # (1) deferred insurance  
+        if u > 0:  # (1) deferred insurance  
             A = self._A_x(x=x, s=s+1, t=t, b=b, u=u-1, discrete=discrete, 
                               moment=moment, endowment=endowment, depth=depth-1)
             E = self._E_x(x, s=s, t=1, moment=moment, depth=depth-1)
-            if A is not None and p is not None:  # (1a) backward E_x * A
+            if A is not None and E is not None:  # (1a) backward E_x * A
                 #msg = f"backward deferred {u}_A_{x+s}: {u}_E * A_{x+s+u}"
                 self.blog(self.pprint.A(x=x, s=s, t=t, u=u, b=b, moment=moment), '=',
                           self.pprint.E(x=x, s=s, moment=moment), '*',
@@ -1197,7 +1211,7 @@ class Recursion(Reserves):
             A = self._A_x(x, s=s-1, t=t, b=b, u=u+1, discrete=discrete, 
                           moment=moment, endowment=endowment, depth=depth-1)
             E = self._E_x(x, s=s-1, t=1, moment=moment, depth=depth-1)
-            if A is not None and E is not None: # (1b) forward recursion
+            if A is not None and E: # (1b) forward recursion
                 msg = f"forward deferred {u}_A_{x+s}: {u+1}A_{x+s-1} / E"
                 self.blog(self.pprint.A(x=x, s=s, t=t, u=u, b=b, moment=moment), '=',
                           self.pprint.A(x=x, s=s-1, t=t, u=u+1, moment=moment), '/',
@@ -1258,7 +1272,7 @@ class Recursion(Reserves):
                           self.pprint.m(moment, v="v"), "*",
                           self.pprint.q(x=x, s=s), f"*",
                           self.pprint.m(moment, v="v"), "+",
-                          self.pprint.p(x=x, s=s), f"*".
+                          self.pprint.p(x=x, s=s), "*",
                           self.pprint.m(moment, endow=endowment),
                           #f"discrete 1-year insurance: A_{x+s}:1 = qv",
                           depth=depth, rule='one-year discrete insurance')
@@ -1332,7 +1346,7 @@ class Recursion(Reserves):
                       discrete=discrete, moment=moment, 
                       endowment=endowment, depth=depth-1)
         p = self._p_x(x, s=s-1, t=1, depth=depth-1)
-        if A is not None and p is not None:  # (5) forward recursion
+        if A is not None and p:  # (5) forward recursion
             self.blog(self.pprint.A(x=x, s=s, t=t, b=b, moment=moment), '= [',
                       self.pprint.A(x=x, s=s-1, t=t+1, b=b, moment=moment),
                       f"/", self.pprint.m(moment, v="v"), "-",
@@ -1367,14 +1381,14 @@ class Recursion(Reserves):
             self.blog.display()
             return found
         if moment == 1 and self.interest.i > 0:  # (1) twin annuity
-            a = self._a_x(x, s=s, b=b, discrete=discrete, depth=self.maxdepth)
+            a = self._a_x(x, s=s, discrete=discrete, depth=self.maxdepth)
             if a is not None:
                 self.blog(self.pprint.a(x=x, s=s), '= [ 1 -',
                           self.pprint.A(x=x, s=s), f"] / d",
                           #"Annuity twin: a = (1 - A) / d",
                           depth=self.maxdepth, rule='annuity twin')
                 self.blog.display()
-                return self.insurance_twin(a=a, discrete=discrete)
+                return b * self.insurance_twin(a=a, discrete=discrete)
         A = super().whole_life_insurance(x, s=s, b=b, discrete=discrete,
                                          moment=moment)
         if A is not None:
@@ -1417,8 +1431,8 @@ class Recursion(Reserves):
                                             discrete=discrete,
                                             endowment=0, moment=moment),
                               levels=self.maxdepth)
-        A = self._get_A(x=x, s=s, t=t, b=b, u=u, discrete=discrete, 
-                        moment=moment)
+        A = self._A_x(x=x, s=s, t=t, b=b, u=u, discrete=discrete, 
+                      moment=moment, depth=self.maxdepth)
         if A is not None:
             self.blog.display()
             return A
@@ -1446,11 +1460,11 @@ class Recursion(Reserves):
             self.blog.display()
             return found
         if moment == 1 and endowment == b and self.interest.i > 0:
-            a = self._a_x(x, s=s, b=b, t=t, discrete=discrete,
+            a = self._a_x(x, s=s, t=t, discrete=discrete,
                           depth=self.maxdepth)
             if a is not None:   # twin insurance
                 self.blog.display()
-                return self.insurance_twin(a=a, discrete=discrete)
+                return b * self.insurance_twin(a=a, discrete=discrete)
         A = super().endowment_insurance(x, s=s, b=b, t=t, discrete=discrete,
                                         moment=moment, endowment=endowment)
         if A is not None:
@@ -1478,7 +1492,7 @@ class Recursion(Reserves):
                            variance=variance, discrete=discrete)
         val = self.db.get(key, None)
         if val is not None:
-            return val * b    # stored with benefit=1
+            return val * (b**2 if variance else b)  # stored with benefit=1
 
     def set_a(self, val: float, x: int, s: int = 0, t: int = Reserves.WHOLE,
               u: int = 0, b: int = 1, variance: bool = False, 
@@ -1498,7 +1512,8 @@ class Recursion(Reserves):
         Examples:
           >>> Recursion().set_interest(i=0.06).set_a(7, x=1)
         """
-        val /= b    # store with benefit=1
+        if val is not None:
+            val /= b**2 if variance else b    # store with benefit=1
         return self._db_put(self._db_key('a', x=x+s, t=t, u=u, 
                                          variance=variance, discrete=discrete), val)
 
@@ -1509,16 +1524,15 @@ class Recursion(Reserves):
         if t == 1 and not u and discrete:
 #            self.blog(self.pprint.a(x=x, s=s, t=1, discrete=discrete), '= 1',
 #                      depth=depth, rule='one-year discrete annuity')
-            return b 
+            return 0 if variance else b
         if t == 0:
             return 0
         found = self._get_a(x=x, s=s, t=t, b=b, u=u, discrete=discrete,
                             variance=variance)
         if found is not None:
             return found
-        if depth <= 0:
+        if depth <= 0 or variance:     # no recursions for variance
             return None
-        assert variance is False, "Annuity recursion requires variance=False"
 
         if u > 0:  # (1) deferred annuity
             found = self._a_x(x=x, s=s+1, t=t, b=b, u=u-1, discrete=discrete, 
@@ -1537,7 +1551,7 @@ class Recursion(Reserves):
             found = self._a_x(x=x, s=s-1, t=t, b=b, u=u+1, discrete=discrete, 
                               depth=depth-1)         # FIXED u=u+1
             E = self._E_x(x, s=s-1, t=1, depth=depth-1)
-            if found is not None and E is not None:  # (1b) forward
+            if found is not None and E:  # (1b) forward
                 #msg = f"forward: {u}_a_{x+s} = {u+1}_a_{x+s-1}/E_{x+s-1}"
                 self.blog(self.pprint.a(x=x, s=s, u=u, t=t), '=',
                           self.pprint.a(x=x, s=s-1, t=t, u=u+1), '/',
@@ -1569,7 +1583,7 @@ class Recursion(Reserves):
             found = self._a_x(x=x, s=s-1, t=self.add_term(t, 1), b=b, u=u, 
                               discrete=discrete, depth=depth-1)
             E = self._E_x(x, s=s-1, t=1, depth=depth-1)
-            if found is not None and E is not None:  # (2b) forward
+            if found is not None and E:  # (2b) forward
                 _t = "" if t < 0 else f":{t-1}"
                 self.blog(self.pprint.a(x=x, s=s, t=t), '= [',
                           self.pprint.a(x=x, s=s-1, t=self.add_term(t, 1)), '- 1 ] /',
@@ -1602,13 +1616,13 @@ class Recursion(Reserves):
             self.blog.display()
             return found
         if not variance and self.interest.i > 0:  # (1) twin insurance shortcut
-            A = self._A_x(x, s=s, b=b, discrete=discrete, depth=self.maxdepth)
+            A = self._A_x(x, s=s, discrete=discrete, depth=self.maxdepth)
             if A is not None:
                 self.blog(self.pprint.a(x=x, s=s, discrete=discrete, variance=variance),
                           "= [1 -", self.pprint.A(x=x, s=s, discrete=discrete), "] / d",
                           depth=self.maxdepth, rule='insurance twin')
                 self.blog.display()
-                return self.annuity_twin(A=A, discrete=discrete)
+                return b * self.annuity_twin(A=A, discrete=discrete)
         a = super().whole_life_annuity(x, s=s, b=b, discrete=discrete,
                                        variance=variance)
         if a is not None:
@@ -1638,15 +1652,15 @@ class Recursion(Reserves):
             self.blog.display()
             return found
         if not variance and self.interest.i > 0: # (1) twin insurance shortcut
-            A = self._A_x(x, s=s, b=b, t=t, endowment=b, discrete=discrete, 
+            A = self._A_x(x, s=s, t=t, endowment=1, discrete=discrete, 
                           depth=self.maxdepth)
             if A is not None:
-                self.blog(self.pprint.a(x=x, s=s, t=t, b=b), '= [ 1 -',
-                          self.pprint.A(x=x, s=s, t=t, b=b, endowment=b), f"] / d",
+                self.blog(self.pprint.a(x=x, s=s, t=t), '= [ 1 -',
+                          self.pprint.A(x=x, s=s, t=t, endowment=1), f"] / d",
                           #"Annuity twin: a = (1 - A) / d",
                           depth=self.maxdepth, rule='annuity twin')
                 self.blog.display()
-                return self.annuity_twin(A=A, discrete=discrete)
+                return b * self.annuity_twin(A=A, discrete=discrete)
         a = super().temporary_annuity(x, s=s, b=b, t=t, discrete=discrete,
                                       variance=variance)
         if a is not None:
@@ -1681,7 +1695,7 @@ class Recursion(Reserves):
         if a is not None and a_t is not None:
             self.blog.display()
             return a - a_t
-        return super().deferred_annuity(x, s=s, b=b, t=t, discrete=discrete)
+        return super().deferred_annuity(x, s=s, b=b, t=t, u=u, discrete=discrete)
 
 # to auto-detect notebook environment
 try:
-- 
2.43.0


From a0a7b17c003e934ee80a27ba616d969548a48358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:25 +0000
Subject: [PATCH 62/71] fix: show deferred whole-life mortality

the printed symbol for the probability of dying after u years was 1
---
 src/actuarialmath/recursion.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index cb39f08..631094c 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -80,11 +80,11 @@ class _Blog:
         """Return string representation of mortality u|t_q_x term"""
         if t == 0:
             return "0"
-        if t < 0:
+        if t < 0 and u == 0:
             return "1"
         out = []
         if t != 1:
-            out.append(f"t={t}")
+            out.append(f"t={t if t >= 0 else 'WL'}")  # term or whole life
         if u > 0:
             out.append(f"defer={u}")
         return f"q_{x+s}" + "("*bool(out) + ",".join(out) + ")"*bool(out)
@@ -213,7 +213,7 @@ class PPrint(_Blog):
         """Return latex string representation of mortality u|t_q_[x+s] term"""
         if t == 0:
             return "~0"
-        if t < 0:
+        if t < 0 and u == 0:
             return "~1"
         left = '~'
         if t != 1 or u > 0:
@@ -221,7 +221,7 @@ class PPrint(_Blog):
             if u > 0:
                 left += f"{u}|"
             if t != 1:
-                left += f"{t}"
+                left += f"{t}" if t >= 0 else "\\infty"
             left += "}}"
         right = f"x+{x+s}" if x + s > 0 else "x"
         return f"{left}q_{{{right}}}"
-- 
2.43.0


From c4f77436c12d10d6891d72cf94876aa5e77a57ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:25 +0000
Subject: [PATCH 63/71] fix: derivations of temporary and later lifetimes

the temporary lifetime line used one-year survival; the forward recursion line always showed one year
---
 src/actuarialmath/recursion.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 631094c..b04ce0e 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -714,7 +714,7 @@ class Recursion(Reserves):
                     if e is not None and e_t is not None:
                         self.blog(self.pprint.e(x=x, s=s, t=t, curtate=curtate), '=',
                                   self.pprint.e(x=x, s=s, curtate=curtate), '-',
-                                  self.pprint.p(x=x, s=s), '*',
+                                  self.pprint.p(x=x, s=s, t=t), '*',
                                   self.pprint.e(x=x, s=s+t, curtate=curtate),
                                   #"e_{x+s}:{t}: e_x - p_x e_x+t",
                                   depth=depth, rule="temporary lifetime")
@@ -734,10 +734,10 @@ class Recursion(Reserves):
                     #_t = "" if t < 0 else ":" + str(t)
                     #msg = f"forward e_{x+s}{_t} = e_{x+s}:1 + p_{x+s} e_{x+s+1}"
                     self.blog(self.pprint.e(x=x, s=s, t=t, curtate=curtate), '= [',
-                              self.pprint.e(x=x, s=s-1, t=self.add_term(t, 1),
+                              self.pprint.e(x=x, s=s-u, t=self.add_term(t, u),
                                             curtate=curtate), '-',
-                              self.pprint.e(x=x, s=s-1, t=1, curtate=curtate), '] /',
-                              self.pprint.p(x=x, s=s-1, t=1), 
+                              self.pprint.e(x=x, s=s-u, t=u, curtate=curtate), '] /',
+                              self.pprint.p(x=x, s=s-u, t=u), 
                               depth=depth, rule='forward recursion')
                     return (e - e1) / p # (3) forward: (e_x-1 - e_x-1:1) / p_x-1
                 else:
-- 
2.43.0


From 7fef23f4d1bcc003a7082b59d0346791cebba33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:25 +0000
Subject: [PATCH 64/71] fix: derivations of pure endowments

the moment line discounted once too often; the difference line dropped the amount and the moment on its left side
---
 src/actuarialmath/recursion.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index b04ce0e..c4b5174 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -833,7 +833,7 @@ class Recursion(Reserves):
             E = self._E_x(x, s=s, t=t, depth=depth)
             if E is not None:  # (1) Shortcut: 2E_x = v E_x
                 self.blog(self.pprint.E(x=x, s=s, t=t, moment=moment),
-                          f"= " + self.pprint.m(moment*t, v="v"), '*',
+                          f"= " + self.pprint.m((moment-1)*t, v="v"), '*',
                           self.pprint.E(x=x, s=s, t=t),
                           depth=depth, rule='moments of pure endowment')
                 return E * self.interest.v_t(t)**(moment-1) * endowment**moment
@@ -861,9 +861,12 @@ class Recursion(Reserves):
         A = self._A_x(x, s=s, t=t, b=endowment, endowment=endowment, 
                       moment=moment, depth=depth-1)        
         if A is not None and At is not None:
-            self.blog(self.pprint.E(x=x, s=s, t=t), '=',
-                      self.pprint.A(x=x, s=s, t=t, endowment=endowment), '-',
-                      self.pprint.A(x=x, s=s, t=t, endowment=0),
+            self.blog(self.pprint.E(x=x, s=s, t=t, endowment=endowment,
+                                    moment=moment), '=',
+                      self.pprint.A(x=x, s=s, t=t, b=endowment,
+                                    endowment=endowment, moment=moment), '-',
+                      self.pprint.A(x=x, s=s, t=t, b=endowment, endowment=0,
+                                    moment=moment),
                       #f"endowment - term insurance = {t}_E_{x+s}",
                       depth=depth, rule='endowment insurance minus term')
             return A - At  # (3) endowment insurance - term (helpful SULT)
-- 
2.43.0


From 16e05b0ff4c78a9a30263531559faafc597e9f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:25 +0000
Subject: [PATCH 65/71] fix: derivations of varying insurances

the backward recursion lines discounted t years, and the decreasing one discounted the death benefit only; decreasing insurance was titled increasing
---
 src/actuarialmath/recursion.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index c4b5174..1b6ff5d 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -981,7 +981,7 @@ class Recursion(Reserves):
             if A is not None and IA is not None and p is not None:
                 self.blog(self.pprint.IA(x=x, s=s, t=t), '=',
                           self.pprint.A(x=x, s=s, t=t), '+',
-                          self.pprint.p(x=x, s=s), f"*", self.pprint.m(t, v="v"), "*",
+                          self.pprint.p(x=x, s=s), f"*", self.pprint.m(1, v="v"), "*",
                           self.pprint.IA(x=x, s=s+1, t=t-1),
                           #f"backward IA_{x+s}:{t}: A + IA_{x+s+1}:{t-1}",
                           depth=depth, rule='backward recursion')
@@ -1078,9 +1078,9 @@ class Recursion(Reserves):
             if DA is not None and p is not None:
                 #f"backward DA_{x+s}:{t}: v(t q_{x+s} + p_{x+s} DA_{x+s+1}:{t-1})"
                 self.blog(self.pprint.DA(x=x, s=s, t=t), f"=",
-                          self.pprint.m(t, v="v"), "* t *",
+                          f"v * [ {t} *",
                           self.pprint.q(x=x, s=s), '+',
-                          self.pprint.p(x=x, s=s), '*', self.pprint.DA(x=x, s=s+1, t=t-1),
+                          self.pprint.p(x=x, s=s), '*', self.pprint.DA(x=x, s=s+1, t=t-1), ']',
                           depth=depth, rule='backward recursion')
                 return self.interest.v * ((1-p)*t*b + p*DA)  # (2) backward recursion
             else:
@@ -1097,7 +1097,7 @@ class Recursion(Reserves):
           b : amount of benefit in first year
           discrete : benefit paid year-end (True) or moment of death (False)
         """
-        self.blog = self.Blog("Increasing Insurance",
+        self.blog = self.Blog("Decreasing Insurance",
                               self.pprint.DA(x=x, s=s, t=t, b=b, discrete=discrete),
                               levels=self.maxdepth)
         if t == 0:
-- 
2.43.0


From 023d63eff77b01912f619c4ae9d9a33264705708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:25 +0000
Subject: [PATCH 66/71] fix: derivations of deferred insurances and annuities

the backward annuity line divided by the pure endowment; the insurance lines dropped the benefit on one side
---
 src/actuarialmath/recursion.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 1b6ff5d..e4cfe5e 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1205,7 +1205,7 @@ class Recursion(Reserves):
                 #msg = f"backward deferred {u}_A_{x+s}: {u}_E * A_{x+s+u}"
                 self.blog(self.pprint.A(x=x, s=s, t=t, u=u, b=b, moment=moment), '=',
                           self.pprint.E(x=x, s=s, moment=moment), '*',
-                          self.pprint.A(x=x, s=s+1, t=t, u=u-1, moment=moment),
+                          self.pprint.A(x=x, s=s+1, t=t, u=u-1, b=b, moment=moment),
                           depth=depth, rule='backward recursion')
                 return E * A
             else:
@@ -1217,7 +1217,7 @@ class Recursion(Reserves):
             if A is not None and E: # (1b) forward recursion
                 msg = f"forward deferred {u}_A_{x+s}: {u+1}A_{x+s-1} / E"
                 self.blog(self.pprint.A(x=x, s=s, t=t, u=u, b=b, moment=moment), '=',
-                          self.pprint.A(x=x, s=s-1, t=t, u=u+1, moment=moment), '/',
+                          self.pprint.A(x=x, s=s-1, t=t, u=u+1, b=b, moment=moment), '/',
                           self.pprint.E(x=x, s=s-1, moment=moment),
                           depth=depth, rule='forward recursion')
                 return A / E
@@ -1544,7 +1544,7 @@ class Recursion(Reserves):
             if found is not None and E is not None:
                 #msg = f"backward {u}_a_{x+s} = {u}_E * a_{x+s+u}"
                 self.blog(self.pprint.a(x=x, s=s, u=u, t=t), '=',
-                          self.pprint.a(x=x, s=s+1, t=t, u=u-1), '/',
+                          self.pprint.a(x=x, s=s+1, t=t, u=u-1), '*',
                           self.pprint.E(x=x, s=s),
                           depth=depth, rule='backward deferred annuity')
                 return E * found  # (1a) backward recusion
-- 
2.43.0


From 943d3afc1d57cb906948f85b218b074a8e8fddf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:25 +0000
Subject: [PATCH 67/71] fix: derivations of endowment insurances

the one-year line discounted death twice and survival never; the recursion lines and the title dropped or misstated the endowment
---
 src/actuarialmath/recursion.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index e4cfe5e..72ac2c2 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1270,13 +1270,13 @@ class Recursion(Reserves):
             #print(p, x, s, t, b, endowment)
             
             if p is not None:  # (3b) one-year discrete insurance
-                self.blog(self.pprint.A(x=x, s=s, t=t, moment=moment,
+                self.blog(self.pprint.A(x=x, s=s, t=t, b=b, moment=moment,
                                             endowment=endowment), "=",
-                          self.pprint.m(moment, v="v"), "*",
+                          self.pprint.m(moment, v="v"), "* [",
                           self.pprint.q(x=x, s=s), f"*",
-                          self.pprint.m(moment, v="v"), "+",
+                          self.pprint.m(moment, b="b"), "+",
                           self.pprint.p(x=x, s=s), "*",
-                          self.pprint.m(moment, endow=endowment),
+                          self.pprint.m(moment, endow=endowment), "]",
                           #f"discrete 1-year insurance: A_{x+s}:1 = qv",
                           depth=depth, rule='one-year discrete insurance')
                 return (self.interest.v**moment 
@@ -1293,12 +1293,14 @@ class Recursion(Reserves):
                       endowment=endowment, depth=depth-1)
         p = self._p_x(x, s=s, t=1, depth=depth-1) # (4) backward recursion
         if A is not None and p is not None:
-            self.blog(self.pprint.A(x=x, s=s, t=t, b=b, moment=moment),
+            self.blog(self.pprint.A(x=x, s=s, t=t, b=b, moment=moment,
+                                    endowment=endowment),
                       f"= v"+self.pprint.m(moment), "* [",
                       self.pprint.q(x=x,s=s), f"*",
                       self.pprint.m(moment, b="b"), "+",
                       self.pprint.p(x=x, s=s), '*',
-                      self.pprint.A(x=x, s=s+1, t=t-1, b=b, moment=moment), ']',
+                      self.pprint.A(x=x, s=s+1, t=t-1, b=b, moment=moment,
+                                    endowment=endowment), ']',
                       #f"backward: A_{x+s} = qv + pvA_{x+s+1}",
                       depth=depth, rule='backward recursion')
             return self.interest.v_t(1)**moment * ((1 - p)*b**moment + p*A)
@@ -1350,8 +1352,10 @@ class Recursion(Reserves):
                       endowment=endowment, depth=depth-1)
         p = self._p_x(x, s=s-1, t=1, depth=depth-1)
         if A is not None and p:  # (5) forward recursion
-            self.blog(self.pprint.A(x=x, s=s, t=t, b=b, moment=moment), '= [',
-                      self.pprint.A(x=x, s=s-1, t=t+1, b=b, moment=moment),
+            self.blog(self.pprint.A(x=x, s=s, t=t, b=b, moment=moment,
+                                    endowment=endowment), '= [',
+                      self.pprint.A(x=x, s=s-1, t=self.add_term(t, 1), b=b,
+                                    moment=moment, endowment=endowment),
                       f"/", self.pprint.m(moment, v="v"), "-",
                       self.pprint.q(x=x, s=s-1), f"*",
                       self.pprint.m(moment, b="b"), "] /", self.pprint.p(x=x, s=s-1),
@@ -1449,14 +1453,14 @@ class Recursion(Reserves):
                             endowment: int = -1, moment: int = 1,
                             discrete: bool = True) -> float:
         """Compute endowment insurance u|A_x:t by attempting recursion first"""
+        assert t >= 0
+        if endowment < 0:
+            endowment = b
         self.blog = self.Blog("Endowment Insurance",
                               self.pprint.A(x=x, s=s, t=t, b=b, u=0,
                                             discrete=discrete,
                                             endowment=endowment, moment=moment),
                               levels=self.maxdepth)
-        assert t >= 0
-        if endowment < 0:
-            endowment = b
         found = self._A_x(x, s=s, b=b, t=t, moment=moment, discrete=discrete,
                           endowment=endowment, depth=self.maxdepth)
         if found is not None:
-- 
2.43.0


From 37f95720d60731e1a716902f75252747efc5bda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:25 +0000
Subject: [PATCH 68/71] fix: derivations end in the quantity asked

whole-life and endowment insurances from their twin annuity and deferred annuities by difference had no line for the quantity asked
---
 src/actuarialmath/recursion.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 72ac2c2..0408660 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1390,9 +1390,9 @@ class Recursion(Reserves):
         if moment == 1 and self.interest.i > 0:  # (1) twin annuity
             a = self._a_x(x, s=s, discrete=discrete, depth=self.maxdepth)
             if a is not None:
-                self.blog(self.pprint.a(x=x, s=s), '= [ 1 -',
-                          self.pprint.A(x=x, s=s), f"] / d",
-                          #"Annuity twin: a = (1 - A) / d",
+                self.blog(self.pprint.A(x=x, s=s), '= 1 - d *',
+                          self.pprint.a(x=x, s=s),
+                          #"Annuity twin: A = 1 - d a",
                           depth=self.maxdepth, rule='annuity twin')
                 self.blog.display()
                 return b * self.insurance_twin(a=a, discrete=discrete)
@@ -1470,6 +1470,9 @@ class Recursion(Reserves):
             a = self._a_x(x, s=s, t=t, discrete=discrete,
                           depth=self.maxdepth)
             if a is not None:   # twin insurance
+                self.blog(self.pprint.A(x=x, s=s, t=t, endowment=1), '= 1 - d *',
+                          self.pprint.a(x=x, s=s, t=t),
+                          depth=self.maxdepth, rule='annuity twin')
                 self.blog.display()
                 return b * self.insurance_twin(a=a, discrete=discrete)
         A = super().endowment_insurance(x, s=s, b=b, t=t, discrete=discrete,
@@ -1700,6 +1703,10 @@ class Recursion(Reserves):
         a_t = self._a_x(x, s=s, b=b, t=u,  
                         discrete=discrete, depth=self.maxdepth)
         if a is not None and a_t is not None:
+            self.blog(self.pprint.a(x=x, s=s, t=t, u=u), '=',
+                      self.pprint.a(x=x, s=s, t=self.add_term(u, t)), '-',
+                      self.pprint.a(x=x, s=s, t=u),
+                      depth=self.maxdepth, rule='difference of annuities')
             self.blog.display()
             return a - a_t
         return super().deferred_annuity(x, s=s, b=b, t=t, u=u, discrete=discrete)
-- 
2.43.0


From 9dfa9d55b1f8535d54566ffa3286ad9caab5bb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:20 +0000
Subject: [PATCH 69/71] fix: plots mark survival from the duration asked

Z_plot and Y_plot drew the survival curve from age x+s but put the marker and label Pr[T>t] at S(x, 0, t): life.Z_plot(x, s=1, T=1, dual=True)
---
 src/actuarialmath/annuity.py   | 2 +-
 src/actuarialmath/insurance.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index 6d2e60e..4be56c9 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -393,7 +393,7 @@ class Annuity(Insurance):
             ax.legend(handles=[label1], loc='upper left')
 
             if dual:
-                prob = self.S(x, 0, T)
+                prob = self.S(x, s, T)
                 label2, = bx.plot(T, prob, c='g', marker='o',
                                   label=f"Pr[{K}>{T:.2f}]={prob:.4f}")
                 bx.legend(handles=[label2], loc='upper right')
diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index a877384..3e8a384 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -412,7 +412,7 @@ class Insurance(Fractional):
             ax.legend(handles=[label1], loc='lower left')
 
             if dual:
-                prob = self.S(x, 0, T)      # note: is opposite of annuity
+                prob = self.S(x, s, T)      # note: is opposite of annuity
                 label2, = bx.plot(T, prob, c='g', marker='o',
                                   label=f"Pr[{K}>{T:.2f}]={prob:.4f}")
                 bx.legend(handles=[label2], loc='upper right')
@@ -530,7 +530,7 @@ class Insurance(Fractional):
                               label=f"Z({K}*={T:.2f}): {Z:.4f}")
             ax.legend(handles=[label1], loc='upper left')
 
-            prob = self.S(x, 0, T)      # note: is opposite of annuity
+            prob = self.S(x, s, T)      # note: is opposite of annuity
             label2, = bx.plot(T, prob, c='g', marker='o',
                                label=f"Pr[{K}>{K}*]={prob:.3f}")
             bx.legend(handles=[label2], loc='upper right')
-- 
2.43.0


From e3347a56d0474e508741207d64e3266935aae019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:30 +0000
Subject: [PATCH 70/71] fix: title of loss plots

L_plot took a title and drew its own instead: life.L_plot(x, title="Whole life")
---
 src/actuarialmath/policyvalues.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/policyvalues.py b/src/actuarialmath/policyvalues.py
index e114e75..2c95612 100644
--- a/src/actuarialmath/policyvalues.py
+++ b/src/actuarialmath/policyvalues.py
@@ -464,7 +464,8 @@ class PolicyValues(Premiums):
                 label2, = bx.plot(T, prob, c='g', marker='o',
                                   label=f"Pr[{K}>{T:.2f}]={prob:.4f}")
                 bx.legend(handles=[label2], loc='upper right')
-        ax.set_title(f"PV future loss at issue r.v. $_0L$")
+        ax.set_title(f"PV future loss at issue r.v. $_0L$"
+                     if title is None else title)
         ax.set_ylabel(f"$L({K}_x)$", color=color)
         ax.set_xlabel(f"${K}_x$")
         #plt.tight_layout()
-- 
2.43.0


From 592f8c8bb991bd1cbf6e9d6be040e74c3ebf11f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:43 +0000
Subject: [PATCH 71/71] fix: display options apply to engines made before

an engine made before Recursion.blog_options(latex=True) printed text notation inside a LaTeX array: r = Recursion(); Recursion.blog_options(latex=True); r.q_x(40)
---
 src/actuarialmath/recursion.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 0408660..2fc7ff5 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -355,7 +355,11 @@ class Recursion(Reserves):
         self._t = {'A': {1, 2}, 'a': {1, 2}, 'e': {1, 2}}  # recursion periods to try
         self.maxdepth = depth
         self._verbose = verbose
-        self.pprint = Recursion._Blog
+
+    @property
+    def pprint(self):
+        """Notation of the current display options"""
+        return Recursion._Blog
 
     def Blog(self, *args, **kwargs):
         """Returns Blog instance to collect messages and display for this query"""
-- 
2.43.0

