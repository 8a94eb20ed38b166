From 83d3ba8a4295310041f4cf4bf5e1e46ec038a53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:46 +0000
Subject: [PATCH 01/35] fix: ordering expressions that contain undef no longer
 recurses forever

---
 src/atom.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/atom.rs b/src/atom.rs
index 476d436..9e3b330 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -208,6 +208,13 @@ impl Ord for Atom {
         use Atom as A;
         let (lhs, rhs) = (self, other);
 
+        match (lhs, rhs) {
+            (A::Undef, A::Undef) => return cmp::Ordering::Equal,
+            (A::Undef, _) => return cmp::Ordering::Less,
+            (_, A::Undef) => return cmp::Ordering::Greater,
+            _ => (),
+        }
+
         let (r1, r2) = (lhs.try_as_real(), rhs.try_as_real());
         if let (Some(l), Some(r)) = (&r1, &r2) {
             return l.cmp(r);
-- 
2.43.0


From caca3bf8e9b547ee5bac9069798a8fa020b3f4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:46 +0000
Subject: [PATCH 02/35] fix: Rational::div_rem divides the numerator by the
 denominator, not the reverse

---
 src/rational.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rational.rs b/src/rational.rs
index afb1547..8518ff8 100644
--- a/src/rational.rs
+++ b/src/rational.rs
@@ -402,7 +402,7 @@ impl Rational {
         let denom = self.denom();
         let num = self.numer();
         //let (num, den) = self.0.to_numerator_and_denominator();
-        let (quot, rem) = num::integer::div_rem(denom, num);
+        let (quot, rem) = num::integer::div_rem(num, denom);
         //let (quot, rem) = marith::DivRem::div_rem(num, den);
         (Self::new_int(quot), Self::new(rem, denom))
 
-- 
2.43.0


From bb6923377c2f69a959eb2ec778aa0d3ee7673947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:40 +0000
Subject: [PATCH 03/35] fix: reducing a number times a power of a product
 containing it no longer panics

---
 src/algos.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/algos.rs b/src/algos.rs
index fe78334..5ef1880 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -474,7 +474,10 @@ impl Prod {
                     //assert!(q1 == &h[0], "{:?} != {:?}", q1, h[0]);
                     Prod::merge_args(p, q_rest)
                 } else {
-                    panic!("Illegal reduction: {q:?} * {p:?} -> h")
+                    // the pair was rewritten, e.g. 2 * (2*b)^-3 -> 2^-2 * b^-3:
+                    // merge the new factors into the remaining ones
+                    let rest = Prod::merge_args(p_rest, q_rest);
+                    return Prod::merge_args(&h, &rest.args);
                 };
 
                 Prod::flat_merge(&h[0], rhs)
-- 
2.43.0


From 2a9b0eb18b95849b9b92fd56d0c51c203843b6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:16 +0000
Subject: [PATCH 04/35] fix: expanding a sum raised to a fraction above one no
 longer recurses forever

---
 src/algos.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/algos.rs b/src/algos.rs
index 5ef1880..4620904 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -571,10 +571,13 @@ impl Pow {
             }
             (A::Sum(sum), A::Rational(r)) if r > &Rational::ONE && sum.args.len() > 1 => {
                 let (div, rem) = r.div_rem();
-                return expand_mul(
-                    &expand_pow(self.base(), &Expr::from(div)),
-                    &expand_pow(self.base(), &Expr::from(rem)),
-                );
+                let lhs = expand_pow(self.base(), &Expr::from(div));
+                let rhs = expand_pow(self.base(), &Expr::from(rem));
+                if recurse {
+                    // distribute, multiplying would recombine the powers
+                    return Prod::expand_mul(&lhs, &rhs);
+                }
+                return expand_mul(&lhs, &rhs);
             }
             (A::Prod(_), _) => {
                 return self
-- 
2.43.0


From e67bcd855ce9deb7c97668de841c04d676c70a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:16 +0000
Subject: [PATCH 05/35] fix: integer powers that do not fit the number type
 stay symbolic instead of panicking

---
 src/algos.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/algos.rs b/src/algos.rs
index 4620904..f69b080 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -786,8 +786,12 @@ impl Expr {
         match (base.atom(), exponent.atom()) {
             (A::Rational(b), A::Rational(e)) if b.is_int() && e.is_int() => {
                 let (pow, rem) = b.clone().pow(e.clone());
-                assert!(rem.is_zero());
-                Expr::from(pow)
+                if rem.is_zero() {
+                    Expr::from(pow)
+                } else {
+                    // does not fit into the number type
+                    Expr::pow_raw(base, exponent)
+                }
             }
             (A::Pow(pow), A::Rational(e)) if e.is_int() => {
                 Expr::pow(pow.base(), exponent * pow.exponent())
-- 
2.43.0


From 0cea481da682765ac5f2a69a9b09395591a39e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:16 +0000
Subject: [PATCH 06/35] fix: Rational::pow returns the fractional remainder of
 the exponent, not its numerator

---
 src/rational.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rational.rs b/src/rational.rs
index 8518ff8..a7a28cb 100644
--- a/src/rational.rs
+++ b/src/rational.rs
@@ -459,7 +459,7 @@ impl Rational {
             let denom = rhs.denom();
             let (quot, rem) = num::integer::div_rem(numer, denom); //marith::DivRem::div_rem(num, den);
                                                                    //let rem_exp = Self(mal::Rational::from(rem));
-            let rem_exp = Self::new_int(rem);
+            let rem_exp = Self::new(rem, denom);
             if let Ok(apply_exp) = usize::try_from(quot) {
                 if let Some(pow) = num::checked_pow(self.0, apply_exp) {
                     return (Self(pow), rem_exp);
-- 
2.43.0


From 3ef8807c14f4b1ed1971df4bf10b51d8cbb13c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:39 +0000
Subject: [PATCH 07/35] fix: contract_trig leaves powers of anything but sin
 and cos alone instead of panicking

---
 src/algos.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algos.rs b/src/algos.rs
index f69b080..514612b 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -1508,7 +1508,7 @@ fn contract_trig_pow(p: &Expr) -> Expr {
     let f = p.base();
     let n = p.exponent();
 
-    if !(n.is_int() && n.is_pos()) && !(f.is_sin() || f.is_cos()) {
+    if !(n.is_int() && n.is_pos()) || !(f.is_sin() || f.is_cos()) {
         return p.clone();
     }
 
-- 
2.43.0


From d3fe5fb12cd4c99fb6fafd690545cfc954093e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:39 +0000
Subject: [PATCH 08/35] fix: contract_trig of an expanded sum no longer adds
 one

---
 src/algos.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algos.rs b/src/algos.rs
index 514612b..59de5e0 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -1487,7 +1487,7 @@ fn contract_trig_arg(e: &Expr) -> Expr {
             }
         }
 
-        Atom::Sum(s) => s.iter_args().fold(Expr::one(), |lhs, rhs| {
+        Atom::Sum(s) => s.iter_args().fold(Expr::zero(), |lhs, rhs| {
             if rhs.is_prod() || rhs.is_pow() {
                 lhs + contract_trig_arg(rhs)
             } else {
-- 
2.43.0


From 10d8624f807a7e445a3e7ebf8f798e07c0b87b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:31 +0000
Subject: [PATCH 09/35] fix: rationalizing a sum with an undefined term no
 longer recurses forever

---
 src/algos.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/algos.rs b/src/algos.rs
index 59de5e0..1f1f887 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -1066,7 +1066,9 @@ impl Expr {
         let c = rhs.numerator();
         let d = rhs.denominator();
         let bd = &b * &d;
-        if bd.is_one() {
+        if bd.is_undef() {
+            bd
+        } else if bd.is_one() {
             lhs + rhs
         } else {
             Self::rationalize_add(&(&a * &d), &(&c * &b)) / bd
-- 
2.43.0


From 467c30e48ff03fae22f437550d704afd176a8d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:24 +0000
Subject: [PATCH 10/35] fix: the ordering of expressions is total and agrees
 with equality

---
 src/atom.rs | 208 +++++++++++++++++++++++++++++-----------------------
 1 file changed, 118 insertions(+), 90 deletions(-)

diff --git a/src/atom.rs b/src/atom.rs
index 9e3b330..8f09594 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -184,8 +184,9 @@ fn cmp_slice_rev(lhs: &[Expr], rhs: &[Expr]) -> cmp::Ordering {
     let args = lhs.iter().rev().zip(rhs.iter().rev());
 
     for (l, r) in args {
-        if !l.cmp(r).is_eq() {
-            return l.cmp(r)
+        let ord = l.cmp_sorted(r);
+        if !ord.is_eq() {
+            return ord;
         }
     }
 
@@ -195,84 +196,112 @@ fn cmp_slice(lhs: &[Expr], rhs: &[Expr]) -> cmp::Ordering {
     let args = lhs.iter().zip(rhs.iter());
 
     for (l, r) in args {
-        if !l.cmp(r).is_eq() {
-            return l.cmp(r)
+        let ord = l.cmp_sorted(r);
+        if !ord.is_eq() {
+            return ord;
         }
     }
 
     lhs.len().cmp(&rhs.len())
 }
 
-impl Ord for Atom {
-    fn cmp(&self, other: &Self) -> cmp::Ordering {
+impl Expr {
+    /// the arguments of all sums and products are brought into ascending order, because sums and
+    /// products that only differ in the order of their arguments are equal
+    fn sort_commutative(&self) -> Self {
+        if self.is_irreducible() {
+            return self.clone();
+        }
+        let mut res = self.clone().map_args(|a| *a = a.sort_commutative());
+        if res.is_sum() || res.is_prod() {
+            res.args_mut().sort_by(Self::cmp_total);
+        }
+        res
+    }
+
+    /// ranks expressions as if they were automatically simplified, e.g Prod[x] ranks like x
+    ///
+    /// expects the arguments of sums and products to be sorted
+    fn cmp_sorted(&self, rhs: &Self) -> cmp::Ordering {
         use Atom as A;
-        let (lhs, rhs) = (self, other);
+        let lhs = self;
 
-        match (lhs, rhs) {
+        match (lhs.atom(), rhs.atom()) {
             (A::Undef, A::Undef) => return cmp::Ordering::Equal,
             (A::Undef, _) => return cmp::Ordering::Less,
             (_, A::Undef) => return cmp::Ordering::Greater,
             _ => (),
         }
 
-        let (r1, r2) = (lhs.try_as_real(), rhs.try_as_real());
-        if let (Some(l), Some(r)) = (&r1, &r2) {
-            return l.cmp(r);
-        } else if r1.is_some() {
-            return cmp::Ordering::Less
-        } else if r2.is_some() {
-            return cmp::Ordering::Greater
+        match (lhs.try_as_real(), rhs.try_as_real()) {
+            (Some(l), Some(r)) => return l.cmp(&r),
+            (Some(_), None) => return cmp::Ordering::Less,
+            (None, Some(_)) => return cmp::Ordering::Greater,
+            (None, None) => (),
         }
 
-        match (lhs, rhs) {
+        match (lhs.atom(), rhs.atom()) {
+            (A::Prod(p1), A::Prod(p2)) => cmp_slice_rev(p1.args(), p2.args()),
+            (A::Prod(p), _) => cmp_slice_rev(p.args(), slice::from_ref(rhs)),
+            (_, A::Prod(p)) => cmp_slice_rev(slice::from_ref(lhs), p.args()),
+
+            (A::Pow(p1), A::Pow(p2)) => cmp_slice(p1.args(), p2.args()),
+            (A::Pow(p), _) => cmp_slice(p.args(), &[rhs.clone(), Expr::one()]),
+            (_, A::Pow(p)) => cmp_slice(&[lhs.clone(), Expr::one()], p.args()),
+
+            (A::Sum(s1), A::Sum(s2)) => cmp_slice_rev(s1.args(), s2.args()),
+            (A::Sum(s), _) => cmp_slice_rev(s.args(), slice::from_ref(rhs)),
+            (_, A::Sum(s)) => cmp_slice_rev(slice::from_ref(lhs), s.args()),
+
+            (A::Func(f1), A::Func(f2)) => f1
+                .name()
+                .cmp(&f2.name())
+                .then_with(|| cmp_slice(f1.args(), f2.args())),
+            (A::Func(f), A::Var(v)) => f.name().as_str().cmp(&v.0).then(cmp::Ordering::Greater),
+            (A::Var(v), A::Func(f)) => (*v.0).cmp(f.name().as_str()).then(cmp::Ordering::Less),
             (A::Var(l), A::Var(r)) => l.cmp(r),
-            (A::Prod(_), A::Prod(_)) | (A::Sum(_), A::Sum(_)) => {
-                cmp_slice_rev(lhs.args(), rhs.args())
-            }
-            (A::Pow(p1), A::Pow(p2)) => {
-                if p1.base() != p2.base() {
-                    p1.base().cmp(p2.base())
-                } else {
-                    p1.exponent().cmp(p2.exponent())
-                }
-            }
-            (A::Func(f1), A::Func(f2)) => {
-                let (n1, n2) = (f1.name(), f2.name());
-                if n1 != n2 {
-                    n1.cmp(&n2)
-                } else {
-                    cmp_slice(f1.args(), f2.args())
-                }
-            }
-            (A::Prod(_) | A::Sum(_), _) => {
-                if lhs.n_args() == 0 {
-                    cmp::Ordering::Less
-                } else if lhs.args().last().unwrap().atom() != rhs {
-                    lhs.args().last().unwrap().atom().cmp(rhs)
-                } else {
-                    cmp::Ordering::Greater
-                }
-            }
-            (A::Pow(p), _) => {
-                if p.base().atom() != rhs {
-                    p.base().atom().cmp(rhs)
-                } else {
-                    p.exponent().atom().cmp(&A::ONE)
-                }
-            }
-            (A::Func(f), A::Var(v)) => {
-                let n = f.name();
-                if n == *v.0 {
-                    cmp::Ordering::Greater
-                } else {
-                    n.as_str().cmp(&v.0)
-                }
-            }
-            (_, _) => {
-                rhs.cmp(lhs).reverse()
-            }
+
+            (A::Undef | A::Rational(_) | A::Irrational(_), _)
+            | (_, A::Undef | A::Rational(_) | A::Irrational(_)) => unreachable!(),
         }
     }
+
+    /// tells apart what [Self::cmp_sorted] ranks alike
+    fn cmp_structure(&self, rhs: &Self) -> cmp::Ordering {
+        use Atom as A;
+        let kind = |e: &Self| match e.atom() {
+            A::Undef => 0,
+            A::Rational(_) => 1,
+            A::Irrational(_) => 2,
+            A::Var(_) => 3,
+            A::Func(_) => 4,
+            A::Sum(_) => 5,
+            A::Pow(_) => 6,
+            A::Prod(_) => 7,
+        };
+
+        let args = || self.iter_args().zip(rhs.iter_args());
+        kind(self)
+            .cmp(&kind(rhs))
+            .then_with(|| self.n_args().cmp(&rhs.n_args()))
+            .then_with(|| {
+                args()
+                    .map(|(l, r)| l.cmp_structure(r))
+                    .find(|ord| !ord.is_eq())
+                    .unwrap_or(cmp::Ordering::Equal)
+            })
+            .then_with(|| self.cmp_sorted(rhs))
+    }
+
+    fn cmp_total(&self, rhs: &Self) -> cmp::Ordering {
+        self.cmp_sorted(rhs).then_with(|| self.cmp_structure(rhs))
+    }
+}
+
+impl Ord for Atom {
+    fn cmp(&self, other: &Self) -> cmp::Ordering {
+        Expr::from(self.clone()).cmp(&Expr::from(other.clone()))
+    }
 }
 
 #[derive(Clone, PartialEq, Eq, Hash, Debug, Display, From, Serialize, Deserialize)]
@@ -488,7 +517,7 @@ impl Func {
     }
 }
 
-#[derive(Clone, PartialOrd, Ord, Hash, Serialize, Deserialize)]
+#[derive(Clone, Hash, Serialize, Deserialize)]
 pub struct Sum {
     pub args: Vec<Expr>,
 }
@@ -516,15 +545,17 @@ impl fmt::Debug for Sum {
 impl Eq for Sum {}
 impl PartialEq for Sum {
     fn eq(&self, other: &Self) -> bool {
-        if self.n_args() != other.n_args() {
-            return false;
-        }
-
-        let mut largs = self.args.clone();
-        largs.sort();
-        let mut rargs = other.args.clone();
-        rargs.sort();
-        largs == rargs
+        self.n_args() == other.n_args() && self.cmp(other).is_eq()
+    }
+}
+impl PartialOrd for Sum {
+    fn partial_cmp(&self, other: &Self) -> Option<cmp::Ordering> {
+        Some(self.cmp(other))
+    }
+}
+impl Ord for Sum {
+    fn cmp(&self, other: &Self) -> cmp::Ordering {
+        Expr::from(self.clone()).cmp(&Expr::from(other.clone()))
     }
 }
 
@@ -567,7 +598,7 @@ impl Sum {
     }
 }
 
-#[derive(Clone, PartialOrd, Ord, Hash, Serialize, Deserialize)]
+#[derive(Clone, Hash, Serialize, Deserialize)]
 pub struct Prod {
     pub args: Vec<Expr>,
 }
@@ -595,15 +626,17 @@ impl fmt::Debug for Prod {
 impl Eq for Prod {}
 impl PartialEq for Prod {
     fn eq(&self, other: &Self) -> bool {
-        if self.n_args() != other.n_args() {
-            return false;
-        }
-
-        let mut largs = self.args.clone();
-        largs.sort();
-        let mut rargs = other.args.clone();
-        rargs.sort();
-        largs == rargs
+        self.n_args() == other.n_args() && self.cmp(other).is_eq()
+    }
+}
+impl PartialOrd for Prod {
+    fn partial_cmp(&self, other: &Self) -> Option<cmp::Ordering> {
+        Some(self.cmp(other))
+    }
+}
+impl Ord for Prod {
+    fn cmp(&self, other: &Self) -> cmp::Ordering {
+        Expr::from(self.clone()).cmp(&Expr::from(other.clone()))
     }
 }
 
@@ -719,15 +752,10 @@ fn expr_as_cmp_slice<'a>(e: &'a Expr) -> &[Expr] {
 
 impl cmp::Ord for Expr {
     fn cmp(&self, other: &Self) -> cmp::Ordering {
-        self.atom().cmp(other.atom())
-        /*
-        if self.is_atom() || other.is_atom() {
-            return self.atom().cmp(other.atom());
-        }
-        let lhs = expr_as_cmp_slice(self);
-        let rhs = expr_as_cmp_slice(other);
-        Self::cmp_slices(lhs, rhs)
-        */
+        if PTR::ptr_eq(&self.atom, &other.atom) {
+            return cmp::Ordering::Equal;
+        }
+        self.sort_commutative().cmp_total(&other.sort_commutative())
     }
 }
 impl cmp::PartialOrd for Expr {
-- 
2.43.0


From 74bfd2ba7bbfa14f893e7df8252b4e06aae4f4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:57 +0000
Subject: [PATCH 11/35] fix: rationals that agree as floats are no longer
 ordered as equal

---
 src/atom.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/atom.rs b/src/atom.rs
index 8f09594..dc7ab12 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -320,8 +320,22 @@ impl PartialOrd for Real {
 }
 impl Ord for Real {
     fn cmp(&self, other: &Self) -> cmp::Ordering {
-        use ordered_float::OrderedFloat;
-        OrderedFloat(self.f64_approx()).cmp(&OrderedFloat(other.f64_approx()))
+        // the first 37 decimals of the irrational, rounded down
+        let lower_bound = |i: &Irrational| {
+            let digits = match i {
+                Irrational::E => 27182818284590452353602874713526624977,
+                Irrational::PI => 31415926535897932384626433832795028841,
+            };
+            Rational::from((digits, 10i128.pow(37)))
+        };
+        match (self, other) {
+            (Real::Rational(l), Real::Rational(r)) => l.cmp(r),
+            (Real::Irrational(l), Real::Irrational(r)) => l.cmp(r),
+            (Real::Rational(l), Real::Irrational(r)) => {
+                l.cmp(&lower_bound(r)).then(cmp::Ordering::Less)
+            }
+            (Real::Irrational(_), Real::Rational(_)) => other.cmp(self).reverse(),
+        }
     }
 }
 
-- 
2.43.0


From 8546d339b5e7a2da1cdc426b91c1d8c4f84f66d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:57 +0000
Subject: [PATCH 12/35] fix: sort_args sorts the terms of a sum by a total
 order

---
 src/algos.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/algos.rs b/src/algos.rs
index 1f1f887..6719e31 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -84,11 +84,20 @@ impl Sum {
     }
 
     fn cmp_args(lhs: &Expr, rhs: &Expr) -> cmp::Ordering {
-        match (lhs.atom(), rhs.atom()) {
-            (Atom::Prod(p1), Atom::Prod(p2)) => p1.cmp(p2),
-            (Atom::Var(a), Atom::Var(b)) => a.cmp(b),
-            _ => rhs.cmp(lhs),
-        }
+        // products first, then functions, powers and sums, then variables and numbers last
+        let rank = |e: &Expr| match e.atom() {
+            Atom::Prod(_) => 0,
+            Atom::Func(_) | Atom::Pow(_) | Atom::Sum(_) => 1,
+            Atom::Var(_) => 2,
+            Atom::Rational(_) | Atom::Irrational(_) | Atom::Undef => 3,
+        };
+        rank(lhs)
+            .cmp(&rank(rhs))
+            .then_with(|| match (lhs.atom(), rhs.atom()) {
+                (Atom::Prod(p1), Atom::Prod(p2)) => p1.args().cmp(p2.args()),
+                (Atom::Var(a), Atom::Var(b)) => a.cmp(b),
+                _ => rhs.cmp(lhs),
+            })
     }
 
     fn add_sorted(lhs: &Expr, rhs: &Expr) -> Sum {
-- 
2.43.0


From f3f5ec93733944e2ff48518c4e8550cfb3ab1171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:37 +0000
Subject: [PATCH 13/35] fix: equal sums and products have equal hashes

---
 src/atom.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/atom.rs b/src/atom.rs
index dc7ab12..38968d6 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -531,7 +531,7 @@ impl Func {
     }
 }
 
-#[derive(Clone, Hash, Serialize, Deserialize)]
+#[derive(Clone, Serialize, Deserialize)]
 pub struct Sum {
     pub args: Vec<Expr>,
 }
@@ -562,6 +562,11 @@ impl PartialEq for Sum {
         self.n_args() == other.n_args() && self.cmp(other).is_eq()
     }
 }
+impl hash::Hash for Sum {
+    fn hash<H: hash::Hasher>(&self, state: &mut H) {
+        hash_commutative(&self.args, state);
+    }
+}
 impl PartialOrd for Sum {
     fn partial_cmp(&self, other: &Self) -> Option<cmp::Ordering> {
         Some(self.cmp(other))
@@ -612,7 +617,7 @@ impl Sum {
     }
 }
 
-#[derive(Clone, Hash, Serialize, Deserialize)]
+#[derive(Clone, Serialize, Deserialize)]
 pub struct Prod {
     pub args: Vec<Expr>,
 }
@@ -643,6 +648,11 @@ impl PartialEq for Prod {
         self.n_args() == other.n_args() && self.cmp(other).is_eq()
     }
 }
+impl hash::Hash for Prod {
+    fn hash<H: hash::Hasher>(&self, state: &mut H) {
+        hash_commutative(&self.args, state);
+    }
+}
 impl PartialOrd for Prod {
     fn partial_cmp(&self, other: &Self) -> Option<cmp::Ordering> {
         Some(self.cmp(other))
@@ -757,6 +767,17 @@ impl hash::Hash for Expr {
     }
 }
 
+/// independent of the order of the arguments, just like the equality of sums and products
+fn hash_commutative<H: hash::Hasher>(args: &[Expr], state: &mut H) {
+    let hash = |e: &Expr| {
+        let mut hasher = hash::DefaultHasher::new();
+        hash::Hash::hash(e, &mut hasher);
+        hash::Hasher::finish(&hasher)
+    };
+    state.write_usize(args.len());
+    state.write_u64(args.iter().map(hash).fold(0, u64::wrapping_add));
+}
+
 fn expr_as_cmp_slice<'a>(e: &'a Expr) -> &[Expr] {
     match e.atom() {
         Atom::Sum(_) | Atom::Prod(_) => e.args(),
-- 
2.43.0


From 6ab94c2db74b7f4afff67f7d5871418192b2610e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:48 +0000
Subject: [PATCH 14/35] fix: reduce collects like terms and factors that are
 not neighbours

---
 src/algos.rs | 32 ++++++++++++++++++++++++++++++++
 src/atom.rs  |  4 ++--
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/algos.rs b/src/algos.rs
index 6719e31..3ccc98d 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -188,6 +188,19 @@ impl Sum {
         }
     }
 
+    /// terms of the same kind that are not neighbours are not found by [Self::merge_args]
+    pub(crate) fn collect_like_terms(&self) -> Sum {
+        let mut sum = Sum::zero();
+        self.args.iter().for_each(|a| sum.add_rhs(a));
+        sum.args.retain(|a| !a.is_zero());
+        // e.g 2*(a + b) - (a + b) => a + b
+        if sum.args.iter().any(|a| a.is_sum()) {
+            return sum.collect_like_terms();
+        }
+        sum.args.sort_by(Self::cmp_args);
+        sum
+    }
+
     pub(crate) fn reduce_rec(args: &[Expr]) -> Sum {
         //println!("reduce_rec: {args:?}");
         let res = if args.len() < 2 {
@@ -494,6 +507,25 @@ impl Prod {
         }
     }
 
+    /// factors of the same base that are not neighbours are not found by [Self::merge_args]
+    pub(crate) fn collect_like_factors(&self) -> Prod {
+        let mut prod = Prod::one();
+        self.args.iter().for_each(|a| prod.mul_rhs(a));
+        prod.args.retain(|a| !a.is_one());
+        // factors were combined
+        if prod.args.len() != self.args.len() || prod.args.iter().any(|a| a.is_prod()) {
+            for a in &mut prod.args {
+                if let Atom::Pow(pow) = a.atom() {
+                    let args = [pow.base().clone(), pow.exponent().reduce()];
+                    *a = Pow { args }.reduce();
+                }
+            }
+            return prod.collect_like_factors();
+        }
+        prod.args.sort_by(Self::cmp_args);
+        prod
+    }
+
     pub(crate) fn reduce_rec(args: &[Expr]) -> Prod {
         //println!("reduce_rec: {args:?}");
         if args.len() < 2 {
diff --git a/src/atom.rs b/src/atom.rs
index 38968d6..9232781 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -1324,7 +1324,7 @@ impl SymbolicExpr for Expr {
 
 impl SymbolicExpr for Sum {
     fn reduce(&self) -> Expr {
-        let mut sum = Sum::reduce_rec(&self.args);
+        let mut sum = Sum::reduce_rec(&self.args).collect_like_terms();
         if sum.is_zero() {
             Expr::zero()
         } else if sum.is_undef() {
@@ -1346,7 +1346,7 @@ impl SymbolicExpr for Sum {
 
 impl SymbolicExpr for Prod {
     fn reduce(&self) -> Expr {
-        let mut prod = Prod::reduce_rec(&self.args);
+        let mut prod = Prod::reduce_rec(&self.args).collect_like_factors();
         if prod.is_one() {
             Expr::one()
         } else if prod.is_undef() {
-- 
2.43.0


From e588cf2a941ed4be6f18e837cd6bb1fbaf24587e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:48 +0000
Subject: [PATCH 15/35] fix: zero times an undefined factor is undefined in
 every order

---
 src/algos.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/algos.rs b/src/algos.rs
index 3ccc98d..385d92a 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -255,6 +255,11 @@ impl Prod {
             self.args.push(Expr::undef());
             return;
         }
+        if let A::Prod(prod) = rhs.atom() {
+            // even zero times an undefined factor is undefined
+            prod.args.iter().for_each(|a| self.mul_rhs_raw(a));
+            return;
+        }
 
         if self.is_undef() || self.is_zero() || rhs.is_one() {
             return;
@@ -265,9 +270,6 @@ impl Prod {
         }
 
         match rhs.atom() {
-            A::Prod(prod) => {
-                prod.args.iter().for_each(|a| self.mul_rhs_raw(a));
-            }
             _ => self.args.push(rhs.clone()),
         }
     }
@@ -280,6 +282,11 @@ impl Prod {
             self.args.push(Expr::undef());
             return;
         }
+        if let A::Prod(prod) = rhs.atom() {
+            // even zero times an undefined factor is undefined
+            prod.args.iter().for_each(|a| self.mul_rhs(a));
+            return;
+        }
 
         if self.is_undef() || self.is_zero() || rhs.is_one() {
             return;
@@ -290,9 +297,6 @@ impl Prod {
         }
 
         match rhs.atom() {
-            A::Prod(prod) => {
-                prod.args.iter().for_each(|a| self.mul_rhs(a));
-            }
             A::Rational(r1) => {
                 for a in &mut self.args {
                     if let A::Rational(r2) = a.atom() {
@@ -435,7 +439,10 @@ impl Prod {
 
     fn flat_merge(lhs: &Expr, mut rhs: Prod) -> Prod {
         let lhs = lhs.flatten();
-        if lhs.is_zero() {
+        if lhs.is_undef() || rhs.args.iter().any(|a| a.is_undef()) {
+            rhs.args = vec![Expr::undef()];
+            return rhs;
+        } else if lhs.is_zero() {
             rhs.args = vec![Expr::zero()];
             return rhs;
         } else if lhs.is_one() {
-- 
2.43.0


From ea43e2d9ea18540a405999c34bc2a4ab8f810e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:48 +0000
Subject: [PATCH 16/35] fix: Expr::pow evaluates integer powers of fractions
 like reduce does

---
 src/algos.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algos.rs b/src/algos.rs
index 385d92a..226fe0d 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -832,7 +832,7 @@ impl Expr {
             return Expr::one();
         }
         match (base.atom(), exponent.atom()) {
-            (A::Rational(b), A::Rational(e)) if b.is_int() && e.is_int() => {
+            (A::Rational(b), A::Rational(e)) if e.is_int() => {
                 let (pow, rem) = b.clone().pow(e.clone());
                 if rem.is_zero() {
                     Expr::from(pow)
-- 
2.43.0


From e7c6542013ade48ddfd922a6fc5af3de95aea775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:48 +0000
Subject: [PATCH 17/35] fix: reduce treats (u*v)^n and u^n*v^n alike and
 simplifies the exponent of nested powers

---
 src/atom.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/atom.rs b/src/atom.rs
index 9232781..9c5677e 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -1398,9 +1398,17 @@ impl SymbolicExpr for Pow {
             //TODO: rule?
             (A::Pow(pow), _) => {
                 let mut pow = pow.clone();
-                pow.args[1] *= self.exponent();
+                pow.args[1] = (pow.exponent() * self.exponent()).reduce();
                 pow.reduce()
             }
+            // (u * v)^n => u^n * v^n
+            (A::Prod(prod), A::Rational(e)) if e.is_int() => prod
+                .clone()
+                .map_args(|a| {
+                    let args = [a.clone(), self.exponent().clone()];
+                    *a = Pow { args }.reduce()
+                })
+                .reduce(),
             _ => A::Pow(self.clone()).into(),
         }
     }
-- 
2.43.0


From 39128485ef5337dbb0c623544ce8d5661ded0579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:48 +0000
Subject: [PATCH 18/35] fix: reduce simplifies the negated argument of sin and
 cos

---
 src/atom.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/atom.rs b/src/atom.rs
index 9c5677e..a225d79 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -1437,7 +1437,7 @@ impl SymbolicExpr for Func {
                     if c.is_min_one() {
                         return Expr::min_one() * Expr::sin(x.non_rational_term().unwrap());
                     } else if c.is_neg() {
-                        return Expr::min_one() * Expr::sin(Expr::min_one() * x);
+                        return Expr::min_one() * Expr::sin((Expr::min_one() * x).reduce());
                     }
                 }
 
@@ -1453,7 +1453,7 @@ impl SymbolicExpr for Func {
                     if c.is_min_one() {
                         return Expr::cos(x.non_rational_term().unwrap());
                     } else if c.is_neg() {
-                        return Expr::cos(Expr::min_one() * x);
+                        return Expr::cos((Expr::min_one() * x).reduce());
                     }
                 }
 
-- 
2.43.0


From b6e211ec11ce00f12d82ebb3caca615dfd1a0810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:57 +0000
Subject: [PATCH 19/35] fix: try_as_div of 1/x has numerator 1, not -1

---
 src/atom.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atom.rs b/src/atom.rs
index a225d79..ad37413 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -998,7 +998,7 @@ impl Expr {
 
     pub fn try_as_div(&self) -> Option<(Expr, Expr)> {
         if self.is_pow() && self.exponent().is_min_one() {
-            Some((Expr::min_one(), self.base().clone()))
+            Some((Expr::one(), self.base().clone()))
         } else if self.is_prod() {
             Some(
                 self.iter_args()
-- 
2.43.0


From 610f6f16d7aa707a77dbab45d88a43dc973ebc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:01 +0000
Subject: [PATCH 20/35] fix: variables() treats functions as generalized
 variables instead of panicking

---
 src/atom.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/atom.rs b/src/atom.rs
index ad37413..95214e5 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -1130,7 +1130,9 @@ impl Expr {
                 }
                 vars.insert(self.clone());
             }
-            A::Func(_) => todo!(),
+            A::Func(_) => {
+                vars.insert(self.clone());
+            }
         }
     }
 
-- 
2.43.0


From 972232405363e4abd8768eaa716e292cc0f9104a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:05 +0000
Subject: [PATCH 21/35] fix: MonomialView::check handles functions and powers
 of monomials like coeff() does

---
 src/polynomial.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index 9ca0afa..564025a 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -191,13 +191,13 @@ impl<'a> MonomialView<'a> {
             A::Pow(pow) => match (pow.base(), pow.exponent().atom()) {
                 (base, A::Rational(r))
                     // TODO: negative exponent?
-                    if self.vars.has(base) && r.is_int() && r >= &Rational::ONE =>
+                    if r.is_int() && r >= &Rational::ONE =>
                 {
-                    return true;
+                    return base.as_monomial_view(self.vars).check();
                 }
                 _ => (),
             },
-            A::Func(_) => todo!(),
+            A::Func(_) => (),
         }
         self.monom.free_of_set(self.vars.iter())
     }
-- 
2.43.0


From fec5a0cbdd980563864c0da6e62422302601c066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:26 +0000
Subject: [PATCH 22/35] fix: a sum that is itself a generalized variable has
 degree one

---
 src/polynomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index 564025a..ddfae36 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -336,7 +336,7 @@ impl<'a> PolynomialView<'a> {
         if let A::Sum(Sum { args }) = self.poly.atom() {
             if self.vars.has(self.poly) {
                 let v = self.poly;
-                coeffs.insert([(v.clone(), 0)].into(), Expr::one());
+                coeffs.insert([(v.clone(), 1)].into(), Expr::one());
                 return coeffs;
             }
 
-- 
2.43.0


From b57d86519c088ef245103e96d1def4fa57be59d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:30 +0000
Subject: [PATCH 23/35] fix: collect_terms rejects non-polynomials, not
 monomials

---
 src/polynomial.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index ddfae36..a901d17 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -375,9 +375,9 @@ impl<'a> PolynomialView<'a> {
         } else {
             // self.poly != A::Sum(_)
             if self.poly.as_monomial_view(self.vars).check() {
-                return None;
-            } else {
                 return Some(self.poly.clone());
+            } else {
+                return None;
             }
         };
 
-- 
2.43.0


From 50fdee3140ebfadc41b7a68ee2028afd7c5075f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:35 +0000
Subject: [PATCH 24/35] fix: coeffs_of keeps the other variables in the
 coefficient

---
 src/polynomial.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index a901d17..82eb871 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -103,6 +103,14 @@ impl VarPow {
         }
     }
 
+    /// remove `v` and return its degree
+    fn take(&mut self, v: &GVar) -> Degree {
+        match self.var_deg.iter().position(|(var, _)| var == v) {
+            Some(i) => self.var_deg.remove(i).1,
+            None => 0,
+        }
+    }
+
     fn pow(&mut self, deg: &Degree) {
         self.var_deg.iter_mut().for_each(|(_, d)| *d *= deg);
     }
@@ -307,13 +315,13 @@ impl<'a> PolynomialView<'a> {
     }
 
     pub fn coeffs_of(&self, v: &GVar) -> HashMap<Degree, Coeff> {
-        let coeff = self.coeffs().into_iter().filter_map(|(d, c)| {
-            if let Some(d) = d.degree_of(v) {
-                Some((d.clone(), c))
-            } else if d.is_const() {
-                Some((0, c))
+        // the powers of the other variables belong to the coefficient
+        let coeff = self.coeffs().into_iter().map(|(mut vp, c)| {
+            let d = vp.take(v);
+            if vp.is_const() {
+                (d, c)
             } else {
-                None
+                (d, c * vp.as_expr())
             }
         });
 
-- 
2.43.0


From 8d47e44cf79e71baf4b52c90e23aa749e83297df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:54 +0000
Subject: [PATCH 25/35] fix: VarPow equality and hash do not depend on the
 order of its variables

---
 src/polynomial.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index 82eb871..7bcac85 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -99,7 +99,9 @@ impl VarPow {
         if let Some(degree) = self.find_mut(&v) {
             *degree += d;
         } else {
-            self.var_deg.push((v, d))
+            // kept sorted, x*y and y*x are the same power product
+            let i = self.var_deg.partition_point(|(var, _)| var < &v);
+            self.var_deg.insert(i, (v, d))
         }
     }
 
-- 
2.43.0


From 5d90942216f1c7730136ed97ac099205fd602c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:23 +0000
Subject: [PATCH 26/35] fix: Display separates neighbouring numbers of a
 product

---
 src/sym_fmt.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/sym_fmt.rs b/src/sym_fmt.rs
index d2bfcb3..878c8fc 100644
--- a/src/sym_fmt.rs
+++ b/src/sym_fmt.rs
@@ -443,12 +443,9 @@ impl fmt::Display for FmtAtom {
 pub fn implicit_prefix_mul(e: &FmtAtom) -> bool {
     use FmtAtom as F;
     match e {
-        F::Var(_)
-        | F::Rational(_)
-        | F::Irrational(_)
-        | F::Sum(_)
-        | F::Func(_, _)
-        | F::Pow(_, _) => true,
+        F::Var(_) | F::Irrational(_) | F::Sum(_) | F::Func(_, _) => true,
+        // a digit directly after a number would be read as part of it
+        F::Pow(b, _) => !b.is_rational(),
         _ => false,
     }
 }
-- 
2.43.0


From adc5c23377dbc71900453909a0539534e5a659d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:50 +0000
Subject: [PATCH 27/35] fix: unary minus binds weaker than ^ in expr!

---
 macros/src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index e3c21b4..45df26b 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -120,11 +120,12 @@ impl Expr {
         }
     }
 
-    fn parse_unary_expr(s: ParseStream) -> syn::Result<Expr> {
+    fn parse_unary_expr(s: ParseStream, prec_in: i32) -> syn::Result<Expr> {
         if let Ok(op) = Op::parse(s) {
             match op.kind {
                 OpKind::Sub => {
-                    let operand = Self::parse_operand(s)?;
+                    // -x^2 -> -(x^2)
+                    let operand = Self::parse_bin_expr(s, prec_in.max(OpKind::Pow.precedence()))?;
                     Ok(if let Expr::Num(n) = operand {
                         Expr::Num(-1 * n)
                     } else {
@@ -142,7 +143,7 @@ impl Expr {
         }
     }
     fn parse_bin_expr(s: ParseStream, prec_in: i32) -> syn::Result<Expr> {
-        let mut expr = Self::parse_unary_expr(s)?;
+        let mut expr = Self::parse_unary_expr(s, prec_in)?;
         loop {
             if s.is_empty() {
                 break;
-- 
2.43.0


From 3d04ea7c3033c01d88daf4bdbd01f5151bb025b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:58 +0000
Subject: [PATCH 28/35] fix: seq_substitude does not rewrite inside what it
 just inserted

---
 src/algos.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/algos.rs b/src/algos.rs
index 226fe0d..aaba6dd 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -1319,15 +1319,8 @@ impl Expr {
     where
         T: IntoIterator<Item = (&'a Expr, &'a Expr)>,
     {
-        let mut res = self.clone();
-        subs.into_iter().for_each(|(from, to)| {
-            res.for_each_compl_sub_expr(|sub_expr| {
-                if sub_expr == from {
-                    *sub_expr = to.clone();
-                }
-            });
-        });
-        res
+        subs.into_iter()
+            .fold(self.clone(), |res, (from, to)| res.substitude(from, to))
     }
 
     pub fn concurr_substitude<'a, T>(&self, subs: T) -> Self
-- 
2.43.0


From c6f8d0c087093c4eb667996771feff77ee2d1a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:46 +0000
Subject: [PATCH 29/35] fix: reduce collects like terms until nothing changes

---
 src/algos.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/algos.rs b/src/algos.rs
index aaba6dd..72e492c 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -193,8 +193,9 @@ impl Sum {
         let mut sum = Sum::zero();
         self.args.iter().for_each(|a| sum.add_rhs(a));
         sum.args.retain(|a| !a.is_zero());
-        // e.g 2*(a + b) - (a + b) => a + b
-        if sum.args.iter().any(|a| a.is_sum()) {
+        // e.g 2*(a + b) - (a + b) => a + b,
+        // terms that cancel in between numbers: -pi + 7/2 + pi + 1
+        if sum.args.len() < self.args.len() || sum.args.iter().any(|a| a.is_sum()) {
             return sum.collect_like_terms();
         }
         sum.args.sort_by(Self::cmp_args);
@@ -519,17 +520,17 @@ impl Prod {
         let mut prod = Prod::one();
         self.args.iter().for_each(|a| prod.mul_rhs(a));
         prod.args.retain(|a| !a.is_one());
-        // factors were combined
-        if prod.args.len() != self.args.len() || prod.args.iter().any(|a| a.is_prod()) {
-            for a in &mut prod.args {
-                if let Atom::Pow(pow) = a.atom() {
-                    let args = [pow.base().clone(), pow.exponent().reduce()];
-                    *a = Pow { args }.reduce();
-                }
+        for a in &mut prod.args {
+            if let Atom::Pow(pow) = a.atom() {
+                let args = [pow.base().clone(), pow.exponent().reduce()];
+                *a = Pow { args }.reduce();
             }
-            return prod.collect_like_factors();
         }
         prod.args.sort_by(Self::cmp_args);
+        // factors were combined or are in another order, which may bring up further ones
+        if prod.args != self.args {
+            return prod.collect_like_factors();
+        }
         prod
     }
 
-- 
2.43.0


From afce0f9567f55477c2fea71e17357948ad6999b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:08 +0000
Subject: [PATCH 30/35] fix: common factors with an empty sum or product
 terminate

---
 src/algos.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algos.rs b/src/algos.rs
index 72e492c..38f0ff2 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -1179,7 +1179,7 @@ impl Expr {
                 let (y, (b, u)) = Self::factorize_common_terms(&by, &uy);
                 (x * y, (a * b, u))
             }
-            (_, A::Prod(_)) => {
+            (_, A::Prod(prod)) if !prod.args.is_empty() => {
                 let (fac, (r, l)) = Self::factorize_common_terms(rhs, lhs);
                 (fac, (l, r))
             }
@@ -1222,7 +1222,7 @@ impl Expr {
                 //println!("");
                 (xy, (a * b + &c * d, ua * c))
             }
-            (_, A::Sum(_)) => {
+            (_, A::Sum(sum)) if !sum.args.is_empty() => {
                 let (fac, (r, l)) = Self::factorize_common_terms(rhs, lhs);
                 (fac, (l, r))
             }
-- 
2.43.0


From 8a7230724b6d2f3b9788078ea47b0c0f4610dde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:46 +0000
Subject: [PATCH 31/35] fix: common factors of zero and a power of zero are
 defined

---
 src/algos.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/algos.rs b/src/algos.rs
index 38f0ff2..17070e1 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -1228,7 +1228,10 @@ impl Expr {
             }
             (_, _) => match (lhs.exponent().atom(), rhs.exponent().atom()) {
                 (A::Rational(r1), A::Rational(r2))
-                    if r1.is_pos() && r2.is_pos() && rhs.base() == lhs.base() =>
+                    if r1.is_pos()
+                        && r2.is_pos()
+                        && rhs.base() == lhs.base()
+                        && !lhs.base().is_zero() =>
                 {
                     let e = std::cmp::min(r1, r2).clone();
                     let b = rhs.base();
-- 
2.43.0


From c0f047ce7d4696490ce65354323f95b5f545141d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:44 +0000
Subject: [PATCH 32/35] fix: zero divided by zero is undefined

---
 src/algos.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algos.rs b/src/algos.rs
index 17070e1..c54d250 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -760,7 +760,7 @@ impl Expr {
 
         if lhs.is_undef() || rhs.is_undef() {
             Expr::undef()
-        } else if lhs == rhs {
+        } else if lhs == rhs && !rhs.is_zero() {
             Expr::one()
         } else {
             let min_one = Expr::from(-1);
-- 
2.43.0


From 1bcb18adfb975bfe5eabf8819374813e358fb94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:53 +0000
Subject: [PATCH 33/35] fix: reduce collects a multiple of a sum that turns
 into the sum itself without panicking

---
 src/algos.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/algos.rs b/src/algos.rs
index c54d250..7a16807 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -179,7 +179,10 @@ impl Sum {
                     // println!("  merge_args2: {p:?} (+) {q_rest:?} -> {rhs:?}");
                     rhs
                 } else {
-                    panic!("Illegal reduction: {q:?} + {p:?} -> h")
+                    // one of the two is a sum itself, e.g. 2*(a + b) - (a + b) -> a + b:
+                    // merge its terms into the remaining ones
+                    let rest = Sum::merge_args(p_rest, q_rest);
+                    return Sum::merge_args(&h, &rest.args);
                 };
 
                 // println!("flat_merge: {:?} (+) {:?}", h[0], rhs);
-- 
2.43.0


From bdc9007929ff6031624cbdb0f1be143229b2175b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:53 +0000
Subject: [PATCH 34/35] fix: multiplying powers of the same product combines
 their exponents

---
 src/algos.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/algos.rs b/src/algos.rs
index 7a16807..07df8cf 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -311,7 +311,9 @@ impl Prod {
                 self.args.push(rhs.clone())
             }
             A::Pow(pow) => {
-                if pow.base().is_prod() {
+                if let Some(arg) = self.args.iter_mut().find(|a| &a.base() == pow.base()) {
+                    *arg = Expr::pow(arg.base(), arg.exponent() + pow.exponent())
+                } else if pow.base().is_prod() {
                     let rhs_terms = pow.base().args();
                     let expon = pow.exponent();
 
@@ -332,8 +334,6 @@ impl Prod {
                         let rem = Expr::pow(&Prod { args: remainder }.into(), expon);
                         self.args.push(rem)
                     }
-                } else if let Some(arg) = self.args.iter_mut().find(|a| &a.base() == pow.base()) {
-                    *arg = Expr::pow(arg.base(), arg.exponent() + pow.exponent())
                 } else {
                     self.args.push(rhs.clone())
                 }
-- 
2.43.0


From a402e36921b6533015cd33dfc326cb6c0b82a7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:53 +0000
Subject: [PATCH 35/35] fix: derivative of a power with exponent one is defined
 at base zero

---
 src/algos.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/algos.rs b/src/algos.rs
index 07df8cf..15da618 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -895,6 +895,8 @@ impl Expr {
                 // d(a * b)/dx = da/dx * b + a * db/dx
                 term.derivative(x) * &rest + term * rest.derivative(x)
             }
+            // 0^1 has a derivative, 0^0 in the power rule has no value
+            A::Pow(pow) if pow.exponent().is_one() => pow.base().derivative(x),
             A::Pow(pow) => {
                 let v = pow.base();
                 let w = pow.exponent();
-- 
2.43.0

