From 769217e5e74a7f35e109129b17ea41df9d8e7203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:03 +0000
Subject: [PATCH 01/32] fix: fmod derivative w.r.t. the divisor truncates the
 quotient towards zero

---
 src/XAD/BinaryMathFunctors.hpp | 2 +-
 src/XAD/UnaryMathFunctors.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/XAD/BinaryMathFunctors.hpp b/src/XAD/BinaryMathFunctors.hpp
index 9c9fd51..e1affcc 100644
--- a/src/XAD/BinaryMathFunctors.hpp
+++ b/src/XAD/BinaryMathFunctors.hpp
@@ -217,7 +217,7 @@ struct fmod_op
 {
     XAD_INLINE Scalar operator()(const Scalar& a, const Scalar& b) const { return fmod(a, b); }
     XAD_INLINE Scalar derivative_a(const Scalar&, const Scalar&) const { return Scalar(1); }
-    XAD_INLINE Scalar derivative_b(const Scalar& a, const Scalar& b) const { return -floor(a / b); }
+    XAD_INLINE Scalar derivative_b(const Scalar& a, const Scalar& b) const { return -trunc(a / b); }
 };
 
 template <class Scalar>
diff --git a/src/XAD/UnaryMathFunctors.hpp b/src/XAD/UnaryMathFunctors.hpp
index e919c89..e8d778a 100644
--- a/src/XAD/UnaryMathFunctors.hpp
+++ b/src/XAD/UnaryMathFunctors.hpp
@@ -192,7 +192,7 @@ struct fabs_op : abs_op<Scalar>
     };
 
 XAD_MAKE_UNARY_BINFUNCTOR(pow, Scalar(b) * Scalar(pow(a, b - T2(1))), log(b) * v)
-XAD_MAKE_UNARY_BINFUNCTOR(fmod, Scalar(1), -floor(Scalar(b) / a))
+XAD_MAKE_UNARY_BINFUNCTOR(fmod, Scalar(1), -trunc(Scalar(b) / a))
 XAD_MAKE_UNARY_BINFUNCTOR(atan2, Scalar(b) / (a * a + Scalar(b * b)),
                           -Scalar(b) / (a * a + Scalar(b * b)))
 XAD_MAKE_UNARY_BINFUNCTOR(nextafter, Scalar(1), Scalar(0))
-- 
2.43.0


From 603ff6a5e0b2e615c201e7582fc555c3da9576dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:03 +0000
Subject: [PATCH 02/32] fix: remainder and remquo derivatives use the full
 quotient, not remquo's low-order bits

---
 src/XAD/BinaryMathFunctors.hpp | 20 +++++++++-----------
 src/XAD/UnaryMathFunctors.hpp  | 20 +++++++++-----------
 2 files changed, 18 insertions(+), 22 deletions(-)

diff --git a/src/XAD/BinaryMathFunctors.hpp b/src/XAD/BinaryMathFunctors.hpp
index e1affcc..44b5324 100644
--- a/src/XAD/BinaryMathFunctors.hpp
+++ b/src/XAD/BinaryMathFunctors.hpp
@@ -264,29 +264,27 @@ struct remainder_op
     XAD_INLINE Scalar derivative_a(const Scalar&, const Scalar&) const { return Scalar(1); }
     XAD_INLINE Scalar derivative_b(const Scalar& a, const Scalar& b) const
     {
-        // function is rare enough that there's no need to optimize this better
-        int n_;
-        using std::remquo;
-        XAD_UNUSED_VARIABLE(remquo(a, b, &n_));
-        return Scalar(-n_);
+        // the quotient returned by remquo only has its low-order bits, so recover the full one
+        return -round((a - remainder(a, b)) / b);
     }
 };
 
 template <class Scalar>
 struct remquo_op
 {
-    XAD_INLINE explicit remquo_op(int* quo) : quo_(quo), q_() {}
+    XAD_INLINE explicit remquo_op(int* quo) : quo_(quo) {}
     XAD_INLINE Scalar operator()(const Scalar& a, const Scalar& b) const
     {
         using std::remquo;
-        Scalar v = remquo(a, b, &q_);
-        *quo_ = q_;
-        return v;
+        return remquo(a, b, quo_);
     }
     XAD_INLINE Scalar derivative_a(const Scalar&, const Scalar&) const { return Scalar(1); }
-    XAD_INLINE Scalar derivative_b(const Scalar&, const Scalar&) const { return Scalar(-q_); }
+    XAD_INLINE Scalar derivative_b(const Scalar& a, const Scalar& b) const
+    {
+        // the quotient returned by remquo only has its low-order bits, so recover the full one
+        return -round((a - remainder(a, b)) / b);
+    }
     int* quo_;
-    mutable int q_;
 };
 
 template <class Scalar>
diff --git a/src/XAD/UnaryMathFunctors.hpp b/src/XAD/UnaryMathFunctors.hpp
index e8d778a..baa4e1d 100644
--- a/src/XAD/UnaryMathFunctors.hpp
+++ b/src/XAD/UnaryMathFunctors.hpp
@@ -374,11 +374,8 @@ struct scalar_remainder1_op
     XAD_INLINE Scalar operator()(const Scalar& a) const { return remainder(b_, a); }
     XAD_INLINE Scalar derivative(const Scalar& a) const
     {
-        // function is rare enough that there's no need to optimize this better
-        int n_;
-        using std::remquo;
-        (void)remquo(b_, a, &n_);
-        return Scalar(-n_);
+        // the quotient returned by remquo only has its low-order bits, so recover the full one
+        return -round((Scalar(b_) - Scalar(remainder(b_, a))) / a);
     }
     T2 b_;
 };
@@ -395,18 +392,19 @@ struct scalar_remainder2_op
 template <class Scalar, class T2>
 struct scalar_remquo1_op
 {
-    XAD_INLINE scalar_remquo1_op(const T2& b, int* quo) : b_(b), quo_(quo), q_() {}
+    XAD_INLINE scalar_remquo1_op(const T2& b, int* quo) : b_(b), quo_(quo) {}
     XAD_INLINE Scalar operator()(const Scalar& a) const
     {
         using std::remquo;
-        Scalar v = remquo(b_, a, &q_);
-        *quo_ = q_;
-        return v;
+        return remquo(b_, a, quo_);
+    }
+    XAD_INLINE Scalar derivative(const Scalar& a) const
+    {
+        // the quotient returned by remquo only has its low-order bits, so recover the full one
+        return -round((Scalar(b_) - Scalar(remainder(b_, a))) / a);
     }
-    XAD_INLINE Scalar derivative(const Scalar&) const { return Scalar(-q_); }
     T2 b_;
     int* quo_;
-    mutable int q_;
 };
 
 template <class Scalar, class T2>
-- 
2.43.0


From de7c1853fd3245e6de0355478ccee7d59ac18dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:04 +0000
Subject: [PATCH 03/32] fix: ldexp and frexp derivatives for negative and large
 exponents

---
 src/XAD/UnaryMathFunctors.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/XAD/UnaryMathFunctors.hpp b/src/XAD/UnaryMathFunctors.hpp
index baa4e1d..ba960e5 100644
--- a/src/XAD/UnaryMathFunctors.hpp
+++ b/src/XAD/UnaryMathFunctors.hpp
@@ -203,7 +203,7 @@ struct ldexp_op
 {
     XAD_INLINE explicit ldexp_op(int exp) : exp_(exp) {}
     XAD_INLINE Scalar operator()(const Scalar& a) const { return ldexp(a, exp_); }
-    XAD_INLINE Scalar derivative(const Scalar&) const { return Scalar(1 << exp_); }
+    XAD_INLINE Scalar derivative(const Scalar&) const { return ldexp(Scalar(1), exp_); }
     int exp_;
 };
 
@@ -217,7 +217,7 @@ struct frexp_op
         // we assume that operator() and derivative are called in succession and in
         // this order, which is always the case in XAD. Therefore we can read the
         // value in *exp_ here to calculate the derivative
-        return Scalar(1.0) / Scalar(1 << *exp_);
+        return ldexp(Scalar(1), -*exp_);
     }
     int* exp_;
 };
-- 
2.43.0


From ca4cb1f5e3f5266d5cd18c53b41732bd6826483d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:48 +0000
Subject: [PATCH 04/32] fix: copysign takes the sign of a negative zero or NaN
 first argument from its sign bit

---
 src/XAD/UnaryOperators.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/XAD/UnaryOperators.hpp b/src/XAD/UnaryOperators.hpp
index fcb6592..faa6057 100644
--- a/src/XAD/UnaryOperators.hpp
+++ b/src/XAD/UnaryOperators.hpp
@@ -461,7 +461,7 @@ XAD_INLINE typename ExprTraits<Derived>::value_type copysign(const Expression<Sc
 {
     using T = typename ExprTraits<Derived>::value_type;
     bool sign = signbit(y);
-    if (x < 0)
+    if (signbit(x))
     {
         if (sign)
             return T(x);
-- 
2.43.0


From 6f09e638742f859403bfae5cbb052a3c41d798a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:47 +0000
Subject: [PATCH 05/32] fix: max and min of nested active types select an
 operand instead of cancelling in a + b -/+ abs(a - b)

---
 src/XAD/BinaryMathFunctors.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/XAD/BinaryMathFunctors.hpp b/src/XAD/BinaryMathFunctors.hpp
index 44b5324..9807132 100644
--- a/src/XAD/BinaryMathFunctors.hpp
+++ b/src/XAD/BinaryMathFunctors.hpp
@@ -104,7 +104,7 @@ struct smooth_abs_op
 
 //////// max
 
-// need this complicated expression to have a kind-of smooth 2nd derivative
+// at equal operands nested types average them, to have a kind-of smooth 2nd derivative
 template <class Scalar>
 struct max_op
 {
@@ -112,8 +112,13 @@ struct max_op
     {
         if (!ExprTraits<Scalar>::isExpr)
             return (a < b) ? b : a;
+        // selecting keeps the value exact where a + b + abs(a - b) would cancel or overflow
+        else if (a < b)
+            return b;
+        else if (b < a)
+            return a;
         else
-            return (a + b + abs(a - b)) / Scalar(2);
+            return (a + b) / Scalar(2);
     }
     XAD_INLINE Scalar derivative_a(const Scalar& a, const Scalar& b) const
     {
@@ -160,8 +165,13 @@ struct min_op
     {
         if (!ExprTraits<Scalar>::isExpr)
             return (a < b) ? a : b;
+        // selecting keeps the value exact where a + b - abs(a - b) would cancel or overflow
+        else if (a < b)
+            return a;
+        else if (b < a)
+            return b;
         else
-            return (a + b - abs(a - b)) / Scalar(2);
+            return (a + b) / Scalar(2);
     }
     XAD_INLINE Scalar derivative_a(const Scalar& a, const Scalar& b) const
     {
-- 
2.43.0


From 957837cdc14b1a7172e6442a5e6c7ca157f4fad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:02 +0000
Subject: [PATCH 06/32] fix: do not skip adjoints whose value is zero but whose
 derivatives are not

The reverse sweep passed over a statement when the adjoint compared equal to
zero, which for nested active types looks at the value only: the second
derivative of (x-1)*(x-1) at 1 came out as 0.
---
 src/Tape.cpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index 88b2c43..abc78fd 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -547,6 +547,25 @@ XAD_FORCE_INLINE double fused_multiply_add(double a, double b, double c)
 
 XAD_FORCE_INLINE float fused_multiply_add(float a, float b, float c) { return std::fma(a, b, c); }
 
+// an adjoint that is an active variable may have a zero value while carrying non-zero derivatives
+XAD_FORCE_INLINE bool is_zero_adjoint(double a) { return a == 0.0; }
+XAD_FORCE_INLINE bool is_zero_adjoint(float a) { return a == 0.0f; }
+
+template <class T>
+bool is_zero_adjoint(const FReal<T>& a);
+
+template <class T>
+bool is_zero_adjoint(const AReal<T>& a)
+{
+    return !a.shouldRecord() && is_zero_adjoint(a.getValue());
+}
+
+template <class T>
+bool is_zero_adjoint(const FReal<T>& a)
+{
+    return is_zero_adjoint(a.getValue()) && is_zero_adjoint(a.getDerivative());
+}
+
 }  // namespace detail
 
 template <class T>
@@ -581,7 +600,7 @@ void Tape<T>::computeAdjointsToImpl(position_type pos, position_type start)
             auto st = *it;
             auto a = derivatives_[st.second];
             derivatives_[st.second] = T();
-            if (a != T())
+            if (!detail::is_zero_adjoint(a))
             {
                 for (auto opi = it[-1].first, ope = st.first; opi != ope; ++opi)
                 {
@@ -599,7 +618,7 @@ void Tape<T>::computeAdjointsToImpl(position_type pos, position_type start)
             auto st = chunk_it[0][endidx];
             auto a = derivatives_[st.second];
             derivatives_[st.second] = T();
-            if (a != T())
+            if (!detail::is_zero_adjoint(a))
             {
                 for (auto opi = prevendpoint, ope = st.first; opi != ope; ++opi)
                 {
-- 
2.43.0


From b43983f5af7e3be8e4344737633677b06b409d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:02 +0000
Subject: [PATCH 07/32] fix: size the derivatives for all registered variables
 before rolling back

Statements recorded after a derivative was first accessed made computeAdjoints
read and write beyond the end of the derivatives vector, as did
computeAdjointsTo before any derivative was accessed.
---
 src/Tape.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index abc78fd..27edc89 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -494,6 +494,9 @@ void Tape<T>::computeAdjoints()
 template <class T>
 void Tape<T>::computeAdjointsTo(position_type pos)
 {
+    // variables may have been registered since the derivatives were last accessed
+    initDerivatives();
+
     position_type start = position_type(statement_.size() - 1);
     LOG_DEBUG("number checkpoints: " << checkpoints_.size());
     for (unsigned i = unsigned(checkpoints_.size()); i > 0; --i)
-- 
2.43.0


From d34826ae04b92fe3965955b36f072b0822b8203e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:08 +0000
Subject: [PATCH 08/32] fix: resetTo with slot re-use no longer loops forever
 or leaves dangling ranges

Trimming the re-usable ranges after clearDerivativesAfter never ended when a
range straddled the bound, and erased ranges were still referred to by the
recording's iterators.
---
 src/Tape.cpp | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index 27edc89..e0a5a4d 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -698,23 +698,22 @@ void Tape<T>::resetTo(position_type pos)
         checkpoints_.erase(newend, checkpoints_.end());
     }
 #ifdef XAD_TAPE_REUSE_SLOTS
-    if (!reusable_ranges_.empty())
+    while (!reusable_ranges_.empty() &&
+           reusable_ranges_.back().second() > currentRec_->maxDerivative_)
     {
         auto it = reusable_ranges_.end();
         --it;
-        while (!reusable_ranges_.empty() && it->second() >= currentRec_->maxDerivative_)
+        if (it->first() >= currentRec_->maxDerivative_)
         {
-            if (it->first() >= currentRec_->maxDerivative_)
-            {
-                auto it2 = it;
-                --it2;
-                reusable_ranges_.erase(it);
-                it = it2;
-            }
-            else
-            {
-                it->second(currentRec_->maxDerivative_);
-            }
+            if (currentRec_->startRange_ == it)
+                currentRec_->startRange_ = reusable_ranges_.end();
+            if (currentRec_->latestRange_ == it)
+                currentRec_->latestRange_ = reusable_ranges_.end();
+            reusable_ranges_.erase(it);
+        }
+        else
+        {
+            it->second(currentRec_->maxDerivative_);
         }
     }
 #endif
-- 
2.43.0


From 7a956bce555cc73c1087f8bd92c1d9e78accfd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:08 +0000
Subject: [PATCH 09/32] fix: a variable given a re-used slot after
 clearDerivativesAfter has a derivative

---
 src/Tape.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index e0a5a4d..bb5cd52 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -135,6 +135,8 @@ typename Tape<T>::slot_type Tape<T>::registerVariableReuseSlots()
     // insert in a reusable slot
     auto& first_range = *currentRec_->startRange_;
     auto ret = first_range.insert();
+    // the slot may lie above the derivatives kept by clearDerivativesAfter
+    currentRec_->maxDerivative_ = (std::max)(slot_type(ret + 1), currentRec_->maxDerivative_);
     if (first_range.isClosed())
     {
         if (currentRec_->latestRange_ == currentRec_->startRange_)
-- 
2.43.0


From c01bba07962e24cde9b324e3d9a8c6b65ada4e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:29 +0000
Subject: [PATCH 10/32] fix: clearDerivativesAfter keeps the derivatives of all
 variables known at the position

It dropped every slot above the one assigned last, so at the start of a
recording, behind a checkpoint, or where the last statement assigned an older
variable, derivatives before the position were lost and accessing them threw.
---
 src/Tape.cpp     | 14 +++++++++++---
 src/XAD/Tape.hpp |  2 ++
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index bb5cd52..fcb3457 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -376,6 +376,7 @@ void Tape<T>::newRecording()
     checkpoints_.clear();
     foldSubrecordings();
     currentRec_->maxDerivative_ = currentRec_->iDerivative_ + 1;
+    currentRec_->recordedFrom_ = currentRec_->iDerivative_;
     statement_.push_back(std::make_pair(size_type(slot_.size()), slot_type(INVALID_SLOT)));
     currentRec_->derivativesInitialized_ = false;
 }
@@ -761,9 +762,16 @@ bool Tape<T>::haveCallbacks() const
 template <class T>
 void Tape<T>::clearDerivativesAfter(position_type pos)
 {
-    auto& st = statement_[pos];
-    derivatives_.resize(st.second + 1);
-    currentRec_->maxDerivative_ = st.second + 1;
+    // the variables known at this position are those registered before the recording started
+    // and all that have been assigned up to it - not just the last one
+    slot_type last = currentRec_->recordedFrom_;
+    for (position_type i = 1; i <= pos; ++i)
+    {
+        if (statement_[i].second != INVALID_SLOT && statement_[i].second >= last)
+            last = statement_[i].second + 1;
+    }
+    derivatives_.resize(last);
+    currentRec_->maxDerivative_ = last;
 }
 
 template <class T>
diff --git a/src/XAD/Tape.hpp b/src/XAD/Tape.hpp
index bd4c709..6b105ca 100644
--- a/src/XAD/Tape.hpp
+++ b/src/XAD/Tape.hpp
@@ -284,6 +284,7 @@ class Tape
               opStartPos_(),
               startDerivative_(),
               prevMax_(slot_type(-1)),
+              recordedFrom_(),
 #ifdef XAD_TAPE_REUSE_SLOTS
               startRange_(parent->reusable_ranges_.end()),
               latestRange_(parent->reusable_ranges_.end()),
@@ -299,6 +300,7 @@ class Tape
         slot_type opStartPos_;
         slot_type startDerivative_;
         slot_type prevMax_;
+        slot_type recordedFrom_;  // number of slots in use when the recording was started
 #ifdef XAD_TAPE_REUSE_SLOTS
         range_list::iterator startRange_;
         range_list::iterator latestRange_;
-- 
2.43.0


From e4ababc0b2612e729dd162424efe21c7eb566c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:27 +0000
Subject: [PATCH 11/32] fix: free slots of a nested recording are kept apart
 from those of the enclosing one

With free slots in the enclosing recording, the first slot range of a nested
recording was never made its start: ranges were not re-used, not dropped at the
end of the nested recording, and the search for the range of a further slot
dereferenced the end iterator of the list.
---
 src/Tape.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index fcb3457..1ea6306 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -201,13 +201,15 @@ void Tape<T>::unregisterVariableReuseSlots(slot_type slot)
                 isValid = isValid || currentRec_->startRange_ == it;
             assert(isValid && "startRange is invalid");
 #endif
-            if (reusable_ranges_.empty() || slot > reusable_ranges_.back().second())
+            if (currentRec_->startRange_ == reusable_ranges_.end() ||
+                slot > reusable_ranges_.back().second())
             {
-                // insert a new range at the end
+                // insert a new range at the end - the first one of this (nested) recording if it
+                // has none, as the ranges in the list are those of the enclosing recordings
                 reusable_ranges_.emplace_back(slot, slot + 1);
                 currentRec_->latestRange_ = reusable_ranges_.end();
                 --currentRec_->latestRange_;
-                if (reusable_ranges_.size() == 1)
+                if (currentRec_->startRange_ == reusable_ranges_.end())
                     currentRec_->startRange_ = currentRec_->latestRange_;
             }
             else
-- 
2.43.0


From f1b97e2f4d35dc3df2d2b1d79c72b34875508e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:37 +0000
Subject: [PATCH 12/32] fix: variables of a checkpoint callback do not
 overwrite adjoints that are still to be propagated

The callback's variables were given the slots of variables that had gone out of
scope since they were recorded. The adjoints of those may be pending while the
callback runs, if they were computed in front of the checkpoint and used behind
it, and were overwritten: wrong derivatives without any diagnostic.
---
 src/Tape.cpp     | 20 ++++++++++++++++++++
 src/XAD/Tape.hpp |  7 +++++++
 2 files changed, 27 insertions(+)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index 1ea6306..a8f30d3 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -523,7 +523,27 @@ void Tape<T>::computeAdjointsTo(position_type pos)
         // subrecording
         currentRec_->prevMax_ = currentRec_->maxDerivative_;
 
+        // the adjoints of variables that do not exist any more may not have been propagated yet, so
+        // the variables registered by the callback must not get their slots
+        const SubRecording saved(*currentRec_);
+        currentRec_->iDerivative_ = (std::max)(saved.iDerivative_, saved.maxDerivative_);
+        currentRec_->callbackStart_ = currentRec_->iDerivative_;
+        currentRec_->numCallbackDerivatives_ = 0;
+#ifdef XAD_TAPE_REUSE_SLOTS
+        currentRec_->startRange_ = currentRec_->latestRange_ = reusable_ranges_.end();
+#endif
+
         cb->computeAdjoint(this);
+
+#ifdef XAD_TAPE_REUSE_SLOTS
+        reusable_ranges_.erase(currentRec_->startRange_, reusable_ranges_.end());
+        currentRec_->startRange_ = saved.startRange_;
+        currentRec_->latestRange_ = saved.latestRange_;
+#endif
+        if (currentRec_->numCallbackDerivatives_ == 0)  // none of its variables is left
+            currentRec_->iDerivative_ = saved.iDerivative_;
+        currentRec_->callbackStart_ = saved.callbackStart_;
+        currentRec_->numCallbackDerivatives_ = saved.numCallbackDerivatives_;
         currentRec_->prevMax_ = INVALID_SLOT;
         // std::cout << "********Reset to " << end-1 << std::endl;
 
diff --git a/src/XAD/Tape.hpp b/src/XAD/Tape.hpp
index 6b105ca..35f4b10 100644
--- a/src/XAD/Tape.hpp
+++ b/src/XAD/Tape.hpp
@@ -204,6 +204,7 @@ class Tape
     slot_type registerVariable()
     {
         ++currentRec_->numDerivatives_;
+        ++currentRec_->numCallbackDerivatives_;
 #ifdef XAD_TAPE_REUSE_SLOTS
         return registerVariableReuseSlots();
 #else
@@ -213,6 +214,8 @@ class Tape
 
     XAD_INLINE void unregisterVariable(slot_type slot)
     {
+        if (slot >= currentRec_->callbackStart_)
+            --currentRec_->numCallbackDerivatives_;
 #ifndef XAD_TAPE_REUSE_SLOTS
         --currentRec_->numDerivatives_;
         if (slot == currentRec_->iDerivative_ - 1)  // it's at the end of the tape
@@ -285,6 +288,8 @@ class Tape
               startDerivative_(),
               prevMax_(slot_type(-1)),
               recordedFrom_(),
+              callbackStart_(slot_type(-1)),
+              numCallbackDerivatives_(),
 #ifdef XAD_TAPE_REUSE_SLOTS
               startRange_(parent->reusable_ranges_.end()),
               latestRange_(parent->reusable_ranges_.end()),
@@ -301,6 +306,8 @@ class Tape
         slot_type startDerivative_;
         slot_type prevMax_;
         slot_type recordedFrom_;  // number of slots in use when the recording was started
+        slot_type callbackStart_;  // first slot for variables of the checkpoint callback running
+        slot_type numCallbackDerivatives_;  // how many of them are registered
 #ifdef XAD_TAPE_REUSE_SLOTS
         range_list::iterator startRange_;
         range_list::iterator latestRange_;
-- 
2.43.0


From 43a83b932e6079e243bfe8f7ad469199f4217783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:26 +0000
Subject: [PATCH 13/32] fix: a moved-from ChunkContainer is empty

It kept its size without any chunks, so that its destructor destroyed elements
through an empty chunk list when they are not trivially destructible: moving a
Tape of a higher-order type crashed.
---
 src/XAD/ChunkContainer.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/XAD/ChunkContainer.hpp b/src/XAD/ChunkContainer.hpp
index 9e359cc..22f6520 100644
--- a/src/XAD/ChunkContainer.hpp
+++ b/src/XAD/ChunkContainer.hpp
@@ -135,14 +135,18 @@ class ChunkContainer
     ChunkContainer(ChunkContainer&& o) noexcept
         : chunkList_(std::move(o.chunkList_)), chunk_(o.chunk_), idx_(o.idx_)
     {
+        o.chunk_ = o.idx_ = 0;  // the elements have gone with the chunks
     }
 
     ChunkContainer& operator=(ChunkContainer&& o)
     {
+        if (this == &o)
+            return *this;
         _free_memory();
         chunkList_ = std::move(o.chunkList_);
         chunk_ = o.chunk_;
         idx_ = o.idx_;
+        o.chunk_ = o.idx_ = 0;
         return *this;
     }
 
-- 
2.43.0


From ada2e84c6e70b6795dced04451190bf3bf854121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:47 +0000
Subject: [PATCH 14/32] fix: moving a tape keeps it active, its free slots
 valid and its callbacks owned once

Moving an active tape terminated (TapeAlreadyActive in a noexcept function);
with slot re-use, the iterators to the end of the range list kept pointing into
the tape moved from; move assignment leaked the callbacks owned so far.
---
 src/Tape.cpp     | 35 +++++++++++++++++++++++++++++------
 src/XAD/Tape.hpp |  1 +
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index a8f30d3..ae35c49 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -67,31 +67,54 @@ Tape<T>::Tape(Tape&& o) noexcept
       nestedRecordings_(std::move(o.nestedRecordings_)),
       currentRec_(o.currentRec_)
 {
-    if (o.isActive())
-        activate();
-    else
-        deactivate();
+    takeOver(o);
 }
 
 template <class T>
 Tape<T>& Tape<T>::operator=(Tape&& o) noexcept
 {
+    if (this == &o)
+        return *this;
+    for (auto p : callbacks_) delete p;
     multiplier_ = std::move(o.multiplier_);
     slot_ = std::move(o.slot_);
     statement_ = std::move(o.statement_);
     derivatives_ = std::move(o.derivatives_);
     checkpoints_ = std::move(o.checkpoints_);
     callbacks_ = std::move(o.callbacks_);
+    o.callbacks_.clear();
 #ifdef XAD_TAPE_REUSE_SLOTS
     reusable_ranges_ = std::move(o.reusable_ranges_);
 #endif
     nestedRecordings_ = std::move(o.nestedRecordings_);
     currentRec_ = o.currentRec_;
+    takeOver(o);
+    return *this;
+}
+
+template <class T>
+void Tape<T>::takeOver(Tape& o) noexcept
+{
+    // the tape moved from being active, this one takes its place
     if (o.isActive())
-        activate();
+        active_tape_ = this;
     else
         deactivate();
-    return *this;
+#ifdef XAD_TAPE_REUSE_SLOTS
+    // the end of the range list has not moved with the ranges
+    std::stack<SubRecording> recs;
+    for (; !nestedRecordings_.empty(); nestedRecordings_.pop()) recs.push(nestedRecordings_.top());
+    for (; !recs.empty(); recs.pop())
+    {
+        SubRecording rec(recs.top());
+        if (rec.startRange_ == o.reusable_ranges_.end())
+            rec.startRange_ = reusable_ranges_.end();
+        if (rec.latestRange_ == o.reusable_ranges_.end())
+            rec.latestRange_ = reusable_ranges_.end();
+        nestedRecordings_.push(rec);
+    }
+    currentRec_ = &nestedRecordings_.top();
+#endif
 }
 
 template <class T>
diff --git a/src/XAD/Tape.hpp b/src/XAD/Tape.hpp
index 35f4b10..0557ad7 100644
--- a/src/XAD/Tape.hpp
+++ b/src/XAD/Tape.hpp
@@ -276,6 +276,7 @@ class Tape
 
     void foldSubrecordings();
     void foldSubrecording();
+    void takeOver(Tape& o) noexcept;
 
     struct SubRecording
     {
-- 
2.43.0


From b1fba9ba4e0962ca623d381e00d0b57dec93d8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:14 +0000
Subject: [PATCH 15/32] fix: ChunkContainer resize, assign and
 uninitialized_extend across chunk boundaries

---
 src/XAD/ChunkContainer.hpp | 56 ++++++++++----------------------------
 1 file changed, 14 insertions(+), 42 deletions(-)

diff --git a/src/XAD/ChunkContainer.hpp b/src/XAD/ChunkContainer.hpp
index 22f6520..bb3400f 100644
--- a/src/XAD/ChunkContainer.hpp
+++ b/src/XAD/ChunkContainer.hpp
@@ -224,7 +224,7 @@ class ChunkContainer
     {
         reserve(size() + i);
         idx_ += i;
-        if (idx_ > chunk_size)
+        while (idx_ > chunk_size)
         {
             ++chunk_;
             idx_ = idx_ - chunk_size;
@@ -275,7 +275,13 @@ class ChunkContainer
             ix = 0;
         }
 
-        size_type lc = getLowPart(s);  // maybe 0
+        size_type lc = getLowPart(s);
+        if (lc == 0)  // the last chunk is full, there is none after it
+        {
+            chunk_ = nc_new - 1;
+            idx_ = chunk_size;
+            return;
+        }
         std::uninitialized_fill_n(reinterpret_cast<value_type*>(chunkList_[nc_new]) + ix, lc - ix,
                                   v);
         idx_ = lc;
@@ -375,44 +381,12 @@ class ChunkContainer
             return;
         }
 
-        check_space(s);
-        size_type nc = getHighPart(s);
-        size_type lc = getLowPart(s);
-
-        if (s <= size())
-        {
-            if (s < size())
-                destructAllImpl<std::is_trivially_destructible<value_type>::value>::make(this, s,
-                                                                                         size());
-            // all assignments
-            for (size_type i = 0; i < nc; ++i)
-                std::fill(reinterpret_cast<value_type*>(chunkList_[i]),
-                          reinterpret_cast<value_type*>(chunkList_[i]) + chunk_size, v);
-            std::fill(reinterpret_cast<value_type*>(chunkList_[chunk_]),
-                      reinterpret_cast<value_type*>(chunkList_[chunk_]) + lc, v);
-            chunk_ = nc;
-            idx_ = lc;
-
-            return;
-        }
-
-        // here we have something bigger than it was - assign existing and fill rest
-        for (int i = 0; i < chunk_; ++i)
-            std::fill(reinterpret_cast<value_type*>(chunkList_[i]),
-                      reinterpret_cast<value_type*>(chunkList_[i]) + chunk_size, v);
-        std::fill(reinterpret_cast<value_type*>(chunkList_[chunk_]),
-                  reinterpret_cast<value_type*>(chunkList_[chunk_]) + idx_, v);
-
-        size_type fillsize = nc > chunk_ ? chunk_size : lc;
-        std::uninitialized_fill(reinterpret_cast<value_type*>(chunkList_[chunk_]) + idx_,
-                                reinterpret_cast<value_type*>(chunkList_[chunk_]) + fillsize, v);
-        for (size_type i = chunk_ + 1; i < nc; ++i)
-            std::uninitialized_fill_n(reinterpret_cast<value_type*>(chunkList_[i]), chunk_size, v);
-        if (nc > chunk_)
-            std::uninitialized_fill_n(reinterpret_cast<value_type*>(chunkList_[nc]), lc, v);
-        chunk_ = nc;
-        idx_ = lc;
-        return;
+        // assign the existing ones and remove or append the rest
+        size_type n = s < size() ? s : size();
+        for (size_type i = 0; i < n; i += chunk_size)
+            std::fill_n(reinterpret_cast<value_type*>(chunkList_[getHighPart(i)]),
+                        n - i < size_type(chunk_size) ? n - i : size_type(chunk_size), v);
+        resize(s, v);
     }
 
     reference operator[](size_type i)
@@ -451,8 +425,6 @@ class ChunkContainer
         }
     }
 
-    void check_space(size_type i) { reserve(chunk_ * chunk_size + idx_ + i); }
-
     void _free_memory()
     {
         clear();
-- 
2.43.0


From b684a4918209176901e40889b25efca52f182bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:14 +0000
Subject: [PATCH 16/32] fix: ChunkContainer capacity counts the chunks
 allocated

---
 src/XAD/ChunkContainer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/XAD/ChunkContainer.hpp b/src/XAD/ChunkContainer.hpp
index bb3400f..07c47e6 100644
--- a/src/XAD/ChunkContainer.hpp
+++ b/src/XAD/ChunkContainer.hpp
@@ -214,7 +214,7 @@ class ChunkContainer
         chunk_ = idx_ = 0;
     }
 
-    size_type capacity() const { return getNumElements(chunkList_.capacity()); }
+    size_type capacity() const { return getNumElements(chunkList_.size()); }
 
     size_type size() const { return chunk_ * chunk_size + idx_; }
 
-- 
2.43.0


From 1d26632b86919b347c098c6ebbc32148613a3be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:16 +0000
Subject: [PATCH 17/32] fix: Jacobian and Hessian of no functions or no
 variables do not read rows of an empty matrix

---
 src/XAD/Hessian.hpp  | 4 ++--
 src/XAD/Jacobian.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/XAD/Hessian.hpp b/src/XAD/Hessian.hpp
index 3018d6d..a467030 100644
--- a/src/XAD/Hessian.hpp
+++ b/src/XAD/Hessian.hpp
@@ -57,7 +57,7 @@ void computeHessian(const std::vector<AReal<FReal<T>>> &vec,
     unsigned int domain(static_cast<unsigned int>(vec.size()));
 
     if (std::distance(first, last) != domain ||
-        std::distance(first->cbegin(), first->cend()) != domain)
+        (first != last && std::distance(first->cbegin(), first->cend()) != domain))
         throw OutOfRange("Iterator not allocated enough space");
     static_assert(detail::has_begin<typename std::iterator_traits<RowIterator>::value_type>::value,
                   "RowIterator must dereference to a type that implements a begin() method");
@@ -110,7 +110,7 @@ void computeHessian(const std::vector<FReal<FReal<T>>> &vec,
     unsigned int domain(static_cast<unsigned int>(vec.size()));
 
     if (std::distance(first, last) != domain ||
-        std::distance(first->cbegin(), first->cend()) != domain)
+        (first != last && std::distance(first->cbegin(), first->cend()) != domain))
         throw OutOfRange("Iterator not allocated enough space");
     static_assert(detail::has_begin<typename std::iterator_traits<RowIterator>::value_type>::value,
                   "RowIterator must dereference to a type that implements a begin() method");
diff --git a/src/XAD/Jacobian.hpp b/src/XAD/Jacobian.hpp
index 1c2778b..421d625 100644
--- a/src/XAD/Jacobian.hpp
+++ b/src/XAD/Jacobian.hpp
@@ -53,7 +53,7 @@ void computeJacobian(const std::vector<AReal<T>> &vec,
                      std::function<std::vector<AReal<T>>(std::vector<AReal<T>> &)> foo,
                      RowIterator first, RowIterator last, Tape<T> *tape = Tape<T>::getActive())
 {
-    if (std::distance(first->cbegin(), first->cend()) != vec.size())
+    if (first != last && std::distance(first->cbegin(), first->cend()) != vec.size())
         throw OutOfRange("Iterator not allocated enough space (domain)");
     static_assert(detail::has_begin<typename std::iterator_traits<RowIterator>::value_type>::value,
                   "RowIterator must dereference to a type that implements a begin() method");
@@ -104,7 +104,7 @@ void computeJacobian(const std::vector<FReal<T>> &vec,
                      std::function<std::vector<FReal<T>>(std::vector<FReal<T>> &)> foo,
                      RowIterator first, RowIterator last)
 {
-    if (std::distance(first->cbegin(), first->cend()) != vec.size())
+    if (first != last && std::distance(first->cbegin(), first->cend()) != vec.size())
         throw OutOfRange("Iterator not allocated enough space (domain)");
     static_assert(detail::has_begin<typename std::iterator_traits<RowIterator>::value_type>::value,
                   "RowIterator must dereference to a type that implements a begin() method");
-- 
2.43.0


From 6e1ae620cfbe5482dc6f172c2959a736c754eb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 18/32] fix: ChunkContainer iterators work across any number of
 chunks

The iterator knew the next chunk only, so it went round in circles behind the
second chunk boundary, and iterator_at read behind the list of chunks when the
position was in the last one.
---
 src/XAD/ChunkContainer.hpp | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/src/XAD/ChunkContainer.hpp b/src/XAD/ChunkContainer.hpp
index 07c47e6..28e9a3c 100644
--- a/src/XAD/ChunkContainer.hpp
+++ b/src/XAD/ChunkContainer.hpp
@@ -335,22 +335,16 @@ class ChunkContainer
 
     struct iterator
     {
-        pointer point_;
-        pointer next_chunk_;
-        int space_left_;
-        explicit iterator(pointer point = nullptr, int space_left = 0, pointer next = NULL)
-            : point_(point), next_chunk_(next), space_left_(space_left)
+        ChunkContainer* container_;
+        size_type pos_;
+        explicit iterator(ChunkContainer* container = nullptr, size_type pos = 0)
+            : container_(container), pos_(pos)
         {
         }
 
         iterator& operator++()
         {
-            ++point_;
-            if (--space_left_ == 0)
-            {
-                point_ = next_chunk_;
-                space_left_ = chunk_size;
-            }
+            ++pos_;
             return *this;
         }
         iterator operator++(int)
@@ -359,19 +353,13 @@ class ChunkContainer
             ++(*this);
             return r;
         }
-        reference operator*() const { return *point_; }
-        pointer operator->() const { return point_; }
-        bool operator==(const iterator& o) const { return point_ == o.point_; }
-        bool operator!=(const iterator& o) const { return point_ != o.point_; }
+        reference operator*() const { return (*container_)[pos_]; }
+        pointer operator->() const { return &(*container_)[pos_]; }
+        bool operator==(const iterator& o) const { return pos_ == o.pos_; }
+        bool operator!=(const iterator& o) const { return pos_ != o.pos_; }
     };
 
-    iterator iterator_at(size_type i)
-    {
-        auto nc = getHighPart(i);
-        auto lc = getLowPart(i);
-        return iterator(&reinterpret_cast<value_type*>(chunkList_[nc])[lc], int(chunk_size - lc),
-                        reinterpret_cast<value_type*>(*(&chunkList_[nc] + 1)));
-    }
+    iterator iterator_at(size_type i) { return iterator(this, i); }
 
     void assign(size_type s, const_reference v = value_type())
     {
-- 
2.43.0


From c217ab1f9b366bac89e157daccef8745461361c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:22 +0000
Subject: [PATCH 19/32] fix: derivatives of a constant tape are not read beyond
 those stored

In debug mode a slot registered after the derivatives were last accessed passed
the check and was read out of bounds, where OutOfRange is documented.
---
 src/Tape.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index ae35c49..f394dd5 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -451,6 +451,9 @@ const T& Tape<T>::derivative(slot_type s) const
         throw DerivativesNotInitialized(
             "attempt to get derivative value from const object without setting "
             "derivatives first");
+    // registered since the derivatives were last accessed
+    if (s >= derivatives_.size())
+        throw OutOfRange("given derivative slot is not stored yet");
 #endif
     return derivatives_[s];
 }
-- 
2.43.0


From cb23ca8dbdc997a42cd3b954a14d67470b0d1d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:32 +0000
Subject: [PATCH 20/32] fix: complex atanh, atan and acos lose the derivative
 at zero

---
 src/XAD/Complex.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/XAD/Complex.hpp b/src/XAD/Complex.hpp
index 2957863..406d56d 100644
--- a/src/XAD/Complex.hpp
+++ b/src/XAD/Complex.hpp
@@ -2466,7 +2466,7 @@ XAD_INLINE std::complex<T> atanh_impl(const std::complex<T>& z)
     if (z.real() == 0.0)
     {
         if (z.imag() == 0.0)
-            return std::complex<T>(0.0, 0.0);
+            return z;  // keeps the derivative, which is 1
         if (xad::isnan(z.imag()))
             return std::complex<T>(0.0, std::numeric_limits<nested>::quiet_NaN());
     }
@@ -2515,7 +2515,8 @@ XAD_INLINE std::complex<T> acos_impl(const std::complex<T>& z)
     if (z.real() == 0.0)
     {
         if (z.imag() == 0.0 && !xad::signbit(z.imag()))
-            return std::complex<T>(3.141592653589793238462643383279502884197169399 * 0.5, -0.0);
+            return std::complex<T>(3.141592653589793238462643383279502884197169399 * 0.5 - z.real(),
+                                   -z.imag());  // keeps the derivative, which is -1
         if (xad::isnan(z.imag()))
             return std::complex<T>(3.141592653589793238462643383279502884197169399 * 0.5,
                                    -std::numeric_limits<nested>::quiet_NaN());
-- 
2.43.0


From ae714358ec82db3d6d452c8e415ad430ada88c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:55 +0000
Subject: [PATCH 21/32] fix: complex *= and /= with a reference to the number's
 own real part

---
 src/XAD/Complex.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/XAD/Complex.hpp b/src/XAD/Complex.hpp
index 406d56d..78bff67 100644
--- a/src/XAD/Complex.hpp
+++ b/src/XAD/Complex.hpp
@@ -160,8 +160,9 @@ class complex<xad::ADTypeBase<Scalar, T>> : public xad::detail::complex_impl<T>
 
     XAD_INLINE complex<T>& operator*=(const T& other)
     {
+        T imag_t = base::imag() * other;  // other may refer to our own real or imaginary part
         base::real() *= other;
-        base::imag() *= other;
+        base::imag(imag_t);
         return derived();
     }
 
@@ -176,8 +177,9 @@ class complex<xad::ADTypeBase<Scalar, T>> : public xad::detail::complex_impl<T>
 
     XAD_INLINE complex<T>& operator/=(const T& other)
     {
+        T imag_t = base::imag() / other;  // other may refer to our own real or imaginary part
         base::real() /= other;
-        base::imag() /= other;
+        base::imag(imag_t);
         return derived();
     }
 
-- 
2.43.0


From b5e8e8f132a6a3159a2b06c1a5657eb51075d2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:13 +0000
Subject: [PATCH 22/32] fix: complex pow of a negative real base

---
 src/XAD/Complex.hpp | 57 ++++++++++++++++++++++++++++-----------------
 1 file changed, 35 insertions(+), 22 deletions(-)

diff --git a/src/XAD/Complex.hpp b/src/XAD/Complex.hpp
index 78bff67..b59f556 100644
--- a/src/XAD/Complex.hpp
+++ b/src/XAD/Complex.hpp
@@ -328,6 +328,9 @@ XAD_INLINE T abs_impl(const std::complex<T>& x);
 template <class T>
 XAD_INLINE std::complex<T> exp_impl(const std::complex<T>& z);
 
+template <class X, class T>
+XAD_INLINE std::complex<T> pow_real_impl(const X& x, const std::complex<T>& y);
+
 template <class T1, class T2>
 XAD_INLINE std::complex<typename xad::ExprTraits<T1>::value_type> polar_impl(const T1& r,
                                                                              const T2& theta);
@@ -1831,68 +1834,68 @@ XAD_INLINE complex<xad::AReal<T>> pow(const complex<xad::AReal<T>>& x, unsigned
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(const xad::AReal<T>& x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(x) * y);
+    return xad::detail::pow_real_impl(x, y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(const T& x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(x) * y);
+    return xad::detail::pow_real_impl(x, y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(int x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::pow_real_impl(T(x), y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(short x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::pow_real_impl(T(x), y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(long x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::pow_real_impl(T(x), y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(long long x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::pow_real_impl(T(x), y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(unsigned x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::pow_real_impl(T(x), y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(unsigned short x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::pow_real_impl(T(x), y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(unsigned long x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::pow_real_impl(T(x), y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(unsigned long long x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::pow_real_impl(T(x), y);
 }
 
 template <class T, class T2>
 XAD_INLINE typename std::enable_if<xad::ExprTraits<T2>::isExpr, complex<xad::AReal<T>>>::type pow(
     const T2& x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(x) * y);
+    return xad::detail::pow_real_impl(x, y);
 }
 
 template <class T>
@@ -1984,68 +1987,68 @@ XAD_INLINE typename std::enable_if<xad::ExprTraits<T2>::isExpr, complex<xad::FRe
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(const xad::FReal<T>& x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(x) * y);
+    return xad::detail::pow_real_impl(x, y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(const T& x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(x) * y);
+    return xad::detail::pow_real_impl(x, y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(int x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::pow_real_impl(T(x), y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(short x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::pow_real_impl(T(x), y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(long x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::pow_real_impl(T(x), y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(long long x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::pow_real_impl(T(x), y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(unsigned long x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::pow_real_impl(T(x), y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(unsigned x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::pow_real_impl(T(x), y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(unsigned long long x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::pow_real_impl(T(x), y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(unsigned short x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::pow_real_impl(T(x), y);
 }
 
 template <class T, class T2>
 XAD_INLINE typename std::enable_if<xad::ExprTraits<T2>::isExpr, complex<xad::FReal<T>>>::type pow(
     const T2& x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(x) * y);
+    return xad::detail::pow_real_impl(x, y);
 }
 
 template <class T>
@@ -2266,6 +2269,16 @@ XAD_INLINE std::complex<T> exp_impl(const std::complex<T>& z)
     return std::complex<T>(e * cos(z.imag()), e * sin(z.imag()));
 }
 
+template <class X, class T>
+XAD_INLINE std::complex<T> pow_real_impl(const X& x, const std::complex<T>& y)
+{
+    using std::log;
+    // the logarithm of a negative number is complex
+    if (x < 0.0)
+        return exp_impl(log(std::complex<T>(T(x))) * y);
+    return exp_impl(log(x) * y);
+}
+
 template <class T1, class T2>
 XAD_INLINE std::complex<typename xad::ExprTraits<T1>::value_type> polar_impl(const T1& r,
                                                                              const T2& theta)
-- 
2.43.0


From 8132dac02af17aac63dd81bdeb9402b5f4febe0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:05 +0000
Subject: [PATCH 23/32] fix: std::polar with operands of the very same
 expression type, or a single expression, does not compile

---
 src/XAD/Complex.hpp | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/src/XAD/Complex.hpp b/src/XAD/Complex.hpp
index b59f556..e90ab33 100644
--- a/src/XAD/Complex.hpp
+++ b/src/XAD/Complex.hpp
@@ -1699,6 +1699,39 @@ XAD_INLINE std::complex<typename xad::ExprTraits<Expr>::value_type> polar(
     return xad::detail::polar_impl(r.derived(), typename xad::ExprTraits<Expr>::value_type(theta));
 }
 
+// r and theta of the very same expression type, or r only - the generic std::polar would be the
+// better match otherwise
+template <class Scalar, class Op, class Expr>
+XAD_INLINE complex<typename xad::ExprTraits<Expr>::value_type> polar(
+    const xad::UnaryExpr<Scalar, Op, Expr>& r, const xad::UnaryExpr<Scalar, Op, Expr>& theta)
+{
+    typedef typename xad::ExprTraits<Expr>::value_type type;
+    return xad::detail::polar_impl(type(r), type(theta));
+}
+
+template <class Scalar, class Op, class Expr>
+XAD_INLINE complex<typename xad::ExprTraits<Expr>::value_type> polar(
+    const xad::UnaryExpr<Scalar, Op, Expr>& r)
+{
+    return complex<typename xad::ExprTraits<Expr>::value_type>(r);
+}
+
+template <class Scalar, class Op, class Expr1, class Expr2>
+XAD_INLINE complex<typename xad::ExprTraits<Expr1>::value_type> polar(
+    const xad::BinaryExpr<Scalar, Op, Expr1, Expr2>& r,
+    const xad::BinaryExpr<Scalar, Op, Expr1, Expr2>& theta)
+{
+    typedef typename xad::ExprTraits<Expr1>::value_type type;
+    return xad::detail::polar_impl(type(r), type(theta));
+}
+
+template <class Scalar, class Op, class Expr1, class Expr2>
+XAD_INLINE complex<typename xad::ExprTraits<Expr1>::value_type> polar(
+    const xad::BinaryExpr<Scalar, Op, Expr1, Expr2>& r)
+{
+    return complex<typename xad::ExprTraits<Expr1>::value_type>(r);
+}
+
 // just one expr, as second parameter is optional
 template <class Scalar, class Expr>
 XAD_INLINE complex<typename xad::ExprTraits<Expr>::value_type> polar(
-- 
2.43.0


From 32924634786d9f6cdf5e9d374c91f34a34e1a382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:35 +0000
Subject: [PATCH 24/32] fix: count only the variables of the running checkpoint
 callback

The counter of the variables a checkpoint callback has registered also counted every variable
registered outside of callbacks, which it never gave back.
---
 src/XAD/Tape.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/XAD/Tape.hpp b/src/XAD/Tape.hpp
index 0557ad7..bef918d 100644
--- a/src/XAD/Tape.hpp
+++ b/src/XAD/Tape.hpp
@@ -204,12 +204,14 @@ class Tape
     slot_type registerVariable()
     {
         ++currentRec_->numDerivatives_;
-        ++currentRec_->numCallbackDerivatives_;
 #ifdef XAD_TAPE_REUSE_SLOTS
-        return registerVariableReuseSlots();
+        const slot_type slot = registerVariableReuseSlots();
 #else
-        return registerVariableAtEnd();
+        const slot_type slot = registerVariableAtEnd();
 #endif
+        if (slot >= currentRec_->callbackStart_)
+            ++currentRec_->numCallbackDerivatives_;
+        return slot;
     }
 
     XAD_INLINE void unregisterVariable(slot_type slot)
-- 
2.43.0


From 4e787e57b156a3b0a4e8e4f7f32341f0f2a6f06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:50 +0000
Subject: [PATCH 25/32] fix: copysign of an integer and an active number does
 not compile

The overloads for double and float were ambiguous, while the call is valid for passive operands.
---
 src/XAD/UnaryOperators.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/XAD/UnaryOperators.hpp b/src/XAD/UnaryOperators.hpp
index faa6057..bd48baa 100644
--- a/src/XAD/UnaryOperators.hpp
+++ b/src/XAD/UnaryOperators.hpp
@@ -491,6 +491,14 @@ XAD_INLINE float copysign(float x, const Expression<Scalar, Derived>& y)
     return copysign(x, value(y));
 }
 
+// as for passive operands, an integral argument is converted to double
+template <class T, class Scalar, class Derived>
+XAD_INLINE typename std::enable_if<std::is_integral<T>::value, double>::type copysign(
+    T x, const Expression<Scalar, Derived>& y)
+{
+    return copysign(static_cast<double>(x), y);
+}
+
 #undef XAD_UNARY_BINSCAL
 #undef XAD_UNARY_BINSCAL1
 #undef XAD_UNARY_BINSCAL2
-- 
2.43.0


From f7b3480f9fd741c496b1d7bcda89d72384edab6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:53 +0000
Subject: [PATCH 26/32] fix: mixing adjoint and forward types compiles and
 drops their derivatives

The assertion that both operands have the same underlying type was only evaluated when the result
was used in a further expression, and assignments did not check it at all.
---
 src/XAD/BinaryExpr.hpp | 3 +++
 src/XAD/Literals.hpp   | 8 ++++++++
 2 files changed, 11 insertions(+)

diff --git a/src/XAD/BinaryExpr.hpp b/src/XAD/BinaryExpr.hpp
index f81c252..3b8026b 100644
--- a/src/XAD/BinaryExpr.hpp
+++ b/src/XAD/BinaryExpr.hpp
@@ -38,6 +38,9 @@ struct BinaryExpr : Expression<Scalar, BinaryExpr<Scalar, Op, Expr1, Expr2> >
 {
     typedef detail::BinaryDerivativeImpl<OperatorTraits<Op>::useResultBasedDerivatives == 1>
         der_impl;
+    static_assert(std::is_same<typename ExprTraits<Expr1>::value_type,
+                               typename ExprTraits<Expr2>::value_type>::value,
+                  "both expressions must be the same underlying type");
     XAD_INLINE BinaryExpr(const Expr1& a, const Expr2& b, Op op = Op())
         : a_(a), b_(b), op_(op), v_(op_(a_.value(), b_.value()))
     {
diff --git a/src/XAD/Literals.hpp b/src/XAD/Literals.hpp
index eae156a..be5ac43 100644
--- a/src/XAD/Literals.hpp
+++ b/src/XAD/Literals.hpp
@@ -369,6 +369,8 @@ template <class Expr>
 XAD_INLINE AReal<Scalar>::AReal(Expression<Scalar, Expr> const& expr)
     : base_type(expr.getValue()), slot_(INVALID_SLOT)
 {
+    static_assert(std::is_same<typename ExprTraits<Expr>::value_type, AReal<Scalar>>::value,
+                  "only expressions of the same underlying type can be assigned");
     if (expr.shouldRecord())
     {
         tape_type* s = tape_type::getActive();
@@ -382,6 +384,8 @@ template <class Scalar>
 template <class Expr>
 XAD_INLINE AReal<Scalar>& AReal<Scalar>::operator=(const Expression<Scalar, Expr>& expr)
 {
+    static_assert(std::is_same<typename ExprTraits<Expr>::value_type, AReal<Scalar>>::value,
+                  "only expressions of the same underlying type can be assigned");
     if (expr.shouldRecord() || this->shouldRecord())
     {
         tape_type* s = tape_type::getActive();
@@ -478,12 +482,16 @@ template <class Expr>
 XAD_INLINE FReal<Scalar>::FReal(const Expression<Scalar, Expr>& expr)
     : base_type(xad::value(expr)), der_(xad::derivative(expr))
 {
+    static_assert(std::is_same<typename ExprTraits<Expr>::value_type, FReal<Scalar>>::value,
+                  "only expressions of the same underlying type can be assigned");
 }
 
 template <class Scalar>
 template <class Expr>
 XAD_INLINE FReal<Scalar>& FReal<Scalar>::operator=(const Expression<Scalar, Expr>& expr)
 {
+    static_assert(std::is_same<typename ExprTraits<Expr>::value_type, FReal<Scalar>>::value,
+                  "only expressions of the same underlying type can be assigned");
     using xad::derivative;
     using xad::value;
     this->a_ = value(expr);
-- 
2.43.0


From d83788dd2d88c4da235956f720476aa7f80c5612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:29 +0000
Subject: [PATCH 27/32] fix: unary plus of an expression returns a reference to
 its base class

Storing the result (auto e = +(x * y)) sliced the operands off the expression, and using it read
beyond the object.
---
 src/XAD/UnaryOperators.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/XAD/UnaryOperators.hpp b/src/XAD/UnaryOperators.hpp
index bd48baa..7fc34d1 100644
--- a/src/XAD/UnaryOperators.hpp
+++ b/src/XAD/UnaryOperators.hpp
@@ -40,9 +40,9 @@ struct AReal;
 
 // unary plus - does nothing
 template <class Scalar, class Expr>
-XAD_INLINE const Expression<Scalar, Expr>& operator+(const Expression<Scalar, Expr>& a)
+XAD_INLINE Expr operator+(const Expression<Scalar, Expr>& a)
 {
-    return a;
+    return a.derived();
 }
 
 template <class Scalar>
-- 
2.43.0


From f83961669ccb4597ac517091dfd6d6f9863368e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:29 +0000
Subject: [PATCH 28/32] fix: compound assignment and increment of nested active
 types with passive operands

x += 2.0, x *= 2 and ++x did not compile for types like AReal<FReal<double>>, while x = x + 2.0 does.
---
 src/XAD/Literals.hpp | 43 +++++++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/src/XAD/Literals.hpp b/src/XAD/Literals.hpp
index be5ac43..19e81d3 100644
--- a/src/XAD/Literals.hpp
+++ b/src/XAD/Literals.hpp
@@ -47,6 +47,15 @@ struct ADTypeBase : public Expression<Scalar, Derived>
     static_assert(std::is_floating_point<nested_type>::value,
                   "Active AD types only work with floating point");
 
+    // passive operands that do not convert to Scalar without ambiguity
+    template <class P>
+    struct is_passive_operand
+        : std::integral_constant<bool, std::is_integral<P>::value ||
+                                           (ExprTraits<Scalar>::isExpr && !ExprTraits<P>::isExpr &&
+                                            std::is_floating_point<P>::value)>
+    {
+    };
+
     constexpr explicit XAD_INLINE ADTypeBase(Scalar val = Scalar()) : a_(val) {}
     constexpr XAD_INLINE ADTypeBase(ADTypeBase&& o) noexcept = default;
     constexpr XAD_INLINE ADTypeBase(const ADTypeBase& o) = default;
@@ -84,49 +93,51 @@ struct ADTypeBase : public Expression<Scalar, Derived>
         a_ += x;
         return derived();
     }
-    template <class I>
-    XAD_INLINE typename std::enable_if<std::is_integral<I>::value, Derived>::type& operator+=(I x)
+    template <class P>
+    XAD_INLINE typename std::enable_if<is_passive_operand<P>::value, Derived>::type& operator+=(P x)
     {
-        return *this += Scalar(x);
+        a_ += nested_type(x);
+        return derived();
     }
     XAD_INLINE Derived& operator-=(Scalar rhs)
     {
         a_ -= rhs;
         return derived();
     }
-    template <class I>
-    XAD_INLINE typename std::enable_if<std::is_integral<I>::value, Derived>::type& operator-=(I x)
+    template <class P>
+    XAD_INLINE typename std::enable_if<is_passive_operand<P>::value, Derived>::type& operator-=(P x)
     {
-        return *this -= Scalar(x);
+        a_ -= nested_type(x);
+        return derived();
     }
     XAD_INLINE Derived& operator*=(Scalar x) { return derived() = (derived() * x); }
-    template <class I>
-    XAD_INLINE typename std::enable_if<std::is_integral<I>::value, Derived>::type& operator*=(I x)
+    template <class P>
+    XAD_INLINE typename std::enable_if<is_passive_operand<P>::value, Derived>::type& operator*=(P x)
     {
-        return *this *= Scalar(x);
+        return derived() = (derived() * nested_type(x));
     }
     XAD_INLINE Derived& operator/=(Scalar x) { return derived() = (derived() / x); }
-    template <class I>
-    XAD_INLINE typename std::enable_if<std::is_integral<I>::value, Derived>::type& operator/=(I x)
+    template <class P>
+    XAD_INLINE typename std::enable_if<is_passive_operand<P>::value, Derived>::type& operator/=(P x)
     {
-        return *this /= Scalar(x);
+        return derived() = (derived() / nested_type(x));
     }
     XAD_INLINE Derived& operator+=(const value_type& x) { return derived() = derived() + x; }
     XAD_INLINE Derived& operator-=(const value_type& x) { return derived() = derived() - x; }
     XAD_INLINE Derived& operator*=(const value_type& x) { return derived() = derived() * x; }
     XAD_INLINE Derived& operator/=(const value_type& x) { return derived() = derived() / x; }
-    XAD_INLINE Derived& operator++() { return derived() = (derived() + Scalar(1)); }
+    XAD_INLINE Derived& operator++() { return derived() = (derived() + nested_type(1)); }
     XAD_INLINE Derived operator++(int)
     {
         auto tmp = derived();
-        derived() = (derived() + Scalar(1));
+        derived() = (derived() + nested_type(1));
         return tmp;
     }
-    XAD_INLINE Derived& operator--() { return derived() = (derived() - Scalar(1)); }
+    XAD_INLINE Derived& operator--() { return derived() = (derived() - nested_type(1)); }
     XAD_INLINE Derived operator--(int)
     {
         auto tmp = derived();
-        derived() = (derived() - Scalar(1));
+        derived() = (derived() - nested_type(1));
         return tmp;
     }
 
-- 
2.43.0


From 60569a3130fcb14ec2e692dd51b43c4584fb71f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:59 +0000
Subject: [PATCH 29/32] fix: scalbn of active types overflows or underflows
 where the result does not

The power of two was computed on its own before multiplying.
---
 src/XAD/UnaryOperators.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/XAD/UnaryOperators.hpp b/src/XAD/UnaryOperators.hpp
index 7fc34d1..8fe8947 100644
--- a/src/XAD/UnaryOperators.hpp
+++ b/src/XAD/UnaryOperators.hpp
@@ -450,9 +450,8 @@ template <class Scalar, class Derived>
 XAD_INLINE typename ExprTraits<Derived>::value_type scalbn(const Expression<Scalar, Derived>& x,
                                                            int exp)
 {
-    using std::scalbn;
     using T = typename ExprTraits<Derived>::value_type;
-    return T(x * scalbn(1.0, exp));
+    return T(ldexp(x, exp));
 }
 
 template <class Scalar, class Derived, class T2>
-- 
2.43.0


From 2809aa1f5a97efc7e6baceb6a3e4e1ef5410404d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:59 +0000
Subject: [PATCH 30/32] fix: derivative of frexp reads an exponent that may
 have been overwritten

With two calls in one expression sharing the exponent variable, both used the last one.
---
 src/XAD/UnaryMathFunctors.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/XAD/UnaryMathFunctors.hpp b/src/XAD/UnaryMathFunctors.hpp
index ba960e5..e79a5f6 100644
--- a/src/XAD/UnaryMathFunctors.hpp
+++ b/src/XAD/UnaryMathFunctors.hpp
@@ -212,12 +212,12 @@ struct frexp_op
 {
     XAD_INLINE explicit frexp_op(int* exp) : exp_(exp) {}
     XAD_INLINE Scalar operator()(const Scalar& a) const { return frexp(a, exp_); }
-    XAD_INLINE Scalar derivative(const Scalar&) const
+    XAD_INLINE Scalar derivative(const Scalar& a) const
     {
-        // we assume that operator() and derivative are called in succession and in
-        // this order, which is always the case in XAD. Therefore we can read the
-        // value in *exp_ here to calculate the derivative
-        return ldexp(Scalar(1), -*exp_);
+        // *exp_ may have been overwritten in the meantime, e.g. by another frexp of the expression
+        int exp = 0;
+        frexp(a, &exp);
+        return ldexp(Scalar(1), -exp);
     }
     int* exp_;
 };
-- 
2.43.0


From de1f4f5dd31636f17fc1bf01fd9690be443a4321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:09 +0000
Subject: [PATCH 31/32] fix: hypot of an active and a passive operand copies
 the variable into the expression

The overload is misspelled, so the passive operand is converted and the
variable is copied, which records an extra statement.
---
 src/XAD/UnaryOperators.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/XAD/UnaryOperators.hpp b/src/XAD/UnaryOperators.hpp
index 8fe8947..ef92d82 100644
--- a/src/XAD/UnaryOperators.hpp
+++ b/src/XAD/UnaryOperators.hpp
@@ -86,7 +86,7 @@ XAD_UNARY_BINSCAL2(atan2, scalar_atan22_op)
 XAD_UNARY_BINSCAL1(nextafter, scalar_nextafter1_op)
 XAD_UNARY_BINSCAL2(nextafter, scalar_nextafter2_op)
 XAD_UNARY_BINSCAL1(hypot, scalar_hypot1_op)
-XAD_UNARY_BINSCAL2(hypto, scalar_hypot2_op)
+XAD_UNARY_BINSCAL2(hypot, scalar_hypot2_op)
 
 // pown (integral exponents)
 template <class Scalar, class Expr>
-- 
2.43.0


From 17096811e75df5190e3cf6ffc8242e0d4eb99a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:09 +0000
Subject: [PATCH 32/32] fix: scalbn and copysign of a variable record it twice

The operand was copied into the expression through its base class, which
records an extra statement for a recorded variable.
---
 src/XAD/UnaryOperators.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/XAD/UnaryOperators.hpp b/src/XAD/UnaryOperators.hpp
index ef92d82..277a5d5 100644
--- a/src/XAD/UnaryOperators.hpp
+++ b/src/XAD/UnaryOperators.hpp
@@ -451,7 +451,7 @@ XAD_INLINE typename ExprTraits<Derived>::value_type scalbn(const Expression<Scal
                                                            int exp)
 {
     using T = typename ExprTraits<Derived>::value_type;
-    return T(ldexp(x, exp));
+    return T(ldexp(x.derived(), exp));
 }
 
 template <class Scalar, class Derived, class T2>
@@ -463,16 +463,16 @@ XAD_INLINE typename ExprTraits<Derived>::value_type copysign(const Expression<Sc
     if (signbit(x))
     {
         if (sign)
-            return T(x);
+            return T(x.derived());
         else
-            return T(-x);
+            return T(-x.derived());
     }
     else
     {
         if (sign)
-            return T(-x);
+            return T(-x.derived());
         else
-            return T(x);
+            return T(x.derived());
     }
 }
 
-- 
2.43.0

