From 60f1bc1d2a61f473e58b1d3a161a2f9558f98175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:50 +0000
Subject: [PATCH 01/48] fix: subtract_with_carry discard from a block boundary
 skipped no values when z < long_lag

---
 include/boost/random/subtract_with_carry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/subtract_with_carry.hpp b/include/boost/random/subtract_with_carry.hpp
index 6497884..4173194 100644
--- a/include/boost/random/subtract_with_carry.hpp
+++ b/include/boost/random/subtract_with_carry.hpp
@@ -69,7 +69,7 @@ struct subtract_with_carry_discard
 
         k = ((z % long_lag) + k) % long_lag;
 
-        if(k < z) {
+        if(k <= z) {
             // main loop: update full blocks from k = 0 to long_lag
             for(std::size_t i = 0; i < (z - k) / long_lag; ++i) {
                 for(std::size_t j = 0; j < short_lag; ++j) {
-- 
2.43.0


From be1897860e040e0dadd70a54034b8cd293519d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:50 +0000
Subject: [PATCH 02/48] fix: subtract_with_carry equality ignored the carry

---
 include/boost/random/subtract_with_carry.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/subtract_with_carry.hpp b/include/boost/random/subtract_with_carry.hpp
index 4173194..a043702 100644
--- a/include/boost/random/subtract_with_carry.hpp
+++ b/include/boost/random/subtract_with_carry.hpp
@@ -249,7 +249,7 @@ public:
         for(unsigned int j = 0; j < r; ++j)
             if(x_.compute(j) != y.compute(j))
                 return false;
-        return true;
+        return x_.carry == y.carry;
     }
 
     /**
@@ -483,7 +483,7 @@ public:
         for(unsigned int j = 0; j < r; ++j)
             if(x_.compute(j) != y.compute(j))
                 return false;
-        return true;
+        return x_.carry == y.carry;
     }
 
     /** Returns true if the two generators will produce different sequences. */
-- 
2.43.0


From e1cb2a8509e97c14fb0a9f7be38d5858a6278049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:34 +0000
Subject: [PATCH 03/48] fix: loading a mersenne_twister_engine at the end of a
 stream set failbit

---
 include/boost/random/mersenne_twister.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/mersenne_twister.hpp b/include/boost/random/mersenne_twister.hpp
index 5fefb28..ca48e91 100644
--- a/include/boost/random/mersenne_twister.hpp
+++ b/include/boost/random/mersenne_twister.hpp
@@ -232,7 +232,7 @@ public:
                mersenne_twister_engine& mt)
     {
         for(std::size_t j = 0; j < mt.state_size; ++j)
-            is >> mt.x[j] >> std::ws;
+            is >> std::ws >> mt.x[j];
         // MSVC (up to 7.1) and Borland (up to 5.64) don't handle the template
         // value parameter "n" available from the class template scope, so use
         // the static constant with the same value
-- 
2.43.0


From b32036e9be55bfd1033e31901e3baa555e545327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:34 +0000
Subject: [PATCH 04/48] fix: loading a splitmix64 swallowed the rest of the
 stream and failed it

---
 include/boost/random/splitmix64.hpp | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/include/boost/random/splitmix64.hpp b/include/boost/random/splitmix64.hpp
index dd89ab5..7e86305 100644
--- a/include/boost/random/splitmix64.hpp
+++ b/include/boost/random/splitmix64.hpp
@@ -154,18 +154,7 @@ public:
     inline friend std::basic_istream<CharT,Traits>& operator>>(std::basic_istream<CharT,Traits>& ist,
                                                                splitmix64& e)
     {
-        std::string sstate;
-        CharT val;
-        while (ist >> val)
-        {
-            if (std::isdigit(val))
-            {
-                sstate.push_back(val);
-            }
-        }
-        
-        e.state_ = std::strtoull(sstate.c_str(), nullptr, 10);
-
+        ist >> e.state_;
         return ist;
     }
 
-- 
2.43.0


From db57b36e4c5877712e83ae4f3d745a02af4c3432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:34 +0000
Subject: [PATCH 05/48] fix: mixmax could not load the state it saves after a
 whole block, and aborted on malformed text

---
 include/boost/random/mixmax.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/boost/random/mixmax.hpp b/include/boost/random/mixmax.hpp
index 3f09fc3..422c787 100644
--- a/include/boost/random/mixmax.hpp
+++ b/include/boost/random/mixmax.hpp
@@ -136,16 +136,15 @@ public: // SEEDING FUNCTIONS
     operator>> (std::basic_istream<CharT,Traits> &in, mixmax_engine& me){
         // will set std::ios::failbit if the input format is not right
         boost::array<boost::uint64_t, Ndim> vec;
-        boost::uint64_t sum=0, savedsum=0, counter=0;
-        in >> counter >> std::ws;
-        BOOST_ASSERT(counter==Ndim);
+        boost::uint64_t sum=0, savedsum=0, ndim=0, counter=0;
+        in >> ndim >> std::ws;
         in >> counter >> std::ws;
         in >> savedsum >> std::ws;
         for(int j=0;j<Ndim;j++) {
         in >> std::ws >> vec[j] ;
         sum=me.MOD_MERSENNE(sum+vec[j]);
     }
-    if (sum == savedsum && counter>0 && counter<Ndim){
+    if (in && ndim==Ndim && sum == savedsum && counter>0 && counter<=Ndim){
         me.S.V=vec; me.S.counter = counter; me.S.sumtot=savedsum;
     }else{
         in.setstate(std::ios::failbit);
-- 
2.43.0


From 35b67f49a8678b5dfbda4cf3657ac4dddd172f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:57 +0000
Subject: [PATCH 06/48] fix: loading a lagged_fibonacci_engine at the end of a
 stream set failbit

---
 include/boost/random/lagged_fibonacci.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/lagged_fibonacci.hpp b/include/boost/random/lagged_fibonacci.hpp
index 0c93bae..446a2ef 100644
--- a/include/boost/random/lagged_fibonacci.hpp
+++ b/include/boost/random/lagged_fibonacci.hpp
@@ -154,9 +154,9 @@ public:
      */
     BOOST_RANDOM_DETAIL_ISTREAM_OPERATOR(is, lagged_fibonacci_engine, f)
     {
-        is >> f.i >> std::ws;
+        is >> f.i;
         for(unsigned int j = 0; j < f.long_lag; ++j)
-            is >> f.x[j] >> std::ws;
+            is >> std::ws >> f.x[j];
         return is;
     }
 
-- 
2.43.0


From 879be58922bc83471dccc6de6ffa86dfbd6bcf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:51 +0000
Subject: [PATCH 07/48] fix: mixmax could return 2^61, which is above max()

---
 include/boost/random/mixmax.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/mixmax.hpp b/include/boost/random/mixmax.hpp
index 422c787..2c36482 100644
--- a/include/boost/random/mixmax.hpp
+++ b/include/boost/random/mixmax.hpp
@@ -197,7 +197,7 @@ template <int Ndim, unsigned int SPECIALMUL, boost::int64_t SPECIAL> boost::uint
     boost::uint64_t sumtot = Y[0], ovflow = 0; // will keep a running sum of all new elements
     for (int i=1; i<Ndim; i++){
         boost::uint64_t tempPO = MULWU(tempP);
-        tempV = (tempV+tempPO);
+        tempV = modadd(tempV, tempPO); // keep the sum of three below 2^62, so that it folds to at most M61
         tempP = modadd(tempP, Y[i]);
         tempV = modadd(tempV, tempP); // new Y[i] = old Y[i] + old partial * m
         Y[i] = tempV;
-- 
2.43.0


From 4dad0d42d7ca93c4de1f590ff39ef85672d02873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:51 +0000
Subject: [PATCH 08/48] fix: xor_combine_engine advertised bounds its outputs
 do not respect

---
 include/boost/random/xor_combine.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/boost/random/xor_combine.hpp b/include/boost/random/xor_combine.hpp
index 312fdb8..514ee09 100644
--- a/include/boost/random/xor_combine.hpp
+++ b/include/boost/random/xor_combine.hpp
@@ -134,12 +134,15 @@ public:
         _rng2.discard(z);
     }
 
-    /** Returns the smallest value that the generator can produce. */
+    /** Returns a lower bound of the values that the generator can produce. */
     static BOOST_CONSTEXPR result_type min BOOST_PREVENT_MACRO_SUBSTITUTION ()
-    { return (URNG1::min)()<(URNG2::min)()?(URNG1::min)():(URNG2::min)(); }
-    /** Returns the largest value that the generator can produce. */
+    { return 0; }
+    /** Returns an upper bound of the values that the generator can produce. */
     static BOOST_CONSTEXPR result_type max BOOST_PREVENT_MACRO_SUBSTITUTION ()
-    { return (URNG1::max)()>(URNG2::max)()?(URNG1::max)():(URNG2::max)(); }
+    {
+        return (fill_bits((URNG1::max)()) << s1)
+            | (fill_bits((URNG2::max)()) << s2);
+    }
 
     /**
      * Writes the textual representation of the generator to a @c std::ostream.
@@ -167,6 +170,11 @@ public:
     BOOST_RANDOM_DETAIL_INEQUALITY_OPERATOR(xor_combine_engine)
 
 private:
+    /// \cond show_private
+    // the smallest 2^n - 1 that is not less than x
+    static BOOST_CONSTEXPR result_type fill_bits(result_type x)
+    { return x == 0 ? result_type(0) : result_type(x | fill_bits(x >> 1)); }
+    /// \endcond
     base1_type _rng1;
     base2_type _rng2;
 };
-- 
2.43.0


From 2c486d9bbc7d27f2b35a2e4ddb021765da83c074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:05 +0000
Subject: [PATCH 09/48] fix: discrete_distribution: do not keep stale alias
 entries when the parameters are replaced

init() left the alias index of entries that need no alias untouched, so after
param() (or operator>>) with fewer weights probabilities() and operator== used
indices of the previous, larger table.
---
 include/boost/random/discrete_distribution.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/random/discrete_distribution.hpp b/include/boost/random/discrete_distribution.hpp
index c6c25fe..6642afd 100644
--- a/include/boost/random/discrete_distribution.hpp
+++ b/include/boost/random/discrete_distribution.hpp
@@ -74,6 +74,7 @@ struct integer_alias_table {
                 }
             }
         }
+        _alias_table.clear();
         _alias_table.resize(static_cast<std::size_t>(n));
         _average = weight_average;
         _excess = excess;
@@ -144,6 +145,7 @@ struct real_alias_table {
         std::size_t size = std::distance(first, last);
         WeightType weight_sum =
             std::accumulate(first, last, static_cast<WeightType>(0));
+        _alias_table.clear();
         _alias_table.resize(size);
         return weight_sum / size;
     }
-- 
2.43.0


From 8934b5c817121fcf680d58c749bc4ba7c90f9be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 10/48] fix: negative_binomial_distribution passes invalid
 parameters on

gamma_distribution and poisson_distribution require positive parameters,
but k == 0, p == 1 (both documented as valid) or a gamma variate of zero
reached them and failed their assertions.
---
 .../boost/random/negative_binomial_distribution.hpp  | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/negative_binomial_distribution.hpp b/include/boost/random/negative_binomial_distribution.hpp
index cbe26fa..e4b03cf 100644
--- a/include/boost/random/negative_binomial_distribution.hpp
+++ b/include/boost/random/negative_binomial_distribution.hpp
@@ -116,8 +116,18 @@ public:
     template<class URNG>
     IntType operator()(URNG& urng) const
     {
+        // gamma_distribution requires positive parameters
+        if(_k == 0 || !(_p < 1)) {
+            return 0;
+        }
         gamma_distribution<RealType> gamma(_k, (1-_p)/_p);
-        poisson_distribution<IntType, RealType> poisson(gamma(urng));
+        RealType mean = gamma(urng);
+        // the gamma variate can be zero, which is
+        // not a valid mean for poisson_distribution
+        if(!(mean > 0)) {
+            return 0;
+        }
+        poisson_distribution<IntType, RealType> poisson(mean);
         return poisson(urng);
     }
     
-- 
2.43.0


From cfdf67cfc506f36d9e007e35b061f8f977cf3207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:48 +0000
Subject: [PATCH 11/48] fix: binomial_distribution could return t + 1 (or -1)
 because of round-off

---
 include/boost/random/binomial_distribution.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/binomial_distribution.hpp b/include/boost/random/binomial_distribution.hpp
index 78d1a12..6fc1fc2 100644
--- a/include/boost/random/binomial_distribution.hpp
+++ b/include/boost/random/binomial_distribution.hpp
@@ -375,7 +375,9 @@ private:
         RealType r = _u.q_n;
         RealType u = uniform_01<RealType>()(urng);
         IntType x = 0;
-        while(u > r) {
+        // t is the largest possible value: if u still exceeds r
+        // there, only round-off error is left of it.
+        while(u > r && x < t) {
             u = u - r;
             ++x;
             RealType r1 = ((a/x) - s) * r;
-- 
2.43.0


From 285a00e01c9d33fdb7836a7cb1d42bab77d71fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:17 +0000
Subject: [PATCH 12/48] fix: gamma_distribution accepted proposals of density
 zero when the engine returns 0

---
 include/boost/random/gamma_distribution.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/gamma_distribution.hpp b/include/boost/random/gamma_distribution.hpp
index c9bda4c..00330c6 100644
--- a/include/boost/random/gamma_distribution.hpp
+++ b/include/boost/random/gamma_distribution.hpp
@@ -177,7 +177,7 @@ public:
                     + _alpha-result_type(1);
                 if(x <= result_type(0))
                     continue;
-                if(uniform_01<RealType>()(eng) >
+                if(uniform_01<RealType>()(eng) >=
                     (result_type(1)+y*y) * exp((_alpha-result_type(1))
                                                *log(x/(_alpha-result_type(1)))
                                                - sqrt(result_type(2)*_alpha
-- 
2.43.0


From 02d01acb1f24acade70465c37ca9bbcb1eaa4c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:30 +0000
Subject: [PATCH 13/48] fix: uniform_01 and bernoulli_distribution overflowed
 with signed full-range engines

---
 include/boost/random/bernoulli_distribution.hpp       | 7 ++++++-
 include/boost/random/detail/signed_unsigned_tools.hpp | 2 +-
 include/boost/random/uniform_01.hpp                   | 9 +++++----
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/boost/random/bernoulli_distribution.hpp b/include/boost/random/bernoulli_distribution.hpp
index d66bae4..40a5564 100644
--- a/include/boost/random/bernoulli_distribution.hpp
+++ b/include/boost/random/bernoulli_distribution.hpp
@@ -21,6 +21,7 @@
 #include <boost/assert.hpp>
 #include <boost/random/detail/config.hpp>
 #include <boost/random/detail/operators.hpp>
+#include <boost/random/detail/signed_unsigned_tools.hpp>
 
 namespace boost {
 namespace random {
@@ -140,7 +141,11 @@ public:
         if(_p == RealType(0))
             return false;
         else
-            return RealType(eng() - (eng.min)()) <= _p * RealType((eng.max)()-(eng.min)());
+        {
+            typedef detail::subtract<typename Engine::result_type> subtract;
+            return RealType(subtract()(eng(), (eng.min)()))
+                <= _p * RealType(subtract()((eng.max)(), (eng.min)()));
+        }
     }
 
     /**
diff --git a/include/boost/random/detail/signed_unsigned_tools.hpp b/include/boost/random/detail/signed_unsigned_tools.hpp
index 1979908..d341ebc 100644
--- a/include/boost/random/detail/signed_unsigned_tools.hpp
+++ b/include/boost/random/detail/signed_unsigned_tools.hpp
@@ -24,7 +24,7 @@ namespace detail {
  * Compute x - y, we know that x >= y, return an unsigned value.
  */
 
-template<class T, bool sgn = std::numeric_limits<T>::is_signed && std::numeric_limits<T>::is_bounded>
+template<class T, bool sgn = std::numeric_limits<T>::is_integer && std::numeric_limits<T>::is_signed && std::numeric_limits<T>::is_bounded>
 struct subtract { };
 
 template<class T>
diff --git a/include/boost/random/uniform_01.hpp b/include/boost/random/uniform_01.hpp
index 37258f5..bc1b863 100644
--- a/include/boost/random/uniform_01.hpp
+++ b/include/boost/random/uniform_01.hpp
@@ -22,6 +22,7 @@
 #include <boost/static_assert.hpp>
 #include <boost/random/detail/config.hpp>
 #include <boost/random/detail/ptr_helper.hpp>
+#include <boost/random/detail/signed_unsigned_tools.hpp>
 
 #include <boost/random/detail/disable_warnings.hpp>
 
@@ -93,9 +94,9 @@ public:
     for (;;) {
       typedef typename Engine::result_type base_result;
       result_type factor = result_type(1) /
-              (result_type(base_result((eng.max)()-(eng.min)())) +
+              (result_type(subtract<base_result>()((eng.max)(), (eng.min)())) +
                result_type(std::numeric_limits<base_result>::is_integer ? 1 : 0));
-      result_type result = result_type(base_result(eng() - (eng.min)())) * factor;
+      result_type result = result_type(subtract<base_result>()(eng(), (eng.min)())) * factor;
       if (result < result_type(1))
         return result;
     }
@@ -135,7 +136,7 @@ public:
   explicit backward_compatible_uniform_01(typename traits::rvalue_type rng)
     : _rng(rng),
       _factor(result_type(1) /
-              (result_type((base().max)()-(base().min)()) +
+              (result_type(subtract<base_result>()((base().max)(), (base().min)())) +
                result_type(std::numeric_limits<base_result>::is_integer ? 1 : 0)))
   {
   }
@@ -149,7 +150,7 @@ public:
 
   result_type operator()() {
     for (;;) {
-      result_type result = result_type(base()() - (base().min)()) * _factor;
+      result_type result = result_type(subtract<base_result>()(base()(), (base().min)())) * _factor;
       if (result < result_type(1))
         return result;
     }
-- 
2.43.0


From 4ff3d5de90928c35548f868c7e13a27d382d818f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:59 +0000
Subject: [PATCH 14/48] fix: poisson_distribution never returned when the
 uniform draw was next to one

Round-off in the inversion loop can leave u above a p that has shrunk to
zero.  Stop, as binomial_distribution does, once the remaining
probabilities are below the precision of u.
---
 include/boost/random/poisson_distribution.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/poisson_distribution.hpp b/include/boost/random/poisson_distribution.hpp
index 1281a7d..fbd1821 100644
--- a/include/boost/random/poisson_distribution.hpp
+++ b/include/boost/random/poisson_distribution.hpp
@@ -326,7 +326,12 @@ private:
         while(u > p) {
             u = u - p;
             ++x;
-            p = _mean * p / x;
+            RealType p1 = _mean * p / x;
+            if(p1 < (std::numeric_limits<RealType>::epsilon)() && p1 < p)
+                // the rest of the distribution is beyond the precision
+                // of u, so that round-off could keep u > p forever.
+                break;
+            p = p1;
         }
         return x;
     }
-- 
2.43.0


From 3039ba5f82a80564de70e375f33f5e3efa5d7905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:28 +0000
Subject: [PATCH 15/48] fix: generate_canonical of a floating point generator
 scaled the first value to almost zero

The first value was added as a fraction of [0, 1) instead of as the
lowest digit, so that a result formed by a single draw was below
2^-engine_bits.
---
 include/boost/random/generate_canonical.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/generate_canonical.hpp b/include/boost/random/generate_canonical.hpp
index 5f45b4e..d849f53 100644
--- a/include/boost/random/generate_canonical.hpp
+++ b/include/boost/random/generate_canonical.hpp
@@ -60,7 +60,7 @@ RealType generate_canonical_impl(URNG& g, boost::false_type /*is_integral*/)
     RealType R = pow(RealType(2), RealType(engine_bits));
     RealType mult = R;
     RealType limit = pow(RealType(2), RealType(b));
-    RealType S = RealType(g() - (g.min)());
+    RealType S(floor((RealType(g()) - RealType((g.min)())) * R));
     while(mult < limit) {
         RealType inc(floor((RealType(g()) - RealType((g.min)())) * R));
         S += inc * mult;
-- 
2.43.0


From 5601a148ee63bf8f5b1f48e247a282d350f65c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:28 +0000
Subject: [PATCH 16/48] fix: generate on an empty range wrote past its end

---
 include/boost/random/detail/seed_impl.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/random/detail/seed_impl.hpp b/include/boost/random/detail/seed_impl.hpp
index 5e79582..573793a 100644
--- a/include/boost/random/detail/seed_impl.hpp
+++ b/include/boost/random/detail/seed_impl.hpp
@@ -84,6 +84,7 @@ inline T pow2(int n)
 template<class Engine, class Iter>
 void generate_from_real(Engine& eng, Iter begin, Iter end)
 {
+    if(begin == end) return;
     using std::fmod;
     typedef typename Engine::result_type RealType;
     const int Bits = detail::generator_bits<Engine>::value();
@@ -131,6 +132,7 @@ void generate_from_real(Engine& eng, Iter begin, Iter end)
 template<class Engine, class Iter>
 void generate_from_int(Engine& eng, Iter begin, Iter end)
 {
+    if(begin == end) return;
     typedef typename Engine::result_type IntType;
     typedef typename boost::random::traits::make_unsigned<IntType>::type unsigned_type;
     int remaining_bits = 0;
-- 
2.43.0


From a65ae58308a03925d4a5dfea7abd465a562f28a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:28 +0000
Subject: [PATCH 17/48] fix: reading a quasi-random generator of another
 dimension kept stale values

seed(init) does not recompute the state when init is the current
sequence number.
---
 include/boost/random/detail/qrng_base.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/random/detail/qrng_base.hpp b/include/boost/random/detail/qrng_base.hpp
index 5eeacfb..8d0b48d 100644
--- a/include/boost/random/detail/qrng_base.hpp
+++ b/include/boost/random/detail/qrng_base.hpp
@@ -159,6 +159,8 @@ public:
       {
         s.lattice.resize(dim);
         s.quasi_state.resize(dim);
+        // The values in quasi_state belong to the old dimension
+        s.derived().seed();
       }
       // Fast-forward to the correct state
       s.derived().seed(seed);
-- 
2.43.0


From 96fe5c8fc2d118a75d7aeb8fb049c15f69ac6d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:28 +0000
Subject: [PATCH 18/48] fix: discarding 2^64 - 1 values of a one-dimensional
 quasi-random generator could rewind it

---
 include/boost/random/detail/qrng_base.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/boost/random/detail/qrng_base.hpp b/include/boost/random/detail/qrng_base.hpp
index 8d0b48d..99c8d73 100644
--- a/include/boost/random/detail/qrng_base.hpp
+++ b/include/boost/random/detail/qrng_base.hpp
@@ -111,6 +111,10 @@ public:
     boost::uintmax_t vec_n = z / dimension_value;
     std::size_t carry = curr_elem + (z % dimension_value);
 
+    // Don't allow vec_n to overflow
+    if ((std::numeric_limits<boost::uintmax_t>::max)() - vec_n < carry / dimension_value)
+      boost::throw_exception( std::range_error("qrng_base: discard") );
+
     vec_n += carry / dimension_value;
     carry  = carry % dimension_value;
 
-- 
2.43.0


From e6d5c947809e778b52859cdbda227b0f0b398f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:47 +0000
Subject: [PATCH 19/48] fix: sobol_engine with fewer bits than a polynomial's
 degree wrote past its table

---
 include/boost/random/sobol.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/sobol.hpp b/include/boost/random/sobol.hpp
index 042b3ba..2c2d706 100644
--- a/include/boost/random/sobol.hpp
+++ b/include/boost/random/sobol.hpp
@@ -65,7 +65,8 @@ public:
       const unsigned degree = qrng_detail::msb(poly); // integer log2(poly)
 
       // set initial values of m from table
-      for (unsigned k = 0; k != degree; ++k)
+      // (only bit_count of them fit when the polynomial's degree is greater)
+      for (unsigned k = 0; k != degree && k != bit_count; ++k)
         cj[dimension*k + dim] = SobolTables::minit(dim-1, k);
 
       // Calculate remaining elements for this dimension,
-- 
2.43.0


From a2d0c567c41d9ab5b2c6aa547cef644b71e3b3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:27 +0000
Subject: [PATCH 20/48] fix: muldivmod corrected a quotient digit that was
 already right

---
 include/boost/random/detail/large_arithmetic.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/boost/random/detail/large_arithmetic.hpp b/include/boost/random/detail/large_arithmetic.hpp
index 66f6b4e..cf919a4 100644
--- a/include/boost/random/detail/large_arithmetic.hpp
+++ b/include/boost/random/detail/large_arithmetic.hpp
@@ -78,13 +78,15 @@ inline div_t muldivmod(boost::uintmax_t a, boost::uintmax_t b, boost::uintmax_t
 
         digit_t q = digit_t((product[i] == m_[1]) ? mask : temp / m_[1]);
 
-        ::boost::uintmax_t rem =
-            ((temp - ::boost::uintmax_t(q) * m_[1]) << bits) + product[i - 2];
+        ::boost::uintmax_t partial = temp - ::boost::uintmax_t(q) * m_[1];
+        ::boost::uintmax_t rem = (partial << bits) + product[i - 2];
 
         ::boost::uintmax_t diff = m_[0] * ::boost::uintmax_t(q);
 
+        // the quotient digit can only be too large if
+        // partial << bits did not overflow.
         int error = 0;
-        if(diff > rem) {
+        if((partial >> bits) == 0 && diff > rem) {
             if(diff - rem > m) {
                 error = 2;
             } else {
-- 
2.43.0


From 26ed7e1d8780c37ef9c9d6d18b83616eef107f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:47 +0000
Subject: [PATCH 21/48] fix: muldivmod modulo 2^64 shifted its operand by 63
 bits

---
 include/boost/random/detail/large_arithmetic.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/detail/large_arithmetic.hpp b/include/boost/random/detail/large_arithmetic.hpp
index cf919a4..3c6d352 100644
--- a/include/boost/random/detail/large_arithmetic.hpp
+++ b/include/boost/random/detail/large_arithmetic.hpp
@@ -36,7 +36,9 @@ inline div_t muldivmod(boost::uintmax_t a, boost::uintmax_t b, boost::uintmax_t
     const ::boost::uintmax_t mask = (::boost::uintmax_t(1) << bits) - 1;
     typedef ::boost::uint_t<bits>::fast digit_t;
 
-    int shift = std::numeric_limits< ::boost::uintmax_t>::digits - 1
+    // m == 0 represents a modulus of 2^digits
+    int shift = (m == 0) ? 0 :
+        std::numeric_limits< ::boost::uintmax_t>::digits - 1
         - detail::integer_log2(m);
 
     a <<= shift;
-- 
2.43.0


From df6f09d8fcffdb3b9c326b2645f4a0143946d862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:14 +0000
Subject: [PATCH 22/48] fix: linear_feedback_shift_engine returned values above
 max() when w is less than the word's width

---
 include/boost/random/linear_feedback_shift.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/random/linear_feedback_shift.hpp b/include/boost/random/linear_feedback_shift.hpp
index a5c2ce7..19d5779 100644
--- a/include/boost/random/linear_feedback_shift.hpp
+++ b/include/boost/random/linear_feedback_shift.hpp
@@ -91,8 +91,8 @@ public:
         UIntType, s0)
     {
         value = s0 & wordmask();
-        if(value < (1 << (w-k))) {
-            value += 1 << (w-k);
+        if(value < (UIntType(1) << (w-k))) {
+            value += UIntType(1) << (w-k);
         }
     }
     
@@ -118,7 +118,7 @@ public:
     {
         const UIntType b = (((value << q) ^ value) & wordmask()) >> (k-s);
         const UIntType mask = (wordmask() << (w-k)) & wordmask();
-        value = ((value & mask) << s) ^ b;
+        value = (((value & mask) << s) & wordmask()) ^ b;
         return value;
     }
   
-- 
2.43.0


From f3e4882721d9dbb7c220c9ccaf3e0fdbe250efd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:08 +0000
Subject: [PATCH 23/48] fix: linear_congruential_engine::discard was wrong for
 moduli and multipliers with common factors

---
 include/boost/random/linear_congruential.hpp | 40 +++++---------------
 1 file changed, 10 insertions(+), 30 deletions(-)

diff --git a/include/boost/random/linear_congruential.hpp b/include/boost/random/linear_congruential.hpp
index 62b05ec..e467420 100644
--- a/include/boost/random/linear_congruential.hpp
+++ b/include/boost/random/linear_congruential.hpp
@@ -193,37 +193,17 @@ public:
     void discard(boost::uintmax_t z)
     {
         typedef const_mod<IntType, m> mod_type;
-        IntType b_inv = mod_type::invert(a-1);
-        IntType b_gcd = mod_type::mult(a-1, b_inv);
-        if(b_gcd == 1) {
-            IntType a_z = mod_type::pow(a, z);
-            _x = mod_type::mult_add(a_z, _x, 
-                mod_type::mult(mod_type::mult(c, b_inv), a_z - 1));
-        } else {
-            // compute (a^z - 1)*c % (b_gcd * m) / (b / b_gcd) * inv(b / b_gcd)
-            // we're storing the intermediate result / b_gcd
-            IntType a_zm1_over_gcd = 0;
-            IntType a_km1_over_gcd = (a - 1) / b_gcd;
-            boost::uintmax_t exponent = z;
-            while(exponent != 0) {
-                if(exponent % 2 == 1) {
-                    a_zm1_over_gcd =
-                        mod_type::mult_add(
-                            b_gcd,
-                            mod_type::mult(a_zm1_over_gcd, a_km1_over_gcd),
-                            mod_type::add(a_zm1_over_gcd, a_km1_over_gcd));
-                }
-                a_km1_over_gcd = mod_type::mult_add(
-                    b_gcd,
-                    mod_type::mult(a_km1_over_gcd, a_km1_over_gcd),
-                    mod_type::add(a_km1_over_gcd, a_km1_over_gcd));
-                exponent /= 2;
+        // x -> step_mult * x + step_add is the composition of
+        // 2^k transitions of the generator after k iterations.
+        IntType step_mult = a;
+        IntType step_add = c;
+        while(z != 0) {
+            if(z % 2 == 1) {
+                _x = mod_type::mult_add(step_mult, _x, step_add);
             }
-            
-            IntType a_z = mod_type::mult_add(b_gcd, a_zm1_over_gcd, 1);
-            IntType num = mod_type::mult(c, a_zm1_over_gcd);
-            b_inv = mod_type::invert((a-1)/b_gcd);
-            _x = mod_type::mult_add(a_z, _x, mod_type::mult(b_inv, num));
+            step_add = mod_type::mult_add(step_mult, step_add, step_add);
+            step_mult = mod_type::mult(step_mult, step_mult);
+            z /= 2;
         }
     }
 
-- 
2.43.0


From ebe98a5bcde4940ae8326a902264d22ab2e23686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:31 +0000
Subject: [PATCH 24/48] fix: independent_bits_engine aborted over a base
 generator of less than one bit per call

---
 include/boost/random/independent_bits.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/independent_bits.hpp b/include/boost/random/independent_bits.hpp
index 72a8ed7..2f655ac 100644
--- a/include/boost/random/independent_bits.hpp
+++ b/include/boost/random/independent_bits.hpp
@@ -258,10 +258,11 @@ private:
         base_unsigned& y0, base_unsigned& y1,
         base_unsigned& y0_mask, base_unsigned& y1_mask)
     {
-        BOOST_ASSERT(w >= n);
+        // w0 is zero if the base generator produces less than
+        // one bit per call.
         w0 = w/n;
         n0 = n - w % n;
-        y0_mask = (base_unsigned(2) << (w0 - 1)) - 1;
+        y0_mask = (w0 == 0) ? 0 : (base_unsigned(2) << (w0 - 1)) - 1;
         y1_mask = (y0_mask << 1) | 1;
         y0 = (range + 1) & ~y0_mask;
         y1 = (range + 1) & ~y1_mask;
-- 
2.43.0


From e3a9a6b282c6f6f2110d77d79d98f0cd37302015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:08 +0000
Subject: [PATCH 25/48] fix: seed_seq::generate left bits above 2^32 in wider
 output types

---
 include/boost/random/seed_seq.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/seed_seq.hpp b/include/boost/random/seed_seq.hpp
index b0b1de2..7230edd 100644
--- a/include/boost/random/seed_seq.hpp
+++ b/include/boost/random/seed_seq.hpp
@@ -86,7 +86,7 @@ public:
             value_type r2 = static_cast<value_type>(r1 +
                 ((k == 0) ? s :
                  (k <= s) ? k % n + v[k - 1] :
-                 (k % n)));
+                 (k % n))) & mask;
             *(first + (k+p)%n) = (*(first + (k+p)%n) + r1) & mask;
             *(first + (k+q)%n) = (*(first + (k+q)%n) + r2) & mask;
             *(first + k%n) = r2;
@@ -97,7 +97,7 @@ public:
                 & mask);
             r3 = r3 ^ (r3 >> 27);
             r3 = (r3 * 1566083941u) & mask;
-            value_type r4 = static_cast<value_type>(r3 - k%n);
+            value_type r4 = static_cast<value_type>(r3 - k%n) & mask;
             *(first + (k+p)%n) ^= r3;
             *(first + (k+q)%n) ^= r4;
             *(first + k%n) = r4;
-- 
2.43.0


From 7f0ea4a80ab62850abc04464990d0fcc1ce67718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:51 +0000
Subject: [PATCH 26/48] fix: seed_seq::generate divided by zero on an empty
 range

---
 include/boost/random/seed_seq.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/random/seed_seq.hpp b/include/boost/random/seed_seq.hpp
index 7230edd..134f92f 100644
--- a/include/boost/random/seed_seq.hpp
+++ b/include/boost/random/seed_seq.hpp
@@ -65,6 +65,7 @@ public:
     void generate(Iter first, Iter last) const
     {
         typedef typename std::iterator_traits<Iter>::value_type value_type;
+        if(first == last) return;
         std::fill(first, last, static_cast<value_type>(0x8b8b8b8bu));
         std::size_t s = v.size();
         std::size_t n = last - first;
-- 
2.43.0


From 8c02a3e2a108759edb61b84c782406f84db32a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:16 +0000
Subject: [PATCH 27/48] fix: discrete_distribution used the sum of integer
 weights exactly when it overflows

---
 include/boost/random/discrete_distribution.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/discrete_distribution.hpp b/include/boost/random/discrete_distribution.hpp
index 6642afd..81198e4 100644
--- a/include/boost/random/discrete_distribution.hpp
+++ b/include/boost/random/discrete_distribution.hpp
@@ -114,7 +114,7 @@ struct integer_alias_table {
                 iter = weights.begin(), end = weights.end();
             iter != end; ++iter)
         {
-            if((std::numeric_limits<WeightType>::max)() - result > *iter) {
+            if((std::numeric_limits<WeightType>::max)() - result < *iter) {
                 return static_cast<WeightType>(0);
             }
             result += *iter;
-- 
2.43.0


From 0192739dd56bd3c6d890cb8ddbeb1782b9471030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:40 +0000
Subject: [PATCH 28/48] fix: piecewise_constant_distribution kept the given
 weights after falling back to one interval

---
 include/boost/random/piecewise_constant_distribution.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/random/piecewise_constant_distribution.hpp b/include/boost/random/piecewise_constant_distribution.hpp
index 488f41c..44c1a1f 100644
--- a/include/boost/random/piecewise_constant_distribution.hpp
+++ b/include/boost/random/piecewise_constant_distribution.hpp
@@ -134,6 +134,7 @@ public:
                 _intervals.clear();
                 _intervals.push_back(RealType(0));
                 _intervals.push_back(RealType(1));
+                _weights.clear();
                 _weights.push_back(WeightType(1));
             }
         }
@@ -324,6 +325,7 @@ public:
             _intervals.clear();
             _intervals.push_back(RealType(0));
             _intervals.push_back(RealType(1));
+            _bins = discrete_distribution<std::size_t, WeightType>();
         }
     }
     /**
-- 
2.43.0


From 3bc828045c593c227fb54ab3935ae68d7104f3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:40 +0000
Subject: [PATCH 29/48] fix: hyperexponential_distribution rejected valid
 weights when round-off made the last probability negative

---
 include/boost/random/hyperexponential_distribution.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/hyperexponential_distribution.hpp b/include/boost/random/hyperexponential_distribution.hpp
index 3a71c9e..3ff532f 100644
--- a/include/boost/random/hyperexponential_distribution.hpp
+++ b/include/boost/random/hyperexponential_distribution.hpp
@@ -64,7 +64,7 @@ std::vector<T>& normalize(std::vector<T>& v)
         *it /= sum;
         final_sum += *it;
     }
-    *end = 1-final_sum; // avoids round off errors thus ensuring the probabilities really sum to 1
+    *end = (final_sum < 1) ? 1-final_sum : 0; // avoids round off errors thus ensuring the probabilities really sum to 1
 
     return v;
 }
-- 
2.43.0


From e86595aa37f269bf13a217566da948cf8ac3a891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:07 +0000
Subject: [PATCH 30/48] fix: hyperexponential_distribution::param_type from a
 pair of iterators did not normalize its probabilities

---
 include/boost/random/hyperexponential_distribution.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/hyperexponential_distribution.hpp b/include/boost/random/hyperexponential_distribution.hpp
index 3ff532f..06db849 100644
--- a/include/boost/random/hyperexponential_distribution.hpp
+++ b/include/boost/random/hyperexponential_distribution.hpp
@@ -336,7 +336,9 @@ class hyperexponential_distribution
         : probs_(std::distance(rate_first, rate_last), 1), // will be normalized below
           rates_(rate_first, rate_last)
         {
-            BOOST_ASSERT(probs_.size() == rates_.size());
+            hyperexp_detail::normalize(probs_);
+
+            BOOST_ASSERT( hyperexp_detail::check_params(probs_, rates_) );
         }
 
         /**
-- 
2.43.0


From 4ff3d8f80ae87d06ee6e6a20bc400c110177b718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:34 +0000
Subject: [PATCH 31/48] fix: discrete_distribution::param_type from an empty
 range drew -1

---
 include/boost/random/discrete_distribution.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/random/discrete_distribution.hpp b/include/boost/random/discrete_distribution.hpp
index 81198e4..a7c2bed 100644
--- a/include/boost/random/discrete_distribution.hpp
+++ b/include/boost/random/discrete_distribution.hpp
@@ -337,6 +337,9 @@ public:
         {}
         void normalize()
         {
+            if(_probabilities.empty()) {
+                _probabilities.push_back(static_cast<WeightType>(1));
+            }
             impl_type::normalize(_probabilities);
         }
         std::vector<WeightType> _probabilities;
-- 
2.43.0


From 6c148114007cdee70cca068164120b9b10c54b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:37 +0000
Subject: [PATCH 32/48] fix: piecewise_constant_distribution::densities did not
 compile when the weight type differs

---
 include/boost/random/piecewise_constant_distribution.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/boost/random/piecewise_constant_distribution.hpp b/include/boost/random/piecewise_constant_distribution.hpp
index 44c1a1f..fd28ea0 100644
--- a/include/boost/random/piecewise_constant_distribution.hpp
+++ b/include/boost/random/piecewise_constant_distribution.hpp
@@ -393,11 +393,7 @@ public:
      */
     std::vector<RealType> densities() const
     {
-        std::vector<RealType> result(_bins.probabilities());
-        for(std::size_t i = 0; i < result.size(); ++i) {
-            result[i] /= (_intervals[i+1] - _intervals[i]);
-        }
-        return(result);
+        return param().densities();
     }
     /**  Returns a vector containing the interval boundaries. */
     std::vector<RealType> intervals() const { return _intervals; }
-- 
2.43.0


From 8c41772ce06866cbf25db37ea79221d4219f2303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:17 +0000
Subject: [PATCH 33/48] fix: shuffle_order_engine refuses saved text whose
 values are out of range (indexed its table out of bounds)

---
 include/boost/random/shuffle_order.hpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/include/boost/random/shuffle_order.hpp b/include/boost/random/shuffle_order.hpp
index 0dc6b26..1b6d353 100644
--- a/include/boost/random/shuffle_order.hpp
+++ b/include/boost/random/shuffle_order.hpp
@@ -192,10 +192,25 @@ public:
     /** Reads a @c shuffle_order_engine from a @c std::istream. */
     BOOST_RANDOM_DETAIL_ISTREAM_OPERATOR(is, shuffle_order_engine, s)
     {
+        // v and y are used to compute indexes, so they have to be in range.
+        result_type new_v[k];
+        result_type new_y = (min)();
         is >> s._rng;
-        for(std::size_t i = 0; i < k; ++i)
-            is >> std::ws >> s.v[i];
-        is >> std::ws >> s.y;
+        bool valid = true;
+        for(std::size_t i = 0; i < k && is; ++i) {
+            is >> std::ws >> new_v[i];
+            valid = valid && is && !(new_v[i] < (min)()) && !(new_v[i] > (max)());
+        }
+        is >> std::ws >> new_y;
+        valid = valid && !(new_y < (min)()) && !(new_y > (max)());
+        if(is) {
+            if(valid) {
+                std::copy(new_v, new_v + k, s.v);
+                s.y = new_y;
+            } else {
+                is.setstate(std::ios_base::failbit);
+            }
+        }
         return is;
     }
 
-- 
2.43.0


From c539d5965b747ae8029a68cc06f20317c4ab9e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:17 +0000
Subject: [PATCH 34/48] fix: piecewise distributions refuse text whose lists
 have mismatching lengths (read past the lists)

---
 include/boost/random/piecewise_constant_distribution.hpp | 9 +++++++--
 include/boost/random/piecewise_linear_distribution.hpp   | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/boost/random/piecewise_constant_distribution.hpp b/include/boost/random/piecewise_constant_distribution.hpp
index fd28ea0..92adebf 100644
--- a/include/boost/random/piecewise_constant_distribution.hpp
+++ b/include/boost/random/piecewise_constant_distribution.hpp
@@ -195,8 +195,13 @@ public:
             detail::read_vector(is, new_intervals);
             detail::read_vector(is, new_weights);
             if(is) {
-                parm._intervals.swap(new_intervals);
-                parm._weights.swap(new_weights);
+                if(!new_weights.empty()
+                   && new_intervals.size() == new_weights.size() + 1) {
+                    parm._intervals.swap(new_intervals);
+                    parm._weights.swap(new_weights);
+                } else {
+                    is.setstate(std::ios_base::failbit);
+                }
             }
             return is;
         }
diff --git a/include/boost/random/piecewise_linear_distribution.hpp b/include/boost/random/piecewise_linear_distribution.hpp
index 541c57f..93fd97b 100644
--- a/include/boost/random/piecewise_linear_distribution.hpp
+++ b/include/boost/random/piecewise_linear_distribution.hpp
@@ -209,8 +209,13 @@ public:
             detail::read_vector(is, new_intervals);
             detail::read_vector(is, new_weights);
             if(is) {
-                parm._intervals.swap(new_intervals);
-                parm._weights.swap(new_weights);
+                if(new_intervals.size() >= 2
+                   && new_intervals.size() == new_weights.size()) {
+                    parm._intervals.swap(new_intervals);
+                    parm._weights.swap(new_weights);
+                } else {
+                    is.setstate(std::ios_base::failbit);
+                }
             }
             return is;
         }
-- 
2.43.0


From c81d4a65fa406492a3efb4c027262c8327ce025c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:17 +0000
Subject: [PATCH 35/48] fix: distributions keep their parameters when reading
 them from a stream fails

---
 include/boost/random/bernoulli_distribution.hpp   | 5 ++++-
 include/boost/random/cauchy_distribution.hpp      | 5 ++++-
 include/boost/random/exponential_distribution.hpp | 5 ++++-
 include/boost/random/normal_distribution.hpp      | 5 ++++-
 include/boost/random/uniform_on_sphere.hpp        | 6 ++++--
 include/boost/random/uniform_smallint.hpp         | 5 ++++-
 6 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/include/boost/random/bernoulli_distribution.hpp b/include/boost/random/bernoulli_distribution.hpp
index 40a5564..05241ae 100644
--- a/include/boost/random/bernoulli_distribution.hpp
+++ b/include/boost/random/bernoulli_distribution.hpp
@@ -172,7 +172,10 @@ public:
      */
     BOOST_RANDOM_DETAIL_ISTREAM_OPERATOR(is, bernoulli_distribution, bd)
     {
-        is >> bd._p;
+        param_type parm;
+        if(is >> parm) {
+            bd.param(parm);
+        }
         return is;
     }
 
diff --git a/include/boost/random/cauchy_distribution.hpp b/include/boost/random/cauchy_distribution.hpp
index 998e523..d9dfe32 100644
--- a/include/boost/random/cauchy_distribution.hpp
+++ b/include/boost/random/cauchy_distribution.hpp
@@ -183,7 +183,10 @@ public:
      */
     BOOST_RANDOM_DETAIL_ISTREAM_OPERATOR(is, cauchy_distribution, cd)
     {
-        is >> cd._median >> std::ws >> cd._sigma;
+        param_type parm;
+        if(is >> parm) {
+            cd.param(parm);
+        }
         return is;
     }
 
diff --git a/include/boost/random/exponential_distribution.hpp b/include/boost/random/exponential_distribution.hpp
index b4b95c5..9af97b6 100644
--- a/include/boost/random/exponential_distribution.hpp
+++ b/include/boost/random/exponential_distribution.hpp
@@ -356,7 +356,10 @@ public:
     /** Reads the distribution from a std::istream. */
     BOOST_RANDOM_DETAIL_ISTREAM_OPERATOR(is, exponential_distribution, ed)
     {
-        is >> ed._lambda;
+        param_type parm;
+        if(is >> parm) {
+            ed.param(parm);
+        }
         return is;
     }
 
diff --git a/include/boost/random/normal_distribution.hpp b/include/boost/random/normal_distribution.hpp
index b7ff3eb..4276410 100644
--- a/include/boost/random/normal_distribution.hpp
+++ b/include/boost/random/normal_distribution.hpp
@@ -341,7 +341,10 @@ public:
     /** Reads a @c normal_distribution from a @c std::istream. */
     BOOST_RANDOM_DETAIL_ISTREAM_OPERATOR(is, normal_distribution, nd)
     {
-        is >> std::ws >> nd._mean >> std::ws >> nd._sigma;
+        param_type parm;
+        if(is >> std::ws >> parm) {
+            nd.param(parm);
+        }
         return is;
     }
 
diff --git a/include/boost/random/uniform_on_sphere.hpp b/include/boost/random/uniform_on_sphere.hpp
index ce2e352..8e383aa 100644
--- a/include/boost/random/uniform_on_sphere.hpp
+++ b/include/boost/random/uniform_on_sphere.hpp
@@ -256,8 +256,10 @@ public:
     /** Reads the distribution from a @c std::istream. */
     BOOST_RANDOM_DETAIL_ISTREAM_OPERATOR(is, uniform_on_sphere, sd)
     {
-        is >> sd._dim;
-        sd._container.resize(sd._dim);
+        param_type parm;
+        if(is >> parm) {
+            sd.param(parm);
+        }
         return is;
     }
 
diff --git a/include/boost/random/uniform_smallint.hpp b/include/boost/random/uniform_smallint.hpp
index d8f0cd3..405eb04 100644
--- a/include/boost/random/uniform_smallint.hpp
+++ b/include/boost/random/uniform_smallint.hpp
@@ -215,7 +215,10 @@ public:
     /** Reads the distribution from a @c std::istream. */
     BOOST_RANDOM_DETAIL_ISTREAM_OPERATOR(is, uniform_smallint, ud)
     {
-        is >> ud._min >> std::ws >> ud._max;
+        param_type parm;
+        if(is >> parm) {
+            ud.param(parm);
+        }
         return is;
     }
 
-- 
2.43.0


From e58bed02ac435ec0a837aff8b502ff60db42d411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:49 +0000
Subject: [PATCH 36/48] fix: add the lower bound when the range is a power of
 the generator's range

generate_uniform_int returned the offset from min_value instead of the
value in the branch where the destination range is an integer power of
the generator's range.
---
 include/boost/random/uniform_int_distribution.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/uniform_int_distribution.hpp b/include/boost/random/uniform_int_distribution.hpp
index 8a3ea7b..6acff25 100644
--- a/include/boost/random/uniform_int_distribution.hpp
+++ b/include/boost/random/uniform_int_distribution.hpp
@@ -120,7 +120,7 @@ T generate_uniform_int(
           if(mult * range_type(brange) == range - mult + 1) {
               // The destination range is an integer power of
               // the generator's range.
-              return(result);
+              return random::detail::add<range_type, result_type>()(result, min_value);
           }
 
           // Postcondition: mult <= range
-- 
2.43.0


From de47b161deba0c2c61000ff197f15a2d74d61fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:19 +0000
Subject: [PATCH 37/48] fix: use 1 to m bits for the last digit of an int/float
 pair

When the mantissa ended exactly at a digit boundary, the number of
remaining bits came out as 0 instead of m, which shifted by -1 and
scaled the fraction wrongly.
---
 include/boost/random/detail/int_float_pair.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/detail/int_float_pair.hpp b/include/boost/random/detail/int_float_pair.hpp
index 7ec2e26..eb47148 100644
--- a/include/boost/random/detail/int_float_pair.hpp
+++ b/include/boost/random/detail/int_float_pair.hpp
@@ -88,7 +88,7 @@ std::pair<RealType, int> generate_int_float_pair(Engine& eng, boost::true_type)
     }
     if (m - w%m < digits)
     {
-        const std::size_t remaining = (digits - m + w%m) % m;
+        const std::size_t remaining = (digits - m + w%m - 1) % m + 1;
         base_unsigned u = generate_one_digit(eng, m);
         r += u & ((base_unsigned(2) << (remaining - 1)) - 1);
         const RealType mult = RealType(0.5)/RealType(base_unsigned(1) << (remaining - 1));
-- 
2.43.0


From 4417082c9596096726ba0085d0883c1abdac3f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:17 +0000
Subject: [PATCH 38/48] fix: jump ahead a mersenne_twister whose words are
 narrower than its type

reconstruct_state let bits above the word size leak into the state, so
discard by more than the threshold gave a wrong state, for example for
mersenne_twister_engine<uint_fast32_t, 32, ...>.
---
 include/boost/random/mersenne_twister.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/mersenne_twister.hpp b/include/boost/random/mersenne_twister.hpp
index ca48e91..a214469 100644
--- a/include/boost/random/mersenne_twister.hpp
+++ b/include/boost/random/mersenne_twister.hpp
@@ -464,8 +464,10 @@ private:
     }
     void reconstruct_state(const detail::polynomial& p)
     {
-        const UIntType upper_mask = (~static_cast<UIntType>(0)) << r;
-        const UIntType lower_mask = ~upper_mask;
+        // x holds words of w bits, which may be fewer than UIntType has
+        const UIntType word_mask = ((static_cast<UIntType>(1) << (w-1)) - 1) * 2 + 1;
+        const UIntType lower_mask = ~((~static_cast<UIntType>(0)) << r);
+        const UIntType upper_mask = word_mask & ~lower_mask;
         const std::size_t num_bits = w*n - r;
         for(std::size_t j = num_bits - n + 1; j <= num_bits; ++j)
             x[j % n] = p[j];
-- 
2.43.0


From 09a2a0b673771f56c8a053e801fa4fffa73dc03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:24 +0000
Subject: [PATCH 39/48] fix: no access past the end of a polynomial in
 add_shifted_inplace

The word after the last one was read and written even when nothing is
carried into it; with some sizes it is past the end of the buffer.
---
 include/boost/random/detail/polynomial.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/detail/polynomial.hpp b/include/boost/random/detail/polynomial.hpp
index a8c4b26..44cf9b5 100644
--- a/include/boost/random/detail/polynomial.hpp
+++ b/include/boost/random/detail/polynomial.hpp
@@ -50,7 +50,9 @@ public:
             output[i] ^= (tmp << shift) | (prev >> (bits-shift));
             prev = tmp;
         }
-        output[size] ^= (prev >> (bits-shift));
+        // output[size] may lie past the end when there is nothing to carry
+        digit_t carry = prev >> (bits-shift);
+        if(carry != 0) output[size] ^= carry;
     }
 
     static void multiply_simple(std::size_t size, const digit_t * lhs,
-- 
2.43.0


From ef608ea068d438bca9e6fef3b90af1c342bb5ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:37 +0000
Subject: [PATCH 40/48] fix: an engine of a derived class is copied, not used
 as a seed sequence

The deprecated additive_combine and discard_block reseeded themselves from
(and advanced) a non-const object they were copied from.
---
 include/boost/random/detail/seed.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/detail/seed.hpp b/include/boost/random/detail/seed.hpp
index d2e424a..cc6cf68 100644
--- a/include/boost/random/detail/seed.hpp
+++ b/include/boost/random/detail/seed.hpp
@@ -21,6 +21,7 @@
 
 #include <boost/utility/enable_if.hpp>
 #include <boost/type_traits/is_arithmetic.hpp>
+#include <boost/type_traits/is_base_of.hpp>
 
 namespace boost {
 namespace random {
@@ -29,8 +30,12 @@ namespace detail {
 template<class T>
 struct disable_seed : boost::disable_if<boost::is_arithmetic<T> > {};
 
+// Neither an Engine nor an object of a class derived from it is a seed:
+// it is copied instead.
 template<class Engine, class T>
-struct disable_constructor : disable_seed<T> {};
+struct disable_constructor :
+    boost::disable_if_c<boost::is_arithmetic<T>::value ||
+                        boost::is_base_of<Engine, T>::value> {};
 
 template<class Engine>
 struct disable_constructor<Engine, Engine> {};
-- 
2.43.0


From 4a10afbeda4057d9076ba9c5bec53df0cc113285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:37 +0000
Subject: [PATCH 41/48] fix: the deprecated linear_feedback_shift could not be
 constructed from a seed

---
 include/boost/random/linear_feedback_shift.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/random/linear_feedback_shift.hpp b/include/boost/random/linear_feedback_shift.hpp
index 19d5779..5064d00 100644
--- a/include/boost/random/linear_feedback_shift.hpp
+++ b/include/boost/random/linear_feedback_shift.hpp
@@ -74,7 +74,7 @@ public:
     /** Constructs a @c linear_feedback_shift_engine, seeding it with seq. */
     BOOST_RANDOM_DETAIL_SEED_SEQ_CONSTRUCTOR(linear_feedback_shift_engine,
         SeedSeq, seq)
-    { seed(seq); }
+    { this->seed(seq); }
     
     /**
      * Constructs a @c linear_feedback_shift_engine, seeding it with 
@@ -201,10 +201,10 @@ public:
     linear_feedback_shift() {}
     BOOST_RANDOM_DETAIL_SEED_SEQ_CONSTRUCTOR(linear_feedback_shift,
         SeedSeq, seq)
-    { seed(seq); }
+    { this->seed(seq); }
     BOOST_RANDOM_DETAIL_ARITHMETIC_CONSTRUCTOR(linear_feedback_shift,
         UIntType, val)
-    { seed(val); }
+    { this->seed(val); }
     template<class It>
     linear_feedback_shift(It& first, It last) : base_type(first, last) {}
 };
-- 
2.43.0


From 88996a81b5b1df6316fadd5ecba5340b648ee3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:37 +0000
Subject: [PATCH 42/48] fix: engine adaptors constructed from a non-const
 engine copy it

discard_block_engine, shuffle_order_engine and independent_bits_engine took a
non-const engine of their base type for a seed sequence; xor_combine_engine
took two of the same type for an iterator range.
---
 include/boost/random/discard_block.hpp    | 3 +++
 include/boost/random/independent_bits.hpp | 3 +++
 include/boost/random/shuffle_order.hpp    | 3 +++
 include/boost/random/xor_combine.hpp      | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/include/boost/random/discard_block.hpp b/include/boost/random/discard_block.hpp
index b9b09ab..05fc33d 100644
--- a/include/boost/random/discard_block.hpp
+++ b/include/boost/random/discard_block.hpp
@@ -61,6 +61,9 @@ public:
     discard_block_engine() : _rng(), _n(0) { }
     /** Constructs a new \discard_block_engine with a copy of rng. */
     explicit discard_block_engine(const base_type & rng) : _rng(rng), _n(0) { }
+    /** Constructs a new \discard_block_engine with a copy of rng. */
+    explicit discard_block_engine(base_type & rng)
+      : _rng(static_cast<const base_type &>(rng)), _n(0) { }
 
 #ifndef BOOST_NO_CXX11_RVALUE_REFERENCES
     /** Constructs a new \discard_block_engine with rng. */
diff --git a/include/boost/random/independent_bits.hpp b/include/boost/random/independent_bits.hpp
index 2f655ac..f9fd161 100644
--- a/include/boost/random/independent_bits.hpp
+++ b/include/boost/random/independent_bits.hpp
@@ -84,6 +84,9 @@ public:
 
     /** Constructs an @c independent_bits_engine by copying @c base. */
     independent_bits_engine(const base_type& base_arg) : _base(base_arg) {}
+    /** Constructs an @c independent_bits_engine by copying @c base. */
+    independent_bits_engine(base_type& base_arg)
+      : _base(static_cast<const base_type&>(base_arg)) {}
 
     /**
      * Contructs an @c independent_bits_engine with
diff --git a/include/boost/random/shuffle_order.hpp b/include/boost/random/shuffle_order.hpp
index 1b6d353..b343dce 100644
--- a/include/boost/random/shuffle_order.hpp
+++ b/include/boost/random/shuffle_order.hpp
@@ -97,6 +97,9 @@ public:
      * Complexity: Exactly k+1 invocations of the base generator.
      */
     explicit shuffle_order_engine(const base_type & rng) : _rng(rng) { init(); }
+    /** Uses a copy of the provided generator, as above. */
+    explicit shuffle_order_engine(base_type & rng)
+      : _rng(static_cast<const base_type &>(rng)) { init(); }
 
 #ifndef BOOST_NO_CXX11_RVALUE_REFERENCES
     explicit shuffle_order_engine(base_type&& rng) : _rng(rng) { init(); }
diff --git a/include/boost/random/xor_combine.hpp b/include/boost/random/xor_combine.hpp
index 514ee09..c861679 100644
--- a/include/boost/random/xor_combine.hpp
+++ b/include/boost/random/xor_combine.hpp
@@ -56,6 +56,9 @@ public:
     /** Constructs a @c xor_combine by copying two base generators. */
     xor_combine_engine(const base1_type & rng1, const base2_type & rng2)
       : _rng1(rng1), _rng2(rng2) { }
+    /** Constructs a @c xor_combine by copying two base generators. */
+    xor_combine_engine(base1_type & rng1, const base2_type & rng2)
+      : _rng1(static_cast<const base1_type &>(rng1)), _rng2(rng2) { }
 
     /**
      * Constructs a @c xor_combine_engine, seeding both base generators
-- 
2.43.0


From 13406fe185c0295cc3934015bec162fb413f5162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:25 +0000
Subject: [PATCH 43/48] fix: lagged_fibonacci_engine::word_size had no
 definition

---
 include/boost/random/lagged_fibonacci.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/random/lagged_fibonacci.hpp b/include/boost/random/lagged_fibonacci.hpp
index 446a2ef..5e53ac4 100644
--- a/include/boost/random/lagged_fibonacci.hpp
+++ b/include/boost/random/lagged_fibonacci.hpp
@@ -187,6 +187,8 @@ private:
 template<class UIntType, int w, unsigned int p, unsigned int q>
 const bool lagged_fibonacci_engine<UIntType, w, p, q>::has_fixed_range;
 template<class UIntType, int w, unsigned int p, unsigned int q>
+const int lagged_fibonacci_engine<UIntType, w, p, q>::word_size;
+template<class UIntType, int w, unsigned int p, unsigned int q>
 const unsigned int lagged_fibonacci_engine<UIntType, w, p, q>::long_lag;
 template<class UIntType, int w, unsigned int p, unsigned int q>
 const unsigned int lagged_fibonacci_engine<UIntType, w, p, q>::short_lag;
-- 
2.43.0


From 97fdb20d9991b0e298e08117c7a3c0f42d07253f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:28 +0000
Subject: [PATCH 44/48] fix: discrete_distribution with explicit parameters
 could return a value of weight zero

---
 include/boost/random/discrete_distribution.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/discrete_distribution.hpp b/include/boost/random/discrete_distribution.hpp
index a7c2bed..d3c7aee 100644
--- a/include/boost/random/discrete_distribution.hpp
+++ b/include/boost/random/discrete_distribution.hpp
@@ -469,8 +469,12 @@ public:
             }
             // This shouldn't be reachable, but round-off error
             // can prevent any match from being found when val is
-            // very close to 1.
-            return static_cast<IntType>(parm._probabilities.size() - 1);
+            // very close to 1.  Use the last value that can occur.
+            result = parm._probabilities.size() - 1;
+            while(result > 0 && !(parm._probabilities[result] > 0)) {
+                --result;
+            }
+            return static_cast<IntType>(result);
         } else {
             // WeightType is integral and sum(parm._probabilities)
             // would overflow.  Just use the easy solution.
-- 
2.43.0


From 783017c5d57480d549b227def45966ab7a745d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:41 +0000
Subject: [PATCH 45/48] fix: deprecated xor_combine reported a wrong range:
 max() was the smallest value of one engine or the largest of the other

---
 include/boost/random/xor_combine.hpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/include/boost/random/xor_combine.hpp b/include/boost/random/xor_combine.hpp
index c861679..5f42e06 100644
--- a/include/boost/random/xor_combine.hpp
+++ b/include/boost/random/xor_combine.hpp
@@ -208,9 +208,6 @@ public:
     xor_combine(It& first, It last) : base_type(first, last) {}
     xor_combine(const URNG1 & rng1, const URNG2 & rng2)
       : base_type(rng1, rng2) { }
-
-    result_type min BOOST_PREVENT_MACRO_SUBSTITUTION () const { return (std::min)((this->base1().min)(), (this->base2().min)()); }
-    result_type max BOOST_PREVENT_MACRO_SUBSTITUTION () const { return (std::max)((this->base1().min)(), (this->base2().max)()); }
 };
 
 /// \endcond
-- 
2.43.0


From eb3812be41896206b6b5a9234d2db7b273dbcb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:17 +0000
Subject: [PATCH 46/48] fix: binomial_distribution overflowed for the largest
 number of trials

t + 1 was computed in IntType: for t == max() the method was chosen and set
up from a negative number, and drawing did not end or gave a wrong value.
---
 include/boost/random/binomial_distribution.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/boost/random/binomial_distribution.hpp b/include/boost/random/binomial_distribution.hpp
index 6fc1fc2..c376f9c 100644
--- a/include/boost/random/binomial_distribution.hpp
+++ b/include/boost/random/binomial_distribution.hpp
@@ -260,7 +260,7 @@ private:
     {
         if(k < 10) return detail::binomial_table<RealType>::table[k];
         else {
-            RealType ikp1 = RealType(1) / (k + 1);
+            RealType ikp1 = RealType(1) / (RealType(k) + 1);
             return (RealType(1)/12
                  - (RealType(1)/360
                  - (RealType(1)/1260)*(ikp1*ikp1))*(ikp1*ikp1))*ikp1;
@@ -275,13 +275,13 @@ private:
         RealType p = (0.5 < _p)? (1 - _p) : _p;
         IntType t = _t;
         
-        m = static_cast<IntType>((t+1)*p);
+        m = static_cast<IntType>((RealType(t)+1)*p);
 
         if(use_inversion()) {
             _u.q_n = pow((1 - p), static_cast<RealType>(t));
         } else {
             _u.btrd.r = p/(1-p);
-            _u.btrd.nr = (t+1)*_u.btrd.r;
+            _u.btrd.nr = (RealType(t)+1)*_u.btrd.r;
             _u.btrd.npq = t*p*(1-p);
             RealType sqrt_npq = sqrt(_u.btrd.npq);
             _u.btrd.b = 1.15 + 2.53 * sqrt_npq;
@@ -352,9 +352,9 @@ private:
                 RealType h = (m + 0.5)*log((m + 1)/(_u.btrd.r*nm))
                            + fc(m) + fc(_t - m);
 
-                IntType nk = _t - k + 1;
-                if(v <= h + (_t+1)*log(static_cast<RealType>(nm)/nk)
-                          + (k + 0.5)*log(nk*_u.btrd.r/(k+1))
+                RealType nk = RealType(_t - k) + 1;
+                if(v <= h + (RealType(_t)+1)*log(static_cast<RealType>(nm)/nk)
+                          + (k + 0.5)*log(nk*_u.btrd.r/(RealType(k)+1))
                           - fc(k)
                           - fc(_t - k))
                 {
@@ -371,7 +371,7 @@ private:
     {
         RealType q = 1 - p;
         RealType s = p / q;
-        RealType a = (t + 1) * s;
+        RealType a = (RealType(t) + 1) * s;
         RealType r = _u.q_n;
         RealType u = uniform_01<RealType>()(urng);
         IntType x = 0;
-- 
2.43.0


From 6511800a9a5ad583484ccdcb9bae6e194d84de50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:17 +0000
Subject: [PATCH 47/48] fix: binomial_distribution converted a candidate before
 checking its range

The candidate of the rejection method is unbounded.  Converted to IntType
first, it could wrap into the range and be accepted (and the conversion is
undefined); compare it as a RealType.
---
 include/boost/random/binomial_distribution.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/binomial_distribution.hpp b/include/boost/random/binomial_distribution.hpp
index c376f9c..0780434 100644
--- a/include/boost/random/binomial_distribution.hpp
+++ b/include/boost/random/binomial_distribution.hpp
@@ -318,8 +318,10 @@ private:
             }
 
             RealType us = 0.5 - abs(u);
-            IntType k = static_cast<IntType>(floor((2*_u.btrd.a/us + _u.btrd.b)*u + _u.btrd.c));
-            if(k < 0 || k > _t) continue;
+            // us can be arbitrarily small, so the candidate may not fit in IntType.
+            RealType candidate = floor((2*_u.btrd.a/us + _u.btrd.b)*u + _u.btrd.c);
+            if(!(candidate >= 0 && candidate < RealType(_t) + 1)) continue;
+            IntType k = static_cast<IntType>(candidate);
             v = v*_u.btrd.alpha/(_u.btrd.a/(us*us) + _u.btrd.b);
             RealType km = abs(k - m);
             if(km <= 15) {
-- 
2.43.0


From 3449916e76863d2b6e719ffc3cad5b7941cee401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:48 +0000
Subject: [PATCH 48/48] fix: poisson_distribution accepted any candidate when a
 uniform value was zero

With v == 0 the logarithm in the acceptance test is -infinity and every
candidate was accepted, even one that does not fit in IntType (the result was
negative or far from the mean).
---
 include/boost/random/poisson_distribution.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/poisson_distribution.hpp b/include/boost/random/poisson_distribution.hpp
index fbd1821..58ac80a 100644
--- a/include/boost/random/poisson_distribution.hpp
+++ b/include/boost/random/poisson_distribution.hpp
@@ -290,7 +290,8 @@ private:
             }
 
             RealType us = 0.5 - abs(u);
-            if(us < 0.013 && v > us) {
+            // v == 0 would accept any candidate, even one that IntType cannot hold.
+            if(v <= 0 || (us < 0.013 && v > us)) {
                 continue;
             }
 
-- 
2.43.0

