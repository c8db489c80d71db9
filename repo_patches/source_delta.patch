From 1bb2647f6c5b55d4f2ba58063e3afd15aaae700b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:56 +0000
Subject: [PATCH 01/28] fix: reset clause weights when a weighted estimator is
 fitted again

TAState::initialize only resized the weights vector, so a second fit() started
from the weights learned by the previous one while everything else was reset.
---
 lib/src/ta_state.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/ta_state.cpp b/lib/src/ta_state.cpp
index 6ad869c..9301ba3 100644
--- a/lib/src/ta_state.cpp
+++ b/lib/src/ta_state.cpp
@@ -67,7 +67,7 @@ TAState::initialize(
 
     if (weighted == true)
     {
-        state.weights.resize(value_of(number_of_clause_outputs));
+        state.weights.assign(value_of(number_of_clause_outputs), 0);
     }
 }
 
@@ -114,7 +114,7 @@ TAStateWithPolarity::initialize(
 
     if (weighted == true)
     {
-        state.weights.resize(value_of(number_of_clause_outputs));
+        state.weights.assign(value_of(number_of_clause_outputs), 0);
     }
 }
 
-- 
2.43.0


From be98b7a4cfb022390d718762d78df07f583cbfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:56 +0000
Subject: [PATCH 02/28] fix: keep bitwise polarity in step with saturated
 automata

Type I feedback flipped the positive-literal polarity bit whenever the state was
0 after the update, even if the state was already saturated and did not move.
With number_of_states == 1 that desynchronised polarity from the automata.
---
 lib/src/tsetlini_algo_bitwise.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lib/src/tsetlini_algo_bitwise.hpp b/lib/src/tsetlini_algo_bitwise.hpp
index 1a1c0a6..9f761e2 100644
--- a/lib/src/tsetlini_algo_bitwise.hpp
+++ b/lib/src/tsetlini_algo_bitwise.hpp
@@ -626,13 +626,12 @@ void block2(
                 if (ta_state_pos_j[fidx] < number_of_states - 1)
                 {
                     ta_state_pos_j[fidx]++;
-                }
 
-                if (ta_state_pos_j[fidx] == 0)
-                {
-                    ta_state_pos_polarity_j.flip(fidx); // flip positive clause bit in polarity matrix
+                    if (ta_state_pos_j[fidx] == 0)
+                    {
+                        ta_state_pos_polarity_j.flip(fidx); // flip positive clause bit in polarity matrix
+                    }
                 }
-
             }
             if (cond2_neg)
             {
-- 
2.43.0


From ce25cf00d818d3acb45b22f747cc23e2c3c98bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:56 +0000
Subject: [PATCH 03/28] fix: avoid integer overflow in classifier feedback for
 large thresholds

threshold * 2 and threshold -/+ votes were evaluated in int, which overflows for
thresholds above INT_MAX / 2 and yields a negative feedback probability.
---
 lib/src/tsetlini_algo_classic.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/src/tsetlini_algo_classic.hpp b/lib/src/tsetlini_algo_classic.hpp
index 8b1563b..65f42b7 100644
--- a/lib/src/tsetlini_algo_classic.hpp
+++ b/lib/src/tsetlini_algo_classic.hpp
@@ -685,9 +685,11 @@ void calculate_classifier_feedback_to_clauses(
     threshold_t const threshold,
     TFRNG & fgen)
 {
-    const auto THR2_inv = (ONE / (value_of(threshold) * 2));
-    const auto THR_pos = THR2_inv * (value_of(threshold) - target_label_votes);
-    const auto THR_neg = THR2_inv * (value_of(threshold) + opposite_label_votes);
+    // wide type, because 2 * threshold does not have to fit into an int
+    std::int64_t const T = value_of(threshold);
+    const auto THR2_inv = (ONE / (T * 2));
+    const auto THR_pos = THR2_inv * (T - target_label_votes);
+    const auto THR_neg = THR2_inv * (T + opposite_label_votes);
 
     std::fill(feedback_to_clauses.begin(), feedback_to_clauses.end(), No_Feedback);
 
-- 
2.43.0


From 315bca23e35709c5a1306baf7a568e36fe74608e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:56 +0000
Subject: [PATCH 04/28] fix: clamp binomial approximation before converting it
 to unsigned

Negative samples of the normal approximation were converted to unsigned and
clamped to n, so a small feedback probability occasionally produced feedback to
all clauses.
---
 lib/src/box_muller_approx.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/src/box_muller_approx.cpp b/lib/src/box_muller_approx.cpp
index 8bdf71f..ffd261b 100644
--- a/lib/src/box_muller_approx.cpp
+++ b/lib/src/box_muller_approx.cpp
@@ -98,9 +98,13 @@ static float normal(float mean, float variance, PRNG & irng)
 template<typename PRNG>
 unsigned int binomial(unsigned int n, float p, PRNG & irng)
 {
-    unsigned int const rv = std::round(box_muller::normal(n * p, n * p * (1.f - p), irng));
+    // losses may exceed 1, which would make the variance negative
+    p = std::clamp(p, 0.f, 1.f);
 
-    return std::clamp(rv, 0u, n);
+    float const rv = std::round(box_muller::normal(n * p, n * p * (1.f - p), irng));
+
+    // clamp before conversion: negative values cannot be represented as unsigned
+    return std::clamp(rv, 0.f, static_cast<float>(n));
 }
 
 
-- 
2.43.0


From ca93cb455f10726bfa38ca9a3077c78ce5aca4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:56 +0000
Subject: [PATCH 05/28] fix: make berHu loss continuous at C1

The quadratic branch subtracted C1^2 + C1 instead of C1^2 - C1, which made the
loss drop below zero right above C1.
---
 lib/src/loss_fn.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/loss_fn.cpp b/lib/src/loss_fn.cpp
index 9ff1c75..1e20f65 100644
--- a/lib/src/loss_fn.cpp
+++ b/lib/src/loss_fn.cpp
@@ -35,7 +35,7 @@ std::function<float(float)> make_loss_fn(loss_fn_name_t const & name, loss_fn_C1
                 }
                 else
                 {
-                    return x * x - value_of(C1 * C1 + C1);
+                    return x * x - value_of(C1 * C1) + value_of(C1);
                 }
             };
     }
-- 
2.43.0


From ca7d00ba92bcdf70adad0ed269d3c1e6a3efed3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:02 +0000
Subject: [PATCH 06/28] fix: validate input of classifier evaluate()

Unlike predict() it neither checked that the model is fitted (an exception
escaped) nor that X and y are consistent with it and with each other (reads out
of bounds).
---
 lib/src/tsetlini.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/src/tsetlini.cpp b/lib/src/tsetlini.cpp
index 37fb452..f4cd439 100644
--- a/lib/src/tsetlini.cpp
+++ b/lib/src/tsetlini.cpp
@@ -396,7 +396,17 @@ evaluate_classifier_impl(
     std::vector<SampleType> const & X,
     label_vector_type const & y)
 {
-    // let it crash - no state validation for now
+    if (auto sm = check_for_predict(state, X);
+        sm.first != StatusCode::S_OK)
+    {
+        return Either<status_message_t, real_type>::leftOf(std::move(sm));
+    }
+    else if (y.size() != X.size())
+    {
+        return Either<status_message_t, real_type>::leftOf({StatusCode::S_VALUE_ERROR,
+            "X and y must have the same lengths, got " + std::to_string(X.size()) +
+            " and " + std::to_string(y.size())});
+    }
 
     auto const number_of_examples = X.size();
 
-- 
2.43.0


From f7addd674ab609e6c133f6b004d48ecd27a0d4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:02 +0000
Subject: [PATCH 07/28] fix: refuse to fit a classifier for a single label

With only one label there is no opposite label to draw and generate_opposite_y
divided by zero.
---
 lib/src/tsetlini.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/tsetlini.cpp b/lib/src/tsetlini.cpp
index f4cd439..86df7c6 100644
--- a/lib/src/tsetlini.cpp
+++ b/lib/src/tsetlini.cpp
@@ -772,6 +772,11 @@ fit_classifier_impl(
         return sm;
     }
 
+    if (number_of_labels < 2)
+    {
+        return {StatusCode::S_VALUE_ERROR, "At least two labels are required to train a classifier"};
+    }
+
     // Let it crash for now
 //    validate_params();
 
-- 
2.43.0


From 4e6657d5194ff9cddd1ce8c00fe973e09ec002b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:02 +0000
Subject: [PATCH 08/28] fix: reject labels whose clause count does not fit into
 an int

max label + 1 and labels * clauses per label overflowed for huge labels, which
led to undersized state and out of bounds access.
---
 lib/src/tsetlini.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/lib/src/tsetlini.cpp b/lib/src/tsetlini.cpp
index 86df7c6..668a145 100644
--- a/lib/src/tsetlini.cpp
+++ b/lib/src/tsetlini.cpp
@@ -28,6 +28,7 @@
 #include <unordered_set>
 #include <string>
 #include <numeric>
+#include <limits>
 #include <cstddef>
 #include <memory>
 
@@ -762,16 +763,27 @@ fit_classifier_impl(
 
     auto const labels = unique_labels(y);
 
-    int const number_of_labels = std::max(
-        *std::max_element(labels.cbegin(), labels.cend()) + 1,
-        value_of(max_number_of_labels));
-
     if (auto sm = check_labels(labels);
         sm.first != StatusCode::S_OK)
     {
         return sm;
     }
 
+    auto const max_representable_label =
+        std::numeric_limits<int>::max() / value_of(Params::number_of_physical_classifier_clauses_per_label(state.m_params)) - 1;
+    auto const max_label = std::max(
+        *std::max_element(labels.cbegin(), labels.cend()),
+        value_of(max_number_of_labels) - (value_of(max_number_of_labels) > 0));
+
+    if (max_label > max_representable_label)
+    {
+        return {StatusCode::S_VALUE_ERROR,
+            "Max allowed label is " + std::to_string(max_representable_label) +
+            " but the model was requested for label as high as " + std::to_string(max_label)};
+    }
+
+    int const number_of_labels = max_label + 1;
+
     if (number_of_labels < 2)
     {
         return {StatusCode::S_VALUE_ERROR, "At least two labels are required to train a classifier"};
-- 
2.43.0


From e61bcb16ab743656df89d322773cdb467c9f2e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:02 +0000
Subject: [PATCH 09/28] fix: check padding of bit vectors with spare blocks

When a bit vector owns more blocks than its content needs, the number of padding
bits exceeds the block width, the shift amount wrapped around and dirty padding
was accepted.
---
 lib/src/tsetlini.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/lib/src/tsetlini.cpp b/lib/src/tsetlini.cpp
index 668a145..5f013f1 100644
--- a/lib/src/tsetlini.cpp
+++ b/lib/src/tsetlini.cpp
@@ -71,17 +71,18 @@ bool check_clear_padding(bit_vector<T> const & vec)
 {
     using block_type = typename bit_vector<T>::block_type;
 
-    auto const n_blocks = vec.capacity_blocks();
-    auto const padding_nbits = n_blocks * vec.block_bits - vec.size();
-
-    if (padding_nbits != 0)
+    if (vec.tail_bits() != 0)
     {
-        auto const mask = block_type(-1) << (vec.block_bits - padding_nbits);
+        auto const mask = block_type(-1) << vec.tail_bits();
 
-        return (vec.m_vector.back() & mask) == 0;
+        if ((vec.m_vector[vec.content_blocks() - 1] & mask) != 0)
+        {
+            return false;
+        }
     }
 
-    return true;
+    return std::all_of(vec.m_vector.cbegin() + vec.content_blocks(), vec.m_vector.cend(),
+        [](block_type block){ return block == 0; });
 }
 
 
-- 
2.43.0


From 2f45f0892f29ae7398e4962dc4c118468c561582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:02 +0000
Subject: [PATCH 10/28] fix: allow JSON round trip of an estimator state which
 is not fitted

from_json_string read the first row of an empty matrix and tried to size the
cache from parameters which are only known after fit.
---
 lib/src/tsetlini_state.cpp      | 12 +++++++++++-
 lib/src/tsetlini_state_json.cpp |  3 ++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/lib/src/tsetlini_state.cpp b/lib/src/tsetlini_state.cpp
index 7ca7b6d..57d74a1 100644
--- a/lib/src/tsetlini_state.cpp
+++ b/lib/src/tsetlini_state.cpp
@@ -255,7 +255,17 @@ template void initialize_state<RegressorStateBitwise>(RegressorStateBitwise & st
 template<typename EstimatorStateType>
 void reset_state_cache(EstimatorStateType & state)
 {
-    EstimatorStateType::cache_type::reset(state.cache, state.m_params);
+    using cache_type = typename EstimatorStateType::cache_type;
+
+    if (std::holds_alternative<none_type>(state.m_params.at("number_of_features")))
+    {
+        // not fitted yet, there is nothing the cache can be sized for
+        state.cache = typename cache_type::value_type{};
+    }
+    else
+    {
+        cache_type::reset(state.cache, state.m_params);
+    }
 }
 
 // explicit template instantiations
diff --git a/lib/src/tsetlini_state_json.cpp b/lib/src/tsetlini_state_json.cpp
index 47b92cb..ea2e4bd 100644
--- a/lib/src/tsetlini_state_json.cpp
+++ b/lib/src/tsetlini_state_json.cpp
@@ -101,7 +101,8 @@ static void from_json(json const & j, Tsetlini::ClassifierStateClassic::ta_state
     j.at("width").get_to(width);
 
     auto const nr = j.at("data").size();
-    auto const nc = j.at("data")[0].size();
+    // matrix of an estimator which was not fitted yet has no rows
+    auto const nc = nr == 0 ? 0 : j.at("data")[0].size();
 
     if (width == 1)
     {
-- 
2.43.0


From a308074feb7d2240e72fda65605f760c893a6cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:02 +0000
Subject: [PATCH 11/28] fix: reject loss_fn_C1 which is not finite

Such value yields NaN feedback probabilities and cannot be stored in JSON state.
---
 lib/src/tsetlini_params.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/lib/src/tsetlini_params.cpp b/lib/src/tsetlini_params.cpp
index 8bda3a9..c7e5b0a 100644
--- a/lib/src/tsetlini_params.cpp
+++ b/lib/src/tsetlini_params.cpp
@@ -423,6 +423,24 @@ assert_loss_function(params_t const & params)
 }
 
 
+static
+Either<status_message_t, params_t>
+assert_loss_function_C1(params_t const & params)
+{
+    auto value = std::get<real_type>(params.at("loss_fn_C1"));
+
+    if (not std::isfinite(value))
+    {
+        return Either<status_message_t, params_t>::leftOf({S_BAD_JSON,
+            "Param 'loss_fn_C1' got value " + std::to_string(value) + ", instead of a finite number\n"});
+    }
+    else
+    {
+        return Either<status_message_t, params_t>::rightOf(params);
+    }
+}
+
+
 Either<status_message_t, params_t>
 make_classifier_params_from_json(std::string const & json_params)
 {
@@ -523,6 +541,7 @@ make_regressor_params_from_json(std::string const & json_params)
         .rightMap(normalize_random_state)
         .rightFlatMap(assert_counting_type_enumeration)
         .rightFlatMap(assert_loss_function)
+        .rightFlatMap(assert_loss_function_C1)
         .rightFlatMap(assert_clause_output_tile_size_enumeration)
         ;
 
@@ -586,6 +605,7 @@ make_regressor_params_from_args(
         .rightMap(normalize_random_state)
         .rightFlatMap(assert_counting_type_enumeration)
         .rightFlatMap(assert_loss_function)
+        .rightFlatMap(assert_loss_function_C1)
         .rightFlatMap(assert_clause_output_tile_size_enumeration)
         ;
 
-- 
2.43.0


From cb5404266a7708bfa0ad247454518c666f980808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:02 +0000
Subject: [PATCH 12/28] fix: report parameters of wrong JSON type as bad JSON

nlohmann's type_error escaped from make_*_from_json functions which otherwise
report every malformed configuration with S_BAD_JSON.
---
 lib/src/tsetlini_params.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/tsetlini_params.cpp b/lib/src/tsetlini_params.cpp
index c7e5b0a..329a942 100644
--- a/lib/src/tsetlini_params.cpp
+++ b/lib/src/tsetlini_params.cpp
@@ -127,6 +127,7 @@ assert_json_dictionary(json const & js)
 static
 Either<status_message_t, params_t>
 json_to_params(json const & js)
+try
 {
     params_t rv;
 
@@ -182,6 +183,10 @@ json_to_params(json const & js)
 
     return Either<status_message_t, params_t>::rightOf(rv);
 }
+catch (json::exception const & ex)
+{
+    return Either<status_message_t, params_t>::leftOf({S_BAD_JSON, ex.what()});
+}
 
 
 static
-- 
2.43.0


From 97a763a506480ae9618928c475fb442baa5a21a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:02 +0000
Subject: [PATCH 13/28] fix: do not silently alter integer parameters read from
 JSON

Numbers outside of the target type's range wrapped around and fractions were
truncated, so the estimator was configured with values nobody asked for.
---
 lib/src/tsetlini_params.cpp | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/lib/src/tsetlini_params.cpp b/lib/src/tsetlini_params.cpp
index 329a942..b9be82d 100644
--- a/lib/src/tsetlini_params.cpp
+++ b/lib/src/tsetlini_params.cpp
@@ -14,6 +14,7 @@
 #include <random>
 #include <limits>
 #include <cmath>
+#include <cstdint>
 
 
 using namespace std::string_literals;
@@ -124,6 +125,29 @@ assert_json_dictionary(json const & js)
 }
 
 
+/*
+ * Get integer from json number, or throw if it cannot be represented exactly
+ */
+template<typename IntType>
+static
+IntType get_integer(json const & js)
+{
+    auto const fits = [](auto v)
+    {
+        return v >= std::numeric_limits<IntType>::min() and v <= std::numeric_limits<IntType>::max();
+    };
+
+    if ((js.is_number_unsigned() and js.get<std::uint64_t>() > std::uint64_t{std::numeric_limits<IntType>::max()})
+        or (js.is_number_integer() and not js.is_number_unsigned() and not fits(js.get<std::int64_t>()))
+        or (js.is_number_float() and not (fits(js.get<double>()) and std::trunc(js.get<double>()) == js.get<double>())))
+    {
+        throw std::out_of_range("value " + js.dump() + " is not an integer in the supported range");
+    }
+
+    return js.get<IntType>();
+}
+
+
 static
 Either<status_message_t, params_t>
 json_to_params(json const & js)
@@ -147,13 +171,13 @@ try
             (key == "max_weight")
             )
         {
-            rv[key] = value.get<int>();
+            rv[key] = get_integer<int>(value);
         }
         else if (key == "random_state")
         {
             if (!value.is_null())
             {
-                rv[key] = value.get<seed_type>();
+                rv[key] = get_integer<seed_type>(value);
             }
         }
         else if (
@@ -183,7 +207,7 @@ try
 
     return Either<status_message_t, params_t>::rightOf(rv);
 }
-catch (json::exception const & ex)
+catch (std::exception const & ex)
 {
     return Either<status_message_t, params_t>::leftOf({S_BAD_JSON, ex.what()});
 }
-- 
2.43.0


From 1d1fe9b3b305e719832ab6bc48147b69d1ea81a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:15 +0000
Subject: [PATCH 14/28] fix: allow JSON round trip of an unfitted estimator
 made from arguments

Parameters made from named arguments do not have number_of_features until the
estimator is fitted.
---
 lib/src/tsetlini_state.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/src/tsetlini_state.cpp b/lib/src/tsetlini_state.cpp
index 57d74a1..379ba94 100644
--- a/lib/src/tsetlini_state.cpp
+++ b/lib/src/tsetlini_state.cpp
@@ -257,7 +257,9 @@ void reset_state_cache(EstimatorStateType & state)
 {
     using cache_type = typename EstimatorStateType::cache_type;
 
-    if (std::holds_alternative<none_type>(state.m_params.at("number_of_features")))
+    auto const it = state.m_params.find("number_of_features");
+
+    if (it == state.m_params.cend() or std::holds_alternative<none_type>(it->second))
     {
         // not fitted yet, there is nothing the cache can be sized for
         state.cache = typename cache_type::value_type{};
-- 
2.43.0


From 281adaf7d4005beb536933b8cafc24d86566351f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:13 +0000
Subject: [PATCH 15/28] fix: bound nesting of parameters read from JSON

---
 lib/src/tsetlini_params.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/lib/src/tsetlini_params.cpp b/lib/src/tsetlini_params.cpp
index b9be82d..eee330f 100644
--- a/lib/src/tsetlini_params.cpp
+++ b/lib/src/tsetlini_params.cpp
@@ -9,6 +9,7 @@
 #include <optional>
 #include <string>
 #include <exception>
+#include <stdexcept>
 #include <thread>
 #include <algorithm>
 #include <random>
@@ -81,9 +82,21 @@ static
 Either<status_message_t, json>
 json_parse(std::string const & json_params)
 {
+    // json containers are copied recursively, params are not expected to nest at all
+    constexpr int MAX_NESTING = 64;
+
+    auto const limit_nesting = [](int depth, json::parse_event_t, json &)
+    {
+        if (depth > MAX_NESTING)
+        {
+            throw std::length_error("json is nested too deeply");
+        }
+        return true;
+    };
+
     try
     {
-        return Either<status_message_t, json>::rightOf(json::parse(json_params));
+        return Either<status_message_t, json>::rightOf(json::parse(json_params, limit_nesting));
     }
     catch (const std::exception & ex)
     {
-- 
2.43.0


From 2926e6d5099d9495d6c946fb8806ef9dd0b9173c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:57 +0000
Subject: [PATCH 16/28] fix: do not consume l-value arguments of estimator
 factories

---
 lib/include/arg_extract.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/include/arg_extract.hpp b/lib/include/arg_extract.hpp
index 54d7bb2..43c5790 100644
--- a/lib/include/arg_extract.hpp
+++ b/lib/include/arg_extract.hpp
@@ -5,6 +5,7 @@
 
 #include <tuple>
 #include <type_traits>
+#include <utility>
 #include <optional>
 
 
@@ -29,9 +30,9 @@ auto extract(Args && ...args) -> std::enable_if_t<std::disjunction_v<std::is_sam
 
 
 template<typename T, typename ...Args>
-auto extract_or(T &&, Args && ...args) -> std::enable_if_t<std::disjunction_v<std::is_same<std::remove_reference_t<T>, std::remove_reference_t<Args>>...>, T &&>
+auto extract_or(T &&, Args && ...args) -> std::enable_if_t<std::disjunction_v<std::is_same<std::remove_reference_t<T>, std::remove_reference_t<Args>>...>, std::remove_reference_t<T> const &>
 {
-    return std::get<T &&>(std::forward_as_tuple(std::move(args)...));
+    return std::get<std::remove_reference_t<T> const &>(std::forward_as_tuple(std::as_const(args)...));
 }
 
 
@@ -43,9 +44,9 @@ auto extract_or(T &&, Args && ...args) -> std::enable_if_t<std::disjunction_v<st
 
 
 template<typename T, typename ...Args>
-auto extract_or(T const &, Args && ...args) -> std::enable_if_t<std::disjunction_v<std::is_same<std::remove_reference_t<T>, std::remove_reference_t<Args>>...>, T &&>
+auto extract_or(T const &, Args && ...args) -> std::enable_if_t<std::disjunction_v<std::is_same<std::remove_reference_t<T>, std::remove_reference_t<Args>>...>, std::remove_reference_t<T> const &>
 {
-    return std::get<T &&>(std::forward_as_tuple(std::move(args)...));
+    return std::get<std::remove_reference_t<T> const &>(std::forward_as_tuple(std::as_const(args)...));
 }
 
 
-- 
2.43.0


From b08ff6998b7c4a034eaa914f08894cd4d22a4f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:49 +0000
Subject: [PATCH 17/28] fix: bounded draws over ranges which do not fit into an
 int

---
 lib/include/mt.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/include/mt.hpp b/lib/include/mt.hpp
index 70a73d1..7e8b32e 100644
--- a/lib/include/mt.hpp
+++ b/lib/include/mt.hpp
@@ -249,7 +249,11 @@ struct basic_IRNG : public BasePRNG<unsigned int, Alignment, NumberOfStreams, ba
     inline
     value_type next(int a, int b)
     {
-        return a + (base_type::rand() % (b + 1 - a));
+        // number of values in [a, b], 0 stands for all of them
+        auto const span = static_cast<unsigned int>(b) - static_cast<unsigned int>(a) + 1u;
+        auto const y = base_type::rand();
+
+        return static_cast<unsigned int>(a) + (span == 0 ? y : y % span);
     }
 
     inline
-- 
2.43.0


From 75cfd5211411ff6e97fe21101cd4b8465da84a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:12 +0000
Subject: [PATCH 18/28] fix: clauses of labels at the opposite extreme could
 miss feedback

The vote ratio was a product with a rounded inverse, which for thresholds
such as 41 is less than one at the limit, so that the largest real number
drawn withheld feedback which was due.
---
 lib/src/tsetlini_algo_classic.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/src/tsetlini_algo_classic.hpp b/lib/src/tsetlini_algo_classic.hpp
index 65f42b7..10d5d0f 100644
--- a/lib/src/tsetlini_algo_classic.hpp
+++ b/lib/src/tsetlini_algo_classic.hpp
@@ -687,9 +687,9 @@ void calculate_classifier_feedback_to_clauses(
 {
     // wide type, because 2 * threshold does not have to fit into an int
     std::int64_t const T = value_of(threshold);
-    const auto THR2_inv = (ONE / (T * 2));
-    const auto THR_pos = THR2_inv * (T - target_label_votes);
-    const auto THR_neg = THR2_inv * (T + opposite_label_votes);
+    // division, because product with an inverse can be less than one when votes are at the limit
+    const auto THR_pos = ONE * (T - target_label_votes) / (T * 2);
+    const auto THR_neg = ONE * (T + opposite_label_votes) / (T * 2);
 
     std::fill(feedback_to_clauses.begin(), feedback_to_clauses.end(), No_Feedback);
 
-- 
2.43.0


From 8e277d5d283eeefdd42db014d3c7ddfb7c24c05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:12 +0000
Subject: [PATCH 19/28] fix: peek() before the first draw and at refills
 returned a stale number

---
 lib/include/mt.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/include/mt.hpp b/lib/include/mt.hpp
index 7e8b32e..4fafad1 100644
--- a/lib/include/mt.hpp
+++ b/lib/include/mt.hpp
@@ -136,6 +136,15 @@ struct BasePRNG
     inline
     value_type peek() const
     {
+        if (UNLIKELY(index == 0))
+        {
+            // not generated yet
+            derived_type ahead;
+            static_cast<BasePRNG &>(ahead) = *this;
+
+            return ahead.rand();
+        }
+
         auto RES = assume_aligned<alignment>(RESp());
         value_type y = RES[index];
 
-- 
2.43.0


From 0dec2e2d75b38040b45b34cd09d668c0c3b60be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:51 +0000
Subject: [PATCH 20/28] fix: losses above one could overflow the number of
 regressor feedback hits

---
 lib/src/tsetlini_algo_bitwise.hpp | 3 ++-
 lib/src/tsetlini_algo_classic.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/src/tsetlini_algo_bitwise.hpp b/lib/src/tsetlini_algo_bitwise.hpp
index 9f761e2..51eeafb 100644
--- a/lib/src/tsetlini_algo_bitwise.hpp
+++ b/lib/src/tsetlini_algo_bitwise.hpp
@@ -1041,7 +1041,8 @@ void train_regressor_automata(
     unsigned int const feedback_hits = box_muller == true
         ? binomial(N, P, prng)
         :
-        std::clamp<unsigned int>(
+        // clamp before conversion: with some losses the product cannot be represented as unsigned
+        std::clamp<double>(
             N * P >= 0.5 ? std::round(N * P) : prng() < N * P * static_cast<double>(IRNG::max()), // 0xffff'ffff when converted to float changes to 0x1'0000'0000
             0, N
         );
diff --git a/lib/src/tsetlini_algo_classic.hpp b/lib/src/tsetlini_algo_classic.hpp
index 10d5d0f..d0a61d9 100644
--- a/lib/src/tsetlini_algo_classic.hpp
+++ b/lib/src/tsetlini_algo_classic.hpp
@@ -785,7 +785,8 @@ void train_regressor_automata(
     unsigned int const feedback_hits = box_muller == true
         ? binomial(N, P, prng)
         :
-        std::clamp<unsigned int>(
+        // clamp before conversion: with some losses the product cannot be represented as unsigned
+        std::clamp<double>(
             N * P >= 0.5 ? std::round(N * P) : prng() < N * P * static_cast<double>(IRNG::max()), // 0xffff'ffff when converted to float changes to 0x1'0000'0000
             0, N
         );
-- 
2.43.0


From 04b2f7c9b7ef58df0344ce17f0e37636c9f328a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:06 +0000
Subject: [PATCH 21/28] fix: storage of matrices of 2^32 and more elements was
 allocated too small

---
 lib/include/basic_bit_matrix.hpp     | 4 ++--
 lib/include/basic_numeric_matrix.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/include/basic_bit_matrix.hpp b/lib/include/basic_bit_matrix.hpp
index ca42081..4e8ede7 100644
--- a/lib/include/basic_bit_matrix.hpp
+++ b/lib/include/basic_bit_matrix.hpp
@@ -122,8 +122,8 @@ struct basic_bit_matrix
     basic_bit_matrix(uint const nrows, uint const ncols)
         : m_nrows(nrows)
         , m_ncols(ncols)
-        , m_row_blocks((m_ncols + alignment * CHAR_BIT - 1) / (alignment * CHAR_BIT) * (alignment / block_size))
-        , m_v(row_blocks() * nrows)
+        , m_row_blocks((size_type{m_ncols} + alignment * CHAR_BIT - 1) / (alignment * CHAR_BIT) * (alignment / block_size))
+        , m_v(row_offset(nrows))
     {
     }
 
diff --git a/lib/include/basic_numeric_matrix.hpp b/lib/include/basic_numeric_matrix.hpp
index 487490c..37f1fda 100644
--- a/lib/include/basic_numeric_matrix.hpp
+++ b/lib/include/basic_numeric_matrix.hpp
@@ -38,7 +38,7 @@ struct basic_numeric_matrix
     basic_numeric_matrix(uint const nrows, uint const ncols)
         : m_nrows(nrows)
         , m_ncols(ncols)
-        , m_v(row_items() * nrows)
+        , m_v(row_offset(nrows))
     {
     }
 
@@ -99,7 +99,7 @@ struct basic_numeric_matrix
 
     uint row_items() const
     {
-        auto const rv = (m_ncols * item_size + alignment - 1) / alignment * (alignment / item_size);
+        auto const rv = (size_type{m_ncols} * item_size + alignment - 1) / alignment * (alignment / item_size);
 
         return rv;
     }
-- 
2.43.0


From 1b90b83db937abf02439ab49ea5a51176c68a429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:06 +0000
Subject: [PATCH 22/28] fix: training on more than 2^24 features could never
 end at specificity 1

---
 lib/src/coin_tosser_exact.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/coin_tosser_exact.hpp b/lib/src/coin_tosser_exact.hpp
index 333a96f..2d5ae79 100644
--- a/lib/src/coin_tosser_exact.hpp
+++ b/lib/src/coin_tosser_exact.hpp
@@ -66,7 +66,8 @@ CoinTosserExact::CoinTosserExact()
 
 CoinTosserExact::CoinTosserExact(real_type s_inv, unsigned int size)
     : m_s_inv(s_inv)
-    , m_hits_floor(std::floor(size * s_inv))
+    // reals do not tell apart all integers above 2^24, such size can get rounded up
+    , m_hits_floor(std::min<std::uint64_t>(std::floor(size * s_inv), size))
     , m_hits_ceil_threshold(
         std::round(static_cast<double>(s_inv * size - std::floor(s_inv * size)) * std::numeric_limits<std::uint32_t>::max()))
     , m_cache1(size)
-- 
2.43.0


From adac683aae3754359419c0d9d4baea426ff324a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:23 +0000
Subject: [PATCH 23/28] fix: fit which ran out of memory left parameters not
 matching the automata

---
 lib/src/tsetlini.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/lib/src/tsetlini.cpp b/lib/src/tsetlini.cpp
index 5f013f1..927b79f 100644
--- a/lib/src/tsetlini.cpp
+++ b/lib/src/tsetlini.cpp
@@ -750,12 +750,16 @@ fit_classifier_online_impl(
 template<typename ClassifierStateType, typename SampleType>
 status_message_t
 fit_classifier_impl(
-    ClassifierStateType & state,
+    ClassifierStateType & estimator_state,
     std::vector<SampleType> const & X,
     label_vector_type const & y,
     max_number_of_labels_t max_number_of_labels,
     number_of_epochs_t epochs)
 {
+    // trained aside, so that running out of memory does not leave behind
+    // parameters and automata which do not match each other
+    ClassifierStateType state(estimator_state.m_params);
+
     if (auto sm = check_X_y(X, y);
         sm.first != StatusCode::S_OK)
     {
@@ -800,7 +804,10 @@ fit_classifier_impl(
 
     initialize_state(state);
 
-    return fit_classifier_online_impl(state, state.ta_state, X, y, epochs);
+    auto rv = fit_classifier_online_impl(state, state.ta_state, X, y, epochs);
+    estimator_state = std::move(state);
+
+    return rv;
 }
 
 
@@ -927,11 +934,15 @@ fit_regressor_online_impl(
 template<typename RegressorStateType, typename SampleType>
 status_message_t
 fit_regressor_impl(
-    RegressorStateType & state,
+    RegressorStateType & estimator_state,
     std::vector<SampleType> const & X,
     response_vector_type const & y,
     number_of_epochs_t epochs)
 {
+    // trained aside, so that running out of memory does not leave behind
+    // parameters and automata which do not match each other
+    RegressorStateType state(estimator_state.m_params);
+
     if (auto sm = check_X_y(X, y);
         sm.first != StatusCode::S_OK)
     {
@@ -952,7 +963,10 @@ fit_regressor_impl(
 
     initialize_state(state);
 
-    return fit_regressor_online_impl(state, state.ta_state, X, y, epochs);
+    auto rv = fit_regressor_online_impl(state, state.ta_state, X, y, epochs);
+    estimator_state = std::move(state);
+
+    return rv;
 }
 
 
-- 
2.43.0


From 6dbfac6c263895e293ae326a85392cbec9d05f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:34 +0000
Subject: [PATCH 24/28] fix: import of a state which failed half way left it
 half replaced

---
 lib/src/tsetlini_state_json.cpp | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/lib/src/tsetlini_state_json.cpp b/lib/src/tsetlini_state_json.cpp
index ea2e4bd..66ce25d 100644
--- a/lib/src/tsetlini_state_json.cpp
+++ b/lib/src/tsetlini_state_json.cpp
@@ -297,10 +297,13 @@ std::string to_json_string(ClassifierStateClassic const & state)
 }
 
 
-void from_json_string(ClassifierStateClassic & state, std::string const & jss)
+void from_json_string(ClassifierStateClassic & estimator_state, std::string const & jss)
 {
     auto js = json::parse(jss);
 
+    // read aside, so that a failure does not leave the state half replaced
+    ClassifierStateClassic state(params_t{});
+
     state.igen = js.at("igen").get<IRNG>();
     state.fgen = js.at("fgen").get<FRNG>();
     state.ta_state = js.at("ta_state").get<Tsetlini::ClassifierStateClassic::ta_state_type::value_type>();
@@ -323,6 +326,8 @@ void from_json_string(ClassifierStateClassic & state, std::string const & jss)
     // end-of-hack
 
     reset_state_cache(state);
+
+    estimator_state = std::move(state);
 }
 
 
@@ -342,10 +347,13 @@ std::string to_json_string(RegressorStateClassic const & state)
 }
 
 
-void from_json_string(RegressorStateClassic & state, std::string const & jss)
+void from_json_string(RegressorStateClassic & estimator_state, std::string const & jss)
 {
     auto js = json::parse(jss);
 
+    // read aside, so that a failure does not leave the state half replaced
+    RegressorStateClassic state(params_t{});
+
     state.igen = js.at("igen").get<IRNG>();
     state.fgen = js.at("fgen").get<FRNG>();
     state.ta_state = js.at("ta_state").get<Tsetlini::RegressorStateClassic::ta_state_type::value_type>();
@@ -368,6 +376,8 @@ void from_json_string(RegressorStateClassic & state, std::string const & jss)
     // end-of-hack
 
     reset_state_cache(state);
+
+    estimator_state = std::move(state);
 }
 
 
@@ -387,10 +397,13 @@ std::string to_json_string(RegressorStateBitwise const & state)
 }
 
 
-void from_json_string(ClassifierStateBitwise & state, std::string const & jss)
+void from_json_string(ClassifierStateBitwise & estimator_state, std::string const & jss)
 {
     auto js = json::parse(jss);
 
+    // read aside, so that a failure does not leave the state half replaced
+    ClassifierStateBitwise state(params_t{});
+
     state.igen = js.at("igen").get<IRNG>();
     state.fgen = js.at("fgen").get<FRNG>();
     state.ta_state = js.at("ta_state").get<Tsetlini::ClassifierStateBitwise::ta_state_type::value_type>();
@@ -413,6 +426,8 @@ void from_json_string(ClassifierStateBitwise & state, std::string const & jss)
     // end-of-hack
 
     reset_state_cache(state);
+
+    estimator_state = std::move(state);
 }
 
 
@@ -432,10 +447,13 @@ std::string to_json_string(ClassifierStateBitwise const & state)
 }
 
 
-void from_json_string(RegressorStateBitwise & state, std::string const & jss)
+void from_json_string(RegressorStateBitwise & estimator_state, std::string const & jss)
 {
     auto js = json::parse(jss);
 
+    // read aside, so that a failure does not leave the state half replaced
+    RegressorStateBitwise state(params_t{});
+
     state.igen = js.at("igen").get<IRNG>();
     state.fgen = js.at("fgen").get<FRNG>();
     state.ta_state = js.at("ta_state").get<Tsetlini::RegressorStateBitwise::ta_state_type::value_type>();
@@ -458,6 +476,8 @@ void from_json_string(RegressorStateBitwise & state, std::string const & jss)
     // end-of-hack
 
     reset_state_cache(state);
+
+    estimator_state = std::move(state);
 }
 
 
-- 
2.43.0


From 7f8bedb4672aeb0e97d1c15b2be153f1465dbe4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:34 +0000
Subject: [PATCH 25/28] fix: copy assignment of matrices which ran out of
 memory left dimensions without storage

---
 lib/include/basic_bit_matrix.hpp     | 2 +-
 lib/include/basic_numeric_matrix.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/include/basic_bit_matrix.hpp b/lib/include/basic_bit_matrix.hpp
index 4e8ede7..4c80402 100644
--- a/lib/include/basic_bit_matrix.hpp
+++ b/lib/include/basic_bit_matrix.hpp
@@ -168,10 +168,10 @@ struct basic_bit_matrix
     inline
     basic_bit_matrix & operator=(basic_bit_matrix const & rhs)
     {
+        this->m_v = rhs.m_v;
         this->m_nrows = rhs.m_nrows;
         this->m_ncols = rhs.m_ncols;
         this->m_row_blocks = rhs.m_row_blocks;
-        this->m_v = rhs.m_v;
 
         return *this;
     }
diff --git a/lib/include/basic_numeric_matrix.hpp b/lib/include/basic_numeric_matrix.hpp
index 37f1fda..a6dc535 100644
--- a/lib/include/basic_numeric_matrix.hpp
+++ b/lib/include/basic_numeric_matrix.hpp
@@ -74,9 +74,9 @@ struct basic_numeric_matrix
 
     basic_numeric_matrix & operator=(basic_numeric_matrix const & rhs)
     {
+        this->m_v = rhs.m_v;
         this->m_nrows = rhs.m_nrows;
         this->m_ncols = rhs.m_ncols;
-        this->m_v = rhs.m_v;
 
         return *this;
     }
-- 
2.43.0


From 2dc2d274e3c20bdcc57487934b316fa19f56b25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:24 +0000
Subject: [PATCH 26/28] fix: bit vectors moved from, or whose copy assignment
 failed, promised bits without storage

---
 lib/include/basic_bit_vector.hpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/lib/include/basic_bit_vector.hpp b/lib/include/basic_bit_vector.hpp
index cfbcc33..de4d161 100644
--- a/lib/include/basic_bit_vector.hpp
+++ b/lib/include/basic_bit_vector.hpp
@@ -47,6 +47,30 @@ struct basic_bit_vector
     {
     }
 
+    basic_bit_vector(basic_bit_vector const & rhs) = default;
+
+    basic_bit_vector(basic_bit_vector && rhs) noexcept
+        : m_bit_length(std::exchange(rhs.m_bit_length, 0))
+        , m_vector(std::move(rhs.m_vector))
+    {
+    }
+
+    basic_bit_vector & operator=(basic_bit_vector const & rhs)
+    {
+        this->m_vector = rhs.m_vector;
+        this->m_bit_length = rhs.m_bit_length;
+
+        return *this;
+    }
+
+    basic_bit_vector & operator=(basic_bit_vector && rhs) noexcept
+    {
+        this->m_bit_length = std::exchange(rhs.m_bit_length, 0);
+        this->m_vector = std::move(rhs.m_vector);
+
+        return *this;
+    }
+
 
     inline
     size_type size() const
-- 
2.43.0


From fe43f71b6225e67cc87dbd25efc97adab18cfc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:24 +0000
Subject: [PATCH 27/28] fix: bit vectors of nearly 2^64 bits were made without
 storage

---
 lib/include/basic_bit_vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/include/basic_bit_vector.hpp b/lib/include/basic_bit_vector.hpp
index de4d161..01fde13 100644
--- a/lib/include/basic_bit_vector.hpp
+++ b/lib/include/basic_bit_vector.hpp
@@ -43,7 +43,7 @@ struct basic_bit_vector
 
     explicit basic_bit_vector(size_type bitlen) :
         m_bit_length(bitlen),
-        m_vector((m_bit_length + block_bits - 1) / block_bits)
+        m_vector(content_blocks())
     {
     }
 
@@ -87,7 +87,7 @@ struct basic_bit_vector
     inline
     size_type content_blocks() const
     {
-        return (m_bit_length + block_bits - 1) / block_bits;
+        return m_bit_length / block_bits + (m_bit_length % block_bits != 0);
     }
 
     inline
-- 
2.43.0


From d67a5db3a97f1358642dc530a375969979f427fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:20 +0000
Subject: [PATCH 28/28] fix: import of a state with parts which do not fit
 together wrote out of bounds

---
 lib/src/tsetlini_state_json.cpp | 78 ++++++++++++++++++++++++++++++---
 1 file changed, 72 insertions(+), 6 deletions(-)

diff --git a/lib/src/tsetlini_state_json.cpp b/lib/src/tsetlini_state_json.cpp
index 66ce25d..644094e 100644
--- a/lib/src/tsetlini_state_json.cpp
+++ b/lib/src/tsetlini_state_json.cpp
@@ -12,6 +12,7 @@
 #include <iterator>
 #include <vector>
 #include <optional>
+#include <stdexcept>
 
 
 using json = nlohmann::json;
@@ -28,14 +29,22 @@ static void to_json(json & j, IRNG const & p)
 
 static void from_json(json const & j, IRNG & p)
 {
+    constexpr std::size_t size = IRNG::MTSZ * IRNG::NS;
+
     j.at("index").get_to(p.index);
 
     std::vector<IRNG::value_type> res;
     j.at("RES").get_to(res);
-    std::copy(res.cbegin(), res.cend(), p.RESp());
 
     std::vector<unsigned int> mt;
     j.at("MT").get_to(mt);
+
+    if (p.index >= size or res.size() != size or mt.size() != size)
+    {
+        throw std::invalid_argument("Unexpected size of random number generator");
+    }
+
+    std::copy(res.cbegin(), res.cend(), p.RESp());
     std::copy(mt.cbegin(), mt.cend(), p.MTp());
 }
 
@@ -51,14 +60,22 @@ static void to_json(json & j, FRNG const & p)
 
 static void from_json(json const & j, FRNG & p)
 {
+    constexpr std::size_t size = FRNG::MTSZ * FRNG::NS;
+
     j.at("index").get_to(p.index);
 
     std::vector<FRNG::value_type> res;
     j.at("RES").get_to(res);
-    std::copy(res.cbegin(), res.cend(), p.RESp());
 
     std::vector<unsigned int> mt;
     j.at("MT").get_to(mt);
+
+    if (p.index >= size or res.size() != size or mt.size() != size)
+    {
+        throw std::invalid_argument("Unexpected size of random number generator");
+    }
+
+    std::copy(res.cbegin(), res.cend(), p.RESp());
     std::copy(mt.cbegin(), mt.cend(), p.MTp());
 }
 
@@ -125,6 +142,11 @@ static void from_json(json const & j, Tsetlini::ClassifierStateClassic::ta_state
             {
                 auto row_data = p.row_data(rit);
 
+                if (data[rit].size() != nc)
+                {
+                    throw std::invalid_argument("Rows of matrix differ in size");
+                }
+
                 std::copy(data[rit].cbegin(), data[rit].cend(), row_data);
             }
         }, p);
@@ -155,8 +177,15 @@ static void from_json(json const & j, Tsetlini::bit_matrix<T> & p)
 
     p = Tsetlini::bit_matrix<T>(rows, cols);
 
+    auto const size = p.m_v.size();
+
     p.m_v.clear(); // we need to clear the vector because get_to appends data
     j.at("data").get_to(p.m_v);
+
+    if (p.m_v.size() != size)
+    {
+        throw std::invalid_argument("Unexpected size of bit matrix");
+    }
 }
 
 
@@ -281,6 +310,43 @@ namespace Tsetlini
 {
 
 
+static bool has_shape(TAState::value_type const &, std::size_t, std::size_t)
+{
+    return true;
+}
+
+
+static bool has_shape(TAStateWithPolarity::value_type const & ta_state, std::size_t rows, std::size_t cols)
+{
+    return ta_state.polarity.rows() == rows and ta_state.polarity.cols() == cols;
+}
+
+
+/// Prepare cache of a state which was just read, provided that its parts fit together
+template<typename EstimatorStateType>
+static void reset_imported_state_cache(EstimatorStateType & state)
+{
+    auto const [rows, cols] = std::visit([](auto const & p){ return p.shape(); }, state.ta_state.matrix);
+
+    if (rows != 0 and cols != static_cast<std::size_t>(value_of(Params::number_of_features(state.m_params))))
+    {
+        throw std::invalid_argument("Size of state does not match number of features");
+    }
+
+    reset_state_cache(state);
+
+    auto const number_of_clause_outputs = state.cache.clause_output.size();
+    auto const number_of_weights = state.ta_state.weights.size();
+
+    if (rows != 2 * number_of_clause_outputs
+        or not has_shape(state.ta_state, rows, cols)
+        or (number_of_weights != 0 and number_of_weights != number_of_clause_outputs))
+    {
+        throw std::invalid_argument("Size of state does not match number of clauses");
+    }
+}
+
+
 std::string to_json_string(ClassifierStateClassic const & state)
 {
     json js;
@@ -325,7 +391,7 @@ void from_json_string(ClassifierStateClassic & estimator_state, std::string cons
     }
     // end-of-hack
 
-    reset_state_cache(state);
+    reset_imported_state_cache(state);
 
     estimator_state = std::move(state);
 }
@@ -375,7 +441,7 @@ void from_json_string(RegressorStateClassic & estimator_state, std::string const
     }
     // end-of-hack
 
-    reset_state_cache(state);
+    reset_imported_state_cache(state);
 
     estimator_state = std::move(state);
 }
@@ -425,7 +491,7 @@ void from_json_string(ClassifierStateBitwise & estimator_state, std::string cons
     }
     // end-of-hack
 
-    reset_state_cache(state);
+    reset_imported_state_cache(state);
 
     estimator_state = std::move(state);
 }
@@ -475,7 +541,7 @@ void from_json_string(RegressorStateBitwise & estimator_state, std::string const
     }
     // end-of-hack
 
-    reset_state_cache(state);
+    reset_imported_state_cache(state);
 
     estimator_state = std::move(state);
 }
-- 
2.43.0

