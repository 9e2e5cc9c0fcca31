From 6d75ed8cab8e5988c0a0c9c8a17840ff36b3511f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:14 +0000
Subject: [PATCH 001/142] fix: adding an integer in place to an infinite
 time_value keeps it infinite

It reset the date to zero, unlike every other addition and subtraction.
---
 src/ossia/editor/scenario/time_value.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/editor/scenario/time_value.hpp b/src/ossia/editor/scenario/time_value.hpp
index 80a297f..f48b710 100644
--- a/src/ossia/editor/scenario/time_value.hpp
+++ b/src/ossia/editor/scenario/time_value.hpp
@@ -48,7 +48,7 @@ struct OSSIA_EXPORT time_value
   constexpr time_value& operator+=(int64_t d) noexcept
   {
     if (infinite())
-      impl = 0;
+      impl = infinity;
     else
       impl += d;
 
-- 
2.43.0


From 2f524486c3830b6c8a4d76f8306bf0ba9765f3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:14 +0000
Subject: [PATCH 002/142] fix: sum of finite time_values of opposite signs is
 never infinite

5_tv + (-10_tv) was computed modulo 2^64 and came out as Infinite.
---
 src/ossia/editor/scenario/time_value.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/ossia/editor/scenario/time_value.hpp b/src/ossia/editor/scenario/time_value.hpp
index f48b710..b34ea16 100644
--- a/src/ossia/editor/scenario/time_value.hpp
+++ b/src/ossia/editor/scenario/time_value.hpp
@@ -138,13 +138,11 @@ struct OSSIA_EXPORT time_value
     }
     else if(lhs.impl >= 0 && rhs.impl < 0)
     {
-      uint64_t l = lhs.impl;
-      return l + rhs.impl >= infinite_min;
+      return false;
     }
     else if(lhs.impl < 0 && rhs.impl >= 0)
     {
-      uint64_t r = rhs.impl;
-      return lhs.impl + r >= infinite_min;
+      return false;
     }
     else if(lhs.impl < 0 && rhs.impl < 0)
     {
-- 
2.43.0


From 9a492782f56b1235efe06794a61a078ef00b85a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:14 +0000
Subject: [PATCH 003/142] fix: time_value comparisons agree with each other on
 infinite dates

Two infinite dates compared equal, different, and neither <= nor >=.
---
 src/ossia/editor/scenario/time_value.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ossia/editor/scenario/time_value.hpp b/src/ossia/editor/scenario/time_value.hpp
index b34ea16..60145ed 100644
--- a/src/ossia/editor/scenario/time_value.hpp
+++ b/src/ossia/editor/scenario/time_value.hpp
@@ -264,7 +264,7 @@ struct OSSIA_EXPORT time_value
   }
   constexpr bool operator!=(ossia::time_value rhs) const noexcept
   {
-    return (infinite() != rhs.infinite()) || (impl != rhs.impl);
+    return !(*this == rhs);
   }
   constexpr bool operator<(ossia::time_value rhs) const noexcept
   {
@@ -276,11 +276,11 @@ struct OSSIA_EXPORT time_value
   }
   constexpr bool operator<=(ossia::time_value rhs) const noexcept
   {
-    return !(infinite() && rhs.infinite()) && (impl <= rhs.impl);
+    return (infinite() && rhs.infinite()) || (impl <= rhs.impl);
   }
   constexpr bool operator>=(ossia::time_value rhs) const noexcept
   {
-    return !(infinite() && rhs.infinite()) && (impl >= rhs.impl);
+    return (infinite() && rhs.infinite()) || (impl >= rhs.impl);
   }
 
   int64_t impl;
-- 
2.43.0


From 80680fd5858f3611e5ea9f6c206e36af40124158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:14 +0000
Subject: [PATCH 004/142] fix: shortening a tick moves its musical positions
 inside the tick

The positions were scaled by the ratio of the absolute dates: a tick which
starts at 0 got a NaN position, and one after a tempo change a wrong one.
---
 src/ossia/dataflow/token_request.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/ossia/dataflow/token_request.hpp b/src/ossia/dataflow/token_request.hpp
index 0878124..aeeddb8 100644
--- a/src/ossia/dataflow/token_request.hpp
+++ b/src/ossia/dataflow/token_request.hpp
@@ -310,11 +310,12 @@ struct token_request
   constexpr void reduce_end_time(time_value t) noexcept
     //C++23: [[ expects: t <= this->date && t > this->prev_date ]]
   {
-    const auto old_date = date;
+    const auto old_duration = date - prev_date;
+    const auto new_duration = t - prev_date;
     date = t;
 
-    double ratio = t.impl / double(old_date.impl);
-    musical_end_position *= ratio;
+    if(old_duration != 0_tv)
+      musical_end_position = musical_start_position + (musical_end_position - musical_start_position) * (new_duration / old_duration);
 
     // TODO what if musical_end_position is now before musical_end_last_bar
   }
@@ -322,11 +323,12 @@ struct token_request
   constexpr void increase_start_time(time_value t) noexcept
   //C++23: [[ expects: t <= this->date && t > this->prev_date ]]
   {
-    const auto old_date = prev_date;
+    const auto old_duration = date - prev_date;
+    const auto new_duration = date - t;
     prev_date = t;
 
-    double ratio = t.impl / double(old_date.impl);
-    musical_start_position *= ratio;
+    if(old_duration != 0_tv)
+      musical_start_position = musical_end_position - (musical_end_position - musical_start_position) * (new_duration / old_duration);
 
     // TODO what if musical_start_position is now after end_position / end_last_bar ?
   }
-- 
2.43.0


From 292eba69c309aaea9e16585268810b2299ee4421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:14 +0000
Subject: [PATCH 005/142] fix: token_request equality compares every field

musical_start_last_signature was left out.
---
 src/ossia/dataflow/token_request.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ossia/dataflow/token_request.hpp b/src/ossia/dataflow/token_request.hpp
index aeeddb8..ff58c5b 100644
--- a/src/ossia/dataflow/token_request.hpp
+++ b/src/ossia/dataflow/token_request.hpp
@@ -374,6 +374,7 @@ inline bool operator==(const token_request& lhs, const token_request& rhs)
          && lhs.speed == rhs.speed
          && lhs.tempo == rhs.tempo
          && lhs.signature == rhs.signature
+         && lhs.musical_start_last_signature == rhs.musical_start_last_signature
          && lhs.musical_start_last_bar == rhs.musical_start_last_bar
          && lhs.musical_start_position == rhs.musical_start_position
          && lhs.musical_end_last_bar == rhs.musical_end_last_bar
-- 
2.43.0


From 0a9d693f4b85e3321472d0f7fc0200c57f13b357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:55 +0000
Subject: [PATCH 006/142] fix: pretty-printed strings and characters keep their
 whitespace when parsed

The skipper ate leading whitespace of strings and the characters ' ' and '\''
did not parse at all.
---
 src/ossia/network/value/detail/value_parse_impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ossia/network/value/detail/value_parse_impl.hpp b/src/ossia/network/value/detail/value_parse_impl.hpp
index 8309351..1724173 100644
--- a/src/ossia/network/value/detail/value_parse_impl.hpp
+++ b/src/ossia/network/value/detail/value_parse_impl.hpp
@@ -58,7 +58,7 @@ using float_p = real_parser<float, x3::real_policies<float>>;
 const auto o_impulse__def
     = x3::lit("impulse")[([](auto&) { return ossia::impulse{}; })];
 const auto o_str__def
-    = "string: \"" >> (x3::lexeme[*(EscapedChar() | (char_ - '"'))]) >> '"';
+    = x3::lexeme["string: \"" >> *(EscapedChar() | (char_ - '"')) >> '"'];
 const auto o_vec2__def = "vec2f: [" >> float_p() >> "," >> float_p() >> "]";
 const auto o_vec3__def
     = "vec3f: [" >> float_p() >> "," >> float_p() >> "," >> float_p() >> "]";
@@ -74,7 +74,7 @@ BOOST_SPIRIT_DEFINE(o_vec4_)
 BOOST_SPIRIT_DEFINE(o_list_)
 
 const auto value__def = ("float: " >> float_p())
-                        | ("char: '" >> (char_ - "'") >> "'")
+                        | x3::lexeme["char: '" >> char_ >> "'"]
                         | ("int: " >> int_) | BoolParse_map{} | o_impulse_
                         | o_str_ | o_vec2_ | o_vec3_ | o_vec4_ | o_list_;
 
-- 
2.43.0


From 7ed447da1af85ebdfd218ebf4f27584227959e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:55 +0000
Subject: [PATCH 007/142] fix: backslashes survive the pretty-print and parse
 of strings

A string that ends with a backslash printed as a text that does not parse.
---
 src/ossia/network/value/detail/value_parse_impl.hpp | 2 +-
 src/ossia/network/value/format_value.hpp            | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ossia/network/value/detail/value_parse_impl.hpp b/src/ossia/network/value/detail/value_parse_impl.hpp
index 1724173..185b3c3 100644
--- a/src/ossia/network/value/detail/value_parse_impl.hpp
+++ b/src/ossia/network/value/detail/value_parse_impl.hpp
@@ -50,7 +50,7 @@ struct EscapedChar : x3::symbols<const char>
 {
   EscapedChar()
   {
-    add("\\\"", '\"');
+    add("\\\"", '\"')("\\\\", '\\');
   }
 };
 using float_p = real_parser<float, x3::real_policies<float>>;
diff --git a/src/ossia/network/value/format_value.hpp b/src/ossia/network/value/format_value.hpp
index 648ee80..8a09ab5 100644
--- a/src/ossia/network/value/format_value.hpp
+++ b/src/ossia/network/value/format_value.hpp
@@ -32,6 +32,7 @@ struct value_prettyprint_visitor
   }
   auto operator()(std::string str) const
   {
+    boost::algorithm::replace_all(str, "\\", "\\\\");
     boost::algorithm::replace_all(str, "\"", "\\\"");
     return fmt::format_to(ctx.out(), "string: \"{}\"", str);
   }
-- 
2.43.0


From 3eb04c3de9aa51bcf1449c38855f43dce8d2d804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:07 +0000
Subject: [PATCH 008/142] fix: azimuth of spherical, polar and cylindrical
 positions is read as it is written

---
 src/ossia/network/dataspace/detail/dataspace_impl.cpp | 4 ++--
 src/ossia/network/dataspace/position.hpp              | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ossia/network/dataspace/detail/dataspace_impl.cpp b/src/ossia/network/dataspace/detail/dataspace_impl.cpp
index 8c70552..39f40e0 100644
--- a/src/ossia/network/dataspace/detail/dataspace_impl.cpp
+++ b/src/ossia/network/dataspace/detail/dataspace_impl.cpp
@@ -265,7 +265,7 @@ spherical_u::from_neutral(strong_value<spherical_u::neutral_unit> self)
 
   const auto temp = ipow(x, 2) + ipow(y, 2);
 
-  return {(float)(std::atan2(y, x) * rad_to_deg),
+  return {(float)(std::atan2(x, y) * rad_to_deg),
           (float)(std::atan2(z, std::sqrt(temp)) * rad_to_deg),
           (float)(std::sqrt(temp + ipow(z, 2)))};
 }
@@ -287,7 +287,7 @@ cylindrical_u::from_neutral(strong_value<cylindrical_u::neutral_unit> self)
   const auto y = self.dataspace_value[1];
   const auto z = self.dataspace_value[2];
 
-  return {(float)(ossia::norm(x, y)), (float)(std::atan2(y, x) * rad_to_deg),
+  return {(float)(ossia::norm(x, y)), (float)(std::atan2(x, y) * rad_to_deg),
           z};
 }
 }
diff --git a/src/ossia/network/dataspace/position.hpp b/src/ossia/network/dataspace/position.hpp
index d49944d..602af00 100644
--- a/src/ossia/network/dataspace/position.hpp
+++ b/src/ossia/network/dataspace/position.hpp
@@ -154,7 +154,7 @@ struct OSSIA_EXPORT polar_u : public position_unit<polar_u>
     const auto x = self.dataspace_value[0];
     const auto y = self.dataspace_value[1];
 
-    return {(float)(std::atan2(y, x) * float(rad_to_deg)),
+    return {(float)(std::atan2(x, y) * float(rad_to_deg)),
             (float)(ossia::norm(x, y))};
   }
 
-- 
2.43.0


From 332969a13b0d827d911305f3168f57dc6cfaf631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:07 +0000
Subject: [PATCH 009/142] fix: roll of an orientation read from its quaternion

---
 src/ossia/network/dataspace/detail/dataspace_impl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/network/dataspace/detail/dataspace_impl.cpp b/src/ossia/network/dataspace/detail/dataspace_impl.cpp
index 39f40e0..0a1d4a0 100644
--- a/src/ossia/network/dataspace/detail/dataspace_impl.cpp
+++ b/src/ossia/network/dataspace/detail/dataspace_impl.cpp
@@ -195,7 +195,7 @@ euler_u::from_neutral(strong_value<euler_u::neutral_unit> self)
   return {
       (float)(rad_to_deg * std::atan2(-2. * (z * w - x * y), w * w - x * x + y * y - z * z)),
       (float)(rad_to_deg * std::asin(2. * (w * x + y * z))),
-      (float)(rad_to_deg * std::atan2(2. * (w * y + x * z), w * w - x * x - y * y + z * z))};
+      (float)(rad_to_deg * std::atan2(2. * (w * y - x * z), w * w - x * x - y * y + z * z))};
 }
 
 strong_value<axis_u::neutral_unit>
-- 
2.43.0


From f784a9e7e7eeda747dcccaef68c7d1e41f97469c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:07 +0000
Subject: [PATCH 010/142] fix: merging in a component that a unit does not have
 leaves the value untouched

---
 .../network/dataspace/detail/dataspace_merge.hpp      | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ossia/network/dataspace/detail/dataspace_merge.hpp b/src/ossia/network/dataspace/detail/dataspace_merge.hpp
index d789ed6..0ffd7db 100644
--- a/src/ossia/network/dataspace/detail/dataspace_merge.hpp
+++ b/src/ossia/network/dataspace/detail/dataspace_merge.hpp
@@ -115,7 +115,7 @@ struct partial_value_merger_helper<T, U, enable_if_both_iterable<T, U>>
   operator()(T value_unit, const U& value, const ossia::destination_index& idx)
   {
     auto i = idx[0];
-    if ((int64_t)value_unit.dataspace_value.size() > i
+    if (i >= 0 && (int64_t)value_unit.dataspace_value.size() > i
         && (int64_t)value.size() > i)
     {
       value_unit.dataspace_value[i] = ossia::convert<
@@ -164,9 +164,12 @@ struct partial_value_merger_helper<T, U, enable_if_first_iterable<T, U>>
   operator()(T value_unit, const U& value, const ossia::destination_index& idx)
   {
     auto i = idx[0];
-    value_unit.dataspace_value[i] = ossia::convert<
-        std::remove_reference_t<decltype(value_unit.dataspace_value[i])>>(
-        value);
+    if (i >= 0 && (int64_t)value_unit.dataspace_value.size() > i)
+    {
+      value_unit.dataspace_value[i] = ossia::convert<
+          std::remove_reference_t<decltype(value_unit.dataspace_value[i])>>(
+          value);
+    }
     return value_unit;
   }
 
-- 
2.43.0


From 79a7f0a693367aafaf7dfe03b67c92d3fe6374a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:26 +0000
Subject: [PATCH 011/142] fix: pixel density given in dots per inch

---
 src/ossia/network/dataspace/distance.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/network/dataspace/distance.hpp b/src/ossia/network/dataspace/distance.hpp
index ce70038..9338c29 100644
--- a/src/ossia/network/dataspace/distance.hpp
+++ b/src/ossia/network/dataspace/distance.hpp
@@ -58,7 +58,7 @@ struct OSSIA_EXPORT pixel_u : public distance_unit<pixel_u>
   }
   void set_dpi(float v)
   {
-    ppm = v / 254.f;
+    ppm = v / 0.0254f;
   }
   strong_value<neutral_unit> to_neutral(strong_value<concrete_type> self)
   {
-- 
2.43.0


From caa7bc224ab84312f9327129a839da5fffaf73f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:53 +0000
Subject: [PATCH 012/142] fix: setting the accepted values of a list domain
 sets them for every element

---
 src/ossia/network/domain/detail/value_set_domain.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/network/domain/detail/value_set_domain.hpp b/src/ossia/network/domain/detail/value_set_domain.hpp
index f35b672..c08344f 100644
--- a/src/ossia/network/domain/detail/value_set_domain.hpp
+++ b/src/ossia/network/domain/detail/value_set_domain.hpp
@@ -94,7 +94,7 @@ struct value_set_update_visitor
       set.clear();
       for (auto& value : values)
       {
-        dom.values[0].insert(value);
+        set.insert(value);
       }
     }
   }
-- 
2.43.0


From ff19ad67a0d556c81e2c015a800c5aa51840b25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:53 +0000
Subject: [PATCH 013/142] fix: bounding a list between lists of another size
 does not empty it

---
 src/ossia/network/domain/detail/clamp_visitors.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ossia/network/domain/detail/clamp_visitors.hpp b/src/ossia/network/domain/detail/clamp_visitors.hpp
index 77959e2..d00bf47 100644
--- a/src/ossia/network/domain/detail/clamp_visitors.hpp
+++ b/src/ossia/network/domain/detail/clamp_visitors.hpp
@@ -98,6 +98,10 @@ struct apply_ternary_fun_visitor
         val.push_back(ossia::apply(*this, incoming[i].v, min[i].v, max[i].v));
       }
     }
+    else
+    {
+      val = incoming;
+    }
     return val;
   }
 
@@ -246,6 +250,10 @@ struct apply_binary_fun_visitor
         val.push_back(ossia::apply(*this, incoming[i].v, min[i].v));
       }
     }
+    else
+    {
+      val = incoming;
+    }
     return val;
   }
 
-- 
2.43.0


From 807e26e9dbcead4694bbfb1575b61df13634b620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:53 +0000
Subject: [PATCH 014/142] fix: wrapping or folding in a range reduced to one
 value gives that value

---
 src/ossia/detail/math.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ossia/detail/math.hpp b/src/ossia/detail/math.hpp
index 8a6df35..946df35 100644
--- a/src/ossia/detail/math.hpp
+++ b/src/ossia/detail/math.hpp
@@ -116,6 +116,8 @@ OSSIA_INLINE constexpr T wrap(const T val, const T low, const T high) noexcept
 {
   if ((val >= low) && (val < high))
     return val;
+  else if (low == high)
+    return low;
   else if (val >= low)
     return low + std::fmod(val - low, std::fabs(low - high));
   else
@@ -127,6 +129,8 @@ OSSIA_INLINE constexpr T fold(const T val, const T low, const T high) noexcept
 {
   if ((val >= low) && (val <= high))
     return val;
+  else if (low == high)
+    return low;
   else
   {
     return low
-- 
2.43.0


From 8922cf0e1fc259732a946d41cd54c1685b311195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:33 +0000
Subject: [PATCH 015/142] fix: copying a domain of values keeps its accepted
 values

---
 src/ossia/network/domain/domain_base_impl.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ossia/network/domain/domain_base_impl.hpp b/src/ossia/network/domain/domain_base_impl.hpp
index 0976e19..d45c3c3 100644
--- a/src/ossia/network/domain/domain_base_impl.hpp
+++ b/src/ossia/network/domain/domain_base_impl.hpp
@@ -317,14 +317,14 @@ struct OSSIA_EXPORT domain_base<ossia::value>
   domain_base(const domain_base<value_type>& other) noexcept
       : min{std::move(other.min)}
       , max{std::move(other.max)}
-      , values{std::move(other.values)}
+      , values(std::move(other.values))
   {
   }
 
   domain_base(domain_base<value_type>&& other) noexcept
       : min{std::move(other.min)}
       , max{std::move(other.max)}
-      , values{std::move(other.values)}
+      , values(std::move(other.values))
   {
   }
 
@@ -355,12 +355,12 @@ struct OSSIA_EXPORT domain_base<ossia::value>
   domain_base(
       const value_type& v1, const value_type& v2,
       const std::vector<value_type>& vals)
-      : min{v1}, max{v2}, values{vals}
+      : min{v1}, max{v2}, values(vals)
   {
   }
   domain_base(
       value_type&& v1, value_type&& v2, std::vector<value_type>&& vals)
-      : min{std::move(v1)}, max{std::move(v2)}, values{std::move(vals)}
+      : min{std::move(v1)}, max{std::move(v2)}, values(std::move(vals))
   {
   }
 
-- 
2.43.0


From edb47f67d2956b123d61903089d0c11a2356fb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:38 +0000
Subject: [PATCH 016/142] fix: wrapped and folded numbers stay in their range

---
 src/ossia/detail/math.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/ossia/detail/math.hpp b/src/ossia/detail/math.hpp
index 946df35..410826f 100644
--- a/src/ossia/detail/math.hpp
+++ b/src/ossia/detail/math.hpp
@@ -119,9 +119,13 @@ OSSIA_INLINE constexpr T wrap(const T val, const T low, const T high) noexcept
   else if (low == high)
     return low;
   else if (val >= low)
-    return low + std::fmod(val - low, std::fabs(low - high));
+    return clamp(
+        T(low + std::fmod(double(val) - low, std::fabs(double(low) - high))),
+        low, high);
   else
-    return high - std::fmod(low - val, std::fabs(low - high));
+    return clamp(
+        T(high - std::fmod(double(low) - val, std::fabs(double(low) - high))),
+        low, high);
 }
 
 template <class T>
@@ -133,9 +137,11 @@ OSSIA_INLINE constexpr T fold(const T val, const T low, const T high) noexcept
     return low;
   else
   {
-    return low
-           + std::fabs(
-                 ossia::remainder(val - low, 2. * std::fabs(low - high)));
+    return clamp(
+        T(low
+          + std::fabs(ossia::remainder(
+                double(val) - low, 2. * std::fabs(double(low) - high)))),
+        low, high);
   }
 }
 
-- 
2.43.0


From b7d78180e1766ab99f0db6045f4460e04c0e077b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:38 +0000
Subject: [PATCH 017/142] fix: assigning a domain to itself keeps it

---
 src/ossia/network/domain/domain_variant_impl.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ossia/network/domain/domain_variant_impl.hpp b/src/ossia/network/domain/domain_variant_impl.hpp
index 231e3f0..9406f98 100644
--- a/src/ossia/network/domain/domain_variant_impl.hpp
+++ b/src/ossia/network/domain/domain_variant_impl.hpp
@@ -314,6 +314,8 @@ public:
   }
   domain_base_variant& operator=(const domain_base_variant& other)
   {
+    if (this == &other)
+      return *this;
     destruct_impl();
     m_type = other.m_type;
     switch (m_type)
@@ -362,6 +364,8 @@ public:
   }
   domain_base_variant& operator=(domain_base_variant&& other)
   {
+    if (this == &other)
+      return *this;
     destruct_impl();
     m_type = other.m_type;
     switch (m_type)
-- 
2.43.0


From 3459c567aef457cb2711c24704222f347ecdf292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:38 +0000
Subject: [PATCH 018/142] fix: assigning a behavior to itself or from a part of
 itself keeps it

---
 .../editor/curve/behavior_variant_impl.hpp    | 26 +++++--------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/src/ossia/editor/curve/behavior_variant_impl.hpp b/src/ossia/editor/curve/behavior_variant_impl.hpp
index c31295c..cea9673 100644
--- a/src/ossia/editor/curve/behavior_variant_impl.hpp
+++ b/src/ossia/editor/curve/behavior_variant_impl.hpp
@@ -125,36 +125,24 @@ public:
   }
   behavior_variant_type& operator=(const behavior_variant_type& other)
   {
-    destruct_impl();
-    m_type = other.m_type;
-    switch (m_type)
-    {
-      case Type::Type0:
-        new (&m_impl.m_value0)
-            std::shared_ptr<ossia::curve_abstract>{other.m_impl.m_value0};
-        break;
-      case Type::Type1:
-        new (&m_impl.m_value1)
-            std::vector<ossia::behavior>{other.m_impl.m_value1};
-        break;
-      default:
-        break;
-    }
-    return *this;
+    // other can be this, or a part of this
+    return *this = behavior_variant_type{other};
   }
   behavior_variant_type& operator=(behavior_variant_type&& other)
   {
+    // other can be this, or a part of this
+    behavior_variant_type tmp{std::move(other)};
     destruct_impl();
-    m_type = other.m_type;
+    m_type = tmp.m_type;
     switch (m_type)
     {
       case Type::Type0:
         new (&m_impl.m_value0) std::shared_ptr<ossia::curve_abstract>{
-            std::move(other.m_impl.m_value0)};
+            std::move(tmp.m_impl.m_value0)};
         break;
       case Type::Type1:
         new (&m_impl.m_value1)
-            std::vector<ossia::behavior>{std::move(other.m_impl.m_value1)};
+            std::vector<ossia::behavior>{std::move(tmp.m_impl.m_value1)};
         break;
       default:
         break;
-- 
2.43.0


From 8ba30b52800422be7626a507c1a10b39597e9a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:38 +0000
Subject: [PATCH 019/142] fix: resetting a list of behaviors with unset ones
 does not throw

---
 src/ossia/editor/curve/curve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/editor/curve/curve.cpp b/src/ossia/editor/curve/curve.cpp
index b6a766d..14a18e6 100644
--- a/src/ossia/editor/curve/curve.cpp
+++ b/src/ossia/editor/curve/curve.cpp
@@ -30,7 +30,7 @@ void behavior::reset()
     void operator()(const std::vector<behavior>& p)
     {
       for (auto& b : p)
-        ossia::apply_nonnull(*this, b);
+        ossia::apply(*this, b);
     }
 
     void operator()()
-- 
2.43.0


From 442fd0904af674dea5ec45cee1f92c5edfff45e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:38 +0000
Subject: [PATCH 020/142] fix: a mapping ignores the values it cannot map

---
 src/ossia/dataflow/nodes/mapping.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/ossia/dataflow/nodes/mapping.hpp b/src/ossia/dataflow/nodes/mapping.hpp
index cbc47f7..8796249 100644
--- a/src/ossia/dataflow/nodes/mapping.hpp
+++ b/src/ossia/dataflow/nodes/mapping.hpp
@@ -58,10 +58,17 @@ private:
     {
       if (tv.value.valid())
       {
-        auto v = ossia::apply(
-            ossia::detail::mapper_compute_visitor{}, tv.value, m_drive.v);
+        try
+        {
+          auto v = ossia::apply(
+              ossia::detail::mapper_compute_visitor{}, tv.value, m_drive.v);
 
-        op.write_value(std::move(v), tv.timestamp);
+          op.write_value(std::move(v), tv.timestamp);
+        }
+        catch (const std::exception&)
+        {
+          // The value cannot be mapped (e.g. a string): it is ignored
+        }
       }
     }
   }
-- 
2.43.0


From 8a70513757819ab4d4daed3f90c1b930d1deeb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:38 +0000
Subject: [PATCH 021/142] fix: splines with too few points or evaluated after
 their end

---
 src/ossia/editor/automation/tinyspline_util.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/ossia/editor/automation/tinyspline_util.hpp b/src/ossia/editor/automation/tinyspline_util.hpp
index 762d7bb..f70947e 100644
--- a/src/ossia/editor/automation/tinyspline_util.hpp
+++ b/src/ossia/editor/automation/tinyspline_util.hpp
@@ -18,6 +18,9 @@ struct spline
     ts_int_deboornet_init(&m_net);
   }
 
+  spline(const spline&) = delete;
+  spline& operator=(const spline&) = delete;
+
   ~spline()
   {
     if(m_net.pImpl)
@@ -38,7 +41,11 @@ struct spline
       ts_bspline_free(&m_spline);
 
     m_spline = ts_bspline_init();
-    ts_bspline_new(numPoints, N, 3, TS_CLAMPED, &m_spline, &status);
+    if (ts_bspline_new(numPoints, N, 3, TS_CLAMPED, &m_spline, &status) != TS_SUCCESS)
+    {
+      // Not enough points for a cubic spline: there is nothing to evaluate
+      return;
+    }
 
     ts_bspline_set_control_points(
         &m_spline,
@@ -51,7 +58,13 @@ struct spline
 
   std::array<tsReal, N> evaluate(double pos) const noexcept
   {
-    std::array<tsReal, N> res;
+    std::array<tsReal, N> res{};
+    if (!m_net.pImpl)
+      return res;
+
+    // The knots of a clamped spline go from 0 to 1
+    if (pos > 1.)
+      pos = 1.;
 
     tsStatus status;
     if (ts_int_bspline_eval_woa(&m_spline, pos, &m_net, &status) != 0)
-- 
2.43.0


From 6ffc436fbe583348f24988d51f3a3dc39498f886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:38 +0000
Subject: [PATCH 022/142] fix: knot multiplicity and component index checks of
 tinyspline

---
 src/ossia/editor/automation/tinyspline.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ossia/editor/automation/tinyspline.c b/src/ossia/editor/automation/tinyspline.c
index 7178c66..4307923 100644
--- a/src/ossia/editor/automation/tinyspline.c
+++ b/src/ossia/editor/automation/tinyspline.c
@@ -321,7 +321,7 @@ ts_bspline_set_knots(tsBSpline* spline, const tsReal* knots, tsStatus* status)
     }
     else
     {
-      mult = 0;
+      mult = 1;
     }
     if (mult > order)
     {
@@ -1331,7 +1331,7 @@ tsError ts_bspline_bisect(
 
   ts_int_deboornet_init(net);
 
-  if (dim < index)
+  if (dim <= index)
   {
     TS_RETURN_2(
         status, TS_INDEX_ERROR, "dimension (%lu) <= index (%lu)",
-- 
2.43.0


From d6aa44b795dfbbc546e9cfaa9d721d54e237738b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:57 +0000
Subject: [PATCH 023/142] fix: values written to a port keep their timestamp

---
 src/ossia/dataflow/data.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ossia/dataflow/data.cpp b/src/ossia/dataflow/data.cpp
index 3daa45b..0db0ddd 100644
--- a/src/ossia/dataflow/data.cpp
+++ b/src/ossia/dataflow/data.cpp
@@ -175,13 +175,13 @@ void value_port::write_value(const value& v, int64_t timestamp)
     }
     else
     {
-      data.emplace_back(v);
+      data.emplace_back(v, timestamp);
     }
     break;
   }
   case data_mix_method::mix_append:
   {
-    this->data.emplace_back(v);
+    this->data.emplace_back(v, timestamp);
     break;
   }
   case data_mix_method::mix_merge:
@@ -207,13 +207,13 @@ void value_port::write_value(value&& v, int64_t timestamp)
     }
     else
     {
-      data.emplace_back(std::move(v));
+      data.emplace_back(std::move(v), timestamp);
     }
     break;
   }
   case data_mix_method::mix_append:
   {
-    this->data.emplace_back(std::move(v));
+    this->data.emplace_back(std::move(v), timestamp);
     break;
   }
   case data_mix_method::mix_merge:
-- 
2.43.0


From 43c6b1ab15f851db3977c9d18d028e68f7f06c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:08 +0000
Subject: [PATCH 024/142] fix: slip decoder resynchronizes on the byte which
 starts a message

---
 src/ossia/network/sockets/slip_framing.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ossia/network/sockets/slip_framing.hpp b/src/ossia/network/sockets/slip_framing.hpp
index da3a4b3..bc2fb6e 100644
--- a/src/ossia/network/sockets/slip_framing.hpp
+++ b/src/ossia/network/sockets/slip_framing.hpp
@@ -90,9 +90,10 @@ struct slip_decoder
         {
           // End of a message, we can process it
           case slip::eot:
-            m_status = waiting;
+            // An empty packet means that this byte starts the next message
             if(m_decoded.size() > 0)
             {
+              m_status = waiting;
               f(m_decoded.data(), m_decoded.size());
             }
             m_decoded.clear();
-- 
2.43.0


From 0a7e6feb86ce9601945ef46d47a3177725c944e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:08 +0000
Subject: [PATCH 025/142] fix: size prefix read entirely before being used

---
 src/ossia/network/sockets/size_prefix_framing.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/network/sockets/size_prefix_framing.hpp b/src/ossia/network/sockets/size_prefix_framing.hpp
index 770ed4c..a2894f1 100644
--- a/src/ossia/network/sockets/size_prefix_framing.hpp
+++ b/src/ossia/network/sockets/size_prefix_framing.hpp
@@ -28,7 +28,7 @@ struct size_prefix_decoder
   void receive(F f)
   {
     // Receive the size prefix
-    socket.async_read_some(
+    boost::asio::async_read(socket,
         boost::asio::buffer(&m_next_packet_size, sizeof(int32_t)),
         [this, f = std::move(f)] (boost::system::error_code ec, std::size_t sz) mutable {
           read_size(std::move(f), ec, sz);
-- 
2.43.0


From 482e9a8ad32d5d754598340b91146c65c691cf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:08 +0000
Subject: [PATCH 026/142] fix: an empty packet does not stop the size prefix
 decoder

---
 src/ossia/network/sockets/size_prefix_framing.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ossia/network/sockets/size_prefix_framing.hpp b/src/ossia/network/sockets/size_prefix_framing.hpp
index a2894f1..d92a1c5 100644
--- a/src/ossia/network/sockets/size_prefix_framing.hpp
+++ b/src/ossia/network/sockets/size_prefix_framing.hpp
@@ -42,9 +42,12 @@ struct size_prefix_decoder
       return;
 
     boost::endian::big_to_native_inplace(m_next_packet_size);
-    if (m_next_packet_size <= 0)
+    if (m_next_packet_size < 0)
       return;
 
+    if (m_next_packet_size == 0)
+      return this->receive(std::move(f));
+
     m_data.resize(m_next_packet_size);
     boost::asio::async_read(socket,
         boost::asio::buffer(m_data.data(), m_next_packet_size),
-- 
2.43.0


From f29b1198bb67430a16c201461fae3a43b32f8c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:08 +0000
Subject: [PATCH 027/142] fix: stream errors stop the reception instead of
 retrying forever

---
 src/ossia/network/sockets/writers.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ossia/network/sockets/writers.hpp b/src/ossia/network/sockets/writers.hpp
index c11d739..9e464f6 100644
--- a/src/ossia/network/sockets/writers.hpp
+++ b/src/ossia/network/sockets/writers.hpp
@@ -61,6 +61,12 @@ struct stream_processor
       return false;
     }
 
+    if (ec)
+    {
+      self.on_fail();
+      return false;
+    }
+
     return true;
   }
 };
-- 
2.43.0


From 415c9f298a0e8b516a9cdb5e37b1c7bd263ce865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:08 +0000
Subject: [PATCH 028/142] fix: a deleted stream server does not accept again

---
 src/ossia/network/sockets/framing.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ossia/network/sockets/framing.hpp b/src/ossia/network/sockets/framing.hpp
index 5f72d35..607e40f 100644
--- a/src/ossia/network/sockets/framing.hpp
+++ b/src/ossia/network/sockets/framing.hpp
@@ -60,7 +60,11 @@ public:
   void listen(F f)
   {
     this->m_acceptor.async_accept(
-        [this, f = std::move(f)](std::error_code ec, socket socket) {
+        [this, f = std::move(f)](boost::system::error_code ec, socket socket) {
+          // The server is being closed or deleted
+          if (ec == boost::asio::error::operation_aborted)
+            return;
+
           if (!ec)
           {
             m_sockets.push_back(std::make_unique<listener>(std::move(socket), f));
-- 
2.43.0


From adf3676b703c14d1ba40a1d4af6853995a39b501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:47 +0000
Subject: [PATCH 029/142] fix: assigning a callback container locks its own
 callbacks

---
 src/ossia/detail/callback_container.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/ossia/detail/callback_container.hpp b/src/ossia/detail/callback_container.hpp
index 3790d15..f1ee8e4 100644
--- a/src/ossia/detail/callback_container.hpp
+++ b/src/ossia/detail/callback_container.hpp
@@ -56,14 +56,20 @@ public:
   }
   callback_container& operator=(const callback_container& other)
   {
-    std::lock_guard<std::mutex> lck{other.m_mutx};
-    m_callbacks = other.m_callbacks;
+    if (this != &other)
+    {
+      std::scoped_lock lck{m_mutx, other.m_mutx};
+      m_callbacks = other.m_callbacks;
+    }
     return *this;
   }
   callback_container& operator=(callback_container&& other) noexcept
   {
-    std::lock_guard<std::mutex> lck{other.m_mutx};
-    m_callbacks = std::move(other.m_callbacks);
+    if (this != &other)
+    {
+      std::scoped_lock lck{m_mutx, other.m_mutx};
+      m_callbacks = std::move(other.m_callbacks);
+    }
     return *this;
   }
 
-- 
2.43.0


From a6c5d086a31154db8cf5f4414772085b319a3bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:47 +0000
Subject: [PATCH 030/142] fix: every callback receives the arguments, not only
 the first

---
 src/ossia/detail/callback_container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/detail/callback_container.hpp b/src/ossia/detail/callback_container.hpp
index f1ee8e4..d37f08a 100644
--- a/src/ossia/detail/callback_container.hpp
+++ b/src/ossia/detail/callback_container.hpp
@@ -193,7 +193,7 @@ public:
     for (auto& callback : m_callbacks)
     {
       if (callback)
-        callback(std::forward<Args>(args)...);
+        callback(args...);
     }
   }
 
-- 
2.43.0


From 3762cb342c03b3d6773577daeb9b40cec5291560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:47 +0000
Subject: [PATCH 031/142] fix: disabling a callback keeps the iterators to the
 other ones valid

---
 src/ossia/detail/callback_container.hpp | 28 ++++++++++++++++---------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/ossia/detail/callback_container.hpp b/src/ossia/detail/callback_container.hpp
index d37f08a..49ae2d8 100644
--- a/src/ossia/detail/callback_container.hpp
+++ b/src/ossia/detail/callback_container.hpp
@@ -1,6 +1,8 @@
 #pragma once
 #include <ossia/detail/config.hpp>
 
+#include <algorithm>
+#include <iterator>
 #include <list>
 #include <mutex>
 #include <stdexcept>
@@ -135,31 +137,37 @@ public:
   class disabled_callback
   {
   public:
-    explicit disabled_callback(callback_container& self)
-      : self{self}, old_callbacks{self.m_callbacks}
+    explicit disabled_callback(callback_container& self, iterator it)
+      : self{self}
     {
-
+      std::lock_guard<std::mutex> lck{self.m_mutx};
+      pos = std::distance(self.m_callbacks.begin(), it);
+      disabled.splice(disabled.begin(), self.m_callbacks, it);
     }
 
+    disabled_callback(const disabled_callback&) = delete;
+    disabled_callback& operator=(const disabled_callback&) = delete;
+
     ~disabled_callback()
     {
-      self.replace_callbacks(std::move(old_callbacks));
+      // The node goes back at its place : the iterators stay valid
+      std::lock_guard<std::mutex> lck{self.m_mutx};
+      auto& cbs = self.m_callbacks;
+      const auto n = std::min(pos, std::ptrdiff_t(cbs.size()));
+      cbs.splice(std::next(cbs.begin(), n), disabled);
     }
 
   private:
     callback_container& self;
-    callback_container::impl old_callbacks;
+    callback_container::impl disabled;
+    std::ptrdiff_t pos{};
   };
 
   disabled_callback disable_callback(iterator it)
   {
-    std::lock_guard<std::mutex> lck{m_mutx};
-    disabled_callback dis{*this};
-
     // TODO should we also call on_removing_last_blah ?
     // I don't think so : it's supposed to be a short operation
-    m_callbacks.erase(it);
-    return dis;
+    return disabled_callback{*this, it};
   }
 
   /**
-- 
2.43.0


From e09093f2219be4973ccc541c0c56df8c5130323a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:47 +0000
Subject: [PATCH 032/142] fix: equal compares the lengths

---
 src/ossia/detail/algorithms.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/detail/algorithms.hpp b/src/ossia/detail/algorithms.hpp
index 44300a7..b5dbbaa 100644
--- a/src/ossia/detail/algorithms.hpp
+++ b/src/ossia/detail/algorithms.hpp
@@ -167,7 +167,7 @@ auto transform(Vector&& v, OutputIterator it, Fun f)
 template <typename Array1, typename Array2>
 auto equal(const Array1& v, const Array2& v2) noexcept
 {
-  return std::equal(std::begin(v), std::end(v), std::begin(v2));
+  return std::equal(std::begin(v), std::end(v), std::begin(v2), std::end(v2));
 }
 
 template <typename Vector1, typename Vector2>
-- 
2.43.0


From 129787d40244e1ef4f4a2c84b09a675d43e77f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:47 +0000
Subject: [PATCH 033/142] fix: setting an attribute from a variable does not
 empty the variable

---
 src/ossia/detail/any_map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ossia/detail/any_map.hpp b/src/ossia/detail/any_map.hpp
index 5e5bd08..a859560 100644
--- a/src/ossia/detail/any_map.hpp
+++ b/src/ossia/detail/any_map.hpp
@@ -140,9 +140,9 @@ void set_attribute(any_map& e, ossia::string_view str, T&& val)
     // TODO insert_or_assign
     auto it = e.find(str);
     if (it != e.end())
-      it.value() = std::move(val);
+      it.value() = std::forward<T>(val);
     else
-      e.insert(std::make_pair(std::string(str), ossia::any{std::move(val)}));
+      e.insert(std::make_pair(std::string(str), ossia::any{std::forward<T>(val)}));
   }
   else
   {
-- 
2.43.0


From 16c795ad226b889aa4a1861e198e849065b51c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:47 +0000
Subject: [PATCH 034/142] fix: a recycled object has the requested size

---
 src/ossia/detail/buffer_pool.hpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/ossia/detail/buffer_pool.hpp b/src/ossia/detail/buffer_pool.hpp
index 0ec4e4b..4bdae3f 100644
--- a/src/ossia/detail/buffer_pool.hpp
+++ b/src/ossia/detail/buffer_pool.hpp
@@ -68,20 +68,16 @@ struct sized_object_pool
   Obj_T acquire_sized(std::size_t req_size = 1024) noexcept
   {
     Obj_T b;
-    if(!queues[find_bucket(req_size)].try_dequeue(b))
-    {
-      Alloc::resize(b, req_size);
-    }
+    queues[find_bucket(req_size)].try_dequeue(b);
+    Alloc::resize(b, req_size);
     return b;
   }
 
   Obj_T acquire_reserved(std::size_t req_size = 1024) noexcept
   {
     Obj_T b;
-    if(!queues[find_bucket(req_size)].try_dequeue(b))
-    {
-      Alloc::reserve(b, req_size);
-    }
+    queues[find_bucket(req_size)].try_dequeue(b);
+    Alloc::reserve(b, req_size);
     return b;
   }
 
-- 
2.43.0


From 7b46fb5f00618fd664133de3091668ba86f48f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:47 +0000
Subject: [PATCH 035/142] fix: hashing unaligned strings

---
 src/ossia/detail/murmur3.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ossia/detail/murmur3.hpp b/src/ossia/detail/murmur3.hpp
index 8f04506..92dcf63 100644
--- a/src/ossia/detail/murmur3.hpp
+++ b/src/ossia/detail/murmur3.hpp
@@ -4,6 +4,7 @@
 **/
 #pragma once
 #include <cstdint>
+#include <cstring>
 namespace ossia
 {
 namespace murmur
@@ -60,11 +61,11 @@ murmur3_x86_32(const void* key, int len, uint32_t seed, uint32_t& out) noexcept
   //----------
   // body
 
-  const uint32_t* blocks = (const uint32_t*)(data + nblocks * 4);
-
-  for (int i = -nblocks; i; i++)
+  for (int i = 0; i < nblocks; i++)
   {
-    uint32_t k1 = blocks[i];
+    // The key may not be aligned
+    uint32_t k1;
+    std::memcpy(&k1, data + i * 4, sizeof(k1));
 
     k1 *= c1;
     k1 = rotl32(k1, 15);
-- 
2.43.0


From b68cf5b7e51509b683ef340285e8cbd0ea28b710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:47 +0000
Subject: [PATCH 036/142] fix: small string concatenation and lowering

---
 src/ossia/detail/constexpr_string_map.hpp | 52 ++++++++++-------------
 1 file changed, 22 insertions(+), 30 deletions(-)

diff --git a/src/ossia/detail/constexpr_string_map.hpp b/src/ossia/detail/constexpr_string_map.hpp
index d209095..3a8d76b 100644
--- a/src/ossia/detail/constexpr_string_map.hpp
+++ b/src/ossia/detail/constexpr_string_map.hpp
@@ -23,23 +23,18 @@ struct small_string
 
   friend constexpr small_string operator+(small_string lhs, small_string rhs)
   {
-    bool past_lhs = false;
-    int k = 0;
-    for (int i = 0; i < small_string::size(); i++)
+    int i = 0;
+    while (i < small_string::size() && lhs[i] != 0)
+      i++;
+
+    for (int k = 0; k < small_string::size() && rhs[k] != 0; k++)
     {
-      if (lhs[i] == 0)
+      if (i + 1 >= small_string::size())
       {
-
-        for (int k = 0; k < small_string::size(); k++)
-        {
-          if (i + k > small_string::size())
-          {
-            throw std::runtime_error("string too long");
-          }
-
-          lhs[i + k] = rhs[k];
-        }
+        throw std::runtime_error("string too long");
       }
+
+      lhs[i++] = rhs[k];
     }
     return lhs;
   }
@@ -48,22 +43,18 @@ struct small_string
   friend constexpr small_string
   operator+(small_string lhs, const char (&rhs)[N])
   {
-    bool past_lhs = false;
-    int k = 0;
-    for (int i = 0; i < size(); i++)
+    int i = 0;
+    while (i < small_string::size() && lhs[i] != 0)
+      i++;
+
+    if (i + N > small_string::size())
     {
-      if (lhs[i] == 0)
-      {
-        if (i + N > small_string::size())
-        {
-          throw std::runtime_error("string too long");
-        }
+      throw std::runtime_error("string too long");
+    }
 
-        for (int k = 0; k < N; k++)
-        {
-          lhs[i + k] = rhs[k];
-        }
-      }
+    for (std::size_t k = 0; k < N; k++)
+    {
+      lhs[i + k] = rhs[k];
     }
     return lhs;
   }
@@ -71,7 +62,7 @@ struct small_string
 
 constexpr small_string to_lower(std::string_view arr)
 {
-  if (arr.size() > small_string::size())
+  if (arr.size() >= small_string::size())
     throw std::runtime_error("string too long");
 
   small_string s{};
@@ -81,8 +72,9 @@ constexpr small_string to_lower(std::string_view arr)
     char in = arr[i];
     if (in <= 'Z' && in >= 'A')
       s[i] = in - ('Z' - 'z');
+    else
+      s[i] = in;
   }
-  s[i + 1] = 0;
   return s;
 }
 }
-- 
2.43.0


From f159cd477200e438e89994371fc792f3a9a53ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:52 +0000
Subject: [PATCH 037/142] fix: a parameter registered twice in a message queue
 is unregistered by the second unreg

---
 src/ossia/network/base/message_queue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/network/base/message_queue.hpp b/src/ossia/network/base/message_queue.hpp
index 5710211..dc8670e 100644
--- a/src/ossia/network/base/message_queue.hpp
+++ b/src/ossia/network/base/message_queue.hpp
@@ -50,7 +50,7 @@ public:
       auto it = p.add_callback([this, ptr](const ossia::value& val) {
         m_queue.enqueue({ptr, val});
       });
-      m_reg.insert({&p, {0, it}});
+      m_reg.insert({&p, {1, it}});
     }
     else
     {
-- 
2.43.0


From 44a7460a0fbc936660ed25b7a60a4053c3c723db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:56 +0000
Subject: [PATCH 038/142] fix: zeroconf_supported tells whether zeroconf is
 built in

---
 src/ossia/network/zeroconf/zeroconf.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ossia/network/zeroconf/zeroconf.cpp b/src/ossia/network/zeroconf/zeroconf.cpp
index 7eef96e..c7a7c6a 100644
--- a/src/ossia/network/zeroconf/zeroconf.cpp
+++ b/src/ossia/network/zeroconf/zeroconf.cpp
@@ -24,7 +24,11 @@ namespace net
 {
 bool zeroconf_supported()
 {
+#if defined(OSSIA_DNSSD)
   return true;
+#else
+  return false;
+#endif
 }
 
 std::vector<minuit_connection_data> list_minuit_devices()
-- 
2.43.0


From 223690daca9df8f6e8fa44c0417a973b518834af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:23 +0000
Subject: [PATCH 039/142] fix: character sets of addresses include =, as the
 name validation

---
 src/ossia/network/base/name_validation.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ossia/network/base/name_validation.hpp b/src/ossia/network/base/name_validation.hpp
index 1e2488b..469b70f 100644
--- a/src/ossia/network/base/name_validation.hpp
+++ b/src/ossia/network/base/name_validation.hpp
@@ -42,7 +42,7 @@ bool is_valid_character_for_name(Char_T c)
  */
 constexpr ossia::string_view device_characters() noexcept
 {
-  constexpr_return(ossia::make_string_view("a-zA-Z0-9_~() .-"));
+  constexpr_return(ossia::make_string_view("a-zA-Z0-9_~() .=-"));
 }
 
 /**
@@ -50,7 +50,7 @@ constexpr ossia::string_view device_characters() noexcept
  */
 constexpr ossia::string_view name_characters() noexcept
 {
-  constexpr_return(ossia::make_string_view("a-zA-Z0-9_~(): .-"));
+  constexpr_return(ossia::make_string_view("a-zA-Z0-9_~(): .=-"));
 }
 
 /**
@@ -58,12 +58,12 @@ constexpr ossia::string_view name_characters() noexcept
  */
 constexpr ossia::string_view path_characters() noexcept
 {
-  constexpr_return(ossia::make_string_view("/a-zA-Z0-9_~(): .-"));
+  constexpr_return(ossia::make_string_view("/a-zA-Z0-9_~(): .=-"));
 }
 
 constexpr ossia::string_view name_characters_no_instance() noexcept
 {
-  constexpr_return(ossia::make_string_view("a-zA-Z0-9_~(): -"));
+  constexpr_return(ossia::make_string_view("a-zA-Z0-9_~(): =-"));
 }
 /**
  * @brief Characters valid in an OSSIA pattern-matching part.
@@ -74,7 +74,7 @@ constexpr ossia::string_view name_characters_no_instance() noexcept
  */
 constexpr ossia::string_view pattern_match_characters() noexcept
 {
-  constexpr_return(ossia::make_string_view("a-zA-Z0-9_~(): .*?,{}\\[\\]-"));
+  constexpr_return(ossia::make_string_view("a-zA-Z0-9_~(): .=*?,{}\\[\\]-"));
 }
 
 /**
-- 
2.43.0


From 364b5d79e3aa13b655cfc75c3b462d3080f5740d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:23 +0000
Subject: [PATCH 040/142] fix: a dot in a pattern only matches a dot

---
 src/ossia/network/common/path.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ossia/network/common/path.cpp b/src/ossia/network/common/path.cpp
index 5cb23af..107f326 100644
--- a/src/ossia/network/common/path.cpp
+++ b/src/ossia/network/common/path.cpp
@@ -169,7 +169,15 @@ std::string substitute_characters(const std::string& part)
       = "[" + std::string(ossia::net::name_characters()) + "]*";
   for (std::size_t i = 0, N = part.size(); i < N; i++)
   {
-    if (part[i] == '(')
+    if (part[i] == '\\' && i + 1 < N)
+    {
+      // Already escaped
+      res += part[i];
+      res += part[++i];
+    }
+    else if (part[i] == '.')
+      res.append("\\.");
+    else if (part[i] == '(')
       res.append("\\(");
     else if (part[i] == ')')
       res.append("\\)");
-- 
2.43.0


From 89d6f2df3f11a07896b5c016f08363a8080ea06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:23 +0000
Subject: [PATCH 041/142] fix: ranges with a negative increment

---
 src/ossia/network/base/node_functions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/network/base/node_functions.cpp b/src/ossia/network/base/node_functions.cpp
index 4a20c9c..8c514ac 100644
--- a/src/ossia/network/base/node_functions.cpp
+++ b/src/ossia/network/base/node_functions.cpp
@@ -434,7 +434,7 @@ void expand_ranges(std::string& str)
       }
       else
       {
-        for (int64_t v = it->last; v <= it->first; v += it->increment)
+        for (int64_t v = it->last; v >= it->first; v += it->increment)
         {
           rep += std::to_string(v);
           rep += ',';
-- 
2.43.0


From 81ebfacdceea1b3bd48072bfe95d9edcf066e56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:23 +0000
Subject: [PATCH 042/142] fix: a class of a single character expands to this
 character

---
 src/ossia/network/base/node_functions.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ossia/network/base/node_functions.cpp b/src/ossia/network/base/node_functions.cpp
index 8c514ac..0aa1607 100644
--- a/src/ossia/network/base/node_functions.cpp
+++ b/src/ossia/network/base/node_functions.cpp
@@ -563,7 +563,11 @@ std::string canonicalize_str(std::string str)
 
       if (rep.back() == ',')
       {
-        rep.back() = '}';
+        // A single alternative would keep its braces
+        if (it->chars.count() == 1)
+          rep = rep.substr(1, 1);
+        else
+          rep.back() = '}';
         str.replace(it->start, it->length, rep);
       }
     }
-- 
2.43.0


From 65745b6aa32a2a3701e79f6eedc91bb69f524002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:23 +0000
Subject: [PATCH 043/142] fix: find_or_create_node throws on a device whose
 tree cannot change

---
 src/ossia/network/base/node_functions.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/ossia/network/base/node_functions.cpp b/src/ossia/network/base/node_functions.cpp
index 0aa1607..8393519 100644
--- a/src/ossia/network/base/node_functions.cpp
+++ b/src/ossia/network/base/node_functions.cpp
@@ -71,11 +71,13 @@ static node_base& find_or_create_node_rec(
     else
     {
       // Create a node
-      auto& child = *node.create_child(std::string(cur));
+      auto child = node.create_child(std::string(cur));
+      if (!child)
+        throw std::runtime_error{"find_or_create_node_rec: cannot create the node"};
 
       // Recurse on it
       return find_or_create_node_rec(
-          child, address.substr(first_slash_index + 1));
+          *child, address.substr(first_slash_index + 1));
     }
   }
   else
@@ -89,7 +91,10 @@ static node_base& find_or_create_node_rec(
     else
     {
       // Create and return the node
-      return *node.create_child(std::string(address));
+      auto child = node.create_child(std::string(address));
+      if (!child)
+        throw std::runtime_error{"find_or_create_node_rec: cannot create the node"};
+      return *child;
     }
   }
 }
-- 
2.43.0


From 46dcdf1288310772375db9273f3a0a7220d63f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:23 +0000
Subject: [PATCH 044/142] fix: osc_parameter_string_with_device gives the
 device

---
 src/ossia/network/base/osc_address.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/network/base/osc_address.cpp b/src/ossia/network/base/osc_address.cpp
index 1810e7f..8bfd96b 100644
--- a/src/ossia/network/base/osc_address.cpp
+++ b/src/ossia/network/base/osc_address.cpp
@@ -42,7 +42,7 @@ getOSCAddressFromNodeWithDevice_rec(const node_base& n, std::string& str)
 {
   if (auto p = n.get_parent())
   {
-    getOSCAddressFromNode_rec(*p, str);
+    getOSCAddressFromNodeWithDevice_rec(*p, str);
   }
 
   str += '/';
-- 
2.43.0


From 5cb67a51c6fb963c983b4da877ccf4097b02cfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:23 +0000
Subject: [PATCH 045/142] fix: two children added concurrently do not get the
 same name

---
 src/ossia/network/base/node.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/ossia/network/base/node.cpp b/src/ossia/network/base/node.cpp
index 5bf63db..fcbbde7 100644
--- a/src/ossia/network/base/node.cpp
+++ b/src/ossia/network/base/node.cpp
@@ -145,17 +145,18 @@ node_base* node_base::add_child(std::unique_ptr<node_base> n)
 
   if (n)
   {
-    const auto& name = n->get_name();
-    if (name == sanitize_name(name, children_names()))
+    auto ptr = n.get();
     {
-      auto ptr = n.get();
-      {
-        write_lock_t lock{m_mutex};
-        m_children.push_back(std::move(n));
-      }
-      dev.on_node_created(*ptr);
-      return ptr;
+      // The check and the insertion are a single operation
+      write_lock_t lock{m_mutex};
+      std::string name = n->get_name();
+      sanitize_name(name, m_children);
+      if (name != n->get_name())
+        return nullptr;
+      m_children.push_back(std::move(n));
     }
+    dev.on_node_created(*ptr);
+    return ptr;
   }
   return nullptr;
 }
-- 
2.43.0


From 924ff1e9f9ad92c3068b017f2aba975ec28c0447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:51 +0000
Subject: [PATCH 046/142] fix: a stepped range of a single number expands to
 this number

---
 src/ossia/network/base/node_functions.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ossia/network/base/node_functions.cpp b/src/ossia/network/base/node_functions.cpp
index 8393519..14fbb9b 100644
--- a/src/ossia/network/base/node_functions.cpp
+++ b/src/ossia/network/base/node_functions.cpp
@@ -448,7 +448,11 @@ void expand_ranges(std::string& str)
 
       if (rep.back() == ',')
       {
-        rep.back() = '}';
+        // A single alternative would keep its braces
+        if (rep.find(',') == rep.size() - 1)
+          rep = rep.substr(1, rep.size() - 2);
+        else
+          rep.back() = '}';
         str.replace(it->start, it->length, rep);
       }
     }
-- 
2.43.0


From 132cc049ef54d20916f2e9f2323c7541c69214f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:51 +0000
Subject: [PATCH 047/142] fix: list_all_children keeps the order of names, with
 a consistent ordering

---
 src/ossia/network/base/node_functions.cpp | 38 +++++++++--------------
 1 file changed, 14 insertions(+), 24 deletions(-)

diff --git a/src/ossia/network/base/node_functions.cpp b/src/ossia/network/base/node_functions.cpp
index 14fbb9b..be4f2df 100644
--- a/src/ossia/network/base/node_functions.cpp
+++ b/src/ossia/network/base/node_functions.cpp
@@ -640,35 +640,25 @@ std::vector<ossia::net::node_base*> list_all_children(ossia::net::node_base* nod
   std::vector<ossia::net::node_base*> children = node->children_copy();
   std::vector<ossia::net::node_base*> list;
 
-  std::regex pattern("\\.[0-9]+");
+  static const std::regex pattern("\\.0*([0-9]+)");
 
   // first sort by name taking care of instance number; i.e. foo.3 before foo.11
-  ossia::sort(children, [&](auto n1, auto n2) {
-    std::string s1 = n1->get_name();
-    std::string s2 = n2->get_name();
-
-    boost::algorithm::to_lower(s1);
-    boost::algorithm::to_lower(s2);
-
-    std::smatch asmatch, bsmatch;
-    if(std::regex_search(s1, asmatch, pattern) && std::regex_search(s2, bsmatch, pattern))
-    {
-      if(asmatch.prefix() == bsmatch.prefix())
-      {
-        int aidx = std::stoi(asmatch.str(0).substr(1));
-        int bidx = std::stoi(bsmatch.str(0).substr(1));
-        return aidx < bidx;
-      }
-      else
-      {
-        return asmatch.prefix() < bsmatch.prefix();
-      }
-    }
-    return s1 < s2;
+  // The number is compared by length and digits : it can be arbitrarily large
+  auto sort_key = [] (const ossia::net::node_base* n) {
+    std::string s = n->get_name();
+    boost::algorithm::to_lower(s);
+
+    std::smatch m;
+    if(std::regex_search(s, m, pattern))
+      return std::make_tuple(m.prefix().str(), m.length(1), m.str(1), s);
+    return std::make_tuple(s, decltype(m.length(1)){}, std::string{}, s);
+  };
+  std::stable_sort(children.begin(), children.end(), [&](auto n1, auto n2) {
+    return sort_key(n1) < sort_key(n2);
   });
 
   // then sort by priority
-  ossia::sort(children, [](auto n1, auto n2) {
+  std::stable_sort(children.begin(), children.end(), [](auto n1, auto n2) {
     return ossia::net::get_priority(*n1) > ossia::net::get_priority(*n2);
   });
 
-- 
2.43.0


From 833bf12f810e8fc9bb6ebefbd776530351fd70ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:51 +0000
Subject: [PATCH 048/142] fix: find_or_create_parameter increments the node it
 found, not the pattern

---
 src/ossia/network/base/node_functions.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/ossia/network/base/node_functions.cpp b/src/ossia/network/base/node_functions.cpp
index be4f2df..7c19232 100644
--- a/src/ossia/network/base/node_functions.cpp
+++ b/src/ossia/network/base/node_functions.cpp
@@ -745,17 +745,19 @@ std::vector<parameter_base*> find_or_create_parameter(
   auto found_nodes = ossia::net::find_nodes(node, address);
   for (auto n : found_nodes)
   {
-    if (n->get_parameter())
-      // this will create a new node with the name incremented by one (e.g.
-      // foo.1)
-      nodes.push_back(&ossia::net::create_node(node, address));
-    else
-      nodes.push_back(n);
-
     if(pattern_matching)
-      ossia::remove_one_if(names, [&](auto& s) { return s == n->get_name(); });
+      ossia::remove_one_if(names, [&](auto& s) { return ossia::net::find_node(node, s) == n; });
     else
       ossia::remove_one_if(names, [&](auto& s) { return s == address; });
+
+    if (!n->get_parameter())
+      nodes.push_back(n);
+    // this will create a new node with the name incremented by one (e.g.
+    // foo.1)
+    else if (auto parent = n->get_parent(); !parent)
+      nodes.push_back(&ossia::net::create_node(node, address));
+    else if (auto instance = parent->create_child(n->get_name()))
+      nodes.push_back(instance);
   }
 
   for (auto s : names)
-- 
2.43.0


From 5eb93acba9bd834b3ce38fefce74907347e8999a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:41 +0000
Subject: [PATCH 049/142] fix: instance numbers of nodes do not overflow

---
 src/ossia/network/base/name_validation.cpp | 24 ++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/ossia/network/base/name_validation.cpp b/src/ossia/network/base/name_validation.cpp
index dd9150a..fca1f25 100644
--- a/src/ossia/network/base/name_validation.cpp
+++ b/src/ossia/network/base/name_validation.cpp
@@ -9,6 +9,7 @@
 #include <boost/lexical_cast.hpp>
 
 #include <algorithm>
+#include <limits>
 namespace ossia
 {
 namespace net
@@ -60,6 +61,25 @@ std::string sanitize_name(const char* ret)
   return n;
 }
 
+// The instance number which follows the existing, sorted ones
+template <typename Numbers>
+static int next_instance(const Numbers& sorted)
+{
+  if (sorted.back() < std::numeric_limits<int>::max())
+    return sorted.back() + 1;
+
+  // The greatest number is taken: use the first hole
+  int n = 1;
+  for (int used : sorted)
+  {
+    if (used == n)
+      n++;
+    else if (used > n)
+      break;
+  }
+  return n;
+}
+
 std::string
 sanitize_name(std::string name, const std::vector<std::string>& brethren)
 {
@@ -135,7 +155,7 @@ sanitize_name(std::string name, const std::vector<std::string>& brethren)
     {
       std::sort(instance_num.begin(), instance_num.end());
       return root_name + "."
-             + boost::lexical_cast<std::string>(instance_num.back() + 1);
+             + boost::lexical_cast<std::string>(next_instance(instance_num));
     }
   }
 }
@@ -212,7 +232,7 @@ void sanitize_name(
       std::sort(instance_num.begin(), instance_num.end());
       name = root_name;
       name += '.';
-      name += boost::lexical_cast<std::string>(instance_num.back() + 1);
+      name += boost::lexical_cast<std::string>(next_instance(instance_num));
     }
   }
 }
-- 
2.43.0


From aa1f4a4417b6e8233f7bd30713ef18dd118ca36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:39 +0000
Subject: [PATCH 050/142] fix: the address of a node whose name ends with : has
 no trailing slash

---
 src/ossia/network/base/osc_address.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/network/base/osc_address.cpp b/src/ossia/network/base/osc_address.cpp
index 8bfd96b..87db936 100644
--- a/src/ossia/network/base/osc_address.cpp
+++ b/src/ossia/network/base/osc_address.cpp
@@ -54,7 +54,7 @@ std::string address_string_from_node(const ossia::net::node_base& node)
   std::string s;
   s.reserve(80);
   getAddressFromNode_rec(node, s);
-  if (s.back() == ':') // case of only device.
+  if (!node.get_parent()) // case of only device.
     s += '/';
   return s;
 }
-- 
2.43.0


From 9d2c22bea8cd559e18c701e8d7d0078a86a6ab47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:15 +0000
Subject: [PATCH 051/142] fix: full_parameter_data::get_disabled tells whether
 the parameter is disabled

---
 src/ossia/network/base/parameter_data.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/network/base/parameter_data.hpp b/src/ossia/network/base/parameter_data.hpp
index 6d047ba..4af41b0 100644
--- a/src/ossia/network/base/parameter_data.hpp
+++ b/src/ossia/network/base/parameter_data.hpp
@@ -158,7 +158,7 @@ public:
   }
   bool get_disabled() const
   {
-    return muted;
+    return disabled;
   }
   bool get_muted() const
   {
-- 
2.43.0


From 7d19c33bcc7f82f2570c4d54ac3cdce16772cbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:33 +0000
Subject: [PATCH 052/142] fix: the repetition filter reads the previous value
 under its lock

---
 src/ossia/network/generic/generic_parameter.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ossia/network/generic/generic_parameter.cpp b/src/ossia/network/generic/generic_parameter.cpp
index 0b598da..6b1542a 100644
--- a/src/ossia/network/generic/generic_parameter.cpp
+++ b/src/ossia/network/generic/generic_parameter.cpp
@@ -293,9 +293,13 @@ generic_parameter::set_bounding(ossia::bounding_mode boundingMode)
 
 bool generic_parameter::filter_value(const ossia::value& val) const
 {
-  return m_disabled || m_muted
-         || (get_repetition_filter() == ossia::repetition_filter::ON
-             && val == m_previousValue);
+  if (m_disabled || m_muted)
+    return true;
+  if (get_repetition_filter() != ossia::repetition_filter::ON)
+    return false;
+
+  lock_t lock(m_valueMutex);
+  return val == m_previousValue;
 }
 
 void generic_parameter::on_first_callback_added()
-- 
2.43.0


From 969e3adfa2838159cca2fb1c389bd6c34b76b282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:33 +0000
Subject: [PATCH 053/142] fix: set_value_quiet with a destination to the
 parameter itself does not deadlock

---
 src/ossia/network/generic/generic_parameter.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ossia/network/generic/generic_parameter.cpp b/src/ossia/network/generic/generic_parameter.cpp
index 6b1542a..ecbe62e 100644
--- a/src/ossia/network/generic/generic_parameter.cpp
+++ b/src/ossia/network/generic/generic_parameter.cpp
@@ -201,11 +201,14 @@ ossia::value generic_parameter::set_value_quiet(ossia::value&& val)
 
 void generic_parameter::set_value_quiet(const destination& destination)
 {
-  lock_t lock(m_valueMutex);
   if (destination.address().get_value_type() == m_valueType)
   {
+    // The destination may be this very parameter
+    auto val = destination.address().fetch_value();
+
+    lock_t lock(m_valueMutex);
     m_previousValue = std::move(m_value); // TODO also implement me for MIDI
-    m_value = destination.address().fetch_value();
+    m_value = std::move(val);
   }
   else
   {
-- 
2.43.0


From 0cc3c35b524630c149b1ba969d23380117f78b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:34 +0000
Subject: [PATCH 054/142] fix: a value of another type than its domain was lost
 in the FREE bounding mode

---
 src/ossia/network/domain/domain_base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/network/domain/domain_base.cpp b/src/ossia/network/domain/domain_base.cpp
index 63a9bed..85213d5 100644
--- a/src/ossia/network/domain/domain_base.cpp
+++ b/src/ossia/network/domain/domain_base.cpp
@@ -235,7 +235,7 @@ ossia::domain make_domain_from_minmax(
 
 value apply_domain(const domain& dom, bounding_mode b, const ossia::value& val)
 {
-  if (bool(dom) && bool(val.v))
+  if (bool(dom) && bool(val.v) && b != ossia::bounding_mode::FREE)
   {
     return ossia::apply(apply_domain_visitor{b}, val.v, dom.v);
   }
-- 
2.43.0


From 5a73cbf9dff1fc0ffa64f6cf6885695622483bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:57 +0000
Subject: [PATCH 055/142] fix: registering a callback while another thread
 sends does not deadlock

---
 src/ossia/detail/callback_container.hpp | 27 ++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/ossia/detail/callback_container.hpp b/src/ossia/detail/callback_container.hpp
index 49ae2d8..387373b 100644
--- a/src/ossia/detail/callback_container.hpp
+++ b/src/ossia/detail/callback_container.hpp
@@ -95,9 +95,15 @@ public:
     T cb = callback;
     if (cb)
     {
-      std::lock_guard<std::mutex> lck{m_mutx};
-      auto it = m_callbacks.insert(m_callbacks.begin(), std::move(cb));
-      if (m_callbacks.size() == 1)
+      std::lock_guard<std::mutex> hooks{m_hooksMutx};
+      iterator it;
+      bool first{};
+      {
+        std::lock_guard<std::mutex> lck{m_mutx};
+        it = m_callbacks.insert(m_callbacks.begin(), std::move(cb));
+        first = m_callbacks.size() == 1;
+      }
+      if (first)
         on_first_callback_added();
       return it;
     }
@@ -113,9 +119,10 @@ public:
    */
   void remove_callback(iterator it)
   {
-    std::lock_guard<std::mutex> lck{m_mutx};
-    if (m_callbacks.size() == 1)
+    std::lock_guard<std::mutex> hooks{m_hooksMutx};
+    if (callback_count() == 1)
       on_removing_last_callback();
+    std::lock_guard<std::mutex> lck{m_mutx};
     m_callbacks.erase(it);
   }
 
@@ -210,9 +217,10 @@ public:
    */
   void callbacks_clear()
   {
-    std::lock_guard<std::mutex> lck{m_mutx};
-    if (!m_callbacks.empty())
+    std::lock_guard<std::mutex> hooks{m_hooksMutx};
+    if (!callbacks_empty())
       on_removing_last_callback();
+    std::lock_guard<std::mutex> lck{m_mutx};
     m_callbacks.clear();
   }
 
@@ -243,5 +251,10 @@ protected:
 private:
   impl m_callbacks;
   mutable std::mutex m_mutx;
+
+  // Orders the calls to on_first_callback_added, on_removing_last_callback.
+  // They are not called with m_mutx locked : they register and unregister
+  // callbacks in other containers, whose callbacks may call send() on this.
+  std::mutex m_hooksMutx;
 };
 }
-- 
2.43.0


From a0619b06b6d7c539886186f13ec6c64470624278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:57 +0000
Subject: [PATCH 056/142] fix: data race on the result of expression_pulse

---
 src/ossia/editor/expression/expression_pulse.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ossia/editor/expression/expression_pulse.hpp b/src/ossia/editor/expression/expression_pulse.hpp
index e6376c1..1a15120 100644
--- a/src/ossia/editor/expression/expression_pulse.hpp
+++ b/src/ossia/editor/expression/expression_pulse.hpp
@@ -6,6 +6,7 @@
 
 #include <ossia/detail/config.hpp>
 
+#include <atomic>
 #include <memory>
 
 /**
@@ -53,7 +54,7 @@ private:
   destination m_destination;
 
   net::parameter_base::callback_index m_callback;
-  mutable bool m_result{};
+  mutable std::atomic_bool m_result{};
 };
 }
 }
-- 
2.43.0


From 58ef4848fad862204bedec4e9e8569e5673d8342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:12 +0000
Subject: [PATCH 057/142] fix: out of bounds read when merging a list shorter
 than its index in a vec message

---
 src/ossia/editor/state/detail/state_flatten_visitor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/editor/state/detail/state_flatten_visitor.hpp b/src/ossia/editor/state/detail/state_flatten_visitor.hpp
index c4dafa7..36cf463 100644
--- a/src/ossia/editor/state/detail/state_flatten_visitor.hpp
+++ b/src/ossia/editor/state/detail/state_flatten_visitor.hpp
@@ -193,7 +193,7 @@ struct vec_merger
     else
     {
       auto i = incoming_index[0];
-      if (i < (int64_t)N)
+      if (i < (int64_t)N && i < (int64_t)incoming.size())
       {
         value_merger<true>::write_float(incoming[i], orig[i]);
       }
-- 
2.43.0


From fc361800a2f902f8d71e34b710868c5cc48f84e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:03 +0000
Subject: [PATCH 058/142] fix: merging messages to components of a vec keeps
 every component set

---
 .../state/detail/state_flatten_visitor.hpp    | 52 ++++++++++++++++---
 1 file changed, 46 insertions(+), 6 deletions(-)

diff --git a/src/ossia/editor/state/detail/state_flatten_visitor.hpp b/src/ossia/editor/state/detail/state_flatten_visitor.hpp
index 36cf463..3506f93 100644
--- a/src/ossia/editor/state/detail/state_flatten_visitor.hpp
+++ b/src/ossia/editor/state/detail/state_flatten_visitor.hpp
@@ -57,6 +57,13 @@ struct vec_merger
     return {};
   }
 
+  template <std::size_t N>
+  static void use(piecewise_vec_message<N>& mess, int64_t index)
+  {
+    if (index < (int64_t)N)
+      mess.used_values.set(index);
+  }
+
   template <std::size_t N>
   auto make_piecewise_from_floats(float orig, float incoming) const
   {
@@ -109,6 +116,23 @@ struct vec_merger
     return ossia::message{incoming_dest, incoming};
   }
 
+  template <std::size_t N>
+  ossia::state_element
+  operator()(float orig, const std::array<float, N>& incoming) const
+  {
+    auto& existing_index = existing_dest.index;
+    auto& incoming_index = incoming_dest.index;
+
+    if (!existing_index.empty() && !incoming_index.empty()
+        && existing_index != incoming_index
+        && incoming_index[0] < (int64_t)N)
+    {
+      return make_piecewise_from_floats<N>(orig, incoming[incoming_index[0]]);
+    }
+
+    return ossia::message{incoming_dest, incoming};
+  }
+
   template <std::size_t N>
   ossia::state_element
   operator()(std::array<float, N>& orig, float incoming) const
@@ -132,8 +156,8 @@ struct vec_merger
         // for instance
         piecewise_vec_message<N> mess{
             existing_dest.value, orig, incoming_dest.unit, {}};
-        mess.used_values.set(existing_index[0]);
-        mess.used_values.set(i);
+        use(mess, existing_index[0]);
+        use(mess, i);
         return mess;
       }
       else
@@ -151,6 +175,12 @@ struct vec_merger
     auto& incoming_index = incoming_dest.index;
     if (incoming_index.empty())
     {
+      if (!existing_index.empty())
+      {
+        // All the components are set, not only the one at existing_index
+        return ossia::message{incoming_dest, incoming};
+      }
+
       orig = incoming;
       return {};
     }
@@ -167,8 +197,8 @@ struct vec_merger
         // for instance
         piecewise_vec_message<N> mess{
             existing_dest.value, orig, incoming_dest.unit, {}};
-        mess.used_values.set(existing_index[0]);
-        mess.used_values.set(i);
+        use(mess, existing_index[0]);
+        use(mess, i);
         return mess;
       }
       else
@@ -188,6 +218,15 @@ struct vec_merger
     if (incoming_index.empty())
     {
       value_merger<true>::merge_list(orig, incoming);
+      if (!existing_index.empty())
+      {
+        piecewise_vec_message<N> mess{
+            existing_dest.value, orig, incoming_dest.unit, {}};
+        use(mess, existing_index[0]);
+        for (std::size_t i = 0; i < incoming.size(); i++)
+          use(mess, i);
+        return mess;
+      }
       return {};
     }
     else
@@ -205,8 +244,8 @@ struct vec_merger
         // for instance
         piecewise_vec_message<N> mess{
             existing_dest.value, orig, incoming_dest.unit, {}};
-        mess.used_values.set(existing_index[0]);
-        mess.used_values.set(i);
+        use(mess, existing_index[0]);
+        use(mess, i);
         return mess;
       }
       else
@@ -347,6 +386,7 @@ struct state_flatten_visitor_merger
         else
         {
           existing.message_value = incoming.message_value.get<vec_type>();
+          existing.used_values.set();
         }
         break;
       }
-- 
2.43.0


From a13dc81525fac10da913893d018d2f1108a1fd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:03 +0000
Subject: [PATCH 059/142] fix: a message sent again after another one is not
 lost in flat_vec_state

---
 src/ossia/editor/state/flat_vec_state.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ossia/editor/state/flat_vec_state.hpp b/src/ossia/editor/state/flat_vec_state.hpp
index 49ca454..2f8f828 100644
--- a/src/ossia/editor/state/flat_vec_state.hpp
+++ b/src/ossia/editor/state/flat_vec_state.hpp
@@ -35,7 +35,11 @@ struct flat_vec_state
   template <typename T>
   auto find(const T& val) noexcept
   {
-    return ossia::find(m_children, val);
+    // The order matters : a message can only be merged with the last one
+    auto it = m_children.end();
+    if (!m_children.empty() && m_children.back() == val)
+      --it;
+    return it;
   }
 
   void launch() noexcept
-- 
2.43.0


From fd845bf329d2e55bd7bb963236dce180b6e5b59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:31 +0000
Subject: [PATCH 060/142] fix: the dynamic graph respects the dependency
 connections

---
 src/ossia/dataflow/graph/graph.hpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/ossia/dataflow/graph/graph.hpp b/src/ossia/dataflow/graph/graph.hpp
index 5549939..a9aa6cb 100644
--- a/src/ossia/dataflow/graph/graph.hpp
+++ b/src/ossia/dataflow/graph/graph.hpp
@@ -26,12 +26,12 @@ public:
         auto node = *it;
         if (cur_it != end)
         {
-          if (!comp(*cur_it, node) && can_execute(*node, e))
+          if (!comp(*cur_it, node) && g.can_execute(*node, e))
             cur_it = it;
         }
         else
         {
-          if (can_execute(*node, e))
+          if (g.can_execute(*node, e))
           {
             cur_it = it;
           }
@@ -70,12 +70,12 @@ public:
         auto node = *it;
         if (cur_it != end)
         {
-          if (!comp(*cur_it, node) && can_execute(*node, e))
+          if (!comp(*cur_it, node) && g.can_execute(*node, e))
             cur_it = it;
         }
         else
         {
-          if (can_execute(*node, e))
+          if (g.can_execute(*node, e))
           {
             cur_it = it;
           }
@@ -214,6 +214,19 @@ public:
     }
     */
 
+  // The nodes it has an explicit dependency on must have executed too
+  bool can_execute(graph_node& node, const execution_state& e) const
+  {
+    if (!graph_util::can_execute(node, e))
+      return false;
+
+    auto edges = boost::out_edges(m_nodes.find(&node)->second, m_graph);
+    return std::all_of(edges.first, edges.second, [&](auto e) {
+      auto& source = *m_graph[e]->out_node;
+      return source.executed() || !source.enabled();
+    });
+  }
+
   struct simple_topo_sort
   {
     simple_topo_sort(const graph_t& g) : impl{g}
-- 
2.43.0


From 3abb5579007a0dd55a518b7267074c719424e41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:31 +0000
Subject: [PATCH 061/142] fix: the requests made to a dynamic graph which has a
 cycle do not accumulate

---
 src/ossia/dataflow/graph/graph.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ossia/dataflow/graph/graph.hpp b/src/ossia/dataflow/graph/graph.hpp
index a9aa6cb..2cff809 100644
--- a/src/ossia/dataflow/graph/graph.hpp
+++ b/src/ossia/dataflow/graph/graph.hpp
@@ -317,6 +317,7 @@ public:
     catch (const boost::not_a_dag&)
     {
       ossia::logger().error("Execution graph is not a DAG.");
+      finish_nodes(m_nodes);
       return;
     }
   }
-- 
2.43.0


From fcb81849bbc8545b41928935dcd1e81fb9c24b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:17 +0000
Subject: [PATCH 062/142] fix: out of bounds read of the nodes when a graph
 sorted by BFS has a cycle

---
 src/ossia/dataflow/graph/graph_static.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ossia/dataflow/graph/graph_static.hpp b/src/ossia/dataflow/graph/graph_static.hpp
index 53371a1..de88000 100644
--- a/src/ossia/dataflow/graph/graph_static.hpp
+++ b/src/ossia/dataflow/graph/graph_static.hpp
@@ -181,6 +181,9 @@ public:
     m_sub_graph = m_graph;
 
     g.sort_all_nodes(m_graph);
+    // there is no order if there is a cycle
+    if (m_all_nodes.size() != N)
+      return;
     // m_active_nodes is in topo order
 
     for (std::size_t i = 0; i < N; i++)
-- 
2.43.0


From 03d700879ea12cba1d8ab2897eacc68c3f10a62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:54 +0000
Subject: [PATCH 063/142] fix: clearing a node clears all its cables

---
 src/ossia/dataflow/graph_node.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/ossia/dataflow/graph_node.cpp b/src/ossia/dataflow/graph_node.cpp
index 3e53c7a..fa1a3b8 100644
--- a/src/ossia/dataflow/graph_node.cpp
+++ b/src/ossia/dataflow/graph_node.cpp
@@ -183,16 +183,17 @@ bool graph_node::has_local_inputs(const execution_state& st) const noexcept
 
 void graph_node::clear() noexcept
 {
+  // clearing a cable removes it from its ports
   for_each_inlet(*this, [] (auto& port) {
-    for (ossia::graph_edge* e : port.cables())
+    while (!port.cables().empty())
     {
-      e->clear();
+      port.cables().back()->clear();
     }
   });
   for_each_outlet(*this, [] (auto& port) {
-    for (ossia::graph_edge* e : port.cables())
+    while (!port.cables().empty())
     {
-      e->clear();
+      port.cables().back()->clear();
     }
   });
 
@@ -242,16 +243,16 @@ void nonowning_graph_node::clear() noexcept
 {
   for (auto inl : m_inlets)
   {
-    for (ossia::graph_edge* e : inl->sources)
+    while (!inl->sources.empty())
     {
-      e->clear();
+      inl->sources.back()->clear();
     }
   }
   for (auto outl : m_outlets)
   {
-    for (ossia::graph_edge* e : outl->targets)
+    while (!outl->targets.empty())
     {
-      e->clear();
+      outl->targets.back()->clear();
     }
   }
 
-- 
2.43.0


From 96b639493cd95663c912e8cd9f120b71793e3992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:31 +0000
Subject: [PATCH 064/142] fix: out of bounds read of the audio buffers with a
 negative channel in a mapping

---
 src/ossia/audio/audio_protocol.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ossia/audio/audio_protocol.cpp b/src/ossia/audio/audio_protocol.cpp
index d5b2c78..324aef1 100644
--- a/src/ossia/audio/audio_protocol.cpp
+++ b/src/ossia/audio/audio_protocol.cpp
@@ -223,7 +223,7 @@ void audio_protocol::setup_buffers(ossia::audio_tick_state state)
     for (std::size_t i = 0; i < mapped->mapping.size(); i++)
     {
       auto map_channel = mapped->mapping[i];
-      if (map_channel < state.n_in)
+      if (map_channel >= 0 && map_channel < state.n_in)
         mapped->audio[i] = {state.inputs[map_channel], fc};
       else
         mapped->audio[i] = {};
@@ -248,7 +248,7 @@ void audio_protocol::setup_buffers(ossia::audio_tick_state state)
     for (std::size_t i = 0; i < mapped->mapping.size(); i++)
     {
       auto map_channel = mapped->mapping[i];
-      if (map_channel < state.n_out)
+      if (map_channel >= 0 && map_channel < state.n_out)
         mapped->audio[i] = {state.outputs[map_channel], fc};
       else
         mapped->audio[i] = {};
-- 
2.43.0


From 07b3066bd199128bff275594392136ebab83a776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:31 +0000
Subject: [PATCH 065/142] fix: null dereference when an audio device without
 channels advances

---
 src/ossia/audio/audio_protocol.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ossia/audio/audio_protocol.cpp b/src/ossia/audio/audio_protocol.cpp
index 324aef1..94bd4b2 100644
--- a/src/ossia/audio/audio_protocol.cpp
+++ b/src/ossia/audio/audio_protocol.cpp
@@ -17,7 +17,8 @@ audio_protocol::~audio_protocol()
 
 void audio_protocol::setup_tree(int inputs, int outputs)
 {
-  if(inputs == int(audio_ins.size()) && outputs == int(audio_outs.size()))
+  if(main_audio_in && main_audio_out
+     && inputs == int(audio_ins.size()) && outputs == int(audio_outs.size()))
     return;
 
   auto& dev = get_device();
-- 
2.43.0


From cf365e1b9267ce7d7a9a0ae5e2955bc96fbf3f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:31 +0000
Subject: [PATCH 066/142] fix: last() gives the latest value

---
 src/ossia/dataflow/fx_node.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/dataflow/fx_node.hpp b/src/ossia/dataflow/fx_node.hpp
index bfc9135..76ba793 100644
--- a/src/ossia/dataflow/fx_node.hpp
+++ b/src/ossia/dataflow/fx_node.hpp
@@ -12,7 +12,7 @@ last(const ossia::value_vector<ossia::timed_value>& vec)
   const ossia::timed_value* ptr{&vec[0]};
   for (auto& e : vec)
   {
-    if (e.timestamp < max)
+    if (e.timestamp >= max)
     {
       max = e.timestamp;
       ptr = &e;
-- 
2.43.0


From 098eae28c802c5a829d51d4effbf8bfce59aa757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:31 +0000
Subject: [PATCH 067/142] fix: a midi device is received until its last port is
 unregistered

---
 src/ossia/dataflow/execution_state.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/dataflow/execution_state.cpp b/src/ossia/dataflow/execution_state.cpp
index 7372d58..776b9ad 100644
--- a/src/ossia/dataflow/execution_state.cpp
+++ b/src/ossia/dataflow/execution_state.cpp
@@ -262,7 +262,7 @@ void execution_state::register_midi_parameter(net::midi::midi_protocol& p)
   auto it = m_receivedMidi.find(&p);
   if(it == m_receivedMidi.end())
   {
-    m_receivedMidi.insert({&p, {0, {}}});
+    m_receivedMidi.insert({&p, {1, {}}});
   }
   else
   {
-- 
2.43.0


From b9b29db783cb9daa45122ccbc2e2289e07f20e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:31 +0000
Subject: [PATCH 068/142] fix: an inlet does not get stuck on the audio of a
 previous tick

---
 src/ossia/dataflow/execution_state.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/ossia/dataflow/execution_state.cpp b/src/ossia/dataflow/execution_state.cpp
index 776b9ad..0fa805b 100644
--- a/src/ossia/dataflow/execution_state.cpp
+++ b/src/ossia/dataflow/execution_state.cpp
@@ -20,6 +20,15 @@
 
 namespace ossia
 {
+static bool has_audio(const audio_port& p) noexcept
+{
+  // The channels are kept from a tick to the next one
+  for (auto& chan : p.samples)
+    if (!chan.empty())
+      return true;
+  return false;
+}
+
 struct local_pull_visitor
 {
   execution_state& st;
@@ -40,7 +49,7 @@ struct local_pull_visitor
   {
     OSSIA_EXEC_STATE_LOCK_READ(st);
     auto it = st.m_audioState.find(static_cast<ossia::audio_parameter*>(addr));
-    if (it != st.m_audioState.end() && !it->second.samples.empty())
+    if (it != st.m_audioState.end() && has_audio(it->second))
     {
       copy_data{}(it->second, val);
       return true;
@@ -933,7 +942,7 @@ static bool is_in(
   auto it = container.find(static_cast<ossia::audio_parameter*>(&other));
   if (it == container.end())
     return false;
-  return !it->second.samples.empty();
+  return has_audio(it->second);
 }
 bool execution_state::in_local_scope(net::parameter_base& other) const
 {
-- 
2.43.0


From 20b4aee69752c0e53e95639128c24ae505ce23c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:35 +0000
Subject: [PATCH 069/142] fix: a blob is sent with its size

---
 src/ossia/network/osc/detail/osc_common_policy.hpp   | 12 ++++++++++--
 .../network/osc/detail/osc_value_write_visitor.hpp   |  4 ++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/ossia/network/osc/detail/osc_common_policy.hpp b/src/ossia/network/osc/detail/osc_common_policy.hpp
index b8c24ce..aff33a0 100644
--- a/src/ossia/network/osc/detail/osc_common_policy.hpp
+++ b/src/ossia/network/osc/detail/osc_common_policy.hpp
@@ -6,6 +6,8 @@
 
 #include <boost/endian/conversion.hpp>
 
+#include <cstring>
+
 namespace ossia::net
 {
 // Handling for types compatible with all OSC version
@@ -103,8 +105,14 @@ struct osc_common_outbound_static_policy
     buffer[2] = '\0';
     buffer[3] = '\0';
 
-    std::size_t written = write_string(std::string_view((const char *)v.data, v.size), buffer + 4);
-    return 4 + written;
+    boost::endian::endian_store<int32_t, 4, boost::endian::order::big>((unsigned char*) buffer + 4, (int32_t) v.size);
+
+    // Unlike a string, a blob has no terminator: only padding
+    const std::size_t padded = (std::size_t(v.size) + 3) & ~std::size_t(3);
+    if(v.size > 0)
+      std::memcpy(buffer + 8, v.data, v.size);
+    std::memset(buffer + 8 + v.size, 0, padded - v.size);
+    return 8 + padded;
   }
 
   std::size_t operator()(char* buffer, vec2f v) const noexcept
diff --git a/src/ossia/network/osc/detail/osc_value_write_visitor.hpp b/src/ossia/network/osc/detail/osc_value_write_visitor.hpp
index 8947d96..9f29af9 100644
--- a/src/ossia/network/osc/detail/osc_value_write_visitor.hpp
+++ b/src/ossia/network/osc/detail/osc_value_write_visitor.hpp
@@ -50,7 +50,7 @@ struct osc_value_send_visitor
 
   void operator()(const std::string& v) const noexcept try
   {
-    const std::size_t sz = pattern_size(address_pattern.size()) + 4 + pattern_size(v.size());
+    const std::size_t sz = pattern_size(address_pattern.size()) + 8 + pattern_size(v.size());
     if(sz < 16384) {
       char* buffer = (char*) alloca(sz);
       std::size_t i = write_string(address_pattern, buffer);
@@ -152,7 +152,7 @@ struct osc_value_write_visitor
 
   void operator()(const std::string& v) const noexcept
   {
-    const std::size_t sz = pattern_size(address_pattern.size()) + 4 + pattern_size(v.size());
+    const std::size_t sz = pattern_size(address_pattern.size()) + 8 + pattern_size(v.size());
     result.resize(sz);
     std::size_t i = write_string(address_pattern, result.data());
 
-- 
2.43.0


From bf51795e48872ea75f3293f18df635520453cec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:35 +0000
Subject: [PATCH 070/142] fix: osc messages up to the maximal size are sent

---
 .../osc/detail/osc_value_write_visitor.hpp      | 17 +++++++++++------
 src/ossia/network/osc/detail/sender.hpp         |  9 ++++++---
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/ossia/network/osc/detail/osc_value_write_visitor.hpp b/src/ossia/network/osc/detail/osc_value_write_visitor.hpp
index 9f29af9..f28047c 100644
--- a/src/ossia/network/osc/detail/osc_value_write_visitor.hpp
+++ b/src/ossia/network/osc/detail/osc_value_write_visitor.hpp
@@ -7,6 +7,7 @@
 #include <ossia/network/osc/detail/osc_messages.hpp>
 
 #include <boost/endian/conversion.hpp>
+#include <algorithm>
 #include <ossia/detail/buffer_pool.hpp>
 
 #include <oscpack/osc/OscOutboundPacketStream.h>
@@ -90,7 +91,7 @@ struct osc_value_send_visitor
   {
     auto& pool = buffer_pool::instance();
     auto buf = pool.acquire();
-    while (buf.size() < max_osc_message_size)
+    while (true)
     {
       try
       {
@@ -105,9 +106,11 @@ struct osc_value_send_visitor
       }
       catch(...)
       {
-        auto n = buf.size();
+        const std::size_t n = buf.size();
+        if(n >= max_osc_message_size)
+          throw;
         buf.clear();
-        buf.resize(n * 2 + 1);
+        buf.resize(std::min<std::size_t>(n * 2 + 1, max_osc_message_size));
       }
     }
 
@@ -167,7 +170,7 @@ struct osc_value_write_visitor
   void operator()(const std::vector<ossia::value>& v) const noexcept
   {
     // OPTIMIZEME
-    while (result.size() < max_osc_message_size)
+    while (true)
     {
       try
       {
@@ -182,9 +185,11 @@ struct osc_value_write_visitor
       }
       catch(...)
       {
-        auto n = result.size();
+        const std::size_t n = result.size();
         result.clear();
-        result.resize(n * 2 + 1);
+        if(n >= max_osc_message_size)
+          break;
+        result.resize(std::min<std::size_t>(n * 2 + 1, max_osc_message_size));
       }
     }
   }
diff --git a/src/ossia/network/osc/detail/sender.hpp b/src/ossia/network/osc/detail/sender.hpp
index e146a92..8b4416d 100644
--- a/src/ossia/network/osc/detail/sender.hpp
+++ b/src/ossia/network/osc/detail/sender.hpp
@@ -12,6 +12,7 @@
 #include <oscpack/osc/OscOutboundPacketStream.h>
 #include <oscpack/osc/OscPrintReceivedElements.h>
 
+#include <algorithm>
 #include <iostream>
 #include <memory>
 #include <string>
@@ -91,7 +92,7 @@ private:
   void send_base(Args&&... args)
   {
     auto buf = m_pool.acquire();
-    while(buf.size() < ossia::net::max_osc_message_size) {
+    while(true) {
       try {
         oscpack::OutboundPacketStream p{buf.data(), buf.size()};
         oscpack::osc_message_generator<ossia::net::osc_1_0_outbound_stream_visitor> generate_message{p};
@@ -99,9 +100,11 @@ private:
         send_impl(p);
         break;
       } catch(...) {
-        auto n = buf.size();
+        const std::size_t n = buf.size();
+        if(n >= ossia::net::max_osc_message_size)
+          break;
         buf.clear();
-        buf.resize(n * 2 + 1);
+        buf.resize(std::min<std::size_t>(n * 2 + 1, ossia::net::max_osc_message_size));
       }
     }
 
-- 
2.43.0


From 075202e39725c44bc90726014ec38cd83a072895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:35 +0000
Subject: [PATCH 071/142] fix: a string parameter receives the blobs sent to it

---
 src/ossia/network/osc/detail/osc.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ossia/network/osc/detail/osc.hpp b/src/ossia/network/osc/detail/osc.hpp
index 52487c3..c8c3284 100644
--- a/src/ossia/network/osc/detail/osc.hpp
+++ b/src/ossia/network/osc/detail/osc.hpp
@@ -350,6 +350,8 @@ struct osc_inbound_visitor
         return std::string{cur_it->AsStringUnchecked()};
       case oscpack::SYMBOL_TYPE_TAG:
         return std::string{cur_it->AsSymbolUnchecked()};
+      case oscpack::BLOB_TYPE_TAG:
+        return osc_utilities::get_blob(cur_it);
       default:
         return str;
     }
-- 
2.43.0


From 08524114e30a9088170f157aba5a321b0c0769df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:11 +0000
Subject: [PATCH 072/142] fix: minuit answers with arguments of the wrong type
 are rejected

---
 .../network/minuit/detail/minuit_parser.hpp   | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/ossia/network/minuit/detail/minuit_parser.hpp b/src/ossia/network/minuit/detail/minuit_parser.hpp
index 94afca2..1848d63 100644
--- a/src/ossia/network/minuit/detail/minuit_parser.hpp
+++ b/src/ossia/network/minuit/detail/minuit_parser.hpp
@@ -383,7 +383,7 @@ struct minuit_behavior<minuit_command::Answer, minuit_operation::Listen>
   {
     ossia::string_view full_address;
     auto mess_it = mess.ArgumentsBegin();
-    full_address = mess_it->AsStringUnchecked();
+    full_address = mess_it->AsString();
     auto idx = full_address.find_first_of(":");
 
     if (idx == std::string::npos)
@@ -432,7 +432,7 @@ struct minuit_behavior<minuit_command::Answer, minuit_operation::Listen>
             case minuit_attribute::Type:
             {
               addr->set_value_type(ossia::minuit::type_from_minuit_type_text(
-                  mess_it->AsStringUnchecked()));
+                  mess_it->AsString()));
 
               break;
             }
@@ -445,37 +445,37 @@ struct minuit_behavior<minuit_command::Answer, minuit_operation::Listen>
             case minuit_attribute::RangeClipMode:
             {
               addr->set_bounding(
-                  from_minuit_bounding_text(mess_it->AsStringUnchecked()));
+                  from_minuit_bounding_text(mess_it->AsString()));
               break;
             }
             case minuit_attribute::RepetitionFilter:
             {
               addr->set_repetition_filter(
-                  static_cast<repetition_filter>(mess_it->AsInt32Unchecked()));
+                  static_cast<repetition_filter>(mess_it->AsInt32()));
               break;
             }
             case minuit_attribute::Dataspace:
             {
               addr->set_unit(
-                  ossia::parse_dataspace(mess_it->AsStringUnchecked()));
+                  ossia::parse_dataspace(mess_it->AsString()));
               break;
             }
             case minuit_attribute::DataspaceUnit:
             {
               addr->set_unit(ossia::parse_unit(
-                  mess_it->AsStringUnchecked(), addr->get_unit()));
+                  mess_it->AsString(), addr->get_unit()));
               break;
             }
             case minuit_attribute::Service:
             {
               addr->set_access(
-                  from_minuit_service_text(mess_it->AsStringUnchecked()));
+                  from_minuit_service_text(mess_it->AsString()));
               break;
             }
             case minuit_attribute::Description:
             {
               ossia::net::set_description(
-                  *node, std::string(mess_it->AsStringUnchecked()));
+                  *node, std::string(mess_it->AsString()));
               break;
             }
             case minuit_attribute::Priority:
@@ -550,7 +550,7 @@ struct minuit_behavior<minuit_command::Answer, minuit_operation::Namespace>
       {
         for (auto it = nodes_beg_it; it != nodes_end_it; ++it)
         {
-          elements.push_back(it->AsStringUnchecked());
+          elements.push_back(it->AsString());
         }
       }
     }
@@ -584,7 +584,7 @@ struct minuit_behavior<minuit_command::Answer, minuit_operation::Namespace>
 
     // Get the sub-nodes
     std::string child_address{address};
-    if (child_address.back() != '/')
+    if (child_address.empty() || child_address.back() != '/')
       child_address += '/';
     const auto child_parameter_size = child_address.size();
 
-- 
2.43.0


From de1c434d1bee87866b9cc47508bf8cdc15bc1ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:37 +0000
Subject: [PATCH 073/142] fix: a minuit parameter can be pulled again after a
 lost answer

---
 src/ossia/network/minuit/minuit.cpp | 15 +++++++--------
 src/ossia/network/minuit/minuit.hpp |  2 +-
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/ossia/network/minuit/minuit.cpp b/src/ossia/network/minuit/minuit.cpp
index 17096b1..b8d749d 100644
--- a/src/ossia/network/minuit/minuit.cpp
+++ b/src/ossia/network/minuit/minuit.cpp
@@ -357,14 +357,12 @@ void minuit_protocol::get_refresh(
     ossia::string_view req, const std::string& addr, std::promise<void>&& p)
 {
   lock_type lock(m_getRequestMutex);
-  auto it = m_getRequests.find(addr);
-  if (it == m_getRequests.end())
-  {
-    m_getRequests[addr] = std::move(p);
-    m_sender->send(req, ossia::string_view(addr));
+  // The previous requests for this address may have been lost: it is always
+  // sent, and its answer fulfills all of them.
+  m_getRequests[addr].push_back(std::move(p));
+  m_sender->send(req, ossia::string_view(addr));
 
-    m_lastSentMessage = get_time();
-  }
+  m_lastSentMessage = get_time();
 }
 
 void minuit_protocol::get_refreshed(ossia::string_view addr)
@@ -373,7 +371,8 @@ void minuit_protocol::get_refreshed(ossia::string_view addr)
   auto it = m_getRequests.find(addr);
   if (it != m_getRequests.end())
   {
-    it.value().set_value();
+    for (auto& promise : it.value())
+      promise.set_value();
     m_getRequests.erase(it);
   }
 }
diff --git a/src/ossia/network/minuit/minuit.hpp b/src/ossia/network/minuit/minuit.hpp
index 0d7c584..0204b16 100644
--- a/src/ossia/network/minuit/minuit.hpp
+++ b/src/ossia/network/minuit/minuit.hpp
@@ -103,7 +103,7 @@ private:
   std::set<std::string, std::less<>> m_nsRequests;
 
   mutex_t m_getRequestMutex;
-  ossia::string_map<std::promise<void>> m_getRequests;
+  ossia::string_map<std::vector<std::promise<void>>> m_getRequests;
 
   std::unique_ptr<osc::sender<osc_1_0_outbound_stream_visitor>> m_sender;
   std::unique_ptr<osc::receiver> m_receiver;
-- 
2.43.0


From d7c4510e2f5893a6f026bad40bb4a338fb552a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:37 +0000
Subject: [PATCH 074/142] fix: minuit messages are received after changing the
 local port

---
 src/ossia/network/minuit/minuit.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ossia/network/minuit/minuit.cpp b/src/ossia/network/minuit/minuit.cpp
index b8d749d..01eae6c 100644
--- a/src/ossia/network/minuit/minuit.cpp
+++ b/src/ossia/network/minuit/minuit.cpp
@@ -114,6 +114,7 @@ minuit_protocol& minuit_protocol::set_local_port(uint16_t out_port)
                     const oscpack::IpEndpointName& ip) {
         this->on_received_message(m, ip);
       });
+  m_receiver->run();
 
   update_zeroconf();
 
-- 
2.43.0


From f5dfef2fcc6c80ad92694853822cbdfc8e0b7a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:37 +0000
Subject: [PATCH 075/142] fix: minuit replies with the children of the
 parameters

---
 src/ossia/network/minuit/detail/minuit_parser.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ossia/network/minuit/detail/minuit_parser.hpp b/src/ossia/network/minuit/detail/minuit_parser.hpp
index 1848d63..0851ca9 100644
--- a/src/ossia/network/minuit/detail/minuit_parser.hpp
+++ b/src/ossia/network/minuit/detail/minuit_parser.hpp
@@ -216,9 +216,9 @@ struct minuit_behavior<minuit_command::Request, minuit_operation::Namespace>
   {
     proto.sender().send(
         proto.name_table.get_action(minuit_action::NamespaceReply), address,
-        "Data", "attributes={", "type", "dataspace", "repetitionsFilter",
-        "service", "priority", "value", "rangeBounds", "rangeClipmode",
-        "dataspaceUnit", "}");
+        "Data", "nodes={", c, "}", "attributes={", "type", "dataspace",
+        "repetitionsFilter", "service", "priority", "value", "rangeBounds",
+        "rangeClipmode", "dataspaceUnit", "}");
     std::this_thread::sleep_for(std::chrono::milliseconds(1));
   }
 
@@ -248,7 +248,7 @@ struct minuit_behavior<minuit_command::Request, minuit_operation::Namespace>
       if (!node)
         return;
 
-      if (node->children().empty())
+      if (node->children().empty() && node->get_parameter())
       {
         handle_data(proto, address);
       }
-- 
2.43.0


From 8ae6ff2d61d1d5f46b79d3f15ead92ffa22d2f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:37 +0000
Subject: [PATCH 076/142] fix: the minuit priorities are received as they are
 sent

---
 src/ossia/network/minuit/detail/minuit_parser.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ossia/network/minuit/detail/minuit_parser.hpp b/src/ossia/network/minuit/detail/minuit_parser.hpp
index 0851ca9..9e771ee 100644
--- a/src/ossia/network/minuit/detail/minuit_parser.hpp
+++ b/src/ossia/network/minuit/detail/minuit_parser.hpp
@@ -480,7 +480,8 @@ struct minuit_behavior<minuit_command::Answer, minuit_operation::Listen>
             }
             case minuit_attribute::Priority:
             {
-              ossia::net::set_priority(*node, mess_it->AsInt32());
+              if (auto priority = AsNumber(mess_it))
+                ossia::net::set_priority(*node, *priority);
               break;
             }
             case minuit_attribute::ValueStepSize:
-- 
2.43.0


From 90649c01172d6b92d254faef6f5d54533217e959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:25 +0000
Subject: [PATCH 077/142] fix: repeated minuit answers do not reset the value
 and unit

---
 src/ossia/network/minuit/detail/minuit_parser.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/ossia/network/minuit/detail/minuit_parser.hpp b/src/ossia/network/minuit/detail/minuit_parser.hpp
index 9e771ee..b256d9f 100644
--- a/src/ossia/network/minuit/detail/minuit_parser.hpp
+++ b/src/ossia/network/minuit/detail/minuit_parser.hpp
@@ -431,8 +431,12 @@ struct minuit_behavior<minuit_command::Answer, minuit_operation::Listen>
             }
             case minuit_attribute::Type:
             {
-              addr->set_value_type(ossia::minuit::type_from_minuit_type_text(
-                  mess_it->AsString()));
+              // A request can be answered more than once: setting the type
+              // again would reset the value.
+              const auto type = type_from_minuit_type_text(mess_it->AsString());
+              const auto current = addr->get_value_type();
+              if (to_minuit_type_text(current) != to_minuit_type_text(type))
+                addr->set_value_type(type);
 
               break;
             }
@@ -456,8 +460,9 @@ struct minuit_behavior<minuit_command::Answer, minuit_operation::Listen>
             }
             case minuit_attribute::Dataspace:
             {
-              addr->set_unit(
-                  ossia::parse_dataspace(mess_it->AsString()));
+              const ossia::string_view text = mess_it->AsString();
+              if (ossia::get_dataspace_text(addr->get_unit()) != text)
+                addr->set_unit(ossia::parse_dataspace(text));
               break;
             }
             case minuit_attribute::DataspaceUnit:
-- 
2.43.0


From f648d3a9e24a3539e8a736fda3db853e8b0b7a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:19 +0000
Subject: [PATCH 078/142] fix: a disposed event does not happen when its sync
 is triggered

---
 .../detail/scenario_sync_musical_execution.cpp        | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ossia/editor/scenario/detail/scenario_sync_musical_execution.cpp b/src/ossia/editor/scenario/detail/scenario_sync_musical_execution.cpp
index 97990dd..2e0aac3 100644
--- a/src/ossia/editor/scenario/detail/scenario_sync_musical_execution.cpp
+++ b/src/ossia/editor/scenario/detail/scenario_sync_musical_execution.cpp
@@ -83,6 +83,8 @@ int is_timesync_ready(time_sync& sync, small_event_vec& pendingEvents, bool& max
     if(is_finished(status) || status == time_event::status::NONE)
     {
       bool minimalDurationReached = true;
+      bool hasPrevious = false;
+      bool reachable = false;
 
       for (const std::shared_ptr<ossia::time_interval>& timeInterval :
            timeEvent->previous_time_intervals())
@@ -93,12 +95,14 @@ int is_timesync_ready(time_sync& sync, small_event_vec& pendingEvents, bool& max
 
         const auto& ev = timeInterval->get_start_event();
         const auto start_ev_status = ev.get_status();
+        hasPrevious = true;
 
         // previous TimeIntervals with a DISPOSED start event are ignored
         if (is_disposed(start_ev_status))
         {
           continue;
         }
+        reachable = true;
 
         // previous TimeInterval with a not yet HAPPENED start event
         // can't have reached its minimal duration
@@ -117,8 +121,13 @@ int is_timesync_ready(time_sync& sync, small_event_vec& pendingEvents, bool& max
         }
       }
 
+      if (is_disposed(status) && hasPrevious && !reachable)
+      {
+        // an event disposed because nothing leads to it anymore stays so
+        activeCount--;
+      }
       // access to PENDING status once all previous TimeIntervals allow it
-      if (minimalDurationReached)
+      else if (minimalDurationReached)
       {
         timeEvent->set_status(time_event::status::PENDING);
         on_pending(timeEvent.get());
-- 
2.43.0


From 732ab296a0c2ee7e09e6e43324baf7518fd61511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:20 +0000
Subject: [PATCH 079/142] fix: an event is disposed once when all that leads to
 it is disposed

---
 .../editor/scenario/detail/scenario_execution.cpp   | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/ossia/editor/scenario/detail/scenario_execution.cpp b/src/ossia/editor/scenario/detail/scenario_execution.cpp
index cf3285b..b001c0d 100644
--- a/src/ossia/editor/scenario/detail/scenario_execution.cpp
+++ b/src/ossia/editor/scenario/detail/scenario_execution.cpp
@@ -76,6 +76,13 @@ void scenario::make_happen(
   reinterpret_cast<uint8_t&>(event.m_status) |= uint8_t(time_event::status::FINISHED);
 }
 
+static bool is_disposed(const time_event& ev) noexcept
+{
+  return uint8_t(ev.get_status())
+         == (uint8_t(time_event::status::DISPOSED) | uint8_t(time_event::status::FINISHED))
+      || ev.get_status() == time_event::status::DISPOSED;
+}
+
 void scenario::make_dispose(time_event& event, interval_set& stopped)
 {
   if (event.m_status == time_event::status::HAPPENED)
@@ -104,15 +111,15 @@ void scenario::make_dispose(time_event& event, interval_set& stopped)
     for (auto& previousTimeInterval :
          nextTimeInterval->get_end_event().previous_time_intervals())
     {
-      if (previousTimeInterval->get_start_event().get_status()
-          != time_event::status::DISPOSED)
+      if (!is_disposed(previousTimeInterval->get_start_event()))
       {
         dispose = false;
         break;
       }
     }
 
-    if (dispose && !nextTimeInterval->graphal)
+    if (dispose && !nextTimeInterval->graphal
+        && !is_disposed(nextTimeInterval->get_end_event()))
       make_dispose(nextTimeInterval->get_end_event(), stopped);
   }
 
-- 
2.43.0


From dcbffef847faaa842764020d0355ca3d3b22b132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:20 +0000
Subject: [PATCH 080/142] fix: triggering a start point again restarts what
 follows it

---
 src/ossia/editor/scenario/detail/scenario_execution.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ossia/editor/scenario/detail/scenario_execution.cpp b/src/ossia/editor/scenario/detail/scenario_execution.cpp
index b001c0d..3ba81bb 100644
--- a/src/ossia/editor/scenario/detail/scenario_execution.cpp
+++ b/src/ossia/editor/scenario/detail/scenario_execution.cpp
@@ -299,7 +299,9 @@ void scenario::state_impl(const ossia::token_request& tk)
           auto& evs = n->get_time_events();
           for (auto& e : evs)
           {
-            const auto st = e->get_status();
+            const auto st = ossia::time_event::status(
+                uint8_t(e->get_status())
+                & ~uint8_t(ossia::time_event::status::FINISHED));
             if (st == ossia::time_event::status::HAPPENED
                 || st == ossia::time_event::status::DISPOSED)
             {
-- 
2.43.0


From 5f8503ca0a05be14b7aa85b8ba735cc9cbbde7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:20 +0000
Subject: [PATCH 081/142] fix: the time left after an interval does not depend
 on its speed

---
 src/ossia/editor/scenario/detail/scenario_execution.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/editor/scenario/detail/scenario_execution.cpp b/src/ossia/editor/scenario/detail/scenario_execution.cpp
index 3ba81bb..4e48e78 100644
--- a/src/ossia/editor/scenario/detail/scenario_execution.cpp
+++ b/src/ossia/editor/scenario/detail/scenario_execution.cpp
@@ -177,7 +177,7 @@ void scenario::run_interval(
         }
 
         const auto ot
-            = ossia::time_value{int64_t(diff)};
+            = ossia::time_value{int64_t(diff / s)};
         const auto node_it = m_overticks.lower_bound(end_node);
         if (node_it != m_overticks.end() && (end_node == node_it->first))
         {
-- 
2.43.0


From 56179a772db8db3a8bbc95e94c9af6fd7887bd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:20 +0000
Subject: [PATCH 082/142] fix: an interval running backwards stops at its
 beginning

---
 src/ossia/editor/scenario/detail/scenario_execution.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/editor/scenario/detail/scenario_execution.cpp b/src/ossia/editor/scenario/detail/scenario_execution.cpp
index 4e48e78..67e5b56 100644
--- a/src/ossia/editor/scenario/detail/scenario_execution.cpp
+++ b/src/ossia/editor/scenario/detail/scenario_execution.cpp
@@ -202,7 +202,7 @@ void scenario::run_interval(
     }
     else
     {
-      if (tick * s < cst_old_date)
+      if (cst_old_date + tick * s >= 0_tv)
       {
         if (tick != 0_tv)
           interval.tick_offset(tick, offset, tk);
-- 
2.43.0


From 63ae801d40393902365c5563f9468a0a875567f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:20 +0000
Subject: [PATCH 083/142] fix: an interval stopped in the tick it starts does
 not run

---
 src/ossia/editor/scenario/detail/scenario_execution.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ossia/editor/scenario/detail/scenario_execution.cpp b/src/ossia/editor/scenario/detail/scenario_execution.cpp
index 67e5b56..39b24a9 100644
--- a/src/ossia/editor/scenario/detail/scenario_execution.cpp
+++ b/src/ossia/editor/scenario/detail/scenario_execution.cpp
@@ -392,6 +392,9 @@ void scenario::state_impl(const ossia::token_request& tk)
           const_cast<overtick&>(it->second).offset = offset;
           for (const auto& interval : ev.next_time_intervals())
           {
+            // it may have been stopped already by its end event
+            if (m_runningIntervals.find(interval.get()) == m_runningIntervals.end())
+              continue;
             run_interval(*interval, tk, tick_ms, remaining_tick, offset);
           }
         }
-- 
2.43.0


From 852b2a024265386483faa43cf55e0dcf02ec1156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:20 +0000
Subject: [PATCH 084/142] fix: a time sync stopped while being triggered starts
 anew

---
 src/ossia/editor/scenario/time_sync.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ossia/editor/scenario/time_sync.cpp b/src/ossia/editor/scenario/time_sync.cpp
index b625306..af85721 100644
--- a/src/ossia/editor/scenario/time_sync.cpp
+++ b/src/ossia/editor/scenario/time_sync.cpp
@@ -164,6 +164,9 @@ void time_sync::reset()
   }
 
   m_trigger_date = Infinite;
+  m_status = status::NOT_DONE;
+  m_is_being_triggered = false;
+  observe_expression(false);
   m_observe = false;
   m_evaluating = false;
 }
-- 
2.43.0


From bd73fe5d81902bff44d0c7284be53f6a1981dc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:29 +0000
Subject: [PATCH 085/142] fix: an interval with a tempo does not run over its
 maximum

---
 src/ossia/editor/scenario/detail/scenario_execution.cpp | 2 +-
 src/ossia/editor/scenario/time_interval.cpp             | 9 +++++++++
 src/ossia/editor/scenario/time_interval.hpp             | 1 +
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/ossia/editor/scenario/detail/scenario_execution.cpp b/src/ossia/editor/scenario/detail/scenario_execution.cpp
index 39b24a9..46343e3 100644
--- a/src/ossia/editor/scenario/detail/scenario_execution.cpp
+++ b/src/ossia/editor/scenario/detail/scenario_execution.cpp
@@ -160,7 +160,7 @@ void scenario::run_interval(
   // so that the state is not 1.01*automation for instance.
   if (!cst_max_dur.infinite())
   {
-    if(auto s = interval.get_speed(interval.get_date()); BOOST_LIKELY(s >= 0.))
+    if(auto s = interval.get_speed(interval.get_date(), tk); BOOST_LIKELY(s >= 0.))
     {
       auto max_tick = time_value{cst_max_dur - cst_old_date};
       double diff = s * tick.impl - max_tick.impl;
diff --git a/src/ossia/editor/scenario/time_interval.cpp b/src/ossia/editor/scenario/time_interval.cpp
index fd24361..5333cf8 100644
--- a/src/ossia/editor/scenario/time_interval.cpp
+++ b/src/ossia/editor/scenario/time_interval.cpp
@@ -25,6 +25,15 @@ double time_interval::get_speed(time_value date) const noexcept
   }
 }
 
+double time_interval::get_speed(time_value date, const ossia::token_request& parent_request) const noexcept
+{
+  // absolute tempo given : the speed of the parent is negated
+  if(BOOST_UNLIKELY(m_hasTempo && parent_request.speed != 0))
+    return get_speed(date) / parent_request.speed;
+  else
+    return m_speed;
+}
+
 tick_transport_info time_interval::current_transport_info() const noexcept
 {
   tick_transport_info t;
diff --git a/src/ossia/editor/scenario/time_interval.hpp b/src/ossia/editor/scenario/time_interval.hpp
index c12ac38..fcc2d8c 100644
--- a/src/ossia/editor/scenario/time_interval.hpp
+++ b/src/ossia/editor/scenario/time_interval.hpp
@@ -56,6 +56,7 @@ public:
   }
 
   double get_speed(time_value date) const noexcept;
+  double get_speed(time_value date, const ossia::token_request& parent_request) const noexcept;
   void set_offset(ossia::time_value g) noexcept
   {
     m_offset = g;
-- 
2.43.0


From 0d786f9061df18df271ed1fedc6312874bc3b97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:33 +0000
Subject: [PATCH 086/142] fix: a cycle shorter than a tick does not run forever

---
 .../scenario/detail/scenario_execution.cpp    | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/ossia/editor/scenario/detail/scenario_execution.cpp b/src/ossia/editor/scenario/detail/scenario_execution.cpp
index 46343e3..cfd1e9b 100644
--- a/src/ossia/editor/scenario/detail/scenario_execution.cpp
+++ b/src/ossia/editor/scenario/detail/scenario_execution.cpp
@@ -373,23 +373,28 @@ void scenario::state_impl(const ossia::token_request& tk)
 
     do
     {
+      ossia::small_vector<std::pair<time_event*, overtick>, 4> reachedEvents;
       for (const auto& timeEvent : m_maxReachedEvents)
       {
-        time_event& ev = *timeEvent;
-        auto& tn = ev.get_time_sync();
+        auto it = m_overticks.find(&timeEvent->get_time_sync());
+        if (it != m_overticks.end())
+          reachedEvents.push_back({timeEvent, it->second});
+      }
+
+      // The remaining tick is used once: in a cycle, the sync may be reached
+      // again with less time in the same tick
+      for (const auto& reached : reachedEvents)
+        m_overticks.erase(&reached.first->get_time_sync());
+
+      for (const auto& reached : reachedEvents)
+      {
+        time_event& ev = *reached.first;
         // Propagate the remaining tick to the next intervals
-        auto it = m_overticks.find(&tn);
-        if (it == m_overticks.end())
-        {
-          continue;
-        }
-        else
         {
           const time_value remaining_tick
-              = (mode == PROGRESS_MAX) ? it->second.max : it->second.min;
+              = (mode == PROGRESS_MAX) ? reached.second.max : reached.second.min;
 
           const auto offset = tk.offset + tick_ms - remaining_tick;
-          const_cast<overtick&>(it->second).offset = offset;
           for (const auto& interval : ev.next_time_intervals())
           {
             // it may have been stopped already by its end event
-- 
2.43.0


From 530027d9cdef904ef603712fc60439ac76cb6732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:45 +0000
Subject: [PATCH 087/142] fix: the metronome keeps its period

---
 src/ossia/dataflow/nodes/metronome.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ossia/dataflow/nodes/metronome.hpp b/src/ossia/dataflow/nodes/metronome.hpp
index ebd6aca..06b3038 100644
--- a/src/ossia/dataflow/nodes/metronome.hpp
+++ b/src/ossia/dataflow/nodes/metronome.hpp
@@ -51,6 +51,12 @@ private:
     // 1 = 1 tick per time_value. 1000 = 1 tick per 1000 time_value.
     time_value cur{int64_t(m_curve->value_at(pos))};
 
+    // What is left of the elapsed time once the ticks it contains are removed
+    const auto remaining = [&](time_value elapsed) {
+      const int64_t total = (m_metroPrevTick + elapsed).impl;
+      return time_value{cur.impl > 0 ? total % cur.impl : int64_t(0)};
+    };
+
     // TODO we should compute the derivative since the last tick in order to be
     // precise
     if (date > t.prev_date)
@@ -64,7 +70,7 @@ private:
       }
       else
       {
-        m_metroPrevTick = elapsed - cur;
+        m_metroPrevTick = remaining(elapsed);
         vp.write_value(
             ossia::impulse{}, t.physical_start(e.modelToSamples())); // TODO offset is wrong here
       }
@@ -80,7 +86,7 @@ private:
       }
       else
       {
-        m_metroPrevTick = elapsed - cur;
+        m_metroPrevTick = remaining(elapsed);
         vp.write_value(
             ossia::impulse{}, t.physical_start(e.modelToSamples())); // TODO offset is wrong here
       }
-- 
2.43.0


From bbd94c740ebe42660bbcb77fb4bbf6cabfa8bac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:45 +0000
Subject: [PATCH 088/142] fix: the step sequencer sends all the steps of a tick

---
 src/ossia/dataflow/nodes/step.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ossia/dataflow/nodes/step.hpp b/src/ossia/dataflow/nodes/step.hpp
index 0d5a75d..87f3bea 100644
--- a/src/ossia/dataflow/nodes/step.hpp
+++ b/src/ossia/dataflow/nodes/step.hpp
@@ -26,7 +26,11 @@ public:
     {
       auto& port = *m_outlets[0]->target<ossia::value_port>();
       const int64_t d = dur.impl * e.samplesToModel();
-      int64_t quo = std::floor(double(t.date.impl) / d);
+      if (d <= 0 || values.empty())
+        return;
+
+      // The first step which is not before the tick
+      int64_t quo = std::ceil(double(t.prev_date.impl) / d);
       int64_t prev_step = d * quo;
 
       while(t.in_range(time_value{prev_step}))
-- 
2.43.0


From 8c20bb54ee4bdfc4d3084a62aa5ca5a5a82db984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:15 +0000
Subject: [PATCH 089/142] fix: sounds are faded where they are written

---
 src/ossia/dataflow/nodes/sound_mmap.hpp | 2 +-
 src/ossia/dataflow/nodes/sound_ref.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ossia/dataflow/nodes/sound_mmap.hpp b/src/ossia/dataflow/nodes/sound_mmap.hpp
index 57bea25..c82a671 100644
--- a/src/ossia/dataflow/nodes/sound_mmap.hpp
+++ b/src/ossia/dataflow/nodes/sound_mmap.hpp
@@ -312,7 +312,7 @@ public:
       {
         // fade
         snd::do_fade(t.start_discontinuous, t.end_discontinuous, ap.samples[chan],
-                     samples_offset, samples_to_write);
+                     samples_offset, samples_offset + samples_to_write);
       }
 
       ossia::snd::perform_upmix(this->upmix, channels, ap);
diff --git a/src/ossia/dataflow/nodes/sound_ref.hpp b/src/ossia/dataflow/nodes/sound_ref.hpp
index 1d5a2fb..356cd51 100644
--- a/src/ossia/dataflow/nodes/sound_ref.hpp
+++ b/src/ossia/dataflow/nodes/sound_ref.hpp
@@ -165,7 +165,7 @@ public:
       {
           ossia::snd::do_fade(
               t.start_discontinuous, t.end_discontinuous, ap.samples[i],
-              samples_offset, samples_to_write);
+              samples_offset, samples_offset + samples_to_write);
       }
 
       ossia::snd::perform_upmix(this->upmix, chan, ap);
-- 
2.43.0


From 1b57707fc22a2bd3e5fcbdcda7f6312e95d0561b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:15 +0000
Subject: [PATCH 090/142] fix: a sound looping over less than a sample does not
 divide by zero

---
 src/ossia/dataflow/nodes/sound_mmap.hpp | 4 ++--
 src/ossia/dataflow/nodes/sound_ref.hpp  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ossia/dataflow/nodes/sound_mmap.hpp b/src/ossia/dataflow/nodes/sound_mmap.hpp
index c82a671..20e47e3 100644
--- a/src/ossia/dataflow/nodes/sound_mmap.hpp
+++ b/src/ossia/dataflow/nodes/sound_mmap.hpp
@@ -117,7 +117,7 @@ public:
       frame_data = (double*) alloca(sizeof(double) * samples_to_write * channels);
     }
 
-    if(m_loops)
+    if(m_loops && m_loop_duration_samples > 0)
     {
       for(int k = 0; k < samples_to_write; k++)
       {
@@ -204,7 +204,7 @@ public:
       frame_data = (double*) alloca(sizeof(double) * samples_to_write * channels);
     }
 
-    if(m_loops)
+    if(m_loops && m_loop_duration_samples > 0)
     {
       for(int k = 0; k < samples_to_write; k++)
       {
diff --git a/src/ossia/dataflow/nodes/sound_ref.hpp b/src/ossia/dataflow/nodes/sound_ref.hpp
index 356cd51..37a58de 100644
--- a/src/ossia/dataflow/nodes/sound_ref.hpp
+++ b/src/ossia/dataflow/nodes/sound_ref.hpp
@@ -64,7 +64,7 @@ public:
   {
     const int channels = this->channels();
     const int file_duration = this->duration();
-    if(m_loops)
+    if(m_loops && m_loop_duration_samples > 0)
     {
       for(int i = 0; i < channels; i++)
       {
-- 
2.43.0


From 647c8b8bcbc9c85397a42cda3ee73e3d0f609157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:15 +0000
Subject: [PATCH 091/142] fix: the channels of a sound are moved once per tick

---
 src/ossia/dataflow/nodes/sound_mmap.hpp | 3 +++
 src/ossia/dataflow/nodes/sound_ref.hpp  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/ossia/dataflow/nodes/sound_mmap.hpp b/src/ossia/dataflow/nodes/sound_mmap.hpp
index 20e47e3..95e03de 100644
--- a/src/ossia/dataflow/nodes/sound_mmap.hpp
+++ b/src/ossia/dataflow/nodes/sound_mmap.hpp
@@ -278,6 +278,9 @@ public:
     const auto len = m_handle.totalPCMFrameCount();
 
     ossia::audio_port& ap = *audio_out;
+    // They are moved after each token, and there can be many of them in a tick
+    if (start != 0 && ap.samples.size() > start)
+      ap.samples.erase(ap.samples.begin(), ap.samples.begin() + start);
     ap.samples.resize(channels);
 
     const auto [samples_to_read, samples_to_write] = snd::sample_info(e.bufferSize(), e.modelToSamples(), t);
diff --git a/src/ossia/dataflow/nodes/sound_ref.hpp b/src/ossia/dataflow/nodes/sound_ref.hpp
index 37a58de..c2dcd49 100644
--- a/src/ossia/dataflow/nodes/sound_ref.hpp
+++ b/src/ossia/dataflow/nodes/sound_ref.hpp
@@ -129,6 +129,9 @@ public:
     const std::size_t chan = m_data.size();
     const std::size_t len = m_data[0].size();
     ossia::audio_port& ap = *audio_out;
+    // They are moved after each token, and there can be many of them in a tick
+    if (start != 0 && ap.samples.size() > start)
+      ap.samples.erase(ap.samples.begin(), ap.samples.begin() + start);
     ap.samples.resize(chan);
 
     const auto [samples_to_read, samples_to_write] = snd::sample_info(e.bufferSize(), e.modelToSamples(), t);
-- 
2.43.0


From 343bbebcfa22b3d1a0dba547f6464d4165fcdc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:47 +0000
Subject: [PATCH 092/142] fix: a MIDI note added where the playback is gets
 played

---
 src/ossia/dataflow/nodes/midi.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/dataflow/nodes/midi.hpp b/src/ossia/dataflow/nodes/midi.hpp
index da4b317..3dc43c7 100644
--- a/src/ossia/dataflow/nodes/midi.hpp
+++ b/src/ossia/dataflow/nodes/midi.hpp
@@ -57,7 +57,7 @@ public:
   void add_note(note_data nd)
   {
     m_orig_notes.insert(nd);
-    if (nd.start > m_prev_date)
+    if (nd.start >= m_prev_date)
     {
       m_notes.insert(nd);
     }
-- 
2.43.0


From 43fa93ad4c0497be3b5ad79ca12c643c6d83a662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:48 +0000
Subject: [PATCH 093/142] fix: removing a MIDI note leaves the rest of its
 chord

---
 src/ossia/dataflow/nodes/midi.hpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/ossia/dataflow/nodes/midi.hpp b/src/ossia/dataflow/nodes/midi.hpp
index 3dc43c7..191b990 100644
--- a/src/ossia/dataflow/nodes/midi.hpp
+++ b/src/ossia/dataflow/nodes/midi.hpp
@@ -65,10 +65,26 @@ public:
 
   void remove_note(note_data nd)
   {
-    m_orig_notes.erase(nd);
-    m_notes.erase(nd);
-    auto it = m_playingnotes.find(nd);
-    if (it != m_playingnotes.end())
+    // The sets only compare the start dates: chords have many notes on one
+    auto find = [&nd](note_set& notes) {
+      auto it = notes.lower_bound(nd);
+      for (; it != notes.end() && it->start == nd.start; ++it)
+      {
+        if (it->duration == nd.duration && it->pitch == nd.pitch
+            && it->velocity == nd.velocity)
+          return it;
+      }
+      return notes.end();
+    };
+
+    if (auto it = find(m_orig_notes); it != m_orig_notes.end())
+      m_orig_notes.erase(it);
+
+    if (auto it = find(m_notes); it != m_notes.end())
+    {
+      m_notes.erase(it);
+    }
+    else if (auto it = find(m_playingnotes); it != m_playingnotes.end())
     {
       m_toStop.insert(nd);
       m_playingnotes.erase(it);
-- 
2.43.0


From 6651312906697174d1d2a1319a3501241703a814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:48 +0000
Subject: [PATCH 094/142] fix: a MIDI note shorter than a tick is stopped

---
 src/ossia/dataflow/nodes/midi.hpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/ossia/dataflow/nodes/midi.hpp b/src/ossia/dataflow/nodes/midi.hpp
index 191b990..37767bd 100644
--- a/src/ossia/dataflow/nodes/midi.hpp
+++ b/src/ossia/dataflow/nodes/midi.hpp
@@ -238,12 +238,14 @@ private:
           note_data& note = const_cast<note_data&>(*it);
           auto end_time = note.start + note.duration;
 
-          if (t.in_range({end_time}))
+          if (end_time < t.date)
           {
             mp.messages.push_back(libremidi::message::note_off(
                 m_channel, note.pitch, 0));
             mp.messages.back().timestamp
-                = t.to_physical_time_in_tick(end_time, samplesratio);
+                = end_time >= t.prev_date
+                      ? t.to_physical_time_in_tick(end_time, samplesratio)
+                      : tick_start;
 
             it = m_playingnotes.erase(it);
           }
@@ -267,7 +269,19 @@ private:
             mp.messages.back().timestamp
                 = t.to_physical_time_in_tick(start_time, samplesratio);
 
-            m_playingnotes.insert(note);
+            auto end_time = note.start + note.duration;
+            if (end_time < t.date)
+            {
+              // It does not last until the next tick
+              mp.messages.push_back(
+                  libremidi::message::note_off(m_channel, note.pitch, 0));
+              mp.messages.back().timestamp
+                  = t.to_physical_time_in_tick(end_time, samplesratio);
+            }
+            else
+            {
+              m_playingnotes.insert(note);
+            }
             it = m_notes.erase(it);
             max_it = std::lower_bound(
                 it, m_notes.end(), t.date.impl + 1, note_comparator{});
-- 
2.43.0


From 2880b3ee1564d3c60b88a915a8d6b7d6ddb9dcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:48 +0000
Subject: [PATCH 095/142] fix: MIDI notes are played right after a jump

---
 src/ossia/dataflow/nodes/midi.hpp | 56 ++++++++-----------------------
 1 file changed, 14 insertions(+), 42 deletions(-)

diff --git a/src/ossia/dataflow/nodes/midi.hpp b/src/ossia/dataflow/nodes/midi.hpp
index 37767bd..8fa5962 100644
--- a/src/ossia/dataflow/nodes/midi.hpp
+++ b/src/ossia/dataflow/nodes/midi.hpp
@@ -99,46 +99,16 @@ public:
 
   void transport_impl(ossia::time_value date)
   {
+    if (date == m_prev_date)
+      return;
+
     // 1. Send note-offs
     m_toStop.insert(m_playingnotes.begin(), m_playingnotes.end());
     m_playingnotes.clear();
 
-    // 2. Re-add following notes
-    if (date < m_prev_date)
-    {
-      if (date == 0_tv)
-      {
-        m_notes = m_orig_notes;
-      }
-      else
-      {
-        auto min_it = m_orig_notes.lower_bound({date});
-        auto max_it = m_orig_notes.lower_bound({m_prev_date});
-
-        if (min_it != m_orig_notes.end())
-          m_notes.insert(min_it, max_it);
-
-        // all of these will have it->start < date
-        for (auto it = m_orig_notes.begin(); it != min_it; ++it)
-        {
-          if ((it->start + it->duration) > date)
-          {
-            m_notes.insert(*it);
-          }
-        }
-      }
-    }
-    else if (date > m_prev_date)
-    {
-      // remove previous notes
-      auto min_it = m_notes.lower_bound({date});
-      if (min_it != m_notes.begin() && min_it != m_notes.end())
-      {
-        std::advance(min_it, -1);
-        m_notes.erase(m_notes.begin(), min_it);
-      }
-      // todo resume current notes
-    }
+    // 2. Only the notes which start from there are left to play
+    m_notes.clear();
+    m_notes.insert(m_orig_notes.lower_bound({date}), m_orig_notes.end());
 
     m_prev_date = date;
   }
@@ -173,15 +143,17 @@ private:
       const ossia::token_request& t;
       ~scope_guard() {
         self.m_prev_date = t.date;
-
-        if(self.requestTransport)
-        {
-          self.transport_impl(self.m_transport_date);
-          self.requestTransport = false;
-        }
       }
     } guard{*this, t};
 
+    if (requestTransport)
+    {
+      transport_impl(m_transport_date);
+      requestTransport = false;
+    }
+    if (t.prev_date != m_prev_date)
+      transport_impl(t.prev_date);
+
     ossia::midi_port& mp = *midi_out;
     const auto samplesratio = e.modelToSamples();
     const auto tick_start = t.physical_start(samplesratio);
-- 
2.43.0


From 68eaba6a8f9ec37ccb04df2fc4fd4e6729b34920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:30 +0000
Subject: [PATCH 096/142] fix: recognise every nested float array of an
 OSCQuery list, not only the first

---
 src/ossia/network/oscquery/detail/value_to_json.hpp | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/ossia/network/oscquery/detail/value_to_json.hpp b/src/ossia/network/oscquery/detail/value_to_json.hpp
index b9d0171..9e1a4cb 100644
--- a/src/ossia/network/oscquery/detail/value_to_json.hpp
+++ b/src/ossia/network/oscquery/detail/value_to_json.hpp
@@ -386,15 +386,7 @@ struct json_to_value
 
   bool can_read(ossia::string_view sv) const noexcept
   {
-      const auto res = typetags.find(sv);
-      if(res == std::string_view::npos)
-      {
-        return false;
-      }
-      else
-      {
-        return int64_t(res) == typetag_cursor;
-      }
+      return typetags.substr(typetag_cursor, sv.size()) == sv;
   }
 
   bool operator()(std::vector<ossia::value>& res) const
-- 
2.43.0


From 651309a38fb835f35b1b4aba128228844d3a1ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:12 +0000
Subject: [PATCH 097/142] fix: a list read from OSCQuery replaces the previous
 one instead of extending it

---
 src/ossia/network/oscquery/detail/value_to_json.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ossia/network/oscquery/detail/value_to_json.hpp b/src/ossia/network/oscquery/detail/value_to_json.hpp
index 9e1a4cb..7b5b71c 100644
--- a/src/ossia/network/oscquery/detail/value_to_json.hpp
+++ b/src/ossia/network/oscquery/detail/value_to_json.hpp
@@ -395,6 +395,7 @@ struct json_to_value
     bool b = val.IsArray();
     if (b)
     {
+      res.clear();
       auto arr = val.GetArray();
 
       for (const auto& elt : arr)
-- 
2.43.0


From 17cd69eaf26d90d0a17c6b75e4d909fe254f7bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:12 +0000
Subject: [PATCH 098/142] fix: read the accepted values of float vector
 components from OSCQuery

---
 src/ossia/network/oscquery/detail/json_reader_detail.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ossia/network/oscquery/detail/json_reader_detail.cpp b/src/ossia/network/oscquery/detail/json_reader_detail.cpp
index 9ca055f..c2b8f6c 100644
--- a/src/ossia/network/oscquery/detail/json_reader_detail.cpp
+++ b/src/ossia/network/oscquery/detail/json_reader_detail.cpp
@@ -237,22 +237,22 @@ vecf_domain<N> parse_vecf(const rapidjson::Value& val)
     {
       auto min_it = elt.FindMember("MIN");
       auto max_it = elt.FindMember("MAX");
-      // auto values_it = elt.FindMember("VALS");
+      auto values_it = elt.FindMember("VALS");
 
       auto mem_end = elt.MemberEnd();
 
-      /* TODO values for vecf
       if (values_it != mem_end)
       {
         if (values_it->value.IsArray())
         {
           for (auto& val : values_it->value.GetArray())
           {
-            dom.values[i].insert(ReadValue(val));
+            float f;
+            if (json_parser_impl::ReadValue(val, f))
+              dom.values[i].insert(f);
           }
         }
       }
-      */
 
       if (min_it != mem_end)
       {
-- 
2.43.0


From c03907cc59899c49a52fac8d0f28aa359b5280e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:12 +0000
Subject: [PATCH 099/142] fix: keep the extended type of OSCQuery parameters
 that also have a type tag

---
 src/ossia/network/oscquery/detail/json_reader_detail.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ossia/network/oscquery/detail/json_reader_detail.cpp b/src/ossia/network/oscquery/detail/json_reader_detail.cpp
index c2b8f6c..257c67b 100644
--- a/src/ossia/network/oscquery/detail/json_reader_detail.cpp
+++ b/src/ossia/network/oscquery/detail/json_reader_detail.cpp
@@ -775,6 +775,8 @@ void json_parser_impl::readParameter(
     else if (has_typetag)
     {
       addr = setup_parameter(val_type, node);
+      if (addr && ext_type)
+        ossia::net::set_extended_type(node, ext_type);
     }
     else if (ext_type)
     {
-- 
2.43.0


From 6da30edaa1f2d3d43fe377c953e29d0eed1f494f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:24 +0000
Subject: [PATCH 100/142] fix: the OSCQuery default value of a boolean does not
 depend on its current value

---
 .../oscquery/detail/json_writer_detail.cpp    |  6 +++++-
 .../network/oscquery/detail/value_to_json.hpp | 19 ++++++++-----------
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/ossia/network/oscquery/detail/json_writer_detail.cpp b/src/ossia/network/oscquery/detail/json_writer_detail.cpp
index 453fe37..d8aa0f0 100644
--- a/src/ossia/network/oscquery/detail/json_writer_detail.cpp
+++ b/src/ossia/network/oscquery/detail/json_writer_detail.cpp
@@ -295,7 +295,11 @@ struct node_attribute_writer
     if (ossia::net::valid(res))
     {
       writer.writeKey(metadata<Attr>::key());
-      writer.writeValue(res, p.get_unit());
+      // The typetag only encodes the current value of booleans
+      if (auto b = res->target<bool>())
+        writer.writeValue(*b);
+      else
+        writer.writeValue(res, p.get_unit());
     }
   }
 };
diff --git a/src/ossia/network/oscquery/detail/value_to_json.hpp b/src/ossia/network/oscquery/detail/value_to_json.hpp
index 7b5b71c..36b4e2c 100644
--- a/src/ossia/network/oscquery/detail/value_to_json.hpp
+++ b/src/ossia/network/oscquery/detail/value_to_json.hpp
@@ -441,8 +441,14 @@ struct json_to_single_value
 
   bool operator()(bool& res) const
   {
-    bool b=false;
-    if(typetags == "F")
+    // An explicit boolean (default values, wrong typetag) takes precedence
+    // over the typetag, which only gives the current value.
+    bool b = val.IsBool();
+    if (b)
+    {
+      res = val.GetBool();
+    }
+    else if(typetags == "F")
     {
       res = false;
       b = true;
@@ -452,15 +458,6 @@ struct json_to_single_value
       res = true;
       b = true;
     }
-    else
-    {
-      // weird case where the typetag is wrongly set
-      // then we expect that the value is not null
-      // This doesn't follow the OSCQuery specification
-      bool b = val.IsBool();
-      if (b)
-        res = val.GetBool();
-    }
     return b;
   }
 
-- 
2.43.0


From 72c7862c361631e5f4e94d1b32dd720083a81ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:08 +0000
Subject: [PATCH 101/142] fix: a unit change sent in an ATTRIBUTES_CHANGED
 message is applied

---
 src/ossia/network/oscquery/detail/json_reader_detail.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ossia/network/oscquery/detail/json_reader_detail.cpp b/src/ossia/network/oscquery/detail/json_reader_detail.cpp
index 257c67b..c0ceeb5 100644
--- a/src/ossia/network/oscquery/detail/json_reader_detail.cpp
+++ b/src/ossia/network/oscquery/detail/json_reader_detail.cpp
@@ -356,6 +356,13 @@ bool json_parser_impl::ReadValue(
 
 bool json_parser_impl::ReadValue(const rapidjson::Value& val, unit_t& res)
 {
+  // ATTRIBUTES_CHANGED messages have the unit in text form
+  if (val.IsString())
+  {
+    res = ossia::parse_pretty_unit(get_string_view(val));
+    return bool(res);
+  }
+
   bool b = val.IsArray();
   if (b)
   {
-- 
2.43.0


From eb52a0d529963d4f5d2a89218218349ed320d3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:08 +0000
Subject: [PATCH 102/142] fix: a default value sent in an ATTRIBUTES_CHANGED
 message is applied

---
 .../network/oscquery/detail/json_reader_detail.cpp    | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/ossia/network/oscquery/detail/json_reader_detail.cpp b/src/ossia/network/oscquery/detail/json_reader_detail.cpp
index c0ceeb5..9b50e5a 100644
--- a/src/ossia/network/oscquery/detail/json_reader_detail.cpp
+++ b/src/ossia/network/oscquery/detail/json_reader_detail.cpp
@@ -1246,6 +1246,17 @@ void json_parser::parse_attributes_changed(
         // First handle the typetag, unit, ext_type, etc
         detail::create_or_update_parameter_type(*node, dat, request_value);
 
+        if (auto def_it = dat.FindMember(detail::attribute_default_value());
+            def_it != dat.MemberEnd())
+        {
+          if (auto p = node->get_parameter())
+          {
+            auto val = p->value();
+            val.apply(detail::json_to_value_unchecked{def_it->value});
+            ossia::net::set_default_value(*node, std::move(val));
+          }
+        }
+
         // Then the remaining attributes
         auto& map = detail::namespaceSetterMap();
         auto memb_end = dat.MemberEnd();
-- 
2.43.0


From cb43532a29a3e44a3069085db396eab913dfcd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:08 +0000
Subject: [PATCH 103/142] fix: a queried boolean VALUE is written as a boolean

---
 .../oscquery/detail/json_writer_detail.cpp    | 22 +++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/ossia/network/oscquery/detail/json_writer_detail.cpp b/src/ossia/network/oscquery/detail/json_writer_detail.cpp
index d8aa0f0..9253132 100644
--- a/src/ossia/network/oscquery/detail/json_writer_detail.cpp
+++ b/src/ossia/network/oscquery/detail/json_writer_detail.cpp
@@ -157,11 +157,14 @@ struct attr_pair_writer<ossia::net::value_attribute>
   auto operator()()
   {
     return [](const json_writer_impl& self, const ossia::net::node_base& n) {
-      if (auto p = n.get_parameter())
-        self.writeValue(ossia::net::value_attribute::getter(n), p->get_unit());
+      auto val = ossia::net::value_attribute::getter(n);
+      // There is no typetag in this reply to give the value of booleans
+      if (auto b = val.target<bool>())
+        self.writeValue(*b);
+      else if (auto p = n.get_parameter())
+        self.writeValue(val, p->get_unit());
       else
-        self.writeValue(
-            ossia::net::value_attribute::getter(n), ossia::unit_t{});
+        self.writeValue(val, ossia::unit_t{});
     };
   }
 };
@@ -172,12 +175,13 @@ struct attr_pair_writer<ossia::net::default_value_attribute>
   auto operator()()
   {
     return [](const json_writer_impl& self, const ossia::net::node_base& n) {
-      if (auto p = n.get_parameter())
-        self.writeValue(
-            ossia::net::default_value_attribute::getter(n), p->get_unit());
+      auto val = ossia::net::default_value_attribute::getter(n);
+      if (auto b = val ? val->target<bool>() : nullptr)
+        self.writeValue(*b);
+      else if (auto p = n.get_parameter())
+        self.writeValue(val, p->get_unit());
       else
-        self.writeValue(
-            ossia::net::default_value_attribute::getter(n), ossia::unit_t{});
+        self.writeValue(val, ossia::unit_t{});
     };
   }
 };
-- 
2.43.0


From 3d7bbe834e4719bbc6e6325f40b9bea6b57b0d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:08 +0000
Subject: [PATCH 104/142] fix: read back queried rgba8 values

---
 src/ossia/network/oscquery/detail/value_to_json.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/ossia/network/oscquery/detail/value_to_json.hpp b/src/ossia/network/oscquery/detail/value_to_json.hpp
index 36b4e2c..b4d5326 100644
--- a/src/ossia/network/oscquery/detail/value_to_json.hpp
+++ b/src/ossia/network/oscquery/detail/value_to_json.hpp
@@ -605,11 +605,21 @@ struct json_to_value_unchecked
     if (val.IsArray())
     {
       auto arr = val.GetArray();
+      if constexpr (N == 4)
+      {
+        // rgba8: [ "#RRGGBBAA" ]
+        if (arr.Size() == 1 && arr[0].IsString())
+        {
+          json_to_single_value{arr[0], "r"}(res);
+          return;
+        }
+      }
       if (arr.Size() == N)
       {
         for (int i = 0; i < (int)N; i++)
         {
-          res[i] = arr[i].GetDouble();
+          if (arr[i].IsNumber())
+            res[i] = arr[i].GetDouble();
         }
       }
     }
-- 
2.43.0


From f0cecd50950ce144a350df8653ad3b0271b048b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:42 +0000
Subject: [PATCH 105/142] fix: the last tick of a late clock is in time units,
 like the others

---
 src/ossia/editor/scenario/clock.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/editor/scenario/clock.cpp b/src/ossia/editor/scenario/clock.cpp
index af64b41..2c80966 100644
--- a/src/ossia/editor/scenario/clock.cpp
+++ b/src/ossia/editor/scenario/clock.cpp
@@ -119,7 +119,7 @@ bool clock::tick()
     if (m_duration - m_date < Zero && !m_duration.infinite())
     {
       // notify the owner
-      m_interval.tick_offset(time_value{deltaInUs}, 0_tv, tok);
+      m_interval.tick(time_value{deltaInUs}, tok, m_ratio);
 
       request_stop();
 
-- 
2.43.0


From 7e636a56256e08f91ecdd0aa2981173e7e3e0ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:40 +0000
Subject: [PATCH 106/142] fix: an OSCQuery mirror drops the extended type that
 a new type does not have

---
 src/ossia/network/oscquery/detail/json_reader_detail.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ossia/network/oscquery/detail/json_reader_detail.cpp b/src/ossia/network/oscquery/detail/json_reader_detail.cpp
index 9b50e5a..f8a7544 100644
--- a/src/ossia/network/oscquery/detail/json_reader_detail.cpp
+++ b/src/ossia/network/oscquery/detail/json_reader_detail.cpp
@@ -673,6 +673,9 @@ static void create_or_update_parameter_type(
       else if (val_type)
       {
         setup_parameter(val_type, node);
+        // The new type has no extended type
+        if (obj.FindMember(detail::attribute_extended_type()) != obj.MemberEnd())
+          ossia::net::set_extended_type(node, std::nullopt);
       }
     }
     request_value = addr;
-- 
2.43.0


From 1c1db7b204d2c56a1d8240cac6aa1dd853655cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:17 +0000
Subject: [PATCH 107/142] fix: sending a large OSCQuery value ends

---
 src/ossia/network/oscquery/detail/osc_writer.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ossia/network/oscquery/detail/osc_writer.cpp b/src/ossia/network/oscquery/detail/osc_writer.cpp
index 3be5114..99b66b1 100644
--- a/src/ossia/network/oscquery/detail/osc_writer.cpp
+++ b/src/ossia/network/oscquery/detail/osc_writer.cpp
@@ -81,17 +81,17 @@ void osc_writer::write_value(
   }
   catch (const oscpack::OutOfBufferMemoryException&)
   {
+    std::string buffer;
+    buffer.resize(4096);
     while (true)
     {
-      std::string buffer;
-      buffer.resize(4096);
       try
       {
         oscpack::OutboundPacketStream p{buffer.data(), buffer.size()};
         send_msg(p);
         break;
       }
-      catch (...)
+      catch (const oscpack::OutOfBufferMemoryException&)
       {
         buffer.resize(buffer.size() * 2);
       }
-- 
2.43.0


From 6e830ec8c65086399fcce748d060343484910eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:03 +0000
Subject: [PATCH 108/142] fix: an OSCQuery mirror drops a range that was
 removed

---
 src/ossia/network/oscquery/detail/json_reader_detail.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ossia/network/oscquery/detail/json_reader_detail.cpp b/src/ossia/network/oscquery/detail/json_reader_detail.cpp
index f8a7544..3a1296d 100644
--- a/src/ossia/network/oscquery/detail/json_reader_detail.cpp
+++ b/src/ossia/network/oscquery/detail/json_reader_detail.cpp
@@ -279,6 +279,12 @@ bool json_parser_impl::ReadValue(
   {
     return ReadValueObject(val, res);
   }
+  else if (val.IsNull())
+  {
+    // The range was removed
+    res = {};
+    return true;
+  }
   else if (val.IsArray())
   {
     auto t = node.get_parameter()->get_value_type();
-- 
2.43.0


From 08acd284f30c96bebdaeb9be7aa99ec5fe4a7ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:43 +0000
Subject: [PATCH 109/142] fix: JSON of an unexpected shape throws

---
 src/ossia/detail/config.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ossia/detail/config.hpp b/src/ossia/detail/config.hpp
index 7b819e6..babfc52 100644
--- a/src/ossia/detail/config.hpp
+++ b/src/ossia/detail/config.hpp
@@ -68,6 +68,16 @@
 #define FMT_HEADER_ONLY 1
 #endif
 
+// JSON comes from the network: what is not as expected is reported to
+// the caller, instead of aborting or going on with a value of another type.
+#if !defined(RAPIDJSON_ASSERT) && defined(__cplusplus)
+#include <cassert>
+#include <stdexcept>
+#define RAPIDJSON_ASSERT(x) \
+  ((x) ? static_cast<void>(0) : throw std::runtime_error("JSON: expected " #x))
+#define RAPIDJSON_NOEXCEPT_ASSERT(x) assert(x)
+#endif
+
 #if !defined(RAPIDJSON_HAS_STDSTRING)
 #define RAPIDJSON_HAS_STDSTRING 1
 #endif
-- 
2.43.0


From 80a53af7ac588bca6ff5e5c84d8469311c13e546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:43 +0000
Subject: [PATCH 110/142] fix: read past the end of an OSCQuery type tag

---
 src/ossia/network/oscquery/detail/value_to_json.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ossia/network/oscquery/detail/value_to_json.hpp b/src/ossia/network/oscquery/detail/value_to_json.hpp
index b4d5326..1e432ee 100644
--- a/src/ossia/network/oscquery/detail/value_to_json.hpp
+++ b/src/ossia/network/oscquery/detail/value_to_json.hpp
@@ -126,7 +126,7 @@ static inline auto from_hex(char c)
     }
   };
   static constexpr Table t;
-  return t[c];
+  return t[c & 0x7F];
 }
 
 struct json_to_value
@@ -165,7 +165,7 @@ struct json_to_value
   {
     bool b = false;
 
-    switch(typetags[typetag_cursor])
+    switch((std::size_t)typetag_cursor < typetags.size() ? typetags[typetag_cursor] : '\0')
     {
       case 'F':
         res = false;
@@ -211,8 +211,9 @@ struct json_to_value
   {
     if constexpr (N == 4)
     {
-      if (typetags[typetag_cursor]
-          == oscpack::TypeTagValues::RGBA_COLOR_TYPE_TAG)
+      if ((std::size_t)typetag_cursor < typetags.size()
+          && typetags[typetag_cursor]
+             == oscpack::TypeTagValues::RGBA_COLOR_TYPE_TAG)
       {
         typetag_cursor += 1;
         bool b = val.IsString();
-- 
2.43.0


From 23396e46c5c62ad76804bf8d34ac50284476dc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:43 +0000
Subject: [PATCH 111/142] fix: OSCQuery range of a node without parameter,
 empty range

---
 src/ossia/network/oscquery/detail/json_reader_detail.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ossia/network/oscquery/detail/json_reader_detail.cpp b/src/ossia/network/oscquery/detail/json_reader_detail.cpp
index 3a1296d..fb02df1 100644
--- a/src/ossia/network/oscquery/detail/json_reader_detail.cpp
+++ b/src/ossia/network/oscquery/detail/json_reader_detail.cpp
@@ -287,7 +287,11 @@ bool json_parser_impl::ReadValue(
   }
   else if (val.IsArray())
   {
-    auto t = node.get_parameter()->get_value_type();
+    auto p = node.get_parameter();
+    if (!p)
+      return false;
+
+    auto t = p->get_value_type();
     switch (t)
     {
       case ossia::val_type::VEC2F:
@@ -348,6 +352,9 @@ bool json_parser_impl::ReadValue(
 
       default:
       {
+        if (val.GetArray().Empty())
+          return false;
+
         const rapidjson::Value& elt = *val.GetArray().Begin();
         if (elt.IsObject())
         {
-- 
2.43.0


From 77a9cbab83dd5a7bd985ed479085ff52bb791c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:29 +0000
Subject: [PATCH 112/142] fix: OSCQuery PATH_REMOVED of the root, PATH_ADDED
 without a path

---
 src/ossia/network/oscquery/detail/json_reader_detail.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ossia/network/oscquery/detail/json_reader_detail.cpp b/src/ossia/network/oscquery/detail/json_reader_detail.cpp
index fb02df1..2a641aa 100644
--- a/src/ossia/network/oscquery/detail/json_reader_detail.cpp
+++ b/src/ossia/network/oscquery/detail/json_reader_detail.cpp
@@ -1143,6 +1143,8 @@ void json_parser::parse_path_added(
   // TODO potential race condition there,
   // if the node is created in-between the if / else
   auto opt_str = splitParentChild(full_path);
+  if (!opt_str)
+    return;
   auto& s = *opt_str;
 
   if (auto parent = ossia::net::find_node(root, s.first))
@@ -1185,9 +1187,9 @@ void json_parser::parse_path_removed(
       {
         ossia::net::set_zombie(*node, true);
       }
-      else
+      else if (auto parent = node->get_parent())
       {
-        node->get_parent()->remove_child(*node);
+        parent->remove_child(*node);
       }
     }
   }
-- 
2.43.0


From def8e3cc8ac25461dfe9ecdc07532ba6a02ab863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:08 +0000
Subject: [PATCH 113/142] fix: OSCQuery nodes with an empty type tag

---
 src/ossia/network/oscquery/detail/json_reader_detail.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ossia/network/oscquery/detail/json_reader_detail.cpp b/src/ossia/network/oscquery/detail/json_reader_detail.cpp
index 2a641aa..fc61f94 100644
--- a/src/ossia/network/oscquery/detail/json_reader_detail.cpp
+++ b/src/ossia/network/oscquery/detail/json_reader_detail.cpp
@@ -750,9 +750,10 @@ void json_parser_impl::readParameter(
   bool has_typetag = false;
   if (type_it != obj.MemberEnd())
   {
-    has_typetag = true;
     typetag = get_string_view(type_it->value);
     val_type = get_type_from_osc_typetag(typetag);
+    // The typetag of an empty list gives no type
+    has_typetag = bool(val_type);
   }
 
   // Look for the unit
-- 
2.43.0


From b244823c79fda91c2224051222c2e0f62b058efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:51 +0000
Subject: [PATCH 114/142] fix: read out of bounds when publishing the range of
 a list

---
 src/ossia/network/oscquery/detail/domain_to_json.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ossia/network/oscquery/detail/domain_to_json.hpp b/src/ossia/network/oscquery/detail/domain_to_json.hpp
index d0d2b8c..05f69c7 100644
--- a/src/ossia/network/oscquery/detail/domain_to_json.hpp
+++ b/src/ossia/network/oscquery/detail/domain_to_json.hpp
@@ -152,13 +152,13 @@ struct domain_to_json
             || (max_count > i && dom.max[i].valid()))
         {
           writer.StartObject();
-          if (dom.min[i].valid())
+          if (min_count > i && dom.min[i].valid())
           {
             writer.Key("MIN");
             write_json(writer, dom.min[i]);
           }
 
-          if (dom.max[i].valid())
+          if (max_count > i && dom.max[i].valid())
           {
             writer.Key("MAX");
             write_json(writer, dom.max[i]);
-- 
2.43.0


From 8441ea6868d582f927ab239ddf0b2657e3a75cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:37 +0000
Subject: [PATCH 115/142] fix: the name of an OSCQuery server is not read from
 its host info

---
 src/ossia/network/oscquery/detail/json_reader_detail.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ossia/network/oscquery/detail/json_reader_detail.cpp b/src/ossia/network/oscquery/detail/json_reader_detail.cpp
index fc61f94..d79ea73 100644
--- a/src/ossia/network/oscquery/detail/json_reader_detail.cpp
+++ b/src/ossia/network/oscquery/detail/json_reader_detail.cpp
@@ -1000,6 +1000,11 @@ host_info json_parser::parse_host_info(const rapidjson::Value& doc)
 {
   host_info info;
 
+  if (auto name = doc.FindMember("NAME"); name != doc.MemberEnd())
+  {
+    if (name->value.IsString())
+      info.name = std::string(name->value.GetString());
+  }
   if (auto osc_ip = doc.FindMember("OSC_IP"); osc_ip != doc.MemberEnd())
   {
     if (osc_ip->value.IsString())
-- 
2.43.0


From 0c85cc9b90a6f6c0ab0209e3bfd6f1d5246008d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:37 +0000
Subject: [PATCH 116/142] fix: OSCQuery clients lose their sender port when the
 list of clients changes

---
 src/ossia/network/oscquery/oscquery_client.hpp        | 2 ++
 src/ossia/protocols/oscquery/oscquery_client_asio.hpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/ossia/network/oscquery/oscquery_client.hpp b/src/ossia/network/oscquery/oscquery_client.hpp
index dab5e7f..b7a96a8 100644
--- a/src/ossia/network/oscquery/oscquery_client.hpp
+++ b/src/ossia/network/oscquery/oscquery_client.hpp
@@ -37,6 +37,7 @@ public:
       , listening{std::move(other.listening)}
       , client_ip{std::move(other.client_ip)}
       , sender{std::move(other.sender)}
+      , remote_sender_port{other.remote_sender_port}
   {
     // FIXME http://stackoverflow.com/a/29988626/1495627
   }
@@ -47,6 +48,7 @@ public:
     listening = std::move(other.listening);
     client_ip = std::move(other.client_ip);
     sender = std::move(other.sender);
+    remote_sender_port = other.remote_sender_port;
     return *this;
   }
 
diff --git a/src/ossia/protocols/oscquery/oscquery_client_asio.hpp b/src/ossia/protocols/oscquery/oscquery_client_asio.hpp
index a8f2a62..1a22329 100644
--- a/src/ossia/protocols/oscquery/oscquery_client_asio.hpp
+++ b/src/ossia/protocols/oscquery/oscquery_client_asio.hpp
@@ -28,6 +28,7 @@ public:
       , listening{std::move(other.listening)}
       , client_ip{std::move(other.client_ip)}
       , osc_socket{std::move(other.osc_socket)}
+      , remote_sender_port{other.remote_sender_port}
   {
     // FIXME http://stackoverflow.com/a/29988626/1495627
   }
@@ -38,6 +39,7 @@ public:
     listening = std::move(other.listening);
     client_ip = std::move(other.client_ip);
     osc_socket = std::move(other.osc_socket);
+    remote_sender_port = other.remote_sender_port;
     return *this;
   }
 
-- 
2.43.0


From 354243df0948458a0b159e61cbf31101ce2112d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:37 +0000
Subject: [PATCH 117/142] fix: OSCQuery server echoes critical messages to the
 client which sent them

---
 .../network/oscquery/oscquery_server.cpp      | 38 ++++++++++---------
 .../network/oscquery/oscquery_server.hpp      |  1 +
 2 files changed, 22 insertions(+), 17 deletions(-)

diff --git a/src/ossia/network/oscquery/oscquery_server.cpp b/src/ossia/network/oscquery/oscquery_server.cpp
index 578291d..e20c49c 100644
--- a/src/ossia/network/oscquery/oscquery_server.cpp
+++ b/src/ossia/network/oscquery/oscquery_server.cpp
@@ -553,11 +553,12 @@ void oscquery_server_protocol::rename_node(
 void oscquery_server_protocol::on_OSCMessage(
     const oscpack::ReceivedMessage& m, oscpack::IpEndpointName ip) try
 {
-  auto id = ossia::net::message_origin_identifier{*this, client_identifier(m_clients, ip)};
-  ossia::net::on_input_message<true>(
-        m.AddressPattern(),
-        ossia::net::osc_message_applier{id, m},
-        m_listening, *m_device, m_logger);
+  uintptr_t client{};
+  {
+    lock_t lock(m_clientsMutex);
+    client = client_identifier(m_clients, ip);
+  }
+  on_OSCMessage(m, client);
 }
 catch (const std::exception& e)
 {
@@ -568,6 +569,16 @@ catch (...)
   logger().error("oscquery_server_protocol::on_OSCMessage: error.");
 }
 
+void oscquery_server_protocol::on_OSCMessage(
+    const oscpack::ReceivedMessage& m, uintptr_t client)
+{
+  auto id = ossia::net::message_origin_identifier{*this, client};
+  ossia::net::on_input_message<true>(
+        m.AddressPattern(),
+        ossia::net::osc_message_applier{id, m},
+        m_listening, *m_device, m_logger);
+}
+
 void oscquery_server_protocol::on_connectionOpen(
     const connection_handler& hdl) try
 {
@@ -780,20 +791,13 @@ ossia::net::server_reply oscquery_server_protocol::on_BinaryWSrequest(
     const oscquery_server_protocol::connection_handler& hdl,
     const std::string& message)
 {
+  // The sender is the client at the other end of the connection
   auto handler
-      = [this](const oscpack::ReceivedMessage& m,
-            const oscpack::IpEndpointName& ip) { this->on_OSCMessage(m, ip); };
+      = [this, client = (uintptr_t)hdl.lock().get()](
+            const oscpack::ReceivedMessage& m,
+            const oscpack::IpEndpointName&) { this->on_OSCMessage(m, client); };
   osc::listener<decltype(handler)> h{handler};
-  auto clt = find_client(hdl);
-  if (clt)
-  {
-    // TODO use proper ip / port
-    h.ProcessPacket(message.data(), message.size(), {});
-  }
-  else
-  {
-    h.ProcessPacket(message.data(), message.size(), {});
-  }
+  h.ProcessPacket(message.data(), message.size(), {});
 
   return {};
 }
diff --git a/src/ossia/network/oscquery/oscquery_server.hpp b/src/ossia/network/oscquery/oscquery_server.hpp
index 99e1f1e..d1989bb 100644
--- a/src/ossia/network/oscquery/oscquery_server.hpp
+++ b/src/ossia/network/oscquery/oscquery_server.hpp
@@ -90,6 +90,7 @@ private:
   // OSC callback
   void
   on_OSCMessage(const oscpack::ReceivedMessage& m, oscpack::IpEndpointName ip);
+  void on_OSCMessage(const oscpack::ReceivedMessage& m, uintptr_t client);
 
   // Websocket callbacks
   void on_connectionOpen(const connection_handler& hdl);
-- 
2.43.0


From e732672f236c59cae065d0ce1d86ac42fdb7b588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:37 +0000
Subject: [PATCH 118/142] fix: OSCQuery mirror cannot reconnect

---
 src/ossia/network/oscquery/oscquery_mirror.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ossia/network/oscquery/oscquery_mirror.cpp b/src/ossia/network/oscquery/oscquery_mirror.cpp
index e61e2bf..598880b 100644
--- a/src/ossia/network/oscquery/oscquery_mirror.cpp
+++ b/src/ossia/network/oscquery/oscquery_mirror.cpp
@@ -552,6 +552,7 @@ host_info oscquery_mirror_protocol::get_host_info() const noexcept
 
 void oscquery_mirror_protocol::connect()
 {
+  stop();
   init();
 }
 
@@ -630,6 +631,7 @@ void oscquery_mirror_protocol::init()
 
 void oscquery_mirror_protocol::start_http()
 {
+  m_http->context.restart();
   m_http->worker = std::make_shared<boost::asio::io_service::work>(m_http->context);
   m_http->thread = std::thread([this] { m_http->context.run(); });
 }
-- 
2.43.0


From 9255b4869a9872ee52090119f63f07281fe52e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:37 +0000
Subject: [PATCH 119/142] fix: HTTP errors are not reported

---
 src/ossia/network/http/http_client.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ossia/network/http/http_client.hpp b/src/ossia/network/http/http_client.hpp
index 7d2593b..56e4603 100644
--- a/src/ossia/network/http/http_client.hpp
+++ b/src/ossia/network/http/http_client.hpp
@@ -136,11 +136,13 @@ private:
       if (!response_stream || http_version.substr(0, 5) != "HTTP/")
       {
         ossia::logger().error("HTTP Error: Invalid response");
+        m_err(*this);
         return;
       }
       if (status_code != 200)
       {
         ossia::logger().error("HTTP Error: status code {}", status_code);
+        m_err(*this);
         return;
       }
 
-- 
2.43.0


From 4f317fe8ce75e7e7572399ffac1316dc430c6aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:45 +0000
Subject: [PATCH 120/142] fix: an unanswered OSCQuery value request misdirects
 the next answers

---
 .../network/oscquery/oscquery_mirror.cpp      | 57 ++++++++++++-------
 .../network/oscquery/oscquery_mirror.hpp      | 26 +++------
 2 files changed, 44 insertions(+), 39 deletions(-)

diff --git a/src/ossia/network/oscquery/oscquery_mirror.cpp b/src/ossia/network/oscquery/oscquery_mirror.cpp
index 598880b..a4561f0 100644
--- a/src/ossia/network/oscquery/oscquery_mirror.cpp
+++ b/src/ossia/network/oscquery/oscquery_mirror.cpp
@@ -26,11 +26,12 @@ namespace oscquery
 struct http_answer
 {
   oscquery_mirror_protocol& self;
+  std::shared_ptr<oscquery_mirror_protocol::value_request> value{};
 
   template <typename T, typename S>
   void operator()(T& req, const S& str)
   {
-    if (self.on_WSMessage({}, str))
+    if (self.on_WSMessage({}, str, value.get()))
     {
       req.close();
     }
@@ -176,6 +177,17 @@ void oscquery_mirror_protocol::http_send_message(
   hrq->resolve(m_httpHost, m_queryPort);
 }
 
+void oscquery_mirror_protocol::http_request_value(
+    std::shared_ptr<value_request> value)
+{
+  auto text = value->address;
+  text += detail::query_value();
+  auto hrq = std::make_shared<http_request>(
+      http_answer{*this, std::move(value)}, http_error{}, m_http->context,
+      m_httpHost, text);
+  hrq->resolve(m_httpHost, m_queryPort);
+}
+
 void oscquery_mirror_protocol::ws_send_message(const std::string& str)
 {
   if (m_hasWS)
@@ -230,32 +242,36 @@ bool oscquery_mirror_protocol::pull(net::parameter_base& address)
       "Time taken: {}",
       std::chrono::duration_cast<std::chrono::microseconds>(t2 - t1).count());
 #endif
-  return status == std::future_status::ready;
+  if (status != std::future_status::ready)
+    return false;
+
+  try
+  {
+    fut.get();
+    return true;
+  }
+  catch (const std::future_error&)
+  {
+    // The server had no answer
+    return false;
+  }
 }
 
 std::future<void>
 oscquery_mirror_protocol::pull_async(net::parameter_base& address)
 {
-  std::promise<void> promise;
-  auto fut = promise.get_future();
-  auto text = address.get_node().osc_address();
-  m_getWSPromises.enqueue(get_ws_promise{std::move(promise), text});
-  /*
-  m_getOSCPromises.insert(
-        std::make_pair(
-          address.get_node().osc_address(),
-          get_promise{std::move(promise), &address}));
-  */
-  text += detail::query_value();
-  http_send_message(text);
+  auto value = std::make_shared<value_request>();
+  value->address = address.get_node().osc_address();
+  auto fut = value->promise.get_future();
+  http_request_value(std::move(value));
   return fut;
 }
 
 void oscquery_mirror_protocol::request(net::parameter_base& address)
 {
-  auto text = address.get_node().osc_address();
-  text += detail::query_value();
-  http_send_message(text);
+  auto value = std::make_shared<value_request>();
+  value->address = address.get_node().osc_address();
+  http_request_value(std::move(value));
 }
 
 bool oscquery_mirror_protocol::push(const net::parameter_base& addr, const ossia::value& v)
@@ -686,7 +702,8 @@ std::string to_ip(std::string uri)
 }
 
 bool oscquery_mirror_protocol::on_WSMessage(
-    oscquery_mirror_protocol::connection_handler, const std::string& message)
+    oscquery_mirror_protocol::connection_handler, const std::string& message,
+    value_request* request)
 {
 #if defined(OSSIA_BENCHMARK)
   auto t1 = std::chrono::high_resolution_clock::now();
@@ -753,9 +770,9 @@ bool oscquery_mirror_protocol::on_WSMessage(
         case message_type::Value:
         {
           // TODO instead just put full path in reply ?
-          get_ws_promise p;
-          if (m_getWSPromises.try_dequeue(p))
+          if (request)
           {
+            auto& p = *request;
             auto node
                 = ossia::net::find_node(m_device->get_root_node(), p.address);
 
diff --git a/src/ossia/network/oscquery/oscquery_mirror.hpp b/src/ossia/network/oscquery/oscquery_mirror.hpp
index adf1463..14ae1f2 100644
--- a/src/ossia/network/oscquery/oscquery_mirror.hpp
+++ b/src/ossia/network/oscquery/oscquery_mirror.hpp
@@ -130,7 +130,10 @@ private:
 
   void init();
   using connection_handler = std::weak_ptr<void>;
-  bool on_WSMessage(connection_handler hdl, const std::string& message);
+  struct value_request;
+  bool on_WSMessage(
+      connection_handler hdl, const std::string& message,
+      value_request* request = nullptr);
   bool on_BinaryWSMessage(connection_handler hdl, const std::string& message);
   void on_OSCMessage(
       const oscpack::ReceivedMessage& m, const oscpack::IpEndpointName& ip);
@@ -139,6 +142,7 @@ private:
 
   void http_send_message(const std::string& str);
   void http_send_message(const rapidjson::StringBuffer& str);
+  void http_request_value(std::shared_ptr<value_request> value);
 
   void ws_send_message(const std::string& str);
   void ws_send_binary_message(const std::string& str);
@@ -164,29 +168,13 @@ private:
 
   std::promise<void> m_namespacePromise;
 
-  struct get_osc_promise
+  // A value that was asked to the server
+  struct value_request
   {
-    std::promise<void> promise;
-    ossia::net::parameter_base* address{};
-  };
-  struct get_ws_promise
-  {
-    get_ws_promise() = default;
-    get_ws_promise(const get_ws_promise&) = delete;
-    get_ws_promise(get_ws_promise&&) noexcept = default;
-    get_ws_promise& operator=(const get_ws_promise&) = delete;
-    get_ws_promise& operator=(get_ws_promise&&) noexcept = default;
-
-    get_ws_promise(std::promise<void>&& p, const std::string& addr)
-        : promise{std::move(p)}, address{addr}
-    {
-    }
     std::promise<void> promise;
     std::string address{};
   };
-  using promises_map = locked_map<string_map<get_osc_promise>>;
 
-  ossia::spsc_queue<get_ws_promise> m_getWSPromises;
   ossia::spsc_queue<std::function<void()>> m_functionQueue;
   std::function<void()> m_commandCallback;
 
-- 
2.43.0


From df26b01b3621d700bdb006425c263034211fa060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:39 +0000
Subject: [PATCH 121/142] fix: renaming a node loses the observers of what is
 below it

---
 src/ossia/network/generic/generic_node.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/ossia/network/generic/generic_node.cpp b/src/ossia/network/generic/generic_node.cpp
index eb2dc19..f8e9eb0 100644
--- a/src/ossia/network/generic/generic_node.cpp
+++ b/src/ossia/network/generic/generic_node.cpp
@@ -5,6 +5,7 @@
 #include <ossia/network/generic/generic_node.hpp>
 #include <ossia/network/generic/generic_parameter.hpp>
 #include <ossia/network/base/osc_address.hpp>
+#include <ossia/network/common/node_visitor.hpp>
 #include <ossia/network/value/value.hpp>
 
 #include <boost/algorithm/string/replace.hpp>
@@ -50,8 +51,20 @@ void generic_node_base::on_address_change()
   }
 }
 
+// The protocols know the observed parameters by their address
+static void observe_all(node_base& node, protocol_base& proto, bool enable)
+{
+  visit_parameters(node, [&](node_base&, parameter_base& p) {
+    if (p.callback_count() > 0)
+      proto.observe(p, enable);
+  });
+}
+
 node_base& generic_node_base::set_name(std::string name)
 {
+  if (m_parent)
+    observe_all(*this, m_device.get_protocol(), false);
+
   auto old_name = std::move(m_name);
   if (m_parent)
   {
@@ -66,6 +79,9 @@ node_base& generic_node_base::set_name(std::string name)
   }
   on_address_change();
 
+  if (m_parent)
+    observe_all(*this, m_device.get_protocol(), true);
+
   // notify observers
   m_device.on_node_renamed(*this, old_name);
 
-- 
2.43.0


From 8b7eef20cbdd7473e4a3caef3000f80208151623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:46 +0000
Subject: [PATCH 122/142] fix: presets with short lists of mixed values cannot
 be loaded

---
 src/ossia/preset/preset.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ossia/preset/preset.cpp b/src/ossia/preset/preset.cpp
index c7c7f30..544999e 100644
--- a/src/ossia/preset/preset.cpp
+++ b/src/ossia/preset/preset.cpp
@@ -451,21 +451,21 @@ ossia::value json_to_ossia_value(const rapidjson::Value& value)
       switch (N)
       {
         case 2:
-          if (value[0].IsDouble() && value[1].GetDouble())
+          if (value[0].IsDouble() && value[1].IsDouble())
             return ossia::make_vec(value[0].GetDouble(), value[1].GetDouble());
           else
             return handle_vec(value);
         case 3:
-          if (value[0].IsDouble() && value[1].GetDouble()
-              && value[2].GetDouble())
+          if (value[0].IsDouble() && value[1].IsDouble()
+              && value[2].IsDouble())
             return ossia::make_vec(
                 value[0].GetDouble(), value[1].GetDouble(),
                 value[2].GetDouble());
           else
             return handle_vec(value);
         case 4:
-          if (value[0].IsDouble() && value[1].GetDouble()
-              && value[2].GetDouble() && value[3].GetDouble())
+          if (value[0].IsDouble() && value[1].IsDouble()
+              && value[2].IsDouble() && value[3].IsDouble())
             return ossia::make_vec(
                 value[0].GetDouble(), value[1].GetDouble(),
                 value[2].GetDouble(), value[3].GetDouble());
-- 
2.43.0


From b4489a714c8b4e03fbefab253d6d63701642a6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:46 +0000
Subject: [PATCH 123/142] fix: strings of a preset are cut at their first null
 character

---
 src/ossia/preset/preset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/preset/preset.cpp b/src/ossia/preset/preset.cpp
index 544999e..888a963 100644
--- a/src/ossia/preset/preset.cpp
+++ b/src/ossia/preset/preset.cpp
@@ -434,7 +434,7 @@ ossia::value json_to_ossia_value(const rapidjson::Value& value)
       }
       break;
     case rapidjson::kStringType:
-      val = std::string(value.GetString());
+      val = std::string(value.GetString(), value.GetStringLength());
       break;
     case rapidjson::kArrayType:
     {
-- 
2.43.0


From 0e2fbf0c40ac38e59b434f3fa2c2c0f164ef95a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:46 +0000
Subject: [PATCH 124/142] fix: a preset applied on a node without parameter
 crashes

---
 src/ossia/preset/preset.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ossia/preset/preset.cpp b/src/ossia/preset/preset.cpp
index 888a963..ee67b94 100644
--- a/src/ossia/preset/preset.cpp
+++ b/src/ossia/preset/preset.cpp
@@ -1139,9 +1139,15 @@ void apply_preset_node(
       throw(ossia::ossiaException_InvalidAddress(
           __LINE__, __FILE__, details.c_str()));
     }
+    else if (auto param = root.get_parameter())
+    {
+      param->push_value(val);
+    }
     else
     {
-      root.get_parameter()->push_value(val);
+      std::string details = "Node " + root.get_name() + " has no parameter";
+      throw(ossia::ossiaException_InvalidAddress(
+          __LINE__, __FILE__, details.c_str()));
     }
   }
   else
-- 
2.43.0


From d364da7422383c238614def44128cee320ca5a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:46 +0000
Subject: [PATCH 125/142] fix: a preset for the first instance of a node
 changes other nodes

---
 src/ossia/preset/preset.cpp | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/src/ossia/preset/preset.cpp b/src/ossia/preset/preset.cpp
index ee67b94..ec9298d 100644
--- a/src/ossia/preset/preset.cpp
+++ b/src/ossia/preset/preset.cpp
@@ -1155,7 +1155,7 @@ void apply_preset_node(
     // TODO this is slow. Either use the last (fast) or use a list (less slow).
     std::string currentkey = preset_to_device_key(keys[0]);
     keys.erase(keys.begin());
-    bool child_exists = false;
+    ossia::net::node_base* existing_child = nullptr;
 
     for (auto& child : root.children())
     {
@@ -1169,27 +1169,24 @@ void apply_preset_node(
         const std::string childName = child->get_name();
         if (currentkey == childName)
         {
-          child_exists = true;
-          apply_preset_node(
-              *child, keys, val, keeparch, created_nodes, allow_nonterminal);
+          existing_child = child.get();
+          break;
         }
-        else
+        else if (currentkey == childName + ".0")
         {
-          // Case of the 'bar.0' / 'bar'.
-          const auto N = currentkey.size();
-          if ((childName.size() == (N - 2)) && currentkey[N - 2] == '.'
-              && currentkey[N - 1] == '0')
-          {
-            currentkey.resize(currentkey.size() - 2);
-            child_exists = true;
-            apply_preset_node(
-                *child, keys, val, keeparch, created_nodes, allow_nonterminal);
-          }
+          // Case of the 'bar.0' / 'bar', if there is no 'bar.0'.
+          existing_child = child.get();
         }
       }
     }
 
-    if (!child_exists)
+    if (existing_child)
+    {
+      apply_preset_node(
+          *existing_child, keys, val, keeparch, created_nodes,
+          allow_nonterminal);
+    }
+    else
     {
       if (keeparch == ossia::presets::keep_arch_on)
       {
-- 
2.43.0


From e11addd896ce55274a1bb88eeafe247e7df21e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:50 +0000
Subject: [PATCH 126/142] fix: presets::get_node returns a node of another
 address

---
 src/ossia/preset/preset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/preset/preset.cpp b/src/ossia/preset/preset.cpp
index ec9298d..fe29d81 100644
--- a/src/ossia/preset/preset.cpp
+++ b/src/ossia/preset/preset.cpp
@@ -1303,7 +1303,7 @@ ossia::presets::preset ossia::presets::make_preset(ossia::net::node_base& node)
 }
 
 ossia::net::node_base*
-get_node_node(ossia::net::node_base& root, std::vector<std::string>& keys)
+get_node_node(ossia::net::node_base& root, std::vector<std::string> keys)
 {
   ossia::net::node_base* res = nullptr;
 
-- 
2.43.0


From 668747f04bf3ed6a2a7227c87d5c7027636fab48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:50 +0000
Subject: [PATCH 127/142] fix: the preset of a node with both a value and
 children cannot be written

---
 src/ossia/preset/preset.cpp | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/ossia/preset/preset.cpp b/src/ossia/preset/preset.cpp
index fe29d81..57b9594 100644
--- a/src/ossia/preset/preset.cpp
+++ b/src/ossia/preset/preset.cpp
@@ -692,6 +692,22 @@ void insert_array(
   }
 }
 
+// A node can have both a value and children : they are two members of the same
+// name.
+static rapidjson::Value* find_json_member(
+    rapidjson::Value& recipient, const std::string& key, bool is_object)
+{
+  for (auto it = recipient.MemberBegin(); it != recipient.MemberEnd(); ++it)
+  {
+    if (it->value.IsObject() == is_object
+        && key
+               == ossia::string_view(
+                   it->name.GetString(), it->name.GetStringLength()))
+      return &it->value;
+  }
+  return nullptr;
+}
+
 template <typename Alloc>
 void insert(
     rapidjson::Value& recipient, const std::vector<std::string>& keys,
@@ -736,28 +752,30 @@ void insert(
       if (keys.size() == 1)
       {
         rapidjson::Value v = ossia_to_json_value(val, alloc);
-        if (!recipient.HasMember(currentkey))
+        if (auto member = find_json_member(recipient, currentkey, false))
         {
-          rapidjson::Value name(rapidjson::kStringType);
-          name.SetString(currentkey, alloc);
-          recipient.AddMember(name, v, alloc);
+          member->Swap(v);
         }
         else
         {
-          recipient[currentkey].Swap(v);
+          rapidjson::Value name(rapidjson::kStringType);
+          name.SetString(currentkey, alloc);
+          recipient.AddMember(name, v, alloc);
         }
       }
 
       else
       {
-        if (!recipient.HasMember(currentkey))
+        auto member = find_json_member(recipient, currentkey, true);
+        if (!member)
         {
           rapidjson::Value node(rapidjson::kObjectType);
           rapidjson::Value name(rapidjson::kStringType);
           name.SetString(currentkey, alloc);
           recipient.AddMember(name, node, alloc);
+          member = find_json_member(recipient, currentkey, true);
         }
-        insert(recipient[currentkey], newkeys, val, alloc);
+        insert(*member, newkeys, val, alloc);
       }
     }
   }
-- 
2.43.0


From 1a61ed51ef36790f18aaa190a40bf75a6bccafe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:49 +0000
Subject: [PATCH 128/142] fix: a flattened state cannot be merged after a
 message on the same parameter

---
 .../state/detail/state_flatten_visitor.hpp    | 50 ++++++++++++++++---
 1 file changed, 42 insertions(+), 8 deletions(-)

diff --git a/src/ossia/editor/state/detail/state_flatten_visitor.hpp b/src/ossia/editor/state/detail/state_flatten_visitor.hpp
index 3506f93..2cbfffd 100644
--- a/src/ossia/editor/state/detail/state_flatten_visitor.hpp
+++ b/src/ossia/editor/state/detail/state_flatten_visitor.hpp
@@ -446,6 +446,48 @@ struct state_flatten_visitor_merger
     }
   }
 
+  template <std::size_t N>
+  void operator()(message& existing, const piecewise_vec_message<N>& incoming)
+  {
+    auto vec = existing.message_value.template target<std::array<float, N>>();
+    if (existing.dest.index.empty())
+    {
+      if (!vec)
+        throw std::runtime_error(
+            "state_flatten_visitor_merger: "
+            "impossible case (message <- const piecewise_vec_message&");
+
+      // The message sets everything, it just has to be updated
+      for (std::size_t i = 0; i < N; i++)
+      {
+        if (incoming.used_values.test(i))
+          (*vec)[i] = incoming.message_value[i];
+      }
+    }
+    else
+    {
+      // The component set by the message is kept if it is not set again
+      piecewise_vec_message<N> other = incoming;
+      const auto i = existing.dest.index[0];
+      if (i < (int64_t)N && !other.used_values.test(i))
+      {
+        if (vec)
+        {
+          other.message_value[i] = (*vec)[i];
+          other.used_values.set(i);
+        }
+        else if (auto f = existing.message_value.template target<float>())
+        {
+          other.message_value[i] = *f;
+          other.used_values.set(i);
+        }
+      }
+
+      state.remove(existing_it);
+      state.add(std::move(other));
+    }
+  }
+
   //// R-value reference overloads
   //// Message incoming
   void operator()(message& existing, message&& incoming)
@@ -584,14 +626,6 @@ struct state_flatten_visitor_merger
         "impossible case (state <- *");
   }
 
-  template <std::size_t M>
-  void operator()(message& existing, const piecewise_vec_message<M>& incoming)
-  {
-    throw std::runtime_error(
-        "state_flatten_visitor_merger: "
-        "impossible case (message <- const piecewise_vec_message&");
-  }
-
   template <std::size_t M>
   void operator()(
       piecewise_message& existing, const piecewise_vec_message<M>& incoming)
-- 
2.43.0


From cdad11fe87793b278c3eef0c3cf086b5d50867a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:38 +0000
Subject: [PATCH 129/142] fix: the step size of integers is missing from the
 description of a device

---
 src/ossia/preset/preset.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/ossia/preset/preset.cpp b/src/ossia/preset/preset.cpp
index 57b9594..6a93e46 100644
--- a/src/ossia/preset/preset.cpp
+++ b/src/ossia/preset/preset.cpp
@@ -932,9 +932,7 @@ export_nodes_to_json(const ossia::net::node_base& node, rapidjson::Document& d)
         }
 
         // append step size attribute
-        auto valueStepSize
-            = ossia::get_optional_attribute<ossia::net::value_step_size>(
-                node, "valueStepSize");
+        auto valueStepSize = ossia::net::get_value_step_size(node);
         if (valueStepSize)
         {
           v.AddMember("valueStepSize", *valueStepSize, alloc);
-- 
2.43.0


From 4180c3dfe0eeb44c712fb26110c2fd8a93249bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:49 +0000
Subject: [PATCH 130/142] fix: MIDI input calls parameters which were removed

midi_protocol::observe ignored requests to stop the observation.
---
 src/ossia/protocols/midi/midi_protocol.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ossia/protocols/midi/midi_protocol.cpp b/src/ossia/protocols/midi/midi_protocol.cpp
index 5a1669c..08a7f5e 100644
--- a/src/ossia/protocols/midi/midi_protocol.cpp
+++ b/src/ossia/protocols/midi/midi_protocol.cpp
@@ -294,9 +294,9 @@ bool midi_protocol::push_raw(const full_parameter_data& parameter_base)
 
 bool midi_protocol::observe(parameter_base& address, bool enable)
 {
-  enable = true;
   midi_parameter& adrs = dynamic_cast<midi_parameter&>(address);
-  if (m_info.type != midi_info::Type::Input)
+  // Observation may always be stopped: the parameter could be going away
+  if (enable && m_info.type != midi_info::Type::Input)
     return false;
 
   auto adrs_ptr = &adrs;
-- 
2.43.0


From 04cf8000e34b743c9a6233476aa106468db0320c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:49 +0000
Subject: [PATCH 131/142] fix: MIDI parameters of a whole channel never receive
 anything

Only the parameters of a given note, control or program could be observed.
---
 src/ossia/protocols/midi/midi_protocol.cpp | 29 +++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/ossia/protocols/midi/midi_protocol.cpp b/src/ossia/protocols/midi/midi_protocol.cpp
index 08a7f5e..38f7d83 100644
--- a/src/ossia/protocols/midi/midi_protocol.cpp
+++ b/src/ossia/protocols/midi/midi_protocol.cpp
@@ -303,6 +303,34 @@ bool midi_protocol::observe(parameter_base& address, bool enable)
   auto& adrinfo = adrs.info();
   switch (adrinfo.type)
   {
+    case address_info::Type::NoteOn:
+    {
+      midi_channel& chan = m_channels[adrinfo.channel - 1];
+      chan.callback_note_on = enable ? adrs_ptr : nullptr;
+      return true;
+    }
+
+    case address_info::Type::NoteOff:
+    {
+      midi_channel& chan = m_channels[adrinfo.channel - 1];
+      chan.callback_note_off = enable ? adrs_ptr : nullptr;
+      return true;
+    }
+
+    case address_info::Type::CC:
+    {
+      midi_channel& chan = m_channels[adrinfo.channel - 1];
+      chan.callback_cc = enable ? adrs_ptr : nullptr;
+      return true;
+    }
+
+    case address_info::Type::PC:
+    {
+      midi_channel& chan = m_channels[adrinfo.channel - 1];
+      chan.callback_pc = enable ? adrs_ptr : nullptr;
+      return true;
+    }
+
     case address_info::Type::NoteOn_N:
     {
       midi_channel& chan = m_channels[adrinfo.channel - 1];
@@ -338,7 +366,6 @@ bool midi_protocol::observe(parameter_base& address, bool enable)
     }
 
     default:
-      // TODO do the non-N version
       return false;
   }
 
-- 
2.43.0


From 2b1e2f6dc8c005f0aafd5d58a8dc87a2158629b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:12 +0000
Subject: [PATCH 132/142] fix: short or malformed MIDI messages are read out of
 bounds

---
 src/ossia/protocols/midi/midi_protocol.cpp | 36 +++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/src/ossia/protocols/midi/midi_protocol.cpp b/src/ossia/protocols/midi/midi_protocol.cpp
index 38f7d83..9fa953a 100644
--- a/src/ossia/protocols/midi/midi_protocol.cpp
+++ b/src/ossia/protocols/midi/midi_protocol.cpp
@@ -388,13 +388,47 @@ void midi_protocol::value_callback(parameter_base& param, const value& val)
   m_dev->on_message(param);
 }
 
+//! The channel messages we handle: complete, and with 7-bit data
+static bool valid_channel_message(const libremidi::message& mess)
+{
+  std::size_t size = 0;
+  switch (mess.get_message_type())
+  {
+    case libremidi::message_type::NOTE_ON:
+    case libremidi::message_type::NOTE_OFF:
+    case libremidi::message_type::CONTROL_CHANGE:
+    case libremidi::message_type::PITCH_BEND:
+      size = 3;
+      break;
+    case libremidi::message_type::PROGRAM_CHANGE:
+      size = 2;
+      break;
+    default:
+      return true;
+  }
+
+  if (mess.bytes.size() < size)
+    return false;
+  for (std::size_t i = 1; i < size; i++)
+    if (mess.bytes[i] > 127)
+      return false;
+  return true;
+}
+
 void midi_protocol::midi_callback(const libremidi::message& mess)
 {
+  if (mess.bytes.empty())
+    return;
+
   if(m_logger.inbound_logger)
   {
-    m_logger.inbound_logger->info("MIDI in: {0} {1} {2}", mess.bytes[0], mess.bytes[1], mess.bytes[2]);
+    const auto byte = [&] (std::size_t i) -> int { return i < mess.bytes.size() ? mess.bytes[i] : 0; };
+    m_logger.inbound_logger->info("MIDI in: {0} {1} {2}", byte(0), byte(1), byte(2));
   }
 
+  if (!valid_channel_message(mess))
+    return;
+
   if(m_learning)
   {
     on_learn(mess);
-- 
2.43.0


From 0f67c5cfa4269f19da0604fb19f6b6852c54bfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:12 +0000
Subject: [PATCH 133/142] fix: MIDI output with values of another type, out of
 range or incomplete

Values pushed to a MIDI parameter are now converted to its type like the
values which are set, short lists are not read out of bounds, and the data
bytes stay in their range.
---
 src/ossia/protocols/midi/midi_parameter.cpp | 11 ++++++--
 src/ossia/protocols/midi/midi_protocol.cpp  | 28 +++++++++++++++------
 2 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/src/ossia/protocols/midi/midi_parameter.cpp b/src/ossia/protocols/midi/midi_parameter.cpp
index 066e069..f7d886e 100644
--- a/src/ossia/protocols/midi/midi_parameter.cpp
+++ b/src/ossia/protocols/midi/midi_parameter.cpp
@@ -33,14 +33,21 @@ void midi_parameter::pull_value()
 
 parameter_base& midi_parameter::push_value(const ossia::value& val)
 {
-  m_value = val;
+  // Raw messages can only be lists
+  if (m_type == val.get_type() || m_info.type == address_info::Type::Any)
+    m_value = val;
+  else
+    m_value = ossia::convert(val, m_type);
   m_protocol.push(*this, m_value);
   return *this;
 }
 
 parameter_base& midi_parameter::push_value(ossia::value&& val)
 {
-  m_value = std::move(val);
+  if (m_type == val.get_type() || m_info.type == address_info::Type::Any)
+    m_value = std::move(val);
+  else
+    m_value = ossia::convert(std::move(val), m_type);
   m_protocol.push(*this, m_value);
   return *this;
 }
diff --git a/src/ossia/protocols/midi/midi_protocol.cpp b/src/ossia/protocols/midi/midi_protocol.cpp
index 9fa953a..b10b069 100644
--- a/src/ossia/protocols/midi/midi_protocol.cpp
+++ b/src/ossia/protocols/midi/midi_protocol.cpp
@@ -178,6 +178,12 @@ bool midi_protocol::pull(parameter_base& address)
   }
 }
 
+//! Data bytes of MIDI messages have seven bits
+static midi_size_t midi_data(const ossia::value& v)
+{
+  return ossia::clamp(ossia::convert<int32_t>(v), 0, 127);
+}
+
 bool midi_protocol::push(const parameter_base& address, const ossia::value& v)
 {
   try
@@ -192,52 +198,58 @@ bool midi_protocol::push(const parameter_base& address, const ossia::value& v)
       case address_info::Type::NoteOn_N:
       {
         m_output->send_message(libremidi::message::note_on(
-            adrinfo.channel, adrinfo.note, v.get<int32_t>()));
+            adrinfo.channel, adrinfo.note, midi_data(v)));
         return true;
       }
 
       case address_info::Type::NoteOn:
       {
         auto& val = v.get<std::vector<ossia::value>>();
+        if (val.size() < 2)
+          return false;
         m_output->send_message(libremidi::message::note_on(
-            adrinfo.channel, val[0].get<int32_t>(), val[1].get<int32_t>()));
+            adrinfo.channel, midi_data(val[0]), midi_data(val[1])));
         return true;
       }
 
       case address_info::Type::NoteOff_N:
       {
         m_output->send_message(libremidi::message::note_off(
-            adrinfo.channel, adrinfo.note, v.get<int32_t>()));
+            adrinfo.channel, adrinfo.note, midi_data(v)));
         return true;
       }
 
       case address_info::Type::NoteOff:
       {
         auto& val = v.get<std::vector<ossia::value>>();
+        if (val.size() < 2)
+          return false;
         m_output->send_message(libremidi::message::note_off(
-            adrinfo.channel, val[0].get<int32_t>(), val[1].get<int32_t>()));
+            adrinfo.channel, midi_data(val[0]), midi_data(val[1])));
         return true;
       }
 
       case address_info::Type::CC_N:
       {
         m_output->send_message(libremidi::message::control_change(
-            adrinfo.channel, adrinfo.note, v.get<int32_t>()));
+            adrinfo.channel, adrinfo.note, midi_data(v)));
         return true;
       }
 
       case address_info::Type::CC:
       {
         auto& val = v.get<std::vector<ossia::value>>();
+        if (val.size() < 2)
+          return false;
         m_output->send_message(libremidi::message::control_change(
-            adrinfo.channel, val[0].get<int32_t>(), val[1].get<int32_t>()));
+            adrinfo.channel, midi_data(val[0]), midi_data(val[1])));
         return true;
       }
 
       case address_info::Type::PC:
       {
         m_output->send_message(libremidi::message::program_change(
-            adrinfo.channel, v.get<int32_t>()));
+            adrinfo.channel, midi_data(v)));
         return true;
       }
 
@@ -257,7 +269,7 @@ bool midi_protocol::push(const parameter_base& address, const ossia::value& v)
 
       case address_info::Type::Any:
       {
-        if (auto vec = v.target<std::vector<ossia::value>>())
+        if (auto vec = v.target<std::vector<ossia::value>>(); vec && !vec->empty())
         {
           libremidi::message m;
           m.bytes.reserve(vec->size());
-- 
2.43.0


From 991755a8cdc58bc4684ba936ed4851a9d7f0cb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:30 +0000
Subject: [PATCH 134/142] fix: MIDI nodes are created with an invalid number or
 twice

A note of 128 and more reads and writes past the tables of names, values
and callbacks, and creating "64" again gave a second node of this name.
---
 src/ossia/protocols/midi/detail/midi_impl.hpp | 11 ++++-------
 src/ossia/protocols/midi/midi_device.cpp      | 11 ++++-------
 src/ossia/protocols/midi/midi_node.cpp        |  9 +++++++++
 3 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/ossia/protocols/midi/detail/midi_impl.hpp b/src/ossia/protocols/midi/detail/midi_impl.hpp
index 05f9a24..fd5d0d2 100644
--- a/src/ossia/protocols/midi/detail/midi_impl.hpp
+++ b/src/ossia/protocols/midi/detail/midi_impl.hpp
@@ -14,6 +14,9 @@ namespace ossia::net::midi
 {
 const std::string& midi_node_name(midi_size_t i);
 
+//! The opposite of midi_node_name: -1 for everything else than 0 ... 127
+int midi_node_number(ossia::string_view name);
+
 class generic_node final : public midi_node, public midi_parameter
 {
 public:
@@ -63,13 +66,7 @@ public:
 
   std::unique_ptr<node_base> make_child(const std::string& name) override
   {
-    int num = -1;
-
-    try {
-      num = std::stoi(name);
-    } catch(...) {
-    }
-
+    const int num = midi_node_number(name);
     if(num == -1)
     {
       return nullptr;
diff --git a/src/ossia/protocols/midi/midi_device.cpp b/src/ossia/protocols/midi/midi_device.cpp
index dc8b937..3cdfd00 100644
--- a/src/ossia/protocols/midi/midi_device.cpp
+++ b/src/ossia/protocols/midi/midi_device.cpp
@@ -42,13 +42,10 @@ node_base&midi_device::get_root_node()
 
 std::unique_ptr<node_base> midi_device::make_child(const std::string& name)
 {
-  try {
-    int chan = std::stoi(name);
-    if(chan >= 1 && chan <= 16)
-    {
-      return std::make_unique<channel_node>(false, chan, *this, *this);
-    }
-  } catch(...) {
+  const int chan = midi_node_number(name);
+  if(chan >= 1 && chan <= 16)
+  {
+    return std::make_unique<channel_node>(false, chan, *this, *this);
   }
 
   return nullptr;
diff --git a/src/ossia/protocols/midi/midi_node.cpp b/src/ossia/protocols/midi/midi_node.cpp
index 1cbadae..a82bc4d 100644
--- a/src/ossia/protocols/midi/midi_node.cpp
+++ b/src/ossia/protocols/midi/midi_node.cpp
@@ -67,6 +67,15 @@ bool midi_node::remove_parameter()
   return false;
 }
 
+int midi_node_number(ossia::string_view name)
+{
+  static const midi_name_table tbl;
+  for (int i = 0; i < 128; i++)
+    if (tbl.names[i] == name)
+      return i;
+  return -1;
+}
+
 std::unique_ptr<node_base> midi_node::make_child(const std::string& name)
 {
   return nullptr;
-- 
2.43.0


From 4884a6567d686ce54af0a5065a26c69c8c8afafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:59 +0000
Subject: [PATCH 135/142] fix: ossia_node_get_child reads past the last child

---
 src/ossia-c/ossia/ossia_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia-c/ossia/ossia_node.cpp b/src/ossia-c/ossia/ossia_node.cpp
index 81dff16..bdb7168 100644
--- a/src/ossia-c/ossia/ossia_node.cpp
+++ b/src/ossia-c/ossia/ossia_node.cpp
@@ -199,7 +199,7 @@ ossia_node_t ossia_node_get_child(ossia_node_t node, int child_n)
     }
 
     auto n = convert_node(node);
-    if (n->children().size() < (std::size_t)child_n)
+    if (child_n < 0 || n->children().size() <= (std::size_t)child_n)
       return nullptr;
 
     return convert(n->children()[child_n].get());
-- 
2.43.0


From 307b6e1954f78a92fe443d28d797310b820ef1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:59 +0000
Subject: [PATCH 136/142] fix: ossia_node_get_tags does not tell how many tags
 there are

The tags are also freed the way they are allocated.
---
 src/ossia-c/ossia/ossia_node.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ossia-c/ossia/ossia_node.cpp b/src/ossia-c/ossia/ossia_node.cpp
index bdb7168..bbc06b5 100644
--- a/src/ossia-c/ossia/ossia_node.cpp
+++ b/src/ossia-c/ossia/ossia_node.cpp
@@ -454,6 +454,7 @@ void ossia_node_get_tags(
   if (!node || !tags || !size)
   {
     ossia_log_error("ossia_node_get_tags: a parameter is null");
+    return;
   }
   else
   {
@@ -467,6 +468,7 @@ void ossia_node_get_tags(
         ptr[i] = copy_string(vtags[i]);
       }
       *tags = ptr;
+      *size = vtags.size();
       return;
     }
   }
@@ -478,7 +480,7 @@ void ossia_node_get_tags(
 void ossia_tags_free(char** tags, size_t size)
 {
   for(size_t i = 0; i < size; i++)
-    free(tags[i]);
+    delete[] tags[i];
   delete[] tags;
 }
 
-- 
2.43.0


From 07b4dd29836c12da327b5a8e3b38e809b2bd14f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:59 +0000
Subject: [PATCH 137/142] fix: ossia_value_convert_list writes outside of the
 list

---
 src/ossia-c/ossia/ossia_value.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia-c/ossia/ossia_value.cpp b/src/ossia-c/ossia/ossia_value.cpp
index 28a5638..aff8c37 100644
--- a/src/ossia-c/ossia/ossia_value.cpp
+++ b/src/ossia-c/ossia/ossia_value.cpp
@@ -341,7 +341,7 @@ void ossia_value_convert_list(ossia_value_t val, ossia_value_t** out, size_t* si
 
   for(size_t i = 0; i < N; i++)
   {
-    *out[i] = convert(v[i]);
+    (*out)[i] = convert(v[i]);
   }
 }
 
-- 
2.43.0


From 8794cc96649c51e8d17c61f61fb00510d8ae550a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:59 +0000
Subject: [PATCH 138/142] fix: ossia_domain_set_values sets booleans instead of
 the values

---
 src/ossia-c/ossia/ossia_domain.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia-c/ossia/ossia_domain.cpp b/src/ossia-c/ossia/ossia_domain.cpp
index 3916792..d44c9b9 100644
--- a/src/ossia-c/ossia/ossia_domain.cpp
+++ b/src/ossia-c/ossia/ossia_domain.cpp
@@ -157,7 +157,7 @@ void ossia_domain_set_values(
     v.resize(size);
     for(size_t i = 0; i < size; i++)
     {
-      v[i] = in[i];
+      v[i] = in[i]->value;
     }
     ossia::set_values(domain->domain, std::move(v));
   });
-- 
2.43.0


From 836656698d78138b56712d7eb7443a4c7cc2eb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:59 +0000
Subject: [PATCH 139/142] fix: ossia_parameter_set_listening does the opposite
 of what is asked

It also removed the same callback as often as it was called.
---
 src/ossia-c/ossia/ossia_parameter.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ossia-c/ossia/ossia_parameter.cpp b/src/ossia-c/ossia/ossia_parameter.cpp
index e89f658..c017f50 100644
--- a/src/ossia-c/ossia/ossia_parameter.cpp
+++ b/src/ossia-c/ossia/ossia_parameter.cpp
@@ -597,16 +597,19 @@ void ossia_parameter_set_listening(
     }
 
     auto addr = convert_parameter(address);
-    if(listening)
+    auto cb_it = addr->get_node().get_attribute(ossia::string_view("_impl_callback"));
+    auto cb_ptr = ossia::any_cast<ossia::net::parameter_base::callback_index>(&cb_it);
+    if(!listening)
     {
-      auto cb_it = addr->get_node().get_attribute(ossia::string_view("_impl_callback"));
-      auto cb_ptr = ossia::any_cast<ossia::net::parameter_base::callback_index>(&cb_it);
       if(cb_ptr)
       {
         addr->remove_callback(*cb_ptr);
+        ossia::unset_attribute(
+              (ossia::extended_attributes&)addr->get_node(),
+              ossia::string_view("_impl_callback"));
       }
     }
-    else
+    else if(!cb_ptr)
     {
       auto it = addr->add_callback([] (const ossia::value&) { });
       ossia::set_attribute(
-- 
2.43.0


From 89632def33a4a081eefab587532ae13b526a2fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:59 +0000
Subject: [PATCH 140/142] fix: C functions which return arrays leave them
 undefined

Reading a value of another type as a list or bytes left the caller with
uninitialized results, null results were written to, and elements of another
type ended the program with an exception.
---
 src/ossia-c/ossia/ossia_domain.cpp    |  6 ++--
 src/ossia-c/ossia/ossia_parameter.cpp | 40 +++++++++++++++++----------
 src/ossia-c/ossia/ossia_value.cpp     | 40 +++++++++++++++++----------
 3 files changed, 55 insertions(+), 31 deletions(-)

diff --git a/src/ossia-c/ossia/ossia_domain.cpp b/src/ossia-c/ossia/ossia_domain.cpp
index d44c9b9..cf2b568 100644
--- a/src/ossia-c/ossia/ossia_domain.cpp
+++ b/src/ossia-c/ossia/ossia_domain.cpp
@@ -137,8 +137,10 @@ void ossia_domain_get_values(
     return;
   }
 
-  *values = nullptr;
-  *size = 0;
+  if (values)
+    *values = nullptr;
+  if (size)
+    *size = 0;
 }
 
 void ossia_domain_set_values(
diff --git a/src/ossia-c/ossia/ossia_parameter.cpp b/src/ossia-c/ossia/ossia_parameter.cpp
index c017f50..6bb8dff 100644
--- a/src/ossia-c/ossia/ossia_parameter.cpp
+++ b/src/ossia-c/ossia/ossia_parameter.cpp
@@ -244,11 +244,15 @@ void ossia_parameter_to_byte_array(ossia_parameter_t address, char** out, size_t
     {
       const auto& val = convert_parameter(address)->value();
       if (auto casted_val = val.target<std::string>())
-      copy_bytes(*casted_val, out, size);
-      return;
+      {
+        copy_bytes(*casted_val, out, size);
+        return;
+      }
     }
-    *out = nullptr;
-    *size = 0;
+    if (out)
+      *out = nullptr;
+    if (size)
+      *size = 0;
   });
 }
 
@@ -289,12 +293,14 @@ void ossia_parameter_to_list(ossia_parameter_t parameter, ossia_value_t** out, s
           ptr[i] = convert((*casted_val)[i]);
         }
         *out = ptr;
+        return;
       }
-      return;
     }
 
-    *out = nullptr;
-    *size = 0;
+    if (out)
+      *out = nullptr;
+    if (size)
+      *size = 0;
   });
 }
 
@@ -315,15 +321,17 @@ void ossia_parameter_to_fn(ossia_parameter_t parameter, float** out, size_t* siz
         *size = N;
         for(size_t i = 0; i < N; i++)
         {
-          ptr[i] = (*casted_val)[i].get<float>();
+          ptr[i] = ossia::convert<float>((*casted_val)[i]);
         }
         *out = ptr;
+        return;
       }
-      return;
     }
 
-    *out = nullptr;
-    *size = 0;
+    if (out)
+      *out = nullptr;
+    if (size)
+      *size = 0;
   });
 }
 
@@ -344,15 +352,17 @@ void ossia_parameter_to_in(ossia_parameter_t parameter, int** out, size_t* size)
         *size = N;
         for(size_t i = 0; i < N; i++)
         {
-          ptr[i] = (*casted_val)[i].get<int>();
+          ptr[i] = ossia::convert<int>((*casted_val)[i]);
         }
         *out = ptr;
+        return;
       }
-      return;
     }
 
-    *out = nullptr;
-    *size = 0;
+    if (out)
+      *out = nullptr;
+    if (size)
+      *size = 0;
   });
 }
 void ossia_parameter_push_value(ossia_parameter_t address, ossia_value_t value)
diff --git a/src/ossia-c/ossia/ossia_value.cpp b/src/ossia-c/ossia/ossia_value.cpp
index aff8c37..2d792ad 100644
--- a/src/ossia-c/ossia/ossia_value.cpp
+++ b/src/ossia-c/ossia/ossia_value.cpp
@@ -178,8 +178,10 @@ void ossia_value_to_byte_array(ossia_value_t val, char** out, size_t* size)
     return;
   }
 
-  *out = nullptr;
-  *size = 0;
+  if (out)
+    *out = nullptr;
+  if (size)
+    *size = 0;
 }
 
 const char* ossia_value_to_string(ossia_value_t val)
@@ -213,8 +215,10 @@ void ossia_value_to_list(ossia_value_t val, ossia_value_t** out, size_t* size)
     return;
   }
 
-  *out = nullptr;
-  *size = 0;
+  if (out)
+    *out = nullptr;
+  if (size)
+    *size = 0;
 }
 void ossia_value_free_list(ossia_value_t* out)
 {
@@ -235,14 +239,16 @@ void ossia_value_to_fn(ossia_value_t val, float** out, size_t* size)
     *size = N;
     for(size_t i = 0; i < N; i++)
     {
-      ptr[i] = (*casted_val)[i].get<float>();
+      ptr[i] = ossia::convert<float>((*casted_val)[i]);
     }
     *out = ptr;
     return;
   }
 
-  *out = nullptr;
-  *size = 0;
+  if (out)
+    *out = nullptr;
+  if (size)
+    *size = 0;
 }
 void ossia_value_free_fn(float* out)
 {
@@ -262,14 +268,16 @@ void ossia_value_to_in(ossia_value_t val, int** out, size_t* size)
     *size = N;
     for(size_t i = 0; i < N; i++)
     {
-      ptr[i] = (*casted_val)[i].get<int>();
+      ptr[i] = ossia::convert<int>((*casted_val)[i]);
     }
     *out = ptr;
     return;
   }
 
-  *out = nullptr;
-  *size = 0;
+  if (out)
+    *out = nullptr;
+  if (size)
+    *size = 0;
 }
 void ossia_value_free_in(int* out)
 {
@@ -315,8 +323,10 @@ void ossia_value_convert_byte_array(ossia_value_t val, char** str, size_t* size)
   if (!val || !str || !size)
   {
     ossia_log_error("ossia_value_convert_byte_array: a parameter is null");
-    *str = nullptr;
-    *size = 0;
+    if (str)
+      *str = nullptr;
+    if (size)
+      *size = 0;
     return;
   }
 
@@ -329,8 +339,10 @@ void ossia_value_convert_list(ossia_value_t val, ossia_value_t** out, size_t* si
   {
     ossia_log_error("ossia_value_convert_list: a parameter is null");
 
-    *out = nullptr;
-    *size = 0;
+    if (out)
+      *out = nullptr;
+    if (size)
+      *size = 0;
     return;
   }
   auto v = ossia::convert<std::vector<ossia::value>>(val->value);
-- 
2.43.0


From 7714c283ebca2840db3eb1fa9709f6c9e2f8935d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:11 +0000
Subject: [PATCH 141/142] fix: strings of the C interface are not freed the way
 they are allocated

ossia_string_free frees what strdup returns, some functions used new[].
---
 src/ossia-c/ossia/ossia_node.cpp      | 4 ++--
 src/ossia-c/ossia/ossia_parameter.cpp | 2 +-
 src/ossia-c/ossia/ossia_value.cpp     | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ossia-c/ossia/ossia_node.cpp b/src/ossia-c/ossia/ossia_node.cpp
index bbc06b5..63a76c3 100644
--- a/src/ossia-c/ossia/ossia_node.cpp
+++ b/src/ossia-c/ossia/ossia_node.cpp
@@ -372,7 +372,7 @@ const char* ossia_node_get_description(
     if(!str)
       return nullptr;
 
-    return copy_string(*str);
+    return strdup(str->c_str());
   });
 }
 
@@ -410,7 +410,7 @@ const char* ossia_node_get_extended_type(
     if(!str)
       return nullptr;
 
-    return copy_string(*str);
+    return strdup(str->c_str());
   });
 }
 
diff --git a/src/ossia-c/ossia/ossia_parameter.cpp b/src/ossia-c/ossia/ossia_parameter.cpp
index 6bb8dff..83a4a86 100644
--- a/src/ossia-c/ossia/ossia_parameter.cpp
+++ b/src/ossia-c/ossia/ossia_parameter.cpp
@@ -267,7 +267,7 @@ const char* ossia_parameter_to_string(ossia_parameter_t address)
 
     const auto& val = convert_parameter(address)->value();
     if (auto casted_val = val.target<std::string>())
-      return copy_string(*casted_val);
+      return strdup(casted_val->c_str());
     else
       return nullptr;
   });
diff --git a/src/ossia-c/ossia/ossia_value.cpp b/src/ossia-c/ossia/ossia_value.cpp
index 2d792ad..f902ec7 100644
--- a/src/ossia-c/ossia/ossia_value.cpp
+++ b/src/ossia-c/ossia/ossia_value.cpp
@@ -192,7 +192,7 @@ const char* ossia_value_to_string(ossia_value_t val)
   }
   else if (auto casted_val = val->value.target<std::string>())
   {
-    return copy_string(*casted_val);
+    return strdup(casted_val->c_str());
   }
   return nullptr;
 }
-- 
2.43.0


From 0e8610c6ed762cdd61588710de516e2a2d9135b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:29 +0000
Subject: [PATCH 142/142] fix: ossia_node_set_default_value set every default
 value to true

It converted the value to a pointer for C, which the overload for bool
took (and nothing freed the copy).
---
 src/ossia-c/ossia/ossia_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia-c/ossia/ossia_node.cpp b/src/ossia-c/ossia/ossia_node.cpp
index 63a76c3..7da5283 100644
--- a/src/ossia-c/ossia/ossia_node.cpp
+++ b/src/ossia-c/ossia/ossia_node.cpp
@@ -737,7 +737,7 @@ void ossia_node_set_default_value(
     if(!default_value)
       ossia::net::set_default_value(n, std::nullopt);
     else
-      ossia::net::set_default_value(n, convert(default_value->value));
+      ossia::net::set_default_value(n, default_value->value);
   });
 }
 ossia_value_t ossia_node_get_default_value(
-- 
2.43.0

