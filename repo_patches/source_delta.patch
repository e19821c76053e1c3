From abce359866a744ecbc1d8666153553393f301f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:34 +0000
Subject: [PATCH 01/25] fix: code_point::size() misclassified the 0xDF and 0xEF
 leading bytes

---
 include/arg_router/utility/utf8/code_point.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/arg_router/utility/utf8/code_point.hpp b/include/arg_router/utility/utf8/code_point.hpp
index c1dfffd..3144160 100644
--- a/include/arg_router/utility/utf8/code_point.hpp
+++ b/include/arg_router/utility/utf8/code_point.hpp
@@ -162,12 +162,12 @@ private:
 
     // Can't think of a way to do this without branches
     constexpr auto max_2_byte_header = std::uint8_t{0b1101'1111};
-    if (first_byte < max_2_byte_header) {
+    if (first_byte <= max_2_byte_header) {
         return 2;
     }
 
     constexpr auto max_3_byte_header = std::uint8_t{0b1110'1111};
-    if (first_byte < max_3_byte_header) {
+    if (first_byte <= max_3_byte_header) {
         return 3;
     }
 
-- 
2.43.0


From 55aa62e48f580c2599a14c153966726fa2565d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:14 +0000
Subject: [PATCH 02/25] fix: UTF-8 iterators ran past the end of a truncated
 trailing code point

---
 include/arg_router/utility/utf8.hpp            | 6 +++---
 include/arg_router/utility/utf8/code_point.hpp | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/arg_router/utility/utf8.hpp b/include/arg_router/utility/utf8.hpp
index a313b75..a156882 100644
--- a/include/arg_router/utility/utf8.hpp
+++ b/include/arg_router/utility/utf8.hpp
@@ -235,7 +235,7 @@ private:
         // Iterate over each code point and its neighbour, pass their break classes into the rule
         // checker
         for (auto it = code_point::iterator{str_}; it != code_point::iterator{}; ++it) {
-            current_ += code_point::size(*it);
+            current_ += (*it).size();
 
             // If this code point is malformed, then just skip it
             const auto this_cp = code_point::decode(*it);
@@ -499,7 +499,7 @@ private:
                 if (!is_whitespace(cp)) {
                     break;
                 }
-                bytes += code_point::size(cp);
+                bytes += cp.size();
             }
             str_.remove_prefix(bytes);
 
@@ -528,7 +528,7 @@ private:
                 return;
             }
 
-            bytes += code_point::size(*it);
+            bytes += (*it).size();
 
             // If this code point is malformed, then just skip it
             const auto this_cp = code_point::decode(*it);
diff --git a/include/arg_router/utility/utf8/code_point.hpp b/include/arg_router/utility/utf8/code_point.hpp
index 3144160..fc53f92 100644
--- a/include/arg_router/utility/utf8/code_point.hpp
+++ b/include/arg_router/utility/utf8/code_point.hpp
@@ -325,8 +325,8 @@ public:
      */
     constexpr iterator& operator++() noexcept
     {
-        const auto num_bytes = code_point::size(str_);
-        str_.remove_prefix(num_bytes);
+        // The trailing code point may be truncated, so only remove what is there
+        str_.remove_prefix((**this).size());
         return *this;
     }
 
-- 
2.43.0


From e657ba521ea267807169b79b560e80c6724d7bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:15 +0000
Subject: [PATCH 03/25] fix: line_iterator never advanced past a code point
 wider than the line

---
 include/arg_router/utility/utf8.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arg_router/utility/utf8.hpp b/include/arg_router/utility/utf8.hpp
index a156882..f4084f6 100644
--- a/include/arg_router/utility/utf8.hpp
+++ b/include/arg_router/utility/utf8.hpp
@@ -517,7 +517,7 @@ private:
         for (auto it = code_point::iterator{str_}; it != code_point::iterator{}; ++it) {
             // Have we exceeded the terminal width?
             column += terminal_width(*it);
-            if (column > max_columns_) {
+            if ((column > max_columns_) && (bytes != 0)) {
                 if (line_break_column == 0) {
                     // Oh dear, the line has no whitespace in it to break on, so force break on the
                     // last code point
-- 
2.43.0


From dabc72d4209270963868a220e858d42a656dffc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:15 +0000
Subject: [PATCH 04/25] fix: short_form_expander underflowed a reserve when
 given a lone prefix

---
 include/arg_router/policy/short_form_expander.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/arg_router/policy/short_form_expander.hpp b/include/arg_router/policy/short_form_expander.hpp
index d3ffa80..d7119f1 100644
--- a/include/arg_router/policy/short_form_expander.hpp
+++ b/include/arg_router/policy/short_form_expander.hpp
@@ -88,7 +88,8 @@ public:
         }
 
         // Exit early if there's no expansion to be done
-        if (first_token.name.size() == owner_type::short_name().size()) {
+        if (first_token.name.empty() ||
+            first_token.name.size() == owner_type::short_name().size()) {
             return parsing::pre_parse_action::valid_node;
         }
 
-- 
2.43.0


From 4561df4b9fc64b701088fbdd80fa8a817622a8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:15 +0000
Subject: [PATCH 05/25] fix: value_separator split on any byte of a multi-byte
 separator

---
 include/arg_router/policy/value_separator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arg_router/policy/value_separator.hpp b/include/arg_router/policy/value_separator.hpp
index 91675b1..d10e955 100644
--- a/include/arg_router/policy/value_separator.hpp
+++ b/include/arg_router/policy/value_separator.hpp
@@ -94,7 +94,7 @@ public:
         const auto first_token = *first;
 
         // Find the separator
-        const auto separator_index = first_token.name.find_first_of(value_separator());
+        const auto separator_index = first_token.name.find(value_separator());
         if (separator_index == std::string_view::npos) {
             // If we can't find the separator but the token matches the parent node name, then we
             // need to throw as the user has just forgotten the separator and needs to be told
-- 
2.43.0


From 922021662e55430aeef72c44c56e2178882f7b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:15 +0000
Subject: [PATCH 06/25] fix: dynamic_token_adapter::insert(end(), ..) did not
 return the inserted position

---
 include/arg_router/parsing/dynamic_token_adapter.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/arg_router/parsing/dynamic_token_adapter.hpp b/include/arg_router/parsing/dynamic_token_adapter.hpp
index 064b011..a8b76fa 100644
--- a/include/arg_router/parsing/dynamic_token_adapter.hpp
+++ b/include/arg_router/parsing/dynamic_token_adapter.hpp
@@ -390,8 +390,8 @@ public:
         auto processed_it = it.is_end() ? processed_->end() :  //
                                           processed_->begin() + it.i_;
 
-        processed_->insert(processed_it, value);
-        return {this, it.i_};
+        processed_it = processed_->insert(processed_it, value);
+        return {this, processed_it - processed_->begin()};
     }
 
     /** Inserts the value in the range [ @a first, @a last ) at position @a it.
@@ -410,8 +410,8 @@ public:
         auto processed_it = it.is_end() ? processed_->end() :  //
                                           processed_->begin() + it.i_;
 
-        processed_->insert(processed_it, first, last);
-        return {this, it.i_};
+        processed_it = processed_->insert(processed_it, first, last);
+        return {this, processed_it - processed_->begin()};
     }
 
     /** Erases the element at @a it.
-- 
2.43.0


From f4bbf424caa938eb408245ff47474033d80a8c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:43 +0000
Subject: [PATCH 07/25] fix: help for a runtime-disabled node read the front of
 an empty token list

---
 include/arg_router/help.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/arg_router/help.hpp b/include/arg_router/help.hpp
index ec53378..c6af918 100644
--- a/include/arg_router/help.hpp
+++ b/include/arg_router/help.hpp
@@ -237,12 +237,6 @@ private:
                                  const Node& node,
                                  const TargetFn& fn)
     {
-        if constexpr (traits::has_runtime_enabled_method_v<Node>) {
-            if (!node.runtime_enabled()) {
-                throw multi_lang_exception{error_code::unknown_argument, tokens.front()};
-            }
-        }
-
         if (tokens.empty()) {
             fn(node);
             return;
@@ -257,6 +251,13 @@ private:
                     return;
                 }
 
+                // A disabled node behaves as if it did not exist
+                if constexpr (traits::has_runtime_enabled_method_v<child_type>) {
+                    if (!child.runtime_enabled()) {
+                        return;
+                    }
+                }
+
                 // Help tokens aren't pre-parsed by the target nodes (as they would fail if missing
                 // any required value tokens), so we have just use the prefix to generate a
                 // token_type from them, as they all of a prefix_type of none
-- 
2.43.0


From 296abb0c00199bd954c028b6b60ed79647923c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:43 +0000
Subject: [PATCH 08/25] fix: an empty string as first argument was reported as
 no arguments passed

---
 include/arg_router/root.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/arg_router/root.hpp b/include/arg_router/root.hpp
index d91510a..92fc074 100644
--- a/include/arg_router/root.hpp
+++ b/include/arg_router/root.hpp
@@ -148,7 +148,8 @@ public:
     {
         try {
             // Take a copy of the front token for the error messages
-            const auto front_token = args.empty() ?  //
+            const auto no_arguments = args.empty();
+            const auto front_token = no_arguments ?  //
                                          parsing::token_type{parsing::prefix_type::none, ""} :
                                          args.front();
 
@@ -166,7 +167,7 @@ public:
                 },
                 this->children());
             if (!match) {
-                if (front_token.name.empty()) {
+                if (no_arguments) {
                     throw multi_lang_exception{error_code::no_arguments_passed};
                 }
                 parsing::unknown_argument_exception(*this, front_token);
-- 
2.43.0


From b592d0b9d82380300b6efb6b69de8ee8dda38b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:46 +0000
Subject: [PATCH 09/25] fix: one_of remembered the selected child across
 separate parse calls

---
 include/arg_router/dependency/one_of.hpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/arg_router/dependency/one_of.hpp b/include/arg_router/dependency/one_of.hpp
index 0a7e3c5..73cfee1 100644
--- a/include/arg_router/dependency/one_of.hpp
+++ b/include/arg_router/dependency/one_of.hpp
@@ -91,7 +91,16 @@ public:
             using child_type = std::decay_t<decltype(child)>;
 
             auto type_hash = utility::type_hash<child_type>();
-            if (last_typeid_) {
+            if constexpr (HasTarget) {
+                // The parent's target holds everything processed so far by this parse.  It has to
+                // be used rather than last_typeid_, as that would persist between parses
+                for (const auto& sub_target : pre_parse_data.target().sub_targets()) {
+                    if (is_child(sub_target.node_type()) && (type_hash != sub_target.node_type())) {
+                        throw multi_lang_exception{error_code::one_of_selected_type_mismatch,
+                                                   parsing::node_token_type<one_of_t>()};
+                    }
+                }
+            } else if (last_typeid_) {
                 if (type_hash != *last_typeid_) {
                     throw multi_lang_exception{error_code::one_of_selected_type_mismatch,
                                                parsing::node_token_type<one_of_t>()};
@@ -129,6 +138,15 @@ public:
     }
 
 private:
+    [[nodiscard]] static bool is_child(std::size_t type_hash) noexcept
+    {
+        auto result = false;
+        utility::tuple_type_iterator<children_type>([&](auto i) {
+            result |= (utility::type_hash<std::tuple_element_t<i, children_type>>() == type_hash);
+        });
+        return result;
+    }
+
     mutable std::optional<std::size_t> last_typeid_;
 };
 
-- 
2.43.0


From ccb633754e353c1999720cd7127f010b951dc738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:02 +0000
Subject: [PATCH 10/25] fix: do not take another node's tokens when the end
 marker comes first

With a bounded maximum count and no tokens before the end marker, the
minimum/maximum count policy transferred the tokens following the marker
(size_t underflow of the zero token count).
---
 include/arg_router/policy/min_max_count.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/arg_router/policy/min_max_count.hpp b/include/arg_router/policy/min_max_count.hpp
index 1e8a5d7..947d088 100644
--- a/include/arg_router/policy/min_max_count.hpp
+++ b/include/arg_router/policy/min_max_count.hpp
@@ -109,8 +109,12 @@ public:
                                         parsing::node_token_type<owner_type>()};
         }
 
-        // Transfer any remaining up to the maximum count
-        tokens.transfer(tokens.begin() + std::min(mx_count - 1, num_tokens - 1));
+        // Transfer any remaining up to the maximum count.  If there are none for this node, then do
+        // nothing as any unprocessed tokens belong to other nodes
+        const auto count = std::min(mx_count, num_tokens);
+        if (count > 0) {
+            tokens.transfer(tokens.begin() + (count - 1));
+        }
 
         return parsing::pre_parse_action::valid_node;
     }
-- 
2.43.0


From f26d37e36cb7af9185f5ae4e1f6620e3f7703f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:34 +0000
Subject: [PATCH 11/25] fix: reject negative numbers for unsigned arithmetic
 types

boost::conversion::try_lexical_convert wraps them, e.g. "-1" was accepted
as 4294967295 by an unsigned int option.
---
 include/arg_router/parsing/global_parser.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/arg_router/parsing/global_parser.hpp b/include/arg_router/parsing/global_parser.hpp
index 75bcea4..83f6773 100644
--- a/include/arg_router/parsing/global_parser.hpp
+++ b/include/arg_router/parsing/global_parser.hpp
@@ -39,8 +39,13 @@ struct parser<T, typename std::enable_if_t<std::is_arithmetic_v<T>>> {
         using namespace utility::string_view_ops;
         using namespace std::string_view_literals;
 
+        // The lexical conversion wraps negative numbers into unsigned types rather than failing
+        const auto is_negative_unsigned =
+            std::is_unsigned_v<T> && !std::is_same_v<T, char> && !token.empty() &&
+            (token.front() == '-');
+
         auto result = T{};
-        if (!boost::conversion::try_lexical_convert(token, result)) {
+        if (is_negative_unsigned || !boost::conversion::try_lexical_convert(token, result)) {
             throw multi_lang_exception{error_code::failed_to_parse,
                                        parsing::token_type{parsing::prefix_type::none, token}};
         }
-- 
2.43.0


From d4889f9aaeb62ec4b1663202db4623ec77ed2e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:37 +0000
Subject: [PATCH 12/25] fix: convert 8-bit integers as numbers, not as
 characters

A std::uint8_t option was given the character code of a single digit ("5" became
53) and rejected everything longer, e.g. "42".
---
 include/arg_router/parsing/global_parser.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/arg_router/parsing/global_parser.hpp b/include/arg_router/parsing/global_parser.hpp
index 83f6773..1f20493 100644
--- a/include/arg_router/parsing/global_parser.hpp
+++ b/include/arg_router/parsing/global_parser.hpp
@@ -44,13 +44,19 @@ struct parser<T, typename std::enable_if_t<std::is_arithmetic_v<T>>> {
             std::is_unsigned_v<T> && !std::is_same_v<T, char> && !token.empty() &&
             (token.front() == '-');
 
-        auto result = T{};
-        if (is_negative_unsigned || !boost::conversion::try_lexical_convert(token, result)) {
+        // 8-bit integers are lexically converted as characters, so convert as a wider type first
+        constexpr auto is_8bit_integer =
+            std::is_same_v<T, signed char> || std::is_same_v<T, unsigned char>;
+        using convert_type = std::conditional_t<is_8bit_integer, int, T>;
+
+        auto result = convert_type{};
+        if (is_negative_unsigned || !boost::conversion::try_lexical_convert(token, result) ||
+            (is_8bit_integer && (result != static_cast<convert_type>(static_cast<T>(result))))) {
             throw multi_lang_exception{error_code::failed_to_parse,
                                        parsing::token_type{parsing::prefix_type::none, token}};
         }
 
-        return result;
+        return static_cast<T>(result);
     }
 };
 
-- 
2.43.0


From aa3a9b515f7f876a361394b63645cc3790600860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:12 +0000
Subject: [PATCH 13/25] fix: an alias of an alias sets the nodes at the end of
 the chain

An aliased node that is itself an alias delivers no value, so giving the
outer alias was accepted and then silently ignored.
---
 include/arg_router/policy/alias.hpp | 62 +++++++++++++++++++----------
 1 file changed, 40 insertions(+), 22 deletions(-)

diff --git a/include/arg_router/policy/alias.hpp b/include/arg_router/policy/alias.hpp
index 134dce0..5b9ca13 100644
--- a/include/arg_router/policy/alias.hpp
+++ b/include/arg_router/policy/alias.hpp
@@ -118,30 +118,9 @@ public:
         tokens.transfer(tokens.begin() + count);
 
         // Now do the runtime target building
-        const auto visitor = [&](const auto& current, [[maybe_unused]] const auto&... parents) {
-            using policies_type = typename std::decay_t<decltype(current)>::policies_type;
-
-            using intersection =
-                boost::mp11::mp_set_intersection<aliased_policies_type, policies_type>;
-
-            if constexpr ((std::tuple_size_v<intersection>) > 0) {
-                auto target_tokens = vector<parsing::token_type>{};
-                target_tokens.reserve(count);
-
-                auto value_it = tokens.begin();
-                for (auto j = 0u; j < count; ++j) {
-                    // Pre-increment the value iterator so we skip over the label token
-                    target_tokens.push_back(*(++value_it));
-                }
-
-                target.add_sub_target({std::move(target_tokens),  //
-                                       current,
-                                       parents...});
-            }
-        };
         const auto& mode =
             std::get<mode_data::index::value>(std::tuple{std::cref(parents)...}).get();
-        utility::tree_recursor(visitor, mode);
+        add_sub_targets<count, aliased_policies_type>(tokens, target, mode);
 
         // Now remove the original tokens as they refer to the aliased node
         tokens.processed().erase(tokens.processed().begin(),
@@ -240,6 +219,45 @@ private:
         constexpr static bool value = check<0, AliasNodesTuple>();
     };
 
+    // Adds a sub-target for each of the nodes in the mode referred to in AliasPoliciesTuple.  If one
+    // of them is itself an alias then the nodes it refers to are used in its place, as an alias does
+    // not deliver a value
+    template <std::size_t Count, typename AliasPoliciesTuple, typename ModeType>
+    static void add_sub_targets(parsing::dynamic_token_adapter& tokens,
+                                parsing::parse_target& target,
+                                const ModeType& mode)
+    {
+        const auto visitor = [&](const auto& current, [[maybe_unused]] const auto&... parents) {
+            using node_type = std::decay_t<decltype(current)>;
+            using policies_type = typename node_type::policies_type;
+
+            using intersection =
+                boost::mp11::mp_set_intersection<AliasPoliciesTuple, policies_type>;
+
+            if constexpr ((std::tuple_size_v<intersection>) > 0) {
+                if constexpr (algorithm::has_specialisation_v<alias_t, policies_type>) {
+                    add_sub_targets<Count, typename node_type::aliased_policies_type>(tokens,
+                                                                                      target,
+                                                                                      mode);
+                } else {
+                    auto target_tokens = vector<parsing::token_type>{};
+                    target_tokens.reserve(Count);
+
+                    auto value_it = tokens.begin();
+                    for (auto j = 0u; j < Count; ++j) {
+                        // Pre-increment the value iterator so we skip over the label token
+                        target_tokens.push_back(*(++value_it));
+                    }
+
+                    target.add_sub_target({std::move(target_tokens),  //
+                                           current,
+                                           parents...});
+                }
+            }
+        };
+        utility::tree_recursor(visitor, mode);
+    }
+
     template <std::size_t Count, typename TargetsTuple>
     constexpr static void check_target_counts() noexcept
     {
-- 
2.43.0


From c7a1408c5e5932b714d533c91d4b9e2043670a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:21 +0000
Subject: [PATCH 14/25] fix: a disabled node's value_separator raised its
 missing separator error

---
 include/arg_router/policy/runtime_enable.hpp  | 2 +-
 include/arg_router/policy/value_separator.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/arg_router/policy/runtime_enable.hpp b/include/arg_router/policy/runtime_enable.hpp
index b7276f1..fe8044b 100644
--- a/include/arg_router/policy/runtime_enable.hpp
+++ b/include/arg_router/policy/runtime_enable.hpp
@@ -25,7 +25,7 @@ class runtime_enable
 {
 public:
     /** Policy priority. */
-    constexpr static auto priority = std::size_t{800};
+    constexpr static auto priority = std::size_t{1000};
 
     /** Constructor.
      *
diff --git a/include/arg_router/policy/value_separator.hpp b/include/arg_router/policy/value_separator.hpp
index d10e955..bd188bf 100644
--- a/include/arg_router/policy/value_separator.hpp
+++ b/include/arg_router/policy/value_separator.hpp
@@ -40,7 +40,7 @@ public:
     using string_type = S;
 
     /** Policy priority. */
-    constexpr static auto priority = std::size_t{1000};
+    constexpr static auto priority = std::size_t{950};
 
     /** Constructor.
      *
-- 
2.43.0


From a04ed4d2ebd097f8ce27d42482a3eb42e396f158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:23 +0000
Subject: [PATCH 15/25] fix: a disabled anonymous mode was still parsed and
 routed

---
 include/arg_router/mode.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/arg_router/mode.hpp b/include/arg_router/mode.hpp
index 495f6ca..3c1e03b 100644
--- a/include/arg_router/mode.hpp
+++ b/include/arg_router/mode.hpp
@@ -246,6 +246,13 @@ private:
 
         auto& args = pre_parse_data.args();
 
+        // A disabled mode behaves as if it did not exist
+        if constexpr (traits::has_runtime_enabled_method_v<DerivedMode>) {
+            if (!this_mode.runtime_enabled()) {
+                return {};
+            }
+        }
+
         // If we're not anonymous then check the leading token is a match.  We can just delegate to
         // the default implementation for this
         if constexpr (!is_anonymous) {
-- 
2.43.0


From 3df231f4cb4880171cfcf340870b3e762cf85c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:42 +0000
Subject: [PATCH 16/25] fix: multi_lang::root_t::help() did not return the
 selected root's help

---
 include/arg_router/multi_lang/root.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arg_router/multi_lang/root.hpp b/include/arg_router/multi_lang/root.hpp
index e76aaaa..c2c1d4a 100644
--- a/include/arg_router/multi_lang/root.hpp
+++ b/include/arg_router/multi_lang/root.hpp
@@ -194,7 +194,7 @@ public:
      */
     [[nodiscard]] string help() const
     {
-        return std::visit([](const auto& root) { root.help(); }, *root_);
+        return std::visit([](const auto& root) { return root.help(); }, *root_);
     }
 
 private:
-- 
2.43.0


From b4c0da314d6314a85f72b24933f3f57d82ad5022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:30 +0000
Subject: [PATCH 17/25] fix: unsafe_any moved and swapped its small objects
 bytewise whatever their type

---
 include/arg_router/utility/unsafe_any.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/arg_router/utility/unsafe_any.hpp b/include/arg_router/utility/unsafe_any.hpp
index 4443ee6..0a270c3 100644
--- a/include/arg_router/utility/unsafe_any.hpp
+++ b/include/arg_router/utility/unsafe_any.hpp
@@ -23,8 +23,11 @@ class unsafe_any_t
     using ptr_type = void*;
     using aligned_storage_type = std::aligned_storage_t<SmallObjectOptimisationSize>;
 
+    // The buffer is moved and swapped bytewise, so it can only be used for types that allow that
     template <typename T>
-    constexpr static bool use_internal_storage = (sizeof(T) <= sizeof(aligned_storage_type));
+    constexpr static bool use_internal_storage =
+        (sizeof(T) <= sizeof(aligned_storage_type)) &&
+        std::is_trivially_copyable_v<std::decay_t<T>>;
 
 public:
     /** Default constructor.
-- 
2.43.0


From 2b31dcde5432e0ec66f6def7f2fe3debe6fa41d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:30 +0000
Subject: [PATCH 18/25] fix: copying an empty unsafe_any threw
 bad_function_call

---
 include/arg_router/utility/unsafe_any.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/arg_router/utility/unsafe_any.hpp b/include/arg_router/utility/unsafe_any.hpp
index 0a270c3..31b6c9b 100644
--- a/include/arg_router/utility/unsafe_any.hpp
+++ b/include/arg_router/utility/unsafe_any.hpp
@@ -110,8 +110,11 @@ public:
      */
     unsafe_any_t(const unsafe_any_t& other)
     {
-        auto new_any = other.copier_(other.storage_);
-        swap(*this, new_any);
+        // Nothing to copy if other is empty
+        if (other.copier_) {
+            auto new_any = other.copier_(other.storage_);
+            swap(*this, new_any);
+        }
     }
 
     /** Assignment operator.
-- 
2.43.0


From 535cf272236f32a56bf7d4505d8140276feb6d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:57 +0000
Subject: [PATCH 19/25] fix: start every grapheme cluster with an empty
 trailing window

GB12/13 pair regional indicators counted from the trailing window, which kept
those of preceding clusters, so from the ninth consecutive flag on the window
was full of them and flags were split.
---
 include/arg_router/utility/utf8.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/arg_router/utility/utf8.hpp b/include/arg_router/utility/utf8.hpp
index f4084f6..8586e74 100644
--- a/include/arg_router/utility/utf8.hpp
+++ b/include/arg_router/utility/utf8.hpp
@@ -114,7 +114,6 @@ public:
     constexpr explicit iterator(std::string_view str) noexcept :
         current_{0}, str_{str}, trailing_window_{}
     {
-        fill_trailing_window();
         update_current();
     }
 
@@ -232,6 +231,10 @@ private:
             return;
         }
 
+        // No rule looks back past the start of a cluster, so start each one with an empty window,
+        // otherwise the regional indicators of preceding clusters could fill it
+        fill_trailing_window();
+
         // Iterate over each code point and its neighbour, pass their break classes into the rule
         // checker
         for (auto it = code_point::iterator{str_}; it != code_point::iterator{}; ++it) {
-- 
2.43.0


From d457cf335e03b676c9d5bf14a22e0541ebcd471c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:57 +0000
Subject: [PATCH 20/25] fix: keep the parity of regional indicators that leave
 the line break window

LB30a needs to know if an odd or even number of regional indicators precedes a
position, after sixteen of them the window was full and flags could be split
over two lines.
---
 include/arg_router/utility/utf8.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/arg_router/utility/utf8.hpp b/include/arg_router/utility/utf8.hpp
index 8586e74..f941a3c 100644
--- a/include/arg_router/utility/utf8.hpp
+++ b/include/arg_router/utility/utf8.hpp
@@ -474,6 +474,8 @@ private:
 
     constexpr void rotate_trailing_window() noexcept
     {
+        const auto oldest = trailing_window_.back();
+
         // Right rotate the window, std::rotate isn't constexpr in C++17
         auto it = trailing_window_.rbegin();
         while (true) {
@@ -483,6 +485,12 @@ private:
             }
             *prev = *it;
         }
+
+        // LB30a needs to know if the number of consecutive regional indicators is odd or even, so
+        // when there are more of them than the window can hold drop them in pairs
+        if ((oldest == line_break_class::RI) && (trailing_window_.back() == line_break_class::RI)) {
+            trailing_window_.back() = line_break_class::any;
+        }
     }
 
     constexpr void consume() noexcept
-- 
2.43.0


From 2bfdcf3e9fb5a88ce169bfd11bf834b352205581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:11 +0000
Subject: [PATCH 21/25] fix: every line starts with an empty line break window

---
 include/arg_router/utility/utf8.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/arg_router/utility/utf8.hpp b/include/arg_router/utility/utf8.hpp
index f941a3c..9f8d1bd 100644
--- a/include/arg_router/utility/utf8.hpp
+++ b/include/arg_router/utility/utf8.hpp
@@ -377,7 +377,6 @@ public:
             str_ = std::string_view{};
         }
 
-        fill_trailing_window();
         consume();
     }
 
@@ -519,6 +518,9 @@ private:
             }
         }
 
+        // The search for the previous line's end went beyond its break, so forget what was seen there
+        fill_trailing_window();
+
         // Iterate over the code points until you reach or exceed the column limit, setting the
         // break markers at each whitespace code point
         auto column = std::size_t{0};
-- 
2.43.0


From f72cadd588e53cba5a9176273f02a54892a8f453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:35 +0000
Subject: [PATCH 22/25] fix: do not break a line between a character and its
 combining marks (LB9)

---
 .../arg_router/utility/utf8/line_break.hpp    | 32 +++++++++++++++++--
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/include/arg_router/utility/utf8/line_break.hpp b/include/arg_router/utility/utf8/line_break.hpp
index f9c3c97..178840e 100644
--- a/include/arg_router/utility/utf8/line_break.hpp
+++ b/include/arg_router/utility/utf8/line_break.hpp
@@ -112,6 +112,31 @@ template <std::size_t N>
            (trailing_window[0] == line_break_class::ZWJ);
 }
 
+/** Rule LB9, do not break before a combining character or zero width joiner, except after hard line
+ * breaks or spaces.
+ *
+ * From https://www.unicode.org/reports/tr14/#Algorithm.
+ * @tparam N Size of trailing window
+ * @param trailing_window Trailing window of properties, the zeroth index is the 'current' class
+ * begin iterated over
+ * @param next_class The class after the current one
+ * @return True if you should not break between these break classes
+ */
+template <std::size_t N>
+[[nodiscard]] constexpr bool LB9(const std::array<line_break_class, N>& trailing_window,
+                                 line_break_class next_class) noexcept
+{
+    static_assert(N > 0, "Trailing window must be at least 1 element");
+
+    return ((next_class == line_break_class::CM) || (next_class == line_break_class::ZWJ)) &&
+           (trailing_window[0] != line_break_class::BK) &&
+           (trailing_window[0] != line_break_class::CR) &&
+           (trailing_window[0] != line_break_class::LF) &&
+           (trailing_window[0] != line_break_class::NL) &&
+           (trailing_window[0] != line_break_class::SP) &&
+           (trailing_window[0] != line_break_class::ZW);
+}
+
 /** Rule LB11, do not break before or after Word joiner and related characters.
  *
  * From https://www.unicode.org/reports/tr14/#Algorithm.
@@ -683,9 +708,10 @@ template <std::size_t N>
  */
 template <std::size_t N>
 constexpr auto line_break = std::array{
-    &LB6<N>,  &LB7<N>,  &LB8a_9<N>, &LB11<N>, &LB12<N>,  &LB12a<N>, &LB13<N>, &LB14<N>,  &LB15<N>,
-    &LB16<N>, &LB17<N>, &LB19<N>,   &LB21<N>, &LB21a<N>, &LB21b<N>, &LB22<N>, &LB23<N>,  &LB23a<N>,
-    &LB24<N>, &LB25<N>, &LB26<N>,   &LB27<N>, &LB28<N>,  &LB29<N>,  &LB30<N>, &LB30a<N>, &LB30b<N>,
+    &LB6<N>,   &LB7<N>,   &LB8a_9<N>, &LB9<N>,  &LB11<N>,  &LB12<N>,  &LB12a<N>,
+    &LB13<N>,  &LB14<N>,  &LB15<N>,   &LB16<N>, &LB17<N>,  &LB19<N>,  &LB21<N>,
+    &LB21a<N>, &LB21b<N>, &LB22<N>,   &LB23<N>, &LB23a<N>, &LB24<N>,  &LB25<N>,
+    &LB26<N>,  &LB27<N>,  &LB28<N>,   &LB29<N>, &LB30<N>,  &LB30a<N>, &LB30b<N>,
 };
 }  // namespace no_break_rules
 
-- 
2.43.0


From ed93c8267553dd02e44d10864d8cc0d0eda3f937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:26 +0000
Subject: [PATCH 23/25] fix: allow a line break after spaces before quotes,
 hyphens and ellipses (LB18)

---
 .../arg_router/utility/utf8/line_break.hpp    | 26 +++++++++++++------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/include/arg_router/utility/utf8/line_break.hpp b/include/arg_router/utility/utf8/line_break.hpp
index 178840e..2dbf3ae 100644
--- a/include/arg_router/utility/utf8/line_break.hpp
+++ b/include/arg_router/utility/utf8/line_break.hpp
@@ -326,6 +326,8 @@ template <std::size_t N>
 }
 
 /** Rule LB19, do not break before or after quotation marks, such as ‘”’.
+ *
+ * A break after spaces is allowed by LB18, which comes first.
  *
  * From https://www.unicode.org/reports/tr14/#Algorithm.
  * @tparam N Size of trailing window
@@ -339,13 +341,16 @@ template <std::size_t N>
                                   line_break_class next_class) noexcept
 {
     static_assert(N > 0, "Trailing window must be at least 1 element");
-    return (next_class == line_break_class::QU) ||  //
+    return ((next_class == line_break_class::QU) &&
+            (trailing_window[0] != line_break_class::SP)) ||  //
            (trailing_window[0] == line_break_class::QU);
 }
 
 /** Rule LB21, do not break before hyphen-minus, other hyphens, fixed-width spaces, small kana, and
  * other non-starters, or after acute accents.
  *
+ * A break after spaces is allowed by LB18, which comes first.
+ *
  * From https://www.unicode.org/reports/tr14/#Algorithm.
  * @tparam N Size of trailing window
  * @param trailing_window Trailing window of properties, the zeroth index is the 'current' class
@@ -358,9 +363,10 @@ template <std::size_t N>
                                   line_break_class next_class) noexcept
 {
     static_assert(N > 0, "Trailing window must be at least 1 element");
-    return (next_class == line_break_class::BA) ||  //
-           (next_class == line_break_class::HY) ||  //
-           (next_class == line_break_class::NS) ||  //
+    return (((next_class == line_break_class::BA) ||  //
+             (next_class == line_break_class::HY) ||  //
+             (next_class == line_break_class::NS)) &&
+            (trailing_window[0] != line_break_class::SP)) ||
            (trailing_window[0] == line_break_class::BB);
 }
 
@@ -402,6 +408,8 @@ template <std::size_t N>
 }
 
 /** Rule LB22, do not break before ellipses.
+ *
+ * A break after spaces is allowed by LB18, which comes first.
  *
  * From https://www.unicode.org/reports/tr14/#Algorithm.
  * @tparam N Size of trailing window
@@ -411,11 +419,13 @@ template <std::size_t N>
  * @return True if you should not break between these break classes
  */
 template <std::size_t N>
-[[nodiscard]] constexpr bool LB22(
-    [[maybe_unused]] const std::array<line_break_class, N>& trailing_window,
-    line_break_class next_class) noexcept
+[[nodiscard]] constexpr bool LB22(const std::array<line_break_class, N>& trailing_window,
+                                  line_break_class next_class) noexcept
 {
-    return next_class == line_break_class::IN_;
+    static_assert(N > 0, "Trailing window must be at least 1 element");
+
+    return (next_class == line_break_class::IN_) &&  //
+           (trailing_window[0] != line_break_class::SP);
 }
 
 /** Rule LB23, do not break between digits and letters.
-- 
2.43.0


From eb2c7996a8d31c13ef6154990a2d53e1fb9bfecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:18 +0000
Subject: [PATCH 24/25] fix: the colour help formatter printed a space before
 labels that are not indented

---
 include/arg_router/policy/colour_help_formatter.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/arg_router/policy/colour_help_formatter.hpp b/include/arg_router/policy/colour_help_formatter.hpp
index 1be3dbe..8c25873 100644
--- a/include/arg_router/policy/colour_help_formatter.hpp
+++ b/include/arg_router/policy/colour_help_formatter.hpp
@@ -86,7 +86,11 @@ public:
     {
         if (!help_data.label.empty()) {
             const auto indent = depth * Indent;
-            stream << red_colour << std::setw(indent) << ' ' << help_data.label;
+            stream << red_colour;
+            if (indent > 0) {
+                stream << std::setw(indent) << ' ';
+            }
+            stream << help_data.label;
 
             if (!help_data.description.empty()) {
                 const auto gap =
-- 
2.43.0


From f9cce0ca572a060bd56eda6e065af9e8495fef79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:00 +0000
Subject: [PATCH 25/25] fix: parsing an empty argv (argc of zero) read past its
 end

---
 include/arg_router/root.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/arg_router/root.hpp b/include/arg_router/root.hpp
index 92fc074..5b3123b 100644
--- a/include/arg_router/root.hpp
+++ b/include/arg_router/root.hpp
@@ -228,8 +228,8 @@ public:
      */
     void parse(int argc, char** argv) const
     {
-        // Skip the program name
-        parse(&argv[1], &argv[argc]);
+        // Skip the program name, if there is one
+        parse(argv + (argc > 0 ? 1 : 0), argv + argc);
     }
 
     /** Generates a root-level help string and writes it into @a stream.
-- 
2.43.0

