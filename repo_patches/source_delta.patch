From 87ab903199bd188325a38e1be3556c0fb21ffb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:00 +0000
Subject: [PATCH 1/6] fix: json_encode must not turn bytes above 0x7F into
 malformed escapes

char is signed here, so every byte of a non-ASCII UTF-8 character compared
below 0x1f and was written as an escape such as \u-03D, which is not JSON.
---
 src/utils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 57eb5a1..eab3723 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -54,10 +54,10 @@ std::string url_encode(const std::string &str) {
  */
 std::string json_encode(const std::string &str) {
     auto ret = std::string{};
-    std::for_each(str.begin(), str.end(), [&ret](char c) {
+    std::for_each(str.begin(), str.end(), [&ret](unsigned char c) {
         ret += (c == '"' || c == '\\' || c <= '\x1f')
-            ? fmt::format("\\u{:04X}", static_cast<int>(c))
-            : std::string{ c };
+            ? fmt::format("\\u{:04X}", static_cast<unsigned int>(c))
+            : std::string{ static_cast<char>(c) };
     });
     return ret;
 }
-- 
2.43.0


From 4daea94ead4630d11b0bd051f8683bf9935d56eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:00 +0000
Subject: [PATCH 2/6] fix: report any parsing exception as a parse error

The ANTLR runtime throws an exception that derives from std::exception but
not from std::runtime_error when the input is not valid UTF-8. It escaped
the parsing functions instead of ending up in the list of errors.
---
 src/v3x/parse_helper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v3x/parse_helper.cpp b/src/v3x/parse_helper.cpp
index 016d6c3..ffbc671 100644
--- a/src/v3x/parse_helper.cpp
+++ b/src/v3x/parse_helper.cpp
@@ -54,7 +54,7 @@ ParseResult ParseHelper::parse() {
         result = scanner_up_->parse();
     } catch (error::AnalysisError& err) {
         result.errors.push_back(std::move(err));
-    } catch (const std::runtime_error& err) {
+    } catch (const std::exception& err) {
         result.errors.emplace_back(err.what());
     }
 
-- 
2.43.0


From 008c9115e8719c8289e538e4cef581af6e73ad7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:00 +0000
Subject: [PATCH 3/6] fix: report the indexing of a value that is not a
 variable

Indexing a constant, such as pi[0], dereferenced a null pointer.
---
 src/v3x/semantic_analyzer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/v3x/semantic_analyzer.cpp b/src/v3x/semantic_analyzer.cpp
index 5645992..bd2d0a5 100644
--- a/src/v3x/semantic_analyzer.cpp
+++ b/src/v3x/semantic_analyzer.cpp
@@ -578,6 +578,10 @@ std::any SemanticAnalyzer::visit_index(syntactic::Index& node) {
     try {
         auto expression = std::any_cast<values::Value>(visit_expression(*node.expr));
         auto variable_ref_ptr = expression->as_variable_ref();
+        if (!variable_ref_ptr) {
+            throw error::AnalysisError{ fmt::format(
+                "indexation is not supported for value of type '{}'", values::type_of(expression)) };
+        }
         const auto variable_link = variable_ref_ptr->variable;
         const auto variable_type = variable_link->typ;
         if (variable_type->as_qubit_array() || variable_type->as_bit_array()) {
-- 
2.43.0


From 4280390b0c8405688a22435173e3a1efba94bd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:00 +0000
Subject: [PATCH 4/6] fix: report integer divisions by zero in constant
 expressions

1/0, 1%0, and the smallest integer divided by -1 ended the process with SIGFPE.
---
 .../v3x/register_consteval_core_functions.hpp | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/libqasm/v3x/register_consteval_core_functions.hpp b/include/libqasm/v3x/register_consteval_core_functions.hpp
index 9845d22..0cef8d0 100644
--- a/include/libqasm/v3x/register_consteval_core_functions.hpp
+++ b/include/libqasm/v3x/register_consteval_core_functions.hpp
@@ -2,8 +2,10 @@
 
 #include <cmath>
 #include <functional>
+#include <limits>
 #include <numeric>
 
+#include "libqasm/error.hpp"
 #include "libqasm/v3x/analyzer.hpp"
 #include "libqasm/v3x/primitives.hpp"
 
@@ -83,8 +85,22 @@ constexpr auto op_sub_ii = bf_cp<values::ConstInt, values::ConstInt, std::minus{
 constexpr auto op_mul_ff = bf_cp<values::ConstFloat, values::ConstFloat, std::multiplies{}>{};
 constexpr auto op_mul_ii = bf_cp<values::ConstInt, values::ConstInt, std::multiplies{}>{};
 constexpr auto op_div_ff = bf_cp<values::ConstFloat, values::ConstFloat, std::divides{}>{};
-constexpr auto op_div_ii = bf_cp<values::ConstInt, values::ConstInt, std::divides{}>{};
-constexpr auto op_mod_ii = bf_cp<values::ConstInt, values::ConstInt, std::modulus{}>{};
+/**
+ * Integer divisions without a representable result trap on most platforms
+ */
+inline void check_int_division(primitives::Int dividend, primitives::Int divisor) {
+    if (divisor == 0) {
+        throw error::AnalysisError{ "division by zero" };
+    }
+    if (dividend == std::numeric_limits<primitives::Int>::min() && divisor == -1) {
+        throw error::AnalysisError{ "integer division overflow" };
+    }
+}
+
+inline constexpr auto div = [](primitives::Int a, primitives::Int b) { return check_int_division(a, b), a / b; };
+constexpr auto op_div_ii = bf_cp<values::ConstInt, values::ConstInt, div>{};
+inline constexpr auto mod = [](primitives::Int a, primitives::Int b) { return check_int_division(a, b), a % b; };
+constexpr auto op_mod_ii = bf_cp<values::ConstInt, values::ConstInt, mod>{};
 
 inline constexpr auto pow = [](auto base, auto exp) { return std::pow(base, exp); };
 constexpr auto op_pow_ff = bf_cp<values::ConstFloat, values::ConstFloat, pow>{};
-- 
2.43.0


From 99a77f96e2678248dad8059fb600492e7e9d1bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:00 +0000
Subject: [PATCH 5/6] fix: read instruction references in Python under the keys
 C++ writes

The C++ serializer uses 'name' and 'operand_types'. Python looked for 'n' and
't', so every instruction reference came back unresolved.
---
 python/module/cqasm/v3x/primitives.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/module/cqasm/v3x/primitives.py b/python/module/cqasm/v3x/primitives.py
index 8e38071..879d11f 100644
--- a/python/module/cqasm/v3x/primitives.py
+++ b/python/module/cqasm/v3x/primitives.py
@@ -35,8 +35,8 @@ def serialize(typ, val):
             return {}
         else:
             return {
-                'n': val.data.name,
-                't': [x.serialize() for x in val.data.types]
+                'name': val.data.name,
+                'operand_types': [x.serialize() for x in val.data.types]
             }
     else:
         assert False
@@ -61,10 +61,10 @@ def deserialize(typ, val):
     elif typ is Version:
         return Version(val['x'])
     elif typ is cqasm.v3x.instruction.InstructionRef:
-        if 'n' in val:
+        if 'name' in val:
             return cqasm.v3x.instruction.InstructionRef(
-                val['n'],
-                [cqasm.v3x.types.Node.deserialize(x) for x in val['t']]
+                val['name'],
+                [cqasm.v3x.types.Node.deserialize(x) for x in val['operand_types']]
             )
         else:
             return cqasm.v3x.instruction.InstructionRef()
-- 
2.43.0


From 96219a55b50d5910346429572afa917fc15083e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:31 +0000
Subject: [PATCH 6/6] fix: results and copies of an analyzer must not share its
 block

An Analyzer handed out its own block as part of its results, and copies of an
Analyzer shared it: a later analysis added its statements to earlier results,
and analysing with a copy failed with 'semantic tree is incomplete'.
---
 include/libqasm/v3x/scope.hpp | 21 +++++++++++++++++++++
 src/v3x/semantic_analyzer.cpp |  5 ++++-
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/include/libqasm/v3x/scope.hpp b/include/libqasm/v3x/scope.hpp
index 69b4f5a..45943b8 100644
--- a/include/libqasm/v3x/scope.hpp
+++ b/include/libqasm/v3x/scope.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include "libqasm/annotations.hpp"
 #include "libqasm/tree.hpp"
 #include "libqasm/v3x/resolver.hpp"
 #include "libqasm/v3x/semantic_generated.hpp"
@@ -10,6 +11,26 @@ namespace cqasm::v3x::analyzer {
  * Scope information.
  */
 struct Scope {
+    Scope() = default;
+    ~Scope() = default;
+
+    /**
+     * Copies of a scope have a block of their own.
+     */
+    Scope(const Scope& scope)
+    : variable_table{ scope.variable_table }
+    , consteval_core_function_table{ scope.consteval_core_function_table }
+    , instruction_table{ scope.instruction_table }
+    , variables{ scope.variables } {
+        if (!scope.block.empty()) {
+            block = tree::make<semantic::Block>(*scope.block);
+            block->copy_annotation<annotations::SourceLocation>(*scope.block);
+        }
+    }
+    Scope(Scope&& scope) = default;
+    Scope& operator=(const Scope& scope) { return *this = Scope{ scope }; }
+    Scope& operator=(Scope&& scope) = default;
+
     /**
      * The variables visible within this scope.
      */
diff --git a/src/v3x/semantic_analyzer.cpp b/src/v3x/semantic_analyzer.cpp
index bd2d0a5..9a40bbf 100644
--- a/src/v3x/semantic_analyzer.cpp
+++ b/src/v3x/semantic_analyzer.cpp
@@ -61,7 +61,10 @@ std::any SemanticAnalyzer::visit_version(syntactic::Version& node) {
 
 std::any SemanticAnalyzer::visit_global_block(syntactic::GlobalBlock& node) {
     visit_block(node);
-    return GlobalBlockReturnT{ analyzer_.current_block(), analyzer_.current_variables() };
+    // The result has a block of its own, so that whatever the analyzer does next does not change it
+    auto block = tree::make<semantic::Block>(*analyzer_.current_block());
+    block->copy_annotation<parser::SourceLocation>(*analyzer_.current_block());
+    return GlobalBlockReturnT{ block, analyzer_.current_variables() };
 }
 
 std::any SemanticAnalyzer::visit_annotated(syntactic::Annotated& node) {
-- 
2.43.0

