From dd5cb056e804536ca834545146193e93e8546294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:52 +0000
Subject: [PATCH 01/40] fix: tokenize '>>' as right shift

---
 src/token.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/token.cpp b/src/token.cpp
index 58a87b6..ceaf7f6 100644
--- a/src/token.cpp
+++ b/src/token.cpp
@@ -394,7 +394,7 @@ std::optional<Token> scanSyntax(Scanner& s)
         {"/", Token::OP_DIV},
         {"%", Token::OP_MOD},
         {"<<",Token::OP_LSHIFT},
-        {">>",Token::OP_LSHIFT},
+        {">>",Token::OP_RSHIFT},
         {"~", Token::OP_BITINV},
         {"|", Token::OP_BITOR},
         {"&", Token::OP_BITAND},
-- 
2.43.0


From 38bcfcb094f4078784400b6a5ba91e57e0c49b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:52 +0000
Subject: [PATCH 02/40] fix: do not drop a binary prefix that is followed by a
 hex letter

---
 src/token.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/token.cpp b/src/token.cpp
index ceaf7f6..7ff46cd 100644
--- a/src/token.cpp
+++ b/src/token.cpp
@@ -336,7 +336,7 @@ std::optional<Token> scanNumber(Scanner& s)
     else if (s.match("0b", Scanner::Skip))
         base = 2;
 
-    if (base != 10 && !isxdigit(s.at(0)))
+    if (base != 10 && !(base == 16 ? isxdigit(s.at(0)) : isdigit(s.at(0))))
         s.fail("Expected at least one digit after base specifier");
 
     if (isdigit(s.at(0)) || (s.at(0) == '.' && isdigit(s.at(1))) || base > 10) {
-- 
2.43.0


From 24395f20a83de545095d4c7879df4b293a52105a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:52 +0000
Subject: [PATCH 03/40] fix: reject NUL bytes instead of ignoring the rest of
 the query

---
 src/token.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/token.cpp b/src/token.cpp
index 7ff46cd..50bf9ff 100644
--- a/src/token.cpp
+++ b/src/token.cpp
@@ -434,7 +434,7 @@ std::vector<Token> tokenize(std::string_view expr)
         else if (auto t = scanSyntax(s))
             tokens.push_back(std::move(*t));
         else {
-            if (s.at(0) != '\0')
+            if (s)
                 s.fail("Invalid input");
             break;
         }
-- 
2.43.0


From 3debfe0adf9329bb7eda055eb395273b94580da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:52 +0000
Subject: [PATCH 04/40] fix: include the prefix in the location of raw string
 and regexp tokens

---
 src/token.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/token.cpp b/src/token.cpp
index 50bf9ff..df63a81 100644
--- a/src/token.cpp
+++ b/src/token.cpp
@@ -234,6 +234,7 @@ std::optional<Token> scanStringLiteral(Scanner& s)
         s.match("re'") || s.match("RE'") ||
         s.match("re\"") || s.match("RE\"");
 
+    const auto begin = s.pos();
     if (raw)
         s.skip(1);
     else if (regexp)
@@ -241,7 +242,6 @@ std::optional<Token> scanStringLiteral(Scanner& s)
 
     const auto quote = s.at(0);
     if (quote == '"' || quote == '\'') {
-        auto begin = s.pos();
         s.skip();
 
         std::string text;
-- 
2.43.0


From c1ac46a859753465af2b9f0f03d74c99ee0f1a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:52 +0000
Subject: [PATCH 05/40] fix: accept '+' and require digits in exponents of base
 10 numbers only

---
 src/token.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/token.cpp b/src/token.cpp
index df63a81..0331a0e 100644
--- a/src/token.cpp
+++ b/src/token.cpp
@@ -315,6 +315,11 @@ std::optional<Token> scanNumber(Scanner& s)
             s.pop();
 
             const auto neg = s.match("-", Scanner::Skip);
+            if (!neg)
+                s.match("+", Scanner::Skip);
+            if (!isdigit(s.at(0)))
+                s.fail("Expected at least one exponent digit");
+
             double exp = 0;
             while (isdigit(s.at(0))) {
                 exp *= 10.;
@@ -363,7 +368,7 @@ std::optional<Token> scanNumber(Scanner& s)
         }
 
         /* SCI notation results in float if exponent != 0 (=1) */
-        if (auto sci = parseSciSuffix(s); sci != 1)
+        if (auto sci = base == 10 ? parseSciSuffix(s) : 1.0; sci != 1)
             return Token(Token::FLOAT, n * sci, begin, s.pos());
         if (isalpha(s.at(0)) || s.at(0) == '.')
             s.fail("Unexpected non-digit character");
-- 
2.43.0


From 642e80db6fea271ab99257eba96026e1f9e17eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:43 +0000
Subject: [PATCH 06/40] fix: numeric literals denote the written value or are
 rejected

Integer literals that do not fit 64 bits wrapped around, long mantissas lost
their integer part and huge exponents produced NaN.
---
 src/token.cpp | 56 ++++++++++++++++++++++++++++-----------------------
 1 file changed, 31 insertions(+), 25 deletions(-)

diff --git a/src/token.cpp b/src/token.cpp
index 0331a0e..9730c43 100644
--- a/src/token.cpp
+++ b/src/token.cpp
@@ -7,7 +7,9 @@
 #include <cmath>
 #include <cstddef>
 #include <cstdint>
+#include <cstdlib>
 #include <cassert>
+#include <limits>
 #include <ostream>
 #include <stdexcept>
 #include <string_view>
@@ -314,24 +316,23 @@ std::optional<Token> scanNumber(Scanner& s)
         if (tolower(s.at(0)) == 'e') {
             s.pop();
 
-            const auto neg = s.match("-", Scanner::Skip);
-            if (!neg)
+            if (!s.match("-", Scanner::Skip))
                 s.match("+", Scanner::Skip);
             if (!isdigit(s.at(0)))
                 s.fail("Expected at least one exponent digit");
 
-            double exp = 0;
-            while (isdigit(s.at(0))) {
-                exp *= 10.;
-                exp += s.pop() - '0';
-            }
-
-            if (neg)
-                return 1.0 / std::pow(10.0, exp);
-            return std::pow(10.0, exp);
+            auto nonZero = false;
+            while (isdigit(s.at(0)))
+                nonZero |= s.pop() != '0';
+            return nonZero;
         }
 
-        return 1.0;
+        return false;
+    };
+
+    const auto toFloat = [](Scanner& s, size_t begin)
+    {
+        return std::strtod(std::string(s.orig_.substr(begin, s.pos() - begin)).c_str(), nullptr);
     };
 
     const auto begin = s.pos();
@@ -345,35 +346,40 @@ std::optional<Token> scanNumber(Scanner& s)
         s.fail("Expected at least one digit after base specifier");
 
     if (isdigit(s.at(0)) || (s.at(0) == '.' && isdigit(s.at(1))) || base > 10) {
-        int64_t n = 0;
+        uint64_t n = 0;
+        auto overflow = false;
         while (isdigit(s.at(0)) || (base > 10 && isxdigit(s.at(0)))) {
-            n *= base;
-            n += chr2digit(s, base, s.pop());
+            const uint64_t digit = chr2digit(s, base, s.pop());
+            overflow |= n > (std::numeric_limits<uint64_t>::max() - digit) / base;
+            n = n * base + digit;
         }
 
         if (s.match(".", Scanner::Skip)) {
             if (base != 10)
                 s.fail("Decimal point is allowed for base 10 numbers only");
 
-            double f = n;
-            for (auto i = 1; isdigit(s.at(0)); ++i) {
-                f += (s.pop() - '0') / std::pow(10, i);
-            }
+            while (isdigit(s.at(0)))
+                s.pop();
 
-            f *= parseSciSuffix(s);
+            parseSciSuffix(s);
             if (isalpha(s.at(0)) || s.at(0) == '.')
                 s.fail("Unexpected non-digit character");
 
-            return Token(Token::FLOAT, f, begin, s.pos());
+            return Token(Token::FLOAT, toFloat(s, begin), begin, s.pos());
         }
 
-        /* SCI notation results in float if exponent != 0 (=1) */
-        if (auto sci = base == 10 ? parseSciSuffix(s) : 1.0; sci != 1)
-            return Token(Token::FLOAT, n * sci, begin, s.pos());
+        /* SCI notation results in float if exponent != 0 */
+        const auto sci = base == 10 && parseSciSuffix(s);
         if (isalpha(s.at(0)) || s.at(0) == '.')
             s.fail("Unexpected non-digit character");
+        if (sci)
+            return Token(Token::FLOAT, toFloat(s, begin), begin, s.pos());
+
+        /* Base 2 and 16 literals may use the full 64 bit pattern */
+        if (overflow || (base == 10 && n > static_cast<uint64_t>(std::numeric_limits<int64_t>::max())))
+            s.fail("Integer literal out of range");
 
-        return Token(Token::INT, n, begin, s.pos());
+        return Token(Token::INT, static_cast<int64_t>(n), begin, s.pos());
     }
 
     return {};
-- 
2.43.0


From 3b1d2d71cf0dcdbda55b621545e2c8bf1fe58876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:22 +0000
Subject: [PATCH 07/40] fix: parse relational operators with their documented
 precedence

---
 src/simfil.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/simfil.cpp b/src/simfil.cpp
index a987a40..009713a 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -1359,10 +1359,10 @@ auto compile(Environment& env, std::string_view sv, bool any, bool autoWildcard)
     /* Comparison/Test */
     p.infixParsers[Token::OP_EQ]     = std::make_unique<BinaryOpParser<OperatorEq,   Precedence::EQUALITY>>();
     p.infixParsers[Token::OP_NOT_EQ] = std::make_unique<BinaryOpParser<OperatorNeq,  Precedence::EQUALITY>>();
-    p.infixParsers[Token::OP_LT]     = std::make_unique<BinaryOpParser<OperatorLt,   Precedence::EQUALITY>>();
-    p.infixParsers[Token::OP_LTEQ]   = std::make_unique<BinaryOpParser<OperatorLtEq, Precedence::EQUALITY>>();
-    p.infixParsers[Token::OP_GT]     = std::make_unique<BinaryOpParser<OperatorGt,   Precedence::EQUALITY>>();
-    p.infixParsers[Token::OP_GTEQ]   = std::make_unique<BinaryOpParser<OperatorGtEq, Precedence::EQUALITY>>();
+    p.infixParsers[Token::OP_LT]     = std::make_unique<BinaryOpParser<OperatorLt,   Precedence::COMPARISON>>();
+    p.infixParsers[Token::OP_LTEQ]   = std::make_unique<BinaryOpParser<OperatorLtEq, Precedence::COMPARISON>>();
+    p.infixParsers[Token::OP_GT]     = std::make_unique<BinaryOpParser<OperatorGt,   Precedence::COMPARISON>>();
+    p.infixParsers[Token::OP_GTEQ]   = std::make_unique<BinaryOpParser<OperatorGtEq, Precedence::COMPARISON>>();
     p.infixParsers[Token::OP_AND]    = std::make_unique<AndOrParser>();
     p.infixParsers[Token::OP_OR]     = std::make_unique<AndOrParser>();
 
-- 
2.43.0


From 337ffc383da8be48b775b9ebc15c2999de064a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:22 +0000
Subject: [PATCH 08/40] fix: postfix operators must not swallow operators of
 lower precedence

---
 src/simfil.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/simfil.cpp b/src/simfil.cpp
index 009713a..c7e09b7 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -1065,7 +1065,7 @@ class UnaryPostOpParser : public InfixParselet
 {
     auto parse(Parser& p, ExprPtr left, Token t) const -> ExprPtr override
     {
-        return p.parseInfix(simplifyOrForward(p.env, std::make_unique<UnaryExpr<Operator>>(std::move(left))), 0);
+        return simplifyOrForward(p.env, std::make_unique<UnaryExpr<Operator>>(std::move(left)));
     }
 
     auto precedence() const -> int override
@@ -1081,7 +1081,7 @@ class UnpackOpParser : public InfixParselet
 {
     auto parse(Parser& p, ExprPtr left, Token t) const -> ExprPtr override
     {
-        return p.parseInfix(simplifyOrForward(p.env, std::make_unique<UnpackExpr>(std::move(left))), 0);
+        return simplifyOrForward(p.env, std::make_unique<UnpackExpr>(std::move(left)));
     }
 
     auto precedence() const -> int override
@@ -1104,8 +1104,8 @@ class WordOpParser : public InfixParselet
                                                                                std::move(left),
                                                                                std::move(right)));
         /* Parse as unary operator */
-        return p.parseInfix(simplifyOrForward(p.env, std::make_unique<UnaryWordOpExpr>(std::move(t),
-                                                                                       std::move(left))), 0);
+        return simplifyOrForward(p.env, std::make_unique<UnaryWordOpExpr>(std::move(t),
+                                                                          std::move(left)));
     }
 
     auto precedence() const -> int override
-- 
2.43.0


From b6429fea4972297f69e0cee18a3dd71226c94426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:22 +0000
Subject: [PATCH 09/40] fix: an upper-case word at the beginning of a path is a
 field name

---
 src/simfil.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simfil.cpp b/src/simfil.cpp
index c7e09b7..4a038ff 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -1278,8 +1278,8 @@ class WordParser : public PrefixParselet
             auto arguments = p.parseList(Token::RPAREN);
             return simplifyOrForward(p.env, std::make_unique<CallExpression>(word, std::move(arguments)));
         } else if (!p.ctx.inPath) {
-            /* Parse Symbols (words in upper-case) */
-            if (isSymbolWord(word)) {
+            /* Parse Symbols (words in upper-case), if they do not start a path */
+            if (isSymbolWord(word) && !p.match(Token::DOT)) {
                 return std::make_unique<ConstExpr>(Value::make<std::string>(std::move(word)));
             }
             /* Constant */
-- 
2.43.0


From 6fc5a9bb10c17cec8a5719f0c1f28a9e61e42cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:22 +0000
Subject: [PATCH 10/40] fix: propagate the stop request of the result callback

---
 src/function.cpp |  2 +-
 src/simfil.cpp   | 25 +++++++++++--------------
 2 files changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/function.cpp b/src/function.cpp
index 716947a..4524394 100644
--- a/src/function.cpp
+++ b/src/function.cpp
@@ -508,7 +508,7 @@ auto SplitFn::eval(Context ctx, Value val, const std::vector<ExprPtr>& args, con
     auto items = split(str.as<ValueType::String>(), sep.as<ValueType::String>(), !keepEmpty.as<ValueType::Bool>());
     for (auto&& item : items) {
         if (res(subctx, Value::make(std::move(item))) == Result::Stop)
-            break;
+            return Result::Stop;
     }
 
     return Result::Continue;
diff --git a/src/simfil.cpp b/src/simfil.cpp
index 4a038ff..b833481 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -169,16 +169,16 @@ struct CountedResultFn : ResultFn
     }
 
     /* NOTE: You _must_ call finish before destruction! */
-    auto ensureCall()
+    auto ensureCall(Result result) -> Result
     {
         assert(!finished);
         if (calls == 0 && !finished) {
             finished = true;
             if (nonctx.phase == Context::Phase::Compilation)
-                fn(nonctx, Value::undef());
-            else
-                fn(nonctx, Value::null());
+                return fn(nonctx, Value::undef());
+            return fn(nonctx, Value::null());
         }
+        return result;
     }
 };
 
@@ -227,8 +227,7 @@ public:
         };
 
         auto r = Iterate{ctx, res}.iterate(*val.node, 0);
-        res.ensureCall();
-        return r;
+        return res.ensureCall(r);
     }
 
     auto toString() const -> std::string override
@@ -268,7 +267,7 @@ public:
             return true;
         }));
 
-        return Result::Continue;
+        return result;
     }
 
     auto toString() const -> std::string override
@@ -457,8 +456,7 @@ public:
                 return Result::Continue;
             }));
         }));
-        res.ensureCall();
-        return r;
+        return res.ensureCall(r);
     }
 
     auto toString() const -> std::string override
@@ -505,8 +503,7 @@ public:
                 return Result::Continue;
             }));
         }));
-        res.ensureCall();
-        return r;
+        return res.ensureCall(r);
     }
 
     auto toString() const -> std::string override
@@ -608,8 +605,7 @@ public:
                 return res(ctx, std::move(vv));
             }));
         }));
-        res.ensureCall();
-        return r;
+        return res.ensureCall(r);
     };
 
     auto toString() const -> std::string override
@@ -646,7 +642,8 @@ public:
                 auto r = Result::Continue;
                 obj.meta->unpack(obj, [&](Value vv) {
                     anyval = true;
-                    return res(ctx, std::move(vv)) == Result::Continue;
+                    r = res(ctx, std::move(vv));
+                    return r == Result::Continue;
                 });
 
                 if (r == Result::Stop)
-- 
2.43.0


From 8919b9f55ad74436eb8ffc2deb1dcaf1333915e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:22 +0000
Subject: [PATCH 11/40] fix: select() must not stop the enclosing evaluation
 when its limit is reached

---
 src/function.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/function.cpp b/src/function.cpp
index 4524394..ce2068b 100644
--- a/src/function.cpp
+++ b/src/function.cpp
@@ -546,15 +546,16 @@ auto SelectFn::eval(Context ctx, Value val, const std::vector<ExprPtr>& args, co
     if (icnt <= 0)
         icnt = std::numeric_limits<int>::max();
 
-    auto result = args[0]->eval(ctx, val, LambdaResultFn([&, n = -1](Context ctx, Value vv) mutable {
+    auto result = Result::Continue; /* Result of `res` only; reaching the limit stops just the input. */
+    args[0]->eval(ctx, val, LambdaResultFn([&, n = -1](Context ctx, Value vv) mutable {
         ++n;
         if (ctx.phase == Context::Phase::Compilation)
             if (vv.isa(ValueType::Undef))
-                return res(ctx, std::move(vv));
+                return result = res(ctx, std::move(vv));
         if (n >= iidx + icnt)
             return Result::Stop;
         if (n >= iidx)
-            return res(ctx, std::move(vv));
+            return result = res(ctx, std::move(vv));
         return Result::Continue;
     }));
 
-- 
2.43.0


From b2771304cbba24b0f11bd520f4fc9d84293a046c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:22 +0000
Subject: [PATCH 12/40] fix: do not fold expressions whose value is partly
 unknown or exceeds the constant limit

---
 src/simfil.cpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/simfil.cpp b/src/simfil.cpp
index b833481..92c426a 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -495,7 +495,7 @@ public:
             return sub_->eval(ctx, lv, LambdaResultFn([&res, &lv](Context ctx, Value vv) {
                 auto bv = UnaryOperatorDispatcher<OperatorBool>::dispatch(vv);
                 if (bv.isa(ValueType::Undef))
-                    return Result::Continue;
+                    return ctx.phase == Context::Phase::Compilation ? res(ctx, std::move(bv)) : Result::Continue;
 
                 if (bv.isa(ValueType::Bool) && bv.template as<ValueType::Bool>())
                     return res(ctx, lv);
@@ -590,14 +590,14 @@ public:
 
         auto r = left_->eval(ctx, val, LambdaResultFn([this, &res](Context ctx, Value v) {
             if (v.isa(ValueType::Undef))
-                return Result::Continue;
+                return ctx.phase == Context::Phase::Compilation ? res(ctx, std::move(v)) : Result::Continue;
 
             if (v.isa(ValueType::Null) && !v.node)
                 return Result::Continue;
 
             return right_->eval(ctx, std::move(v), LambdaResultFn([this, &res](Context ctx, Value vv) {
                 if (vv.isa(ValueType::Undef))
-                    return Result::Continue;
+                    return ctx.phase == Context::Phase::Compilation ? res(ctx, std::move(vv)) : Result::Continue;
 
                 if (vv.isa(ValueType::Null) && !vv.node)
                     return Result::Continue;
@@ -917,18 +917,15 @@ static auto simplifyOrForward(Environment* env, ExprPtr expr) -> ExprPtr
         return nullptr;
 
     std::deque<Value> values;
+    auto constant = true;
     auto stub = Context(env, Context::Phase::Compilation);
-    (void)expr->eval(stub, Value::undef(), LambdaResultFn([&, n = 0](Context ctx, Value vv) mutable {
-        if (!vv.isa(ValueType::Undef) || vv.node) {
+    (void)expr->eval(stub, Value::undef(), LambdaResultFn([&](Context ctx, Value vv) {
+        if (constant && (!vv.isa(ValueType::Undef) || vv.node) && values.size() < MultiConstExpr::Limit) {
             values.push_back(std::move(vv));
             return Result::Continue;
         }
 
-        if (++n > MultiConstExpr::Limit) {
-            values.clear();
-            return Result::Stop;
-        }
-
+        constant = false;
         values.clear();
         return Result::Stop;
     }));
-- 
2.43.0


From 63290e321c74838d5c617131618f654b370a403a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:22 +0000
Subject: [PATCH 13/40] fix: do not fold sum() of an unknown input to a
 constant

---
 src/function.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/function.cpp b/src/function.cpp
index ce2068b..3207e4c 100644
--- a/src/function.cpp
+++ b/src/function.cpp
@@ -581,6 +581,7 @@ auto SumFn::eval(Context ctx, Value val, const std::vector<ExprPtr>& args, const
         raise<std::runtime_error>("sum: Expected at least 1 argument; got "s + std::to_string(args.size()));
 
     Value sum = Value::make((int64_t)0);
+    auto undef = false; /* At least one value is undef */
 
     const Expr* subexpr = args.size() >= 2 ? args[1].get() : nullptr;
     const Expr* initval = args.size() == 3 ? args[2].get() : nullptr;
@@ -591,6 +592,13 @@ auto SumFn::eval(Context ctx, Value val, const std::vector<ExprPtr>& args, const
         }));
 
     (void)args[0]->eval(ctx, val, LambdaResultFn([&, n = 0](Context ctx, Value vv) mutable {
+        if (ctx.phase == Context::Phase::Compilation) {
+            if (vv.isa(ValueType::Undef) || sum.isa(ValueType::Undef)) {
+                undef = true;
+                return Result::Stop;
+            }
+        }
+
         if (subexpr) {
             auto ov = model_ptr<OverlayNode>::make(vv);
             ov->set(StringPool::OverlaySum, sum);
@@ -613,6 +621,8 @@ auto SumFn::eval(Context ctx, Value val, const std::vector<ExprPtr>& args, const
         return Result::Continue;
     }));
 
+    if (undef)
+        return res(std::move(ctx), Value::undef());
     return res(std::move(ctx), sum);
 }
 
-- 
2.43.0


From edbdbbadffa43c40d45203e314283b60922c65df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:22 +0000
Subject: [PATCH 14/40] fix: evaluate ** on values that are not model nodes

---
 src/simfil.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/simfil.cpp b/src/simfil.cpp
index 92c426a..ba07546 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -200,6 +200,14 @@ public:
 
         CountedResultFn<const ResultFn&> res(ores, ctx);
 
+        /* A value which is not part of a model has no children */
+        if (!val.node) {
+            auto r = Result::Continue;
+            if (!val.isa(ValueType::Null))
+                r = res(ctx, std::move(val));
+            return res.ensureCall(r);
+        }
+
         struct Iterate
         {
             Context& ctx;
-- 
2.43.0


From 3f9d3e47c0ce5bae60289244432006e71cc2f6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:40 +0000
Subject: [PATCH 15/40] fix: dividing the lowest integer by -1 must not crash

---
 include/simfil/operator.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/simfil/operator.h b/include/simfil/operator.h
index 884eff0..58b92f7 100644
--- a/include/simfil/operator.h
+++ b/include/simfil/operator.h
@@ -435,6 +435,8 @@ struct OperatorDiv
     {
         if (r == 0)
             raise<std::runtime_error>("Division by zero");
+        if (r == -1) /* The quotient of the lowest integer is not representable: wrap around */
+            return static_cast<int64_t>(0 - static_cast<uint64_t>(l));
         return static_cast<int64_t>(l / r);
     }
 
@@ -470,6 +472,8 @@ struct OperatorMod
     {
         if (r == 0)
             raise<std::runtime_error>("Division by zero");
+        if (r == -1) /* Division of the lowest integer by -1 traps */
+            return 0;
         return static_cast<int64_t>(l % r);
     }
 };
-- 
2.43.0


From dbf86dc36b58b2c0c97badf683c2c92f23055738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:40 +0000
Subject: [PATCH 16/40] fix: casting a float to int must not be undefined if it
 is out of range

---
 include/simfil/operator.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/simfil/operator.h b/include/simfil/operator.h
index 58b92f7..b994643 100644
--- a/include/simfil/operator.h
+++ b/include/simfil/operator.h
@@ -209,6 +209,9 @@ struct OperatorAsInt
 
     auto operator()(double v) const
     {
+        /* Not representable values (including NaN) convert to 0 */
+        if (!(v >= -9223372036854775808.0 && v < 9223372036854775808.0))
+            return static_cast<int64_t>(0);
         return static_cast<int64_t>(v);
     }
 
-- 
2.43.0


From 645bf4af559bdb9b0c5af7bc853918c317a792b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:40 +0000
Subject: [PATCH 17/40] fix: casting a model node to float results in a float

---
 include/simfil/operator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/simfil/operator.h b/include/simfil/operator.h
index b994643..ea9c724 100644
--- a/include/simfil/operator.h
+++ b/include/simfil/operator.h
@@ -261,7 +261,7 @@ struct OperatorAsFloat
 
     auto operator()(const ModelNode&) const
     {
-        return (int64_t)0.0;
+        return 0.0;
     }
 
     NULL_AS((double)0)
-- 
2.43.0


From 391c2d97125dcbad96dc74e3a849774cfcee9cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:40 +0000
Subject: [PATCH 18/40] fix: shifting by 64 or more bits is undefined

---
 include/simfil/operator.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/simfil/operator.h b/include/simfil/operator.h
index ea9c724..e6a0bdb 100644
--- a/include/simfil/operator.h
+++ b/include/simfil/operator.h
@@ -613,7 +613,11 @@ struct OperatorShl
     NULL_AS_NULL()
     INT_AS_UINT()
     DENY_OTHER()
-    DECL_OPERATION(uint64_t,     uint64_t,     <<)
+
+    auto operator()(uint64_t a, uint64_t b) const -> uint64_t
+    {
+        return b < 64 ? a << b : 0;
+    }
 };
 
 struct OperatorShr
@@ -622,7 +626,11 @@ struct OperatorShr
     NULL_AS_NULL()
     INT_AS_UINT()
     DENY_OTHER()
-    DECL_OPERATION(uint64_t,     uint64_t,     >>)
+
+    auto operator()(uint64_t a, uint64_t b) const -> uint64_t
+    {
+        return b < 64 ? a >> b : 0;
+    }
 };
 
 #undef DENY_OTHER
-- 
2.43.0


From 65bede270388a2acf2b2ebe656961326790dc657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:40 +0000
Subject: [PATCH 19/40] fix: setting an overlay field again replaces its value

---
 src/overlay.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/overlay.cpp b/src/overlay.cpp
index 612ea8e..7b04ec1 100644
--- a/src/overlay.cpp
+++ b/src/overlay.cpp
@@ -20,7 +20,7 @@ OverlayNode::OverlayNode(ModelNode const& n)
 
 auto OverlayNode::set(StringId const& key, Value const& child) -> void
 {
-    model().overlayChildren_.insert({key, child});
+    model().overlayChildren_.insert_or_assign(key, child);
 }
 
 [[nodiscard]] ScalarValueType OverlayNode::value() const
-- 
2.43.0


From 3ed25bf03be023ee2ce4c891584250029e3fc31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:40 +0000
Subject: [PATCH 20/40] fix: an overlay over a value that is not a model node
 has no underlying children

---
 src/overlay.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/overlay.cpp b/src/overlay.cpp
index 7b04ec1..37fd597 100644
--- a/src/overlay.cpp
+++ b/src/overlay.cpp
@@ -41,25 +41,35 @@ auto OverlayNode::set(StringId const& key, Value const& child) -> void
             return iter->second.node;
         return ValueNode(iter->second.getScalar());
     }
+    if (!model().value_.node)
+        return {};
     return model().value_.node->get(key);
 }
 
 [[nodiscard]] ModelNode::Ptr OverlayNode::at(int64_t i) const
 {
+    if (!model().value_.node)
+        return {};
     return model().value_.node->at(i);
 }
 
 [[nodiscard]] StringId OverlayNode::keyAt(int64_t i) const
 {
+    if (!model().value_.node)
+        return StringPool::Empty;
     return model().value_.node->keyAt(i);
 }
 
 [[nodiscard]] uint32_t OverlayNode::size() const
 {
+    if (!model().value_.node)
+        return 0;
     return model().value_.node->size();
 }
 
 [[nodiscard]] bool OverlayNode::iterate(IterCallback const& cb) const {
+    if (!model().value_.node)
+        return true;
     return model().value_.node->iterate(cb);
 }
 
-- 
2.43.0


From 77c3752dcda2325965ec95597ef2fcd78b2b3397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:40 +0000
Subject: [PATCH 21/40] fix: import null values from JSON

---
 src/model/json.cpp  | 2 +-
 src/model/model.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/model/json.cpp b/src/model/json.cpp
index 06728b4..339ea61 100644
--- a/src/model/json.cpp
+++ b/src/model/json.cpp
@@ -13,7 +13,7 @@ static ModelNode::Ptr build(const json& j, ModelPool & model)
 {
     switch (j.type()) {
     case json::value_t::null:
-        return {};
+        return ModelNode::Ptr::make(model.shared_from_this(), ModelNodeAddress{ModelPool::Null, 1});
     case json::value_t::boolean:
         return model.newSmallValue(j.get<bool>());
     case json::value_t::number_float:
diff --git a/src/model/model.cpp b/src/model/model.cpp
index 85af8dc..02736ff 100644
--- a/src/model/model.cpp
+++ b/src/model/model.cpp
@@ -22,7 +22,7 @@ void Model::resolve(const ModelNode& n, const ResolveFn& cb) const
 {
     switch (n.addr_.column()) {
         case Null:
-            cb(ModelNodeBase(shared_from_this()));
+            cb(ModelNodeBase(shared_from_this(), n.addr_));
             break;
         case UInt16:
             cb(SmallValueNode<uint16_t>(shared_from_this(), n.addr_));
-- 
2.43.0


From 51790134bc51cc9594551dcb021da01f4d0e7bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:40 +0000
Subject: [PATCH 22/40] fix: do not turn big unsigned JSON numbers negative

---
 src/model/json.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/model/json.cpp b/src/model/json.cpp
index 339ea61..f70d7a3 100644
--- a/src/model/json.cpp
+++ b/src/model/json.cpp
@@ -3,6 +3,7 @@
 #include "simfil/model/json.h"
 #include "simfil/model/model.h"
 
+#include <limits>
 #include <nlohmann/json.hpp>
 
 namespace simfil::json
@@ -19,6 +20,9 @@ static ModelNode::Ptr build(const json& j, ModelPool & model)
     case json::value_t::number_float:
         return model.newValue(j.get<double>());
     case json::value_t::number_unsigned:
+        /* Integers beyond the range of int64 are imported as float */
+        if (j.get<uint64_t>() > (uint64_t)std::numeric_limits<int64_t>::max())
+            return model.newValue((double)j.get<uint64_t>());
         return model.newValue((int64_t)j.get<uint64_t>());
     case json::value_t::number_integer:
         return model.newValue(j.get<int64_t>());
-- 
2.43.0


From bf09385adcec2774178e9c8f0873aab29fc76350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:40 +0000
Subject: [PATCH 23/40] fix: a copied string pool must not refer to the strings
 of its source

---
 src/model/string-pool.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/model/string-pool.cpp b/src/model/string-pool.cpp
index dcc7bfc..1ef128f 100644
--- a/src/model/string-pool.cpp
+++ b/src/model/string-pool.cpp
@@ -81,8 +81,10 @@ StringPool::StringPool(const StringPool& other)
         }
     }
 
-    // Copy stringForId_.
-    stringForId_ = other.stringForId_;
+    // Rebuild stringForId_, so that it does not refer to strings owned by `other`.
+    for (const auto& [id, oldStrView] : other.stringForId_) {
+        stringForId_.emplace(id, strDataToNewStrView.at(oldStrView.data()));
+    }
 
     // Copy other member variables.
     nextId_ = other.nextId_;
-- 
2.43.0


From f84c954d416dcab1bf3b520fd02e5d7282b92be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:40 +0000
Subject: [PATCH 24/40] fix: a full string pool must not hand out ids that are
 in use

---
 src/model/string-pool.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/model/string-pool.cpp b/src/model/string-pool.cpp
index 1ef128f..d3a3fb9 100644
--- a/src/model/string-pool.cpp
+++ b/src/model/string-pool.cpp
@@ -7,6 +7,7 @@
 #include <fmt/core.h>
 #include <algorithm>
 #include <cmath>
+#include <limits>
 #include <mutex>
 #include <stdexcept>
 #include <locale>
@@ -112,12 +113,13 @@ StringId StringPool::emplace(std::string_view const& str)
             return it->second;
         }
 
+        if (nextId_ == std::numeric_limits<StringId>::max()) {
+            raise<std::overflow_error>("StringPool id overflow!");
+        }
+
         // Store the string to maintain ownership.
         auto& storedString = storedStrings_.emplace_back(str);
         StringId id = nextId_++;
-        if (nextId_ < id) {
-            raise<std::overflow_error>("StringPool id overflow!");
-        }
         idForString_.emplace(storedString, id);
         stringForId_.emplace(id, storedString);
         byteSize_ += static_cast<int64_t>(storedString.size());
-- 
2.43.0


From 548ac51fc468790fc397f1ec647062643e34b3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:40 +0000
Subject: [PATCH 25/40] fix: synchronize StringPool::highest and operator==

---
 src/model/string-pool.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/model/string-pool.cpp b/src/model/string-pool.cpp
index d3a3fb9..86ebbfb 100644
--- a/src/model/string-pool.cpp
+++ b/src/model/string-pool.cpp
@@ -151,6 +151,7 @@ std::optional<std::string_view> StringPool::resolve(const StringId& id) const
 
 StringId StringPool::highest() const
 {
+    std::shared_lock stringStoreReadAccess_(stringStoreMutex_);
     return nextId_ - 1;
 }
 
@@ -190,7 +191,7 @@ void StringPool::write(std::ostream& outputStream, const StringId offset) const
 
     // Calculate how many strings will be sent
     StringId sendStrCount = 0;
-    const auto high = highest();
+    const StringId high = nextId_ - 1;
     for (auto strId = offset; strId <= high; ++strId) {
         auto it = stringForId_.find(strId);
         if (it != stringForId_.end())
@@ -245,6 +246,11 @@ void StringPool::read(std::istream& inputStream)
 }
 
 bool StringPool::operator==(const StringPool &other) const {
+    if (this == &other)
+        return true;
+    std::shared_lock lockThis(stringStoreMutex_, std::defer_lock);
+    std::shared_lock lockOther(other.stringStoreMutex_, std::defer_lock);
+    std::lock(lockThis, lockOther);
     return idForString_ == other.idForString_;
 }
 
-- 
2.43.0


From 32c41d535b42f94e7e1a45b0d234129fb0541117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:40 +0000
Subject: [PATCH 26/40] fix: data races on name caches when evaluating one
 expression concurrently

---
 src/simfil.cpp | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/simfil.cpp b/src/simfil.cpp
index ba07546..d41a2af 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -12,6 +12,7 @@
 #include "fmt/core.h"
 
 #include <algorithm>
+#include <atomic>
 #include <cctype>
 #include <cstdint>
 #include <iterator>
@@ -308,16 +309,19 @@ public:
         if (!val.node)
             return res(ctx, Value::null());
 
-        if (!nameId_)
-            nameId_ = ctx.env->strings()->get(name_);
+        auto nameId = nameId_.load(std::memory_order_relaxed);
+        if (!nameId) {
+            nameId = ctx.env->strings()->get(name_);
+            nameId_.store(nameId, std::memory_order_relaxed);
+        }
 
-        if (!nameId_)
+        if (!nameId)
             /* If the field name is not in the string cache, then there
                is no field with that name. */
             return res(ctx, Value::null());
 
         /* Enter sub-node */
-        if (auto sub = val.node->get(nameId_)) {
+        if (auto sub = val.node->get(nameId)) {
             return res(ctx, Value::field(*sub));
         }
 
@@ -332,7 +336,7 @@ public:
     }
 
     std::string name_;
-    mutable StringId nameId_ = {};
+    mutable std::atomic<StringId> nameId_ = StringPool::Empty;
 };
 
 class MultiConstExpr : public Expr
@@ -538,13 +542,16 @@ public:
 
     auto ieval(Context ctx, Value val, const ResultFn& res) const -> Result override
     {
-        if (!fn_)
-            fn_ = ctx.env->findFunction(name_);
-        if (!fn_)
+        auto fn = fn_.load(std::memory_order_relaxed);
+        if (!fn) {
+            fn = ctx.env->findFunction(name_);
+            fn_.store(fn, std::memory_order_relaxed);
+        }
+        if (!fn)
             raise<std::runtime_error>("Unknown function "s + name_);
 
         auto anyval = false;
-        auto result = fn_->eval(ctx, val, args_, LambdaResultFn([&res, &anyval](Context ctx, Value vv) {
+        auto result = fn->eval(ctx, val, args_, LambdaResultFn([&res, &anyval](Context ctx, Value vv) {
             anyval = true;
             return res(ctx, std::move(vv));
         }));
@@ -568,7 +575,7 @@ public:
 
     std::string name_;
     std::vector<ExprPtr> args_;
-    mutable const Function* fn_;
+    mutable std::atomic<const Function*> fn_;
 };
 
 class PathExpr : public Expr
-- 
2.43.0


From 0ca70b34e4d06b38e8f164f5613e91ac1769f232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:40 +0000
Subject: [PATCH 27/40] fix: assigning transient objects from themselves, to or
 from moved objects

---
 include/simfil/transient.h | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/simfil/transient.h b/include/simfil/transient.h
index 03f27de..b881e04 100644
--- a/include/simfil/transient.h
+++ b/include/simfil/transient.h
@@ -50,14 +50,18 @@ struct TransientObject
     void* data = nullptr;
 
     TransientObject(const TransientObject& other)
-        : meta(other.meta), data(meta->copy(other.data))
+        : meta(other.meta), data(meta ? meta->copy(other.data) : nullptr)
     {}
 
-    auto operator=(const TransientObject& other)
+    auto operator=(const TransientObject& other) -> TransientObject&
     {
-        meta->deinit(data);
+        if (this == &other)
+            return *this;
+        auto copy = other.meta ? other.meta->copy(other.data) : nullptr;
+        if (meta)
+            meta->deinit(data);
         meta = other.meta;
-        data = meta->copy(other.data);
+        data = copy;
         return *this;
     }
 
@@ -69,9 +73,12 @@ struct TransientObject
         other.data = nullptr;
     }
 
-    auto operator=(TransientObject&& other)
+    auto operator=(TransientObject&& other) -> TransientObject&
     {
-        meta->deinit(data);
+        if (this == &other)
+            return *this;
+        if (meta)
+            meta->deinit(data);
         meta = std::move(other.meta);
         data = std::move(other.data);
         other.meta = nullptr;
-- 
2.43.0


From 698e61aeb4737143caeedabbb49487af71db322c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:40 +0000
Subject: [PATCH 28/40] fix: reading a model replaces previous object and array
 members

---
 include/simfil/model/bitsery-traits.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/simfil/model/bitsery-traits.h b/include/simfil/model/bitsery-traits.h
index a2318c4..57d38e1 100644
--- a/include/simfil/model/bitsery-traits.h
+++ b/include/simfil/model/bitsery-traits.h
@@ -61,10 +61,11 @@ struct ArrayArenaExt
     template <typename S, typename ElementType, size_t PageSize, size_t ChunkPageSize, typename Fnc>
     void deserialize(S& s, simfil::ArrayArena<ElementType, PageSize, ChunkPageSize>& arena, Fnc&& fnc) const
     {
-        simfil::ArrayIndex numArrays;
+        arena.clear();
+        simfil::ArrayIndex numArrays = 0;
         s.value4b(numArrays);
         for (simfil::ArrayIndex i = 0; i < numArrays; ++i) {
-            typename std::decay_t<decltype(arena)>::SizeType size;
+            typename std::decay_t<decltype(arena)>::SizeType size = 0;
             s.value4b(size);
             auto arrayIndex = arena.new_array(size);
             for (size_t j = 0; j < size; ++j)
-- 
2.43.0


From 9389c3b0f38dada19192ef38f4aa52ba81f0bc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:40 +0000
Subject: [PATCH 29/40] fix: a failed StringPool::read must not leave partial
 strings behind

---
 src/model/string-pool.cpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/model/string-pool.cpp b/src/model/string-pool.cpp
index 86ebbfb..020cc82 100644
--- a/src/model/string-pool.cpp
+++ b/src/model/string-pool.cpp
@@ -220,16 +220,25 @@ void StringPool::read(std::istream& inputStream)
     s.value2b(rcvStringCount);
 
     // Read strings
-    for (auto i = 0; i < rcvStringCount; ++i) {
+    std::deque<std::pair<StringId, std::string>> received;
+    for (auto i = 0; i < rcvStringCount && s.adapter().error() == bitsery::ReaderError::NoError; ++i) {
         // Read string key
-        StringId stringId{};
+        auto& [stringId, stringValue] = received.emplace_back();
         s.value2b(stringId);
 
         // Don't support strings longer than 64kB.
-        auto& stringValue = storedStrings_.emplace_back();
         s.text1b(stringValue, std::numeric_limits<uint16_t>::max());
+    }
+
+    if (s.adapter().error() != bitsery::ReaderError::NoError) {
+        raise<std::runtime_error>(fmt::format(
+            "Failed to read StringPool: Error {}",
+            static_cast<std::underlying_type_t<bitsery::ReaderError>>(s.adapter().error())));
+    }
 
-        // Insert string into the pool
+    // Insert strings into the pool
+    for (auto& [stringId, string] : received) {
+        auto& stringValue = storedStrings_.emplace_back(std::move(string));
         auto [it, insertionTookPlace] = idForString_.try_emplace(stringValue, stringId);
         if (insertionTookPlace) {
             stringForId_.try_emplace(stringId, stringValue);
@@ -237,12 +246,6 @@ void StringPool::read(std::istream& inputStream)
             nextId_ = std::max<StringId>(nextId_, stringId + 1);
         }
     }
-
-    if (s.adapter().error() != bitsery::ReaderError::NoError) {
-        raise<std::runtime_error>(fmt::format(
-            "Failed to read StringPool: Error {}",
-            static_cast<std::underlying_type_t<bitsery::ReaderError>>(s.adapter().error())));
-    }
 }
 
 bool StringPool::operator==(const StringPool &other) const {
-- 
2.43.0


From 4ffe3bf2f01123b6cb11e1f7d21144fb9838b9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:36 +0000
Subject: [PATCH 30/40] fix: find the field with an empty name by [""]
 subscript

---
 src/simfil.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/simfil.cpp b/src/simfil.cpp
index d41a2af..346cb20 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -453,7 +453,9 @@ public:
                     /* String subscript */
                     else if (ival.isa(ValueType::String)) {
                         auto key = ival.as<ValueType::String>();
-                        if (auto keyStrId = ctx.env->strings()->get(key))
+                        auto keyStrId = ctx.env->strings()->get(key);
+                        /* `Empty` is the id of unknown strings and of the empty field name */
+                        if (keyStrId != StringPool::Empty || key.empty())
                             node = lval.node->get(keyStrId);
                     }
 
-- 
2.43.0


From 26ce498dcd4b20c7cb9a14b7d49d397475c02dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:29 +0000
Subject: [PATCH 31/40] fix: StringPool::bytes() no longer reports half of a
 concurrent read()

---
 src/model/string-pool.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/model/string-pool.cpp b/src/model/string-pool.cpp
index 020cc82..b5b0825 100644
--- a/src/model/string-pool.cpp
+++ b/src/model/string-pool.cpp
@@ -163,6 +163,7 @@ size_t StringPool::size() const
 
 size_t StringPool::bytes() const
 {
+    std::shared_lock stringStoreReadAccess_(stringStoreMutex_);
     return byteSize_;
 }
 
-- 
2.43.0


From f3ccdda41248e42beab4e2e88909dbb96c559de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:40 +0000
Subject: [PATCH 32/40] fix: ArrayArena iteration takes the arena lock when it
 looks up chunks and elements

---
 include/simfil/model/arena.h | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/include/simfil/model/arena.h b/include/simfil/model/arena.h
index a9994fb..49d4085 100644
--- a/include/simfil/model/arena.h
+++ b/include/simfil/model/arena.h
@@ -291,9 +291,9 @@ public:
     const_iterator end(ArrayIndex const& a) const { return const_iterator(*this, a, size(a)); }
 
     ArrayArenaIterator begin() { return ArrayArenaIterator(*this, 0); }
-    ArrayArenaIterator end() { return ArrayArenaIterator(*this, static_cast<ArrayIndex>(heads_.size())); }
+    ArrayArenaIterator end() { return ArrayArenaIterator(*this, static_cast<ArrayIndex>(size())); }
     ArrayArenaIterator begin() const { return ArrayArenaIterator(*this, 0); }
-    ArrayArenaIterator end() const { return ArrayArenaIterator(*this, static_cast<ArrayIndex>(heads_.size())); }
+    ArrayArenaIterator end() const { return ArrayArenaIterator(*this, static_cast<ArrayIndex>(size())); }
 
     ArrayRange range(ArrayIndex const& array) {return ArrayRange(begin(array), end(array));}
 
@@ -302,26 +302,35 @@ public:
     template <typename Func>
     void iterate(ArrayIndex const& a, Func&& lambda)
     {
-        Chunk const* current = &heads_[a];
+        // Elements and chunks do not move when the arena grows, but looking them up
+        // must not overlap with growth. The lock is not held while the lambda runs.
+        auto lookup = [this](auto& container, size_t index) {
+            #ifdef ARRAY_ARENA_THREAD_SAFE
+            std::shared_lock guard(lock_);
+            #endif
+            return &container[index];
+        };
+        Chunk const* current = lookup(heads_, a);
         size_t globalIndex = 0;
         while (current != nullptr)
         {
             for (size_t i = 0; i < current->size && i < current->capacity; ++i)
             {
+                auto& element = *lookup(data_, current->offset + i);
                 if constexpr (std::is_invocable_r_v<bool, Func, ElementType_&>) {
                     // If lambda returns bool, break if it returns false
-                    if (!lambda(data_[current->offset + i]))
+                    if (!lambda(element))
                         return;
                 }
                 else if constexpr (std::is_invocable_v<Func, ElementType_&, size_t>) {
                     // If lambda takes two arguments, pass the current index
-                    lambda(data_[current->offset + i], globalIndex);
+                    lambda(element, globalIndex);
                 }
                 else
-                    lambda(data_[current->offset + i]);
+                    lambda(element);
                 ++globalIndex;
             }
-            current = (current->next != InvalidArrayIndex) ? &continuations_[current->next] : nullptr;
+            current = (current->next != InvalidArrayIndex) ? lookup(continuations_, current->next) : nullptr;
         }
     }
 
-- 
2.43.0


From 3ef8c8ae2cc541edcbfe4bd726f8836e46e31729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:30 +0000
Subject: [PATCH 33/40] fix: end the repl at the end of its input

---
 repl/repl.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/repl/repl.cpp b/repl/repl.cpp
index 9a94857..8af23ac 100644
--- a/repl/repl.cpp
+++ b/repl/repl.cpp
@@ -86,19 +86,23 @@ char** command_completion(const char *text, int start, int end)
 }
 #endif
 
-static std::string input(const char* prompt = "> ")
+/* Returns an empty optional at the end of input */
+static std::optional<std::string> input(const char* prompt = "> ")
 {
     std::string r;
 #ifdef WITH_READLINE
     auto buf = readline(prompt);
-    if (buf && buf[0]) {
+    if (!buf)
+        return {};
+    if (buf[0]) {
         r = buf;
         add_history(buf);
     }
     free(buf);
 #else
     std::cout << prompt << std::flush;
-    std::getline(std::cin, r);
+    if (!std::getline(std::cin, r))
+        return {};
 #endif
     return r;
 }
@@ -205,7 +209,10 @@ int main(int argc, char *argv[])
     }
 
     for (;;) {
-        auto cmd = input("> ");
+        auto line = input("> ");
+        if (!line)
+            break;
+        auto& cmd = *line;
         if (cmd.empty())
             continue;
         if (cmd[0] == '/') {
-- 
2.43.0


From f82073cad174655617dca2b34c1d032eebd5f7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:30 +0000
Subject: [PATCH 34/40] fix: report a missing repl definition instead of
 crashing

---
 repl/repl.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/repl/repl.cpp b/repl/repl.cpp
index 8af23ac..cc70ee1 100644
--- a/repl/repl.cpp
+++ b/repl/repl.cpp
@@ -190,6 +190,10 @@ int main(int argc, char *argv[])
             case 'D':
                 arg.remove_prefix(2);
                 if (arg.empty()) {
+                    if (argv[1] == nullptr) {
+                        std::cerr << "Missing definition after: -D\n";
+                        return 1;
+                    }
                     arg = *++argv;
                 }
                 if (auto pos = arg.find("="); (pos != std::string::npos) && (pos > 0)) {
-- 
2.43.0


From 94a24b5406eb88f601645918f8219e6214e1ec14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:30 +0000
Subject: [PATCH 35/40] fix: evaluate repl queries without an input file

---
 repl/repl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repl/repl.cpp b/repl/repl.cpp
index cc70ee1..a1362c8 100644
--- a/repl/repl.cpp
+++ b/repl/repl.cpp
@@ -113,7 +113,7 @@ static auto eval_mt(simfil::Environment& env, const simfil::Expr& expr, const st
     result.resize(std::max<size_t>(1, model->numRoots()));
 
     if (!model->numRoots()) {
-        model->addRoot(simfil::ModelNode::Ptr());
+        model->addRoot(model->newObject(0));
         result[0] = simfil::eval(env, expr, *model->root(0));
         return result;
     }
-- 
2.43.0


From 3e32e9d17631c627bbf4ce68d96f316fb5f1c2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:30 +0000
Subject: [PATCH 36/40] fix: report evaluation errors of all repl threads

---
 repl/repl.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/repl/repl.cpp b/repl/repl.cpp
index a1362c8..308729e 100644
--- a/repl/repl.cpp
+++ b/repl/repl.cpp
@@ -14,6 +14,7 @@
 #include <atomic>
 #include <fstream>
 #include <chrono>
+#include <exception>
 #include <optional>
 #include <iostream>
 
@@ -124,6 +125,7 @@ static auto eval_mt(simfil::Environment& env, const simfil::Expr& expr, const st
     if (!options.multi_threaded)
         n_threads = 1;
 
+    auto errors = std::vector<std::exception_ptr>(result.size());
     auto idx = std::atomic_size_t(0);
     auto threads = std::vector<std::thread>();
     threads.reserve(n_threads);
@@ -134,7 +136,7 @@ static auto eval_mt(simfil::Environment& env, const simfil::Expr& expr, const st
                 try {
                     result[next] = simfil::eval(env, expr, *model->root(next));
                 } catch (...) {
-                    return;
+                    errors[next] = std::current_exception();
                 }
             }
         }));
@@ -144,6 +146,10 @@ static auto eval_mt(simfil::Environment& env, const simfil::Expr& expr, const st
         if (thread.joinable())
             thread.join();
 
+    for (const auto& error : errors)
+        if (error)
+            std::rethrow_exception(error);
+
     return result;
 }
 
-- 
2.43.0


From 3c85f880251a82c9e7837f5c6051256ef90b9c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:11 +0000
Subject: [PATCH 37/40] fix: operators on types without typeof recursed
 endlessly

---
 include/simfil/operator.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/simfil/operator.h b/include/simfil/operator.h
index e6a0bdb..cfe1281 100644
--- a/include/simfil/operator.h
+++ b/include/simfil/operator.h
@@ -8,6 +8,7 @@
 #include <cstdint>
 #include <string_view>
 #include <string>
+#include <type_traits>
 
 namespace simfil
 {
@@ -676,11 +677,13 @@ struct UnaryOperatorDispatcher
 
             return value.visit(UnaryOperatorDispatcher());
         } catch (const InvalidOperandsError& err) {
-            std::string ltype;
-            try {
-                ltype = UnaryOperatorDispatcher<OperatorTypeof>::dispatch(value).toString();
-            } catch (...) {
-                ltype = valueType2String(value.type);
+            std::string ltype = valueType2String(value.type);
+            /* A type that does not support `typeof` must not be asked for it again */
+            if constexpr (!std::is_same_v<_Operator, OperatorTypeof>) {
+                try {
+                    ltype = UnaryOperatorDispatcher<OperatorTypeof>::dispatch(value).toString();
+                } catch (...) {
+                }
             }
             raise<std::runtime_error>("Invalid operand "s + ltype +
                                      " for operator "s + std::string(err.operatorName));
-- 
2.43.0


From 7773b1c3b92cbdcd328e5e29407b38067419e44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:39 +0000
Subject: [PATCH 38/40] fix: sum with a partly unknown initial value was folded

---
 src/function.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/function.cpp b/src/function.cpp
index 3207e4c..1eb762c 100644
--- a/src/function.cpp
+++ b/src/function.cpp
@@ -587,6 +587,8 @@ auto SumFn::eval(Context ctx, Value val, const std::vector<ExprPtr>& args, const
     const Expr* initval = args.size() == 3 ? args[2].get() : nullptr;
     if (initval)
         (void)initval->eval(ctx, val, LambdaResultFn([&](Context ctx, Value vv) {
+            if (ctx.phase == Context::Phase::Compilation && vv.isa(ValueType::Undef))
+                undef = true;
             sum = std::move(vv);
             return Result::Continue;
         }));
-- 
2.43.0


From 9e5fd51cf27e2b01ab76669e98374bf553f115b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:53 +0000
Subject: [PATCH 39/40] fix: keep a model's string pool if its names do not fit
 into the new one

---
 src/model/model.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/model/model.cpp b/src/model/model.cpp
index 02736ff..9a58683 100644
--- a/src/model/model.cpp
+++ b/src/model/model.cpp
@@ -333,6 +333,17 @@ void ModelPool::setStrings(std::shared_ptr<StringPool> const& strings)
         raise<std::runtime_error>("Attempt to call ModelPool::setStrings(nullptr)!");
 
     auto oldStrings = impl_->strings_;
+    if (oldStrings && !(*strings == *oldStrings)) {
+        // Add all field names to the new dictionary first: This raises if it has
+        // no room left, and the model must still use the old dictionary then.
+        for (auto memberArray : impl_->columns_.objectMemberArrays_) {
+            for (auto& member : memberArray) {
+                if (auto resolvedName = oldStrings->resolve(member.name_))
+                    strings->emplace(*resolvedName);
+            }
+        }
+    }
+
     impl_->strings_ = strings;
     if (!oldStrings || *strings == *oldStrings)
         return;
-- 
2.43.0


From 9a42aa5666868217dad1566602fa9df61cecf004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:17 +0000
Subject: [PATCH 40/40] fix: select with a limit up to the largest integer
 selects the values after the start

---
 src/function.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/function.cpp b/src/function.cpp
index 1eb762c..80ee13b 100644
--- a/src/function.cpp
+++ b/src/function.cpp
@@ -9,6 +9,7 @@
 #include "simfil/overlay.h"
 #include "fmt/core.h"
 
+#include <algorithm>
 #include <iostream>
 #include <optional>
 #include <ranges>
@@ -545,6 +546,8 @@ auto SelectFn::eval(Context ctx, Value val, const std::vector<ExprPtr>& args, co
     auto icnt = cnt.as<ValueType::Int>();
     if (icnt <= 0)
         icnt = std::numeric_limits<int>::max();
+    if (iidx > 0) /* The end index must not overflow */
+        icnt = std::min(icnt, std::numeric_limits<int64_t>::max() - iidx);
 
     auto result = Result::Continue; /* Result of `res` only; reaching the limit stops just the input. */
     args[0]->eval(ctx, val, LambdaResultFn([&, n = -1](Context ctx, Value vv) mutable {
-- 
2.43.0

