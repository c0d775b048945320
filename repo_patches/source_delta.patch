From a4e9f354cc153615b1300025a541d86ee2e8cdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 01/94] fix: arithmetic on an exact decimal and a float gave
 NULL instead of the result

---
 .../calculaters/mysql_funcs/number_funcs.py   | 24 +++++++++++++++----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/number_funcs.py b/syncanysql/calculaters/mysql_funcs/number_funcs.py
index 7a40605..ff854c6 100644
--- a/syncanysql/calculaters/mysql_funcs/number_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/number_funcs.py
@@ -4,38 +4,52 @@
 
 import math
 import random
+from decimal import Decimal
 from syncany.calculaters import typing_filter
 from ...utils import ensure_number, ensure_int
 
+def _ensure_operands(x, y):
+    x, y = ensure_number(x), ensure_number(y)
+    if isinstance(x, Decimal) and isinstance(y, float):
+        return float(x), y
+    if isinstance(x, float) and isinstance(y, Decimal):
+        return x, float(y)
+    return x, y
+
 @typing_filter(float)
 def mysql_add(x, y):
     if x is None or y is None:
         return None
-    return ensure_number(x) + ensure_number(y)
+    x, y = _ensure_operands(x, y)
+    return x + y
 
 @typing_filter(float)
 def mysql_sub(x, y):
     if x is None or y is None:
         return None
-    return ensure_number(x) - ensure_number(y)
+    x, y = _ensure_operands(x, y)
+    return x - y
 
 @typing_filter(float)
 def mysql_mul(x, y):
     if x is None or y is None:
         return None
-    return ensure_number(x) * ensure_number(y)
+    x, y = _ensure_operands(x, y)
+    return x * y
 
 @typing_filter(float)
 def mysql_div(x, y):
     if x is None or y is None:
         return None
-    return ensure_number(x) / ensure_number(y)
+    x, y = _ensure_operands(x, y)
+    return x / y
 
 @typing_filter(float)
 def mysql_mod(x, y):
     if x is None or y is None:
         return None
-    return ensure_number(x) % ensure_number(y)
+    x, y = _ensure_operands(x, y)
+    return x % y
 
 @typing_filter(int)
 def mysql_bitwiseand(x, y):
-- 
2.43.0


From 69cf5a4e9fe3a477c87609cf114e2ad089eaa99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:57 +0000
Subject: [PATCH 02/94] fix: scalar functions ignored parameter defaults or
 aborted the query when called with another number of arguments

round(x), log(x) gave NULL because the fixed arity wrappers passed None for
an omitted parameter, and left(a, b, c) aborted the whole query because the
wrapper itself raised TypeError outside its error handling.
---
 syncanysql/calculaters/mysql_calculater.py | 69 +---------------------
 1 file changed, 1 insertion(+), 68 deletions(-)

diff --git a/syncanysql/calculaters/mysql_calculater.py b/syncanysql/calculaters/mysql_calculater.py
index dd43b1b..d0643a8 100644
--- a/syncanysql/calculaters/mysql_calculater.py
+++ b/syncanysql/calculaters/mysql_calculater.py
@@ -22,24 +22,7 @@ class MysqlCalculater(Calculater):
     def __init__(self, *args, **kwargs):
         super(MysqlCalculater, self).__init__(*args, **kwargs)
 
-        func = self.find_func(self.name[7:])
-        if func is not None and isinstance(func, types.FunctionType):
-            try:
-                argcount, varnames_count = func.__code__.co_argcount, len(func.__code__.co_varnames)
-                if argcount == varnames_count:
-                    if argcount == 0:
-                        self.calculate = self.calculate0
-                    elif argcount == 1:
-                        self.calculate = self.calculate1
-                    elif argcount == 2:
-                        self.calculate = self.calculate2
-                    elif argcount == 3:
-                        self.calculate = self.calculate3
-                    elif argcount == 4:
-                        self.calculate = self.calculate4
-            except Exception as e:
-                pass
-        self.func  = func
+        self.func = self.find_func(self.name[7:])
 
     def calculate(self, *args):
         try:
@@ -51,56 +34,6 @@ class MysqlCalculater(Calculater):
                                  traceback.format_exc())
             return None
 
-    def calculate0(self):
-        try:
-            return self.func()
-        except Exception as e:
-            if isinstance(e, (ValueError, KeyError)):
-                return None
-            get_logger().warning("mysql calculater execute %s(%s) error: %s\n%s", self.name[7:], tuple(), e,
-                                 traceback.format_exc())
-            return None
-
-    def calculate1(self, args0=None):
-        try:
-            return self.func(args0)
-        except Exception as e:
-            if isinstance(e, (ValueError, KeyError)):
-                return None
-            get_logger().warning("mysql calculater execute %s(%s) error: %s\n%s", self.name[7:], (args0,), e,
-                                 traceback.format_exc())
-            return None
-
-    def calculate2(self, args0=None, args1=None):
-        try:
-            return self.func(args0, args1)
-        except Exception as e:
-            if isinstance(e, (ValueError, KeyError)):
-                return None
-            get_logger().warning("mysql calculater execute %s(%s) error: %s\n%s", self.name[7:], (args0, args1), e,
-                                 traceback.format_exc())
-            return None
-
-    def calculate3(self, args0=None, args1=None, args2=None):
-        try:
-            return self.func(args0, args1, args2)
-        except Exception as e:
-            if isinstance(e, (ValueError, KeyError)):
-                return None
-            get_logger().warning("mysql calculater execute %s(%s) error: %s\n%s", self.name[7:], (args0, args1, args2), e,
-                                 traceback.format_exc())
-            return None
-
-    def calculate4(self, args0=None, args1=None, args2=None, args3=None):
-        try:
-            return self.func(args0, args1, args2, args3)
-        except Exception as e:
-            if isinstance(e, (ValueError, KeyError)):
-                return None
-            get_logger().warning("mysql calculater execute %s(%s) error: %s\n%s", self.name[7:], (args0, args1, args2, args3), e,
-                                 traceback.format_exc())
-            return None
-
     def get_final_filter(self):
         if hasattr(self.func, "get_final_filter"):
             return self.func.get_final_filter()
-- 
2.43.0


From 30b20025f0bb6894badd7d0235798622c634c77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:55 +0000
Subject: [PATCH 03/94] fix: AVG counted NULL and non-numeric values after the
 first in its divisor

---
 syncanysql/calculaters/aggregate_calculater.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/aggregate_calculater.py b/syncanysql/calculaters/aggregate_calculater.py
index 577c453..1b630dd 100644
--- a/syncanysql/calculaters/aggregate_calculater.py
+++ b/syncanysql/calculaters/aggregate_calculater.py
@@ -188,11 +188,11 @@ class AggregateMinCalculater(AggregateCalculater):
 class AggregateAvgCalculater(StateAggregateCalculater):
     def aggregate(self, state_value, data_value):
         try:
-            state_value["count_value"] += 1
             if isinstance(data_value, NumberDecimalTypes):
                 state_value["sum_value"] += data_value
             else:
                 state_value["sum_value"] += ensure_number(data_value)
+            state_value["count_value"] += 1
             return state_value
         except:
             if data_value is None:
-- 
2.43.0


From 1e31788b8e8e8be1bf524e1d733abb76573c7b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:58 +0000
Subject: [PATCH 04/94] fix: merging partial JSON_OBJECTAGG results lost every
 pair

---
 syncanysql/calculaters/aggregate_calculater.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/aggregate_calculater.py b/syncanysql/calculaters/aggregate_calculater.py
index 1b630dd..db953cb 100644
--- a/syncanysql/calculaters/aggregate_calculater.py
+++ b/syncanysql/calculaters/aggregate_calculater.py
@@ -431,7 +431,8 @@ class AggregateJsonObjectaggCalculater(StateAggregateCalculater):
             return state_value
         if state_value is None:
             return data_value
-        return state_value.update(data_value)
+        state_value.update(data_value)
+        return state_value
 
     def final_value(self, state_value):
         if state_value is None:
-- 
2.43.0


From 71d58c13557d4b60d7f2a5eb172b6348a73ac250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:03 +0000
Subject: [PATCH 05/94] fix: GROUP_BIT_AND/OR/XOR aborted when the first value
 of a group was a text or decimal number

---
 syncanysql/calculaters/aggregate_calculater.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/syncanysql/calculaters/aggregate_calculater.py b/syncanysql/calculaters/aggregate_calculater.py
index db953cb..f8eaa07 100644
--- a/syncanysql/calculaters/aggregate_calculater.py
+++ b/syncanysql/calculaters/aggregate_calculater.py
@@ -310,7 +310,7 @@ class AggregateGroupBitAndCalculater(AggregateCalculater):
         if data_value is None:
             return state_value
         if state_value is None:
-            return data_value
+            return ensure_int(data_value)
         if isinstance(data_value, int):
             return state_value & data_value
         return state_value & ensure_int(data_value)
@@ -331,7 +331,7 @@ class AggregateGroupBitOrCalculater(AggregateCalculater):
         if data_value is None:
             return state_value
         if state_value is None:
-            return data_value
+            return ensure_int(data_value)
         if isinstance(data_value, int):
             return state_value | data_value
         return state_value | ensure_int(data_value)
@@ -352,7 +352,7 @@ class AggregateGroupBitXorCalculater(AggregateCalculater):
         if data_value is None:
             return state_value
         if state_value is None:
-            return data_value
+            return ensure_int(data_value)
         if isinstance(data_value, int):
             return state_value ^ data_value
         return state_value ^ ensure_int(data_value)
-- 
2.43.0


From e02507e2cd431f56bd864ece2d7c3494dfa91108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:20 +0000
Subject: [PATCH 06/94] fix: SUM and AVG dropped a float after exact decimals
 (and decimals after floats)

---
 .../calculaters/aggregate_calculater.py       | 26 +++++++++++++++----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/syncanysql/calculaters/aggregate_calculater.py b/syncanysql/calculaters/aggregate_calculater.py
index f8eaa07..4e273dc 100644
--- a/syncanysql/calculaters/aggregate_calculater.py
+++ b/syncanysql/calculaters/aggregate_calculater.py
@@ -4,11 +4,20 @@
 
 import datetime
 import json
+from decimal import Decimal
 from syncany.calculaters.calculater import Calculater
 from syncany.filters import IntFilter, FloatFilter, ArrayFilter, StringFilter
 from ..utils import NumberDecimalTypes, ensure_number, ensure_int
 
 
+def _add_number(x, y):
+    if isinstance(x, Decimal) and isinstance(y, float):
+        return float(x) + y
+    if isinstance(x, float) and isinstance(y, Decimal):
+        return x + float(y)
+    return x + y
+
+
 class AggregateKeyCalculater(Calculater):
     def calculate(self, *args):
         if len(args) == 1:
@@ -126,8 +135,8 @@ class AggregateSumCalculater(AggregateCalculater):
     def aggregate(self, state_value, data_value):
         try:
             if isinstance(data_value, NumberDecimalTypes):
-                return state_value + data_value
-            return state_value + ensure_number(data_value)
+                return _add_number(state_value, data_value)
+            return _add_number(state_value, ensure_number(data_value))
         except:
             if data_value is None:
                 return state_value or 0
@@ -137,6 +146,13 @@ class AggregateSumCalculater(AggregateCalculater):
                 return ensure_number(data_value)
             return state_value
 
+    def reduce(self, state_value, data_value):
+        if data_value is None:
+            return state_value
+        if state_value is None:
+            return data_value
+        return _add_number(state_value, data_value)
+
     def get_final_filter(self):
         return FloatFilter.default()
 
@@ -189,9 +205,9 @@ class AggregateAvgCalculater(StateAggregateCalculater):
     def aggregate(self, state_value, data_value):
         try:
             if isinstance(data_value, NumberDecimalTypes):
-                state_value["sum_value"] += data_value
+                state_value["sum_value"] = _add_number(state_value["sum_value"], data_value)
             else:
-                state_value["sum_value"] += ensure_number(data_value)
+                state_value["sum_value"] = _add_number(state_value["sum_value"], ensure_number(data_value))
             state_value["count_value"] += 1
             return state_value
         except:
@@ -211,7 +227,7 @@ class AggregateAvgCalculater(StateAggregateCalculater):
         if state_value is None:
             return data_value
         return {"count_value": state_value["count_value"] + data_value["count_value"],
-                "sum_value": state_value["sum_value"] + data_value["sum_value"]}
+                "sum_value": _add_number(state_value["sum_value"], data_value["sum_value"])}
 
     def final_value(self, state_value):
         if state_value is None:
-- 
2.43.0


From 0ed3b167af798472bacd722c992ac21a143c888c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 07/94] fix: SUM and AVG aborted the query when the first value
 of a group or batch was not numeric (later ones are ignored)

---
 syncanysql/calculaters/aggregate_calculater.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/syncanysql/calculaters/aggregate_calculater.py b/syncanysql/calculaters/aggregate_calculater.py
index 4e273dc..f167468 100644
--- a/syncanysql/calculaters/aggregate_calculater.py
+++ b/syncanysql/calculaters/aggregate_calculater.py
@@ -143,7 +143,10 @@ class AggregateSumCalculater(AggregateCalculater):
             if state_value is None:
                 if isinstance(data_value, NumberDecimalTypes):
                     return data_value
-                return ensure_number(data_value)
+                try:
+                    return ensure_number(data_value)
+                except:
+                    return 0
             return state_value
 
     def reduce(self, state_value, data_value):
@@ -218,7 +221,10 @@ class AggregateAvgCalculater(StateAggregateCalculater):
                     return None
                 if isinstance(data_value, NumberDecimalTypes):
                     return {"count_value": 1, "sum_value": data_value}
-                return {"count_value": 1, "sum_value": ensure_number(data_value)}
+                try:
+                    return {"count_value": 1, "sum_value": ensure_number(data_value)}
+                except:
+                    return None
             return state_value
 
     def reduce(self, state_value, data_value):
-- 
2.43.0


From 8d3d901ae36359c072b2680ceae8a10b689b2963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:37 +0000
Subject: [PATCH 08/94] fix: negative decimal literals were not read as
 numbers, and superscript digits aborted placeholder argument parsing

---
 syncanysql/taskers/set.py | 2 +-
 syncanysql/utils.py       | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/syncanysql/taskers/set.py b/syncanysql/taskers/set.py
index 8098645..76764a6 100644
--- a/syncanysql/taskers/set.py
+++ b/syncanysql/taskers/set.py
@@ -59,7 +59,7 @@ class SetCommandTasker(object):
         if value.isdigit() or (value[0] == "-" and value[1:].isdigit()):
             return int(value)
         value_info = value.split(".")
-        if len(value_info) == 2 and (value_info[0].isdigit() or (value[0][0] == "-" and value[0][1:].isdigit())) \
+        if len(value_info) == 2 and (value_info[0].isdigit() or (value_info[0][:1] == "-" and value_info[0][1:].isdigit())) \
                 and value_info[1].isdigit():
             return float(value)
         raise ValueError("unknown value: %s" % value)
diff --git a/syncanysql/utils.py b/syncanysql/utils.py
index 48b4f9e..cd6a7ce 100644
--- a/syncanysql/utils.py
+++ b/syncanysql/utils.py
@@ -18,7 +18,7 @@ def parse_value(value):
         return ""
     if len(value) >= 2 and value[0] in ("'", '"') and value[-1] in ("'", '"'):
         return value[1:-1]
-    if value.isdigit() or (value[0] == "-" and value[1:].isdigit()):
+    if value.isdecimal() or (value[0] == "-" and value[1:].isdecimal()):
         return int(value)
     if value.lower() == "true":
         return True
@@ -27,8 +27,8 @@ def parse_value(value):
     if value.lower() == "null":
         return None
     value_info = value.split(".")
-    if len(value_info) == 2 and (value_info[0].isdigit() or (value[0][0] == "-" and value[0][1:].isdigit())) \
-            and value_info[1].isdigit():
+    if len(value_info) == 2 and (value_info[0].isdecimal() or (value_info[0][:1] == "-" and value_info[0][1:].isdecimal())) \
+            and value_info[1].isdecimal():
         return float(value)
     return value
 
-- 
2.43.0


From d12e10b331dbbe8a047339fc681b143fe595ee59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:24 +0000
Subject: [PATCH 09/94] fix: SET doubled the quotes inside a quoted text (set
 @a="it's" stored it''s)

---
 syncanysql/compiler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 60d68e4..5782c89 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -173,6 +173,10 @@ class Compiler(object):
             if isinstance(set_item_expression, sqlglot_expressions.SetItem) and isinstance(set_item_expression.args["this"], sqlglot_expressions.EQ):
                 value = self.generate_sql(set_item_expression).split("=")
                 config = {"key": value[0].strip(), "value": "=".join(value[1:]).strip()}
+                value_expression = set_item_expression.args["this"].args["expression"]
+                if isinstance(value_expression, sqlglot_expressions.Literal) and value_expression.is_string \
+                        and config["value"][:3] != "'''":
+                    config["value"] = "'" + value_expression.name + "'"
                 return SetCommandTasker(config)
         raise SyncanySqlCompileException('unknown sql "%s"' % self.to_sql(expression))
 
-- 
2.43.0


From 0eb762a18f2798f3e13b736507e5b5a21e9c224c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:26 +0000
Subject: [PATCH 10/94] fix: a script argument --name=value was cut at the
 second equals sign

---
 syncanysql/executor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/executor.py b/syncanysql/executor.py
index 84f3af6..36d643d 100644
--- a/syncanysql/executor.py
+++ b/syncanysql/executor.py
@@ -55,7 +55,7 @@ class EnvVariables(dict):
         for arg in sys.argv:
             if arg[:2] != "--":
                 continue
-            arg_info = arg[2:].split("=")
+            arg_info = arg[2:].split("=", 1)
             arg_value = arg_info[1] if len(arg_info) >= 2 else True
             if isinstance(arg_value, str) and arg_value and arg_value[0] in ('"', "'"):
                 arg_value = arg_value[1:-1]
-- 
2.43.0


From cc91897d3792fb1d319f7105627a8c22f1ded971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:08 +0000
Subject: [PATCH 11/94] fix: SET of a quoted text that starts with a quote lost
 characters

---
 syncanysql/compiler.py    | 2 +-
 syncanysql/taskers/set.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 5782c89..183778d 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -175,7 +175,7 @@ class Compiler(object):
                 config = {"key": value[0].strip(), "value": "=".join(value[1:]).strip()}
                 value_expression = set_item_expression.args["this"].args["expression"]
                 if isinstance(value_expression, sqlglot_expressions.Literal) and value_expression.is_string \
-                        and config["value"][:3] != "'''":
+                        and not (config["value"][:3] == "'''" and config["value"][-3:] == "'''" and len(config["value"]) >= 6):
                     config["value"] = "'" + value_expression.name + "'"
                 return SetCommandTasker(config)
         raise SyncanySqlCompileException('unknown sql "%s"' % self.to_sql(expression))
diff --git a/syncanysql/taskers/set.py b/syncanysql/taskers/set.py
index 76764a6..ec63dd5 100644
--- a/syncanysql/taskers/set.py
+++ b/syncanysql/taskers/set.py
@@ -47,7 +47,7 @@ class SetCommandTasker(object):
         if not isinstance(value, str):
             return value
         if value[:1] in ('"', "'"):
-            if value[:3] in ("'''", '"""'):
+            if len(value) >= 6 and value[:3] in ("'''", '"""'):
                 return value[3:-3].strip()
             return value[1:-1].strip()
         if value.lower() == 'true':
-- 
2.43.0


From 66164c244299a05b24fd6d3a46f6353e0148fee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:34 +0000
Subject: [PATCH 12/94] fix: placeholder interpolation replaced placeholders
 inside the text of an earlier value

---
 syncanysql/executor.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/syncanysql/executor.py b/syncanysql/executor.py
index 36d643d..65d09ea 100644
--- a/syncanysql/executor.py
+++ b/syncanysql/executor.py
@@ -102,8 +102,9 @@ class Executor(object):
                                           else self.global_env_variables)
 
     def compile_variable(self, sql):
-        variables = ENV_VARIABLE_RE.findall(sql)
-        for variable, default_value in variables:
+        compiled_sql, index = "", 0
+        for match in ENV_VARIABLE_RE.finditer(sql):
+            variable, default_value = match.group(1), match.group(2) or ""
             variable_name = variable[2:-1].split(":")[0]
             try:
                 variable_value = self.env_variables.get_value(variable_name.lower())
@@ -136,8 +137,9 @@ class Executor(object):
                 if isinstance(value, SequenceTypes):
                     return "(" + ",".join([format_variable_value(v) for v in value]) + ")"
                 return str(value)
-            sql = sql.replace(variable, format_variable_value(variable_value))
-        return sql
+            compiled_sql += sql[index:match.start()] + format_variable_value(variable_value)
+            index = match.end()
+        return compiled_sql + sql[index:]
 
     def run(self, name, sqls):
         self._thread_local.current_executor = self
-- 
2.43.0


From bcd400a00e2cb7730ab2fae9fc90b52c1748c298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:37 +0000
Subject: [PATCH 13/94] fix: a placeholder never found a variable whose name
 has upper-case letters

---
 syncanysql/executor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/syncanysql/executor.py b/syncanysql/executor.py
index 65d09ea..178be8a 100644
--- a/syncanysql/executor.py
+++ b/syncanysql/executor.py
@@ -107,7 +107,10 @@ class Executor(object):
             variable, default_value = match.group(1), match.group(2) or ""
             variable_name = variable[2:-1].split(":")[0]
             try:
-                variable_value = self.env_variables.get_value(variable_name.lower())
+                try:
+                    variable_value = self.env_variables.get_value(variable_name)
+                except KeyError:
+                    variable_value = self.env_variables.get_value(variable_name.lower())
             except KeyError:
                 try:
                     groups = FUNC_RE.match(default_value[1:].strip()).groups()
-- 
2.43.0


From 9ef25b624cd8172f2acaca0b38048a6c247492e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:41 +0000
Subject: [PATCH 14/94] fix: a comma inside a quoted argument split a
 placeholder's default function call

---
 syncanysql/executor.py |  4 ++--
 syncanysql/utils.py    | 14 ++++++++++++++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/syncanysql/executor.py b/syncanysql/executor.py
index 178be8a..ec037d6 100644
--- a/syncanysql/executor.py
+++ b/syncanysql/executor.py
@@ -14,7 +14,7 @@ from syncany.database import find_database
 from syncany.taskers.config import ConfigReader, register_reader
 from syncany.taskers.core import CoreTasker
 from .errors import SyncanySqlCompileException
-from .utils import SequenceTypes, parse_value
+from .utils import SequenceTypes, parse_value, split_arguments
 from .compiler import Compiler
 
 ENV_VARIABLE_RE = re.compile(r"(\$\{[@\w]+?(:.*?)?\})", re.DOTALL | re.M)
@@ -116,7 +116,7 @@ class Executor(object):
                     groups = FUNC_RE.match(default_value[1:].strip()).groups()
                     calculater_args = []
                     if groups[1]:
-                        for arg in groups[1].split(","):
+                        for arg in split_arguments(groups[1]):
                             calculater_args.append(parse_value(arg))
                     calculater = find_calculater(groups[0].split("__")[0]).instance(groups[0].replace("__", "::"))
                     variable_value = calculater.calculate(*tuple(calculater_args))
diff --git a/syncanysql/utils.py b/syncanysql/utils.py
index cd6a7ce..8556b5c 100644
--- a/syncanysql/utils.py
+++ b/syncanysql/utils.py
@@ -32,6 +32,20 @@ def parse_value(value):
         return float(value)
     return value
 
+def split_arguments(value):
+    arguments, quote, index = [], "", 0
+    for i in range(len(value)):
+        if quote:
+            if value[i] == quote:
+                quote = ""
+        elif value[i] in ("'", '"') and not value[index:i].strip():
+            quote = value[i]
+        elif value[i] == ",":
+            arguments.append(value[index:i])
+            index = i + 1
+    arguments.append(value[index:])
+    return arguments
+
 def parse_number(x, is_float=False):
     index, dot_index = -1, -1
     for i in range(len(x)):
-- 
2.43.0


From 3f2d26cb968b3771030c867da51f980b153e5bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:05 +0000
Subject: [PATCH 15/94] =?UTF-8?q?fix:=20string=20literals=20with=20charact?=
 =?UTF-8?q?ers=20between=20U+0080=20and=20U+0100=20were=20read=20as=20moji?=
 =?UTF-8?q?bake=20(select=20'=C3=A9')?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 syncanysql/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 183778d..c019557 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2717,7 +2717,7 @@ class Compiler(object):
                 try:
                     escape_values, escape_chars, encoding = [], [], os.environ.get("SYNCANYENCODING", "utf-8")
                     for c in value:
-                        if ord(c) <= 256:
+                        if ord(c) < 128:
                             escape_chars.append(c)
                             continue
                         if escape_chars:
-- 
2.43.0


From b1a54f467e47534cbf6054bf471e86be53fed149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:15 +0000
Subject: [PATCH 16/94] fix: using an imported module as a session import
 aborted every later statement (modules cannot be deep-copied)

---
 syncanysql/config.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/syncanysql/config.py b/syncanysql/config.py
index 8fd3fa3..6cbe900 100644
--- a/syncanysql/config.py
+++ b/syncanysql/config.py
@@ -22,6 +22,14 @@ CONST_CONFIG_KEYS = ("@verbose", "@timeout", "@limit", "@batch", "@streaming", "
                      "@insert_batch", "@primary_order")
 
 
+def copy_config(value):
+    if isinstance(value, dict):
+        return {k: copy_config(v) for k, v in value.items()}
+    if isinstance(value, list):
+        return [copy_config(v) for v in value]
+    return value
+
+
 class GlobalConfig(object):
     def __init__(self):
         self.config = copy.deepcopy(CoreTasker.DEFAULT_CONFIG)
@@ -301,8 +309,8 @@ class SessionConfig(GlobalConfig):
         if self.merged_config is None:
             session_config, self.config = self.config, copy.deepcopy(CoreTasker.DEFAULT_CONFIG)
             try:
-                self.merge_config(copy.deepcopy(self.parent_config.get()))
-                self.merge_config(copy.deepcopy(session_config))
+                self.merge_config(copy_config(self.parent_config.get()))
+                self.merge_config(copy_config(session_config))
             finally:
                 self.merged_config, self.config = self.config, session_config
         return self.merged_config
-- 
2.43.0


From 4c21eb64b7337bcfff46f4e401a1c9866292c805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:33 +0000
Subject: [PATCH 17/94] fix: SET global of a configuration key aborted, and
 sessions kept reading a cached configuration after their parent's changed

---
 syncanysql/config.py      | 16 ++++++++++++++--
 syncanysql/taskers/set.py |  1 -
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/syncanysql/config.py b/syncanysql/config.py
index 6cbe900..08ba7c1 100644
--- a/syncanysql/config.py
+++ b/syncanysql/config.py
@@ -33,6 +33,7 @@ def copy_config(value):
 class GlobalConfig(object):
     def __init__(self):
         self.config = copy.deepcopy(CoreTasker.DEFAULT_CONFIG)
+        self.version = 0
 
     def get_home(self):
         if "SYNCANY_HOME" in os.environ:
@@ -42,7 +43,11 @@ class GlobalConfig(object):
     def get(self):
         return self.config
 
+    def get_version(self):
+        return self.version
+
     def set(self, key, value):
+        self.version += 1
         if not isinstance(key, SequenceTypes):
             key = str(key).split(".")
         if not key:
@@ -136,6 +141,7 @@ class GlobalConfig(object):
         return query, args
 
     def load(self, custom_config=None):
+        self.version += 1
         home_config_path, cwd_config_path = self.get_home(), os.path.abspath(os.getcwd())
         if home_config_path not in sys.path:
             sys.path.append(home_config_path)
@@ -303,16 +309,22 @@ class SessionConfig(GlobalConfig):
         self.global_config = global_config
         self.parent_config = parent_config
         self.merged_config = None
+        self.merged_version = None
         self.tasker_extend_config = None
 
+    def get_version(self):
+        return self.version + self.parent_config.get_version()
+
     def get(self):
-        if self.merged_config is None:
+        version = self.get_version()
+        if self.merged_config is None or self.merged_version != version:
             session_config, self.config = self.config, copy.deepcopy(CoreTasker.DEFAULT_CONFIG)
             try:
                 self.merge_config(copy_config(self.parent_config.get()))
                 self.merge_config(copy_config(session_config))
             finally:
                 self.merged_config, self.config = self.config, session_config
+                self.merged_version, self.tasker_extend_config = version, None
         return self.merged_config
 
     def set(self, key, value):
@@ -327,8 +339,8 @@ class SessionConfig(GlobalConfig):
         return copy.deepcopy(CoreTasker.DEFAULT_CONFIG)
 
     def get_tasker_extend_config(self):
+        merged_config = self.get()
         if self.tasker_extend_config is None:
-            merged_config = self.get()
             self.tasker_extend_config = {key: merged_config[key] for key in self.TASKER_EXTEND_KEYS
                                          if key in merged_config}
         return self.tasker_extend_config
diff --git a/syncanysql/taskers/set.py b/syncanysql/taskers/set.py
index ec63dd5..1666d1b 100644
--- a/syncanysql/taskers/set.py
+++ b/syncanysql/taskers/set.py
@@ -33,7 +33,6 @@ class SetCommandTasker(object):
     def set_config(self, session_config, key, is_global=False):
         if is_global:
             session_config.global_config.set(key, self.parse_value(self.config["value"].strip()))
-            session_config.merge()
             return
         session_config.set(key, self.parse_value(self.config["value"].strip()))
 
-- 
2.43.0


From 3367f5c5bb30d4144986bbe45c7b4ce9540df39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:33 +0000
Subject: [PATCH 18/94] fix: setting a cache aborted (caches is a list of named
 entries)

---
 syncanysql/config.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/syncanysql/config.py b/syncanysql/config.py
index 08ba7c1..1ebe68d 100644
--- a/syncanysql/config.py
+++ b/syncanysql/config.py
@@ -109,6 +109,12 @@ class GlobalConfig(object):
                         set_database[key[2]] = json.loads(value)
                     except:
                         pass
+        elif key[0] == "caches":
+            caches = [cache for cache in (self.config.get("caches") or []) if cache["name"] != key[1]]
+            if value is not None:
+                cache = json.loads(value) if isinstance(value, str) else value
+                caches.append(dict(cache, name=key[1]))
+            self.config["caches"] = caches
         elif key[0] in ("imports", "sources"):
             if key[0] not in self.config:
                 self.config[key[0]] = {}
@@ -116,7 +122,7 @@ class GlobalConfig(object):
                 self.config[key[0]].pop(key[1], None)
             else:
                 self.config[key[0]][key[1]] = value
-        elif key[0] in ("defines", "variables", "options", "caches"):
+        elif key[0] in ("defines", "variables", "options"):
             if key[0] not in self.config:
                 self.config[key[0]] = {}
             if value is None:
-- 
2.43.0


From 33ba900441f209a779abf63066c59675e7d92774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:02 +0000
Subject: [PATCH 19/94] fix: plain text and numbers set as a database field
 were dropped, and unsetting a missing database entry created it

---
 syncanysql/config.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/syncanysql/config.py b/syncanysql/config.py
index 1ebe68d..130fd32 100644
--- a/syncanysql/config.py
+++ b/syncanysql/config.py
@@ -60,10 +60,12 @@ class GlobalConfig(object):
             return
         if key[0] == "databases":
             set_database = None
-            for database in self.config["databases"]:
+            for database in self.config.setdefault("databases", []):
                 if database["name"] == key[1]:
                     set_database = database
                     break
+            if not set_database and value is None:
+                return
             if not set_database:
                 set_database = {"name": key[1]}
                 self.config["databases"].append(set_database)
@@ -77,14 +79,18 @@ class GlobalConfig(object):
                         set_database.update(json.loads(value))
                     except:
                         pass
-            elif key[2] == "virtual_views":
+            elif key[2] == "virtual_views" and len(key) > 3:
                 if "virtual_views" not in set_database:
+                    if value is None:
+                        return
                     set_database["virtual_views"] = []
                 set_virtual_view = None
                 for virtual_view in set_database["virtual_views"]:
                     if virtual_view["name"] == key[3]:
                         set_virtual_view = virtual_view
                         break
+                if not set_virtual_view and value is None:
+                    return
                 if not set_virtual_view:
                     set_virtual_view = {"name": key[3], "query": "", "args": []}
                     set_database["virtual_views"].append(set_virtual_view)
@@ -108,7 +114,7 @@ class GlobalConfig(object):
                     try:
                         set_database[key[2]] = json.loads(value)
                     except:
-                        pass
+                        set_database[key[2]] = value
         elif key[0] == "caches":
             caches = [cache for cache in (self.config.get("caches") or []) if cache["name"] != key[1]]
             if value is not None:
-- 
2.43.0


From f24b6d7454b41ef03c474146bf08ef0f87443d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:02 +0000
Subject: [PATCH 20/94] fix: defining a virtual view in a session hid the
 database's other configured virtual views

---
 syncanysql/config.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/syncanysql/config.py b/syncanysql/config.py
index 130fd32..5cbbe7f 100644
--- a/syncanysql/config.py
+++ b/syncanysql/config.py
@@ -268,6 +268,10 @@ class GlobalConfig(object):
                     vs = {c["name"]: c for c in self.config[k]}
                     for d in v:
                         if d["name"] in vs:
+                            if vs[d["name"]].get("virtual_views") and d.get("virtual_views"):
+                                names = {c["name"] for c in d["virtual_views"]}
+                                d = dict(d, virtual_views=[c for c in vs[d["name"]]["virtual_views"]
+                                                           if c["name"] not in names] + d["virtual_views"])
                             vs[d["name"]].update(d)
                         else:
                             self.config[k].append(d)
-- 
2.43.0


From 731d417f49077ed360a4107b8d6b7f54656841c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:28 +0000
Subject: [PATCH 21/94] fix: a session's extends was applied to its first query
 only (the cached configuration was handed out and consumed)

---
 syncanysql/executor.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/syncanysql/executor.py b/syncanysql/executor.py
index ec037d6..795b901 100644
--- a/syncanysql/executor.py
+++ b/syncanysql/executor.py
@@ -15,6 +15,7 @@ from syncany.taskers.config import ConfigReader, register_reader
 from syncany.taskers.core import CoreTasker
 from .errors import SyncanySqlCompileException
 from .utils import SequenceTypes, parse_value, split_arguments
+from .config import copy_config
 from .compiler import Compiler
 
 ENV_VARIABLE_RE = re.compile(r"(\$\{[@\w]+?(:.*?)?\})", re.DOTALL | re.M)
@@ -31,10 +32,10 @@ class ContextConfigReader(ConfigReader):
         names = self.name[10:].split("/")
         if len(names) >= 2 and names[0] == "session" and names[1] == "config":
             if len(names) >= 3:
-                return "dict", {
+                return "dict", copy_config({
                     names[2]: executor.session_config.get().get(names[2], CoreTasker.DEFAULT_CONFIG.get(names[2]))
-                }
-            return "dict", executor.session_config.get_tasker_extend_config()
+                })
+            return "dict", copy_config(executor.session_config.get_tasker_extend_config())
         return "dict", {}
 
 
-- 
2.43.0


From 0312dec06cf9cd37cd03a8424962e2bed646b10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:28 +0000
Subject: [PATCH 22/94] fix: SET of a variable whose name starts with global
 set another, global variable

---
 syncanysql/taskers/set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/taskers/set.py b/syncanysql/taskers/set.py
index 1666d1b..81157a1 100644
--- a/syncanysql/taskers/set.py
+++ b/syncanysql/taskers/set.py
@@ -8,7 +8,7 @@ class SetCommandTasker(object):
 
     def start(self, name, executor, session_config, manager, arguments):
         key, is_global = self.config["key"], False
-        if key[:6].lower() == "global":
+        if key[:6].lower() == "global" and not (key[6:7].isalnum() or key[6:7] == "_"):
             key, is_global = key[6:].strip(), True
         name = key.split(".")[0][1:]
         if name in ("databases", "imports", "sources", "defines", "variables", "options", "caches"):
-- 
2.43.0


From 13d01aeb42c56323ca65d675560fa0c6f6470ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:46 +0000
Subject: [PATCH 23/94] fix: a quote in a comment swallowed the statements
 after it when splitting a script

---
 syncanysql/parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/syncanysql/parser.py b/syncanysql/parser.py
index f2c38af..ce0109d 100644
--- a/syncanysql/parser.py
+++ b/syncanysql/parser.py
@@ -89,7 +89,7 @@ class SqlParser(object):
                 continue
             if self.sql[self.index] == "#":
                 try:
-                    self.read_util('\n')
+                    self.read_util('\n', ())
                 except EOFError:
                     pass
                 self.next()
@@ -97,13 +97,13 @@ class SqlParser(object):
             segment = self.sql[self.index: self.index + 2]
             if segment == "--":
                 try:
-                    self.read_util('\n')
+                    self.read_util('\n', ())
                 except EOFError:
                     pass
                 self.next()
                 continue
             if segment == "/*":
-                self.read_util("*/")
+                self.read_util("*/", ())
                 self.next()
                 continue
             if self.sql[self.index] == ';':
-- 
2.43.0


From c203d09c1d51d3f150087cadd98575f225268144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:46 +0000
Subject: [PATCH 24/94] fix: block comments starting with /*/ or followed by *
 were split wrongly

---
 syncanysql/parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/syncanysql/parser.py b/syncanysql/parser.py
index ce0109d..75afcc7 100644
--- a/syncanysql/parser.py
+++ b/syncanysql/parser.py
@@ -103,8 +103,11 @@ class SqlParser(object):
                 self.next()
                 continue
             if segment == "/*":
+                self.next()
+                self.next()
                 self.read_util("*/", ())
                 self.next()
+                self.next()
                 continue
             if self.sql[self.index] == ';':
                 if start_index is None:
-- 
2.43.0


From 2bdbedf77869a7da4aed1f769c228dc9541cd10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:46 +0000
Subject: [PATCH 25/94] fix: a statement starting with ( lost its first
 parenthesis when splitting a script

---
 syncanysql/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/parser.py b/syncanysql/parser.py
index 75afcc7..b270581 100644
--- a/syncanysql/parser.py
+++ b/syncanysql/parser.py
@@ -118,7 +118,7 @@ class SqlParser(object):
                 start_index = None
                 self.next()
                 continue
-            if start_index is None and self.sql[self.index].isalpha():
+            if start_index is None and (self.sql[self.index].isalpha() or self.sql[self.index] == "("):
                 lineno, start_index = self.lineno, self.index
             self.next()
         if start_index is not None and start_index < self.index:
-- 
2.43.0


From f470ff0ca3c9295d9d7e227c52b6a91013b26a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:54 +0000
Subject: [PATCH 26/94] fix: month intervals ending in December, negative
 months and years from February 29 gave NULL or a wrong year

---
 .../calculaters/mysql_funcs/datetime_funcs.py      | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
index 9ccb068..d4108b0 100644
--- a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
@@ -17,16 +17,10 @@ TIME_INTERVAL_RE = re.compile(r'^(\d{4}?\-)?(\d+?\-)?(\d+?\s)?(\d+?:)?(\d+?)?(:\
 
 def calculate_datetime(dt, interval, is_sub=False):
     def calculate(unit, value):
-        if unit == "YEAR":
-            return dt.replace(year=dt.year - value) if is_sub else dt.replace(year=dt.year + value)
-        if unit in ("QUARTER", "MONTH"):
-            months = value * 3 if unit == "QUARTER" else value
-            if is_sub:
-                new_year = dt.year - int(months / 12) - (1 if dt.month - months % 12 < 1 else 0)
-                new_month = (dt.month - months % 12) + (12 if dt.month - months % 12 < 1 else 0)
-            else:
-                new_year = dt.year + int(months / 12) + (1 if dt.month + months % 12 > 12 else 0)
-                new_month = (dt.month + months % 12) % 12
+        if unit in ("YEAR", "QUARTER", "MONTH"):
+            months = value * (12 if unit == "YEAR" else 3 if unit == "QUARTER" else 1)
+            months = dt.year * 12 + dt.month - 1 + (-months if is_sub else months)
+            new_year, new_month = months // 12, months % 12 + 1
             try:
                 return dt.replace(year=new_year, month=new_month)
             except ValueError:
-- 
2.43.0


From bf83c288aeb22e6662227249ebfc841f7c0d988c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:54 +0000
Subject: [PATCH 27/94] fix: microsecond intervals were added as seconds

---
 syncanysql/calculaters/mysql_funcs/datetime_funcs.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
index d4108b0..f25dfa4 100644
--- a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
@@ -32,7 +32,7 @@ def calculate_datetime(dt, interval, is_sub=False):
                         day -= 1
                 return None
         if unit in TIMEDELTA_UNITS:
-            td = datetime.timedelta(seconds=TIMEDELTA_UNITS[unit] * value)
+            td = datetime.timedelta(microseconds=value) if unit == "MICROSECOND" else datetime.timedelta(seconds=TIMEDELTA_UNITS[unit] * value)
             return (dt - td) if is_sub else (dt + td)
         return None
     
@@ -50,7 +50,10 @@ def calculate_datetime(dt, interval, is_sub=False):
     for i in range(7):
         if not values[i]:
             continue
-        dt = calculate(units[i], int(values[i].replace("-", "").replace(".", "").replace(":", "")))
+        value = values[i].replace("-", "").replace(".", "").replace(":", "").strip()
+        if units[i] == "MICROSECOND":
+            value = value[:6].ljust(6, "0")
+        dt = calculate(units[i], int(value))
         if not dt:
             return None
     return dt
-- 
2.43.0


From 0cf5c86e7bbcdf32cb95b931d1bc5dfde418823d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:34 +0000
Subject: [PATCH 28/94] fix: adding hours, minutes, seconds or microseconds to
 a date changed nothing

---
 syncanysql/calculaters/mysql_funcs/datetime_funcs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
index f25dfa4..7f0dae8 100644
--- a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
@@ -32,6 +32,9 @@ def calculate_datetime(dt, interval, is_sub=False):
                         day -= 1
                 return None
         if unit in TIMEDELTA_UNITS:
+            if unit not in ("WEEK", "DAY") and not isinstance(dt, datetime.datetime):
+                return calculate_datetime(datetime.datetime(dt.year, dt.month, dt.day, tzinfo=get_timezone()),
+                                          {"value": value, "unit": unit}, is_sub)
             td = datetime.timedelta(microseconds=value) if unit == "MICROSECOND" else datetime.timedelta(seconds=TIMEDELTA_UNITS[unit] * value)
             return (dt - td) if is_sub else (dt + td)
         return None
-- 
2.43.0


From 15b246adede07ac55684ede94bdc7f46ce4a7518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:26 +0000
Subject: [PATCH 29/94] fix: intervals whose amount is not a plain number were
 NULL

---
 syncanysql/compiler.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index c019557..c908848 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1744,7 +1744,13 @@ class Compiler(object):
                              for tuple_expression in expression.args["expressions"]]
             return ["#make", value_columns]
         elif isinstance(expression, sqlglot_expressions.Interval):
-            return ["#const", {"value": expression.args["this"].args["this"], "unit": expression.args["unit"].args["this"]}]
+            value_expression, unit = expression.args["this"], expression.args["unit"].args["this"]
+            if self.is_const(value_expression, config, arguments) and not value_expression.find(sqlglot_expressions.Parameter):
+                return ["#const", {"value": self.parse_const(value_expression, config, arguments)["value"], "unit": unit}]
+            return ["#make", {
+                "value": self.compile_calculate(value_expression, config, arguments, primary_table, column_join_tables, join_index),
+                "unit": ["#const", unit],
+            }]
         elif self.is_const(expression, config, arguments):
             return self.compile_const(expression, config, arguments, self.parse_const(expression, config, arguments))
         elif isinstance(expression, sqlglot_expressions.Not):
@@ -2297,8 +2303,9 @@ class Compiler(object):
         elif isinstance(expression, sqlglot_expressions.Parameter):
             if isinstance(expression, AssignParameter):
                 self.parse_calculate(expression.args["expression"], config, arguments, primary_table, calculate_fields)
-        elif self.is_subquery(expression, config, arguments) or isinstance(expression, (sqlglot_expressions.Star,
-                                                                                        sqlglot_expressions.Interval, sqlglot_expressions.DataType)):
+        elif isinstance(expression, sqlglot_expressions.Interval):
+            self.parse_calculate(expression.args["this"], config, arguments, primary_table, calculate_fields)
+        elif self.is_subquery(expression, config, arguments) or isinstance(expression, (sqlglot_expressions.Star, sqlglot_expressions.DataType)):
             pass
         elif self.is_const(expression, config, arguments):
             pass
-- 
2.43.0


From b4210d1d673f1ab08a8d5a99cdcefc3ca3dcd663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:54 +0000
Subject: [PATCH 30/94] fix: an aggregate below a unary minus, ~ or an interval
 was not aggregated

---
 syncanysql/compiler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index c908848..4eff1a7 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2900,10 +2900,12 @@ class Compiler(object):
             return isinstance(expression, (sqlglot_expressions.EQ, sqlglot_expressions.NEQ, sqlglot_expressions.GT, sqlglot_expressions.GTE,
                                            sqlglot_expressions.LT, sqlglot_expressions.LTE, sqlglot_expressions.In, sqlglot_expressions.Not,
                                            sqlglot_expressions.Is, sqlglot_expressions.Between, sqlglot_expressions.Like, sqlglot_expressions.Func,
-                                           sqlglot_expressions.Binary, sqlglot_expressions.SubqueryPredicate))
+                                           sqlglot_expressions.Binary, sqlglot_expressions.SubqueryPredicate,
+                                           sqlglot_expressions.Neg, sqlglot_expressions.BitwiseNot))
         return isinstance(expression, (sqlglot_expressions.Neg, sqlglot_expressions.Binary, sqlglot_expressions.Select,
                                        sqlglot_expressions.Subquery, sqlglot_expressions.Union,
-                                       sqlglot_expressions.BitwiseNot, sqlglot_expressions.Tuple, sqlglot_expressions.Parameter))
+                                       sqlglot_expressions.BitwiseNot, sqlglot_expressions.Tuple, sqlglot_expressions.Parameter,
+                                       sqlglot_expressions.Interval))
 
     def is_aggregate(self, expression, config, arguments):
         if isinstance(expression, (sqlglot_expressions.Column, sqlglot_expressions.Literal)):
-- 
2.43.0


From 0a9a35e1e2c9839324185d2ccad59813b94b4443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:46 +0000
Subject: [PATCH 31/94] fix: ELT gave NULL for the last element and the last
 element for position 0

---
 syncanysql/calculaters/mysql_funcs/string_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index 11a6446..654928a 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -135,7 +135,7 @@ def mysql_trim(s):
 
 @typing_filter(str)
 def mysql_elt(n, *args):
-    return args[n - 1] if n < len(args) else None
+    return args[n - 1] if 1 <= n <= len(args) else None
 
 @typing_filter(int)
 def mysql_field(s, *args):
-- 
2.43.0


From 1ebd73a40d25797deb0a0c062598bda3f18e0dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:46 +0000
Subject: [PATCH 32/94] fix: RIGHT(s, 0) gave the whole text, LEFT with a
 negative length part of it

---
 syncanysql/calculaters/mysql_funcs/string_funcs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index 654928a..f792747 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -119,13 +119,13 @@ def mysql_ucase(s):
 def mysql_left(s, x):
     if s is None:
         return None
-    return ensure_str(s)[:x]
+    return ensure_str(s)[:x] if x > 0 else ""
 
 @typing_filter(str)
 def mysql_right(s, x):
     if s is None:
         return None
-    return ensure_str(s)[-x:]
+    return ensure_str(s)[-x:] if x > 0 else ""
 
 @typing_filter(str)
 def mysql_trim(s):
-- 
2.43.0


From 6d000b73b744e82f5c0b1e115e358e082e9f24d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:46 +0000
Subject: [PATCH 33/94] fix: SUBSTRING from position 0 or a negative position
 gave the wrong part

---
 syncanysql/calculaters/mysql_funcs/string_funcs.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index f792747..a28b021 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -166,6 +166,10 @@ def mysql_substring(s, n, l=None):
     if s is None:
         return None
     s = ensure_str(s)
+    if n < 0:
+        n += len(s) + 1
+    if n < 1 or (isinstance(l, int) and l < 1):
+        return ""
     if isinstance(l, int):
         return s[n - 1: n + l - 1]
     return s[n - 1:]
@@ -175,6 +179,10 @@ def mysql_substr(s, n, l=None):
     if s is None:
         return None
     s = ensure_str(s)
+    if n < 0:
+        n += len(s) + 1
+    if n < 1 or (isinstance(l, int) and l < 1):
+        return ""
     if isinstance(l, int):
         return s[n - 1: n + l - 1]
     return s[n - 1:]
-- 
2.43.0


From a5386687baeb10908b56a997f5b5f69ec6a819c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:46 +0000
Subject: [PATCH 34/94] fix: SUBSTRING_INDEX with a negative count dropped the
 wrong parts

---
 syncanysql/calculaters/mysql_funcs/string_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index a28b021..2a2f382 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -193,7 +193,7 @@ def mysql_substring_index(s, d, c):
         return None
     s, d = ensure_str(s), ensure_str(d)
     if c < 0:
-        return d.join(s.split(d)[-c:])
+        return d.join(s.split(d)[c:])
     return d.join(s.split(d)[:c])
 
 @typing_filter(str)
-- 
2.43.0


From e07ca68df563bdd248b082812a27e18ec10a6a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:46 +0000
Subject: [PATCH 35/94] fix: INSERT outside the text changed it

---
 syncanysql/calculaters/mysql_funcs/string_funcs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index 2a2f382..8526a77 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -95,6 +95,10 @@ def mysql_concat_ws(sep, *args):
 @typing_filter(str)
 def mysql_insert(s1, x, l, s2):
     s1, s2 = ensure_str(s1), ensure_str(s2)
+    if x < 1 or x > len(s1):
+        return s1
+    if l < 0:
+        return s1[: x - 1] + s2
     return s1[: x - 1] + s2 + s1[x + l - 1:]
 
 @typing_filter(str)
-- 
2.43.0


From 97c37bd0c3644d5d625a34e3cbfb443e4075e7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:46 +0000
Subject: [PATCH 36/94] fix: FIND_IN_SET found the empty text in an empty set,
 no number, and gave 0 for a NULL set

---
 syncanysql/calculaters/mysql_funcs/string_funcs.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index 8526a77..aaf853f 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -152,10 +152,13 @@ def mysql_field(s, *args):
 
 @typing_filter(int)
 def mysql_find_in_set(s, ss):
-    if s is None:
+    if s is None or ss is None:
         return None
+    s, ss = ensure_str(s), ensure_str(ss)
+    if not ss:
+        return 0
     try:
-        return ensure_str(ss).split(",").index(s) + 1
+        return ss.split(",").index(s) + 1
     except ValueError:
         return 0
 
-- 
2.43.0


From 771a38fb44d7ac98b434d10a3eca99fcc21d85a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:52 +0000
Subject: [PATCH 37/94] fix: HAVING ... LIKE read its pattern as a regular
 expression, unlike LIKE elsewhere

---
 syncanysql/compiler.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 4eff1a7..6f8e4bd 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1924,11 +1924,7 @@ class Compiler(object):
             return ["@mysql::in", left_calculater, ["@convert_array", right_calculater]]
         elif isinstance(expression, sqlglot_expressions.Like):
             left_calculater, right_calculater = parse(expression)
-            if not isinstance(right_calculater, list) or len(right_calculater) != 2 or right_calculater[0] != "#const":
-                raise SyncanySqlCompileException('error having condition, like condition value must be const, related sql "%s"'
-                                                 % self.to_sql(expression))
-            return ["#if", ["@re::match", ".*" if right_calculater[1] == "%%" else right_calculater[1].replace("%", ".*")
-                .replace(".*.*", "%"), left_calculater], ["#const", 1], ["#const", 0]]
+            return ["@mysql::like", left_calculater, right_calculater]
         elif isinstance(expression, sqlglot_expressions.Paren):
             return self.compile_having_condition(expression.args.get("this"), config, arguments, primary_table)
         else:
-- 
2.43.0


From 2165911fd221d918e1f33f809e30a77f2c135d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:52 +0000
Subject: [PATCH 38/94] fix: LIKE matched only a prefix, not across lines, and
 dropped %% inside its pattern

---
 syncanysql/calculaters/mysql_funcs/regexp_funcs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/regexp_funcs.py b/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
index 709833a..99fc502 100644
--- a/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
@@ -111,9 +111,9 @@ def mysql_regexp_substr(s, r, pos=1, occurrence=1, match_type=None):
 def mysql_like(s, r, match_type=None):
     if r is None or s is None:
         return None
-    r = ".*" if r == '%%' else "".join([rg.replace("%", ".*") for rg in re.escape(r).split("%%")])
+    r = re.escape(r).replace("%", ".*")
     try:
-        return 1 if re.match(r, s, parse_flags(match_type)) else 0
+        return 1 if re.fullmatch(r, s, parse_flags(match_type) | re.DOTALL) else 0
     except:
         return 0
 
-- 
2.43.0


From 8838191f14d5121791bdb15c859f5f7664c0cd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:52 +0000
Subject: [PATCH 39/94] fix: REGEXP found a match only at the start of the text

---
 syncanysql/calculaters/mysql_funcs/regexp_funcs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/regexp_funcs.py b/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
index 99fc502..e3f6d5c 100644
--- a/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
@@ -29,7 +29,7 @@ def mysql_regexp(s, r, match_type=None):
     if r is None or s is None:
         return None
     try:
-        return 1 if re.match(r, s, parse_flags(match_type)) else 0
+        return 1 if re.search(r, s, parse_flags(match_type)) else 0
     except:
         return 0
 
@@ -38,7 +38,7 @@ def mysql_regexplike(s, r, match_type=None):
     if r is None or s is None:
         return None
     try:
-        return 1 if re.match(r, s, parse_flags(match_type)) else 0
+        return 1 if re.search(r, s, parse_flags(match_type)) else 0
     except:
         return 0
 
-- 
2.43.0


From 94eee8573b41dbda5198cf8b1e2ee1edf966789c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:52 +0000
Subject: [PATCH 40/94] fix: REGEXP_INSTR, REGEXP_REPLACE and REGEXP_SUBSTR
 searched cut off texts, found empty matches twice and lost the text before
 the position

---
 .../calculaters/mysql_funcs/regexp_funcs.py   | 70 ++++++++-----------
 1 file changed, 31 insertions(+), 39 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/regexp_funcs.py b/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
index e3f6d5c..6a41bb5 100644
--- a/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
@@ -42,24 +42,25 @@ def mysql_regexplike(s, r, match_type=None):
     except:
         return 0
 
+def find_match(s, r, pos, occurrence, match_type):
+    if pos < 1 or pos > len(s) + 1:
+        return None
+    for m in re.compile(r, parse_flags(match_type)).finditer(s, pos - 1):
+        if occurrence <= 1:
+            return m
+        occurrence -= 1
+    return None
+
 @typing_filter(int)
 def mysql_regexp_instr(s, r, pos=1, occurrence=1, return_option=0, match_type=None):
     if r is None or s is None:
         return None
     try:
-        flags = parse_flags(match_type)
-        cs = s[pos-1:]
-        while cs:
-            m = re.search(r, cs, flags)
-            if not m:
-                return 0
-            start_index, end_index = m.span()
-            if occurrence <= 1:
-                return pos + (end_index if return_option else start_index)
-            cs = cs[end_index:]
-            occurrence -= 1
-            pos += end_index
-        return 0
+        m = find_match(s, r, pos, occurrence, match_type)
+        if not m:
+            return 0
+        start_index, end_index = m.span()
+        return (end_index if return_option else start_index) + 1
     except:
         return 0
 
@@ -68,21 +69,20 @@ def mysql_regexp_replace(s, r, rs, pos=1, occurrence=0, match_type=None):
     if r is None or s is None or rs is None:
         return None
     try:
-        flags = parse_flags(match_type)
-        cs = s[pos-1:]
         if occurrence <= 0:
-            return re.sub(r, rs, cs, count=0, flags=flags)
-        while cs:
-            m = re.search(r, cs, flags)
-            if not m:
+            if pos < 1 or pos > len(s) + 1:
                 return s
-            start_index, end_index = m.span()
-            if occurrence <= 1:
-                return s[:pos + start_index - 1] + rs + s[pos + end_index - 1:]
-            cs = cs[end_index:]
-            occurrence -= 1
-            pos += end_index
-        return s
+            result, index = "", 0
+            for m in re.compile(r, parse_flags(match_type)).finditer(s, pos - 1):
+                start_index, end_index = m.span()
+                result += s[index:start_index] + m.expand(rs)
+                index = end_index
+            return result + s[index:]
+        m = find_match(s, r, pos, occurrence, match_type)
+        if not m:
+            return s
+        start_index, end_index = m.span()
+        return s[:start_index] + rs + s[end_index:]
     except:
         return None
 
@@ -91,19 +91,11 @@ def mysql_regexp_substr(s, r, pos=1, occurrence=1, match_type=None):
     if r is None or s is None:
         return None
     try:
-        flags = parse_flags(match_type)
-        cs = s[pos-1:]
-        while cs:
-            m = re.search(r, cs, flags)
-            if not m:
-                return None
-            start_index, end_index = m.span()
-            if occurrence <= 1:
-                return cs[start_index:end_index]
-            cs = cs[end_index:]
-            occurrence -= 1
-            pos += end_index
-        return None
+        m = find_match(s, r, pos, occurrence, match_type)
+        if not m:
+            return None
+        start_index, end_index = m.span()
+        return s[start_index:end_index]
     except:
         return None
 
-- 
2.43.0


From ebf2bfd6144ad471c2f38d8d5cf474c6c29df1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:03 +0000
Subject: [PATCH 41/94] fix: LIKE and REGEXP never matched a number or a date

---
 syncanysql/calculaters/mysql_funcs/regexp_funcs.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/mysql_funcs/regexp_funcs.py b/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
index 6a41bb5..473993b 100644
--- a/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
@@ -4,6 +4,7 @@
 
 import re
 from syncany.calculaters import typing_filter
+from ...utils import ensure_str
 
 def parse_flags(match_type):
     if not match_type:
@@ -29,6 +30,7 @@ def mysql_regexp(s, r, match_type=None):
     if r is None or s is None:
         return None
     try:
+        s, r = ensure_str(s), ensure_str(r)
         return 1 if re.search(r, s, parse_flags(match_type)) else 0
     except:
         return 0
@@ -38,6 +40,7 @@ def mysql_regexplike(s, r, match_type=None):
     if r is None or s is None:
         return None
     try:
+        s, r = ensure_str(s), ensure_str(r)
         return 1 if re.search(r, s, parse_flags(match_type)) else 0
     except:
         return 0
@@ -56,6 +59,7 @@ def mysql_regexp_instr(s, r, pos=1, occurrence=1, return_option=0, match_type=No
     if r is None or s is None:
         return None
     try:
+        s, r = ensure_str(s), ensure_str(r)
         m = find_match(s, r, pos, occurrence, match_type)
         if not m:
             return 0
@@ -69,6 +73,7 @@ def mysql_regexp_replace(s, r, rs, pos=1, occurrence=0, match_type=None):
     if r is None or s is None or rs is None:
         return None
     try:
+        s, r, rs = ensure_str(s), ensure_str(r), ensure_str(rs)
         if occurrence <= 0:
             if pos < 1 or pos > len(s) + 1:
                 return s
@@ -91,6 +96,7 @@ def mysql_regexp_substr(s, r, pos=1, occurrence=1, match_type=None):
     if r is None or s is None:
         return None
     try:
+        s, r = ensure_str(s), ensure_str(r)
         m = find_match(s, r, pos, occurrence, match_type)
         if not m:
             return None
@@ -103,8 +109,8 @@ def mysql_regexp_substr(s, r, pos=1, occurrence=1, match_type=None):
 def mysql_like(s, r, match_type=None):
     if r is None or s is None:
         return None
-    r = re.escape(r).replace("%", ".*")
     try:
+        s, r = ensure_str(s), re.escape(ensure_str(r)).replace("%", ".*")
         return 1 if re.fullmatch(r, s, parse_flags(match_type) | re.DOTALL) else 0
     except:
         return 0
-- 
2.43.0


From 148da105ef032376cbbf65192ebd1fe233fe01ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:35 +0000
Subject: [PATCH 42/94] fix: JSON_REMOVE of a path through an array removed the
 array's element, and skipped an index into an object

---
 syncanysql/calculaters/mysql_funcs/json_funcs.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/json_funcs.py b/syncanysql/calculaters/mysql_funcs/json_funcs.py
index 4bc6b4d..2dc8a29 100644
--- a/syncanysql/calculaters/mysql_funcs/json_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/json_funcs.py
@@ -153,9 +153,11 @@ def remove_json_path_value(json_data, json_path):
                             return json_data
                         del json_data[json_path_key]
                         return json_data
-                    if json_path_key < len(json_data):
-                        del json_data[json_path_key]
-                continue
+                    if json_path_key >= len(json_data):
+                        return json_data
+                    json_data = json_data[json_path_key]
+                    continue
+                return json_data
             if not isinstance(json_data, dict):
                 return json_data
             if json_path_key not in json_data:
-- 
2.43.0


From 30f143473fca038a4e999978c7f2cbb1395e1ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:35 +0000
Subject: [PATCH 43/94] fix: JSON_SET of a path that does not exist replaced a
 document that is no array or object

---
 syncanysql/calculaters/mysql_funcs/json_funcs.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/json_funcs.py b/syncanysql/calculaters/mysql_funcs/json_funcs.py
index 2dc8a29..74352ae 100644
--- a/syncanysql/calculaters/mysql_funcs/json_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/json_funcs.py
@@ -111,15 +111,17 @@ def set_json_path_value(json_data, json_path, value):
                             return json_data
                         json_data[json_path_key] = value
                         return json_data
-                    json_data = [] if json_path_key >= len(json_data) else json_data[json_path_key]
+                    if json_path_key >= len(json_data):
+                        return json_data
+                    json_data = json_data[json_path_key]
                 elif isinstance(json_data, str):
                     if i + 1 >= len(json_path_keys):
                         if json_path_key >= len(json_data):
                             return [json_data, value]
                         return json_data[:json_path_key] + str(value) + json_data[json_path_key + 1:]
-                    json_data = [] if json_path_key >= len(json_data) else json_data[json_path_key]
+                    return json_data
                 else:
-                    json_data = []
+                    return json_data
                 continue
             if not isinstance(json_data, dict):
                 return json_data
-- 
2.43.0


From 8dce5c3f3d1d21e564a0d79f7d9097caa265f77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:35 +0000
Subject: [PATCH 44/94] fix: JSON_SET and JSON_REMOVE changed the row's own
 document

---
 syncanysql/calculaters/mysql_funcs/json_funcs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/syncanysql/calculaters/mysql_funcs/json_funcs.py b/syncanysql/calculaters/mysql_funcs/json_funcs.py
index 74352ae..bb1aeea 100644
--- a/syncanysql/calculaters/mysql_funcs/json_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/json_funcs.py
@@ -2,6 +2,7 @@
 # 2023/3/14
 # create by: snower
 
+import copy
 import json
 from syncany.calculaters import typing_filter
 
@@ -252,6 +253,7 @@ def mysql_json_set(json_doc, *path_vals):
             json_doc = json.loads(json_doc)
         except:
             pass
+    json_doc, path_vals = copy.deepcopy(json_doc), copy.deepcopy(path_vals)
     for i in range(int(len(path_vals) / 2)):
         if not isinstance(json_doc, ArrayObjectTypes):
             json_doc = set_json_path_value(json_doc, path_vals[i * 2], path_vals[i * 2 + 1])
@@ -265,6 +267,7 @@ def mysql_json_remove(json_doc, *paths):
             json_doc = json.loads(json_doc)
         except:
             pass
+    json_doc = copy.deepcopy(json_doc)
     for path in paths:
         remove_json_path_value(json_doc, path)
     return json_doc
-- 
2.43.0


From 1149089ba717392ddcb78e04e35649ddcf5f8042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:35 +0000
Subject: [PATCH 45/94] fix: a closing bracket in a quoted JSON path key ended
 the key

---
 syncanysql/calculaters/mysql_funcs/json_funcs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/mysql_funcs/json_funcs.py b/syncanysql/calculaters/mysql_funcs/json_funcs.py
index bb1aeea..df639bf 100644
--- a/syncanysql/calculaters/mysql_funcs/json_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/json_funcs.py
@@ -28,7 +28,10 @@ def parse_json_path(json_path):
                 json_path_keys.extend(parse_json_path(next_json_path))
             return json_path_keys
 
-        end_index = json_path.index("]")
+        if json_path[start_index + 1: start_index + 2] == '"':
+            end_index = json_path.index('"]', start_index + 2) + 1
+        else:
+            end_index = json_path.index("]")
         if start_index > 0:
             json_path_keys.append(json_path[:start_index])
         if end_index - start_index > 0:
-- 
2.43.0


From 7e6cca644a1b01f453320effcc1f9ba0a15a1994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:56 +0000
Subject: [PATCH 46/94] fix: JSON_CONTAINS_PATH did not find a location holding
 null

---
 .../calculaters/mysql_funcs/json_funcs.py     | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/json_funcs.py b/syncanysql/calculaters/mysql_funcs/json_funcs.py
index df639bf..3ee5b27 100644
--- a/syncanysql/calculaters/mysql_funcs/json_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/json_funcs.py
@@ -57,7 +57,7 @@ def parse_json_path(json_path):
         return json_path_keys
 
 
-def get_json_path_value(json_data, json_path):
+def get_json_path_value(json_data, json_path, default=None):
     if json_data is None:
         raise ValueError('value is None')
     if json_path and json_path[:2] == "$.":
@@ -71,10 +71,10 @@ def get_json_path_value(json_data, json_path):
             if isinstance(json_path_key, int):
                 if isinstance(json_data, ArrayStringTypes):
                     if json_path_key >= len(json_data):
-                        return None
+                        return default
                     json_data = json_data[json_path_key]
                     continue
-                return None
+                return default
             if json_path_key == "*":
                 if i + 1 >= len(json_path_keys):
                     return json_data
@@ -83,14 +83,14 @@ def get_json_path_value(json_data, json_path):
                 result = []
                 for d in json_data:
                     v = get_value(d, json_path_keys[i + 1:])
-                    if v is None:
+                    if v is None or v is default:
                         continue
                     result.append(v)
                 return result
             if not isinstance(json_data, dict):
-                return None
+                return default
             if json_path_key not in json_data:
-                return None
+                return default
             json_data = json_data[json_path_key]
         return json_data
     return get_value(json_data, parse_json_path(json_path))
@@ -229,12 +229,13 @@ def mysql_json_contains_path(json_doc, one_or_all, *paths):
             pass
     if not one_or_all:
         one_or_all = "one"
+    missing = object()
     for path in paths:
-        json_value = get_json_path_value(json_doc, path)
+        json_value = get_json_path_value(json_doc, path, missing)
         if one_or_all.lower() == "one":
-            if json_value is not None:
+            if json_value is not missing:
                 return 1
-        elif json_value is None:
+        elif json_value is missing:
             return 0
     return 0 if one_or_all.lower() == "one" else 1
 
-- 
2.43.0


From 9f143ed5c285eb5a69da51efd501f31152487db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:56 +0000
Subject: [PATCH 47/94] fix: JSON_CONTAINS found a value only when it was the
 whole target

---
 .../calculaters/mysql_funcs/json_funcs.py       | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/json_funcs.py b/syncanysql/calculaters/mysql_funcs/json_funcs.py
index 3ee5b27..3b75601 100644
--- a/syncanysql/calculaters/mysql_funcs/json_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/json_funcs.py
@@ -204,8 +204,19 @@ def json_array_append(json_doc, *path_vals):
             json_value.append(path_vals[i * 2 + 1])
     return json_doc
 
+def contains_json_value(target, candidate):
+    if isinstance(target, list):
+        if isinstance(candidate, list):
+            return all(any(contains_json_value(target_item, candidate_item) for target_item in target)
+                       for candidate_item in candidate)
+        return any(contains_json_value(target_item, candidate) for target_item in target)
+    if isinstance(target, dict):
+        return isinstance(candidate, dict) and all(key in target and contains_json_value(target[key], value)
+                                                   for key, value in candidate.items())
+    return isinstance(target, bool) == isinstance(candidate, bool) and target == candidate
+
 @typing_filter(int)
-def mysql_json_contains(target, candidate, path):
+def mysql_json_contains(target, candidate, path=None):
     if isinstance(target, str):
         try:
             target = json.loads(target)
@@ -216,8 +227,8 @@ def mysql_json_contains(target, candidate, path):
             candidate = json.loads(candidate)
         except:
             pass
-    target_value = get_json_path_value(target, path)
-    return 1 if target_value == candidate else 0
+    target_value = get_json_path_value(target, path, object())
+    return 1 if contains_json_value(target_value, candidate) else 0
 
 
 @typing_filter(int)
-- 
2.43.0


From c8b658e159ff9ce8797c7356070c38d5b37ce151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:24 +0000
Subject: [PATCH 48/94] fix: SELECT INTO several variables failed for a single
 or an unlisted column

---
 syncanysql/taskers/into.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/syncanysql/taskers/into.py b/syncanysql/taskers/into.py
index 7ee101d..e25d0b1 100644
--- a/syncanysql/taskers/into.py
+++ b/syncanysql/taskers/into.py
@@ -33,11 +33,14 @@ class IntoTasker(object):
             delete = database.delete(name, ["id"])
             delete.commit()
 
+            if schema_keys is None and len(self.config["variables"]) > 1:
+                schema_keys = tuple(datas[0].keys()) if datas else ()
+
             if not schema_keys:
                 value = datas[0] if len(datas) == 1 else datas
                 if len(self.config["variables"]) == 1 and isinstance(value, dict) and len(value) == 1:
                     value = list(value.values())[0]
-            elif len(schema_keys) == 1:
+            elif len(schema_keys) == 1 and len(self.config["variables"]) == 1:
                 if len(datas) == 1:
                     value = datas[0][schema_keys[0]] if schema_keys[0] in datas[0] else None
                 else:
-- 
2.43.0


From 36dca15d2c0bb7664e1048337a350a13f26e146b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:14 +0000
Subject: [PATCH 49/94] fix: a failing SELECT INTO left its intermediate result
 behind

---
 syncanysql/taskers/into.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/syncanysql/taskers/into.py b/syncanysql/taskers/into.py
index e25d0b1..c3839e3 100644
--- a/syncanysql/taskers/into.py
+++ b/syncanysql/taskers/into.py
@@ -26,12 +26,14 @@ class IntoTasker(object):
             database = core_tasker.outputer.db
             name = core_tasker.outputer.name
             schema_keys = tuple(core_tasker.schema.keys()) if isinstance(core_tasker.schema, dict) else None
-            self.tasker.run(executor, session_config, manager)
+            try:
+                self.tasker.run(executor, session_config, manager)
 
-            query = database.query(name, ["id"])
-            datas = query.commit()
-            delete = database.delete(name, ["id"])
-            delete.commit()
+                query = database.query(name, ["id"])
+                datas = query.commit()
+            finally:
+                delete = database.delete(name, ["id"])
+                delete.commit()
 
             if schema_keys is None and len(self.config["variables"]) > 1:
                 schema_keys = tuple(datas[0].keys()) if datas else ()
-- 
2.43.0


From 741c03e8bf14549e9ecc17cd4ba88d238538add7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:40 +0000
Subject: [PATCH 50/94] fix: SELECT INTO stored only the first batch of a
 streaming query

---
 syncanysql/taskers/into.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/syncanysql/taskers/into.py b/syncanysql/taskers/into.py
index c3839e3..fa8acf9 100644
--- a/syncanysql/taskers/into.py
+++ b/syncanysql/taskers/into.py
@@ -28,6 +28,9 @@ class IntoTasker(object):
             schema_keys = tuple(core_tasker.schema.keys()) if isinstance(core_tasker.schema, dict) else None
             try:
                 self.tasker.run(executor, session_config, manager)
+                while self.tasker in executor.runners:
+                    executor.runners.remove(self.tasker)
+                    self.tasker.run(executor, session_config, manager)
 
                 query = database.query(name, ["id"])
                 datas = query.commit()
-- 
2.43.0


From 83931fe19ad37296eddaa5a9b05a2bdef0d7f36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:42 +0000
Subject: [PATCH 51/94] fix: results of WITH queries were never released and
 leaked into later statements

---
 syncanysql/compiler.py      | 22 ++++++++++++++++++----
 syncanysql/taskers/query.py |  2 +-
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 6f8e4bd..7d23038 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -109,6 +109,7 @@ class Compiler(object):
         self.env_variables = env_variables
         self.name = name
         self.mapping = {}
+        self.with_tables = {}
 
     def compile(self, sql, arguments):
         escape_sql = sql
@@ -226,7 +227,9 @@ class Compiler(object):
             "pipelines": []
         })
 
+        outer_with_tables = self.with_tables
         if expression.args.get("with"):
+            self.with_tables = dict(outer_with_tables)
             self.compile_with(expression.args.get("with"), config, arguments)
         if isinstance(expression, sqlglot_expressions.Union):
             self.compile_union(expression, config, arguments)
@@ -236,14 +239,19 @@ class Compiler(object):
             self.compile_select(self.optimize_rewrite(expression, config, arguments), config, arguments)
         else:
             raise SyncanySqlCompileException('unknown sql "%s"' % self.to_sql(expression))
+        self.with_tables = outer_with_tables
         return config
 
     def compile_with(self, expression, config, arguments):
         for sub_expression in expression.args["expressions"]:
             table_name = sub_expression.args["alias"].name
+            with_table_name = "__withquery_" + str(uuid.uuid1().int) + "_" + table_name
+            if expression.args.get("recursive"):
+                self.with_tables[table_name] = with_table_name
             subquery_arguments = {key: arguments[key] for key in CONST_CONFIG_KEYS if key in arguments}
             subquery_config = self.compile_query(sub_expression.args["this"], subquery_arguments)
-            subquery_config["output"] = "&.--." + table_name + "::" + subquery_config["output"].split("::")[-1].split(" use ")[0] + " use I"
+            self.with_tables[table_name] = with_table_name
+            subquery_config["output"] = "&.--." + with_table_name + "::" + subquery_config["output"].split("::")[-1].split(" use ")[0] + " use I"
             subquery_config["name"] = subquery_config["name"] + "#" + table_name + "#select"
             arguments.update({subquery_config["name"] + "@" + key: value for key, value in subquery_arguments.items()})
             output_db_table_name = subquery_config["output"].split("::")[0]
@@ -407,7 +415,7 @@ class Compiler(object):
                                                  % self.to_sql(expression))
             from_expression = from_expression.expressions[0]
             if isinstance(from_expression, sqlglot_expressions.Table):
-                table_info = self.parse_table(from_expression, config, arguments)
+                table_info = self.parse_source_table(from_expression, config, arguments)
                 primary_table["db"] = table_info["db"]
                 primary_table["name"] = table_info["name"]
                 primary_table["table_alias"] = table_info["table_alias"]
@@ -2013,7 +2021,7 @@ class Compiler(object):
                     or (join_expression.side and join_expression.side.lower() != "left"):
                 raise SyncanySqlCompileException('unknown join expression, unsupported join type, related sql "%s"' % self.to_sql(join_expression))
             if isinstance(join_expression.args["this"], sqlglot_expressions.Table):
-                table_info = self.parse_table(join_expression.args["this"], config, arguments)
+                table_info = self.parse_source_table(join_expression.args["this"], config, arguments)
                 db, table, subquery_config = table_info["db"], table_info["name"], None
             elif isinstance(join_expression.args["this"], sqlglot_expressions.Subquery):
                 subquery_name, subquery_config = self.compile_subquery(join_expression.args["this"], arguments)
@@ -2640,7 +2648,13 @@ class Compiler(object):
             "origin_name": origin_name,
             "typing_options": typing_options,
         }
-        
+
+    def parse_source_table(self, expression, config, arguments):
+        table_info = self.parse_table(expression, config, arguments)
+        if table_info["db"] == "--" and table_info["name"] in self.with_tables:
+            table_info["name"] = self.with_tables[table_info["name"]]
+        return table_info
+
     def parse_column(self, expression, config, arguments):
         dot_keys, convert_typing_filter = [], None
         if isinstance(expression, sqlglot_expressions.Dot):
diff --git a/syncanysql/taskers/query.py b/syncanysql/taskers/query.py
index 2cb7b09..b16a4f5 100644
--- a/syncanysql/taskers/query.py
+++ b/syncanysql/taskers/query.py
@@ -390,7 +390,7 @@ class QueryTasker(object):
                 self.temporary_memory_manager.use_collection(tasker.loader.name)
 
         if hasattr(tasker.outputer, "name"):
-            if tasker.outputer.name.startswith("--.__subquery_") or tasker.outputer.name.startswith("--.__unionquery_"):
+            if tasker.outputer.name.startswith(("--.__subquery_", "--.__unionquery_", "--.__withquery_")):
                 self.temporary_memory_manager.add_collection(tasker.outputer.name)
 
         loader_or_outputers = [tasker.loader, tasker.outputer] + list(tasker.join_loaders.values())
-- 
2.43.0


From 4f909c92f9dd9e78155eb2f76674d67bfa7c95c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:50 +0000
Subject: [PATCH 52/94] fix: INSERT ... WITH ... SELECT ignored the WITH part

---
 syncanysql/compiler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 7d23038..1c776e4 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -322,6 +322,9 @@ class Compiler(object):
 
         if isinstance(expression.args["expression"], (sqlglot_expressions.Select, sqlglot_expressions.Union)):
             select_expression = expression.args["expression"]
+            if select_expression.args.get("with"):
+                self.with_tables = dict(self.with_tables)
+                self.compile_with(select_expression.args.get("with"), config, arguments)
             if isinstance(select_expression, sqlglot_expressions.Union):
                 self.compile_union(select_expression, config, arguments)
             else:
-- 
2.43.0


From ff93ccee075a372909a9c8b213ff414b29d6596f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:39 +0000
Subject: [PATCH 53/94] fix: asking for the current execution failed in a
 thread that has none

---
 syncanysql/__init__.py | 2 +-
 syncanysql/executor.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/syncanysql/__init__.py b/syncanysql/__init__.py
index cac1494..e4ce97c 100644
--- a/syncanysql/__init__.py
+++ b/syncanysql/__init__.py
@@ -31,7 +31,7 @@ class ExecuterContext(object):
 
     @classmethod
     def current(cls):
-        return cls._thread_local.current_executer_context
+        return getattr(cls._thread_local, "current_executer_context", None)
 
     def __init__(self, engine, executor):
         self.engine = engine
diff --git a/syncanysql/executor.py b/syncanysql/executor.py
index 795b901..5628a81 100644
--- a/syncanysql/executor.py
+++ b/syncanysql/executor.py
@@ -89,7 +89,7 @@ class Executor(object):
 
     @classmethod
     def current(cls):
-        return cls._thread_local.current_executor
+        return getattr(cls._thread_local, "current_executor", None)
 
     def __init__(self, manager, session_config, parent_executor=None):
         self.manager = manager
-- 
2.43.0


From 2fdf7b8cdf9fe297962989ebe2239b7b8839759e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:39 +0000
Subject: [PATCH 54/94] fix: leaving a nested context left no current context
 instead of the outer one

---
 syncanysql/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/syncanysql/__init__.py b/syncanysql/__init__.py
index e4ce97c..a82eae6 100644
--- a/syncanysql/__init__.py
+++ b/syncanysql/__init__.py
@@ -36,6 +36,7 @@ class ExecuterContext(object):
     def __init__(self, engine, executor):
         self.engine = engine
         self.executor = executor
+        self.outer_contexts = []
 
     def get_variable(self, name, default=None):
         if name and name[0] != "@":
@@ -76,11 +77,12 @@ class ExecuterContext(object):
         self.executor.terminate()
 
     def __enter__(self):
+        self.outer_contexts.append(self.current())
         self._thread_local.current_executer_context = self
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        self._thread_local.current_executer_context = None
+        self._thread_local.current_executer_context = self.outer_contexts.pop()
 
 
 class ScriptEngine(object):
-- 
2.43.0


From bfa874081e3b3d9d42feb5e63f89a4145fbff625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:39 +0000
Subject: [PATCH 55/94] fix: push_memory_datas of a context and of the module
 called a missing method

---
 syncanysql/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/syncanysql/__init__.py b/syncanysql/__init__.py
index a82eae6..e3f1a7d 100644
--- a/syncanysql/__init__.py
+++ b/syncanysql/__init__.py
@@ -69,7 +69,7 @@ class ExecuterContext(object):
         return self.engine.pop_memory_datas(name)
 
     def push_memory_datas(self, name, datas):
-        return self.engine.push_datas(name, datas)
+        return self.engine.push_memory_datas(name, datas)
 
     def terminal(self):
         if not self.executor:
@@ -251,7 +251,7 @@ def pop_memory_datas(name):
 
 
 def push_memory_datas(name, datas):
-    return ScriptEngine.instance().push_datas(name, datas)
+    return ScriptEngine.instance().push_memory_datas(name, datas)
 
 
 def terminal():
-- 
2.43.0


From cefc1e944b4210688949930ebdbc91ab62edb759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:39 +0000
Subject: [PATCH 56/94] fix: terminal failed inside a context

---
 syncanysql/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/__init__.py b/syncanysql/__init__.py
index e3f1a7d..eb4015d 100644
--- a/syncanysql/__init__.py
+++ b/syncanysql/__init__.py
@@ -195,7 +195,7 @@ class ScriptEngine(object):
                 return
             self.executor.terminate()
             return
-        executer_context.terminate()
+        executer_context.terminal()
 
     def close(self):
         if self.manager:
-- 
2.43.0


From b97bf3ef5d7409456da2eac3953a3a92903e7b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:39 +0000
Subject: [PATCH 57/94] fix: the remaining tasks of a failed script ran with
 the next script

---
 syncanysql/__init__.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/syncanysql/__init__.py b/syncanysql/__init__.py
index eb4015d..a8faba8 100644
--- a/syncanysql/__init__.py
+++ b/syncanysql/__init__.py
@@ -56,8 +56,12 @@ class ExecuterContext(object):
         sqls = sql_parser.split()
         self.__class__._execute_index += 1
         with self.executor as executor:
-            executor.run("execute[%d]" % self._execute_index, sqls)
-            executor.execute()
+            try:
+                executor.run("execute[%d]" % self._execute_index, sqls)
+                executor.execute()
+            except BaseException:
+                executor.runners.clear()
+                raise
 
     def get_database(self, db=None):
         return self.engine.get_database(db)
-- 
2.43.0


From ede1a99d3caaaa6d7383ec94ad9a7d330773cb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:39 +0000
Subject: [PATCH 58/94] fix: a piped script without arguments ended before its
 first task

---
 syncanysql/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/main.py b/syncanysql/main.py
index 94db858..af0249e 100644
--- a/syncanysql/main.py
+++ b/syncanysql/main.py
@@ -57,7 +57,7 @@ def main():
                     sql_parser = SqlParser(content[1:-1] if content[0] in ('"', "'") and content[-1] in ('"', "'") else content)
                     sqls = sql_parser.split()
                     executor.run("pipe", sqls)
-                    get_logger().info("execute pipe sql start %d task", sys.argv[1], executor.get_tasker_index())
+                    get_logger().info("execute pipe sql start %d task", executor.get_tasker_index())
                     try:
                         executor.execute()
                     except Exception as e:
-- 
2.43.0


From aec84eedb0d4e5d65a0314607bc4c9a46a8ce491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:55 +0000
Subject: [PATCH 59/94] fix: backslash escapes in string literals were mangled
 or rejected

The dialect set a Tokenizer option sqlglot does not read, so an escaped quote
ended the literal, and the workaround that multiplied backslashes produced
wrong text.
---
 syncanysql/compiler.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 1c776e4..e86c8c1 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -38,10 +38,26 @@ class CompilerDialect(sqlglot_dialects.Dialect):
         QUOTES = ["'", '"']
         COMMENTS = ["--", "#", ("/*", "*/")]
         IDENTIFIERS = ["`"]
-        ESCAPES = ["'", "\\"]
+        STRING_ESCAPES = ["'", "\\"]
         BIT_STRINGS = [("b'", "'"), ("B'", "'"), ("0b", "")]
         HEX_STRINGS = [("x'", "'"), ("X'", "'"), ("0x", "")]
 
+        def _extract_string(self, delimiter):
+            text = ""
+            while not (self._char == delimiter and self._peek != delimiter):
+                if self._char == "\\" or self._char == delimiter:
+                    if self._current + 1 >= self.size:
+                        raise RuntimeError(f"Missing {delimiter} from {self._line}:{self._start}")
+                    # an escaped or doubled quote is that quote, every other escape is kept for parse_const
+                    text += self._peek if self._peek in self._QUOTES else self._char + self._peek
+                    self._advance(2)
+                else:
+                    if self._end:
+                        raise RuntimeError(f"Missing {delimiter} from {self._line}:{self._start}")
+                    text += self._char
+                    self._advance()
+            return text
+
     class Parser(sqlglot_parser.Parser):
         def _parse_parameter(self):
             wrapped = self._match(sqlglot_parser.TokenType.L_BRACE)
@@ -97,7 +113,6 @@ class CompilerDialect(sqlglot_dialects.Dialect):
 
 
 class Compiler(object):
-    ESCAPE_CHARS = ['\\\\a', '\\\\b', '\\\\f', '\\\\n', '\\\\r', '\\\\t', '\\\\v', '\\\\0']
     TYPE_FILTERS = {"int": "int", "float": "float", "str": "str", "string": "str", "bytes": "bytes", 'bool': 'bool', 'array': 'array', 'set': 'set',
                    'map': 'map', "objectid": "objectid", "uuid": "uuid", "datetime": "datetime", "date": "date", "time": "time",
                    "char": "str", "varchar": "str", "nchar": "str", "text": "str", "mediumtext": "str", "tinytext": "str",
@@ -112,12 +127,8 @@ class Compiler(object):
         self.with_tables = {}
 
     def compile(self, sql, arguments):
-        escape_sql = sql
-        if sql[:4].lower() not in ("set ", "use ") and "\\\\" in sql:
-            for escape_char in self.ESCAPE_CHARS:
-                escape_sql = escape_sql.replace(escape_char, "\\\\\\" + escape_char)
         try:
-            expression = maybe_parse(self.parse_mapping(escape_sql), dialect=CompilerDialect)
+            expression = maybe_parse(self.parse_mapping(sql), dialect=CompilerDialect)
             return self.compile_expression(expression, arguments)
         except ParseError as e:
             if not e.errors:
-- 
2.43.0


From 7365672937ad3344ad5cebf5f760383efef93a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:14 +0000
Subject: [PATCH 60/94] fix: EXPLAIN decoded the escapes of the explained
 statement twice

---
 syncanysql/compiler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index e86c8c1..a7186cf 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -156,8 +156,9 @@ class Compiler(object):
             return IntoTasker(query_tasker, self.compile_select_into(expression.args.get("into"), arguments))
         elif isinstance(expression, sqlglot_expressions.Command):
             if expression.args["this"].lower() == "explain" and self.is_const(expression.args["expression"], {}, arguments):
-                return ExplainTasker(self.compile(self.parse_const(expression.args["expression"], {}, arguments)["value"],
-                                                  arguments), self.to_sql(expression.args["expression"]))
+                sql = expression.args["expression"].name if isinstance(expression.args["expression"], sqlglot_expressions.Literal) \
+                    else self.parse_const(expression.args["expression"], {}, arguments)["value"]
+                return ExplainTasker(self.compile(sql, arguments), self.to_sql(expression.args["expression"]))
             if expression.args["this"].lower() == "set" and (isinstance(expression.args["expression"], str)
                                                              or self.is_const(expression.args["expression"], {}, arguments)):
                 if isinstance(expression.args["expression"], str):
-- 
2.43.0


From b610ffdb06eb27741049b36502d1cc00a96972f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:53 +0000
Subject: [PATCH 61/94] fix: a minus before a text, variable or function was
 dropped or reversed the text

A negated constant that is not a number literal lost its sign, and the negation
of a text column was its reversal.
---
 syncanysql/calculaters/mysql_funcs/number_funcs.py | 6 ++++++
 syncanysql/compiler.py                             | 6 +++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/number_funcs.py b/syncanysql/calculaters/mysql_funcs/number_funcs.py
index ff854c6..96edb94 100644
--- a/syncanysql/calculaters/mysql_funcs/number_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/number_funcs.py
@@ -132,6 +132,12 @@ def mysql_bit_xor(x, y):
     except:
         return ensure_int(x) ^ ensure_int(y)
 
+@typing_filter(float)
+def mysql_neg(x):
+    if x is None:
+        return None
+    return -ensure_number(x)
+
 @typing_filter(float)
 def mysql_abs(x):
     if x is None:
diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index a7186cf..12cb1d5 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1562,8 +1562,8 @@ class Compiler(object):
             return self.compile_join_column_field(expression, config, arguments, primary_table, join_index,
                                                   expression.syncany_column, column_join_tables)
         if isinstance(expression, sqlglot_expressions.Neg):
-            return ["@neg", self.compile_calculate(expression.args["this"], config, arguments, primary_table, 
-                                                   column_join_tables, join_index)]
+            return ["@mysql::neg", self.compile_calculate(expression.args["this"], config, arguments, primary_table,
+                                                          column_join_tables, join_index)]
         elif isinstance(expression, sqlglot_expressions.Anonymous):
             calculater_name = expression.args["this"].lower()
             if calculater_name == "get_value":
@@ -2913,7 +2913,7 @@ class Compiler(object):
 
     def is_const(self, expression, config, arguments):
         if isinstance(expression, sqlglot_expressions.Neg):
-            return not isinstance(expression.args["this"], sqlglot_expressions.Neg) and self.is_const(expression.args["this"], config, arguments)
+            return isinstance(expression.args["this"], sqlglot_expressions.Literal) and expression.args["this"].is_number
         if isinstance(expression, sqlglot_expressions.Parameter):
             return not isinstance(expression, AssignParameter)
         return isinstance(expression, (sqlglot_expressions.Literal, sqlglot_expressions.Boolean,
-- 
2.43.0


From 6613266a2af59b9c4a9e0e8dd498f31dacfc6c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:53 +0000
Subject: [PATCH 62/94] fix: bit string literals were read as NULL

---
 syncanysql/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 12cb1d5..b6b6276 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2764,7 +2764,7 @@ class Compiler(object):
         elif isinstance(expression, sqlglot_expressions.Boolean):
             value = expression.args["this"]
             typing_filter = "bool"
-        elif isinstance(expression, (sqlglot_expressions.HexString, sqlglot_expressions.HexString)):
+        elif isinstance(expression, (sqlglot_expressions.HexString, sqlglot_expressions.BitString)):
             value, typing_filter = int(expression.args["this"]), "int"
         elif isinstance(expression, sqlglot_expressions.Parameter):
             name = expression.args["this"].args["this"]
-- 
2.43.0


From 481a1edd69ff9a67e8f8d8fb82c320cb47f62db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:41 +0000
Subject: [PATCH 63/94] fix: quoted names with quotes, doubled back-quotes or
 comments around them were misread

A quote inside a back-quoted name started a text, a back-quote or quote inside a
comment paired with one outside, a doubled back-quote was rejected, and an odd
name used twice (a table alias) was taken for two different names.
---
 syncanysql/compiler.py | 11 +++++++----
 syncanysql/parser.py   | 31 ++++++++++++++++++++++++++++---
 2 files changed, 35 insertions(+), 7 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index b6b6276..875065e 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -124,6 +124,7 @@ class Compiler(object):
         self.env_variables = env_variables
         self.name = name
         self.mapping = {}
+        self.placeholders = {}
         self.with_tables = {}
 
     def compile(self, sql, arguments):
@@ -2874,11 +2875,13 @@ class Compiler(object):
         while True:
             try:
                 start_index, end_index, segment = parser.read_segment()
+                segment = segment.replace("``", "`")
                 allow_segment = get_allow_segment(segment)
                 if allow_segment != segment:
-                    allow_segment = allow_segment + "_" + str(uuid.uuid1().int)
-                    self.mapping[allow_segment] = segment
-                    segment = allow_segment
+                    if segment not in self.placeholders:
+                        self.placeholders[segment] = allow_segment + "_" + str(uuid.uuid1().int)
+                        self.mapping[self.placeholders[segment]] = segment
+                    segment = self.placeholders[segment]
                 segments.append(parser.sql[last_end_index: start_index])
                 segments.append(segment)
                 last_start_index, last_end_index = start_index, end_index
@@ -3253,7 +3256,7 @@ class Compiler(object):
             try:
                 start_index, end_index, segment = parser.read_segment()
                 if segment in self.mapping:
-                    segment = self.mapping[segment]
+                    segment = self.mapping[segment].replace("`", "``")
                 segments.append(parser.sql[last_end_index: start_index])
                 segments.append(segment)
                 last_start_index, last_end_index = start_index, end_index
diff --git a/syncanysql/parser.py b/syncanysql/parser.py
index b270581..d51e9db 100644
--- a/syncanysql/parser.py
+++ b/syncanysql/parser.py
@@ -67,13 +67,38 @@ class SqlParser(object):
             return start_index, self.index + len(cs) - 1, self.sql[start_index: self.index + len(cs) - 1]
         raise EOFError(self.sql[start_index:])
 
+    def skip_quote_or_comment(self):
+        if self.sql[self.index] in ('"', "'"):
+            self.skip_escape(self.sql[self.index])
+        elif self.sql[self.index] == "#" or self.sql[self.index: self.index + 2] == "--":
+            self.read_util('\n', ())
+        elif self.sql[self.index: self.index + 2] == "/*":
+            self.next()
+            self.next()
+            self.read_util("*/", ())
+            self.next()
+            self.next()
+        else:
+            return False
+        return True
+
     def read_segment(self, c='`'):
         while self.index < self.len:
-            self.read_util(c)
+            if self.skip_quote_or_comment():
+                continue
+            if self.sql[self.index] != c:
+                self.next()
+                continue
             self.next()
-            start_index, end_index, segment = self.read_util(c)
+            start_index = self.index
+            self.read_util(c, ())
+            while self.sql[self.index + 1: self.index + 2] == c:
+                self.next()
+                self.next()
+                self.read_util(c, ())
+            end_index = self.index
             self.next()
-            return start_index, end_index, segment
+            return start_index, end_index, self.sql[start_index: end_index]
         raise EOFError()
 
     def read_util_complete(self):
-- 
2.43.0


From 37fc3252a461059bf8f88a2f3234bb2159092ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:56 +0000
Subject: [PATCH 64/94] fix: a common table expression with an odd quoted name
 was not found

---
 syncanysql/compiler.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 875065e..5f16ca1 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -259,11 +259,12 @@ class Compiler(object):
         for sub_expression in expression.args["expressions"]:
             table_name = sub_expression.args["alias"].name
             with_table_name = "__withquery_" + str(uuid.uuid1().int) + "_" + table_name
+            origin_name = self.mapping[table_name] if table_name in self.mapping else table_name
             if expression.args.get("recursive"):
-                self.with_tables[table_name] = with_table_name
+                self.with_tables[origin_name] = with_table_name
             subquery_arguments = {key: arguments[key] for key in CONST_CONFIG_KEYS if key in arguments}
             subquery_config = self.compile_query(sub_expression.args["this"], subquery_arguments)
-            self.with_tables[table_name] = with_table_name
+            self.with_tables[origin_name] = with_table_name
             subquery_config["output"] = "&.--." + with_table_name + "::" + subquery_config["output"].split("::")[-1].split(" use ")[0] + " use I"
             subquery_config["name"] = subquery_config["name"] + "#" + table_name + "#select"
             arguments.update({subquery_config["name"] + "@" + key: value for key, value in subquery_arguments.items()})
@@ -2667,8 +2668,8 @@ class Compiler(object):
 
     def parse_source_table(self, expression, config, arguments):
         table_info = self.parse_table(expression, config, arguments)
-        if table_info["db"] == "--" and table_info["name"] in self.with_tables:
-            table_info["name"] = self.with_tables[table_info["name"]]
+        if not expression.args.get("db") and table_info["origin_name"] in self.with_tables:
+            table_info["db"], table_info["name"] = "--", self.with_tables[table_info["origin_name"]]
         return table_info
 
     def parse_column(self, expression, config, arguments):
-- 
2.43.0


From 63ca7b3cd4921d5713527a4afccff888147cf04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:50 +0000
Subject: [PATCH 65/94] fix: an expression without alias was named after the
 internal placeholder of a quoted name

---
 syncanysql/compiler.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 5f16ca1..97a6d21 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -501,17 +501,17 @@ class Compiler(object):
                     calculate_expression = select_expression.args["this"]
             elif self.is_const(select_expression, config, arguments):
                 const_info = self.parse_const(select_expression, config, arguments)
-                column_alias = self.generate_sql(select_expression)
+                column_alias = self.to_sql(select_expression)
                 config["schema"][column_alias] = self.compile_const(select_expression, config, arguments, const_info)
                 continue
             elif self.is_window_aggregate(select_expression, config, arguments):
-                column_alias = self.generate_sql(select_expression)
+                column_alias = self.to_sql(select_expression)
                 window_aggregate_expression = select_expression
             elif self.is_aggregate(select_expression, config, arguments):
-                column_alias = self.generate_sql(select_expression)
+                column_alias = self.to_sql(select_expression)
                 aggregate_expression = select_expression
             elif self.is_calculate(select_expression, config, arguments):
-                column_alias = self.generate_sql(select_expression)
+                column_alias = self.to_sql(select_expression)
                 calculate_expression = select_expression
             else:
                 raise SyncanySqlCompileException('error select column, must have an alias name, related sql "%s"'
@@ -1966,8 +1966,8 @@ class Compiler(object):
         for order_expression in expression:
             if not self.is_column(order_expression.args["this"], config, arguments):
                 if isinstance(config["schema"], dict):
-                    if self.generate_sql(order_expression.args["this"]) in config["schema"]:
-                        sort_keys.append((self.generate_sql(order_expression.args["this"]), True if order_expression.args["desc"] else False))
+                    if self.to_sql(order_expression.args["this"]) in config["schema"]:
+                        sort_keys.append((self.to_sql(order_expression.args["this"]), True if order_expression.args["desc"] else False))
                         continue
                     has_column = False
                     for column_alias, column_expression in primary_table["select_columns"].items():
-- 
2.43.0


From ea7754a2e23400fc29498e9c79f55f5ade6449b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:42 +0000
Subject: [PATCH 66/94] fix: SET with an expression lost the quoted names in it

---
 syncanysql/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 97a6d21..002b928 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -185,7 +185,7 @@ class Compiler(object):
         elif isinstance(expression, sqlglot.expressions.Set) and expression.args.get("expressions") and len(expression.args.get("expressions")) == 1:
             set_item_expression = expression.args.get("expressions")[0]
             if isinstance(set_item_expression, sqlglot_expressions.SetItem) and isinstance(set_item_expression.args["this"], sqlglot_expressions.EQ):
-                value = self.generate_sql(set_item_expression).split("=")
+                value = self.to_sql(set_item_expression).split("=")
                 config = {"key": value[0].strip(), "value": "=".join(value[1:]).strip()}
                 value_expression = set_item_expression.args["this"].args["expression"]
                 if isinstance(value_expression, sqlglot_expressions.Literal) and value_expression.is_string \
-- 
2.43.0


From c1d4f5753183d89f24279630be02e148b967b0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:27 +0000
Subject: [PATCH 67/94] fix: LIMIT cut the rows before joining, grouping and
 DISTINCT, and LIMIT 0 was ignored

---
 syncanysql/compiler.py | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 002b928..bfd4920 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -562,22 +562,6 @@ class Compiler(object):
         if order_expression:
             self.compile_order(order_expression.args["expressions"], config, arguments, primary_table)
 
-        offset_value = max(int(expression.args.get("offset").args["expression"].args["this"]), 0) if expression.args.get("offset") else 0
-        limit_value = int(expression.args.get("limit").args["expression"].args["this"]) if expression.args.get("limit") else 0
-        if limit_value != 0 or offset_value > 0:
-            if config["predicate"] or config["intercept"] or (config.get("aggregate") and
-                                                              (config["aggregate"]["schema"] or config["aggregate"]["window_schema"])) \
-                    or config["pipelines"] or limit_value <= 0:
-                if limit_value != 0:
-                    config["pipelines"].append([">>@array::slice", "$.*|array", offset_value,
-                                                (offset_value + limit_value) if limit_value > 0 else limit_value])
-                else:
-                    config["pipelines"].append([">>@array::slice", "$.*|array", offset_value])
-            else:
-                if offset_value > 0:
-                    config["pipelines"].append([">>@array::slice", "$.*|array", offset_value])
-                arguments["@limit"] = offset_value + limit_value
-
         if group_expression and ("aggregate" not in config or not config["aggregate"] or not config["aggregate"]["schema"]):
             self.compile_group_column(group_expression, config, arguments, primary_table, join_tables)
         distinct_expression = expression.args.get("distinct")
@@ -594,6 +578,7 @@ class Compiler(object):
                     if name in config["aggregate"]["schema"]:
                         continue
                     config["aggregate"]["distinct_keys"].append(copy.deepcopy(column))
+        self.compile_limit(expression, config, arguments, join_tables)
         if not from_expression and not primary_table["outputer_primary_keys"] and isinstance(config["schema"], dict):
             for column_alias in config["schema"]:
                 if not column_alias.isidentifier():
@@ -608,6 +593,23 @@ class Compiler(object):
                                     (" use " + config["output"].split(" use ")[-1]) if " use " in config["output"] else (
                                             " use " + (arguments.get("@use_output") or "I"))])
 
+    def compile_limit(self, expression, config, arguments, join_tables):
+        offset_value = max(int(expression.args.get("offset").args["expression"].args["this"]), 0) if expression.args.get("offset") else 0
+        limit_value = int(expression.args.get("limit").args["expression"].args["this"]) if expression.args.get("limit") else None
+        if limit_value is None:
+            if offset_value > 0:
+                config["pipelines"].append([">>@array::slice", "$.*|array", offset_value])
+        elif config["predicate"] or config["intercept"] or (config.get("aggregate") and
+                                                            (config["aggregate"]["schema"] or config["aggregate"]["window_schema"]
+                                                             or config["aggregate"]["distinct_keys"])) \
+                or config["pipelines"] or join_tables or limit_value <= 0:
+            config["pipelines"].append([">>@array::slice", "$.*|array", offset_value,
+                                        (offset_value + limit_value) if limit_value >= 0 else limit_value])
+        else:
+            if offset_value > 0:
+                config["pipelines"].append([">>@array::slice", "$.*|array", offset_value])
+            arguments["@limit"] = offset_value + limit_value
+
     def compile_pipleline_select(self, expression, config, arguments, primary_table):
         select_expressions = expression.args.get("expressions")
         if not select_expressions or len(select_expressions) != 1 or not isinstance(select_expressions[0], sqlglot_expressions.Anonymous):
-- 
2.43.0


From e7c2333da255df12b1181bcda01ea9165bbd3ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:32 +0000
Subject: [PATCH 68/94] fix: ORDER BY and LIMIT after a UNION applied to its
 last select only

---
 syncanysql/compiler.py | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index bfd4920..c4f9a7c 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -366,17 +366,28 @@ class Compiler(object):
             raise SyncanySqlCompileException('unknown insert into, related sql "%s"' % self.to_sql(expression))
 
     def compile_union(self, expression, config, arguments):
-        select_expressions = []
+        select_expressions, modifiers = [], {}
         def parse(union_expression):
-            if isinstance(union_expression.args["this"], sqlglot_expressions.Select):
-                select_expressions.append(union_expression.args["this"])
-            else:
-                parse(union_expression.args["this"])
-            if isinstance(union_expression.args["expression"], sqlglot_expressions.Select):
-                select_expressions.append(union_expression.args["expression"])
-            else:
-                parse(union_expression.args["expression"])
+            for key in ("order", "limit", "offset"):
+                if union_expression.args.get(key):
+                    modifiers[key] = union_expression.args[key]
+            for select_expression in (union_expression.args["this"], union_expression.args["expression"]):
+                if isinstance(select_expression, sqlglot_expressions.Union):
+                    parse(select_expression)
+                elif isinstance(select_expression, sqlglot_expressions.Subquery):
+                    select_expressions.append((select_expression.args["this"], False))
+                else:
+                    select_expressions.append((select_expression, True))
         parse(expression)
+        last_expression, is_bare_select = select_expressions[-1]
+        select_expressions = [select_expression for select_expression, _ in select_expressions]
+        if is_bare_select:
+            # without parentheses the ORDER BY and LIMIT after the last select are those of the whole union
+            select_expressions[-1] = last_expression.copy()
+            for key in ("order", "limit", "offset"):
+                if last_expression.args.get(key):
+                    modifiers[key] = last_expression.args[key]
+                    select_expressions[-1].set(key, None)
 
         query_name = "__unionquery_" + str(uuid.uuid1().int)
         union_column_names, output_primary_key, output_type = None, None, "I"
@@ -407,10 +418,15 @@ class Compiler(object):
             if output_type == "I" and len(output_primary_key_type_info) >= 2:
                 output_type = output_primary_key_type_info[1].strip()
             config["dependencys"].append(subquery_config)
-        config["input"] = "&.--." + query_name + "::" + output_primary_key
-        config["output"] = config["output"].split("::")[0] + "::" + output_primary_key + " use " + output_type
         arguments["@primary_order"] = False
         arguments["@limit"] = 0
+        if modifiers.get("order"):
+            self.compile_order(modifiers["order"].args["expressions"], config, arguments,
+                               {"table_name": None, "table_alias": None, "columns": {}, "select_columns": {}})
+        if modifiers.get("limit") or modifiers.get("offset"):
+            self.compile_limit(sqlglot_expressions.Select(**modifiers), config, arguments, {})
+        config["input"] = "&.--." + query_name + "::" + output_primary_key
+        config["output"] = config["output"].split("::")[0] + "::" + output_primary_key + " use " + output_type
 
     def compile_select(self, expression, config, arguments):
         primary_table = {"db": None, "name": None, "table_name": None, "table_alias": None, "seted_primary_keys": False,
-- 
2.43.0


From 893dc4e648fb235124b9f039ed0053f36ce3c7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:55 +0000
Subject: [PATCH 69/94] fix: ORDER BY sorted by another column than the one
 named, or failed on names with a dot

---
 syncanysql/calculaters/__init__.py       |  1 +
 syncanysql/calculaters/row_calculater.py | 15 ++++++
 syncanysql/compiler.py                   | 65 ++++++++++++++----------
 3 files changed, 54 insertions(+), 27 deletions(-)

diff --git a/syncanysql/calculaters/__init__.py b/syncanysql/calculaters/__init__.py
index 53b7ed9..a11ccab 100644
--- a/syncanysql/calculaters/__init__.py
+++ b/syncanysql/calculaters/__init__.py
@@ -19,6 +19,7 @@ SQL_CALCULATERS = {
     "current_env_variable": CurrentEnvVariableCalculater,
     "row_index": RowIndexCalculater,
     "row_last": RowLastCalculater,
+    "row_sort": RowSortCalculater,
     "mysql": MysqlCalculater,
     "aggregate_key": AggregateKeyCalculater,
     "aggregate_count": AggregateCountCalculater,
diff --git a/syncanysql/calculaters/row_calculater.py b/syncanysql/calculaters/row_calculater.py
index 56fe4c6..af228cb 100644
--- a/syncanysql/calculaters/row_calculater.py
+++ b/syncanysql/calculaters/row_calculater.py
@@ -2,6 +2,8 @@
 # 2024/2/2
 # create by: snower
 
+from syncany.utils import CmpValue
+from syncany.filters import ArrayFilter
 from syncany.calculaters.calculater import Calculater
 
 
@@ -33,3 +35,16 @@ class RowLastCalculater(Calculater):
     def calculate(self, *args):
         row_last, self.row_last = self.row_last, (args[0] if len(args) == 1 else args)
         return row_last
+
+
+class RowSortCalculater(Calculater):
+    def calculate(self, *args):
+        datas, keys = args
+        if not isinstance(datas, list):
+            return datas
+        for name, is_desc in reversed(keys):
+            datas = sorted(datas, key=lambda data: CmpValue(data[name]), reverse=True if is_desc else False)
+        return datas
+
+    def get_final_filter(self):
+        return ArrayFilter.default()
diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index c4f9a7c..cc5c2b6 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -422,7 +422,7 @@ class Compiler(object):
         arguments["@limit"] = 0
         if modifiers.get("order"):
             self.compile_order(modifiers["order"].args["expressions"], config, arguments,
-                               {"table_name": None, "table_alias": None, "columns": {}, "select_columns": {}})
+                               {"table_name": None, "table_alias": None, "columns": {}, "select_columns": {}}, {})
         if modifiers.get("limit") or modifiers.get("offset"):
             self.compile_limit(sqlglot_expressions.Select(**modifiers), config, arguments, {})
         config["input"] = "&.--." + query_name + "::" + output_primary_key
@@ -576,7 +576,7 @@ class Compiler(object):
 
         order_expression = expression.args.get("order")
         if order_expression:
-            self.compile_order(order_expression.args["expressions"], config, arguments, primary_table)
+            self.compile_order(order_expression.args["expressions"], config, arguments, primary_table, join_tables)
 
         if group_expression and ("aggregate" not in config or not config["aggregate"] or not config["aggregate"]["schema"]):
             self.compile_group_column(group_expression, config, arguments, primary_table, join_tables)
@@ -1979,7 +1979,13 @@ class Compiler(object):
                 return [("@mysql::" + func_name) if is_mysql_func(func_name) else ("@" + func_name), left_calculater]
             return [("@mysql::" + func_name) if is_mysql_func(func_name) else ("@" + func_name), left_calculater, right_calculater]
 
-    def compile_order(self, expression, config, arguments, primary_table):
+    def parse_order_select_column(self, column_alias, config, arguments, primary_table):
+        column_expression = primary_table["select_columns"].get(column_alias)
+        if column_expression is None or not self.is_column(column_expression, config, arguments):
+            return None
+        return self.parse_column(column_expression, config, arguments)
+
+    def compile_order(self, expression, config, arguments, primary_table, join_tables):
         primary_sort_keys, sort_keys = [], []
         for order_expression in expression:
             if not self.is_column(order_expression.args["this"], config, arguments):
@@ -1987,41 +1993,46 @@ class Compiler(object):
                     if self.to_sql(order_expression.args["this"]) in config["schema"]:
                         sort_keys.append((self.to_sql(order_expression.args["this"]), True if order_expression.args["desc"] else False))
                         continue
-                    has_column = False
-                    for column_alias, column_expression in primary_table["select_columns"].items():
-                        if self.generate_sql(order_expression.args["this"]).lower() == self.generate_sql(column_expression).lower():
-                            sort_keys.append((column_alias, True if order_expression.args["desc"] else False))
-                            has_column = True
-                            break
-                    if has_column:
+                    order_sql = self.generate_sql(order_expression.args["this"])
+                    select_sqls = [(column_alias, self.generate_sql(column_expression))
+                                   for column_alias, column_expression in primary_table["select_columns"].items()]
+                    column_aliases = [column_alias for column_alias, select_sql in select_sqls if select_sql == order_sql] or \
+                                     [column_alias for column_alias, select_sql in select_sqls if select_sql.lower() == order_sql.lower()]
+                    if column_aliases:
+                        sort_keys.append((column_aliases[0], True if order_expression.args["desc"] else False))
                         continue
                 raise SyncanySqlCompileException('unknown order by column, the order by field must appear in the select field, related sql "%s"'
                                                  % self.to_sql(expression))
             column = self.parse_column(order_expression.args["this"], config, arguments)
-            if not isinstance(config["schema"], dict) or (column["table_name"] and primary_table["table_name"] == column["table_name"]):
+            if not isinstance(config["schema"], dict):
+                primary_sort_keys.append([column["column_name"], True if order_expression.args["desc"] else False])
+                sort_keys.append((column["column_name"], True if order_expression.args["desc"] else False))
+                continue
+            if not column["table_name"] and column["column_name"] in config["schema"]:
+                column_alias = column["column_name"]
+                column = self.parse_order_select_column(column_alias, config, arguments, primary_table)
+            else:
+                column_alias = None
+                for select_column_alias in primary_table["select_columns"]:
+                    select_column = self.parse_order_select_column(select_column_alias, config, arguments, primary_table)
+                    if select_column and select_column["column_name"] == column["column_name"] and \
+                            (select_column["table_name"] or primary_table["table_name"]) == (column["table_name"] or primary_table["table_name"]):
+                        column_alias = select_column_alias
+                        break
+                if not column["table_name"] and join_tables and column["column_name"] not in primary_table["columns"]:
+                    column = None
+            if column and primary_table["table_name"] and not column["typing_filters"] and \
+                    (not column["table_name"] or column["table_name"] == primary_table["table_name"]):
                 primary_sort_keys.append([column["column_name"], True if order_expression.args["desc"] else False])
-            elif not column["table_name"] and not primary_table["table_alias"]:
-                if not config.get("aggregate"):
-                    if column["column_name"] in primary_table["columns"] or column["column_name"] not in config["schema"]:
-                        primary_sort_keys.append([column["column_name"], True if order_expression.args["desc"] else False])
-                elif column["column_name"] not in config["aggregate"]["schema"] and column["column_name"] not in config["aggregate"]["window_schema"]:
-                    if column["column_name"] in primary_table["columns"] or column["column_name"] not in config["schema"]:
-                        primary_sort_keys.append([column["column_name"], True if order_expression.args["desc"] else False])
-            elif not column["table_name"] and primary_table["table_alias"]:
-                if not config.get("aggregate"):
-                    if column["column_name"] in primary_table["columns"] and column["column_name"] not in config["schema"]:
-                        primary_sort_keys.append([column["column_name"], True if order_expression.args["desc"] else False])
-                elif column["column_name"] not in config["aggregate"]["schema"] and column["column_name"] not in config["aggregate"]["window_schema"]:
-                    if column["column_name"] in primary_table["columns"] and column["column_name"] not in config["schema"]:
-                        primary_sort_keys.append([column["column_name"], True if order_expression.args["desc"] else False])
-            sort_keys.append((column["column_name"], True if order_expression.args["desc"] else False))
+            sort_keys.append((column_alias, True if order_expression.args["desc"] else False))
         if sort_keys and len(primary_sort_keys) < len(sort_keys):
             if isinstance(config["schema"], dict):
                 for sort_key, _ in sort_keys:
                     if sort_key in config["schema"]:
                         continue
                     raise SyncanySqlCompileException('unknown order by column, related sql "%s"' % self.to_sql(expression))
-            config["pipelines"].append([">>@sort", "$.*|array", False, sort_keys])
+            config["pipelines"].append([">>@row_sort", "$.*|array", sort_keys])
+            primary_sort_keys = []
         if primary_sort_keys:
             config["orders"].extend(primary_sort_keys)
 
-- 
2.43.0


From 76595415f39d4008c0c74dcde55106914e6008a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:36 +0000
Subject: [PATCH 70/94] fix: A OR B AND C was read as (A OR B) AND C

---
 syncanysql/compiler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index cc5c2b6..6bd9e1e 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -69,6 +69,11 @@ class CompilerDialect(sqlglot_dialects.Dialect):
             expression = self._parse_conjunction() or self._parse_function() or self._parse_id_var()
             return self.expression(AssignParameter, this=this, expression=expression, wrapped=wrapped)
 
+        def _parse_conjunction(self):
+            # AND binds tighter than OR
+            return self._parse_tokens(lambda: self._parse_tokens(self._parse_equality, {
+                sqlglot_parser.TokenType.AND: sqlglot_expressions.And}), {sqlglot_parser.TokenType.OR: sqlglot_expressions.Or})
+
         def _parse_limit(self, this=None, top=False):
             if top or not self._match(sqlglot_parser.TokenType.LIMIT, False):
                 return sqlglot_parser.Parser._parse_limit(self, this, top)
-- 
2.43.0


From c8406fa0c547fd629ba797ae8905f547bec575a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:36 +0000
Subject: [PATCH 71/94] fix: AND, OR and BETWEEN on NULL were not three-valued,
 BETWEEN on a joined column failed

---
 .../calculaters/mysql_funcs/logical_funcs.py  | 12 ++++++++++
 syncanysql/compiler.py                        | 24 ++++++++-----------
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/logical_funcs.py b/syncanysql/calculaters/mysql_funcs/logical_funcs.py
index 1d52358..0574898 100644
--- a/syncanysql/calculaters/mysql_funcs/logical_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/logical_funcs.py
@@ -204,6 +204,18 @@ def mysql_not(a):
         return None
     return 1 if not a else 0
 
+@typing_filter(int)
+def mysql_and(a, b):
+    if a is None or b is None:
+        return None if (a is None or a) and (b is None or b) else 0
+    return 1 if a and b else 0
+
+@typing_filter(int)
+def mysql_or(a, b):
+    if a or b:
+        return 1
+    return None if a is None or b is None else 0
+
 @typing_filter(int)
 def mysql_is(a, b):
     if a.__class__ == b.__class__:
diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 6bd9e1e..4d4f617 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1773,10 +1773,10 @@ class Compiler(object):
             return self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index)
         elif isinstance(expression, sqlglot_expressions.Between):
             return ["#make", {
-                "key_value": self.compile_calculate(expression.args["this"], config, arguments, primary_table, []),
-                "low_value": self.compile_calculate(expression.args["low"], config, arguments, primary_table, []),
-                "high_value": self.compile_calculate(expression.args["high"], config, arguments, primary_table, [])
-            }, [":#if", ["@mysql::gte", "$.key_value", "$.low_value"], ["@mysql::lte", "$.key_value", "$.high_value"], ["#const", 0]]]
+                "key_value": self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index),
+                "low_value": self.compile_calculate(expression.args["low"], config, arguments, primary_table, column_join_tables, join_index),
+                "high_value": self.compile_calculate(expression.args["high"], config, arguments, primary_table, column_join_tables, join_index)
+            }, [":@mysql::and", ["@mysql::gte", "$.key_value", "$.low_value"], ["@mysql::lte", "$.key_value", "$.high_value"]]]
         elif self.is_column(expression, config, arguments):
             join_column = self.parse_column(expression, config, arguments)
             return self.compile_join_column_field(expression, config, arguments, primary_table, join_index, 
@@ -1824,16 +1824,14 @@ class Compiler(object):
         elif isinstance(expression, (sqlglot_expressions.Binary, sqlglot_expressions.Condition)):
             if isinstance(expression, sqlglot_expressions.And):
                 return [
-                    "#if",
+                    "@mysql::and",
                     self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index),
-                    self.compile_calculate(expression.args["expression"], config, arguments, primary_table, column_join_tables, join_index),
-                    ["#const", 0]
+                    self.compile_calculate(expression.args["expression"], config, arguments, primary_table, column_join_tables, join_index)
                 ]
             if isinstance(expression, sqlglot_expressions.Or):
                 return [
-                    "#if",
+                    "@mysql::or",
                     self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index),
-                    ["#const", 1],
                     self.compile_calculate(expression.args["expression"], config, arguments, primary_table, column_join_tables, join_index)
                 ]
 
@@ -1871,16 +1869,14 @@ class Compiler(object):
     def compile_having_condition(self, expression, config, arguments, primary_table):
         if isinstance(expression, sqlglot_expressions.And):
             return [
-                "#if",
+                "@mysql::and",
                 self.compile_having_condition(expression.args.get("this"), config, arguments, primary_table),
-                self.compile_having_condition(expression.args.get("expression"), config, arguments, primary_table),
-                ["#const", 0]
+                self.compile_having_condition(expression.args.get("expression"), config, arguments, primary_table)
             ]
         if isinstance(expression, sqlglot_expressions.Or):
             return [
-                "#if",
+                "@mysql::or",
                 self.compile_having_condition(expression.args.get("this"), config, arguments, primary_table),
-                ["#const", 1],
                 self.compile_having_condition(expression.args.get("expression"), config, arguments, primary_table)
             ]
 
-- 
2.43.0


From be74d6d88afb3a4410533b2e2fb8621d0473c5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:36 +0000
Subject: [PATCH 72/94] fix: WHERE comparisons handed to the source read 5 < v
 as v < 5, matched NULL and lost repeated ones

---
 syncanysql/compiler.py | 63 +++++++++++++++++++++++++-----------------
 1 file changed, 38 insertions(+), 25 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 4d4f617..a7f8706 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -915,7 +915,7 @@ class Compiler(object):
                 right_column = self.parse_column(right_expression, config, arguments)
                 if right_column["table_name"] and primary_table["table_name"] != right_column["table_name"]:
                     return None, None
-                left_expression, right_expression, left_column = right_expression, left_expression, right_column
+                left_expression, right_expression, left_column = right_expression, left_expression, dict(right_column, reversed=True)
             if left_column is None:
                 return None, None
 
@@ -940,70 +940,83 @@ class Compiler(object):
                 return left_column, right_calculater
             return None, None
 
+        def is_null_sensitive(condition_exp, condition_calculater):
+            # data sources may order NULL before every value and count it as unequal, those conditions are checked locally too
+            if condition_exp == "in" and condition_calculater[1][0] == "#const":
+                return any([value is None for value in condition_calculater[1][1]])
+            return condition_exp not in ("==", ">", ">=") or condition_calculater[0] != "#const" or condition_calculater[1] is None
+
         def build_query_condition(condition_column, condition_exp, condition_calculater):
-            if condition_column["typing_name"] not in config["querys"]:
-                config["querys"][condition_column["typing_name"]] = {}
-            condition_querys = config["querys"][condition_column["typing_name"]]
-            if isinstance(condition_querys, dict):
-                if condition_exp not in condition_querys:
-                    condition_querys[condition_exp] = condition_calculater
-                    return None
-                condition_querys = [condition_querys]
-                config["querys"][condition_column["typing_name"]] = condition_querys
-            for condition_query in condition_querys:
-                if condition_exp not in condition_query:
-                    condition_query[condition_exp] = condition_calculater
-                    return None
-            condition_querys.append({condition_exp: condition_calculater})
-            return None
+            if condition_column.get("reversed"):
+                condition_exp = {">": "<", ">=": "<=", "<": ">", "<=": ">="}.get(condition_exp, condition_exp)
+            column_key = condition_column["typing_name"]
+            for query_key in config["querys"]:
+                # a data source takes one condition of a kind for a column, further ones are only checked locally
+                if query_key.split("|")[0] == column_key.split("|")[0] and any(
+                        [exp in config["querys"][query_key] for exp in (("==", "in") if condition_exp in ("==", "in") else (condition_exp,))]):
+                    return False, True
+            config["querys"].setdefault(column_key, {})[condition_exp] = condition_calculater
+            return True, is_null_sensitive(condition_exp, condition_calculater)
 
         if isinstance(expression, sqlglot_expressions.EQ):
             condition_column, right_calculater = parse_condition(expression)
             if condition_column is None or right_calculater is None:
                 return expression
-            build_query_condition(condition_column, "==", right_calculater)
+            if build_query_condition(condition_column, "==", right_calculater)[1]:
+                return expression
             setattr(expression, "syncany_valuer", ["#const", 1])
             return None
         elif isinstance(expression, sqlglot_expressions.NEQ):
             condition_column, right_calculater = parse_condition(expression)
             if condition_column is None or right_calculater is None:
                 return expression
-            build_query_condition(condition_column, "!=", right_calculater)
+            if build_query_condition(condition_column, "!=", right_calculater)[1]:
+                return expression
             setattr(expression, "syncany_valuer", ["#const", 1])
             return None
         elif isinstance(expression, sqlglot_expressions.GT):
             condition_column, right_calculater = parse_condition(expression)
             if condition_column is None or right_calculater is None:
                 return expression
-            build_query_condition(condition_column, ">", right_calculater)
+            if build_query_condition(condition_column, ">", right_calculater)[1]:
+                return expression
             setattr(expression, "syncany_valuer", ["#const", 1])
             return None
         elif isinstance(expression, sqlglot_expressions.GTE):
             condition_column, right_calculater = parse_condition(expression)
             if condition_column is None or right_calculater is None:
                 return expression
-            build_query_condition(condition_column, ">=", right_calculater)
+            if build_query_condition(condition_column, ">=", right_calculater)[1]:
+                return expression
             setattr(expression, "syncany_valuer", ["#const", 1])
             return None
         elif isinstance(expression, sqlglot_expressions.LT):
             condition_column, right_calculater = parse_condition(expression)
             if condition_column is None or right_calculater is None:
                 return expression
-            build_query_condition(condition_column, "<", right_calculater)
+            if build_query_condition(condition_column, "<", right_calculater)[1]:
+                return expression
             setattr(expression, "syncany_valuer", ["#const", 1])
             return None
         elif isinstance(expression, sqlglot_expressions.LTE):
             condition_column, right_calculater = parse_condition(expression)
             if condition_column is None or right_calculater is None:
                 return expression
-            build_query_condition(condition_column, "<=", right_calculater)
+            if build_query_condition(condition_column, "<=", right_calculater)[1]:
+                return expression
             setattr(expression, "syncany_valuer", ["#const", 1])
             return None
         elif isinstance(expression, sqlglot_expressions.In):
             condition_column, right_calculater = parse_condition(expression)
             if condition_column is None or right_calculater is None:
                 return expression
-            build_query_condition(condition_column, "in", ["@convert_array", right_calculater])
+            is_query, is_local = build_query_condition(condition_column, "in", ["@convert_array", right_calculater])
+            if is_local:
+                if not is_query or expression.args.get("expressions"):
+                    return expression
+                # a list taken from a subquery or a variable may hold NULL, which is not equal to anything
+                return sqlglot_expressions.Not(this=sqlglot_expressions.Is(
+                    this=expression.args["this"].copy(), expression=sqlglot_expressions.Null()))
             setattr(expression, "syncany_valuer", ["#const", 1])
             return None
         elif isinstance(expression, sqlglot_expressions.Paren):
@@ -1843,8 +1856,8 @@ class Compiler(object):
                     ["#make", [self.compile_calculate(item_expression, config, arguments, primary_table, column_join_tables, join_index)
                                for item_expression in expression.args["expressions"]]]
                 ]
-            if expression.args.get("query"):
-                query_value_calculate = self.compile_calculate(expression.args["query"], config, arguments, primary_table, column_join_tables, join_index)
+            if expression.args.get("query") or expression.args.get("field"):
+                query_value_calculate = self.compile_calculate(expression.args.get("query") or expression.args["field"], config, arguments, primary_table, column_join_tables, join_index)
                 return [
                     ("@mysql::" + func_name) if is_mysql_func(func_name) else (":@" + func_name),
                     self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index),
-- 
2.43.0


From 3da6645abfa0821f1fb514d0396875a8e007262c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:27 +0000
Subject: [PATCH 73/94] fix: ORDER BY v sorted by a selected CAST(v AS ..) and
 ORDER BY CAST(v AS ..) by v

---
 syncanysql/compiler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index a7f8706..f517d02 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2022,7 +2022,7 @@ class Compiler(object):
                 primary_sort_keys.append([column["column_name"], True if order_expression.args["desc"] else False])
                 sort_keys.append((column["column_name"], True if order_expression.args["desc"] else False))
                 continue
-            if not column["table_name"] and column["column_name"] in config["schema"]:
+            if not column["table_name"] and not column["convert_typing_filter"] and column["column_name"] in config["schema"]:
                 column_alias = column["column_name"]
                 column = self.parse_order_select_column(column_alias, config, arguments, primary_table)
             else:
@@ -2030,6 +2030,7 @@ class Compiler(object):
                 for select_column_alias in primary_table["select_columns"]:
                     select_column = self.parse_order_select_column(select_column_alias, config, arguments, primary_table)
                     if select_column and select_column["column_name"] == column["column_name"] and \
+                            select_column["convert_typing_filter"] == column["convert_typing_filter"] and \
                             (select_column["table_name"] or primary_table["table_name"]) == (column["table_name"] or primary_table["table_name"]):
                         column_alias = select_column_alias
                         break
-- 
2.43.0


From b5d5473850139e36709b29d6f48a099202dea3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:53 +0000
Subject: [PATCH 74/94] fix: WHERE v IN 5 failed

---
 syncanysql/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index f517d02..ba86dc7 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -942,7 +942,7 @@ class Compiler(object):
 
         def is_null_sensitive(condition_exp, condition_calculater):
             # data sources may order NULL before every value and count it as unequal, those conditions are checked locally too
-            if condition_exp == "in" and condition_calculater[1][0] == "#const":
+            if condition_exp == "in" and condition_calculater[1][0] == "#const" and isinstance(condition_calculater[1][1], list):
                 return any([value is None for value in condition_calculater[1][1]])
             return condition_exp not in ("==", ">", ">=") or condition_calculater[0] != "#const" or condition_calculater[1] is None
 
-- 
2.43.0


From cc2acbd2f6e86b551f722831e7276291d2de61f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:19 +0000
Subject: [PATCH 75/94] fix: WHERE v IN (id, 10) compared v with the id of no
 row

---
 syncanysql/compiler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index ba86dc7..0b7d389 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -924,6 +924,8 @@ class Compiler(object):
                     value_items = [self.parse_const(value_expression_item, config, arguments)["value"]
                                    for value_expression_item in right_expression]
                     return left_column, ["#const", value_items]
+                if any([has_column_expression(value_expression_item) for value_expression_item in right_expression]):
+                    return None, None
                 value_items = [self.compile_where_condition_column(value_expression_item, config, arguments, primary_table, join_tables)
                                for value_expression_item in right_expression]
                 return left_column, ["#make", value_items]
-- 
2.43.0


From f3af4b708e1df88069ba69ac10a65d2a8cdf8066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:24 +0000
Subject: [PATCH 76/94] fix: HAVING v BETWEEN 1 AND 3 failed

---
 syncanysql/compiler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 0b7d389..f36c90c 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1984,6 +1984,12 @@ class Compiler(object):
         elif isinstance(expression, sqlglot_expressions.Like):
             left_calculater, right_calculater = parse(expression)
             return ["@mysql::like", left_calculater, right_calculater]
+        elif isinstance(expression, sqlglot_expressions.Between):
+            return ["@mysql::and"] + [
+                self.compile_having_condition(condition_type(this=expression.args["this"].copy(), expression=expression.args[name].copy()),
+                                              config, arguments, primary_table)
+                for condition_type, name in ((sqlglot_expressions.GTE, "low"), (sqlglot_expressions.LTE, "high"))
+            ]
         elif isinstance(expression, sqlglot_expressions.Paren):
             return self.compile_having_condition(expression.args.get("this"), config, arguments, primary_table)
         else:
-- 
2.43.0


From cbee04ef012f87465b16805103b0435e82633f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:42 +0000
Subject: [PATCH 77/94] fix: SELECT * with WHERE v < (SELECT ..) failed

---
 syncanysql/compiler.py | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index f36c90c..18f42bc 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -869,7 +869,7 @@ class Compiler(object):
                 return right_calculate_expression
             if right_calculate_expression is None:
                 return left_calculate_expression
-            return expression
+            return sqlglot_expressions.And(this=left_calculate_expression, expression=right_calculate_expression)
         if isinstance(expression, sqlglot_expressions.Or):
             return expression
 
@@ -960,52 +960,65 @@ class Compiler(object):
             config["querys"].setdefault(column_key, {})[condition_exp] = condition_calculater
             return True, is_null_sensitive(condition_exp, condition_calculater)
 
+        def local_condition(is_query, condition_column, condition_calculater):
+            if not is_query or isinstance(config["schema"], dict) or condition_calculater[0] != "@convert_array":
+                return expression
+            # rows selected as a whole have no place for the value of a subquery
+            return sqlglot_expressions.Not(this=sqlglot_expressions.Is(
+                this=condition_column["expression"].copy(), expression=sqlglot_expressions.Null()))
+
         if isinstance(expression, sqlglot_expressions.EQ):
             condition_column, right_calculater = parse_condition(expression)
             if condition_column is None or right_calculater is None:
                 return expression
-            if build_query_condition(condition_column, "==", right_calculater)[1]:
-                return expression
+            is_query, is_local = build_query_condition(condition_column, "==", right_calculater)
+            if is_local:
+                return local_condition(is_query, condition_column, right_calculater)
             setattr(expression, "syncany_valuer", ["#const", 1])
             return None
         elif isinstance(expression, sqlglot_expressions.NEQ):
             condition_column, right_calculater = parse_condition(expression)
             if condition_column is None or right_calculater is None:
                 return expression
-            if build_query_condition(condition_column, "!=", right_calculater)[1]:
-                return expression
+            is_query, is_local = build_query_condition(condition_column, "!=", right_calculater)
+            if is_local:
+                return local_condition(is_query, condition_column, right_calculater)
             setattr(expression, "syncany_valuer", ["#const", 1])
             return None
         elif isinstance(expression, sqlglot_expressions.GT):
             condition_column, right_calculater = parse_condition(expression)
             if condition_column is None or right_calculater is None:
                 return expression
-            if build_query_condition(condition_column, ">", right_calculater)[1]:
-                return expression
+            is_query, is_local = build_query_condition(condition_column, ">", right_calculater)
+            if is_local:
+                return local_condition(is_query, condition_column, right_calculater)
             setattr(expression, "syncany_valuer", ["#const", 1])
             return None
         elif isinstance(expression, sqlglot_expressions.GTE):
             condition_column, right_calculater = parse_condition(expression)
             if condition_column is None or right_calculater is None:
                 return expression
-            if build_query_condition(condition_column, ">=", right_calculater)[1]:
-                return expression
+            is_query, is_local = build_query_condition(condition_column, ">=", right_calculater)
+            if is_local:
+                return local_condition(is_query, condition_column, right_calculater)
             setattr(expression, "syncany_valuer", ["#const", 1])
             return None
         elif isinstance(expression, sqlglot_expressions.LT):
             condition_column, right_calculater = parse_condition(expression)
             if condition_column is None or right_calculater is None:
                 return expression
-            if build_query_condition(condition_column, "<", right_calculater)[1]:
-                return expression
+            is_query, is_local = build_query_condition(condition_column, "<", right_calculater)
+            if is_local:
+                return local_condition(is_query, condition_column, right_calculater)
             setattr(expression, "syncany_valuer", ["#const", 1])
             return None
         elif isinstance(expression, sqlglot_expressions.LTE):
             condition_column, right_calculater = parse_condition(expression)
             if condition_column is None or right_calculater is None:
                 return expression
-            if build_query_condition(condition_column, "<=", right_calculater)[1]:
-                return expression
+            is_query, is_local = build_query_condition(condition_column, "<=", right_calculater)
+            if is_local:
+                return local_condition(is_query, condition_column, right_calculater)
             setattr(expression, "syncany_valuer", ["#const", 1])
             return None
         elif isinstance(expression, sqlglot_expressions.In):
-- 
2.43.0


From 6bc898a54b70700122fc1702caac5456e579cbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:35 +0000
Subject: [PATCH 78/94] fix: UNION matched the columns of later selects in
 alphabetical order and kept their names

---
 syncanysql/calculaters/__init__.py       |  1 +
 syncanysql/calculaters/row_calculater.py | 11 +++++++++++
 syncanysql/compiler.py                   | 20 ++++++++------------
 3 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/syncanysql/calculaters/__init__.py b/syncanysql/calculaters/__init__.py
index a11ccab..04d6a97 100644
--- a/syncanysql/calculaters/__init__.py
+++ b/syncanysql/calculaters/__init__.py
@@ -20,6 +20,7 @@ SQL_CALCULATERS = {
     "row_index": RowIndexCalculater,
     "row_last": RowLastCalculater,
     "row_sort": RowSortCalculater,
+    "row_rename": RowRenameCalculater,
     "mysql": MysqlCalculater,
     "aggregate_key": AggregateKeyCalculater,
     "aggregate_count": AggregateCountCalculater,
diff --git a/syncanysql/calculaters/row_calculater.py b/syncanysql/calculaters/row_calculater.py
index af228cb..d8084f8 100644
--- a/syncanysql/calculaters/row_calculater.py
+++ b/syncanysql/calculaters/row_calculater.py
@@ -48,3 +48,14 @@ class RowSortCalculater(Calculater):
 
     def get_final_filter(self):
         return ArrayFilter.default()
+
+
+class RowRenameCalculater(Calculater):
+    def calculate(self, *args):
+        datas, names = args
+        if not isinstance(datas, list):
+            return datas
+        return [{new_name: data.get(name) for name, new_name in names} for data in datas]
+
+    def get_final_filter(self):
+        return ArrayFilter.default()
diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 18f42bc..5a1694c 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -405,19 +405,15 @@ class Compiler(object):
             subquery_config["name"] = subquery_config["name"] + "#" + subquery_name[2:]
             arguments.update({subquery_config["name"] + "@" + key: value for key, value in subquery_arguments.items()})
             if isinstance(subquery_config["schema"], dict):
-                if not isinstance(config["schema"], dict):
-                    config["schema"] = {}
-                for name in subquery_config["schema"]:
-                    config["schema"][name] = "$." + name
-            if isinstance(subquery_config["schema"], dict):
+                column_names = list(subquery_config["schema"].keys())
                 if union_column_names is None:
-                    union_column_names = sorted(list(subquery_config["schema"].keys()))
-                else:
-                    subquery_column_names = sorted(list(subquery_config["schema"].keys()))
-                    for i in range(min(len(union_column_names), len(subquery_column_names))):
-                        if union_column_names[i] == subquery_column_names[i]:
-                            continue
-                        subquery_config["schema"][union_column_names[i]] = subquery_config["schema"][subquery_column_names[i]]
+                    union_column_names = column_names
+                    config["schema"] = {name: "$." + name for name in column_names}
+                elif len(column_names) != len(union_column_names):
+                    raise SyncanySqlCompileException('error union, the selects have a different number of columns, related sql "%s"'
+                                                     % self.to_sql(expression))
+                elif column_names != union_column_names:
+                    subquery_config["pipelines"].append([">>@row_rename", "$.*|array", list(zip(column_names, union_column_names))])
             if output_primary_key is None:
                 output_primary_key = output_primary_key_type_info[0]
             if output_type == "I" and len(output_primary_key_type_info) >= 2:
-- 
2.43.0


From 56bf23cdb8e981e44ec3ae014a3caa82caddd811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:55 +0000
Subject: [PATCH 79/94] fix: UNION without ALL kept duplicate rows

---
 syncanysql/calculaters/__init__.py       |  1 +
 syncanysql/calculaters/row_calculater.py | 23 ++++++++++++++++++++++
 syncanysql/compiler.py                   | 25 +++++++++++++++++-------
 3 files changed, 42 insertions(+), 7 deletions(-)

diff --git a/syncanysql/calculaters/__init__.py b/syncanysql/calculaters/__init__.py
index 04d6a97..31ae8c9 100644
--- a/syncanysql/calculaters/__init__.py
+++ b/syncanysql/calculaters/__init__.py
@@ -20,6 +20,7 @@ SQL_CALCULATERS = {
     "row_index": RowIndexCalculater,
     "row_last": RowLastCalculater,
     "row_sort": RowSortCalculater,
+    "row_distinct": RowDistinctCalculater,
     "row_rename": RowRenameCalculater,
     "mysql": MysqlCalculater,
     "aggregate_key": AggregateKeyCalculater,
diff --git a/syncanysql/calculaters/row_calculater.py b/syncanysql/calculaters/row_calculater.py
index d8084f8..da87afe 100644
--- a/syncanysql/calculaters/row_calculater.py
+++ b/syncanysql/calculaters/row_calculater.py
@@ -59,3 +59,26 @@ class RowRenameCalculater(Calculater):
 
     def get_final_filter(self):
         return ArrayFilter.default()
+
+
+class RowDistinctCalculater(Calculater):
+    def calculate(self, *args):
+        datas = args[0]
+        if not isinstance(datas, list):
+            return datas
+        keys, distinct_datas = set(), []
+        for data in datas:
+            key = tuple([(name, data[name]) for name in sorted(data)])
+            try:
+                if key in keys:
+                    continue
+                keys.add(key)
+            except TypeError:
+                # lists and objects can only be compared with each row
+                if data in distinct_datas:
+                    continue
+            distinct_datas.append(data)
+        return distinct_datas
+
+    def get_final_filter(self):
+        return ArrayFilter.default()
diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 5a1694c..1f1ad0a 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -371,7 +371,7 @@ class Compiler(object):
             raise SyncanySqlCompileException('unknown insert into, related sql "%s"' % self.to_sql(expression))
 
     def compile_union(self, expression, config, arguments):
-        select_expressions, modifiers = [], {}
+        select_expressions, distincts, modifiers = [], [], {}
         def parse(union_expression):
             for key in ("order", "limit", "offset"):
                 if union_expression.args.get(key):
@@ -379,20 +379,29 @@ class Compiler(object):
             for select_expression in (union_expression.args["this"], union_expression.args["expression"]):
                 if isinstance(select_expression, sqlglot_expressions.Union):
                     parse(select_expression)
-                elif isinstance(select_expression, sqlglot_expressions.Subquery):
-                    select_expressions.append((select_expression.args["this"], False))
                 else:
-                    select_expressions.append((select_expression, True))
+                    select_expressions.append(select_expression)
+                if select_expression is union_expression.args["this"]:
+                    distincts.append(bool(union_expression.args.get("distinct")))
         parse(expression)
-        last_expression, is_bare_select = select_expressions[-1]
-        select_expressions = [select_expression for select_expression, _ in select_expressions]
-        if is_bare_select:
+        if isinstance(select_expressions[-1], sqlglot_expressions.Select):
             # without parentheses the ORDER BY and LIMIT after the last select are those of the whole union
+            last_expression = select_expressions[-1]
             select_expressions[-1] = last_expression.copy()
             for key in ("order", "limit", "offset"):
                 if last_expression.args.get(key):
                     modifiers[key] = last_expression.args[key]
                     select_expressions[-1].set(key, None)
+        is_distinct = distincts[-1]
+        if not is_distinct and any(distincts):
+            # the rows of UNION ALL are added to those without duplicates of the selects before
+            distinct_index = len(distincts) - distincts[::-1].index(True) + 1
+            distinct_expression = select_expressions[0].copy()
+            for select_expression in select_expressions[1:distinct_index]:
+                distinct_expression = sqlglot_expressions.Union(this=distinct_expression, expression=select_expression.copy(), distinct=True)
+            select_expressions = [distinct_expression] + select_expressions[distinct_index:]
+        select_expressions = [select_expression.args["this"] if isinstance(select_expression, sqlglot_expressions.Subquery) else select_expression
+                              for select_expression in select_expressions]
 
         query_name = "__unionquery_" + str(uuid.uuid1().int)
         union_column_names, output_primary_key, output_type = None, None, "I"
@@ -421,6 +430,8 @@ class Compiler(object):
             config["dependencys"].append(subquery_config)
         arguments["@primary_order"] = False
         arguments["@limit"] = 0
+        if is_distinct:
+            config["pipelines"].append([">>@row_distinct", "$.*|array"])
         if modifiers.get("order"):
             self.compile_order(modifiers["order"].args["expressions"], config, arguments,
                                {"table_name": None, "table_alias": None, "columns": {}, "select_columns": {}}, {})
-- 
2.43.0


From 2b20e5336117dcd5a2491067edbcaea4bb1d3a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:25 +0000
Subject: [PATCH 80/94] fix: UNION lost columns of the same name

---
 syncanysql/compiler.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 1f1ad0a..7727e9c 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -403,6 +403,25 @@ class Compiler(object):
         select_expressions = [select_expression.args["this"] if isinstance(select_expression, sqlglot_expressions.Subquery) else select_expression
                               for select_expression in select_expressions]
 
+        def parse_column_alias(select_expression):
+            # columns are matched by position, so a name used twice still is two columns
+            if not isinstance(select_expression, sqlglot_expressions.Select):
+                return select_expression
+            select_expression, column_names = select_expression.copy(), set([])
+            for i, column_expression in enumerate(select_expression.args["expressions"]):
+                if isinstance(column_expression, (sqlglot_expressions.Alias, sqlglot_expressions.Column)):
+                    column_name = column_expression.alias_or_name
+                else:
+                    column_name = self.to_sql(column_expression)
+                if column_name in column_names:
+                    column_name = "__unioncolumn_%d" % i
+                    select_expression.args["expressions"][i] = sqlglot_expressions.Alias(
+                        this=column_expression.args["this"] if isinstance(column_expression, sqlglot_expressions.Alias) else column_expression,
+                        alias=sqlglot_expressions.to_identifier(column_name))
+                column_names.add(column_name)
+            return select_expression
+        select_expressions = select_expressions[:1] + [parse_column_alias(select_expression) for select_expression in select_expressions[1:]]
+
         query_name = "__unionquery_" + str(uuid.uuid1().int)
         union_column_names, output_primary_key, output_type = None, None, "I"
         for select_expression in select_expressions:
-- 
2.43.0


From 59d2e33d2d2dabb8e49e490098c94a0de754e4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:25 +0000
Subject: [PATCH 81/94] fix: INSERT INTO `t<UI>` .. UNION ignored the mode

---
 syncanysql/compiler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 7727e9c..b42dfcc 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -457,6 +457,8 @@ class Compiler(object):
         if modifiers.get("limit") or modifiers.get("offset"):
             self.compile_limit(sqlglot_expressions.Select(**modifiers), config, arguments, {})
         config["input"] = "&.--." + query_name + "::" + output_primary_key
+        if " use " in config["output"]:
+            output_type = config["output"].split(" use ")[-1]
         config["output"] = config["output"].split("::")[0] + "::" + output_primary_key + " use " + output_type
 
     def compile_select(self, expression, config, arguments):
-- 
2.43.0


From ec3db4567211aec025a90251f14bd3cac1416420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:34 +0000
Subject: [PATCH 82/94] fix: INSERT .. VALUES changed values to the type of the
 first row, lost expressions and ignored the mode's case

---
 syncanysql/compiler.py | 49 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 9 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index b42dfcc..8b65c8d 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -334,7 +334,7 @@ class Compiler(object):
                 for typing_option in table_info["typing_options"]:
                     if typing_option.upper() not in ("I", "U", "UI", "UDI", "DI"):
                         continue
-                    update_type = typing_option
+                    update_type = typing_option.upper()
                     break
             config["output"] = "".join(["&.", table_info["db"], ".", table_info["name"], "::",
                                         "id", " use ", update_type])
@@ -352,24 +352,55 @@ class Compiler(object):
             values_expression = expression.args["expression"]
             if not values_expression.args.get("expressions"):
                 raise SyncanySqlCompileException('unknown insert into, related sql "%s"' % self.to_sql(expression))
+            for data_expression in values_expression.args["expressions"]:
+                if len(data_expression.args["expressions"]) != len(columns):
+                    raise SyncanySqlCompileException('error insert into, the number of values is different from the number of columns, related sql "%s"'
+                                                     % self.to_sql(expression))
+            output_primary_key = "id" if any(column_name == "id" for column_name, _ in columns) else columns[0][0]
+            output = config["output"].split("::")[0] + "::" + output_primary_key + " use " + config["output"].split(" use ")[-1]
+            value_expressions = [value_expression for data_expression in values_expression.args["expressions"]
+                                 for value_expression in data_expression.args["expressions"]]
+            if not all(self.is_const(value_expression, config, arguments)
+                       and not isinstance(value_expression, sqlglot_expressions.Parameter) for value_expression in value_expressions):
+                # variables and expressions only have a value when the insert runs
+                self.compile_insert_into_calculate_values(values_expression, columns, config, arguments)
+                config["output"] = output
+                return
             datas = []
             for data_expression in values_expression.args["expressions"]:
-                data = {}
-                for i in range(len(data_expression.args["expressions"])):
-                    value_expression = data_expression.args["expressions"][i]
-                    value = self.parse_const(value_expression, config, arguments)["value"]
-                    if columns[i][1] is None:
-                        columns[i][1] = str(type(value).__name__) if isinstance(value, (int, float, bool)) else None
-                    data[columns[i][0]] = value
-                datas.append(data)
+                datas.append({column[0]: self.parse_const(value_expression, config, arguments)["value"]
+                              for column, value_expression in zip(columns, data_expression.args["expressions"])})
+            for column in columns:
+                value_types = set([type(data[column[0]]) for data in datas])
+                if column[1] is None and len(value_types) == 1 and value_types <= {int, float, bool}:
+                    column[1] = value_types.pop().__name__
             config["schema"] = {column_name: "$." + column_name + (("|" + column_type) if column_type else "")
                                 for column_name, column_type in columns}
             config["input"] = "&.--.--::" + columns[0][0]
+            config["output"] = output
             config["loader"] = "const_loader"
             config["loader_arguments"] = {"datas": datas}
         else:
             raise SyncanySqlCompileException('unknown insert into, related sql "%s"' % self.to_sql(expression))
 
+    def compile_insert_into_calculate_values(self, values_expression, columns, config, arguments):
+        if any(column_type for _, column_type in columns):
+            raise SyncanySqlCompileException('error insert into, columns with a type only accept constant values, related sql "%s"'
+                                             % self.to_sql(values_expression))
+        select_expression = None
+        for data_expression in values_expression.args["expressions"]:
+            data_select_expression = sqlglot_expressions.Select(expressions=[
+                sqlglot_expressions.Alias(this=value_expression.copy(), alias=sqlglot_expressions.to_identifier(column_name, quoted=True))
+                for (column_name, _), value_expression in zip(columns, data_expression.args["expressions"])])
+            if select_expression is None:
+                select_expression = data_select_expression
+            else:
+                select_expression = sqlglot_expressions.Union(this=select_expression, expression=data_select_expression, distinct=False)
+        if isinstance(select_expression, sqlglot_expressions.Union):
+            self.compile_union(select_expression, config, arguments)
+        else:
+            self.compile_select(select_expression, config, arguments)
+
     def compile_union(self, expression, config, arguments):
         select_expressions, distincts, modifiers = [], [], {}
         def parse(union_expression):
-- 
2.43.0


From f111c9f0b0c81f0e81970a4bfb808d75b1a39efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:22 +0000
Subject: [PATCH 83/94] fix: JOIN .. ON b.w > 1 AND b.w > 0 checked one
 condition of a kind for a column, < and != matched NULL

---
 syncanysql/compiler.py | 41 +++++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 8b65c8d..5090908 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2341,21 +2341,34 @@ class Compiler(object):
                 return False, condition_column, ["#make", value_items]
             return False, condition_column, self.compile_calculate(value_expression, config, arguments, primary_table, [])
 
+        def build_having_condition(having_expression):
+            calculate_fields = []
+            self.parse_calculate(having_expression, config, arguments, primary_table, calculate_fields)
+            for calculate_field in calculate_fields:
+                if calculate_field["table_name"] != join_table["name"]:
+                    join_table["join_columns"].append(calculate_field)
+                elif calculate_field["column_name"] not in join_table["columns"]:
+                    join_table["columns"][calculate_field["column_name"]] = calculate_field["column_name"]
+            join_table["having_expressions"].append(having_expression)
+
         def build_query_condition(condition_column, condition_exp, condition_calculater):
-            if condition_column["typing_name"] not in join_table["querys"]:
-                join_table["querys"][condition_column["typing_name"]] = {}
-            condition_querys = join_table["querys"][condition_column["typing_name"]]
-            if isinstance(condition_querys, dict):
-                if condition_exp not in condition_querys:
-                    condition_querys[condition_exp] = condition_calculater
-                    return None
-                condition_querys = [condition_querys]
-                join_table["querys"][condition_column["typing_name"]] = condition_querys
-            for condition_query in condition_querys:
-                if condition_exp not in condition_query:
-                    condition_query[condition_exp] = condition_calculater
-                    return None
-            condition_querys.append({condition_exp: condition_calculater})
+            for query_key, querys in join_table["querys"].items():
+                # a data source takes one condition of a kind for a column, further ones are only checked locally
+                if query_key.split("|")[0] == condition_column["typing_name"].split("|")[0] and any(
+                        [exp in querys for exp in (("==", "in") if condition_exp in ("==", "in") else (condition_exp,))]):
+                    return build_having_condition(expression)
+            join_table["querys"].setdefault(condition_column["typing_name"], {})[condition_exp] = condition_calculater
+            values = condition_calculater[1:2] if condition_calculater[0] == "#const" else [None]
+            if values and isinstance(values[0], list):
+                values = values[0]
+            # data sources may order NULL before every value and count it as unequal, those conditions are checked locally too
+            if condition_exp == "in" and condition_calculater[0] == "@convert_array":
+                build_having_condition(sqlglot_expressions.Not(this=sqlglot_expressions.Is(
+                    this=condition_column["expression"].copy(), expression=sqlglot_expressions.Null())))
+            elif condition_exp in ("<", "<=", "!=") or any([value is None for value in values]):
+                if condition_calculater[0] == "@convert_array":
+                    setattr(expression.args["expression"], "syncany_valuer", condition_calculater)
+                build_having_condition(expression)
             return None
 
         if isinstance(expression, sqlglot_expressions.EQ):
-- 
2.43.0


From 2cf432cc51e2ef274ab3437ed4fe8eeb7c2739e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:56 +0000
Subject: [PATCH 84/94] fix: INNER JOIN next to other joins made those inner
 too, or was not inner itself

---
 syncanysql/compiler.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 5090908..03f2efa 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -3273,11 +3273,13 @@ class Compiler(object):
                                                       join_table["table_name"], join_table["related_tables"],
                                                       join_table["on_expressions"], join_table["const_expressions"],
                                                       join_table["calculate_expressions"])
-            if primary_table["table_name"] in join_table["related_tables"]:
-                for on_expression in join_table["on_expressions"]:
-                    self.parse_calculate(on_expression, config, arguments, primary_table, inner_calculate_fields)
-        inner_calculate_fields = [calculate_field for calculate_field in inner_calculate_fields
-                                  if calculate_field["table_name"] and calculate_field["table_name"] != primary_table["table_name"]]
+            if join_table["join_kind"] != "inner":
+                continue
+            calculate_fields = []
+            for on_expression in join_table["on_expressions"]:
+                self.parse_calculate(on_expression, config, arguments, primary_table, calculate_fields)
+            inner_calculate_fields.extend([calculate_field for calculate_field in calculate_fields
+                                           if calculate_field["table_name"] and calculate_field["table_name"] == join_table["table_name"]])
         if not inner_calculate_fields:
             return expression
 
-- 
2.43.0


From 348cad96048c62c13432a7a7ad0ecb8826417e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:28 +0000
Subject: [PATCH 85/94] fix: JOIN .. ON a.v = 3 checked the column v of the
 joined table, ON b.w = b.x recursed forever

---
 syncanysql/compiler.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 03f2efa..5b58616 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2268,14 +2268,23 @@ class Compiler(object):
             if self.is_column(right_expression, config, arguments):
                 right_column = self.parse_column(right_expression, config, arguments)
 
+            def is_join_table_expression(item_expression):
+                if isinstance(item_expression, list) or self.is_subquery(item_expression, config, arguments):
+                    return False
+                item_fields = []
+                self.parse_calculate(item_expression, config, arguments, primary_table, item_fields)
+                return any([item_field["table_name"] == join_table["name"] for item_field in item_fields])
+
             condition_column, value_column, join_on_expression, value_expression = left_column, None, None, right_expression
             if isinstance(expression, sqlglot_expressions.EQ):
-                if left_column and left_column["table_name"] == join_table["name"] and not left_column["convert_typing_filter"]:
+                if left_column and left_column["table_name"] == join_table["name"] and not left_column["convert_typing_filter"] \
+                        and not is_join_table_expression(right_expression):
                     condition_column, value_column, value_expression = left_column, right_column, right_expression
                     if not value_column and not self.is_const(right_expression, config, arguments) and not isinstance(right_expression, list) \
                             and not self.is_subquery(right_expression, config, arguments):
                         join_on_expression = right_expression
-                elif right_column and right_column["table_name"] == join_table["name"] and not right_column["convert_typing_filter"]:
+                elif right_column and right_column["table_name"] == join_table["name"] and not right_column["convert_typing_filter"] \
+                        and not is_join_table_expression(left_expression):
                     condition_column, value_column, value_expression = right_column, left_column, left_expression
                     if not value_column and not self.is_const(left_expression, config, arguments) and not isinstance(left_expression, list) \
                             and not self.is_subquery(left_expression, config, arguments):
@@ -2312,7 +2321,7 @@ class Compiler(object):
             calculate_fields = []
             if condition_column and not self.is_subquery(value_expression, config, arguments) and not isinstance(value_expression, list):
                 self.parse_calculate(value_expression, config, arguments, primary_table, calculate_fields)
-            if not condition_column or calculate_fields:
+            if not condition_column or condition_column["table_name"] != join_table["name"] or calculate_fields:
                 self.parse_calculate(right_expression if value_expression is left_expression else left_expression,
                                      config, arguments, primary_table, calculate_fields)
                 for calculate_field in calculate_fields:
-- 
2.43.0


From c0b0e1b94126e4db8792d2e5483be2993a364f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:33 +0000
Subject: [PATCH 86/94] fix: JOIN .. ON b.w IN (a.v, ..) failed

---
 syncanysql/compiler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 5b58616..13e39f4 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2319,7 +2319,11 @@ class Compiler(object):
                 return True, condition_column, None
 
             calculate_fields = []
-            if condition_column and not self.is_subquery(value_expression, config, arguments) and not isinstance(value_expression, list):
+            if condition_column and isinstance(value_expression, list):
+                for value_expression_item in value_expression:
+                    if not self.is_const(value_expression_item, config, arguments):
+                        self.parse_calculate(value_expression_item, config, arguments, primary_table, calculate_fields)
+            elif condition_column and not self.is_subquery(value_expression, config, arguments):
                 self.parse_calculate(value_expression, config, arguments, primary_table, calculate_fields)
             if not condition_column or condition_column["table_name"] != join_table["name"] or calculate_fields:
                 self.parse_calculate(right_expression if value_expression is left_expression else left_expression,
-- 
2.43.0


From fa1fafb0370af102784b71ccfa6a5a63f76e469b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:44 +0000
Subject: [PATCH 87/94] fix: v IN (1+1), v NOT IN (@a) never matched, a list of
 one computed value was not a list

---
 syncanysql/calculaters/mysql_funcs/logical_funcs.py | 3 +++
 syncanysql/compiler.py                              | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/logical_funcs.py b/syncanysql/calculaters/mysql_funcs/logical_funcs.py
index 0574898..cf07ccb 100644
--- a/syncanysql/calculaters/mysql_funcs/logical_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/logical_funcs.py
@@ -189,6 +189,9 @@ def mysql_lte(a, b):
 def mysql_in(a, b):
     if a is None:
         return None
+    if not isinstance(b, (list, tuple, set)):
+        # a list of one computed value is that value
+        b = [b]
     hs_none = False
     for v in b:
         if v is None:
diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 13e39f4..fba083e 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -987,7 +987,7 @@ class Compiler(object):
                     return None, None
                 value_items = [self.compile_where_condition_column(value_expression_item, config, arguments, primary_table, join_tables)
                                for value_expression_item in right_expression]
-                return left_column, ["#make", value_items]
+                return left_column, ["@convert_array", ["#make", value_items]]
             if self.is_subquery(right_expression, config, arguments):
                 value_column = self.compile_query_condition(right_expression, config, arguments, primary_table, join_tables,
                                                             left_column["typing_filters"] if left_column else None)
@@ -2351,7 +2351,7 @@ class Compiler(object):
                     return False, condition_column, ["#const", value_items]
                 value_items = [self.compile_calculate(value_expression_item, config, arguments, primary_table, [])
                                for value_expression_item in value_expression]
-                return False, condition_column, ["#make", value_items]
+                return False, condition_column, ["@convert_array", ["#make", value_items]]
             return False, condition_column, self.compile_calculate(value_expression, config, arguments, primary_table, [])
 
         def build_having_condition(having_expression):
-- 
2.43.0


From 98c8083f52687ee2cfbf00c4e341aeb1a847dde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:29 +0000
Subject: [PATCH 88/94] fix: columns of a condition's value side are known to
 the join when its other side is no column

---
 syncanysql/compiler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index fba083e..7715fbb 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2319,11 +2319,11 @@ class Compiler(object):
                 return True, condition_column, None
 
             calculate_fields = []
-            if condition_column and isinstance(value_expression, list):
+            if isinstance(value_expression, list):
                 for value_expression_item in value_expression:
                     if not self.is_const(value_expression_item, config, arguments):
                         self.parse_calculate(value_expression_item, config, arguments, primary_table, calculate_fields)
-            elif condition_column and not self.is_subquery(value_expression, config, arguments):
+            elif not self.is_subquery(value_expression, config, arguments):
                 self.parse_calculate(value_expression, config, arguments, primary_table, calculate_fields)
             if not condition_column or condition_column["table_name"] != join_table["name"] or calculate_fields:
                 self.parse_calculate(right_expression if value_expression is left_expression else left_expression,
-- 
2.43.0


From 8b5c993ab8553a3d9fb94dc96c4351d286c26de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:51 +0000
Subject: [PATCH 89/94] fix: ON conditions accept IN over a variable

---
 syncanysql/compiler.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 7715fbb..93c88a0 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2259,6 +2259,8 @@ class Compiler(object):
                 left_expression, right_expression = expression.args["this"], expression.args["expressions"]
             elif expression.args.get("query"):
                 left_expression, right_expression = expression.args["this"], expression.args["query"]
+            elif expression.args.get("field"):
+                left_expression, right_expression = expression.args["this"], expression.args["field"]
             else:
                 left_expression, right_expression = expression.args["this"], expression.args["expression"]
 
@@ -2352,7 +2354,10 @@ class Compiler(object):
                 value_items = [self.compile_calculate(value_expression_item, config, arguments, primary_table, [])
                                for value_expression_item in value_expression]
                 return False, condition_column, ["@convert_array", ["#make", value_items]]
-            return False, condition_column, self.compile_calculate(value_expression, config, arguments, primary_table, [])
+            value_calculater = self.compile_calculate(value_expression, config, arguments, primary_table, [])
+            if isinstance(expression, sqlglot_expressions.In):
+                value_calculater = ["@convert_array", value_calculater]
+            return False, condition_column, value_calculater
 
         def build_having_condition(having_expression):
             calculate_fields = []
@@ -3356,6 +3361,8 @@ class Compiler(object):
                 left_expression, right_expression = condition_expression.args["this"], condition_expression.args["expressions"]
             elif condition_expression.args.get("query"):
                 left_expression, right_expression = condition_expression.args["this"], condition_expression.args["query"]
+            elif condition_expression.args.get("field"):
+                left_expression, right_expression = condition_expression.args["this"], condition_expression.args["field"]
             else:
                 left_expression, right_expression = condition_expression.args["this"], condition_expression.args["expression"]
 
-- 
2.43.0


From 2cbaf49cfb7e2a51875c273a87b05cb11e04416e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:57:29 +0000
Subject: [PATCH 90/94] fix: HAVING v IN @a kept no row

---
 syncanysql/compiler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 93c88a0..1176b79 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1973,8 +1973,8 @@ class Compiler(object):
                 config["aggregate"] = copy.deepcopy(DEAULT_AGGREGATE)
             if expression.args.get("expressions"):
                 left_expression, right_expression = expression.args["this"], expression.args["expressions"]
-            elif expression.args.get("query"):
-                left_expression, right_expression = expression.args["this"], expression.args["query"]
+            elif expression.args.get("query") or expression.args.get("field"):
+                left_expression, right_expression = expression.args["this"], expression.args.get("query") or expression.args["field"]
             else:
                 left_expression, right_expression = expression.args["this"], expression.args.get("expression")
             if self.is_column(left_expression, config, arguments):
-- 
2.43.0


From 50bdd7bae8dea846baae19d882ff5d3bd1ae9583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:57:29 +0000
Subject: [PATCH 91/94] fix: HAVING with a function, a constant or a column as
 condition kept no row or failed, with a calculation on a joined column failed

---
 syncanysql/compiler.py | 54 +++++++++++++++++-------------------------
 1 file changed, 22 insertions(+), 32 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 1176b79..068d3c0 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1967,10 +1967,26 @@ class Compiler(object):
                 self.compile_having_condition(expression.args.get("expression"), config, arguments, primary_table)
             ]
 
+        if "aggregate" not in config:
+            config["aggregate"] = copy.deepcopy(DEAULT_AGGREGATE)
+
+        def parse_operand(operand_expression):
+            calculate_fields = []
+            self.parse_calculate(operand_expression, config, arguments, primary_table, calculate_fields)
+            if isinstance(config["schema"], dict) and [calculate_field for calculate_field in calculate_fields
+                                                       if calculate_field["column_name"] not in config["schema"]]:
+                raise SyncanySqlCompileException('unknown having condition column, column must be in the query result, related sql "%s"'
+                                                 % self.to_sql(expression))
+            for calculate_field in calculate_fields:
+                # checked on the rows of the result, which have the columns of every table
+                calculate_field["expression"].set("table", None)
+                if calculate_field["column_name"] not in config["schema"]:
+                    continue
+                config["aggregate"]["having_columns"].add(calculate_field["column_name"])
+            return self.compile_calculate(operand_expression, config, arguments, primary_table, [])
+
         def parse(expression):
             left_column = None
-            if "aggregate" not in config:
-                config["aggregate"] = copy.deepcopy(DEAULT_AGGREGATE)
             if expression.args.get("expressions"):
                 left_expression, right_expression = expression.args["this"], expression.args["expressions"]
             elif expression.args.get("query") or expression.args.get("field"):
@@ -1985,17 +2001,7 @@ class Compiler(object):
                 config["aggregate"]["having_columns"].add(left_column["column_name"])
                 left_calculater = self.compile_column(left_expression, config, arguments, left_column)
             else:
-                calculate_fields = []
-                self.parse_calculate(left_expression, config, arguments, primary_table, calculate_fields)
-                if isinstance(config["schema"], dict) and [calculate_field for calculate_field in calculate_fields
-                                                           if calculate_field["column_name"] not in config["schema"]]:
-                    raise SyncanySqlCompileException('unknown having condition column, column must be in the query result, related sql "%s"'
-                                                     % self.to_sql(expression))
-                for calculate_field in calculate_fields:
-                    if calculate_field["column_name"] not in config["schema"]:
-                        continue
-                    config["aggregate"]["having_columns"].add(calculate_field["column_name"])
-                left_calculater = self.compile_calculate(left_expression, config, arguments, primary_table, [])
+                left_calculater = parse_operand(left_expression)
             if not right_expression:
                 return left_calculater, None
 
@@ -2004,7 +2010,7 @@ class Compiler(object):
                     value_items = [self.parse_const(value_expression_item, config, arguments)["value"]
                                    for value_expression_item in right_expression]
                     return left_calculater, ["#const", value_items]
-                value_items = [self.compile_calculate(value_expression_item, config, arguments, primary_table, [])
+                value_items = [parse_operand(value_expression_item)
                                for value_expression_item in right_expression]
                 return left_calculater, ["#make", value_items]
             if self.is_column(right_expression, config, arguments):
@@ -2020,17 +2026,7 @@ class Compiler(object):
                 if isinstance(expression, sqlglot_expressions.In):
                     return left_calculater, ["@convert_array", value_column]
                 return left_calculater, ["@convert_array", value_column, ":$.:0"]
-            calculate_fields = []
-            self.parse_calculate(right_expression, config, arguments, primary_table, calculate_fields)
-            if isinstance(config["schema"], dict) and [calculate_field for calculate_field in calculate_fields
-                                                       if calculate_field["column_name"] not in config["schema"]]:
-                raise SyncanySqlCompileException('unknown having condition column, column must be in the query result, related sql "%s"'
-                                                 % self.to_sql(expression))
-            for calculate_field in calculate_fields:
-                if calculate_field["column_name"] not in config["schema"]:
-                    continue
-                config["aggregate"]["having_columns"].add(calculate_field["column_name"])
-            return left_calculater, self.compile_calculate(right_expression, config, arguments, primary_table, [])
+            return left_calculater, parse_operand(right_expression)
 
         if isinstance(expression, sqlglot_expressions.EQ):
             left_calculater, right_calculater = parse(expression)
@@ -2065,13 +2061,7 @@ class Compiler(object):
         elif isinstance(expression, sqlglot_expressions.Paren):
             return self.compile_having_condition(expression.args.get("this"), config, arguments, primary_table)
         else:
-            left_calculater, right_calculater = parse(expression)
-            func_name = expression.key.lower()
-            if expression.args.get("expression") and isinstance(expression.args["expression"], sqlglot_expressions.Interval):
-                func_name = "date" + func_name
-            if right_calculater is None:
-                return [("@mysql::" + func_name) if is_mysql_func(func_name) else ("@" + func_name), left_calculater]
-            return [("@mysql::" + func_name) if is_mysql_func(func_name) else ("@" + func_name), left_calculater, right_calculater]
+            return parse_operand(expression)
 
     def parse_order_select_column(self, column_alias, config, arguments, primary_table):
         column_expression = primary_table["select_columns"].get(column_alias)
-- 
2.43.0


From 74ae75d65f26926b6b655f9182dd96ad1214605d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:19:35 +0000
Subject: [PATCH 92/94] fix: CASE takes the first value that is equal (not
 NULL), and is NULL without ELSE

---
 syncanysql/compiler.py | 15 +--------------
 1 file changed, 1 insertion(+), 14 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 068d3c0..3de6787 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1804,23 +1804,10 @@ class Compiler(object):
                 value_column = self.compile_calculate(expression.args["expression"], config, arguments, primary_table, column_join_tables, join_index)
             return ["#if", ["@is_null", condition_column], value_column, condition_column]
         elif isinstance(expression, sqlglot_expressions.Case):
-            if expression.args.get("this") and all([self.is_const(case_expression.args["this"], config, arguments)
-                                                    for case_expression in expression.args.get("ifs", [])]):
-                cases = {}
-                cases["#case"] = self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index)
-                if expression.args.get("ifs"):
-                    for case_expression in expression.args["ifs"]:
-                        case_value = self.parse_const(case_expression.args["this"], config, arguments)["value"]
-                        cases[(":" + str(case_value)) if isinstance(case_value, NumberTypes) and not isinstance(case_value, bool) else case_value] = \
-                            self.compile_calculate(case_expression.args["true"], config, arguments, primary_table, column_join_tables, join_index)
-                cases["#end"] = self.compile_calculate(expression.args["default"], config, arguments, primary_table, column_join_tables, join_index) \
-                    if expression.args.get("default") else None
-                return cases
-
             value_column = self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index) \
                 if expression.args.get("this") else None
             defaul_column = self.compile_calculate(expression.args["default"], config, arguments, primary_table, column_join_tables, join_index) \
-                if expression.args.get("default") else ["#const", 0]
+                if expression.args.get("default") else ["#const", None]
             if not expression.args.get("ifs"):
                 return defaul_column
             def build_if(if_expression, case_expressions):
-- 
2.43.0


From 25c1a6ccdf1e40f3c26050065ab0799aa8060d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:19:35 +0000
Subject: [PATCH 93/94] fix: COALESCE of one value

---
 syncanysql/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 3de6787..7d1b378 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1790,7 +1790,7 @@ class Compiler(object):
             if isinstance(expression, sqlglot_expressions.Coalesce):
                 def parse_coalesce(coalesce_expressions):
                     if not coalesce_expressions:
-                        return None
+                        return ["#const", None]
                     coalesce_column = self.compile_calculate(coalesce_expressions[0], config, arguments, primary_table, column_join_tables, join_index)
                     if len(coalesce_expressions) == 1:
                         return coalesce_column
-- 
2.43.0


From 75c8f38d82eeac63b28ec2f047c09193249c227c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:19:35 +0000
Subject: [PATCH 94/94] fix: IFNULL, COALESCE and CASE use a term of their own
 in each place

---
 syncanysql/compiler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 7d1b378..7cc8194 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1798,11 +1798,11 @@ class Compiler(object):
                         coalesce_value_column = parse_coalesce(coalesce_expressions[1:])
                     else:
                         coalesce_value_column = self.compile_calculate(coalesce_expressions[1], config, arguments, primary_table, column_join_tables, join_index)
-                    return ["#if", ["@is_null", coalesce_column], coalesce_value_column, coalesce_column]
+                    return ["#if", ["@is_null", copy.deepcopy(coalesce_column)], coalesce_value_column, coalesce_column]
                 value_column = parse_coalesce(expression.args.get("expressions"))
             else:
                 value_column = self.compile_calculate(expression.args["expression"], config, arguments, primary_table, column_join_tables, join_index)
-            return ["#if", ["@is_null", condition_column], value_column, condition_column]
+            return ["#if", ["@is_null", copy.deepcopy(condition_column)], value_column, condition_column]
         elif isinstance(expression, sqlglot_expressions.Case):
             value_column = self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index) \
                 if expression.args.get("this") else None
@@ -1814,7 +1814,7 @@ class Compiler(object):
                 if_value_column = self.compile_calculate(if_expression.args["this"], config, arguments, primary_table, column_join_tables, join_index)
                 return [
                     "#if",
-                    if_value_column if value_column is None else ["@mysql::eq", value_column, if_value_column],
+                    if_value_column if value_column is None else ["@mysql::eq", copy.deepcopy(value_column), if_value_column],
                     self.compile_calculate(if_expression.args["true"], config, arguments, primary_table, column_join_tables,
                                            join_index) if if_expression.args.get("true") else ["#const", 1],
                     build_if(case_expressions[0], case_expressions[1:]) if case_expressions else defaul_column,
-- 
2.43.0

