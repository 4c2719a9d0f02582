From 3c9cac26d1544727ca7decd29e13ac6c06984ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:12 +0000
Subject: [PATCH 01/30] fix: restore the caller's variables however an external
 function ends

---
 modularcalculator/features/structure/externalfunctions.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/modularcalculator/features/structure/externalfunctions.py b/modularcalculator/features/structure/externalfunctions.py
index c646dbe..75dd10c 100755
--- a/modularcalculator/features/structure/externalfunctions.py
+++ b/modularcalculator/features/structure/externalfunctions.py
@@ -114,12 +114,9 @@ class ExternalFunctionsPointerHandler:
         # Execute the function content
         try:
             result = calculator.calculate(func_content)
-        except Exception as err:
+        finally:
+            # Restore calculator state, however the function ended
             calculator.vars = backup_vars
-            raise err
-
-        # Restore calculator state
-        calculator.vars = backup_vars
 
         # The last result of the function is the return value
         last_result = get_last_result(result.results)
-- 
2.43.0


From ff0fa6ca70a83cb36b01f2ab58a3023e693bd404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:13 +0000
Subject: [PATCH 02/30] fix: restore the caller's variables however an inline
 function ends

---
 modularcalculator/features/structure/inlinefunctions.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/modularcalculator/features/structure/inlinefunctions.py b/modularcalculator/features/structure/inlinefunctions.py
index 97ffdeb..11ee9d4 100644
--- a/modularcalculator/features/structure/inlinefunctions.py
+++ b/modularcalculator/features/structure/inlinefunctions.py
@@ -158,15 +158,11 @@ class InlineFunctionsPointerHandler:
             if len(functional_items(statement_items)) > 0:
                 val = calculator.execute(statement_items, flags.copy())
             if isinstance(val.value, Exception):
-                calculator.vars = backup_vars
                 raise val.value
 
-            # Restore calculator state
-            calculator.vars = backup_vars
-
             res = OperationResult(val.value)
             res.set_unit(val.unit)
             return res
-        except ExecuteException as err:
+        finally:
+            # Restore calculator state, however the function ended
             calculator.vars = backup_vars
-            raise err
-- 
2.43.0


From d277b102333b837f0ea819fa3bf4c59b7c61ae35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:13 +0000
Subject: [PATCH 03/30] fix: an error in any statement of an inline function
 fails the call

---
 modularcalculator/features/structure/inlinefunctions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modularcalculator/features/structure/inlinefunctions.py b/modularcalculator/features/structure/inlinefunctions.py
index 11ee9d4..1bbef35 100644
--- a/modularcalculator/features/structure/inlinefunctions.py
+++ b/modularcalculator/features/structure/inlinefunctions.py
@@ -152,6 +152,9 @@ class InlineFunctionsPointerHandler:
                 if item.desc() == 'terminator':
                     if len(functional_items(statement_items)) > 0:
                         val = calculator.execute(statement_items, flags.copy())
+                        # A failed statement ends the function, its error is the function's error
+                        if isinstance(val.value, Exception):
+                            raise val.value
                     statement_items = []
                 else:
                     statement_items.append(item)
-- 
2.43.0


From 0bed8da2924f4b4c49422b163fb711233d6db6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:08 +0000
Subject: [PATCH 04/30] fix: only a failed read of an external function file is
 reported as one

---
 modularcalculator/features/structure/externalfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/features/structure/externalfunctions.py b/modularcalculator/features/structure/externalfunctions.py
index 75dd10c..936f6d8 100755
--- a/modularcalculator/features/structure/externalfunctions.py
+++ b/modularcalculator/features/structure/externalfunctions.py
@@ -48,7 +48,7 @@ class ExternalFunctionsPointerHandler:
         try:
             with open(path, 'r') as fh:
                 func_content = str.join("", fh.readlines())
-        except:
+        except Exception:
             raise ExecuteException("Could not read file '{}'".format(path), [], None)
 
         # External function definition to execute
-- 
2.43.0


From 5cf917f22f507684b7e4b45af9f416c973c7d033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:08 +0000
Subject: [PATCH 05/30] fix: reset() and delete() leave the variables alone in
 stateless calculations

---
 modularcalculator/features/state/assignmentfunctions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modularcalculator/features/state/assignmentfunctions.py b/modularcalculator/features/state/assignmentfunctions.py
index 212e740..1d42e15 100755
--- a/modularcalculator/features/state/assignmentfunctions.py
+++ b/modularcalculator/features/state/assignmentfunctions.py
@@ -45,13 +45,15 @@ class AssignmentFunctionsFeature(Feature):
             1)
 
     def func_reset(self, vals, units, refs, flags):
-        self.vars = {}
+        if 'stateless' not in flags.keys() or not flags['stateless']:
+            self.vars = {}
         return OperationResult(None)
 
     def func_delete(self, vals, units, refs, flags):
         if isinstance(refs[0], VariableItem):
             varname = refs[0].var
-            del self.vars[varname]
+            if 'stateless' not in flags.keys() or not flags['stateless']:
+                del self.vars[varname]
             return OperationResult(None)
         else:
             raise ExecuteException("Expecting variable, received".format(refs[0].desc()), [], None)
-- 
2.43.0


From 9a44faba8c76d11b606aa0027a0eb6dfabcf1539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:08 +0000
Subject: [PATCH 06/30] fix: delete() of a variable holding an array deletes
 that variable, not the ones its elements came from

---
 modularcalculator/features/state/assignmentfunctions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modularcalculator/features/state/assignmentfunctions.py b/modularcalculator/features/state/assignmentfunctions.py
index 1d42e15..42f9bfa 100755
--- a/modularcalculator/features/state/assignmentfunctions.py
+++ b/modularcalculator/features/state/assignmentfunctions.py
@@ -42,7 +42,8 @@ class AssignmentFunctionsFeature(Feature):
             ['variable'],
             AssignmentFunctionsFeature.func_delete, 
             1, 
-            1)
+            1,
+            'variable')
 
     def func_reset(self, vals, units, refs, flags):
         if 'stateless' not in flags.keys() or not flags['stateless']:
-- 
2.43.0


From fd19f7db1c77c770f9670b7e0076a45e46b61529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:08 +0000
Subject: [PATCH 07/30] fix: recognise a continued statement by its items, not
 by text another statement can share

---
 modularcalculator/features/structure/terminator.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/modularcalculator/features/structure/terminator.py b/modularcalculator/features/structure/terminator.py
index 8e72159..3795de0 100755
--- a/modularcalculator/features/structure/terminator.py
+++ b/modularcalculator/features/structure/terminator.py
@@ -43,8 +43,7 @@ class TerminatorFeature(Feature):
         symbol = self.feature_options['structure.terminator']['Symbol']
         if next[0:len(symbol)] == symbol:
             func_items = functional_items(items)
-            func_item_text = items_text(func_items)
-            if func_item_text == self.last_failed_terminator:
+            if func_items == self.last_failed_terminator:
                 return None, None, None
 
             backup_vars = self.vars.copy()
@@ -54,7 +53,7 @@ class TerminatorFeature(Feature):
             except ExecuteException as e:
                 if str(e.message).startswith('Missing right operands for operator '):
                     self.vars = backup_vars
-                    self.last_failed_terminator = func_item_text
+                    self.last_failed_terminator = func_items
                     return None, None, None
             except Exception:
                 pass
-- 
2.43.0


From 37646661210e6ed41ff85fd006e7935b2ce46201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:08 +0000
Subject: [PATCH 08/30] fix: finalizing an answer does not change the stored
 value it came from

---
 modularcalculator/engine.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modularcalculator/engine.py b/modularcalculator/engine.py
index 9394240..43e517d 100755
--- a/modularcalculator/engine.py
+++ b/modularcalculator/engine.py
@@ -324,10 +324,11 @@ class Engine:
     def finalize(self, answer):
         if answer is None:
             return None
+        # The answer can still be referred to by a variable or an earlier response, so work on a copy
+        answer = OperandResult(answer.value, answer.unit, answer.ref)
         if type(answer.value) == list:
             # If answer is an array, apply finalization to each element
-            for i, ans in enumerate(answer.value):
-                answer.value[i] = self.finalize(ans)
+            answer.value = [self.finalize(ans) for ans in answer.value]
         else:
             if self.unit_normaliser is not None and self.unit_simplification and answer.unit is not None and not answer.unit.no_simplify:
                 # Simplify the answer's unit
-- 
2.43.0


From f6452d967fc6441649d607361ff2e3783eef2bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:08 +0000
Subject: [PATCH 09/30] fix: an operation's result takes on its number type
 without changing the operand it came from

---
 modularcalculator/objects/operators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modularcalculator/objects/operators.py b/modularcalculator/objects/operators.py
index 9f315d8..01f91d8 100755
--- a/modularcalculator/objects/operators.py
+++ b/modularcalculator/objects/operators.py
@@ -4,6 +4,7 @@ from modularcalculator.objects.items import *
 from modularcalculator.objects.exceptions import *
 from modularcalculator.objects.number import *
 
+from copy import copy as shallow_copy
 import re
 
 
@@ -211,6 +212,7 @@ class Operation:
 
                 # Convert the number type of the result
                 if self.auto_convert_numerical_result and isinstance(result_value, Number) and number_cast:
+                    result_value = shallow_copy(result_value)
                     result_value.number_cast = number_cast
 
                 # If result is an array, restore each element back to its original value and unit
-- 
2.43.0


From 2c877c1831ae67e7fb37430cd637654517365570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:45 +0000
Subject: [PATCH 10/30] fix: converting to a unit held in a variable does not
 change that variable

---
 modularcalculator/features/units/units.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modularcalculator/features/units/units.py b/modularcalculator/features/units/units.py
index 6d4f4b7..d64e02c 100755
--- a/modularcalculator/features/units/units.py
+++ b/modularcalculator/features/units/units.py
@@ -125,6 +125,7 @@ class UnitsFeature(Feature):
             raise CalculatorException("Second operand is not a unit")
 
         num, tounit = self.unit_normaliser.unit_conversion(num, fromunit, tounit, False)
+        tounit = tounit.copy()
         tounit.no_simplify = True
 
         res = OperationResult(num)
-- 
2.43.0


From 260815e7d171c29777066525caf235fea06fb2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:01 +0000
Subject: [PATCH 11/30] fix: each calculator calculates with its own precision
 and rounding, on any thread

---
 .../features/numerical/expnumbers.py            |  2 +-
 modularcalculator/modularcalculator.py          |  4 ++++
 modularcalculator/numericalengine.py            | 17 ++++++++++++++++-
 modularcalculator/objects/number.py             |  7 ++++++-
 4 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/modularcalculator/features/numerical/expnumbers.py b/modularcalculator/features/numerical/expnumbers.py
index 9263ba6..49c0375 100755
--- a/modularcalculator/features/numerical/expnumbers.py
+++ b/modularcalculator/features/numerical/expnumbers.py
@@ -89,7 +89,7 @@ class ExpNumbersFeature(Feature):
         if places is None:
             places = '.' + str(self.number_prec)
         else:
-            places = '.' + str(places.to_string())
+            places = '.' + str(places.to_string(self))
         scientificformat = '{0:' + places + 'E}'
 
         formattednumber = scientificformat.format(num.to_decimal())
diff --git a/modularcalculator/modularcalculator.py b/modularcalculator/modularcalculator.py
index a350181..8b33b37 100755
--- a/modularcalculator/modularcalculator.py
+++ b/modularcalculator/modularcalculator.py
@@ -75,6 +75,10 @@ class ModularCalculator(NumericalEngine):
         return self.feature_list
 
     def install_features(self, names, debug=False, skipMissing=False):
+        with self.number_context():
+            self.do_install_features(names, debug, skipMissing)
+
+    def do_install_features(self, names, debug=False, skipMissing=False):
         if isinstance(names, str):
             names = [names]
 
diff --git a/modularcalculator/numericalengine.py b/modularcalculator/numericalengine.py
index 5610cae..fa9bc9e 100755
--- a/modularcalculator/numericalengine.py
+++ b/modularcalculator/numericalengine.py
@@ -5,6 +5,8 @@ from modularcalculator.objects.exceptions import *
 from modularcalculator.objects.items import *
 from modularcalculator.objects.number import *
 
+from decimal import getcontext, localcontext
+
 
 class NumericalEngine(Engine):
 
@@ -13,8 +15,9 @@ class NumericalEngine(Engine):
 
         self.number_size = 100
         self.number_prec = 30
+        self.number_rounding = 'ROUND_HALF_UP'
         self.update_engine_prec()
-        self.number_set_rounding('ROUND_HALF_UP')
+        self.number_set_rounding(self.number_rounding)
 
         self.number_types = {}
         self.validators['number'] = NumericalEngine.validate_number
@@ -38,6 +41,18 @@ class NumericalEngine(Engine):
 
     def number_set_rounding(self, rounding):
         Number.set_rounding(rounding)
+        self.number_rounding = rounding
+
+    def number_context(self):
+        # The decimal context belongs to the thread, and any other calculator may have changed it
+        context = getcontext().copy()
+        context.prec = self.number_size
+        context.rounding = self.number_rounding
+        return localcontext(context)
+
+    def calculate(self, expr, flags=None):
+        with self.number_context():
+            return super().calculate(expr, flags)
 
     def number(self, val):
         if isinstance(val, Number):
diff --git a/modularcalculator/objects/number.py b/modularcalculator/objects/number.py
index 301bf97..6db5269 100644
--- a/modularcalculator/objects/number.py
+++ b/modularcalculator/objects/number.py
@@ -61,6 +61,11 @@ class Number:
     def to_string(self, calculator=None):
         if calculator is not None:
             assert calculator.__class__.__name__ == "ModularCalculator", "{} != {}".format(calculator.__class__.__name__, "ModularCalculator")
+            with calculator.number_context():
+                return self.to_string_in_context(calculator, calculator.number_prec)
+        return self.to_string_in_context(calculator, NUMBER['decimal_places'])
+
+    def to_string_in_context(self, calculator, decimal_places):
         if hasattr(self, 'number_cast') and self.number_cast is not None and 'to_string' in self.number_cast:
             return self.number_cast['to_string'](
                 calculator,
@@ -70,7 +75,7 @@ class Number:
         if dec_num == 0:
             # This is to avoid getting '-0'
             dec_num = 0
-        val = "{0:f}".format(round(dec_num, NUMBER['decimal_places']))
+        val = "{0:f}".format(round(dec_num, decimal_places))
         if val.find('.') > -1:
             val = val.rstrip('0')
             if val[-1] == '.':
-- 
2.43.0


From deb3bb10919151f92600e7542569285773ef4da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:20 +0000
Subject: [PATCH 12/30] fix: an error value taken out of an array is an error
 of the function that took it

A function returning an array element that is an error (eg element() of
[1, 2] / 0) passed the error on as a value. Errors inside array elements carry
no items, or those of the earlier statement they arose in, so using such a value
as an argument or inside brackets leaked AttributeError or a plain Exception out
of calculate().
---
 modularcalculator/features/structure/functions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modularcalculator/features/structure/functions.py b/modularcalculator/features/structure/functions.py
index 4b95711..db7d115 100755
--- a/modularcalculator/features/structure/functions.py
+++ b/modularcalculator/features/structure/functions.py
@@ -127,7 +127,11 @@ class FunctionItem(RecursiveOperandItem):
                 self.text = err.truncate(self.text)
                 self.truncated = True
                 raise ExecuteException(err.message, [self], err.next, True)
-        return func.call(self.calculator, inputs, flags)
+        result = func.call(self.calculator, inputs, flags)
+        if isinstance(result.value, CalculatorException):
+            # An error taken out of an array happened elsewhere, so report it as an error of this function
+            raise CalculatorException(result.value.message)
+        return result
 
     def result(self, flags):
         return self.value(flags)
-- 
2.43.0


From 0dae2d6129085f62324098cb82e8b42f3352d695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:48 +0000
Subject: [PATCH 13/30] fix: joining an array that holds arrays gives their
 elements, not memory addresses

join([1, [2, 3]], '-') contained Python object representations, so that the same
expression gave a different result each time.
---
 modularcalculator/features/strings/strings.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modularcalculator/features/strings/strings.py b/modularcalculator/features/strings/strings.py
index c533a58..1a3e72d 100755
--- a/modularcalculator/features/strings/strings.py
+++ b/modularcalculator/features/strings/strings.py
@@ -88,6 +88,8 @@ class StringsFeature(Feature):
     def string(self, val):
         if isinstance(val, Number):
             return val.to_string(self)
+        if type(val) == list:
+            return OperandResult(val, None, None).to_string(self)
         return str(val)
 
     def validate_string(self, value, unit, ref):
-- 
2.43.0


From db44bcf8bea1ea00c26a094ede9828c8913d9da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:39 +0000
Subject: [PATCH 14/30] fix: the error for an operand that is not a boolean
 shows its value, not memory addresses

'Cannot cast to boolean' used repr(), which for errors and arrays contains object
addresses, so that the same failing expression gave a different message each
time.
---
 modularcalculator/features/boolean/booleans.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/features/boolean/booleans.py b/modularcalculator/features/boolean/booleans.py
index a9d34ae..88d30cc 100755
--- a/modularcalculator/features/boolean/booleans.py
+++ b/modularcalculator/features/boolean/booleans.py
@@ -192,7 +192,7 @@ class BooleansFeature(Feature):
     def boolean(self, val):
         if type(val) == bool:
             return val
-        raise CalculatorException('Cannot cast to boolean: ' + repr(val))
+        raise CalculatorException('Cannot cast to boolean: ' + OperandResult(val, None, None).to_string(self))
 
     def validate_boolean(self, value, unit, ref):
         try:
-- 
2.43.0


From 824dd69b1beba15b9536eb913a01e6f28c7e526f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:05 +0000
Subject: [PATCH 15/30] fix: an inline function inside an array or argument
 keeps its statements apart

---
 modularcalculator/features/structure/inlinefunctions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modularcalculator/features/structure/inlinefunctions.py b/modularcalculator/features/structure/inlinefunctions.py
index 1bbef35..252968f 100644
--- a/modularcalculator/features/structure/inlinefunctions.py
+++ b/modularcalculator/features/structure/inlinefunctions.py
@@ -36,6 +36,8 @@ class InlineFunctionsFeature(Feature):
         next = expr[i:]
         if next.startswith('{'):
             flags['inline_function'] = True
+            # The function has statements of its own, even where the expression around it can not
+            flags.pop('ignore_terminators', None)
             inner_items, length, return_flags = None, None, None
             try:
                 inner_items, length, return_flags = self.parse(next[1:], flags)
-- 
2.43.0


From b6ed88d902dd959af31f0322043df73c97b11083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:10 +0000
Subject: [PATCH 16/30] fix: settings of one calculator changed during a
 calculation of another stay out of it

Creating a calculator, or setting its precision or rounding, from inside a
calculation of another one on the same thread (a host function) changed the
decimal context the outer calculation was running in.
---
 modularcalculator/numericalengine.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/modularcalculator/numericalengine.py b/modularcalculator/numericalengine.py
index fa9bc9e..84b3913 100755
--- a/modularcalculator/numericalengine.py
+++ b/modularcalculator/numericalengine.py
@@ -5,7 +5,13 @@ from modularcalculator.objects.exceptions import *
 from modularcalculator.objects.items import *
 from modularcalculator.objects.number import *
 
+from contextlib import contextmanager, nullcontext
 from decimal import getcontext, localcontext
+from threading import local
+
+
+# Whether a calculator's settings are in force on this thread
+IN_CONTEXT = local()
 
 
 class NumericalEngine(Engine):
@@ -37,18 +43,31 @@ class NumericalEngine(Engine):
         return self.number_prec
 
     def update_engine_prec(self):
-        Number.set_precision(self.number_size, self.number_prec)
+        with self.ambient_context():
+            Number.set_precision(self.number_size, self.number_prec)
 
     def number_set_rounding(self, rounding):
-        Number.set_rounding(rounding)
+        with self.ambient_context():
+            Number.set_rounding(rounding)
         self.number_rounding = rounding
 
+    def ambient_context(self):
+        # While a calculation runs, the settings of the calculator that runs it apply, not those of any other
+        return localcontext() if getattr(IN_CONTEXT, 'active', False) else nullcontext()
+
+    @contextmanager
     def number_context(self):
         # The decimal context belongs to the thread, and any other calculator may have changed it
         context = getcontext().copy()
         context.prec = self.number_size
         context.rounding = self.number_rounding
-        return localcontext(context)
+        outer = getattr(IN_CONTEXT, 'active', False)
+        try:
+            IN_CONTEXT.active = True
+            with localcontext(context):
+                yield
+        finally:
+            IN_CONTEXT.active = outer
 
     def calculate(self, expr, flags=None):
         with self.number_context():
-- 
2.43.0


From 6afd88d39fe61fb4acd0a0bd7833f82ef20da05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:03 +0000
Subject: [PATCH 17/30] fix: the error for an array that is not a function
 shows its values, not memory addresses

'No function pointer handler found' formatted nested arrays with their object
addresses, so that the same failing expression gave a different message each time.
---
 modularcalculator/features/structure/functionpointers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/features/structure/functionpointers.py b/modularcalculator/features/structure/functionpointers.py
index c282a5f..9585470 100644
--- a/modularcalculator/features/structure/functionpointers.py
+++ b/modularcalculator/features/structure/functionpointers.py
@@ -138,7 +138,7 @@ class FunctionPointerItem(RecursiveOperandItem):
             else:
                 self.items = []
                 self.text = ''
-                raise ExecuteException("No function pointer handler found for {}".format(this_ref), [self], self.text, True)
+                raise ExecuteException("No function pointer handler found for {}".format(OperandResult(this_ref, None, None).to_string(self.calculator)), [self], self.text, True)
 
         if is_array:
             return OperandResult(results, None, None)
-- 
2.43.0


From 1e8f0d41aa7a9a1c6e70e0659183d90602d80a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:56 +0000
Subject: [PATCH 18/30] fix: assignment operators fail in a stateless
 calculation

The name of the variable was only set where the assignment takes place, so
'x += 1' with the stateless flag always failed.  Like '=' it now has its
value, and only does not store it.
---
 .../features/state/assignmentoperators.py            | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/modularcalculator/features/state/assignmentoperators.py b/modularcalculator/features/state/assignmentoperators.py
index 608f561..4a328b4 100755
--- a/modularcalculator/features/state/assignmentoperators.py
+++ b/modularcalculator/features/state/assignmentoperators.py
@@ -136,14 +136,14 @@ class AssignmentOperatorsFeature(Feature):
 
     def assignment_operator(self, sym, vals, units, refs, flags):
         if isinstance(refs[0], VariableItem):
+            varname = refs[0].var
+            var = self.vars[varname]
+            op = self.ops_list[sym]
+            op_result = op.call(self, [OperandResult(var[0], var[1], None), OperandResult(vals[1], units[1], refs[1])], flags)
             if 'stateless' not in flags.keys() or not flags['stateless']:
-                varname = refs[0].var
-                var = self.vars[varname]
-                op = self.ops_list[sym]
-                op_result = op.call(self, [OperandResult(var[0], var[1], None), OperandResult(vals[1], units[1], refs[1])], flags)
                 self.vars[varname] = (op_result.value, op_result.unit)
-            res = OperationResult(self.vars[varname][0])
-            res.set_unit(self.vars[varname][1])
+            res = OperationResult(op_result.value)
+            res.set_unit(op_result.unit)
             return res
         else:
             raise ExecuteException("Expecting variable, received".format(refs[0].desc()), [], None)
-- 
2.43.0


From 4a50e15b25ce64a586c9cf477f55e4270cd8bdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:01 +0000
Subject: [PATCH 19/30] fix: a failure at one set of elements fails only that
 element

max([1, 2], ['x', 3]) and its kind failed as a whole, whereas operations
over arrays otherwise yield an error for the failing element only.
---
 modularcalculator/objects/operators.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/modularcalculator/objects/operators.py b/modularcalculator/objects/operators.py
index 01f91d8..d8084a5 100755
--- a/modularcalculator/objects/operators.py
+++ b/modularcalculator/objects/operators.py
@@ -137,7 +137,12 @@ class Operation:
                     else:
                         # This input is not an array, simply use the fixed value
                         input_row.append(inp)
-                res = self.call(calculator, [OperandResult(input_row, None, None)], flags)
+                try:
+                    res = self.call(calculator, [OperandResult(input_row, None, None)], flags)
+                except CalculatorException as err:
+                    if not array_inputs:
+                        raise err
+                    res = OperandResult(err, None, None)
                 if array_inputs:
                     if type(res.value) == list:
                         raise CalculatorException("Cannot pass multiple arrays to an operation that returns an array")
-- 
2.43.0


From eca2916eebca1e486a5bf270e71b0bc560f8705c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:08 +0000
Subject: [PATCH 20/30] fix: errors outside of any operation leak out of a
 calculation

---
 modularcalculator/engine.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modularcalculator/engine.py b/modularcalculator/engine.py
index 43e517d..46ebfab 100755
--- a/modularcalculator/engine.py
+++ b/modularcalculator/engine.py
@@ -77,6 +77,10 @@ class Engine:
                         except CalculatorException as err:
                             raise ExecutionException(err.message, statements[0:i] + [[]], None, False)
 
+                        except Exception:
+                            # An error outside of any operation, such as the stack or memory running out
+                            raise ExecutionException("Could not execute expression", statements[0:i] + [[]], None, False)
+
                     response.add_result(result)
 
                     if 'include_state' in flags and flags['include_state']:
-- 
2.43.0


From 3b9ee534554083b1d5e97cb469271c993eacf9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:31 +0000
Subject: [PATCH 21/30] fix: a failed element of an array is joined into a
 string as its error text

---
 modularcalculator/features/strings/strings.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modularcalculator/features/strings/strings.py b/modularcalculator/features/strings/strings.py
index 1a3e72d..24b0498 100755
--- a/modularcalculator/features/strings/strings.py
+++ b/modularcalculator/features/strings/strings.py
@@ -94,6 +94,11 @@ class StringsFeature(Feature):
 
     def validate_string(self, value, unit, ref):
         try:
+            if isinstance(value, Exception):
+                # A failed element of an array only has a text to show it
+                return False
+            if type(value) == list:
+                return all(StringsFeature.validate_string(self, elem.value, elem.unit, elem.ref) for elem in value)
             if isinstance(value, Number):
                 value.to_string(self)
             else:
-- 
2.43.0


From e99cc04bdc7d051c519dd20362a85334a91c6ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:50 +0000
Subject: [PATCH 22/30] fix: simplifying a unit fails when the units of one
 dimension are not the first

---
 modularcalculator/services/unitnormaliser.py | 34 +++++++++-----------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/modularcalculator/services/unitnormaliser.py b/modularcalculator/services/unitnormaliser.py
index 900b90a..ead1909 100755
--- a/modularcalculator/services/unitnormaliser.py
+++ b/modularcalculator/services/unitnormaliser.py
@@ -264,34 +264,32 @@ class UnitNormaliser:
     # Check if any remaining subunits are the same dimension
     def dedupe(self, value, unit):
         if len(unit.list()) > 1:
-            # Get list of dimensions and index of subunits
+            # Get list of dimensions and their subunits
             dimensions = {}
-            for di in [(u.unit.dimension, i) for i, u in enumerate(unit.list())]:
-                if di[0] not in dimensions:
-                    dimensions[di[0]] = []
-                dimensions[di[0]].append(di[1])
+            for u in unit.list():
+                if u.unit.dimension not in dimensions:
+                    dimensions[u.unit.dimension] = []
+                dimensions[u.unit.dimension].append(u)
 
             for dimension in dimensions:
-                units_i = dimensions[dimension]
-                if len(units_i) > 1:
+                subunits = dimensions[dimension]
+                if len(subunits) > 1:
                     # Need to de-dupe
                     power = Number(0)
-                    for i in units_i:
-                        power += unit.list()[i].power
+                    for subunit in subunits:
+                        power += subunit.power
                     if power.to_decimal() != 0:
                         # Multiple units for the same dimension, choose one and replace the others
-                        replace_all_with_unit = unit.list()[0].unit
-                        for i in units_i:
-                            if unit.list()[i].unit != replace_all_with_unit:
-                                power = unit.list()[i].power
-                                value = unit.removeandconvert(value, unit.list()[i].unit, power, False)
+                        replace_all_with_unit = subunits[0].unit
+                        for subunit in subunits:
+                            if subunit.unit != replace_all_with_unit:
+                                power = subunit.power
+                                value = unit.removeandconvert(value, subunit.unit, power, False)
                                 value = unit.addandconvert(value, replace_all_with_unit, power, False)
                     else:
                         # Units cancel out
-                        units_to_remove = [unit.list()[i] for i in units_i]
-                        for unit_to_remove in units_to_remove:
-                            value = unit.removeandconvert(value, unit_to_remove.unit, unit_to_remove.power, False)
-
+                        for subunit in subunits:
+                            value = unit.removeandconvert(value, subunit.unit, subunit.power, False)
 
         return value, unit
 
-- 
2.43.0


From 57f30bb2c2cf9eb157e97c9f2bf6a92ddafbe9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:00 +0000
Subject: [PATCH 23/30] fix: a failed operation on a number that cannot be
 shown fails in another way

---
 modularcalculator/objects/operators.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/modularcalculator/objects/operators.py b/modularcalculator/objects/operators.py
index d8084a5..cf1dff0 100755
--- a/modularcalculator/objects/operators.py
+++ b/modularcalculator/objects/operators.py
@@ -238,14 +238,24 @@ class Operation:
             except CalculatorException as err:
                 if err.wrapped:
                     raise err
-                values = str.join(', ', [op_input.to_string(calculator) for op_input in inputs])
+                values = self.describe_inputs(calculator, inputs)
                 newerr = CalculatorException("Could not execute {0} with parameters: {1} - {2}".format(self.name, values, err.message))
                 newerr.wrapped = True
                 raise newerr
             except Exception as err:
-                values = str.join(', ', [op_input.to_string(calculator) for op_input in inputs])
+                values = self.describe_inputs(calculator, inputs)
                 raise CalculatorException("Could not execute {0} with parameters: {1}".format(self.name, values))
 
+    def describe_inputs(self, calculator, inputs):
+        descriptions = []
+        for op_input in inputs:
+            try:
+                descriptions.append(op_input.to_string(calculator))
+            except Exception:
+                # Such as a number that is too large to show
+                descriptions.append('?')
+        return str.join(', ', descriptions)
+
     def validate(self, calculator, values, units, refs):
         # Check if we're been given at least the minimum number of params
         if self.minparams is not None and len(values) < self.minparams:
-- 
2.43.0


From 608e84f687c846debc4fd05609a2b6af9bab1c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 24/30] fix: the unit an answer is simplified to does not
 depend on the order features were installed in

---
 modularcalculator/services/unitnormaliser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/services/unitnormaliser.py b/modularcalculator/services/unitnormaliser.py
index ead1909..852fef6 100755
--- a/modularcalculator/services/unitnormaliser.py
+++ b/modularcalculator/services/unitnormaliser.py
@@ -194,7 +194,7 @@ class UnitNormaliser:
     def simplify_units(self, value, unit):
         if len(unit.list()) > 1 or (len(unit.list()) == 1 and unit.list()[0].power.to_decimal() < 0):
             unit = unit.copy()
-            dimensions_list = list(self.units.keys())
+            dimensions_list = sorted(self.units.keys())
             powerlist = [Number(1), Number(-1)]
             replacedimensions_list = [self.normalised_dimension(d).multiply(p) for d in dimensions_list for p in powerlist]
 
-- 
2.43.0


From ac86786b63c739ff424981764a07c6d4658efebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 25/30] fix: a feature that is not known is reported as a
 calculator error

---
 modularcalculator/modularcalculator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modularcalculator/modularcalculator.py b/modularcalculator/modularcalculator.py
index 8b33b37..a5b6a76 100755
--- a/modularcalculator/modularcalculator.py
+++ b/modularcalculator/modularcalculator.py
@@ -1,6 +1,7 @@
 #!/usr/bin/python3
 
 from modularcalculator.objects import *
+from modularcalculator.objects.exceptions import CalculatorException
 from modularcalculator.numericalengine import NumericalEngine
 import modularcalculator.features.layout
 import modularcalculator.features.presets
@@ -124,6 +125,8 @@ class ModularCalculator(NumericalEngine):
     def add_feature_to_be_installed(self, name):
         if name in self.features_to_install:
             return
+        if name not in self.feature_list:
+            raise CalculatorException("Feature {0} not found".format(name))
         self.features_to_install.add(name)
         feature = self.feature_list[name]
         dependencies = feature.dependencies()
-- 
2.43.0


From aa6955db4bded7e474c0525b483d2a3b186d0491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 26/30] fix: features install before the subfeatures of a
 metafeature that are to follow them

---
 modularcalculator/modularcalculator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/modularcalculator.py b/modularcalculator/modularcalculator.py
index a5b6a76..87a6fe0 100755
--- a/modularcalculator/modularcalculator.py
+++ b/modularcalculator/modularcalculator.py
@@ -132,7 +132,7 @@ class ModularCalculator(NumericalEngine):
         dependencies = feature.dependencies()
         for dependency in dependencies:
             self.add_feature_to_be_installed(dependency)
-        if isinstance(feature, MetaFeature):
+        if issubclass(feature, MetaFeature):
             for subfeature in feature.subfeatures():
                 self.add_feature_to_be_installed(subfeature)
 
-- 
2.43.0


From 0736c6f0f03af5e4a6bb64b0a0e3a94c6f4eb482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 27/30] fix: features that were only partly installed are added
 to when installed again

---
 modularcalculator/modularcalculator.py | 29 ++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/modularcalculator/modularcalculator.py b/modularcalculator/modularcalculator.py
index 87a6fe0..c379822 100755
--- a/modularcalculator/modularcalculator.py
+++ b/modularcalculator/modularcalculator.py
@@ -14,6 +14,16 @@ import os.path
 from importlib import import_module
 
 
+def copy_containers(value):
+    if type(value) is dict:
+        return dict([(k, copy_containers(v)) for k, v in value.items()])
+    if type(value) is list:
+        return [copy_containers(v) for v in value]
+    if type(value) is set:
+        return value.copy()
+    return value
+
+
 class ModularCalculator(NumericalEngine):
 
     def __init__(self, preset=None):
@@ -76,8 +86,23 @@ class ModularCalculator(NumericalEngine):
         return self.feature_list
 
     def install_features(self, names, debug=False, skipMissing=False):
-        with self.number_context():
-            self.do_install_features(names, debug, skipMissing)
+        backup = self.backup_installation()
+        try:
+            with self.number_context():
+                self.do_install_features(names, debug, skipMissing)
+        except BaseException:
+            self.restore_installation(backup)
+            raise
+
+    def backup_installation(self):
+        normaliser = self.unit_normaliser
+        return copy_containers(self.__dict__), copy_containers(normaliser.__dict__) if normaliser is not None else None
+
+    def restore_installation(self, backup):
+        # Features that were only partly installed would otherwise be added to when they are installed again
+        self.__dict__, normaliser_backup = backup
+        if normaliser_backup is not None:
+            self.unit_normaliser.__dict__ = normaliser_backup
 
     def do_install_features(self, names, debug=False, skipMissing=False):
         if isinstance(names, str):
-- 
2.43.0


From ee37f2008505754032e9c918d67488d77286721f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 28/30] fix: a feature file is loaded from the file that was
 named, as it is now, or not at all

---
 modularcalculator/modularcalculator.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/modularcalculator/modularcalculator.py b/modularcalculator/modularcalculator.py
index c379822..1005540 100755
--- a/modularcalculator/modularcalculator.py
+++ b/modularcalculator/modularcalculator.py
@@ -12,6 +12,7 @@ import inspect
 import pkgutil
 import os.path
 from importlib import import_module
+from types import ModuleType
 
 
 def copy_containers(value):
@@ -52,21 +53,23 @@ class ModularCalculator(NumericalEngine):
                     self.import_feature(module_name, package_name)
 
     def import_feature(self, module_name, package_name=None):
-        ids = []
         if package_name is not None:
             imported_module = import_module("{}.{}".format(package_name, module_name))
         else:
             imported_module = import_module(module_name)
-        for i in dir(imported_module):
-            feature = getattr(imported_module, i)
+        return self.add_module_features(imported_module)
+
+    def add_module_features(self, module):
+        features = {}
+        for i in dir(module):
+            feature = getattr(module, i)
             if inspect.isclass(feature) and issubclass(feature, Feature):
                 try:
-                    feature_id = feature.id()
-                    self.feature_list[feature_id] = feature
-                    ids.append(feature_id)
+                    features[feature.id()] = feature
                 except Exception:
                     pass
-        return ids
+        self.feature_list.update(features)
+        return list(features.keys())
 
     def import_feature_file(self, file_path):
         feature_dir = os.path.dirname(file_path)
@@ -74,7 +77,13 @@ class ModularCalculator(NumericalEngine):
         feature_module = os.path.splitext(feature_module)[0]
         if feature_dir not in sys.path:
             sys.path.append(feature_dir)
-        return self.import_feature(feature_module)
+        # Importing it by name could find any module of the same name, or the file as it was when first imported
+        with open(file_path, 'rb') as fh:
+            code = compile(fh.read(), file_path, 'exec')
+        module = ModuleType(feature_module)
+        module.__file__ = file_path
+        exec(code, module.__dict__)
+        return self.add_module_features(module)
 
     def list_presets(self):
         return self.preset_list.keys()
-- 
2.43.0


From 8bc30ec72282b78ead39d308a0608b7f48a5f8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:15 +0000
Subject: [PATCH 29/30] fix: a calculation does not depend on the decimal
 context of the thread

---
 modularcalculator/numericalengine.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/modularcalculator/numericalengine.py b/modularcalculator/numericalengine.py
index 84b3913..6ddcf37 100755
--- a/modularcalculator/numericalengine.py
+++ b/modularcalculator/numericalengine.py
@@ -6,7 +6,7 @@ from modularcalculator.objects.items import *
 from modularcalculator.objects.number import *
 
 from contextlib import contextmanager, nullcontext
-from decimal import getcontext, localcontext
+from decimal import Context, DivisionByZero, InvalidOperation, Overflow, localcontext
 from threading import local
 
 
@@ -57,10 +57,9 @@ class NumericalEngine(Engine):
 
     @contextmanager
     def number_context(self):
-        # The decimal context belongs to the thread, and any other calculator may have changed it
-        context = getcontext().copy()
-        context.prec = self.number_size
-        context.rounding = self.number_rounding
+        # The decimal context of the thread, and the defaults of new ones, belong to the program around
+        context = Context(prec=self.number_size, rounding=self.number_rounding, Emin=-999999, Emax=999999, capitals=1, clamp=0,
+            flags=[], traps=[DivisionByZero, InvalidOperation, Overflow])
         outer = getattr(IN_CONTEXT, 'active', False)
         try:
             IN_CONTEXT.active = True
-- 
2.43.0


From 57f0f3625ff5675d5884f4c91bdfc1208ce350d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:39 +0000
Subject: [PATCH 30/30] fix: installing the special functions does not change
 the warning filters of the program

---
 modularcalculator/features/numerical/specialfunctions.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/modularcalculator/features/numerical/specialfunctions.py b/modularcalculator/features/numerical/specialfunctions.py
index a016e9b..6e5e92d 100644
--- a/modularcalculator/features/numerical/specialfunctions.py
+++ b/modularcalculator/features/numerical/specialfunctions.py
@@ -9,7 +9,6 @@ from functools import partial
 import scipy.special
 import random
 import numpy
-import warnings
 
 
 class SpecialFunctionsFeature(Feature):
@@ -33,9 +32,6 @@ class SpecialFunctionsFeature(Feature):
     def install(cls, calculator):
         af = partial(SpecialFunctionsFeature.add_func, calculator)
 
-        # Needed to avoid warning: "ComplexWarning: Casting complex values to real discards the imaginary part"
-        warnings.simplefilter("ignore", numpy.exceptions.ComplexWarning)
-
         af('airy', "Airy functions - Airy functions and their derivatives", ['z'], ['Ai', 'Aip', 'Bi', 'Bip'])
         af('airye', "Airy functions - Exponentially scaled Airy functions and their derivatives", ['z'], ['eAi', 'eAip', 'eBi', 'eBip'])
         af('itairy', "Airy functions - Integrals of Airy functions", ['x'], ['Apt', 'Bpt', 'Ant', 'Bnt'])
@@ -295,6 +291,8 @@ class SpecialFunctionsFeature(Feature):
         return OperationResult(SpecialFunctionsFeature.cast_numpy(out))
 
     def cast_numpy(n):
+        # Casting complex values to real would warn that this discards the imaginary part
+        n = numpy.real(n)
         if type(n) == numpy.ndarray and n.size == 1:
             n = float(n)
         else:
-- 
2.43.0

