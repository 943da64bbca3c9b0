From 9c7bc2f7e732e746b256cce3cdd74c6d496b016a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:59 +0000
Subject: [PATCH 01/27] fix: evaluate implications by negating antecedents only

The visitor yielded both 'not a' and 'a' for every antecedent, so any
implication evaluated to true.
---
 pylogics_modalities/semantics/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylogics_modalities/semantics/base.py b/pylogics_modalities/semantics/base.py
index d181d55..74782e7 100644
--- a/pylogics_modalities/semantics/base.py
+++ b/pylogics_modalities/semantics/base.py
@@ -74,7 +74,8 @@ def implies_semantics(
         for index, sub_formula in enumerate(formula.operands):
             if index < len(formula.operands) - 1:
                 yield not fn(sub_formula, *args, **kwargs)
-            yield fn(sub_formula, *args, **kwargs)
+            else:
+                yield fn(sub_formula, *args, **kwargs)
 
     return any(_visitor())
 
-- 
2.43.0


From 442561ed90a5c1b5170a2688e660f37a30368535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:59 +0000
Subject: [PATCH 02/27] fix: do not turn a false consequent into true in
 Implies

'ex falso' only applies to antecedents; 'a -> false' was simplified to
'a -> true'.
---
 pylogics_modalities/syntax/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylogics_modalities/syntax/base.py b/pylogics_modalities/syntax/base.py
index b2b92a9..996d6c3 100644
--- a/pylogics_modalities/syntax/base.py
+++ b/pylogics_modalities/syntax/base.py
@@ -536,7 +536,7 @@ class _MetaImpliesOp(_MetaOp):
         logic = operands[0].logic
         false = make_boolean(False, logic=logic)
         new_operands = []
-        for operand in operands:
+        for operand in operands[:-1]:
             if operand == false:
                 # ex falso sequitur quodlibet
                 new_operands.append(~false)
-- 
2.43.0


From 488a3af96a7a01060829f50d6ff47a55ec82c398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:59 +0000
Subject: [PATCH 03/27] fix: print LDL tests in the postfix form the grammar
 accepts

---
 pylogics_modalities/utils/to_string.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylogics_modalities/utils/to_string.py b/pylogics_modalities/utils/to_string.py
index 45e9397..cd94353 100644
--- a/pylogics_modalities/utils/to_string.py
+++ b/pylogics_modalities/utils/to_string.py
@@ -237,7 +237,7 @@ def to_string_re_star(formula: Star) -> str:
 @to_string.register(Test)
 def to_string_re_test(formula: Test) -> str:
     """Transform a test regular expression into string."""
-    return f"?({to_string(formula.argument)})"
+    return f"({to_string(formula.argument)})?"
 
 
 @to_string.register(Prop)
-- 
2.43.0


From 743ed1c657fad304988ecea3a91f0aa5967bf7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:59 +0000
Subject: [PATCH 04/27] fix: print the PLTL operators Z and T, which the parser
 accepts

---
 pylogics_modalities/utils/to_string.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pylogics_modalities/utils/to_string.py b/pylogics_modalities/utils/to_string.py
index cd94353..fc9fbda 100644
--- a/pylogics_modalities/utils/to_string.py
+++ b/pylogics_modalities/utils/to_string.py
@@ -46,7 +46,7 @@ from pylogics_modalities.syntax.ltl import Release, StrongRelease, Until, WeakNe
 from pylogics_modalities.syntax.pltl import Before, Historically, Once
 from pylogics_modalities.syntax.pltl import PropositionalFalse as PLTLPropositionalFalse
 from pylogics_modalities.syntax.pltl import PropositionalTrue as PLTLPropositionalTrue
-from pylogics_modalities.syntax.pltl import Since
+from pylogics_modalities.syntax.pltl import Since, Triggers, WeakBefore
 
 
 @functools.singledispatch
@@ -192,6 +192,18 @@ def to_string_pltl_since(formula: Since) -> str:
     return " S ".join(_map_operands_to_string(formula.operands))
 
 
+@to_string.register(WeakBefore)
+def to_string_pltl_weak_before(formula: WeakBefore) -> str:
+    """Transform a 'weak before' formula into string."""
+    return f"Z({to_string(formula.argument)})"
+
+
+@to_string.register(Triggers)
+def to_string_pltl_triggers(formula: Triggers) -> str:
+    """Transform a 'triggers' formula into string."""
+    return " T ".join(_map_operands_to_string(formula.operands))
+
+
 @to_string.register(Once)
 def to_string_pltl_once(formula: Once) -> str:
     """Transform a 'once' formula into string."""
-- 
2.43.0


From cf86a5d741ecdf35546c81247548284a0131dd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:59 +0000
Subject: [PATCH 05/27] fix: make formulas picklable and copyable

The wrapped __getstate__ of every class in the hierarchy dropped the
cached hash again (KeyError), from the dictionary of the live object, and
Not could not be rebuilt without its argument.
---
 pylogics_modalities/helpers/cache_hash.py | 6 ++++--
 pylogics_modalities/syntax/base.py        | 4 ++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pylogics_modalities/helpers/cache_hash.py b/pylogics_modalities/helpers/cache_hash.py
index 43eddb8..9e935ea 100644
--- a/pylogics_modalities/helpers/cache_hash.py
+++ b/pylogics_modalities/helpers/cache_hash.py
@@ -61,8 +61,10 @@ def _getstate(fn):
 
     @wraps(fn)
     def __getstate__(self):
-        d = fn(self)
-        d.pop("__hash")
+        # copy: the state may be the '__dict__' of the live object.
+        d = dict(fn(self))
+        # an ancestor class may have dropped the hash value already.
+        d.pop("__hash", None)
         return d
 
     return __getstate__
diff --git a/pylogics_modalities/syntax/base.py b/pylogics_modalities/syntax/base.py
index 996d6c3..523ceac 100644
--- a/pylogics_modalities/syntax/base.py
+++ b/pylogics_modalities/syntax/base.py
@@ -498,6 +498,10 @@ class Not(_UnaryOp):
             return ~arg
         return super(Not, cls).__new__(cls)
 
+    def __getnewargs__(self):
+        """Get the arguments of __new__ (needed to copy and unpickle)."""
+        return (self.argument,)
+
     def __invert__(self):
         """Invert the negation."""
         return self.argument
-- 
2.43.0


From c851b5d58ebda3e3932747aa3aa0ca028378b53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:21 +0000
Subject: [PATCH 06/27] fix: check that operands of And/Or belong to the same
 logic

The check was called without the operands, and compared logics with a
formula.
---
 pylogics_modalities/syntax/base.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pylogics_modalities/syntax/base.py b/pylogics_modalities/syntax/base.py
index 523ceac..dccd9a5 100644
--- a/pylogics_modalities/syntax/base.py
+++ b/pylogics_modalities/syntax/base.py
@@ -374,7 +374,7 @@ class _MonotoneBinaryOp(_MetaOp):
         """Init the subclass object."""
         if len(args) == 0:
             raise ValueError("cannot accept zero arguments")
-        cls._check_operands_same_logic()
+        cls._check_operands_same_logic(*args)
         operands = cls._simplify_monotone_op_operands(cls, *args)
         if len(operands) == 1:
             return operands[0]
@@ -430,14 +430,19 @@ class _MonotoneBinaryOp(_MetaOp):
         :raises: PylogicsError: if the check fails.
         """
         filtered_operands = list(
-            filter(lambda x: not isinstance(x, (TrueFormula, FalseFormula)), operands)
+            filter(
+                lambda x: isinstance(x, Formula)
+                and not isinstance(x, (TrueFormula, FalseFormula)),
+                operands,
+            )
         )
         if len(filtered_operands) == 0:
             return
-        logic = filtered_operands[0]
+        logic = filtered_operands[0].logic
         enforce(
             all(sub_formula.logic == logic for sub_formula in filtered_operands),
             message="operands do not belong to the same logic",
+            exception_cls=PylogicsError,
         )
 
 
-- 
2.43.0


From 69c1ac2c2a5706b604bdb8f7d68d5855b90d624c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:21 +0000
Subject: [PATCH 07/27] fix: reject operands of the logics an operator does not
 allow

The test was inverted, ran only for the boolean connectives, and looked
at the first operand only; Test takes LDL formulae and Star regular
expressions.
---
 pylogics_modalities/syntax/base.py | 27 +++++++++++++++++----------
 pylogics_modalities/syntax/ldl.py  |  3 ++-
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/pylogics_modalities/syntax/base.py b/pylogics_modalities/syntax/base.py
index dccd9a5..7b6935c 100644
--- a/pylogics_modalities/syntax/base.py
+++ b/pylogics_modalities/syntax/base.py
@@ -118,28 +118,35 @@ class _MetaOp(_HashConsing):
 
     def __call__(cls, *operands, **kwargs):
         """Init the subclass object."""
-        cls._check_not_forbidden_formalism(*operands)
+        cls._check_not_forbidden_formalism(*operands, *kwargs.values())
         return super(_MetaOp, cls).__call__(*operands, **kwargs)
 
     def _check_not_forbidden_formalism(cls, *operands):
         """Check operands belong to same formalism."""
         enforce(len(operands) >= 1, "expected at least one operand.")
-        logic = operands[0].logic
         allowed = getattr(cls, "ALLOWED_LOGICS", None)
         forbidden = getattr(cls, "FORBIDDEN_LOGICS", None)
         if allowed is not None:
             forbidden = []
 
-        is_logic_allowed = allowed is not None and logic in allowed
-        is_logic_forbidden = forbidden is not None and logic in forbidden
-        if is_logic_allowed and not is_logic_forbidden:
-            raise ValueError(
-                f"error during instantiation of class {cls.__name__}: "
-                f"found operand belonging to logic {logic}, which is forbidden"
+        for operand in operands:
+            if not isinstance(operand, Formula):
+                continue  # left to the checks of the constructor
+            logic = operand.logic
+            is_logic_allowed = allowed is None or logic in allowed
+            # the boolean constants exist in (and can be negated in) every logic
+            is_constant = isinstance(operand, (TrueFormula, FalseFormula))
+            is_logic_forbidden = (
+                forbidden is not None and logic in forbidden and not is_constant
             )
+            if not is_logic_allowed or is_logic_forbidden:
+                raise ValueError(
+                    f"error during instantiation of class {cls.__name__}: "
+                    f"found operand belonging to logic {logic}, which is forbidden"
+                )
 
 
-class _BinaryOp(Formula):
+class _BinaryOp(Formula, metaclass=_MetaOp):
     """
     Binary operator.
 
@@ -209,7 +216,7 @@ class _BinaryOp(Formula):
         )
 
 
-class _UnaryOp(Formula, ABC):
+class _UnaryOp(Formula, ABC, metaclass=_MetaOp):
     """
     Unary operator.
 
diff --git a/pylogics_modalities/syntax/ldl.py b/pylogics_modalities/syntax/ldl.py
index fef870b..8138ea7 100644
--- a/pylogics_modalities/syntax/ldl.py
+++ b/pylogics_modalities/syntax/ldl.py
@@ -92,13 +92,14 @@ class Test(_UnaryOp, _RegularExpression):
     """Test of an LDL formula."""
 
     SYMBOL = "test"
-    ALLOWED_LOGICS: Set[Logic] = {Logic.RE}
+    ALLOWED_LOGICS: Set[Logic] = {Logic.LDL}
 
 
 class Star(_UnaryOp, _RegularExpression):
     """Kleene star of regular expressions."""
 
     SYMBOL = "star"
+    ALLOWED_LOGICS: Set[Logic] = {Logic.RE}
 
 
 class Prop(_UnaryOp, _RegularExpression):
-- 
2.43.0


From 7d2b85ee514ea5ea8f24ba4f80d049ccae01a84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:55 +0000
Subject: [PATCH 08/27] fix: parse negated parenthesised propositions in LDL
 regular expressions

After '!' in a regular expression the LALR parser had to choose between
'NOT*' and the LDL negation before seeing the operand, so '<!(a)>tt' and
'<!!a>tt' (and what to_string prints for '<!a>tt') were rejected.
---
 docs/grammars.md                    | 3 ++-
 pylogics_modalities/parsers/pl.lark | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/docs/grammars.md b/docs/grammars.md
index e87bd6c..cfcc35f 100644
--- a/docs/grammars.md
+++ b/docs/grammars.md
@@ -16,7 +16,8 @@ start: propositional_formula
 ?prop_implication: prop_or (IMPLY prop_or)*
 ?prop_or: prop_and (OR prop_and)*
 ?prop_and: prop_not (AND prop_not)*
-?prop_not: NOT* prop_wrapped
+?prop_not: NOT prop_not
+         | prop_wrapped
 ?prop_wrapped: prop_atom
             | LEFT_PARENTHESIS propositional_formula RIGHT_PARENTHESIS
 ?prop_atom: atom
diff --git a/pylogics_modalities/parsers/pl.lark b/pylogics_modalities/parsers/pl.lark
index 7c9e0f0..b7e6d73 100644
--- a/pylogics_modalities/parsers/pl.lark
+++ b/pylogics_modalities/parsers/pl.lark
@@ -5,7 +5,8 @@ start: propositional_formula
 ?prop_implication: prop_or (IMPLY prop_or)*
 ?prop_or: prop_and (OR prop_and)*
 ?prop_and: prop_not (AND prop_not)*
-?prop_not: NOT* prop_wrapped
+?prop_not: NOT prop_not
+         | prop_wrapped
 ?prop_wrapped: prop_atom
             | LEFT_PARENTHESIS propositional_formula RIGHT_PARENTHESIS
 ?prop_atom: atom
-- 
2.43.0


From 5889ea68b86bcf11136b5f6f744f0012b10541e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:23 +0000
Subject: [PATCH 09/27] fix: compare FOL terms and predicates structurally

They were compared by identity, so two occurrences of the same predicate
or variable were different, and shared the (mutable) argument lists of
their callers.
---
 pylogics_modalities/syntax/fol.py | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/pylogics_modalities/syntax/fol.py b/pylogics_modalities/syntax/fol.py
index 9ba1ef0..43c5d22 100644
--- a/pylogics_modalities/syntax/fol.py
+++ b/pylogics_modalities/syntax/fol.py
@@ -65,6 +65,19 @@ class Term(ABC):
         """Get an unambiguous string representation."""
         return f"{type(self).__name__}({str(self)})"
 
+    def __eq__(self, other) -> bool:
+        """Compare with another object."""
+        return (
+            type(self) is type(other)
+            and self.name == other.name
+            and getattr(self, "value", None) == getattr(other, "value", None)
+            and getattr(self, "operands", None) == getattr(other, "operands", None)
+        )
+
+    def __hash__(self) -> int:
+        """Compute the hash."""
+        return hash((type(self), self.name, getattr(self, "operands", None)))
+
 
 class Variable(Term):
     def __init__(self, name: str):
@@ -81,7 +94,7 @@ class Function(Term):
 
     def __init__(self, name: str, operands: list):
         self.name = name
-        self.operands = operands
+        self.operands = tuple(operands)
 
     def __call__(self, *operands) -> Term:
         enforce(len(operands) == len(self.operands), f"expected {len(self.operands)} operands, got {len(operands)}.")
@@ -127,7 +140,7 @@ class Predicate(_FOL):
 
     def __init__(self, name: str, operands: list = []):
         self._name = name
-        self._operands = operands
+        self._operands = tuple(operands)
 
     @property
     def name(self) -> str:
@@ -135,7 +148,7 @@ class Predicate(_FOL):
         return self._name
 
     @property
-    def operands(self) -> list:
+    def operands(self) -> tuple:
         """Get the operands of the predicate."""
         return self._operands
 
@@ -153,6 +166,18 @@ class Predicate(_FOL):
         """Get an unambiguous string representation."""
         return f"{type(self).__name__}({str(self)})"
 
+    def __eq__(self, other) -> bool:
+        """Compare with another object."""
+        return (
+            type(self) is type(other)
+            and self.name == other.name
+            and self.operands == other.operands
+        )
+
+    def __hash__(self) -> int:
+        """Compute the hash."""
+        return hash((type(self), self.name, self.operands))
+
 
 class ForAll(_Quantifier, _FOL):
     """Universal formula."""
-- 
2.43.0


From bd051cdcc2e581383d4a2d6aed7a44644da75cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:42 +0000
Subject: [PATCH 10/27] fix: natural deduction rules check the connective they
 are about

'a & b' followed from 'a' by or-introduction, 'a' from 'a | b' by
and-elimination, and modus tollens applied to any unary operator.
---
 pylogics_modalities/deduction/fol/nd.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index e509a13..0287767 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -139,11 +139,11 @@ class NaturalDeduction(AbstractDeductionSystem):
 
     def _check_justification_and_e1(self, formula, *args):
         """Check if the deduction is valid according to and-elimination (1) rule."""
-        return str(formula) == str(args[0].operands[0])
+        return isinstance(args[0], And) and str(formula) == str(args[0].operands[0])
 
     def _check_justification_and_e2(self, formula, *args):
         """Check if the deduction is valid according to and-elimination (2) rule."""
-        return str(formula) == str(args[0].operands[1])
+        return isinstance(args[0], And) and str(formula) == str(args[0].operands[1])
 
     def _check_justification_and_i(self, formula, *args):
         """Check if the deduction is valid according to and-introduction rule."""
@@ -181,6 +181,8 @@ class NaturalDeduction(AbstractDeductionSystem):
 
     def _check_justification_MT(self, formula, *args):
         """Check if the deduction is valid according to modus tollens rule"""
+        if not (isinstance(formula, Not) and isinstance(args[1], Not)):
+            return False
         return str(formula.argument >> args[1].argument) == str(args[0])
 
     def _check_justification_neg_e(self, formula, *args):
@@ -202,11 +204,11 @@ class NaturalDeduction(AbstractDeductionSystem):
 
     def _check_justification_or_i1(self, formula, *args):
         """Check if the deduction is valid according to or-introduction 1 rule"""
-        return str(formula.operands[0]) == str(args[0])
+        return isinstance(formula, Or) and str(formula.operands[0]) == str(args[0])
 
     def _check_justification_or_i2(self, formula, *args):
         """Check if the deduction is valid according to or-introduction 2 rule"""
-        return str(formula.operands[1]) == str(args[0])
+        return isinstance(formula, Or) and str(formula.operands[1]) == str(args[0])
 
     def _check_justification_premise(self, formula, *args):
         """Check if the deduction is valid according to premise rule"""
-- 
2.43.0


From 04e8d35d66ab6cb3b5dd0c4fa5b78a9ef3284333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:42 +0000
Subject: [PATCH 11/27] fix: reject proof steps that cite lines out of scope

Such citations were dropped: the step was checked against the remaining
ones, or failed with an IndexError.
---
 pylogics_modalities/deduction/fol/nd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index 0287767..6140916 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -120,7 +120,9 @@ class NaturalDeduction(AbstractDeductionSystem):
         for row, content, justiﬁcation in proof:
             if isinstance(content, Formula):
                 rule = justiﬁcation[0]
-                args = [sound[i] for i in justiﬁcation[1:] if i in sound]
+                if any(i not in sound for i in justiﬁcation[1:]):
+                    return False  # Cited line does not exist, or is out of scope
+                args = [sound[i] for i in justiﬁcation[1:]]
                 if rule not in self.check_justification:
                     return False
                 if self.check_justification[rule](content, *args) == False:
-- 
2.43.0


From fc93b3e2c56f1ffa327f4a664ba72a77b4cc028f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:29 +0000
Subject: [PATCH 12/27] fix: assumptions only open subproofs, premises are
 stated outside them

Any line of a subproof could be justified by 'assumption', which nothing
discharges: 'a -> b' followed from the subproof 'assume a, assume b'.
---
 pylogics_modalities/deduction/fol/nd.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index 6140916..9d960e7 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -115,11 +115,17 @@ class NaturalDeduction(AbstractDeductionSystem):
         #     f"proof '{proof}' cannot be processed by {self.check.__name__}"  # type: ignore
         # )
 
+        in_box = sound is not None
         sound = sound if sound else {}
 
-        for row, content, justiﬁcation in proof:
+        for index, (row, content, justiﬁcation) in enumerate(proof):
             if isinstance(content, Formula):
                 rule = justiﬁcation[0]
+                if in_box and rule == self.rule.premise:
+                    return False  # Premises belong to the outermost level
+                opening = 1 if isinstance(proof[0][1], Term) else 0
+                if in_box and rule == self.rule.assumption and index != opening:
+                    return False  # Assumptions can only open a subproof
                 if any(i not in sound for i in justiﬁcation[1:]):
                     return False  # Cited line does not exist, or is out of scope
                 args = [sound[i] for i in justiﬁcation[1:]]
-- 
2.43.0


From ea7391f1c113271929988753cb19154313ad49f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:29 +0000
Subject: [PATCH 13/27] fix: enforce the side conditions of the quantifier
 rules

The term a quantifier rule generalises must be arbitrary: not assumed
about, not left in the conclusion, not mentioned by the existential; and
terms are the same when they print the same, as for formulas.
---
 pylogics_modalities/deduction/fol/nd.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index 9d960e7..5f87177 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -224,7 +224,7 @@ class NaturalDeduction(AbstractDeductionSystem):
 
     def _find_term(self, t: Term, *args):
         for x in args:
-            if t == x:
+            if isinstance(x, Term) and str(t) == str(x):
                 return True
             if 'argument' in dir(x) and self._find_term(t, x.argument):
                 return True
@@ -268,6 +268,10 @@ class NaturalDeduction(AbstractDeductionSystem):
         a, phi_x_a = args[0][0][1], args[0][-1][1]
         if not isinstance(a, Term):
             return False
+        if any(isinstance(c, Formula) and j[0] == self.rule.assumption for _, c, j in args[0]):
+            return False  # Term is not arbitrary
+        if self._find_term(a, formula):
+            return False  # Term occurs outside its assumption
         x, phi = formula.variable, formula.formula
         return str(self._replace(phi, x, a)) == str(phi_x_a)
 
@@ -301,6 +305,8 @@ class NaturalDeduction(AbstractDeductionSystem):
         if not isinstance(phi, Exists):
             return False
         a, phi_x_a = args[1][0][1], args[1][1][1]
+        if not isinstance(a, Term) or self._find_term(a, phi):
+            return False
         if not str(phi_x_a) == str(self._replace(phi.formula, phi.variable, a)):
             return False
         chi = args[1][-1][1]
-- 
2.43.0


From 453d4ff9c743df774d00da5bfb2843ddb1fe38e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:29 +0000
Subject: [PATCH 14/27] fix: substitute terms under quantifiers and
 equivalences

Equivalences were returned unchanged (so a generalisation over them was
accepted without looking at the term), and quantified formulas failed.
---
 pylogics_modalities/deduction/fol/nd.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index 5f87177..47fee11 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -25,7 +25,7 @@
 
 from enum import Enum
 
-from pylogics_modalities.syntax.base import Logic, Formula, FalseFormula, And, Or, Not, Implies
+from pylogics_modalities.syntax.base import Logic, Formula, FalseFormula, And, Or, Not, Implies, Equivalence
 from pylogics_modalities.exceptions import PylogicsError
 
 from pylogics_modalities.syntax.fol import Term, Variable, Constant, Function
@@ -247,16 +247,18 @@ class NaturalDeduction(AbstractDeductionSystem):
         return diffset
 
     def _replace(self, formula: Formula, x: Variable, a: Term):
-        if formula is x:
+        if formula == x:
             return a
         if isinstance(formula, Not):
             return type(formula)(self._replace(formula.argument, x, a))
-        if isinstance(formula, (Or, And, Implies)):
+        if isinstance(formula, (Or, And, Implies, Equivalence)):
             return type(formula)(*[self._replace(o, x, a) for o in formula.operands])
         if isinstance(formula, (ForAll, Exists)):
             if formula.variable == x:
                 return formula
-            return type(formula)(formula.variable, [self._replace(o, x, a) for o in formula.operands])
+            if self._find_term(formula.variable, a):
+                raise PylogicsError(f"'{a}' is captured by the quantifier of '{formula}'")
+            return type(formula)(formula.variable, self._replace(formula.formula, x, a))
         if isinstance(formula, (Predicate, Function)):
             return type(formula)(formula.name, [self._replace(o, x, a) for o in formula.operands])
         return formula
-- 
2.43.0


From 45e4b67f11c62c8f7799569a0e3b77ba6db19efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:43 +0000
Subject: [PATCH 15/27] fix: instantiate quantified variables with other
 variables

Two different variables were not seen as a difference, so 'P(y)' did not
follow from 'forall x. P(x)'.
---
 pylogics_modalities/deduction/fol/nd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index 47fee11..39b0bb2 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -234,7 +234,7 @@ class NaturalDeduction(AbstractDeductionSystem):
 
     def _find_diff(self, x: Formula, y: Formula):
         diffset = set()
-        if type(x) != type(y):
+        if type(x) != type(y) or (isinstance(x, Variable) and x != y):
             diffset = diffset | {(x, y)}
         elif 'argument' in dir(x):
             diffset = diffset | self._find_diff(x.argument, y.argument)
-- 
2.43.0


From 15102d93c5560517e8bd8e31353a03f580d663c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:32 +0000
Subject: [PATCH 16/27] fix: reserved words end at the end of a word

---
 docs/grammars.md                      | 14 +++++++-------
 pylogics_modalities/parsers/ltl.lark  |  8 ++++----
 pylogics_modalities/parsers/pl.lark   |  4 ++--
 pylogics_modalities/parsers/pltl.lark |  2 +-
 4 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/docs/grammars.md b/docs/grammars.md
index cfcc35f..77681e6 100644
--- a/docs/grammars.md
+++ b/docs/grammars.md
@@ -35,8 +35,8 @@ IMPLY : ">>"|"->"
 OR: "||"|"|"
 AND: "&&"|"&"
 NOT: "!"|"~"
-TRUE.2: /true/
-FALSE.2: /false/
+TRUE.2: /true(?!-*[a-zA-Z0-9_])/
+FALSE.2: /false(?!-*[a-zA-Z0-9_])/
 
 // Symbols cannot start with uppercase letters, because these are reserved. Moreover, any word between quotes is a symbol.
 // More in detail:
@@ -118,11 +118,11 @@ WEAK_UNTIL.2: /W(?=[ "\(])/
 STRONG_RELEASE.2: /M(?=[ "\(])/
 
 
-END.2: /end/
-LAST.2: /last/
+END.2: /end(?!-*[a-zA-Z0-9_])/
+LAST.2: /last(?!-*[a-zA-Z0-9_])/
 
-TT.2: /tt/
-FF.2: /ff/
+TT.2: /tt(?!-*[a-zA-Z0-9_])/
+FF.2: /ff(?!-*[a-zA-Z0-9_])/
 
 %ignore /\s+/
 
@@ -191,7 +191,7 @@ ONCE.2: /O(?=[ "\(])/
 BEFORE.2: /Y(?=[ "\(])/
 WEAKBEFORE.2: /Z(?=[ "\(])/
 FIRST.2: /first/
-START.2: /start/
+START.2: /start(?!-*[a-zA-Z0-9_])/
 
 %ignore /\s+/
 
diff --git a/pylogics_modalities/parsers/ltl.lark b/pylogics_modalities/parsers/ltl.lark
index c118bd1..68bb6dd 100644
--- a/pylogics_modalities/parsers/ltl.lark
+++ b/pylogics_modalities/parsers/ltl.lark
@@ -49,11 +49,11 @@ WEAK_UNTIL.2: /W(?=[ "\(])/
 STRONG_RELEASE.2: /M(?=[ "\(])/
 
 
-END.2: /end/
-LAST.2: /last/
+END.2: /end(?!-*[a-zA-Z0-9_])/
+LAST.2: /last(?!-*[a-zA-Z0-9_])/
 
-TT.2: /tt/
-FF.2: /ff/
+TT.2: /tt(?!-*[a-zA-Z0-9_])/
+FF.2: /ff(?!-*[a-zA-Z0-9_])/
 
 %ignore /\s+/
 
diff --git a/pylogics_modalities/parsers/pl.lark b/pylogics_modalities/parsers/pl.lark
index b7e6d73..8c6d771 100644
--- a/pylogics_modalities/parsers/pl.lark
+++ b/pylogics_modalities/parsers/pl.lark
@@ -24,8 +24,8 @@ IMPLY : ">>"|"->"
 OR: "||"|"|"
 AND: "&&"|"&"
 NOT: "!"|"~"
-TRUE.2: /true/
-FALSE.2: /false/
+TRUE.2: /true(?!-*[a-zA-Z0-9_])/
+FALSE.2: /false(?!-*[a-zA-Z0-9_])/
 
 // Symbols cannot start with uppercase letters, because these are reserved. Moreover, any word between quotes is a symbol.
 // More in detail:
diff --git a/pylogics_modalities/parsers/pltl.lark b/pylogics_modalities/parsers/pltl.lark
index c804c66..230382b 100644
--- a/pylogics_modalities/parsers/pltl.lark
+++ b/pylogics_modalities/parsers/pltl.lark
@@ -44,7 +44,7 @@ ONCE.2: /O(?=[ "\(])/
 BEFORE.2: /Y(?=[ "\(])/
 WEAKBEFORE.2: /Z(?=[ "\(])/
 FIRST.2: /first/
-START.2: /start/
+START.2: /start(?!-*[a-zA-Z0-9_])/
 
 %ignore /\s+/
 
-- 
2.43.0


From 0d797f222e8c8f03b7af05e3550d140e2860173a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:03 +0000
Subject: [PATCH 17/27] fix: check the operands of boolean operators before
 simplifying them

---
 pylogics_modalities/syntax/base.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pylogics_modalities/syntax/base.py b/pylogics_modalities/syntax/base.py
index 7b6935c..7778bc3 100644
--- a/pylogics_modalities/syntax/base.py
+++ b/pylogics_modalities/syntax/base.py
@@ -145,6 +145,16 @@ class _MetaOp(_HashConsing):
                     f"found operand belonging to logic {logic}, which is forbidden"
                 )
 
+    def _check_operands(cls, *operands):
+        """Check all the operands, before a simplification drops some of them."""
+        enforce(
+            all(isinstance(operand, Formula) for operand in operands),
+            "some argument is not an instance of 'Formula'",
+            exception_cls=ValueError,
+        )
+        cls._check_not_forbidden_formalism(*operands)
+        _MonotoneBinaryOp._check_operands_same_logic(*operands)
+
 
 class _BinaryOp(Formula, metaclass=_MetaOp):
     """
@@ -381,7 +391,7 @@ class _MonotoneBinaryOp(_MetaOp):
         """Init the subclass object."""
         if len(args) == 0:
             raise ValueError("cannot accept zero arguments")
-        cls._check_operands_same_logic(*args)
+        cls._check_operands(*args)
         operands = cls._simplify_monotone_op_operands(cls, *args)
         if len(operands) == 1:
             return operands[0]
@@ -533,9 +543,10 @@ class _MetaImpliesOp(_MetaOp):
 
     def __call__(cls, *args, **kwargs):
         """Init the subclass object."""
-        operands = cls._simplify_operands(*args)
-        if len(operands) == 0:
+        if len(args) == 0:
             raise ValueError("cannot accept zero arguments")
+        cls._check_operands(*args)
+        operands = cls._simplify_operands(*args)
         if len(operands) == 1:
             return operands[0]
 
@@ -581,8 +592,9 @@ class _MetaEquivalenceOp(_MetaOp):
 
     def __call__(cls, *args, **kwargs):
         """Init the subclass object."""
-        operands = cls._simplify_operands(*args)
         enforce(len(args) > 0, "cannot accept zero arguments", ValueError)
+        cls._check_operands(*args)
+        operands = cls._simplify_operands(*args)
         if len(operands) == 1:
             return operands[0]
 
-- 
2.43.0


From c46f5eead9a209787492a32c57815429414ffe79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:03 +0000
Subject: [PATCH 18/27] fix: only quantify formulas

---
 pylogics_modalities/syntax/fol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylogics_modalities/syntax/fol.py b/pylogics_modalities/syntax/fol.py
index 43c5d22..8328d5f 100644
--- a/pylogics_modalities/syntax/fol.py
+++ b/pylogics_modalities/syntax/fol.py
@@ -115,7 +115,7 @@ class _Quantifier(_BinaryOp):
         :param formula:
         """
         enforce(isinstance(variable, Variable), f"{type(self).__name__}: expected {Variable}, got {type(variable)}")
-        enforce(formula.logic == Logic.FOL, "tail formula not valid")
+        enforce(isinstance(formula, Formula) and formula.logic == Logic.FOL, "tail formula not valid")
         self._variable = variable
         self._formula = formula
         self._operands = [variable, formula]
-- 
2.43.0


From 18ac7c7a6fc760102b6200a49c94da23013f9ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:14 +0000
Subject: [PATCH 19/27] fix: compare the formulas of a proof, not their text

---
 pylogics_modalities/deduction/fol/nd.py | 40 ++++++++++++-------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index 39b0bb2..a4e29fe 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -147,15 +147,15 @@ class NaturalDeduction(AbstractDeductionSystem):
 
     def _check_justification_and_e1(self, formula, *args):
         """Check if the deduction is valid according to and-elimination (1) rule."""
-        return isinstance(args[0], And) and str(formula) == str(args[0].operands[0])
+        return isinstance(args[0], And) and formula == args[0].operands[0]
 
     def _check_justification_and_e2(self, formula, *args):
         """Check if the deduction is valid according to and-elimination (2) rule."""
-        return isinstance(args[0], And) and str(formula) == str(args[0].operands[1])
+        return isinstance(args[0], And) and formula == args[0].operands[1]
 
     def _check_justification_and_i(self, formula, *args):
         """Check if the deduction is valid according to and-introduction rule."""
-        return str(formula) == str(args[0] & args[1])
+        return formula == (args[0] & args[1])
 
     def _check_justification_assumption(self, formula, *args):
         """Check if the deduction is valid according to assumption rule"""
@@ -167,56 +167,56 @@ class NaturalDeduction(AbstractDeductionSystem):
 
     def _check_justification_copy(self, formula, *args):
         """Check if the deduction is valid according to copy rule"""
-        return str(formula) == str(args[0])
+        return formula == args[0]
 
     def _check_justification_dneg_e(self, formula, *args):
         """Check if the deduction is valid according to double negation-elimination rule"""
-        return str(~~formula) == str(args[0])
+        return ~~formula == args[0]
 
     def _check_justification_dneg_i(self, formula, *args):
         """Check if the deduction is valid according to double negation-introduction rule"""
-        return str(formula) == str(~~args[0])
+        return formula == ~~args[0]
 
     def _check_justification_impl_e(self, formula, *args):
         """Check if the deduction is valid according to implies-elimination rule"""
-        return str(args[0] >> formula) == str(args[1])
+        return (args[0] >> formula) == args[1]
 
     def _check_justification_impl_i(self, formula, *args):
         """Check if the deduction is valid according to implies-introduction rule"""
         phi = args[0][0][1]
         psi = args[0][-1][1]
-        return str(formula) == str(phi >> psi)
+        return formula == (phi >> psi)
 
     def _check_justification_MT(self, formula, *args):
         """Check if the deduction is valid according to modus tollens rule"""
         if not (isinstance(formula, Not) and isinstance(args[1], Not)):
             return False
-        return str(formula.argument >> args[1].argument) == str(args[0])
+        return (formula.argument >> args[1].argument) == args[0]
 
     def _check_justification_neg_e(self, formula, *args):
         """Check if the deduction is valid according to negation-elimination rule"""
-        return str(~args[0]) == str(args[1]) and formula == FalseFormula()
+        return ~args[0] == args[1] and formula == FalseFormula()
 
     def _check_justification_neg_i(self, formula, *args):
         """Check if the deduction is valid according to negation-introduction rule"""
         phi = args[0][0][1]
         psi = args[0][-1][1]
-        return (psi == FalseFormula()) and (str(formula) == str(~phi))
+        return (psi == FalseFormula()) and (formula == ~phi)
 
     def _check_justification_or_e(self, formula, *args):
         """Check if the deduction is valid according to or-elimination rule"""
         phi_or_psi = args[0]
         phi, chi_1 = args[1][0][1], args[1][-1][1]
         psi, chi_2 = args[2][0][1], args[2][-1][1]
-        return (str(phi_or_psi) == str(phi | psi)) and (str(formula) == str(chi_1)) and (str(formula) == str(chi_2))
+        return (phi_or_psi == (phi | psi)) and (formula == chi_1) and (formula == chi_2)
 
     def _check_justification_or_i1(self, formula, *args):
         """Check if the deduction is valid according to or-introduction 1 rule"""
-        return isinstance(formula, Or) and str(formula.operands[0]) == str(args[0])
+        return isinstance(formula, Or) and formula.operands[0] == args[0]
 
     def _check_justification_or_i2(self, formula, *args):
         """Check if the deduction is valid according to or-introduction 2 rule"""
-        return isinstance(formula, Or) and str(formula.operands[1]) == str(args[0])
+        return isinstance(formula, Or) and formula.operands[1] == args[0]
 
     def _check_justification_premise(self, formula, *args):
         """Check if the deduction is valid according to premise rule"""
@@ -224,7 +224,7 @@ class NaturalDeduction(AbstractDeductionSystem):
 
     def _find_term(self, t: Term, *args):
         for x in args:
-            if isinstance(x, Term) and str(t) == str(x):
+            if isinstance(x, Term) and t == x:
                 return True
             if 'argument' in dir(x) and self._find_term(t, x.argument):
                 return True
@@ -275,7 +275,7 @@ class NaturalDeduction(AbstractDeductionSystem):
         if self._find_term(a, formula):
             return False  # Term occurs outside its assumption
         x, phi = formula.variable, formula.formula
-        return str(self._replace(phi, x, a)) == str(phi_x_a)
+        return self._replace(phi, x, a) == phi_x_a
 
     def _check_justification_forall_e(self, formula, *args):
         """Check if the deduction is valid according to forall-elimination rule"""
@@ -287,7 +287,7 @@ class NaturalDeduction(AbstractDeductionSystem):
             return False
         a = a[0]
         phi_x_a = self._replace(phi, x, a)
-        return str(phi_x_a) == str(formula)
+        return phi_x_a == formula
 
     def _check_justification_exists_i(self, formula, *args):
         """Check if the deduction is valid according to exists-introduction rule"""
@@ -299,7 +299,7 @@ class NaturalDeduction(AbstractDeductionSystem):
             return False
         a = a[0] if a else x
         phi_x_a = self._replace(phi, x, a)
-        return str(phi_x_a) == str(args[0])
+        return phi_x_a == args[0]
 
     def _check_justification_exists_e(self, formula, *args):
         """Check if the deduction is valid according to exists-elimination rule"""
@@ -309,12 +309,12 @@ class NaturalDeduction(AbstractDeductionSystem):
         a, phi_x_a = args[1][0][1], args[1][1][1]
         if not isinstance(a, Term) or self._find_term(a, phi):
             return False
-        if not str(phi_x_a) == str(self._replace(phi.formula, phi.variable, a)):
+        if not phi_x_a == self._replace(phi.formula, phi.variable, a):
             return False
         chi = args[1][-1][1]
         if self._find_term(a, chi):
             return False
-        return str(formula) == str(chi)
+        return formula == chi
 
     @staticmethod
     def Proof(proof: list):
-- 
2.43.0


From d2ba3f2c672b0fcd0b3aee32c038d663ae031a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:14 +0000
Subject: [PATCH 20/27] fix: assumptions are not premises

---
 pylogics_modalities/deduction/fol/nd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index a4e29fe..b962862 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -124,7 +124,7 @@ class NaturalDeduction(AbstractDeductionSystem):
                 if in_box and rule == self.rule.premise:
                     return False  # Premises belong to the outermost level
                 opening = 1 if isinstance(proof[0][1], Term) else 0
-                if in_box and rule == self.rule.assumption and index != opening:
+                if rule == self.rule.assumption and not (in_box and index == opening):
                     return False  # Assumptions can only open a subproof
                 if any(i not in sound for i in justiﬁcation[1:]):
                     return False  # Cited line does not exist, or is out of scope
-- 
2.43.0


From 395e2059be27c56e04dc8b5bea0635fba2e81092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:14 +0000
Subject: [PATCH 21/27] fix: modus tollens on negated formulas

---
 pylogics_modalities/deduction/fol/nd.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index b962862..1b14209 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -189,9 +189,7 @@ class NaturalDeduction(AbstractDeductionSystem):
 
     def _check_justification_MT(self, formula, *args):
         """Check if the deduction is valid according to modus tollens rule"""
-        if not (isinstance(formula, Not) and isinstance(args[1], Not)):
-            return False
-        return (formula.argument >> args[1].argument) == args[0]
+        return (~formula >> ~args[1]) == args[0]
 
     def _check_justification_neg_e(self, formula, *args):
         """Check if the deduction is valid according to negation-elimination rule"""
-- 
2.43.0


From 891b7b6ff973573bb21f1912bf2b5cde13fe1103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:14 +0000
Subject: [PATCH 22/27] fix: accept instances that replace nothing

---
 pylogics_modalities/deduction/fol/nd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index 1b14209..579468f 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -254,7 +254,7 @@ class NaturalDeduction(AbstractDeductionSystem):
         if isinstance(formula, (ForAll, Exists)):
             if formula.variable == x:
                 return formula
-            if self._find_term(formula.variable, a):
+            if self._find_term(formula.variable, a) and self._find_term(x, formula.formula):
                 raise PylogicsError(f"'{a}' is captured by the quantifier of '{formula}'")
             return type(formula)(formula.variable, self._replace(formula.formula, x, a))
         if isinstance(formula, (Predicate, Function)):
@@ -281,9 +281,9 @@ class NaturalDeduction(AbstractDeductionSystem):
             return False
         x, phi = args[0].variable, args[0].formula
         a = [n for m, n in self._find_diff(phi, formula) if m == x]
-        if len(a) != 1:
+        if len(a) > 1:
             return False
-        a = a[0]
+        a = a[0] if a else x
         phi_x_a = self._replace(phi, x, a)
         return phi_x_a == formula
 
-- 
2.43.0


From ff625a0980d24c536186b27108bca6a707ec10b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:14 +0000
Subject: [PATCH 23/27] fix: function terms are not arbitrary

---
 pylogics_modalities/deduction/fol/nd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index 579468f..34cc07b 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -266,7 +266,7 @@ class NaturalDeduction(AbstractDeductionSystem):
         if not isinstance(formula, ForAll):
             return False
         a, phi_x_a = args[0][0][1], args[0][-1][1]
-        if not isinstance(a, Term):
+        if not isinstance(a, (Variable, Constant)):
             return False
         if any(isinstance(c, Formula) and j[0] == self.rule.assumption for _, c, j in args[0]):
             return False  # Term is not arbitrary
@@ -305,7 +305,7 @@ class NaturalDeduction(AbstractDeductionSystem):
         if not isinstance(phi, Exists):
             return False
         a, phi_x_a = args[1][0][1], args[1][1][1]
-        if not isinstance(a, Term) or self._find_term(a, phi):
+        if not isinstance(a, (Variable, Constant)) or self._find_term(a, phi):
             return False
         if not phi_x_a == self._replace(phi.formula, phi.variable, a):
             return False
-- 
2.43.0


From 220da3fd8839e2f3b051faa54fdba2253889e8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:12 +0000
Subject: [PATCH 24/27] fix: a quantifier captures only terms that are put in
 its scope

---
 pylogics_modalities/deduction/fol/nd.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index 34cc07b..6adebd3 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -254,9 +254,10 @@ class NaturalDeduction(AbstractDeductionSystem):
         if isinstance(formula, (ForAll, Exists)):
             if formula.variable == x:
                 return formula
-            if self._find_term(formula.variable, a) and self._find_term(x, formula.formula):
+            scope = self._replace(formula.formula, x, a)
+            if scope != formula.formula and self._find_term(formula.variable, a):
                 raise PylogicsError(f"'{a}' is captured by the quantifier of '{formula}'")
-            return type(formula)(formula.variable, self._replace(formula.formula, x, a))
+            return type(formula)(formula.variable, scope)
         if isinstance(formula, (Predicate, Function)):
             return type(formula)(formula.name, [self._replace(o, x, a) for o in formula.operands])
         return formula
-- 
2.43.0


From 3c563fff20c8352c6ef5ff063d0b998c8e7777d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:28 +0000
Subject: [PATCH 25/27] fix: safe_get gives the default for negative indices
 out of range

---
 pylogics_modalities/helpers/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylogics_modalities/helpers/misc.py b/pylogics_modalities/helpers/misc.py
index f261cc3..6e4b81e 100644
--- a/pylogics_modalities/helpers/misc.py
+++ b/pylogics_modalities/helpers/misc.py
@@ -84,7 +84,7 @@ def safe_index(seq: Sequence, *args, **kwargs):
 
 def safe_get(seq: Sequence, index: int, default=None):
     """Get element at index, safe."""
-    return seq[index] if index < len(seq) else default
+    return seq[index] if -len(seq) <= index < len(seq) else default
 
 
 def find(seq: Sequence, condition: Callable[[Any], bool]) -> int:
-- 
2.43.0


From 115ce003b1de89b2459aa3c91a971c31f60ba01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:16 +0000
Subject: [PATCH 26/27] fix: checking a proof leaves the given sound lines
 unchanged

---
 pylogics_modalities/deduction/fol/nd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index 6adebd3..410694d 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -116,7 +116,7 @@ class NaturalDeduction(AbstractDeductionSystem):
         # )
 
         in_box = sound is not None
-        sound = sound if sound else {}
+        sound = dict(sound) if sound else {}
 
         for index, (row, content, justiﬁcation) in enumerate(proof):
             if isinstance(content, Formula):
-- 
2.43.0


From ab54b570528f320e6b239a1ea49152170e1e449d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 27/27] fix: boxes and diamonds have a text determined by their
 components

---
 pylogics_modalities/syntax/ldl.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pylogics_modalities/syntax/ldl.py b/pylogics_modalities/syntax/ldl.py
index 8138ea7..6596c63 100644
--- a/pylogics_modalities/syntax/ldl.py
+++ b/pylogics_modalities/syntax/ldl.py
@@ -112,6 +112,8 @@ class Prop(_UnaryOp, _RegularExpression):
 class _TemporalFormula(_LDL, ABC):
     """LDL Temporal formula."""
 
+    SYMBOL: str
+
     def __init__(self, regular_expression: Formula, tail_formula: Formula):
         """
         Initialize the formula.
@@ -146,14 +148,26 @@ class _TemporalFormula(_LDL, ABC):
         """Compute the hash."""
         return hash((type(self), self.regular_expression, self.tail_formula))
 
+    def __str__(self) -> str:
+        """Get the string representation."""
+        return f"({self.SYMBOL} {self.regular_expression} {self.tail_formula})"
+
+    def __repr__(self) -> str:
+        """Get an unambiguous string representation."""
+        return f"{type(self).__name__}({repr(self.regular_expression)}, {repr(self.tail_formula)})"
+
 
 class Diamond(_TemporalFormula):
     """Diamond formula."""
 
+    SYMBOL = "diamond"
+
 
 class Box(_TemporalFormula):
     """Box formula."""
 
+    SYMBOL = "box"
+
 
 End = partial(Box, Prop(TrueFormula()), FalseFormula(logic=Logic.LDL))
 Last = partial(Diamond, Prop(TrueFormula()), End())
-- 
2.43.0

