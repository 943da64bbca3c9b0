"""Writes properties.jsonl."""
import json, os
P = "pylogics_modalities/"
props = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": [P + f for f in files],
         "mechanism": [{"name": n, "where": P + w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": P + w} for n, m, w in state]
    props.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": text},
                  "why_tests_cant": why, "anchors": a})


prop("C01", "Propositional evaluation agrees with the truth tables",
     "Evaluating a propositional formula under an interpretation returns exactly the boolean that the truth tables of its connectives assign, for every connective (negation, n-ary conjunction, disjunction, equivalence, and implication read right-associatively), both constants and atoms. Evaluation is defined for every propositional formula under every interpretation.",
     ["inputs"], "every propositional formula, any nesting and any number of operands, under every interpretation",
     "Tests evaluate a handful of two-operand formulas on two or three interpretations; the truth of arbitrarily nested n-ary formulas is never sampled.",
     ["semantics/pl.py", "semantics/base.py"],
     [("dispatch on the class of the formula", "semantics/pl.py evaluate_pl"),
      ("n-ary boolean semantics", "semantics/base.py base_semantics and *_semantics")],
     ["evaluate_pl(formula, interpretation)"])

prop("C02", "An interpretation says which atoms hold, however it is given",
     "A set-like interpretation makes exactly its members true; a mapping makes an atom true exactly when it maps the atom's name to a true value, and atoms that are not mentioned are false in both forms. The name is compared exactly, and the interpretation given by the caller is not modified.",
     ["inputs"], "every interpretation of either kind (including mappings that map names to False, and empty ones) and every atom name",
     "Tests use a few one- or two-atom interpretations; they do not cover mappings to false, missing atoms or every accepted collection type.",
     ["semantics/pl.py"], [("conversion of the interpretation", "semantics/pl.py PropInterpretation / _convert_to_set / evaluate_pl_atomic")],
     ["evaluate_pl(atom, interpretation)"])

prop("C03", "Simplification at construction preserves truth",
     "Building a conjunction, disjunction, negation, implication or equivalence with the constructors or the operators ~, &, | and >> yields a formula with the same truth value, in every interpretation, as the formula literally asked for. In particular flattening, removal of duplicates and identities, absorption, complement detection and ex-falso never change what the formula means.",
     ["inputs"], "every list of operands, including repeated, nested, complementary, constant and negated ones, in any order",
     "Tests check some simplifications by equality on chosen operands; the interaction of flattening, complements, constants and order over all operand lists is out of their reach.",
     ["syntax/base.py"],
     [("monotone simplification", "syntax/base.py _MonotoneBinaryOp._simplify_monotone_op_operands"),
      ("implication and equivalence simplification", "syntax/base.py _MetaImpliesOp, _MetaEquivalenceOp"),
      ("negation", "syntax/base.py Not.__new__, __invert__")],
     ["And(...)", "Or(...)", "Not(...)", "Implies(...)", "Equivalence(...)"])

prop("C04", "Printed formulas parse back to the same formula",
     "For every formula of PL, LTL, PLTL and LDL, printing it and parsing the text with the parser of its logic gives a formula equal to the original one. This holds for every operator, constant and modality, at any nesting depth and number of operands, including temporal operators over boolean ones and regular expressions inside LDL modalities.",
     ["inputs", "programs"], "every formula over every operator of the four parseable logics, with atom names that are not reserved words of the grammar",
     "Tests print about one formula per operator and compare with a literal string; the round trip over nestings of operators is infinite.",
     ["utils/to_string.py", "parsers/pl.py", "parsers/ltl.py", "parsers/pltl.py", "parsers/ldl.py", "parsers/pl.lark", "parsers/ltl.lark", "parsers/pltl.lark", "parsers/ldl.lark"],
     [("printers, one per class", "utils/to_string.py to_string and its registrations"),
      ("grammars and transformers", "parsers/*.lark, parsers/*.py")],
     ["to_string(f)", "parse_pl / parse_ltl / parse_pltl / parse_ldl"])

prop("C05", "Each symbol of the languages builds the operator it denotes",
     "In each of the four languages, every spelling of every operator, constant and modality documented in the grammars builds exactly the documented operator of that logic over the operands in the written order, with none lost, repeated or swapped. This holds for any number of operands in a chain and any number of stacked unary operators.",
     ["inputs", "programs"], "every operator spelling, every arity of chained operators and unary prefix, over every operand",
     "Tests parse single examples of most operators and compare with hand-written formulas; alternative spellings and longer chains are mostly unsampled.",
     ["parsers/base.py", "parsers/pl.py", "parsers/ltl.py", "parsers/pltl.py", "parsers/ldl.py", "parsers/pl.lark", "parsers/ltl.lark", "parsers/pltl.lark", "parsers/ldl.lark"],
     [("grammar rules and terminals", "parsers/*.lark"), ("transformer methods", "parsers/*.py")],
     ["parse_pl / parse_ltl / parse_pltl / parse_ldl"])

prop("C06", "Text has one reading: documented precedence and grouping",
     "Whenever operators are mixed without parentheses the text is read with the documented precedence (from loosest: equivalence, implication, disjunction, conjunction, the binary temporal operators in grammar order, unary operators), and parentheses always override it. Redundant parentheses and additional spaces never change the formula, and chains of one operator form a single operator over all operands.",
     ["inputs", "programs"], "every combination of operators, parentheses and spaces in the four languages",
     "Tests check a couple of precedence examples per logic; every pair of operators in every position is not sampled.",
     ["parsers/pl.lark", "parsers/ltl.lark", "parsers/pltl.lark", "parsers/ldl.lark", "parsers/base.py"],
     [("layered grammar rules", "parsers/*.lark"), ("chain handling", "parsers/base.py _starred_binaryop")],
     ["parse_pl / parse_ltl / parse_pltl / parse_ldl"])

prop("C07", "Atoms accept exactly the documented symbol language",
     "An atom can be created exactly when its name is in the documented symbol language (lower-case or underscore start, then word characters with hyphens only inside, or printable characters between double quotes); every other string is rejected. The parsers accept as a symbol every such name and nothing more, and the name of the atom is exactly the text of the symbol.",
     ["inputs"], "every string",
     "Tests try a short list of good and bad names; the language is infinite and defined twice, in the syntax tree and in the grammar.",
     ["syntax/base.py", "helpers/misc.py", "parsers/pl.lark", "parsers/ltl.lark", "parsers/pltl.lark"],
     [("name regex", "syntax/base.py AtomName.REGEX"), ("full match", "helpers/misc.py RegexConstrainedString.__init__"),
      ("grammar terminal", "parsers/pl.lark SYMBOL_NAME")],
     ["Atomic(name)", "parse_*(name)"])

prop("C08", "Formula equality is structural and consistent with hashing",
     "Two formulas compare equal exactly when they have the same operator, the same logic and equal components (in order, except that conjunction, disjunction, equivalence and regular-expression union are insensitive to order and repetition); comparison never raises and is an equivalence relation. Equal formulas always have equal hashes, so formulas can be used in sets and as dictionary keys.",
     ["inputs"], "every pair of formulas, terms and predicates of every logic, and every pair of a formula and any other object",
     "Tests compare a few formulas; the relation between the equality and hash methods of some thirty classes over all pairs is out of their reach.",
     ["syntax/base.py", "syntax/fol.py", "syntax/ldl.py", "syntax/ltl.py", "syntax/pltl.py", "helpers/cache_hash.py"],
     [("equality and hash methods", "syntax/base.py _BinaryOp, _UnaryOp, _CommutativeBinaryOp, AbstractAtomic; syntax/fol.py; syntax/ldl.py"),
      ("cached hash", "helpers/cache_hash.py _cache_hash")],
     ["==, hash()"])

prop("C09", "Formulas survive pickling and copying",
     "Any formula, term or predicate can be pickled and unpickled, copied and deep-copied, and the result equals the original and has a hash that agrees with freshly built equal formulas, even in another process. Saving a formula never changes the original.",
     ["inputs", "histories"], "every formula of every class, with or without its hash already computed, in the same or in another interpreter",
     "No test pickles a formula; whether the state saved by each class restores an equal object depends on every class.",
     ["helpers/cache_hash.py", "syntax/base.py", "syntax/fol.py", "syntax/ldl.py"],
     [("state hooks", "helpers/cache_hash.py _getstate, _setstate, Hashable"), ("constructor arguments", "syntax/base.py Not.__getnewargs__")],
     ["pickle, copy"])

prop("C10", "Construction never hands out a different formula",
     "Constructing a formula returns a formula equal to the one requested whatever was constructed before, before or after a reset of the cache: the cache is keyed by logic and structural equality and never substitutes a different formula. Formulas built from equal arguments are equal, and (hash consing) are the same object.",
     ["histories", "inputs"], "every history of constructions and cache resets, for every class and arguments",
     "A cache defect shows only after particular histories of constructions with colliding keys, which tests do not enumerate.",
     ["syntax/base.py"], [("hash consing", "syntax/base.py _HashConsing.__call__, reset_cache, get_cache_context")],
     ["constructors", "reset_cache()"])

prop("C11", "Operators only accept operands of the logics they are defined for",
     "Constructing an operator with an operand of a logic it does not admit, with boolean operands of different logics, or with something that is not a formula, is rejected with an error for every position of the offending operand, and never yields a formula. Every operator accepts operands of its own logic.",
     ["inputs"], "every operator, every logic of every operand, in every position and however passed",
     "Tests try a few wrong combinations; operators times logics times operand positions are not enumerated.",
     ["syntax/base.py", "syntax/ltl.py", "syntax/pltl.py", "syntax/ldl.py"],
     [("allowed and forbidden logics", "syntax/base.py _MetaOp._check_not_forbidden_formalism, _MonotoneBinaryOp._check_operands_same_logic"),
      ("declarations", "syntax/{ltl,pltl,ldl}.py ALLOWED_LOGICS, FORBIDDEN_LOGICS")],
     ["constructors"])

prop("C12", "Formulas are immutable values",
     "No operation of the library (comparing, hashing, printing, negating, combining, evaluating, parsing, proof checking, serialising, or reading a component) changes an existing formula or an object passed in by the caller. What accessors return cannot be used to alter the formula.",
     ["histories", "inputs"], "every formula and every sequence of library operations on it",
     "Aliasing defects appear only after later mutation of a shared object; tests never mutate what accessors return nor compare a formula before and after use.",
     ["syntax/base.py", "syntax/fol.py", "syntax/ldl.py", "helpers/cache_hash.py"],
     [("copies at the boundary", "syntax/base.py _BinaryOp.__init__, operands; helpers/cache_hash.py _getstate")],
     ["accessors, operators"])

prop("C13", "Negation is an involution with the documented dualities",
     "Negating any formula twice, with the constructor or with ~, gives back a formula equal to the original, and negating a boolean constant of any logic gives the opposite constant of the same logic. Negation never changes the logic of the formula and never drops or alters its argument.",
     ["inputs"], "every formula of every logic",
     "Tests negate a few atoms; the involution over all classes, including ones that override negation, is not sampled.",
     ["syntax/base.py", "syntax/ltl.py", "syntax/pltl.py", "syntax/ldl.py", "syntax/fol.py"],
     [("negation", "syntax/base.py Not.__new__, Not.__invert__, Formula.__invert__, TrueFormula/FalseFormula.__invert__")],
     ["~f, Not(f)"])

prop("C14", "Every formula reports the logic it belongs to",
     "The logic reported by a formula is the logic of the operator that builds it (the propositional, linear-temporal, past, dynamic, first-order or regular-expression formalism), and boolean combinations report the logic of their operands. It is fixed at construction and the same however the formula was obtained.",
     ["inputs"], "every formula of every class",
     "Tests check the logic of a few parsed formulas only.",
     ["syntax/base.py", "syntax/pl.py", "syntax/ltl.py", "syntax/pltl.py", "syntax/ldl.py", "syntax/fol.py"],
     [("logic properties", "syntax/*.py logic")], ["formula.logic"])

prop("C15", "The proof checker accepts only correct propositional inferences",
     "A natural-deduction step by a propositional rule (conjunction, disjunction, implication, negation, falsity, double negation, modus tollens, excluded middle, proof by contradiction, copy and so on) is accepted only if the cited lines and the conclusion are an instance of that rule. Every such instance whose citations are in scope is accepted. (Implication is what >> builds; a step whose check raises an error is not accepted; instances are compared as formulas, with operands in the written order.)",
     ["inputs", "histories"], "every proof, every rule, every shape of the cited lines and of the conclusion",
     "Tests check about one good and one bad proof per rule; the unsound variants of each rule are unbounded.",
     ["deduction/fol/nd.py", "deduction/fol/base.py"],
     [("one checker per rule", "deduction/fol/nd.py NaturalDeduction")], ["NaturalDeduction().check_proof(proof)"])

prop("C16", "Proof steps only use lines in scope",
     "A proof is accepted only if every line cites earlier lines or whole closed subproofs that are visible at that line: never a later line, the line itself, a missing line, or the inside of a closed subproof; and such citations are accepted. Assumptions only open subproofs, premises stand outside them, and a discharged assumption is no longer available.",
     ["inputs", "histories"], "every proof, whatever its nesting of subproofs and its citations",
     "Scope errors depend on the nesting of boxes and the position of the citation; tests contain a few well-formed proofs and a few malformed ones.",
     ["deduction/fol/base.py", "deduction/fol/nd.py"],
     [("scope of citations", "deduction/fol/base.py / nd.py check_proof and the citation lookup")],
     ["NaturalDeduction().check_proof(proof)"])

prop("C17", "Library operations are pure and repeatable",
     "Parsing, printing, evaluating, comparing and proof checking depend only on their arguments: repeating a call, or interleaving other calls or failed calls, gives the same answer, and no call changes module state observable by later calls other than the formula cache. A parser that failed on one text still parses every other text as before.",
     ["histories", "inputs"], "every sequence of library calls, including calls that raise",
     "Hidden state shows only for particular sequences of calls; tests run each operation once.",
     ["parsers/base.py", "parsers/ldl.py", "semantics/pl.py", "deduction/fol/nd.py", "deduction/fol/base.py", "utils/to_string.py"],
     [("stateless transformers and checkers", "parsers/base.py AbstractParser.__call__; deduction/fol/nd.py; semantics/pl.py")],
     ["parse_*", "to_string", "evaluate_pl", "check_proof"])

prop("C18", "The proof checker enforces the quantifier rules",
     "A step by a rule for quantifiers is accepted only if the instance is obtained by replacing exactly the free occurrences of the quantified variable by one and the same term throughout, without capture, and the side conditions on fresh terms hold (a variable or constant that occurs nowhere outside its subproof). Correct instances are accepted.",
     ["inputs", "histories"], "every proof step by a quantifier rule, every formula, variable and term",
     "Tests check one or two instances of each quantifier rule; unsound substitutions and violated side conditions are unbounded.",
     ["deduction/fol/nd.py", "deduction/fol/base.py", "syntax/fol.py"],
     [("substitution and difference", "deduction/fol/nd.py _replace, _find_diff"), ("side conditions", "deduction/fol/nd.py forall_i, exists_e")],
     ["NaturalDeduction().check_proof(proof)"])

prop("C19", "The native text of a formula identifies its structure",
     "The native string form of an operator formula names its operator and contains the text of every component exactly once, in order and delimited, so formulas that differ in operator or in number or order of components do not share a text. No two operators of one logic use the same name, and the constants true and false never share a text.",
     ["inputs"], "every formula of every class that has a native string form",
     "Tests compare a few strings; whether any two of the classes collide is a property of all pairs.",
     ["syntax/base.py", "syntax/ltl.py", "syntax/pltl.py", "syntax/ldl.py", "syntax/fol.py", "syntax/pl.py"],
     [("string methods and operator symbols", "syntax/*.py __str__, SYMBOL")], ["str(formula)"])

prop("C20", "Constructors keep exactly the components they were given",
     "A formula that is not simplified exposes exactly the components it was built with, in the order given; unary, modal and atomic constructors accept exactly one argument per component and n-ary ones two or more (a boolean connective over one operand may be the operand itself). A wrong number of arguments is rejected with an error, never silently truncated or accepted.",
     ["inputs"], "every class, any number of constructor arguments",
     "Tests build each class once or twice with the right arguments.",
     ["syntax/base.py", "syntax/ltl.py", "syntax/pltl.py", "syntax/ldl.py", "syntax/fol.py", "syntax/pl.py"],
     [("constructors and accessors", "syntax/*.py __init__, operands, argument, name, ...")],
     ["constructors and accessors"])

prop("C21", "Parser and printer scale to any formula size",
     "Parsing, printing and evaluating terminate for every formula, and do so without exhausting the interpreter's recursion limit or memory however deep or wide the formula is.",
     ["inputs"], "every formula, of any depth and width",
     "Tests use formulas of depth two or three.",
     ["utils/to_string.py", "semantics/base.py", "parsers/base.py"], [("recursion over the formula", "utils/to_string.py, semantics/base.py")])

prop("C22", "Concurrent construction of formulas is safe",
     "Threads that construct, compare and print formulas at the same time obtain the same results as if they ran one after the other.",
     ["schedules"], "every interleaving of threads using the library",
     "Tests are single-threaded.",
     ["syntax/base.py", "helpers/cache_hash.py"], [("shared formula cache and memoised hashes", "syntax/base.py _HashConsing; helpers/cache_hash.py")])

prop("C23", "Accepted natural-deduction proofs are semantically sound",
     "Whenever the proof checker accepts a proof, its conclusion is true in every first-order structure in which its premises are true.",
     ["inputs", "histories"], "every accepted proof and every first-order structure",
     "Tests check acceptance of example proofs, never entailment.",
     ["deduction/fol/nd.py", "deduction/fol/base.py"], [("rule checkers", "deduction/fol/nd.py")])

prop("C24", "Helper contracts hold for every argument",
     "The helper functions keep their documented contracts for all arguments: enforcing a condition raises the requested error exactly when it is false, defaults are used exactly when the argument is absent (not merely falsy), searches return the first match or their documented not-found value, and conversions give a set or sequence of the documented mutability with the same elements. Making a boolean constant gives the constant of the requested value and logic.",
     ["inputs"], "every argument, including falsy ones, empty collections and out-of-range indices",
     "Tests barely touch the helpers, and never with falsy but present arguments or boundary indices.",
     ["helpers/misc.py", "syntax/base.py"],
     [("helpers", "helpers/misc.py enforce, ensure, ensure_set, ensure_sequence, safe_index, safe_get, find"), ("constants", "syntax/base.py make_boolean, ensure_formula")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
