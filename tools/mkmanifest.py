"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
AI = "abstract interpretation of the source (gated value flow, BDD path conditions)"
COMMON = (" Trusts the Python semantics modelled by the abstract interpreter (sa/) and its uniformity "
          "assumption for operand lists longer than the analysed bound; constructs it cannot model are reported as UNDECIDED, not as holding.")
CHECKS = {
 "C01": (AI + " against truth tables", "Every connective at every arity up to a bound is evaluated abstractly on opaque subformulas; the result BDD must equal the truth table; induction on the recursive call covers any depth."),
 "C02": (AI + " of atom evaluation over opaque interpretations", "Atom evaluation over opaque sets and mappings is compared with membership / mapped truth for an opaque name."),
 "C03": (AI + " of the constructors against truth tables", "Constructors are run abstractly on opaque, negated, constant and nested operands; under all equality patterns the truth of the built formula must equal the truth of the requested one. One recorded finding (Equivalence removes duplicates)."),
 "C04": ("static simulation of the LALR grammar over abstractly printed templates of formulas", "Printers are interpreted abstractly on formulas with opaque components; the printed token pattern is parsed by tables built from the .lark sources and the transformer methods are interpreted on the parse tree; the result must be structurally the original. Bounded nesting of operators (two levels in quick, three in thorough)."),
 "C05": ("static grammar analysis and abstract interpretation of the transformer methods", "Every documented spelling and arity up to an adaptive bound is parsed with tables built from the grammar sources; the term built by the transformers, interpreted abstractly, must be the documented operator over the operands in order."),
 "C06": ("static grammar analysis (LALR tables built from the sources) and abstract interpretation of the transformer methods", "Every pair of operators in every operand position, with and without parentheses, is parsed with tables built from the grammar sources and compared with the documented precedence."),
 "C07": ("regular-language inclusion (regex to DFA over Unicode) and static grammar analysis", "The regular expressions of the atom constructor and of the grammar terminals are turned into automata and compared with the documented language over all strings; the contextual lexer's priorities are part of the automaton product."),
 "C08": (AI + " of __eq__ and __hash__ over all pairs of shapes", "Every pair of kinds of formula is built with opaque components; abstract interpretation of the equality and hash methods must agree with structural equality, be reflexive, symmetric and transitive, never raise, and equality must entail equal hashes. By induction on depth (components are opaque values with the axioms of equality)."),
 "C09": (AI + " of the pickling and copying protocol", "The reduce / getstate / setstate / getnewargs protocol is interpreted abstractly for every kind of formula; the result must equal the original and have a hash that agrees with a fresh equal formula, also when the hash function differs (another process), and the original must be unchanged."),
 "C10": (AI + " of the caching metaclass over histories of constructions", "Histories of constructions with opaque components, failed constructions and cache resets are interpreted abstractly, then a construction is compared with the same call with the cache bypassed, for all valuations of the equalities; the cache must be empty after a reset. Histories up to a bound extended by the integer constants of the code. One recorded finding (equal formulas are not the same object)."),
 "C11": (AI + " of the constructors over kinds of operands", "Every operator is constructed abstractly on an operand of each logic (and on values that are not formulas) in every position and call form; constructions outside the admitted logics must raise on every path, and operands of the operator's own logic must be accepted."),
 "C12": (AI + " of every operation over heaps, comparing observations before and after", "Every operation is interpreted abstractly on every kind of formula with opaque (and one level of compound) components; what the accessors, text and hash show must be unchanged on every returning and raising path, and writing to what accessors return or to the containers given must not show. Compound components to one level; single operations (sequences follow because nothing is changed)."),
 "C13": (AI + " of the negation methods over all shapes", "Negation by constructor and operator is interpreted abstractly, twice, on every kind of formula with opaque components, including classes that override negation; the result must be structurally the original, and negated constants the opposite constant of the same logic."),
 "C15": (AI + " of the proof checker over proof skeletons with opaque formulas", "Every rule is checked abstractly on proofs whose lines and conclusion are opaque formulas of every shape the rule can inspect; the condition under which the step is accepted must be exactly the rule's schema, for all equalities between the opaque parts."),
 "C16": (AI + " of the proof checker over proof skeletons and citations", "Every nesting of subproofs up to a bound, with every citation of every line, is checked abstractly; acceptance must coincide with the scoping discipline. Bounded number of lines and nesting."),
 "C17": (AI + ": effect analysis of every call, and histories of calls compared with a fresh run", "Every operation is interpreted abstractly; writes to module state, class attributes or arguments that later calls can read are collected with the path that reaches them, and every operation is repeated after histories of other (also failing) calls and must give the same result in all valuations. Histories up to a bound extended by the integer constants of the code."),
 "C18": (AI + " of the proof checker and of its substitution over shapes of formulas", "Quantifier steps over every shape of formula with opaque terms and subformulas are checked abstractly; the condition of acceptance must be substitution without capture and the freshness conditions, for all equalities between the parts; recursion is cut at opaque subformulas."),
 "C19": (AI + " of the string forms over all shapes", "Every operator is printed abstractly with components whose texts are opaque; the text must name the operator and contain every component once, delimited and in order, for every number of operands up to a bound; operator names within a logic are compared for being distinct."),
 "C20": (AI + " of the constructors over arities and call forms", "Every operator is constructed abstractly with opaque components in every call form; its accessors must give exactly these components in order; every wrong number of arguments must raise on all paths."),
 "C24": (AI + " of the helper functions over opaque arguments", "Every helper is interpreted abstractly on opaque arguments (and on lists of opaque elements with opaque predicates up to a bound) and compared with its documented contract on all paths."),
 "C14": (AI + " of the logic properties over all shapes", "Every kind of formula is built abstractly with operands of every logic it admits; the reported logic must be the documented one, also after negation, simplification and copying."),
}
NA = {
 "C21": "The depth at which recursion exhausts the interpreter stack and the memory used are runtime quantities of the Python implementation and of the input; no sound static bound exists (the code is recursive by design).",
 "C22": "Needs a model of the interpreter's thread scheduling of dictionary operations and attribute writes; a static argument in reach could only restate that shared caches are unsynchronised, which is not a violation by itself under the GIL.",
 "C23": "Global soundness of the calculus is a theorem about first-order semantics, a proof-assistant task; statically we decide the rule-by-rule and scope conditions instead (C15, C16, C18).",
}


def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    have = [i for i in ids if i in CHECKS]
    rest = [i for i in ids if i not in CHECKS]
    m = {
        "version": 1,
        "setup_cmd": f"{PY} tools/setup.py",
        "checks": [
            {"property": i,
             "quick_cmd": f"{PY} check.py {i}",
             "thorough_cmd": f"{PY} check.py {i} --thorough",
             "technique": CHECKS[i][0], "level": "other",
             "level_note": CHECKS[i][1] + COMMON}
            for i in have],
        "not_applicable": [{"property": i, "reason": NA.get(i, "Check not built yet.")} for i in rest],
        "notes": "All checks analyse /repo's current source text; none imports or runs pylogics_modalities. See DESIGN.md.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
