"""C16: proof steps only use lines in scope."""
from ..program import Program, model_text
from ..report import Violation
from ..vals import *  # noqa
from .c15 import forests, leaves, show
from .proofs import Proofs

LEVEL = "other"
SCHEMES = {
    "1, 2, ...": lambda i: i + 1, "0, 1, ...": lambda i: i, "decreasing": lambda i: 90 - i, "10, 20, ...": lambda i: 10 * i + 10,
    "texts": lambda i: f"r{i}",
}


class Line:
    def __init__(self, row, opening=False):
        self.row, self.opening, self.box = row, opening, None


def layout(tree, number):
    """Nodes of a proof: ("line", index, row) and ("box", row, items); the first line is a premise."""
    n = [1]

    def go(t):
        out = []
        for x in t:
            row = number(n[0])
            n[0] += 1
            out.append(("box", row, go(x)) if isinstance(x, tuple) else ("line", row))
        return out

    return go(tree)


def visible(items, target, lines, boxes, bare=False):
    """(rows of formulas, {row: items} of subproofs) in scope at the line with row target, or None.

    bare: subproofs open with a term alone, so that the row of the subproof is no line inside it."""
    lines, boxes = dict(lines), dict(boxes)
    for x in items:
        if x[0] == "line":
            if x[1] == target:
                return lines, boxes
            lines[x[1]] = True
            boxes.pop(x[1], None)
        else:
            inside = dict(lines) if bare else {**lines, x[1]: True}
            if bare:
                inside.pop(x[1], None)
            r = visible(x[2], target, inside, boxes, bare)
            if r is not None:
                return r
            boxes[x[1]] = x[2]
            lines.pop(x[1], None)
    return None


def rows_of(items):
    out = []
    for x in items:
        out.append(x[1])
        if x[0] == "box":
            out += rows_of(x[2])
    return out


def last_row(row, items):
    """Row of the last line of a subproof; None if it ends with a subproof."""
    if not items:
        return row
    return items[-1][1] if items[-1][0] == "line" else None


def run(root, rep):
    p = Program(root)
    p.all_modules()
    it = p.it
    bdd = it.bdd
    it.stub_meta = p.hash_consing()
    P = Proofs(p)
    where = P.N.qual
    thorough = rep.tier == "thorough"
    rep.rule = (
        "for every nesting of lines and subproofs up to a size and every step at every position: check accepts the step exactly "
        "when each citation is an earlier line of the step's own or an enclosing open level (for rules that discharge: an earlier "
        "closed subproof of such a level); assumptions are accepted exactly as the first formula of a subproof, premises exactly "
        "at the outermost level"
    )
    rep.explanation = (
        "NaturalDeduction.Proof and check are interpreted abstractly on every skeleton of a proof. All lines have the same "
        "content (an opaque formula) so that only the scope of the citations decides; the steps are copy, and_i (either "
        "citation), impl_i and or_e (either subproof). The verdict must hold on every path."
    )
    rep.assumptions = ["larger proofs behave like the skeletons up to the bound (same levels, same relative positions of the citation)"]

    def x_formula(st):
        return P.S("x")

    def predicate(st):
        return it.build(p.cls("fol", "Predicate"), [K("P"), it.alloc(st, HList(Tup([])))], st)

    def verdict(label, key, spec, want, st):
        acc = P.check(spec, st)
        rep.count("proofs")
        if want is True:
            q = P.sat(bdd.not_(acc))
            if q:
                exc = [e for e in p.raises() if P.sat(e[0])]
                how = f"raises {exc[0][2]!r}" if exc else "is rejected"
                return [Violation(f"{key}/rejects", f"{label} {how}", exc[0][3] if exc else where, model_text(bdd, bdd.pick(q)))]
        elif want is False:
            q = P.sat(acc)
            if q:
                return [Violation(f"{key}/accepts", f"{label} is accepted", where, model_text(bdd, bdd.pick(q)))]

    def spec_of(items, first, x, target, step, st, term=None, opens=None):
        """Lines of a proof whose line target is justified by step; the others are copies of the premise.

        Subproofs open with the assumption of opens (x by default), or with a term alone."""
        k = [0]

        def go(items):
            out = []
            for t in items:
                if t[0] == "line":
                    if t[1] == target:
                        out.append((t[1], step[0], step[1], step[2]))
                    else:
                        out.append((t[1], x, "copy", [first]))
                else:
                    box = []
                    if term:
                        k[0] += 1
                        box.append(("term", term(k[0], st)))
                    if opens != "nothing":
                        box.append((None, x if opens is None else opens, "assumption", []))
                    out.append((t[1], box + go(t[2])))
            return out

        return [(first, x, "premise", [])] + go(items)

    def variable(st):
        return it.build(p.cls("fol", "Variable"), [K("v")], st)

    def constant(i, st):
        return it.build(p.cls("fol", "Constant"), [K(f"t{i}")], st)

    def step(tree, scheme, target_i, rule, cites_i, content, terms=False):
        """One step of a skeleton."""
        number = SCHEMES[scheme]
        items = layout(tree, number)
        first = number(0)
        target = target_i
        st = p.fresh()
        x = predicate(st) if terms else x_formula(st)
        bare, opens = terms == "alone", None
        if bare:
            opens = "nothing"
        if rule == "exists_e":
            opens, x = x, it.build(p.cls("fol", "Exists"), [variable(st), x], st)
        lines, boxes = visible(items, target, {first: True}, {}, bare)
        f = x if content == "x" else P.imp(x, x, st) if content == "x >> x" else it.build(p.cls("fol", "ForAll"), [variable(st), x], st)
        if rule in ("copy", "and_i"):
            want = all(c in lines for c in cites_i)
        elif rule == "forall_i":
            want = cites_i[0] in boxes and last_row(None, boxes[cites_i[0]]) is not None
        elif rule == "exists_e":
            opening = [b for b in rows_of(items) if b in lines and not any(t == b for t in line_rows(items))]
            want = cites_i[0] in lines and cites_i[0] not in opening and cites_i[1] in boxes and last_row(None, boxes[cites_i[1]]) is not None
        elif rule == "impl_i":
            want = len(cites_i) == 1 and cites_i[0] in boxes and last_row(cites_i[0], boxes[cites_i[0]]) is not None
            if len(cites_i) == 2 and cites_i[0] in boxes and (
                    cites_i[1] in lines or cites_i[1] in boxes or last_row(cites_i[0], boxes[cites_i[0]]) == cites_i[1]):
                want = None  # a citation too many that is in scope, or the first and the last line for the subproof
        else:  # or_e
            ok = lambda c: c in boxes and last_row(c, boxes[c]) is not None
            want = cites_i[0] in lines and ok(cites_i[1]) and ok(cites_i[2])
        label = f"rows {scheme}: {rule} citing {', '.join(map(str, cites_i))} at row {target} of {draw(first, items)}"
        return verdict(label, f"{rule}/scope", spec_of(items, first, x, target, (f, rule, cites_i), st, constant if terms else None, opens), want, st)

    jobs = []

    def plan(tree, scheme, rules, terms=False):
        number = SCHEMES[scheme]
        items = layout(tree, number)
        first = number(0)
        rows = [first] + rows_of(items)
        missing = number(len(rows) + 3)
        for target in line_rows(items):
            lines, boxes = visible(items, target, {first: True}, {}, terms == "alone")
            every = rows + [missing]
            cites = []
            if "copy" in rules:
                cites += [("copy", [r], "x") for r in every]
            if "and_i" in rules:
                cites += [("and_i", [first, r], "x") for r in every] + [("and_i", [r, first], "x") for r in every if r != first]
            if "impl_i" in rules:
                cites += [("impl_i", [r], "x >> x") for r in every]
            if "forall_i" in rules:
                cites += [("forall_i", [r], "forall v. x") for r in every]
            if "exists_e" in rules and boxes:
                b = [b for b in boxes if last_row(None, boxes[b]) is not None][:1]
                cites += [("exists_e", [first, r], "x") for r in every] + [("exists_e", [r, c], "x") for r in every if r != first for c in b]
            if "range" in rules:
                cites += [("impl_i", [r, s], "x >> x") for r in every for s in every if s != r and (r in boxes or rows.index(r) + 1 < len(rows) if r in rows else False)]
            if "or_e" in rules:
                ok = [b for b in boxes if last_row(b, boxes[b]) is not None]
                if ok:
                    b = ok[0]
                    cites += [("or_e", [first, b, r], "x") for r in every] + [("or_e", [first, r, b], "x") for r in every]
                    cites += [("or_e", [r, b, ok[-1]], "x") for r in every]
            for rule, cs, content in cites:
                jobs.append((f"{rule} {cs} at {target} of {draw(first, items)}" + (f" (terms {terms})" if terms else ""),
                             step, tree, scheme, target, rule, cs, content, terms))

    def line_rows(items):
        out = []
        for t in items:
            out += [t[1]] if t[0] == "line" else line_rows(t[2])
        return out

    def draw(first, items):
        go = lambda its: " ".join(str(t[1]) if t[0] == "line" else f"{t[1]}[{go(t[2])}]" for t in its)
        return f"{first} {go(items)}".strip()

    def all_filled(tree):
        return all(x and all_filled(x) for x in tree if isinstance(x, tuple))

    top = 6 if thorough else 5
    for n in range(1, top + 1):
        for tree in forests(n):
            plan(tree, "1, 2, ...", ("copy", "and_i", "impl_i", "or_e", "range") if n < top else ("copy", "impl_i"))
            if n <= top - 2:
                for s in SCHEMES:
                    if s != "1, 2, ...":
                        plan(tree, s, ("copy", "impl_i"))
                plan(tree, "1, 2, ...", ("copy",), terms=True)
            if n < top:
                plan(tree, "1, 2, ...", ("exists_e",), terms=True)
                if all_filled(tree):
                    plan(tree, "1, 2, ...", ("copy", "forall_i"), terms="alone")

    # where assumptions and premises may stand
    def placed(tree, target, rule, terms):
        st = p.fresh()
        x = predicate(st) if terms else x_formula(st)
        number = SCHEMES["1, 2, ..."]
        items = layout(tree, number)
        outermost = any(t == ("line", target) for t in items)
        want = rule == "premise" and outermost
        label = f"{rule} at row {target} of {draw(1, items)}" + (" (with terms)" if terms else "")
        return verdict(label, f"{rule}/place", spec_of(items, 1, x, target, (x, rule, []), st, constant if terms else None), want, st)

    for n in range(1, top):
        for tree in forests(n):
            for t in line_rows(layout(tree, SCHEMES["1, 2, ..."])):
                for rule in ("assumption", "premise"):
                    for terms in (False, True):
                        jobs.append((f"{rule} at {t} of {show(tree)}, terms {terms}", placed, tree, t, rule, terms))

    def opening(rule, term, depth, tail, bare):
        st = p.fresh()
        x = predicate(st)
        box = [(None, x, rule, [1] if rule == "copy" else [])]
        if term:
            box = [("term", constant(1, st))] + box
        if tail:
            box.append((9, x, tail, [2] if tail == "copy" else []))
        if bare and rule == "copy":
            return None
        spec = [(2, box)]
        for d in range(depth):
            spec = [(30 + d, [(None, x, "assumption", []), (2, box)])]
            box = spec[0][1]
        want = {"assumption": True, "premise": False, "copy": None}[rule]
        if tail in ("assumption", "premise"):
            want = False
        label = f"a subproof that opens with {'a term and ' if term else ''}{rule}, then {tail or 'nothing'}, at depth {depth + 1}{' in a proof without premises' if bare else ''}"
        return verdict(label, f"{rule}/opening", ([] if bare else [(1, x, "premise", [])]) + spec, want, st)

    for rule in ("assumption", "premise", "copy"):
        for term in (False, True):
            for depth in (0, 1, 2):
                for tail in (None, "copy", "assumption", "premise"):
                    if rule == "copy" and tail == "copy":
                        continue
                    for bare in (False, True):
                        jobs.append((f"opening {rule} {term} {depth} {tail}{' alone' if bare else ''}", opening, rule, term, depth, tail, bare))

    def circular(where_, depth):
        """A subproof that is cited by its own lines, or before it."""
        st = p.fresh()
        fol = lambda n: p.cls("fol", n)
        a, v = it.build(fol("Constant"), [K("a")], st), it.build(fol("Variable"), [K("v")], st)
        pred = lambda t: it.build(fol("Predicate"), [K("P"), it.alloc(st, HList(Tup([t])))], st)
        every = it.build(fol("ForAll"), [v, pred(v)], st)
        if where_ == "opening":
            box = [("term", a), (None, every, "forall_i", [2]), (3, pred(a), "forall_e", [2])]
        elif where_ == "inside":
            box = [("term", a), (3, every, "forall_i", [2]), (4, pred(a), "forall_e", [3])]
        else:
            box = [("term", a), (3, pred(a), "forall_e", [9])]
        spec = [(2, box), (9, every, "forall_i", [2])]
        for d in range(depth):
            spec = [(20 + d, [(None, predicate(st), "assumption", [])] + spec)]
        return verdict(f"a circular proof of {it.canon_v(every, st)!r} ({where_}), at depth {depth}", "circular", spec, False, st)

    for w in ("opening", "inside", "after"):
        for depth in (0, 1, 2):
            jobs.append((f"circular proof ({w}, depth {depth})", circular, w, depth))
    rep.counts["largest_skeleton"] = top
    rep.sample(f"{len(jobs)} steps over all nestings of up to {top} lines and subproofs")
    rep.parallel(jobs)
