"""C14 - rewriting a grammar without changing its meaning changes nothing."""
import itertools
import re

from hypothesis import strategies as st

from vlib import clih, gram
from vlib.core import Probe, Sub, ensure, eq
from vlib.checks.C09 import acted, decorate
from vlib.checks.C12 import answer


# ---------------------------------------------------------------- layout

# text between two tokens of a grammar; every one stands for a blank
GAPS = [" ", "\t", "  \t ", "{n}", " {n}{n} ", "{n}\t", "/**/", "/***/", "/* c */", "/* // */", "/* a{n} b */", "/* * / */", "/* \" */", "/* ; | << */", "/* # */{n}",
        "//{n}", "// x;{n}", "// \"open{n}", "# <<{n}", "#{n}", "# /* {n}", "// */{n}", "## }){n}", "/*{n}*//*{n}*/", "//{n}//{n}", "/* >> */ ", "// >>{n}", "/* \\ */", "// \\{n}"]
# inside an action >> ends the action and a backslash starts an escape sequence
SAFE = [g for g in GAPS if ">>" not in g and "\\" not in g]


class Wild(gram.Text):
    """Writes a grammar with every kind of layout between its tokens."""

    def __init__(self, style, newline):
        super().__init__(style)
        self.newline = newline
        self.inside = False

    def gap(self):
        n = self.pick(3)
        pool = SAFE if self.inside else GAPS
        return "".join(pool[self.pick(len(pool))] for _ in range(n)).replace("{n}", self.newline) or " "

    def loose(self):
        """A place where nothing is needed between two tokens."""
        return self.gap() if self.pick(2) else ""

    def spread(self, src):
        """The same text with layout around every mark of an action."""
        out = []
        for part in re.findall(r'"(?:[^"\\]|\\.)*"|[(),;=]|[^"(),;=]+', src):
            out.append(part if part not in "(),;=" else self.loose() + part + self.loose())
        return "".join(out)

    def action(self, statements):
        if isinstance(statements, str):
            statements = [statements]
        self.inside = True
        body = [self.spread(s) for s in statements]
        self.inside = False
        if self.pick(3) == 1:
            return self.loose().join("<<" + b + ">>" for b in body)
        self.inside = True
        text = self.loose() + self.loose().join(body) + self.loose()
        self.inside = False
        return "<<" + text + ">>"

    def blank(self):
        return self.loose()

    def render(self, tree, root="g"):
        body = self.rule(tree)
        out = []
        decls = [name + self.gap() + self.spread(spec) for spec, name in self.tokens.items()] + list(self.bare)
        while decls:
            n = 1 + self.pick(len(decls))
            out.append("token" + self.gap() + (self.loose() + "," + self.loose()).join(decls[:n]) + self.loose() + ";")
            decls = decls[n:]
        for name, text in self.defs:
            out.append(name + self.loose() + ":" + self.loose() + text + self.loose() + ";")
        out.append(root + self.loose() + ":" + self.loose() + body + self.loose() + ";")
        return self.loose() + self.loose().join(out) + self.loose()


# ---------------------------------------------------------------- comparing

def ask(cli, kind, toks):
    cli.calls.clear()
    cli.streams.err.seek(0)
    cli.streams.err.truncate()
    if kind == 2:
        res = clih.execute(cli, toks)
    else:
        res = clih.suggest(cli, toks, bool(kind))
    helps = sorted({(getattr(t, "completion", None) or "", getattr(t, "helpstring", "") or "") for t in res.next_tokens or []})
    return answer(res)[:1] + answer(res)[2:] + ([repr(v) for v in res.matched_values], helps, repr(cli.calls), cli.streams.err.getvalue())


FIELDS = ["result", "offending token", "offending position", "suggestions", "sole suggestion", "common beginning", "matched values", "suggestions with help", "actions", "error output"]


def compare(case, rec, tree, first, second, fields=None):
    one, two = clih.iface(first), clih.iface(second)
    words = gram.vocabulary(tree)
    results = set()
    for kind, choices, how, cut in case["inputs"]:
        toks = gram.mutate(gram.walk(tree, choices), how, words)
        if cut and toks:
            at = how[1] % len(toks) if kind == 2 else -1
            toks[at] = toks[at][:cut]
        if kind == 2 and not toks:
            continue
        try:
            steps = gram.readings(tree, toks, 60)
        except gram.TooMany:
            rec.label("skipped: too many readings")
            continue
        a, b = ask(one, kind, toks), ask(two, kind, toks)
        done = {h for s, h in steps[-1] if gram.accepting(s)} if kind == 2 and len(steps) > len(toks) else ()
        if fields and len(done) > 1 and len(gram.resolve(done, toks)) > 1:
            # see the known finding: whether this is ambiguous depends on the use of named grammars
            for r in (a, b):
                ensure(r[0] in ("success", "ambigous"), "a line with several readings was refused", got=r[0], input=toks, grammar=first, rewritten=second)
            rec.label("several readings remain")
            continue
        for name, x, y in zip(FIELDS, a, b):
            if fields is None or name in fields:
                eq(name + " under the rewritten grammar", y, x, input=toks, kind=["inside a token", "after a token", "executed"][kind], grammar=first, rewritten=second)
        results.add(a[0])
    for r in results:
        rec.label(str(r))
    return results


def run_layout(case, rec):
    log = {}
    tree = decorate(case["tree"], log)
    first = gram.text(tree)
    second = Wild(case["style"], case["newline"]).render(tree)
    results = compare(case, rec, tree, first, second)
    rec.label("newline %r" % case["newline"])
    if "success" in results and len(results) > 1 and ("/" in second or "#" in second):
        rec.nontriv()


# ---------------------------------------------------------------- rewrites

def rewrites(n):
    """Every way to write a node differently: (name, new node)."""
    k = n[0]
    out = [("ref", ["ref", n]), ("once", ["rep", n, 1, 1])]
    if k == "ref":
        out.append(("unref", n[1]))
    if k == "opt":
        out.append(("opt as repetition", ["rep", n[1], 0, 1]))
        if n[1][0] == "alt":
            out.append(("opt inside", ["alt", [["opt", n[1][1][0]]] + n[1][1][1:]]))
    if k == "seq":
        if len(n[1]) > 2:
            out.append(("group left", ["seq", [["seq", n[1][:2]]] + n[1][2:]]))
            out.append(("group right", ["seq", n[1][:1] + [["seq", n[1][1:]]]]))
            out.append(("name the rest", ["seq", n[1][:1] + [["ref", ["seq", n[1][1:]]]]]))
        for i, c in enumerate(n[1]):
            if c[0] == "seq":
                out.append(("ungroup", ["seq", n[1][:i] + c[1] + n[1][i + 1:]]))
                break
            if c[0] == "alt" and len(n[1]) <= 3:
                out.append(("distribute", ["alt", [["seq", n[1][:i] + [a] + n[1][i + 1:]] for a in c[1]]]))
                break
        if all(c == n[1][0] for c in n[1]):
            out.append(("repetition", ["rep", n[1][0], len(n[1]), len(n[1])]))
    if k == "alt":
        if len(n[1]) > 2:
            out.append(("group alternatives", ["alt", [["alt", n[1][:2]]] + n[1][2:]]))
            out.append(("name alternatives", ["alt", n[1][:1] + [["ref", ["alt", n[1][1:]]]]]))
        for i, c in enumerate(n[1]):
            if c[0] == "alt":
                out.append(("ungroup alternatives", ["alt", n[1][:i] + c[1] + n[1][i + 1:]]))
                break
        out.append(("reverse alternatives", ["alt", n[1][::-1]]))
    if k == "set":
        out.append(("reverse set", ["set", n[1][::-1]]))
        if len(n[1]) <= 3 and not any(gram.nullable(c) for c in n[1]):
            out.append(("set as alternatives", ["alt", [["seq", list(p)] for p in itertools.permutations(n[1])]]))
    if k == "rep" and not gram.nullable(n[1]):
        x, lo, hi = n[1:4]
        if hi <= 4:
            tail = None
            for _ in range(hi - lo):
                tail = ["opt", x if tail is None else ["seq", [x, tail]]]
            parts = [x] * lo + ([tail] if tail else [])
            out.append(("repetition written out", ["seq", parts] if len(parts) > 1 else parts[0]))
        if lo == 0:
            out.append(("repetition as opt", ["opt", ["rep", x, 1, hi]]))
        if 0 < lo < hi:
            out.append(("repetition split", ["seq", [["rep", x, lo, lo], ["rep", x, 0, hi - lo]]]))
        if lo > 0 and hi > 1:
            out.append(("one taken out", ["seq", [x, ["rep", x, lo - 1, hi - 1]]]))
            out.append(("last one taken out", ["seq", [["rep", x, lo - 1, lo - 1], x] + ([["rep", x, 0, hi - lo]] if hi > lo else [])] if lo > 1 else ["seq", [x, ["rep", x, 0, hi - 1]]]))
    return out


def rewrite(n, script, used):
    """Applies rewrites here and there, as the script (a list of small numbers, used up) says."""
    def take():
        script.append(script.pop(0))
        return script[-1]

    if n[0] in ("seq", "alt", "set"):
        n = [n[0], [rewrite(c, script, used) for c in n[1]]]
    elif n[0] not in gram.LEAVES:
        n = [n[0], rewrite(n[1], script, used)] + n[2:]
    v = take()
    if v % 5 < 3:
        return n
    ways = rewrites(n)
    name, n = ways[(v // 5 + take()) % len(ways)]
    used.append(name)
    return n


def run_rewrites(case, rec):
    tree = case["tree"]
    used = []
    other = rewrite(tree, list(case["script"]), used)
    if gram.repeats(other) > 120 or len(repr(other)) > 12000:
        rec.label("skipped: too large")
        return
    if gram.has_nullable_repeat(tree) or gram.has_nullable_repeat(other):
        rec.label("skipped: repeats what may be empty")
        return
    results = compare(case, rec, tree, gram.text(tree, share=True), gram.text(other, case["style"], share=True),
                      ["result", "offending token", "offending position", "suggestions", "suggestions with help", "sole suggestion", "common beginning", "matched values", "error output"])
    for u in set(used):
        rec.label(u)
    if used and "success" in results and len(results) > 1:
        rec.nontriv()


# ---------------------------------------------------------------- cases

def inputs():
    one = st.tuples(st.sampled_from([0, 1, 2, 2, 2]), gram.CHOICES, gram.MUTATION, st.sampled_from([0, 0, 0, 1, 2])).map(list)
    return st.lists(one, min_size=3, max_size=9)


def layout_cases():
    return st.fixed_dictionaries({"tree": acted(gram.trees(gram.TYPED, 2, size=20), 9), "style": st.lists(st.integers(0, 300), min_size=4, max_size=30),
                                  "newline": st.sampled_from(["\n", "\n", "\r\n", "\r"]), "inputs": inputs()})


def rewrite_cases(leaf):
    return lambda: st.fixed_dictionaries({"tree": gram.trees(leaf, 3, size=24, again=True), "style": gram.STYLE,
                                          "script": st.lists(st.integers(0, 99), min_size=4, max_size=14), "inputs": inputs()})


NESTED = st.sampled_from(["a", "ab", "abc", "b"]).map(lambda w: ["kw", w])
RULE = "; non-trivial: a rewrite was made, and inputs with different results one of which is success"
SUBS = [
    Sub("layout", layout_cases, run_layout, 120, 5000, "grammars with actions written plainly and with blanks, line breaks of every kind and comments between all tokens and token definitions split and merged at random; "
        "non-trivial: comments, and inputs with different results one of which is success"),
    Sub("typed-tokens", rewrite_cases(gram.TYPED), run_rewrites, 120, 5000, "grammars over all kinds of tokens under random rewrites of their parts" + RULE),
    Sub("nested-keywords", rewrite_cases(NESTED), run_rewrites, 120, 5000, "the same over keywords that begin one another, with ambiguous inputs" + RULE),
]

def probe_grouping():
    one = clih.execute(clih.iface('g: "k" * (1:2) * (0:2);'), ["k"] * 3).result
    two = clih.execute(clih.iface('sub: "k"; g: sub * (1:2) * (0:2);'), ["k"] * 3).result
    return None if one == two else "plain: %s, with the named grammar: %s" % (one, two)


PROBES = [Probe("named-grammar-grouping", probe_grouping, "F-shared-grammar-grouping")]
ASSUMPTIONS = ["grammars repeating a part that may be empty are rewritten in layout only", "inside an action a comment holds no >> and no backslash"]
