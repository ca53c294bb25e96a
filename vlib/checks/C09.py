"""C09 - actions run in reading order with the values that were matched."""
from hypothesis import strategies as st

from vlib import clih, gram
from vlib.acts import joins, play
from vlib.core import Sub, eq, ensure

SLOTS = 5


def decorate(n, log, where="in"):
    """Writes the recording statements. `where`: "in" a block; "rep"etition body; "join"ed with the braces around it.

    log[tag] tells whether the action with that tag records the numbered variables: it does not where the
    documentation does not say which sequence encloses the action."""
    k = n[0]
    if k in gram.LEAVES:
        return n
    if k in ("seq", "alt", "set"):
        return [k, [decorate(c, log) for c in n[1]]]
    if k == "act":
        out = []
        for at, wanted in (("before", n[2]), ("after", n[3])):
            if not wanted:
                out.append("")
                continue
            tag = len(log) + 1
            log[tag] = where == "in" or (where == "rep" and at == "after")
            args = "".join(", $%d" % (i + 1) for i in range(SLOTS)) if log[tag] else ""
            text = ["call ext(%d%s);" % (tag, args)]
            if wanted == 2:
                text.append("call ext(%d);" % -tag)
            out.append(text)
        return ["act", decorate(n[1], log, where)] + out
    if k == "opt":
        return [k, decorate(n[1], log, "join" if joins(n[1]) else "in")]
    if k == "rep":
        return [k, decorate(n[1], log, where if n[2] == n[3] == 1 else "rep")] + n[2:]
    return [k, decorate(n[1], log)] + n[2:]


class Recorder:
    def __init__(self, log):
        self.log = log
        self.trace = []

    def act(self, statements, ctx, env):
        if statements:
            tag = int(statements[0].split("(")[1].split(",")[0].split(")")[0])
            got = [ctx[i + 1].value if i + 1 in ctx else None for i in range(SLOTS)] if self.log[tag] else []
            self.trace.append([tag] + got)
            if len(statements) > 1:
                self.trace.append([-tag])

    def enter(self, ref, ctx, env):
        return None


def reference(tree, history, toks, log):
    hooks = Recorder(log)
    play(tree, history, toks, None, hooks)
    return hooks.trace


def run(case, rec):
    log = {}
    tree = decorate(case["tree"], log)
    src = gram.text(tree, case["style"])
    cli = clih.iface(src)
    words = gram.vocabulary(tree)
    loose = gram.has_nullable_repeat(tree)
    longest = 0
    for choices, how in case["inputs"]:
        toks = gram.mutate(gram.walk(tree, choices), how, words)
        if not toks:
            continue
        try:
            steps = gram.readings(tree, toks)
        except gram.TooMany:
            rec.label("skipped: too many readings")
            continue
        cli.calls.clear()
        res = clih.execute(cli, toks)
        done = {h for s, h in steps[-1] if gram.accepting(s)} if len(steps) > len(toks) else set()
        note = {"grammar": src, "input": toks}
        if res.result != "success":
            eq("actions of a refused line", cli.calls, [], **note)
            ensure(loose or len(done) != 1, "refused", error=res.error, **note)
            rec.label("refused")
            continue
        ensure(done, "accepted without a reading", **note)
        kept = gram.resolve(done, toks)
        wanted = [reference(tree, h, toks, log) for h in kept]
        if len(wanted) == 1 and not loose:
            eq("actions", repr(cli.calls), repr(wanted[0]), **note)
        else:
            ensure(repr(cli.calls) in [repr(w) for w in wanted], "the actions are those of no reading", got=cli.calls, readings=wanted, **note)
            rec.label("several readings")
        ensure(cli.streams.err.getvalue() == "", "errors reported", err=cli.streams.err.getvalue(), **note)
        longest = max(longest, len(cli.calls))
    rec.label("longest trace %d" % min(longest, 12))
    ops = gram.depth_kinds(tree)
    for o in ops:
        rec.label("operator " + o)
    if longest >= 3:
        rec.nontriv()


@st.composite
def acted(draw, base, rate):
    """A tree with actions sprinkled over it."""
    def go(n):
        k = n[0]
        if k in ("seq", "alt", "set"):
            n = [k, [go(c) for c in n[1]]]
        elif k not in gram.LEAVES:
            n = [k, go(n[1])] + n[2:]
        d = draw(st.integers(0, rate))
        if d < 6:
            n = ["act", n] + [[0, 1], [1, 0], [1, 1], [0, 2], [0, 1], [2, 1]][d]
        return n
    return go(draw(base))


def cases(leaf, depth, rate):
    return lambda: st.fixed_dictionaries({"tree": acted(gram.trees(leaf, depth, size=24), rate), "style": gram.STYLE,
                                          "inputs": st.lists(gram.INPUT, min_size=3, max_size=8)})


@st.composite
def repeated(draw):
    """A repeated composite with an action of its own, between other words."""
    leaf = gram.UNIQUE
    part = st.deferred(lambda: st.one_of(leaf, leaf, st.builds(lambda c: ["seq", c], st.lists(leaf, min_size=2, max_size=3))))
    body = draw(st.one_of(
        st.builds(lambda k, c: [k, c], st.sampled_from(["set", "set", "alt", "seq"]), st.lists(part, min_size=2, max_size=3)),
        st.builds(lambda c, lo, more: ["rep", c, lo, lo + more], part, st.integers(1, 2), st.integers(0, 1))))
    before, after = draw(st.sampled_from([(0, 1), (0, 1), (1, 1), (0, 2)]))
    if draw(st.booleans()):
        body = draw(acted(st.just(body), 14))
    if body[0] != "act":
        body = ["act", body, before, after]
    lo = draw(st.integers(1, 3))
    tree = ["rep", body, lo, max(2, lo + draw(st.integers(0, 1)))]
    lead, tail = draw(st.lists(leaf, max_size=1)), draw(st.lists(leaf, max_size=1))
    if lead or tail:
        tree = ["seq", lead + [tree] + tail]
    return gram.number(tree)


def in_repeats():
    return st.fixed_dictionaries({"tree": repeated(), "style": gram.STYLE, "inputs": st.lists(gram.INPUT, min_size=4, max_size=8)})


RULE = "; non-trivial: some accepted line runs at least three actions"
SUBS = [
    Sub("distinct-keywords", cases(gram.UNIQUE, 3, 8), run, 130, 6000, "grammars over different keywords with actions before and after parts at every level" + RULE),
    Sub("typed-tokens", cases(gram.TYPED, 3, 8), run, 130, 6000, "the same with numbers, strings, choices and booleans" + RULE),
    Sub("shared-keywords", cases(gram.SHARED, 3, 10), run, 100, 5000, "the same over three keywords, so that the next token alone does not tell which part is over" + RULE),
    Sub("repeated", in_repeats, run, 90, 4000, "repeated sets, alternatives, sequences and repetitions with an action of their own" + RULE),
]
ASSUMPTIONS = ["a pair of parentheses around a single part starts no sequence of its own",
               "the numbered variables are not compared in actions at the very beginning of a repeated part or of the braces of an optional sequence, where the documentation does not say which sequence encloses them"]
