"""C13 - what a line does never depends on the lines before it."""
import asyncio

from hypothesis import strategies as st

from vlib import clih, gram
from vlib.core import Sub, eq, ensure
from vlib.checks.C09 import acted, decorate

ODD = ["x", '"x"', '"x', '"a\\nb"', "a\\nb", '"a\\\\b"', '"\\"q\\""', '"two  words"', "red", '"red"', "5", '"5"', "0", "tr", "TRUE", '"k1_"']
ROOT = """
root: << $all = list(); $map = dict(); >>
    g << call ext("end", $1); $1 = 0; $all = append($all, $1); $all = append($all, list($1)); $map = update($map, "k", $all); call ext($all, $map); call boom($all); call ext($late); $late = 1; call ext("late"); >>;
"""


def source(tree, style):
    log = {}
    tree = decorate(tree, log)
    # the list an action sees as a numbered variable is changed by the action
    return tree, gram.text(tree, style) + ROOT.replace("$1 = 0;", "append($1, \"changed\");")


class Face(clih.Iface):
    cut = 0     # the call that is interrupted, counted from 1

    def boom(self, arg):
        self.calls.append(["boom", clih.snapshot(arg)])
        raise KeyError("boom")

    def ext(self, *args):
        super().ext(*args)
        if len(self.calls) == self.cut:
            raise asyncio.CancelledError()
        for a in args:
            # a program may keep and change what it was given
            if isinstance(a, list):
                a.append("kept")
            if isinstance(a, dict):
                a["kept"] = 1


def ask(cli, kind, toks):
    cli.calls.clear()
    for s in (cli.streams.out, cli.streams.err):
        s.seek(0)
        s.truncate()
    if kind in (0, 1):
        res = clih.suggest(cli, toks, bool(kind))
    elif kind == 2:
        res = clih.run(cli.match(list(toks), dry_run=False, last_token_complete=False, arglist=[]))
    else:
        res = clih.execute(cli, toks)
    values = [repr(v) if not isinstance(v, (list, dict)) else repr(clih.snapshot(v)) for v in res.matched_values]
    return (res.result, res.error, res.offending_token and str(res.offending_token), res.offending_token_position, [str(t) for t in res.matched_sequence],
            values, clih.next_set(res), {(str(t), getattr(t, "helpstring", "")) for t in res.next_tokens or []}, res.next_constant_token, res.last_token or None,
            res.case_insensitive, repr(cli.calls), cli.streams.out.getvalue(), cli.streams.err.getvalue())


FIELDS = ["result", "error", "offending token", "offending position", "matched tokens", "matched values", "suggestions", "suggestions with help", "sole suggestion",
          "common beginning", "case folding", "calls", "output", "error output"]


def run(case, rec):
    sources, faces, trees = [], [], []
    for i, tree in enumerate(case["trees"]):
        tree, src = source(tree, case["style"])
        trees.append(tree)
        sources.append(src)
        faces.append(clih.iface(src, root="root", cls=Face, str_cache_size=case["sizes"][0], token_value_cache_size=case["sizes"][1]))
    known = {}
    history = []
    kinds = set()
    for which, kind, choices, how, again in case["ops"]:
        which %= len(faces)
        tree = trees[which]
        toks = gram.mutate(gram.walk(tree, choices), how, gram.vocabulary(tree) + ODD)
        if again and history:
            which, _, toks = history[again % len(history)]
        if not gram.tame(trees[which], toks):
            rec.label("too many readings")
            continue
        if kind >= 2 and not toks:
            continue
        if kind > 3:
            # the program gives up in the middle of the actions
            faces[which].calls.clear()
            faces[which].cut = kind - 3
            try:
                clih.execute(faces[which], toks)
            except asyncio.CancelledError:
                kinds.add("interrupted")
            faces[which].cut = 0
            history.append([which, kind, toks])
            continue
        key = (which, kind, tuple(toks))
        if key not in known:
            known[key] = ask(clih.iface(sources[which], root="root", cls=Face), kind, toks)
        got = ask(faces[which], kind, toks)
        for name, a, b in zip(FIELDS, got, known[key]):
            eq(name, a, b, input=toks, kind=["suggest inside", "suggest", "execute inside", "execute"][min(kind, 3)], history=history, grammar=sources[which])
        kinds.add(got[0])
        history.append([which, kind, toks])
    for k in kinds:
        rec.label(str(k))
    if "success" in kinds and len(history) > 3:
        rec.nontriv()


def run_long(case, rec):
    """One line, then many others, then the same line again."""
    tree, src = source(case["tree"], case["style"])
    face = clih.iface(src, root="root", cls=Face, str_cache_size=case["sizes"][0], token_value_cache_size=case["sizes"][1])
    toks = gram.walk(tree, case["choices"])
    if not toks:
        return
    try:
        gram.readings(tree, toks, 12)
    except gram.TooMany:
        rec.label("too many readings")
        return      # 200 such lines would take minutes
    first = ask(face, 3, toks)
    for i in range(case["many"]):
        other = list(toks)
        for j, t in enumerate(other):
            other[j] = [t, t[:1 + i % 3], "w%d" % i, '"w %d\\n"' % i, str(i)][(i + j) % 5]
        ask(face, [0, 1, 3, 3][i % 4], other)
    for name, a, b in zip(FIELDS, ask(face, 3, toks), first):
        eq(name + " after %d other lines" % case["many"], a, b, input=toks, grammar=src)
    if first[0] == "success":
        rec.nontriv()


def cases():
    trees = st.lists(acted(gram.trees(gram.TYPED, 2, size=16), 9), min_size=1, max_size=2)
    how = st.tuples(st.sampled_from([0, 0, 0, 1, 2, 3, 3, 4, 5, 6]), st.integers(0, 9), st.integers(0, 60)).map(list)
    op = st.tuples(st.integers(0, 1), st.sampled_from([0, 1, 2, 3, 3, 3, 3, 4, 5, 7, 9, 11]), gram.CHOICES, how, st.sampled_from([0, 0, 0, 1, 2, 3])).map(list)
    return st.fixed_dictionaries({"trees": trees, "style": gram.STYLE, "ops": st.lists(op, min_size=4, max_size=12), "sizes": SIZES})


SIZES = st.lists(st.sampled_from([0, 1, 2, 5, 128]), min_size=2, max_size=2)


def long_cases():
    return st.fixed_dictionaries({"tree": acted(gram.trees(gram.TYPED, 2, size=12), 9), "style": gram.STYLE, "choices": gram.CHOICES,
                                  "many": st.integers(10, 200), "sizes": SIZES})


SUBS = [
    Sub("histories", cases, run, 300, 6000, "up to twelve suggestion requests, executions and interrupted executions on one or two interfaces, each compared with an interface made for that line alone; non-trivial: more than three steps and an accepted line"),
    Sub("turnover", long_cases, run_long, 40, 700, "the same line before and after 10 to 200 others, with cache sizes from 0; non-trivial: the line is accepted"),
]
ASSUMPTIONS = ["path tokens, whose answers follow the file system, are left out (C05)"]
