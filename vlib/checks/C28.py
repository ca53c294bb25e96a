"""C28 - the memory a session needs does not grow with its length."""
import asyncio
import collections
import gc
import os
import shutil
import tempfile
import tracemalloc
import weakref

from hypothesis import strategies as st

from vlib import clih, gram
from vlib.checks import C27
from vlib.clih import CR, TAB
from vlib.core import Sub, ensure
from vlib.scan import Rejected, scan


class Baseline:
    """Counts the objects made since it was created."""

    def __enter__(self):
        gc.collect()
        gc.freeze()
        return self

    def __exit__(self, *exc):
        gc.unfreeze()

    def objects(self):
        """How many objects there are, and what they hold."""
        gc.collect()
        every = gc.get_objects()
        return len(every) + sum(len(gc.get_referents(o)) for o in every if o is not every)

    def kinds(self):
        gc.collect()
        return collections.Counter(type(o).__name__ for o in gc.get_objects())


def flush(cli):
    for s in (cli.streams.out, cli.streams.err):
        s.seek(0)
        s.truncate()


WARM = 3


def judge(counts, kinds, note):
    """At least one thing more in every round is a leak; caches may still fill in the first ones."""
    early, late = counts[WARM:WARM + 3], counts[-3:]
    rounds = len(counts) - 3 - WARM
    if min(late) - max(early) >= rounds:
        more = kinds[1] - kinds[0]
        ensure(False, "what is kept grows with every round of the same", counts=counts, more=dict(more.most_common(5)), **note)


def over_and_over(rounds, one, note):
    counts, kinds = [], []
    with Baseline() as b:
        for i in range(rounds + WARM + 3):
            one(i)
            counts.append(b.objects())
            if i in (WARM, rounds + WARM + 2):
                kinds.append(b.kinds())
        judge(counts, kinds, note)
    return counts


class Plain(clih.Cli):
    def boom(self):
        raise ValueError("boom")


def run_rounds(case, rec):
    """The same lines and suggestion requests again and again."""
    tree, src = C27.source(case)
    src += 'top: root | "zboom" << call boom(); call nothing(); >> | "zlist" << $l = list(1, "a"); $d = dict(); update($d, "x", $l); call ext($d); >>;'
    words = gram.vocabulary(tree)
    made = []
    ops = []
    for case_line, kind in case["ops"]:
        line = ["zboom", "zlist", "zboom now"][-1 - kind] if kind < 0 else C27.line_of(case_line, tree, words)
        if line is not None:
            ops.append((line, kind))

    def one(i):
        if not i:
            made.append(Plain(src, str_cache_size=case["size"]))
            made[0].enter_grammar("top")
        cli = made[0]
        for line, kind in ops:
            if kind != 1:
                clih.run(cli.exec_line(line))
            if kind >= 1:
                try:
                    toks = [t[0] for t in scan(line)]
                except Rejected:
                    continue
                for complete in (False, True):
                    clih.suggest(cli, toks, complete)
        flush(cli)
        cli.calls.clear()

    over_and_over(6, one, {"grammar": src, "lines": [o[0] for o in ops], "cache": case["size"]})
    rec.label("%d lines" % len(ops))
    if len(ops) > 1:
        rec.nontriv()


LENGTH = 3000
VALUES = """
token STR StringToken(); token SHORT RangedStringToken(0, 100000); token ALT AlternativeStringsToken("one", "two words"); token INT RangedIntToken(0, 99999999);
g: "say" STR << $x = $2; call ext($x); >> | "many" ((STR | SHORT) << append($l, $1); >>) * (1:3) << $l = list(); >> | "never" SHORT INT "x" | "count" INT << $n = $2; call ext($n); >> | "new" NEW << $x = $2; call ext($x); >> | sub[$p] STR;
token NEW Unkept();
sub[$p]: "sub" << $p = "a"; >>;
"""
LINES = [["say", 1], ["say", 2], ["many", 1, 2, 1], ["many", 2, 1], ["never", 1, "x"], ["nothing", 1], ["count", 3], ["say", 1, 1], ["many"], ["count", 1], ["new", 2], ["new", 1]]


class Unkept(clih.T.StringToken):
    """A token whose answers must not be kept."""
    @property
    def cacheable(self):
        return False



def run_values(case, rec):
    """Ever new values: no more of them are kept than the caches are configured to hold."""
    seen = []

    class Own(clih.Iface):
        def ext(self, value):
            seen.append(len(value) if isinstance(value, str) else value)

        def get_token_classes(self):
            return clih.TOKEN_CLASSES + [Unkept]

    a, b = case["sizes"]
    cli = Own(VALUES, str_cache_size=a, token_value_cache_size=b)
    cli.enter_grammar("g")
    filler = "v" * LENGTH
    number = [0]

    def make(part):
        number[0] += 1
        if part == 1:
            return "%d%s" % (number[0], filler)
        if part == 2:
            return '"%d %s\\n"' % (number[0], filler)
        if part == 3:
            return str(number[0])
        return part

    def line(i):
        kind, ask = case["lines"][i % len(case["lines"])]
        toks = [make(p) for p in LINES[kind]]
        if ask != 1:
            clih.execute(cli, toks)
        if ask:
            clih.suggest(cli, toks, ask == 2)
        seen.clear()
        flush(cli)
        return sum(p in (1, 2) for p in LINES[kind])

    lines = 4 * (a + b + 12) + 60
    for i in range(len(case["lines"])):
        line(i)
    gc.collect()
    tracemalloc.start()
    try:
        before = tracemalloc.get_traced_memory()[0]
        values = sum(line(i) for i in range(lines))
        gc.collect()
        grown = tracemalloc.get_traced_memory()[0] - before
    finally:
        tracemalloc.stop()
    # as key and as value; a cache is emptied only between lines
    allowed = 2 * LENGTH * (a + b + 12) + 60000
    rec.label("kept: %d values" % (grown // LENGTH))
    if values * LENGTH > 1.3 * allowed:
        rec.nontriv()
        ensure(grown < allowed, "more is kept than the caches are configured to hold", grown=grown, allowed=allowed, values=values, length=LENGTH, lines=[LINES[k] for k, _ in case["lines"]], sizes=case["sizes"])


def run_shell(case, rec):
    """Contexts opened and left, files run, answers given, the same keys again and again in one loop."""
    folder = tempfile.mkdtemp()
    try:
        for name in ("one", "two"):
            with open(os.path.join(folder, name), "w") as f:
                f.write("zprobe 4\nnothing\nset 1 two\nask\nanswer\n" + ("file two\n" if name == "one" else ""))
        keys = []
        for parts, tabs in case["lines"]:
            text = list(parts)
            for where in tabs:
                text.insert(where % (len(text) + 1), TAB)
            keys += text + [CR]
        keys += [CR, CR] + (list("leave") + [CR]) * (len(case["lines"]) + 1)
        rounds = WARM + 3 + 5
        counts = []
        kinds = []
        most = [0]

        def before(i, buffer):
            if i % len(keys) == 0 and i:
                # (the history holds the last lines only, as texts)
                flush(cli)
                most[0] = max([most[0]] + [c[0] for c in cli.own_calls])
                cli.own_calls.clear()
                counts.append(b.objects() - len(getattr(cli.readline, "_history", [])))
                if i // len(keys) in (WARM + 1, rounds):
                    kinds.append(b.kinds())
            cli.over = i >= len(keys) * rounds

        every = keys * rounds
        with Baseline() as b:
            cli = C27.shell(folder)
            cli.feed = clih.Keys(cli, every, before)
            clih.run(asyncio.wait_for(cli.cmdloop(), 100))
            note = {"keys": [p for p, _ in case["lines"]]}
            ensure(len(counts) == rounds, "the loop ended before the keys were used up", **note)
            judge(counts, kinds, note)
        rec.label("depth %d" % most[0])
        if most[0]:
            rec.nontriv()
    finally:
        shutil.rmtree(folder)


def run_lives(case, rec):
    """Loops run again on one interface, and interfaces made and given up."""
    note = {"life": case["what"], "lines": case["lines"]}
    keys = []
    for line in case["lines"]:
        keys += list(line) + [CR]
    keys += [CR, CR] + (list("leave") + [CR]) * (len(case["lines"]) + 1)
    kept = []
    gone = []

    def one(i):
        cli = kept[0] if kept else C27.shell("/nonexistent")
        if case["what"] != "new interfaces" and not kept:
            kept.append(cli)
        if case["what"] == "lines of the program":
            for line in case["lines"]:
                clih.run(cli.exec_line(line))
                cli.exec_args(*line.split())
        else:
            cli.over = True
            cli.readline.set_history_size(0)
            cli.feed = clih.Keys(cli, keys)
            clih.run(asyncio.wait_for(cli.cmdloop("hello"), 60))
        cli.own_calls.clear()
        flush(cli)
        if not kept:
            gone.append(weakref.ref(cli))
        while len(gone) > 2:
            gc.collect()
            ensure(gone.pop(0)() is None, "an interface that nobody uses is kept", **note)

    over_and_over(5, one, note)
    rec.label(case["what"])
    rec.nontriv()


def rounds_cases():
    op = st.tuples(C27.a_line(), st.integers(-3, 2)).map(list)
    return st.fixed_dictionaries({"tree": C27.grammars(), "style": gram.STYLE, "size": st.sampled_from([0, 1, 4, 128]), "ops": st.lists(op, min_size=1, max_size=6)})


def value_cases():
    return st.fixed_dictionaries({"sizes": st.tuples(st.sampled_from([0, 1, 4, 10]), st.sampled_from([0, 1, 4, 10])).map(list),
                                  "lines": st.lists(st.tuples(st.integers(0, len(LINES) - 1), st.integers(0, 3)).map(list), min_size=1, max_size=4)})


TYPED = ["context", "context parent", "context inherit", "inner a", "zprobe 3", "zprobe", "set 1 two", 'text "a b" t', "file one", "file none", "nothing", "leave", "ask", "x", "bare 1", "set red with abc", "#", "set \\", '"']


def shell_cases():
    line = st.tuples(st.sampled_from(TYPED), st.lists(st.integers(0, 20), max_size=2)).map(list)
    return st.fixed_dictionaries({"lines": st.lists(line, min_size=1, max_size=7)})


def life_cases():
    return st.fixed_dictionaries({"what": st.sampled_from(["new interfaces", "loops", "lines of the program"]),
                                  "lines": st.lists(st.sampled_from([t for t in TYPED if t != "ask"]), min_size=1, max_size=6)})


SUBS = [
    Sub("rounds", rounds_cases, run_rounds, 25, 1500, "lines and suggestion requests of generated grammars, given again and again to one interface; non-trivial: at least two lines"),
    Sub("values", value_cases, run_values, 16, 400, "lines with ever new long values on interfaces with small caches; non-trivial: the values were more than the caches may hold"),
    Sub("shell", shell_cases, run_shell, 20, 1000, "contexts, files, questions and TAB in one loop, the same keys again and again; non-trivial: a context was opened"),
    Sub("lives", life_cases, run_lives, 10, 500, "loops run again, lines given by the program, interfaces made and given up; all non-trivial"),
]
ASSUMPTIONS = ["memory is counted as objects known to Python's garbage collector and, for values, as bytes traced by tracemalloc", "what the line editor's history keeps, the last lines as texts, is left out"]
