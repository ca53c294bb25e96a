"""C30 - the same input gives the same answers on every run."""
import atexit
import hashlib
import json
import os
import random
import subprocess
import sys

from hypothesis import strategies as st

from vlib import clih, gram
from vlib.core import Sub, VERIF, eq
from vlib.checks import C08, C09, C16

SEEDS = ["1", "2", "3"]
real_set = set


class Kind(type):
    def __instancecheck__(cls, x):
        return isinstance(x, real_set)

    def __subclasscheck__(cls, c):
        return issubclass(c, real_set)


class Shuffled(real_set, metaclass=Kind):
    """A set like any other, but that lists what is in it in an order that a seed decides.

    The order of a set of strings is decided by the hash seed of the interpreter, that of a set
    of objects by where they lie in memory: a program must be ready for any.  Sets of numbers
    do keep their order."""
    seed = 0
    known = {}

    @classmethod
    def start(cls, seed):
        cls.seed = seed
        cls.known = {}

    @classmethod
    def rank(cls, x):
        if isinstance(x, str):
            return hashlib.md5(("%d %s" % (cls.seed, x)).encode("utf-8", "replace")).hexdigest()
        if id(x) not in cls.known:
            n = len(cls.known)
            cls.known[id(x)] = (hashlib.md5(("%d %d" % (cls.seed, n)).encode()).hexdigest(), x)
        return cls.known[id(x)][0]

    def __init__(self, items=()):
        super().__init__()
        for x in items:
            self.add(x)

    def add(self, x):
        if not isinstance(x, int):
            self.rank(x)
        super().add(x)

    def update(self, *others):
        for other in others:
            for x in other:
                self.add(x)

    def union(self, *others):
        new = Shuffled(self)
        new.update(*others)
        return new

    def __or__(self, other):
        return self.union(other)

    def __ior__(self, other):
        self.update(other)
        return self

    def copy(self):
        return Shuffled(self)

    def __iter__(self):
        items = list(super().__iter__())
        if all(isinstance(x, int) for x in items):
            return iter(items)
        return iter(sorted(items, key=self.rank))

    def __repr__(self):
        return "{" + ", ".join(map(repr, self)) + "}" if len(self) else "set()"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)


class shuffled:
    """Within this, sets that the code under test makes are shuffled."""

    def __init__(self, seed):
        Shuffled.start(seed)

    def __enter__(self):
        self.modules = [m for name, m in sorted(sys.modules.items()) if name.split(".")[0] == "nessaid_cli" and m is not None and "set" not in vars(m)]
        for m in self.modules:
            m.set = Shuffled

    def __exit__(self, *exc):
        for m in self.modules:
            del m.set


def noise(n):
    """Objects that come and go, so that what is built next lies elsewhere in memory."""
    r = random.Random(n)
    held = [[] for _ in range(r.randrange(300))] + [object() for _ in range(r.randrange(300))]
    return [x for x in held if r.randrange(3)]


class BEHIND(clih.T.CliToken):
    """What it offers depends on what was read before it."""

    @property
    def cacheable(self):
        return False

    def words(self, cli):
        values = cli.get_matched_values()
        return ["%s%d" % (type(v).__name__, i) for i, v in enumerate(values)] + ["always"]

    async def complete(self, token_input, cli=None):
        return await self.complete_from_multiple(self.words(cli), token_input, cli=cli)

    async def match(self, token_input, cli=None):
        return await self.match_from_multiple(self.words(cli), token_input, cli=cli)

    async def get_helpstring(self, match_string=None, cli=None):
        return "behind " + repr(cli.get_matched_values())


class Face(clih.Iface):
    def get_token_classes(self):
        return clih.TOKEN_CLASSES + [BEHIND]


def answers(src, steps, n=0):
    """Everything there is to see of a session."""
    kept = noise(n)
    cli = clih.iface(src, cls=Face)
    kept.append(noise(n + 1))
    seen = []
    for kind, toks in steps:
        cli.calls.clear()
        at = cli.streams.err.tell()
        if kind == "enter":
            res = clih.execute(cli, toks)
        else:
            res = clih.suggest(cli, toks, complete=kind == "next")
        found = [["end", ""] if t is clih.EndOfInpuToken else [str(t), str(getattr(t, "helpstring", "")), t.completion is not None] for t in res.next_tokens or []]
        seen.append({"result": res.result, "error": res.error, "offending token": repr(res.offending_token), "at": res.offending_token_position, "values": repr(res.matched_values),
                     "offered": sorted(found, key=repr), "completed to": repr(res.last_token or None), "sole": repr(res.next_constant_token), "calls": repr(cli.calls),
                     "error output": cli.streams.err.getvalue()[at:]})
    return seen


def screen(src, steps, n=0):
    """What is seen on the screen when this is typed, with TABs."""
    kept = noise(n)
    cli = clih.Cli(src, prompt="> ")
    kept.append(noise(n + 1))
    keys = []
    for kind, toks in steps:
        line = " ".join(toks) + ("" if kind == "begun" else " ")
        if line.isascii() and line.isprintable():
            keys += list(line) + ([clih.CR] if kind == "enter" else [clih.TAB, clih.TAB, clih.TAB, clih.CR])
    clih.loop_keys(cli, keys)
    return [{"screen": cli.streams.out.getvalue(), "error output": cli.streams.err.getvalue(), "calls": repr(cli.calls)}]


def commands(case, steps, n=0):
    """What is seen of a command class, with the grammar made of it."""
    kept = noise(n)
    trees = gram.number(["alt", [h["body"] for c in case["classes"] for h in c["handlers"]]])[1]
    text = C16.Text(case["style"])
    made = C16.build(case, trees, text)
    cls = made[-1]

    async def handle_eof(self):
        clih.NessaidCli.exit_loop(self)
    cls.handle_eof = handle_eof
    cls.__doc__ = "\n".join(["token %s;" % d for d in text.declarations()] + ["%s: %s;" % d for d in text.defs])
    streams = clih.Streams()
    kept.append(noise(n + 1))
    cli = cls(loop=clih.loop(), prompt="# ", cli_hook_prefix=case["prefix"], cli_nargs=case["nargs"], disable_default_hooks=True,
              stdin=None, stdout=streams.out, stderr=streams.err, show_grammar=True)
    cli.calls = []
    C16.HERE.cli = cli
    codes = [clih.run(cli.exec_line(" ".join(toks))) for kind, toks in steps if kind == "enter"]
    keys = []
    for kind, toks in steps:
        line = " ".join(toks) + ("" if kind == "begun" else " ")
        if line.isascii() and line.isprintable() and kind != "enter":
            keys += list(line) + [clih.TAB, clih.TAB, clih.TAB, clih.CR]
    clih.loop_keys(cli, keys, None)
    return [{"screen and grammar": streams.out.getvalue(), "error output": streams.err.getvalue(), "exit codes": codes, "calls": repr(cli.calls)}]


SEEN = {"answers": answers, "screen": screen, "commands": commands}


def session(case):
    log = {}
    tree = C09.decorate(case["tree"], log)
    src = gram.text(tree, case["style"])
    return lines(tree, case["inputs"], gram.vocabulary(tree), src)


def lines(tree, inputs, words, src=None):
    steps = []
    several = False
    for choices, how in inputs:
        toks = gram.mutate(gram.walk(tree, choices), how, words)
        if not toks or not gram.tame(tree, toks):
            continue
        steps.append(["enter", toks])
        cut = choices[0] % (len(toks) + 1)
        steps.append(["next", toks[:cut]])
        if toks[:cut]:
            steps.append(["begun", toks[:cut - 1] + [toks[cut - 1][:1 + choices[-1] % 4]]])
        try:
            done = gram.readings(tree, toks)
        except gram.TooMany:
            continue
        several |= any(len({h for s, h in at}) > 1 for at in done)
    return src, steps, several


TOKENS = ["NUM", "FEW", "DEC", "STR", "SHORT", "ONE", "YES", '"5"', '"true"', '"red"']
WORDS = ["5", "5.0", "tr", "true", "re", "red", "x", '"5"', "1"]
TAILS = ["", "in", "int0", "Py", "PythonString0", "a", "always", "Dec", "bool0", "int1"]
CONTEXT = """token NUM RangedIntToken(1, 9); token FEW RangedIntToken(5, 6); token DEC RangedDecimalToken(0, 9); token STR StringToken(); token SHORT RangedStringToken(1, 3);
token ONE AlternativeStringsToken("red", "5", "true"); token YES BooleanToken(); token BEHIND BEHIND();
"""


def context_session(case):
    groups = [list(dict.fromkeys(g)) for g in case["groups"]]
    src = CONTEXT + "g: " + " ".join("(" + " | ".join(g) + ")" for g in groups) + " BEHIND << call ext($1, $2, $3); >>;"
    steps = []
    for words, tail in case["inputs"]:
        toks = words[:len(groups)]
        steps += [["next", toks], ["enter", toks + [tail or "always"]]]
        if tail:
            steps.append(["begun", toks + [tail]])
    return src, steps, any(len(g) > 1 for g in groups)


def context_cases():
    return st.fixed_dictionaries({"groups": st.lists(st.lists(st.sampled_from(TOKENS), min_size=1, max_size=4), min_size=1, max_size=2), "seed": st.integers(0, 999),
                                  "inputs": st.lists(st.tuples(st.lists(st.sampled_from(WORDS), min_size=2, max_size=2), st.sampled_from(TAILS)).map(list), min_size=1, max_size=6)})


def command_session(case):
    handlers = [h for c in case["classes"] for h in c["handlers"]]
    if not any(h["kind"] == "doc" for h in handlers):
        return None, [], False
    names = [(c, h["name"]) for c, cl in enumerate(case["classes"]) for h in cl["handlers"]]
    if len(set(names)) < len(names):
        return None, [], False
    whole = gram.number(["alt", [h["body"] for h in handlers]])
    if gram.repeats(whole) > 30:
        return None, [], False
    src, steps, several = lines(whole, case["lines"][:4], gram.vocabulary(whole))
    return case, steps, len({h["name"] for h in handlers}) > 1


def run(how, session=session):
    def run(case, rec):
        src, steps, several = session(case)
        if not steps:
            return
        first = SEEN[how](src, steps)
        for k in (1, 2, 3):
            with shuffled(case["seed"] + 1000 * k):
                again = SEEN[how](src, steps, case["seed"] + k)
            compare(src, steps, first, again, "another run")
        for a in first:
            rec.label(str(a.get("result", "screen")))
        if several:
            rec.nontriv()
    return run


def compare(src, steps, first, again, where):
    if len(first) == len(steps):
        for step, a, b in zip(steps, first, again):
            for key in a:
                eq(key + " in " + where, b[key], a[key], step=step, grammar=src)
    else:
        for key in first[0]:
            eq(key + " in " + where, again[0][key], first[0][key], steps=steps, grammar=src)


servers = {}
COMMAND = "import sys; sys.path.insert(0, %r); sys.dont_write_bytecode = True; from vlib import env; from vlib.checks import C30; C30.serve()" % VERIF


def server(seed):
    """An interpreter whose sets of strings are ordered in one of many ways."""
    if seed not in servers or servers[seed].poll() is not None:
        servers[seed] = subprocess.Popen([sys.executable, "-c", COMMAND], env=dict(os.environ, PYTHONHASHSEED=seed), stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
        atexit.register(servers[seed].kill)
    return servers[seed]


def serve():
    for line in sys.stdin:
        how, src, steps, n = json.loads(line)
        with open(os.devnull, "w") as sys.stdout:
            try:
                seen = SEEN[how](src, steps, n)
            except Exception as e:
                seen = [{"raised": repr(e)}]
        sys.stdout = sys.__stdout__
        print(json.dumps(seen), flush=True)


def run_seeds(case, rec):
    src, steps, several = session(case)
    if steps:
        ask(src, steps, case, ["answers", "screen"])
        if several:
            rec.nontriv()


def run_command_seeds(case, rec):
    case, steps, several = command_session(case)
    if steps:
        ask(case, steps, case, ["commands"])
        if several:
            rec.nontriv()


def ask(src, steps, case, ways):
    for how in ways:
        seen = []
        for k, seed in enumerate(SEEDS):
            s = server(seed)
            s.stdin.write(json.dumps([how, src, steps, case["seed"] + k]) + "\n")
            s.stdin.flush()
        for seed in SEEDS:
            seen.append(json.loads(server(seed).stdout.readline()))
        for again in seen[1:]:
            compare(src, steps, seen[0], again, "an interpreter with another hash seed")


def cases(leaf, depth, again=False):
    return lambda: st.fixed_dictionaries({"tree": C09.acted(gram.trees(leaf, depth, size=24, again=again), 10), "style": gram.STYLE, "seed": st.integers(0, 999),
                                          "inputs": st.lists(gram.INPUT, min_size=1, max_size=4)})


def command_cases():
    return st.builds(lambda case, seed: dict(case, seed=seed), C16.cases(), st.integers(0, 999))


ALIKE = st.one_of(*[st.sampled_from(["ab", "abc", "abcd", "abd", "acd", "a", "abce"]).map(lambda w: ["kw", w])] * 3,
                  st.sampled_from([["one", ["abc", "abde", "acd"]], ["one", ["true", "tree", "abcd", "ab"]], ["bool"]]))
MIXED = st.one_of(ALIKE, gram.SHARED, C08.NEAR, gram.HELPED, gram.HELPED)
RULE = ("; in each, generated lines are entered, and TAB is asked for on part of them; compared are result, error, offending token, values, texts offered with their help, completions, "
        "calls of actions and what is printed; non-trivial: at some point of some line more than one reading is open")
SHUFFLES = "the session is repeated with sets that list what is in them in three other orders"
SUBS = [
    Sub("shared-keywords", cases(gram.SHARED, 3, True), run("answers"), 40, 3000, "grammars of few keywords, with shared parts: " + SHUFFLES + RULE),
    Sub("near", cases(C08.NEAR, 2), run("answers"), 60, 3000, "grammars of words that begin alike, and tokens of all classes: " + SHUFFLES + RULE),
    Sub("alike", cases(ALIKE, 3), run("answers"), 60, 3000, "grammars of texts many of which begin alike: " + SHUFFLES + RULE),
    Sub("helps", cases(gram.HELPED, 3, True), run("answers"), 50, 3000, "grammars of tokens of all classes, with and without help texts: " + SHUFFLES + RULE),
    Sub("context", context_cases, run("answers", context_session), 60, 3000,
        "one or two choices among tokens that take the same words, and a token that offers what depends on the values before it: " + SHUFFLES + "; non-trivial: some choice is between several"),
    Sub("screen", cases(MIXED, 2), run("screen"), 25, 1000, "any of these grammars, with the lines typed into the command loop, with TABs: " + SHUFFLES + RULE),
    Sub("hash-seeds", cases(MIXED, 2), run_seeds, 20, 1000, "any of these grammars: the session and the typing are repeated in three interpreters that differ in their hash seed and layout of memory" + RULE),
    Sub("commands", command_cases, run("commands", command_session), 20, 1000,
        "command classes: the grammar made of them, lines executed and lines typed with TABs; " + SHUFFLES + "; non-trivial: at least two commands"),
    Sub("command-seeds", command_cases, run_command_seeds, 12, 600,
        "command classes: the same in three interpreters that differ in their hash seed and layout of memory; non-trivial: at least two commands"),
]
