"""C16 - each command of a command class runs exactly its own handler with its own arguments."""
import asyncio
import contextlib
import functools
import io

from hypothesis import strategies as st

from vlib import clih, gram
from vlib.acts import play
from vlib.core import Sub, eq, ensure
from vlib.scan import Rejected, scan
from vlib.checks import C10
from vlib.checks.C10 import NO, args_text, params_text

PARAMS = ["name", "x", "list", "arg_1", "token"]
HOOKS = ["show", "set", "_hidden", "clear", "x1"]
OWN = "handler"
BUILTIN = {"do__exit": ["alt", [["kw", "exit"], ["kw", "quit"]]],
           "do__timing": ["seq", [["kw", "cmd-timing"], ["alt", [["kw", "on"], ["kw", "off"]]]]],
           "do__profile": ["seq", [["kw", "cmd-profiling"], ["alt", [["kw", "on"], ["kw", "off"]]]]],
           "do__system_info": ["kw", "system-info"]}


# ---------------------------------------------------------------- reference

class Play(C10.Play):
    """C10's interpreter with one more statement: the call of a handler."""

    def act(self, statements, ctx, env):
        for s in statements or ():
            if s[0] == OWN:
                self.trace.append([s[1]] + [clih.snapshot(env.vars["$" + p].value) for p in s[2]])
            else:
                super().act([s], ctx, env)


class Text(C10.Text):
    def __init__(self, style):
        super().__init__(style)

    def term(self, n):
        if n[0] == "ref" and len(n) > 2:
            name = "sub%d" % self.count
            self.count += 1
            text = self.rule(n[1])
            self.defs.append((name + params_text(n[2]), text))
            return name + "[" + args_text(n[3]) + "]"
        return super().term(n)


def handler_tree(owner, params, body):
    """What the documentation says about a handler: its parameters start as empty strings, and it is called at the end."""
    start = [["set", "$" + p, ["lit", ""]] for p in params]
    return ["ref", ["act", body, start, [[OWN, owner, params]]], [], []]


# ---------------------------------------------------------------- classes

def hook_name(case, h):
    return case["prefix"] + HOOKS[h["name"]]


def make_method(name, owner, h, doc):
    params = h["params"]
    src = "%sdef %s(self%s):\n    self.record(%r, [%s])\n%s" % (
        "async " if h["async"] else "", name, "".join(", " + p + (" = 5" if h["default"] and i == len(params) - 1 else "") for i, p in enumerate(params)),
        owner, ", ".join(params), "    raise ValueError('from the handler')\n" if h["raises"] else "")
    how = h.get("wrap", "none")
    scope = {"functools": functools, "asyncio": asyncio}
    if how in ("static", "class"):
        # these are not given the instance
        src = src.replace("self.record", "here().record").replace("(self, " if params else "(self", "(" if how == "static" else "(cls, " if params else "(cls")
        scope["here"] = HERE
    exec(src, scope)
    fn = scope[name]
    fn.__doc__ = doc
    if how in ("static", "class"):
        return staticmethod(fn) if how == "static" else classmethod(fn)
    return WRAPS[how](fn)


class Here:
    """The instance at work, for handlers that are not given one."""

    cli = None

    def __call__(self):
        return self.cli


HERE = Here()


def passing(fn):
    @functools.wraps(fn)
    def wrapper(*args, **kw):
        return fn(*args, **kw)
    return wrapper


def waiting(fn):
    @functools.wraps(fn)
    async def wrapper(self, *args):
        await asyncio.sleep(0)
        res = fn(self, *args)
        return await res if asyncio.iscoroutine(res) else res
    return wrapper


WRAPS = {"none": lambda fn: fn, "passing": passing, "waiting": waiting, "twice": lambda fn: passing(waiting(fn))}


def build(case, trees, text):
    """The classes, and the handlers that are in force: {hook name: (owner, handler, tree)}."""
    made, at = [], 0
    for ci, c in enumerate(case["classes"]):
        body = {}
        for h in c["handlers"]:
            name, owner = hook_name(case, h), "%d.%s" % (ci, HOOKS[h["name"]])
            if h["kind"] == "off":
                body[name] = None
            elif h["kind"] == "plain":
                body[name] = make_method(name, owner, h, None)
            else:
                body[name] = make_method(name, owner, h, text.rule(trees[at]) + h.get("tail", ""))
            at += 1
        body["zz_" + str(ci)] = make_method("zz_" + str(ci), "other prefix", {"params": [], "async": False, "default": False, "raises": False}, '"zzword"')
        body[case["prefix"] + "plain%d" % ci] = make_method("plain", "no syntax", {"params": [], "async": False, "default": False, "raises": False}, None)
        plain = c["mixin"] and ci < len(case["classes"]) - 1
        if plain:
            bases = ()
        else:
            earlier = list(range(ci))
            if case["shape"] == "diamond" and ci == 2 and len(case["classes"]) == 4:
                earlier = [0]
            elif case["shape"] == "diamond" and ci == 3:
                earlier = [1, 2]
            free = [made[i] for i in earlier if case["shape"] == "diamond" or not any(made[j] in made[i].__bases__ or made[i] in made[j].__mro__[1:] for j in earlier)]
            bases = tuple(reversed([k for k in free]))
            if not any(issubclass(b, Base) for b in bases):
                bases += (Base,)
        made.append(type("Demo" if ci == len(case["classes"]) - 1 else "Class%d" % ci, bases, body))
    return made


class Shown(clih.NessaidCli):
    """Runs the grammar a command class has shown, with the handlers of the instance that showed it."""

    def __init__(self, owner, grammar, **kw):
        self.__dict__["owner"] = owner
        super().__init__(grammar, **kw)

    def exit_loop(self):
        self.calls.append(["do__exit"])

    def __getattr__(self, name):
        if name in ("do__timing", "do__profile"):
            return lambda *args: None
        return getattr(self.__dict__["owner"], name)

    def get_token_classes(self):
        return clih.TOKEN_CLASSES


class Base(clih.NessaidCmd):
    def get_token_classes(self):
        return clih.TOKEN_CLASSES

    def record(self, owner, args):
        self.calls.append([owner] + clih.snapshot(args))

    def exit_loop(self):
        self.calls.append(["do__exit"])


def live(case, cls, trees, made):
    """The handlers in force, by the lookup rules of Python."""
    found, at = {}, {}
    i = 0
    for ci, c in enumerate(case["classes"]):
        for h in c["handlers"]:
            at[(ci, hook_name(case, h))] = ("%d.%s" % (ci, HOOKS[h["name"]]), h, trees[i])
            i += 1
    for k in cls.__mro__:
        if k in made:
            for (ci, name), what in at.items():
                if made[ci] is k and name not in found:
                    found[name] = what
    return {n: w for n, w in found.items() if w[1]["kind"] == "doc"}


def run(case, rec):
    handlers = [h for c in case["classes"] for h in c["handlers"]]
    if not handlers:
        return
    names = [[(c, h["name"]) for h in cl["handlers"]] for c, cl in enumerate(case["classes"])]
    if any(len(set(n)) < len(n) for n in names):
        rec.label("skipped: a class with two handlers of one name")
        return
    trees = gram.number(["alt", [h["body"] for h in handlers]])[1]
    text = Text(case["style"])
    made = build(case, trees, text)
    cls = made[-1]
    chain = [k for k in reversed(cls.__mro__) if issubclass(k, Base) and k is not Base]
    # tokens and helper grammars are defined in the class texts, base classes first
    defs = ["token %s;" % d for d in text.declarations()] + ["%s: %s;" % d for d in text.defs]
    cut = sorted(c % (len(defs) + 1) for c in case["cuts"][:len(chain) - 1])
    for k, lo, hi in zip(chain, [0] + cut, cut + [len(defs)]):
        k.__doc__ = "\n    ".join([""] + defs[lo:hi] + [""]).replace("\n", case["newline"]) if hi > lo else None
    force = live(case, cls, trees, made)
    options = [handler_tree(owner, h["params"], body) for owner, h, body in force.values()]
    if not options:
        rec.label("skipped: no handler left")
        return
    if case["prefix"] == "do_" and not case["no_builtin"]:
        options += [handler_tree(n, [], b) for n, b in BUILTIN.items()]
        rec.label("built-in commands")
    whole = ["alt", options]
    if gram.repeats(whole) > 30:
        return
    streams = clih.Streams()
    cli = cls(loop=clih.loop(), prompt="# ", cli_hook_prefix=case["prefix"], cli_nargs=case["nargs"], disable_default_hooks=case["no_builtin"],
              use_base_grammar=case["base"], stdin=None, stdout=streams.out, stderr=streams.err, show_grammar=case["show"])
    cli.calls = []
    HERE.cli = cli
    shown = again = None
    if case["show"]:
        head, shown = streams.out.getvalue().split("\n", 1)
        eq("what precedes the grammar shown", head, "# Generated CLI grammar:")
        # the text shown is the grammar in force: compiled again it takes the same lines and calls the same handlers
        again = Shown(cli, clih.compiled(shown), loop=clih.loop(), stdout=streams.out, stderr=streams.err)
        again.enter_grammar(cls.__name__)
        rec.label("shown grammar")
    words = gram.vocabulary(whole) + ["zzword", "exit", "cmd-timing", "DUMMY"]
    note = {"handlers": {n: "(%s) %s" % (", ".join(w[1]["params"]), getattr(cls, n).__doc__) for n, w in force.items()},
            "class texts": [k.__doc__ for k in chain], "prefix": case["prefix"]}
    timing = profiling = False
    raising = {w[0] for w in force.values() if w[1]["raises"]}
    ran = set()
    for choices, how in case["lines"]:
        toks = gram.mutate(gram.walk(whole, choices), how, words)
        line = [" ", "  ", "\t "][choices[0] % 3].join(toks)
        if how[0] == 4 and how[1] == 0:
            line += " \\"
        try:
            toks = [t[0] for t in scan(line)]
        except Rejected:
            toks = []
        try:
            steps = gram.readings(whole, toks)
        except gram.TooMany:
            continue
        done = {h for s, h in steps[-1] if gram.accepting(s)} if len(steps) > len(toks) and toks else set()
        wanted = []
        for h in gram.resolve(done, toks):
            p = Play()
            play(whole, h, toks, C10.Env({}), p)
            wanted.append(p.trace)
        if any(w[0][0] == "do__system_info" for w in wanted):
            rec.label("skipped: system information")
            continue
        cli.calls.clear()
        if again:
            clih.run(again.exec_line(line))
            copied = repr(cli.calls)
            cli.calls.clear()
        for s in (streams.out, streams.err):
            s.seek(0)
            s.truncate()
        with contextlib.redirect_stdout(io.StringIO()):   # profiles are written there
            code = clih.run(cli.exec_line(line))
        out, err = streams.out.getvalue(), streams.err.getvalue()
        about = dict(note, line=line, errors=err)
        if code == 0 or (len(wanted) == 1 and wanted[0][0][0] in raising):
            ensure(wanted, "a line that matches no syntax succeeded", calls=cli.calls, **about)
            own = wanted[0][0][0] in ("do__timing", "do__profile")
            rec.label("accepted line")
            if len(wanted) == 1:
                eq("calls", repr(cli.calls), repr([] if own else wanted[0]), **about)
            else:
                ensure(any(repr(cli.calls) == repr(w) for w in wanted), "the calls of no reading", calls=cli.calls, wanted=wanted, **about)
                rec.label("several readings")
            if cli.calls and cli.calls[0][0] in raising:
                ensure(err, "a handler failed silently", **about)
                rec.label("raising handler")
            else:
                eq("errors of an accepted line", err, "", **about)
            if len(wanted) == 1:
                if own and toks[0].startswith("cmd-t"):
                    timing = toks[-1] == "on"
                elif own:
                    profiling = toks[-1] == "on"
                eq("the time taken is told", "Time taken" in out, timing and not (own and toks[0].startswith("cmd-t")), **about)
                if profiling and not own:
                    rec.label("profiled line")
                if again:
                    eq("calls with the grammar that was shown", copied, repr(cli.calls) if not own else "[]", shown=shown, **about)
                if cli.calls and not own:
                    ran.add(cli.calls[0][0])
        else:
            ensure(len(wanted) != 1, "a command was not executed", code=code, wanted=wanted, **about)
            eq("calls of a line that was not accepted", cli.calls, [], **about)
            ensure(err or not toks, "a line was refused silently", **about)
            rec.label("refused line")
    rec.label("prefix %s" % case["prefix"])
    rec.label("classes %d" % len(case["classes"]))
    if len(force) > 1 and len(ran) > 1 and any(h[1]["params"] for h in force.values()):
        rec.nontriv()


# ---------------------------------------------------------------- strategies

LITERAL = st.sampled_from([0, 7, -2, 1.5, "s", "two words", "", True, False, None])


@st.composite
def docs(draw, params):
    """A handler syntax: parts that assign parameters in all the ways the documentation shows."""
    dollars = ["$" + p for p in params]
    kw = st.one_of(st.just(["kw", "?"]), st.just(["kw", "?"]), st.sampled_from("abc").map(lambda w: ["kw", w]), st.just(["kwh", "?", "help"]))
    val = st.sampled_from([["int", 1, 5], ["int", -40, 90], ["str"], ["rstr", 1, 3], ["one", ["red", "green"]], ["bool"], ["one", ["left hand", "up"]]])
    lists = set()

    def put(p, e):
        return [["set", p, e]]

    def item(i, depth):
        k = draw(st.sampled_from(["kw", "val", "val", "flag", "optval", "alt", "list", "set", "ref", "block", "reset"] if dollars and depth else ["kw", "any"] if not dollars else ["kw", "val", "any"]))
        p = draw(st.sampled_from(dollars)) if dollars else None
        if k == "kw":
            return draw(kw)
        if k == "any":
            return draw(val)
        if k == "val":
            return ["act", draw(st.one_of(val, val, kw)), [], put(p, ["slot", i])]
        if k == "reset":
            return ["act", draw(kw), [], put(p, draw(st.one_of(LITERAL.map(lambda v: ["lit", v]), st.sampled_from(dollars).map(lambda d: ["var", d]))))]
        if k == "flag":
            return ["opt", ["act", draw(kw), [], put(p, ["lit", draw(LITERAL)])]]
        if k == "optval":
            return ["opt", ["seq", [draw(kw), ["act", draw(val), [], put(p, ["slot", 2])]]]]
        if k == "alt":
            return ["alt", [["act", draw(st.one_of(kw, val)), [], put(p, draw(st.sampled_from([["slot", 1], ["lit", "chosen"], ["lit", n]])))]
                            for n in range(draw(st.integers(2, 3)))]]
        if k == "list":
            lists.add(p)
            lo = draw(st.integers(0, 2))
            rep = ["rep", ["act", draw(st.one_of(val, kw)), [], [["do", ["append", [["var", p], ["slot", 1]]]]]], lo, max(1, lo + draw(st.integers(0, 2)))]
            return rep if draw(st.booleans()) else ["opt", ["seq", [["kw", "?"], rep]]]
        if k == "set":
            return ["set", [item(1, 0) if n == 0 and draw(st.booleans()) else
                            ["opt", ["seq", [["kw", "?"], ["act", draw(val), [], put(draw(st.sampled_from(dollars)), ["slot", 2])]]]]
                            for n in range(draw(st.integers(2, 3)))]]
        if k == "ref":
            body = ["act", draw(st.one_of(val, kw)), [], put("$v", ["slot", 1])]
            if draw(st.booleans()):
                body = ["seq", [["kw", "?"], ["act", draw(val), [], put("$v", ["slot", 2])]]]
            return ["ref", body, [["$v", NO]], [[None if draw(st.booleans()) else "$v", ["var", p]]]]
        return rule(depth - 1)

    def rule(depth):
        n = draw(st.integers(1, 4))
        if n == 1:
            return ["alt", [item(1, depth), draw(kw)]]
        return ["seq", [item(i + 1, depth) for i in range(n)]]

    body = rule(2)
    if draw(st.integers(0, 2)) == 0:
        body = ["alt", [body, rule(1)]]
    if lists:
        body = ["act", body, [["set", p, ["list", []]] for p in sorted(lists)], []]
    return body


@st.composite
def handlers(draw):
    params = draw(st.lists(st.sampled_from(PARAMS), unique=True, max_size=3))
    return {"name": draw(st.integers(0, len(HOOKS) - 1)), "kind": draw(st.sampled_from(["doc"] * 6 + ["plain", "off"])), "params": params,
            "body": draw(docs(params)), "async": draw(st.booleans()), "default": draw(st.integers(0, 4)) == 0, "raises": draw(st.integers(0, 9)) == 0,
            "tail": draw(st.sampled_from(["", "", "", " # a note", " // a note", " /* a note */", "\n    # a note\n    "])),
            "wrap": draw(st.sampled_from(["none", "none", "none", "passing", "waiting", "twice", "static", "class"]))}


def cases():
    cls = st.fixed_dictionaries({"handlers": st.lists(handlers(), max_size=3, unique_by=lambda h: h["name"]), "mixin": st.integers(0, 3).map(lambda n: n == 0)})
    return st.fixed_dictionaries({
        "prefix": st.sampled_from(["do_", "do_", "do_", "cmd_", "on_", "x"]), "nargs": st.integers(0, 5), "no_builtin": st.booleans(), "base": st.booleans(),
        "shape": st.sampled_from(["chain", "chain", "diamond"]), "classes": st.lists(cls, min_size=1, max_size=4),
        "cuts": st.lists(st.integers(0, 40), min_size=4, max_size=4), "newline": st.sampled_from(["\n", "\n", "\r\n", "\r"]),
        "show": st.integers(0, 3).map(lambda n: n == 0), "style": gram.STYLE, "lines": st.lists(gram.INPUT, min_size=4, max_size=10)})


# ---------------------------------------------------------------- classes without a syntax

def run_dummy(case, rec):
    body = {"do_x%d" % i: (lambda self: self.calls.append("hook")) for i in range(case["hooks"])}
    cls = type("Plain", (Base,), body)
    streams = clih.Streams()
    cli = cls(loop=clih.loop(), prompt="# ", cli_hook_prefix=case["prefix"], disable_default_hooks=True, stdout=streams.out, stderr=streams.err)
    cli.calls = []
    for words in case["lines"]:
        streams.out.seek(0)
        streams.out.truncate()
        code = clih.run(cli.exec_line(" ".join(words)))
        eq("words echoed by a class without commands", streams.out.getvalue(), " ".join(words).replace('"', "") + "\n", words=words)
        eq("exit code", code, 0, words=words)
        eq("hooks run", cli.calls, [])
        if len(words) > 1:
            rec.nontriv()


def dummy_cases():
    return st.fixed_dictionaries({"hooks": st.integers(0, 2), "prefix": st.sampled_from(["do_", "none_"]),
                                  "lines": st.lists(st.lists(st.sampled_from(["a", "b1", '"two words"', "-3", "exit", "x.y"]), min_size=1, max_size=12), min_size=1, max_size=4)})


SUBS = [
    Sub("command-classes", cases, run, 250, 9000,
        "command classes with inherited, overridden, disabled, asynchronous and undocumented handlers over tokens and grammars of all classes, several lines each; "
        "non-trivial: at least two handlers run, and some handler has parameters"),
    Sub("no-commands", dummy_cases, run_dummy, 15, 400, "classes no hook of which has a syntax; non-trivial: a line of several words"),
]
ASSUMPTIONS = ["names are defined before they are used, base classes first", "memory tracing and system information commands are not executed",
               "the exit code of a line whose handler raises is not judged"]
