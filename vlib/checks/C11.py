"""C11 - the action language computes what it says."""
import asyncio
import copy
import functools
import io

from hypothesis import strategies as st

from vlib import clih, gram
from vlib.core import Sub, eq, ensure
from vlib.scan import quote

VARS = {"num": ["$n", "$m"], "str": ["$s", "$word"], "list": ["$l", "$k2"], "dict": ["$d"], "set": ["$t"], "any": ["$z", "$call", "$None1"]}
ALL = [v for vs in VARS.values() for v in vs]
START = {"num": ["lit", 0], "str": ["lit", ""], "list": ["list", []], "dict": ["dict", []], "set": ["set", []], "any": ["lit", None]}
NAMES = ["ext", "callback", "Truest", "None_x", "call2", "token", "x", "printer", "lister", "Falsey", "list", "append", "dict", "inc", "call", "None", "False"]


class Boom(Exception):
    pass


# ---------------------------------------------------------------- reference

class Eval:
    def __init__(self, slots, returns):
        self.slots = slots
        self.vars = {}
        self.calls = []
        self.out = io.StringIO()
        self.raised = []
        self.odd = False        # a built-in function got something it cannot work on
        self.returns = returns

    def value(self, e):
        k = e[0]
        if k == "lit":
            return e[1]
        if k == "num":
            return float(e[1]) if "." in e[1] else int(e[1])
        if k == "var":
            return self.vars.get(e[1])
        if k == "slot":
            return self.slots.get(e[1])
        args = [self.value(x) for x in e[-1]]
        if k == "call":
            self.calls.append(clih.snapshot([e[1]] + args))
            return copy.deepcopy(self.returns[e[1]])
        if k == "boom":
            self.calls.append(clih.snapshot(["boom"] + args))
            self.raised.append("out of order")
            return None
        if k == "missing":
            self.raised.append("nosuch")
            return None
        if k == "list":
            return list(args)
        if k == "dict":
            return {}
        if k == "set":
            return set(args)
        if k == "append":
            for a in args[1:]:
                if isinstance(args[0], list):
                    args[0].append(a)
                elif isinstance(args[0], set):
                    try:
                        args[0].add(a)
                    except TypeError:
                        self.raised.append("unhashable")
                        return None
            return args[0]
        if k == "update":
            if len(args) < 3:
                return None
            if isinstance(args[0], dict):
                try:
                    args[0][args[1]] = args[2]
                except TypeError:
                    self.raised.append("unhashable")
                    return None
            return args[0]
        if k in ("add", "inc", "dec"):
            # what cannot be added is left out
            total = args[0]
            for a in {"add": args[1:], "inc": [1], "dec": [-1]}[k]:
                try:
                    total = total + a
                except TypeError:
                    self.odd = True
            return total
        if k in ("print", "callprint"):
            print(*args, file=self.out)
            return None
        raise ValueError(k)

    def perform(self, s):
        if s[0] == "set!":
            self.vars[s[1]] = self.value(s[2])
        else:
            self.value(s)


# ---------------------------------------------------------------- text

class Write:
    def __init__(self, style):
        self.t = gram.Text(style)

    def g(self):
        return self.t.gap() if self.t.pick(3) == 0 else ""

    def expr(self, e):
        k = e[0]
        if k == "lit":
            return quote(e[1]) if isinstance(e[1], str) else repr(e[1])
        if k == "num":
            return e[1]
        if k == "var":
            return e[1]
        if k == "slot":
            return "$%d" % e[1]
        args = ("," + self.g()).join(self.expr(x) for x in e[-1])
        head = {"call": "call%s%s", "boom": "call%sboom", "missing": "call%snosuch", "callprint": "call%sprint"}.get(k)
        if k == "call":
            head = "call%s%s" % (self.t.gap(), e[1])
        elif head:
            head = head % self.t.gap()
        else:
            head = k
        return head + self.g() + "(" + self.g() + args + self.g() + ")"

    def stmt(self, s):
        if s[0] == "set!":
            return s[1] + self.g() + "=" + self.g() + self.expr(s[2]) + self.g() + ";"
        return self.expr(s) + self.g() + ";"


# ---------------------------------------------------------------- running

def make(name, calls, value, shape):
    """An application function: plain, a coroutine function, and what is not recognized as one at first sight."""
    def fn(*args):
        calls.append(clih.snapshot([name] + list(args)))
        return copy.deepcopy(value)

    async def afn(*args):
        await asyncio.sleep(0)
        return fn(*args)

    class Callable:
        async def __call__(self, *args):
            return await afn(*args)
    return [fn, afn, fn, afn, lambda *args: fn(*args), lambda *args: afn(*args), functools.partial(afn), Callable()][shape]


class Prefixed(clih.Iface):
    def get_cli_hook(self, func_name):
        return "hook_" + func_name


def typed(v):
    """A form of a value that tells 1 from True and from 1.0."""
    if isinstance(v, list):
        return [typed(x) for x in v]
    if isinstance(v, dict):
        return ["dict"] + [[typed(k), typed(x)] for k, x in v.items()]
    if isinstance(v, set):
        return ["set"] + sorted((typed(x) for x in v), key=repr)
    return [type(v).__name__, v]


def run(case, rec):
    w = Write(case["style"])
    begin = [["set!", v, START[k]] for k, vs in VARS.items() for v in vs]
    program = begin + case["program"]
    end = ["call", "ext", [["var", v] for v in ALL]]
    blocks, current = [], []
    for i, s in enumerate(program + [end]):
        current.append(w.stmt(s))
        if i >= len(begin) and w.t.pick(5) == 4:
            blocks.append(current)
            current = []
    blocks.append(current)
    text = w.t.gap().join("<<" + w.t.gap() + w.t.gap().join(b) + w.t.gap() + ">>" for b in blocks)
    src = "token N RangedIntToken(0, 99);\ntoken S StringToken();\ng: (N S) %s;" % text
    # $1 and $2 are N and S only within the sequence
    src = src if not case["inside"] else "token N RangedIntToken(0, 99);\ntoken S StringToken();\ng: N S %s;" % text
    cli = clih.iface(src, cls=Prefixed if case["hooks"] else clih.Iface)
    prefix = "hook_" if case["hooks"] else ""
    returns = {n: case["returns"][i] for i, n in enumerate(NAMES)}
    for i, n in enumerate(NAMES):
        setattr(cli, prefix + n, make(n, cli.calls, returns[n], case["shapes"][i]))

    def boom(*args):
        cli.calls.append(clih.snapshot(["boom"] + list(args)))
        raise Boom("out of order")

    async def aboom(*args):
        boom(*args)
    setattr(cli, prefix + "boom", [boom, aboom, lambda *args: aboom(*args)][case["shapes"][0] % 3])
    if prefix:
        setattr(cli, prefix + "print", cli.print)

    slots = {1: case["n"], 2: case["s"]} if case["inside"] else {1: [case["n"], case["s"]]}
    for turn in (1, 2):
        cli.calls.clear()
        cli.streams.out.seek(0)
        cli.streams.out.truncate()
        cli.streams.err.seek(0)
        cli.streams.err.truncate()
        res = clih.execute(cli, [str(case["n"]), case["s"]])
        note = {"grammar": src, "turn": turn}
        eq("result", res.result, "success", error=res.error, **note)
        ref = Eval({k: clih.snapshot(v) for k, v in slots.items()}, returns)
        for s in program + [end]:
            ref.perform(s)
        eq("calls", [[c[0], typed(c[1:])] for c in cli.calls], [[c[0], typed(c[1:])] for c in ref.calls], **note)
        eq("printed", cli.streams.out.getvalue(), ref.out.getvalue(), **note)
        err = cli.streams.err.getvalue()
        for text in ("out of order", "nosuch", "unhashable"):
            ensure(err.count(text) >= ref.raised.count(text), "a failing call was not reported", err=err, expected=ref.raised, **note)
        ensure(bool(err) == bool(ref.raised), "errors reported", err=err, expected=ref.raised, **note)
    if ref.odd:
        rec.label("arguments that do not add")
    kinds = {k for k in ["call", "boom", "missing", "list", "dict", "set", "append", "update", "add", "inc", "dec", "print"]
             if "'%s'" % k in repr(case["program"])}
    for k in kinds:
        rec.label(k)
    rec.label("statements %d" % min(len(case["program"]), 8))
    if len(kinds) >= 3:
        rec.nontriv()


# ---------------------------------------------------------------- programs

TEXT = st.one_of(st.sampled_from(["", "a", "two words", "x;y", "call", "a,b)", "#no", "//no", "/*no*/", "C:\\new", "\\", "a\\\\b", "\\n", "<<", "$1", "tab\tnl\n", 'q"q', "\x07\x08\x0b\r\0", "=", "'", ">", "a > b", "->"]),
                 st.text(st.characters(min_codepoint=32, max_codepoint=0x2fff, exclude_characters='"', exclude_categories=("Cs", "Zl", "Zp", "Cc")), max_size=6).filter(lambda t: ">>" not in t))
NUMBER = st.one_of(st.integers(-10 ** 6, 10 ** 20).map(str), st.integers(0, 9).map(lambda i: "+%d" % i),
                   st.tuples(st.integers(-99, 999), st.integers(0, 999)).map(lambda p: "%d.%03d" % p), st.sampled_from([".5", "0.0", "-1.25", "+2.5", "10.50"]))


def expressions(depth):
    """A strategy of expressions for every type."""
    var = {k: st.sampled_from(vs).map(lambda v: ["var", v]) for k, vs in VARS.items()}
    lits = {"num": NUMBER.map(lambda t: ["num", t]), "str": TEXT.map(lambda t: ["lit", t]),
            "any": st.sampled_from([True, False, None]).map(lambda v: ["lit", v])}
    scalar = st.one_of(lits["num"], lits["str"], lits["any"], var["num"], var["str"])
    ex = {"num": st.one_of(lits["num"], var["num"]), "str": st.one_of(lits["str"], var["str"]), "list": var["list"], "dict": var["dict"], "set": var["set"],
          "scalar": scalar, "any": st.one_of(scalar, var["list"], var["dict"], var["set"], var["any"], st.sampled_from([["slot", 1], ["slot", 2], ["slot", 3]]))}
    for _ in range(depth):
        p = dict(ex)

        def call(name, *parts):
            return st.tuples(*parts).map(lambda a: [name, list(a)])

        def many(name, x, lo=0, hi=3, first=()):
            return st.tuples(st.tuples(*first), st.lists(x, min_size=lo, max_size=hi)).map(lambda a: [name, list(a[0]) + a[1]])
        fresh = st.one_of(p["scalar"], many("list", p["scalar"]))
        ex["num"] = st.one_of(p["num"], call("inc", p["num"]), call("dec", p["num"]), many("add", p["num"], 0, 3, (p["num"],)))
        ex["str"] = st.one_of(p["str"], many("add", p["str"], 0, 2, (p["str"],)))
        ex["list"] = st.one_of(var["list"], many("list", fresh), many("append", fresh, 1, 3, (p["list"],)), many("add", many("list", fresh), 0, 1, (many("list", fresh),)))
        ex["dict"] = st.one_of(var["dict"], call("dict"), call("update", p["dict"], p["scalar"], fresh))
        ex["set"] = st.one_of(var["set"], many("set", p["scalar"]), many("append", p["scalar"], 1, 3, (p["set"],)))
        ext = st.tuples(st.sampled_from(NAMES), st.lists(p["any"], max_size=3)).map(lambda a: ["call", a[0], a[1]])
        ex["any"] = st.one_of(p["any"], ex["num"], ex["str"], ex["list"], ex["dict"], ex["set"], ext, ext, many("boom", p["any"]), many("missing", p["any"]), many("print", p["any"]), many("callprint", p["any"]),
                          many("add", st.one_of(p["scalar"], p["any"]), 1, 3, (p["any"],)), call("inc", p["any"]), call("dec", p["any"]),
                          many("append", fresh, 1, 3, (p["any"],)), many("update", p["scalar"], 0, 3, (p["any"],)))
        ex["scalar"] = st.one_of(p["scalar"], ex["num"], ex["str"])
    return ex


def cases():
    ex = expressions(2)
    assigns = [st.tuples(st.just("set!"), st.sampled_from(VARS[k]), ex[k]).map(list) for k in ("num", "str", "list", "dict", "set", "any")]
    call = st.tuples(st.just("call"), st.sampled_from(NAMES), st.lists(ex["any"], max_size=4)).map(list)
    asked = st.tuples(st.just("set!"), st.sampled_from(VARS["any"]), call).map(list)
    handed = st.tuples(st.just("call"), st.sampled_from(NAMES), st.lists(st.one_of(call, ex["any"]), min_size=1, max_size=3)).map(list)
    do = st.one_of(st.lists(ex["any"], max_size=3).map(lambda a: ["print", a]), st.lists(ex["any"], max_size=2).map(lambda a: ["boom", a]),
                   st.lists(ex["any"], max_size=2).map(lambda a: ["missing", a]),
                   ex["list"].filter(lambda e: e[0] == "append"), ex["dict"].filter(lambda e: e[0] == "update"), ex["set"].filter(lambda e: e[0] == "append"))
    return st.fixed_dictionaries({
        "program": st.lists(st.one_of(*assigns, asked, handed, call, do, do), min_size=1, max_size=9), "style": gram.STYLE,
        "returns": st.lists(st.sampled_from([None, 0, 1, "text", 2.5, True, [], [1, "x"], "C:\\new\\", 'say "hi"\n', [["\\t", 1]]]), min_size=len(NAMES), max_size=len(NAMES)),
        "shapes": st.lists(st.integers(0, 7), min_size=len(NAMES), max_size=len(NAMES)), "hooks": st.booleans(), "inside": st.booleans(),
        "n": st.integers(0, 99), "s": st.sampled_from(["w", "word", "7"])})


SUBS = [
    Sub("programs", cases, run, 400, 10000,
        "programs of up to nine statements with nested calls, every literal and built-in function, application functions that return, raise or do not exist, sync and async, run twice; "
        "non-trivial: at least three kinds of functions used"),
]
ASSUMPTIONS = ["the application's own functions are only given values they accept", "hexadecimal numbers and >> in actions are left out",
               "application functions return numbers, truth values, None, texts and lists of them"]
