"""C19 - nested contexts nest."""
import asyncio
import os
import shutil
import tempfile

from hypothesis import strategies as st

from vlib import clih, gram, script
from vlib.core import Sub, ensure, eq
from vlib.scan import Rejected, quote, scan, unescape
from vlib.checks.C16 import BUILTIN
from vlib.checks.C20 import expected, listed

STR, NUM = ["str"], ["int", 1, 9]
TOKENS = "token STR StringToken();\ntoken NUM RangedIntToken(1, 9);"


# what each command is: its syntax as a tree, as documentation, and its parameters
def command(name, variant, classes):
    if name == "say":
        return ["seq", [["kw", "say"], STR]], '"say" STR << $a = $2; >>', "a"
    if name == "pose":
        return ["seq", [["kw", "pose"], STR]], '"pose" STR << $a = $2; >>', "a"
    if name == "put":
        return ["seq", [["kw", "put"], NUM]], '"put" NUM << $a = $2; >>', "a"
    if name == "pair":
        return ["seq", [["kw", "pair"]] + [STR] * (1 + variant % 2)], '"pair" STR << $a = $2; >>' + (" STR << $b = $3; >>" if variant % 2 else ""), "a, b"
    if name == "boom":
        return ["seq", [["kw", "boom"], STR]], '"boom" STR << $a = $2; >>', "a"
    if name == "ask":
        return ["kw", "ask"], '"ask"', ""
    if name == "run":
        return ["seq", [["kw", "run"], STR]], '"run" STR << $a = $2; >>', "a"
    if name == "open":
        return ["seq", [["kw", "open"], NUM, ["opt", ["kw", "badly"]]]], '"open" NUM << $a = $2; >> { "badly" << $b = True; >> }', "a, b"
    if name == "leave":
        return ["seq", [["kw", "leave"], ["opt", NUM]]], '<< $a = 1; >> "leave" { NUM << $a = $1; >> }', "a"
    raise ValueError(name)


NAMES = ["say", "put", "pose", "pair", "boom", "ask", "run", "open", "leave"]


class Context(clih.NessaidCmd):
    """token SCRATCH;"""
    number = 0
    world = None

    def get_token_classes(self):
        return clih.TOKEN_CLASSES

    def log(self, *what):
        self.world.trace.append([self.number] + list(what))

    async def postintro(self):
        self.log("enter")
        self.world.stack.append(self.number)
        then = self.world.contexts[self.number]["then"]
        if then is not None:
            await self.go(then)

    async def go(self, number):
        c = self.world.contexts[number]
        await self.enter_context(self.world.classes[number], prompt="%d> " % number, use_parent_grammar=c["shares"],
                                 match_parent_grammar=c["falls"], disable_default_hooks=not c["builtin"])

    async def on_exit(self):
        self.log("exit")
        self.world.stack.pop()

    async def handle_eof(self):
        self.log("end")
        self.exit_loop()

    def say(self, a):
        self.log("say", str(a))

    def pose(self, a):
        self.log("pose", str(a))

    def put(self, a):
        self.log("put", a)

    async def pair(self, a, b):
        self.log("pair", str(a), str(b))

    def boom(self, a):
        self.log("boom", str(a))
        raise ValueError("boom")

    async def ask(self):
        self.world.asking = True
        self.log("answer", await self.input("? "))
        self.world.asking = False

    def load(self, a):
        self.log("run", str(a))
        self.add_file_to_execute(self.world.folder + "/" + a)

    async def open(self, a, b):
        self.log("open", a)
        if 0 < a < len(self.world.classes):
            await self.go(a)
        if b:
            raise ValueError("badly")

    def leave(self, a):
        self.log("leave", a)
        cli = self
        while a and cli:
            cli.exit_loop()
            cli = cli.parent
            a -= 1


class World:
    def __init__(self, contexts):
        self.contexts = contexts
        self.trace = script.Trace()
        self.stack = []
        self.asking = False
        self.classes = []
        for i, c in enumerate(contexts):
            body = {"number": i, "world": self}
            for name in c["commands"]:
                _, doc, params = command(name, c["variant"], len(contexts))
                scope = {}
                exec("async def do_{0}(self{1}):\n    r = self.{2}({3})\n    if r is not None:\n        await r\n".format(
                    name, ", " + params if params else "", "load" if name == "run" else name, params), scope)
                scope["do_" + name].__doc__ = doc
                body["do_" + name] = scope["do_" + name]
            # a context that shares the definitions of its parent has none of its own
            self.classes.append(type("Context%d" % i, (Context,), dict(body, __doc__=None if c["shares"] else TOKENS)))


# ---------------------------------------------------------------- TAB

class Hands:
    """Types the lines; before some of them, types the beginning of one, presses TAB and takes it back."""

    def __init__(self, world, cli, lines, looks):
        self.world = world
        self.cli = cli
        self.keys = self.type(lines, looks)
        self.failure = None
        self.looked = 0
        self.closed = 0
        cli.readline.readchar = self.readchar

    async def readchar(self):
        try:
            for k in self.keys:
                return k
        except Exception as e:
            # the line editor would swallow it
            self.failure = e
            self.keys = iter(())
        self.closed += 1
        if self.closed > 40:
            self.cli.exit_loop()
            raise clih.Stuck()
        return clih.EOF

    @property
    def line(self):
        return self.cli.readline.get_line_buffer()

    def type(self, lines, looks):
        before = ""
        for i, text in enumerate(lines):
            beginning, tabs = looks[i % len(looks)] if looks else ("", 0)
            if not self.world.asking and not before.rstrip().endswith("\\"):
                for _ in range(tabs):
                    yield from self.look(beginning if not self.line else "")
                while self.line:
                    yield clih.BACKSPACE
            before = text
            yield from text
            yield clih.CR

    def look(self, beginning):
        yield from beginning
        before = self.line
        at = self.cli.streams.out.tell()
        yield clih.TAB
        # asked for the next key: TAB was dealt with
        out = self.cli.streams.out.getvalue()[at:]
        note = dict(line=before, line_after=self.line, contexts=list(self.world.stack))
        stack = list(self.world.stack)
        while True:
            kind, suggestions, more = expected(syntax(self.world.contexts[stack[-1]]), before)
            if kind != "fail" or len(stack) < 2 or not self.world.contexts[stack[-1]]["falls"]:
                break
            stack.pop()
        self.looked += 1
        if kind == "fail":
            eq("line after TAB where nothing fits", self.line, before, **note)
            ensure("Fail" in out or "Exception" in out, "TAB where nothing fits says so", output=out, **note)
            return
        ensure(self.line.startswith(before), "typed characters were changed by TAB", **note)
        added = self.line[len(before):]
        ensure(more.startswith(added), "TAB added text that not every command of the current context shares", added=added, suggestions=suggestions, **note)
        if not added:
            eq("what TAB lists in the current context", listed(out), suggestions, output=out, **note)


# ---------------------------------------------------------------- reference

def syntax(c):
    return ["alt", [command(n, c["variant"], 0)[0] for n in c["commands"]] + (list(BUILTIN.values()) if c["builtin"] else [])]


class Machine:
    def __init__(self, contexts, files, terminal):
        self.contexts = contexts
        self.lines = script.Lines(files, terminal)
        self.trace = script.Trace()
        self.stack = []
        self.falls = 0
        self.unclear = 0

    def log(self, what, *values):
        self.trace.append([self.stack[-1], what] + list(values))

    def understand(self, number, toks):
        """("success", values), ("partial", None), ("ambiguous", None) or ("failure", None)"""
        tree = syntax(self.contexts[number])
        steps = gram.readings(tree, toks)
        if len(steps) <= len(toks):
            return "failure", None
        done = {h for s, h in steps[-1] if gram.accepting(s)} if toks else set()
        if not done:
            return "partial", None
        kept = gram.resolve(done, toks)
        if len(kept) > 1:
            return "ambiguous", None
        values = [gram.value(leaf, t) for (leaf, _), t in zip(kept[0], toks)]
        return "success", [unescape(v) if isinstance(v, str) else v for v in values]

    def begins(self, at, toks):
        c = self.stack[at]
        return self.understand(c, toks)[0] != "failure" or (at > 0 and self.contexts[c]["falls"] and self.begins(at - 1, toks))

    def enter(self, number):
        self.stack.append(number)
        self.log("enter")
        if self.contexts[number]["then"] is not None:
            self.enter(self.contexts[number]["then"])

    def leave(self):
        self.log("exit")
        self.stack.pop()

    def execute(self, toks):
        while True:
            state, got = self.understand(self.stack[-1], toks)
            if state == "failure" and len(self.stack) > 1 and self.contexts[self.stack[-1]]["falls"] and self.begins(len(self.stack) - 2, toks):
                self.falls += 1
                self.leave()
                continue
            if state == "success":
                self.act(got)
            elif toks:
                self.unclear += state == "ambiguous"
                self.trace.error()
            return

    def act(self, got):
        what = got[0]
        if what in ("say", "put", "pose"):
            self.log(*got)
        elif what == "pair":
            self.log(*(got + [""])[:3])
        elif what == "boom":
            self.log(*got)
            self.trace.error()
        elif what == "ask":
            answer = self.lines.next()
            self.log("answer", "" if answer is None else answer)
        elif what == "run":
            self.log(*got)
            if not self.lines.push(got[1]):
                self.trace.error()
        elif what == "open":
            self.log(*got[:2])
            if len(got) > 2:
                self.trace.error()
            if 0 < got[1] < len(self.contexts):
                self.enter(got[1])
        elif what == "leave":
            count = got[1] if len(got) > 1 else 1
            self.log("leave", count)
            for _ in range(min(count, len(self.stack))):
                self.leave()
        elif what in ("exit", "quit"):
            self.leave()

    def run(self):
        self.enter(0)
        while self.stack:
            line = script.logical(self.lines)
            if line is None:
                self.log("end")
                self.leave()
                continue
            try:
                toks = [t[0] for t in scan(line)]
            except Rejected:
                self.trace.error()
                continue
            if toks:
                self.execute(toks)


def run(case, rec):
    contexts = case["contexts"]
    if any(c["builtin"] and c["shares"] for c in contexts):
        rec.label("built-in commands and shared definitions")
    folder = tempfile.mkdtemp(prefix="c19_")
    try:
        files = {}
        for i, lines in enumerate(case["files"]):
            files["f%d" % i] = lines
            with open(folder + "/f%d" % i, "w") as fd:
                fd.write("".join(x + "\n" for x in lines))
        m = Machine(contexts, files, case["terminal"])
        m.lines.push("f0")
        m.run()
        world = World(contexts)
        world.folder = folder
        streams = clih.Streams()
        streams.err = script.Err(world.trace)
        cli = world.classes[0](loop=clih.loop(), prompt="# ", disable_default_hooks=not contexts[0]["builtin"], filename=os.path.join(folder, "f0"),
                               stdout=streams.out, stderr=streams.err)
        cli.streams = streams
        # a line continued on the terminal would be shown whole by TAB
        looks = [] if any(f and f[-1].rstrip().endswith("\\") for f in case["files"]) else case["looks"]
        hands = Hands(world, cli, case["terminal"], looks)
        clih.run(asyncio.wait_for(cli.cmdloop(), 60))
        if hands.failure:
            raise hands.failure
        eq("what the lines did", list(world.trace), list(m.trace), errors=streams.err.getvalue(), contexts=contexts, files=files, terminal=case["terminal"])
        depth = top = 0
        for t in m.trace:
            if t != "error" and t[1] == "enter":
                depth += 1
            elif t != "error" and t[1] == "exit":
                depth -= 1
            top = max(top, depth)
        rec.label("depth %d" % min(top, 6))
        if m.falls:
            rec.label("fallback")
        if m.unclear:
            rec.label("ambiguous line")
        if hands.looked:
            rec.label("TAB pressed")
        if top > 2 or m.falls:
            rec.nontriv()
    finally:
        shutil.rmtree(folder)


# ---------------------------------------------------------------- strategies

WORD = st.sampled_from(["a", "bb", "#d", "leave", "3", "two words"]).map(lambda w: quote(w) if " " in w else w)


@st.composite
def line(draw, contexts, files):
    k = draw(st.sampled_from(["say", "put", "pair", "pair", "boom", "ask", "run", "open", "open", "open", "leave", "bad", "short", "short", "exit", "comment", "cont"]))
    if k == "short":
        out = draw(st.sampled_from(["p 3", "p a", "p a", "p a", "p bb", "p 3 4", "po bb", "s a", "l", "o 1", "o 2", "a", "b a", "r f9", "pu 3", "pa 3", "e"]))
    elif k == "say":
        out = "say " + draw(WORD)
    elif k == "put":
        out = "put %d" % draw(st.integers(0, 5))
    elif k == "pair":
        out = "pair " + " ".join(draw(st.lists(WORD, min_size=1, max_size=3)))
    elif k == "boom":
        out = "boom " + draw(WORD)
    elif k == "run":
        out = "run f%d" % draw(st.sampled_from(files)) if files else "run f9"
    elif k == "open":
        out = "open %d" % draw(st.integers(1, max(1, contexts - 1))) + draw(st.sampled_from(["", "", "", " badly"]))
    elif k == "leave":
        out = draw(st.sampled_from(["leave", "leave", "leave 2", "leave 3", "l", "leave me"]))
    elif k == "bad":
        out = draw(st.sampled_from(["zzz", "say", "say a b", "put x", "p", "", "  ", "say \\x", "open", "open 9", "o 1", "open 1 b", "pair"]))
    elif k == "exit":
        out = draw(st.sampled_from(["exit", "quit", "e"]))
    elif k == "comment":
        out = "# leave"
    elif k == "cont":
        out = "say \\"
    else:
        out = k
    return out


@st.composite
def cases(draw):
    n = draw(st.integers(2, 5))
    contexts = []
    for i in range(n):
        every = set(draw(st.lists(st.sampled_from(NAMES), min_size=2, max_size=7)))
        every |= {"open"} if i == 0 or draw(st.integers(0, 2)) else set()
        every |= {"leave"} if draw(st.integers(0, 2)) else set()
        contexts.append({"commands": sorted(every), "variant": draw(st.integers(0, 1)), "falls": draw(st.booleans()) if i else False,
                         "shares": draw(st.integers(0, 2)) == 0 if i else False, "builtin": draw(st.integers(0, 3)) == 0,
                         "then": draw(st.integers(i + 1, n - 1)) if i < n - 1 and draw(st.integers(0, 4)) == 0 else None})
    f = draw(st.integers(1, 3))
    files = [draw(st.lists(line(n, list(range(i + 1, f))), max_size=14)) for i in range(f)]
    look = st.tuples(st.sampled_from(["", "l", "o", "s", "p", "pu", "b", "e", "say ", "open ", "pair a ", "open 1 ", "leave "]), st.sampled_from([0, 1, 1, 2, 3])).map(list)
    return {"contexts": contexts, "files": files, "terminal": draw(st.lists(line(n, list(range(1, f))), max_size=8)), "looks": draw(st.lists(look, max_size=6))}


SUBS = [
    Sub("histories", cases, run, 200, 9000,
        "up to five kinds of contexts that open one another, with and without fallback, shared definitions, built-in commands and contexts opened at the start, under generated lines, with TAB pressed between them; "
        "non-trivial: contexts are nested three deep, or a line falls back on a parent"),
]
ASSUMPTIONS = ["a line with which a command of the context itself begins never falls back", "contexts are opened by handlers and after the introduction"]
