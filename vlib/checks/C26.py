"""C26 - everything an interface has to say goes to its own streams."""
import asyncio
import contextlib
import io
import os
import re
import shutil
import sys
import tempfile
import tracemalloc

from hypothesis import strategies as st

from vlib import clih
from vlib.clih import CR, EOF, T, TAB
from vlib.core import Sub, ensure, eq

LOCKED = []


class Odd(T.CliToken):
    """Fails where it is told to."""

    def __init__(self, name, where, cli=None, helpstring=None):
        self.where = where
        super().__init__(name, cli=cli, helpstring=helpstring)

    def fails(self, what):
        if what == self.where:
            raise LookupError("no " + what)

    async def match(self, token_input, cli=None):
        self.fails("match")
        return T.MATCH_SUCCESS

    async def complete(self, token_input, cli=None):
        self.fails("complete")
        return 0, []

    async def get_value(self, match_string=None, cli=None):
        self.fails("value")
        return "odd"

    @property
    def completable(self):
        return self.where == "complete"


class Unmade(T.CliToken):
    def __init__(self, name, cli=None, helpstring=None):
        raise LookupError("cannot be made")


class Mixed(T.CliToken):
    """Plain methods next to coroutines, of which a warning is given."""

    def get_value(self, match_string=None, cli=None):
        return match_string


TOKENS = """
token STR StringToken();
token ODDM Odd("match");
token ODDV Odd("value");
token UNMADE Unmade();
token PATH PathToken();
"""


class Talk:
    mixed = False

    def get_token_classes(self):
        return clih.TOKEN_CLASSES + [Odd, Unmade] + ([Mixed] if self.mixed else [])

    def tell(self, word):
        self.print("<t>", word)

    def warn(self, word):
        self.error("<w>", word)

    def both(self, word):
        self.error("<w>", word)
        self.print("<t>", word)

    def boom(self, word):
        raise ValueError("<b> " + word)

    async def slow(self, word):
        await asyncio.sleep(0)
        self.print("<s>", word)
        await asyncio.sleep(0)
        self.error("<s>", word)

    async def ask(self, word):
        answer = await self.input("<q> " + word + " ")
        self.print("<a>", answer)

    def file(self, name):
        self.add_file_to_execute("/nowhere/" + name)

    async def handle_eof(self):
        self.exit_loop()


class Plain(Talk, clih.NessaidCli):
    GRAMMAR = TOKENS + """
    g: "print" STR << print("<p>", $2); >>
      | "tell" STR << call tell($2); >>
      | "warn" STR << call warn($2); >>
      | "both" STR << call both($2); >>
      | "boom" STR << call boom($2); print("<p>", $2); >>
      | "slow" STR << call slow($2); >>
      | "ask" STR << call ask($2); >>
      | "file" STR << call file($2); >>
      | "nofn" STR << call nosuch($2); print("<p>", $2); >>
      | "wrong" STR << append(); print("<p>", $2); >>
      | "odd" (ODDM | ODDV)
      | "made" UNMADE
      | "twin" "alpha" STR << call tell($3); >>
      | "twin" "alps" STR << call tell($3); >>
      | "path" PATH;
    """

    def __init__(self, show=False, **kw):
        super().__init__(clih.compile_grammar(self.GRAMMAR), **kw)


class Command(Talk, clih.NessaidCmd):
    __doc__ = TOKENS

    def __init__(self, show=False, **kw):
        if show:
            kw["show_grammar"] = True
        super().__init__(**kw)

    def do_print(self, word):
        """
        "print" STR << print("<p>", $2); >>
        """

    def do_tell(self, word):
        """
        "tell" STR << $word = $2; >>
        """
        self.tell(word)

    def do_warn(self, word):
        """
        "warn" STR << $word = $2; >>
        """
        self.warn(word)

    def do_both(self, word):
        """
        "both" STR << $word = $2; >>
        """
        self.both(word)

    def do_boom(self, word):
        """
        "boom" STR << $word = $2; >>
        """
        self.print("<p>", word)
        self.boom(word)

    async def do_slow(self, word):
        """
        "slow" STR << $word = $2; >>
        """
        await self.slow(word)

    async def do_ask(self, word):
        """
        "ask" STR << $word = $2; >>
        """
        await self.ask(word)

    def do_file(self, name):
        """
        "file" STR << $name = $2; >>
        """
        self.file(name)

    def do_nofn(self):
        """
        "nofn" STR << call nosuch($2); print("<p>", $2); >>
        """

    def do_wrong(self):
        """
        "wrong" STR << append(); print("<p>", $2); >>
        """

    def do_odd(self):
        """
        "odd" (ODDM | ODDV)
        """

    def do_made(self):
        """
        "made" UNMADE
        """

    def do_twin(self, word):
        """
        "twin" ("alpha" | "alps") STR << $word = $3; >>
        """
        self.tell(word)

    def do_path(self):
        """
        "path" PATH
        """

    async def do_down(self, word):
        """
        "down" STR << $word = $2; >>
        """
        self.print("<d>", word)
        await self.enter_context(Below, prompt="child# ")

    def do_up(self, word):
        """
        "up" STR << $word = $2; >>
        """
        self.print("<u>", word)
        if self.parent:
            self.exit_loop()


class Below(Command):
    __doc__ = None


def said(text):
    return re.findall(r"<([a-z])> (\w+)", text)


def commands(kind, word):
    """What a line does: (texts put out, texts complained with, whether there is a complaint)."""
    if kind in ("print", "tell"):
        return [(kind[0], word)], [], False
    if kind == "warn":
        return [], [("w", word)], True
    if kind == "both":
        return [("t", word)], [("w", word)], True
    if kind == "boom":
        return [("p", word)], [("b", word)], True
    if kind == "slow":
        return [("s", word)], [("s", word)], True
    if kind in ("nofn", "wrong"):
        return [("p", word)], [], True
    if kind in ("file", "odd", "part", "bad", "token", "ambig"):
        return [], [], True
    if kind == "down":
        return [("d", word)], [], False
    if kind == "up":
        return [("u", word)], [], False
    return [], [], False


LINES = {"bad": "nosuch %s", "part": "tell", "token": "tell a\\b%s", "blank": "", "comment": "# tell %s", "made": "made UNMADE", "odd": "odd %s", "ambig": "twin al %s", "timing": "cmd-timing on",
         "profile": "cmd-profiling on", "trace": "tracemalloc delta 2", "path": 'path "%s"', "locked": 'path "%s/x'}


def line(kind, word):
    if kind in ("path", "locked"):
        return LINES[kind] % (LOCKED[0] if kind == "locked" else "/")
    text = LINES.get(kind, kind + " %s")
    return text % word if "%s" in text else text


class Model:
    """What one face puts out and complains about, per line typed."""

    def __init__(self, face):
        self.lines = []         # (keys or line, out, err, complaint: True, False or None for either)
        self.loose = False
        depth = 0
        made = [False]
        cmd = face["class"] == "cmd"
        loop = face["loop"]
        for n, kind in enumerate(face["ops"]):
            word = "w%d_%s" % (n, face["name"])
            if not cmd and kind in ("down", "up", "timing", "profile"):
                kind = "tell"
            if kind == "trace":
                # what is allocated differs from run to run
                kind = "trace" if cmd and face["trace"] else "bad"
                self.loose |= kind == "trace"
            if kind in ("timing", "profile"):
                # the times differ from run to run; below a context only the commands of the class are there
                kind = "bad" if depth else kind
                self.loose |= kind != "bad"
            if not loop and kind in ("down", "ask"):
                kind = "both"
            if kind == "comment" and not loop:
                kind = "blank"
            out, err, complaint = commands(kind, word)
            if kind == "locked":
                complaint = None
            if kind == "made":
                # reported when the token is first needed; a keyword takes its place
                complaint = not made[-1]
                made[-1] = True
            text = line(kind, word)
            if kind == "ask":
                out = [("q", word), ("a", "x" + word)]
                self.lines.append((text + "\0x" + word, out, err, complaint))
                continue
            if kind == "down":
                depth += 1
                made.append(False)
            if kind == "up" and depth:
                depth -= 1
                made.pop()
            self.lines.append((text, out, err, complaint))


class Feed:
    """Keys for the line editor, noting what was written when each line begins."""

    def __init__(self, cli, lines, mark, tabs):
        self.mark = mark
        self.keys = []
        for i, (text, *_) in enumerate(lines):
            self.keys.append(None)
            at = text.find(" ") + 1
            for j, c in enumerate(text):
                if j == at and at and tabs[i % len(tabs)] and text.startswith(("tell", "warn", "both")):
                    self.keys += [TAB] * tabs[i % len(tabs)]
                self.keys.append(CR if c == "\0" else c)
            self.keys.append(CR)
        self.keys.append(None)
        self.at = 0
        self.closed = 0
        self.cli = cli
        cli.readline.readchar = self.readchar

    async def readchar(self):
        await asyncio.sleep(0)
        while self.at < len(self.keys):
            self.at += 1
            k = self.keys[self.at - 1]
            if k is not None:
                return k
            self.mark()
        self.closed += 1
        if self.closed > 60:
            self.cli.exit_loop()
            raise clih.Stuck()
        return EOF


def make(face, out, err):
    base = Command if face["class"] == "cmd" else Plain
    cls = type("Face", (base,), {"mixed": face["mixed"], "__doc__": None})
    kw = {}
    if out is not None:
        kw["stdout"] = out
    if err is not None:
        kw["stderr"] = err
    if face["class"] == "cmd" and face["trace"]:
        kw["do_tracemalloc"] = True
    return cls(show=face["show"], loop=clih.loop(), prompt="%s# " % face["name"], **kw)


async def live(face, cli, mark):
    model = Model(face)
    if face["loop"]:
        Feed(cli, model.lines, mark, face["tabs"])
        if face["class"] == "cmd":
            await cli.cmdloop(intro="<i> hello")
        else:
            await cli.cmdloop("g", intro="<i> hello")
        return
    if face["class"] == "cli":
        cli.enter_grammar("g")
    for i, (text, *_) in enumerate(model.lines):
        mark()
        if face["tabs"][i % len(face["tabs"])]:
            success, _, toks = (cli.tokenize(text) + ((),))[:3]
            if success:
                if face["class"] == "cmd":
                    cli.enter_grammar(cli.generate_root_grammar_name())
                before = cli.stdout.tell()
                for n in range(len(toks) + 1):
                    await cli.match([str(t) for t in toks[:n]], dry_run=True, last_token_complete=bool(n % 2))
                if cli.stdout is not sys.stdout:
                    eq("put out when asked for suggestions", cli.stdout.getvalue()[before:], "", line=text, face=face)
                if face["class"] == "cmd":
                    cli.exit_grammar()
        await cli.exec_line(text)
        await asyncio.sleep(0)
    mark()


@contextlib.contextmanager
def locked():
    """A folder that may not be read."""
    real = os.listdir
    folder = tempfile.mkdtemp(prefix="c26_")
    path = os.path.join(folder, "locked")
    os.mkdir(path)

    def listdir(of="."):
        if os.path.normpath(of) == path:
            raise PermissionError(str(of))
        return real(of)
    os.listdir = listdir
    LOCKED.append(path)
    try:
        yield
    finally:
        os.listdir = real
        LOCKED.clear()
        shutil.rmtree(folder)


def run(case, rec):
    try:
        with locked():
            both(case, rec)
    finally:
        tracemalloc.stop()


def both(case, rec):
    alone = []
    for face in case["faces"]:
        # alone and with streams of its own
        note = {"face": face}
        out, err, sysout, syserr = io.StringIO(), io.StringIO(), io.StringIO(), io.StringIO()
        marks = []
        with contextlib.redirect_stdout(sysout), contextlib.redirect_stderr(syserr):
            cli = make(face, out, err)
            made = out.getvalue(), err.getvalue()
            clih.run(asyncio.wait_for(live(face, cli, lambda: marks.append((len(out.getvalue()), len(err.getvalue())))), 60))
        eq("written to the output of the program", sysout.getvalue(), "", **note)
        eq("written to the error output of the program", syserr.getvalue(), "", **note)
        eq("a warning about plain methods next to coroutines", bool(made[1]), face["mixed"], text=made[1], **note)
        eq("the grammar shown", bool(made[0]), face["show"] and face["class"] == "cmd", **note)
        model = Model(face)
        eq("lines", len(marks), len(model.lines) + 1, **note)
        if face["loop"]:
            ensure(out.getvalue()[:marks[0][0]].count("<i> hello\n") == 1, "the introduction is written to the output", **note)
        for (a, b), (c, d), (text, wout, werr, complaint) in zip(marks, marks[1:], model.lines):
            gout, gerr = out.getvalue()[a:c], err.getvalue()[b:d]
            here = dict(note, line=text, output=gout, errors=gerr)
            eq("put out", said(gout), wout, **here)
            eq("complained", said(gerr), werr, **here)
            if complaint is not None:
                eq("something is reported as an error", bool(gerr.strip()), complaint, **here)
            ensure(not text.startswith("tracemalloc") or complaint or "Total allocated size" in gout, "the memory in use is written to the output", **here)
            if not face["loop"] and not wout and not model.loose:
                eq("put out by a line that puts out nothing", gout, "", **here)
            rec.label("complaint" if complaint else "no complaint")
        alone.append((out.getvalue(), err.getvalue(), model.loose))
    # all of them, with or without streams
    sysout, syserr = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(sysout), contextlib.redirect_stderr(syserr):
        outs = [io.StringIO() if face["given"] & 1 else None for face in case["faces"]]
        errs = [io.StringIO() if face["given"] & 2 else None for face in case["faces"]]
        clis = [make(face, o, e) for face, o, e in zip(case["faces"], outs, errs)]

        async def all_of_them():
            jobs = [live(face, cli, lambda: None) for face, cli in zip(case["faces"], clis)]
            if case["together"]:
                await asyncio.gather(*jobs)
            else:
                for j in jobs:
                    await j
        clih.run(asyncio.wait_for(all_of_them(), 60))
    for which, program, given in ((0, sysout, outs), (1, syserr, errs)):
        name = ("output", "errors")[which]
        rest = []
        for i, s in enumerate(given):
            if s is None:
                rest.append(i)
                continue
            same("%s of interface %d" % (name, i), s.getvalue(), alone[i][which], alone[i][2], case)
        if len(rest) == 1:
            same("%s of interface %d, which uses those of the program" % (name, rest[0]), program.getvalue(), alone[rest[0]][which], alone[rest[0]][2], case)
        else:
            eq("%s of the program" % name, sorted(said(program.getvalue())), sorted(x for i in rest for x in said(alone[i][which])), case=case)
            if not rest:
                eq("%s of the program" % name, program.getvalue(), "", case=case)
        rec.label("%s of the program used by %d" % (name, len(rest)))
    if len(case["faces"]) > 1 and any(face["given"] != 3 for face in case["faces"]):
        rec.nontriv()


def same(what, got, want, loose, case):
    if loose:
        eq(what, said(got), said(want), case=case)
    else:
        steady = [re.sub(r"0x[0-9a-f]+", "0x", t) for t in (got, want)]
        eq(what, steady[0], steady[1], case=case)


KINDS = ["print", "tell", "warn", "both", "boom", "slow", "ask", "file", "nofn", "wrong", "odd", "made", "path", "locked", "down", "up", "bad", "ambig", "part", "token", "blank", "comment", "timing", "profile", "trace"]


@st.composite
def cases(draw):
    faces = []
    for i in range(draw(st.integers(1, 3))):
        faces.append({"name": "abc"[i], "class": draw(st.sampled_from(["cmd", "cmd", "cli"])), "loop": draw(st.booleans()), "mixed": draw(st.integers(0, 3)) == 0,
                      "show": draw(st.integers(0, 4)) == 0, "given": draw(st.sampled_from([3, 3, 3, 0, 1, 2])), "tabs": draw(st.lists(st.integers(0, 3), min_size=1, max_size=4)),
                      "trace": draw(st.integers(0, 5)) == 0})
        faces[-1]["ops"] = draw(st.lists(st.sampled_from(KINDS + ["trace"] * 10 * faces[-1]["trace"]), max_size=7))
    return {"faces": faces, "together": draw(st.booleans())}


SUBS = [
    Sub("streams", cases, run, 100, 3000,
        "up to three interfaces and command classes, in loops or executing lines, with and without streams of their own, one after another or at the same time, whose lines print, warn, raise, fail, are ambiguous, ask, "
        "use tokens that fail or cannot be made, folders that cannot be read, nested contexts, timing, profiling and memory statistics; non-trivial: several of them, at least one using a stream of the program"),
]
ASSUMPTIONS = ["a folder that may not be read is simulated by replacing os.listdir, because the checks run as root", "a class whose documentation is no grammar is not an interface yet"]
