"""A command class that records what it is told, and what it should do with every line."""
import asyncio
import io

from vlib import clih, gram
from vlib.scan import Rejected, scan, unescape


class Err(io.StringIO):
    """An error stream that leaves a mark in the trace."""

    def __init__(self, trace):
        super().__init__()
        self.trace = trace

    def write(self, text):
        if self.trace[-1:] != ["error"]:
            self.trace.append("error")
        return super().write(text)


STR = ["str"]
COMMANDS = {
    "say": ["seq", [["kw", "say"], ["rep", STR, 1, 6]]],
    "boom": ["seq", [["kw", "boom"], ["one", ["now", "later"]]]],
    "ask": ["seq", [["kw", "ask"], ["int", 1, 3]]],
    "terminal": ["seq", [["kw", "terminal"], ["int", 1, 3]]],
    "run": ["seq", [["kw", "run"], STR]],
    "quit": ["kw", "quit"],
}


class Shell(clih.NessaidCmd):
    r"""
    token STR StringToken();
    token COUNT RangedIntToken(1, 3);
    token WHEN AlternativeStringsToken("now", "later");
    """
    folder = None
    trace = None

    def get_token_classes(self):
        return clih.TOKEN_CLASSES

    def do_say(self, words):
        r"""
        << $words = list(); >>
        "say"
        (STR << append($words, $1); >>) * (1:6)
        """
        self.trace.append(["say"] + [str(w) for w in words])

    async def do_boom(self, when):
        r"""
        "boom" WHEN << $when = $2; >>
        """
        self.trace.append(["boom", str(when)])
        if when == "later":
            await asyncio.sleep(0)
        raise ValueError("boom")

    async def do_ask(self, count):
        r"""
        "ask" COUNT << $count = $2; >>
        """
        for i in range(count):
            self.trace.append(["answer", await self.input("%d? " % i, show_char=i != 1)])

    async def do_terminal(self, count):
        r"""
        "terminal" COUNT << $count = $2; >>
        """
        for i in range(count):
            self.trace.append(["answer", await self.input("%d? " % i, from_stdin=True)])

    def do_run(self, name):
        r"""
        "run" STR << $name = $2; >>
        """
        self.trace.append(["run", str(name)])
        self.add_file_to_execute(self.folder + "/" + name)

    def do_quit(self):
        r"""
        "quit"
        """
        self.trace.append(["quit"])
        self.exit_loop()

    async def handle_eof(self):
        self.trace.append(["end"])
        self.exit_loop()


def parse(line, commands):
    """None for nothing to do, "error", or the command with its values."""
    try:
        toks = [t[0] for t in scan(line)]
    except Rejected:
        return "error"
    if not toks:
        return None
    tree = ["alt", list(commands.values())]
    steps = gram.readings(tree, toks)
    if len(steps) <= len(toks):
        return "error"
    kept = gram.resolve({h for s, h in steps[-1] if gram.accepting(s)}, toks)
    if len(kept) != 1:
        return "error"
    values = [gram.value(leaf, t) for (leaf, _), t in zip(kept[0], toks)]
    return [unescape(v) if isinstance(v, str) else v for v in values]


class Lines:
    """The pending lines: files on top of files, on top of the terminal."""

    def __init__(self, files, terminal):
        self.files = files          # {name: [lines]}, None for one that cannot be read
        self.stack = []
        self.terminal = list(terminal)

    def push(self, name):
        lines = self.files.get(name)
        if lines is None:
            return False
        self.stack.append([x.rstrip() for x in lines])
        return True

    def next(self, terminal=False):
        while self.stack and not terminal:
            if self.stack[-1]:
                return self.stack[-1].pop(0)
            self.stack.pop()
        return self.terminal.pop(0) if self.terminal else None


class Trace(list):
    def error(self):
        if self[-1:] != ["error"]:
            self.append("error")


def logical(lines):
    """The next complete line: continuations joined, comments skipped; None at the end of everything."""
    line = ""
    while True:
        more = lines.next()
        if more is None:
            return None
        line += more
        if line.rstrip().endswith("\\"):
            line = line.rstrip()[:-1]
        elif line.lstrip().startswith("#"):
            line = ""
        else:
            return line


def effect(got, lines, trace):
    """What one of the commands does; whether the loop goes on."""
    if got[0] == "say":
        trace.append(got)
    elif got[0] == "boom":
        trace.append(got)
        trace.error()
    elif got[0] in ("ask", "terminal"):
        for _ in range(got[1]):
            answer = lines.next(got[0] == "terminal")
            trace.append(["answer", "" if answer is None else answer])
    elif got[0] == "run":
        trace.append(got)
        if not lines.push(got[1]):
            trace.error()
    elif got[0] == "quit":
        trace.append(got)
        return False
    return True
