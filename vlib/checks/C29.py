"""C29 - the history keys bring back the lines that were entered."""
import asyncio
import os
import re
import shutil
import tempfile

from hypothesis import strategies as st

from vlib import clih
from vlib.checks import C27
from vlib.clih import BACKSPACE, CR
from vlib.core import Sub, ensure, eq

UP, DOWN, FIRST, LAST = "\x1b[A", "\x1b[B", "\x1b[5~", "\x1b[6~"
KEYS = {"up": UP, "down": DOWN, "first": FIRST, "last": LAST, "back": BACKSPACE, "enter": CR}
GRAMMAR = 'token ZINT RangedIntToken(-20, 300); root: "zprobe" ZINT << call ext("probe", $2); >> | "ask" << $a = input("? "); call ext("answer", $a); >> | "file" "one" << call ext("file"); call run(); >>;'


class Model:
    """The edited line, and what the history holds."""

    def __init__(self, size):
        self.size = size
        self.entry = str.strip
        self.history = []
        self.asking = False
        self.start()

    def start(self):
        self.buffer = ""
        self.index = None
        self.backup = None

    def enter(self):
        line = self.buffer
        if line and not self.asking and self.history[-1:] != [self.entry(line)]:
            self.history.append(self.entry(line))
            del self.history[:max(0, len(self.history) - self.size)]
        self.start()
        return line

    def key(self, k):
        if k == "back":
            self.buffer = self.buffer[:-1]
        elif len(k) == 1:
            self.buffer += k
        elif self.asking:
            return
        elif k in ("up", "down"):
            if self.index is None:
                self.index = len(self.history)
            if self.backup is None:
                self.backup = self.buffer
            if k == "up":
                if self.index:
                    self.index -= 1
                    self.buffer = self.history[self.index]
            else:
                self.index = min(self.index + 1, len(self.history))
                if self.index < len(self.history):
                    self.buffer = self.history[self.index]
                elif self.backup != self.buffer:
                    self.buffer, self.backup = self.backup, None
        elif self.history:
            if self.backup is None:
                self.backup = self.buffer
            if k == "first" and self.index != 0:
                self.index = 0
                self.buffer = self.history[0]
            elif k == "last" and self.index != len(self.history):
                self.index = len(self.history)
                self.buffer, self.backup = self.backup, None


class Plain(clih.Cli):
    over = False

    async def handle_eof(self):
        if self.over:
            self.exit_loop()

    def run(self):
        self.add_file_to_execute(os.path.join(self.own_folder, "one"))


class Private(C27.Common, clih.NessaidCmd):
    # keeps its lines to itself, and a shorter history
    __doc__ = C27.DOC
    # (leaving a context brings the usual settings back, even within this one)
    do_context = None

    @property
    def host(self):
        return self.parent.host

    async def preloop(self):
        model = self.host.model
        model.size, model.entry = 3, hidden
        self.readline.set_history_size(3)
        self.readline.set_prepare_history_entry(hidden)

    async def context_loop(self):
        try:
            await super().context_loop()
        finally:
            model = self.host.model
            model.size, model.entry = 100, str.strip


def hidden(line):
    return "#" * len(line)


class Host(C27.Shell):
    host = property(lambda self: self.parent.host if self.parent else self)

    async def do_private(self, fall):
        """ "private" << $fall = ""; >> {"parent" << $fall = "match"; >>} """
        self.done("private")
        await self.enter_context(Private, prompt="> ", match_parent_grammar=bool(fall))


PROBE = re.compile(r"\s*(?:z|zp|zpr|zpro|zprob|zprobe)\s+(\d+)\s*")


def run(case, rec):
    folder = tempfile.mkdtemp()
    try:
        with open(os.path.join(folder, "one"), "w") as f:
            f.write("zprobe 77\nzprobe 78\n")
        follow(case, rec, folder)
    finally:
        shutil.rmtree(folder)


def follow(case, rec, folder):
    plain = case["size"] is not None
    if plain:
        cli = Plain(GRAMMAR, history_size=case["size"])
        cli.own_folder = folder
        model = Model(case["size"])
    else:
        cli = C27.shell(folder, Host)
        cli.model = model = Model(100)
    keys = []
    for n in range(case["before"]):
        keys += list("zprobe %d" % (n % 7)) + ["enter"]
    for parts in case["lines"]:
        for p in parts:
            keys += [p] if p in KEYS else list(p)
        keys.append("enter")
    # an answer still open
    keys += ["enter"] * 2
    note = {"keys": keys, "size": model.size}
    bad = []
    probes = []
    recalled = [0]
    ask, run_file = cli.input, cli.add_file_to_execute

    async def asking(*args, **kw):
        model.asking = True
        try:
            return await ask(*args, **kw)
        finally:
            model.asking = False

    def running(name):
        probes.extend([77, 78])
        run_file(name)

    cli.input, cli.add_file_to_execute = asking, running

    def before(i, buffer):
        """Called before key i is typed."""
        cli.over = i >= len(keys)
        if buffer != model.buffer and not bad:
            bad.append((i, buffer, model.buffer))
        if i >= len(keys):
            return
        if keys[i] != "enter":
            model.key(keys[i])
            return
        recalled[0] += model.index is not None and not model.asking
        was_asking = model.asking
        m = PROBE.fullmatch(model.enter())
        if m and int(m.group(1)) <= 300 and not was_asking:
            probes.append(int(m.group(1)))

    cli.feed = clih.Keys(cli, [KEYS.get(k, k) for k in keys], before)
    clih.run(asyncio.wait_for(cli.cmdloop("root") if plain else cli.cmdloop(), 60))
    if bad:
        ensure(False, "the edited line is not what the history should have given", key=bad[0][0], line=bad[0][1], expected=bad[0][2], **note)
    calls = cli.calls if plain else [c[1:] for c in cli.own_calls]
    eq("commands executed", [c[1] for c in calls if c[0] == "probe"], probes, **note)
    rec.label("%d lines called back" % min(recalled[0], 4))
    if recalled[0] and len(probes) > 1:
        rec.nontriv()


TEXTS = ["zprobe 1", "zprobe 2", "zprobe 3", " zprobe 4 ", "zp", "nothing", "#zprobe 5", "ask", "file one", "context", "leave", "private", "private parent", "leave", "set 1", " ", "x", "1", "zprobe 12"]


def cases():
    part = st.one_of(st.sampled_from(TEXTS), st.sampled_from(["up", "up", "up", "down", "down", "first", "last", "back"]))
    whole = st.sampled_from([[t] for t in ("private", "private", "private parent", "private parent", "context", "leave", "leave", "leave", "set 1", "set 2", " zprobe 4 ", "zprobe 4", "  set 1", "zprobe 5", "ask")]
                            + [["up"], ["up", "up"], ["up", "up", "up"], ["up"] * 4, ["first"], ["first", "down"]])
    line = st.one_of(whole, whole, whole, st.lists(part, max_size=5))
    return st.fixed_dictionaries({"size": st.sampled_from([None, None, 0, 1, 2, 5, 100]), "before": st.sampled_from([0, 0, 0, 0, 2, 99, 101, 103]),
                                  "lines": st.lists(line, min_size=1, max_size=16)})


SUBS = [
    Sub("history", cases, run, 150, 8000, "lines typed, called back and changed with the history keys, in plain interfaces with different history sizes and in contexts that keep their own history settings or not, among questions and files; non-trivial: a line that was called back is entered"),
]
ASSUMPTIONS = ["the terminal is replaced by a list of keys at the line editor's readchar", "what the keys do within the line editor is modelled after its package"]
