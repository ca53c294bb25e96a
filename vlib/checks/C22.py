"""C22 - a prompt gets exactly one answer, as it was given, and leaves no traces."""
import asyncio
import os
import shutil
import tempfile

from hypothesis import strategies as st

from vlib import clih, script
from vlib.clih import BACKSPACE, CR, EOF, INTERRUPT, TAB, key
from vlib.core import Sub, ensure, eq
from vlib.scan import quote

NAMES = ["alpha", "bravo", "charlie", "delta"]
EDIT = {"left": key.LEFT, "right": key.RIGHT, "home": key.HOME, "end": key.END, "delete": key.DELETE, "back": BACKSPACE, "clear": key.CTRL_L,
        "tab": TAB, "up": key.UP, "down": key.DOWN}


class Base(clih.NessaidCmd):
    """token STR StringToken();"""

    case = None
    folder = None

    def get_token_classes(self):
        return clih.TOKEN_CLASSES

    def top(self):
        cli = self
        while cli.parent:
            cli = cli.parent
        return cli

    @property
    def book(self):
        return self.top().notes

    def mark(self):
        self.book.append(["screen", self.stdout.getvalue()])

    def got(self, *answers):
        self.book.append(["got", [str(a) for a in answers]])

    async def asks(self, number):
        got = []
        for a in self.case["commands"][number]["asks"]:
            if a["slow"]:
                await asyncio.sleep(0)
            kw = {}
            if a["prompt"] or a["slow"]:
                kw["prompt"] = a["prompt"]
            if not a["show"] or a["slow"]:
                kw["show_char"] = a["show"]
            if not a["file prompt"]:
                kw["show_prompt_for_file_lines"] = False
            if a["terminal"]:
                kw["from_stdin"] = True
            self.mark()
            got.append(await self.input(**kw))
            self.mark()
        self.got(*got)

    async def do_down(self):
        """
        "down"
        """
        await self.enter_context(type(self), prompt="child# ")

    def do_up(self):
        """
        "up"
        """
        self.exit_loop()

    def do_file(self, name):
        """
        "file" STR << $name = $2; >>
        """
        self.add_file_to_execute(self.folder + "/" + name)

    async def handle_eof(self):
        self.book.append(["eof"])
        self.exit_loop()

    async def handle_keyboard_interrupt(self):
        self.book.append(["interrupt"])


def make(case, folder):
    body = {"case": case, "folder": folder}
    for i, c in enumerate(case["commands"]):
        if c["action"]:
            acts, names = [], []
            for j, a in enumerate(c["asks"]):
                args = [quote(a["prompt"])] + ["True" if a["show"] else "False"] if a["slow"] or not a["show"] else [quote(a["prompt"])] if a["prompt"] else []
                names.append("$v%d" % j)
                acts.append("call mark(); $v%d = input(%s); call mark();" % (j, ", ".join(args)))
            doc = '"%s" << %s call got(%s); >>' % (NAMES[i], " ".join(acts), ", ".join(names))

            def handler(self):
                pass
        else:
            doc = '"%s"' % NAMES[i]
            handler = bound(i)
        handler.__name__ = "do_" + NAMES[i]
        handler.__doc__ = doc
        body["do_" + NAMES[i]] = handler
    return type("Asking", (Base,), body)


def bound(number):
    async def handler(self):
        await self.asks(number)
    return handler


# ---------------------------------------------------------------- reference

def edit(keys, history=None):
    """The line after these keys: its text, and how it ended."""
    text, at = "", 0
    where = None if history is None else len(history)
    for k in keys:
        if k in ("cr", "eof", "interrupt"):
            return text, k
        if k == "left":
            at = max(at - 1, 0)
        elif k == "right":
            at = min(at + 1, len(text))
        elif k == "home":
            at = 0
        elif k == "end":
            at = len(text)
        elif k == "delete":
            text = text[:at] + text[at + 1:]
        elif k == "back":
            if at:
                text, at = text[:at - 1] + text[at:], at - 1
        elif k == "clear":
            text, at = "", 0
        elif k == "up":
            if history and where:
                where -= 1
                text = history[where]
                at = len(text)
        elif k == "down":
            pass
        elif k == "tab":
            text, at = text[:at] + "\t" + text[at:], at + 1
        else:
            text, at = text[:at] + k + text[at:], at + 1
    return text, "eof"


def rendered(shown):
    """The lines on the screen after this output."""
    rows, row, at = [], [], 0
    for ch in shown:
        if ch == "\n":
            rows.append("".join(row).rstrip(" "))
            row, at = [], 0
        elif ch == "\r":
            at = 0
        elif ch == "\b":
            at = max(at - 1, 0)
        elif ch != "\a":
            row[at:at + 1] = [ch]
            at += 1
    return rows + ["".join(row).rstrip(" ")]


class Model:
    def __init__(self, case):
        self.case = case
        self.files = {"f%d" % i: [x.rstrip() for x in f] for i, f in enumerate(case["files"])}
        self.stack = []
        self.keys = list(case["keys"])
        self.used = []
        self.history = []
        self.book = []
        self.depth = 1
        self.labels = set()

    def file_line(self):
        while self.stack:
            if self.stack[-1]:
                return self.stack[-1].pop(0)
            self.stack.pop()
        return None

    def take(self, command=False, pending=""):
        keys = self.cut()
        if command:
            # completion of commands is the subject of C20; here TAB only follows a whole command or a beginning that
            # only one command has, and only the way back through the history is taken
            keys = [k for k in keys if k != "down"]
            plain = [k for k in keys if k != "tab"]
            begun = "".join(plain[:-1])
            tabs = keys[len(begun):-1]
            if pending or not self.meant(begun) or set(tabs) != {"tab"} or len(tabs) < (1 if begun in NAMES else 3):
                keys = plain
        self.used += keys
        return keys

    def meant(self, text):
        """The command that begins so, when there is only one."""
        fit = [n for n in NAMES[:len(self.case["commands"])] + ["down", "up", "file"] if n.startswith(text)]
        return fit[0] if text and len(fit) == 1 and fit[0] in NAMES else None

    def cut(self):
        """The keys up to the next end of a line."""
        for i, k in enumerate(self.keys):
            if k in ("cr", "eof", "interrupt"):
                out, self.keys = self.keys[:i + 1], self.keys[i + 1:]
                return out
        out, self.keys = self.keys + ["eof"], []
        return out

    def ask(self, a, action):
        prompt = a["prompt"]
        line = None if a["terminal"] and not action else self.file_line()
        if line is not None:
            self.labels.add("answer from a file")
            shown = line if a["show"] else "*" * len(line)
            self.book.append(["asked", (prompt if a["file prompt"] or action else "") + shown])
            return line
        keys = self.take()
        text, end = edit(keys)
        shown = text if a["show"] else "*" * len(text)
        self.book.append(["asked", prompt + shown])
        self.labels.add("answer typed" if end == "cr" else end + " at a prompt")
        if not a["show"] and text:
            self.labels.add("masked")
        if "tab" in keys:
            self.labels.add("TAB at a prompt")
        return text if end == "cr" else ""

    def run(self, first):
        if first is not None:
            self.stack.append(list(self.files[first]))
        pending = ""
        names = NAMES[:len(self.case["commands"])]
        commands = {n: ["kw", n] for n in names + ["down", "up"]}
        commands["file"] = ["seq", [["kw", "file"], ["str"]]]
        while self.depth:
            line = self.file_line()
            if line is None:
                keys = self.take(True, pending)
                line, end = edit([k for k in keys if k != "tab"], self.history)
                if "tab" in keys:
                    self.labels.add("completed" if line != self.meant(line) else "TAB after a command")
                    line = self.meant(line) + " "
                if end == "interrupt" and pending:
                    # whether this drops the lines before it is not said
                    del self.used[-len(keys):]
                    continue
                if end == "eof":
                    self.book.append(["eof"])
                    self.depth -= 1
                    pending = ""
                    continue
                if end == "interrupt":
                    self.book.append(["interrupt"])
                    continue
                if line and self.history[-1:] != [line.strip()]:
                    self.history.append(line.strip())
            line = pending + line
            pending = ""
            if line.rstrip().endswith("\\"):
                pending = line.rstrip()[:-1]
                continue
            if line.lstrip().startswith("#"):
                continue
            got = script.parse(line, commands)
            if got is None:
                continue
            if got == "error":
                if self.book[-1:] != [["error"]]:
                    self.book.append(["error"])
            elif got[0] in NAMES:
                c = self.case["commands"][NAMES.index(got[0])]
                self.book.append(["got", [self.ask(a, c["action"]) for a in c["asks"]]])
            elif got[0] == "down":
                self.depth += 1
                self.labels.add("child context")
            elif got[0] == "up":
                self.depth -= 1
            elif got[1] in self.files:
                self.stack.append(list(self.files[got[1]]))
            elif self.book[-1:] != [["error"]]:
                self.book.append(["error"])
        return self.book


class Err:
    def __init__(self, book):
        self.book = book
        self.text = ""

    def write(self, text):
        self.text += text
        if self.book[-1:] != [["error"]]:
            self.book.append(["error"])

    def flush(self):
        pass


def run(case, rec):
    folder = tempfile.mkdtemp(prefix="c22_")
    try:
        for i, f in enumerate(case["files"]):
            with open(folder + "/f%d" % i, "w", encoding="utf8") as fd:
                fd.write("\n".join(f) + "\n" if f else "")
        first = case["first"] if case["first"] is None else "f%d" % (case["first"] % len(case["files"]))
        model = Model(case)
        want = model.run(first)
        notes = []
        streams = clih.Streams()
        err = Err(notes)
        cli = make(case, folder)(loop=clih.loop(), prompt="# ", stdout=streams.out, stderr=err, disable_default_hooks=True,
                                 filename=None if first is None else os.path.join(folder, first))
        cli.notes = notes
        keys = [EDIT.get(k, {"cr": CR, "eof": EOF, "interrupt": INTERRUPT}.get(k, k)) for k in model.used]
        clih.Keys(cli, keys)
        clih.run(asyncio.wait_for(cli.cmdloop(), 60))
        note = {"case": case, "errors": err.text}
        got, screens = [], []
        for n in notes:
            if n[0] == "screen":
                screens.append(n[1])
                if len(screens) == 2:
                    rows = rendered(screens[1][len(screens[0]):])
                    ensure(len(rows) == 2 and rows[1] == "", "a prompt takes one line of the screen", rows=rows, **note)
                    got.append(["asked", rows[0]])
                    screens = []
            else:
                got.append(n)
        want = [["asked", w[1].rstrip(" ")] if w[0] == "asked" else w for w in want]
        eq("what happened", got, want, **note)
        # the answers do not turn up among the commands
        eq("remembered lines", list(cli.readline._history) if hasattr(cli.readline, "_history") else model.history, model.history, **note)
        for label in model.labels:
            rec.label(label)
        if sum(w[0] == "asked" for w in want) > 1 and len(model.labels) > 1:
            rec.nontriv()
    finally:
        shutil.rmtree(folder)


# ---------------------------------------------------------------- strategies

TYPED = st.characters(min_codepoint=32, max_codepoint=126)
ANSWER = st.one_of(st.sampled_from(["", "yes", "two words", " padded ", 'C:\\new', 'say "hi"', '"quoted"', "# no comment", "ends in \\", "alpha", "up", "\\\\n", "$a", "a;b"]),
                   st.text(TYPED, max_size=8))
PROMPT = st.one_of(st.sampled_from(["", "? ", "Name: ", "C:\\> ", 'a "b" ', "*", "ünï "]), st.text(TYPED, max_size=6)).filter(lambda p: ">>" not in p)


@st.composite
def edited(draw, text):
    """The keys that give an answer, with corrections on the way."""
    keys = []
    for ch in text:
        n = draw(st.integers(0, 25))
        if n == 0:
            keys += ["x", "back"]
        elif n == 1:
            keys += ["tab"]
        elif n == 2:
            keys += draw(st.lists(st.sampled_from(["left", "right", "home", "end", "delete", "back", "tab", "up", "down"]), max_size=3))
        elif n == 3:
            keys += draw(st.sampled_from([["clear"], ["up"], ["tab", "tab"]]))
        keys.append(ch)
    if draw(st.integers(0, 8)) == 0:
        keys += draw(st.lists(st.sampled_from(["left", "home", "delete", "back", "tab", "up"]), max_size=2))
    return keys


@st.composite
def cases(draw):
    ask = st.fixed_dictionaries({"prompt": PROMPT, "show": st.integers(0, 2).map(bool), "terminal": st.integers(0, 2).map(lambda n: n == 0),
                                 "file prompt": st.integers(0, 3).map(bool), "slow": st.booleans()})
    commands = draw(st.lists(st.fixed_dictionaries({"asks": st.lists(ask, min_size=1, max_size=3), "action": st.booleans()}), min_size=1, max_size=4))
    nfiles = draw(st.integers(1, 3))
    files, keys = [], []

    def command(i):
        return draw(st.sampled_from([NAMES[j] for j in range(len(commands))] * 3 + ["down", "up", "wrong", ""] + ["file f%d" % j for j in range(i + 1, nfiles)]))

    def asked(word):
        return commands[NAMES.index(word)]["asks"] if word in NAMES else []

    for i in range(nfiles):
        lines = []
        for _ in range(draw(st.integers(0, 4))):
            word = command(i)
            lines.append(word)
            for _ in asked(word):
                if draw(st.integers(0, 4)):
                    lines.append(draw(st.one_of(ANSWER, ANSWER, st.sampled_from(["é ü", "日本"]))))
        files.append(lines)
    for _ in range(draw(st.integers(1, 6))):
        what = draw(st.integers(0, 9))
        if what == 0:
            keys += ["up"] * draw(st.integers(1, 3)) + ["cr"]
            word = NAMES[0]
        elif what == 1:
            word = command(-1)
            keys += list(word[:2]) + [draw(st.sampled_from(["interrupt", "interrupt", "eof"]))]
            continue
        else:
            word = command(-1)
            n = draw(st.integers(1, 7)) if what in (2, 3, 4) else 0
            keys += (list(word[:n]) + ["tab"] * (3 if n < len(word) else draw(st.integers(1, 3))) if n and word in NAMES else list(word)) + ["cr"]
        for _ in asked(word):
            keys += draw(edited(draw(ANSWER))) + [draw(st.sampled_from(["cr"] * 8 + ["eof", "interrupt"]))]
    return {"commands": commands, "files": files, "first": draw(st.sampled_from([None, None, 0, 1])), "keys": keys}


SUBS = [
    Sub("prompts", cases, run, 200, 8000,
        "commands asking up to three times, from an action or a handler, shown or masked, answered by lines of command files or by keys at the terminal with corrections, TAB, history keys, "
        "interrupts and end of input, in nested contexts; non-trivial: at least two questions and two kinds of answers"),
]
ASSUMPTIONS = ["the terminal is closed after the last key", "the corrections are those of the line editor package, which is not part of the repository"]
