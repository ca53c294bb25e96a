"""C27 - nothing that is typed breaks a session."""
import asyncio
import os
import shutil
import tempfile

from hypothesis import strategies as st

from vlib import clih, gram
from vlib.checks.C09 import acted, decorate
from vlib.clih import BACKSPACE, CR, TAB
from vlib.core import Sub, ensure, eq
from vlib.scan import Rejected, scan

ROOT = """
root: g << call ext("done"); >> | "zprobe" ZINT << call ext("probe", $2); >> | "zpath" ZPATH << call ext("path"); >>
    | "zdec" ZDEC ("twice" (ZSTR | ZBOOL)) * (1:2) << call ext("dec"); >> | "zask" << $a = input("? "); call ext("answer"); >>;
token ZINT RangedIntToken(-20, 300); token ZPATH PathToken(); token ZDEC RangedDecimalToken(-1.5, 20);
token ZSTR StringToken(); token ZBOOL BooleanToken();
"""
PROBE = "zprobe 7"
TROUBLE = ("Traceback", "Exception tokenizing", "Exception parsing", "Exception matchin", "Exception getting", "Exception entering", "Exception executing")
BITS = ['"', "\\", "\\n", "\\", " ", "  ", "\t", '\\"', "#", "//", "*", "{", "}", "(", "|", ";", "$1", "<<", "-", "-0", "+5", "0x1", "1e5", "nan", "inf", "1_0", "..", "~", "/", "/tmp/",
        "99999999999999999999999", "zpath ", 'zpath "/', "zdec ", "zdec 1.5 twice ", "zprobe ", "zask", "zp", "true", "T", "None", "%s", "{0}", "%(a)s", "NEWLINE"]
ODD = ["\0", "\x07", "\x0b", "\x0c", "\r", "\n", "\x1b", "\x7f", "\x85", "\u2028", "\u0663", "\uff11", "\xb2", "\xe9", "\u0130", "\U0001f600", "\ud800"]


def source(case):
    tree = decorate(case["tree"], {})
    return tree, gram.text(tree, case["style"]) + ROOT


def line_of(case_line, tree, words):
    """The text of a wild line; None when the model says that trying it would take too long."""
    choices, how, parts, glue = case_line
    toks = gram.mutate(gram.walk(tree, choices), how, words)
    for where, what in parts:
        toks.insert(where % (len(toks) + 1), what)
    line = glue.join(toks)
    return line if calm(tree, line) else None


def calm(tree, line):
    try:
        return gram.tame(tree, [t[0] for t in scan(line)], 60)
    except Rejected:
        return True


def tokens_of(line):
    try:
        return scan(line)
    except Rejected:
        return None


def roots(calls):
    return sum(1 for c in calls if c[0] in ("done", "probe", "path", "dec", "answer"))


def no_trouble(what, text, note):
    for mark in TROUBLE:
        ensure(mark not in text, "%s reports an internal failure" % what, said=text[-600:], **note)


def flush(cli):
    out = cli.streams.out.getvalue(), cli.streams.err.getvalue()
    for s in (cli.streams.out, cli.streams.err):
        s.seek(0)
        s.truncate()
    return out


def judge(line, code, calls, err, note):
    no_trouble("a line", err, note)
    ensure(code in (0, 12), "a line is answered with %r" % (code,), **note)
    if code == 0:
        eq("commands executed by an accepted line", roots(calls), 1, **note)
    else:
        eq("effects of a refused line", calls, [], **note)
        if line.strip() and tokens_of(line) != []:
            ensure(err.strip(), "a line was neither executed nor reported", **note)


def behaviour(cli, line):
    """Everything a line tells: what is suggested at its every place, and what it does."""
    told = []
    toks = line.split(" ")
    for n in range(len(toks) + 1):
        for complete in (False, True):
            if n or complete:
                res = clih.suggest(cli, toks[:n], complete)
                told.append((res.result, clih.next_set(res), res.next_constant_token, res.last_token or None))
    flush(cli)
    cli.calls.clear()
    code = clih.run(cli.exec_line(line))
    return told, code, clih.snapshot(cli.calls), flush(cli)


def new_session(spec):
    cli = clih.Cli(spec)
    cli.enter_grammar("root")
    return cli


def run_lines(case, rec):
    """Lines given to exec_line, suggestion requests for them, and a valid command after each."""
    tree, src = source(case)
    words = gram.vocabulary(tree)
    spec = clih.compiled(src)
    cli = new_session(spec)
    probes = [PROBE]
    good = gram.walk(tree, case["probe"])
    if good and not any(c in w for w in good for c in ' "\\\t') and gram.tame(tree, good, 60):
        probes.append(" ".join(good))
    want = {p: behaviour(new_session(spec), p) for p in probes}
    eq("the probe in a new session", want[PROBE][1:3], (0, [["probe", 7]]) if want[PROBE][1] == 0 else (12, []), grammar=src)
    refused = accepted = 0
    for case_line, ask in case["lines"]:
        line = line_of(case_line, tree, words)
        if line is None:
            rec.label("too many readings")
            continue
        note = {"grammar": src, "input": line}
        cli.calls.clear()
        if ask:
            toks = [t[0] for t in tokens_of(line) or []]
            for complete in (False, True):
                res = clih.suggest(cli, toks, complete)
                ensure(res.result in ("success", "partial", "ambiguous", "failure"), "a request for suggestions ends with %r" % (res.result,), **note)
            no_trouble("a request for suggestions", "".join(flush(cli)), note)
            eq("effects of a request for suggestions", cli.calls, [], **note)
        flush(cli)
        cli.calls.clear()
        code = clih.run(cli.exec_line(line))
        judge(line, code, cli.calls, flush(cli)[1], note)
        accepted += code == 0
        refused += code != 0
        for p in probes:
            eq("a valid command after it", behaviour(cli, p), want[p], command=p, **note)
    rec.label("%d refused" % refused)
    if refused and (accepted or want[PROBE][1] == 0):
        rec.nontriv()


SPECIAL = ["\x1b[A", "\x1b[B", "\x1b[C", "\x1b[D", "\x1b[H", "\x1b[F", "\x1b[2~", "\x1b[3~", "\x1b[5~", "\x1b[6~", BACKSPACE, BACKSPACE, "\x03", "\x04",
           "\x01", "\x05", "\x0b", "\x0c", "\x15", "\x17", "\x19", "\x1b", "\n", CR, CR]


class Session(clih.Cli):
    over = False

    async def handle_eof(self):
        if self.over:
            self.exit_loop()


def typed_after(spec, keys, probe, note):
    """The session on these keys, then the probe; what each ENTER did."""
    cli = Session(spec)
    # what is still open - a continued line, an answer - is ended first
    keys = keys + [CR] * 3
    every = keys + probe
    marks = {}

    def before(i, buffer):
        cli.over = i >= len(every)
        if i == len(keys):
            marks["start"] = len(cli.calls)
            ensure(not buffer, "the edited line is not empty after ENTER", line=buffer, **note)
        if i == len(every) - 1:
            marks["line"] = buffer
        if i == len(every):
            marks["end"] = len(cli.calls)

    clih.loop_keys(cli, every, root="root", before=before)
    no_trouble("the session", "".join(flush(cli)), note)
    ensure(len(marks) == 3, "the session ended before the keys were used up", **note)
    return cli.calls[:marks["start"]], (marks["line"], cli.calls[marks["start"]:marks["end"]])


def run_keys(case, rec):
    """Keys in any order, into the line editor."""
    tree, src = source(case)
    words = gram.vocabulary(tree)
    spec = clih.compiled(src)
    keys = []
    for case_line, edits, end in case["lines"]:
        line = line_of(case_line, tree, words)
        if line is None:
            continue
        text = [c for c in line if " " <= c < "\x7f"]
        for where, what in edits:
            text[where % (len(text) + 1):where % (len(text) + 1)] = [TAB] * 2 if what < 0 else [SPECIAL[what]]
        keys += text + end
        if end[1:]:
            keys += list("zask") + end
    if not keys:
        return
    probe = (list("zpr") + [TAB] * 4 + ["7"] if case["tabs"] > 2 else list(PROBE) + [TAB] * case["tabs"]) + [CR]
    note = {"grammar": src, "keys": keys}
    _, fresh = typed_after(spec, [], probe, note)
    before, got = typed_after(spec, keys, probe, note)
    eq("a valid command typed after it", got, fresh, **note)
    ensure(roots(before) <= sum(k in (CR, "\n") for k in keys) + 3, "more commands than lines were executed", calls=before, **note)
    rec.label("%s commands before" % min(roots(before), 3))
    if fresh[1] and TAB in keys:
        rec.nontriv()


DOC = r"""
token NUM RangedIntToken(-20, 300);
token DEC RangedDecimalToken(-1.5, 20);
token ANY StringToken();
token SHORT RangedStringToken(2, 4);
token COLOUR AlternativeStringsToken("red", "red one", "blue", "a\"b");
token FLAG BooleanToken();
token FILE PathToken();
"""


class Common:
    """What the command classes below share, apart from their commands."""
    over = False
    feed = None

    def get_token_classes(self):
        return clih.TOKEN_CLASSES

    @property
    def calls(self):
        return self.parent.calls if self.parent else self.own_calls

    def done(self, *what):
        self.calls.append([self.depth] + [clih.snapshot(w) for w in what])

    @property
    def depth(self):
        return self.parent.depth + 1 if self.parent else 0

    @property
    def finished(self):
        return self.parent.finished if self.parent else self.over

    async def handle_eof(self):
        if self.finished:
            self.exit_loop()

    @property
    def folder(self):
        return self.parent.folder if self.parent else self.own_folder

    async def enter_context(self, *args, **kw):
        await super().enter_context(*args, **kw)
        # contexts read the same keys
        self.child_cli.feed = self.feed
        self.child_cli.readline.readchar = self.feed.readchar

    def do_probe(self, n):
        """ "zprobe" NUM << $n = $2; >> """
        self.done("probe", n)

    async def do_context(self, fall):
        """ "context" << $fall = ""; >> {"parent" << $fall = "match"; >> | "inherit" << $fall = "use"; >>} """
        self.done("context", fall)
        await self.enter_context(Bare if fall == "use" else Inner, prompt="> ", match_parent_grammar=fall == "match", use_parent_grammar=fall == "use")

    def do_leave(self):
        """ "leave" """
        self.done("leave")
        if self.parent:
            self.exit_loop()


class Shell(Common, clih.NessaidCmd):
    __doc__ = DOC

    def do_set(self, values):
        r""" << $values = list(); >> "set" ((NUM | DEC | "two words") << append($values, $1); >> | {COLOUR << append($values, $1); >>, ("with" SHORT)}) * (1:4) """
        self.done("set", values)

    async def do_text(self, text, flag=False):
        """ "text" ANY << $text = $2; >> {FLAG << $flag = $1; >>} """
        self.done("text", text, flag)

    def do_path(self, path):
        """ "path" FILE << $path = $2; >> """
        self.done("path")

    async def do_ask(self):
        """ "ask" """
        await self.input("? ")
        self.done("ask")

    def do_file(self, n):
        """ "file" ("one" | "two" | "none") << $n = $2; >> """
        self.done("file", n)
        # (a file that runs itself never ends)
        if sum(c[1] == "file" for c in self.calls) <= 12:
            self.add_file_to_execute(os.path.join(self.folder, n))


class Inner(Common, clih.NessaidCmd):
    __doc__ = DOC

    def do_inner(self, text):
        """ "inner" ANY << $text = $2; >> """
        self.done("inner", text)


class Bare(Common, clih.NessaidCmd):
    # uses the definitions of the context around it
    __doc__ = None

    def do_bare(self, text):
        """ "bare" ANY << $text = $2; >> """
        self.done("bare", text)


SHELL_WORDS = ["set", "1", "1.5", "17", "two words", '"two words"', "red", "re", '"red one"', "with", "abc", "text", "true", "T", "path", "/tmp/", "ask", "context", "context parent", "context inherit", "leave",
               "inner", "bare", "file one", "file two", "file none", "file", "zprobe 1", "zprobe", "t", "s", "c"]


def shell(folder, cls=Shell, **kw):
    streams = clih.Streams()
    cli = cls(loop=clih.loop(), prompt="# ", stdin=None, stdout=streams.out, stderr=streams.err, show_grammar=False, disable_default_hooks=True, **kw)
    cli.streams = streams
    cli.own_calls = []
    cli.own_folder = folder
    return cli


def in_shell(folder, keys, probe, note):
    cli = shell(folder)
    every = keys + [CR] * 3 + probe
    marks = {}

    def before(i, buffer):
        cli.over = i >= len(every)
        if i == len(every) - len(probe):
            marks["start"] = len(cli.calls)
        if i == len(every):
            marks["end"] = len(cli.calls)

    cli.feed = clih.Keys(cli, every, before)
    clih.run(asyncio.wait_for(cli.cmdloop(), 60))
    text = "".join(flush(cli))
    no_trouble("the session", text, note)
    ensure(len(marks) == 2, "the session ended before the keys were used up", said=text[-300:], **note)
    return cli.calls[:marks["start"]], cli.calls[marks["start"]:marks["end"]]


def shell_line(parts):
    return "".join(parts)


def run_shell(case, rec):
    """A command class with contexts, files and questions: keys in any order."""
    folder = tempfile.mkdtemp()
    try:
        for name, lines in zip(("one", "two"), case["files"]):
            with open(os.path.join(folder, name), "w", encoding="utf-8", errors="surrogatepass", newline="") as f:
                f.write("\n".join(shell_line(p) for p in lines))
        keys = []
        for parts, edits in case["lines"]:
            text = [c for c in shell_line(parts) if " " <= c < "\x7f"]
            for where, what in edits:
                text[where % (len(text) + 1):where % (len(text) + 1)] = [TAB] * 2 if what < 0 else [SPECIAL[what]]
            keys += text + [CR]
        note = {"keys": keys, "files": [[shell_line(p) for p in lines] for lines in case["files"]]}
        probe = list("zprobe 7") + [TAB] * case["tabs"] + [CR]
        before, got = in_shell(folder, keys, probe, note)
        eq("a valid command typed after it", [c[1:] for c in got], [["probe", 7]], **note)
        rec.label("%s commands before" % min(len(before), 5))
        rec.label("depth %s" % max([c[0] for c in before + got]))
        if before:
            rec.nontriv()
    finally:
        shutil.rmtree(folder)


def wild(odd=True):
    bits = st.sampled_from(BITS)
    return st.one_of(bits, bits, st.sampled_from(ODD), st.text(max_size=4)) if odd else bits


def a_line(odd=True):
    parts = st.lists(st.tuples(st.integers(0, 20), wild(odd)).map(list), max_size=4)
    return st.tuples(gram.CHOICES, gram.MUTATION, parts, st.sampled_from([" ", " ", ""])).map(list)


def grammars():
    return acted(gram.trees(gram.TYPED, 2, size=16), 7)


def line_cases():
    return st.fixed_dictionaries({"tree": grammars(), "style": gram.STYLE, "probe": gram.CHOICES,
                                  "lines": st.lists(st.tuples(a_line(), st.booleans()).map(list), min_size=1, max_size=5)})


def edits():
    return st.lists(st.tuples(st.integers(0, 60), st.integers(-len(SPECIAL), len(SPECIAL) - 1)).map(list), max_size=6)


def key_cases():
    return st.fixed_dictionaries({"tree": grammars(), "style": gram.STYLE, "tabs": st.integers(0, 3),
                                  "lines": st.lists(st.tuples(a_line(False), edits(), st.sampled_from([[CR], [CR], [], [CR, "\x03"]])).map(list), min_size=1, max_size=5)})


def shell_cases():
    word = st.one_of(st.sampled_from(SHELL_WORDS), st.sampled_from(SHELL_WORDS), st.sampled_from(BITS))
    parts = st.lists(st.one_of(word, st.just(" "), st.just(" ")), max_size=8)
    in_file = st.lists(st.one_of(word, st.just(" "), st.just(" "), st.sampled_from([c for c in ODD if c not in "\r\n"]), st.text(alphabet=st.characters(exclude_characters="\r\n"), max_size=3)), max_size=8)
    return st.fixed_dictionaries({"lines": st.lists(st.tuples(parts, edits()).map(list), min_size=1, max_size=7), "tabs": st.integers(0, 3),
                                  "files": st.lists(st.lists(in_file, max_size=4), min_size=2, max_size=2)})


SUBS = [
    Sub("lines", line_cases, run_lines, 90, 4000, "lines made of the words of a generated grammar, fragments and any characters, given to exec_line, each followed by valid commands; non-trivial: a line was refused and another one accepted"),
    Sub("keys", key_cases, run_keys, 90, 4000, "such lines typed with editing, control and TAB keys anywhere in them, then a valid command; non-trivial: TAB was pressed and the command executed"),
    Sub("shell", shell_cases, run_shell, 100, 4000, "the same for a command class with contexts, command files and questions; non-trivial: a command was executed before"),
]
ASSUMPTIONS = ["the terminal is replaced by a list of keys at the line editor's readchar",
               "keys are ASCII, without CTRL+R (the search of the line editor's package); other characters come through exec_line and command files"]
