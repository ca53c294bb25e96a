"""C20 - the TAB key only ever completes what was typed."""
import asyncio

from hypothesis import strategies as st

from vlib import clih, gram
from vlib.core import Sub, eq, ensure
from vlib.scan import Rejected, scan
from vlib.checks.C09 import acted, decorate

MARK = " :    "


def listed(out):
    """What a TAB press wrote: (completions, help texts, end of command), or None when it listed nothing."""
    if "\r\n\r\n" not in out:
        return None
    body = out.split("\r\n\r\n", 1)[1].rsplit("\r\n\r\n", 1)[0]
    comps, helps, end = [], [], False
    for line in body.split("\r\n"):
        comp, mark, help = line.partition(MARK)
        comp = comp.rstrip()
        if comp == "NEWLINE" and mark and help == "Complete command" or line == "NEWLINE: Complete command":
            end = True
        elif comp:
            comps.append(comp)
        else:
            helps.append(help)
    return sorted(comps), sorted(helps), end


def common(texts):
    texts = sorted(texts)
    if not texts:
        return ""
    a, b = texts[0], texts[-1]
    n = 0
    while n < min(len(a), len(b)) and a[n] == b[n]:
        n += 1
    return a[:n]


def still_open(line, toks):
    """The line ends within an open quoted string; a backslash that begins no escape sequence ends one too."""
    text, start, _, incomplete = toks[-1]
    return incomplete and start + len(text) == len(line)


def expected(tree, line):
    """("fail", None, None), or ("ok", (completions, help texts, end), the text that may be added)."""
    try:
        toks = scan(line)
    except Rejected:
        return "fail", None, None
    words = [t[0] for t in toks]
    inside = bool(toks) and (still_open(line, toks) or not line.endswith(" "))
    typed = words.pop() if inside else ""
    steps = gram.readings(tree, words)
    if len(steps) <= len(words):
        return "fail", None, None
    comps, helps, end = gram.next_of(steps[len(words)], typed)
    end = end and not inside and bool(words)
    if not comps and not helps and not end:
        return "fail", None, None
    if helps or end:
        more = ""
    elif len(comps) == 1:
        more = list(comps)[0][len(typed):] + " "
    else:
        more = common(comps)[len(typed):]
    return "ok", (sorted(comps), sorted(helps), end), more


class Typist:
    """Types what a plan says, looking at the edited line, and judges every TAB."""

    def __init__(self, cli, tree, plan, note, rec):
        self.cli = cli
        self.tree = tree
        self.note = note
        self.rec = rec
        self.keys = plan(self)
        self.tab = None          # (line before, output position, pending line) of the last key when it was TAB
        self.idle = (None, 0)    # a line on which TAB added nothing, and how often
        self.failure = None
        self.pending = None
        self.added = 0
        self.lists = 0
        self.closed = 0
        cli.readline.readchar = self.readchar

    @property
    def line(self):
        return self.cli.readline.get_line_buffer()

    async def readchar(self):
        try:
            if self.tab is not None:
                self.judge()
            k = next(self.keys, clih.EOF)
        except Exception as e:
            # a violation or a mistake here; the line editor would swallow it
            self.failure = self.failure or e
            self.keys = iter(())
            k = clih.EOF
        while k in (clih.TAB, clih.CR) and not self.tame():
            # such a line takes minutes
            self.rec.label("too many readings")
            if k == clih.CR:
                self.keys = iter(())
            k = next(self.keys, clih.EOF)
        if k == clih.TAB:
            self.tab = (self.line, self.cli.streams.out.tell(), self.pending)
        if k == clih.CR:
            text = (self.pending or "") + self.line
            self.pending = text.rstrip()[:-1] if text.rstrip().endswith("\\") else None
            self.idle = (None, 0)
        if k == clih.EOF:
            self.closed += 1
            if self.closed > 40:
                self.cli.exit_loop()
                raise clih.Stuck()
        return k

    def tame(self):
        try:
            return gram.tame(self.tree, [t[0] for t in scan((self.pending or "") + self.line)], 60)
        except Rejected:
            return True

    def judge(self):
        before, at, pending = self.tab
        self.tab = None
        after = self.line
        out = self.cli.streams.out.getvalue()[at:]
        note = dict(self.note, line=before, line_after=after)
        if pending is not None:
            eq("TAB on a continuation line shows the whole line", after, pending + before, **note)
            self.pending = None
            self.idle = (None, 0)
            self.rec.label("continuation joined")
            return
        try:
            kind, suggestions, more = expected(self.tree, before)
        except gram.TooMany:
            return
        if kind == "fail":
            eq("line after TAB where nothing fits", after, before, **note)
            ensure("Fail" in out or "Exception" in out, "TAB where nothing fits says so", output=out, **note)
            self.rec.label("nothing fits")
            return
        ensure(after.startswith(before), "typed characters were changed", **note)
        added = after[len(before):]
        ensure(more.startswith(added), "text was added that not every continuation shares", added=added, suggestions=suggestions, **note)
        got = listed(out)
        if added:
            ensure(got is None, "text was added and suggestions were listed", output=out, **note)
            self.idle = (None, 0)
            self.added += 1
            self.rec.label("added")
        else:
            eq("suggestions listed", got, suggestions, output=out, **note)
            self.lists += 1
            count = self.idle[1] + 1 if self.idle[0] == before else 1
            self.idle = (before, count)
            ensure(count < 3 or not more or (len(suggestions[0]) > 1 and before[-1:] in ("", " ")), "TAB pressed again and again does not add the text every continuation shares", shared=more, **note)
            self.rec.label("listed %d" % min(3, len(got[0]) + len(got[1]) + got[2]))

    def press(self, text):
        for c in text:
            yield c


def count(line):
    try:
        return len(scan(line))
    except Rejected:
        return 0


def open_quote(line):
    try:
        return bool(line.strip()) and still_open(line, scan(line))
    except Rejected:
        return False


def plan_lines(case, tree, words, done):
    def plan(me):
        for how, choices, change, cuts in case["lines"]:
            toks = gram.mutate(gram.walk(tree, choices), change, words)
            try:
                gram.readings(tree, toks, 24)
            except gram.TooMany:
                me.rec.label("too many readings")
                continue        # every key stroke would take seconds
            if how == "free":
                yield from free(me, toks, cuts)
                continue
            for i, tok in enumerate(toks):
                cut, tabs = cuts[i % len(cuts)]
                start = me.line
                if count(start) > i:
                    continue        # TAB went on to this token
                if how == "steps":
                    yield from steps(me, tok, cut, tabs)
                    continue
                yield from me.press(tok[:cut])
                for _ in range(tabs):
                    yield clih.TAB
                got = me.line[len(start):]
                if tok.startswith(got):
                    yield from me.press(tok[len(got):])
                    if i == len(toks) - 1:
                        for _ in range(cut % 3):
                            yield clih.TAB
                if me.line[-1:] != " " or open_quote(me.line):
                    yield " "
            if change[2] % 2:
                for _ in range(1 + cuts[0][1] % 2):
                    yield clih.TAB
            text = me.line
            me.cli.calls.clear()
            errors = len(me.cli.streams.err.getvalue())
            yield clih.CR
            done(text, list(me.cli.calls), len(me.cli.streams.err.getvalue()) > errors)
    return plan


def steps(me, tok, cut, tabs):
    """A token typed character by character, with TABs in between."""
    start = len(me.line)
    for j in range(40):
        got = me.line[start:]
        if got == tok or not tok.startswith(got):
            break
        yield tok[len(got)]
        if (j + cut) % 3 < 2:
            for _ in range(1 + tabs % 2 if j + 1 != cut else tabs):
                yield clih.TAB
    if me.line[-1:] != " " or open_quote(me.line):
        yield " "


def free(me, toks, cuts):
    """Typing, deleting, TABs and half lines in any order."""
    for i, tok in enumerate(toks + ["An", '"'][:cuts[0][0] % 3]):
        cut, tabs = cuts[i % len(cuts)]
        kind = (cut + tabs + i) % 10
        yield from me.press(tok[:cut] if kind != 1 else tok)
        if kind == 9:
            # a backslash that begins no escape sequence ends the open quoted string
            yield from me.press(" " + gram.cli_form(tok + ' "')[:1 + cut] + "\\ ")
            yield clih.TAB
            yield from [clih.BACKSPACE] * (2 + cut % 2)
        if kind == 7:
            yield '"'       # a quote within a word: such a line is no command
        elif kind == 8:
            yield "\\"
        for _ in range(tabs):
            yield clih.TAB
        if kind == 2:
            yield from [clih.BACKSPACE] * (cut + 1)
            yield clih.TAB
        elif kind == 3:
            yield from me.press(" \\")
            yield clih.CR
            if tabs % 2:
                yield clih.TAB
        elif kind == 4:
            yield from me.press("  ")
        elif kind >= 7 and cut % 2:
            yield clih.BACKSPACE
            yield clih.TAB
        if kind not in (2, 3):
            yield from me.press(" ")
    yield clih.CR
    while me.pending is not None:
        yield clih.CR


def run(case, rec):
    log = {}
    tree = decorate(case["tree"], log)
    src = gram.text(tree, case["style"])
    words = gram.vocabulary(tree) + ["An", "A", '"two']
    cli = clih.Cli(src, prompt="> ")
    note = {"grammar": src}
    loose = gram.has_nullable_repeat(tree)
    entered = []
    typist = Typist(cli, tree, plan_lines(case, tree, words, lambda *entry: entered.append(entry)), note, rec)
    clih.run(asyncio.wait_for(cli.cmdloop("g"), 60))
    if typist.failure:
        raise typist.failure
    other = clih.iface(src)
    good = 0
    for text, calls, failed in entered:
        try:
            toks = [t[0] for t in scan(text)]
            steps = gram.readings(tree, toks)
        except (Rejected, gram.TooMany):
            continue
        if not toks or toks[0].startswith("#"):
            continue
        ready = {h for s, h in steps[-1] if gram.accepting(s)} if len(steps) > len(toks) else set()
        other.calls.clear()
        res = clih.execute(other, toks)
        if loose or len(gram.resolve(ready, toks)) > 1:
            continue
        eq("what the completed line did, and what the full text does", (calls, failed), (other.calls, res.result != "success"), entered=text, **note)
        rec.label("entered" if not failed else "entered in error")
        good += not failed
    if typist.added and typist.lists and good:
        rec.nontriv()


LONG = "interface-of-the-router-in-the-left-rack-"
TABLEAF = st.one_of(gram.TYPED, gram.TYPED, st.sampled_from([["kw", "show"], ["kw", "shall"], ["kw", "Anchor"], ["kw", "An"], ["kw", "two words more"], ["kw", "two"],
                                                             ["int", 118, 122], ["int", 7, 7], ["one", ["redder", "red"]], ["one", ["red", "reddish"]], ["kw", "reddish"], ["one", ["on", "once", "one"]],
                                                             ["kwh", LONG + "1", "first"], ["kwh", LONG + "2", "second"], ["one", [LONG + "1", LONG + "22"]], ["kwh", "sh", LONG]]))


def cases(leaf):
    cuts = st.lists(st.tuples(st.integers(0, 5), st.integers(0, 4)).map(list), min_size=1, max_size=5)
    line = st.tuples(st.sampled_from(["plan", "plan", "steps", "free"]), gram.CHOICES, gram.MUTATION, cuts).map(list)
    return lambda: st.fixed_dictionaries({"tree": acted(gram.trees(leaf, 3, size=24), 12), "style": gram.STYLE, "lines": st.lists(line, min_size=1, max_size=5)})


ALIKE = ["on", "one", "ones", "once", "red", "reddish", "redder", "One", "two words", "two word", "1", "12", 'two "words"', "on\\", '5"']


def alike_cases():
    """Small grammars whose texts begin alike, typed with a TAB after nearly every character."""
    words = st.lists(st.sampled_from(ALIKE), min_size=1, max_size=4, unique=True)
    part = st.one_of(words.map(lambda w: ["one", w]), words.map(lambda w: ["one", w]),
                     words.filter(lambda w: len(w) > 1).map(lambda w: ["alt", [["kw", x] for x in w]]), words.map(lambda w: ["set", [["kw", x] for x in w]] if len(w) > 1 else ["kw", w[0]]),
                     words.map(lambda w: ["opt", ["one", w]]), st.sampled_from([["int", 1, 12], ["int", 118, 122], ["bool"], ["str"]]),
                     st.tuples(words, words).map(lambda w: ["alt", [["one", w[0]], ["one", w[1]]]]))
    cuts = st.lists(st.tuples(st.integers(0, 5), st.integers(0, 3)).map(list), min_size=1, max_size=4)
    line = st.tuples(st.sampled_from(["steps", "steps", "plan", "free"]), gram.CHOICES, gram.MUTATION, cuts).map(list)
    tree = st.lists(part, min_size=1, max_size=3).map(lambda p: ["act", ["seq", [["kw", "v"]] + p], 0, 1])
    return st.fixed_dictionaries({"tree": tree, "style": gram.STYLE, "lines": st.lists(line, min_size=1, max_size=4)})


class AnyCase(clih.T.CliToken):
    """One of its texts, in any letter case."""

    def __init__(self, name, *texts, cli=None, helpstring=None):
        super().__init__(name, cli=cli, helpstring=helpstring)
        self.texts = list(texts)

    completable = property(lambda self: True)
    case_insensitive = property(lambda self: True)

    def meant(self, s):
        return [t for t in self.texts if t.lower().startswith((s or "").lower())]

    async def complete(self, s, cli=None):
        found = self.meant(s)
        return len(found), found

    async def match(self, s, cli=None):
        found = self.meant(s)
        if not found:
            return clih.T.MATCH_FAILURE
        return clih.T.MATCH_SUCCESS if s and s.lower() in [t.lower() for t in found] else clih.T.MATCH_PARTIAL

    async def get_value(self, s=None, cli=None):
        found = self.meant(s)
        exact = [t for t in found if t.lower() == (s or "").lower()]
        return (exact or found)[0] if exact or len(found) == 1 else clih.T.NullTokenValue


class AnyCaseCli(clih.Cli):
    def get_token_classes(self):
        return list(clih.TOKEN_CLASSES) + [AnyCase]

    async def handle_eof(self):
        self.exit_loop()


def run_any_case(case, rec):
    """A value matched regardless of letter case is typed in part; TAB adds the rest as it is written."""
    texts = case["texts"]
    src = 'token E AnyCase(%s); token B BooleanToken(); g: "pick" (E | "other") << call ext($2); >> {"now"} | "flag" B << call ext($2); >>;' % ", ".join('"%s"' % t for t in texts)
    for n, swap, at, tabs in case["typed"]:
        words = texts if at % 4 else ["true", "false"]
        word = words[n % len(words)]
        typed = "".join(c.swapcase() if swap >> i & 1 else c for i, c in enumerate(word))[:1 + at % len(word)]
        meant = [t for t in words if t.lower().startswith(typed.lower())]
        shared = common(meant)
        if words is texts and len(shared) != len(common([t.lower() for t in meant])) or words is texts and "other".startswith(typed):
            rec.label("letter case differs among the texts")
            continue
        more = shared[len(typed):]
        start = "pick " if words is texts else "flag "
        note = {"grammar": src, "typed": start + typed}
        cli = AnyCaseCli(src, prompt="> ")
        seen = []
        keys = list(start + typed) + [clih.TAB] * tabs + [clih.CR]
        clih.loop_keys(cli, keys, before=lambda i, line: seen.append(line))
        line = seen[len(keys) - 1]
        first = len(start + typed)
        for i, now in enumerate(seen[first:len(keys)]):
            ensure(now.startswith(start + typed) and (start + typed + more).startswith(now.rstrip(" ")), "TAB did not add the rest of what was typed", presses=i, line=now, rest=more, **note)
        if tabs >= 3:
            eq("the line after %d presses" % tabs, line.rstrip(" "), start + typed + more, **note)
        other = AnyCaseCli(src, prompt="> ")
        other.enter_grammar("g")
        full = meant[0] if len(meant) == 1 and words is texts else typed + more
        if len(meant) == 1 and tabs >= 3:
            clih.run(other.exec_line(start + full))
            eq("the effects of the completed line", cli.calls, other.calls, line=line, **note)
            ensure(cli.calls, "the completed line does nothing", line=line, **note)
            if more and not shared.startswith(typed):
                rec.nontriv()


RULE = "; non-trivial: TAB added text, TAB listed suggestions, and a completed line was executed"
SUBS = [
    Sub("typed-tokens", cases(TABLEAF), run, 140, 4000, "several lines typed with TABs, deletions and continuations into grammars over all kinds of tokens" + RULE),
    Sub("alike", alike_cases, run, 90, 3000, "short commands whose texts begin one another, typed character by character with TABs" + RULE),
    Sub("any-case", lambda: st.fixed_dictionaries({
        "texts": st.lists(st.sampled_from(["Ethernet", "Etherlink", "eth", "Loop", "LoopBack", "serial", "Serials", "VLAN", "vlanX", "A1b2", "oTHer"]), min_size=1, max_size=4, unique=True),
        "typed": st.lists(st.tuples(st.integers(0, 3), st.integers(0, 511), st.integers(0, 11), st.integers(0, 5)).map(list), min_size=1, max_size=6)}), run_any_case, 60, 2000,
        "values of token classes that disregard letter case typed in part, in any letter case; non-trivial: TAB added to a value typed in another letter case and the line was executed"),
    Sub("keywords", cases(gram.UNIQUE), run, 60, 3000, "the same with keywords that begin alike" + RULE),
]
ASSUMPTIONS = ["keys arrive one at a time; only printable ASCII characters are typed", "a blank after a finished token counts as text every continuation shares"]
