"""C24 - an interface works by the grammar entered last."""
import asyncio
import json
import re
import types

from hypothesis import strategies as st

from vlib import clih, gram
from vlib.clih import T
from vlib.core import Sub, ensure, eq
from vlib.checks.C09 import acted, decorate
from vlib.checks.C13 import FIELDS, ODD


@types.coroutine
def gate():
    """A place where another interface may go on."""
    yield


class StringToken(T.StringToken):
    """Free text whose checks take a while."""

    async def match(self, *args, **kw):
        await gate()
        return await super().match(*args, **kw)

    async def get_value(self, *args, **kw):
        await gate()
        return await super().get_value(*args, **kw)


class Face(clih.CliInterface):
    """Records what its grammars call; whoever is called keeps and changes what was handed over."""

    def __init__(self, grammar, mark="m", slow=True, **kw):
        self.streams = clih.Streams()
        self.calls = []
        self.mark = mark
        self.slow = slow
        self.cut = 0
        self.moves = []
        super().__init__(clih.loop(), grammar, stdin=None, stdout=self.streams.out, stderr=self.streams.err, **kw)

    def get_token_classes(self):
        return [c for c in clih.TOKEN_CLASSES if c is not T.StringToken] + [StringToken if self.slow else T.StringToken]

    async def ext(self, *args):
        self.calls.append(clih.snapshot(list(args)))
        for a in args:
            if isinstance(a, list):
                a.append("kept")
        if len(self.calls) == self.cut:
            raise asyncio.CancelledError()
        await gate()

    def get(self):
        return self.mark

    async def enter(self, name):
        self.calls.append(["enter", str(name)])
        self.enter_grammar(str(name))
        self.moves.append(str(name))
        await gate()

    def leave(self):
        self.calls.append(["leave"])
        if self.deep:
            self.exit_grammar()
            self.moves.append(None)

    deep = True


async def ask(cli, kind, toks):
    cli.calls.clear()
    del cli.moves[:]
    for s in (cli.streams.out, cli.streams.err):
        s.seek(0)
        s.truncate()
    given = ["in", [cli.mark]]
    res = await cli.match(list(toks), dry_run=kind < 2, last_token_complete=kind != 0, arglist=given)
    values = [repr(clih.snapshot(v)) for v in res.matched_values]
    return (res.result, res.error, res.offending_token and str(res.offending_token), res.offending_token_position, [str(t) for t in res.matched_sequence],
            values, clih.next_set(res), {(str(t), getattr(t, "helpstring", "")) for t in res.next_tokens or []}, res.next_constant_token, res.last_token or None,
            res.case_insensitive, repr(cli.calls), cli.streams.out.getvalue(), cli.streams.err.getvalue(), repr(given))


NAMES = FIELDS + ["arguments handed back"]


def grammars(case):
    """The text of a set of grammars r0, r1, ... the later ones using the earlier ones, and a tree for the lines of each."""
    log = {}
    # a text with two help texts may be shown with either: every grammar has words of its own
    trees = [decorate(json.loads(re.sub(r'"k(\d+_)"', '"%s\\1"' % "kjm"[i], json.dumps(t))), log) for i, t in enumerate(case["trees"])]
    text = gram.Text(case["style"])
    rules, lines = [], []
    for i, tree in enumerate(trees):
        body = "( %s )" % text.rule(tree)
        options = [tree]
        if i:
            used = case["uses"] % i
            body += ' | "sub" r%d[$q] << call ext("sub", $2, $q); >>' % used
            options.append(["seq", [["kw", "sub"], lines[used]]])
        if case["uses"] % 3 != 1:
            body += ' | "both" common[$here] common[$there] << call ext($here, $there); >>'
            options.append(["seq", [["kw", "both"], ["alt", [["kw", "x"], ["kw", "y"]]], ["alt", [["kw", "x"], ["kw", "y"]]]]])
        body += ' | "into" ( ' + " | ".join('"r%d" << call ext("before"); call enter("r%d"); call ext("after", $p); >>' % (j, j) for j in range(len(trees))) + " )"
        options.append(["seq", [["kw", "into"], ["alt", [["kw", "r%d" % j] for j in range(len(trees))]]]])
        body += ' | "out" << call leave(); call ext("left"); >>'
        options.append(["kw", "out"])
        rules.append('r%d[$p, $q]: << $seen = list(); $mark = call get(); >> ( %s ) << append($seen, $mark, $p); call ext("end %d", $seen, $q, $late); $late = 1; append($q, $seen); $p = $mark; print("done", $p); >>;' % (i, body, i))
        lines.append(["alt", options])
    head = ["token %s;" % d for d in text.declarations()] + ["%s: %s;" % d for d in text.defs]
    head.append('common[$w]: ("x" | "y") << $w = list($1); append($w, $own); $own = $1; >>;')
    return "\n".join(head + rules), lines


class Fresh:
    """What a line does on an interface made for it alone."""

    def __init__(self, source):
        self.source = source
        self.known = {}

    def __call__(self, top, mark, kind, toks):
        key = (top, mark, kind, tuple(toks))
        if key not in self.known:
            cli = Face(clih.compile_grammar(self.source), mark)
            cli.enter_grammar("r%d" % top)
            self.known[key] = clih.run(ask(cli, kind, toks))
        return self.known[key]


def tokens(lines, top, choices, how):
    tree = lines[top]
    return gram.mutate(gram.walk(tree, choices), how, gram.vocabulary(tree) + ODD)


async def session(cli, lines, fresh, ops, note, kinds):
    """Enters, leaves and uses grammars; every answer is compared with the one of a fresh interface."""
    stack = []
    history = []
    for op, top, kind, choices, how in ops:
        top %= len(lines)
        await gate()
        if op == "enter" or not stack:
            cli.enter_grammar("r%d" % top)
            stack.append(top)
            history.append("enter r%d" % top)
            continue
        if op == "exit":
            cli.exit_grammar()
            stack.pop()
            history.append("exit")
            kinds.add("returned" if stack else "left all")
            continue
        if op == "unknown":
            try:
                cli.enter_grammar("r9" if kind else "nosuch")
            except Exception:
                history.append("enter an unknown grammar")
                continue
            ensure(False, "an unknown grammar was entered", history=history, **note)
        if op == "compile":
            try:
                clih.compile_grammar(note["grammar"].replace("r0", "s0") if kind else note["grammar"] + " r0: 'x' <<")
            except Exception:
                kinds.add("a faulty grammar compiled in between")
            continue
        toks = tokens(lines, stack[-1], choices, how)
        if kind >= 2 and not toks:
            continue
        cli.deep = len(stack) > 1
        if op == "cut":
            cli.calls.clear()
            del cli.moves[:]
            cli.cut = 1 + top
            try:
                await cli.match(list(toks), dry_run=False, last_token_complete=True, arglist=["in", [cli.mark]])
            except asyncio.CancelledError:
                kinds.add("interrupted")
            cli.cut = 0
            history.append(["cut after %d calls" % (1 + top), toks])
        else:
            got = await ask(cli, kind, toks)
            want = fresh(stack[-1], cli.mark, kind, toks)
            for name, a, b in zip(NAMES, got, want):
                eq(name, a, b, input=toks, kind=["suggest inside", "suggest", "execute"][min(kind, 2)], top="r%d" % stack[-1], history=history, **note)
            history.append([["suggest inside", "suggest", "execute"][min(kind, 2)], toks])
            kinds.add(got[0])
        if cli.moves:
            kinds.add("moved by a command")
        for m in cli.moves:
            if m is None:
                stack.pop()
            else:
                stack.append(int(m[1:]))
    return len(history)


def run(case, rec):
    source, lines = grammars(case)
    cli = Face(clih.compile_grammar(source), "one", slow=case["slow"], str_cache_size=case["sizes"][0], token_value_cache_size=case["sizes"][1])
    kinds = set()
    drive([session(cli, lines, Fresh(source), case["ops"], {"grammar": source}, kinds)], [0])
    for k in kinds:
        rec.label(k)
    if "success" in kinds and kinds & {"returned", "moved by a command"}:
        rec.nontriv()


def drive(coros, schedule):
    """Runs coroutines that stop only at gates, choosing who goes on by the schedule."""
    left = list(coros)
    at = 0
    try:
        while left:
            c = left[schedule[at % len(schedule)] % len(left)]
            at += 1
            try:
                c.send(None)
            except StopIteration:
                left.remove(c)
    finally:
        for c in left:
            c.close()


def op(cuts=True):
    kinds = ["ask"] * 10 + ["enter", "enter", "exit", "exit", "unknown", "compile"] + (["cut"] if cuts else [])
    how = st.tuples(st.sampled_from([0, 0, 0, 0, 1, 2, 3, 5]), st.integers(0, 9), st.integers(0, 60)).map(list)
    return st.tuples(st.sampled_from(kinds), st.integers(0, 3), st.sampled_from([0, 1, 2, 2, 2, 2]), gram.CHOICES, how).map(list)


def part(size):
    return acted(gram.trees(gram.TYPED, 2, size=10), size)


def cases():
    return st.fixed_dictionaries({
        "trees": st.lists(part(7), min_size=2, max_size=3), "style": gram.STYLE, "uses": st.integers(0, 5), "slow": st.booleans(),
        "ops": st.lists(op(), min_size=4, max_size=16), "sizes": st.lists(st.sampled_from([0, 1, 5, 128]), min_size=2, max_size=2)})


SUBS = [
    Sub("grammar-stack", cases, run, 150, 5000,
        "grammars of one set entered and left by the program and by commands, with lines, suggestion requests, interrupted commands, unknown names and other compilations in between, "
        "each answer compared with an interface made for that line alone; non-trivial: a line is accepted, and a grammar is returned to or entered by a command"),
]
ASSUMPTIONS = ["lines are not tried while no grammar is entered", "the last grammar is not left by a command", "path tokens, whose answers follow the file system, are left out (C05)"]
