"""C17 - arguments from the operating system arrive whole."""
import contextlib
import io

from hypothesis import strategies as st

from vlib import clih, gram
from vlib.core import Sub, eq, ensure
from vlib.scan import Rejected, quote, scan, unescape
from vlib.checks.C09 import acted, decorate, reference

SPECIAL = ' \n\0\r\t\b\a\v"\\'


class Words(clih.NessaidCmd):
    r"""
    token STR StringToken();
    token NUM RangedIntToken(0, 99);
    """
    calls = []

    def get_token_classes(self):
        return clih.TOKEN_CLASSES

    def do_all(self, words):
        r"""
        << $words = list(); >>
        "--all"
        (
            STR
            << append($words, $1); >>
        ) * (1:8)
        """
        Words.calls.append(clih.snapshot(words))

    async def do_user(self, name, age):
        r"""
        "--user"
        STR
        << $name = $2; >>
        {
            "--age"
            NUM
            << $age = $2; >>
        }
        """
        Words.calls.append([str(name), age])


def quiet(f, *args):
    """What the function returns, and what it wrote to the standard streams."""
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        return f(*args), out.getvalue(), err.getvalue()


_kept = {}


def run(case, rec):
    clih.loop()
    if "cli" not in _kept:
        _kept["streams"] = clih.Streams()
        _kept["cli"] = Words(loop=clih.loop(), prompt="# ", stdout=_kept["streams"].out, stderr=_kept["streams"].err)
    special = 0
    for kind, once, args in case:
        if kind == "all":
            args, want, code = ["--all"] + args, [args], 0
        elif kind == "user":
            args, want, code = ["--user", args[0]], [[args[0], ""]], 0
        elif kind == "age":
            args, want, code = ["--user", args[0], "--age", "7"], [[args[0], 7]], 0
        else:
            # three arguments are no command, however they are written
            args, want, code = ["--user", args[0], args[-1], args[0]], [], 12
            if args[2] in ("-", "--", "--a", "--ag", "--age"):
                continue
        Words.calls.clear()
        if once:
            got, out, err = quiet(Words.execute_args, *args)
            ensure(not err if code == 0 else err, "error reports", arguments=args, errors=err)
            arrived = list(Words.calls)
            Words.calls.clear()
            line = " ".join(quote(a) if any(c in a for c in SPECIAL) else a for a in args)
            typed, out, err = quiet(lambda: clih.run(Words.execute_line(line)))
            ensure(not err if code == 0 else err, "error reports for the line", line=line, errors=err)
            eq("what the line does, and the arguments", (typed, Words.calls), (got, arrived), line=line, arguments=args)
        else:
            got = _kept["cli"].exec_args(*args)
            ensure(not _kept["streams"].err.getvalue() if code == 0 else _kept["streams"].err.getvalue(), "error reports", arguments=args, errors=_kept["streams"].err.getvalue())
            _kept["streams"].err.seek(0)
            _kept["streams"].err.truncate()
        eq("arguments the handler received", Words.calls, want, arguments=args)
        if code == 0:
            eq("exit code", got, 0, arguments=args)
        else:
            ensure(got != 0, "a refused command succeeded", arguments=args)
        special += sum(any(c in a for c in SPECIAL) for a in args[1:])
        rec.label(kind)
    if special > 1:
        rec.nontriv()


def quoted_already(a):
    """Whether an argument is one whole quoted string, quotes included: it stands for its content."""
    try:
        toks = scan(a)
    except Rejected:
        return False
    return len(toks) == 1 and toks[0][2] and not toks[0][3] and toks[0][0] == a


CH = st.one_of(st.sampled_from(list(SPECIAL)), st.sampled_from(list("abnt0#-_'x/=")), st.characters(blacklist_categories=("Cs",)))
ARG = st.one_of(st.sampled_from(["a b", "two  words", " leading", "trailing ", "C:\\new", 'say "hi" now', "-1", "x", "#c", "line\nline", "tab\there", "5\\", '"', '"a" "b"', '"x\\"', '""\\""']),
                st.text(CH, min_size=1, max_size=8), st.text('" a\\', max_size=6)).filter(lambda a: a.strip() and not quoted_already(a))


def cases():
    return st.lists(st.tuples(st.sampled_from(["all", "all", "user", "age", "bad"]), st.integers(0, 9).map(lambda n: n == 0), st.lists(ARG, min_size=1, max_size=8)).map(list),
                    min_size=1, max_size=6)


# ---------------------------------------------------------------- any syntax

class Cmd(clih.NessaidCmd):
    def get_token_classes(self):
        return clih.TOKEN_CLASSES

    def ext(self, *args):
        self.calls.append(clih.snapshot(list(args)))


def raw(tok):
    """The argument a shell would hand on for a typed token."""
    return unescape(tok[1:-1]) if len(tok) > 2 and tok[0] == tok[-1] == '"' else tok


def run_syntax(case, rec):
    log = {}
    trees = gram.number(["alt", case["trees"]])[1]
    trees = [decorate(["act", t, 0, 1], log) for t in trees]
    t = gram.Text(case["style"])
    body = {}
    for i, x in enumerate(trees):
        scope = {}
        exec("def do_h%d(self):\n    self.ext(0)\n" % i, scope)
        scope["do_h%d" % i].__doc__ = t.rule(x)
        body["do_h%d" % i] = scope["do_h%d" % i]
    doc = "".join("token %s;\n" % d for d in t.declarations()) + "".join("%s: %s;\n" % d for d in t.defs)
    cls = type("Shell", (Cmd,), dict(body, __doc__=doc))
    streams = clih.Streams()
    cli = cls(loop=clih.loop(), prompt="# ", disable_default_hooks=True, stdout=streams.out, stderr=streams.err)
    cli.calls = []
    whole = ["alt", [["act", ["ref", x], "", ["call ext(0);"]] for x in trees]]
    log[0] = False
    words = gram.vocabulary(whole)
    for choices, how in case["inputs"]:
        toks = gram.mutate(gram.walk(whole, choices), how, words)
        if not toks:
            continue
        try:
            steps = gram.readings(whole, toks)
        except gram.TooMany:
            continue
        args = [raw(x) for x in toks]
        note = {"arguments": args, "syntax": {n: f.__doc__ for n, f in body.items()}, "class text": doc}
        cli.calls.clear()
        code = cli.exec_args(*args)
        calls = repr(cli.calls)
        cli.calls.clear()
        line = " ".join(a if a == '""' or not any(c in a for c in SPECIAL) else quote(a) for a in args)
        eq("exit code of the arguments, and of the line", (code == 0), (clih.run(cli.exec_line(line)) == 0), line=line, **note)
        done = {h for s, h in steps[-1] if gram.accepting(s)} if len(steps) > len(toks) else set()
        wanted = [repr(reference(whole, h, toks, log)) for h in gram.resolve(done, toks)]
        if len(wanted) < 2:
            eq("calls for the arguments, and for the line", calls, repr(cli.calls), line=line, **note)
        if code == 0:
            ensure(calls in wanted, "calls of no reading", calls=calls, wanted=wanted, **note)
            if len(toks) > 1:
                rec.nontriv()
        else:
            ensure(len(wanted) != 1 or gram.has_nullable_repeat(whole), "a command was not executed", code=code, wanted=wanted, **note)
            eq("calls of a refused command", calls, "[]", **note)
            rec.label("refused")


def syntax_cases():
    return st.fixed_dictionaries({"trees": st.lists(acted(gram.trees(gram.TYPED, 2, size=16), 10), min_size=1, max_size=3), "style": gram.STYLE,
                                  "inputs": st.lists(gram.INPUT, min_size=3, max_size=8)})


SUBS = [
    Sub("delivery", cases, run, 400, 20000,
        "lists of arguments of any characters given to a command class, some to the class and most to one instance; non-trivial: at least two arguments with special characters"),
    Sub("syntaxes", syntax_cases, run_syntax, 110, 5000,
        "arguments given to random command syntaxes, compared with the typed line and with the reference recognizer; non-trivial: a command of several arguments is executed"),
]
ASSUMPTIONS = ["arguments are not blank (the project's tests take an empty one for an empty line)", "an argument that is a whole quoted string itself, with its quotes, stands for its content and is left out"]
