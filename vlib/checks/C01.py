"""C01 - splitting command lines into tokens."""
from hypothesis import strategies as st

from vlib import clih
from vlib.core import Sub, Violation, eq, ensure
from vlib.scan import scan, Rejected, quote, ESCAPES

from nessaid_cli.tokenizer.tokenizer import NessaidCliTokenizer, TokenizerException, tokenize

_state = {}


def tokenizer():
    # One tokenizer for the whole process: every case also checks that the
    # lines before it (including rejected ones) left no trace.
    if "t" not in _state:
        _state["t"] = NessaidCliTokenizer()
    return _state["t"]


def cli():
    if "c" not in _state:
        _state["c"] = clih.Cli('g: "x";')
    return _state["c"]


def show(tokens):
    return [(str(t), t.lexpos, bool(t.quoted), bool(t.quote_incomplete)) for t in tokens]


def compare(line, toker, where):
    try:
        want = scan(line)
    except Rejected:
        want = None
    try:
        got = toker.parse(line)
    except TokenizerException:
        got = None
    if got is not None and not isinstance(got, list):
        raise Violation("%s: tokenizing %r gave %r instead of a token list" % (where, line, got))
    eq("%s: tokens of %r" % (where, line), None if got is None else show(got), want)
    if got is not None:
        for t in got:
            eq("%s: length of token" % where, t.lexlen, len(t), line=line)
            eq("%s: text at token position" % where, line[t.lexpos:t.lexpos + t.lexlen], str(t), line=line)
    return want


def run_any(case, rec):
    toker = tokenizer()
    nt = False
    for line in case:
        want = compare(line, toker, "shared tokenizer")
        if want is None:
            rec.label("rejected")
            nt = True
        else:
            rec.label("%d tokens" % min(len(want), 5))
            if any(q for _, _, q, _ in want):
                rec.label("quoted")
                nt = True
            if want and want[-1][3]:
                rec.label("unterminated")
        if line == "\n":
            continue
        ok, error, toks = cli().tokenize(line)
        if want is None:
            ensure(not ok and error and toks == [], "the CLI must refuse an untokenizable line with an error",
                   line=line, got=(ok, error, toks))
        else:
            ensure(ok and not error, "the CLI must accept a tokenizable line", line=line, got=(ok, error))
            eq("CLI tokens of %r" % line, show(toks), want)
    if nt or len(case) > 1:
        rec.nontriv()


def run_structured(case, rec):
    line = case["lead"]
    want = []
    for i, (kind, text, sep) in enumerate(case["items"]):
        if kind == "w":
            piece, quoted = text, False
        else:
            piece, quoted = quote(text), True
        want.append((piece, len(line), quoted, False))
        line += piece + (sep if i < len(case["items"]) - 1 else case["tail"])
    if case["open"] is not None:
        if want and not case["tail"]:
            line += " "
        piece = quote(case["open"])[:-1]
        want.append((piece, len(line), True, True))
        line += piece
        rec.label("unterminated")
    got = tokenizer().parse(line)
    ensure(isinstance(got, list), "a well-formed line must tokenize", line=line, got=got)
    eq("tokens of %r" % line, show(got), want)
    eq("module-level tokenize of %r" % line, [str(t) for t in tokenize(line)], [w[0] for w in want])
    rec.label("%d items" % len(want))
    if len(want) >= 2:
        rec.nontriv(line)


NASTY = st.sampled_from(list('ab1-_=#/.,;:\'|*(){}[]<>$&!?~^%+@') + ['"', '"', "\\", "\\", " ", " ", "\t", "\n", "\r", "\0",
                                                                      "n", "0", "r", "t", "v", "\x07", "\x08", "\x0b", "\x0c",
                                                                      "\u00a0", "\u00e9", "\u4e2d", "\U0001f600", "\u2028", "\x1b"])
CHARS = st.one_of(NASTY, st.characters(blacklist_categories=("Cs",)))
CHUNK = st.sampled_from(['"', '\\"', "\\\\", '\\n', "\\x", '""', '" "', "\\0", " ", "\t", "a b", '"a b"', 'x"y z"w', "\\", "-", "#"])
LINE = st.lists(st.one_of(CHUNK, CHARS, CHUNK), max_size=14).map("".join)
WORD = st.text(CHARS.filter(lambda c: c not in ' \t\n"\\'), min_size=1, max_size=8)
BODY = st.text(st.one_of(st.sampled_from(list(ESCAPES.values()) + ["\\", " ", '"', "a", "n"]),
                         CHARS), max_size=8)
SEP = st.text(st.sampled_from(" \t"), min_size=1, max_size=3)


def structured():
    item = st.tuples(st.sampled_from("wq"), st.data()) if False else st.one_of(
        st.tuples(st.just("w"), WORD, SEP), st.tuples(st.just("q"), BODY, SEP)).map(list)
    return st.fixed_dictionaries({
        "lead": st.text(st.sampled_from(" \t"), max_size=2),
        "items": st.lists(item, max_size=7),
        "tail": st.text(st.sampled_from(" \t"), max_size=2),
        "open": st.one_of(st.none(), st.none(), BODY),
    })


SUBS = [
    Sub("any-line", lambda: st.lists(LINE, min_size=1, max_size=3), run_any, 1200, 40000,
        "1-3 lines over an alphabet rich in quotes, backslashes, escapes, blanks, control and non-ASCII characters, fed to "
        "one long-lived tokenizer and compared with a hand-written scanner; non-trivial: a quoted token, a rejected line, or several lines"),
    Sub("composed-line", structured, run_structured, 500, 15000,
        "lines composed from known words, quoted strings with escapes and blanks, so the expected tokens are known by "
        "construction; non-trivial: at least two tokens"),
]
