"""C04 - text tokens: keywords, choices, free and length-limited strings, booleans."""
from hypothesis import strategies as st

from vlib import clih
from vlib.clih import T
from vlib.core import Sub, eq, ensure
from vlib.scan import quote

SPECIAL = ' \n\r\t\0\b\v\a"\\'


def cli_form(text):
    """How a text is typed: in quotes when it holds a blank or a character that needs escaping."""
    return quote(text) if any(c in text for c in SPECIAL) else text


def lit(text):
    return quote(text)


def check_choice(cli, tok, options, inputs, rec, what):
    """options: {typed form: text}."""
    def full(s):
        return sorted(o for o in options if o.startswith(s))

    for s in inputs:
        ext = full(s)
        exact = s in options
        unique = len(ext) == 1
        value = clih.run(tok.get_value(s))
        if exact or unique:
            want = options[s] if exact else options[ext[0]]
            eq("value of %r" % s, value, want, token=what)
        else:
            eq("value of %r" % s, value, T.NullTokenValue, token=what)
        n, comps = clih.run(tok.complete(s))
        eq("completions of %r" % s, (sorted(map(str, comps)), n), (ext, len(ext)), token=what)
        match = clih.run(tok.match(s))
        if not ext:
            eq("match of %r" % s, match, T.MATCH_FAILURE, token=what)
        else:
            ensure(match == T.MATCH_SUCCESS if exact else match in (T.MATCH_SUCCESS, T.MATCH_PARTIAL), "match of %r" % s, got=match, token=what)
        cli.calls.clear()
        if s:
            res = clih.execute(cli, ["v", s])
            if exact or unique:
                want = options[s] if exact else options[ext[0]]
                eq("executing v %s" % s, (res.result, cli.calls), ("success", [[want]]), token=what)
                rec.label("exact" if exact else "abbreviated")
            else:
                eq("executing v %s" % s, (res.result, cli.calls), ("failure", []), token=what)
                rec.label("prefix of several" if ext else "no option")
        res = clih.suggest(cli, ["v", s] if s else ["v"], complete=not s)
        got, helps = clih.completions_and_helps(res)
        eq("suggestions for v %s" % s, (got, helps), (set(ext), set()), token=what)
        eq("suggesting must not run actions", len(cli.calls), 1 if s and (exact or unique) else 0)


def run_keyword(case, rec):
    text, declared = case["text"], case["declared"]
    if declared:
        cli = clih.iface("token %s; g: \"v\" %s << call ext($2); >>;" % (text, text))
        form = text
    else:
        cli = clih.iface("g: \"v\" %s << call ext($2); >>;" % lit(text))
        form = cli_form(text)
    tok = T.CliToken(text)
    inputs = [form[:n] for n in range(len(form) + 1)] + [form + "x", form[:-1] + "\u00e9", form.swapcase(), form[1:], text] + case["extra"]
    check_choice(cli, tok, {form: text}, list(dict.fromkeys(inputs)), rec, repr(text))
    if len(form) > 2:
        rec.nontriv()


def run_choice(case, rec):
    options = {cli_form(o): o for o in case["options"]}
    args = ", ".join(lit(o) for o in case["options"])
    cli = clih.iface("token A AlternativeStringsToken(%s); g: \"v\" A << call ext($2); >>;" % args)
    tok = T.AlternativeStringsToken("A", *case["options"])
    if case["as"] == 1:
        tok = T.AlternativeStringsToken("A", list(case["options"]))
    elif case["as"] == 2:
        tok = T.AlternativeStringsToken("A", tuple(case["options"]))
    elif case["as"] == 3:
        tok = T.AlternativeStringsToken("A", set(case["options"]))
    inputs = [""]
    for form in options:
        inputs += [form[:n] for n in range(1, len(form) + 1)] + [form + "a"]
    inputs += case["extra"]
    inputs = list(dict.fromkeys(inputs))
    check_choice(cli, tok, options, inputs, rec, args)
    if any(a != b and b.startswith(a[:1]) for a in options for b in options):
        rec.nontriv()


def run_string(case, rec):
    """Typed words and quoted texts, tokenized by the real tokenizer, through free and length-limited tokens."""
    a, b = case["a"], case["b"]
    lo, hi = min(a, b), max(a, b)
    cli = clih.iface("token S StringToken(); token R RangedStringToken(%d, %d); g: (\"s\" S | \"r\" R) << call ext($1); >>; "
                     "h: \"s\" S << call ext($2); >>; k: \"r\" R << call ext($2); >>;" % (a, b), root="h")
    cli.enter_grammar("h")
    ranged = clih.iface("token R RangedStringToken(%d, %d); k: \"r\" R << call ext($2); >>;" % (a, b), root="k")
    help_r = "Any string of length (%d-%d)" % (lo, hi)
    seen = set()
    for text, form in case["texts"]:
        rec.label("holds a quote at an end" if text[:1] == '"' or text[-1:] == '"' else "holds escapes" if any(c in text for c in '"\\\n\t') else "plain")
        if form == "word" and (not text or any(c in text for c in ' \t\n"\\')):
            form = "quoted"
        typed = text if form == "word" else quote(text) if form == "quoted" else quote(text)[:-1]
        cli.calls.clear()
        ranged.calls.clear()
        res = clih.execute(cli, ["s", typed])
        eq("executing s %s" % typed, (res.result, cli.calls), ("success", [[text]]))
        res = clih.execute(ranged, ["r", typed])
        ok = lo <= len(text) <= hi
        eq("executing r %s" % typed, (res.result, ranged.calls), ("success", [[text]]) if ok else ("failure", []), bounds=(lo, hi))
        seen.add(ok)
        rec.label("%s %s" % (form, "in range" if ok else "short" if len(text) < lo else "long"))
        # while typing: any text that can still grow into an accepted one is welcome
        res = clih.suggest(ranged, ["r", typed], complete=False)
        got = clih.completions_and_helps(res)
        eq("suggestions for r %s" % typed, (res.result != "failure", got), (True, (set(), {help_r})) if len(text) <= hi else (False, (set(), set())), bounds=(lo, hi))
        res = clih.suggest(cli, ["s", typed], complete=False)
        eq("suggestions for s %s" % typed, clih.completions_and_helps(res), (set(), {"Any string"}))
        res = clih.suggest(ranged, ["r", typed], complete=True)
        eq("r %s followed by a blank" % typed, (res.result, clih.next_set(res)), ("partial", (set(), True)) if ok else ("failure", (set(), False)), bounds=(lo, hi))
    if len(seen) == 2:
        rec.nontriv()


def run_bool(case, rec):
    cli = clih.iface("token B BooleanToken(); g: \"v\" B << call ext($2); >>;")
    tok = T.BooleanToken("B")
    accepted = 0
    for s in case["inputs"]:
        low = s.lower()
        want = T.NullTokenValue
        if s and "true".startswith(low):
            want = True
        elif s and "false".startswith(low):
            want = False
        got = clih.run(tok.get_value(s))
        eq("value of %r" % s, (type(got), got), (type(want), want))
        cli.calls.clear()
        if s:
            res = clih.execute(cli, ["v", s])
            eq("executing v %s" % s, (res.result, cli.calls), ("failure", []) if want is T.NullTokenValue else ("success", [[want]]))
            if cli.calls:
                eq("type of the value of %r" % s, type(cli.calls[0][0]), bool)
                accepted += 1
        res = clih.suggest(cli, ["v", s] if s else ["v"], complete=not s)
        comps, _ = clih.completions_and_helps(res)
        if not s:
            eq("suggestions for an empty boolean", {c.lower() for c in comps}, {"true", "false"})
        elif want is T.NullTokenValue:
            eq("suggestions for v %s" % s, comps, set())
        else:
            ensure(len(comps) == 1 and list(comps)[0].startswith(s) and list(comps)[0].lower() == str(want).lower(),
                   "suggestion for v %s" % s, got=comps)
        rec.label(str(want))
    if accepted and accepted < len(case["inputs"]):
        rec.nontriv()


IDENT = st.from_regex(r"\A[A-Za-z_][-a-zA-Z0-9_]{0,9}\Z").filter(lambda s: s not in ("import", "token", "True", "False", "None", "v", "g"))
# a text is written in quotes in a grammar, and typed in quotes when it needs them
CHAR = st.one_of(st.sampled_from("abAB01-_.:#/*<|(){},;=$'+&%@!?[]"), st.sampled_from(" \t\n\b\v\a"), st.sampled_from("\u00e9\u4e2d\U0001f600\x85\xa0"))
QUOTED = st.text(st.sampled_from('ab "\\\'n'), min_size=1, max_size=6).filter(lambda s: len(s) < 2 or s[0] != '"' or s[-1] != '"')
TEXT = st.one_of(st.text(CHAR, min_size=1, max_size=7), st.text(CHAR, min_size=1, max_size=7), QUOTED)
SMALL = st.text(st.sampled_from("ab "), min_size=1, max_size=4)


def keyword_cases():
    return st.one_of(
        st.fixed_dictionaries({"text": TEXT.filter(lambda s: s != "v"), "declared": st.just(False), "extra": st.lists(TEXT.map(cli_form), max_size=2)}),
        st.fixed_dictionaries({"text": IDENT, "declared": st.just(True), "extra": st.lists(IDENT, max_size=2)}))


def choice_cases():
    opts = st.one_of(st.lists(SMALL, min_size=1, max_size=6, unique=True), st.lists(TEXT, min_size=1, max_size=5, unique=True),
                     st.lists(st.text("ab", min_size=1, max_size=5), min_size=2, max_size=8, unique=True))
    return st.fixed_dictionaries({"options": opts, "as": st.integers(0, 3), "extra": st.lists(st.one_of(SMALL, TEXT).map(cli_form), max_size=4)})


def string_cases():
    text = st.text(st.one_of(st.sampled_from("ab'#/;.-"), st.sampled_from("ab ab "), st.sampled_from('"\\\n\t"'), st.sampled_from("\u00e9\u4e2d\U0001f600")), max_size=9)
    return st.fixed_dictionaries({"a": st.integers(0, 8), "b": st.integers(0, 8),
                                  "texts": st.lists(st.tuples(text, st.sampled_from(["word", "word", "quoted", "open"])).map(list), min_size=1, max_size=6)})


def bool_cases():
    pre = st.tuples(st.sampled_from(["true", "false"]), st.integers(0, 5), st.integers(0, 31)).map(
        lambda t: "".join(c.upper() if t[2] >> i & 1 else c for i, c in enumerate(t[0][:t[1]])))
    return st.fixed_dictionaries({"inputs": st.lists(st.one_of(pre, pre, st.sampled_from(["truex", "falsey", "1", "0", "yes", "no", "on", "tf", "rue", "tr ue", "None", '"true"']),
                                                               st.text("truefals", max_size=5)), min_size=1, max_size=8)})


SUBS = [
    Sub("keyword", keyword_cases, run_keyword, 250, 9000, "keywords, constant and declared, with every prefix and near misses; non-trivial: longer than two characters"),
    Sub("choice", choice_cases, run_choice, 220, 8000, "lists of options over small and full alphabets with every prefix of every option; non-trivial: two options share a first character"),
    Sub("strings", string_cases, run_string, 220, 8000, "free and length-limited strings typed as words, in quotes and with an open quote; non-trivial: both an accepted and a refused length"),
    Sub("boolean", bool_cases, run_bool, 250, 9000, "prefixes of true and false in all letter cases and other words; non-trivial: both accepted and refused inputs"),
]
ASSUMPTIONS = ["keywords and options holding a backslash are left to C02 (known finding there)", "keywords and options beginning or ending with a quote character are outside the notation's domain"]
