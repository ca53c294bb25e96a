"""C02 - escaping: what is shown can be typed back, what is typed arrives."""
from hypothesis import strategies as st

from vlib import clih
from vlib.core import Probe, Sub, eq, ensure
from vlib.scan import scan, quote, unescape, ESCAPES

from nessaid_cli.utils import convert_to_cli_string, convert_to_python_string, ExtendedString

SPECIAL = [" ", "\n", "\0", "\r", "\t", "\b", "\a", "\v", '"', "\\"]
CH = st.one_of(st.sampled_from(SPECIAL), st.sampled_from(list("abnrtv0#-_'x")), st.characters(blacklist_categories=("Cs",)))
TEXT = st.text(CH, max_size=10)


def unquoted_ends(s):
    # A text that is written in quotes is taken as already quoted by the
    # conversion; the property is about plain texts.
    while len(s) > 1 and s.startswith('"') and s.endswith('"'):
        s = s[1:-1]
    return s


PLAIN = TEXT.map(unquoted_ends)
KEYWORD = PLAIN.filter(bool)


def run_roundtrip(case, rec):
    shared = clih.iface('g: "x";') if "i" not in _state else _state["i"]
    _state["i"] = shared
    nt = False
    for s in case:
        c = convert_to_cli_string(s)
        eq("text -> CLI form -> text", convert_to_python_string(c), s, cli_form=str(c))
        eq("text -> CLI form -> text through the cache", convert_to_python_string(c, cli=shared), s, cli_form=str(c))
        eq("second conversion through the cache", convert_to_python_string(c, cli=shared), s, cli_form=str(c))
        ensure(not any(x in str(c) for x in SPECIAL[1:8]), "control characters are written as escape sequences", text=s, cli_form=str(c))
        if s:
            eq("the CLI form is one token", [t[0] for t in scan(str(c))], [str(c)], text=s)
        if not any(x in s for x in SPECIAL):
            eq("a text without special characters is its own CLI form", str(c), s)
            rec.label("plain")
        else:
            nt = True
            rec.label("special")
    if nt:
        rec.nontriv()


def run_decode(case, rec):
    body = "".join(case)
    q = ExtendedString('"' + body + '"', quoted=True)
    eq("decoded quoted string", convert_to_python_string(q), unescape(body), body=body)
    inc = ExtendedString('"' + body, quoted=True, quote_incomplete=True)
    eq("decoded unterminated string", convert_to_python_string(inc), unescape(body), body=body)
    if any(p.startswith("\\") for p in case):
        rec.nontriv()
    rec.label("%d escapes" % min(sum(p.startswith("\\") for p in case), 5))


_state = {}


def run_keyword(case, rec):
    kws = list(dict.fromkeys(case["kws"]))
    for i, k in enumerate(kws):
        for j, o in enumerate(kws):
            # keep the keywords free of common prefixes: abbreviations are C08's subject
            if i != j and str(convert_to_cli_string(o)).startswith(str(convert_to_cli_string(k))):
                return
    src = "g: " + " | ".join("%s << call ext($1); >>" % quote(k) for k in kws) + ";"
    cli = clih.iface(src)
    res = clih.suggest(cli, [])
    comps, helps = clih.completions_and_helps(res)
    eq("keywords offered", (comps, helps), ({str(convert_to_cli_string(k)) for k in kws}, set()), grammar=src)
    for k in kws:
        shown = str(convert_to_cli_string(k))
        toks = [t[0] for t in scan(shown)]
        res = clih.execute(cli, toks)
        eq("typing the keyword as displayed", res.result, "success", keyword=k, shown=shown)
        eq("matched value of the keyword", res.matched_values, [k], shown=shown)
        got = cli.calls.pop() if cli.calls else None
        eq("value the action receives", got, [k], shown=shown)
    if any(c in k for k in kws for c in SPECIAL):
        rec.nontriv()


def run_delivery(case, rec):
    if "s" not in _state:
        _state["s"] = clih.iface("token STR StringToken(); g: STR << call ext($1); >> | STR STR << call ext($1, $2); >>;")
    cli = _state["s"]
    cli.calls.clear()
    nt = False
    for group in case:
        line = ""
        for i, (kind, s) in enumerate(group):
            # the last quoted text may still be open when the line is entered
            line += s + " " if kind == "w" else quote(s)[:-1] if kind == "o" and i == len(group) - 1 else quote(s) + " "
            nt |= kind != "w" and any(c in s for c in SPECIAL)
        toks = [t[0] for t in scan(line)]
        eq("one token per text", len(toks), len(group), line=line)
        res = clih.execute(cli, toks)
        eq("result for %r" % line, res.result, "success")
        eq("values the action receives", cli.calls, [[s for _, s in group]], line=line)
        cli.calls.clear()
        if len(group) > 1:
            if "l" not in _state:
                _state["l"] = clih.iface("token STR StringToken(); g: \"l\" (STR STR) << $x = $2; call ext($2, $x); >>;")
            lists = _state["l"]
            lists.calls.clear()
            toks = [t[0] for t in scan("l " + line)]
            if len(toks) == 3:
                eq("result for l %r" % line, clih.execute(lists, toks).result, "success")
                texts = [s for _, s in group]
                eq("list of values the action receives", lists.calls, [[texts, texts]], line=line)
    if nt:
        rec.nontriv()


def run_literal(case, rec):
    """Strings of the grammar text reach the handler as the text they denote, on every way they can take."""
    src, want = "", []
    alts = []
    for i, (way, s) in enumerate(case):
        if ">>" in s:  # ends the action, wherever it stands
            return
        q, k = quote(s), "k%d" % i
        if way == "literal":
            alts.append('"%s" << call ext(%s); >>' % (k, q))
        elif way == "variable":
            alts.append('"%s" << $v%d = %s; $w%d = $v%d; call ext($w%d); >>' % (k, i, q, i, i, i))
        elif way == "nested":
            alts.append('"%s" << call ext(add("p", %s)); >>' % (k, q))
        elif way == "list":
            alts.append('"%s" << $l%d = list(); append($l%d, %s); call ext($l%d); >>' % (k, i, i, q, i))
        elif way == "assigned call":
            alts.append('"%s" << $c%d = add(%s, "q"); call ext($c%d); >>' % (k, i, q, i))
        elif way == "argument":
            src += 's%d[$x]: "%s" << call ext($x); >>; ' % (i, k)
            alts.append("s%d[%s]" % (i, q))
        elif way == "default":
            src += 's%d[$x = %s]: "%s" << call ext($x); >>; ' % (i, q, k)
            alts.append("s%d" % i)
        elif way == "reference":
            src += 's%d[$x]: "%s" << $x = %s; >>; ' % (i, k, q)
            alts.append("<< $y%d = 0; >> s%d[$y%d] << call ext($y%d); >>" % (i, i, i, i))
        elif way == "passed on":
            src += 't%d[$x]: "%s" << call ext($x); >>; s%d[$z]: t%d[$z]; ' % (i, k, i, i)
            alts.append("s%d[%s]" % (i, q))
        want.append(["p" + s] if way == "nested" else [[s]] if way == "list" else [s + "q"] if way == "assigned call" else [s])
        rec.label(way)
    src += "g: " + " | ".join(alts) + ";"
    cli = clih.iface(src)
    for i, w in enumerate(want):
        res = clih.execute(cli, ["k%d" % i])
        eq("result", res.result, "success", grammar=src)
        eq("values the handler receives", cli.calls, [w], grammar=src)
        ensure(all(type(x) in (str, list) for x in cli.calls[0]), "the handler receives plain strings", got=cli.calls)
        cli.calls.clear()
    if any("\\" in s for _, s in case):
        rec.nontriv()


def probe_keyword_backslash():
    cli = clih.iface('g: "C:\\\\new" << call ext($1); >>;')
    res = clih.execute(cli, ['"C:\\\\new"'])
    if res.result != "success":
        return "keyword not matched: %s" % res.result
    if cli.calls != [["C:\\new"]]:
        return "keyword 'C:\\\\new' (C:\\new) reaches the action as %r" % cli.calls
    return None


WORD = st.text(st.characters(blacklist_categories=("Cs",), blacklist_characters=' \t\n"\\'), min_size=1, max_size=6)
ARG = st.one_of(st.tuples(st.just("w"), WORD), st.tuples(st.sampled_from(["q", "q", "o"]), TEXT)).map(list)
PIECE = st.one_of(st.sampled_from(["\\" + e for e in ESCAPES]), st.sampled_from(["\\\\", "\\n", "a", "n", " ", "0", "-"]),
                  st.characters(blacklist_categories=("Cs",), blacklist_characters='"\\\n\r\t\0'))

WAYS = ["literal", "variable", "nested", "list", "assigned call", "argument", "default", "reference", "passed on"]

PROBES = [Probe("keyword-with-backslash", probe_keyword_backslash)]

SUBS = [
    Sub("round-trip", lambda: st.lists(PLAIN, min_size=1, max_size=4), run_roundtrip, 600, 20000,
        "texts over all characters, weighted to blanks, controls, quotes and backslashes, not written in quotes already; "
        "non-trivial: contains a character that needs escaping"),
    Sub("decode", lambda: st.lists(PIECE, max_size=10), run_decode, 400, 10000,
        "quoted bodies assembled from escape sequences and literal characters against a left-to-right reference decoder; "
        "non-trivial: at least one escape"),
    Sub("keyword", lambda: st.fixed_dictionaries({"kws": st.lists(KEYWORD, min_size=1, max_size=3)}), run_keyword, 150, 5000,
        "grammars whose keywords contain arbitrary characters; the displayed form is typed back; non-trivial: a keyword that needs escaping"),
    Sub("literal", lambda: st.lists(st.tuples(st.sampled_from(WAYS), TEXT).map(list), min_size=1, max_size=3), run_literal, 120, 5000,
        "strings written in a grammar (action literals, variables, nested calls, lists, grammar arguments, defaults, values set "
        "through a parameter) reach the handler as the text they denote; non-trivial: one holds a backslash"),
    Sub("delivery", lambda: st.lists(st.lists(ARG, min_size=1, max_size=2), min_size=1, max_size=3), run_delivery, 300, 10000,
        "words and quoted strings typed for string tokens reach the action as the text they denote; non-trivial: escapes or blanks involved"),
]
ASSUMPTIONS = ["texts that both begin and end with a double quote are outside the round trip: the conversion treats them as already quoted",
               "strings of a grammar text do not hold >>, which ends an action wherever it stands"]
_ = ensure
