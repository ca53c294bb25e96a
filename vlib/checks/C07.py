"""C07 - suggestions are exactly the tokens that can come next."""
from hypothesis import strategies as st

from vlib import clih, gram
from vlib.clih import EndOfInpuToken
from vlib.core import Sub, eq, ensure


def helps_of(current, typed):
    """{completion: allowed help texts}"""
    out = {}
    for state, _ in current:
        for leaf, _, _ in gram.moves(state):
            for c in gram.suggestions(leaf, typed)[0]:
                out.setdefault(c, set())
                if leaf[0] == "kwh":
                    out[c].add(leaf[2])
                elif leaf[0] in ("kw", "one"):
                    out[c].add(c)
                elif leaf[0] == "own":
                    out[c].add(gram.told(leaf, c))
                elif gram.own_help(leaf):
                    out[c].add(gram.own_help(leaf))
                else:
                    out[c].add(None)
    return out


def compare(res, current, typed, complete, note):
    comps, helps, end = gram.next_of(current, typed)
    got, got_helps = clih.completions_and_helps(res)
    got_end = any(t is EndOfInpuToken for t in res.next_tokens or [])
    if not complete or not note["input"]:
        end = False      # inside a token the end of the line is not reached yet; an empty line is no command
    eq("suggestions", (sorted(got), sorted(got_helps), got_end), (sorted(comps), sorted(helps), end), **note)
    allowed = helps_of(current, typed)
    for t in res.next_tokens:
        c = getattr(t, "completion", None)
        if c in allowed and None not in allowed[c]:
            ensure(t.helpstring in allowed[c], "help text of %r" % c, got=t.helpstring, allowed=sorted(allowed[c]), **note)
    return comps, helps, end


def run(case, rec):
    tree = case["tree"]
    src = gram.text(tree, case["style"], share=True)
    cli = clih.iface(src)
    words = gram.vocabulary(tree)
    asked = set()
    rich = False
    for choices, how in case["inputs"]:
        toks = gram.mutate(gram.walk(tree, choices), how, words)
        try:
            steps = gram.readings(tree, toks)
        except gram.TooMany:
            rec.label("skipped: too many readings")
            continue
        for n in range(len(toks) + 1):
            # after the first n tokens
            if tuple(toks[:n]) in asked:
                continue
            asked.add(tuple(toks[:n]))
            note = {"grammar": src, "input": toks[:n]}
            res = clih.suggest(cli, toks[:n], complete=True)
            if n >= len(steps):
                ensure(res.result == "failure" and not res.next_tokens, "there is nothing to suggest after what begins no command",
                       got=(res.result, res.next_tokens), **note)
                rec.label("dead end")
                break
            comps, helps, end = compare(res, steps[n], "", True, note)
            ensure(res.result != "failure" or n == 0, "a beginning of a command was refused", got=res.result, **note)
            rec.label("boundary: %s%s" % (min(len(comps) + len(helps), 3), " or end" if end else ""))
            rich |= len(comps) + len(helps) + end > 1
            # inside the next token
            full = (toks + ["zz"])[n]
            for cut in {1, case["cut"] % (len(full) + 1), len(full)}:
                typed = full[:cut]
                if not typed:
                    continue
                note = {"grammar": src, "input": toks[:n], "typed": typed}
                res = clih.suggest(cli, toks[:n] + [typed], complete=False)
                comps, helps, _ = gram.next_of(steps[n], typed)
                if not comps and not helps:
                    ensure(res.result == "failure" and not res.next_tokens, "no next token starts with what was typed", got=(res.result, res.next_tokens), **note)
                    rec.label("inside: nothing")
                else:
                    compare(res, steps[n], typed, False, note)
                    ensure(res.result != "failure", "the beginning of a next token was refused", got=res.result, **note)
                    rec.label("inside: %d" % min(len(comps) + len(helps), 3))
        # whatever was asked, entering the line is judged as before
    if rich and len(asked) > 4:
        rec.nontriv()


def cases(leaf, depth):
    return lambda: st.fixed_dictionaries({"tree": gram.trees(leaf, depth, again=True), "style": gram.STYLE, "cut": st.integers(1, 9),
                                          "inputs": st.lists(gram.INPUT, min_size=2, max_size=6)})


# keywords that begin one another
NESTED = st.sampled_from(["a", "ab", "abc", "abd", "b", "ba"]).map(lambda w: ["kw", w])
RULE = "; every prefix of every input is asked, at the token boundary and inside the next token; non-trivial: some point with several continuations, more than four points asked"
SUBS = [
    Sub("distinct-keywords", cases(gram.UNIQUE, 3), run, 120, 5000, "grammars whose keywords are all different" + RULE),
    Sub("nested-keywords", cases(NESTED, 3), run, 120, 5000, "keywords that begin one another" + RULE),
    Sub("typed-tokens", cases(gram.HELPED, 3), run, 140, 5000, "keywords, numbers, strings, choices and booleans, with and without help texts" + RULE),
]
ASSUMPTIONS = ["names are defined before they are used", "points with more than 150 readings are skipped"]
