"""C06 - a command is accepted exactly when its tokens form a sentence of the grammar."""
from hypothesis import strategies as st

from vlib import clih, gram
from vlib.core import Sub, eq, ensure


def run(case, rec):
    tree = case["tree"]
    src = gram.text(tree, case["style"], share=True)
    cli = clih.iface(src)
    words = gram.vocabulary(tree)
    loose = gram.has_nullable_repeat(tree)
    results = set()
    for choices, how in case["inputs"]:
        toks = gram.mutate(gram.walk(tree, choices), how, words)
        if not toks:
            continue
        try:
            steps = gram.readings(tree, toks)
        except gram.TooMany:
            rec.label("skipped: too many readings")
            continue
        res = clih.execute(cli, toks)
        note = {"grammar": src, "input": toks}
        if len(steps) <= len(toks):
            eq("result", res.result, "failure", error=res.error, **note)
            i = len(steps) - 1
            eq("offending token", (res.offending_token_position, str(res.offending_token)), (i, toks[i]), **note)
            rec.label("failure at %d" % min(i, 3))
        else:
            done = {h for s, h in steps[-1] if gram.accepting(s)}
            if not done:
                eq("result", res.result, "partial", error=res.error, **note)
                rec.label("incomplete")
            elif len(done) == 1 and not loose:
                eq("result", res.result, "success", error=res.error, **note)
                rec.label("complete")
                values = [gram.value(leaf, t) for (leaf, _), t in zip(list(done)[0], toks)]
                eq("matched values", gram.shown(res.matched_values, values, toks), values, **note)
            else:
                # more than one reading: C08 decides between the two
                ensure(res.result in ("success", "ambigous"), "a sentence of the grammar was refused", got=res.result, error=res.error, **note)
                rec.label("several readings")
        results.add(res.result)
        ensure(res.result == "success" or res.error, "a refused line must carry an error", **note)
    ops = gram.depth_kinds(tree)
    for o in ops:
        rec.label("operator " + o)
    if len(ops) >= 2 and "success" in results and len(results) > 1:
        rec.nontriv()


def run_counts(case, rec):
    """Large repetition counts, around their bounds."""
    lo, hi = case["lo"], max(1, case["lo"] + case["extra"])
    body = {"kw": ["kw", "x"], "seq": ["seq", [["kw", "x"], ["kw", "y"]]], "alt": ["alt", [["kw", "x"], ["kw", "y"]]], "str": ["str"],
            "ref": ["ref", ["seq", [["kw", "x"], ["kw", "y"]]]]}[case["body"]]
    tree = ["seq", [["kw", "S"], ["rep", body, lo, hi]] + ([["kw", "E"]] if case["end"] and case["body"] != "str" else [])]
    src = gram.text(tree, case["style"])
    cli = clih.iface(src)
    unit = {"kw": ["x"], "seq": ["x", "y"], "alt": ["y"], "str": ["w"], "ref": ["x", "y"]}[case["body"]]
    for k in sorted({0, 1, lo - 1, lo, lo + 1, hi - 1, hi, hi + 1, case["k"]}):
        if k < 0:
            continue
        toks = ["S"] + unit * k
        last = ["E"] if len(tree[1]) == 3 else []
        res = clih.execute(cli, toks + last)
        note = {"bounds": (lo, hi), "times": k, "grammar": src}
        if k > hi:
            eq("result", (res.result, res.offending_token_position), ("failure", 1 + hi * len(unit)), **note)
        elif k >= lo:
            eq("result", res.result, "success", error=res.error, **note)
        elif last:
            eq("result", (res.result, res.offending_token_position), ("failure", 1 + k * len(unit)), **note)
        else:
            eq("result", res.result, "partial", **note)
    if lo > 3:
        rec.nontriv()
    rec.label("body " + case["body"])


def count_cases():
    return st.fixed_dictionaries({"lo": st.integers(0, 25), "extra": st.integers(0, 25), "body": st.sampled_from(["kw", "seq", "alt", "str", "ref"]),
                                  "end": st.booleans(), "k": st.integers(0, 45), "style": gram.STYLE})


def cases(leaf, depth):
    return lambda: st.fixed_dictionaries({"tree": gram.trees(leaf, depth, again=True), "style": gram.STYLE, "inputs": st.lists(gram.INPUT, min_size=3, max_size=10)})


RULE = "; non-trivial: at least two kinds of operators, and inputs with different results one of which is success"
SUBS = [
    Sub("distinct-keywords", cases(gram.UNIQUE, 3), run, 170, 7000, "grammars whose keywords are all different, up to depth 4, with sentences and mutated sentences" + RULE),
    Sub("shared-keywords", cases(gram.SHARED, 3), run, 170, 7000, "grammars over three keywords, so that parts can begin alike" + RULE),
    Sub("typed-tokens", cases(gram.TYPED, 3), run, 170, 7000, "grammars mixing keywords, numbers, strings, choices and booleans" + RULE),
    Sub("counts", count_cases, run_counts, 25, 800, "repetition counts up to 50 tried around both bounds; non-trivial: lower bound above three"),
]
ASSUMPTIONS = ["names are defined before they are used", "lines with more than 150 readings at some point are skipped"]
