"""C08 - abbreviations and ambiguity resolve by fixed rules."""
from hypothesis import strategies as st

from vlib import clih, gram
from vlib.core import Probe, Sub, ensure, eq


def shuffle(tree, order, at):
    """The same grammar with the members of alternatives and sets in another order."""
    k = tree[0]
    if k in gram.LEAVES:
        return tree
    if k in ("seq", "alt", "set"):
        kids = [shuffle(c, order, at) for c in tree[1]]
        if k != "seq":
            at[0] += 1
            n = order[at[0] % len(order)] % len(kids)
            kids = kids[n:] + kids[:n]
            if order[at[0] % len(order)] & 8:
                kids.reverse()
        return [k, kids]
    return [k, shuffle(tree[1], order, at)] + tree[2:]


def run(case, rec):
    tree = case["tree"]
    wrap = "\nroot: g << call ext(\"done\"); >>;"
    src = gram.text(tree, case["style"]) + wrap
    other = gram.text(shuffle(tree, case["order"], [0]), case["style"]) + wrap
    cli = clih.iface(src, root="root")
    cli2 = clih.iface(other, root="root")
    same_elements = "'ref'" in repr(tree) or "'rep'" in repr(tree)
    words = gram.vocabulary(tree)
    kinds = set()
    for choices, how, cuts in case["inputs"]:
        toks = gram.mutate(gram.walk(tree, choices), how, words)
        toks = [t[:max(1, len(t) - cuts[i % len(cuts)])] if cuts else t for i, t in enumerate(toks)]
        if not toks:
            continue
        try:
            steps = gram.readings(tree, toks)
        except gram.TooMany:
            rec.label("skipped: too many readings")
            continue
        note = {"grammar": src, "input": toks}
        cli.calls.clear()
        cli2.calls.clear()
        res = clih.execute(cli, toks)
        res2 = clih.execute(cli2, toks)
        eq("a reordered grammar gives another outcome", (res2.result, res2.matched_values, cli2.calls, clih.next_set(res2)),
           (res.result, res.matched_values, cli.calls, clih.next_set(res)), other=other, **note)
        done = {h for s, h in steps[-1] if gram.accepting(s)} if len(steps) > len(toks) else set()
        if not done:
            ensure(res.result in ("failure", "partial"), "no reading of the line is complete", got=res.result, **note)
            eq("actions of a refused line", cli.calls, [], **note)
            continue
        kept = gram.resolve(done, toks)
        if len(kept) == 1:
            eq("outcome", res.result, "success", error=res.error, readings=len(done), **note)
            values = [gram.value(leaf, t) for (leaf, _), t in zip(kept[0], toks)]
            eq("values", gram.shown(res.matched_values, values, toks), values, **note)
            kinds.add("one" if len(done) == 1 else "resolved")
        elif same_elements and len({tuple(leaf for leaf, _ in h) for h in kept}) == 1:
            # the readings differ only in which use of the same part they take
            ensure(res.result in ("success", "ambigous"), "outcome", got=res.result, **note)
            kinds.add("equal readings")
        else:
            eq("outcome", res.result, "ambigous", error=res.error, readings=len(kept), **note)
            kinds.add("ambiguous")
        eq("actions", cli.calls, [["done"]] if res.result == "success" else [], **note)
    for k in kinds:
        rec.label(k)
    if kinds & {"resolved", "ambiguous"}:
        rec.nontriv()


def cases(leaf, depth):
    inp = st.tuples(gram.CHOICES, gram.MUTATION, st.one_of(st.just([]), st.lists(st.integers(0, 4), min_size=1, max_size=4))).map(list)
    return lambda: st.fixed_dictionaries({
        "tree": gram.trees(leaf, depth, size=14), "style": gram.STYLE, "order": st.lists(st.integers(0, 15), min_size=2, max_size=5),
        "inputs": st.lists(inp, min_size=3, max_size=9)})


WORDS = st.sampled_from(["a", "ab", "abc", "abd", "b", "ba", "show", "shut", "start", "stop"]).map(lambda w: ["kw", w])
MIXED = st.one_of(st.sampled_from(["a", "ab", "abc", "red", "1", "12", "true"]).map(lambda w: ["kw", w]), st.just(["str"]),
                  st.sampled_from([["int", 1, 5], ["int", 10, 25], ["int", 0, 900], ["rstr", 1, 2], ["one", ["abx", "red"]], ["bool"], ["kwh", "abc", "help"]]))
NEAR = st.sampled_from([["kw", "ab"], ["kw", "abc"], ["kw", "abcd"], ["kw", "abd"], ["str"], ["str"], ["rstr", 1, 2], ["rstr", 2, 2], ["rstr", 2, 3], ["rstr", 1, 3], ["one", ["abc", "abx"]], ["one", ["ab", "abq", "xab"]],
                        ["kw", "12"], ["kw", "123"], ["int", 1, 12], ["int", 12, 12], ["int", 120, 129], ["kw", "tr"], ["kw", "true"], ["bool"]])


def rows():
    """Commands of the same length that differ in a few places."""
    inp = st.tuples(gram.CHOICES, st.sampled_from([[0, 0, 0], [0, 1, 1]]), st.one_of(st.just([]), st.lists(st.sampled_from([0, 0, 1, 1, 2]), min_size=2, max_size=3))).map(list)
    tree = st.integers(2, 3).flatmap(lambda n: st.lists(st.lists(NEAR, min_size=n, max_size=n).map(lambda r: ["seq", r]), min_size=2, max_size=5)).map(lambda r: ["alt", r])
    return st.fixed_dictionaries({"tree": tree, "style": gram.STYLE, "order": st.lists(st.integers(0, 15), min_size=2, max_size=5), "inputs": st.lists(inp, min_size=4, max_size=10)})


RULE = "; inputs are typed in full and abbreviated, and every grammar is also tried with its alternatives and sets reordered; non-trivial: some line with several complete readings"
SUBS = [
    Sub("keywords", cases(WORDS, 3), run, 140, 6000, "grammars over keywords that begin one another" + RULE),
    Sub("mixed", cases(MIXED, 3), run, 140, 6000, "keywords overlapping with numbers, strings, choices and booleans" + RULE),
    Sub("rows", rows, run, 120, 6000, "two to five commands of the same length over texts, strings and numbers that nearly agree" + RULE),
    Sub("flat", cases(MIXED, 2), run, 140, 6000, "the same, shallower, so that overlaps are frequent" + RULE),
]

def probe_shared():
    cli = clih.iface('a: "x"; g: a << call ext(1); >> | a << call ext(2); >>;')
    res = clih.execute(cli, ["x"])
    return None if res.result == "ambigous" and not cli.calls else "one of the two readings was executed"


PROBES = [Probe("shared-grammar", probe_shared, "F-shared-grammar-readings")]
ASSUMPTIONS = ["names are defined before they are used", "lines with more than 150 readings are skipped",
               "readings that differ only in which of two uses of one named part they take may be executed or reported"]
