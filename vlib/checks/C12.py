"""C12 - only accepted commands have effects."""
from hypothesis import strategies as st

from vlib import clih, gram
from vlib.core import Sub, eq, ensure
from vlib.checks.C09 import acted, decorate

ROOT = "\nroot: g << call ext(\"done\"); print(\"done\"); $seen = append($seen, 1); call ext($seen); >>;"


def source(case):
    log = {}
    tree = decorate(case["tree"], log)
    return tree, gram.text(tree, case["style"]) + ROOT


def answer(res):
    """Everything a suggestion request tells."""
    return (res.result, res.error, res.offending_token and str(res.offending_token), res.offending_token_position,
            clih.next_set(res), res.next_constant_token, res.last_token or None)


def effects(cli):
    return repr((cli.calls, cli.streams.out.getvalue()))


def fresh_effects(spec, toks):
    cli = clih.iface(spec, root="root")
    res = clih.execute(cli, toks)
    return res.result, cli.calls, cli.streams.out.getvalue()


def run(case, rec):
    tree, src = source(case)
    cli = clih.iface(src, root="root")
    other = clih.compiled(src)
    words = gram.vocabulary(tree)
    executed = suggested = refused = 0
    for kind, choices, how, cut in case["ops"]:
        toks = gram.mutate(gram.walk(tree, choices), how, words)
        if cut and toks:
            toks[-1] = toks[-1][:cut]
        if not gram.tame(tree, toks):
            rec.label("too many readings")
            continue
        note = {"grammar": src, "input": toks}
        cli.calls.clear()
        cli.streams.out.seek(0)
        cli.streams.out.truncate()
        if kind < 3:
            first = answer(clih.suggest(cli, toks, bool(kind)))
            eq("effects of asking for suggestions", effects(cli), "([], '')", **note)
            second = answer(clih.suggest(cli, toks, bool(kind)))
            eq("the same question asked again", second, first, **note)
            eq("effects of asking for suggestions", effects(cli), "([], '')", **note)
            suggested += 1
            if kind < 2:
                continue
        if not toks:
            continue
        res = clih.execute(cli, toks)
        if res.result != "success":
            eq("effects of a line that was not accepted", effects(cli), "([], '')", result=res.result, **note)
            refused += 1
        else:
            eq("completions of the command", (cli.calls.count(["done"]), cli.streams.out.getvalue()), (1, "done\n"), **note)
            executed += 1
        eq("what the line does", (res.result, cli.calls, cli.streams.out.getvalue()), fresh_effects(other, toks), **note)
    if executed and suggested:
        rec.nontriv()
        rec.label("%s executed" % min(executed, 5))
    if refused:
        rec.label("some refused")


def run_keys(case, rec):
    """Typing with TAB and BACKSPACE in the line editor: only ENTER on a command has effects."""
    tree, src = source(case)
    cli = clih.Cli(src)
    words = gram.vocabulary(tree)
    keys = []
    for choices, how, edits in case["lines"]:
        toks = gram.mutate(gram.walk(tree, choices), how, words)
        if not gram.tame(tree, toks, 60):
            rec.label("too many readings")
            continue
        text = list(" ".join(toks))
        for where, what in edits:
            text.insert(where % (len(text) + 1), [clih.TAB, clih.TAB, clih.TAB, clih.BACKSPACE, " "][what])
        keys += text + [clih.CR]
    lines = []
    state = {"effects": effects_only(cli), "pending": ""}

    def before(i, buffer):
        """Called before key i is typed, that is when the effects of key i-1 are complete."""
        now = effects_only(cli)
        if i and i <= len(keys) and keys[i - 1] == clih.CR:
            lines[-1].append(now[len(state["effects"]):])
            state["effects"] = now
        elif now != state["effects"]:
            bad.append("a key other than ENTER had an effect: key %r, line %r, effects %r" % (keys[i - 1], buffer, now[len(state["effects"]):]))
            state["effects"] = now
        if i < len(keys) and keys[i] == clih.TAB:
            state["pending"] = ""       # TAB puts the lines before into the edited line
        if i < len(keys) and keys[i] == clih.CR:
            text = state["pending"] + buffer
            state["pending"] = ""
            if text.rstrip().endswith("\\"):
                state["pending"] = text.rstrip()[:-1]
                text = None
            lines.append([text])

    bad = []
    clih.loop_keys(cli, keys, root="root", before=before)
    ensure(not bad, "; ".join(bad), grammar=src, keys=keys)
    done = 0
    spec = clih.compiled(src)
    for line in lines:
        if line[0] is None:
            eq("effects of a line that continues on the next one", line[1], [], grammar=src, keys=keys)
            continue
        other = clih.Cli(spec)
        other.enter_grammar("root")
        code = clih.run(other.exec_line(line[0]))
        eq("effects of entering a line that was edited with TAB", line[1], other.calls, line=line[0], grammar=src, keys=keys)
        if code:
            eq("effects of a refused line", line[1], [], line=line[0], grammar=src, keys=keys)
        else:
            eq("completions of the command", line[1].count(["done"]), 1, line=line[0], grammar=src, keys=keys)
            done += 1
    eq("lines", len(lines), keys.count(clih.CR), grammar=src, keys=keys)
    rec.label("%d of %d lines accepted" % (done, len(lines)))
    if done and clih.TAB in keys:
        rec.nontriv()


def effects_only(cli):
    return list(cli.calls)


def grammars():
    return acted(gram.trees(gram.TYPED, 2, size=16), 9)


def cases():
    op = st.tuples(st.integers(0, 4), gram.CHOICES, gram.MUTATION, st.integers(0, 2)).map(list)
    return st.fixed_dictionaries({"tree": grammars(), "style": gram.STYLE, "ops": st.lists(op, min_size=3, max_size=10)})


def key_cases():
    line = st.tuples(gram.CHOICES, gram.MUTATION, st.lists(st.tuples(st.integers(0, 60), st.integers(0, 4)).map(list), max_size=6)).map(list)
    return st.fixed_dictionaries({"tree": grammars(), "style": gram.STYLE, "lines": st.lists(line, min_size=1, max_size=4)})


SUBS = [
    Sub("histories", cases, run, 100, 5000, "interleavings of suggestion requests and executed lines over grammars whose actions call, print and keep variables; non-trivial: a suggestion request and an accepted line"),
    Sub("keys", key_cases, run_keys, 100, 5000, "lines typed into the real line editor with TAB and BACKSPACE in between; non-trivial: TAB was pressed and a line accepted"),
]
ASSUMPTIONS = ["the terminal is replaced by a list of keys at the line editor's readchar"]
