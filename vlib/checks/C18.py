"""C18 - the command loop runs every line of a script once and in order."""
import asyncio
import os
import shutil
import tempfile

from hypothesis import strategies as st

from vlib import clih, script
from vlib.core import Sub, eq
from vlib.scan import quote

MISSING = ["nosuch", "folder", "binary"]


def reference(files, first, terminal):
    lines = script.Lines(files, terminal)
    trace = script.Trace()
    if first is not None and not lines.push(first):
        trace.error()
    while True:
        line = script.logical(lines)
        if line is None:
            trace.append(["end"])
            return trace, False
        got = script.parse(line, script.COMMANDS)
        if got == "error":
            trace.error()
        elif got and not script.effect(got, lines, trace):
            return trace, any(lines.stack) or bool(lines.terminal)


def run(case, rec):
    folder = tempfile.mkdtemp(prefix="c18_")
    try:
        files = {}
        os.mkdir(folder + "/folder")
        with open(folder + "/binary", "wb") as fd:
            fd.write(b"say a\nsay \xff\xfe\nsay b\n")
        for i, f in enumerate(case["files"]):
            files["f%d" % i] = f["lines"]
            text = f["eol"].join(f["lines"]) + (f["eol"] if f["closed"] and f["lines"] else "")
            if not f["closed"] and f["lines"] and not f["lines"][-1]:
                files["f%d" % i] = f["lines"][:-1]
            with open(folder + "/f%d" % i, "w", newline="", encoding="utf8") as fd:
                fd.write(text)
        first = case["first"] if case["first"] is None or case["first"] in MISSING else "f%d" % (case["first"] % len(files))
        want, left = reference(files, first, case["terminal"])
        streams = clih.Streams()
        trace = script.Trace()
        streams.err = script.Err(trace)
        cli = script.Shell(loop=clih.loop(), prompt="# ", disable_default_hooks=True, stdout=streams.out, stderr=streams.err,
                           filename=None if first is None else folder + "/" + first)
        cli.folder, cli.trace = folder, trace
        keys = [c for line in case["terminal"] for c in line + clih.CR]
        clih.Keys(cli, keys)
        clih.run(asyncio.wait_for(cli.cmdloop(intro=case["intro"]), 60))
        note = {"files": files, "first file": first, "terminal": case["terminal"]}
        eq("what the lines did", list(trace), list(want), errors=streams.err.getvalue(), **note)
        if not left and case["again"] and first not in files:
            # the loop can be run again
            del trace[:]
            want, _ = reference(files, first, case["again"])
            clih.Keys(cli, [c for line in case["again"] for c in line + clih.CR])
            clih.run(asyncio.wait_for(cli.cmdloop(), 60))
            eq("what the lines did in the second loop", list(trace), list(want), second=case["again"], **note)
            rec.label("second loop")
        kinds = {t[0] if isinstance(t, list) else t for t in want}
        for k in kinds:
            rec.label(k)
        ran = sum(isinstance(t, list) and t[0] == "run" and t[1] in files for t in want)
        if (ran or first in files) and len([t for t in want if t != "error"]) > 3 and ("error" in kinds or "answer" in kinds or ran > 1):
            rec.nontriv()
    finally:
        shutil.rmtree(folder)


# ---------------------------------------------------------------- strategies

WORD = st.sampled_from(["a", "bb", "c3", "#d", "-1", "say", "x=y", "quit"])
QUOTED = st.sampled_from(["two words", "# no comment", "", " padded ", 'q"q', "back\\slash", "tab\t"]).map(quote)


# what ends a line for str.splitlines() ends none of a file
BREAKS = "\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029"
ODD = st.sampled_from(BREAKS).flatmap(lambda c: st.sampled_from([c, "a%sb" % c, "%ssay a" % c, "a%s # b" % c])).map(quote)


@st.composite
def lines(draw, files, ascii_only=True):
    """Some physical lines: commands, faults, comments, blank lines, and commands continued over several lines."""
    k = draw(st.sampled_from(["say"] * 6 + ["ask", "ask", "terminal", "run", "run", "run", "boom", "bad", "bad", "comment", "blank", "missing", "quit"]))
    if k == "say":
        word = st.one_of(WORD, WORD, QUOTED) if ascii_only else st.one_of(WORD, QUOTED, st.just("été"), ODD)
        text = draw(st.sampled_from(["", " ", "\t"])) + "say " + draw(st.sampled_from([" ", "  "])).join(draw(st.lists(word, min_size=1, max_size=4)))
    elif k in ("ask", "terminal"):
        text = "%s %d" % (k, draw(st.integers(1, 3)))
    elif k == "run":
        text = "run f%d" % draw(st.sampled_from(files)) if files else "run f99"
    elif k == "missing":
        text = "run " + draw(st.sampled_from(MISSING))
    elif k == "boom":
        text = "boom " + draw(st.sampled_from(["now", "later"]))
    elif k == "bad":
        text = draw(st.sampled_from(["zzz", "say", "say 1 2 3 4 5 6 7", "ask 9", "quit now", "b", 'say a\\b', "\\ say", 'say "open', "boom sometime", '"']))
    elif k == "comment":
        text = draw(st.sampled_from(["#", "# say no", "  # say \"no", "#say \\no", "\t#x"]))
        if not ascii_only and draw(st.booleans()):
            text = text.replace("#", "#" + draw(st.sampled_from(BREAKS)), 1) + " say no"
    elif k == "blank":
        text = draw(st.sampled_from(["", " ", "\t  "]))
    else:
        text = "quit" if draw(st.integers(0, 3)) == 0 else "say end"
    if ascii_only:
        text = text.replace("\t", " ")
    out = [text]
    while len(out) < 4 and draw(st.integers(0, 5)) == 0 and len(out[-1]) > 1:
        at = draw(st.integers(0, len(out[-1])))
        if out[-1][:at].endswith("\\"):
            break
        out[-1:] = [out[-1][:at] + "\\" + draw(st.sampled_from(["", "", " "])), out[-1][at:]]
    if draw(st.integers(0, 15)) == 0:
        out.append(draw(st.sampled_from(["\\", "# \\"])))
    if draw(st.integers(0, 5)) == 0:
        out[-1] += "  "
    return out


def blocks(files, ascii_only, size):
    return st.lists(lines(files, ascii_only), max_size=size).map(lambda ls: [x for l in ls for x in l])


@st.composite
def cases(draw):
    n = draw(st.integers(1, 4))
    files = [{"lines": draw(blocks(list(range(i + 1, n)), False, 7)), "eol": draw(st.sampled_from(["\n", "\n", "\r\n", "\r"])), "closed": draw(st.booleans())} for i in range(n)]
    return {"files": files, "first": draw(st.sampled_from([0, 0, 0, 1, None, None, "nosuch", "binary"])), "terminal": draw(blocks(list(range(n)), True, 5)),
            "again": draw(blocks(list(range(n)), True, 2)), "intro": draw(st.sampled_from([None, "Hello"]))}


SUBS = [
    Sub("scripts", cases, run, 250, 12000,
        "up to four command files running one another, then lines typed at the terminal, with commands, prompts, faults, raising handlers, comments, blank lines and continuations; "
        "non-trivial: a file is run, several commands are executed, and some line fails, is an answer, or runs another file"),
]
ASSUMPTIONS = ["what remains pending after a loop was left is not judged", "no line ends in two backslashes before its continuation",
               "the terminal is closed after the last typed line; a prompt then gets the empty answer"]
