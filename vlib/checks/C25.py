"""C25 - interfaces do not affect each other."""
import asyncio
import os
import shutil
import tempfile

from hypothesis import strategies as st

from vlib import clih, gram, script
from vlib.core import Sub, eq
from vlib.checks import C18, C21, C24


def run(case, rec):
    source, lines = C24.grammars(case)
    shared = clih.compile_grammar(source)
    faces = [C24.Face(shared, "i%d" % i) for i in range(len(case["sessions"]))]
    fresh = C24.Fresh(source)
    kinds = [set() for _ in faces]
    note = {"grammar": source, "schedule": case["schedule"]}
    C24.drive([C24.session(f, lines, fresh, ops, dict(note, interface=f.mark), k) for f, ops, k in zip(faces, case["sessions"], kinds)], case["schedule"])
    for k in set().union(*kinds):
        rec.label(k)
    if sum("success" in k for k in kinds) > 1:
        rec.nontriv()


def cases():
    return st.fixed_dictionaries({
        "trees": st.lists(C24.part(7), min_size=1, max_size=2), "style": gram.STYLE, "uses": st.integers(0, 5),
        "sessions": st.lists(st.lists(C24.op(), min_size=2, max_size=8), min_size=2, max_size=3), "schedule": st.lists(st.integers(0, 5), min_size=1, max_size=12)})


# ---------------------------------------------------------------- command loops at the same time

class Keys(clih.Keys):
    def __init__(self, cli, keys, pauses):
        super().__init__(cli, keys)
        self.pauses = pauses

    async def readchar(self):
        for _ in range(self.pauses[self.at % len(self.pauses)]):
            await asyncio.sleep(0)
        return await super().readchar()


def run_loops(case, rec):
    folder = tempfile.mkdtemp(prefix="c25_")
    try:
        files = {}
        for i, text in enumerate(case["files"]):
            files["f%d" % i] = text
            with open(folder + "/f%d" % i, "w", encoding="utf8") as fd:
                fd.write("".join(x + "\n" for x in text))
        shells, wants = [], []
        for first, terminal, pauses, *profiled in case["shells"]:
            first = None if first is None else "f%d" % (first % len(files))
            wants.append(C18.reference(files, first, terminal)[0])
            streams = clih.Streams()
            trace = script.Trace()
            streams.err = script.Err(trace)
            cli = script.Shell(loop=clih.loop(), prompt="# ", disable_default_hooks=True, stdout=streams.out, stderr=streams.err, filename=first and folder + "/" + first)
            cli.folder, cli.trace = folder, trace
            if any(profiled):
                # what the command cmd-profiling does
                clih.NessaidCmd.do__profile(cli, True)
                rec.label("profiled")
            Keys(cli, [c for line in terminal for c in line + clih.CR], pauses)
            shells.append(cli)

        async def together():
            await asyncio.wait_for(asyncio.gather(*[cli.cmdloop() for cli in shells]), 60)
        clih.run(together())
        for i, (cli, want) in enumerate(zip(shells, wants)):
            eq("what the lines did in loop %d" % i, list(cli.trace), list(want), files=files, shells=case["shells"])
        busy = sum(len([t for t in want if t != "error"]) > 2 for want in wants)
        if busy > 1:
            rec.nontriv()
        rec.label("loops %d" % len(shells))
    finally:
        shutil.rmtree(folder)


@st.composite
def loop_cases(draw):
    n = draw(st.integers(1, 2))
    files = [draw(C18.blocks(list(range(i + 1, n)), False, 6)) for i in range(n)]
    shell = st.tuples(st.sampled_from([0, 1, None]), C18.blocks(list(range(n)), True, 5), st.lists(st.integers(0, 3), min_size=1, max_size=6), st.sampled_from([False] * 5 + [True])).map(list)
    return {"files": files, "shells": draw(st.lists(shell, min_size=2, max_size=3))}


# ---------------------------------------------------------------- one grammar, other token classes

def run_classes(case, rec):
    """Interfaces of one compiled grammar, each with answers of its own behind the token classes."""
    versions = [C21.leaves_of(case["tables"], v) for v in (0, 1)]
    trees = [C21.expand(case["tree"], lv) for lv in versions]
    src = C21.Text(case["style"]).render(trees[0]) + '\nroot: g << call ext("done"); >>;'
    spec = clih.compile_grammar(src)
    faces = []
    for lv in versions:
        faces.append(clih.iface(spec, root="root", cls=lambda s: C21.Own(s, lv)))
    words = [gram.vocabulary(t) + C21.WORDS[1:] for t in trees]
    seen = [set(), set()]
    for choices, how, cut, switch in case["inputs"]:
        at, made = switch % 2, (switch // 2) % 2
        toks = gram.mutate(gram.walk(trees[made], choices), how, words[made])[:6]
        note = {"grammar": src, "interface": at, "tables": versions[at], "tables of the other": versions[1 - at]}
        try:
            seen[at] |= C21.ask_everything(faces[at], trees[at], toks, cut, note, rec)
        except gram.TooMany:
            rec.label("skipped: too many readings")
    for f in faces:
        eq("tokens asked wrongly", f.wrong, [], grammar=src)
    if "accepted" in seen[0] and "accepted" in seen[1] and repr(trees[0]) != repr(trees[1]):
        rec.nontriv()


def classes_cases():
    op = st.tuples(gram.CHOICES, gram.MUTATION, st.integers(0, 5), st.integers(0, 3)).map(list)
    return st.fixed_dictionaries({"tables": st.lists(C21.leaf_table(["Slow", "Plain", "Helpful"], 2), min_size=1, max_size=3), "tree": gram.trees(C21.LEAF, 2, size=8),
                                  "style": gram.STYLE, "inputs": st.lists(op, min_size=3, max_size=8)})


SUBS = [
    Sub("interleaved", cases, run, 120, 4000,
        "two or three interfaces made from one compiled grammar, whose lines, suggestion requests and interrupted commands run interleaved by a random schedule, other grammars being compiled in between; "
        "each answer is compared with an interface compiled and made for that line alone; non-trivial: at least two of the interfaces accept a line"),
    Sub("classes", classes_cases, run_classes, 50, 2500,
        "two interfaces made from one compiled grammar whose token classes answer from different tables, asked and given lines by turns; non-trivial: both accept a line and the tables differ"),
    Sub("loops", loop_cases, run_loops, 100, 4000,
        "two or three command loops of one class running at the same time on command files and typed lines; non-trivial: at least two of them execute several commands"),
]
ASSUMPTIONS = C24.ASSUMPTIONS + ["one interface executes one line at a time"]
