"""C05 - path tokens against the file system."""
import os
import re
import shutil
import tempfile

from hypothesis import strategies as st

from vlib import clih
from vlib.core import Sub, eq, ensure


def squeeze(text):
    return re.sub("/+", "/", text)


def entries(root):
    """Relative paths of everything below root, in a fixed order."""
    found = []
    for d, dirs, files in os.walk(root):
        dirs.sort()
        for name in sorted(dirs + files):
            found.append(os.path.relpath(os.path.join(d, name), root))
    return sorted(found)


def make(root, parts, kind):
    path = root
    for p in parts[:-1]:
        path = os.path.join(path, p)
        if os.path.lexists(path) and not os.path.isdir(path):
            return
    if os.path.lexists(os.path.join(path, parts[-1])):
        return
    os.makedirs(path, exist_ok=True)
    path = os.path.join(path, parts[-1])
    if kind == "d":
        os.mkdir(path)
    else:
        with open(path, "w") as fd:
            fd.write("x")


def remove(root, rel):
    path = os.path.join(root, rel)
    if os.path.isdir(path):
        shutil.rmtree(path)
    elif os.path.lexists(path):
        os.unlink(path)


def expected(text, closed):
    """(suggestions, accepted value or None, several) for the text between the quotes, from the file system alone."""
    head, sep, prefix = text.rpartition("/")
    folder = head + sep or "."
    base = squeeze(head + sep)
    if not os.path.isdir(folder):
        return set(), None, False
    if prefix in (".", ".."):
        return None, (base + prefix if closed else None), not closed
    names = os.listdir(folder)
    if prefix == "":
        if not text:
            return None, None, True
        if closed:
            return {'"' + base + '"'}, base, False
        if not names:
            return {'"' + base + '"'}, base, False
        return {'"' + base} | {'"' + base + n for n in names}, base, False
    if closed:
        if prefix in names:
            return {'"' + base + prefix + '"'}, base + prefix, False
        return set(), None, False
    hits = [n for n in names if n.startswith(prefix)]
    if not hits:
        return set(), None, False
    shown = {'"' + base + n for n in hits}
    if len(hits) == 1:
        if os.path.isdir(os.path.join(folder, hits[0])):
            shown |= {'"' + base + hits[0] + "/"}
        else:
            shown = {'"' + base + hits[0] + '"'}
        return shown, base + hits[0], False
    if prefix in hits:
        return shown, base + prefix, False
    return shown, None, True


def ask(cli, step, root, rec):
    known = entries(root)
    text = ""
    if known:
        text = known[step["pick"] % len(known)]
    if os.path.isdir(os.path.join(root, text)) and step["slash"]:
        text += "/"
    parts = text.split("/")
    if step["noise"] == 1:
        parts.insert(step["cut"] % len(parts), ".")
    elif step["noise"] == 2:
        parts.insert(max(1, step["cut"] % len(parts)), "")
    elif step["noise"] == 3 and len(parts) > 1:
        parts[1:1] = ["..", parts[0]]
    elif step["noise"] == 4:
        parts[0:0] = [".."] + [os.path.basename(root)]
    text = "/".join(parts)
    if step["keep"] < 100:
        text = text[:max(0, len(text) - step["keep"])]
    text += step["tail"]
    if step["abs"]:
        text = root + "/" + text
    form = step["form"]
    if form == "bare" and (" " in text or not text):
        form = "open"
    closed = form == "closed"
    typed = {"open": '"' + text, "closed": '"' + text + '"', "bare": text}[form]
    shown, value, several = expected(text, closed)
    note = {"typed": typed, "entries": known}

    if shown is not None:
        res = clih.suggest(cli, ["v", typed], complete=False)
        comps, helps = clih.completions_and_helps(res)
        if shown:
            eq("suggestions", comps, shown, **note)
        else:
            ensure(not comps and res.result == "failure", "a path that leads nowhere must not be completed", got=comps, result=res.result, **note)
        rec.label("suggest %s %d" % (form, min(len(shown), 3)))
    elif text == "":
        if form == "open":
            res = clih.suggest(cli, ["v", typed], complete=False)
            comps, helps = clih.completions_and_helps(res)
            eq("suggestions", comps, {'".', '"..', '"/'} | {'"' + n for n in os.listdir(".")}, **note)

    if text == "":
        return
    cli.calls.clear()
    res = clih.execute(cli, ["v", typed])
    if value is not None:
        eq("executing v %s" % typed, res.result, "success", **note)
        eq("executing v %s" % typed, [[squeeze(a) for a in c] for c in cli.calls], [[value]], **note)
        rec.label("accepted " + form)
    elif several:
        # A text that only begins several names (or a dot) may be taken as it is or refused.
        if res.result == "success":
            eq("executing v %s" % typed, [[squeeze(a) for a in c] for c in cli.calls], [[squeeze(text)]], **note)
        else:
            eq("executing v %s" % typed, cli.calls, [], **note)
    else:
        eq("executing v %s" % typed, (res.result, cli.calls), ("failure", []), **note)
        rec.label("refused " + form)
    if len(known) > 2 and shown:
        rec.nontriv()


def run(case, rec):
    base = tempfile.mkdtemp(prefix="c05-", dir=os.environ.get("VERIF_TMP"))
    old = os.getcwd()
    try:
        root = os.path.join(base, "top")
        os.mkdir(root)
        os.chdir(root)
        for parts, kind in case["tree"]:
            make(root, parts, kind)
        cli = clih.iface("token P PathToken(%s); g: \"v\" P << call ext($2); >>;" % case["arg"])
        changed = False
        for step in case["steps"]:
            if step["op"] == "make":
                make(root, step["parts"], step["kind"])
                changed = True
            elif step["op"] == "remove":
                known = entries(root)
                if known:
                    remove(root, known[step["pick"] % len(known)])
                    changed = True
            else:
                ask(cli, step, root, rec)
                if changed:
                    rec.label("asked after a change")
    finally:
        os.chdir(old)
        shutil.rmtree(base)


# ---------------------------------------------------------------- wildcards

def fits(name, pattern):
    """Whether the name fits the pattern with its *, ? and [..]."""
    expr, i = "", 0
    while i < len(pattern):
        c = pattern[i]
        end = pattern.find("]", i + 2)
        if c == "*":
            expr += ".*"
        elif c == "?":
            expr += "."
        elif c == "[" and end > 0:
            inner = pattern[i + 1:end]
            expr += "[" + ("^" + inner[1:] if inner[0] == "!" else inner) + "]"
            i = end
        else:
            expr += re.escape(c)
        i += 1
    return re.fullmatch(expr, name, re.DOTALL) is not None


def matching(text):
    """The paths a text with wildcards stands for, from the file system alone."""
    found = ["/"] if text.startswith("/") else [""]
    for part in [p for p in text.split("/") if p]:
        found = [f + ("/" if f and not f.endswith("/") else "") + n for f in found if os.path.isdir(f or ".") for n in os.listdir(f or ".") if fits(n, part)]
    if text.endswith("/"):
        found = [f + "/" for f in found if os.path.isdir(f)]
    return set(found)


def pattern(name, how, cut):
    k = cut % len(name)
    return [name, name, "*", name[:k] + "*", "*" + name[k:], name[:k] + "?" + name[k + 1:], name[:k] + "[" + name[k] + "~]" + name[k + 1:],
            name[:k] + "[!" + name[k] + "]" + name[k + 1:], name[:k] + "*" + name[-1:], "?" * len(name)][how]


def run_wild(case, rec):
    base = tempfile.mkdtemp(prefix="c05-", dir=os.environ.get("VERIF_TMP"))
    old = os.getcwd()
    try:
        root = os.path.join(base, "top")
        os.mkdir(root)
        os.chdir(root)
        for parts, kind in case["tree"]:
            make(root, parts, kind)
        cli = clih.iface("token P PathToken(); g: \"v\" P << call ext($2); >>;")
        for step in case["steps"]:
            if step["op"] == "make":
                make(root, step["parts"], step["kind"])
                continue
            known = entries(root)
            if not known:
                continue
            parts = known[step["pick"] % len(known)].split("/")
            text = "/".join(pattern(p, h, c) for p, (h, c) in zip(parts, step["how"]))
            if any(c in p and "[" in p for p in text.split("/") for c in "]^-!\\" if "".join(parts).count(c)):
                continue    # a bracket expression of odd characters
            text += "/" if step["slash"] else ""
            if not any(c in text for c in "*?["):
                continue
            if step["abs"]:
                text = root + "/" + text
            found = matching(text)
            note = {"typed": text, "entries": known}
            # closed in quotes: accepted if there is one such thing
            cli.calls.clear()
            res = clih.execute(cli, ["v", '"' + text + '"'])
            got = [[squeeze(a) for a in c] for c in cli.calls]
            if len(found) == 1:
                eq("executing a pattern one entry fits", (res.result, got), ("success", [list(found)]), **note)
            elif found and res.result == "success":
                eq("executing a pattern several entries fit", got, [[squeeze(text)]], **note)
            else:
                ensure(res.result != "success" and not got, "a pattern was accepted that %d entries fit" % len(found), got=got, **note)
            rec.label("entries that fit: %d" % min(len(found), 3))
            if not text.endswith("/"):
                comps, helps = clih.completions_and_helps(clih.suggest(cli, ["v", '"' + text], complete=False))
                if not any(c in text.rpartition("/")[2] for c in "*?["):
                    found = matching(text + "*")
                if len(found) == 1:
                    one = list(found)[0]
                    ensure(comps and all(squeeze(c.strip('"')).startswith(one) for c in comps), "what continues a pattern one entry fits", got=comps, **note)
                else:
                    eq("what continues the pattern", {squeeze(c) for c in comps}, {'"' + f for f in found}, **note)
            if len(known) > 2 and found:
                rec.nontriv()
    finally:
        os.chdir(old)
        shutil.rmtree(base)


NAME = st.one_of(st.text("ab", min_size=1, max_size=3), st.text(st.sampled_from("aAb1 ._-+=,\u00e9"), min_size=1, max_size=5).filter(lambda s: s not in (".", "..")),
                 st.sampled_from(["file.txt", "file", "fil", "dir", "dir2", "a b", ".hidden", "Readme", "readme"]))
PARTS = st.lists(NAME, min_size=1, max_size=3)
KIND = st.sampled_from("dff")


def cases():
    asks = st.fixed_dictionaries({
        "op": st.just("ask"), "pick": st.integers(0, 30), "slash": st.booleans(), "cut": st.integers(0, 5), "noise": st.sampled_from([0, 0, 0, 0, 1, 2, 3, 4]),
        "keep": st.sampled_from([0, 0, 0, 1, 1, 2, 3, 4, 6, 100]), "tail": st.sampled_from(["", "", "", "", "", "a", "/", "x", "/a", ".", "//"]),
        "abs": st.booleans(), "form": st.sampled_from(["open", "open", "closed", "closed", "bare"])})
    mk = st.fixed_dictionaries({"op": st.just("make"), "parts": PARTS, "kind": KIND})
    rm = st.fixed_dictionaries({"op": st.just("remove"), "pick": st.integers(0, 30)})
    return st.fixed_dictionaries({"tree": st.lists(st.tuples(PARTS, KIND).map(list), max_size=7), "arg": st.sampled_from(["", "", '"path"', '"file"', '"directory"']),
                                  "steps": st.lists(st.one_of(asks, asks, asks, mk, rm), min_size=1, max_size=9)})


def wild_cases():
    how = st.tuples(st.integers(0, 9), st.integers(0, 4)).map(list)
    asks = st.fixed_dictionaries({"op": st.just("ask"), "pick": st.integers(0, 30), "how": st.lists(how, min_size=3, max_size=3), "slash": st.integers(0, 4).map(lambda n: n == 0),
                                  "abs": st.integers(0, 3).map(lambda n: n == 0)})
    mk = st.fixed_dictionaries({"op": st.just("make"), "parts": PARTS, "kind": KIND})
    return st.fixed_dictionaries({"tree": st.lists(st.tuples(PARTS, KIND).map(list), min_size=1, max_size=8), "steps": st.lists(st.one_of(asks, asks, asks, mk), min_size=1, max_size=8)})


SUBS = [Sub("paths", cases, run, 250, 9000,
            "trees of up to 7 entries (names with blanks, dots and shared beginnings, up to 3 deep), typed paths cut and altered at any place, absolute and relative, "
            "with files made and removed in between; non-trivial: more than two entries and a non-empty suggestion list"),
        Sub("wildcards", wild_cases, run_wild, 80, 3000,
            "such trees, and paths of which any part is made a pattern with *, ? or [..], closed in quotes and not; non-trivial: more than two entries, and something fits")]
ASSUMPTIONS = ["POSIX separators; names without quotes, backslashes and wildcard characters", "what the last component . or .. suggests is not specified"]
