"""C21 - token classes of the application decide what their tokens accept, offer and hand on."""
import functools

from hypothesis import strategies as st

from vlib import clih, gram
from vlib.checks import C07
from vlib.clih import T
from vlib.core import Sub, ensure, eq
from vlib.scan import quote

MATCH = {"s": T.MATCH_SUCCESS, "p": T.MATCH_PARTIAL, "f": T.MATCH_FAILURE}


# ---------------------------------------------------------------- token classes that answer from tables

class Table(T.CliToken):
    """Answers from the table the application keeps under the token's number."""

    def __init__(self, name, number, cli=None, helpstring=None):
        super().__init__(name, helpstring=helpstring, cli=cli)
        self.number = number
        self.made_with = cli
        self.lists = {}

    def leaf(self, cli):
        if cli is None or cli is not self.made_with:
            self.made_with.wrong.append("a token was asked without its interface")
        return cli.leaves[self.number]

    def row(self, typed, cli):
        return gram.row(self.leaf(cli), typed)

    @property
    def helpstring(self):
        return self._helpstring or self.made_with.leaves[self.number][4]

    @property
    def completable(self):
        return self.made_with.leaves[self.number][3]

    def answer_match(self, typed, cli):
        m = self.row(typed, cli)[0]
        if m == "!":
            raise LookupError("match of %r" % typed)
        return MATCH[m]

    def answer_complete(self, typed, cli):
        c = self.row(typed, cli)[2]
        if c == "!":
            raise LookupError("complete of %r" % typed)
        if self.number % 2 and self.cacheable:
            # a list of its own, which nobody may change
            return len(c), self.lists.setdefault(typed, list(c))
        return len(c), list(c)

    def answer_value(self, typed, cli):
        v = self.row(typed, cli)[1]
        if v[0] == "!":
            raise LookupError("value of %r" % typed)
        return v[1] if v[0] == "v" else T.NullTokenValue


class Slow(Table):
    """With coroutines."""

    async def match(self, token_input, cli=None):
        return self.answer_match(token_input, cli)

    async def complete(self, token_input, cli=None):
        return self.answer_complete(token_input, cli)

    async def get_value(self, match_string=None, cli=None):
        return self.answer_value(match_string, cli)


class Plain(Table):
    """With ordinary methods."""

    def match(self, token_input, cli=None):
        return self.answer_match(token_input, cli)

    def complete(self, token_input, cli=None):
        return self.answer_complete(token_input, cli)

    def get_value(self, match_string=None, cli=None):
        return self.answer_value(match_string, cli)


class Mixed(Plain):
    """With both."""

    async def match(self, token_input, cli=None):
        return self.answer_match(token_input, cli)


def traced(fn):
    """An everyday decorator, which is no coroutine function itself."""
    @functools.wraps(fn)
    def wrapper(*args, **kw):
        return fn(*args, **kw)
    return wrapper


class Decorated(Table):
    match = traced(Slow.match)
    complete = traced(Slow.complete)
    get_value = traced(Slow.get_value)


class Helpful(Slow):
    """Has a help text for every text."""

    async def get_helpstring(self, match_string=None, cli=None):
        return gram.told(self.leaf(cli), match_string)


class SlowLive(Slow):
    @property
    def cacheable(self):
        return False


class PlainLive(Plain):
    @property
    def cacheable(self):
        return False


class After(Slow):
    """Its table depends on the value matched at a fixed place before it."""

    def __init__(self, name, number, place, cli=None, helpstring=None):
        super().__init__(name, number, cli=cli, helpstring=helpstring)
        self.place = place

    @property
    def cacheable(self):
        return False

    def row(self, typed, cli):
        values = cli.get_matched_values()
        before = values[self.place]
        if self.number % 2:
            # what it was given is its own
            values[:] = ["scribble"]
        return gram.row(after(self.leaf(cli), before), typed)


class PlainAfter(After):
    def match(self, token_input, cli=None):
        return self.answer_match(token_input, cli)

    def complete(self, token_input, cli=None):
        return self.answer_complete(token_input, cli)

    def get_value(self, match_string=None, cli=None):
        return self.answer_value(match_string, cli)


def after(leaf, before):
    """The leaf as it is after a value: its versions are chosen by the value."""
    rows = leaf[6][len(repr(before)) % len(leaf[6])] if len(leaf) > 6 else leaf[5]
    return tuple(leaf[:5]) + (gram.freeze(rows),)


CLASSES = [Slow, Plain, Mixed, Decorated, Helpful, SlowLive, PlainLive, After, PlainAfter]


class Own(clih.Iface):
    def __init__(self, src, leaves=(), **kw):
        self.leaves = leaves
        self.wrong = []
        super().__init__(src, **kw)

    def get_token_classes(self):
        return clih.TOKEN_CLASSES + CLASSES


class Text(gram.Text):
    def leaf(self, n):
        if n[0] == "own":
            extra = ", %d" % n[7] if len(n) > 7 else ""
            return self.token("%s(%d%s)" % (n[1], n[2], extra))
        return super().leaf(n)


# ---------------------------------------------------------------- tables

def kind(v):
    return "str" if isinstance(v, str) else type(v).__name__


WORDS = ["", "a", "ab", "abc", "b", "ba", "1", "2x", '"x y"']
VALUE = st.one_of(st.sampled_from(["", "a", "zz", 0, 1, -7, 2.5, True, False, 1.0, "1"]).map(lambda v: ["v", v]))


@st.composite
def coherent(draw):
    """The table of a choice among words that stand for values."""
    words = draw(st.lists(st.sampled_from(WORDS[1:]), min_size=1, max_size=4, unique=True))
    values = {w: draw(VALUE) for w in words}
    strict = draw(st.booleans())
    rows = []
    for typed in sorted({w[:n] for w in words for n in range(len(w) + 1)}):
        hits = [w for w in words if w.startswith(typed)]
        if typed in words:
            rows.append([typed, "s", values[typed], hits])
        elif len(hits) == 1 and not strict and typed:
            rows.append([typed, "s", values[hits[0]], hits])
        else:
            rows.append([typed, "p", ["n"], hits])
    return rows


@st.composite
def arbitrary(draw):
    """A table of anything."""
    rows = []
    for typed in draw(st.lists(st.sampled_from(WORDS), min_size=1, max_size=6, unique=True)):
        m = draw(st.sampled_from("sspppf!"))
        v = draw(st.one_of(VALUE, VALUE, VALUE, st.just(["n"]), st.just(["!"])))
        c = draw(st.one_of(st.lists(st.sampled_from(WORDS[1:]), max_size=3, unique=True), st.lists(st.sampled_from(WORDS[1:]), max_size=3, unique=True), st.just("!")))
        rows.append([typed, m, v, c])
    return rows


ROWS = st.one_of(coherent(), coherent(), arbitrary())


@st.composite
def leaf_table(draw, classes, versions=1):
    return [draw(st.sampled_from(classes)), draw(st.integers(0, 7)) > 1, [draw(ROWS) for _ in range(versions)]]


def expand(tree, leaves):
    """The tree with the tables of its own tokens in place."""
    k = tree[0]
    if k == "own":
        return list(leaves[tree[1] % len(leaves)])
    if k in gram.LEAVES:
        return list(tree)
    if k in ("seq", "alt", "set"):
        return [k, [expand(c, leaves) for c in tree[1]]]
    return [k, expand(tree[1], leaves)] + list(tree[2:])


def leaves_of(tables, version=0):
    return [gram.freeze(["own", cls, i, comp, "help of %d" % i, rows[version % len(rows)]]) for i, (cls, comp, rows) in enumerate(tables)]


LEAF = st.one_of(st.tuples(st.just("own"), st.integers(0, 5)).map(list), st.tuples(st.just("own"), st.integers(0, 5)).map(list),
                 st.sampled_from([["kw", "?"], ["kw", "ab"], ["str"], ["int", 1, 3]]))


# ---------------------------------------------------------------- tables alone

def ask_everything(cli, tree, toks, cut, note, rec):
    """Suggestions at every point of a line and the outcome of entering it, against the tables."""
    steps = gram.readings(tree, toks, 60)
    told = set()
    for n in range(len(toks) + 1):
        here = dict(note, input=toks[:n])
        res = clih.suggest(cli, toks[:n], complete=True)
        if n >= len(steps):
            ensure(res.result == "failure" and not res.next_tokens, "there is nothing to suggest after what begins no command", got=(res.result, res.next_tokens), **here)
            break
        C07.compare(res, steps[n], "", True, here)
        full = (toks + ["ab"])[n]
        for typed in {full[:1 + cut % len(full)], full}:
            here = dict(note, input=toks[:n], typed=typed)
            res = clih.suggest(cli, toks[:n] + [typed], complete=False)
            comps, helps, _ = gram.next_of(steps[n], typed)
            if not comps and not helps:
                ensure(res.result == "failure" and not res.next_tokens, "no token accepts the beginning of what was typed", got=(res.result, res.next_tokens), **here)
                told.add("inside: nothing")
            else:
                C07.compare(res, steps[n], typed, False, here)
                told.add("inside: something")
    told.add(enter(cli, tree, toks, steps, note))
    for t in told:
        rec.label(t)
    return told


def enter(cli, tree, toks, steps, note):
    if not toks:
        return "empty"
    note = dict(note, input=toks)
    cli.calls.clear()
    res = clih.execute(cli, toks)
    done = {h for s, h in steps[-1] if gram.accepting(s)} if len(steps) > len(toks) else set()
    if not done:
        ensure(res.result in ("failure", "partial"), "no reading of the line is complete", got=res.result, **note)
        eq("actions of a refused line", cli.calls, [], **note)
        return "refused"
    kept = gram.resolve(done, toks)
    if len(kept) > 1:
        ensure(res.result in ("ambigous", "success"), "several readings", got=res.result, **note)
        if res.result == "success":
            # only between uses of one named part or of one repetition
            ensure(len({tuple(leaf for leaf, _ in h) for h in kept}) == 1, "one of several readings was executed", readings=len(kept), **note)
        return "several readings"
    eq("outcome", res.result, "success", error=res.error, **note)
    want = [gram.value(leaf, t) for (leaf, _), t in zip(kept[0], toks)]
    eq("values", [(kind(v), v) for v in res.matched_values], [(kind(v), v) for v in want], **note)
    eq("actions", cli.calls, [["done"]], **note)
    return "accepted"


def run_tables(case, rec):
    leaves = leaves_of(case["tables"])
    tree = expand(case["tree"], leaves)
    src = Text(case["style"]).render(tree) + '\nroot: g << call ext("done"); >>;'
    cli = clih.iface(src, root="root", cls=lambda s: Own(s, leaves))
    words = gram.vocabulary(tree) + WORDS[1:]
    seen = set()
    for choices, how, cut in case["inputs"]:
        toks = gram.mutate(gram.walk(tree, choices), how, words)[:6]
        try:
            seen |= ask_everything(cli, tree, toks, cut, {"grammar": src, "tables": leaves}, rec)
        except gram.TooMany:
            rec.label("skipped: too many readings")
    eq("tokens asked wrongly", cli.wrong, [], grammar=src)
    used = any(leaf[0] == "own" for leaf in gram.leaves(tree))
    if used and "accepted" in seen and len(seen) > 2:
        rec.nontriv()


def inputs(n):
    return st.lists(st.tuples(gram.CHOICES, gram.MUTATION, st.integers(0, 5)).map(list), min_size=2, max_size=n)


def tables_cases():
    return st.fixed_dictionaries({"tables": st.lists(leaf_table(["Slow", "Slow", "Plain", "Plain", "Mixed", "Decorated", "Helpful"]), min_size=1, max_size=4), "tree": gram.trees(LEAF, 2, size=10),
                                  "style": gram.STYLE, "inputs": inputs(6)})


# ---------------------------------------------------------------- state that changes between questions

def run_live(case, rec):
    versions = [leaves_of(case["tables"], v) for v in (0, 1)]
    trees = [expand(case["tree"], lv) for lv in versions]
    src = Text(case["style"]).render(trees[0]) + '\nroot: g << call ext("done"); >>;'
    cli = clih.iface(src, root="root", cls=lambda s: Own(s, versions[0]))
    words = [gram.vocabulary(t) + WORDS[1:] for t in trees]
    seen = [set(), set()]
    for choices, how, cut, switch in case["inputs"]:
        at = switch % 2
        cli.leaves = versions[at]
        # a line made for one state is often entered in the other
        made = (switch // 2) % 2
        toks = gram.mutate(gram.walk(trees[made], choices), how, words[made])[:6]
        try:
            seen[at] |= ask_everything(cli, trees[at], toks, cut, {"grammar": src, "tables": versions[at], "before": versions[1 - at]}, rec)
        except gram.TooMany:
            rec.label("skipped: too many readings")
    eq("tokens asked wrongly", cli.wrong, [], grammar=src)
    if "accepted" in seen[0] and "accepted" in seen[1]:
        rec.nontriv()


def live_cases():
    op = st.tuples(gram.CHOICES, gram.MUTATION, st.integers(0, 5), st.integers(0, 3)).map(list)
    return st.fixed_dictionaries({"tables": st.lists(leaf_table(["SlowLive", "PlainLive"], 2), min_size=1, max_size=3), "tree": gram.trees(LEAF, 2, size=8),
                                  "style": gram.STYLE, "inputs": st.lists(op, min_size=3, max_size=10)})


# ---------------------------------------------------------------- tokens that look at what was matched before

def readings_after(tree, toks, limit=60):
    """[(state, history of (leaf as it was then), values)] per prefix length, as gram.readings."""
    current = {(gram.start(tree), (), ())}
    out = [current]
    for t in toks:
        nxt = set()
        for state, hist, values in current:
            for leaf, lp, ct in gram.moves(state):
                leaf = now(leaf, values)
                v = gram.value(leaf, t) if leaf else gram.NONE
                if v is not gram.NONE:
                    nxt.add((ct, hist + ((leaf, lp),), values + ((kind(v), v),)))
                    if len(nxt) > limit:
                        raise gram.TooMany()
        if not nxt:
            return out
        current = nxt
        out.append(current)
    return out


def now(leaf, values):
    """A leaf with the table it has after these values; None when there is no such value."""
    if leaf[0] != "own" or len(leaf) < 8:
        return leaf
    return after(leaf, values[leaf[7]][1]) if leaf[7] < len(values) else None


def run_after(case, rec):
    leaves = []
    for i, (cls, comp, rows) in enumerate(case["tables"]):
        leaf = ["own", cls, i, comp, "help of %d" % i, rows[0]]
        if cls in ("After", "PlainAfter"):
            leaf += [rows, case["places"][i % len(case["places"])]]
        leaves.append(gram.freeze(leaf))
    tree = expand(case["tree"], leaves)
    src = Text(case["style"]).render(tree) + '\nroot: g << call ext("done"); >>;'
    cli = clih.iface(src, root="root", cls=lambda s: Own(s, leaves))
    words = WORDS[1:] + ["k1_", "k2_"]
    asked = set()
    depend = False
    for choices, how, cut in case["inputs"]:
        toks = gram.mutate(walk_after(tree, choices), how, words)[:6]
        note = {"grammar": src, "tables": leaves, "input": toks}
        try:
            steps = readings_after(tree, toks)
        except gram.TooMany:
            rec.label("skipped: too many readings")
            continue
        for n in range(len(toks) + 1):
            if n >= len(steps):
                break
            if len({values for _, _, values in steps[n]}) > 1:
                rec.label("several values possible")
                continue
            full = (toks + ["ab"])[n]
            for typed in ("", full[:1 + cut % len(full)], full):
                res = clih.suggest(cli, toks[:n] + ([typed] if typed else []), complete=not typed)
                here = [(leaf, now(leaf, values)) for state, _, values in steps[n] for leaf, _, _ in gram.moves(state)]
                comps, helps = set(), set()
                for leaf, table in here:
                    if table:
                        c, h = gram.suggestions(table, typed)
                    else:
                        # it can be neither completed nor matched
                        c, h = (set(), set()) if typed else (set(), {leaf[4]})
                    comps |= c
                    helps |= h
                got = clih.completions_and_helps(res)
                eq("suggestions", (sorted(got[0]), sorted(got[1])), (sorted(comps), sorted(helps)), **dict(note, input=toks[:n], typed=typed))
                asked.add((tuple(toks[:n]), typed))
        if not toks:
            continue
        cli.calls.clear()
        res = clih.execute(cli, toks)
        done = {(h, v) for s, h, v in steps[-1] if gram.accepting(s)} if len(steps) > len(toks) else set()
        if not done:
            ensure(res.result in ("failure", "partial"), "no reading of the line is complete", got=res.result, **note)
            eq("actions of a refused line", cli.calls, [], **note)
            rec.label("refused")
        elif len(done) == 1:
            (hist, values), = done
            eq("outcome", res.result, "success", error=res.error, **note)
            eq("values", [(kind(v), v) for v in res.matched_values], list(values), **note)
            eq("actions", cli.calls, [["done"]], **note)
            rec.label("accepted")
            depend |= any(leaf[1] in ("After", "PlainAfter") for leaf, _ in hist if leaf[0] == "own")
        else:
            rec.label("several readings")
    eq("tokens asked wrongly", cli.wrong, [], grammar=src)
    if depend and len(asked) > 4:
        rec.nontriv()


def walk_after(tree, choices):
    state, values, out = gram.start(tree), (), []
    for i in range(8):
        c = choices[i % len(choices)] + i // len(choices)
        if gram.accepting(state) and c % 4 == 0 and out:
            break
        mv = list(gram.moves(state))
        if not mv:
            break
        leaf, _, state = mv[(c // 3) % len(mv)]
        leaf = now(leaf, values)
        t = gram.sample(leaf, c) if leaf else "a"
        v = gram.value(leaf, t) if leaf else gram.NONE
        out.append(t)
        if v is gram.NONE:
            break
        values += ((kind(v), v),)
    return out


def after_cases():
    return st.fixed_dictionaries({
        "tables": st.lists(leaf_table(["After", "After", "PlainAfter", "Slow"], 3), min_size=2, max_size=4),
        "places": st.lists(st.integers(0, 2), min_size=1, max_size=4), "tree": gram.trees(LEAF, 2, size=6), "style": gram.STYLE, "inputs": inputs(6)})


# ---------------------------------------------------------------- how tokens are made

def lit(v):
    return quote(v) if isinstance(v, str) else repr(v)


def make(base, label, wants, breaks):
    """A token class that records how it was made; `wants` are the names of its parameters."""
    def init(self, name, *args, cli=None, helpstring=None, **named):
        if len(args) > len(wants) or any(n not in wants[len(args):] for n in named) or len(args) + len(named) < len(wants):
            raise TypeError("wrong arguments")
        got = dict(zip(wants, args), **named)
        cli.made.append([label, name, [got[w] for w in wants], cli is cli.me, helpstring])
        if breaks:
            raise ValueError("cannot be made")
        T.CliToken.__init__(self, name, helpstring=helpstring, cli=cli)
        self.label = label

    def match(self, typed, cli=None):
        return T.MATCH_SUCCESS if typed == "of-" + self.label else T.MATCH_FAILURE

    def complete(self, typed, cli=None):
        hit = ("of-" + self.label).startswith(typed)
        return int(hit), ["of-" + self.label] if hit else []

    def value(self, typed=None, cli=None):
        return [self.label] if match(self, typed) == T.MATCH_SUCCESS else T.NullTokenValue

    return type(base, (T.CliToken,), {"__init__": init, "match": match, "complete": complete, "get_value": value})


NAMES = ["A", "B", "C", "StringToken", "Missing", "CliToken"]
PARAMS = ["first", "second", "third"]


class Maker(clih.Iface):
    def __init__(self, src, base, own):
        self.base, self.own, self.made = base, own, []
        self.me = self
        super().__init__(src)

    def get_base_token_classes(self):
        return list(self.base)

    def get_token_classes(self):
        return list(self.own)


def run_make(case, rec):
    classes, base, own = {}, [], []
    for i, (name, place, count, breaks) in enumerate(case["classes"]):
        label = "%s%d" % (name, i)
        made = make(name, label, PARAMS[:count], breaks)
        (own if place else base).append(made)
    # the classes of the application hide those of its base, and later ones hide earlier ones
    for place in (0, 1):
        for i, (name, p, count, breaks) in enumerate(case["classes"]):
            if p == place:
                classes[name] = ("%s%d" % (name, i), count, breaks)
    defs, want = [], {}
    for i, (name, args, named, helptext) in enumerate(case["tokens"]):
        token = "t%d" % i
        label, count, breaks = classes.get(name, (None, 0, False))
        args = args[:count] if label else []
        split = len(args) - min(named, len(args))
        written = [lit(v) for v in args[:split]] + ["%s=%s" % (PARAMS[j], lit(args[j])) for j in reversed(range(split, len(args)))]
        defs.append("token %s %s(%s);" % (token, name, ", ".join(written)))
        fits = label is not None and len(args) == count
        want[token] = (label if fits and not breaks else None, name, args, helptext, label if fits else None)
    uses = ['"do%d" t%d%s << call ext($1, $2); >>' % (i, i, ":" + quote(t[3]) if t[3] else "") for i, t in enumerate(case["tokens"])]
    src = "\n".join(defs) + "\ng: " + " | ".join(uses) + ";"
    cli = clih.iface(src, cls=lambda s: Maker(s, base, own))
    for i in case["order"]:
        i %= len(case["tokens"])
        token = "t%d" % i
        label, name, args, helptext, tried = want[token]
        note = {"grammar": src, "token": token, "classes": case["classes"]}
        res = clih.suggest(cli, ["do%d" % i])
        got = [(getattr(t, "completion", None), t.helpstring) for t in res.next_tokens]
        eq("suggestions", got, [("of-" + label if label else token, helptext or token)], **note)
        word = "of-" + label if label else token
        cli.calls.clear()
        res = clih.execute(cli, ["do%d" % i, word])
        eq("outcome", res.result, "success", error=res.error, **note)
        eq("what the action saw", cli.calls, [["do%d" % i, [label] if label else token]], **note)
        for wrong in {"of-" + (tried or "x"), token, "of-A9"} - {word}:
            eq("outcome of %r" % wrong, clih.execute(cli, ["do%d" % i, wrong]).result, "failure", **note)
        if name in classes and not label:
            ensure(cli.streams.err.getvalue(), "a token that could not be made is not reported", **note)
        rec.label("made by its class" if label else "word of its own name")
    for label, token, args, same, helptext in cli.made:
        _, _, wargs, _, tried = want[token]
        eq("class used for %s" % token, label, tried, grammar=src)
        eq("arguments of %s" % token, [(kind(a), a) for a in args], [(kind(a), a) for a in wargs], grammar=src)
        ensure(same, "the token did not get its interface", grammar=src)
    if len(set(x[1] for x in cli.made)) > 1:
        rec.nontriv()


def make_cases():
    value = st.one_of(st.integers(-50, 50), st.sampled_from([0.5, -2.25, True, False, None, "", "a", "two words", 'q"q', "tab\there", "-"]))
    cls = st.tuples(st.sampled_from(NAMES[:4]), st.integers(0, 1), st.integers(0, 3), st.integers(0, 5).map(lambda n: n == 0)).map(list)
    token = st.tuples(st.sampled_from(NAMES), st.lists(value, min_size=2, max_size=3), st.integers(0, 3), st.sampled_from(["", "", "some help", "x"])).map(list)
    return st.fixed_dictionaries({"classes": st.lists(cls, min_size=1, max_size=5), "tokens": st.lists(token, min_size=1, max_size=4),
                                  "order": st.lists(st.integers(0, 7), min_size=1, max_size=6)})


SUBS = [
    Sub("tables", tables_cases, run_tables, 90, 4000, "grammars over token classes that answer from generated tables, coherent or not, some raising, with coroutines or plain methods; every point of every line is asked and the line entered; non-trivial: a line accepted and other kinds of answers"),
    Sub("live", live_cases, run_live, 70, 3000, "classes that say their answers must not be kept; the tables change between lines; non-trivial: lines accepted in both states"),
    Sub("after", after_cases, run_after, 90, 4000, "classes whose answers depend on a value matched before; non-trivial: a line accepted through such a token, more than four points asked"),
    Sub("make", make_cases, run_make, 60, 3000, "token definitions with positional and named arguments for classes of the application, of its base, hidden, unknown or failing; non-trivial: more than one token made"),
]
ASSUMPTIONS = ["match, complete and get_value of a class are either all coroutines or all plain methods", "a class whose answers change says that it is not cacheable",
               "a class that looks at earlier values is asked only where they are certain"]
