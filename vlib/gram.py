"""Random grammars, their text, and a reference recognizer for them.

A grammar is a JSON tree:

  ["kw", word]  ["kwh", word, help]           constant keyword (with a help text)
  ["int", lo, hi]  ["str"]  ["rstr", lo, hi]  ["one", [options]]  ["bool"]     each with a help text at the end, or none
  ["own", class, number, completable, help, rows]     a token class of the application, see C21
  ["seq", [..]]  ["alt", [..]]  ["set", [..]]  ["opt", x]  ["rep", x, m, n]  ["ref", x]
  ["act", x, before, after]                   x with action texts (or "") before and after it

The recognizer works on partial derivatives of the tree; it knows nothing of how
the code under test walks grammars.  A state is a tuple of (node, path) that
still has to be matched, in order.
"""
import json
import re

from hypothesis import strategies as st

from vlib.scan import quote, unescape

LEAVES = ("kw", "kwh", "int", "str", "rstr", "one", "bool", "own")


# ---------------------------------------------------------------- leaves

def is_int(t):
    d = t[1:] if t.startswith("-") else t
    return d.isascii() and d.isdigit() and (d[0] != "0" or t == "0")


def cli_form(text):
    return quote(text) if any(c in text for c in ' \n\r\t\0\b\v\a"\\') else text


FAIL = "fail"
NONE = object()
SIZE = {"int": 3, "str": 1, "rstr": 3, "one": 2, "bool": 1}


def own_help(leaf):
    """The help text written after a typed token, or None."""
    n = SIZE.get(leaf[0])
    return leaf[n] if n and len(leaf) > n else None


def row(leaf, typed):
    """What the table of an application's token says about a text: (match, value, completions)."""
    for t, m, v, c in leaf[5]:
        if t == typed:
            return m, v, c
    return "f", ("n",), ()


def unquoted(typed):
    """The text that was typed, in quotes (closed or open) or not."""
    if not typed.startswith('"'):
        return unescape(typed)
    s = typed[1:]
    if s.endswith('"') and (len(s) - 1 - len(s[:-1].rstrip("\\"))) % 2 == 0:
        s = s[:-1]
    return unescape(s)


def shown(values, want, typed):
    """The matched values with the escape sequences of free text replaced: that happens later, on the way to the action."""
    if len(values) != len(want):
        return values
    return [w if isinstance(v, str) and isinstance(w, str) and t[:1] == '"' and v != w and unquoted('"' + v) == w else v
            for v, w, t in zip(values, want, typed)]


def value(leaf, typed):
    """The value a typed text has for a leaf, or NONE when the leaf refuses it."""
    k = leaf[0]
    if k in ("kw", "kwh"):
        return leaf[1] if cli_form(leaf[1]).startswith(typed) else NONE
    if k == "int":
        return int(typed) if is_int(typed) and leaf[1] <= int(typed) <= leaf[2] else NONE
    if k in ("str", "rstr"):
        s = unquoted(typed)
        return s if k == "str" or leaf[1] <= len(s) <= leaf[2] else NONE
    if k == "one":
        hits = [o for o in leaf[1] if cli_form(o).startswith(typed)]
        exact = [o for o in leaf[1] if cli_form(o) == typed]
        return exact[0] if exact else hits[0] if len(hits) == 1 else NONE
    if k == "bool":
        return True if "true".startswith(typed.lower()) else False if "false".startswith(typed.lower()) else NONE
    if k == "own":
        m, v, _ = row(leaf, typed)
        return v[1] if m in ("s", "p") and v[0] == "v" else NONE
    raise ValueError(k)


def exact(leaf, typed):
    """Whether nothing can be added to the typed text (the strongest kind of match)."""
    k = leaf[0]
    if k in ("kw", "kwh"):
        return cli_form(leaf[1]) == typed
    if k == "int":
        return value(leaf, typed) is not NONE and len(int_completions(leaf, typed)) == 1
    if k == "str":
        return False
    if k == "rstr":
        return len(value(["str"], typed)) == leaf[2]
    if k == "one":
        return value(leaf, typed) is not NONE
    if k == "bool":
        return typed.lower() in ("true", "false")
    if k == "own":
        return row(leaf, typed)[0] == "s"
    raise ValueError(k)


def fixed(leaf):
    """Whether the texts of a leaf can be listed (as opposed to free text)."""
    return leaf[3] if leaf[0] == "own" else leaf[0] not in ("str", "rstr")


def int_completions(leaf, typed):
    return [str(i) for i in range(leaf[1], leaf[2] + 1) if str(i).startswith(typed)]


def helptext(leaf):
    k = leaf[0]
    if own_help(leaf):
        return own_help(leaf)
    if k == "int":
        return "An integer between %d and %d" % (leaf[1], leaf[2])
    if k == "str":
        return "Any string"
    if k == "rstr":
        return "Any string of length (%d-%d)" % (leaf[1], leaf[2])
    raise ValueError(k)


def told(leaf, text):
    """The help text of a token of the application for a text typed or offered."""
    return "%s: %s" % (leaf[4], text) if leaf[1].startswith("Helpful") else leaf[4]


def suggestions(leaf, typed):
    """(completions, help texts) offered for a leaf when this much is typed; both empty when it is refused."""
    k = leaf[0]
    if k in ("kw", "kwh"):
        c = cli_form(leaf[1])
        return ({c} if c.startswith(typed) else set()), set()
    if k == "one":
        return {cli_form(o) for o in leaf[1] if cli_form(o).startswith(typed)}, set()
    if k == "bool":
        if not typed:
            return {"True", "False"}, set()
        for w in ("true", "false"):
            if w.startswith(typed.lower()):
                return {typed + w[len(typed):]}, set()
        return set(), set()
    if k == "int":
        hits = int_completions(leaf, typed)
        return (set(hits), set()) if len(hits) <= 10 else (set(), {helptext(leaf)})
    if k == "str":
        return set(), {helptext(leaf)}
    if k == "rstr":
        return set(), ({helptext(leaf)} if len(value(["str"], typed)) <= leaf[2] else set())
    if k == "own":
        m, v, c = row(leaf, typed)
        if typed and not (m == "p" or m == "s" and v[0] == "v"):
            return set(), set()
        return (set(c), set()) if leaf[3] and c and c != "!" else (set(), {told(leaf, typed)})
    raise ValueError(k)


def sample(leaf, n):
    """A typed text the leaf accepts, chosen by n."""
    k = leaf[0]
    if k in ("kw", "kwh"):
        return cli_form(leaf[1])
    if k == "int":
        return str(leaf[1] + n % (leaf[2] - leaf[1] + 1))
    if k == "str":
        return ["foo", "bar", '"two words"', "zz9", "a", '""'][n % 6]
    if k == "rstr":
        w = ["q", "w", "e"][n % 3] * (leaf[1] + n // 3 % (leaf[2] - leaf[1] + 1))
        return w or '""'
    if k == "one":
        return cli_form(leaf[1][n % len(leaf[1])])
    if k == "bool":
        return ["True", "False", "t", "FALSE", "fal"][n % 5]
    if k == "own":
        good = [r[0] for r in leaf[5] if r[0] and value(leaf, r[0]) is not NONE]
        return good[n % len(good)] if good else "none"
    raise ValueError(k)


# ---------------------------------------------------------------- text

# names that mean something else in the generated grammars
NAMES = re.compile(r"g|root|import|token|True|False|None|(T|sub)\d+")


class Text:
    """Writes a grammar down. `style` (a list of small ints) decides layout and redundant parentheses."""

    share = False       # whether equal parts become one named grammar used in several places

    def __init__(self, style=()):
        self.style = list(style)
        self.at = 0
        self.tokens = {}
        self.bare = {}
        self.defs = []
        self.names = {}
        self.count = 0

    def pick(self, n):
        if not self.style:
            return 0
        v = self.style[self.at % len(self.style)]
        self.at += 1
        return v % n

    def token(self, spec):
        if spec not in self.tokens:
            self.tokens[spec] = "T%d" % len(self.tokens)
        return self.tokens[spec]

    def gap(self):
        return [" ", " ", "\n", "\t", "  ", " /* c */ ", " // x;\n", " # y\n"][self.pick(8)]

    def action(self, statements):
        """An action written as one block or as one block per statement."""
        if isinstance(statements, str):
            statements = [statements]
        if self.pick(3) == 1:
            return self.gap().join("<<" + self.gap() + x + self.gap() + ">>" for x in statements)
        return "<<" + self.gap() + self.gap().join(statements) + self.gap() + ">>"

    def leaf(self, n):
        k = n[0]
        if k in ("kw", "kwh"):
            word = quote(n[1])
            if n[1].isascii() and n[1].isidentifier() and not NAMES.fullmatch(n[1]) and self.pick(5) == 4:
                # a token without a class is the word of its own name
                word = n[1]
                self.bare[word] = True
            return word if k == "kw" else word + self.blank() + ":" + self.blank() + quote(n[2])
        if k == "int":
            t = self.token("RangedIntToken(%d, %d)" % (n[1], n[2]))
        elif k == "str":
            t = self.token("StringToken()")
        elif k == "rstr":
            t = self.token("RangedStringToken(%d, %d)" % (n[1], n[2]))
        elif k == "one":
            t = self.token("AlternativeStringsToken(%s)" % ", ".join(quote(o) for o in n[1]))
        elif k == "bool":
            t = self.token("BooleanToken()")
        elif k == "own":
            t = self.token("%s(%d)" % (n[1], n[2]))
        else:
            raise ValueError(k)
        h = own_help(n)
        return t + self.blank() + ":" + self.blank() + quote(h) if h else t

    def declarations(self):
        """The token definitions the written rules need."""
        return ["%s %s" % (n, s) for s, n in self.tokens.items()] + list(self.bare)

    def blank(self):
        return ["", "", " ", "\n"][self.pick(4)]

    def rule(self, n):
        if n[0] == "alt":
            return (self.gap() + "|" + self.gap()).join(self.unit(c) for c in n[1])
        return self.unit(n)

    def unit(self, n):
        if n[0] == "seq":
            return self.gap().join(self.term(c) for c in n[1])
        if n[0] == "set":
            return ("," + self.gap()).join(self.term(c) for c in n[1])
        if n[0] == "act" and n[2]:
            # an action at the beginning of a rule belongs to the whole rule
            before = self.action(n[2]) + self.gap()
            return before + (self.term(["act", n[1], "", n[3]]) if n[3] else self.unit(n[1]))
        return self.term(n)

    def term(self, n):
        k = n[0]
        if k in LEAVES:
            t = self.leaf(n)
        elif k == "opt":
            t = "{" + self.gap() + self.rule(n[1]) + self.gap() + "}"
        elif k == "rep":
            body = self.term(n[1])
            if n[1][0] == "act":
                body = "(" + body + ")"
            count = "%d" % n[2] if n[2] == n[3] else "(%d:%d)" % (n[2], n[3])
            if n[2] == n[3] and self.pick(3) == 1:
                count = "(%d)" % n[2]
            elif n[2] != n[3] and self.pick(4) == 3:
                count = "(%d:%d)" % (n[3], n[2])    # the bounds may come in either order
            t = body + self.gap() + "*" + self.gap() + count
            # a repetition of a repetition needs no parentheses either
        elif k == "ref":
            known = json.dumps(n[1])
            if self.share and known in self.names and self.pick(4) != 3:
                t = self.names[known]
            else:
                t = self.names[known] = "sub%d" % self.count
                self.count += 1
                text = self.rule(n[1])
                # what it refers to is defined before it
                self.defs.append((t, text))
        elif k == "act":
            t = self.term(n[1])
            if n[2]:
                t = "(" + self.gap() + self.action(n[2]) + self.gap() + t + self.gap() + ")"
            if n[3]:
                # an action directly after the term belongs to it: no parentheses needed
                return t + self.gap() + self.action(n[3])
            if not n[2]:
                return t
        else:
            return "(" + self.gap() + self.rule(n) + self.gap() + ")"
        if self.pick(6) == 5:
            t = "(" + t + ")"
        return t

    def render(self, tree, root="g"):
        body = self.rule(tree)
        out = []
        decls = self.declarations()
        if decls and self.pick(2):
            decls = [(",\n").join(decls)]
        decls = ["token " + d + ";" for d in decls]
        # tokens may be defined before or after their use
        late = len(decls) if self.pick(4) == 3 else 0
        late, decls = decls[len(decls) - late:], decls[:len(decls) - late]
        out += decls
        for name, text in self.defs:
            out.append("%s:%s%s%s;" % (name, self.gap(), text, self.gap()))
        out.append("%s:%s%s%s;" % (root, self.gap(), body, self.gap()))
        out += late
        return self.gap() + "\n".join(out) + self.gap()


def text(tree, style=(), root="g", share=False):
    t = Text(style)
    t.share = share
    return t.render(tree, root)


# ---------------------------------------------------------------- recognizer

def nullable(n):
    k = n[0]
    if k in LEAVES:
        return False
    if k == "seq":
        return all(nullable(c) for c in n[1])
    if k == "set":
        live = n[2] if len(n) > 2 else range(len(n[1]))
        return all(nullable(n[1][i]) for i in live)
    if k == "alt":
        return any(nullable(c) for c in n[1])
    if k == "opt":
        return True
    if k == "rep":
        return n[2] == 0 or nullable(n[1])
    if k in ("ref", "act"):
        return nullable(n[1])
    raise ValueError(k)


def freeze(n):
    return tuple(freeze(c) for c in n) if isinstance(n, (list, tuple)) else n


def derive(n, path):
    """(leaf, leaf path, continuation) for every leaf a match of n can begin with."""
    k = n[0]
    if k in LEAVES:
        yield n, path, ()
    elif k == "seq":
        for i, c in enumerate(n[1]):
            rest = tuple((d, path + (j,)) for j, d in enumerate(n[1]) if j > i)
            for leaf, lp, ct in derive(c, path + (i,)):
                yield leaf, lp, ct + rest
            if not nullable(c):
                break
    elif k in ("opt", "ref", "act"):
        yield from derive(n[1], path + (0,))
    elif k == "alt":
        for i, c in enumerate(n[1]):
            yield from derive(c, path + (i,))
    elif k == "rep":
        x, lo, hi = n[1:4]
        idx = n[4] if len(n) > 4 else 0
        # a body that can be empty can be passed over any number of times
        for skip in range(hi if nullable(x) else 1):
            left = hi - skip - 1
            rest = ((("rep", x, max(lo - skip - 1, 0), left, idx + skip + 1), path),) if left > 0 else ()
            for leaf, lp, ct in derive(x, path + (idx + skip,)):
                yield leaf, lp, ct + rest
    elif k == "set":
        live = n[2] if len(n) > 2 else tuple(range(len(n[1])))
        for i in live:
            left = tuple(j for j in live if j != i)
            rest = ((("set", n[1], left), path),) if left else ()
            for leaf, lp, ct in derive(n[1][i], path + (i,)):
                yield leaf, lp, ct + rest
    else:
        raise ValueError(k)


def moves(state):
    for i, (n, p) in enumerate(state):
        for leaf, lp, ct in derive(n, p):
            yield leaf, lp, ct + state[i + 1:]
        if not nullable(n):
            return


def accepting(state):
    return all(nullable(n) for n, _ in state)


def start(tree):
    return ((freeze(tree), (0,)),)


class TooMany(Exception):
    """More readings than are worth following."""


def readings(tree, tokens, limit=150):
    """[{history}] per prefix length; a history is a tuple of (leaf, leaf path) with its state: list of (state, history).

    Stops at the first token with no reading; the list is then shorter than len(tokens) + 1."""
    current = {(start(tree), ())}
    out = [current]
    for t in tokens:
        nxt = set()
        for state, hist in current:
            for leaf, lp, ct in moves(state):
                if value(leaf, t) is not NONE:
                    nxt.add((ct, hist + ((leaf, lp),)))
                    if len(nxt) > limit:
                        raise TooMany()
        if not nxt:
            return out
        current = nxt
        out.append(current)
    return out


def tame(tree, tokens, limit=200):
    """Whether the line has a number of readings that can be followed in reasonable time."""
    try:
        readings(tree, tokens, limit)
        return True
    except TooMany:
        return False


def next_of(current, typed=""):
    """(completions, help texts, end of input possible) after these readings."""
    comps, helps = set(), set()
    end = False
    for state, _ in current:
        for leaf, _, _ in moves(state):
            c, h = suggestions(leaf, typed)
            comps |= c
            helps |= h
        end = end or accepting(state)
    return comps, helps, end


def resolve(done, toks):
    """The readings that remain: token by token, exactly typed ones win, then fixed texts win over free text."""
    kept = sorted(done, key=repr)
    for i, t in enumerate(toks):
        best = [h for h in kept if exact(h[i][0], t)]
        if best and len(best) < len(kept):
            kept = best
        best = [h for h in kept if fixed(h[i][0])]
        if best and len(best) < len(kept):
            kept = best
    return kept


def has_nullable_repeat(n):
    k = n[0]
    if k in LEAVES:
        return False
    if k in ("seq", "alt", "set"):
        return any(has_nullable_repeat(c) for c in n[1])
    if k in ("opt", "ref", "act"):
        return has_nullable_repeat(n[1])
    return nullable(n[1]) or has_nullable_repeat(n[1])


def walk(tree, choices):
    """A token sequence found by following the choices through the grammar, and the final state."""
    state = start(tree)
    out = []
    for i in range(45):
        c = choices[i % len(choices)] + i // len(choices)
        if accepting(state) and c % 5 == 0 and out:
            break
        mv = list(moves(state))
        if not mv:
            break
        leaf, _, state = mv[(c // 3) % len(mv)]
        out.append(sample(leaf, c))
    return out


def mutate(tokens, how, vocabulary):
    """how = [kind, position, word]"""
    kind, pos, word = how
    tokens = list(tokens)
    other = vocabulary[word % len(vocabulary)]
    if kind == 1:
        tokens.insert(pos % (len(tokens) + 1), other)
    elif kind == 2 and tokens:
        tokens.pop(pos % len(tokens))
    elif kind == 3 and tokens:
        tokens[pos % len(tokens)] = other
    elif kind == 4 and len(tokens) > 1:
        i = pos % (len(tokens) - 1)
        tokens[i], tokens[i + 1] = tokens[i + 1], tokens[i]
    elif kind == 5 and tokens:
        tokens = tokens[:pos % len(tokens)]
    elif kind == 6 and tokens:
        i = pos % len(tokens)
        tokens.insert(i, tokens[i])
    return tokens


def leaves(n):
    if n[0] in LEAVES:
        yield n
    elif n[0] in ("seq", "alt", "set"):
        for c in n[1]:
            yield from leaves(c)
    else:
        yield from leaves(n[1])


def vocabulary(tree):
    words = []
    for leaf in leaves(tree):
        for n in (0, 1, 5):
            t = sample(leaf, n)
            if t not in words:
                words.append(t)
    return words + ["zzz", "41"]


def depth_kinds(n, seen=None):
    """The operators used in a grammar."""
    seen = set() if seen is None else seen
    if n[0] not in LEAVES:
        seen.add(n[0])
        for c in (n[1] if n[0] in ("seq", "alt", "set") else [n[1]]):
            depth_kinds(c, seen)
    return seen


# ---------------------------------------------------------------- strategies

UNIQUE = st.just(["kw", "?"])
SHARED = st.sampled_from("abc").map(lambda w: ["kw", w])
TYPED = st.one_of(
    st.sampled_from("abc").map(lambda w: ["kw", w]),
    st.just(["kw", "?"]), st.just(["kw", "?"]), st.just(["kw", "?"]),
    st.just(["kwh", "?", "what it is"]), st.sampled_from([["kw", "two words"], ["kw", "T0"], ["kw", "T1"], ["kw", 'say "hi"'], ["kw", "a\\b"]]),
    st.sampled_from([["int", 1, 5], ["int", 10, 25], ["int", -3, 900]]),
    st.just(["str"]), st.sampled_from([["rstr", 2, 4], ["rstr", 0, 2]]),
    st.sampled_from([["one", ["red", "green"]], ["one", ["up", "down", "left hand"]], ["one", ['5"', '"a" or', "c\\"]]]),
    st.just(["bool"]))
# when one text can come from tokens with different help texts, either is shown
HELPED = st.one_of(TYPED, st.sampled_from([
    ["int", 10, 25, "a number"], ["int", 1, 5, "a digit"], ["str", "any text"], ["rstr", 2, 4, "a short text"],
    ["one", ["red", "green"], "a colour"], ["bool", "yes or no"], ["kwh", "a", "first"], ["kwh", "b", "second"]]))


KINDS = ["leaf", "seq", "alt", "set", "opt", "rep", "ref"]


@st.composite
def node(draw, leaf, depth, refs=True, top=False, again=False):
    kinds = KINDS if refs else KINDS[:-1]
    if again:
        kinds = kinds + ["ref", "again"]
    if depth == 0:
        k = "leaf"
    elif top:
        k = draw(st.sampled_from(["seq", "seq", "seq", "alt", "opt", "set", "rep", "ref"][:8 if refs else 7]))
    else:
        k = draw(st.sampled_from(kinds + ["leaf", "seq"]))
    if k == "leaf":
        return draw(leaf)
    if k == "again":
        return [k, draw(st.integers(0, 5))]
    if k in ("seq", "alt", "set"):
        n = draw(st.integers(2, 4 if top else 3))
        return [k, [draw(node(leaf, depth - 1, refs, again=again)) for _ in range(n)]]
    x = draw(node(leaf, depth - 1, refs, again=again))
    if k == "rep":
        lo = draw(st.integers(0, 3))
        return ["rep", x, lo, max(lo + draw(st.integers(0, 2)), 1)]
    return [k, x]


def number(tree):
    """Gives every "?" keyword a word of its own (none begins another), and every "again" the grammar it refers to."""
    count = [0]
    refs = []

    def go(n):
        if n[0] in ("kw", "kwh") and n[1] == "?":
            count[0] += 1
            return [n[0], "k%d_" % count[0]] + list(n[2:])
        if n[0] in ("seq", "alt", "set"):
            return [n[0], [go(c) for c in n[1]]]
        if n[0] == "again":
            return refs[n[1] % len(refs)] if refs else go(["ref", ["kw", "?"]])
        if n[0] in ("opt", "ref", "rep", "act"):
            out = [n[0], go(n[1])] + list(n[2:])
            if n[0] == "ref":
                refs.append(out)
            return out
        return list(n)
    return go(tree)


def repeats(n):
    """Upper bound of the number of tokens of a sentence."""
    k = n[0]
    if k in LEAVES:
        return 1
    if k in ("seq", "set"):
        return sum(repeats(c) for c in n[1])
    if k == "alt":
        return max(repeats(c) for c in n[1])
    if k == "rep":
        return repeats(n[1]) * n[3]
    return repeats(n[1])


def trees(leaf, depth=3, refs=True, size=40, again=False):
    """Random grammars; with `again`, some named grammars are used in several places."""
    return node(leaf, depth, refs, top=True, again=again).map(number).filter(lambda t: repeats(t) <= size)


STYLE = st.one_of(st.just([]), st.lists(st.integers(0, 47), min_size=3, max_size=8))
CHOICES = st.lists(st.integers(0, 200), min_size=1, max_size=9)
MUTATION = st.tuples(st.sampled_from([0, 0, 0, 1, 2, 3, 4, 5, 6]), st.integers(0, 9), st.integers(0, 40)).map(list)
INPUT = st.tuples(CHOICES, MUTATION).map(list)
