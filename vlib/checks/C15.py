"""C15 - faulty grammar definitions are rejected, and never corrupt later ones."""
import contextlib
import io
import re

from hypothesis import strategies as st

from vlib import clih, gram
from vlib.core import Sub, ensure, eq
from vlib.checks.C09 import acted, decorate
from vlib.checks.C14 import ask

TOKEN = re.compile(r'<<.*?>>|"(?:[^"\\]|\\.)*"|\$[A-Za-z_0-9]+|[A-Za-z_][-A-Za-z0-9_]*|[-+]?[0-9]*\.[0-9]+|[-+]?[0-9]+|\S', re.S)


# ---------------------------------------------------------------- what a grammar text looks like

class Wrong(Exception):
    pass


NAME = re.compile(r"[A-Za-z_][-A-Za-z0-9_]*\Z")
INT = re.compile(r"[-+]?(0|[1-9][0-9]*)\Z")
NUM = re.compile(r"[-+]?((0|[1-9][0-9]*)?\.[0-9]+|0|[1-9][0-9]*)\Z")


class Reader:
    """Decides whether a list of tokens is a grammar text. Raises Wrong if it is not."""

    def __init__(self, toks, good_actions):
        self.toks = toks
        self.at = 0
        self.tokens = set()
        self.grammars = {}
        self.good_actions = good_actions

    def peek(self, k=0):
        return self.toks[self.at + k] if self.at + k < len(self.toks) else ""

    def next(self):
        t = self.peek()
        if not t:
            raise Wrong("end of text")
        self.at += 1
        return t

    def want(self, mark):
        if self.next() != mark:
            raise Wrong("expected " + mark)

    def name(self):
        t = self.next()
        if not NAME.match(t):
            raise Wrong("expected a name")
        return t

    def is_string(self, k=0):
        return self.peek(k).startswith('"')

    def is_action(self):
        return self.peek().startswith("<<")

    def action(self):
        if self.next() not in self.good_actions:
            raise Wrong("action")

    def spec(self):
        while self.peek():
            if self.peek() == "token" and self.peek(1) not in (":", "["):
                self.next()
                while True:
                    n = self.name()
                    if NAME.match(self.peek()):
                        self.name()
                        self.token_args()
                    self.define(n)
                    if self.peek() != ",":
                        break
                    self.next()
                self.want(";")
            else:
                n = self.name()
                params = self.params()
                self.want(":")
                self.rule()
                self.want(";")
                if len(set(params)) < len(params):
                    raise Wrong("parameter twice")
                self.define(n, params)

    def define(self, name, params=None):
        if name in self.tokens or name in self.grammars:
            raise Wrong("defined twice")
        if params is None:
            self.tokens.add(name)
        else:
            self.grammars[name] = params

    def token_args(self):
        self.want("(")
        if self.peek() != ")":
            while True:
                if NAME.match(self.peek()) and self.peek(1) == "=":
                    self.name()
                    self.next()
                self.constant()
                if self.peek() != ",":
                    break
                self.next()
        self.want(")")

    def constant(self):
        t = self.next()
        if not (NUM.match(t) or t.startswith('"') or t in ("True", "False", "None")):
            raise Wrong("constant")

    def params(self):
        out = []
        if self.peek() == "[":
            self.next()
            if self.peek() != "]":
                while True:
                    out.append(self.variable())
                    if self.peek() == "=":
                        self.next()
                        t = self.next()
                        if not (NUM.match(t) or t.startswith('"') or re.match(r"\$[A-Za-z_]", t)):
                            raise Wrong("default")
                    if self.peek() != ",":
                        break
                    self.next()
            self.want("]")
        return out

    def variable(self):
        t = self.next()
        if not re.match(r"\$[A-Za-z_]", t):
            raise Wrong("variable")
        return t

    def rule(self):
        self.unit()
        while self.peek() == "|":
            self.next()
            self.unit()

    def unit(self):
        while self.is_action():
            self.action()
        self.term()
        if self.peek() == ",":
            while self.peek() == ",":
                self.next()
                self.term()
        else:
            while self.peek() not in ("|", ")", "}", ";", ""):
                self.term()
                if self.peek() == ",":
                    raise Wrong("set of sequences")

    def term(self):
        t = self.next()
        if t == "(":
            self.rule()
            self.want(")")
        elif t == "{":
            self.rule()
            self.want("}")
        elif t.startswith('"'):
            if self.peek() == ":":
                self.next()
                if not self.next().startswith('"'):
                    raise Wrong("help")
        elif NAME.match(t):
            if self.peek() == ":":
                self.next()
                if not self.next().startswith('"'):
                    raise Wrong("help")
            elif self.peek() == "[":
                self.arguments(t)
        else:
            raise Wrong("term")
        while self.peek() == "*":
            self.next()
            self.repeater()
        while self.is_action():
            self.action()

    def integer(self):
        t = self.next()
        if not INT.match(t):
            raise Wrong("count")
        return int(t)

    def repeater(self):
        if self.peek() == "(":
            self.next()
            counts = [self.integer()]
            if self.peek() == ":":
                self.next()
                counts.append(self.integer())
            self.want(")")
        else:
            counts = [self.integer()]
        if min(counts) < 0 or max(counts) == 0:
            raise Wrong("repeats")

    def arguments(self, name):
        self.want("[")
        args = []
        if self.peek() != "]":
            while True:
                by = None
                if re.match(r"\$[A-Za-z_]", self.peek()) and self.peek(1) == "=":
                    by = self.next()
                    self.next()
                if re.match(r"\$([A-Za-z_]|[0-9]+\Z)", self.peek()):
                    self.next()
                else:
                    self.constant()
                args.append(by)
                if self.peek() != ",":
                    break
                self.next()
        self.want("]")
        if name in self.grammars:
            params = list(self.grammars[name])
            used = set()
            for i, by in enumerate(args):
                if by is None:
                    if used - set(params[:i]) or len(used) != i or i >= len(params):
                        raise Wrong("arguments")
                    used.add(params[i])
                else:
                    if by not in params or by in used:
                        raise Wrong("arguments")
                    used.add(by)
            # positional arguments come first
            firsts = [by is None for by in args]
            if firsts != sorted(firsts, reverse=True) or len(args) > len(params):
                raise Wrong("arguments")


def verdict(toks, good_actions):
    """None if the tokens form a grammar text, or what is wrong."""
    try:
        Reader(toks, good_actions).spec()
    except Wrong as e:
        return str(e)
    return None


# ---------------------------------------------------------------- the grammar compiled before and after

class Witness:
    """A valid grammar whose behaviour is asked for again and again."""

    def __init__(self, case):
        log = {}
        self.tree = decorate(case["tree"], log)
        self.src = gram.text(self.tree)
        self.old = clih.iface(self.src)
        words = gram.vocabulary(self.tree)
        self.lines = []
        for kind, choices, how in case["lines"]:
            toks = gram.mutate(gram.walk(self.tree, choices), how, words)
            try:
                steps = gram.readings(self.tree, toks, 40)
            except gram.TooMany:
                continue
            if (toks or kind < 2) and len({h for s, h in steps[-1]}) < 2:
                self.lines.append((kind, toks))
        self.first = self.answers(self.old)

    def answers(self, cli):
        return [ask(cli, kind, toks) for kind, toks in self.lines]

    def check(self, what):
        spec = clih.compiled(self.src)
        eq("behaviour of a grammar compiled after " + what, self.answers(clih.iface(spec)), self.first, grammar=self.src, lines=self.lines)
        eq("behaviour of a grammar compiled before " + what, self.answers(self.old), self.first, grammar=self.src, lines=self.lines)


def quiet():
    stack = contextlib.ExitStack()
    stack.enter_context(contextlib.redirect_stdout(io.StringIO()))
    stack.enter_context(contextlib.redirect_stderr(io.StringIO()))
    return stack


def refused(src):
    """The error with which a text is refused, or None."""
    with quiet():
        try:
            clih.compile_grammar(src)
        except Exception as e:
            return e
    return None


# ---------------------------------------------------------------- mutated texts

EXTRA = ["", 'h [ $a , $b = "d" ] : "w" << call ext ( $a , $b ) ; >> ; k : h [ 1 , $b = 2 ] "v" ;',
         'p [ $x ] : "p" * 2 ; q : p [ $x = "s" ] | p [ ] | p ;', 'token A1 , A2 StringToken ( ) , A3 RangedIntToken ( 1 , 5 ) ; r : A1 : "help" { A2 , A3 } ;',
         'r [ ] : ( "one" | "two" : "help" ) * ( 1 : 3 ) ;']
WORDS = ["(", ")", "{", "}", "[", "]", "|", ",", ":", ";", "*", "=", "&", "0", "1", "2", "-1", "1.5", "$a", "$b", "$1", '"s"', "g", "h", "T0", "sub0", "token", "True", "None", "import",
         "<< call ; >>", "<< $v = 1; >>", "<< >>", "<< ext(1) >>", "<< $1 = 2; >>"]
BAD_ACTIONS = {"<< call ; >>", "<< ext(1) >>", "<< $1 = 2; >>"}


def base_tokens(case):
    log = {}
    src = gram.text(decorate(case["base"], log)) + " " + EXTRA[case["extra"]]
    return TOKEN.findall(src)


def apply(toks, edits):
    for kind, pos, word in edits:
        i = pos % len(toks) if toks else 0
        if kind == 0 and toks:
            del toks[i]
        elif kind == 1:
            toks.insert(i, WORDS[word % len(WORDS)])
        elif kind == 2 and toks:
            toks[i] = WORDS[word % len(WORDS)]
        elif kind == 3 and toks:
            j = word % len(toks)
            toks[i], toks[j] = toks[j], toks[i]
        elif kind == 4 and toks:
            # a piece of the text copied elsewhere
            j = min(len(toks), i + 1 + word % 9)
            k = (pos * 7 + word) % len(toks)
            toks[k:k] = toks[i:j]
        elif kind == 5 and toks:
            del toks[i:i + 1 + word % 6]
        elif kind == 6 and toks:
            # exchange by a token of the text itself
            toks[i] = toks[(pos * 3 + word) % len(toks)]
    return toks


def run_mutated(case, rec):
    toks = base_tokens(case)
    good = {t for t in toks + WORDS if t.startswith("<<")} - BAD_ACTIONS
    eq("reference reader on a valid text", verdict(toks, good), None, text=toks)
    witness = Witness(case)
    refusals = 0
    for edits in case["edits"]:
        new = apply(list(toks), edits)
        src = " ".join(new)
        wrong = verdict(new, good)
        error = refused(src)
        if wrong:
            ensure(error is not None, "a faulty grammar was accepted", fault=wrong, grammar=src)
            ensure(str(error), "rejected without saying why", grammar=src, error=repr(error))
            refusals += 1
            rec.label("refused: " + wrong.split(" (")[0])
        else:
            ensure(error is None, "a valid grammar was rejected", grammar=src, error=repr(error))
            rec.label("still valid")
    witness.check("mutated texts")
    if refusals and witness.lines:
        rec.nontriv()


# ---------------------------------------------------------------- planted faults

def plant(toks, kind, n):
    """The tokens with one definition error in them."""
    names = ["g"] + [t for i, t in enumerate(toks) if NAME.match(t) and i and toks[i - 1] == ";" and toks[i + 1] == ":"]
    tokens = [t for i, t in enumerate(toks) if NAME.match(t) and i and toks[i - 1] == "token"] or ["T99"]
    name = names[n % len(names)]
    tok = tokens[n % len(tokens)]
    have = [] if tok in toks else ["token", tok, ";"]
    back = n % 2
    body = toks[:-1]

    def place(block):
        return have + toks + block if back else block + have + toks
    if kind == "grammar twice":
        return place([name, ":", '"again"', ";"])
    if kind == "token twice":
        return place(["token", tok, ["StringToken", "BooleanToken"][n % 2], "(", ")", ";"])
    if kind == "token twice in one list":
        return ["token", "U1", ",", "U2", "StringToken", "(", ")", ",", "U1", ";"] + toks
    if kind == "token and grammar":
        return place(["token", name, ";"])
    if kind == "grammar and token":
        return place([tok, ":", '"x"', ";"])
    if kind == "parameter twice":
        ps = ["$p%d" % (i % (1 + n % 3)) for i in range(2 + n % 3 + n % 2)]
        out = []
        for p in ps:
            # with and without default values, the same ones and others
            out += [",", p] + ([], [], ["=", "1"], ["=", str(len(out))], ["=", '"d"'])[(n if n % 2 else n + len(out)) % 5]
        return toks + ["new", "["] + out[1:] + ["]", ":", '"x"', ";"]
    if kind == "arguments":
        k = n % 3
        head = ["callee", "["] + " , ".join("$p%d" % i for i in range(k)).split() + ["]", ":", '"x"', ";"]
        bad = [["1"] * (k + 1), ["1"] * (k + 2), ["$q=1"], ["$p0=1", "$p0=2"], ["$p0=1", "2"], ["1", "$p0=2"], ["$p9=1"]][n // 3 % 7]
        args = TOKEN.findall(" , ".join(bad))
        return toks + head + ["caller", ":", '"y"', "callee", "["] + args + ["]", ";"]
    if kind == "no repeats":
        spots = [i + 1 for i, t in enumerate(body) if t in (")", "}") or (t.startswith('"') and body[i - 1] not in ("(", ",", ":") and body[i + 1:i + 2] != [":"])]
        spots = [i for i in spots if token_free(toks, i)]
        extra = [["*", "0"], ["*", "(", "0", ")"], ["*", "(", "0", ":", "0", ")"], ["*", "-2"], ["*", "(", "-1", ":", "2", ")"]][n % 5]
        if not spots:
            return toks + ["new", ":", '"x"'] + extra + [";"]
        i = spots[n % len(spots)]
        return toks[:i] + extra + toks[i:]
    if kind == "cut short":
        end = max(1, len(toks) - 1 - n % 5)
        return toks[:end if toks[end - 1] != ";" else end - 1]
    if kind == "open action":
        return body + ["<<", "call", "ext", "(", "1", ")", ";", ";"]
    if kind == "open string":
        return body + ['"never closed', ";"]
    if kind == "open comment":
        return body + ["/*", ";"]
    if kind == "odd character":
        i = n % len(toks)
        return toks[:i] + [["@", "?", "%", "~", "`", "!", "^", "<", "'", "&", "\\"][n % 11]] + toks[i:]
    raise ValueError(kind)


def token_free(toks, i):
    """Whether position i is outside token definitions and repeat counts."""
    j = i - 1
    depth = 0
    while j >= 0 and toks[j] != ";":
        if toks[j] == "token":
            return False
        j -= 1
    if toks[i - 1] == ")":
        j = i - 1
        while j >= 0:
            depth += {")": 1, "(": -1}.get(toks[j], 0)
            if depth == 0:
                return j == 0 or toks[j - 1] != "*"
            j -= 1
    return True


FAULTS = ["grammar twice", "token twice", "token twice in one list", "token and grammar", "grammar and token", "parameter twice", "arguments", "no repeats", "cut short", "open action",
          "open string", "open comment", "odd character"]


def run_planted(case, rec):
    toks = base_tokens(case)
    ensure(refused(" ".join(toks)) is None, "a valid grammar was rejected", grammar=" ".join(toks))
    witness = Witness(case)
    for kind, n in case["faults"]:
        src = " ".join(plant(list(toks), kind, n))
        error = refused(src)
        ensure(error is not None, "a faulty grammar was accepted", fault=kind, grammar=src)
        ensure(str(error), "rejected without saying why", fault=kind, grammar=src, error=repr(error))
        rec.label(kind)
        if n % 3 == 0:
            witness.check("a grammar with the fault: " + kind)
    witness.check("faulty grammars")
    # and the text itself is as good as before
    ensure(refused(" ".join(toks)) is None, "a valid grammar was rejected after faulty ones", grammar=" ".join(toks))
    if len({k for k, _ in case["faults"]}) > 1 and witness.lines:
        rec.nontriv()


# ---------------------------------------------------------------- any text

PIECES = st.sampled_from(["g", ":", ";", '"', "\\", "<<", ">>", "/*", "*/", "//", "#", "\n", "\r", "\t", " ", "(", ")", "{", "}", "[", "]", "$", "$a", "1", ".", "-", "+", "*", "token", ",", "|", "=", "\\n", "'", "\0", "\u00e9", "call", "0x1"])


def run_any(case, rec):
    witness = Witness(case)
    n = 0
    for text in case["texts"]:
        text = "".join(text)
        if case["wrap"] % 3 == 1:
            text = 'g: "x" ' + text + ";"
        elif case["wrap"] % 3 == 2:
            text = 'g: "x" <<' + text + ">>;"
        error = refused(text)
        rec.label("compiled" if error is None else type(error).__name__)
        n += error is not None
    witness.check("arbitrary texts")
    if n and witness.lines:
        rec.nontriv()


# ---------------------------------------------------------------- cases

def witness_part():
    line = st.tuples(st.integers(0, 2), gram.CHOICES, gram.MUTATION).map(list)
    return {"tree": acted(gram.trees(gram.TYPED, 2, size=10), 8), "lines": st.lists(line, min_size=2, max_size=4)}


def base_part():
    return {"base": acted(gram.trees(gram.TYPED, 2, size=12), 12), "extra": st.integers(0, len(EXTRA) - 1)}


def mutated_cases():
    edit = st.tuples(st.integers(0, 6), st.integers(0, 120), st.integers(0, 120)).map(list)
    return st.fixed_dictionaries(dict(witness_part(), **base_part(), edits=st.lists(st.lists(edit, min_size=1, max_size=3), min_size=3, max_size=8)))


def planted_cases():
    fault = st.tuples(st.sampled_from(FAULTS), st.integers(0, 60)).map(list)
    return st.fixed_dictionaries(dict(witness_part(), **base_part(), faults=st.lists(fault, min_size=2, max_size=6)))


def any_cases():
    return st.fixed_dictionaries(dict(witness_part(), wrap=st.integers(0, 2), texts=st.lists(st.lists(PIECES, max_size=14), min_size=2, max_size=8)))


SUBS = [
    Sub("planted", planted_cases, run_planted, 60, 3000, "valid grammar texts with one definition error of each kind in them, each followed by valid grammars; non-trivial: at least two kinds of faults"),
    Sub("mutated", mutated_cases, run_mutated, 60, 3000, "valid texts with tokens deleted, inserted, exchanged and copied, judged by a reference reader of the grammar notation; non-trivial: at least one text was refused"),
    Sub("any-text", any_cases, run_any, 40, 2000, "arbitrary texts, as grammars and inside a grammar or an action: compiling ends; non-trivial: at least one was refused"),
]
ASSUMPTIONS = ["a name that is never defined is not a fault: it is taken for a token", "stray marks inside an action are not judged"]
