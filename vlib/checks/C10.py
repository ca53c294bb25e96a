"""C10 - variables and parameters pass between grammars as written."""
from hypothesis import strategies as st

from vlib import clih, gram
from vlib.acts import Var, joins, play
from vlib.core import Sub, eq, ensure
from vlib.scan import quote

from nessaid_cli.elements import ArgumentError, CliArgument

PARAMS = ["$a", "$b", "$c"]
NAMES = PARAMS + ["$x", "$y"]
NO = "<none>"


# ---------------------------------------------------------------- expressions

def lit(v):
    if isinstance(v, str):
        return quote(v)
    return repr(v)


def expr_text(e):
    k = e[0]
    if k == "lit":
        return lit(e[1])
    if k in ("var", "slot"):
        return e[1] if k == "var" else "$%d" % e[1]
    return "%s(%s)" % (k, ", ".join(expr_text(x) for x in e[1]))


def stmt_text(s):
    if s[0] == "set":
        return "%s = %s;" % (s[1], expr_text(s[2]))
    if s[0] == "do":
        return expr_text(s[1]) + ";"
    return "call ext(%s);" % ", ".join([str(s[1])] + NAMES + (["$1", "$2", "$3"] if s[2] else []))


# ---------------------------------------------------------------- reference

class Env:
    """The variables of one use of a grammar."""

    def __init__(self, params):
        self.vars = dict(params)

    def find(self, e, ctx):
        return ctx.get(e[1]) if e[0] == "slot" else self.vars.get(e[1])

    def value(self, e, ctx):
        k = e[0]
        if k == "lit":
            return e[1]
        if k in ("var", "slot"):
            v = self.find(e, ctx)
            return v.value if v else None
        args = [self.value(x, ctx) for x in e[1]]
        if k == "list":
            return list(args)
        if k == "append":
            if isinstance(args[0], list):
                args[0].extend(args[1:])
            return args[0]
        raise ValueError(k)


def bind(params, args, find):
    """The variables a grammar starts with: by position, by name, or by default."""
    given = {}
    for i, (name, e) in enumerate(args):
        given[name or params[i][0]] = e
    out = {}
    for name, default in params:
        if name in given:
            out[name] = find(given[name])
        else:
            out[name] = Var(None if default == NO else default)
    return out


class Play:
    def __init__(self):
        self.trace = []

    def act(self, statements, ctx, env):
        for s in statements or ():
            if s[0] == "set":
                v = env.value(s[2], ctx)
                if s[1] in env.vars:
                    env.vars[s[1]].value = v
                else:
                    env.vars[s[1]] = Var(v)
            elif s[0] == "do":
                env.value(s[1], ctx)
            else:
                row = [env.value(["var", n], ctx) for n in NAMES]
                if s[2]:
                    row += [env.value(["slot", i], ctx) for i in (1, 2, 3)]
                self.trace.append(clih.snapshot([s[1]] + row))

    def enter(self, ref, ctx, env):
        _, _, params, args = ref[:4]

        def find(e):
            if e[0] == "lit":
                return Var(e[1])
            target = env.find(e, ctx)
            return Var(target=target) if target else Var()
        return Env(bind(params, args, find))


# ---------------------------------------------------------------- text

def args_text(args):
    return ", ".join((n + " = " if n else "") + expr_text(e) for n, e in args)


def params_text(params):
    return "[" + ", ".join(n + ("" if d == NO else " = " + lit(d)) for n, d in params) + "]"


class Text(gram.Text):
    def action(self, statements):
        return super().action([stmt_text(s) for s in statements])

    def term(self, n):
        if n[0] == "call":
            args = n[2]
            return "h%d" % n[1] + ("[" + args_text(args) + "]" if args or self.pick(2) else "")
        return super().term(n)


def spec_text(case, trees):
    out, tokens, t = [], None, Text(case["style"])
    for i, g in enumerate(case["grammars"]):
        out.append("h%d%s: %s;" % (i, params_text(g["params"]), t.rule(trees[i])))
    tokens = ["token %s;" % d for d in t.declarations()]
    return "\n".join(tokens + out)


# ---------------------------------------------------------------- preparation

def slots_out(e):
    """The expression without numbered variables."""
    if e[0] == "slot":
        return ["lit", 0]
    if e[0] in ("lit", "var"):
        return e
    return [e[0], [slots_out(x) for x in e[1]]]


def prepare(n, index, count, where="in"):
    """Numbers the log statements, keeps calls to earlier grammars, and drops numbered variables where no sequence encloses them."""
    k = n[0]
    if k in ("kw", "int", "str", "bool"):
        if k == "kw":
            count[1] += 1
            return ["kw", "k%d_" % count[1]]
        return n
    if k in ("seq", "alt", "set"):
        return [k, [prepare(c, index, count) for c in n[1]]]
    if k == "act":
        body = prepare(n[1], index, count, where)
        out = []
        for at, block in (("before", n[2]), ("after", n[3])):
            free = where == "in" or (where == "rep" and at == "after")
            new = []
            for s in block:
                if s[0] == "log":
                    count[0] += 1
                    new.append(["log", count[0], free])
                elif free:
                    new.append(s)
                else:
                    new.append([s[0]] + s[1:-1] + [slots_out(s[-1])])
            out.append(new)
        return ["act", body] + out
    if k == "opt":
        return [k, prepare(n[1], index, count, "join" if joins(n[1]) else "in")]
    if k == "rep":
        return [k, prepare(n[1], index, count, where if n[2] == n[3] == 1 else "rep")] + n[2:]
    if k == "call":
        if index == 0:
            count[1] += 1
            return ["kw", "k%d_" % count[1]]
        return ["call", n[1] % index, n[2], where]
    raise ValueError(k)


def fit(n, grammars):
    """Makes the arguments of every call fit the parameters of the grammar called."""
    k = n[0]
    if k in ("seq", "alt", "set"):
        return [k, [fit(c, grammars) for c in n[1]]]
    if k == "call":
        params = [p for p, _ in grammars[n[1]]["params"]]
        args, named = [], []
        for by_name, which, e in n[2][:len(params)]:
            e = e if n[3] == "in" else slots_out(e)
            if by_name or named:
                free = [p for p in params[len(args):] if p not in [m[0] for m in named]]
                if free:
                    named.append([free[which % len(free)], e])
            else:
                args.append([None, e])
        return ["call", n[1], args + named]
    if k in ("act", "opt", "rep"):
        return [k, fit(n[1], grammars)] + n[2:]
    return n


def expand(n, trees, grammars):
    k = n[0]
    if k in ("seq", "alt", "set"):
        return [k, [expand(c, trees, grammars) for c in n[1]]]
    if k == "call":
        return ["ref", expand(trees[n[1]], trees, grammars), grammars[n[1]]["params"], n[2]]
    if k in ("act", "opt", "rep"):
        return [k, expand(n[1], trees, grammars)] + n[2:]
    return n


class Nesting(clih.Iface):
    """Executes further lines, or asks for suggestions, from within its actions."""

    plan, ran, inside = (), (), False

    async def ext(self, *args):
        super().ext(*args)
        if self.inside:
            return
        self.inside = True
        outer = self.calls
        for number, line, ask in self.plan:
            if len(outer) == number + 1:
                self.calls, arglist = [], list(line[2])
                res = await self.match(list(line[0]), dry_run=ask, last_token_complete=True, arglist=arglist)
                self.ran.append((line, ask, res, self.calls, arglist))
        self.calls = outer
        self.inside = False


def run(case, rec):
    grammars = case["grammars"]
    count, trees = [0, 0], []
    for i, g in enumerate(grammars):
        trees.append(fit(prepare(g["body"], i, count), grammars))
    root = len(grammars) - 1
    src = spec_text(case, trees)
    whole = expand(trees[root], trees, grammars)
    if gram.repeats(whole) > 30:
        rec.label("skipped: too long")
        return
    cli = clih.iface(src, root="h%d" % root, cls=Nesting)
    loose = gram.has_nullable_repeat(whole)
    words = gram.vocabulary(whole)
    best = 0
    rparams = grammars[root]["params"]
    lines = []
    for choices, how, rargs in case["inputs"]:
        toks = gram.mutate(gram.walk(whole, choices), how, words)
        if not toks:
            continue
        try:
            steps = gram.readings(whole, toks, 60)
        except gram.TooMany:
            rec.label("skipped: too many readings")
            continue
        done = {h for s, h in steps[-1] if gram.accepting(s)} if len(steps) > len(toks) else set()
        lines.append([toks, gram.resolve(done, toks) if done else done, rargs[:len(rparams)]])

    def judge(toks, done, rargs, res, calls, arglist, **note):
        note.update({"grammar": src, "input": toks, "arguments": rargs})
        if res.result != "success":
            eq("actions of a refused line", calls, [], **note)
            eq("arguments of a refused line", arglist, rargs, **note)
            ensure(loose or len(done) != 1, "refused", error=res.error, **note)
            return
        ensure(done, "accepted without a reading", **note)
        wanted = []
        for h in done:
            p = Play()
            env = Env(bind(rparams, [[None, ["lit", v]] for v in rargs], lambda e: Var(e[1])))
            play(whole, h, toks, env, p)
            wanted.append((p.trace, [env.vars[n].value for n, _ in rparams][:len(rargs)]))
        got = (calls, clih.snapshot(arglist))
        if len(wanted) == 1 and not loose:
            eq("variables seen by the actions, and arguments handed back", repr(got), repr(wanted[0]), **note)
        else:
            ensure(repr(got) in [repr(w) for w in wanted], "variables of no reading", got=got, wanted=wanted, **note)
            rec.label("several readings")
        ensure(cli.streams.err.getvalue() == "", "errors reported", err=cli.streams.err.getvalue(), **note)

    nested = 0
    for toks, done, rargs in lines:
        cli.calls, cli.ran = [], []
        cli.plan = [(number, lines[which % len(lines)], ask) for number, which, ask in case.get("nested", ())]
        arglist = list(rargs)
        res = clih.execute(cli, toks, arglist) if arglist else clih.run(cli.match(list(toks), last_token_complete=True))
        within = [[r[0][0], "asked" if r[1] else "run"] for r in cli.ran]
        judge(toks, done, rargs, res, cli.calls, arglist, within=within)
        best = max(best, len(cli.calls))
        for (ltoks, ldone, lrargs), ask, lres, lcalls, larglist in cli.ran:
            if ask:
                eq("actions of a question", lcalls, [], grammar=src, input=ltoks)
            else:
                judge(ltoks, ldone, lrargs, lres, lcalls, larglist, executed_within=toks)
                nested += lres.result == "success"
    if "nested" in case:
        rec.label("lines executed by actions" if nested else "none executed by actions")
        if nested and best >= 2:
            rec.nontriv()
        return
    calls = src.count("h0") - 1
    rec.label("grammars %d" % len(grammars))
    if best >= 2 and len(grammars) > 1 and calls > 0:
        rec.nontriv()


LITERAL = st.sampled_from([0, 1, 42, -7, 2.5, "s", "two words", "C:\\new", "a\tb", "\\\\n", "", True, False, None])
DEFAULT = st.sampled_from([NO, NO, NO, 0, 1, -3, 1.5, 0.0, "d", "dd e", "", "D:\\tmp"])


def exprs(names=NAMES):
    var = st.sampled_from(names).map(lambda n: ["var", n])
    slot = st.integers(1, 3).map(lambda i: ["slot", i])
    atom = st.one_of(LITERAL.map(lambda v: ["lit", v]), var, var, slot)
    return atom, st.one_of(atom, atom, st.lists(atom, max_size=2).map(lambda a: ["list", a]),
                           st.tuples(var, LITERAL.map(lambda v: ["lit", v])).map(lambda a: ["append", list(a)]))


@st.composite
def bodies(draw, depth):
    """A body: a sequence mixing keywords and calls, with actions before and after parts at any depth."""
    atom, expr = exprs()
    stmt = st.one_of(st.tuples(st.just("set"), st.sampled_from(NAMES), expr).map(list),
                     st.tuples(st.just("set"), st.sampled_from(PARAMS), expr).map(list),
                     st.just(["log"]), st.just(["log"]),
                     st.tuples(st.just("do"), st.tuples(st.just("append"), st.tuples(st.sampled_from(NAMES).map(lambda n: ["var", n]), LITERAL.map(lambda v: ["lit", v])).map(list)).map(list)).map(list))
    block = st.lists(stmt, max_size=3)
    arg = st.tuples(st.booleans(), st.integers(0, 5), st.one_of(st.sampled_from(NAMES).map(lambda n: ["var", n]), atom)).map(list)

    def go(d, top=False):
        k = draw(st.sampled_from(["seq", "seq", "alt"] if top else
                                 ["kw", "kw", "call", "call", "call", "int", "str", "opt", "rep", "set", "seq", "alt"] if d else ["kw", "call", "call", "call"]))
        if k == "kw":
            n = ["kw", "?"]
        elif k == "int":
            n = ["int", 1, 9]
        elif k == "str":
            n = ["str"]
        elif k == "call":
            n = ["call", draw(st.integers(0, 7)), draw(st.lists(arg, max_size=3))]
        elif k == "opt":
            n = ["opt", go(d - 1)]
        elif k == "rep":
            lo = draw(st.integers(0, 2))
            n = ["rep", go(d - 1), lo, max(1, lo + draw(st.integers(0, 1)))]
        else:
            n = [k, [go(d - 1) for _ in range(draw(st.integers(2, 3)))]]
        if top or draw(st.integers(0, 2)):
            n = ["act", n, draw(block), draw(block) + ([["log"]] if top else [])]
        return n
    return go(depth, True)


def cases():
    params = st.integers(0, 3).flatmap(lambda k: st.tuples(*[st.tuples(st.just(PARAMS[i]), DEFAULT).map(list) for i in range(k)]).map(list))
    g = st.fixed_dictionaries({"params": params, "body": bodies(2)})
    inp = st.tuples(gram.CHOICES, gram.MUTATION, st.lists(LITERAL, max_size=3)).map(list)
    return st.fixed_dictionaries({"grammars": st.lists(g, min_size=1, max_size=4), "style": gram.STYLE, "inputs": st.lists(inp, min_size=2, max_size=5)})


def nested_cases():
    plan = st.lists(st.tuples(st.integers(0, 3), st.integers(0, 4), st.integers(0, 3).map(lambda i: i == 0)).map(list), min_size=1, max_size=3)
    return st.tuples(cases(), plan).map(lambda t: dict(t[0], nested=t[1]))


# ---------------------------------------------------------------- argument lists

def valid(params, args):
    """Whether an argument list fits: not too many, positional before named, each parameter at most once, names known."""
    if len(args) > len(params):
        return False
    taken = set()
    named = False
    for i, (name, _) in enumerate(args):
        if name is None:
            if named:
                return False
            name = params[i][0]
        else:
            named = True
            if name not in [p for p, _ in params]:
                return False
        if name in taken:
            return False
        taken.add(name)
    return True


def run_args(case, rec):
    params, args = case["params"], case["args"]
    names = ", ".join(p for p, _ in params)
    head = "h%s: \"w\" << call ext(%s); >>;\n" % (params_text(params), names)
    src = head + "g: \"v\" h[%s];" % args_text(args)
    ok = valid(params, args)
    try:
        cli = clih.iface(src)
    except Exception as e:
        ensure(not ok, "a fitting argument list was rejected", grammar=src, error=repr(e))
        rec.label("rejected in a grammar")
        cli = None
    if cli:
        ensure(ok, "an argument list that does not fit was accepted", grammar=src)
        res = clih.execute(cli, ["v", "w"])
        want = bind(params, args, lambda e: Var(e[1]))
        eq("result", res.result, "success", grammar=src, error=res.error)
        eq("parameters", repr(cli.calls), repr([[want[p].value for p, _ in params]]), grammar=src)
        rec.label("accepted in a grammar")
    # the same argument list given by the program to the grammar that is the root
    cli = clih.iface(head, root="h")
    arglist = [CliArgument(e[1]) if n is None else CliArgument(e[1], param_name=clih.DollarVariable(n)) for n, e in args]
    try:
        res = clih.execute(cli, ["w"], arglist)
    except ArgumentError as e:
        ensure(not ok, "a fitting argument list was rejected", grammar=head, args=args, error=repr(e))
        eq("calls", cli.calls, [], grammar=head, args=args)
    else:
        ensure(ok, "an argument list that does not fit was accepted", grammar=head, args=args)
        want = bind(params, args, lambda e: Var(e[1]))
        eq("parameters", repr(cli.calls), repr([[want[p].value for p, _ in params]]), grammar=head, args=args)
    if any(n for n, _ in args) and len(args) > 1:
        rec.nontriv()


def arg_cases():
    names = ["$a", "$b", "$c", "$d"]
    params = st.permutations(names).flatmap(lambda p: st.integers(0, 3).flatmap(
        lambda k: st.tuples(*[st.tuples(st.just(p[i]), DEFAULT).map(list) for i in range(k)]).map(list)))
    arg = st.tuples(st.one_of(st.none(), st.sampled_from(names)), LITERAL.map(lambda v: ["lit", v])).map(list)
    return st.fixed_dictionaries({"params": params, "args": st.lists(arg, max_size=4)})


SUBS = [
    Sub("call-graphs", cases, run, 420, 9000,
        "up to four grammars calling one another with literals, variables and matched values by position, by name and by default, assigning and logging all variables; "
        "non-trivial: at least two grammars, and an accepted line logging at least twice"),
    Sub("lines-within-lines", nested_cases, run, 200, 5000,
        "the same, with actions that execute further lines of the grammar or ask for suggestions; non-trivial: a line accepted within a line that logs at least twice"),
    Sub("argument-lists", arg_cases, run_args, 200, 6000,
        "parameter lists and argument lists, fitting and not, used in a grammar and for the root grammar; non-trivial: at least two arguments, one by name"),
]
ASSUMPTIONS = ["default values are numbers and strings; names are defined before they are used",
               "an undefined variable given as an argument is no variable: the parameter starts empty and assignments to it stay inside"]
