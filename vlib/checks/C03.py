"""C03 - integer and decimal range tokens."""
from hypothesis import strategies as st

from vlib import clih
from vlib.clih import T
from vlib.core import Sub, Violation, eq, ensure


def is_plain_int(s):
    d = s[1:] if s.startswith("-") else s
    return d.isascii() and d.isdigit() and (d == "0" and s == "0" or d[0] != "0")


def run_int(case, rec):
    a, b, ms = case["a"], case["b"], case["ms"]
    lo, hi = min(a, b), max(a, b)
    limit = 10 if ms is None else ms
    args = "%d, %d%s" % (a, b, "" if ms is None else ", %d" % ms)
    values = [str(i) for i in range(lo, hi + 1)]
    cli = clih.iface("token N RangedIntToken(%s); g: \"v\" N << call ext($2); >>;" % args)
    tok = T.RangedIntToken("N", a, b, *([] if ms is None else [ms]))
    helptext = "An integer between %d and %d" % (lo, hi)

    inputs = list(dict.fromkeys(case["inputs"] + [values[p % len(values)][:q] for p, q in case["picks"]]))
    for s in inputs:
        ext = [v for v in values if v.startswith(s)]
        plain = is_plain_int(s)
        # value
        value = clih.run(tok.get_value(s)) if s else T.NullTokenValue
        if plain:
            eq("value of %r" % s, value, int(s) if lo <= int(s) <= hi else T.NullTokenValue, token=args)
        elif value is not T.NullTokenValue:
            eq("value of %r" % s, value, int(s), token=args)
            ensure(lo <= value <= hi, "accepted value out of range", value=value, token=args, input=s)
        # match
        if plain or not s.strip("-0123456789"):
            want = T.MATCH_FAILURE
            if ext:
                want = T.MATCH_SUCCESS if ext == [s] else T.MATCH_PARTIAL
            if plain or s in ("", "-"):
                eq("match of %r" % s, clih.run(tok.match(s)), want, token=args)
        # completions
        if plain or s == "-":
            n, comps = clih.run(tok.complete(s))
            if len(ext) <= limit:
                eq("completions of %r" % s, (sorted(map(str, comps)), n), (sorted(ext), len(ext)), token=args)
            else:
                eq("completions of %r (over the limit)" % s, comps, [], token=args)
                ensure(n == T.TOO_MANY_COMPLETIONS or n > limit, "completion count must tell there are too many", n=n,
                       token=args, input=s)
            rec.label("complete" if len(ext) <= limit else "too many")
        # through a grammar
        if s:
            cli.calls.clear()
            res = clih.execute(cli, ["v", s])
            if plain:
                ok = s in values
                eq("executing 'v %s'" % s, (res.result, cli.calls), ("success", [[int(s)]]) if ok else ("failure", []), token=args)
                rec.label("in range" if ok else "out of range")
            elif res.result == "success":
                eq("executing 'v %s'" % s, cli.calls, [[int(s)]], token=args)
            else:
                eq("rejected input must not run the action", cli.calls, [], token=args, input=s)
        if plain or s in ("", "-"):
            res = clih.suggest(cli, ["v", s] if s else ["v"], complete=not s)
            comps, helps = clih.completions_and_helps(res)
            if not ext:
                eq("TAB on 'v %s'" % s, (res.result, comps, helps), ("failure", set(), set()), token=args)
            else:
                shown = (comps, helps)
                full, short = (set(ext), set()), (set(), {helptext})
                if len(ext) <= min(limit, 10):
                    allowed = [full]
                elif len(ext) <= limit and not s:
                    allowed = [full, short]     # the empty input has its own cap of 10
                elif len(ext) <= limit:
                    allowed = [full]
                else:
                    allowed = [short]
                ensure(shown in allowed, "TAB on 'v %s'" % s, got=shown, allowed=allowed, token=args)
    if lo < 0 or ms is not None or len(str(lo)) != len(str(hi)):
        rec.nontriv()
    rec.label("negative range" if hi < 0 else "crossing" if lo < 0 else "positive")


def dec_ok(s):
    d = s[1:] if s.startswith("-") else s
    i, dot, f = d.partition(".")
    return i.isascii() and i.isdigit() and (not dot or (f.isascii() and f.isdigit()))


def run_dec(case, rec):
    a, b = case["a"] / 100.0, case["b"] / 100.0
    lo, hi = min(a, b), max(a, b)
    args = "%.2f, %.2f" % (a, b)
    cli = clih.iface("token N RangedDecimalToken(%s); g: \"v\" N << call ext($2); >>;" % args)
    tok = T.RangedDecimalToken("N", a, b)
    helptext = "A decimal number between %s and %s" % (lo, hi)
    inputs = list(case["inputs"])
    for n in case["near"]:
        x = (lo if n % 2 else hi) + (n // 2) / 100.0
        inputs += ["%.2f" % x, "%.3f" % (x + (0.001 if n % 3 else -0.001))]
    inputs.append("%g" % lo if "e" not in "%g" % lo else "0")
    seen_in = seen_out = False
    for s in dict.fromkeys(inputs):
        if not s:
            continue
        value = clih.run(tok.get_value(s))
        cli.calls.clear()
        res = clih.execute(cli, ["v", s])
        if dec_ok(s):
            ok = lo <= float(s) <= hi
            eq("value of %r" % s, value, float(s) if ok else T.NullTokenValue, token=args)
            eq("executing 'v %s'" % s, (res.result, cli.calls), ("success", [[float(s)]]) if ok else ("failure", []), token=args)
            seen_in |= ok
            seen_out |= not ok
            rec.label("in range" if ok else "out of range")
            if ok and not (s.startswith("-") and float(s) == 0):     # a negative zero is an odd way to be in range
                for k in range(1, len(s) + 1):
                    r = clih.suggest(cli, ["v", s[:k]], complete=False)
                    comps, helps = clih.completions_and_helps(r)
                    eq("TAB on 'v %s' (prefix of an accepted number)" % s[:k], (comps, helps), (set(), {helptext}), token=args)
        else:
            try:
                number = float(s)
            except ValueError:
                number = None
            if number is None or not lo <= number <= hi:
                eq("value of %r" % s, value, T.NullTokenValue, token=args)
                eq("executing 'v %s'" % s, (res.result, cli.calls), ("failure", []), token=args)
            elif res.result == "success":
                eq("executing 'v %s'" % s, cli.calls, [[number]], token=args)
            rec.label("not a plain decimal")
    if seen_in and seen_out:
        rec.nontriv()


INTS = st.one_of(st.integers(-12, 12), st.integers(-130, 130), st.integers(-1300, 1300), st.integers(900, 1100), st.integers(95, 105))
JUNK = st.sampled_from(["007", "00", "-0", "+5", "--5", "5-", "-", "", "5.0", "1e2", "abc", "\u0663", "\u00b2", "0x10", "-abc", "5a", "5 ", "1_0", "\u2212" "5"])
INPUT = st.one_of(INTS.map(str), INTS.map(str), JUNK, st.text("0123456789-", max_size=4))
DJUNK = st.sampled_from(["nan", "inf", "-inf", "1e2", ".5", "5.", "-.5", "+1", "abc", "-", "1.2.3", "--1", "1_0", "-0", "0.0", "-0.00", "00.5"])


def int_cases():
    return st.fixed_dictionaries({
        "a": INTS, "b": INTS, "ms": st.one_of(st.none(), st.sampled_from([1, 2, 3, 5, 9, 10, 11, 12, 20, 200])),
        "inputs": st.lists(INPUT, max_size=4),
        "picks": st.lists(st.tuples(st.integers(0, 3000), st.integers(0, 5)).map(list), max_size=5)})


def dec_cases():
    num = st.one_of(st.integers(-300, 300), st.integers(-20000, 20000))
    dec = st.one_of(num.map(lambda n: "%.2f" % (n / 100.0)), num.map(lambda n: "%.1f" % (n / 10.0)), st.integers(-250, 250).map(str), DJUNK)
    return st.fixed_dictionaries({"a": num, "b": num, "inputs": st.lists(dec, max_size=5),
                                  "near": st.lists(st.integers(-6, 6), max_size=3)})


SUBS = [
    Sub("integer-range", int_cases, run_int, 220, 8000,
        "integer ranges (both bounds -1300..1300, either order, with and without a suggestion limit) and inputs drawn around and "
        "inside them, compared with a brute-force list of the range; non-trivial: negative bound, explicit limit, or bounds of different length"),
    Sub("decimal-range", dec_cases, run_dec, 220, 8000,
        "decimal ranges and inputs in, out of and near them; non-trivial: at least one accepted and one rejected plain decimal"),
]
_ = Violation
