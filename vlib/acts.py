"""Reference interpreter of the actions of one matched command.

It follows the derivation found by gram.readings and knows only the documented
rules: actions before a part run before it, actions after it after it, and the
numbered variables of a block are the values of its members.
"""
from vlib import gram


def core(n):
    """What a part is once actions and single repetitions around it are taken away."""
    while n[0] == "act" or (n[0] == "rep" and n[2] == n[3] == 1):
        n = n[1]
    return n


def joins(n):
    """Whether {n} and n are one block: the members of n are members of the braces."""
    c = core(n)
    return c[0] == "seq" or (c[0] == "rep" and 0 < c[2] < c[3])


def taken(items):
    return items[0][1] if len(items) == 1 else [v for _, v in items]


def groups(items):
    """Consecutive items with the same first step."""
    out = []
    for path, v in items:
        if not out or out[-1][0] != path[0]:
            out.append((path[0], []))
        out[-1][1].append((path[1:], v))
    return out


class Var:
    """A variable; a parameter that was given a variable stands for that one."""

    def __init__(self, value=None, target=None):
        self._value = value
        self.target = target

    @property
    def value(self):
        return self.target.value if self.target else self._value

    @value.setter
    def value(self, v):
        if self.target:
            self.target.value = v
        else:
            self._value = v


def perform(n, items, ctx, slot, env, hooks):
    """Runs the actions of one matched part.

    items: [(path below n, value)]; ctx: the numbered variables of the block n is a member of;
    hooks.act(statements, ctx, env) runs an action, hooks.enter(ref, ctx, env) makes the variables of a grammar."""
    k = n[0]
    if k == "act":
        hooks.act(n[2], ctx, env)
        perform(n[1], [(p[1:], v) for p, v in items], ctx, slot, env, hooks)
        hooks.act(n[3], ctx, env)
        return
    inner = {}
    if k in ("seq", "set"):
        for i, part in groups(items):
            perform(n[1][i], part, inner, i + 1, env, hooks)
    elif k == "alt":
        for i, part in groups(items):
            perform(n[1][i], part, inner, 1, env, hooks)
    elif k == "ref":
        perform(n[1], [(p[1:], v) for p, v in items], inner, 1, hooks.enter(n, ctx, env), hooks)
    elif k == "opt":
        perform(n[1], [(p[1:], v) for p, v in items], inner, 1, env, hooks)
    elif k == "rep":
        if n[2] == n[3] == 1:
            inner = ctx
        for _, part in groups(items):
            perform(n[1], part, inner, slot if inner is ctx else 1, env, hooks)
        if inner is ctx:
            return      # there is one value, which its own actions may have kept
    ctx[slot] = Var(taken(items))


def play(tree, history, toks, env, hooks):
    """Runs the actions of one reading of a whole line."""
    items = [(path[1:], gram.value(leaf, t)) for (leaf, path), t in zip(history, toks)]
    perform(tree, items, {}, 1, env, hooks)
