"""Where the code under test comes from, and how it is imported.

The tree in REPO (default /repo) is imported directly, so every run judges the
current working tree.  ply and nessaid_readline live in the project's venv.
Nothing is written into the tree (no byte code, no parser tables).
"""
import os
import sys

sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
SITE = "/opt/venv/lib/python3.12/site-packages"

if REPO not in sys.path:
    sys.path.insert(0, REPO)
if SITE not in sys.path:
    sys.path.append(SITE)

import ply.yacc as _yacc  # noqa: E402

# ply reports unused tokens of the project's lexers on stderr for every parser
# that is built; that is noise here.
for _name in ("warning", "error", "info", "debug", "critical"):
    setattr(_yacc.PlyLogger, _name, lambda self, *a, **k: None)

# Every compile_grammar() call rebuilds the same LALR tables, which is most of
# its cost.  The tables are a pure function of the productions: share them
# between parsers of one process that have the same productions.
_RealTable = _yacc.LRGeneratedTable
_tables = {}


def _shared_table(grammar, method="LALR", log=None):
    key = (
        method,
        grammar.Start,
        tuple(str(p) + repr(p.prec) + str(p.func) for p in grammar.Productions),
        tuple(sorted((k, repr(v)) for k, v in grammar.Precedence.items())),
    )
    if key not in _tables:
        _tables[key] = _RealTable(grammar, method, log)
        return _tables[key]
    import copy
    table = copy.copy(_tables[key])
    table.grammar = grammar
    table.lr_productions = grammar.Productions
    return table


_yacc.LRGeneratedTable = _shared_table


def in_repo(filename):
    return os.path.abspath(filename).startswith(os.path.abspath(REPO) + os.sep)
