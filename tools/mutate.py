"""Mutation sweep: how many small changes of the code under test do the checks notice?

    python3 tools/mutate.py WORKDIR COUNT SEED [FILE ...]

Makes random one-place changes in scratch copies of /repo, leaves out those the
existing tests notice, and runs the quick checks on the rest until one reports a
violation.  Writes WORKDIR/results.jsonl.  Only used while developing.
"""
import ast
import concurrent.futures
import json
import os
import random
import shutil
import subprocess
import sys
import threading

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ["cli.py", "cmd.py", "compiler.py", "elements.py", "interface.py", "lex_yacc_common.py", "tokens.py", "utils.py",
         "binding_parser/binding_objects.py", "binding_parser/binding_text_parser.py", "tokenizer/tokenizer.py"]
FIRST = {
    "cli.py": "C27 C29 C30 C23 C22 C20 C18 C19 C16 C17 C26", "cmd.py": "C16 C23 C19 C18 C17 C20 C22 C26 C27 C28", "compiler.py": "C14 C10 C11 C06 C15 C09 C07", "elements.py": "C06 C09 C10 C14 C08 C07 C24",
    "interface.py": "C30 C08 C06 C07 C09 C10 C13 C20 C11 C21 C24 C25 C27", "lex_yacc_common.py": "C14 C10 C11 C15", "tokens.py": "C03 C04 C05 C12 C07 C06 C20 C21 C25 C27", "utils.py": "C02 C01 C17 C13",
    "binding_parser/binding_objects.py": "C10 C11 C09", "binding_parser/binding_text_parser.py": "C10 C11 C14", "tokenizer/tokenizer.py": "C01 C02 C17 C27",
}
SKIP = ["do__tracemalloc", "do__system_info", "get_size", "get_drives", "test_main", "__repr__", "__str__", "last_tracemalloc_snapshot", "linepos", "count_newlines",
        "size_till_last_newline", "as_dict", "p_unused_token", "p_error", "t_error"]
OPS = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}


def mutants(text):
    """[(start offset, end offset, replacement, what)]"""
    tree = ast.parse(text)
    lines = text.splitlines(keepends=True)
    begin = [0]
    for l in lines:
        begin.append(begin[-1] + len(l))
    enc = [l.encode() for l in lines]

    def off(line, col):
        return begin[line - 1] + len(enc[line - 1][:col].decode())

    def span(n):
        return off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset)

    out = []

    def put(n, new, what):
        s, e = span(n)
        if text[s:e] != new:
            out.append((s, e, new, what))

    def src(n):
        s, e = span(n)
        return text[s:e]

    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name in SKIP:
            skip |= {id(k) for k in ast.walk(n)}
        if isinstance(n, (ast.If, ast.IfExp)) and "windows" in src(n.test):
            skip |= {id(k) for part in (n.body if isinstance(n.body, list) else [n.body]) for k in ast.walk(part)}
        if isinstance(n, ast.ClassDef) and n.name.startswith("_"):
            skip |= {id(k) for k in ast.walk(n)}
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in OPS:
            put(n, "%s %s %s" % (src(n.left), OPS[type(n.ops[0])], src(n.comparators[0])), "compare")
        if isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            put(n, "(" + op.join("(%s)" % src(v) for v in n.values) + ")", "and/or")
            for i in range(len(n.values)):
                rest = [src(v) for j, v in enumerate(n.values) if j != i]
                put(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join("(%s)" % r for r in rest) + ")", "drop operand %d" % i)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, "(%s)" % src(n.operand), "drop not")
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            put(n.test, "True", "condition True")
            put(n.test, "False", "condition False")
        if isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
            put(n, str(n.value + 1), "constant + 1")
            if n.value:
                put(n, "(%d)" % (n.value - 1), "constant - 1")
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            put(n, str(not n.value), "constant negated")
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            put(n, "(%s %s %s)" % (src(n.left), "-" if isinstance(n.op, ast.Add) else "+", src(n.right)), "+/-")
        if isinstance(n, ast.Break):
            put(n, "continue", "break to continue")
        if isinstance(n, ast.Continue):
            put(n, "pass", "drop continue")
        if isinstance(n, (ast.Assign, ast.AugAssign)) or isinstance(n, ast.Expr) and not isinstance(n.value, ast.Constant):
            put(n, "pass", "drop statement")
        if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            put(n, "return None", "return None")
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "copy" and not n.args:
            put(n, src(n.func.value), "drop copy")
        if isinstance(n, ast.Call) and len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            a, b = span(n.args[0]), span(n.args[1])
            out.append((a[0], b[1], text[b[0]:b[1]] + text[a[1]:b[0]] + text[a[0]:a[1]], "swap arguments"))
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            put(n, src(n.value), "drop slice")
    return out


def sh(cmd, timeout, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, stdin=subprocess.DEVNULL, **kw)
    except subprocess.TimeoutExpired as e:
        class R:
            returncode = 124
            stdout = (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
        return R


LOCK = threading.Lock()
BASE = None


def one(job):
    work, index, name, (s, e, new, what) = job
    tree = os.path.join(work, "tree%d" % index)
    shutil.copytree(os.path.join(work, "base"), tree)
    path = os.path.join(tree, "nessaid_cli", name)
    with open(path) as fd:
        text = fd.read()
    line = text.count("\n", 0, s) + 1
    res = {"index": index, "file": name, "line": line, "what": what, "old": text[s:e][:200], "new": new[:200]}
    text = text[:s] + new + text[e:]
    try:
        compile(text, path, "exec")
    except SyntaxError:
        res["verdict"] = "syntax"
        shutil.rmtree(tree)
        return res
    with open(path, "w") as fd:
        fd.write(text)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", VERIF_REPO=tree, VERIF_SCALE="1.5", TERM="dumb", PYTHONHASHSEED="0")
    t = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "nessaid_cli_tests"] + BASE, 60, cwd=tree, env=env)
    if t.returncode != 0:
        res["verdict"] = "tests"
    else:
        order = FIRST[name].split()
        res["verdict"] = "survived"
        for c in order:
            t = sh([sys.executable, os.path.join(HERE, "check.py"), c, "quick", "--workers", "2"], 600, cwd=HERE, env=dict(env, VERIF_CAP="200"))
            if t.returncode == 1:
                res["verdict"] = c
                res["message"] = [l for l in t.stdout.splitlines() if l.startswith("  [")][:1]
                break
            if t.returncode != 0:
                res.setdefault("odd", []).append([c, t.returncode, t.stdout[-300:]])
    shutil.rmtree(tree)
    return res


def main():
    global BASE
    work, count, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    files = sys.argv[4:] or FILES
    os.makedirs(work, exist_ok=True)
    shutil.copytree("/repo", os.path.join(work, "base"), ignore=shutil.ignore_patterns(".git"))
    with open("/opt/vp/BASELINE.json") as fd:
        base = json.load(fd)
    names = base if isinstance(base, list) else base.get("tests") or base.get("passed") or base.get("stable")
    BASE = ["-k", " or ".join(sorted({n.split("::")[-1] for n in names}))]
    jobs = []
    for name in files:
        with open(os.path.join(work, "base/nessaid_cli", name)) as fd:
            for m in mutants(fd.read()):
                jobs.append((name, m))
    random.Random(seed).shuffle(jobs)
    print(len(jobs), "possible mutants")
    jobs = [(work, i, n, m) for i, (n, m) in enumerate(jobs[:count])]
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("MUTATE_PARALLEL", "3"))) as ex, open(os.path.join(work, "results.jsonl"), "w") as out:
        for f in concurrent.futures.as_completed([ex.submit(one, j) for j in jobs]):
            r = f.result()
            out.write(json.dumps(r) + "\n")
            out.flush()


if __name__ == "__main__":
    main()
