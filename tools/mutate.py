"""
Mutation of the whole package (run by hand): mutate.py [-j N] [-p PROCS] [-b S] [--list] REGEX
Each mutant (one operator, constant, condition, statement, call or type changed) runs in a scratch copy
against the checks of its file, one after another, until one catches it. Survivors are printed with the
changed line; they are equivalent code or gaps of the checks.
"""
import argparse
import ast
import copy
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = "/repo/padasip"
LAW = dict(ap="C05", rls="C04", ocnlms="C06", gngd="C03", vslms_ang="C03", vslms_benveniste="C03", vslms_mathews="C03")
COMMON = ["C01", "C07", "C12", "C11", "C31", "C38", "C13", "C09", "C15", "C30", "C16", "C08", "C14", "C10"]
CHECKS = {
    "detection/elbnd.py": ["C18", "C15", "C09", "C32", "C35"], "detection/le.py": ["C19", "C15", "C09", "C32", "C35", "C08"],
    "detection/ese.py": ["C20", "C15", "C09", "C32", "C08", "C37"], "preprocess/pca.py": ["C24", "C33", "C15", "C09"],
    "preprocess/lda.py": ["C25", "C33", "C15", "C09"], "preprocess/standardize.py": ["C22", "C33", "C09"],
    "preprocess/standardize_back.py": ["C22", "C33", "C09"], "preprocess/input_from_history.py": ["C23", "C33", "C09", "C35"],
    "misc/error_evaluation.py": ["C21", "C33", "C09"], "ann/mlp.py": ["C27", "C26", "C34", "C15", "C09", "C10", "C29", "C31"],
}


def swaps(node):
    """changed copies of one node"""
    B, C = ast.BinOp, ast.Compare
    if isinstance(node, (B, ast.AugAssign)):
        alt = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div, ast.Add], ast.Div: [ast.Mult, ast.FloorDiv], ast.Pow: [ast.Mult]}
        for o in alt.get(type(node.op), []):
            n = copy.deepcopy(node)
            n.op = o()
            yield n
        if isinstance(node, B):
            yield node.left
            yield node.right
    if isinstance(node, C) and len(node.ops) == 1:
        alt = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
               ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
        for o in alt.get(type(node.ops[0]), []):
            n = copy.deepcopy(node)
            n.ops = [o()]
            yield n
    if isinstance(node, ast.BoolOp):
        n = copy.deepcopy(node)
        n.op = ast.And() if isinstance(node.op, ast.Or) else ast.Or()
        yield n
        for v in node.values:
            yield v
    if isinstance(node, ast.UnaryOp):
        yield node.operand
    if isinstance(node, ast.Constant):
        v = node.value
        if isinstance(v, bool):
            yield ast.Constant(not v)
        elif isinstance(v, int):
            for w in {v + 1, v - 1, 0} - {v}:
                yield ast.Constant(w)
        elif isinstance(v, float):
            for w in (v * 1.001, v * 2, 0.):
                if w != v:
                    yield ast.Constant(w)
        elif isinstance(v, str) and len(v) < 20 and not v.startswith("\n"):
            yield ast.Constant(v + "x")
            if v == "float64":
                yield ast.Constant("float32")
        elif v is None:
            yield ast.Constant(0)
    if isinstance(node, ast.Call):
        for i in range(len(node.keywords)):
            n = copy.deepcopy(node)
            del n.keywords[i]
            yield n
        if len(node.args) == 2:
            n = copy.deepcopy(node)
            n.args = n.args[::-1]
            yield n
        if len(node.args) == 1 and not isinstance(node.args[0], ast.Starred):
            # call left out
            yield node.args[0]
        if isinstance(node.func, ast.Attribute):
            pairs = dict(sum="mean", max="min", min="max", zeros="ones", ones="zeros", mean="median", argmax="argmin", exp="expm1", tanh="arctan", sign="abs",
                         abs="sign", array="asarray", append="add", log10="log2", sqrt="abs", eigh="eig", eig="eigh", std="var", vstack="hstack", dot="multiply",
                         outer="multiply", lower="upper", diff="cumsum", identity="ones", copy="asarray", asarray="array")
            if node.func.attr in pairs:
                n = copy.deepcopy(node)
                n.func.attr = pairs[node.func.attr]
                yield n
            if node.func.attr == "copy" and not node.args:
                yield node.func.value
    if isinstance(node, ast.Attribute) and node.attr == "T":
        yield node.value
    if isinstance(node, ast.IfExp):
        yield node.body
        yield node.orelse
    if isinstance(node, (ast.If, ast.While)):
        for v in (True, False):
            n = copy.deepcopy(node)
            n.test = ast.Constant(v)
            yield n
    if isinstance(node, ast.Slice):
        for part in ("lower", "upper", "step"):
            if getattr(node, part) is not None:
                n = copy.deepcopy(node)
                setattr(n, part, None)
                yield n
    if isinstance(node, (ast.Assign, ast.AugAssign, ast.Raise)) or (isinstance(node, ast.Expr) and not isinstance(node.value, ast.Constant)):
        yield ast.Pass()
    if isinstance(node, ast.Return) and node.value is not None:
        yield ast.Return(ast.Constant(None))


def places(tree):
    """(parent, field, index or None, node) of everything that may change"""
    for parent in ast.walk(tree):
        for field, value in ast.iter_fields(parent):
            if isinstance(value, list):
                for i, v in enumerate(value):
                    if isinstance(v, ast.AST):
                        yield parent, field, i, v
            elif isinstance(value, ast.AST):
                yield parent, field, None, value


def mutants():
    for base, _, files in sorted(os.walk(ROOT)):
        for f in sorted(files):
            path = os.path.relpath(os.path.join(base, f), ROOT)
            if not f.endswith(".py"):
                continue
            src = open(os.path.join(ROOT, path)).read()
            tree = ast.parse(src)
            for node in ast.walk(tree):
                # documentation does not matter
                if isinstance(node, (ast.Module, ast.ClassDef, ast.FunctionDef)) and node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant):
                    node.body = node.body[1:] or [ast.Pass()]
            seen = {ast.unparse(tree)}
            k = 0
            for parent, field, i, node in list(places(tree)):
                for new in swaps(node):
                    box = getattr(parent, field)
                    try:
                        if i is None:
                            setattr(parent, field, new)
                        else:
                            box[i] = new
                        text = ast.unparse(ast.fix_missing_locations(tree))
                        compile(text, path, "exec")
                    except Exception:
                        text = None
                    if i is None:
                        setattr(parent, field, node)
                    else:
                        box[i] = node
                    if text is None or text in seen:
                        continue
                    seen.add(text)
                    k += 1
                    yield "%s:%d" % (path, k), path, text, ast.unparse(tree)


def checks(path):
    if path in CHECKS:
        return CHECKS[path]
    if path.startswith("filters/"):
        name = os.path.basename(path)[:-3]
        if name in ("__init__", "base_filter"):
            return ["C01", "C11", "C12", "C02", "C05", "C28"] + COMMON
        return [LAW.get(name, "C02")] + COMMON
    return ["C28", "C11", "C19", "C20"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-j", type=int, default=3)
    ap.add_argument("-p", default="2")
    ap.add_argument("-b", default="4")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("regex", nargs="?", default="")
    o = ap.parse_args()
    todo = [m for m in mutants() if re.search(o.regex, m[0])]
    print(len(todo), "mutants", flush=True)
    if o.list:
        return

    def one(m):
        name, path, text, was = m
        a, b = was.splitlines(), text.splitlines()
        first = next((i for i, (s, t) in enumerate(zip(a, b)) if s != t), min(len(a), len(b)) - 1)
        what = "%s  ->  %s" % (a[first].strip(), b[first].strip())
        d = tempfile.mkdtemp(prefix="mut-")
        try:
            shutil.copytree(ROOT, d + "/padasip", ignore=shutil.ignore_patterns("__pycache__"))
            with open(d + "/padasip/" + path, "w") as f:
                f.write(text)
            env = dict(os.environ, RV_REPO=d, RV_PROCS=o.p, RV_BUDGET_S=o.b, VERIF_SEED="1", RV_ROUNDS="1")
            if subprocess.run(["/opt/venv/bin/python", "-B", "-W", "ignore", "-c", "import padasip.filters.rls"], cwd=d, env=dict(env, PYTHONPATH=d), capture_output=True).returncode:
                return "import  %s %s" % (name, what)
            out = []
            for c in checks(path):
                try:
                    r = subprocess.run(["./check", c], cwd=VERIF, env=env, capture_output=True, text=True, timeout=200)
                except subprocess.TimeoutExpired:
                    out.append(c + " timeout")
                    continue
                if r.returncode == 1:
                    return "caught  %s %s %s" % (name, c, what)
                if r.returncode == 3:
                    return "error   %s %s %s | %s" % (name, c, what, (r.stdout + r.stderr)[-150:])
            return "SURVIVED %s %s %s" % (name, what, out or "")
        finally:
            shutil.rmtree(d, ignore_errors=True)
    with ThreadPoolExecutor(o.j) as ex:
        for line in ex.map(one, todo):
            print(line, flush=True)


if __name__ == "__main__":
    main()
