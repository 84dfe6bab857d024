#!/usr/bin/env python3
"""Systematic sensitivity test: one-place mutants of pymanopt vs. the checks.

    mutate.py OUT.jsonl WORKERS SEED LIMIT FILE...   (files relative to src/pymanopt)

For each mutant, in a scratch copy: run the relevant checks with a part of
their quick budget until one reports a violation; if none does, run the unit
tests.  Mutants that pass both are printed: they are behaviour that nothing
judges (or equivalent code), to be looked at by hand.
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
RUN = [("C12", 500), ("C16", 800), ("C04", 500), ("C14", 400), ("C15", 800),
       ("C03", 500), ("C07", 300), ("C13", 500), ("C05", 600), ("C11", 500),
       ("C01", 200), ("C02", 250), ("C08", 200), ("C06", 300), ("C09", 500)]
ORDER = {
    "optimizers/line_search.py": "C12 C16 C13 C04 C05 C01 C02 C08 C09",
    "optimizers/trust_regions.py": "C15 C04 C14 C03 C07 C13 C05 C01 C02 C08 C06 C09 C11",
    "optimizers/conjugate_gradient.py": "C16 C04 C14 C03 C07 C13 C05 C01 C02 C08 C06 C09 C11",
    "optimizers/steepest_descent.py": "C16 C04 C14 C03 C07 C13 C05 C01 C02 C08 C06 C09",
    "optimizers/nelder_mead.py": "C04 C14 C03 C07 C05 C01 C02 C08 C06 C09",
    "optimizers/particle_swarm.py": "C04 C14 C03 C07 C05 C01 C02 C08 C06 C09",
    "optimizers/optimizer.py": "C03 C04 C14 C07 C05 C01 C02 C08 C06 C09",
    "tools/printer.py": "C07 C08 C01",
    "core/problem.py": "C10 C16 C01 C02 C08 C09 C13 C15",
    "tools/__init__.py": "C10 C01 C09 C02",
}
COUNT = dict(RUN) | {"C10": 300}


def order(name):
    if name in ORDER:
        return ORDER[name].split()
    if name.startswith("autodiff"):
        return "C10 C01 C09 C02 C08".split()
    return "C11 C16 C13 C15 C02 C04 C01 C09 C06".split()


CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=",
       ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in",
       ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}


class Finder(ast.NodeVisitor):
    def __init__(self, text):
        self.text = text
        self.lines = text.splitlines(keepends=True)
        self.offsets = [0]
        for line in self.lines:
            self.offsets.append(self.offsets[-1] + len(line.encode()))
        self.raw = text.encode()
        self.out = []
        self.function = []

    def pos(self, node, end=False):
        if end:
            return self.offsets[node.end_lineno - 1] + node.end_col_offset
        return self.offsets[node.lineno - 1] + node.col_offset

    def seg(self, node):
        return self.raw[self.pos(node):self.pos(node, True)].decode()

    def replace(self, node, new, what):
        if not self.function:
            return
        self.out.append((self.pos(node), self.pos(node, True), new,
                         f"{'.'.join(self.function)}:{node.lineno} {what}: "
                         f"{self.seg(node)!r} -> {new!r}"[:200]))

    def visit_FunctionDef(self, node):
        self.function.append(node.name)
        body = node.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            body = body[1:]
        for default in node.args.defaults + [d for d in node.args.kw_defaults if d]:
            self.visit(default)
        for item in body:
            self.visit(item)
        self.function.pop()

    def visit_ClassDef(self, node):
        for item in node.body:
            if isinstance(item, ast.FunctionDef):
                self.visit(item)

    def visit_Raise(self, node):
        pass

    def visit_Compare(self, node):
        if len(node.ops) == 1:
            left, right = self.seg(node.left), self.seg(node.comparators[0])
            self.replace(node, f"({left} {CMP[type(node.ops[0])]} {right})", "cmp")
        self.generic_visit(node)

    def visit_BinOp(self, node):
        if type(node.op) in BIN:
            self.replace(node, f"({self.seg(node.left)} {BIN[type(node.op)]} {self.seg(node.right)})", "bin")
        self.generic_visit(node)

    def visit_BoolOp(self, node):
        op = "or" if isinstance(node.op, ast.And) else "and"
        self.replace(node, "(" + f" {op} ".join(f"({self.seg(v)})" for v in node.values) + ")", "bool")
        for i, v in enumerate(node.values):
            rest = [w for j, w in enumerate(node.values) if j != i]
            o = "and" if isinstance(node.op, ast.And) else "or"
            self.replace(node, "(" + f" {o} ".join(f"({self.seg(w)})" for w in rest) + ")", "drop")
        self.generic_visit(node)

    def visit_UnaryOp(self, node):
        if isinstance(node.op, (ast.Not, ast.USub)):
            self.replace(node, f"({self.seg(node.operand)})", "unary")
        self.generic_visit(node)

    def visit_Constant(self, node):
        if isinstance(node.value, bool):
            self.replace(node, repr(not node.value), "const")
        elif isinstance(node.value, int):
            self.replace(node, repr(node.value + 1), "const")
        elif isinstance(node.value, float):
            self.replace(node, repr(node.value * 2 or 1.0), "const")

    def visit_JoinedStr(self, node):
        pass

    def visit_If(self, node):
        self.replace(node.test, "True", "if")
        self.replace(node.test, "False", "if")
        self.generic_visit(node)

    def visit_While(self, node):
        self.generic_visit(node)

    def visit_Assign(self, node):
        if self.function:
            targets = node.targets[0]
            if isinstance(targets, ast.Attribute) or self.defined(node):
                self.replace(node, "pass", "del")
        self.generic_visit(node)

    def defined(self, node):
        return True

    def visit_AugAssign(self, node):
        self.replace(node, "pass", "del")
        self.generic_visit(node)

    def visit_Expr(self, node):
        self.replace(node, "pass", "del")
        self.generic_visit(node)

    def visit_Call(self, node):
        name = self.seg(node.func)
        if name in ("deepcopy", "copy.deepcopy", "abs", "float", "list", "tuple", "np.array") and len(node.args) == 1:
            self.replace(node, f"({self.seg(node.args[0])})", "call")
        if isinstance(node.func, ast.Attribute) and node.func.attr in ("copy", "detach", "clone") and not node.args:
            self.replace(node, f"({self.seg(node.func.value)})", "call")
        self.generic_visit(node)

    def visit_Return(self, node):
        if node.value is not None:
            self.generic_visit(node)


def mutants(name):
    text = open(f"/repo/src/pymanopt/{name}").read()
    finder = Finder(text)
    finder.visit(ast.parse(text))
    for a, b, new, what in finder.out:
        changed = finder.raw[:a] + new.encode() + finder.raw[b:]
        try:
            compile(changed, name, "exec")
        except SyntaxError:
            continue
        yield {"file": name, "what": what, "text": changed.decode()}


def judge(mutant, folder, per):
    repo = os.path.join(folder, "repo")
    path = os.path.join(repo, "src/pymanopt", mutant["file"])
    original = open(path).read()
    open(path, "w").write(mutant["text"])
    try:
        env = dict(os.environ, SIMKIT_REPO=repo, VERIF_SEED="7", SIMKIT_SCRATCH="1")
        for ident in order(mutant["file"]):
            try:
                proc = subprocess.run(
                    [f"{VERIF}/run.sh", "check", ident, f"count={COUNT[ident]}", "seed=7",
                     "shrink=0", f"workers={per}"], env=env, capture_output=True,
                    text=True, timeout=600)
            except subprocess.TimeoutExpired:
                return f"timeout {ident}"
            if proc.returncode == 1:
                return f"caught {ident}"
            if proc.returncode != 0:
                return f"error {ident}: {(proc.stdout + proc.stderr)[-300:]}"
        env = dict(os.environ, PYTHONPATH=os.path.join(repo, "src"))
        try:
            proc = subprocess.run(
                [PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-n", str(per),
                 "--timeout=300", "-W", "ignore", "--tb=line", "tests"],
                cwd=repo, env=env, capture_output=True, text=True, timeout=900)
        except subprocess.TimeoutExpired:
            return "tests time out"
        return "SURVIVES" if proc.returncode == 0 else "tests fail"
    finally:
        open(path, "w").write(original)


def main():
    out, workers, seed, limit = sys.argv[1], int(sys.argv[2]), sys.argv[3], int(sys.argv[4])
    todo = [m for name in sys.argv[5:] for m in mutants(name)]
    done = set()
    if os.path.exists(out):
        done = {(r["file"], r["what"]) for r in map(json.loads, open(out))}
    random.Random(f"mutate|{seed}").shuffle(todo)
    todo = [m for m in todo if (m["file"], m["what"]) not in done][:limit]
    print(len(todo), "mutants", flush=True)
    folders = []
    for _ in range(workers):
        folder = tempfile.mkdtemp(prefix="mutate-")
        shutil.copytree("/repo", os.path.join(folder, "repo"), symlinks=True,
                        ignore=shutil.ignore_patterns(".git"))
        folders.append(folder)
    free = list(folders)

    def work(mutant):
        folder = free.pop()
        try:
            result = judge(mutant, folder, 2)
        finally:
            free.append(folder)
        with open(out, "a") as stream:
            stream.write(json.dumps({"file": mutant["file"], "what": mutant["what"], "result": result}) + "\n")
        if not result.startswith("caught"):
            print(mutant["file"], mutant["what"], "|", result, flush=True)

    try:
        with ThreadPoolExecutor(workers) as pool:
            list(pool.map(work, todo))
    finally:
        for folder in folders:
            shutil.rmtree(folder, ignore_errors=True)


if __name__ == "__main__":
    main()
