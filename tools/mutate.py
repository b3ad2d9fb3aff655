"""Mutation campaign over a scratch copy of the repository: which single-point changes do the
checks not see?  Usage: mutate.py OUT.jsonl [--n N] [--seed S] [--workers W] [--files a,b]
Run it with the Python of the repository (it writes source files back with ast.unparse).
Never touches /repo; needs a scratch copy of /verif with .deps (made under --tmp)."""
import argparse
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import threading
import time

FILES = {
    "yuca/activations.py": "C06 C02 C07 C05",
    "yuca/analyze.py": "C26 C27",
    "yuca/ca/common.py": "C01 C03 C04 C10 C11 C08 C09 C02 C12",
    "yuca/ca/continuous.py": "C02 C01 C10 C09 C11 C08 C04 C03 C07 C25",
    "yuca/ca/neural.py": "C12 C01 C09 C10 C11 C08 C03 C30",
    "yuca/ca/reaction_diffusion.py": "C13 C01 C09 C10 C11 C08 C03 C04",
    "yuca/clone.py": "C30",
    "yuca/cmaes.py": "C18 C19 C20 C32",
    "yuca/code.py": "C15 C17 C01 C10 C09",
    "yuca/configs.py": "C07 C25 C09",
    "yuca/cppn.py": "C21 C08 C20",
    "yuca/evolve.py": "C32",
    "yuca/kernels.py": "C05 C02 C13 C03",
    "yuca/lenia.py": "C14 C01 C08 C09 C10",
    "yuca/metaca.py": "C17 C01 C10 C11 C03",
    "yuca/params_agent.py": "C08 C21 C18",
    "yuca/random_step_ca.py": "C16 C01 C10",
    "yuca/step_predictor.py": "C31",
    "yuca/utils.py": "C28 C29",
    "yuca/wrappers/glider_wrapper.py": "C22 C19 C20",
    "yuca/wrappers/halting_wrapper.py": "C23 C19",
    "yuca/zoo/librarian.py": "C24 C25",
}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div,
       ast.Mod: ast.Mult, ast.Pow: ast.Mult}


def sites(tree):
    """(path function list) as (description, mutate(node copy))"""
    out = []

    def walk(node, parents):
        if isinstance(node, ast.If) and "__main__" in ast.dump(node.test):
            return
        if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
            return
        if isinstance(node, ast.Call) and getattr(node.func, "id", "") in ("print",):
            return
        line = getattr(node, "lineno", 0)
        if isinstance(node, ast.Compare) and type(node.ops[0]) in CMP:
            out.append((line, "cmp", id(node)))
        if isinstance(node, (ast.BinOp, ast.AugAssign)) and type(node.op) in BIN:
            out.append((line, "bin", id(node)))
        if isinstance(node, ast.Constant) and isinstance(node.value, bool):
            out.append((line, "bool", id(node)))
        elif isinstance(node, ast.Constant) and isinstance(node.value, (int, float)):
            out.append((line, "const", id(node)))
            if isinstance(node.value, int):
                out.append((line, "const-", id(node)))
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub)):
            out.append((line, "unary", id(node)))
        if isinstance(node, ast.BoolOp):
            out.append((line, "boolop", id(node)))
        if isinstance(node, (ast.Assign, ast.AugAssign)) or (
                isinstance(node, ast.Expr) and isinstance(node.value, ast.Call)
                and getattr(node.value.func, "id", "") != "print"):
            if any(isinstance(p, ast.FunctionDef) for p in parents):
                out.append((line, "drop", id(node)))
        if isinstance(node, ast.If):
            out.append((line, "iftrue", id(node)))
            out.append((line, "iffalse", id(node)))
        if isinstance(node, ast.Call) and len(node.args) >= 2:
            out.append((line, "swap", id(node)))
        if isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice):
            out.append((line, "slice", id(node)))
        for child in ast.iter_child_nodes(node):
            walk(child, parents + [node])
    walk(tree, [])
    return out


def mutate(source, index):
    tree = ast.parse(source)
    all_sites = sites(tree)
    line, kind, target = all_sites[index]

    class T(ast.NodeTransformer):
        def visit(self, node):
            if id(node) != target:
                return self.generic_visit(node)
            if kind == "cmp":
                node.ops[0] = CMP[type(node.ops[0])]()
            elif kind == "bin":
                node.op = BIN[type(node.op)]()
            elif kind == "bool":
                node.value = not node.value
            elif kind == "const":
                node.value = node.value + 1 if isinstance(node.value, int) else (node.value * 1.1 or 0.1)
            elif kind == "const-":
                node.value = node.value - 1
            elif kind == "unary":
                return node.operand
            elif kind == "boolop":
                node.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
            elif kind == "drop":
                return ast.Pass()
            elif kind == "iftrue":
                node.test = ast.Constant(True)
            elif kind == "iffalse":
                node.test = ast.Constant(False)
            elif kind == "swap":
                node.args[0], node.args[1] = node.args[1], node.args[0]
            elif kind == "slice":
                node.slice = ast.Slice()
            return node
    before = ast.unparse(ast.parse(source))
    after = ast.unparse(ast.fix_missing_locations(T().visit(tree)))
    a, b = before.split("\n"), after.split("\n")
    diff = [x for x in zip(a, b) if x[0] != x[1]][:1]
    return line, kind, after, diff


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--n", type=int, default=100)
    ap.add_argument("--seed", type=int, default=0)
    ap.add_argument("--workers", type=int, default=3)
    ap.add_argument("--files", default="")
    ap.add_argument("--tmp", default="/tmp/w/mutation")
    ap.add_argument("--hours", type=float, default=3)
    args = ap.parse_args()
    rng = random.Random(args.seed)
    todo = []
    for f in FILES:
        if args.files and f not in args.files.split(","):
            continue
        src = open(os.path.join("/repo", f)).read()
        todo += [(f, i) for i in range(len(sites(ast.parse(src))))]
    rng.shuffle(todo)
    todo = todo[:args.n]
    os.makedirs(args.tmp, exist_ok=True)
    verif = os.path.join(args.tmp, "verif")
    if not os.path.isdir(verif):
        shutil.copytree("/verif", verif, ignore=shutil.ignore_patterns(".git", "seeded"))
    lock, end = threading.Lock(), time.time() + args.hours * 3600

    def work(w):
        repo = os.path.join(args.tmp, f"repo{w}")
        if not os.path.isdir(repo):
            shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns(".git"))
        mine = os.path.join(args.tmp, f"verif{w}")
        if not os.path.isdir(mine):
            shutil.copytree(verif, mine)
        while time.time() < end:
            with lock:
                if not todo:
                    return
                f, i = todo.pop()
            source = open(os.path.join("/repo", f)).read()
            try:
                line, kind, after, diff = mutate(source, i)
            except Exception as exc:  # noqa: BLE001
                print("cannot mutate", f, i, exc)
                continue
            if not diff:
                continue
            with open(os.path.join(repo, f), "w") as h:
                h.write(after)
            caught, t0, codes = None, time.time(), {}
            for prop in FILES[f].split():
                env = dict(os.environ, VERIF_REPO=repo, VERIF_SEED="1")
                try:
                    rc = subprocess.run([sys.executable, "run.py", prop], cwd=mine, env=env,
                                        stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                        timeout=900).returncode
                except subprocess.TimeoutExpired:
                    rc = "timeout"
                codes[prop] = rc
                if rc == 1:
                    caught = prop
                    break
            with open(os.path.join(repo, f), "w") as h:
                h.write(source)
            with lock, open(args.out, "a") as h:
                h.write(json.dumps({"file": f, "index": i, "line": line, "kind": kind, "diff": diff[0],
                                    "caught": caught, "codes": codes, "s": round(time.time() - t0)}) + "\n")
    threads = [threading.Thread(target=work, args=(w,)) for w in range(args.workers)]
    for t in threads:
        t.start()
    for t in threads:
        t.join()


if __name__ == "__main__":
    main()
