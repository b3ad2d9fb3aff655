"""Helpers to run the evolution code with its files kept in the scratch directory."""
import contextlib
import glob
import os

import numpy as np

import harness


def modules():
    import yuca.cmaes
    import yuca.utils
    return yuca.cmaes, yuca.utils


@contextlib.contextmanager
def contained():
    """run with files of the repository tree redirected to the (scratch) cwd: modules
    derive their output folders from __file__.  Yields a function listing saved configs"""
    import yuca.cmaes
    import yuca.clone
    import yuca.step_predictor
    import yuca.utils
    root = os.getcwd()
    for sub in ("ca_configs", "logs", "models", "assets", "yuca"):
        os.makedirs(os.path.join(root, sub), exist_ok=True)
    mods = [yuca.cmaes, yuca.clone, yuca.step_predictor, yuca.utils]
    old = [m.__file__ for m in mods]
    repo_dirs = [os.path.join(harness.REPO, d) for d in ("ca_configs", "logs", "models")]
    before = {d: set(os.listdir(d)) if os.path.isdir(d) else None for d in repo_dirs}
    for m in mods:
        m.__file__ = os.path.join(root, "yuca", os.path.basename(m.__file__))

    def find(folder, part):
        hits = glob.glob(os.path.join(root, folder, "*")) \
            + glob.glob(os.path.join(harness.REPO, folder, "*"))
        return [h for h in hits if part in os.path.basename(h)]
    try:
        yield find
    finally:
        for m, f in zip(mods, old):
            m.__file__ = f
        for d in repo_dirs:         # should a file have gone there all the same
            if os.path.isdir(d):
                for name in set(os.listdir(d)) - (before[d] or set()):
                    if "verif" in name:
                        with contextlib.suppress(OSError):
                            os.remove(os.path.join(d, name))
        for sub in ("ca_configs", "logs", "models"):
            for f in glob.glob(os.path.join(root, sub, "*")):
                with contextlib.suppress(OSError):
                    os.remove(f)


@contextlib.contextmanager
def no_gifs(seen=None):
    """animations have their own property; seen(grid, ca, **options) is told of each"""
    import yuca.cmaes
    name = "save_fig_sequence"
    old = getattr(yuca.cmaes, name, None)
    if old is not None:
        setattr(yuca.cmaes, name, lambda *a, **k: seen(*a, **k) if seen else None)
    try:
        yield
    finally:
        if old is not None:
            setattr(yuca.cmaes, name, old)


def wrappers():
    from yuca.wrappers.halting_wrapper import SimpleHaltingWrapper, HaltingWrapper
    from yuca.wrappers.glider_wrapper import GliderWrapper
    return {"SimpleHaltingWrapper": SimpleHaltingWrapper, "HaltingWrapper": HaltingWrapper,
            "GliderWrapper": GliderWrapper}


def params(agent):
    return np.array(agent.get_params(), float)


def command(name, words, prepare=None):
    """run yuca/<name>.py as a command line, as if it lay in the scratch directory; prepare() sees its
    namespace between the definitions and the command itself"""
    import ast
    import sys
    source = os.path.join(harness.REPO, "yuca", name + ".py")
    with open(source) as f:
        tree = ast.parse(f.read())
    here = os.path.join(os.getcwd(), "yuca", name + ".py")
    ns = {"__name__": "__main__", "__file__": here, "__builtins__": __builtins__}
    body = tree.body
    tests = [n for n, node in enumerate(body) if isinstance(node, ast.If) and "__name__" in ast.dump(node.test)]
    cut = tests[0] if tests else len(body)
    old = sys.argv
    sys.argv = [name + ".py"] + list(words)
    try:
        exec(compile(ast.Module(body=body[:cut], type_ignores=[]), source, "exec"), ns)  # noqa: S102
        if prepare:
            prepare(ns)
        exec(compile(ast.Module(body=body[cut:], type_ignores=[]), source, "exec"), ns)  # noqa: S102
    except SystemExit as exc:
        raise harness.Violation(f"the command line {name} {list(words)} was refused") from exc
    finally:
        sys.argv = old
    return ns
