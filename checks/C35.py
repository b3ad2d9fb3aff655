"""C35: the figures of an evolution log against the log."""
import copy
import os
import sys
import runpy

import numpy as np
import torch
from hypothesis import strategies as st

import gen
import ref
from harness import Facet, expect

RULE = ("random logs: elite configurations of several generations, fitness series; non-trivial with at least two "
        "generations whose elites differ")
ASSUMPTIONS = ["logs of one-channel functional CAs (the curves of an update rule have no meaning for a neural CA)"]


def near(a, b, tol=1e-5):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool((np.abs(a - b) <= tol * (1 + np.abs(b))).all())


def plots(case, rec):
    import matplotlib.pyplot as plt
    from yuca.plot import plot_exp
    gen.set_dtype(case["elites"][0][0])
    plt.close("all")
    rng = np.random.RandomState(case["seed"])
    n = len(case["elites"])
    mean, spread = rng.randn(n), rng.rand(n)
    log = {"elite_configs": [[gen.to_config(c) for c in generation] for generation in case["elites"]],
           "mean_fitness": list(mean), "max_fitness": list(mean + 2 * rng.rand(n) + 0.1),
           "min_fitness": list(mean - 2 * rng.rand(n) - 0.2), "std_dev_fitness": list(spread),
           "elite_params": [rng.rand(len(g), 4) for g in case["elites"]]}
    path = os.path.join(os.getcwd(), "my log.npy")
    np.save(path, log)
    stamp = open(path, "rb").read()
    shown = []
    real = plt.show
    plt.show = lambda *a, **k: shown.append(1)
    try:
        if case["cli"]:
            argv = sys.argv
            sys.argv = ["plot.py", case["flags"][0], path, case["flags"][1], str(case["show"])]
            try:
                runpy.run_module("yuca.plot", run_name="__main__", alter_sys=False)
            finally:
                sys.argv = argv
        else:
            plot_exp(input_filepath=path, show=case["show"])
        figures = [plt.figure(k) for k in plt.get_fignums()]
        judge(case, log, figures)
    finally:
        plt.show = real
        plt.close("all")
    expect(len(shown) == case["show"], f"shown {len(shown)} times, asked for {case['show']}")
    expect(open(path, "rb").read() == stamp, "the log was changed")
    os.remove(path)
    rec.label(f"{n} generations", f"{len(case['elites'][-1])} elites", "cli" if case["cli"] else "call")
    if n < 2 or gen.equal(log["elite_configs"][0], log["elite_configs"][-1]):
        rec.mark_trivial()


def judge(case, log, figures):
    rules, fitness = [], []
    for fig in figures:
        for ax in fig.axes:
            lines = {}
            for line in ax.get_lines():
                lines.setdefault(line.get_label(), []).append(np.asarray(line.get_xydata(), float))
            if any("fn" in name for name in lines):
                rules.append(lines)
            elif lines:
                fitness.append((ax, [xy for group in lines.values() for xy in group]))
    last = case["elites"][-1]
    expect(len(rules) == len(last), f"{len(rules)} figures of update rules for {len(last)} final elites")
    for k, (lines, c) in enumerate(zip(rules, last)):
        for word, f in (("genesis", c["gen"][0]), ("persistence", c["per"][0])):
            drawn = [xy for name, group in lines.items() if word in name for xy in group]
            expect(len(drawn) == 1, f"elite {k}: {len(drawn)} {word} curves")
            x, y = drawn[0][:, 0], drawn[0][:, 1]
            expect(len(x) >= 50 and x.min() <= 0 and x.max() >= 1 and (np.diff(x) > 0).all(),
                   f"elite {k}: the {word} curve does not span neighborhoods from 0 to 1")
            want = ref.function(f, x)
            slope = np.abs(np.gradient(want, x)).max() if len(x) > 1 else 0
            tol = 2e-5 + 1e-6 * slope
            expect(bool((np.abs(y - want) <= tol * (1 + np.abs(want))).all()),
                   f"elite {k}: the {word} curve is off by {np.abs(y - want).max():.3g}")
    expect(len(fitness) == 1, f"{len(fitness)} fitness figures")
    ax, curves = fitness[0]
    n = len(case["elites"])
    for key in ("mean_fitness", "max_fitness", "min_fitness"):
        hit = [xy for xy in curves if near(xy[:, 1], log[key], 1e-9) and near(xy[:, 0], np.arange(n), 1e-9)]
        expect(len(hit) == 1, f"{len(hit)} curves show the {key} of the log")
    expect(len(curves) == 3, f"{len(curves)} curves in the fitness figure")
    expect(len(ax.collections) == 1, "one band of the spread is expected")
    band = ax.collections[0].get_paths()[0].vertices
    mean, spread = np.array(log["mean_fitness"]), np.array(log["std_dev_fitness"])
    for g in range(n):
        ys = band[np.abs(band[:, 0] - g) < 1e-9][:, 1]
        expect(len(ys) and abs(ys.min() - (mean[g] - spread[g])) < 1e-6 and abs(ys.max() - (mean[g] + spread[g])) < 1e-6,
               f"the band of generation {g} is not mean +- spread")


def missing(case, rec):
    """a log that is not there is reported, nothing is drawn"""
    import matplotlib.pyplot as plt
    from yuca.plot import plot_exp
    plt.close("all")
    try:
        plot_exp(input_filepath=os.path.join(os.getcwd(), case["name"] + ".npy"), show=0)
    except (AssertionError, OSError):
        pass
    else:
        expect(False, "a missing log was plotted")
    expect(not plt.get_fignums(), "something was drawn for a missing log")


@st.composite
def logs(draw):
    kw = dict(classes=["CCA"], channels=(1,), internals=(1,), radii=st.integers(1, 3),
              dtypes=(draw(st.sampled_from(["f32", "f64"])),))
    count = draw(st.integers(1, 3))
    pool = [[gen.single(draw(gen.ca_spec(**kw))) for _ in range(count)] for _ in range(draw(st.integers(1, 3)))]
    return {"elites": pool, "seed": draw(gen.seeds), "cli": draw(st.integers(0, 3)) == 0,
            "show": draw(st.integers(0, 1)),
            "flags": draw(st.sampled_from([["-i", "-s"], ["--input_filepath", "--show"]]))}


FACETS = [
    Facet("log", logs(), plots, 25, 400),
    Facet("missing", st.fixed_dictionaries({"name": st.sampled_from(["a", "none", "x y"])}), missing, 3, 6),
]
