"""C15: step-size control of the adaptive CA against a reference controller."""
import numpy as np
import torch
from hypothesis import strategies as st

import gen
from harness import Facet, expect

RULE = ("random rule, grid, step-size limits, error threshold and histories of up to five steps with "
        "resets and setters; non-trivial when the reference decides the step size (no candidate "
        "within rounding of the threshold) and the grid moves")
QUICK_FACTOR = 3
ASSUMPTIONS = ["twice the previous step is at least the minimum step",
               "decided in double precision; a step size whose error is within 1e-9 relative of the "
               "threshold, or whose active cells are decided by rounding, is not judged"]
T = 1e-9


def relative_error(model, case, grid, s):
    """(lower, upper) bound of the largest relative difference of one step and two half steps"""
    def raw(g, dt):
        h, n, k = model.parts(g)
        return h + dt * model.update(n, k)
    big = np.clip(raw(grid, s), 0, 1)
    half = np.clip(raw(grid, s / 2), 0, 1)
    if gen.near_threshold(case, half):
        return None
    pre = raw(half, s / 2)
    small = np.clip(pre, 0, 1)
    err = np.abs(big - small)
    sure = pre > T
    doubt = (np.abs(pre) <= T)
    if doubt.any() and (np.abs(pre[doubt]) > 0).any():
        return None
    if doubt.any():             # exactly zero here; there it might be off by rounding
        return None
    if not sure.any():
        return 0.0, 0.0
    ratio = err[sure] / small[sure]
    slack = T * (1 + ratio) / small[sure] + T
    return float((ratio - slack).max()), float((ratio + slack).max())


def choose(model, case, grid, prev, lim):
    """(step size or None if undecided, all candidates)"""
    s = min(2 * prev, lim["max_dt"])
    candidates, decided, undecided = [], None, False
    while s >= lim["min_dt"] * (1 - 1e-12):
        if abs(s - lim["min_dt"]) <= 1e-9 * s:
            undecided = True
        candidates.append(s)
        if decided is None and not undecided:
            bounds = relative_error(model, case, grid, s)
            if bounds is None:
                undecided = True
            elif bounds[1] < lim["error_threshold"]:
                decided = s
                break
            elif bounds[0] < lim["error_threshold"]:
                undecided = True
        s = s * 0.75
    candidates.append(lim["min_dt"])
    if decided is None and not undecided:
        decided = lim["min_dt"]
    return (None if undecided else decided), candidates


def history(case, rec):
    ca = gen.make_ca(case)
    model = gen.make_model(case)
    lim = case["code"]
    prev = lim["prev_dt"]
    ca.reset()
    clock = 0.0
    grid = gen.to_grid(case["grid"], "f64")
    judged = moved = 0
    for n, op in enumerate(case["ops"]):
        if op == "reset":
            ca.reset()
            clock, prev = 0.0, lim["prev_dt"]
            continue
        if op == "grid":
            grid = gen.to_grid(dict(case["grid"], seed=case["grid"]["seed"] + n + 1), "f64")
        g = gen.arr(grid)
        if gen.near_threshold(case, g):
            return rec.mark_trivial()
        with torch.no_grad():
            new = ca(grid)
        dt = ca.get_dt()
        want, candidates = choose(model, case, g, prev, lim)
        expect(lim["min_dt"] <= dt * (1 + 1e-9) and dt <= lim["max_dt"] * (1 + 1e-9),
               f"step {n}: step size {dt} outside [{lim['min_dt']}, {lim['max_dt']}]")
        expect(min(abs(dt - c) for c in candidates) <= 1e-9,
               f"step {n}: step size {dt} is none of the candidates from previous step {prev}")
        if want is not None:
            judged += 1
            expect(abs(dt - want) <= 1e-9 * want,
                   f"step {n}: chose {dt}, the largest acceptable candidate is {want} "
                   f"(previous {prev}, limits {lim})")
            rec.label("minimum" if want == lim["min_dt"] else
                      "first" if want == candidates[0] else "reduced")
        exact, tol = model.step_tol(g, 1e-12, 1e-9, dt=dt)
        expect(gen.worst(gen.arr(new), exact, tol) <= 0,
               f"step {n}: the grid is not the plain step of size {dt}")
        clock += dt
        expect(abs(float(ca.t_count) - clock) < 1e-9, f"step {n}: clock {float(ca.t_count)} instead of {clock}")
        moved += bool(np.abs(exact - g).max() > 1e-6)
        prev, grid = dt, new
    if not (judged and moved):
        rec.mark_trivial()


@st.composite
def histories(draw, **kw):
    case = draw(gen.ca_and_grid(classes=["CODE"], dtypes=("f64",), high=12, **kw))
    case["code"]["error_threshold"] = draw(st.sampled_from([1e-4, 1e-3, 1e-2, 0.05, 0.1, 0.3, 0.6]))
    case["ops"] = draw(st.lists(st.sampled_from(["step", "step", "step", "grid", "reset"]),
                                min_size=1, max_size=6))
    return case


smooth = ["Gaussian", "GaussianMixture", "DoubleGaussian", "SmoothIntervals"]

FACETS = [
    Facet("single", histories(channels=(1,), internals=(1, 1, 2), functions=smooth), history, 250, 6000),
    Facet("channels", histories(channels=(1, 2, 3, 4, 5)), history, 150, 3000),
    Facet("sparse", histories(channels=(1, 1, 4), kinds=["sparse", "blob", "binary"],
                              functions=smooth), history, 150, 3000),
]
