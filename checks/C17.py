"""C17: momentum CA against a reference with an explicit rate grid."""
import numpy as np
import torch
from hypothesis import strategies as st

import gen
from harness import Facet, expect

RULE = ("random rules and histories of steps, resets, grids of other shapes, other grids of the same "
        "shape and step-size changes; non-trivial when at least two steps follow each other and the "
        "grid moves")
ASSUMPTIONS = []
DDT = 0.25


def history(case, rec):
    ca = gen.make_ca(case)
    model = gen.make_model(case)
    ca.reset()
    dtype = case["dtype"]
    delta, base = gen.DELTA[dtype] * max(1, case["E"]), gen.BASE[dtype]
    grid = gen.to_grid(case["grid"], dtype)
    rate = slack = None
    dt, run, longest, moved = case["dt"], 0, 0, False
    for n, op in enumerate(case["ops"]):
        if op == "reset":
            ca.reset()
            rate, run = None, 0
            continue
        if op == "dt":
            dt = case["dts"][n]
            ca.set_dt(dt)
            continue
        if op == "fresh":
            grid = gen.to_grid(dict(case["grid"], seed=case["grid"]["seed"] + n + 1), dtype)
        elif op == "shape":
            shape = list(grid.shape)
            shape[case["axis"]] += 1
            grid = gen.to_grid(dict(case["grid"], shape=shape, seed=n), dtype)
        elif op == "turn":          # another shape with as many cells
            grid = grid.transpose(2, 3).contiguous()
        g = gen.arr(grid)
        if gen.near_threshold(case, g):
            return rec.mark_trivial()
        if rate is None or rate.shape != g.shape:
            rate, slack, run = np.zeros_like(g), np.zeros_like(g), 0
        masked, ident, nbhd = model.parts(g)
        _, tol = model.step_tol(g, delta, 0.0, dt=1.0)
        rate = rate + DDT * model.update(ident, nbhd)
        slack = slack + DDT * tol + 1e-6 * (dtype == "f32") * (1 + np.abs(rate))
        want = np.clip(masked + dt * rate, 0.0, 1.0)
        with torch.no_grad():
            grid = ca(grid)
        got = gen.arr(grid)
        expect(gen.worst(got, want, dt * slack + base) <= 0,
               f"op {n} ({op}), step {run} since the last reset: differs from the momentum rule by "
               f"{np.abs(got - want).max():.3g}")
        run += 1
        longest = max(longest, run)
        moved = moved or np.abs(want - g).max() > 1e-4
    rec.label(f"E{case['E']}I{case['I']}", f"run{longest}", case["pad"])
    if longest < 2 or not moved:
        rec.mark_trivial()


def forget(case, rec):
    """after reset, the trajectory is that of a fresh instance"""
    used, fresh = gen.make_ca(case), gen.make_ca(case)
    grid = gen.to_grid(case["grid"], case["dtype"])
    other = gen.to_grid(dict(case["grid"], seed=case["grid"]["seed"] + 1), case["dtype"])
    with torch.no_grad():
        for _ in range(case["steps"]):
            other = used(other)
        used.reset()
        a, b, moved = grid, grid, False
        for n in range(case["steps"]):
            a, b = used(a), fresh(b)
            expect(torch.equal(a, b), f"step {n} after reset differs from a fresh instance")
            moved = moved or not torch.equal(a, grid)
    if not moved:
        rec.mark_trivial()


@st.composite
def histories(draw):
    case = draw(gen.ca_and_grid(classes=["MetaCA"], high=12))
    case["ops"] = draw(st.lists(st.sampled_from(
        ["step", "step", "step", "step", "fresh", "reset", "shape", "turn", "dt"]), min_size=2, max_size=8))
    case["dts"] = draw(st.lists(gen.num(0.01, 1.0), min_size=8, max_size=8))
    case["axis"] = draw(st.sampled_from([0, 2, 3]))
    case["steps"] = draw(st.integers(1, 4))
    return case


FACETS = [
    Facet("history", histories(), history, 300, 6000),
    Facet("forget", histories(), forget, 120, 2000),
]
