"""C16: random-step CA."""
import numpy as np
import torch
from hypothesis import strategies as st

import gen
from harness import Facet, expect

RULE = ("random rules, grids, seeds and numbers of steps; non-trivial when a step moves the grid")
ASSUMPTIONS = ["'the same seed' means yuca.utils.seed_all"]
LO, HI = 0.05, 0.25


def trajectory(case, rec):
    from yuca.utils import seed_all
    model = gen.make_model(case)
    runs = []
    moved = False
    for repeat in range(2):
        ca = gen.make_ca(case)
        ca.reset()
        seed_all(case["rng"])
        grid, clock, sizes = gen.to_grid(case["grid"], case["dtype"]), 0.0, []
        for n in range(case["steps"]):
            g = gen.arr(grid)
            with torch.no_grad():
                new = ca(grid)
            dt = ca.get_dt()
            sizes.append(dt)
            expect(LO - 1e-9 <= dt <= HI + 1e-9, f"step size {dt} outside [{LO}, {HI}]")
            clock += dt
            expect(abs(float(ca.t_count) - clock) < 1e-6, f"clock {float(ca.t_count)} instead of {clock}")
            if repeat == 0 and not gen.near_threshold(case, g):
                delta, base = gen.DELTA[case["dtype"]] * max(1, case["E"]), gen.BASE[case["dtype"]]
                want, tol = model.step_tol(g, delta, base, dt=dt)
                expect(gen.worst(gen.arr(new), want, tol) <= 0,
                       f"step {n} is not the plain step of the reported size {dt}")
                moved = moved or np.abs(want - g).max() > 1e-4
            grid = new
        runs.append((sizes, gen.arr(grid)))
    expect(runs[0][0] == runs[1][0] and np.array_equal(runs[0][1], runs[1][1]),
           "the same seed gives another trajectory")
    if case["steps"] > 1:
        expect(len(set(runs[0][0])) > 1, f"{case['steps']} steps all of one size")
    rec.label(f"E{case['E']}", case["pad"])
    if not moved:
        rec.mark_trivial()


def spread(case, rec):
    """every tenth of the range is hit in 300 steps (chance of a miss below 1e-12)"""
    from yuca.utils import seed_all
    ca = gen.make_ca(case)
    seed_all(case["rng"])
    grid = gen.to_grid(case["grid"], case["dtype"])
    sizes = []
    for _ in range(300):
        with torch.no_grad():
            ca(grid)
        sizes.append(ca.get_dt())
    tenths = np.unique(np.clip(((np.array(sizes) - LO) / (HI - LO) * 10).astype(int), 0, 9))
    expect(len(tenths) == 10, f"300 step sizes hit only the tenths {list(tenths)} of the range")
    expect(abs(np.mean(sizes) - 0.15) < 0.03, f"mean step size {np.mean(sizes):.4f}")
    seed_all(case["rng"] + 1)
    with torch.no_grad():
        ca(grid)
    expect(ca.get_dt() != sizes[0], "another seed draws the same step size")


@st.composite
def cases(draw, small=False):
    kw = dict(channels=(1,), internals=(1,), high=6) if small else {}
    case = draw(gen.ca_and_grid(classes=["RandomStepCA"], **kw))
    case["rng"] = draw(st.integers(0, 100000))
    case["steps"] = draw(st.integers(1, 5))
    return case


FACETS = [
    Facet("trajectory", cases(), trajectory, 250, 5000),
    Facet("spread", cases(small=True), spread, 25, 300),
]
