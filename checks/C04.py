"""C04: get_frame against stepping and against the model's neighborhood grid."""
import numpy as np
import torch
from hypothesis import strategies as st

import gen
import ref
from harness import Facet, expect

RULE = ("random universe, grid and mode; get_frame compared with the same instance's step and the "
        "model's convolution; non-trivial when the step changes the grid")
ASSUMPTIONS = ["float32 and float64 (half precision frames are not offered)"]


def frame(case, rec, ca=None):
    ca = ca or gen.make_ca(case)
    model = gen.make_model(case)
    grid = gen.to_grid(case["grid"], case["dtype"])
    g = gen.arr(grid)
    if gen.near_threshold(case, g):
        rec.mark_trivial()
        return
    tol = np.broadcast_to(gen.step_tol(model, case, g)[1], g.shape) + 0.0
    ca.reset()
    with torch.no_grad():
        for _ in range(case["before"]):
            ca(grid)
        clock, before = float(ca.t_count), grid.clone()
        out = ca.get_frame(grid, mode=case["mode"])
        expect(torch.equal(before, grid), "get_frame modified the grid it was given")
        expect(float(ca.t_count) == clock, "get_frame advanced the clock")
        if case["mode"] == 0:
            default = ca.get_frame(grid)
            expect(isinstance(default, torch.Tensor) and torch.equal(default, out),
                   "the default mode is not mode 0")
        nxt = ca(grid)
    mode = case["mode"]
    parts = (out,) if mode == 0 else tuple(out)
    expect(len(parts) == {0: 1, 1: 2, 2: 2, 3: 3, 4: 4}[mode], f"mode {mode} returned {len(parts)} grids")
    new = parts[0]
    expect(new.shape == grid.shape and new.dtype == grid.dtype, "frame of another shape or dtype")
    expect(gen.worst(gen.arr(new), gen.arr(nxt), tol) <= 0,
           f"frame differs from stepping by {np.abs(gen.arr(new) - gen.arr(nxt)).max():.3g}")
    masked = g if case["cls"] == "RxnDfn" else ref.alive(g, case.get("threshold", 0.1))
    nbhd = {1: 1, 3: 1, 4: 2}.get(mode)
    upd = {2: 1, 3: 2, 4: 3}.get(mode)
    if mode == 4:
        # the current grid, alive mask applied or not
        cur = gen.arr(parts[1])
        expect(min(np.abs(cur - masked).max(), np.abs(cur - g).max()) < 1e-6,
               "the returned current grid is neither the grid nor the masked grid")
    if nbhd is not None:
        want = ref.conv(masked, [ref.kernel(k) for k in case["nbhd"]], case["I"], case["pad"])
        got = gen.arr(parts[nbhd])
        expect(got.shape == want.shape, "neighborhood grid of another shape")
        expect(np.abs(got - want).max() < (2e-5 if case["dtype"] == "f32" else 1e-6),
               f"neighborhood grid differs from the convolution by {np.abs(got - want).max():.3g}")
    if upd is not None:
        want = np.clip(masked + case["dt"] * gen.arr(parts[upd]), 0, 1)
        expect(np.abs(want - gen.arr(new)).max() < 1e-5,
               "next grid is not clamp(current + dt * update)")
    rec.label(case["cls"], f"mode{mode}", f"E{case['E']}")
    if np.abs(gen.arr(nxt) - g).max() < 1e-5:
        rec.mark_trivial()


def case(**kw):
    return st.tuples(gen.ca_and_grid(**kw), st.integers(0, 4), st.integers(0, 2)).map(
        lambda t: dict(t[0], mode=t[1], before=t[2]))


@st.composite
def histories(draw, classes):
    """a universe changed by setters after it was configured"""
    case = gen.single(draw(gen.ca_spec(classes=classes, **gen.CONFIGURABLE)))
    case["ops"], now = [], case
    for _ in range(draw(st.integers(1, 4))):
        op = draw(gen.setter({k: v for k, v in now.items() if k != "ops"}))
        case["ops"].append(op)
        now = op["after"]
    case["grid"] = draw(gen.grid_spec(case["E"], low=5, high=10, batches=(1, 2)))
    case["modes"] = draw(st.lists(st.integers(0, 4), min_size=len(case["ops"]), max_size=len(case["ops"])))
    case["before"] = 0
    return case


def history(case, rec):
    ca = gen.make_ca(case)
    grid = gen.to_grid(case["grid"], case["dtype"])
    for op, mode in zip(case["ops"], case["modes"]):
        gen.apply_setter(ca, op, grid)
        frame(dict(op["after"], grid=case["grid"], mode=mode, before=0), rec, ca)
    rec.label(*[op["op"] for op in case["ops"]])


FACETS = [
    Facet("history", histories(["CCA", "CCA", "Lenia", "NCA", "RxnDfn"]), history, 200, 4000),
    Facet("functional", case(classes=["CCA", "Lenia"]), frame, 300, 6000),
    Facet("alpha", case(classes=["CCA", "Lenia", "NCA"], channels=(4, 5, 6)), frame, 150, 3000),
    Facet("neural", case(classes=["NCA"]), frame, 150, 3000),
    Facet("reaction", case(classes=["RxnDfn"]), frame, 100, 2000),
]
