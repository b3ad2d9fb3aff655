"""C01: stepping keeps cell states valid, pure, deterministic; clock bookkeeping."""
import numpy as np
import torch
from hypothesis import strategies as st

import gen
from harness import Facet, expect

RULE = ("random CA class, channels, kernels, update functions, precision, padding, grid and a "
        "history of steps/resets/replays; non-trivial when a step changed the grid")
ASSUMPTIONS = ["grids are at least kernel radius + 1 cells in each dimension",
               "update-function widths are at least 0.01"]


@st.composite
def histories(draw, **kw):
    case = draw(gen.ca_and_grid(dtypes=("f32", "f32", "f64", "f16"), high=14, **kw))
    case["ops"] = draw(st.lists(st.sampled_from(
        ["step", "step", "step", "repeat", "reset", "other", "dt"]), min_size=1, max_size=6))
    case["dts"] = draw(st.lists(gen.num(0.01, 1.0), min_size=6, max_size=6))
    return case


def clock(ca):
    return float(ca.t_count)


def valid(new, grid, what):
    expect(isinstance(new, torch.Tensor), f"{what}: did not return a tensor")
    expect(new.shape == grid.shape, f"{what}: shape {tuple(grid.shape)} became {tuple(new.shape)}")
    expect(new.dtype == grid.dtype, f"{what}: dtype {grid.dtype} became {new.dtype}")
    expect(bool(torch.isfinite(new).all()), f"{what}: non-finite cells")
    expect(float(new.min()) >= 0.0 and float(new.max()) <= 1.0,
           f"{what}: cells outside [0, 1]: {float(new.min())} .. {float(new.max())}")


def history(case, rec):
    ca = gen.make_ca(case)
    momentum = case["cls"] == "MetaCA"
    random_step = case["cls"] == "RandomStepCA"
    ca.reset()
    if not momentum:
        expect(clock(ca) == 0.0, "clock is not zero after reset")
    grid = gen.to_grid(case["grid"], case["dtype"])
    elapsed, moved = 0.0, False
    rec.label(case["cls"], case["dtype"], f"E{case['E']}I{case['I']}", case["pad"])

    def step(g, what):
        nonlocal elapsed
        before = g.clone()
        with torch.no_grad():
            new = ca(g)
        valid(new, g, what)
        expect(torch.equal(g, before), f"{what}: the given grid was modified")
        expect(new.data_ptr() != g.data_ptr(), f"{what}: returned the given grid itself")
        if not momentum:
            elapsed += ca.get_dt()
            expect(abs(clock(ca) - elapsed) <= 1e-5 * (1 + elapsed),
                   f"{what}: clock {clock(ca)} after steps adding up to {elapsed}")
        return new

    for n, op in enumerate(case["ops"]):
        what = f"op {n} ({op}) of {case['cls']}"
        if op == "step":
            new = step(grid, what)
            moved = moved or not torch.equal(new, grid)
            grid = new
        elif op == "repeat":
            if momentum:
                ca.reset()
            prev = getattr(ca, "prev_dt", None)
            np.random.seed(n)
            one = step(grid, what)
            if momentum:
                ca.reset()
            if case["cls"] == "CODE":
                ca.prev_dt = prev
            np.random.seed(n)
            keep = one.clone()
            two = step(grid, what)
            expect(torch.equal(one, two), f"{what}: the same step from the same grid differs")
            expect(torch.equal(one, keep), f"{what}: a step changed an earlier result")
            moved = moved or not torch.equal(one, grid)
        elif op == "other":
            # a grid of another shape in between
            other = torch.rand(1, case["E"], grid.shape[2] + 1, grid.shape[3] + 2).to(grid.dtype)
            step(other, what)
        elif op == "reset":
            ca.reset()
            elapsed = 0.0
            if not momentum:
                expect(clock(ca) == 0.0, "clock is not zero after reset")
        elif op == "dt" and case["cls"] not in ("CODE", "RandomStepCA"):
            ca.set_dt(case["dts"][n])
            expect(abs(ca.get_dt() - case["dts"][n]) < 1e-6, "set_dt not reported by get_dt")
    if not moved:
        rec.mark_trivial()


FACETS = [
    Facet("functional", histories(classes=["CCA", "Lenia"]), history, 150, 3000),
    Facet("adaptive", histories(classes=["CODE", "RandomStepCA"]), history, 80, 1500),
    Facet("momentum", histories(classes=["MetaCA"]), history, 60, 1200),
    Facet("neural", histories(classes=["NCA"]), history, 120, 2500),
    Facet("reaction", histories(classes=["RxnDfn"]), history, 80, 1500),
]
