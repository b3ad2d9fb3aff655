"""C12: neural CA step against an explicit per-cell network."""
import numpy as np
import torch
from hypothesis import strategies as st

import gen
from harness import Facet, expect

RULE = ("random channels, hidden width, activation, weights, kernels, padding, precision and grid; "
        "non-trivial when the reference step moves the grid by more than 1e-4")
ASSUMPTIONS = ["internal and external channel counts are equal (as the class requires)"]


def steps(case, rec):
    ca = gen.make_ca(case)
    if case["how"] == "vector":            # the same rule by its parameter vector
        ca = gen.make_ca(dict(case, wseed=case["wseed"] + 1))
        ca.set_params(gen.nca_vector(case))
        ca.eval()
    model = gen.make_model(case)
    grid = gen.to_grid(case["grid"], case["dtype"])
    moved = False
    for n in range(case["steps"]):
        moved = gen.check_step(ca, case, grid, f"step {n} of NCA ({case['act']})", model) or moved
        with torch.no_grad():
            grid = ca(grid)
    rec.label(case["act"], case["pad"], f"E{case['E']}", case["how"])
    if not moved:
        rec.mark_trivial()


def dropout(case, rec):
    """evaluation mode: no dropout, whatever its rate; repeated steps agree"""
    gen.set_dtype(case)
    made = []
    for rate in (0.0, case["rate"]):
        ca = gen.classes()["NCA"](dropout_rate=rate, **gen.instant_kwargs(case))
        ca.load_config(gen.to_config(case))
        ca.eval()
        ca.no_grad()
        made.append(ca)
    grid = gen.to_grid(case["grid"], case["dtype"])
    moved = gen.same_step(made[0], made[1], grid, "dropout rates in evaluation mode")
    with torch.no_grad():
        torch.manual_seed(1)
        a = made[1](grid)
        torch.manual_seed(2)
        b = made[1](grid)
    expect(torch.equal(a, b), "evaluation step depends on the random state")
    if not moved:
        rec.mark_trivial()


def percell(case, rec):
    """where identity and neighborhood values agree, the new values agree (one network
    for all cells): a grid of period two in both directions steps periodically"""
    ca = gen.make_ca(dict(case, pad="circular"))
    rng = np.random.RandomState(case["wseed"] + 3)
    tile = rng.rand(case["batch"], case["E"], 2, 2)
    grid = torch.tensor(np.tile(tile, (1, 1, case["h"], case["w"]))).to(gen.DTYPES()[case["dtype"]])
    with torch.no_grad():
        new = gen.arr(ca(grid))
    expect(np.abs(new - np.tile(new[:, :, :2, :2], (1, 1, case["h"], case["w"]))).max() < 1e-4,
           "cells with equal neighborhoods get different new values")
    if np.abs(new - gen.arr(grid)).max() < 1e-4:
        rec.mark_trivial()


@st.composite
def neural(draw):
    case = draw(gen.ca_and_grid(classes=["NCA"]))
    case["how"] = draw(st.sampled_from(["config", "vector"]))
    case["steps"] = draw(st.integers(1, 3))
    return case


@st.composite
def dropping(draw):
    return dict(draw(gen.ca_and_grid(classes=["NCA"], high=10)), rate=draw(gen.num(0.1, 0.9)))


@st.composite
def periodic(draw):
    case = draw(gen.ca_spec(classes=["NCA"], radii=st.integers(1, 3), ident=False, dtypes=("f64",)))
    case["h"], case["w"] = draw(st.integers(4, 6)), draw(st.integers(4, 6))
    case["batch"] = draw(st.integers(1, 2))
    case["wscale"] = min(case["wscale"], 1.0)
    return case


FACETS = [
    Facet("steps", neural(), steps, 350, 8000),
    Facet("dropout", dropping(), dropout, 120, 2000),
    Facet("percell", periodic(), percell, 120, 2000),
]
