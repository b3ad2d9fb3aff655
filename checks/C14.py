"""C14: Lenia steps by its growth function of the neighborhood alone."""
import numpy as np
import torch
from hypothesis import strategies as st

import gen
from harness import Facet, expect

RULE = ("random growth functions, kernels, channels and grids; non-trivial when a step moves the grid")
ASSUMPTIONS = []


def step(case, rec):
    ca = gen.make_ca(case)
    grid = gen.to_grid(case["grid"], case["dtype"])
    moved = False
    for n in range(case["steps"]):
        moved = gen.check_step(ca, case, grid, f"step {n} of Lenia") or moved
        with torch.no_grad():
            grid = ca(grid)
    rec.label(case["pad"], f"E{case['E']}I{case['I']}")
    if not moved:
        rec.mark_trivial()


def independent(case, rec):
    """persistence function and identity kernel do not matter"""
    a = gen.make_ca(case)
    other = dict(case, per=case["per2"], ident=case["ident2"])
    if not case["ident2"]:
        other.pop("ident")
    b = gen.make_ca(other)
    grid = gen.to_grid(case["grid"], case["dtype"])
    moved = gen.same_step(a, b, grid, "other persistence function and identity kernel",
                          1e-6 if case["dtype"] == "f32" else 1e-12)
    if not moved:
        rec.mark_trivial()


def functional(case, rec):
    """Lenia = functional CA with genesis = persistence (neighborhood = identity weights
    cancel: (1-n) G + n G = G)"""
    same = dict(case, per=case["gen"])
    a = gen.make_ca(dict(same, cls="Lenia"))
    b = gen.make_ca(dict(same, cls="CCA"))
    grid = gen.to_grid(case["grid"], case["dtype"])
    size = max(3.0 if f["name"] != "Polynomial" else 2 * sum(map(abs, f["coefficients"])) + 3
               for f in case["gen"])
    moved = gen.same_step(a, b, grid, "Lenia against the functional CA with one function",
                          (2e-5 if case["dtype"] == "f32" else 1e-9) * size)
    if not moved:
        rec.mark_trivial()


def params(case, rec):
    ca = gen.make_ca(case)
    v = np.asarray(ca.get_params(), float)
    want = gen.rule_vector(case, lenia=True)
    expect(v.shape == want.shape and np.allclose(v, want, rtol=1e-5, atol=1e-6),
           f"parameter vector {v} instead of {want}")
    new = gen.rule_vector(case["after"], lenia=True)
    ca.set_params(new)
    got = np.asarray(ca.get_params(), float)
    expect(got.shape == new.shape and np.allclose(got, new, rtol=1e-5, atol=1e-6),
           f"set_params({new}) then get_params: {got}")
    after = dict(case["after"], grid=case["grid"])
    moved = gen.check_step(ca, after, gen.to_grid(case["grid"], case["dtype"]), "step after set_params")
    if not moved or not len(new):
        rec.mark_trivial()


@st.composite
def cases(draw, pair=False):
    case = draw(gen.ca_and_grid(classes=["Lenia"]))
    case["steps"] = draw(st.integers(1, 3))
    if pair:
        case["per2"] = [draw(gen.function_spec()) for _ in range(case["I"])]
        case["ident2"] = draw(st.one_of(st.none(), gen.kernel_spec(
            names=["Gaussian", "MooreLike"], radii=st.integers(1, case["nbhd"][0]["radius"]))))
    case["after"] = {k: v for k, v in draw(gen.rewritten(case)).items() if k != "grid"}
    return case


@st.composite
def plain(draw):
    case = draw(cases())
    case.pop("ident", None)
    return case


FACETS = [
    Facet("step", cases(), step, 150, 3000),
    Facet("independent", cases(pair=True), independent, 120, 2500),
    Facet("functional", plain(), functional, 150, 3000),
    Facet("params", cases(), params, 150, 3000),
]
