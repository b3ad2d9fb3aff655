"""C13: Gray-Scott step and equilibrium."""
import numpy as np
import torch
from hypothesis import strategies as st

import gen
from harness import Facet, expect

RULE = ("random rates, kernels, spatial and time steps, and grids, over histories of steps and "
        "setters; non-trivial when the grid moves (step) or the background is non-zero (equilibrium)")
ASSUMPTIONS = ["f + k strictly below sqrt(f)/2 for the equilibrium background"]


def steps(case, rec):
    ca = gen.make_ca(case)
    if case["how"] == "vector":
        other = dict(case, **{k: v for k, v in case["other"].items() if k in ("du", "dv", "f", "k")})
        ca = gen.make_ca(other)
        ca.set_params(gen.vector(case))
    elif case["how"] == "setters":
        # the identity kernel is only set by a configuration
        ca = gen.make_ca(dict(case, **dict(case["other"], ident=case.get("ident"))))
        ca.set_params(gen.vector(dict(case, du=1e-5, dv=1e-5)))
        ca.set_dt(case["dt"])
        ca.set_dx(case["dx"])
        ca.set_kernel_config(gen.to_kernel(case["nbhd"][0]))
        ca.set_diffusion_u(case["du"])
        ca.set_diffusion_v(case["dv"])
    model = gen.make_model(case)
    grid = gen.to_grid(case["grid"], case["dtype"])
    moved = False
    for n in range(case["steps"]):
        moved = gen.check_step(ca, case, grid, f"step {n} of RxnDfn", model) or moved
        with torch.no_grad():
            grid = ca(grid)
    rec.label(case["how"], case["grid"]["kind"], f"r{case['nbhd'][0]['radius']}")
    if not moved:
        rec.mark_trivial()


def equilibrium(case, rec):
    ca = gen.make_ca(case)
    f, k = case["f"], case["k"]
    if case["how"] == "vector":
        ca.set_params(gen.vector(case))
    elif case["how"] == "default":
        from yuca.ca.reaction_diffusion import RxnDfn
        ca = RxnDfn()
        f, k = 0.0620, 0.0609
    dim = case["dim"][0] if case["square"] else list(case["dim"])
    h, w = (dim, dim) if case["square"] else dim
    grid = ca.initialize_grid(batch_size=case["batch"], dim=tuple(dim) if case["tuple"] and not case["square"] else dim)
    expect(tuple(grid.shape) == (case["batch"], 2, h, w),
           f"initialize_grid made shape {tuple(grid.shape)} for batch {case['batch']}, dim {dim}")
    g = gen.arr(grid)
    a = np.sqrt(f) / (f + k)
    root = np.sqrt(a * a - 4)
    u, v = (a - root) / (2 * a), np.sqrt(f) * (a + root) / 2
    tol = 3e-4 if case["dtype"] == "f32" else 1e-7
    expect(np.abs(g[:, 0] - u).max() <= tol and np.abs(g[:, 1] - v).max() <= tol,
           f"initial grid is ({g[0, 0, 0, 0]:.5g}, {g[0, 1, 0, 0]:.5g}), equilibrium is ({u:.5g}, {v:.5g})")
    expect(np.ptp(g[:, 0]) == 0 and np.ptp(g[:, 1]) == 0, "initial grid is not uniform")
    # fixed point of the dynamics (independent of the closed form)
    expect(abs(-u * v * v + f * (1 - u)) < 1e-9 and abs(u * v * v - (f + k) * v) < 1e-9, "oracle")
    with torch.no_grad():
        new = gen.arr(ca(grid))
    expect(np.abs(new - g).max() <= (1e-4 if case["dtype"] == "f32" else 1e-7),
           f"a step moves the equilibrium by {np.abs(new - g).max():.3g}")
    rec.label(case["how"], case["dtype"], "square" if case["square"] else "rectangular")


def trivial(case, rec):
    ca = gen.make_ca(case)
    grid = torch.zeros(case["batch"], 2, *case["dim"]).to(gen.DTYPES()[case["dtype"]])
    grid[:, 0] = 1.0
    for n in range(case["steps"]):
        with torch.no_grad():
            new = ca(grid)
        expect(np.abs(gen.arr(new) - gen.arr(grid)).max() <= 2e-6 * max(
            1, case["du"] / case["dx"] ** 2), "u=1, v=0 is not a fixed point")
        grid = new


@st.composite
def stepping(draw):
    case = draw(gen.ca_and_grid(classes=["RxnDfn"]))
    case["how"] = draw(st.sampled_from(["config", "vector", "setters"]))
    case["other"] = {k: v for k, v in draw(gen.gray_scott()).items()}
    case["steps"] = draw(st.integers(1, 4))
    return case


@st.composite
def sized(draw, **extra):
    case = draw(gen.ca_spec(classes=["RxnDfn"]))
    low = gen.min_dim(case)
    case.update(batch=draw(st.integers(1, 4)), square=draw(st.booleans()), tuple=draw(st.booleans()),
                dim=[draw(st.integers(max(2, low), 24)), draw(st.integers(max(2, low), 24))],
                how=draw(st.sampled_from(["config", "config", "vector", "default"])),
                steps=draw(st.integers(1, 3)))
    if case["how"] == "default":
        case["dtype"] = "f32"
    return case


FACETS = [
    Facet("steps", stepping(), steps, 350, 8000),
    Facet("equilibrium", sized(), equilibrium, 300, 6000),
    Facet("trivial", sized(), trivial, 80, 1000),
]
