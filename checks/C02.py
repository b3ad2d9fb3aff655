"""C02: the functional CA step against an independent float64 model."""
import numpy as np
import torch
from hypothesis import strategies as st

import gen
from harness import Facet, expect

RULE = ("random functional-CA configuration and grid; real step compared with a float64 numpy/scipy "
        "model; non-trivial when the model's step changes the grid")
ASSUMPTIONS = ["tolerance per cell: change of the model's update when convolutions move by 1.5e-6 "
               "(float32), 1e-12 (float64) or 2.5e-3 (float16), plus 2e-5 / 1e-9 / 4e-3",
               "kernels whose unnormalised range is nearly zero are not generated"]


def one_step(case, rec):
    ca = gen.make_ca(case)
    model = gen.make_model(case)
    grid = gen.to_grid(case["grid"], case["dtype"])
    g = gen.arr(grid)
    if gen.near_threshold(case, g):
        rec.mark_trivial()
        return
    want, tol = gen.step_tol(model, case, g)
    with torch.no_grad():
        got = gen.arr(ca(grid))
    excess = gen.worst(got, want, tol)
    expect(excess <= 0, f"step differs from the model by up to {np.abs(got - want).max():.3g}")
    if case["dtype"] != "f16":
        # the raw update, before clamping
        masked = torch.tensor(model.parts(g)[0]).to(grid.dtype)
        with torch.no_grad():
            upd = gen.arr(ca.update_helper(masked))
        mid = model.update(*model.parts(g)[1:])
        utol = (tol - gen.BASE[case["dtype"]]) / max(model.dt, 1e-9) + gen.BASE[case["dtype"]] * 2
        expect(gen.worst(upd, mid, utol * 2) <= 0,
               f"update differs from the model by up to {np.abs(upd - mid).max():.3g}")
    rec.label(case["dtype"], case["pad"], f"E{case['E']}I{case['I']}",
              *[k["name"] for k in case["nbhd"]], *[f["name"] for f in case["gen"]])
    if np.abs(want - g).max() < 1e-4:
        rec.mark_trivial()


def several_steps(case, rec):
    """a trajectory in float64: each step compared from the real previous state"""
    ca = gen.make_ca(case)
    model = gen.make_model(case)
    grid = gen.to_grid(case["grid"], case["dtype"])
    changed = False
    for n in range(case["steps"]):
        g = gen.arr(grid)
        if gen.near_threshold(case, g):
            return
        want, tol = gen.step_tol(model, case, g)
        with torch.no_grad():
            grid = ca(grid)
        expect(gen.worst(gen.arr(grid), want, tol) <= 0, f"step {n} differs from the model")
        changed = changed or np.abs(want - g).max() > 1e-4
    rec.label("steps%d" % case["steps"])
    if not changed:
        rec.mark_trivial()


def raw_kernel(spec, shape):
    rng = np.random.RandomState(spec["seed"])
    k = rng.rand(*shape)
    if spec["signed"]:
        k = k - 0.4
    if spec["sparse"]:
        k = k * (rng.rand(*shape) < 0.4)
    return k / max(np.abs(k).reshape(*shape[:-2], -1).sum(-1).max(), 1e-3)


def given_as(k, ndim, form):
    """one kernel (or a stack of them) in the accepted forms"""
    k = k.reshape(k.shape[-2:]) if ndim == 2 else k.reshape((1,) + k.shape[-2:]) if ndim == 3 else k
    if form == "list":
        return k.tolist()
    return torch.tensor(k).to(torch.get_default_dtype()) if form == "tensor" else k


def raw_kernels(case, rec):
    """any kernels of one's own, asymmetric ones included"""
    import ref
    ca = gen.make_ca(case)
    n = case["I"] if case["stack"] else 1
    size = 2 * case["raw"]["radius"] + 1
    nbhd = raw_kernel(case["raw"], (n, 1, size, size))
    ident = raw_kernel(dict(case["raw"], seed=case["raw"]["seed"] + 1), (1, 1, 3, 3)) if case["own_ident"] else None
    ndim = 4 if n > 1 else case["ndim"]
    given = given_as(nbhd, ndim, case["as"])
    keep = given.clone() if torch.is_tensor(given) else np.array(given)
    ca.add_neighborhood_kernel(given)
    ca.initialize_neighborhood_layer()
    if ident is not None:
        ca.add_identity_kernel(kernel=given_as(ident, case["ndim"], "tensor"))
        ca.initialize_id_layer()
        ca.no_grad()
    dt = torch.tensor(case["dt"]) if case["dt_tensor"] else case["dt"]
    ca.set_dt(dt)
    expect(abs(ca.get_dt() - case["dt"]) < 1e-6, f"step size {ca.get_dt()} after setting {case['dt']}")
    blank = ca.initialize_grid(batch_size=3, dim=[4, 7])
    expect(tuple(blank.shape) == (3, case["E"], 4, 7) and float(blank.abs().max()) == 0, "initial grid")
    expect(tuple(ca.initialize_grid(dim=5).shape) == (1, case["E"], 5, 5), "initial square grid")
    model = ref.Model([k[0] for k in nbhd], case["gen"], case["per"], dt=case["dt"],
                      ident=None if ident is None else [ident[0, 0]], external=case["E"], pad=case["pad"],
                      threshold=case.get("threshold", 0.1))
    grid = gen.to_grid(case["grid"], case["dtype"])
    for step in range(case["steps"]):
        g = gen.arr(grid)
        if gen.near_threshold(case, g):
            return rec.mark_trivial()
        want, tol = gen.step_tol(model, case, g)
        with torch.no_grad():
            grid = ca(grid)
        expect(gen.worst(gen.arr(grid), want, tol) <= 0,
               f"step {step} with own kernels ({ndim} dimensions, {case['as']}) differs from the model by up to "
               f"{np.abs(gen.arr(grid) - want).max():.3g}")
    expect(np.array_equal(gen.arr(keep), gen.arr(given)) if torch.is_tensor(given) else np.array_equal(keep, given),
           "the given kernel was changed")
    rec.label(f"{ndim}d {case['as']}", f"E{case['E']}I{case['I']}", "own identity" if ident is not None else "identity")
    if np.abs(want - g).max() < 1e-4:
        rec.mark_trivial()


def raws():
    base = gen.ca_and_grid(classes=["CCA"], dtypes=("f64", "f32"), ident=False)
    return st.tuples(base, st.fixed_dictionaries({
        "raw": st.fixed_dictionaries({"seed": gen.seeds, "radius": st.integers(0, 3), "signed": st.booleans(),
                                      "sparse": st.booleans()}),
        "stack": st.booleans(), "own_ident": st.booleans(), "ndim": st.integers(2, 4), "steps": st.integers(1, 3),
        "as": st.sampled_from(["tensor", "array", "list"]), "dt_tensor": st.booleans()})).map(
            lambda t: {**t[0], **t[1]}).filter(lambda c: c["raw"]["radius"] < min(c["grid"]["shape"][-2:]))


def traj(base):
    return st.tuples(base, st.integers(2, 6)).map(lambda t: dict(t[0], steps=t[1]))


FACETS = [
    Facet("single", gen.ca_and_grid(classes=["CCA"], channels=(1,), internals=(1,)), one_step, 250, 6000),
    Facet("channels", gen.ca_and_grid(classes=["CCA"], channels=(1, 2, 3, 4, 5)), one_step, 250, 5000),
    Facet("alpha", gen.ca_and_grid(classes=["CCA"], channels=(4, 5, 6), internals=(1, 4, 5, 8)),
          one_step, 150, 3000),
    Facet("raw_kernels", raws(), raw_kernels, 120, 2500),
    Facet("half", gen.ca_and_grid(classes=["CCA"], dtypes=("f16",)), one_step, 100, 2000),
    Facet("large", gen.ca_and_grid(classes=["CCA"], channels=(1, 2), radii=st.integers(6, 14), high=40),
          one_step, 60, 1500),
    Facet("trajectory", traj(gen.ca_and_grid(classes=["CCA"], dtypes=("f64", "f32"))), several_steps, 60, 1500),
]
