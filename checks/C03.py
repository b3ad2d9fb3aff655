"""C03: translation, reflection/rotation, batch and locality relations of a step."""
import numpy as np
import torch
from hypothesis import strategies as st

import gen
from harness import Facet, expect

RULE = ("random universe and grid; the real step is compared with the real step of a transformed "
        "grid; non-trivial when the step changes the grid and the transformation changes it too")
ASSUMPTIONS = ["kernels are radially symmetric", "tolerance from the float64 model as in C02"]
CLASSES = ["CCA", "Lenia", "NCA", "RxnDfn", "MetaCA"]


def step(ca, grid):
    if hasattr(ca, "dgrid"):
        ca.reset()
    with torch.no_grad():
        return ca(grid)


def tolerance(case, g):
    model = gen.make_model(case)
    tol = gen.step_tol(model, case, g)[1]
    return 2 * tol if case["cls"] != "MetaCA" else 3 * tol


def states(case, ca, grid):
    """grids along a real trajectory"""
    for _ in range(case.get("warmup", 0)):
        grid = step(ca, grid)
    return grid


def translate(case, rec):
    ca = gen.make_ca(case)
    grid = states(case, ca, gen.to_grid(case["grid"], case["dtype"]))
    shift = tuple(case["shift"])
    new = step(ca, grid)
    moved = torch.roll(grid, shift, (2, 3))
    got = gen.arr(step(ca, moved))
    want = np.roll(gen.arr(new), shift, (2, 3))
    tol = np.roll(np.broadcast_to(tolerance(case, gen.arr(grid)), want.shape), shift, (2, 3))
    expect(gen.worst(got, want, tol) <= 0,
           f"stepping the grid shifted by {shift} differs by {np.abs(got - want).max():.3g}")
    rec.label(case["cls"], f"E{case['E']}")
    if torch.equal(moved, grid) or np.abs(gen.arr(new) - gen.arr(grid)).max() < 1e-5:
        rec.mark_trivial()


SYM = {"flip_h": lambda a: a[:, :, ::-1], "flip_w": lambda a: a[:, :, :, ::-1],
       "transpose": lambda a: np.swapaxes(a, 2, 3), "rot90": lambda a: np.rot90(a, 1, (2, 3)),
       "rot180": lambda a: np.rot90(a, 2, (2, 3))}


def reflect(case, rec):
    ca = gen.make_ca(case)
    grid = states(case, ca, gen.to_grid(case["grid"], case["dtype"]))
    sym = SYM[case["sym"]]
    new = gen.arr(step(ca, grid))
    other = torch.tensor(sym(gen.arr(grid)).copy()).to(grid.dtype)
    got = gen.arr(step(ca, other))
    tol = sym(np.broadcast_to(tolerance(case, gen.arr(grid)), new.shape))
    expect(gen.worst(got, sym(new), tol) <= 0,
           f"{case['sym']} does not commute with stepping: {np.abs(got - sym(new)).max():.3g}")
    rec.label(case["cls"], case["sym"])
    if np.abs(new - gen.arr(grid)).max() < 1e-5 or \
            (other.shape == grid.shape and torch.equal(other, grid)):
        rec.mark_trivial()


def batch(case, rec):
    ca = gen.make_ca(case)
    grid = states(case, ca, gen.to_grid(case["grid"], case["dtype"]))
    tol = np.broadcast_to(tolerance(case, gen.arr(grid)), tuple(grid.shape))
    new = gen.arr(step(ca, grid))
    for b in range(grid.shape[0]):
        alone = gen.arr(step(ca, grid[b:b + 1].clone()))
        expect(gen.worst(alone[0], new[b], tol[b]) <= 0,
               f"sample {b} evolves differently in a batch of {grid.shape[0]}")
    # neither must a sample depend on what the other samples are
    changed = grid.clone()
    changed[1:] = 1.0 - changed[1:]
    expect(gen.worst(gen.arr(step(ca, changed))[0], new[0], tol[0]) <= 0,
           "a sample depends on the other samples of its batch")
    rec.label(case["cls"], f"B{grid.shape[0]}")
    if np.abs(new - gen.arr(grid)).max() < 1e-5:
        rec.mark_trivial()


def reach(case):
    r = max(k["radius"] for k in case["nbhd"])
    if case.get("ident"):
        r = max(r, 1 if case["ident"]["name"] == "InnerMoore" else case["ident"]["radius"])
    return r


def local(case, rec):
    ca = gen.make_ca(case)
    grid = states(case, ca, gen.to_grid(case["grid"], case["dtype"]))
    h, w = grid.shape[2:]
    y, x = case["cell"][0] % h, case["cell"][1] % w
    c = case["cell"][2] % grid.shape[1]
    other = grid.clone()
    other[0, c, y, x] = 0.0 if float(other[0, c, y, x]) > 0.5 else 1.0
    one, two = gen.arr(step(ca, grid)), gen.arr(step(ca, other))
    dy = np.abs(np.arange(h) - y)
    dx = np.abs(np.arange(w) - x)
    if case["pad"] == "circular":
        dy, dx = np.minimum(dy, h - dy), np.minimum(dx, w - dx)
    if case["pad"] == "reflect":    # cells near the border also see mirror images
        dy = np.minimum(dy, np.minimum(y + np.arange(h), 2 * (h - 1) - y - np.arange(h)))
        dx = np.minimum(dx, np.minimum(x + np.arange(w), 2 * (w - 1) - x - np.arange(w)))
    far = np.maximum(dy[:, None], dx[None, :]) > reach(case)
    diff = np.abs(one - two)
    tol = np.broadcast_to(tolerance(case, gen.arr(grid)), diff.shape)
    expect((diff[1:] <= tol[1:]).all(), "changing a cell of one sample changed another sample")
    excess = np.where(far[None, None], diff - tol, -1.0)[:1]
    expect(excess.max() <= 0, f"changing cell ({y},{x}) changed a cell farther than the kernel radius "
                              f"{reach(case)} by {diff[:, :, far].max() if far.any() else 0:.3g}")
    rec.label(case["cls"], case["pad"], "far" if far.any() else "all near")
    if not far.any() or diff.max() < 1e-5:
        rec.mark_trivial()


def with_(base, **kw):
    return st.tuples(base, st.fixed_dictionaries(dict(kw, warmup=st.integers(0, 3)))).map(
        lambda t: dict(t[0], **t[1]))


def uni(**kw):
    return gen.ca_and_grid(**{**dict(classes=CLASSES), **kw})


FACETS = [
    Facet("translate", with_(uni(pads=("circular",)),
                             shift=st.lists(st.integers(-25, 25), min_size=2, max_size=2)),
          translate, 250, 5000),
    Facet("reflect", with_(uni(), sym=st.sampled_from(sorted(SYM))), reflect, 250, 5000),
    Facet("batch", with_(uni(batches=(2, 3, 5))), batch, 150, 3000),
    Facet("local", with_(uni(radii=st.integers(1, 3), high=16),
                         cell=st.lists(st.integers(0, 40), min_size=3, max_size=3)),
          local, 250, 5000),
]
