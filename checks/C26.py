"""C26: entropy measures against their definitions, counted independently."""
import math
from collections import Counter

import numpy as np
from hypothesis import strategies as st

import gen
from harness import Facet, expect

RULE = ("grids of chosen grey levels (constant, binary, few-level, random) in float64, float32 and integer "
        "types at random offsets and scales; non-trivial when the grid has at least two levels")
QUICK_FACTOR = 1
ASSUMPTIONS = ["cells of generated grids lie clear of the edges of the 256 bins (except the two extreme values), so "
               "that rounding cannot move a cell across an edge",
               "windows are odd and, in the analyzer, at most as wide as the grid doubled"]
TOL = 2e-5


def levels(spec):
    """grey levels 0..255 as an (h, w) array; both extremes occur unless constant"""
    rng = np.random.RandomState(spec["seed"])
    h, w, kind = spec["h"], spec["w"], spec["kind"]
    if kind == "constant":
        return np.zeros((h, w), int)
    n = {"binary": 2, "few": 4, "many": 256}[kind]
    pool = np.unique(np.concatenate([[0, 255], rng.randint(0, 256, max(0, n - 2))])) if n < 256 else np.arange(256)
    if spec["blocky"]:
        k = rng.choice(pool, size=((h + 1) // 2, (w + 1) // 2)).repeat(2, 0).repeat(2, 1)[:h, :w].copy()
    else:
        k = rng.choice(pool, size=(h, w), p=None)
    if h * w > 1:
        a, b = rng.choice(h * w, 2, replace=False)
        k.flat[a], k.flat[b] = 0, 255
    else:
        k[:] = 0
    return k


def realise(k, spec):
    """a grid with these grey levels: the middle of each bin, and the exact extremes"""
    dtype = spec["dtype"]
    x = k + 0.5
    x = np.where(k == 0, 0.0, np.where(k == 255, 255.0, x))
    if dtype.startswith("int"):
        # integer cells: twice the levels, so the middles are whole
        return (np.rint(2 * x) + int(spec["offset"] * 8)).astype(dtype)
    return (x / 255 * 2.0 ** spec["scale"] + spec["offset"] * 2.0 ** spec["scale"]).astype(dtype)


def entropy(values):
    c = Counter(np.asarray(values).ravel().tolist())
    n = sum(c.values())
    return -sum(v / n * math.log2(v / n) for v in c.values())


def conditional(k, direction):
    dx, dy = [(-1, 0), (0, 1), (1, 0), (0, -1)][direction]
    h, w = k.shape
    joint, given = Counter(), Counter()
    for i in range(h):
        for j in range(w):
            s, u = int(k[i, j]), int(k[(i + dx) % h, (j + dy) % w])
            joint[s, u] += 1
            given[u] += 1
    n = h * w
    return -sum(v / n * math.log2(v / given[u]) for (s, u), v in joint.items())


def requantise(k):
    """grey levels of a window after normalising it to its own range"""
    lo, hi = int(k.min()), int(k.max())
    return k, lo, hi


def near(a, b, what, tol=TOL):
    expect(np.isfinite(a) and abs(float(a) - b) <= tol, f"{what}: {a} instead of {b}")


def grid_entropy(case, rec):
    from yuca.analyze import get_grid_entropy
    k = levels(case)
    g = realise(k, case)
    keep = g.copy()
    h = get_grid_entropy(g)
    want = entropy(k)
    near(h, want, "grid entropy")
    expect(-1e-6 <= h <= 8 + 1e-6, f"entropy {h} outside [0, 8]")
    expect(np.array_equal(g, keep), "the grid was changed")
    rng = np.random.RandomState(case["seed"] + 1)
    for name, other in (("shifted", np.roll(g, (rng.randint(9), rng.randint(9)), (0, 1))),
                        ("permuted", rng.permutation(g.ravel()).reshape(g.shape)),
                        ("transposed", g.T)):
        near(get_grid_entropy(other), want, f"entropy of the {name} grid")
    if not case["dtype"].startswith("int"):
        near(get_grid_entropy(g * 4), want, "entropy of the rescaled grid")
    rec.label(case["kind"], case["dtype"])
    if case["kind"] == "constant" or k.size == 1:
        rec.mark_trivial()


def conditional_entropy(case, rec):
    from yuca.analyze import (get_conditional_grid_entropy, get_grid_entropy,
                              get_multiconditional_grid_entropy)
    k = levels(case)
    g = realise(k, case)
    wants = [conditional(k, d) for d in range(4)]
    d = case["direction"]
    if d < 4:
        h = get_conditional_grid_entropy(g, direction=d)
        near(h, wants[d], f"conditional entropy in direction {d}")
        expect(-1e-6 <= h <= get_grid_entropy(g) + 1e-5, "conditional entropy exceeds the entropy")
    else:
        near(get_multiconditional_grid_entropy(g), sum(wants) / 4, "multi-directional conditional entropy")
    rec.label(case["kind"], f"direction {d}")
    if case["kind"] == "constant" or k.size == 1 or len({round(w, 6) for w in wants}) == 1:
        rec.mark_trivial()


def quantised(a, shave):
    """the definition in double precision; `shave` allows the analyzer's regularised range"""
    a = np.asarray(a, dtype=np.float64)
    r = a.max() - a.min()
    if r == 0:
        return np.zeros(a.shape, int)
    return np.floor(255 * ((a - a.min()) / (r + shave))).astype(int)


def module_spatial(case, rec):
    from yuca.analyze import get_spatial_entropy
    g = spatial_grid(case)
    half = case["half"]
    out = get_spatial_entropy(g, window_size=2 * half + 1)
    expect(out.shape == g.shape, f"spatial entropy of shape {out.shape}")
    h, w = g.shape
    for i in range(h):
        for j in range(w):
            win = g[max(0, i - half):i + half + 1, max(0, j - half):j + half + 1]
            near(out[i, j], entropy(quantised(win, 0)), f"spatial entropy at {i},{j}", 1e-4)
    rec.label(f"half {half}", case["dtype"])
    if half == 0 or case["nlev"] == 1:
        rec.mark_trivial()


def analyzer_spatial(case, rec):
    import torch
    from yuca.analyze import Phanes
    ph = Phanes(dim=8, batch_size=1, ca_steps=1)
    half = case["half"]
    h, w = case["h"], case["w"]
    half = min(half, h, w)
    grids = [[spatial_grid({**case, "seed": case["seed"] + 7 * b + c}) for c in range(case["c"])]
             for b in range(case["b"])]
    if case["flat"]:
        g = grids[0][0]
        given = torch.tensor(g) if case["tensor"] else g
        out = np.asarray(ph.get_spatial_entropy(given, window_size=2 * half + 1))
        expect(out.shape == g.shape, f"spatial entropy of shape {out.shape}")
        out, grids = out[None, None], [[g]]
    else:
        g = np.array(grids)
        given = torch.tensor(g) if case["tensor"] else g
        out = np.asarray(ph.get_spatial_entropy(given, window_size=2 * half + 1))
        expect(out.shape == g.shape, f"spatial entropy of shape {out.shape}")
    for b, row in enumerate(grids):
        for c, g in enumerate(row):
            for i in range(h):
                for j in range(w):
                    rows = np.arange(i - half, i + half + 1) % h
                    cols = np.arange(j - half, j + half + 1) % w
                    win = g[np.ix_(rows, cols)]
                    a, bb = entropy(quantised(win, 0)), entropy(quantised(win, 1e-9))
                    got = float(out[b, c, i, j])
                    expect(min(abs(got - a), abs(got - bb)) < 1e-4,
                           f"spatial entropy of grid {b},{c} at {i},{j}: {got} instead of {a}")
    rec.label(f"half {half}", "flat" if case["flat"] else f"batch {case['b']}x{case['c']}")
    if half == 0 or case["nlev"] == 1:
        rec.mark_trivial()


def spatial_grid(case):
    """few distinct values whose normalised differences stay clear of bin edges"""
    rng = np.random.RandomState(case["seed"])
    # any subset of these, normalised to its own range, maps to well separated levels
    pool = np.array([0.0, 0.11, 0.37, 0.62, 1.0])[:case["nlev"]]
    k = rng.choice(len(pool), size=(case["h"], case["w"]))
    if case["dtype"].startswith("int"):
        return np.array([0, 7, 19, 30, 50])[k].astype(case["dtype"])
    return (pool[k]).astype(case["dtype"])


KINDS = st.sampled_from(["constant", "binary", "few", "few", "many", "many"])


def grids(big, dtypes=("float64", "float32", "int64", "int32")):
    return {"h": st.integers(1, big), "w": st.integers(1, big), "kind": KINDS, "blocky": st.booleans(),
            "dtype": st.sampled_from(dtypes), "scale": st.integers(-6, 6),
            "offset": st.sampled_from([0.0, 0.25, -1.0, 3.0]), "seed": gen.seeds}


SPATIAL = {"h": st.one_of(st.integers(1, 9), st.integers(1, 14)), "w": st.integers(1, 9),
           "half": st.one_of(st.integers(0, 5), st.integers(0, 9)), "nlev": st.integers(1, 5),
           "dtype": st.sampled_from(["float64", "float32", "int64"]), "seed": gen.seeds}

FACETS = [
    Facet("grid", st.fixed_dictionaries(grids(40)), grid_entropy, 200, 3000),
    Facet("conditional", st.fixed_dictionaries({**grids(24), "direction": st.integers(0, 3)}),
          conditional_entropy, 24, 600),
    Facet("conditional2", st.fixed_dictionaries({**grids(12, ("float64",)), "direction": st.integers(0, 3)}),
          conditional_entropy, 24, 600),
    Facet("multi", st.fixed_dictionaries({**grids(16), "direction": st.just(4)}), conditional_entropy, 6, 150),
    Facet("module_spatial", st.fixed_dictionaries(SPATIAL), module_spatial, 60, 800),
    Facet("analyzer_spatial", st.fixed_dictionaries({
        **SPATIAL, "dtype": st.sampled_from(["float64", "float32"]), "b": st.integers(1, 2), "c": st.integers(1, 2),
        "flat": st.booleans(), "tensor": st.booleans()}), analyzer_spatial, 40, 500),
]
