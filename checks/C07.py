"""C07: Life-like configurations against the discrete B/S automaton."""
import os

import numpy as np
import torch
from hypothesis import strategies as st

import gen
import harness
from harness import Facet, expect

RULE = ("random birth/survival sets (no birth on 0) and binary toroidal grids, several steps, against "
        "a discrete automaton; non-trivial when the pattern changes and does not die at once")
ASSUMPTIONS = ["radius 1, circular padding"]


def life(grid, birth, survival):
    n = sum(np.roll(grid, (dy, dx), (-2, -1)) for dy in (-1, 0, 1) for dx in (-1, 0, 1)
            if (dy, dx) != (0, 0))
    return ((grid == 0) & np.isin(n, birth) | (grid == 1) & np.isin(n, survival)).astype(int)


def pattern(case):
    rng = np.random.RandomState(case["seed"])
    return (rng.rand(case["batch"], 1, case["h"], case["w"]) < case["density"]).astype(int)


def run(ca, case, birth, survival, rec):
    g = pattern(case)
    grid = torch.tensor(g).to(torch.get_default_dtype())
    first, alive = g, False
    for n in range(case["steps"]):
        g = life(g, birth, survival)
        with torch.no_grad():
            grid = ca(grid)
        got = gen.arr(grid)
        expect(np.abs(got - g).max() < 1e-3,
               f"B{birth}/S{survival}: step {n + 1} differs from the automaton "
               f"in {(np.abs(got - g) >= 1e-3).sum()} cells")
        alive = alive or (0 < g.sum() < g.size and (g != first).any())
    if not alive:
        rec.mark_trivial()


def config_rule(case, rec):
    from yuca.configs import get_life_like_config
    from yuca.ca.continuous import CCA
    torch.set_default_dtype(torch.float64 if case["f64"] else torch.float32)
    birth, survival = sorted(case["birth"]), sorted(case["survival"])
    ca = CCA(kernel_radius=2)
    ca.load_config(get_life_like_config(radius=1, birth=list(case["birth"]), survival=list(case["survival"])))
    ca.no_grad()
    expect(abs(ca.get_dt() - 1.0) < 1e-9 and ca.get_kernel_radius() == 1, "life-like dt or radius")
    run(ca, case, birth, survival, rec)
    rec.label(f"B{len(birth)}", f"S{len(survival)}")


def shipped(case, rec):
    from yuca.ca.continuous import CCA
    name, birth, survival = {"life": ("conway_life.npy", [3], [2, 3]),
                             "default": (None, [3], [2, 3]),
                             "morley": ("morley.npy", [3, 6, 8], [2, 4, 5])}[case["which"]]
    ca = CCA(kernel_radius=2)
    if name is None:
        from yuca.configs import get_life_like_config
        ca.load_config(get_life_like_config())
    else:
        expect(os.path.exists(os.path.join(harness.REPO, "ca_configs", name)), f"{name} is not shipped")
        ca.restore_config(name)
    ca.no_grad()
    run(ca, case, birth, survival, rec)
    rec.label(case["which"])


def smooth_life(case, rec):
    from yuca.configs import get_smooth_life_config, get_smooth_interval
    b = [sorted(x) for x in case["b"]]
    s = [sorted(x) for x in case["s"]]
    config = get_smooth_life_config(radius=case["radius"], birth_intervals=[list(x) for x in b],
                                    survival_intervals=[list(x) for x in s])
    g, p = config["genesis_config"], config["persistence_config"]
    expect(np.abs(gen.arr(torch.as_tensor(g["parameters"])) - b).max() < 1e-6, "birth intervals changed")
    expect(np.abs(gen.arr(torch.as_tensor(p["parameters"])) - s).max() < 1e-6, "survival intervals changed")
    for key in ("neighborhood_kernel_config", "identity_kernel_config"):
        expect(config[key]["radius"] == case["radius"], f"{key}: radius is not the one asked for")
    # and as a rule: the step of the loaded config
    spec = {"cls": "CCA", "dtype": "f64", "E": 1, "I": 1, "pad": "circular", "dt": 1.0,
            "nbhd": [{"name": "SmoothLifeKernel", "radius": case["radius"],
                      "kernel_kwargs": {"r_a": 1.05, "r_i": 1 / 3.}}],
            "ident": {"name": "SmoothLifeKernel", "radius": case["radius"],
                      "kernel_kwargs": {"r_a": 1 / 3., "r_i": 0.0}},
            "gen": [{"name": "SmoothIntervals", "mode": 1, "parameters": b, "alpha": 0.028}],
            "per": [{"name": "SmoothIntervals", "mode": 1, "parameters": s, "alpha": 0.147}]}
    gen.set_dtype(spec)
    from yuca.ca.continuous import CCA
    ca = CCA(kernel_radius=2)
    ca.load_config(get_smooth_life_config(radius=case["radius"], birth_intervals=b, survival_intervals=s))
    ca.no_grad()
    expect(ca.get_kernel_radius() == case["radius"], "radius of the loaded CA")
    rng = np.random.RandomState(case["seed"])
    size = case["radius"] * 2 + 3
    x = rng.rand(1, 1, size, size)
    want, tol = gen.step_tol(gen.make_model(spec), spec, x)
    got = gen.arr(ca(torch.tensor(x)))
    # the intervals went through a float32-or-float64 tensor
    expect(gen.worst(got, want, tol + 1e-5) <= 0, "smooth-life step differs from the rule")
    for rules in ([3], [2, 3], [int(v * 8) for v, _ in b]):
        want = [[(2 * r - 1) / 16, (2 * r + 1) / 16] for r in rules]
        expect(np.allclose(get_smooth_interval(rules), want), "smooth interval of a Life-like rule")


torus = {"h": st.integers(3, 14), "w": st.integers(3, 14), "seed": gen.seeds,
         "density": st.sampled_from([0.05, 0.2, 0.35, 0.5, 0.8]), "batch": st.integers(1, 2),
         "steps": st.integers(1, 12)}
pairs = st.lists(st.tuples(gen.num(0, 1), gen.num(0, 1)).map(list), min_size=1, max_size=3)

FACETS = [
    Facet("rules", st.fixed_dictionaries(dict(torus, f64=st.booleans(),
          birth=st.lists(st.integers(1, 8), unique=True, max_size=8),
          survival=st.lists(st.integers(0, 8), unique=True, max_size=9))), config_rule, 250, 5000),
    Facet("shipped", st.fixed_dictionaries(dict(torus, which=st.sampled_from(["life", "morley", "default"]))),
          shipped, 120, 2000),
    Facet("smooth", st.fixed_dictionaries({"radius": st.integers(2, 8), "b": pairs, "s": pairs,
                                           "seed": gen.seeds}), smooth_life, 100, 2000),
]
