"""C06: update and kernel functions against their formulas."""
import numpy as np
import torch
from hypothesis import strategies as st

import gen
import ref
from harness import Facet, expect

RULE = ("random function family, parameters (scalars, lists, arrays, tensors), mode, precision and "
        "inputs of any shape; non-trivial when the function is not constant on the input")
ASSUMPTIONS = ["widths at least 0.002; tolerance grows with 1/width (steep functions amplify rounding)"]

NAMES = {"Gaussian": "Gaussian", "GaussianMixture": "GaussianMixture",
         "DoubleGaussian": "DoubleGaussian", "DoGaussian": "DoGaussian",
         "Polynomial": "Polynomial", "SmoothIntervals": "SmoothIntervals",
         "Identity": "Identity", "CosOverX2": "CosOverX2"}


def inputs(case):
    rng = np.random.RandomState(case["seed"])
    lo, hi = case["range"]
    x = lo + (hi - lo) * rng.rand(*case["shape"])
    flat = x.ravel()
    points = [float(v) for key in ("mu", "parameters") for v in
              np.ravel(case["fn"].get(key, []))]
    for i, v in enumerate(points + [0.0, 1.0]):          # characteristic points too
        if i < flat.size:
            flat[i] = v
    return x


def slope(spec):
    """how much a narrow bump amplifies the rounding of its input and its centre"""
    if spec["name"] == "GaussianMixture":
        return sum(abs(a) / s for a, _, s in ref.mixture_terms(spec["parameters"]))
    return sum(1.0 / s for s in np.ravel(spec.get("sigma", [])))


def family(case, rec):
    import yuca.activations as act
    torch.set_default_dtype(torch.float64 if case["dtype"] == "f64" else torch.float32)
    spec = case["fn"]
    module = getattr(act, NAMES[spec["name"]])(**gen.to_function(spec, case["form"]))
    x = torch.tensor(inputs(case)).to(torch.get_default_dtype())
    before = x.clone()
    with torch.no_grad():
        y = module(x)
    expect(torch.equal(before, x), "the input was modified")
    expect(y.shape == x.shape, f"{spec['name']}: shape {tuple(x.shape)} became {tuple(y.shape)}")
    xs = gen.arr(x)
    want = ref.function(spec, xs)
    size = np.abs(want)
    if spec["name"] == "Polynomial":
        size = 2 * sum(abs(c) * np.abs(xs) ** i for i, c in enumerate(spec["coefficients"])) + 1
    tol = (3e-5 if case["dtype"] == "f32" else 1e-9) * (1 + size)
    tol = tol + (1e-6 if case["dtype"] == "f32" else 1e-12) * slope(spec)
    expect(gen.worst(gen.arr(y), want, tol) <= 0,
           f"{spec['name']} mode {spec['mode']} differs from its formula by "
           f"{np.abs(gen.arr(y) - want).max():.3g}")
    if spec["name"] in ("GaussianMixture", "DoubleGaussian"):
        lo = -1.0 if spec["mode"] else 0.0
        expect(float(y.min()) >= lo and float(y.max()) <= 1.0, "outside its clamp range")
    if case["flat"] and x.numel():
        with torch.no_grad():
            flat = module(x.reshape(-1))
        expect(np.abs(gen.arr(flat) - gen.arr(y).ravel()).max() < 1e-6 * (1 + size.max()),
               "depends on the shape of the input")
    rec.label(spec["name"], f"mode{spec['mode']}", case["form"], case["dtype"])
    if np.ptp(want) < 1e-6:
        rec.mark_trivial()


@st.composite
def cos_spec(draw):
    return {"name": "CosOverX2", "mode": draw(st.integers(0, 1)), "mu": draw(gen.num(0, 1)),
            "omega": draw(gen.num(0.5, 30))}


shapes = st.one_of(
    st.lists(st.integers(1, 9), min_size=1, max_size=2),
    st.tuples(st.integers(1, 3), st.integers(1, 3), st.integers(1, 8), st.integers(1, 8)).map(list))

base = {"form": gen.forms, "dtype": st.sampled_from(["f32", "f64"]), "seed": gen.seeds,
        "shape": shapes, "range": st.sampled_from([[0, 1], [0, 1], [-0.5, 1.5], [-3, 3]]),
        "flat": st.booleans()}


def others(case, rec):
    """functions working on whole kernels or channels"""
    import yuca.activations as act
    rng = np.random.RandomState(case["seed"])
    which = case["which"]
    if which == "log":
        x = rng.rand(1, 1, 5, 5) * 1.5
        got = gen.arr(act.LaplacianOfGaussian(sigma=case["sigma"])(x))
        want = ref.function({"name": "LaplacianOfGaussian", "sigma": case["sigma"]}, x)
        expect(np.abs(got - want).max() < 1e-7, "LaplacianOfGaussian differs from its formula")
    elif which == "shell":
        x = np.round(rng.rand(1, 1, 6, 6) * 1.5, 1)
        r_i, r_a = sorted([round(case["a"], 1), round(case["b"], 1)])
        x.ravel()[:2] = [r_i, r_a]
        got = gen.arr(act.SmoothLifeKernel(r_i=r_i, r_a=r_a)(x))
        want = ((x >= r_i) & (x <= r_a)).astype(float)
        expect(np.array_equal(got, want), "SmoothLife shell is not the indicator of [r_i, r_a]")
    elif which == "steps":
        iv = [sorted([case["a"], case["b"]]), sorted([case["c"], case["a"]])][:1 + case["seed"] % 2]
        x = rng.rand(4, 7)
        got = act.get_smooth_steps_fn(iv, alpha=case["alpha"])(x)
        want = ref.function({"name": "SmoothIntervals", "parameters": iv, "alpha": case["alpha"]}, x)
        expect(np.abs(got - want).max() < 1e-9, "smooth steps differ from their formula")
        s = act.sigmoid_1(x, case["a"], case["alpha"])
        expect(np.abs(s - 1 / (1 + np.exp(-4 * (x - case["a"]) / case["alpha"]))).max() < 1e-9, "sigmoid_1")
    elif which == "meta":
        mode = case["seed"] % 2
        x = torch.tensor(rng.rand(2, 3, 5, 4) * 0.8 + 0.1)
        got = gen.arr(act.GaussianMetaMixture(mode=mode)(x))
        xs = gen.arr(x)
        v = np.exp(-0.5 * ((xs[:, 0] - xs[:, 1]) / (1e-7 + xs[:, 2])) ** 2)[:, None]
        expect(got.shape == v.shape and np.abs(got - (2 * v - 1 if mode else v)).max() < 1e-6,
               "GaussianMetaMixture differs from its formula")
    rec.label(which)


FACETS = [
    Facet("update", st.fixed_dictionaries(dict(base, fn=gen.function_spec(
        names=[n for n in NAMES if n != "CosOverX2"], wide=True))), family, 900, 20000),
    Facet("cosine", st.fixed_dictionaries(dict(base, fn=cos_spec())), family, 150, 3000),
    Facet("others", st.fixed_dictionaries({
        "which": st.sampled_from(["log", "shell", "steps", "meta"]), "seed": gen.seeds,
        "a": gen.num(0, 1), "b": gen.num(0, 1.2), "c": gen.num(0, 1),
        "alpha": gen.num(0.02, 0.3), "sigma": st.one_of(gen.num(0.25, 0.9), gen.num(0.1, 2.0))}), others, 250, 5000),
]
