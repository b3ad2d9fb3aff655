"""Strategies for JSON-able case specs, and their conversion to real objects
and to reference models."""
import copy

import numpy as np
from hypothesis import strategies as st

import ref

CCA_LIKE = ["CCA", "Lenia", "CODE", "RandomStepCA", "MetaCA"]
ALL = CCA_LIKE + ["NCA", "RxnDfn"]


def num(lo, hi, steps=1000):
    """a number of [lo, hi] on a grid (readable and shrinkable)"""
    return st.integers(0, steps).map(lambda i: round(lo + (hi - lo) * i / steps, 6))


seeds = st.integers(0, 2 ** 20)
forms = st.sampled_from(["py", "np", "tensor"])

# --------------------------------------------------------------------------
# functions

SIGMAS = sigmas = st.one_of(num(0.01, 0.2), num(0.2, 1.0))
amplitudes = st.one_of(num(0.05, 1.2), num(0.05, 1.2), num(-0.6, 2.5), st.just(1.0))
counts = st.sampled_from([1, 1, 2, 2, 3, 4, 5, 6, 7])
coefficients = st.one_of(num(-1.5, 1.5), num(-1.5, 1.5), st.sampled_from([0.0, 0.0, 1.0, -1.0, 0.5]))


@st.composite
def function_spec(draw, names=None, modes=(0, 1), wide=False):
    """wide: parameters beyond those of sensible rules, for functions judged on their own"""
    sigmas, centre = SIGMAS, num(0, 1)
    if wide:
        sigmas = st.one_of(SIGMAS, SIGMAS, num(0.002, 0.01), num(1.0, 4.0))
        centre = st.one_of(centre, centre, num(-1, 2))
    name = draw(st.sampled_from(names or [
        "Gaussian", "GaussianMixture", "DoubleGaussian", "DoGaussian", "Polynomial",
        "SmoothIntervals", "Identity", "ReLU", "Tanh"]))
    spec = {"name": name, "mode": draw(st.sampled_from(list(modes)))}
    if name == "Gaussian":
        spec.update(mu=draw(centre), sigma=draw(sigmas))
    elif name == "GaussianMixture":
        if draw(st.booleans()):
            n = draw(counts)
            amp = draw(st.sampled_from([amplitudes, amplitudes, st.just(1.0)]))
            spec["parameters"] = [x for _ in range(n) for x in
                                  (draw(amp), draw(centre), draw(sigmas))]
        else:
            n = draw(st.sampled_from([1, 1, 2, 2, 4, 5, 7]))     # 2n not a multiple of 3
            spec["parameters"] = [x for _ in range(n) for x in (draw(centre), draw(sigmas))]
    elif name == "DoubleGaussian":
        spec["mu"] = draw(st.lists(centre, min_size=1, max_size=2))
        spec["sigma"] = draw(st.lists(sigmas, min_size=1, max_size=2))
    elif name == "DoGaussian":
        spec.update(mu=draw(centre), sigma=draw(sigmas if wide else num(0.02, 0.5)))
        if draw(st.booleans()):
            spec["dx"] = draw(num(0.001, 0.1))
    elif name == "Polynomial":
        spec["coefficients"] = draw(st.lists(coefficients, min_size=1, max_size=draw(st.sampled_from([3, 6, 12]))))
    elif name == "SmoothIntervals":
        spec["parameters"] = [sorted(p) for p in draw(st.lists(
            st.tuples(num(0, 1), num(0, 1)), min_size=1, max_size=4))]
        if draw(st.booleans()):
            spec["alpha"] = draw(num(0.01, 0.2))
    return spec


def to_function(spec, form="py"):
    """config dictionary for an update function, in one of the accepted forms"""
    import torch
    out = {}
    for key, value in spec.items():
        if key in ("name", "mode", "dx"):
            out[key] = value
        elif form == "tensor":
            scalar = not isinstance(value, list)
            if scalar and key in ("mu", "sigma"):
                value = [value]
            out[key] = torch.tensor(value)
        elif form == "np" and isinstance(value, list):
            out[key] = np.array(value)
        else:
            out[key] = copy.deepcopy(value)
    return out


# --------------------------------------------------------------------------
# kernels

KERNELS = ["Gaussian", "GaussianMixture", "CosOverX2", "DoGaussian", "SmoothLifeKernel",
           "MooreLike", "LaplacianOfGaussian"]


def clear_of(radius, value):
    """a threshold no sampled distance is within rounding of (exact ones excepted)"""
    d = np.unique(ref.distances(radius) / radius)
    while np.abs(d - value).min() < 1e-6:
        value = round(value + 0.000137, 6)
    return value


@st.composite
def kernel_spec(draw, names=None, radius=None, radii=None):
    names = names or KERNELS[:6]
    r = radius if radius is not None else draw(radii if radii is not None else st.integers(1, 6))
    name = draw(st.sampled_from(names))
    kw = {}
    if name == "Gaussian":
        kw = {"mu": draw(st.one_of(num(0, 1), num(0, 1), num(-0.5, 1.6))), "sigma": draw(num(0.1, 0.6))}
    elif name == "GaussianMixture":
        if draw(st.booleans()):
            n = draw(counts)
            kw = {"parameters": [x for _ in range(n) for x in
                                 (draw(st.one_of(num(0.2, 1.0), num(0.1, 2.0))), draw(num(0, 1)), draw(num(0.05, 0.4)))]}
        else:
            n = draw(st.sampled_from([1, 2, 4, 5]))
            kw = {"parameters": [x for _ in range(n) for x in
                                 (draw(num(0, 1)), draw(num(0.05, 0.4)))]}
    elif name == "CosOverX2":
        kw = {"mu": draw(st.one_of(num(0, 1), num(-0.3, 1.5))), "omega": draw(num(1, 30))}
    elif name == "DoGaussian":
        kw = {"mu": draw(st.one_of(num(0.2, 1), num(-0.2, 1.3))), "sigma": draw(num(0.1, 0.5))}
    elif name == "SmoothLifeKernel":
        r_i = draw(st.one_of(st.just(0.0), num(0.05, 0.9)))
        r_a = draw(st.one_of(st.just(1.0), num(0.95, 1.3)))
        kw = {"r_a": r_a if r_a == 1.0 else clear_of(r, r_a),
              "r_i": r_i if r_i == 0.0 else clear_of(r, r_i)}
    elif name == "LaplacianOfGaussian":
        kw = {"sigma": draw(st.one_of(num(0.25, 0.8), num(0.12, 2.0)))}
    spec = {"name": name, "radius": r}
    if name not in ("MooreLike", "InnerMoore"):
        if draw(st.integers(0, 3)) == 3:        # keyword arguments have no order of their own
            kw = dict(reversed(list(kw.items())))
        spec["kernel_kwargs"] = kw
        if name not in ("LaplacianOfGaussian",) and kernel_weight(spec) < 0.05:
            # nearly constant over the sampled distances: normalisation is ill-conditioned
            spec = {"name": "Gaussian", "radius": r, "kernel_kwargs": {"mu": 0.5, "sigma": 0.3}}
    return spec


def kernel_weight(spec):
    r = spec["radius"]
    v = ref.function(dict(spec["kernel_kwargs"], name=spec["name"]), ref.distances(r) / r)
    return float((v - v.min()).sum())


def to_kernel(spec, form="py"):
    import torch
    out = {"name": spec["name"]}
    if "radius" in spec:
        out["radius"] = spec["radius"]
    if "kernel_kwargs" in spec:
        kw = {}
        for key, value in spec["kernel_kwargs"].items():
            if isinstance(value, list) and form == "np":
                value = np.array(value)
            elif isinstance(value, list) and form == "tensor":
                value = torch.tensor(value)
            kw[key] = copy.deepcopy(value)
        out["kernel_kwargs"] = kw
    return out


def kernel_vector(spec):
    """the kernel's parameters as one flat vector"""
    out = []
    for value in spec.get("kernel_kwargs", {}).values():
        out += list(value) if isinstance(value, list) else [value]
    return np.array(out, dtype=float)


# --------------------------------------------------------------------------
# grids

KINDS = ["rand", "sparse", "binary", "blob", "ramp", "const", "extreme"]


@st.composite
def grid_spec(draw, channels, low=3, high=20, batches=(1, 1, 1, 2, 3), kinds=None, square=False,
              kind_weights=None):
    h = draw(st.integers(low, max(low, high)))
    w = h if square else draw(st.integers(low, max(low, high)))
    spec = {"kind": draw(st.sampled_from(kinds or KINDS)), "seed": draw(seeds),
            "shape": [draw(st.sampled_from(list(batches))), channels, h, w]}
    if spec["kind"] == "const":
        spec["value"] = draw(num(0, 1, 20))
    return spec


def grid_array(spec):
    rng = np.random.RandomState(spec["seed"])
    shape = tuple(spec["shape"])
    kind = spec["kind"]
    if kind == "rand":
        g = rng.rand(*shape)
    elif kind == "sparse":
        g = rng.rand(*shape) * (rng.rand(*shape) < 0.15)
    elif kind == "binary":
        g = (rng.rand(*shape) < 0.4).astype(float)
    elif kind == "blob":
        g = np.zeros(shape)
        h, w = max(1, shape[2] // 2), max(1, shape[3] // 2)
        y, x = rng.randint(0, shape[2] - h + 1), rng.randint(0, shape[3] - w + 1)
        g[:, :, y:y + h, x:x + w] = rng.rand(shape[0], shape[1], h, w)
    elif kind == "ramp":
        g = np.linspace(0, 1, shape[2])[:, None] * np.linspace(0, 1, shape[3])[None, :]
        g = (g[None, None] + rng.rand(shape[0], shape[1], 1, 1)) % 1.0
        g = np.broadcast_to(g, shape).copy()
    elif kind == "const":
        g = np.full(shape, float(spec["value"]))
    elif kind == "extreme":
        g = rng.choice([0.0, 1.0, 1e-6, 1 - 1e-6, 0.1, 0.5], size=shape)
    else:
        raise KeyError(kind)
    return g


def to_grid(spec, dtype="f32"):
    import torch
    return torch.tensor(grid_array(spec)).to(DTYPES()[dtype])


def DTYPES():
    import torch
    return {"f16": torch.float16, "f32": torch.float32, "f64": torch.float64}


# --------------------------------------------------------------------------
# universes


@st.composite
def ca_spec(draw, classes=None, channels=(1, 1, 1, 2, 3, 4, 5), internals=(1, 1, 2, 3, 4, 6),
            dtypes=("f32", "f32", "f64"), pads=("circular", "circular", "reflect", "zeros"),
            radii=None, kernels=None, functions=None, ident=True, dts=None, hidden=8):
    cls = draw(st.sampled_from(classes or ALL))
    case = {"cls": cls, "dtype": draw(st.sampled_from(list(dtypes))),
            "form": draw(forms)}
    if cls not in ("CCA",) and case["dtype"] == "f16":
        case["dtype"] = "f32"
    if cls == "RxnDfn":
        case.update(draw(gray_scott()))
        return case
    e = draw(st.sampled_from(list(channels)))
    i = draw(st.sampled_from(list(internals)))
    if cls == "NCA" or draw(st.booleans()):
        i = e                       # the most common arrangement, the only one of NCA
    case.update(E=e, I=i, pad=draw(st.sampled_from(list(pads))))
    if e >= 4 and draw(st.booleans()):
        case["threshold"] = draw(st.one_of(st.sampled_from([0.0, 0.25, 0.5]), num(0, 0.9)))
    r = draw(radii if radii is not None else st.integers(1, 5))
    n_kernels = i if (cls != "NCA" and draw(st.booleans())) else 1
    names = list(kernels or KERNELS[:6])
    case["nbhd"] = [draw(kernel_spec(names=names, radius=r)) for _ in range(n_kernels)]
    case["dt"] = draw(dts if dts is not None else st.one_of(st.just(0.1), num(0.01, 1.0)))
    if dts is None and draw(st.integers(0, 3)) == 3:
        case.update(omit=["dt"], dt=0.1)
    if ident and draw(st.integers(0, 3)) == 0:
        case["ident"] = draw(kernel_spec(names=["Gaussian", "SmoothLifeKernel", "MooreLike", "InnerMoore"],
                                         radii=st.integers(1, r)))
    if cls == "NCA":
        case.update(hidden=draw(st.integers(1, hidden)),
                    act=draw(st.sampled_from(sorted(ref.ACT))),
                    wseed=draw(seeds), wscale=draw(num(0.1, 3.0)))
    else:
        case["gen"] = [draw(function_spec(names=functions)) for _ in range(i)]
        case["per"] = [draw(function_spec(names=functions)) for _ in range(i)]
    if cls == "CODE":
        case["code"] = draw(code_spec())
    return case


@st.composite
def code_spec(draw):
    lo = draw(num(0.001, 0.1))
    hi = draw(num(0.1, 1.0))
    return {"min_dt": lo, "max_dt": hi, "prev_dt": draw(num(lo, hi)),
            "error_threshold": draw(st.sampled_from([1e-4, 1e-3, 1e-2, 0.05, 0.3]))}


@st.composite
def gray_scott(draw):
    f = draw(num(0.005, 0.1))
    # f + k <= sqrt(f) / 2
    k_max = np.sqrt(f) / 2 - f
    k = round(float(draw(st.one_of(num(0.0, 0.98), st.sampled_from([0.99, 0.995, 0.998])))) * max(k_max, 0.0), 6)
    r = draw(st.integers(1, 4))
    dx = draw(st.sampled_from([1 / 330., 1 / 143., 0.01, 0.02]))
    # entries the parameter vector (or the default) stands in for
    omit = draw(st.lists(st.sampled_from(["dt", "dx", "feed_rate", "decay_rate", "diffusion_u", "diffusion_v"]),
                         max_size=3, unique=True)) if draw(st.booleans()) else []
    dt = 0.5 if "dt" in omit else draw(num(0.05, 1.0, 19))
    smooth = {}
    if draw(st.integers(0, 4)) == 4:
        smooth["ident"] = draw(kernel_spec(names=["Gaussian", "SmoothLifeKernel", "MooreLike", "InnerMoore"],
                                           radii=st.integers(1, r)))
    return {**smooth, "f": f, "k": k, "du": draw(num(5e-6, 4e-5, 35)), "dv": draw(num(2e-6, 2e-5, 36)),
            "dx": 1 / 330. if "dx" in omit else dx, "dt": dt, "omit": omit,
            "nbhd": [{"name": "LaplacianOfGaussian", "radius": r,
                      "kernel_kwargs": {"sigma": draw(num(0.3, 0.7))}}],
            "E": 2, "I": 2, "pad": "circular"}


def min_dim(case):
    r = max(k["radius"] for k in case["nbhd"])
    if case.get("ident"):
        r = max(r, case["ident"]["radius"])
    return r + 1


@st.composite
def ca_and_grid(draw, high=18, kinds=None, batches=(1, 1, 2, 3), **kw):
    case = draw(ca_spec(**kw))
    low = max(3, min_dim(case))
    case["grid"] = draw(grid_spec(case["E"], low=low, high=max(high, low), kinds=kinds,
                                  batches=batches))
    return case


def set_dtype(case):
    import torch
    torch.set_default_dtype(torch.float64 if case["dtype"] == "f64" else torch.float32)


def classes():
    from yuca.ca.continuous import CCA
    from yuca.ca.neural import NCA
    from yuca.ca.reaction_diffusion import RxnDfn
    from yuca.lenia import Lenia
    from yuca.code import CODE
    from yuca.random_step_ca import RandomStepCA
    from yuca.metaca import MetaCA
    return {"CCA": CCA, "NCA": NCA, "RxnDfn": RxnDfn, "Lenia": Lenia, "CODE": CODE,
            "RandomStepCA": RandomStepCA, "MetaCA": MetaCA}


def to_config(case):
    """configuration dictionary of a single-function (or neural, or RD) case"""
    form = case.get("form", "py")
    if case["cls"] == "RxnDfn":
        config = {"neighborhood_kernel_config": to_kernel(case["nbhd"][0]),
                "params": np.array([case["du"], case["dv"], case["f"], case["k"]]),
                "dt": case["dt"], "dx": case["dx"], "feed_rate": case["f"],
                "decay_rate": case["k"], "diffusion_u": case["du"], "diffusion_v": case["dv"]}
        if case.get("ident"):
            config["identity_kernel_config"] = to_kernel(case["ident"])
        return without_defaults(config, case)
    config = {"neighborhood_kernel_config": to_kernel(case["nbhd"][0], form), "dt": case["dt"]}
    if case.get("ident"):
        config["identity_kernel_config"] = to_kernel(case["ident"], form)
    if case["cls"] == "NCA":
        config["params"] = nca_vector(case)
    else:
        config["genesis_config"] = to_function(case["gen"][0], form)
        config["persistence_config"] = to_function(case["per"][0], form)
    return without_defaults(config, case)


def without_defaults(config, case):
    """leave out optional entries: a missing step size is 0.1 (Gray-Scott: 0.5, spatial step 1/330)"""
    default = {"dt": 0.5, "dx": 1 / 330.} if case["cls"] == "RxnDfn" else {"dt": 0.1}
    for key in case.get("omit", []):
        if key not in default or case[key] == default[key]:
            config.pop(key, None)
    return config


def instant_kwargs(case):
    kw = {"conv_mode": case["pad"], "internal_channels": case["I"],
          "external_channels": case["E"], "kernel_radius": case["nbhd"][0]["radius"]}
    if "threshold" in case:
        kw["alive_threshold"] = case["threshold"]
    if case["cls"] == "NCA":
        kw.update(hidden_channels=case["hidden"], activation=case["act"])
    if case["cls"] == "CODE":
        kw.update(case.get("code", {}))
    return kw


def make_ca(case):
    """the real CA of a case; set_dtype(case) is done here"""
    set_dtype(case)
    cls = classes()[case["cls"]]
    if case["cls"] == "RxnDfn":
        ca = cls()
        ca.load_config(to_config(case))
        ca.no_grad()
        return ca
    ca = cls(**instant_kwargs(case))
    if case["cls"] == "NCA" or (case["I"] == 1 and len(case["nbhd"]) == 1):
        ca.load_config(to_config(case))
    else:
        load_channels(ca, case)
    ca.eval()
    ca.no_grad()
    return ca


def load_channels(ca, case):
    """several internal channels, put together by the public building blocks"""
    import torch
    from yuca.kernels import get_kernel
    form = case.get("form", "py")
    kernels = torch.cat([get_kernel(to_kernel(k, form)) for k in case["nbhd"]], dim=0)
    if len(case["nbhd"]) == 1:
        kernels = kernels[:1]
    if case.get("ident"):
        ca.add_identity_kernel(kernel=get_kernel(to_kernel(case["ident"], form)))
        ca.initialize_id_layer()
    ca.genesis_fns, ca.persistence_fns = [], []
    for g, p in zip(case["gen"], case["per"]):
        ca.add_genesis_fn(to_function(g, form))
        ca.add_persistence_fn(to_function(p, form))
    ca.add_neighborhood_kernel(kernels)
    ca.initialize_neighborhood_layer()
    ca.set_dt(case["dt"])
    ca.include_parameters()
    ca.to_device("cpu")


# neural weights --------------------------------------------------------------


def nca_weights(case):
    rng = np.random.RandomState(case["wseed"])
    h, e, i = case["hidden"], case["E"], case["I"]
    s = case["wscale"]
    w = [rng.randn(h, e + i) * s, rng.randn(h, h) * s, rng.randn(e, h) * s]
    acts = [(rng.rand() - 0.5, 0.2 + rng.rand()), (rng.rand() - 0.5, 0.2 + rng.rand())]
    w = [x.astype(np.float32).astype(float) for x in w]
    acts = [tuple(float(np.float32(v)) for v in a) for a in acts]
    return w, acts


def nca_vector(case, kernel=None):
    w, acts = nca_weights(case)
    parts = []
    for n, x in enumerate(w):
        parts.append(x.ravel())
        if n < 2 and case["act"] == "Gaussian":
            parts.append(np.array(acts[n]))
    parts.append(kernel_vector(kernel or case["nbhd"][0]))
    return np.concatenate(parts)


# reference models ------------------------------------------------------------


def make_model(case):
    ident = [ref.kernel(case["ident"])] if case.get("ident") else None
    if case["cls"] == "RxnDfn":
        return ref.GrayScott(ref.kernel(case["nbhd"][0]), case["du"], case["dv"], case["f"],
                             case["k"], case["dx"], case["dt"], ident=ident)
    nbhd = [ref.kernel(k) for k in case["nbhd"]]
    threshold = case.get("threshold", 0.1)
    if case["cls"] == "NCA":
        w, acts = nca_weights(case)
        return ref.NeuralModel(nbhd, w, case["act"], dt=case["dt"], internal=case["I"],
                               external=case["E"], pad=case["pad"], ident=ident,
                               threshold=threshold, act_params=acts)
    cls = ref.LeniaModel if case["cls"] == "Lenia" else ref.Model
    return cls(nbhd, case["gen"], case["per"], dt=case["dt"], ident=ident, external=case["E"],
               pad=case["pad"], threshold=threshold)


DELTA = {"f16": 2.5e-3, "f32": 1.5e-6, "f64": 1e-12}
BASE = {"f16": 4e-3, "f32": 2e-5, "f64": 1e-9}


def step_tol(model, case, grid):
    """reference next grid and per-cell tolerance"""
    delta, base = DELTA[case["dtype"]] * max(1, case["E"]), BASE[case["dtype"]]
    if case["cls"] == "RxnDfn":
        return model.step(grid), model.tol(delta, base)
    return model.step_tol(grid, delta, base)


def near_threshold(case, g):
    """an alpha value so near the alive threshold that rounding decides"""
    if g.shape[1] < 4 or case["cls"] == "RxnDfn":
        return False
    t = case.get("threshold", 0.1)
    d = np.abs(g[:, 3] - t)
    if t == float(np.float32(t)):
        d = d[d > 0]                # exactly at the threshold is decided: not above
    return bool((d < 1e-5).any())


def arr(t):
    return t.detach().cpu().double().numpy().copy()


def worst(got, want, tol):
    """largest excess of |got - want| over tol (<= 0 is fine); nan counts as inf"""
    d = np.abs(np.asarray(got, float) - np.asarray(want, float)) - tol
    d = np.where(np.isnan(d), np.inf, d)
    return float(d.max()) if d.size else 0.0


# parameter vectors ------------------------------------------------------------


def function_vector(spec):
    """trainable parameters of an update function, in vector order"""
    name = spec["name"]
    if name == "GaussianMixture":
        return [v for _, m, s in ref.mixture_terms(spec["parameters"]) for v in (m, s)]
    if name in ("Gaussian", "DoGaussian"):
        return [spec["mu"], spec["sigma"]]
    if name == "DoubleGaussian":
        return [v for key in ("mu", "sigma") for v in (spec[key] * 2 if len(spec[key]) == 1 else spec[key])]
    if name == "Polynomial":
        return list(spec["coefficients"])
    return []


def with_vector(spec, values):
    """the spec with new trainable parameters"""
    values = [float(v) for v in values]
    name, out = spec["name"], dict(spec)
    if name == "GaussianMixture":
        terms = ref.mixture_terms(spec["parameters"])
        out["parameters"] = [v for (a, _, _), m, s in zip(terms, values[::2], values[1::2])
                             for v in (a, m, s)]
    elif name in ("Gaussian", "DoGaussian"):
        out["mu"], out["sigma"] = values
    elif name == "DoubleGaussian":
        out["mu"], out["sigma"] = values[:2], values[2:]
    elif name == "Polynomial":
        out["coefficients"] = values
    return out


@st.composite
def new_values(draw, spec):
    """valid trainable parameters for a function spec"""
    name = spec["name"]
    n = len(function_vector(spec))
    if name == "Polynomial":
        return draw(st.lists(num(-1.5, 1.5), min_size=n, max_size=n))
    width = num(0.02, 0.5)
    if name == "DoubleGaussian":
        return draw(st.lists(num(0, 1), min_size=2, max_size=2)) + draw(st.lists(width, min_size=2, max_size=2))
    return [v for _ in range(n // 2) for v in (draw(num(0, 1)), draw(width))]


@st.composite
def new_kernel(draw, spec):
    """same family and shape of a kernel spec, other parameters"""
    out = dict(spec)
    if not spec.get("kernel_kwargs"):
        return out
    kw = {}
    name = spec["name"]
    for key, value in spec["kernel_kwargs"].items():
        if key == "parameters":
            n = len(value)
            if n % 3 == 0:
                kw[key] = [x for _ in range(n // 3) for x in
                           (draw(num(0.2, 1.0)), draw(num(0, 1)), draw(num(0.05, 0.4)))]
            else:
                kw[key] = [x for _ in range(n // 2) for x in (draw(num(0, 1)), draw(num(0.05, 0.4)))]
        elif key == "omega":
            kw[key] = draw(num(1, 30))
        elif key == "mu":
            kw[key] = draw(num(0.2, 1))
        elif key == "sigma":
            kw[key] = draw(num(0.3, 0.6))
        elif key == "r_i":
            kw[key] = clear_of(spec["radius"], draw(num(0.05, 0.9)))
        elif key == "r_a":
            kw[key] = clear_of(spec["radius"], draw(num(0.95, 1.3)))
    out["kernel_kwargs"] = kw
    if name != "LaplacianOfGaussian" and kernel_weight(out) < 0.05:
        return dict(spec)
    return out


def rule_vector(case, lenia=False):
    out = [v for f in case["gen"] for v in function_vector(f)]
    if not lenia:
        out += [v for f in case["per"] for v in function_vector(f)]
        out += list(kernel_vector(case["nbhd"][0]))
    return np.array(out, dtype=float)


@st.composite
def rewritten(draw, case):
    """the case with other values of everything its parameter vector holds"""
    out = dict(case)
    cls = case["cls"]
    if cls == "RxnDfn":
        out.update({k: v for k, v in draw(gray_scott()).items() if k in ("du", "dv", "f", "k")})
        return out
    if cls == "NCA":
        out.update(wseed=draw(seeds), wscale=draw(num(0.1, 2.0)))
    else:
        out["gen"] = [with_vector(f, draw(new_values(f))) for f in case["gen"]]
    if cls not in ("NCA", "Lenia"):
        out["per"] = [with_vector(f, draw(new_values(f))) for f in case["per"]]
    if cls != "Lenia":
        out["nbhd"] = [draw(new_kernel(k)) for k in case["nbhd"]]
    return out


def vector(case):
    """the parameter vector of a case"""
    if case["cls"] == "RxnDfn":
        return np.array([case["du"], case["dv"], case["f"], case["k"]])
    if case["cls"] == "NCA":
        return nca_vector(case)
    return rule_vector(case, lenia=case["cls"] == "Lenia")


def check_step(ca, case, grid, what="step", model=None, wide=1.0):
    """the real step against the model of a case (skips cells decided by rounding)"""
    import torch
    from harness import expect
    g = arr(grid)
    if near_threshold(case, g):
        return False
    want, tol = step_tol(model or make_model(case), case, g)
    with torch.no_grad():
        got = arr(ca(grid))
    expect(worst(got, want, tol * wide) <= 0,
           f"{what} differs from the rule by {np.abs(got - want).max():.3g}")
    return bool(np.abs(want - g).max() > 1e-4)


def same_step(a, b, grid, what, tol=0.0):
    """two CAs step a grid identically"""
    import torch
    from harness import expect
    for ca in (a, b):
        ca.reset()
        if hasattr(ca, "prev_dt"):
            ca.prev_dt = 0.2        # the step size of the past is no part of the rule
    with torch.no_grad():
        np.random.seed(5)
        one = arr(a(grid.clone()))
        np.random.seed(5)
        two = arr(b(grid.clone()))
    expect(one.shape == two.shape and np.abs(one - two).max() <= tol,
           f"{what}: steps differ by {np.abs(one - two).max() if one.shape == two.shape else 'shape'}")
    return bool(np.abs(one - arr(grid)).max() > 1e-4)


# histories of setters ----------------------------------------------------------


def kernel_ok(spec):
    r = spec["radius"]
    if spec["name"] == "SmoothLifeKernel":
        d = np.unique(ref.distances(r) / r)
        for value in spec["kernel_kwargs"].values():
            if value not in (0.0, 1.0) and np.abs(d - value).min() < 1e-6:
                return False
    if spec["name"] in ("MooreLike", "InnerMoore", "LaplacianOfGaussian"):
        return True
    return kernel_weight(spec) >= 0.05


SETTERS = ["dt", "radius", "kernel", "params", "step"]


@st.composite
def setter(draw, case, kinds=None, max_radius=4):
    """one operation on a CA currently described by `case`"""
    kinds = list(kinds or SETTERS)
    if case["cls"] == "RxnDfn":
        kinds += ["dx", "du", "dv"]
    kind = draw(st.sampled_from(kinds))
    after = {k: v for k, v in case.items()}
    op = {"op": kind, "form": draw(forms)}
    if kind == "dt":
        after["dt"] = op["value"] = draw(st.one_of(num(0.01, 1.0), num(0.01, 1.0), num(1.0, 3.0), st.just(1)))
    elif kind == "radius":
        r = draw(st.integers(1, max_radius))
        for k in range(max_radius):
            spec = dict(case["nbhd"][0], radius=(r + k - 1) % max_radius + 1)
            if kernel_ok(spec):
                break
        else:
            spec = case["nbhd"][0]
        op["value"] = spec["radius"]
        after["nbhd"] = [spec]
    elif kind == "kernel":
        names = ["LaplacianOfGaussian"] if case["cls"] == "RxnDfn" else KERNELS[:6]
        op["kernel"] = draw(kernel_spec(names=names, radii=st.integers(1, max_radius)))
        after["nbhd"] = [op["kernel"]]
    elif kind == "params":
        after = draw(rewritten(case))
    elif kind == "dx":
        after["dx"] = op["value"] = draw(st.sampled_from([1 / 330., 1 / 143., 0.01, 0.05, 1.0]))
    elif kind == "du":
        after["du"] = op["value"] = draw(num(5e-6, 4e-5, 35))
    elif kind == "dv":
        after["dv"] = op["value"] = draw(num(2e-6, 2e-5, 36))
    after.pop("grid", None)
    op["after"] = after
    return op


def apply_setter(ca, op, grid):
    import torch
    from harness import expect
    kind, form = op["op"], op.get("form", "py")
    if kind in ("dt", "dx", "du", "dv"):
        # a number, a scalar tensor or a tensor of one element
        value = {"py": op["value"], "tensor": torch.tensor(op["value"]), "np": torch.tensor([op["value"]])}[form]
        getattr(ca, {"dt": "set_dt", "dx": "set_dx", "du": "set_diffusion_u",
                     "dv": "set_diffusion_v"}[kind])(value)
    elif kind == "radius":
        ca.set_kernel_radius(op["value"])
    elif kind == "kernel":
        config = to_kernel(op["kernel"], form)
        before = to_kernel(op["kernel"], form)
        ca.set_kernel_config(config)
        expect(equal(config, before), "set_kernel_config changed the dictionary it was given")
        corrupt(config)             # the caller's dictionary is the caller's
    elif kind == "params":
        v = vector(op["after"])
        ca.set_params(v)
    elif kind == "step":
        with torch.no_grad():
            ca(grid)
    ca.eval()


def equal(a, b, tol=0.0):
    """deep equality of configurations (tensors, arrays and numbers by value)"""
    import torch
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(equal(a[k], b[k], tol) for k in a)
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return type(a) is type(b) and a == b
    try:
        x = np.asarray(a.detach().cpu().numpy() if isinstance(a, torch.Tensor) else a, float)
        y = np.asarray(b.detach().cpu().numpy() if isinstance(b, torch.Tensor) else b, float)
    except (TypeError, ValueError):
        return a == b
    return x.size == y.size and bool((np.abs(x.ravel() - y.ravel()) <= tol * (1 + np.abs(y.ravel()))).all())


def corrupt(config):
    """change everything in a configuration in place"""
    import torch
    for key in list(config):
        value = config[key]
        if isinstance(value, dict):
            corrupt(value)
        elif isinstance(value, torch.Tensor):
            with torch.no_grad():
                value.fill_(0.77)
        elif isinstance(value, np.ndarray):
            value[...] = 0.77
        elif isinstance(value, list):
            value[:] = [0.77] * 2
        elif isinstance(value, str):
            config[key] = "corrupted"
        elif isinstance(value, (int, float)):
            config[key] = 7
    config["extra"] = 1


def single(case):
    """reduce a universe to what one configuration file can hold"""
    if case["cls"] in ("NCA", "RxnDfn"):
        return dict(case, nbhd=case["nbhd"][:1])
    return dict(case, I=1, gen=case["gen"][:1], per=case["per"][:1], nbhd=case["nbhd"][:1])


CONFIGURABLE = dict(channels=(1, 1, 1, 2, 4), internals=(1,), dtypes=("f32", "f32", "f64"),
                    radii=st.integers(1, 4))
