"""C05: kernels against their defining formulas."""
import numpy as np
from hypothesis import strategies as st

import gen
import ref
from harness import Facet, expect

RULE = ("random kernel family, radius 1-20 and parameters; compared with the formula in float64; "
        "non-trivial when the kernel is not constant")
ASSUMPTIONS = ["kernels whose unnormalised range is nearly zero are not generated"]


def symmetric(k, what):
    for name, other in (("flip", k[::-1]), ("mirror", k[:, ::-1]), ("transpose", k.T)):
        expect(np.abs(k - other).max() < 1e-9 + 1e-6 * np.abs(k).max(), f"{what}: not invariant under {name}")


def config_kernel(case, rec):
    from yuca.kernels import get_kernel
    spec = case["kernel"]
    config = gen.to_kernel(spec, case["form"])
    got = get_kernel(config)
    got = gen.arr(got)
    r = spec["radius"]
    expect(got.shape == (1, 1, 2 * r + 1, 2 * r + 1), f"kernel of radius {r} has shape {got.shape}")
    got = got[0, 0]
    want = ref.kernel(spec)
    expect(np.abs(got - want).max() < 1e-5 * np.abs(want).max() + 1e-9,
           f"{spec['name']} differs from its formula by {np.abs(got - want).max():.3g} "
           f"(peak {np.abs(want).max():.3g})")
    if spec["name"] == "LaplacianOfGaussian":
        expect(abs(got.sum()) < 1e-6, "Laplacian does not sum to zero")
        expect(got[r, r] < 0, "Laplacian is not negative at its centre")
        expect(abs(np.abs(got).sum() - 1) < 1e-5, "Laplacian is not normalised")
    else:
        expect(abs(got.sum() - 1) < 1e-5, f"kernel sums to {got.sum()}")
        expect(got.min() >= 0, "negative weight")
        if spec["name"] == "MooreLike":
            expect(got[r, r] == 0, "Moore-like kernel includes the centre")
            off = np.delete(got.ravel(), (got.size - 1) // 2)
            expect(np.abs(off - 1 / off.size).max() < 1e-7, "Moore-like kernel is not uniform")
        else:
            expect(abs(got.min()) < 1e-9, "kernel minimum is not zero")
    symmetric(got, spec["name"])
    again = gen.arr(get_kernel(config))[0, 0]
    expect(np.array_equal(again, got), "the same config gives two different kernels")
    rec.label(spec["name"], "r<=6" if r <= 6 else "r>6")


def identity_kernel(case, rec):
    from yuca.kernels import get_kernel, get_laplacian_kernel
    config = {"name": "InnerMoore"}
    if case["radius"]:
        config["radius"] = case["radius"]
    k = gen.arr(get_kernel(config))
    want = np.zeros((1, 1, 3, 3))
    want[0, 0, 1, 1] = 1.0
    expect(np.array_equal(k, want), "identity kernel does not select exactly the centre")
    lap = gen.arr(get_laplacian_kernel(radius=1))[0, 0]
    expect(np.allclose(lap, [[.25, .5, .25], [.5, -3, .5], [.25, .5, .25]]), "9-point Laplacian")


def helper_kernel(case, rec):
    import yuca.kernels as kernels
    name, r = case["helper"], case["radius"]
    scale, mu, sigma = case["r_scale"], case["mu"], case["sigma"]
    d = ref.distances(r) / r * scale
    if name == "gaussian":
        got = kernels.get_gaussian_kernel(radius=r, mu=mu, sigma=sigma, r_scale=scale)
        v = ref.gauss(d, mu, sigma)
    elif name == "mixture":
        p = case["parameters"]
        got = kernels.get_gaussian_mixture_kernel(radius=r, parameters=np.array(p), r_scale=scale)
        v = ref.function({"name": "GaussianMixture", "parameters": p}, d)
    elif name == "cosx2":
        got = kernels.get_cosx2_kernel(radius=r, mu=mu, omega=case["omega"], r_scale=scale)
        v = ref.function({"name": "CosOverX2", "mu": mu, "omega": case["omega"]}, d)
    elif name == "dogaussian":
        got = kernels.get_dogaussian_kernel(radius=r, mu=mu, sigma=sigma)
        v = ref.function({"name": "DoGaussian", "mu": mu, "sigma": sigma}, d / scale)
    else:
        # edge kernels: difference of two copies displaced by dx along one axis
        ax = np.arange(-r, r + 1, dtype=float)
        xx, yy = ax[None, :], ax[:, None]
        dx = case["dx"]
        if case["mode"]:
            d1, d2 = np.hypot(xx - dx, yy) / r, np.hypot(xx + dx, yy) / r
        else:
            d1, d2 = np.hypot(xx, yy - dx) / r, np.hypot(xx, yy + dx) / r
        fam = {"edge": "Gaussian", "doedge": "DoGaussian"}[name]
        fn = {"edge": kernels.get_gaussian_edge_kernel, "doedge": kernels.get_dogaussian_edge_kernel}[name]
        got = fn(radius=r, mu=mu, sigma=sigma, mode=case["mode"], dx=dx)
        spec = {"name": fam, "mu": mu, "sigma": sigma}
        v = ref.function(spec, d1) - ref.function(spec, d2)
    v = v - v.min()
    got = gen.arr(got)
    expect(got.shape == (1, 1, 2 * r + 1, 2 * r + 1), f"{name}: shape {got.shape}")
    if v.sum() < 1e-3:
        rec.mark_trivial()
        return
    want = v / (1e-9 + v.sum())
    expect(np.abs(got[0, 0] - want).max() < 1e-5 * np.abs(want).max() + 1e-9 + 2e-6 / v.sum(),
           f"{name} kernel differs from its formula by {np.abs(got[0, 0] - want).max():.3g}")
    expect(abs(got.sum() - 1) < 1e-4, f"{name} kernel sums to {got.sum()}")
    if name not in ("edge", "doedge"):
        symmetric(got[0, 0], name)
    rec.label(name)


def nearby(case, rec):
    """many kernels of one process with close parameters, built in any order, some scribbled on"""
    import torch
    from yuca.kernels import get_kernel
    base, form = case["kernel"], case["form"]
    built = []
    for delta, radius, spoil in case["others"]:
        spec = gen.copy.deepcopy(base)
        spec["radius"] = radius or base["radius"]
        kw = spec["kernel_kwargs"]
        for key in kw:
            kw[key] = [x + delta for x in kw[key]] if isinstance(kw[key], list) else kw[key] + delta
        if gen.kernel_weight(spec) < 0.05:
            continue
        got = get_kernel(gen.to_kernel(spec, form))
        value = gen.arr(got)[0, 0].copy()
        want = ref.kernel(spec)
        # 32-bit parameters: the sampled function is steep where sigma is small
        tol = 2e-5 * np.abs(want).max() + 1e-9
        expect(np.abs(value - want).max() < tol,
               f"{spec['name']} (number {len(built) + 1} of its kind) differs from its formula by "
               f"{np.abs(value - want).max():.3g} (peak {np.abs(want).max():.3g})")
        built.append((spec, want, got, value, spoil))
        if spoil:
            with torch.no_grad():
                got.detach().mul_(0.5).add_(1.0)
    for spec, want, got, value, spoil in built:
        if not spoil:
            expect(np.array_equal(gen.arr(got)[0, 0], value), "a kernel changed after it was built")
        again = gen.arr(get_kernel(gen.to_kernel(spec, form)))[0, 0]
        expect(np.array_equal(again, value), "the same configuration built again gives another kernel")
    diff = [np.abs(a[1] - b[1]).max() / a[1].max() for a in built for b in built if a[1].shape == b[1].shape]
    if not diff or max(diff) < 1e-4:
        rec.mark_trivial()


def handed(case, rec):
    """a kernel handed to a CA directly: any number of dimensions, array or tensor"""
    import torch
    torch.set_default_dtype(torch.float32)
    e = case["channels"]
    cls = gen.classes()[case["cls"]]
    ca = cls(internal_channels=e, external_channels=e, conv_mode=case["pad"], hidden_channels=4)
    rng = np.random.RandomState(case["seed"])
    side = 2 * case["radius"] + 1
    kernel = rng.randint(-9, 10, (side, side)) / 8.0
    shape = (1,) * (case["dims"] - 2) + (side, side)
    given = torch.tensor(kernel.tolist()).reshape(shape)
    if case["as"] == "array" and case["what"] == "neighborhood":
        given = kernel.astype(case["width"]).reshape(shape)
    if case["what"] == "neighborhood":
        ca.add_neighborhood_kernel(given)
        ca.initialize_neighborhood_layer()
        conv = ca.neighborhood_conv
    else:
        ca.add_identity_kernel(kernel=given)
        ca.initialize_id_layer()
        conv = ca.id_conv
    given[...] = 7.0                # the caller's array is the caller's
    grid = rng.randint(0, 17, (case["batch"], e, side + case["more"], side + 1)) / 16.0
    with torch.no_grad():
        got = gen.arr(conv(torch.tensor(grid.tolist())))
    want = ref.conv(grid, [kernel], e, case["pad"])
    expect(got.shape == want.shape, f"the {case['what']} grid has shape {got.shape}")
    expect(np.abs(got - want).max() < 1e-4,
           f"a {case['dims']}-d {case['what']} kernel is applied as another one: off by {np.abs(got - want).max():.3g}")
    rec.label(case["cls"], case["what"], f"{case['dims']}d", case["as"])


FACETS = [
    Facet("handed", st.fixed_dictionaries({
        "cls": st.sampled_from(["CCA", "Lenia", "NCA"]), "channels": st.sampled_from([1, 1, 2, 4]),
        "pad": st.sampled_from(["circular", "circular", "reflect", "zeros"]), "radius": st.integers(1, 5),
        "dims": st.integers(2, 4), "as": st.sampled_from(["tensor", "array"]),
        "width": st.sampled_from(["float32", "float64"]), "what": st.sampled_from(["neighborhood", "neighborhood", "identity"]),
        "batch": st.integers(1, 2), "more": st.integers(0, 5), "seed": gen.seeds}), handed, 150, 3000),
    Facet("config", st.fixed_dictionaries({
        "kernel": gen.kernel_spec(names=gen.KERNELS, radii=st.integers(1, 20)), "form": gen.forms}),
        config_kernel, 600, 12000),
    Facet("nearby", st.fixed_dictionaries({
        "kernel": gen.kernel_spec(names=["Gaussian", "GaussianMixture", "CosOverX2", "DoGaussian"],
                                  radii=st.integers(2, 9)), "form": gen.forms,
        "others": st.lists(st.tuples(st.one_of(st.just(0.0), st.sampled_from([1e-3, 3e-4, 1e-4, 4e-5, -4e-5, 0.05])),
                                     st.sampled_from([0, 0, 0, 3]), st.booleans()), min_size=2, max_size=6)}),
        nearby, 250, 5000),
    Facet("identity", st.fixed_dictionaries({"radius": st.integers(0, 4)}), identity_kernel, 5, 5),
    Facet("helpers", st.fixed_dictionaries({
        "helper": st.sampled_from(["gaussian", "mixture", "cosx2", "dogaussian", "edge", "doedge"]),
        "radius": st.integers(1, 16), "mu": st.one_of(gen.num(0, 1), gen.num(-0.4, 1.6)), "sigma": gen.num(0.1, 0.6),
        "omega": gen.num(1, 30), "r_scale": st.sampled_from([1.0, 1.0, 0.5, 1.5, 2.0]),
        "mode": st.integers(0, 1), "dx": st.sampled_from([0.01, 0.1, 0.5, 1.0]),
        "parameters": st.one_of(
            st.lists(gen.num(0.1, 0.9), min_size=2, max_size=2),
            st.lists(gen.num(0.1, 0.9), min_size=3, max_size=3),
            st.lists(gen.num(0.1, 0.9), min_size=4, max_size=4),
            st.lists(gen.num(0.1, 0.9), min_size=6, max_size=6))}),
        helper_kernel, 600, 12000),
]
