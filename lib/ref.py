"""Reference models in numpy/scipy float64, written from the documented rules.

Function specs and kernel specs are plain dicts (see gen.py); nothing here calls
the code under test.
"""
import numpy as np
from scipy import ndimage

PAD = {"circular": "wrap", "reflect": "mirror", "zeros": "constant"}


def gauss(x, mu, sigma):
    return np.exp(-0.5 * ((x - mu) / (1e-9 + sigma)) ** 2)


def mixture_terms(parameters):
    p = [float(v) for v in np.asarray(parameters, dtype=float).ravel()]
    if len(p) % 3 == 0:
        return [(p[i], p[i + 1], p[i + 2]) for i in range(0, len(p), 3)]
    return [(1.0, p[i], p[i + 1]) for i in range(0, len(p), 2)]


def function(spec, x):
    """value of an update/kernel function family at x (float64 array)"""
    x = np.asarray(x, dtype=np.float64)
    name, mode = spec["name"], spec.get("mode", 0)
    growth = (lambda v: 2.0 * v - 1.0) if mode else (lambda v: v)
    if name == "Gaussian":
        return growth(gauss(x, spec["mu"], spec["sigma"]))
    if name == "GaussianMixture":
        v = sum(a * gauss(x, m, s) for a, m, s in mixture_terms(spec["parameters"]))
        return np.clip(growth(v), -1.0 if mode else 0.0, 1.0)
    if name == "DoubleGaussian":
        mu, sg = spec["mu"], spec["sigma"]
        mu = mu * 2 if len(mu) == 1 else mu
        sg = sg * 2 if len(sg) == 1 else sg
        v = gauss(x, mu[0], sg[0]) + gauss(x, mu[1], sg[1])
        return np.clip(growth(v), -1.0 if mode else 0.0, 1.0)
    if name == "DoGaussian":
        dx = spec.get("dx", 1e-2)
        return growth(gauss(x + dx, spec["mu"], spec["sigma"]) - gauss(x - dx, spec["mu"], spec["sigma"]))
    if name == "Polynomial":
        return growth(sum(c * x ** i for i, c in enumerate(spec["coefficients"])))
    if name == "SmoothIntervals":
        alpha = spec.get("alpha", 0.0125)

        def sig(mu):
            with np.errstate(over="ignore"):
                return 1.0 / (1.0 + np.exp(-4.0 * (x - mu) / alpha))
        v = sum((sig(lo) * (1.0 - sig(hi)) for lo, hi in spec["parameters"]), np.zeros_like(x))
        return growth(v)
    if name == "CosOverX2":
        d = np.abs(spec["mu"] - x)
        v = np.cos(spec["omega"] * d) / (1.0 + (10.0 * d) ** 2)
        return v if mode else v + 1.0
    if name == "SmoothLifeKernel":
        return ((x >= spec["r_i"]) & (x <= spec["r_a"])).astype(float)
    if name == "LaplacianOfGaussian":
        s = spec["sigma"]
        v = -(1 / (np.pi * s ** 4)) * (1 - x ** 2 / (2 * s ** 2)) * np.exp(-x ** 2 / (2 * s ** 2))
        v = v - v.mean()
        return v / np.abs(v).sum()
    if name == "ReLU":
        return np.maximum(x, 0.0)
    if name == "Tanh":
        return np.tanh(x)
    if name == "Identity":
        return x
    raise KeyError(name)


def distances(radius):
    ax = np.arange(-radius, radius + 1, dtype=float)
    return np.sqrt(ax[None, :] ** 2 + ax[:, None] ** 2)


def kernel(spec):
    """2-d kernel (float64) of a kernel spec {name, radius, kernel_kwargs}"""
    name, kw = spec["name"], spec.get("kernel_kwargs", {})
    if name == "InnerMoore":
        k = np.zeros((3, 3))
        k[1, 1] = 1.0
        return k
    r = int(spec["radius"])
    if name == "MooreLike":
        k = np.ones((2 * r + 1, 2 * r + 1))
        k[r, r] = 0.0
        return k / k.sum()
    v = function(dict(kw, name=name), distances(r) / r)
    if name == "LaplacianOfGaussian":
        return v
    v = v - v.min()
    return v / (1e-9 + v.sum())


IDENTITY = np.array([[0.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 0.0]])


def conv(grid, kernels, internal, mode):
    """(B, E, H, W) -> (B, I, H, W): every internal channel has one 2-d kernel, which
    it applies to its own external channel (I a multiple of E) or to their sum"""
    b, e, h, w = grid.shape
    out = np.zeros((b, internal, h, w))
    for i in range(internal):
        k = kernels[i % len(kernels)]
        src = range(e) if internal % e else [i // (internal // e)]
        for j in range(b):
            for c in src:
                out[j, i] += ndimage.correlate(grid[j, c], k, mode=PAD[mode], cval=0.0)
    return out


def alive(grid, threshold):
    if grid.shape[1] < 4:
        return grid
    return grid * (grid[:, 3:4] > threshold)


def channels(specs, k):
    return np.stack([function(specs[i], k[:, i]) for i in range(k.shape[1])], axis=1)


class Model:
    """functional CA: identity and neighborhood kernels, genesis/persistence specs"""

    def __init__(self, nbhd, gen, per, dt=0.1, ident=None, external=1, pad="circular",
                 threshold=0.1, half=False):
        self.nbhd = [np.asarray(k, float) for k in nbhd]
        self.ident = [IDENTITY] if ident is None else [np.asarray(k, float) for k in ident]
        self.gen, self.per = list(gen), list(per)
        self.dt, self.external, self.pad = float(dt), external, pad
        self.threshold, self.half = threshold, half

    def parts(self, grid):
        grid = alive(np.asarray(grid, np.float64), self.threshold)
        n_int = len(self.gen)
        n = conv(grid, self.ident, n_int, self.pad)
        k = conv(grid, self.nbhd, n_int, self.pad)
        return grid, n, k

    def weigh(self, v):
        m = v.sum(axis=1, keepdims=True) / (self.external * len(self.gen))
        return np.repeat(m, self.external, axis=1)

    def update(self, n, k):
        return self.weigh((1 - n) * channels(self.gen, k) + n * channels(self.per, k))

    def step(self, grid, dt=None):
        grid, n, k = self.parts(grid)
        return np.clip(grid + (self.dt if dt is None else dt) * self.update(n, k), 0.0, 1.0)

    def step_tol(self, grid, delta, base, dt=None):
        """next grid and, per cell, how far it moves when the convolutions are
        perturbed by delta (rounding), plus base"""
        dt = self.dt if dt is None else dt
        grid, n, k = self.parts(grid)
        mid = self.update(n, k)
        spread = np.zeros_like(mid)
        for d in (delta, -delta):
            spread = np.maximum(spread, np.abs(self.update(n, k + d) - mid))
            spread = np.maximum(spread, np.abs(self.update(n + d, k) - mid))
        # a sign-definite perturbation may cancel between channels: bound by parts
        loose = np.zeros_like(k)
        for d in (delta, -delta):
            loose = np.maximum(loose, np.abs(channels(self.gen, k + d) - channels(self.gen, k)))
            loose = np.maximum(loose, np.abs(channels(self.per, k + d) - channels(self.per, k)))
        bound = (np.abs(1 - n) + np.abs(n)) * loose \
            + delta * (np.abs(channels(self.gen, k)) + np.abs(channels(self.per, k)))
        spread = np.maximum(spread, np.repeat(bound.sum(axis=1, keepdims=True)
                                              / (self.external * len(self.gen)), self.external, axis=1))
        return np.clip(grid + dt * mid, 0.0, 1.0), dt * spread * 2 + base


class LeniaModel(Model):

    def update(self, n, k):
        return self.weigh(channels(self.gen, k))


ACT = {
    "Tanh": np.tanh,
    "ReLU": lambda x: np.maximum(x, 0.0),
    "SiLU": lambda x: x / (1.0 + np.exp(-x)),
    "ELU": lambda x: np.where(x > 0, x, np.expm1(np.minimum(x, 0.0))),
    "Sigmoid": lambda x: 1.0 / (1.0 + np.exp(-x)),
    "Gaussian": lambda x: gauss(x, 0.0, 0.1),
    "Identity": lambda x: x,
}


class NeuralModel:

    def __init__(self, nbhd, weights, act, dt=0.1, internal=1, external=1, pad="circular",
                 ident=None, threshold=0.1, act_params=None):
        self.nbhd = [np.asarray(k, float) for k in nbhd]
        self.ident = [IDENTITY] if ident is None else ident
        self.w, self.act, self.dt = weights, act, float(dt)
        self.internal, self.external, self.pad = internal, external, pad
        self.threshold = threshold
        self.act_params = act_params or [(0.0, 0.1), (0.0, 0.1)]

    def activation(self, x, which):
        if self.act == "Gaussian":
            return gauss(x, *self.act_params[which])
        return ACT[self.act](x)

    def update(self, n, k):
        x = np.concatenate([n, k], axis=1)
        x = np.einsum("oi,bihw->bohw", self.w[0], x)
        x = self.activation(x, 0)
        x = np.einsum("oi,bihw->bohw", self.w[1], x)
        x = self.activation(x, 1)
        x = np.einsum("oi,bihw->bohw", self.w[2], x)
        return np.tanh(x)

    def parts(self, grid):
        grid = alive(np.asarray(grid, np.float64), self.threshold)
        n = conv(grid, self.ident, self.internal, self.pad)
        k = conv(grid, self.nbhd, self.internal, self.pad)
        return grid, n, k

    def step(self, grid):
        grid, n, k = self.parts(grid)
        return np.clip(grid + self.dt * self.update(n, k), 0.0, 1.0)

    def step_tol(self, grid, delta, base):
        grid, n, k = self.parts(grid)
        mid = self.update(n, k)
        spread = np.zeros_like(mid)
        rng = np.random.RandomState(0)
        for _ in range(4):
            sn, sk = rng.choice([-1.0, 1.0], n.shape), rng.choice([-1.0, 1.0], k.shape)
            spread = np.maximum(spread, np.abs(self.update(n + delta * sn, k + delta * sk) - mid))
        return np.clip(grid + self.dt * mid, 0.0, 1.0), self.dt * spread * 8 + base


class GrayScott:

    def __init__(self, lap, du, dv, f, k, dx, dt, pad="circular", ident=None):
        self.lap, self.du, self.dv, self.f, self.k = np.asarray(lap, float), du, dv, f, k
        self.dx, self.dt, self.pad = dx, dt, pad
        self.ident = [IDENTITY] if ident is None else ident

    def step(self, grid):
        grid = np.asarray(grid, np.float64)
        n = conv(grid, self.ident, 2, self.pad)
        lap = conv(grid, [self.lap], 2, self.pad) / self.dx ** 2
        u, v = n[:, 0], n[:, 1]
        du = self.du * lap[:, 0] - u * v * v + self.f * (1 - u)
        dv = self.dv * lap[:, 1] + u * v * v - (self.f + self.k) * v
        return np.clip(grid + self.dt * np.stack([du, dv], axis=1), 0.0, 1.0)

    def tol(self, delta, base):
        return base + self.dt * delta * (max(self.du, self.dv) / self.dx ** 2 * 2 + 4)
