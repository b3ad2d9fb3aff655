"""C25: shipped universes: restored rules, gliders, persistent patterns."""
import functools
import glob
import hashlib
import os

import numpy as np
from hypothesis import strategies as st

import gen
import harness
import ref
from harness import Facet, expect
from C24 import case_class

RULE = ("every shipped configuration against a reference model built from its file, on random grids; shipped "
        "Life gliders and spaceships with their known period and displacement, shipped continuous, neural and "
        "reaction-diffusion patterns, all at random positions, orientations and torus sizes; non-trivial when "
        "the grid moves")
QUICK_FACTOR = 1
ASSUMPTIONS = ["patterns that do not survive in their shipped configuration (wave gliders stored mid-collapse, "
               "evolved patterns that grow) are not in the list of known persistent ones"]

# period, distance travelled in one period (along one axis / both axes)
GLIDERS = {
    "gol_reflex_glider000": (4, 1, True), "gol_small_spaceship000": (4, 2, False),
    "gol_medium_spaceship000": (4, 2, False), "gol_large_spaceship000": (4, 2, False),
    "gol_25P3H1V0_1000": (3, 1, False),
}
# persistent patterns; the ones of the second list are costly (large kernels or neural)
CHEAP = ["orbium_orbium000", "synorbium_orbium000", "o_bicaudatus_orbium000", "scutium_gravidus_single000",
         "smoothlife_single_glider000", "discutium_solidus_6wide_waveglider000",
         "discutium_valvatus_5wide_waveglider000", "triscutium_solidus_triscutium000",
         "p_cavus_labens_4wide_waveglider000", "uskate_berrycup000", "uskate_berrycup001",
         "uskate_daedalus000", "uskate_daedalus001", "uskate_glider000", "neuroreflex_glider000"]
DEAR = ["geminium000", "geminium_hydrogeminium_natans000", "geminium2_wobble_glider000",
        "s11_config_evolved_ca_slow_glider000", "s643_s643_frog000", "s643_s643_3wide_wobble_glider000",
        "s7_config_spiky_frog_egg000", "frog000", "s613_s613_frog000",
        "p_arcus_labens_fixed_5wide_waveglider000", "neurosynorbium000", "neurosingle_glider000"]


@functools.lru_cache(None)
def shipped(name):
    zoo = os.path.join(harness.REPO, "yuca", "zoo")
    array = np.load(os.path.join(zoo, name + ".npy"))
    for line in open(os.path.join(zoo, name + ".csv")):
        if line.startswith("ca_config,"):
            return array.reshape((-1,) + array.shape[-2:]).astype(np.float64), line.split(",", 1)[1].strip()
    raise harness.HarnessError(name)


def pick(case):
    """spreads what Hypothesis likes to draw (small numbers) evenly"""
    return int(hashlib.sha1(str(case["index"]).encode()).hexdigest()[:8], 16)


def config_of(path):
    return np.load(path, allow_pickle=True).reshape(1)[0]


def universe(name, how, dtype):
    """the CA of a shipped configuration, by one of the documented ways"""
    import torch
    torch.set_default_dtype(torch.float64 if dtype == "f64" else torch.float32)
    path = os.path.join(harness.REPO, "ca_configs", name)
    cls = case_class(os.path.basename(name), None)
    # configurations saved without their constructor arguments need them given
    kw = {"hidden_channels": 256} if name.startswith("nca_clone") else {}
    if how == "kwarg":
        ca = cls(ca_config=name, **kw)
    else:
        ca = cls(**kw)
        if how == "dict":
            ca.load_config(config_of(path))
        elif how == "newline":
            ca.restore_config(name + "\n", verbose=False)
        else:
            if how == "twice":
                other = "synorbium.npy" if cls.__name__ == "CCA" else name
                ca.restore_config(other, verbose=False)
            ca.restore_config(path if how == "path" else name, verbose=False)
    ca.no_grad()
    ca.eval()
    return ca


def place(array, channels, case, dtype):
    """the pattern somewhere on a torus with room around it, in one of the 8 orientations"""
    import torch
    a = np.rot90(array, case["turn"] % 4, axes=(1, 2))
    if case["turn"] >= 4:
        a = a[:, :, ::-1]
    h, w = a.shape[1:]
    grid = np.zeros((1, channels, h + case["room"][0], w + case["room"][1]))
    n = min(channels, len(a))
    grid[0, :n, :h, :w] = a[:n]
    grid = np.roll(grid, case["shift"], (2, 3))
    return torch.tensor(grid.copy(), dtype=torch.float64 if dtype == "f64" else torch.float32)


# --------------------------------------------------------------------------
# restored rules


def as_list(v):
    return np.asarray(v.tolist() if hasattr(v, "tolist") else v, float)


def function_of(config):
    spec = {"name": config["name"], "mode": config.get("mode", 0)}
    spec["parameters"] = as_list(config["parameters"]).tolist()
    if "alpha" in config:
        spec["alpha"] = float(config["alpha"])
    return spec


def kernel_of(config):
    if config is None:
        return ref.IDENTITY
    spec = {"name": config["name"], "radius": config.get("radius", 1)}
    kw = config.get("kernel_kwargs", {})
    spec["kernel_kwargs"] = {k: as_list(v).ravel().tolist() if np.size(as_list(v)) > 1 else float(v)
                             for k, v in kw.items()}
    return ref.kernel(spec)


def model_of(config):
    nbhd = kernel_of(config["neighborhood_kernel_config"])
    ident = [kernel_of(config.get("identity_kernel_config"))]
    dt = float(config.get("dt", 0.1))
    if "genesis_config" in config:
        return ref.Model([nbhd], [function_of(config["genesis_config"])],
                         [function_of(config["persistence_config"])], dt=dt, ident=ident)
    if "feed_rate" in config:
        p = [float(v) for v in config["params"]]
        return ref.GrayScott(nbhd, p[0], p[1], p[2], p[3], float(config["dx"]), dt, ident=ident)
    # neural: two inputs -> hidden -> hidden -> 1
    p = np.asarray(config["params"], float)
    h = config.get("instant_kwargs", {}).get("hidden_channels", 256)
    kernel = sum(np.size(as_list(v)) for v in config["neighborhood_kernel_config"].get("kernel_kwargs", {}).values())
    extra = len(p) - (2 * h + h * h + h) - kernel
    act = config.get("instant_kwargs", {}).get("activation", "Gaussian" if extra == 4 else "Tanh")
    if extra not in (0, 4):
        raise harness.HarnessError("neural parameters of unexpected length")
    w, acts, at = [], [], 0
    for n, (rows, cols) in enumerate(((h, 2), (h, h), (1, h))):
        w.append(p[at:at + rows * cols].reshape(rows, cols))
        at += rows * cols
        if n < 2 and extra:
            acts.append((p[at], p[at + 1]))
            at += 2
    return ref.NeuralModel([nbhd], w, act, dt=dt, ident=ident, act_params=acts or None)


def restore(case, rec):
    import torch
    folder = os.path.join(harness.REPO, "ca_configs")
    names = sorted(os.path.relpath(f, folder) for f in glob.glob(folder + "/**/*.npy", recursive=True))
    expect(len(names) >= 40, f"only {len(names)} configurations are shipped")
    name = names[pick(case) % len(names)]
    ca = universe(name, case["how"], case["dtype"])
    twin = universe(name, "name", case["dtype"])
    config = config_of(os.path.join(folder, name))
    model = model_of(config)
    rng = np.random.RandomState(case["seed"])
    r = config["neighborhood_kernel_config"].get("radius", 1)
    size = [r + 2 + case["room"][0] % 24, r + 2 + case["room"][1] % 24]
    g = rng.rand(1, 2 if "feed_rate" in config else 1, *size) * case["level"]
    if "conway" in name or "morley" in name:
        g = np.round(g)
    if "smoothlife" in name:
        g = np.round(g, 2)
    g = g.astype(np.float32).astype(float)
    grid = torch.tensor(g, dtype=torch.float64 if case["dtype"] == "f64" else torch.float32)
    with torch.no_grad():
        got, other = gen.arr(ca(grid)), gen.arr(twin(grid))
    expect(np.array_equal(got, other), f"{name} restored by {case['how']} and by name step differently")
    delta, base = gen.DELTA[case["dtype"]], gen.BASE[case["dtype"]]
    if isinstance(model, ref.GrayScott):
        want, tol = model.step(g), model.tol(delta, base)
    else:
        want, tol = model.step_tol(g, delta * 3, base * 3)
    # some configurations keep their parameters in single precision
    slack = 0.0 if isinstance(model, ref.NeuralModel) else 1e-6
    expect(gen.worst(got, want, tol + slack) <= 0,
           f"{name} does not step as configured: off by {np.abs(got - want).max():.3g}")
    dt = float(config.get("dt", 0.1))
    expect(abs(float(ca.dt) - dt) < 1e-6, f"{name} restored with dt {float(ca.dt)}, configured {dt}")
    rec.label(type(model).__name__, case["how"])
    if np.abs(want - g).max() < 1e-4:
        rec.mark_trivial()


# --------------------------------------------------------------------------
# patterns


def life(case, rec):
    """exact gliders of Life"""
    import torch
    name = sorted(GLIDERS)[pick(case) % len(GLIDERS)]
    period, distance, diagonal = GLIDERS[name]
    array, config = shipped(name)
    ca = universe(config, case["how"], case["dtype"])
    grid = place((array > 0.5).astype(float), 1, case, case["dtype"])
    start, path = grid, None
    mass = float(start.sum())
    axes = [(a, b) for a in (-distance, distance) for b in (-distance, distance)] if diagonal else \
        [(-distance, 0), (distance, 0), (0, -distance), (0, distance)]
    with torch.no_grad():
        for n in range(case["periods"]):
            for _ in range(period):
                grid = ca(grid)
                m = float(grid.sum())
                expect(0.5 * mass <= m <= 2 * mass, f"{name}: mass {m} of {mass} in period {n}")
            if path is None:
                fits = [p for p in axes if torch.allclose(torch.roll(start, p, (2, 3)), grid, atol=1e-4)]
                expect(fits, f"{name} did not travel by {distance} in {period} steps")
                path = fits[0]
            want = torch.roll(start, tuple(v * (n + 1) for v in path), (2, 3))
            expect(torch.allclose(want, grid, atol=1e-4), f"{name} is off its path after {n + 1} periods")
    rec.label(name, f"turn {case['turn']}")


def tracks(ca, grid, steps, watch, every=10):
    """mass and torus centre of the grid over time"""
    import torch
    masses, centres = [], []
    torch.set_flush_denormal(True)      # vanishing tails are slow to compute otherwise
    with torch.no_grad():
        for n in range(steps + 1):
            g = gen.arr(grid)[0]
            m = g[watch]
            total = m.sum()
            masses.append(float(total))
            if n % every == 0 and total > 0:
                c = []
                for axis in (0, 1):
                    line = m.sum(1 - axis)
                    k = np.exp(2j * np.pi * np.arange(len(line)) / len(line))
                    c.append(np.angle((line * k).sum()) * len(line) / (2 * np.pi))
                centres.append(c)
            if n < steps:
                grid = ca(grid)
    torch.set_flush_denormal(False)
    return np.array(masses), np.array(centres), m.shape


def persist(names, case, rec):
    name = names[pick(case) % len(names)]
    array, config = shipped(name)
    ca = universe(config, case["how"], case["dtype"])
    # room on each side: beyond the kernel's reach, so that a pattern never meets itself
    room = [2 * int(ca.kernel_radius) + 6 + r % 20 for r in case["room"]]
    channels = 2 if "uskate" in name else 1
    if "uskate" in name:
        # the surroundings of the pattern: substrate everywhere
        pad = np.zeros((2,) + tuple(n + 20 for n in array.shape[1:]))
        pad[0] = 1.0
        pad[:, 10:-10, 10:-10] = array
        array, room = pad, [case["room"][0] % 8, case["room"][1] % 8]
    grid = place(array, channels, {**case, "room": room}, case["dtype"])
    if "uskate" in name:
        import torch
        blank = (grid == 0).all(dim=1, keepdim=True)
        grid = torch.cat([torch.where(blank, torch.ones_like(grid[:, :1]), grid[:, :1]), grid[:, 1:]], dim=1)
    masses, centres, shape = tracks(ca, grid, case["steps"], channels - 1)
    low, high = masses.min() / masses[0], masses.max() / masses[0]
    expect(np.isfinite(masses).all(), f"{name}: the mass is not finite")
    expect(low >= 0.5, f"{name} vanishes: {low:.2f} of its mass at step {int(masses.argmin())}")
    expect(high <= 2.0, f"{name} explodes: {high:.2f} of its mass at step {int(masses.argmax())}")
    rec.label(name, f"turn {case['turn']}", case["dtype"])
    return masses, centres, shape


# universes and patterns that the code itself builds: shipped twin, builder, pattern, steps, bounds
BUILT = {
    "orbium": ("orbium.npy", "get_orbium_config", {}, "get_orbium", 120, True),
    "geminium": ("geminium.npy", "get_geminium_config", {}, "get_geminium", 6, True),
    "smoothlife": ("smoothlife.npy", "get_smooth_life_config", {}, "get_smooth_glider", 60, True),
    "life": ("conway_life.npy", "get_life_like_config", {}, "get_glider", 60, True),
    "morley": ("morley.npy", "get_life_like_config", {"birth": [3, 6, 8], "survival": [2, 4, 5]}, "get_puffer",
               60, False),
}


def built(case, rec):
    import torch
    import yuca.configs
    import yuca.patterns
    name = sorted(BUILT)[pick(case) % len(BUILT)]
    config, builder, kw, pattern, steps, persists = BUILT[name]
    twin = universe(config, case["how"], case["dtype"])
    ca = type(twin)()
    given = getattr(yuca.configs, builder)(**kw)
    again = getattr(yuca.configs, builder)(**kw)
    ca.load_config(given)
    gen.corrupt(given)              # what one caller does to a configuration is no other's concern
    expect(gen.equal(again, getattr(yuca.configs, builder)(**kw)),
           f"{builder} does not give the same configuration twice")
    ca.no_grad()
    ca.eval()
    here = os.getcwd()
    os.chdir(harness.REPO)          # some patterns are read from the data folder of the source tree
    try:
        array = np.array(getattr(yuca.patterns, pattern)(), dtype=float)
        other = getattr(yuca.patterns, pattern)()
    finally:
        os.chdir(here)
    other[...] = 0.5
    array = array.reshape((-1,) + array.shape[-2:])[:1]
    room = [2 * int(twin.kernel_radius) + 6 + r % 20 for r in case["room"]]
    a = b = start = place(array, 1, {**case, "room": room}, case["dtype"])
    mass = float(start.sum())
    period = 4
    with torch.no_grad():
        for n in range(steps):
            b = ca(b)
            if n < 3:
                a = twin(a)
                expect(torch.allclose(a, b, atol=1e-5), f"{builder} and {config} step {pattern} differently")
            if persists:
                m = float(b.sum())
                expect(0.5 * mass <= m <= 2 * mass, f"{pattern} in {builder}: mass {m:.1f} of {mass:.1f} at step {n}")
            if name == "life" and n + 1 == period:
                at = [(y, x) for y in (-1, 1) for x in (-1, 1)]
                expect(any(torch.allclose(torch.roll(start, s, (2, 3)), b, atol=1e-4) for s in at),
                       "the glider is not displaced by one cell after four steps")
    moved = float((b - start).abs().max())
    expect(moved > 0.1, f"{pattern} stands still")
    grid = torch.tensor(np.random.RandomState(case["seed"]).rand(1, 1, room[0] + 5, room[1]),
                        dtype=b.dtype)
    if name in ("life", "morley"):
        grid = grid.round()
    with torch.no_grad():
        expect(float((ca(grid) - twin(grid)).abs().max()) < 1e-4, f"{builder} and {config} step differently")
    rec.label(name)


def cheap(case, rec):
    persist(CHEAP, case, rec)


def dear(case, rec):
    persist(DEAR, case, rec)


def unwrapped(centres, shape):
    out = [centres[0]]
    for c in centres[1:]:
        d = c - out[-1]
        out.append(out[-1] + (d + np.array(shape) / 2) % np.array(shape) - np.array(shape) / 2)
    return np.array(out)


def orbium(case, rec):
    """steady travel: the same speed and direction in every stretch, whatever the placement"""
    name = ["orbium_orbium000", "synorbium_orbium000"][pick(case) % 2]
    masses, centres, shape = persist([name], case, rec)
    path = unwrapped(centres, shape)[5:]        # settled after 50 steps
    d = np.diff(path, axis=0)
    speed = np.hypot(d[:, 0], d[:, 1])
    mean = d.mean(0)
    v = np.hypot(*mean)
    expect(v > 0.5, f"{name} travels {v:.2f} cells in 10 steps")
    expect(speed.min() > 0.95 * v and speed.max() < 1.05 * v,
           f"{name} travels {speed.min():.2f} to {speed.max():.2f} cells in 10 steps")
    turn = np.abs(d - mean).max() / v
    expect(turn < 0.06, f"{name} does not keep its direction")
    lo, hi = SPEED[name]
    expect(lo < v < hi, f"{name} travels {v:.3f} cells in 10 steps, known to travel {lo} to {hi}")


SPEED = {"orbium_orbium000": (5.95, 6.08), "synorbium_orbium000": (5.96, 6.10)}   # cells in 10 steps

WAYS = st.sampled_from(["name", "name", "dict", "path", "newline", "kwarg", "twice"])
PLACE = {"index": st.integers(0, 10 ** 9), "how": WAYS, "dtype": st.sampled_from(["f32", "f32", "f64"]),
         "turn": st.integers(0, 7), "room": st.tuples(st.integers(8, 60), st.integers(8, 60)).map(list),
         "shift": st.tuples(st.integers(0, 99), st.integers(0, 99)).map(list)}

FACETS = [
    Facet("restore", st.fixed_dictionaries({**PLACE, "seed": gen.seeds, "level": st.sampled_from([1.0, 0.5, 0.9])}),
          restore, 120, 1500),
    Facet("built", st.fixed_dictionaries({**PLACE, "seed": gen.seeds}), built, 40, 600),
    Facet("life", st.fixed_dictionaries({**PLACE, "periods": st.integers(1, 12)}), life, 80, 600),
    Facet("cheap", st.fixed_dictionaries({**PLACE, "steps": st.integers(100, 260)}), cheap, 45, 500),
    Facet("cheap2", st.fixed_dictionaries({**PLACE, "steps": st.integers(100, 260)}), cheap, 45, 500),
    Facet("cheap_long", st.fixed_dictionaries({**PLACE, "steps": st.just(1040)}), cheap, 14, 150),
    Facet("dear", st.fixed_dictionaries({**PLACE, "steps": st.integers(30, 70)}), dear, 10, 300),
    Facet("dear_long", st.fixed_dictionaries({**PLACE, "steps": st.integers(300, 1040)}), dear, 1, 48),
    Facet("orbium", st.fixed_dictionaries({**PLACE, "steps": st.integers(200, 400)}), orbium, 30, 400),
]
