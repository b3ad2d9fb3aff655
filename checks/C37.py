"""C37: the notebook helpers against the rules and pictures they illustrate."""
import contextlib
import glob
import importlib
import os
import shlex
import sys
import types

import numpy as np
from hypothesis import strategies as st

from harness import Facet, REPO, expect

RULE = ("random parameters, rules, grids, kernels and frame folders; non-trivial when the grid, the curve or the frames "
        "are not constant")
ASSUMPTIONS = ["the notebooks' own modules that are not installed (IPython) are stood in for by empty ones",
               "make_gif runs in a scratch folder, and a shell command it would start is carried out there only if it "
               "removes files of that folder"]


def helpers():
    if "notebooks.my_helpers" in sys.modules:
        return sys.modules["notebooks.my_helpers"]
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot    # looks for a running IPython, so before the stand-in
    stand_ins = []
    for name in ("IPython",):
        try:
            importlib.import_module(name)
        except ImportError:
            sys.modules[name] = types.ModuleType(name)
            stand_ins.append(name)
    try:
        return importlib.import_module("notebooks.my_helpers")
    finally:
        for name in stand_ins:
            del sys.modules[name]


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool((np.abs(a - b) <= tol * (1 + np.abs(b))).all())


def gaussian(x, mu, sigma):
    return np.exp(-0.5 * ((np.asarray(x, float) - mu) / sigma) ** 2)


def steps(x, a, alpha):
    total = np.zeros_like(np.asarray(x, float))
    with np.errstate(over="ignore"):
        for lo, hi in a:
            total = total + (1 / (1 + np.exp(-4 * (x - lo) / alpha))) * (1 - 1 / (1 + np.exp(-4 * (x - hi) / alpha)))
    return total


def formulas(case, rec):
    h = helpers()
    rng = np.random.RandomState(case["seed"])
    x = rng.uniform(-0.5, 1.5, case["shape"])
    kept = x.copy()
    mu, sigma = case["mu"], case["sigma"]
    expect(close(h.gaussian(x, mu=mu, sigma=sigma), gaussian(x, mu, sigma)), "gaussian is not exp(-((x-mu)/sigma)^2/2)")
    alpha = case["alpha"]
    with np.errstate(over="ignore"):
        expect(close(h.sigmoid_1(x, mu, alpha), 1 / (1 + np.exp(-4 * (x - mu) / alpha))), "sigmoid_1")
        first = h.get_smooth_steps_fn(a=case["a"], alpha=alpha)
        other = h.get_smooth_steps_fn(a=case["b"], alpha=2 * alpha)
        for fn, a, width in ((first, case["a"], alpha), (other, case["b"], 2 * alpha), (first, case["a"], alpha)):
            expect(close(fn(x), steps(x, a, width)), f"smooth steps of {a} with alpha {width}")
    expect(np.array_equal(x, kept), "an argument was changed")

    # the functional CA's own SmoothIntervals are the same function
    import torch
    from yuca.activations import SmoothIntervals
    dtype = torch.get_default_dtype()
    torch.set_default_dtype(torch.float64)
    try:
        if case["a"]:
            ours = SmoothIntervals(parameters=case["a"], alpha=alpha, mode=0)
            want = np.array(ours(torch.tensor(x.tolist())).detach().tolist()).reshape(x.shape)
            expect(close(first(x), want, 1e-6), f"smooth steps of {case['a']} differ from the update function of the CAs")
    finally:
        torch.set_default_dtype(dtype)

    r = case["radius"]
    rr = np.array([[np.hypot(i, j) / r for j in range(-r, r + 1)] for i in range(-r, r + 1)])
    shapes = {"gaussian": (h.gaussian, gaussian(rr, mu, sigma), {"mu": mu, "sigma": sigma}),
              "box": (lambda u, hi: 1.0 * (u <= hi), 1.0 * (rr <= case["hi"]), {"hi": case["hi"]}),
              "steps": (lambda u, **kw: h.get_smooth_steps_fn(**kw)(u), steps(rr, [[0.2, 0.9]], alpha),
                        {"a": [[0.2, 0.9]], "alpha": alpha})}
    fn, values, args = shapes[case["kernel"]]
    if values.sum() > 1e-6:
        for again in (False, True):
            k = h.get_kernel(fn, dict(args), radius=r)
            expect(close(k, values / values.sum()), f"{case['kernel']} kernel of radius {r} with {args}"
                                                   f"{' after the first one was changed' if again else ''}")
            k[k > 0.01] = 1.0
        if r == 13:
            expect(close(h.get_kernel(fn, dict(args)), values / values.sum()), "kernel of the default radius")
    rec.label(case["kernel"], f"intervals{len(case['a'])}")
    if not case["a"]:
        rec.mark_trivial()


def convolution(case, rec):
    h = helpers()
    rng = np.random.RandomState(case["seed"])
    kh, kw = case["kshape"]
    gh, gw = case["gshape"]
    kernels = [rng.randn(kh, kw), rng.rand(kw, kh)]
    grids = [rng.rand(gh, gw) for _ in range(2)]
    if case["binary"]:
        grids = [1.0 * (g > 0.5) for g in grids]
    fns = [h.get_conv_fn(k) for k in kernels]
    for n in case["order"]:
        k, g = kernels[n % 2], grids[n // 2]
        before = g.copy(), k.copy()
        want = np.zeros_like(g)
        ch, cw = k.shape[0] // 2, k.shape[1] // 2
        for i in range(k.shape[0]):
            for j in range(k.shape[1]):
                want += k[i, j] * np.roll(np.roll(g, i - ch, 0), j - cw, 1)
        expect(close(fns[n % 2](g), want, 1e-8), f"a {k.shape} kernel on a {g.shape} grid: not the periodic convolution")
        expect(np.array_equal(g, before[0]) and np.array_equal(k, before[1]), "grid or kernel changed")
    rec.label(f"kernel{kh}x{kw}")


def lifelike(grid, birth, survival):
    n = sum(np.roll(np.roll(grid, i, 0), j, 1) for i in (-1, 0, 1) for j in (-1, 0, 1) if (i, j) != (0, 0))
    n = np.rint(n).astype(int)
    return np.where(grid > 0.5, np.isin(n, list(survival)), np.isin(n, list(birth))).astype(float)


def life(case, rec):
    """the Life-like CA the notebooks put together from the helpers"""
    from yuca.configs import get_smooth_interval
    h = helpers()
    birth, survival = case["birth"], case["survival"]
    for rules in (birth, survival):
        got = h.get_smooth_interval(list(rules))
        expect(close(np.array(got).reshape(-1, 2), np.array(get_smooth_interval(list(rules))).reshape(-1, 2)),
               f"intervals of {rules} are {got}")
        for n, (lo, hi) in zip(rules, got):
            expect(lo < n / 8 < hi and [m for m in range(9) if lo <= m / 8 <= hi] == [n],
                   f"the interval of {n} neighbors, [{lo}, {hi}], holds {[m for m in range(9) if lo <= m / 8 <= hi]}")
    moore = h.get_kernel(h.gaussian, {"mu": 0.99, "sigma": 0.3}, radius=1)
    moore[moore > 0.01] = 1.0
    moore[moore <= 0.01] = 0.0
    moore /= moore.sum()
    eye = h.get_kernel(h.gaussian, {"mu": 0.0, "sigma": 0.1}, radius=1)
    eye[eye < 0.99] = 0.0
    eye /= eye.sum()
    neighbors, itself = h.get_conv_fn(moore), h.get_conv_fn(eye)
    genesis = h.get_smooth_steps_fn(a=h.get_smooth_interval(list(birth)), alpha=0.0125)
    persistence = h.get_smooth_steps_fn(a=h.get_smooth_interval(list(survival)), alpha=0.0125)

    rng = np.random.RandomState(case["seed"])
    grid = 1.0 * (rng.rand(*case["shape"]) < case["density"])
    start = grid.copy()
    for t in range(case["steps"]):
        n, m = neighbors(grid), itself(grid)
        g = ((1 - m) * genesis(n) + m * persistence(n)) * 2 - 1
        new = np.clip(grid + g, 0, 1.0)
        want = lifelike(grid, birth, survival)
        expect(close(new, want, 1e-6) or np.abs(new - want).max() < 1e-2,
               f"step {t} of B{''.join(map(str, birth))}/S{''.join(map(str, survival))}: "
               f"{int((np.abs(new - want) > 1e-2).sum())} cells differ")
        grid = want

    # the shipped patterns, under the rules they belong to
    glider = np.zeros((16, 16))
    glider[4:12, 4:12] = h.get_glider()
    now = glider
    for t in range(4 * case["cycles"]):
        now = lifelike(now, [3], [2, 3])
    moves = [np.roll(np.roll(glider, di * case["cycles"], 0), dj * case["cycles"], 1)
             for di in (-1, 1) for dj in (-1, 1)]
    expect(glider.sum() == 5 and any(np.array_equal(now, m) for m in moves), "the glider does not glide")
    width = 90
    puffer = np.zeros((40, width))
    p = h.get_puffer()
    expect(set(np.unique(p)) == {0.0, 1.0}, "puffer")
    puffer[18:18 + p.shape[0], 40:40 + p.shape[1]] = p
    if case["puffer"]:
        reach = []
        now = puffer
        for t in range(180):
            now = lifelike(now, [3, 6, 8], [2, 4, 5])
            cols = np.flatnonzero(now.sum(0))
            expect(len(cols), "the puffer died")
            reach.append(cols.max() - 43)
        expect(max(reach) >= 12, "the puffer stays where it is")
        rec.label("puffer")
    h.get_glider()[:] = 0
    h.get_puffer()[:] = 0
    expect(h.get_glider().sum() == 5 and h.get_puffer().sum() == p.sum(), "a pattern that was changed stays changed")
    rec.label(f"B{len(birth)}S{len(survival)}")
    if start.min() == start.max():
        rec.mark_trivial()


def axes_of(fig):
    images, lines, texts = [], [], []
    for ax in fig.axes:
        for im in ax.get_images():
            images.append((ax, np.asarray(im.get_array(), float)))
        for line in ax.get_lines():
            lines.append((str(line.get_label()), np.asarray(line.get_xydata(), float)))
        texts.append(ax.get_title())
    return images, lines, texts


def shown(images, want, tol=1e-6):
    return [ax for ax, im in images if im.shape == want.shape and np.abs(im - want).max() <= tol]


def figures(case, rec):
    import matplotlib.pyplot as plt
    h = helpers()
    rng = np.random.RandomState(case["seed"])
    plt.close("all")
    try:
        k = rng.rand(*case["kshape"]) * case["scale"]
        kept = k.copy()
        cmap = plt.get_cmap(case["cmap"])
        f1 = h.get_smooth_steps_fn(a=case["a"], alpha=0.05)
        f2 = h.get_smooth_steps_fn(a=case["b"], alpha=0.05)
        titles = ["My kernel", "My functions"]
        vmax = case["vmax"]
        lo, hi = case["range"]
        if case["kind"] == "steps":
            draw = h.get_plot_grid_nbhd_update_next()
            shape = case["kshape"]
            arrays = [rng.rand(*shape), rng.rand(*shape), rng.randn(*shape), rng.rand(*shape)]
            names = ["first", "second", "third", "fourth"] if case["named"] else None
            fig = draw(*arrays, my_cmap=cmap, titles=names, vmin=0.0, vmax=vmax)
            images, lines, texts = axes_of(fig)
            names = names or ["CA grid time t", "Neighborhood", "Update", "CA grid time t+1"]
            for array, name in zip(arrays, names):
                under = [ax.get_title() for ax in shown(images, array)]
                expect(under == [name], f"the image named {name!r} appears under {under}")
            for ax, im in images[:2]:
                expect(tuple(ax.get_images()[0].get_clim()) == (0.0, vmax), "colour limits of the grid and neighborhood")
            rec.label("steps")
            return
        if case["kind"] == "growth":
            fig, ax = h.plot_kernel_growth(k, f1, my_cmap=cmap, titles=titles, my_xrange=[lo, hi], vmax=vmax,
                                           invert=case["invert"])
        else:
            fig, ax = h.plot_kernel_genper(k, f1, f2, show_combined=case["combined"], my_cmap=cmap, titles=titles,
                                           my_xrange=[[lo, hi], [lo - 0.1, hi + 0.2]], vmax=vmax, invert=case["invert"])
        expect(np.array_equal(k, kept), "the kernel was changed")
        images, lines, texts = axes_of(fig)
        flip = (lambda c: 1.0 - c) if case["invert"] else (lambda c: c)
        unit = k / k.max()
        want = flip(cmap(np.pad(unit, 1) if case["invert"] else unit)[:, :, :3])
        expect([a.get_title() for a in shown(images, want)] == [titles[0]], "the kernel's image")
        expect(titles[1] in texts, f"titles are {texts}")
        bars = [(a, im) for a, im in images if im.shape[0] == 1024]
        expect(len(bars) == 1, "the colour bar")
        bar_ax, bar = bars[0]
        scale = flip(cmap((1023 - np.arange(1024)) / 1023.0)[:, None, :3])
        near = np.minimum.reduce([np.abs(bar - np.roll(scale, s, 0)).max(-1) for s in (-4, -2, -1, 0, 1, 2, 4)])
        expect(near[8:-8].max() < 0.02, "the colour bar does not run from the largest value at its top to zero")
        marks = {round(float(p)): t.get_text() for p, t in zip(bar_ax.get_yticks(), bar_ax.get_yticklabels())}
        values = {p: float(t) for p, t in marks.items()}
        expect(set(values) == {0, 511, 1023} and abs(values[0] - vmax) <= 0.006 * abs(vmax)
               and abs(values[511] - vmax / 2) <= 0.006 * abs(vmax) and values[1023] == 0, f"the colour bar's ticks are {values}")

        def curve(word, fn, bounds, of=lambda v: v):
            found = [xy for label, xy in lines if word in label]
            expect(len(found) == 1, f"{len(found)} curves named {word}")
            x, y = found[0][:, 0], found[0][:, 1]
            expect(len(x) >= 500 and abs(x[0] - bounds[0]) < 0.02 and abs(x[-1] - bounds[1]) < 0.02 and (np.diff(x) > 0).all(),
                   f"the curve {word} covers {x[0]} to {x[-1]}, asked for {bounds}")
            expect(np.abs(y - of(fn(x))).max() < 1e-9, f"the curve {word} is not its function")

        if case["kind"] == "growth":
            expect(len(lines) == 1, f"{len(lines)} curves")
            curve("growth", f1, (lo, hi))
        elif case["combined"]:
            expect(len(lines) == 3, f"{len(lines)} curves")
            curve("gen", f1, (lo, hi), lambda v: v / 2 - 0.5)
            curve("P(", f2, (lo - 0.1, hi + 0.2), lambda v: v / 2 - 0.5)
            curve("Combined", lambda x: (f1(x) + f2(x)) / 2, (lo, hi))
        else:
            expect(len(lines) == 2, f"{len(lines)} curves")
            curve("gen", f1, (lo, hi))
            curve("P(", f2, (lo - 0.1, hi + 0.2))
        rec.label(case["kind"], f"invert{case['invert']}")
    finally:
        plt.close("all")


@contextlib.contextmanager
def shell(root, foreign):
    """a shell that can only remove files under root"""
    real = os.system

    def system(command):
        words = shlex.split(command)
        if not words or words[0] != "rm":
            foreign.append(command)
            return 1
        for word in words[1:]:
            if word.startswith("-"):
                continue
            for path in glob.glob(word) or [word]:
                if os.path.realpath(path).startswith(os.path.realpath(root) + os.sep):
                    if os.path.isfile(path):
                        os.remove(path)
                else:
                    foreign.append(path)
        return 0
    os.system = system
    try:
        yield
    finally:
        os.system = real


def listing(root):
    return {os.path.relpath(os.path.join(d, f), root): open(os.path.join(d, f), "rb").read()
            for d, _, files in os.walk(root) for f in files}


def animation(case, rec):
    import shutil
    import tempfile
    from PIL import Image, ImageSequence
    h = helpers()
    rng = np.random.RandomState(case["seed"])
    root = tempfile.mkdtemp(dir=os.getcwd())
    try:
        frames_path = os.path.join(root, case["folder"])
        out = os.path.join(root, "out")
        os.makedirs(out)
        os.makedirs(frames_path)
        frames = []
        for name in sorted(case["names"]):
            frame = (rng.rand(*case["shape"]) * 255).astype(np.uint8)
            if frames and case["repeat"] == name:
                frame = frames[-1]
            frames.append(frame)
        pairs = list(zip(sorted(case["names"]), frames))
        for i in rng.permutation(len(pairs)):
            Image.fromarray(pairs[i][1]).save(os.path.join(frames_path, pairs[i][0] + ".png"))
        for name in case["others"]:
            for where in (frames_path, root):
                with open(os.path.join(where, name), "w") as f:
                    f.write("kept")
        Image.fromarray(frames[0]).save(os.path.join(root, "elsewhere.png"))
        before = listing(root)
        foreign = []
        with shell(root, foreign):
            if len(frames) < 2:
                try:
                    h.make_gif(frames_path=frames_path, gif_path=out, tag=case["tag"])
                except AssertionError:
                    pass
                else:
                    expect(False, "an animation of a single frame was made")
                expect(listing(root) == before, "files changed although there is nothing to animate")
                rec.mark_trivial()
                return
            h.make_gif(frames_path=frames_path + (os.sep if case["slash"] else ""), gif_path=out, tag=case["tag"])
        expect(not foreign, f"commands or files outside: {foreign}")
        after = listing(root)
        made = [f for f in after if f not in before]
        expect(len(made) == 1 and made[0].startswith(os.path.join("out", "gif_" + case["tag"] + "_"))
               and made[0].endswith(".gif"), f"files made: {made}")
        gone = {os.path.relpath(os.path.join(frames_path, name + ".png"), root) for name, _ in pairs}
        expect(set(before) - set(after) == gone, f"files removed: {sorted(set(before) - set(after))}, frames: {sorted(gone)}")
        expect(all(after[f] == before[f] for f in after if f in before), "another file was changed")
        timeline = []
        with Image.open(os.path.join(root, made[0])) as gif:
            expect(gif.info.get("loop") == 0, "the animation does not repeat")
            for page in ImageSequence.Iterator(gif):
                n = page.info.get("duration", 0) / 200
                expect(n >= 1 and abs(n - round(n)) < 1e-6, f"a frame lasts {page.info.get('duration')} ms")
                timeline += [np.asarray(page.convert("L"), float)] * int(round(n))
        expect(len(timeline) == len(frames), f"{len(timeline)} frames of 200 ms, {len(frames)} images")
        for n, (a, b) in enumerate(zip(timeline, frames)):
            expect(a.shape == b.shape and np.abs(a - b).max() <= 3, f"frame {n} of the animation is not image {sorted(case['names'])[n]}")
        rec.label(f"{len(frames)} frames")
    finally:
        shutil.rmtree(root, ignore_errors=True)


def intervals():
    edge = st.integers(0, 20).map(lambda v: v / 20)
    return st.lists(st.tuples(edge, st.integers(1, 10).map(lambda v: v / 20)).map(lambda t: [t[0], t[0] + t[1]]),
                    min_size=0, max_size=3)


@st.composite
def formula_cases(draw):
    return {"seed": draw(st.integers(0, 10 ** 6)), "shape": draw(st.lists(st.integers(1, 5), min_size=1, max_size=2)),
            "mu": draw(st.integers(0, 20)) / 20, "sigma": draw(st.sampled_from([0.05, 0.1, 0.15, 0.3, 1.0])),
            "alpha": draw(st.sampled_from([0.0125, 0.028, 0.147, 0.5])), "a": draw(intervals()), "b": draw(intervals()),
            "radius": draw(st.one_of(st.integers(1, 8), st.just(13))), "hi": draw(st.sampled_from([0.2, 0.6, 1.0, 2.0])),
            "kernel": draw(st.sampled_from(["gaussian", "gaussian", "box", "steps"]))}


@st.composite
def convolution_cases(draw):
    k = [draw(st.sampled_from([1, 3, 5])), draw(st.sampled_from([1, 3, 5]))]
    return {"seed": draw(st.integers(0, 10 ** 6)), "kshape": k, "gshape": [draw(st.integers(5, 12)), draw(st.integers(5, 12))],
            "binary": draw(st.booleans()), "order": draw(st.lists(st.integers(0, 3), min_size=1, max_size=5))}


@st.composite
def life_cases(draw):
    rules = st.lists(st.integers(0, 8), unique=True, max_size=5)
    return {"seed": draw(st.integers(0, 10 ** 6)), "birth": draw(rules), "survival": draw(rules),
            "shape": [draw(st.integers(3, 14)), draw(st.integers(3, 14))], "density": draw(st.sampled_from([0.1, 0.3, 0.5, 0.9])),
            "steps": draw(st.integers(1, 4)), "cycles": draw(st.integers(1, 4)), "puffer": draw(st.integers(0, 9)) == 0}


@st.composite
def figure_cases(draw):
    lo = draw(st.sampled_from([-0.5, -0.1, 0.0]))
    return {"seed": draw(st.integers(0, 10 ** 6)), "kshape": [draw(st.integers(2, 9)), draw(st.integers(2, 9))],
            "scale": draw(st.sampled_from([0.01, 1.0, 3.0])), "cmap": draw(st.sampled_from(["magma", "viridis"])),
            "a": draw(intervals()), "b": draw(intervals()), "vmax": draw(st.sampled_from([0.02, 0.5, 1.0, 3.0])),
            "range": [lo, draw(st.sampled_from([0.8, 1.1, 1.5]))], "kind": draw(st.sampled_from(["growth", "genper", "genper", "steps"])),
            "named": draw(st.booleans()), "invert": draw(st.booleans()), "combined": draw(st.booleans())}


@st.composite
def animation_cases(draw):
    n = draw(st.one_of(st.just(1), st.integers(2, 13), st.integers(2, 13), st.integers(2, 13)))
    style = draw(st.sampled_from(["padded", "plain", "png"]))
    names = {"padded": [f"frame{i:04d}" for i in range(n)], "plain": [f"frame{i}" for i in range(n)],
             "png": [f"png_{i:03d}.png" for i in range(n)]}[style]
    return {"seed": draw(st.integers(0, 10 ** 6)), "names": names, "repeat": draw(st.sampled_from(names + [None, None])),
            "shape": [draw(st.integers(2, 12)), draw(st.integers(2, 12))],
            "others": draw(st.lists(st.sampled_from(["notes.txt", "png_list.txt", "old.gif", "a.npy", "frames.png.bak"]), unique=True)),
            "folder": draw(st.sampled_from(["frames", "my frames", "frames elsewhere.png", "f[1]", "gif_frames"])),
            "tag": draw(st.sampled_from(["no tag", "orbium", "run_3"])), "slash": draw(st.booleans())}


FACETS = [
    Facet("formulas", formula_cases(), formulas, 300, 5000),
    Facet("convolution", convolution_cases(), convolution, 200, 5000),
    Facet("life", life_cases(), life, 200, 5000),
    Facet("figures", figure_cases(), figures, 80, 1500),
    Facet("animation", animation_cases(), animation, 150, 3000),
]
