"""C29: saved animations against the trajectory stepped by an equal CA."""
import contextlib
import glob
import os
import shlex
import shutil
import subprocess

import numpy as np
from hypothesis import strategies as st

import gen
from harness import Facet, Violation, expect

RULE = ("random CA class and configuration, grid, number of steps, speed-up, inversion, tag and folders, also after "
        "an interrupted earlier run; non-trivial when at least two different states are shown")
QUICK_FACTOR = 2
ASSUMPTIONS = ["grids of at most 225 cells, so that a GIF palette holds every colour",
               "more than three channels are compared in the frames handed to the GIF writer",
               "at least two steps, one grid, existing parent of the frame and animation folders or none",
               "states of the cut-off brightness (0.001) within 10 % may or may not end the animation"]


@contextlib.contextmanager
def guarded(root, frames, seen):
    """keep removals inside the scratch directory; note the frames before they are removed"""
    root = os.path.realpath(root)
    known = set()

    def inside(path):
        path = os.path.realpath(path)
        if not path.startswith(root + os.sep):
            raise Violation(f"would touch {path}, outside the folders of the animation")

    def note():
        from PIL import Image
        files = sorted(glob.glob(os.path.join(glob.escape(frames), "*png")))
        ids = {(f, os.stat(f).st_mtime_ns, os.stat(f).st_ino) for f in files}
        if not ids <= known:        # frames written since
            known.clear(), known.update(ids), seen.clear()
            for f in files:
                with Image.open(f) as im:
                    seen.append(np.array(im))

    def system(command):
        words = shlex.split(command)
        for word in words[1:]:
            if not word.startswith("-"):
                inside(word)
        if words[0] == "rm":
            note()
        return subprocess.call(command, shell=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)

    def wrap(fn):
        def run(path, *a, **k):
            inside(path)
            note()
            return fn(path, *a, **k)
        return run

    old = os.system, os.remove, os.unlink, shutil.rmtree
    os.system, os.remove = system, wrap(os.remove)
    os.unlink, shutil.rmtree = wrap(os.unlink), wrap(shutil.rmtree)
    try:
        yield
    finally:
        os.system, os.remove, os.unlink, shutil.rmtree = old


def colours(g, invert):
    """[h, w, 3 or 4] colours of the state g [c, h, w], in 0..255, not rounded"""
    import matplotlib.pyplot as plt
    c = g.shape[0]
    if c == 1:
        img = 255 * np.asarray(plt.get_cmap("magma")(g[0]))[:, :, :3]
    elif c == 2:
        img = 255 * np.stack([np.zeros_like(g[0]), g[0], g[1]], -1)
    else:
        img = 255 * np.stack(list(g[:min(c, 4)]), -1)
    if invert:
        img[:, :, :3] = 255 - img[:, :, :3]
    return img


def states(ca, grid, n, speedup):
    """the states to show, and whether the cut-off is undecided"""
    import torch
    out, unsure = [], False
    with torch.no_grad():
        for _ in range(n):
            top = float(grid.max())
            unsure = unsure or 0.0009 < top < 0.0011
            if top < 0.001:
                break
            out.append(gen.arr(grid)[0])
            for _ in range(speedup):
                grid = ca(grid)
    return out, unsure


def read_gif(path):
    """[(rgb array, milliseconds)]"""
    from PIL import Image, ImageSequence
    with Image.open(path) as im:
        return [(np.array(f.convert("RGB"), float), f.info.get("duration", 0)) for f in ImageSequence.Iterator(im)]


def expand(shown, count):
    """frames, repeated where the writer merged equal ones into a longer one (in steps of 10 ms)"""
    if len(shown) == 1:             # one image, however often
        return [shown[0][0]] * count
    low = min(ms for _, ms in shown)
    for unit in [42] + list(range(int(low), min(int(low) + 10, 75))):
        full = [img for img, ms in shown for _ in range(max(1, round(ms / unit)))]
        if len(full) in (count, count + 1):
            return full
    return None


def near(a, b, g, invert):
    tol = 1.01
    if g.shape[0] == 1:             # a colour map entry up or down
        tol = 1.01 + np.maximum(abs(colours(np.clip(g + 0.002, 0, 1), invert) - b),
                                abs(colours(np.clip(g - 0.002, 0, 1), invert) - b))
    return a.shape == b.shape and bool((np.abs(a - b) <= tol).all())


def movie(case, rec):
    import torch
    from yuca.utils import save_fig_sequence
    gen.set_dtype(case)
    root = os.path.join(os.getcwd(), "run")
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    ca, twin = gen.make_ca(case), gen.make_ca(case)
    ca.reset(), twin.reset()
    grid = gen.to_grid(case["grid"], case["dtype"])
    keep = grid.clone()
    weights = {k: v.clone() for k, v in ca.state_dict().items()}
    params, config = np.array(ca.get_params(), float), (ca.get_dt(), ca.get_kernel_radius())
    frames, out = os.path.join(root, *case["frames"]), os.path.join(root, *case["out"])
    kw = {"num_steps": case["steps"], "frames_path": frames, "gif_path": out, "tag": case["tag"]}
    if case["parent"]:
        os.makedirs(out, exist_ok=True)
    kw.update({k: case[k] for k in ("speedup", "invert_colors") if case[k] is not None})
    invert = case["invert_colors"] is not False
    folder, name = (case["tag"], case["tag"]) if isinstance(case["tag"], str) else case["tag"]
    if case["stale"]:               # what an interrupted run leaves behind
        from PIL import Image
        os.makedirs(frames)
        for n in range(case["stale"]):
            Image.fromarray(np.full((6, 6, 3), 33 * n, np.uint8)).save(os.path.join(frames, f"frame_{n:05d}.png"))
    bystander = os.path.join(root, "keep.png")
    open(bystander, "w").close()
    seen = []
    with torch.no_grad(), guarded(root, frames, seen):
        for run in range(case["runs"]):
            seen.clear()
            np.random.seed(3)
            save_fig_sequence(grid, ca, **kw)
    expect(torch.equal(grid, keep), "the starting grid was changed")
    now = ca.state_dict()
    expect(set(now) == set(weights) and all(torch.equal(v, now[k]) for k, v in weights.items())
           and np.array_equal(params, np.array(ca.get_params(), float))
           and config == (ca.get_dt(), ca.get_kernel_radius()), "the CA was changed")
    gen.same_step(ca, twin, grid, "the CA after making the animation")
    expect(not glob.glob(os.path.join(glob.escape(frames), "*")), "frame files were left behind")
    expect(os.path.exists(bystander), "a file beside the folders was removed")
    gifs = [os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs if f != "keep.png"]
    twin.reset()
    want, unsure = states(twin, keep.clone(), case["steps"], case["speedup"] or 1)
    if unsure:
        return rec.mark_trivial()
    if not want:
        expect(not gifs, f"an animation of a vanished grid was saved: {gifs}")
        rec.label("vanished")
        return rec.mark_trivial()
    expect(1 <= len(gifs) <= case["runs"], f"{len(gifs)} files saved by {case['runs']} runs: {gifs}")
    for f in gifs:
        expect(os.path.dirname(f) == os.path.join(out, folder), f"saved as {f}, not in {os.path.join(out, folder)}")
        expect(name in os.path.basename(f) and f.endswith(".gif"), f"saved as {os.path.basename(f)}")
        shown = read_gif(f)
        full = expand(shown, len(want))
        if full is None:
            raise Violation(f"{[ms for _, ms in shown]} ms of frames shown for {len(want)} states")
        if len(full) > len(want):
            expect(np.array_equal(full[0], full[1]), "a surplus frame that is not the first one")
            full = full[1:]
        if want[0].shape[0] <= 3:
            for n, (img, g) in enumerate(zip(full, want)):
                c = colours(g, invert)
                if g.shape[0] == 1:         # the GIF palette of such frames is coarser
                    expect(img.shape == c.shape and np.abs(img - c).mean() < 12 and np.abs(img - c).max() < 48,
                           f"frame {n} of {len(want)} differs from the state by {np.abs(img - c).max()}")
                else:
                    expect(near(img, c, g, invert), f"frame {n} of {len(want)} differs from the state by "
                           f"{np.abs(img - c).max() if img.shape == c.shape else img.shape}")
    if seen:
        expect(len(seen) == len(want), f"{len(seen)} frames for {len(want)} states")
        for n, (img, g) in enumerate(zip(seen, want)):
            c = colours(g, invert)
            expect(near(img[:, :, :c.shape[2]].astype(float), c, g, invert),
                   f"frame {n} of {len(want)} differs from the state")
            expect(img.shape[2] == c.shape[2] or (img[:, :, 3] == 255).all(), f"frame {n} is not opaque")
    rec.label(case["cls"], f"{case['E']} channels", f"{min(len(want) // 10 * 10, 60)}+ frames",
              "ended early" if len(want) < case["steps"] else "full", f"speedup {case['speedup']}",
              "inverted" if invert else "plain", f"stale {bool(case['stale'])}")
    if all(np.abs(a - want[0]).max() < 1e-3 for a in want):
        rec.mark_trivial()


WORDS = st.sampled_from(["run", "a1", "my_gif", "x-y"])


@st.composite
def movies(draw, **kw):
    case = draw(gen.ca_spec(channels=kw.pop("channels", (1, 1, 2, 3)), dtypes=("f32", "f32", "f64"),
                            radii=st.integers(1, 3), **kw))
    if draw(st.integers(0, 3)) == 0 and "gen" in case:       # a rule under which grids fade
        case["gen"] = [{"name": "Gaussian", "mode": 1, "mu": 5.0, "sigma": 0.1} for _ in case["gen"]]
        case["per"] = [{"name": "Identity", "mode": 0} for _ in case["per"]] if draw(st.booleans()) else case["per"]
    low = max(4, gen.min_dim(case))
    case["grid"] = draw(gen.grid_spec(case["E"], low=low, high=15, batches=(1,)))
    if draw(st.integers(0, 9)) == 0:
        case["grid"] = dict(case["grid"], kind="const", value=0.0)
    case["steps"] = draw(st.one_of(st.integers(2, 14), st.integers(2, 14), st.integers(15, 70)))
    case["speedup"] = draw(st.sampled_from([None, 1, 1, 2, 3, 5]))
    case["invert_colors"] = draw(st.sampled_from([None, True, False]))
    case["tag"] = draw(st.one_of(WORDS, st.tuples(WORDS, WORDS).map(list)))
    case["frames"] = draw(st.sampled_from([["frames"], ["assets", "frames"], ["a b", "fr ames"]]))
    case["out"] = draw(st.sampled_from([["assets"], ["gifs"], ["gifs", "deep er"]]))
    case["parent"] = draw(st.booleans())
    case["stale"] = draw(st.sampled_from([0, 0, 0, 3, 9]))
    case["runs"] = draw(st.sampled_from([1, 1, 2]))
    return case


FACETS = [
    Facet("functional", movies(classes=["CCA", "Lenia"]), movie, 120, 1500),
    Facet("neural", movies(classes=["NCA"]), movie, 60, 800),
    Facet("reaction", movies(classes=["RxnDfn"]), movie, 60, 800),
    Facet("alpha", movies(classes=["CCA", "NCA"], channels=(4, 5)), movie, 60, 800),
]
