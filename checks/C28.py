"""C28: training-input helpers against their geometry."""
import math

import numpy as np
from hypothesis import strategies as st

import gen
from harness import Facet, expect

RULE = ("square images of every size from 2 (even and odd), 1-5 channels, radii 0-1.5, centres inside and "
        "outside the image, noise levels and seeds; non-trivial when the mask has both ones and zeros "
        "(masks) or a bite and noise are visible (batches)")
ASSUMPTIONS = ["cells within 1e-6 of the circle may be on either side of it"]


def image(case):
    rng = np.random.RandomState(case["seed"])
    shape = (1, case["c"], case["n"], case["n"])
    if case["img"] == "ones":
        return np.ones(shape)
    return 0.2 + 0.8 * rng.rand(*shape)


def axis(n):
    """cell coordinates: n points from -r in steps of (2r + 1) / n, r = n // 2 (for odd n: whole numbers)"""
    r = n // 2
    return [-r + i * (2 * r + 1) / n for i in range(n)]


def disc(n, radius, centre):
    """distance of every cell (row, column) from the centre, in units of n // 2, minus the radius"""
    a = axis(n)
    r = n // 2
    return np.array([[math.hypot(a[j] - centre[0], a[i] - centre[1]) / r - radius for j in range(n)]
                     for i in range(n)])


def check_mask(mask, n, c, radius, centre, what, inverted=False):
    mask = np.asarray(mask, float)
    expect(mask.shape == (1, c, n, n), f"{what} of shape {mask.shape}")
    d = disc(n, radius, centre)
    want = (d >= 0).astype(float)
    if inverted:
        want = 1 - want
    sure = np.abs(d) > 1e-6
    for k in range(c):
        bad = (mask[0, k] != want) & sure
        expect(not bad.any(), f"{what}: {int(bad.sum())} cells of channel {k} are wrong "
               f"(first {np.argwhere(bad)[:1].tolist()})")
        expect(np.array_equal(mask[0, k], mask[0, 0]), f"{what} differs between channels")
    return want


def bite(case, rec):
    from yuca.utils import get_bite_mask
    img = image(case)
    keep = img.copy()
    n, c, r = case["n"], case["c"], n_half(case["n"])
    centre = [case["cx"] * r, case["cy"] * r]
    given = np.array(centre) if case["array"] else list(centre)
    mask = get_bite_mask(img, case["radius"], given)
    want = check_mask(mask, n, c, case["radius"], centre, "bite mask")
    expect(np.array_equal(img, keep) and list(given) == centre, "the arguments were changed")
    rec.label("odd" if n % 2 else "even", f"c{c}")
    if want.all() or not want.any():
        rec.mark_trivial()


def n_half(n):
    return n // 2


def random_bite(case, rec):
    """without coordinates: a disc somewhere, reproducible from the seed"""
    from yuca.utils import get_bite_mask, seed_all
    img = image(case)
    n, c = case["n"], case["c"]
    masks = []
    for _ in range(2):
        seed_all(case["seed"])
        masks.append([get_bite_mask(img, case["radius"]) for _ in range(3)])
    a = np.array(masks, float)
    expect(np.array_equal(a[0], a[1]), "random bites differ after seeding alike")
    expect(a.shape == (2, 3, 1, c, n, n), f"masks of shape {a.shape[2:]}")
    for m in a[0]:
        expect(set(np.unique(m)) <= {0.0, 1.0}, "mask values other than 0 and 1")
        expect(all(np.array_equal(m[0, k], m[0, 0]) for k in range(c)), "mask differs between channels")
        fits_disc(m[0, 0], n, case["radius"])
    rec.label("odd" if n % 2 else "even")
    if a.all() or not a.any() or np.array_equal(a[0, 0], a[0, 1]):
        rec.mark_trivial()


def fits_disc(mask, n, radius, known=None):
    """there is a centre on the image for which the zeros (among the known cells) are the disc of
    this radius around it; centres are tried on a mesh of half a cell, cells nearer to the circle
    than the mesh allows are not judged"""
    r = n // 2
    a = np.array(axis(n))
    mesh = np.arange(-r, r + 1.01, 0.5)
    dist2 = (a[None, :] - mesh[:, None]) ** 2            # centre x cell
    d = np.sqrt(dist2[None, :, None, :] + dist2[:, None, :, None])       # cy, cx, row, column
    off = d - radius * r
    sure = np.abs(off) > 0.36
    if known is not None:
        sure &= known
    wrong = sure & ((off >= 0) != (mask != 0))
    expect((~wrong.any(axis=(2, 3))).any(),
           f"the {int((mask == 0).sum())} zeros of a mask are no disc of radius {radius} anywhere on the image")


def aperture(case, rec):
    from yuca.utils import get_aperture
    img = image(case)
    out = np.asarray(get_aperture(img, case["radius"]), float)
    n, c = case["n"], case["c"]
    if case["radius"] >= 0.975:
        expect(out.shape == img.shape and (out == 1).all(), "an open aperture masks the image")
        return rec.mark_trivial()
    want = check_mask(out, n, c, case["radius"], (0.0, 0.0), "aperture", inverted=True)
    rec.label("odd" if n % 2 else "even")
    if want.all() or not want.any():
        rec.mark_trivial()


def batch(case, rec):
    from yuca.utils import prep_input, seed_all
    img = image(case)
    keep = img.copy()
    n, c, e = case["n"], case["c"], case["e"]
    kw = dict(external_channels=e, batch_size=case["batch"], aperture_radius=case["aperture"],
              bite_radius=case["bite"], noise_level=case["noise"])
    seed_all(case["seed"])
    out = gen.arr(prep_input(img, **kw))
    seed_all(case["seed"])
    again = gen.arr(prep_input(img, **kw))
    seed_all(case["seed"] + 1)
    other = gen.arr(prep_input(img, **kw))
    expect(np.array_equal(img, keep), "the image was changed")
    expect(out.shape == (case["batch"], e, n, n), f"batch of shape {out.shape}")
    expect(np.array_equal(out, again), "the batch differs after seeding alike")
    if case["noise"] > 0:
        expect(not np.array_equal(out, other), "the batch does not depend on the seed")
        if case["batch"] > 1:
            expect(not np.array_equal(out[0], out[1]), "the samples of the batch are alike")
    expect((out[:, c:] == 0).all(), "surplus channels are not zero")
    d = disc(n, case["aperture"], (0.0, 0.0))
    opened = np.ones((n, n), bool) if case["aperture"] >= 0.975 else d < -1e-6
    closed = np.zeros((n, n), bool) if case["aperture"] >= 0.975 else d > 1e-6
    noise = case["noise"]
    for b in range(case["batch"]):
        x = out[b, :c]
        base = img[0]
        lo, hi = -1e-6, noise + 1e-6
        shown = (x - base >= lo) & (x - base <= hi)
        hidden = (x >= lo) & (x <= hi)
        expect((shown | hidden).all(), f"sample {b}: a cell is neither the image nor blank plus noise")
        expect(hidden[:, closed].all(), f"sample {b}: the image shows outside the aperture")
        if noise < 0.2:             # then image and blank cells can be told apart
            gone = ~shown & opened[None]
            for k in range(1, c):
                expect(np.array_equal(gone[k], gone[0]), f"sample {b}: the bite differs between channels")
            bitten = np.where(gone[0], 0.0, 1.0)
            fits_disc(bitten, n, case["bite"], known=opened)
            if case["bite"] == 0:
                expect(bitten.all(), f"sample {b} is bitten with a bite of radius 0")
    rec.label("odd" if n % 2 else "even", f"c{c}e{e}")
    if noise == 0 or not case["bite"]:
        rec.mark_trivial()


def seeding(case, rec):
    import torch
    from yuca.utils import seed_all
    draws = []
    for seed in (case["seed"], case["seed"], case["seed"] + 1 + case["gap"]):
        if case["default"] and seed == case["seed"] and len(draws) == 1 and case["seed"] == 13:
            seed_all()
        else:
            seed_all(my_seed=seed)
        draws.append(([torch.rand(3).tolist(), torch.randn(2).tolist(), torch.nn.Linear(2, 2).weight.tolist()],
                      [np.random.rand(3).tolist(), np.random.randint(0, 10 ** 6, 4).tolist(), np.random.randn(2).tolist()]))
        torch.rand(case["gap"] % 10 + 1), np.random.rand(case["gap"] % 10 + 1)
    for lib, name in ((0, "torch"), (1, "numpy")):
        expect(draws[0][lib] == draws[1][lib], f"{name} draws differ after seeding alike")
        expect(draws[0][lib] != draws[2][lib], f"{name} draws do not depend on the seed")


def masks(case, rec):
    from yuca.utils import get_mask
    rng = np.random.RandomState(case["seed"])
    g = rng.randint(0, 12, size=tuple(case["shape"])) / 4.0
    keep = g.copy()
    m = get_mask(g, case["radius"])
    expect(m.shape == g.shape and np.array_equal(m, (g >= case["radius"]).astype(float)), "threshold mask")
    expect(np.array_equal(g, keep), "the grid was changed")
    if m.all() or not m.any():
        rec.mark_trivial()


def defaults(case, rec):
    """without a number of channels: those of the image"""
    from yuca.utils import make_target, prep_input
    img = image(case)
    out = gen.arr(prep_input(img, batch_size=case["batch"], bite_radius=0.0, noise_level=0.0))
    expect(out.shape == (case["batch"],) + img.shape[1:], f"batch of shape {out.shape} for an image of {img.shape}")
    expect(all(np.abs(x - img[0]).max() < 1e-6 for x in out), "with no bite, aperture or noise the batch is not the image")
    target = gen.arr(make_target(img[0]))
    expect(target.shape == img.shape and np.array_equal(target, img.astype(target.dtype)), "the target is not the image")
    rec.label(f"c{case['c']}")
    if case["c"] == 1:
        rec.mark_trivial()


def fresh_bites(case, rec):
    """every sample is bitten anew: that two are bitten alike is rare"""
    from yuca.utils import prep_input, seed_all
    img = image(case)
    seed_all(case["seed"])
    out = gen.arr(prep_input(img, external_channels=case["c"], batch_size=30, aperture_radius=1.0,
                             bite_radius=case["radius"], noise_level=0.0))
    seen = [tuple((x[0] == 0).ravel()) for x in out]
    expect(len(set(seen)) >= 27, f"30 samples have only {len(set(seen))} different bites")


IMG = {"n": st.integers(2, 40), "c": st.integers(1, 5), "img": st.sampled_from(["random", "ones"]), "seed": gen.seeds}
RADII = st.one_of(gen.num(0, 1.5), gen.num(0.05, 0.6))

FACETS = [
    Facet("bite", st.fixed_dictionaries({
        **IMG, "radius": RADII, "cx": gen.num(-1.5, 1.5), "cy": gen.num(-1.5, 1.5), "array": st.booleans()}),
        bite, 800, 10000),
    Facet("random_bite", st.fixed_dictionaries({**IMG, "n": st.integers(2, 24), "radius": gen.num(0.0, 1.0)}), random_bite, 300, 4000),
    Facet("aperture", st.fixed_dictionaries({
        **IMG, "radius": st.one_of(RADII, gen.num(0.9, 1.0, 200))}), aperture, 500, 5000),
    Facet("batch", st.fixed_dictionaries({
        **IMG, "n": st.integers(4, 20), "e": st.just(5), "batch": st.integers(1, 6),
        "aperture": st.one_of(st.just(1.0), gen.num(0.2, 1.2)), "bite": st.one_of(st.just(0.0), gen.num(0.0, 0.8)),
        "noise": st.one_of(st.just(0.0), gen.num(0.01, 0.6))}).flatmap(
            lambda d: st.integers(d["c"], d["c"] + 4).map(lambda e: {**d, "e": e})), batch, 400, 5000),
    Facet("defaults", st.fixed_dictionaries({**IMG, "batch": st.integers(1, 4)}), defaults, 60, 500),
    Facet("fresh_bites", st.fixed_dictionaries({
        **IMG, "n": st.integers(24, 40), "radius": gen.num(0.4, 0.7)}), fresh_bites, 40, 400),
    Facet("seeding", st.fixed_dictionaries({
        "seed": st.one_of(st.just(13), gen.seeds), "gap": st.one_of(st.integers(0, 9), st.sampled_from(
            [98, 99, 127, 255, 999, 1023, 9999, 65535, 10 ** 5 - 1, 10 ** 6 - 1, 2 ** 24 - 1, 2 ** 31 - 2 ** 20 - 2])), "default": st.booleans()}),
        seeding, 300, 2000),
    Facet("mask", st.fixed_dictionaries({
        "seed": gen.seeds, "radius": gen.num(0, 3, 24), "shape": st.lists(st.integers(1, 8), min_size=1, max_size=4)}),
        masks, 300, 3000),
]
