"""C21: the pattern generator against an independent network on coordinate features."""
import numpy as np
import torch
from hypothesis import strategies as st

import gen
from harness import Facet, expect

RULE = ("random architectures (dimension, channels, hidden width, precision), parameter vectors and "
        "histories of writes; non-trivial when the pattern inside the aperture is not constant")
ASSUMPTIONS = ["widths of the Gaussians are at least 1e-4 in size (a zero width divides by zero)",
               "cells at a distance within 1e-9 of the aperture radius are not judged, unless exactly on it "
               "(grid sizes 9, 17, 33, 65)"]


def coordinates(dim):
    x = np.linspace(-1.0, 1.0, dim)
    xx, yy = x[None, :] * np.ones((dim, 1)), x[:, None] * np.ones((1, dim))
    return xx, yy, np.sqrt(xx ** 2 + yy ** 2)


def features(dim):
    xx, yy, rr = coordinates(dim)
    out = [xx, 1 - rr, abs(xx), abs(yy), 2 ** xx / 2, xx ** 2, xx ** 3,
           np.cos(np.pi * yy), np.sin(np.pi * xx), np.cos(2 * np.pi * yy), np.sin(2 * np.pi * xx),
           np.cos(4 * np.pi * yy), np.sin(4 * np.pi * xx)]
    for n in (4, 8, 16):
        f = np.sin(rr * np.pi * n) / (rr + 1e-6)
        out.append(f / f.max())
    return np.stack(out), rr


def sizes(case):
    c, h = case["channels"], case["hidden"]
    return [(h, 16 * c), (h, h), (h, h), (c, h)]


def length(case):
    return sum(o * i + o + 2 for o, i in sizes(case))


def vector(case, spec):
    """a parameter vector: weights, bias, centre and width of each of the four layers"""
    rng = np.random.RandomState(spec["seed"])
    parts = []
    for o, i in sizes(case):
        w = rng.randn(o, i) * spec["scale"] / np.sqrt(i)
        if spec["sparse"]:
            w *= rng.rand(o, i) < 0.3
        b = rng.randn(o) * spec["scale"] * 0.3
        sigma = spec["sigma"] * (0.7 + 0.6 * rng.rand())
        if spec["negative"]:
            sigma = -sigma
        parts += [w.ravel(), b, [rng.randn() * 0.3, sigma]]
    return np.concatenate(parts).astype(np.float32).astype(float)


def model(case, v):
    """the pattern, in float64"""
    f, rr = features(case["dim"])
    h = np.concatenate([f] * case["channels"]).reshape(16 * case["channels"], -1)
    at = 0
    for o, i in sizes(case):
        w, at = v[at:at + o * i].reshape(o, i), at + o * i
        b, at = v[at:at + o], at + o
        mu, sigma, at = v[at], v[at + 1], at + 2
        h = np.exp(-((w @ h + b[:, None] - mu) / (1e-9 + sigma)) ** 2 / 2)
    p = h.reshape(case["channels"], case["dim"], case["dim"]) * (1 - rr) ** 2
    p = np.where(rr >= 0.75, p * 1e-6, p)
    return np.maximum(p, 0)[None], rr


def judged(dim, rr):
    """cells not within rounding of the aperture radius, or exactly on it (where coordinates are dyadic)"""
    exact = dim in (9, 17, 33, 65)
    return (np.abs(rr - 0.75) > 1e-9) | ((rr == 0.75) & exact)


def make(case, **kw):
    from yuca.cppn import CPPN, CPPNPlus
    torch.set_default_dtype(torch.float64 if case["dtype"] == "f64" else torch.float32)
    args = dict(dim=case["dim"], external_channels=case["channels"], hidden_dim=case["hidden"])
    if case["hidden"] == 16 and case["defaults"]:
        del args["hidden_dim"]
    if case["channels"] == 1 and case["defaults"]:
        del args["external_channels"]
    args.update(kw)
    return (CPPNPlus if case["plus"] else CPPN)(**args)


def rule(spec):
    return np.random.RandomState(spec["seed"] + 7).rand(spec["rules"])


def full(case, spec):
    v = vector(case, spec)
    return np.concatenate([v, rule(spec)]) if case["plus"] else v


def pattern_of(case, agent):
    out = agent.get_action()
    if case["plus"]:
        expect(isinstance(out, tuple) and len(out) == 2, "the combined agent returns a rule and a pattern")
        out = out[1]
    return out


def shape_ok(case, p):
    expect(tuple(p.shape) == (1, case["channels"], case["dim"], case["dim"]), f"pattern of shape {tuple(p.shape)}")
    a = gen.arr(p)
    expect(np.isfinite(a).all(), "the pattern is not finite")
    expect(a.min() >= 0 and a.max() <= 1, f"pattern values from {a.min()} to {a.max()}")
    rr = coordinates(case["dim"])[2]
    expect(a[:, :, judged(case["dim"], rr) & (rr >= 0.75)].max(initial=0) <= 1e-6, "the pattern is not zero outside of the aperture")
    return a


def formula(case, rec):
    agent = make(case)
    interesting = False
    for n, spec in enumerate(case["writes"]):
        v = full(case, spec)
        given = v.copy()
        if n == 0 and case["construct"]:
            agent = make(case, params=given)
        else:
            agent.set_params(given)
        expect(np.array_equal(given, v), "writing parameters changed the vector")
        p = pattern_of(case, agent)
        a = shape_ok(case, p)
        want, rr = model(case, v[:length(case)])
        keep = judged(case["dim"], rr)
        tol = 1e-8 if case["dtype"] == "f64" else 4e-3
        d = np.abs(a - want)[:, :, keep].max()
        expect(d <= tol, f"pattern differs from the network by {d:.3g}")
        got = np.array(agent.get_params(), float)
        expect(got.shape == v.shape and np.allclose(got, v, rtol=1e-6, atol=1e-7),
               "parameters read back differ from those written")
        again = gen.arr(pattern_of(case, agent))
        expect(np.array_equal(again, a), "the pattern generated a second time differs")
        with torch.no_grad():
            p.mul_(0)
        expect(np.array_equal(gen.arr(pattern_of(case, agent)), a),
               "changing the returned pattern changed the next one")
        expect(np.array_equal(np.array(agent.get_params(), float), got), "generating changed the parameters")
        inside = a[:, :, rr < 0.7]
        interesting = interesting or inside.max() - inside.min() > 0.05
    # another instance with the same vector
    other = make(case)
    other.set_params(full(case, case["writes"][-1]))
    other.to_device("cpu")
    expect(np.array_equal(gen.arr(pattern_of(case, other)), a), "two generators with one vector differ")
    rec.label(f"channels{case['channels']}", "plus" if case["plus"] else "plain", case["dtype"],
              "square" if case["dim"] % 2 == 0 else "odd")
    if not interesting:
        rec.mark_trivial()


def bounds(case, rec):
    """any parameters at all give a valid pattern"""
    agent = make(case)
    rng = np.random.RandomState(case["rng"])
    n = length(case) + (len(rule(case["writes"][0])) if case["plus"] else 0)
    kind = case["kind"]
    v = {"normal": lambda: rng.randn(n), "large": lambda: rng.randn(n) * 100, "zero": lambda: np.zeros(n),
         "same": lambda: np.full(n, case["value"]), "tiny": lambda: rng.randn(n) * 1e-3}[kind]()
    at = 0
    for o, i in sizes(case):
        at += o * i + o + 2
        if abs(v[at - 1]) < 1e-4:
            v[at - 1] = 1e-4
    agent.set_params(v)
    a = shape_ok(case, pattern_of(case, agent))
    expect(shape_ok(case, pattern_of(case, make(case))) is not None, "")
    rec.label(kind)
    if a.max() == a.min():
        rec.mark_trivial()


def parts(case, rec):
    """rule and pattern of the combined agent are independent"""
    case = dict(case, plus=True)
    s1, s2 = case["writes"][0], dict(case["writes"][-1], rules=case["writes"][0]["rules"])
    v1, v2 = vector(case, s1), vector(case, s2)
    r1, r2 = rule(s1), rule(s2) * 0.5
    agent = make(case, ca_params=r1.copy())
    n = len(r1)
    got = np.array(agent.get_params(), float)
    expect(len(got) == length(case) + n, f"{len(got)} parameters, expected {length(case)} and {n}")
    expect(np.allclose(got[-n:], r1), "the rule parameters given at construction do not come last")
    results = {}
    for a, pat in enumerate((v1, v2)):
        for b, ru in enumerate((r1, r2)):
            agent.set_params(np.concatenate([pat, ru]))
            rule_action, pattern = agent.get_action()
            expect(np.allclose(np.array(rule_action, float), ru, rtol=1e-12, atol=0),
                   "the rule action is not the rule part of the vector")
            results[a, b] = gen.arr(pattern)
    for a in (0, 1):
        expect(np.array_equal(results[a, 0], results[a, 1]), "the rule part changes the pattern")
    plain = make(dict(case, plus=False))
    for a, pat in enumerate((v1, v2)):
        plain.set_params(pat)
        expect(np.array_equal(gen.arr(plain.get_action()), results[a, 0]),
               "the combined agent's pattern is not that of its pattern weights")
    if np.array_equal(results[0, 0], results[1, 0]):
        rec.mark_trivial()
    rec.label(f"rules{n}")


@st.composite
def cases(draw, least=1):
    return {"dim": draw(st.one_of(st.integers(8, 24), st.integers(25, 64))),
            "channels": draw(st.integers(1, 5)),
            "hidden": draw(st.sampled_from([16, 16, 4, 7, 24])), "dtype": draw(st.sampled_from(["f32", "f64", "f64"])),
            "plus": draw(st.booleans()), "defaults": draw(st.booleans()), "construct": draw(st.booleans()),
            "rng": draw(gen.seeds), "value": draw(gen.num(-2, 2)),
            "kind": draw(st.sampled_from(["normal", "large", "zero", "same", "tiny"])),
            "writes": draw(st.lists(st.fixed_dictionaries({
                "seed": st.integers(0, 9999), "scale": gen.num(0.2, 1.2), "sigma": gen.num(0.4, 1.5),
                "sparse": st.booleans(), "negative": st.booleans(), "rules": st.one_of(st.integers(1, 9), st.integers(1, 60))}),
                min_size=least, max_size=3))}


FACETS = [
    Facet("formula", cases(), formula, 300, 5000),
    Facet("bounds", cases(), bounds, 300, 5000),
    Facet("parts", cases(2), parts, 150, 2000),
]
