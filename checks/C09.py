"""C09: save and restore reproduce the CA, after any history."""
import copy
import os

import numpy as np
import torch
from hypothesis import strategies as st

import gen
import harness
from harness import Facet, expect

RULE = ("random CA class, configuration and history of setters, then save, restore into a fresh "
        "instance (equally or differently constructed) and compare; non-trivial when the history has "
        "at least one setter and a step changes the grid")
ASSUMPTIONS = ["functional and Lenia CA with a single internal channel"]


@st.composite
def histories(draw, classes):
    case = gen.single(draw(gen.ca_spec(classes=classes, **gen.CONFIGURABLE)))
    case["ops"], now = [], case
    for _ in range(draw(st.integers(0, 4))):
        op = draw(gen.setter({k: v for k, v in now.items() if k != "ops"},
                             kinds=gen.SETTERS + ["make"]))
        case["ops"].append(op)
        now = op["after"]
    case["grid"] = draw(gen.grid_spec(case["E"], low=5, high=9, batches=(1, 2),
                                      kinds=["rand", "rand", "blob", "ramp"]))
    case["fresh"] = draw(st.sampled_from(["same", "default", "other", "kwarg"]))
    case["rounds"] = draw(st.integers(1, 2))
    case["file"] = draw(st.sampled_from(["saved.npy", "saved.npy", "sub/saved.npy", "sub/orbium.npy", "/orbium.npy",
                                         "sub/neurorbium.npy", "a b.npy", "sub.npy/x.y.npy", "/saved.npy"]))
    case["stale"] = draw(st.booleans())         # the file is there already, with something else
    case["explicit"] = draw(st.sampled_from([None, None, "same", "other"]))
    case["newline"] = draw(st.integers(0, 4)) == 0
    return case


def fresh_instance(case, how, path):
    cls = gen.classes()[case["cls"]]
    if case["cls"] == "RxnDfn":
        ca = cls()
        if how == "other":
            ca.set_dt(0.123)
            ca.set_dx(0.02)
            ca.set_kernel_radius(3)
    elif how == "same":
        ca = cls(**gen.instant_kwargs(case))
    elif how == "default":
        ca = cls(kernel_radius=2)
    elif how == "kwarg":
        ca = cls(ca_config=path, kernel_radius=2)
        ca.eval()
        return ca
    else:
        kw = dict(kernel_radius=3, external_channels=case["E"] + 1, conv_mode="zeros", alive_threshold=0.6)
        if case["cls"] == "NCA":
            kw.update(internal_channels=case["E"] + 1, hidden_channels=case["hidden"] + 2,
                      activation="ReLU" if case["act"] != "ReLU" else "Tanh")
        ca = cls(**kw)
        ca.set_dt(0.77)
    ca.restore_config(path)
    ca.eval()
    return ca


def same_ca(a, b, case, grid, what):
    tight = 2e-5 if case["dtype"] == "f32" else 1e-7
    p, q = np.asarray(a.get_params(), float), np.asarray(b.get_params(), float)
    expect(p.shape == q.shape and np.abs(p - q).max(initial=0) <= 1e-6 * (1 + np.abs(q).max(initial=0)),
           f"{what}: parameters differ")
    expect(abs(a.get_dt() - b.get_dt()) < 1e-7, f"{what}: step size {a.get_dt()} and {b.get_dt()}")
    expect(a.get_kernel_radius() == b.get_kernel_radius(),
           f"{what}: radius {a.get_kernel_radius()} and {b.get_kernel_radius()}")
    for name in ("external_channels", "internal_channels", "conv_mode", "hidden_channels"):
        if hasattr(a, name):
            expect(getattr(a, name) == getattr(b, name), f"{what}: {name} differs")
    if case["cls"] == "RxnDfn":
        for name in ("get_dx", "get_diffusion_u", "get_diffusion_v"):
            expect(abs(getattr(a, name)() - getattr(b, name)()) < 1e-9, f"{what}: {name} differs")
    return gen.same_step(a, b, grid, what, tight)


def trim(value):
    """a kernel without parameters is the same with and without an empty kernel_kwargs"""
    if isinstance(value, dict):
        return {k: v for k, v in value.items() if not (k == "kernel_kwargs" and len(v) == 0)}
    return value


def save_restore(case, rec):
    ca = gen.make_ca(case)
    grid = gen.to_grid(case["grid"], case["dtype"])
    spec = {k: v for k, v in case.items() if k not in ("ops", "grid")}
    for op in case["ops"]:
        if op["op"] == "make":
            ca.make_config()
        else:
            gen.apply_setter(ca, op, grid)
        spec = op["after"]
    one = ca.make_config()
    before = ca.make_config()
    expect(gen.equal(one, before), "making the configuration twice gives two configurations")
    gen.corrupt(one)                # a made configuration is the caller's
    expect(gen.equal(ca.make_config(), before), "changing a made configuration changed the CA's next one")
    live = gen.check_step(ca, spec, grid, "step after making a configuration")
    source = ca
    for n in range(case["rounds"]):
        path = case["file"]
        if path.startswith("/"):
            path = os.getcwd() + path
        if os.path.dirname(path):
            os.makedirs(os.path.dirname(path), exist_ok=True)
        made = source.make_config()
        if case["stale"] and n == 0:
            decoy = gen.classes()[case["cls"]]()
            decoy.set_dt(0.0123)
            decoy.save_config(path)
        if case["explicit"] is None:
            source.save_config(path)
        else:                       # a given configuration is saved, whoever saves it
            by = source if case["explicit"] == "same" else gen.classes()[case["cls"]]()
            kept = copy.deepcopy(made)
            by.save_config(path, config=made)
            expect(gen.equal(kept, made), "saving changed the configuration given")
        expect(gen.equal(source.make_config(), made), "saving changed the CA's configuration")
        gen.check_step(source, spec, grid, "step after saving")
        restored = fresh_instance(case, case["fresh"], path + "\n" if case["newline"] else path)
        same_ca(source, restored, case, grid, f"restored ({case['fresh']}, round {n})")
        gen.check_step(restored, spec, grid, "step of the restored CA")
        again = restored.make_config()
        again.get("instant_kwargs", {}).pop("alive_threshold", None)
        made.get("instant_kwargs", {}).pop("alive_threshold", None)
        for key in made:
            if key == "instant_kwargs":
                continue
            expect(key in again and gen.equal(trim(again[key]), trim(made[key]), 1e-6),
                   f"the restored CA's configuration has another {key}")
        source = restored
        if n == case["rounds"] - 1:
            os.remove(path)
    rec.label(case["cls"], case["fresh"], *[op["op"] for op in case["ops"]])
    if not live or not any(op["op"] not in ("step", "make") for op in case["ops"]):
        rec.mark_trivial()


def defaults(case, rec):
    """CAs as constructed, parameters set at random"""
    cls = gen.classes()[case["cls"]]
    np.random.seed(case["seed"])
    torch.manual_seed(case["seed"])
    kw = {"kernel_radius": case["r"], "kernel_peaks": case["peaks"], "external_channels": case["E"]}
    if case["cls"] == "NCA":
        kw.update(internal_channels=case["E"], hidden_channels=6)
    ca = cls(**kw) if case["cls"] != "RxnDfn" else cls()
    ca.eval()
    rng = np.random.RandomState(case["seed"])
    p = np.asarray(ca.get_params(), float)
    if case["cls"] != "RxnDfn":
        for op in case["ops"]:
            if op == "params":
                ca.set_params(np.clip(p * (0.5 + rng.rand(p.size)), 0.01, 1.5))
            elif op == "radius":
                ca.set_kernel_radius(case["r"] % 4 + 1)
            elif op == "dt":
                ca.set_dt(0.37)
    ca.eval()
    path = os.path.join(os.getcwd(), "d.npy")
    ca.save_config(path)
    other = cls(kernel_radius=5) if case["cls"] != "RxnDfn" else cls()
    other.restore_config(path)
    other.eval()
    grid = torch.tensor(rng.rand(1, ca.external_channels, 9, 10)).float()
    live = same_ca(ca, other, {"cls": case["cls"], "dtype": "f32"}, grid, "restored default instance")
    os.remove(path)
    rec.label(case["cls"], f"E{case['E']}", *case["ops"])
    if not live:
        rec.mark_trivial()


def shipped(case, rec):
    """every shipped configuration survives save and restore"""
    folder = os.path.join(harness.REPO, "ca_configs")
    names = sorted(n for n in os.listdir(folder) if n.endswith(".npy"))
    name = names[case["index"] % len(names)]
    cls = gen.classes()["RxnDfn" if "rxndfn" in name else
                        "NCA" if name.startswith(("neuro", "nca")) else "CCA"]
    a = cls()
    a.restore_config(name)
    a.eval()
    path = os.path.join(os.getcwd(), "s.npy")
    a.save_config(path)
    b = cls()
    b.restore_config(path)
    b.eval()
    size = 2 * a.get_kernel_radius() + 2
    rng = np.random.RandomState(case["seed"])
    grid = torch.tensor(rng.rand(1, a.external_channels, size, size)).float()
    same_ca(a, b, {"cls": cls.__name__, "dtype": "f32"}, grid, name)
    os.remove(path)
    rec.label(cls.__name__)


FACETS = [
    Facet("functional", histories(["CCA", "CCA", "Lenia"]), save_restore, 160, 3500),
    Facet("neural", histories(["NCA"]), save_restore, 130, 2500),
    Facet("reaction", histories(["RxnDfn"]), save_restore, 100, 2000),
    Facet("defaults", st.fixed_dictionaries({
        "cls": st.sampled_from(["CCA", "CCA", "Lenia", "NCA", "RxnDfn"]), "r": st.integers(1, 4),
        "peaks": st.integers(1, 3), "E": st.integers(1, 3), "seed": gen.seeds,
        "ops": st.lists(st.sampled_from(["params", "radius", "dt"]), max_size=3)}), defaults, 100, 2000),
    Facet("shipped", st.fixed_dictionaries({"index": st.integers(0, 200), "seed": gen.seeds}), shipped, 50, 400),
]
