"""C10: loading a configuration is isolated and independent of history."""
import copy
import os

import numpy as np
import torch
from hypothesis import strategies as st

import gen
from harness import Facet, expect

RULE = ("random histories of loads, restores, setters and in-place mutations over two CA instances "
        "sharing configuration objects; after every operation both instances are compared with the "
        "model of the configuration last loaded; non-trivial when something was loaded over an earlier "
        "history and a step changes the grid")
ASSUMPTIONS = ["configurations without instant_kwargs keep the instance's channels and padding"]


SHAPE = ("E", "I", "hidden", "act")


@st.composite
def histories(draw, classes):
    cls = draw(st.sampled_from(classes))
    dtype = draw(st.sampled_from(["f32", "f32", "f64"]))
    kw = dict(gen.CONFIGURABLE, classes=[cls], dtypes=(dtype,))
    pool = [gen.single(draw(gen.ca_spec(**kw))) for _ in range(draw(st.integers(2, 3)))]
    alike = cls == "NCA" and draw(st.booleans())     # parameters without the network they belong to need an equal one
    if alike:
        pool = [dict(p, **{k: pool[0][k] for k in SHAPE}) for p in pool]
    named = [draw(st.booleans()) if alike or cls != "NCA" else True for _ in pool]
    inst = [pool[0], draw(st.sampled_from(pool))]
    # an instance begins as a load of a pool member's rule
    case = {"cls": cls, "dtype": dtype, "pool": pool, "named": named, "start": inst, "ops": []}
    now = list(inst)
    for _ in range(draw(st.integers(1, 6))):
        kind = draw(st.sampled_from(["load", "load", "load", "restore", "setter", "setter", "corrupt", "missing"]))
        i = draw(st.integers(0, 1))
        op = {"kind": kind, "inst": i}
        if kind in ("load", "restore", "corrupt"):
            op["pool"] = k = draw(st.integers(0, len(pool) - 1))
        if kind in ("load", "restore"):
            new = dict(pool[k])
            if not named[k] and cls != "RxnDfn":
                new.update({key: now[i][key] for key in ("E", "pad", "act") if key in now[i]})
                new.pop("threshold", None)
                if "threshold" in now[i]:
                    new["threshold"] = now[i]["threshold"]
            now[i] = new
        if kind == "setter":
            op["setter"] = draw(gen.setter(now[i]))
            now[i] = op["setter"]["after"]
        op["after"] = list(now)
        case["ops"].append(op)
    case["gseed"] = draw(gen.seeds)
    return case


def history(case, rec):
    gen.set_dtype(case)
    real = [gen.make_ca(c) for c in case["start"]]
    spec = list(case["start"])
    pool, kept = [], []

    def build(k):
        config = gen.to_config(case["pool"][k])
        if case["named"][k] and case["cls"] != "RxnDfn":
            config["instant_kwargs"] = gen.instant_kwargs(case["pool"][k])
        return config
    for k in range(len(case["pool"])):
        pool.append(build(k))
        kept.append(copy.deepcopy(pool[k]))
    rng = np.random.RandomState(case["gseed"])
    dt = torch.float64 if case["dtype"] == "f64" else torch.float32
    grids = {e: torch.tensor(rng.rand(2, e, 6, 7)).to(dt) for e in range(1, 6)}
    live, over = False, False

    def check(what):
        nonlocal live
        for i in (0, 1):
            live = gen.check_step(real[i], spec[i], grids[spec[i]["E"]], f"{what}: instance {i}") or live
        for k, config in enumerate(pool):
            expect(gen.equal(config, kept[k]), f"{what}: the caller's configuration {k} was modified")
    check("start")
    for n, op in enumerate(case["ops"]):
        ca = real[op["inst"]]
        what = f"op {n} ({op['kind']})"
        if op["kind"] == "load":
            ca.load_config(pool[op["pool"]])
            ca.eval()
            ca.no_grad()
            over = True
        elif op["kind"] == "restore":
            path = os.path.join(os.getcwd(), "pool.npy")
            np.save(path, pool[op["pool"]])
            ca.restore_config(path)
            ca.eval()
            ca.no_grad()
            os.remove(path)
            over = True
        elif op["kind"] == "missing":
            ca.restore_config(os.path.join(os.getcwd(), "no_such_file.npy"))
        elif op["kind"] == "setter":
            gen.apply_setter(ca, op["setter"], grids[spec[op["inst"]]["E"]])
        elif op["kind"] == "corrupt":
            # the object is changed by its owner; a new one takes its place
            gen.corrupt(pool[op["pool"]])
            spec = op["after"]
            for i in (0, 1):
                gen.check_step(real[i], spec[i], grids[spec[i]["E"]], f"{what}: instance {i}")
            pool[op["pool"]] = build(op["pool"])
        spec = op["after"]
        check(what)
        if op["kind"] in ("load", "restore"):
            # radius and step size follow the configuration as well
            now = spec[op["inst"]]
            expect(abs(ca.get_dt() - now["dt"]) < 1e-6, f"{what}: step size {ca.get_dt()} not {now['dt']}")
            expect(ca.get_kernel_radius() == now["nbhd"][0]["radius"], f"{what}: radius")
            p, q = np.asarray(ca.get_params(), float), gen.vector(now)
            expect(p.shape == q.shape and np.abs(p - q).max(initial=0) < 1e-5,
                   f"{what}: parameters are not those of the configuration")
    rec.label(case["cls"], *[op["kind"] for op in case["ops"]])
    if not live or not over:
        rec.mark_trivial()


FACETS = [
    Facet("functional", histories(["CCA", "CCA", "Lenia"]), history, 180, 4000),
    Facet("neural", histories(["NCA"]), history, 130, 2500),
    Facet("reaction", histories(["RxnDfn"]), history, 100, 2000),
]
