"""C24: the pattern library against a dictionary."""
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

import gen
import harness
from harness import Facet, expect

RULE = ("random histories of storing (several names, shapes and types, metadata with commas, quiet or not), "
        "loading, deleting, refreshing and reopening a library in a scratch directory; non-trivial when a "
        "name was stored more than once and something was loaded after it")
ASSUMPTIONS = ["names are file names without a path separator; metadata values are single lines, compared "
               "without surrounding white space"]

SHAPES = [(1, 1, 4, 5), (1, 3, 6, 6), (7, 3), (2, 2, 2, 2, 2), (5,), (1, 1, 16, 16)]
TYPES = ["float64", "float32", "int64", "uint8", "bool", "float16"]


def pattern(spec):
    rng = np.random.RandomState(spec["seed"])
    a = rng.rand(*SHAPES[spec["shape"]]) * 3 - 1
    if spec["odd"]:
        a.flat[0], a.flat[-1] = np.nan, -0.0
    a = a.astype(TYPES[spec["type"]])
    return a.T if spec["fortran"] else a


def clean(text):
    return str(text).strip()


META = ["ca_config", "commit_hash", "notes", "entry_point"]


def check_load(lib, name, want, what):
    array, meta = lib.load(name)
    expect(array.dtype == want["array"].dtype and array.shape == want["array"].shape
           and array.tobytes() == want["array"].tobytes(), f"{what}: {name} loads another array")
    for key in META:
        if key in want:
            expect(clean(meta[key]) == clean(want[key]), f"{what}: {key} of {name} is {meta[key]!r}, "
                   f"stored as {want[key]!r}")


def history(case, rec):
    from yuca.zoo.librarian import Librarian
    with np.errstate(all="ignore"):
        folder = tempfile.mkdtemp(prefix="zoo_", dir=os.getcwd())
        try:
            lib = Librarian(directory=folder, verbose=case["verbose"])
            model, repeated = {}, False
            expect(list(lib.index) == [], "an empty library lists patterns")
            for op in case["ops"]:
                what = op["op"]
                if what == "store":
                    a = pattern(op["array"])
                    keep = a.copy()
                    kw = {k: op["meta"][k] for k in ("commit_hash", "notes", "entry_point") if k in op["meta"]}
                    want = {"array": keep, **kw}
                    cfg, alt = op["meta"].get("config"), op["meta"].get("alternative")
                    if cfg is not None:
                        kw["config_name"] = cfg
                    if alt is not None:
                        kw["ca_config"] = alt
                    if cfg or alt:
                        want["ca_config"] = cfg or alt
                    before = {f for f in os.listdir(folder)}
                    others = {f: open(os.path.join(folder, f), "rb").read() for f in before}
                    lib.store(a, op["name"], **kw)
                    expect(a.tobytes() == keep.tobytes(), "storing changed the pattern")
                    new = {f for f in os.listdir(folder)} - before
                    arrays = [f[:-4] for f in new if f.endswith(".npy")]
                    expect(len(arrays) == 1, f"storing {op['name']!r} made the files {sorted(new)}")
                    name = arrays[0]
                    expect(name.startswith(op["name"]) and name[len(op["name"]):].isdigit(),
                           f"{op['name']!r} was stored as {name!r}")
                    number = int(name[len(op["name"]):])
                    free = next(i for i in range(2000) if f"{op['name']}{i:03}.npy" not in before)
                    expect(number == free, f"{op['name']!r} got number {number}, the next free one is {free}")
                    repeated = repeated or number > 0
                    for f, content in others.items():
                        expect(open(os.path.join(folder, f), "rb").read() == content, f"storing changed {f}")
                    model[name] = want
                elif what == "load" and model:
                    name = sorted(model)[op["pick"] % len(model)]
                    check_load(lib, name, model[name], "history")
                    array, _ = lib.load(name)
                    if array.size and array.dtype != bool:
                        array.flat[0] = 1       # the caller's copy
                    check_load(lib, name, model[name], "after changing the loaded array")
                elif what == "delete" and model:
                    name = sorted(model)[op["pick"] % len(model)]
                    for ext in (".npy", ".csv"):
                        os.remove(os.path.join(folder, name + ext))
                    del model[name]
                elif what == "reopen":
                    lib = Librarian(directory=folder, verbose=not case["verbose"])
                elif what == "clutter":
                    open(os.path.join(folder, f"notes{op['pick']}.txt"), "w").close()
                if what in ("refresh", "reopen"):
                    if what == "refresh":
                        lib.update_index()
                    expect(list(lib.index) == sorted(model), f"index {list(lib.index)}, stored {sorted(model)}")
            lib.update_index()
            expect(list(lib.index) == sorted(model), f"index {list(lib.index)}, stored {sorted(model)}")
            for name, want in model.items():
                check_load(lib, name, want, "at the end")
        finally:
            shutil.rmtree(folder, ignore_errors=True)
    rec.label("quiet" if not case["verbose"] else "verbose", "repeated" if repeated else "once")
    if not repeated or not model:
        rec.mark_trivial()


def numbers(case, rec):
    """one name stored again and again"""
    from yuca.zoo.librarian import Librarian
    rng = np.random.RandomState(case["seed"])
    with tempfile.TemporaryDirectory(dir=os.getcwd()) as folder:
        lib = Librarian(directory=folder, verbose=False)
        arrays = {}
        for n in range(case["count"]):
            if n in case["reopen"]:
                lib = Librarian(directory=folder, verbose=False)
            a = rng.rand(1, 1, 2, 2)
            lib.store(a, case["name"], notes=f"number {n}")
            arrays[f"{case['name']}{n:03}"] = a
            lib.update_index()
            expect(list(lib.index) == sorted(arrays), f"stored {n + 1} times under one name: index {list(lib.index)[-3:]}")
        for n, (name, a) in enumerate(arrays.items()):
            got, meta = lib.load(name)
            expect(np.array_equal(got, a) and clean(meta["notes"]) == f"number {n}", f"{name} is another pattern")


def crop(case, rec):
    from yuca.zoo.librarian import Librarian
    lib = Librarian(verbose=False)
    rng = np.random.RandomState(case["seed"])
    shape = tuple(case["lead"]) + (case["h"], case["w"])
    a = rng.rand(*shape)
    if case["ints"]:
        a = (a * 10).astype(int)
    keep = a.copy()
    r, c = case["rows"], case["cols"]
    out = lib.crop(a, tuple(r), tuple(c))
    want = [[a[..., i, j] for j in range(*slice(*c).indices(case["w"]))] for i in range(*slice(*r).indices(case["h"]))]
    n, m = len(range(*slice(*r).indices(case["h"]))), len(range(*slice(*c).indices(case["w"])))
    expect(out.shape == tuple(case["lead"]) + (n, m), f"crop of shape {out.shape}")
    for i, row in enumerate(want):
        for j, v in enumerate(row):
            expect(np.array_equal(out[..., i, j], v), "the crop is not the requested window")
    if out.size:
        out[...] = -5
    expect(np.array_equal(a, keep), "changing a crop changed the pattern")
    if not out.size or out.shape == a.shape:
        rec.mark_trivial()


def shipped(case, rec):
    from yuca.zoo.librarian import Librarian
    lib = Librarian(verbose=case["verbose"])
    folder = os.path.join(harness.REPO, "yuca", "zoo")
    names = sorted(f[:-4] for f in os.listdir(folder) if f.endswith(".npy"))
    expect(list(lib.index) == names, "the index of the shipped zoo")
    name = names[case["index"] % len(names)]
    array, meta = lib.load(name)
    expect(np.array_equal(array, np.load(os.path.join(folder, name + ".npy"))), f"{name} loads another array")
    expect(np.isfinite(array).all() and array.ndim >= 2 and array.max() > 0, f"{name} is not a pattern")
    rows = open(os.path.join(folder, name + ".csv")).read().split("\n")
    stored = dict(r.split(",", 1) for r in rows if "," in r)
    for key in META:
        if key in stored:
            expect(clean(meta[key]) == clean(stored[key]), f"{key} of {name} is {meta[key]!r}")
    config = clean(meta["ca_config"])
    path = os.path.join(harness.REPO, "ca_configs", config)
    expect(os.path.exists(path), f"{name} names a configuration that is not shipped: {config}")
    data = np.load(path, allow_pickle=True).reshape(1)[0]
    cls = case_class(config, data)
    ca = cls()
    ca.restore_config(meta["ca_config"], verbose=False)
    ca.no_grad()
    other = cls()
    other.load_config(data)
    other.no_grad()
    import torch
    dims = array.shape[-2:]
    grid = torch.zeros(1, ca.external_channels, max(24, dims[0]), max(24, dims[1]))
    flat = torch.tensor(np.array(array, dtype=np.float32)).reshape(-1, *dims)
    grid[0, :min(len(flat), ca.external_channels), :dims[0], :dims[1]] = flat[:ca.external_channels]
    ca.eval(), other.eval()
    r = ca.kernel_radius
    if min(grid.shape[-2:]) > r:
        expect(torch.equal(ca(grid), other(grid)), f"restoring {config} by name gives another rule")
    rec.label(config)


def case_class(name, config):
    from yuca.ca.continuous import CCA
    from yuca.ca.neural import NCA
    from yuca.ca.reaction_diffusion import RxnDfn
    if "rxndfn" in name:
        return RxnDfn
    if name.startswith("neuro") or "nca" in name:
        return NCA
    return CCA


text = st.text(alphabet="ab ,;.=#'\"-_/0é", max_size=12)
names = st.sampled_from(["a", "b", "orbium", "a0", "x.y", "my glider", "p,q", "a_csv", "b.npy", "z.csv", "A", "nöt"])


@st.composite
def ops(draw):
    kind = draw(st.sampled_from(["store"] * 5 + ["load"] * 3 + ["delete", "refresh", "reopen", "clutter"]))
    op = {"op": kind, "pick": draw(st.integers(0, 20))}
    if kind == "store":
        meta = {}
        for key in ("config", "alternative"):
            if draw(st.booleans()):
                meta[key] = draw(st.sampled_from(["orbium.npy", "x,y.npy", "deep/dir/c.npy", "s643.npy"]))
        for key in ("commit_hash", "notes", "entry_point"):
            if draw(st.booleans()):
                meta[key] = draw(text)
        op.update(name=draw(names), meta=meta, array={
            "seed": draw(gen.seeds), "shape": draw(st.integers(0, len(SHAPES) - 1)),
            "type": draw(st.integers(0, len(TYPES) - 1)), "odd": draw(st.booleans()),
            "fortran": draw(st.booleans())})
    return op


@st.composite
def windows(draw):
    h, w = draw(st.integers(1, 12)), draw(st.integers(1, 12))
    return {"h": h, "w": w, "lead": draw(st.sampled_from([[], [1], [1, 1], [2, 3]])),
            "rows": sorted([draw(st.integers(0, h)), draw(st.integers(0, h))]),
            "cols": sorted([draw(st.integers(0, w)), draw(st.integers(0, w))]),
            "ints": draw(st.booleans()), "seed": draw(gen.seeds)}


FACETS = [
    Facet("history", st.fixed_dictionaries({
        "verbose": st.booleans(), "ops": st.lists(ops(), min_size=2, max_size=14)}), history, 400, 6000),
    Facet("numbers", st.fixed_dictionaries({
        "name": names, "seed": gen.seeds, "count": st.one_of(st.integers(2, 30), st.integers(95, 130)),
        "reopen": st.lists(st.integers(0, 40), max_size=3)}), numbers, 12, 200),
    Facet("crop", windows(), crop, 300, 3000),
    Facet("shipped", st.fixed_dictionaries({"index": st.integers(0, 60), "verbose": st.booleans()}), shipped, 80, 300),
]
