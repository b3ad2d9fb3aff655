"""C36: the command lines of the cloning, analysis and step predictor tools, run for real."""
import os
import shutil

import numpy as np
from hypothesis import strategies as st

import C27
import C30
import C31
import C32
import evo
import gen
from harness import Facet, expect

RULE = ("command lines with random subsets of the options in random order and both spellings, over generated rules, "
        "directories and data sets; non-trivial when an option besides the device is given")
ASSUMPTIONS = ["the device is always the CPU", "data loaders run in the process itself instead of in 24 workers",
               "the tool's file is run as if it lay in the scratch directory, so that its output stays there"]


def words(case, flags, extra=()):
    """the command line of the chosen options"""
    out = []
    for name, long_form in case["order"]:
        value = case["options"][name]
        out.append(flags[name][1 if long_form else 0])
        out += [str(v) for v in value] if isinstance(value, list) else [str(value)]
    return out + list(extra)


@st.composite
def chosen(draw, flags, always=()):
    names = draw(st.lists(st.sampled_from(sorted(flags)), unique=True, max_size=len(flags)))
    names += [n for n in always if n not in names]
    names = draw(st.permutations(names))
    return {"options": {n: draw(flags[n][2]) for n in names}, "order": [[n, draw(st.booleans())] for n in names]}


# cloning ------------------------------------------------------------------------

CLONE = {
    "ca_config": ("-cc", "--ca_config", st.lists(st.sampled_from(C30.SHIPPED), min_size=1, max_size=3)),
    "device": ("-d", "--device", st.sampled_from(["cpu"])),
    "error_threshold": ("-e", "--error_threshold", gen.num(1e-4, 2.0)),
    "max_steps": ("-m", "--max_steps", st.integers(1, 300)),
    "hidden_channels": ("-hid", "--hidden_channels", st.integers(1, 300)),
    "max_iterations": ("-i", "--max_iterations", st.integers(1, 20)),
    "learning_rate": ("-l", "--learning_rate", gen.num(1e-5, 0.5)),
    "save_name": ("-o", "--save_name", st.sampled_from(["verif_nca.pt", "verif_ca_config.pt", "x.pt"])),
    "verbose": ("-v", "--verbose", st.integers(0, 1)),
}
CLONE_DEFAULTS = {"ca_config": ["orbium.npy"], "device": "cuda:0", "error_threshold": 1e-3, "max_steps": 100,
                  "hidden_channels": 32, "max_iterations": 1, "learning_rate": 1e-3, "save_name": "default_nca.pt",
                  "verbose": 0}


def listed(kw):
    kw = dict(kw)
    if isinstance(kw.get("ca_config"), str):
        kw["ca_config"] = [kw["ca_config"]]
    kw["verbose"] = bool(kw.get("verbose"))
    return kw


def clone_line(case, rec):
    """what the command asks of the cloning function"""
    asked = []

    def prepare(ns):
        expect("clone_from_ca" in ns, "no cloning function")
        ns["clone_from_ca"] = lambda **kw: asked.append(kw)
    line = words(case, CLONE)
    evo.command("clone", line, prepare)
    expect(len(asked) == 1, f"{line}: cloned {len(asked)} times")
    want, got = listed({**CLONE_DEFAULTS, **case["options"]}), listed(asked[0])
    for key, value in want.items():
        expect(key in got and got[key] == value, f"{line}: {key} is {got.get(key)!r} instead of {value!r}")
    rec.label(*sorted(case["options"])[:4])
    if not set(case["options"]) - {"device"}:
        rec.mark_trivial()


def clone_run(case, rec):
    """a run by command line gives what a call with the same options gives"""
    import torch
    from yuca.clone import clone_from_ca
    gen.set_dtype({"dtype": "f32"})
    results = []
    for by_line in (True, False):
        with evo.contained() as find:
            np.save("ownrule.npy", gen.to_config(case["source"]))
            if by_line:
                evo.command("clone", words(case, CLONE, ["-cc", "ownrule.npy"]))
            else:
                given = {**CLONE_DEFAULTS, **case["options"], "ca_config": ["ownrule.npy"]}
                clone_from_ca(**given)
            files = find("logs", "verif")
            expect(len(files) == 1, f"the clone was saved as {files}")
            results.append((os.path.basename(files[0]),
                            {k: v.double().numpy().copy() for k, v in torch.load(files[0]).items()}))
    (a, x), (b, y) = results
    expect(a == case["options"]["save_name"] == b, f"saved as {a} and {b}")
    expect(C30.same(x, y), "the command line gives another clone than the call")
    rec.label(*sorted(case["options"])[:4])


@st.composite
def clone_runs(draw):
    flags = {k: v for k, v in CLONE.items() if k != "ca_config"}
    flags.update(max_steps=("-m", "--max_steps", st.integers(1, 5)),
                 hidden_channels=("-hid", "--hidden_channels", st.integers(1, 24)),
                 max_iterations=("-i", "--max_iterations", st.integers(1, 3)),
                 error_threshold=("-e", "--error_threshold", st.sampled_from([1e-6, 0.5, 1.0, 5.0])),
                 save_name=("-o", "--save_name", st.just("verif_nca.pt")))
    case = draw(chosen(flags, always=("device", "max_steps", "save_name")))
    src = draw(gen.ca_spec(classes=["CCA"], channels=(1,), internals=(1,), dtypes=("f32",), pads=("circular",),
                           radii=st.integers(1, 3)))
    src["nbhd"] = src["nbhd"][:1]
    case["source"] = src
    return case


# analysis -----------------------------------------------------------------------

ANALYSE = {
    "batch_size": ("-b", "--batch_size", st.integers(1, 6)),
    "ca_steps": ("-c", "--ca_steps", st.integers(1, 5)),
    "device": ("-d", "--device", st.sampled_from(["cpu"])),
    "input_directory": ("-i", "--input_directory", st.sampled_from(["confs/", "confs", "other_rules/"])),
    "use_cppn": ("-u", "--use_cppn", st.integers(0, 1)),
}
ANALYSE_DEFAULTS = {"batch_size": 64, "ca_steps": 1024, "input_directory": "ca_configs/", "use_cppn": 0}


def analyse(case, rec):
    root, _ = C32.repository()
    home = os.getcwd()
    scratch = home
    for d in ("ca_configs", "confs", "other_rules", "ca_analysis"):
        shutil.rmtree(os.path.join(root, d), ignore_errors=True)
        shutil.rmtree(os.path.join(home, d), ignore_errors=True)
    os.chdir(root)
    try:
        analysed(case, rec, scratch)
    finally:
        os.chdir(home)


def analysed(case, rec, scratch):
    import torch
    given = {**ANALYSE_DEFAULTS, **case["options"]}
    rules = case["rules"]
    gen.set_dtype(rules[0])
    for folder in ("ca_configs", "confs", "other_rules"):
        os.makedirs(folder)
        mine = folder == given["input_directory"].rstrip("/")
        for n, c in enumerate(rules if mine else case["decoys"]):
            np.save(os.path.join(folder, f"{'rule' if mine else 'decoy'}_{n}.npy"), gen.to_config(c))
    firsts, made = [], []

    def prepare(ns):
        expect("Phanes" in ns, "no analyzer")
        real = ns["Phanes"]

        def make(*a, **kw):
            ph = real(*a, **kw)
            made.append(ph)
            ph.get_spatial_entropy = lambda grid, window_size=63: np.zeros(2)
            seen, run = C27.record(ph), ph.analyze_universe

            def spy(*aa, **kk):
                n = len(seen)
                out = run(*aa, **kk)
                firsts.append((seen[n][0], out))
                return out
            ph.analyze_universe = spy
            return ph
        ns["Phanes"] = make
    torch.manual_seed(case["seed"])
    np.random.seed(case["seed"])
    line = words(case, ANALYSE)
    if case["earlier"]:         # analyses of an earlier run, of other rules under these names
        for n in range(len(rules)):
            np.save(os.path.join(given["input_directory"], f"rule_{n}.npy"), gen.to_config(case["decoys"][0]))
        evo.command("analyze", ["-i", given["input_directory"], "-c", "1", "-b", "1", "-u", str(given["use_cppn"])],
                    prepare)
        firsts.clear()
        for n, c in enumerate(rules):
            np.save(os.path.join(given["input_directory"], f"rule_{n}.npy"), gen.to_config(c))
    evo.command("analyze", line, prepare)
    folders = [(d, fs) for d, _, fs in os.walk(scratch) if os.path.basename(d) == "ca_analysis" and fs]
    expect(len(folders) == 1, f"{line}: the analyses were saved in the folders {folders}")
    folder, files = folders[0]
    expect(len(files) == len(rules) == len(firsts), f"{line}: {len(rules)} configurations gave {len(firsts)} analyses, "
           f"in {files}")
    for n, c in enumerate(rules):
        mine = [f for f in files if f.startswith(f"rule_{n}")]
        expect(len(mine) == 1, f"{line}: rule_{n} has the analyses {mine}")
        data = np.load(os.path.join(folder, mine[0]), allow_pickle=True).reshape(1)[0]
        expect(data["name"] == f"rule_{n}.npy", f"{line}: the analysis of rule_{n} is named {data['name']}")
        expect(data["max_ca_steps"] == given["ca_steps"], f"{line}: step limit {data['max_ca_steps']}")
        expect(bool(data["use_cppn"]) == bool(given["use_cppn"]), f"{line}: use_cppn is {data['use_cppn']}")
        c = {**c, "dim": firsts[0][0].shape[-1], "batch": given["batch_size"], "steps": given["ca_steps"],
             "cppn": given["use_cppn"]}
        starts = [f for f, out in firsts if all(out[k] == data[k] for k in
                                                ("mortality_ratio", "fertility_ratio", "autocorrelation"))]
        expect(starts, f"{line}: the saved records are of no analysis that was run")
        errors = []
        for first in starts:
            C27.start(c, first)
            try:
                C27.compare(c, data, first)
                break
            except Exception as exc:  # noqa: BLE001
                errors.append(exc)
        else:
            raise errors[0]
    rec.label(*sorted(case["options"]), f"{len(rules)} rules", *(["again"] if case["earlier"] else []))
    if not set(case["options"]) - {"device"}:
        rec.mark_trivial()


@st.composite
def analyses(draw):
    case = draw(chosen(ANALYSE))
    n = draw(st.integers(1, 2))
    # without a given limit, rules that die at once
    def one():
        c = draw(C27.rule(12)) if "ca_steps" in case["options"] else draw(C27.rule(12, only="dying"))
        c.pop("drift", None)
        if c["rule"] == "drifting" or "ca_steps" not in case["options"]:
            c["gen"] = c["per"] = [{"name": "Polynomial", "mode": 0, "coefficients": [-1.0]}]
            c["dt"] = 1.0
            c["rule"] = "dying"
        c.update(dtype="f32", pad="circular")
        return c
    case["rules"] = [one() for _ in range(n)]
    case["decoys"] = [dict(case["rules"][0])]
    case["seed"] = draw(gen.seeds)
    case["earlier"] = draw(st.booleans())
    return case


# step predictor -----------------------------------------------------------------

PREDICT = {
    "max_epochs": ("-m", "--max_epochs", st.integers(1, 3)),
    "seed": ("-s", "--seed", st.lists(st.integers(0, 99), min_size=1, max_size=2, unique=True)),
    "device": ("-d", "--device", st.just("cpu")),
}


def predictor(case, rec):
    import torch
    given = {"max_epochs": 10, "seed": 13, **case["options"]}
    seeds = given["seed"] if isinstance(given["seed"], list) else [given["seed"]]
    os.makedirs("data", exist_ok=True)
    rng = np.random.RandomState(case["dseed"])
    names, sets = {}, {}
    for part, n in (("train", case["n"]), ("test", case["test_n"])):
        for axis in "xy":
            names[part, axis] = os.path.join("data", case["stem"].replace("train", part) + f"_{axis}.pt")
            sets[part, axis] = torch.tensor(rng.rand(n, 1, case["h"], case["w"]).astype(np.float32))
    for key in reversed(sorted(names)):         # without "train" in its name, the data is its own test set
        torch.save(sets[key], names[key])
    if "train" not in case["stem"]:
        for axis in "xy":
            sets["test", axis] = sets["train", axis]
            torch.save(sets["train", axis], names["train", axis])
    line = words(case, PREDICT)
    at = case["at"] % (len([w for w in line if w.startswith("-")]) + 1)
    heads = [n for n, w in enumerate(line) if w.startswith("-")] + [len(line)]
    io = [case["io"][0], names["train", "x"], case["io"][1], names["train", "y"]]
    line = line[:heads[at]] + io + line[heads[at]:]
    real = torch.utils.data.DataLoader

    def loader(*a, **kw):
        kw["num_workers"] = 0
        return real(*a, **kw)
    with evo.contained() as find:
        torch.utils.data.DataLoader = loader
        try:
            gen.set_dtype({"dtype": "f32"})
            evo.command("step_predictor", line)
        finally:
            torch.utils.data.DataLoader = real
        reports = [f for f in find("logs", "verif") if f.endswith(".txt")]
        expect(len(reports) == 3 * len(seeds), f"{line}: {len(reports)} final reports")
        cut = case["n"] // 10
        parts = {"train": [sets["train", a][cut:] for a in "xy"], "val": [sets["train", a][:cut] for a in "xy"],
                 "test": [sets["test", a] for a in "xy"]}
        found = []
        for f in reports:
            body = open(f).read()
            tag = body.split()[0]
            expect(tag.startswith(case["stem"][:8]), f"{line}: tagged {tag}")
            models = [m for m in find("models", tag)]
            logs = [m for m in find("logs", tag) if m.endswith(".npy")]
            expect(len(models) == 1 and len(logs) == 1, f"{line}: {models} and {logs} of {tag}")
            values = [v.detach().double().numpy() for v in torch.load(models[0]).values()]
            expect(len(values) % 4 == 0, f"{line}: {len(values)} tensors")
            blocks = [values[n:n + 4] for n in range(0, len(values), 4)]
            expect(all(b[0].shape == (8, 1, 63, 63) for b in blocks), f"{line}: kernels of {blocks[0][0].shape}")
            seed = [s for s in seeds if f"seed{s}_" in tag]
            expect(len(seed) == 1, f"{line}: no seed in {tag}")
            found.append((seed[0], len(blocks)))
            log = np.load(logs[0], allow_pickle=True).reshape(1)[0]
            expect(log["epochs"][-1] == given["max_epochs"] - 1, f"{line}: trained to epoch {log['epochs'][-1]}")
            expect(len(log["train_smooth_loss"]) == given["max_epochs"], f"{line}: {len(log['train_smooth_loss'])} "
                   "training steps")
            for part, (x, y) in parts.items():
                want = ((C31.forward(blocks, gen.arr(x)) - gen.arr(y)) ** 2).sum() / len(x)
                lines = [row for row in body.split("\n") if f" {part} loss:" in row]
                expect(len(lines) == 1, f"{line}: report {body!r}")
                got = float(lines[0].split(f"{part} loss:")[1].split()[0])
                expect(abs(got - want) <= 1e-3 * max(1, want), f"{line}: {part} loss of {tag} is reported as {got}, "
                       f"the saved predictor has {want}")
        expect(sorted(found) == sorted((s, r) for s in seeds for r in (1, 2, 4)), f"{line}: trained (seed, repeats) "
               f"{sorted(found)}")
    rec.label(*sorted(case["options"]), "own test set" if "train" in case["stem"] else "same test set")
    if not set(case["options"]) - {"device"}:
        rec.mark_trivial()


@st.composite
def predictors(draw):
    case = draw(chosen(PREDICT))
    case.update(n=draw(st.integers(10, 45)), test_n=draw(st.integers(1, 20)), h=draw(st.integers(1, 5)),
                w=draw(st.integers(1, 5)), dseed=draw(gen.seeds), at=draw(st.integers(0, 3)),
                stem=draw(st.sampled_from(["verif_train_set", "verif_data", "verif_a_train", "verif_trainingset", "veriftrain"])),
                io=[draw(st.sampled_from(["-i", "--input_filepath"])), draw(st.sampled_from(["-t", "--targets_filepath"]))])
    return case


FACETS = [
    Facet("clone_line", chosen(CLONE), clone_line, 100, 2000),
    Facet("clone_run", clone_runs(), clone_run, 12, 200),
    Facet("analyse", analyses(), analyse, 40, 600),
    Facet("predictor", predictors(), predictor, 12, 200),
]
