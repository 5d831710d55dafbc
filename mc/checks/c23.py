"""Saving solutions: every format, what comes back (here and in another process), and every failure of the save."""
import csv
import functools
import os
import pickle
import resource
import shutil
import subprocess
import sys
import tempfile
import types
import warnings
import numpy as np
from gpkit import Variable, VectorVariable, Model, NamedVariables, units
from gpkit.solution_array import SolutionArray
from ..core import require, Skip, fail
from . import c22
from .c22 import raw, lines, num, same, norm, diff_at, solver

TECHNIQUE = "exhaustive exploration of solutions x formats x histories of saves and loads (also in another process), and of every failure point: each truncation of the written file and each object that fails to pickle"
NOTE = "Every kind of solution, every format and option, all histories of save, save-without-constraints, load and table up to depth 2 (4 when thorough) before the save that is checked; files cut at each 1/4 (1/32) of their length by the operating system, each constraint, variable key and level of the solution failing to pickle. Values exported in text to the precision of their format."

KINDS = ["few", "models", "vectorized", "signomial", "warned", "bounded", "linked", "sweep", "sweep2", "sweep element", "sweep warned", "labels"]


class Labels:
    "names and labels with everything that may upset an export"
    def __init__(self, kind):
        NamedVariables.reset_modelnumbers()
        self.kind, self.npoints = kind, 1
        x = Variable("x_{a,b}", "m", "length, of the \"thing\"")
        y = Variable("y.z", "-", "it's; odd")
        v = VectorVariable(7, "v", "m^2/s", "seven, of them")
        k = Variable("k", 3.5, "m", "a: constant")
        w = VectorVariable((2, 3), "w", "-", "a matrix [of] numbers")
        self.vary = {"x": x, "y": y, "v": v, "k": k, "w": w}
        self.m = Model(x*y*v.prod()*w.prod(), [x >= k, y >= x/k + 1, v >= np.arange(1, 8)*1.1*v.units, w >= np.array([[1, 2, 3], [4, 5, 6]])*1.01])
        self.sol = self.m.solve(solver=solver, verbosity=0)


def make(kind):
    return Labels(kind) if kind == "labels" else c22.World(kind)


def data(sol):
    "all held numbers and texts"
    out = {k: v for k, v in raw(sol).items() if "/constraints/" not in k}
    cs = sol["sensitivities"].get("constraints")
    out["constraints"] = None if cs is None else sorted(norm(np.array(v, float)) for v in cs.values())
    out["modelstr"] = sol.modelstr
    w = sol.get("warnings") or {}
    out["/warnings"] = {k: [[e[0] for e in p] for p in (v if isinstance(v, np.ndarray) else [v])] for k, v in w.items()}
    return out


TABLES = ("cost", "warnings", "sweepvariables", "model sensitivities", "freevariables", "constants", "sensitivities")


def tables(sol, constraints=True):
    t = TABLES + (("tightest constraints",) if constraints else ())
    return lines(sol.table(tables=t)) + (lines(sol.summary()) if constraints else ())


def attributes(w):
    "what the model's constraints and sets are made of"
    out = {}

    def visit(o, path):
        for a, v in vars(o).items():
            if a not in ("cached_strs",):
                out[path, a] = (id(v), v)
        if isinstance(o, (list, dict)):
            for i, c in enumerate(o.values() if isinstance(o, dict) else o):
                if hasattr(c, "__dict__"):
                    visit(c, path + (i,))
    visit(w.m, ())
    for vk in w.sol["variables"]:
        out[vk.eqstr, "descr"] = (id(vk.descr), dict(vk.descr))
    return out


def intact(w, before, held, what):
    now = attributes(w)
    for k, (i, v) in before.items():
        if k[1] == "descr":
            d = {a: b for a, b in now[k][1].items() if a != "bomb"}
            require(set(d) == {a for a in v if a != "bomb"}, "a variable key is not as before saving", "%s: %s" % (what, k[0]))
            continue
        require(k in now, "a constraint is not as before saving", "%s: %s of %s is gone" % (what, k[1], k[0]))
        require(now[k][0] == i, "a constraint is not as before saving", "%s: %s of %s was replaced" % (what, k[1], k[0]))
    d = data(w.sol)
    for k in held:
        require(k in d and d[k] == held[k], "the solution in memory is not as before saving", "%s: %s: %s" % (what, k, diff_at(d.get(k), held[k])))
    require(set(d) == set(held), "the solution in memory is not as before saving", "%s: new %s" % (what, set(d) - set(held)))


def works(w, what):
    sol = w.sol
    again = w.m.localsolve(solver=solver, verbosity=0) if w.kind == "signomial" else w.m.solve(solver=solver, verbosity=0)
    require(same(num(again["cost"], w.m.cost), num(sol["cost"], w.m.cost), 1e-6), "a solve after saving gives another optimum", what)
    w.sol = sol


def tmp():
    return tempfile.mkdtemp(prefix="c23")


SAVES = {"pkl": lambda s, p, c: s.save(p, saveconstraints=c), "pgz": lambda s, p, c: s.save_compressed(p, saveconstraints=c), "pkl0": lambda s, p, c: s.save(p, saveconstraints=c, protocol=2)}


def load(fmt, path):
    if fmt == "pgz":
        return SolutionArray.decompress_file(path)
    with open(path, "rb") as f:
        return pickle.load(f)


def same_solution(got, held, what, constraints):
    d = data(got)
    for k in set(held) - {"constraints"}:
        require(k in d, "something is lost in saving", "%s: %s" % (what, k))
        require(d[k] == held[k], "something changed in saving", "%s: %s: %s" % (what, k, diff_at(d[k], held[k])))
    require(set(d) - set(held) == set(), "something was added in saving", "%s: %s" % (what, set(d) - set(held)))
    require(d["constraints"] == (held["constraints"] if constraints else None), "the sensitivities of constraints changed in saving", "%s: %s" % (what, diff_at(d["constraints"], held["constraints"])))


def roundtrips(ch, depth=3):
    kind = ch.pick(KINDS)
    w = make(kind)
    ops = []
    while len(ops) < depth:
        i = ch.index(4)
        if i == 0:
            break
        ops.append(("table", "save", "save without constraints")[i - 1])
    fmt, constraints = ch.pick(sorted(SAVES)), ch.pick((True, False))
    before, held, d = attributes(w), data(w.sol), tmp()
    what = "%s solution, %s then %s%s" % (kind, ops, fmt, "" if constraints else " without constraints")
    try:
        for op in ops:
            if op == "table":
                w.sol.table()
            else:
                SAVES["pgz" if len(ops) > 1 else "pkl"](w.sol, os.path.join(d, "o"), op == "save")
        p = os.path.join(d, "s." + fmt)
        SAVES[fmt](w.sol, p, constraints)
        intact(w, before, held, what)
        got = load(fmt, p)
        same_solution(got, held, what, constraints)
        want = tables(w.sol, constraints)
        require(tables(got, constraints) == want, "tables of the reloaded solution differ", "%s: %s" % (what, diff_at(tables(got, constraints), want)))
        for nm, var in w.vary.items():
            require(same(num(got(var), var.key), num(w.sol(var), var.key)), "a variable of the reloaded solution differs", "%s: %s" % (what, nm))
            e = var.flat[0] if isinstance(var, np.ndarray) else var
            require(norm(got(e**2*3)) == norm(w.sol(e**2*3)), "an expression at the reloaded solution differs", "%s: %s" % (what, nm))
        if fmt != "pkl0":
            require(lines(w.sol.diff(p)) == lines(w.sol.diff(w.sol)), "comparison with the file finds differences", what)
        if ops[-1:] == ["table"] or not ops:  # a second generation
            p2 = os.path.join(d, "t." + fmt)
            if constraints:
                SAVES[fmt](got, p2, True)
                two = load(fmt, p2)
                same_solution(two, held, what + " twice", True)
                require(tables(two) == want, "tables of the reloaded solution differ", what + " twice")
        if not ops:
            works(w, what)
    finally:
        shutil.rmtree(d, ignore_errors=True)


CHILD = """
import sys, pickle
sys.path.insert(0, %r)
import mc.env
from mc.checks import c23
out = {}
for fmt in sorted(c23.SAVES):
    sol = c23.load(fmt, %r + "/s." + fmt)
    vals = {}
    for k in sol["variables"]:
        try:
            vals[k.eqstr] = c23.norm(sol(k**2) if False else sol(c23.Variable(**k.descr)**2 if not k.shape else k))
        except Exception as e:
            vals[k.eqstr] = repr(e)
    out[fmt] = (c23.data(sol), c23.tables(sol), vals)
pickle.dump(out, open(%r + "/out", "wb"))
"""


def elsewhere(case):
    kind, seed = case
    w = make(kind)
    held, d = data(w.sol), tmp()
    try:
        for fmt in SAVES:
            SAVES[fmt](w.sol, os.path.join(d, "s." + fmt), True)
        here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        r = subprocess.run([sys.executable, "-W", "ignore", "-c", CHILD % (here, d, d)], env=dict(os.environ, PYTHONHASHSEED=str(seed), PYTHONPATH=here), capture_output=True, text=True, timeout=100, check=False)
        require(r.returncode == 0, "a saved solution cannot be loaded in another process", "%s: %s" % (kind, r.stderr[-400:]))
        with open(os.path.join(d, "out"), "rb") as f:
            got = pickle.load(f)
        vals = {}
        for k in w.sol["variables"]:
            vals[k.eqstr] = norm(w.sol(Variable(**k.descr)**2) if not k.shape else w.sol(k))
        for fmt, (dd, tt, vv) in got.items():
            for k in held:
                require(dd.get(k) == held[k], "a solution loaded in another process differs", "%s %s: %s %s" % (kind, fmt, k, diff_at(dd.get(k), held[k])))
            require(sorted(tt) == sorted(tables(w.sol)), "tables of a solution loaded in another process differ", "%s %s: %s" % (kind, fmt, diff_at(tuple(sorted(tt)), tuple(sorted(tables(w.sol))))))
            require(vv == vals, "an expression at a solution loaded in another process differs", "%s %s: %s" % (kind, fmt, [(k, vv.get(k), vals[k]) for k in vals if vv.get(k) != vals[k]][:2]))
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Unpicklable(Exception):
    pass


class Bomb:
    def __reduce__(self):
        raise Unpicklable("cannot be pickled")


def places(w):
    "everything a pickling failure can be at: (name, plant, remove)"
    out = []
    for name, dct in (("the solution", w.sol), ("the sensitivities", w.sol["sensitivities"]), ("variable sensitivities", None)):
        if dct is not None:
            out.append((name, lambda dct=dct: dict.__setitem__(dct, "bomb", Bomb()), lambda dct=dct: dict.__delitem__(dct, "bomb")))
    for i, c in enumerate(w.sol["sensitivities"]["constraints"]):
        out.append(("constraint %i" % i, lambda c=c: setattr(c, "bomb", Bomb()), lambda c=c: delattr(c, "bomb")))
    for i, vk in enumerate(sorted(w.sol["variables"], key=lambda k: k.eqstr)):
        out.append(("variable %s" % vk, lambda vk=vk: vk.descr.__setitem__("bomb", Bomb()), lambda vk=vk: vk.descr.__delitem__("bomb")))
    return out


def failures(ch, cuts=16):
    kind = ch.pick(KINDS)
    fmt = ch.pick(("pgz", "pkl"))
    constraints = ch.pick((True, False))
    how = ch.pick(("unpicklable", "cut short", "no such folder", "a folder", "interrupted twice"))
    w = make(kind)
    if ch.pick((False, True)):
        w.sol.table()
    before, held, d = attributes(w), data(w.sol), tmp()
    path = os.path.join(d, "s")
    what = "%s solution, %s%s, %s" % (kind, fmt, "" if constraints else " without constraints", how)
    try:
        failed = None
        if how in ("unpicklable", "interrupted twice"):
            ps = places(w)
            i = ch.index(len(ps)) if how == "unpicklable" else len(ps) - 1
            name, plant, remove = ps[i]
            what += " " + name
            for _ in range(2 if how != "unpicklable" else 1):
                plant()
                try:
                    SAVES[fmt](w.sol, path, constraints)
                except Unpicklable as e:
                    failed = e
                finally:
                    remove()
            if not failed and (constraints or not name.startswith("constraint")) and name.startswith("the "):
                fail("a save that cannot have worked did not fail", what)
        elif how == "cut short":
            SAVES[fmt](w.sol, path, constraints)
            size = os.path.getsize(path)
            os.unlink(path)
            n = ch.index(cuts)*size//cuts
            what += " at %i of %i bytes" % (n, size)
            old = resource.getrlimit(resource.RLIMIT_FSIZE)
            resource.setrlimit(resource.RLIMIT_FSIZE, (n, old[1]))
            try:
                SAVES[fmt](w.sol, path, constraints)
            except OSError as e:
                failed = e
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, old)
            if failed is None and os.path.getsize(path) < size:
                raise Skip  # the failure came when the file was closed
        else:
            try:
                SAVES[fmt](w.sol, os.path.join(d, "no", "s") if how == "no such folder" else d, constraints)
            except OSError as e:
                failed = e
            require(failed is not None, "a save that cannot have worked did not fail", what)
        del failed
        intact(w, before, held, what)
        SAVES[fmt](w.sol, path, constraints)
        same_solution(load(fmt, path), held, what + ", then saved", constraints)
        works(w, what)
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------ exports

def numbers(cells):
    return [float(c) for c in cells if c not in ("", "-")]


def shown(val, held, rel):
    val, held = np.array(val, float), np.array(held, float).flatten()
    return val.shape == held.shape and (bool((np.abs(val - held) <= rel*np.abs(held) + 1e-30).all()) or same(np.sort(val), np.sort(held), rel))


def exports(ch):
    kind = ch.pick(KINDS)
    w = make(kind)
    sol = w.sol
    which = ch.pick(("csv", "txt", "mat", "dataframe"))
    pick = ch.pick(("all", "one", "element"))
    first = sorted(w.vary)[-1]
    showvars = {"all": None, "one": [w.vary[first]], "element": [w.vary["v"].flat[0]] if "v" in w.vary else [w.vary["b.v"][0]]}[pick]
    vks = set(sol["variables"]) if showvars is None else {getattr(w.vary[first], "key") if pick == "one" else (w.vary["v"] if "v" in w.vary else w.vary["b.v"]).key}
    before, held, d = attributes(w), data(sol), tmp()
    path = os.path.join(d, "o")
    what = "%s of a %s solution, %s" % (which, kind, pick)
    try:
        if which == "csv":
            cols = ch.pick((5, 1, 2, 3, 12))
            sol.savecsv(showvars, path, valcols=cols)
            with open(path, newline="", encoding="utf-8") as f:
                rs = list(csv.reader(f))
            head = rs[0]
            require(head[:3] == ["Model Name", "Variable Name", "Value(s)"] and "Units" in head and "Description" in head, "csv header", str(head))
            iu, idn = head.index("Units"), head.index("Description")
            got, model = [], ""
            for r in rs[1:]:
                if not any(r):
                    continue
                model = r[0] or model
                require(len(r) <= len(head), "a csv row has more columns than its header", "%s: %s" % (what, r))
                r = r + [""]*(len(head) - len(r))
                if r[1]:
                    got.append([model, r[1], numbers(r[2:iu]), r[iu], r[idn]])
                else:
                    got[-1][2] += numbers(r[2:iu])
            for vk in vks:
                h = np.array(dict.__getitem__(sol["variables"], vk), float)
                mine = [g for g in got if g[1] == vk.str_without(("lineage", "vec")) and shown(g[2], h, 6e-3) and (not vk.units or g[3] == vk.unitstr()) and g[4] == (vk.label or "")]
                require(mine, "the csv does not list a value of the solution", "%s: %s = %s [%s] %r not among %s" % (what, vk, h, vk.unitstr(), vk.label, [g for g in got if g[1] == vk.str_without(("lineage", "vec"))] or got))
                if len({k.lineage for k in vks}) > 1 and vk.lineage:
                    require(any(g[0] == vk.lineagestr() for g in mine), "the csv lists a value under another model", "%s: %s" % (what, [m[0] for m in mine]))
            require(len(got) == len(vks), "the csv lists something else", "%s: %s" % (what, [g[1] for g in got]))
        elif which == "txt":
            pm = ch.pick((True, False))
            if showvars is None:
                sol.savetxt(path, printmodel=pm)
                want = sol.table()
            else:
                sol.savetxt(path, printmodel=pm, showvars=showvars)
                want = sol.table(showvars=showvars)
            with open(path, encoding="utf-8") as f:
                text = f.read()
            require(lines(text) == lines((sol.modelstr + "\n" if pm else "") + want), "the text file is not the model and table", what)
        elif which == "mat":
            import scipy.io
            with warnings.catch_warnings(record=True) as caught:
                warnings.simplefilter("always")
                sol.savemat(path, showvars)
            got = scipy.io.loadmat(path + ".mat" if os.path.exists(path + ".mat") else path)
            got = {k: v for k, v in got.items() if not k.startswith("__")}
            require(len(got) == len(vks), "the matlab file lists something else", "%s: %s %s %s" % (what, sorted(got), sorted(map(str, vks)), [str(c.message) for c in caught]))
            rest = dict(got)
            for vk in vks:
                h = np.array(dict.__getitem__(sol["variables"], vk), float)
                names = [n for n, v in rest.items() if vk.name.replace(".", "_") in n and np.asarray(v).size == h.size and same(np.asarray(v, float).reshape(h.shape), h, 1e-6)]
                require(names, "the matlab file does not list a value of the solution", "%s: %s = %s, %s" % (what, vk, h, got))
        else:
            stub = types.ModuleType("pandas")
            stub.DataFrame = lambda rows, columns=None: (rows, columns)
            old = sys.modules.get("pandas")
            sys.modules["pandas"] = stub
            try:
                rs, cols = sol.todataframe(showvars)
            finally:
                if old is None:
                    del sys.modules["pandas"]
                else:
                    sys.modules["pandas"] = old
            rs = [dict(zip(cols, r)) for r in rs]
            want = 0
            for vk in vks:
                h = np.array(dict.__getitem__(sol["variables"], vk), float)
                mine = [r for r in rs if r["Name"] == vk.name and (r["Lineage"] or "") == (vk.lineage or "")]
                vals = np.concatenate([np.array(r["Value"], float).flatten() for r in mine]) if mine else np.array([])
                require(same(vals, h.flatten(), 1e-12), "the dataframe does not list a value of the solution", "%s: %s = %s, %s" % (what, vk, h, mine))
                require(all(r["Units"] == vk.unitstr() and r["Label"] == (vk.label or "") for r in mine), "units or label in the dataframe", "%s: %s" % (what, mine))
                for r in mine:
                    if r["Index"] != "":
                        require(float(h[r["Index"]]) == float(r["Value"]), "an index in the dataframe", "%s: %s" % (what, r))
                want += len(mine)
            require(want == len(rs), "the dataframe lists something else", what)
        intact(w, before, held, what)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(ctx):
    ctx.explore("save and load", functools.partial(roundtrips, depth=2 if ctx.quick else 4))
    ctx.cases("load in another process", [(k, s) for k in KINDS for s in ((17,) if ctx.quick else (17, 23, 1000))], elsewhere)
    ctx.explore("failing saves", functools.partial(failures, cuts=4 if ctx.quick else 32))
    ctx.explore("exports", exports)
