"""Plots, sensitivity diagrams and sliders on the real code: every drawn number is the solution's own, and drawing changes nothing."""
import os
import re
import shutil
import tempfile
import numpy as np
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
from gpkit import Variable, VectorVariable, Model, SignomialsEnabled  # noqa: E402
from gpkit.units import Quantity  # noqa: E402
from gpkit.exceptions import InvalidGPConstraint  # noqa: E402
from gpkit.solvers.cvxopt import optimize  # noqa: E402
from gpkit.interactive.plot_sweep import plot_1dsweepgrid  # noqa: E402
from gpkit.interactive.plotting import compare, plot_convergence  # noqa: E402
from gpkit.interactive.sankey import Sankey  # noqa: E402
from gpkit.interactive.widgets import modelinteract  # noqa: E402
from ..core import require, outcome, guarded  # noqa: F401

TECHNIQUE = "exhaustive exploration of models x swept variables x plotted expressions x ways of calling (and failing solves) of the plots, diagrams and sliders on the real code, every drawn number compared with the closed-form optimum or the solution's own data"
NOTE = "All listed combinations; figures read back through matplotlib's artists, diagrams through their links and nodes, sliders through every sequence of moves up to the depth; every single failing solve."
TOL = 1e-4


def mag(x):
    return np.asarray(getattr(x, "magnitude", x), dtype=float)


def close(u, v, tol=TOL):
    u, v = mag(u), mag(v)
    return u.shape == v.shape and bool((abs(u - v) <= tol*abs(v) + 1e-12).all())


class World:
    "min x*y*z: x >= a*c, y >= 2a/c (in cm, with a in m), z[i] >= i+c; a 2 m and c 1.5 to start with"
    def __init__(self):
        a, c = self.a, self.c = Variable("a", "m", "span of a"), Variable("c")
        x, y = self.x, self.y = Variable("x", "m"), Variable("y", "cm", "chord")
        v = self.v = VectorVariable(2, "v")
        self.m = Model(x*y*v.prod(), [x >= a*c, y >= 2*a/c, v >= np.array([1.0, 2.0])*c])
        self.m.substitutions.update({a: 2.0, c: 1.5})

    def exprs(self):
        "what can be plotted: label -> (thing to plot, its true value at (a, c, x or None), text its label should contain)"
        a, c, x, y, v = self.a, self.c, self.x, self.y, self.v

        def cost(p):
            return p["x"]*p["y"]*p["v"][0]*p["v"][1]
        return {"x": (x, lambda p: p["x"], ("x", "m")),
                "y": (y, lambda p: p["y"], ("chord", "cm")),
                "a": (a, lambda p: p["a"], ("span of a", "m")),
                "c": (c, lambda p: p["c"], ("c", "-")),
                "v": (v, lambda p: p["v"], ("v",)),
                "v[1]": (v[1], lambda p: p["v"][1], ("v",)),
                "'x'": ("x", lambda p: p["x"], ("x",)),
                "x*y": (x*y, lambda p: p["x"]*p["y"], ("x", "y")),
                "x+a": (x + a, lambda p: p["x"] + p["a"], ("x", "a")),
                "cost": ("cost", cost, ("cost",)),
                "None": (None, cost, ()),
                "m.cost": (self.m.cost, cost, ("x", "y"))}

    @staticmethod
    def at(a=2.0, c=1.5, x=None):
        "the optimum"
        return dict(a=a, c=c, x=a*c if x is None else x, y=200*a/c, v=np.array([c, 2*c]))


SWEEPS = {"a": [1.0, 2.0, 4.0], "a down": [3.0, 1.0], "c": [0.5, 1.0, 2.0], "x": [3.5, 7.0]}
RANGES = {"a": (1.0, 4.0), "c": (0.5, 2.0)}
EXPRS = ["x", "y", "a", "c", "v", "v[1]", "'x'", "x*y", "x+a", "cost", "None", "m.cost"]


def xy(ax):
    return [(mag(l.get_xdata()), mag(l.get_ydata())) for l in ax.lines]


def expect_lines(got, xs, ys, what):
    "one line per component of ys"
    ys = np.asarray([mag(y) for y in ys])
    cols = [ys] if ys.ndim == 1 else [ys[:, i] for i in range(ys.shape[1])]
    require(len(got) == len(cols), "lines drawn", "%s: %s lines instead of %s" % (what, len(got), len(cols)))
    for (gx, gy), col in zip(got, cols):
        require(close(gx, xs), "swept values drawn", "%s drawn at %s, swept over %s" % (what, gx, xs))
        require(close(gy, col), "values drawn", "%s drawn as %s at %s, is %s" % (what, gy, xs, col))


def labelled(text, parts, what):
    for p in parts:
        require(p in text, "axis labels", "%s labelled %r, which lacks %r" % (what, text, p))


def band(ax, what):
    "the vertices of the one filled band drawn in ax: swept values, lower and upper bounds there"
    require(len(ax.collections) == 1, "bands drawn", "%s bands for %s" % (len(ax.collections), what))
    verts = np.asarray(ax.collections[0].get_paths()[0].vertices, float)
    at = {}
    for px, py in verts:
        at.setdefault(round(float(px), 9), []).append(float(py))
    xs = np.array(sorted(at))
    return xs, np.array([min(at[p]) for p in xs]), np.array([max(at[p]) for p in xs])


def expect_band(ax, rng, fn, tol, what):
    xs, lo, hi = band(ax, what)
    require(close(xs[0], rng[0]) and close(xs[-1], rng[1]), "band range", "%s drawn from %s to %s" % (what, xs[0], xs[-1]))
    for p, l, h in zip(xs, lo, hi):
        t = float(fn(p))
        require(l <= t*(1 + 3e-5) and h >= t*(1 - 3e-5), "band holds the cost", "%s at %s: band [%s, %s], true %s" % (what, p, l, h, t))
        require(np.log(h/l) <= 2*tol + 1e-4, "band width", "%s at %s: band [%s, %s] wider than tolerance %s" % (what, p, l, h, tol))


def subs_of(m):
    return sorted((str(k), repr(v)) for k, v in m.substitutions.items())


def solplot(ch):
    kind = ch.pick(sorted(SWEEPS))
    names = [ch.pick(EXPRS)]
    second = ch.pick(["-", "cost", "y", "x*y"])
    if second != "-":
        names.append(second)
    own = ch.pick([False, "own axes"])
    w = World()
    var = getattr(w, kind[0])
    vals = SWEEPS[kind]
    sol = w.m.sweep({var: vals}, verbosity=0)
    before = {str(k): mag(sol["variables"][k]).copy() for k in sol["variables"]}
    table = sol.table()
    exprs = w.exprs()
    posys = [exprs[n][0] for n in names]
    if len(posys) == 1 and ch.pick([False, "not a list"]) and names[0] != "v":
        posys = posys[0]
    axes = None
    if own:
        _, axes = plt.subplots(len(names), 1)
        if len(names) == 1 and ch.pick([False, "list of axes"]):
            axes = [axes]
    try:
        fig, out = sol.plot(posys, axes)
        axs = list(np.ravel(out))
        require(len(axs) == len(names), "axes returned", "%s axes for %s" % (len(axs), names))
        require(axs[0].figure is fig, "figure returned", "the figure returned is not the one drawn on")
        for n, ax in zip(names, axs):
            _, fn, label = exprs[n]
            expect_lines(xy(ax), vals, [fn(World.at(**{kind[0]: p})) for p in vals], "%s against %s" % (n, kind))
            if not own:
                labelled(ax.get_ylabel(), label, n)
        if not own:
            labelled(axs[-1].get_xlabel(), exprs[kind[0]][2], "x axis of sweep over " + kind)
    finally:
        plt.close("all")
    for k in sol["variables"]:
        require(np.array_equal(before[str(k)], mag(sol["variables"][k])), "plot changes solution", "%s changed by plotting" % k)
    require(sol.table() == table, "plot changes solution", "the table changed by plotting %s" % names)
    outcome("plotted")


def autoplot(ch):
    kind = ch.pick(sorted(RANGES))
    tol = ch.pick([0.1, 0.01] if ch_quick else [0.1, 0.01, 0.001])
    names = [ch.pick([e for e in EXPRS if e != "v"])]
    second = ch.pick(["-", "cost"])
    if second != "-":
        names.append(second)
    own = ch.pick([False, "own axes"])
    w = World()
    var, rng = getattr(w, kind), RANGES[kind]
    before = subs_of(w.m)
    sol = w.m.autosweep({var: rng}, tol=tol, verbosity=0)
    exprs = w.exprs()
    posys = [exprs[n][0] for n in names]
    axes = None
    if own:
        _, axes = plt.subplots(len(names), 1)
        axes = list(np.ravel(axes))
    if len(posys) == 1 and not own and ch.pick([False, "not a list"]):
        posys = posys[0]
    try:
        _, out = sol.plot(posys, axes)
        axs = list(np.ravel(out))
        require(len(axs) == len(names), "axes returned", "%s axes for %s" % (len(axs), names))
        for n, ax in zip(names, axs):
            _, fn, label = exprs[n]
            what = "%s against %s" % (n, kind)
            if n in ("cost", "None", "m.cost"):
                require(not ax.lines, "lines drawn", "a line for the cost band")
                expect_band(ax, rng, lambda p, fn=fn: fn(World.at(**{kind: p})), tol, what)
            else:
                require(not len(ax.collections), "bands drawn", "a band for " + n)
                xs = xy(ax)[0][0]
                require(close(xs[0], rng[0]) and close(xs[-1], rng[1]) and (np.diff(xs) > 0).all(), "swept values drawn", "%s drawn at %s" % (what, xs))
                sub = [0, len(xs)//3, len(xs)//2, len(xs) - 1]
                want = mag(sol(exprs[n][0]))
                require(close(xy(ax)[0][1], want, 1e-12), "values drawn", "%s drawn as %s, autosweep says %s" % (what, xy(ax)[0][1][:4], want[:4]))
                loglin = kind == "a" or n != "x+a"
                for i in sub if loglin else (0, len(xs) - 1):
                    t = fn(World.at(**{kind: xs[i]}))
                    near = i in (0, len(xs) - 1)
                    # in between, values are interpolated from the stored solves, which are tol apart in log cost
                    require(abs(np.log(xy(ax)[0][1][i]/t)) <= (1e-4 if near or n == kind else 0.35), "values drawn",
                            "%s drawn as %s at %s, is %s" % (what, xy(ax)[0][1][i], xs[i], t))
            if not own:
                labelled(ax.get_ylabel(), () if n in ("cost", "None") else label, n)
        if not own:
            labelled(axs[-1].get_xlabel(), exprs[kind][2], "x axis of autosweep over " + kind)
    finally:
        plt.close("all")
    require(subs_of(w.m) == before, "substitutions", "%s became %s" % (before, subs_of(w.m)))
    outcome("plotted")


class Failing(Exception):
    "raised by the solver"


def grid(ch):
    sweeps = ch.pick([("a",), ("c",), ("x",), ("a", "c"), ("a", "x"), ("x", "c"), ("c auto",), ("a", "c auto"), ("a auto", "x")])
    names = list(ch.pick([("x",), ("cost",), ("y", "cost"), ("x*y",), ("c", "x", "v[1]"), ("m.cost", "a")]))
    single = len(names) == 1 and ch.pick([False, "not a list"])
    orig = ch.pick(["solved", "given", "given elsewhere"])
    fail = ch.pick([None, 0, 1, 3])
    w = World()
    exprs = w.exprs()
    before = subs_of(w.m)
    calls = []

    def solver(**kw):
        calls.append(1)
        if fail is not None and len(calls) - 1 == fail:
            raise Failing()
        return optimize(**kw)
    point = dict(a=2.0, c=1.5)
    origsol = None
    if orig != "solved":
        if orig == "given elsewhere":
            w.m.substitutions.update({w.a: 2.0, w.c: 3.0})
            origsol = w.m.solve(verbosity=0)
            w.m.substitutions.update({w.c: 1.5})
            point["c"] = 3.0
        else:
            origsol = w.m.solve(verbosity=0)
    todo = {}
    named = fail is None and ch.pick([False, "swept by name"])
    for s in sweeps:
        todo[s[0] if named else getattr(w, s[0])] = RANGES[s[0]] if "auto" in s else SWEEPS[s]
    posys = [exprs[n][0] for n in names]
    try:
        try:
            fig, axes = plot_1dsweepgrid(w.m, todo, posys[0] if single else posys, origsol=origsol, tol=0.01, solver=solver, verbosity=0)
        except Exception as e:  # pylint: disable=broad-except
            require(fail is not None and len(calls) > fail, "grid fails", "%r" % e)
            require(subs_of(w.m) == before, "substitutions after failure", "%s became %s" % (before, subs_of(w.m)))
            outcome("failed")
            return
        require(fail is None or len(calls) <= fail, "grid swallows failure", "solve %s failed unnoticed" % fail)
        axes = np.asarray(axes, dtype=object).reshape(len(names), len(sweeps))
        require(axes.flat[0].figure is fig, "figure returned", "")
        for i, s in enumerate(sweeps):
            v = s[0]
            for j, n in enumerate(names):
                ax, fn = axes[j, i], exprs[n][1]
                what = "%s against %s" % (n, s)
                lines = xy(ax)
                if v in ("a", "c"):  # the original solution's mark
                    marks = [l for l in ax.lines if l.get_marker() not in (None, "None", "")]
                    require(len(marks) == 1, "original solution marked", "%s marks in %s" % (len(marks), what))
                    mx, my = mag(marks[0].get_xdata()), mag(marks[0].get_ydata())
                    val = {"a": 2.0, "c": 1.5}[v]
                    require(close(mx, [val]) and close(my, [float(fn(World.at(**point)))]), "original solution marked",
                            "%s marked at (%s, %s), is (%s, %s)" % (what, mx, my, val, fn(World.at(**point))))
                    lines = [xy_ for l, xy_ in zip(ax.lines, lines) if l is not marks[0]]
                if "auto" in s:
                    if n in ("cost", "m.cost"):
                        expect_band(ax, RANGES[v], lambda p, fn=fn: fn(World.at(**{v: p})), 0.01, what)
                    else:
                        require(len(lines) == 1 and close(lines[0][0][[0, -1]], RANGES[v]), "swept values drawn", what)
                        require(close(lines[0][1][[0, -1]], [float(fn(World.at(**{v: p}))) for p in RANGES[v]]), "values drawn", what)
                else:
                    expect_lines(lines, SWEEPS[s], [fn(World.at(**{v: p})) for p in SWEEPS[s]], what)
            labelled(axes[-1, i].get_xlabel(), exprs[v][2], "x axis " + s)
        for j, n in enumerate(names):
            labelled(axes[j, 0].get_ylabel(), () if n == "cost" else exprs[n][2], n)
    finally:
        plt.close("all")
    require(subs_of(w.m) == before, "substitutions", "%s became %s" % (before, subs_of(w.m)))
    outcome("drawn")


def comparing(ch):
    n = ch.pick([1, 2, 3])
    names = ch.pick([("cost",), ("x",), ("x", "cost"), ("y", "x")])
    mixed = n == 2 and ch.pick([False, "a tuple naming one variable per model"])
    kind = ch.pick(sorted(RANGES))
    factors = [1.0, 2.0, 5.0][:n]
    models = []
    for f in factors:
        w = World()
        w.m.substitutions.update({w.a: 2.0*f, w.c: 1.5*f})
        models.append(w.m)
    posys = list(names) + ([("x", "y")] if mixed else [])
    other = {"a": "c", "c": "a"}[kind]
    base = {"a": 2.0, "c": 1.5}
    try:
        compare(models, {kind: RANGES[kind]}, posys, tol=0.01)
        axs = plt.gcf().axes
        require(len(axs) == len(posys), "axes returned", "%s axes for %s" % (len(axs), posys))
        for p, ax in zip(posys, axs):
            lines = xy(ax)
            if p == "cost":
                require(len(ax.collections) == n, "bands drawn", "%s bands for %s models" % (len(ax.collections), n))
                require(not lines, "lines drawn", "lines for the cost")
            else:
                require(len(lines) == n and not len(ax.collections), "lines drawn", "%s lines for %s models" % (len(lines), n))
            for i, f in enumerate(factors):
                name = p[i] if isinstance(p, tuple) else p
                for end, at in ((0, RANGES[kind][0]), (-1, RANGES[kind][1])):
                    t = World.at(**{kind: at, other: base[other]*f})
                    if p == "cost":
                        verts = np.asarray(ax.collections[i].get_paths()[0].vertices, float)
                        got = [y for x, y in verts if abs(x - at) < 1e-9]
                        want = t["x"]*t["y"]*t["v"].prod()
                        require(got and min(got) <= want*1.0001 and max(got) >= want*0.9999, "band holds the cost", "model %s at %s: %s, is %s" % (i, at, got, want))
                    else:
                        got = (lines[i][0][end], lines[i][1][end])
                        require(close(got, (at, t[name])), "values drawn", "%s of model %s drawn as %s, is %s" % (name, i, got, (at, t[name])))
    finally:
        plt.close("all")
    outcome("compared")


def convergence(ch):
    pccp = ch.pick([False, "pccp"])
    x0 = ch.pick([None, (0.9, 0.02), (2.0, 0.3), (0.5, 0.5)])
    kind = ch.pick(["decreasing", "curved"])
    x, y = Variable("x"), Variable("y")
    with SignomialsEnabled():
        if kind == "decreasing":
            m = Model(x, [x >= 1 - y + y**2/2, y <= x])
        else:
            m = Model(x*y**.1, [x + y >= 1 + x**2*y + 0.3/x, x*y <= 0.3, y >= 0.01])
    costs = []

    def solver(**kw):
        r = optimize(**kw)
        costs.append(float(r["objective"]))
        return r
    sp = m.sp(use_pccp=pccp)
    m.program = sp
    try:
        sp.localsolve(solver=solver, verbosity=0, x0=None if x0 is None else {x: x0[0], y: x0[1]})
    except Exception:  # pylint: disable=broad-except
        outcome("did not solve")
    if not costs:
        return
    try:
        fig, ax = plot_convergence(m)
        require(ax.figure is fig, "figure returned", "")
        got = xy(ax)
        require(len(got) == 1, "lines drawn", "%s lines" % len(got))
        n = len(costs)
        require(close(got[0][0], np.arange(1, n + 1)), "iterations drawn", "%s solves drawn at %s" % (n, got[0][0]))
        require(close(got[0][1], costs, 1e-9), "costs drawn", "costs %s drawn as %s" % (costs, got[0][1]))
    finally:
        plt.close("all")
    outcome("%s iterations" % min(n, 4))


class Wing(Model):
    def setup(self, same):
        S = self.S = Variable("S", "m^2", "area")
        k = self.k = VectorVariable(2, "k", [3.0, 3.0] if same else [3.0, 4.0], "m^2")
        q, z, d = Variable("q", 0.5), VectorVariable(2, "z", [1.0, 2.0]), VectorVariable(2, "d")
        self.q, self.z, self.d = q, z, d
        self.cost = S
        return {"size": S >= k[0]*q + k[1], "vec": [d >= z*q], "other": [S >= 0.1*k[0]*d.prod()]}


class Plane(Model):
    def setup(self, same, n):
        self.wings = [Wing(same) for _ in range(n)]
        W, g = self.W, self.g = Variable("W", "N"), Variable("g", 9.8, "N/m^2")
        self.cost = W
        return [self.wings, W >= g*sum(w.S for w in self.wings), [W <= 1e4*g*self.wings[0].S]]


def flat_sankey(kind):
    "a model, and the parts of it that diagrams are drawn of"
    if kind in ("plain", "cost", "folded"):
        w = World()
        if kind == "folded":
            w.m = Model(w.m.cost, list(w.m) + [[w.a*w.c <= Quantity(1000.0, "m"), w.a <= w.c*Quantity(50.0, "m")]])
            w.m.substitutions.update({w.a: 2.0, w.c: 1.5})
        if kind == "cost":
            w.m = Model(w.a*w.x*w.y*w.v.prod(), list(w.m))
            w.m.substitutions.update({w.a: 2.0, w.c: 1.5})
        return w.m, {"all": w.m}, {"a": w.a, "c": w.c, "x": w.x, "v[0]": w.v[0]}
    m = Plane(kind != "different", 2 if kind == "two wings" else 1)
    wing = m.wings[0]
    return m, {"all": m, "wing": wing}, {"g": m.g, "q": wing.q, "k[0]": wing.k[0], "z[1]": wing.z[1], "S": wing.S, "W": m.W}


PLAIN = ("plain", "cost", "folded")


def leaves(cset):
    "single constraints of a set, in order"
    from gpkit.constraints.single_equation import SingleEquationConstraint
    if isinstance(cset, SingleEquationConstraint):
        return [cset]
    if hasattr(cset, "flat"):
        return list(cset.flat())
    return [l for c in (cset.values() if isinstance(cset, dict) else cset) for l in leaves(c)]


def tree(links, root, what):
    "every node but the root has one way out, whose value is what comes in; returns the leaves' values"
    out, into = {}, {}
    for l in links:
        require(l["source"] not in out, "one way out", "%s: two links out of %s" % (what, l["source"]))
        out[l["source"]] = l
        into.setdefault(l["target"], []).append(l)
    signed = {s: (-1 if l["title"].startswith("-") else 1)*l["value"] for s, l in out.items()}
    for t, ls in into.items():
        if t == root:
            continue
        require(t in out, "connected", "%s: %s leads nowhere" % (what, t))
        total = sum(signed[l["source"]] for l in ls)
        require(abs(total - signed[t]) <= 1e-6*max(1, abs(total)), "flows add up", "%s: %s flows into %s and %s out" % (what, total, t, signed[t]))
    return {s: v for s, v in signed.items() if s not in into}, sum(signed[l["source"]] for l in into.get(root, []))


def links_ok(d, what):
    ids = [n["id"] for n in d.nodes]
    require(len(set(ids)) == len(ids), "nodes listed once", "%s: %s" % (what, ids))
    ends = {l["source"] for l in d.links} | {l["target"] for l in d.links}
    require(ends == set(ids), "nodes listed", "%s: %s" % (what, ends ^ set(ids)))
    colors = {}
    for l in d.links:
        require(l["value"] >= 0, "link values", "%s: %s" % (what, l))
        shown = float(l["title"])
        require(abs(abs(shown) - l["value"]) <= 0.06*l["value"], "link titles", "%s: %s" % (what, l))
        k = 0 if l["value"] < 0.01 else (1 if shown > 0 else -1)
        require(colors.setdefault(k, l["color"]) == l["color"], "link colors", "%s: %s" % (what, l))
    require(len(set(colors.values())) == len(colors), "link colors", "%s: %s" % (what, colors))


def key_of(l, titles):
    return (titles[l["source"]], titles[l["target"]], round(l["value"], 9), l["color"])


def sankey(ch):
    kind = ch.pick(["plain", "cost", "folded", "one wing", "two wings", "different"])
    m, parts, variables = flat_sankey(kind)
    part = ch.pick(sorted(parts))
    var = ch.pick(["-"] + sorted(variables))
    again = ch.pick([False, "after another diagram of the same object"])
    how = ch.pick(["everything", "few links", "most sensitive", "no constraints", "click"])
    where, cwd = tempfile.mkdtemp(), os.getcwd()
    os.chdir(where)
    try:
        sol = m.solve(verbosity=0)
        table = sol.table()
        cset, v = parts[part], variables.get(var)
        sk = Sankey(sol, cset)
        if again:
            sk.diagram(variables[sorted(variables)[0]], maxlinks=3)
        full = sk.diagram(v, maxlinks=100000)
        what = "%s/%s of %s" % (kind, part, var)
        links_ok(full, what)
        titles = {n["id"]: n["title"] for n in full.nodes}
        targets = {l["target"] for l in full.links} - {l["source"] for l in full.links}
        require(len(targets) == (1 if full.links else 0), "one root", "%s: roots %s" % (what, targets))
        root = targets.pop() if targets else None
        ends, total = tree(full.links, root, what)
        cons = leaves(cset)
        senss = sol["sensitivities"]
        if v is None:
            require(not any(val > 0 for val in ends.values()), "signs", "%s: %s" % (what, ends))
            want = [abs(senss["constraints"][c]) for c in cons if c in senss["constraints"]]
            models = [] if kind in PLAIN else [m] if part == "all" else []
            if kind not in PLAIN:
                models = [x for x in ([m] + m.wings if part == "all" else [cset])]
            for mod in models:  # named models also show their constants
                own = [m.g] if mod is m else list(mod.k) + [mod.q] + list(mod.z)
                want += [abs(float(senss["variables"][o.key])) for o in own]
            got = sorted(abs(x) for x in ends.values())
            require(len(got) == len(want) and np.allclose(got, sorted(want), atol=1e-7), "every part shown", "%s: %s, sensitivities %s" % (what, got, sorted(want)))
            texts = sorted(titles[s] for s in ends)
            for mod in models:
                for o in ([m.g] if mod is m else list(mod.k) + [mod.q] + list(mod.z)):
                    val = "%.4g" % mag(sol["variables"][o.key])
                    require(any(t.startswith(o.str_without(["lineage", "units"])) and val in t for t in texts), "constants labelled", "%s: %s = %s not in %s" % (what, o, val, texts))
            for t in titles.values():   # a whole vector is said to have a value only if all of it has
                said = re.match(r"^(\w+) = (\S+)", t)
                for o in (o for mod in models if mod is not m for o in (mod.k, mod.z)):
                    if said and said.group(1) == o.key.name:
                        vals = np.ravel(mag(sol["variables"][o.key]))
                        require(np.allclose(vals, float(said.group(2)), rtol=1e-3), "constants labelled", "%s: %r, %s" % (what, t, vals))  # pylint: disable=cell-var-from-loop
        else:
            of_cost = senss["cost"].get(v.key, 0) if hasattr(senss["cost"], "get") else 0
            whole = float(mag(senss["variables"][v.key])) if v.key in senss["variables"] else None
            if part == "all":
                want = whole if var not in ("x", "v[0]", "S", "W") else 0.0
                require(abs(total - want) <= 1e-4, "variable's total", "%s: total %s, sensitivity %s" % (what, total, want))
            costs = [s for s in ends if titles[s] == "[cost function]"]
            require(bool(costs) == bool(of_cost), "cost shown", "%s: %s for %s" % (what, costs, of_cost))
            if costs:
                require(abs(ends[costs[0]] - float(of_cost)) <= 1e-6, "cost shown", "%s: %s instead of %s" % (what, ends[costs[0]], of_cost))
            having = [c for c in cons if v.key in c.left.vks | c.right.vks]
            require(len(ends) - len(costs) == len(having), "constraints shown", "%s: %s for %s" % (what, [titles[s] for s in ends], having))
        # the filters only leave links out
        fullkeys = sorted(key_of(l, titles) for l in full.links)

        def within(d, name):
            links_ok(d, what + name)
            t2 = {n["id"]: n["title"].replace("⟶ ", "") for n in d.nodes}
            rest = list(fullkeys)
            for l in d.links:
                k = key_of(l, t2)
                near = [r for r in rest if (r[0], r[1], r[3]) == (k[0], k[1], k[3]) and abs(r[2] - k[2]) < 1e-7]
                require(near, "filters only leave out", "%s%s: %s is not in the full diagram" % (what, name, k))
                rest.remove(near[0])
            return t2
        if how == "few links":
            for n in (1, 2, 4, 8):
                d = Sankey(sol, cset).diagram(v, maxlinks=n)
                within(d, " with %s links" % n)
                if len(full.links) <= n:
                    require(len(d.links) == len(full.links), "links left out", "%s: %s of %s links with room for %s" % (what, len(d.links), len(full.links), n))
        elif how == "most sensitive":
            for t in (1e-5, 0.2, 0.4, 0.9):
                d = Sankey(sol, cset).diagram(v, maxlinks=100000, minsenss=t)
                within(d, " above %s" % t)
                n = len([l for l in full.links if l["value"] > t])
                require(len(d.links) == n, "links above the threshold", "%s: %s links above %s, shown %s" % (what, n, t, len(d.links)))
        elif how == "no constraints":
            d = Sankey(sol, cset).diagram(v, maxlinks=100000, showconstraints=False)
            within(d, " without constraints")
            require(not any("≥" in titles.get(l["source"], "") or "≤" in titles.get(l["source"], "") for l in d.links), "constraints left out", "%s: %s" % (what, d.links))
        elif how == "click":
            for node in sorted(titles):
                sk2 = Sankey(sol, cset)
                d = sk2.diagram(v, maxlinks=100000)
                sk2.onclick(d, {"id": node})
                near = [l for l in full.links if node in l["source"] or node in l["target"]]
                require(len(d.links) == len(near), "clicked node", "%s: %s links around %s, shown %s" % (what, len(near), node, len(d.links)))
                within(d, " around " + node)
        require(sol.table() == table, "diagram changes solution", what)
        require(all("necessarylineage" not in k.descr for k in m.varkeys), "diagram changes names", what)
    finally:
        os.chdir(cwd)
        shutil.rmtree(where)
    outcome("%s links" % (min(len(full.links), 9)))


def sliders(ch):
    swept = ch.pick(["-", "a"])
    spec = ch.pick(["none", "names", "a two", "a three", "both", "key"])
    moves = [ch.pick([("-", 0), ("a", 1.25), ("a", 0.75), ("c", 1.5), ("a", "max"), ("c", "min")]) for _ in range(2 if ch_quick else 3)]
    again = ch.pick([False, "updated once more in between"])
    w = World()
    if swept == "a":
        w.m.substitutions.update({w.a: ("sweep", [2.0, 3.0, 8.0, 0.25])})
    ranges = {"none": None, "names": ["a", "c"], "a two": {"a": (1.0, 5.0)}, "a three": {"a": (1.0, 0.5, 5.0)},
              "both": {"a": (0.5, 8.0), "c": (1.0, 2.0)}, "key": {w.a: (1.0, 5.0)}}[spec]
    seen = []
    live = modelinteract(w.m, lambda sol: seen.append((float(mag(sol["cost"])), float(mag(sol(w.x))), float(mag(sol(w.y))))), ranges)
    bars = {str(s.varkey): s for s in live.children if hasattr(s, "varkey")}
    want = {"none": {"a", "c"}, "names": {"a", "c"}, "both": {"a", "c"}}.get(spec, {"a"})
    require(set(bars) == want, "sliders made", "%s for %s" % (sorted(bars), spec))
    now = {"a": 2.0, "c": 1.5}
    limits = {"a": (1.0, 4.0) if swept == "-" else (0.25, 8.0), "c": (0.75, 3.0)}
    limits.update({"a two": {"a": (1.0, 5.0)}, "a three": {"a": (1.0, 5.0)}, "both": {"a": (0.5, 8.0), "c": (1.0, 2.0)}, "key": {"a": (1.0, 5.0)}}.get(spec, {}))
    for n, b in bars.items():
        require(close(b.value, now[n]) and close((b.min, b.max), limits[n]), "slider ranges", "%s: %s in (%s, %s), should be %s in %s" % (n, b.value, b.min, b.max, now[n], limits[n]))
        step = 0.5 if spec == "a three" and n == "a" else (limits[n][1] - limits[n][0])/24
        require(close(b.step, step), "slider steps", "%s: %s, should be %s" % (n, b.step, step))

    def check(when):
        p = World.at(**now)
        require(seen, "shown", "nothing shown " + when)
        require(close(seen[-1], (p["x"]*p["y"]*p["v"].prod(), p["x"], p["y"])), "shown", "%s at %s: shown %s" % (when, now, seen[-1]))
    check("to start with")
    for i, (n, v) in enumerate(moves):
        if n not in bars:
            continue
        if again and i == 1:
            live.update()
            check("after %s and an update" % (moves[:i],))
        v = {"max": bars[n].max, "min": bars[n].min}.get(v, v)
        bars[n].value = v
        live.update()
        now[n] = float(bars[n].value)
        check("after %s" % (moves[:i+1],))
    got = {str(k): float(mag(v)) for k, v in w.m.substitutions.items()}
    require(all(close(got[k], now[k]) for k in now), "model follows sliders", "%s, sliders %s" % (got, now))
    outcome("moved")


def failing_slider(ch):
    "a model that is infeasible for some slider positions goes on working at the others"
    order = [ch.pick([1.0, 2.0, 3.0]) for _ in range(2 if ch_quick else 3)]
    kind = ch.pick(["gp", "sp"])
    a, x = Variable("a"), Variable("x")
    if kind == "gp":
        m = Model(x, [x >= 2*a, x <= 5])
    else:
        with SignomialsEnabled():
            m = Model(x, [x >= 2*a + 1e-9*x**2, x + 0.001*a >= 2*a, x <= 5])
    m.substitutions.update({a: 1.0})
    seen = []
    live = modelinteract(m, lambda sol: seen.append(float(mag(sol["cost"]))), {"a": (0.5, 5.0)})
    bar = next(s for s in live.children if hasattr(s, "varkey"))
    require(seen and close(seen[-1], 2.0), "shown", "%s to start with" % seen)
    for v in order:
        n, moved = len(seen), bar.value != v
        bar.value = v
        if v <= 2:
            require(close(seen[-1], 2*v) and (len(seen) > n or not moved), "shown", "at %s of %s: %s" % (v, order, seen[n:]))
        else:
            require(len(seen) == n, "infeasible shown", "at %s of %s: %s" % (v, order, seen[n:]))
        require(close(m.substitutions[a], v), "model follows sliders", "at %s of %s: %s" % (v, order, m.substitutions[a]))
    outcome("moved")


ch_quick = True


def run(ctx):
    global ch_quick
    ch_quick = ctx.quick
    ctx.bound(plotted_expressions=len(EXPRS), sweeps=sorted(SWEEPS), ranges=sorted(RANGES), slider_moves=2 if ctx.quick else 3)
    ctx.assumptions.append("figures are read back from matplotlib's artists, diagrams from the widget's links and nodes; nothing is rendered to the screen")
    ctx.explore("sweep plots", solplot)
    ctx.explore("autosweep plots", autoplot)
    ctx.explore("sweep grids", grid)
    ctx.explore("model comparisons", comparing)
    ctx.explore("convergence", convergence)
    ctx.explore("sensitivity diagrams", sankey)
    ctx.explore("sliders", sliders)
    ctx.explore("failing sliders", failing_slider)
