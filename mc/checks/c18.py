"""Sweeps on the real code: every grid point against solving there alone, with natural, compile-time and injected failures."""
import contextlib
import io
import itertools
import warnings
import numpy as np
from gpkit import Variable, VectorVariable, Model, SignomialsEnabled
from gpkit.exceptions import Infeasible, InvalidGPConstraint, PrimalInfeasible, UnknownInfeasible
from gpkit.solvers.cvxopt import optimize
from gpkit.units import Quantity
from ..core import require, outcome, Skip, fail

TECHNIQUE = "exhaustive exploration of sweep specifications x models x sets of failing points (natural, at compilation, and injected through the solver) on the real code, compared point by point with separate solves of fresh models"
NOTE = "All combinations of up to three swept quantities of the alphabet (scalars, vector elements, whole vectors, quantities) with linked constants, all ways of declaring them, and all subsets of injected failures."
CONST = {"a": 1.5, "b": 2.0, "p0": 10.0, "p1": 20.0}
_CACHE = {}


class World:
    def __init__(self, kind, spec=None):
        spec = spec or {}
        self.x, self.y, self.z = Variable("x", "ft"), Variable("y"), Variable("z", "m")
        self.a, self.b = Variable("a", *[v for v in [spec.get("a")] if v is not None], "m"), Variable("b", *[v for v in [spec.get("b")] if v is not None])
        self.p = VectorVariable(2, "p", "cm")
        a, b, p, x, y, z = self.a, self.b, self.p, self.x, self.y, self.z
        self.e = Variable("e", lambda c: c[a.key]*c[b.key]**2 + 1, "m")
        self.q = VectorVariable(2, "q", lambda c: [c[b.key], 2*c[b.key] + 1])
        # alike at the first and last of the values of a
        self.r = Variable("r", lambda c: (c[a.key] - 1.25)**2 + 1)
        self.t = VectorVariable(2, "t", lambda c: [2.0, (c[a.key] - 1.25)**2 + 1])
        e, q, r, t = self.e, self.q, self.r, self.t
        cons = [x >= a*b + p[0], y*z >= e*q[1] + p[1], z <= Quantity(40.0, "m"), z >= a, y >= q[0], y >= r, y >= t[0]*t[1]/3]
        if kind == "limited":
            cons.append(x <= Quantity(11.0, "ft"))
        elif kind == "constant":
            cons += [b*a <= Quantity(4.0, "m"), x <= 1e6*x.units]
        elif kind == "signomial":
            with SignomialsEnabled():
                cons.append(z + y*a <= x*3 + y**2*a)
            cons += [x <= Quantity(1e4, "ft"), y <= 1e4]
        self.m = Model(x/x.units + y + 0.1*z/z.units, cons)
        self.key = {"a": a.key, "b": b.key, "p0": p[0].key, "p1": p[1].key, "e": e.key, "q0": q[0].key, "q1": q[1].key, "r": r.key, "t0": t[0].key, "t1": t[1].key, "x": x.key, "y": y.key, "z": z.key}

    def set(self, vals):
        for nm, v in vals.items():
            self.m.substitutions[self.key[nm]] = v


def alone(kind, point):
    "solving at a point with a fresh model: (views or None, exception name)"
    k = (kind, tuple(sorted(point.items())))
    if k not in _CACHE:
        w = World(kind)
        w.set(point)
        try:
            sol = w.m.localsolve(verbosity=0) if kind == "signomial" else w.m.solve(verbosity=0)
            _CACHE[k] = views(w, sol, None)
        except Infeasible as ex:
            _CACHE[k] = type(ex).__name__
    return _CACHE[k]


def num(v):
    return float(getattr(v, "magnitude", v))


def views(w, sol, i):
    "every quantity of (point i of) a solution"
    at = (lambda v: v) if i is None else (lambda v: np.asarray(v)[i])
    out = {"cost": num(at(getattr(sol["cost"], "magnitude", sol["cost"])))}
    for nm in ("a", "b", "p0", "p1", "e", "q0", "q1", "r", "t0", "t1", "x", "y", "z"):
        vk = w.key[nm]
        for part in ("variables",) + (("freevariables",) if nm in "xyz" else ()):
            whole = sol[part][vk.veckey] if vk.veckey else sol[part][vk]
            v = np.asarray(whole)
            v = v[i] if i is not None and v.ndim > (1 if vk.veckey else 0) else v
            out[part, nm] = float(v[vk.idx] if vk.veckey else v)
        if nm in ("a", "b", "p0", "p1"):
            ss = sol["sensitivities"]["variables"]
            whole = np.asarray(ss[vk.veckey] if vk.veckey else ss[vk])
            v = whole[i] if i is not None and whole.ndim > (1 if vk.veckey else 0) else whole
            out["sens", nm] = float(v[vk.idx] if vk.veckey else v)
    return out


SWEEPS = {"a": [1.0, 2.5, 1.5], "b": [0.5, 3.0], "p0": [30.0, 5.0, 200.0], "p1": [7.0, 9.0],
          "p (ragged)": [[10.0, 50.0], [20.0, 1.0, 400.0]], "p (square)": [[10.0, 60.0], [5.0, 90.0]], "p=[5, sweep]": [2.0, 3.0, 90.0], "a in quantities": [1.0, 2.5], "a as quantity": [1.0, 2.5], "b range": [1.0, 2.0, 3.0]}


def names_of(s):
    return {"p (ragged)": ("p0", "p1"), "p (square)": ("p0", "p1"), "p=[5, sweep]": ("p1",), "a in quantities": ("a",), "a as quantity": ("a",), "b range": ("b",)}.get(s, (s,))


def compatible(combo):
    ns = [n for s in combo for n in names_of(s)]
    return len(set(ns)) == len(ns) and not ("p=[5, sweep]" in combo and "p0" in ns)


def apply(w, s, target):
    "puts a sweep in a substitutions dictionary; returns {name: values}, {other constants}"
    v = SWEEPS[s]
    if s in w.key:
        target[w.key[s]] = ("sweep", v)
        return {s: v}, {}
    if s.startswith("p ("):
        target[w.p] = ("sweep", [list(e) for e in v])
        if s == "p (square)":   # N vectors; each element is swept over its N values
            v = [list(c) for c in zip(*v)]
        return {"p0": v[0], "p1": v[1]}, {}
    if s == "p=[5, sweep]":
        target[w.p] = [5.0, ("sweep", v)]
        return {"p1": v}, {"p0": 5.0}
    if s == "a in quantities":
        target[w.key["a"]] = ("sweep", [Quantity(100*e, "cm") for e in v])
        return {"a": v}, {}
    if s == "a as quantity":
        target[w.key["a"]] = ("sweep", Quantity(np.array(v)*100, "cm"))
        return {"a": v}, {}
    target[w.key["b"]] = ("sweep", range(1, 4))
    return {"b": v}, {}


def check(w, sol, kind, points, swept, where, order=True):
    "the swept solution holds exactly the given points"
    n = len(points)
    require(len(sol) == n, "one entry per successful point", lambda: "%s: %s entries for %s points" % (where(), len(sol), n))
    wants = [alone(kind, p) for p in points]
    used = set()
    for i in range(n):
        got = views(w, sol, None if n == 1 else i)
        cand = [i] if order else [j for j in range(n) if j not in used and all(abs(got["variables", nm]-points[j][nm]) <= 1e-9*abs(points[j][nm]) for nm in swept)]
        require(cand, "only points of the grid", lambda: "%s: entry %s is at %s" % (where(), i, {nm: got["variables", nm] for nm in swept}))
        j = cand[0]
        used.add(j)
        want = wants[j]
        for k, v in want.items():
            g = got[k]
            tol = 2e-4 if k[0] != "sens" else 5e-3
            exact = isinstance(k, tuple) and k[0] == "variables" and k[1] not in ("x", "y", "z")
            require(abs(g-v) <= (1e-12 if exact else tol)*max(1.0, abs(v)), "each entry is the solve at its point", lambda: "%s: entry %s (%s): %s is %s, alone %s" % (where(), i, points[j], k, g, v))
    # constants once, swept variables per point
    consts, sweepv = sol["constants"], sol["sweepvariables"]
    for nm in ("a", "b", "p0", "p1"):
        vk = w.key[nm]
        home = (vk.veckey or vk)
        veckeys = {w.key[s].veckey or w.key[s] for s in swept}
        if home in veckeys:
            require(home in dict(sweepv) and home not in dict(consts), "swept variables are not constants", lambda: "%s: %s" % (where(), nm))
            arr = np.asarray(dict.__getitem__(sweepv, home))
            require(arr.shape == ((n,) if n > 1 else ())+(home.shape or ()), "swept values per point", lambda: "%s: %s has shape %s" % (where(), nm, arr.shape))
        else:
            require(home in dict(consts) and home not in dict(sweepv), "constants are not swept", lambda: "%s: %s" % (where(), nm))
            require(np.asarray(dict.__getitem__(consts, home)).shape == (home.shape or ()), "constants once", lambda: "%s: %s is %s" % (where(), nm, dict.__getitem__(consts, home)))
    # linked constants, per point unless they are the same at each
    for nm in ("e", "q0", "r", "t0"):
        home = w.key[nm].veckey or w.key[nm]
        require(home in dict(consts), "linked constants are constants", lambda: "%s: %s" % (where(), nm))
        arr = np.asarray(dict.__getitem__(consts, home), float)
        parts = [nm] if not home.shape else [nm[0] + "0", nm[0] + "1"]
        vals = np.array([[wants[i]["variables", s] for s in parts] for i in range(n)]).reshape((n,) + tuple(home.shape or ()))
        if not order:
            continue
        if n == 1 or np.allclose(vals, vals[0], rtol=1e-12):
            ok = arr.shape in (tuple(home.shape or ()), vals.shape) and np.allclose(arr, vals[0] if arr.shape != vals.shape else vals, rtol=1e-12)
        else:
            ok = arr.shape == vals.shape and np.allclose(arr, vals, rtol=1e-12)
        require(ok, "linked constants have the values of each point", lambda: "%s: %s is %s, want %s" % (where(), nm, arr, vals))


def snapshot(w):
    out = {}
    for k, v in dict.items(w.m.substitutions):
        v = np.asarray(v, dtype=object) if not hasattr(v, "magnitude") else v
        out[k] = repr(v.tolist() if hasattr(v, "tolist") else v)
    return out


def run(ctx):
    combos = [c for k in (1, 2, 3) for c in itertools.combinations(SWEEPS, k) if compatible(c) and (k < 3 or c == ("a", "b", "p0") or (not ctx.quick and len(set(c) & {"p (ragged)", "a in quantities"}) < 2))]
    ctx.bound(sweeps="%s combinations of up to 3 of %s swept quantities" % (len(combos), len(SWEEPS)), models="plain, limited (some points infeasible), constant (some points infeasible at compilation), signomial", injected="every subset of the points of one-variable sweeps")

    def body(ch):
        kind = ch.pick(("plain", "limited", "constant", "signomial"))
        combo = ch.pick([c for c in combos if kind != "signomial" or len(c) < 2])
        how = ch.pick(("substitutions", "declared", "Model.sweep", "twice", "at creation", "nested")) if len(combo) == 1 else "substitutions"
        skip = ch.flag() if kind in ("limited", "constant") else True
        spec = {}
        if how == "declared":
            if combo[0] not in ("a", "b"):
                raise Skip
            spec = {combo[0]: SWEEPS[combo[0]]}
        w = World(kind, spec)
        base = {k: v for k, v in CONST.items() if k not in spec}
        w.set(base)
        grids, extra, target = {}, {}, {}
        for s in combo:
            g, e = apply(w, s, target)
            grids.update(g)
            extra.update(e)
        where = lambda: "%s model, sweep of %s by %s" % (kind, combo, how)
        names = sorted(grids, key=lambda nm: w.key[nm].eqstr)
        points = []
        for pt in itertools.product(*(grids[nm] for nm in reversed(names))):
            p = dict(CONST)
            p.update(extra)
            p.update(zip(reversed(names), pt))
            points.append(p)
        results = [alone(kind, p) for p in points]
        good = [p for p, r in zip(points, results) if not isinstance(r, str)]
        bad = len(good) < len(points)
        solve = w.m.localsolve if kind == "signomial" else w.m.solve
        loud = ch.pick((0, 1, 3)) if kind in ("limited", "constant") and len(combo) == 1 else 0
        kw = dict(verbosity=loud, skipsweepfailures=skip)
        before = snapshot(w)
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            try:
                if how == "Model.sweep":
                    before = snapshot(w)
                    (key, val), = target.items()
                    if combo[0] == "p=[5, sweep]" or not (isinstance(val, tuple) and val[0] == "sweep"):
                        raise Skip
                    sol = w.m.sweep({key: val[1]}, **kw)
                else:
                    if how == "at creation":
                        w.m = Model(w.m.cost, [w.m], target)
                    else:
                        for k, v in target.items():
                            w.m.substitutions[k] = v
                    if how == "nested":
                        w.m = Model(w.m.cost, [w.m])
                    solve = w.m.localsolve if kind == "signomial" else w.m.solve
                    before = snapshot(w)
                    if how == "twice":
                        try:
                            solve(**kw)
                        except RuntimeWarning:
                            pass
                    sol = solve(**kw)
            except RuntimeWarning as e:
                require(bad and (not skip or not good), "a sweep stops only at a failing point", lambda: "%s: %s with %s of %s points solvable" % (where(), e, len(good), len(points)))
                require(snapshot(w) == before, "substitutions are as they were after a failed sweep", lambda: "%s: %s, were %s" % (where(), snapshot(w), before))
                outcome("stopped")
                return
        require(not bad or skip, "a failing point stops the sweep", lambda: "%s: %s of %s points have no solution" % (where(), len(points)-len(good), len(points)))
        require(snapshot(w) == before, "substitutions are as they were after a sweep", lambda: "%s: %s, were %s" % (where(), snapshot(w), before))
        check(w, sol, kind, good, list(grids), where, order=len(names) < 3)
        require(w.m.solution is sol or how == "Model.sweep", "model.solution is the solution", where)
        if kind == "plain" and len(combo) == 1 and len(good) > 1:
            progs = w.m.program   # the programs of a sweep are those of its points
            require(len(progs) == len(points), "one program per point", where)
            again = progs[0].solve(verbosity=0)
            for nm in grids:
                g = float(np.asarray(again["variables"][w.key[nm]]))
                require(abs(g-points[0][nm]) < 1e-9*abs(g), "the first point's program is still the first point's", lambda: "%s: its %s is now %s" % (where(), nm, g))
        outcome("%d-variable sweep, %s of %s points" % (len(grids), "all" if not bad else "some", "signomial" if kind == "signomial" else "GP"))
    ctx.explore("sweeps", body)

    def faults(ch):
        "the solver fails at a chosen subset of the points"
        kind = ch.pick(("plain", "signomial"))
        s = ch.pick(("a", "p0", "b range", "p=[5, sweep]"))
        how = ch.pick(("substitutions", "Model.sweep", "orig zero", "orig absent")) if s in ("a", "p0") else "substitutions"
        w = World(kind)
        w.set(CONST)
        target = {}
        grids, extra = apply(w, s, target)
        (nm, values), = grids.items()
        if how == "orig zero":
            w.m.substitutions[w.key[nm]] = 0.0
        elif how == "orig absent":
            del w.m.substitutions[w.key[nm]]
        fails = [ch.flag() for _ in values]
        exc = ch.pick((PrimalInfeasible, UnknownInfeasible, ZeroDivisionError)) if any(fails) else None
        skip = ch.flag()
        state = {"i": -1, "last": None}
        key = w.key[nm]

        def solver(**kws):
            # the constants enter the coefficients: the program changes when the point does
            prog = id(kws["c"])
            if state["last"] is not kws["c"]:
                state["i"] += 1
                state["last"] = kws["c"]
            if fails[state["i"]]:
                raise exc("injected") if exc is ZeroDivisionError else exc("injected %s" % prog)
            return optimize(**kws)
        points = []
        for v, f in zip(values, fails):
            p = dict(CONST)
            p.update(extra)
            p[nm] = v
            if not f:
                points.append(p)
        where = lambda: "%s model, sweep of %s by %s, failing %s with %s" % (kind, s, how, fails, exc)
        before = snapshot(w)
        kw = dict(verbosity=ch.pick((0, 2)) if s == "a" and any(fails) else 0, skipsweepfailures=skip, solver=solver)
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            try:
                if how != "substitutions":
                    (_, val), = target.items()
                    sol = w.m.sweep({key: val[1]}, **kw)
                else:
                    for k, v in target.items():
                        w.m.substitutions[k] = v
                    before = snapshot(w)
                    sol = (w.m.localsolve if kind == "signomial" else w.m.solve)(**kw)
            except RuntimeWarning as e:
                require(any(fails) and (not skip or all(fails)), "a sweep stops only at a failing point", lambda: "%s: %s" % (where(), e))
                require(snapshot(w) == before, "substitutions are as they were after a failed sweep", lambda: "%s: %s, were %s" % (where(), snapshot(w), before))
                outcome("stopped")
                return
            except ZeroDivisionError:
                require(any(fails) and exc is ZeroDivisionError, "errors of the solver are passed on", where)
                require(snapshot(w) == before, "substitutions are as they were after a failed sweep", lambda: "%s: %s, were %s" % (where(), snapshot(w), before))
                outcome("error passed on")
                return
            except InvalidGPConstraint:
                fail("signomial sweeps fall back to localsolve", where())
        require(not any(fails) or skip, "a failing point stops the sweep", where)
        require(snapshot(w) == before, "substitutions are as they were after a sweep", lambda: "%s: %s, were %s" % (where(), snapshot(w), before))
        check(w, sol, kind, points, [nm], where)
        outcome("%d of %d points" % (len(points), len(values)))
    ctx.explore("failing points", faults)

    def shaped(ch):
        "sweeps of vectors and matrices by arrays of every small shape: all of their elements' combinations, or refused"
        shape = ch.pick(((2,), (1,), (3,), (1, 2), (2, 1), (2, 2)))
        dims = ch.pick((1, 2, 3) if len(shape) == 1 else (2, 3))
        given = tuple(ch.pick((1, 2, 3)) for _ in range(dims))
        form = ch.pick(("list", "array", "quantities"))
        n = given[0]**int(np.prod(shape))
        fits = given[1:] == shape
        if n > 16 or given == shape or form == "quantities" and ctx.quick and len(shape) > 1:
            raise Skip
        vals = 1.0 + np.arange(int(np.prod(given))).reshape(given)/4
        p, x = VectorVariable(shape, "p", "m"), VectorVariable(shape, "x", "m")
        m = Model(x.prod(), [x >= 2*p])
        v = {"list": vals.tolist(), "array": vals, "quantities": Quantity(100*vals, "cm")}[form]
        where = lambda: "%s sweep of shape %s for a variable of shape %s" % (form, given, shape)
        m.substitutions[p] = ("sweep", v)
        before = repr(sorted(m.substitutions.items(), key=str))
        try:
            sol = m.solve(verbosity=0)
        except Exception as e:  # pylint: disable=broad-except
            require(not fits, "a sweep of one value per element and point is accepted", lambda: "%s: %r" % (where(), e))
            require(repr(sorted(m.substitutions.items(), key=str)) == before, "substitutions are as they were after a failed sweep", where)
            outcome("refused")
            return
        require(fits, "a sweep of another shape is refused", lambda: "%s: %s" % (where(), sol(p)))
        require(repr(sorted(m.substitutions.items(), key=str)) == before, "substitutions are as they were after a sweep", where)
        got, gotx = [np.asarray(sol(q).to("m").magnitude, float).reshape((n,) + shape) for q in (p, x)]
        want = set(itertools.product(*(tuple(vals.reshape(given[0], -1)[:, i]) for i in range(int(np.prod(shape))))))
        require({tuple(np.round(g.ravel(), 9)) for g in got} == want and len(want) == n, "one entry per successful point", lambda: "%s: %s" % (where(), got))
        require(np.abs(gotx/(2*got) - 1).max() < 1e-4, "each entry is the solve at its point", lambda: "%s: %s and %s" % (where(), got, gotx))
        outcome("%d points" % n)
    ctx.explore("shapes of sweeps", shaped)
