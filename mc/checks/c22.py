"""Reading a solution: every sequence of reads leaves it as it was, and every view of it agrees with what it holds."""
import copy
import itertools
import math
import pickle
import re
import numpy as np
from gpkit import Variable, VectorVariable, Model, SignomialsEnabled, Vectorize, NamedVariables, units
from gpkit.constraints.tight import Tight
from gpkit.constraints.loose import Loose
from gpkit.constraints.bounded import Bounded
from gpkit.units import Quantity
from gpkit.solvers.cvxopt import optimize
from ..core import require, Skip, guarded, pmap, outcome as outcome_
from ..canon import canon

TECHNIQUE = "explicit-state search over histories of reads of real solutions (state = everything the solution holds), each read compared with the same read of a fresh solution, plus exhaustive comparison of every view of every variable with the stored values"
NOTE = "All histories of reads on every kind of solution, merged when they leave the same state, until no new state appears; every variable x way of naming it x accessor; every expression of the alphabet; tables parsed and compared to printed precision."


class Part(Model):
    def setup(self, k0):
        x = self.x = Variable("x", "m", "size of the part")
        k = self.k = Variable("k", k0, "cm")
        v = self.v = VectorVariable(2, "v")
        return [x >= k, v >= 2*x/k, v[1] >= 3]


class Whole(Model):
    def setup(self):
        self.a, self.b = Part(100.0), Part(300.0)
        self.x = x = Variable("x", "m")
        self.cost = x*self.a.v.prod()*self.b.v[0]*self.b.v[1]/units.m
        return [[self.a, self.b], x >= self.a.x + self.b.x]


_MEMO = {}


def solver(**kw):
    "the default solver, remembering programs it has already solved"
    A = kw["A"]
    key = repr((np.asarray(kw["c"]).tolist(), list(kw["k"]), sorted((n, sorted(v) if isinstance(v, (set, list)) else v) for n, v in vars(kw["meq_idxs"]).items()), sorted((n, str(v)) for n, v in kw.items() if n not in ("c", "A", "k", "meq_idxs")),
                np.asarray(A.row).tolist(), np.asarray(A.col).tolist(), np.asarray(A.data).tolist()))
    if key not in _MEMO:
        if len(_MEMO) > 20000:
            _MEMO.clear()
        _MEMO[key] = optimize(**kw)
    return copy.deepcopy(_MEMO[key])


class World:
    "one model, and its solution"
    # pylint: disable=too-many-locals
    def __init__(self, kind):
        NamedVariables.reset_modelnumbers()
        self.kind = kind
        x, y = self.x, self.y = Variable("x", "m"), Variable("y")
        v, w = self.v, self.w = VectorVariable(3, "v", "cm"), VectorVariable((2, 2), "w")
        swept = kind.startswith("sweep")
        k = self.k = Variable("k", ("sweep", [2.0, 7.0] if kind == "sweep2" else [2.0, 3.0, 7.0]) if swept else 2.0, "m")
        a = self.a = VectorVariable(3, "a", [1e-5, 2.0, 3.0], "m")
        u = self.u = Variable("u", 1e-6)
        c = self.c = [Variable("c_%i" % i, 1.0 + i) for i in range(6 if kind != "few" else 1)]
        t = self.t = VectorVariable(3, "t", [1e-5, 0.3, 0.2], "m")
        cons = [x >= k + t.sum(), v >= a, w[0] >= 2*u**0.5 + c[0], w[1, 0] >= 3, w[1, 1] >= c[-1], y*c[0]**0.5 >= x/units.m + u]
        cost = x*v.prod()*w.prod()*y*sum(e**0.1*0.1 for e in c)/units.m**4
        vary = {"x": x, "y": y, "v": v, "w": w, "k": k, "a": a, "t": t, "u": u, "c0": c[0], "c_l": c[-1]}
        if kind == "models":
            m = Whole()
            vary = {"x": m.x, "a.x": m.a.x, "b.x": m.b.x, "a.k": m.a.k, "b.v": m.b.v, "a.v": m.a.v}
        elif kind == "vectorized":
            with Vectorize(3):
                p = Part([100., 200., 300.])
            m = Model((p.x*p.v[0]*p.v[1]).prod(), [p])
            vary = {"x": p.x, "k": p.k, "v": p.v}
        elif kind == "signomial":
            with SignomialsEnabled():
                cons.append(y + x/units.m <= 10 + y**2)
            m = Model(cost, cons)
        elif kind in ("warned", "sweep warned"):
            m = Model(cost, [cons, Tight([x >= 2.5*units.m, y >= 2.2]), Loose([x >= 0.9*k])])
        elif kind == "bounded":
            m = Model(cost, Bounded([cons, y >= 1e-6*Variable("free")]))
        elif kind == "linked":
            d = Variable("d", lambda q: q[k]**2, "m^2")
            e = VectorVariable(2, "e", lambda q: [q[c[0]], q[c[0]]*3])
            f = Variable("f", evalfn=lambda q: 2*q[y])
            m = Model(cost, [cons, y*e[1] >= d/units.m**2, w[0, 0] >= e[0], f <= 1e9, f >= 1e-9])
            vary.update(d=d, e=e, f=f)
        else:
            if kind == "sweep linked":
                d = Variable("d", lambda q: q[k]**2, "m^2")
                cons.append(y >= d/units.m**2/5)
                vary["d"] = d
            m = Model(cost, cons)
            if kind == "sweep2":
                m.substitutions[u] = ("sweep", [1.0, 4.0])
            elif kind == "sweep element":
                m.substitutions.update({k: 3.0, a[1]: ("sweep", [2.0, 20.0])})
        self.m, self.vary = m, vary
        self.sol = m.localsolve(solver=solver, verbosity=0) if kind == "signomial" else m.solve(solver=solver, verbosity=0)
        self.npoints = {"sweep2": 4, "sweep element": 2}.get(kind, 3) if swept else 1

    def other(self):
        "a second solution, for comparisons"
        if not hasattr(self, "_other"):
            w = World(self.kind)
            for vk in list(w.m.substitutions):
                if vk.name in ("a", "t", "c_0") + (("k",) if w.kind in ("models", "vectorized") else ()) and getattr(w.m.substitutions[vk], "dtype", None) != object:
                    w.m.substitutions[vk] = np.array(w.m.substitutions[vk])*(1.5 + np.arange(3) if vk.shape else 4.0)
            self._other = w.m.localsolve(solver=solver, verbosity=0) if w.kind == "signomial" else w.m.solve(solver=solver, verbosity=0)
        return self._other


KINDS = ["few", "many", "models", "vectorized", "signomial", "warned", "bounded", "linked", "sweep", "sweep2", "sweep element", "sweep linked", "sweep warned"]


def norm(o):
    "comparable rendering of what a read returned"
    if hasattr(o, "eqstr"):
        return o.eqstr
    if isinstance(o, Quantity):
        return ("Q", "%s" % o.units, norm(o.magnitude))
    if isinstance(o, np.ndarray):
        return ("A", o.shape, tuple(norm(e) for e in o.flatten().tolist())) + (() if not hasattr(o, "units") else (str(o.units),))
    if hasattr(o, "hmap"):
        return ("N", str(o.units), tuple(sorted((norm(k), float(c)) for k, c in o.hmap.items())))
    if isinstance(o, (list, tuple)):
        return tuple(norm(e) for e in o)
    if isinstance(o, dict):
        return ("D",) + tuple(sorted((norm(k), norm(v)) for k, v in o.items()))
    if isinstance(o, (set, frozenset)):
        return ("S",) + tuple(sorted(map(norm, o)))
    if hasattr(o, "eqstr"):
        return o.eqstr
    if isinstance(o, float) and math.isnan(o):
        return "nan"
    if isinstance(o, (np.floating, np.integer)):
        return float(o)
    if isinstance(o, (str, int, float, bool, type(None))):
        return o
    return str(o)


def lines(text):
    "for tables: their lines, as order between equals may depend on object ids"
    return tuple(sorted(text.split("\n")))


SOL = lambda f: (lambda w: f(w, w.sol))


def reads(kind):
    "name -> read"
    swept = kind.startswith("sweep")
    first = "a.x" if kind == "models" else "x"
    vec = "v" if kind == "vectorized" else "b.v" if kind == "models" else "a"
    r = {
        "sol(x)": lambda w: w.sol(w.vary[first]),
        "sol(vector)": lambda w: w.sol(w.vary[vec]),
        "sol(element)": lambda w: w.sol(w.vary[vec].flat[1]),
        "sol(name)": lambda w: w.sol(w.vary[vec].flat[0].key.veckey.name),
        "variables[...]": lambda w: [w.sol["variables"][z] for z in w.vary.values()],
        "variables(...)": lambda w: [w.sol["variables"](z) for z in w.vary.values()],
        "freevariables": lambda w: {k: w.sol["freevariables"][k] for k in w.sol["freevariables"]},
        "constants": lambda w: {k: w.sol["constants"](k) for k in w.sol["constants"]},
        "all by key": lambda w: {k: w.sol["variables"][k] for k in w.sol["variables"]},
        "raw": lambda w: raw(w.sol),
        "by attribute": lambda w: [w.sol["variables"][z.key] for z in w.vary.values()],
        "sensitivities": lambda w: {k: w.sol["sensitivities"]["variables"][k] for k in w.sol["sensitivities"]["variables"]},
        "sensitivity of element": lambda w: w.sol["sensitivities"]["variables"][w.vary[vec].flat[0]],
        "sensitivity by name": lambda w: w.sol["sensitivities"]["variables"][w.vary[vec].flat[0].key.veckey.name],
        "contains": lambda w: ["nothing" in w.sol["variables"], w.vary[first] in w.sol["variables"], Variable("q") in w.sol["variables"], w.vary[vec].flat[1] in w.sol["variables"]],
        "missing": lambda w: [outcome(lambda: w.sol("nothing"))[1], outcome(lambda: w.sol["variables"]["nothing"])[1], outcome(lambda: w.sol["variables"].get("nothing", 3))],
        "expression": lambda w: w.sol(w.vary[first]**2*w.vary[vec].flat[1] + 3*w.vary[first]**2*w.vary[vec].flat[1]),
        "vector expression": lambda w: w.sol(w.vary[vec]*w.vary[first]),
        "slice": lambda w: w.sol(w.vary[vec][:1]),
        "subinto cost": lambda w: w.sol.subinto(w.m.cost),
        "table": lambda w: lines(w.sol.table()),
        "table of all": lambda w: lines(w.sol.table(tables=["cost", "sweepvariables", "freevariables", "constants", "sensitivities", "top sensitivities", "insensitivities", "model sensitivities", "tightest constraints", "loose constraints", "warnings"])),
        "table latex": lambda w: [lines(w.sol.table(latex=n)) for n in (1, 2, 3)],
        "table of one": lambda w: lines(w.sol.table(showvars=[w.vary[first], w.vary[vec].flat[1]])),
        "table unsorted": lambda w: lines(w.sol.table(sortmodelsbysenss=False, showmodels=False, sortbymodel=False)),
        "summary": lambda w: lines(w.sol.summary()),
        "summary of one": lambda w: lines(w.sol.summary(showvars=[w.vary[vec], first.split(".")[-1]], ntopsenss=4)),
        "top": lambda w: lines(w.sol.table(tables=["top sensitivities"], nvars=9)),
        "varnames": lambda w: sorted(w.sol.varnames(None, ("unnecessary lineage", "vec")).items(), key=str),
        "varnames failing": lambda w: outcome(lambda: w.sol.varnames(None, 3))[0] == "raised" and None,
        "collisions": lambda w: w.sol.name_collision_varkeys(),
        "almost_equal": lambda w: [w.sol.almost_equal(w.sol), w.sol.almost_equal(w.other()), w.other().almost_equal(w.sol)],
        "diff self": lambda w: lines(w.sol.diff(w.sol, senssdiff=True, absdiff=True)),
        "diff other": lambda w: lines(w.sol.diff(w.other(), senssdiff=True, absdiff=True, sensstol=0.001)),
        "diff reversed": lambda w: lines(w.other().diff(w.sol, senssdiff=True, reltol=0, showvars=[w.vary[vec]])),
        "len": lambda w: len(w.sol),
        "warnings": lambda w: lines(w.sol.table(tables=["warnings"])),
        "pickle": lambda w: [(k, v) for k, v in sorted(raw(pickle.loads(pickle.dumps(w.sol))).items(), key=str) if "/constraints/" not in k],
        "failing table": lambda w: outcome(lambda: w.sol.table(latex=7))[1],
        "solve again": solve_again,
    }
    if swept:
        r.update({
            "points": lambda w: [raw(w.sol.atindex(i)) for i in range(w.npoints)],
            "point table": lambda w: lines(w.sol.atindex(1).table()),
            "point summary": lambda w: lines(w.sol.atindex(0).summary()),
            "point variables": lambda w: [w.sol.atindex(w.npoints-1)(z) for z in w.vary.values()],
            "last point": lambda w: raw(w.sol.atindex(-1)),
            "point expression": lambda w: w.sol.atindex(0)(w.vary[first]*w.vary[vec].flat[1]),
            "sweepvariables": lambda w: {k: w.sol["sweepvariables"](k) for k in w.sol["sweepvariables"]},
        })
    return r


def solve_again(w):
    "solving the same model with other constants must not show in this solution"
    m, subs = w.m, {}
    for vk in list(m.substitutions):
        if vk.name in ("k", "c_0") and not hasattr(m.substitutions[vk], "__len__"):
            subs[vk] = m.substitutions[vk]
            m.substitutions[vk] = subs[vk]*1.25
    if w.kind == "signomial":
        m.localsolve(solver=solver, verbosity=0)
    else:
        m.solve(solver=solver, verbosity=0)
    for vk, v in subs.items():
        m.substitutions[vk] = v


def raw(sol, path=""):
    "everything held, without going through accessors"
    out = {}
    for key in dict.keys(sol):
        val = dict.__getitem__(sol, key)
        name = path + "/" + (key.eqstr if hasattr(key, "eqstr") else str(key))
        if name in ("/soltime", "/warnings"):
            if name == "/warnings":
                out[name] = repr(norm(val))
            continue
        if isinstance(val, dict):
            out.update(raw(val, name))
        elif not callable(val):
            out[name] = norm(val)
    return out


def state(w):
    s = w.sol
    descr = sorted((vk.eqstr, sorted(vk.descr)) for vk in s["variables"].keys())
    return canon(*[dict.__getitem__(s, t) for t in ("variables", "freevariables", "constants")],
                 dict.__getitem__(s["sensitivities"], "variables")) + repr(descr) + repr(sorted(raw(s).items(), key=str)) + repr(s._name_collision_varkeys is None)


_BASE = {}



def baseline(kind, name):
    if (kind, name) not in _BASE:
        w = World(kind)
        _BASE[kind, name] = norm(reads(kind)[name](w)), repr(sorted(raw(World(kind).sol).items(), key=str))
    return _BASE[kind, name]


def histories(kind):
    rs = reads(kind)

    def step(hist):
        w = World(kind)
        for i, name in enumerate(hist):
            got = rs[name](w)
            if i < len(hist) - 1:
                continue
            want, held = baseline(kind, name)
            require(norm(got) == want, "a read depends on earlier reads",
                    "%s solution: %s after %s gives %s instead of %s" % (kind, name, hist[:-1], diff_at(norm(got), want), "what it gives on a fresh solution"))
            now = repr(sorted(raw(w.sol).items(), key=str))
            require(now == held, "a read changed the solution", "%s solution: %s (after %s) changed %s" % (kind, name, hist[:-1], diff_at(now, held)))
            descr = {vk.eqstr: [d for d in vk.descr if d == "necessarylineage"] for vk in w.sol["variables"]}
            require(not any(descr.values()), "a read marked the variables", "%s after %s" % (name, hist[:-1]))
        return state(w)
    return step, list(rs)


def diff_at(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for p, q in zip(a, b):
            if p != q:
                return diff_at(p, q)
    a, b = str(a), str(b)
    i = next((i for i, (p, q) in enumerate(zip(a, b)) if p != q), min(len(a), len(b)))
    return "%r vs %r" % (a[max(0, i-60):i+60], b[max(0, i-60):i+60])


# ------------------------------------------------------------------ views

def num(q, like):
    "plain magnitudes of a quantity, in a variable's units"
    u = like.units if hasattr(like, "units") else None
    if hasattr(q, "hmap"):
        require(len(q.hmap) == 1 and not any(q.hmap), "an evaluated expression still has variables", str(q))
        q = Quantity(*q.hmap.values(), q.units) if q.units else list(q.hmap.values())[0]
    if isinstance(q, np.ndarray) and q.dtype == object:
        return np.array([num(e, like) for e in q.flatten()]).reshape(q.shape)
    if u and hasattr(q, "to"):
        q = q.to(u).magnitude
    elif hasattr(q, "to"):
        q = q.to("dimensionless").magnitude
    return np.array(q, float)


def same(a, b, tol=0.0):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(((a == b) | (np.abs(a - b) <= tol*np.abs(b)) | (np.isnan(a) & np.isnan(b))).all())


def outcome(fn):
    try:
        return "returned", fn()
    except Exception as e:  # pylint: disable=broad-except
        return "raised", type(e).__name__


NAMES = {None: ["x", "y", "v", "w", "k", "a", "t", "u", "c0", "c_l"], "models": ["x", "a.x", "b.x", "a.k", "b.v", "a.v"], "vectorized": ["x", "k", "v"]}
NAMES["linked"] = NAMES[None] + ["d", "e", "f"]
NAMES["sweep linked"] = NAMES[None] + ["d"]


def views(kind, ctx):
    held_world = []

    def world():
        if not held_world:
            held_world.append(World(kind))
        return held_world[0]

    def check_variable(name):
        w = world()
        sol, n = w.sol, w.npoints
        swept = n > 1
        lead = (n,) if swept else ()
        require(len(sol) == n, "length", "%s: %i" % (kind, len(sol)))
        var = w.vary[name]
        vk = var.key
        held = np.array(dict.__getitem__(sol["variables"], vk), float)
        shape = tuple(vk.shape or ())
        require(held.shape == lead + shape, "stored shape", "%s %s: %s" % (kind, name, held.shape))
        names = [var, vk]
        if sum(k.name == vk.name for k in sol["variables"]) == 1:
            names.append(vk.name)
        for nm in names:
            for how, got in (("sol()", lambda: sol(nm)), ("subinto", lambda: sol.subinto(nm)), ("variables()", lambda: sol["variables"](nm)), ("variables[]", lambda: sol["variables"][nm])):
                g = got()
                if how != "variables[]":
                    require(hasattr(g, "units"), "units", "%s of %s %r has no units" % (how, kind, nm))
                    g = num(g, vk)
                require(same(g, held, 1e-12), "two views differ", "%s solution, %s of %r: %s, held %s" % (kind, how, nm, g, held))
        # which part of the solution it is in, and there with the same values
        parts = [p for p in ("freevariables", "constants", "sweepvariables") if p in sol and any(k == vk for k in sol[p])]
        require(len(parts) == 1, "a variable is in one part of the solution", "%s: %s is in %s" % (kind, name, parts))
        part = np.array(dict.__getitem__(sol[parts[0]], vk), float)
        if part.shape != held.shape:
            part = np.broadcast_to(part, held.shape)
        require(same(part, held, 1e-12), "two views differ", "%s: %s in %s is %s, in variables %s" % (kind, name, parts[0], part, held))
        # elements
        for idx in np.ndindex(*shape) if shape else ():
            el = held[(slice(None),)*len(lead) + idx]
            require(same(num(sol(var[idx]), vk), el, 1e-12) and same(sol["variables"][var[idx]], el, 1e-12) and same(np.array(dict.__getitem__(sol["variables"], vk), float)[(slice(None),)*len(lead) + idx], el), "an element differs from its vector", "%s: %s%s" % (kind, name, idx))
        if len(shape) == 2:
            row = sol(var[1])
            require(same(num(row, vk), held[(slice(None),)*len(lead) + (1,)], 1e-12), "a slice differs from its vector", "%s: %s[1]: %s" % (kind, name, row))
        elif shape:
            require(same(num(sol(var[1:]), vk), held[(slice(None),)*len(lead) + (slice(1, None),)], 1e-12), "a slice differs from its vector", "%s: %s[1:]" % (kind, name))
        # points
        for i in range(n) if swept else ():
            p = sol.atindex(i)
            for got in (num(p(var), vk), p["variables"][var], dict.__getitem__(p["variables"], vk), dict.__getitem__(p[parts[0]], vk), p[parts[0]][var]):
                require(same(got, held[i], 1e-12), "a point of a sweep differs from the sweep", "%s: %s at point %i is %s in %s, held %s" % (kind, name, i, got, parts[0], held[i]))
            for idx in np.ndindex(*shape) if shape else ():
                require(same(p["variables"][var[idx]], held[i][idx], 1e-12) and same(p[parts[0]][var[idx]], held[i][idx], 1e-12), "a point of a sweep differs from the sweep", "%s: %s%s at point %i" % (kind, name, idx, i))
        # sensitivities
        ss = sol["sensitivities"]["variables"]
        if vk in ss:
            sens = np.array(dict.__getitem__(ss, vk), float)
            require(same(ss[var], sens) and same(ss[vk], sens), "two views of a sensitivity differ", "%s: %s" % (kind, name))
            for idx in np.ndindex(*shape) if shape else ():
                require(same(ss[var[idx]], sens[(slice(None),)*len(lead) + idx]), "two views of a sensitivity differ", "%s: %s%s" % (kind, name, idx))

    ctx.cases("views of " + kind, NAMES.get(kind, NAMES[None]), check_variable)
    # expressions, against plain arithmetic on the held values
    names = NAMES.get(kind, NAMES[None])
    exprs = [(op, p, q) for p, q in itertools.product(names, repeat=2) for op in ("*", "/", "2p^1.5 q^-2", "p^2/q + p + p", "p + 3p + p*q/q")]
    exprs += [("unknown", p, p) for p in names] + [("cost", None, None), ("constraint", None, None), ("unknown alone", None, None)]

    def check_expression(e):
        op, p, q = e
        w = world()
        sol, n = w.sol, w.npoints
        swept = n > 1
        if op == "cost":
            got = sol(w.m.cost)
            require(same(num(got, w.m.cost), num(sol["cost"], w.m.cost), 1e-4), "the cost evaluated differs from the cost", "%s: %s, %s" % (kind, got, sol["cost"]))
            return
        if op == "constraint":
            for c in w.m.flat():
                r, l = sol(c.right), sol(c.left)
                del r, l
            return
        if op == "unknown alone":
            z = Variable("q_unknown")
            got = outcome(lambda: sol(z))
            if got[0] != "raised":
                require(all(hasattr(e, "hmap") and all(z.key in h for h in e.hmap) for e in np.array(got[1], dtype=object).flatten()), "a variable that is not in the solution was given a value", "%s: %s" % (kind, got[1]))
            return
        vp, vq = w.vary[p], w.vary[q]
        if op == "unknown":
            z = Variable("q_unknown")
            got = outcome(lambda: sol(z*vp))
            if got[0] != "raised":
                els = np.array(got[1], dtype=object).flatten()
                require(all(hasattr(e, "hmap") and all(z.key in h for h in e.hmap) for e in els), "a variable that is not in the solution was given a value", "%s: q*%s evaluates to %s" % (kind, p, got[1]))
            return
        sp, sq = tuple(vp.key.shape or ()), tuple(vq.key.shape or ())
        if sp and sq and sp != sq or op == "p^2/q + p + p" and (vp.key.units or vq.key.units):
            raise Skip
        if op == "*":
            expr, fn = vp*vq, lambda a, b: a*b
        elif op == "/":
            expr, fn = vp/vq, lambda a, b: a/b
        elif op == "2p^1.5 q^-2":
            expr, fn = 2*vp**1.5*vq**-2, lambda a, b: 2*a**1.5*b**-2.
        elif op == "p^2/q + p + p":
            expr, fn = vp**2/vq + vp + vp, lambda a, b: a**2/b + a + a
        else:
            expr, fn = vp + 3*vp + vp*vq/vq, lambda a, b: a + 3*a + a*b/b
        hp, hq = (np.array(dict.__getitem__(sol["variables"], z.key), float) for z in (vp, vq))
        up, uq = (Quantity(1.0, z.key.units or "dimensionless") for z in (vp, vq))
        for pt in range(n):
            a, b = (hp[pt], hq[pt]) if swept else (hp, hq)
            want = fn(a, b)
            unit = fn(up, uq)
            unit = Quantity(1.0, unit.units)
            scale = 1.0
            got = sol(expr)
            require(not swept or len(got) == n, "an expression has a value for each point", "%s: %s" % (kind, got))
            one = got[pt] if swept else got
            g = np.array([Quantity(float(getattr(e, "value", e).magnitude if hasattr(getattr(e, "value", e), "magnitude") else getattr(e, "value", e)),
                                   (getattr(getattr(e, "value", e), "units", None) or "dimensionless")).to(unit.units).magnitude for e in flat(one)])
            require(same(g, np.array(want, float).flatten()*scale, 1e-9), "an expression's value is not that of its variables", "%s: %s of %s and %s at point %i: %s, want %s %s" % (kind, op, p, q, pt, one, want, unit.units))
            if swept:
                alone = sol.atindex(pt)(expr)
                require(norm(alone) == norm(one) or same(num(alone, expr), num(one, expr), 1e-12), "a point of a sweep differs from the sweep", "%s %s: %s %s" % (kind, e, alone, one))

    ctx.cases("expressions at " + kind, exprs, check_expression)
    ctx.cases("tables of " + kind, ["freevariables", "constants", "sweepvariables", "sensitivities", "tightest constraints", "cost", "diff", "diff of a sweep and its points", "diff of sensitivities", "diff of models", "chosen models", "summary", "warnings", "almost_equal"], lambda t: check_table(kind, world(), t))


def flat(o):
    if isinstance(o, Quantity):
        return [Quantity(m, o.units) for m in np.asarray(o.magnitude).flatten().tolist()]
    if isinstance(o, np.ndarray):
        return list(o.flatten())
    return [o]


ROW = re.compile(r"^\s*(\S+) : (.*)$")
NUM = re.compile(r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?)%?|(?<=\s)-(?=\s)")


def rows(text):
    "variable name -> (list of numbers, unit string)"
    out, cur = [], None
    for line in text.split("\n"):
        m = ROW.match(line)
        if m:
            cur = [m.group(1), [], ""]
            out.append(cur)
            body = m.group(2)
        elif cur is not None and line.startswith("   ") and line.strip():
            body = line
        else:
            cur = None
            continue
        unit = re.search(r"\[([^\]\d]\S*)\]", body)
        if unit:
            cur[2] = unit.group(1)
            body = body[:unit.start()]
        elif cur[1] == [] and "[" not in body and not out[-1][1]:
            body = body.split("  ")[0] if "  " in body else body
        cur[1] += [float("nan") if t.strip() == "-" else float(t.rstrip("%")) for t in NUM.findall(" " + body + " ")]
    return out


def shown(val, held, rel):
    val, held = np.array(val, float), np.array(held, float).flatten()
    if val.shape != held.shape:
        return False
    ok = (np.abs(val - held) <= rel*np.abs(held) + 1e-12) | np.isnan(val)
    return bool(ok.all()) or same(np.sort(val), np.sort(held), rel)


def matches(shown_, d, hidden, tol):
    "whether a row of a comparison shows these differences, those within the tolerance hidden or not; in any order"
    if len(shown_) != d.size:
        return False
    got, want = np.array(shown_, float), d.flatten()
    near = np.where(np.abs(want) <= hidden, 0.0, want)
    close = lambda a, b: bool((np.isnan(a) | (np.abs(a - b) <= tol(b))).all())
    return close(got, want) or close(np.sort(np.nan_to_num(got)), np.sort(near))


def check_diff(kind, s, o, what):
    sv, ov = s["variables"], o["variables"]
    both = [vk for vk in sv if vk in ov]
    for relative, tol in ((True, 0.0), (True, 1.0), (True, 30.0), (False, 1e-3)):
        got = rows(s.diff(o, reltol=tol, absdiff=False) if relative else s.diff(o, reldiff=False, absdiff=True, abstol=tol))
        want = {}
        for vk in both:
            p, q = (np.array(dict.__getitem__(v, vk), float) for v in (sv, ov))
            want[vk] = 100*(p/q - 1) if relative else p - q
            mine = [r for r in got if r[0] == vk.str_without(("lineage", "vec"))]
            if np.abs(want[vk]).max() > tol*1.0001 + 1e-9:
                require([r for r in mine if matches(r[1], want[vk], tol, lambda b: 0.051 + 1e-6*np.abs(b) if relative else 0.06*np.abs(b))],  # pylint: disable=cell-var-from-loop
                        "the comparison does not show a difference", "%s, %s: %s changed by %s, shown %s" % (kind, what, vk, want[vk], mine))
        require(len(got) <= sum(np.abs(d).max() > tol*0.9999 - 1e-9 for d in want.values()), "the comparison shows a difference that is not there", "%s, %s: %s" % (kind, what, got))


def check_sensdiff(kind, s, o):
    ss, os_ = s["sensitivities"]["variables"], o["sensitivities"]["variables"]
    for tol in (0.01, 0.1):
        got, n = rows(s.diff(o, reldiff=False, senssdiff=True, sensstol=tol)), 0
        for vk in s["variables"]:
            if vk not in ss or vk not in os_ or vk not in o["variables"]:
                continue
            d = np.array(dict.__getitem__(ss, vk), float) - np.array(dict.__getitem__(os_, vk), float)
            n += np.abs(d).max() > tol*0.999
            mine = [r for r in got if r[0] == vk.str_without(("lineage", "vec"))]
            if np.abs(d).max() > tol*1.001:
                require([r for r in mine if matches(r[1], d, tol, lambda b: 0.00501)], "the comparison does not show a difference", "%s: the sensitivity to %s changed by %s, shown %s" % (kind, vk, d, mine))
        require(len(got) <= n, "the comparison shows a difference that is not there", "%s: %s" % (kind, got))


def check_table(kind, w, table):
    sol = w.sol
    swept = w.npoints > 1
    if table in ("freevariables", "constants", "sweepvariables"):
        if table not in sol:
            raise Skip
        got = rows(sol.table(tables=[table]))
        for vk in sol[table]:
            held = np.array(dict.__getitem__(sol[table], vk), float)
            if not np.abs(held).max() > 0:
                continue
            label = vk.str_without(("lineage", "vec"))
            ok = [r for r in got if r[0] == label and shown(r[1], held, 6e-3) and (not vk.units or r[2] == vk.unitstr())]
            require(ok, "a table does not show a stored value", "%s, %s: %s = %s not among %s" % (kind, table, vk, held, [r for r in got if r[0] == label]))
        require(len(got) == len(sol[table]), "a table shows a variable that is not stored", "%s %s %s" % (kind, table, got))
    elif table == "sensitivities":
        ss = sol["sensitivities"]["variables"]
        got = rows(sol.table(tables=["sensitivities"]))
        big = [vk for vk in ss if np.abs(dict.__getitem__(ss, vk)).max() > 1.0001e-3]
        for vk in big:
            held = np.array(dict.__getitem__(ss, vk), float)
            label = vk.str_without(("lineage", "vec"))
            require([r for r in got if r[0] == label and shown(r[1], held, 6e-2)], "the sensitivity table does not show a stored sensitivity", "%s: %s = %s, rows %s" % (kind, vk, held, [r for r in got if r[0] == label]))
        require(len(got) <= len([vk for vk in ss if np.abs(dict.__getitem__(ss, vk)).max() > 0.9999e-3]), "the sensitivity table shows more than is stored", "%s %s" % (kind, got))
        top = rows(sol.table(tables=["top sensitivities"], nvars=4))
        mean = sorted((np.abs(dict.__getitem__(ss, vk)).mean() for vk in ss), reverse=True)
        for r in top:
            vals = [vk for vk in ss if vk.str_without(("lineage", "vec")) == r[0] and shown(r[1], dict.__getitem__(ss, vk), 6e-2)]
            require(vals, "a top sensitivity is not a stored one", "%s: %s" % (kind, r))
            require(max(np.abs(dict.__getitem__(ss, vk)).mean() for vk in vals) >= mean[min(3, len(mean)-1)]*(1 - 1e-6), "a top sensitivity is not among the largest", "%s: %s, %s" % (kind, r, mean[:5]))
        want = min(4, sum(m > 1.001e-3 for m in mean))
        require(len(top) >= want, "top sensitivities are missing", "%s: %s of %i" % (kind, top, want))
    elif table == "tightest constraints":
        text = sol.table(tables=[table])
        cs = sol["sensitivities"]["constraints"]
        last = {id(c): float(np.array(v).flatten()[-1]) for c, v in cs.items()}
        best = sorted((v for v in last.values() if v >= 1.0001e-2), reverse=True)[:5]
        got = [float(g) for g in re.findall(r"^\s*([-+]\d\S*) : ", text, re.M)]
        require(len(got) == len(best) and all(abs(g - b) <= 6e-2*abs(b) for g, b in zip(sorted(got, reverse=True), best)), "the constraint table does not show the most sensitive constraints", "%s: %s, want %s" % (kind, got, best))
    elif table == "cost":
        cost = num(sol["cost"], w.m.cost)
        got = NUM.findall(sol.table(tables=["cost"]).split("------------")[1])
        require(all(abs(float(g) - c) <= 6e-3*c for g, c in zip(got, cost.flatten()[:4])) and len(got) >= min(4, cost.size), "the table shows another cost", "%s %s %s" % (kind, got, cost))
        primal = [num(sol.atindex(i)(w.m.cost), w.m.cost) for i in range(w.npoints)] if swept else [num(sol(w.m.cost), w.m.cost)]
        require(same(np.array(primal).flatten(), cost.flatten(), 1e-4), "cost", kind)
    elif table == "diff":
        other = w.other()
        for s, o in ((sol, other), (other, sol)):
            sv, ov = s["variables"], o["variables"]
            for tol in (0.0, 1.0, 30.0):
                text = s.diff(o, reltol=tol, absdiff=False, senssdiff=False)
                got = rows(text)
                for vk in sv:
                    d = 100*(np.array(dict.__getitem__(sv, vk), float)/np.array(dict.__getitem__(ov, vk), float) - 1)
                    label = vk.str_without(("lineage", "vec"))
                    mine = [r for r in got if r[0] == label]
                    if np.abs(d).max() > tol*1.0001 + 1e-9:
                        near = np.where(np.abs(d) <= tol, np.nan, d)
                        require([r for r in mine if len(r[1]) == d.size and all(np.isnan(x) or abs(x - y) <= 0.051 + 1e-6*abs(y) for x, y in zip(r[1], d.flatten()))
                                 or len(r[1]) == d.size and (np.abs(np.sort(np.nan_to_num(np.array(r[1]))) - np.sort(np.nan_to_num(near.flatten()))) <= 0.051 + 1e-6*np.abs(np.sort(np.nan_to_num(near.flatten())))).all()], "the comparison does not show a difference", "%s: %s changed by %s%%, shown %s" % (kind, vk, d, mine))
                require(len(got) <= sum(np.abs(100*(np.array(dict.__getitem__(sv, vk), float)/np.array(dict.__getitem__(ov, vk), float) - 1)).max() > tol*0.9999 - 1e-9 for vk in sv), "the comparison shows a difference that is not there", "%s: %s" % (kind, got))
            text = s.diff(o, reldiff=False, absdiff=True, abstol=1e-3)
            got = rows(text)
            for vk in sv:
                d = np.array(dict.__getitem__(sv, vk), float) - np.array(dict.__getitem__(ov, vk), float)
                mine = [r for r in got if r[0] == vk.str_without(("lineage", "vec"))]
                if np.abs(d).max() > 1.0001e-3:
                    require([r for r in mine if len(r[1]) == d.size], "the comparison does not show a difference", "%s: %s changed by %s, shown %s" % (kind, vk, d, mine))
                    shownd = [r for r in mine if all(np.isnan(x) or abs(x - y) <= 0.06*abs(y) for x, y in zip(r[1], d.flatten())) or same(np.sort(np.nan_to_num(np.array(r[1]))), np.sort(np.where(np.abs(d) <= 1e-3, 0, d).flatten()), 0.06)]
                    require(shownd, "the comparison shows another difference", "%s: %s changed by %s, shown %s" % (kind, vk, d, mine))
            huge = s.diff(o, reltol=1e12, absdiff=True, abstol=1e12, senssdiff=True, sensstol=1e12)
            said = re.findall(r"The largest is ([-+]\S+?)%?\.$", huge, re.M)
            ss, os_ = s["sensitivities"]["variables"], o["sensitivities"]["variables"]
            get = lambda d, vk: np.array(dict.__getitem__(d, vk), float)
            with np.errstate(all="ignore"):
                want = [np.concatenate([f(vk).flatten() for vk in keys]) for keys, f in
                        ((list(sv), lambda vk: 100*(get(sv, vk)/get(ov, vk) - 1)), (list(sv), lambda vk: get(sv, vk) - get(ov, vk)), ([vk for vk in sv if vk in ss and vk in os_], lambda vk: get(ss, vk) - get(os_, vk)))]  # pylint: disable=cell-var-from-loop
            if all(np.isfinite(v).all() for v in want):
                require(len(said) == 3, "the comparison does not give the largest difference", "%s: %s" % (kind, huge))
                for g, v in zip(said, want):
                    big = np.abs(v).max()
                    require(any(abs(float(g) - e) <= 1e-5*big for e in v if abs(e) >= big*(1 - 1e-6)) or not big and not float(g), "the comparison gives another difference as the largest", "%s: %s of %s" % (kind, g, v))
        require(not rows(sol.diff(sol, senssdiff=True, absdiff=True)), "a solution differs from itself", kind)
    elif table == "diff of a sweep and its points":
        if not swept:
            raise Skip
        for i in range(w.npoints):
            pt = sol.atindex(i)
            for s, o in ((sol, pt), (pt, sol)):
                check_diff(kind, s, o, "point %i" % i)
                require(not s.almost_equal(o), "a sweep is almost equal to one of its points", "%s point %i" % (kind, i))
        w2 = World(kind)  # the same sweep, all at one point: nothing differs
        for vk in list(w2.m.substitutions):
            val = w2.m.substitutions[vk]
            if isinstance(val, tuple) and val[0] == "sweep":
                w2.m.substitutions[vk] = ("sweep", [val[1][0]]*len(val[1]))
        if any(getattr(v, "dtype", None) == object for v in w2.m.substitutions.values()):
            return
        level, pt = w2.m.solve(solver=solver, verbosity=0), sol.atindex(0)
        for s, o in ((level, pt), (pt, level)):
            require(bool(s.almost_equal(o)), "the same values are not almost equal", "%s: a level sweep and its value" % kind)
            require(not rows(s.diff(o, reltol=0.1, absdiff=True, abstol=1e-3, senssdiff=True, sensstol=0.01)), "the comparison shows a difference that is not there", "%s: a level sweep and its value: %s" % (kind, s.diff(o, reltol=0.1)))
    elif table == "diff of sensitivities":
        for s, o in ((sol, w.other()), (w.other(), sol)) + (() if not swept else ((sol, sol.atindex(1)), (sol.atindex(1), sol))):
            check_sensdiff(kind, s, o)
    elif table == "diff of models":
        more = getattr(w, "_more", None)
        if more is None:
            w2 = World(kind)
            z, first = Variable("z_more"), w2.vary["a.x" if kind == "models" else "x"]
            first = first.flat[0] if hasattr(first, "flat") else first
            m2 = Model(w2.m.cost*z, [w2.m, z*first >= 3*units.m])
            more = w._more = m2.localsolve(solver=solver, verbosity=0) if kind == "signomial" else m2.solve(solver=solver, verbosity=0)  # pylint: disable=protected-access
        for s, o, here, there in ((more, sol, "this solution", "the argument"), (sol, more, "the argument", "this solution")):
            text = s.diff(o)
            blocks = text.split("\n\n")
            listed = [b for b in blocks if b.startswith("Variable(s) of ") and "which are not in %s:" % there in b]
            require(len(listed) == 1 and "of %s\n" % here in listed[0].replace(" which are not", "\n which are not") and [l.strip() for l in listed[0].split("\n")[1:]] == ["z_more"], "the comparison does not list the variable only one solution has", "%s: %s" % (kind, text[:600]))
            require(not [b for b in blocks if b.startswith("Variable(s) of ") and b not in listed], "the comparison lists a variable both solutions have", "%s: %s" % (kind, text[:600]))
            sign = "+" if s is more else "-"
            changed = [l for l in text.split("\n") if re.match(r"^[-+](?![-+])", l) and "z_more" in l]
            require(changed and all(l[0] == sign for l in changed) and any(">=" in l or "≥" in l for l in changed), "the comparison does not show the constraint only one model has", "%s: %s" % (kind, text[:600]))
            check_diff(kind, s, o, "models")
            require("z_more" not in [r[0] for r in rows(s.diff(o, reltol=0, absdiff=True, senssdiff=True))], "the comparison compares a variable only one solution has", kind)
            require(not s.almost_equal(o), "solutions of different variables are almost equal", kind)
            require("no constraint differences" not in text and "no constraint differences" in s.diff(s) and "constraint diff" not in s.diff(o, constraintsdiff=False).lower(), "the constraint comparison shown is not that of the models", kind)
            pick = [vk for vk in sol["variables"]][:2]
            some = s.diff(o, reltol=-1, showvars=pick)
            require({r[0] for r in rows(some)} == {vk.str_without(("lineage", "vec")) for vk in pick} and "Variable(s) of" not in some, "a comparison of chosen variables shows others", "%s: %s, %s" % (kind, pick, rows(some)))
    elif table == "chosen models":
        models = sorted({vk.lineagestr() for vk in sol["variables"]} - {""})
        if len(models) < 2:  # tables of a single model are not divided by model
            raise Skip
        for which in ("freevariables", "constants", "sensitivities"):
            source = sol["sensitivities"]["variables"] if which == "sensitivities" else sol[which]
            held = [vk for vk in source if which != "sensitivities" or np.abs(dict.__getitem__(source, vk)).max() > 1e-3]
            for n in range(len(models) + 1):
                for some in itertools.combinations(models, n):
                    for how in ("included_models", "excluded_models"):
                        got = sorted(r[0] for r in rows(sol.table(tables=[which], **{how: list(some)})))
                        want = sorted(vk.str_without(("lineage", "vec")) for vk in held if not some or vk.lineagestr() in ("",) + some and how == "included_models" or vk.lineagestr() not in some and how == "excluded_models")
                        require(got == want, "the table does not show the chosen models", "%s, %s=%s: %s, want %s" % (which, how, some, got, want))
    elif table == "summary":
        text = sol.summary()
        for vk in sol["freevariables"]:
            held = np.array(dict.__getitem__(sol["freevariables"], vk), float)
            require([r for r in rows(text) if r[0] == vk.str_without(("lineage", "vec")) and shown(r[1], held, 6e-3)], "the summary does not show a stored value", "%s %s" % (kind, vk))
    elif table == "warnings":
        text = sol.table(tables=["warnings"])
        if "warned" not in kind:
            raise Skip
        # which constraints are slack at each point, by the values held
        k = np.array(dict.__getitem__(sol["variables"], w.vary["k"].key), float).flatten()
        x = np.array(dict.__getitem__(sol["variables"], w.vary["x"].key), float).flatten()
        y = np.array(dict.__getitem__(sol["variables"], w.vary["y"].key), float).flatten()
        blocks = re.split(r"\n(?=Unexpectedly)", text)
        for i in range(w.npoints):
            want = sorted([("x", x[i])] * (abs(x[i]/2.5 - 1) >= 1e-3) + [("y", y[i])] * (abs(y[i]/2.2 - 1) >= 1e-3))
            head = "Unexpectedly Loose Constraints" + (" in sweep %i" % i if swept else "")
            mine = [b for b in blocks if b.split("\n")[0] == head]
            got = sorted((m.group(2)[0], float(m.group(1))) for b in mine for m in re.finditer(r"^\s*([\d.]+) >= [\d.]+ : (.*)$", b, re.M))
            require(len(got) == len(want) and all(g[0] == h[0] and abs(g[1] - h[1]) <= 1e-3*h[1] for g, h in zip(got, want)), "the warnings shown are not those of the point", "%s point %i: %s, want %s" % (kind, i, got, want))
        del k
    elif table == "almost_equal":
        other = w.other()
        require(sol.almost_equal(sol) is True or bool(sol.almost_equal(sol)), "a solution is not almost equal to itself", kind)
        require(not sol.almost_equal(other) and not other.almost_equal(sol), "different solutions are almost equal", kind)
        require(bool(World(kind).sol.almost_equal(sol)) or kind == "models", "the same solve is not almost equal", kind)


TOKEN = re.compile(r"[A-Za-z_][A-Za-z_0-9]*(?:\.[A-Za-z_0-9]+)*|\.[A-Za-z_][A-Za-z_.0-9]*")


def constraint_tables(ch):
    "the tables of constraints of models whose names also occur in the names of variables: every constraint with all its variables, under its model"
    inner = ch.pick(("A", "V", "rea"))
    outer = ch.pick(("B", "V", "W"))
    iname = ch.pick(("Area", "A", "xV", "rea"))
    oname = ch.pick(("y_B", "Winglet", "V", "A"))
    twice = ch.flag()
    swept = ch.pick(((), (2, 3), (3, 2)))    # x >= 5/2 is tight at one of the points only
    NamedVariables.reset_modelnumbers()

    def isetup(self):
        x = self.x = Variable(iname)
        k = self.k = Variable("k", 2)
        return [x >= k, x <= 50*k] + ([2*x >= 5] if swept else [])
    Inner = type(inner, (Model,), {"setup": isetup})

    def osetup(self):
        parts = self.parts = [Inner(), Inner()] if twice else [Inner()]
        y = self.y = Variable(oname)
        if twice:
            return parts, [y >= parts[0].x + 2*parts[1].x, y**2 <= 64*parts[0].x*parts[1].x]
        return parts, [y >= parts[0].x, y**2 <= 64*parts[0].x**2]
    Outer = type(outer, (Model,), {"setup": osetup})
    o = Outer()
    t = Variable("t_" + inner)
    m = Model(o.y*t, [o, t >= o.y, t <= 50*o.y])
    sol = m.sweep({o.parts[0].k: list(swept)}, solver=solver, verbosity=0) if swept else m.solve(solver=solver, verbosity=0)
    senss = {c: float(np.ravel(v)[-1]) for c, v in sol["sensitivities"]["constraints"].items()}
    where = lambda: "models %s in %s, variables %s, %s, %s%s" % (inner, outer, iname, oname, "twice" * twice, "swept %s" % (swept,))
    bare = lambda text: TOKEN.sub(lambda g: g.group().split(".")[-1], text)
    for table in ("tightest constraints", "loose constraints"):
        text = sol.table(tables=[table], ntightconstrs=20)
        got, model = [], None
        for line in text.split("\n"):
            head, sep, rest = line.partition(" : ")
            if sep:
                got.append((model or "", head.strip(), rest))
            elif "|" in line and not line.startswith("Insens"):
                model = line.split("|")[1].strip()
        want = []
        for c, v in senss.items():
            if (v >= 1e-2 if table[0] == "t" else v <= 1e-5):
                want.append((c.lineagestr() if hasattr(c, "lineagestr") and c.lineage else ".".join(n if not i else "%s%s" % (n, i) for n, i in (c.lineage or ())), "%+6.2g" % v if table[0] == "t" else "", c))
        cell = lambda r: (r[0], r[1].strip(), bare(r[2] if isinstance(r[2], str) else r[2].str_without(("units", "lineage"))))
        require(sorted(map(cell, got)) == sorted(map(cell, want)), "the table of constraints does not show the constraints", lambda: "%s: %s\n%s, want %s" % (where(), text, sorted(map(cell, got)), sorted(map(cell, want))))  # pylint: disable=cell-var-from-loop
        counts = sorted((cell(r), len(set(TOKEN.findall(r[2])))) for r in got)
        require(counts == sorted((cell(r), len(r[2].vks)) for r in want), "the table of constraints does not tell variables apart", lambda: "%s: %s" % (where(), text))  # pylint: disable=cell-var-from-loop
    outcome_("%s%s" % ("twice " * twice, "swept %s" % (swept,)))


def sensitivity_tables(ch):
    "which constants the tables of sensitivities show: by the mean of their magnitudes, whatever their signs over a sweep"
    n = ch.pick((1, 3, 6))
    points = ch.pick(((), (0.5, 2.0), (2.0, 0.5), (0.25, 1.0, 4.0)))
    powers = ch.pick(((1, -1, 0.05), (-0.08, 2, -2), (0.5, 0.04, -0.0004)))
    balance = ch.pick((False, True))
    nvars = ch.pick((None, 1, 3, 4))
    k = [Variable("k_%i" % i) for i in range(n)]
    d, x = Variable("d"), Variable("x")
    sens = {}   # of each constant at each point
    cost = x
    ds = points or (1.0,)
    for i, ki in enumerate(k):
        p = powers[i % 3]*(1 + 0.1*i)
        cost = cost*ki**p
        sens[ki] = [p]*len(ds)
    rhs = 1
    if balance:   # its sensitivity goes from one sign to the other
        b = Variable("b")
        rhs = b + d/b
        sens[b] = [(1 - v)/(1 + v) for v in ds]
        sens[d] = [v/(1 + v) for v in ds]
    else:
        rhs = d**0.3
        sens[d] = [0.3]*len(ds)
    m = Model(cost, [x >= rhs], {c: 1 for c in sens})
    sol = m.sweep({d: list(points)}, solver=solver, verbosity=0) if points else m.solve(solver=solver, verbosity=0)
    mean = {c.key.name: float(np.mean(np.abs(v))) for c, v in sens.items()}
    most = {c.key.name: max(np.abs(v)) for c, v in sens.items()}
    where = lambda: "constants %s, %s" % ({c.key.name: v for c, v in sens.items()}, points)
    value = lambda r: next(v for c, v in sens.items() if c.key.name == r[0])

    def check(text, want, what):
        got = rows(text)
        require(sorted(r[0] for r in got) == sorted(want), "the table of sensitivities shows others", lambda: "%s, %s: %s, want %s" % (what, where(), got, sorted(want)))
        for r in got:
            require(len(r[1]) == len(value(r)) and all(np.isnan(g) and abs(v) < 1e-3 or abs(g - v) <= 6e-2*abs(v) + 1e-6 for g, v in zip(r[1], value(r))), "the table of sensitivities shows another value", lambda: "%s, %s: %s" % (what, where(), r))  # pylint: disable=cell-var-from-loop
        return [r[0] for r in got]
    order = check(sol.table(tables=["sensitivities"]), [c for c in most if most[c] >= 1e-3], "sensitivities")
    require(all(mean[a] >= mean[b_]*(1 - 1e-6) for a, b_ in zip(order, order[1:])) or points, "the table of sensitivities is in order", lambda: "%s: %s" % (where(), order))
    check(sol.table(tables=["insensitivities"]), [c for c in mean if mean[c] < 0.1 and most[c] >= 1e-3], "insensitivities")
    ranked = sorted(mean, key=lambda c: -mean[c])
    count = nvars or 5
    if len(ranked) > count and abs(mean[ranked[count]] - mean[ranked[count-1]]) < 1e-6:
        raise Skip
    check(sol.table(tables=["top sensitivities"], **({"nvars": nvars} if nvars else {})), [c for c in ranked[:count] if most[c] >= 1e-3], "top %s" % count)
    outcome_("%i points" % len(ds))


def model_tables(ch):
    "the table of the models' sensitivities, and tables of chosen models, of models by themselves and under one another"
    n = ch.pick((2, 3))
    points = ch.pick(((), (0.5, 2.0), (0.01, 1.0, 30.0), (1.0, 1.05, 1.1), (5.0, 4.0, 3.0, 2.0, 1.0, 0.5)))
    rest = ch.pick(((1.0, 0.02), (1e-3, 0.03), (2.0, 0.0)))
    top = ch.flag()
    NamedVariables.reset_modelnumbers()

    class Share(Model):
        "a part whose constraint has its share of the cost as its sensitivity"
        def setup(self, value):
            s = self.s = Variable("s", label="share")
            k = self.k = Variable("k", value)
            return [s >= k]

    class Fixed(Model):
        "another, of another name"
        def setup(self, value):
            s = self.s = Variable("s")
            r = self.r = Variable("r", value)
            return [s >= r]
    parts = [Share(1.0), Fixed(1.0), Share(1.0)][:n]
    cost = sum((v*p.s if v else p.s**0*1.0) for p, v in zip(parts, (1.0,) + rest))
    extra = []
    if not rest[1] and n == 3:   # a part that does not matter: its variable is held from below and above, and is not in the cost
        extra = [parts[2].s <= 10]
    if top:
        t, q = Variable("t"), Variable("q", 3.0)
        cost, extra = cost + 0.1*t, extra + [t >= q]
    m = Model(cost, [parts, extra])
    sol = m.sweep({parts[0].k: list(points)}, solver=solver, verbosity=0) if points else m.solve(solver=solver, verbosity=0)
    where = lambda: "%i parts, %s, %s%s" % (n, points, rest, ", top" * top)
    # the models' sensitivities: to the constraint and to the constant of each
    total = [a + rest[0] + (rest[1] + (not rest[1])*1.0 if n == 3 else 0) + 0.3*top for a in (points or (1.0,))]
    want = {}
    for i, p in enumerate(parts):
        mine = [2*((a, ) + rest)[i]/b for a, b in zip(points or (1.0,), total)]
        want[p.lineagestr()] = np.array(mine)
    text = sol.table(tables=["model sensitivities"])
    got = {}
    order = []
    for line in text.split("\n"):
        head, sep, name = line.partition(" : ")
        if sep:
            got[name] = head
            order.append(name)
    require(set(got) == set(want), "the table of models does not show the models", lambda: "%s: %s, want %s" % (where(), text, want))
    for name, w in want.items():
        said = got[name].strip()
        if w.max() < 0.1:
            ok = (said.startswith("<1E") and w.max() <= 10.0**int(said[3:])*(1 + 1e-6) and w.max() >= 10.0**(int(said[3:]) - 1)*(1 - 1e-6)) if said != "=0" else w.max() < 1e-7
            if not rest[1] and w.max() == 0:
                ok = said == "=0" or float(said[1:]) < 1e-5
            require(ok, "the table of models shows another sensitivity", lambda: "%s: %s %r, %s" % (where(), name, said, w))  # pylint: disable=cell-var-from-loop
            continue
        if any(abs(v - 0.1) < 1e-6 for v in w):
            raise Skip
        cells = said.replace("+ [", " ").replace("]", " ").split()
        if len(w) == 1 and len(cells) == 1:
            require(abs(float(cells[0]) - w[0]) <= 0.0501, "the table of models shows another sensitivity", lambda: "%s: %s %r, %s" % (where(), name, said, w))  # pylint: disable=cell-var-from-loop
            continue
        d = w - w.mean()
        require(len(cells) == 1 + len(w) and abs(float(cells[0]) - w.mean()) <= 0.0501 and all(abs(v) <= 0.1001 if c == "-" else abs(float(c) - v) <= 0.0501 and abs(v) > 0.0499 for c, v in zip(cells[1:], d)),
                "the table of models shows another sensitivity", lambda: "%s: %s %r, %s" % (where(), name, said, w))  # pylint: disable=cell-var-from-loop
    mean = {k: v.mean() for k, v in want.items()}
    require(all(mean[a] >= mean[b] - 1e-6 for a, b in zip(order, order[1:])), "the table of models is not in order", lambda: "%s: %s, %s" % (where(), order, want))
    # chosen models: those of no model are shown with any that are included
    names = sorted(want) + ["Elsewhere"]
    for which in ("freevariables", "constants", "sensitivities"):
        source = sol["sensitivities"]["variables"] if which == "sensitivities" else sol[which] if which in sol else {}
        held = [vk for vk in source if np.abs(dict.__getitem__(source, vk)).max() > (1e-3 if which == "sensitivities" else 0)]
        for k in range(1, len(names) + 1):
            for some in itertools.combinations(names, k):
                for how in ("included_models", "excluded_models"):
                    shown_ = sorted(r[0] for r in rows(sol.table(tables=[which], **{how: list(some)})))
                    wanted = sorted(vk.str_without(("lineage", "vec")) for vk in held if (vk.lineagestr() in ("",) + some if how == "included_models" else vk.lineagestr() not in some))
                    require(shown_ == wanted, "the table does not show the chosen models", lambda: "%s: %s, %s=%s: %s, want %s" % (where(), which, how, some, shown_, wanted))  # pylint: disable=cell-var-from-loop
    # the cost of the first points
    c = NUM.findall(sol.table(tables=["cost"]).split("------------")[1])
    first = np.ravel(sol["cost"])[:4]
    require(len(c) >= len(first) and all(abs(float(g) - v) <= 6e-3*v for g, v in zip(c, first)) and same(np.ravel(sol["cost"]), np.array(total), 1e-5), "the table shows another cost", lambda: "%s: %s, %s" % (where(), c, total))
    outcome_("%i points" % len(points))


def chosen_tables(ch):
    "tables, top sensitivities and summaries of chosen variables"
    n = ch.pick((3, 6, 8))
    chosen = ch.pick(((), (0,), (1, 2), (-1,), (0, 1, 2), ("x",), ("x", 0)))
    nvars = ch.pick((5, 1, 2, 3, 4))
    points = ch.pick(((), (1.0, 2.0)))
    NamedVariables.reset_modelnumbers()
    k = [Variable("k_%i" % i, 1.0) for i in range(n)]
    x, y = Variable("x"), Variable("y")
    power = {c: (0.9 - 0.1*i)*(-1)**i for i, c in enumerate(k)}
    cost = x + y*0
    cost = x*y
    for c in k[:-1]:
        cost = cost*c**power[c]
    m = Model(cost, [x >= k[-1]**power[k[-1]], y >= 1])
    sol = m.sweep({k[0]: list(points)}, solver=solver, verbosity=0) if points else m.solve(solver=solver, verbosity=0)
    pick = [x if c == "x" else k[c] for c in chosen]
    consts = [c for c in pick if c is not x]
    where = lambda: "%i constants, chosen %s, nvars %s, %s" % (n, chosen, nvars, points)
    ranked = sorted(k, key=lambda c: -abs(power[c]))
    left = [c for c in ranked if c not in consts]
    names = lambda cs: sorted(c.key.name for c in cs)
    shown_ = lambda text: [r[0] for r in rows(text)]
    counts = {max(nvars - c, min(3, nvars)) for c in (len(consts), len(pick))}
    got = sorted(shown_(sol.table(showvars=pick, tables=["top sensitivities"], nvars=nvars)))
    require(got in [names(left[:c]) for c in counts], "the top sensitivities beside those chosen are others", lambda: "%s: %s, want %s of %s" % (where(), got, counts, names(left)))
    got_ = {t: sorted(shown_(sol.table(showvars=pick, tables=[t]))) for t in ("freevariables", "constants", "sensitivities", "sweepvariables")}
    free, const = [x, y], k[1:] if points else k
    for t, all_ in (("freevariables", free), ("constants", const), ("sensitivities", k), ("sweepvariables", k[:1] if points else [])):
        want = names(c for c in all_ if not pick or any(c is p for p in pick))
        require(got_[t] == want, "the table of chosen variables shows others", lambda: "%s: %s %s, want %s" % (where(), t, got_[t], want))  # pylint: disable=cell-var-from-loop
    blocks, title = {}, None
    for line in sol.summary(showvars=pick).split("\n"):
        if line.startswith("---"):
            title = last
            blocks[title] = []
        elif title and rows(line):
            blocks[title] += shown_(line)
        last = line
    listed = lambda c: any(c.key.name in b for t, b in blocks.items() if "Sensitiv" in t)
    require(all(listed(c) for c in consts), "the summary does not show the sensitivity of a chosen constant", lambda: "%s: %s" % (where(), blocks))
    if "x" in chosen or not chosen:
        require(any("x" in b for t, b in blocks.items() if "Free" in t), "the summary does not show a chosen variable", lambda: "%s: %s" % (where(), blocks))
    if not chosen:
        most = sum(listed(c) for c in ranked[:3])
        require(most == 3, "the summary does not show the most sensitive constants", lambda: "%s: %s" % (where(), blocks))
    outcome_("%i of %i" % (len(consts), n))


def comparisons(ch):
    "almost_equal of a solution and the same with one number changed, or one variable missing"
    swept = ch.flag()
    part = ch.pick(("variables", "sensitivities", "missing"))
    where_ = ch.pick(("x", "v", "k", "a"))
    at = ch.pick((0, -1))
    by = ch.pick((0.0, 1e-4, -1e-4, 5e-3, -5e-3, 0.1, -0.1))
    x, v = Variable("x"), VectorVariable(3, "v")
    k, a = Variable("k", 2.0), VectorVariable(3, "a", [1.0, 2.0, 3.0])
    m = Model(x*v.prod(), [x >= k, v >= a*x**0.5])
    sol = m.sweep({k: [1.0, 2.0, 3.0]}, solver=solver, verbosity=0) if swept else m.solve(solver=solver, verbosity=0)
    other = m.sweep({k: [1.0, 2.0, 3.0]}, solver=solver, verbosity=0) if swept else m.solve(solver=solver, verbosity=0)
    vk = {"x": x.key, "v": v.key, "k": k.key, "a": a.key}[where_]
    if part == "missing":
        if at or by:
            raise Skip
        del other["variables"][vk]
        want = False
    else:
        d = other["variables"] if part == "variables" else other["sensitivities"]["variables"]
        if vk not in d:
            raise Skip
        held = np.array(dict.__getitem__(d, vk), float)
        flat_ = held.reshape(-1).copy()
        flat_[at] = flat_[at]*(1 + by) if part == "variables" else flat_[at] + by
        d[vk] = flat_.reshape(held.shape) if held.shape else float(flat_[0])
        want = abs(by) < (1e-3 if part == "variables" else 0.01)
    for s, o in ((sol, other), (other, sol)):
        require(bool(s.almost_equal(o)) == want, "almost_equal does not see a difference" if not want else "almost_equal sees a difference within the tolerance",
                lambda: "%s of %s at %s by %s%s%s" % (part, where_, at, by, ", swept" * swept, ", reversed" * (s is other)))  # pylint: disable=cell-var-from-loop
    if part == "variables":
        for tol in (1e-5, 1e-2, 0.2):
            require(bool(sol.almost_equal(other, reltol=tol)) == (abs(by) < tol), "almost_equal has another tolerance", lambda: "%s by %s, reltol %s" % (where_, by, tol))  # pylint: disable=cell-var-from-loop
    elif part == "sensitivities":
        for tol in (1e-5, 1e-3, 0.2):
            require(bool(sol.almost_equal(other, sens_abstol=tol)) == (abs(by) < tol), "almost_equal has another tolerance", lambda: "%s by %s, sens_abstol %s" % (where_, by, tol))  # pylint: disable=cell-var-from-loop
    outcome_("equal" if want else "different")


def run(ctx):
    ctx.explore("model tables", model_tables)
    ctx.explore("chosen variables", chosen_tables)
    ctx.explore("comparisons", comparisons)
    ctx.explore("sensitivity tables", sensitivity_tables)
    ctx.explore("constraint tables", constraint_tables)
    ctx.bound(constraint_tables="3 x 3 model names, 4 x 4 variable names containing them, one or two parts, swept or not")
    for kind in KINDS:
        step, names = histories(kind)
        for name, (base, bad) in zip(names, pmap(lambda n: guarded(baseline, kind, n), names)):  # pylint: disable=cell-var-from-loop
            if not bad:
                _BASE[kind, name] = base
        ctx.bfs("histories of reads of a %s solution" % kind, names, step, 8)
    for kind in KINDS:
        views(kind, ctx)
