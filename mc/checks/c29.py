"""Linked constants and evaluated variables against closed forms, over histories of substitutions, sweeps and programs."""
import functools
import itertools
import math
import numpy as np
from ad.admath import exp as adexp
from gpkit import Variable, VectorVariable, Model, NamedVariables, SignomialsEnabled, Vectorize, units
from ..core import require, Skip, outcome
from .c22 import solver

TECHNIQUE = "exhaustive exploration of linking functions x dependency shapes x histories of substitutions, sweeps and interleaved programs; every solve compared with the closed form of its optimum and its derivatives"
NOTE = "Optimum and values from the functions in plain python, sensitivities by central differences of the closed form. All histories of up to 2 (3 when thorough) operations of a 12-letter alphabet before a last solve. Linked variables whose value is 0 (logarithmic sensitivity undefined) are outside, as are functions substituted for a whole vector (refused by the library)."


class World:
    "constants a, b[2], d; linked variables; one model x >= sum of w_i*linked_i"
    # links: list of (name, size or None, gpkit function maker, plain function, differentiable)
    def __init__(self, shape, local=False):
        NamedVariables.reset_modelnumbers()
        self.shape, self.local = shape, local
        self.a, self.b, self.d = Variable("a", "ft" if shape == "units" else "-"), VectorVariable(2, "b"), Variable("d")
        self.x = Variable("x")
        self.vals = {"a": 2.0, "b0": 3.0, "b1": 0.5, "d": 1.25}
        self.links = []   # (name, variable, size, plain, ad)
        self.evals = []
        build = shape if callable(shape) else SHAPES[shape]
        cons, extra = [], {}
        self.model = None
        build(self)
        x, a, b, d = self.x, self.a, self.b, self.d
        w = 1.0
        rhs = 0.01*(a/a.units if a.units else a) + 0.01*b.sum() + 0.01*d
        self.weights = {}
        for name, var, size, _, _ in self.links:
            for i in range(size or 1):
                e = var[i] if size else var
                rhs = rhs + w*(e/e.units if e.units else e)
                self.weights[name, i if size else None] = w
                w = w*0.7
        cons = [x >= rhs]
        if local:
            y = Variable("y")
            with SignomialsEnabled():
                cons += [y >= 1, y + x/100 <= 100 + y**2]
            cost = x*y
        else:
            cost = x
        subs = {a: self.vals["a"], b: [self.vals["b0"], self.vals["b1"]], d: self.vals["d"]}
        subs.update(extra)
        cons = cons + list(self.parts)
        self.cost = cost
        self.m = Model(cost, cons, subs)
        self.cons = cons
        if self.evals and not self.parts:
            self.m.unique_varkeys = set(k for v, _, _ in self.evals for k in ([e.key for e in v.flat] if isinstance(v, np.ndarray) else [v.key]))
        self.over = {}    # (name, index) -> number or (plain, ad)

    parts = ()

    # ------------------------------------------------------------ reference

    def linked(self, vals, over=None, fixed=None):
        "values of all linked variables"
        over = self.over if over is None else over
        out = dict(vals)
        for name, _, size, plain, _ in self.links:
            got = plain(out)
            for i in (range(size) if size else (None,)):
                v = (got[i] if isinstance(got, (list, tuple)) else got)
                o = over.get((name, i))
                if o is not None:
                    v = o if not callable(o) else o(out)
                if fixed and (name, i) in fixed:
                    v = fixed[name, i]
                out[name if i is None else "%s%i" % (name, i)] = v
        return out

    def optimum(self, vals, over=None, fixed=None):
        full = self.linked(vals, over, fixed)
        out = 0.01*(vals["a"] + vals["b0"] + vals["b1"] + vals["d"])
        for (name, i), w in self.weights.items():
            out += w*full[name if i is None else "%s%i" % (name, i)]
        return out

    def own(self, over):
        "linked elements whose sensitivities stay their own: numbers and functions that can't be differentiated"
        out = []
        for name, _, size, _, ad in self.links:
            for i in (range(size) if size else (None,)):
                o = over.get((name, i))
                if o is not None and not callable(o) or o is None and not ad or getattr(o, "opaque", False):
                    out.append((name, i))
        return out

    def check(self, sol, vals, what, over=None, i=None, swept=()):
        over = self.over if over is None else over
        full = self.linked(vals, over)
        cost = self.optimum(vals, over)
        at = (lambda v: v) if i is None else (lambda v: v[i])
        close = lambda g, w_, tol=1e-6: abs(g - w_) <= tol*abs(w_) + 1e-9
        got = float(at(sol["cost"]))
        require(close(got, cost, 3e-4 if self.local else 1e-6), "the optimum is not that of the linked values", "%s: %.9g, expected %.9g" % (what, got, cost))

        def value(var, idx):
            v = sol["variables"][var.key]
            v = np.array(v, float)
            nat = 1 if idx is not None else 0
            if v.ndim > nat:
                v = v[i]
            return float(v[idx] if idx is not None else v)
        for name, var, size, _, _ in self.links:
            for k in (range(size) if size else (None,)):
                want = full[name if k is None else "%s%i" % (name, k)]
                g = value(var, k)
                require(close(g, want), "a linked variable is not its function", "%s: %s%s = %.9g, expected %.9g" % (what, name, "" if k is None else [k], g, want))
        # sensitivities: what is not differentiated through stays with its variable
        own = self.own(over)
        frozen = {(n, k): full[n if k is None else "%s%i" % (n, k)] for n, k in own}
        senss = sol["sensitivities"]["variables"]

        def sens(key, idx):
            s = np.array(senss[key], float)
            if s.ndim > (1 if idx is not None else 0):
                s = s[i]
            return float(s[idx] if idx is not None else s)
        for c, key, idx in (("a", self.a.key, None), ("b0", self.b.key, 0), ("b1", self.b.key, 1), ("d", self.d.key, None)):
            h = 1e-6
            up, dn = (self.optimum({**vals, c: vals[c]*(1+s)}, over, frozen) for s in (h, -h))
            want = (up - dn)/(2*h)/cost
            g = sens(key, idx)
            require(abs(g - want) < 2e-4*max(1, abs(want)), "a constant does not receive the sensitivities of what is linked to it", "%s: %s: %.6g, expected %.6g" % (what, c, g, want))
        for n, k in own:
            h = 1e-6
            w_ = frozen[n, k]
            up, dn = (self.optimum(vals, over, {**frozen, (n, k): w_*(1+s)}) for s in (h, -h))
            want = (up - dn)/(2*h)/cost
            var = [l[1] for l in self.links if l[0] == n][0]
            g = sens(var.key, k)
            require(abs(g - want) < 2e-4*max(1, abs(want)), "a substituted linked variable does not keep its sensitivity", "%s: %s%s: %.6g, expected %.6g" % (what, n, "" if k is None else [k], g, want))
        # evaluated variables
        for var, fn, size in self.evals:
            env = dict(full, x=got)
            want = fn(env)
            g = np.array(sol["variables"][var.key], float)
            if g.ndim > (1 if size else 0):
                g = g[i]
            require(np.allclose(g, want, rtol=3e-4 if self.local else 1e-6), "an evaluated variable is not its function", "%s: %s = %s, expected %s" % (what, var, g, want))
            require(var.key in sol["freevariables"], "an evaluated variable is not among the free ones", what)
        outcome("%s own" % len(own))

    # ----------------------------------------------------------- operations

    def solve(self, m=None, **kw):
        m = m or self.m
        return (m.localsolve if self.local else m.solve)(solver=solver, verbosity=0, **kw)

    def first(self):
        name, var, size = self.links[0][:3]
        return name, var, size


def link(w, name, fn, plain, size=None, ad=True, unit="-"):
    var = VectorVariable(size, name, fn, unit) if size else Variable(name, fn, unit)
    w.links.append((name, var, size, plain, ad))
    return var


def s_power(w):
    link(w, "l", lambda c: c[w.a]**2 + 1, lambda v: v["a"]**2 + 1)


def s_named(w):
    link(w, "l", lambda c: c["a"]**-0.5*c["d"], lambda v: v["a"]**-0.5*v["d"])


def s_numpy(w):
    link(w, "l", lambda c: np.sqrt(c[w.a])*np.exp(c[w.d]/3) - 0.3, lambda v: math.sqrt(v["a"])*math.exp(v["d"]/3) - 0.3)


def s_branch(w):
    link(w, "l", lambda c: c[w.a]*3 if c[w.a] > 2.5 else adexp(c[w.a]), lambda v: v["a"]*3 if v["a"] > 2.5 else math.exp(v["a"]))


def s_constant(w):
    link(w, "l", lambda c: 3.0, lambda v: 3.0, ad=False)
    link(w, "k", lambda c: c[w.a]*c[w.d], lambda v: v["a"]*v["d"])


def s_opaque(w):
    link(w, "l", lambda c: float(c[w.a])**2 if not hasattr(c[w.a], "d") else c[w.a].nope, lambda v: v["a"]**2, ad=False)
    link(w, "k", lambda c: c[w.a]*c[w.d], lambda v: v["a"]*v["d"])


def s_vector(w):
    link(w, "l", lambda c: [c[w.a]*2, c[w.a]**3], lambda v: [v["a"]*2, v["a"]**3], 2)


def s_elements(w):
    link(w, "l", lambda c: c[w.b]**2 + c[w.a], lambda v: [v["b0"]**2 + v["a"], v["b1"]**2 + v["a"]], 2)
    link(w, "k", lambda c: c[w.b].sum()*c[w.b][0], lambda v: (v["b0"] + v["b1"])*v["b0"])


def s_single(w):
    link(w, "l", lambda c: c[w.b[1]]*c[w.a], lambda v: v["b1"]*v["a"])
    link(w, "k", lambda c: sum(c[w.b])**2, lambda v: (v["b0"] + v["b1"])**2)


def s_vectorized(w):
    with Vectorize(2):
        l = Variable("l", lambda c: c[w.a]*c[w.d])
        k = Variable("k", lambda c: c[w.b]*2 + 1)
    w.links.append(("l", l, 2, lambda v: [v["a"]*v["d"]]*2, True))
    w.links.append(("k", k, 2, lambda v: [v["b0"]*2 + 1, v["b1"]*2 + 1], True))


def s_units(w):
    link(w, "l", lambda c: c[w.a]**2, lambda v: v["a"]**2, unit="m")
    link(w, "k", lambda c: [c[w.a], c[w.d]], lambda v: [v["a"], v["d"]], 2, unit="kg")


def chain(names):
    def s_chain(w):
        first, second = names
        l = link(w, first, lambda c: c[w.a]**2, lambda v: v["a"]**2)
        link(w, second, lambda c: c[l]*3 + c[w.d], lambda v: v[first]*3 + v["d"])
    return s_chain


def s_chains(w):
    l = link(w, "q", lambda c: [c[w.a], c[w.b[0]]**2], lambda v: [v["a"], v["b0"]**2], 2)
    k = link(w, "h", lambda c: c[l].sum(), lambda v: v["q0"] + v["q1"])
    link(w, "p", lambda c: [c[k]*c[w.d], c[l][1]**0.5], lambda v: [v["h"]*v["d"], v["q1"]**0.5], 2)


def s_evaluated(w):
    link(w, "l", lambda c: c[w.a]**2, lambda v: v["a"]**2)
    e = Variable("e", evalfn=lambda v: v[w.x]**2 + 1)
    f = VectorVariable(2, "f", evalfn=lambda v: np.array([float(v[w.x]), float(v[w.a])*float(v[w.links[0][1]])]))
    w.evals += [(e, lambda v: v["x"]**2 + 1, None), (f, lambda v: [v["x"], v["a"]*v["l"]], 2)]


class Part(Model):
    def setup(self, w):
        # pylint: disable=attribute-defined-outside-init
        link(w, "l", lambda c: c[w.a]**2, lambda v: v["a"]**2)
        e = self.e = Variable("e", evalfn=lambda v: v[w.x]*2)
        w.evals.append((e, lambda v: v["x"]*2, None))
        return [w.x >= 1e-3*w.links[-1][1]]


def s_submodel(w):
    w.parts = [[Part(w)], [Second(w)]]


class Second(Model):
    "with an evaluated variable of the same name as another part's"
    def setup(self, w):
        # pylint: disable=attribute-defined-outside-init
        e = self.e = Variable("e", evalfn=lambda v: v[w.x]*3 + 1)
        e2 = self.e2 = VectorVariable(2, "f", evalfn=lambda v: np.array([1.0, 2.0])*float(v[w.x]))
        w.evals += [(e, lambda v: v["x"]*3 + 1, None), (e2, lambda v: [v["x"], 2*v["x"]], 2)]
        return [w.x >= 1e-4]


def ordered(names, form):
    "linked variables each needing others, named (and so visited) in any order"
    def s_ordered(w):
        n = names
        first = link(w, n[0], lambda c: c[w.a]**2, lambda v: v["a"]**2)
        if form == "chain":
            second = link(w, n[1], lambda c: c[first]*3 + c[w.d], lambda v: v[n[0]]*3 + v["d"])
            third = link(w, n[2], lambda c: c[second]**0.5 + 1, lambda v: v[n[1]]**0.5 + 1)
            link(w, n[3], lambda c: c[third]*c[w.a], lambda v: v[n[2]]*v["a"])
        elif form == "tree":
            second = link(w, n[1], lambda c: c[w.d]**2, lambda v: v["d"]**2)
            third = link(w, n[2], lambda c: c[second]*c[first], lambda v: v[n[1]]*v[n[0]])
            link(w, n[3], lambda c: c[third] + c[first], lambda v: v[n[2]] + v[n[0]])
        elif form == "by name":
            link(w, n[1], lambda c: c[n[0]]*3 + c["d"], lambda v: v[n[0]]*3 + v["d"])
            link(w, n[2], lambda c: c[n[1]]**0.5 + 1, lambda v: v[n[1]]**0.5 + 1)
            link(w, n[3], lambda c: c[n[2]]*c["a"], lambda v: v[n[2]]*v["a"])
        else:
            second = link(w, n[1], lambda c: [c[first], c[w.d]], lambda v: [v[n[0]], v["d"]], 2)
            third = link(w, n[2], lambda c: c[second][0]*c[second][1] if form == "vector" else c[second[0]]*c[second[1]], lambda v: v[n[1] + "0"]*v[n[1] + "1"])
            link(w, n[3], lambda c: [c[third], c[second][1]**2], lambda v: [v[n[2]], v[n[1] + "1"]**2], 2)
    return s_ordered


def orders(ch):
    names = ch.pick(list(itertools.permutations("pqrs")))
    form = ch.pick(("chain", "tree", "by name", "vector", "elements"))
    swept = ch.flag()
    w = World(ordered(names, form))
    what = "%s of %s" % (form, "".join(names))
    if swept:
        w.m.substitutions[w.a] = ("sweep", [1.0, 2.0, 3.0])
        sol = w.solve(skipsweepfailures=ch.flag())
        require(len(sol["cost"]) == 3, "points of a sweep are missing", what)
        for i, a in enumerate((1.0, 2.0, 3.0)):
            w.check(sol, dict(w.vals, a=a), "%s point %i" % (what, i), None, i)
    else:
        w.check(w.solve(), w.vals, what)
    outcome("%s, %s" % (form, swept))


SHAPES = {"power": s_power, "named": s_named, "numpy": s_numpy, "branch": s_branch, "constant": s_constant, "opaque": s_opaque, "vector": s_vector, "elements": s_elements, "single": s_single,
          "vectorized": s_vectorized, "units": s_units, "chain qp": chain("qp"), "chain pq": chain("pq"), "chains": s_chains, "evaluated": s_evaluated, "submodel": s_submodel}
OPS = ("solve", "a", "b0", "d", "number", "function", "opaque", "sweep a", "sweep linked", "sweep both", "hold", "other model", "local", "element", "quantity")


def histories(ch, depth):
    shape = ch.pick(sorted(SHAPES))
    local = ch.flag()
    ops = []
    while len(ops) < depth:
        i = ch.index(len(OPS))
        if i == 0:
            break
        ops.append(OPS[i])
    ch.labels.append(" ".join(ops))
    w = World(shape, local)
    held = []
    what = "%s%s: %s" % (shape, ", signomial" if local else "", " ".join(ops) or "solve")
    name, var, size = w.first()
    el = var[0] if size else var
    ix = 0 if size else None
    for n, op in enumerate(ops + ["solve"]):
        where = "%s (operation %i)" % (what, n)
        if op in ("a", "b0", "d"):
            w.vals[op] *= 1.5
            key = {"a": w.a, "b0": w.b[0], "d": w.d}[op]
            w.m.substitutions[key] = w.vals[op]
            if n % 2:
                continue  # with or without a solve in between
        elif op == "quantity":
            if shape != "units":
                raise Skip
            w.m.substitutions[w.a] = 3.0*units.m
            w.vals["a"] = 3.0/0.3048
        elif op == "number":
            w.m.substitutions[el] = 4.0
            w.over[name, ix] = 4.0
        elif op == "element":
            if not size:
                raise Skip
            w.m.substitutions[var[1]] = 2.5
            w.over[name, 1] = 2.5
        elif op == "function":
            w.m.substitutions[el] = lambda c: c[w.d]*3 + 1
            w.over[name, ix] = lambda v: v["d"]*3 + 1
        elif op == "opaque":
            w.m.substitutions[el] = lambda c: 2.5
            f = lambda v: 2.5
            f.opaque = True
            w.over[name, ix] = f
        elif op == "hold":
            if local:
                raise Skip
            held.append((w.m.gp(), dict(w.vals), dict(w.over)))
            continue
        elif op == "other model":
            other = Model(w.cost, w.cons, {**{k: v for k, v in w.m.substitutions.items()}, w.d: 7.0})
            if w.evals and not w.parts:
                other.unique_varkeys = w.m.unique_varkeys
            vals = dict(w.vals, d=7.0)
            sol = w.solve(other)
            w.check(sol, vals, where)
        elif op == "local":
            program = w.m.sp() if local else w.m.gp()
            del program
            continue
        elif op.startswith("sweep"):
            olda, oldl = w.vals["a"], w.over.get((name, ix))
            oldsub = None
            points = [1.0, 2.0, 4.0]
            lpoints = [1.5, 3.0]
            over = dict(w.over)
            if op in ("sweep a", "sweep both"):
                w.m.substitutions[w.a] = ("sweep", points)
            if op in ("sweep linked", "sweep both"):
                oldsub = w.m.substitutions[el]
                w.m.substitutions[el] = ("sweep", lpoints)
            sol = w.solve(skipsweepfailures=bool(n % 2))
            n_pts = (3 if op != "sweep linked" else 1)*(2 if op != "sweep a" else 1)
            require(len(sol["cost"]) == n_pts, "points of a sweep are missing", where)
            for i in range(n_pts):
                vals = dict(w.vals)
                if op != "sweep linked":
                    vals["a"] = float(np.array(sol["variables"][w.a.key])[i])
                if op != "sweep a":
                    lv = np.array(sol["variables"][var.key], float)
                    over[name, ix] = float(lv[i][0] if size else lv[i])
                w.check(sol, vals, "%s point %i" % (where, i), over, i)
            if op != "sweep linked":
                require(sorted(set(np.array(sol["variables"][w.a.key], float))) == points, "points of a sweep are missing", where)
            w.m.substitutions[w.a] = olda
            if oldsub is not None:
                if callable(oldsub):
                    w.m.substitutions[el] = oldsub
                else:
                    w.m.substitutions[el] = oldl
            if oldl is None:
                w.over.pop((name, ix), None)
            continue
        sol = w.solve()
        w.check(sol, w.vals, where)
    for program, vals, over in held:
        sol = program.solve(solver, verbosity=0)
        w.m.process_result(sol)
        w.check(sol, vals, what + ", program made before", over)


def run(ctx):
    ctx.explore("orders of evaluation", orders)
    ctx.explore("histories", functools.partial(histories, depth=2 if ctx.quick else 3))
