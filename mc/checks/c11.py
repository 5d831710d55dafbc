"""The standard form: every small model, read back from a recording solver's arguments; answers attributed through distinct values."""
import contextlib
import io
import itertools
import math
import warnings
import numpy as np
import gpkit
from gpkit import Variable, VectorVariable, Model, ConstraintSet
from gpkit.units import Quantity
from ..core import require, outcome, fail, Skip
from ..ref import R, F, UNITS, unit_of
from ..prog import recorder, rows_of, close, standard_form

TECHNIQUE = "exhaustive exploration of model shapes (objective x ordered constraint lists x constants x answer forms) on the real code with a recording solver"
NOTE = "All ordered lists of constraint templates up to the bound, all placements of constants, all answer forms (term duals, constraint duals, constraint duals without the objective's); answers are distinct per column, term and constraint so that any misattribution shows."
U = {"x": "ft", "y": "", "z": "m", "k": "cm", "v0": "m", "v1": "m", "M.x": "m", "q": ""}


class World:
    def __init__(self):
        self.x, self.y, self.z, self.k, self.q = Variable("x", "ft"), Variable("y"), Variable("z", "m"), Variable("k", "cm"), Variable("q")
        self.v = VectorVariable(2, "v", "m")
        self.mx = Variable("x", "m", lineage=(("M", 0),))
        self.names = {self.x.key: "x", self.y.key: "y", self.z.key: "z", self.k.key: "k", self.q.key: "q",
                      self.mx.key: "M.x", self.v[0].key: "v0", self.v[1].key: "v1"}
        self.r = {n: R.var(n, u) for n, u in U.items()}

    def costs(self):
        r, m = self.r, gpkit.units.m
        return [("x", self.x, r["x"]), ("z/y + 2x", self.z/self.y + 2*self.x, r["z"].div(r["y"]).add(R.num(2).mul(r["x"]))),
                ("v0+v1+k", self.v.sum() + self.k, r["v0"].add(r["v1"]).add(r["k"])), ("1/(q x)", 1/(self.q*self.x), R.num(1).div(r["q"].mul(r["x"])))]

    def templates(self):
        "(label, constraint, [(smaller, larger, is equality)])"
        x, y, z, k, v, mx, q = self.x, self.y, self.z, self.k, self.v, self.mx, self.q
        r, m = self.r, gpkit.units.m
        one = R.num(1, "m")
        rx, ry, rz, rk, rm, r0, r1, rq = (r[n] for n in ("x", "y", "z", "k", "M.x", "v0", "v1", "q"))
        return [("x >= y m + k", x >= y*m + k, [(ry.mul(one).add(rk), rx, False)]),
                ("x y == z", x*y == z, [(rx.mul(ry), rz, True)]),
                ("z^2 + x z + x k <= 40 m^2", z**2 + x*z + x*k <= 40*m**2, [(rz.power(2).add(rx.mul(rz)).add(rx.mul(rk)), R.num(40, "m^2"), False)]),
                ("v >= z", v >= z, [(rz, r0, False), (rz, r1, False)]),
                ("q == y^-2", q == y**-2, [(rq, ry.power(-2), True)]),
                ("1 >= M.x/x + q", 1 >= mx/x + q, [(rm.div(rx).add(rq), R.num(1), False)]),
                ("v0 v1 >= x k / y", v[0]*v[1] >= x*k/y, [(rx.mul(rk).div(ry), r0.mul(r1), False)]),
                ("k <= 5 km", k <= Quantity(5.0, "km"), [(rk, R.num(5, "km"), False)])]

    def own(self, terms):
        out = {}
        for k, c in terms.items():
            c = float(c)
            for n, e in k:
                c *= float(UNITS[U[n]][0])**float(e)
            out[tuple((n, round(float(e), 12)) for n, e in k)] = c
        return out


CONSTS = [{}, {"y": 3.0}, {"k": 7.0}, {"y": 0.5, "k": 2.0}, {"v0": 4.0}, {"v0": 4.0, "v1": 5.0, "k": 1.0}, {"y": 2.0, "q": 0.25}, {"q": 0.2, "k": 3.0, "M.x": 1.0}]


def run(ctx):
    n = 2 if ctx.quick else 3
    ctx.bound(constraints=n, constants=len(CONSTS))

    def body(ch):
        w = World()
        costname, cost, rcost = ch.pick(w.costs())
        if ctx.quick and n == 2:
            pass
        picked = [w.templates()[i] for i in ch.pick([p for i in range(1, n+1) for p in itertools.permutations(range(8), i)])]
        consts = ch.pick(CONSTS if len(picked) < 3 else CONSTS[:5])
        nesting = ch.pick(("flat", "nested", "split subs")) if len(picked) > 1 else ch.pick(("flat", "dict"))
        duals = ch.pick(("nu", "la", "la short"))
        cons = [p[1] for p in picked]
        where = {v: k for k, v in w.names.items()}
        subs = {where[nm]: v for nm, v in consts.items()}
        if nesting == "flat":
            m = Model(cost, cons, subs)
        elif nesting == "dict":
            m = Model(cost, {"only": cons[0]}, subs)
        elif nesting == "nested":
            m = Model(cost, [ConstraintSet([cons[0]]), cons[1:]], subs)
        else:
            items = list(subs.items())
            m = Model(cost, [Model(w.q, [cons[0]], dict(items[:1])), ConstraintSet(cons[1:])], dict(items[1:]))
            if items and items[0][0] not in {vk for p in picked[:1] for c in (p[1] if hasattr(p[1], "__iter__") else [p[1]]) for vk in c.vks} | set(w.q.vks):
                m.substitutions.update(dict(items[:1]))
        vals = {nm: frac_si(nm, v) for nm, v in consts.items()}
        # ---- reference program
        cf = unit_of(cost.units)[0]   # the cost is minimized in its own units
        want = [({k: c/cf for k, c in w.own(rcost.sub(vals).terms).items()}, False)]
        owner = [None]
        for (label, con, parts), idx in zip(picked, range(len(picked))):
            for i, (small, large, eq) in enumerate(parts):
                leaf = list(con)[i] if hasattr(con, "__iter__") else con
                for a, b in ([(small, large), (large, small)] if eq else [(small, large)]):
                    p = a.sub(vals).div(b.sub(vals)).terms
                    const = float(p.pop((), 0))
                    if p and const >= 1 or not p and const > 1.001:
                        raise Skip    # infeasible: C06
                    if p:
                        want.append((w.own({k: c/(1-F(const)) if not isinstance(c, float) else c/(1-const) for k, c in p.items()}), eq))
                        owner.append(leaf)
        if not any(nm for t, _ in want for k in t for nm, _ in k):
            raise Skip   # nothing to optimize
        # ---- what the solver received
        calls = []
        gp = m.gp(checkbounds=False)
        nus = {}

        def answer(call, x, cvals):
            nu = np.array([0.01*(i+1) + 0.001*(i % 3) for i in range(len(call["c"]))])
            k0 = call["k"][0]
            nu[:k0] /= nu[:k0].sum()
            r, la = 0, []
            for kk in call["k"]:
                if duals != "nu":   # constraint duals are spread over the terms in proportion to their values
                    t = cvals[r:r+kk]
                    nu[r:r+kk] = nu[r:r+kk].sum()*t/t.sum()
                la.append(nu[r:r+kk].sum())
                r += kk
            nus["nu"], nus["la"] = nu.copy(), la
            return {"nu": dict(nu=nu), "la": dict(la=np.array(la)), "la short": dict(la=np.array(la[1:]))}[duals]
        res = gp.solve(solver=recorder(calls, answer), verbosity=0)
        call, = calls
        require(call["first"] <= call["meq"], "equality markers", str(call["first"]))
        free = sorted(set().union(*({nm for k in t for nm, _ in k} for t, _ in want)))
        cols = {}
        for vk, val in dict.items(res["freevariables"]):
            arr = np.atleast_1d(np.asarray(val, dtype=float))
            for idx, value in np.ndenumerate(arr):
                nm = w.names.get(vk) or "v%d" % idx
                if value == value:
                    js = [j for j, xx in enumerate(call["x"]) if abs(math.exp(xx)-value) < 1e-9]
                    require(len(js) == 1 and js[0] not in cols, "column attribution", lambda: "%s = %s is columns %s" % (nm, value, js))
                    cols[js[0]] = nm
        require(sorted(cols.values()) == free and call["shape"][1] == len(free), "free variables", lambda: "%s columns, reported %s, expected %s" % (call["shape"], sorted(cols.values()), free))
        rows = rows_of(call, cols)
        require(len(rows) == len(want), "number of posynomials", lambda: "%s instead of %s" % (rows, want))
        require(close(rows[0][0], want[0][0]), "objective", lambda: "%s instead of %s" % (rows[0][0], want[0][0]))
        # constraints may be handed over in any order; match them up
        left, match = list(range(1, len(want))), {}
        for i, (terms, eq) in enumerate(rows[1:], 1):
            terms = dict(terms)
            const = terms.pop((), 0)
            terms = {k: c/(1-const) for k, c in terms.items()}
            j = next((j for j in left if want[j][1] == eq and close(terms, want[j][0], 1e-8)), None)
            require(j is not None, "constraint terms", lambda: "%s (equality: %s) is none of %s" % (terms, eq, [want[j] for j in left]))
            left.remove(j)
            match[i] = j
        starts = np.cumsum([0] + call["k"])
        require(len(call["first"])*2 == len(call["meq"]) == sum(eq for _, eq in want), "equality markers", lambda: "%s %s" % (call["first"], call["meq"]))
        byc = {}
        for i, j in match.items():
            if rows[i][1]:
                byc.setdefault(id(owner[j]), []).append(int(starts[i]))
        for pair in byc.values():
            require(sum(s in call["first"] for s in pair) == 1, "equality markers", lambda: "pair %s, first halves %s" % (pair, call["first"]))
        # ---- what came back
        for nm, v in consts.items():
            vk = where[nm]
            if vk in m.varkeys:
                got = res["variables"][vk]
                require(abs(float(got) - v) < 1e-9 and abs(float(res["constants"][vk])-v) < 1e-9, "constants in the result", lambda: "%s is %s, given %s" % (nm, got, v))
                require(nm not in cols.values(), "constant has a column", nm)
        for j, nm in cols.items():
            got = float(res["variables"][where[nm]])
            require(abs(got - math.exp(call["x"][j])) < 1e-9, "variables in the result", lambda: "%s is %s, solver said %s" % (nm, got, math.exp(call["x"][j])))
        allv = {**{nm: frac_si(nm, v) for nm, v in consts.items()}, **{nm: math.exp(call["x"][j])*float(UNITS[U[nm]][0]) for j, nm in cols.items()}}
        require(abs(res["cost"]/sum(c*math.prod(math.exp(call["x"][jj])**e for jj, n2 in cols.items() for n1, e in k if n1 == n2) for k, c in rows[0][0].items()) - 1) < 1e-9,
                "cost in the result", lambda: "%s" % res["cost"])
        # duals: terms to variables, constraints to constraints
        nu, la = nus["nu"], nus["la"]
        vs = {}
        for i, j, a in call["A"]:
            vs[j] = vs.get(j, 0) + a*nu[i]
        for j, nm in cols.items():
            got = float(res["sensitivities"]["variables"].get(where[nm], 0))
            require(abs(got-vs.get(j, 0)) < 1e-8*max(1, abs(got)), "term duals to variables", lambda: "%s: %s, terms give %s" % (nm, got, vs.get(j, 0)))
        expect = {}
        for i, j in match.items():
            key = id(owner[j])
            sign = -1 if rows[i][1] and int(starts[i]) not in call["first"] else 1
            expect[key] = expect.get(key, 0) + sign*la[i]
        got = {id(c): float(s) for c, s in res["sensitivities"]["constraints"].items()}
        require(set(got) == set(expect) and all(abs(got[k]-abs(expect[k])) < 1e-9 for k in got), "constraint duals to constraints",
                lambda: "%s instead of %s" % (sorted(got.values()), sorted(map(abs, expect.values()))))
        outcome("%s posynomials, %s" % (len(rows), duals))

    def frac_si(nm, v):
        return F(v)*UNITS[U[nm]][0]
    ctx.explore("models", body)

    def sizes(ch):
        "nothing is lost or mixed up when a vector, a list, a sum or a nesting is long"
        kind = ch.pick(("vector", "rows", "columns", "list", "dict", "nested", "sum", "constants", "array", "square array"))
        n = ch.pick(range(1, 41) if ctx.quick else range(1, 81))
        shape = {"rows": (n, 1), "columns": (1, n)}.get(kind, (n,))
        x = VectorVariable(shape, "x")
        a = np.arange(1.0, n + 1).reshape(shape)
        elements = list(x.flat)
        nm = [str(v.key.str_without()) for v in elements]
        rows = [{((m_, -1.0),): float(i + 1)} for i, m_ in enumerate(nm)]
        if kind == "list":
            cons = [v >= i + 1 for i, v in enumerate(elements)]
        elif kind == "dict":
            cons = {"row %i" % i: v >= i + 1 for i, v in enumerate(elements)}
        elif kind == "nested":
            cons = []
            for i, v in enumerate(elements):
                cons = ConstraintSet([cons, v >= i + 1]) if i % 2 else [v >= i + 1, cons]
        elif kind.endswith("array"):   # numpy arrays of constraints
            cons = np.empty(n, dtype=object)
            for i, v in enumerate(elements):
                cons[i] = v >= i + 1
            cons = [cons if kind == "array" or n % 2 else cons.reshape(2, -1)]
        elif kind == "sum":
            cons = [(a*x).sum() <= 7, x.prod() >= 2]
            rows = [{((m_, 1.0),): (i + 1)/7 for i, m_ in enumerate(nm)}, {tuple(sorted((m_, -1.0) for m_ in nm)): 2.0}]
        elif kind == "constants":
            c = VectorVariable(shape, "c", a)
            cons = [x >= c]
        else:
            cons = [x >= a]
        cost = {((m_, 1.0),): 1.0 for m_ in nm}
        m = Model(x.sum(), cons)
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got = [t for t, _ in standard_form(m.gp(checkbounds=False), lambda vk: vk.name)[0]]
        got = [{tuple(sorted(k)): v for k, v in t.items()} for t in got]
        want = [cost] + rows
        require(len(got) == len(want) and all(any(close(g, w_) for g in got) for w_ in want) and close(got[0], cost), "long models", lambda: "%s of %i: %s" % (kind, n, [w_ for w_ in want if not any(close(g, w_) for g in got)]))
        require(len(m.vks) == n*(2 if kind == "constants" else 1), "long models", lambda: "%s of %i: %s variables" % (kind, n, len(m.vks)))
        outcome(kind)
    ctx.explore("sizes", sizes)
