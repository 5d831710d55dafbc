"""solve() against independent certificates: feasibility of every constraint as written, KKT optimality, and independent status."""
import itertools
import numpy as np
import gpkit
from gpkit import Variable, VectorVariable, Model, ConstraintSet
from gpkit.exceptions import Infeasible, UnboundedGP
from gpkit.units import Quantity
from ..core import require, outcome, Skip
from ..ref import R, F, UNITS, unit_of
from ..opt import Program, NotGP, solver_fails

TECHNIQUE = "exhaustive enumeration of small geometric programs solved by the real code; every answer judged by independent feasibility, KKT and infeasibility/unboundedness certificates"
NOTE = "All sets of constraint templates up to the bound x objectives x constants x nestings; optimality is certified by non-negative multipliers found independently of the reported duals, failures by an independent phase-I program and recession directions."
U = {"x": "ft", "y": "", "z": "m", "v0": "cm", "v1": "cm", "c": "m", "d": ""}


class World:
    def __init__(self):
        self.x, self.y, self.z = Variable("x", "ft"), Variable("y"), Variable("z", "m")
        self.c, self.d = Variable("c", 2.0, "m"), Variable("d", 0.5)
        self.v = VectorVariable(2, "v", "cm")
        self.key = {"x": self.x.key, "y": self.y.key, "z": self.z.key, "c": self.c.key, "d": self.d.key, "v0": self.v[0].key, "v1": self.v[1].key}
        self.name = {v: k for k, v in self.key.items()}
        self.r = {n: R.var(n, u) for n, u in U.items()}

    def si(self, nm, v):
        return F(v)*UNITS[U[nm]][0]

    def costs(self):
        r = self.r
        return [("x", self.x, r["x"]), ("z/y + 2x", self.z/self.y + 2*self.x, r["z"].div(r["y"]).add(R.num(2).mul(r["x"]))),
                ("v0+v1+3z", self.v.sum() + 3*self.z, r["v0"].add(r["v1"]).add(R.num(3).mul(r["z"]))), ("1/(x y)", 1/(self.x*self.y), R.num(1).div(r["x"].mul(r["y"]))),
                ("y d + c/z", self.y*self.d + self.c/self.z, r["y"].mul(r["d"]).add(r["c"].div(r["z"])))]

    def templates(self):
        "(label, constraint, [(small, large, equality)])"
        x, y, z, v, c, d = self.x, self.y, self.z, self.v, self.c, self.d
        r = self.r
        rx, ry, rz, r0, r1, rc, rd = (r[n] for n in ("x", "y", "z", "v0", "v1", "c", "d"))
        one = R.num(1)
        q = lambda n, u: R.num(n, u)
        return [("x >= c", x >= c, [(rc, rx, False)]),
                ("x >= y c + z", x >= y*c + z, [(ry.mul(rc).add(rz), rx, False)]),
                ("x y == z", x*y == z, [(rx.mul(ry), rz, True)]),
                ("z >= 0.3 m", z >= Quantity(0.3, "m"), [(q(0.3, "m"), rz, False)]),
                ("y >= d", y >= d, [(rd, ry, False)]),
                ("y <= 4", y <= 4, [(ry, R.num(4), False)]),
                ("x <= 9 ft", x <= Quantity(9.0, "ft"), [(rx, q(9, "ft"), False)]),
                ("y z >= 2 c", y*z >= 2*c, [(R.num(2).mul(rc), ry.mul(rz), False)]),
                ("z^2 + c z <= 40 m^2", z**2 + c*z <= Quantity(40.0, "m^2"), [(rz.power(2).add(rc.mul(rz)), q(40, "m^2"), False)]),
                ("v >= z", v >= z, [(rz, r0, False), (rz, r1, False)]),
                ("v0 v1 >= x^2", v[0]*v[1] >= x**2, [(rx.power(2), r0.mul(r1), False)]),
                ("v.sum() <= 10 c", v.sum() <= 10*c, [(r0.add(r1), R.num(10).mul(rc), False)]),
                ("1 >= d/y + y/8", 1 >= d/y + y/8, [(rd.div(ry).add(ry.div(R.num(8))), one, False)]),
                ("z == c/d^1.5", z == c/d**1.5, [(rz, rc.div(rd.power(1.5)), True)]),
                ("z^2 == x^2 y^2", z**2 == x**2*y**2, [(rz.power(2), rx.mul(ry).power(2), True)]),
                ("v0 == 2 v1", v[0] == 2*v[1], [(r0, R.num(2).mul(r1), True)]),
                ("x^0.5 y^-1 + 0.1 <= d m^0.5", x**0.5/y/Variable("u", 1, "m^0.5") + 0.1 <= d + 0*d, [(rx.power(0.5).div(ry).add(R({(): F(0.1)}, (F(1, 2), 0, 0))), rd.mul(R({(): F(1)}, (F(1, 2), 0, 0))), False)])]

    def box(self, names):
        "wide lower and upper bounds on the given variables"
        out = []
        for nm in sorted(names & {"x", "y", "z", "v0", "v1"}):
            var = {"x": self.x, "y": self.y, "z": self.z, "v0": self.v[0], "v1": self.v[1]}[nm]
            u = U[nm]
            lo, hi = (0.02, 300.0) if u != "cm" else (2.0, 30000.0)
            out += [("%s >= %s" % (nm, lo), var >= Quantity(lo, u or "dimensionless"), [(R.num(lo, u), self.r[nm], False)]), ("%s <= %s" % (nm, hi), var <= Quantity(hi, u or "dimensionless"), [(self.r[nm], R.num(hi, u), False)])]
        return out


CONSTS = [{}, {"c": 0.25, "d": 3.0}, {"y": 2.0}, {"c": 1.0, "z": 0.5}, {"x": 5.0, "d": 0.1}]


def certify(w, prog, sol, cost, rcost, consts, tol=2e-4, kkt=2e-3):
    "the returned solution is a feasible optimum of prog, and its views agree; returns the log point"
    got = {}
    for nm, vk in w.key.items():
        if vk in sol["variables"]:
            got[nm] = float(np.asarray(sol["variables"][vk]))*float(UNITS[U[nm]][0])
    for nm in prog.names:
        require(nm in got, "every free variable is reported", nm)
        require(w.key[nm] in sol["freevariables"] and abs(float(sol["freevariables"][w.key[nm]]) - float(sol["variables"][w.key[nm]])) <= 1e-12*abs(float(sol["variables"][w.key[nm]])),
                "free variables and variables agree", nm)
    for nm, v in consts.items():
        if w.key[nm] in sol["variables"]:
            require(abs(got[nm]/float(w.si(nm, v)) - 1) < 1e-12 if v else got[nm] == 0, "constants keep their values", lambda: "%s is %s given %s" % (nm, got[nm], v))
    x = prog.point(got)
    worst, who = prog.violation(x)
    require(worst < tol, "returned point is feasible", lambda: "%s violated by %.3g" % (who, worst))
    cf = unit_of(cost.units)[0]
    best = prog.optimum(x)/cf
    reported = float(sol["cost"]) if not hasattr(sol["cost"], "magnitude") else float(sol["cost"].magnitude)
    require(abs(reported/best - 1) < tol, "cost is the cost of the returned point", lambda: "reported %s, point gives %s" % (reported, best))
    here = sol(cost)
    f, dims = unit_of(here) if hasattr(here, "magnitude") else (1.0, (0, 0, 0))
    require(abs(float(getattr(here, "magnitude", here))*f/(best*cf) - 1) < 1e-6, "objective evaluated at the solution", lambda: "%s vs %s" % (here, best))
    res, lams = prog.multipliers(x)
    require(res < kkt, "returned point is optimal", lambda: "no multipliers satisfy the optimality conditions: residual %.3g at %s" % (res, got))
    return x, lams


def run(ctx):
    n = 2 if ctx.quick else 3
    ctx.bound(constraints="all subsets of up to %s templates of 17, with and without a box around every variable" % n, constants=len(CONSTS), objectives=5)

    def body(ch):
        w = World()
        label, cost, rcost = ch.pick(w.costs())
        idx = ch.pick([p for i in range(1, n+1) for p in itertools.combinations(range(17), i)])
        box = ch.pick(("boxed", "as is"))
        over = ch.pick(CONSTS if len(idx) < 3 else CONSTS[:3])
        nest = ch.pick(("list", "models")) if len(idx) == 2 and box != "as is" else "list"
        t = w.templates()
        rows = [t[i] for i in idx]
        if box == "boxed":
            rows += w.box(set(rcost.vars()).union(*(s.vars() | l.vars() for r in rows for s, l, _ in r[2])))
        cons = [r[1] for r in rows]
        consts = {"c": 2.0, "d": 0.5}
        consts.update(over)
        subs = {w.key[k]: v for k, v in over.items()}
        if nest == "list":
            m = Model(cost, cons, subs)
        else:
            m = Model(cost, [Model(w.y, [cons[0]], subs), {"rest": ConstraintSet(cons[1:])}], subs)
        vals = {k: w.si(k, v) for k, v in consts.items()}
        try:
            prog = Program(rcost, [(s, l, e, r[0]) for r in rows for s, l, e in r[2]], vals)
        except NotGP:
            raise Skip
        if not prog.names:
            raise Skip
        names = ", ".join(r[0] for r in rows)
        try:
            sol = m.solve(verbosity=0)
        except UnboundedGP:
            require(box != "boxed", "boxed variables are bounded", names)
            outcome("structurally unbounded")
            return
        except Infeasible as e:
            st = prog.status()
            if st == "optimal" and solver_fails(prog):   # numerically out of reach of the solver itself
                st = "optimal, but beyond the solver"
            require(st != "optimal", "a model with an optimum is solved", lambda: "min %s s.t. %s with %s raised %s: %s" % (label, names, over, type(e).__name__, str(e)[:80]))
            outcome("%s for %s" % (type(e).__name__, st))
            return
        certify(w, prog, sol, cost, rcost, consts)
        outcome("certified optimum")
    ctx.explore("programs", body)
