"""Histories: every sequence of operations on a model and its relatives, then compared with a fresh copy; every order and naming."""
import contextlib
import io
import itertools
import numpy as np
from gpkit import Variable, VectorVariable, Model, ConstraintSet, SignomialsEnabled, NamedVariables
from gpkit.constraints.tight import Tight
from gpkit.constraints.loose import Loose
from gpkit.constraints.bounded import Bounded
from gpkit.constraints.relax import ConstantsRelaxed, ConstraintsRelaxed, ConstraintsRelaxedEqually
from gpkit.constraints.sigeq import SignomialEquality
from gpkit.exceptions import Infeasible, InvalidGPConstraint, PrimalInfeasible, UnnecessarySGP, UnboundedGP
from ..core import require, outcome, Skip, transition

TECHNIQUE = "exhaustive exploration of operation histories on the real code, each ended by a solve compared with a freshly built copy"
NOTE = "Every sequence of operations to the depth (builds, solves, failures of the solver and of the model, sweeps, autosweeps, debugging, relaxations, printing, solution reading, changes of substitutions, solves of other models sharing parts) on each model of the menu; every order of constraints and every renaming within the menu. Numbers are compared to solver accuracy."


class Part(Model):
    def setup(self, k):
        self.x = x = Variable("x")
        self.w = w = VectorVariable(2, "w")
        self.e = Variable("e", evalfn=lambda v: v[x]*2.0)
        return [Tight([x >= w[0] + w[1]]), Loose([x >= k/50]), w >= [1, 2]]


class Templates:
    def __init__(self):
        NamedVariables.reset_modelnumbers()

    def build(self, name):
        "returns (model, solve method, {name: var} of constants, other constants' settings)"
        x, y, z = Variable("x"), Variable("y"), Variable("z")
        k, c = Variable("k"), Variable("c")
        if name == "posynomials":
            v, u = VectorVariable(2, "v"), VectorVariable(2, "u")
            cons = [x >= k/y + u[0], y*x <= 20, y >= 0.1, v >= u*x, z == c*x**2, ConstraintSet([x >= 0.3], {})]
            self.m = Model(x*y + v.sum() + 1/z + z, cons, {k: 2.0, c: 0.5, u: [1.0, 2.0]})
            self.consts = {"k": k, "c": c, "u": u}
        elif name == "zeroed":
            cons = [x >= k*y + c + z*0.1, y >= 1 + 1/z, z >= k/4 + 0.5, z <= 50, Loose([x >= 0.01*y])]
            self.m = Model(x + 1/z, cons, {k: 1.0, c: 0.5})
            self.consts = {"k": k, "c": c, "u": None}
        elif name == "linked":
            d = Variable("d", lambda q: q[k]*q[c] + 1)
            vl = VectorVariable(2, "vl", lambda q: [q[k], 2*q[c]])
            cons = [x >= d*y + vl[0], y >= vl[1]/z, z <= 3, Tight([y*z >= c], reltol=1e-3), x >= k/10]
            self.m = Model(x*y, cons, {k: 2.0, c: 0.5})
            self.consts = {"k": k, "c": c, "u": None}
        elif name == "parts":
            p, q = Part(k), Part(k)
            self.m = Model(p.x + q.x*y, [p, [q], {"floor": y >= k + c*p.x}, Bounded([y <= 40*q.x])], {k: 2.0, c: 0.5, p.w[0]: 1.5})
            self.consts = {"k": k, "c": c, "u": None}
        elif name == "signomial":
            with SignomialsEnabled():
                cons = [x >= k - y, y <= c, z*y >= 1 + x, z <= 50, x >= 0.01]
            self.m = Model(x + z, cons, {k: 2.0, c: 0.5})
            self.consts = {"k": k, "c": c, "u": None}
        elif name == "signomial equality":
            with SignomialsEnabled():
                cons = [SignomialEquality(x + y, k + c*z), z >= 1, y >= 0.5, x >= 0.1, z <= 9]
            self.m = Model(x*y + z, cons, {k: 2.0, c: 0.5})
            self.consts = {"k": k, "c": c, "u": None}
        self.sig = name[:9] == "signomial"
        self.x, self.y = x, y
        return self

    def solve(self, m=None, **kw):
        m = m or self.m
        return m.localsolve(verbosity=0, **kw) if self.sig else m.solve(verbosity=0, **kw)


GPS = ("posynomials", "zeroed", "linked", "parts")
SPS = ("signomial", "signomial equality")


def broken(kind):
    def optimize(*, c, A, **kw):
        if kind == "raises":
            raise ZeroDivisionError("sabotage")
        if kind == "infeasible":
            raise PrimalInfeasible()
        if kind == "interrupted":
            raise KeyboardInterrupt()
        return dict(status="optimal", objective=1.0, primal=np.zeros(A.shape[1] + 1), nu=np.ones(len(c)))
    optimize.__name__ = "broken"
    return optimize


def quietly(fn, *expected):
    "does something that may fail in a way that is not the point here"
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            return fn()
        except (Infeasible, InvalidGPConstraint, RuntimeWarning, KeyboardInterrupt, UnnecessarySGP, UnboundedGP, KeyError) + expected:
            return None


def history_ops(t):
    m = t.m
    k, c = t.consts["k"], t.consts["c"]

    def restore(key, new, then):
        old = m.substitutions[key] if key in m.substitutions else None
        m.substitutions[key] = new
        try:
            quietly(then)
        finally:
            if old is None:
                del m.substitutions[key]
            else:
                m.substitutions[key] = old

    def read():
        s = m.solution
        if s is None:
            return
        for v in list(m.varkeys)[:4]:
            s(v)
        s.table()
        s.summary()
        s.subinto(m.cost)
        str(s)
        s.diff(s)

    ops = {
        "build": lambda: quietly(lambda: m.sp() if t.sig else m.gp()),
        "solve": lambda: quietly(t.solve),
        "solve without processing": lambda: quietly(lambda: t.solve(process_result=False)) if not t.sig else quietly(lambda: m.sp(use_pccp=False)),
        "fail raising": lambda: quietly(lambda: t.solve(solver=broken("raises"))),
        "fail infeasible": lambda: quietly(lambda: t.solve(solver=broken("infeasible"))),
        "fail interrupted": lambda: quietly(lambda: t.solve(solver=broken("interrupted"))),
        "fail garbled": lambda: quietly(lambda: t.solve(solver=broken("garbled"))),
        "sweep": lambda: quietly(lambda: m.sweep({k: [1.0, 3.0]}, verbosity=0) if not t.sig else restore(k, ("sweep", [1.5, 2.5]), t.solve)),
        "sweep substitution": lambda: restore(c, ("sweep", [0.5, 0.7]), t.solve),
        "autosweep": lambda: quietly(lambda: m.autosweep({k: (1.0, 2.0)}, tol=0.1, verbosity=0, samplepoints=3)) if not t.sig else None,
        "debug": lambda: quietly(lambda: m.debug(verbosity=0)),
        "impossible": lambda: restore(c, 1e9 if not t.sig else 1e-9, t.solve),
        "zero": lambda: restore(c, 0, t.solve),
        "print": lambda: (str(m), m.latex(), repr(m), m.str_without({"units", "lineage"})),
        "read": lambda: quietly(read),
        "wrong kind": lambda: quietly(lambda: m.solve(verbosity=0) if t.sig else m.localsolve(verbosity=0)),
        "relax constants": lambda: quietly(lambda: t.solve(relaxed(ConstantsRelaxed(m)))),
        "relax constraints": lambda: quietly(lambda: t.solve(relaxed(ConstraintsRelaxed(m)))),
        "bounded": lambda: quietly(lambda: t.solve(Model(m.cost, Bounded(m)))),
        "other model": lambda: quietly(lambda: t.solve(Model(m.cost*t.y**0.1, [m, t.y >= 0.2], {k: 3.0}))),
        "other model of the constraints": lambda: quietly(lambda: t.solve(Model(m.cost, list(m), dict(m.substitutions, **{})))),
        "tight": lambda: quietly(lambda: t.solve(Model(m.cost, Tight([m], reltol=1e-9)))),
        "set k": lambda: m.substitutions.update({k: 2.5}),
        "set k back": lambda: m.substitutions.update({k: 2.0}),
        "free c": lambda: m.substitutions.pop(c) if False else (m.substitutions.__delitem__(c) if c in m.substitutions else None),
        "set c": lambda: m.substitutions.update({c: 0.6}),
    }

    def relaxed(r):
        rv = getattr(r, "relaxvars", None)
        return Model(m.cost*rv.prod()**20, r)
    if t.consts["u"] is not None:
        u = t.consts["u"]
        ops["set u0"] = lambda: m.substitutions.update({u[0]: 1.25})
    return ops


SETTERS = ("set k", "set k back", "free c", "set c", "set u0")


def num(v):
    return np.array(getattr(v, "magnitude", v), dtype=float)


def view(sol):
    "everything a solution says, in a form independent of the objects that said it"
    out = {"cost": num(sol["cost"])}
    for part in ("variables", "freevariables", "constants"):
        for k, v in sol[part].items():
            out[(part, k.str_without([]))] = num(v)
    for k, v in sol["sensitivities"]["variables"].items():
        out[("sensitivity", k.str_without([]))] = num(v)
    cons = {}
    for k, v in sol["sensitivities"]["constraints"].items():
        cons.setdefault(str(k), []).append(round(float(np.ravel(num(v))[0]), 5))
    for k, v in cons.items():
        out[("constraint", k)] = np.array(sorted(v))
    warned = {}
    for kind, ws in sol.get("warnings", {}).items():
        warned[kind] = len(ws)
    return out, warned


def same(a, b, tol):
    (na, wa), (nb, wb) = a, b
    if set(na) != set(nb):
        return "reports %s" % (set(na) ^ set(nb))
    for k in na:
        x, y = na[k], nb[k]
        if x.shape != y.shape:
            return "%s has shape %s, fresh %s" % (k, x.shape, y.shape)
        d = np.abs(x - y) > tol*np.maximum(1.0, np.abs(y))
        if (d & ~(np.isnan(x) & np.isnan(y))).any() or (np.isnan(x) != np.isnan(y)).any():
            return "%s is %s, fresh %s" % (k, x, y)
    if wa != wb:
        return "warnings %s, fresh %s" % (wa, wb)
    return None


def final(t):
    "the final solve, or how it failed"
    with contextlib.redirect_stdout(io.StringIO()) as out:
        try:
            sol = t.solve()
        except (Infeasible, InvalidGPConstraint, RuntimeWarning, UnboundedGP, KeyError) as e:
            return type(e).__name__, None
    return "solved", (view(sol), str(t.m), out.getvalue())


def run(ctx):
    depth = 2 if ctx.quick else 3
    names = GPS + SPS
    ctx.bound(models=len(names), depth=depth, operations=len(history_ops(Templates().build("posynomials"))))

    def history(ch, n, template, menu=None):
        t = Templates().build(template)
        ops = history_ops(t)
        done = []
        settings = []
        for _ in range(n):
            op = ch.pick(menu or sorted(ops))
            if op in SETTERS and op not in ops:
                raise Skip
            ops[op]()
            transition()
            done.append(op)
        f = Templates().build(template)
        fops = history_ops(f)
        for op in done:
            if op in SETTERS:
                fops[op]()
        got, want = final(t), final(f)
        lab = lambda: "%s after %s" % (template, done)
        require(got[0] == want[0], "outcome", lambda: "%s: %s, fresh: %s" % (lab(), got[0], want[0]))
        if got[1]:
            diff = same(got[1][0], want[1][0], 2e-4)
            require(not diff, "solution", lambda: "%s: %s" % (lab(), diff))
            require(got[1][1] == want[1][1], "text", lambda: "%s: model prints\n%s\nfresh:\n%s" % (lab(), got[1][1], want[1][1]))
            require(got[1][2] == want[1][2], "messages", lambda: "%s: solve printed\n%s\nfresh:\n%s" % (lab(), got[1][2], want[1][2]))
        outcome(got[0])

    def histories(ch):
        history(ch, depth if ctx.quick else 2, ch.pick(names))
    ctx.explore("histories", histories)

    def deeper(ch):
        "longer histories of the operations that leave most behind"
        menu = ("solve", "build", "sweep substitution", "debug", "relax constants", "other model", "set k", "free c", "set c", "fail garbled", "impossible", "zero")
        history(ch, 3, ch.pick(("zeroed", "linked", "signomial") if ctx.quick else names), menu[::2] if ctx.quick else menu)
    ctx.explore("longer histories", deeper)

    def orders(ch):
        "no order of the constraints, nesting or naming changes the optimum"
        which = ch.pick(("posynomial", "equalities", "signomial"))
        perm = ch.pick(list(itertools.permutations(range(4))))
        naming = ch.pick(list(itertools.permutations(("a", "b", "zz", "x_1"))) if not ctx.quick else [("a", "b", "zz", "x_1"), ("x_1", "zz", "b", "a"), ("zz", "a", "x_1", "b"), ("b", "x_1", "a", "zz")])
        nested = ch.flag()
        x, y, z, k = (Variable(n) for n in naming)
        with SignomialsEnabled():
            cons = {"posynomial": [x >= k/y + z, y <= 20*z, z >= 0.3 + 0.1*x/y, x*y >= 3],
                    "equalities": [x*y == k*z, z >= 0.5 + x, y >= 2*x**-0.5, x >= 0.1],
                    "signomial": [x >= k - y, y <= 0.5, z*y >= 1 + x, x >= 0.01]}[which]
            cost = {"posynomial": x + y**0.5 + 1/z, "equalities": y + z + 1/x, "signomial": x + z}[which]
        cs = [cons[i] for i in perm]
        if nested:
            cs = [cs[:1], ConstraintSet(cs[1:3]), {"n": cs[3]}]
        m = Model(cost, cs, {k: 2.0})
        s = m.localsolve(verbosity=0) if which == "signomial" else m.solve(verbosity=0)
        got = [float(num(s["cost"]))] + [float(num(s(v))) for v in (x, y, z)] + [float(num(s["sensitivities"]["variables"][k.key]))]
        if which not in BASE:
            X, Y, Z, K = (Variable(n) for n in "xyzk")
            with SignomialsEnabled():
                BC = {"posynomial": [X >= K/Y + Z, Y <= 20*Z, Z >= 0.3 + 0.1*X/Y, X*Y >= 3],
                      "equalities": [X*Y == K*Z, Z >= 0.5 + X, Y >= 2*X**-0.5, X >= 0.1],
                      "signomial": [X >= K - Y, Y <= 0.5, Z*Y >= 1 + X, X >= 0.01]}[which]
            C = {"posynomial": X + Y**0.5 + 1/Z, "equalities": Y + Z + 1/X, "signomial": X + Z}[which]
            M = Model(C, BC, {K: 2.0})
            S = M.localsolve(verbosity=0) if which == "signomial" else M.solve(verbosity=0)
            BASE[which] = [float(num(S["cost"]))] + [float(num(S(v))) for v in (X, Y, Z)] + [float(num(S["sensitivities"]["variables"][K.key]))]
        want = BASE[which]
        require(all(abs(a-b) <= 1e-3*max(1, abs(b)) for a, b in zip(got, want)), "order or names", lambda: "%s %s %s: %s, expected %s" % (which, perm, naming, got, want))
        outcome("same optimum")
    BASE = {}
    ctx.explore("orders and names", orders)
