"""Autosweeps on the real code against separate solves: bounds, tolerance, stored solutions, restoration, failing solves."""
import os
import pickle
import tempfile
import warnings
import numpy as np
from gpkit import Variable, VectorVariable, Model, SignomialsEnabled
from gpkit.exceptions import InvalidGPConstraint, PrimalInfeasible, UnknownInfeasible
from gpkit.tools.autosweep import autosweep_1d
from gpkit.solvers.cvxopt import optimize
from ..core import require, outcome, Skip

TECHNIQUE = "exhaustive exploration of models x ranges x tolerances x ways of calling x failing solves of autosweeps on the real code, each sampled bound compared with a separate solve of a fresh model there"
NOTE = "All combinations of the listed models, ranges and tolerances; bounds sampled between and at all stored and split points; every single failing solve of each autosweep; also with an exact one-variable solver so that bounds are exact."
EPS = 3e-5


class World:
    "a model, its swept variable, and the true optimal cost in its units (None: solve for it)"
    def __init__(self, kind):
        self.kind, self.others = kind, {}
        x, y, a = Variable("x"), Variable("y"), Variable("a")
        self.x, self.true, self.swept = x, None, a
        if kind == "line":
            self.m, self.true = Model(x, [x >= 2*a**1.5]), lambda v: 2*v**1.5
        elif kind == "flat":
            self.m, self.true = Model(x, [x >= 2, x >= a/1000]), lambda v: 2.0
        elif kind == "no effect":
            b = Variable("b")
            self.m, self.true = Model(x, [x >= 2*b, a <= 1000*b]), lambda v: 4.0
            self.others = {b: 2.0}
        elif kind == "kink":
            self.m, self.true = Model(x, [x >= a, x >= 1/a]), lambda v: max(v, 1/v)
        elif kind == "kinks":
            self.m, self.true = Model(x, [x >= a**3, x >= a**0.5, x >= 0.5/a]), lambda v: max(v**3, v**0.5, 0.5/v)
        elif kind == "smooth":
            self.m, self.true = Model(x**2, [x >= a + 1]), lambda v: (v+1)**2
        elif kind == "falling":
            self.m, self.true = Model(1/x, [x + x*a <= a]), lambda v: (1+v)/v
        elif kind == "objective":
            self.m, self.true = Model(x*y + a/x, [x <= 2, y >= 1]), lambda v: 2*v**0.5 if v**0.5 <= 2 else 2 + v/2
        elif kind == "both":   # in the objective and a constraint
            self.m, self.true = Model(x*a, [x >= a + 1]), lambda v: v*(v + 1)
        elif kind == "units":
            A, self.swept = Variable("A", "m**2"), Variable("l", "cm")
            self.x = A
            self.m, self.true = Model(A**2, [A >= self.swept**2*100 + A.units]), lambda v: (0.01*v**2+1)**2
        elif kind == "element":
            p = VectorVariable(2, "p")
            self.swept, self.others = p[1], {p[0]: 3.0}
            self.m, self.true = Model(x, [x >= p[0] + p[1], x >= 4/p[1]]), lambda v: max(3+v, 4/v)
        elif kind == "linked":
            e = Variable("e", lambda c: c[a.key]**2 + 1)
            self.m, self.true = Model(x, [x >= e*a]), lambda v: v**3 + v
        elif kind == "signomial":
            with SignomialsEnabled():
                self.m = Model(x, [x >= 1 + a - y, y <= 0.5, y >= 0.1])
        self.m.substitutions.update({getattr(k, "key", k): v for k, v in self.others.items()})
        self.key = self.swept.key

    def snap(self):
        return {k: repr(np.asarray(v, dtype=object).tolist()) for k, v in dict.items(self.m.substitutions) if not callable(v)}


def exact(c, A, k, **_):
    "exact answers for programs of one free variable with one term per constraint, minimized"
    A = np.array(A.todense()) if hasattr(A, "todense") else A
    assert A.shape[1] == 1 and k[0] == 1 and A[0, 0] > 0
    best = max((-np.log(ci)/ai, i) for i, (ci, ai) in enumerate(zip(c[1:], A[1:, 0])) if ai < 0)
    # la_i * A_i = -A_0 for the active constraint
    la = np.zeros(len(c)-1)
    la[best[1]] = -A[0, 0]/A[best[1]+1, 0]
    return dict(status="optimal", objective=float(c[0]*np.exp(A[0, 0]*-(-best[0]))), primal=np.array([best[0]]), la=np.hstack([1.0, la]))


def mag(v):
    return np.asarray(getattr(v, "magnitude", v), dtype=float)


def units(v):
    return getattr(v, "units", None)


def sampled(w, bst, lo, hi, tol, where, eps=EPS, solves=None):
    "every claim about a sampled autosweep"
    from gpkit import SolutionArray
    stored = [float(s["variables"][w.key]) for s in bst.sollist]
    require(stored == sorted(set(stored)) and abs(stored[0]-lo) < 1e-12*hi and abs(stored[-1]-hi) < 1e-12*hi, "stored solutions are in order and span the range", lambda: "%s: at %s" % (where(), stored))
    pts = sorted(set(list(np.linspace(lo, hi, 7)) + [p for p in stored if lo <= p <= hi] + list(np.sqrt(np.array(stored[1:])*np.array(stored[:-1]))) + [s.splitval for s in leaves(bst) if s.splitval]))
    oracle = bst.sample_at(pts)
    cost, lb, ub = (mag(v) for v in (oracle["cost"], oracle.cost_lb(), oracle.cost_ub()))
    require(solves is None or solves == len(stored), "every solve is stored", lambda: "%s: %s solves, %s stored" % (where(), solves, len(stored)))
    require(getattr(bst, "tol", tol) <= tol*(1+1e-9), "the tolerance reached is the one asked for", lambda: "%s: %s for %s" % (where(), bst.tol, tol))
    kinds = {str(units(v)) for v in (oracle["cost"], oracle.cost_lb(), oracle.cost_ub(), bst.sols[0]["cost"])}
    require(len(kinds) == 1, "bounds have the units of the cost", lambda: "%s: %s" % (where(), kinds))
    again = mag(oracle.cost_lb())
    require((again == lb).all(), "sampling again gives the same", where)
    for i, p in enumerate(pts):
        t = w.true(p)
        require(np.log(lb[i]) <= np.log(t)+eps, "the lower bound is below the true cost", lambda: "%s: at %s bounds %s..%s, true cost %s" % (where(), p, lb[i], ub[i], t))
        require(np.log(ub[i]) >= np.log(t)-eps, "the upper bound is above the true cost", lambda: "%s: at %s bounds %s..%s, true cost %s" % (where(), p, lb[i], ub[i], t))
        require(lb[i] <= cost[i]*(1+1e-9) and cost[i] <= ub[i]*(1+1e-9), "the cost lies between its bounds", lambda: "%s: at %s %s <= %s <= %s" % (where(), p, lb[i], cost[i], ub[i]))
        require(np.log(ub[i]/lb[i]) <= 2*tol+1e-9, "the bounds are within twice the tolerance", lambda: "%s: at %s bounds %s..%s, tolerance %s" % (where(), p, lb[i], ub[i], tol))
    # at the stored solutions everything is exact
    at = bst.sample_at(stored)
    xs, cs, sw = mag(at(w.x)), mag(at["cost"]), mag(at(w.swept))
    for i, s in enumerate(bst.sollist):
        p, t = stored[i], w.true(stored[i])
        require(abs(np.log(mag(s["cost"])/t)) < eps, "stored solutions are the solves at their points", lambda: "%s: stored cost %s at %s, true %s" % (where(), s["cost"], p, t))
        require(abs(cs[i]/mag(s["cost"])-1) < 1e-9 and abs(xs[i]/float(mag(s(w.x)))-1) < 1e-5 and abs(sw[i]/p-1) < 1e-9, "sampling at a stored solution gives it", lambda: "%s: at %s cost %s (stored %s), x %s (stored %s)" % (where(), p, cs[i], s["cost"], xs[i], s(w.x)))
    double = mag(at(2*w.m.cost))
    require(np.allclose(double, 2*cs, rtol=1e-4), "expressions are sampled as written", lambda: "%s: twice the cost is %s, cost %s" % (where(), double, cs))
    arr = bst.solarray
    require(isinstance(arr, SolutionArray) and len(arr) == len(stored) and np.allclose(mag(arr["cost"]), [mag(s["cost"]) for s in bst.sollist], rtol=1e-12), "solarray lists the stored solutions", lambda: "%s: %s" % (where(), arr["cost"]))
    require(np.allclose(mag(arr(w.swept)), stored, rtol=1e-12), "solarray lists the stored solutions", lambda: "%s: swept %s, stored %s" % (where(), arr(w.swept), stored))
    for bad in (lo*(1-1e-6), hi*(1+1e-6)):
        try:
            bst.sample_at([bad])["cost"]
        except ValueError:
            continue
        require(False, "values outside the range are refused", lambda: "%s: %s" % (where(), bad))


def leaves(bst):
    return [bst] if not bst.splits else leaves(bst.splits[0]) + leaves(bst.splits[1])


KINDS = ("line", "flat", "no effect", "kink", "kinks", "smooth", "falling", "objective", "both", "units", "element", "linked")


def run(ctx):
    ranges = ((0.5, 2.0), (1.0, 10.0), (0.1, 0.3), (0.2, 5.0))
    tols = (0.5, 0.1, 0.01) if ctx.quick else (2.0, 0.5, 0.1, 0.03, 0.01, 1e-3, 1e-4)
    ctx.bound(models=", ".join(KINDS), ranges=ranges, tolerances=tols, original="absent, number, zero, whole vector", failures="each solve of each autosweep, three kinds of error")

    def body(ch):
        kind = ch.pick(KINDS)
        lo, hi = ch.pick(ranges)
        tol = ch.pick(tols)
        how = ch.pick(("autosweep_1d", "Model.autosweep", "by name", "saved"))
        orig = ch.pick((None, 3.0, 0.0))
        if orig == 0.0 and how != "autosweep_1d" or orig is None and how == "saved":
            raise Skip
        w = World(kind)
        if orig is not None:
            w.m.substitutions[w.key] = orig
        before, calls = w.snap(), []

        def counted(**kw):
            calls.append(1)
            return optimize(**kw)
        where = lambda: "%s over %s..%s to %s by %s, originally %s" % (kind, lo, hi, tol, how, orig)
        if how in ("autosweep_1d", "saved"):
            bst = autosweep_1d(w.m, tol, w.key, [lo, hi], verbosity=0, solver=counted)
        else:
            if how == "by name" and kind == "element":
                raise Skip
            sol = w.m.autosweep({(w.key.name if how == "by name" else w.swept): (lo, hi)}, tol=tol, samplepoints=5, verbosity=0, solver=counted)
            bst = sol.bst
            require(len(mag(sol["cost"])) == 5 and np.allclose(sol.sampled_at, np.linspace(lo, hi, 5)), "the asked number of sample points", where)
            require(np.allclose(mag(sol(w.swept)), np.linspace(lo, hi, 5), rtol=1e-6), "the swept variable at the sample points", lambda: "%s: %s" % (where(), sol(w.swept)))
        require(w.snap() == before, "substitutions are as they were", lambda: "%s: %s, were %s" % (where(), w.snap(), before))
        n = len(bst.sollist)
        require(bst.nsols >= n, "number of solutions", where)
        if how == "saved":
            with tempfile.TemporaryDirectory() as d:
                bst.save(os.path.join(d, "bst.p"))
                with open(os.path.join(d, "bst.p"), "rb") as f:
                    bst = pickle.load(f)
        sampled(w, bst, lo, hi, tol, where, solves=len(calls))
        if orig:
            got, want = float(mag(w.m.solve(verbosity=0)["cost"])), w.true(orig)
            require(abs(np.log(got/want)) < EPS, "the model solves as before", lambda: "%s: %s, want %s" % (where(), got, want))
        outcome("%s: %d solutions" % (kind, n))
    ctx.explore("autosweeps", body)

    def failing(ch):
        "one solve of the autosweep fails"
        kind = ch.pick(("kink", "smooth", "element", "units"))
        tol = ch.pick((0.5, 0.1))
        n = ch.index(8)
        exc = ch.pick((PrimalInfeasible, UnknownInfeasible, KeyboardInterrupt))
        how = ch.pick(("autosweep_1d", "Model.autosweep"))
        orig = ch.pick((None, 3.0, 0.0))
        w = World(kind)
        if orig is not None:
            w.m.substitutions[w.key] = orig
        calls = []

        def solver(**kw):
            calls.append(1)
            if len(calls) == n+1:
                raise exc("injected")
            return optimize(**kw)
        before = w.snap()
        where = lambda: "%s to %s by %s, originally %s, solve %s raising %s" % (kind, tol, how, orig, n, exc.__name__)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                if how == "autosweep_1d":
                    autosweep_1d(w.m, tol, w.key, [0.5, 4.0], solver=solver, verbosity=0)
                else:
                    w.m.autosweep({w.swept: (0.5, 4.0)}, tol=tol, samplepoints=3, solver=solver, verbosity=0)
            raised = None
        except BaseException as e:  # noqa
            raised = e
            if not isinstance(e, (exc, UnknownInfeasible)):
                raise
        require((raised is not None) == (len(calls) > n), "a failing solve is not swallowed", where)
        require(w.snap() == before, "substitutions are as they were after a failed autosweep", lambda: "%s: %s, were %s" % (where(), w.snap(), before))
        sampled(w, autosweep_1d(w.m, tol, w.key, [0.5, 4.0], verbosity=0), 0.5, 4.0, tol, where)
        require(w.snap() == before, "substitutions are as they were", where)
        outcome("failed" if raised else "not reached")
    ctx.explore("failing solves", failing)

    def exactly(ch):
        "an exact solver: bounds at kinks, at cost one, and on exactly straight lines"
        es = ch.pick(((1.0, -1.0), (2.0, -1.0, 0.5), (1.0,), (0.0, 1.0), (3.0, -0.5), (1.0, 2.0, 3.0)))
        cs = [ch.pick((1.0, 2.0)) for _ in es]
        lo, hi = ch.pick(((0.5, 2.0), (0.25, 4.0), (1.0, 2.0), (0.125, 0.5), (0.1, 7.0)))
        tol = ch.pick((2.0, 0.7, 0.3, 0.01))
        w = World("kink")
        x, a = w.x, w.swept
        w.m = Model(x, [x >= c*a**e for c, e in zip(cs, es)])
        w.true = lambda v: max(c*v**e for c, e in zip(cs, es))
        if not any(es) or all(e == 0 for e in es):
            raise Skip
        where = lambda: "max of %s over %s..%s to %s" % (list(zip(cs, es)), lo, hi, tol)
        bst = autosweep_1d(w.m, tol, w.key, [lo, hi], verbosity=0, solver=exact)
        sampled(w, bst, lo, hi, tol, where, eps=1e-6)
        outcome("%d exact solutions" % len(bst.sollist))
    ctx.explore("exact", exactly)

    def refusals(ch):
        what = ch.pick(("signomial", "reversed", "equal bounds", "unknown", "two"))
        w = World("signomial" if what == "signomial" else "smooth")
        w.m.substitutions[w.key] = 3.0
        before = w.snap()
        if what == "two":
            b = Variable("b")
            m = Model(w.x**2, [w.x >= w.swept + b])
            m.substitutions.update({w.key: 3.0, b: 1.0})
            s1, s2 = m.autosweep({w.swept: (1.0, 4.0), b: (2.0, 5.0)}, tol=0.05, verbosity=0)
            for s, f in ((s1, lambda v: (v+1)**2), (s2, lambda v: (v+3)**2)):
                w2 = World("smooth")
                w2.x, w2.swept, w2.true = w.x, (w.swept if s is s1 else b), f
                w2.key = w2.swept.key
                lo, hi = s.bst.bounds
                sampled(w2, s.bst, lo, hi, 0.05, lambda: "two variables")
            outcome("two")
            return
        lo, hi = {"reversed": (2.0, 1.0), "equal bounds": (1.0, 1.0)}.get(what, (1.0, 2.0))
        try:
            if what == "unknown":
                w.m.autosweep({"nothing": (lo, hi)}, verbosity=0)
            else:
                autosweep_1d(w.m, 0.1, w.key, [lo, hi], verbosity=0)
        except (InvalidGPConstraint if what == "signomial" else KeyError if what == "unknown" else ValueError):
            require(w.snap() == before, "substitutions are as they were after a refusal", lambda: "%s: %s" % (what, w.snap()))
            outcome("refused " + what)
            return
        require(False, "bad autosweeps are refused", what)
    ctx.explore("refusals", refusals)
