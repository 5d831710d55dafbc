"""localsolve on all small signomial programs: feasibility as written, stationarity and monotone costs by independent reference; refusals."""
import itertools
import math
import warnings
import numpy as np
from gpkit import Model, SignomialsEnabled, SignomialEquality, Variable
from gpkit.units import Quantity
from gpkit.exceptions import Infeasible, InvalidGPConstraint, UnnecessarySGP, InvalidPosynomial, UnboundedGP
from gpkit.solvers.cvxopt import optimize
from ..core import require, outcome, Skip, fail
from ..ref import R, UNITS, unit_of
from ..opt import Program, of_call
from ..sgpworld import World, U, FREE

TECHNIQUE = "exhaustive enumeration of small signomial programs x starting points x penalties solved by the real code; every answer judged by independent feasibility and stationarity certificates, every iterate's cost watched"
NOTE = "All sets of one or two signomial templates inside a box x objectives x starting points (partial, full, naming constants) x penalty settings; stationarity is certified on the signomial program itself with independently found multipliers."
STARTS = [None, {"x": 2.0, "y": 0.5, "z": 0.25, "w": 3.0, "u": 0.5}, {"x": 0.7}, {"y": 5.0, "c": 9.0, "d": 0.05, "x": 0.3}]
SETTINGS = [{}, {"use_pccp": False}, {"pccp_penalty": 5.0}]


class Sig:
    "log(pos) - log(neg) <= 0 (== 0 when eq)"
    def __init__(self, prog, small, large, eq, label, vals):
        d = small.sub(vals).add(large.sub(vals), -1)
        self.pos = prog._con(R({k: c for k, c in d.terms.items() if c > 0}, d.dims), eq, label, 0)
        self.neg = prog._con(R({k: -c for k, c in d.terms.items() if c < 0}, d.dims), eq, label, 0)
        self.eq, self.label, self.const = eq, label, 0

    def f(self, x):
        return self.pos.f(x) - self.neg.f(x)

    def grad(self, x):
        return self.pos.grad(x) - self.neg.grad(x)


def costs(w, names):
    a, r = None, None
    for nm in names:
        v, q = w.var[nm], w.r[nm]
        a, r = (v, q) if a is None else (a*v, r.mul(q))
    out = [("product", a, r)]
    p, s = None, None
    for i, nm in enumerate(names):
        v, q = w.var[nm], w.r[nm]
        v, q = v/v.units if v.units else v, q.div(R.num(1, U[nm]))
        p, s = ((i+1)*v, R.num(i+1).mul(q)) if p is None else (p + (i+1)*v, s.add(R.num(i+1).mul(q)))
    out.append(("sum", p, s))
    out.append(("sum/last^2", p/w.var[names[-1]]**2, s.div(w.r[names[-1]].power(2))))
    return out


def run(ctx):
    models = [(i,) for i in range(10)] + list(itertools.combinations(range(10), 2))
    ctx.bound(models="1 or 2 of 10 signomial templates, boxed", objectives=3, starts=len(STARTS), settings=len(SETTINGS), reltol="1e-4 (default), 1e-7")

    def body(ch):
        w = World()
        idx = ch.pick(models)
        t = w.templates()
        rows = [t[i] for i in idx]
        names = sorted(set().union(*(r[2].vars() | r[3].vars() for r in rows)) & set(FREE))
        label, cost, rcost = ch.pick(costs(w, names))
        start = ch.pick(STARTS)
        kw = ch.pick(SETTINGS) if len(idx) == 1 or start is None or not ctx.quick else {}
        via = ch.pick(("localsolve", "sp")) if not kw and len(idx) == 1 else "sp" if kw else "localsolve"
        reltol = ch.pick((1e-4, 1e-7)) if len(idx) == 1 or not ctx.quick else 1e-7
        gps = w.box(names)
        vals = {"c": 0.5, "d": 2.0}
        m = Model(cost, [gps[0][1]] + [rows[0][1]] + [g[1] for g in gps[1:]] + [r[1] for r in rows[1:]], {w.key[n]: v for n, v in vals.items()})
        x0 = None if start is None else {w.key[n]: v for n, v in start.items() if n in names or n in vals}
        answers, last = [], []

        def solver(**kws):
            last[:] = [kws]
            out = optimize(**kws)
            answers.append((float(np.asarray(out["objective"])), np.ravel(out["primal"])))
            return out
        where = lambda: "min %s s.t. %s from %s with %s" % (label, [r[0] for r in rows], start, kw)
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            try:
                if via == "localsolve":
                    sol = m.localsolve(solver=solver, verbosity=0, x0=x0, reltol=reltol, iteration_limit=300)
                else:
                    sp = m.sp(**kw)
                    sol = sp.localsolve(solver=solver, verbosity=0, x0=x0, reltol=reltol, iteration_limit=300)
            except Infeasible as e:
                if "Unsolved after" in str(e) and any(r[4] for r in rows) and len(answers) > 300:
                    outcome("equalities: not convergent")
                    return
                if kw.get("use_pccp", True):
                    if type(e).__name__ == "UnknownInfeasible" and of_call(**last[0]).status() == "optimal":
                        outcome("beyond the solver")
                        return
                    fail("a feasible relaxation is solved", "%s raised %s: %s" % (where(), type(e).__name__, str(e)[:200]))
                outcome("without slack: %s" % type(e).__name__)
                return
        said = [str(c.message) for c in caught]
        own = [k for k in dict(sol["variables"]) if k not in w.name]
        slack = 1.0
        if own:
            slack = float(sol["variables"][own[0]])
            require(len(own) == 1 and slack > 1 + 1e-7, "slack is reported only when used", lambda: "%s: %s" % (where(), {str(k): sol["variables"][k] for k in own}))
            require(any("slack" in s for s in said), "used slack is announced", where)
        for part in ("freevariables", "constants"):
            extra = [k for k in dict(sol[part]) if k not in w.name and k not in own]
            require(not extra, "only the model's variables in the result", lambda: "%s: %s" % (part, extra))
        if not own:
            extra = [k for k in dict(sol["sensitivities"]["variables"]) if k not in w.name]
            require(not extra, "only the model's variables in the sensitivities", lambda: str(extra))
            mine = [c for c in m.flat()]
            extra = [c for c in sol["sensitivities"]["constraints"] if not any(c is o for o in mine)]
            require(not extra, "only the model's constraints in the sensitivities", lambda: "%s: %s" % (where(), [str(c) for c in extra]))
        got = {}
        for nm in list(names) + [n for n in vals if w.key[n] in sol["variables"]]:
            require(w.key[nm] in sol["variables"], "every variable is reported", nm)
            got[nm] = float(np.asarray(sol["variables"][w.key[nm]]))*float(UNITS[U[nm]][0])
        for nm, v in vals.items():
            require(nm not in got or abs(got[nm]-v) < 1e-12, "constants keep their values", lambda: "%s: %s is %s" % (where(), nm, got[nm]))
        prog = Program(rcost, [(s, l, e, lab) for lab, _, s, l, e in gps], vals)
        require(prog.names == names, "harness names", lambda: "%s %s" % (prog.names, names))
        sigs = [Sig(prog, r[2], r[3], r[4], r[0], vals) for r in rows]
        x = prog.point(got)
        cf = unit_of(cost.units)[0]
        reported = float(getattr(sol["cost"], "magnitude", sol["cost"]))
        mine = prog.optimum(x)/cf
        pen = kw.get("pccp_penalty", 2e2) if kw.get("use_pccp", True) else 0
        require(abs(reported/(mine*slack**pen)-1) < 1e-3 or abs(reported/mine-1) < 1e-3, "reported cost", lambda: "%s: reported %s, point gives %s" % (where(), reported, mine))
        for c in prog.cons:
            require(c.f(x) < 2e-4, "posynomial constraints hold", lambda: "%s: %s by %s" % (where(), c.label, c.f(x)))
        has_eq = any(s.eq for s in sigs)
        for s in sigs:
            if not s.eq:
                require(s.f(x) < math.log(slack) + 2e-4, "signomial constraints hold up to the reported slack", lambda: "%s: %s exceeded by %s with slack %s" % (where(), s.label, s.f(x), slack))
        # the iterates
        obj = [a for a, _ in answers]
        require(abs(obj[-1]/reported-1) < 1e-3, "the last iterate is reported", lambda: "%s: %s but %s" % (where(), obj[-3:], reported))
        if not has_eq:
            for a, b in zip(obj, obj[1:]):
                require(b <= a*(1+1e-3), "costs do not rise from one iterate to the next", lambda: "%s: %s" % (where(), obj))
            require(not any("not convergent" in s for s in said) or any(b > a*(1+9e-7) for a, b in zip(obj, obj[1:])), "no false warning of rising costs", where)
        if len(answers) < 2:
            fail("more than one iterate", where())
        if len(idx) == 1 and len(answers) < 20:
            each = (m.program if via == "localsolve" else sp).results
            require([round(math.log(float(r["cost"])), 9) for r in each] == [round(math.log(a), 9) for a in obj], "one result for every iterate", lambda: "%s: %s for %s" % (where(), [float(r["cost"]) for r in each], obj))
            for r, (_, primal) in zip(each, answers):
                vals_ = sorted(round(math.log(float(np.asarray(v))), 8) for v in r["freevariables"].values())
                require(vals_ == sorted(round(float(v), 8) for v in primal), "the iterates' values", lambda: "%s: %s for %s" % (where(), vals_, primal))
        # columns are distinct variables; compare the last two answers as sets of coordinates
        moved = float(np.abs(answers[-1][1]-answers[-2][1]).max()) if len(answers[-1][1]) == len(answers[-2][1]) else 9.0
        if slack > 1 + 1e-6:
            outcome("slackened, %s" % ("with equality" if has_eq else "inequalities"))
            return
        if moved > 1e-3:
            outcome("cost settled before the variables did")
            return
        for s in sigs:
            if s.eq:
                require(abs(s.f(x)) < 2e-3, "signomial equalities hold", lambda: "%s: %s off by %s" % (where(), s.label, s.f(x)))
        prog.cons = prog.cons + sigs
        res, _ = prog.multipliers(x)
        require(res < 1e-2, "the returned point is locally optimal", lambda: "%s: no multipliers at %s, residual %.3g" % (where(), got, res))
        outcome("certified local optimum in %s solves" % (len(answers) if len(answers) < 6 else "6+"))
    ctx.explore("programs", body)

    SUBS = [{}, {"x": 1.5}, {"y": 1.0}, {"x": 2.0, "y": 1.5}, {"x": 2.0, "z": 0.75}, {"w": 1.0, "u": 0.2}, {"x": 1.0, "y": 2.0, "z": 0.5, "w": 1.0, "u": 1.0}]

    def refusals(ch):
        "which of solve and localsolve accept a model"
        w = World()
        t = w.templates()
        idx = ch.pick([()] + models)
        rows = [t[i] for i in idx]
        sub = ch.pick(SUBS)
        names = set().union({"x"}, *(r[2].vars() | r[3].vars() for r in rows)) & set(FREE)
        method = ch.pick(("solve", "localsolve", "gp", "sp"))
        sigcost = ch.flag()
        vals = {"c": 0.5, "d": 2.0}
        vals.update(sub)
        vals = {n: float(v)*float(UNITS[U[n]][0]) for n, v in vals.items()}
        free = [n for n in names if n not in sub]
        cost = w.x**2
        for nm in sorted(free):
            cost = cost*w.var[nm]
        if sigcost:
            with SignomialsEnabled():
                cost = cost - cost*w.x
        gps = w.box(free)
        m = Model(cost, [g[1] for g in gps] + [r[1] for r in rows], {w.key[n]: v for n, v in {"c": 0.5, "d": 2.0, **sub}.items()})
        kinds = []
        for _, _, s, l, eq in rows:
            d = s.sub(vals).add(l.sub(vals), -1)
            scale = max([abs(float(c)) for r_ in (s, l) for c in r_.sub(vals).terms.values()])
            neg, pos = [c for c in d.terms.values() if c < -1e-12*scale], [c for c in d.terms.values() if c > 1e-12*scale]
            kinds.append("sp" if eq else "always" if not pos else "never" if not neg else "sp" if len(neg) > 1 else "gp")
            if not d.vars():
                kinds[-1] = "sp" if eq else "constant"
        if "constant" in kinds or "never" in kinds or not free:
            raise Skip
        sp = "sp" in kinds
        try:
            getattr(m, method)(**({"verbosity": 0} if "solve" in method else {}))
            said = "accepted"
        except (InvalidPosynomial, InvalidGPConstraint, UnnecessarySGP) as e:
            said = type(e).__name__
        except UnboundedGP:
            said = "accepted"
        except Infeasible:
            said = "accepted"
        where = lambda: "%s of %s with %s, %s objective: %s" % (method, [r[0] for r in rows], sub, "signomial" if sigcost else "posynomial", said)
        # an objective like a - a x has no positive part once x >= 1 is given; either way it is refused
        if sigcost:
            require(said == "InvalidPosynomial" or (sp != (method in ("sp", "localsolve")) and said != "accepted"), "signomial objectives are refused", where)
        elif sp:
            require(said == ("accepted" if method in ("sp", "localsolve") else "InvalidGPConstraint"), "signomial models are for localsolve", where)
        else:
            require(said == ("accepted" if method in ("solve", "gp") else "UnnecessarySGP"), "posynomial models are for solve", where)
        outcome("%s %s" % (method, said))
    ctx.explore("refusals", refusals)

    def invariance(ch):
        "what is printed, and the scale of the objective, do not change what is found"
        import contextlib
        import io
        idx = ch.pick([(i,) for i in range(10)] if ctx.quick else models)
        start = ch.pick((None, STARTS[3]) if ctx.quick else STARTS)
        kw = ch.pick(SETTINGS)
        objective = ch.pick(range(3))
        change = ch.pick([("verbosity", v) for v in ((-1, 2, 4) if ctx.quick else (-2, -1, 1, 2, 3, 4))] + [("scale", s) for s in (1e3, 1e-8)])

        def once(verbosity, scale):
            w = World()
            rows = [w.templates()[i] for i in idx]
            names = sorted(set().union(*(r[2].vars() | r[3].vars() for r in rows)) & set(FREE))
            _, cost, _ = costs(w, names)[objective]
            gps = w.box(names)
            m = Model(cost*scale, [g[1] for g in gps] + [r[1] for r in rows], {w.key["c"]: 0.5, w.key["d"]: 2.0})
            x0 = None if start is None else {w.key[n]: v for n, v in start.items() if n in names or n in "cd"}
            out = io.StringIO()
            with warnings.catch_warnings(record=True) as caught, contextlib.redirect_stdout(out):
                warnings.simplefilter("always")
                sp = None
                try:
                    sp = m.sp(**kw)
                    sol = sp.localsolve(solver=optimize, verbosity=verbosity, x0=x0, reltol=1e-6, iteration_limit=40)
                except Infeasible as e:
                    return str(e)[:20], None, [], out.getvalue(), rows, sp and len(sp.gps)
            found = {n: float(np.asarray(sol["variables"][w.key[n]])) for n in names}
            cost = float(getattr(sol["cost"], "magnitude", sol["cost"]))/scale
            return cost, found, [str(c.message) for c in caught], out.getvalue(), rows, len(sp.gps)
        a = once(0, 1.0)
        b = once(change[1] if change[0] == "verbosity" else 0, change[1] if change[0] == "scale" else 1.0)
        where = lambda: "%s from %s with %s, objective %s, %s:\n%s\n%s" % ([r[0] for r in a[4]], start, kw, objective, change, a[:3] + a[5:], b[:3] + b[5:])
        require((a[1] is None) == (b[1] is None), "the same verdict", where)
        if change[0] == "verbosity":
            require(a[0] == b[0] and a[1] == b[1] and a[5] == b[5], "verbosity does not change the answer", where)
            require(change[1] > 0 or "olv" not in b[3].replace("Solution check", ""), "printing only when asked to", lambda: where() + b[3])
        elif a[1]:
            require(abs(a[0]/b[0]-1) < 1e-3 and all(abs(a[1][n]/b[1][n]-1) < 2e-2 for n in a[1]), "the objective's scale does not change the answer", where)
        outcome("%s: %s" % (change[0], "solved" if a[1] else "not solved"))
    ctx.explore("invariance", invariance)

    def slackened(ch):
        "models that are infeasible by a known factor: exactly that slack is used, reported and announced"
        e = ch.pick((0.0, 1e-4, 2e-3, 5e-3, 0.02, 0.3, 1.0))
        pen = ch.pick((None, 5.0, 40.0))
        shape = ch.pick(("inequality", "two", "equality"))
        scale = ch.pick((1.0, 1e-6, 1e5))
        x, y, t = Variable("x", "m"), Variable("y", "m"), Variable("t")
        cm, m1 = Quantity(100, "cm"), Quantity(1, "m")
        need = 3*(1 + e)
        with SignomialsEnabled():
            if shape == "equality":
                cons = [x >= need*m1, y <= 2*cm, SignomialEquality(x, y + m1)]
            else:
                cons = [x >= need*m1, y <= 2*cm, x - y <= m1]
            if shape == "two":
                cons += [t >= 1, t <= 2, x/m1 + t >= 1 + 1/t]
        m = Model(scale*x**2/y*(t if shape == "two" else 1), cons)
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            sol = m.sp(**({"pccp_penalty": pen} if pen else {})).localsolve(solver=optimize, verbosity=0)
        said = [str(c.message) for c in caught if "lacken" in str(c.message)]
        where = lambda: "%s infeasible by %s, penalty %s, scale %s: %s %s" % (shape, e, pen, scale, dict(sol["variables"]), said)
        own = [k for k in dict(sol["variables"]) if k not in (x.key, y.key, t.key)]
        require(bool(own) == bool(said) == bool(e), "slack is announced and reported exactly when used", where)
        require((len(dict(sol["freevariables"])) == len(dict(sol["variables"])) == 2 + bool(e) + (shape == "two")), "slack is announced and reported exactly when used", where)
        if e:
            got = float(sol["variables"][own[0]])
            require(abs(got - 1 - e) < 0.02*e + 2e-6, "the least slack is used", where)
            pct = float(said[0].split("slacken by")[1].split("%")[0])
            require(abs(pct/100/(got-1) - 1) < 0.06, "the slack announced is the slack used", where)
        require(abs(float(sol["variables"][x.key])/need - 1) < 1e-3 and abs(float(sol["variables"][y.key])/2 - 1) < 1e-3, "the slackened optimum", where)
        outcome("slack %s" % e)
    ctx.explore("slackened", slackened)
    ctx.bound(slackened="7 factors of infeasibility x 3 penalties x 3 shapes x 3 scales", invariance="verbosity and scale of the objective x 10 templates x starts x settings x objectives")
