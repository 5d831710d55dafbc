"""Solver functions answering and failing in every way: what the caller gets, what is flagged, and that nothing is left behind."""
import contextlib
from copy import copy
import io
import itertools
import sys
import numpy as np
from gpkit import Variable, VectorVariable, Model, SignomialsEnabled
from gpkit import exceptions as gx
from gpkit.solvers.cvxopt import optimize as reference_solver
from ..core import require, outcome, Skip, transition

TECHNIQUE = "exhaustive enumeration of solver behaviours (answers in every encoding with every perturbation, every kind of failure at every call) injected into the real solve, localsolve and sweep; flags judged against independently computed primal and dual residuals"
NOTE = "The fault injector is a solver function handed to the real code; every behaviour of the alphabet at every call position of each program, single and in all sequences for sweeps and signomial programs; every answer encoding x perturbed entry x perturbation size."


class Odd(Exception):
    "an exception no one documented"


def gp_plain():
    x, y = Variable("x", "m"), Variable("y", "ft")
    c = Variable("c", 3.0, "m")
    m = Model(x + 2*y + c**2/x, [x*y >= c**2, x >= 0.3*y + c**2/x/40, y <= 100*c])
    return m, {"x": x, "y": y, "c": c}


def gp_equalities():
    x, y, z = Variable("x"), Variable("y", "m"), Variable("z", "m")
    c = Variable("c", 2.0, "m")
    m = Model(1/x + z/c, [x*z == y, y <= c, 1 >= z/c/9 + x/50, y >= c/900])
    return m, {"x": x, "y": y, "z": z, "c": c}


def gp_vector():
    v, x = VectorVariable(2, "v", "cm"), Variable("x", "cm")
    a = VectorVariable(2, "a", [1.0, 2.0], "cm")
    m = Model(v.prod()*x, [v >= a, x >= v.sum() + 1e-10*v[0]**2/a[0]])
    return m, {"v0": v[0], "v1": v[1], "x": x, "a0": a[0], "a1": a[1]}


def gp_aside():
    "variables the cost does not see: each of their constraints can be violated alone"
    x, y, z = Variable("x"), Variable("y"), Variable("z", "m")
    c = Variable("c", 2.0, "m")
    m = Model(x*c, [y <= 1.05, z >= c, y >= 1, x >= y/(z/c)/3, x >= 1, z <= 1.05*c])
    return m, {"x": x, "y": y, "z": z, "c": c}


GPS = {"plain": gp_plain, "equalities": gp_equalities, "vector": gp_vector, "aside": gp_aside}


def sp_model():
    x, y = Variable("x"), Variable("y")
    c = Variable("c", 2.0)
    with SignomialsEnabled():
        m = Model(x, [x + 0.2*y >= c, y <= 1 + 0.1*x, y >= 0.1, x <= 100])
    return m, {"x": x, "y": y, "c": c}


def sweep_model():
    x, y = Variable("x"), Variable("y")
    c, d = Variable("c"), Variable("d", 2.0)
    m = Model(x + y*d, [x*y >= c, x >= d/9], {c: ("sweep", [1.0, 2.0, 4.0])})
    return m, {"x": x, "y": y, "c": c, "d": d}


def snapshot(m):
    "everything the user can see of the model's own data"
    out = [str(m), str(m.cost), sorted(str(k) for k in m.vks), repr(sorted((str(k), repr(np.asarray(v, dtype=object).tolist())) for k, v in dict.items(m.substitutions)))]
    return out + [str(c) for c in m.flat()]


def views(sol, vs):
    out = {"cost": np.asarray(sol["cost"], dtype=float)}
    for n, v in vs.items():
        out[n] = np.asarray(sol["variables"][v.key], dtype=float)
        if v.key in sol["sensitivities"]["variables"]:
            out["d "+n] = np.asarray(sol["sensitivities"]["variables"][v.key], dtype=float)
    return out


def same(a, b, rel, absol=1e-12):
    return a.keys() == b.keys() and all(a[k].shape == b[k].shape and np.allclose(a[k], b[k], rtol=rel, atol=absol) for k in a)


def encode(out, kind, kw):
    "the solver's answer in another of the accepted forms"
    la = np.array(out["la"])
    c, A, p = np.array(kw["c"], dtype=float), kw["A"].tocsr(), np.asarray(kw["p_idxs"])
    e = c*np.exp(A.dot(np.ravel(out["primal"])))
    nu = np.array([la[i]*e[j]/e[p == i].sum() for j, i in enumerate(p)])
    ans = {"status": "optimal", "objective": out["objective"], "primal": np.ravel(out["primal"])}
    forms = {"la": lambda: {"la": la}, "la without the cost's": lambda: {"la": la[1:]}, "la as a list": lambda: {"la": [float(v) for v in la]},
             "la as a column": lambda: {"la": la.reshape(-1, 1)}, "nu": lambda: {"nu": nu}, "nu as a list": lambda: {"nu": [float(v) for v in nu]},
             "nu as a column": lambda: {"nu": nu.reshape(-1, 1)}, "nu and la": lambda: {"nu": nu, "la": la}, "nu, primal as a list": lambda: {"nu": nu, "primal": [float(v) for v in ans["primal"]]},
             "nu, primal as a tuple, objective as text": lambda: {"nu": nu, "primal": tuple(ans["primal"]), "objective": "%.17g" % ans["objective"]}}
    ans.update(forms[kind]())
    return ans, nu, la


FORMS = ("la", "la without the cost's", "la as a list", "la as a column", "nu", "nu as a list", "nu as a column", "nu and la", "nu, primal as a list", "nu, primal as a tuple, objective as text")


def residuals(kw, ans, nu):
    "the largest primal and dual residuals of an answer, relative as in the dual formulation of the program"
    c, A, p = np.array(kw["c"], dtype=float), kw["A"].tocsr().toarray(), np.asarray(kw["p_idxs"])
    e = c*np.exp(A.dot(np.ravel(np.array(ans["primal"], dtype=float))))
    cost = float(ans["objective"])
    rel = lambda a, b: abs(a-b)/(abs(a)+abs(b)) if a != b else 0.0
    res = {"cost": rel(e[p == 0].sum(), cost)}
    res["primal"] = max([e[p == i].sum()-1 for i in range(1, p[-1]+1)] + [0.0])
    res["normalized"] = rel(nu[p == 0].sum(), 1)
    res["sign"] = max(0.0, -nu.min())*1000
    res["stationary"] = float(np.abs(A.T.dot(nu)).max())
    dual = 0.0
    for i in range(p[-1]+1):
        n, cs = nu[p == i], c[p == i]
        lam = n.sum()
        for nj, cj in zip(n, cs):
            if nj > 0 and lam > 0:
                dual += nj*np.log(cj*lam/nj)
    res["dual cost"] = rel(np.exp(dual), cost)
    return res


TOL = 1e-5      # of solvers that are not gpkit's own
DELTAS = (1e-10, -1e-10, 1e-7, 1e-3, -1e-3, 0.1, -0.1, 1.0)


class Answering:
    "a solver that answers truthfully but for the chosen perturbation"
    def __init__(self, form, what, idx, delta):
        self.form, self.what, self.idx, self.delta = form, what, idx, delta
        self.__name__ = "answering"
        self.ans = self.kw = self.nu = None

    def __call__(self, **kw):
        self.kw = kw
        out = reference_solver(**dict(kw, kktsolver="ldl", abstol=1e-10, reltol=1e-10, feastol=1e-10))
        ans, nu, la = encode(out, self.form, kw)
        if self.what == "objective":
            ans["objective"] = float(ans["objective"])*(1+self.delta)
        elif self.what == "primal":
            pr = np.array(ans["primal"], dtype=float)
            pr[self.idx] += self.delta
            ans["primal"] = pr
        elif self.what == "worse point":   # another point at its own cost
            pr = np.array(ans["primal"], dtype=float)
            pr[self.idx] += self.delta
            ans["primal"] = pr
            ans["objective"] = float((np.array(kw["c"], dtype=float)*np.exp(kw["A"].tocsr().dot(pr)))[np.asarray(kw["p_idxs"]) == 0].sum())
        elif self.what == "another's duals":   # feasible for this program, but not its optimum
            c2 = np.array(kw["c"], dtype=float)
            c2[self.idx] *= np.exp(self.delta)
            kw2 = dict(kw, c=c2)
            nu = encode(reference_solver(**dict(kw2, kktsolver="ldl", abstol=1e-10, reltol=1e-10, feastol=1e-10)), self.form, kw2)[1]
            ans["nu"] = nu
        elif self.what == "dual":
            key = "nu" if "nu" in ans else "la"
            d = np.array(ans[key], dtype=float)
            d.flat[self.idx] += self.delta
            ans[key] = d
            nu = None
        elif self.what == "tiny duals are zero":
            nu = np.where(nu < 1e-6, 0.0, nu)
            ans = dict(ans, nu=nu)
        elif self.what == "tiny duals are negative":
            nu = np.where(nu < 1e-6, -1e-11, nu)
            ans = dict(ans, nu=nu)
        if nu is None:
            if "nu" in ans:
                nu = np.ravel(ans["nu"])
            else:   # the term duals these constraint duals stand for
                la = np.ravel(ans["la"])
                p = np.asarray(kw["p_idxs"])
                la = la if len(la) == p[-1]+1 else np.append(1.0, la)
                e = np.array(kw["c"], dtype=float)*np.exp(kw["A"].tocsr().dot(np.ravel(ans["primal"])))
                nu = np.array([la[i]*e[j]/e[p == i].sum() for j, i in enumerate(p)])
        elif "nu" not in ans and self.what == "primal":
            la = np.ravel(ans["la"])
            p = np.asarray(kw["p_idxs"])
            la = la if len(la) == p[-1]+1 else np.append(1.0, la)
            e = np.array(kw["c"], dtype=float)*np.exp(kw["A"].tocsr().dot(np.ravel(ans["primal"])))
            nu = np.array([la[i]*e[j]/e[p == i].sum() for j, i in enumerate(p)])
        self.ans, self.nu = ans, nu
        print("a word from the solver", flush=True)
        return dict(ans)


RAISES = {"infeasible": gx.Infeasible("a"), "primal infeasible": gx.PrimalInfeasible("b"), "dual infeasible": gx.DualInfeasible(), "unknown": gx.UnknownInfeasible("d", 4), "impossible signomial": gx.InfeasibleSignomial("s"),
          "license": gx.InvalidLicense("l"), "value error": ValueError("v"), "runtime warning": RuntimeWarning("w"), "odd": Odd(), "memory": MemoryError(), "os error": OSError(2, "no such solver"), "zero division": ZeroDivisionError(),
          "interrupt": KeyboardInterrupt(), "exit": SystemExit(3)}
ANSWERS = ("no duals", "empty duals", "a dual too many", "a dual too few", "too few term duals", "a term dual too many", "no primal", "a primal too few", "a primal too many")
NOISE = ("silent", "prints", "prints and flushes", "writes", "leaves stdout replaced")


def expected(behaviour):
    "the documented exception class of a failure, exactly for the documented ones"
    e = RAISES.get(behaviour)
    if e is None:
        return RuntimeWarning, False
    if isinstance(e, (gx.Infeasible, gx.InvalidLicense)):
        return type(e), True
    if isinstance(e, Exception):
        return gx.UnknownInfeasible, True
    return type(e), True


class Failing:
    "a solver that behaves as told at each call, then truthfully"
    def __init__(self, script, noise="silent"):
        self.script, self.noise, self.calls = list(script), noise, 0
        self.__name__ = "failing"

    def __call__(self, **kw):
        act = self.script[self.calls] if self.calls < len(self.script) else "answers"
        self.calls += 1
        if self.noise == "prints":
            print("some", "words")
            print()
        elif self.noise == "prints and flushes":
            print("some words", flush=True)
        elif self.noise == "writes":
            sys.stdout.write("a word\n")
            sys.stdout.write("")
        elif self.noise == "leaves stdout replaced":
            sys.stdout = io.StringIO()
        if act in RAISES:
            raise copy(RAISES[act])
        ans = dict(reference_solver(**dict(kw, kktsolver="ldl")))
        full, nu, la = encode(ans, "nu", kw)
        if act == "no duals":
            del ans["la"]
        elif act == "empty duals":
            ans["la"] = []
        elif act == "a dual too many":
            ans["la"] = np.append(la, 0.5)
        elif act == "a dual too few":
            ans["la"] = la[:-2]
        elif act == "too few term duals":
            ans["nu"] = nu[:-1]
        elif act == "a term dual too many":
            ans["nu"] = np.append(nu, 0.0)
        elif act == "no primal":
            ans["primal"] = []
        elif act == "a primal too few":
            ans["primal"] = ans["primal"][:-1]
        elif act == "a primal too many":
            ans["primal"] = np.append(ans["primal"], 0.0)
        return ans


def solving(fn):
    "(result or None, exception or None, printed text), with stdout checked"
    buf = io.StringIO()
    res = exc = None
    with contextlib.redirect_stdout(buf):
        try:
            res = fn()
        except BaseException as e:   # pylint: disable=broad-except
            exc = e
        restored = sys.stdout is buf
    require(restored, "standard output is restored", lambda: "after %r" % exc)
    return res, exc, buf.getvalue()


def aftermath(m, vs, before, fresh, where, local=False):
    "the model's data are as before and it solves as a fresh one does"
    require(snapshot(m) == before, "the model is unchanged", lambda: "%s: %s, was %s" % (where(), snapshot(m), before))
    sol, exc, _ = solving(lambda: (m.localsolve if local else m.solve)(verbosity=0))
    require(exc is None, "the next solve is unaffected", lambda: "%s: then %r" % (where(), exc))
    fm, fvs = fresh()
    ref = (fm.localsolve if local else fm.solve)(verbosity=0)
    require(same(views(sol, vs), views(ref, fvs), 1e-5, 1e-6), "the next solve is unaffected", lambda: "%s: %s, fresh %s" % (where(), views(sol, vs), views(ref, fvs)))
    transition(2)


def run(ctx):
    ctx.bound(programs="4 geometric, 1 signomial, 1 swept (3 points)", forms=len(FORMS), perturbations="each entry of primal, duals and objective by each of %s" % (DELTAS,), failures=len(RAISES)+len(ANSWERS), noise=len(NOISE), sequences="all over 3 sweep points, with and without skipping; failing calls 1 to 4 of signomial programs")

    def answers(ch):
        name = ch.pick(tuple(GPS))
        form = ch.pick(FORMS)
        m, vs = GPS[name]()
        probe = m.gp()
        n_free, n_mon, n_pos = len(probe.varlocs), len(probe.cs), len(probe.k)
        what = ch.pick(("nothing", "objective", "primal", "dual", "tiny duals are zero", "tiny duals are negative", "worse point", "another's duals"))
        idx, delta = 0, 0.0
        if what in ("primal", "dual"):
            idx = ch.pick(range(n_free if what == "primal" else n_mon if "nu" in form else n_pos - (form == "la without the cost's")))
        if what in ("worse point", "another's duals"):
            if form != "nu" or name == "aside" and what != "worse point":   # (the other program need not be feasible)
                raise Skip
            idx = ch.pick(range(n_free if what == "worse point" else n_mon))
        if what in ("primal", "dual", "objective", "worse point", "another's duals"):
            delta = ch.pick(DELTAS)
            if what == "objective" and delta <= -1:
                raise Skip
        if what.startswith("tiny") and "nu" not in form:
            raise Skip
        where = lambda: "%s, answer as %s%s, %s%s" % (name, form, " asked for later" if later else "", what, " %s off by %s" % (idx, delta) if delta else "")
        before = snapshot(m)
        ref = views(m.solve(verbosity=0), vs)
        solver = Answering(form, what, idx, delta)
        later = form in ("la", "nu") and ch.pick((False, True))   # the program's result is asked for after its solve

        def solve():
            if not later:
                return m.solve(solver, verbosity=0)
            prog = m.gp()
            raw = prog.solve(solver, verbosity=0, gen_result=False)
            require(float(raw["objective"]) == float(solver.ans["objective"]), "the raw answer is the solver's", where)
            result = prog.result
            require(prog.result is result, "the result is made once", where)
            return result
        sol, exc, text = solving(solve)
        require(exc is None, "an answer gives a result", lambda: "%s: %r from %r" % (where(), exc, exc.__cause__))
        require("a word from the solver" not in text, "a silent solve is silent", where)
        res = residuals(solver.kw, solver.ans, solver.nu)
        flagged = "Solution check warning" in text
        if all(r < TOL/4 for r in res.values()):
            require(not flagged, "a correct answer is not flagged", lambda: "%s: %s though residuals are %s" % (where(), text.strip(), res))
        elif any(r > 10*TOL for r in res.values()):
            require(flagged, "a violated condition is flagged", lambda: "%s: residuals %s" % (where(), res))
        got = views(sol, vs)
        require(abs(float(got["cost"]) - float(solver.ans["objective"])) <= 1e-13*abs(float(got["cost"])), "the cost is the solver's", where)
        free = [n for n in vs if vs[n].key in sol["freevariables"]]
        off = [n for n in free if abs(np.log(got[n]/ref[n])) > 1e-5]
        big = what in ("primal", "worse point") and abs(delta) > 1e-4
        require(len(off) == big and all(abs(np.log(got[n]/ref[n]) - delta) < 1e-5 for n in off), "variables take the solver's values", lambda: "%s: %s, true %s" % (where(), got, ref))
        if what in ("nothing", "objective"):
            require(all(abs(got[k]-ref[k]) < 1e-5 for k in got if k.startswith("d ")), "sensitivities are the same from every form of the answer", lambda: "%s: %s, else %s" % (where(), got, ref))
        require(snapshot(m) == before, "the model is unchanged", where)
        outcome("flagged" if flagged else "accepted")
    ctx.explore("answers", answers)

    kinds = tuple(RAISES) + ANSWERS

    def failures(ch):
        name = ch.pick(tuple(GPS))
        act = ch.pick(kinds)
        noise = ch.pick(NOISE)
        verbosity = ch.pick((0, 1, 2, 3))
        m, vs = GPS[name]()
        where = lambda: "%s, solver: %s, %s, verbosity %s" % (name, act, noise, verbosity)
        before = snapshot(m)
        solver = Failing([act]*40, noise)
        sol, exc, text = solving(lambda: m.solve(solver, verbosity=verbosity))
        want, exact = expected(act)
        require(exc is not None, "a failure raises", where)
        require(type(exc) is want if exact else isinstance(exc, want) and not isinstance(exc, gx.Infeasible), "failures raise the documented exception", lambda: "%s: %r, expected %s" % (where(), exc, want.__name__))
        if act in RAISES and isinstance(RAISES[act], Exception):
            chain, e = [], exc
            while e is not None and e not in chain:
                chain.append(e)
                e = e.__cause__ or e.__context__
            require(any(type(e) is type(RAISES[act]) and e.args == RAISES[act].args for e in chain), "the solver's own exception is the cause", lambda: "%s: %s" % (where(), chain))
        if verbosity == 0:
            require(not text, "a silent solve is silent", lambda: "%s: %s" % (where(), text))
        aftermath(m, vs, before, GPS[name], where)
        outcome("%s -> %s" % (act, type(exc).__name__))
    ctx.explore("failures", failures)

    # one failing call, then truth: with anything printed the model's debug answers, else the failure is raised
    def once(ch):
        name = ch.pick(tuple(GPS))
        act = ch.pick([k for k in kinds if k in RAISES and isinstance(RAISES[k], gx.Infeasible) or k in ("odd", "license", "interrupt")])
        verbosity = ch.pick((0, 1, 2))
        m, vs = GPS[name]()
        where = lambda: "%s, solver: %s once, verbosity %s" % (name, act, verbosity)
        before = snapshot(m)
        solver = Failing([act])
        sol, exc, text = solving(lambda: m.solve(solver, verbosity=verbosity))
        want, _ = expected(act)
        if verbosity and isinstance(RAISES[act], gx.Infeasible):
            require(exc is None and sol is not None, "a failure with a diagnosis returns it", lambda: "%s: %r" % (where(), exc))
        else:
            require(type(exc) is want, "failures raise the documented exception", lambda: "%s: %r, expected %s" % (where(), exc, want.__name__))
        aftermath(m, vs, before, GPS[name], where)
        outcome("%s once -> %s" % (act, "diagnosis" if exc is None else type(exc).__name__))
    ctx.explore("a single failure", once)

    acts = ("answers", "primal infeasible", "unknown", "odd", "no duals", "interrupt", "license") if ctx.quick else ("answers",) + kinds

    def sweeps(ch):
        skip = ch.flag()
        verbosity = ch.pick((0, 2) if ctx.quick else (0, 1, 2, 3))
        script = []
        fatal = None
        for i in range(3):
            script.append(ch.pick(acts))
            a = script[-1]
            if a != "answers" and not (skip and issubclass(expected(a)[0], gx.Infeasible)):
                fatal = a
                break
        m, vs = sweep_model()
        where = lambda: "sweep with solver: %s, verbosity %s%s" % (script, verbosity, ", skipping failures" if skip else "")
        before = snapshot(m)
        solver = Failing(script)
        sol, exc, text = solving(lambda: m.solve(solver, verbosity=verbosity, skipsweepfailures=skip))
        good = [i for i, a in enumerate(script) if a == "answers"]
        if fatal is not None:
            want, exact = expected(fatal)
            if issubclass(want, gx.Infeasible):     # reported as a halted sweep
                require(type(exc) is RuntimeWarning and "halted" in str(exc) and isinstance(exc.__cause__, want), "a failing point halts the sweep", lambda: "%s: %r from %r" % (where(), exc, exc and exc.__cause__))
            else:
                require(type(exc) is want, "failures raise the documented exception", lambda: "%s: %r" % (where(), exc))
        elif not good:
            require(type(exc) is RuntimeWarning and "No sweeps solved" in str(exc), "a sweep that never solves raises", lambda: "%s: %r" % (where(), exc))
        else:
            require(exc is None, "failing points are skipped", lambda: "%s: %r" % (where(), exc))
            cs = np.ravel(sol["variables"][vs["c"].key])
            want = [(1.0, 2.0, 4.0)[i] for i in good]
            require(list(cs) == want or len(want) == 1 and list(np.unique(cs)) == want, "exactly the solved points are reported", lambda: "%s: %s" % (where(), cs))
            require(len(np.ravel(sol["cost"])) == len(good), "exactly the solved points are reported", lambda: "%s: %s" % (where(), sol["cost"]))
            for i, val in enumerate(np.ravel(sol["cost"])):
                fm, _ = sweep_model()
                fm.substitutions[vs["c"].key] = want[i]
                ref = float(fm.solve(verbosity=0)["cost"])
                require(abs(val/ref-1) < 1e-5, "solved points have their own optimum", lambda: "%s: %s for %s" % (where(), val, ref))
        if verbosity == 0:
            require(not text, "a silent solve is silent", lambda: "%s: %s" % (where(), text))
        aftermath(m, vs, before, sweep_model, where)
        outcome("sweep: %s" % ("%d points" % len(good) if exc is None else type(exc).__name__))
    ctx.explore("sweeps", sweeps)

    def signomials(ch):
        act = ch.pick(kinds)
        k = ch.pick((0, 1, 2, 3))
        verbosity = ch.pick((0, 1, 2, 3))
        m, vs = sp_model()
        where = lambda: "signomial program, solver: %s at call %s, verbosity %s" % (act, k+1, verbosity)
        before = snapshot(m)
        solver = Failing(["answers"]*k + [act]*40)
        sol, exc, text = solving(lambda: m.localsolve(solver, verbosity=verbosity))
        if solver.calls <= k:
            raise Skip
        want, exact = expected(act)
        if exact:
            require(type(exc) is want, "failures raise the documented exception", lambda: "%s: %r, expected %s" % (where(), exc, want.__name__))
        elif exc is None and "primal" in act:
            raise Skip
        else:
            require(isinstance(exc, RuntimeWarning) and not isinstance(exc, gx.Infeasible), "failures raise the documented exception", lambda: "%s: %r" % (where(), exc))
        if verbosity == 0:
            require(not text, "a silent solve is silent", lambda: "%s: %s" % (where(), text))
        aftermath(m, vs, before, sp_model, where, local=True)
        outcome("%s -> %s" % (act, type(exc).__name__))
    ctx.explore("signomial programs", signomials)
