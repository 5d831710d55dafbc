"""Updating a sequential program in place, over all histories of expansion points, against independently computed approximations."""
import itertools
import math
import numpy as np
from gpkit import Model, Variable
from gpkit.exceptions import Infeasible
from gpkit.keydict import KeyDict
from gpkit.units import Quantity
from ..core import require, outcome, Skip
from ..ref import R, UNITS, unit_of
from ..prog import recorder, standard_form
from ..sgpworld import World, U, FREE, approximations, own_units, fold, same, merge

TECHNIQUE = "exhaustive exploration of the expansion-point histories of sequential programs on the real code; after each, the program handed to the solver is compared term by term with independently computed local approximations"
NOTE = "All signomial models of up to two templates x penalties x all histories of expansion points up to the depth, including points where terms merge, become constant or vanish, partial points, and solves in between."
POINTS = [{"x": 1.0, "y": 1.0, "z": 1.0, "w": 1.0, "u": 1.0}, {"x": 2.0, "y": 0.5, "z": 0.25, "w": 3.0, "u": 0.5}, {"x": 0.5, "y": 0.5, "z": 0.7, "w": 0.25, "u": 2.0}, {"x": 1.5}, {"y": 3.0, "z": 1.25, "c": 7.0, "d": 0.1}]
PEN = 37.0


def close_sets(got, want):
    left = list(want)
    for g in got:
        for i, w in enumerate(left):
            if any(same(g, alt) for alt in w):
                del left[i]
                break
        else:
            return g, left
    return (None, left) if left else None


class Stop(Exception):
    pass


def spelled(how, w, nm, v):
    "a key and value naming the same point"
    unit = U[nm]
    other = {"": "km/m", "m": "cm", "ft": "inch"}[unit]
    per = {"": 1e-3, "m": 100.0, "ft": 12.0}[unit]
    return {"key": (w.key[nm], v), "variable": (w.var[nm], v), "name": (nm, v),
            "quantity": (w.var[nm], Quantity(v, unit or "dimensionless")), "other units": (nm, Quantity(v*per, other)),
            "nomial": (w.key[nm], Variable("k")**0*Quantity(v*per, other))}[how]


def started(ch, w, sgp, names, hist, at, refused):
    "the program made by the first step from a point given as a user may"
    pt = dict(ch.pick(POINTS))
    pt = {nm: v for nm, v in pt.items() if nm in names or nm in ("c", "d")}
    if not pt:
        raise Skip
    how = ch.pick(("key", "variable", "name", "quantity", "other units", "nomial", "alternating"))
    x0 = dict(spelled(("variable", "name", "other units")[i % 3] if how == "alternating" else how, w, nm, v) for i, (nm, v) in enumerate(pt.items()))
    if ch.flag():
        try:
            x0 = KeyDict(x0)
        except AttributeError:   # names need a model
            raise Skip
    if how in ("name", "alternating") and type(x0) is dict and ch.flag():
        x0["nonesuch"] = 3.0   # names nothing
    via = ch.pick(("gp", "localsolve", "keywords"))
    hist.append((how, type(x0).__name__, via, pt))
    at.update({nm: v*float(UNITS[U[nm]][0]) for nm, v in pt.items() if nm in FREE})
    before = {str(k): str(v) for k, v in x0.items()}
    try:
        if via == "gp":
            gp = sgp.gp(x0)
        else:
            def solver(**kw):
                raise Stop
            try:
                sgp.localsolve(solver=solver, x0=x0, verbosity=0) if via == "localsolve" else sgp.localsolve(solver, verbosity=-1, x0=x0, reltol=1e-2)
            except Infeasible as e:
                if not isinstance(e.__cause__, Stop):
                    raise
            gp, = sgp.gps
    except Infeasible as e:
        refused(e, "starting")
        return None
    require({str(k): str(v) for k, v in x0.items()} == before, "the point given is not changed", lambda: "%s -> %s" % (before, x0))
    return gp


def vectors(ch):
    "a vector's starting point: whole, by element, in other units, as a solution"
    from gpkit import VectorVariable, SignomialsEnabled
    v = VectorVariable(3, "v", "m")
    u = Variable("u", "m")
    m_ = Quantity(1, "m")
    with SignomialsEnabled():
        model = Model(v.prod()*u, [v[0]*v[1]/m_ + v[1] >= v[0] + 0.5*m_, v[2] + u >= v[1] + u*v[0]/m_, v >= 1*m_, u >= 1*m_, v <= 5*m_, u <= 4*m_])
    a = [2.0, 3.0, 1.25]
    given = ch.pick(((0, 1, 2), (0, 1), (1,)))
    whole = len(given) == 3
    spells = {"elements": lambda: {v[i]: a[i] for i in given}, "element quantities": lambda: {v[i]: Quantity(100*a[i], "cm") for i in given},
              "element names": lambda: {"v[%i]" % i: a[i] for i in given}, "element keys": lambda: {v[i].key: a[i] for i in given}}
    if whole:
        spells.update({"list": lambda: {v: list(a)}, "array": lambda: {v: np.array(a)}, "quantity": lambda: {v: Quantity(np.array(a)*100, "cm")},
                       "named": lambda: {"v": np.array(a)}, "named list": lambda: {"v": list(a)}, "vector key": lambda: {v.key: np.array(a)}})
    else:
        spells["with gaps"] = lambda: {v: np.array([a[i] if i in given else np.nan for i in range(3)])}
    how = ch.pick(sorted(spells))
    x0 = spells[how]()
    if not any(isinstance(k, str) for k in x0) and ch.flag():
        x0 = KeyDict(x0)
    x0[u] = 2.0
    sp, ref = model.sp(checkbounds=False), model.sp(checkbounds=False)
    want = ref.gp({**{v[i].key: a[i] for i in given}, u.key: 2.0})
    via = ch.pick(("gp", "localsolve"))
    if via == "gp":
        got = sp.gp(x0)
    else:
        def solver(**kw):
            raise Stop
        try:
            sp.localsolve(solver=solver, x0=x0, verbosity=0)
        except Infeasible as e:
            require(isinstance(e.__cause__, Stop), "starts", lambda: repr(e))
        got, = sp.gps

    def rows(gp):
        posys, _, _ = standard_form(gp, str)
        return [[(c, dict(e)) for e, c in terms.items()] for terms, _ in posys]
    g, t = rows(got), rows(want)
    require(len(g) == len(t) and all(same(x, y) for x, y in zip(g, t)), "a vector's starting point", lambda: "%s of %s via %s: %s, expected %s" % (how, given, via, g, t))


def run(ctx):
    n = 4 if ctx.quick else 5
    pts = POINTS
    ctx.bound(history_length=n, points=len(pts), models="templates of 10 signomial constraints: singles%s" % (" and pairs" if True else ""), penalties=2)
    singles = [(i,) for i in range(10)]
    pairs = list(itertools.combinations(range(10), 2))

    def body(ch, start=False):
        w = World()
        idx = ch.pick(singles if start else singles + pairs)
        pccp = ch.pick((True, False))
        shape = ch.pick(("boxed", "bare", "absent")) if len(idx) == 1 and not (start and ctx.quick) else "boxed"
        t = w.templates()
        rows = [t[i] for i in idx]
        names = sorted(set().union(*(r[2].vars() | r[3].vars() for r in rows)) & set(FREE))
        gps = w.box(names) if shape == "boxed" else [("%s >= 1" % names[0], w.var[names[0]] >= (Quantity(1, U[names[0]]) if U[names[0]] else 1), R.num(1, U[names[0]]), w.r[names[0]], False)]
        mention = names if shape != "absent" else names[-1:]   # the others are in nothing but the signomial constraint
        if shape == "absent":
            gps = w.box(mention)[:1]
        cost, rcost = w.var[mention[0]]**2, w.r[mention[0]].power(2)
        for nm in mention[1:]:
            cost, rcost = cost*w.var[nm], rcost.mul(w.r[nm])
        # constraints interleaved so that indices of signomial and posynomial ones differ
        cons = [gps[0][1]] + [rows[0][1]] + [g[1] for g in gps[1:]] + [r[1] for r in rows[1:]]
        m = Model(cost, cons, {w.key["c"]: 0.5, w.key["d"]: 2.0})
        where = lambda: "%s, pccp %s, %s, points %s" % ([r[0] for r in rows], pccp, shape, hist)
        hist = []
        vals = {"c": 0.5, "d": 2.0}
        at = {nm: float(UNITS[U[nm]][0]) for nm in FREE}   # 1 in the variable's units
        at.update(vals)

        def expected():
            out = []
            for label, _, s, l, eq in rows:
                for terms in approximations(s, l, eq, vals, at):
                    terms = merge(own_units(terms))
                    if pccp:
                        alts = [[(c, dict(e, S=-1.0)) for c, e in terms]]
                        f = fold(terms)   # or with its constants moved across first
                        if isinstance(f, list) and len(f) != len(terms):
                            alts.append([(c, dict(e, S=-1.0)) for c, e in f])
                        out.append(alts)
                    else:
                        f = fold(terms)
                        if f is not None:
                            out.append([f])
            return out

        def refused(e, what):
            require(not pccp and any(w_[0] == "infeasible" for w_ in expected()), "an approximation exists at every point", lambda: "%s %s: %s %s" % (where(), what, type(e).__name__, e))
            outcome("approximation infeasible")
        try:
            sgp = m.sp(use_pccp=pccp, pccp_penalty=PEN, checkbounds=False)
        except Infeasible as e:
            refused(e, "at creation")
            raise Skip
        k = 1 if start else ch.pick(range(n if len(idx) == 1 else 2 if ctx.quick else 4))
        gp = sgp._gp if not k else None
        solve_between = len(idx) == 1 and ch.flag() if k > 1 else False
        bad = False
        if start:
            gp = started(ch, w, sgp, names, hist, at, refused)
            if gp is None:
                return
        for step in range(0 if start else k):
            pt = ch.pick(pts)
            hist.append(pt)
            at.update({nm: v*float(UNITS[U[nm]][0]) for nm, v in pt.items() if nm in FREE})
            try:
                gp = sgp.gp({w.key[nm]: v for nm, v in pt.items() if nm in names or nm in ("c", "d")}) if pt else sgp.gp()
                bad = False
            except Infeasible as e:
                refused(e, "at step %d" % step)
                bad = True
                continue
            if solve_between:
                gp.solve(solver=recorder([]), verbosity=0)
        if bad:
            return
        want = expected()
        if any(a[0] == "infeasible" for a in want):
            outcome("infeasible approximation accepted")
            return
        if k == 0:
            gp = sgp.gp()
        posys, call, _ = standard_form(gp, lambda vk: w.name.get(vk, "S"))
        got = [[(c, dict(e)) for e, c in terms.items()] for terms, _ in posys]
        want += [[own_units([(float(c), dict(ks)) for ks, c in s.div(l).terms.items()])] for _, _, s, l, _ in gps]
        cf = unit_of(cost.units)[0]
        cost_terms = own_units([(float(c)/cf, {nm: float(x) for nm, x in ks}) for ks, c in rcost.terms.items()])
        if pccp:
            cost_terms = [(c, dict(e, S=PEN)) for c, e in cost_terms]
            want.append([[(1.0, {"S": -1.0})]])
        require(same(got[0], cost_terms), "objective of the program", lambda: "%s: %s, expected %s" % (where(), got[0], cost_terms))
        wrong = close_sets(got[1:], want)
        require(not wrong, "constraints of the program", lambda: "%s: has %s, lacks %s" % (where(), wrong[0], wrong[1]))
        outcome("%d constraints, %d terms" % (len(posys)-1, len(call["c"])))
    ctx.explore("histories of points", body)
    ctx.explore("spellings of a starting point", lambda ch: body(ch, True))
    ctx.explore("starting points of vectors", vectors)
