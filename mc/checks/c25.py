"""Tight, Loose and Bounded: what they report, against the reported solution, around every threshold."""
import functools
import math
import re
import numpy as np
from gpkit import Variable, VectorVariable, Model, NamedVariables, SignomialsEnabled, units
from gpkit.constraints.set import ConstraintSet
from gpkit.constraints.tight import Tight
from gpkit.constraints.loose import Loose
from gpkit.constraints.bounded import Bounded
from ..core import require, Skip, outcome
from .c22 import solver, norm

TECHNIQUE = "exhaustive exploration of constraints x slackness or sensitivity around the tolerance x nesting of diagnostic sets x kinds and histories of solves; expected diagnostics recomputed from the reported values"
NOTE = "Left and right sides evaluated in plain python at the reported solution; slackness and sensitivities placed at 0, 0.5, 0.98, 1.02 and 2+ times the tolerance; two sets of each kind in one model, nested, in submodels, vectorized; up to three solves in a row with other constants; sweeps. Constants set to a bound after the bounded set was made are outside."

def q(v):
    "magnitude and base-unit magnitude"
    return float(getattr(v, "magnitude", v))


ITEMS = ("x>=k", "k<=x", "units", "vector", "posynomial", "equality", "reversed", "constant", "signomial", "signomial minus", "signomial zero", "signomial zero reversed", "negative constant")


def build(item, x, z, y, v, k, a, slack):
    "the constraints, and functions from magnitudes {variable: value} to their (left, right) sides"
    s = 1/(1 + slack)
    m = units.m
    if item == "x>=k":
        return [x >= k*s], [lambda d: (d[x], d[k]*s)]
    if item == "k<=x":
        return [k*s <= x], [lambda d: (d[x], d[k]*s)]
    if item == "units":
        return [z >= k*s*2], [lambda d: (d[z], 100*d[k]*s*2)]
    if item == "vector":
        return [v >= a*s], [(lambda d, i=i: (d[v][i], d[a][i]*s)) for i in range(3)]
    if item == "posynomial":
        return [y >= (x/m + v[0]/m + 1)*s], [lambda d: (d[y], (d[x] + d[v][0] + 1)*s)]
    if item == "reversed":
        return [x/m + v[0]/m + 1 <= y/s], [lambda d: (d[x] + d[v][0] + 1, d[y]/s)]
    if item == "equality":
        return [y == 1 + slack], [lambda d: (d[y], 1 + slack)]
    if item == "constant":
        return [y/s >= 3], [lambda d: (d[y]/s, 3.0)]
    with SignomialsEnabled():
        if item == "signomial":
            return [y + x/m >= (k/m + 3)*s], [lambda d: (d[y] + d[x], (d[k] + 3)*s)]
        if item == "signomial minus":
            return [y - 1 >= k/m*s], [lambda d: (d[y] - 1, d[k]*s)]
        if item == "signomial zero":
            return [x/m - k/m*s >= 0], [lambda d: (d[x], d[k]*s)]
        if item == "signomial zero reversed":
            return [k/m*s - x/m <= 0], [lambda d: (d[x], d[k]*s)]
        if item == "negative constant":
            return [y - k/m >= s*2], [lambda d: (d[y] - d[k], s*2)]
    raise AssertionError(item)


def slackness(sides):
    "relative to either side: which one is not said"
    l, r = sides
    return sorted((abs(1 - l/r), abs(1 - r/l)))


class TightTenth(Tight):
    reltol = 0.1


class Sub(Model):
    "a model whose constraints include a diagnostic set"
    def setup(self, wrapped):
        return [wrapped]


SETS = {"Tight default": (lambda c: Tight(c), 1e-3), "Tight 0.1": (lambda c: Tight(c, reltol=0.1), 0.1), "Tight 0": (lambda c: Tight(c, reltol=0), 0.0), "Tight subclass": (TightTenth, 0.1)}
NESTS = {
    "plain": lambda t: t, "dict": lambda t: {"wrapped": t}, "list": lambda t: [[t]], "set": lambda t: ConstraintSet([t]),
    "model": lambda t: Model(None, [t]), "submodel": Sub, "bounded": lambda t: Bounded([t]), "loose": lambda t: Loose([t], senstol=1e9),
    "tight": lambda t: Tight([t], reltol=1e9)}
RUNS = ("solve", "localsolve", "sweep", "sweep all", "again")


class Setting:
    def __init__(self, run):
        NamedVariables.reset_modelnumbers()
        x, z, y = Variable("x", "m"), Variable("z", "cm"), Variable("y")
        v, a = VectorVariable(3, "v", "m"), VectorVariable(3, "a", [1.0, 2.0, 3.0], "m")
        k = Variable("k", 2.0, "m")
        self.args = x, z, y, v, k, a
        # these fix every variable: x at k, z at 2k, v at a, y at x + v0 + 1
        self.base = [x >= k, z >= 2*k, v >= a, y >= x/units.m + v[0]/units.m + 1]
        self.cost = x*z*y*v.prod()/units.m**5

    def values(self, sol, i=None):
        out = {}
        for var in self.args:
            val = sol["variables"][var.key]
            val = np.array(val, float)
            if i is not None and val.ndim and val.shape[0] == len(sol["cost"]) and var.key.shape != val.shape:
                val = val[i]
            out[var] = val
        return out


def entries(sol, category, i=None):
    "the warnings of a category"
    got = (sol.get("warnings") or {}).get(category, [])
    if i is not None and isinstance(got, np.ndarray):
        got = got[i]
    return list(got)


def expect(got, want, what):
    "got: list of warning entries; want: list of (constraint, fires?: True/False/None)"
    cs = [e[1] for e in got]
    require(all(isinstance(e[0], str) and e[0] for e in got), "a warning has no text", what)
    for c, fires in want:
        n = sum(g is c for g in cs)
        if fires is None:
            require(n <= 1, "a constraint is warned of twice", "%s: %s" % (what, c))
            continue
        require(n == int(fires), "a warning is missing" if n < fires else "a constraint is warned of without reason", "%s: %s, %i times" % (what, c, n))
    rest = [c for c in cs if not any(c is w for w, _ in want)]
    require(not rest, "a constraint is warned of without reason", "%s: %s" % (what, rest))


def titled(text, category):
    "the constraint lines under each title of the category in a table's warnings"
    out, on = {}, None
    ls = text.split("\n")
    for j, l in enumerate(ls):
        if l.startswith(category) and j + 1 < len(ls) and ls[j+1].startswith("---"):
            on = l
            out[on] = []
        elif on and (not l.strip() or l.startswith("~~~")):
            on = None
        elif on and not l.startswith("---"):
            out[on].append(l)
    return out


def in_table(sol, category, points, what):
    "points: entries expected for each point"
    text = sol.table()
    got = titled(text, category)
    some = [(i, es) for i, es in enumerate(points) if es]
    require(len(got) == len(some), "the table does not show the warnings", "%s: %s, expected %s" % (what, got, some))
    require(bool(some or "WARNINGS" not in text), "the table announces warnings there are none of", what)
    for i, es in some:
        mine = [ls for t, ls in got.items() if len(points) == 1 or t.rstrip().endswith(" %i" % i)]
        require(len(mine) == 1, "the table does not show the warnings", "%s: %s" % (what, got))
        for e in es:
            c = e[1]
            s = c.str_without({"units", "unnecessary lineage"}) if hasattr(c, "str_without") else e[0]
            flat = "".join("".join(mine[0]).split())
            require("".join(str(s).split())[:20] in flat or "".join(e[0].split()) in flat, "the table does not show a warning", "%s: %s not in %s" % (what, s, mine[0]))
    return text


def shown_sides(text, flat, sides, d, fires, what):
    "the two values shown for a loose constraint are those of its sides"
    ls = [re.match(r"\s*(\S+) (?:<=|>=|=) (\S+) : ", l) for lines in titled(text, "Unexpectedly Loose Constraints").values() for l in lines]
    try:
        shown = [(float(g.group(1)), float(g.group(2))) for g in ls if g]
    except ValueError:
        return
    if len(shown) != len([f for f in fires if f]) or None in fires:
        return  # shown some other way
    for (c, _, s) in [(c, f, s) for c, f, s in zip(flat, fires, sides) if f]:
        l, r = s(d)
        require(any(abs(a*r - b*l) <= 2e-3*abs(b*l) or abs(a*l - b*r) <= 2e-3*abs(b*r) for a, b in shown), "the values shown for a loose constraint are not its sides'", lambda: "%s: %s with %s and %s: %s" % (what, c, l, r, shown))  # pylint: disable=cell-var-from-loop


def tights(ch, slacks):
    item = ch.pick(ITEMS)
    name = ch.pick(sorted(SETS))
    make, tol = SETS[name]
    nest, run = ch.pick(sorted(NESTS)), ch.pick(RUNS)
    slack = ch.pick(slacks)*(tol or 1e-3)
    if nest in ("loose", "tight", "bounded", "set", "list", "dict") and (name != "Tight default" or run in ("sweep all",)):
        raise Skip
    S = Setting(run)
    x, z, y, v, k, a = S.args
    cons, sides = build(item, *S.args, slack)
    wrapped = make(cons)
    base = S.base
    if item in ("equality", "constant"):
        base = S.base[:3]
    if item == "equality":
        base = base + [y >= 1e-3, y <= 1e3]
    if item == "constant":
        base = base + [y >= 3]
    if item in ("signomial", "signomial minus", "negative constant"):
        base = S.base[:3] + ([y >= 3] if item == "signomial" else [y >= k/units.m + (1 if item == "signomial minus" else 2)])
    local = run == "localsolve" or item == "signomial"
    if run == "localsolve" or (item == "signomial" and run not in ("sweep", "sweep all")):
        local = True
        with SignomialsEnabled():
            base = base + [y + x/units.m <= 100 + y**2]
    m = Model(S.cost, base + [NESTS[nest](wrapped)])
    solve = functools.partial(m.localsolve if local else m.solve, solver=solver, verbosity=0)
    what = "%s in %s in %s, slack by %.3g of %.3g, %s" % (item, name, nest, slack, tol, run)
    flat = list(wrapped.flat())
    require(len(flat) == len(sides), "harness", what)
    def judged(sol, i=None):
        d = S.values(sol, i)
        want = []
        for c, s in zip(flat, sides):
            least, most = slackness(s(d))
            fires = True if least > tol + (1e-5*tol or 1e-13) else False if most < tol*(1 - 1e-5) else None
            want.append((c, fires))
            if fires is not None:
                outcome("slack" if fires else "tight")
        return want

    def point(sol, i=None):
        got = entries(sol, "Unexpectedly Loose Constraints", i)
        expect(got, judged(sol, i), what)
        return got

    if run in ("sweep", "sweep all"):
        # other points may be tight: the constant's base constraint is unaffected, so move slackness with u
        m.substitutions[k] = ("sweep", [1.0, 2.0, 4.0])
        sol = solve()
        pts = [point(sol, i) for i in range(3)]
        in_table(sol, "Unexpectedly Loose Constraints", pts, what)
        if run == "sweep all":
            for i in range(3):
                one = sol.atindex(i)
                expect(entries(one, "Unexpectedly Loose Constraints"), judged(one), what + " at index %i" % i)
        return
    sol = solve()
    text = in_table(sol, "Unexpectedly Loose Constraints", [point(sol)], what)
    shown_sides(text, flat, sides, S.values(sol), [f for _, f in judged(sol)], what)
    if run == "again":
        for val in (5.0, 2.0):
            m.substitutions[k] = val
            held = norm(entries(sol, "Unexpectedly Loose Constraints"))
            sol2 = solve()
            in_table(sol2, "Unexpectedly Loose Constraints", [point(sol2)], what + " again")
            require(norm(entries(sol, "Unexpectedly Loose Constraints")) == held, "a later solve changes the warnings of an earlier one", what)
    plain = Model(S.cost, base + [cons], {k: 2.0, a: [1.0, 2.0, 3.0]})
    if nest != "bounded":
        sol3 = (plain.localsolve if local else plain.solve)(solver=solver, verbosity=0)
        for var in S.args:
            require(np.allclose(np.array(sol3["variables"][var.key], float), np.array(sol["variables"][var.key], float), rtol=1e-6 if nest != "bounded" else 1e-3), "a diagnostic set changes the solution", "%s: %s" % (what, var))


# ------------------------------------------------- slackness that differs between sweep points

def varying(ch):
    "tight, loose or near a bound at some points of a sweep only, two sets in one model"
    n = ch.pick((2, 3))
    pattern = [[ch.flag() for _ in range(n)] for _ in range(2)]
    how = ch.pick(("tight", "loose", "both", "bounded"))
    S = Setting("sweep")
    x, z, y, v, k, a = S.args
    p = Variable("p", ("sweep", list(range(1, n+1))))
    lims = [Variable("l_%i" % s, lambda c, s=s: 2.0 if pattern[s][int(round(float(c[p])))-1] else 0.3, "m") for s in range(2)]
    targets = (x, v[0])
    cons = [z >= 2*k, v[1:] >= a[1:], y >= x/units.m + v[0]/units.m + 1, p*1e-9 <= y] + [t >= 1*units.m for t in targets]
    made, free = [], [Variable("f_%i" % s) for s in range(2)]
    for s, t in enumerate(targets):
        made.append(t >= lims[s])
        c = [made[-1]]
        if how in ("loose", "both"):
            c = [Loose(c, senstol=0.01)]
        if how in ("tight", "both"):
            c = [Tight(c)]
        if how == "bounded":
            c.append(Bounded([free[s] >= 0.05*lims[s]/units.m], eps=1e-3))
        cons.append(c)
    m = Model(S.cost*(free[0]*free[1] if how == "bounded" else 1), cons)
    what = "%s, pattern %s" % (how, pattern)
    sol = m.solve(solver=solver, verbosity=0)
    if how == "bounded":
        pts = []
        for i in range(n):
            want = {("near", "lower"): {free[s].key for s in range(2) if not pattern[s][i]}} if not all(pattern[s][i] for s in range(2)) else {}
            for sub in (sol, sol.atindex(i)):
                got = bounds_of(sub, i if sub is sol else None)
                require(got == want, "bounds reported", "%s point %i: %s, expected %s" % (what, i, got, want))
            pts.append(got)
        shown = titled(sol.table(), "Arbitrarily Bounded Variables")
        require(len(shown) == sum(map(bool, pts)), "the table does not show the warnings", "%s: %s" % (what, shown))
        return
    for cat, on in (("Unexpectedly Loose Constraints", "tight"), ("Unexpectedly Tight Constraints", "loose")):
        pts = []
        for i in range(n):
            want = [(made[s], how in (on, "both") and pattern[s][i] == (on == "loose")) for s in range(2)]
            got = entries(sol, cat, i)
            expect(got, want, "%s point %i" % (what, i))
            expect(entries(sol.atindex(i), cat), want, "%s at index %i" % (what, i))
            pts.append(got)
        in_table_points(sol, cat, pts, what)


def in_table_points(sol, cat, pts, what):
    text = sol.table()
    got = titled(text, cat)
    require(len(got) == sum(map(bool, pts)), "the table does not show the warnings", "%s: %s" % (what, got))
    for i, es in enumerate(pts):
        if es:
            mine = [ls for t, ls in got.items() if t.rstrip().endswith(" %i" % i)]
            require(len(mine) == 1 and len(mine[0]) == len(es), "the table does not show the warnings of a point", "%s point %i: %s" % (what, i, got))


# ------------------------------------------------------------------ loose

LOOSE = {"default": ({}, 1e-5), "0.3": ({"senstol": 0.3}, 0.3)}


def looses(ch, ratios):
    kind = ch.pick(sorted(LOOSE))
    kw, tol = LOOSE[kind]
    item = ch.pick(("variable", "reversed", "vector", "equality", "equality reversed", "units", "posynomial", "signomial", "dropped"))
    ratio = ch.pick(ratios)
    nest = ch.pick(("plain", "dict", "submodel", "bounded", "tight", "loose"))
    raising = ch.pick((False, True))
    direction = ch.pick((1, -1))
    NamedVariables.reset_modelnumbers()
    p = tol*ratio*direction
    x, y = Variable("x", "m"), Variable("y")
    v = VectorVariable(2, "v")
    u = Variable("u")
    k = Variable("k", 2.0, "m")
    con = {"variable": lambda: [x >= k] if direction == 1 else [x <= k], "reversed": lambda: [k <= x] if direction == 1 else [k >= x],
           "vector": lambda: [v >= [1, 2]] if direction == 1 else [v <= [1, 2]], "equality": lambda: [x == k], "equality reversed": lambda: [k == x],
           "units": lambda: [x >= 200*units.cm] if direction == 1 else [x <= 200*units.cm], "posynomial": lambda: [x >= k/2 + 1*units.m],
           "dropped": lambda: [y >= 1e-20], "signomial": lambda: [x + u*units.m >= k*1.5]}[item]
    if item in ("posynomial", "signomial", "dropped") and direction == -1:
        raise Skip
    with SignomialsEnabled():
        cons = con()
    cost = y*(x/units.m)**p if item != "vector" else y*(v[0]*v[1]**0.5)**p
    if item == "dropped":
        cost = y
    base = [y >= 1, u <= 1, u >= 0.1]
    sub = Loose(cons, **kw)
    if raising:
        sub.raiseerror = True
    if item != "vector":
        base += [x <= 1e4*units.m, x >= 1e-4*units.m]
    m = Model(cost, base + [{"plain": lambda t: t, "dict": lambda t: {"w": t}, "submodel": Sub, "bounded": lambda t: Bounded([t], eps=1e-20), "tight": lambda t: Tight([t], reltol=1e99), "loose": lambda t: Loose([t], senstol=1e9)}[nest](sub)])
    local = item == "signomial"
    what = "Loose %s of a %s constraint with sensitivity %.4g in %s%s" % (kind, item, p, nest, ", raising" if raising else "")
    try:
        sol = (m.localsolve if local else m.solve)(solver=solver, verbosity=0)
    except RuntimeWarning as e:
        require(raising, "a loose set raises", "%s: %s" % (what, e))
        sol = None
    # sensitivities as certified elsewhere, here from a solve without the diagnostics
    if sol is None:
        sub.raiseerror = False
        sol = (m.localsolve if local else m.solve)(solver=solver, verbosity=0)
        raised = True
    else:
        raised = False
    want = []
    for c in sub.flat():
        s = abs(float(sol["sensitivities"]["constraints"].get(c, 0)))
        e = {"vector": abs(p)*(1 if c is list(sub.flat())[0] else 0.5), "dropped": 0.0}.get(item, abs(p))
        if item not in ("signomial",):
            require(abs(s - e) <= 1e-6 + 1e-3*e, "sensitivity of a constraint", "%s: %s, expected %s" % (what, s, e))
        want.append((c, None if abs(s - tol) < 1e-4*tol + 1e-12 else s > tol))
    if any(w is None for _, w in want):
        raise Skip
    require(not raised or any(w for _, w in want), "a loose set raises", what)
    require(not (raising and not raised) or not any(w for _, w in want), "a loose set does not raise", what)
    expect(entries(sol, "Unexpectedly Tight Constraints"), want, what)
    outcome("sensitive" if any(w for _, w in want) else "insensitive")
    in_table(sol, "Unexpectedly Tight Constraints", [entries(sol, "Unexpectedly Tight Constraints")], what)


# ---------------------------------------------------------------- bounded

def bounds_of(sol, i=None):
    out = {}
    for text, vks in (sol.get("boundedness") or {}).items():
        if i is not None and isinstance(vks, np.ndarray):
            vks = vks[i]
        if not vks:
            continue
        key = "sensitive" if "sensitive" in text else "near", "lower" if "lower" in text else "upper"
        out.setdefault(key, set()).update(vks)
    return out


POSITIONS = ("at lower", "0.95 near lower", "1.05 off lower", "middle", "1.05 off upper", "0.95 near upper", "at upper", "weakly at lower")


def bounded(ch):
    lo, hi, kw = ch.pick(((1e-30, 1e30, {}), (1e-3, 1e3, {"eps": 1e-3}), (1e-2, 1e5, {"lower": 1e-2, "upper": 1e5}), (1e-4, 1e30, {"lower": 1e-4}), (1e-30, 1e4, {"upper": 1e4})))
    pos = [ch.pick(POSITIONS + (("at lower, in the cost alone",) if i else ())) for i in range(2)]
    unit, vector = ch.pick((("", False), ("cm", False), ("", True), ("", "partly constant")))
    nest = ch.pick(("one", "two", "model", "substituted", "list"))
    if pos[1].endswith("alone") and nest not in ("model", "substituted"):
        raise Skip
    NamedVariables.reset_modelnumbers()
    if lo == 1e-30 or hi == 1e30:
        if any(p.startswith(("at lower", "weakly")) and lo == 1e-30 or p == "at upper" and hi == 1e30 for p in pos):
            raise Skip  # beyond the reach of the solver
        if any(("lower" in p and lo == 1e-30) or ("upper" in p and hi == 1e30) for p in pos):
            raise Skip
    if vector:
        V = VectorVariable(2 + (vector != True), "v")   # its last element may be a constant
        vs = list(V[:2])
    else:
        vs = [Variable("v_%i" % i, unit or "-") for i in range(2)]
    un = getattr(units, unit) if unit else 1
    k = Variable("k")
    cost, sets, near, sens = k**0.1, [], {}, {}
    bind = Variable("b")
    for i, (v, p) in enumerate(zip(vs, pos)):
        w = v/un
        val = {"at lower": lo, "weakly at lower": lo, "0.95 near lower": lo*math.exp(3*0.95), "1.05 off lower": lo*math.exp(3*1.05), "middle": math.sqrt(lo*hi) if lo*hi < 1e20 else 1.0, "at lower, in the cost alone": lo,
               "1.05 off upper": hi/math.exp(3*1.05), "0.95 near upper": hi/math.exp(3*0.95), "at upper": hi}[p]
        if p == "weakly at lower":
            cost = cost*w**1e-3
        elif p.startswith("at lower"):
            cost = cost*w
        elif p == "at upper":
            cost = cost/w
        elif "upper" in p:
            cost = cost/w
        else:
            cost = cost*w
        if "at " in p:
            sets.append([] if p.endswith("alone") else [w*k*1e-9 <= w*k*bind])
            sens.setdefault(("sensitive", "upper" if "upper" in p else "lower"), set()).add(v.key)
        elif "upper" in p:
            sets.append([w <= val])
        else:
            sets.append([w >= val])
        if val <= lo*math.exp(3):
            near.setdefault(("near", "lower"), set()).add(v.key)
        if val >= hi/math.exp(3):
            near.setdefault(("near", "upper"), set()).add(v.key)
    binding = [bind >= 1, k >= 2]
    if vector == "partly constant":
        sets[0] = ConstraintSet(sets[0] + [V[2]*k >= 1, k >= V[2]], {V[2]: 1.5})
    cost = cost*bind
    if nest == "one":
        m = Model(cost, [Bounded(sets + [binding], **kw)])
    elif nest == "list":
        m = Model(cost, [[{"b": Bounded(sets, **kw)}], binding])
    elif nest == "two":
        m = Model(cost, [Bounded(sets[0], **kw), binding, Bounded(sets[1], **kw)])
    elif nest == "model":
        m = Model(cost, Bounded(Model(cost, sets + [binding]), **kw))
    else:
        inner = Model(cost, sets + [binding])
        inner.substitutions[bind] = 1.0
        m = Model(cost, Bounded(inner, **kw))
    what = "bounded %s, variables %s%s%s, %s" % (kw, pos, unit, " vector %s" % (vector,) if vector else "", nest)
    sol = m.solve(solver=solver, verbosity=0)
    got = bounds_of(sol)
    mine = list(ConstraintSet([sets, binding]).flat())
    added = {}
    for c, s in sol["sensitivities"]["constraints"].items():
        if not any(c is o for o in mine):
            left, right = set(c.left.vks), set(c.right.vks)
            require(len(left | right) == 1, "harness", str(c))
            added["sensitive", "lower" if bool(left) == (c.oper == ">=") else "upper", (left | right).pop()] = float(s)
    for key, vks in sens.items():
        for vk in vks:
            require(added.get(key + (vk,), 0) > 1e-4, "sensitivity to a bound", "%s: %s %s" % (what, key, vk))
    for key, s in added.items():  # the solver's residues may exceed the threshold
        if s >= 1e-7:
            sens.setdefault(key[:2], set()).add(key[2])
    want = {}
    for d in (near, sens):
        for key, vks in d.items():
            want.setdefault(key, set()).update(vks)
    require(got == want, "bounds reported", "%s: %s, expected %s" % (what, got, want))
    es = entries(sol, "Arbitrarily Bounded Variables")
    text = " ".join(e[0] for e in es)
    for (kind, direction), vks in want.items():
        for vk in vks:
            require(any(kind in e[0] and direction in e[0] and str(vk) in e[0] for e in es), "a bounded variable is not warned of", "%s: %s not in %s" % (what, vk, text))
    require(bool(es) == bool(want), "a warning of bounds without reason", what)
    shown = titled(sol.table(), "Arbitrarily Bounded Variables")
    require(len(shown) == bool(want), "the table does not show the warnings", "%s: %s" % (what, shown))
    for ls in shown.values():
        require(len(ls) == len(es) and all(any(e[0].strip() in l for l in ls) for e in es), "the table does not show the warnings", "%s: %s" % (what, ls))
    for key in want or ("none",):
        outcome("%s %s" % key if want else "unbounded")
    if not any("at " in p for p in pos):
        plain = Model(cost, sets + [binding])
        sol2 = plain.solve(solver=solver, verbosity=0)
        require(abs(math.log(q(sol["cost"])/q(sol2["cost"]))) < 1e-5, "bounds change the optimum", "%s: %s %s" % (what, sol["cost"], sol2["cost"]))


def pressed(ch):
    "a solver's answer may lie to either side of a bound, within its tolerance"
    lo, hi = ch.pick(((1e-3, 1e3), (1e-2, 1e5), (1e-6, 1e2)))
    which = ch.pick(("lower", "upper"))
    shift = ch.pick((-3e-8, -1e-9, 0.0, 1e-9, 3e-8))
    unit = ch.pick(("", "cm"))
    v, k = Variable("v", unit or "-"), Variable("k")
    w = v/getattr(units, unit) if unit else v
    m = Model(k*(w if which == "lower" else 1/w), Bounded([w*k*1e-9 <= w*k*k, k >= 2], lower=lo, upper=hi))

    def shifted(**kws):
        res = dict(solver(**kws))
        res["primal"] = np.array(res["primal"], float)
        target = math.log(lo if which == "lower" else hi)
        i = int(np.argmin(np.abs(res["primal"] - target)))
        res["primal"][i] = target + shift
        return res
    sol = m.solve(solver=shifted, verbosity=0)
    got = bounds_of(sol)
    what = "bounded %s..%s, answer at the %s bound times exp(%s), %s" % (lo, hi, which, shift, unit)
    want = {(kind, which): {v.key} for kind in ("near", "sensitive")}
    if math.log(2/lo) <= 3:
        want.setdefault(("near", "lower"), set()).add(k.key)
    if math.log(hi/2) <= 3:
        want.setdefault(("near", "upper"), set()).add(k.key)
    require(got == want, "bounds reported", "%s: %s, expected %s" % (what, got, want))
    outcome(which)


def run(ctx):
    slacks = (0.0, 0.5, 0.98, 1.02, 30.0) if ctx.quick else (0.0, 0.1, 0.5, 0.9, 0.98, 0.999, 1.001, 1.02, 1.1, 2.0, 30.0, 500.0)
    ctx.explore("tight", functools.partial(tights, slacks=slacks))
    ctx.explore("loose", functools.partial(looses, ratios=(0.5, 0.98, 1.02, 30.0) if ctx.quick else (0.1, 0.5, 0.9, 0.98, 0.995, 1.005, 1.02, 1.1, 2.0, 30.0)))
    ctx.explore("bounded", bounded)
    ctx.explore("answers at a bound", pressed)
    ctx.explore("sweeps", varying)
