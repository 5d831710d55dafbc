"""Relaxations and Model.debug on the real code: relaxed programs rebuilt independently and certified; warnings and the original model compared."""
import contextlib
import io
import itertools
import re
import numpy as np
from gpkit import Variable, VectorVariable, Model, ConstraintSet
from gpkit.constraints.relax import ConstraintsRelaxedEqually, ConstraintsRelaxed, ConstantsRelaxed
from gpkit.exceptions import Infeasible, UnboundedGP
from gpkit.units import Quantity
from ..core import require, outcome, Skip
from ..ref import R, F, UNITS
from ..opt import Program, NotGP, solver_fails
from . import c13

TECHNIQUE = "exhaustive enumeration of constraint sets x nestings x relaxation kinds x inclusion lists on the real code; each answer is certified optimal for an independently built relaxed program and its warnings and the untouched original compared with the reference"
NOTE = "All subsets of up to the stated number of constraint templates (feasible and infeasible, inequalities, equalities and vectors), three relaxation kinds, nestings, inclusion lists, and Model.debug on each; optimality by KKT multipliers found independently."
PICK = ("x >= c", "x y == z", "z >= 0.3 m", "y >= d", "y <= 4", "x <= 9 ft", "v >= z", "v.sum() <= 10 c", "1 >= d/y + y/8", "z == c/d^1.5")
CLASH = ("x <= 2 ft", "z <= 0.1 m", "d <= y <= d/2", "y z <= 0.5 c", "v <= 1 cm")


class World(c13.World):
    def rows(self):
        out = {t[0]: t for t in self.templates() if t[0] in PICK}
        x, y, z, v, c, d, r = self.x, self.y, self.z, self.v, self.c, self.d, self.r
        q = R.num
        out["x <= 2 ft"] = ("x <= 2 ft", x <= Quantity(2.0, "ft"), [(r["x"], q(2, "ft"), False)])
        out["z <= 0.1 m"] = ("z <= 0.1 m", z <= Quantity(0.1, "m"), [(r["z"], q(F(1, 10), "m"), False)])
        out["d <= y <= d/2"] = ("d <= y <= d/2", [d <= y, y <= d/2], [(r["d"], r["y"], False), (r["y"], r["d"].mul(q(F(1, 2))), False)])
        out["y z <= 0.5 c"] = ("y z <= 0.5 c", 0.5*c >= y*z, [(r["y"].mul(r["z"]), r["c"].mul(q(F(1, 2))), False)])
        out["v <= 1 cm"] = ("v <= 1 cm", v <= Quantity(1.0, "cm"), [(r["v0"], q(1, "cm"), False), (r["v1"], q(1, "cm"), False)])
        return out


CONSTS = [{}, {"c": 0.25, "d": 3.0}, {"y": 2.0}, {"v0": 5.0}]


def setup(ch, sets, few, nests=("list", "model", "nested"), boxings=(None,)):
    w = World()
    rows = w.rows()
    combo = ch.pick(sets)
    which = ch.pick(range(len(w.costs()))[1:3] if few and len(combo) > 1 else range(3))
    over = ch.pick(CONSTS)
    label, cost, rcost = w.costs()[which]
    nest = ch.pick(nests[-1:] if few and len(combo) > 1 else nests)
    if combo in sets[::5]:
        nest = ch.pick((nest, "class"))
    boxed = ch.pick(boxings)
    rs = [rows[n] for n in combo]
    used = set(rcost.vars()).union(*(s.vars() | l.vars() for r in rs for s, l, _ in r[2]))
    if set(over) - used:
        raise Skip
    consts = {k: v for k, v in dict({"c": 2.0, "d": 0.5}, **over).items() if k in used}
    where = lambda: "min %s s.t. %s with %s (%s)" % (label, ", ".join(combo), over, nest)

    def build(w):
        box = w.box(used - set(over))
        subs = {w.key[k]: v for k, v in consts.items()}
        rows, cost = w.rows(), w.costs()[which][1]
        cons = [rows[n][1] for n in combo]
        if nest == "nested":
            cons = [cons[0], [cons[1:], {"in": cons[:0]}]] if len(cons) > 1 else [[cons]]
        elif nest == "model":
            cons = [Model(w.y, [ConstraintSet(cons)], subs)]
        return cost, [cons, [b[1] for b in box]] if boxed == "boxed" else cons, subs, box

    if nest == "class":    # its variables are its own, whether constrained or not
        class Held(Model):
            "creates its variables in setup"
            def setup(self):
                self.world = World()
                self.cost, cons, subs, self.box = build(self.world)
                return cons, subs
        fresh = Held
        base = Held()
        w, cost, box = base.world, base.cost, base.box
    else:
        cost, cons, subs, box = build(w)
        fresh = lambda: Model(cost, cons, subs)
        base = fresh()
    allrows = [(s, l, e, r[0]) for r in rs for s, l, e in r[2]]
    boxrows = [(s, l, e, r[0]) for r in box for s, l, e in r[2]]
    return w, cost, rcost, base, fresh, [b[1] for b in box], allrows, boxrows, consts, boxed, where


def evaluate(w, sol, extra):
    got = {}
    for nm, vk in w.key.items():
        if vk in sol["variables"]:
            got[nm] = float(np.asarray(sol["variables"][vk]))*float(UNITS[c13.U[nm]][0])
    got.update(extra)
    return got


def judge(prog, got, where, tol=2e-4, kkt=2e-3):
    x = prog.point(got)
    worst, who = prog.violation(x)
    require(worst < tol, "relaxed constraints hold loosened by their factors", lambda: "%s: %s violated by %.3g" % (where(), who, worst))
    res, _ = prog.multipliers(x)
    require(res < kkt, "least total relaxation", lambda: "%s: residual %.3g at %s" % (where(), res, got))


def relevant(prog):
    return {n for n in prog.names}


def snapshot(m, w):
    return ({k: repr(np.asarray(v, dtype=object).tolist()) for k, v in dict.items(m.substitutions)}, str(m), [str(c) for c in m.flat()], sorted(str(k) for k in m.vks))


def warned(sol, category):
    return [(msg, data) for msg, data in sol.get("warnings", {}).get(category, [])]


def named(relaxed, factors, where, what):
    "exactly the things relaxed are named: {thing: factor}; nothing within 0.05% of one, everything above 2%"
    for thing, f in factors.items():
        if f > 1.02:
            require(thing in relaxed, "what was relaxed is reported", lambda: "%s: %s %s relaxed by %s, reported %s" % (where(), what, thing, f, list(relaxed)))
        if f < 1.0005:
            require(thing not in relaxed, "what was not relaxed is not reported", lambda: "%s: %s %s relaxed by %s, reported %s" % (where(), what, thing, f, list(relaxed)))


def sides(msg, con, where):
    "the warning shows the constraint as it was, and the same constraint with other numbers as it became"
    old, new = msg.split("from", 1)[1].split("\n")
    new = new.split("to", 1)[1]
    require("".join(old.split()) == "".join(("%s %s %s" % (con.left, con.oper, con.right)).split()), "the warning shows the constraint", lambda: "%s: %s for %s" % (where(), msg, con))
    words = lambda text: set(re.findall(r"[A-Za-z_]\w*", re.sub(r"\d[\d.]*e[-+]?\d+", "", text)))
    require(words(old) == words(new), "the warning shows the constraint's own relaxation", lambda: "%s: %s for %s" % (where(), msg, con))


def run(ctx):
    names = PICK + CLASH
    n = 2 if ctx.quick else 3
    sets = [s for k in range(1, n+1) for s in itertools.combinations(names, k)]
    ctx.bound(constraints="all subsets of up to %s of %s" % (n, ", ".join(names)), nestings="list, nested lists and dicts, sub-model" + (" (the second only, for pairs)" if ctx.quick else ""), constants=len(CONSTS), kinds="equally, each constraint, constants (all, included, excluded)", debug="Model.debug on each model, with and without bounds")

    def body(ch):
        w, cost, rcost, base, _, box, rows, boxrows, consts, _, where0 = setup(ch, sets, ctx.quick)
        kind = ch.pick(("equally", "each", "constants", "constants only c", "constants not c"))
        power = ch.pick((30,) if ctx.quick and kind == "each" else (1, 30))
        where = lambda: "%s, %s relaxed, relaxation^%s" % (where0(), kind, power)
        vals = {k: w.si(k, v) for k, v in consts.items()}
        before = snapshot(base, w)
        extra = {}
        one = R.num(1)
        C = lambda name: R.var(name)
        if kind == "equally":
            rel = ConstraintsRelaxedEqually(base)
            total, rtotal = rel.relaxvar**power*cost, C("C").power(power).mul(rcost)
            rc = [(s, C("C").mul(l), False, lab) for s, l, e, lab in rows] + [(l, C("C").mul(s), False, lab) for s, l, e, lab in rows if e] + [(one, C("C"), False, "C>=1")]
        elif kind == "each":
            rel = ConstraintsRelaxed(base)
            flat = list(base.flat())
            require(len(rel.relaxvars) == len(rows), "one factor per constraint", lambda: "%s: %s factors for %s constraints" % (where(), len(rel.relaxvars), len(rows)))
            total = rel.relaxvars.prod()**power*cost
            rtotal, rc = rcost, []
            for i, (s, l, e, lab) in enumerate(rows):
                ci = C("C%d" % i)
                rtotal = rtotal.mul(ci.power(power))
                rc += [(s, ci.mul(l), False, lab), (one, ci, False, "C%d>=1" % i)] + ([(l, ci.mul(s), False, lab)] if e else [])
        else:
            kw = {"constants": {}, "constants only c": {"include_only": ["c"]}, "constants not c": {"exclude": ["c"]}}[kind]
            freed = [nm for nm in consts if kind == "constants" or (nm == "c") == (kind == "constants only c")]
            if not freed:
                raise Skip
            rel = ConstantsRelaxed(base, **kw)
            unused = {vk for vk in base.vks if vk not in [w.key[nm] for nm in consts]}   # of a class, in no constraint
            require(len(rel.relaxvars) == len(rel.freedvars) and {v.key for v in rel.freedvars} - unused == {w.key[nm] for nm in freed}, "exactly the chosen constants are freed", lambda: "%s: freed %s, want %s" % (where(), rel.freedvars, freed))
            total = rel.relaxvars.prod()**power*cost
            rtotal, rc = rcost, list(rows)
            for nm in freed:
                cn, v = C("C_"+nm), R.var(nm, c13.U[nm])
                val = R.num(F(consts[nm]), c13.U[nm])
                rtotal = rtotal.mul(cn.power(power))
                rc += [(one, cn, False, "C>=1"), (val, cn.mul(v), False, "floor"), (v, cn.mul(val), False, "ceiling")]
                vals.pop(nm)
        m = Model(total, [rel, box])
        try:
            prog = Program(rtotal, rc + boxrows, vals)
        except NotGP:
            raise Skip
        try:
            sol = m.solve(verbosity=0)
        except UnboundedGP:
            # a constraint left without variables bounds nothing
            outcome("structurally unbounded")
            return
        except Infeasible as e:
            st = prog.status()
            if st == "optimal" and solver_fails(prog):
                raise Skip
            require(st != "optimal", "a relaxation with an optimum is solved", lambda: "%s raised %s" % (where(), type(e).__name__))
            outcome("infeasible even so")
            return
        factors = {}
        sv = sol["variables"]
        if kind == "equally":
            extra["C"] = factors["all"] = float(sv[rel.relaxvar])
        elif kind == "each":
            for i, f in enumerate(np.asarray(sv[rel.relaxvars.key])):
                extra["C%d" % i] = factors[i] = float(f)
        else:
            fkeys = {v.key: r for v, r in zip(rel.freedvars, rel.relaxvars)}
            for nm in freed:
                extra["C_"+nm] = factors[w.key[nm]] = float(sv[fkeys[w.key[nm]].key])
            for nm in consts:
                if nm not in freed:
                    require(float(np.asarray(sv[w.key[nm]])) == consts[nm], "excluded constants keep their values", lambda: "%s: %s is %s" % (where(), nm, sv[w.key[nm]]))
        got = evaluate(w, sol, extra)
        judge(prog, got, where)
        # one exactly when nothing needs relaxing
        orig = Program(rcost, rows + boxrows, {k: w.si(k, v) for k, v in consts.items()})
        st = orig.status()
        if power == 30 and st == "optimal" and max(factors.values()) < 1.0005:
            x = orig.point(got)
            require(orig.violation(x)[0] < 0.02, "no relaxation means the original optimum", where)
            res, lams = orig.multipliers(x)
            if np.abs(lams).max(initial=0) < 25:
                require(res < 5e-3, "no relaxation means the original optimum", lambda: "%s: residual %.3g" % (where(), res))
        if st == "infeasible":
            require(max(factors.values()) > 1.0005, "infeasible models need relaxing", lambda: "%s: %s" % (where(), factors))
        # warnings
        if kind == "equally":
            ws = warned(sol, "Relaxed Constraints")
            named({"all"} if ws else set(), factors, where, "all")
            for msg, _ in ws:
                require("%i%%" % (0.9+(factors["all"]-1)*100) in msg, "the warning gives the amount", lambda: "%s: %s for %s" % (where(), msg, factors))
        elif kind == "each":
            ws = warned(sol, "Relaxed Constraints")
            idx = {id(c): i for i, c in enumerate(flat)}
            named({idx[id(d)] for _, d in ws}, factors, where, "constraint")
            for msg, d in ws:
                require("%i%%" % (0.5+(factors[idx[id(d)]]-1)*100) in msg, "the warning gives the amount", lambda: "%s: %s for %s" % (where(), msg, factors))
                sides(msg, d, where)
        else:
            ws = warned(sol, "Relaxed Constants")
            named({d.key for _, d in ws}, factors, where, "constant")
            for msg, d in ws:
                nm = w.name[d.key]
                new = got[nm]/float(UNITS[c13.U[nm]][0])
                require(msg.strip().endswith("relaxed from %-.4g to %-.4g" % (consts[nm], new)), "the warning gives the values", lambda: "%s: %s for %s -> %s" % (where(), msg, consts[nm], new))
            # sensitivities are to the original constants
            ss = sol["sensitivities"]["variables"]
            vkeys = {v.key for v in rel.freedvars}
            for nm in freed:
                require(w.key[nm] in ss, "sensitivities to the freed constants", lambda: "%s: %s" % (where(), nm))
            require(all("OriginalValues" not in str(k) for k in ss), "sensitivities are to the original constants", lambda: "%s: %s" % (where(), list(ss)))
            del vkeys
        require(snapshot(base, w) == before, "relaxing does not change the original", lambda: "%s: %s, was %s" % (where(), snapshot(base, w), before))
        outcome("%s: %s, %s" % (kind.split()[0], "relaxed" if max(factors.values()) > 1.02 else "as is", st))
    ctx.explore("relaxations", body)

    dsets = [s for k in range(1, 3) for s in itertools.combinations(names, k)]

    def debugging(ch):
        w, cost, rcost, m, fresh, box, rows, boxrows, consts, boxed, where0 = setup(ch, dsets, ctx.quick, boxings=("boxed", "as is"))
        free = ch.flag()      # no substitutions at all: constants become numbers? (only models without constants)
        if free != (not consts):
            raise Skip
        verbosity = ch.pick((0, 1))
        where = lambda: "debugging %s (%s), verbosity %s" % (where0(), boxed, verbosity)
        vals = {k: w.si(k, v) for k, v in consts.items()}
        try:
            prog = Program(rcost, rows + (boxrows if boxed == "boxed" else []), vals)
        except NotGP:
            raise Skip
        before = snapshot(m, w)
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            try:
                sol = m.debug(verbosity=verbosity)
            except UnboundedGP:
                require(boxed != "boxed", "boxed models are debugged", where)
                require(not verbosity or "not feasible with relaxed constants and bounded variables" in out.getvalue(), "unbounded models are debugged", where)
                outcome("unbounded")
                return
        require(snapshot(m, w) == before, "debugging does not change the model", lambda: "%s: %s, was %s" % (where(), snapshot(m, w), before))
        if boxed == "as is":
            outcome("unboxed")
            return
        st = prog.status()
        ws = [k for k in ("Relaxed Constants", "Relaxed Constraints", "Arbitrarily Bounded Variables") if sol is not None and warned(sol, k)]
        if st == "optimal":
            require(sol is not None, "debugging a feasible model gives a solution", where)
            # relaxing may still pay when a constraint or constant is worth more than the penalty
            got = evaluate(w, sol, {})
            got.update({n: float(v) for n, v in vals.items() if n not in got})
            x = prog.point(got)
            res, lams = prog.multipliers(x)
            if ws and "Arbitrarily Bounded Variables" not in ws:
                try:
                    plain = fresh().solve(verbosity=0)
                    prices = [float(np.abs(p).max()) for part in ("variables", "constraints") for p in plain["sensitivities"][part].values()]
                except Infeasible:
                    prices = [np.inf]
                require(max(prices) > 10, "a feasible model is relaxed only where that pays", lambda: "%s: %s, prices up to %s" % (where(), ws, max(prices)))
            if not ws and prog.violation(x)[0] < 2e-4:
                require(res < 5e-3, "debugging a feasible model gives its optimum", lambda: "%s: residual %.3g, %s" % (where(), res, sol["variables"]))
            if verbosity:
                require(("feasible without modification" in out.getvalue()) == (not ws), "debug says whether modifications were needed", lambda: "%s: %s" % (where(), out.getvalue()))
            outcome("feasible, " + (ws[0] if ws else "as is"))
        elif st == "infeasible":
            require(sol is None or ws, "debugging an infeasible model names what to relax", lambda: "%s: %s" % (where(), sol and sol["variables"]))
            # a model that constants alone can make feasible is relaxed by its constants, another by its constraints
            if verbosity and ws:
                require(all(msg.strip().split("\n")[0].strip() in out.getvalue() for k in ws for msg, _ in warned(sol, k)), "the warnings are printed", lambda: "%s: %s" % (where(), out.getvalue()))
            if not consts:
                require("Relaxed Constants" not in ws, "there are no constants to relax", where)
            outcome("infeasible, " + (ws[0] if ws else "beyond relaxing"))
        else:
            outcome("border")
        # and the model itself still does what it did
        one, two = [], []
        for model, acc in ((m, one), (fresh(), two)):
            try:
                s = model.solve(verbosity=0)
                acc.append(float(getattr(s["cost"], "magnitude", s["cost"])))
            except Infeasible as e:
                acc.append(type(e).__name__)
        require(one == two or isinstance(one[0], float) and isinstance(two[0], float) and abs(one[0]/two[0]-1) < 1e-4, "solving after debugging", lambda: "%s: %s, fresh %s" % (where(), one, two))
    ctx.explore("debug", debugging)
