"""Reported sensitivities against the envelope theorem on independent reference programs."""
import itertools
import numpy as np
from gpkit import Variable, Model, ConstraintSet, SignomialsEnabled
from gpkit.exceptions import Infeasible, UnboundedGP
from gpkit.units import Quantity
from ..core import require, outcome, Skip
from ..ref import R, F, UNITS, unit_of
from ..opt import Program, NotGP, dlog
from .c13 import World, U

TECHNIQUE = "exhaustive enumeration of small geometric programs solved by the real code; reported sensitivities compared with the envelope theorem on an independent reference program with independently found multipliers"
NOTE = "All sets of constraint templates up to the bound x objectives x constants x histories of building and solving x linking functions; irregular optima (where the derivative does not exist) are recognized by the reference and only counted."
CONSTS = [{}, {"c": 0.25, "d": 3.0}, {"z": 1.5}, {"v0": 200.0, "v1": 150.0, "c": 1.0}, {"y": 2.0, "d": 0.1}, {"z": 0.5, "y": 3.0}]
TOL = 4e-3


def point(w, prog, sol):
    return prog.point({nm: float(np.asarray(sol["variables"][w.key[nm]]))*float(UNITS[U[nm]][0]) for nm in prog.names})


def near(got, want, tol=TOL):
    return abs(got - want) <= tol*max(1.0, abs(want))


def run(ctx):
    n = 2 if ctx.quick else 3
    ctx.bound(constraints="all subsets of up to %s templates of 17, inside a box" % n, constants=len(CONSTS), objectives=5, histories=4)

    def body(ch):
        w = World()
        label, cost, rcost = ch.pick(w.costs())
        idx = ch.pick([p for i in range(1, n+1) for p in itertools.combinations([i for i in range(17) if i != 14], i)])
        over = ch.pick(CONSTS if len(idx) < 3 else CONSTS[:4])
        history = ch.pick(("solve", "other program built in between", "solved before with other constants", "shared with another model")) if len(idx) == 1 else "solve" if sum(idx) % 2 else "other program built in between"
        t = w.templates()
        rows = [t[i] for i in idx]
        rows += w.box(set(rcost.vars()).union(*(s.vars() | l.vars() for r in rows for s, l, _ in r[2])))
        consts = {"c": 2.0, "d": 0.5}
        consts.update(over)
        subs = {w.key[k]: v for k, v in over.items()}
        try:
            prog = Program(rcost, [(s, l, e, (r[0], i, j)) for i, r in enumerate(rows) for j, (s, l, e) in enumerate(r[2])], {k: w.si(k, v) for k, v in consts.items()})
        except NotGP:
            raise Skip
        if prog.trivially_infeasible or not prog.names:
            raise Skip
        m = Model(cost, [r[1] for r in rows], subs)
        try:
            if history == "solve":
                sol = m.solve(verbosity=0)
            elif history == "other program built in between":
                gp = m.gp()
                m.substitutions.update({w.key["d"]: 0.7, w.key["c"]: 1.1})
                try:
                    m.gp()
                except (Infeasible, UnboundedGP):
                    pass
                sol = gp.solve(verbosity=0)
            elif history == "solved before with other constants":
                own = dict(m.substitutions)
                m.substitutions.update({w.key["d"]: 0.7, w.key["c"]: 1.1})
                try:
                    m.solve(verbosity=0)
                except (Infeasible, UnboundedGP):
                    pass
                m.substitutions.update(own)
                sol = m.solve(verbosity=0)
            else:
                gp = m.gp()
                m2 = Model(2*cost, [m, w.x >= Quantity(1e-3, "m")], {w.key["d"]: 0.6})
                try:
                    m2.solve(verbosity=0)
                except (Infeasible, UnboundedGP):
                    pass
                sol = gp.solve(verbosity=0)
        except Infeasible as e:
            outcome(type(e).__name__)
            return
        x = point(w, prog, sol)
        res, lams = prog.multipliers(x)
        if res > 1e-3 or prog.violation(x)[0] > 1e-4 or not prog.regular(x, lams):
            outcome("irregular optimum")
            return
        where = lambda: "min %s s.t. %s with %s" % (label, [r[0] for r in rows], over)
        senss = sol["sensitivities"]
        for nm, v in consts.items():
            want = prog.sensitivity(nm, x, lams)
            got = senss["variables"].get(w.key[nm], 0.0)
            require(near(float(np.asarray(got)), want), "sensitivity of a constant", lambda: "%s of %s: reported %s, derivative is %s" % (nm, where(), got, want))
            if nm in rcost.vars():
                vals = dict(prog.vals)
                vals.update(zip(prog.names, np.exp(x)))
                direct = dlog(rcost, nm, vals)
                got = senss["cost"].get(w.key[nm], 0.0)
                require(near(float(got), direct), "sensitivity of the objective itself", lambda: "%s of %s: reported %s, is %s" % (nm, where(), got, direct))
        for nm in prog.names:
            got = float(np.asarray(senss["variables"].get(w.key[nm], 0.0)))
            require(abs(got) < TOL, "free variables have no sensitivity", lambda: "%s of %s: %s" % (nm, where(), got))
        # constraints
        rest = dict(senss["constraints"])
        total = 0.0
        for con, lam in zip(prog.cons, lams):
            _, i, j = con.label
            leaf = list(rows[i][1])[j] if hasattr(rows[i][1], "__iter__") else rows[i][1]
            key = next((k for k in rest if k is leaf), None)
            require(key is not None, "every constraint has a sensitivity", lambda: "%s of %s" % (con.label, where()))
            got = float(rest.pop(key))
            total += got
            require(near(got, abs(lam)) or near(got, abs(lam)*(1-con.const)), "sensitivity of a constraint",
                    lambda: "%s of %s: reported %s, derivative is %s" % (con.label, where(), got, abs(lam)))
        require(all(float(s) == 0 for s in rest.values()), "other constraints", lambda: str(rest))
        allvars = sum(float(np.abs(np.nan_to_num(np.asarray(s, dtype=float))).sum()) for s in dict.values(senss["variables"]))
        require(near(sum(senss["models"].values()), total + allvars), "models' totals", lambda: "%s for constraints %s and variables %s" % (senss["models"], total, allvars))
        outcome("regular optimum, %s" % ("with folded constants" if any(() in p[4].terms and len(p[4].terms) > 1 for p in prog.pieces) else "plain"))
    ctx.explore("constants and constraints", body)

    def linked(ch):
        "a constant computed from others: its sensitivity is passed on by the chain rule"
        vb = ch.pick((3.0, 0.5))
        a, b = Variable("a", 2.0), Variable("b", vb)
        y, z = Variable("y"), Variable("z")
        fns = {"a b^2": (lambda k: k[a.key]*k[b.key]**2, lambda p, q: p*q**2, lambda p, q: (1.0, 2.0)),
               "a + 2b": (lambda k: k[a.key] + 2*k[b.key], lambda p, q: p+2*q, lambda p, q: (p/(p+2*q), 2*q/(p+2*q))),
               "1/b": (lambda k: 1/k[b.key], lambda p, q: 1/q, lambda p, q: (0.0, -1.0)),
               "7": (lambda k: 0*k[a.key] + 7.0, lambda p, q: 7.0, lambda p, q: (0.0, 0.0))}
        n1 = ch.pick(list(fns))
        n2 = ch.pick([None] + list(fns))
        e = Variable("e", fns[n1][0])
        g = Variable("g", fns[n2][0]) if n2 else None
        # objective and constraint forms: which of a, b, e, g appear where
        r = {n: R.var(n) for n in ("a", "b", "e", "g", "y", "z")}
        costs = {"y": (y, r["y"]), "e y + a/z": (e*y + a/z, r["e"].mul(r["y"]).add(r["a"].div(r["z"]))), "a b e y + z": (a*b*e*y + z, r["a"].mul(r["b"]).mul(r["e"]).mul(r["y"]).add(r["z"])),
                 "e^2 y/b": (e**2*y/b, r["e"].power(2).mul(r["y"]).div(r["b"]))}
        if g is not None:
            costs["e g y + a/z"] = (e*g*y + a/z, r["e"].mul(r["g"]).mul(r["y"]).add(r["a"].div(r["z"])))
        cl = ch.pick(list(costs))
        cost, rcost = costs[cl]
        cons = [("y >= e/10 + z b", y >= e/10 + z*b, (r["e"].div(R.num(10)).add(r["z"].mul(r["b"])), r["y"], False)), ("z >= 1/a", z >= 1/a, (R.num(1).div(r["a"]), r["z"], False)),
                ("y z >= e", y*z >= e, (r["e"], r["y"].mul(r["z"]), False)), ("z <= a e + 5 b", z <= 300*a*e, (r["z"], R.num(300).mul(r["a"]).mul(r["e"]), False)),
                ("y <= 1e4 a", y <= 1e4*a, (r["y"], R.num(10000).mul(r["a"]), False)), ("z >= 0.001 b", z >= 0.001*b, (R.num(F(1, 1000)).mul(r["b"]), r["z"], False)), ("y >= 0.01", y >= 0.01, (R.num(F(1, 100)), r["y"], False))]
        if g is not None:
            cons.insert(0, ("y >= g", y >= g*z**0.1, (r["g"].mul(r["z"].power(F(1, 10))), r["y"], False)))
        picked = [c for i, c in enumerate(cons) if i > 4 or ch.flag()]
        if g is not None and not any("g" in (c[2][0].vars() | c[2][1].vars()) for c in picked) and "g" not in rcost.vars():
            raise Skip
        m = Model(cost, [c[1] for c in picked])
        va = 2.0
        vals = {"a": va, "b": vb, "e": fns[n1][1](va, vb)}
        if g is not None:
            vals["g"] = fns[n2][1](va, vb)
        present = rcost.vars().union(*(c[2][0].vars() | c[2][1].vars() for c in picked))
        if "e" not in present or n1 != "1/b" and "a" not in present or "b" not in present:
            if not {"a", "b"} <= present:   # a function of absent variables cannot be evaluated
                raise Skip
        prog = Program(rcost, [c[2] + (c[0],) for c in picked], vals)
        try:
            sol = m.solve(verbosity=0)
        except UnboundedGP:
            outcome("linked, structurally unbounded")
            return
        except Infeasible as e_:
            outcome("linked " + type(e_).__name__)
            return
        key = {"a": a.key, "b": b.key, "e": e.key, "y": y.key, "z": z.key}
        if g is not None:
            key["g"] = g.key
        for nm in vals:
            if nm in present:
                got = float(sol["variables"][key[nm]])
                require(abs(got/vals[nm]-1) < 1e-9, "linked value", lambda: "%s is %s, expected %s" % (nm, got, vals[nm]))
        x = prog.point({nm: float(sol["variables"][key[nm]]) for nm in prog.names})
        res, lams = prog.multipliers(x)
        if res > 1e-3 or prog.violation(x)[0] > 1e-4 or not prog.regular(x, lams):
            outcome("irregular optimum")
            return
        part = {nm: prog.sensitivity(nm, x, lams) for nm in vals}
        pv = dict(vals)
        pv.update(zip(prog.names, np.exp(x)))
        direct = {nm: dlog(rcost, nm, pv) for nm in vals}
        for i, nm in enumerate(("a", "b")):
            want, want_cost = part[nm], direct[nm]
            for fn, src in ((n1, "e"), (n2, "g")):
                if fn and src in present:
                    chain = fns[fn][2](va, vb)[i]
                    want += part[src]*chain
                    want_cost += direct[src]*chain
            got = float(sol["sensitivities"]["variables"].get(key[nm], 0.0))
            require(near(got, want), "sensitivity through linked functions", lambda: "%s with e=%s, g=%s, min %s s.t. %s: reported %s, derivative is %s"
                    % (nm, n1, n2, cl, [c[0] for c in picked], got, want))
            got = float(sol["sensitivities"]["cost"].get(key[nm], 0.0))
            if nm in rcost.vars():
                require(near(got, want_cost), "objective's own sensitivity through linked functions", lambda: "%s with e=%s, g=%s, min %s s.t. %s: reported %s, derivative is %s"
                        % (nm, n1, n2, cl, [c[0] for c in picked], got, want_cost))
        outcome("linked optimum")
    ctx.explore("linked constants", linked)

    def merging(ch):
        "terms that become alike while their constants are being fixed: each constant gets its own share"
        cv = {"a": 2.0, "b": 3.0, "c": 5.0}
        fixed = ch.pick((("a", "b", "c"), ("b", "c"), ("a",)))
        order = ch.pick(("constants first", "constants last"))
        where = ch.pick(("constraint", "objective", "twice"))
        menu = ["b x", "c x", "a b x", "a c x", "a b", "a c", "c", "1", "b/x", "x"]
        size = ch.pick((3, 4) if ctx.quick else (2, 3, 4, 5))
        terms = ch.pick(list(itertools.combinations(menu, size)))
        x, y = Variable("x"), Variable("y")
        v = {"x": x, "a": Variable("a"), "b": Variable("b"), "c": Variable("c"), "1": 1}
        r = {"x": R.var("x"), "a": R.var("a"), "b": R.var("b"), "c": R.var("c"), "1": R.num(1)}

        def term(t):
            num, _, den = t.partition("/")
            names = num.split()
            if order == "constants last":
                names = names[::-1]
            out, ref = None, None
            for n in names:
                out = v[n] if out is None else out*v[n]
                ref = r[n] if ref is None else ref.mul(r[n])
            if den:
                out, ref = out/v[den], ref.div(r[den])
            return out, ref
        posy, rposy = term(terms[0])
        for t in terms[1:]:
            p, q = term(t)
            posy, rposy = posy + p, rposy.add(q)
        ry = R.var("y")
        cons = [("x >= 1/20", x >= 0.05, (R.num(F(1, 20)), r["x"], False)), ("x <= 50", x <= 50, (r["x"], R.num(50), False))]
        for n in ("a", "b", "c"):
            if n not in fixed:
                cons += [(n + " >= 1", v[n] >= 1, (R.num(1), r[n], False)), (n + " <= 9", v[n] <= 9, (r[n], R.num(9), False))]
        if where == "objective":
            cost, rcost = posy + 1/x, rposy.add(r["x"].power(-1))
        else:
            cost, rcost = y/x**0.5, ry.div(r["x"].power(F(1, 2)))
            cons.append(("y >= posy", y >= posy, (rposy, ry, False)))
            if where == "twice":
                cons.append(("y^2 >= posy", y**2 >= 3*posy, (rposy.mul(R.num(3)), ry.power(2), False)))
        present = rcost.vars().union(*(c[2][0].vars() | c[2][1].vars() for c in cons))
        vals = {n: cv[n] for n in fixed if n in present}
        prog = Program(rcost, [c[2] + (c[0],) for c in cons], vals)
        m = Model(cost, [c[1] for c in cons], {v[n]: cv[n] for n in vals})
        try:
            sol = m.solve(verbosity=0)
        except Infeasible as e:
            outcome("merging " + type(e).__name__)
            return
        key = {n: v[n].key for n in "abcx"}
        key["y"] = y.key
        pt = prog.point({nm: float(sol["variables"][key[nm]]) for nm in prog.names})
        res, lams = prog.multipliers(pt)
        if res > 1e-3 or prog.violation(pt)[0] > 1e-4 or not prog.regular(pt, lams):
            outcome("irregular optimum")
            return
        for nm in vals:
            got, want = float(sol["sensitivities"]["variables"].get(key[nm], 0.0)), prog.sensitivity(nm, pt, lams)
            require(near(got, want), "sensitivity through merged terms", lambda: "%s with %s in the %s, %s, %s fixed: reported %s, derivative is %s" % (nm, " + ".join(terms), where, order, fixed, got, want))
        outcome("merging, %s" % where)
    ctx.explore("terms that merge", merging)

    def signs(ch):
        "constants that are negative, in constraints that are posynomial once they are given"
        kind = ch.pick(("given", "-b/4", "1 - b", "-1/b", "b - 5", "a - b"))
        vb = ch.pick((3.0, 1.25))
        sweep = ch.flag()
        a, b = Variable("a"), Variable("b")
        fn = {"-b/4": lambda k: -k[b.key]/4, "1 - b": lambda k: 1 - k[b.key], "-1/b": lambda k: -1/k[b.key], "b - 5": lambda k: k[b.key] - 5, "a - b": lambda k: k[a.key] - k[b.key]}
        va = 0.75
        val, dlogs = {"given": (-vb, {}), "-b/4": (-vb/4, {"b": 1.0}), "1 - b": (1-vb, {"b": vb/(vb-1)}), "-1/b": (-1/vb, {"b": -1.0}), "b - 5": (vb-5, {"b": vb/(vb-5)}),
                      "a - b": (va-vb, {"a": va/(va-vb), "b": -vb/(va-vb)})}[kind]
        p = Variable("p") if kind == "given" else Variable("p", fn[kind])
        y, z = Variable("y"), Variable("z")
        r = {n: R.var(n) for n in ("a", "b", "p", "y", "z")}
        neg = lambda q: R.num(-1).mul(q)
        with SignomialsEnabled():
            menu = [("y >= 1/z - p z", y >= 1/z - p*z, (r["z"].power(-1).add(neg(r["p"].mul(r["z"]))), r["y"], False)),
                    ("y >= b z - p", y >= b*z - p, (r["b"].mul(r["z"]).add(neg(r["p"])), r["y"], False)),
                    ("y + 2 p z >= p z + a", y + 2*p*z >= p*z + a, (neg(r["p"].mul(r["z"])).add(r["a"]), r["y"], False)),
                    ("y >= p^2/z", y >= p**2/z, (r["p"].power(2).div(r["z"]), r["y"], False)),
                    ("p y z + 1 <= 0", 0.5*a <= -1*p*y*z, (r["a"].mul(R.num(F(1, 2))), neg(r["p"].mul(r["y"]).mul(r["z"])), False))]
        cl = ch.pick(("y", "y z", "y + p^2 z"))
        cost, rcost = {"y": (y, r["y"]), "y z": (y*z**0.5, r["y"].mul(r["z"].power(F(1, 2)))), "y + p^2 z": (y + p**2*z, r["y"].add(r["p"].power(2).mul(r["z"])))}[cl]
        picked = [c for c in menu if ch.flag()]
        if not picked:
            raise Skip
        picked += [("box", c, ref) for c, ref in ((y >= 0.01*a, (r["a"].mul(R.num(F(1, 100))), r["y"], False)), (y <= 1e3*b, (r["y"], r["b"].mul(R.num(1000)), False)),
                                                  (z >= 0.02, (R.num(F(1, 50)), r["z"], False)), (z <= 40, (r["z"], R.num(40), False)))]
        present = rcost.vars().union(*(c[2][0].vars() | c[2][1].vars() for c in picked))
        if "p" not in present:
            raise Skip
        vals = {"a": va, "b": vb, "p": val}
        prog = Program(rcost, [c[2] + (c[0],) for c in picked], vals)
        subs = {a: va, b: ("sweep", [vb, 4.0]) if sweep else vb}
        if kind == "given":
            subs[p] = val
        sol = Model(cost, [c[1] for c in picked], subs).solve(verbosity=0)
        if sweep:
            sol = sol.atindex(0)
        key = {n: v.key for n, v in (("a", a), ("b", b), ("p", p), ("y", y), ("z", z))}
        num = lambda v: float(np.ravel(v)[0])
        require(abs(num(sol["variables"][p.key]) - val) < 1e-12, "linked value", kind)
        x = prog.point({nm: num(sol["variables"][key[nm]]) for nm in prog.names})
        res, lams = prog.multipliers(x)
        if res > 1e-3 or prog.violation(x)[0] > 1e-4 or not prog.regular(x, lams):
            outcome("irregular optimum")
            return
        part = {nm: prog.sensitivity(nm, x, lams) for nm in vals}
        want = {nm: part[nm] + part["p"]*dlogs.get(nm, 0.0) for nm in ("a", "b")}
        if kind == "given":
            want["p"] = part["p"]
        for nm, w in want.items():
            got = num(sol["sensitivities"]["variables"].get(key[nm], 0.0))
            require(near(got, w), "sensitivity with negative constants", lambda: "%s, p %s, b = %s, min %s s.t. %s%s: reported %s, derivative is %s" % (nm, kind, vb, cl, [c[0] for c in picked], ", swept" * sweep, got, w))  # pylint: disable=cell-var-from-loop
        outcome("negative constants")
    ctx.explore("negative constants", signs)
    ctx.bound(negative="5 constraints that become posynomial, 5 functions and a given value, 3 objectives, swept or not")
