"""Units: every assignment of units to the slots of expressions and constraints, and every history of earlier conversions."""
import gc
import itertools
import gpkit
from gpkit import Variable, SignomialsEnabled
from gpkit.exceptions import DimensionalityError
from gpkit.units import Quantity
from ..core import require, outcome, fail
from ..ref import R, Undefined, of, same, UNITS, unit_of, same_dims

TECHNIQUE = "exhaustive exploration of unit assignments and of conversion histories (caches reset per execution) against exact SI arithmetic"
NOTE = "All assignments of a menu of units to the slots of expression and constraint shapes, and all histories of up to 3 (thorough 4) earlier constructions; physical meaning is computed from pint's base-unit factors."


def clear_caches():
    "The process-wide unit caches start empty in every execution."
    u = gpkit.units
    for owner in (u, type(u)):
        for v in list(vars(owner).values()):
            if isinstance(v, dict):
                v.clear()


def meaning_lt1(con, names):
    "[posy <= 1] of a compiled constraint, in SI"
    out = []
    for h in con.as_hmapslt1({}):
        t = {}
        for exp, c in h.items():
            k = []
            for vk, e in exp.items():
                c = c/unit_of(vk.units)[0]**float(e)
                k.append((names(vk), e))
            t[tuple(sorted(k))] = float(c)
        out.append(t)
    return out


def close(got, want):
    return set(got) == set(want) and all(abs(got[k]-want[k]) <= 1e-9*abs(want[k]) for k in got)


def lt1(less, more):
    "reference: (less <= more) as {term: coeff} of posy <= 1, constants moved right"
    q = less.div(more)
    t = {k: float(c) for k, c in q.terms.items()}
    c0 = t.pop((), 0.0)
    return {tuple((n, float(e)) for n, e in k): c/(1-c0) for k, c in t.items()} if t else {}


LEN, AREA, TIME, DIMLESS = ("m", "cm", "ft", "km"), ("m^2", "cm^2"), ("s", "min"), ("", "percent", "-")


def nm(vk):
    return vk.name


def run(ctx):
    hist_len = 3 if ctx.quick else 4
    ctx.bound(history=hist_len, units=sorted(UNITS))
    ctx.assumptions = ["pint converts a single unit to SI base units correctly"]

    # (a) histories
    def item(lu, ru, p, shape):
        def op():
            x, q = Variable("x", lu), Variable("q", ru)
            left = x**p if shape != "prod" else x*x
            right = q**p if shape != "prod" else q*q
            xr, qr = R.var("x", lu), R.var("q", ru)
            lr, rr = (xr.power(p), qr.power(p)) if shape != "prod" else (xr.mul(xr), qr.mul(qr))
            if shape == "sum":
                with SignomialsEnabled():
                    s = left + right
                require(same(of(s, nm), lr.add(rr)), "sum", lambda: "(%s)+(%s) [%s,%s] = %s" % (left, right, lu, ru, of(s, nm)))
                return
            if shape == "to":
                t = left.to(ru + ("**%s" % p if p != 1 else ""))
                require(same(of(t, nm), lr), "to", lambda: "%s.to(%s^%s) = %s" % (left, ru, p, of(t, nm)))
                return
            con = left <= right
            got = meaning_lt1(con, nm)
            want = lt1(lr, rr)
            require(len(got) == 1 and close({tuple((n, float(e)) for n, e in k): c for k, c in got[0].items()}, want), "constraint",
                    lambda: "(%s [%s] <= %s [%s]) compiled to %s, expected %s" % (left, lu, right, ru, got, want))
        op.__name__ = "%s %s^%s %s" % (shape, lu, p, ru)
        return op
    menu = [item(lu, ru, p, sh) for lu, ru in (("m", "cm"), ("cm", "m"), ("ft", "m"), ("s", "min"), ("km", "ft")) for p, sh in ((2, "le"), (0.5, "le"))]
    menu += [item("m", "cm", 1, "to"), item("ft", "cm", 2, "to"), item("s", "min", 2, "sum"), item("ft", "m", 2, "prod"), item("m", "km", 3, "sum"), item("min", "s", 1, "le")]
    if ctx.quick:
        menu = menu[:4] + menu[6:8] + menu[10:]

    def history(ch):
        clear_caches()
        n = ch.pick(range(1, hist_len+1))
        for _ in range(n):
            ch.pick(menu)()
            if ch.flag():
                gc.collect(0)
        outcome("history %d" % n)
    ctx.explore("histories of conversions", history)

    # (b) unit assignments
    def shapes(ch):
        clear_caches()
        shape = ch.pick(("sum of three", "product and sum", "power", "constant right", "quantity right", "signomial", "dimensionless", "to", "equality"))
        lens = LEN if not ctx.quick else LEN[:3]
        if shape == "dimensionless":
            us = [ch.pick(DIMLESS) for _ in range(3)]
            a, b, c = [Variable(n, u) if u else Variable(n) for n, u in zip("abc", us)]
            ra, rb, rc = [R.var(n, u).mul(R({(): 1})) for n, u in zip("abc", us)]
            order = ch.pick(("a+b", "a+1", "1+a", "a+q", "a*b+c"))
            q, rq = Quantity(50.0, "percent"), R.num(50, "percent")
            e, re_ = {"a+b": (lambda: a + b, lambda: ra.add(rb)), "a+1": (lambda: a + 1, lambda: ra.add(R.num(1))), "1+a": (lambda: 1 + a, lambda: ra.add(R.num(1))),
                      "a+q": (lambda: a + q, lambda: ra.add(rq)), "a*b+c": (lambda: a*b + c, lambda: ra.mul(rb).add(rc))}[order]
            e, re_ = e(), re_()
            require(same(of(e, nm), re_), "dimensionless sum", lambda: "%s with units %s = %s, expected %s" % (order, us, of(e, nm), re_))
            con = c >= 0.25*e
            got, want = meaning_lt1(con, nm), lt1(re_.mul(R.num(0.25)), rc)
            if ((tuple() in want) or not want):
                return
            require(len(got) == 1 and close({tuple((n, float(x)) for n, x in k): v for k, v in got[0].items()}, want), "dimensionless constraint", lambda: "%s %s: %s vs %s" % (order, us, got, want))
            outcome("dimensionless")
            return
        u1, u2 = ch.pick(lens), ch.pick(lens)
        a, b = Variable("a", u1), Variable("b", u2)
        ra, rb = R.var("a", u1), R.var("b", u2)
        if shape == "to":
            e, r = {"a": (a, ra), "a+b": (a + b, ra.add(rb)), "ab": (a*b, ra.mul(rb)), "a/b": (a/b, ra.div(rb))}[ch.pick(("a", "a+b", "ab", "a/b"))]
            u3 = ch.pick(("m", "cm", "km", "m^2", "cm^2", "s", "-", "percent", "1/m"))
            un = {"-": "dimensionless", "1/m": "1/m"}.get(u3, u3)
            try:
                t = e.to(un)
            except DimensionalityError:
                require(not same_dims(r.dims, UNITS[u3][1]), "to refused", lambda: "(%s).to(%s)" % (e, u3))
                outcome("to raises")
                return
            require(same_dims(r.dims, UNITS[u3][1]) and same(of(t, nm), r), "to", lambda: "(%s [%s,%s]).to(%s) = %s" % (e, u1, u2, u3, of(t, nm)))
            require(abs(unit_of(t.units)[0]/float(UNITS[u3][0]) - 1) < 1e-12, "unit of to", lambda: "%s" % t.units)
            outcome("to")
            return
        u3 = ch.pick(lens)
        if shape == "sum of three":
            c = Variable("c", u3)
            e, r = [(a + b + c, None), (a + (c + b), None), ((a + c)*2 + b, None)][0], ra.add(rb).add(R.var("c", u3))
            order = ch.pick(range(3))
            e = (lambda: a + b + c, lambda: c + (a + b), lambda: b + (c + a))[order]()
            require(same(of(e, nm), r), "sum", lambda: "a+b+c in %s,%s,%s: %s" % (u1, u2, u3, of(e, nm)))
            u4 = ch.pick(lens)
            d = Variable("d", u4)
            side = ch.flag()
            con = (d >= e) if side else (e <= d)
            want = lt1(r, R.var("d", u4))
        elif shape == "product and sum":
            u4 = ch.pick(AREA)
            c, d = Variable("c", u3), Variable("d", u4)
            e, r = a*b + c**2, ra.mul(rb).add(R.var("c", u3).power(2))
            con, want = d >= e, lt1(r, R.var("d", u4))
        elif shape == "power":
            u4 = ch.pick(AREA)
            d = Variable("d", u4)
            con, want = a <= (d**0.5*b)**0.5*(b/a)**0.5, lt1(ra, R.var("d", u4).power(0.5).mul(rb).power(0.5).mul(rb.div(ra).power(0.5)))
        elif shape == "constant right":
            con, want = a + b <= 7*gpkit.units(u3), lt1(ra.add(rb), R.num(7, u3))
        elif shape == "quantity right":
            con = ch.pick((lambda: a + b <= Quantity(7.0, u3), lambda: Quantity(7.0, u3)*gpkit.units("")**0 >= a + b) if False else (lambda: a + b <= Quantity(7.0, u3),))()
            want = lt1(ra.add(rb), R.num(7, u3))
        elif shape == "equality":
            con, want = a*b == 3*Variable("c", u3)**2, lt1(ra.mul(rb), R.num(3).mul(R.var("c", u3).power(2)))
        else:
            c = Variable("c", u3)
            with SignomialsEnabled():
                con = a + c >= b - 2*c if ch.flag() else b <= a + 3*c
                sig = con.unsubbed[0]
            got = of(sig, nm)
            neg = ra.add(R.var("c", u3).mul(R.num(3))).add(rb, -1).neg()
            k = (("b", 1),)
            scale = float(got.terms[k])
            require(scale > 0 and all(abs(float(v)/scale - float(neg.terms[kk])) < 1e-9*abs(float(neg.terms[kk])) for kk, v in got.terms.items()) and set(got.terms) == set(neg.terms),
                    "signomial constraint", lambda: "%s in %s,%s,%s is %s" % (con, u1, u2, u3, got))
            outcome("signomial")
            return
        got = meaning_lt1(con, nm)
        got = [{tuple((n, float(x)) for n, x in k): v for k, v in g.items()} for g in got]
        require(len(got) == (2 if shape == "equality" else 1) and close(got[0], want), "constraint", lambda: "%s with units %s,%s,%s: compiled to %s, expected %s" % (con, u1, u2, u3, got, want))
        if shape == "equality":
            inv = {tuple((n, -x) for n, x in k): 1/c for k, c in want.items()}
            require(close(got[1], inv), "equality", lambda: "%s: %s" % (con, got))
        outcome(shape)
    ctx.explore("unit assignments", shapes)

    # (c) dimension errors
    def kinds(n, u):
        v = Variable(n, u) if u else Variable(n)
        g = gpkit.units(u) if u else 1
        out = [("var", v), ("mono", 2*v), ("posy", v + 3*g if u else v + 3), ("const", v.sub(2)), ("quantity", Quantity(2.0, u) if u else 2.0)]
        with SignomialsEnabled():
            out.append(("sig", v - 3*g if u else v - 3))
        return out

    def dims(ch):
        clear_caches()
        u1, u2 = ch.pick(("", "m", "kg", "m^2", "cm", "percent")), ch.pick(("", "m", "kg", "m^2", "cm", "percent"))
        (k1, a), (k2, b) = ch.pick(kinds("a", u1)), ch.pick(kinds("b", u2))
        op = ch.pick(("+", "-", "<=", ">=", "=="))
        if k1 == "quantity" and u1 or k1 == k2 == "quantity":
            return  # pint's dispatch
        agree = same_dims(UNITS[u1][1], UNITS[u2][1])
        with SignomialsEnabled():
            try:
                r = {"+": lambda: a + b, "-": lambda: a - b, "<=": lambda: a <= b, ">=": lambda: a >= b, "==": lambda: a == b}[op]()
            except DimensionalityError:
                require(not agree, "compatible dimensions refused", lambda: "%s [%s] %s %s [%s]" % (a, u1, op, b, u2))
                outcome("DimensionalityError")
                return
            except gpkit.exceptions.PrimalInfeasible:
                r = None
            except TypeError as e:
                require("greater-than side" in str(e) or "SignomialInequality" in str(e), "wrong exception", lambda: "%s %s %s raised %r" % (a, op, b, e))
                r = None
        if op == "==" and not agree:
            require(not bool(r), "unequal dimensions equal", lambda: "%s [%s] == %s [%s]" % (a, u1, b, u2))
        else:
            require(agree, "incompatible dimensions accepted", lambda: "%s [%s] %s %s [%s] gave %s" % (a, u1, op, b, u2, r))
        outcome("accepted")
    ctx.explore("dimension errors", dims)
