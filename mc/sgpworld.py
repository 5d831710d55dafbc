"""Signomial programs and their reference: constraint templates, local approximations, unique-optimum families."""
import math
from gpkit import Variable, SignomialsEnabled, SignomialEquality
from gpkit.units import Quantity
from .ref import R, F, UNITS

U = {"x": "", "y": "", "z": "", "w": "ft", "u": "m", "c": "", "d": ""}
FREE = ("x", "y", "z", "w", "u")


class World:
    def __init__(self):
        self.var = {n: Variable(n, U[n]) if U[n] else Variable(n) for n in FREE}
        self.var["c"], self.var["d"] = Variable("c"), Variable("d")
        for n, v in self.var.items():
            setattr(self, n, v)
        self.key = {n: v.key for n, v in self.var.items()}
        self.name = {k: n for n, k in self.key.items()}
        self.r = {n: R.var(n, u) for n, u in U.items()}

    def si(self, nm, v):
        return F(v)*UNITS[U[nm]][0]

    def templates(self):
        "(label, constraint, small, large, equality)"
        x, y, z, w, u, c, d = (self.var[n] for n in ("x", "y", "z", "w", "u", "c", "d"))
        rx, ry, rz, rw, ru, rc, rd = (self.r[n] for n in ("x", "y", "z", "w", "u", "c", "d"))
        one, two = R.num(1), R.num(2)
        m, ft = Quantity(1, "m"), Quantity(1, "ft")
        a = lambda *t: t[0].add(a(*t[1:])) if len(t) > 1 else t[0]
        p = lambda *t: t[0].mul(p(*t[1:])) if len(t) > 1 else t[0]
        with SignomialsEnabled():
            return [("x^2+y^2 >= x y + z", x**2 + y**2 >= x*y + z, a(p(rx, ry), rz), a(rx.power(2), ry.power(2)), False),
                    ("x + 1/x >= y", x + 1/x >= y, ry, a(rx, one.div(rx)), False),
                    ("z + y <= 1 + x", z + y <= 1 + x, a(rz, ry), a(one, rx), False),
                    ("x^2 + x == y", SignomialEquality(x**2 + x, y), a(rx.power(2), rx), ry, True),
                    ("c x + d y >= z + 1", c*x + d*y >= z + 1, a(rz, one), a(p(rc, rx), p(rd, ry)), False),
                    ("x + 1/x == z + c/z", SignomialEquality(x + 1/x, z + c/z), a(rx, one.div(rx)), a(rz, rc.div(rz)), True),
                    ("w^2 + w u >= x u^2 + c m^2", w**2 + w*u >= x*u**2 + c*m**2, a(p(rx, ru.power(2)), p(rc, R.num(1, "m^2"))), a(rw.power(2), p(rw, ru)), False),
                    ("3 x y <= x^2 + y^2", 3*x*y <= x**2 + y**2, p(R.num(3), rx, ry), a(rx.power(2), ry.power(2)), False),
                    ("w + x u >= 2 y ft", w + x*u >= 2*y*ft, p(two, ry, R.num(1, "ft")), a(rw, p(rx, ru)), False),
                    ("y z >= z^2 - x z + c", y*z >= z**2 - x*z + c, a(rz.power(2), rc), a(p(ry, rz), p(rx, rz)), False)]

    def box(self, names, lo=0.1, hi=10.0):
        out = []
        for nm in sorted(names):
            q = lambda v: Quantity(v, U[nm]) if U[nm] else v
            out += [("%s >= %s" % (nm, lo), self.var[nm] >= q(lo), R.num(lo, U[nm]), self.r[nm], False),
                    ("%s <= %s" % (nm, hi), self.var[nm] <= q(hi), self.r[nm], R.num(hi, U[nm]), False)]
        return out


def mono(r, at):
    "the reference local monomial approximation of a posynomial at a point {name: SI}: (coefficient, {name: exponent})"
    val = {k: float(c)*math.prod(float(at[n])**float(e) for n, e in k) for k, c in r.terms.items()}
    tot = sum(val.values())
    exp = {}
    for k, v in val.items():
        for n, e in k:
            exp[n] = exp.get(n, 0.0) + float(e)*v/tot
    c = tot
    for n, e in exp.items():
        c /= float(at[n])**e
    return c, exp


def over(terms, m):
    "[(coefficient, {name: exponent})] of posynomial terms divided by a monomial"
    c, exp = m
    out = []
    for k, v in terms:
        e = dict(k)
        for n, x in exp.items():
            e[n] = e.get(n, 0.0) - x
        out.append((float(v)/c, e))
    return merge(out)


def merge(terms):
    "like terms combined"
    out = []
    for c, e in terms:
        e = {n: float(x) for n, x in e.items() if abs(x) > 1e-10}
        for i, (c2, e2) in enumerate(out):
            if set(e) == set(e2) and all(abs(e[n]-e2[n]) < 1e-10 for n in e):
                out[i] = (c2+c, e2)
                break
        else:
            out.append((c, e))
    return out


def approximations(small, large, eq, vals, at):
    "the posynomials <= 1 that replace small <= large (== when eq) at a point"
    d = small.sub(vals).add(large.sub(vals), -1)
    pos = [(k, c) for k, c in d.terms.items() if c > 0]
    neg = [(k, -c) for k, c in d.terms.items() if c < 0]
    mneg = mono(R(dict(neg), small.dims), at)
    if not eq:
        return [over([(dict(k), c) for k, c in pos], mneg)]
    mpos = mono(R(dict(pos), small.dims), at)
    return [over([(mpos[1], mpos[0])], mneg), over([(mneg[1], mneg[0])], mpos)]


def own_units(terms):
    "coefficients for variables measured in their own units"
    out = []
    for c, e in terms:
        for n, x in e.items():
            if n in U:
                c *= float(UNITS[U[n]][0])**x
        out.append((c, e))
    return out


def fold(terms):
    "constants moved across: None if always true, 'infeasible' if never"
    const = sum(c for c, e in terms if not e)
    rest = [(c/(1-const), e) for c, e in terms if e] if const != 1 else [(math.inf, e) for c, e in terms if e]
    if not rest:
        return None if const <= 1+1e-3 else "infeasible"
    return "infeasible" if const >= 1 else rest


def same(got, want, tol=1e-7):
    "two lists of (coefficient, {name: exponent}) describe the same posynomial"
    if len(got) != len(want):
        return False
    left = list(want)
    for c, e in got:
        for i, (c2, e2) in enumerate(left):
            if abs(c-c2) <= tol*max(abs(c2), 1e-12) and all(abs(e.get(n, 0.0)-e2.get(n, 0.0)) < tol for n in set(e) | set(e2)):
                del left[i]
                break
        else:
            return False
    return True
