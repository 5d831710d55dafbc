"""Taylor-expansion helpers against exact rational series."""
import itertools
from fractions import Fraction
from math import factorial
import numpy as np
from gpkit import Variable, VectorVariable, SignomialsEnabled, units
from gpkit.units import Quantity
from gpkit.tools.tools import te_exp_minus1, te_secant, te_tangent
from ..core import require, Skip, outcome

TECHNIQUE = "exhaustive enumeration of helper x number of terms x argument on the real code, coefficient by coefficient against exact rational recurrences of the series"
NOTE = "Every number of terms from 0 to 20 (60 thorough), every argument of the alphabet (scalars, posynomials, signomials, vectors, plain numbers, angles and other dimensionless units). Coefficients to 1e-12."


def zigzag(n):
    "the first n Euler zigzag numbers, exactly (Seidel's triangle)"
    out, row = [1], [1]
    for _ in range(n):
        new = [0]
        for v in reversed(row):
            new.append(new[-1] + v)
        row = new
        out.append(row[-1])
    return out


ZIG = zigzag(130)


def series(kind, n):
    "{power: exact coefficient} of the truncated series"
    if kind == "exp":
        return {i: Fraction(1, factorial(i)) for i in range(1, n + 1)}
    if kind == "sec":
        return {2*i: Fraction(ZIG[2*i], factorial(2*i)) for i in range(0, n + 1)}
    return {2*i - 1: Fraction(ZIG[2*i - 1], factorial(2*i - 1)) for i in range(1, n + 1)}


FN = {"exp": te_exp_minus1, "sec": te_secant, "tan": te_tangent}


def arguments():
    x, y = Variable("x"), Variable("y")
    v, w = VectorVariable(3, "v"), VectorVariable((2, 2), "w")
    return {"x": x, "monomial": 3*x**0.5/y, "reciprocal": 1/x, "vector": v, "matrix": w, "scaled vector": 2*v*x, "element": v[1], "x + y": x + y, "2x + y/x + 1": 2*x + y/x + 1,
            "vector sum": v + x, "x - y": None, "number": 0.25, "integer": 2, "array": np.array([0.25, 0.5]), "degrees": Variable("d", "degree"), "radians": Variable("r", "radian"),
            "percent": Variable("p", "m/cm"), "constant": Variable("k", 0.3), "metres": Variable("m", "m"), "dimensionless quantity": Quantity(0.25, "dimensionless")}


BIG = ("x + y", "2x + y/x + 1", "vector sum", "x - y")




def hmap(p):
    "plain {exponents: coefficient} of a scalar, dimensionless"
    if not hasattr(p, "hmap"):
        p = p.to("dimensionless").magnitude if hasattr(p, "to") else p
        return {(): Fraction(float(p))}
    scale = Fraction(float(Quantity(1.0, p.units).to("dimensionless").magnitude)) if p.units else 1
    return {tuple(sorted((k.eqstr, Fraction(float(e)).limit_denominator(10**6)) for k, e in exp.items())): Fraction(float(c))*scale for exp, c in p.hmap.items()}


def run(ctx):
    top = 20 if ctx.quick else 60

    def one(case):
        kind, n, arg = case
        if arg in BIG and n > (8 if ctx.quick else 12) or arg == "array" and n > 20:  # plain arrays are not documented arguments
            raise Skip
        a = arguments()[arg]
        if arg == "x - y":
            with SignomialsEnabled():
                a = Variable("x") - Variable("y")
        before = [sorted(hmap(e).items()) for e in np.array(a, dtype=object).flatten()] if arg not in ("dimensionless quantity", "metres") else None

        def call():
            if arg == "x - y":
                with SignomialsEnabled():
                    return FN[kind](a, n)
            return FN[kind](a, n)
        if kind == "tan" and n > 15:
            try:
                got = call()
            except NotImplementedError:
                outcome("refused")
                return
            # an exact expansion would be as good as a refusal
        elif arg == "metres":
            if n <= 1 and kind != "sec" or n == 0:
                raise Skip
            try:
                call()
            except Exception:  # pylint: disable=broad-except
                return
            require(False, "units", "the %s of metres was expanded" % kind)
        else:
            got = call()
        outcome("expanded")
        coefs = series(kind, n)
        shape = np.shape(a) if isinstance(a, np.ndarray) else ()
        if n and shape:
            require(np.shape(got) == shape, "shape", "%s of %s: %s" % (kind, arg, np.shape(got)))
        arr = np.array(a, dtype=object) if shape else None
        for idx in np.ndindex(*shape):
            el = arr[idx] if shape else a
            g = got[idx] if np.shape(got) else got
            base, want = hmap(el), {}
            acc, at = {(): Fraction(1)}, 0
            for p in sorted(coefs):
                if len(base) == 1:
                    (e, c), = base.items()
                    acc = {tuple((k, q*p) for k, q in e if p): c**p}
                else:
                    for _ in range(p - at):
                        acc = mul(acc, base)
                    at = p
                for e, c in acc.items():
                    want[e] = want.get(e, 0) + c*coefs[p]
            want = {e: c for e, c in want.items() if c}
            have = {e: c for e, c in hmap(g).items() if c}
            for e in set(want) | set(have):
                r, h = want.get(e, 0), have.get(e, 0)
                require(abs(h - r) <= Fraction(1, 10**11)*abs(r) + (Fraction(1, 10**11) if arg == "x - y" else 0), "a coefficient is not that of the series",
                        "%s, %i terms of %s, at %s: %.17g instead of %.17g" % (FN[kind].__name__, n, arg, e, float(h), float(r)))
        if before is not None:
            require([sorted(hmap(e).items()) for e in np.array(a, dtype=object).flatten()] == before, "the argument was modified", "%s of %s" % (kind, arg))
    ctx.cases("expansions", itertools.product(("exp", "sec", "tan"), range(top + 1), sorted(arguments())), one)


def mul(a, b):
    out = {}
    for (e, c), (f, d) in itertools.product(a.items(), b.items()):
        m = dict(e)
        for k, p in f:
            m[k] = m.get(k, 0) + p
        key = tuple(sorted((k, p) for k, p in m.items() if p))
        out[key] = out.get(key, 0) + c*d
    return out
