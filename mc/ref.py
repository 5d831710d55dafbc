"""Reference arithmetic: signomials with coefficients in SI base units, as plain dictionaries.

A reference nomial is R(terms, dims): terms maps a sorted tuple of (variable name, exponent) to a coefficient (Fraction while
exact, float otherwise) in SI, where each variable stands for its physical value in SI; dims is a tuple of SI dimension exponents.
"""
from fractions import Fraction
from math import isclose, inf
import numpy as np

F = Fraction
# unit -> (factor to SI, (m, kg, s))
UNITS = {"m": (F(1), (1, 0, 0)), "cm": (F(1, 100), (1, 0, 0)), "km": (F(1000), (1, 0, 0)), "ft": (F(3048, 10000), (1, 0, 0)),
         "inch": (F(254, 10000), (1, 0, 0)), "kg": (F(1), (0, 1, 0)), "g": (F(1, 1000), (0, 1, 0)), "s": (F(1), (0, 0, 1)),
         "min": (F(60), (0, 0, 1)), "hr": (F(3600), (0, 0, 1)), "m^2": (F(1), (2, 0, 0)), "cm^2": (F(1, 10000), (2, 0, 0)),
         "N": (F(1), (1, 1, -2)), "m/s": (F(1), (1, 0, -1)), "ft/min": (F(3048, 600000), (1, 0, -1)), "1/m": (F(1), (-1, 0, 0)),
         "percent": (F(1, 100), (0, 0, 0)), "": (F(1), (0, 0, 0)), "-": (F(1), (0, 0, 0))}
_BASE = {"meter": (1, 0, 0), "kilogram": (0, 1, 0), "second": (0, 0, 1)}
NODIM = (0, 0, 0)


class Undefined(Exception):
    "The expression has no value: kind is 'dims', 'poly' (not a polynomial) or 'zero'."
    def __init__(self, kind):
        super().__init__(kind)
        self.kind = kind


def frac(v):
    if isinstance(v, Fraction):
        return v
    if isinstance(v, (bool, int, np.integer)):
        return F(int(v))
    v = float(v)
    return F(v) if abs(v) not in (inf,) and v == v else v


def unit_of(q):
    "(factor, dims) of a pint unit / quantity / None, from pint's definition of SI (numbers in the quantity excluded)."
    if q is None:
        return 1.0, NODIM
    key = q.units
    if key in _SEEN:
        return _SEEN[key]
    from gpkit.units import Quantity
    b = Quantity(1, q.units).to_base_units()
    dims = [F(0)]*3
    for name, p in b.units._units.items():  # pylint: disable=protected-access
        for i, d in enumerate(_BASE[name]):
            dims[i] += d*frac(p)
    _SEEN[key] = float(b.magnitude), tuple(dims)
    return _SEEN[key]


_SEEN = {}


def same_dims(a, b):
    return all(abs(float(p) - float(q)) < 1e-9 for p, q in zip(a, b))


class R:
    __slots__ = ("terms", "dims")

    def __init__(self, terms=None, dims=NODIM):
        self.terms = {k: c for k, c in (terms or {}).items() if c != 0}
        self.dims = tuple(dims)

    @classmethod
    def num(cls, v, unit=""):
        f, d = UNITS[unit]
        return cls({(): frac(v)*f}, d)

    @classmethod
    def var(cls, name, unit=""):
        return cls({((name, F(1)),): F(1)}, UNITS[unit][1])

    def __repr__(self):
        return "R(%s; %s)" % (" + ".join("%.6g*%s" % (float(c), "*".join("%s^%s" % e for e in k)) for k, c in self.terms.items()) or "0",
                              ",".join(map(str, self.dims)))

    @property
    def zero(self):
        return not any(self.terms.values())

    @property
    def mono(self):
        return len(self.terms) == 1

    @property
    def signs(self):
        return [c > 0 for c in self.terms.values()]

    @property
    def kind(self):
        "'number' is reported as Monomial: the class a nomial of this value must have"
        if not self.terms or not all(self.signs):
            return "Signomial"
        return "Monomial" if self.mono else "Posynomial"

    def vars(self):
        return {n for k in self.terms for n, _ in k}

    def add(self, o, s=1):
        if not same_dims(self.dims, o.dims):
            raise Undefined("dims")
        t = dict(self.terms)
        for k, c in o.terms.items():
            t[k] = t.get(k, 0) + s*c
        return R(t, self.dims)

    def mul(self, o):
        t = {}
        for a, ca in self.terms.items():
            for b, cb in o.terms.items():
                k = dict(a)
                for n, e in b:
                    k[n] = k.get(n, 0) + e
                k = tuple(sorted((n, e) for n, e in k.items() if e))
                t[k] = t.get(k, 0) + ca*cb
        return R(t, tuple(p+q for p, q in zip(self.dims, o.dims)))

    def neg(self):
        return R({k: -c for k, c in self.terms.items()}, self.dims)

    def power(self, p):
        p = frac(p)
        if p.denominator == 1 and p >= 0:
            out = R({(): F(1)})
            for _ in range(int(p)):
                out = out.mul(self)
            return out
        if not self.mono:
            raise Undefined("zero" if self.zero else "poly")
        (k, c), = self.terms.items()
        if c < 0:
            raise Undefined("poly")
        c = c**int(p) if p.denominator == 1 else frac(float(c)**float(p))
        return R({tuple((n, e*p) for n, e in k): c}, tuple(frac(d)*p for d in self.dims))

    def div(self, o):
        return self.mul(o.power(-1))

    def sub(self, vals):
        "vals: {name: SI value}"
        t = {}
        for k, c in self.terms.items():
            rest = []
            for n, e in k:
                if n in vals:
                    v = vals[n]
                    if v == 0 and e < 0:
                        c = c*inf
                    elif e.denominator == 1 and isinstance(v, Fraction):
                        c = c*v**int(e)
                    else:
                        c = c*frac(float(v)**float(e))
                else:
                    rest.append((n, e))
            t[tuple(rest)] = t.get(tuple(rest), 0) + c
        return R(t, self.dims)

    def diff(self, name, dims):
        t = {}
        for k, c in self.terms.items():
            d = dict(k)
            if name in d:
                e = d.pop(name)
                if e != 1:
                    d[name] = e-1
                kk = tuple(sorted(d.items()))
                t[kk] = t.get(kk, 0) + c*e
        return R(t, tuple(p-q for p, q in zip(self.dims, dims)))

    def at(self, vals):
        "value at a point {name: SI float}"
        out = 0.0
        for k, c in self.terms.items():
            v = float(c)
            for n, e in k:
                v *= float(vals[n])**float(e)
            out += v
        return out


def of(thing, names=None):
    "Reference meaning of a gpkit nomial, number or quantity; names: VarKey -> reference name (default str)."
    names = names or (lambda vk: str(vk))
    hmap = getattr(thing, "hmap", None)
    if hmap is not None:
        f, dims = unit_of(hmap.units)
        t = {}
        for exp, c in hmap.items():
            c = float(c)*f
            k = []
            for vk, e in exp.items():
                if e == 0:
                    raise ValueError("zero exponent kept on %s" % vk)
                c /= unit_of(vk.units)[0]**float(e)
                k.append((names(vk), frac(e)))
            k = tuple(sorted(k))
            if k in t:
                raise ValueError("like terms not combined: %s" % (k,))
            t[k] = c
        r = R(None, dims)
        r.terms = t
        return r
    if hasattr(thing, "magnitude"):
        m = thing.magnitude
        if hasattr(m, "hmap"):
            f, dims = unit_of(thing)
            inner = of(m, names)
            return inner.mul(R({(): f}, dims))
        f, dims = unit_of(thing)
        return R({(): frac(m)*f}, dims)
    return R({(): frac(thing)})


def same(got, want, tol=1e-10, residue=True):
    """True when two reference nomials agree; got may keep rounding residue of a cancelled term only if residue."""
    if not same_dims(got.dims, want.dims) and not (got.zero and want.zero):
        return False
    scale = max([abs(float(c)) for c in want.terms.values()] + [0.0])
    for k in set(got.terms) | set(want.terms):
        g, w = float(got.terms.get(k, 0)), float(want.terms.get(k, 0))
        if k not in want.terms and not residue and k in got.terms:
            if not (want.zero and len(got.terms) == 1 and k == () and g == 0):
                return False  # a vanished term was kept
        if not isclose(g, w, rel_tol=tol, abs_tol=tol*scale*1e-3 if k not in want.terms else 0):
            return False
    return True
