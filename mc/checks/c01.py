"""Nomial arithmetic against reference polynomials: breadth-first search over programs of operations on two registers."""
import operator
import numpy as np
from gpkit import Variable, SignomialsEnabled
from gpkit.exceptions import DimensionalityError, InvalidPosynomial
from gpkit.units import Quantity
from ..core import require, fail, outcome
from ..ref import R, Undefined, of, same

TECHNIQUE = "explicit-state breadth-first model checking of real nomial arithmetic against reference polynomials"
NOTE = "Every program of operations on two registers and a menu of operands up to the stated length; coefficients are dyadic so the comparison is exact; trusts the reference polynomial arithmetic. pint quantities are right-hand operands only (pint dispatches the left ones)."

OPS = {"+": (operator.add, R.add), "-": (operator.sub, lambda a, b: a.add(b, -1)), "*": (operator.mul, R.mul), "/": (operator.truediv, R.div)}


class World:
    def __init__(self, signomials, tiny=False):
        self.sig, self.tiny = signomials, tiny
        y, x = Variable("y"), Variable("x", "m")
        self.leaf = {"y": (y, R.var("y")), "x": (x, R.var("x", "m")), "2": (2, R.num(2)), "0.5": (0.5, R.num(0.5)), "-1": (-1, R.num(-1)),
                     "0": (0, R.num(0)), "np4": (np.float64(4), R.num(4)), "3m": (Quantity(3.0, "m"), R.num(3, "m")), "1m": (Quantity(1.0, "m"), R.num(1, "m")),
                     "y+1": (y + 1, R.var("y").add(R.num(1))), "1/y": (1/y, R.var("y").power(-1)), "xy": (x*y, R.var("x", "m").mul(R.var("y")))}
        if signomials:
            with SignomialsEnabled():
                self.leaf["y-1"] = (y - 1, R.var("y").add(R.num(-1)))
                self.leaf["-2y"] = (-2*y, R.var("y").mul(R.num(-2)))
        if tiny:
            t = 2.0**-32
            self.leaf = {"y": self.leaf["y"], "x": self.leaf["x"], "t": (t, R.num(t)), "-t": (-t, R.num(-t)), "1+ty": (1 + t*y, R.var("y").mul(R.num(t)).add(R.num(1))),
                         "y+t": (y + t, R.var("y").add(R.num(t))), "tx+x/y": (t*x + x/y, R.var("x", "m").mul(R.num(t)).add(R.var("x", "m").mul(R.var("y").power(-1)))), "1/2t": (0.5/t, R.num(0.5/t))}
            if signomials:
                with SignomialsEnabled():
                    self.leaf["y-1"] = (y - 1, R.var("y").add(R.num(-1)))
        self.A = self.leaf["y"]
        self.B = self.leaf["x"]
        self.fixed = [(k, v[0], snap(v[0])) for k, v in self.leaf.items()]


def snap(v):
    if not hasattr(v, "hmap"):
        return repr(v)
    return (type(v).__name__, tuple((tuple(e.items()), c) for e, c in v.hmap.items()), getattr(v.hmap.units, "units", None), hash(v))


NAMES = {"y": "y", "x": "x"}


def name(vk):
    return NAMES[vk.name]


def exact(w, *refs):
    "Whether every coefficient of a product of these is exact in double precision, however it is accumulated."
    if not w.tiny:
        return True
    size, low = 1, 1
    for r in refs:
        cs = [abs(c) for c in r.terms.values()] or [1]
        size, low = size*sum(cs), low*min(1/c.denominator for c in cs)
    return size/low < 2**50


def opnd(w, spec):
    return {"A": w.A, "B": w.B}.get(spec) or w.leaf[spec]


def evaluate(op, l, r):
    "(real result or exception, reference result or Undefined)"
    if op == "**":
        return (lambda: l[0]**r), (lambda: l[1].power(r))
    if op == "neg":
        return (lambda: -l[0]), l[1].neg
    f, g = OPS[op]
    if op == "/" and not hasattr(r[0], "hmap") and not r[1].zero:
        g = lambda a, b: a.mul(R({(): 1/b.terms[()]}, tuple(-d for d in b.dims)))  # dividing by a plain number
    return (lambda: f(l[0], r[0])), (lambda: g(l[1], r[1]))


def apply(w, op):
    kind, l, r = op
    if kind == "swap":
        w.A, w.B = w.B, w.A
        return "same"
    left = opnd(w, l)
    right = opnd(w, r) if kind not in ("**", "neg") else r
    nomial = [o for o in (left, right) if hasattr((o or (0,))[0] if isinstance(o, tuple) else o, "hmap")]
    if not nomial:
        return None  # plain numbers: not gpkit's arithmetic
    if kind == "/" and l != "A" and not hasattr(left[0], "hmap") and hasattr(left[0], "magnitude"):
        return None
    if not exact(w, *(o[1] for o in ((left, left) if kind == "**" else (left, right)) if isinstance(o, tuple))):
        return None
    before = [(o[0], snap(o[0])) for o in (left, right) if isinstance(o, tuple)]
    real, ref = evaluate(kind, left, right)
    try:
        want = ref()
    except Undefined as e:
        want = e
    try:
        got = real()
    except (TypeError, ZeroDivisionError, ValueError) as e:
        got = e
    for o, s in before:
        require(snap(o) == s, "operand modified", lambda: "%s %s %s changed an operand from %s to %s" % (l, kind, r, s, snap(o)))
    desc = "%s %s %s with A=%s B=%s" % (l, kind, r, w.A[1], w.B[1])
    if isinstance(want, Undefined):
        if want.kind == "dims" and kind in "+-" and any(isinstance(o, tuple) and o[1].zero for o in (left, right)):
            outcome("zero added")  # a vanished summand may be accepted whatever its units
            return None
        require(isinstance(got, Exception), "undefined accepted", lambda: "%s returned %s but is undefined (%s)" % (desc, got, want.kind))
        if want.kind == "dims":
            require(isinstance(got, DimensionalityError) or not w.sig and kind == "-", "wrong exception", lambda: "%s raised %r" % (desc, got))
        outcome("raises: " + want.kind)
        return None
    if isinstance(got, Exception):
        if not w.sig and (want.kind == "Signomial" or kind in ("-", "neg")):
            require(isinstance(got, (TypeError, InvalidPosynomial)), "wrong exception", lambda: "%s raised %r" % (desc, got))
            outcome("raises: signomials not enabled")
            return None
        if not w.sig and kind == "/" and want.zero:
            return None
        fail("refused", "%s raised %r, expected %s" % (desc, got, want))
    require(not (got is NotImplemented and kind == "neg" and not w.sig), "negation outside SignomialsEnabled returns NotImplemented",
            lambda: "%s returned the object NotImplemented" % desc)
    try:
        meaning = of(got, name)
    except ValueError as e:
        fail("not normalized", "%s: %s" % (desc, e))
    require(same(meaning, want, residue=False), "value", lambda: "%s = %s, expected %s" % (desc, meaning, want))
    if not hasattr(got, "hmap"):
        require(want.zero or not want.vars(), "class", lambda: "%s is a plain number" % desc)
        outcome("number")
        return None if not want.zero else None
    cls = {"Variable": "Monomial"}.get(type(got).__name__, type(got).__name__)
    require(w.sig or cls != "Signomial", "signomial outside SignomialsEnabled", lambda: "%s gave %r" % (desc, got))
    require(cls == want.kind, "class", lambda: "%s is a %s, expected %s" % (desc, cls, want.kind))
    require(len(got.cs) == len(got.exps) == len(got.hmap) and all(same(of(got.to(got.units), name), want, residue=False) for _ in (1,)),
            "attributes", lambda: "%s: cs %s exps %s" % (desc, got.cs, got.exps))
    outcome(cls)
    w.A = (got, want)
    return "ok"


def canonical(w):
    return tuple((type(v[0]).__name__, tuple((tuple(e.items()), float(c)) for e, c in v[0].hmap.items()), getattr(v[0].hmap.units, "units", None)) for v in (w.A, w.B))


def run(ctx):
    ctx.assumptions = ["coefficients and exponents outside the listed operands behave alike", "pint's own arithmetic on quantities is right"]
    depth = 3
    ctx.bound(program_length=depth, registers=2)
    for sig in (False, True):
        leaves = [n for n in World(sig).leaf if not (ctx.quick and n in (("0.5", "1/y", "np4") if sig else ("1/y", "0.5")))]
        ops = [("swap", "A", "B")] + [("**", "A", e) for e in (2, 0, -1, 1, 3, 0.5, -2)] + [("neg", "A", None)]
        for o in OPS:
            ops += [(o, "A", "B"), (o, "A", "A")] + [(o, "A", n) for n in leaves] + [(o, n, "A") for n in leaves if n not in ("3m", "1m")]

        def step(hist, sig=sig):
            from contextlib import nullcontext
            with (SignomialsEnabled() if sig else nullcontext()):
                w = World(sig)
                res = "ok"
                for op in hist:
                    res = apply(w, op)
                if res is None:
                    return None
                for k, v, s in w.fixed:
                    require(snap(v) == s, "leaf modified", lambda: "%s became %s" % (k, v))
                return canonical(w)
        ctx.bfs("arithmetic, signomials %s" % ("on" if sig else "off"), ops, step, depth, labels=["%s %s %s" % (o[1], o[0], o[2]) for o in ops])
        leaves = list(World(sig, True).leaf)
        ops = [("swap", "A", "B"), ("**", "A", 2)] + [(o, "A", n) for o in OPS for n in leaves + ["A", "B"]] + [(o, n, "A") for o in OPS for n in leaves]

        def small(hist, sig=sig):
            from contextlib import nullcontext
            with (SignomialsEnabled() if sig else nullcontext()):
                w = World(sig, True)
                res = "ok"
                for op in hist:
                    res = apply(w, op)
                return None if res is None else canonical(w)
        ctx.bfs("tiny coefficients, signomials %s" % ("on" if sig else "off"), ops, small, depth, labels=["%s %s %s" % (o[1], o[0], o[2]) for o in ops])
