"""Derivatives, monomial approximations and splits of nomials against reference calculus, at every grid point."""
import itertools
import math
import gpkit
from gpkit import Variable, VectorVariable, SignomialsEnabled
from gpkit.keydict import KeyDict
from gpkit.units import Quantity
from ..core import require, outcome, fail
from ..ref import R, of, same, F, UNITS

TECHNIQUE = "exhaustive exploration of nomials x variables x expansion points x comparison points on the real code against reference calculus"
NOTE = "All sums of up to 3 (thorough 4) terms from a monomial menu with signs, every variable, every expansion point and every comparison point of a grid; the inequality is checked at the grid points and the tangency by exact logarithmic derivatives."


class World:
    def __init__(self):
        self.x, self.y = Variable("x", "cm"), Variable("y")
        self.v = VectorVariable(2, "v")
        self.vars = {"x": self.x, "y": self.y, "v1": self.v[1]}
        self.names = {self.x.key: "x", self.y.key: "y", self.v[1].key: "v1", self.v[0].key: "v0"}
        rx, ry, rv = R.var("x", "cm"), R.var("y"), R.var("v1")
        x, y, v, m = self.x, self.y, self.v, gpkit.units.m
        self.monos = [("x", x, rx), ("2xy", 2*x*y, R.num(2).mul(rx).mul(ry)), ("x y^2/v1", x*y**2/v[1], rx.mul(ry.power(2)).div(rv)),
                      ("3m", 3*m, R.num(3, "m")), ("m^.5 x^.5", (0.5*m*x)**0.5, R.num(0.5, "m").mul(rx).power(0.5)), ("x v1 / y^1.5", x*v[1]/y**1.5, rx.mul(rv).div(ry.power(1.5)))]

    def name(self, vk):
        return self.names[vk]


def run(ctx):
    nterm = 3 if ctx.quick else 4
    grid = (0.3, 1.0, 2.0) if ctx.quick else (0.1, 0.5, 1.0, 3.0)
    ctx.bound(terms=nterm, grid=grid)
    combos = [c for n in range(1, nterm+1) for c in itertools.combinations(range(6), n)]

    def build(ch, w):
        idx = ch.pick(combos)
        signs = ch.pick(list(itertools.product((1, -1), repeat=len(idx))))
        g, r = None, None
        with SignomialsEnabled():
            for i, s in zip(idx, signs):
                _, t, rt = w.monos[i]
                t, rt = (t, rt) if s > 0 else (-1*t, rt.neg())
                g, r = (t, rt) if g is None else (g + t, r.add(rt))
        return g, r, all(s > 0 for s in signs)

    def snap(g):
        return tuple((tuple(e.items()), float(c)) for e, c in g.hmap.items()), str(g.units)

    def calculus(ch):
        w = World()
        g, r, posy = build(ch, w)
        before = snap(g)
        for n, var in w.vars.items():
            dims = (1, 0, 0) if n == "x" else (0, 0, 0)
            d, rd = g.diff(var), r.diff(n, dims)
            require(same(of(d, w.name), rd, residue=False), "derivative", lambda: "d(%s)/d%s = %s, expected %s" % (g, n, of(d, w.name), rd))
            d2 = g.diff(var.key)
            require(same(of(d2, w.name), rd), "derivative by key", lambda: "d(%s)/d%s" % (g, n))
            for n2, var2 in w.vars.items():
                dims2 = (1, 0, 0) if n2 == "x" else (0, 0, 0)
                dd, rdd = d.diff(var2), rd.diff(n2, dims2)
                require(same(of(dd, w.name), rdd, residue=False), "second derivative", lambda: "d2(%s)/d%sd%s = %s, expected %s" % (g, n, n2, of(dd, w.name), rdd))
        p, n = g.posy_negy()
        rp, rn = (of(q, w.name) if hasattr(q, "hmap") else R(None, r.dims) for q in (p, n))
        require(all(rp.signs) and all(rn.signs) and same(rp.add(rn, -1), r, residue=False), "split", lambda: "(%s).posy_negy() = %s, %s" % (g, p, n))
        with SignomialsEnabled():
            parts = g.chop()
        total = R(None, r.dims)
        for q in parts:
            m = of(q, w.name)
            require(m.mono and same(m, R({k: c for k, c in r.terms.items() if k in m.terms}, r.dims)), "chop", lambda: "(%s).chop() has %s" % (g, q))
            total = total.add(m)
        require(len(parts) == len(r.terms) and same(total, r), "chop total", lambda: "(%s).chop() = %s" % (g, parts))
        require(snap(g) == before, "original changed", lambda: "%s" % g)
        outcome("posynomial" if posy else "signomial")
    ctx.explore("calculus", calculus)

    def at(ref, pt):
        return ref.at({"x": pt[0]*0.01, "y": pt[1], "v1": pt[2]})

    def approx(ch):
        w = World()
        idx = ch.pick(combos)
        g = r = None
        for i in idx:
            _, t, rt = w.monos[i]
            g, r = (t, rt) if g is None else (g + t, r.add(rt))
        pt = ch.pick(list(itertools.product(grid, repeat=3)))
        style = ch.pick(("variables", "keydict", "quantity and vector", "names"))
        x0 = {"variables": {w.x: pt[0], w.y: pt[1], w.v[1]: pt[2], w.v[0]: 7.0}, "names": {"x": pt[0], "y": pt[1], "v": [7.0, pt[2]]},
              "quantity and vector": {w.x: Quantity(pt[0]*0.01, "m"), w.y.key: pt[1], w.v: [7.0, pt[2]]},
              "keydict": KeyDict({w.x: pt[0], w.y: pt[1], w.v: [7.0, pt[2]]})}[style]
        if style == "quantity and vector":
            try:
                m = g.mono_approximation(x0)
            except Exception:  # pylint: disable=broad-except
                outcome("quantities not supported")
                return
        else:
            m = g.mono_approximation(x0) if ch.flag() else g.mono_lower_bound(x0)
        rm = of(m, w.name)
        desc = "(%s) approximated at %s by %s" % (g, pt, m)
        require(rm.mono and all(rm.signs), "approximation is a monomial", lambda: desc)
        a, b = at(r, pt), at(rm, pt)
        require(abs(a-b) <= 1e-9*a, "value at the point", lambda: "%s: %s vs %s" % (desc, b, a))
        (key, _), = rm.terms.items()
        for n, val in (("x", pt[0]*0.01), ("y", pt[1]), ("v1", pt[2])):
            slope = at(r.diff(n, (0, 0, 0)), pt)*val/a
            require(abs(dict(key).get(n, 0) - slope) <= 1e-9, "slope at the point", lambda: "%s: exponent of %s should be %s" % (desc, n, slope))
        for q in itertools.product(grid + (0.01, 40.0), repeat=3):
            require(at(rm, q) <= at(r, q)*(1+1e-9), "approximation from below", lambda: "%s exceeds it at %s: %s > %s" % (desc, q, at(rm, q), at(r, q)))
        outcome("approximated, %d terms" % len(idx))
    ctx.explore("monomial approximations", approx)

    def missing(ch):
        w = World()
        idx = ch.pick([c for c in combos if len(c) > 1])
        g = sum((w.monos[i][1] for i in idx[1:]), w.monos[idx[0]][1])
        have = [v for n, v in w.vars.items() if ch.flag()]
        need = [k for k in g.vks if k not in [v.key for v in have]]
        if not need:
            return
        try:
            m = g.mono_approximation({v: 2.0 for v in have})
        except ValueError:
            outcome("missing point refused")
            return
        fail("missing point accepted", "(%s).mono_approximation without %s gave %s" % (g, need, m))
    ctx.explore("incomplete points", missing)
