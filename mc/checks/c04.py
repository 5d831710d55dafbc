"""Substitution into nomials and arrays: all spellings, value kinds, groupings and orders, against reference substitution."""
import itertools
import numpy as np
import gpkit
from gpkit import Variable, VectorVariable, SignomialsEnabled
from gpkit.exceptions import DimensionalityError, InvalidPosynomial
from gpkit.keydict import KeyDict
from gpkit.nomials import NomialArray
from gpkit.units import Quantity
from ..core import require, outcome, fail
from ..ref import R, of, same, frac, F

TECHNIQUE = "exhaustive exploration of substitution programs (spelling x value kind x grouping x order) on the real code against reference substitution"
NOTE = "Every choice of nomial, substituted variables, spelling, value and grouping within the menus; 0 to a negative power and fractional powers of negatives are outside the space (undefined)."


class World:
    def __init__(self):
        self.x, self.y, self.z = Variable("x", "m"), Variable("y"), Variable("z")
        self.v = VectorVariable(2, "v")
        self.mx = Variable("x", "m", lineage=(("M", 0),))
        x, y, z, v, mx = self.x, self.y, self.z, self.v, self.mx
        rx, ry, rz, r0, r1, rm = R.var("x", "m"), R.var("y"), R.var("z"), R.var("v0"), R.var("v1"), R.var("M.x", "m")
        m = gpkit.units.m
        one = R.num(1)
        with SignomialsEnabled():
            self.nomials = [
                ("3x^2/y", 3*x**2/y, R.num(3).mul(rx.power(2)).div(ry)),
                ("xy+x+m", x*y + x + m, rx.mul(ry).add(rx).add(R.num(1, "m"))),
                ("yz+y+z+1", y*z + y + z + 1, ry.mul(rz).add(ry).add(rz).add(one)),
                ("yz-y", y*z - y, ry.mul(rz).add(ry, -1)),
                ("(y-z)^2", (y-z)**2, ry.add(rz, -1).power(2)),
                ("v0v1+v0+2v1", v[0]*v[1] + v[0] + 2*v[1], r0.mul(r1).add(r0).add(R.num(2).mul(r1))),
                ("x Mx + x^2", x*mx + x**2, rx.mul(rm).add(rx.power(2))),
                ("y^2/z + z^2/y", y**2/z + z**2/y, ry.power(2).div(rz).add(rz.power(2).div(ry))),
                ("z", z, rz),
                ("yz-(1-2^-32)y", y*z - (1 - 2.0**-32)*y, ry.mul(rz).add(ry.mul(R.num(2.0**-32 - 1)))),
                ("v1 x/z - x", v[1]*x/z - x, r1.mul(rx).div(rz).add(rx, -1))]
        self.vk = {x.key: "x", y.key: "y", z.key: "z", mx.key: "M.x", v[0].key: "v0", v[1].key: "v1"}

    def name(self, vk):
        return self.vk[vk]

    def spell(self, n):
        x, y, z, v, mx = self.x, self.y, self.z, self.v, self.mx
        return {"x": [x, x.key], "M.x": [mx, mx.key, "M.x"], "y": [y, "y", y.key], "z": [z.key, "z", z],
                "v": [v, "v", v.key], "v0": [v[0], v[0].key, "v[0]"], "v1": [v[1], v[1].key]}[n]

    def values(self, n):
        "(what is passed, {reference name: SI value or None})"
        m = gpkit.units.m
        if n in ("x", "M.x"):
            return [(2.0, {n: F(2)}), (Quantity(50.0, "cm"), {n: F(1, 2)}), (3*m, {n: F(3)}), (np.float64(4), {n: F(4)}), (0, {n: F(0)})]
        if n in ("y", "z"):
            return [(1, {n: F(1)}), (2.0, {n: F(2)}), (-1.0, {n: F(-1)}), (0.0, {n: F(0)}), (Variable("c").sub(0.5), {n: F(1, 2)}), (np.array(2), {n: F(2)})]
        if n == "v":
            return [([2, 3], {"v0": F(2), "v1": F(3)}), (np.array([2.0, np.nan]), {"v0": F(2)}), (1.0, {"v0": F(1), "v1": F(1)}), ((0, 1), {"v0": F(0), "v1": F(1)})]
        return [(2.0, {n: F(2)}), (0, {n: F(0)}), (Quantity(50.0, "percent"), {n: F(1, 2)})]


def snap(g):
    return (tuple((tuple(e.items()), float(c), e.hashvalue is None or hash(e)) for e, c in g.hmap.items()), str(g.hmap.units), type(g).__name__)


def subsnap(d):
    return [(str(k), repr(v)) for k, v in (dict.items(d))]


def allowed(ref, vals):
    "the reference substitution is defined"
    for k in ref.terms:
        for n, e in k:
            if n in vals and (vals[n] == 0 and e < 0 or vals[n] < 0 and e.denominator != 1):
                return False
    return True


def run(ctx):
    nsub = 2 if ctx.quick else 3
    ctx.bound(substituted_names=nsub)
    subsets = [c for n in range(1, nsub+1) for c in itertools.combinations(("y", "z", "x", "M.x", "v", "v0", "v1"), n)
               if not ("v" in c and ("v0" in c or "v1" in c))]

    def body(ch):
        w = World()
        label, g, r = ch.pick(w.nomials)
        names = ch.pick(subsets)
        pairs, vals = [], {}
        for n in names:
            s = ch.pick(w.spell(n)[:2 if ctx.quick and len(names) > 1 else 3])
            val, vv = ch.pick(w.values(n)[:4 if ctx.quick and len(names) > 1 else 9])
            pairs.append((s, val))
            vals.update(vv)
        mode = ch.pick(("at once", "stepwise", "reversed", "keydict", "array") if len(pairs) > 1 else ("at once", "keydict", "array"))
        if mode == "keydict" and any(hasattr(v, "hmap") or isinstance(s, str) for s, v in pairs):  # a bare KeyDict does not know names
            mode = "at once"
        want = r.sub(vals) if allowed(r, vals) else None
        if want is None:
            outcome("undefined")
            return
        before = snap(g)
        if mode == "stepwise":
            got = g
            for p in pairs:
                got = got.sub(dict([p]), require_positive=False)
        else:
            d = dict(reversed(pairs) if mode == "reversed" else pairs)
            if mode == "keydict":
                d = KeyDict(d)
            db = subsnap(d)
            if mode == "array":
                got = NomialArray([w.y, g]).sub(d, require_positive=False)[1]
            else:
                got = g.sub(d, require_positive=False)
            require(subsnap(d) == db, "substitutions changed", lambda: "%s became %s" % (db, subsnap(d)))
        require(snap(g) == before, "original changed", lambda: "%s became %s" % (before, snap(g)))
        try:
            m = of(got, w.name)
        except ValueError as e:
            fail("not normalized", "%s with %s: %s" % (label, pairs, e))
        require(same(m, want, residue=False), "value", lambda: "(%s).sub(%s) %s = %s, expected %s" % (label, pairs, mode, m, want))
        kind = type(got).__name__
        require({"Variable": "Monomial"}.get(kind, kind) == want.kind or mode == "array" and kind == want.kind, "class", lambda: "(%s).sub(%s) is a %s, expected %s" % (label, pairs, kind, want.kind))
        # what is left can be used and substituted again
        rest = {n: F(2) for n in want.vars()}
        full = got.sub({vk: 2.0 for vk in got.vks}, require_positive=False)
        require(same(of(full, w.name), want.sub(rest)) and (not full.vks), "substituting the rest", lambda: "(%s).sub(%s).sub(2s) = %s" % (label, pairs, full))
        require(float(getattr(full.value, "magnitude", full.value)) == float(full.hmap[next(iter(full.hmap))]), "value attribute", lambda: "%s" % full.value)
        if not want.zero and want.kind == "Signomial":
            try:
                g.sub(dict(pairs))
                fail("signomial result accepted", "(%s).sub(%s) outside SignomialsEnabled" % (label, pairs))
            except InvalidPosynomial:
                pass
        outcome(want.kind if want.vars() else "number")
    ctx.explore("substitutions", body)

    def refused(ch):
        w = World()
        label, g, r = ch.pick(w.nomials)
        case = ch.pick(("shape3", "shape for element", "kg for m", "m for dimensionless", "monomial", "posynomial", "unknown", "unknown and known", "sweep", "function", "x sub", "gap",
                        "kg monomial", "number for united"))
        x, y, v = w.x, w.y, w.v
        nan = float("nan")
        other = Variable("nope")
        args, exc = {"shape3": ({v: [1, 2, 3]}, ValueError), "shape for element": ({v.key: np.ones((2, 1))}, ValueError), "kg for m": ({x: Quantity(1.0, "kg")}, DimensionalityError),
                     "m for dimensionless": ({y: Quantity(1.0, "m")}, DimensionalityError), "monomial": ({y: w.z*2}, ValueError), "posynomial": ({y: w.z + 1}, ValueError),
                     "unknown": ({"nope": 2, other: 3, other.key: 4}, None), "unknown and known": ({"nope": 2, y: 2, other: 3}, None),
                     "sweep": ({y: ("sweep", [1, 2])}, None), "function": ({y: lambda c: 2}, None), "x sub": (None, None), "gap": ({v: [nan, nan], y: nan}, None),
                     "kg monomial": ({x: 2*gpkit.units.kg}, DimensionalityError), "number for united": ({x: 2}, None)}[case]
        present = r.vars()
        relevant = {"shape3": {"v0", "v1"}, "shape for element": {"v0", "v1"}, "kg for m": {"x"}, "m for dimensionless": {"y"}, "monomial": {"y"}, "posynomial": {"y"}, "kg monomial": {"x"}}.get(case, set())
        if case == "x sub":
            got = w.x.sub(3)
            require(same(of(got, w.name), R.num(3, "m")), "single-argument sub", lambda: "%s" % got)
            return
        before = snap(g)
        try:
            got = g.sub(args, require_positive=False)
        except (ValueError, DimensionalityError) as e:
            require(exc and isinstance(e, exc) and relevant & present, "refused", lambda: "(%s).sub(%s) raised %r" % (label, args, e))
            require(snap(g) == before, "original changed", lambda: "%s" % g)
            outcome("raises " + type(e).__name__)
            return
        require(not (exc and relevant & present), "accepted", lambda: "(%s).sub(%s) gave %s instead of raising" % (label, args, got))
        vals = {"unknown and known": {"y": F(2)}, "number for united": {"x": F(2)}}.get(case, {})
        if allowed(r, vals):
            require(same(of(got, w.name), r.sub(vals), residue=False), "value", lambda: "(%s).sub(%s) = %s" % (label, args, got))
        require(snap(g) == before, "original changed", lambda: "%s" % g)
        outcome("unchanged" if not vals else "substituted")
    ctx.explore("refusals and no-ops", refused)
