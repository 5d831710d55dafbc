"""Equality and hashing of nomials: every construction route up to a depth, against a canonical rebuild of the same function."""
import pickle
import numpy as np
from gpkit import Variable, SignomialsEnabled, VectorVariable
from gpkit.nomials import NomialArray
from ..core import require, outcome, fail
from ..ref import R, Undefined, of, same, F

TECHNIQUE = "explicit-state breadth-first model checking of construction routes, each state compared with a canonical rebuild and with its neighbours"
NOTE = "Every route (products, sums, powers, substitution, differentiation, pickling, splitting, unit conversion) up to the stated length; each resulting nomial is compared both ways with a rebuild from its reference terms in two orders and with near misses."


class World:
    def __init__(self):
        self.y, self.z, self.x = Variable("y"), Variable("z"), Variable("x", "m")
        self.v = {"y": self.y, "z": self.z, "x": self.x}
        with SignomialsEnabled():
            self.d = self.y - self.z
        self.leaf = {"y": (self.y, R.var("y")), "z": (self.z, R.var("z")), "x": (self.x, R.var("x", "m")), "2": (2, R.num(2)),
                     "y+z": (self.y + self.z, R.var("y").add(R.var("z"))), "y-z": (self.d, R.var("y").add(R.var("z"), -1)),
                     "1+z": (1 + self.z, R.num(1).add(R.var("z"))), "-1": (-1, R.num(-1))}
        self.A = self.leaf["y"]

    def build(self, ref, order=1, units=None):
        "The same function, term by term in sorted order."
        out = None
        with SignomialsEnabled():
            for k in sorted(ref.terms)[::order]:
                t = self.y**0
                for n, e in k[::order]:
                    t = t*self.v[n]**(int(e) if e.denominator == 1 else float(e))
                t = t*float(ref.terms[k])
                if ref.dims[0] and not hasattr(t, "units"):
                    t = t*self.x/self.x
                out = t if out is None else out + t
        return out


def apply(w, op):
    kind, arg = op
    g, r = w.A
    if kind in ("add", "mul", "radd", "rmul", "div"):
        leaf, lr = w.leaf[arg] if arg != "A" else w.A
        r2 = {"add": r.add, "radd": r.add, "mul": r.mul, "rmul": r.mul, "div": r.div}[kind](lr)
        g2 = {"add": lambda: g + leaf, "radd": lambda: leaf + g, "mul": lambda: g*leaf, "rmul": lambda: leaf*g, "div": lambda: g/leaf}[kind]()
    elif kind == "pow":
        try:
            g2 = g**arg
        except TypeError:
            if isinstance(arg, int) and arg >= 0:
                fail("whole powers", "%s raised to %s" % (g, arg))
            raise
        r2 = r.power(arg)
    elif kind == "sub":
        g2, r2 = g.sub(dict(arg), require_positive=False), r.sub({k: F(v) for k, v in arg})
    elif kind == "diff":
        g2, r2 = g.diff(w.v[arg]), r.diff(arg, (1, 0, 0) if arg == "x" else (0, 0, 0))
    elif kind == "pickle":
        g2, r2 = pickle.loads(pickle.dumps(g)), r
    elif kind == "chop":
        g2, r2 = sum(reversed(g.chop())) if all(r.signs) else g, r
    elif kind == "array sum":
        g2, r2 = NomialArray([g, w.y, g]).sum(), r.add(R.var("y")).add(r)
    elif kind == "array prod":
        g2, r2 = NomialArray([w.z, g]).prod(), r.mul(R.var("z"))
    elif kind == "posy negy":
        p, n = g.posy_negy()
        g2, r2 = p - n, r
    elif kind == "approx":
        g2, r2 = g.mono_approximation({w.y: 1, w.z: 1, w.x: 1}), None
    elif kind == "use":  # exercise lazily cached attributes
        hash(g), g.cs, g.exps, g.vks, g.varkeys, str(g), g.latex()  # pylint: disable=pointless-statement
        g.hmap.sub({}, g.vks)
        g2, r2 = g, r
    if r2 is None or not hasattr(g2, "hmap"):
        return False
    w.A = (g2, r2)
    return True


def truth(e):
    return bool(e)


def eqs(a, b, same_, what):
    require(truth(a == b) == same_ and truth(b == a) == same_, "equality", lambda: "%s: %s == %s is %s / %s" % (what, a, b, truth(a == b), truth(b == a)))
    require((a != b) == (not same_), "inequality", lambda: "%s: %s != %s is %s" % (what, a, b, a != b))
    if same_:
        require(hash(a) == hash(b), "hash", lambda: "%s: %s and %s are equal but hash differently" % (what, a, b))
        require(hash(a.hmap) == hash(b.hmap) and a.hmap == b.hmap and {a.hmap: 1}.get(b.hmap) == 1, "hmap as key", lambda: "%s: %s" % (what, a))
        for e in a.hmap:
            require(e in b.hmap and b.hmap[e] == a.hmap[e], "term lookup", lambda: "%s: term %s of %s not found in %s" % (what, e, a, b))


def lr_number(r, n):
    return r.terms == R.num(int(n)).terms


def check(w):
    g, r = w.A
    require(same(of(g, lambda vk: vk.name), r, residue=False), "value", lambda: "built %s, expected %s" % (g, r))
    if r.zero:
        return
    one, two = w.build(r), w.build(r, -1)
    eqs(g, one, True, "rebuilt")
    eqs(g, two, True, "rebuilt in reverse")
    eqs(one, two, True, "rebuilds")
    near = []
    (k, c) = sorted(r.terms.items())[0]
    near.append(R(dict(r.terms, **{}) | {k: c*2}, r.dims))
    near.append(R(r.terms | {k: -c}, r.dims))
    near.append(R({kk: cc for kk, cc in r.terms.items() if kk != k}, r.dims))
    near.append(r.mul(R.var("z")))
    near.append(r.mul(R.var("x", "m")))
    near.append(R({tuple((n, e*2) for n, e in kk): cc for kk, cc in r.terms.items()}, r.dims))
    for n in near:
        if n.terms and (n.terms != r.terms or n.dims != r.dims):
            eqs(g, w.build(n), False, "near miss")
    for name, (leaf, lr) in w.leaf.items():
        if hasattr(leaf, "hmap"):
            eqs(g, leaf, lr.terms == r.terms and lr.dims == r.dims, "leaf " + name)
        elif not any(r.dims):
            require(truth(g == leaf) == (lr.terms == r.terms), "equality with a number", lambda: "%s == %s is %s" % (g, leaf, truth(g == leaf)))
    for n in (0, 0.0, np.float64(0), -2):
        if not lr_number(r, n):
            require(not truth(g == n), "equality with zero or a negative number", lambda: "%s == %s" % (g, n))
    require(len({g: 1, one: 2, two: 3}) == 1 if len(r.terms) > 1 else True, "dict key", lambda: "%s" % g)
    outcome("terms %d" % len(r.terms))


def run(ctx):
    ctx.bound(route_length=3 if ctx.quick else 4)
    ops = [(k, n) for k in ("add", "mul") for n in ("y", "z", "x", "2", "y+z", "y-z", "1+z", "A")] + [("rmul", "x"), ("radd", "y-z"), ("rmul", "y-z"),
           ("div", "y"), ("div", "x"), ("mul", "-1"), ("pow", 2), ("pow", 0), ("pow", -1), ("pow", 0.5), ("pickle", None), ("chop", None), ("array sum", None), ("array prod", None),
           ("posy negy", None), ("use", None), ("diff", "y"), ("diff", "z"), ("diff", "x")]
    ops += [("sub", s) for s in ((("y", 2.0),), (("z", 1.0),), (("y", 1.0), ("z", 1.0)), (("z", 0.0),), (("z", -1.0),), (("x", 2.0),))]
    if ctx.quick:
        drop = {("add", "1+z"), ("add", "2"), ("pow", -1), ("mul", "2"), ("sub", (("x", 2.0),)), ("rmul", "y-z"), ("add", "y"), ("array prod", None), ("mul", "1+z")}
        ops = [o for o in ops if o not in drop]

    def step(hist):
        w = World()
        ok = True
        with SignomialsEnabled():
            for i, op in enumerate(hist):
                try:
                    ok = apply(w, op)
                except Undefined:
                    return None
                except (TypeError, ValueError, ZeroDivisionError) as e:
                    return None  # refusals are C01's and C04's subject
                if not ok:
                    return None
            check(w)
            g = w.A[0]
            return (type(g).__name__, tuple((tuple(e.items()), float(c)) for e, c in g.hmap.items()), str(g.hmap.units), g.hmap.expmap is None,
                    tuple(e.hashvalue is None for e in g.hmap))
    ctx.bfs("construction routes", ops, step, 3 if ctx.quick else 4, labels=["%s %s" % o for o in ops])

    def monomials(ch):
        "truth value of an equality constraint between two monomials"
        a, b, u = Variable("a", "m"), Variable("b", "m"), Variable("u", "cm")
        spec = [("a", a, "a", 1), ("b", b, "b", 1), ("2a", 2*a, "a", 2), ("a*1", a*1.0, "a", 1), ("a^2/a", a**2/a, "a", 1), ("a in cm", a.to("cm"), "a", 1), ("2a in cm", (2*a).to("cm"), "a", 2),
                ("a*b/b", a*b/b, "a", 1), ("a.sub", (a*b).sub({"b": 1})/Variable("one", "m").sub(1), "a", 1), ("3m", 3*a**0*Variable("q", "m").sub(1), "", 3), ("300cm", Variable("q", "cm").sub(300), "", 3),
                ("u", u, "u", 1), ("copy of a", Variable("a", "m"), "a", 1), ("a in ft", Variable("a", "ft"), "a ft", 1)]
        p, q = ch.pick(spec), ch.pick(spec)
        want = p[2:] == q[2:]
        con = p[1] == q[1]
        require(truth(con) == want, "truth of a monomial equality", lambda: "bool(%s == %s) is %s" % (p[0], q[0], truth(con)))
        if p[1].units == q[1].units:
            require((p[1] != q[1]) == (not want), "inequality of monomials", lambda: "%s != %s is %s" % (p[0], q[0], p[1] != q[1]))
            if want:
                require(hash(p[1]) == hash(q[1]), "hash of monomials", lambda: "%s, %s" % (p[0], q[0]))
        outcome("monomials %s" % want)
    ctx.explore("monomial equalities", monomials)

    def arrays(ch):
        "arrays are equal when all of their elements are, whatever the order and number of those that differ"
        x, y = Variable("x", "m"), Variable("y", "m")
        mons = [lambda: x, lambda: y, lambda: 2*x, lambda: x*y/y, lambda: Variable("x", "m"), lambda: x**2/x]
        poss = [lambda: x + y, lambda: y + x, lambda: x + 2*y, lambda: x + y + x, lambda: y + 2*x]
        kinds = {0: 0, 1: 1, 2: 2, 3: 0, 4: 0, 5: 0}, {0: 0, 1: 0, 2: 1, 3: 2, 4: 2}
        of_pos = ch.flag()
        menu, kind = (poss, kinds[1]) if of_pos else (mons, kinds[0])
        n = ch.pick((1, 2, 3))
        if n == 3 and of_pos:
            menu = poss[:3]
        elif n == 3:
            menu = mons[:4]
        a = [ch.pick(range(len(menu))) for _ in range(n)]
        b = [ch.pick(range(len(menu))) for _ in range(n)]
        A, B = NomialArray([menu[i]() for i in a]), NomialArray([menu[i]() for i in b])
        want = [kind[i] for i in a] == [kind[i] for i in b]
        got = A == B
        require(bool(got) == want, "equality of arrays", lambda: "%s == %s is %s" % (A, B, bool(got)))
        outcome("equal arrays" if want else "different arrays")
    ctx.explore("arrays", arrays)
