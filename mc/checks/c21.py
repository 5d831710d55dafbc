"""Vectorized models: every template x nesting x way of giving constants, compared with one scalar model per element."""
import itertools
import numpy as np
from gpkit import Variable, VectorVariable, Model, Vectorize, NamedVariables, SignomialsEnabled, ConstraintSet, VarKey
from gpkit.constraints.tight import Tight
from gpkit.units import Quantity
from ..core import require, outcome, Skip, transition
from ..prog import standard_form, close

TECHNIQUE = "exhaustive exploration of model templates x nestings of Vectorize x ways of giving constants; the vectorized program is compared, posynomial by posynomial, with the programs of its elements, and solved"
NOTE = "Every template, nesting up to two levels, dimension 1 to 3, every way of declaring or substituting scalar, per-element and partial constants. The compiled comparison is exact; solved values are compared to solver accuracy."


class Plain(Model):
    def setup(self, val=None):
        self.x, self.y = x, y = Variable("x"), Variable("y")
        self.k = k = Variable("k", val) if val is not None else Variable("k")
        self.objective = x + 1/y + x*y
        return [x >= k/y + 0.1, y <= 3*x*k**0.5, y >= 0.01]


class Inner(Model):
    def setup(self, val=None):
        self.x = x = Variable("x")
        self.v = v = VectorVariable(2, "v")
        self.c = c = VectorVariable(2, "c", [2.0, 5.0])
        self.k = k = Variable("k", val) if val is not None else Variable("k")
        self.objective = x + v[0]*v[1]
        return [v >= c*x, {"floor": x >= k, "sum": v.sum(axis=0) <= 100*k}]


class Equal(Model):
    def setup(self, val=None):
        self.x, self.z = x, z = Variable("x"), Variable("z")
        self.k = k = Variable("k", val) if val is not None else Variable("k")
        self.part = p = Plain(0.8)
        self.objective = x + z**2 + 1/p.x + p.y
        return [x*z == k*p.x, [[p]], x >= p.y/2, ConstraintSet([z >= 0.1*x])]


class Unit(Model):
    def setup(self, val=None):
        self.x = x = Variable("x", "m")
        self.a = a = VectorVariable(2, "a", [0.3, 0.4], "cm")
        self.k = k = Variable("k", val, "cm") if val is not None else Variable("k", "cm")
        self.objective = x/k + a[0]/x
        return [x >= k + a[1], x**2 >= 2*k*a[0]]


class Linked(Model):
    def setup(self, val=None):
        self.x = x = Variable("x")
        self.k = k = Variable("k", val) if val is not None else Variable("k")
        self.d = d = Variable("d", lambda c: c[k]**2 + 1)
        self.e = VectorVariable(2, "e", lambda c: [c[k] + 1, 3*c[k]])
        self.objective = x + d/x
        return [x >= d/10, x >= self.e[0]/7, x >= self.e[1]*k/9]


class Evaluated(Model):
    def setup(self, val=None):
        self.x = x = Variable("x")
        self.k = k = Variable("k", val) if val is not None else Variable("k")
        self.f = Variable("f", evalfn=lambda v: v[x]*2 + v[k])
        self.objective = x
        return [x >= k]


class Given(Model):
    def setup(self, val=None):
        self.x = x = Variable("x")
        self.k = k = Variable("k")
        self.objective = x + 2*k/x
        return [x >= k**0.5], ({k: val} if val is not None else {})


class Shared(Model):
    def setup(self, val=None, design=None, dconst=None):
        self.x = x = Variable("x")
        self.k = k = Variable("k", val) if val is not None else Variable("k")
        self.objective = x + dconst*x**-2
        return [x >= design*k, x >= dconst*k**2]


class Signs(Model):
    def setup(self, val=None):
        self.x, self.y = x, y = Variable("x"), Variable("y")
        self.k = k = Variable("k", val) if val is not None else Variable("k")
        self.objective = x + y
        with SignomialsEnabled():
            return [x >= k - 0.5*y, y <= 0.7*k, y >= 0.05]


TEMPLATES = {t.__name__: t for t in (Plain, Inner, Equal, Unit, Linked, Evaluated, Given, Shared, Signs)}
NESTS = ((2,), (3,), (1,), (2, 3), (3, 2), (2, 2))   # outermost first


def vectorized(nest, fn):
    if not nest:
        return fn()
    with Vectorize(nest[0]):
        return vectorized(nest[1:], fn)


def elements(nest):
    "trailing indices of the elements: innermost dimension first"
    return list(itertools.product(*(range(n) for n in nest[::-1])))


def value_of(idx):
    return 0.7 + sum((0.1 + 0.3*i)*(j+1) for i, j in enumerate(idx))


WAYS = ("scalar", "int", "list", "array", "quantity", "substituted scalar", "substituted array", "substituted elements", "partly substituted", "row")


def given(template, way, nest, args=None):
    "vectorized model, and the constants of each element"
    args = args or {}
    els = elements(nest)
    shape = nest[::-1]
    arr = np.array([value_of(i) for i in els]).reshape(shape)
    declared = {"scalar": 0.1, "int": 2, "list": arr.tolist(), "array": arr, "quantity": Quantity(arr/100.0, "m") if template is Unit else None, "partly substituted": arr,
                "row": arr[:, 0] if len(nest) > 1 else None}.get(way)
    if way in ("quantity", "row") and declared is None or way == "row" and template is Given:
        raise Skip
    NamedVariables.reset_modelnumbers()
    m = vectorized(nest, lambda: template(val=declared, **args))
    subs = {}
    if way == "scalar":
        arr = np.full(shape, 0.1)
    elif way == "int":
        arr = np.full(shape, 2.0)
    elif way == "row":
        arr = np.broadcast_to(arr[:, 0].reshape((-1,) + (1,)*(len(nest)-1)), shape)
    elif way == "substituted scalar":
        arr = np.full(shape, 1.3)
        subs = {m.k: 1.3}
    elif way == "substituted array":
        subs = {m.k: arr}
    elif way == "substituted elements":
        subs = {m.k[i]: arr[i] for i in els}
    elif way == "partly substituted":
        arr = arr.copy()
        arr[els[-1]] = 4.2
        subs = {m.k[els[-1]]: 4.2}
    return m, subs, {i: float(arr[i]) for i in els}


def scalar(template, val, args=None):
    args = args or {}
    NamedVariables.reset_modelnumbers()
    return template(val=val, **args)


def named(k):
    return k.str_without([])


def split(name, n):
    "(name within the element, trailing index or None)"
    if not name.endswith("]"):
        return name, None
    base, idx = name[:-1].rsplit("[", 1)
    idx = tuple(int(i) for i in idx.split(","))
    own, trail = idx[:len(idx)-n], idx[len(idx)-n:]
    return base + ("[%s]" % ",".join(map(str, own)) if own else ""), trail


def canonical(p):
    return tuple(sorted((k, round(c, 9)) for k, c in p.items()))


def strip(terms, n):
    out, trails = {}, set()
    for k, c in terms.items():
        key = []
        for name, e in k:
            base, t = split(name, n)
            key.append((base, e))
            if t is not None:
                trails.add(t)
        out[tuple(sorted(key))] = c
    require(len(trails) <= 1, "elements mixed", lambda: str(terms))
    return (trails.pop() if trails else None), out


def take(pool, p, what):
    for i, q in enumerate(pool):
        if close(p, q, 1e-9):
            pool.pop(i)
            return
    require(False, what, lambda: "%s not among %s" % (p, pool))


def world(name, way, nest):
    args, sargs = {}, lambda: {}
    if name == "Shared":
        d, c = Variable("D"), Variable("c", 0.4)
        args = dict(design=d, dconst=c)
        sargs = lambda: dict(design=Variable("D"), dconst=Variable("c", 0.4))
    m, subs, vals = given(TEMPLATES[name], way, nest, args)
    total = m.objective.sum()
    cons, scons = [m], lambda s, a: [s]
    if name == "Shared":
        total = total + args['design']**-0.1
        cons = [m, args['design'] >= 0.3]
        scons = lambda s, a: [s, a['design'] >= 0.3]
    full = Model(total, cons, subs)
    scalars = {}
    for i in elements(nest):
        a = sargs()
        s = scalar(TEMPLATES[name], vals[i], a)
        obj = s.objective + (a['design']**-0.1 if name == "Shared" else 0)
        scalars[i] = (s, Model(obj, scons(s, a)))
    return m, full, scalars, vals


def run(ctx):
    ctx.bound(templates=len(TEMPLATES), ways=len(WAYS), nestings=len(NESTS))

    def shapes(ch):
        "the vector dimension comes last, and every element is a variable of its own"
        nest = ch.pick(NESTS + ((), (2, 1, 3)))
        kind = ch.pick(("scalar", "vector", "matrix", "unnamed", "units", "in model"))
        own = {"vector": (4,), "matrix": (2, 4)}.get(kind, ())
        make = {"scalar": lambda: Variable("x"), "vector": lambda: VectorVariable(4, "x"), "matrix": lambda: VectorVariable((2, 4), "x"), "unnamed": lambda: Variable(), "units": lambda: Variable("x", "m"),
                "in model": lambda: Plain(1.0).x}[kind]
        x = vectorized(nest, make)
        want = own + nest[::-1]
        require(getattr(x, "shape", ()) in (want, None) if want else not getattr(x, "shape", ()), "shape", lambda: "%s in %s: %s" % (kind, nest, getattr(x, "shape", None)))
        if want:
            keys = set()
            for i in np.ndindex(*want):
                k = x[i].key
                require(k.idx == i and k.veckey == x.key and k.shape == want, "element", lambda: "%s in %s at %s: %s" % (kind, nest, i, k.descr))
                keys.add(k)
            require(len(keys) == np.prod(want), "elements", lambda: str(keys))
        y = make()
        require(getattr(y, "shape", None) in (own, None, ()), "afterwards", lambda: "%s after %s has shape %s" % (kind, nest, y.shape))
        outcome("shape %s" % (want,))
    ctx.explore("shapes", shapes)

    def views(ch):
        "a view of a vectorized model at an element holds that element's variables, and those of its parts"
        nest = ch.pick(NESTS + ((2, 1, 3), (2, 3, 2)))
        name = ch.pick(("Plain", "Inner", "Equal", "Unit"))
        NamedVariables.reset_modelnumbers()
        m = vectorized(nest, lambda: TEMPLATES[name](val=0.5))
        one = TEMPLATES[name](val=0.5)
        trail = ch.pick(elements(nest))
        if len(nest) > 1:
            # which dimensions are given: outermost first, one at a time or together
            given_ = ch.pick(range(1, len(nest) + 1))
            how = ch.pick(("one by one", "at once", "last at once"))
        else:
            given_, how = 1, ch.pick(("one by one", "at once", "negative", "slice"))
        view = m.as_view()
        tail = trail[len(trail)-given_:]
        if how == "one by one":
            for i in tail[::-1]:
                view = view[i]
        elif how == "at once":
            view = view[tail]
        elif how == "last at once":
            view = view[tail[-1]]
            if len(tail) > 1:
                view = view[tail[:-1]]
        elif how == "negative":
            view = view[tail[0] - nest[0]]
        elif how == "slice":
            view = view[:1]
        sub = ch.flag() if name == "Equal" else False
        if sub:
            m, one, view = m.part, one.part, view.part
        for attr, var in vars(one).items():
            if not hasattr(var, "key"):
                continue
            own = tuple(var.key.shape or ())
            got, whole = getattr(view, attr), getattr(m, attr)
            rest = nest[::-1][:len(nest) - given_]
            shape = own + rest + ((1,) if how == "slice" else ())
            require(tuple(getattr(got, "shape", None) or ()) == shape, "shape of a view", lambda: "%s in %s, %s %s: .%s has shape %s" % (name, nest, how, tail, attr, getattr(got, "shape", None)))  # pylint: disable=cell-var-from-loop
            for idx in np.ndindex(*shape):
                want = idx[:len(own) + len(rest)] + ((0,) if how == "slice" else tail)
                key = (got[idx] if shape else got).key
                require(key == whole.key if not want else key.veckey == whole.key and key.idx == want, "variable of a view", lambda: "%s in %s, %s %s: .%s%s is %s" % (name, nest, how, tail, attr, idx, key))  # pylint: disable=cell-var-from-loop
        for attr in ("nothing", "substitutions"):
            try:
                getattr(view, attr)
            except (AttributeError, ValueError):
                continue
            require(False, "view of what has no elements", "%s.%s" % (name, attr))
        outcome(how)
    ctx.explore("views", views)

    def declared(ch):
        "values given in a declaration broadcast from the variable's own dimensions"
        nest = ch.pick(NESTS + ((),))
        own = ch.pick(((), (2,), (3,), (2, 3)))
        shape = own + nest[::-1]
        if not shape:
            raise Skip
        form = ch.pick(("own", "full", "scalar"))
        typ = ch.pick(("list", "array", "float32", "int", "tuple", "quantity", "monomial"))
        base = np.arange(1, 1 + int(np.prod(own or (1,)))).reshape(own) + (0 if typ == "int" else 0.1)
        fullv = np.arange(1, 1 + int(np.prod(shape))).reshape(shape) + (0 if typ == "int" else 0.1)
        val = {"own": base if own else None, "full": fullv, "scalar": 3 if typ == "int" else 0.1}[form]
        if val is None or form == "scalar" and not nest or typ == "monomial" and form != "scalar":
            raise Skip
        want = np.broadcast_to(np.asarray(val, dtype=float).reshape(own + (1,)*len(nest)) if form == "own" else val, shape)
        if form == "scalar":
            if typ in ("list", "tuple", "array", "float32"):
                raise Skip
            v = Quantity(val*100, "cm") if typ == "quantity" else val
            if typ == "monomial":
                from gpkit import units
                v = val*100*units.cm
        else:
            v = {"list": lambda: val.tolist(), "array": lambda: val, "float32": lambda: val.astype("float32"), "int": lambda: val.astype(int), "tuple": lambda: tuple(val.tolist()), "quantity": lambda: Quantity(val*100, "cm")}[typ]()
        unit = ("m",) if typ in ("quantity", "monomial") else ()
        x = vectorized(nest, lambda: VectorVariable(own, "x", v, *unit) if own else Variable("x", v, *unit))
        m = Model(None, [x <= x*Variable("t")])
        got = np.array(m.substitutions[x.key], dtype=float)
        require(got.shape == shape and np.abs(got/want - 1).max() < (1e-6 if typ == "float32" else 1e-12), "declared values", lambda: "%s %s of %s in %s: %s, expected %s" % (form, typ, own, nest, got, want))
        outcome(form)
    ctx.explore("declared values", declared)

    def misshapen(ch):
        "values which fit neither the variable's dimensions nor all of them are refused"
        nest, own = ch.pick(NESTS + ((),)), ch.pick(((2,), (3,), (2, 3), (3, 2), (4,), (2, 2)))
        shape = own + nest[::-1]
        given = ch.pick(((2,), (3,), (6,), (2, 3), (3, 2), (4,), (2, 2), (1, 4), (4, 1), (2, 3, 2), (3, 2, 2), (2, 2, 3), (12,)))
        typ = ch.pick(("list", "array", "quantity"))
        val = np.arange(1.0, 1 + int(np.prod(given))).reshape(given)
        fits = len(given) <= len(shape) and all(g in (1, w) for g, w in zip(given, shape))
        v = {"list": val.tolist(), "array": val, "quantity": Quantity(val, "m")}[typ]
        if fits:
            raise Skip
        try:
            x = vectorized(nest, lambda: VectorVariable(own, "x", v, "m"))
        except (ValueError, IndexError, TypeError):
            outcome("refused")
            return
        m = Model(None, [x <= x*Variable("t")])
        require(False, "values of the wrong shape", lambda: "%s %s for %s in %s: %s" % (typ, given, own, nest, m.substitutions))
    ctx.explore("values of the wrong shape", misshapen)

    def compiled(ch):
        name = ch.pick([t for t in TEMPLATES if t != "Signs"])
        way, nest = ch.pick(WAYS), ch.pick(NESTS)
        m, full, scalars, vals = world(name, way, nest)
        n = len(nest)
        posys, _, res = standard_form(full.gp(checkbounds=False), named)
        pools = {}
        costs = {}
        for i, (s, sm) in scalars.items():
            p, _, sres = standard_form(sm.gp(checkbounds=False), named)
            pools[i], costs[i] = [t for t, _ in p[1:]], p[0][0]
        shared = [t for t, _ in posys[1:] if strip(t, n)[0] is None]
        for t in shared:
            for i in pools:
                take(pools[i], t, "constraint of no element")
        for t, _ in posys[1:]:
            i, p = strip(t, n)
            transition()
            if i is not None:
                require(i in pools, "element out of range", lambda: str(t))
                take(pools[i], p, "constraint of element %s" % (i,))
        for i, pool in pools.items():
            require(not pool, "constraint missing", lambda: "%s %s in %s: element %s lacks %s" % (name, way, nest, i, pool))
        got = {}
        for k, c in posys[0][0].items():
            i, p = strip({k: c}, n)
            got.setdefault(i, {}).update(p)
        for i in pools:
            want = {k: c for k, c in costs[i].items()}
            mine = dict(got.get(i, {}))
            mine.update(got.get(None, {}))
            require(close(mine, want, 1e-9), "objective", lambda: "%s %s in %s element %s: %s, expected %s" % (name, way, nest, i, mine, want))
        for i, (s, sm) in scalars.items():   # the constants the program reports
            require(abs(float(np.array(res["constants"][m.k], dtype=float)[i]) - vals[i]) < 1e-9, "constant", lambda: "%s: %s" % (i, res["constants"]))
        outcome("%s constraints" % (len(posys) - 1))
    ctx.explore("compiled", compiled)

    def solved(ch):
        name = ch.pick([t for t in TEMPLATES if t != "Shared"])
        way = ch.pick(WAYS if not ctx.quick else ("scalar", "list", "substituted elements", "partly substituted", "row"))
        nest = ch.pick(NESTS if not ctx.quick else ((2,), (2, 3)))
        m, full, scalars, vals = world(name, way, nest)
        solve = lambda p: p.localsolve(verbosity=0) if name == "Signs" else p.solve(verbosity=0)
        sol = solve(full)
        ssols = {i: solve(sm) for i, (s, sm) in scalars.items()}
        cost = sum(float(s["cost"]) for s in ssols.values())
        require(abs(float(sol["cost"]) - cost) <= 2e-4*cost, "cost", lambda: "%s %s in %s: %s, expected %s" % (name, way, nest, sol["cost"], cost))
        for i, (s, sm) in scalars.items():
            for k in sm.varkeys:
                idx = (k.idx or ()) + i
                vk = [v for v in full.varkeys if v.name == k.name and v.lineage == k.lineage and v.idx == idx]
                require(len(vk) == 1, "element", lambda: "%s has no %s of %s" % (full.varkeys, idx, k))
                got, want = float(sol["variables"][vk[0]]), float(ssols[i]["variables"][k])
                require(abs(got-want) <= 2e-2*abs(want), "value", lambda: "%s %s in %s: %s is %s, expected %s" % (name, way, nest, vk[0], got, want))
                if k in ssols[i]["sensitivities"]["variables"] and k.name == "k":
                    want = float(ssols[i]["sensitivities"]["variables"][k])*float(ssols[i]["cost"])/cost
                    got = float(sol["sensitivities"]["variables"][vk[0]])
                    require(abs(got-want) <= 3e-3, "sensitivity", lambda: "%s %s in %s: %s is %s, expected %s" % (name, way, nest, vk[0], got, want))
        outcome("solved")
    ctx.explore("solved", solved)
