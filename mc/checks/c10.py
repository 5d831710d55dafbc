"""Nesting of constraints: every tree of containers over a menu of constraints, sub-models and overriding substitutions."""
import itertools
from collections import OrderedDict
import numpy as np
from gpkit import Variable, VectorVariable, Model, ConstraintSet, Vectorize, NamedVariables, units
from ..core import require, outcome, Skip, transition
from ..prog import standard_form, close

TECHNIQUE = "exhaustive exploration of container trees over constraints and substitutions, built by the real code and compared with the union computed from the tree"
NOTE = "Every tree of at most three levels of lists, tuples, dictionaries, arrays, constraint sets, models and model classes over the leaf menus, with overriding constants at every level; every invalid element at every position. When two parts at the same level give different constants either may be reported."


class Sub(Model):
    def setup(self, given=False):
        self.x = x = Variable("x")
        self.k = k = Variable("k", 3.0)
        self.unused = Variable("unused")
        if given:
            return [x >= k], {k: 6.0}
        return {"floor": x >= k}


class Pair(Model):
    def setup(self):
        self.k = k = Variable("k", 8.0)
        self.parts = [Sub(), Sub(True)]
        return self.parts, [p.x >= k for p in self.parts]


class World:
    def __init__(self):
        NamedVariables.reset_modelnumbers()
        self.x, self.y, self.z = Variable("x"), Variable("y"), Variable("z", "m")
        self.k = Variable("k", 2.0)
        self.v = VectorVariable(2, "v")
        self.u = VectorVariable(2, "u", [1.5, 2.5])
        self.raw = {self.k.key: 2.0, self.u[0].key: 1.5, self.u[1].key: 2.5}
        self.subs_of = {}    # (own variables, own constants) of sub-models

    def settle(self, vks, consts):
        "the value a variable was declared with becomes a constant of the first set made with it"
        for k in [k for k in self.raw if k in vks]:
            v = self.raw.pop(k)
            consts.setdefault(k, {v})

    def leaf(self, name):
        "the thing to put in a tree, the constraints it stands for, the variables and constants they bring"
        x, y, k, v, u = self.x, self.y, self.k, self.v, self.u
        if name == "x>=y":
            c = x >= y
            return Leaf(c, [c], {x.key, y.key})
        if name == "y>=kx":
            c = y >= k*x
            return Leaf(c, [c], {x.key, y.key, k.key})
        if name == "x==k":
            c = x*y == k
            return Leaf(c, [c], {x.key, y.key, k.key})
        if name == "v>=x":
            c = v >= x
            return Leaf(c, list(c.flat if hasattr(c, "flat") else c), {x.key, v[0].key, v[1].key})
        if name == "v>=u":
            c = v >= u
            return Leaf(c, list(c), {i.key for i in v} | {i.key for i in u})
        if name == "Sub":
            s = Sub()
            return Leaf(s, [s["floor"]], {s.x.key, s.k.key, s.unused.key}, {s.k.key: 3.0}, [s])
        if name == "Sub given":
            s = Sub(True)
            return Leaf(s, [s[0]], {s.x.key, s.k.key, s.unused.key}, {s.k.key: 6.0}, [s])
        if name == "Pair":
            p = Pair()
            a, b = p.parts
            cons = [a["floor"], b[0]] + list(p[1])
            return Leaf(p, cons, {v.key for s in (a, b) for v in (s.x, s.k, s.unused)} | {p.k.key}, {a.k.key: 3.0, b.k.key: 6.0, p.k.key: 8.0}, [p, a, b])
        if name == "empty":
            return Leaf([], [], set())
        raise ValueError(name)


class Leaf:
    def __init__(self, thing, cons, vks, consts=None, sets=()):
        self.thing, self.cons, self.vks = thing, cons, vks
        self.consts = {k: {v} for k, v in (consts or {}).items()}   # acceptable values
        self.sets = list(sets)


def nest(w, kind, leaves):
    "put parts into a container; returns it as a part"
    things = [p.thing for p in leaves]
    cons = [c for p in leaves for c in p.cons]
    vks = set().union(*(p.vks for p in leaves)) if leaves else set()
    consts = {}
    for p in leaves:
        for k, v in p.consts.items():
            consts[k] = consts.get(k, set()) | v
    sets = [s for p in leaves for s in p.sets]
    out = Leaf(None, cons, vks, None, sets)
    out.consts = consts
    before = [(s, dict_of(s)) for s in sets]
    if kind in ("set", "set k", "set name", "set vector", "model", "model k", "set of dict", "set bonus"):
        isset = True
        over = {}
        names = {k for k in vks if k == w.k.key}
        if kind in ("set k", "model k"):
            if w.k.key not in vks:
                raise Skip
            over = {w.k: 5.0}
            consts[w.k.key] = {5.0}
        elif kind == "set name":
            if len([k for k in vks if k.name == "k"]) != 1:
                raise Skip
            over = {"k": 7.0}
            consts[[k for k in vks if k.name == "k"][0]] = {7.0}
        elif kind == "set vector":
            if w.u[0].key not in vks:
                raise Skip
            over = {w.u[1]: 9.0}
            consts[w.u[1].key] = {9.0}
        if kind == "set of dict":
            things = {"n%s" % i: t for i, t in enumerate(things)}
        if kind[:5] == "model":
            out.thing = Model(None, things, over)
        else:
            out.thing = ConstraintSet(things, over)
        if kind == "set of dict":
            for i, t in enumerate(things.values()):
                require(out.thing["n%s" % i] is t, "named constraint", lambda: "n%s" % i)
        w.settle(vks, consts)
        verify(out.thing, out, kind)
        out.sets = sets + [out.thing]
    elif kind == "list":
        out.thing = things
    elif kind == "tuple":
        out.thing = tuple(things)
    elif kind == "dict":
        out.thing = {"n%s" % i: t for i, t in enumerate(things)}
    elif kind == "ordered":
        out.thing = OrderedDict(("n%s" % (9-i), t) for i, t in enumerate(things))
    elif kind == "array":
        if not all(len(p.cons) == 1 and p.cons[0] is p.thing for p in leaves):
            raise Skip    # an array holds constraints
        a = np.empty(len(things), dtype=object)
        a[:] = things
        out.thing = a
    for s, d in before:
        require(dict_of(s) == d, "constants of a part changed", lambda: "%s in a %s: %s became %s" % (type(s).__name__, kind, d, dict_of(s)))
    return out


def dict_of(s):
    out = {}
    for k in s.varkeys:
        if k in s.substitutions:
            out[k] = float(s.substitutions[k])
    return out


def verify(cs, part, label):
    transition()
    require(set(cs.varkeys) == part.vks, "variables", lambda: "%s: %s, expected %s" % (label, set(cs.varkeys), part.vks))
    flat = list(cs.flat())
    require(len(flat) == len(part.cons) and all(a is b for a, b in zip(flat, part.cons)), "constraints", lambda: "%s: %s, expected %s" % (label, flat, part.cons))
    got = dict_of(cs)
    require(set(got) == set(part.consts), "constants", lambda: "%s: %s, expected %s" % (label, got, part.consts))
    for k, v in got.items():
        require(v in part.consts[k], "value of a constant", lambda: "%s: %s = %s, expected %s" % (label, k, v, part.consts[k]))
    elements = sum(1 if not k.shape or k.idx else int(np.prod(k.shape)) for k in cs.substitutions)
    stored = {k for k in cs.substitutions}
    require(stored <= {k.veckey or k for k in got}, "constants of no variable", lambda: "%s: %s" % (label, stored))


def compiled(m):
    "canonical standard form, one per posynomial, in order"
    gp = m.gp(checkbounds=False)
    posys, _, _ = standard_form(gp)
    return [t for t, _ in posys[1:]]


class Cost:
    pass


def finish(w, part, rootsub, ch_bykey):
    consts = dict(part.consts)
    w.settle(part.vks, consts)
    over = {}
    if rootsub:
        if not any(k.name == "k" for k in part.vks):
            raise Skip
        mine = [k for k in part.vks if k.name == "k"]
        key = mine[0] if ch_bykey or len(mine) != 1 else "k"
        over = {key: 11.0}
        consts[mine[0]] = {11.0}
    cost = w.x*w.y
    vks = part.vks | cost.vks
    total = Leaf(None, part.cons, vks)
    total.consts = consts
    before = [(s, dict_of(s)) for s in part.sets]
    m = Model(cost, part.thing, over)
    for s, d in before:
        require(dict_of(s) == d, "constants of a part changed", lambda: "%s in the model: %s became %s" % (type(s).__name__, d, dict_of(s)))
    verify(m, total, "model")
    return m, total


def compile_check(w, m, part):
    "the program is that of each constraint in turn"
    consts = dict_of(m)
    got = compiled(m)
    want = []
    for c in part.cons:
        want += compiled(Model(w.x*w.y, [c], {k: v for k, v in consts.items() if k in c.vks}))
    require(len(got) == len(want) and all(close(a, b, 1e-9) for a, b in zip(got, want)), "program", lambda: "%s: %s, expected %s" % (part.cons, got, want))


KINDS = ("list", "tuple", "dict", "ordered", "array", "set", "set k", "set name", "set vector", "model", "model k", "set of dict")


def run(ctx):
    scalar = ("x>=y", "y>=kx", "x==k")
    leaves = ("y>=kx", "v>=u", "Sub", "x>=y", "Pair", "v>=x", "Sub given", "x==k", "empty")
    ctx.bound(levels=3, kinds=len(KINDS), leaves=len(leaves))

    def wide(ch):
        "two parts, each a leaf or a container of one or two leaves"
        w = World()
        small = leaves[:3] if ctx.quick else leaves[:5]
        parts = []
        for i in range(ch.pick((1, 2))):
            kind = ch.pick((None,) + KINDS if not ctx.quick else (None, "array", "set", "set k", "set vector", "model k", "set of dict") if i == 0 else (None, "dict", "set", "set name", "model"))
            if kind is None:
                parts.append(w.leaf(ch.pick(leaves if not i or not ctx.quick else leaves[:6])))
            else:
                n = ch.pick((1, 2))
                menu = leaves[:6] if n == 1 else small
                parts.append(nest(w, kind, [w.leaf(ch.pick(menu if kind != "array" else scalar)) for _ in range(n)]))
        root = ch.pick(("list", "set of dict", "tuple", "dict") if not ctx.quick or len(parts) == 1 else ("list", "dict"))
        part = nest(w, root, parts)
        m, total = finish(w, part, ch.flag(), True)
        if len(parts) == 1 or not ctx.quick:
            compile_check(w, m, total)
        outcome("%s constraints, %s constants" % (len(total.cons), len(total.consts)))
    ctx.explore("pairs of parts", wide)

    def deep(ch):
        "three levels, a sibling at each"
        w = World()
        part = w.leaf(ch.pick(("y>=kx", "v>=u", "Pair", "Sub given") if not ctx.quick else ("y>=kx", "v>=u", "Pair")))
        for level in range(3):
            kind = ch.pick(KINDS if level == 0 or not ctx.quick else ("list", "dict") + KINDS[5:9] + KINDS[10:11] + (() if level == 2 else ("set of dict", "array")))
            others = ch.pick(((), ("x==k",), ("Sub",)) if level < 2 and not ctx.quick else ((), ("x==k",), ("Sub",))[:3 if level == 1 else 2])
            side = ch.flag() if others and (level != 1 or not ctx.quick) else False
            sib = [w.leaf(o) for o in others]
            part = nest(w, kind, sib + [part] if side else [part] + sib)
        m, total = finish(w, part, True if ctx.quick else ch.flag(), False)
        outcome("%s constraints, %s constants" % (len(total.cons), len(total.consts)))
    ctx.explore("three levels", deep)

    def later(ch):
        "changing the constants of one set afterwards leaves the others'"
        w = World()
        kinds = [ch.pick(("set", "set k", "model", "set vector", "list")) for _ in range(2)]
        part = nest(w, kinds[0], [w.leaf(ch.pick(("y>=kx", "v>=u", "Pair")))])
        part = nest(w, kinds[1], [part, w.leaf(ch.pick(("v>=u", "x==k", "empty")))])
        m, total = finish(w, part, False, True)
        sets = part.sets + [m]
        before = [dict_of(s) for s in sets]
        i = ch.pick(range(len(sets)))
        keys = sorted(before[i], key=str)
        if not keys:
            raise Skip
        key = ch.pick(keys)
        how = ch.pick(("set", "delete", "set vector", "in place"))
        if how == "set":
            sets[i].substitutions[key] = 77.0
            before[i][key] = 77.0
        elif how == "delete":
            del sets[i].substitutions[key]
            del before[i][key]
        elif how == "set vector":
            if not key.veckey:
                raise Skip
            sets[i].substitutions[key.veckey] = np.array([88.0, 99.0])
            before[i].update({w.u[0].key: 88.0, w.u[1].key: 99.0})
        else:
            if not key.veckey:
                raise Skip
            sets[i].substitutions[key.veckey][key.idx] = 66.0
            before[i][key] = 66.0
        after = [dict_of(s) for s in sets]
        require(after == before, "changed elsewhere", lambda: "%s %s of set %s: %s, expected %s" % (how, key, i, after, before))
        outcome(how)
    ctx.explore("changes afterwards", later)

    def again(ch):
        "a part used in two models, or twice in one, is the same part"
        w = World()
        part = nest(w, ch.pick(("set", "set k", "model", "set of dict")), [w.leaf(ch.pick(("y>=kx", "v>=u", "Pair", "x==k")))])
        first = nest(w, ch.pick(("set", "model", "set k", "set vector")), [part])
        how = ch.pick(("other model", "twice", "beside", "within"))
        parts = {"other model": [part], "twice": [part, part], "beside": [first, part], "within": [first, nest(w, "list", [first])]}[how]
        second = nest(w, ch.pick(("list", "tuple", "set", "model")), parts)
        cost = w.x*w.y
        m = Model(cost, second.thing)
        w.settle(second.vks, second.consts)
        flat = list(m.flat())
        require(len(flat) == len(second.cons) and all(a is b for a, b in zip(flat, second.cons)), "constraints", lambda: "%s: %s, expected %s" % (how, flat, second.cons))
        require(set(m.varkeys) == second.vks | cost.vks, "variables", lambda: "%s" % set(m.varkeys))
        got = dict_of(m)
        for k, v in got.items():
            require(v in second.consts.get(k, ()), "value of a constant", lambda: "%s: %s is %s, expected %s" % (how, k, v, second.consts))
        for k in second.consts:
            require(k in got, "constant lost", lambda: "%s: %s in %s" % (how, k, got))
        outcome(how)
    ctx.explore("parts used again", again)

    class NotBuilt(Model):
        def setup(self):
            return []

    bad = {"True": lambda w: True, "False": lambda w: False, "None": lambda w: None, "number": lambda w: 2.0, "int": lambda w: 1, "string": lambda w: "x >= 1", "letter": lambda w: "x",
           "nomial": lambda w: w.x*w.y, "posynomial": lambda w: w.x + w.y, "variable": lambda w: w.x, "vector": lambda w: w.v, "class": lambda w: NotBuilt, "unbuilt": lambda w: NotBuilt.__new__(NotBuilt),
           "numpy bool": lambda w: np.bool_(True), "array": lambda w: np.array([1.0, 2.0]), "numbers": lambda w: [1.0, 2.0], "object": lambda w: object(), "varkey": lambda w: w.x.key}

    def invalid(ch):
        w = World()
        name = ch.pick(sorted(bad))
        thing = bad[name](w)
        n = ch.pick((1, 2, 3))
        pos = ch.pick(range(n))
        items = [w.x >= w.y, w.y >= w.k, w.v >= w.x][:n]
        items[pos] = thing
        inner = ch.pick((None, "list", "tuple", "dict", "list in list"))
        if inner == "list":
            items = [items]
        elif inner == "tuple":
            items = [w.x >= 1, tuple(items)]
        elif inner == "dict":
            items = {i: t for i, t in enumerate(items)}
        elif inner == "list in list":
            items = [[items], w.x >= 1]
        how = ch.pick(("set", "model", "class"))

        class Made(Model):
            def setup(self):
                return items
        try:
            m = {"set": lambda: ConstraintSet(items), "model": lambda: Model(w.x, items), "class": Made}[how]()
        except ValueError as e:
            require("nvalid" in str(e), "message", str(e))
            outcome("refused")
            return
        require(False, "accepted", lambda: "%s at %s of %s in %s (%s)" % (name, pos, n, inner, how))
    ctx.explore("invalid elements", invalid)

    def lookups(ch):
        "names shared between levels: found when alone, ambiguous otherwise, and always through the part"
        w = World()
        names = ch.subset(("y>=kx", "Sub", "Sub given", "Pair", "v>=u"))
        if not names:
            raise Skip
        parts = [w.leaf(n) for n in names]
        part = nest(w, ch.pick(("list", "set", "dict", "model")), parts)
        m, total = finish(w, part, False, True)
        for s in part.sets + [m]:
            vks = total.vks if s is m else set(s.varkeys)
            for nm in sorted({v.name for v in vks} | {"nothing", "Sub", "Sub.x", "Pair.k", "Pair.Sub.k", "Sub.k"}):
                short = {v for v in vks if nm in (v.name, ".".join([a for a, _ in v.lineage or ()] + [v.name]))}
                lab = lambda: "%s in %s: %s, expected %s" % (nm, names, got, short)
                got = {v.key for v in s.variables_byname(nm)}
                require(got == short, "variables_byname", lab)
                distinct = {v.veckey or v for v in short}
                try:
                    got = s[nm]
                    require(len(distinct) == 1, "lookup", lab)
                    found = {v.key for v in got.flat} if hasattr(got, "flat") else {got.key}
                    require(found == short and (hasattr(got, "flat") or len(short) == 1), "lookup", lab)
                except KeyError:
                    require(not short, "not found", lambda: "%s in %s" % (nm, names))
                except ValueError:
                    require(len(distinct) > 1, "ambiguous", lambda: "%s in %s: %s" % (nm, names, short))
                transition()
        outcome("%s names" % len(total.vks))
    ctx.explore("lookups", lookups)

    def elements(ch):
        "looking up a variable, an element or a key finds just that, in whatever set holds it"
        n = ch.pick((1, 2, 3, 12))
        shape = ch.pick(((n,), (1, n), (n, 1), (n, 2)))
        v, u, x = VectorVariable(shape, "v", "m"), VectorVariable(shape, "u"), Variable("x")
        held = ch.pick(("all", "first", "last"))
        idx = {"all": None, "first": (0,)*len(shape), "last": tuple(s - 1 for s in shape)}[held]
        cons = [v >= units.m*x*u, x >= 1] if idx is None else [v[idx] >= units.m*x*u[idx], x >= 1]
        m = nested = ConstraintSet(cons)
        way = ch.pick(("set", "model", "nested", "dict"))
        if way != "set":
            m = {"model": lambda: Model(x, nested), "nested": lambda: Model(x, [nested, [nested]]), "dict": lambda: Model(x, {"c": nested})}[way]()
        by = ch.pick(("variable", "key"))
        for var in (v, u):
            for i in np.ndindex(*shape):
                have = idx is None or i == idx
                try:
                    got = m[var[i] if by == "variable" else var[i].key]
                except KeyError:
                    require(not have, "not found", lambda: "%s by %s in %s" % (var[i], by, m))  # pylint: disable=cell-var-from-loop
                    continue
                require(have and not hasattr(got, "flat") and got.key == var[i].key, "lookup of an element", lambda: "%s by %s with %s held in a %s: %r" % (var[i], by, held, way, got))  # pylint: disable=cell-var-from-loop
                transition()
        require(m[x].key == x.key and m[x.key].key == x.key, "lookup", lambda: "x: %r" % (m[x],))
        whole = m[v.key]
        keys = {k.key for k in whole.flat if hasattr(k, "key")} if hasattr(whole, "flat") else {whole.key}
        require(keys == {k.key for k in (v.flat if idx is None else [v[idx]])}, "lookup", lambda: "v: %r" % (whole,))
        outcome(held)
    ctx.explore("elements", elements)

    class Many(Model):
        def setup(self, part=None):
            # pylint: disable=attribute-defined-outside-init
            self.s, self.w = Variable("s", 2.0), VectorVariable(2, "w")
            self.f = Variable("f")
            self.part = part and part()
            return [self.w >= self.s, self.f >= self.w.prod()] + ([self.part] if part else [])

    def many(ch):
        "many models of one class, side by side or within one another, keep their own variables"
        NamedVariables.reset_modelnumbers()
        n, way = ch.pick(range(1, 15 if ctx.quick else 40)), ch.pick(("side by side", "within", "pairs", "dict"))
        if way == "within":
            make = None
            for _ in range(n):
                make = (lambda inner: lambda: Many(inner))(make)
            top = make()
            parts = [top]
            while parts[-1].part is not None:
                parts.append(parts[-1].part)
            m = Model(top.f, [top])
        else:
            parts = [Many() for _ in range(n)]
            held = parts if way == "side by side" else {"p%i" % i: p for i, p in enumerate(parts)} if way == "dict" else [[parts[i:i+2]] for i in range(0, n, 2)]
            m = Model(np.prod([p.f for p in parts]), held)
        require(len(parts) == n, "harness", "%s" % len(parts))
        keys = [k.key for p in parts for k in (p.s, p.f, p.w[0], p.w[1])]
        require(len(set(keys)) == 4*n and m.vks == set(keys), "variables of many models", lambda: "%s %s: %s" % (n, way, sorted(map(str, m.vks))))
        require(len({str(k) for k in keys}) == 4*n, "names of many models", lambda: "%s %s: %s" % (n, way, sorted(map(str, keys))))
        require(set(m.substitutions) == {p.s.key for p in parts} and all(m.substitutions[p.s] == 2.0 for p in parts), "constants of many models", lambda: "%s %s: %s" % (n, way, m.substitutions))
        for nm, want in (("s", {p.s.key for p in parts}), ("w", {k.key for p in parts for k in p.w}), ("f", {p.f.key for p in parts})):
            got = {v.key for v in m.variables_byname(nm)}
            require(got == want, "variables_byname", lambda: "%s of %s %s: %s" % (nm, n, way, got))  # pylint: disable=cell-var-from-loop
        for i, p in enumerate(parts):
            require(m[p.f].key == p.f.key and {e.key for e in m[p.w].flat} == {e.key for e in p.w} and m[p.w[1]].key == p.w[1].key, "lookup", lambda: "part %s of %s %s" % (i, n, way))  # pylint: disable=cell-var-from-loop
            require(p.f.key not in m.substitutions and (p.s.key in m.substitutions), "constants of many models", lambda: "part %s of %s %s" % (i, n, way))  # pylint: disable=cell-var-from-loop
            transition()
        m.substitutions[parts[-1].s] = 5.0
        require([m.substitutions[p.s] for p in parts] == [2.0]*(n - 1) + [5.0], "constants of many models", lambda: "%s %s: %s" % (n, way, m.substitutions))
        outcome(way)
    ctx.explore("many models", many)

    def viewed(ch):
        "an indexed view of a vectorized part shows that element of everything"
        with Vectorize(3):
            with Vectorize(2):
                p = Pair()
        i, j = ch.pick(range(3)), ch.pick(range(2))
        how = ch.pick(("one step", "two steps", "partial"))
        view = p.as_view()
        if how == "partial":
            got = view[i].k
            require(got.shape == (2,) and all(a is b for a, b in zip(got, p.k[:, i])), "view", lambda: "%s: %s" % (i, got))
            outcome("vector")
            return
        el = view[j, i] if how == "one step" else view[i][j]
        require(el.k is p.k[j, i], "view", lambda: "%s of %s: %s" % ((i, j), p.k, el.k))
        for bad_ in ("parts", "lineage"):
            try:
                getattr(el, bad_)
                require(False, "view of the shapeless", bad_)
            except ValueError:
                pass
        try:
            el.nonsense
            require(False, "view of nothing", "nonsense")
        except AttributeError:
            pass
        outcome("element")
    ctx.explore("views", viewed)
