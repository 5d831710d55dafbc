"""Identity of variables: every pair of descriptions, every spelling, every order of building models."""
import copy
import itertools
import pickle
import numpy as np
import gpkit
from gpkit import Variable, VectorVariable, Model, Vectorize, NamedVariables
from gpkit.varkey import VarKey
from gpkit.units import Quantity
from gpkit.keydict import KeyDict, KeySet
from ..core import require, outcome, Skip, transition

TECHNIQUE = "exhaustive exploration of all pairs of variable descriptions, all published spellings and all model-building histories to a depth, on the real code"
NOTE = "Every pair of descriptions from the menus of names, lineages, indices, units and irrelevant descriptions, each built directly, copied, deep-copied and pickled, in every kind of container; every sequence of model instantiations (nested, failing, in arrays) to the bound. Units are compared as written."

NAMES = ("x", "y", "x[0]", "A.x", "xNone")
LINEAGES = (None, (("A", 0),), (("A", 1),), (("B", 0),), (("A", 0), ("B", 0)), (("B", 0), ("A", 0)), (("AB", 0),))
IDXS = (None, (0,), (1,), (0, 0), (0, 1))
UNITS = (None, "m", "ft", "-")
NOISE = ({}, {"value": 2.0}, {"label": "of the first kind", "pr": 10}, {"constant": True, "note": "odd"})


def describe(name, lineage, idx, units):
    d = {"name": name}
    if lineage:
        d["lineage"] = lineage
    if idx is not None:
        d["idx"], d["shape"] = idx, tuple(3 for _ in idx)
    if units:
        d["units"] = units
    return d


def identity(name, lineage, idx, units):
    return (name, lineage, idx, None if units == "-" else units)


WAYS = ("key", "variable", "copy", "deepcopy", "pickle", "pickle2", "rebuilt")


def made(d, way):
    k = VarKey(**copy.deepcopy(d))
    if way == "variable":
        return Variable(k)
    if way == "copy":
        return copy.copy(k)
    if way == "deepcopy":
        return copy.deepcopy(k)
    if way == "pickle":
        return pickle.loads(pickle.dumps(k))
    if way == "pickle2":
        return pickle.loads(pickle.dumps(pickle.loads(pickle.dumps(k, 2)), 2))
    if way == "rebuilt":
        return VarKey(**k.descr)
    return k


def run(ctx):
    descs = list(itertools.product(NAMES, LINEAGES, IDXS, UNITS))
    if ctx.quick:
        descs = [d for d in descs if sum((d[0] not in ("x", "x[0]"), d[1] not in (None, (("A", 0),)), d[2] not in (None, (0,)), d[3] not in (None, "m"))) <= 2]
    ctx.bound(descriptions=len(descs), pairs=len(descs)**2, spellings=len(WAYS), depth=3 if ctx.quick else 4)

    def pairs(ch):
        d1 = ch.pick(descs)
        n1 = 0
        k1 = VarKey(**describe(*d1))
        k1b = VarKey(**dict(describe(*d1), **NOISE[1]))
        for d2 in descs:
            same = identity(*d1) == identity(*d2)
            for n2, noise in enumerate(NOISE if same or d1[0] == d2[0] else NOISE[:1]):
                k2 = VarKey(**dict(describe(*d2), **copy.deepcopy(noise)))
                transition()
                lab = lambda: "%s and %s + %s" % (d1, d2, noise)
                for a in (k1, k1b):
                    require((a == k2) == same and (k2 == a) == same and (a != k2) == (not same), "identity", lab)
                    if same:
                        require(hash(a) == hash(k2), "hash", lab)
                    require((k2 in {a}) == same and (k2 in {a: 1}) == same and (k2 in [a]) == same, "membership", lab)
                    require(len({a, k2}) == 2 - same and len({a: 0, k2: 0}) == 2 - same, "union", lab)
                ks = KeySet([k1])
                require((k2 in set(ks)) == same, "membership in a KeySet", lab)
        outcome("compared with all")
    ctx.explore("pairs of descriptions", pairs)

    def ways(ch):
        d = ch.pick(descs)
        noise = ch.pick(NOISE)
        a, b = ch.pick(WAYS), ch.pick(WAYS)
        desc = dict(describe(*d), **noise)
        k1, k2 = made(desc, a), made(desc, b)
        lab = lambda: "%s: %s and %s" % (desc, a, b)
        v1, v2 = k1.key, k2.key
        require(v1 == v2 and hash(v1) == hash(v2), "identity of copies", lab)
        for k in (v1, v2):
            want = dict(desc)
            for f, w in want.items():
                got = getattr(k, f)
                if f == "units":
                    require(w == "-" and got is None or got is not None and got == Quantity(1, w), "description of copies", lambda: "%s: %s is %r" % (lab(), f, got))
                else:
                    require(got == w, "description of copies", lambda: "%s: %s is %r" % (lab(), f, got))
        if d[2] is not None:
            require(v1.veckey is not None and v1.veckey == v2.veckey and hash(v1.veckey) == hash(v2.veckey) and v1.veckey.idx is None and v1.veckey.name == d[0], "vector of copies", lab)
        n1, n2 = Variable(v1), Variable(v2)
        require(hash(n1) == hash(n2) and n1.key == n2.key and (n1*n2).vks == {v1}, "nomials of copies", lab)
        s = {v1: 2.0}
        kd = KeyDict()
        if d[2] is None:
            kd[v1] = 5.0
            require(kd[v2] == 5.0 and v2 in kd and len(kd) == 1, "KeyDict of copies", lab)
            kd[k2] = 6.0
            require(kd[v1] == 6.0 and len(kd) == 1, "KeyDict of copies", lab)
        else:
            kd[v1] = 5.0
            require(kd[v2] == 5.0 and kd[v1.veckey][d[2]] == 5.0 and len(kd) == 1, "KeyDict of copies", lab)
        require(s[v2] == 2.0, "dict of copies", lab)
        outcome("same")
    ctx.explore("copies", ways)

    def foreign(ch):
        "keys are not equal to things that are not keys"
        d = ch.pick(descs)
        k = VarKey(**describe(*d))
        thing = ch.pick((None, 0, "x", d[0], str(k), k.eqstr if hasattr(k, "eqstr") else "x", (k,), {}, np.nan))
        require(not k == thing and k != thing, "equal to something else", lambda: "%r and %r" % (k, thing))
        outcome("different")
    ctx.explore("not keys", foreign)

    def unnamed(ch):
        "unnamed variables made in any way are all different"
        ks = []
        for _ in range(3 if ctx.quick else 4):
            how = ch.pick(("Variable", "vector", "vectorized", "in a model", "with units", "VarKey", "pickled"))
            if how == "Variable":
                ks.append(Variable().key)
            elif how == "vector":
                ks += [v.key for v in VectorVariable(2)]
            elif how == "vectorized":
                with Vectorize(2):
                    ks += [v.key for v in Variable().flat]
            elif how == "in a model":
                with NamedVariables("A"):
                    ks.append(Variable().key)
            elif how == "with units":
                ks.append(Variable(units="m").key)
            elif how == "pickled":
                pickle.loads(pickle.dumps(ks))
            else:
                ks.append(VarKey())
        require(len(set(ks)) == len(ks), "unnamed variables", lambda: str(ks))
        for i, k in enumerate(ks):
            require(all(k != other for other in ks[i+1:]), "unnamed variables", lambda: str(ks))
        outcome("%s variables" % len(ks))
    ctx.explore("unnamed variables", unnamed)

    class A(Model):
        def setup(self):
            self.x = x = Variable("x")
            return [x >= 1]

    class B(Model):
        def setup(self, n=1, boom=False):
            self.x = x = Variable("x")
            self.a = [A() for _ in range(n)]
            if boom:
                raise RuntimeError("boom")
            return [self.a, x >= 1]

    class Vec(Model):
        def setup(self):
            self.v = v = VectorVariable(2, "x")
            with Vectorize(2):
                self.a = A()
            return [v >= 1, self.a]

    ops = ("A", "B", "B2", "B fails", "Vec", "named A", "nested in named")

    def numbers(ch):
        "however models are built, the variables of different instances differ"
        depth = 3 if ctx.quick else 4
        reset = ch.flag()
        if reset:
            NamedVariables.reset_modelnumbers()
        ks, lineages = [], []

        def note(m):
            lineages.append((type(m).__name__, m.lineage))
            ks.extend(m.x.key if not hasattr(m, "v") else e.key for e in ([0] if not hasattr(m, "v") else m.v.flat))
            for sub in ([m.a] if isinstance(getattr(m, "a", []), Model) else getattr(m, "a", [])):
                lineages.append(("A", sub.lineage))
                ks.extend(v.key for v in np.atleast_1d(np.array(sub.x, dtype=object)).flat)

        for _ in range(depth):
            op = ch.pick(ops)
            if op == "A":
                note(A())
            elif op == "B":
                note(B())
            elif op == "B2":
                note(B(2))
            elif op == "B fails":
                try:
                    B(1, True)
                except RuntimeError:
                    pass
            elif op == "Vec":
                note(Vec())
            elif op == "named A":
                with NamedVariables("A"):
                    ks.append(Variable("x").key)
            else:
                with NamedVariables("A"):
                    note(A())
            require(NamedVariables.lineage == (), "environment left behind", op)
        require(len(set(lineages)) == len(lineages), "model numbers", lambda: str(lineages))
        require(len(set(ks)) == len(ks), "variables of different models", lambda: str(ks))
        for cls, lin in lineages:
            require(lin[-1][0] == cls, "model name", lambda: "%s %s" % (cls, lin))
        outcome("%s instances" % len(lineages))
    ctx.explore("model numbers", numbers)

    def spellings(ch):
        "every published spelling finds the variable, and only variables it spells"
        world = [("x", None, None, None), ("x", (("A", 0),), None, None), ("x", (("A", 1),), None, None), ("y", (("A", 0), ("B", 0)), None, "m"), ("z", None, (0,), None), ("z", None, (1,), None), ("z", None, (2,), None),
                 ("w", (("A", 0),), (0,), "ft"), ("w", (("A", 0),), (1,), "ft"), ("w", (("A", 0),), (2,), "ft"), ("x", (("B", 0),), None, "m")]
        groups = [[0], [1], [2], [3], [4, 5, 6], [7, 8, 9], [10]]
        pickgroups = ch.subset(groups)
        if not pickgroups:
            raise Skip
        ids = [world[i] for g in pickgroups for i in g]
        keys = [VarKey(**describe(*d)) for d in ids]
        m = Model(None, [Variable(k) <= Variable(k)*Variable('t') for k in keys])
        sub = ch.flag()

        def spelled(d):
            n, lin, idx, _ = d
            short = ".".join(a for a, _ in lin) + "." if lin else ""
            out = {n, short + n}
            if idx is not None:
                out |= {n + "[%s]" % ",".join(map(str, idx)) if not lin else short + n + "[%s]" % ",".join(map(str, idx)), short + n}
            return out
        names = sorted(set().union(*(spelled(d) for d in ids)) | {"q", "A", "A.q", "x[0]"})
        for name in names:
            want = {k for k, d in zip(keys, ids) if name in spelled(d)}
            lab = lambda: "%r in %s finds %s not %s" % (name, ids, got, want)
            if not want:
                got = None
                try:
                    got = m[name]
                except KeyError:
                    pass
                require(got is None and name not in m.substitutions, "found", lab)
                continue
            got = {v.key for v in m.variables_byname(name)}
            require(got == want, "variables_byname", lab)
            vectors = {k.veckey for k in want if k.veckey}
            ambiguous = len(vectors) + sum(k.veckey is None for k in want) > 1
            try:
                got = m[name]
                require(not ambiguous, "ambiguity", lab)
                gk = {v.key for v in got.flat} if hasattr(got, "flat") else {got.key}
                require(gk == want, "lookup", lab)
                if vectors and len(want) > 1:
                    (vk,) = vectors
                    require(all(got[k.idx].key == k for k in want), "order of elements", lab)
            except ValueError:
                require(ambiguous, "refused", lambda: "%r in %s" % (name, ids))
            if sub and not ambiguous:
                m.substitutions[name] = 3.0 if len(want) == 1 else [3.0]*len(want)
                for k in keys:
                    require((k in m.substitutions) == (k in want), "substitution by name", lambda: "%r in %s set %s: %s" % (name, ids, k, m.substitutions))
                    if k in want:
                        require(m.substitutions[k] == 3.0, "substitution by name", lambda: "%r in %s: %s" % (name, ids, m.substitutions))
                require(name in m.substitutions, "substitution by name", name)
                for k in want:
                    del m.substitutions[k]
                require(name not in m.substitutions and not m.substitutions, "deletion", lambda: "%r: %s" % (name, m.substitutions))
        outcome("%s keys" % len(keys))
    ctx.explore("spellings", spellings)
