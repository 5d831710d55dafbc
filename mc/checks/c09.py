"""Copies of KeyDicts never write through to one another.

keydict-copies: breadth-first search over all histories of two dictionaries A, B -- sets, element writes, writes into arrays that were read,
deletes, reads, and every way of deriving one from the other (constructor, update into empty, update into non-empty, pickling) -- where
each dictionary has its own plain reference; after every history both are observed through every spelling.
set-copies: all interleavings of writes to the substitutions of a constraint set, of a set built from it, and of a solution's
variables, against independent references.
"""
import copy
import numpy as np
import gpkit
from gpkit import Variable, VectorVariable, Model, ConstraintSet
from gpkit.keydict import KeyDict
from ..core import require, outcome, Skip
from ..canon import canon
from .c08 import isnan

TECHNIQUE = "explicit-state breadth-first model checking of copied KeyDicts, constraint-set and solution substitutions against independent reference dictionaries"
NOTE = "Every history of writes, reads and copies on two dictionaries / three related sets to the stated depth; states merged only when contents and aliasing coincide."

NAN = float("nan")


def same(got, want):
    if isinstance(want, list):
        got = np.asarray(got)
        return got.shape == (len(want),) and all(same(g, w) for g, w in zip(got.tolist(), want))
    got = float(got)
    return got == want or (isnan(got) and isnan(want))


def look(kd, keys, ref, who):
    "Compare a KeyDict with its reference {name: value}; keys: {name: key object}."
    for n, k in keys.items():
        if n in ref:
            require(k in kd, "lost %s" % who, lambda: "%s lost %s: expected %s" % (who, n, ref))
            require(same(kd[k], ref[n]), "changed %s" % who, lambda: "%s[%s] = %r, expected %s" % (who, n, kd[k], ref[n]))
            if isinstance(ref[n], list):
                for i, e in enumerate(ref[n]):
                    require((k[i] in kd) == (not isnan(e)), "element %s" % who, lambda: "%s[%d] in %s wrong, expected %s" % (n, i, who, ref[n]))
                    if not isnan(e):
                        require(same(kd[k[i]], e), "element %s" % who, lambda: "%s[%s[%d]] = %r, expected %s" % (who, n, i, kd[k[i]], e))
            sk = k.key.name
            require(sk in kd and same(kd[sk], ref[n]), "name %s" % who, lambda: "%s[%r] missing or wrong, expected %s" % (who, sk, ref[n]))
        else:
            require(k not in kd and k.key.name not in kd, "gained %s" % who, lambda: "%s has a value for %s, expected %s" % (who, n, ref))
    require(len(kd) == len(ref), "size %s" % who, lambda: "%s holds %s, expected %s" % (who, dict(kd), ref))


def merge(cur, new):
    "what A.update(B) means: B's given values win"
    out = dict(cur)
    for n, val in new.items():
        if isinstance(val, list) and n in out:
            out[n] = [c if isnan(e) else e for c, e in zip(out[n], val)]
        else:
            out[n] = copy.copy(val)
    return out


class Two:
    def __init__(self):
        self.x, self.v = Variable("x"), VectorVariable(2, "v")
        self.keys = dict(x=self.x, v=self.v)
        self.kd = dict(A=KeyDict(), B=KeyDict())
        self.ref = dict(A={}, B={})

    def elem(self, d, i, val):
        self.kd[d][self.v[i]] = val
        cur = list(self.ref[d].get("v", [NAN, NAN]))
        cur[i] = val
        self.ref[d]["v"] = cur

    def whole(self, d, val):
        self.kd[d][self.v] = np.array(val)
        cur = self.ref[d].get("v")
        self.ref[d]["v"] = [c if isnan(e) else e for c, e in zip(cur, val)] if cur else list(val)

    def scalar(self, d, val):
        self.kd[d][self.x] = val
        self.ref[d]["x"] = val

    def through(self, d, i, val):
        "write into the array a read returned"
        if "v" not in self.ref[d]:
            raise Skip
        self.kd[d][self.v][i] = val
        self.ref[d]["v"] = [val if j == i else e for j, e in enumerate(self.ref[d]["v"])]

    def read(self, d, key):
        kd = self.kd[d]
        for k in ((self.x, "x") if key == "x" else (self.v, "v", self.v[1])):
            if k in kd:
                kd[k]

    def delete(self, d, n, i=None):
        if n not in self.ref[d]:
            raise Skip
        if i is None:
            del self.kd[d][self.keys[n]]
            del self.ref[d][n]
        else:
            if isnan(self.ref[d]["v"][i]):
                raise Skip
            del self.kd[d][self.v[i]]
            new = [NAN if j == i else e for j, e in enumerate(self.ref[d]["v"])]
            if all(map(isnan, new)):
                del self.ref[d]["v"]
            else:
                self.ref[d]["v"] = new

    def derive(self, d, s, how):
        if how == "copy":
            self.kd[d] = KeyDict(self.kd[s])
            self.ref[d] = merge({}, self.ref[s])
        elif how == "update":
            self.kd[d].update(self.kd[s])
            self.ref[d] = merge(self.ref[d], self.ref[s])
        elif how == "dict":
            self.kd[d].update(dict(self.kd[s]))
            self.ref[d] = merge(self.ref[d], self.ref[s])
        else:
            import pickle
            self.kd[d] = pickle.loads(pickle.dumps(self.kd[s]))
            self.ref[d] = merge({}, self.ref[s])

    def handover(self, d, s):
        "assign the array read from one to the other"
        if "v" not in self.ref[s]:
            raise Skip
        self.kd[d][self.v] = self.kd[s][self.v]
        self.ref[d] = merge(self.ref[d], {"v": self.ref[s]["v"]})


def two_ops(thorough):
    ops = []
    for d, o in (("A", "B"), ("B", "A")):
        ops += [("%s[v0]=1" % d, lambda w, d=d: w.elem(d, 0, 1.0)),
                ("%s[v1]=%s" % (d, 2.5), lambda w, d=d: w.elem(d, 1, 2.5)),
                ("%s[v]=[3,4]" % d, lambda w, d=d: w.whole(d, [3.0, 4.0])),
                ("%s[v]=[nan,5]" % d, lambda w, d=d: w.whole(d, [NAN, 5.0])),
                ("%s[x]=6" % d, lambda w, d=d: w.scalar(d, 6.0)),
                ("%s[v][0]=7" % d, lambda w, d=d: w.through(d, 0, 7.0)),
                ("read %s.v" % d, lambda w, d=d: w.read(d, "v")),
                ("del %s[v]" % d, lambda w, d=d: w.delete(d, "v")),
                ("del %s[v1]" % d, lambda w, d=d: w.delete(d, "v", 1)),
                ("del %s[x]" % d, lambda w, d=d: w.delete(d, "x")),
                ("%s=KeyDict(%s)" % (d, o), lambda w, d=d, o=o: w.derive(d, o, "copy")),
                ("%s.update(%s)" % (d, o), lambda w, d=d, o=o: w.derive(d, o, "update")),
                ("%s.update(dict(%s))" % (d, o), lambda w, d=d, o=o: w.derive(d, o, "dict")),
                ("%s[v]=%s[v]" % (d, o), lambda w, d=d, o=o: w.handover(d, o))]
        if thorough:
            ops += [("read %s.x" % d, lambda w, d=d: w.read(d, "x")),
                    ("%s=unpickle(%s)" % (d, o), lambda w, d=d, o=o: w.derive(d, o, "pickle"))]
    return ops


class Sets:
    "inner constraint set, outer set built from it (when told), a sibling, a solution"
    def __init__(self):
        self.x, self.y, self.v = Variable("x"), Variable("y"), VectorVariable(2, "v")
        self.keys = dict(x=self.x, v=self.v)
        self.inner = ConstraintSet([self.y >= self.x*self.v[0]*self.v[1]])
        self.kd, self.ref = {"inner": self.inner.substitutions}, {"inner": {}}
        self.sib = None

    def write(self, d, n, i, val):
        if d not in self.kd:
            raise Skip
        kd = self.kd[d]
        if n == "x":
            kd[self.x] = val
            self.ref[d]["x"] = val
        elif i is None:
            kd[self.v] = list(val)
            self.ref[d]["v"] = list(val)
        else:
            kd[self.v[i]] = val
            cur = list(self.ref[d].get("v", [NAN, NAN]))
            cur[i] = val
            self.ref[d]["v"] = cur

    def wrap(self, kind):
        if "outer" in self.kd:
            raise Skip
        z = Variable("zz")
        if kind == "model":
            self.outer = Model(self.y, [self.inner])
        elif kind == "subs":
            self.outer = Model(self.y, [self.inner], {self.x: 9.0})
        elif kind == "second":
            self.outer = ConstraintSet([ConstraintSet([self.y >= z], {z: 2.0}), self.inner])
            self.keys = dict(self.keys, zz=z)
        elif kind == "dict":
            self.outer = ConstraintSet({"a": self.inner})
        self.kd["outer"] = self.outer.substitutions
        self.ref["outer"] = merge({}, self.ref["inner"])
        if kind == "subs":
            self.ref["outer"]["x"] = 9.0
        if kind == "second":
            self.ref["outer"]["zz"] = 2.0

    def assign(self):
        "the documented idiom: give one set another's constants"
        if "outer" not in self.kd:
            raise Skip
        self.kd["outer"].update(self.kd["inner"])
        self.ref["outer"] = merge(self.ref["outer"], self.ref["inner"])

    def solve(self):
        if "sol" in self.kd or "outer" not in self.kd or not set(self.ref["outer"]) >= {"x", "v"} or any(map(isnan, self.ref["outer"]["v"])):
            raise Skip
        m = self.outer if isinstance(self.outer, Model) else Model(self.y, self.outer)
        self.sol = m.solve(verbosity=0)
        self.kd["sol"] = self.sol["constants"]
        self.ref["sol"] = merge({}, {n: r for n, r in self.ref["outer"].items()})

    def deletes(self, d, n, i):
        if d not in self.kd or n not in self.ref[d]:
            raise Skip
        if i is None:
            del self.kd[d][self.keys[n]]
            del self.ref[d][n]
            return
        if isnan(self.ref[d]["v"][i]):
            raise Skip
        del self.kd[d][self.v[i]]
        new = [NAN if j == i else e for j, e in enumerate(self.ref[d]["v"])]
        if all(map(isnan, new)):
            del self.ref[d]["v"]
        else:
            self.ref[d]["v"] = new


def set_ops():
    ops = []
    for d in ("inner", "outer", "sol"):
        ops += [("%s[v0]=3" % d, lambda w, d=d: w.write(d, "v", 0, 3.0)),
                ("%s[v]=[4,5]" % d, lambda w, d=d: w.write(d, "v", None, [4.0, 5.0])),
                ("%s[x]=6" % d, lambda w, d=d: w.write(d, "x", None, 6.0)),
                ("del %s[v]" % d, lambda w, d=d: w.deletes(d, "v", None)),
                ("del %s[v0]" % d, lambda w, d=d: w.deletes(d, "v", 0))]
    ops += [("wrap " + k, lambda w, k=k: w.wrap(k)) for k in ("model", "subs", "second", "dict")]
    ops += [("outer.update(inner)", Sets.assign), ("solve", Sets.solve)]
    return ops


def run(ctx):
    for name, cls, ops, depth in (("keydict-copies", Two, two_ops(not ctx.quick), 4 if ctx.quick else 6),
                                  ("set-copies", Sets, set_ops(), 5 if ctx.quick else 7)):
        def step(history, cls=cls):
            w = cls()
            for _, fn in history:
                fn(w)
            key = canon(*[w.kd[d] for d in sorted(w.kd)], skip=("cset",)) + repr(sorted(w.ref.items())) + str(sorted(w.keys))
            if cls is Sets:  # which kind of wrapper: part of the state
                key += str([l for l, _ in history if l.startswith("wrap")])
            for d in sorted(w.kd):
                keys = w.keys if d != "inner" else {n: k for n, k in w.keys.items() if n != "zz"}
                look(w.kd[d], keys, w.ref[d], d)
            for d in sorted(w.kd):  # reading one changed none
                keys = w.keys if d != "inner" else {n: k for n, k in w.keys.items() if n != "zz"}
                look(w.kd[d], keys, w.ref[d], d)
            outcome("%s %s" % (cls.__name__, sorted((d, sorted(r)) for d, r in w.ref.items())))
            return key
        ctx.bfs(name, ops, step, depth)
        ctx.bound(**{name.replace("-", "_") + "_depth": depth})
