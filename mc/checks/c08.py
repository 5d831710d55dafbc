"""KeyDict against a plain dictionary: breadth-first search over all operation histories.

Alphabet: three variables that share names -- x [m], M.x, and the 2-vector v -- every spelling (Variable, VarKey, name, qualified
name, vector, element), every value kind (float, int, quantity in other units, fixed nomial, list, int array, array with a gap,
sweep, function), and get / in / get-default / call / delete / update through each spelling.  After each history every spelling is observed.
States are merged when contents, aliasing and lazily built tables coincide.  The same driver runs on a bare KeyDict and
on a model's substitutions, where names are resolved through the model.
"""
import copy
import functools
import itertools
import math
import numpy as np
import gpkit
from gpkit import Variable, VectorVariable, Model
from gpkit.keydict import KeyDict
from ..core import require, fail, outcome, Skip
from ..canon import canon

TECHNIQUE = "explicit-state breadth-first model checking of the real KeyDict against a reference dictionary"
NOTE = "Every operation history over 3 colliding variables up to the stated depth, states merged by contents+aliasing; trusts the 60-line reference dictionary."

NAN = float("nan")


def linked(c):
    return 4.0


class World:
    "Fresh variables, the KeyDict under test and the reference contents."
    def __init__(self, kind):
        self.kind = kind
        self.x = Variable("x", "m")
        self.mx = Variable("x", lineage=(("M", 0),))
        self.v = VectorVariable(2, "v")
        self.ref = {}
        if kind == "bare":
            self.kd = KeyDict()
        else:
            y = Variable("y")
            self.model = Model(y, [y >= self.x/gpkit.units.m + self.mx + self.v[0]*self.v[1]])
            self.kd = self.model.substitutions
            self.y = y
        self.names = {"x": ["x", "mx"], "M.x": ["mx"], "v": ["v"]}
        self.sp = {"x": self.x, "xk": self.x.key, "mx": self.mx, "v": self.v, "vk": self.v.key,
                   "v0": self.v[0], "v1": self.v[1], "v0k": self.v[0].key}
        self.target = {"x": ("x", None), "xk": ("x", None), "mx": ("mx", None), "v": ("v", None), "vk": ("v", None),
                       "v0": ("v", 0), "v1": ("v", 1), "v0k": ("v", 0)}

    def key(self, s):
        return self.sp.get(s[1:], s) if s.startswith("$") else s

    # reference reads
    def stored(self, s):
        "('absent',) | ('value', v) | ('many', {name: v}) | ('ambiguous',)"
        if s.startswith("$"):
            name, i = self.target[s[1:]]
            if name not in self.ref:
                return ("absent",)
            val = self.ref[name]
            if i is not None:
                return ("gap",) if isnan(val[i]) else ("value", val[i])
            return ("value", val)
        if self.kind == "model" and s == "v[0]":
            return self.stored("$v0")
        cand = self.names.get(s, [])
        if self.kind == "model" and len(cand) > 1:
            return ("ambiguous",)
        have = [n for n in cand if n in self.ref]
        if not have:
            return ("absent",)
        if len(have) == 1:
            return ("value", self.ref[have[0]])
        return ("many", {n: self.ref[n] for n in have})

    def same(self, got, want):
        if isinstance(want, list):
            if isinstance(got, tuple) and got[0] == "sweep":  # swept as a whole
                return all(self.same(("sweep", [p[i] for p in got[1]]), w) for i, w in enumerate(want))
            got = np.asarray(got)
            return got.shape == (len(want),) and all(self.same(g, w) for g, w in zip(got.tolist(), want))
        if callable(want):
            return got is want
        if isinstance(want, tuple):
            return isinstance(got, tuple) and got[0] == "sweep" and list(got[1]) == list(want[1])
        if isinstance(got, np.ndarray):
            if got.shape:
                return False
            got = got.item()
        try:
            got = float(got)
        except (TypeError, ValueError):
            return False
        return got == want or (isnan(want) and math.isnan(got))

    def observe(self, s):
        kd, key, st = self.kd, self.key(s), self.stored(s)
        if st[0] != "ambiguous":
            try:
                has = key in kd
            except Exception as e:  # pylint: disable=broad-except
                fail("contains raises", "%s in kd raised %r; expected %s" % (s, e, st))
            require(has == (st[0] in ("value", "many")), "contains", lambda: "%r in kd is %s but the contents are %s" % (s, has, self.ref))
        try:
            got = ("value", kd[key])
        except KeyError:
            got = ("absent",)
        except ValueError:
            got = ("ambiguous",)
        if st[0] == "gap":
            require(got[0] == "absent" or isnan(got[1]), "get gap", lambda: "kd[%s] = %r but that element has no value" % (s, got))
        elif st[0] == "many":
            require(got[0] == "value" and isinstance(got[1], dict) and len(got[1]) == len(st[1])
                    and all(self.same(got[1].get(self.sp[n].key), val) for n, val in st[1].items()), "get many",
                    lambda: "kd[%r] = %r, expected %s" % (s, got, st))
        else:
            require(got[0] == st[0] and (got[0] != "value" or self.same(got[1], st[1])), "get",
                    lambda: "kd[%s] = %r, expected %s" % (s, got, st))
        return st[0]

    def check(self):
        kd = self.kd
        want = {self.sp[n].key for n in self.ref}
        require(set(dict.keys(kd)) == want and len(kd) == len(want), "keys", lambda: "keys %s, expected %s" % (list(kd), self.ref))
        for s in SPELLINGS + (["v[0]"] if self.kind == "model" else []):
            self.observe(s)
        require(set(dict.keys(kd)) == want, "keys after reading", lambda: "reading changed the keys to %s" % list(kd))

    # operations
    def set(self, s, value, ref):
        if self.kind == "model" and not s.startswith("$") and self.stored(s)[0] == "ambiguous":
            try:
                self.kd[self.key(s)] = value
            except ValueError:
                return
            fail("ambiguous set", "setting ambiguous name %r was accepted" % s)
        if s.startswith("$"):
            name, i = self.target[s[1:]]
        else:
            name, i = {"M.x": ("mx", None), "v": ("v", None), "v[0]": ("v", 0)}[s]
        self.kd[self.key(s)] = value
        if name != "v":
            self.ref[name] = ref
        elif i is not None:
            cur = list(self.ref.get("v", [NAN, NAN]))
            cur[i] = ref
            self.ref["v"] = cur
        elif isinstance(ref, list):
            cur = self.ref.get("v")
            if isinstance(value, np.ndarray) and cur:  # documented: an array with gaps only sets its given elements
                self.ref["v"] = [c if isnan(n) else n for c, n in zip(cur, ref)]
            else:
                self.ref["v"] = list(ref)
        else:
            self.ref["v"] = [ref, ref]

    def delete(self, s):
        st = self.stored(s)
        try:
            del self.kd[self.key(s)]
            done = True
        except KeyError:
            done = False
        except ValueError:
            require(st[0] == "ambiguous", "del", lambda: "del kd[%s] raised ValueError" % s)
            done = False
        if st[0] == "absent":
            require(not done, "del absent", lambda: "del kd[%s] of an absent key succeeded" % s)
            return
        if st[0] == "gap":
            return
        if st[0] == "ambiguous":
            if done:
                for n in self.names[s]:
                    self.ref.pop(n, None)
            else:
                require(not any(n in self.ref for n in self.names[s]), "del", "del kd[%r] raised KeyError" % s)
            return
        require(done, "del", lambda: "del kd[%s] raised KeyError although it has a value (%s)" % (s, self.ref))
        if s.startswith("$") or s == "v[0]":
            name, i = self.target["v0" if s == "v[0]" else s[1:]]
            if i is None:
                del self.ref[name]
            else:
                cur = list(self.ref["v"])
                cur[i] = NAN
                if all(isnan(c) for c in cur):
                    del self.ref["v"]
                else:
                    self.ref["v"] = cur
        else:
            for n in self.names[s]:
                self.ref.pop(n, None)

    def getdefault(self, s):
        st = self.stored(s)
        if st[0] in ("ambiguous", "many"):
            return
        got = self.kd.get(self.key(s), "dflt")
        if st[0] in ("absent", "gap"):
            require(isinstance(got, str) and got == "dflt", "get default", lambda: "kd.get(%s, default) = %r, expected the default (%s)" % (s, got, self.ref))
        else:
            require(self.same(got, st[1]), "get default", lambda: "kd.get(%s) = %r, expected %s" % (s, got, st))

    def call(self, s):
        st = self.stored(s)
        if st[0] != "value" or isinstance(st[1], tuple) or callable(st[1]) or (isinstance(st[1], list) and any(callable(e) or isinstance(e, tuple) for e in st[1])):
            return
        got = self.kd(self.key(s))
        unit = "m" if s in ("$x", "$xk") else "dimensionless"
        require(self.same(got.to(unit).magnitude, st[1]), "call", lambda: "kd(%s) = %r, expected %s %s" % (s, got, st, unit))


def isnan(e):
    return isinstance(e, (float, np.floating)) and math.isnan(e)


SPELLINGS = ["$x", "$xk", "$mx", "$v", "$vk", "$v0", "$v1", "$v0k", "x", "M.x", "v", "zz"]


def make_ops(kind, thorough):
    q = gpkit.ureg
    ops = []

    def op(label, fn):
        ops.append((label, fn))
    S = [("x", 3, 3.0), ("x", 200*q.cm, 2.0), ("xk", 0.0, 0.0), ("x", 4*gpkit.units("m"), 4.0), ("mx", 2*q.km/q.m, 2000.0),
         ("x", ("sweep", [1, 2]), ("sweep", [1, 2])),
         ("v", 0.1, 0.1), ("v", [1, 2], [1.0, 2.0]), ("v", np.array([1.5, NAN]), [1.5, NAN]), ("v", np.array([3, 4]), [3.0, 4.0]),
         ("v0", 2.5, 2.5), ("v1", 0, 0.0), ("v0k", 3*q.km/q.m, 3000.0), ("v0", linked, linked), ("vk", np.array([16777217, 5]), [16777217.0, 5.0]),
         ("v", ("sweep", [[1, 2], [3, 4], [5, 6]]), [("sweep", [1, 3, 5]), ("sweep", [2, 4, 6])])]
    if thorough:
        S += [("mx", linked, linked), ("v", np.array([NAN, 0.25]), [NAN, 0.25]), ("v1", ("sweep", [3, 4]), ("sweep", [3, 4]))]
    for s, val, ref in S:
        v2 = val.copy() if isinstance(val, np.ndarray) else val
        op("set %s=%s" % (s, "fn" if callable(val) else str(val)), lambda w, s=s, v2=v2, ref=ref: w.set("$" + s, v2.copy() if isinstance(v2, np.ndarray) else v2, ref))
    if kind == "model":
        for s, val in [("M.x", 1.25), ("v", 6.0), ("v[0]", 9.0), ("x", 1.0)]:
            op("set %r=%s" % (s, val), lambda w, s=s, val=val: w.set(s, val, val))
    for s in ["$x", "$mx", "$v", "$v0", "$v1", "x", "v", "zz"] + (["v[0]"] if kind == "model" else []):
        op("del %s" % s, lambda w, s=s: w.delete(s))
    for s in ["$x", "$v", "$v1", "x", "v", "zz"]:
        op("read %s" % s, lambda w, s=s: w.observe(s))
    op("get defaults", lambda w: [w.getdefault(s) for s in ("$x", "$v1", "$v", "M.x")])
    op("call", lambda w: [w.call(s) for s in ("$x", "$v", "$v0")])

    def upd(w):
        w.kd.update({w.x: 8.0, w.v[1]: 0.5})
        w.ref["x"] = 8.0
        w.ref["v"] = [w.ref.get("v", [NAN, NAN])[0], 0.5]
    op("update{x,v1}", upd)

    def pickled(w):
        import pickle
        if w.kind == "bare" and not any(callable(e) for e in [w.ref.get("mx")] + list(w.ref.get("v", []))):
            w.kd = pickle.loads(pickle.dumps(w.kd))
    if kind == "bare":
        op("pickle", pickled)
    return ops


def run(ctx):
    for kind in ("bare", "model"):
        ops = make_ops(kind, not ctx.quick)

        def step(history, kind=kind):
            w = World(kind)
            for _, fn in history:
                fn(w)
            w.check()
            outcome(str(sorted(w.ref)))
            w2 = World(kind)
            for _, fn in history:
                fn(w2)
            return canon(w2.kd, skip=("cset",)) + str(sorted(map(str, w2.ref.items())))
        depth = (4 if kind == "bare" else 3) if ctx.quick else (6 if kind == "bare" else 5)
        ctx.bfs("keydict-" + kind, ops, step, depth)
    ctx.bound(depth_bare=4 if ctx.quick else 6, depth_model=3 if ctx.quick else 5, variables=3, vector_length=2)
    ctx.explore("copies", functools.partial(copies, length=2, after=1 if ctx.quick else 2))
    ctx.bound(copies="up to 2 operations on a KeyDict, a copy of it in 5 ways, up to %i on either one" % (1 if ctx.quick else 2))
    ctx.explore("slices", slices)
    ctx.bound(slices="two settings in a row, of slices of a 3-vector in cm and a 2x3 matrix in m, in 5 ways")
    ctx.explore("names", names)
    ctx.bound(names="up to three scalars and vectors called v, in different models, by 7 names in 7 ways")


def copies(ch, length, after):
    """a KeyDict and a copy of it: what is done to one is not seen in the other, however far its tables were built when it was copied"""
    w = World("bare")
    q = gpkit.ureg
    acts = [("set x", lambda o: o.set("$x", 3, 3.0)), ("set mx", lambda o: o.set("$mx", 2*q.km/q.m, 2000.0)), ("set v", lambda o: o.set("$v", [1, 2], [1.0, 2.0])),
            ("set v0", lambda o: o.set("$v0", 2.5, 2.5)), ("set v gap", lambda o: o.set("$v", np.array([NAN, 7.0]), [NAN, 7.0])), ("sweep v1", lambda o: o.set("$v1", ("sweep", [3, 4]), ("sweep", [3, 4]))),
            ("read x", lambda o: o.observe("x")), ("read v", lambda o: o.observe("$v")), ("del x", lambda o: o.delete("$x")), ("del v0", lambda o: o.delete("$v0")), ("del name", lambda o: o.delete("x"))]
    hist = []
    for _ in range(length):
        name, act = ch.pick([("nothing", None)] + acts)
        if act is None:
            break
        hist.append(name)
        act(w)
    how = ch.pick(("KeyDict(a)", "update", "update after emptying", "copy", "deepcopy"))
    hist.append(how)
    other = copy.copy(w)
    other.ref = {k: list(v) if isinstance(v, list) else v for k, v in w.ref.items()}
    if how == "KeyDict(a)":
        other.kd = KeyDict(w.kd)
    elif how == "update":
        other.kd = KeyDict()
        other.kd.update(w.kd)
    elif how == "update after emptying":
        other.kd = KeyDict({w.x: 9.0, w.mx: 1.0})
        del other.kd[w.x], other.kd[w.mx]
        other.kd.update(w.kd)
    elif how == "copy":
        other.kd = w.kd.copy() if isinstance(w.kd.copy(), KeyDict) else KeyDict(w.kd)
    else:
        other.kd = copy.deepcopy(w.kd)
    pair = {"a": w, "b": other}
    for _ in range(after):
        name, act = ch.pick([("nothing", None)] + acts)
        if act is None:
            break
        which = ch.pick(("a", "b"))
        hist.append("%s of %s" % (name, which))
        act(pair[which])
    first = ch.pick(("a", "b"))
    for which in (first, "a" if first == "b" else "b"):
        try:
            pair[which].check()
        except Exception as e:
            e.args = ("%s, %s: %s" % (hist, which, e.args[0] if e.args else ""),) + e.args[1:]
            raise
    outcome(how)


PICKS = {"v": [("v[:2]", lambda a: a[:2]), ("v[1:]", lambda a: a[1:]), ("v[::-1]", lambda a: a[::-1]), ("v[[2,0]]", lambda a: a[[2, 0]]), ("v", lambda a: a)],
         "w": [("w[0]", lambda a: a[0]), ("w[:,1]", lambda a: a[:, 1]), ("w[:,1:]", lambda a: a[:, 1:]), ("w.T", lambda a: a.T)]}


def slices(ch):
    """parts of vectors as keys of a model's substitutions: each of their elements gets its value, in its units"""
    v, w, x = VectorVariable(3, "v", "cm"), VectorVariable((2, 3), "w", "m"), Variable("x")
    m = Model(x, [v >= 1e-9*gpkit.units.cm, w >= 1e-9*gpkit.units.m, x >= v.prod()/gpkit.units.cm**3 + w[0].prod()/gpkit.units.m**3 + w[1].prod()/gpkit.units.m**3])
    ref = {"v": np.full(3, NAN), "w": np.full((2, 3), NAN)}
    hist = []
    for step in range(2):
        name = ch.pick(("v", "w"))
        whole, per_m = (v, 100.0) if name == "v" else (w, 1.0)
        label, part = ch.pick(PICKS[name])
        key, place = part(whole), part(np.arange(whole.size).reshape(whole.shape))
        arr = 0.5 + 2*step + np.arange(place.size, dtype=float).reshape(place.shape)
        kind = ch.pick(("scalar", "quantity", "list", "array", "int array", "quantity array", "fixed", "too long"))
        first = float(arr.flat[0])
        val, want = {"scalar": (arr.flat[0] if step else first, np.full(place.shape, arr.flat[0])),
                     "quantity": (first*gpkit.ureg.km, np.full(place.shape, arr.flat[0]*1000*per_m)),
                     "list": (arr.tolist(), arr),
                     "array": (arr, arr),
                     "int array": (arr.astype(int), arr.astype(int)),
                     "quantity array": (arr*gpkit.ureg.km, arr*1000*per_m),
                     "fixed": (first*gpkit.units("km"), np.full(place.shape, arr.flat[0]*1000*per_m)),
                     "too long": (np.append(arr.flatten(), [1.0, 2.0]), None)}[kind]
        if kind in ("fixed", "too long") and label == "v":
            raise Skip   # whole vectors are in the histories above
        via = ch.pick(("set", "update")) if not step else "set"
        hist.append((label, kind, via))
        if kind == "too long":
            before = {n: np.array(r) for n, r in ref.items()}
            try:
                m.substitutions[key] = val
            except (KeyError, ValueError):
                ref = before
            else:
                fail("values of another shape accepted", "%s: %s" % (hist, m.substitutions))
        else:
            if via == "set":
                m.substitutions[key] = val
            else:
                m.substitutions.update([(key, val)])
            np.put(ref[name], place.flatten(), np.asarray(want, float).flatten())
        for n, var in (("v", v), ("w", w)):
            for idx in np.ndindex(*var.shape):
                have = var[idx] in m.substitutions
                require(have == (not isnan(ref[n][idx])), "part of a vector", lambda: "%s: %s%s in substitutions is %s" % (hist, n, idx, have))  # pylint: disable=cell-var-from-loop
                if have:
                    got = float(m.substitutions[var[idx]])
                    require(abs(got - ref[n][idx]) <= 1e-12*abs(ref[n][idx]), "part of a vector", lambda: "%s: %s%s is %s, want %s" % (hist, n, idx, got, ref[n][idx]))  # pylint: disable=cell-var-from-loop
        want_keys = {var.key for n, var in (("v", v), ("w", w)) if not np.isnan(ref[n]).all()}
        require(set(dict.keys(m.substitutions)) == want_keys, "part of a vector", lambda: "%s: keys %s" % (hist, list(m.substitutions)))
    outcome(str(hist[-1][1]))


OWNERS = [("v", None, 0), ("v", None, 2), ("A.v", "A", 0), ("A.v", "A", 2), ("A.v", "A1", 3), ("A.v", "A1", 0), ("B.v", "B", 2), ("B.v", "B", 3)]
LINEAGE = {None: (), "A": (("A", 0),), "A1": (("A", 1),), "B": (("B", 0),)}


def teams():
    "every set of up to three differently placed owners of the name v"
    out = []
    for n in (1, 2, 3):
        out += [t for t in itertools.combinations(OWNERS, n) if len({o[1] for o in t}) == n]
    return out


def names(ch):
    """a name means the one variable (or vector) that has it; when several have it, it is refused and nothing changes"""
    team = ch.pick(teams())
    y = Variable("y")
    owners, cons = [], []
    for qual, where, length in team:
        kw = {"lineage": LINEAGE[where]} if where else {}
        var = VectorVariable(length, "v", **kw) if length else Variable("v", **kw)
        owners.append((qual, where, length, var))
        cons.append(y >= var)
    extra = any(o[2] for o in owners) and ch.flag()
    if extra:   # only some elements of the first vector are in the model
        i = next(i for i, o in enumerate(owners) if o[2])
        cons[i] = y >= owners[i][3][0]
    name = ch.pick(("v", "A.v", "B.v", "v[0]", "A.v[0]", "v[1]", "w"))
    how = ch.pick(("set", "update", "constructor", "read", "del", "model", "byname"))
    base, _, idx = name.partition("[")
    idx = int(idx[:-1]) if idx else None

    def bears(o):
        if idx is None:
            return o[0] == base or base == "v"
        return o[0] == base and o[2] > idx
    have = [(o, j) for i, o in enumerate(owners) if bears(o) for j in (range(o[2]) if o[2] else [None])
            if idx in (None, j) and not (extra and i == [k for k, p in enumerate(owners) if p[2]][0] and j)]
    bearers = {o[1] for o, _ in have}
    text = lambda: "%s of %r with %s%s" % (how, name, ["%s%s" % ((o[1] or "") + ".v", [o[2]] if o[2] else "") for o in owners], ", in part" if extra else "")
    single = lambda o, j: o[3] if j is None else o[3][j]
    if how == "constructor":
        try:
            m = Model(y, cons, {name: 2.5})
            said = "ok"
        except (KeyError, ValueError) as e:
            said = type(e).__name__
    else:
        m = Model(y, cons)
        if how in ("read", "del"):
            for o, j in [(o, j) for o in owners for j in (range(o[2]) if o[2] else [None])]:
                m.substitutions[single(o, j)] = 1.0 + owners.index(o) + 0.1*(j or 0)
        try:
            said, got = "ok", None
            if how == "set":
                m.substitutions[name] = 2.5
            elif how == "update":
                m.substitutions.update({name: 2.5})
            elif how == "read":
                got = m.substitutions[name]
            elif how == "del":
                del m.substitutions[name]
            elif how == "model":
                got = m[name]
            else:
                got = m.variables_byname(name)
        except (KeyError, ValueError) as e:
            said = type(e).__name__
    if how == "byname":
        require(said == ("ok" if have else "KeyError") or (said == "ok" and not got), "variables by name", lambda: "%s %s" % (text(), said))
        if said == "ok":
            require({v.key for v in got} == {single(o, j).key for o, j in have} and len(got) == len(have), "variables by name", lambda: "%s: %s" % (text(), got))
        outcome("byname")
        return
    want = "KeyError" if not bearers else "ok" if len(bearers) == 1 else "ValueError"
    every = how == "del" and want == "ValueError" and said == "ok"   # deleting all that have the name is also unambiguous
    require(said == want or every, "what a name means", lambda: "%s: %s, want %s" % (text(), said, want))
    outcome("%s %s" % (how, said))
    if how == "model":
        if want == "ok":
            whole = have[0][0][2] and idx is None
            flat = list(got.flat) if whole and hasattr(got, "flat") else [got]
            flat = [g for g in flat if hasattr(g, "key")]
            require({g.key for g in flat} == {single(o, j).key for o, j in have}, "model by name", lambda: "%s: %s" % (text(), got))
        return
    if how == "read":
        if want == "ok":
            o, _ = have[0]
            exp = [1.0 + owners.index(o) + 0.1*(j or 0) for o, j in have]
            require(np.ravel(got).tolist() == exp, "read by name", lambda: "%s: %s" % (text(), got))
        return
    if how == "constructor" and want != "ok":
        return
    for o in owners:
        for j in (range(o[2]) if o[2] else [None]):
            var = single(o, j)
            inside = o[1] in bearers and idx in (None, j) and (want == "ok" or every)
            if extra and inside and (o, j) not in have:
                continue    # an element that is not in the model
            there = var in m.substitutions
            if how == "del":
                require(there == (not inside), "deleted by name", lambda: "%s: %s" % (text(), m.substitutions))
            else:
                require(there == inside and (not there or float(m.substitutions[var]) == 2.5), "set by name", lambda: "%s: %s" % (text(), m.substitutions))
