"""Environments: every nesting and exit of SignomialsEnabled, Vectorize, NamedVariables and Model.setup on the real code, against a stack."""
import contextlib
import copy
import io
import itertools
import os
import pickle
import shutil
import tempfile
import numpy as np
import gpkit
from gpkit import (Variable, VectorVariable, ArrayVariable, NomialArray, Model, ConstraintSet, SignomialsEnabled, Vectorize,
                   NamedVariables, SignomialEquality, Monomial, parse_variables)
from gpkit.constraints.bounded import Bounded
from gpkit.constraints.relax import ConstraintsRelaxedEqually, ConstraintsRelaxed, ConstantsRelaxed
from gpkit.constraints.tight import Tight
from gpkit.constraints.loose import Loose
from gpkit.exceptions import InvalidPosynomial
from ..core import require, fail, outcome, Skip, transition

TECHNIQUE = "exhaustive exploration of all nestings, sequences and exits (normal, exception caught at every level) of the environments and of library calls inside them, on the real code; a stack model predicts every setting after each step"
NOTE = "All programs of up to the stated number of blocks; shared and fresh environment objects; Model.setup as an environment; library calls (solves, relaxations, debugging, sweeps, failing ones too) inside every nesting up to two levels must work as outside and leave the settings as they were. with-blocks only: entering and leaving out of order is not covered."


class Boom(Exception):
    "an error, to be caught a number of blocks further out"
    def __init__(self, levels):
        super().__init__("boom")
        self.levels = levels


class Halt(BaseException):
    "the same, but not an Exception (like KeyboardInterrupt)"
    def __init__(self, levels):
        super().__init__("halt")
        self.levels = levels


class Ref:
    "the settings there should be: a stack"
    def __init__(self):
        self.sig, self.vec, self.lin = False, (), ()
        self.count, self.made, self.fresh, self.objs = {}, {}, 0, []

    def enter_named(self, name):
        n = self.count.get((self.lin, name), 0)
        self.count[self.lin, name] = n + 1
        self.lin += ((name, n),)
        self.made[self.lin] = []


def scalars():
    x, y = Variable("X"), Variable("Y")
    with SignomialsEnabled():
        s = x - y
    return x, y, s


TRIES = [
    ("x - y", lambda x, y, s: x - y), ("1 - x", lambda x, y, s: 1 - x), ("-x", lambda x, y, s: -x), ("-1*x", lambda x, y, s: -1*x),
    ("x + y <= 0", lambda x, y, s: x + y <= 0), ("s <= x", lambda x, y, s: s <= x), ("s*s", lambda x, y, s: s*s), ("s >= 0", lambda x, y, s: s >= 0),
    ("s.sub", lambda x, y, s: s.sub({x: 2.0})), ("Monomial(-1)", lambda x, y, s: Monomial({"X": 1}, -1.0)), ("[x, y] - 1", lambda x, y, s: NomialArray([x, y]) - 1),
    ("x >= 1 - y", lambda x, y, s: x >= 1 - y), ("equality", lambda x, y, s: SignomialEquality(x + y, 1.0)), ("-[x, y]", lambda x, y, s: -NomialArray([x, y])),
]


def probe(ref, base, where, tries=None):
    "are the settings those of the reference?"
    transition()
    x, y, s = base
    for name, f in TRIES if tries is None else TRIES[:tries]:
        try:
            out = f(x, y, s)     # -x may also give NotImplemented
            ok = out is not NotImplemented and not (isinstance(out, np.ndarray) and any(e is NotImplemented for e in out.flat))
        except (TypeError, InvalidPosynomial):
            ok = False
        require(ok == ref.sig, "signomials are %s" % ("not allowed inside" if ref.sig else "allowed outside"), lambda: "%s: %s" % (where, name))
    ref.fresh += 1
    made = ref.made.get(ref.lin)
    for kind, obj, shape in (("Variable", Variable("p%i" % ref.fresh), ref.vec), ("VectorVariable", VectorVariable(2, "q%i" % ref.fresh), (2,) + ref.vec)):
        got = getattr(obj, "shape", None) or ()
        require(tuple(got) == shape, "shape of new variables", lambda: "%s: %s has shape %s instead of %s" % (where, kind, got, shape))
        keys = [e.key for e in obj.flat] if shape else [obj.key]
        for k in keys + [obj.key]:
            require((k.lineage or ()) == ref.lin, "lineage of new variables", lambda: "%s: %s made in %s instead of %s" % (where, kind, k.lineage, ref.lin))
        require([k.idx for k in keys] == (list(np.ndindex(*shape)) if shape else [None]), "indices of new variables", lambda: "%s: %s" % (where, [k.idx for k in keys]))
        name = "".join("%s." % (n if not i else n + str(i)) for n, i in ref.lin) + obj.key.name
        require(str(obj) == name + ("[:]" if shape else ""), "names of new variables", lambda: "%s: %s instead of %s" % (where, obj, name))
        if made is not None:
            made += keys
        ref.objs.append((obj, str(obj), keys, shape))
    for obj, name, keys, shape in ref.objs:
        require(str(obj) == name and ([e.key for e in obj.flat] if shape else [obj.key]) == keys, "earlier variables", lambda: "%s: %s became %s" % (where, name, obj))


class Box(Model):
    "a model whose setup runs part of the program"
    def setup(self, body):
        return body()


def block(ch, ref, base, pool, budget, depth, path, kinds, exits, tries):
    "one block of the program: any sequence of inner blocks"
    while budget[0] > 0:
        kind = ch.pick(("end",) + kinds)
        if kind == "end":
            return
        budget[0] -= 1
        here = path + [kind]
        if kind == "reset":
            NamedVariables.reset_modelnumbers()
            ref.count.clear()
            probe(ref, base, here, tries)
            continue
        saved = ref.sig, ref.vec, ref.lin
        raised = None
        def inside():
            probe(ref, base, here, tries)
            block(ch, ref, base, pool, budget, depth + 1, here, kinds, exits, tries)
            if tries:
                probe(ref, base, here + ["end"], tries)
            how = ch.pick(exits if depth else exits[:-1])
            if how != "return":
                raise (Halt if "halt" in how else Boom)(1 if "here" in how else depth + 1)
        try:
            if kind == "Box":
                n = ref.lin
                ref.enter_named("Box")
                lin = ref.lin
                own = []
                def body():
                    u = Variable("u", 3.0)
                    ref.made[lin] += [e.key for e in u.flat] if ref.vec else [u.key]
                    own.append(u)
                    inside()
                    return []
                m = Box(body)
                ref.sig, ref.vec, ref.lin = saved
                require(set(m.vks) == set(ref.made[lin]) or set(v for v in m.vks if not v.shape or v.idx) == set(ref.made[lin]), "variables of a model",
                        lambda: "%s: %s instead of %s" % (here, sorted(map(str, m.vks)), sorted(map(str, ref.made[lin]))))
                require(tuple(m.lineage) == lin, "lineage of a model", lambda: "%s: %s instead of %s" % (here, m.lineage, lin))
                subs = m.substitutions
                require(own[0] in subs and float(np.max(subs[own[0]])) == 3.0, "constants of a model", lambda: "%s: %s" % (here, dict(subs)))
            else:
                env = pool[kind] if kind in pool else make(kind)
                with env as given:
                    if kind[0] == "S":
                        ref.sig = True
                    elif kind[0] == "V":
                        ref.vec = (int(kind[1]),) + ref.vec
                    else:
                        ref.enter_named(kind[:1])
                        lineage, variables = given
                        require(lineage == ref.lin, "lineage given by NamedVariables", lambda: "%s: %s instead of %s" % (here, lineage, ref.lin))
                    lin = ref.lin
                    inside()
                    if kind[0] == "A":
                        require([v.key for v in variables] == ref.made[lin], "variables listed by NamedVariables", lambda: "%s: %s instead of %s" % (here, variables, ref.made[lin]))
        except (Boom, Halt) as e:
            raised = e
        ref.sig, ref.vec, ref.lin = saved
        probe(ref, base, here + ["left" if raised is None else "left by %r" % raised], tries)
        if raised is not None:
            raised.levels -= 1
            if raised.levels:
                raise raised


def make(kind):
    return SignomialsEnabled() if kind[0] == "S" else Vectorize(int(kind[1])) if kind[0] == "V" else NamedVariables(kind[0])


# ---- library calls inside environments
class Plane(Model):
    "made by users, with submodels"
    def setup(self):
        self.x = x = Variable("x", "m")
        self.k = k = Variable("k", 2.0, "m")
        self.ratio = x/k
        return [x >= k, x >= Variable("c", 3.0, "m")]


class Wrong(Model):
    """A model without the bounds it promises

    Upper Unbounded
    ---------------
    x
    """
    def setup(self):
        x = self.x = Variable("x")
        y = Variable("y")
        return [x >= y]


class Parsed(Model):
    """A model declared in its docstring

    Variables
    ---------
    x         [m]   a length
    k   2     [m]   a constant
    """
    @parse_variables(__doc__, globals())
    def setup(self):
        self.cost = self.x
        return [self.x >= self.k]


class Hostile(ConstraintSet):
    "fails while being relaxed or processed"
    def __init__(self, cs, when):
        super().__init__(cs)
        self.when = when

    def flat(self, yield_if_hasattr=None):
        for c in super().flat(yield_if_hasattr) if yield_if_hasattr else super().flat():
            yield Raises(c, self.when) if self.when != "process" else c

    def process_result(self, result):
        if self.when == "process":
            raise Boom(1)
        super().process_result(result)


class Raises:
    "stands for a constraint; raises when its attributes are read"
    def __init__(self, c, when):
        self.c, self.when = c, when

    def __getattr__(self, attr):
        if attr.startswith("__"):
            raise AttributeError(attr)
        if attr == self.when:
            raise Boom(1)
        return getattr(self.c, attr)


def worldly():
    "problems built outside all environments"
    x, y, a = Variable("x"), Variable("y"), Variable("a", 2.0)
    v, w = VectorVariable(2, "v", [1.0, 2.0]), VectorVariable(2, "w")
    w_ = {"x": x, "y": y, "a": a, "v": v, "w": w}
    w_["cons"] = [x >= a*v, y*x >= v.prod(), y >= 1, w >= v*y]
    w_["gp"] = Model(x*y*w.prod(), w_["cons"])
    w_["bad"] = Model(x*y*w.prod(), [x >= a*v, y*x >= v.prod(), y >= 1, w >= v*y, x <= 3])
    w_["subs"] = {a.key: 2.0, **dict(zip([e.key for e in v], (1.0, 2.0)))}
    w_["gp"].substitutions.update(w_["subs"])
    w_["bad"].substitutions.update(w_["subs"])
    with SignomialsEnabled():
        sig = x + y*a >= 3 + y**2/8
        w_["sp"] = Model(x*y**0.1, [sig, y <= 3, x >= 0.01, y >= 0.1], {a: 2.0})
        w_["loose"] = Model(x, [Tight([x + y*a >= 1.5 - x*y]), x >= 7.0, y == 1.0], {a: 2.0})
    return w_


def digest(sol):
    return sorted((k.name, k.idx or (), round(float(v), 5)) for k, v in flat_vars(sol))


def flat_vars(sol):
    for k, v in sol["variables"].items():
        if np.shape(v) and not k.idx:
            for i in np.ndindex(*np.shape(v)):
                yield k, np.asarray(v)[i]
        else:
            yield k, v


def quiet(f):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        out = f()
    return out


def relaxing(cls, w, name="bad"):
    r = cls(w[name])
    rv = getattr(r, "relaxvars", None)
    rv = r.relaxvar if rv is None else rv.prod()
    sol = Model(rv**20*w[name].cost, r).solve(verbosity=0)
    got = digest(sol) + sorted(map(str, dict(sol.get("warnings", {}))))
    return [g for g in got if True]


def table(w):
    sol = w["gp"].solve(verbosity=0)
    return sorted(sol.table().split("\n")) + sorted(sol.summary().split("\n")) + [str(sol(w["x"]*w["v"]))]


def saved(w):
    sol = w["gp"].solve(verbosity=0)
    d = tempfile.mkdtemp()
    try:
        sol.save(os.path.join(d, "s.pkl"))
        return digest(pickle.load(open(os.path.join(d, "s.pkl"), "rb")))
    finally:
        shutil.rmtree(d)


def setup_raises(w):
    class Bad(Model):
        def setup(self):
            Variable("x")
            Plane()
            raise Boom(1)
    Bad()


def solver_raises(_A, _b, _c):  # pylint: disable=unused-argument
    raise Boom(1)


def bad_solver(**_kw):
    raise Boom(1)


LIB = {
    "solve": lambda w: digest(w["gp"].solve(verbosity=0)),
    "solve infeasible": lambda w: w["bad"].solve(verbosity=0),
    "solver raising": lambda w: w["gp"].solve(solver=bad_solver, verbosity=0),
    "localsolve": lambda w: digest(w["sp"].localsolve(verbosity=0)),
    "localsolve plain": lambda w: digest(w["sp"].sp(use_pccp=False).localsolve(verbosity=0)),
    "localsolve failing": lambda w: w["sp"].localsolve(verbosity=0, solver=bad_solver),
    "tight unmet": lambda w: [type(x).__name__ for x in w["loose"].localsolve(verbosity=0)["warnings"]],
    "debug": lambda w: digest(w["gp"].debug(verbosity=0)),
    "debug infeasible": lambda w: digest(w["bad"].debug(verbosity=0)),
    "relax equally": lambda w: relaxing(ConstraintsRelaxedEqually, w),
    "relax constraints": lambda w: relaxing(ConstraintsRelaxed, w),
    "relax constants": lambda w: relaxing(ConstantsRelaxed, w),
    "bound": lambda w: digest(Model(w["gp"].cost, Bounded(w["gp"])).solve(verbosity=0)),
    "bound unbounded": lambda w: digest(Model(w["x"], Bounded([w["x"]*w["y"] >= 1], lower=0.1, upper=10.0)).solve(verbosity=0)),
    "sweep": lambda w: [digest(w["gp"].sweep({w["a"]: [2.0, 3.0]}, verbosity=0).atindex(i)) for i in (0, 1)],
    "sweep failing": lambda w: w["bad"].sweep({w["a"]: [2.0, 0.1]}, verbosity=0),
    "autosweep": lambda w: [round(float(c), 5) for c in w["gp"].autosweep({w["a"]: (1.0, 3.0)}, tol=0.1, samplepoints=3, verbosity=0)["cost"]],
    "table": table,
    "save": saved,
    "copy": lambda w: digest(copy.deepcopy(w["gp"].solve(verbosity=0))),
    "setup raising": setup_raises,
    "docstring refused": lambda w: Wrong(),
    "relaxed raising": lambda w: ConstraintsRelaxed(Hostile([w["x"] >= 1], "relaxed")),
    "relaxed equally raising": lambda w: ConstraintsRelaxedEqually(Hostile([w["x"] >= 1], "relaxed")),
    "tight raising": lambda w: Tight([Raises(w["x"] >= 1, "left")]).process_result({"variables": {}}),
    "process raising": lambda w: Model(w["x"], Hostile([w["x"] >= 1], "process")).solve(verbosity=0),
    "render": lambda w: [str(w["gp"].latex()), str(w["gp"].str_without()), str(w["sp"])],
    "substitute": lambda w: [str((w["x"]*w["a"] + w["y"]).sub({w["a"]: 3.0})), str(w["v"].sub({w["a"]: 1.0})), str((w["x"] + w["y"]).diff(w["y"]))],
}
CHANGES_NUMBERS = ("sweep",)
FAILS = {"solve infeasible", "solver raising", "localsolve failing", "sweep failing", "setup raising", "docstring refused", "relaxed raising",
         "relaxed equally raising", "tight raising", "process raising"}


def attempt(name, w):
    try:
        return "returned", quiet(lambda: LIB[name](w))
    except Boom:
        return "raised", "Boom"
    except Exception as e:  # pylint: disable=broad-except
        return "raised", type(e).__name__


EXPECTED = {}


def expected(name):
    if name not in EXPECTED:
        gpkit.NamedVariables.reset_modelnumbers()
        EXPECTED[name] = attempt(name, worldly())
    return EXPECTED[name]


def similar(a, b):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(similar(i, j) for i, j in zip(a, b))
    if isinstance(a, float):
        return isinstance(b, float) and abs(a-b) <= 2e-4*max(1e-2, abs(a))
    return a == b


def nests(ctx):
    kinds = ("S", "V2", "A") if ctx.quick else ("S", "V2", "V3", "A")
    return [n for r in range(0, 3 if ctx.quick else 4) for n in itertools.product(kinds, repeat=r)]


def run(ctx):
    blocks = 3 if ctx.quick else 4
    ctx.bound(blocks=blocks, environments="SignomialsEnabled, Vectorize, NamedVariables (shared and fresh objects), Model.setup, numbering reset",
              exits="return, exception or BaseException caught here, exception caught outermost", probes=len(TRIES),
              library_calls=len(LIB), library_nesting=2 if ctx.quick else 3, library_sequence=2)

    def program(kinds, exits, size, tries):
        def body(ch):
            NamedVariables.namedvars.clear()
            ref, base = Ref(), scalars()
            pool = {"S shared": SignomialsEnabled(), "V2 shared": Vectorize(2), "A shared": NamedVariables("A")}
            probe(ref, base, [], tries)
            block(ch, ref, base, pool, [size], 0, [], kinds, exits, tries)
            probe(ref, base, ["after all"], tries)
            outcome("programs")
        return body

    every = ("S", "S shared", "V3", "V2 shared", "A", "A shared", "B", "Box", "reset")
    ctx.explore("nestings", program(every, ("return", "raised, caught here", "halt, caught here", "raised, caught outermost"), 2 if ctx.quick else 3, None))
    deep = ("S shared", "V2 shared", "A shared", "Box")
    ctx.explore("deep nestings", program(deep, ("return", "raised, caught here", "raised, caught outermost"), blocks, 2))
    mixed = ("S shared", "V2", "A shared")
    ctx.explore("deeper nestings", program(mixed, ("return", "halt, caught here", "raised, caught outermost"), 4, 1))
    if not ctx.quick:
        ctx.explore("deepest nestings", program(mixed, ("return", "raised, caught outermost"), 5, 0))

    names = list(LIB)
    pairs = [(a,) for a in names] + [(a, b) for a in names for b in names]

    def library(ch):
        nest = ch.pick(nests(ctx))
        calls = ch.pick(pairs if len(nest) < 2 or not ctx.quick else pairs[:len(names)])
        want = [expected(c) for c in calls]
        NamedVariables.reset_modelnumbers()
        NamedVariables.namedvars.clear()
        w = worldly()
        ref, base = Ref(), scalars()
        with contextlib.ExitStack() as stack:
            for kind in nest:
                stack.enter_context(make(kind))
                if kind == "S":
                    ref.sig = True
                elif kind[0] == "V":
                    ref.vec = (int(kind[1]),) + ref.vec
                else:
                    ref.enter_named(kind)
            for call, exp in zip(calls, want):
                got = attempt(call, w)
                require(got[0] == exp[0], "library call inside environments", lambda: "%s inside %s: %s %s instead of %s %s" % (call, nest, *got, *exp))
                require(similar(got[1], exp[1]), "library call inside environments", lambda: "%s inside %s: %s instead of %s" % (call, nest, *(str(z[1])[:600] for z in (got, exp))))
                probe(ref, base, [nest, call], 3)
                outcome(exp[0])
        ref.sig, ref.vec, ref.lin = False, (), ()
        probe(ref, base, [nest, calls, "left"], 3)
    ctx.explore("library calls", library)
