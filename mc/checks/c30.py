"""Array operations against the scalar operations on their elements, element by element."""
import contextlib
import io
import itertools
import operator
import numpy as np
from gpkit import Variable, VectorVariable, NomialArray, SignomialsEnabled, ConstraintSet
from gpkit.constraints.array import ArrayConstraint
from gpkit.exceptions import InvalidPosynomial
from gpkit.units import Quantity
from ..core import require, fail, outcome, Skip
from ..ref import of, same

TECHNIQUE = "exhaustive enumeration of programs of array operations on the real code, each element compared with the real scalar operation on the corresponding elements"
NOTE = "All programs of up to the stated number of operations (arithmetic, comparison, reductions, products, indexing, substitution) over a menu of arrays and operands, on either side, with and without signomials; results compared as reference polynomials with units."

OPS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "<=": operator.le, ">=": operator.ge, "==": operator.eq}


class World:
    def __init__(self):
        self.y, self.z = Variable("y"), Variable("z", "m")
        self.d, self.v, self.w = VectorVariable(2, "d"), VectorVariable(2, "v", "cm"), VectorVariable(2, "w", "m")
        self.M, self.e = VectorVariable((2, 2), "M"), VectorVariable(3, "e", "km")
        self.s = VectorVariable(1, "s")


def scalars(arr):
    out = np.empty(np.shape(arr), dtype=object)
    for i in np.ndindex(out.shape):
        out[i] = np.ndarray.__getitem__(arr, i) if isinstance(arr, np.ndarray) else arr
    return out


def arrays(w, signomials):
    NA = NomialArray
    out = {"d": w.d, "v": w.v, "w": w.w, "M": w.M, "e": w.e, "s": w.s, "d+1": w.d + 1, "2v": 2*w.v, "d/y": w.d/w.y, "v*w": w.v*w.w, "[y, d0]": NA([w.y, w.d[0]]), "[y+1, 2]": NA([w.y+1, 2]), "[0, y]": NA([0, w.y]),
           "[v0, 3 km]": NA([w.v[0], Quantity(3.0, "km")]), "[1, 2]": NA([1.0, 2.0]), "[[y, 1], [d]]": NA([[w.y, 1.0], [w.d[0], w.d[1]]]), "[w0, 0]": NA([w.w[0], 0])}
    if signomials:
        out["d-1"], out["[y, -y]"], out["-v"], out["[1-y, y]"] = w.d - 1, NA([w.y, -w.y]), -w.v, NA([1 - w.y, w.y])
    return out


def q(mags, unit):
    return np.array([Quantity(m, unit) for m in mags], dtype=object)


def operands(w):
    "name -> (real operand, elements, may stand on the left)"
    obj = lambda *a: np.array(a, dtype=object)
    one = {"3": 3, "0.5": 0.5, "0": 0, "y": w.y, "z": w.z, "z/y": w.z/w.y, "y+2": w.y + 2}
    out = {k: (v, scalars(v), True) for k, v in one.items()}
    out["np 4"] = (np.float64(4), scalars(4.0), True)
    out["[1, 2]"] = ([1, 2], obj(1, 2), True)
    out["(1., 2.)"] = ((1.0, 2.0), obj(1.0, 2.0), True)
    out["[y, 3]"] = ([w.y, 3], obj(w.y, 3), True)
    out["np [2, 4]"] = (np.array([2, 4]), obj(2, 4), True)
    out["np [2., 4.]"] = (np.array([2.0, 4.0]), obj(2.0, 4.0), True)
    out["np 2x2"] = (np.array([[1.0, 2.0], [3.0, 4.0]]), np.array([[1.0, 2.0], [3.0, 4.0]], dtype=object), True)
    out["3 m"] = (Quantity(3.0, "m"), scalars(Quantity(3.0, "m")), False)
    out["4 inch/ft"] = (Quantity(4.0, "inch/ft"), scalars(Quantity(4.0, "inch/ft")), False)
    out["[1, 2] ft"] = (Quantity(np.array([1.0, 2.0]), "ft"), q([1.0, 2.0], "ft"), False)
    out["[1 m, 2 cm]"] = ([Quantity(1.0, "m"), Quantity(2.0, "cm")], obj(Quantity(1.0, "m"), Quantity(2.0, "cm")), False)
    for k, v in arrays(w, False).items():
        if k in ("d", "v", "w", "M", "s", "d+1", "v*w", "e"):
            out[k+" "] = (v, scalars(v), True)
    return out


def scalar_op(op, a, b):
    "the scalar operation on elements; ('error', exception) if it is refused"
    if isinstance(a, Quantity) and hasattr(b, "hmap"):
        raise Skip     # pint's own operation
    hmaps = [x for x in (a, b) if hasattr(x, "hmap")]
    if op == "==" and not (hasattr(a, "hmap") and hasattr(a, "ast")) and hasattr(b, "hmap"):
        a, b = b, a     # a number's own comparison
    if isinstance(b, Quantity) and not hasattr(a, "hmap") or isinstance(a, Quantity) and not hasattr(b, "hmap"):
        raise Skip     # no nomials: pint's own operation
    if op == "/" and not hasattr(b, "hmap") and not getattr(b, "magnitude", b):
        raise Skip
    try:
        out = OPS[op](a, b)
    except Exception as e:   # pylint: disable=broad-except
        return ("error", e)
    if out is NotImplemented:
        return ("error", TypeError())
    return ("ok", out) if hmaps or not isinstance(out, np.ndarray) else ("error", TypeError())


def elementwise(op, a, b):
    try:
        bc = np.broadcast(a, b)
    except ValueError as e:
        return None, e
    shape = bc.shape
    A, B = np.broadcast_to(a, shape), np.broadcast_to(b, shape)
    out, bad = np.empty(shape, dtype=object), None
    for i in np.ndindex(shape):
        kind, val = scalar_op(op, A[i], B[i])
        if kind == "error":
            bad = val
        out[i] = val
    return out, bad


def meaning(x):
    return x if isinstance(x, (bool, np.bool_)) else of(x)


def agrees(got, want):
    if isinstance(want, (bool, np.bool_)) or isinstance(got, (bool, np.bool_)):
        return isinstance(got, (bool, np.bool_)) and isinstance(want, (bool, np.bool_)) and bool(got) == bool(want)
    if hasattr(want, "oper") or hasattr(got, "oper"):
        if not (hasattr(want, "oper") and hasattr(got, "oper")):
            return False
        flip = {"<=": ">=", ">=": "<=", "=": "="}
        straight = got.oper == want.oper and same(of(got.left), of(want.left)) and same(of(got.right), of(want.right))
        turned = got.oper == flip[want.oper] and same(of(got.left), of(want.right)) and same(of(got.right), of(want.left))
        if not (straight or turned):
            return False
        if hasattr(want, "as_hmapslt1") != hasattr(got, "as_hmapslt1"):
            return False
        try:
            if hasattr(want, "as_hmapslt1"):
                a, b = list(got.as_hmapslt1({})), list(want.as_hmapslt1({}))
                if want.oper == "=" and turned and not straight:
                    a = a[::-1]
                return len(a) == len(b) and all(np.isclose(p.get(k, 0), r.get(k, 0), rtol=1e-9, atol=1e-11) for p, r in zip(a, b) for k in set(p) | set(r))
        except Exception as e:   # pylint: disable=broad-except
            try:
                list(want.as_hmapslt1({}))
            except type(e):
                return True
            return False
        return True
    g, r = of(got), of(want)
    if all(abs(float(c)) < 1e-12 for x in (g, r) for c in x.terms.values()):
        return g.dims == r.dims or not (g.terms and r.terms)    # rounding of what cancels
    return (same(g, r, 1e-9) or same(r, g, 1e-9)) and (not hasattr(want, "hmap") or not hasattr(got, "hmap") or g.zero or set(g.terms) != set(r.terms) or got.__class__.__name__.replace("Variable", "Monomial") == want.__class__.__name__.replace("Variable", "Monomial") or not same(g, r, 0))


def compare(real, want, where, constraint):
    if constraint:
        require(isinstance(real, ArrayConstraint), "comparing arrays gives an array constraint", lambda: "%s: %r" % (where(), real))
        elements = list(real)
        require(len(elements) == want.size, "array constraints are the elementwise constraints", lambda: "%s: %s elements for %s" % (where(), len(elements), want.size))
        for i, (g, r) in enumerate(zip(elements, want.flat)):
            require(agrees(g, r), "array constraints are the elementwise constraints", lambda: "%s: element %s is %s, want %s" % (where(), i, g, r))
        # and they are what a set made of the array constrains
        if all(hasattr(g, "oper") for g in elements):
            flat = list(ConstraintSet([real]).flat())
            require(len(flat) == len(elements) and all(a is b for a, b in zip(flat, elements)), "sets hold the elementwise constraints", where)
        return
    if want.shape == ():
        require(not getattr(real, "shape", ()), "shapes are those of the elementwise operation", lambda: "%s: %s" % (where(), np.shape(real)))
        require(agrees(real, want.item()), "elements are those of the scalar operation", lambda: "%s: %s, want %s" % (where(), real, want.item()))
        return
    require(isinstance(real, np.ndarray) and real.shape == want.shape, "shapes are those of the elementwise operation", lambda: "%s: %s, want %s" % (where(), np.shape(real), want.shape))
    require(isinstance(real, NomialArray), "results are arrays of nomials", lambda: "%s: %s" % (where(), type(real)))
    for i in np.ndindex(want.shape):
        got = np.ndarray.__getitem__(real, i)
        require(agrees(got, want[i]), "elements are those of the scalar operation", lambda: "%s: element %s is %s (%s), want %s (%s)" % (where(), i, got, type(got).__name__, want[i], type(want[i]).__name__))


def fold(op, elements):
    out = None
    if not elements:
        raise Skip     # nothing to add up
    for e in elements:
        if out is None:
            out = e
            continue
        kind, out = scalar_op(op, out, e)
        if kind == "error":
            return None, out
    return out, None


def fold_sum(elements):
    "sum of the elements; plain zeros are zeros of any unit"
    if not elements:
        raise Skip
    kept = [e for e in elements if hasattr(e, "hmap") or hasattr(e, "units") or e != 0]
    if not kept:
        return 0.0, None
    kept.sort(key=lambda e: not hasattr(e, "hmap"))    # pint cannot add nomials on its right
    return fold("+", kept)


def fold_prod(elements):
    return fold("*", sorted(elements, key=lambda e: not hasattr(e, "hmap")))


def unary(w):
    "name -> (real function, reference function giving (elements, error) or None where undefined)"
    arr = lambda x: np.array(x, dtype=object)

    def wrap(f):
        def g(a):
            val, err = f(list(a.flat))
            out = np.empty((), dtype=object)
            out[()] = val
            return out, err
        return g

    def axis(f, k):
        def g(a):
            if a.ndim <= k:
                return None
            rows = np.moveaxis(a, k, -1)
            out = np.empty(rows.shape[:-1], dtype=object)
            bad = None
            for i in np.ndindex(out.shape):
                out[i], err = f(list(rows[i]))
                bad = bad or err
            return out, bad
        return g

    def dot(b):
        def g(a):
            other = b if b is not None else a
            if a.shape != other.shape or a.ndim != 1 or not a.size:
                return None
            prods, bad = elementwise("*", a, other)
            if bad is not None:
                return None, bad
            return wrap(lambda l: fold("+", l))(prods)
        return g

    def outer(b):
        return lambda a: elementwise("*", a.reshape(-1, 1), b.reshape(1, -1))

    def index(idx):
        def g(a):
            try:
                got = a[idx]
            except IndexError:
                return None
            if not isinstance(got, np.ndarray):
                out = np.empty((), dtype=object)
                out[()] = got
                return out, None
            return got, None
        return g

    def sub(vals):
        def g(a):
            if not a.size or not all(hasattr(x, "hmap") for x in a.flat):
                return None
            out = np.empty(a.shape, dtype=object)
            for i in np.ndindex(a.shape):
                try:
                    out[i] = a[i].sub(vals)
                except Exception as e:   # pylint: disable=broad-except
                    return None, e
            return out, None
        return g

    def power(p):
        def g(a):
            ps = np.array(p).astype(object)     # a list of mixed numbers is an array of floats
            try:
                shape = np.broadcast(a, ps).shape
            except ValueError as e:
                return None, e
            A, P = np.broadcast_to(a, shape), np.broadcast_to(ps, shape)
            out = np.empty(shape, dtype=object)
            for i in np.ndindex(shape):
                try:
                    out[i] = A[i]**P[i]
                except Exception as e:   # pylint: disable=broad-except
                    return None, e
                if out[i] is NotImplemented:
                    return None, TypeError()
            return out, None
        return g

    def neg(a):
        if not all(hasattr(x, "hmap") for x in a.flat) or not SignomialsEnabled:
            return None
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(a.shape):
            out[i] = -a[i]
        return out, None
    sl = np.s_
    vals = {w.d: [2.0, 3.0], w.y: 0.5, w.v[1]: 4.0, w.z: Quantity(3.0, "ft")}
    out = {"sum()": (lambda a: a.sum(), wrap(fold_sum)), "prod()": (lambda a: a.prod(), wrap(fold_prod)), "-": (operator.neg, neg),
           "sum(axis=0)": (lambda a: a.sum(axis=0), axis(lambda l: fold("+", l), 0)), "prod(axis=1)": (lambda a: a.prod(axis=1), axis(lambda l: fold("*", l), 1)),
           "sub": (lambda a: a.sub(vals), sub(vals)), "T": (lambda a: a.T, lambda a: (a.T, None)), "reshape": (lambda a: a.reshape((-1, 1)), lambda a: (a.reshape((-1, 1)), None)), "copy": (lambda a: a.copy(), lambda a: (a, None)),
           "dot itself": (lambda a: a.dot(a), dot(None)), "@ itself": (lambda a: a @ a, dot(None)),
           "dot d": (lambda a: a.dot(w.d), dot(scalars(w.d))), "d dot": (w.d.dot, dot(scalars(w.d))), "@ v": (lambda a: a @ w.v, dot(scalars(w.v))),
           "dot [2, 3]": (lambda a: a.dot([2, 3]), dot(arr([2, 3]))), "np [2., 3.] dot": (lambda a: np.array([2., 3.]).dot(a), dot(arr([2., 3.]))), "dot [1, 2] ft": (lambda a: a.dot(Quantity(np.array([1.0, 2.0]), "ft")), dot(q([1.0, 2.0], "ft"))),
           "outer v": (lambda a: a.outer(w.v), outer(scalars(w.v))), "outer [1, 2]": (lambda a: a.outer([1, 2]), outer(arr([1, 2]))), "outer [1, 2] ft": (lambda a: a.outer(Quantity(np.array([1.0, 2.0]), "ft")), outer(q([1.0, 2.0], "ft")))}
    for nm, idx in (("[0]", 0), ("[-1]", -1), ("[::-1]", sl[::-1]), ("[:1]", sl[:1]), ("[1:]", sl[1:]), ("[[1, 0]]", [1, 0]), ("[:, 1]", sl[:, 1]), ("[0, 1]", (0, 1)), ("[..., None]", sl[..., None]), ("[mask]", np.array([False, True])), ("[7]", 7)):
        out[nm] = ((lambda idx: lambda a: a[idx])(idx), index(idx))
    for p in (2, 0.5, -1, 0, [1, 2], [2, 0.5], [[1], [2]]):
        out["**%s" % p] = ((lambda p: lambda a: a**p)(p), power(p))
    out["**y"] = (lambda a: a**w.y, lambda a: (None, TypeError()))
    return out


def attempt(fn):
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            return fn(), None
        except Exception as e:   # pylint: disable=broad-except
            return None, e


def settle(real, err, want, bad, where, constraint=False):
    "compare outcomes; returns False when there is no result to go on with"
    if bad is not None:
        require(err is not None, "what the scalars refuse is refused", lambda: "%s gave %s though the elements raise %r" % (where(), real, bad))
        outcome("refused")
        return False
    require(err is None, "what the scalars allow is allowed", lambda: "%s raised %r" % (where(), err))
    compare(real, want, where, constraint)
    outcome("constraint" if constraint else "equal")
    return True


def run(ctx):
    depth = 2 if ctx.quick else 3
    with SignomialsEnabled():
        names = tuple(arrays(World(), True))
    onames = tuple(operands(World()))
    unames = tuple(unary(World()))
    ctx.bound(operations="all programs of up to %s operations" % depth, arrays=", ".join(names), operands=", ".join(onames), unary=", ".join(unames))
    arith = tuple(OPS)
    small = ("z", "np [2., 4.]", "d ") if ctx.quick else ("3", "y", "z", "y+2", "[y, 3]", "np [2., 4.]", "3 m", "[1 m, 2 cm]", "d ", "v ", "M ")
    late = ("sum()", "prod()", "sub") if ctx.quick else unames

    def body(ch):
        signomials = ch.flag()
        with contextlib.ExitStack() as stack:
            if signomials:
                stack.enter_context(SignomialsEnabled())
            w = World()
            menu = arrays(w, signomials)
            label = ch.pick(tuple(menu))
            cur = menu[label]
            ref = scalars(cur)
            text = [label]
            where = lambda: " ".join(text) + (" (signomials)" if signomials else "")
            before = None
            for step in range(depth):
                ops = arith if step == 0 else ("+", "*", "<=", "/") if ctx.quick or step > 1 else arith
                un = unames if step == 0 else late if step == 1 else ("sum()", "prod()", "[::-1]")
                move = ch.pick(("stop",) * (step > 0) + ops + un)
                if move == "stop":
                    return
                before = [str(x) for x in scalars(cur).flat] if isinstance(cur, np.ndarray) else []
                held, heldref = cur, ref
                if move in OPS:
                    chosen = ch.pick(onames if step == 0 else small)
                    o, oref, left_ok = operands(w)[chosen]
                    left = ch.flag()
                    if left and not left_ok:
                        raise Skip
                    text.append("%s%s %r" % (move, " from the right of" if left else "", o))
                    if not left:
                        want, bad = elementwise(move, ref, oref)
                        real, err = attempt(lambda: OPS[move](cur, o))
                    else:
                        want, bad = elementwise(move, oref, ref)
                        real, err = attempt(lambda: OPS[move](o, cur))
                    con = move in ("<=", ">=", "==")
                    if not any(hasattr(x, "hmap") for x in list(ref.flat) + list(oref.flat)) and con:
                        raise Skip     # no nomials: numpy's own comparison
                else:
                    f, g = unary(w)[move]
                    text.append(move)
                    got = g(ref)
                    if got is None:
                        raise Skip
                    want, bad = got
                    con = False
                    real, err = attempt(lambda: f(cur))
                if not settle(real, err, want, bad, where, con):
                    return
                require([str(x) for x in scalars(held).flat] == before, "operands are not changed", lambda: "%s: %s, was %s" % (where(), held, before))
                del heldref
                if con or want.shape == () or ctx.quick and move in OPS and chosen not in ("3", "3 m", "[1 m, 2 cm]") + small:
                    return
                cur, ref = real, want
    ctx.explore("programs", body)
