"""Printed text read back as mathematics, against values computed alongside the expression."""
import itertools
import math
import re
import numpy as np
from gpkit import Variable, VectorVariable, Model, Monomial, NamedVariables, SignomialsEnabled, ConstraintSet, NomialArray, Vectorize, units
from gpkit.constraints.tight import Tight
from gpkit.exceptions import Infeasible
from ..core import require, Skip, outcome, transition

TECHNIQUE = "exhaustive enumeration of expression trees (scalar, array, with units), constraints and model structures; each text, for each excluded field, parsed by an independent reader and evaluated, plus all histories of prints"
NOTE = "Trees of up to 2 operators over 5 leaves and 3 operators over 2 (3 over 4 when thorough); arrays of 2 and 2x2; numbers exact in the printed digits elsewhere to 1%. LaTeX is read for monomials to signomials, arrays and constraints. Texts whose excluded fields make names ambiguous are only required to exist. Constants with units of their own inside expressions are a listed finding."


# --------------------------------------------------------------- reader
class Unreadable(Exception):
    pass


SUPER = {chr(178): 2, chr(179): 3, **{chr(8304 + i): i for i in range(4, 10)}}
NUM = re.compile(r"(\d+\.?\d*(?:e[+-]?\d+)?)(π?)|(π)")


class Reader:
    "expr := term (+- term)*; term := unary (·/ unary)*; unary := -unary | postfix; postfix := primary (power | .sum() | .prod() | [idx])*"
    def __init__(self, text, env, unit=None):
        self.s, self.i, self.env, self.unit = text, 0, env, unit or {}
        self.names = sorted(env, key=len, reverse=True)

    def fail(self, why):
        raise Unreadable("%s at %d in %r" % (why, self.i, self.s))

    def skip(self):
        while self.i < len(self.s) and self.s[self.i] in " \n":
            self.i += 1

    def peek(self, tok):
        return self.s.startswith(tok, self.i)

    def take(self, tok):
        if self.peek(tok):
            self.i += len(tok)
            return True
        return False

    def read(self):
        v = self.expr()
        self.skip()
        if self.i != len(self.s):
            self.fail("left over text")
        return v

    def expr(self):
        v = self.term()
        while True:
            self.skip()
            if self.peek("+"):
                self.i += 1
                v = v + self.term()
            elif self.peek("-"):
                self.i += 1
                v = v - self.term()
            else:
                return v

    def term(self):
        v = self.unary()
        while True:
            self.skip()
            if self.take("·"):
                v = v*self.unary()
            elif self.take("/"):
                v = v/self.unary()
            else:
                return v

    def unary(self):
        self.skip()
        if self.take("-"):
            return -self.unary()
        return self.postfix()

    def postfix(self):
        v = self.primary()
        powered = False
        while True:
            if self.i < len(self.s) and self.s[self.i] in SUPER:
                if powered:
                    self.fail("power of a power")
                v, powered = power(v, SUPER[self.s[self.i]]), True
                self.i += 1
            elif self.peek("^"):
                if powered:
                    self.fail("power of a power")
                m = re.compile(r"\^(-?\d+\.?\d*(?:e[+-]?\d+)?)").match(self.s, self.i)
                if not m:
                    self.fail("exponent")
                exponent = m.group(1)
                # "x^2.sum()": the dot belongs to the method
                if exponent.endswith(".") and self.s[m.end():m.end() + 1].isalpha():
                    exponent = exponent[:-1]
                    self.i = m.end() - 1
                else:
                    self.i = m.end()
                v, powered = power(v, float(exponent)), True
            elif self.take(".sum()"):
                v, powered = np.sum(v), False
            elif self.take(".prod()"):
                v, powered = np.prod(v), False
            elif self.peek("[") and not self.s[self.i - 1] == " ":
                j, depth = self.i, 0
                while j < len(self.s):
                    depth += {"[": 1, "]": -1}.get(self.s[j], 0)
                    if not depth:
                        break
                    j += 1
                v, powered = np.asarray(v)[index_of(self.s[self.i + 1:j], self)], False
                self.i = j + 1
            else:
                return v

    def primary(self):
        self.skip()
        for n in self.names:
            if self.peek(n):
                self.i += len(n)
                return self.env[n]
        if self.take("("):
            v = self.expr()
            self.skip()
            if not self.take(")"):
                self.fail("parenthesis")
            return v
        m = re.compile(r"\[([-+.\de\s]+)\]").match(self.s, self.i)
        if m:   # as numpy writes numbers
            self.i = m.end()
            return np.array([float(w) for w in m.group(1).split()])
        if self.take("["):
            items = []
            while True:
                self.skip()
                if self.take("]"):
                    return np.array(items)
                if items and self.take(","):
                    self.skip()
                m = NUM.match(self.s, self.i)
                items.append(self.expr())
        m = NUM.match(self.s, self.i)
        if not m:
            self.fail("name or number")
        self.i = m.end()
        if m.group(1) and m.group(1).endswith(".") and self.s[self.i:self.i + 3] in ("sum", "pro"):
            self.i -= 1
        v = math.pi if m.group(3) else float(m.group(1))*(math.pi if m.group(2) else 1)
        m = re.compile(r" \[([^\]]*)\]").match(self.s, self.i)
        if m and m.group(1) in self.unit:
            self.i = m.end()
            v = v*self.unit[m.group(1)]
        return v


def power(v, x):
    with np.errstate(all="ignore"):
        return np.power(np.asarray(v, dtype=float), x) if np.shape(v) else (v**x if not (v < 0 and x != int(x)) else math.nan)


def index_of(text, reader):
    out = []
    for part in re.findall(r"\[[^\]]*\]|[^,]+", text):
        part = part.strip()
        if part.startswith("["):
            words = part[1:-1].replace(",", " ").split()
            out.append([w == "True" for w in words] if words[0] in ("True", "False") else [int(w) for w in words])
            continue
        if part == "None":
            out.append(None)
            continue
        if part == "...":
            out.append(Ellipsis)
        elif ":" in part:
            out.append(slice(*[int(p) if p else None for p in part.split(":")]))
        elif re.fullmatch(r"-?\d+", part):
            out.append(int(part))
        else:
            reader.fail("index %r" % text)
    return tuple(out)


def read(text, env, unit=None):
    return Reader(text, env, unit).read()


OPERS = {"≤": "<=", "≥": ">=", "=": "="}


def read_relation(text, env, unit=None):
    "(left, oper, right), written with ≥ turned around"
    hits = [(i, c) for i, c in enumerate(text) if c in OPERS]
    if len(hits) != 1:
        raise Unreadable("%d relations in %r" % (len(hits), text))
    i, c = hits[0]
    left, right = read(text[:i].strip(), env, unit), read(text[i+1:].strip(), env, unit)
    return orient(left, OPERS[c], right)


def orient(left, oper, right):
    return (right, "<=", left) if oper == ">=" else (left, oper, right)


# LaTeX: terms of numbers, names, powers and fractions
class Latex(Reader):
    def term(self):
        v, some, sign = 1.0, False, 1.0
        self.skip()
        if self.take("-"):
            sign = -1.0
        while True:
            self.skip()
            if self.i >= len(self.s) or self.s[self.i] in "+-}&]" or any(self.peek(t) for t in ("\\leq", "\\geq", "\\\\", "\\end", "=", "\\right")):
                break
            v, some = v*self.factor(), True
        if not some:
            self.fail("empty term")
        return sign*v

    def group(self):
        if not self.take("{"):
            self.fail("brace")
        v = self.expr()
        self.skip()
        if not self.take("}"):
            self.fail("brace")
        return v

    def factor(self):
        if self.take("\\frac"):
            return self.group()/self.group()
        if self.take("\\times 10"):
            m = re.compile(r"\^\{(-?\d+)\}").match(self.s, self.i)
            self.i = m.end()
            return 10.0**int(m.group(1))
        if self.take("\\left("):
            v = self.expr()
            if not self.take("\\right)"):
                self.fail("parenthesis")
            return v
        if self.take("\\cdot"):
            return 1.0
        for n in self.names:
            if self.peek(n):
                self.i += len(n)
                v = self.env[n]
                break
        else:
            if self.take("\\begin{bmatrix}"):
                rows, row = [], []
                while True:
                    row.append(self.expr())
                    self.skip()
                    if self.take("&"):
                        continue
                    rows.append(row)
                    row = []
                    if self.take("\\\\"):
                        continue
                    if self.take("\\end{bmatrix}"):
                        break
                    self.fail("matrix")
                v = np.array(rows[0] if len(rows) == 1 else rows)
            else:
                m = NUM.match(self.s, self.i)
                if not m:
                    self.fail("name or number")
                self.i = m.end()
                v = float(m.group(1))
        m = re.compile(r"\^\{(-?\d+\.?\d*(?:e[+-]?\d+)?)\}").match(self.s, self.i)
        if m:
            self.i = m.end()
            v = power(v, float(m.group(1)))
        return v


def read_latex(text, env):
    return Latex(text, env).read()


LATEX_OPERS = [("\\leq", "<="), ("\\geq", ">="), (" = ", "=")]


def close(a, b, tol):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        if a.size != b.size or a.size != 1:   # numbers broadcast over arrays mean the same
            try:
                a, b = np.broadcast_arrays(a, b)
            except ValueError:
                return False
    return bool(np.all((np.abs(a - b) <= tol*np.maximum(1e-9, np.maximum(np.abs(a), np.abs(b)))) | (np.isnan(a) & np.isnan(b))))


# --------------------------------------------------------------- expressions
VALUES = {"x": 1.375, "y": 0.71875, "z": 2.3125}
VEC = {"v": np.array([1.625, 0.65625]), "w": np.array([0.84375, 2.1875]), "m": np.array([[1.15625, 0.59375], [1.71875, 0.9375]])}


def env_plain():
    env = dict(VALUES)
    for n, val in VEC.items():
        env[n] = env[n + "[:]"] = val
    return env


ENV = env_plain()
ENV_ELEMENTS = dict(ENV)
LATEX_ENV = dict(VALUES)
for _n, _val in VEC.items():
    LATEX_ENV["\\vec{%s}" % _n] = _val
    for _i in np.ndindex(_val.shape):
        LATEX_ENV["{\\vec{%s}}_{%s}" % (_n, ",".join(map(str, _i)))] = _val[_i]
        LATEX_ENV["{%s}_{%s}" % (_n, ",".join(map(str, _i)))] = _val[_i]

E_VARS = {}


def variables():
    if not E_VARS:
        for n in VALUES:
            E_VARS[n] = Variable(n)
        for n, val in VEC.items():
            E_VARS[n] = VectorVariable(val.shape if val.ndim > 1 else len(val), n)
    return E_VARS


def num(c):
    return (c, float(c))


def combine(op, a, b=None):
    "(expression, value) of an operation on such pairs; None if the operation is not defined"
    (ea, va), (eb, vb) = a, b if b is not None else (None, None)
    with np.errstate(all="ignore"):
        try:
            if op == "+":
                return ea + eb, va + vb
            if op == "-":
                return ea - eb, va - vb
            if op == "*":
                return ea*eb, va*vb
            if op == "/":
                if np.any(np.asarray(vb) == 0):
                    return None
                return ea/eb, va/vb
            if op == "neg":
                return -ea, -va
            if op[0] == "^":
                x = POWERS[op]
                if not isinstance(ea, (int, float)) or x:
                    return ea**x, power(va, float(x))
                return None
            if op == "sum":
                return ea.sum(), np.sum(va)
            if op == "prod":
                return ea.prod(), np.prod(va)
            if op[0] == "[":
                return ea[INDEX[op]], va[INDEX[op]]
        except (TypeError, ValueError, AttributeError, ZeroDivisionError, IndexError, OverflowError):
            return None
    raise KeyError(op)


POWERS = {"^2": 2, "^3": 3, "^0.5": 0.5, "^-1": -1, "^-2": -2, "^1": 1, "^10": 10, "^0": 0, "^1.5": 1.5, "^np2": np.float64(2), "^-0.5": -0.5, "^i2": np.int64(2)}
INDEX = {"[0]": 0, "[0:1]": slice(0, 1), "[::-1]": slice(None, None, -1), "[:0]": slice(0, 0), "[1:]": slice(1, None), "[-1]": -1, "[-1:]": slice(-1, None), "[:-1]": slice(None, -1),
         "[:,0]": (slice(None), 0), "[0,:]": (0, slice(None)), "[0,0:1]": (0, slice(0, 1)), "[...,0]": (Ellipsis, 0), "[:]": slice(None), "[::2]": slice(None, None, 2),
         "[-2:]": slice(-2, None), "[0:0]": slice(0, 0), "[:,None]": (slice(None), None), "[list]": [1, 0], "[(list,0)]": ([1, 0], 0), "[mask]": np.array([True, False])}
EXCLUDED = [(), ("units",), ["units"], {"units", "lineage"}, ("unnecessary lineage", "units"), ("vec", "units"), ("modelnums", "units")]


def is_nomial(e):
    return hasattr(e, "str_without") and not isinstance(e, (int, float))


def check_text(what, e, value, excluded=(("units",),), tol=1e-6, latex=True, env=None, unit=None, suffix=None):
    for ex in excluded:
        try:
            text = e.str_without(ex)
        except Exception as err:  # pylint: disable=broad-except
            require(False, what + ": error", "str_without(%r) of %s: %s: %s" % (ex, value, type(err).__name__, err))
        body = text
        if suffix and "units" not in ex:
            require(text.endswith(suffix), what + ": units", "%r lacks %r" % (text, suffix))
            body = text[:-len(suffix)]
        try:
            got = read(body, env or ENV, unit)
        except Unreadable as err:
            require(False, what + ": unreadable", "%r (excluded %s): %s; the value is %s" % (text, ex, err, value))
        except (IndexError, ValueError, ZeroDivisionError, TypeError) as err:
            require(False, what + ": unreadable", "%r (excluded %s): %s; the value is %s" % (text, ex, err, value))
        require(close(got, value, tol), what + ": value", "%r (excluded %s) reads %s, is %s" % (text, ex, got, value))
        require(e.str_without(ex) == text, what + ": repeat", "%r then %r" % (text, e.str_without(ex)))
    if latex and hasattr(e, "latex") and short_powers(e):
        try:
            text = e.latex(("units",))
        except Exception as err:  # pylint: disable=broad-except
            require(False, what + ": latex error", "%s: %s for %s" % (type(err).__name__, err, e))
        try:
            got = read_latex(text, LATEX_ENV)
        except (Unreadable, IndexError, AttributeError, ZeroDivisionError) as err:
            require(False, what + ": latex unreadable", "%r: %s; %s" % (text, err, e))
        require(close(np.squeeze(got), np.squeeze(value), max(tol, 2e-3)), what + ": latex value", "%r of %s reads %s, is %s" % (text, e, got, value))


def short_powers(e):
    "LaTeX gives exponents to two digits, coefficients to four (many terms may cancel)"
    ns = [n for n in (e.flat if isinstance(e, np.ndarray) else [e]) if hasattr(n, "hmap")]
    return all(len(n.hmap) < 5 for n in ns) and all(float("%.2g" % x) == x for n in ns for exp in n.hmap for x in exp.values())


def leaves(names):
    v = variables()
    out = []
    for n in names:
        if n in VALUES:
            out.append((v[n], VALUES[n]))
        elif n in VEC:
            out.append((v[n], VEC[n]))
        elif n == "p":     # a posynomial without a history
            out.append(((v["x"] + 2*v["y"]).sub({}), VALUES["x"] + 2*VALUES["y"]))
        elif n == "q":     # a signomial without a history
            out.append(((2*v["x"]**2 - v["y"]).sub({}), 2*VALUES["x"]**2 - VALUES["y"]))
        elif n == "a":
            out.append((np.array([2., -0.5]), np.array([2., -0.5])))
        elif n == "l":
            out.append(([0.5, 4], np.array([0.5, 4])))
        elif n == "n":
            out.append((NomialArray([v["x"], v["y"]**2 + 1]), np.array([VALUES["x"], VALUES["y"]**2 + 1])))
        else:
            out.append(num(n))
    return out


BIN = ["+", "-", "*", "/"]


def grow(level, small, unary, seen_plain=False):
    "all expressions one operation above: op(level), op(level, small), op(small, level)"
    for op in unary:
        for a in level:
            r = combine(op, a)
            if r is not None and is_nomial(r[0]):
                yield r
    for op in BIN:
        for a in level:
            for b in small:
                r = combine(op, a, b)
                if r is not None and is_nomial(r[0]):
                    yield r
                r = combine(op, b, a)
                if r is not None and is_nomial(r[0]):
                    yield r


SCALAR_UNARY = ["neg", "^2", "^3", "^0.5", "^-1", "^0", "^10", "^1", "^1.5", "^np2", "^i2", "^-0.5"]
ARRAY_UNARY = ["neg", "^2", "^0.5", "^-1", "sum", "prod", "[0]", "[0:1]", "[::-1]", "[1:]", "[-1]", "[:]", "[:-1]"]
MATRIX_UNARY = ["neg", "^2", "sum", "prod", "[0]", "[:,0]", "[0,:]", "[0,0:1]", "[...,0]", "[::2]", "[-2:]", "[:0]", "[0:0]", "[:,None]", "[list]", "[(list,0)]", "[mask]"]


def level1(names, unary):
    ls = leaves(names)
    return ls, ls + list(grow(ls, ls, unary))


def scalar_trees(ch):
    "two operators over the leaves"
    with SignomialsEnabled():
        ls, l1 = level1(["x", "y", 2, -0.5, "p", "q"], SCALAR_UNARY)
        a = ch.pick(range(len(l1)))
        a = l1[a]
        if ch.flag():
            for op in SCALAR_UNARY:
                one("scalar", op, a)
        else:
            op = ch.pick(BIN)
            for b in l1:
                one("scalar", op, a, b)


def one(what, op, a, b=None, **kw):
    r = combine(op, a, b)
    if r is None or not is_nomial(r[0]):
        return None
    if np.any(~np.isfinite(np.asarray(r[1], dtype=float))):
        return None
    transition()
    check_text(what, r[0], r[1], **kw)
    return r


def deep_trees(ch):
    "three operators over fewer leaves"
    names = ["x", "y"] if QUICK else ["x", "y", 2, -0.5]
    unary = ["neg", "^2", "^0.5", "^-1"] if QUICK else ["neg", "^2", "^3", "^0.5", "^-1"]
    with SignomialsEnabled():
        ls, l1 = level1(names, unary)
        a = l1[ch.pick(range(len(l1)))]
        op = ch.pick(BIN + unary)
        seconds = [combine(op, a, b) for b in l1] if op in BIN else [combine(op, a)]
        for s in seconds:
            if s is None or not is_nomial(s[0]) or not np.isfinite(s[1]):
                continue
            for u in unary:
                one("deep", u, s)
            for o in BIN:
                for leaf in ls:
                    one("deep", o, s, leaf)
                    one("deep", o, leaf, s)


def array_trees(ch):
    matrix = ch.flag()
    names, unary = (["m", "x", 2], MATRIX_UNARY) if matrix else (["v", "x", 2, "a", "n", "l"], ARRAY_UNARY)
    with SignomialsEnabled():
        ls, l1 = level1(names, unary)
        a = l1[ch.pick(range(len(l1)))]
        if ch.flag():
            for op in unary:
                one_array(op, a)
        else:
            op = ch.pick(BIN)
            for b in l1:
                one_array(op, a, b)


def one_array(op, a, b=None):
    if isinstance(a[0], (np.ndarray, list)) and not hasattr(a[0], "ast"):
        if b is None or isinstance(b[0], (list, np.ndarray)) and not hasattr(b[0], "ast") or isinstance(a[0], list) and not isinstance(b[0], NomialArray):
            return
        if not isinstance(b[0], NomialArray):
            return     # numpy arrays of numbers first: numpy's operators
    if b is not None and isinstance(b[0], list) and not isinstance(a[0], NomialArray):
        return
    r = combine(op, a, b)
    if r is None or not is_nomial(r[0]) or np.size(r[1]) == 0:
        return
    if np.any(~np.isfinite(np.asarray(r[1], dtype=float))):
        return
    transition()
    env = ENV
    check_text("array", r[0], r[1], env=env, latex=b is None or b[0] is E_VARS["x"])


NUMBERS = [1, -1, 2, 10, 0.001, 123456.0, 1234.5678, 1e20, -1e-7, math.pi, 2*math.pi, math.pi/2, math.pi/3, math.pi/6, 2*math.pi/3, -math.pi, 3.14, 3.1, 100.0, 99.95, 1.04, 0.999, 0.26, 314.0, 0.5236,
           np.float64(2.5), np.int64(3), np.float32(0.25), 5*math.pi/2, math.pi/12, math.pi/11, 7*math.pi/12]


def numbers(ch):
    c = ch.pick(NUMBERS)
    d = ch.pick([None, 2, math.pi, -3])
    op = ch.pick(BIN)
    first = ch.flag()
    op2 = ch.pick([None] + BIN + ["neg", "^2", "^-1"])
    with SignomialsEnabled():
        x = leaves(["x"])[0]
        r = combine(op, x, num(c) if not isinstance(c, np.generic) else (c, float(c))) if first else combine(op, (c, float(c)), x)
        if r is None:
            raise Skip()
        if op2 in BIN:
            if d is None:
                raise Skip()
            r = combine(op2, r, num(d))
        elif op2:
            if d is not None:
                raise Skip()
            r = combine(op2, r)
        elif d is not None:
            raise Skip()
        if r is None or not is_nomial(r[0]):
            raise Skip()
        scale = abs(VALUES["x"]) + abs(float(c)) + abs(d or 0)
        if abs(r[1]) < 0.1*scale and ("-" in (op, op2) or "+" in (op, op2)):
            raise Skip()   # cancellation amplifies the rounding
        check_text("number", r[0], r[1], tol=2e-2)
        plain = r[0].sub({})
        check_text("number without history", plain, r[1], tol=2e-2)


NAMES = ["x", "C_{L}", "\\eta", "f(x)", "p_(ref)", "d-e", "T - T0", "a/b", "(u)", "x+1", "π", "e"]


def names(ch):
    "any name, under every operator"
    n = ch.pick(NAMES)
    n2 = ch.pick(NAMES)
    ops = ch.pick([(op, op2) for op in BIN + ["neg", "^2", "^0.5"] for op2 in BIN + ["neg", "^2", "^-1"]])
    if n == n2:
        raise Skip()
    a, b = Variable(n), Variable(n2)
    env = {n: 1.375, n2: 0.71875}
    with SignomialsEnabled():
        pa, pb = (a, 1.375), (b, 0.71875)
        r = combine(ops[0], pa, pb) if ops[0] in BIN else combine(ops[0], pa)
        r = r and (combine(ops[1], r, pb) if ops[1] in BIN else combine(ops[1], r))
        if r is None or not is_nomial(r[0]):
            raise Skip()
        check_text("names", r[0], r[1], env=env, latex=False)


# --------------------------------------------------------------- units
UNIT = {"m": 1.0, "ft": 0.3048, "s": 1.0, "cm": 0.01, "m²": 1.0, "m/s": 1.0}


def with_units(ch):
    "expressions of variables and constants with units: the text's units are the expression's, constants' are their own"
    x, y, t = Variable("x", "m"), Variable("y", "m"), Variable("t", "s")
    lv = [(x, 1.375), (y, 0.71875), (t, 2.3125), (2*units.m, 2.0), (3*units.s, 3.0), (units("m")*0.5, 0.5), (2, 2.0)]
    env = {"x": 1.375, "y": 0.71875, "t": 2.3125}
    op1, op2 = ch.pick(BIN + ["neg", "^2", "^0.5", "^-1"]), ch.pick(BIN + ["neg", "^2", "^-1"])
    i, j, k = ch.pick(range(len(lv))), ch.pick(range(len(lv))), ch.pick(range(len(lv)))
    if op1 not in BIN and j or op2 not in BIN and k:
        raise Skip()
    with SignomialsEnabled():
        r = cu(op1, lv[i], lv[j])
        r = r and cu(op2, r, lv[k])
        if r is None or not is_nomial(r[0]) or not hasattr(r[0], "units"):
            raise Skip()
        e = r[0]
        check_text("units", e, r[1], excluded=[(), ("units",)], latex=False, env=env, unit=UNIT, tol=1e-2, suffix=unit_suffix(e))
        e.latex()


def cu(op, a, b):
    from gpkit import DimensionalityError
    try:
        return combine(op, a, b) if op in BIN else combine(op, a)
    except DimensionalityError:
        return None


def unit_suffix(e):
    if not e.units:
        return None
    return " [%s]" % "{:P~}".format(e.units.units).replace(" ", "")


def own_units(ch):
    "a constant in other units than the expression's"
    x = Variable("x", "m")
    c, factor, unit = ch.pick([(units.ft, 0.3048, "ft"), (units.cm, 0.01, "cm")])
    k = ch.pick([2, 3.5])
    shape = ch.pick(["x+c", "c+x", "x*c", "x+y*c/x"])
    y = Variable("y", "m")
    xv, yv, cv = 1.375, 0.71875, k*factor
    e, val = {"x+c": (x + k*c, xv + cv), "c+x": (k*c + x, xv + cv), "x*c": (x*(k*c), xv*cv), "x+y*c/x": (x + y*(k*c)/x, xv + yv*cv/xv)}[shape]
    text = e.str_without()
    suffix = unit_suffix(e)
    if text.endswith(suffix):
        text = text[:-len(suffix)]
    env = {"x": xv, "y": yv}
    # read with constants taken in the units printed with them, or the expression's
    try:
        got = read(text, env, UNIT)
    except Unreadable as err:
        require(False, "own units: unreadable", "%r: %s" % (e.str_without(), err))
    require(close(got, val, 1e-3), "constant's own units not shown", "%s%s: %r reads %s m.. instead of %s" % (shape, unit, e.str_without(), got, val))


# --------------------------------------------------------------- constraints
def sides(kind):
    v = variables()
    sc = leaves(["x", "y", "p"])
    x, y, p = sc
    vec = leaves(["v"])[0]
    mk = lambda op, a, b=None: combine(op, a, b)
    out = [x, y, p, num(2), mk("*", x, y), mk("/", x, y), mk("+", x, num(1)), mk("^2", x), mk("^2", p), mk("*", mk("+", x, y), mk("+", x, num(2))), mk("sum", vec), mk("prod", vec), mk("*", num(math.pi), x)]
    if kind == "vector":
        out = [vec, x, num(2), mk("*", vec, x), mk("+", vec, num(1)), mk("^2", vec), mk("/", num(1), vec), mk("[::-1]", vec), (np.array([1., 2.]), np.array([1., 2.])), leaves(["n"])[0], mk("/", vec, x)]
    if kind == "signomial":
        out = [x, num(2), mk("-", x, y), mk("-", x, num(1)), mk("neg", x), mk("-", p, mk("*", x, y)), leaves(["q"])[0], mk("-", num(1), mk("^2", x))]
    if kind == "matrix":
        m = leaves(["m"])[0]
        out = [m, x, num(2), mk("*", m, x), mk("[0]", m), mk("^2", m), mk("[:,0]", m)]
    return out


def constraints(ch):
    kind = ch.pick(["scalar", "vector", "signomial", "matrix"])
    with SignomialsEnabled() if kind == "signomial" else NamedNothing():
        ss = sides(kind)
        a, b = ss[ch.pick(range(len(ss)))], ss[ch.pick(range(len(ss)))]
        oper = ch.pick(["<=", ">=", "=="])
        if not is_nomial(a[0]) or isinstance(b[0], np.ndarray) and not hasattr(b[0], "ast") and not isinstance(a[0], NomialArray):
            raise Skip()
        try:
            c = a[0] <= b[0] if oper == "<=" else a[0] >= b[0] if oper == ">=" else a[0] == b[0]
        except (TypeError, ValueError, Infeasible):
            raise Skip()
        if not hasattr(c, "str_without"):
            raise Skip()
        want = orient(a[1], "=" if oper == "==" else oper, b[1])
        check_relation("constraint " + kind, c, want)


class NamedNothing:
    def __enter__(self):
        return self

    def __exit__(self, *_):
        return False


def same_relation(got, want, tol=1e-6):
    if got[1] != want[1]:
        return False
    if close(got[0], want[0], tol) and close(got[2], want[2], tol):
        return True
    return want[1] == "=" and close(got[0], want[2], tol) and close(got[2], want[0], tol)


def check_relation(what, c, want, env=None, latex_env=None):
    for ex in EXCLUDED:
        try:
            text = c.str_without(ex)
            latex = c.latex(ex)
        except Exception as err:  # pylint: disable=broad-except
            require(False, what + ": error", "excluded %r: %s: %s" % (ex, type(err).__name__, err))
        try:
            got = read_relation(text, env or ENV)
        except (Unreadable, IndexError, ValueError) as err:
            require(False, what + ": unreadable", "%r (excluded %s): %s" % (text, ex, err))
        require(same_relation(got, want), what + ": value", "%r (excluded %s) reads %s, is %s" % (text, ex, got, want))
        if "vec" in ex:
            continue
        got = relation_latex(what, latex, latex_env or LATEX_ENV)
        require(same_relation(got, want, 2e-3), what + ": latex value", "%r of %r reads %s, is %s" % (latex, text, got, want))


def relation_latex(what, latex, env):
    for tok, oper in LATEX_OPERS:
        if tok in latex:
            l, r = latex.split(tok)
            try:
                return orient(read_latex(l.strip(), env), oper, read_latex(r.strip(), env))
            except (Unreadable, AttributeError, IndexError) as err:
                require(False, what + ": latex unreadable", "%r: %s" % (latex, err))
    require(False, what + ": latex unreadable", "no relation in %r" % latex)


# --------------------------------------------------------------- models
class Names:
    "the model world: (name, lineage) -> value; which printed names are unambiguous"
    def __init__(self):
        self.table = []   # (name, lineage tuple, value)

    def add(self, name, lineage, value):
        self.table.append((name, tuple(lineage), value))

    def env(self, excluded, latex=False):
        out, bad = {}, set()
        for name, lineage, value in self.table:
            forms = set()
            full = ".".join("%s%d" % (n, i) if i and "modelnums" not in excluded else n for n, i in lineage)
            if "lineage" not in excluded:
                if "unnecessary lineage" not in excluded or latex:
                    fulls = [full] if full else [""]
                else:
                    fulls = [full, ""] if full else [""]
            else:
                fulls = [""]
            for f in fulls:
                pre = f + "." if f else ""
                vec = isinstance(value, np.ndarray)
                if not latex:
                    forms.add((pre + name, id(value)))
                    if vec:
                        forms.add((pre + name + "[:]", id(value)))
                else:
                    post = lambda t, f=f: "{%s}_{%s}" % (t, f) if f else t
                    if vec:
                        forms.add((post("\\vec{%s}" % name), id(value)))
                        for i in range(len(value)):
                            forms.add((post("{\\vec{%s}}_{%d}" % (name, i)), (id(value), i)))
                    else:
                        forms.add((post(name), id(value)))
            for form, which in forms:
                if form in out and out[form][0] != which:
                    bad.add(form)
                out[form] = (which, value[which[1]] if isinstance(which, tuple) else value)
        return {f: v for f, (_, v) in out.items() if f not in bad}, bad


FIELDS = ["units", "lineage", "unnecessary lineage", "modelnums", "vec", "idx", "root", "constraint names"]


def build(structure):
    "(model, [(left, oper, right)], names, cost value)"
    NamedVariables.reset_modelnumbers()
    names, rels = Names(), []
    vals = iter([1.375, 0.71875, 2.3125, 1.15625, 0.59375, 1.71875, 0.9375, 1.484375, 0.796875, 2.078125, 1.265625, 0.640625]*3)

    def scalar(name, lineage):
        val = next(vals)
        names.add(name, lineage, val)
        return val

    def vector(name, lineage):
        val = np.array([next(vals), next(vals)])
        names.add(name, lineage, val)
        return val

    class Part(Model):
        def setup(self, lineage, extra="k"):
            x = self.x = Variable("x")
            w = self.w = VectorVariable(2, "w")
            k = self.k = Variable(extra)
            self.xv, self.wv, self.kv = scalar("x", lineage), vector("w", lineage), scalar(extra, lineage)
            rels.append(orient(self.xv, ">=", 1/self.kv))
            rels.append(orient(self.wv, ">=", self.xv))
            rels.append(orient(self.wv[0]*self.kv, ">=", (self.xv + self.kv)**2))
            rels.append(orient(self.wv.sum()*self.xv, "<=", self.kv))
            return [x >= 1/k, w >= x, w[0]*k >= (x + k)**2, k >= w.sum()*x]

    class Other(Part):
        pass

    kinds = {"two parts": [Part, Part], "two classes": [Part, Other], "one": [Part], "none": []}

    class Whole(Model):
        def setup(self):
            parts = []
            counts = {}
            for i, K in enumerate(kinds[structure[0]]):
                n = counts.get(K.__name__, 0)
                counts[K.__name__] = n + 1
                parts.append(K([("Whole", 0), (K.__name__, n)], "k" if structure[1] != "distinct" else "k%d" % i))
            x, q = Variable("x"), VectorVariable(2, "q")
            xv, qv = scalar("x", [("Whole", 0)]), vector("q", [("Whole", 0)])
            own = [x >= q.prod()]
            rels.append(orient(xv, ">=", qv.prod()))
            for p in parts:
                own.append(x**2*p.x >= p.w[1] + q[0])
                rels.append(orient(xv**2*p.xv, ">=", p.wv[1] + qv[0]))
                own.append(q >= p.w/p.x)
                rels.append(orient(qv, ">=", p.wv/p.xv))
            self.cost = (x + q[1])*x
            self.costvalue = (xv + qv[1])*xv
            if structure[2] == "flat":
                return parts + own
            if structure[2] == "list":
                return [parts, own]
            if structure[2] == "nested":
                return [parts, [own[:1], [own[1:]]]]
            if structure[2] == "dict":
                return {"parts": parts, "own": own}
            if structure[2] == "inner dict":
                return [parts, {"a b": own[0], "rest": own[1:]}]
            if structure[2] == "sets":
                return [parts, ConstraintSet(own), Tight(own[:1])]
            raise KeyError(structure)
    if structure[3] == "anonymous":
        w = Whole()
        z = Variable("z")
        names.add("z", [], VALUES["z"])
        rels.append(orient(VALUES["z"], ">=", 1.0))
        m = Model(w.cost*z, [w, z >= 1])
        m.costvalue = w.costvalue*VALUES["z"]
    else:
        m = Whole()
    if structure[2] == "sets":
        i = next(j for j, r in enumerate(rels) if len(kinds[structure[0]])*4 == j)
        rels.append(rels[i])
    return m, rels, names


STRUCTURES = list(itertools.product(["two parts", "two classes", "one", "none"], ["same", "distinct"], ["flat", "list", "nested", "dict", "inner dict", "sets"], ["named", "anonymous"]))


def descrs(m):
    return sorted((str(k.key.eqstr) if hasattr(k, "eqstr") else str(k), sorted((a, str(b)) for a, b in k.descr.items() if a != "veckey"),
                   sorted((a, str(b)) for a, b in k.veckey.descr.items()) if k.veckey else None) for k in m.vks)


def models(ch):
    structure = ch.pick(STRUCTURES)
    excl = [f for f in FIELDS if ch.flag()]
    if "units" not in excl and len(excl) > 2:
        raise Skip()
    kind = ch.pick([tuple, list, set, frozenset]) if len(excl) in (1, 2) else tuple
    if QUICK and (structure[3] == "anonymous" or structure[1] == "distinct") and len(excl) > 3:
        raise Skip()
    m, rels, names = build(structure)
    before = descrs(m)
    ex = kind(excl)
    try:
        text = m.str_without(ex)
    except Exception as err:  # pylint: disable=broad-except
        require(False, "model: error", "%s excluded %r: %s: %s" % (structure, ex, type(err).__name__, err))
    try:
        latex = m.latex(ex)
    except Exception as err:  # pylint: disable=broad-except
        require(False, "model: latex error", "%s excluded %r: %s: %s" % (structure, ex, type(err).__name__, err))
    require(descrs(m) == before, "model: printing changes variables", "%s excluded %s: %s" % (structure, ex, [d for d in zip(before, descrs(m)) if d[0] != d[1]]))
    if "idx" in excl:
        outcome("only printed")
        return
    env, bad = names.env(excl)
    if bad and ("lineage" in excl or "modelnums" in excl and "unnecessary lineage" not in excl or "root" in excl and "unnecessary lineage" in excl or "modelnums" in excl):
        outcome("only printed")
        return
    lines = [l.strip() for l in text.split("\n")]
    got, texts = [], []
    for l in lines:
        if any(o in l for o in OPERS) and set(l) != {"="}:
            try:
                got.append(read_relation(l, env))
            except (Unreadable, IndexError, ValueError) as err:
                require(False, "model: unreadable", "%s excluded %s: %r: %s" % (structure, ex, l, err))
            texts.append(l)
    match(structure, "model", ex, got, rels, text)
    if "root" not in excl:
        i = lines.index("Cost Function") if "Cost Function" in lines else None
        require(i is not None, "model: cost", "no cost in\n%s" % text)
        require(close(read(lines[i + 2], env), m.costvalue, 1e-6), "model: cost", "%r reads %s, is %s" % (lines[i + 2], read(lines[i + 2], env), m.costvalue))
    # LaTeX
    if "unnecessary lineage" in excl or "vec" in excl:
        return
    lenv, lbad = names.env(excl, latex=True)
    if lbad:
        return
    got = []
    for l in latex.split("\n"):
        l = l.strip().lstrip("&").strip()
        if l.endswith("\\\\"):
            l = l[:-2].strip()
        if "\\leq" in l or "\\geq" in l or " = " in l:
            got.append(relation_latex("model", l, lenv))
    match(structure, "model latex", ex, got, rels, latex, 2e-3)


def match(structure, what, ex, got, rels, text, tol=1e-6):
    left = list(rels)
    for g in got:
        for i, r in enumerate(left):
            if same_relation(g, r, tol):
                del left[i]
                break
        else:
            require(False, what + ": value", "%s excluded %s: a line reads %s, which is no constraint, in\n%s" % (structure, ex, g, text))
    require(not left, what + ": missing", "%s excluded %s: constraints %s are missing from\n%s" % (structure, ex, left, text))


# --------------------------------------------------------------- histories of prints
def hist_world():
    m, rels, names = build(("two parts", "same", "list", "named"))
    cs = list(m.flat())
    pieces = [m, m[0][0], m[0][1]] if isinstance(m[0], list) else [m]
    return m, cs, pieces


HIST_EX = [("units",), ("unnecessary lineage", "units"), (), ("lineage", "units"), ("root", "unnecessary lineage", "units"), ("modelnums", "units")]


def hist_objects(world):
    m, cs, pieces = world
    return [("model", m), ("part", pieces[1]), ("first", cs[0]), ("last", cs[-1]), ("sum", cs[3]), ("cost", m.cost), ("var", m.cost.ast[1][0] if m.cost.ast else m.cost)]


def prints(ch):
    "the text of each object does not depend on what was printed before"
    fresh = {}
    n = 2 if QUICK else 3
    seq = []
    objs = ["model", "part", "first", "last", "sum", "cost", "var"]
    for _ in range(n):
        if seq and not ch.flag():
            break
        seq.append((ch.pick(objs), ch.pick(HIST_EX), ch.pick(["str", "latex"])))
    world = hist_world()
    obj = dict(hist_objects(world))
    for o, ex, how in seq:
        (obj[o].str_without if how == "str" else obj[o].latex)(ex)
    for o in objs:
        for ex in HIST_EX:
            key = (o, ex)
            if key not in FRESH:
                FRESH[key] = dict(hist_objects(hist_world()))[o].str_without(ex)
            got = obj[o].str_without(ex)
            require(got == FRESH[key], "prints: text depends on earlier prints", "after %s, %s excluded %s is\n%s\ninstead of\n%s" % (seq, o, ex, got, FRESH[key]))


FRESH = {}
QUICK = True


def run(ctx):
    global QUICK
    QUICK = ctx.quick
    ctx.explore("scalar trees", scalar_trees)
    ctx.explore("deep trees", deep_trees)
    ctx.explore("array trees", array_trees)
    ctx.explore("numbers", numbers)
    ctx.explore("names", names)
    ctx.explore("units", with_units)
    ctx.explore("own units", own_units)
    ctx.explore("constraints", constraints)
    ctx.explore("models", models)
    ctx.explore("prints", prints)
