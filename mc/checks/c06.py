"""Compiled constraints: every written constraint x substituted constants, compared through the standard form a solver receives."""
import itertools
import numpy as np
import gpkit
from gpkit import Variable, Model, SignomialsEnabled
from gpkit.constraints.sigeq import SignomialEquality
from gpkit.exceptions import InvalidGPConstraint, InvalidPosynomial, PrimalInfeasible
from gpkit.units import Quantity
from ..core import require, outcome, fail, Skip
from ..ref import R, F, UNITS
from ..prog import standard_form, close

TECHNIQUE = "exhaustive exploration of written constraints x substitution histories, compiled by the real code and read back from the arguments of a recording solver"
NOTE = "Every constraint within the term menus, both operators and operand orders, every assignment of substituted values from the menu, and every ordered pair of compilations; accepted outcomes at the edge of the 0.1% feasibility tolerance are the library's."
TOL = 1e-3
SCHEMES = {"plain": ({"a": "", "b": "", "c": ""}, ""), "units": ({"a": "ft", "b": "m", "c": "cm"}, "m")}


class World:
    def __init__(self, scheme):
        self.scheme = scheme
        self.u, self.k = SCHEMES[scheme]
        self.v = {n: (Variable(n, u) if u else Variable(n)) for n, u in self.u.items()}
        self.r = {n: R.var(n, u) for n, u in self.u.items()}
        self.w = Variable("w")
        one = getattr(gpkit.units, self.k) if self.k else 1
        rone = R.num(1, self.k)
        a, b, c = (self.v[n] for n in "abc")
        ra, rb, rc = (self.r[n] for n in "abc")
        self.terms = [("a", a, ra), ("2b", 2*b, R.num(2).mul(rb)), ("ab/u", a*b/one, ra.mul(rb).div(rone)), ("a^2/b", a**2/b, ra.power(2).div(rb)), ("0.5u", 0.5*one, R.num(F(1, 2)).mul(rone)),
                      ("c", c, rc), ("bc/a", b*c/a, rb.mul(rc).div(ra)), ("3u", 3*one, R.num(3).mul(rone)), ("0.3a", 0.3*a, R.num(F(3, 10)).mul(ra))]

    def model(self, con, subs):
        vals = {self.v[n].key: v for n, v in subs.items()}
        return Model(self.w, [con], vals)

    def compiled(self, con, subs):
        "canonical posynomials, or the class of exception"
        return read(self.model(con, subs))

    def si(self, subs):
        return {n: F(v)*UNITS[self.u[n]][0] for n, v in subs.items()}

    def own(self, terms):
        "reference terms rewritten over values in the variables' own units"
        out = {}
        for k, c in terms.items():
            c = float(c)
            for n, e in k:
                c *= float(UNITS[self.u[n]][0])**float(e)
            out[tuple((n, round(float(e), 12)) for n, e in k)] = c
        return out


def read(m):
    try:
        gp = m.gp(checkbounds=False)
    except (InvalidGPConstraint, InvalidPosynomial):
        return "invalid"
    except PrimalInfeasible:
        return "infeasible"
    posys, _, _ = standard_form(gp)
    out = []
    for terms, _ in posys[1:]:
        c = canonical(terms)
        if c:
            out.append(c)
    return out


def canonical(terms):
    "p <= 1 with its constant moved to the right; a constraint on nothing that holds is dropped"
    t = dict(terms)
    const = t.pop((), 0)
    require(const < 1 + TOL and (const < 1 or not t), "impossible constraint handed to the solver", lambda: str(terms))
    return {k: c/(1-const) for k, c in t.items()}


def sameset(got, want):
    want = list(want)
    for g in got:
        i = next((i for i, w in enumerate(want) if close(g, w, 1e-8)), None)
        if i is None:
            return False
        want.pop(i)
    return not want


def expected(diff, w, absolute=None):
    "diff = smaller - larger side after substitution: list of acceptable outcomes"
    inf = float("inf")
    t = diff.terms
    if any(c != c for c in t.values()):
        return None
    if any(c == inf for c in t.values()):
        return None if any(c == -inf for c in t.values()) else ["infeasible"]
    if any(c == -inf for c in t.values()):
        return [[]]
    pos, neg = {k: c for k, c in t.items() if c > 0}, {k: -c for k, c in t.items() if c < 0}
    if not pos:
        return [[]]
    if not neg:
        if set(pos) == {()} and absolute is not None and pos[()] <= TOL*absolute:
            return [[]] + (["infeasible"] if pos[()] > TOL*absolute*0.999 else [])
        return ["infeasible"]
    if len(neg) > 1:
        return ["invalid"]
    posy = R(pos).div(R(neg)).terms
    const = posy.pop((), 0)
    if not posy:
        return [[]] if const <= 1 + TOL else ["infeasible"]
    if const >= 1:
        return ["infeasible"]
    return [[w.own({k: c/(1-const) for k, c in posy.items()})]]


def subsof(ch, menu, names="abc"):
    s = {}
    for n in names:
        v = ch.pick(menu)
        if v is not None:
            s[n] = v
    return s


def check(w, con, subs, want, label):
    got = w.compiled(con, subs)
    if "infeasible" in want and not isinstance(got, str) and any(min(g.values()) > 1e11 for g in got):
        got = "infeasible"   # slack that is used up exactly may come out as a rounding error of 1
    ok = any(got == e if isinstance(e, str) or isinstance(got, str) else sameset(got, e) for e in want)
    require(ok, "compiled constraint", lambda: "%s with %s compiled to %s, expected %s" % (label, subs, got, want))
    outcome(got if isinstance(got, str) else "%s posynomials" % len(got))
    return got


def defined(refs, vals):
    "0 to a negative power only counts when the result is a definite infinity"
    for r in refs:
        for k in r.terms:
            zeros = [e for n, e in k if vals.get(n) == 0]
            if any(e < 0 for e in zeros) and any(e > 0 for e in zeros):
                return False
            if any(e < 0 for e in zeros) and any(vals.get(n, 1) < 0 for n, _ in k):
                return False
    return True


def run(ctx):
    nterms = 2 if ctx.quick else 3
    menu = (None, 2, 0, -1) if ctx.quick else (None, 1, 2, 0.5, 0, -1)
    ctx.bound(left_terms=nterms, values=str(menu), compilations_in_sequence=2)

    def posy(ch):
        n = ch.pick(range(1, nterms+1))
        w = World(ch.pick(("plain", "units") if n == 1 or not ctx.quick else ("units",)))
        idx = ch.pick(list(itertools.combinations(range(len(w.terms)-(2 if n > 2 else 0)), n)))
        li, left, rl = "+".join(w.terms[i][0] for i in idx), 0, None
        for i in idx:
            left = w.terms[i][1] + left
            rl = w.terms[i][2] if rl is None else rl.add(w.terms[i][2])
        ri, right, rr = ch.pick(w.terms)
        if not rl.vars() and not rr.vars():
            raise Skip
        flip = ch.flag()
        if w.scheme == "units" and (not rl.vars() and flip or not rr.vars() and not flip and False):
            raise Skip
        if hasattr(left, "magnitude") and not flip:
            raise Skip   # a quantity on the left of a comparison is pint's to dispatch
        if hasattr(right, "magnitude") and flip:
            raise Skip
        subs = subsof(ch, menu if n < 3 else menu[:4], sorted(rl.vars() | rr.vars()))
        vals = w.si(subs)
        if not defined([rl, rr], vals):
            outcome("undefined")
            return
        label = "%s <= %s" % (li, ri)
        base = "written"
        try:
            con = (right >= left) if flip else (left <= right)
        except PrimalInfeasible:
            base = "infeasible"
        want = expected(rl.add(rr, -1).sub(vals), w)
        if base == "infeasible":  # already without positive points when written
            d = expected(rl.add(rr, -1), w)
            require(d == ["infeasible"], "refused when written", label)
            outcome("refused when written")
            return
        if want is None:
            outcome("undefined")
            return
        cl, cr = rl.sub(vals).terms.values(), rr.sub(vals).terms.values()
        if any(c < 0 for c in cr):   # not a posynomial inequality any more: refused either way unless both sides are numbers
            want = want + ["invalid", "infeasible"]
        elif any(c < 0 for c in cl):
            want = want + ["invalid"]
        check(w, con, subs, want, label)
    ctx.explore("posynomial inequalities", posy)

    def band(ch):
        "always true or impossible after substitution, around the tolerance"
        w = World(ch.pick(("plain", "units")))
        a, b = w.v["a"], w.v["b"]
        va, vb = 2.0, (1.0 if w.scheme == "plain" else 0.3048)   # a and 2b denote the same length
        eps = ch.pick((-1e-1, -2e-3, -5e-4, 0.0, 5e-4, 9e-4, 1.1e-3, 2e-3, 1e-1))
        form = ch.pick(("a<=2b", "2b>=a", "a==2b", "a-2b<=0", "0>=a-2b", "a+b<=3b", "a^2<=2ab", "1>=a/2b"))
        extra = ch.flag()
        zero = Quantity(0.0, "m") if w.scheme == "units" else 0
        sig = "-" in form
        with SignomialsEnabled():
            con = {"a<=2b": lambda: a <= 2*b, "2b>=a": lambda: 2*b >= a, "a==2b": lambda: a == 2*b, "a-2b<=0": lambda: a - 2*b <= zero, "0>=a-2b": lambda: a - 2*b <= zero,
                   "a+b<=3b": lambda: a + b <= 3*b, "a^2<=2ab": lambda: a**2 <= 2*a*b, "1>=a/2b": lambda: 1 >= a/(2*b)}[form]()
        subs = {"a": va*(1+eps), "b": vb}
        if extra:
            subs["c"] = 1.0
        lim = eps*(2/3 if form == "a+b<=3b" else 1)
        bad = lim > TOL or (form == "a==2b" and abs(eps) > TOL)
        got = w.compiled(con, {k: v for k, v in subs.items() if k != "c" or not sig})
        require(got == ("infeasible" if bad else []) or form == "a+b<=3b" and not bad and eps > TOL and got == "infeasible", "tolerance", lambda: "%s with a off by %s: %s" % (form, eps, got))
        outcome("refused" if bad else "accepted")
    ctx.explore("around the tolerance", band)

    def sizes(ch):
        "numbers on both sides, of every size and sign, either side of the tolerance"
        w = World("plain")
        big = ch.pick((1.0, 1e-12, 1e9, -1.0, -1e-12, -1e9))
        eps = ch.pick((-1e-1, -2e-3, -5e-4, 5e-4, 2e-3, 1e-1))
        a, b = w.v["a"], w.v["b"]
        sig = ch.flag()
        with SignomialsEnabled():
            con = (a - 2*b <= -b) if sig else (a <= b)
        subs = {"a": big*(1+eps), "b": big}
        if ch.flag():
            con = Model(w.w, [con, w.v["c"] >= 1])[0]
        got = w.compiled(con, subs)
        bad = (eps if big > 0 else -eps) > TOL
        require(got == "invalid" and big < 0 or got == ("infeasible" if bad else []), "numbers of any size", lambda: "a <= b with %s: %s" % (subs, got))
        outcome("refused" if bad else "accepted")
    ctx.explore("numbers of any size", sizes)

    def equalsnumber(ch):
        w = World(ch.pick(("plain", "units")))
        ln, left, rl = ch.pick([t for t in w.terms if t[2].vars()])
        n = ch.pick((0, 0.0, np.float64(0), -1, -0.5, np.array(0.0)))
        if w.scheme == "units" and ch.flag():
            n = Quantity(float(n), "m")
        try:
            con = left == n
        except (InvalidPosynomial, PrimalInfeasible, InvalidGPConstraint):
            outcome("refused")
            return
        if not isinstance(con, gpkit.nomials.MonomialEquality):
            require(not np.any(con), "equality with a number that is not positive", lambda: "%s == %s is %r" % (ln, n, con))
            outcome("False")
            return
        got = w.compiled(con, {})
        require(got in ("infeasible", "invalid"), "equality with a number that is not positive", lambda: "%s == %s compiled to %s" % (ln, n, got))
    ctx.explore("equalities with numbers that are not positive", equalsnumber)

    def equality(ch):
        w = World(ch.pick(("plain", "units")))
        monos = [t for t in w.terms]
        ln, left, rl = ch.pick(monos)
        rn, right, rr = ch.pick(monos)
        if not rl.vars() or hasattr(left, "magnitude"):
            raise Skip
        subs = subsof(ch, (None, 1, 2, 0.5, 0, -1), sorted(rl.vars() | rr.vars()))
        vals = w.si(subs)
        label = "%s == %s" % (ln, rn)
        con = left == right
        ratio = rl.div(rr).terms
        (k, c), = ratio.items()
        if not isinstance(con, gpkit.nomials.MonomialEquality):
            require(con is False and not k and abs(float(c)-1) > TOL*0.99, "equality refused when written", lambda: "%s is %r" % (label, con))
            outcome("refused when written")
            return
        if rl.sub(vals).zero and rr.sub(vals).zero and defined([rl, rr], vals):
            want = [[]]
        elif not k and abs(float(c)-1) <= TOL:
            want = [[]]
        elif not k:
            fail("equality accepted when written", label)
        else:
            zero = [e for n, e in k if vals.get(n) == 0]
            if not defined([rl, rr], vals):
                outcome("undefined")
                return
            ratio = R(ratio).sub({n: v for n, v in vals.items() if v != 0 and n in dict(k)})
            (k2, c), = ratio.terms.items()
            rest = tuple((n, e) for n, e in k2 if vals.get(n) != 0)
            if zero:
                want = ["infeasible", "invalid"] if c < 0 else ["infeasible"]
            elif c < 0:
                want = ["infeasible", "invalid"]
            elif not rest:
                want = [[]] if abs(float(c)-1) <= TOL else ["infeasible"]
            else:
                p = R({rest: c})
                want = [[w.own(p.terms), w.own(p.power(-1).terms)]]
        check(w, con, subs, want, label)
    ctx.explore("equalities", equality)

    nsig = 3 if ctx.quick else 4

    def signed(ch):
        "signomial inequalities: sums of signed terms on either side"
        w = World(ch.pick(("plain", "units") if not ctx.quick else ("units",)))
        n = ch.pick(range(2, nsig+1))
        terms = ch.pick(list(itertools.combinations(range(len(w.terms) if n < 3 else 7 if n < 4 else 6), n)))
        sides = [ch.pick(((-1, 0), (1, 0), (1, 1), (-1, 1))) for _ in terms]   # sign, which side
        left = right = None
        d = None
        with SignomialsEnabled():
            zero = Quantity(0.0, "m") if w.scheme == "units" else 0
            sums, refs = [None, None], R({}, w.r["a"].dims)
            for i, (s, side) in zip(terms, sides):
                t, r = w.terms[i][1]*s, w.terms[i][2]
                sums[side] = t if sums[side] is None else t + sums[side]
                refs = refs.add(r, s if side == 0 else -s)
            left, right = (zero if x is None else x for x in sums)
            flip = ch.flag()
            if not hasattr(right if flip else left, "hmap"):   # a number or quantity on the left is not gpkit's to dispatch
                raise Skip
            if not refs.vars():
                raise Skip
            subs = subsof(ch, (None, 1, 2, 0) if n < 3 else (None, 1, 0) if n < 4 and not ctx.quick else (None, 1), sorted(refs.vars()))
            vals = w.si(subs)
            if not defined([refs], vals):
                outcome("undefined")
                return
            try:
                con = (right >= left) if flip else (left <= right)
            except (PrimalInfeasible, InvalidPosynomial):
                require(expected(refs, w)[0] == "infeasible" or expected(refs, w)[0] == [], "refused when written", lambda: "%s <= %s" % (left, right))
                outcome("refused when written")
                return
            if w.scheme == "units" and not all(refs.sub(vals).terms.get(tuple((n2, e) for n2, e in k if n2 not in vals)) for k in refs.terms if 0 not in [vals.get(n2) for n2, _ in k]):
                outcome("cancels up to rounding of unit conversions")
                return
            want = expected(refs.sub(vals), w, absolute=-float(sum(c for c in refs.sub(vals).terms.values() if c < 0)))
            if want is None:
                outcome("undefined")
                return
            if any(abs(c) == float("inf") for c in refs.sub(vals).terms.values()):   # a zero in a denominator
                want = want + ["invalid"]
        check(w, con, subs, want, "%s <= %s" % (left, right))
    ctx.explore("signomial inequalities", signed)

    def sigeq(ch):
        "posynomial equalities: nothing but an identity is a geometric program"
        w = World("plain")
        a, b = w.v["a"], w.v["b"]
        with SignomialsEnabled():
            left, right, want = ch.pick([(a + b, a + b, [[]]), (a + b, a*b + 1, ["invalid"]), (a + b + 1, a + b, ["infeasible"]), (a, b + 1, ["invalid"]), (a + b, 0*a, ["infeasible"]),
                                         (a - b, 0*a, ["invalid"]), (a + 2*b, a + b, ["infeasible"])])
            con = SignomialEquality(left, right)
        check(w, con, {}, want, "%s == %s" % (left, right))
    ctx.explore("signomial equalities", sigeq)

    def again(ch):
        "compile (and perhaps solve) under one substitution, then under another: same as compiling only the second"
        def cons(w):
            a, b, c = (w.v[n] for n in "abc")
            with SignomialsEnabled():
                return [a + 2*b <= c, c >= a*b + b + 0.5, a*b == c, (a + b - c <= 0.5), a <= c + b, b/a + c/a <= 1, a**2 + a + 0.3*a <= c][i]
        i = ch.pick(range(7))
        vals = (None, 1, 3, 0) if ctx.quick else (None, 1, 0.25, 3, 0)
        s1, s2 = subsof(ch, vals[:2] if ctx.quick else vals[:3]), subsof(ch, vals[:1] + vals[2:] if ctx.quick else vals)
        how = ch.pick(("compile", "solve", "other model", "in place"))
        w, f = World("plain"), World("plain")
        con = cons(w)
        m = Model(w.w, [con], {w.v[n].key: v for n, v in s1.items()})
        if how == "compile":
            try:
                m.gp(checkbounds=False)
            except (InvalidGPConstraint, PrimalInfeasible, InvalidPosynomial):
                pass
        else:
            read(m)
        if how == "in place":
            for n in "abc":
                k = w.v[n].key
                if n in s2:
                    m.substitutions[k] = s2[n]
                elif k in m.substitutions:
                    del m.substitutions[k]
            got = read(m)
        else:
            got = read(Model(w.w, [con] if how != "other model" else [con, w.w >= 1], {w.v[n].key: v for n, v in s2.items()}))
            if how == "other model" and not isinstance(got, str):
                require({(("w", -1.0),): 1.0} in got, "other constraint lost", lambda: str(got))
                got.remove({(("w", -1.0),): 1.0})
        want = read(Model(f.w, [cons(f)], {f.v[n].key: v for n, v in s2.items()}))
        if "nan" in str(want):
            outcome("undefined")
            return
        require(got == want if isinstance(got, str) or isinstance(want, str) else sameset(got, want), "recompilation",
                lambda: "%s after %s under %s then %s: %s, fresh: %s" % (con, how, s1, s2, got, want))
        outcome(want if isinstance(want, str) else "same")
    ctx.explore("recompilation", again)

    def numbers(ch):
        "a number of any python or numpy type on either side of an operator means the same constraint"
        w = World("plain")
        n, nomial, ref = ch.pick([t for t in w.terms if t[2].vars()] + [("a+b", w.v["a"] + w.v["b"], w.r["a"].add(w.r["b"]))])
        v = ch.pick((2.0, 1.0, 3.0))
        kind = ch.pick((float, int, np.float64, np.float32, np.int64, np.int32))
        op = ch.pick(("<=", ">=", "=="))
        left = ch.flag()
        num = kind(v)
        flipped = {"<=": ">=", ">=": "<=", "==": "=="}
        if n == "a+b" and (op == "==" or (op == ">=") != left):
            raise Skip   # not a geometric program
        l, r = (num, nomial) if left else (nomial, num)
        con = {"<=": lambda: l <= r, ">=": lambda: l >= r, "==": lambda: l == r}[op]()
        rop = flipped[op] if left else op
        k = R.num(F(v))
        smaller, larger = (k, ref) if rop == ">=" else (ref, k)
        p = R(smaller.div(larger).terms)
        want = [[w.own(p.terms)] + ([w.own(p.power(-1).terms)] if op == "==" else [])]
        check(w, con, {}, want, "%s %s %s (%s on the %s)" % (l, op, r, type(num).__name__, "left" if left else "right"))
    ctx.explore("numbers of every type", numbers)
