"""Reference convex programs: feasibility, optimality and sensitivities, independent of gpkit.

A Program is built from reference nomials (mc.ref.R): minimize cost subject to small <= large (or ==) with `large` a monomial once
the constants are substituted.  Everything is evaluated in logarithms of SI values.
"""
import math
import numpy as np
from scipy.optimize import nnls, linprog
from .ref import R, F


class NotGP(Exception):
    pass


class Con:
    "one posynomial p <= 1 (or == 1 when eq): log coefficients, exponent matrix; label identifies its owner"
    def __init__(self, b, A, eq, label, const):
        self.b, self.A, self.eq, self.label, self.const = b, A, eq, label, const

    def f(self, x):
        z = self.b + self.A.dot(x)
        m = z.max()
        return m + math.log(np.exp(z-m).sum())

    def w(self, x):
        z = self.b + self.A.dot(x)
        e = np.exp(z-z.max())
        return e/e.sum()

    def grad(self, x):
        return self.w(x).dot(self.A)


class Program:
    def __init__(self, cost, cons, vals=None):
        """cost: R; cons: [(small R, large R, eq, label)]; vals: {name: SI value} of the constants"""
        self.vals = vals = dict(vals or {})
        self.raw = []
        c0 = cost.sub(vals)
        if not c0.terms or any(c < 0 for c in c0.terms.values()):
            raise NotGP("cost")
        pieces = []
        self.trivially_infeasible = False
        for small, large, eq, label in cons:
            s, l = small.sub(vals), large.sub(vals)
            d = s.add(l, -1)
            neg = {k: -c for k, c in d.terms.items() if c < 0}
            pos = {k: c for k, c in d.terms.items() if c > 0}
            if eq:
                if not (s.mono and l.mono and all(s.signs+l.signs)):
                    raise NotGP("equality")
                p = s.div(l)
            elif not pos:
                continue
            elif not neg:
                self.trivially_infeasible = True
                continue
            elif len(neg) > 1:
                raise NotGP("inequality")
            else:
                p = R(pos, s.dims).div(R(neg, s.dims))
            const = float(p.terms.get((), 0))
            if set(p.terms) == {()}:
                if abs(const-1) > 1e-9 if eq else const > 1 + 1e-9:
                    self.trivially_infeasible = True
                continue
            if not eq and const >= 1:
                self.trivially_infeasible = True
                continue
            pieces.append((p, eq, label, const, s, l, small, large))
        names = c0.vars()
        for p in pieces:
            names |= p[0].vars()
        self.names = sorted(names)
        self.cost = self._con(c0, False, None, 0)
        self.cons = [self._con(*p[:4]) for p in pieces]
        self.cost_ref, self.pieces = cost, pieces

    def _con(self, p, eq, label, const):
        A = np.zeros((len(p.terms), len(self.names)))
        b = np.zeros(len(p.terms))
        for i, (k, c) in enumerate(p.terms.items()):
            b[i] = math.log(float(c))
            for n, e in k:
                A[i, self.names.index(n)] = float(e)
        return Con(b, A, eq, label, const)

    def point(self, vals):
        return np.array([math.log(vals[n]) for n in self.names])

    def violation(self, x):
        "largest violation (in log) of any constraint, and which"
        worst, who = 0.0, None
        for c in self.cons:
            f = c.f(x)
            v = abs(f) if c.eq else f
            if v > worst:
                worst, who = v, c.label
        return worst, who

    def multipliers(self, x):
        "(residual, [lambda per constraint]) of the best nonnegative complementary multipliers at x"
        cols, pen = [], []
        n = len(self.names)
        g0 = self.cost.grad(x)
        for c in self.cons:
            g, s = c.grad(x), max(0.0, -c.f(x))
            cols.append(g)
            pen.append(0.0 if c.eq else 10.0*s)
            if c.eq:
                cols.append(-g)
                pen.append(0.0)
        if not cols:
            return float(np.abs(g0).max()) if n else 0.0, []
        G = np.array(cols).T
        M = np.vstack([G, np.diag(pen)])
        lam, _ = nnls(M, np.concatenate([-g0, np.zeros(len(cols))]), maxiter=200*len(cols))
        res = float(np.abs(g0 + G.dot(lam)).max()) if n else 0.0
        if res > 1e-4:   # the same as a linear program: least residual plus complementarity gap
            k = len(cols)
            one = np.ones((n, 1))
            r = linprog(np.append(np.array(pen)/10.0, 1.0), A_ub=np.vstack([np.hstack([G, -one]), np.hstack([-G, -one])]), b_ub=np.concatenate([-g0, g0]), bounds=[(0, None)]*(k+1))
            if r.status == 0:
                gap = float(np.array(pen).dot(r.x[:k]))/10.0 + float(np.abs(g0 + G.dot(r.x[:k])).max())
                if gap < res:
                    lam, res = r.x[:k], gap
        out, i = [], 0
        for c in self.cons:
            out.append(lam[i] - lam[i+1] if c.eq else lam[i])
            i += 2 if c.eq else 1
        return res, out

    def regular(self, x, lams, tol=1e-3):
        "strict complementarity, unique multipliers (and so differentiable optimal cost) at x"
        act = []
        for c, l in zip(self.cons, lams):
            s = -c.f(x)
            if c.eq:
                act.append(c.grad(x))
            elif l > tol and s < 1e-4:
                act.append(c.grad(x))
            elif l < 1e-5 and s > 0.02:
                pass
            else:
                return False
        if not act:
            return True
        return np.linalg.svd(np.array(act), compute_uv=False).min() > 0.02 and len(act) <= len(self.names)

    def unique(self, x, lams):
        "the Lagrangian's Hessian is positive definite on the active constraints' null space"
        H = np.zeros((len(self.names),)*2)
        act = []
        for c, l in [(self.cost, 1.0)] + list(zip(self.cons, lams)):
            if c is not self.cost and (c.eq or l > 1e-3):
                act.append(c.grad(x))
            if l > 0:
                w, g = c.w(x), c.grad(x)
                H += l*((c.A.T*w).dot(c.A) - np.outer(g, g))
        # affine pieces (several terms of the cost are never affine): unique iff H + sum act act' is positive definite
        for a in act:
            H += np.outer(a, a)
        return len(H) == 0 or np.linalg.eigvalsh(H).min() > 1e-3

    def phase1(self):
        """min over x of the largest log-violation, by an independent convex solve; None when it could not be decided.

        Returns a number <= 0 if feasible."""
        if self.trivially_infeasible:
            return math.inf
        if not self.cons:
            return -math.inf
        n = len(self.names)
        if all(len(c.b) == 1 for c in self.cons):   # a linear program
            Aub, bub, Aeq, beq = [], [], [], []
            for c in self.cons:
                if c.eq:
                    Aeq.append(list(c.A[0])+[0.0])
                    beq.append(-c.b[0])
                else:
                    Aub.append(list(c.A[0])+[-1.0])
                    bub.append(-c.b[0])
            if not Aub:
                r = linprog([0.0]*(n+1), A_eq=Aeq, b_eq=beq, bounds=[(None, None)]*n+[(0, 0)])
                return -math.inf if r.status == 0 else math.inf
            r = linprog([0.0]*n+[1.0], A_ub=Aub, b_ub=bub, A_eq=Aeq or None, b_eq=beq or None, bounds=[(None, None)]*n+[(-5, None)])
            return float(r.fun) if r.status == 0 else math.inf
        # minimize t: log-sum-exp constraints, via a box-bounded Newton barrier on max violation
        return self._phase1_convex()

    def _phase1_convex(self):
        from scipy.optimize import minimize
        n = len(self.names)
        ineq = [c for c in self.cons if not c.eq]
        eqs = [c for c in self.cons if c.eq]
        if eqs:
            E = np.array([c.A[0] for c in eqs])
            h = -np.array([c.b[0] for c in eqs])
            x0, *_ = np.linalg.lstsq(E, h, rcond=None)
            if np.abs(E.dot(x0)-h).max() > 1e-9:
                return math.inf
            _, s, vt = np.linalg.svd(E)
            rank = int((s > 1e-9).sum())
            N = vt[rank:].T
        else:
            x0, N = np.zeros(n), np.eye(n)
        if not ineq:
            return -math.inf
        if N.shape[1] == 0:
            return max(c.f(x0) for c in ineq)
        # SLSQP on (y, t): min t s.t. f_i(x0+Ny) <= t, |y| <= 60, t >= -3
        best = None
        for start in (np.zeros(N.shape[1]), np.full(N.shape[1], 0.5), np.full(N.shape[1], -0.7)):
            t0 = max(c.f(x0 + N.dot(start)) for c in ineq)
            r = minimize(lambda v: v[-1], np.append(start, t0), jac=lambda v: np.append(np.zeros(N.shape[1]), 1.0), method="SLSQP",
                         bounds=[(-60, 60)]*N.shape[1]+[(-3, None)],
                         constraints=[dict(type="ineq", fun=lambda v, c=c: v[-1]-c.f(x0+N.dot(v[:-1])),
                                           jac=lambda v, c=c: np.append(-N.T.dot(c.grad(x0+N.dot(v[:-1]))), 1.0)) for c in ineq],
                         options=dict(maxiter=300, ftol=1e-12))
            t = max(c.f(x0 + N.dot(r.x[:-1])) for c in ineq)
            best = t if best is None else min(best, t)
            if best < -1e-4:
                break
        return best

    def recession(self):
        "'attained' | 'unbounded' | 'unattained': whether the cost can fall forever along a feasible direction"
        n = len(self.names)
        if not n:
            return "attained"
        Aub, Aeq = [], []
        for c in self.cons:
            (Aeq if c.eq else Aub).extend(c.A.tolist())
        kw = dict(A_eq=Aeq or None, b_eq=[0.0]*len(Aeq) if Aeq else None, bounds=[(-1, 1)]*n)
        Aall = Aub + self.cost.A.tolist()
        r = linprog(self.cost.A.sum(axis=0), A_ub=Aall, b_ub=[0.0]*len(Aall), **kw)
        if r.status != 0 or r.fun > -1e-7:
            # a direction along which nothing changes in the cost or rises in a constraint: optima reach to infinity
            kw["A_eq"] = (kw["A_eq"] or []) + self.cost.A.tolist()
            kw["b_eq"] = [0.0]*len(kw["A_eq"])
            for j in range(n):
                for s in (1.0, -1.0):
                    c = np.zeros(n)
                    c[j] = s
                    r = linprog(c, A_ub=Aub or None, b_ub=[0.0]*len(Aub) if Aub else None, **kw)
                    if r.status != 0 or r.fun < -1e-7:
                        return "unattained"
            return "attained"
        # is there a direction along which every term of the cost falls?
        rows = [a+[0.0] for a in Aub] + [a+[1.0] for a in self.cost.A.tolist()]
        kw["bounds"] = [(-1, 1)]*n + [(0, 1)]
        if kw["A_eq"]:
            kw["A_eq"] = [a+[0.0] for a in kw["A_eq"]]
        r = linprog([0.0]*n+[-1.0], A_ub=rows, b_ub=[0.0]*len(rows), **kw)
        return "unbounded" if r.status == 0 and r.fun < -1e-7 else "unattained"

    def status(self):
        "'optimal' | 'infeasible' | 'unbounded' | 'border'"
        p = self.phase1()
        if p is None:
            return "border"
        if p > 1e-3:
            return "infeasible"
        strict = p < -1e-3
        if not strict:
            return "border"
        return {"attained": "optimal", "unbounded": "unbounded", "unattained": "border"}[self.recession()]

    def sensitivity(self, name, x, lams):
        "d log cost / d log constant, by the envelope theorem; name must be one of the substituted constants"
        vals = dict(self.vals)
        vals.update({n: math.exp(v) for n, v in zip(self.names, x)})
        total = dlog(self.cost_ref, name, vals)
        for (p, eq, label, const, s, l, small, large), lam in zip(self.pieces, lams):
            # lam * log(pos/neg) with like terms moved across the inequality; pos == neg wherever lam > 0
            num = slope(small, name, vals) - slope(large, name, vals)
            neg = l if eq else R({k: -c for k, c in s.add(l, -1).terms.items() if c < 0})
            total += lam*num/neg.at(vals)
        return total

    def optimum(self, x):
        return math.exp(self.cost.f(x))


def of_call(c, A, k, meq_idxs, **_):
    "the Program a solver function was given"
    p = Program.__new__(Program)
    dense = np.zeros((len(c), max(A.shape[1], max(list(A.col)+[-1])+1)))
    for i, j, v in zip(A.row, A.col, A.data):
        dense[i, j] += v
    b = np.log(np.array(c, dtype=float))
    p.names, p.vals, p.trivially_infeasible, p.pieces, p.cons = list(range(dense.shape[1])), {}, False, [], []
    r = 0
    for i, n in enumerate(k):
        con = Con(b[r:r+n], dense[r:r+n], r in meq_idxs.all, i, 0)
        if i == 0:
            p.cost = con
        elif not con.eq or r in meq_idxs.first_half:
            p.cons.append(con)
        r += n
    return p


def slope(r, name, vals):
    "d r / d log(name)"
    out = 0.0
    for k, c in r.terms.items():
        d = dict(k)
        if name in d:
            out += float(d[name])*R({k: c}).at(vals)
    return out


def dlog(r, name, vals):
    return slope(r, name, vals)/r.at(vals)


def solver_fails(prog):
    "whether cvxopt itself, given the reference's own matrices, cannot solve the program"
    from cvxopt import matrix, solvers
    n = len(prog.names)
    lse = [prog.cost] + [c for c in prog.cons if not c.eq and len(c.b) > 1]
    lin = [c for c in prog.cons if not c.eq and len(c.b) == 1]
    eq = []
    for c in prog.cons:   # independent equalities only
        if c.eq and np.linalg.matrix_rank(np.vstack([e.A for e in eq] + [c.A])) > len(eq):
            eq.append(c)
    kw = {}
    if lin:
        kw["G"], kw["h"] = matrix(np.vstack([c.A for c in lin])), matrix(-np.concatenate([c.b for c in lin]))
    if eq:
        kw["A"], kw["b"] = matrix(np.vstack([c.A for c in eq])), matrix(-np.concatenate([c.b for c in eq]))
    old = dict(solvers.options)
    solvers.options["show_progress"] = False
    try:
        out = solvers.gp([len(c.b) for c in lse], matrix(np.vstack([c.A for c in lse])), matrix(np.concatenate([c.b for c in lse])), kktsolver="ldl", **kw)
        return out["status"] != "optimal"
    except Exception:  # pylint: disable=broad-except
        return True
    finally:
        solvers.options.clear()
        solvers.options.update(old)
