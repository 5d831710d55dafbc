"""Solver back ends: stand-ins for cvxopt, mskexpopt and mosek record what they are given and answer as told; programs and answers are matched by content."""
import itertools
import math
import os
import shutil
import sys
import tempfile
import types
import numpy as np
import cvxopt.solvers
from gpkit import Variable, VectorVariable, Model, SignomialsEnabled
from gpkit.exceptions import Infeasible, UnknownInfeasible, PrimalInfeasible, DualInfeasible, InvalidLicense
from gpkit.globals import load_settings
from ..core import require, fail, outcome, Skip, transition

TECHNIQUE = "exhaustive exploration of programs x solver answers and faults on the real back ends, whose solvers (cvxopt's gp, the mskexpopt executable, the mosek module) are stand-ins that record the program given and return the next answer of the enumeration; programs are decoded and compared with independently written ones, and answers must come back under the variable, constraint or constant they belong to"
NOTE = "All ordered constraint sequences up to the stated length over seven templates, three objectives, three back ends; all documented statuses, exit codes, every truncation and corruption of the answer file line by line; settings files. The mosek products themselves are not available here: the stand-ins follow their documented interface as the back ends use it."


# ---- programs, and what each is
class World:
    "constraints, in order, each with a constant of its own, and the posynomials they are"
    def __init__(self, cost, templates, consts=None):
        self.x, self.y, self.z = x, y, z = Variable("x"), Variable("y"), Variable("z")
        self.v = v = VectorVariable(2, "v")
        self.subs, self.rows, self.cons = {}, [], []    # rows: (terms {exps: (coeff, constant)}, equality, constraint)
        self.tied = []
        k = self.const(0, 1.5)
        X, Y, Z = ("x", 1.0), ("y", 1.0), ("z", 1.0)
        if cost == "monomial":
            self.cost, self.obj = k*x*y**2, {frozenset([X, ("y", 2.0)]): (1.5, 0)}
        elif cost == "posynomial":
            self.cost, self.obj = x*y + k*z + 0.25/y, {frozenset([X, Y]): (1.0, None), frozenset([Z]): (1.5, 0), frozenset([("y", -1.0)]): (0.25, None)}
        else:
            self.cost, self.obj = k + x + 2*z/y, {frozenset(): (1.5, 0), frozenset([X]): (1.0, None), frozenset([Z, ("y", -1.0)]): (2.0, None)}
        for i, t in enumerate(templates, 1):
            val = 2.0 + i/3
            k = self.const(i, val)
            if t == "monomial":
                self.add(x >= k*y**(2/3), {frozenset([("y", 2/3), ("x", -1.0)]): (val, i)})
            elif t == "bound":
                self.add(z >= k, {frozenset([("z", -1.0)]): (val, i)})
            elif t == "posynomial":
                self.add(x*y >= k*z + z**(-i), {frozenset([Z, ("x", -1.0), ("y", -1.0)]): (val, i), frozenset([("z", -float(i)), ("x", -1.0), ("y", -1.0)]): (1.0, None)})
            elif t == "three":
                self.add(x + y + k*z <= 100*x*z, {frozenset([("z", -1.0)]): (0.01, None), frozenset([("y", 1.0), ("x", -1.0), ("z", -1.0)]): (0.01, None), frozenset([("x", -1.0)]): (val/100, i)})
            elif t == "equality":
                self.add(z*x**i == k*y, {frozenset([Z, ("x", float(i)), ("y", -1.0)]): (1/val, i)}, True)
            elif t == "redundant":
                self.add(z*x**5 == k*y, {frozenset([Z, ("x", 5.0), ("y", -1.0)]): (1/val, i)}, True)
                self.add((z*x**5)**2 == (k*y)**2, {frozenset([("z", 2.0), ("x", 10.0), ("y", -2.0)]): (1/val**2, i)}, True)
            elif t == "vector":
                con = v >= k*x
                for j in (0, 1):
                    self.rows.append(({frozenset([X, ("v%i" % j, -1.0)]): (val, i)}, False, None))
                self.cons.append(con)
        self.model = Model(self.cost, self.cons, self.subs)

    def const(self, i, val):
        k = Variable("k%i" % i)
        self.subs[k] = val
        setattr(self, "k%i" % i, k)
        return k

    def add(self, con, terms, eq=False):
        self.cons.append(con)
        self.rows.append((terms, eq, con))

    def names(self):
        used = set()
        for terms in [self.obj] + [r[0] for r in self.rows]:
            for exps in terms:
                used |= {n for n, _ in exps}
        return used

    def value(self, sol, name):
        fv = sol["freevariables"]
        return float(fv[self.v[int(name[1])]]) if name[0] == "v" else float(fv[getattr(self, name)])


def near(a, b, tol=1e-9):
    return abs(a-b) <= tol*max(1.0, abs(a), abs(b))


def same(terms, want):
    return set(terms) == set(want) and all(near(terms[e], want[e][0], 1e-14) for e in want)


def inverse(terms):
    (exps, (c, i)), = terms.items()
    return {frozenset((n, -e) for n, e in exps): (1/c, i)}


class Received:
    "what a solver was given: posynomials over columns, each with the duals it will report"
    def __init__(self, ncols):
        self.ncols = ncols
        self.rows = []      # (terms {frozenset((col, exp)): coeff}, "<=" or "==", dual)
        self.obj = {}
        self.nu = None      # per-term duals, if the solver reports those: {id(terms): {exps: nu}}

    def named(self, names):
        conv = lambda terms: {frozenset((names[c], float(e)) for c, e in exps): v for exps, v in terms.items()}
        return conv(self.obj), [(conv(t), s, d) for t, s, d in self.rows]


def judge(w, sol, got, cost, where, x):
    "the program received is the model's; every number answered is reported under its owner"
    names = {}
    for n in w.names():
        js = [j for j in range(got.ncols) if near(math.exp(x[j]), w.value(sol, n))]
        require(len(js) == 1, "values come back under their variables", lambda: "%s: %s is %s, solver said %s" % (where(), n, w.value(sol, n), np.exp(x)))
        require(js[0] not in names, "values come back under their variables", lambda: "%s: two variables have column %s" % (where(), js[0]))
        names[js[0]] = n
    require(len(names) == got.ncols, "the solver is given the model's variables", lambda: "%s: %s columns for %s" % (where(), got.ncols, names))
    obj, rows = got.named(names)
    require(same(obj, w.obj), "the solver is given the model's objective", lambda: "%s: %s instead of %s" % (where(), obj, w.obj))
    require(near(float(sol["cost"]), cost, 1e-12), "the cost reported is the solver's", lambda: "%s: %s instead of %s" % (where(), sol["cost"], cost))
    vals = {n: w.value(sol, n) for n in names.values()}
    def at(exps, c):
        return c*math.prod(vals[n]**e for n, e in exps)
    expected = {i: 0.0 for i in range(len(w.subs))}
    total = sum(at(e, c) for e, (c, _) in w.obj.items())
    for e, (c, i) in w.obj.items():
        if i is not None:
            expected[i] += got.obj_nu[e] if isinstance(getattr(got, "obj_nu", None), dict) else at(e, c)/total
    left = list(rows)
    csens = {}
    for terms, eq, con in w.rows:
        if eq:
            for t, sign in ((terms, 1), (inverse(terms), -1)):
                hit = [r for r in left if r[1] == "==" and same(r[0], t)]
                if hit:
                    left.remove(hit[0])
                    break
            else:
                for t, sign in ((terms, 1), (inverse(terms), -1)):
                    hit = [r for r in left if r[1] == "<=" and same(r[0], t)]
                    require(hit, "the solver is given the model's constraints", lambda: "%s: equality %s is missing from %s" % (where(), t, rows))
                    left.remove(hit[0])
                    contribute(t, hit[0][2], 1, expected, at)
                continue
            contribute(t, hit[0][2], 1, expected, at)
        else:
            hit = [r for r in left if r[1] == "<=" and same(r[0], terms)]
            require(hit, "the solver is given the model's constraints", lambda: "%s: %s is missing from %s" % (where(), terms, rows))
            left.remove(hit[0])
            total_dual = contribute(terms, hit[0][2], 1, expected, at)
            if con is not None:
                csens[con] = total_dual
    require(not left, "the solver is given the model's constraints", lambda: "%s: also given %s" % (where(), left))
    for con, want in csens.items():
        have = sol["sensitivities"]["constraints"].get(con)
        require(have is not None and near(float(have), want, 1e-7), "duals come back under their constraints", lambda: "%s: %s has %s instead of %s" % (where(), con, have, want))
    sens = sol["sensitivities"]["variables"]
    for i, want in expected.items():
        have = float(sens[getattr(w, "k%i" % i)])
        require(near(have, want, 1e-6), "duals come back under their constraints", lambda: "%s: sensitivity to k%i is %s instead of %s" % (where(), i, have, want))


def contribute(terms, dual, sign, expected, at):
    "sensitivities of the constants in terms to the dual of its constraint; coefficients are k or 1/k (or k**-2)"
    if isinstance(dual, dict):
        shares = dual
    else:
        total = sum(at(e, c) for e, (c, _) in terms.items())
        shares = {e: dual*at(e, c)/total for e, (c, _) in terms.items()}
    for e, (c, i) in terms.items():
        if i is not None:
            expected[i] += sign*shares[e]*power(c, i)
    return sum(shares.values())


def power(c, i):
    "the exponent of constant i in coefficient c"
    val = 2.0 + i/3
    for p in (1.0, -1.0, -2.0, 2.0):
        if near(c, val**p):
            return p
    return 1.0      # scaled by a number


# ---- cvxopt
class Cvxopt:
    name, handler, calls = "cvxopt", None, None
    real = staticmethod(cvxopt.solvers.gp)


def standin_gp(K, F, g, G=None, h=None, A=None, b=None, **kw):
    if Cvxopt.handler is None:
        return Cvxopt.real(K, F, g, G, h, A, b, **kw)
    return Cvxopt.handler(K, F, g, G, h, A, b, kw)


cvxopt.solvers.gp = standin_gp      # before gpkit's back end is imported


def dense(M, n):
    return np.zeros((0, n)) if M is None else np.array(cvxopt.matrix(M)).reshape(M.size)


def line(A, b, r):
    "a linear row a.x <= b as a monomial <= 1"
    return {frozenset((j, float(a)) for j, a in enumerate(A[r]) if a): math.exp(-float(b[r]))}


def run_cvxopt(w, where, signs, opts):
    got, calls, x = [], [], []

    def handler(K, F, g, G, h, A, b, kw):
        n = F.size[1]
        calls.append(kw)
        Fd, Gd, Ad = dense(F, n), dense(G, n), dense(A, n)
        if Ad.shape[0] and np.linalg.matrix_rank(Ad) < Ad.shape[0]:
            raise ValueError("Rank(A) < p or Rank([H(x); A; Df(x); G]) < n")
        rec = Received(n)
        for M, what in ((Gd, "G"), (Ad, "A")):
            require(M.shape[1] == n, "the solver is given matrices that fit", lambda: "%s: %s is %s" % (where(), what, M.shape))
        require(sum(K) == Fd.shape[0] == g.size[0] and Gd.shape[0] == (h.size[0] if h is not None else 0) and Ad.shape[0] == (b.size[0] if b is not None else 0),
                "the solver is given matrices that fit", lambda: "%s: K %s F %s G %s A %s" % (where(), K, Fd.shape, Gd.shape, Ad.shape))
        ans = dict(status="optimal", **{"primal objective": 0.321})
        r, znl = 0, []
        for p, m in enumerate(K):
            terms = {}
            for i in range(r, r+m):
                e = frozenset((j, float(a)) for j, a in enumerate(Fd[i]) if a)
                terms[e] = terms.get(e, 0) + math.exp(float(g[i]))
            r += m
            if p == 0:
                rec.obj = terms
            else:
                znl.append(0.1 + 0.07*p)
                rec.rows.append((terms, "<=", znl[-1]))
        zl = [0.013 + 0.11*i for i in range(Gd.shape[0])]
        for i, d in enumerate(zl):
            rec.rows.append((line(Gd, h, i), "<=", d))
        y = [s*(0.2 + 0.05*i) for i, s in zip(range(Ad.shape[0]), itertools.cycle(signs))]
        for i, d in enumerate(y):
            rec.rows.append((line(Ad, b, i), "==", d))
        x[:] = [0.3 + 0.21*j for j in range(n)]
        got.append(rec)
        return dict(ans, x=cvxopt.matrix(x), znl=cvxopt.matrix(znl, (len(znl), 1), "d"), zl=cvxopt.matrix(zl, (len(zl), 1), "d"),
                    y=cvxopt.matrix(y, (len(y), 1), "d"), snl=cvxopt.matrix(znl, (len(znl), 1), "d"), sl=cvxopt.matrix(zl, (len(zl), 1), "d"), gap=0.0)
    sol = with_handler(handler, lambda: solve(w, "cvxopt", **opts))
    require(len(got) == 1, "the solver is asked once", lambda: "%s: %s answers used" % (where(), len(got)))
    for kw in calls:
        want = dict({"kktsolver": "ldl"}, **opts)
        require({k: kw.get(k) for k in want} == want, "options reach the solver", lambda: "%s: %s instead of %s" % (where(), kw, want))
    judge(w, sol, got[0], math.exp(0.321), where, x)
    outcome("cvxopt" if len(calls) == 1 else "cvxopt, equalities as inequalities")


def with_handler(handler, f):
    Cvxopt.handler = handler
    try:
        return f()
    finally:
        Cvxopt.handler = None


def solve(w, solver, **opts):
    out = sys.stdout
    try:
        return w.model.gp(checkbounds=False).solve(solver=solver, verbosity=0, **opts)
    finally:
        now, sys.stdout = sys.stdout, out
        require(now is out, "standard output is put back", "after solving by %s" % solver)


# ---- mskexpopt
SCRIPT = """#!/bin/sh
# $1 problem file, $2 -sol, $3 solution file
cp "$1" "$STANDIN_DIR/given"
echo "$@" > "$STANDIN_DIR/args"
echo "some log"
[ -f "$STANDIN_DIR/answer" ] && cp "$STANDIN_DIR/answer" "$3"
read code < "$STANDIN_DIR/code"
exit $code
"""


class Cli:
    "a scratch directory with the stand-in executable; one per process"
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="c28-")
        self.bin, self.tmp = os.path.join(self.dir, "bin"), os.path.join(self.dir, "tmp dir")
        for d in (self.bin, self.tmp):
            os.mkdir(d)
        exe = os.path.join(self.bin, "mskexpopt")
        with open(exe, "w") as f:
            f.write(SCRIPT)
        os.chmod(exe, 0o755)

    def __enter__(self):
        self.saved = dict(os.environ), tempfile.tempdir
        os.environ["PATH"] = self.bin + ":" + os.environ["PATH"]
        os.environ["STANDIN_DIR"] = self.dir
        tempfile.tempdir = self.tmp
        return self

    def __exit__(self, *_):
        env, tempfile.tempdir = self.saved
        os.environ.clear()
        os.environ.update(env)
        shutil.rmtree(self.dir)

    def prepare(self, answer, code):
        path = os.path.join(self.dir, "answer")
        if answer is None:
            if os.path.exists(path):
                os.remove(path)
        else:
            with open(path, "w") as f:
                f.write(answer)
        with open(os.path.join(self.dir, "code"), "w") as f:
            f.write("%d\n" % code)

    def given(self):
        with open(os.path.join(self.dir, "given")) as f:
            text = f.read()
        numbers, block = [], None
        sections = {"": [], "c": [], "p_idxs": [], "t": []}
        block = ""
        for ln in text.split("\n"):
            ln = ln.split("#")[0].strip()
            if ln.startswith("*"):
                block = ln[1:].split()[0]
            elif ln:
                sections[block].append(ln)
        return [int(s) for s in sections[""]], [float(s) for s in sections["c"]], [int(s) for s in sections["p_idxs"]], [tuple(map(float, s.split())) for s in sections["t"]]


def answer_text(x, nu, status="PRIMAL_AND_DUAL_FEASIBLE", solsta="OPTIMAL"):
    return ("PROBLEM STATUS      : %s\nSOLUTION STATUS     : %s\nOBJECTIVE           : %.15e\n\nPRIMAL VARIABLES\nINDEX   ACTIVITY\n%s\nDUAL VARIABLES\nINDEX   ACTIVITY\n%s"
            % (status, solsta, 1.379, "".join("%-8d%.15e   \n" % (i+1, v) for i, v in enumerate(x)), "".join("%-8d%.15e   \n" % (i+1, v) for i, v in enumerate(nu))))


def decode_cli(cli, where):
    (numcon, numvar, numter), c, p_idxs, taj = cli.given()
    require(len(c) == len(p_idxs) == numter and max(p_idxs) == numcon and p_idxs == sorted(p_idxs) and set(p_idxs) == set(range(numcon+1)),
            "the solver is given a file of its format", lambda: "%s: %s" % (where(), (numcon, numvar, numter, c, p_idxs)))
    exps = [dict() for _ in c]
    for t, j, a in taj:
        require(t == int(t) and j == int(j) and 0 <= t < numter and 0 <= j < numvar, "the solver is given a file of its format", lambda: "%s: entry %s" % (where(), (t, j, a)))
        require(int(j) not in exps[int(t)] or not a, "the solver is given a file of its format", lambda: "%s: entry %s twice" % (where(), (t, j)))
        if a:
            exps[int(t)][int(j)] = a
    return numvar, numcon, c, p_idxs, exps


def sizes(w):
    "columns and terms the model has (its equalities as pairs of inequalities)"
    return len(w.names()), len(w.obj) + sum(len(t)*(2 if eq else 1) for t, eq, _ in w.rows)


def run_cli(w, where, cli, path):
    n, terms = sizes(w)
    x = [0.3 + 0.21*j for j in range(n)]
    nu = [0.05 + 0.013*t for t in range(terms)]
    cli.prepare(answer_text(x, nu), 0)
    opts = {"path": path} if path else {}
    sol = solve(w, "mosek_cli", **opts)
    numvar, numcon, c, p_idxs, exps = decode_cli(cli, where)
    rec = Received(numvar)
    require(numvar == n, "the solver is given the model's variables", lambda: "%s: %s columns" % (where(), numvar))
    cols = {}
    for nm in w.names():
        js = [j for j in range(n) if near(math.exp(x[j]), w.value(sol, nm))]
        if len(js) == 1:
            cols[js[0]] = nm
    for p in range(numcon+1):
        ts, duals = {}, {}
        for t in range(len(c)):
            if p_idxs[t] == p:
                e = frozenset(exps[t].items())
                ts[e] = c[t]
                duals[frozenset((cols.get(j), float(a)) for j, a in exps[t].items())] = nu[t]
        if p == 0:
            rec.obj, rec.obj_nu = ts, duals
        else:
            rec.rows.append((ts, "<=", duals))
    judge(w, sol, rec, 1.379, where, x)
    left = os.listdir(cli.tmp)
    require(not left, "temporary files are removed", lambda: "%s: %s left" % (where(), left))
    outcome("mosek_cli")


# ---- mosek
class FakeMosek:
    "records a conic problem; answers with a number for every variable and constraint"
    def __init__(self):
        m = self.module = types.ModuleType("mosek")
        enum = lambda *names: types.SimpleNamespace(**{n: n for n in names})
        m.boundkey = enum("fr", "fx", "up", "lo", "ra")
        m.conetype = enum("pexp", "quad", "dexp")
        m.objsense = enum("minimize", "maximize")
        m.streamtype = enum("log", "msg", "err", "wrn")
        m.iparam = enum("infeas_report_auto", "log_presolve")
        m.onoffkey = types.SimpleNamespace(on=1, off=0)
        m.soltype = enum("itr", "bas", "itg")
        m.solsta = enum("optimal", "prim_infeas_cer", "dual_infeas_cer", "unknown", "prim_feas", "dual_feas", "prim_and_dual_feas", "prim_illposed_cer", "dual_illposed_cer")
        m.rescode = enum("err_missing_license_file", "err_license_version", "err_license_expired", "err_space", "trm_max_iterations")

        class Error(Exception):
            def __init__(self, errno, msg=""):
                super().__init__(errno, msg)
                self.errno, self.msg = errno, msg
        m.Error = Error
        fake = self

        class Env:
            def Task(self, ncon=0, nvar=0):  # pylint: disable=unused-argument
                fake.task = Task()
                return fake.task

            def set_Stream(self, *_):
                pass

            def __enter__(self):
                return self

            def __exit__(self, *_):
                pass

        class Task:
            def __init__(self):
                self.nvar = self.ncon = 0
                self.vb, self.cb, self.a, self.c, self.cones, self.sense = {}, {}, {}, {}, [], "minimize"
                self.solved = False

            def __enter__(self):
                return self

            def __exit__(self, *_):
                pass

            def appendvars(self, n):
                for i in range(n):
                    self.vb[self.nvar+i] = ("fx", 0.0, 0.0)
                self.nvar += int(n)

            def appendcons(self, n):
                for i in range(n):
                    self.cb[self.ncon+i] = ("fr", 0.0, 0.0)
                self.ncon += int(n)

            def bounds(self, store, limit, sub, keys, lo, up):
                sub, keys, lo, up = (list(np.ravel(s)) for s in (sub, keys, lo, up))
                require(len(sub) == len(keys) == len(lo) == len(up), "the solver is given bounds that fit", lambda: "%s" % ((sub, keys, lo, up),))
                for i, k, l, u in zip(sub, keys, lo, up):
                    require(0 <= i < limit, "the solver is given bounds that fit", lambda: "index %s of %s" % (i, limit))
                    store[int(i)] = (str(k), float(l), float(u))

            def putvarboundlist(self, sub, keys, lo, up):
                self.bounds(self.vb, self.nvar, sub, keys, lo, up)

            def putconboundlist(self, sub, keys, lo, up):
                self.bounds(self.cb, self.ncon, sub, keys, lo, up)

            def putaijlist(self, i, j, v):
                i, j, v = (list(np.ravel(s)) for s in (i, j, v))
                require(len(i) == len(j) == len(v), "the solver is given matrices that fit", lambda: "%s" % ((i, j, v),))
                for r, c, a in zip(i, j, v):
                    require(0 <= r < self.ncon and 0 <= c < self.nvar, "the solver is given matrices that fit", lambda: "%s" % ((r, c, a),))
                    self.a[int(r), int(c)] = float(a)

            def appendconesseq(self, types_, _par, nums, j):
                for t, n in zip(types_, nums):
                    self.cones.append((str(t), tuple(range(j, j+n))))
                    j += n

            def putclist(self, sub, val):
                for i, v in zip(sub, val):
                    self.c[int(i)] = float(v)

            def putobjsense(self, s):
                self.sense = str(s)

            def optimize(self, *_):
                fake.checked()
                self.solved = True
                if fake.raises is not None:
                    raise Error(fake.raises)
                return "ok"

            def getsolsta(self, _):
                return fake.status

            def slice(self, lo, hi, out, f):
                require(len(out) == hi-lo, "answers are read in full", lambda: "%s for %s" % (len(out), (lo, hi)))
                for i in range(lo, hi):
                    out[i-lo] = f(i)

            def getxxslice(self, _, lo, hi, out):
                self.slice(lo, hi, out, fake.xx)

            def getsuxslice(self, _, lo, hi, out):
                self.slice(lo, hi, out, fake.sux)

            def getsucslice(self, _, lo, hi, out):
                self.slice(lo, hi, out, fake.suc)

            def getprimalobj(self, _):
                return 0.321

            def __getattr__(self, attr):
                if attr in ("set_Stream", "putintparam", "solutionsummary", "putdouparam"):
                    return lambda *_: None
                raise AttributeError(attr)
        m.Env, m.Task = Env, Task
        self.status, self.raises, self.task, self.negative = "optimal", None, None, 0.0

    def checked(self):
        pass

    def xx(self, i):
        return 0.3 + 0.21*i

    def sux(self, i):
        return 0.02 + 0.003*i

    def suc(self, i):
        return 0.11 + 0.007*i


def decode_conic(task, fake):
    "the program a conic problem is: log-sum-exp groups by epigraph variable, and linear rows"
    rows = {}
    for (r, c), a in task.a.items():
        if a:
            rows.setdefault(r, {})[c] = a
    conevars = {}
    for t, (a, b, c) in task.cones:
        require(t == "pexp" and task.vb[b] == ("fx", 1.0, 1.0) and task.vb[a][0] == task.vb[c][0] == "fr", "cones are exponential cones", lambda: "%s" % ((t, task.vb[a], task.vb[b], task.vb[c]),))
        conevars[a], conevars[c] = ("top", c), ("exp", c)
    require(task.sense == "minimize" and len(task.c) == 1 and set(task.c.values()) == {1.0}, "the solver is given the model's objective", lambda: "%s %s" % (task.sense, task.c))
    (zobj,) = task.c
    epis = {i for i, b in task.vb.items() if b == ("up", b[1], 0.0)} | {zobj}
    require(task.vb[zobj][0] == "fr", "the solver is given the model's objective", lambda: "bounds of the objective %s" % (task.vb[zobj],))
    xs = [i for i in range(task.nvar) if i not in epis and not any(i in cone for _, cone in task.cones)]
    require(all(task.vb[i][0] == "fr" for i in xs), "variables are free", lambda: "%s" % [task.vb[i] for i in xs])
    term, group, linear = {}, [], []
    for r in range(task.ncon):
        row, (key, lo, up) = rows.get(r, {}), task.cb[r]
        ex = [c for c in row if conevars.get(c, ("",))[0] == "exp"]
        tops = [c for c in row if conevars.get(c, ("",))[0] == "top"]
        zs = [c for c in row if c in epis]
        if ex:      # a.x - t - z = -log c   scaled
            require(key == "fx" and lo == up and len(ex) == 1 and len(zs) == 1 and not tops and near(row[ex[0]], row[zs[0]]), "rows of terms", lambda: "%s %s" % (row, task.cb[r]))
            s = -row[ex[0]]
            require(ex[0] not in term, "rows of terms", lambda: "%s twice" % ex[0])
            term[ex[0]] = (frozenset((c, a/s) for c, a in row.items() if c in xs), math.exp(-lo/s), zs[0])
        elif tops:  # sum of exponentials <= 1
            require(key == "up" and up == 1.0 and all(row[c] == 1.0 for c in tops) and set(tops) == set(row), "rows of sums", lambda: "%s %s" % (row, task.cb[r]))
            group.append([conevars[c][1] for c in tops])
        else:
            require(key == "up" and set(row) <= set(xs), "linear rows", lambda: "%s %s" % (row, task.cb[r]))
            linear.append((row, up, r))
    rec = Received(len(xs))
    col = {c: j for j, c in enumerate(xs)}
    seen = set()
    for g in group:
        zs = {term[c][2] for c in g}
        require(len(zs) == 1 and not zs & seen, "one epigraph variable for each posynomial", lambda: "%s" % zs)
        seen |= zs
        z, = zs
        ts = {}
        for c in g:
            e = frozenset((col[i], a) for i, a in term[c][0])
            ts[e] = ts.get(e, 0) + term[c][1]
        if z == zobj:
            rec.obj = ts
        else:
            rec.rows.append((ts, "<=", max(0.0, fake.sux(z))))
    require(sum(len(g) for g in group) == len(term) == len(task.cones), "every term belongs to one posynomial", lambda: "%s %s" % (group, term))
    for row, up, r in linear:
        rec.rows.append(({frozenset((col[c], a) for c, a in row.items()): math.exp(-up)}, "<=", max(0.0, fake.suc(r))))
    return rec, [fake.xx(i) for i in xs]


FAKE = FakeMosek()


def run_conif(w, where, negative):
    fake = FAKE
    fake.status, fake.raises = "optimal", None
    fake.sux = (lambda i: 0.02 + 0.003*i) if not negative else (lambda i: -1e-9 if i % 2 else 0.02 + 0.003*i)
    fake.suc = (lambda i: 0.11 + 0.007*i) if not negative else (lambda i: -1e-9 if i % 3 else 0.11 + 0.007*i)
    sol = conif(lambda: solve(w, "mosek_conif"))
    rec, x = decode_conic(fake.task, fake)
    judge(w, sol, rec, math.exp(0.321), where, x)
    outcome("mosek_conif")


def conif(f):
    sys.modules["mosek"] = FAKE.module
    try:
        return f()
    finally:
        del sys.modules["mosek"]


# ---- faults
GP_FAULTS = [("status", s) for s in ("unknown", "primal infeasible", "dual infeasible", "")] + [("raise", e) for e in (ValueError, ArithmeticError, ZeroDivisionError, TypeError, MemoryError, RuntimeError, KeyboardInterrupt)]


def expect(w, solver, want, where, **opts):
    try:
        solve(w, solver, **opts)
    except BaseException as e:  # pylint: disable=broad-except
        require(type(e) is want, "statuses are reported as documented", lambda: "%s: %s(%s) instead of %s" % (where(), type(e).__name__, e, want.__name__))
        outcome(want.__name__)
        return
    fail("statuses are reported as documented", "%s: returned a solution instead of %s" % (where(), want.__name__))


def lines_of(text):
    return text.split("\n")


def run(ctx):
    TEMPLATES = ("monomial", "bound", "posynomial", "three", "equality", "redundant", "vector")
    length = 3 if ctx.quick else 4
    ctx.bound(constraints=length, templates=len(TEMPLATES), objectives=3, back_ends="cvxopt, mosek_cli, mosek_conif, functions", answer_lines="every line dropped, emptied, truncated and corrupted")
    seqs = [s for n in range(length+1) for s in itertools.product(TEMPLATES, repeat=n)]
    ctx.assumptions.append("the stand-ins' interface is cvxopt.solvers.gp's documented one, and mskexpopt's and mosek's as the back ends describe it")

    def fresh(ch, seqs_, costs=("monomial", "posynomial", "constant")):
        s = ch.pick(seqs_)
        cost = ch.pick(costs)
        w = World(cost, s)
        return w, lambda: "min %s, %s" % (cost, list(s))

    def in_process(ch):
        w, where = fresh(ch, seqs)
        signs = ch.pick([(1,), (-1, 1), (0, -1)]) if any(r[1] for r in w.rows) else (1,)
        run_cvxopt(w, where, signs, {})

    def conic(ch):
        w, where = fresh(ch, seqs)
        run_conif(w, where, ch.flag())

    def cli_programs(ch):
        w, where = fresh(ch, seqs, ("monomial", "posynomial", "constant") if not ctx.quick else ("posynomial",))
        with Cli() as cli:
            run_cli(w, where, cli, None)

    def options(ch):
        w, where = fresh(ch, [("posynomial", "equality", "redundant", "bound")])
        back = ch.pick(("cvxopt", "cli path", "cli fresh path", "cli twice"))
        if back == "cvxopt":
            run_cvxopt(w, where, (1,), ch.pick([{}, {"kktsolver": "chol"}, {"options": {"maxiters": 7}}, {"kktsolver": "qr", "options": {}}]))
            return
        with Cli() as cli:
            path = os.path.join(cli.dir, "kept")
            os.mkdir(path)
            own = os.path.join(path, "mine")
            with open(own, "w") as f:
                f.write("x")
            for _ in range(2 if "twice" in back else 1):
                run_cli(w, where, cli, None if "twice" in back else path)
            require(os.path.exists(own), "files that are not temporary are kept", where)

    def functions(ch):
        w, where = fresh(ch, [s for s in seqs if len(s) < 3])
        got = {}

        def mine(*, c, A, k, p_idxs, meq_idxs, **kw):
            rec = Received(A.shape[1])
            exps = [dict() for _ in c]
            for r, j, a in zip(A.row, A.col, A.data):
                if a:
                    exps[r][j] = a
            for p in range(len(k)):
                ts = {}
                for t in range(len(c)):
                    if p_idxs[t] == p:
                        ts[frozenset(exps[t].items())] = c[t]
                require(len(ts) == k[p], "the solver is given sizes that fit", lambda: "%s: %s" % (where(), k))
                if p == 0:
                    rec.obj = ts
                else:
                    rec.rows.append((ts, "<=", 0.1 + 0.07*p))
            got.update(rec=rec, x=[0.3 + 0.21*j for j in range(A.shape[1])], kw=kw)
            la = [0.1 + 0.07*p for p in range(1, len(k))]
            return dict(status="optimal", objective=1.379, primal=got["x"], la=np.array(la if drop else [1.0] + la))
        drop = ch.flag()
        sol = solve(w, mine, flavour="sweet")
        require(got["kw"] == {"flavour": "sweet"}, "options reach the solver", lambda: "%s: %s" % (where(), got["kw"]))
        judge(w, sol, got["rec"], 1.379, where, got["x"])
        outcome("function")

    FEW = [(), ("bound",), ("posynomial", "equality"), ("redundant", "monomial"), ("equality", "three", "vector")]

    def faults_cvxopt(ch):
        w, where = fresh(ch, FEW)
        kind, what = ch.pick(GP_FAULTS)

        def handler(K, F, g, G, h, A, b, kw):  # pylint: disable=unused-argument
            print("noise")
            if kind == "raise":
                raise what("as told")
            one = cvxopt.matrix(1.0, (F.size[1], 1))
            return dict(status=what, x=one, y=one, zl=one, znl=one, **{"primal objective": 0.0})
        want = UnknownInfeasible
        if kind == "raise" and what is ValueError:
            want = DualInfeasible
        elif kind == "raise" and what is KeyboardInterrupt:
            want = KeyboardInterrupt
        with_handler(handler, lambda: expect(w, "cvxopt", want, lambda: "%s, %s %s" % (where(), kind, what)))
        run_cvxopt(w, lambda: where() + " afterwards", (1,), {})

    def faults_conif(ch):
        w, where = fresh(ch, FEW)
        kind, what, want = ch.pick([("status", "prim_infeas_cer", PrimalInfeasible), ("status", "dual_infeas_cer", DualInfeasible)]
                                   + [("status", s, UnknownInfeasible) for s in ("unknown", "prim_feas", "dual_feas", "prim_and_dual_feas", "prim_illposed_cer", "dual_illposed_cer")]
                                   + [("error", e, InvalidLicense) for e in ("err_missing_license_file", "err_license_version", "err_license_expired")]
                                   + [("error", e, UnknownInfeasible) for e in ("err_space", "trm_max_iterations")])
        FAKE.status, FAKE.raises = (what, None) if kind == "status" else ("optimal", what)
        conif(lambda: expect(w, "mosek_conif", want, lambda: "%s, %s %s" % (where(), kind, what)))
        run_conif(w, lambda: where() + " afterwards", False)

    def faults_cli(ch):
        w, where = fresh(ch, FEW, ("posynomial",))
        n, terms = sizes(w)
        x, nu = [0.3 + 0.21*j for j in range(n)], [0.05 + 0.013*t for t in range(terms)]
        good = answer_text(x, nu)
        kind, ans, code, want = ch.pick(
            [("status " + s, answer_text(x, nu, s, "X"), 0, t) for s, t in (("PRIMAL_INFEASIBLE", PrimalInfeasible), ("DUAL_INFEASIBLE", DualInfeasible), ("UNKNOWN", UnknownInfeasible),
                                                                             ("PRIMAL_FEASIBLE", UnknownInfeasible), ("DUAL_FEASIBLE", UnknownInfeasible), ("PRIMAL_AND_DUAL_FEASIBLE_", UnknownInfeasible), ("", UnknownInfeasible))]
            + [("bare status", "PROBLEM STATUS      : PRIMAL_INFEASIBLE\n", 0, PrimalInfeasible), ("exit 233", good, 233, InvalidLicense), ("exit 240", None, 240, InvalidLicense), ("exit 1", good, 1, UnknownInfeasible),
               ("exit 1052", None, 28, UnknownInfeasible), ("no answer", None, 0, UnknownInfeasible), ("empty answer", "", 0, UnknownInfeasible), ("no executable", good, 0, UnknownInfeasible)])
        with Cli() as cli:
            cli.prepare(ans, code)
            if kind == "no executable":
                os.remove(os.path.join(cli.bin, "mskexpopt"))
            kept = ch.flag()
            path = os.path.join(cli.dir, "kept")
            os.mkdir(path)
            if kept and ch.flag():      # an earlier answer is there already
                with open(os.path.join(cli.dir, "code")) as f:
                    code = int(f.read())
                cli.prepare(good, 0)
                exe = os.path.join(cli.bin, "mskexpopt")
                with open(exe, "w") as f:
                    f.write(SCRIPT)
                os.chmod(exe, 0o755)
                solve(w, "mosek_cli", path=path)
                cli.prepare(ans, code)
                if kind == "no executable":
                    os.remove(exe)
            expect(w, "mosek_cli", want, lambda: "%s, %s" % (where(), kind), **({"path": path} if kept else {}))
            left = os.listdir(cli.tmp)
            require(not left, "temporary files are removed", lambda: "%s, %s: %s left" % (where(), kind, left))

    def corrupted(ch):
        w, where = fresh(ch, FEW[:4], ("posynomial",))
        n, terms = sizes(w)
        x, nu = [0.3 + 0.21*j for j in range(n)], [0.05 + 0.013*t for t in range(terms)]
        good = lines_of(answer_text(x, nu))
        i = ch.pick(range(len(good)-1))
        how = ch.pick(("end here", "end inside", "drop", "empty", "repeat", "word"))
        bad = list(good)
        if how == "end here":
            bad = good[:i] + [""]
        elif how == "end inside":
            bad = good[:i] + [good[i][:len(good[i])//2]]
        elif how == "drop":
            del bad[i]
        elif how == "empty":
            bad[i] = ""
        elif how == "repeat":
            bad.insert(i, bad[i])
        else:
            bad[i] = bad[i][:8] + "#corrupted#"
        with Cli() as cli:
            cli.prepare("\n".join(bad), 0)
            try:
                sol = solve(w, "mosek_cli")
            except Exception as e:  # pylint: disable=broad-except
                require(isinstance(e, (Infeasible, RuntimeWarning)), "malformed answers raise", lambda: "%s: %s" % (where(), repr(e)))
                outcome(type(e).__name__)
            else:
                vals = sorted(w.value(sol, nm) for nm in w.names())
                require(bad == good or (how, i) in HARMLESS or all(near(a, b) for a, b in zip(vals, sorted(np.exp(x)))), "malformed answers raise",
                        lambda: "%s: with line %s (%r) %s: %s" % (where(), i, good[i], how, vals))
                outcome("read anyway")
            left = os.listdir(cli.tmp)
            require(not left, "temporary files are removed", lambda: "%s, line %s %s: %s left" % (where(), i, how, left))

    def settings_files(ch):
        names = ch.pick([("cvxopt",), ("mosek_cli", "cvxopt"), ("mosek_conif", "mosek_cli", "cvxopt")])
        other = ch.pick([None, "/opt/mosek/8/bin", "C:\\Mosek 7\\bin"])
        last = ch.flag()
        newline = ch.flag()
        rows = ["installed_solvers : " + ", ".join(names)]
        if other:
            rows.insert(0 if last else 1, "mosek_bin_dir : " + other)
        d = tempfile.mkdtemp(prefix="c28-")
        try:
            path = os.path.join(d, "settings")
            with open(path, "w") as f:
                f.write("\n".join(rows) + ("\n" if newline else ""))
            got = load_settings(path, trybuild=False)
        finally:
            shutil.rmtree(d)
        require(list(got["installed_solvers"]) == list(names) and got["default_solver"] == names[0], "settings are read back", lambda: "%r: %s" % (rows, got))
        require(got.get("mosek_bin_dir") == other, "settings are read back", lambda: "%r: %s" % (rows, got))
        outcome("settings")

    def selection(ch):
        "the default back end, named ones, unknown ones"
        import gpkit
        w, where = fresh(ch, FEW[1:3])
        which = ch.pick(("default", "none set", "unknown", "default cli"))
        saved = dict(gpkit.settings)
        try:
            if which == "default":
                gpkit.settings["default_solver"] = "cvxopt"
                used = []
                with_handler(lambda *a: used.append(a) or 1/0, lambda: expect(w, None, UnknownInfeasible, where))
                require(len(used) == 1, "the default back end is used", where)
            elif which == "none set":
                gpkit.settings.pop("default_solver", None)
                expect(w, None, ValueError, where)
            elif which == "unknown":
                expect(w, "nosuchsolver", ValueError, where)
            else:
                gpkit.settings["default_solver"] = "mosek_cli"
                with Cli() as cli:
                    cli.prepare(None, 233)
                    expect(w, None, InvalidLicense, where)
        finally:
            gpkit.settings.clear()
            gpkit.settings.update(saved)

    ctx.explore("cvxopt programs", in_process)
    ctx.explore("conic programs", conic)
    ctx.explore("command line programs", cli_programs)
    ctx.explore("function programs", functions)
    ctx.explore("options", options)
    ctx.explore("cvxopt faults", faults_cvxopt)
    ctx.explore("conic faults", faults_conif)
    ctx.explore("command line faults", faults_cli)
    ctx.explore("command line answers corrupted", corrupted)
    ctx.explore("settings files", settings_files)
    ctx.explore("solver selection", selection)


HARMLESS = set()
