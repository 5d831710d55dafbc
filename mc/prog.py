"""Observing what a program hands to its solver, through a solver function that records its arguments and answers as told."""
import math
import numpy as np
import gpkit
from .core import require


class Captured(dict):
    "arguments of one solver call, plus the meaning of its columns once the result is known"


def recorder(calls, duals="nu", primal=None):
    """A solver function: records its arguments and answers with a distinct value in every column.

    The reported values identify which variable each column belongs to."""
    def solver(c, A, meq_idxs, k, p_idxs, **kw):
        rows, cols = A.shape
        call = Captured(c=list(c), k=list(k), p_idxs=list(p_idxs), meq=set(meq_idxs.all), first=set(meq_idxs.first_half),
                        A=list(zip(A.row, A.col, A.data)), shape=(rows, cols), kw=dict(kw))
        calls.append(call)
        x = [math.log(2.0 + 0.25*j) for j in range(cols)] if primal is None else primal(cols)
        z = np.zeros(len(c))
        for i, j, v in call["A"]:
            z[i] += v*x[j]
        vals = np.array(call["c"])*np.exp(z)
        cost = float(vals[:k[0]].sum())
        nu = np.zeros(len(c))
        nu[:k[0]] = vals[:k[0]]/cost
        out = dict(status="optimal", primal=np.array(x), objective=cost)
        if duals == "nu":
            out["nu"] = nu
        elif duals == "la":
            out["la"] = np.array([1.0] + [0.0]*(len(k)-1))
        else:
            out.update(duals(call, x, vals))
        call["x"] = x
        return out
    solver.__name__ = "recorder"
    return solver


def rows_of(call, colnames):
    "[(terms {((name, exp), ...): coeff} , is_meq)] per posynomial"
    exps = [dict() for _ in call["c"]]
    for i, j, v in call["A"]:
        if v:
            require(colnames[j] not in exps[i], "standard form", lambda: "entry (%s,%s) given twice" % (i, j))
            exps[i][colnames[j]] = v
    out, r = [], 0
    for p, n in enumerate(call["k"]):
        terms = {}
        for i in range(r, r+n):
            key = tuple(sorted((a, round(float(e), 12)) for a, e in exps[i].items()))
            require(key not in terms, "standard form", lambda: "posynomial %s has the same term twice" % p)
            require(call["p_idxs"][i] == p, "standard form", lambda: "p_idxs %s for k %s" % (call["p_idxs"], call["k"]))
            terms[key] = call["c"][i]
        out.append((terms, bool(call["meq"] & set(range(r, r+n)))))
        r += n
    require(r == len(call["c"]) == len(call["p_idxs"]), "standard form", lambda: "k %s but %s terms" % (call["k"], len(call["c"])))
    return out


def standard_form(gp, name=str, duals="nu"):
    "Runs gp.solve with the recorder; returns (posynomials, call, result)."
    calls = []
    res = gp.solve(solver=recorder(calls, duals), verbosity=0)
    require(len(calls) == 1, "standard form", lambda: "%s solver calls" % len(calls))
    call = calls[0]
    cols = {}
    for vk, val in res["freevariables"].items():
        arr = np.atleast_1d(np.asarray(val, dtype=float))
        for idx, v in np.ndenumerate(arr):
            if v != v:
                continue
            js = [j for j, x in enumerate(call["x"]) if abs(math.exp(x) - v) < 1e-9]
            require(len(js) == 1 and js[0] not in cols, "column attribution", lambda: "%s has value %s, columns %s" % (vk, v, js))
            cols[js[0]] = name(vk) if not getattr(vk, "shape", None) else "%s[%s]" % (name(vk).replace("[:]", ""), ",".join(map(str, idx)))
    return rows_of(call, cols), call, res


def close(got, want, tol=1e-9):
    "same posynomial"
    return set(got) == set(want) and all(abs(got[k]-want[k]) <= tol*max(abs(want[k]), 1e-300) for k in got)
