"""Boundedness: every sign-pattern model up to the bound, against an independent least fixpoint."""
import itertools
from gpkit import Variable, VectorVariable, Model
from gpkit.exceptions import UnboundedGP
from ..core import require, outcome

TECHNIQUE = "exhaustive enumeration of sign-pattern models on the real code, verdicts compared with a least-fixpoint model of boundedness"
NOTE = "All ordered lists of distinct equality sign patterns up to the bound x all subsets of direct bounds x objectives x constants x list orders; chains and cycles of equalities over up to five variables in every order."
PATTERNS = []
for _p in itertools.product((1, 0, -1), repeat=3):
    if any(_p) and tuple(-i for i in _p) not in PATTERNS:
        PATTERNS.append(_p)
UP, LO = "upper", "lower"


def mono(vs, pat):
    m = 1
    for v, e, size in zip(vs, pat, (1, 0.5, 3)):
        if e:
            m = m*v**(e*size)
    return m


def fixpoint(free, ineqs, eqs):
    "missing (variable, direction) pairs; ineqs and eqs are exponent vectors over all variables"
    have = set()
    for pat in ineqs:
        for i in free:
            if pat[i]:
                have.add((i, UP if pat[i] > 0 else LO))
    while True:
        new = set()
        for pat in eqs:
            inv = [i for i in free if pat[i]]
            for i in inv:
                for d in (UP, LO):
                    # x y / z == 1: x is bounded above if y is bounded below and z above
                    other = [(j, ({UP: LO, LO: UP}[d] if pat[j]*pat[i] > 0 else d)) for j in inv if j != i]
                    if all(o in have for o in other):
                        new.add((i, d))
        if new <= have:
            break
        have |= new
    appearing = {i for i in free for pat in list(ineqs)+list(eqs) if pat[i]}
    return {(i, d) for i in appearing for d in (UP, LO)} - have


def verdict(m, names, free, want, label, solve=True):
    gp = m.gp(checkbounds=False)
    got = {(names[v], d) for v, d in gp.check_bounds()}
    require(got == want, "missing bounds", lambda: "%s: reported %s, expected %s" % (label(), sorted(got), sorted(want)))
    try:
        m.gp()
        raised = None
    except UnboundedGP as e:
        raised = str(e)
    require((raised is not None) == bool(want), "refused exactly when unbounded", lambda: "%s: raised %s, missing %s" % (label(), raised, sorted(want)))
    if want:
        for i, d in want:
            require(d in raised, "message", raised)
        try:
            m.solve(verbosity=0, solver=_never)
            solved = True
        except UnboundedGP:
            solved = False
        require(not solved, "solve refuses unbounded programs", label)
    outcome("%s missing" % len(want))


def _never(**_):
    raise AssertionError("a solver was called for an unbounded program")


def run(ctx):
    neq = 2 if ctx.quick else 3
    costs = [((1, 0, 0),), ((1, 1, 0), (0, 0, -1)), ((-1, 1, 0),), ((1, 0, -1), (0, 1, 1))][:3 if ctx.quick else 4]
    bounds = [(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)]
    ctx.bound(equalities=neq, patterns=len(PATTERNS), objectives=len(costs), direct_bounds=64, chain_variables=4 if ctx.quick else 5)

    def body(ch):
        cost = ch.pick(costs)
        eqs = ch.pick([e for n in range(neq+1) for e in itertools.permutations(PATTERNS, n)])
        direct = [bounds[i] for i in range(6) if ch.flag()] if len(eqs) < 3 else ch.pick([(), bounds[:1], bounds[3:4], bounds[:2], bounds[4:], (bounds[0], bounds[3], bounds[5]), (bounds[1], bounds[2], bounds[4])])
        const = ch.pick((None, 2)) if len(eqs) < 2 else None
        first = ch.flag() if eqs and direct else False
        vs = [Variable("x", "m"), Variable("y"), Variable("z")]
        un = [vs[0]/Variable("x0", 1, "m"), vs[1], vs[2]]   # x0 is a constant: x carries units
        econ = [mono(un, p) == 1 for p in eqs]
        if len(direct) == 2:   # two bounds from one inequality with two terms
            dcon = [0.25*mono(un, direct[0]) + 0.25*mono(un, direct[1]) <= 1]
        else:
            dcon = [mono(un, p) <= 1 for p in direct]
        obj = sum(mono(un, p) for p in cost)
        m = Model(obj, dcon + econ if first else econ + dcon, {vs[const]: 1} if const is not None else {})
        free = [i for i in range(3) if i != const]
        names = {v.key: i for i, v in enumerate(vs)}
        want = fixpoint(free, list(cost) + list(direct), eqs)
        verdict(m, names, free, want, lambda: "min %s, equalities %s, bounds %s, constant %s" % (cost, eqs, direct, const), len(eqs) < 2)
    ctx.explore("sign patterns", body, split=1024)

    def chains(ch):
        "x0 ~ x1 ~ ... in a line or a ring, every sign of every link, every order of the links, bounded somewhere"
        n = ch.pick((3, 4) if ctx.quick else (3, 4, 5))
        ring = ch.flag()
        exps = (1, -1, 2.5) if n == 3 else (1, -0.5)
        links = [(i, (i+1) % n) for i in range(n if ring else n-1)]
        signs = [ch.pick(exps) for _ in links]
        order = ch.pick(list(itertools.permutations(range(len(links)))) if n < 5 else [p for p in itertools.permutations(range(len(links))) if p[0] == 0][:: 1 if ring is False else 5])
        start = ch.pick([(), (1,), (-1,), (1, -1)])
        where = ch.pick((0, n//2))
        flip = ch.flag()
        v = VectorVariable(n, "v")
        eqs, con = [], []
        for k in order:
            i, j = links[k]
            pat = [0]*n
            pat[i], pat[j] = 1, -signs[k]
            eqs.append(tuple(pat))
            con.append(v[i] == 3*v[j]**signs[k] if not flip else v[j]**signs[k] == 3*v[i])
        ine = []
        for s in start:
            pat = [0]*n
            pat[where] = s
            ine.append(tuple(pat))
            con.insert(len(con)//2, v[where] <= 7 if s > 0 else v[where] >= 0.5)
        cost = [0]*n
        cost[0] = 1
        ine.append(tuple(cost))
        names = {v[i].key: i for i in range(n)}
        want = fixpoint(range(n), ine, eqs)
        verdict(Model(v[0], con), names, range(n), want, lambda: "links %s signs %s order %s bounds %s" % (links, signs, order, ine), n < 4)
    ctx.explore("chains", chains, split=1024)

    def long(ch):
        "long chains of equalities, bounded at one place or not at all"
        n = ch.pick(range(5, 26 if ctx.quick else 50))
        order = ch.pick(("forward", "backward", "from the middle", "odd first"))
        sign = ch.pick(("1", "-1", "alternating"))
        where = ch.pick((0, n//2, n - 1))
        start = ch.pick([(), (1,), (-1,), (1, -1)])
        cut = ch.flag()   # the chain is in two pieces
        v = VectorVariable(n, "v")
        links = [i for i in range(n - 1) if not (cut and i == n//3)]
        links = {"forward": links, "backward": links[::-1], "from the middle": sorted(links, key=lambda i: (abs(i - n//2), i)), "odd first": sorted(links, key=lambda i: (i + 1) % 2)}[order]
        eqs, con = [], []
        for i in links:
            e = {"1": 1, "-1": -1, "alternating": (-1)**i}[sign]
            pat = [0]*n
            pat[i], pat[i + 1] = 1, -e
            eqs.append(tuple(pat))
            con.append(v[i] == 2*v[i + 1]**e)
        ine = []
        for s in start:
            pat = [0]*n
            pat[where] = s
            ine.append(tuple(pat))
            con.append(v[where] <= 7 if s > 0 else v[where] >= 0.5)
        cost = [0]*n
        cost[0] = 1
        ine.append(tuple(cost))
        names = {v[i].key: i for i in range(n)}
        verdict(Model(v[0], con), names, range(n), fixpoint(range(n), ine, eqs), lambda: "chain of %s%s, %s, %s, bounds %s of v[%s]" % (n, " in two pieces" if cut else "", order, sign, start, where), False)
    ctx.explore("long chains", long)
