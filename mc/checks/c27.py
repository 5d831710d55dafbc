"""Docstring declarations against the same model written out by hand; bound lists against an independent closure."""
import atexit
import importlib.util
import itertools
import os
import shutil
import sys
import tempfile
import numpy as np
from gpkit import Variable, VectorVariable, Model, NamedVariables, SignomialsEnabled, ConstraintSet
from gpkit.constraints.tight import Tight
from ..core import require, Skip, outcome, pmap

TECHNIQUE = "exhaustive enumeration of docstring declaration blocks (header x lines x layout), of setup-function layouts and of bound lists over all small constraint subsets; every generated module is imported and compared with the hand-written model, every bound list with an independent fixpoint"
NOTE = "Modules are real source files in a scratch directory. Blocks of 1-3 headers, 1-2 lines of a 14-letter line alphabet; 3 variables and up to 2 (3 when thorough) constraints of a 16-letter alphabet times every bound list. A bound list is right when no listed bound is provided by the constraints and all others follow from the listed ones."

ROOTDIR = None
SCRATCH = None
COUNT = [0]


def scratch():
    global SCRATCH, ROOTDIR
    if ROOTDIR is None or not os.path.isdir(ROOTDIR):  # replaying
        ROOTDIR = tempfile.mkdtemp(prefix="c27-")
        atexit.register(shutil.rmtree, ROOTDIR)
    if SCRATCH is None or SCRATCH[0] != os.getpid():
        path = os.path.join(ROOTDIR, str(os.getpid()))
        os.makedirs(path, exist_ok=True)
        SCRATCH = (os.getpid(), path)
    return SCRATCH[1]


PRELUDE = '''import numpy as np
from gpkit import Variable, VectorVariable, Model, parse_variables, units


def lower(v):
    r = v.key.unitrepr
    return v >= (0.5 if r in ("-", "") else 0.5*units(r))


'''


def load(text):
    "Imports the text as a module kept in a file of its own."
    COUNT[0] += 1
    name = "doc%d_%d" % (os.getpid(), COUNT[0])
    path = os.path.join(scratch(), name + ".py")
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)
    try:
        spec = importlib.util.spec_from_file_location(name, path)
        mod = importlib.util.module_from_spec(spec)
        sys.dont_write_bytecode = True
        spec.loader.exec_module(mod)
        return mod
    finally:
        os.remove(path)


# --------------------------------------------------------------- describing models
def key_of(v):
    return getattr(v, "key", v)


def describe_key(k):
    d = k.descr
    return (k.name, (d.get("label") or "").strip(), k.unitrepr, tuple(d["shape"]) if d.get("shape") else None, d.get("idx"), bool(k.constant),
            tuple(n for n, _ in (d.get("lineage") or ())))


def describe(m, names):
    out = {}
    for n in names:
        v = getattr(m, n)
        if isinstance(v, np.ndarray):
            out[n] = ("vector", v.shape, describe_key(v.key), tuple(describe_key(e.key) for e in v.flat))
            elems = [e.key for e in v.flat]
        else:
            out[n] = ("scalar", describe_key(v.key))
            elems = [v.key]
        out[n] += (tuple(repr(np.array(m.substitutions[k]).tolist()) if k in m.substitutions else None for k in elems),)
    out["all"] = tuple(sorted(map(repr, (describe_key(k) for k in m.vks))))
    out["own"] = tuple(sorted(map(repr, (describe_key(k) for k in m.unique_varkeys))))
    out["n subs"] = len([k for k in m.vks if k in m.substitutions])
    out["text"] = sorted(str(m).split("\n"))
    out["trace"] = getattr(m, "trace", None)
    return out


def compare(sig, doctext, parsed_src, hand_src, names, args=()):
    NamedVariables.reset_modelnumbers()
    hand = load(PRELUDE + hand_src)
    try:
        want = describe(hand.D(*args), names)
    except Exception as e:  # pylint: disable=broad-except
        NamedVariables.reset_modelnumbers()
        try:
            m = load(PRELUDE + parsed_src).D(*args)
        except Exception:  # pylint: disable=broad-except
            outcome("refused both ways")
            return
        require(False, sig + ": accepted", "by hand %s: %s, but accepted for\n%s" % (type(e).__name__, e, doctext))
    NamedVariables.reset_modelnumbers()
    try:
        mod = load(PRELUDE + parsed_src)
        m = mod.D(*args)
        got = describe(m, names)
    except Exception as e:  # pylint: disable=broad-except
        require(False, sig + ": refused", "%s: %s for\n%s" % (type(e).__name__, e, doctext))
    for k, w in want.items():
        require(got[k] == w, sig + ": " + ("attribute" if k in names else k), "%s is\n%s instead of\n%s for\n%s" % (k, got[k], w, doctext))
    for n, v in zip(names, m.seen):
        a = getattr(m, n)
        require(v is a, sig + ": local name", "local %s is %r, attribute %r" % (n, v, a))


# --------------------------------------------------------------- the line alphabet
# (id, text after the name, hand-written arguments)
LINES = [
    ("plain", "    [-]    plain label", "'-', 'plain label'"),
    ("value", " 2.0 [m] with value", "2.0, 'm', 'with value'"),
    ("bare", "   [m^2/s]", "'m^2/s', ''"),
    ("apostrophe", " 3 [-]  the baker's dozen", "3, '-', \"the baker's dozen\""),
    ("quoted", " 1.5 [-] a \"quoted\" label f('x')", "1.5, '-', 'a \"quoted\" label f(\\'x\\')'"),
    ("call", "  [-] see Variable(x) and [7]", "'-', 'see Variable(x) and [7]'"),
    ("argument", " n [-] from the argument", "n, '-', 'from the argument'"),
    ("expression", " np.pi/2 [N*m] expression", "np.pi/2, 'N*m', 'expression'"),
    ("tabs", "\t5\t[kg]\ttabbed", "5, 'kg', 'tabbed'"),
    ("trailing", " 1 [ft]   ", "1, 'ft', ''"),
    ("latex", "  [-] the \\nu and \\alpha", "'-', r'the \\nu and \\alpha'"),
    ("backslash", " 4 [-] ends in \\", "4, '-', 'ends in \\\\'"),
    ("hash", " 1e-3 [m/s] number # of 100%s {0}", "1e-3, 'm/s', 'number # of 100%s {0}'"),
    ("pair", " (1.5,2.5) [m] a pair", "(1.5, 2.5), 'm', 'a pair'"),
    ("ones", " 2*np.ones(n) [-] ones", "2*np.ones(n), '-', 'ones'"),
    ("unicode", " 7 [-] α ≥ β²", "7, '-', 'α ≥ β²'"),
]
LINE = {l[0]: l for l in LINES}
VALUED = {l[0] for l in LINES if not l[2].startswith("'")}
HEADERS = [
    ("Variables", None, False),
    ("Zoning Variables", None, False),
    ("Constants", None, True),
    ("Fixed Constants", None, True),
    ("Variables of length 2", "2", False),
    ("Variables of length n", "n", False),
    ("Panel Variables of length 1+2", "1+2", False),
]
NAMES = ["xx", "x", "y_1", "zeta", "q", "Re"]
TAILS = ["\n\n", "\n    \n", "\n", "", "\n\nAnd further prose about x [-] and such.\n"]


def hand_line(name, line, header):
    args = LINE[line][2]
    if header[1]:
        return "%s = self.%s = VectorVariable(%s, '%s', %s)" % (name, name, header[1], name, args)
    return "%s = self.%s = Variable('%s', %s%s)" % (name, name, name, args, ", constant=True" if header[2] else "")


def sources(doc, decls, names):
    body = "        self.seen = [%s]\n        return [lower(v) for v in self.seen]\n" % ", ".join(names)
    parsed = ("class D(Model):\n    r\"\"\"%s\"\"\"\n    @parse_variables(__doc__, globals())\n    def setup(self, n=3):\n" % doc) + body
    hand = "class D(Model):\n    def setup(self, n=3):\n" + "".join("        %s\n" % d for d in decls) + body
    return parsed, hand


def block(header, lines, names, indent):
    pad = " "*indent
    text = pad + header[0] + "\n" + pad + "-"*len(header[0]) + "\n"
    return text + "\n".join(pad + n + LINE[l][1] for n, l in zip(names, lines))


def run_doc(sig, blocks, indent, seps, tail, intro="About the model.\n\n"):
    "blocks: [(header, [line ids])]"
    text, decls, names, left = intro, [], [], list(NAMES)
    for i, (header, lines) in enumerate(blocks):
        own, left = left[:len(lines)], left[len(lines):]
        text += block(header, lines, own, indent) + (seps if i < len(blocks) - 1 else tail)
        decls += [hand_line(n, l, header) for n, l in zip(own, lines)]
        names += own
    parsed, hand = sources(text, decls, names)
    compare(sig, text, parsed, hand, names)


def ends_ok(line, tail):
    "a docstring cannot end in a backslash or a quote"
    return tail != "" or line not in ("backslash",)


def single(ch):
    header = ch.pick(HEADERS)
    l1 = ch.pick([l[0] for l in LINES])
    l2 = ch.pick([None] + [l[0] for l in LINES])
    indent = ch.pick([0, 4])
    tail = ch.pick(TAILS)
    lines = [l for l in (l1, l2) if l]
    if tail == "" and lines[-1] == "backslash":
        raise Skip()
    if header[2] and not set(lines) <= VALUED:
        raise Skip()   # a constant without a value
    if not header[1] and {"pair", "ones"} & set(lines):
        raise Skip()   # several values for a scalar
    if QUICK and l2 and (indent, tail) not in ((0, TAILS[0]), (4, TAILS[1])):
        raise Skip()
    run_doc("declarations", [(header, lines)], indent, "", tail)


SEPS = ["\n\n", "\n    \n", "\n\nProse in between, with (x [-]).\n\n", "\n\n\n"]
SHORT = ["plain", "value", "bare", "apostrophe"]


def several(ch):
    n = ch.pick([2, 3])
    hs = [ch.pick(HEADERS) for _ in range(n)]
    first = ch.pick(SHORT)
    sep = ch.pick(SEPS)
    indent = ch.pick([0, 4])
    two = ch.flag()
    if n == 3 and (sep not in SEPS[:2] or two or first not in ("bare", "value")):
        raise Skip()
    blocks = []
    for i, h in enumerate(hs):
        lines = [SHORT[(SHORT.index(first) + i) % 4]] if not h[2] else ["value"]
        if two and i == 0:
            lines.append("apostrophe")
        if h[1]:   # scalar values are refused for vectors
            lines = [{"value": "pair" if h[1] == "2" else "ones" if h[1] == "n" else "plain", "apostrophe": "latex"}.get(l, l) for l in lines]
        blocks.append((h, lines))
    run_doc("blocks", blocks, indent, sep, "\n\n")


# --------------------------------------------------------------- malformed lines
BAD = [("no units", "p   no units here"), ("no units at all", "p"), ("missing name", "[m] a label"), ("two values", "p 2.0 3.0 [m] label"),
       ("spaced value", "p 2 + 1 [m] label"), ("unclosed", "p 2 [m label"), ("unopened", "p 2 m] label"), ("reversed", "p 2 ]m[ label"),
       ("unknown units", "p 2 [florps] label"), ("undefined value", "p qqq [m] label"), ("bad name", "2p [m] label"), ("hyphen", "a-b [m] label"),
       ("latex name", "\\eta [-] label")]
GOOD = {"plain": "    [-]    plain label", "value": " 2.0 [m] with value"}


def malformed(ch):
    header = ch.pick(HEADERS)
    why, bad = ch.pick(BAD)
    where = ch.pick(["alone", "before", "after", "between"])
    indent = ch.pick([0, 4])
    pad = " "*indent
    a, b = pad + "x 2.0 [m] with value", pad + "y 3.0 [-] more"
    bad = pad + bad
    lines = {"alone": [bad], "before": [bad, a], "after": [a, bad], "between": [a, bad, b]}[where]
    names = {"alone": [], "before": ["x"], "after": ["x"], "between": ["x", "y"]}[where]
    text = "About.\n\n%s%s\n%s---------\n%s\n\n" % (pad, header[0], pad, "\n".join(lines))
    parsed, _ = sources(text, [], names)
    NamedVariables.reset_modelnumbers()
    try:
        m = load(PRELUDE + parsed).D()
    except Exception as e:  # pylint: disable=broad-except
        outcome("refused by " + type(e).__name__)
        require(not isinstance(e, (UnboundLocalError, RecursionError)), "malformed: " + why, "refused by an accident: %s: %s" % (type(e).__name__, e))
        return
    require(False, "malformed: " + why, "accepted, giving %s, for\n%s" % (sorted(map(str, m.vks)), text))


# --------------------------------------------------------------- setup functions
SIGNATURES = [
    ("plain", "def setup(self):", ()), ("default", "def setup(self, n=2):", ()), ("args", "def setup(self, n, *args, **kwargs):", (4, 5)),
    ("two lines", "def setup(self, n=2,\n{p}          m=(1, 2)):", ()), ("three lines", "def setup(\n{p}        self,\n{p}        n=5,\n{p}        ):", ()),
    ("comment", "def setup(self, n=2):  # a comment): here", ()), ("annotated", "def setup(self, n: int = 2) -> list:", ()),
    ("parenthesized default", "def setup(self, n=(2)):", ()), ("comment inside", "def setup(self,  # the model\n{p}          n=2):", ()),
    ("spaced", "def setup(self, n=2 ) :", ()),
]
# bodies: lines (without the common indent); DECL marks where declarations stand when written by hand
BODIES = [
    ("plain", ["self.trace = ['a']"]),
    ("docstring", ["'What it does.'", "self.trace = ['a']"]),
    ("long docstring", ['"""What it does.', "", "    in detail", '"""', "self.trace = ['a']"]),
    ("comment", ["# a comment", "self.trace = ['a']"]),
    ("left comment", ["@# a comment in the first column", "self.trace = ['a']"]),
    ("blank", ["", "self.trace = ['a']"]),
    ("blanks", ["@    ", "@          ", "self.trace = ['a']"]),
    ("nested", ["def f(a):", "    return a", "self.trace = [f('a')]", "self.trace += [f(i) for i in range(2)]"]),
    ("string", ["self.trace = ['''line", "    indented line", "@left # line", "@", "@  two''']"]),
    ("continuation", ["self.trace = ['a',", "@'b', # comment", "@    'c']"]),
    ("branch", ["self.trace = []", "for i in range(3):", "    if i > 1:", "        self.trace.append(i)", "", "    else:", "        self.trace.append('#')"]),
    ("lambda", ["g = lambda s: s + '):'", "self.trace = [g('a')]"]),
]
INDENTS = [("spaces", "    ", "    "), ("two", "  ", "  "), ("tab", "\t", "\t"), ("mixed", "    ", "  ")]


def functions(ch):
    sname, signature, args = ch.pick(SIGNATURES)
    bname, body = ch.pick(BODIES)
    _, outer, inner = ch.pick(INDENTS)
    depth = ch.pick([0, 1])
    doc = ch.pick(["scalar", "vector"])
    final = ch.pick(["\n", ""])
    header = HEADERS[0] if doc == "scalar" else HEADERS[4]
    lines = ["value" if doc == "scalar" else "pair", "plain"]
    names = NAMES[:2]
    decls = [hand_line(n, l, header) for n, l in zip(names, lines)]
    text = "About.\n\n" + block(header, lines, names, 4) + "\n\n    "
    pre = outer*(1 + depth)
    out = []
    for by_hand in (False, True):
        src = "class D(Model):\n" if not depth else "class Outer:\n" + outer + "class D(Model):\n"
        if not by_hand:
            src += pre + 'r"""%s"""\n' % text + pre + "@parse_variables(__doc__, globals())\n"
        src += pre + signature.replace("{p}", pre) + "\n"
        if by_hand:
            src += "".join(pre + inner + d + "\n" for d in decls)
        for line in body + ["self.seen = [%s]" % ", ".join(names)]:
            src += line[1:] + "\n" if line.startswith("@") else (pre + inner + line + "\n" if line else "\n")
        src += pre + inner + "return [lower(v) for v in self.seen]" + (final if not depth else "\n")
        if depth:
            src += "\n\nD = Outer.D" + final
        out.append(src)
    compare("setup function", out[0], out[0], out[1], names, args)


# --------------------------------------------------------------- bounds
# constraint letter -> (make(x, y, z, c), set of direct bounds, list of equality exponents)
U_, L_ = "upper", "lower"
CONS = [
    ("x>=1", lambda v: v.x >= 1, {("x", L_)}, None),
    ("x<=2", lambda v: v.x <= 2, {("x", U_)}, None),
    ("y>=1", lambda v: v.y >= 1, {("y", L_)}, None),
    ("x>=y", lambda v: v.x >= v.y, {("x", L_), ("y", U_)}, None),
    ("x*y>=1", lambda v: v.x*v.y >= 1, {("x", L_), ("y", L_)}, None),
    ("x+y<=z", lambda v: v.x + v.y <= v.z, {("x", U_), ("y", U_), ("z", L_)}, None),
    ("x+1/x<=z", lambda v: v.x + 1/v.x <= v.z, {("x", U_), ("x", L_), ("z", L_)}, None),
    ("c*x>=y^2/z", lambda v: v.c*v.x >= v.y**2/v.z, {("x", L_), ("y", U_), ("z", L_), ("c", L_)}, None),
    ("x==y", lambda v: v.x == v.y, set(), {"x": 1, "y": -1}),
    ("x*y==1", lambda v: v.x*v.y == 1, set(), {"x": 1, "y": 1}),
    ("x*y==z", lambda v: v.x*v.y == v.z, set(), {"x": 1, "y": 1, "z": -1}),
    ("x==c*z^2", lambda v: v.x == v.c*v.z**2, set(), {"x": 1, "z": -2, "c": -1}),
    ("z==3", lambda v: v.z == 3, set(), {"z": 1}),
    ("y==c", lambda v: v.y == v.c, set(), {"y": 1, "c": -1}),
    ("z:=3", None, {("z", U_), ("z", L_)}, None),
    ("x>=1-y", lambda v: v.sig(), {("x", L_), ("y", L_)}, None),
]


def closure(bounds, eqs):
    bounds = set(bounds)
    while True:
        new = set()
        for eq in eqs:
            for k, e in eq.items():
                for d in (U_, L_):
                    need = set()
                    for k2, e2 in eq.items():
                        if k2 != k:
                            same = (e2 > 0) == (e > 0)
                            need.add((k2, (L_ if d == U_ else U_) if same else d))
                    if need <= bounds:
                        new.add((k, d))
        if new <= bounds:
            return bounds
        bounds |= new


class Vars:
    def __init__(self, vec):
        for n in "xyz":
            setattr(self, n, VectorVariable(2, n) if vec else Variable(n))
        self.c = Variable("c", 2.0)

    def sig(self):
        with SignomialsEnabled():
            return self.x >= 1 - self.y


STRUCTURES = ["flat", "nested", "dict", "submodel", "tight", "vector", "unused"]


def provided(letters, unused=False):
    "(variables, bounds the constraints provide, equalities)"
    used, direct, eqs = {}, set(), []
    for l in letters:
        _, _, b, eq = CONS[l]
        direct |= b
        for k in [k for k, _ in b] + list(eq or ()):
            used[k] = None
        if eq:
            eqs.append(eq)
    if "c" in used:
        direct |= {("c", U_), ("c", L_)}
    names = sorted(used)
    if unused:
        names = ["x", "y", "z", "c"]
        direct |= {("c", U_), ("c", L_)}
    return names, closure(direct, eqs), eqs


def listing(bounds, fmt=", ", end="\n\n    "):
    out = ""
    for flag, d in (("Upper", U_), ("Lower", L_)):
        ns = sorted(n for n, dd in bounds if dd == d)
        if ns:
            out += "\n\n    %s Unbounded\n    ---------------\n    %s" % (flag, fmt.join(ns))
    return "About." + (out or "\n\n    Nothing is Unbounded here") + end


def build_model(letters, doc, structure, attrs=(), extra=None):
    def setup(self):
        v = Vars(structure == "vector")
        cs = []
        for l in letters:
            if CONS[l][1] is not None:
                cs.append(CONS[l][1](v))
        subs = {v.z: 3 if structure != "vector" else [3, 3]} if any(CONS[l][0] == "z:=3" for l in letters) else {}
        for n in "xyzc":
            setattr(self, n, getattr(v, n))
        for n, obj in attrs:
            setattr(self, n, obj)
        if structure == "nested":
            cs = [cs[:1], [cs[1:]]] if cs else cs
        elif structure == "dict":
            cs = {"part %d" % i: c for i, c in enumerate(cs)}
        elif structure == "tight":
            cs = Tight(cs)
        elif structure == "submodel":
            inner = type("Inner", (Model,), {"setup": lambda self2: cs})()
            for n in "xyzc":
                setattr(inner, n, getattr(v, n))
                delattr(self, n)
            self.sub = inner
            cs = [inner]
        if structure != "unused":
            # variables that appear nowhere are not this model's
            created = NamedVariables.namedvars[NamedVariables.lineage]
            names = provided(letters)[0]
            keep = [k for k in created if k.key.name in names]
            created[:] = keep
        return cs, subs
    M = type("M", (Model,), {"setup": setup, "__doc__": doc})
    return M()


def accepted(letters, doc, structure, attrs=()):
    NamedVariables.reset_modelnumbers()
    try:
        build_model(letters, doc, structure, attrs)
        return True, None
    except ValueError as e:
        return False, str(e)


def letter_sets(quick):
    n = len(CONS)
    for k in (1, 2) if quick else (1, 2, 3):
        yield from itertools.combinations(range(n), k)


def one_bounds(args):
    letters, structure = args
    text = [CONS[l][0] for l in letters]
    names, have, eqs = provided(letters, structure == "unused")
    if not names or (all(CONS[l][1] is None for l in letters) and structure != "unused"):
        return 0, 0, 0
    all_bounds = [(n, d) for n in names if n != "c" for d in (U_, L_)]
    everything = {(n, d) for n in names for d in (U_, L_)}
    subsets = itertools.chain.from_iterable(itertools.combinations(all_bounds, k) for k in range(len(all_bounds) + 1))
    runs = oks = 0
    pre = "sub." if structure == "submodel" else ""
    for listed in subsets:
        listed = set(listed)
        excessive = bool(listed & have)
        if excessive and len(listed) > 3 and structure != "flat":
            continue
        sufficient = everything <= closure(have | listed, eqs)
        want = sufficient and not excessive
        doc = listing({(pre + n, d) for n, d in listed})
        got, msg = accepted(letters, doc, structure)
        runs += 1
        oks += want
        require(got == want, "bounds: " + ("accepted" if got else "refused"),
                "constraints %s (%s) with %s listed: %s although %s; %s" % (text, structure, sorted(listed), "accepted" if got else "refused",
                "excessive" if excessive else "sufficient" if sufficient else "insufficient", msg))
    return runs, oks, 1


def one_external(letters):
    "a listed variable of another model changes nothing"
    names, have, eqs = provided(letters)
    everything = {(n, d) for n in names for d in (U_, L_)}
    missing = sorted(everything - have)
    runs = 0
    for r in range(len(missing) + 1):
        for listed in itertools.combinations(missing, r):
            for ext in ([("ext", U_)], [("ext", L_)], [("ext", U_), ("ext", L_)], [("ext", U_), ("ext2", U_), ("ext2", L_)]):
                want = everything <= closure(have | set(listed), eqs)
                attrs = [("ext", Variable("ext")), ("ext2", VectorVariable(3, "ext2"))]
                got, msg = accepted(letters, listing(set(listed) | set(ext)), "flat", attrs)
                runs += 1
                require(got == want, "bounds of others: " + ("accepted" if got else "refused"),
                        "constraints %s with %s listed: %s" % ([CONS[l][0] for l in letters], sorted(set(listed) | set(ext)), msg))
    return runs


def bounds(ch):
    letters = ch.pick(SETS)
    structure = ch.pick(STRUCTURES if len(letters) < 3 else STRUCTURES[:1])
    runs, oks, n = one_bounds((letters, structure))
    if not n:
        raise Skip()
    outcome("bound lists tried: %d" % runs if runs < 20 else "bound lists tried: 20+")


def external(ch):
    letters = ch.pick([s for s in SETS if len(s) < 3 and any(CONS[l][1] is not None for l in s)])
    one_external(letters)


# layouts of one right list and its wrong neighbours, in a model of x, y, z: x>=y, z==3
FORMATS = [("commas", ", "), ("lines", "\n    "), ("comma lines", ",\n    "), ("spaces", ",   "), ("tight", ","), ("trailing space", "  \n    ")]
ENDS = ["\n\n    ", "\n    ", "", "\n    \n    ", "\n\n    More about it.\n    ", "\n    \n    More about it."]
MIDS = ["\n\n    ", "\n    \n    ", "\n\n    Some prose.\n\n    "]


def layouts(ch):
    _, fmt = ch.pick(FORMATS)
    end, mid = ch.pick(ENDS), ch.pick(MIDS)
    order = ch.pick([("Upper", "Lower"), ("Lower", "Upper")])
    change = ch.pick(["right", "right", "without first", "without last", "without one list", "with more"])
    prefix = ch.pick(["", "Big "])
    # x y z with x>=y: x and z lack upper (z lacks both), y lacks lower
    up, low = ["x", "y", "z"], ["w", "x"]
    # model: y and w chosen so that exactly these are missing
    lists = {"Upper": list(up), "Lower": list(low)}
    if change == "without first":
        lists["Upper"] = up[1:]
    elif change == "without last":
        lists["Upper"] = up[:-1]
    elif change == "without one list":
        lists["Lower"] = []
    elif change == "with more":
        lists["Lower"] = low + ["z"]
    doc = "About." + mid
    blocks = ["%s%s Unbounded\n    ------------\n    %s" % (prefix, o, fmt.join(lists[o])) for o in order if lists[o]]
    doc += mid.join(blocks) + end

    def setup(self):
        x, y, z, w = self.x, self.y, self.z, self.w = [Variable(n) for n in "xyzw"]
        return [y >= 1, z >= 2*y**2/y**3, w <= 5, z >= 1]
    M = type("M", (Model,), {"setup": setup, "__doc__": doc})
    NamedVariables.reset_modelnumbers()
    try:
        M()
        got, msg = True, None
    except ValueError as e:
        got, msg = False, str(e)
    except Exception as e:  # pylint: disable=broad-except
        require(False, "layout: error", "%s: %s for\n%s" % (type(e).__name__, e, doc))
    require(got == (change == "right"), "layout: " + ("accepted" if got else "refused"), "%s list %s: %s\n%s" % (change, "accepted" if got else "refused", msg, doc))


def conditions(ch):
    "entries that hold only if an attribute is true or false"
    a = ch.pick(["x", "x (if cond)", "x (if not cond)", "x (if other)", "x (if not other)", None])
    b = ch.pick(["y", "y (if cond)", "y (if not cond)", "y (if other)", "y (if not other)", None])
    swap = ch.flag()
    cond, other = ch.pick([True, False]), ch.pick([True, False])
    needx, needy = ch.flag(), ch.flag()
    fmt = ch.pick([", ", "\n    "])
    entries = [e for e in ((b, a) if swap else (a, b)) if e]
    doc = "About.\n\n    Upper Unbounded\n    ---------------\n    %s\n\n    " % fmt.join(entries)

    def holds(e):
        if e is None:
            return False
        if "(if" not in e:
            return True
        val = cond if "cond" in e else other
        return not val if "not" in e else val

    def setup(self):
        x, y = self.x, self.y = Variable("x"), Variable("y")
        self.cond, self.other = cond, other
        return [x >= 1, y >= 1] + ([] if needx else [x <= 3]) + ([] if needy else [y <= 3])
    M = type("M", (Model,), {"setup": setup, "__doc__": doc})
    NamedVariables.reset_modelnumbers()
    want = holds(a) == needx and holds(b) == needy
    try:
        M()
        got, msg = True, None
    except ValueError as e:
        got, msg = False, str(e)
    require(got == want, "conditions: " + ("accepted" if got else "refused"), "%s with cond %s other %s need %s %s: %s" % (entries, cond, other, needx, needy, msg))


def refusals(ch):
    "lists that cannot be read are refused; a model told to skip verification is not checked"
    kind = ch.pick(["twice", "unknown", "not a variable", "skip", "undeclared in part"])
    listed = {"twice": "x\n\n    Upper Unbounded\n    ---------------\n    x", "unknown": "nonesuch", "not a variable": "cond", "undeclared in part": "x, nonesuch",
              "skip": "nonesuch\n\n    SKIP VERIFICATION"}[kind]
    doc = "About.\n\n    Upper Unbounded\n    ---------------\n    %s\n\n    " % listed

    def setup(self):
        self.cond = "hello"
        x = self.x = Variable("x")
        return [x >= 1]
    M = type("M", (Model,), {"setup": setup, "__doc__": doc})
    try:
        M()
        got = True
    except Exception:  # pylint: disable=broad-except
        got = False
    require(got == (kind == "skip"), "refusals: " + kind, "got %s" % got)


def parents(ch):
    "a parent is checked with its parts' bounds, not with what they list"
    inner = ch.pick(SETS_SMALL)
    outer = ch.pick(SETS_SMALL)
    names_i, have_i, eqs_i = provided(inner)
    both = tuple(sorted(set(inner + outer)))
    names, have, eqs = provided(both)
    # equalities of both count together
    ev_i = {(n, d) for n in names_i for d in (U_, L_)}
    miss_i = ev_i - have_i
    everything = {(n, d) for n in names for d in (U_, L_)}
    miss = everything - have
    drop = ch.pick([None] + list(range(6)))
    listed = sorted(miss)
    if drop is not None:
        if drop >= len(listed):
            raise Skip()
        listed = listed[:drop] + listed[drop + 1:]
    v = Vars(False)
    cs_i = [CONS[l][1](v) for l in inner]
    cs_o = [CONS[l][1](v) for l in both if l not in inner]

    def setup_i(self):
        for n in "xyzc":
            setattr(self, n, getattr(v, n))
        return cs_i

    def setup_o(self):
        for n in "xyzc":
            setattr(self, n, getattr(v, n))
        self.part = type("Part", (Model,), {"setup": setup_i, "__doc__": listing(miss_i)})()
        return [self.part, cs_o]
    want = everything <= closure(have | set(listed), eqs)
    M = type("Whole", (Model,), {"setup": setup_o, "__doc__": listing(set(listed))})
    NamedVariables.reset_modelnumbers()
    try:
        M()
        got, msg = True, None
    except ValueError as e:
        got, msg = False, str(e)
    require(got == want, "parents: " + ("accepted" if got else "refused"), "part %s (lists %s), whole %s, listed %s: %s" % (
        [CONS[l][0] for l in inner], sorted(miss_i), [CONS[l][0] for l in both], listed, msg))


def vectors(ch):
    "an element is bounded by its own value and constraints, not by its vector's others"
    n = ch.pick((2, 3))
    valued = [i for i in range(n) if ch.flag()]
    upper = [i for i in range(n) if ch.flag()]     # bounded above by a constraint
    listed = [i for i in range(n) if ch.flag()]
    whole = len(listed) == n and ch.flag()
    how = ch.pick(("elements", "vector with gaps", "elements by name", "in a part") if valued else ("none",))
    doc = "About.\n\n    Upper Unbounded\n    ---------------\n    %s\n\n    " % ("v" if whole else ", ".join("v%d" % i for i in listed))
    if not listed:
        doc = "About.\n\n    Bounded by nothing else\n\n    "

    def setup(self):
        v = self.v = VectorVariable(n, "v")
        for i in range(n):
            setattr(self, "v%d" % i, v[i])
        cs = [v >= 1] + [v[i] <= 9 for i in upper]
        subs = {}
        if how == "elements":
            subs = {v[i]: 2.0 for i in valued}
        elif how == "vector with gaps":
            subs = {v: [2.0 if i in valued else np.nan for i in range(n)]}
        elif how == "elements by name":
            subs = {"M.v[%d]" % i: 2.0 for i in valued}
        elif how == "in a part":
            return [ConstraintSet(cs, {v[i]: 2.0 for i in valued})]
        return cs, subs
    M = type("M", (Model,), {"setup": setup, "__doc__": doc})
    NamedVariables.reset_modelnumbers()
    want = all((i in listed) != (i in valued or i in upper) for i in range(n))
    try:
        M()
        got, msg = True, None
    except ValueError as e:
        got, msg = False, str(e)
    require(got == want, "vectors: " + ("accepted" if got else "refused"), "values of %s (%s), bounds of %s, %s listed%s: %s" % (valued, how, upper, listed, " as a whole" if whole else "", msg))
    outcome("vectors %s" % ("accepted" if got else "refused"))


SETS = SETS_SMALL = None
QUICK = True


def run(ctx):
    global ROOTDIR, SETS, SETS_SMALL, QUICK
    QUICK = ctx.quick
    SETS = list(letter_sets(ctx.quick))
    SETS_SMALL = [(i,) for i in range(len(CONS)) if CONS[i][1] is not None]
    if not ctx.quick:
        SETS_SMALL += [s for s in itertools.combinations(range(len(CONS)), 2) if all(CONS[i][1] is not None for i in s)][::3]
    ROOTDIR = tempfile.mkdtemp(prefix="c27-")
    try:
        ctx.explore("declarations", single)
        ctx.explore("blocks", several)
        ctx.explore("malformed", malformed)
        ctx.explore("functions", functions)
        ctx.explore("bounds", bounds)
        ctx.explore("external", external)
        ctx.explore("layouts", layouts)
        ctx.explore("conditions", conditions)
        ctx.explore("refusals", refusals)
        ctx.explore("parents", parents)
        ctx.explore("vectors", vectors)
    finally:
        shutil.rmtree(ROOTDIR)
