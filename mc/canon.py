"""Canonical form of an object graph: contents, aliasing of mutable parts, and dtypes, independent of attribute names' meaning."""
import numpy as np


def canon(*roots, skip=()):
    ids, keep = {}, []

    def go(o):
        if o is None or isinstance(o, (bool, int, float, str, bytes, type)):
            return repr(o)
        if hasattr(o, "eqstr"):
            return "K(%s)" % o.eqstr
        if isinstance(o, (tuple, frozenset)):
            parts = [go(e) for e in o]
            return "T(%s)" % ",".join(sorted(parts) if isinstance(o, frozenset) else parts)
        if isinstance(o, np.generic):
            return "%s:%r" % (o.dtype, o.item())
        if callable(o) and not hasattr(o, "__dict__"):
            return "fn"
        if id(o) in ids:
            return "#%d" % ids[id(o)]
        ids[id(o)] = len(ids)
        keep.append(o)
        n = "#%d" % ids[id(o)]
        if isinstance(o, np.ndarray):
            return "%s=A(%s%s %s)" % (n, o.dtype, o.shape, ",".join(go(e) for e in o.ravel().tolist()))
        if isinstance(o, dict):
            items = sorted((go_key(k), k) for k in dict.keys(o))
            body = ",".join("%s:%s" % (ks, go(dict.__getitem__(o, k))) for ks, k in items)
            return "%s=D(%s)%s" % (n, body, attrs(o))
        if isinstance(o, set):
            return "%s=S(%s)%s" % (n, ",".join(sorted(go_key(e) for e in o)), attrs(o))
        if isinstance(o, list):
            return "%s=L(%s)%s" % (n, ",".join(go(e) for e in o), attrs(o))
        if callable(o):
            return "fn:" + getattr(o, "__name__", "?")
        return "%s=%s%s" % (n, type(o).__name__, attrs(o) or repr(o))

    def go_key(k):
        return "K(%s)" % k.eqstr if hasattr(k, "eqstr") else repr(k)

    def attrs(o):
        d = getattr(o, "__dict__", None)
        if not d:
            return ""
        return "{%s}" % ",".join("%s=%s" % (a, go(d[a])) for a in sorted(d) if a not in skip)
    return "|".join(go(r) for r in roots)
