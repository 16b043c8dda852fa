"""linear reasoning over path facts: Fourier-Motzkin elimination, bounded"""
from fractions import Fraction
from .facts import lin, sub, subterms


def rows(facts):
    """path facts as rows (coefs, k): sum coefs + k >= 0"""
    out = []
    for t, v in facts.items():
        if v is True or v is False or not isinstance(v, tuple):
            continue
        k, d = lin(t)
        lo, hi = v[0], v[1]
        if not all(isinstance(x, int) for x in d.values()) or not isinstance(k, int):
            continue
        if lo is not None:
            out.append((d, k - lo))
        if hi is not None:
            out.append(({x: -a for x, a in d.items()}, hi - k))
    return out


def natural(t):
    """terms that are never negative"""
    return t[0] in ('size', 'mend', 'find', 'strfind', 'ffno', 'ffo', 'flno', 'flo', 'rfind', 'count', 'distance') or t[0] == 'ix' and t[2] is not None and t[2] >= 0


def refutable(rs, cap=4000):
    """True when the rows have no rational solution"""
    rs = [({x: Fraction(a) for x, a in d.items() if a}, Fraction(k)) for d, k in rs]
    while True:
        for d, k in rs:
            if not d and k < 0:
                return True
        vs = {x for d, _ in rs for x in d}
        if not vs:
            return False
        best = None
        for x in vs:
            p = sum(1 for d, _ in rs if d.get(x, 0) > 0)
            n = sum(1 for d, _ in rs if d.get(x, 0) < 0)
            if best is None or p * n - p - n < best[0]:
                best = (p * n - p - n, x)
        x = best[1]
        pos = [r for r in rs if r[0].get(x, 0) > 0]
        neg = [r for r in rs if r[0].get(x, 0) < 0]
        rest = [r for r in rs if not r[0].get(x, 0)]
        seen = set()
        for d, k in pos:
            for e, j in neg:
                a, b = d[x], -e[x]
                n = {}
                for y in set(d) | set(e):
                    if y != x:
                        z = d.get(y, 0) / a + e.get(y, 0) / b
                        if z:
                            n[y] = z
                w = k / a + j / b
                key = (frozenset(n.items()), w)
                if key not in seen:
                    seen.add(key)
                    rest.append((n, w))
        if len(rest) > cap:
            return False
        rs = rest


def relevant(rs, d0):
    """rows connected with the terms of d0"""
    vs = set(d0)
    out = []
    left = list(rs)
    while True:
        new = [r for r in left if set(r[0]) & vs or not r[0]]
        if not new:
            return out
        left = [r for r in left if r not in new]
        out += new
        for d, _ in new:
            vs |= set(d)


def apart(facts, d):
    """rows (coefs, n) known not to be equal to n, over the terms of d"""
    out = []
    chars = {}
    for t, v in facts.items():
        if not isinstance(v, tuple) or len(v) != 3:
            continue
        k, e = lin(t)
        for n in v[2]:
            if isinstance(n, int) and set(e) <= set(d):
                out.append((e, n - k))
        if t[0] == 'at' and v[0] is not None and v[0] == v[1]:
            chars.setdefault(t[1], []).append((t[2], v[0]))
    for cs in chars.values():
        for i, (a, x) in enumerate(cs):
            for b, y in cs[:i]:
                if x != y:
                    k, e = lin(sub(a, b))
                    if e and set(e) <= set(d):
                        out.append((e, -k))
    return out


def at_least(facts, t, k=0, extra=(), depth=3):
    """the facts force t >= k"""
    if at_least_(facts, t, k, extra):
        return True
    ne = apart(facts, lin(t)[1])[:depth]
    if not ne:
        return False
    return split(facts, t, k, list(extra), ne)


def split(facts, t, k, extra, ne):
    if at_least_(facts, t, k, extra):
        return True
    if not ne:
        return False
    e, n = ne[0]
    return split(facts, t, k, extra + [({x: -a for x, a in e.items()}, n - 1)], ne[1:]) and split(facts, t, k, extra + [(e, -n - 1)], ne[1:])


def at_least_(facts, t, k=0, extra=()):
    c0, d = lin(t)
    rs = rows(facts) + list(extra)
    neg = ({x: -a for x, a in d.items()}, k - 1 - c0)
    rs = relevant(rs, d)
    for x in {x for r in rs + [neg] for x in r[0]}:
        if natural(x):
            rs.append(({x: 1}, 0))
    if not d:
        return c0 >= k
    return refutable(rs + [neg])


def possible(facts, t, k):
    """the facts leave room for t <= k"""
    return not at_least(facts, t, k + 1)
