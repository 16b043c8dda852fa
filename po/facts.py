"""Finite abstract domain used by the path-sensitive dataflow.

Terms are plain tuples.  A fact environment maps
  * boolean atoms (tuples)          -> True / False
  * numeric keys (terms or 'lin')   -> (lo, hi, frozenset(excluded))
No solver is involved: every query is answered by table lookup, interval
arithmetic and a handful of rewrite rules.
"""
NPOS = -1
T = ('c', True)
F = ('c', False)
INF = None


def c(v):
    return ('c', v)


def is_c(t):
    return isinstance(t, tuple) and t[0] == 'c'


# ---------------------------------------------------------------- linear terms
def lin(t):
    """-> (const, {term: coef})"""
    if t[0] == 'c':
        v = t[1]
        if v is True or v is False:
            v = int(v)
        if isinstance(v, int):
            return v, {}
        return 0, {t: 1}
    if t[0] == 'lin':
        return t[1], dict(t[2])
    return 0, {t: 1}


def mk_lin(k, d):
    d = {t: n for t, n in d.items() if n}
    if not d:
        return ('c', k)
    if k == 0 and len(d) == 1:
        (t, n), = d.items()
        if n == 1:
            return t
    return ('lin', k, tuple(sorted(d.items(), key=lambda x: repr(x[0]))))


def add(a, b, s=1):
    ka, da = lin(a)
    kb, db = lin(b)
    d = dict(da)
    for t, n in db.items():
        d[t] = d.get(t, 0) + s * n
    return mk_lin(ka + s * kb, d)


def sub(a, b):
    return add(a, b, -1)


def norm(d):
    """normalise a coefficient dict -> (key term, sign)"""
    items = sorted(((t, n) for t, n in d.items() if n), key=lambda x: repr(x[0]))
    sign = 1 if items[0][1] > 0 else -1
    return mk_lin(0, {t: n * sign for t, n in items}), sign


# ---------------------------------------------------------------- sequences
def size(v):
    k = v[0]
    if k == 'str':
        return c(len(v[1]))
    if k == 'seq':
        return c(len(v) - 1)
    if k == 'push':
        return add(size(v[1]), c(1))
    if k == 'sub':
        return sub(v[3], v[2])
    if k == 'cat':
        r = c(0)
        for p in v[1:]:
            r = add(r, size(p))
        return r
    if k == 'tail':
        return sub(size(v[1]), v[2])
    if k in ('lower', 'smap', 'vmap', 'setch'):
        return size(v[1])
    if k == 'mutel':
        return size(v[1])
    if k == 'chr':
        return c(1)
    if k == 'rep':
        return v[1]
    if k == 'map0':
        return c(0)
    if k == 'c_str':
        return size(v[1])
    return ('size', v)


def empty_of(v):
    """bool term: sequence v is empty"""
    return cmp_('==', size(v), c(0))


def at(v, i):
    """value of element i of sequence value v"""
    k = v[0]
    if k == 'str' and is_c(i) and isinstance(i[1], int):
        return c(ord(v[1][i[1]])) if 0 <= i[1] < len(v[1]) else c(0)
    if k == 'seq' and is_c(i):
        return v[1 + i[1]] if 0 <= i[1] < len(v) - 1 else ('at', v, i)
    if k == 'push':
        d = sub(i, size(v[1]))
        if d == c(0):
            return v[2]
        if is_c(d) and d[1] < 0:
            return at(v[1], i)
        return ('at', v, i)
    if k == 'sub':
        return at(v[1], add(v[2], i))
    if k == 'tail':
        return at(v[1], add(v[2], i))
    if k == 'chr' and i == c(0):
        return v[1]
    if k == 'lower':
        x = at(v[1], i)
        return c(ord(chr(x[1]).lower())) if is_c(x) and isinstance(x[1], int) and 0 <= x[1] < 128 else ('tolower', x)
    if k == 'cat':
        off = c(0)
        for p in v[1:]:
            s = size(p)
            d = sub(i, off)
            if is_c(d) and is_c(s):
                if 0 <= d[1] < s[1]:
                    return at(p, d)
                off = add(off, s)
                continue
            if is_c(d) and d[1] >= 0 and not is_c(s) and p is v[-1] and p[0] not in ('seq', 'push'):
                return at(p, d)
            if d == c(0):
                break
            # position relative to unknown-size part
            if is_c(d) and not is_c(s):
                break
            e = sub(d, s)
            if is_c(e) and e[1] >= 0:
                off = add(off, s)
                continue
            if is_c(e) and e[1] < 0 and p[0] in ('str', 'chr', 'sub', 'lower'):
                return at(p, d)
            break
        return ('at', v, i)
    if k == 'mutel':
        d = sub(i, v[2])
        if d == c(0) or (is_c(d) and d[1] != 0):
            return at(v[1], i)
        return ('at', v, i)
    return ('at', v, i)


def substr(s, lo, hi):
    if s[0] == 'sub':
        return substr(s[1], add(s[2], lo), add(s[2], hi))
    if lo == c(0) and hi == size(s):
        return s
    if s[0] == 'str' and is_c(lo) and is_c(hi):
        return ('str', s[1][lo[1]:hi[1]])
    if s[0] == 'cat' and is_c(size(s[1])):
        k0, d0 = lin(lo)
        if k0 >= size(s[1])[1] > 0 and all(n > 0 and x[0] in FINDS + ('size',) for x, n in d0.items()):
            return substr(cat(*s[2:]), sub(lo, size(s[1])), sub(hi, size(s[1])))
    if s[0] == 'cat' and is_c(lo):
        # leading parts of constant size that lie before the range, or hold all of it
        z = size(s[1])
        if is_c(z) and is_c(hi) and lo[1] <= hi[1] <= z[1]:
            return substr(s[1], lo, hi)
    if s[0] == 'cat' and is_c(lo) and hi == size(s):
        # drop a constant prefix
        n = lo[1]
        parts = list(s[1:])
        while parts and n > 0:
            z = size(parts[0])
            if not is_c(z):
                break
            if z[1] <= n:
                n -= z[1]
                parts.pop(0)
            elif parts[0][0] == 'str':
                parts[0] = ('str', parts[0][1][n:])
                n = 0
            else:
                break
        if n == 0:
            return cat(*parts)
    d = sub(hi, lo)
    if d == c(0):
        return ('str', '')
    return ('sub', s, lo, hi)


def cat(*parts):
    out = []
    for p in parts:
        ps = list(p[1:]) if p[0] == 'cat' else [p]
        for q in ps:
            if q[0] == 'chr' and is_c(q[1]) and isinstance(q[1][1], int) and 0 < q[1][1] < 256:
                q = ('str', chr(q[1][1]))
            if q == ('str', ''):
                continue
            if out and out[-1][0] == 'str' and q[0] == 'str':
                out[-1] = ('str', out[-1][1] + q[1])
                continue
            if out and q[0] == 'chr' and False:
                pass
            # adjacent sub-ranges of one base merge
            if out and out[-1][0] == 'sub' and q[0] == 'sub' and out[-1][1] == q[1] and out[-1][3] == q[2]:
                out[-1] = substr(q[1], out[-1][2], q[3])
                continue
            out.append(q)
    if not out:
        return ('str', '')
    if len(out) == 1:
        return out[0]
    return ('cat',) + tuple(out)


def lower(s):
    if s[0] == 'sub':
        return substr(lower(s[1]), s[2], s[3])
    if s[0] == 'str' and all(ord(x) < 128 for x in s[1]):
        return ('str', s[1].lower())
    if s[0] == 'cat':
        return cat(*[lower(x) if x[0] != 'chr' else ('chr', ('tolower', x[1])) for x in s[1:]])
    if s[0] == 'lower':
        return s
    return ('lower', s)


def isstr(v):
    return v[0] in ('str', 'sub', 'cat', 'lower', 'smap', 'chr', 'rep')


# ---------------------------------------------------------------- booleans
def neg(t):
    if t[0] == 'c':
        return ('c', not t[1])
    if t[0] == 'not':
        return t[1]
    return ('not', t)


def and_(*ts):
    out = []
    for t in ts:
        if t == F:
            return F
        if t == T:
            continue
        out.append(t)
    if not out:
        return T
    return out[0] if len(out) == 1 else ('and',) + tuple(out)


def or_(*ts):
    return neg(and_(*[neg(t) for t in ts]))


def bits_of(m):
    r = []
    b = 1
    while b <= m:
        if m & b:
            r.append(b)
        b <<= 1
    return r


def has_bits(x, mask):
    """bool term: (x & mask) != 0"""
    if is_c(x):
        return ('c', bool(int(x[1]) & mask))
    if x[0] == 'bor':
        return or_(*[has_bits(p, mask) for p in x[1:]])
    if x[0] == 'band' and is_c(x[2]):
        return has_bits(x[1], mask & int(x[2][1]))
    if x[0] == 'ite':
        return None
    return or_(*[('bit', x, b) for b in bits_of(mask)])


def prefix(s, p):
    """bool term: s starts with p"""
    if p == ('str', '') or s == p:
        return T
    if s[0] == 'str' and p[0] == 'str':
        return ('c', s[1].startswith(p[1]))
    if p[0] == 'str' and len(p[1]) == 1:
        return and_(cmp_('>=', size(s), c(1)), cmp_('==', at(s, c(0)), c(ord(p[1]))))
    return ('prefix', s, p)


def prefix_kin(facts, t):
    """facts about the same prefix of beginnings of the same text"""
    for f in facts:
        if f[0] == 'prefix' and f[2] == t[2] and f[1][0] == 'sub' and f[1][1] == t[1] and f[1][2] == c(0):
            yield f[1], f[2], f[1][3]


def eq(a, b):
    """equality of two non-numeric values"""
    if a == b:
        return T
    if a[0] == 'c_str':
        return eq(a[1], b)
    if b[0] == 'c_str':
        return eq(a, b[1])
    if a[0] == 'str' and b[0] == 'str':
        return ('c', a[1] == b[1])
    for x, y in ((a, b), (b, a)):
        if y == ('str', ''):
            return empty_of(x)
        if y[0] == 'null':
            return isnull(x)
        # s.substr(0, |p|) == p
        if x[0] == 'sub' and x[2] == c(0) and x[3] == size(y):
            return prefix(x[1], y)
        # x == cat(str, rest) where both begin with constants
        if y[0] == 'str' and x[0] == 'cat' and x[1][0] == 'str':
            if not y[1].startswith(x[1][1]):
                return F
            return eq(cat(*x[2:]), ('str', y[1][len(x[1][1]):]))
    return ('eq',) + tuple(sorted((a, b), key=repr))


def isnull(p):
    if p[0] == 'null':
        return T
    if p[0] in ('ptr', 'heapptr', 'fn', 'bind', 'lam', 'str', 'c_str'):
        return F
    if p[0] == 'c':
        return ('c', not p[1])
    if num_bool(p):
        return neg(p)
    return ('isnull', p)


def tobool(t):
    if t[0] in ('c',):
        return ('c', bool(t[1]))
    if t[0] == 'null':
        return F
    if t[0] in ('not', 'and', 'eq', 'rel', 'bit', 'isnull', 'prefix', 'has', 'found', 'anyempty', 'b'):
        return t
    if t[0] == 'band' and is_c(t[2]):
        r = has_bits(t[1], int(t[2][1]))
        if r is not None:
            return r
    if t[0] in ('ptr', 'heapptr', 'str', 'c_str', 'bind', 'fn', 'lam'):
        return T
    if t[0] in ('lin', 'size', 'count', 'ix'):
        return neg(cmp_('==', t, c(0)))
    return ('b', t)


def num_bool(t):
    """is t a boolean-ish term?"""
    return t[0] in ('not', 'and', 'eq', 'rel', 'bit', 'isnull', 'prefix', 'has', 'found', 'anyempty', 'b') or \
        (t[0] == 'c' and isinstance(t[1], bool))


FINDS = ('find', 'rfind', 'ffo', 'ffno', 'flo', 'flno', 'findx')


TWIN = {'ffno': 'flno', 'flno': 'ffno', 'ffo': 'flo', 'flo': 'ffo'}


def size_like(p):
    """p if p is the symbolic size of something (an end position)"""
    if p[0] == 'size':
        return p
    if p[0] == 'lin' and any(t[0] == 'size' for t, n in p[2]):
        return p
    return None


def cmp_(op, a, b):
    """boolean term for `a op b`"""
    if op == '!=':
        return neg(cmp_('==', a, b))
    if op == '>':
        return neg(cmp_('<=', a, b))
    if op == '<':
        return neg(cmp_('>=', a, b))
    if op == '==':
        for x, y in ((a, b), (b, a)):
            if x[0] == 'tolower' and is_c(y) and isinstance(y[1], int) and 0 < y[1] < 128 and not chr(y[1]).isalpha():
                return cmp_('==', x[1], y)
    # booleans compared with booleans / constants
    if op == '==':
        for x, y in ((a, b), (b, a)):
            if num_bool(x) and y[0] == 'c' and y[1] in (0, 1, True, False):
                return x if y[1] else neg(x)
    if num_bool(a) and a[0] != 'c' and is_c(b):
        if op == '<=':
            return T if b[1] >= 1 else neg(a) if b[1] == 0 else F
        if op == '>=':
            return T if b[1] <= 0 else a if b[1] == 1 else F
    if num_bool(b) and b[0] != 'c' and is_c(a):
        if op == '>=':
            return T if a[1] >= 1 else neg(b) if a[1] == 0 else F
        if op == '<=':
            return T if a[1] <= 0 else b if a[1] == 1 else F
    if op == '==':
        for x, y in ((a, b), (b, a)):
            if x[0] == 'band' and is_c(x[2]) and is_c(y):
                m = int(x[2][1])
                if y[1] == 0:
                    r = has_bits(x[1], m)
                    if r is not None:
                        return neg(r)
                elif y[1] == m:
                    rs = [has_bits(x[1], bt) for bt in bits_of(m)]
                    if None not in rs:
                        return and_(*rs)
            if x[0] in ('null',) or y[0] == 'null':
                return eq(a, b)
    # iterators
    if a[0] == 'it' and b[0] == 'it':
        if a[1] == b[1]:
            pa, pb = a[2], b[2]
            if op == '==':
                for x, y in ((pa, pb), (pb, pa)):
                    if x[0] == 'key' and y[0] not in ('key', 'lb', 'ub'):
                        return neg(('has', x[1], x[2]))
            # positions only move from begin towards end: `!= end` is `< end`
            if op == '==' and pb == size_like(pb):
                return cmp_('>=', pa, pb)
            if op == '==' and pa == size_like(pa):
                return cmp_('>=', pb, pa)
            return cmp_(op, pa, pb)
        return ('b', ('itcmp', op, a, b))
    if a[0] in ('ptr', 'heapptr', 'deref') or b[0] in ('ptr', 'heapptr'):
        if op == '==':
            return eq(a, b)
    if op == '==' and (isstr(a) or isstr(b)):
        return eq(a, b)
    # find results against npos
    for x, y in ((a, b), (b, a)):
        if x[0] == 'lin' and y == ('c', NPOS):
            # offset of a search inside the rest of a concatenation (find_term)
            k0, d0 = lin(x)
            if k0 != 0 and len(d0) == 1:
                (z0, n0), = d0.items()
                if n0 == 1 and z0[0] in FINDS:
                    return cmp_(op, z0, y) if x is a else cmp_(op, y, z0)
        if x[0] in FINDS and y == ('c', NPOS):
            if op == '==':
                return neg(('found', x))
            if op == '>=':
                return neg(('found', x)) if x is a else T
            if op == '<=':
                return T if x is a else neg(('found', x))
        if x[0] == 'find' and y == c(0) and op == '==':
            return prefix(x[1], x[2])
        if x[0] == 'rfind' and y == c(0) and op == '==' and len(x) > 3 and x[3] == c(0):
            return prefix(x[1], x[2])
        if x[0] == 'strcompare' and y == c(0) and op == '==':
            return eq(x[1], x[2])
    ka, da = lin(a)
    kb, db = lin(b)
    d = dict(da)
    for t, n in db.items():
        d[t] = d.get(t, 0) - n
    d = {t: n for t, n in d.items() if n}
    k = kb - ka                      # sum(d) op k
    if not d:
        r = {'==': 0 == k, '<=': 0 <= k, '>=': 0 >= k}[op]
        return ('c', r)
    for t in d:
        if t[0] == 'c':            # non numeric constants (floats)
            return ('b', ('opaquecmp', op, a, b))
    key, s = norm(d)
    if s < 0:
        k = -k
        op = {'==': '==', '<=': '>=', '>=': '<='}[op]
    # coefficients all equal to n>1: leave as is
    if op == '==':
        return ('rel', key, '==', k)
    if op == '>=':
        return neg(('rel', key, '<=', k - 1))
    return ('rel', key, '<=', k)


# ---------------------------------------------------------------- environments
FULL = (None, None, frozenset())


def imax(a, b):
    return b if a is None else a if b is None else max(a, b)


def imin(a, b):
    return b if a is None else a if b is None else min(a, b)


def tighten(iv):
    lo, hi, ne = iv
    while lo is not None and lo in ne:
        lo += 1
    while hi is not None and hi in ne:
        hi -= 1
    if lo is not None and hi is not None and lo > hi:
        return None
    return (lo, hi, frozenset(x for x in ne if (lo is None or x > lo) and (hi is None or x < hi)))


def base_ival(t):
    k = t[0]
    if k in ('size', 'find', 'rfind', 'ffo', 'ffno', 'flo', 'flno', 'count'):
        return (0, None, frozenset())
    if k == 'ix':
        return (t[2], t[3], frozenset()) if len(t) > 3 else (0, None, frozenset())
    return FULL


def ival(facts, key, deep=True):
    if key[0] == 'c':
        v = int(key[1]) if isinstance(key[1], (int, bool)) else None
        return (v, v, frozenset()) if v is not None else FULL
    got = facts.get(key)
    if key[0] != 'lin':
        b = base_ival(key)
        if got is None or got is True or got is False:
            return b
        return (imax(got[0], b[0]), imin(got[1], b[1]), got[2])
    lo, hi = key[1], key[1]
    for t, n in key[2]:
        l, h, _ = ival(facts, t)
        if n < 0:
            l, h = h, l
        lo = None if lo is None or l is None else lo + n * l
        hi = None if hi is None or h is None else hi + n * h
    ne = frozenset()
    k0, d = lin(key)
    nk, s = norm(d)
    g = facts.get(nk)
    if g is not None and nk[0] == 'lin':
        gl, gh, gn = g
        if s < 0:
            gl, gh = (None if gh is None else -gh), (None if gl is None else -gl)
            gn = frozenset(-x for x in gn)
        lo = imax(lo, None if gl is None else gl + k0)
        hi = imin(hi, None if gh is None else gh + k0)
        ne = frozenset(x + k0 for x in gn)
    if deep and (lo is None or hi is None or True):
        # one step of combination with a stored linear fact
        for fk, fv in facts.items():
            if fk[0] != 'lin' or not isinstance(fv, tuple) or fk == nk:
                continue
            dk = dict(fk[2])
            if not any(t in d for t in dk):
                continue
            for sg in (1, -1):
                rem = dict(d)
                for t, n in dk.items():
                    rem[t] = rem.get(t, 0) - sg * n
                rem = {t: n for t, n in rem.items() if n}
                if len(rem) >= len(d) and len(rem) > 1:
                    continue
                l, h, _ = ival(facts, mk_lin(k0, rem), False) if rem else (k0, k0, frozenset())
                fl, fh = fv[0], fv[1]
                if sg < 0:
                    fl, fh = (None if fh is None else -fh), (None if fl is None else -fl)
                if l is not None and fl is not None:
                    lo = imax(lo, l + fl)
                if h is not None and fh is not None:
                    hi = imin(hi, h + fh)
    return (lo, hi, ne)


def truth(facts, t):
    """True / False / None for boolean term t under facts"""
    k = t[0]
    if k == 'c':
        return bool(t[1])
    if k == 'not':
        r = truth(facts, t[1])
        return None if r is None else not r
    if k == 'and':
        rs = [truth(facts, x) for x in t[1:]]
        if False in rs:
            return False
        return True if all(r is True for r in rs) else None
    if k == 'rel':
        iv = ival(facts, t[1])
        lo, hi, ne = iv
        n = t[3]
        if n == 0 and t[2] == '==':
            g = facts.get(('b', t[1]))
            if g is not None:
                return not g
        if t[2] == '==' and t[1][0] == 'at' and isinstance(n, int) and 0 < n < 128 and facts.get(('found', ('find', t[1][1], ('str', chr(n)), c(0)))) is False:
            d = ival(facts, sub(t[1][2], size(t[1][1])))
            if d[1] is not None and d[1] < 0:
                return False
        if t[2] == '<=':
            if hi is not None and hi <= n:
                return True
            if lo is not None and lo > n:
                return False
            return None
        if lo is not None and lo == hi == n:
            return True
        if n in ne or (lo is not None and n < lo) or (hi is not None and n > hi):
            return False
        return None
    g = facts.get(t)
    if g is True or g is False:
        return g
    if k == 'eq':
        if t[1][0] != 'str' and t[2][0] != 'str':
            lo, hi, ne = ival(facts, sub(size(t[1]), size(t[2])))
            if (lo is not None and lo > 0) or (hi is not None and hi < 0) or 0 in ne:
                return False
        for x, y in ((t[1], t[2]), (t[2], t[1])):
            if y[0] == 'str':
                for f, v in facts.items():
                    if v is True and f[0] == 'eq' and x in f[1:]:
                        o = f[2] if f[1] == x else f[1]
                        if o[0] == 'str':
                            return o == y
                lo, hi, ne = ival(facts, size(x))
                n = len(y[1])
                if n in ne or (lo is not None and n < lo) or (hi is not None and n > hi):
                    return False
                # characters known to differ
                for i, ch in enumerate(y[1]):
                    av = at(x, c(i))
                    if av[0] == 'c' and av[1] != ord(ch):
                        return False
                    if truth(facts, ('rel', av, '==', ord(ch))) is False and av[0] != 'c':
                        return False
    if k == 'prefix':
        for x, p, n in prefix_kin(facts, t):
            g = facts.get(('prefix', x, p))
            if g is True or (g is False and truth(facts, cmp_('<=', size(p), n)) is True):
                return g
        if t[1][0] == 'sub' and t[1][2] == c(0):
            g = facts.get(('prefix', t[1][1], t[2]))
            if g is False or (g is True and truth(facts, cmp_('<=', size(t[2]), t[1][3])) is True):
                return g
        if truth(facts, ('eq',) + tuple(sorted((t[1], t[2]), key=repr))) is True:
            return True
        lo, hi, ne = ival(facts, sub(size(t[1]), size(t[2])))
        if hi is not None and hi < 0:
            return False
    if k == 'found':
        # found(find(s, ch, from)) false when s is empty
        s = t[1][1]
        if t[1][0] in ('find', 'rfind') and ival(facts, size(s))[1] == 0 and t[1][2] != ('str', ''):
            return False
        if t[1][0] == 'find' and t[1][2] != ('str', ''):
            lo, hi, ne = ival(facts, sub(t[1], size(s)))
            if hi is not None and hi <= 0:
                return True
            if lo is not None and lo >= 0:
                return False
        # a position known to hold the searched character
        if t[1][0] == 'find' and t[1][2][0] == 'str' and len(t[1][2][1]) == 1 and t[1][3] == c(0):
            for fk, fv in facts.items():
                if fk[0] == 'at' and fk[1] == s and isinstance(fv, tuple) and fv[0] == fv[1] == ord(t[1][2][1]):
                    d = ival(facts, sub(fk[2], size(s)))
                    if d[1] is not None and d[1] < 0:
                        return True
    if k == 'b':
        iv = facts.get(t[1])
        if isinstance(iv, tuple):
            lo, hi, ne = iv
            if 0 in ne or (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return True
            if lo == hi == 0 and lo is not None:
                return False
    return None


def assume(facts, t, want=True):
    """list of refined fact dicts (empty = infeasible)"""
    k = t[0]
    if k == 'c':
        return [facts] if bool(t[1]) == want else []
    if k == 'not':
        return assume(facts, t[1], not want)
    if k == 'and':
        if want:
            cur = [facts]
            for x in t[1:]:
                cur = [g for f in cur for g in assume(f, x, True)]
            return cur
        out = []
        cur = [facts]
        for x in t[1:]:
            for f in cur:
                out += assume(f, x, False)
            cur = [g for f in cur for g in assume(f, x, True)]
        return out
    r = truth(facts, t)
    if r is not None:
        return [facts] if r == want else []
    f = dict(facts)
    if k == 'rel':
        key, op, n = t[1], t[2], t[3]
        lo, hi, ne = ival(f, key)
        if op == '<=':
            iv = (lo, imin(hi, n), ne) if want else (imax(lo, n + 1), hi, ne)
        elif want:
            iv = (n, n, frozenset())
        else:
            iv = (lo, hi, ne | {n})
        iv = tighten(iv)
        if iv is None:
            return []
        f[key] = iv
        # propagate a sum being pinned to its lower bound:  x+y<=0, x,y>=0
        if key[0] == 'lin' and iv[1] is not None:
            for t2, n2 in key[2]:
                rest = ival(f, mk_lin(key[1], {a: b for a, b in key[2] if a != t2}), False)
                if n2 == 1 and rest[0] is not None:
                    l2, h2, e2 = ival(f, t2)
                    nh = imin(h2, iv[1] - rest[0])
                    w = tighten((l2, nh, e2))
                    if w is None:
                        return []
                    f[t2] = w
        # a search result compared with the end of the text says whether anything was found
        for a in [x for x in ([y for y, _ in key[2]] if key[0] == 'lin' else [key]) if x[0] in FINDS[:6]]:
            if ('found', a) not in f and a[2] != ('str', ''):
                lo, hi, _ = ival(f, sub(a, size(a[1])))
                w = True if hi is not None and hi <= 0 else False if lo is not None and lo >= 0 else None
                if w is not None:
                    fs = assume(f, ('found', a), w)
                    if not fs:
                        return []
                    f = dict(fs[0])
        return [f]
    f[t] = want
    if k == 'eq' and want:
        for x, y in ((t[1], t[2]), (t[2], t[1])):
            if y[0] == 'str' and x[0] != 'str':
                z = size(x)
                if not is_c(z):
                    fs = assume(f, cmp_('==', z, c(len(y[1]))), True)
                    if not fs:
                        return []
                    f = dict(fs[0])
    if k == 'prefix' and want:
        fs = assume(f, cmp_('>=', size(t[1]), size(t[2])), True)
        if not fs:
            return []
        f = fs[0]
    if k == 'b' and isinstance(t[1], tuple) and facts.get(t[1]) is not None:
        fs = assume(f, ('rel', t[1], '==', 0), not want)
        if not fs:
            return []
        f = fs[0]
    if k == 'found' and not want and t[1][0] == 'find' and t[1][2] != ('str', ''):
        fs = assume(f, cmp_('>', t[1], size(t[1][1])), True)
        if not fs:
            return []
        f = fs[0]
    if k == 'found' and want:
        # position < size
        fs = assume(f, cmp_('<', t[1], size(t[1][1])), True)
        if not fs:
            return []
        f = fs[0]
    if k == 'found' and TWIN.get(t[1][0]) and t[1][3] == (c(0) if t[1][0] in ('ffno', 'ffo') else c(NPOS)):
        # the first such character exists exactly when the last one does, and is not after it
        o = (TWIN[t[1][0]], t[1][1], t[1][2], c(NPOS) if t[1][0] in ('ffno', 'ffo') else c(0))
        if ('found', o) not in f:
            fs = assume(f, ('found', o), want)
            if fs and want:
                a, b = (t[1], o) if t[1][0] in ('ffno', 'ffo') else (o, t[1])
                fs = assume(fs[0], cmp_('<=', a, b), True)
            if not fs:
                return []
            f = fs[0]
    return [f]


def compatible(facts, conds):
    """facts are consistent with every (term) in conds"""
    cur = [facts]
    for t in conds:
        cur = [g for f in cur for g in assume(f, t, True)]
        if not cur:
            return False
    return True


def implies(facts, t):
    return all(truth(g, F) for g in [{}]) if False else not assume(facts, t, False)


def contains(t, sub_):
    if t == sub_:
        return True
    if isinstance(t, tuple):
        return any(contains(x, sub_) for x in t if isinstance(x, tuple))
    return False


def subterms(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)


def show(t, depth=0):
    """compact human-readable rendering of a term"""
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return '()'
    k = t[0]
    if k == 'c':
        return repr(t[1])
    if k == 'str':
        return '"%s"' % t[1]
    if k == 'in':
        return show(t[1])
    if k == 'P':
        return 'param:%s' % (t[2] if len(t) > 2 else t[1])
    if k == 'this':
        return 'this'
    if k == 'fld':
        return '%s.%s' % (show(t[1]), t[2])
    if k == '.':
        return '%s.%s' % (show(t[1]), t[2])
    if k in ('at', 'elem'):
        return '%s[%s]' % (show(t[1]), show(t[2]))
    if k == 'L':
        return t[3]
    if k == 'ix':
        return 'i'
    if k == 'size':
        return '|%s|' % show(t[1])
    if k == 'deref':
        return '*%s' % show(t[1])
    if k == 'lin':
        r = []
        for a, n in t[2]:
            r.append(('+' if n > 0 else '-') + ('' if abs(n) == 1 else str(abs(n)) + '*') + show(a))
        s = ''.join(r).lstrip('+')
        return s + ('%+d' % t[1] if t[1] else '')
    if k == 'rel':
        return '(%s %s %s)' % (show(t[1]), t[2], t[3])
    if k == 'not':
        return '!' + show(t[1])
    if k == 'call':
        return '%s(%s)' % (t[1].split('::')[-1], ', '.join(show(x) for x in t[2:] if x is not None))
    if k == 'sub':
        return '%s[%s:%s]' % (show(t[1]), show(t[2]), show(t[3]))
    return '%s(%s)' % (k, ', '.join(show(x) for x in t[1:]))


def show_facts(f):
    out = []
    for k, v in f.items():
        if v is True:
            out.append(show(k))
        elif v is False:
            out.append('!' + show(k))
        else:
            lo, hi, ne = v
            if lo == hi and lo is not None:
                out.append('%s==%s' % (show(k), lo))
            else:
                s = show(k)
                if lo is not None:
                    s = '%s<=%s' % (lo, s)
                if hi is not None:
                    s = '%s<=%s' % (s, hi)
                if ne:
                    s += ' not in {%s}' % ','.join(map(str, sorted(ne)))
                if lo is None and hi is None and not ne:
                    continue
                out.append(s)
    return out
