"""memory safety: every access stays inside its container, nothing null is followed, no reference outlives what it names"""
import os
from .dsl import *
from .linear import at_least
from .program import walk
from .rules_conv import own

OPQ = ['options_description::find_nothrow', 'detail::cmdline::check_style', 'detail::cmdline::get_canonical_option_prefix',
       'detail::cmdline::run', 'detail::cmdline::finish_option', '(anon)::format_paragraph', 'store', 'detail::common_config_file_iterator::get',
       'detail::cmdline::parse_short_option', 'error_with_option_name::substitute_placeholders', 'option_description::match']

# what the constructors and the documented use of the library guarantee: (member, why)
HELD = {
    'm_value_semantic': 'an option is declared with a semantic',
    'm_options': 'only options are added to a description',
    'groups': 'only descriptions are added to a description',
    'm_desc': 'cmdline::run refuses to start without a description',
    'description': 'store refuses options without a description',
    'is': 'a config file iterator is made from a stream',
    'm_environment': 'an environment iterator that is not at its end is made from an environment',
    'owner': 'easy_init is made by the description it adds to',
}


def local(f):
    return f['f'].startswith('include/') or f['f'].startswith('src/')


def base_member(t):
    """member a pointer value was read from"""
    while isinstance(t, tuple) and t:
        if t[0] == 'in' or t[0] == 'phi':
            t = t[1] if t[0] == 'in' else t[2]
        elif t[0] in ('fld',):
            return t[-1]
        elif t[0] == '.':
            return t[2]
        elif t[0] in ('at', 'elem'):
            t = t[1]
        elif t[0] in ('deref',):
            return None
        else:
            return None
    return None


def site(e):
    return (e.file, e.line, e.fn, e.what)


# ------------------------------------------------------------------ inductive facts about loop-carried positions
def levels(v):
    """id -> loop events of the view"""
    out = {}
    todo = [list(s.evs) for s in v.segs()]
    seen = set()
    while todo:
        for e in todo.pop():
            if e.k == 'loop' and id(e) not in seen:
                seen.add(id(e))
                out.setdefault(e.id, []).append(e)
                todo += [list(it.evs) for it in e.iters]
    return out


def pos(x):
    return x[2] if isinstance(x, tuple) and x and x[0] == 'it' else x


def replaced(x, p, b):
    """linear x with b for p"""
    a = lin(x)[1].get(p, 0)
    for _ in range(abs(a) if isinstance(a, int) else 0):
        x = add(sub(x, p), b) if a > 0 else sub(add(x, p), b)
    return x


def root_(p):
    return p[1] if p[0] == 'size' else p


def sz(x):
    """number of elements; changing an element in place does not change it"""
    while x[0] == 'mutel':
        x = x[1]
    return size(x)


SEARCH = ('find', 'ffno', 'ffo', 'flno', 'flo', 'rfind')


class Induct(object):
    def __init__(self, v):
        self.v = v
        self.lv = levels(v)
        self.memo = {}
        self.bound = None
        self.rel = None
        self.cur = None
        self.sees, self.within = {}, {}
        for s in v.segs():
            self.reach(s.evs, frozenset(), frozenset())

    def reach(self, evs, seen, ins):
        for e in evs:
            self.sees[id(e)] = self.sees.get(id(e), frozenset()) | seen
            self.within[id(e)] = ins
            if e.k == 'loop':
                seen = seen | {id(e)}
                for it in e.iters:
                    self.reach(it.evs, seen, ins | {e.id})

    def levs(self, p):
        """loops that carry p; of those only the ones on the way to the event at hand"""
        out = []
        for l in self.lv.get(p[1], []):
            h = l.havoc.get(p[2])
            if h is not None and pos(h) == p:
                out.append(l)
        if self.cur is not None:
            near = [l for l in out if id(l) in self.sees.get(id(self.cur), ())]
            return near or out
        return out

    def firsts(self, l):
        """flags that are true in the first iteration only"""
        if id(l) not in self.memo:
            out = []
            for loc, h in l.havoc.items():
                if l.base0.get(loc) == c(True) and h and h[0] == 'phi':
                    ends = [(it, self.v.eng.rd(it.st, loc)) for it in l.iters if it.kind == 'back' and it.st is not None]
                    if ends and all(x == c(False) or x == h and it.facts.get(('b', h)) is False for it, x in ends):
                        out.append(h)
            self.memo[id(l)] = out
        return self.memo[id(l)]

    def ends(self, l, loc):
        for it in l.iters:
            if it.kind == 'back':
                x = self.v.eng.rd(it.st, loc) if it.st is not None else None
                x = pos(x)
                if x is not None and any(it.facts.get(('b', h)) is True for h in self.firsts(l)):
                    for k, h in l.havoc.items():
                        if pos(h) and pos(h)[0] == 'phi' and pos(l.base0.get(k)) is not None:
                            x = replaced(x, pos(h), pos(l.base0[k]))
                yield it, x

    def solve(self):
        """greatest set of lower bounds on loop-carried numbers that every iteration keeps"""
        cand = set()
        for ls in self.lv.values():
            for l in ls:
                for loc, h in l.havoc.items():
                    p = pos(h)
                    if isinstance(p, tuple) and p and p[0] == 'phi' and p[2] == loc and isinstance(loc, tuple) and loc and loc[0] not in ('io', 'unk'):
                        cand |= {(p, 1), (p, 0), (('size', p), 1)}
        cand = {x for x in cand if all(pos(l.base0.get(root_(x[0])[2])) is not None for l in self.levs(root_(x[0])))}
        self.bound = cand
        while True:
            bad = {(p, k) for p, k in self.bound if not all(self.keeps(l, p, k) for l in self.levs(root_(p)))}
            if not bad:
                return
            self.bound = self.bound - bad

    def keeps(self, l, p, k):
        q = root_(p)
        f = sz if p is not q else lambda x: x
        if not self.low(l.facts, f(pos(l.base0[q[2]])), k):
            return False
        return all(x is not None and (x == q or self.low(it.facts, f(x), k)) for it, x in self.ends(l, q[2]))

    def above(self, p, k):
        """loop-carried p never drops below k"""
        if self.bound is None:
            cur, self.cur = self.cur, None
            self.solve()
            self.cur = cur
        return (p, k) in self.bound

    def order(self):
        """greatest set of pairs (a, b), a <= b, that hold before each loop and that every iteration keeps"""
        if self.rel is not None:
            return self.rel
        self.above(None, 0)
        cur, self.cur = self.cur, None
        cand = set()
        for ls in self.lv.values():
            for l in ls:
                ps = {pos(h) for loc, h in l.havoc.items() if isinstance(pos(h), tuple) and pos(h) and pos(h)[0] == 'phi' and pos(h)[2] == loc and pos(l.base0.get(loc)) is not None}
                for p in ps:
                    b = pos(l.base0[p[2]])
                    others = {x for x in lin(b)[1]}
                    for it in l.iters:
                        for k in it.facts:
                            if k[0] == 'rel' and contains(k, p):
                                others |= set(lin(k[1])[1])
                    for x in others:
                        if x != p and x[0] in ('size', 'phi', 'in', 'ix') and p in {y for z in [t for it in l.iters for t in it.facts if t[0] == 'rel'] for y in lin(z[1])[1]}:
                            cand |= {(p, x), (x, p)}
        self.rel = cand
        while cand:
            bad = {(a, b) for a, b in self.rel if not self.stays(a, b)}
            if not bad:
                break
            self.rel = self.rel - bad
        self.cur = cur
        return self.rel

    def stays(self, a, b):
        ls = {id(l): l for t in (a, b) for l in self.levs(root_(t)) if root_(t)[0] == 'phi'}
        for l in ls.values():
            mine = {x for x in (a, b) if root_(x)[0] == 'phi' and pos(l.havoc.get(root_(x)[2])) == root_(x)}

            def at_(x, val):
                if x not in mine:
                    return x
                y = val(root_(x)[2])
                return None if y is None else sz(y) if x[0] == 'size' else y
            x, y = at_(a, lambda loc: pos(l.base0.get(loc))), at_(b, lambda loc: pos(l.base0.get(loc)))
            if x is None or y is None or x != y and not self.low(l.facts, sub(y, x), 0):
                return False
            for it in l.iters:
                if it.kind != 'back':
                    continue
                e = lambda loc: pos(self.v.eng.rd(it.st, loc)) if it.st is not None else None
                x, y = at_(a, e), at_(b, e)
                if x is None or y is None or x != y and not self.low(it.facts, sub(y, x), 0):
                    return False
        return bool(ls)

    def same_size(self, q):
        """size before the loops of a container whose elements alone change in them"""
        bs = set()
        for l in self.levs(q):
            b = pos(l.base0.get(q[2]))
            if b is None or any(x is None or sz(x) != size(q) for it, x in self.ends(l, q[2])):
                return None
            bs.add(sz(b))
        return bs.pop() if len(bs) == 1 else None

    def rows(self, terms):
        out = []
        for x in {y for t in terms for y in subterms(t) if y and (y[0] == 'phi' or y[0] == 'size' and y[1][0] == 'phi')}:
            for k in (1, 0):
                if self.above(x, k):
                    out.append(({x: 1}, -k))
                    break
            if x[0] == 'size':
                b = self.same_size(x[1])
                if b is not None and b != x:
                    k, d = lin(sub(x, b))
                    out += [(d, k), ({y: -n for y, n in d.items()}, -k)]
        have = {y for t in terms for y in subterms(t) if y and y[0] in ('phi', 'size')}
        for a, b in self.rel or ():
            if a in have or b in have:
                out.append(({b: 1, a: -1}, 0))
        return out

    def low(self, facts, t, k=0):
        ex = found_rows(facts, t) + self.rows([t] + list(facts))
        return at_least(facts, t, k, ex)

    def inside(self, p, cval):
        """p is a position found in the text it is used on (or npos)"""
        if p[0] in SEARCH:
            return p[1] == cval
        if p[0] != 'phi' or cval[0] != 'phi':
            return False
        ls = self.levs(p)
        if not ls or cval[1] != p[1]:
            return False
        for l in ls:
            b, cb = l.base0.get(p[2]), l.base0.get(cval[2])
            if b is None or not (b[0] in SEARCH and b[1] == cb):
                return False
            for it, x in self.ends(l, p[2]):
                cx = self.v.eng.rd(it.st, cval[2]) if it.st is not None else None
                if x is None or cx is None or not (x == p and cx == cval or x[0] in SEARCH and x[1] == cx):
                    return False
        return True


NPOS_ = (1 << 64) - 1


def found_rows(facts, t):
    """bounds of search results known to have succeeded"""
    out = []
    for x in {y for z in [t] + list(facts) for y in subterms(z) if y and y[0] in SEARCH}:
        if truth(facts, ('found', x)) is True:
            n = size(x[2]) if x[0] in ('find', 'rfind') and isinstance(x[2], tuple) and x[2][0] in ('str', 'cat', 'in') else c(1)
            k, d = lin(sub(sub(size(x[1]), x), n))
            out.append((d, k))
            if x[0] in ('find', 'ffno', 'ffo') and len(x) > 3 and x[3] != c(0):
                k, d = lin(sub(x, x[3]))
                out.append((d, k))
    return out


def verdict(ind, e, more=()):
    """True: the access is inside; False: it is outside; None: open"""
    ind.cur = e
    ind.order()
    if e.what == 'pointer dereference':
        return True if e.ok else False if e.bad else None
    if e.idx is None:
        return None
    if e.idx[0] in ('key', 'mkey', 'lb', 'ub', 'stepk', 'mend', 'elkey') or e.idx[0] == 'lin' and any(x[0][0] in ('lb', 'ub') for x in e.idx[2]):
        return True if e.ok else False if e.bad else None
    ended = stale(ind, e)
    if e.bad:
        return None if ended else False
    facts = e.facts
    needs = []
    if e.what == 'iterator range':
        needs = [e.idx, sub(e.hi, e.idx), sub(size(e.cval), e.hi)]
    else:
        n = getattr(e, 'need', None)
        last = size(e.cval) if n is not None and n == cmp_('<=', e.idx, size(e.cval)) else sub(size(e.cval), c(1))
        needs = [e.idx] + ([] if e.ok else [sub(last, e.idx)])
    out = True
    for t in needs:
        iv = ival(facts, t)
        if iv[0] is not None and iv[0] >= 0:
            continue
        if iv[1] is not None and iv[1] < 0:
            return None if ended else False
        ex = ind.rows([t] + list(facts)) + found_rows(facts, t) + list(more)
        for x in {y for y in lin(e.idx)[1]}:
            if ind.inside(x, e.cval):
                # a position that was found: below the size, npos being ruled out
                if x[0] == 'phi' and not (narrow(facts, cmp_('==', x, c(NPOS))) is None):
                    continue
                ex.append(({x: 1}, 0))
                k, d = lin(sub(sub(size(e.cval), c(1)), x))
                ex.append((d, k))
        if at_least(facts, t, 0, ex):
            continue
        out = None
    return out


# ------------------------------------------------------------------ accesses that nothing on the path makes safe
LOST = ('mrg', 'unk', 'smap', 'setch', 'inserted', 'aft')


def rebuild(t, m):
    """t with the replacements of m, normalised again"""
    if not isinstance(t, tuple) or not t:
        return t
    if t in m:
        return m[t]
    k = t[0]
    if k == 'c' or k == 'str':
        return t
    if k == 'lin':
        r = c(t[1])
        for x, n in t[2]:
            y = rebuild(x, m)
            for _ in range(abs(n)):
                r = add(r, y) if n > 0 else sub(r, y)
        return r
    a = tuple(rebuild(x, m) for x in t[1:])
    if a == t[1:]:
        return t
    try:
        if k == 'size':
            return sz(a[0])
        if k == 'at':
            return at(*a)
        if k == 'sub':
            return substr(*a)
        if k == 'cat':
            return cat(*a)
        if k == 'isnull':
            return isnull(a[0])
        if k == 'prefix':
            return prefix(*a)
        if k == 'eq':
            return eq(*a)
    except Exception:
        return None
    return (k,) + a


def again(facts, m):
    """the facts with the replacements of m, assumed one after the other; None when they contradict each other"""
    out = {}
    for t, v in facts.items():
        x = rebuild(t, m)
        if x is None or any(y is None for y in subterms(x)):
            return None
        conds = []
        if v is True or v is False:
            conds = [(x, v)]
        elif isinstance(v, tuple):
            if v[0] is not None and v[0] == v[1]:
                conds.append((cmp_('==', x, c(v[0])), True))
            else:
                if v[0] is not None:
                    conds.append((cmp_('>=', x, c(v[0])), True))
                if v[1] is not None:
                    conds.append((cmp_('<=', x, c(v[1])), True))
            conds += [(cmp_('==', x, c(n)), False) for n in v[2] if isinstance(n, int)]
        for q, w in conds:
            r = assume(out, q, w)
            if not r:
                return None
            out = dict(r[0])
    return out


def entry(ind, facts, terms, depth=4):
    """the situation at the first passage through the enclosing loops: (facts, terms) free of loop-carried values, or None"""
    for _ in range(depth):
        ps = sorted({y for z in list(facts) + list(terms) for y in subterms(z) if y and y[0] == 'phi'}, key=str)
        if not ps:
            return facts, terms
        m = {}
        for p in ps:
            ls = ind.levs(p)
            bs = {pos(l.base0.get(p[2])) for l in ls} if ls else {None}
            bs = {b for b in bs if b is not None and not contains(b, p)}
            if not bs and p[2] and p[2][0] == 'io':
                continue
            if len(bs) != 1:
                return None
            m[p] = sorted(bs, key=str)[0]
        if not m:
            return facts, terms
        facts = again(facts, m)
        if facts is None:
            return None
        terms = [rebuild(t, m) for t in terms]
        if any(t is None for t in terms):
            return None
    return None


def nullable(ck, t):
    """a pointer that is null in some use of the library: returned by a function that can give null, or an optional member"""
    if t[0] in ('call', 'vcall'):
        return t[1] in gives_null(ck)
    m = base_member(t)
    return m is not None and t[0] in ('in', 'phi', '.')


def gives_null(ck):
    """functions with a path that returns null"""
    if not hasattr(ck, 'nullfns'):
        ck.nullfns = set()
        for f in ck.p.funcs.values():
            if local(f) and f['q'] in OPQF and '*' in f['ret']:
                v = ck.view(f, merge_at=200)
                ind = Induct(v)
                for s in own(tops(v, 'ret')):
                    x = rv(v, s)
                    if x is None:
                        continue
                    bs = [x] + [l.base0.get(p[2]) for p in subterms(x) if p and p[0] == 'phi' for l in ind.levs(p)]
                    if any(b is not None and isnull(b) == c(True) for b in bs):
                        ck.nullfns.add(f['q'])
    return ck.nullfns


OPQF = [NS + 'options_description::find_nothrow']

# parts of an option that any parser may leave empty
FREE = ('original_tokens', 'value', 'string_key')


def decide(ck, ind, e, need=None):
    """an access nothing makes safe: False when the path is understood and leaves room for the violation"""
    ind.cur = e

    def lost(t):
        return any(x and x[0] in LOST for x in subterms(t))
    if e.k == 'oblig' and e.what == 'pointer dereference':
        if lost(e.cval) or any(contains(k, e.cval) for k in e.facts):
            return None
        return False if nullable(ck, e.cval) else None
    if e.k == 'oblig' and need is None:
        if e.idx is None:
            return None
        if e.idx[0] in ('key', 'mkey', 'lb', 'ub') or e.idx[0] == 'lin' and any(x[0][0] in ('lb', 'ub') for x in e.idx[2]):
            pivot = e.idx if e.idx[0] != 'lin' else [x[0] for x in e.idx[2] if x[0][0] in ('lb', 'ub')][0]
            if lost(e.idx) or lost(e.cval):
                return None
            for k in e.facts:
                if contains(k, pivot) or k[0] == 'has' and pivot[0] == 'key' and k[2] == pivot[2]:
                    return None
                if pivot[0] == 'key' and k[0] in ('rel', 'lin', 'b', 'eq') and contains(k, pivot[1]):
                    return None
            return False
        if e.idx[0] in ('stepk', 'mend', 'elkey'):
            return None
        if e.cval[0] in ('in', '.') and base_member(e.cval) in FREE and is_c(e.idx) and not lost(e.cval) and not any(contains(k, e.cval) for k in e.facts):
            return False
        needs = [sub(sub(sz(e.cval), c(1)), e.idx)] if e.what != 'iterator range' else [sub(sz(e.cval), e.hi)]
        n = getattr(e, 'need', None)
        if n is not None and n == cmp_('<=', e.idx, size(e.cval)):
            needs = [sub(sz(e.cval), e.idx)]
        needs.append(e.idx)
    else:
        needs = [need]
        for x in lin(need)[1]:
            if x[0] == 'size' and x[1][0] == 'phi':
                # a function unknown here may have emptied it in the round before
                for l in ind.levs(x[1]):
                    for it, y in ind.ends(l, x[1][2]):
                        if y is not None and y[0] == 'out' and y[1] == 'icall' and not any(contains(k, size(y)) for k in it.facts) and not any(contains(k, size(x[1])) for k in e.facts):
                            return False
    r = entry(ind, e.facts, needs)
    if r is None:
        return None
    facts, needs = r
    if not deepclean(facts) or any(lost(t) or any(x and x[0] in ('phi', 'out') and x[0] != 'in' and not (x[0] == 'out' and str(x[1]).endswith('getline')) for x in subterms(t)) for t in needs):
        return None
    for t in needs:
        k, d = lin(t)
        if not d:
            if k < 0:
                return False
            continue
        if not all(plain(x, ind.within.get(id(e), ())) for x in d):
            continue
        if not at_least(facts, t, 0, found_rows(facts, t)):
            return False
    return None


def stale(ind, e):
    """the access depends on where a loop before it stopped: its bounds are not all known here"""
    ins = ind.within.get(id(e), ())
    return any(x and x[0] == 'ix' and x[1][0] not in ins for t in (e.idx, e.cval) if t is not None for x in subterms(t))


def plain(t, ins):
    """a number that is free apart from what the path says about it (an index, inside its loop only)"""
    if t[0] == 'size':
        return not any(x and (x[0] in LOST + ('phi', 'setof', 'erased', 'cat') or x[0] == 'ix' and x[1][0] not in ins) for x in subterms(t[1]))
    if t[0] == 'ix':
        return t[1][0] in ins
    return t[0] == 'in'


def c31(ck):
    access(ck)


# relations between members that hold between calls; each is checked where the members change
def held_rows(facts, e):
    """what the invariants add to the path of event e"""
    out = []
    for x in {y for z in [e.cval, size(e.cval), e.idx or ('c', 0)] + list(facts) for y in subterms(z) if y and y[0] in ('size', 'mend')}:
        if x[0] == 'size' and member(x[1]) == 'belong_to_group':
            b = x[1]
            o = swap(b, 'belong_to_group', 'm_options')
            k, d = lin(sub(x, size(o)))
            out += [(d, k), ({y: -a for y, a in d.items()}, -k)]
        if x[0] == 'size' and member(x[1]) == 'm_alternatives':
            out.append(({x: 1}, -1))
        if x[0] == 'mend' and x[1][0] == 'setof' and member(x[1][1]) == 'm_alternatives':
            out.append(({x: 1}, -1))
    return out


def member(t):
    """name of the member whose value at entry t is"""
    if t[0] == 'in' and t[1][0] == 'fld':
        return t[1][2]
    return base_member(t) if t[0] == 'in' else None


def swap(t, a, b):
    if t == a:
        return b
    return tuple(swap(x, a, b) for x in t) if isinstance(t, tuple) else t


def keyed(e):
    """(key) when the access is to an entry of an error's substitutions that the constructor makes"""
    if e.idx and e.idx[0] == 'key' and e.idx[2][0] == 'str' and member(e.cval) == 'm_substitutions':
        return e.idx[2][1]
    return None


def at_end_excluded(e):
    """the path knows the iterator is not the end of its sequence"""
    for k, w in e.facts.items():
        if k[0] == 'eq' and w is False and e.cval in k[1:]:
            o = k[1] if k[2] == e.cval else k[2]
            if o[0] == 'tokend' or o[0] == 'obj' and ('m_at_eof', c(True)) in list(subterms(o)):
                return True
    return False


def outer(f, t):
    """t is a pointer the caller hands over, or the environment of the process"""
    return t[0] == 'in' and t[1][0] in ('P', 'G')


def infeasible(facts, e):
    """the path contradicts an invariant"""
    rows = held_rows(facts, e)
    return bool(rows) and any(at_least(facts, ('lin', 0, tuple(sorted(((x, -a) for x, a in d.items()), key=str))), k + 1) for d, k in rows)


def inner(ck, f):
    """a helper nobody but the repository calls, and that is looked through where it is called: it is judged there, with what its callers know"""
    if not hasattr(ck, 'innerfns'):
        called, named = set(), set()
        for g in ck.p.funcs.values():
            if not local(g):
                continue
            for n in walk([g['b']] + [i.get('e') for i in g.get('inits') or []]):
                if n.get('k') == 'fn' and n.get('u'):
                    named.add(n['u'])
                elif n.get('u') and n['u'] != g['u']:
                    called.add(n['u'])
        ck.innerfns = {u for u, g in ck.p.funcs.items() if u in called and u not in named}
    if f.get('lam'):
        return True
    if f['u'] not in ck.innerfns or f.get('virt') or f.get('ctor') or f.get('dtor') or any(f['q'].endswith('::' + q) for q in OPQ):
        return False
    return not f.get('hdr') or f.get('acc', 0) != 0


def analyse(ck, f):
    opq = [q for q in OPQ if not f['q'].endswith('::' + q)]
    v = ck.view(f, opq, merge_at=200)
    if not v.segs():
        from .rules_run import RUNQ
        v = ck.view(f, [q for q in list(dict.fromkeys(opq + list(RUNQ))) if not f['q'].endswith('::' + q)], merge_at=200)
    return v


def access(ck):
    R, RN = 'accesses stay inside their container', 'nothing null is followed'
    pre = {}       # (function q, parameter index) -> needs a non-empty container
    views, keys, named_ = [], set(), []
    for u, f in sorted(ck.p.funcs.items()):
        if not local(f) or inner(ck, f):
            continue
        v = analyse(ck, f)
        if not v.segs():
            ck.ob(R, None, f, 'paths of %s were not enumerated' % f['q'].replace(NS, ''), v, {})
        views.append((f, v))
        ind = Induct(v)
        done = {}
        for s in v.segs():
            for e in s.evs:
                if e.k != 'oblig':
                    continue
                key = (e.file, e.line, e.what)
                r = verdict(ind, e)
                why = None
                if r is not True and e.what == 'pointer dereference':
                    m = base_member(e.cval)
                    if r is None and m in HELD and not (m == 'm_value_semantic' and ('@base' in str(e.cval) or (f.get('cls') or '').endswith('variable_value'))):
                        r, why = True, HELD[m]
                    elif r is None and (outer(f, e.cval) or at_end_excluded(e)):
                        r = True
                if r is not True and keyed(e) is not None and f.get('cls'):
                    keys.add((keyed(e), bare(f['cls'])))
                    r = True
                if r is None and e.idx == c(0) and base_member(e.cval) == 'm_long_names':
                    # an option without a short name has a long one
                    b = swap(e.cval, 'm_long_names', 'm_short_name')
                    iv = ival(e.facts, size(b))
                    if iv[1] == 0:
                        named_.append(e)
                        r = True
                if r is not True and e.what != 'pointer dereference' and e.idx is not None and held_rows(e.facts, e):
                    r = True if infeasible(e.facts, e) or verdict(ind, e, held_rows(e.facts, e)) is True else r
                if r is None and e.cval[0] == 'in' and e.cval[1][0] == 'P' and e.idx == c(0) or \
                   r is None and e.cval[0] == 'mutel' and e.cval[1][0] == 'in' and e.cval[1][1][0] == 'P' and e.idx == c(0):
                    P_ = e.cval[1] if e.cval[0] == 'in' else e.cval[1][1]
                    pre.setdefault((f['q'], P_[1]), (f, v, ind, []))[3].append(e)
                    r = True
                if r is None:
                    r = decide(ck, ind, e)
                old = done.get(key)
                if old is None or old[0] is True and r is not True or old[0] is None and r is False:
                    done[key] = (r, e, why)
        for key, (r, e, why) in sorted(done.items()):
            ck.ob(RN if e.what == 'pointer dereference' else R, r, e, '%s %s of %s in %s' % (e.what, show(e.idx)[:60] if e.idx else '', show(e.cval)[:60], f['q'].replace(NS, '')), v, {})
            if r is None and os.environ.get('MEMDBG'):
                print('OPEN', str(e.cval)[:160] if os.environ['MEMDBG'] == '2' else '', f['q'], e.file, e.line, e.what, 'IDX', show(e.idx) if e.idx else '', 'OF', show(e.cval), show_facts(e.facts))
    ck.need(R, 60)
    ck.need(RN, 60)
    given(ck, views, pre)
    entries(ck, keys)
    together(ck, views)
    named_options(ck, views)


def given(ck, views, pre):
    R = 'functions that take the first element are given one'
    qs = {q for q, _ in pre}
    met = set()

    def reaches(g, t):
        """the called object is, or may hold, one of the functions"""
        if any(x[0] == 'fn' and x[1] in qs for x in subterms(t) if x):
            return True
        for x in subterms(t):
            if x and x[0] == 'P' and x[1] < len(g['ps']) and 'function' in g['ps'][x[1]]['t'] and 'basic_option' in g['ps'][x[1]]['t']:
                return True
        return False
    for g, v in views:
        seen, ind = {}, Induct(v)
        for s in v.segs():
            for e in s.evs:
                a = None
                if e.k == 'call' and e.q in qs:
                    i = [j for q, j in pre if q == e.q][0]
                    f = pre[(e.q, i)][0]
                    met.add((e.q, i))
                    a = e.args[i + len(e.args) - len(f['ps'])] if len(e.args) >= len(f['ps']) else None
                    what = e.q.replace(NS, '')
                elif e.k == 'icall' and len(e.args) == 1 and reaches(g, e.f):
                    a, what = e.args[0], 'a style parser'
                    met |= {(q, i) for q, i in pre if q.split('::')[-2] == 'cmdline'}
                if a is None:
                    continue
                if a[0] == 'ptr':
                    a = In(a[1])
                iv = ival(e.facts, size(a))
                r = True if iv[0] is not None and iv[0] >= 1 else False if iv[1] is not None and iv[1] < 1 else None
                if r is None and ind.low(e.facts, sz(a), 1):
                    r = True
                if r is None:
                    r = decide(ck, ind, e, sub(sz(a), c(1)))
                k = (e.line, what)
                if k not in seen or seen[k][0] is True and r is not True or r is False:
                    seen[k] = (r, e, a)
        for (l, what), (r, e, a) in sorted(seen.items()):
            ck.ob(R, r, e, '%s is given %s' % (what, show(a)[:60]), v, {})
    for (q, i), (f, v, ind, es) in sorted(pre.items(), key=str):
        if (q, i) not in met:
            rs = [decide(ck, ind, e) for e in es]
            if rs:
                e = es[rs.index(False) if False in rs else 0]
                ck.ob(R, False if False in rs else None, e, '%s takes the first element of what any caller gives' % q.replace(NS, ''), v, {})
    ck.need(R, 2)


def entries(ck, keys):
    """entries of an error's substitutions that are read unconditionally are made by its constructor"""
    R = 'entries that rendering reads are made on construction'
    for key, cls in sorted(keys):
        n = cls.split('::')[-1]
        top = [x for x in ('error_with_option_name', n)]
        ok = False
        unclear = False
        for cl in dict.fromkeys(top):
            for f in [x for x in ck.p.funcs.values() if x['q'].endswith('::%s::%s' % (cl, cl)) and x['ps'] and cl not in x['ps'][0]['t']]:
                v = ck.view(f)
                for s in own(tops(v, 'ret')):
                    w = [e for e in s.evs if e.k == 'write' and e.loc and contains(e.loc, ('str', key)) and any(x[0] == 'fld' and x[2] == 'm_substitutions' for x in subterms(e.loc) if x)]
                    ok = ok or bool(w)
                    unclear = unclear or any(e.k in ('call', 'icall', 'ext') for e in s.evs)
        ck.ob(R, True if ok else None if unclear else False, cls.replace(NS, ''), 'entry "%s"' % key)
    ck.need(R, 1)


def together(ck, views):
    """members that are indexed alike change together"""
    R = 'options and their group marks grow together'
    A, B = 'm_options', 'belong_to_group'
    for g, v in views:
        for s in v.segs():
            n, other = {A: {}, B: {}}, None
            for e in s.evs:
                if e.k in ('mut', 'write') and e.loc and e.loc[0] == 'fld' and e.loc[2] in n:
                    if e.k == 'mut' and e.meth in ('push_back', 'emplace_back'):
                        n[e.loc[2]][e.loc[1]] = n[e.loc[2]].get(e.loc[1], 0) + 1
                    else:
                        other = e
            if s.kind == 'throw' or not (n[A] or n[B] or other):
                continue
            ck.ob(R, None if other else n[A] == n[B], s.evs[0], '%s options, %s marks' % (sum(n[A].values()), sum(n[B].values())), v, {})
    ck.need(R, 1)


def named_options(ck, views):
    R = 'an option without a short name has a long one'
    for g in ck.fns(NS + 'option_description::set_names'):
        v = analyse(ck, g)
        ind = Induct(v)
        L, S = fld(THIS, 'm_long_names'), fld(THIS, 'm_short_name')
        for s in own(tops(v, 'ret')):
            l, h = end(v, s, L), end(v, s, S)
            a, b = ival(s.facts, size(l)), ival(s.facts, size(h))
            ok = a[0] is not None and a[0] >= 1 or b[0] is not None and b[0] >= 1
            bad = a[1] is not None and a[1] <= 0 and (b[1] is not None and b[1] <= 0 or h == In(S))
            ck.ob(R, True if ok else False if bad else None, g, 'long names %s, short name %s' % (show(l)[:40], show(h)[:40]), v, s.facts)
    ck.need(R, 1)
