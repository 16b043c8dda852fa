"""Vocabulary the rules are written in: patterns over terms, loop coverage, end states."""
from .facts import *
from .engine import LV, Ev, under, root, tn, bare
from .program import NS, Broken, walk
from .check import View, Seg, Check, Roles, clean, unclean_atom, flat_evs, load_known

ANY = ('?any',)


class V(object):
    """pattern variable"""
    def __init__(self, n):
        self.n = n


def pm(pat, t, env):
    """match; returns extended env or None"""
    if pat is ANY:
        return env
    if isinstance(pat, V):
        if pat.n in env:
            return env if env[pat.n] == t else None
        e = dict(env)
        e[pat.n] = t
        return e
    if isinstance(pat, tuple):
        if not isinstance(t, tuple):
            return None
        if pat and pat[-1] is Ellipsis:
            if len(t) < len(pat) - 1:
                return None
            t = t[:len(pat) - 1]
            pat = pat[:-1]
        if len(pat) != len(t):
            return None
        for a, b in zip(pat, t):
            env = pm(a, b, env)
            if env is None:
                return None
        return env
    return env if pat == t else None


def find(pat, t):
    """environments of every match of pat inside t"""
    for s in subterms(t):
        e = pm(pat, s, {})
        if e is not None:
            yield e


def P(fn, i):
    return ('P', i, fn['ps'][i]['n'])


def In(loc):
    return ('in', loc)


def fld(loc, n):
    return ('fld', loc, n)


def infld(loc, n):
    return ('in', ('fld', loc, n))


THIS = ('this',)


def short(q):
    return q.replace(NS, '')


def calls(evs, *names):
    return [e for e in evs if e.k == 'call' and any(e.q == NS + n or e.q == n or e.q.endswith('::' + n) for n in names)]


def mentions_facts(facts, t):
    return any(contains(k, t) for k in facts)


def fact(facts, t):
    """truth of a boolean term"""
    return truth(facts, t)


def can(facts, *ts):
    """facts are compatible with all of ts"""
    return compatible(facts, [t for t in ts])


def must(facts, t):
    return implies(facts, t)


def loop_ix(lev):
    """induction terms of a loop: [(loc, ix term)]"""
    out = []
    for loc, v in lev.havoc.items():
        if v is None:
            continue
        for t in subterms(v):
            if t and t[0] == 'ix' and t[1][0] == lev.id and (loc, t) not in out:
                out.append((loc, t))
    return out


def walks(view, seg, i, lev, seqv, ordered=True):
    """does loop lev visit every element of sequence value seqv?  True / False / None

    seg, i: where the loop event sits.  True: index starts at 0, moves by one, and
    the loop ends normally only when the index has reached the end, and is never
    left early except by an exception.  False: a definite gap (starts later, skips,
    stops short).  None: not recognised."""
    for it in lev.iters:
        if it.kind in ('brk', 'ret') and clean(it.facts):
            return False
    ixs = [t for loc, t in loop_ix(lev)]
    if not ixs:
        return None
    res = None
    for t in ixs:
        lo, step = t[2], t[1][3]
        asc = lo is not None
        exits = exits_of(view, lev)
        used = any(contains(k, t) for it in lev.iters for k in it.facts) or any(contains(k, t) for e in exits for k in e.facts)
        if not used:
            continue
        if asc:
            for e in exits:
                d = ival(e.facts, sub(t, size(seqv)))
                if d[0] is not None and d[0] >= 0:
                    if lo == 0 and step == 1:
                        res = True if res is None else res
                    elif lo is not None and lo > 0 or (isinstance(step, int) and step > 1):
                        return False
                elif d[1] is not None and d[1] < 0 and deepclean(e.facts):
                    return False
        else:
            if ordered:
                return False if step == -1 else None
            return None
    return res


def exits_of(view, lev, kinds=('exh',)):
    """every way control leaves loop lev in any analysed path"""
    tab = getattr(view, '_exits', None)
    if tab is None:
        tab = view._exits = {}
        seen = set()
        for s in view.segs():
            for i, e in enumerate(s.evs):
                if e.k == 'loop':
                    for x in s.evs[i + 1:]:
                        if x.k in ('exh', 'brk', 'leave') and x.id == e.id and (id(e), id(x)) not in seen:
                            seen.add((id(e), id(x)))
                            tab.setdefault(id(e), []).append(x)
    return [x for x in tab.get(id(lev), []) if x.k in kinds]


def iter_of(lev, seqv):
    """element terms of seqv this loop's iterations talk about"""
    out = []
    for loc, t in loop_ix(lev):
        e = at(seqv, t)
        out.append(e)
    return out


def loops(view):
    """(seg, index, loop event), every loop once per position"""
    return list(view.events('loop'))


def segs_of(view, lev):
    return [s for s in view.segs() if s.loop is not None and s.loop.id == lev.id and s.kind != 'alt']


def end(view, seg, loc):
    """value of loc at the end of a segment"""
    return view.eng.rd(seg.st, loc)


def muts_of(evs, loc, deep=True):
    """write / mut events on loc or (deep) on part of it, including inside nested loops"""
    out = []
    for e in flat_evs(evs):
        if e.k in ('write', 'mut'):
            if e.loc == loc or (deep and part_of(e.loc, loc)):
                out.append(e)
        elif e.k == 'call':
            for l in e.argl:
                if l is not None and (l == loc or (deep and part_of(l, loc))):
                    out.append(e)
    return out


def part_of(l, loc):
    while isinstance(l, tuple) and l and l[0] in ('fld', 'elem', 'anyval'):
        l = l[1]
        if l == loc:
            return True
    return False


def is_out(t, name, i=0):
    """t is what opaque call `name` left in its i-th argument"""
    return t[0] == 'out' and str(t[1]).endswith('::' + name) and t[2] == i


def exc_in(seg):
    """(type, args of its construction) of the exception a throwing segment ends with"""
    t = seg.val[1] if isinstance(seg.val, tuple) and seg.val[0] == 'exc' else None
    args = None
    for e in reversed(seg.evs):
        if e.k == 'excctor' and t is not None and bare(e.t) == bare(t):
            args = e.args
            break
    return t, args


def throws(seg, *types):
    return seg.kind == 'throw' and isinstance(seg.val, tuple) and seg.val[0] == 'exc' and bare(seg.val[1]) in {'po::' + x for x in types}


def foreign(seg):
    """exception raised by an opaque callee rather than by the analysed code"""
    if seg.kind == 'throw':
        ks = [e.k for e in flat_evs(seg.evs) if e.k in ('throw', 'xthrow', 'rethrow')]
        if ks and ks[-1] == 'xthrow':
            return True
    return seg.kind == 'throw' and not any(e.k == 'throw' for e in seg.evs) and any(e.k in ('xthrow', 'rethrow') for e in flat_evs(seg.evs))


def deepclean(facts):
    """no atom mentions a value a loop or merge summary forgot (loop positions are fine)"""
    for k in facts:
        for s in subterms(k):
            if s and (s[0] in ('mrg', 'unk') or (s[0] == 'phi' and s[2][0] == 'L')):
                return False
    return True


BAD = ('phi', 'mrg', 'unk', 'smap', 'setch', 'inserted', 'out', 'ext')


def cleanon(facts, *subs):
    """the atoms about the given terms mention nothing else that a loop or merge forgot"""
    m = {x: ('known', i) for i, x in enumerate(subs)}
    for k in facts:
        if any(contains(k, x) for x in subs):
            k2 = subst(k, m)
            if any(t and t[0] in ('phi', 'mrg', 'unk') for t in subterms(k2)):
                return False
    return True


def about(facts, *subs):
    """the atoms that mention one of the terms, these terms standing for themselves"""
    m = {x: ('known', i) for i, x in enumerate(subs)}
    return {subst(k, m): v for k, v in facts.items() if any(contains(k, x) for x in subs)}


def phis(*ts):
    return tuple(sorted({x for t in ts for x in subterms(t) if x and x[0] in ('phi', 'aft', 'out')}, key=repr))


def bsame(facts, t, want):
    """boolean term t has value `want` on this path: True / False (it can differ) / None"""
    w = truth(facts, tobool(t))
    if w is not None:
        return w == want
    if any(x and x[0] in BAD for x in subterms(t)):
        return None
    return False


def narrow(facts, *ts):
    """facts refined by boolean terms (None if contradictory)"""
    cur = [facts]
    for t in ts:
        cur = [g for f in cur for g in assume(f, t, True)]
    return cur[0] if cur else None


def splits(facts, atoms):
    """truth assignments of atoms compatible with facts: [(dict, refined facts)]"""
    out = [({}, facts)]
    for a in atoms:
        nx = []
        for d, f in out:
            for w in (True, False):
                for g in assume(f, a, w)[:1]:
                    e = dict(d)
                    e[a] = w
                    nx.append((e, g))
        out = nx
    return out


def base_terms(t, out=None):
    """atomic things a boolean term talks about"""
    out = set() if out is None else out
    if t[0] in ('not', 'and'):
        for x in t[1:]:
            base_terms(x, out)
    elif t[0] == 'rel' or t[0] == 'b':
        for x in lin(t[1])[1]:
            out.add(x)
    elif t[0] == 'lin':
        for x in lin(t)[1]:
            out.add(x)
    elif t[0] != 'c':
        out.add(t)
    return out


class Table(object):
    """decision table: cases (guards -> requirement) applied to every path of a view

    A path that meets a case only partly (its own condition is phrased through terms the
    table does not know) is undecided rather than violated."""
    def __init__(self, ck, view, rule, where, subjects, vocab=()):
        self.ck, self.v, self.rule, self.where, self.subj = ck, view, rule, where, list(subjects)
        self.cases = []
        self.vocab = set(vocab)

    def case(self, name, guards, req, ident=None):
        for g in guards:
            base_terms(g, self.vocab)
        self.cases.append((name, guards, req, ident))

    def understood(self, facts):
        for k, val in facts.items():
            if any(contains(k, s) for s in self.subj):
                for x in base_terms(k):
                    if x in self.vocab or not any(contains(x, s) for s in self.subj):
                        continue
                    if x[0] == 'eq' and any(y in self.vocab for y in x[1:]):
                        continue
                    if x[0] == 'at' and x[1] in [y[1][1] for y in self.vocab if y[0] == 'found'] + [y[1] for y in self.vocab if y[0] == 'at']:
                        continue
                    if x[0] in ('size', 'find', 'at') or k[0] == 'lin':
                        # sizes and positions: bounds may be derived ones
                        if x in self.vocab or any(contains(g, x) for g in self.vocab):
                            continue
                    return False
        return True

    def run(self, segs=None, limit=None):
        n = 0
        hit = {c_[0]: 0 for c_ in self.cases}
        for s in (segs if segs is not None else [s for s in self.v.segs() if s.parent is None]):
            for name, guards, req, ident in self.cases:
                f = narrow(s.facts, *guards)
                if f is None:
                    continue
                hit[name] += 1
                r = req(s, f)
                why = ''
                if isinstance(r, tuple):
                    r, why = r
                if r is False or (r is not True and r is not None and not r):
                    r = False
                    if not all(must(s.facts, g) for g in guards) and not self.understood(s.facts):
                        r = None
                    if not deepclean(s.facts):
                        r = None
                elif r is not None:
                    r = True
                self.ck.ob('%s: %s' % (self.rule, name), r, self.where, '%s %s' % (name, why), self.v, s.facts, ident=ident)
        for name, h in hit.items():
            if not h:
                self.ck.ob('%s: %s' % (self.rule, name), None, self.where, 'no path meets this case', self.v)
        return hit


def rv(view, seg):
    """value a returning path yields (references are read)"""
    x = seg.val
    if isinstance(x, LV):
        return end(view, seg, x.loc)
    return x


def subst(t, m):
    """plain structural replacement"""
    if t in m:
        return m[t]
    if isinstance(t, tuple):
        return tuple(subst(x, m) if isinstance(x, tuple) else x for x in t)
    return t


def same(a, b, known=()):
    """two values are the same; None when one of them is not understood (loop variables in `known` are)"""
    if a == b:
        return True
    if known and a is not None:
        sb = {k: ('known', i) for i, k in enumerate(known)}
        return same(subst(a, sb), subst(b, sb))
    if a is None or any(s and s[0] in ('phi', 'mrg', 'unk', 'smap', 'setch', 'inserted', 'out', 'ext') for x in (a, b) for s in subterms(x)):
        return None
    return False


def tops(view, kind=None):
    return [s for s in view.segs() if s.parent is None and (kind is None or s.kind == kind)]


def grew(view, seg, loc):
    """mut/write events on loc (not its parts) in this segment, calls included"""
    return muts_of(seg.evs, loc)
