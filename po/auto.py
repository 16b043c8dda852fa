"""Product of a loop's carried state (finite abstraction) with a specification automaton.

Loop-carried variables the loop summary leaves as ('phi', loop, loc) are abstracted to
finite values (constants, container size class 0/1/2+, provenance labels); the transitions
are the analysed ways through the loop body.  Ghost state is advanced by the specification
alongside.  All reachable (state, ghost) pairs at the loop head are enumerated."""
from .dsl import *


class LoopAuto(object):
    def __init__(self, view, lev, ghost0, ghost, label=None, assume_=(), base=None, cap=2, limit=20000):
        """ghost(seg_like, facts, g) -> iterable of next ghosts (splitting where facts leave it open)"""
        self.v, self.lev, self.ghost, self.cap = view, lev, ghost, cap
        self.label = label or (lambda t, seg: None)
        self.assume = list(assume_)
        self.undecided = False
        lid = lev.id
        self.head = {l: t for l, t in lev.havoc.items() if t is not None and (t == ('phi', lid, l) or (t[0] == 'ix' and t[1][0] == lid and t[1][3] == 0))}
        self.byhead = {t: l for l, t in self.head.items()}
        self.locs = sorted(self.head, key=repr)
        st0 = {l: self.absval(lev.base0.get(l), None, {}, None) for l in self.locs}
        self.backs = [it for it in lev.iters if it.kind == 'back' and compatible(it.facts, self.assume)]
        self.dirty = any(not self.cleanf(it.facts) for it in self.backs)
        start = (tuple(st0[l] for l in self.locs), ghost0)
        self.reach = {start}
        todo = [start]
        while todo and len(self.reach) < limit:
            s, g = todo.pop()
            env = dict(zip(self.locs, s))
            cond = self.assumes(env) + self.assume
            for it in self.backs:
                if not compatible(it.facts, cond):
                    continue
                nxt = tuple(self.absval(it.st.store.get(l, self.head[l]), it, env, l) for l in self.locs)
                fs = it.facts
                for g2 in ghost(it, self.with_(fs, cond), g):
                    k = (nxt, g2)
                    if k not in self.reach:
                        self.reach.add(k)
                        todo.append(k)
        if len(self.reach) >= limit:
            self.undecided = True

    def cleanf(self, facts):
        """no fact about a forgotten value other than the states tracked here"""
        def own(k):
            x = k[1] if k[0] in ('b', 'rel', 'isnull', 'not') else k
            if k[0] == 'not':
                return own(k[1])
            if x in self.byhead or (x[0] == 'size' and x[1] in self.byhead):
                return True
            if x[0] == 'eq':
                return all(y[0] == 'at' and y[1] in self.byhead and y[2][0] == 'c' for y in x[1:3])
            if x[0] == 'lin':
                return all(y in self.byhead or (y[0] == 'size' and y[1] in self.byhead) for y, n in x[2])
            return False
        return deepclean({k: v for k, v in facts.items() if not own(k)})

    def with_(self, facts, cond):
        cur = [facts]
        for t in cond:
            cur = [g for f in cur for g in assume(f, t, True)]
        return cur[0] if cur else facts

    def absval(self, t, it, env, loc):
        """abstract value: ('c', const) | ('n', size class) | ('l', label) | None unknown"""
        lid = self.lev.id
        if t is None:
            return None
        lb = self.label(t, it)
        if lb is not None:
            return ('l', lb)
        if t in self.byhead and self.byhead[t] in env:
            return env[self.byhead[t]]
        if t[0] == 'c':
            x = t[1]
            if isinstance(x, bool):
                return ('c', x)
            if isinstance(x, int):
                return ('c', x if -1 <= x <= 8 else None) if -1 <= x <= 8 else None
            return None
        if t[0] == 'null':
            return ('l', 'null')
        if t[0] == 'push':
            b = self.absval(t[1], it, env, loc)
            return ('n', min(self.cap, b[1] + 1)) if b and b[0] == 'n' else None
        if t[0] in ('seq', 'map0') or (t[0] == 'str'):
            return ('n', min(self.cap, size(t)[1]))
        if t[0] in ('in', '.'):
            return None
        if t[0] in ('b', 'not', 'rel', 'eq', 'has', 'found', 'prefix', 'and', 'isnull') and it is not None:
            r = truth(self.with_(it.facts, self.assumes(env) + self.assume), t)
            return ('c', r) if r is not None else None
        k, d = lin(t)
        if d and len(d) == 1:
            (x, n), = d.items()
            if n == 1 and self.byhead.get(x) in env:
                b = env[self.byhead[x]]
                if b and b[0] == 'c' and isinstance(b[1], int):
                    return ('c', min(8, int(b[1]) + k))
        z = size(t) if t[0] in ('cat', 'sub') else None
        return None

    def assumes(self, env):
        out = []
        lid = self.lev.id
        for l, a in env.items():
            p = self.head[l]
            if a is None:
                continue
            if a[0] == 'c':
                if isinstance(a[1], bool):
                    out.append(tobool(p) if a[1] else neg(tobool(p)))
                elif a[1] is not None:
                    out.append(cmp_('==', p, c(a[1])) if a[1] < 8 else cmp_('>=', p, c(8)))
            elif a[0] == 'n':
                out.append(cmp_('==', size(p), c(a[1])) if a[1] < self.cap else cmp_('>=', size(p), c(self.cap)))
            elif a[0] == 'l':
                if a[1] == 'null':
                    out.append(isnull(p))
                elif not (isinstance(a[1], tuple) and a[1][:1] == ('any',)):
                    out.append(neg(isnull(p)))
        return out

    def after(self, seg, i):
        """ghosts (with state env) possible for a path that continues after loop event i of seg"""
        how = None
        for e in seg.evs[i:]:
            if e.k in ('exh', 'brk', 'leave') and e.id == self.lev.id:
                how = e.k
                break
        out = []
        for s, g in self.reach:
            env = dict(zip(self.locs, s))
            cond = self.assumes(env) + self.assume
            if not compatible(seg.facts, cond):
                continue
            if how == 'exh':
                out.append((env, g))
            else:
                for g2 in self.ghost(seg, self.with_(seg.facts, cond), g):
                    out.append((env, g2))
        return how, out


def folding(ck, rule, where, v, name=''):
    """a loop that folds letter case folds every letter and changes nothing else"""
    seen = set()
    for s, i, l in loops(v):
        ixs = [t for _, t in loop_ix(l)]
        rows = []
        for it in l.iters:
            if it.kind != 'back':
                continue
            got = None
            for e in it.evs:
                if e.k == 'write' and e.loc not in l.havoc and any(contains(e.loc, t) for t in ixs):
                    got = e.val
                elif e.k == 'mut' and e.val[0] == 'cat' and e.val[1] == l.havoc.get(e.loc) and len(e.val) == 3:
                    got = e.val[2]
                    got = got[1] if got[0] == 'chr' else got
                elif e.k == 'mut' and e.val[0] == 'push' and e.val[1] == l.havoc.get(e.loc):
                    got = e.val[2]
            rows.append((it, got))
        if not any(g and g[0] in ('tolower', 'towlower') for it, g in rows):
            continue
        for it, g in rows:
            new = [(k, w) for k, w in it.facts.items() if l.facts.get(k) != w]
            if g and g[0] in ('tolower', 'towlower'):
                ok = True
            else:
                ch = lambda k: [x for x in subterms(k) if x and x[0] == 'at' and any(x[2] == t for t in ixs)]
                xs = [x for k, w in new for x in ch(k)]
                if not xs:
                    # decided by the position alone
                    ok = False if not any(z and z[0] in ('mrg', 'unk', 'ext', 'call', 'icall', 'out', 'tobool') for k, w in new for z in subterms(k)) and (g is None or ch(g) or is_c(g) or g[0] == 'str') else None
                else:
                    lo, hi = ival(it.facts, xs[0])[:2]
                    val = None if g is None else ord(g[1]) if g[0] == 'str' and len(g[1]) == 1 else g[1] if is_c(g) else None
                    ok = None
                    if lo is not None and lo == hi:
                        want = lo + 32 if 65 <= lo <= 90 else lo
                        if val is not None:
                            ok = val == want
                        elif g == xs[0] or g is None:
                            ok = want == lo if g is not None else None
            key = (l.id, ok, show(g) if g else '')
            if key not in seen:
                seen.add(key)
                ck.ob(rule, ok, where, '%sa letter becomes %s' % (name + ': ' if name else '', show(g)[:60] if g else 'nothing'), v, {})
