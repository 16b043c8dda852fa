"""termination: every round of a loop gets nearer to its end, and a round that changes nothing the loop looks at is never repeated"""
from .dsl import *
from .linear import at_least
from .rules_mem import analyse, inner, local, Induct, pos, sz, SEARCH, found_rows

R = 'every round of a loop brings its end nearer'
RX = 'every loop has a way out'
RP = 'a style parser that reports options has taken a token'


def c35(ck):
    global EV
    seen = {}
    for u, f in sorted(ck.p.funcs.items()):
        if not local(f) or inner(ck, f):
            continue
        v = analyse(ck, f)
        if not v.segs():
            ck.ob(R, None, f, 'paths of %s were not enumerated' % short(f['q']), v, {})
            continue
        ind = Induct(v)
        EV = v.eng
        per = {}
        for s in v.segs():
            for l in flat_evs(s.evs):
                if l.k == 'loop' and id(l) not in per:
                    per[id(l)] = l
        tab = {}
        for l in per.values():
            ok, why, facts = judge(v, ind, l)
            tab.setdefault((l.file, l.line), []).append((ok, why, facts, l))
        for k, rs in sorted(tab.items()):
            bad = [r for r in rs if r[0] is False] or [r for r in rs if r[0] is None] or rs
            ok, why, facts, l = bad[0]
            ck.ob(R, ok, '%s:%s in %s' % (k[0], k[1], short(f['q'])), why, v, {})
        if not tab:
            continue
        out = {}
        for l in per.values():
            ways = [it.kind for it in l.iters if it.kind not in ('back', 'alt')] + [e.k for e in exits_of(v, l, ('exh', 'brk', 'leave'))]
            ok = True if ways else None if any(it.kind == 'alt' for it in l.iters) else False if any(it.kind == 'back' for it in l.iters) else None
            out.setdefault((l.file, l.line), []).append((ok, ways))
        for k, rs in sorted(out.items()):
            ok, ways = ([r for r in rs if r[0] is False] or [r for r in rs if r[0] is None] or rs)[0]
            ck.ob(RX, ok, '%s:%s in %s' % (k[0], k[1], short(f['q'])), 'the loop is left by %s' % ', '.join(sorted(set(ways))) if ways else 'nothing leaves the loop', v, {})
    ck.need(R, 30)
    parsers(ck)


def parsers(ck):
    for f in ck.p.funcs.values():
        n = f['q'].replace(NS, '')
        if not (n.startswith('detail::cmdline::parse_') or n == 'detail::cmdline::handle_additional_parser') or len(f['ps']) != 1:
            continue
        v = ck.view(f, ['detail::cmdline::finish_option', 'options_description::find_nothrow', 'options_description::find'], merge_at=200)
        a = P(f, 0)
        for s in tops(v, 'ret'):
            r = rv(v, s)
            if r is None or r == ('seq',) or truth(s.facts, cmp_('==', size(r), c(0))) is True:
                continue
            e = end(v, s, a)
            d = sub(sz(In(a)), sz(e))
            if at_least(s.facts, d, 1) or sz(e) == c(0) and any(y and y[0] == 'at' and y[1] == In(a) for k in s.facts for y in subterms(k)):
                ok = True
            elif e == In(a) and at_least(s.facts, sz(r), 1):
                ok = False
            else:
                ok = None
            ck.ob(RP, ok, f, '%s: %s tokens left of %s' % (short(f['q']), show(sz(e))[:60], show(sz(In(a)))), v, s.facts)


def ends_(v, l, it):
    """head term -> value at the end of the round; None when a value was lost"""
    out = {}
    for loc, h in l.havoc.items():
        if h is None:
            continue
        x = v.eng.rd(it.st, loc) if it.st is not None else None
        out[loc] = (h, x)
    return out


def own_terms(l, t):
    """this loop's head terms in t"""
    return {y for y in subterms(t) if y and (y[0] == 'phi' and y[1] == l.id or y[0] == 'ix' and y[1][0] == l.id)}


def inner_terms(l, t, inside):
    return {y for y in subterms(t) if y and (y[0] == 'phi' and y[1] in inside or y[0] == 'ix' and y[1][0] in inside)}


def heads(l):
    """head term -> loc"""
    out = {}
    for loc, h in l.havoc.items():
        if h is None:
            continue
        for y in subterms(h):
            if y and (y[0] == 'phi' and y[1] == l.id and y[2] == loc or y[0] == 'ix' and y[1][0] == l.id):
                out.setdefault(y, set()).add(loc)
    return out


def judge(v, ind, l):
    backs = [it for it in l.iters if it.kind == 'back']
    if not backs:
        return True, 'no second round', {}
    stuck = [it for it in backs if still(v, l, it)]
    if stuck:
        it = stuck[0]
        if v.dirty or any(y and y[0] in ('mrg', 'unk', 'smap') for k in it.facts for y in subterms(k)):
            return None, 'a round that changes nothing on a path not understood', it.facts
        return False, 'a round changes nothing the loop depends on: %s' % '; '.join(show_facts(it.facts)[-6:])[:600], it.facts
    for it in backs:
        if refound(v, l, it):
            return False, 'the search goes on inside the text just put in', it.facts
    left, used = list(backs), []
    ms = measures(v, ind, l, backs)
    while left:
        hit = None
        for m in ms:
            down = [it for it in left if m.get(id(it)) == 'down']
            if down and all(m.get(id(it)) in ('down', 'same') for it in left):
                hit = (m, down)
                break
        if hit is None:
            return None, 'no measure found for %d of %d rounds' % (len(left), len(backs)), left[0].facts
        used.append(hit[0]['name'])
        left = [it for it in left if it not in hit[1]]
    return True, 'gets smaller: ' + ', '.join(used)[:200], {}


def still(v, l, it):
    """the control of the loop sees the same, or an equally possible, state after this round as before it"""
    inside = {e.id for e in flat_evs(it.evs) if e.k == 'loop'}
    ends = ends_(v, l, it)
    own_of = heads(l)
    todo = set()
    for x in l.iters:
        for k in x.facts:
            todo |= needs(l, k, inside, x)
    todo = list(todo)
    seen, new = set(), {}
    while todo:
        y = todo.pop()
        if y in seen:
            continue
        seen.add(y)
        locs = set(l.havoc) if y == 'all' else own_of.get(y, set())
        if not locs:
            return False
        for loc in locs:
            if loc not in ends:
                return False
            h, x = ends[loc]
            if x == h:
                continue
            if x is None or pos(h)[0] != 'phi' or y == 'all' or 'all' in needs(l, x, inside, it):
                return False
            # a value made of other things only
            if own_terms(l, x) & {pos(h)}:
                return False
            new[pos(h)] = pos(x)
            todo += list(own_terms(l, x))
    if any(own_terms(l, x) & set(new) for x in new.values()):
        return False
    if new:
        try:
            fs = [(subst(k, new), w) for k, w in it.facts.items() if any(contains(k, h) for h in new)]
        except Exception:
            return False
        f = [it.facts]
        for k, w in fs:
            for t in again(k, w):
                f = [g2 for g in f for g2 in assume(g, t, True)] if t is not None else []
            if not f:
                return False
    return True


def again(k, w):
    """the fact as conditions; None: impossible"""
    if w is True or w is False:
        k2 = k if w else neg(k)
        return [k2] if k2 != c(False) else [None]
    out = []
    if w[0] is not None:
        out.append(cmp_('>=', k, c(w[0])))
    if w[1] is not None:
        out.append(cmp_('<=', k, c(w[1])))
    for n in w[2]:
        out.append(neg(cmp_('==', k, c(n))))
    return [t if t != c(False) else None for t in out]


def needs(l, t, inside, it):
    """this loop's terms t depends on, also through the loops inside it; 'all' when that is not known"""
    out = set(own_terms(l, t))
    for y in subterms(t):
        if y and y[0] in ('icall', 'unk', 'mrg', 'smap'):
            out.add('all')
    subs = {e.id: e for e in flat_evs(it.evs) if e.k == 'loop'}
    for y in inner_terms(l, t, inside | set(subs)):
        e = subs.get(y[1] if y[0] == 'phi' else y[1][0])
        out |= {'all'} if e is None else through(l, e, y, subs)
    return out


def through(l, e, y, subs):
    """this loop's terms the value of y, carried by the inner loop e, depends on"""
    own_of = heads(e)
    out = set()
    todo = {y}
    for x in e.iters:
        for k in x.facts:
            todo |= own_terms(e, k)
            out |= own_terms(l, k)
            if inner_terms(e, k, {n for n in subs if n != e.id}) or any(z and z[0] in ('icall', 'unk', 'mrg', 'smap') for z in subterms(k)):
                return {'all'}
    seen = set()
    todo = list(todo)
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        locs = own_of.get(t)
        if not locs:
            return {'all'}
        for loc in locs:
            b = e.base0.get(loc)
            if b is None:
                return {'all'}
            for x in [b] + [EV.rd(x.st, loc) for x in e.iters if x.st is not None]:
                if x is None or any(z and z[0] in ('icall', 'unk', 'mrg', 'smap') for z in subterms(x)):
                    return {'all'}
                out |= own_terms(l, x)
                todo += list(own_terms(e, x))
    return out


EV = None


def measures(v, ind, l, backs):
    out = []
    keys = {}
    for it in backs:
        for k, w in it.facts.items():
            if isinstance(w, tuple) and own_terms(l, k):
                for sgn, b in ((1, w[1]), (-1, w[0])):
                    if b is not None:
                        keys.setdefault((k, sgn), []).append(it)
    for (k, sgn), its in keys.items():
        m = {'name': show(k)}
        for it in backs:
            y = at_end(v, l, it, k)
            if y is None:
                continue
            d = sub(y, k) if sgn == 1 else sub(k, y)
            ind.cur = it.evs[-1] if it.evs else None
            if ind.low(it.facts, d, 1) and it in its:
                m[id(it)] = 'down'
            elif d == c(0) or ind.low(it.facts, d, 0):
                m[id(it)] = 'same'
        out.append(m)
    for loc, h in l.havoc.items():
        if not (isinstance(h, tuple) and h):
            continue
        m, n, g = {'name': 'the size of ' + show(h)}, {'name': 'the rest behind ' + show(h)}, {'name': 'what is left to read from ' + show(h)}
        for it in backs:
            x = v.eng.rd(it.st, loc) if it.st is not None else None
            if x is None:
                continue
            if x == h:
                m[id(it)] = n[id(it)] = 'same'
                continue
            if h[0] == 'phi' and x[0] not in ('c', 'it', 'obj', 'adv', 'lin'):
                d = sub(sz(h), sz(x))
                if ind.low(it.facts, d, 1):
                    m[id(it)] = 'down'
                elif ind.low(it.facts, d, 0):
                    m[id(it)] = 'same'
            if x == ('adv', h) or x[0] == 'adv' and h in list(subterms(x)):
                n[id(it)] = 'down'
            elif pos(x)[0] in SEARCH and pos(h)[0] == 'phi' and forward(v, ind, l, it, pos(h), pos(x)):
                n[id(it)] = 'down'
        out += [m, n]
    g = {'name': 'the input left to read'}
    for it in backs:
        for k, w in it.facts.items():
            if k[0] == 'b' and w is True and any(reads(y) for y in subterms(k[1])):
                g[id(it)] = 'down'
        if converts(v, l, it):
            g[id(it)] = 'down'
    a = {'name': 'the tokens left (style parsers that report options take one)'}
    for it in backs:
        for loc, h in l.havoc.items():
            if loc[-1] != 'm_args' or h is None:
                continue
            x = v.eng.rd(it.st, loc) if it.st is not None else None
            if x is None:
                continue
            if x[0] == 'sub' and x[1][0] == 'phi' and x[1][2] == loc and x[3] == size(x[1]) and at_least(it.facts, x[2], 1):
                a[id(it)] = 'down'
            elif x[0] in ('out', 'aft') and any(k[0] == 'size' and k[1][0] == 'icall' and at_least(it.facts, k, 1) or isinstance(w, tuple) and 0 in w[2] and size(x) in lin(k)[1] for k, w in it.facts.items()):
                a[id(it)] = 'down'
    s = {'name': 'the text behind the place searched from'}
    for it in backs:
        if later(v, ind, l, it):
            s[id(it)] = 'down'
    return out + [g, a, s]


def reads(y):
    """a call that takes a line or a value from a stream"""
    return bool(y) and (y[0] in READ or y[0] == 'call' and str(y[1]).split('::')[-1] in READ)


def converts(v, l, it):
    """a conversion step that made progress"""
    for loc, h in l.havoc.items():
        x = v.eng.rd(it.st, loc) if it.st is not None else None
        if x is not None and x[0] == 'out' and x[1].startswith('std::__codecvt_abstract_base::') and x != h:
            for k, w in it.facts.items():
                if isinstance(w, tuple) and 0 in w[2] and any(y and y[0] == 'out' and y[1] == x[1] for y in subterms(k)):
                    return True
    return False


def later(v, ind, l, it):
    """the search goes on behind what was put in, in the text behind what was found"""
    for loc, h in l.havoc.items():
        p = pos(h) if h is not None else None
        x = v.eng.rd(it.st, loc) if it.st is not None and p is not None else None
        if x is None or p[0] != 'phi' or x == h:
            continue
        for k in [k for k in it.facts if k[0] == 'found' and it.facts[k] is True]:
            f = k[1]
            if f[0] == 'find' and f[3] == p and f[1][0] == 'phi' and l.havoc.get(f[1][2]) == f[1]:
                t = v.eng.rd(it.st, f[1][2])
                if t is None:
                    continue
                if ind.low(it.facts, sub(sub(sz(f[1]), p), sub(sz(t), pos(x))), 1) or behind(f, t, pos(x)):
                    return True
    return False


def refound(v, l, it):
    """what was put in for something found can be found again, and the search does not go on behind it"""
    for loc, h in l.havoc.items():
        if not (isinstance(h, tuple) and h and h[0] == 'phi' and h[2] == loc):
            continue
        t = v.eng.rd(it.st, loc) if it.st is not None else None
        if t is None or t[0] != 'cat' or t[1][0] != 'sub' or t[1][1] != h or t[1][2] != c(0):
            continue
        f = t[1][3]
        put = [y for y in t[2:] if not (y[0] == 'sub' and y[1] == h)]
        for k in [k for k in it.facts if k[0] == 'found' and it.facts[k] is True and k[1] == f]:
            # found in this round; the next round searches from x
            if f[0] != 'find' or not (f[3] == c(0) or f[3][0] == 'phi' and l.havoc.get(f[3][2]) == f[3]):
                continue
            x = pos(v.eng.rd(it.st, f[3][2])) if f[3] != c(0) else c(0)
            if x is not None and x in (f, f[3], c(0)) and mayhold(put, f[2]):
                return True
        if f[0] == 'phi' and f[1] == l.id and pos(l.havoc.get(f[2])) == f:
            # found before this round, and searched again at its end
            x, b = pos(v.eng.rd(it.st, f[2])), pos(l.base0.get(f[2]))
            if x is not None and b is not None and x[0] == 'find' and b[0] == 'find' and x[1] == t and x[2] == b[2] and x[3] in (c(0), f) and mayhold(put, x[2]):
                return True
    return False


def mayhold(put, tok):
    for y in put:
        if y[0] not in ('str', 'chr', 'c'):
            return True
        if y[0] == 'str' and tok[0] == 'str' and tok[1] in y[1]:
            return True
    return False


def behind(f, t, x):
    """t is the text with what f found replaced, x the place behind the replacement"""
    if t[0] != 'cat':
        return False
    a, rest = t[1], t[2:]
    if a != substr(f[1], c(0), f):
        return False
    n = c(0)
    for y in (rest if rest and rest[-1][0] != 'sub' or rest[-1][1] != f[1] else rest[:-1]):
        n = add(n, size(y))
    return x == add(f, n) or x == add(f, add(n, c(0)))


READ = ('getline', 'rdstream', 'streamread')


def at_end(v, l, it, k):
    """k in terms of the end of the round"""
    c0, d = lin(k)
    out = c(c0)
    for y, n in d.items():
        z = y_end(v, l, it, y)
        if z is None:
            return None
        for _ in range(abs(n)):
            out = add(out, z) if n > 0 else sub(out, z)
    return out


def y_end(v, l, it, y):
    if not own_terms(l, y):
        return y
    if y[0] == 'ix' and y[1][0] == l.id:
        return add(y, c(y[1][3]))
    if y[0] == 'phi':
        x = v.eng.rd(it.st, y[2]) if it.st is not None and pos(l.havoc.get(y[2])) == y else None
        return pos(x) if x is not None and pos(x)[0] not in ('key', 'mkey', 'adv') else None
    if y[0] == 'size' and y[1][0] == 'phi' and y[1][1] == l.id and l.havoc.get(y[1][2]) == y[1]:
        x = v.eng.rd(it.st, y[1][2]) if it.st is not None else None
        return sz(x) if x is not None else None
    return None


def forward(v, ind, l, it, p, x):
    """a search that goes on behind the place found before, in no more text than was left"""
    text = x[1]
    start = x[3] if len(x) > 3 else x[2]
    old = None
    for loc, h in l.havoc.items():
        e = v.eng.rd(it.st, loc) if it.st is not None else None
        if e == text:
            old = h
    if not own_terms(l, text):
        old = text
    if old is None or old[0] == 'it':
        return False
    return ind.low(it.facts, sub(sub(sz(old), p), sub(sz(text), start)), 1)
