"""configuration files and the environment"""
from .dsl import *
from .rules_cmd import all3, own

GET = 'detail::common_config_file_iterator::get'
CFI = 'detail::common_config_file_iterator::'
ALLOWED = CFI + 'allowed_option'
LINE = CFI + 'getline'
WS = set(' \t\r\n')
SPACE = set(' \t\r\n\v\f')
VAL = fld(THIS, 'm_value')
PRE = fld(THIS, 'm_prefix')


def uses(s, t):
    return any(contains(k, t) for k in s)


# ----------------------------------------------------- positions inside a line
class Line(object):
    """names positions and pieces of one input line L by what they mean

    S start, S+ start without white space, CUT end of the part before a comment, CUT- the
    same without trailing white space, EQ / EQ1 first '=' and the place after it, EQ- / EQ1+
    the same with the white space next to it skipped; '?...' something else; None unknown."""
    def __init__(self, L, facts):
        self.L, self.facts = L, facts
        self.memo = {}
        self.nohash = False
        hs = {t for k in facts for t in subterms(k) if t and t[0] == 'find' and self.whole(t)}
        self.nohash = any(facts.get(('found', t)) is False or (ival(facts, sub(t, size(t[1])))[0] or 0) >= 1 for t in hs)
        self.memo = {}

    def bounds(self, x):
        if x == self.L:
            return c(0), size(self.L)
        if x[0] == 'sub' and x[1] == self.L:
            return x[2], x[3]
        return None

    def whole(self, t):
        """find(.., '#') over the whole line"""
        if t[0] != 'find' or t[2] != ('str', '#') or t[3] != c(0):
            return False
        b = self.bounds(t[1])
        return b is not None and self.pos(b[0]) in ('S', 'S+') and self.pos(b[1]) in ('END', 'END-', 'CUT', 'CUT-')

    def pos(self, p):
        if p not in self.memo:
            self.memo[p] = None
            self.memo[p] = self._pos(p)
        return self.memo[p]

    def _pos(self, p):
        k, d = lin(p)
        if not d:
            return 'S' if k == 0 else '?S%+d' % k
        if d == {size(self.L): 1} and k <= 0:
            e = 'CUT' if self.nohash else 'END'
            return e if k == 0 else '?%s%+d' % (e, k)
        for t, n in d.items():
            if n != 1 or t[0] not in ('find', 'rfind', 'ffo', 'ffno', 'flo', 'flno'):
                continue
            b = self.bounds(t[1])
            if b is None or t[2][0] != 'str':
                continue
            k2, d2 = lin(sub(sub(p, t), b[0]))
            if d2:
                continue
            A, B = self.pos(b[0]), self.pos(b[1])
            if A is None or B is None:
                return None
            r = self.named(t[0], t[2][1], t[3], A, B, k2)
            if r is not None:
                return r
        return None

    def named(self, kind, pat, frm, A, B, k):
        st = frm == c(0) if kind in ('find', 'ffo', 'ffno') else frm == c(NPOS)
        if not st:
            return None
        if kind in ('ffno', 'flno') and set(pat) <= SPACE:
            if not WS <= set(pat):
                return '?%s%s' % (kind, A if kind == 'ffno' else B)
            if kind == 'ffno':
                r = A if A.endswith('+') else A + '+'
            else:
                k -= 1
                r = B if B.endswith('-') else B + '-'
            return r if k == 0 else '?%s%+d' % (r, k) if not r.startswith('?') else '%s%+d' % (r, k)
        if kind == 'find' and pat == '#':
            if A in ('S', 'S+') and B in ('END', 'END-', 'CUT', 'CUT-'):
                return 'CUT' if k == 0 else '?CUT%+d' % k
        if kind == 'find' and pat == '=':
            if A in ('S', 'S+') and B in ('CUT', 'CUT-', 'END', 'END-'):
                x = '' if B.startswith('CUT') else '?' if not self.hashfound() else '?'
                return x + ('EQ' if k == 0 else 'EQ1' if k == 1 else '?EQ%+d' % k)
        if kind in ('rfind', 'flo', 'ffo') or kind == 'find':
            return '?%s%s%+d' % (kind, ''.join(sorted(set(pat))), k)
        return None

    def hashfound(self):
        return any(k[0] == 'found' and self.facts[k] is True and self.whole(k[1]) for k in self.facts)

    def piece(self, t):
        """(start, end) names of a piece of the line"""
        b = self.bounds(t)
        if b is None:
            return None
        return self.pos(b[0]), self.pos(b[1])

    def blank(self, S, E):
        """facts say the piece between S and E is all white space (None: not known)"""
        for k, w in self.facts.items():
            if k[0] == 'found' and k[1][0] in ('ffno', 'flno') and k[1][2][0] == 'str' and WS <= set(k[1][2][1]) <= SPACE:
                b = self.piece(k[1][1])
                if b and b[0] in S and b[1] in E:
                    return w is False
            # an empty piece
        return None

    def pick(self, terms, S, E):
        """a piece of the line between S and E that some term talks about"""
        for x in terms:
            for t in subterms(x):
                if t and t[0] == 'sub' and t[1] == self.L:
                    p = self.piece(t)
                    if p and p[0] in S and p[1] in E:
                        return t
        return None

    def trimbounds(self):
        """all terms for the ends of the line without comment and white space"""
        a, b = [], []
        for k in self.facts:
            for t in subterms(k):
                if t and t[0] in ('ffno', 'flno'):
                    bd = self.bounds(t[1])
                    if bd is None:
                        continue
                    p, q = add(bd[0], t), add(add(bd[0], t), c(1))
                    if t[0] == 'ffno' and self.pos(p) == 'S+' and p not in a:
                        a.append(p)
                    if t[0] == 'flno' and self.pos(q) == 'CUT-' and q not in b:
                        b.append(q)
        return a, b

    def charsknown(self, facts):
        """does the path test single characters for being white space?"""
        for k, w in facts.items():
            for t in subterms(k):
                if t and t[0] == 'at' and t[1] == self.L and isinstance(w, tuple):
                    if w[0] == w[1] and w[0] in {ord(x) for x in SPACE} or any(ord(x) in w[2] for x in SPACE):
                        return True
                if t and (t[0] in ('isspace', 'ext', 'strchr') or t[0] == 'at' and t[1] == self.L and any(x and x[0] == 'ix' for x in subterms(t[2]))):
                    return True
        return False


def text_is(ln, t, S, E, facts):
    """piece t runs from one of S to one of E (or is "" because that piece is blank)"""
    if t == ('str', ''):
        bl = ln.blank(set(S) | {x.rstrip('+') for x in S}, set(E) | {x.rstrip('-') for x in E})
        return True if bl else None
    p = ln.piece(t)
    if p is None or None in p:
        return None
    if p[0] in S and p[1] in E:
        return True
    if 'END' in p[1] and not ln.nohash and not ln.hashfound():
        # the path does not look for a comment at all, or in a way not recognised
        if any(x and x[0] in ('find', 'ffo') and '#' in str(x[2]) for k in facts for x in subterms(k)):
            return None
    if ln.charsknown(facts):
        return None
    return False


def line_of(it):
    """what getline left in this iteration"""
    cs = calls(it.evs, LINE)
    if len(cs) != 1:
        return None, None
    outs = set()
    for x in list(it.facts) + [e.val for e in it.evs if e.k in ('write', 'mut')]:
        for t in subterms(x):
            if t and t[0] == 'out' and is_out(t, 'getline'):
                outs.add(t)
    return cs[0], (list(outs)[0] if len(outs) == 1 else None)


def c20(ck):
    f = ck.opt(GET)
    if not f:
        return
    v = ck.view(f, [ALLOWED, LINE], merge_at=400)
    levs = [(s, i, e) for s, i, e in v.events('loop') if s.parent is None and any(calls(it.evs, LINE) for it in e.iters)]
    if not levs:
        ck.ob('lines are read in a loop', None, f, 'the loop over the lines was not recognised', v)
        return
    seen = set()
    n = dict.fromkeys(('blank', 'section', 'setting', 'other', 'eof'), 0)
    for s0, i0, lev in levs:
        if lev.id in seen:
            continue
        seen.add(lev.id)
        for it in lev.iters:
            one_line(ck, v, f, lev, it, n)
    for k in ('blank', 'section', 'setting', 'other'):
        ck.ob('every kind of line is handled', True if n[k] else None, f, 'no path for a line of kind %s' % k, v)
    # end of input
    for s in own(tops(v, 'ret')):
        g = [k for k in s.facts if k[0] == 'b' and any(t and t[0] == 'call' and str(t[1]).endswith('::getline') for t in subterms(k))]
        if not g:
            continue
        w = [e for e in s.evs if e.k in ('write', 'mut') and under(e.loc, VAL)]
        if any(s.facts[k] is False for k in g):
            n['eof'] += 1
            ck.ob('end of input ends the iteration', bsame(s.facts, end(v, s, fld(THIS, 'm_at_eof')), True) and True, f, 'at end of input the iterator says %s' % show(end(v, s, fld(THIS, 'm_at_eof')))[:40], v, {})
        elif all(s.facts[k] is True for k in g) and w:
            ck.ob('a setting does not end the iteration', not [e for e in flat_evs(s.evs) if e.k == 'write' and e.loc == fld(THIS, 'm_at_eof')], f, 'end of input reported with a setting', v, {})
    ck.ob('every kind of line is handled', True if n['eof'] else None, f, 'no path for the end of input', v)
    init(ck)
    drive(ck)


def one_line(ck, v, f, lev, it, n):
    R = {'blank': 'a blank or comment line has no effect', 'section': 'a section line sets the prefix', 'setting': 'name and value of a setting', 'other': 'any other line is an error'}
    if foreign(it):
        return
    call, L = line_of(it)
    if call is None:
        return
    wv = [e for e in flat_evs(it.evs) if e.k in ('write', 'mut') and (under(e.loc, VAL) or e.loc == VAL)]
    wp = [e for e in flat_evs(it.evs) if e.k in ('write', 'mut') and e.loc == PRE]
    got = truth(it.facts, tobool(call.res))
    if got is False:
        ck.ob('nothing happens at end of input', not wv and not wp, call, 'state written without a line', v, {})
        return
    if L is None:
        return
    ln = Line(L, it.facts)
    a, b = ln.trimbounds()
    bl = ln.blank(('S', 'S+'), ('CUT', 'CUT-'))
    where = call
    if bl:
        n['blank'] += 1
        ok = it.kind == 'back' and not wv and not wp
        ck.ob(R['blank'], ok, where, 'a line without content: %s' % it.kind, v, {})
        return
    if not a or not b:
        # not trimmed, or not in a way that is recognised
        odd = [t for k in it.facts for t in subterms(k) if t and t[0] in ('ffno', 'flno', 'find')]
        names = {ln.pos(add(bd[0], t)) for t in odd for bd in [ln.bounds(t[1])] if bd}
        if it.kind == 'throw' or wv or wp:
            ck.ob('comment and surrounding white space are dropped', False if names and all(x is not None for x in names) and not ln.charsknown(it.facts) and (wv or wp) and deepknown(it, L) and plainvals(wv + wp, L) else None, where,
                  'the line is used without dropping comment and white space (%s)' % sorted(str(x) for x in names), v, {})
        return
    opens = [cmp_('==', at(L, x), c(91)) for x in a]
    closes = [cmp_('==', at(L, sub(y, c(1))), c(93)) for y in b]
    eqs = [k for k in it.facts if k[0] == 'found' and k[1][0] == 'find' and k[1][2] == ('str', '=') and ln.bounds(k[1][1]) and
           {ln.pos(x) for x in ln.bounds(k[1][1])} <= {'S', 'S+', 'CUT', 'CUT-'} and k[1][3] == c(0)]
    base = it.facts
    for kind, gs in (('section', opens + closes + [cmp_('<=', add(x, c(2)), y) for x in a for y in b]), ('nosec', [neg(x) for x in opens]), ('nosec', opens + [neg(x) for x in closes])):
        for g in assume_all(base, gs)[:1]:
            if kind == 'section':
                n['section'] += 1
                if it.kind != 'back' or wv:
                    known = any(uses(it.facts, at(L, x)) for x in a + [sub(y, c(1)) for y in b]) or it.kind != 'throw'
                    ck.ob(R['section'], False if known and not odd_atoms(it, L, ln) else None, where, 'a line in brackets is not taken as a section (%s)' % it.kind, v, {})
                    continue
                if not wp:
                    ck.ob(R['section'], False if not odd_atoms(it, L, ln) else None, where, 'a line in brackets leaves the prefix unchanged', v, {})
                    continue
                section(ck, v, lev, it, ln, a, b, g, R['section'], where)
            else:
                if wp:
                    ck.ob(R['section'], False if not odd_atoms(it, L, ln) else None, wp[0], 'the prefix changes on a line that is not in brackets', v, {})
                    continue
                if not eqs:
                    if wv:
                        ck.ob(R['other'], False if not odd_atoms(it, L, ln) else None, where, "a setting is reported without looking for '='", v, {})
                    elif it.kind == 'back':
                        ck.ob(R['other'], False if not odd_atoms(it, L, ln) and not uses(it.facts, ('str', '=')) else None, where, 'a line with content is skipped', v, {})
                    continue
                for w in (True, False):
                    for g2 in assume(g, eqs[0], w)[:1]:
                        if w:
                            n['setting'] += 1
                            setting_line(ck, v, lev, it, ln, g2, R['setting'], where)
                        else:
                            n['other'] += 1
                            ok = throws(it, 'invalid_config_file_syntax')
                            if not ok:
                                ck.ob(R['other'], False if not odd_atoms(it, L, ln) else None, where, "a line without '=' ends as %s" % it.kind, v, {})
                                continue
                            t_, args = exc_in(it)
                            ck.ob(R['other'], True, where, '', v)
                            if args:
                                k = args[1] if len(args) > 1 else None
                                ck.ob('the error shows the offending line', ln.piece(args[0]) is not None or (None if args[0][0] in BAD or contains(args[0], L) else False), where, 'shows %s' % show(args[0])[:60], v, {})
                                if k is not None and k[0] == 'c':
                                    ck.ob('the error has the right kind', k == c(ck.enum('unrecognized_line')) or k[1] == ck.enum('unrecognized_line'), where, 'kind %s' % show(k), v, {})


def deepknown(it, L):
    m = {L: ('known', 0)}
    return not any(t and t[0] in ('phi', 'mrg', 'unk') for k in it.facts for t in subterms(subst(k, m)) if not iocall(k))


def plainvals(evs, L):
    m = {L: ('known', 0)}
    for e in evs:
        val = getattr(e, 'val', None)
        if val is not None:
            for t in subterms(subst(val, m)):
                if t and t[0] in ('phi', 'mrg', 'unk') and not (t[0] == 'phi' and t[2] in (PRE,) + tuple(x.loc for x in evs)):
                    return False
    return True


def iocall(k):
    return k[0] == 'b' and isinstance(k[1], tuple) and k[1][0] == 'call'


def odd_atoms(it, L, ln):
    """path conditions about the line the rules do not understand"""
    for k, w in it.facts.items():
        if not contains(k, L):
            continue
        for t in base_terms(k):
            if not contains(t, L):
                continue
            if t[0] == 'found':
                t = t[1]
            if t[0] in ('find', 'rfind', 'ffo', 'ffno', 'flo', 'flno'):
                bd = ln.bounds(t[1])
                if bd is None or ln.pos(add(bd[0], t)) is None:
                    return True
                continue
            if t[0] == 'at' and t[1] == L:
                if ln.pos(t[2]) is None:
                    return True
                continue
            if t[0] == 'at' and t[1][0] == 'cat' and all(x[0] in ('str', 'chr') or x == In(PRE) or x[0] == 'phi' and x[2] == PRE or ln.piece(x) and None not in ln.piece(x) for x in t[1][1:]):
                continue        # a character of a name or prefix put together from pieces of the line
            if t == size(L):
                continue
            if iocall(k) or t[0] == 'call':
                continue
            return True
    return False


def assume_all(facts, ts):
    cur = [facts]
    for t in ts:
        cur = [g for x in cur for g in assume(x, t, True)]
    return cur


def section(ck, v, lev, it, ln, a, b, g, R, where):
    p = end(v, it, PRE)
    los, his = [add(x, c(1)) for x in a], [sub(y, c(1)) for y in b]
    inner = [substr(ln.L, lo, hi) for lo in los for hi in his]
    dot = [cmp_('==', at(ln.L, sub(hi, c(1))), c(46)) for hi in his]
    nonempty = [cmp_('>=', sub(hi, lo), c(1)) for lo in los for hi in his]
    ends = assume_all(g, nonempty + dot)[:1]
    plain = assume_all(g, [neg(x) for x in nonempty])[:1] + assume_all(g, nonempty + [neg(x) for x in dot])[:1]
    withdot = [cat(x, ('str', '.')) for x in inner]
    emptyin = not assume_all(g, nonempty)
    # the prefix in force before the line is known as such, and never part of the new one
    p = subst(p, {lev.havoc.get(PRE) or In(PRE): ('known', 1)})
    if p[0] in BAD and not contains(p, ln.L):
        ck.ob(R, None, where, 'prefix %s' % show(p)[:80], v, {})
        return
    if emptyin:
        ck.ob(R, p in withdot + [('str', '.')] or None, where, 'empty section: prefix %s' % show(p)[:80], v, {})
        return
    oddp = any(x and x[0] in BAD for x in subterms(subst(p, {ln.L: ('known', 0)})))
    if ends and plain:
        ck.ob(R, None if oddp or odd_atoms(it, ln.L, ln) else False, where, 'the trailing dot of a section name is not looked at: %s' % show(p)[:80], v, {})
    elif ends:
        ck.ob(R, p in inner or (None if oddp else False), where, 'section name ending in a dot: prefix %s' % show(p)[:80], v, {})
    else:
        ck.ob(R, p in withdot or (None if oddp else False), where, 'section name not ending in a dot: prefix %s' % show(p)[:80], v, {})


def stops(v, lev, it):
    """the loop does not go round again after this iteration: a flag every iteration needs is off"""
    for loc, h in lev.havoc.items():
        if h is None:
            continue
        ws = {truth(x.facts, tobool(h)) for x in lev.iters if not foreign(x)}
        if len(ws) == 1 and None not in ws:
            e = end(v, it, loc)
            if is_c(e) and bool(e[1]) is not list(ws)[0]:
                return True
    return False


def setting_line(ck, v, lev, it, ln, g, R, where):
    if throws(it, 'unknown_option'):
        t_, args = exc_in(it)
        return
    if it.kind == 'throw' or it.kind == 'back' and not stops(v, lev, it):
        ck.ob(R, False if not odd_atoms(it, ln.L, ln) else None, where, "a line with '=' ends as %s" % it.kind, v, {})
        return
    head = lev.havoc.get(PRE)
    pre = head if head is not None else In(PRE)
    key, val, org = [end(v, it, fld(VAL, x)) for x in ('string_key', 'value', 'original_tokens')]
    # name
    tail = None
    if key == pre:
        tail = ('str', '')
    elif key[0] == 'cat' and key[1] == pre:
        tail = cat(*key[2:])
    if tail is not None:
        r = text_is(ln, tail, ('S+',), ('EQ-',), g)
        ck.ob(R, r, where, 'name is %s + %s' % (show(pre)[:20], ln.piece(tail)), v, {})
    else:
        p = ln.piece(key)
        ck.ob(R, False if p and None not in p else None, where, 'the section prefix is missing: %s' % (p,), v, {})
    if val[0] == 'seq':
        if len(val) == 2:
            ck.ob(R, text_is(ln, val[1], ('EQ1+',), ('CUT-',), g), where, 'value is %s' % (ln.piece(val[1]),), v, {})
        else:
            ck.ob(R, False, where, '%d values' % (len(val) - 1), v, {})
    else:
        vv = val[1] if val[0] == 'push' else val
        old = vv == In(fld(VAL, 'value')) or vv == lev.havoc.get(fld(VAL, 'value')) or (vv[0] == 'phi' and vv[2] == fld(VAL, 'value'))
        ms = [e for e in flat_evs(it.evs) if e.k in ('write', 'mut') and (e.loc == fld(VAL, 'value') or e.loc == VAL)]
        old = old or (ms and all(e.k == 'mut' and e.meth in ('push_back', 'emplace_back') for e in ms))
        ck.ob(R, False if val[0] == 'push' and old else None, where, 'values of earlier settings are kept: %s' % show(val)[:60], v, {})
    if org[0] == 'seq':
        want = ('seq', key, val[1]) if val[0] == 'seq' and len(val) == 2 else None
        if want:
            ck.ob('the tokens of a setting are its name and value', org == want or (len(org) == 3 and None if False else org == want), where, 'original tokens %s' % show(org)[:80], v, {})
    # the rest of the option
    for e in flat_evs(it.evs):
        if e.k == 'write' and e.loc == fld(VAL, 'position_key') and is_c(e.val):
            ck.ob('a setting has no position', e.val == c(-1), e, 'position %s' % show(e.val), v, {})


def init(ck):
    """the iterator starts with the first setting, no prefix and not at the end"""
    for f in ck.fns('detail::basic_config_file_iterator::basic_config_file_iterator'):
        if not f['ps']:
            v = ck.view(f, [GET])
            for s in tops(v, 'ret'):
                ck.ob('the end iterator is at the end', bsame(s.facts, end(v, s, fld(THIS, 'm_at_eof')), True), f, 'end iterator', v, {})
            continue
        v = ck.view(f, [GET, CFI + 'add_option'])
        for s in tops(v, 'ret'):
            cs = calls(s.evs, GET)
            ck.ob('the first setting is read on construction', len(cs) == 1, f, 'get() called %d times' % len(cs), v, {})
    f = [x for x in ck.fns('detail::common_config_file_iterator::common_config_file_iterator') if x['ps'] and len(x['ps']) == 2]
    for f in f:
        v = ck.view(f, [CFI + 'add_option'])
        for s in tops(v, 'ret'):
            au = end(v, s, fld(THIS, 'm_allow_unregistered'))
            ck.ob('the flag for unknown settings is taken over', same(au, In(P(f, 1))) if au != P(f, 1) else True, f, 'flag %s' % show(au)[:40], v, {})
            ck.ob('there is no prefix at first', end(v, s, PRE) == ('str', '') or (None if end(v, s, PRE)[0] in BAD else False), f, 'prefix %s' % show(end(v, s, PRE))[:40], v, {})
            ao = end(v, s, fld(THIS, 'allowed_options'))
            ck.ob('declared names are taken over', ao in (P(f, 0), In(P(f, 0))) or (None if ao[0] in BAD else False), f, 'names %s' % show(ao)[:40], v, {})
    for f in ck.fns('detail::basic_config_file_iterator::getline'):
        v = ck.view(f, ['to_internal'])
        n = 0
        for s in own(tops(v, 'ret')):
            rd = [e for e in s.evs if e.k == 'getline']
            out = end(v, s, P(f, 0))
            if len(rd) != 1 or rv(v, s)[0] != 'c':
                ck.ob('a line is read from the stream', None, f, 'reading of a line not recognised', v, {})
                continue
            n += 1
            oks = [w for k, w in s.facts.items() if k[0] == 'b' and k[1][0] == 'streamok']
            if rv(v, s) == c(True):
                ln = out[2] if out[0] == 'call' and out[1].endswith('to_internal') else out
                ck.ob('a line is read from the stream', (oks == [True]) and (contains(out, ('line',)) or any(t and t[0] == 'line' for t in subterms(out))) and (ln[0] == 'line' or None), f, 'delivers %s' % show(out)[:60], v, {})
            else:
                ck.ob('input ends only when the stream does', oks == [False], f, 'no line although the stream delivered one', v, {})
        ck.ob('a line is read from the stream', True if n > 1 else None, f, 'both outcomes', v, {})


def drive(ck):
    """every setting the iterator delivers reaches the result"""
    R = 'every setting is delivered, in order'
    for f in [x for x in ck.fns('parse_config_file') if 'istream' in x['ps'][0]['t']]:
        v = ck.view(f, [GET, CFI + 'add_option'])
        for s in tops(v, 'ret'):
            g = [i for i, e in enumerate(s.evs) if e.k == 'call' and e.q.endswith(GET)]
            ct = [e for e in s.evs if e.k == 'ctor' and e.q.endswith('::basic_config_file_iterator') and e.args]
            if not g or not ct:
                ck.ob(R, None, f, 'the iterator over the settings was not recognised', v, {})
                continue
            a = ct[-1]
            ck.ob('the stream given is the one read', a.argl[0] == P(f, 0) or a.args[0] in (P(f, 0), In(P(f, 0))) or (False if a.argl[0] else None), a, 'reads %s' % show(a.args[0])[:40], v, {})
            ck.ob('the flag for unknown settings is passed on', a.args[2] in (In(P(f, 2)), P(f, 2)) or (False if a.args[2][0] == 'c' else None), a, 'allow_unregistered is %s' % show(a.args[2])[:40], v, {})
            lv = [e for e in s.evs[g[-1]:] if e.k == 'loop']
            ad = [e for e in lv if any(x.k == 'mut' and x.meth == 'push_back' for it in e.iters for x in flat_evs(it.evs))]
            if not ad:
                ck.ob(R, None if lv else False, f, 'no loop copies the settings', v, {})
                continue
            for it in ad[0].iters:
                if foreign(it):
                    continue
                pb = [x for x in flat_evs(it.evs) if x.k == 'mut' and x.meth in ('push_back', 'insert', 'emplace_back')]
                if it.kind != 'back':
                    ck.ob(R, None if any(x and x[0] == 'call' for k in it.facts for x in subterms(k)) else False, f, 'the copying stops early (%s)' % it.kind, v, {})
                    continue
                full = len(pb) == 1 and pb[0].meth == 'push_back' and pb[0].val[0] == 'push' and contains_it(pb[0].val)
                ck.ob(R, True if full else None if pb else False, pb[0] if pb else f, 'each setting is appended once', v, {})
            # the result holds what was collected
            r = rv(v, s)
            opts = optfield(r, 'options')
            while opts is not None and opts[0] == 'vmap':
                opts = opts[1]
            ck.ob(R, True if opts is not None and (opts[0] == 'phi' and opts[1] == ad[0].id) else None if opts is None or opts[0] in BAD else False, f, 'result holds %s' % show(opts or c(0))[:60], v, {})


def contains_it(t):
    return any(x and x[0] == 'itelem' for x in subterms(t))


def optfield(r, n):
    """member n of an object value"""
    if r[0] == 'obj':
        for k, x in r[2]:
            if k == n:
                return x
    return None


# ------------------------------------------------------------ declared names
def c21(ck):
    f = ck.opt(ALLOWED)
    if f:
        allowed(ck, f)
    f = ck.opt(CFI + 'add_option')
    if f:
        wildcards(ck, f)
    R = 'every declared name is registered'
    for f in [x for x in ck.fns('detail::common_config_file_iterator::common_config_file_iterator') if len(x['ps']) == 2]:
        v = ck.view(f, [CFI + 'add_option'])
        for s in tops(v, 'ret'):
            ls = [(i, e) for i, e in enumerate(s.evs) if e.k == 'loop' and any(calls(it.evs, CFI + 'add_option') for it in e.iters)]
            if not ls:
                ck.ob(R, False if not any(e.k == 'loop' for e in s.evs) else None, f, 'wildcard names are not registered', v, {})
                continue
            i, lev = ls[0]
            src = [x for x in (In(P(f, 0)), P(f, 0), end(v, s, fld(THIS, 'allowed_options')))]
            w = [walks(v, s, i, lev, x) for x in src]
            ck.ob(R, True if True in w else False if False in w else None, f, 'all names are registered', v, {})
            for it in lev.iters:
                cs = calls(it.evs, CFI + 'add_option')
                if it.kind == 'back':
                    ok = len(cs) == 1 or None
                    if not cs:
                        ok = False if set(k for k in it.facts) <= set(s.facts) or deepclean(it.facts) else None
                    ck.ob(R, ok, f, 'each name is registered once', v, {})
                    if len(cs) == 1:
                        els = [e for x in src for e in iter_of(lev, x)]
                        a = cs[0].args[0]
                        ck.ob(R, any(a == x or contains(a, x) for x in els) or None, cs[0], 'registers %s' % show(a)[:40], v, {})
    names(ck)
    unknown(ck)


def unknown(ck):
    """a setting that is not declared is refused, or reported and marked as such"""
    f = ck.opt(GET)
    if not f:
        return
    R, RM = 'an undeclared name is refused unless allowed', 'a setting is marked unregistered exactly when undeclared'
    v = ck.view(f, [ALLOWED, LINE], merge_at=400)
    UN, AU = fld(VAL, 'unregistered'), infld(THIS, 'm_allow_unregistered')
    seen, n = set(), {}
    for s0, i0, lev in v.events('loop'):
        if lev.id in seen or not any(calls(it.evs, LINE) for it in lev.iters):
            continue
        seen.add(lev.id)
        au = lev.havoc.get(fld(THIS, 'm_allow_unregistered')) or AU
        old = (In(UN), lev.havoc.get(UN))
        for it in lev.iters:
            if foreign(it):
                continue
            unk = throws(it, 'unknown_option')
            key = end(v, it, fld(VAL, 'string_key'))
            rep = not unk and it.kind != 'throw' and [e for e in flat_evs(it.evs) if e.k in ('write', 'mut') and under(e.loc, VAL)]
            if not unk and not rep:
                continue
            name = (exc_in(it)[1] or [None])[0] if unk else key
            cs = calls(it.evs, ALLOWED)
            if not cs:
                ck.ob(R, False if not any(x and x[0] in ('ub', 'lb', 'has') for k in it.facts for x in subterms(k)) else None, it.evs[0] if it.evs else f, 'the name is not looked up among the declared ones', v, {})
                continue
            c0 = cs[-1]
            reg = tobool(c0.res)
            if name is not None:
                ck.ob(R, True if c0.args[0] == name else None if c0.args[0][0] in BAD or name[0] in BAD else False, c0, 'looks up %s for %s' % (show(c0.args[0])[-40:], show(name)[-40:]), v, {})
            for w in (True, False):
                for w2 in (True, False):
                    for g in assume_all(it.facts, [reg if w else neg(reg), tobool(au) if w2 else neg(tobool(au))])[:1]:
                        bad = (w or w2) if unk else (not w and not w2)
                        n[(bool(unk), w, w2)] = 1
                        what = 'a %s name is %s with unknown names %s' % ('declared' if w else 'undeclared', 'refused' if unk else 'accepted', 'allowed' if w2 else 'not allowed')
                        ck.ob(R, not bad or (False if deepclean_but(g, it) else None), c0, what, v, {})
                        if rep and not bad:
                            e = end(v, it, UN)
                            left = not [x for x in flat_evs(it.evs) if x.k in ('write', 'mut') and x.loc in (UN, VAL)]
                            if left or e in old:
                                ok = False if not w else (False if any([y for y in flat_evs(x.evs) if y.k == 'write' and y.loc == UN and y.val != c(False)] for x in lev.iters if not foreign(x)) else None)
                            else:
                                ok = bsame(g, tobool(e), not w)
                            ck.ob(RM, ok, c0, '%s name: mark is %s' % ('declared' if w else 'undeclared', show(e)[-40:]), v, g if ok is False and not left else {})
    for k in ((True, False, False), (False, True, True), (False, True, False), (False, False, True)):
        ck.ob(R, True if k in n else None, f, 'no path for this combination', v, {})


def deepclean_but(g, it):
    """nothing of the path but what the line says remains unexplained"""
    _, L = line_of(it)
    return L is None or deepknown(it, L) or not any(t and t[0] in ('unk', 'mrg') for k in g for t in subterms(k))


def allowed(ck, f):
    R = 'a name is accepted exactly when declared or covered by a wildcard'
    v = ck.view(f)
    s_ = In(P(f, 0))
    A, W = infld(THIS, 'allowed_options'), infld(THIS, 'allowed_prefixes')
    has = ('has', A, s_)
    ub = ('ub', W, s_)
    cov = prefix(s_, at(W, sub(ub, c(1))))
    n = 0
    for s in own(tops(v, 'ret')):
        r = tobool(rv(v, s))
        for g in assume(s.facts, has, True)[:1]:
            n += 1
            ck.ob(R, bsame(g, r, True), f, 'a declared name is refused', v, g)
        for g in assume(s.facts, has, False)[:1]:
            lb = [t for k in list(g) + [r] for t in subterms(k) if t and t[0] == 'lb' and t[1] == W]
            ubs = [t for k in list(g) + [r] for t in subterms(k) if t and t[0] == 'ub' and t[1] == W]
            eqs = truth(g, ('has', W, s_))
            if lb and not ubs:
                # the element before lower_bound is never the name itself
                if eqs is None and bsame(g, r, False):
                    ck.ob(R, False if deepclean(g) else None, f, 'a name equal to a wildcard prefix is refused', v, g)
                continue
            if not ubs:
                if bsame(g, r, True):
                    ck.ob(R, False if set(g) <= {has} else None, f, 'an undeclared name is accepted', v, g)
                elif bsame(g, r, False):
                    ck.ob(R, False if set(g) <= {has} else None, f, 'wildcards are not looked at', v, g)
                continue
            n += 1
            for w in (True, False):
                for h in assume(g, cmp_('==', ub, c(0)), w)[:1]:
                    if w:
                        ck.ob(R, bsame(h, r, False), f, 'no wildcard sorts before the name, yet it is accepted', v, h)
                        continue
                    for w2 in (True, False):
                        for h2 in assume(h, cov, w2)[:1]:
                            ck.ob(R, bsame(h2, r, w2), f, 'wildcard %s the name: %s' % ('covers' if w2 else 'does not cover', show(r)[:60]), v, h2)
    ck.ob(R, True if n > 2 else None, f, 'look-up of wildcards not recognised', v)


def wildcards(ck, f):
    R1, R2 = 'a trailing star makes a wildcard', 'overlapping wildcards are refused'
    R3 = 'the error names a wildcard that clashes'
    v = ck.view(f)
    nm = In(P(f, 0))
    W, WL = infld(THIS, 'allowed_prefixes'), fld(THIS, 'allowed_prefixes')
    star = cmp_('==', at(nm, sub(size(nm), c(1))), c(42))
    ne = cmp_('>=', size(nm), c(1))
    p = substr(nm, c(0), sub(size(nm), c(1)))
    lb = ('lb', W, p)
    atend = ('b', ('atend', lb, W))
    nxt = prefix(at(W, lb), p)
    first = cmp_('==', lb, c(0))
    prv = prefix(p, at(W, sub(lb, c(1))))
    n = 0
    for s in own(tops(v)):
        for g in [h for x in assume(s.facts, ne, True) for h in assume(x, star, False)[:1]]:
            ck.ob(R1, s.kind == 'ret' and not muts_of(s.evs, WL), f, 'a name without star changes the wildcards (%s)' % s.kind, v, g)
        for g in [h for x in assume(s.facts, ne, True) for h in assume(x, star, True)[:1]]:
            e = end(v, s, WL)
            known = any(contains(k, lb) for k in g)
            c1 = assume_all(g, [neg(atend), nxt])
            c2 = assume_all(g, [neg(first), prv])
            if s.kind == 'ret':
                n += 1
                ck.ob(R1, e == ('sins', W, p) or (None if e[0] in BAD or not deepclean(g) else False), f, 'wildcards become %s' % show(e)[:80], v, g)
                ck.ob(R2, not c1 or (False if known or set(g) <= {star, lin_key(ne)} else None), f, 'a wildcard that starts with the new one goes unnoticed', v, g)
                ck.ob(R2, not c2 or (False if known or set(g) <= {star, lin_key(ne)} else None), f, 'a wildcard the new one starts with goes unnoticed', v, g)
            elif throws(s, 'error'):
                n += 1
                b1 = [h for x in assume_all(g, [atend]) + assume_all(g, [neg(nxt)]) for h in assume_all(x, [first]) + assume_all(x, [neg(prv)])]
                ck.ob(R2, True if not b1 else False if known else None, f, 'refused without overlap', v, g)
                ck.ob(R2, True if not muts_of(s.evs, WL) else None, f, 'wildcards changed although refused', v, g)
                txt = [x for x in exc_in(s)[1] or [] if x[0] in ('cat', 'at')]
                for el, a, b in ((at(W, lb), [neg(atend), nxt], None), (at(W, sub(lb, c(1))), [neg(first), prv], None)):
                    if txt and contains(txt[0], el):
                        b = [h for x in a for h in assume_all(g, [neg(x)])]
                        ck.ob(R3, True if not b else False if known else None, f, 'the error names a wildcard that does not clash', v, b[0] if b else g)
                        break
                else:
                    ck.ob(R3, None, f, 'the error does not name the other wildcard', v, {})
    ck.ob(R1, True if n > 1 else None, f, 'registration of wildcards not recognised', v)


def lin_key(t):
    return t


def names(ck):
    """parse_config_file hands the long name of every option to the iterator"""
    from .rules_val import statics
    R = 'every option of the description is declared'
    for f in [x for x in ck.fns('parse_config_file') if 'istream' in x['ps'][0]['t']]:
        v = ck.view(f, [GET, CFI + 'add_option', 'option_description::long_name'])
        O = infld(P(f, 1), 'm_options')
        for s in tops(v, 'ret'):
            ct = [e for e in s.evs if e.k == 'ctor' and e.q.endswith('::basic_config_file_iterator') and e.args]
            if not ct:
                continue
            given = ct[-1].args[1]
            ls = [(i, e) for i, e in enumerate(s.evs) if e.k == 'loop' and any(calls(it.evs, 'option_description::long_name') for it in e.iters)]
            if not ls:
                ck.ob(R, None, f, 'the loop over the options was not recognised', v, {})
                continue
            i, lev = ls[0]
            w = walks(v, s, i, lev, O)
            ck.ob(R, w, f, 'options left out', v, {})
            tgt = None
            for it in lev.iters:
                ins = [e for e in it.evs if e.k == 'mut' and e.meth in ('insert', 'emplace')]
                cs = calls(it.evs, 'option_description::long_name')
                if foreign(it):
                    continue
                if it.kind == 'throw':
                    if not throws(it, 'error'):
                        continue
                    h = [h for e in cs for h in assume(it.facts, empty_of(val_of(e.res)), False)]
                    ck.ob('an option without long name is refused', True if not h else False if cs and deepclean(about(it.facts, *[val_of(e.res) for e in cs])) else None, f, 'an option with a long name is refused', v, {})
                    continue
                if it.kind != 'back':
                    ck.ob(R, None, f, 'loop left early', v, {})
                    continue
                if not ins:
                    ck.ob(R, None if not cs else False if deepclean(it.facts) else None, f, 'an option is not declared', v, {})
                    continue
                tgt = ins[0].loc
                el = [e for e in iter_of(lev, O)]
                okn = any(ins[0].val[0] == 'sins' and (ins[0].val[2] in (e.res, val_of(e.res))) for e in cs)
                of = cs and any(contains(getattr(e, 'oterm', ()) or (), x) for e in cs for x in el)
                ck.ob(R, True if okn and of else None if not of else None if ins[0].val[0] != 'sins' or contains_any(ins[0].val[2], [e.res for e in cs]) else False, ins[0], 'declares %s' % show(ins[0].val)[-60:], v, {})
                h = [h for e in cs for h in assume(it.facts, empty_of(val_of(e.res)), True)]
                ck.ob('an option without long name is refused', True if not h else False if deepclean(it.facts) else None, f, 'an option without long name is accepted', v, {})
            ck.ob('the declared names reach the iterator', given[0] == 'phi' and given[2] == tgt or (None if given[0] in BAD or tgt is None else False), ct[-1], 'the iterator gets %s' % show(given)[:60], v, {})
    ck.need(R, 4)


def val_of(r):
    """what a call returning a reference refers to"""
    return r if r[0] != 'call' else ('in', ('deref', r))


def contains_any(t, xs):
    return any(contains(t, x) for x in xs)


# --------------------------------------------------------------- files by name
def c22(ck):
    R = 'a file that cannot be read is reported'
    for f in [x for x in ck.fns('parse_config_file') if 'istream' not in x['ps'][0]['t']]:
        v = ck.view(f, ['parse_config_file'])
        n = 0
        for s in own(tops(v)):
            op = [t for k in s.facts for t in subterms(k) if t and t[0] == 'streamok']
            pc = calls(s.evs, 'parse_config_file')
            if foreign(s):
                continue
            if not op:
                ck.ob(R, False if deepclean(s.facts) and (pc or s.kind == 'ret') else None, f, 'a file that does not open goes unnoticed', v, s.facts)
                continue
            op = op[0]
            strm = op[1]
            for w in (True, False):
                for g in assume(s.facts, ('b', op), w)[:1]:
                    n += 1
                    if not w:
                        ok = throws(s, 'reading_file')
                        ck.ob(R, ok, f, 'a file that does not open: %s' % s.kind, v, g)
                        if ok:
                            ck.ob('the error names the file', args_name(s, f), f, 'file name in the error', v, g)
                        continue
                    if not pc:
                        ck.ob(R, False if s.kind == 'ret' or throws(s, 'reading_file') else None, f, 'a readable file is not parsed (%s)' % s.kind, v, g)
                        continue
                    a = pc[0].args
                    ck.ob('the opened file is parsed', (a[0] == strm and a[1] in (In(P(f, 1)), P(f, 1)) and a[2] in (In(P(f, 2)), P(f, 2))) or (False if a[2][0] == 'c' else None), pc[0], 'arguments %s' % [show(x)[:40] for x in a], v, g)
                    ck.ob('the opened file is parsed', contains(strm, In(P(f, 0))) or contains(strm, P(f, 0)) or None, pc[0], 'file %s' % show(strm)[:60], v, g)
                    bad = [t for k in g for t in subterms(k) if t and t[0] in ('streambad',)]
                    if not bad:
                        if s.kind == 'ret':
                            other = [t for k in g for t in subterms(k) if t and isinstance(t[0], str) and t[0].startswith('stream') and t[0] != 'streameof' and t != op]
                            ck.ob('a read error is reported', None if other else False if deepclean_calls(g, pc) else None, f, 'the result is returned without looking for a read error', v, g)
                        elif throws(s, 'reading_file'):
                            ck.ob('a read error is reported', None, f, 'read error', v, g)
                        continue
                    for w2 in (True, False):
                        for g2 in assume(g, ('b', bad[0]), w2)[:1]:
                            if w2:
                                ok = throws(s, 'reading_file')
                                ck.ob('a read error is reported', ok, f, 'a read error ends as %s' % s.kind, v, g2)
                                if ok:
                                    ck.ob('the error names the file', args_name(s, f), f, 'file name in the error', v, g2)
                            else:
                                ck.ob('the parsed file is the result', s.kind == 'ret' and (rv(v, s) == pc[0].res or (None if contains(rv(v, s), pc[0].res) else False)), f, 'returns %s' % s.kind, v, g2)
        ck.ob(R, True if n > 1 else None, f, 'opening of the file not recognised', v)


def deepclean_calls(g, pc):
    return not any(t and t[0] in ('mrg', 'unk', 'phi') for k in g for t in subterms(k))


def args_name(s, f):
    t, args = exc_in(s)
    if not args:
        return None
    return args[0] in (In(P(f, 0)), P(f, 0)) or contains(args[0], In(P(f, 0))) or (False if args[0][0] == 'str' else None)


# -------------------------------------------------------------- environment
ENVGET = 'boost::environment_iterator::get'


def member(t, a, b):
    """the term that reads member b where t reads member a (None if t does not)"""
    if t[0] == 'in' and t[1][0] == 'fld' and t[1][2] == a:
        return ('in', ('fld', t[1][1], b))
    if t[0] == a:
        return (b,) + t[1:]
    if t[0] in ('first', 'second', 'get', 'proj') and a in t:
        return tuple(b if x == a else x for x in t)
    return None


def c23(ck):
    R = 'every variable the mapper names becomes one option'
    for f in [x for x in ck.fns('parse_environment') if 'function' in x['ps'][1]['t']]:
        v = ck.view(f, [ENVGET])
        n = {'take': 0, 'skip': 0}
        seen = set()
        for s, i, lev in v.events('loop'):
            if lev.id in seen:
                continue
            seen.add(lev.id)
            if not any(e.k == 'icall' for it in lev.iters for e in it.evs):
                continue
            for it in lev.iters:
                envit(ck, v, f, lev, it, n, R)
        for s in own(tops(v, 'ret')):
            r = rv(v, s)
            o = optfield(r, 'options')
            ck.ob(R, True if o is not None and o[0] == 'phi' else None if o is None or o[0] in BAD else False, f, 'result holds %s' % show(o or c(0))[:50], v, {})
            d = optfield(r, 'description')
            ck.ob('the result refers to the description', d == ('ptr', P(f, 0)) or (None if d is None or d[0] in BAD else False), f, 'description %s' % show(d or c(0))[:40], v, {})
        for k in n:
            ck.ob(R, True if n[k] else None, f, 'case %s' % k, v)
    for f in [x for x in ck.fns('parse_environment') if 'function' not in x['ps'][1]['t']]:
        mapper(ck, f)
    f = ck.opt('detail::prefix_name_mapper::operator()')
    if f:
        lowered(ck, f)
    f = ck.opt(ENVGET)
    if f:
        entry(ck, f)
    for f in ck.fns('boost::environment_iterator::environment_iterator'):
        v = ck.view(f, [ENVGET])
        for s in tops(v, 'ret'):
            if f['ps']:
                ck.ob('the first variable is read on construction', len(calls(s.evs, ENVGET)) == 1, f, 'first variable', v, {})
            else:
                ck.ob('the end iterator is at the end', bsame(s.facts, end(v, s, fld(THIS, 'm_at_eof')), True), f, 'end iterator', v, {})
    iterator(ck)


def envit(ck, v, f, lev, it, n, R):
    ic = [e for e in it.evs if e.k == 'icall']
    if foreign(it):
        return
    if len(ic) != 1 or len(ic[0].args) != 1:
        ck.ob(R, None if ic or it.kind != 'back' else False, f, 'a variable is passed over without asking the mapper', v, {})
        return
    m = ic[0]
    sec = member(m.args[0], 'first', 'second')
    if sec is None:
        ck.ob(R, False if member(m.args[0], 'second', 'first') else None, m, 'the mapper gets %s' % show(m.args[0])[:60], v, {})
        return
    ck.ob('the mapper given decides', m.f in (In(P(f, 1)), P(f, 1)) or None, m, 'mapper %s' % show(m.f)[:40], v, {})
    pb = [e for e in it.evs if e.k == 'mut' and e.meth in ('push_back', 'emplace_back', 'insert') and e.loc[0] == 'fld' and e.loc[2] == 'options']
    N = empty_of(m.res)
    for w in (True, False):
        for g in assume(it.facts, N, w)[:1]:
            if w:
                n['skip'] += 1
                ck.ob('a variable the mapper does not name is left out', not pb and it.kind == 'back', m, 'an unnamed variable becomes an option (%s)' % it.kind, v, about(g, m.res))
                continue
            n['take'] += 1
            if it.kind != 'back' or not pb:
                other = [k for k in it.facts if contains(k, m.res) or contains(k, sec) or contains(k, m.args[0])]
                ck.ob(R, False if all(set(base_terms(k)) <= {m.res, size(m.res), ('size', m.res), sec, size(sec)} for k in other) else None, m, 'a variable with a name is left out (%s)' % it.kind, v, {})
                continue
            o = pb[0].val[2] if pb[0].val[0] == 'push' else None
            if o is None or len(pb) != 1:
                ck.ob(R, None if len(pb) == 1 else False, pb[0], 'options grow by %d' % len(pb), v, {})
                continue
            key, val = optfield(o, 'string_key'), optfield(o, 'value')
            ck.ob('the option has the mapped name', key == m.res or (None if key is None or key[0] in BAD else False), pb[0], 'name %s' % show(key or c(0))[:60], v, {})
            ck.ob('the option has the value of the variable', val == ('seq', sec) or (None if val is None or val[0] != 'seq' else False), pb[0], 'value %s' % show(val or c(0))[:60], v, {})
            un, pk = optfield(o, 'unregistered'), optfield(o, 'position_key')
            ck.ob('the option is an ordinary one', (un in (None, c(False)) and pk in (None, c(-1))) or (False if un == c(True) or (pk and is_c(pk) and pk != c(-1)) else None), pb[0], 'flags', v, {})


def mapper(ck, f):
    """the overloads taking a prefix use the prefix mapper with that prefix"""
    v = ck.view(f, ['parse_environment', 'detail::prefix_name_mapper::operator()'])
    v = ck.view(f, [ENVGET, 'detail::prefix_name_mapper::operator()'])
    n = 0
    for s in tops(v, 'ret'):
        ct = [e for e in s.evs if e.k == 'ctor' and e.q.endswith('prefix_name_mapper')]
        for e in ct[:1]:
            n += 1
            a = e.args[0]
            ck.ob('the prefix given is the one used', a in (In(P(f, 1)), P(f, 1)) or contains(a, In(P(f, 1))) and None or (False if a[0] == 'str' else None), e, 'prefix %s' % show(a)[:40], v, {})
    ck.ob('the prefix given is the one used', True if n else None, f, 'prefix mapper', v)


def lowered(ck, f):
    R = 'a variable with the prefix is named by the rest in lower case'
    v = ck.view(f)
    s_, p = In(P(f, 0)), infld(THIS, 'prefix')
    has = prefix(s_, p)
    n = [0, 0]
    for s in own(tops(v, 'ret')):
        r = rv(v, s)
        for g in assume(s.facts, has, False)[:1]:
            n[0] += 1
            ck.ob('a variable without the prefix is not named', r == ('str', '') or (None if r[0] in BAD or not deepclean(g) else False), f, 'named %s' % show(r)[:50], v, {})
        for g in assume(s.facts, has, True)[:1]:
            n[1] += 1
            ls = [(i, e) for i, e in enumerate(s.evs) if e.k == 'loop']
            if not ls:
                rest = substr(s_, size(p), size(s_))
                ck.ob(R, r == ('lower', rest) or (None if r[0] in BAD + ('lower', 'smap') or not deepclean(g) else False), f, 'named %s' % show(r)[:60], v, {})
                continue
            i, lev = ls[0]
            if r[0] != 'phi' or len(ls) != 1:
                ck.ob(R, None, f, 'named %s' % show(r)[:60], v, {})
                continue
            b0 = lev.base0.get(r[2])
            ck.ob(R, b0 == ('str', '') or (None if b0 is None else False), f, 'starts from %s' % show(b0 or c(0))[:40], v, {})
            rest = substr(s_, size(p), size(s_))
            wk = None
            for l, t in loop_ix(lev):
                for e in exits_of(v, lev):
                    d = ival(e.facts, sub(sub(size(s_), size(p)), t))
                    if d[1] is not None and d[1] <= 0:
                        wk = True
                    elif d[0] is not None and d[0] > 0:
                        wk = False
            ck.ob(R, wk, f, 'the characters after the prefix are all used', v, {})
            for it in lev.iters:
                if it.kind != 'back':
                    ck.ob(R, None, f, 'loop left early', v, {})
                    continue
                e = end(v, it, r[2])
                head = lev.havoc.get(r[2])
                if e[0] == 'cat' and e[1] == head and len(e) == 3:
                    ch = e[2][1] if e[2][0] == 'chr' else e[2]
                    low = ch[0] == 'tolower'
                    src = ch[1] if low else ch
                    okp = any(src == at(s_, add(size(p), t)) and t[2] == 0 and t[1][3] == 1 for l, t in loop_ix(lev))
                    kn = src[0] == 'at' and src[1] == s_
                    lit = ord(src[1]) if src[0] == 'str' and len(src[1]) == 1 else src[1] if src[0] == 'c' else None
                    cur = [ival(it.facts, at(s_, add(size(p), t)))[:2] for l, t in loop_ix(lev) if t[2] == 0 and t[1][3] == 1]
                    if isinstance(lit, int) and len(cur) == 1 and cur[0][0] == cur[0][1] and cur[0][0] is not None:
                        # one particular character is written as another one
                        ck.ob(R, lit == (cur[0][0] + 32 if 65 <= cur[0][0] <= 90 else cur[0][0]), f, 'character %d becomes %d' % (cur[0][0], lit), v, {})
                        continue
                    ck.ob(R, True if okp else False if kn else None, f, 'takes %s' % show(src)[:60], v, {})
                    ck.ob(R, True if low else False if kn else None, f, 'the rest is not lowered', v, {})
                else:
                    ck.ob(R, None, f, 'builds %s' % show(e)[:60], v, {})
    ck.ob(R, True if n[0] and n[1] else None, f, 'both cases occur', v)


def entry(ck, f):
    """one environment string: name before the first '=', value after it"""
    R = "a variable is split at the first '='"
    v = ck.view(f)
    ENV = fld(THIS, 'm_environment')
    cur = In(('deref', In(ENV)))
    n = [0, 0]
    for s in own(tops(v, 'ret')):
        fst, snd = end(v, s, fld(VAL, 'first')), end(v, s, fld(VAL, 'second'))
        eof = [e for e in s.evs if e.k == 'write' and e.loc == fld(THIS, 'm_at_eof')]
        wr = [e for e in s.evs if e.k in ('write', 'mut') and under(e.loc, VAL)]
        if eof and not wr:
            n[0] += 1
            g = [k for k, w in s.facts.items() if k[0] == 'isnull']
            ck.ob('the list ends at its null entry', True if any(s.facts[k] is True for k in g) else False if deepclean(s.facts) else None, f, 'end reported for an entry', v, s.facts)
            continue
        if not wr:
            ck.ob('an entry is delivered', None, f, 'nothing is delivered', v, {})
            continue
        n[1] += 1
        g = [k for k, w in s.facts.items() if k[0] == 'isnull']
        ck.ob('the list ends at its null entry', True if any(s.facts[k] is False for k in g) else False if deepclean(s.facts) else None, f, 'an entry is read without looking for the end', v, s.facts)
        if fst[0] == 'sub' and snd[0] == 'sub' and fst[1] == snd[1]:
            X = fst[1]
            e = ('find', X, ('str', '='), c(0))
            ck.ob(R, fst == substr(X, c(0), e), f, 'name %s' % show(fst)[:80], v, {})
            ck.ob(R, snd == substr(X, add(e, c(1)), size(X)), f, 'value %s' % show(snd)[:80], v, {})
        else:
            ck.ob(R, None, f, 'name %s' % show(fst)[:80], v, {})
        nx = end(v, s, ENV)
        ck.ob('every entry is visited', nx[0] in ('padd', 'lin') and (nx == add(In(ENV), c(1)) or nx == ('padd', In(ENV), c(1))) or (False if nx == In(ENV) or nx[0] in ('padd', 'lin') else None), f, 'next entry %s' % show(nx)[:60], v, {})
    ck.ob(R, True if n[0] and n[1] else None, f, 'both outcomes', v)


def iterator(ck):
    """the iterator protocol both sources are read through"""
    for f in ck.fns('boost::eof_iterator::equal'):
        v = ck.view(f)
        a, b = tobool(infld(THIS, 'm_at_eof')), tobool(infld(P(f, 0), 'm_at_eof'))
        for s in own(tops(v, 'ret')):
            r = tobool(rv(v, s))
            for x in (True, False):
                for y in (True, False):
                    for g in assume_all(s.facts, [a if x else neg(a), b if y else neg(b)])[:1]:
                        if x and y or x != y:
                            ck.ob('iterators are equal when both are at the end', bsame(g, r, x and y), f, 'at end: %s and %s gives %s' % (x, y, show(r)[:30]), v, g)
    for f in ck.fns('boost::eof_iterator::increment'):
        v = ck.view(f, [ENVGET, GET])
        for s in tops(v, 'ret'):
            ck.ob('advancing reads the next element', len([e for e in s.evs if e.k == 'call' and e.q.endswith('::get')]) == 1, f, 'advance', v, {})
    for f in ck.fns('boost::eof_iterator::dereference'):
        v = ck.view(f)
        for s in tops(v, 'ret'):
            ok = isinstance(s.val, LV) and s.val.loc == VAL
            ck.ob('the current element is what was read', ok or None, f, 'element', v, {})
