"""command line parsing (C08-C16 part, C34): token syntax, styles, arity, positionals, progress"""
from itertools import product
from .dsl import *

OPQ = ['options_description::find_nothrow', 'option_description::key', 'value_semantic::min_tokens', 'value_semantic::max_tokens',
       'detail::cmdline::is_style_active', 'detail::cmdline::get_canonical_option_prefix']
CM = 'detail::cmdline::'
STYLE = fld(THIS, 'm_style')
BITS = ['allow_long', 'allow_short', 'allow_dash_for_short', 'allow_slash_for_short', 'allow_long_disguise']


def use(ck, names):
    """opaque helpers that still exist"""
    return [n for n in names if ck.p.fns(n) or ck.p.methods_named(n)] if hasattr(ck.p, 'methods_named') else names


def cfn(ck, n):
    return ck.opt(CM + n)


def setting(t, bit, facts=None):
    """t is the value of style bit `bit` : True / False / None (not understood)"""
    if t[0] == 'call' and str(t[1]).endswith('is_style_active'):
        return t[3] == c(bit) if len(t) > 3 else None
    ms = [x for x in subterms(t) if x and (x == ('in', STYLE) or (x[0] == 'phi' and x[2] == STYLE))]
    if ms:
        return tobool(t) in [has_bits(x, bit) for x in ms] or t in [has_bits(x, bit) for x in ms]
    if facts is not None and t[0] == 'c':
        for x in {y for k in facts for y in subterms(k) if y and (y == ('in', STYLE) or (y[0] == 'phi' and y[2] == STYLE))}:
            v = truth(facts, has_bits(x, bit))
            if v is not None:
                return v == bool(t[1])
    if facts is not None:
        on = {truth(facts, tobool(y)) for k in facts for y in subterms(k) if y and y[0] == 'call' and str(y[1]).endswith('is_style_active') and y[3] == c(bit)} - {None}
        tv = truth(facts, tobool(t))
        if len(on) == 1:
            if tv is not None:
                return tv in on
            if not any(x and x[0] in ('phi', 'mrg', 'unk') for x in subterms(t)):
                return False
    return None


def with_style(ck, bits):
    f = {}
    for n, on in bits.items():
        r = assume(f, has_bits(('in', STYLE), c(ck.enum(n)) if False else ck.enum(n)), bool(on))
        if not r:
            return None
        f = r[0]
    return f


def elems(t):
    """elements of a list value: constants + pushes on an empty list (None if unknown)"""
    out = []
    while t[0] == 'push':
        out.append(t[2])
        t = t[1]
    if t[0] == 'seq':
        return list(t[1:]) + out[::-1]
    return None


class Opt(object):
    """the fields of one option record value"""
    def __init__(self, v, t):
        g = lambda n: v.eng.proj(t, n)
        self.t, self.key, self.value, self.orig, self.pos, self.unreg = t, g('string_key'), g('value'), g('original_tokens'), g('position_key'), g('unregistered')


def opts_of(v, t):
    es = elems(t)
    return None if es is None else [Opt(v, x) for x in es]


def front(v, s, loc, n, old=None):
    """loc lost exactly its first n elements: True/False/None"""
    old = In(loc) if old is None else old
    new = end(v, s, loc)
    if n == 0:
        return same(new, old) if new == old else (False if new[0] in ('sub', 'tail', 'seq', 'push') else None)
    want = substr(old, c(n), size(old))
    if new == want:
        return True
    if new[0] == 'sub' and new[1][0] == 'mutel' and new[1][1] == old and new[1][2] == c(n - 1):
        return new[2:] == (c(n), size(old)) or new[2:] == (c(n), size(new[1]))
    if new == old or new[0] in ('sub', 'seq'):
        return False
    return None


def all3(*xs):
    """conjunction of three-valued results"""
    xs = [x if x is None else bool(x) for x in xs]
    return False if False in xs else None if None in xs else True


def reason(**kw):
    return ', '.join('%s %s' % (k, show(v)[:80] if isinstance(v, tuple) else v) for k, v in kw.items())


def one(v, s, args, key, value, orig):
    """the result is one option (key, value list, original tokens), one token consumed"""
    if s.kind != 'ret':
        return False, 'throws %s' % (s.val,)
    os = opts_of(v, rv(v, s))
    if os is None:
        return None
    if len(os) != 1:
        return False, '%d options' % len(os)
    o = os[0]
    r = all3(same(o.key, key), same(o.value, ('seq',) + tuple(value)), same(o.orig, ('seq',) + tuple(orig)), front(v, s, args, 1),
             o.pos == c(-1), o.unreg == c(False))
    return r, '' if r else reason(key=o.key, value=o.value, original=o.orig, left=repr(end(v, s, args)))


def untouched(v, s, args):
    if s.kind != 'ret':
        return False, 'throws %s' % (s.val,)
    es = elems(rv(v, s))
    return all3(None if es is None else not es, front(v, s, args, 0)), 'must leave the token to others'


# ------------------------------------------------------------------------- C14
def own(segs):
    """segments without exceptions that come out of opaque callees"""
    return [s for s in segs if not foreign(s)]


def c14(ck):
    eq_ = ('str', '=')
    f = cfn(ck, 'parse_long_option')
    if f:
        v = ck.view(f, OPQ)
        A = P(f, 0)
        T_ = at(In(A), c(0))
        n = size(T_)
        p = ('find', T_, eq_, c(0))
        has = ('found', p)
        long_ = [cmp_('>=', n, c(3)), cmp_('==', at(T_, c(0)), c(45)), cmp_('==', at(T_, c(1)), c(45))]
        t = Table(ck, v, '--name', f, [T_])
        for i, g in enumerate(long_):
            t.case('other tokens are left alone %d' % i, [neg(g)], lambda s, g: untouched(v, s, A))
        nm = substr(T_, c(2), p)
        t.case('--name', long_ + [neg(has)], lambda s, g: one(v, s, A, substr(T_, c(2), n), [], [T_]))
        t.case('--name=value', long_ + [has, cmp_('>=', p, c(3)), neg(cmp_('==', p, sub(n, c(1))))],
               lambda s, g: one(v, s, A, nm, [substr(T_, add(p, c(1)), n)], [T_]))
        t.case('--name= is an error', long_ + [has, cmp_('>=', p, c(3)), cmp_('==', p, sub(n, c(1)))],
               lambda s, g: empty_adjacent(ck, v, s, nm))
        t.run(own(tops(v)))
    f = cfn(ck, 'parse_dos_option')
    if f:
        v = ck.view(f, OPQ)
        A = P(f, 0)
        T_ = at(In(A), c(0))
        n = size(T_)
        is_ = [cmp_('>=', n, c(2)), cmp_('==', at(T_, c(0)), c(47))]
        t = Table(ck, v, '/x', f, [T_])
        for i, g in enumerate(is_):
            t.case('other tokens are left alone %d' % i, [neg(g)], lambda s, g: untouched(v, s, A))
        keys = [cat(('str', '-'), substr(T_, c(1), c(2))), cat(('str', '-'), ('chr', at(T_, c(1))))]
        two = cmp_('==', n, c(2))
        t.case('/x', is_ + [two], lambda s, g: either(one(v, s, A, k, [], [T_]) for k in keys + [cat(('str', '-'), substr(T_, c(1), n))]))
        t.case('/xvalue', is_ + [neg(two)], lambda s, g: either(one(v, s, A, k, [substr(T_, c(2), n)], [T_]) for k in keys))
        t.run(own(tops(v)))
    disguised(ck)
    sticky(ck)
    t = None


def either(rs):
    rs = list(rs)
    for r in rs:
        if (r[0] if isinstance(r, tuple) else r) is True:
            return r
    for r in rs:
        if (r[0] if isinstance(r, tuple) else r) is None:
            return None
    return rs[0]


def empty_adjacent(ck, v, s, nm):
    if not throws(s, 'invalid_command_line_syntax'):
        return False, 'must be a syntax error, got %s %s' % (s.kind, '')
    t, a = exc_in(s)
    if not a:
        return None
    return all3(a[0] == c(ck.enum('empty_adjacent_parameter')), same_(a[1], nm)), reason(kind=a[0], option=a[1])


def same_(a, b):
    return same(a, b)


def disguised(ck):
    f = cfn(ck, 'parse_disguised_long_option')
    if not f:
        return
    v = ck.view(f, OPQ)
    A = P(f, 0)
    T_ = at(In(A), c(0))
    n = size(T_)
    p = ('find', T_, ('str', '='), c(0))
    has = ('found', p)
    dash = and_(cmp_('==', at(T_, c(0)), c(45)), neg(cmp_('==', at(T_, c(1)), c(45))))
    sl = cmp_('==', at(T_, c(0)), c(47))
    slash_on = has_bits(('in', STYLE), ck.enum('allow_slash_for_short'))
    done = 0
    for s in own(tops(v)):
        fn_ = calls(s.evs, 'options_description::find_nothrow')
        for d, g in splits(s.facts, [cmp_('>=', n, c(2)), sl, dash]):
            w2, wsl, wd = d.values()
            if wsl and wd:
                continue
            son = None
            if wsl:
                son = truth(g, slash_on)
                if son is None:
                    for e in s.evs:
                        if e.k == 'call' and e.q.endswith('is_style_active') and e.args[0] == c(ck.enum('allow_slash_for_short')):
                            son = truth(g, tobool(e.res))
            form = w2 and (wd or (wsl and son))
            if w2 and wsl and son is None:
                # the path does not ask for the slash style: both must be fine only if nothing is taken
                r = untouched(v, s, A)
                ck.ob('-name: /name needs the slash style', None if r[0] is not False else False, f, 'a /token is handled without asking whether slashes are enabled', v, s.facts)
                continue
            if not form:
                r, why = untouched(v, s, A)
                ck.ob('-name: other tokens are left alone', r, f, why, v, s.facts)
                continue
            if not fn_:
                r, why = untouched(v, s, A)
                ck.ob('-name: known names are recognised', False if r is True else None, f, 'the name is not looked up', v, s.facts)
                continue
            L = fn_[0]
            nm = substr(T_, c(1), p)
            for d2, g2 in splits(g, [has, cmp_('<=', p, c(1))]):
                if d2[has] and list(d2.values())[1]:
                    continue                    # "-=x": no name
                want = nm if d2[has] else substr(T_, c(1), n)
                ck.ob('-name: the name is looked up', same(L.args[0], want), L, 'lookup of %s' % show(L.args[0])[:60], v, g2)
                for i, b in enumerate(('allow_guessing', 'long_case_insensitive', 'short_case_insensitive')):
                    ck.ob('-name: lookup settings', setting(L.args[1 + i], ck.enum(b), g2), L, 'lookup follows %s' % b, v, g2)
                for d3, g3 in splits(g2, [isnull(L.res)]):
                    if d3[isnull(L.res)]:
                        r, why = untouched(v, s, A)
                        ck.ob('-name: unknown names are left alone', r, f, why, v, s.facts)
                        continue
                    done += 1
                    if not d2[has]:
                        r = one(v, s, A, want, [], [T_])
                    else:
                        last = cmp_('==', p, sub(n, c(1)))
                        for d4, g4 in splits(g3, [last]):
                            if d4[last]:
                                r = empty_adjacent(ck, v, s, nm)
                            else:
                                r = one(v, s, A, nm, [substr(T_, add(p, c(1)), n)], [T_])
                            r, why = r if isinstance(r, tuple) else (r, '')
                            ck.ob('-name: taken like --name', r, f, why, v, s.facts)
                        continue
                    r, why = r if isinstance(r, tuple) else (r, '')
                    ck.ob('-name: taken like --name', r, f, why, v, s.facts)
    ck.need('-name: taken like --name')


def sticky(ck):
    f = cfn(ck, 'parse_short_option')
    if not f:
        return
    v = ck.view(f, OPQ)
    A = P(f, 0)
    T_ = at(In(A), c(0))
    n = size(T_)
    is_ = [cmp_('>=', n, c(2)), cmp_('==', at(T_, c(0)), c(45)), neg(cmp_('==', at(T_, c(1)), c(45)))]
    t = Table(ck, v, '-x', f, [T_])
    for i, g in enumerate(is_):
        t.case('other tokens are left alone %d' % i, [neg(g)], lambda s, g: untouched(v, s, A))
    t.run(own(tops(v)))
    # the loop splitting one token
    levs = []
    for s, i, e in loops(v):
        if any(x.k == 'call' and x.q.endswith('find_nothrow') for it in e.iters for x in it.evs) and not any(e is x for x in levs):
            levs.append(e)
    if not levs:
        ck.ob('-xyz: sticky switches', None, f, 'the loop splitting sticky options was not recognised', v)
    for lev in levs:
        sticky_loop(ck, v, f, lev, A, T_, n)


def sticky_loop(ck, v, f, lev, A, T_, n):
    nmh = adh = rsh = None
    lk = {a.args[0] for it in lev.iters for a in calls(it.evs, 'options_description::find_nothrow')}
    for l, x in lev.havoc.items():
        b = lev.base0.get(l)
        if x is None or x[0] != 'phi' or b is None:
            continue
        if x in lk:
            nmh = x
        elif contains(b, T_):
            adh = x if adh is None else False
        elif b == ('seq',):
            if any(it.st.store.get(l, ('c', 0))[0] == 'push' for it in lev.iters):
                rsh = x
    if not nmh or not adh or rsh is None:
        starts = [b for l, b in lev.base0.items() if b is not None and contains(b, T_)]
        ck.ob('-x: the name is the first letter', None, f, 'name and rest of the token not identified (%s)' % '; '.join(show(b)[:50] for b in starts), v)
        return
    nm0, ad0 = lev.base0[nmh[2]], lev.base0[adh[2]]
    names = (substr(T_, c(0), c(2)), cat(('str', '-'), ('chr', at(T_, c(1)))), cat(substr(T_, c(0), c(1)), substr(T_, c(1), c(2))))
    ck.ob('-x: the name is the first letter', either([same(nm0, x) for x in names]), f, 'the name starts as %s' % show(nm0)[:60], v)
    ck.ob('-x: the rest follows the first letter', same(ad0, substr(T_, c(2), n)), f, 'the rest starts as %s' % show(ad0)[:60], v)
    stk = ck.enum('allow_sticky')
    for it in lev.iters:
        L = calls(it.evs, 'options_description::find_nothrow')
        if it.kind == 'throw':
            continue
        if not L:
            ck.ob('-xyz: sticky switches', None, f, 'the name is not looked up', v, it.facts)
            continue
        L = L[0]
        ck.ob('-x: lookup by the short name', L.args[0] == nmh and setting(L.args[3], ck.enum('short_case_insensitive'), it.facts) is not False, L, 'the current short name is looked up', v, it.facts)
        ck.ob('-x: no guessing, no long case folding', (L.args[1], L.args[2]) == (c(False), c(False)), L, 'short names are matched exactly', v, it.facts)
        mt = calls(it.evs, 'value_semantic::max_tokens')
        known = neg(isnull(L.res))
        st_ = None
        for k in it.facts:
            for x in subterms(k):
                if x and x[0] == 'bit' or (x and x[0] == 'call' and str(x[1]).endswith('is_style_active')):
                    if setting(tobool(x), stk) or setting(x, stk):
                        st_ = tobool(x)
        atoms = [known, neg(empty_of(adh))] + ([st_] if st_ is not None else []) + ([cmp_('==', mt[0].res, c(0))] if mt else [])
        for d, g in splits(it.facts, atoms):
            more = d[known] and d[neg(empty_of(adh))] and (st_ is not None and d[st_]) and bool(mt) and d[cmp_('==', mt[0].res, c(0))]
            unk = d[known] and d[neg(empty_of(adh))] and ((st_ is None) or (d[st_] and not mt))
            if more:
                ok = it.kind == 'back'
                ck.ob('-xyz: sticky switches', ok, lev, 'a known switch followed by more letters: the rest are further options', v, g)
                if it.kind == 'back':
                    res = grownl(rsh, it.st.store.get(rsh[2], rsh))
                    o = [Opt(v, x) for x in res] if res is not None else None
                    ck.ob('-xyz: each letter is an option', None if o is None else len(o) == 1 and o[0].key == nmh and elems(o[0].value) == [] and o[0].pos == c(-1) and o[0].unreg == c(False), lev, 'the switch itself is reported without value', v, g)
                    ck.ob('-xyz: no letter is lost', all3(same(it.st.store.get(nmh[2], nmh), cat(('str', '-'), ('chr', at(adh, c(0)))), [nmh, adh]), same(it.st.store.get(adh[2], adh), substr(adh, c(1), size(adh)), [nmh, adh])), lev,
                          'the next letter becomes the name, the remainder is shortened by it', v, g)
                    ck.ob('-xyz: the token stays until finished', not muts_of(it.evs, A), lev, 'input is consumed once', v, g)
            elif unk:
                ck.ob('-xyz: sticky switches', None if it.kind != 'back' else None, lev, 'stickiness not consulted in a way the analysis understands', v, g)
            else:
                ck.ob('-xvalue: the rest is the value', it.kind in ('brk', 'ret'), lev, 'anything but a known switch ends the token', v, g)
    for s in own(tops(v, 'ret')):
        if not any(e is lev for e in s.evs) and len({id(e) for _, _, e in loops(v)}) > 1 or not any(e.k in ('brk', 'leave', 'exh') and e.id == lev.id for e in s.evs):
            continue
        add_ = grownl(rsh, rv(v, s))
        if add_ is None or len(add_) > 1:
            ck.ob('-xvalue: value and token', None if add_ is None else False, f, 'the token ends in exactly one option', v, s.facts)
            continue
        if not add_:
            ck.ob('-xvalue: value and token', False, f, 'the last letter is not reported', v, s.facts)
            continue
        o = Opt(v, add_[0])
        for d, g in splits(s.facts, [empty_of(adh)]):
            val = ('seq',) if d[empty_of(adh)] else ('seq', adh)
            r = all3(same(o.key, nmh, [nmh, adh]), same(o.value, val, [nmh, adh]), same(o.orig, ('seq', T_)), front(v, s, A, 1))
            ck.ob('-xvalue: value and token', r, f, '' if r else reason(key=o.key, value=o.value, original=o.orig, left=end(v, s, A)), v, {k: x for k, x in g.items() if deepclean({k: x}) or any(contains(k, y) for y in (nmh, adh))} if False else None)


def grownl(old, new):
    out = []
    while new != old:
        if new[0] == 'push':
            out.append(new[2])
            new = new[1]
        else:
            return None
    return out[::-1]
