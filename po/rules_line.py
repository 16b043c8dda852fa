"""command line: arity, terminator, conservation of tokens, styles, positionals, custom parsers, original tokens"""
from itertools import product
from .dsl import *
from .rules_cmd import OPQ, CM, STYLE, BITS, cfn, setting, elems, Opt, opts_of, all3, own, untouched, either, front, one
from .rules_run import Run, Finish, finished, runs, dedup, style_facts, COMBOS, ARGS, FN, lookups, CASES

INT_MAX = 2147483647


def counters(lev, facts_list=(), base=None, grown=()):
    """terms that count the rounds of a loop from zero"""
    out = []
    for loc, t in loop_ix(lev):
        if t[1][3] in (1, -1):
            if t[2] is not None:
                out.append(sub(t, c(t[2])))
            elif t[3] is not None:
                out.append(sub(c(t[3]), t))
    for cur, old in grown:
        out.append(sub(size(cur), size(old)))
    return out


def exactly(backs, exits, cands, N, stops=()):
    """a loop takes one per round and stops at N (or for one of the reasons `stops`)
    -> (takes too many, takes too few): each True when proved absent, False/None otherwise"""
    over = under = None
    for x in cands:
        o = all(narrow(f, cmp_('>=', N, c(0)), cmp_('==', x, N)) is None and narrow(f, cmp_('<', N, c(0)), cmp_('==', x, c(0))) is None for f in backs)
        u = all(narrow(f, *([cmp_('>=', x, c(0)), cmp_('<', x, N)] + [neg(s) for s in stops])) is None for f in exits)
        over = True if o else (over or False)
        under = True if u else (under or False)
    return over, under


def kind_of(args, ck, name):
    return bool(args) and args[0] == c(ck.enum(name))


# ------------------------------------------------------------------------- C10
def c10(ck):
    F = Finish(ck)
    if F.f:
        arity(ck, F)
    for nm, R in runs(ck, ('long', 'all')):
        grabbing(ck, R)
        finished(ck, R)
    ck.need('further positional tokens: only free ones')
    ck.need('every option is checked')


def arity(ck, F):
    v, f = F.v, F.f
    few = extra = take = 0
    for s in own(tops(v)):
        L = F.look(s)
        mn, mx = F.limits(s)
        if L is None or narrow(s.facts, neg(F.nokey), neg(isnull(L.res))) is None:
            continue
        if mn is None:
            if s.kind == 'ret' and deepclean(s.facts) and truth(s.facts, isnull(L.res)) is False:
                ck.ob('the limits of a known option are applied', False, f, 'a known option is accepted without asking for its minimum number of tokens', v, s.facts)
            continue
        present = add(F.nv, F.nr)
        g = narrow(s.facts, cmp_('<', present, mn))
        t, args = exc_in(s)
        if g is not None:
            few += 1
            ok = throws(s, 'invalid_command_line_syntax') and kind_of(args, ck, 'missing_parameter')
            ck.ob('too few tokens are a missing parameter', ok, f, 'fewer tokens left than the option needs: %s' % (s.kind,), v, about(g, mn) if not ok else g)
        g = narrow(s.facts, cmp_('>=', present, mn))
        if g is None:
            continue
        if mx is not None:
            for gx in [narrow(g, cmp_('>=', F.nv, c(1)), cmp_('==', mx, c(0)))]:
                if gx is not None:
                    extra += 1
                    ok = throws(s, 'invalid_command_line_syntax') and kind_of(args, ck, 'extra_parameter')
                    ck.ob('a value for an option that takes none is an extra parameter', ok, f, 'adjacent value, but no tokens allowed: %s' % s.kind, v, gx)
            if kind_of(args, ck, 'extra_parameter') and throws(s, 'invalid_command_line_syntax'):
                ok = narrow(g, neg(cmp_('==', mx, c(0)))) is None and narrow(g, cmp_('==', F.nv, c(0))) is None
                ck.ob('extra parameter only when no value is allowed', ok, f, 'extra_parameter thrown for an option that may take a value', v, g)
        elif s.kind == 'ret' and narrow(g, cmp_('>=', F.nv, c(1))) is not None:
            ck.ob('a value for an option that takes none is an extra parameter', False, f, 'a value is accepted without asking for the maximum number of tokens', v, g)
        if s.kind != 'ret':
            continue
        take += 1
        taking(ck, F, s, g, mn)
    for n, x in (('too few', few), ('extra', extra), ('taking', take)):
        ck.ob('arity: case %s occurs' % n, True if x else None, f, 'no path', v)
    # missing_parameter from inside the loop: only for tokens that name a known option
    for s in own(v.segs()):
        if s.kind != 'throw' or s.loop is None:
            continue
        t, args = exc_in(s)
        if throws(s, 'invalid_command_line_syntax'):
            fs = [e for e in s.evs if e.k == 'call' and e.q.endswith('find_nothrow')]
            ok = kind_of(args, ck, 'missing_parameter') and any(truth(s.facts, isnull(e.res)) is False for e in fs)
            ck.ob('a following token is refused only if it names an option', ok if fs or not deepclean(s.facts) else False, f, 'a token that names no known option is refused as value', v, about(s.facts, *[e.res for e in fs]))
    ck.need('a following token is refused only if it names an option')


def taking(ck, F, s, g, mn):
    """how a returning path takes tokens off the command line"""
    v, f = F.v, F.f
    N = sub(mn, F.nv)
    lp = [(i, e) for i, e in enumerate(s.evs) if e.k == 'loop' and any(x.k in ('mut', 'write') and x.loc == F.R for it in e.iters for x in it.evs)]
    direct = [e for e in s.evs if e.k in ('mut', 'write') and (e.loc == F.R or e.loc == F.val)]
    if not lp:
        if direct:
            ck.ob('takes exactly the missing tokens', None, f, 'tokens are taken in a way that is not understood', v)
        else:
            ok = narrow(g, cmp_('>', N, c(0))) is None
            ck.ob('takes exactly the missing tokens', ok, f, 'required tokens are not taken', v, about(g, mn))
        return
    if len(lp) > 1 or direct:
        ck.ob('takes exactly the missing tokens', None, f, 'tokens are taken in more than one place', v)
        return
    i, l = lp[0]
    backs = [it for it in l.iters if it.kind == 'back' and narrow(it.facts, *[]) is not None]
    ends = exits_of(v, l, ('exh', 'brk'))
    R0 = l.havoc.get(F.R)
    V0 = l.havoc.get(F.val)
    O0 = l.havoc.get(F.org)
    if R0 is None or V0 is None or O0 is None:
        ck.ob('takes exactly the missing tokens', False if all(deepclean(about(b.facts, mn)) for b in backs) and R0 is not None else None, f, 'a token that is taken does not become a value', v)
        return
    kn = (R0, V0, O0)
    tok = at(R0, c(0))
    for it in backs:
        r = all3(either3(front(v, it, F.R, 1, R0), same(end(v, it, F.R), ('?',), kn)),
                 same(end(v, it, F.val), ('push', V0, tok), kn), same(end(v, it, F.org), ('push', O0, tok), kn))
        ck.ob('each token taken becomes the next value and original token', r, f, 'value %s, original %s, left %s' % tuple(show(end(v, it, x))[:60] for x in (F.val, F.org, F.R)), v, about(it.facts, *kn))
        # look ahead
        ic = [(x, e) for x, e in enumerate(it.evs) if e.k == 'loop' and any(y.k == 'icall' for z in e.iters for y in flat_evs(z.evs))]
        sq = [e for e in it.evs if e.k == 'icall']
        fs = [e for e in it.evs if e.k == 'call' and e.q.endswith('find_nothrow')]
        if not ic and not sq:
            if any(deepclean(about(b.facts, *kn)) for b in backs):
                ck.ob('a following token that names an option is not taken', False, f, 'tokens are taken without asking the style parsers', v, about(it.facts, *kn))
            continue
        if ic:
            lookahead(ck, F, it, ic[0][0], ic[0][1], fs, tok, kn)
    over, under = exactly([about2(b.facts, kn) for b in backs], [about2(e.facts, kn) for e in ends], [x for x in counters(l, grown=[(V0, In(F.val))])], N, stops=[empty_of(R0)])
    fc = about(g, mn)
    ok = all(cleanish(b.facts, mn, kn) for b in backs)
    oke = all(cleanish(e.facts, mn, kn) for e in ends)
    ck.ob('takes no more than the missing tokens', over if over or ok else None, f, 'more tokens are taken than the option requires', v, fc)
    ck.ob('takes exactly the missing tokens', under if under or oke else None, f, 'fewer tokens are taken than the option requires although more are left', v, fc)


def about2(facts, kn):
    return facts


def cleanish(facts, t, kn):
    """the atoms about t are understood"""
    return deepclean({subst(k, {x: ('known', i) for i, x in enumerate(kn)}): w for k, w in facts.items() if contains(k, t)})


def either3(a, b):
    if a is True or b is True:
        return True
    return False if a is False and b is not True else None if a is None else a


def lookahead(ck, F, it, i, l, fs, tok, kn):
    """the style parsers see the token, all of them until one returns an option; the token is taken only when none did or the token names no option"""
    v, f = F.v, F.f
    evs = [e for z in l.iters for e in flat_evs(z.evs) if e.k == 'icall']
    e0 = evs[0]
    if e0.f[0] != 'at' or e0.f[1] != In(F.S):
        return
    arg = e0.argl[0]
    start = l.base0.get(arg) if arg is not None else None
    ck.ob('the look-ahead parses the next token', same(start, ('seq', tok), kn) if start is not None else None, f, 'the style parsers are shown %s' % (show(start)[:60] if start else None), v, about(it.facts, *kn))
    outs = [loc for loc, t in l.havoc.items() if any(e.k == 'write' and e.loc == loc and e.val == x.res for z in l.iters for e in z.evs for x in evs)]
    if not outs:
        return
    o = l.havoc[outs[0]]
    found = neg(empty_of(o))
    ex = exits_of(v, l, ('exh', 'brk'))
    ixs = [t for loc, t in loop_ix(l) if t == e0.f[2]]
    A0 = l.havoc.get(arg)
    if ixs and A0 is not None:
        t = ixs[0]
        for x in ex:
            ok = t[2] == 0 and t[1][3] == 1 and narrow(x.facts, empty_of(o), neg(empty_of(A0)), cmp_('<', t, size(In(F.S)))) is None
            ck.ob('the look-ahead asks every style parser', ok, f, 'some style parsers are not asked about the next token', v, about(x.facts, o, A0, size(In(F.S))))
    # what happens with the answer
    for g in [narrow(it.facts, found)]:
        if g is None:
            continue
        res = [e for e in fs if same(e.args[0], tok, kn)]
        ok = any(truth(g, isnull(e.res)) is True for e in res)
        ck.ob('a following token that names an option is not taken', ok, f, 'a token recognised as option is taken as value%s' % ('' if res else ' without looking it up'), v, about(g, o, *[e.res for e in res]))
        lookups(ck, v, res, f, it.facts, 'look-up uses the active settings')


def phase_loops(R):
    """top-level loops after the main one: [(seg, i, loop)]"""
    out, seen = [], set()
    if R.outer is None:
        return out
    for s, i, e in R.v.events('loop'):
        if s.parent is None and e.id != R.outer.id and any(x.k == 'loop' and x.id == R.outer.id for x in s.evs[:i]):
            out.append((s, i, e))
    return out


def flat_its(l):
    for it in l.iters:
        yield it
        for e in it.evs:
            if e.k == 'loop':
                for x in flat_its(e):
                    yield x


class Grab(object):
    """loops that append values[0] of later options to an option"""
    def __init__(self, R):
        self.R = R
        self.found = []
        for s, i, e in R.v.events('loop'):
            for it in e.iters:
                if it.kind != 'back':
                    continue
                for x in it.evs:
                    if x.k == 'mut' and x.meth == 'push_back' and x.loc[0] == 'fld' and x.loc[2] == 'value':
                        m = pm(('at', ('.', ('at', V('S'), V('J')), 'value'), c(0)), x.args[0], {})
                        if m and e.havoc.get(x.loc) is not None:
                            self.found.append((s, i, e, it, x, m))


def grabbing(ck, R):
    v = R.v
    G = Grab(R)
    loops_ = []
    for s, i, l, it, x, m in G.found:
        if (id(s), id(l)) in [(id(y[0]), id(y[2])) for y in loops_]:
            continue
        loops_.append((s, i, l, it, x, m))
    if not loops_:
        ck.ob('further positional tokens: only free ones', None, R.f, 'the loop giving positional tokens to options was not found', v)
        return
    for s, i, l, it, x, m in loops_:
        S, J, loc = m['S'], m['J'], x.loc
        O = ('fld', loc[1], 'original_tokens')
        el = at(S, J)
        pr = lambda n: v.eng.proj(el, n)
        key, pos = pr('string_key'), pr('position_key')
        free = [empty_of(key), neg(cmp_('==', pos, c(INT_MAX)))]
        V0 = l.havoc[loc]
        base = l.base0.get(loc)
        kn = (V0,) + tuple(y for y in (l.havoc.get(O),) if y)
        mine = lambda fs: about(fs, key, pos)
        for b in [z for z in l.iters if z.kind == 'back']:
            r = all(must(b.facts, t) for t in free)
            ck.ob('further positional tokens: only free ones', r, R.f, 'a named option or a token from behind the terminator becomes a value', v, mine(b.facts))
            o = end(v, b, O)
            r = all3(same(end(v, b, loc), ('push', V0, at(pr('value'), c(0))), kn + (el,)), None if l.havoc.get(O) is None and O in l.havoc else same(o, ('push', l.havoc.get(O, In(O)), at(pr('original_tokens'), c(0))), kn + (el,)))
            for z, h in ((end(v, b, loc), V0), (o, l.havoc.get(O))):
                # put in before what is there: always at the same place, though there is an original token already
                if h is not None and z[0] == 'inserted' and z[1] == h and z[2][0] == 'c':
                    r = False
            ck.ob('further positional tokens: become value and original token', r, R.f, 'value %s original %s' % (show(end(v, b, loc))[:60], show(o)[:60]), v, {})
        # limits
        par = s
        cs = calls(par.evs[:i], 'value_semantic::max_tokens'), calls(par.evs[:i], 'value_semantic::min_tokens')
        if not cs[0]:
            ck.ob('further positional tokens: at most the maximum', False if cleanon(par.facts, size(base)) else None, R.f, 'the maximum number of tokens is not asked for', v)
            continue
        mx = cs[0][-1].res
        N = sub(mx, size(base))
        cand = counters(l, grown=[(V0, base)])
        ends = exits_of(v, l, ('exh', 'brk'))
        backs = [z.facts for z in l.iters if z.kind == 'back']
        me = [z.args[0] for z in par.evs[:i] if z.k == 'mut' and z.meth in ('push_back', 'emplace_back') and z.args and z.args[0][0] == 'at' and z.args[0][1] == S]
        kn2 = tuple(me) + tuple(e.res for c_ in cs for e in c_) + (el, V0, base, S)
        over, under = exactly(backs, [y.facts for y in ends], cand, N, stops=[neg(t) for t in free] + [cmp_('>=', J, size(S))])
        ck.ob('further positional tokens: at most the maximum', over if over or all(cleanish(b, mx, kn2) for b in backs) else None, R.f, 'more tokens than the maximum are given to an option', v, {})
        ck.ob('further positional tokens: as many as allowed', under if under or all(cleanish(y.facts, mx, kn2) for y in ends) else None, R.f, 'stops taking tokens although more are allowed', v, {})
        # starting right behind the option and continuing behind the last token taken
        js = [t for lc, t in loop_ix(l) if contains(J, t)]
        own_ = [z for z in par.evs[:i] if z.k == 'mut' and z.meth in ('push_back', 'emplace_back') and z.args and z.args[0][0] == 'at' and z.args[0][1] == S]
        if js and own_ and js[0][2] == 0 and js[0][1][3] == 1:
            I = own_[-1].args[0][2]
            ck.ob('further positional tokens: taken in order from the next one', sub(J, js[0]) == add(I, c(1)) or None if not narrow_c(sub(sub(J, js[0]), I)) else sub(sub(J, js[0]), I) == c(1), R.f, 'first candidate is %s' % show(sub(J, js[0])), v, {})
            il = [lc for lc, t in (par.loop.havoc.items() if par.loop is not None else ()) if t is not None and t == I]
            if il and par.kind == 'back':
                nx = end(v, par, il[0])
                d = sub(nx, J)
                ck.ob('tokens given to an option are not reported again', d == c(0) if d[0] == 'c' else False if base_terms(d) <= {js[0]} else None, R.f, 'continues %s behind the last token taken' % show(d), v, {})
    # an option that may take more is offered the following tokens
    ids = {id(l) for s, i, l, it, x, m in loops_}
    lids = {l.id for s, i, l, it, x, m in loops_}
    seen = set()
    for s in dedup(v.segs()):
        if s.kind != 'back' or s.loop is None or not any(lid_in(s.loop, k) for k in lids):
            continue
        if any(e.k == 'loop' and e.id in lids for e in s.evs):
            continue
        if s.loop.id in lids:
            continue
        fs = [e for e in s.evs if e.k == 'call' and e.q.endswith('find_nothrow')]
        cs = calls(s.evs, 'value_semantic::max_tokens'), calls(s.evs, 'value_semantic::min_tokens')
        own_ = [z for z in s.evs if z.k == 'mut' and z.meth in ('push_back', 'emplace_back') and z.args and z.args[0][0] == 'at']
        if not fs or not own_:
            if own_:
                key = v.eng.proj(own_[0].args[0], 'string_key')
                g = narrow(s.facts, neg(empty_of(key)))
                if g is not None:
                    ck.ob('further positional tokens: offered to every option with a range', False if deepclean(about(g, key, own_[0].args[0])) else None, R.f, 'a named option is not asked whether it takes more tokens', v, about(g, own_[0].args[0]))
            continue
        g = narrow(s.facts, neg(isnull(fs[-1].res)))
        if g is None:
            continue
        if not cs[0] or not cs[1]:
            ck.ob('further positional tokens: offered to every option with a range', None, R.f, 'limits not asked', v)
            continue
        nv = size(v.eng.proj(own_[0].args[0], 'value'))
        h = narrow(g, cmp_('<', cs[1][-1].res, cs[0][-1].res), cmp_('<', nv, cs[0][-1].res))
        ck.ob('further positional tokens: offered to every option with a range', h is None or (None if not cleanish(g, cs[0][-1].res, (own_[0].args[0], fs[-1].res) + tuple(e.res for y in cs for e in y)) else False), R.f, 'an option that may take more tokens is not offered any', v, {})
        lookups(ck, v, fs[-1:], R.f, s.facts, 'look-up uses the active settings')


def narrow_c(t):
    return t[0] == 'c'


def lid_in(l, lid):
    """loop l contains loop lid"""
    return any(e.k == 'loop' and (e.id == lid or lid_in(e, lid)) for it in l.iters for e in it.evs)


# ------------------------------------------------------------------------- C11
def args_term(R, seg, lev):
    return lev.havoc.get(ARGS)


def c11(ck):
    for nm, R in runs(ck, ('long', 'all', 'disguise')):
        progress(ck, R)
        reporting(ck, R)
        copying(ck, R)
    ck.need('every round consumes something')
    ck.need('a token no style parser takes becomes a positional')
    ck.need('every option found is reported, in order')
    ck.need('options are kept, in order')


def inner_call(s):
    return [e for e in s.evs if e.k == 'icall' and e.f[0] == 'at']


def progress(ck, R):
    """the outer loop ends only on an empty command line, and each round shrinks or re-counts it"""
    v = R.v
    if R.inner is None or R.outer is None:
        ck.ob('every round consumes something', None, R.f, 'the main loop was not recognised', v)
        return
    # inner: a style parser that changed the number of tokens ends the round
    for s in dedup(R.segs(R.inner)):
        ic = inner_call(s)
        if s.kind not in ('back', 'brk') or not ic:
            if s.kind == 'brk' and not ic:
                ck.ob('style parsers are tried until one consumes', None, R.f, 'left before asking', v)
            continue
        a0 = ic[0].args[0] if ic[0].args else None
        new = end(v, s, ARGS)
        same_ = cmp_('==', size(a0), size(new))
        fin = [e for e in s.evs if e.k == 'call' and e.q.endswith('finish_option')]
        kn = phis(a0, new)
        if s.kind == 'back':
            ok = must(s.facts, same_)
            ck.ob('style parsers are tried until one consumes', ok or (False if cleanon(s.facts, *kn) else None), R.f, 'the next style parser is asked although this one has consumed a token', v, about(s.facts, *kn))
        else:
            ok = narrow(s.facts, same_) is None
            ck.ob('style parsers are tried until one consumes', ok or (False if cleanon(s.facts, *kn) else None), R.f, 'the remaining style parsers are not asked although nothing was consumed', v, about(s.facts, *kn))
    # inner: starts at the first, moves on by one, stops at the last
    for s, i, e in R.v.events('loop'):
        if e.id != R.inner.id:
            continue
        ix = {x.f[2] for it in e.iters for x in it.evs if x.k == 'icall' and x.f[0] == 'at'}
        sq = {x.f[1] for it in e.iters for x in it.evs if x.k == 'icall' and x.f[0] == 'at'}
        if len(ix) != 1 or len(sq) != 1:
            continue
        t, S = ix.pop(), sq.pop()
        if t[0] != 'ix' or t[1][0] != e.id:
            ck.ob('every style parser is tried', None, R.f, 'order of the style parsers not understood', v)
            continue
        lo, step = t[2], t[1][3]
        ck.ob('every style parser is tried', lo == 0 and step == 1 or (False if lo is not None else None), R.f, 'style parsers are asked from %s by %s' % (lo, step), v)
        for x in exits_of(v, e):
            d = ival(x.facts, sub(t, size(S)))
            ck.ob('every style parser is tried', True if d[0] is not None and d[0] >= 0 else False if cleanon(x.facts, t) else None, R.f, 'stops before the last style parser', v, about(x.facts, t))
    # outer
    for s in dedup(R.segs(R.outer)):
        if s.kind == 'brk' or s.kind == 'ret':
            ck.ob('parsing ends at the end of the command line', None if not deepclean(s.facts) else False, R.f, 'parsing stops before the end of the command line', v, s.facts)
        if s.kind != 'back':
            continue
        A0 = s.loop.havoc.get(ARGS)
        if A0 is None:
            ck.ob('every round consumes something', False if all(x.k != 'call' for x in s.evs) else None, R.f, 'a round leaves the command line as it was', v)
            continue
        how = [x for x in s.evs if x.k in ('exh', 'brk') and x.id == R.inner.id]
        pops = [x for x in s.evs if x.k in ('mut', 'write') and x.loc == ARGS]
        if how and how[-1].k == 'exh':
            # nobody took it
            li = [i for i, x in enumerate(s.evs) if x.k == 'loop' and x.id == R.inner.id]
            now = s.evs[li[-1]].havoc.get(ARGS, A0) if li else A0
            kn = phis(now)
            unused = positional(ck, R, s, now, kn)
            if not pops:
                consumed = any(narrow(s.facts) is None for _ in ())
                ck.ob('every round consumes something', False if cleanon(s.facts, now) else None, R.f, 'a token nobody takes stays on the command line', v, about(s.facts, now))
                continue
            ck.ob('every round consumes something', front(v, s, ARGS, 1, now), R.f, 'left %s' % show(end(v, s, ARGS))[:80], v, about(s.facts, now))
        elif how:
            ck.ob('every round consumes something', not pops or None, R.f, 'more is removed from the command line than the style parser took', v)
            adds = [x for x in s.evs[[i for i, y in enumerate(s.evs) if y is how[-1]][0]:] if x.k == 'mut' and x.meth in ('push_back', 'emplace_back') and opts_of(v, ('seq',) + tuple(x.args))]
            Ns = [x.res for x in s.evs if x.k == 'icall' and x.f[0] == 'at']
            ck.ob('a token that was taken is not reported again', not [x for x in adds if x.args and x.args[0][0] == 'obj'] or (False if Ns and cleanon(s.facts, Ns[-1]) else None), R.f, 'a positional is reported for a token a style parser took', v, about(s.facts, *Ns[-1:]))
    for x in [x for s, i, e in R.v.events('loop') if e.id == R.outer.id for x in exits_of(v, e)]:
        A = x.facts
        a = [y for y in {z for k in A for z in subterms(k) if z and z[0] == 'phi' and z[2] == ARGS and z[1] == R.outer.id}]
        ck.ob('parsing ends at the end of the command line', any(must(A, empty_of(y)) for y in a) or (None if not a else False), R.f, 'parsing stops before the end of the command line', v, about(A, *a))


def positional(ck, R, s, now, kn):
    """the token nobody took is reported as one positional option"""
    v = R.v
    tok = at(now, c(0))
    for e in s.evs:
        if e.k == 'mut' and e.meth in ('push_back', 'emplace_back') and e.args and e.args[0][0] in ('obj', 'new'):
            o = Opt(v, e.args[0])
            kn2 = phis(tok)
            r = all3(same(o.key, ('str', '')), same(o.value, ('seq', tok), kn2), same(o.orig, ('seq', tok), kn2), same(o.pos, c(-1)), same(o.unreg, c(False)))
            ck.ob('a token no style parser takes becomes a positional', r, R.f, 'key %s value %s original %s' % (show(o.key), show(o.value)[:60], show(o.orig)[:60]), v, about(s.facts, now))
            return True
    ck.ob('a token no style parser takes becomes a positional', False if not [x for x in s.evs if x.k == 'mut' and x.meth in ('push_back', 'emplace_back', 'insert') and x.loc != ARGS] and cleanon(s.facts, now) else None, R.f,
          'a token nobody takes is dropped', v, about(s.facts, now))


def reporting(ck, R):
    """all options a style parser returned are appended to the result, in order"""
    v = R.v
    if R.inner is None:
        return
    for s in dedup(R.segs(R.inner)):
        ic = inner_call(s)
        if s.kind == 'throw' or not ic:
            continue
        N = ic[0].res
        g = narrow(s.facts, neg(empty_of(N)))
        if g is None:
            continue
        nl = None
        for e in s.evs:
            if e.k == 'write' and e.val == N:
                nl = e.loc
        lps = [(i, e) for i, e in enumerate(s.evs) if e.k == 'loop' and [x for it in e.iters for x in it.evs if x.k == 'mut' and x.meth in ('push_back', 'emplace_back') and x.args and x.args[0][0] == 'at']]
        bulk = [e for e in s.evs if e.k == 'mut' and e.meth in ('insert', 'push_back', 'emplace_back') and e.loc != nl]
        if not lps:
            ck.ob('every option found is reported, in order', None if bulk or not cleanon(g, N) else False, R.f, 'options found by a style parser are not reported', v, about(g, N))
            continue
        i, l = lps[-1]
        x = [x for it in l.iters for x in it.evs if x.k == 'mut' and x.meth in ('push_back', 'emplace_back')][0]
        S, t = x.args[0][1], x.args[0][2]
        rs = root_seq(S)
        lo, step = (t[2], t[1][3]) if t[0] == 'ix' and t[1][0] == l.id else (None, None)
        ok = True
        if lo is None or step != 1:
            ok = None
        elif lo != 0:
            ok = False
        for it in l.iters:
            if it.kind == 'brk':
                ok = None
            if it.kind == 'back' and not [y for y in it.evs if y.k == 'mut' and y.loc == x.loc]:
                ok = False if cleanon(it.facts, x.args[0], t, *bases(S)) else None
        for y in exits_of(v, l):
            zs = {z for k in y.facts for z in subterms(k) if z and z[0] == 'size' and root_seq(z[1]) == rs} | {size(N)}
            d = [ival(y.facts, sub(t, z))[0] for z in zs]
            if not any(q is not None and q >= 0 for q in d):
                oth = {z for k in y.facts if contains(k, t) for z in base_terms(k)} - zs - {t}
                ok = ok and (False if not oth else None)
        ck.ob('every option found is reported, in order', ok, R.f, 'options found by a style parser are reported from %s' % lo, v, {})
    return


def bases(t):
    """a list and the lists it is a modification of"""
    out = [t]
    while t[0] in ('mutel', 'aft') and isinstance(t[1], tuple):
        t = t[1]
        out.append(t)
    return out


def root_seq(t):
    while t[0] in ('mutel', 'aft') and isinstance(t[1], tuple):
        t = t[1]
    return t[2] if t[0] == 'phi' else t


def copies(R):
    """phase loops that go over the options found and push them (grabbing tokens on the way)"""
    out = []
    for s, i, l in phase_loops(R):
        for it in l.iters:
            for x in it.evs:
                if it.kind == 'back' and x.k == 'mut' and x.meth in ('push_back', 'emplace_back') and x.args and x.args[0][0] == 'at' and x.loc[0] == 'L':
                    if (id(s), id(l)) not in [(id(a), id(b)) for a, _, b, _ in out]:
                        out.append((s, i, l, x))
    return out


def copying(ck, R):
    v = R.v
    cs = copies(R)
    fields = {'position_key', 'string_key', 'case_insensitive'}
    for s, i, l, x in cs:
        S, I = x.args[0][1], x.args[0][2]
        il = [lc for lc, t in l.havoc.items() if t is not None and t == I]
        ck.ob('options are kept, in order', True if il and same(l.base0.get(il[0]), c(0)) else None if not il else False, R.f, 'starts at %s' % show(l.base0.get(il[0], c(-1))) if il else '', v, {})
        for it in l.iters:
            if it.kind == 'back':
                ps = [y for y in it.evs if y.k == 'mut' and y.loc == x.loc and y.meth in ('push_back', 'emplace_back')]
                ok = len(ps) == 1 and ps[0].args[0] == x.args[0]
                ck.ob('options are kept, in order', ok if ps else False if cleanon(it.facts, x.args[0], I, *bases(S)) else None, R.f, 'an option found is dropped or repeated', v, about(it.facts, x.args[0], I, *bases(S)) if not ok else {})
                if il and not [e for e in it.evs if e.k == 'loop' and any(y.k == 'mut' for z in e.iters for y in z.evs)]:
                    d = sub(end(v, it, il[0]), I)
                    ck.ob('options are kept, in order', d == c(1) if d[0] == 'c' else None, R.f, 'continues at +%s' % show(d), v, {})
            elif it.kind == 'brk':
                ck.ob('options are kept, in order', None if not cleanon(it.facts, x.args[0]) else False, R.f, 'stops before the last option', v, about(it.facts, x.args[0]))
        for y in exits_of(v, l):
            d = ival(y.facts, sub(I, size(S)))
            ck.ob('options are kept, in order', True if d[0] is not None and d[0] >= 0 else False if cleanon(y.facts, I, S) else None, R.f, 'stops before the last option', v, about(y.facts, I, S))
    # later phases only touch the naming fields
    if R.outer is None:
        return
    seen = set()
    for s, i, l in phase_loops(R):
        if any(l is y[2] for y in cs) or any(x.k == 'mut' and x.loc[0] == 'fld' and x.loc[2] == 'value' and x.args and next(find(('.', ANY, 'value'), x.args[0]), None) is not None
                                             for it in flat_its(l) for x in it.evs):
            continue
        for it in flat_its(l):
            for e in it.evs:
                if e.k in ('write', 'mut') and id(e) not in seen:
                    seen.add(id(e))
                    p, fl = e.loc, None
                    while p[0] == 'fld':
                        fl, p = p[2], p[1]
                    if p[0] == 'elem' and fl is not None and p[1][0] == 'L':
                        ck.ob('later phases only name and number', fl in fields, e, 'changes %s of an option that was already parsed' % fl, v, {})


# ------------------------------------------------------------------------- C13
def c13(ck):
    for nm, R in runs(ck, ('long', 'all')):
        numbering(ck, R)
        naming(ck, R)
    ck.need('positionals are numbered from zero')
    ck.need('the name for the position is used')
    ck.need('too many positionals are an error')
    names(ck)


def field_writes(l, field):
    return [(it, e) for it in flat_its(l) for e in it.evs if e.k == 'write' and e.loc[0] == 'fld' and e.loc[2] == field and e.loc[1][0] == 'elem']


def numbering(ck, R):
    v = R.v
    hit = False
    for s, i, l in uniq(phase_loops(R)):
        ws = field_writes(l, 'position_key')
        if not ws:
            continue
        hit = True
        w = ws[0][1]
        el = w.loc[1]
        for it in l.iters:
            if it.kind == 'throw':
                continue
            mine = [e for t_, e in field_writes_it(it, 'position_key')]
            cont = it.st and end(v, it, el)
            key = elem_field(v, l, it, el, 'string_key')
            ks = empty_of(key)
            cl = lambda f: cleanon(f, key)
            if mine:
                ck.ob('positionals are numbered from zero', True if must(it.facts, ks) else False if cl(it.facts) else None, R.f, 'a named option is numbered as positional', v, about(it.facts, key))
                t = mine[0].val
                ixt = [x for x in base_terms(t) if x[0] == 'ix' and x[1][0] == l.id and x[2] is not None]
                off = sub(t, ixt[0]) if len(ixt) == 1 else None
                lc = [lc for lc, x in l.havoc.items() if ixt and x == ixt[0]]
                if off is not None and off[0] == 'c' and lc:
                    ck.ob('positionals are numbered from zero', ixt[0][2] + off[1] == 0, R.f, 'first number is %s' % (ixt[0][2] + off[1]), v, {})
                    t = ixt[0]
                    ck.ob('positionals are numbered from zero', sub(end(v, it, lc[0]), t) == c(1) or (None if sub(end(v, it, lc[0]), t)[0] != 'c' else False), R.f, 'the next number is %s' % show(end(v, it, lc[0])), v, {})
                else:
                    ck.ob('positionals are numbered from zero', None if t[0] != 'c' else False, R.f, 'number %s' % show(t), v, {})
            else:
                ck.ob('positionals are numbered from zero', True if must(it.facts, neg(ks)) else False if cl(it.facts) else None, R.f, 'a positional is not numbered', v, about(it.facts, key))
                ixt = [x for x in base_terms(w.val) if x[0] == 'ix' and x[1][0] == l.id]
                t = ixt[0] if len(ixt) == 1 else None
                lc = [lc for lc, x in l.havoc.items() if x is not None and x == t]
                if lc:
                    ck.ob('positionals are numbered from zero', end(v, it, lc[0]) == t or (None if sub(end(v, it, lc[0]), t)[0] != 'c' else False), R.f, 'a named option uses up a number', v, {})
        whole(ck, R, s, i, l, el, 'positionals are numbered from zero')
    if not hit:
        ck.ob('positionals are numbered from zero', None, R.f, 'no numbering found', v)


def uniq(xs):
    seen, out = set(), []
    for s, i, l in xs:
        if id(l) not in seen:
            seen.add(id(l))
            out.append((s, i, l))
    return out


def field_writes_it(it, field):
    return [(it, e) for e in it.evs if e.k == 'write' and e.loc[0] == 'fld' and e.loc[2] == field and e.loc[1][0] == 'elem']


def elem_field(v, l, it, el, field):
    """value of a field of element el at the start of a round"""
    S = l.havoc.get(el[1])
    if S is None:
        return v.eng.proj(('at', ('in', el[1]), el[2]), field)
    return v.eng.proj(at(S, el[2]), field)


def whole(ck, R, s, i, l, el, rule):
    """loop l goes over every element of the list el belongs to"""
    v = R.v
    S = l.havoc.get(el[1])
    t = el[2]
    if S is None or t[0] != 'ix' or t[1][0] != l.id:
        return
    ck.ob(rule, t[2] == 0 and t[1][3] == 1 or None if t[2] is None else t[2] == 0 and t[1][3] == 1, R.f, 'starts at %s' % t[2], v, {})
    for it in l.iters:
        if it.kind == 'brk':
            ck.ob(rule, False if cleanon(it.facts, at(S, t)) else None, R.f, 'stops before the last option', v, about(it.facts, at(S, t)))
    for y in exits_of(v, l):
        d = ival(y.facts, sub(t, size(S)))
        ck.ob(rule, True if d[0] is not None and d[0] >= 0 else False if cleanon(y.facts, t, S) else None, R.f, 'stops before the last option', v, about(y.facts, t, S))


def cts(l, tpl, pos):
    """terms for the position of a positional: the one looked up; its number is the same as a running count"""
    return [tpl] + ([pos] + [t for lc, t in loop_ix(l) if t[2] == 0 and t[1][3] == 0] if tpl == pos else [])


def naming(ck, R):
    v = R.v
    POSF = fld(THIS, 'm_positional')
    hit = False
    for s, i, l in uniq(phase_loops(R)):
        if not any(e.k == 'call' and e.q.endswith('name_for_position') for it in l.iters for e in it.evs):
            continue
        hit = True
        ws = field_writes(l, 'string_key')
        if not ws:
            ck.ob('the name for the position is used', None, R.f, 'the name of the position is not stored', v)
            continue
        el = ws[0][1].loc[1]
        tpl = None
        for it in l.iters:
            cs = calls(it.evs, 'positional_options_description::name_for_position')
            if cs:
                tpl = cs[0].args[0]
        cl = [lc for lc, x in l.havoc.items() if x is not None and x == tpl]
        for it in l.iters:
            pos = elem_field(v, l, it, el, 'position_key')
            isp = neg(cmp_('==', pos, c(-1)))
            key = elem_field(v, l, it, el, 'string_key')
            cs = calls(it.evs, 'positional_options_description::name_for_position')
            mx = calls(it.evs, 'positional_options_description::max_total_count')
            if it.kind == 'throw':
                if throws(it, 'too_many_positional_options_error'):
                    ok = bool(mx) and any(narrow(it.facts, cmp_('<', x, mx[0].res)) is None for x in cts(l, tpl, pos))
                    ck.ob('too many positionals are an error', ok or (None if not mx or tpl == pos else False), R.f, 'thrown although there is a name for the position', v, about(it.facts, *([mx[0].res] if mx else [])))
                    ck.ob('only positionals count', must(it.facts, isp) or must(it.facts, empty_of(key)) or (False if cleanon(it.facts, pos, key) else None), R.f, 'a named option counts as positional', v, about(it.facts, pos, key))
                continue
            if it.kind != 'back':
                continue
            if cs:
                w = [e for t_, e in field_writes_it(it, 'string_key')]
                ok = bool(w) and w[0].val == ('in', ('deref', cs[0].res))
                ck.ob('the name for the position is used', ok or (None if w else False), R.f, 'stored name %s' % (show(w[0].val)[:80] if w else 'none'), v, {})
                ck.ob('only positionals count', must(it.facts, isp) or must(it.facts, empty_of(key)) or (False if cleanon(it.facts, pos, key) else None), R.f, 'a named option is renamed', v, about(it.facts, pos, key))
                ck.ob('too many positionals are an error', bool(mx) and any(narrow(it.facts, cmp_('>=', x, mx[0].res)) is None for x in cts(l, tpl, pos)) or (None if tpl == pos or mx and not cleanon(it.facts, mx[0].res) else False), R.f, 'no error although there is no name for the position', v, about(it.facts, *([mx[0].res] if mx else [])))
                if tpl[0] == 'ix' and cl:
                    ck.ob('positions are consecutive', tpl[2] == 0, R.f, 'first position is %s' % tpl[2], v, {})
                    d = sub(end(v, it, cl[0]), tpl)
                    ck.ob('positions are consecutive', d == c(1) if d[0] == 'c' else None, R.f, 'advances by %s' % show(d), v, {})
                else:
                    # the number given in the numbering phase
                    ck.ob('positions are consecutive', tpl == pos or (None if tpl[0] != 'c' else False), R.f, 'position %s' % show(tpl)[:60], v, {})
            else:
                ck.ob('every positional is named', must(it.facts, neg(isp)) or must(it.facts, neg(empty_of(key))) or (False if cleanon(it.facts, pos, key) else None), R.f, 'a positional gets no name', v, about(it.facts, pos, key))
                if cl:
                    d = sub(end(v, it, cl[0]), tpl)
                    ck.ob('positions are consecutive', d == c(0) if d[0] == 'c' else None, R.f, 'a named option uses up a position', v, {})
        whole(ck, R, s, i, l, el, 'every positional is named')
    if not hit:
        ck.ob('the name for the position is used', None, R.f, 'no naming found', v)
        return
    # exactly when a positional description is set
    for s in own(tops(v)):
        if s.kind != 'ret':
            continue
        ms = [x for k in s.facts for x in subterms(k) if x and (x == In(POSF) or (x[0] == 'phi' and x[2] == POSF))]
        named = any(e.k == 'loop' and any(x.k == 'call' and x.q.endswith('name_for_position') for it in e.iters for x in it.evs) for e in s.evs)
        if ms:
            t = isnull(ms[0])
            w = truth(s.facts, t)
            ck.ob('positionals are named when there is a positional description', None if w is None else named == (not w), R.f, 'naming %s' % named, v, {})
        elif not named:
            ck.ob('positionals are named when there is a positional description', False if deepclean(s.facts) else None, R.f, 'positional description ignored', v, {})


def names(ck):
    """positional_options_description"""
    f = ck.fn('positional_options_description::add')
    v = ck.view(f)
    N, T = fld(THIS, 'm_names'), fld(THIS, 'm_trailing')
    name, n = In(P(f, 0)), In(P(f, 1))
    t = Table(ck, v, 'positional description', f, [n])
    txt = lambda x: x == In(P(f, 0)) or x == ('str*', In(P(f, 0))) or any(y == In(P(f, 0)) or y == P(f, 0) for y in subterms(x))
    def rest(s, g):
        if s.kind != 'ret':
            return False, 'throws'
        return all3(True if txt(end(v, s, T)) and end(v, s, T) != In(T) else (False if end(v, s, T) == In(T) else None), same(end(v, s, N), In(N))), 'repeated name %s' % show(end(v, s, T))
    def some(s, g):
        if s.kind != 'ret':
            return False, 'throws'
        nv = end(v, s, N)
        if nv[0] == 'resized':
            return all3(same(nv[1], In(N)), nv[2] == add(size(In(N)), n), txt(nv[3]), same(end(v, s, T), In(T))), 'names %s' % show(nv)[:80]
        return None if nv != In(N) else False
    t.case('-1 names all remaining positions', [cmp_('==', n, c(-1))], rest)
    t.case('a count appends that many', [cmp_('>=', n, c(1))], some)
    t.run()
    f = ck.fn('positional_options_description::max_total_count')
    v = ck.view(f)
    for s in tops(v):
        for d, g in splits(s.facts, [empty_of(In(T))]):
            r = rv(v, s)
            want = size(In(N)) if d[empty_of(In(T))] else c(4294967295)
            ck.ob('limit of positions', same(r, want), f, 'limit is %s' % show(r), v, g)
    f = ck.fn('positional_options_description::name_for_position')
    v = ck.view(f)
    p = In(P(f, 0))
    for s in own(tops(v)):
        inr = cmp_('<', p, size(In(N)))
        for d, g in splits(s.facts, [inr]):
            if s.kind != 'ret':
                continue
            want = at(In(N), p) if d[inr] else In(T)
            if not d[inr] and narrow(g, neg(empty_of(In(T)))) is None:
                continue
            ck.ob('name of a position', same(rv(v, s), want), f, 'name is %s' % show(rv(v, s))[:60], v, g)
