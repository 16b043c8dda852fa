"""command line: terminator, style bits, custom parsers, original tokens"""
from itertools import product
from .dsl import *
from .rules_cmd import OPQ, CM, STYLE, BITS, cfn, setting, elems, Opt, opts_of, all3, own, untouched, either, front, one
from .rules_run import Run, Finish, runs, dedup, style_facts, COMBOS, ARGS
from .rules_line import grabbing, phase_loops, flat_its, field_writes, field_writes_it, elem_field, whole, uniq, INT_MAX

BUILTIN = ['parse_long_option', 'parse_disguised_long_option', 'parse_short_option', 'parse_dos_option']
CUSTOM, EXTRA = 'm_style_parser', 'm_additional_parser'
SHORTEN = {'parse_long_option': '--name', 'parse_disguised_long_option': '-name', 'parse_short_option': '-x', 'parse_dos_option': '/x', 'parse_terminator': '--', 'handle_additional_parser': 'additional parser', CUSTOM: 'custom style parser'}


def parser_name(ck, t):
    """which parser an element of the list of style parsers is (None: not understood)"""
    if t[0] == 'in' and t[1][0] == 'fld':
        return t[1][2]
    if t[0] == 'bind' and t[1][0] == 'fn':
        return t[1][1].split('::')[-1]
    for x in subterms(t):
        if x and x[0] in ('lambda', 'closure', 'clo', 'lam'):
            for u in [y for y in x if isinstance(y, str)]:
                f = ck.p.funcs.get(u)
                if f:
                    ns = {n.get('q', '').split('::')[-1] for n in walk([f['b']]) if n.get('q', '').startswith(NS + CM)}
                    if len(ns) == 1:
                        return ns.pop()
    return None


def parser_lists(ck, R):
    """[(facts, names)] the style parsers in the order they are asked"""
    out = []
    for s, i, e in R.icalls:
        es = elems(e.f[1])
        if es is None:
            out.append((e.facts, None))
            continue
        ns = [parser_name(ck, t) for t in es]
        if (tuple(ns), s.parent is None) not in [(tuple(n or ()), 0) for f, n in out]:
            out.append((e.facts, ns))
    return out


def asked(ck, rule, R):
    ls = parser_lists(ck, R)
    if not ls:
        ck.ob(rule, None, R.f, 'the list of style parsers was not recognised', R.v)
    for facts, ns in ls:
        if ns is None or None in ns:
            ck.ob(rule, None, R.f, 'the list of style parsers is not understood', R.v, facts)
        else:
            yield facts, ns


# ------------------------------------------------------------------------- C09
def c09(ck):
    f = cfn(ck, 'parse_terminator')
    term(ck, f)
    eq = ('eq', ('str', '--'))
    for n in BUILTIN:
        g = cfn(ck, n)
        if not g:
            continue
        v = ck.view(g, OPQ)
        A = P(g, 0)
        T_ = at(In(A), c(0))
        is_ = is_dashes(T_)
        for s in own(tops(v)):
            h = narrow(s.facts, *is_)
            if h is None:
                continue
            r, why = untouched(v, s, A)
            ck.ob('no option syntax takes the terminator', r, g, '%s: %s' % (n, why), v, h if deepclean(s.facts) else s.facts)
    ck.need('no option syntax takes the terminator', 1)
    for b in product((0, 1), repeat=5):
        if b[1] and not (b[2] or b[3]):
            continue
        R = Run(ck, dict(zip(BITS, b)))
        for facts, ns in asked(ck, 'the terminator is recognised under every style', R):
            ck.ob('the terminator is recognised under every style', 'parse_terminator' in ns or not f and None, R.f, 'style parsers %s' % ', '.join(SHORTEN.get(x, x) for x in ns), R.v, facts)
    for nm, R in runs(ck, ('long', 'all')):
        grabbing(ck, R)
    ck.need('further positional tokens: only free ones')


def is_dashes(t):
    return [cmp_('==', size(t), c(2)), cmp_('==', at(t, c(0)), c(45)), cmp_('==', at(t, c(1)), c(45))]


def term(ck, f):
    if not f:
        return
    v = ck.view(f, OPQ)
    A = P(f, 0)
    T_ = at(In(A), c(0))
    N = size(In(A))
    hit = 0
    eqs = [('eq', T_, ('str', '--')), ('eq', ('str', '--'), T_)]
    for s in own(tops(v)):
        e = [k for k in s.facts if k in eqs]
        atom = e[0] if e else None
        if atom is None:
            # written with sizes and characters
            y = narrow(s.facts, *is_dashes(T_))
            n_ = any(narrow(s.facts, neg(x)) is not None for x in is_dashes(T_))
            ds = [(True, y)] if y is not None else []
            ds += [(False, s.facts)] if n_ and not (y is not None and all(must(s.facts, x) for x in is_dashes(T_))) else []
        else:
            ds = [(d[atom], g) for d, g in splits(s.facts, [atom])]
        for isd, g in ds:
            if not isd:
                r, why = untouched(v, s, A)
                ck.ob('other tokens are left alone', r, f, why, v, g)
                continue
            hit += 1
            if s.kind != 'ret':
                ck.ob('tokens behind the terminator are positional', False, f, 'throws', v, g)
                continue
            out = rv(v, s)
            left = end(v, s, A)
            ck.ob('the terminator uses up the command line', True if left == ('seq',) else False if left == In(A) or left[0] in ('sub', 'tail') else None, f, 'left %s' % show(left)[:60], v, g)
            m = pm(('vmap', V('S'), V('O')), out, {})
            if m is None and out[0] == 'phi':
                each_token(ck, f, v, s, out, A, N)
                continue
            if m is None:
                es = elems(out)
                ck.ob('tokens behind the terminator are positional', None if es is None or narrow(g, cmp_('>=', N, c(2))) is None else False, f, 'result %s' % show(out)[:80], v, g)
                continue
            S = m['S']
            ck.ob('every token behind the terminator is kept', same(S, substr(In(A), c(1), N)), f, 'tokens %s' % show(S)[:60], v, g)
            o = Opt(v, m['O'])
            r = all3(same(o.key, ('str', '')), same(o.value, ('seq', ('el',))), same(o.orig, ('seq', ('el',))), o.pos == c(INT_MAX), o.unreg == c(False))
            ck.ob('tokens behind the terminator are positional', r, f, 'key %s value %s original %s position %s' % tuple(show(x)[:40] for x in (o.key, o.value, o.orig, o.pos)), v, g)
    ck.ob('the terminator case occurs', True if hit else None, f, 'no path', v)


def each_token(ck, f, v, s, out, A, N):
    """the loop building the result, path by path"""
    l = [e for e in s.evs if e.k == 'loop' and e.id == out[1]]
    ixs = [t for loc, t in loop_ix(l[0])] if l else []
    ixs = [t for t in ixs if any(contains(k, t) for it in l[0].iters for k in it.facts)]
    if len(ixs) != 1:
        ck.ob('every token behind the terminator is kept', None, f, 'loop not understood', v)
        return
    l, t = l[0], ixs[0]
    start = size(l.base0.get(out[2], ('?',))) if l.base0.get(out[2]) == ('seq',) else None
    ck.ob('every token behind the terminator is kept', t[2] == 1 and t[1][3] == 1 and l.base0.get(out[2]) == ('seq',) or None if t[2] is None else t[2] == 1 and t[1][3] == 1, f, 'starts at token %s' % t[2], v, {})
    tok = at(In(A), t)
    kn = (out, tok)
    for it in l.iters:
        if it.kind == 'throw':
            continue
        if it.kind != 'back':
            ck.ob('every token behind the terminator is kept', False if cleanon(it.facts, tok) else None, f, 'stops before the last token', v, about(it.facts, tok))
            continue
        x = end(v, it, out[2])
        if x == out:
            ck.ob('every token behind the terminator is kept', False if cleanon(it.facts, tok) else None, f, 'a token is dropped', v, about(it.facts, tok))
            continue
        if x[0] != 'push' or x[1] != out:
            ck.ob('every token behind the terminator is kept', None, f, 'result not understood', v)
            continue
        o = Opt(v, x[2])
        r = all3(same(o.key, ('str', '')), same(o.value, ('seq', tok), kn), same(o.orig, ('seq', tok), kn), same(o.pos, c(INT_MAX), kn), same(o.unreg, c(False)))
        ck.ob('tokens behind the terminator are positional', r, f, 'key %s value %s original %s position %s' % tuple(show(y)[:40] for y in (o.key, o.value, o.orig, o.pos)), v, about(it.facts, tok))
    for y in exits_of(v, l):
        d = ival(y.facts, sub(t, N))[0]
        ck.ob('every token behind the terminator is kept', True if d is not None and d >= 0 else False if cleanon(y.facts, t) else None, f, 'stops before the last token', v, about(y.facts, t))


# ------------------------------------------------------------------------- C12
DOC = {'allow_long': 1, 'allow_short': 2, 'allow_dash_for_short': 4, 'allow_slash_for_short': 8, 'long_allow_adjacent': 16, 'long_allow_next': 32,
       'short_allow_adjacent': 64, 'short_allow_next': 128, 'allow_sticky': 256, 'allow_guessing': 512, 'long_case_insensitive': 1024,
       'short_case_insensitive': 2048, 'allow_long_disguise': 4096}
UNIX = ['allow_short', 'short_allow_adjacent', 'short_allow_next', 'allow_long', 'long_allow_adjacent', 'long_allow_next', 'allow_sticky', 'allow_guessing', 'allow_dash_for_short']


def c12(ck):
    for b in product((0, 1), repeat=5):
        bits = dict(zip(BITS, b))
        if b[1] and not (b[2] or b[3]):
            continue                        # rejected combination
        R = Run(ck, bits)
        want = {'parse_long_option': b[0], 'parse_disguised_long_option': b[4], 'parse_short_option': b[1] and b[2], 'parse_dos_option': b[1] and b[3]}
        for facts, ns in asked(ck, 'a style admits exactly its syntax', R):
            for p, on in want.items():
                ck.ob('a style admits exactly its syntax', (p in ns) == bool(on) and ns.count(p) <= 1, R.f, '%s is %srecognised under %s' % (SHORTEN[p], '' if p in ns else 'not ', '+'.join(k for k in BITS if bits[k]) or 'no style'), R.v, facts)
            if b[4]:
                i = ns.index('parse_disguised_long_option') if 'parse_disguised_long_option' in ns else None
                for p in ('parse_short_option', 'parse_dos_option'):
                    if p in ns and i is not None:
                        ck.ob('disguised long options are tried before short ones', i < ns.index(p), R.f, 'order %s' % ', '.join(SHORTEN.get(x, x) for x in ns), R.v, facts)
    ck.need('a style admits exactly its syntax')
    ck.need('disguised long options are tried before short ones')
    check_style(ck)
    adopt(ck)
    enums(ck)
    consulted(ck)
    query(ck)
    for nm, R in runs(ck, ('long', 'all')):
        caseflag(ck, R)
    ck.need('the case flag follows the style')
    prefix(ck)


def valid(b):
    on = lambda n: b[n]
    if (on('allow_long') or on('allow_long_disguise')) and not on('long_allow_adjacent') and not on('long_allow_next'):
        return False
    if on('allow_short') and not on('short_allow_adjacent') and not on('short_allow_next'):
        return False
    if on('allow_short') and not on('allow_dash_for_short') and not on('allow_slash_for_short'):
        return False
    return True


REL = ['allow_long', 'allow_long_disguise', 'long_allow_adjacent', 'long_allow_next', 'allow_short', 'short_allow_adjacent', 'short_allow_next', 'allow_dash_for_short', 'allow_slash_for_short']


def assignments(ck, facts, base):
    """assignments of the style bits compatible with facts"""
    todo = [({}, facts)]
    for n in REL:
        nx = []
        for d, f in todo:
            for w in (True, False):
                for g in assume(f, has_bits(base, ck.enum(n)), w)[:1]:
                    e = dict(d)
                    e[n] = w
                    nx.append((e, g))
        todo = nx
    return todo


def check_style(ck):
    f = cfn(ck, 'check_style')
    if not f:
        return
    v = ck.view(f, [])
    st = In(P(f, 0))
    for s in own(tops(v)):
        asg = assignments(ck, s.facts, st)
        ok = {valid(d) for d, g in asg}
        if not asg:
            continue
        if s.kind == 'ret':
            bad = [d for d, g in asg if not valid(d)]
            ck.ob('contradictory styles are rejected', not bad, f, 'accepts %s' % '+'.join(n for n in REL if bad and bad[0][n]), v, s.facts)
        else:
            good = [d for d, g in asg if valid(d)]
            ck.ob('usable styles are accepted', not good, f, 'rejects %s' % '+'.join(n for n in REL if good and good[0][n]), v, s.facts)
            ck.ob('contradictory styles: the error', throws(s, 'invalid_command_line_style'), f, 'throws something else', v, s.facts)
    ck.need('contradictory styles are rejected')
    ck.need('usable styles are accepted')


def adopt(ck):
    f = cfn(ck, 'style')
    if not f:
        return
    v = ck.view(f, [])
    st = In(P(f, 0))
    zero = cmp_('==', st, c(0))
    n = {True: 0, False: 0}
    for s in own(tops(v)):
        for d, g in splits(s.facts, [zero]):
            z = d[zero]
            want = c(ck.enum('default_style')) if z else st
            if s.kind == 'ret':
                n[z] += 1
                ck.ob('the style given is used', same(end(v, s, STYLE), want), f, 'style 0 means the default' if z else 'style becomes %s' % show(end(v, s, STYLE)), v, g)
                if not z:
                    bad = [x for x, h in assignments(ck, g, st) if not valid(x) and any(x.values())]
                    ck.ob('contradictory styles are not adopted', not bad, f, 'adopts %s' % '+'.join(k for k in REL if bad and bad[0][k]), v, g)
            else:
                w = [e for e in s.evs if e.k in ('write', 'mut') and e.loc == STYLE]
                ck.ob('contradictory styles are not adopted', not w, f, 'the style is stored before it is checked', v, g)
                if z:
                    ck.ob('the style given is used', False, f, 'style 0 is rejected', v, g)
    for z, k in n.items():
        ck.ob('the style given is used', True if k else None, f, 'case %s' % ('default' if z else 'given'), v)
    # the public entry points hand it over unchanged
    for g in ck.fns('basic_command_line_parser::style'):
        w = ck.view(g, [CM + 'style'])
        for s in own(tops(w)):
            cs = calls(s.evs, CM + 'style')
            ck.ob('the style given is used', len(cs) == 1 and cs[0].args[0] == In(P(g, 0)), g, 'the style is passed on', w, s.facts)


def enums(ck):
    for n, x in DOC.items():
        ck.ob('style bits have their documented values', ck.enum(n) == x, 'command_line_style', '%s is %s' % (n, ck.enum(n)))
    u = 0
    for n in UNIX:
        u |= ck.enum(n)
    ck.ob('unix_style is the documented combination', ck.enum('unix_style') == u, 'command_line_style', 'unix_style is %s' % ck.enum('unix_style'))
    ck.ob('default_style is unix_style', ck.enum('default_style') == u, 'command_line_style', 'default_style is %s' % ck.enum('default_style'))
    ck.ob('case_insensitive covers both cases', ck.enum('case_insensitive') == ck.enum('long_case_insensitive') | ck.enum('short_case_insensitive'), 'command_line_style', 'case_insensitive')


def consulted(ck):
    """each bit is looked at by code that parsing runs"""
    cg = ck.callgraph()
    run = ck.fn(CM + 'run')['u']
    R, _ = ck.reach(run, cg, set())
    at_ = {n: [] for n in DOC}
    k = 0
    for u in R:
        f = ck.p.funcs.get(u)
        if not f:
            continue
        k += 1
        for x in walk([f['b']]):
            if x.get('k') == 'i' and 'command_line_style' in str(x.get('en', '')):
                for n in DOC:
                    if int(x['v']) & ck.enum(n):
                        at_[n].append('%s:%s' % (f['q'].replace(NS, ''), x.get('l')))
    for n in DOC:
        ck.ob('each style bit is honoured by parsing', bool(at_[n]), 'command_line_style', '%s is read by %s' % (n, ', '.join(at_[n][:3]) or 'no code that parsing runs (%d functions)' % k), ident='style-bit/' + n)


def query(ck):
    f = cfn(ck, 'is_style_active')
    if not f:
        return
    v = ck.view(f, [])
    b = tobool(('band', In(STYLE), In(P(f, 0))))
    for s in own(tops(v)):
        for d, g in splits(s.facts, [b]):
            ck.ob('a style bit is active iff it is set', bsame(g, rv(v, s), d[b]), f, 'is_style_active', v, g)


def caseflag(ck, R):
    v = R.v
    hit = False
    for s, i, l in uniq(phase_loops(R)):
        ws = field_writes(l, 'case_insensitive')
        if not ws:
            continue
        hit = True
        el = ws[0][1].loc[1]
        for it in l.iters:
            if it.kind != 'back':
                continue
            key = elem_field(v, l, it, el, 'string_key')
            nk = [e for t_, e in field_writes_it(it, 'string_key') if e.loc[1] == el]
            if nk:
                key = nk[-1].val
            w = [e for t_, e in field_writes_it(it, 'case_insensitive')]
            if not w:
                ck.ob('the case flag follows the style', False if cleanon(it.facts, key) else None, R.f, 'an option keeps the default case flag', v, about(it.facts, key))
                continue
            a = [cmp_('>=', size(key), c(3)), cmp_('==', size(key), c(2)), cmp_('==', at(key, c(0)), c(45))]
            for d, g in splits(it.facts, a):
                d = list(d.values())
                long_ = d[0] or (d[1] and not d[2])
                bit = ck.enum('long_case_insensitive' if long_ else 'short_case_insensitive')
                ck.ob('the case flag follows the style', setting(w[-1].val, bit, g), R.f, '%s option: flag %s' % ('long' if long_ else 'short', show(w[-1].val)[:60]), v, about(g, key))
        whole(ck, R, s, i, l, el, 'the case flag follows the style')
    if not hit:
        ck.ob('the case flag follows the style', None, R.f, 'the case flag is not set', v)


def prefix(ck):
    """precedence of the prefixes used in messages"""
    f = cfn(ck, 'get_canonical_option_prefix')
    if not f:
        return
    v = ck.view(f, [CM + 'is_style_active'] if False else [])
    S = In(STYLE)
    bit = lambda n: has_bits(S, ck.enum(n))
    for s in own(tops(v)):
        for d, g in splits(s.facts, [bit(n) for n in BITS]):
            on = dict(zip(BITS, d.values()))
            want = 'allow_long' if on['allow_long'] else 'allow_long_disguise' if on['allow_long_disguise'] else \
                'allow_dash_for_short' if on['allow_short'] and on['allow_dash_for_short'] else 'allow_slash_for_short' if on['allow_short'] and on['allow_slash_for_short'] else None
            w = c(ck.enum(want)) if want else c(0)
            ck.ob('messages use the prefix of the style', same(rv(v, s), w), f, 'prefix %s instead of %s' % (show(rv(v, s)), want), v, g)


# ------------------------------------------------------------------------- C15
def c15(ck):
    f = cfn(ck, 'handle_additional_parser')
    if f:
        v = ck.view(f, OPQ)
        A = P(f, 0)
        n = 0
        for s in own(tops(v)):
            ic = [e for e in s.evs if e.k == 'icall']
            if not ic or s.kind != 'ret':
                if s.kind == 'ret':
                    ck.ob('the additional parser is asked', False if deepclean(s.facts) else None, f, 'a token is not shown to the additional parser', v, s.facts)
                continue
            r = ic[0]
            ck.ob('the additional parser is asked', all3(len(ic) == 1, r.f == ('in', fld(THIS, EXTRA)), same(r.args[0], at(In(A), c(0)))), f, 'called with %s' % show(r.args[0])[:60], v, s.facts)
            k, x = v.eng.proj(r.res, 'first'), v.eng.proj(r.res, 'second')
            for d, g in splits(s.facts, [empty_of(k), empty_of(x)]):
                noname, noval = d.values()
                n += 1
                if noname:
                    res = untouched(v, s, A)
                    ck.ob('a token without a name is left to the other styles', res[0], f, res[1], v, g)
                else:
                    res = either([one(v, s, A, k, [] if noval else [x], o) for o in ([at(In(A), c(0))],)])
                    ck.ob('its name and value become one option', res[0] if isinstance(res, tuple) else res, f, res[1] if isinstance(res, tuple) else '', v, g)
        ck.ob('the additional parser is asked', True if n else None, f, 'call not found', v)
    for b in (COMBOS['long'], COMBOS['all'], (0, 0, 0, 0, 0)):
        R = Run(ck, dict(zip(BITS, b)))
        for facts, ns in asked(ck, 'custom parsers are asked first', R):
            for m, p in ((CUSTOM, CUSTOM), (EXTRA, 'handle_additional_parser')):
                set_ = truth(facts, isnull(In(fld(THIS, m))))
                if set_ is None:
                    t = [k for k in facts if contains(k, In(fld(THIS, m)))]
                    ck.ob('custom parsers are asked when given', None if t else False if (p in ns) else False, R.f, '%s: %s' % (SHORTEN[p], 'always' if p in ns else 'never'), R.v, {})
                    continue
                ck.ob('custom parsers are asked when given', (p in ns) == (not set_), R.f, '%s is %sasked' % (SHORTEN[p], '' if p in ns else 'not '), R.v, facts)
            cust = [i for i, x in enumerate(ns) if x in (CUSTOM, 'handle_additional_parser')]
            ck.ob('custom parsers are asked first', cust == list(range(len(cust))) and (CUSTOM not in ns or ns[0] == CUSTOM), R.f, 'order %s' % ', '.join(SHORTEN.get(x, x) for x in ns), R.v, facts)
    ck.need('custom parsers are asked first')
    ck.need('custom parsers are asked when given')
    for n, m, via in (('set_additional_parser', EXTRA, 'extra_parser'), ('extra_style_parser', CUSTOM, 'extra_style_parser')):
        g = cfn(ck, n)
        if g:
            v = ck.view(g, [])
            for s in own(tops(v)):
                ck.ob('custom parsers are remembered', same(end(v, s, fld(THIS, m)), In(P(g, 0))), g, '%s becomes %s' % (m, show(end(v, s, fld(THIS, m)))[:60]), v, s.facts)
        for h in ck.fns('basic_command_line_parser::' + via):
            v = ck.view(h, [])
            for s in own(tops(v)):
                ck.ob('custom parsers are remembered', same(end(v, s, fld(THIS, m)), In(P(h, 0))), h, '%s becomes %s' % (m, show(end(v, s, fld(THIS, m)))[:60]), v, s.facts)


# ------------------------------------------------------------------------- C34
def c34(ck):
    fs = ck.fns('collect_unrecognized')
    for f in fs:
        collect(ck, f)
    # where original tokens come from
    originals(ck)
    for nm, R in runs(ck, ('long', 'all')):
        from .rules_line import progress, copying
        grabbing(ck, R)
        progress(ck, R)
    ck.need('further positional tokens: become value and original token')
    ck.need('a token no style parser takes becomes a positional')


def collect(ck, f):
    v = ck.view(f, [])
    O, mode = In(P(f, 0)), In(P(f, 1))
    incl = cmp_('==', mode, c(ck.enum('include_positional')))
    levs = []
    for s, i, e in loops(v):
        if s.parent is None and not any(e is x for x in levs) and any(contains(k, O) for it in e.iters for k in it.facts):
            levs.append(e)
    if not levs:
        ck.ob('unrecognised: every option is looked at', None, f, 'no loop over the options found', v)
        return
    for l in levs:
        s0 = [(s, i) for s, i, e in loops(v) if e is l][0]
        ck.ob('unrecognised: every option is looked at', walks(v, s0[0], s0[1], l, O), f, 'the loop visits every option in order', v, {})
        for it in l.iters:
            if it.kind != 'back':
                continue
            ix = [t for loc, t in loop_ix(l)]
            if len(ix) != 1:
                ck.ob('unrecognised: the tokens of every selected option', None, f, 'element not identified', v)
                continue
            el = at(O, ix[0])
            pr = lambda n: v.eng.proj(el, n)
            un, pos, org = tobool(pr('unregistered')), cmp_('==', pr('position_key'), c(-1)), pr('original_tokens')
            ap = appended(v, it, org)
            for d, g in splits(it.facts, [un, incl, pos]):
                u, m, p = d.values()
                sel = u or (m and not p)
                if sel:
                    ck.ob('unrecognised: the tokens of every selected option', ap, f, '%s' % ('an unregistered option' if u else 'a positional') + ': its original tokens are not all returned', v, about(g, el, mode))
                else:
                    ck.ob('unrecognised: nothing else', ap is False and not touched(it) if ap is not None else None, f, 'tokens of a recognised option are returned', v, about(g, el, mode))
    for s in own(tops(v, 'ret')):
        r = rv(v, s)
        ck.ob('unrecognised: nothing else', True if any(r[0] == 'phi' and r[1] == l.id for l in levs) else None, f, 'result %s' % show(r)[:60], v, {})
        for l in levs:
            for loc, b in l.base0.items():
                if r[0] == 'phi' and r[2] == loc:
                    ck.ob('unrecognised: nothing else', same(b, ('seq',)), f, 'starts with %s' % show(b)[:60], v, {})


def touched(it):
    return [e for e in flat_evs(it.evs) if e.k in ('mut',) and e.loc[0] == 'L']


def appended(v, it, seqv):
    """this round appends all of seqv, in order, to the result : True / False (definitely not) / None"""
    ms = touched(it)
    if not ms:
        return False
    lp = [(i, e) for i, e in enumerate(it.evs) if e.k == 'loop' and any(x.k == 'mut' for z in e.iters for x in z.evs)]
    if len(lp) == 1:
        i, l = lp[0]
        w = walks(v, it, i, l, seqv)
        for z in l.iters:
            if z.kind != 'back':
                continue
            ps = [x for x in z.evs if x.k == 'mut']
            ixs = [t for loc, t in loop_ix(l)]
            if len(ps) != 1 or ps[0].meth not in ('push_back', 'emplace_back'):
                return None
            a = ps[0].args[0]
            if not any(a == at(seqv, t) for t in ixs):
                return None if any(contains(a, t) for t in ixs) and a[0] != 'at' else False
        return w
    if not lp and len(ms) == 1:
        e = ms[0]
        if e.meth == 'insert' and e.val[0] == 'inserted':
            return True if len(e.val) > 3 and contains(e.val, seqv) and e.val[2] == size(e.val[1]) else None
        if e.val[0] in ('cat', 'append', 'concat') and contains(e.val, seqv):
            return True
        if e.meth in ('push_back', 'emplace_back'):
            return False
    return None


def originals(ck):
    """what each parser reports as original tokens is the token it consumed"""
    from . import rules_cmd
    rules_cmd.c14(ck)
    f = cfn(ck, 'handle_additional_parser')
    if f:
        v = ck.view(f, OPQ)
        A = P(f, 0)
        for s in own(tops(v, 'ret')):
            os = opts_of(v, rv(v, s))
            if os is None:
                ck.ob('options keep the token they came from', None, f, 'result not understood', v, s.facts)
                continue
            for o in os:
                ck.ob('options keep the token they came from', same(o.orig, ('seq', at(In(A), c(0)))), f, 'original %s' % show(o.orig)[:60], v, s.facts)
    term(ck, cfn(ck, 'parse_terminator'))
    F = Finish(ck)
    if F.f:
        from .rules_line import arity
        arity(ck, F)
