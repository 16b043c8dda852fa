"""errors: context, hierarchy, message text"""
from .dsl import *

EW = 'po::error_with_option_name'
LIB = 'po::error'
CTX = 'error_with_option_name::add_context'
PFX = 'detail::cmdline::get_canonical_option_prefix'


def unknown(t):
    return any(x and x[0] in BAD for x in subterms(t))


def own(segs):
    return [s for s in segs if s.parent is None]


def in_lib(f):
    return not f['f'].startswith('/') or '/verif/' not in f['f']


# ------------------------------------------------------------------ construction of errors
def ctor_of(ck, cls, n, pts=None):
    q = cls.replace('po::', NS)
    r = [f for f in ck.p.fns(q + '::' + q.split('::')[-1]) if len(f['ps']) == n]
    if pts:
        r = [f for f in r if [tn(p['t']) for p in f['ps']] == [tn(x) for x in pts]] or r
    return r[0] if r else None


def built(ck, f, args, depth=0):
    """arguments error_with_option_name is built with when class f constructs itself from args: (template, name, token, style) or None"""
    v = ck.view(f, ['invalid_syntax::get_template', 'validation_error::get_template'])
    out = None
    for s in tops(v, 'ret'):
        b = [e for e in s.evs if e.k == 'basector']
        if len(b) != 1:
            return None
        m = {In(P(f, i)): a for i, a in enumerate(args)}
        ba = tuple(subst(a, m) for a in b[0].args)
        base = b[0].q.rsplit('::', 1)[0]
        if base == NS + 'error_with_option_name':
            r = ba
        elif base == NS + 'error' or depth > 6:
            return None
        else:
            g = ctor_of(ck, base, len(ba))
            r = built(ck, g, ba, depth + 1) if g else None
        if r is None or out not in (None, r):
            return None
        out = r
    return out


def named_by(ck, cls, n):
    """indices of constructor parameters of error class cls that end up as the option or the token shown (None: not understood)"""
    tab = ck.__dict__.setdefault('_named', {})
    if (cls, n) not in tab:
        f = ctor_of(ck, cls, n)
        r = None
        if f is not None:
            b = built(ck, f, [In(P(f, i)) for i in range(n)])
            if b is not None and len(b) >= 3:
                r = [i for i in range(n) if contains(b[1], In(P(f, i))) or contains(b[2], In(P(f, i)))]
                # the line of a configuration file stands for the option
                v = ck.view(f, ['invalid_syntax::get_template', 'validation_error::get_template'])
                for s in tops(v, 'ret'):
                    for e in s.evs:
                        if e.k == 'write' and named(e.loc, ('str', 'invalid_line')):
                            r += [i for i in range(n) if contains(e.val, In(P(f, i)))]
        tab[(cls, n)] = r
    return tab[(cls, n)]


def blank(n):
    """argument that says nothing: an empty literal"""
    lits = [x for x in walk(n) if x.get('k') == 's']
    vs = [x for x in walk(n) if x.get('k') in ('v', 'm', 'c', 'this')]
    return bool(lits) and not vs and all(x['v'] == '' for x in lits)


# ------------------------------------------------------------------ errors that leave a function
class Escape(object):
    """(type, has context, site) of every library error that can leave a function, by the syntax tree"""
    def __init__(self, ck):
        self.ck, self.p = ck, ck.p
        self.memo = {}
        self.ptrs = {n['u'] for f in self.p.funcs.values() for n in walk(f['b']) if n.get('k') in ('pf', 'fn') and n.get('u') in self.p.funcs}
        ch = True
        T = self.memo = {u: set() for u in self.p.funcs}
        while ch:
            ch = False
            for u, f in self.p.funcs.items():
                new = self.of([i.get('e') for i in f.get('inits') or []] + [f['b']], set(), f)
                if not new <= T[u]:
                    T[u] |= new
                    ch = True

    def site(self, n, f, t):
        """is the error constructed here given an option or token?"""
        for x in walk(n):
            if x.get('k') == 'new' and bare(x.get('cls') or '') == t and 'a' in x and not (len(x['a']) == 1 and bare((x.get('pt') or [''])[0]) == t):
                nb = named_by(self.ck, t, len(x['a']))
                if nb is None:
                    return True
                return any(not blank(x['a'][i]) for i in nb if i < len(x['a']))
        return True

    def of(self, n, cur, f):
        if isinstance(n, list):
            out = set()
            for x in n:
                out |= self.of(x, cur, f)
            return out
        if not isinstance(n, dict):
            return set()
        if n.get('s') == 'try':
            out = self.of(n['b'], cur, f)
            for h in n['h']:
                ht = bare(h['t']) if h['t'] != '...' else '...'
                caught = {x for x in out if ht == '...' or self.p.derives(x[0], ht)}
                out -= caught
                sup = caught
                if any(m.get('u') and self.adds(m['u']) for m in walk(h['b'])):
                    sup = {(t, True, s) for t, _, s in caught}
                # an exception class only created here may be turned into another one: that one's own context counts
                out |= self.of(h['b'], sup, f)
            return out
        k = n.get('k')
        out = set()
        if k == 'throw' or k == 'c' and n.get('q') == 'boost::throw_exception':
            if k == 'throw' and n.get('e') is None:
                return set(cur)
            t = bare(n.get('t') or '?') if k == 'throw' else bare((n.get('ta') or [None])[0] or n['pt'][0])
            if self.p.derives(t, EW):
                out.add((t, self.site(n, f, t), (f['u'], n.get('l', f['l']))))
        elif k == 'c':
            us = {n['u']} | (self.p.overriders(n['u']) if n.get('virt') else set())
            for u in us:
                out |= self.memo.get(u, set())
            if n['q'].endswith('::operator()') and 'function' in n['q'] or (n.get('cls') and 'boost::function' in n['cls'] and n['q'].endswith('operator()')):
                for u in self.ptrs:
                    out |= self.memo[u]
        elif k == 'ci' or k == 'new' and n.get('u') in self.memo:
            for u in (self.ptrs if k == 'ci' else [n['u']]):
                out |= self.memo[u]
        for v in n.values():
            if isinstance(v, (dict, list)):
                out |= self.of(v, cur, f)
        return out

    def adds(self, u):
        tab = self.__dict__.setdefault('_adds', {})
        if u not in tab:
            tab[u] = False
            f = self.p.funcs.get(u) or self.p.methods.get(u)
            if f and f['q'] in (NS + CTX, NS + 'error_with_option_name::set_option_name', NS + 'error_with_option_name::set_original_token'):
                tab[u] = True
            elif f and f.get('b') and f['q'].startswith(NS):
                tab[u] = any(x.get('u') and isinstance(x['u'], str) and self.adds(x['u']) for x in walk(f['b']))
        return tab[u]


def c26(ck):
    leave(ck)
    handlers(ck)
    context(ck)
    setters(ck)
    style(ck)


ENTRIES = ['detail::cmdline::run', 'store', 'variables_map::notify', 'parse_config_file', 'parse_environment', 'basic_command_line_parser::run',
           'detail::common_config_file_iterator::get', 'parse_command_line', 'notify']


def leave(ck):
    R = 'an error that leaves the library names the option or token concerned'
    E = Escape(ck)
    for q in ENTRIES:
        for f in ck.p.fns(q):
            bad = {}
            for t, ok, s in E.memo[f['u']]:
                # the same error may come with and without context, depending on the way it took
                if not ok:
                    bad[s] = t
            for s, t in sorted(bad.items()):
                g = ck.p.funcs[s[0]]
                ck.ob(R, False, f, '%s leaves %s without option or token; thrown at %s:%s' % (t, q, g['f'], s[1]), None, None)
            n = {(t, s) for t, ok, s in E.memo[f['u']] if ok}
            for t, s in sorted(n):
                if s not in bad:
                    ck.ob(R, True, f, '%s from %s' % (t, ck.p.funcs[s[0]]['q'].replace(NS, '')))
    ck.need(R, 12)


# ------------------------------------------------------------------ handlers
def silent_ok(ck, u, seen=()):
    """every use of function u computes text of an error"""
    if u in seen:
        return True
    uses = 0
    for g in ck.p.funcs.values():
        isx = g.get('cls') and ck.p.derives(bare(g['cls']), LIB)

        def w(n, inexc):
            nonlocal uses
            if isinstance(n, list):
                return all(w(x, inexc) for x in n)
            if not isinstance(n, dict):
                return True
            here = inexc or (n.get('k') == 'new' and bool(n.get('cls')) and ck.p.derives(bare(n['cls']), LIB))
            if n.get('u') == u and n.get('k') in ('c', 'fn', 'pf'):
                uses += 1
                if not (here or isx or silent_ok(ck, g['u'], tuple(seen) + (u,))):
                    return False
            return all(w(x, here) for x in n.values() if isinstance(x, (dict, list)))
        if not w([g['b']] + [i.get('e') for i in g.get('inits') or []], False):
            return False
    return uses > 0


def handlers(ck):
    """no handler lets an error vanish"""
    R = 'a handler ends by throwing'
    RT = 'an error keeps its type on the way'
    n = 0
    for u, f in sorted(ck.p.funcs.items()):
        if not f['q'].startswith('boost::') or not any(x.get('s') == 'try' for x in walk(f['b'])):
            continue
        n += 1
        for s in [s for v in views(ck, f) for s in v.segs()]:
            cs = [e for e in s.evs if e.k == 'catch']
            if not cs:
                continue
            e = cs[-1]
            v = None
            if s.kind != 'throw':
                if silent_ok(ck, u):
                    ck.ob(R, True, e, 'text of an error message only', v, {})
                else:
                    ck.ob(R, False if deepclean(s.facts) else None, e, 'after catching %s the function goes on' % e.t, v, {})
                continue
            ck.ob(R, True, e, 'caught %s' % e.t, v, {})
            if foreign_after(s, e):
                continue
            t0, t1 = e.exc[1], s.val[1]
            last = [x for x in s.evs if x.k in ('throw', 'rethrow')][-1:]
            if ck.p.derives(bare(e.t), LIB) if e.t != '...' else ck.p.derives(bare(t0), LIB) if t0 != '?' else False:
                same_ = last and last[0].k == 'rethrow' or bare(t1) == bare(t0)
                ck.ob(RT, True if same_ else False if t0 != '?' and t1 != '?' and not ck.p.derives(bare(t1), bare(t0)) else None, e, '%s goes on as %s' % (t0, t1), v, {})
    ck.need(R, 8)
    ck.need(RT, 4)


CTXOPQ = [CTX, 'error_with_option_name::set_option_name', 'error_with_option_name::set_original_token', 'error_with_option_name::set_prefix',
          'error_with_option_name::set_substitute', 'options_description::find_nothrow', 'options_description::find', 'option_description::key', 'option_description::canonical_display_name',
          'value_semantic::parse', 'detail::cmdline::is_style_active', PFX]


def views(ck, f):
    """views of f; the engine's main loop is analysed for one style with long and one without"""
    if not f['q'].endswith('cmdline::run'):
        return [ck.view(f, CTXOPQ)]
    from .rules_run import style_facts, RUNQ
    return [ck.view(f, RUNQ + [x for x in CTXOPQ if x not in RUNQ], facts=style_facts(ck, b), merge_at=200)
            for b in (dict(allow_long=1, allow_long_disguise=0, allow_short=1, allow_dash_for_short=1, allow_slash_for_short=0),
                      dict(allow_long=0, allow_long_disguise=1, allow_short=1, allow_dash_for_short=0, allow_slash_for_short=1))]


def foreign_after(s, e):
    """the exception the path ends with comes out of a call made in the handler"""
    i = s.evs.index(e)
    return any(x.k == 'xthrow' for x in s.evs[i + 1:])


def tokens_of(x):
    """the tokens of the option whose key is term x"""
    if x[0] == '.' and x[2] == 'string_key':
        return ('.', x[1], 'original_tokens')
    if x[0] == 'in' and x[1][0] == 'fld' and x[1][2] == 'string_key':
        return infld(x[1][1], 'original_tokens')
    return None


def context(ck):
    """what handlers tell an error"""
    RN, RK, RS = 'the option named is the one being worked on', 'the token shown is the one given', 'names are shown in the style in force'
    spec = [('store', 3), ('detail::cmdline::run', 0), ('detail::cmdline::finish_option', 3), ('detail::cmdline::parse_short_option', 1), ('detail::cmdline::parse_disguised_long_option', 1)]
    for q, np in spec:
        fs = [f for f in ck.p.fns(q) if len(f['ps']) == np]
        if not fs:
            ck.ob(RN, None, q, 'function is gone')
        for f in fs:
            done = False
            for v, s in [(v, s) for v in views(ck, f) for s in v.segs()]:
                if s.kind != 'throw':
                    continue
                for j, e in enumerate(s.evs):
                    if e.k != 'call' or not e.q.endswith('::add_context'):
                        continue
                    done = True
                    i = max([k for k, x in enumerate(s.evs[:j]) if x.k == 'catch'] or [0])
                    one_context(ck, f, v, s, i, e, RN, RK, RS)
            if not done:
                ck.ob(RN, None, f, 'no context is added here')
    ck.need(RN, 12)
    ck.need(RK, 12)
    ck.need(RS, 12)


def one_context(ck, f, v, s, i, e, RN, RK, RS):
    name, tok, sty = e.args[:3]
    # the step that failed: the last call or throw before the handler
    fail = [x for x in s.evs[:i] if x.k in ('xthrow', 'throw')][-1:]
    look = [x for x in s.evs[:i] if x.k == 'call' and x.q.split('::')[-1] in ('find_nothrow', 'find', 'parse')]
    key = None
    what = '?'
    if fail and fail[0].k == 'xthrow' and look:
        c_ = look[-1]
        what = c_.q.split('::')[-1]
        if what == 'parse':
            vals = c_.args[1]
            key = ('.', vals[1], 'string_key') if vals[0] == '.' and vals[2] == 'value' else None
        else:
            key = c_.args[0]
    elif fail and fail[0].k == 'throw':
        what = 'check'
        key = infld(P(f, 0), 'string_key') if f['q'].endswith('finish_option') else None
    if key is None and not f['q'].endswith('parse_disguised_long_option'):
        ck.ob(RN, None, e, 'failing step not recognised', v, {})
        return
    toks = tokens_of(key) if key else None
    if f['q'].endswith('parse_disguised_long_option'):
        # the name is looked up without its dash and value: the whole token stands for it
        okn = contains_arg(f, name)
        ck.ob(RN, True if okn else None if unknown(name) else False, e, 'names %s' % show(name)[:60], v, {})
        ck.ob(RK, True if contains_arg(f, tok) else None if unknown(tok) else False, e, 'shows %s' % show(tok)[:60], v, {})
    else:
        # name: the key (possibly already in its canonical form)
        canon = any(x and x[0] == 'call' and str(x[1]).endswith('::key') and len(x) > 3 and x[3] == key for x in subterms(name))
        okn = name == key or canon
        if not okn and f['q'].endswith('finish_option') and what == 'find_nothrow':
            k0 = infld(P(f, 0), 'string_key')      # looking at a following token while working on this option
            okn = name == k0 or any(x and x[0] == 'call' and str(x[1]).endswith('::key') and len(x) > 3 and x[3] == k0 for x in subterms(name))
        ck.ob(RN, True if okn else (None if unknown(name) and not stale(v, s, name) else False), e, '%s of %s: names %s' % (what, show(key)[:50], show(name)[:60]), v, {})
        if toks is None:
            ok = tok == key
        elif tok == at(toks, c(0)):
            ok = True
        elif tok == key or tok == ('str', ''):
            ok = narrow(s.facts, cmp_('>=', size(toks), c(1))) is None
            if not ok and unknown(key) and any(x and x[0] in ('.', 'fld') and x[2] == 'original_tokens' for k in s.facts for x in subterms(k)):
                ok = None
        else:
            ok = None if unknown(tok) and not stale(v, s, tok) else False
            if what == 'check' and tok[0] == 'at' and tok[1][0] == 'phi' and tok[1][2] == P(f, 1):
                ok = False      # one of the tokens that follow
        ck.ob(RK, ok, e, '%s of %s: shows %s' % (what, show(key)[:50], show(tok)[:60]), v, {})
    # style
    if f['q'].endswith('::store'):
        oks = sty == infld(P(f, 0), 'm_options_prefix')
    else:
        oks = sty[0] == 'call' and str(sty[1]).endswith('get_canonical_option_prefix')
    ck.ob(RS, True if oks else None if unknown(sty) or sty[0] == 'call' else False, e, 'style %s' % show(sty)[:40], v, {})


def stale(v, s, t):
    """t is what a local variable held at the start of the round: left over from the option before"""
    return t[0] == 'phi' and t[2][0] == 'L'


def contains_arg(f, t):
    return any(x == at(In(P(f, 0)), c(0)) or x[:1] == ('in',) and x[1] == ('elem', P(f, 0), c(0)) for x in subterms(t) if x)


def setters(ck):
    """add_context records all three"""
    R = 'context given to an error is recorded'
    f = ck.fn('error_with_option_name::add_context')
    v = ck.view(f, ['error_with_option_name::set_option_name'])
    for s in own(tops(v, 'ret')):
        cs = calls(s.evs, 'set_option_name')
        ck.ob(R, True if len(cs) == 1 and cs[0].args == (In(P(f, 0)),) else False if not cs or not unknown(cs[0].args[0]) else None, f, 'option name', v, {})
        ws = [e for e in s.evs if e.k == 'write' and named(e.loc, ('str', 'original_token'))]
        ck.ob(R, True if ws and ws[-1].val == In(P(f, 1)) else False if not ws or not unknown(ws[-1].val) else None, f, 'original token', v, {})
        ws = [e for e in s.evs if e.k == 'write' and e.loc == fld(THIS, 'm_option_style')]
        ck.ob(R, True if ws and ws[-1].val == In(P(f, 2)) else False if not ws or not unknown(ws[-1].val) else None, f, 'style', v, {})
    f = ck.fn('error_with_option_name::set_option_name')
    v = ck.view(f)
    for s in own(tops(v, 'ret')):
        ws = [e for e in s.evs if e.k == 'write' and named(e.loc, ('str', 'option'))]
        ck.ob(R, True if ws and ws[-1].val == In(P(f, 0)) else False if not ws or not unknown(ws[-1].val) else None, f, 'option name is kept', v, {})
    f = ck.opt('error_with_no_option_name::set_option_name')
    if f:
        v = ck.view(f)
        for s in own(tops(v, 'ret')):
            ck.ob('unknown and ambiguous options are shown by their token alone', not [e for e in s.evs if e.k in ('write', 'mut')], f, 'set_option_name', v, {})
    ck.need(R, 4)


def style(ck):
    """cmdline: the style names are shown in"""
    R = 'the style shown is the first one switched on'
    f = ck.fn(PFX)
    E = {n: ck.enum(n) for n in ('allow_long', 'allow_long_disguise', 'allow_short', 'allow_dash_for_short', 'allow_slash_for_short')}
    from .rules_run import style_facts
    import itertools
    v = ck.view(f)
    for on in itertools.product((0, 1), repeat=5):
        b = dict(zip(E, on))
        want = 'allow_long' if b['allow_long'] else 'allow_long_disguise' if b['allow_long_disguise'] else None
        if want is None and b['allow_short']:
            want = 'allow_dash_for_short' if b['allow_dash_for_short'] else 'allow_slash_for_short' if b['allow_slash_for_short'] else None
        wv = (E[want] if not isinstance(E[want], tuple) else E[want][1]) if want else 0
        g0 = style_facts(ck, b)
        v2 = ck.view(f, facts=g0)
        for s in own(tops(v2, 'ret')):
            r = rv(v2, s)
            ck.ob(R, True if r == c(wv) else False if is_c(r) else None, f, 'with %s: gives %s' % ([n for n in b if b[n]], show(r)), v2, {})
    ck.need(R, 30)


# ------------------------------------------------------------------ C27
TREE = {'error': 'std::logic_error', 'too_many_positional_options_error': 'po::error', 'invalid_command_line_style': 'po::error', 'reading_file': 'po::error',
        'error_with_option_name': 'po::error', 'multiple_values': EW, 'multiple_occurrences': EW, 'required_option': EW, 'error_with_no_option_name': EW,
        'unknown_option': 'po::error_with_no_option_name', 'ambiguous_option': 'po::error_with_no_option_name', 'invalid_syntax': EW,
        'invalid_config_file_syntax': 'po::invalid_syntax', 'invalid_command_line_syntax': 'po::invalid_syntax', 'validation_error': EW,
        'invalid_option_value': 'po::validation_error', 'invalid_bool_value': 'po::validation_error'}


def c27(ck):
    tree(ck)
    thrown(ck)
    carried(ck)
    kinds(ck)


def public_path(p, t, base, ok=True):
    """t derives from base through public bases only"""
    t, base = bare(t), bare(base)
    if t == base:
        return True
    r = p.records.get(t)
    if not r:
        return p.derives(t, base)
    acc = r.get('bacc') or [0] * len(r['bases'])
    return any(a == 0 and public_path(p, b, base) for b, a in zip(r['bases'], acc))


def tree(ck):
    R = 'errors form the documented tree'
    for n, b in sorted(TREE.items()):
        t = 'po::' + n
        r = ck.p.records.get(t)
        if not r:
            ck.ob(R, None, n, 'class is gone or never complete')
            continue
        w = '%s:%s class %s' % (r['f'], r['l'], n)
        ck.ob(R, public_path(ck.p, t, b), w, '%s is a %s' % (n, b))
    # every class that is thrown as a base somewhere may be caught as such: no class of the tree hides another base
    for t, r in sorted(ck.p.records.items()):
        if t.startswith('po::') and ck.p.derives(t, 'std::exception') and not t.startswith('po::detail'):
            ck.ob('every error class of the library is an error', public_path(ck.p, t, LIB), '%s:%s class %s' % (r['f'], r['l'], t), 'derives from error')
    ck.need(R, 15)
    ck.need('every error class of the library is an error', 15)


CONVERSION = 'boost::detail::convert'


def thrown(ck):
    """every throw expression of the library"""
    R = 'what the library throws is an error'
    for u, f in sorted(ck.p.funcs.items()):
        if not f['q'].startswith('boost::') or f['f'].startswith('probe'):
            continue
        for n in walk([f['b']] + [i.get('e') for i in f.get('inits') or []]):
            t = None
            if n.get('k') == 'c' and n.get('q') == 'boost::throw_exception':
                t = bare((n.get('ta') or [None])[0] or n['pt'][0])
            elif n.get('k') == 'throw' and n.get('e') is not None:
                t = bare(n.get('t') or '?')
            if t is None or t == '?':
                continue
            w = '%s:%s in %s' % (f['f'], n.get('l', f['l']), f['q'].replace(NS, ''))
            if not f['q'].startswith(NS):
                # conversion functions of namespace boost: documented to throw std::logic_error
                ck.ob('conversion errors are std::logic_error', ck.p.derives(t, 'std::logic_error'), w, t)
                continue
            if f['q'].endswith('error_with_option_name::get_canonical_option_prefix') and t == 'std::logic_error':
                ck.ob(R, True, w, 'a style no caller passes (C28)')
                continue
            ck.ob(R, public_path(ck.p, t, LIB) if ck.p.records.get(t) or t.startswith('std::') or t[-1] in '*&' else None, w, t)
    ck.need(R, 20)


def fieldval(v, s, n):
    return end(v, s, fld(THIS, n))


def carried(ck):
    """what an error was made with can be asked from it"""
    R = 'an error carries what it was made with'
    GT = ['invalid_syntax::get_template', 'validation_error::get_template']
    for cls in ('invalid_syntax', 'validation_error'):
        f = ctor_of(ck, 'po::' + cls, 4)
        if f is None:
            ck.ob(R, None, cls, 'constructor is gone')
            continue
        v = ck.view(f, GT)
        for s in own(tops(v, 'ret')):
            x = fieldval(v, s, 'm_kind')
            ck.ob(R, True if x == In(P(f, 0)) else None if unknown(x) else False, f, 'kind is %s' % show(x)[:40], v, {})
            b = [e for e in s.evs if e.k == 'basector']
            if len(b) == 1 and len(b[0].args) == 4:
                t = b[0].args[0]
                ck.ob(R, True if t[0] == 'call' and str(t[1]).endswith(cls + '::get_template') and contains(t, In(P(f, 0))) else None if unknown(t) else False, f, 'message is %s' % show(t)[:60], v, {})
                for i, n in ((1, 'option name'), (2, 'token'), (3, 'style')):
                    ck.ob(R, True if b[0].args[i] == In(P(f, i)) else None if unknown(b[0].args[i]) else False, f, '%s is %s' % (n, show(b[0].args[i])[:40]), v, {})
            else:
                ck.ob(R, None, f, 'base construction', v, {})
        g = ck.fn(cls + '::kind')
        v = ck.view(g)
        for s in own(tops(v, 'ret')):
            ck.ob(R, True if rv(v, s) == infld(THIS, 'm_kind') else None if unknown(rv(v, s)) else False, g, 'kind() gives %s' % show(rv(v, s))[:40], v, {})
    f = ctor_of(ck, 'po::ambiguous_option', 1)
    v = ck.view(f, GT)
    for s in own(tops(v, 'ret')):
        x = fieldval(v, s, 'm_alternatives')
        ck.ob(R, True if x == In(P(f, 0)) else None if unknown(x) else False, f, 'alternatives are %s' % show(x)[:40], v, {})
    g = ck.fn('ambiguous_option::alternatives')
    v = ck.view(g)
    for s in own(tops(v, 'ret')):
        ck.ob(R, True if rv(v, s) == infld(THIS, 'm_alternatives') else None if unknown(rv(v, s)) else False, g, 'alternatives() gives %s' % show(rv(v, s))[:40], v, {})
    # the way from each class to error_with_option_name keeps name, token and style apart
    for cls, n, want in (('invalid_command_line_syntax', 4, (1, 2, 3)), ('unknown_option', 1, (None, 0, None)), ('error_with_no_option_name', 2, (None, 1, None)),
                         ('ambiguous_option', 1, (None, None, None)), ('multiple_occurrences', 0, (None, None, None)), ('multiple_values', 0, (None, None, None)),
                         ('invalid_option_value', 1, (None, None, None)), ('invalid_bool_value', 1, (None, None, None)), ('invalid_config_file_syntax', 2, (None, None, None))):
        for f in [x for x in ck.p.fns(cls + '::' + cls) if len(x['ps']) == n]:
            if n == 1 and ck.p.derives(bare(f['ps'][0]['t']), 'std::exception'):
                continue
            b = built(ck, f, [In(P(f, i)) for i in range(n)])
            if b is None or len(b) < 4:
                ck.ob(R, None, f, 'construction not understood')
                continue
            for what, i, dflt, x in (('option name', want[0], ('str', ''), b[1]), ('token', want[1], ('str', ''), b[2]), ('style', want[2], c(0), b[3])):
                w = In(P(f, i)) if i is not None else dflt
                ck.ob(R, True if x == w else None if unknown(x) else False, f, '%s of %s is %s' % (what, cls, show(x)[:40]))
    # required_option names the option, as name or as token
    f = ctor_of(ck, 'po::required_option', 1)
    b = built(ck, f, [In(P(f, 0))]) if f else None
    ck.ob(R, None if b is None else True if In(P(f, 0)) in (b[1], b[2]) and all(x in (In(P(f, 0)), ('str', '')) for x in b[1:3]) else None if unknown(b[1]) or unknown(b[2]) else False, f or 'required_option', 'names %s' % (show(b[2])[:40] if b else '?'))
    f = ctor_of(ck, 'po::invalid_config_file_syntax', 2)
    v = ck.view(f, GT)
    for s in own(tops(v, 'ret')):
        ws = [e for e in s.evs if e.k == 'write' and named(e.loc, ('str', 'invalid_line'))]
        ck.ob(R, True if ws and ws[-1].val == In(P(f, 0)) else False if not ws or not unknown(ws[-1].val) else None, f, 'the line', v, {})
    ck.need(R, 30)


def kinds(ck):
    """classes for one kind of failure use that kind"""
    R = 'the kind of an error fits its class'
    for cls, kind in (('invalid_option_value', 'invalid_option_value'), ('invalid_bool_value', 'invalid_bool_value')):
        fs = ck.p.fns(cls + '::' + cls)
        want = enum_in(ck, 'validation_error::kind_t', kind)
        for f in fs:
            v = ck.view(f)
            for s in own(tops(v, 'ret')):
                b = [e for e in s.evs if e.k == 'basector']
                k = b[0].args[0] if len(b) == 1 and b[0].args else None
                ck.ob(R, None if k is None or want is None else True if k == c(want) else False if is_c(k) else None, f, '%s is made with kind %s' % (cls, show(k) if k else '?'), v, {})
    f = ctor_of(ck, 'po::invalid_config_file_syntax', 2)
    v = ck.view(f)
    for s in own(tops(v, 'ret')):
        b = [e for e in s.evs if e.k == 'basector']
        ck.ob(R, True if len(b) == 1 and b[0].args[0] == In(P(f, 1)) else None if len(b) != 1 or unknown(b[0].args[0]) else False, f, 'kind given on', v, {})
    ck.need(R, 3)


def enum_in(ck, et, name):
    for k, e in ck.p.enum_types.items():
        if k.endswith(et):
            for x in e['vals'] if 'vals' in e else e.get('enums', e.get('e', [])):
                n, val = (x['n'], x['v']) if isinstance(x, dict) else x
                if n.split('::')[-1] == name:
                    return val
    return None


# ------------------------------------------------------------------ C28
EWN = 'error_with_option_name::'
SUBST = infld(THIS, 'm_substitutions')


def named(t, n):
    """term mentions the member or key n"""
    if t == n:
        return True
    return isinstance(t, tuple) and any(named(x, n) for x in t)


def c28(ck):
    styles(ck)
    templates(ck)
    defaults(ck)
    always(ck)
    what(ck)
    names(ck)
    placeholders(ck)
    replace(ck)
    alternatives(ck)


def styles(ck):
    """the styles an error can be given are those its text knows; so rendering never throws"""
    R = 'every style an error is given can be shown'
    f = ck.fn(EWN + 'get_canonical_option_prefix')
    v = ck.view(f)
    S = infld(THIS, 'm_option_style')
    want = {0: ''}
    for n, t in (('allow_long', '--'), ('allow_long_disguise', '-'), ('allow_dash_for_short', '-'), ('allow_slash_for_short', '/')):
        e = ck.enum(n)
        want[e if not isinstance(e, tuple) else e[1]] = t
    known = set()
    for k, t in sorted(want.items()):
        for s in own(v.segs()):
            if narrow(s.facts, cmp_('==', S, c(k))) is None or s.kind not in ('ret', 'throw'):
                continue
            r = rv(v, s) if s.kind == 'ret' else None
            ck.ob('the prefix shown is the one of the style', True if r == ('str', t) else False if s.kind == 'throw' or r[0] == 'str' else None, f, 'style %d: %s' % (k, show(r) if r else s.kind), v, s.facts)
            if r is not None:
                known.add(k)
    # what callers pass
    g = ck.fn(PFX)
    vg = ck.view(g)
    for s in own(tops(vg, 'ret')):
        r = rv(vg, s)
        ck.ob(R, True if is_c(r) and r[1] in known else False if is_c(r) else None, g, 'the style in force is %s' % show(r)[:30], vg, {})
    for u, f in sorted(ck.p.funcs.items()):
        if not f['q'].startswith(NS) or f.get('cls') and ck.p.derives(bare(f['cls']), LIB):
            continue
        for n in walk([f['b']] + [i.get('e') for i in f.get('inits') or []]):
            a = None
            if n.get('k') == 'c' and n.get('q') == NS + CTX:
                a = n['a'][2]
            elif n.get('k') == 'c' and n.get('q') == NS + EWN + 'set_prefix':
                a = n['a'][0]
            elif n.get('k') == 'new' and n.get('cls') and ck.p.derives(bare(n['cls']), EW) and len(n.get('a', [])) == 4:
                a = n['a'][3]
            elif n.get('k') == 'new' and bare(n.get('cls') or '').startswith('po::basic_parsed_options<char') and len(n.get('a', [])) == 2:
                a = n['a'][1]
            if a is None:
                continue
            w = '%s:%s in %s' % (f['f'], n.get('l', f['l']), f['q'].replace(NS, ''))
            ck.ob(R, style_src(ck, f, a, known), w, 'style passed on')
    # the default of results that come from no command line
    for u, m in sorted(ck.p.methods.items()):
        pass
    ck.need(R, 10)
    ck.need('the prefix shown is the one of the style', 5)


def style_src(ck, f, a, known, depth=0):
    """expression a is a style that can be shown: True / False / None"""
    while a and (a.get('k') in ('cast', 'paren', 'ic') or set(a) >= {'e'} and a.get('k') in ('cv',)):
        a = a['e']
    k = a.get('k')
    if k == 'i':
        return a['v'] in known
    if k == 'c' and str(a.get('q', '')).endswith('get_canonical_option_prefix'):
        return True
    if k == 'm' and a.get('f') == 'm_options_prefix':
        return True
    if k == 'new' or k == 'd' or k == 'def':
        return None
    if k == 'v' and depth < 4:
        # parameter of a library constructor or a local variable
        for p in f['ps']:
            if p['id'] == a.get('id'):
                return True if f.get('ctor') or f['q'].split('::')[-1] == f['q'].split('::')[-2] else None
        for n in walk(f['b']):
            if n.get('s') == 'decl':
                for d in n.get('d', n.get('vs', [])):
                    if isinstance(d, dict) and d.get('id') == a.get('id') and d.get('init'):
                        return style_src(ck, f, d['init'], known, depth + 1)
        return None
    return None


import re
HOLD = re.compile('%([a-z_]+)%')


def templates(ck):
    """constant texts: every placeholder has a value or a default"""
    R = 'every placeholder of a message is filled in'
    RK = 'every kind of error has a text of its own'
    vals = {'canonical_option', 'option', 'original_token', 'prefix'}
    dflt = dict(defaults_of(ck) or [])

    def text(w, t, more=()):
        for h in HOLD.findall(t):
            ok = h in vals or h in more or (h in dflt and dflt[h] in t)
            if h in dflt and h not in more and h not in ('prefix',):
                ok = dflt[h] in t       # the generic phrase replaces the whole phrase
            ck.ob(R, ok, w, '%%%s%% in "%s"' % (h, t[:60]))
        left = HOLD.sub('', t)
        ck.ob(R, '%' not in left.replace("'%s'", ''), w, 'stray %% in "%s"' % t[:60])
    for cls, et in (('invalid_syntax', 'invalid_syntax::kind_t'), ('validation_error', 'validation_error::kind_t')):
        f = ck.fn(cls + '::get_template')
        v = ck.view(f)
        ev = [e for k, e in ck.p.enum_types.items() if k.endswith(et)][0]['vals']
        texts = {}
        for x in ev:
            for s in own(tops(v, 'ret')):
                if narrow(s.facts, cmp_('==', In(P(f, 0)), c(x['v']))) is None:
                    continue
                r = rv(v, s)
                if r[0] != 'str':
                    ck.ob(RK, None, f, 'text of %s is %s' % (x['n'], show(r)[:40]), v, {})
                    continue
                n = x['n'].split('::')[-1]
                text(f, r[1], ('invalid_line',) if n == 'unrecognized_line' else ())
                ck.ob(RK, r[1] not in [t for m, t in texts.items() if m != n], f, '%s: "%s"' % (n, r[1][:60]), v, s.facts)
                ck.ob(RK, 'unknown' not in r[1], f, '%s has a text' % n, v, s.facts)
                need = {'unrecognized_line': ['invalid_line'], 'invalid_bool_value': ['value', 'canonical_option'], 'invalid_option_value': ['value', 'canonical_option']}.get(n, ['canonical_option'])
                for h in need:
                    ck.ob('a message shows the option and the offending text', '%' + h + '%' in r[1], f, '%s in the text of %s' % (h, n), v, s.facts)
                texts[n] = r[1]
        ck.ob(RK, len(texts) == len(ev), f, '%d of %d kinds' % (len(texts), len(ev)), v, {})
    for cls, need in (('multiple_values', ['canonical_option']), ('multiple_occurrences', ['canonical_option']), ('required_option', ['canonical_option']),
                      ('unknown_option', ['canonical_option']), ('ambiguous_option', ['canonical_option'])):
        for f in ck.p.fns(cls + '::' + cls):
            if len(f['ps']) == 1 and ck.p.derives(bare(f['ps'][0]['t']), 'std::exception'):
                continue
            b = built(ck, f, [In(P(f, i)) for i in range(len(f['ps']))])
            if b is None or b[0][0] != 'str':
                ck.ob(R, None, f, 'text not constant')
                continue
            text(f, b[0][1])
            for h in need:
                ck.ob('a message shows the option and the offending text', '%' + h + '%' in b[0][1], f, '%s in the text of %s' % (h, cls))
    ck.need(R, 20)
    ck.need(RK, 12)


def defaults_of(ck):
    """(placeholder, phrase replaced) pairs every error starts with"""
    f = ck.fn(EWN + 'error_with_option_name', n=4)
    v = ck.view(f, [EWN + 'set_substitute_default'])
    out = None
    for s in own(tops(v, 'ret')):
        cs = calls(s.evs, 'set_substitute_default')
        r = [tuple(a[1] if a[0] == 'str' else None for a in e.args[:2]) for e in cs]
        out = r if out in (None, r) else []
    return out


def defaults(ck):
    """what stands for a missing value"""
    R = 'a generic phrase stands for a missing value'
    f = ck.fn(EWN + 'error_with_option_name', n=4)
    v = ck.view(f, [EWN + 'set_substitute_default'])
    for s in own(tops(v, 'ret')):
        seen = {}
        for e in calls(s.evs, 'set_substitute_default'):
            a = e.args
            if any(x[0] != 'str' for x in a):
                ck.ob(R, None, e, 'not constant', v, {})
                continue
            n, frm, to = (x[1] for x in a)
            seen[n] = (frm, to)
            ck.ob(R, '%' + n + '%' in frm, e, 'the phrase "%s" holds the placeholder %s' % (frm, n), v, {})
            ck.ob(R, frm and frm not in to, e, '"%s" is replaced by "%s"' % (frm, to), v, {})
            ck.ob(R, not HOLD.search(to), e, 'no placeholder is left in "%s"' % to, v, {})
        for n in ('canonical_option', 'value', 'prefix'):
            ck.ob(R, n in seen or None if any(x[0] != 'str' for e in calls(s.evs, 'set_substitute_default') for x in e.args) else n in seen, f, 'placeholder %s' % n, v, {})
    g = ck.fn(EWN + 'set_substitute_default')
    v = ck.view(g)
    for s in own(tops(v, 'ret')):
        ws = [e for e in s.evs if e.k == 'write' and named(e.loc, 'm_substitution_defaults')]
        ok = None
        if ws:
            x = ws[-1].val
            ab = [y for y in subterms(x) if y in (In(P(g, 1)), In(P(g, 2)))]
            ok = True if x[0] == 'pair' and ab == [In(P(g, 1)), In(P(g, 2))] else False if x[0] == 'pair' and not unknown(x) else None
            ck.ob(R, named(ws[-1].loc, In(P(g, 0))), g, 'kept under its name', v, {})
        ck.ob(R, False if not ws else ok, g, 'kept as given', v, {})
    g = ck.fn(EWN + 'set_substitute')
    v = ck.view(g)
    for s in own(tops(v, 'ret')):
        ws = [e for e in s.evs if e.k == 'write' and named(e.loc, 'm_substitutions')]
        ck.ob('a value given for a placeholder is kept', True if ws and ws[-1].val == In(P(g, 1)) and named(ws[-1].loc, In(P(g, 0))) else False if not ws or not unknown(ws[-1].val) else None, g, 'set_substitute', v, {})
    ck.need(R, 10)


def always(ck):
    """the entries rendering relies on exist from construction on and are never taken away"""
    R = 'the values rendering looks up are always there'
    f = ck.fn(EWN + 'error_with_option_name', n=4)
    v = ck.view(f)
    for s in own(tops(v, 'ret')):
        for i, n in ((1, 'option'), (2, 'original_token')):
            ws = [e for e in s.evs if e.k == 'write' and named(e.loc, ('str', n)) and named(e.loc, 'm_substitutions')]
            put = [e for e in s.evs if e.k in ('call', 'icall', 'ext') or e.k in ('mut', 'write') and (named(e.loc, ('str', n)) or unknown(e.loc) or e.k == 'mut' and named(e.loc, 'm_substitutions') and (named(e.val, ('str', n)) or unknown(e.val)))]
            ck.ob(R, True if ws and ws[-1].val == In(P(f, i)) else False if not put or ws and not unknown(ws[-1].val) else None, f, 'entry %s' % n, v, {})
        for n, w in (('m_option_style', 3), ('m_error_template', 0)):
            x = end(v, s, fld(THIS, n))
            ck.ob('an error starts with its text and style', True if x == In(P(f, w)) else None if unknown(x) else False, f, '%s is %s' % (n, show(x)[:40]), v, {})
    took = 0
    for u, f in sorted(ck.p.funcs.items()):
        if not (f.get('cls') and ck.p.derives(bare(f['cls']), EW)):
            continue
        for n in walk(f['b']):
            if n.get('k') == 'c' and n.get('q', '').split('::')[-1] in ('erase', 'clear', 'swap', 'operator=', 'extract') and 'map' in n['q'] and n.get('o') and any(x.get('f') == 'm_substitutions' for x in walk(n['o'])):
                took += 1
                ck.ob(R, n['q'].split('::')[-1] in ('operator=', 'swap') and None, '%s:%s in %s' % (f['f'], n['l'], f['q'].replace(NS, '')), 'entries are taken away')
    ck.ob(R, True if not took else None, 'errors.hpp', 'no function of an error takes entries away')
    ck.need(R, 3)


def what(ck):
    R = 'what() gives the rendered text'
    f = ck.fn(EWN + 'what')
    v = ck.view(f, [EWN + 'substitute_placeholders'])
    for s in own(tops(v, 'ret')):
        cs = calls(s.evs, 'substitute_placeholders')
        r = rv(v, s)
        if not cs and [e for e in s.evs if e.k in ('call', 'icall', 'ext')]:
            ck.ob(R, None, f, 'rendering', v, {})
            continue
        if not cs and cached(s):
            old = setters_without_reset(ck)
            ck.ob(R, False if old else None, f, 'a message rendered before is given again, %s' % ('though %s changes the error' % old[0] if old else 'whether it is up to date is not clear'), v, {})
            continue
        ck.ob(R, True if len(cs) == 1 and cs[0].args[0] == infld(THIS, 'm_error_template') else False if not cs and not cached(s) or cs and not unknown(cs[0].args[0]) else None, f, 'renders %s' % [show(a)[:40] for e in cs for a in e.args], v, {})
        ck.ob(R, True if named(r, 'm_message') else None if unknown(r) else False, f, 'returns %s' % show(r)[:60], v, {})
    ck.need(R, 2)


def setters_without_reset(ck):
    """functions that change what an error shows and leave a rendered message alone"""
    out = []
    for u, f in sorted(ck.p.funcs.items()):
        if not (f.get('cls') and ck.p.derives(bare(f['cls']), EW)) or f['q'].split('::')[-1] in ('error_with_option_name', f['cls'].split('::')[-1]):
            continue
        v = ck.view(f, [EWN + 'what', EWN + 'substitute_placeholders', EWN + 'replace_token'])
        for s in own(tops(v, 'ret')):
            ch = [e for e in s.evs if e.k in ('write', 'mut') and any(named(e.loc, n) for n in ('m_substitutions', 'm_option_style', 'm_substitution_defaults', 'm_error_template'))]
            if ch and not [e for e in s.evs if e.k in ('call', 'icall', 'ext') or e.k in ('write', 'mut') and named(e.loc, 'm_message')]:
                out.append(f['q'].replace(NS, ''))
                break
    return out


def cached(s):
    """the path depends on a message rendered before"""
    return any(named(k, 'm_message') for k in s.facts)


def names(ck):
    """the name an option is shown under"""
    R = 'an option is shown under its name in the style in force'
    f = ck.fn(EWN + 'get_canonical_option_name')
    v = ck.view(f, ['strip_prefixes', EWN + 'get_canonical_option_prefix'])
    S = infld(THIS, 'm_option_style')
    opt, tok = [[x for s in v.segs() for k in list(s.facts) + [s.val] if isinstance(k, tuple) for x in subterms(k) if x and x[0] == 'at' and contains(x, SUBST) and contains(x, ('str', n)) or
                 x and x[0] in ('mapat', 'in') and named(x, 'm_substitutions') and contains(x, ('str', n))] for n in ('option', 'original_token')]
    if not opt or not tok:
        ck.ob(R, None, f, 'the values looked up were not found', v, {})
        return
    O, T = max(opt, key=lambda x: -len(str(x))), max(tok, key=lambda x: -len(str(x)))
    sp = lambda x: ('call', NS + 'strip_prefixes', x)
    L, D = [c(e if not isinstance(e, tuple) else e[1]) for e in (ck.enum('allow_long'), ck.enum('allow_long_disguise'))]
    long_ = lambda: None
    st = sp(T)
    sts = [x for s in v.segs() for k in list(s.facts) + ([s.val] if isinstance(s.val, tuple) else []) for x in subterms(k) if x and x[0] == 'call' and str(x[1]).endswith('strip_prefixes')]
    so = [x for x in sts if x[2] == O]
    stt = [x for x in sts if x[2] == T]
    so = so[0] if so else sp(O)
    stt = stt[0] if stt else sp(T)
    for s in own(tops(v, 'ret')):
        r = rv(v, s)
        pf = lambda t: t[0] == 'call' and str(t[1]).endswith('get_canonical_option_prefix')

        def case(nm, gs, ok):
            g = narrow(s.facts, *gs)
            if g is not None:
                o = ok()
                ck.ob(R, o if o else None if unknown(r) else False, f, '%s: %s' % (nm, show(r)[:70]), v, s.facts)
        case('no name', [cmp_('==', size(O), c(0))], lambda: r == T)
        given = cmp_('>=', size(O), c(1))
        cat_ = lambda x: r[0] == 'cat' and len(r) == 3 and pf(r[1]) and x(r[2])
        case('long', [given, cmp_('==', S, L)], lambda: cat_(lambda x: x == so))
        case('disguised', [given, cmp_('==', S, D)], lambda: cat_(lambda x: x == so))
        ns = [given, cmp_('!=', S, L), cmp_('!=', S, D)]
        ft = lambda x: x == ('chr', at(stt, c(0))) or x == substr(stt, c(0), c(1)) or x == at(stt, c(0)) or x[0] == 'chr' and x[1] == at(stt, c(0))
        case('short', ns + [cmp_('!=', S, c(0)), cmp_('>=', size(stt), c(1))], lambda: cat_(ft))
        case('short without token', ns + [cmp_('!=', S, c(0)), cmp_('==', size(stt), c(0))], lambda: r == so)
        case('no style', ns + [cmp_('==', S, c(0))], lambda: r == so)
    g = ck.fn('strip_prefixes')
    v = ck.view(g)
    RS = 'names are shown without dashes and slashes in front'
    for s in own(tops(v, 'ret')):
        r = rv(v, s)
        fs = [x for k in list(s.facts) + [r] for x in subterms(k) if x and x[0] in ('find', 'ffno')]
        ok = None
        if r == In(P(g, 0)):
            ok = True if fs else None
        elif r[0] in ('sub', 'substr'):
            ok = True if any(contains(r, x) for x in fs) and r[1] == In(P(g, 0)) else None
        ck.ob(RS, ok, g, 'gives %s' % show(r)[:60], v, {})
    for n in walk(g['b']):
        if n.get('k') == 'c' and n.get('q', '').split('::')[-1].startswith('find'):
            lits = [x['v'] for x in walk(n) if x.get('k') == 's']
            ck.ob(RS, n['q'].endswith('find_first_not_of') and sorted(set(lits[0])) == ['-', '/'] if lits else None, g, 'skips "%s"' % ''.join(lits), v, {})
    ck.need(R, 6)


def placeholders(ck):
    """one pass over the text; a value is never looked at again"""
    R0, RD = 'the text starts as the template', 'a generic phrase stands for a missing value'
    R, RM, RX = 'a placeholder is replaced by its value', 'no value is searched for placeholders', 'no placeholder is passed over'
    f = ck.fn(EWN + 'substitute_placeholders')
    v = ck.view(f, [EWN + 'replace_token', EWN + 'get_canonical_option_name', EWN + 'get_canonical_option_prefix'])
    MSG = fld(THIS, 'm_message')
    for s in own(tops(v, 'ret')):
        w0 = [e for e in s.evs if e.k in ('write', 'mut') and e.loc == MSG][:1]
        ck.ob(R0, True if w0 and w0[0].val == In(P(f, 0)) else None if w0 and unknown(w0[0].val) else False, f, 'message is %s' % (show(w0[0].val)[:40] if w0 else '?'), v, {})
        for n, q in (('canonical_option', 'get_canonical_option_name'), ('prefix', 'get_canonical_option_prefix')):
            ws = [e for e in s.evs if e.k == 'write' and named(e.loc, ('str', n))]
            ck.ob(R, True if ws and ws[-1].val[0] == 'call' and str(ws[-1].val[1]).endswith(q) else False if ws and not unknown(ws[-1].val) or not ws and not [e for e in s.evs if e.k == 'mut' and named(e.val, ('str', n))] else None, f,
                  '%s is %s' % (n, show(ws[-1].val)[:50] if ws else 'not set'), v, {})
    DEF = infld(THIS, 'm_substitution_defaults')
    ls = loops(v)
    dl = [(s, i, l) for s, i, l in ls if any(contains(e, DEF) for e in iter_of(l, DEF) for it in l.iters for k in it.facts if contains(k, e))]
    ck.ob(RD, True if dl else None, f, 'a loop over the generic phrases', v, {})
    for s, i, l in dl[:1]:
        w = walks(v, s, i, l, DEF)
        ck.ob(RD, w, f, 'every generic phrase is considered', v, {})
        e = [x for x in iter_of(l, DEF)][0]
        for it in l.iters:
            if it.kind == 'throw' or foreign(it):
                continue
            cs = calls(it.evs, 'replace_token')
            # present: the map of values has the name, with text behind it
            lens = [x for k in it.facts for x in subterms(k) if x and x[0] == 'size' and contains(x, ('.', e, 'first')) and x[1] != ('.', e, 'first')]
            nonempty = any(narrow(it.facts, cmp_('==', x, c(0))) is None for x in lens)
            empty_ = any(narrow(it.facts, cmp_('>=', x, c(1))) is None for x in lens)
            absent = any(k[0] == 'has' and contains(k, ('.', e, 'first')) and truth(it.facts, k) is False for k in it.facts)
            if nonempty:
                ck.ob(RD, not cs, f, 'a value that is there is not replaced', v, it.facts)
            elif empty_ or absent:
                want = (('.', ('.', e, 'second'), 'first'), ('.', ('.', e, 'second'), 'second'))
                ck.ob(RD, True if len(cs) == 1 and tuple(cs[0].args) == want else False if not cs or not any(unknown(a) for a in cs[0].args) else None, f, 'missing value: %s' % [[show(a)[-40:] for a in x.args] for x in cs], v, it.facts)
            else:
                ck.ob(RD, None, f, 'presence of the value is not clear', v, it.facts)
    # values
    vl = [(s, i, l) for s, i, l in ls if (s, i, l) not in dl]
    old = [(s, i, l, e) for s, i, l in vl for it in l.iters for e in calls(it.evs, 'replace_token')]
    for s, i, l, e in old[:1]:
        ck.ob(RM, False if not unknown(e.args[1]) else None, e, 'values are put into the text one after another, each looking through those before it', v, {})
    if old:
        return
    rl = []
    for s, i, l in vl:
        for it in l.iters:
            ms = [e for e in it.evs if e.k in ('mut', 'write') and e.loc == MSG]
            if ms:
                rl.append((s, i, l, it, ms))
    ck.ob(R, True if rl else None, f, 'the loop that fills in values', v, {})
    for s, i, l, it, ms in rl:
        h = l.havoc.get(MSG)
        if h is None or len(ms) != 1 or ms[0].val[0] != 'cat' or foreign(it):
            ck.ob(R, None, ms[0], 'how the text changes', v, {})
            continue
        t = ms[0].val
        # text before the placeholder, value, text behind it
        pl = [(loc, x) for loc, x in l.havoc.items() if x is not None and x != h and loc[0] == 'L']
        env = None
        for loc, p in pl:
            last = [x for k in list(it.facts) + [t] for x in subterms(k) if x and x[0] == 'find' and x[1] == h and x[2] == ('str', '%') and len(x) > 3 and x[3] == add(p, c(1))]
            if last:
                env = (loc, p, last[0])
        if env is None:
            ck.ob(R, None, ms[0], 'the two ends of a placeholder', v, {})
            continue
        loc, p, q = env
        key = substr(h, add(p, c(1)), q)
        parts = list(t[1:])
        head = substr(h, c(0), p)
        keys = [x for x in subterms(t) if x and x[0] in ('sub', 'substr') and x[1] == h]
        okh = parts[0] == head
        val = parts[1] if len(parts) > 1 else None
        okv = val is not None and val[0] == 'at' and contains(val, key) or val is not None and contains(val, key) and val != key
        okt = len(parts) == 3 and parts[2][0] == parts[0][0] and parts[2][1] == h and parts[2][2] == add(q, c(1)) or len(parts) == 2
        ck.ob(R, True if okh and okv and okt else None if unknown_but(t, h, p, q) else False, ms[0], 'text becomes %s' % show(t)[:90], v, {})
        # where the search goes on
        p2 = end_val(v, it, loc)
        if p2 is None:
            ck.ob(RM, None, ms[0], 'where the search goes on', v, {})
            continue
        want = add(p, size(val)) if val is not None else None
        okm = False
        if p2[0] == 'find' and p2[1] == t and len(p2) > 3:
            d = sub(p2[3], want)
            okm = True if d == c(0) else None
            if is_c(d):
                ck.ob(RX, d[1] <= 0, ms[0], 'the search goes on %d behind the value' % d[1], v, {})
                okm = d[1] >= 0
            elif want is not None and not unknown_but(d, h, p, q):
                okm = False
        elif p2 == want:
            okm = True
        elif p2[0] in ('find', 'lin', 'in', 'c', 'phi'):
            okm = False if p2 == p or p2[0] == 'find' and len(p2) > 3 and not contains(p2[3], size(val)) else None
        ck.ob(RM, okm, ms[0], 'the search goes on at %s' % show(p2)[:80], v, {})
    # rounds that change nothing
    for s, i, l in vl:
        if not any(x[2] is l for x in rl):
            continue
        h = l.havoc.get(MSG)
        for loc, x in l.base0.items():
            if loc[0] == 'L' and isinstance(x, tuple) and x[0] == 'find' and x[2] == ('str', '%') and len(x) > 3:
                ck.ob(RX, True if x[3] == c(0) else False if is_c(x[3]) else None, f, 'the search starts at %s' % show(x[3]), v, {})
        for it in l.iters:
            if it.kind in ('brk', 'ret'):
                for k in it.facts:
                    if k[0] == 'found' and k[1][1] == h and k[1][2] == ('str', '%') and len(k[1]) > 3 and any(k[1][3] == add(p, c(1)) for p in l.havoc.values() if p is not None):
                        ck.ob(RX, truth(it.facts, k) is False, f, 'the search ends where a placeholder may still follow', v, {})
            if it.kind == 'back' and not [e for e in it.evs if e.k in ('mut', 'write') and e.loc == MSG]:
                for loc, p in [(loc, x) for loc, x in l.havoc.items() if x is not None and x != h and loc[0] == 'L']:
                    p2 = end_val(v, it, loc)
                    if p2 is None or p2 == p:
                        continue
                    q = [x for k in it.facts for x in subterms(k) if x and x[0] == 'find' and x[1] == h and len(x) > 3 and x[3] == add(p, c(1))]
                    d = sub(p2[3] if p2 != q[0] and p2[0] == 'find' and p2[1] == h and p2[2] == ('str', '%') and len(p2) > 3 else p2, q[0]) if q else None
                    ck.ob(RX, True if d == c(0) else False if d is not None and is_c(d) and d[1] > 0 else None, f, 'after what is no placeholder the search goes on at %s' % show(p2)[:60], v, {})
    ck.need(R, 4)
    ck.need(RM, 2)
    ck.need(RD, 6)


def unknown_but(t, *known):
    m = {x: ('known', i) for i, x in enumerate(known)}
    return unknown(subst(t, m))


def end_val(v, it, loc):
    return v.eng.rd(it.st, loc) if it.st is not None else None


def replace(ck):
    """replace_token replaces every occurrence and ends"""
    R = 'every occurrence of a phrase is replaced once'
    f = ck.fn(EWN + 'replace_token')
    if f is None:
        return
    v = ck.view(f)
    MSG = fld(THIS, 'm_message')
    FR, TO = In(P(f, 0)), In(P(f, 1))
    ls = loops(v)
    if len({l.id for _, _, l in ls}) != 1:
        ck.ob(R, None, f, 'not one loop', v, {})
        return
    s, i, l = ls[0]
    h = l.havoc.get(MSG)
    for it in l.iters:
        ms = [e for e in it.evs if e.k in ('mut', 'write') and e.loc == MSG]
        if it.kind != 'back':
            fd = [x for k in it.facts for x in subterms(k) if x and x[0] == 'find']
            continue
        if not ms:
            ck.ob(R, None, f, 'a round without replacement', v, {})
            continue
        t = ms[-1].val
        st = [(loc, x) for loc, x in l.havoc.items() if x is not None and loc != MSG and loc[0] == 'L']
        fd = [x for x in subterms(t) if x and x[0] == 'find' and x[1] == h and x[2] == FR]
        if not fd or t[0] != 'cat':
            ck.ob(R, None, ms[-1], 'text becomes %s' % show(t)[:60], v, {})
            continue
        q = fd[0]
        ok = t[1] == substr(h, c(0), q) and t[2] == TO and (len(t) == 3 or t[3][0] == t[1][0] and t[3][1] == h and t[3][2] == add(q, size(FR)))
        ck.ob(R, True if ok else None if unknown_but(t, h, q) else False, ms[-1], 'text becomes %s' % show(t)[:80], v, {})
        RA = 'a replacement is not searched again'
        want = add(q, size(TO))
        if len(q) <= 3 or is_c(q[3]):
            ck.ob(RA, False, ms[-1], 'every search starts at the front', v, {})
            continue
        st = [loc for loc, x in st if x == q[3] or q[3] == want]
        nxt = [x for x in (end_val(v, it, loc) for loc in st) if x is not None]
        d = [sub(x, want) for x in nxt]
        plain = [x for x in d if not unknown_but(x, h, q)]
        ck.ob(RA, True if c(0) in d else False if plain and len(plain) == len(d) else None, ms[-1], 'the search goes on at %s' % [show(x)[:50] for x in nxt], v, {})
    ck.need(R, 1)
    ck.need('a replacement is not searched again', 1)


def alternatives(ck):
    """ambiguous options: all alternatives are named"""
    R = 'the message of an ambiguous option names every alternative once'
    RD = 'the alternatives of an ambiguous option exist'
    f = ck.opt('ambiguous_option::substitute_placeholders')
    if f:
        v = ck.view(f, [EWN + 'substitute_placeholders'])
        A = infld(THIS, 'm_alternatives')
        S = infld(THIS, 'm_option_style')
        dash, slash = [c(e if not isinstance(e, tuple) else e[1]) for e in (ck.enum('allow_dash_for_short'), ck.enum('allow_slash_for_short'))]
        SET = ('setof', A)
        for s in own(tops(v, 'ret')):
            cs = calls(s.evs, 'error_with_option_name::substitute_placeholders')
            if len(cs) != 1:
                ck.ob(R, False if not cs else None, f, 'rendered %d times' % len(cs), v, s.facts)
                continue
            t = cs[0].args[0]
            short_ = narrow(s.facts, cmp_('!=', S, dash), cmp_('!=', S, slash)) is None
            if short_:
                ck.ob('a short option is shown alone', True if t == In(P(f, 0)) else None if unknown(t) else False, cs[0], 'renders %s' % show(t)[:60], v, {})
                continue
            n = [x for k in list(s.facts) + [t] for x in subterms(k) if x and x[0] == 'mend' or x and x == size(SET)]
            ok = named(t, 'm_alternatives') or any(e.k == 'loop' and any(named(m.val, 'm_alternatives') for it in e.iters for m in it.evs if m.k in ('mut', 'write')) for e in s.evs)
            ck.ob(R, True if ok else False if not unknown(t) else None, cs[0], 'renders %s' % show(t)[:80], v, {})
            # what they are taken from: all of them
            for e in s.evs:
                for x in subterms(e.val) if e.k in ('write', 'mut') and isinstance(e.val, tuple) else ():
                    if x and x[0] == 'setof' and x[1][0] == 'sub' and x[1][1] == A:
                        left = add(x[1][2], sub(size(A), x[1][3]))
                        d = ival(s.facts, left)[:2]
                        ck.ob(R, True if d == (0, 0) else False if d[0] is not None and d[0] > 0 or is_c(x[1][3]) else None, e, 'only %s are considered' % show(x[1])[:60], v, {})
            # behind the loop: the one it leaves out
            END = ('mend', SET)
            if not any(e.k == 'loop' and any(named(m.val, 'm_alternatives') for it in e.iters for m in it.evs if m.k in ('mut', 'write')) for e in s.evs):
                ats = {x for x in subterms(t) if x and x[0] == 'at' and x[1] == SET}
                his = [h for h in (ival(s.facts, y)[1] for y in (END, size(SET))) if h is not None]
                if ats:
                    ck.ob(R, True if his and min(his) <= len(ats) else False if all(is_c(x[2]) or contains(x[2], END) for x in ats) and not unknown(t) else None, cs[0], '%d shown where there may be %s' % (len(ats), min(his) if his else 'more'), v, {})
            for x in subterms(t):
                if x and x[0] == 'at' and x[1] == SET and (is_c(x[2]) or contains(x[2], END)):
                    d = sub(x[2], END)
                    one_ = ival(s.facts, END)[1] is not None and ival(s.facts, END)[1] <= 1
                    ck.ob(R, True if d == c(-1) or one_ and x[2] == c(0) else False if is_c(d) or is_c(x[2]) else None, cs[0], 'the last shown is %s' % show(x[2])[:40], v, {})
        for s, i, l in loops(v):
            for it in l.iters:
                if it.kind != 'back':
                    if it.kind in ('brk', 'ret') and deepclean(it.facts):
                        ck.ob(R, False, f, 'alternatives are left out', v, {})
                    continue
                ms = [e for e in it.evs if e.k in ('mut', 'write') and named(e.val, 'm_alternatives') and e.val[0] == 'cat']
                ixs = loop_ix(l)
                ok = None
                if ms and ixs:
                    t = ms[-1].val
                    ok = any(x and x[0] == 'at' and x[2] == ixs[0][1] for x in subterms(t)) and t[1] == l.havoc.get(ms[-1].loc) or None
                elif not ms and deepclean(it.facts):
                    ok = False
                ck.ob(R, ok, f, 'each round adds its alternative', v, {})
            for x in exits_of(v, l):
                # all but the last, which is added behind the loop
                ixs = loop_ix(l)
                if not ixs:
                    continue
                ix = ixs[0][1]
                m = [y for k in x.facts for y in subterms(k) if y and y[0] == 'mend']
                if m:
                    d = ival(x.facts, sub(ix, m[0]))
                    ck.ob(R, (ix[2] == 0 and ix[1][3] == 1 or (False if ix[2] is not None and ix[2] > 0 else None)) if d[0] is not None and d[0] >= -1 else False if d[1] is not None and d[1] < -1 or d[0] is not None and deepclean(x.facts) else None, f, 'from the first to the last but one', v, {})
    # whoever reports an ambiguity has alternatives to show
    n = 0
    for g in ck.p.funcs.values():
        if not any(x.get('q') == 'boost::throw_exception' and bare((x.get('ta') or [''])[0] or '') == 'po::ambiguous_option' for x in walk(g['b'])):
            continue
        v = ck.view(g, ['option_description::match', 'option_description::key'])
        for s in v.segs():
            if throws(s, 'ambiguous_option'):
                t, a = exc_in(s)
                if not a:
                    continue
                n += 1
                d = ival(s.facts, size(a[0]))
                loose = [k for k in s.facts if unknown(subst(k, {a[0]: ('alts',)}))]
                ck.ob(RD, True if d[0] is not None and d[0] >= 1 else False if d[1] is not None and d[1] <= 0 or a[0] == ('seq',) or not loose else None, g, '%s alternatives' % (d,), v, {})
    ck.ob(RD, True if n else None, 'ambiguous_option', '%d places' % n)
    ck.need(R, 3)
