"""value semantics: repeated options, bool spellings, conversion errors, token counts, stored types"""
from .dsl import *
from .auto import folding
import re

TRUE, FALSE = ('on', 'yes', '1', 'true'), ('off', 'no', '0', 'false')
EMPTY = ('isempty',)


def targs(cls):
    """template arguments of a class spelling"""
    i = cls.find('<')
    if i < 0:
        return []
    out, d, cur = [], 0, ''
    for ch in cls[i + 1:cls.rindex('>')]:
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
            continue
        d += ch == '<'
        d -= ch == '>'
        cur += ch
    return out + [cur.strip()]


class Sem(object):
    """one instance of the parsing member of a typed semantic, everything it calls analysed with it"""
    def __init__(self, ck, f):
        self.ck, self.f = ck, f
        a = targs(f['cls'])
        self.T, self.C = bare(a[0]), a[1] if len(a) > 1 else 'char'
        self.kind = ('vector' if self.T.startswith('std::vector<') else 'optional' if 'optional<' in self.T else self.T)
        self.el = bare(targs(a[0])[0]) if '<' in a[0] and self.kind in ('vector', 'optional') else self.T
        self.name = '%s read from %s' % (self.T.replace('std::', ''), 'wide text' if self.C == 'wchar_t' else 'narrow text')
        self.v = ck.view(f, ['boost::to_local_8_bit', 'boost::from_local_8_bit'])
        self.S, self.N = P(f, 0), In(P(f, 1))
        self.held = ('not', ('anyempty', In(self.S)))
        self.none = ('anyempty', In(self.S))
        r = ck.p.records.get(bare(f['cls'])) or {'fields': []}
        self.imp = infld(THIS, sem_field(ck, f, 'm_implicit_value'))
        self.noimp = ('anyempty', self.imp)
        self.n = size(self.N)

    def n_is(self, k):
        return cmp_('==', self.n, c(k))

    def segs(self, *guards):
        """(path, narrowed facts): the function's outcomes under the guards; a path out of a helper's
        constant empty string counts only with that string empty"""
        for s in own_(self.v):
            h = narrow(s.facts, *guards)
            if h is None:
                continue
            for g in statics(self.ck, h):
                h2 = narrow(h, cmp_('==', size(g), c(0)))
                if h2 is None:
                    h = None
                    break
                h = h2
            if h is not None:
                yield s, h

    def writes(self, s):
        return muts_of(s.evs, self.S)


def own_(v):
    """whole paths"""
    return [s for s in v.segs() if s.parent is None]


def statics(ck, facts):
    """string globals that no code assigns: they stay as initialised (empty)"""
    gs = {y for k in facts for y in subterms(k) if y and y[0] == 'in' and y[1][0] == 'G'}
    plain = {q for (q, t), g in ck.p.globals.items() if g.get('def') and 'basic_string<' in t and no_init(g.get('init'))}
    return sorted([y for y in gs if y[1][1] in plain], key=repr)


def no_init(i):
    if i is None:
        return True
    if i.get('k') in ('ctor', 'new'):
        a = [x for x in i.get('a', []) if x and 'allocator<' not in str(x.get('t', ''))]
        return all(no_init(x) for x in a)
    if i.get('k') in ('icast', 'ecast', 'cast', 'tmp', 'par', 'bind') and i.get('e'):
        return no_init(i['e'])
    return i.get('k') == 's' and not i.get('v')


def sem_field(ck, f, name):
    """member of the typed semantic: present name, else by its getter"""
    r = ck.rec_of(f) if bare(f['cls']) in ck.p.records else None
    if r and any(x['n'] == name for x in r['fields']):
        return name
    got = {'m_implicit_value': implicit_role}.get(name)
    if got is None:
        raise Broken('member %s not found' % name)
    return got(ck, f)


def implicit_role(ck, f):
    """the any member the implicit-value setter writes"""
    for g in ck.p.fns('typed_value::implicit_value'):
        if bare(g['cls']) == bare(f['cls']):
            v = View(ck.p, g)
            for s in own_(v):
                for e in s.evs:
                    if e.k == 'write' and e.loc[0] == 'fld' and e.val[0] == 'any':
                        return e.loc[2]
    raise Broken('implicit value member not found')


OWN = 'po_probe::custom'


def sems(ck, *kinds, own=False):
    """own: the types of the probe that bring a conversion of their own"""
    out = []
    for f in ck.fns('typed_value::xparse', least=6):
        s = Sem(ck, f)
        if (OWN in s.T) is not own:
            continue
        if not kinds or s.kind in kinds:
            out.append(s)
    return out


def vague(s, h):
    """facts the verdict rests on are understood"""
    return h if deepclean(s.facts) else s.facts


# ------------------------------------------------------------------------- C16
def c16(ck):
    R1, R2 = 'a second value is refused', 'a first value is not taken for a second one'
    for x in sems(ck):
        if x.kind == 'vector':
            accumulate(ck, x)
            continue
        for s, h in x.segs(x.held):
            silent = narrow(h, x.n_is(0), ('not', x.noimp))
            given = narrow(h, cmp_('>=', x.n, c(1))) or narrow(h, x.noimp)
            bad = not throws(s, 'multiple_occurrences')
            w = bool(x.writes(s))
            if given is not None:
                ck.ob(R1, not bad and not w, x.f, '%s: %s' % (x.name, 'accepted' if bad else 'refused' + (' after changing the stored value' if w else '')), x.v, vague(s, given))
            if silent is not None and (given is None or not bad):
                ck.ob(R1, not bad and not w, x.f, '%s: a repeated option given without a value takes its implicit value' % x.name, x.v, vague(s, silent), ident='implicit-value-overwrites')
        for s, h in x.segs(x.none):
            ck.ob(R2, not throws(s, 'multiple_occurrences'), x.f, '%s: %s' % (x.name, s.kind), x.v, vague(s, h))
    ck.need(R1, 11)
    f = ck.fn('untyped_value::xparse')
    v = ck.view(f)
    S = P(f, 0)
    for s in own_(v):
        h = narrow(s.facts, ('not', ('anyempty', In(S))))
        if h is not None:
            ck.ob(R1, throws(s, 'multiple_occurrences') and not muts_of(s.evs, S), f, 'option declared without type', v, h)
        h = narrow(s.facts, ('anyempty', In(S)))
        if h is not None:
            ck.ob(R2, not throws(s, 'multiple_occurrences'), f, 'option declared without type', v, h)


def accumulate(ck, x):
    """sequences: what was there stays, every new token adds one element at the end"""
    R = 'sequences accumulate'
    hit = 0
    for s, h in x.segs(x.held):
        if narrow(h, x.n_is(0), ('not', x.noimp)) is not None and narrow(h, cmp_('>=', x.n, c(1))) is None:
            e = end(x.v, s, x.S)
            ck.ob('a second value is refused', e == In(x.S) or grown_any(e, x), x.f, '%s: a repeated option given without a value takes its implicit value' % x.name, x.v, vague(s, h), ident='implicit-value-overwrites')
            continue
        if s.kind == 'ret':
            w = [e for e in s.evs if e.k == 'write' and e.loc == x.S]
            ck.ob(R, not w, x.f, '%s: values given before are %s' % (x.name, 'replaced' if w else 'kept'), x.v, vague(s, h))
    seq = ('anyval', x.S)
    for s, i, l in loops(x.v):
        adds = [e for it in l.iters for e in it.evs if e.k == 'mut' and e.loc[0] == 'anyval' and e.loc[1] == x.S]
        if not adds:
            continue
        hit += 1
        w = walks(x.v, s, i, l, x.N)
        ck.ob(R, w, x.f, '%s: %s' % (x.name, 'every token is visited' if w else 'not every token is visited'), x.v, {} if w is False else s.facts)
        els = iter_of(l, x.N)
        for it in l.iters:
            if it.kind != 'back':
                continue
            m = [e for e in it.evs if e.k == 'mut' and e.loc[0] == 'anyval' and e.loc[1] == x.S]
            ok = len(m) == 1 and m[0].meth in ('push_back', 'emplace_back', 'push', 'insert')
            val = end(x.v, it, m[0].loc) if m else None
            if m and val[0] == 'push':
                head = l.havoc.get(m[0].loc)
                ok = val[1] == head or None
                src = [e for e in els if contains(val[2], e)]
                ok = all3_(ok, True if src else None if any(t and t[0] in ('phi', 'mrg', 'unk', 'out') for t in subterms(val[2])) else False)
            elif m:
                ok = None
            ck.ob(R, ok, x.f, '%s: %s' % (x.name, 'one element per token' if ok else 'a token adds %d elements' % len(m)), x.v, about(it.facts, *els) if els else it.facts)
    ck.ob(R, True if hit else None, x.f, '%s: the loop adding the elements' % x.name, x.v)


def all3_(*xs):
    return False if any(y is False for y in xs) else None if any(y is None for y in xs) else True


def grown_any(t, x):
    return t[0] == 'any' and any(y == In(x.S) or y[0] == 'phi' for y in subterms(t)) and None


# ------------------------------------------------------------------------- C17
def c17(ck):
    R = 'boolean spellings'
    for x in sems(ck, 'bool'):
        tok = at(x.N, c(0))
        low = ('lower', tok)
        for lit, want in [(l, True) for l in TRUE] + [(l, False) for l in FALSE]:
            hit = 0
            for s, h in x.segs(x.none, x.n_is(1), ('eq', low, ('str', lit)), cmp_('==', size(tok), c(len(lit)))):
                if foreign(s):
                    continue
                hit += 1
                e = end(x.v, s, x.S)
                ok = s.kind == 'ret' and e == ('any', 'bool', c(want))
                ck.ob(R, ok or (False if deepbool(s.facts, tok) else None), x.f, '%s: "%s" in any case means %s' % (x.name, lit, want if ok else 'something else than %s' % want), x.v, {})
            ck.ob(R, True if hit else None, x.f, '%s: "%s"' % (x.name, lit), x.v)
        for s, h in x.segs(x.none, x.n_is(1), cmp_('==', size(tok), c(0))):
            ok = s.kind == 'ret' and end(x.v, s, x.S) == ('any', 'bool', c(True))
            ck.ob('a switch without text is on', ok or (False if deepbool(s.facts, tok) else None), x.f, '%s: empty value' % x.name, x.v, {})
        for s, h in x.segs(x.none, x.n_is(0), x.noimp):
            ok = s.kind == 'ret' and end(x.v, s, x.S) == ('any', 'bool', c(True))
            ck.ob('a switch without text is on', ok or (False if deepbool(s.facts, tok) else None), x.f, '%s: no value' % x.name, x.v, {})
        no = [('not', ('eq', low, ('str', l))) for l in TRUE + FALSE]
        for s, h in x.segs(x.none, x.n_is(1), cmp_('>=', size(tok), c(1)), *no):
            ok = s.kind == 'throw' and (throws(s, 'invalid_bool_value') or foreign(s))
            ck.ob('any other text is refused', (ok and not x.writes(s)) or (False if deepbool(s.facts, tok) else None), x.f, '%s: other text %s' % (x.name, 'is refused' if ok else 'is accepted'), x.v, {})
            if throws(s, 'invalid_bool_value'):
                t, a = exc_in(s)
                folded = bool(a) and any(x and x[0] in ('lower', 'tolower', 'towlower', 'upper', 'toupper') for x in subterms(a[0]))
                named = bool(a) and not folded and (contains(a[0], tok) or a[0] == ('str', '<unrepresentable unicode string>'))
                ck.ob('the refused text is reported', True if named else False if folded else None if not a or any(y and y[0] in ('phi', 'out', 'mrg', 'unk') for y in subterms(a[0])) else False, x.f, '%s: reports %s' % (x.name, show(a[0])[:50] if a else 'nothing'), x.v, {})
        folding(ck, 'letter case is ignored everywhere', x.f, x.v, x.name)
        for s, i, l in loops(x.v):
            for it in l.iters:
                for e in it.evs:
                    if e.k == 'write' and e.val and e.val[0] in ('tolower', 'towlower') and it.kind == 'back':
                        ts = [t for loc, t in loop_ix(l) if contains(e.val, t)]
                        if len(ts) == 1 and isinstance(ts[0][1][3], int) and (ts[0][2] is None or isinstance(ts[0][2], int)):
                            ck.ob('letter case is ignored everywhere', ts[0][2] == 0 and ts[0][1][3] == 1 or (None if ts[0][2] is None else False), e, '%s: folded from character %s in steps of %s' % (x.name, ts[0][2], ts[0][1][3]), x.v, {})
        ck.need('any other text is refused', 2)
    # bool_switch
    for f in ck.fns('bool_switch', least=1):
        if not f['ps']:
            continue
        v = ck.view(f)
        for s in tops(v, 'ret'):
            w = {e.loc[2]: e.val for e in s.evs if e.k == 'write' and e.loc[0] == 'fld'}
            d = [y for y in w.values() if y[0] == 'any']
            ck.ob('a switch is off unless given', d == [('any', 'bool', c(False))], f, 'default %s' % [show(y) for y in d], v, s.facts)
            z = zero_field(ck)
            ck.ob('a switch takes no value', w.get(z) == c(True) if z else None, f, 'switch', v, s.facts)
    ck.need('a switch is off unless given')


def deepbool(facts, tok):
    """no comparison of text on this path is about something a loop forgot"""
    for k in facts:
        if unclean_atom(k):
            return False
        ix = any(y and y[0] == 'ix' for y in subterms(k))
        for y in subterms(k):
            if y and y[0] == 'size' and not ix and any(z and z[0] in BAD + ('aft',) for z in subterms(y)):
                return False
            if y and y[0] in ('eq', 'at', 'prefix', 'find') and any(z and z[0] in BAD + ('aft',) for z in subterms(y)):
                return False
            if y and y[0] in ('mrg', 'unk'):
                return False
    return True


def zero_field(ck):
    """the member the zero-tokens setter writes"""
    for f in ck.p.fns('typed_value::zero_tokens'):
        for s in own_(View(ck.p, f)):
            for e in s.evs:
                if e.k == 'write' and e.loc[0] == 'fld':
                    return e.loc[2]
    return None


# ------------------------------------------------------------------------- C18
def conv(t, tok):
    """the conversion of the token inside a stored value: its target type, or None"""
    for y in subterms(t):
        if y and y[0] == 'lex' and len(y) > 2 and y[2] == tok:
            return y[1]
    return None


def c18(ck):
    own_conversion(ck)
    RE, RV, RS, RX = 'a value that cannot be converted is reported as such', 'the converted value is the given one', 'a refused value changes nothing', 'conversion failures do not escape'
    kinds = {k: ck.enum(k) for k in ('invalid_bool_value', 'invalid_option_value', 'multiple_values_not_allowed', 'at_least_one_value_required')}
    for x in sems(ck):
        for s in own_(x.v):
            if s.kind == 'throw':
                t = s.val[1] if isinstance(s.val, tuple) and s.val[0] == 'exc' else ''
                ck.ob(RX, 'bad_lexical_cast' not in t and ('bad_any_cast' not in t or narrow(s.facts, x.none) is None), x.f, '%s: %s' % (x.name, t), x.v, s.facts)
        if x.kind == 'vector':
            vector_errors(ck, x, RE, RV)
            continue
        tok = at(x.N, c(0))
        for s, h in x.segs(x.none, x.n_is(1)):
            if s.kind == 'throw':
                ck.ob(RS, not x.writes(s), x.f, '%s: nothing is stored' % x.name, x.v, vague(s, h))
            if x.kind == 'bool':
                continue
            failed = any(e.k == 'xthrow' and 'bad_lexical_cast' in e.t for e in s.evs)
            if failed:
                t, a = exc_in(s)
                ok = throws(s, 'invalid_option_value') and bool(a)
                ck.ob(RE, ok, x.f, '%s: failure gives %s' % (x.name, t), x.v, vague(s, h))
                if ok:
                    ck.ob(RE, same(a[0], tok), x.f, '%s: reports %s' % (x.name, show(a[0])[:60]), x.v, vague(s, h))
                continue
            if s.kind != 'ret':
                ck.ob(RV, True if foreign(s) or lossy(s) else False, x.f, '%s: one value is refused' % x.name, x.v, vague(s, h))
                continue
            e = end(x.v, s, x.S)
            ck.ob(RV, given(x, e, tok), x.f, '%s: stores %s' % (x.name, show(e)[:70]), x.v, vague(s, h))
    ck.need(RE, 5)
    ck.need(RV, 8)
    for f in ck.fns('invalid_option_value::invalid_option_value', least=2):
        reports_value(ck, f)
    for f in ck.fns('invalid_bool_value::invalid_bool_value', least=1):
        reports_value(ck, f)
    # the generic message of each kind names what the kind says
    f = ck.fn('validation_error::get_template')
    v = ck.view(f)
    for s in own_(v):
        for k, n in kinds.items():
            h = narrow(s.facts, cmp_('==', In(P(f, 0)), c(n)))
            if h is None or s.kind != 'ret':
                continue
            r = rv(v, s)
            if r[0] == 'str':
                ck.ob('the message shows the refused value', ('%value%' in r[1]) == (k in ('invalid_bool_value', 'invalid_option_value')), f, '%s: "%s"' % (k, r[1]), v, h)


def own_conversion(ck):
    """a type with a validate() of its own is converted by it, alone or as an element"""
    R, RX = "a type's own conversion is used", 'conversion failures do not escape'
    made = lambda evs: [e for e in evs if e.k in ('ext', 'call') and e.q == 'po_probe::validate']
    for x in sems(ck, own=True):
        if x.kind == 'vector':
            for s, i, l in loops(x.v):
                els = iter_of(l, x.N)
                for it in l.iters:
                    if it.kind != 'back':
                        continue
                    cs = made(it.evs)
                    for e in [e for e in it.evs if e.k == 'mut' and e.loc[0] == 'anyval' and e.loc[1] == x.S]:
                        val = end(x.v, it, e.loc)
                        y = val[2] if val[0] == 'push' else None
                        if y is None:
                            ck.ob(R, None, x.f, '%s: %s' % (x.name, show(val)[:60]), x.v, {})
                            continue
                        src = [k for k, cl in enumerate(cs) if y[0] == 'anyval' and is_out(y[1], 'validate')]
                        ck.ob(R, True if len(cs) == 1 and src else False if not cs and els and any(contains(y, t) for t in els) and not any(z and z[0] in BAD for z in subterms(y)) else None, e,
                              '%s: adds %s' % (x.name, show(y)[:70]), x.v, {})
                        for cl in cs[:1]:
                            a = cl.args[1]
                            ck.ob(R, True if any(a == ('seq', t) for t in els) else None if a[0] in BAD or not els else False, cl, '%s: converts %s' % (x.name, show(a)[:60]), x.v, {})
            continue
        for s, h in x.segs(x.none, x.n_is(1)):
            if s.kind != 'ret':
                continue
            cs = made(s.evs)
            e = end(x.v, s, x.S)
            used = any(is_out(t, 'validate') for t in subterms(e) if t)
            ck.ob(R, True if len(cs) == 1 and used else None if e[0] in BAD and not is_out(e, 'validate') else False if not cs else None, x.f, '%s: stores %s' % (x.name, show(e)[:70]), x.v, vague(s, h))
            for cl in cs[:1]:
                a = cl.args[1]
                ck.ob(R, True if same(a, x.N, h) is True or a == ('seq', at(x.N, c(0))) else None if a[0] in BAD else False, cl, '%s: converts %s' % (x.name, show(a)[:60]), x.v, {})
    ck.need(R, 6)


def lossy(s):
    """the text cannot be represented in the other character type"""
    return isinstance(s.val, tuple) and s.val[0] == 'exc' and s.val[1] == 'std::logic_error'


def given(x, e, tok):
    """stored value e is the token (converted to the element type)"""
    core = e[2] if e[0] == 'any' else e
    if core[0] == 'opt':
        core = core[1]
    if core == tok:
        return True
    if core[0] == 'sub' and core[1] == tok and core[2][0] == 'c' and core[2][1] >= 1:
        return False
    if core[0] == 'call' and str(core[1]).endswith(('to_local_8_bit', 'from_local_8_bit')):
        return True if any(y == tok for y in core[2:]) or any(y == tok for z in core[2:] if isinstance(z, tuple) for y in z) else None
    if core[0] == 'lex':
        return core == ('lex', core[1], tok)
    if contains(core, tok) or any(y and y[0] in BAD for y in subterms(core)):
        return None
    return False


def vector_errors(ck, x, RE, RV):
    for s, i, l in loops(x.v):
        els = iter_of(l, x.N)
        for it in l.iters:
            failed = any(e.k == 'xthrow' and 'bad_lexical_cast' in e.t for e in it.evs)
            if failed:
                t, a = exc_in(it)
                ok = throws(it, 'invalid_option_value') and bool(a)
                ck.ob(RE, ok, x.f, '%s: failure gives %s' % (x.name, t), x.v, about(it.facts, *els))
                if ok:
                    ck.ob(RE, a[0] in els or same(a[0], els[0] if els else None, tuple(els)), x.f, '%s: reports %s' % (x.name, show(a[0])[:60]), x.v, {})
            elif it.kind == 'back':
                for e in it.evs:
                    if e.k == 'mut' and e.loc[0] == 'anyval' and e.loc[1] == x.S:
                        val = end(x.v, it, e.loc)
                        y = val[2] if val[0] == 'push' else None
                        if y is not None and els:
                            r = [given(x, ('any', '', y), t) for t in els]
                            ck.ob(RV, True if True in r else None if None in r else False, x.f, '%s: adds %s' % (x.name, show(y)[:70]), x.v, {})


def reports_value(ck, f):
    v = ck.view(f, ['error_with_option_name::set_substitute'])
    for s in own_(v):
        if s.kind != 'ret':
            ck.ob('the message shows the refused value', None if foreign(s) else False, f, 'building the error fails', v, s.facts)
            continue
        m = [e for e in s.evs if e.k == 'call' and e.q.endswith('::set_substitute') and len(e.args) > 1 and e.args[0] == ('str', 'value')]
        B = In(P(f, 0))
        wide = 'wchar_t' in f['ps'][0]['t']
        ok = len(m) >= 1 and (m[-1].args[1] == B or wide or None)
        if len(m) >= 1 and m[-1].args[1] != B and not wide:
            ok = None if any(y and y[0] in BAD for y in subterms(m[-1].args[1])) else False
        ck.ob('the message shows the refused value', ok, f, 'value shown: %s' % (show(m[-1].args[1])[:60] if m else 'none'), v, s.facts)


# ------------------------------------------------------------------------- C19
def c19(ck):
    RI, RM, RC = 'the implicit value is used exactly when no value is given', 'number of tokens an option takes', 'too few or too many values are refused'
    kinds = {k: ck.enum(k) for k in ('multiple_values_not_allowed', 'at_least_one_value_required')}
    for x in sems(ck):
        for s, h in x.segs(x.none, x.n_is(0), ('not', x.noimp)):
            ck.ob(RI, s.kind == 'ret' and end(x.v, s, x.S) == x.imp, x.f, '%s: without a value %s is stored' % (x.name, show(end(x.v, s, x.S))[:50]), x.v, vague(s, h))
        for g in (cmp_('>=', x.n, c(1)), x.noimp):
            for s, h in x.segs(g):
                e = end(x.v, s, x.S)
                ck.ob(RI, not contains(e, x.imp), x.f, '%s: the given value is stored' % x.name, x.v, vague(s, h))
        if x.kind == 'vector':
            continue
        for s, h in x.segs(x.none, cmp_('>=', x.n, c(2))):
            t, a = exc_in(s)
            ck.ob(RC, throws(s, 'validation_error') and bool(a) and a[0] == c(kinds['multiple_values_not_allowed']) and not x.writes(s), x.f, '%s: several values %s' % (x.name, 'are refused' if s.kind == 'throw' else 'are accepted'), x.v, vague(s, h))
        if x.kind == 'bool':
            continue
        for s, h in x.segs(x.none, x.n_is(0), x.noimp):
            t, a = exc_in(s)
            ck.ob(RC, throws(s, 'validation_error') and bool(a) and a[0] == c(kinds['at_least_one_value_required']) and not x.writes(s), x.f, '%s: no value %s' % (x.name, 'is refused' if s.kind == 'throw' else 'is accepted'), x.v, vague(s, h))
    ck.need(RC, 18)
    UMAX = c(4294967295)
    fields = setter_fields(ck)
    for cls, zero in (('typed_value', fields.get('zero_tokens')), ('untyped_value', None)):
        for which in ('min_tokens', 'max_tokens'):
            for f in ck.fns('%s::%s' % (cls, which)):
                v = ck.view(f)
                z = zero
                if cls == 'untyped_value':
                    z = untyped_zero(ck)
                if z is None:
                    ck.ob(RM, None, f, 'setting not found', v)
                    continue
                Z = tobool(infld(THIS, z))
                multi = tobool(infld(THIS, fields['multitoken'])) if cls == 'typed_value' and 'multitoken' in fields else None
                imp = ('not', ('anyempty', infld(THIS, fields['implicit_value']))) if cls == 'typed_value' and 'implicit_value' in fields else None
                rows = []
                if cls == 'untyped_value':
                    rows = [((Z,), c(0)), ((('not', Z),), c(1))]
                elif which == 'min_tokens' and imp:
                    rows = [((Z,), c(0)), ((imp,), c(0)), ((('not', Z), ('not', imp)), c(1))]
                elif which == 'max_tokens' and multi:
                    rows = [((multi,), UMAX), ((('not', multi), Z), c(0)), ((('not', multi), ('not', Z)), c(1))]
                for g, want in rows:
                    n = 0
                    for s in own_(v):
                        h = narrow(s.facts, *g)
                        if h is None:
                            continue
                        n += 1
                        r = rv(v, s)
                        ok = s.kind == 'ret' and (r == want or (r[0] not in ('c',) and val_is(h, r, want)))
                        ck.ob(RM, ok, f, '%s with %s: %s' % (which, ', '.join(show(y) for y in g), show(r)), v, h)
                    ck.ob(RM, True if n else None, f, '%s: %d paths' % (which, n), v)
    ck.need(RM, 20)
    f = ck.fn('untyped_value::xparse')
    v = ck.view(f)
    S, N = P(f, 0), In(P(f, 1))
    none = ('anyempty', In(S))
    for g, want in ((cmp_('==', size(N), c(0)), ('str', '')), (cmp_('==', size(N), c(1)), at(N, c(0))), (cmp_('>=', size(N), c(2)), None)):
        for s in own_(v):
            h = narrow(s.facts, none, g)
            if h is None:
                continue
            if want is None:
                ck.ob(RC, throws(s, 'multiple_values') and not muts_of(s.evs, S), f, 'option declared without type: several values %s' % ('are refused' if s.kind == 'throw' else 'are accepted'), v, h)
            else:
                e = end(v, s, S)
                ck.ob(RC, s.kind == 'ret' and (e == ('any', 'string', want) or (want == ('str', '') and e == ('any', 'string', ('seq',)))), f, 'option declared without type stores %s' % show(e)[:60], v, h)
    settings(ck, fields)


def val_is(facts, t, want):
    lo, hi = ival(facts, t)[:2]
    return True if lo == hi == want[1] else None


GETTERS = {'composing': 'is_composing', 'required': 'is_required'}
SETTERS = ['composing', 'required', 'multitoken', 'zero_tokens', 'default_value', 'implicit_value', 'notifier', 'value_name']


def setter_fields(ck):
    """declaration call -> member it sets (the any one for values)"""
    out = {}
    for n in SETTERS:
        for f in ck.p.fns('typed_value::' + n):
            for s in own_(View(ck.p, f)):
                w = [e for e in s.evs if e.k == 'write' and e.loc[0] == 'fld' and e.loc[1] == THIS]
                if n in ('default_value', 'implicit_value'):
                    w = [e for e in w if e.val[0] == 'any']
                if len(w) == 1:
                    out.setdefault(n, w[0].loc[2])
    return out


def untyped_zero(ck):
    r = ck.rec('untyped_value')
    return ck.field(r, 'm_zero_tokens', lambda t: t == 'bool')


def settings(ck, fields):
    R = 'each declared setting takes effect and no other changes'
    seen = set()
    for n in SETTERS:
        for f in ck.fns('typed_value::' + n):
            v = ck.view(f)
            for s in own_(v):
                w = {e.loc[2]: end(v, s, e.loc) for e in s.evs if e.k in ('write', 'mut') and e.loc[0] == 'fld' and e.loc[1] == THIS}
                if s.kind != 'ret':
                    ck.ob(R, True if foreign(s) else None, f, n, v, s.facts)
                    continue
                ck.ob(R, same(rv(v, s), ('ptr', THIS)), f, '%s returns the semantic itself' % n, v, s.facts)
                if n in ('composing', 'required', 'multitoken', 'zero_tokens'):
                    ok = list(w.values()) == [c(True)] and list(w)[0] == fields.get(n) and list(w)[0] not in [fields.get(m) for m in SETTERS if m != n]
                    ck.ob(R, ok, f, '%s sets %s' % (n, ', '.join(w)), v, s.facts)
                elif n in ('notifier', 'value_name'):
                    ck.ob(R, list(w.values()) == [In(P(f, 0))] if len(w) == 1 and not any(y[0] in BAD for x in w.values() for y in subterms(x) if y) else None if len(w) == 1 else False, f, '%s sets %s' % (n, ', '.join(w)), v, s.facts)
                else:
                    a = [(k, y) for k, y in w.items() if y[0] == 'any']
                    ok = len(a) == 1 and a[0][1][2] == In(P(f, 0)) and a[0][0] == fields.get(n)
                    ck.ob(R, ok, f, '%s stores %s' % (n, [show(y)[:40] for k, y in a]), v, s.facts)
                    t = [(k, y) for k, y in w.items() if y[0] != 'any']
                    want = In(P(f, 1)) if len(f['ps']) > 1 else None
                    ok = len(t) == 1 and (t[0][1] == want if want is not None else t[0][1][0] == 'lex' and t[0][1][2] == In(P(f, 0)) or (None if t[0][1][0] in BAD else False))
                    ck.ob(R, ok, f, '%s shows %s' % (n, [show(y)[:40] for k, y in t]), v, s.facts)
                    if len(t) == 1:
                        other = texts(ck, 'implicit_value' if n == 'default_value' else 'default_value')
                        ck.ob(R, t[0][0] not in other, f, '%s text does not replace the other one' % n, v, s.facts)
    for n, g in GETTERS.items():
        for f in ck.fns('typed_value::' + g):
            v = ck.view(f)
            for s in own_(v):
                r = rv(v, s)
                b = tobool(infld(THIS, fields[n])) if n in fields else None
                ok = None if b is None else (r == infld(THIS, fields[n]) or truth(s.facts, b) is not None and r == c(truth(s.facts, b)))
                ck.ob(R, ok, f, '%s answers %s' % (g, show(r)), v, s.facts)
    for f in ck.fns('typed_value::apply_default'):
        v = ck.view(f)
        D = infld(THIS, fields['default_value']) if 'default_value' in fields else None
        for s in own_(v):
            if D is None:
                ck.ob(R, None, f, 'no default member', v)
                continue
            for w in (True, False):
                h = narrow(s.facts, ('anyempty', D) if w else ('not', ('anyempty', D)))
                if h is None:
                    continue
                r, e = rv(v, s), end(v, s, P(f, 0))
                rb = r[1] if r[0] == 'c' else truth(h, tobool(r))
                if w:
                    ck.ob(R, rb is False and e == In(P(f, 0)) or (None if rb is None else False), f, 'no default: reports %s' % rb, v, h)
                else:
                    ck.ob(R, rb is True and e == D or (None if rb is None else False), f, 'default: stores %s, reports %s' % (show(e)[:50], rb), v, h)
    for q in ('typed_value::typed_value',):
        for f in ck.fns(q):
            if len(f['ps']) != 1 or 'T' == f['ps'][0]['t']:
                continue
            v = ck.view(f)
            for s in own_(v):
                for n in ('composing', 'required', 'multitoken', 'zero_tokens'):
                    if n in fields:
                        e = end(v, s, fld(THIS, fields[n]))
                        ck.ob('settings are off until declared', True if e == c(False) else None if e[0] in BAD or e[0] == 'in' and not ctor_of(f) else False, f, '%s is %s' % (n, show(e)[:40]), v, s.facts)


def ctor_of(f):
    return bool(f.get('inits'))


def texts(ck, n):
    out = set()
    for f in ck.p.fns('typed_value::' + n):
        for s in own_(View(ck.p, f)):
            out |= {e.loc[2] for e in s.evs if e.k == 'write' and e.loc[0] == 'fld' and e.loc[1] == THIS and e.val[0] != 'any'}
    return out


# ------------------------------------------------------------------------- C30
def c30(ck):
    R = 'the stored value has the declared type'
    for x in sems(ck):
        for s in own_(x.v):
            if s.kind != 'ret':
                continue
            e = end(x.v, s, x.S)
            typ(ck, R, x, s, e)
        lives = [s for s, h in x.segs(x.none, x.n_is(1)) if s.kind == 'ret']
        ck.ob(R, bool(lives), x.f, '%s: %s' % (x.name, 'one value can be stored' if lives else 'no way through: a first value is never stored'), x.v, {})
        for s, i, e in x.v.events('anycast'):
            ck.ob('values are read back as the declared type', False if e.match is False else True if e.match or bare(e.t) in (x.T, x.el) else None, e, '%s: read as %s' % (x.name, e.t), x.v, {})
    ck.need(R, 15)
    for n in ('default_value', 'implicit_value'):
        for f in ck.fns('typed_value::' + n):
            T = bare(targs(f['cls'])[0])
            v = ck.view(f)
            for s in own_(v):
                for e in s.evs:
                    if e.k == 'write' and e.loc[0] == 'fld' and e.val[0] == 'any':
                        ck.ob(R, e.val[1] == T, f, '%s of type %s holds a %s' % (n, T, e.val[1]), v, s.facts)
    for f in ck.fns('bool_switch'):
        if f['ps']:
            v = ck.view(f)
            for s in tops(v, 'ret'):
                for e in s.evs:
                    if e.k == 'write' and e.loc[0] == 'fld' and e.val[0] == 'any':
                        ck.ob(R, e.val[1] == 'bool', f, 'default of a switch is a %s' % e.val[1], v, s.facts)
    f = ck.fn('untyped_value::xparse')
    v = ck.view(f)
    for s in tops(v, 'ret'):
        e = end(v, s, P(f, 0))
        ck.ob(R, e[0] == 'any' and e[1] == 'string' or (None if e[0] in BAD else False), f, 'option declared without type holds %s' % show(e)[:40], v, s.facts)
    for f in ck.fns('typed_value::notify'):
        T = bare(targs(f['cls'])[0])
        v = ck.view(f)
        n = 0
        for s, i, e in v.events('anycast'):
            n += 1
            ck.ob('values are read back as the declared type', bare(e.t) == T, e, 'delivered as %s, declared %s' % (e.t, T), v, {})
        ck.ob('values are read back as the declared type', True if n else None, f, 'delivery reads the stored value', v)
    for f in ck.fns('typed_value::value_type'):
        T = bare(targs(f['cls'])[0])
        ids = [n for n in walk([f['b']]) if n.get('k') == 'typeid']
        if ids:
            ck.ob('the reported type is the declared type', all(bare(n['ty']) == T for n in ids), f, 'reports %s' % [bare(n['ty']) for n in ids], None, {})
    for f in ck.fns('variable_value::as'):
        v = ck.view(f)
        want = bare(f['r']) if f.get('r') else None
        for s, i, e in v.events('anycast'):
            if want:
                ck.ob('values are read back as the requested type', bare(e.t).replace('&', '').replace('const ', '').strip() == want.replace('&', '').replace('const ', '').strip(), e, 'as %s' % e.t, v, {})


def typ(ck, R, x, s, e):
    if e == x.imp or e == In(x.S):
        return
    if e[0] == 'phi' or e[0] in BAD:
        # a loop adding to the sequence: the value before it
        ok = None
        for l in [y for y in s.evs if y.k == 'loop']:
            b = l.base0.get(x.S)
            if b is not None and b[0] == 'any':
                ok = b[1] == x.T
        ck.ob(R, ok if ok is not None else True if not [y for y in x.writes(s) if y.k == 'write' and y.loc == x.S] else None, x.f, '%s: sequence' % x.name, x.v, s.facts)
        return
    ck.ob(R, e[0] == 'any' and e[1] == x.T or (None if e[0] != 'any' else False), x.f, '%s: holds a %s' % (x.name, e[1] if e[0] == 'any' else show(e)[:40]), x.v, s.facts)


# ------------------------------------------------------------------------- C37
def c37(ck):
    """what help says about a value"""
    R, RT, RU = 'the texts declared for a value are shown', 'each text declared is the one remembered', 'a value without a name is shown as the common one'
    fields = setter_fields(ck)
    one = lambda xs: list(xs)[0] if len(xs) == 1 else None
    I, D = fields.get('implicit_value'), fields.get('default_value')
    ti, td = texts(ck, 'implicit_value'), texts(ck, 'default_value')
    IT, DT = one(ti) or one(ti - td), one(td) or one(td - ti)
    N = fields.get('value_name')
    for f in ck.fns('typed_value::name', least=2):
        v = ck.view(f)
        if None in (I, D, IT, DT, N):
            ck.ob(R, None, f, 'the members behind the declarations were not found', v)
            continue
        n, it, dt = infld(THIS, N), infld(THIS, IT), infld(THIS, DT)
        for nn in (True, False):
            for hi in (True, False):
                for hd in (True, False):
                    g = [cmp_('>=' if nn else '==', size(n), c(1 if nn else 0))]
                    for on, a, t in ((hi, I, it), (hd, D, dt)):
                        # a text comes with its value: both are declared, or neither
                        g += [('not', ('anyempty', infld(THIS, a))), cmp_('>=', size(t), c(1))] if on else [cmp_('==', size(t), c(0))]
                    k = 0
                    for s in own_(v):
                        h = narrow(s.facts, *g)
                        if h is None:
                            continue
                        k += 1
                        r = rv(v, s)
                        var = n if nn else common(r)
                        if var is None:
                            ck.ob(RU, None if unknown(r) else False, f, 'unnamed value shown as %s' % show(r)[:80], v, h)
                            continue
                        want = [('str', '[='), var, ('str', '(='), it, ('str', ')]')] if hi else [var]
                        want = cat(*(want + ([('str', ' (='), dt, ('str', ')')] if hd else [])))
                        what = '%s value%s%s' % ('named' if nn else 'unnamed', ' with implicit text' if hi else '', ' with default text' if hd else '')
                        ck.ob(R, s.kind == 'ret' and (r == want or (None if unknown(r) else False)), f, '%s: shown as %s' % (what, show(r)[:100]), v, h)
                    if not k:
                        ck.ob(R, None, f, 'no way through for this combination', v)
    ck.need(R, 12)
    for f in ck.fns('untyped_value::name'):
        v = ck.view(f)
        for s in own_(v):
            r = rv(v, s)
            ck.ob(RU, s.kind == 'ret' and (common(r) == r or (None if unknown(r) else False)), f, 'value of an option without type shown as %s' % show(r)[:60], v, s.facts)
    ck.need(RU, 1)
    for n, mine, other in (('default_value', DT, IT), ('implicit_value', IT, DT)):
        for f in ck.fns('typed_value::' + n):
            v = ck.view(f)
            for s in own_(v):
                if s.kind != 'ret' or foreign(s):
                    continue
                if mine is None or other is None:
                    ck.ob(RT, None, f, 'the members behind the declarations were not found', v)
                    continue
                t = end(v, s, fld(THIS, mine))
                want = In(P(f, 1)) if len(f['ps']) > 1 else None
                ok = t == want if want is not None else t[0] == 'lex' and t[2] == In(P(f, 0))
                ck.ob(RT, ok or (None if unknown(t) else False), f, '%s is shown as %s' % (n, show(t)[:60]), v, s.facts)
                ck.ob(RT, end(v, s, fld(THIS, other)) == infld(THIS, other), f, '%s leaves the other text alone' % n, v, s.facts)
    for f in ck.fns('typed_value::value_name'):
        v = ck.view(f)
        for s in own_(v):
            if s.kind == 'ret' and N is not None:
                t = end(v, s, fld(THIS, N))
                ck.ob(RT, t == In(P(f, 0)) or (None if unknown(t) else False), f, 'the value is named %s' % show(t)[:60], v, s.facts)
    ck.need(RT, 8)


def common(r):
    """the part of r that is the program-wide name of values"""
    xs = [x for x in subterms(r) if x and x[0] in ('G', 'in') and (x[1] == NS + 'arg' or x[1] == ('G', NS + 'arg'))]
    return max(xs, key=lambda x: len(str(x))) if xs else None


def unknown(t):
    return any(x and x[0] in BAD for x in subterms(t))
