"""character encodings: every token reaches the option in the form its type reads; wide results mirror narrow ones"""
from .dsl import *
from .program import walk
from .rules_cfg import optfield

CONV = 'boost::detail::convert'
UTF, LOC = 'utf8', 'local'
FACET = 'codecvt<wchar_t, char'


def steps(t, src):
    """the conversions applied to src, outermost last; None when t is something else"""
    out = []
    while t != src:
        if t[0] != 'call' or len(t) < 3:
            return None
        n = str(t[1])
        for k in ('from_utf8', 'to_utf8', 'from_local_8_bit', 'to_local_8_bit', 'to_internal'):
            if n.endswith('::' + k):
                out.append(k)
                break
        else:
            return None
        t = t[2]
    return out[::-1]


EIGHT = ['boost::from_utf8', 'boost::to_utf8', 'boost::from_local_8_bit', 'boost::to_local_8_bit']


def unknown(t):
    return any(x and x[0] in BAD for x in subterms(t))


def mapped(v, s, t, src):
    """t holds the elements of src, each put through the same conversions, in order: (True/False/None, conversions)"""
    if t == src:
        return True, []
    if t[0] == 'vmap' and t[1] == src:
        st = steps(t[2], ('el',))
        return (True if st is not None else None), st
    if t[0] == 'vmap' and t[1][0] == 'sub' and t[1][1] == src and not unknown(t[1]):
        return False, 'only %s of them' % show(t[1])[-30:]
    if t[0] != 'phi':
        return None, None
    for i, l in [(i, e) for i, e in enumerate(s.evs) if e.k == 'loop' and e.id == t[1]]:
        w = walks(v, s, i, l, src)
        if w is False:
            return False, 'not all of them'
        els = iter_of(l, src)
        for it in l.iters:
            if foreign(it) or it.kind == 'throw':
                continue
            ms = [e for e in it.evs if e.k in ('mut', 'write') and e.loc == t[2]]
            h = l.havoc.get(t[2])
            if it.kind in ('brk', 'ret') and deepclean(it.facts):
                return False, 'left early'
            if it.kind == 'back' and not ms and deepclean(it.facts):
                return False, 'some left out'
            if it.kind == 'back' and len(ms) == 1 and ms[0].val[0] == 'inserted' and h is not None and ms[0].val[1:3] == (h, c(0)) and els:
                return False, 'in reverse'
        ways = set()
        for it in l.iters:
            ms = [e for e in it.evs if e.k in ('mut', 'write') and e.loc == t[2]]
            if it.kind != 'back' or len(ms) != 1 or ms[0].val[0] != 'push' or len(els) == 0:
                continue
            for x in els:
                st = steps(ms[0].val[2], x)
                # told apart by nothing but their length
                apart = [k for k in (subst(k, {size(x): c(1)}) for k in it.facts) if contains(k, x) or unknown(k)]
                if st is not None and not apart and narrow(it.facts, cmp_('>=', size(x), c(1))) is not None:
                    ways.add(tuple(st))
        if len(ways) > 1:
            return False, ' or '.join(sorted('+'.join(w) or 'nothing' for w in ways)) + ', depending on the token'
    return None, None


def c24(ck):
    parse(ck)
    chain(ck)
    internal(ck)
    facets(ck)
    for f in ck.fns(CONV, least=2):
        pieces(ck, f)
    uncut(ck)


CUT = ('convert.cpp', 'value_semantic.cpp', 'value_semantic.hpp', 'parsers.cpp', 'parsers.hpp', 'cmdline.cpp', 'variables_map.cpp', 'winmain.cpp', 'split.cpp')


def uncut(ck):
    """no string is made from another one's bare characters, which end at the first one of value zero"""
    R = 'text is not cut short at a zero character'
    for f in sorted(ck.p.funcs.values(), key=lambda f: f['u']):
        if not str(f.get('f', '')).endswith(CUT) and not f['q'].endswith(('config_file_iterator::get', 'config_file_iterator::getline')) or not f.get('b'):
            continue
        bad = None
        for n in walk(f):
            if n.get('k') in ('new', 'c') and str(n.get('q', '')).startswith('std::basic_string::') and n['q'].split('::')[-1] in ('basic_string', 'operator=', 'operator+=', 'append', 'assign'):
                pt = [t for t in n.get('pt', ()) if 'allocator' not in t or 'basic_string<' in t]
                a = n['a'][0] if n.get('a') else None
                if len(pt) == 1 and pt[0].rstrip().endswith('*') and isinstance(a, dict) and a.get('k') == 'c' and a.get('q') in ('std::basic_string::c_str', 'std::basic_string::data'):
                    bad = n
        ck.ob(R, bad is None, f if bad is None else '%s:%s in %s' % (f['f'], bad.get('l'), f['q']), 'a string is copied through %s' % bad['a'][0]['q'].split('::')[-1] if bad else 'no string is copied through c_str()')
    ck.need(R, 20)


def parse(ck):
    """value_semantic_codecvt_helper: what xparse is given"""
    R = 'tokens arrive in the encoding the option reads'
    want = {('char', True): ['from_utf8', 'to_local_8_bit'], ('char', False): [], ('wchar_t', True): ['from_utf8'], ('wchar_t', False): ['from_local_8_bit']}
    for f in ck.fns('value_semantic_codecvt_helper::parse', least=2):
        C = 'wchar_t' if 'wchar_t' in f['cls'] else 'char'
        v = ck.view(f, EIGHT)
        N, U = In(P(f, 1)), In(P(f, 2))
        for w in (True, False):
            n = 0
            for s in own(tops(v, 'ret')):
                g = narrow(s.facts, tobool(U) if w else neg(tobool(U)))
                if g is None:
                    continue
                n += 1
                cs = calls(s.evs, 'xparse')
                what = '%s option, %s input' % ('wide' if C == 'wchar_t' else 'narrow', 'UTF-8' if w else 'local')
                if len(cs) != 1:
                    ck.ob('tokens reach the option', False if not any(e.k in ('icall', 'ext') for e in s.evs) else None, f, '%s: the option is asked to read them %d times' % (what, len(cs)), v, {})
                    continue
                e = cs[0]
                ck.ob('the value read goes where it was asked for', e.argl[0] == P(f, 0) or (None if e.argl[0] is None else False), e, '%s: into %s' % (what, e.argl[0]), v, {})
                a = e.args[1]
                al, st = mapped(v, s, a, N)
                if al is False:
                    ck.ob(R, False, e, '%s: %s' % (what, st), v, {})
                    continue
                if al is None:
                    known = narrow(g, cmp_('==', size(N), c(0)))
                    if a == ('seq',) and known is not None and narrow(g, cmp_('!=', size(N), c(0))) is None:
                        ck.ob(R, True, e, what, v, {})
                        continue
                ck.ob(R, True if st == want[(C, w)] else None if st is None and unknown(a) else None if st is None and a[0] in ('call', 'vmap') else False, e,
                      '%s: the tokens go through %s' % (what, st if st is not None else show(a)[:80]), v, {})
            ck.ob('both encodings are handled', True if n else False, f, '%s tokens are never accepted' % ('UTF-8' if w else 'local'), v, {})


def own(segs):
    return [s for s in segs if s.parent is None]


def chain(ck):
    """store: the mark for UTF-8 reaches the options, and is set exactly for wide results"""
    R = 'the encoding of the input is known to the option'
    for f in ck.fns('store', least=2):
        if len(f['ps']) == 3:
            v = ck.view(f, ['options_description::find', 'option_description::key', 'option_description::canonical_display_name'])
            n = 0
            for s, i, e in v.events('call'):
                if e.q.endswith('value_semantic::parse') and len(e.args) == 3:
                    n += 1
                    ck.ob(R, True if e.args[2] == In(P(f, 2)) else None if unknown(e.args[2]) else False, e, 'told %s' % show(e.args[2])[:40], v, {})
            ck.ob(R, True if n else None, f, 'no call that reads the tokens', v, {})
        else:
            v = ck.view(f, ['store'])
            for s in own(tops(v, 'ret')):
                cs = [e for e in s.evs if e.k == 'call' and e.q.endswith('::store') and len(e.args) == 3]
                if len(cs) != 1:
                    ck.ob(R, None, f, 'the narrow store is called %d times' % len(cs), v, {})
                    continue
                e = cs[0]
                ck.ob(R, e.args[2] == c(True) or (False if is_c(e.args[2]) else None), e, 'wide results: told %s' % show(e.args[2])[:40], v, {})
                ck.ob('a wide result is stored from its UTF-8 form', e.args[0] == infld(P(f, 0), 'utf8_encoded_options') or e.argl[0] == fld(P(f, 0), 'utf8_encoded_options') or (None if unknown(e.args[0]) else False), e, 'stores %s' % show(e.args[0])[:60], v, {})
                ck.ob('the map given is the one filled', e.argl[1] == P(f, 1) or (None if e.argl[1] is None else False), e, 'fills %s' % (e.argl[1],), v, {})
    for f in [x for x in ck.fns('store', least=2) if len(x['ps']) == 3]:
        d = f['ps'][2].get('d')
        while d and d.get('e'):
            d = d['e']
        k = d and d.get('k')
        val = d.get('v') if d and k in ('i', 'b') else None
        ck.ob(R, True if val in (0, False) and val is not None else None if d is None or val is None else False, f, 'narrow results: told %s unless said otherwise' % val, None, {})


def internal(ck):
    """what the parsers work on: narrow text as it is, wide text as UTF-8, element by element"""
    R = 'parsers read narrow text as given and wide text as UTF-8'
    for f in ck.fns('to_internal', least=4):
        v = ck.view(f, EIGHT)
        t = f['ps'][0]['t']
        want = ['to_utf8'] if 'wchar_t' in t else []
        N = In(P(f, 0))
        for s in own(tops(v, 'ret')):
            r = rv(v, s)
            if 'vector' in t:
                al, st = mapped(v, s, r, N)
                if al is False:
                    ck.ob(R, False, f, '%s text: %s' % ('wide' if want else 'narrow', st), v, {})
                    continue
            else:
                st = steps(r, N)
            ck.ob(R, True if st == want else None if st is None and (unknown(r) or r[0] in ('call', 'vmap')) else False, f, '%s text: gives %s' % ('wide' if want else 'narrow', show(r)[:80]), v, {})
    # the two readers of configuration lines and the command line use it
    for f in ck.fns('basic_command_line_parser::basic_command_line_parser', least=4):
        v = ck.view(f, ['to_internal', 'detail::cmdline::cmdline'])
        for s in own(tops(v, 'ret')):
            ct = [e for e in s.evs if e.k == 'ctor' and e.q.endswith('::cmdline::cmdline')] or calls(s.evs, 'detail::cmdline::cmdline')
            for e in ct:
                a = e.args[0]
                ok = a[0] == 'call' and a[1].endswith('::to_internal')
                narrow_ = 'wchar_t' not in f['cls']
                ck.ob('the command line is read through the same conversion', True if ok or narrow_ and not unknown(a) else None, e, 'reads %s' % show(a)[:60], v, {})


def facets(ck):
    """which conversion a function performs, and with what facet"""
    R = 'each conversion uses the facet its name says'
    tab = [('boost::from_utf8', 'in', UTF), ('boost::to_utf8', 'out', UTF), ('boost::from_local_8_bit', 'in', LOC), ('boost::to_local_8_bit', 'out', LOC),
           ('boost::from_8_bit', 'in', None), ('boost::to_8_bit', 'out', None)]
    for q, d, which in tab:
        for f in ck.fns(q):
            v = ck.view(f, [CONV])
            for s in own(tops(v, 'ret')):
                r = rv(v, s)
                cs = calls(s.evs, CONV)
                if len(cs) != 1 or r[0] != 'call' or not r[1].endswith('::convert'):
                    # an empty input may be answered at once
                    e = narrow(s.facts, neg(empty_of(In(P(f, 0)))))
                    ck.ob(R, True if e is None and r in (('str', ''), In(P(f, 0))) else False if not cs and not unknown(r) and e is not None and r[0] == 'str' else None, f, 'gives %s' % show(r)[:60], v, {})
                    continue
                e = cs[0]
                ck.ob(R, True if e.args[0] == In(P(f, 0)) else None if unknown(e.args[0]) else False, e, 'converts %s' % show(e.args[0])[:60], v, {})
                b = e.args[1]
                if b[0] != 'bind' or b[1][0] != 'fn':
                    ck.ob(R, None, e, 'conversion function %s' % show(b)[:60], v, {})
                    continue
                nm = b[1][1].split('::')[-1]
                ck.ob(R, nm == d if nm in ('in', 'out', 'unshift') else None, e, 'calls %s of the facet' % nm, v, {})
                args = b[2]
                ck.ob('the pieces are handed to the facet in order', tuple(args[1:]) == tuple(('ph', i) for i in range(1, 8)), e, 'argument order', v, {})
                fac = args[0][1] if args[0][0] == 'ptr' else args[0]
                if which is None:
                    ok = fac == P(f, 1) or (None if fac[0] != 'G' and unknown(fac) else False)
                elif which == UTF:
                    gt = [t for (n, t) in ck.p.globals if fac[0] == 'G' and n == fac[1]]
                    ok = True if any('utf8_codecvt_facet' in t for t in gt) else False if fac[0] in ('G', 'facet') or contains_facet(fac) else None
                else:
                    fc = fac if fac[0] == 'facet' else next((x for x in subterms(fac) if x and x[0] == 'facet'), None)
                    if fc is None:
                        ok = False if fac[0] == 'G' else None
                    else:
                        # the facet of the current global locale: a locale built without arguments
                        ok = FACET in str(fc[1]) and (True if fc[2] in (('new', 'std::locale'),) else None if unknown(fc[2]) else False)
                ck.ob(R, ok, e, '%s works with %s' % (q, show(fac)[:60]), v, {})
    ck.need(R, 12)


def contains_facet(t):
    return any(x and x[0] == 'facet' for x in subterms(t))


def pieces(ck, f):
    """convert(): the whole input in order, state carried on, failures reported, progress on every round"""
    RA, RE, RP, RS, RW = ('every converted piece is appended once, in order', 'an undecodable input is reported', 'every round makes progress',
                          'the conversion state is carried on', 'the whole input is converted')
    v = ck.view(f)
    S = In(P(f, 0))
    beg, stop = ('data', S), ('padd', ('data', S), size(S))
    levs = [(s, i, l) for s, i, l in loops(v) if any(e.k in ('icall', 'ext', 'call') and len(e.args) == 7 for it in l.iters for e in it.evs)]
    if not levs:
        ck.ob(RA, None, f, 'the conversion loop was not recognised', v, {})
        return
    seen = set()
    n = {}
    for s0, i0, lev in levs:
        if lev.id in seen:
            continue
        seen.add(lev.id)
        frm = None
        for it in lev.iters:
            ic = [e for e in it.evs if e.k in ('icall', 'ext', 'call') and len(e.args) == 7]
            if not ic:
                if it.kind in ('back',):
                    ck.ob(RW, None, f, 'a round without conversion', v, {})
                continue
            if len(ic) > 1:
                ck.ob(RA, None, ic[1], 'several conversions in one round', v, {})
                continue
            e = ic[0]
            st, fl, tl = e.argl[0], e.argl[3], e.argl[6]
            ck.ob(RS, True if st is not None and lev.havoc.get(st) is not None and e.args[0] == lev.havoc[st] else False if st is not None and e.args[0][0] in ('new', 'c') else None, e, 'state %s' % show(e.args[0])[:40], v, {})
            rt = st
            while rt is not None and rt[0] in ('fld', 'at', 'elem') and isinstance(rt[1], tuple):
                rt = rt[1]
            b0 = lev.base0.get(st) if st is not None else None
            ck.ob('each conversion starts in the initial state', False if rt is not None and rt[0] in ('G', 'g', 'S', 'static') else True if rt is not None and rt[0] in ('L', 'tmp', 'P') else None, e, 'state kept in %s' % (rt[0] if rt else '?'), v, {})
            ck.ob(RW, True if e.args[2] == stop else None if unknown(e.args[2]) or e.args[2][0] != 'padd' else False, e, 'converts up to %s' % show(e.args[2])[:60], v, {})
            if fl is not None and lev.havoc.get(fl) is not None:
                frm = (fl, lev.havoc[fl])
                b0 = lev.base0.get(fl)
                ck.ob(RW, True if b0 == beg else None if b0 is None or unknown(b0) else False, e, 'starts at %s' % (show(b0)[:40] if b0 else '?'), v, {})
                ck.ob(RW, True if e.args[1] == frm[1] else False if e.args[1] == beg else None, e, 'each round starts at %s' % show(e.args[1])[:40], v, {})
            else:
                ck.ob(RW, None, e, 'the position reached is not kept in a variable of the loop', v, {})
            outp = [t for k in it.facts for t in subterms(k) if t and t[0] == 'out' and t[2] == 6 and t[1] == ('icall' if e.k == 'icall' else e.q)] + \
                   [t for x in it.evs if x.k in ('mut', 'write') for t in subterms(x.val) if t and t[0] == 'out' and t[2] == 6]
            to = outp[0] if outp else None
            err = cmp_('==', e.res, c(ERR))
            clean = not any(x.k in ('call',) for x in it.evs if x is not e)
            g = narrow(it.facts, err)
            if g is not None and it.kind != 'throw':
                ck.ob(RE, False if clean else None, e, 'a conversion error goes on (%s)' % it.kind, v, {})
            if it.kind == 'throw' and not foreign(it):
                t, a = exc_in(it)
                ck.ob(RE, t is not None and 'logic_error' in t or None, e, 'reported as %s' % t, v, {})
                n['throw'] = 1
            if it.kind != 'back':
                if it.kind in ('brk', 'ret'):
                    ck.ob(RW, None, e, 'the loop is left early', v, {})
                continue
            n['back'] = 1
            ap = [x for x in it.evs if x.k == 'mut' and x.val[0] == 'cat']
            if to is None:
                ck.ob(RP, None if outp else False if not ap and clean else None, e, 'the output written is not looked at', v, {})
                continue
            ck.ob(RP, True if narrow(it.facts, cmp_('==', sub(to, e.args[6]), c(0))) is None or narrow(it.facts, cmp_('==', to, e.args[6])) is None else False if clean else None, e, 'a round that converts nothing is repeated', v, {})
            if fl is not None:
                en = end(v, it, fl)
                ck.ob(RW, True if en[0] == 'out' and en[2] == 3 else None if unknown(en) and en != lev.havoc.get(fl) else False, e, 'the next round starts at %s' % show(en)[:40], v, {})
            h = lev.havoc.get(ap[0].loc) if ap else None
            if len(ap) != 1 or h is None:
                ck.ob(RA, False if not ap and clean and not [x for x in it.evs if x.k == 'mut'] else None, e, 'the piece is appended %d times' % len(ap), v, {})
                continue
            val = ap[0].val
            want = ('sub', e.args[4], c(0), to)
            ok = val == cat(h, want) or val == ('cat', h, want)
            bad = val[0] == 'cat' and len(val) == 3 and (val[1] == h and val[2][0] == 'sub' and val[2][1] == e.args[4] and (val[2][2] != c(0) or is_c(val[2][3]) or val[2][3][0] == 'padd'))
            ck.ob(RA, True if ok else False if bad or val == ('cat', want, h) else None, ap[0], 'appends %s' % show(val)[:80], v, {})
        # how it ends
        for s in own(tops(v, 'ret')):
            r = rv(v, s)
            if not any(x.k == 'loop' and x.id == lev.id for x in s.evs):
                e0 = narrow(s.facts, neg(empty_of(S)))
                ck.ob(RW, True if e0 is None else None, f, 'returns without converting', v, {})
                continue
            ck.ob(RA, True if r[0] == 'phi' and r[1] == lev.id else None, f, 'returns %s' % show(r)[:40], v, {})
            b = lev.base0.get(r[2]) if r[0] == 'phi' and len(r) > 2 else None
            if b is not None:
                ck.ob(RA, b == ('str', '') or (None if unknown(b) else False), f, 'the result starts as %s' % show(b)[:40], v, {})
            if frm:
                ck.ob(RW, True if narrow(s.facts, cmp_('!=', frm[1], stop)) is None else None if unmentioned(s.facts, frm[1]) else False, f, 'input is left over', v, {})
    for k in ('back', 'throw'):
        ck.ob(RE if k == 'throw' else RA, True if k in n else None, f, 'no path', v, {})


ERR = 2         # std::codecvt_base::error


def unmentioned(facts, t):
    return not any(contains(k, t) for k in facts)


# ------------------------------------------------------------------------
def c25(ck):
    wide_result(ck)
    forwards(ck)


FIELDS = ('string_key', 'position_key', 'unregistered', 'case_insensitive')
LISTS = ('value', 'original_tokens')


def whole(ck, R, v, f, el, srcs, facts):
    """option el holds everything of (one of) srcs, texts converted from UTF-8"""
    for n in FIELDS:
        x = optfield(el, n)
        ck.ob(R, True if any(x == ('.', e, n) or x == infield(e, n) for e in srcs) else None if x is None or unknown(x) else False, f, '%s is %s' % (n, show(x)[:60] if x else 'not set'), v, facts)
    for n in LISTS:
        x = optfield(el, n)
        if x is None:
            ck.ob(R, None, f, '%s not set' % n, v, {})
            continue
        st, same_ = None, False
        if x[0] == 'vmap':
            same_ = any(x[1] in (('.', e, n), infield(e, n)) for e in srcs)
            st = steps(x[2], ('el',))
        if x == ('seq',):
            ok = True if any(narrow(facts, cmp_('!=', size(y), c(0))) is None for e in srcs for y in (('.', e, n), infield(e, n))) else False
        else:
            ok = True if same_ and st == ['from_utf8'] else None if unknown(x) or same_ and st is None else False
        ck.ob(R, ok, f, '%s is %s' % (n, show(x)[:60]), v, facts)


def infield(e, n):
    return ('in', ('fld', e[1], n)) if e[0] == 'in' else ('.', e, n)


def wide_result(ck):
    R = 'a wide result has the same options as the narrow one'
    rec = ck.rec('basic_option<char>') if False else None
    for f in [x for x in ck.fns('basic_parsed_options::basic_parsed_options', least=2) if 'wchar_t' in x['cls']]:
        v = ck.view(f, EIGHT)
        po = In(P(f, 0))
        for s in own(tops(v, 'ret')):
            for n, want in (('description', infld(P(f, 0), 'description')), ('m_options_prefix', infld(P(f, 0), 'm_options_prefix')), ('utf8_encoded_options', po)):
                e = end(v, s, fld(THIS, n))
                ck.ob(R, True if e == want else None if unknown(e) else False, f, '%s is %s' % (n, show(e)[:60]), v, {})
            o = end(v, s, fld(THIS, 'options'))
            src = infld(P(f, 0), 'options')
            if o[0] == 'phi':
                # several kinds of rounds: look at each
                for l in [e for e in s.evs if e.k == 'loop' and e.id == o[1]]:
                    els = iter_of(l, src)
                    for it in l.iters:
                        if foreign(it) or it.kind == 'throw':
                            continue
                        ms = [e for e in it.evs if e.k == 'mut' and e.loc == fld(THIS, 'options')]
                        if it.kind != 'back' or not ms:
                            ck.ob(R, False if deepclean(it.facts) and (els or it.kind != 'back') else None, f, 'an option is left out', v, {})
                        elif ms[0].val[0] == 'push' and els and ms[0].val[1] == l.havoc.get(ms[0].loc):
                            whole(ck, R, v, f, ms[0].val[2], els, it.facts)
                continue
            if o[0] != 'vmap' or o[1] != src:
                al = mapped(v, s, o, src)[0]
                ck.ob(R, False if al is False else None if unknown(o) or o[0] in ('vmap', 'in') else False, f, 'options are %s' % show(o)[:80], v, {})
                continue
            whole(ck, R, v, f, o[2], [('el',)], {})
    for f in [x for x in ck.fns('basic_option::basic_option')]:
        v = ck.view(f)
        for s in own(tops(v, 'ret')):
            for n, want in (('position_key', c(-1)), ('unregistered', c(False)), ('case_insensitive', c(False))):
                e = end(v, s, fld(THIS, n))
                ck.ob('a new option is empty, without position and known', True if e == want else None if unknown(e) else False, f, '%s is %s' % (n, show(e)[:40]), v, {})
    ck.need(R, 9)


CL = 'basic_command_line_parser::'


def forwards(ck):
    """the parser front end hands everything it is told to the engine, for both character types"""
    R = 'everything the parser is told reaches the command line engine'
    own_desc = 'm_desc@basic_command_line_parser'
    tab = [('options', [(fld(THIS, 'm_desc'), 'ptr'), (fld(THIS, own_desc), 'ptr')]), ('positional', [(fld(THIS, 'm_positional'), 'ptr')]),
           ('extra_parser', [(fld(THIS, 'm_additional_parser'), 'val')]), ('extra_style_parser', [(fld(THIS, 'm_style_parser'), 'val')]),
           ('allow_unregistered', [(fld(THIS, 'm_allow_unregistered'), True)])]
    for q, ls in tab:
        for f in ck.fns(CL + q, least=2):
            v = ck.view(f)
            for s in own(tops(v, 'ret')):
                for loc, k in ls:
                    e = end(v, s, loc)
                    want = ('ptr', P(f, 0)) if k == 'ptr' else In(P(f, 0)) if k == 'val' else c(True)
                    ok = e == want or k == 'ptr' and e == In(P(f, 0))
                    ck.ob(R, True if ok else None if unknown(e) and e != In(loc) else False, f, '%s: %s is %s' % (q, loc[2], show(e)[:40]), v, {})
                others = [e for e in flat_evs(s.evs) if e.k in ('write', 'mut') and under(e.loc, THIS) and not any(under(e.loc, l) or e.loc == l for l, k in ls)]
                ck.ob(R, not others, others[0] if others else f, '%s also changes %s' % (q, others[0].loc if others else ''), v, {})
    for f in ck.fns(CL + 'style', least=2):
        v = ck.view(f, ['detail::cmdline::style'])
        for s in own(tops(v, 'ret')):
            cs = calls(s.evs, 'detail::cmdline::style')
            ok = len(cs) == 1 and cs[0].args == (In(P(f, 0)),)
            ck.ob(R, True if ok else False if not cs and not [e for e in s.evs if e.k in ('write', 'mut')] or len(cs) == 1 and not unknown(cs[0].args[0]) else None, f, 'style: passes %s' % [show(a)[:30] for e in cs for a in e.args], v, {})
    # construction: all arguments but the program name
    RC = 'all arguments are taken, without the program name'
    for f in ck.fns(CL + 'basic_command_line_parser', least=4):
        v = ck.view(f, ['to_internal', 'detail::cmdline::cmdline'])
        for s in own(tops(v, 'ret')):
            m = end(v, s, fld(THIS, own_desc))
            ck.ob('no description at first', True if m in (('null',), c(0)) else None if unknown(m) or m[0] == 'in' else False, f, 'description %s' % show(m)[:40], v, {})
            ct = [e for e in s.evs if e.k == 'ctor' and e.q.endswith('::cmdline::cmdline')] or calls(s.evs, 'detail::cmdline::cmdline')
            if len(ct) != 1:
                ck.ob(RC, None, f, 'construction of the engine', v, {})
                continue
            a = ct[0].args[0]
            if a[0] == 'call' and a[1].endswith('::to_internal'):
                a = a[2]
            if len(f['ps']) == 1:
                ck.ob(RC, True if a == In(P(f, 0)) else None if unknown(a) else False, f, 'takes %s' % show(a)[:60], v, {})
                continue
            n, mem = In(P(f, 0)), ('mem', In(P(f, 1)))
            if a[0] == 'sub' and a[1][0] == 'mem':
                for g in [narrow(s.facts, cmp_('>=', n, c(1)), tobool(n))]:
                    if g is not None:
                        ck.ob(RC, a[2] == c(1) and (a[3] == n), f, 'takes %s' % show(a)[:60], v, {})
                for g in [narrow(s.facts, cmp_('==', n, c(0)), neg(tobool(n)))]:
                    if g is not None:
                        ck.ob(RC, same(sub(a[3], a[2]), c(0), ()) is True or a[2] == c(0) and a[3] == n or (None if unknown(a) else False), f, 'without arguments takes %s' % show(a)[:60], v, {})
            else:
                z = narrow(s.facts, cmp_('!=', n, c(0)), tobool(n))
                ck.ob(RC, True if z is None and a == ('seq',) else None, f, 'takes %s' % show(a)[:60], v, {})
    RR = 'a run delivers what the engine found, with the description and prefix used'
    for f in ck.fns(CL + 'run', least=2):
        v = ck.view(f, ['detail::cmdline::run', 'detail::cmdline::get_canonical_option_prefix'] + EIGHT)
        for s in own(tops(v, 'ret')):
            r = rv(v, s)
            if 'wchar_t' in f['cls']:
                u = optfield(r, 'utf8_encoded_options')
                if u is None:
                    ck.ob(RR, None, f, 'wide result not recognised', v, {})
                    continue
                for n in ('description', 'm_options_prefix'):
                    a, b = optfield(r, n), optfield(u, n)
                    ck.ob(RR, True if a is not None and a == b else None if a is None or b is None or unknown(a) else False, f, 'wide %s is %s' % (n, show(a)[:40] if a else '?'), v, {})
                r = u
            got = {n: optfield(r, n) for n in ('options', 'description', 'm_options_prefix')}
            cr, cp = calls(s.evs, 'detail::cmdline::run'), calls(s.evs, 'detail::cmdline::get_canonical_option_prefix')
            o = got['options']
            ck.ob(RR, True if o is not None and len(cr) == 1 and o == cr[0].res else False if not cr or o is not None and not unknown(o) else None, f, 'options are %s' % (show(o)[:60] if o else '?'), v, {})
            d = got['description']
            ck.ob(RR, True if d in (infld(THIS, own_desc), infld(THIS, 'm_desc')) else None if d is None or unknown(d) else False, f, 'description is %s' % (show(d)[:60] if d else '?'), v, {})
            p = got['m_options_prefix']
            ck.ob(RR, True if p is not None and cp and p == cp[-1].res else None if p is None or unknown(p) or p[0] == 'in' else False, f, 'prefix is %s' % (show(p)[:60] if p else '?'), v, {})
    for f in [x for x in ck.fns('parse_command_line', least=2)]:
        v = ck.view(f, ['to_internal', 'detail::cmdline::style', CL + 'run'])
        for s in own(tops(v, 'ret')):
            ct = [e for e in s.evs if e.k == 'ctor' and e.q.endswith('::basic_command_line_parser')]
            st, rn = calls(s.evs, 'detail::cmdline::style'), [e for e in s.evs if e.k == 'call' and e.q.endswith('parser::run')]
            if len(rn) != 1:
                ck.ob(R, None, f, 'parser not run exactly once', v, {})
                continue
            obj = rn[0].obj
            at_ = lambda n: end(v, s, fld(obj, n))
            for e in ct:
                ck.ob(R, True if tuple(e.args) == (In(P(f, 0)), In(P(f, 1))) else None if any(unknown(a) for a in e.args) else False, e, 'parses %s' % [show(a)[:20] for a in e.args], v, {})
            ck.ob(R, True if len(st) == 1 and st[0].args == (In(P(f, 3)),) else False if not st or not unknown(st[0].args[0]) else None, f, 'style %s' % [show(a)[:30] for e in st for a in e.args], v, {})
            ws = {e.loc[2]: e.val for e in s.evs if e.k == 'write' and e.loc[0] == 'fld' and e.loc[1] == obj}
            ck.ob(R, True if ws.get('m_additional_parser') == In(P(f, 4)) else False if 'm_additional_parser' not in ws else None, f, 'extra parser not set', v, {})
            for n in ('m_desc', own_desc):
                ck.ob(R, True if ws.get(n) == ('ptr', P(f, 2)) else False if n not in ws else None, f, 'description not set', v, {})
            ck.ob(R, True if contains(rv(v, s), rn[0].res) else None, f, 'returns %s' % show(rv(v, s))[:40], v, {})
