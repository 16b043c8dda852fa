"""options_description / option_description: name resolution, naming, grouping (C07, C36, C29)"""
from .dsl import *
from .auto import LoopAuto, folding

FULL, APPROX, NO = 1, 2, 0


class Match(object):
    """option_description::match under one setting of its three flags"""
    def __init__(self, ck):
        f = self.f = ck.fn('option_description::match')
        self.v = ck.view(f)
        od = ck.rec('option_description')
        self.names = infld(THIS, ck.field(od, 'm_long_names', lambda t: 'vector<' in t))
        self.short = infld(THIS, 'm_short_name')
        self.O = In(P(f, 0))
        self.flags = [tobool(In(P(f, i))) for i in (1, 2, 3)]


def match_table(ck):
    global FULL, APPROX, NO
    FULL, APPROX, NO = ck.enum('full_match'), ck.enum('approximate_match'), ck.enum('no_match')
    M = Match(ck)
    v, f = M.v, M.f
    top = [s for s in v.segs() if s.parent is None]
    rets = [s for s in top if s.kind == 'ret']
    nl = lambda s: [(i, e) for i, e in enumerate(s.evs) if e.k == 'loop' and any(contains(k, el) for el in iter_of(e, M.names) for it in e.iters for k in it.facts)
                    and any(contains(k, size(M.names)) for it in e.iters for k in it.facts)]
    for s in top:
        if s.kind == 'throw':
            ck.ob('matching never fails', False, f, 'match() throws', v, s.facts)
    for appr in (True, False):
        for lic in (True, False):
            for sic in (True, False):
                asm = [M.flags[0] if appr else neg(M.flags[0]), M.flags[1] if lic else neg(M.flags[1]), M.flags[2] if sic else neg(M.flags[2])]
                LO = lower(M.O) if lic else M.O
                SO = lower(M.O) if sic else M.O
                SN = lower(M.short) if sic else M.short
                seq_ = eq(SN, SO)

                def ghost(seg, facts, g, lev=None):
                    return [g]
                for s in rets:
                    if not compatible(s.facts, asm):
                        continue
                    ls = nl(s)
                    tag = 'approx=%d long_ic=%d short_ic=%d' % (appr, lic, sic)
                    if len(ls) != 1:
                        if len(ls) == 0:
                            ck.ob('long names are consulted', False if s.val[0] == 'c' and not v.dirty and can(s.facts, neg(seq_), cmp_('>=', size(M.names), c(1))) else None, f, 'match() returns without looking at the long names (%s)' % tag, v, s.facts)
                        else:
                            ck.ob('long names are consulted', None, f, 'several loops over the names', v)
                        continue
                    i, lev = ls[0]
                    els = [t for t in iter_of(lev, M.names)]
                    if not els:
                        ck.ob('long names are consulted', None, f, 'loop form not recognised', v)
                        continue
                    N = els[0]
                    LN = lower(N) if lic else N
                    full = eq(LN, LO)
                    star = cmp_('==', at(N, sub(size(N), c(1))), c(42))
                    wildp = prefix(LO, substr(LN, c(0), sub(size(LN), c(1))))
                    pre = prefix(LN, LO)

                    def ghost(seg, facts, g):
                        out = set()
                        for d, _ in splits(facts, [empty_of(N), full]):
                            if d[empty_of(N)]:
                                out.add(g)
                                continue
                            if d[full]:
                                out.add('full')
                                continue
                            atoms = [star, wildp] + ([pre] if appr else [])
                            base = facts
                            for a, w in d.items():
                                r = assume(base, a, w)
                                if not r:
                                    base = None
                                    break
                                base = r[0]
                            if base is None:
                                continue
                            for d2, _ in splits(base, atoms):
                                if (d2[star] and d2[wildp]) or (appr and d2[pre]):
                                    out.add(g if g == 'full' else 'approx')
                                else:
                                    out.add(g)
                        return out
                    key = (lev.id, tag)
                    au = LoopAuto(v, lev, 'none', ghost, assume_=asm)
                    ck.ob('every long name is compared', None if au.dirty or not au.cleanf(s.facts) else cover(v, s, i, lev, M.names, au, 'full'), lev, 'the comparison visits all long names unless an exact match was found (%s)' % tag, v)
                    how, gs = au.after(s, i)
                    for env, g in gs:
                        for d, _ in splits(au.with_(s.facts, au.assumes(env) + asm), [seq_]):
                            want = FULL if g == 'full' or d[seq_] else APPROX if g == 'approx' else NO
                            got = au.absval(s.val, None, env, None)
                            got = got[1] if got and got[0] == 'c' else None
                            ck.ob('exact beats abbreviation and wildcard', None if got is None or au.dirty or not au.cleanf(s.facts) else got == want, f,
                                  'with %s, names %s, short name %s: result %s, expected %s' % (tag, g, 'equal' if d[seq_] else 'different', got, want), v)


def cover(view, seg, i, lev, seqv, au, okg):
    """lev visits every element of seqv, except that it may stop early once the ghost is okg"""
    res = None
    for loc, t in loop_ix(lev):
        if t[2] is None or t[1][3] != 1:
            if t[1][3] not in (1, 0) and any(contains(k, at(seqv, t)) for it in lev.iters for k in it.facts):
                return False
            continue
        if not any(contains(k, t) for it in lev.iters for k in it.facts):
            continue
        for e in exits_of(view, lev):
            d = ival(e.facts, sub(t, size(seqv)))
            if d[0] is not None and d[0] >= 0:
                if t[2] == 0:
                    res = True if res is None else res
                else:
                    return False
            else:
                # ended by another condition: fine when okg holds then
                how, gs = au.after(seg, i)
                if gs and all(g == okg for env, g in gs):
                    res = True if res is None else res
                else:
                    return False if clean(e.facts) else None
    if any(e.k in ('brk', 'leave') and e.id == lev.id for e in seg.evs[i:]):
        how, gs = au.after(seg, i)
        if gs and all(g == okg for env, g in gs):
            return True if res is None else res
        # left early: only allowed when the ghost says so
        bad = any(clean({k: v for k, v in seg.facts.items() if k[0] != 'phi'}) for env, g in gs if g != okg)
        return False if bad else None
    return res


def od_options(ck):
    return ck.field(ck.rec('options_description'), 'm_options', lambda t: 'vector<' in t and 'option_description' in t)


def find_rules(ck):
    f = ck.fn('options_description::find_nothrow')
    v = ck.view(f, ['option_description::match', 'option_description::key'])
    opts = infld(THIS, od_options(ck))
    name = In(P(f, 0))
    top = [s for s in v.segs() if s.parent is None]
    mcalls = [(s, i, e) for s, i, e in v.events('call') if e.q == NS + 'option_description::match']
    lids = {s.loop.id for s in v.segs() if s.loop is not None and s.kind != 'alt' and calls(s.evs, 'option_description::match')}
    if len(lids) != 1:
        ck.ob('every described option is compared', None if mcalls or v.dirty else False, f, 'one loop compares the name with the described options', v)
        return
    lid = lids.pop()
    for s, i, e in mcalls:
        ok = e.args[0] == name and [tobool(x) for x in e.args[1:4]] == [tobool(In(P(f, j))) for j in (1, 2, 3)]
        ck.ob('lookup settings are passed on unchanged', ok, e, 'name, guessing and both case settings reach the comparison', v, e.facts)

    def D(it_facts, evs):
        for e in evs:
            if e.k == 'call' and e.q == NS + 'option_description::match' and e.oterm is not None:
                return e
        return None

    def cls(facts, evs):
        e = D(facts, evs)
        if e is None:
            return None
        return [k for k in (FULL, APPROX, NO) if compatible(facts, [cmp_('==', e.res, c(k))])]

    def ghost(seg, facts, g):
        ks = cls(facts, flat_evs(seg.evs))
        out = set()
        for k in ks if ks is not None else (NO,):
            nf, na = g
            out.add((min(2, nf + (k == FULL)), min(2, na + (k == APPROX))))
        return out

    def label(t, it):
        if it is None or t[0] in ('push', 'seq', 'phi', 'c', 'null'):
            return None
        e = D(it.facts, flat_evs(it.evs))
        if e is None:
            return None
        for x in (e.oterm, ('ptr', ('deref', e.oterm))):
            if t == x or (t[0] in ('get', 'ptr', 'deref', 'call') and contains(t, e.oterm)):
                ks = cls(it.facts, flat_evs(it.evs))
                return 'full' if ks == [FULL] else 'approx' if ks == [APPROX] else 'none' if ks == [NO] else 'mixed'
        return None
    done = 0
    for s in top:
        pos = [(i, e) for i, e in enumerate(s.evs) if e.k == 'loop' and e.id == lid]
        if not pos:
            if s.kind == 'ret':
                ck.ob('every described option is compared', can(s.facts, cmp_('==', size(opts), c(0))) and must(s.facts, cmp_('==', size(opts), c(0))) or None, f, 'returns without comparing', v, s.facts)
            continue
        i, lev = pos[0]
        if foreign(s):
            continue
        au = LoopAuto(v, lev, (0, 0), ghost, label)
        okd = not au.dirty and au.cleanf(s.facts)
        ck.ob('every described option is compared', walks(v, s, i, lev, opts, ordered=False) if okd else None, lev, 'the search visits every described option', v)
        how, gs = au.after(s, i)
        for env, g in gs:
            nf, na = g
            amb = nf >= 2 or (nf == 0 and na >= 2)
            done += 1
            if amb:
                ck.ob('ambiguity is reported', (throws(s, 'ambiguous_option') if okd else None), f, '%d exact and %d approximate candidates: must throw ambiguous_option, got %s' % (nf, na, s.kind), v)
                if throws(s, 'ambiguous_option'):
                    alternatives(ck, v, s, lev, FULL if nf >= 2 else APPROX, D, name, okd)
                continue
            if s.kind == 'throw':
                ck.ob('a unique candidate is no error', False if okd else None, f, '%d exact and %d approximate candidates: throws %s' % (nf, na, s.val), v)
                continue
            a = au.absval(s.val, None, env, None)
            if a is None and s.val[0] in ('ptr', 'get', 'deref'):
                for t in subterms(s.val):
                    if t in au.byhead:
                        a = env[au.byhead[t]]
            want = 'full' if nf else 'approx' if na else 'null'
            got = a[1] if a and a[0] == 'l' else None
            ck.ob('the best candidate is returned', None if got is None or not okd or got == 'mixed' else got == want, f, '%d exact and %d approximate candidates: returns %s, expected %s' % (nf, na, got, want), v)
    ck.need('the best candidate is returned', 3)
    f = ck.fn('options_description::find')
    v = ck.view(f, ['options_description::find_nothrow'])
    for s in v.segs():
        if s.parent is not None:
            continue
        cs = calls(s.evs, 'options_description::find_nothrow')
        ok = len(cs) == 1 and [x for x in cs[0].args] == [In(P(f, j)) for j in range(4)]
        ck.ob('find() uses the same resolution', ok if cs else None, f, 'find() passes its arguments on to the search', v, s.facts)
        if not cs or foreign(s):
            continue
        r = cs[0].res
        if can(s.facts, isnull(r)):
            ck.ob('find() reports unknown names', throws(s, 'unknown_option'), f, 'nothing found: unknown_option', v, s.facts)
        if can(s.facts, neg(isnull(r))):
            val = s.val.loc if isinstance(s.val, LV) else s.val
            ck.ob('find() returns what was found', s.kind == 'ret' and contains(val, r), f, 'the description found is returned', v, s.facts)


def alternatives(ck, v, s, lev, cl, D, name, okd):
    t, args = exc_in(s)
    if not args:
        ck.ob('candidates are listed', None, s.path.fn if False else v.fn, 'candidate list not identified', v)
        return
    a = args[0]
    if a[0] != 'phi' or a[1] != lev.id:
        ck.ob('candidates are listed', None, v.fn, 'candidate list not identified', v)
        return
    for it in lev.iters:
        if it.kind != 'back':
            continue
        e = D(it.facts, flat_evs(it.evs))
        if e is None:
            continue
        for k in (FULL, APPROX, NO):
            if not compatible(it.facts, [cmp_('==', e.res, c(k))]):
                continue
            val = it.st.store.get(a[2], a)
            key = ('call', NS + 'option_description::key', e.oterm, name)
            if k == cl:
                ok = val[0] == 'push' and val[1] == a and contains(val[2], key) if val[0] == 'push' or val == a else None
                ck.ob('candidates are listed', ok if okd else None, lev, 'each %s candidate contributes its key to the reported alternatives' % ('exact' if k == FULL else 'approximate'), v)
            else:
                ck.ob('only candidates are listed', (val == a) if okd else None, lev, 'other options are not among the reported alternatives', v)


def c07(ck):
    for f in ck.p.funcs.values():
        if '/options_description.' in f['f'] and any(x.get('k') in ('call', 'Call') or x.get('q') for x in walk(f['b']) if str(x.get('q', '')).split('::')[-1] in ('tolower', 'towlower')):
            folding(ck, 'case folding changes letter case only', f, ck.view(f))
    match_table(ck)
    find_rules(ck)


def names_of(ck):
    od = ck.rec('option_description')
    return fld(THIS, ck.field(od, 'm_long_names', lambda t: 'vector<' in t)), fld(THIS, 'm_short_name')


def c36(ck):
    NL, SN = names_of(ck)
    # the names string
    done = 0
    for f in ck.fns('option_description::option_description'):
        if len(f['ps']) < 2 or 'char' not in f['ps'][0]['t']:
            continue
        v = ck.view(f)
        for s in tops(v, 'ret'):
            lv = [(i, e) for i, e in enumerate(s.evs) if e.k == 'loop']
            heads = [(e, ('phi', e.id, loc)) for i, e in lv for loc, x in e.havoc.items() if x == ('phi', e.id, loc)
                     and any(t and t[0] == 'tokline' for it in e.iters for t in subterms(it.st.store.get(loc, ('c', 0))))]
            heads = [h for h in heads if any(it.st.store.get(h[1][2], ('c', 0))[0] == 'push' for it in h[0].iters)]
            if len(heads) != 1:
                ck.ob('names are split at commas', None, f, 'the loop splitting the names was not recognised', v)
                continue
            lev, L = heads[0]
            done += 1
            for it in lev.iters:
                if it.kind != 'back':
                    continue
                x = it.st.store.get(L[2])
                ok = x is not None and x[0] == 'push' and x[1] == L and x[2][0] == 'tokline' and x[2][2] == c(ord(','))
                ck.ob('names are split at commas', ok if x is not None and x[0] in ('push', 'phi') else None, lev, 'each piece between commas becomes one name', v, None)
            last = at(L, sub(size(L), c(1)))
            short_ = cmp_('==', size(last), c(1))
            n = size(L)
            nl, sn = end(v, s, NL), end(v, s, SN)
            fs = s.facts
            for d, g in splits(fs, [cmp_('>=', n, c(2)), short_]):
                two, one = d.values()
                own = base_only(fs, L)
                if two and one:
                    ck.ob('a final one-letter name is the short name', own and same_or(sn, cat(('str', '-'), last), cat(('str', '-'), ('chr', at(last, c(0))))), f, 'the short name is the last name with a dash', v)
                    for d2, g2 in splits(g, [cmp_('==', n, c(2)), empty_of(at(L, c(0)))]):
                        if all(d2.values()):
                            ck.ob('",c" declares a short name only', own and (ival(g2, size(nl))[1] == 0), f, 'no long name is left over', v)
                        else:
                            ck.ob('the short name is not a long name', own and (nl == substr(L, c(0), sub(n, c(1)))), f, 'the remaining names are the long names', v)
                elif not (two and one):
                    z = ival(g, n)
                    if z[1] is not None and z[1] <= 0:
                        continue
                    ck.ob('other names are long names', own and (nl == L and (sn == In(SN) or ival(g, size(sn))[1] == 0 or sn == ('str', ''))), f, 'without a final one-letter name all names are long names', v)
    ck.need('names are split at commas')
    nl, sn = In(NL), In(SN)
    none = cmp_('==', size(nl), c(0))
    f = ck.fn('option_description::key')
    v = ck.view(f)
    star = ('found', ('find', at(nl, c(0)), ('str', '*'), c(0)))
    T_ = Table(ck, v, 'storage name', f, [nl, sn, In(P(f, 0))])
    T_.case('no long name: the short name', [none], lambda s, g: same(rv(v, s), sn))
    T_.case('plain first long name', [neg(none), neg(star)], lambda s, g: same(rv(v, s), at(nl, c(0))))
    T_.case('wildcard name: the spelling used', [neg(none), star], lambda s, g: same(rv(v, s), In(P(f, 0))))
    T_.run()
    f = ck.fn('option_description::canonical_display_name')
    v = ck.view(f)
    st = In(P(f, 0))
    two = cmp_('==', size(sn), c(2))
    T_ = Table(ck, v, 'display name', f, [nl, sn, st])
    L0 = at(nl, c(0))
    sh = ('chr', at(sn, c(1)))
    al, ad, sl, da = [cmp_('==', st, c(ck.enum(x))) for x in ('allow_long', 'allow_long_disguise', 'allow_slash_for_short', 'allow_dash_for_short')]
    T_.case('long style', [neg(none), al], lambda s, g: same(rv(v, s), cat(('str', '--'), L0)))
    T_.case('disguised long style', [neg(none), ad], lambda s, g: same(rv(v, s), cat(('str', '-'), L0)))
    T_.case('slash style', [two, sl], lambda s, g: same(rv(v, s), cat(('str', '/'), sh)))
    T_.case('dash style', [two, da], lambda s, g: same_or(rv(v, s), cat(('str', '-'), sh), sn))
    T_.case('no style, long name', [neg(none), neg(al), neg(ad), neg(sl), neg(da)], lambda s, g: same(rv(v, s), L0))
    T_.case('no style, short name only', [none, neg(al), neg(ad), neg(sl), neg(da)], lambda s, g: same(rv(v, s), sn))
    T_.case('short name missing', [neg(none), neg(al), neg(ad), neg(two)], lambda s, g: same(rv(v, s), L0))
    T_.run()
    f = ck.fn('option_description::format_name')
    v = ck.view(f)
    hs = neg(empty_of(sn))
    T_ = Table(ck, v, 'help name', f, [nl, sn])
    T_.case('short name only', [hs, none], lambda s, g: same(rv(v, s), sn))
    T_.case('short and long name', [hs, neg(none)], lambda s, g: same(rv(v, s), cat(sn, ('str', ' [ --'), L0, ('str', ' ]'))))
    T_.case('long name only', [neg(hs), neg(none)], lambda s, g: same(rv(v, s), cat(('str', '--'), L0)))
    T_.run()
    f = ck.fn('option_description::format_parameter')
    v = ck.view(f, ['value_semantic::max_tokens', 'value_semantic::name'])
    for s in tops(v, 'ret'):
        cs = calls(s.evs, 'value_semantic::max_tokens')
        if not cs:
            r = rv(v, s)
            nobody = not any(calls(x.evs, 'value_semantic::max_tokens') for x in v.segs()) and not foreign(s)
            ck.ob('parameter text', False if nobody and (same(r, ('str', '')) is True or any(r == e.res for e in calls(s.evs, 'value_semantic::name'))) else None, f, 'whether the option can take a value is not consulted', v)
            continue
        z = cmp_('==', cs[0].res, c(0))
        nm = calls(s.evs, 'value_semantic::name')
        if can(s.facts, z):
            ck.ob('options without value show no parameter', same(rv(v, s), ('str', '')), f, 'no value: empty parameter', v, s.facts)
        if can(s.facts, neg(z)):
            ck.ob('options with value show the value name', bool(nm) and same(rv(v, s), nm[-1].res), f, 'value name of the semantic', v, s.facts)
    for q, want in (('option_description::description', 'm_description'), ('option_description::semantic', 'm_value_semantic')):
        f = ck.fn(q)
        v = ck.view(f)
        for s in tops(v, 'ret'):
            ck.ob('accessors report the declaration', same(rv(v, s), infld(THIS, want)), f, '%s() returns the stored member' % q, v, s.facts)
    for q in ('option_description::long_name', 'option_description::long_names'):
        f = ck.opt(q)
        v = ck.view(f) if f else None
        for s in tops(v, 'ret') if f else []:
            r = rv(v, s)
            some = not can(s.facts, none)
            if q.endswith('::long_name') and some:
                ck.ob('accessors report the declaration', True if r == L0 else False if r[0] == 'at' and r[1] == nl or r == sn else None, f, 'long_name() is the first long name: %s' % show(r)[:60], v, s.facts)
            elif r[0] == 'pair' and some:
                ok = show(r[1]) == 'ptr(%s)' % show(L0) or None
                ck.ob('accessors report the declaration', ok, f, 'long_names() begins with the first one: %s' % show(r[1])[:60], v, s.facts)
                ok = narrow(s.facts, cmp_('!=', r[2], size(nl))) is None
                ck.ob('accessors report the declaration', True if ok else False if not any(x and x[0] in ('phi', 'unk', 'out') for x in subterms(r[2])) else None, f, 'long_names() reports %s names' % show(r[2])[:60], v, s.facts)
    for f in ck.fns('option_description::option_description'):
        v = ck.view(f)
        ps = [p['n'] for p in f['ps']]
        if len(ps) < 2:
            continue
        for s in tops(v, 'ret'):
            src = [x for e in s.evs if e.k == 'loop' for x in e.base0.values() if x is not None and contains(x, In(P(f, 0)))]
            ck.ob('constructor uses the names given', True if src else None, f, 'the names string given is the one that is split', v)
            sem = end(v, s, fld(THIS, 'm_value_semantic'))
            ck.ob('constructor keeps the semantic', contains(sem, In(P(f, 1))) or None if sem[0] in ('in', 'phi', 'out') else contains(sem, In(P(f, 1))), f, 'the semantic given is the one reported', v, s.facts)
            if len(ps) > 2:
                ds = end(v, s, fld(THIS, 'm_description'))
                ck.ob('constructor keeps the description', contains(ds, In(P(f, 2))), f, 'the description given is the one reported', v, s.facts)


def base_only(facts, L):
    """facts mention no other forgotten value than L"""
    for k in facts:
        for x in subterms(k):
            if x and x[0] == 'phi' and x != L and x[2][0] == 'L' and not (k[0] in ('b', 'not') and contains(k, ('streamok',))):
                if not any(y and y[0] == 'streamok' for y in subterms(k)):
                    return None
    return True


def same_or(a, *bs):
    rs = [same(a, b) for b in bs]
    return True if True in rs else None if None in rs else False


def od_names(ck):
    od = ck.rec('options_description')
    return (od_options(ck), ck.field(od, 'belong_to_group', lambda t: 'vector<' in t and 'bool' in t or t == 'std::vector<char>'),
            ck.field(od, 'groups', lambda t: 'vector<' in t and 'options_description' in t))


def grown(old, new):
    """elements new has in addition to old (a push chain), or None"""
    out = []
    while new != old:
        if new[0] == 'push':
            out.append(new[2])
            new = new[1]
        elif new[0] == 'mutel' or (new[0] == 'mut' and False):
            return None
        else:
            return None
    return out[::-1]


def c29(ck):
    mo, bg, gr = od_names(ck)
    OPT, BEL, GRP = [infld(THIS, x) for x in (mo, bg, gr)]
    f = ck.fn('options_description::print')
    FD = '(anon)::format_description'
    has_fd = bool(ck.p.fns(FD))
    v = ck.view(f, [FD, 'option_description::format_name', 'option_description::format_parameter', 'options_description::get_option_column_width'], **({} if has_fd else {'merge_at': 8}))
    os_ = P(f, 0)
    width = In(P(f, 1))

    def outs(evs):
        return [e for e in flat_evs(evs) if e.k == 'out' and e.loc == os_]
    # every way through the loop over own options
    lids, glids = {}, {}
    for s, i, lev in loops(v):
        for loc, t in loop_ix(lev):
            for it in lev.iters:
                for e in it.evs:
                    if e.k == 'call' and e.q.endswith('::format_name') and e.oterm is not None and contains(e.oterm, at(OPT, t)):
                        lids[lev.id] = t
                    if e.k == 'call' and e.q.endswith('options_description::print') and e.oterm is not None and contains(e.oterm, at(GRP, t)):
                        glids[lev.id] = t
    ck.ob('own options are listed', bool(lids) or None, f, 'a loop prints the own options', v)
    ck.ob('groups are listed', bool(glids) or (None if v.dirty or any(e.k == 'call' and 'print' in e.q for s in v.segs() for e in s.evs) else False), f, 'a loop prints the groups', v)
    for s in v.segs():
        if s.loop is None or s.kind == 'alt':
            continue
        if s.loop.id in lids and s.kind in ('back', 'brk'):
            t = lids[s.loop.id]
            B = tobool(at(BEL, t))
            fn_ = [e for e in flat_evs(s.evs) if e.k == 'call' and e.q.endswith('::format_name')]
            fp_ = [e for e in flat_evs(s.evs) if e.k == 'call' and e.q.endswith('::format_parameter')]
            if s.kind == 'brk':
                ck.ob('no option is left out', False, s.loop, 'the listing stops early', v, s.facts)
                continue
            if can(s.facts, neg(B)):
                ok = len(fn_) == 1 and contains(fn_[0].oterm, at(OPT, t))
                ck.ob('every own option is listed once', ok, s.loop, 'an option not belonging to a group is printed once, under its own name', v, s.facts)
                ck.ob('the parameter is shown', len(fp_) == 1 and contains(fp_[0].oterm, at(OPT, t)), s.loop, 'its value name is printed', v, s.facts)
                if fn_:
                    os = [e for e in flat_evs(s.evs) if e.k == 'out' and contains(e.val, fn_[0].res)]
                    ck.ob('the name reaches the output', bool(os) and bool(outs(s.evs)), s.loop, 'the formatted name is written', v, s.facts)
                D_ = infld(('deref', at(OPT, t)), 'm_description')
                d = [(k, val) for k, val in s.facts.items() if k == ('size', D_)]
                dd = [e for e in flat_evs(s.evs) if e.k == 'call' and e.q.endswith('::format_description')]
                if has_fd and d:
                    k = d[0][0]
                    if can(s.facts, cmp_('>=', k, c(1))):
                        ck.ob('the description is shown', len(dd) == 1 and dd[0].args[1] == k[1] and dd[0].argl[0] == os_, s.loop, 'a non-empty description is printed once', v, s.facts)
                    elif must(s.facts, cmp_('==', k, c(0))):
                        ck.ob('no description, no text', not dd, s.loop, 'nothing is printed for an empty description', v, s.facts)
                elif has_fd:
                    ck.ob('the description is shown', len(dd) == 1 or (None if dd else False), s.loop, 'the description is printed', v, s.facts)
            if can(s.facts, B):
                ck.ob('options of groups are left to the group', not fn_ and not outs(s.evs), s.loop, 'an option that belongs to a group is not printed by the parent', v, s.facts)
        if s.loop.id in glids and s.kind in ('back', 'brk'):
            t = glids[s.loop.id]
            pc = [e for e in flat_evs(s.evs) if e.k == 'call' and e.q.endswith('options_description::print')]
            ok = s.kind == 'back' and len(pc) == 1 and contains(pc[0].oterm, at(GRP, t)) and pc[0].argl[0] == os_
            ck.ob('every group is listed once', ok, s.loop, 'each group prints itself to the same stream', v, s.facts)
    # both loops run over everything, on every successful path, own options first
    for s in tops(v, 'ret'):
        pos = {}
        for i, e in enumerate(s.evs):
            if e.k == 'loop' and e.id in lids:
                pos['o'] = i
                ck.ob('no option is left out', walks(v, s, i, e, OPT), e, 'the listing visits every own option in order', v)
            if e.k == 'loop' and e.id in glids:
                pos['g'] = i
                ck.ob('no group is left out', walks(v, s, i, e, GRP), e, 'the listing visits every group in order', v)
        if lids and glids:
            ck.ob('options before groups', 'o' in pos and 'g' in pos and pos['o'] < pos['g'] or ('o' in pos and pos['o'] is not None and 'g' not in pos and must(s.facts, cmp_('==', size(GRP), c(0)))), f, 'own options, then groups', v, s.facts)
        for e in flat_evs(s.evs):
            if e.k == 'call' and e.q.endswith('options_description::print'):
                w = e.args[1]
                cw = [x for x in flat_evs(s.evs) if x.k == 'call' and x.q.endswith('get_option_column_width')]
                ok = (w == width and must(s.facts, tobool(width))) or any(w == x.res for x in cw) and must(s.facts, neg(tobool(width)))
                ck.ob('groups share the column width', ok if not (w[0] in ('phi', 'mrg')) else None, e, 'groups are printed with the same column', v, s.facts)
        cap = infld(THIS, 'm_caption')
        has = [e for e in s.evs if e.k == 'out' and e.loc == os_ and e.val == cap]
        if can(s.facts, neg(empty_of(cap))):
            ck.ob('the caption is printed', len(has) == 1, f, 'a non-empty caption heads the list', v, s.facts)
    ck.need('every own option is listed once')
    # adding
    for f in ck.fns('options_description::add', 2):
        v = ck.view(f)
        single = 'shared_ptr' in f['ps'][0]['t']
        for s in tops(v, 'ret'):
            if single:
                g1 = grown(OPT, end(v, s, fld(THIS, mo)))
                g2 = grown(BEL, end(v, s, fld(THIS, bg)))
                ck.ob('an added option is listed and found', g1 == [In(P(f, 0))] if g1 is not None else None, f, 'the option itself is appended to the options', v, s.facts)
                ck.ob('an added option is an own option', len(g2) == 1 and g2[0] == ('c', False) if g2 is not None else None, f, 'one group flag (false) per option', v, s.facts)
            else:
                g3 = grown(GRP, end(v, s, fld(THIS, gr)))
                ck.ob('an added group is listed', len(g3) == 1 if g3 is not None else None, f, 'the group is appended once', v, s.facts)
                src = infld(P(f, 0), mo)
                ls = [(i, e) for i, e in enumerate(s.evs) if e.k == 'loop' and any(contains(it.st.store.get(fld(THIS, mo), ('c', 0)), el) for it in e.iters for el in iter_of(e, src))]
                if len(ls) != 1:
                    rng = [e for e in s.evs if e.k == 'mut' and e.loc == fld(THIS, mo)]
                    ck.ob('options of a group are found too', None if rng or v.dirty else False, f, 'all options of the group are added', v, s.facts)
                    continue
                i, lev = ls[0]
                ck.ob('options of a group are found too', walks(v, s, i, lev, src), lev, 'every option of the group is added, in order', v)
                for it in lev.iters:
                    if it.kind != 'back':
                        ck.ob('options of a group are found too', False if it.kind == 'brk' else True, lev, 'no early stop', v, it.facts)
                        continue
                    h1, h2 = lev.havoc.get(fld(THIS, mo)), lev.havoc.get(fld(THIS, bg))
                    if h1 is None or h2 is None:
                        ck.ob('options of a group are shared', None if v.dirty else False, lev, 'each option and its group flag are appended', v, it.facts)
                        continue
                    a = grown(h1, it.st.store.get(fld(THIS, mo), h1))
                    el = [x for x in iter_of(lev, src) if a and x in a]
                    ck.ob('options of a group are shared', (len(a) == 1 and bool(el)) if a is not None else None, lev, 'the very same option object is appended once', v, it.facts)
                    nb = it.st.store.get(fld(THIS, bg), h2)
                    last = at(nb, size(h2)) if nb[0] == 'push' else None
                    wr = [e for e in it.evs if e.k == 'write' and e.loc[0] == 'elem' and e.loc[1] == fld(THIS, bg)]
                    n = len([e for e in it.evs if e.k == 'mut' and e.meth == 'push_back' and e.loc == fld(THIS, bg)])
                    fin = rdel(v, it, fld(THIS, bg), size(h2))
                    ck.ob('options of a group are marked', None if fin is None else (n == 1 and fin == ('c', True)), lev, 'the group flag of the appended option is true', v, it.facts)
    # the two parallel sequences change together
    for u, g in sorted(ck.p.funcs.items()):
        if bare(g.get('cls') or '') != 'po::options_description':
            continue
        names = {n.get('f') for n in walk([g['b']]) if n.get('k') == 'm'}
        if mo in names and any(n.get('k') in ('c',) and n.get('q', '').split('::')[-1] in ('erase', 'clear', 'resize', 'pop_back', 'insert', 'swap', 'assign') for n in walk([g['b']])):
            w = ck.view(g)
            for s in tops(w, 'ret'):
                a, b = end(w, s, fld(THIS, mo)), end(w, s, fld(THIS, bg))
                d = ival(s.facts, sub(sub(size(a), size(OPT)), sub(size(b), size(BEL))))
                ck.ob('flags stay in step with options', True if d[:2] == (0, 0) else None, g, 'as many group flags as options', w)
    for f in ck.fns('options_description_easy_init::operator()', 2):
        v = ck.view(f, ['options_description::add'])
        own = infld(THIS, 'owner')
        for s in tops(v, 'ret'):
            cs = calls(s.evs, 'options_description::add')
            ck.ob('add_options() adds each declared option', len(cs) == 1 and cs[0].args[0][0] == 'heapptr', f, 'exactly one new option is added', v, s.facts)
            ck.ob('declarations can be chained', isinstance(s.val, LV) and s.val.loc == THIS or s.val == ('in', THIS) or s.val == THIS, f, 'returns itself', v, s.facts)
            if len(cs) == 1 and cs[0].args[0][0] == 'heapptr':
                o = cs[0].args[0][1]
                ps = f['ps']
                if 'value_semantic' in ps[1]['t']:
                    sem = v.eng.rd(s.st, fld(o, 'm_value_semantic'))
                    ck.ob('the declared semantic is used', contains(sem, In(P(f, 1))), f, 'the option carries the semantic passed', v, s.facts)
                    di = 2
                else:
                    sem = v.eng.rd(s.st, fld(o, 'm_value_semantic'))
                    z = v.eng.rd(s.st, fld(sem[1], 'm_zero_tokens')) if sem[0] in ('heapptr', 'ptr') else None
                    ck.ob('options without semantic are switches', None if z is None or z[0] not in ('c',) else z == ('c', True), f, 'an option declared without value takes none', v, s.facts)
                    di = 1
                if len(ps) > di:
                    ds = v.eng.rd(s.st, fld(o, 'm_description'))
                    ck.ob('the declared description is used', None if ds[0] == 'phi' else contains(ds, In(P(f, di))), f, 'the option carries the description passed', v, s.facts)
    f = ck.fn('options_description::add_options')
    v = ck.view(f)
    for s in tops(v, 'ret'):
        val = s.val.loc if isinstance(s.val, LV) else s.val
        val = v.eng.rd(s.st, val) if isinstance(s.val, LV) else s.val
        ck.ob('add_options() fills this description', contains(val, ('ptr', THIS)) or contains(val, THIS), f, 'the helper refers to the description it was asked of', v, s.facts)
    f = ck.fn('options_description::options')
    v = ck.view(f)
    for s in tops(v, 'ret'):
        ck.ob('options() lists all options', rv(v, s) == OPT, f, 'options() returns the stored list', v, s.facts)


def rdel(v, it, loc, idx):
    try:
        x = v.eng.rd(it.st, ('elem', loc, idx))
    except Exception:
        return None
    return x if x[0] == 'c' else None
