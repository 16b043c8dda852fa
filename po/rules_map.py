"""variables_map: storing, defaults, required options, notification, chained lookup (C01-C06)"""
from .dsl import *

OPAQUE = ['options_description::find', 'options_description::find_nothrow', 'option_description::key', 'option_description::canonical_display_name']


def narrow_store(ck):
    fs = [f for f in ck.fns('store') if 'basic_parsed_options<char>' in f['ps'][0]['t'] and len(f['ps']) == 3]
    if len(fs) != 1:
        raise Broken('store(parsed_options, variables_map, bool) not found')
    return fs[0]


class Store(object):
    """the parts of store() the rules talk about, found from the current source"""
    def __init__(self, ck):
        self.ck = ck
        r = Roles(ck.p)
        self.r = r
        f = self.f = narrow_store(ck)
        v = self.v = ck.view(f, OPAQUE)
        self.opts = infld(P(f, 0), 'options')
        self.descr = infld(P(f, 0), 'description')
        self.utf8 = In(P(f, 2))
        self.M = fld(P(f, 1), '@base')
        self.final = fld(P(f, 1), r.vm_final)
        self.required = fld(P(f, 1), r.vm_required)
        od = ck.rec('options_description')
        self.odf = ck.field(od, 'm_options', lambda t: 'vector<' in t and 'option_description' in t)
        self.osem = ck.field(ck.rec('option_description'), 'm_value_semantic', lambda t: 'value_semantic' in t)
        self.descs = ('in', ('fld', ('deref', self.descr), self.odf))
        # loop A: the one handing given values to the option semantics
        self.parse = [(s, i, e) for s, i, e in v.events('call') if e.q == NS + 'value_semantic::parse']
        self.A = None
        for s, i, e in self.parse:
            x = s
            while x is not None and x.kind == 'alt':
                x = x.parent
            if x is not None and x.loop is not None:
                self.A = x.loop.id
        # loop D: the one visiting every described option
        self.D = None
        for s, i, e in v.events('call'):
            if e.q in (NS + 'value_semantic::apply_default', NS + 'value_semantic::is_required'):
                if s.loop is not None and s.loop.id != self.A:
                    self.D = s.loop.id

    def loop_at(self, lid):
        for s, i, l in loops(self.v):
            if l.id == lid:
                return s, i, l
        return None

    def segA(self, *kinds):
        return [s for s in self.v.segs() if s.loop is not None and s.loop.id == self.A and s.kind in kinds]

    def segD(self, *kinds):
        return [s for s in self.v.segs() if s.loop is not None and s.loop.id == self.D and s.kind in kinds]

    def B(self, seg):
        """the option record an iteration of loop A is about"""
        for loc, t in loop_ix(seg.loop):
            for e in find(('at', self.opts, V('i')), tuple(seg.facts) + tuple(x.val for x in seg.evs if x.k == 'write') + tuple(a for x in seg.evs if x.k == 'call' for a in x.args)):
                if contains(e['i'], t):
                    return ('at', self.opts, e['i'])
        for loc, t in loop_ix(seg.loop):
            return ('at', self.opts, t)
        return None

    def O(self, seg):
        """the description an iteration of loop D is about"""
        for loc, t in loop_ix(seg.loop):
            for e in find(('at', self.descs, V('i')), tuple(seg.facts) + tuple(x.oterm for x in seg.evs if x.k == 'call' and x.oterm)):
                if contains(e['i'], t):
                    return ('at', self.descs, e['i'])
        for loc, t in loop_ix(seg.loop):
            return ('at', self.descs, t)
        return None

    def names(self, B):
        K = ('.', B, 'string_key')
        return K, tobool(('.', B, 'unregistered')), ('has', In(self.final), K), empty_of(K)

    def entry(self, K):
        return ('elem', self.M, ('key', K))

    def need_loops(self, ck, rule):
        ok = self.A is not None
        ck.ob(rule, ok or (None if self.v.dirty else False), self.f, 'store() hands the given values to the option semantics inside a loop over the parsed options', self.v)
        return ok


def c01(ck):
    S = Store(ck)
    v = S.v
    if not S.need_loops(ck, 'values are parsed'):
        return
    s0, i0, L = S.loop_at(S.A)
    ck.ob('every given option is visited in order', walks(v, s0, i0, L, S.opts), L, 'the loop starts at the first parsed option, moves by one and ends after the last', v)
    # 1. each parse is guarded and aimed at the right entry
    for s, i, e in S.parse:
        B = S.B(s)
        K, unreg, fin, emp = S.names(B)
        ck.ob('no value once final', must(e.facts, neg(fin)), e, 'a value is parsed only when an earlier store has not already made the option final', v, e.facts)
        tgt = e.argl[0]
        want = fld(S.entry(K), S.r.vv_any)
        if tgt is not None and root(tgt)[0] in ('L', 'tmp'):
            ck.ob('value lands in the entry of its option', None, e, 'value parsed into a local first', v)
        else:
            ck.ob('value lands in the entry of its option', tgt == want, e, 'parse() writes the entry keyed by the option name', v, e.facts)
        ck.ob('the given tokens are parsed', e.args[1] == ('.', B, 'value') and e.args[2] == S.utf8, e, 'parse() receives the tokens of the same occurrence and the encoding flag', v, e.facts)
        fi = [x for x in calls(s.before(i), 'options_description::find', 'options_description::find_nothrow')]
        semok = any(contains(e.oterm, x.res) and x.args[0] == K for x in fi) if fi else None
        ck.ob('semantic of the named option', semok, e, 'the semantic used is that of the option found under the same name', v, e.facts)
    # 2. an option that is named, registered and not final does get parsed; composing decides finality
    collected = set()
    for s in S.segA('back'):
        B = S.B(s)
        K, unreg, fin, emp = S.names(B)
        ps = [e for e in flat_evs(s.evs) if e.k == 'call' and e.q == NS + 'value_semantic::parse']
        if not ps:
            ck.ob('every first value is stored', not can(s.facts, neg(fin), neg(unreg), neg(emp)), s.loop, 'an iteration skips an option that is named, registered and not final', v, s.facts)
            continue
        ck.ob('parsed once per occurrence', len(ps) == 1, ps[0], 'one parse per occurrence', v, s.facts)
        sem = ps[0].oterm
        comp = tobool(('call', NS + 'value_semantic::is_composing', sem))
        ins = [e for e in s.evs if e.k == 'mut' and e.meth in ('insert', 'push_back', 'map[]', 'append') and e.args and e.args[0] == K and e.loc != S.M]
        direct = [e for e in s.evs if e.k == 'mut' and e.loc == S.final]
        ck.ob('finality starts with the next store', not direct, direct[0] if direct else ps[0], 'within one store() call an option never becomes final', v, s.facts)
        local = [e for e in ins if e.loc[0] == 'L']
        if must(s.facts, neg(comp)) or can(s.facts, neg(comp)):
            ck.ob('a non-composing value becomes final', bool(local or direct), ps[0], 'a stored value of a non-composing option is remembered as final', v, s.facts)
        if can(s.facts, comp):
            ck.ob('a composing value never becomes final', not (local or direct), ps[0], 'a stored value of a composing option is not remembered as final', v, s.facts)
        for e in local:
            collected.add(e.loc)
        # 3. the stored entry at the end of the iteration
        ev = end(v, s, fld(S.entry(K), S.r.vv_any))
        ck.ob('parsed value stays in the map', is_out(ev, 'parse') or (None if root(ps[0].argl[0] or ('tmp', 0))[0] in ('L', 'tmp') else False), ps[0], 'after an iteration the entry holds what parse() produced', v, s.facts)
        sm = end(v, s, fld(S.entry(K), S.r.vv_sem))
        ck.ob('semantic recorded', contains(sem, sm) or sm == sem or contains(sm, sem), ps[0], 'the entry remembers the semantic that parsed it', v, s.facts)
    # 4. after the loop, all names collected become final, on every successful path
    for s in v.segs():
        if s.parent is None and s.kind == 'ret':
            pos = [i for i, e in enumerate(s.evs) if e.k == 'loop' and e.id == S.A]
            if not pos:
                ck.ob('parsed options processed on success', False, S.f, 'a successful store() skips the loop over the parsed options', v, s.facts)
                continue
            after = s.evs[pos[0] + 1:]
            got = False
            for e in flat_evs(after):
                if e.k in ('mut', 'write') and e.loc == S.final:
                    if any(contains(e.val, ('phi', S.A, c_)) for c_ in collected):
                        got = True
                    elif e.k == 'mut' and e.meth == 'insert':
                        for c_ in collected:
                            if any(contains(a, ('phi', S.A, c_)) for a in e.args):
                                got = True
            ck.ob('finals recorded after the loop', got, S.f, 'names collected during this store() are added to the final set before it returns', v, s.facts)
            for e in flat_evs(s.evs):
                if e.k in ('mut', 'write') and e.loc == S.final:
                    ok = e.k == 'mut' and e.meth in ('insert', 'insert_all')
                    ck.ob('final set only grows', ok, e, 'store() only adds to the final set', v, s.facts)
                if e.k == 'mut' and e.loc == S.M and e.meth in ('erase', 'clear', 'swap', 'assign'):
                    ck.ob('entries only added', False, e, 'store() removes entries', v, s.facts)
    # 5. a defaulted entry is replaced, an explicit one is kept
    for s in S.segA('back'):
        B = S.B(s)
        K, unreg, fin, emp = S.names(B)
        for e in s.evs:
            if e.k == 'write' and (e.loc == S.entry(K) or e.loc == fld(S.entry(K), S.r.vv_any)):
                old = [k for k in e.facts if k[0] == 'b' and k[1][0] == '.' and k[1][2] == S.r.vv_def]
                ck.ob('only defaults are erased', any(e.facts.get(k) is True for k in old), e, 'an entry is reset only when it holds a default', v, e.facts)
    # 6. parsing into the map composes with earlier stores: wide results go through the same routine
    wide_store(ck)
    builder(ck, 'composing', 'is_composing')
    ck.need('no value once final')
    ck.need('a non-composing value becomes final')
    ck.need('finals recorded after the loop')


def wide_store(ck):
    for f in ck.fns('store'):
        if 'wchar_t' not in f['ps'][0]['t']:
            continue
        v = ck.view(f, ['store'])
        for s in v.segs():
            if s.parent is None and s.kind == 'ret':
                cs = calls(s.evs, 'store')
                ok = len(cs) == 1 and cs[0].args[0] == infld(P(f, 0), 'utf8_encoded_options') and cs[0].argl[1] == P(f, 1) and cs[0].args[2] == ('c', True)
                if not cs:
                    ok = False
                ck.ob('wide results use the same store', ok, cs[0] if cs else f, 'storing wide results stores their UTF-8 form with the utf8 flag', v, s.facts)


def builder(ck, setter, getter, value=True):
    """setter() sets exactly what getter() reports, in every typed_value instance"""
    for f in ck.fns('typed_value::' + getter):
        v = ck.view(f)
        flds = set()
        for p in v.paths:
            if p.kind == 'ret' and isinstance(p.val, tuple):
                for t in subterms(p.val):
                    if t[:1] == ('in',) and t[1][:1] == ('fld',) and t[1][1] == THIS:
                        flds.add(t[1][2])
        for g in ck.fns('typed_value::' + setter, least=0, cls=bare(f['cls'])):
            w = ck.view(g)
            for p in w.paths:
                if p.kind != 'ret':
                    continue
                hit = [e for e in p.ev if e.k == 'write' and e.loc[0] == 'fld' and e.loc[1] == THIS and e.loc[2] in flds]
                ok = bool(hit) and all(e.val == ('c', value) for e in hit)
                ck.ob('%s() is what %s() reports' % (setter, getter), ok, g, 'the builder sets the flag the query returns', w, p.facts)
                other = [e for e in p.ev if e.k == 'write' and e.loc[0] == 'fld' and e.loc[1] == THIS and e.loc[2] not in flds]
                ck.ob('%s() changes nothing else' % setter, not other, g, 'no other setting of the value is touched', w, p.facts)
            # and the initial state is the opposite
        for p in v.paths:
            if p.kind == 'ret':
                ok = p.val == infld(THIS, next(iter(flds))) if len(flds) == 1 else None
                ck.ob('%s() reports the flag' % getter, ok if flds else False, f, 'the query returns the stored flag', v, p.facts)


def c02(ck):
    S = Store(ck)
    v = S.v
    if not S.need_loops(ck, 'values are parsed'):
        return
    ap = [(s, i, e) for s, i, e in v.events('call') if e.q == NS + 'value_semantic::apply_default']
    if not ap or S.D is None:
        ck.ob('defaults are applied', None if v.dirty else False, S.f, 'store() asks every described option for its default', v)
        return
    s0, i0, L = S.loop_at(S.D)
    ck.ob('every described option is asked', walks(v, s0, i0, L, S.descs, ordered=False), L, 'the default loop visits every option of the description', v)
    for s in v.segs():
        if s.parent is None and s.kind == 'ret':
            ids = [e.id for e in s.evs if e.k == 'loop']
            ck.ob('defaults on every successful store', S.D in ids, S.f, 'a successful store() applies defaults', v, s.facts)
            if S.A in ids and S.D in ids:
                ck.ob('defaults after explicit values', ids.index(S.A) < ids.index(S.D), S.f, 'explicit values of the call are stored before defaults', v, s.facts)
    for s in S.segD('back'):
        O = S.O(s)
        sem = infld(('deref', O), S.osem)
        key = [e for e in calls(s.evs, 'option_description::key')]
        KEY = ('in', ('deref', ('call', NS + 'option_description::key', O, ('str', ''))))
        hasM = [k for k in s.facts if k[0] == 'has' and k[2] == KEY]
        hasM = hasM[0] if hasM else ('has', In(S.M), KEY)
        apd = [e for e in s.evs if e.k == 'call' and e.q == NS + 'value_semantic::apply_default']
        mm = muts_of(s.evs, S.M)
        mm = [e for e in mm if e.k != 'call']
        en = S.entry(KEY)
        okd = tobool(apd[0].res) if apd else None
        if mm:
            # something is written for this description
            ck.ob('a default never replaces a value', must(s.facts, neg(hasM)), mm[0], 'the map is touched only when it has no entry of that name', v, s.facts)
            ck.ob('nameless options have no entry', must(s.facts, neg(empty_of(KEY))), mm[0], 'the map is touched only under a non-empty name', v, s.facts)
            ck.ob('entry only with a default', okd is not None and must(s.facts, okd), mm[0], 'an entry is created only when the option has a default', v, s.facts)
            for e in mm:
                right = e.loc == en or part_of(e.loc, en) or (e.loc == S.M and e.k == 'mut' and e.meth in ('map[]', 'insert') and (KEY in e.args or contains(e.args, KEY)))
                ck.ob('default stored under its own name', right, e, 'only the entry of the option itself is written', v, s.facts)
            a = end(v, s, fld(en, S.r.vv_any))
            src = [l for x in apd for l in [x.argl[0]]]
            isdef = is_out(a, 'apply_default')
            ck.ob('the stored value is the default', isdef or (a[0] == 'phi' and None), mm[0], 'the entry holds what apply_default() produced', v, s.facts)
            d = end(v, s, fld(en, S.r.vv_def))
            ck.ob('marked as defaulted', d == ('c', True), mm[0], 'the entry reports defaulted()', v, s.facts)
            m = end(v, s, fld(en, S.r.vv_sem))
            ck.ob('semantic of a default recorded', m == sem, mm[0], 'notify() will reach defaulted values: their semantic is recorded', v, s.facts)
        else:
            miss = can(s.facts, neg(hasM), neg(empty_of(KEY)), *([okd] if okd is not None else []))
            ck.ob('every missing default is stored', not miss, L, 'an option without value and with a default gets an entry', v, s.facts)
        for e in apd:
            ck.ob('default of the same option', e.oterm == sem, e, 'apply_default() of the option the entry is named after', v, s.facts)
    # explicit assignment erases a defaulted value and its mark
    for s in S.segA('back'):
        B = S.B(s)
        K, unreg, fin, emp = S.names(B)
        ps = [e for e in s.evs if e.k == 'call' and e.q == NS + 'value_semantic::parse']
        if not ps or ps[0].argl[0] != fld(S.entry(K), S.r.vv_any):
            continue
        d = end(v, s, fld(S.entry(K), S.r.vv_def))
        if d == ('c', False):
            ck.ob('explicit value starts afresh', ps[0].args[0] == ('any0',) or must(ps[0].facts, neg(tobool(('.', ('phi', S.A, S.entry(K)), S.r.vv_def)))), ps[0],
                  'a defaulted value is discarded before the explicit one is parsed', v, s.facts)
        else:
            ck.ob('explicit value is not marked defaulted', d[0] != 'c' and must(s.facts, neg(tobool(d))), ps[0], 'after an explicit value the entry is not defaulted', v, s.facts)
    # the semantic side
    for f in ck.fns('typed_value::apply_default', least=2):
        w = ck.view(f)
        dv = field_read(ck, f, w, 'm_default_value')
        dflt = infld(THIS, dv)
        isempty = ('anyempty', dflt)
        for p in w.paths:
            if p.kind != 'ret':
                continue
            wr = [e for e in p.ev if e.k == 'write' and e.loc == P(f, 0)]
            if can(p.facts, neg(isempty)):
                ck.ob('a set default is delivered', p.val == ('c', True) and len(wr) == 1 and wr[0].val == dflt or p.val == neg(isempty) and False, f, 'apply_default() yields the configured default', w, p.facts)
            if can(p.facts, isempty):
                ck.ob('no default, no value', p.val == ('c', False) and not wr, f, 'apply_default() reports failure when none is configured', w, p.facts)
    for f in ck.fns('untyped_value::apply_default'):
        w = ck.view(f)
        for p in w.paths:
            ck.ob('untyped values have no default', p.kind == 'ret' and p.val == ('c', False), f, 'untyped values have no default', w, p.facts)
    for f in ck.fns('typed_value::default_value', least=2):
        w = ck.view(f)
        for p in w.paths:
            if p.kind != 'ret':
                continue
            wr = [e for e in p.ev if e.k == 'write' and e.loc == fld(THIS, 'm_default_value')]
            ok = len(wr) == 1 and wr[0].val[0] == 'any' and wr[0].val[2] == In(P(f, 0))
            ck.ob('default_value() keeps the given value', ok, f, 'the default is the value passed by the user', w, p.facts)
    for q, want in (('variable_value::defaulted', S.r.vv_def), ('variable_value::value', S.r.vv_any)):
        for f in ck.fns(q):
            w = ck.view(f)
            for p in w.paths:
                ok = p.val == infld(THIS, want) or (isinstance(p.val, LV) and p.val.loc == fld(THIS, want)) or p.val == tobool(infld(THIS, want))
                ck.ob('%s() reports the entry' % q, ok, f, 'accessor returns the stored state', w, p.facts)
    for f in ck.fns('variable_value::empty'):
        w = ck.view(f)
        for p in w.paths:
            ck.ob('variable_value::empty() reports the entry', p.val == ('anyempty', infld(THIS, S.r.vv_any)) or (p.val[0] == 'c' and truth(p.facts, ('anyempty', infld(THIS, S.r.vv_any))) == p.val[1]), f, 'empty() tells whether a value is held', w, p.facts)
    ck.need('the stored value is the default')
    ck.need('marked as defaulted')
    ck.need('a set default is delivered', 2)


def field_read(ck, f, w, name):
    rec = ck.rec_of(f)
    if any(x['n'] == name for x in rec['fields']):
        return name
    raise Broken('field %s of %s not found' % (name, rec['q']))


def c03(ck):
    S = Store(ck)
    v = S.v
    r = S.r
    # what store() records
    if S.D is None:
        ck.ob('required options are recorded', None if v.dirty else False, S.f, 'store() asks every described option whether it is required', v)
    else:
        s0, i0, L = S.loop_at(S.D)
        ck.ob('every described option is asked', walks(v, s0, i0, L, S.descs, ordered=False), L, 'the loop visits every option of the description', v)
        for s in v.segs():
            if s.parent is None and s.kind == 'ret':
                ck.ob('recorded on every successful store', S.D in [e.id for e in s.evs if e.k == 'loop'], S.f, 'a successful store() records required options', v, s.facts)
        for s in S.segD('back'):
            O = S.O(s)
            sem = infld(('deref', O), S.osem)
            KEY = ('in', ('deref', ('call', NS + 'option_description::key', O, ('str', ''))))
            req = tobool(('call', NS + 'value_semantic::is_required', sem))
            mm = [e for e in muts_of(s.evs, S.required) if e.k != 'call']
            if mm:
                ck.ob('only required options are recorded', must(s.facts, req), mm[0], 'an option is recorded as required only when its semantic says so', v, s.facts)
                ck.ob('required option has a name', must(s.facts, neg(empty_of(KEY))), mm[0], 'recorded under a non-empty name', v, s.facts)
                for e in mm:
                    ok = (e.k == 'mut' and e.meth in ('map[]', 'insert') and contains(e.args, KEY)) or e.loc == ('elem', S.required, ('key', KEY))
                    ck.ob('recorded under its own key', ok, e, 'the name recorded is the key of the option', v, s.facts)
                    if e.k == 'write' and e.loc == ('elem', S.required, ('key', KEY)):
                        nm = ('call', NS + 'option_description::canonical_display_name', O, infld(P(S.f, 0), 'm_options_prefix'))
                        ck.ob('recorded display name', e.val == nm, e, 'the display name recorded is that of the option in the style of the source', v, s.facts)
            else:
                ck.ob('every required option is recorded', not can(s.facts, req, neg(empty_of(KEY))), L, 'a required option is added to the required set', v, s.facts)
        for s in v.segs():
            for e in s.evs:
                if e.k == 'mut' and e.loc == S.required and e.meth in ('erase', 'clear', 'swap', 'assign'):
                    ck.ob('required set only grows', False, e, 'store() removes required names', v, s.facts)
    builder(ck, 'required', 'is_required')
    # what notify() does with it
    f = ck.fn('variables_map::notify')
    w = ck.view(f)
    REQ = infld(THIS, r.vm_required)
    M = infld(THIS, '@base')
    rl = None
    for s, i, l in loops(w):
        for el in iter_of(l, REQ):
            if any(mentions_facts(it.facts, el) or mentions_facts(it.facts, l_(el)) for it in l.iters):
                rl = (s, i, l)
    if rl is None:
        ck.ob('notify() checks the required set', None if w.dirty else False, f, 'no loop over the required names', w)
        return
    s0, i0, L = rl
    ck.ob('notify() checks the required set', walks(w, s0, i0, L, REQ, ordered=False), L, 'every required name is checked', w)
    for s in segs_of(w, L):
        for el in iter_of(L, REQ):
            nm, disp = ('.', el, 'first'), ('.', el, 'second')
            has = ('has', M, nm)
            emp = ('anyempty', ('.', ('at', M, ('key', nm)), r.vv_any))
            if s.kind == 'back':
                ck.ob('required and missing is an error', must(s.facts, has) and must(s.facts, neg(emp)), s.loop, 'the check moves on only when the name has a non-empty value', w, s.facts)
            elif s.kind == 'throw' and not foreign(s):
                t, a = exc_in(s)
                ck.ob('the error is required_option', t is not None and bare(t) == 'po::required_option' and (a is None or a[0] == disp), s.loop, 'a missing option raises required_option with its display name', w, s.facts)
                ck.ob('only missing options are reported', not can(s.facts, has, neg(emp)), s.loop, 'a present option is never reported as missing', w, s.facts)
    for s, i, e in w.events('call'):
        if e.q == NS + 'value_semantic::notify':
            ok = any(x.k == 'exh' and x.id == L.id for x in s.prefix() + s.evs[:i])
            ck.ob('checked before any user effect', ok, e, 'variables and notifiers are reached only after every required option was checked', w, s.facts)
    for s in w.segs():
        if s.parent is None and s.kind == 'ret':
            ck.ob('no successful notify without the check', any(e.k == 'exh' and e.id == L.id for e in s.evs), f, 'notify() returns only after the check', w, s.facts)
    nf = [f for f in ck.fns('notify') if len(f['ps']) == 1]
    for g in nf:
        x = ck.view(g, ['variables_map::notify'])
        for p in x.paths:
            if p.kind == 'ret':
                cs = calls(p.ev, 'variables_map::notify')
                ck.ob('notify(map) notifies the map', len(cs) == 1 and cs[0].obj == P(g, 0), g, 'the free function forwards to the map', x, p.facts)
    ck.need('required and missing is an error')
    ck.need('every required option is recorded')
    ck.need('checked before any user effect')


def l_(t):
    return ('.', t, 'first')


def c04(ck):
    r = Roles(ck.p)
    f = ck.fn('variables_map::notify')
    w = ck.view(f)
    M = infld(THIS, '@base')
    nots = [(s, i, e) for s, i, e in w.events('call') if e.q == NS + 'value_semantic::notify']
    if not nots:
        ck.ob('values are delivered', None if w.dirty else False, f, 'notify() calls the semantic of each entry', w)
    NL = None
    for s, i, e in nots:
        x = s
        while x is not None and x.kind == 'alt':
            x = x.parent
        NL = x.loop.id if x is not None and x.loop is not None else NL
    if nots and NL is None:
        ck.ob('values are delivered', None if w.dirty else False, f, 'notify() delivers inside a loop over the entries', w)
    if NL is not None:
        for s, i, l in loops(w):
            if l.id == NL:
                ck.ob('every entry is delivered', walks(w, s, i, l, M, ordered=False), l, 'the loop visits every entry of the map', w)
                L = l
        for s in segs_of(w, L):
            for el in iter_of(L, M):
                ent = ('.', el, 'second')
                sem = ('.', ent, r.vv_sem)
                cs = [e for e in flat_evs(s.evs) if e.k == 'call' and e.q == NS + 'value_semantic::notify']
                for e in cs:
                    ck.ob('delivered through its own semantic', e.oterm == sem, e, 'the semantic called is the one recorded in the entry', w, s.facts)
                    ck.ob('the final value is delivered', e.args[0] == ('.', ent, r.vv_any), e, 'the value passed is the one stored in the entry', w, s.facts)
                if s.kind == 'back':
                    if can(s.facts, neg(isnull(sem))):
                        ck.ob('delivered exactly once', len(cs) == 1, cs[0] if cs else s.loop, 'one delivery per entry with a semantic', w, s.facts)
                    if can(s.facts, isnull(sem)):
                        ck.ob('entries of the user are left alone', not cs, cs[0] if cs else s.loop, 'entries without semantic are not delivered', w, s.facts)
        for s in w.segs():
            if s.parent is None and s.kind == 'ret':
                ck.ob('delivery on every successful notify', sum(1 for e in s.evs if e.k == 'loop' and e.id == NL) == 1, f, 'the delivery loop runs once', w, s.facts)
    # typed_value::notify
    hot = set()
    for g in ck.fns('typed_value::notify', least=2):
        hot.add(g['u'])
        x = ck.view(g)
        rec = ck.rec_of(g)
        st = ck.field(rec, 'm_store_to', lambda t: t.endswith('*'))
        nf = ck.field(rec, 'm_notifier', lambda t: 'function' in t)
        tgt = ('deref', infld(THIS, st))
        for p in x.paths:
            if p.kind != 'ret':
                continue
            wr = [e for e in p.ev if e.k in ('write', 'mut') and (e.loc == tgt or part_of(e.loc, tgt))]
            ic = [e for e in p.ev if e.k == 'icall']
            if can(p.facts, neg(isnull(infld(THIS, st)))):
                ok = len(wr) == 1 and wr[0].loc == tgt and anyv(wr[0].val, In(P(g, 0)))
                ck.ob('bound variable receives the value', ok, g, 'a non-null target is assigned the stored value', x, p.facts)
            if can(p.facts, isnull(infld(THIS, st))):
                ck.ob('no target, no write', not wr, g, 'nothing is written without a target', x, p.facts)
            fn_ = infld(THIS, nf)
            emptyf = [k for k in p.facts if contains(k, fn_)]
            called = [e for e in ic if contains(e.f, fn_) or e.f == fn_]
            none = any((k[0] in ('isnull', 'fempty') and p.facts[k] is True) or (k[0] == 'b' and p.facts[k] is False) for k in emptyf)
            some = any((k[0] in ('isnull', 'fempty') and p.facts[k] is False) or (k[0] == 'b' and p.facts[k] is True) for k in emptyf)
            if not none:
                ok = len(called) == 1 and anyv(called[0].args[0], In(P(g, 0)))
                ck.ob('notifier receives the value', ok, g, 'a set notifier is called once with the stored value', x, p.facts)
            if not some:
                ck.ob('no notifier, no call', not called, g, 'no call without a notifier', x, p.facts)
        # nobody else touches them
        for m in ck.p.funcs.values():
            if m.get('cls') and bare(m['cls']) == bare(g['cls']) and m['u'] != g['u'] and m['b'] is not None:
                y = None
                for n in walk(m['b']):
                    if n.get('k') in ('m',) and n.get('n') in (st, nf):
                        y = y or View(ck.p, m)
                if y is None:
                    continue
                bad = None
                for s, i, e in y.events('write', 'mut', 'icall'):
                    if e.k == 'icall' and contains(e.f, infld(THIS, nf)):
                        bad = e
                    if e.k != 'icall' and (e.loc == tgt or part_of(e.loc, tgt)):
                        bad = e
                ck.ob('only notify() touches user state', bad is None, bad or m, 'no other member writes the target or calls the notifier', y)
        for h, fl in (('notifier', nf),):
            for b in ck.fns('typed_value::' + h, least=0, cls=bare(g['cls'])):
                y = ck.view(b)
                for p in y.paths:
                    wr = [e for e in p.ev if e.k in ('write', 'mut') and e.loc == fld(THIS, fl)]
                    ck.ob('notifier() keeps the given function', len(wr) == 1 and contains(wr[0].val, In(P(b, 0))), b, 'the notifier is what the user passed', y, p.facts)
    # call graph: parsing and storing cannot reach delivery
    cg = ck.callgraph()
    vn = {u for u, m in ck.p.methods.items() if m['q'] == NS + 'value_semantic::notify'} | {m for m in ck.p.funcs if ck.p.funcs[m]['q'].endswith('::notify')}
    roots = [g for q in ('store', 'parse_config_file', 'parse_environment', 'parse_command_line', 'basic_command_line_parser::run', 'detail::cmdline::run', 'collect_unrecognized',
                         'split_unix', 'detail::common_config_file_iterator::get') for g in ck.p.fns(q)]
    for g in roots:
        seen, path = ck.reach(g['u'], cg, vn)
        ck.ob('parsing and storing deliver nothing', path is None, g, 'no call path from %s to notify%s' % (short(g['q']), '' if path is None else ': ' + ' -> '.join(path)))
    ck.need('bound variable receives the value', 2)
    ck.need('parsing and storing deliver nothing', 8)
    ck.need('delivered exactly once')


def anyv(t, anyterm):
    """t is the value held by any term"""
    for s in subterms(t):
        if s[:1] == ('anyval',) and contains(s, anyterm):
            return True
        if s[:1] == ('in',) and contains(s, anyterm) and any(x[:1] == ('anyval',) for x in subterms(s)):
            return True
    return False


def c05(ck):
    S = Store(ck)
    v = S.v
    if not S.need_loops(ck, 'values are parsed'):
        return
    n = 0
    for s in v.segs():
        if s.loop is None or s.loop.id != S.A:
            continue
        B = S.B(s)
        K, unreg, fin, emp = S.names(B)
        for i, e in enumerate(s.evs):
            if e.k in ('write', 'mut') and (e.loc == S.M or part_of(e.loc, S.M) or e.loc == S.final):
                n += 1
                ck.ob('unregistered options are not stored', must(e.facts, neg(unreg)), e, 'the map changes only for registered options', v, e.facts)
                ck.ob('nameless options are not stored', must(e.facts, neg(emp)), e, 'the map changes only for options with a name', v, e.facts)
                if e.k == 'mut' and e.loc == S.M and e.meth in ('map[]', 'insert'):
                    ck.ob('entry created under the name given', contains(e.args, K), e, 'the key of a new entry is the name of the option', v, e.facts)
                    look = [x for x in calls(s.before(i), 'options_description::find', 'options_description::find_nothrow')]
                    ck.ob('entry created after the lookup succeeded', any(x.args[0] == K for x in look), e, 'an unknown name raises before any entry is created', v, e.facts)
        for e in s.evs:
            if e.k == 'call' and e.q in (NS + 'options_description::find',):
                ck.ob('unregistered options are not looked up', must(e.facts, neg(unreg)), e, 'only registered options are looked up in the description', v, e.facts)
                ck.ob('exact lookup', e.args[1:] == (('c', False), ('c', False), ('c', False)), e, 'keys in parsed results are complete names: no abbreviation, no case folding', v, e.facts)
    for s in S.segA('back'):
        B = S.B(s)
        K, unreg, fin, emp = S.names(B)
        ps = [e for e in flat_evs(s.evs) if e.k == 'call' and e.q == NS + 'value_semantic::parse']
        if not ps:
            ck.ob('registered options are stored', not can(s.facts, neg(unreg), neg(emp), neg(fin)), s.loop, 'a named, registered, not yet final option is stored', v, s.facts)
        else:
            ck.ob('unregistered options are not parsed', must(s.facts, neg(unreg)) and must(s.facts, neg(emp)), ps[0], 'values of unregistered or nameless options are not parsed', v, s.facts)
    # unknown names are errors, never silently dropped
    for s in v.segs():
        if s.parent is not None:
            continue
        if s.kind == 'ret':
            ck.ob('errors are not swallowed', not any(e.k == 'catch' for e in s.evs), S.f, 'store() does not return normally after an exception', v, s.facts)
    ck.need('unregistered options are not stored')


def c06(ck):
    r = Roles(ck.p)
    f = ck.fn('abstract_variables_map::operator[]')
    w = ck.view(f, ['abstract_variables_map::get'])
    rec = ck.rec('abstract_variables_map')
    nx = ck.field(rec, 'm_next', lambda t: t.endswith('*'))
    name = In(P(f, 0))
    nxt = infld(THIS, nx)
    gets = [e for s, i, e in w.events('call') if e.q == NS + 'abstract_variables_map::get']
    if not gets:
        ck.ob('own value first', None if w.dirty else False, f, 'operator[] consults its own map', w)
        return
    own = ('deref', gets[0].res)
    ck.ob('own value first', gets[0].oterm == THIS and gets[0].args[0] == name, gets[0], 'the own map is consulted under the same name', w)
    oe, odf = ('anyempty', infld(own, r.vv_any)), tobool(infld(own, r.vv_def))
    nn = isnull(nxt)
    rec_calls = [e for s, i, e in w.events('call') if e.q == NS + 'abstract_variables_map::operator[]']
    for e in rec_calls:
        ck.ob('chain asked for the same name', e.args[0] == name and contains(e.oterm, nx) or e.oterm == nxt, e, 'the next map is asked for the same name', w)
    nv = ('deref', rec_calls[0].res) if rec_calls else None
    for p in w.paths:
        if p.kind != 'ret':
            continue
        loc = p.val.loc if isinstance(p.val, LV) else None
        def row(rule, guard, want):
            if can(p.facts, *guard):
                ck.ob(rule, loc is not None and want is not None and loc == want, f, 'returns %s' % (show(loc) if loc else p.val,), w, p.facts)
        row('no next map: own value', [nn], own)
        row('explicit own value wins', [neg(oe), neg(odf)], own)
        row('missing value comes from the next map', [oe, neg(nn)], nv)
        if nv:
            ne, nd = ('anyempty', infld(nv, r.vv_any)), tobool(infld(nv, r.vv_def))
            row('default yields to an explicit value of the next map', [neg(oe), odf, neg(nn), neg(ne), neg(nd)], nv)
            row('default kept when the next map has none', [neg(oe), odf, neg(nn), ne], own)
            row('default kept when the next map has a default', [neg(oe), odf, neg(nn), nd], own)
    # variables_map::get
    f = ck.fn('variables_map::get')
    w = ck.view(f)
    M = infld(THIS, '@base')
    name = In(P(f, 0))
    has = ('has', M, name)
    for p in w.paths:
        if p.kind != 'ret':
            continue
        loc = p.val.loc if isinstance(p.val, LV) else None
        if can(p.facts, has):
            ok = loc is not None and loc[0] == 'fld' and loc[2] == 'second' and loc[1][0] == 'elem' and contains(loc[1][2], name) or loc == ('elem', fld(THIS, '@base'), ('key', name))
            ck.ob('stored value found', ok, f, 'a stored name yields its entry (%s)' % (show(loc) if loc else p.val), w, p.facts)
        if can(p.facts, neg(has)):
            ok = loc is not None and root(loc)[0] in ('g', 'G', 'S', 'static', 'L') and not contains(loc, fld(THIS, '@base'))
            ck.ob('missing name yields an empty value', ok, f, 'an absent name yields the empty value (%s)' % (show(loc) if loc else p.val), w, p.facts)
        bad = [e for e in p.ev if e.k in ('mut', 'write') and root(e.loc) == THIS]
        ck.ob('lookup does not change the map', not bad, f, 'get() has no effect', w, p.facts)
    # clear(): back to the freshly constructed state
    f = ck.fn('variables_map::clear')
    w = ck.view(f)
    for p in w.paths:
        if p.kind != 'ret':
            continue
        for fl in ['@base'] + [x['n'] for x in ck.rec('variables_map')['fields']]:
            ok = emptied(w, p, fld(THIS, fl))
            ck.ob('clear() forgets everything', ok, f, 'after clear() %s is empty' % ('the map' if fl == '@base' else fl), w, p.facts)
    # next() and the constructor link the chain
    for q in ('abstract_variables_map::next',):
        for f in ck.fns(q):
            w = ck.view(f)
            for p in w.paths:
                wr = [e for e in p.ev if e.k == 'write' and e.loc == fld(THIS, nx)]
                ck.ob('next() links the given map', len(wr) == 1 and wr[0].val == In(P(f, 0)), f, 'the chain continues with the given map', w, p.facts)
    for f in ck.fns('abstract_variables_map::abstract_variables_map') + ck.fns('variables_map::variables_map'):
        w = ck.view(f)
        for p in w.paths:
            x = w.eng.rd(p.st, fld(THIS, nx))
            want = In(P(f, 0)) if f['ps'] else ('null',)
            if f['ps'] and not tn(f['ps'][0]['t']).endswith('*'):
                continue
            ck.ob('constructors set the chain', x == want or (want == ('null',) and x == ('c', 0)), f, 'a new map continues with the given map or none (%s)' % show(x), w, p.facts)
    # nothing but store(), clear() and construction changes the bookkeeping
    for s_ in ('m_final', 'm_required'):
        pass
    ck.need('default yields to an explicit value of the next map')
    ck.need('clear() forgets everything', 3)
    ck.need('missing value comes from the next map')


def emptied(w, p, loc):
    vv = w.eng.rd(p.st, loc)
    z = size(vv)
    if z == ('c', 0):
        return True
    if vv == ('in', loc):
        return False
    return None if vv[0] in ('phi', 'aft', 'out') else False
