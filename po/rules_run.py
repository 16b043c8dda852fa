"""command line parsing: the round over the style parsers, arity, positionals, unknown options"""
from itertools import product
from .dsl import *
from .rules_cmd import OPQ, CM, STYLE, BITS, cfn, setting, elems, Opt, opts_of, all3, own, untouched, either, grownl, front, reason

FN = 'options_description::find_nothrow'
POS = ['positional_options_description::max_total_count', 'positional_options_description::name_for_position']
RUNQ = OPQ + [CM + 'finish_option'] + POS
ARGS = fld(THIS, 'm_args')
CASES = ('allow_guessing', 'long_case_insensitive', 'short_case_insensitive')


def style_facts(ck, bits, extra=()):
    f = {}
    for n, on in bits.items():
        r = assume(f, has_bits(('in', STYLE), c(ck.enum(n)) if isinstance(ck.enum(n), tuple) else ck.enum(n)), bool(on))
        if not r:
            return None
        f = r[0]
        r = assume(f, tobool(('call', NS + CM + 'is_style_active', THIS, c(ck.enum(n)))), bool(on))
        if not r:
            return None
        f = r[0]
    return f


class Run(object):
    """the analysed run() with the loops of its phases"""
    def __init__(self, ck, bits):
        self.ck = ck
        self.f = f = ck.fn(CM + 'run')
        self.v = v = ck.view(f, RUNQ, facts=style_facts(ck, bits), merge_at=200)
        self.icalls = [(s, i, e) for s, i, e in v.events('icall') if e.f[0] == 'at']
        self.inner = self.outer = None
        ev = list(v.events('loop'))
        for s, i, e in ev:
            ic = lambda l: any(x.k == 'icall' and x.f[0] == 'at' for it in l.iters for x in it.evs)
            if ic(e) and not any(x.k == 'loop' and ic(x) for it in e.iters for x in it.evs):
                self.inner = self.inner or e
        if self.inner is None:
            return
        for s, i, e in ev:
            if s.parent is None and any(x.k == 'loop' and x.id == self.inner.id for it in e.iters for x in flat_evs(it.evs)):
                self.outer = self.outer or e

    def same_loop(self, l):
        return [e for s, i, e in self.v.events('loop') if e.id == l.id]

    def segs(self, l):
        return segs_of(self.v, l)


COMBOS = {'long': (1, 0, 0, 0, 0), 'all': (1, 1, 1, 1, 1), 'dash': (0, 1, 1, 0, 0), 'slash': (1, 1, 0, 1, 0), 'disguise': (0, 0, 0, 0, 1)}


def runs(ck, names=('long', 'all')):
    for n in names:
        yield n, Run(ck, dict(zip(BITS, COMBOS[n])))


def dedup(segs):
    seen, out = set(), []
    for s in segs:
        if id(s) not in seen:
            seen.add(id(s))
            out.append(s)
    return out


# ------------------------------------------------------------- finish_option
class Finish(object):
    def __init__(self, ck):
        self.f = f = cfn(ck, 'finish_option')
        if not f:
            return
        self.v = v = ck.view(f, OPQ)
        self.O, self.R, self.S = P(f, 0), P(f, 1), P(f, 2)
        self.key, self.val, self.org, self.un = [fld(self.O, n) for n in ('string_key', 'value', 'original_tokens', 'unregistered')]
        self.nokey = empty_of(In(self.key))
        self.nv, self.nr = size(In(self.val)), size(In(self.R))

    def look(self, s):
        """the look-up of this option"""
        for e in s.evs:
            if e.k == 'call' and e.q.endswith('find_nothrow') and e.args[0] == In(self.key):
                return e
        return None

    def limits(self, s):
        m = calls(s.evs, 'value_semantic::min_tokens'), calls(s.evs, 'value_semantic::max_tokens')
        return (m[0][0].res if m[0] else None), (m[1][0].res if m[1] else None)


def lookups(ck, v, evs, where, facts, rule):
    for e in evs:
        if e.k == 'call' and e.q.endswith('find_nothrow'):
            for i, b in enumerate(CASES):
                ck.ob(rule, setting(e.args[1 + i], ck.enum(b), facts), e, 'look-up follows %s' % b, v, facts)


def c08(ck):
    F = Finish(ck)
    if F.f:
        v, f = F.v, F.f
        allow = tobool(infld(THIS, 'm_allow_unregistered'))
        n = {'skip': 0, 'flag': 0, 'reject': 0, 'known': 0}
        for s in own(tops(v)):
            for d, g in splits(s.facts, [F.nokey]):
                if d[F.nokey]:
                    n['skip'] += 1
                    ck.ob('positional tokens are not looked up', s.kind == 'ret' and not [e for e in s.evs if e.k in ('write', 'mut') and (under(e.loc, F.O) or e.loc == F.O or e.loc == F.R)], f,
                          'an option without name is left alone', v, g)
                    continue
                L = F.look(s)
                if L is None:
                    ck.ob('every named option is looked up', False if s.kind == 'ret' and deepclean(g) else None, f, 'an option with a name is accepted without look-up', v, g)
                    continue
                for d2, g2 in splits(g, [isnull(L.res)]):
                    if not d2[isnull(L.res)]:
                        n['known'] += 1
                        if s.kind == 'ret':
                            ck.ob('a known option is not flagged', not muts_of(s.evs, F.un), f, 'a declared option must not be marked unregistered', v, g2)
                        if throws(s, 'unknown_option'):
                            ck.ob('a known option is not rejected', False if deepclean(g2) else None, f, 'unknown_option for a declared option', v, g2)
                        continue
                    for d3, g3 in splits(g2, [allow]):
                        if d3[allow]:
                            n['flag'] += 1
                            if s.kind != 'ret':
                                ck.ob('unknown options are flagged when allowed', False, f, 'throws although unregistered options are allowed', v, g3)
                                continue
                            r = all3(end(v, s, F.un) == c(True), same(end(v, s, F.val), In(F.val)), same(end(v, s, F.key), In(F.key)), same(end(v, s, F.org), In(F.org)), same(end(v, s, F.R), In(F.R)))
                            ck.ob('unknown options are flagged when allowed', r, f, 'flag %s, nothing else changed' % show(end(v, s, F.un)), v, g3)
                        else:
                            n['reject'] += 1
                            ck.ob('unknown options are rejected otherwise', throws(s, 'unknown_option'), f, 'an undeclared option is accepted (%s)' % s.kind, v, g3)
        for k, x in n.items():
            ck.ob('finish: case %s occurs' % k, True if x else None, f, 'no path for case %s' % k, v)
        for s in own(tops(v)):
            L = F.look(s)
            if L is not None:
                lookups(ck, v, [L], f, s.facts, 'look-up uses the active settings')
                ck.ob('look-up in the given description', contains(L.oterm, In(fld(THIS, 'm_desc'))) if getattr(L, 'oterm', None) else None, L, 'options are looked up in the description given', v, s.facts)
    for nm, R in runs(ck, ('long', 'all')):
        finished(ck, R)
    config_unknown(ck)
    flags(ck)


def flags(ck):
    """allow_unregistered() reaches the parser"""
    f = cfn(ck, 'allow_unregistered')
    if f:
        v = ck.view(f, [])
        for s in tops(v):
            ck.ob('allow_unregistered is remembered', end(v, s, fld(THIS, 'm_allow_unregistered')) == c(True), f, 'flag set', v, s.facts)


def finished(ck, R):
    """every option a style parser returns is finished before it is reported; the last one may take further tokens"""
    v = R.v
    if R.inner is None:
        ck.ob('every option is checked', None, R.f, 'the loop over the style parsers was not recognised', v)
        return
    done = 0
    for s in dedup(R.segs(R.inner)):
        if s.kind == 'throw':
            continue
        ic = [e for e in s.evs if e.k == 'icall' and e.f[0] == 'at']
        if not ic:
            continue
        N = ic[0].res
        for d, g in splits(s.facts, [empty_of(N)]):
            if d[empty_of(N)]:
                continue
            fin = [(i, e) for i, e in enumerate(s.evs) if e.k == 'call' and e.q.endswith('finish_option')]
            lps = [(i, e) for i, e in enumerate(s.evs) if e.k == 'loop' and any(x.k == 'call' and x.q.endswith('finish_option') for it in e.iters for x in it.evs)]
            psh = [(i, e) for i, e in enumerate(s.evs) if e.k == 'loop' and any(x.k == 'mut' and x.meth in ('push_back', 'emplace_back') for it in e.iters for x in it.evs)]
            if not fin and not lps:
                ck.ob('every option is checked', False if cleanon(g, N) else None, R.f, 'options found by a style parser are reported unchecked', v, about(g, N))
                continue
            done += 1
            # all but the last
            okl = [loop_covers_but_last(v, s, i, e, N) for i, e in lps]
            okl = True if True in okl else False if okl and all(x is False for x in okl) else None
            if not fin:
                okb = False if okl and cleanon(g, N) else None
            else:
                i, e = fin[-1]
                loc = e.argl[0]
                okb = None
                if loc and loc[0] == 'elem':
                    if e.argl[1] and root_of_loc(e.argl[1]) == root_of_loc(R_args(ic[0])):
                        d2 = add(loc[2], c(1))
                        okb = True if any(d2 == size(x) for x in [e.args[0][1] if e.args[0][0] == 'at' else N, N, end_before(s, loc[1])]) else None
                        if okb is None and ival(g, sub(d2, size(N)))[:2] == (0, 0):
                            okb = True
                    else:
                        okb = False if cleanon(g, N) and e.argl[1] else None
            if not lps and fin and okb is not False:
                # the size is not known to be one
                k = ival(g, size(N))[:2]
                okl = True if k == (1, 1) else False if cleanon(g, N) else None
            for j, l in lps:
                for it in l.iters:
                    for e in calls(it.evs, CM + 'finish_option'):
                        if it.kind == 'back' and e.argl[0] and e.argl[0][0] == 'elem' and len(e.argl) > 1:
                            mine = e.argl[1] and root_of_loc(e.argl[1]) == root_of_loc(R_args(ic[0]))
                            zs = {size(N)} | {y for k in it.facts for y in subterms(k) if y and y[0] == 'size' and root_of(y[1]) == e.argl[0][1]}
                            k = [ival(it.facts, sub(add(e.argl[0][2], c(1)), z))[:2] for z in zs]
                            last = True if (0, 0) in k else False if any(y[1] is not None and y[1] < 0 for y in k) else None
                            ck.ob('no other option takes following tokens', True if e.argl[1] and not mine or mine and last else False if mine and last is False else None, R.f, 'an option that is not the last of its token is validated with the remaining tokens', v, {})
            ck.ob('every option is checked', okl, R.f, 'all but the last option of a token are validated', v, about(g, N))
            ck.ob('the last option may take following tokens', okb, R.f, 'the last option is validated with the remaining tokens', v, about(g, N))
    ck.need('every option is checked')


def loop_covers_but_last(view, s, i, e, N):
    """loop e passes every element of N except (at least) the last to finish_option"""
    res = None
    for it in e.iters:
        if it.kind in ('brk', 'ret'):
            return None
        if it.kind != 'back':
            continue
        cs = calls(it.evs, CM + 'finish_option')
        if not cs:
            return False if deepclean(it.facts) else None
        loc = cs[0].argl[0]
        if not (loc and loc[0] == 'elem'):
            return None
        ixs = [t for l, t in loop_ix(e) if t == loc[2]]
        exits = exits_of(view, e)
        if not ixs or not exits:
            return None
        t = ixs[0]
        if t[2] not in (0, None) or (isinstance(t[1][3], int) and t[1][3] > 1):
            return False
        if t[2] != 0 or t[1][3] != 1:
            return None
        for x in exits:
            zs = {y for k in x.facts for y in subterms(k) if y and y[0] == 'size' and root_of(y[1]) == loc[1]} | {size(N)}
            if any((ival(x.facts, sub(t, z))[0] or 0) >= -1 and ival(x.facts, sub(t, z))[0] is not None for z in zs):
                res = True if res is None else res
                continue
            other = {y for k in x.facts if contains(k, t) for y in base_terms(k)} - zs - {t}
            return False if not other else None
    return res


def R_args(e):
    return e.argl[0] if e.argl else None


def root_of_loc(l):
    return l


def end_before(s, loc):
    return s.st.store.get(loc, ('in', loc))


def root_of(t):
    """location a container value belongs to"""
    if t[0] == 'phi':
        return t[2]
    if t[0] == 'in':
        return t[1]
    if t[0] == 'mutel':
        return root_of(t[1])
    return None


# ------------------------------------------------------- configuration files
def field_atom(facts, name):
    """the boolean term under which a path asks for member `name` of *this (None if it does not)"""
    for k in facts:
        for t in subterms(k):
            if t and ((t[0] == 'in' and t[1] == fld(THIS, name)) or (t[0] == 'aft' and t[2] == name)):
                return tobool(t)
    return None


def config_unknown(ck):
    f = ck.opt('detail::common_config_file_iterator::get')
    if not f:
        return
    v = ck.view(f, ['detail::common_config_file_iterator::allowed_option', 'detail::common_config_file_iterator::getline'], merge_at=400)
    VAL = fld(THIS, 'm_value')
    n = 0
    for s in own(tops(v)):
        A = [e for e in flat_evs(s.evs) if False] or [e for e in s.evs if e.k == 'call' and e.q.endswith('allowed_option')]
        wr = [e for e in s.evs if e.k in ('write', 'mut') and under(e.loc, VAL)]
        if not A:
            if wr and s.kind == 'ret':
                ck.ob('config: every setting is checked', False if deepclean(s.facts) else None, f, 'an option is reported without asking whether it is declared', v, s.facts)
            continue
        a = A[-1]
        al = field_atom(s.facts, 'm_allow_unregistered')
        reg = tobool(a.res)
        for d, g in splits(s.facts, [reg] + ([al] if al is not None else [])):
            n += 1
            if d[reg]:
                ok = s.kind == 'ret' and bsame(g, end(v, s, fld(VAL, 'unregistered')), False)
                ck.ob('config: a declared setting is reported as registered', ok, f, 'declared: %s %s' % (s.kind, show(end(v, s, fld(VAL, 'unregistered')))), v, g)
            elif al is None:
                ck.ob('config: undeclared settings', False if deepclean(s.facts) else None, f, 'the treatment of undeclared names does not depend on allow_unregistered', v, g)
            elif d[al]:
                ok = s.kind == 'ret' and bsame(g, end(v, s, fld(VAL, 'unregistered')), True)
                ck.ob('config: undeclared settings are flagged when allowed', ok, f, '%s, flag %s' % (s.kind, show(end(v, s, fld(VAL, 'unregistered')))), v, g)
            else:
                t, args = exc_in(s)
                ok = throws(s, 'unknown_option')
                ck.ob('config: undeclared settings are rejected otherwise', ok, f, 'got %s' % s.kind, v, g)
                if ok and args:
                    ck.ob('config: the error names the setting', same(args[0], a.args[0]), f, 'names %s' % show(args[0])[:60], v, g)
            if s.kind == 'ret' and wr:
                ck.ob('config: the checked name is the reported one', same(end(v, s, fld(VAL, 'string_key')), a.args[0], phis(a.args[0], end(v, s, fld(VAL, 'string_key')))), f, 'name', v, g)
    ck.ob('config: settings are checked', True if n else None, f, 'no look-up found', v)
