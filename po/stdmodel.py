"""Abstract transfer functions for the standard library and Boost callees."""
from .facts import *
from .engine import LV, Ev, tn, bare, family, ctor_family, is_mut_ref, under

SPAN = ('range',)


def mapdel(mv, k):
    return ('del', mv, k)


class StdModel(object):

    # ------------------------------------------------------------ helpers
    def mut(self, st, fr, e, meth, loc, args, new, old=None):
        old = self.rd(st, loc) if old is None else old
        self.event(st, fr, e, 'mut', meth=meth, loc=loc, args=args, old=old, val=new)
        if meth in ('push_back',) and loc[0] not in ('deref',):
            # elements keep their separately written parts
            self.wr_container(st, loc, new, keep=True)
        else:
            self.wr_container(st, loc, new)

    def seqval(self, st, loc):
        v = self.rd_nool(st, loc)
        if v[0] == 'uninit':
            return v
        return v

    def fresh(self, st, kind, *a):
        return (kind,) + a + (('io', self.opq(st)),)

    def find_term(self, kind, s, pat, frm, facts=None):
        if s[0] == 'str' and pat[0] == 'str' and is_c(frm) and kind in ('find', 'rfind'):
            if kind == 'find':
                return c(s[1].find(pat[1], frm[1]))
        if pat == ('str', '') and kind == 'find':
            return frm
        if s == ('str', '') and not (kind in ('find', 'rfind') and (pat[0] != 'str' or not pat[1])):
            return c(NPOS)
        if kind == 'find' and s[0] == 'cat' and s[1][0] == 'str' and pat[0] == 'str' and len(pat[1]) == 1 and frm == c(0) and pat[1] not in s[1][1]:
            return add(self.find_term(kind, cat(*s[2:]), pat, frm, facts), c(len(s[1][1])))
        if kind == 'find' and s[0] == 'sub' and facts is not None and pat[0] == 'str' and len(pat[1]) == 1 and frm == c(0) and is_c(s[2]) and s[2][1] <= 3 and s[3] == size(s[1]):
            # the skipped characters are known not to be the one searched
            if all(truth(facts, cmp_('==', at(s[1], c(i)), c(ord(pat[1])))) is False for i in range(s[2][1])):
                return sub(self.find_term(kind, s[1], pat, frm, facts), s[2])
        if kind in TWIN and s[0] == 'sub' and facts is not None and frm == (c(0) if kind in ('ffno', 'ffo') else c(NPOS)):
            # the text begins (ends) at such a character: the last (first) one is that of the longer text
            for t in [x for p in s[2:4] for x in lin(p)[1]]:
                if t[0] == TWIN[kind] and t[2] == pat and facts.get(('found', t)) is True:
                    b0, b1 = (t[1][2], t[1][3]) if t[1][0] == 'sub' and t[1][1] == s[1] else (c(0), size(s[1])) if t[1] == s[1] else (None, None)
                    if b0 is None:
                        continue
                    if kind in ('flno', 'flo') and s[3] == b1 and s[2] == add(b0, t) and t[3] == c(0):
                        return sub((kind, t[1], pat, frm), t)
                    if kind in ('ffno', 'ffo') and s[2] == b0 and s[3] == add(add(b0, t), c(1)) and t[3] == c(NPOS):
                        return (kind, t[1], pat, frm)
        return (kind, s, pat, frm)

    def pat(self, v, pt):
        t = tn(pt)
        if t in ('char', 'wchar_t', 'const char', 'const wchar_t'):
            return cat(('chr', v))
        return self.strof(v)

    def split_le(self, st, a, b):
        """[(st, bool)]: a <= b"""
        return self.branch(st, cmp_('<=', a, b))

    def has(self, mv, k):
        if mv[0] == 'map0' or mv == ('seq',):
            return F
        if mv[0] == 'mutel':
            return self.has(mv[1], k)
        if mv[0] in ('ins', 'sins'):
            e_ = eq(mv[2], k)
            if e_ == T:
                return T
            return or_(e_, self.has(mv[1], k))
        if mv[0] == 'del':
            e_ = eq(mv[2], k)
            if e_ == T:
                return F
            return and_(neg(e_), self.has(mv[1], k))
        return ('has', mv, k)

    def elem_default(self, e):
        return None

    # ------------------------------------------------------------ dispatcher
    def std_call(self, e, fr, st):
        q = e['q']
        n = q.split('::')[-1]
        fam = family(q)
        out = []
        if 'o' in e and e['o'] is not None:
            for s, o in self.obj_std(e, fr, st, fam):
                for s2, rs in self.Cs(e['a'], fr, s):
                    vs = tuple(self.rd(s2, r.loc) if isinstance(r, LV) else r for r in rs)
                    m = getattr(self, 'f_' + fam, None) if fam else None
                    r = m(n, e, fr, s2, o, vs, rs) if m else None
                    if r is None:
                        r = self.f_unknown_member(n, e, fr, s2, o, vs, rs)
                    out += r
            return out
        for s2, rs in self.Cs(e['a'], fr, st):
            vs = tuple(self.rd(s2, r.loc) if isinstance(r, LV) else r for r in rs)
            r = self.f_free(q, n, e, fr, s2, vs, rs)
            if r is None:
                r = self.f_unknown_free(q, n, e, fr, s2, vs, rs)
            out += r
        return out

    def obj_std(self, e, fr, st, fam):
        """location of the receiver object"""
        if e.get('ar') and e['o']['k'] != 'this':
            out = []
            for s, v in self.E(e['o'], fr, st):
                self.deref_ob(s, fr, e, v)
                out.append((s, self.up(self.deref(v), self.stype(e['o'], fr)) if fam in ('V', 'M', 'X', 'S') else self.deref(v)))
            return out
        if e['o']['k'] == 'this':
            return [(st, self.up(fr.this, self.stype(e['o'], fr)))]
        if fam in ('V', 'M', 'X', 'S'):
            return [(s, self.up(l, self.stype(e['o'], fr))) for s, l in self.L(e['o'], fr, st)]
        return self.L(e['o'], fr, st)

    def f_unknown_member(self, n, e, fr, st, o, vs, rs):
        q = e['q']
        if n == 'operator()' and ('bind' in q or 'function' in q or 'mem_fn' in q):
            return self.call_value(self.rd(st, o), rs, e, fr, st)
        if n == 'operator=' and vs and (e.get('asg') or q.startswith('std::pair') or q.startswith('std::_Bit_reference') or q.startswith('std::tuple')):
            self.event(st, fr, e, 'write', loc=o, val=vs[0], old=self.rd(st, o))
            self.assign(st, o, vs[0])
            return [(st, LV(o))]
        if 'tokenizer::' in q and n in ('begin', 'end'):
            return [(st, ('tok' + n, self.rd(st, o)))]
        const = e.get('cm')
        ov = self.rd(st, o)
        muts = [(i, r) for i, r in enumerate(rs) if isinstance(r, LV) and i < len(e.get('pt', [])) and is_mut_ref(e['pt'][i])]
        if const and not muts and not any(v[0] in ('it', 'rit', 'lam', 'bind', 'fn', 'mend') for v in vs):
            self.pure_std.add(e['q'])         # a function of its arguments: an ordinary opaque term
        else:
            self.unmodelled.add(e['q'])
        if const and not muts:
            res = ('call', e['q'], ov) + vs
        else:
            res = ('call', e['q'], ov) + vs + (('io', self.opq(st)),)
            self.event(st, fr, e, 'mut', meth=n, loc=o, args=vs, old=ov, val=('aft', e['q'], '', res[-1]))
            for i, r in muts:
                self.havoc_loc(st, r.loc, ('out', e['q'], i) + (res[-1],))
            if not const:
                self.havoc_loc(st, o, ('aft', e['q'], '', res[-1]))
        r = e.get('r', '').strip()
        return [(st, res)]

    def f_unknown_free(self, q, n, e, fr, st, vs, rs):
        muts = [(i, r) for i, r in enumerate(rs) if isinstance(r, LV) and i < len(e.get('pt', [])) and is_mut_ref(e['pt'][i])]
        if not muts and not any(v[0] in ('it', 'rit', 'lam', 'bind', 'fn', 'mend', 'ptr', 'heapptr') for v in vs):
            self.pure_std.add(q)
        else:
            if not q.startswith('po_probe::'):       # the probe's own opaque conversion
                self.unmodelled.add(q)
        ptrs = [(i, v) for i, v in enumerate(vs) if v[0] == 'ptr' and i < len(e.get('pt', [])) and '*' in e['pt'][i] and not e['pt'][i].startswith('const')]
        res = ('call', q) + vs
        if muts or ptrs:
            res += (('io', self.opq(st)),)
            for i, r in muts:
                self.havoc_loc(st, r.loc, ('out', q, i) + (res[-1],))
            for i, v in ptrs:
                self.havoc_loc(st, v[1], ('out', q, i) + (res[-1],))
        self.event(st, fr, e, 'ext', q=q, args=vs, res=res)
        return [(st, res)]

    # ------------------------------------------------------------ strings
    def f_S(self, n, e, fr, st, o, vs, rs):
        s = self.rd(st, o)
        pt = e.get('pt', [])
        N = len(vs)
        if n in ('size', 'length'):
            return [(st, size(s))]
        if n == 'empty':
            return [(st, empty_of(s))]
        if n in ('c_str', 'data'):
            return [(st, ('c_str', s) if n == 'c_str' else ('data', s))]
        if n in ('begin', 'cbegin'):
            return [(st, ('it', o, c(0)))]
        if n in ('end', 'cend'):
            return [(st, ('it', o, size(s)))]
        if n in ('rbegin', 'crbegin'):
            return [(st, ('rit', o, sub(size(s), c(1))))]
        if n in ('rend', 'crend'):
            return [(st, ('rit', o, c(-1)))]
        if n in ('operator[]', 'at', 'front', 'back'):
            i = vs[0] if vs else c(0) if n == 'front' else sub(size(s), c(1))
            if n == 'operator[]':
                self.idx_ob(st, fr, e, 'string subscript', o, s, i, cmp_('<=', i, size(s)))
            elif n == 'at':
                return self.throw_if(st, fr, e, neg(cmp_('<', i, size(s))), 'std::out_of_range', LV(('elem', o, i)))
            else:
                self.idx_ob(st, fr, e, 'string ' + n, o, s, i)
            return [(st, LV(('elem', o, i)))]
        if n in ('find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of', 'find_last_not_of'):
            k = {'find': 'find', 'rfind': 'rfind', 'find_first_of': 'ffo', 'find_first_not_of': 'ffno', 'find_last_of': 'flo',
                 'find_last_not_of': 'flno'}[n]
            p = self.pat(vs[0], pt[0])
            if N == 3:
                p = substr(p, c(0), vs[2])
            if len(p) == 2 and p[0] == 'str' and len(p[1]) == 1 and k == 'ffo':
                k = 'find'
            if len(p) == 2 and p[0] == 'str' and len(p[1]) == 1 and k == 'flo':
                k = 'rfind'
            frm = vs[1] if N > 1 else c(0) if k in ('find', 'ffo', 'ffno') else c(NPOS)
            return [(st, self.find_term(k, s, p, frm, st.facts))]
        if n == 'compare':
            if N == 1:
                return [(st, ('strcompare', s, self.strof(vs[0])))]
            out = []
            for s2, sv in self.substr_of(e, fr, st, o, s, vs[0], vs[1]):
                b = self.strof(vs[2])
                if N == 4:
                    b = substr(b, c(0), vs[3])
                out.append((s2, ('strcompare', sv, b)))
            return out
        if n in ('starts_with', 'ends_with'):
            p = self.pat(vs[0], pt[0])
            return [(st, prefix(s, p) if n == 'starts_with' else ('b', ('suffix', s, p)))]
        if n == 'substr':
            a = vs[0] if N > 0 else c(0)
            l = vs[1] if N > 1 else c(NPOS)
            return self.substr_of(e, fr, st, o, s, a, l)
        if n in ('operator=', 'assign'):
            if N == 1:
                v = self.pat(vs[0], pt[0])
                if v[0] == 'seq':
                    v = cat(*[('chr', x) for x in v[1:]])
            elif N == 2 and (vs[0][0] in ('it', 'padd', 'rit', 'data') or 'iterator' in pt[0]):
                v = self.range_val(st, vs[0], vs[1])
            elif N == 2 and tn(pt[1]) in ('char', 'wchar_t'):
                v = ('rep', vs[0], vs[1])
            elif N == 2:
                v = substr(self.strof(vs[0]), c(0), vs[1])
            else:
                v = substr(self.strof(vs[0]), vs[1], size(vs[0]) if vs[2] == c(NPOS) else add(vs[1], vs[2]))
            self.event(st, fr, e, 'write', loc=o, val=v, old=s)
            self.assign(st, o, v)
            return [(st, LV(o))]
        if n in ('operator+=', 'append', 'push_back'):
            if N == 1:
                v = self.pat(vs[0], pt[0])
            elif vs[0][0] in ('it', 'padd', 'rit', 'data') or 'iterator' in pt[0]:
                v = self.range_val(st, vs[0], vs[1])
            elif N == 2 and tn(pt[1]) in ('char', 'wchar_t'):
                v = cat(('chr', vs[1])) if vs[0] == c(1) else ('rep', vs[0], vs[1])
            elif N == 2:
                v = substr(self.strof(vs[0]), c(0), vs[1])
            else:
                v = substr(self.strof(vs[0]), vs[1], size(vs[0]) if vs[2] == c(NPOS) else add(vs[1], vs[2]))
            nv = cat(s, v)
            self.mut(st, fr, e, 'append', o, (v,), nv, s)
            return [(st, LV(o) if n != 'push_back' else ('void',))]
        if n == 'clear':
            self.mut(st, fr, e, 'clear', o, (), ('str', ''), s)
            return [(st, ('void',))]
        if n == 'pop_back':
            self.idx_ob(st, fr, e, 'string pop_back', o, s, sub(size(s), c(1)))
            self.mut(st, fr, e, 'resize', o, (sub(size(s), c(1)),), substr(s, c(0), sub(size(s), c(1))), s)
            return [(st, ('void',))]
        if n == 'resize' and N == 1:
            out = []
            for s2, b in self.split_le(st, vs[0], size(s)):
                nv = substr(s, c(0), vs[0]) if b else cat(s, ('rep', sub(vs[0], size(s)), c(0)))
                self.mut(s2, fr, e, 'resize', o, vs, nv, s)
                out.append((s2, ('void',)))
            return out
        if n == 'erase':
            if N and vs[0][0] == 'it':
                a = vs[0][2]
                b = vs[1][2] if N > 1 and vs[1][0] == 'it' else add(a, c(1))
                if N == 1:
                    self.idx_ob(st, fr, e, 'string erase', o, s, a)
                nv = cat(substr(s, c(0), a), substr(s, b, size(s)))
                self.mut(st, fr, e, 'erase', o, vs, nv, s)
                return [(st, ('it', o, a))]
            a = vs[0] if N else c(0)
            l = vs[1] if N > 1 else c(NPOS)
            out = []
            for s2, lo, hi in self.span_of(e, fr, st, s, a, l, 'string erase'):
                nv = cat(substr(s, c(0), lo), substr(s, hi, size(s)))
                self.mut(s2, fr, e, 'erase', o, (lo, hi), nv, s)
                out.append((s2, LV(o)))
            return out
        if n == 'insert':
            if vs[0][0] == 'it':
                a = vs[0][2]
                v = cat(('chr', vs[1])) if N == 2 and not isstr(vs[1]) else self.range_val(st, vs[1], vs[2]) if N == 3 else ('rep', vs[1], vs[-1])
                r = ('it', o, a)
            else:
                a = vs[0]
                v = ('rep', vs[1], vs[2]) if N == 3 and tn(pt[2]) in ('char', 'wchar_t') else self.strof(vs[1])
                if N == 3 and v[0] == 'rep' and v[1] == c(1):
                    v = cat(('chr', vs[2]))
                elif N >= 3 and v[0] != 'rep':
                    v = substr(v, c(0), vs[2])
                r = LV(o)
                self.idx_ob(st, fr, e, 'string insert', o, s, a, cmp_('<=', a, size(s)))
            nv = cat(substr(s, c(0), a), v, substr(s, a, size(s)))
            self.mut(st, fr, e, 'insert', o, (a, v), nv, s)
            return [(st, r)]
        if n == 'replace':
            if vs[0][0] == 'it':
                spans = [(st, vs[0][2], vs[1][2])]
                rep = vs[2:]
                rpt = pt[2:]
            else:
                spans = self.span_of(e, fr, st, s, vs[0], vs[1], 'string replace')
                rep = vs[2:]
                rpt = pt[2:]
            out = []
            for s2, lo, hi in spans:
                if len(rep) == 1:
                    v = self.strof(rep[0])
                elif len(rep) == 2 and tn(rpt[1]) in ('char', 'wchar_t'):
                    v = ('rep', rep[0], rep[1])
                elif len(rep) == 2 and rep[0][0] == 'it':
                    v = self.range_val(s2, rep[0], rep[1])
                else:
                    v = ('strpart',) + tuple(rep)
                nv = cat(substr(s, c(0), lo), v, substr(s, hi, size(s)))
                self.mut(s2, fr, e, 'replace', o, (lo, hi, v), nv, s)
                out.append((s2, LV(o)))
            return out
        if n == 'swap':
            return self.swap(e, fr, st, o, rs[0].loc)
        if n in ('reserve', 'shrink_to_fit'):
            return [(st, ('void',))]
        if n in ('capacity', 'max_size'):
            return [(st, ('call', e['q'], s))]
        if n.startswith('operator basic_string_view') or n.startswith('operator std::basic_string_view'):
            return [(st, LV(o))]
        if n in ('remove_prefix',):
            self.mut(st, fr, e, 'erase', o, vs, substr(s, vs[0], size(s)), s)
            return [(st, ('void',))]
        return None

    def throw_if(self, st, fr, e, cond, t, res):
        out = []
        for s2, b in self.branch(st, cond):
            if b:
                loc = self.tmp(s2)
                s2.store[loc] = ('thrown', e['q'], t)
                self.event(s2, fr, e, 'xthrow', q=e['q'], t=t)
                self.raise_(s2, ('exc', t, loc))
            else:
                out.append((s2, res))
        return out

    def span_of(self, e, fr, st, s, a, l, what):
        """(st, lo, hi) for position a, length l, clamped to the string; a > size is an obligation"""
        self.idx_ob(st, fr, e, what + ' position', None, s, a, cmp_('<=', a, size(s)))
        if l == c(NPOS):
            return [(st, a, size(s))]
        out = []
        for s2, b in self.branch(st, cmp_('<=', add(a, l), size(s))):
            out.append((s2, a, add(a, l) if b else size(s)))
        return out

    def substr_of(self, e, fr, st, o, s, a, l):
        return [(s2, substr(s, lo, hi)) for s2, lo, hi in self.span_of(e, fr, st, s, a, l, 'substr')]

    def swap(self, e, fr, st, a, b):
        va, vb = self.rd(st, a), self.rd(st, b)
        self.event(st, fr, e, 'write', loc=a, val=vb, old=va)
        self.event(st, fr, e, 'write', loc=b, val=va, old=vb)
        self.assign(st, a, vb)
        self.assign(st, b, va)
        return [(st, ('void',))]

    # ------------------------------------------------------------ vectors
    def f_V(self, n, e, fr, st, o, vs, rs):
        v = self.seqval(st, o)
        pt = e.get('pt', [])
        N = len(vs)
        if n == 'size':
            return [(st, size(v))]
        if n == 'empty':
            return [(st, empty_of(v))]
        if n in ('begin', 'cbegin'):
            return [(st, ('it', o, c(0)))]
        if n in ('end', 'cend'):
            return [(st, ('it', o, size(v)))]
        if n in ('rbegin', 'crbegin'):
            return [(st, ('rit', o, sub(size(v), c(1))))]
        if n in ('rend', 'crend'):
            return [(st, ('rit', o, c(-1)))]
        if n == 'data':
            return [(st, ('ptr', ('elem', o, c(0))))]
        if n in ('operator[]', 'at', 'front', 'back'):
            i = vs[0] if vs else c(0) if n == 'front' else sub(size(v), c(1))
            if n == 'at':
                return self.throw_if(st, fr, e, neg(cmp_('<', i, size(v))), 'std::out_of_range', LV(('elem', o, i)))
            self.idx_ob(st, fr, e, 'vector ' + n, o, v, i)
            return [(st, LV(('elem', o, i)))]
        if n in ('push_back', 'emplace_back'):
            x = vs[0] if N == 1 else ('new', '?') + vs
            full = self.rd(st, o)
            self.event(st, fr, e, 'mut', meth='push_back', loc=o, args=(x,), old=v, val=('push', v, x))
            nv = ('seq',) + v[1:] + (x,) if v[0] == 'seq' and len(v) < 12 else ('push', v, x)
            idx = size(v)
            fresh = ('elem', o, idx)
            for k in [k for k in st.store if isinstance(k, tuple) and (k == fresh or (k[0] in ('fld', 'elem', 'anyval') and under(k, fresh)))]:
                del st.store[k]
            self.wr_container(st, o, nv, keep=True)
            return [(st, ('void',) if n == 'push_back' else LV(fresh))]
        if n == 'pop_back':
            self.idx_ob(st, fr, e, 'vector pop_back', o, v, sub(size(v), c(1)))
            nv = v[1] if v[0] == 'push' else ('seq',) + v[1:-1] if v[0] == 'seq' and len(v) > 1 else substr(v, c(0), sub(size(v), c(1)))
            self.mut(st, fr, e, 'pop_back', o, (), nv, v)
            return [(st, ('void',))]
        if n == 'clear':
            self.mut(st, fr, e, 'clear', o, (), ('seq',), v)
            return [(st, ('void',))]
        if n in ('operator=', 'assign'):
            if N == 1:
                x = vs[0]
            elif vs[0][0] in ('it', 'padd', 'rit') or 'iterator' in pt[0]:
                x = self.range_val(st, vs[0], vs[1])
            else:
                x = ('rep', vs[0], vs[1])
            self.event(st, fr, e, 'write', loc=o, val=x, old=self.rd(st, o))
            self.assign(st, o, x)
            return [(st, LV(o))]
        if n == 'erase':
            if vs[0][0] != 'it':
                return None
            a = vs[0][2]
            if N == 1:
                self.idx_ob(st, fr, e, 'vector erase', o, v, a)
                b = add(a, c(1))
            else:
                b = vs[1][2]
            if a == c(0):
                nv = ('seq',) + v[1 + b[1]:] if v[0] == 'seq' and is_c(b) else substr(v, b, size(v)) if v[0] != 'tail' else substr(v, b, size(v))
            elif b == size(v):
                nv = substr(v, c(0), a)
            else:
                nv = ('erased', v, a, b)
            self.mut(st, fr, e, 'erase', o, (a, b), nv, v)
            return [(st, ('it', o, a))]
        if n == 'insert':
            if vs[0][0] == 'it' and vs[0][2] == size(v) and vs[0][1] == o:
                if N == 2:
                    self.event(st, fr, e, 'mut', meth='push_back', loc=o, args=(vs[1],), old=v, val=('push', v, vs[1]))
                    self.wr_container(st, o, ('push', v, vs[1]), keep=True)
                    return [(st, ('it', o, size(v)))]
                if N == 3 and vs[1][0] in ('it', 'rit'):
                    return [(s, ('it', o, size(v))) for s, _ in self.alg_loop(e, fr, st, vs[1], vs[2], lambda s, el: self.sink(e, fr, s, ('bi', o), self.rd(s, el.loc) if isinstance(el, LV) else el))]
            a = vs[0][2] if vs[0][0] == 'it' else vs[0]
            if N == 3 and vs[1][0] in ('it', 'rit'):
                x = self.range_val(st, vs[1], vs[2])
            else:
                x = ('seq', vs[1])
            self.mut(st, fr, e, 'insert', o, (a, x), ('inserted', v, a, x), v)
            return [(st, ('it', o, a))]
        if n == 'emplace':
            self.mut(st, fr, e, 'insert', o, vs, ('inserted', v, vs[0], ('seq',) + vs[1:]), v)
            return [(st, vs[0])]
        if n == 'resize':
            if N >= 1 and size(v) == c(0) and N > 1:
                nv = ('rep', vs[0], vs[1])
            else:
                nv = ('resized', v) + vs
            self.mut(st, fr, e, 'resize', o, vs, nv, v)
            return [(st, ('void',))]
        if n == 'swap':
            return self.swap(e, fr, st, o, rs[0].loc)
        if n in ('reserve', 'shrink_to_fit'):
            return [(st, ('void',))]
        return None

    # ------------------------------------------------------------ sets / maps
    def f_X(self, n, e, fr, st, o, vs, rs, ismap=False):
        v = self.seqval(st, o)
        if v == ('seq',):
            v = ('map0',)
        N = len(vs)
        if n == 'size':
            return [(st, size(v))]
        if n == 'empty':
            return [(st, empty_of(v))]
        if n in ('begin', 'cbegin'):
            return [(st, ('it', o, c(0)))]
        if n in ('end', 'cend'):
            return [(st, ('it', o, ('mend', v)))]
        if n in ('find',):
            return [(st, ('it', o, ('key', v, vs[0])))]
        if n in ('count', 'contains'):
            return [(st, self.has(v, vs[0]))]
        if n in ('lower_bound', 'upper_bound'):
            return [(st, ('it', o, (n[0] + 'b', v, vs[0])))]
        if n == 'clear':
            self.mut(st, fr, e, 'clear', o, (), ('map0',), v)
            return [(st, ('void',))]
        if n == 'operator=':
            self.event(st, fr, e, 'write', loc=o, val=vs[0], old=self.rd(st, o))
            self.assign(st, o, vs[0])
            return [(st, LV(o))]
        if n in ('swap',):
            return self.swap(e, fr, st, o, rs[0].loc)
        if n == 'erase' and N == 2:
            whole = vs[0][0] == 'it' and vs[0][2] == c(0) and vs[1][0] == 'it' and vs[1][2] in (('mend', v), size(v))
            self.mut(st, fr, e, 'clear' if whole else 'erase', o, vs, ('map0',) if whole else ('delrange', v) + vs, v)
            return [(st, vs[1])]
        if n == 'erase':
            k = vs[0]
            if k[0] == 'it':
                k = k[2][2] if k[2][0] == 'key' else ('keyat', v, k[2])
            self.mut(st, fr, e, 'erase', o, (k,), ('del', v, k), v)
            return [(st, ('b', ('erased', v, k)))]
        if not ismap:
            if n in ('insert', 'emplace') and N == 1:
                k = vs[0]
                h = self.has(v, k)
                self.event(st, fr, e, 'mut', meth='insert', loc=o, args=(k,), old=v, val=('sins', v, k))
                if truth(st.facts, h) is not True:
                    self.wr_container(st, o, ('sins', v, k), keep=True)
                return [(st, ('pair', ('it', o, ('key', v, k)), neg(h)))]
            if n == 'insert' and N == 2:
                if vs[0][0] in ('it', 'rit') and vs[1][0] in ('it', 'rit'):
                    src = self.rd_nool(st, vs[0][1])
                    if vs[0][2] == c(0) and vs[1][2] in (('mend', src), size(src)):
                        self.event(st, fr, e, 'mut', meth='insert_all', loc=o, args=(src,), old=v, val=('union', v, src))
                        self.wr_container(st, o, ('union', v, src), keep=True)
                        return [(st, ('void',))]
                    return [(s, ('void',)) for s, _ in self.alg_loop(e, fr, st, vs[0], vs[1], lambda s, el: self.sink(e, fr, s, ('ins', o), self.rd(s, el.loc) if isinstance(el, LV) else el))]
                return self.f_X('insert', dict(e), fr, st, o, vs[1:], rs[1:])
        return None

    def f_M(self, n, e, fr, st, o, vs, rs):
        v = self.seqval(st, o)
        if v == ('seq',):
            v = ('map0',)
            st.store[o] = v
        if n in ('operator[]', 'at'):
            k = vs[0]
            h = truth(st.facts, self.has(v, k))
            if n == 'at':
                return self.throw_if(st, fr, e, neg(self.has(v, k)), 'std::out_of_range', LV(('elem', o, ('key', k))))
            if h is not True:
                self.event(st, fr, e, 'mut', meth='map[]', loc=o, args=(k,), old=v, val=('ins', v, k), hask=h)
                self.wr_container(st, o, ('ins', v, k), keep=True)
                if h is False:
                    vt = self.mapped_default(e)
                    if vt is not None:
                        st.store[('elem', o, ('key', k))] = vt
            return [(st, LV(('elem', o, ('key', k))))]
        if n in ('insert', 'emplace', 'try_emplace', 'insert_or_assign'):
            if n == 'insert' and len(vs) == 2 and vs[0][0] == 'it' and vs[1][0] == 'it':
                src = self.rd_nool(st, vs[0][1])
                self.event(st, fr, e, 'mut', meth='insert_all', loc=o, args=(src,), old=v, val=('union', v, src))
                self.wr_container(st, o, ('union', v, src))
                return [(st, ('void',))]
            if n in ('insert',) and len(vs) == 2:
                vs = vs[1:]
            if len(vs) == 1:
                p = vs[0]
                k, x = self.proj(p, 'first'), self.proj(p, 'second')
            elif len(vs) == 2:
                k, x = vs
            else:
                return None
            h = self.has(v, k)
            out = []
            for s2, b in self.branch(st, h):
                it = ('it', o, ('key', v, k))
                if not b or n == 'insert_or_assign':
                    nv = ('ins', v, k) if not b else v
                    self.event(s2, fr, e, 'mut', meth='map[]', loc=o, args=(k,), old=v, val=nv, hask=b)
                    self.wr_container(s2, o, nv, keep=True)
                    el = ('elem', o, ('key', k))
                    self.event(s2, fr, e, 'write', loc=el, val=x, old=self.rd(s2, el))
                    self.assign(s2, el, x)
                    it = ('it', o, ('key', nv, k))
                out.append((s2, ('pair', it, c(not b))))
            return out
        return self.f_X(n, e, fr, st, o, vs, rs, True)

    def mapped_default(self, e):
        """default value of the mapped type of a map operator[] call"""
        cls = tn(e.get('cls', ''))
        r = e.get('r')
        if not r:
            return None
        fam = ctor_family(r)
        if fam:
            return self.default_of(fam, r)
        b = bare(r)
        if b in ('int', 'unsigned int', 'bool', 'long'):
            return c(0)
        rec = self.p.records.get(b)
        if rec:
            return self.default_obj(rec)
        return None

    # ------------------------------------------------------------ iterators
    def f_I(self, n, e, fr, st, o, vs, rs):
        v = self.rd(st, o)
        if n == 'operator=':
            self.event(st, fr, e, 'write', loc=o, val=vs[0], old=v)
            self.assign(st, o, vs[0])
            return [(st, LV(o))]
        if v[0] not in ('it', 'rit'):
            return self.f_I_opaque(n, e, fr, st, o, v, vs, rs)
        if n == 'operator*':
            self.deref_ob(st, fr, e, v)
            return [(st, LV(self.deref(v)))]
        if n == 'operator->':
            return [(st, v)]
        if n == 'operator[]':
            w = self.ptr_arith('+', v, vs[0])
            self.deref_ob(st, fr, e, w)
            return [(st, LV(self.deref(w)))]
        if n in ('operator++', 'operator--'):
            new = self.step(v, 1 if n.endswith('++') else -1)
            self.event(st, fr, e, 'write', loc=o, val=new, old=v)
            self.assign(st, o, new)
            return [(st, v if vs else LV(o))]
        if n in ('operator+', 'operator-'):
            return [(st, self.ptr_arith(n[-1], v, vs[0]))]
        if n in ('operator+=', 'operator-='):
            new = self.ptr_arith(n[-2], v, vs[0])
            self.event(st, fr, e, 'write', loc=o, val=new, old=v)
            self.assign(st, o, new)
            return [(st, LV(o))]
        if n == 'base':
            if v[0] == 'rit':
                return [(st, ('it', v[1], add(v[2], c(1))))]
            return [(st, v)]
        return None

    def f_I_opaque(self, n, e, fr, st, o, v, vs, rs):
        if n == 'operator*':
            return [(st, LV(('deref', v)))]
        if n == 'operator->':
            return [(st, v)]
        if n in ('operator++', 'operator--'):
            new = ('adv', v)
            # repeated advance of an opaque iterator
            self.event(st, fr, e, 'write', loc=o, val=new, old=v)
            self.assign(st, o, new)
            return [(st, v if vs else LV(o))]
        if n in ('operator+', 'operator-'):
            return [(st, ('op', n, v, vs[0]))]
        if n in ('operator+=', 'operator-='):
            new = ('op', n, v, vs[0])
            self.event(st, fr, e, 'write', loc=o, val=new, old=v)
            self.assign(st, o, new)
            return [(st, LV(o))]
        if n == 'base':
            return [(st, ('base', v))]
        return None

    # ------------------------------------------------------------ any / function / pointers / optional
    def f_A(self, n, e, fr, st, o, vs, rs):
        v = self.rd(st, o)
        if n == 'empty':
            return [(st, self.anyempty(v))]
        if n == 'operator=':
            x = vs[0]
            t = bare(e['pt'][0]) if e.get('pt') else '?'
            if t != 'boost::any':
                t0 = (e.get('ta') or [None])[0]
                x = ('any', bare(t0) if t0 else t, x)
            self.event(st, fr, e, 'write', loc=o, val=x, old=v)
            self.assign(st, o, x)
            return [(st, LV(o))]
        if n == 'swap':
            if isinstance(rs[0], LV):
                self.swap(e, fr, st, o, rs[0].loc)
                return [(st, LV(o))]
        if n == 'clear':
            self.event(st, fr, e, 'write', loc=o, val=('any0',), old=v)
            self.assign(st, o, ('any0',))
            return [(st, ('void',))]
        if n == 'type':
            return [(st, ('anytype', v))]
        return None

    def anyempty(self, v):
        if v[0] == 'any0':
            return T
        if v[0] == 'any':
            return F
        if v[0] == 'obj' and v[1][0] in ('any', 'any0'):
            return self.anyempty(v[1])
        return ('anyempty', v)

    def f_P(self, n, e, fr, st, o, vs, rs):
        v = self.rd(st, o)
        if n in ('get', 'operator->'):
            return [(st, v)]
        if n == 'operator*':
            self.deref_ob(st, fr, e, v)
            return [(st, LV(self.deref(v)))]
        if n.startswith('operator bool') or 'operator void' in e['q'] or n.startswith('operator '):
            return [(st, neg(isnull(v)))]
        if n == 'operator!':
            return [(st, isnull(v))]
        if n in ('operator=', 'reset'):
            x = vs[0] if vs else ('null',)
            self.event(st, fr, e, 'write', loc=o, val=x, old=v)
            self.assign(st, o, x)
            return [(st, LV(o) if n == 'operator=' else ('void',))]
        if n == 'swap':
            return self.swap(e, fr, st, o, rs[0].loc)
        if n in ('use_count', 'unique'):
            return [(st, ('call', e['q'], v))]
        return None

    def f_F(self, n, e, fr, st, o, vs, rs):
        v = self.rd(st, o)
        if n == 'operator()':
            return self.call_value(v, rs, e, fr, st)
        if n == 'operator=':
            x = vs[0] if vs[0] != c(0) else ('null',)
            self.event(st, fr, e, 'write', loc=o, val=x, old=v)
            self.assign(st, o, x)
            return [(st, LV(o))]
        if n == 'empty' or n == 'operator!':
            return [(st, isnull(v))]
        if n == 'clear':
            self.event(st, fr, e, 'write', loc=o, val=('null',), old=v)
            self.assign(st, o, ('null',))
            return [(st, ('void',))]
        if 'operator void' in e['q'] or n.startswith('operator bool'):
            return [(st, neg(isnull(v)))]
        if n == 'swap':
            return self.swap(e, fr, st, o, rs[0].loc)
        return None

    def f_O(self, n, e, fr, st, o, vs, rs):
        v = self.rd(st, o)
        if n in ('operator=', 'emplace'):
            x = vs[0] if vs else ('opt0',)
            if x[0] not in ('opt', 'opt0') and 'optional' not in (e['pt'][0] if e.get('pt') else ''):
                x = ('opt', x)
            self.event(st, fr, e, 'write', loc=o, val=x, old=v)
            self.assign(st, o, x)
            return [(st, LV(o))]
        if n in ('has_value', 'is_initialized') or n.startswith('operator bool'):
            return [(st, T if v[0] == 'opt' else F if v[0] == 'opt0' else ('b', ('opthas', v)))]
        if n in ('operator*', 'get', 'value', 'operator->'):
            if v[0] == 'opt':
                t = self.tmp(st)
                st.store[t] = v[1]
                return [(st, LV(t) if n != 'operator->' else ('ptr', t))]
            return [(st, LV(('deref', v)) if n != 'operator->' else v)]
        return None

    # ------------------------------------------------------------ streams
    def f_T(self, n, e, fr, st, o, vs, rs):
        v = self.rd(st, o)
        if n in ('operator!', 'fail'):
            return [(st, neg(self.streamok(v)))]
        if n.startswith('operator bool') or n == 'good':
            return [(st, self.streamok(v))]
        if n == 'bad':
            return [(st, ('b', ('streambad', v)))]
        if n == 'eof':
            return [(st, ('b', ('streameof', v)))]
        if n == 'str' and not vs:
            return [(st, ('strm', v))]
        if n in ('put', 'write', 'operator<<'):
            return self.output(e, fr, st, o, vs[0] if n != 'write' else ('sub', vs[0], c(0), vs[1]))
        if n in ('width', 'flush', 'precision', 'fill', 'setf', 'clear', 'flags', 'exceptions', 'imbue'):
            return [(st, ('call', e['q'], v))]
        return None

    def streamok(self, v):
        return ('b', ('streamok', v))

    def output(self, e, fr, st, o, v):
        old = self.rd(st, o)
        self.event(st, fr, e, 'out', loc=o, val=v)
        new = ('wrote', ('io', self.opq(st)))
        self.havoc_loc(st, o, new)
        return [(st, LV(o))]

    # ------------------------------------------------------------ free functions
    def f_free(self, q, n, e, fr, st, vs, rs):
        pt = e.get('pt', [])
        N = len(vs)
        if n in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>=') and N == 2:
            a, b = self.strof(vs[0]), self.strof(vs[1])
            op = n[8:]
            if a[0] == 'rit' and b[0] == 'rit' and a[1] == b[1]:
                op2 = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
                if op in ('==', '!='):
                    # positions only move downwards towards rend
                    t = cmp_('<=', a[2], b[2])
                    return [(st, t if op == '==' else neg(t))]
                return [(st, cmp_(op2, a[2], b[2]))]
            if op not in ('==', '!=') and a[0] == 'it' and b[0] == 'it' and a[1] == b[1] and not {a[2][0], b[2][0]} & {'key', 'mkey', 'mend', 'lb', 'ub', 'stepk'}:
                return [(st, cmp_(op, a[2], b[2]))]
            if op in ('==', '!='):
                if a[0] in ('it',) and b[0] == 'it':
                    t = self.iteq(a, b)
                elif any(k in tn(pt[0]) for k in ('string', 'vector', 'shared_ptr', 'any', 'pair', 'map', 'set', 'optional')) or isstr(a) or isstr(b):
                    t = self.valeq(a, b)
                else:
                    t = cmp_('==', a, b)
                return [(st, t if op == '==' else neg(t))]
            if 'string' in tn(pt[0]):
                if op in ('>', '<='):
                    r = ('b', ('strlt', b, a))
                    return [(st, r if op == '>' else neg(r))]
                r = ('b', ('strlt', a, b))
                return [(st, r if op == '<' else neg(r))]
            return [(st, cmp_(op, a, b))]
        if n == 'operator+' and N == 2:
            if any('string' in tn(p) for p in pt):
                return [(st, cat(self.pat(vs[0], pt[0]), self.pat(vs[1], pt[1])))]
            return [(st, self.ptr_arith('+', vs[0], vs[1]))]
        if n == 'operator-' and N == 2:
            return [(st, self.ptr_arith('-', vs[0], vs[1]))]
        if n in ('operator<<',) and N == 2:
            if isinstance(rs[0], LV):
                return self.output(e, fr, st, rs[0].loc, self.pat(vs[1], pt[1]))
        if n == 'getline' and N >= 2 and isinstance(rs[0], LV) and isinstance(rs[1], LV):
            k = ('io', self.opq(st))
            old = self.rd(st, rs[1].loc)
            d = vs[2] if N > 2 else c(10)
            line = ('line', vs[0] if vs[0][0] != 'rdstream' else vs[0][1], k) if d == c(10) else ('tokline', vs[0] if vs[0][0] != 'rdstream' else vs[0][1], d, k)
            self.event(st, fr, e, 'getline', loc=rs[1].loc, stream=rs[0].loc, delim=d, val=line, old=old)
            self.assign(st, rs[1].loc, line)
            self.havoc_loc(st, rs[0].loc, ('rdstream', vs[0] if vs[0][0] != 'rdstream' else vs[0][1], k))
            return [(st, LV(rs[0].loc))]
        if n in ('move', 'forward', 'as_const', 'ref', 'cref', 'addressof', '__addressof') and N == 1:
            if n in ('addressof', '__addressof'):
                return [(st, ('ptr', rs[0].loc) if isinstance(rs[0], LV) else ('ptr', self.totmp(st, rs[0])))]
            return [(st, rs[0])]
        if n == 'swap' and N == 2 and isinstance(rs[0], LV) and isinstance(rs[1], LV):
            return self.swap(e, fr, st, rs[0].loc, rs[1].loc)
        if n == 'exchange' and N == 2 and isinstance(rs[0], LV):
            old = vs[0]
            self.event(st, fr, e, 'write', loc=rs[0].loc, val=vs[1], old=old)
            self.assign(st, rs[0].loc, vs[1])
            return [(st, old)]
        if n in ('min', 'max') and N == 2:
            out = []
            for s2, b in self.branch(st, cmp_('<=', vs[0], vs[1])):
                out.append((s2, vs[0] if (b == (n == 'min')) else vs[1]))
            return out
        if n == 'make_pair' or n == 'make_tuple' and N == 2:
            return [(st, ('pair', vs[0], vs[1]))]
        if n in ('make_shared', 'make_unique'):
            loc = ('heap', fr.fid, e.get('l', 0), st.n)
            st.n += 1
            t = bare((e.get('ta') or ['?'])[0])
            if N == 0:
                rec = self.p.records.get(t)
                if rec:
                    st.store[loc] = self.default_obj(rec)
            self.event(st, fr, e, 'heap', t=t, loc=loc, args=vs)
            return [(st, ('heapptr', loc))]
        if n in ('begin', 'cbegin', 'end', 'cend', 'size', 'empty', 'rbegin', 'rend', 'data') and N == 1 and isinstance(rs[0], LV):
            f = 'S' if 'string' in tn(pt[0]) else 'V' if 'vector' in tn(pt[0]) else 'X'
            if '[' in pt[0]:
                return [(st, ('padd', ('arr', rs[0].loc), c(0) if 'begin' in n else ('arrsize', rs[0].loc)))]
            return getattr(self, 'f_' + f)(n, e, fr, st, rs[0].loc, (), ())
        if n in ('next', 'prev'):
            k = vs[1] if N > 1 else c(1)
            return [(st, self.ptr_arith('+' if n == 'next' else '-', vs[0], k))]
        if n == 'advance' and isinstance(rs[0], LV):
            new = self.ptr_arith('+', vs[0], vs[1])
            self.event(st, fr, e, 'write', loc=rs[0].loc, val=new, old=vs[0])
            self.assign(st, rs[0].loc, new)
            return [(st, ('void',))]
        if n == 'distance':
            if vs[0][0] == 'it' and vs[1][0] == 'it' and vs[0][1] == vs[1][1]:
                return [(st, sub(vs[1][2], vs[0][2]))]
            return [(st, ('call', q) + vs)]
        if n == 'back_inserter':
            return [(st, ('bi', rs[0].loc))]
        if n == 'inserter':
            return [(st, ('ins', rs[0].loc))]
        if n in ('bind', 'bind_front', 'mem_fn', 'bind1st') and (q.startswith('boost::') or q.startswith('std::')):
            as_ = []
            for i, r in enumerate(rs[1:]):
                v = vs[1 + i]
                as_.append(self.placeholder(r, v))
            return [(st, ('bind', vs[0], tuple(as_)))]
        if n == 'any_cast':
            return self.any_cast(e, fr, st, vs, rs)
        if n == 'lexical_cast':
            res = ('lex', bare(e['ta'][0]), self.strof(vs[0]))
            s3 = st.fork()
            loc = self.tmp(s3)
            s3.store[loc] = ('thrown', q, 'boost::bad_lexical_cast')
            from_str = 'string' in tn(pt[0]) or 'char' in tn(pt[0])
            to = bare(e['ta'][0])
            if to not in ('string', 'wstring'):
                self.event(s3, fr, e, 'xthrow', q=q, t='boost::bad_lexical_cast')
                self.raise_(s3, ('exc', 'boost::bad_lexical_cast', loc))
            self.event(st, fr, e, 'ext', q=q, args=vs, res=res)
            return [(st, res)]
        if q in ('tolower', 'std::tolower', 'towlower', 'std::towlower', 'toupper', 'std::toupper', 'isspace', 'isdigit', 'isalpha', 'isalnum', 'isupper', 'std::isspace', 'std::isupper'):
            self.event(st, fr, e, 'ext', q=q, args=vs, res=(n, vs[0]))
            return [(st, (n, vs[0]))]
        if q.startswith('std::numeric_limits'):
            r = bare(e.get('r', ''))
            tbl = {('unsigned int', 'max'): 0xffffffff, ('int', 'max'): 0x7fffffff, ('int', 'min'): -0x80000000, ('unsigned int', 'min'): 0,
                   ('unsigned long', 'max'): NPOS}
            if (r, n) in tbl:
                return [(st, c(tbl[(r, n)]))]
            return [(st, ('call', q))]
        if n == 'strlen' or n == 'length' and 'char_traits' in q:
            return [(st, size(self.strof(vs[0])))]
        if n in ('strcmp',):
            return [(st, ('strcompare', self.strof(vs[0]), self.strof(vs[1])))]
        if n == 'to_string':
            return [(st, ('tostr', vs[0]))]
        if n == 'use_facet':
            return [(st, LV(('facet', bare(e['ta'][0]), vs[0])))]
        if n in ('for_each', 'transform', 'copy', 'find', 'find_if', 'find_if_not', 'any_of', 'all_of', 'none_of', 'count', 'count_if', 'copy_if', 'accumulate',
                 'move', 'equal', 'fill', 'remove_if', 'remove', 'reverse', 'sort') and q.startswith('std::'):
            return self.algorithm(n, e, fr, st, vs, rs)
        if n in ('fputs', 'printf', 'puts') or n == 'endl':
            return None
        return None

    def totmp(self, st, v):
        t = self.tmp(st)
        st.store[t] = v
        return t

    def placeholder(self, r, v):
        t = None
        if v[0] == 'in' and v[1][0] == 'G' and 'placeholders' in v[1][1]:
            return ('ph', int(v[1][1].split('_')[-1]))
        return v

    def iteq(self, a, b):
        if a[1] == b[1]:
            for x, y in ((a[2], b[2]), (b[2], a[2])):
                if y[0] == 'mend':
                    if x[0] == 'mend':
                        return T
                    if x[0] == 'key':
                        return neg(self.has(y[1], x[2]))
                    if x[0] in ('lb', 'ub'):
                        return ('b', ('atend', x, y[1]))
                    if x == c(0):
                        return empty_of(y[1])
                    if x[0] == 'stepk':
                        return ('b', ('atend', x, y[1]))
                    return cmp_('>=', x, size(y[1]))
        return cmp_('==', a, b)

    def valeq(self, a, b):
        if a[0] == 'c' and b[0] == 'c':
            return c(a == b)
        return eq(a, b)

    def any_cast(self, e, fr, st, vs, rs):
        t = bare(e['ta'][0])
        v = vs[0]
        ptr = '*' in e['pt'][0]
        if ptr:
            loc = self.deref(v)
        else:
            loc = rs[0].loc if isinstance(rs[0], LV) else self.totmp(st, v)
        a = self.rd(st, loc)
        t = t.rstrip('&').strip()
        al = ('anyval', loc, t)
        if a[0] == 'any':
            match = bare(a[1]) == t
        elif a[0] == 'any0':
            match = False
        else:
            match = None
        self.event(st, fr, e, 'anycast', t=t, loc=loc, val=a, match=match, ptr=ptr)
        if ptr:
            if match is False:
                return [(st, ('null',))]
            return [(st, ('ptr', al))]
        if match is not True:
            s3 = st.fork()
            l2 = self.tmp(s3)
            s3.store[l2] = ('thrown', e['q'], 'boost::bad_any_cast')
            self.event(s3, fr, e, 'xthrow', q=e['q'], t='boost::bad_any_cast')
            self.raise_(s3, ('exc', 'boost::bad_any_cast', l2))
            if match is False:
                return []
        return [(st, LV(al))]

    # ------------------------------------------------------------ algorithms as loops
    def s_py(self, s, fr, st):
        return s['f'](st)

    def k_py(self, e, fr, st):
        return e['f'](st)

    def sink(self, e, fr, st, out, v):
        """*out++ = v"""
        if out[0] == 'bi':
            o = out[1]
            old = self.seqval(st, o)
            if ctor_string(self, st, o, e):
                self.mut(st, fr, e, 'append', o, (v,), cat(old, ('chr', v)), old)
            else:
                self.event(st, fr, e, 'mut', meth='push_back', loc=o, args=(v,), old=old, val=('push', old, v))
                self.wr_container(st, o, ('push', old, v), keep=True)
            return [('n', None, st)]
        if out[0] == 'ins':
            o = out[1]
            old = self.seqval(st, o)
            self.event(st, fr, e, 'mut', meth='insert', loc=o, args=(v,), old=old, val=('sins', old, v))
            self.wr_container(st, o, ('sins', old, v), keep=True)
            return [('n', None, st)]
        if out[0] == 'ostr':
            self.output(e, fr, st, out[1], v)
            return [('n', None, st)]
        if out[0] == 'it':
            l = ('elem', out[1], out[2])
            self.event(st, fr, e, 'write', loc=l, val=v, old=self.rd(st, l))
            self.assign(st, l, v)
            return [('n', None, st)]
        self.event(st, fr, e, 'out', loc=('unk', out), val=v)
        return [('n', None, st)]

    def alg_loop(self, e, fr, st, b, en, body, tag=''):
        """for (it = b; it != en; ++it) body(st, LV(elem)) -> [(st, 'exh'|'brk')]; body returns statement results"""
        vid = ('alg', e.get('l', 0), tag or e['q'].split('::')[-1])
        iv = ('L', fr.fid, vid, '__it')
        s0 = st.fork()
        s0.store[iv] = b
        opaque = b[0] not in ('it', 'rit')
        plain = b[0] == 'it' and en[0] == 'it' and b[1] == en[1] and not {b[2][0], en[2][0]} & {'key', 'mkey', 'mend', 'lb', 'ub', 'stepk', 'elkey'}
        if plain:
            self.range_ob(s0, fr, e, b, en)

        def cond(s):
            it = s.store[iv]
            if opaque:
                return [(s, ('b', ('itne', it, en)))]
            if plain and it[0] == 'it':
                return [(s, cmp_('<', it[2], en[2]))]
            if it[0] == 'rit':
                return [(s, neg(cmp_('<=', it[2], en[2])))]
            return [(s, neg(self.iteq(it, en)))]

        def bd(s):
            it = s.store[iv]
            if opaque:
                el = LV(('deref', ('itelem', b, it)))
            else:
                self.deref_ob(s, fr, e, it)
                el = LV(self.deref(it))
            return body(s, el)

        def inc(s):
            it = s.store[iv]
            s.store[iv] = self.step(it, 1) if not opaque else ('adv', it)
            return [(s, ('void',))]
        s_ = {'s': 'for', 'l': e.get('l', 0), 'tag': str(vid)}
        out = []
        for k, v, x in self.loop(s_, fr, s0, {'k': 'py', 'f': cond, 'l': e.get('l')}, {'s': 'py', 'f': bd}, {'k': 'py', 'f': inc}, None):
            if k == 'throw':
                self.raise_(x, v)
            elif k == 'n':
                out.append((x, x.store.get(iv, b)))
        return out

    def callf(self, f, args, e, fr, st):
        self.site(e)
        e2 = dict(e)
        e2['pt'] = []
        return self.call_value(f, args, e2, fr, st)

    def algorithm(self, n, e, fr, st, vs, rs):
        out = []
        if n in ('copy', 'move') and len(vs) == 3:
            b, en, dst = vs
            dst = self.out_it(dst)
            for s, it in self.alg_loop(e, fr, st, b, en, lambda s, el: self.sink(e, fr, s, dst, self.rd(s, el.loc))):
                out.append((s, dst))
            return out
        if n == 'copy_if' and len(vs) == 4:
            def bd(s, el):
                r = []
                for s2, v in self.callf(vs[3], [el], e, fr, s):
                    v = self.rd(s2, v.loc) if isinstance(v, LV) else v
                    for s3, bb in self.branch(s2, v):
                        if bb:
                            r += self.sink(e, fr, s3, self.out_it(vs[2]), self.rd(s3, el.loc))
                        else:
                            r.append(('n', None, s3))
                return r
            return [(s, vs[2]) for s, it in self.alg_loop(e, fr, st, vs[0], vs[1], bd)]
        if n == 'transform' and len(vs) == 4:
            dst = self.out_it(vs[2])

            def bd(s, el):
                r = []
                for s2, v in self.callf(vs[3], [el], e, fr, s):
                    v = self.rd(s2, v.loc) if isinstance(v, LV) else v
                    d2 = dst
                    if dst[0] == 'it':
                        d2 = ('it', dst[1], el.loc[2]) if el.loc[0] == 'elem' and el.loc[1] == dst[1] else ('unk', dst)
                    r += self.sink(e, fr, s2, d2, v)
                return r
            return [(s, dst) for s, it in self.alg_loop(e, fr, st, vs[0], vs[1], bd)]
        if n == 'for_each':
            def bd(s, el):
                return [('n', None, s2) for s2, v in self.callf(vs[2], [el], e, fr, s)]
            return [(s, vs[2]) for s, it in self.alg_loop(e, fr, st, vs[0], vs[1], bd)]
        if n in ('find', 'find_if', 'find_if_not', 'any_of', 'all_of', 'none_of'):
            if n == 'find' and vs[0][0] in ('it', 'rit') and tn(e['pt'][2]).replace('const ', '').rstrip('& ') in ('char', 'wchar_t'):
                k = ('strfind', vs[0], vs[1], vs[2])
                lo, hi = (vs[0], vs[1]) if vs[0][0] == 'it' else (vs[1], vs[0])
                if lo[0] == hi[0] and lo[1] == hi[1]:
                    out = [st.fork()]
                    for t in (cmp_('>=', k, lo[2]), cmp_('<=', k, hi[2])):
                        for x in out:
                            r = assume(x.facts, t)
                            x.facts = r[0] if len(r) == 1 else x.facts
                    st = out[0]
                return [(st, (vs[0][0], vs[0][1], k))]
            want = n in ('find', 'find_if', 'any_of', 'none_of')
            fid = ('L', fr.fid, ('algf', e.get('l', 0)), '__found')
            st = st.fork()
            st.store[fid] = F

            def bd(s, el):
                r = []
                if n == 'find':
                    rsv = [(s, self.valeq(self.rd(s, el.loc), vs[2]))]
                else:
                    rsv = self.callf(vs[2], [el], e, fr, s)
                for s2, v in rsv:
                    v = self.rd(s2, v.loc) if isinstance(v, LV) else v
                    for s3, bb in self.branch(s2, v):
                        if bb == want:
                            s3.store[fid] = T
                            r.append(('brk', None, s3))
                        else:
                            r.append(('n', None, s3))
                return r
            for s, it in self.alg_loop(e, fr, st, vs[0], vs[1], bd):
                f = s.store.pop(fid, F)
                if n.startswith('find'):
                    out.append((s, it if f == T else vs[1]))
                else:
                    out.append((s, f if n == 'any_of' else neg(f)))
            return out
        if n in ('count', 'count_if', 'accumulate', 'equal'):
            if n == 'count':
                t = ('count', self.range_val(st, vs[0], vs[1]), vs[2])
                return [(st, t)]
            return None
        return None

    def out_it(self, d):
        if d[0] == 'new' and 'ostream_iterator' in d[1]:
            return ('ostr', ('unk', d[2] if len(d) > 2 else d))
        return d


def ctor_string(eng, st, o, e):
    ts = ' '.join(e.get('ta') or []) + ' '.join(e.get('pt') or [])
    return 'back_insert_iterator<std::basic_string' in ts.replace('__cxx11::', '')
