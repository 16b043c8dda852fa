"""Path-sensitive guarded-effect dataflow over the resolved syntax tree.

Every feasible path through an entry function (loops summarised by an optimistic
havoc fixpoint, repository helpers inlined) is turned into a list of effects,
each with the facts known to hold when it happens.  Nothing is executed and no
solver is used: see facts.py for the abstract domain.
"""
import re
import sys
from .facts import *

sys.setrecursionlimit(20000)


class Limit(Exception):
    pass


def wrap32(v, t):
    if isinstance(v, tuple) and is_c(v) and type(v[1]) is int and t and tn(t) == 'unsigned int' and v[1] < 0:
        return c(v[1] & 0xffffffff)
    return v


class LV(object):
    __slots__ = ('loc',)

    def __init__(self, loc):
        self.loc = loc

    def __repr__(self):
        return 'LV(%s)' % (self.loc,)


class Ev(object):
    def __init__(self, k, **kw):
        self.k = k
        self.__dict__.update(kw)

    def __repr__(self):
        d = {a: b for a, b in self.__dict__.items() if a not in ('facts', 'iters', 'alts')}
        return 'Ev(%s)' % d


class St(object):
    __slots__ = ('store', 'facts', 'ev', 'n')

    def __init__(self, store, facts, ev, n):
        self.store, self.facts, self.ev, self.n = store, facts, ev, n

    def fork(self):
        return St(dict(self.store), self.facts, list(self.ev), self.n)


def literal(t):
    if t[0] in ('c', 'str'):
        return True
    return t[0] in ('seq', 'cat', 'chr') and all(literal(x) for x in t[1:])


class Frame(object):
    def __init__(self, fn, fid, this, parent):
        self.fn, self.fid, self.this, self.parent = fn, fid, this, parent
        self.depth = parent.depth + 1 if parent else 0
        self.stack = (parent.stack if parent else ()) + (fn['u'],)
        self.sites = parent.sites if parent else ()
        self.caps = {}


class Path(object):
    """kind: ret / throw / stop ; val: returned value or thrown (type, value)"""
    def __init__(self, kind, val, st):
        self.kind, self.val, self.st = kind, val, st
        self.ev, self.facts = st.ev, st.facts


def tn(t):
    """normalise a type spelling"""
    if t is None:
        return '?'
    t = t.replace('std::__cxx11::', 'std::')
    t = re.sub(r'std::basic_string<(char|wchar_t), std::char_traits<\1>, std::allocator<\1>\s*>',
               lambda m: 'string' if m.group(1) == 'char' else 'wstring', t)
    prev = None
    while prev != t:
        prev = t
        t = re.sub(r', std::allocator<(?:[^<>]|<[^<>]*>)*>', '', t)
        t = re.sub(r', std::less<(?:[^<>]|<[^<>]*>)*>', '', t)
        t = re.sub(r', std::char_traits<\w+>', '', t)
    return t.replace('boost::program_options::', 'po::')


def bare(t):
    t = tn(t).strip()
    for p in ('const ', 'volatile '):
        while t.startswith(p):
            t = t[len(p):]
    while t.endswith('&') or t.endswith(' const'):
        t = t.rstrip('&').strip()
        if t.endswith(' const'):
            t = t[:-6]
    return t.strip()


def is_const_ref(t):
    t = t.strip()
    if t.endswith('&&'):
        return True
    if t.endswith('&'):
        b = t[:-1].strip()
        if b.endswith('const'):
            return True
        d = 0
        for ch in b:                    # `const T *&` refers to a pointer that can be changed
            d += (ch == '<') - (ch == '>')
            if ch == '*' and d == 0:
                return False
        return b.startswith('const ')
    return False


def targs_at(t, i):
    """template arguments from position i (after '<')"""
    out, d, cur = [], 0, ''
    for ch in t[i:]:
        if d == 0 and ch in ',>':
            out.append(cur.strip())
            cur = ''
            if ch == '>':
                return out
            continue
        d += (ch in '<(') - (ch in '>)')
        cur += ch
    return out


def is_mut_ref(t):
    t = t.strip()
    return t.endswith('&') and not is_const_ref(t)


def family(q):
    if q.startswith('std::basic_string::') or q.startswith('std::basic_string_view::'):
        return 'S'
    m = re.match(r'std::(?:\w+::)*(vector|deque|list|array|initializer_list)::', q)
    if m:
        return 'V'
    m = re.match(r'std::(?:\w+::)*_?(set|multiset|unordered_set|map|multimap|unordered_map|_Rb_tree)::', q)
    if m:
        return 'M' if 'map' in m.group(1) else 'X'
    if re.match(r'(__gnu_cxx::__normal_iterator|std::_Rb_tree_(const_)?iterator|std::reverse_iterator|std::_Bit_(const_)?iterator|std::__detail::_Node_(const_)?iterator)::', q) or \
            re.match(r'boost::iterators::(detail::)?(iterator_facade_base|iterator_adaptor|iterator_facade|reverse_iterator)::', q):
        return 'I'
    if q.startswith('boost::any::'):
        return 'A'
    if re.match(r'(boost|std)::(shared_ptr|unique_ptr|scoped_ptr|__shared_ptr|__shared_ptr_access|intrusive_ptr)::', q):
        return 'P'
    if re.match(r'(boost::function(1|n)?|std::function)::', q):
        return 'F'
    if re.match(r'(boost|std)::optional::', q):
        return 'O'
    if re.match(r'std::basic_(\w*stream|ios|\w*buf)::|std::ios_base::|std::(i|o|io)?stream', q):
        return 'T'
    return None


def ctor_family(t):
    b = bare(t)
    if b in ('string', 'wstring') or b.startswith('std::basic_string_view'):
        return 'S'
    if re.match(r'std::(vector|deque|list|array)\b', b):
        return 'V'
    if re.match(r'std::(set|multiset|unordered_set)\b', b):
        return 'X'
    if re.match(r'std::(map|multimap|unordered_map)\b', b):
        return 'M'
    if b == 'boost::any':
        return 'A'
    if re.match(r'(boost|std)::(shared_ptr|unique_ptr|scoped_ptr)\b', b):
        return 'P'
    if re.match(r'(boost|std)::function', b):
        return 'F'
    if re.match(r'(boost|std)::optional\b', b):
        return 'O'
    if re.match(r'std::pair\b', b):
        return 'PR'
    if re.match(r'std::(basic_)?[io]?f?(string)?stream', b):
        return 'T'
    if '__normal_iterator' in b or '_Rb_tree' in b or 'reverse_iterator' in b:
        return 'I'
    return None


NONCONST_FREE = {}
PURE_FREE = {'std::min', 'std::max', 'tolower', 'toupper', 'std::tolower', 'std::toupper', 'isspace', 'std::isspace',
             'std::distance', 'std::make_pair', 'std::use_facet', 'std::numeric_limits::max', 'std::numeric_limits::min',
             'boost::lexical_cast', 'strlen', 'std::strlen', 'std::to_string', 'std::count', 'towlower', 'std::towlower',
             'std::char_traits::length', 'isalpha', 'isdigit', 'isalnum', 'strcmp', 'std::strcmp', 'std::abs'}


class EngineBase(object):
    def __init__(self, prog, opaque=(), limit=3000, merge_at=None, inline=None, maxdepth=14, opaque_pred=None):
        self.p = prog
        self.opaque = set(opaque)
        self.opaque_pred = opaque_pred
        self.limit = limit
        self.merge_at = merge_at
        self.maxdepth = maxdepth
        self.loopno = 0
        self.work = 0
        self.unmodelled = set()
        self.pure_std = set()
        self.fninfo = {}
        self.inlined = set()

    # ------------------------------------------------------------ entry
    def run(self, fn, this=('this',), args=None, facts=None, store=None):
        st = St(dict(store or {}), dict(facts or {}), [], 0)
        fr = Frame(fn, self.fid(st), this, None)
        for i, p in enumerate(fn['ps']):
            loc = ('P', i, p['n'])
            if args and i in args:
                v = args[i]
                if isinstance(v, LV):
                    st.store[('ref', fr.fid, p['id'])] = v.loc
                else:
                    st.store[('ref', fr.fid, p['id'])] = loc
                    st.store[loc] = v
            else:
                st.store[('ref', fr.fid, p['id'])] = loc
            if 'unsigned' in p['t'] and not p['ref'] and '*' not in p['t'] and '<' not in p['t']:
                st.facts[('in', loc)] = (0, None, frozenset())
        outs = self.body(fn, fr, st)
        return [Path(k, v, s) for k, v, s in outs if k != 'stop']

    def fid(self, st):
        st.n += 1
        return st.n

    def body(self, fn, fr, st):
        """execute a function body (with constructor initialisers) -> [(kind,val,st)]"""
        outs = []
        sts = [st]
        if fn.get('ctor'):
            sts, th = self.collect(lambda: self.ctor_inits(fn, fr, st))
            outs += th
        for s in sts:
            for k, v, s2 in self.X(fn['b'], fr, s):
                if k == 'n':
                    outs.append(('ret', None, s2))
                elif k in ('ret', 'throw', 'stop'):
                    outs.append((k, v, s2))
                else:
                    outs.append(('ret', None, s2))
        if len(outs) > self.limit:
            raise Limit(fn['q'])
        return outs

    def collect(self, f):
        saved = getattr(self, 'thr', None)
        self.thr = []
        try:
            r = f()
            th = self.thr
        finally:
            self.thr = saved
        return r, th

    def ctor_inits(self, fn, fr, st):
        sts = [st]
        this = fr.this
        seen = set()
        for i in fn.get('inits', []):
            nx = []
            for s in sts:
                if 'f' in i:
                    seen.add(i['f'])
                    loc = ('fld', this, i['f'])
                    if i['e'] is None:
                        nx.append(s)
                        continue
                    if i['t'].strip().endswith('&'):
                        for s2, l in self.L(i['e'], fr, s):
                            s2.store[loc] = ('ptr', l)
                            nx.append(s2)
                    else:
                        for s2, v in self.init_value(i['e'], fr, s, i['t']):
                            self.assign(s2, loc, v)
                            nx.append(s2)
                else:
                    e = i['e']
                    if e and e.get('k') == 'new' and self.p.funcs.get(e.get('u')) is not None and not self.is_exc(e['t']):
                        nx += self.inline_ctor(e, fr, s, this)
                    elif e and e.get('k') in ('new',):
                        for s2, a in self.Es(e.get('a', []), fr, s):
                            self.event(s2, fr, e, 'basector', q=e['q'], args=a)
                            nx.append(s2)
                    else:
                        nx.append(s)
            sts = nx
        return sts

    # ------------------------------------------------------------ state access
    def event(self, st, fr, e, k, **kw):
        fn = fr.fn
        ev = Ev(k, fn=fn['q'], file=fn['f'], line=(e or {}).get('l', fn['l']) if isinstance(e, dict) else e,
                facts=st.facts, **kw)
        ev.stack = fr.stack
        st.ev.append(ev)
        self.work += 1
        return ev

    def raise_(self, st, exc):
        self.thr.append(('throw', exc, st))

    def rd(self, st, loc):
        s = st.store
        if loc in s:
            base = s[loc]
        else:
            base = self.derive(st, loc)
        if base[0] == 'mutel':
            # elements of a known short list that were overwritten in place
            b, ok = base, True
            while b[0] == 'mutel':
                ok = ok and is_c(b[2])
                b = b[1]
            if ok and b[0] == 'seq' and len(b) <= 9:
                return ('seq',) + tuple(self.rd(st, ('elem', loc, c(i))) for i in range(len(b) - 1))
        # overlay of separately written parts
        sub_ = None
        for k in s:
            if isinstance(k, tuple) and k and k[0] == 'fld' and k[1] == loc and (loc not in s or True):
                if sub_ is None:
                    sub_ = {}
                sub_[k[2]] = self.rd(st, k)
            elif isinstance(k, tuple) and len(k) == 3 and k[0] == 'fld' and isinstance(k[1], tuple) and k[1][0] == 'fld' and k[1][1] == loc:
                if sub_ is None:
                    sub_ = {}
                sub_.setdefault(k[1][2], self.rd(st, k[1]))
        if sub_:
            if base[0] == 'obj':
                d = dict(base[2])
                d.update(sub_)
                return ('obj', base[1], tuple(sorted(d.items())))
            return ('obj', base, tuple(sorted(sub_.items())))
        return base

    def derive(self, st, loc):
        k = loc[0]
        if k == 'fld':
            b = self.rdbase(st, loc[1])
            if b == ('in', loc[1]):
                return ('in', loc)
            return self.proj(b, loc[2])
        if k == 'elem':
            cv = self.rd_nool(st, loc[1])
            if cv[0] == 'mutel' and is_c(loc[2]):
                b = cv
                while b[0] == 'mutel' and is_c(b[2]) and b[2] != loc[2]:
                    b = b[1]
                if b[0] == 'seq':
                    return self.elemval(b, loc[2])
            else:
                cv = self.rd(st, loc[1])
            return self.elemval(cv, loc[2])
        if k == 'anyval':
            a = self.rd(st, loc[1])
            if a[0] == 'any' and bare(a[1]) == bare(loc[2]):
                return a[2]
            return ('anyval', a, loc[2])
        if k == 'G':
            v = self.constant(loc[1])
            if v is not None:
                return v
        return ('in', loc)

    def constant(self, q):
        """value of a const object with a constant initialiser"""
        memo = self.p.__dict__.setdefault('constvals', {})
        if q in memo:
            return memo[q]
        memo[q] = None
        gs = [g for (n, t), g in self.p.globals.items() if n == q]
        if len(gs) == 1 and gs[0].get('const') and gs[0].get('init') and not gs[0]['t'].rstrip().endswith('*'):
            st = St({}, {}, [], 0)
            fn = {'u': None, 'ps': [], 'q': q, 'f': gs[0].get('f', ''), 'l': gs[0].get('l', 0), 'cls': None}
            un = set(self.unmodelled)
            try:
                r = self.E(gs[0]['init'], Frame(fn, 0, ('this',), None), st)
            except (KeyError, TypeError):
                r = []
            self.unmodelled = un
            if len(r) == 1 and literal(r[0][1]):
                memo[q] = r[0][1]
        return memo[q]

    def rdbase(self, st, loc):
        if loc in st.store:
            return st.store[loc]
        return self.derive(st, loc)

    def proj(self, v, f):
        if v[0] == 'obj':
            d = dict(v[2])
            if f in d:
                return d[f]
            return self.proj(v[1], f)
        if v[0] == 'pair' and f in ('first', 'second'):
            return v[1] if f == 'first' else v[2]
        if v[0] == 'in':
            return ('in', ('fld', v[1], f))
        if v[0] == 'ite':
            pass
        return ('.', v, f)

    def elemval(self, cv, key):
        if key[0] == 'key':
            while cv[0] in ('ins', 'mutel') and cv[2] != key and cv[2] != key[1]:
                # other keys leave this element alone (distinct constants only)
                k2 = cv[2][1] if cv[2][0] == 'key' else cv[2]
                if is_c(k2) and is_c(key[1]) or k2[0] == 'str' and key[1][0] == 'str':
                    cv = cv[1]
                    continue
                break
            return ('at', cv, key)
        return at(cv, key)

    def assign(self, st, loc, v):
        """overwrite the object at loc"""
        if loc[0] == 'elem' and not self.replace_el(st, loc, v):
            self.dirty(st, loc)
        elif loc[0] == 'fld':
            self.dirty(st, loc)
        for k in [k for k in st.store if isinstance(k, tuple) and k != loc and k[0] in ('fld', 'elem', 'anyval') and under(k, loc)]:
            del st.store[k]
        st.store[loc] = v

    def replace_el(self, st, loc, v):
        """element at a constant position of a list whose elements are all known"""
        cloc, ix = loc[1], loc[2]
        if not (is_c(ix) and isinstance(ix[1], int)):
            return False
        old = self.rd_nool(st, cloc)
        if old[0] != 'seq' or not 0 <= ix[1] < len(old) - 1:
            return False
        self.dirty(st, loc)
        st.store[cloc] = old[:ix[1] + 1] + (v,) + old[ix[1] + 2:]
        return True

    def dirty(self, st, loc):
        """a part of some container element is overwritten"""
        fp = ()
        l = loc
        while l[0] in ('fld', 'anyval', 'elem'):
            if l[0] == 'elem':
                cloc = l[1]
                old = self.rd_nool(st, cloc)
                if old[0] == 'mutel' and old[2] == l[2]:
                    pass
                elif old[0] in ('map0', 'ins'):
                    pass
                else:
                    st.store[cloc] = ('mutel', old, l[2])
                    # entries of possibly aliasing elements are dropped
                    for k in [k for k in st.store if isinstance(k, tuple) and k[0] in ('fld', 'elem', 'anyval') and under(k, cloc)]:
                        e = elem_under(k, cloc)
                        if e is not None and e[2] != l[2]:
                            d = sub(e[2], l[2]) if e[2][0] != 'key' and l[2][0] != 'key' else ('x',)
                            if not (is_c(d) and d[1] != 0):
                                del st.store[k]
                l = cloc
                continue
            l = l[1]

    def rd_nool(self, st, loc):
        if loc in st.store:
            return st.store[loc]
        return self.derive(st, loc)

    def wr_container(self, st, loc, v, keep=False):
        if not keep:
            for k in [k for k in st.store if isinstance(k, tuple) and k != loc and k[0] in ('fld', 'elem', 'anyval') and under(k, loc)]:
                del st.store[k]
        if loc[0] in ('fld', 'elem', 'anyval'):
            self.dirty(st, loc)
        st.store[loc] = v

    def tmp(self, st):
        st.n += 1
        return ('tmp', st.n)

    def opq(self, st):
        """counter for results of effectful opaque operations"""
        v = add(st.store.get(('io',), c(0)), c(1))
        st.store[('io',)] = v
        return v

    # ------------------------------------------------------------ expressions
    def E(self, e, fr, st):
        """rvalue: [(st, term)]"""
        out = []
        for s, r in self.C(e, fr, st):
            if isinstance(r, LV):
                out.append((s, self.rd(s, r.loc)))
            else:
                out.append((s, r))
        return out

    def L(self, e, fr, st):
        out = []
        for s, r in self.C(e, fr, st):
            if isinstance(r, LV):
                out.append((s, r.loc))
            else:
                t = self.tmp(s)
                s.store[t] = r
                out.append((s, t))
        return out

    def Es(self, es, fr, st):
        cur = [(st, ())]
        for e in es:
            nx = []
            for s, vs in cur:
                for s2, v in self.E(e, fr, s):
                    nx.append((s2, vs + (v,)))
            cur = nx
        return cur

    def Cs(self, es, fr, st):
        cur = [(st, ())]
        for e in es:
            nx = []
            for s, vs in cur:
                for s2, v in self.C(e, fr, s):
                    nx.append((s2, vs + (v,)))
            cur = nx
        return cur

    def branch(self, st, t):
        """[(st, bool)]"""
        t = tobool(t)
        out = []
        r = truth(st.facts, t)
        if r is not None:
            return [(st, r)]
        for want in (True, False):
            fs = assume(st.facts, t, want)
            for f in fs:
                s = st.fork()
                s.facts = f
                out.append((s, want))
        return out

    def cond(self, e, fr, st):
        """evaluate a condition, splitting: [(st, bool)]"""
        if e is None:
            return [(st, True)]
        k = e['k']
        if k == 'u' and e['op'] == '!':
            return [(s, not b) for s, b in self.cond(e['e'], fr, st)]
        if k == 'bi' and e['op'] in ('&&', '||'):
            out = []
            for s, b in self.cond(e['a'], fr, st):
                if (e['op'] == '&&') == b:
                    out += self.cond(e['b'], fr, s)
                else:
                    out.append((s, b))
            return out
        if k == 'tobool':
            if '*' in (e.get('from') or ''):
                out = []
                for s, v in self.E(e['e'], fr, st):
                    out += self.branch(s, neg(isnull(v)))
                return out
            return self.cond(e['e'], fr, st)
        if k == 'cond':
            out = []
            for s, b in self.cond(e['c'], fr, st):
                out += self.cond(e['a' if b else 'b'], fr, s)
            return out
        out = []
        for s, v in self.E(e, fr, st):
            out += self.branch(s, v)
        return out

    def C(self, e, fr, st):
        if e is None:
            return [(st, ('void',))]
        m = getattr(self, 'k_' + e['k'], None)
        if m is None:
            self.unmodelled.add('expr:' + e['k'])
            return [(st, ('unk', e['k'], e.get('l', 0)))]
        r = m(e, fr, st)
        if len(r) > self.limit:
            raise Limit(fr.fn['q'])
        return r

    # literals
    def k_i(self, e, fr, st):
        return [(st, c(e['v']))]

    k_ch = k_i

    def k_fl(self, e, fr, st):
        return [(st, ('c', float(e['v'])))]

    def k_b(self, e, fr, st):
        return [(st, c(bool(e['v'])))]

    def k_null(self, e, fr, st):
        return [(st, ('null',))]

    def k_s(self, e, fr, st):
        return [(st, ('str', e['v']))]

    def k_zero(self, e, fr, st):
        return [(st, self.zero(e['t']))]

    def zero(self, t):
        t = tn(t)
        if t.endswith('*'):
            return ('null',)
        if t == 'bool':
            return F
        if 'int' in t or 'long' in t or 'char' in t or 'short' in t:
            return c(0)
        r = self.p.enum_types.get(t)
        if r:
            return c(0)
        return ('zero', t)

    def k_v(self, e, fr, st):
        f = fr
        while f:
            k = ('ref', f.fid, e['id'])
            if k in st.store:
                return [(st, LV(st.store[k]))]
            if e['id'] in f.caps:
                return [(st, LV(f.caps[e['id']]))]
            f = None
        if e['id'] in fr.caps:
            return [(st, LV(fr.caps[e['id']]))]
        return [(st, LV(('L', fr.fid, e['id'], e['n'])))]

    def k_g(self, e, fr, st):
        if e['n'].endswith('basic_string::npos'):
            return [(st, ('c', -1))]
        return [(st, LV(('G', e['n'])))]

    def k_this(self, e, fr, st):
        return [(st, ('ptr', fr.this))]

    def k_fn(self, e, fr, st):
        self.fninfo[e['u']] = e
        return [(st, ('fn', e['q'], e['u']))]

    def k_pf(self, e, fr, st):
        return [(st, ('pf', e['cls'], e['f']))]

    def k_m(self, e, fr, st):
        out = []
        if e.get('ar'):
            for s, v in self.E(e['b'], fr, st):
                self.deref_ob(s, fr, e, v)
                out.append((s, self.fieldlv(s, self.deref(v), e)))
        else:
            for s, l in self.L(e['b'], fr, st):
                out.append((s, self.fieldlv(s, l, e)))
        return out

    def fieldlv(self, st, base, e):
        loc = ('fld', base, e['f'])
        # elements of maps reached through iterators / keys
        if base[0] == 'elem' and e['f'] in ('first', 'second'):
            m = base[1]
            if base[2][0] == 'key':
                if e['f'] == 'second':
                    return LV(('elem', m, base[2]))
                t = self.tmp(st)
                st.store[t] = base[2][1]
                return LV(t)
            if self.is_map(m):
                if e['f'] == 'second':
                    return LV(('elem', m, ('mkey', base[2])))
        if e['t'].strip().endswith('&'):
            v = self.rd(st, loc)
            if v[0] == 'ptr':
                return LV(v[1])
            return LV(('deref', v))
        return LV(loc)

    def is_map(self, loc):
        return False

    def stype(self, e, fr):
        """static type of an object expression, when known"""
        k = e.get('k')
        if k == 'this':
            return bare(fr.fn.get('cls') or '?')
        if k in ('v', 'm', 'g', 'u', 'copy', 'cast', 'new', 'idx'):
            t = e.get('t') or e.get('to')
            return bare(t) if t else None
        if k == 'c':
            return bare(e.get('r') or '?')
        return None

    def up(self, loc, frm, to=None):
        """location of the standard-container base of a repository class"""
        if frm is None:
            return loc
        frm = frm.rstrip('*').strip()
        if frm.startswith('const '):
            frm = frm[6:]
        r = self.p.records.get(frm)
        if r is None:
            return loc
        if to is not None and (bare(to) == frm or not ctor_family(to)):
            return loc
        if self.container_base(frm):
            return ('fld', loc, '@base')
        return loc

    def container_base(self, t):
        for b in self.p.bases(t):
            if ctor_family(b) in ('V', 'M', 'X', 'S') or self.container_base(b):
                return True
        return False

    def deref(self, v):
        if v[0] == 'ptr':
            return v[1]
        if v[0] == 'heapptr':
            return v[1]
        if v[0] == 'it':
            if v[2][0] == 'key':
                return ('elem', v[1], ('key', v[2][2]))
            return ('elem', v[1], v[2])
        if v[0] == 'rit':
            return ('elem', v[1], v[2])
        if v[0] == 'c_str':
            return ('strmem', v[1])
        return ('deref', v)

    def deref_ob(self, st, fr, e, v):
        """obligation: pointer / iterator is dereferenceable"""
        if v[0] in ('it', 'rit'):
            cv = self.rd_nool(st, v[1])
            if v[2][0] in ('key', 'mkey'):
                h = truth(st.facts, self.has(v[2][1], v[2][2])) if v[2][0] == 'key' else True
                ok, bad = h is True, h is False
            elif v[2][0] == 'mend':
                ok, bad = False, True
            elif v[2][0] in ('lb', 'ub', 'stepk'):
                r = truth(st.facts, ('b', ('atend', v[2], cv)))
                ok, bad = r is False, r is True
            elif v[2][0] == 'lin' and v[2][1] == -1 and len(v[2][2]) == 1 and v[2][2][0][1] == 1 and v[2][2][0][0][0] in ('lb', 'ub'):
                r = truth(st.facts, self.iteq(('it', v[1], v[2][2][0][0]), ('it', v[1], c(0))))
                ok, bad = r is False, r is True
            else:
                t = cmp_('<', v[2], size(cv))
                r = truth(st.facts, t)
                ok, bad = r is True, r is False
            self.event(st, fr, e, 'oblig', what='iterator dereference', cont=v[1], cval=cv, idx=v[2], ok=ok, bad=bad)
            return
        if v[0] in ('ptr', 'heapptr', 'str', 'c_str'):
            return
        r = truth(st.facts, isnull(v))
        self.event(st, fr, e, 'oblig', what='pointer dereference', cont=None, cval=v, idx=None, ok=r is False, bad=r is True)

    def range_ob(self, st, fr, e, a, b):
        """obligation: [a, b) is a range of its container"""
        if a[0] != 'it' or b[0] != 'it' or a[1] != b[1] or {a[2][0], b[2][0]} & {'key', 'mkey', 'mend', 'lb', 'ub', 'stepk', 'elkey'}:
            return
        cv = self.rd_nool(st, a[1])
        rs = [truth(st.facts, cmp_('<=', a[2], b[2])), truth(st.facts, cmp_('<=', b[2], size(cv)))]
        self.event(st, fr, e, 'oblig', what='iterator range', cont=a[1], cval=cv, idx=a[2], hi=b[2], ok=rs == [True, True], bad=False in rs)

    def idx_ob(self, st, fr, e, what, cloc, cval, idx, need=None):
        t = need if need is not None else cmp_('<', idx, size(cval))
        r = truth(st.facts, t)
        self.event(st, fr, e, 'oblig', what=what, cont=cloc, cval=cval, idx=idx, need=t, ok=r is True, bad=r is False)

    # operators
    def k_tobool(self, e, fr, st):
        if '*' in (e.get('from') or ''):
            return [(s, neg(isnull(v))) for s, v in self.E(e['e'], fr, st)]
        return [(s, tobool(v)) for s, v in self.E(e['e'], fr, st)]

    def k_icast(self, e, fr, st):
        out = []
        to, frm = tn(e['to']), tn(e['from'])
        for s, v in self.E(e['e'], fr, st):
            if is_c(v) and isinstance(v[1], int) and not isinstance(v[1], bool):
                if to == 'unsigned int' and v[1] < 0:
                    v = c(v[1] & 0xffffffff)
                elif to == 'char' and not -128 <= v[1] < 128:
                    v = c(((v[1] + 128) & 255) - 128)
            elif num_bool(v) and to not in ('bool',):
                pass
            elif frm in ('bool',):
                pass
            out.append((s, v))
        return out

    def k_cast(self, e, fr, st):
        return [(s, wrap32(v, e.get('to') or e.get('t'))) for s, v in self.C(e['e'], fr, st)]

    def k_copy(self, e, fr, st):
        return self.E(e['e'], fr, st)

    def k_u(self, e, fr, st):
        op = e['op']
        if op == '!':
            return [(s, c(b)) for s, b in self.cond_term(e, fr, st)]
        if op == '*':
            out = []
            for s, v in self.E(e['e'], fr, st):
                self.deref_ob(s, fr, e, v)
                out.append((s, LV(self.deref(v))))
            return out
        if op == '&':
            out = []
            for s, r in self.C(e['e'], fr, st):
                if isinstance(r, LV):
                    l = r.loc
                    if l[0] == 'deref':
                        out.append((s, l[1]))
                    else:
                        out.append((s, ('ptr', l)))
                else:
                    t = self.tmp(s)
                    s.store[t] = r
                    out.append((s, ('ptr', t)))
            return out
        if op in ('++', '--'):
            out = []
            for s, l in self.L(e['e'], fr, st):
                old = self.rd(s, l)
                new = self.step(old, 1 if op == '++' else -1)
                self.event(s, fr, e, 'write', loc=l, val=new, old=old)
                self.assign(s, l, new)
                out.append((s, old if e.get('post') else LV(l)))
            return out
        out = []
        for s, v in self.E(e['e'], fr, st):
            if op == '-':
                out.append((s, sub(c(0), v)))
            elif op == '+':
                out.append((s, v))
            elif op == '~' and is_c(v):
                out.append((s, wrap32(c(~v[1]), e.get('t'))))
            else:
                out.append((s, ('op', op, v)))
        return out

    def step(self, v, n):
        if v[0] == 'it':
            if v[2][0] in ('key',):
                return ('it', v[1], ('stepk', v[2], n))
            return ('it', v[1], add(v[2], c(n)))
        if v[0] == 'rit':
            return ('rit', v[1], add(v[2], c(-n)))
        if v[0] in ('padd',):
            return ('padd', v[1], add(v[2], c(n)))
        if v[0] in ('c', 'lin', 'ix', 'in', 'phi', 'size', 'call', '.', 'at', 'm') or True:
            if v[0] in ('str', 'ptr', 'c_str'):
                return ('padd', v, c(n))
            return add(v, c(n))

    def cond_term(self, e, fr, st):
        return self.cond(e, fr, st)

    def k_bi(self, e, fr, st):
        op = e['op']
        if op in ('&&', '||'):
            return [(s, c(b)) for s, b in self.cond(e, fr, st)]
        if op == ',':
            out = []
            for s, _ in self.C(e['a'], fr, st):
                out += self.C(e['b'], fr, s)
            return out
        if op == '=':
            out = []
            for s, v in self.E(e['b'], fr, st):
                for s2, l in self.L(e['a'], fr, s):
                    old = self.rd(s2, l)
                    if l[0] == 'elem' and e.get('lt') in ('char', 'wchar_t'):
                        self.chr_write(s2, fr, e, l, v)
                        out.append((s2, LV(l)))
                        continue
                    self.event(s2, fr, e, 'write', loc=l, val=v, old=old)
                    self.assign(s2, l, v)
                    out.append((s2, LV(l)))
            return out
        out = []
        for s, a in self.E(e['a'], fr, st):
            for s2, b in self.E(e['b'], fr, s):
                out.append((s2, self.arith(op, a, b, e)))
        return out

    def chr_write(self, st, fr, e, l, v):
        """s[i] = ch"""
        cloc = l[1]
        old = self.rd_nool(st, cloc)
        self.event(st, fr, e, 'write', loc=l, val=v, old=at(old, l[2]))
        new = None
        # whole-string lower-casing loop: s[i] = tolower(s[i]) is recognised by the loop summary
        if is_c(l[2]) and old[0] == 'str' and is_c(v) and 0 <= l[2][1] < len(old[1]):
            new = ('str', old[1][:l[2][1]] + chr(v[1] & 255) + old[1][l[2][1] + 1:])
        elif old[0] in ('cat', 'sub', 'in', 'at', '.', 'lower', 'str') and is_c(l[2]):
            new = cat(substr(old, c(0), l[2]) if l[2][1] else ('str', ''), ('chr', v), substr(old, add(l[2], c(1)), size(old)))
        else:
            new = ('setch', old, l[2], v)
        st.store[cloc] = new

    def arith(self, op, a, b, e):
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return cmp_(op, a, b)
        if op in ('+', '-'):
            t = tn(e.get('t', ''))
            if a[0] in ('it', 'rit', 'padd', 'ptr', 'str', 'c_str', 'data') or b[0] in ('it', 'padd', 'ptr', 'data'):
                return self.ptr_arith(op, a, b)
            if t.endswith('*'):
                return ('padd', a, b if op == '+' else sub(c(0), b))
            if num_bool(a) and not is_c(a):
                a = ('ofbool', a)
            if num_bool(b) and not is_c(b):
                b = ('ofbool', b)
            return add(a, b) if op == '+' else sub(a, b)
        if op == '*':
            if is_c(a) and is_c(b):
                return c(a[1] * b[1])
            for x, y in ((a, b), (b, a)):
                if is_c(x):
                    k, d = lin(y)
                    return mk_lin(k * x[1], {t: n * x[1] for t, n in d.items()})
            return ('op', '*', a, b)
        if op == '&':
            if is_c(a) and is_c(b):
                return c(int(a[1]) & int(b[1]))
            if is_c(a):
                a, b = b, a
            if num_bool(a) and num_bool(b):
                return and_(a, b)
            if a[0] == 'band' and is_c(a[2]) and is_c(b):
                return ('band', a[1], c(a[2][1] & b[1]))
            return ('band', a, b)
        if op == '|':
            if is_c(a) and is_c(b):
                return c(int(a[1]) | int(b[1]))
            if num_bool(a) and num_bool(b):
                return or_(a, b)
            return ('bor', a, b)
        if op in ('<<', '>>', '^', '/', '%') and is_c(a) and is_c(b):
            try:
                return c({'<<': lambda: a[1] << b[1], '>>': lambda: a[1] >> b[1], '^': lambda: a[1] ^ b[1],
                          '/': lambda: int(a[1] / b[1]), '%': lambda: a[1] % b[1]}[op]())
            except Exception:
                pass
        return ('op', op, a, b)

    def ptr_arith(self, op, a, b):
        s = 1 if op == '+' else -1
        if op == '-' and a[0] in ('it', 'rit') and b[0] in ('it', 'rit') and a[1] == b[1]:
            return sub(a[2], b[2]) if a[0] == 'it' else sub(b[2], a[2])
        if a[0] == 'it' and b[0] not in ('it', 'padd', 'ptr'):
            return ('it', a[1], add(a[2], b, s))
        if b[0] == 'it':
            return ('it', b[1], add(b[2], a))
        if a[0] == 'rit':
            return ('rit', a[1], add(a[2], b, -s))
        if a[0] == 'padd' and b[0] == 'padd' and a[1] == b[1] and op == '-':
            return sub(a[2], b[2])
        if a[0] == 'padd':
            return ('padd', a[1], add(a[2], b, s))
        if a[0] in ('ptr', 'str', 'c_str', 'data'):
            return ('padd', a, b if s > 0 else sub(c(0), b))
        return ('op', op, a, b)

    def k_ca(self, e, fr, st):
        out = []
        for s, v in self.E(e['b'], fr, st):
            for s2, l in self.L(e['a'], fr, s):
                old = self.rd(s2, l)
                new = self.arith(e['op'], old, v, e)
                self.event(s2, fr, e, 'write', loc=l, val=new, old=old)
                self.assign(s2, l, new)
                out.append((s2, LV(l)))
        return out

    def k_cond(self, e, fr, st):
        out = []
        for s, b in self.cond(e['c'], fr, st):
            out += self.C(e['a' if b else 'b'], fr, s)
        return out

    def k_idx(self, e, fr, st):
        out = []
        for s, a in self.E(e['a'], fr, st):
            for s2, i in self.E(e['b'], fr, s):
                if a[0] == 'ptr':
                    loc = a[1] if i == c(0) else ('pelem', a[1], i)
                elif a[0] == 'padd':
                    loc = ('pelem', a[1], add(a[2], i))
                else:
                    loc = ('pelem', a, i)
                out.append((s2, LV(loc)))
        return out

    def k_throw(self, e, fr, st):
        if e['e'] is None:
            cur = st.store.get(('curexc',), ('exc', '?', None))
            self.event(st, fr, e, 'rethrow', exc=cur)
            self.raise_(st, cur)
            return []
        for s, v in self.E(e['e'], fr, st):
            self.do_throw(s, fr, e, e.get('t'), v)
        return []

    def do_throw(self, st, fr, e, t, v):
        t = bare(t or '?')
        loc = self.tmp(st)
        st.store[loc] = v
        self.event(st, fr, e, 'throw', t=t, val=v)
        self.raise_(st, ('exc', t, loc))

    def k_lam(self, e, fr, st):
        caps = []
        cur = [(st, [])]
        for cp in e['cap']:
            nx = []
            for s, cs in cur:
                if cp.get('this'):
                    nx.append((s, cs + [('this', fr.this)]))
                elif 'init' in cp:
                    for s2, v in self.E(cp['init'], fr, s):
                        t = self.tmp(s2)
                        s2.store[t] = v
                        nx.append((s2, cs + [(cp['id'], t)]))
                else:
                    (s2, l), = self.k_v({'id': cp['id'], 'n': cp['n']}, fr, s)
                    if not cp.get('ref'):
                        t = self.tmp(s2)
                        s2.store[t] = self.rd(s2, l.loc)
                        nx.append((s2, cs + [(cp['id'], t)]))
                    else:
                        nx.append((s2, cs + [(cp['id'], l.loc)]))
            cur = nx
        return [(s, ('lam', e['u'], tuple(cs))) for s, cs in cur]

    def k_il(self, e, fr, st):
        out = []
        for s, vs in self.Es(e['a'], fr, st):
            if e.get('fs') and not ctor_family(e['t']):
                out.append((s, ('obj', ('new', bare(e['t'])), tuple(sorted(zip(e['fs'], vs))))))
            else:
                out.append((s, ('seq',) + vs))
        return out

    def k_heap(self, e, fr, st):
        loc = ('heap', fr.fid, e.get('l', 0), st.n)
        st.n += 1
        out = []
        ie = e['e']
        if ie is None:
            self.event(st, fr, e, 'heap', t=bare(e['t']), loc=loc)
            return [(st, ('heapptr', loc))]
        for s, v in self.init_at(ie, fr, st, loc, e['t']):
            self.event(s, fr, e, 'heap', t=bare(e['t']), loc=loc, val=v)
            out.append((s, ('heapptr', loc)))
        return out

    def k_delete(self, e, fr, st):
        out = []
        for s, v in self.E(e['e'], fr, st):
            self.event(s, fr, e, 'delete', val=v)
            out.append((s, ('void',)))
        return out

    def k_typeid(self, e, fr, st):
        if e.get('ty'):
            return [(st, ('typeid', bare(e['ty'])))]
        return [(s, ('typeid', v)) for s, v in self.E(e['e'], fr, st)]

    def k_unk(self, e, fr, st):
        for s in (st,):
            return [(st, ('unk', e.get('cls'), e.get('l', 0)))]

    def k_bm(self, e, fr, st):
        out = []
        for s, l in self.L(e['o'], fr, st):
            out.append((s, ('bm', l, e['q'], e['u'])))
        return out

    # ------------------------------------------------------------ construction
    def is_exc(self, t):
        return self.p.derives(bare(t), 'std::exception')

    def init_value(self, e, fr, st, t):
        """value for initialising an object of type t from e"""
        return self.E(e, fr, st)

    def init_at(self, e, fr, st, loc, t):
        if e and e['k'] == 'new' and self.p.funcs.get(e.get('u')) and not self.is_exc(e['t']) and self.can_inline(e, fr):
            return [(s, ('new', bare(t))) for s in self.inline_ctor(e, fr, st, loc)]
        out = []
        for s, v in self.E(e, fr, st):
            s.store[loc] = v
            out.append((s, v))
        return out

    def inline_ctor(self, e, fr, st, loc):
        fn = self.p.funcs[e['u']]
        outs = []
        for s, as_ in self.args(e, fr, st, fn):
            nf = Frame(fn, self.fid(s), loc, fr)
            self.bind(s, nf, fn, as_)
            self.event(s, fr, e, 'ctor', q=fn['q'], args=tuple(self.rd(s, a.loc) if isinstance(a, LV) else a for a in as_), argl=tuple(a.loc if isinstance(a, LV) else None for a in as_))
            for k, v, s2 in self.body(fn, nf, s):
                if k == 'ret':
                    outs.append(s2)
                elif k == 'throw':
                    self.raise_(s2, v)
        self.inlined.add(fn['u'])
        return outs

    def k_new(self, e, fr, st):
        t = bare(e['t'])
        fam = ctor_family(e['t'])
        fn = self.p.funcs.get(e.get('u'))
        if fam:
            return self.std_ctor(fam, t, e, fr, st)
        if self.is_exc(e['t']):
            out = []
            for s, vs in self.Es(e['a'], fr, st):
                self.event(s, fr, e, 'excctor', t=t, args=vs)
                out.append((s, ('new', t) + vs))
            return out
        if fn is not None and self.can_inline(e, fr):
            out = []
            loc = self.tmp(st)
            for s in self.inline_ctor(e, fr, st, loc):
                v = self.rd(s, loc)
                if v == ('in', loc):
                    v = ('new', t)
                elif v[0] == 'obj' and v[1] == ('in', loc):
                    v = ('obj', ('new', t), v[2])
                out.append((s, v))
            return out
        rec = self.p.records.get(t)
        if rec and not e['a']:
            return [(st, self.default_obj(rec))]
        out = []
        for s, vs in self.Es(e['a'], fr, st):
            if len(e['a']) == 1 and t in ('std::locale',):
                out.append((s, vs[0]))
            else:
                out.append((s, ('new', t) + vs))
        return out

    def default_obj(self, rec):
        fs = {}
        for f in rec['fields']:
            fam = ctor_family(f['t'])
            if fam:
                fs[f['n']] = self.default_of(fam, f['t'])
        return ('obj', ('new', rec['t']), tuple(sorted(fs.items())))

    def default_of(self, fam, t):
        return {'S': ('str', ''), 'V': ('seq',), 'X': ('seq',), 'M': ('map0',), 'A': ('any0',), 'P': ('null',), 'F': ('null',),
                'O': ('opt0',), 'PR': ('pair', ('str', ''), ('str', '')), 'T': ('new', bare(t)), 'I': ('it0',)}[fam]

    def std_ctor(self, fam, t, e, fr, st):
        if not e['a'] or fam == 'S' and e.get('dc'):
            return [(st, self.default_of(fam, e['t']))]
        args = [a for a in e['a'] if not (a and a.get('k') == 'new' and ('allocator' in a.get('q', '')))]
        args = [a for a in args if not (a and a.get('k') == 'i' and e['pt'][-1:] and False)]
        out = []
        for s, rs in self.Cs(args, fr, st):
            vs = tuple(self.rd(s, r.loc) if isinstance(r, LV) else r for r in rs)
            v = self.std_ctor1(fam, t, e, fr, s, vs, rs)
            out.append((s, v))
        return out

    def std_ctor1(self, fam, t, e, fr, s, vs, rs):
        n = len(vs)
        if fam == 'I' and n == 1 and 'reverse_iterator' in t and vs[0][0] == 'it' and 'reverse_iterator' not in e['pt'][0] and vs[0][2][0] not in ('key', 'mkey', 'mend', 'lb', 'ub', 'stepk'):
            return ('rit', vs[0][1], sub(vs[0][2], c(1)))
        if fam == 'S':
            if n == 1:
                v = vs[0]
                if v[0] == 'seq':
                    return cat(*[('chr', x) for x in v[1:]]) if len(v) > 1 else ('str', '')
                return self.strof(v)
            if n == 2 and vs[0][0] in ('it', 'rit', 'padd', 'data') or (n == 2 and vs[1][0] in ('it', 'padd')):
                self.range_ob(s, fr, e, vs[0], vs[1])
                return self.range_val(s, vs[0], vs[1])
            if n == 2 and tn(e['pt'][1]) in ('char', 'wchar_t'):
                if is_c(vs[0]) and vs[0][1] == 1:
                    return cat(('chr', vs[1]))
                return ('rep', vs[0], vs[1])
            if n == 2 and bare(e['pt'][0]).endswith('*'):
                return substr(self.strof(vs[0]), c(0), vs[1])
            if n >= 2:
                b = self.strof(vs[0])
                hi = size(b) if n == 2 or vs[2] == c(NPOS) else add(vs[1], vs[2])
                return substr(b, vs[1], hi)
            return ('new', t) + vs
        if fam in ('V', 'X'):
            if n == 1 and (is_c(vs[0]) or 'long' in e['pt'][0] or 'int' in e['pt'][0]):
                return ('repeat', vs[0])
            if n == 1:
                v = vs[0]
                if v[0] == 'seq':
                    return v
                return v
            if n >= 2 and (vs[0][0] in ('it', 'padd', 'rit', 'data') or '*' in e['pt'][0] or 'iterator' in e['pt'][0]):
                self.range_ob(s, fr, e, vs[0], vs[1])
                r = self.range_val(s, vs[0], vs[1])
                return ('setof', r) if fam == 'X' else r
            if n >= 2 and is_c(vs[0]) and isinstance(vs[0][1], int) and 0 <= vs[0][1] <= 8:
                return ('seq',) + (vs[1],) * vs[0][1]
            if n >= 2:
                return ('rep', vs[0], vs[1])
        if fam == 'M':
            return vs[0] if n == 1 else ('new', t) + vs
        if fam == 'A':
            v = vs[0]
            ty = e['a'][0]
            pt = self.argtype(e, 0)
            return ('any', pt, v)
        if fam in ('P', 'F'):
            return vs[0] if vs[0] != c(0) else ('null',)
        if fam == 'O':
            if vs[0][0] in ('new',) and ('none' in str(vs[0]) or 'nullopt' in str(vs[0])):
                return ('opt0',)
            return ('opt', vs[0])
        if fam == 'PR':
            if n == 2:
                return ('pair', vs[0], vs[1])
            return vs[0]
        if fam == 'I':
            return vs[0]
        return ('new', t) + vs

    def argtype(self, e, i):
        """type of the object stored in an any"""
        if e.get('ta'):
            return bare(e['ta'][0])
        pt = e['pt'][i] if i < len(e['pt']) else '?'
        return bare(pt)

    def strof(self, v):
        if v[0] == 'c_str':
            return v[1]
        if v[0] == 'strmem':
            return v[1]
        g = v if v[0] == 'G' else v[1] if v[0] in ('ptr', 'in') and isinstance(v[1], tuple) and v[1][0] == 'G' else None
        if g:
            k = self.constant(g[1])
            if k is not None and k[0] == 'str':
                return k
        return v

    def range_val(self, st, b, e_):
        """sequence value for iterator range [b, e)"""
        if b[0] == 'it' and e_[0] == 'it' and b[1] == e_[1]:
            cv = self.rd(st, b[1])
            return substr(cv, b[2], e_[2])
        if b[0] == 'padd' and e_[0] == 'padd' and b[1] == e_[1]:
            return ('sub', ('mem', b[1]), b[2], e_[2])
        if e_[0] == 'padd' and e_[1] == b:
            return ('sub', ('mem', b), c(0), e_[2])
        if b[0] == 'data' and e_[0] == 'padd' and e_[1] == b:
            return substr(b[1], c(0), e_[2])
        return ('range', b, e_)

    # ------------------------------------------------------------ calls
    def args(self, e, fr, st, fn):
        """evaluate arguments for a repo function: [(st, [LV|term])]"""
        cur = [(st, ())]
        for i, a in enumerate(e['a']):
            ref = i < len(fn['ps']) and fn['ps'][i]['ref']
            nx = []
            for s, vs in cur:
                if ref:
                    for s2, l in self.L(a, fr, s):
                        nx.append((s2, vs + (LV(self.up(l, self.stype(a, fr) if a else None, fn['ps'][i]['t'])),)))
                else:
                    for s2, v in self.E(a, fr, s):
                        nx.append((s2, vs + (v,)))
            cur = nx
        return cur

    def bind(self, st, fr, fn, as_):
        for p, a in zip(fn['ps'], as_):
            if p['ref']:
                if isinstance(a, LV):
                    st.store[('ref', fr.fid, p['id'])] = a.loc
                else:
                    t = self.tmp(st)
                    st.store[t] = a
                    st.store[('ref', fr.fid, p['id'])] = t
            else:
                v = self.rd(st, a.loc) if isinstance(a, LV) else a
                loc = ('L', fr.fid, p['id'], p['n'])
                st.store[('ref', fr.fid, p['id'])] = loc
                st.store[loc] = v

    def can_inline(self, e, fr):
        u = e.get('u')
        fn = self.p.funcs.get(u)
        if fn is None or e.get('virt'):
            return False
        if fn['q'] in self.opaque or (self.opaque_pred and self.opaque_pred(fn)):
            return False
        if u in fr.stack or fr.depth >= self.maxdepth:
            return False
        if fn.get('rec') and self.p.derives_q(fn['rec'], 'std::exception'):
            # how errors work inside only matters where an error's own function is analysed
            root_ = self.p.funcs.get(fr.stack[0])
            return bool(root_ and root_.get('cls') and self.p.derives_q(root_['cls'], 'std::exception'))
        return True

    def inline(self, fn, fr, st, this, as_, e=None):
        """[(st, LV|term)]; throws are recorded"""
        nf = Frame(fn, self.fid(st), this, fr)
        nf.sites = fr.sites + (self.site(e),)
        self.bind(st, nf, fn, as_)
        self.inlined.add(fn['u'])
        out = []
        for k, v, s in self.body(fn, nf, st):
            if k == 'ret':
                out.append((s, v if v is not None else ('void',)))
            elif k == 'throw':
                self.raise_(s, v)
        return out

    def k_c(self, e, fr, st):
        q = e['q']
        if q == '__assert_fail' or (e.get('nr') and q in ('abort', 'std::abort', 'exit', 'std::terminate', 'std::__throw_bad_function_call')):
            self.event(st, fr, e, 'assertfail')
            return []
        if q == 'boost::throw_exception':
            for s, v in self.E(e['a'][0], fr, st):
                t = (e.get('ta') or [None])[0] or e['pt'][0]
                self.do_throw(s, fr, e, t, v)
            return []
        fn = self.p.funcs.get(e['u'])
        if fn is not None or e.get('in'):
            return self.repo_call(e, fr, st, fn)
        return self.std_call(e, fr, st)

    def obj(self, e, fr, st):
        """object location of a member call"""
        if 'o' not in e or e['o'] is None:
            return [(st, None)]
        if e.get('ar'):
            out = []
            for s, v in self.E(e['o'], fr, st):
                if e['o']['k'] != 'this':
                    self.deref_ob(s, fr, e, v)
                out.append((s, self.deref(v)))
            return out
        return self.L(e['o'], fr, st)

    def repo_call(self, e, fr, st, fn):
        out = []
        for s, o in self.obj(e, fr, st):
            if fn is not None and self.can_inline(e, fr):
                for s2, as_ in self.args(e, fr, s, fn):
                    out += self.inline(fn, fr, s2, o if o is not None else fr.this, as_, e)
            else:
                # defaulted assignment
                if e.get('asg'):
                    for s2, v in self.E(e['a'][0], fr, s):
                        self.event(s2, fr, e, 'write', loc=o, val=v, old=self.rd(s2, o))
                        self.assign(s2, o, v)
                        out.append((s2, LV(o)))
                    continue
                cur = [(s, ())]
                for i, a in enumerate(e['a']):
                    nx = []
                    for s2, vs in cur:
                        if i < len(e['pt']) and is_mut_ref(e['pt'][i]):
                            for s3, l in self.L(a, fr, s2):
                                nx.append((s3, vs + (LV(l),)))
                        else:
                            for s3, v in self.E(a, fr, s2):
                                nx.append((s3, vs + (v,)))
                    cur = nx
                for s2, as_ in cur:
                    out += self.opaque_call(e, fr, s2, o, as_)
        return out

    def opaque_call(self, e, fr, st, o, as_):
        q = e['q']
        virt = bool(e.get('virt'))
        fn = self.p.funcs.get(e['u'])
        muts = [a for a in as_ if isinstance(a, LV)]
        const = e.get('cm') or 'o' not in e or e.get('o') is None
        avals = tuple(self.rd(st, a.loc) if isinstance(a, LV) else a for a in as_)
        oterm = None
        if o is not None:
            oterm = o[1] if o[0] == 'deref' else ('obj@', o) if o[0] != 'this' else ('this',)
            if not const or (o[0] not in ('deref', 'this') and o in st.store):
                oterm = ('obj@', o, ) if not const else ('val', self.rd(st, o))
        pure = const and not muts
        if pure:
            res = ('call', q) + ((oterm,) if oterm is not None else ()) + avals
        else:
            res = ('call', q) + ((oterm,) if oterm is not None else ()) + avals + (('io', self.opq(st)),)
        ev = self.event(st, fr, e, 'call', q=q, u=e['u'], obj=o, oterm=oterm, args=avals,
                        argl=tuple(a.loc if isinstance(a, LV) else None for a in as_), res=res, virt=virt, pure=pure)
        # may it throw?
        if virt:
            ts = ['?'] if not const or muts else []
        else:
            ts = self.p.throws(e['u'])
        for t in ts:
            s3 = st.fork()
            t2 = t
            loc = self.tmp(s3)
            s3.store[loc] = ('thrown', q, t2)
            for a in muts:
                self.havoc_loc(s3, a.loc, ('outx', q) + avals)
            self.event(s3, fr, e, 'xthrow', q=q, t=t2)
            self.raise_(s3, ('exc', t2, loc))
        for i, a in enumerate(as_):
            if isinstance(a, LV):
                self.havoc_loc(st, a.loc, ('out', q, i) + avals + ((res[-1],)))
        if o is not None and not const:
            if o == ('this',):
                kept = self.p.kept_fields(e['u'])
                for k in [k for k in st.store if k[0] == 'fld' and under(k, o) and not any(k == ('fld', o, n) or under(k, ('fld', o, n)) for n in kept)]:
                    del st.store[k]
                for f in self.p.fields_of_fn(e['u']):
                    if f not in kept:
                        st.store[('fld', o, f)] = ('aft', q, f, res[-1])
            else:
                self.havoc_loc(st, o, ('aft', q, '', res[-1]))
        r = tn(e.get('r', ''))
        if r.startswith('unsigned') and '<' not in r and '*' not in r:
            if res not in st.facts:
                st.facts = dict(st.facts)
                st.facts[res] = (0, None, frozenset())
        en = self.p.enum_types.get(bare(r))
        if en and res not in st.facts:
            vals = [x['v'] for x in en['vals']]
            st.facts = dict(st.facts)
            st.facts[res] = (min(vals), max(vals), frozenset(set(range(min(vals), max(vals))) - set(vals)) if max(vals) - min(vals) < 64 else frozenset())
        if r == 'void':
            return [(st, ('void',))]
        if self.returns_ref(e):
            return [(st, LV(('deref', res)))]
        return [(st, res)]

    def returns_ref(self, e):
        fn = self.p.funcs.get(e['u'])
        if fn:
            return fn['rref']
        m = self.p.methods.get(e['u'])
        if m:
            return m['ret'].strip().endswith('&')
        return False

    def havoc_loc(self, st, loc, v):
        for k in [k for k in st.store if isinstance(k, tuple) and k[0] in ('fld', 'elem', 'anyval') and under(k, loc)]:
            del st.store[k]
        if loc[0] in ('fld', 'elem', 'anyval'):
            self.dirty(st, loc)
        st.store[loc] = v

    def k_ci(self, e, fr, st):
        """call through a function pointer / pointer to member"""
        out = []
        for s, f in self.E(e['f'], fr, st):
            for s2, rs in self.Cs(e['a'], fr, s):
                out += self.call_value(f, rs, e, fr, s2)
        return out

    def call_value(self, f, rs, e, fr, st):
        """call a function-like value with actual arguments rs (LV|term)"""
        if f[0] == 'lam':
            fn = self.p.funcs.get(f[1])
            if fn is not None and f[1] not in fr.stack and fr.depth < self.maxdepth:
                nf = Frame(fn, self.fid(st), fr.this, fr)
                for a, b in f[2]:
                    if a == 'this':
                        nf.this = b
                    else:
                        nf.caps[a] = b
                self.bind(st, nf, fn, rs)
                out = []
                for k, v, s in self.body(fn, nf, st):
                    if k == 'ret':
                        out.append((s, v if v is not None else ('void',)))
                    elif k == 'throw':
                        self.raise_(s, v)
                return out
        if f[0] == 'fn':
            fn = self.p.funcs.get(f[2])
            info = self.fninfo.get(f[2], {})
            fe = {'k': 'c', 'q': f[1], 'u': f[2], 'l': e.get('l'), 'a': [], 'pt': [p['t'] for p in fn['ps']] if fn else info.get('pt') or ['?'] * len(rs), 'r': fn['ret'] if fn else '?'}
            if fn is not None and self.can_inline(fe, fr) and len(fn['ps']) == len(rs):
                return self.inline(fn, fr, st, fr.this, rs, e)
            return self.opaque_call(fe, fr, st, None, [a if isinstance(a, LV) and (i >= len(fe['pt']) or fe['pt'][i] == '?' or is_mut_ref(fe['pt'][i])) else (self.rd(st, a.loc) if isinstance(a, LV) else a) for i, a in enumerate(rs)])
        if f[0] == 'bind':
            g = f[1]
            bargs = list(f[2])
            act = []
            for b in bargs:
                if b[0] == 'ph':
                    act.append(rs[b[1] - 1] if b[1] - 1 < len(rs) else ('unk',))
                else:
                    act.append(b)
            if g[0] == 'fn':
                fn = self.p.funcs.get(g[2])
                m = self.p.methods.get(g[2])
                info = self.fninfo.get(g[2], {})
                isM = bool((fn and fn.get('rec')) or m or (info.get('cls') and not info.get('st')))
                if isM and act:
                    o = act[0]
                    ov = self.rd(st, o.loc) if isinstance(o, LV) else o
                    oloc = self.deref(ov) if ov[0] in ('ptr', 'heapptr') else (o.loc if isinstance(o, LV) else ('deref', ov))
                    fe = {'k': 'c', 'q': g[1], 'u': g[2], 'l': e.get('l'), 'a': [], 'o': {}, 'pt': [p['t'] for p in fn['ps']] if fn else m['pt'] if m else info.get('pt') or ['?'] * len(act),
                          'cm': (fn or m or info).get('cm'), 'r': fn['ret'] if fn else m['ret'] if m else '?', 'virt': (fn or m or {}).get('virt')}
                    if fn is not None and self.can_inline(fe, fr):
                        return self.inline(fn, fr, st, oloc, act[1:], e)
                    return self.opaque_call(fe, fr, st, oloc, [a if isinstance(a, LV) and i < len(fe['pt']) and is_mut_ref(fe['pt'][i]) else (self.rd(st, a.loc) if isinstance(a, LV) else a) for i, a in enumerate(act[1:])])
                return self.call_value(g, act, e, fr, st)
            return self.call_value(g, act, e, fr, st)
        if f[0] == 'obj' or f[0] == 'new':
            # functor object of a repo class
            t = f[1][1] if f[0] == 'obj' and f[1][0] == 'new' else f[1] if f[0] == 'new' else None
            u = self.p.call_op(t)
            if u:
                fn = self.p.funcs[u]
                if u not in fr.stack:
                    loc = self.tmp(st)
                    st.store[loc] = f
                    return self.inline(fn, fr, st, loc, rs, e)
        # unknown callable: user code
        avals = tuple(self.rd(st, a.loc) if isinstance(a, LV) else a for a in rs)
        res = ('icall', f) + avals + (('io', self.opq(st)),)
        self.event(st, fr, e, 'icall', f=f, args=avals, argl=tuple(a.loc if isinstance(a, LV) else None for a in rs), res=res)
        s3 = st.fork()
        loc = self.tmp(s3)
        s3.store[loc] = ('thrown', 'icall', '?')
        self.event(s3, fr, e, 'xthrow', q='icall', t='?')
        self.raise_(s3, ('exc', '?', loc))
        pts = e.get('pt') or []
        mut = self.fsig_mut(e)
        for i, a in enumerate(rs):
            if isinstance(a, LV) and (mut is None or (i < len(mut) and mut[i])):
                self.havoc_loc(st, a.loc, ('out', 'icall', i, f) + avals + (res[-1],))
        return [(st, res)]

    def fsig_mut(self, e):
        pts = e.get('pt')
        if not pts:
            return None
        mut = [is_mut_ref(p) for p in pts]
        # a bound member function: what it takes by value is not changed
        m = re.search(r'_mfi::\w+<', e.get('cls') or '')
        l = re.search(r'_bi::list\d+<', e.get('cls') or '')
        if m and l:
            sig, li = targs_at(e['cls'], m.end()), targs_at(e['cls'], l.end())
            for i in range(len(mut)):
                at = [j for j, x in enumerate(li) if x == 'boost::arg<%d>' % (i + 1)]
                if at and all(0 < j and j + 1 < len(sig) for j in at):
                    mut[i] = mut[i] and any(is_mut_ref(sig[j + 1]) for j in at)
        return mut

    # ------------------------------------------------------------ statements
    def X(self, s, fr, st):
        """execute a statement: [(kind, val, st)] kind in n,ret,brk,cont,throw,stop"""
        if s is None:
            return [('n', None, st)]
        saved = getattr(self, 'thr', None)
        self.thr = []
        try:
            out = getattr(self, 's_' + s['s'])(s, fr, st)
            out = out + self.thr
        finally:
            self.thr = saved
        if len(out) > self.limit:
            raise Limit(fr.fn['q'])
        return out

    def seq(self, stmts, fr, st):
        cur = [st]
        done = []
        for s in stmts:
            nx = []
            for x in cur:
                for r in self.X(s, fr, x):
                    if r[0] == 'n':
                        nx.append(r[2])
                    else:
                        done.append(r)
            if self.merge_at and len(nx) > self.merge_at:
                nx = [self.merge(nx)]
            cur = nx
            if len(cur) + len(done) > self.limit:
                raise Limit(fr.fn['q'])
            if not cur:
                break
        return [('n', None, x) for x in cur] + done

    def merge(self, sts):
        """join many states: common facts, differing locations become unknown,
        the differing effect suffixes are kept as alternatives"""
        n = 0
        m = min(len(s.ev) for s in sts)
        while n < m and all(s.ev[n] is sts[0].ev[n] for s in sts):
            n += 1
        facts = {}
        for k, v in sts[0].facts.items():
            if all(k in s.facts for s in sts):
                vs = [s.facts[k] for s in sts]
                if all(x == v for x in vs):
                    facts[k] = v
                elif all(isinstance(x, tuple) for x in vs):
                    lo = None if any(x[0] is None for x in vs) else min(x[0] for x in vs)
                    hi = None if any(x[1] is None for x in vs) else max(x[1] for x in vs)
                    ne = frozenset.intersection(*[x[2] for x in vs])
                    facts[k] = (lo, hi, ne)
        self.mergeno = getattr(self, 'mergeno', 0) + 1
        store = {}
        keys = set()
        for s in sts:
            keys |= set(s.store)
        for k in keys:
            vs = [s.store.get(k) for s in sts]
            if all(v == vs[0] for v in vs):
                store[k] = vs[0]
            elif k[0] == 'ref':
                store[k] = vs[0] if vs[0] is not None else [v for v in vs if v is not None][0]
            elif None in vs and k[0] in ('L', 'tmp', 'heap'):
                continue
            else:
                if k[0] in ('fld', 'elem', 'anyval') and None in vs:
                    vs = [s.store.get(k) or self.rd(s, k) for s in sts]
                    if all(v == vs[0] for v in vs):
                        store[k] = vs[0]
                        continue
                store[k] = ('mrg', self.mergeno, k)
        ev = list(sts[0].ev[:n])
        alts = [s.ev[n:] for s in sts]
        if any(alts):
            ev.append(Ev('merged', alts=alts, altfacts=[s.facts for s in sts], facts=facts, line=0, fn='', file=''))
        return St(store, facts, ev, max(s.n for s in sts))

    def s_blk(self, s, fr, st):
        return self.seq(s['b'], fr, st)

    def s_null(self, s, fr, st):
        return [('n', None, st)]

    def s_unk(self, s, fr, st):
        self.unmodelled.add('stmt:' + s.get('cls', '?'))
        return [('n', None, st)]

    def s_label(self, s, fr, st):
        return self.X(s['b'], fr, st)

    def s_expr(self, s, fr, st):
        return [('n', None, x) for x, _ in self.C(s['e'], fr, st)]

    def s_decl(self, s, fr, st):
        cur = [st]
        for v in s['v']:
            nx = []
            for x in cur:
                nx += self.decl(v, fr, x)
            cur = nx
        return [('n', None, x) for x in cur]

    def decl(self, v, fr, st):
        rk = ('ref', fr.fid, v['id'])
        out = []
        if v.get('static'):
            st.store[rk] = ('G', v['static'])
            return [st]
        if v['ref']:
            if 'init' not in v:
                return [st]
            for s, l in self.L(v['init'], fr, st):
                s.store[rk] = self.up(l, self.stype(v['init'], fr) if v['init'] else None, v['t'])
                out.append(s)
        else:
            loc = ('L', fr.fid, v['id'], v['n'])
            if 'init' not in v or v['init'] is None:
                for k in [k for k in st.store if isinstance(k, tuple) and k[0] in ('fld', 'elem', 'anyval') and under(k, loc)]:
                    del st.store[k]
                st.store[loc] = ('uninit', loc)
                st.store[rk] = loc
                out = [st]
            else:
                for s, val in self.E(v['init'], fr, st):
                    for k in [k for k in s.store if isinstance(k, tuple) and k[0] in ('fld', 'elem', 'anyval') and under(k, loc)]:
                        del s.store[k]
                    s.store[loc] = val
                    s.store[rk] = loc
                    out.append(s)
        for b in v.get('bind', []):
            nx = []
            for s in out:
                nx += self.decl(b, fr, s)
            out = nx
        return out

    def s_if(self, s, fr, st):
        pre = [st]
        done = []
        for p in ('init', 'cv'):
            if s.get(p):
                nx = []
                for x in pre:
                    for r in self.X(s[p], fr, x):
                        if r[0] == 'n':
                            nx.append(r[2])
                        else:
                            done.append(r)
                pre = nx
        out = done
        for x in pre:
            for s2, b in self.cond(s['c'], fr, x):
                out += self.X(s['t'] if b else s['e'], fr, s2)
        return out

    def s_ret(self, s, fr, st):
        if s['e'] is None:
            return [('ret', ('void',), st)]
        if fr.fn['rref']:
            return [('ret', LV(l), x) for x, l in self.L(s['e'], fr, st)]
        return [('ret', v, x) for x, v in self.E(s['e'], fr, st)]

    def s_break(self, s, fr, st):
        return [('brk', None, st)]

    def s_continue(self, s, fr, st):
        return [('cont', None, st)]

    def s_case(self, s, fr, st):
        return self.X(s['b'], fr, st)

    def s_default(self, s, fr, st):
        return self.X(s['b'], fr, st)

    def s_switch(self, s, fr, st):
        pre = [st]
        for p in ('init', 'cv'):
            if s.get(p):
                pre = [r[2] for x in pre for r in self.X(s[p], fr, x) if r[0] == 'n']
        # flatten the body: list of statements, with labels
        stmts = []

        def flat(b):
            if b is None:
                return
            if b['s'] == 'blk':
                for y in b['b']:
                    flat1(y)
            else:
                flat1(b)

        def flat1(y):
            if y is None:
                return
            if y['s'] in ('case', 'default'):
                stmts.append(('lab', y.get('v') if y['s'] == 'case' else None, y['s']))
                flat1(y['b'])
            else:
                stmts.append(('st', y))
        flat(s['b'])
        labels = [(i, x[1]) for i, x in enumerate(stmts) if x[0] == 'lab' and x[2] == 'case']
        dflt = [i for i, x in enumerate(stmts) if x[0] == 'lab' and x[2] == 'default']
        out = []
        for x in pre:
            for s0, v in self.E(s['c'], fr, x):
                rest = [s0]
                targets = []
                for i, n in labels:
                    nr = []
                    for r in rest:
                        for s2, b in self.branch(r, cmp_('==', v, c(n))):
                            if b:
                                targets.append((i, s2))
                            else:
                                nr.append(s2)
                    rest = nr
                for r in rest:
                    if dflt:
                        targets.append((dflt[0], r))
                    else:
                        out.append(('n', None, r))
                for i, s2 in targets:
                    for r in self.seq([y[1] for y in stmts[i:] if y[0] == 'st'], fr, s2):
                        if r[0] == 'brk':
                            out.append(('n', None, r[2]))
                        else:
                            out.append(r)
        return out

    def s_try(self, s, fr, st):
        out = []
        for k, v, x in self.X(s['b'], fr, st):
            if k != 'throw':
                out.append((k, v, x))
                continue
            out += self.handle(s['h'], v, fr, x)
        return out

    def handle(self, hs, exc, fr, st):
        out = []
        t = exc[1]
        cur = st
        for h in hs:
            ht = bare(h['t']) if h['t'] != '...' else '...'
            if ht == '...':
                m = True
            elif t == '?':
                m = None
            else:
                m = self.p.derives(t, ht)
                if not m and self.p.derives(ht, t):
                    m = None      # static type is a base of the handler type
            if m is False:
                continue
            s2 = cur.fork() if m is None else cur
            self.event(s2, fr, h['l'], 'catch', t=ht, exc=exc)
            if 'v' in h:
                rk = ('ref', fr.fid, h['v']['id'])
                if exc[2] is not None:
                    s2.store[rk] = exc[2]
            prev = s2.store.get(('curexc',))
            s2.store[('curexc',)] = exc if t != '?' or ht == '...' else ('exc', ht, exc[2])
            for k, v, x in self.X(h['b'], fr, s2):
                if prev is None:
                    x.store.pop(('curexc',), None)
                else:
                    x.store[('curexc',)] = prev
                out.append((k, v, x))
            if m:
                return out
        out.append(('throw', exc, cur))
        return out

    # ------------------------------------------------------------ loops
    def s_for(self, s, fr, st):
        out = []
        pre = [st]
        if s.get('init'):
            pre = []
            for r in self.X(s['init'], fr, st):
                if r[0] == 'n':
                    pre.append(r[2])
                else:
                    out.append(r)
        for x in pre:
            out += self.loop(s, fr, x, s.get('c'), s['b'], s.get('inc'), s.get('cv'))
        return out

    def s_while(self, s, fr, st):
        return self.loop(s, fr, st, s['c'], s['b'], None, s.get('cv'))

    def s_do(self, s, fr, st):
        # body once, then while(c) body
        out = []
        for k, v, x in self.X(s['b'], fr, st):
            if k in ('n', 'cont'):
                out += self.loop(s, fr, x, s['c'], s['b'], None, None)
            elif k == 'brk':
                out.append(('n', None, x))
            else:
                out.append((k, v, x))
        return out

    def s_rfor(self, s, fr, st):
        out = []
        pre = [st]
        if s.get('init'):
            pre = [r[2] for r in self.X(s['init'], fr, st) if r[0] == 'n']
        for x in pre:
            for s2, l in self.L(s['range'], fr, x):
                hid = ('L', fr.fid, -s['v']['id'], '__i')
                s2.store[hid] = c(0)
                l = self.up(l, self.stype(s['range'], fr) or s.get('rt'))
                out += self.loop(s, fr, s2, None, s['b'], None, None, rng=(hid, l, s['v']))
        return out

    def loop(self, s, fr, st, cond, body, inc, cv, rng=None):
        """summarise a loop"""
        lid = ('loop', fr.fn['u'], s['l'], fr.stack, fr.sites, s.get('tag'))
        lid = self.lid(lid)
        havoc = {}           # loc -> replacement value
        base = st
        for rnd in range(12):
            h = base.fork()
            h.ev = []
            for loc, v in havoc.items():
                if v is None:
                    continue
                for k in [k for k in h.store if isinstance(k, tuple) and k != loc and k[0] in ('fld', 'elem', 'anyval') and under(k, loc)]:
                    if k not in havoc:
                        del h.store[k]
                h.store[loc] = v
            for loc, v in havoc.items():
                if v is None:
                    h.store.pop(loc, None)
            snap = dict(h.store)
            n0 = h.n
            back, exits, heads, thr = self.iterate(s, fr, h, cond, body, inc, cv, rng, lid)
            changed = False
            newh = {}
            for loc in snap:
                if loc[0] in ('ref', 'tmp'):
                    continue
                vals = [b.store.get(loc) for b in back]
                if all(v == snap[loc] for v in vals):
                    continue
                newh[loc] = [v for v in vals]
            # locations first written inside the loop whose root existed before
            for b in back:
                for loc in b.store:
                    if loc in snap or loc[0] in ('ref', 'tmp', 'heap'):
                        continue
                    if loc == ('io',):
                        if loc not in havoc:
                            newh[loc] = [b.store[loc]]
                        continue
                    if loc[0] in ('L',):
                        continue
                    r = root(loc)
                    if r[0] in ('L', 'tmp', 'heap') and not any(k == r or (k[0] in ('fld', 'elem', 'anyval') and under(k, r)) for k in snap):
                        continue
                    # derived value unchanged?
                    hv = St(dict(snap), base.facts, [], 0)
                    if self.rd(hv, loc) == b.store[loc]:
                        continue
                    newh.setdefault(loc, []).append(b.store[loc])
            for loc, vals in newh.items():
                cur = havoc.get(loc, 'none')
                nv = self.widen(base, loc, vals, lid, cur, snap)
                if loc not in havoc or havoc[loc] != nv:
                    havoc[loc] = nv
                    changed = True
                    # a part of an object changes: containers above are dirtied through assign()
            if not changed:
                break
        # assemble
        over = None
        iters = []
        for kind, val, x in thr['iters']:
            iters.append(Ev('iter', kind=kind, val=val, evs=x.ev, facts=x.facts, st=x, line=s['l'], fn=fr.fn['q'], file=fr.fn['f']))
        base0 = {}
        for loc in havoc:
            try:
                base0[loc] = base.store[loc] if loc in base.store else self.rd(base, loc)
            except KeyError:
                base0[loc] = None
        lev = Ev('loop', id=lid, base0=base0, iters=iters, line=s['l'], fn=fr.fn['q'], file=fr.fn['f'], facts=base.facts, stack=fr.stack,
                 entry=[f for f in thr['entry']], havoc=dict(havoc), head=dict(snap))
        out = []
        nonback = [i for i in iters]
        for kind, val, x in exits:
            s2 = x.fork()
            s2.ev = list(base.ev) + [lev] + x.ev
            if kind == 'brk':
                s2.ev.insert(len(base.ev) + 1, Ev('brk', id=lid, facts=x.facts, line=s['l'], fn=fr.fn['q'], file=fr.fn['f']))
                out.append(('n', None, s2))
            elif kind == 'done':
                self.mapped(s2, base, havoc, snap, iters, lid)
                s2.ev.insert(len(base.ev) + 1, Ev('exh', id=lid, facts=x.facts, line=s['l'], fn=fr.fn['q'], file=fr.fn['f']))
                out.append(('n', None, s2))
            else:
                s2.ev.insert(len(base.ev) + 1, Ev('leave', id=lid, facts=x.facts, line=s['l'], fn=fr.fn['q'], file=fr.fn['f']))
                out.append((kind, val, s2))
        return out

    def mapped(self, s2, base, havoc, snap, iters, lid):
        """a loop that ran to its end and treated every element of S alike: give its accumulators a closed form"""
        backs = [i for i in iters if i.kind == 'back']
        if not backs:
            return
        ixs = {t for v in havoc.values() if v is not None for t in subterms(v)
               if t and t[0] == 'ix' and t[1][0] == lid and t[2] is not None and t[1][3] == 1}
        for loc, v in havoc.items():
            if v != ('phi', lid, loc) or s2.store.get(loc) != v:
                continue
            e0 = base.store[loc] if loc in base.store else None
            if e0 is None:
                try:
                    e0 = self.rd(base, loc)
                except KeyError:
                    continue
            vals = {i.st.store.get(loc) for i in backs}
            if len(vals) != 1:
                continue
            nv = vals.pop()
            if nv is None:
                continue
            for ix in ixs:
                r = closed(v, e0, nv, ix, s2.facts, lid)
                if r is not None:
                    s2.store[loc] = r
                    break

    def site(self, e):
        if e is None:
            return 0
        return e.setdefault('_sid', id(e))

    def lid(self, key):
        if not hasattr(self, 'lids'):
            self.lids = {}
        if key not in self.lids:
            self.lids[key] = len(self.lids) + 1
        return self.lids[key]

    def iterate(self, s, fr, h, cond, body, inc, cv, rng, lid):
        exits = []
        heads = []
        back = []
        iters = []
        entry = []
        saved = getattr(self, 'thr', None)
        self.thr = []
        starts = [h]
        if cv:
            starts = [r[2] for r in self.X(cv, fr, h) if r[0] == 'n']
        tests = []
        for x in starts:
            if rng:
                hid, l, v = rng
                i = x.store[hid]
                cvl = self.rd_nool(x, l)
                for s2, b in self.branch(x, cmp_('<', i, size(cvl))):
                    if b:
                        rk = ('ref', fr.fid, v['id'])
                        el = ('elem', l, i)
                        if v['ref']:
                            s2.store[rk] = el
                        else:
                            vl = ('L', fr.fid, v['id'], v['n'])
                            s2.store[vl] = self.rd(s2, el)
                            s2.store[rk] = vl
                        cur = [s2]
                        for bd in v.get('bind', []):
                            cur = [z for y in cur for z in self.decl(bd, fr, y)]
                        for y in cur:
                            tests.append((y, True))
                    else:
                        tests.append((s2, False))
            elif cond is None:
                tests.append((x, True))
            else:
                tests += self.cond(cond, fr, x)
        for k, v, x in self.thr:
            exits.append((k, v, x))
            iters.append((k, v, x))
        self.thr = saved
        for x, b in tests:
            if not b:
                exits.append(('done', None, x))
                continue
            entry.append(x.facts)
            for k, v, y in self.X(body, fr, x):
                if k in ('n', 'cont'):
                    ends = [y]
                    if inc:
                        saved = getattr(self, 'thr', None)
                        self.thr = []
                        ends = [z for z, _ in self.C(inc, fr, y)]
                        for t in self.thr:
                            exits.append(t)
                            iters.append(t)
                        self.thr = saved
                    if rng:
                        for z in ends:
                            z.store[rng[0]] = add(z.store[rng[0]], c(1))
                    for z in ends:
                        back.append(z)
                        iters.append(('back', None, z))
                elif k == 'stop':
                    continue
                else:
                    exits.append((k, v, y))
                    iters.append((k, v, y))
        return back, exits, heads, {'iters': iters, 'entry': entry}

    def widen(self, base, loc, vals, lid, cur, snap):
        """replacement value at the loop head for a location modified by the loop"""
        try:
            e0 = base.store[loc] if loc in base.store else self.rd(base, loc)
        except KeyError:
            e0 = ('in', loc)
        phi = ('phi', lid, loc)
        if cur == phi or (cur != 'none' and cur is not None and cur[0] not in ('ix', 'it', 'lin', 'lower*')):
            return phi
        head = snap.get(loc, e0)
        # all back-edge values are head + k (or unchanged in some)
        def delta(v):
            if v is None:
                return None
            if v[0] == 'it' and head[0] == 'it' and v[1] == head[1]:
                a, b = v[2], head[2]
            else:
                a, b = v, head
            if a[0] in ('it', 'str', 'seq', 'obj', 'any', 'push', 'cat', 'pair', 'map0', 'key') or b[0] in ('it', 'str', 'seq', 'obj', 'any', 'push', 'cat', 'pair', 'map0', 'null', 'ptr', 'key'):
                return None
            if isinstance(a[1] if a[0] == 'c' else 0, bool) or isinstance(b[1] if b[0] == 'c' else 0, bool):
                return None
            d = sub(a, b)
            return d[1] if is_c(d) and isinstance(d[1], int) else None
        ds = [delta(v) for v in vals]
        if loc == ('io',):
            return ('ixio', lid)
        if None not in ds and ds and (all(d > 0 for d in ds) or all(d < 0 for d in ds) or all(d >= 0 for d in ds)):
            up = all(d >= 0 for d in ds)
            uniform = ds[0] if len(set(ds)) == 1 else 0
            def mk(start):
                k, d = lin(start)
                nm = loc[3] if loc[0] == 'L' else str(loc)
                if not d and up:
                    return ('ix', (lid, nm, loc[2] if loc[0] == 'L' else 0, uniform), k, None)
                if not d and not up:
                    return ('ix', (lid, nm, loc[2] if loc[0] == 'L' else 0, uniform), None, k)
                return add(start, ('ix', (lid, nm, loc[2] if loc[0] == 'L' else 0, uniform), 0 if up else None, None if up else 0))
            if e0[0] == 'it':
                return ('it', e0[1], mk(e0[2]))
            return mk(e0)
        if e0[0] == 'it' and e0[2][0] in ('c', 'lin', 'ix', 'find', 'size') and all(v and v[0] == 'it' and v[1] == e0[1] and v[2][0] not in ('key', 'mkey', 'mend', 'lb', 'ub', 'stepk') for v in vals):
            return ('it', e0[1], ('phi', lid, loc))
        return phi


def closed(phi, e0, nv, ix, facts, lid):
    """value after phi := nv for every position ix of some sequence, or None"""
    if nv[0] == 'cat' and len(nv) == 3 and nv[1] == phi and nv[2][0] == 'chr':
        g, kind = nv[2][1], 'cat'
    elif nv[0] == 'push' and nv[1] == phi:
        g, kind = nv[2], 'push'
        if e0 != ('seq',):
            return None
    elif nv[0] == 'setch' and nv[1] == phi and nv[2] == ix:
        g, kind = nv[3], 'set'
    else:
        return None
    els = {t for t in subterms(g) if t and t[0] == 'at' and t[2] == ix}
    for el in els:
        S = el[1]
        if S != phi and any(t and ((t[0] == 'phi' and t[1] == lid) or (t[0] == 'ix' and t[1][0] == lid)) for t in subterms(S)):
            continue
        if kind == 'set' and S != phi or kind != 'set' and S == phi:
            continue
        gg = subst(g, el, ('el',))
        if any(t and ((t[0] == 'phi' and t[1] == lid) or (t[0] == 'ix' and t[1][0] == lid)) for t in subterms(gg)):
            continue
        ok = False
        for z in ([size(S)] if S != phi else [size(phi), size(e0)]):
            d = ival(facts, sub(ix, z))
            ok = ok or (d[0] is not None and d[0] >= 0)
        if not ok:
            continue
        if S == phi:
            S = e0
        if ix[2] != 0:
            if kind == 'set':
                continue
            S = substr(S, c(ix[2]), size(S))
        if gg == ('el',):
            r = S
        elif gg == ('tolower', ('el',)):
            r = lower(S)
        else:
            r = ('vmap' if kind == 'push' else 'smap', S, gg)
        return cat(e0, r) if kind == 'cat' else r
    return None


def subst(t, a, b):
    if t == a:
        return b
    if isinstance(t, tuple):
        return tuple(subst(x, a, b) if isinstance(x, tuple) else x for x in t)
    return t


def under(k, loc):
    """k is a strict part of loc"""
    k = k[1]
    while True:
        if k == loc:
            return True
        if isinstance(k, tuple) and k and k[0] in ('fld', 'elem', 'anyval'):
            k = k[1]
        else:
            return False


def elem_under(k, cloc):
    while isinstance(k, tuple) and k[0] in ('fld', 'elem', 'anyval'):
        if k[0] == 'elem' and k[1] == cloc:
            return k
        k = k[1]
    return None


def root(loc):
    while loc[0] in ('fld', 'elem', 'anyval'):
        loc = loc[1]
    return loc
