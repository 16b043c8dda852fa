"""Loading of the resolved program: extraction from /repo's current tree, call graph, hierarchy."""
import time, glob
import hashlib
import json
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from .engine import EngineBase, bare, tn, family
from .stdmodel import StdModel

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PO_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
NS = 'boost::program_options::'


class Broken(Exception):
    """the analysis cannot be carried out (exit 2)"""


class Engine(StdModel, EngineBase):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **kw)


def tool():
    """path of the extractor, building it when needed"""
    src = os.path.join(HERE, 'tool', 'po_extract.cpp')
    h = hashlib.sha1(open(src, 'rb').read()).hexdigest()[:12]
    exe = os.path.join(BUILD, 'po_extract-' + h)
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    tmp = exe + '.%d' % os.getpid()
    clangcpp = sorted(glob.glob('/usr/lib/x86_64-linux-gnu/libclang-cpp.so.18*')) + sorted(glob.glob('/usr/lib/llvm-18/lib/libclang-cpp.so*'))
    cmds = [['/usr/bin/clang++-18', '-std=c++17', '-O1', '-fno-rtti', '-I/usr/lib/llvm-18/include', '-c', src, '-o', tmp + '.o'],
            ['/usr/bin/clang++-18', tmp + '.o', '-o', tmp, clangcpp[0], '-L/usr/lib/llvm-18/lib', '-lLLVM-18', '-Wl,-rpath,/usr/lib/llvm-18/lib']]
    for c in cmds:
        r = sh(c)
        if r.returncode:
            raise Broken('cannot build the extractor:\n' + r.stdout)
    os.rename(tmp, exe)
    os.unlink(tmp + '.o')
    return exe


FLAGS = ['-std=gnu++17', '-I%s/include' % REPO, '-DBOOST_PROGRAM_OPTIONS_NO_LIB', '-DBOOST_PROGRAM_OPTIONS_SOURCE', '-w',
         '-resource-dir', '/usr/lib/llvm-18/lib/clang/18']


def tree_hash():
    h = hashlib.sha1()
    fs = []
    for d in ('include', 'src'):
        for r, _, names in os.walk(os.path.join(REPO, d)):
            fs += [os.path.join(r, n) for n in names]
    fs += [os.path.join(HERE, 'probe', 'probe.cpp'), os.path.join(HERE, 'tool', 'po_extract.cpp')]
    for f in sorted(fs):
        h.update(f.encode())
        with open(f, 'rb') as fh:
            h.update(hashlib.sha1(fh.read()).digest())
    return h.hexdigest()[:16]


def sources():
    r = sorted(glob.glob(os.path.join(REPO, 'src', '*.cpp')))
    return [os.path.join(HERE, 'probe', 'probe.cpp')] + r


def extract():
    exe = tool()
    key = tree_hash()
    cdir = os.path.join(BUILD, 'cache', key)
    srcs = sources()
    if len(srcs) < 8:
        raise Broken('library sources not found under %s/src' % REPO)
    outs = [os.path.join(cdir, os.path.basename(s)[:-4] + '.json') for s in srcs]
    if not all(os.path.exists(o) for o in outs):
        os.makedirs(cdir, exist_ok=True)

        def one(so):
            s, o = so
            tag = os.path.basename(s)[:-4]
            tmp = '%s.%d' % (o, os.getpid())
            r = sh([exe, REPO + '/', tag, tmp, s, '--'] + FLAGS)
            if r.returncode == 0:
                os.rename(tmp, o)
            return r
        with ThreadPoolExecutor(8) as ex:
            for s, r in zip(srcs, ex.map(one, list(zip(srcs, outs)))):
                if r.returncode:
                    raise Broken('%s does not parse:\n%s' % (s, r.stdout[-3000:]))
        # keep the cache small
        def age(d):
            try:
                return os.path.getmtime(d)
            except OSError:
                return 0.0
        cs = sorted((os.path.join(BUILD, 'cache', d) for d in os.listdir(os.path.join(BUILD, 'cache'))), key=age)
        for d in cs[:-4]:
            if d != cdir and age(d) < time.time() - 900:
                for f in glob.glob(os.path.join(d, '*')):
                    try:
                        os.unlink(f)
                    except OSError:
                        pass
                try:
                    os.rmdir(d)
                except OSError:
                    pass
    return outs


STDH = {
    'std::logic_error': 'std::exception', 'std::runtime_error': 'std::exception', 'std::bad_cast': 'std::exception', 'std::bad_alloc': 'std::exception',
    'std::invalid_argument': 'std::logic_error', 'std::out_of_range': 'std::logic_error', 'std::length_error': 'std::logic_error', 'std::domain_error': 'std::logic_error',
    'std::range_error': 'std::runtime_error', 'std::overflow_error': 'std::runtime_error',
    'boost::bad_lexical_cast': 'std::bad_cast', 'boost::bad_any_cast': 'std::bad_cast', 'std::bad_any_cast': 'std::bad_cast',
    'std::ios_base::failure': 'std::runtime_error', 'boost::bad_function_call': 'std::runtime_error', 'std::bad_function_call': 'std::exception',
    'boost::exception': None,
}


def walk(n):
    """all dict nodes, in pre-order"""
    if isinstance(n, dict):
        yield n
        for k, v in n.items():
            if isinstance(v, (dict, list)):
                yield from walk(v)
    elif isinstance(n, list):
        for v in n:
            if isinstance(v, (dict, list)):
                yield from walk(v)


class Program(object):
    def __init__(self):
        self.funcs, self.methods, self.records, self.enum_types, self.globals = {}, {}, {}, {}, {}
        self.tus = []
        for o in extract():
            d = json.load(open(o))
            self.tus.append(d['tu'])
            for f in d['files']:
                if not f.startswith(REPO + '/') and '/program_options' in f and not f.startswith(HERE):
                    raise Broken('analysis read %s instead of the repository' % f)
            for f in d['funcs']:
                f['tu'] = d['tu']
                self.funcs.setdefault(f['u'], f)
            for r in d['records']:
                b = bare(r['t'])
                if b not in self.records or len(r['fields']) + len(r['methods']) > len(self.records[b]['fields']) + len(self.records[b]['methods']):
                    self.records[b] = r
                for m in r['methods']:
                    self.methods.setdefault(m['u'], m)
            for e in d['enums']:
                self.enum_types[bare(e['t'])] = e
            for g in d['globals']:
                k = (g['q'], g['t'])
                if k not in self.globals or g.get('def'):
                    self.globals[k] = g
        self.byq = {}
        for f in self.funcs.values():
            self.byq.setdefault(f['q'], []).append(f)
        self._dq = {}
        self._throws = None
        self._calls = None

    # -------------------------------------------------------- lookup
    def fns(self, q, **kw):
        r = self.byq.get(q, []) or self.byq.get(NS + q, [])
        for k, v in kw.items():
            if k == 'n':
                r = [f for f in r if len(f['ps']) == v]
            elif k == 'cls':
                r = [f for f in r if v in bare(f.get('cls') or '')]
            elif k == 'pt':
                r = [f for f in r if any(v in tn(p['t']) for p in f['ps'])]
        return r

    # -------------------------------------------------------- hierarchy
    def bases(self, t):
        r = self.records.get(bare(t))
        if r:
            return [bare(b) for b in r['bases']]
        b = STDH.get(bare(t).replace('po::', NS))
        return [b] if b else []

    def derives(self, t, base):
        t, base = bare(t), bare(base)
        if t == base:
            return True
        k = (t, base)
        if k not in self._dq:
            self._dq[k] = any(self.derives(b, base) for b in self.bases(t))
        return self._dq[k]

    def derives_q(self, q, base):
        return self.derives(q, base)

    def overriders(self, u):
        """functions overriding virtual method u (transitively), with bodies"""
        if not hasattr(self, '_ovr'):
            self._ovr = {}
            for m in self.methods.values():
                for o in m.get('ovr') or []:
                    self._ovr.setdefault(o, set()).add(m['u'])
        out = set()
        todo = [u]
        while todo:
            x = todo.pop()
            for y in self._ovr.get(x, ()):
                if y not in out:
                    out.add(y)
                    todo.append(y)
        return out

    # -------------------------------------------------------- effects
    def fields_of_fn(self, u):
        """fields possibly written through `this` by fn u (all fields of its class)"""
        f = self.funcs.get(u)
        if not f:
            return []
        out = []

        def rec(t):
            r = self.records.get(bare(t))
            if not r:
                return
            for fl in r['fields']:
                if fl['n'] not in out:
                    out.append(fl['n'])
            for b in r['bases']:
                rec(b)
        if f.get('cls'):
            rec(f['cls'])
        return out

    def kept_fields(self, u):
        """private members of u's class that nothing reachable from u (or an override of it) so much as names"""
        if not hasattr(self, '_kept'):
            self._kept, self._named = {}, {}
            self._edges = {}
        if u in self._kept:
            return self._kept[u]
        f = self.funcs.get(u)
        priv = []
        if f and f.get('cls') and self.records.get(bare(f['cls'])):
            cls = bare(f['cls'])
            priv = [(cls, fl['n']) for fl in self.records[cls]['fields'] if fl.get('acc') == 2]
        todo, seen, named = ([u] + sorted(self.overriders(u))) if priv else [], set(), set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x not in self._named:
                g = self.funcs.get(x)
                nm, ed = set(), set()
                for n in walk([g['b']] + [i.get('e') for i in g.get('inits') or []]) if g else ():
                    if n.get('k') == 'm':
                        nm.add(n['f'])
                    elif isinstance(n.get('u'), str):
                        ed.add(n['u'])
                        if n.get('virt'):
                            ed |= self.overriders(n['u'])
                self._named[x], self._edges[x] = nm, ed
            named |= self._named[x]
            todo += self._edges[x]
        self._kept[u] = {n for _, n in priv if n not in named}
        return self._kept[u]

    def call_op(self, t):
        if not t:
            return None
        for f in self.funcs.values():
            if f['q'].endswith('::operator()') and f.get('cls') and bare(f['cls']) == t and not f.get('lam'):
                return f['u']
        return None

    def throws(self, u):
        if self._throws is None:
            self.compute_throws()
        return self._throws.get(u, set())

    def compute_throws(self):
        T = {u: set() for u in self.funcs}
        ch = True
        while ch:
            ch = False
            for u, f in self.funcs.items():
                new = set()
                for i in f.get('inits') or []:
                    new |= self.thr(i.get('e'), T, set())
                new |= self.thr(f['b'], T, set())
                if not new <= T[u]:
                    T[u] |= new
                    ch = True
        self._throws = T

    def thr(self, n, T, cur):
        """types thrown by node n; cur = exceptions a bare `throw;` rethrows"""
        if isinstance(n, list):
            out = set()
            for x in n:
                out |= self.thr(x, T, cur)
            return out
        if not isinstance(n, dict):
            return set()
        if n.get('s') == 'try':
            body = self.thr(n['b'], T, cur)
            out = set(body)
            for h in n['h']:
                ht = bare(h['t']) if h['t'] != '...' else '...'
                if ht == '...':
                    caught = set(out)
                else:
                    caught = {t for t in out if t != '?' and self.derives(t, ht)}
                sup = caught | {t for t in out if t == '?' or (t != '?' and self.derives(ht, t))}
                hthr = self.thr(h['b'], T, {ht if ht != '...' and '?' in sup else None} | sup if False else sup)
                out = (out - caught) | hthr
            return out
        k = n.get('k')
        out = set()
        if k == 'lam':
            return set()
        if k == 'throw':
            if n.get('e') is None:
                return set(cur)
            out.add(bare(n.get('t') or '?'))
        if k == 'c':
            if n['q'] == 'boost::throw_exception':
                out.add(bare((n.get('ta') or [None])[0] or n['pt'][0]))
            elif n.get('virt'):
                out.add('?')
                for o in self.overriders(n['u']) | {n['u']}:
                    out |= T.get(o, set())
            elif n['u'] in T:
                out |= T[n['u']]
                if n['q'].split('::')[-1] == 'operator()' and False:
                    pass
            elif n['q'] in ('boost::lexical_cast',):
                out.add('boost::bad_lexical_cast')
            elif family(n['q']) == 'F' and n['q'].endswith('operator()'):
                out.add('?')
        if k == 'ci':
            out.add('?')
        if k == 'new' and n.get('u') in T:
            out |= T[n['u']]
        for v in n.values():
            if isinstance(v, (dict, list)):
                out |= self.thr(v, T, cur)
        return out
