"""Obligation bookkeeping, segments and verdicts shared by all rules."""
import json
import os
import sys
import time
from .facts import *
from .engine import Limit, LV, Ev, under, root
from .program import Program, Engine, Broken, NS, HERE, walk, tn, bare


class Seg(object):
    """a straight piece of analysed behaviour: a whole path, or one way through a loop body"""
    def __init__(self, kind, evs, facts, val, loop, parent, pos, path, st=None):
        self.st = st
        self.kind, self.evs, self.facts, self.val = kind, evs, facts, val
        self.loop, self.parent, self.pos, self.path = loop, parent, pos, path

    def prefix(self):
        """events before this segment, outermost first"""
        if self.parent is None:
            return []
        return self.parent.prefix() + self.parent.evs[:self.pos]

    def before(self, i):
        return self.prefix() + self.evs[:i]

    def line(self):
        return self.loop.line if self.loop is not None else 0


class View(object):
    """all analysed behaviour of one entry function"""
    def __init__(self, prog, fn, opaque=(), **kw):
        self.fn = fn
        args = kw.pop('args', None)
        facts = kw.pop('facts', None)
        self.eng = Engine(prog, opaque=[q if q.startswith(('boost::', 'std::')) else NS + q for q in opaque], **kw)
        self.limit = None
        try:
            self.paths = self.eng.run(fn, args=args, facts=facts)
        except Limit as x:
            self.paths = []
            self.limit = str(x)
        self._segs = None

    @property
    def dirty(self):
        return bool(self.eng.unmodelled) or self.limit is not None

    def segs(self):
        if self._segs is None:
            out = []
            seen = set()
            for p in self.paths:
                s = Seg(p.kind, p.ev, p.facts, p.val, None, None, 0, p, p.st)
                out.append(s)
                self.sub(s, out, seen)
            self._segs = out
        return self._segs

    def sub(self, seg, out, seen):
        for i, e in enumerate(seg.evs):
            if e.k == 'loop' and id(e) not in seen:
                seen.add(id(e))
                for it in e.iters:
                    s = Seg(it.kind, it.evs, it.facts, it.val, e, seg, i, seg.path, it.st)
                    out.append(s)
                    self.sub(s, out, seen)
            elif e.k == 'merged' and id(e) not in seen:
                seen.add(id(e))
                for a, f in zip(e.alts, e.altfacts):
                    s = Seg('alt', a, f, None, e, seg, i, seg.path)
                    out.append(s)
                    self.sub(s, out, seen)

    def events(self, *kinds):
        """(seg, index, ev) over every distinct event"""
        seen = set()
        for s in self.segs():
            for i, e in enumerate(s.evs):
                if e.k in kinds and id(e) not in seen:
                    seen.add(id(e))
                    yield s, i, e


def unclean_atom(t):
    """a boolean atom over a value the loop/merge summary forgot"""
    if t[0] == 'not':
        return unclean_atom(t[1])
    if t[0] in ('b', 'rel', 'eq', 'isnull'):
        x = t[1]
        if x[0] in ('phi', 'mrg', 'unk') and (x[0] != 'phi' or x[2][0] == 'L'):
            return True
        if x[0] == 'lin':
            return any(y[0] in ('mrg', 'unk') or (y[0] == 'phi' and y[2][0] == 'L') for y, n in x[2])
    return False


def clean(facts):
    return not any(unclean_atom(k) if v is True or v is False else (k[0] in ('mrg', 'unk') or (k[0] == 'phi' and k[2][0] == 'L' and v != (0, None, frozenset())))
                   for k, v in facts.items())


class Check(object):
    def __init__(self, pid, prog):
        self.pid, self.p = pid, prog
        self.obl = []
        self.views = []
        self.t0 = time.time()
        self.notes = []
        self.expect = {}

    def view(self, fn, opaque=(), **kw):
        v = View(self.p, fn, opaque, **kw)
        self.views.append(v)
        return v

    def fn(self, q, **kw):
        """the unique function q"""
        r = self.p.fns(q, **kw)
        if not r:
            raise Broken('anchor %s not found' % q)
        return r[0]

    def fns(self, q, least=1, **kw):
        r = self.p.fns(q, **kw)
        if len(r) < least:
            raise Broken('anchor %s: %d instances, expected at least %d' % (q, len(r), least))
        return r

    def rec(self, n):
        r = self.p.records.get(NS + n) or self.p.records.get('po::' + n)
        if r is None:
            raise Broken('class %s not found' % n)
        return r

    def rec_of(self, f):
        r = self.p.records.get(bare(f['cls']))
        if r is None:
            raise Broken('class %s not found' % f['cls'])
        return r

    def field(self, rec, name, pred):
        """member of rec: by its present name, else by its type"""
        if any(x['n'] == name for x in rec['fields']):
            return name
        c_ = [x['n'] for x in rec['fields'] if pred(bare(x['t']))]
        if len(c_) != 1:
            raise Broken('class %s: member %s not found' % (rec['q'], name))
        return c_[0]

    def enum(self, name):
        """value of an enumerator"""
        r = {x['v'] for e in self.p.enum_types.values() for x in e['vals'] if x['n'] == name}
        if len(r) != 1:
            raise Broken('enumerator %s not found' % name)
        return int(r.pop())

    def opt(self, q, **kw):
        """function q, or None with an undecided obligation (private helpers may go away)"""
        r = self.p.fns(q, **kw)
        if not r:
            self.ob('analysed: %s' % q, None, q, 'function %s no longer exists' % q)
            return None
        return r[0]

    def callgraph(self):
        """u -> {(callee u, line)}; virtual calls go to every override, function objects to every lambda bound there"""
        if getattr(self.p, 'cg', None) is None:
            cg = {}
            for u, f in self.p.funcs.items():
                out = set()
                for n in walk([f['b']] + [i.get('e') for i in f.get('inits') or []]):
                    if n.get('k') in ('c', 'new', 'fn', 'pf', 'ctor') and n.get('u'):
                        out.add(n['u'])
                        if n.get('virt'):
                            out |= self.p.overriders(n['u'])
                    elif n.get('u') and isinstance(n.get('u'), str):
                        out.add(n['u'])
                cg[u] = out
            self.p.cg = cg
        return self.p.cg

    def reach(self, u, cg, targets):
        """(reachable set, path of short names to a target or None)"""
        seen = {u: None}
        todo = [u]
        while todo:
            x = todo.pop(0)
            if x in targets and x != u:
                path = []
                y = x
                while y is not None:
                    q = (self.p.funcs.get(y) or self.p.methods.get(y) or {'q': y})['q']
                    path.append(q.replace(NS, ''))
                    y = seen[y]
                return seen, path[::-1]
            for y in sorted(cg.get(x, ())):
                if y not in seen:
                    seen[y] = x
                    todo.append(y)
        return seen, None

    def ob(self, rule, ok, where, msg, view=None, facts=None, ident=None):
        """record an obligation; ok False = violated, None = not decided"""
        if ok is not True and ok is not None:
            ok = False
            if view is not None and view.dirty:
                ok = None
            elif facts is not None and not clean(facts):
                ok = None
        if isinstance(where, Ev):
            w = '%s:%s in %s' % (where.file, where.line, where.fn.replace(NS, ''))
        elif isinstance(where, dict):
            w = '%s:%s in %s' % (where['f'], where['l'], where['q'].replace(NS, ''))
        else:
            w = str(where)
        self.obl.append({'rule': rule, 'ok': ok, 'where': w, 'msg': msg, 'ident': ident or rule,
                         'facts': '; '.join(show_facts(facts))[:1500] if facts is not None and ok is not True else ''})
        return ok

    def need(self, rule, n=1):
        """the rule must have been applied at least n times"""
        self.expect[rule] = n

    def finish(self, tier, seed):
        known = load_known()
        have = {}
        for o in self.obl:
            have[o['rule']] = have.get(o['rule'], 0) + 1
        for r, n in self.expect.items():
            if have.get(r, 0) < n:
                self.ob(r, None, 'coverage', '%d places found the rule applies to, expected at least %d' % (have.get(r, 0), n))
        counts = {}
        for o in self.obl:
            c_ = counts.setdefault(o['rule'], [0, 0, 0, 0])
            c_[0] += 1
            c_[1 if o['ok'] is True else 2 if o['ok'] is None else 3] += 1
        viol, kf = [], []
        for o in self.obl:
            if o['ok'] is False:
                k = [x for x in known if x['property'] == self.pid and x['ident'] == o['ident']]
                (kf if k else viol).append(o)
        limited = [v.fn['q'] for v in self.views if v.limit]
        funcs = set()
        paths = segs = evs = 0
        for v in self.views:
            funcs.add(v.fn['q'])
            funcs |= {self.p.funcs[u]['q'] for u in v.eng.inlined if u in self.p.funcs}
            paths += len(v.paths)
            segs += len(v.segs())
            evs += v.eng.work
        ev = {
            'property': self.pid, 'tier': tier, 'seed': seed, 'level': 'other',
            'coverage': {
                'explanation': 'Static analysis of the resolved syntax tree of /repo (translation units: %s). Each obligation is one rule applied to one site, path or '
                               'table row found in the current source; "discharged" means the dataflow facts decide it, "undecided" means the analysis could not decide it '
                               '(reported, not counted as discharged).' % ', '.join(sorted(set(self.p.tus))),
                'obligations': len(self.obl), 'discharged': sum(1 for o in self.obl if o['ok'] is True),
                'undecided': [{'rule': o['rule'], 'where': o['where'], 'msg': o['msg']} for o in self.obl if o['ok'] is None][:40],
                'rules': {r: {'instances': x[0], 'discharged': x[1], 'undecided': x[2], 'violated': x[3]} for r, x in sorted(counts.items())},
                'entry_functions': sorted({v.fn['q'].replace(NS, '') for v in self.views}),
                'functions_analysed': sorted(x.replace(NS, '') for x in funcs),
                'paths': paths, 'path_segments': segs, 'abstract_events': evs,
                'unmodelled': sorted({u for v in self.views for u in v.eng.unmodelled}), 'opaque_pure_std': sorted({u for v in self.views for u in v.eng.pure_std}), 'limits_hit': limited,
                'samples': [{'rule': o['rule'], 'where': o['where'], 'msg': o['msg']} for o in dedupe(self.obl)][:25],
                'notes': self.notes,
            },
            'assumptions': ASSUMPTIONS, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(viol),
        }
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        rep = os.path.join(HERE, 'evidence', self.pid + '.report.txt')
        with open(rep, 'w') as f:
            for o in viol + kf:
                f.write('%s\n  rule: %s\n  at: %s\n  %s\n  facts: %s\n\n' % ('VIOLATION' if o in viol else 'KNOWN-FINDING', o['rule'], o['where'], o['msg'], o['facts']))
        with open(os.path.join(HERE, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        seen = set()
        for o in kf:
            if o['ident'] not in seen:
                seen.add(o['ident'])
                print('KNOWN-FINDING: property=%s %s: %s' % (self.pid, o['ident'], o['msg']))
        und = sum(1 for o in self.obl if o['ok'] is None)
        print('%s: %d obligations, %d discharged, %d undecided, %d violated (%d paths, %d segments, %.1fs)' % (
            self.pid, len(self.obl), ev['coverage']['discharged'], und, len(viol), paths, segs, ev['wall_s']))
        for o in viol[:20]:
            print('  [%s] %s: %s' % (o['rule'], o['where'], o['msg']))
        if viol:
            print('VIOLATION property=%s replay=%s' % (self.pid, rep))
            return 1
        return 0


def dedupe(obl):
    seen = set()
    for o in obl:
        if o['rule'] not in seen:
            seen.add(o['rule'])
            yield o


ASSUMPTIONS = [
    'clang 18 resolves the translation units as the real compiler does (flags stated in po/program.py)',
    'the abstract transfer functions for std:: and boost:: callees in po/stdmodel.py',
    'distinct reference parameters do not alias, except where the code itself binds them',
    'memory allocation does not fail',
]


def load_known():
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if not os.path.exists(p):
        return out
    for l in open(p):
        l = l.strip()
        if l.startswith('finding: '):
            d = dict(x.split('=', 1) for x in l[len('finding: '):].split(' ') if '=' in x and x.split('=', 1)[0] in ('property', 'ident'))
            if 'property' in d and 'ident' in d:
                out.append(d)
    return out


# ---------------------------------------------------------------- term helpers
def q_of(e):
    return getattr(e, 'q', '') or ''


def is_call(e, *names):
    return e.k == 'call' and any(e.q.endswith('::' + n) or e.q == n for n in names)


def call_res(t, *names):
    """t is the result term of a call to one of names"""
    return isinstance(t, tuple) and len(t) > 1 and t[0] == 'call' and any(str(t[1]).endswith('::' + n) for n in names)


def mentions(t, x):
    return contains(t, x)


def all_before(seg, i):
    return seg.before(i)


def fact_atoms(facts, kind):
    for k, v in facts.items():
        if k[0] == kind and (v is True or v is False):
            yield k, v
        elif k[0] == 'not' and k[1][0] == kind:
            yield k[1], not v


def flat_evs(evs):
    """events with the contents of loops and merged alternatives"""
    for e in evs:
        yield e
        if e.k == 'loop':
            for it in e.iters:
                yield from flat_evs(it.evs)
        elif e.k == 'merged':
            for a in e.alts:
                yield from flat_evs(a)


def covers(loop, view=None):
    """container location the loop walks completely, in order, from the first element (or None)

    decided from the induction terms: the loop leaves normally only when index >= size"""
    ixs = set()
    for loc, v in loop.havoc.items():
        for t in subterms(v if v is not None else ()):
            if t and t[0] == 'ix' and t[1][0] == loop.id:
                ixs.add((t, loc))
    return ixs


class Roles(object):
    """names of private members, found by their types so that renaming does not matter"""
    def __init__(self, p):
        self.p = p
        vm = self.rec('variables_map')
        self.vm_final = self.by_type(vm, lambda t: t.startswith('std::set<') and 'string' in t)
        self.vm_required = self.by_type(vm, lambda t: t.startswith('std::map<string, string'))
        vv = self.rec('variable_value')
        self.vv_any = self.by_type(vv, lambda t: t == 'boost::any')
        self.vv_def = self.by_type(vv, lambda t: t == 'bool')
        self.vv_sem = self.by_type(vv, lambda t: 'shared_ptr' in t)

    def rec(self, n):
        r = self.p.records.get(NS + n) or self.p.records.get('po::' + n)
        if r is None:
            raise Broken('class %s not found' % n)
        return r

    def by_type(self, rec, pred):
        c_ = [f['n'] for f in rec['fields'] if pred(bare(f['t']))]
        if len(c_) != 1:
            raise Broken('class %s: %d members of the expected type' % (rec['q'], len(c_)))
        return c_[0]
