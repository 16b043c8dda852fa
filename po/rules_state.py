"""C32 no hidden shared state; C33 nothing is read before it is given a value"""
from .dsl import *
from .program import walk
from .rules_mem import analyse, local
from .rules_err import *
from .rules_conv import own

NS = 'boost::program_options::'

# pointers the user hands over to be written through
WRITE_THROUGH = ('m_store_to', 'owner')
# calls that change the process, or keep data of their own between calls
GLOBAL_EFFECT = ('setlocale', 'setenv', 'putenv', 'unsetenv', 'clearenv', 'strtok', 'std::locale::global', 'srand', 'std::srand', 'std::strtok',
                 'std::setlocale', 'std::set_terminate', 'std::set_new_handler', 'chdir', 'SetEnvironmentVariableA')


def trace(loc):
    """(root, fields on the way, pointers gone through: list of the values dereferenced) of a location"""
    flds, ptrs = [], []
    while isinstance(loc, tuple):
        if loc[0] == 'fld':
            flds.append(loc[2])
            loc = loc[1]
        elif loc[0] in ('elem', 'idx', 'anyval', 'mapval'):
            loc = loc[1]
        elif loc[0] == 'deref':
            p = loc[1]
            ptrs.append((p, list(flds)))
            loc = origin(p, flds)
        else:
            break
    return loc, flds, ptrs


def origin(p, flds):
    """location a pointer value was read from, or points to"""
    while isinstance(p, tuple):
        if p[0] == 'in':
            return p[1]
        if p[0] == 'ptr':
            return p[1]
        if p[0] == 'at':
            p = p[1]
        elif p[0] == '.':
            flds.append(p[2])
            p = p[1]
        elif p[0] == 'phi':
            return p[2]
        else:
            return ('?', p)
    return ('?', p)


def const_type(t):
    """what a reference or pointer of type t leads to cannot be written"""
    t = t.strip()
    if t.endswith('&'):
        t = t[:-1].strip()
        return t.startswith('const ') or t.endswith(' const')
    if t.endswith('*'):
        t = t[:-1].strip()
        return t.startswith('const ') or t.endswith(' const')
    return False


def by_value(t):
    return not t.strip().endswith(('&', '*', '&&', ']'))


def c32(ck):
    RG, RC, RS, RX = ('objects of the process are only read', 'what is const to a function is left as it is',
                      'static objects start from constants', 'no call changes the process')
    mut = {}
    for q, r in ck.p.records.items():
        for x in r['fields']:
            if x['mut']:
                mut.setdefault(x['n'], []).append(q)
    for u, f in sorted(ck.p.funcs.items()):
        if not local(f):
            continue
        v = analyse(ck, f)
        if not v.segs():
            ck.ob(RC, None, f, 'paths of %s were not enumerated' % f['q'].replace(NS, ''), v, {})
        seen = {}
        for s in v.segs():
            for e in s.evs:
                if e.k in ('write', 'mut'):
                    locs = [e.loc]
                elif e.k == 'call':
                    locs = [l for l in e.argl if l is not None]
                    g = ck.p.funcs.get(e.u)
                    if e.obj is not None and g is not None and not g.get('cm') and not g.get('st') and not g.get('ctor'):
                        locs.append(e.obj)
                elif e.k == 'ext':
                    ck_ext(ck, RX, e, v, seen)
                    continue
                else:
                    continue
                for l in locs:
                    for rule, ok, what in judge(ck, f, l, e, mut):
                        key = (rule, e.file, e.line, what)
                        if key in seen and (seen[key] is False or ok is not False):
                            continue
                        seen[key] = ok
        for (rule, fl, ln, what), ok in sorted(seen.items(), key=str):
            ck.ob(rule, ok, '%s:%s' % (fl, ln), '%s in %s' % (what, f['q'].replace(NS, '')), v, {})
        for n in walk(f['b']):
            if n.get('s') == 'ret' and isinstance(n.get('e'), dict) and n['e'].get('k') == 'g' and not by_value(f['ret']):
                ck.ob(RG, const_type(f['ret']), '%s:%s' % (f['f'], n['l']), '%s hands out %s' % (f['q'].replace(NS, ''), n['e']['n'].replace(NS, '')), v, {})
        for n in walk([f['b']] + [i.get('e') for i in f.get('inits') or []]):
            if n.get('static'):
                bad = [x for x in walk(n.get('init')) if x.get('k') in ('this', 'v')]
                ck.ob(RS, not bad, f, '%s::%s is initialised from %s' % (f['q'].replace(NS, ''), n['n'], 'the arguments of the first call' if bad else 'constants'), v, {})


def ck_ext(ck, R, e, v, seen):
    q = e.q or '?'
    bad = q in GLOBAL_EFFECT or q.split('::')[-1] in GLOBAL_EFFECT
    seen[(R, e.file, e.line, 'call of ' + q)] = not bad


def judge(ck, f, loc, e, mut):
    """[(rule, verdict, text)] for one place that is changed"""
    RG, RC = 'objects of the process are only read', 'what is const to a function is left as it is'
    root, flds, ptrs = trace(loc)
    name = '.'.join(reversed([x for x in flds if x != '@base'])) or 'the object'
    if root[0] in ('L', 'tmp', 'heap'):
        if not ptrs:
            return []
    if root[0] in ('G', 'g', 'S', 'static'):
        return [(RG, False, 'change of %s' % str(root[1]).replace(NS, ''))]
    if root[0] == 'P':
        i = root[1]
        t = f['pt'][i] if i < len(f['pt']) else ''
        if by_value(t) and not ptrs:
            return []
        if const_type(t) and not ptrs:
            return [(RC, False, 'change of %s, reached through the const parameter %s' % (name, root[2]))]
        if not ptrs:
            return [(RC, True, 'change of parameter %s' % root[2])]
    if root[0] == 'this' and not ptrs:
        if not f.get('cm') or f.get('ctor'):
            return [(RC, True, 'change of own %s' % name)]
        m = flds[-1] if flds else None
        own_ = [q for q in mut.get(m, ()) if 'error' in q]
        return [(RC, bool(own_), 'change of %s in a const member' % name)]
    if not ptrs:
        return [(RC, None, 'change of %s' % str(loc)[:60])]
    # through a pointer: the user's variable, or the description being filled
    through = [last(p) for p, fl in ptrs]
    if all(x in WRITE_THROUGH for x in through):
        return [(RC, True, 'change through %s' % ', '.join(through))]
    if any(x in ('m_options', 'groups', 'm_value_semantic', 'm_next', 'description', 'm_desc', 'm_positional') for x in through):
        return [(RC, False, 'change of %s of an object shared through %s' % (name, ', '.join(map(str, through))))]
    return [(RC, None, 'change of %s through a pointer' % name)]


def last(p):
    """name of the member a pointer value came from"""
    while isinstance(p, tuple):
        if p[0] in ('in', 'phi'):
            p = p[1] if p[0] == 'in' else p[2]
        elif p[0] == 'fld':
            return p[2]
        elif p[0] == '.':
            return p[2]
        elif p[0] in ('at', 'elem', 'deref', 'ptr'):
            p = p[1]
        else:
            return None
    return None


def c33(ck):
    RM, RL = 'constructors give every member a value', 'no local is read before it is set'
    for q, r in sorted(ck.p.records.items()):
        if not (r['f'].startswith('include/') or r['f'].startswith('src/')):
            continue
        bare_ = [x['n'] for x in r['fields'] if x['scalar'] and not x['ref'] and not x['init']]
        ks = [m for m in r['methods'] if m['ctor'] and not m['del']]
        if not bare_:
            continue
        for m in ks:
            if m['dflt'] and not m.get('ps') and not m.get('pt'):
                ck.ob(RM, False, '%s:%s' % (r['f'], r['l']), 'the defaulted constructor of %s leaves %s unset' % (q, ', '.join(bare_)))
        if not ks:
            ck.ob(RM, None, '%s:%s' % (r['f'], r['l']), '%s has no constructor that sets %s' % (q, ', '.join(bare_)))
    arrays = {(n['id'], n['n']) for f in ck.p.funcs.values() for n in walk(f['b']) if n.get('uninit') and '[' in n['t']}
    for u, f in sorted(ck.p.funcs.items()):
        if not local(f):
            continue
        v = analyse(ck, f)
        if not v.segs():
            ck.ob(RL, None, f, 'paths of %s were not enumerated' % f['q'].replace(NS, ''), v, {})
        if f.get('ctor') and not f.get('cpctor'):
            r = ck.rec_of(f)
            for x in (r['fields'] if r else ()):
                if not x['scalar'] or x['ref']:
                    continue
                loc = ('fld', THIS, x['n'])
                for s in own(tops(v, 'ret')):
                    val = end(v, s, loc)
                    bad = val is None or val == ('in', loc) or any(y and y[0] == 'uninit' or y == ('in', loc) for y in subterms(val))
                    ck.ob(RM, not bad, f, '%s of %s' % (x['n'].split('@')[0], f['q'].replace(NS, '').rsplit('::', 1)[0]), v, {} if val is None else s.facts)
        seen = {}
        for s in v.segs():
            ts = list(s.facts)
            for e in s.evs:
                ts += list(getattr(e, 'facts', None) or ())
                for a in ('val', 'args', 'idx', 'cval', 'res', 'vals'):
                    y = getattr(e, a, None)
                    if isinstance(y, tuple):
                        ts.append(y)
            if s.kind == 'ret' and getattr(s, 'val', None) is not None:
                y = rv(v, s)
                if y is not None:
                    ts.append(y)
            for t in ts:
                for y in subterms(t) if isinstance(t, tuple) else ():
                    if y and y[0] == 'uninit' and y[1][0] == 'L' and y[1][2:] not in arrays:
                        seen[y[1]] = s
        ck.ob(RL, not seen, f, '%s%s' % (f['q'].replace(NS, ''), ''.join(' reads %s unset' % l[-1] for l in seen)), v, {})
