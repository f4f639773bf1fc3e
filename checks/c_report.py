"""What a detector reports about each region: gray level, polarity and the list it goes into.

img_mser_base::extract is interpreted once per detector class, choice of enabled passes and internal gray level, with the
virtual steps resolved to that class.  Everything but those three is unknown.  Every store to img_mser::m_gray_level on any
path must go into the list of its own pass and must be the level in the original image."""
import load, tab
from tab import TOP, Tab, Env
from ir import *
from common import *

NS = 'basicimg::'
BASE = NS + 'img_mser_base'
DET = {
    'img_fast_mser_v1': ['mser_region::m_gray_level'], 'img_fast_mser_v2': ['mser_region::m_gray_level'],
    'img_linked_linear_mser': ['mser_region::m_gray_level'], 'img_ms_mser': ['mser_region::m_gray_level'],
    'img_opencv_mser': ['ConnectedComp::mGrayLevel'], 'img_opencv3_mser': ['CompHistory::val'],
    'img_original_mser': ['mGrayLevel'], 'img_vlfeat_mser': ['value'], 'img_idiap_mser': [],
}
OUT = NS + 'img_mser::m_gray_level'
MSERS = NS + 'img_multi_msers::m_msers'
MEM = (NS + 'img_multi_msers::m_memory', NS + 'img_multi_msers::m_memory_size')
FROM = BASE + '::m_from_min_max'
LEVELS = (0, 1, 2, 4, 8, 16, 32, 64, 128, 77, 178, 255)

def reach(prog):
    """functions that can (transitively) store into a report"""
    direct = set(); calls = {}
    for f in prog.funcs.values():
        cs = set()
        for n in walk_fn(f):
            if n['k'] == 'Member' and n['d'].startswith((NS + 'img_mser::', NS + 'img_multi_msers::')): direct.add(f['id'])
            if n.get('f') and n['k'] in ('Call', 'MCall', 'OpCall', 'Construct'): cs.add(n['f'])
        calls[f['id']] = cs
    up = {}
    for a, cs in calls.items():
        for c in cs:
            up.setdefault(c, set()).add(a)
            for o in prog.all_over(c): up.setdefault(o, set()).add(a)
    todo = list(direct); seen = set(direct)
    while todo:
        x = todo.pop()
        for y in up.get(x, ()):
            if y not in seen: seen.add(y); todo.append(y)
    return seen, calls

class Mods:
    """fields a function may write, transitively"""
    def __init__(s, prog, calls):
        s.p = prog; s.calls = calls; s.own = {}; s.memo = {}
    def direct(s, fid):
        if fid in s.own: return s.own[fid]
        r = set(); f = s.p.funcs.get(fid)
        for n in walk_fn(f) if f else ():
            ts = []
            if n['k'] in ('Assign', 'CAssign') or n['k'] == 'Un' and n['op'] in ('++', '--', '&'): ts.append(n['c'][0])
            elif n['k'] == 'Var' and n.get('ref') and n.get('c'): ts.append(n['c'][0])
            elif n['k'] in ('Call', 'MCall', 'OpCall', 'Construct'):
                ts += [a for a in args(n) if a and (a.get('lv') or a['k'] == 'ICast' and a.get('ck') == 'ArrayToPointerDecay')]
                if n['k'] == 'OpCall' and n.get('meth'): ts.append(n['c'][0])
                if n['k'] == 'MCall' and not n.get('cm') and n['c'] and n['c'][0] and 'p' not in s.p.types.get(n['c'][0].get('t'), {}): ts.append(n['c'][0])
            for t in ts: r |= s.written(t)
        s.own[fid] = r
        return r
    def written(s, t):
        t = strip(t)
        if not isinstance(t, dict): return set()
        if t['k'] == 'Member': return {t['d']}
        if t['k'] == 'Cond': return s.written(t['c'][1]) | s.written(t['c'][2])
        if t['k'] == 'Index' and 'p' not in s.p.types.get((strip(t['c'][0]) or {}).get('t'), {}): return s.written(t['c'][0])
        if t['k'] in ('OpCall', 'MCall') and t.get('c') and 'p' not in s.p.types.get((strip(t['c'][0]) or {}).get('t'), {}): return s.written(t['c'][0])
        return set()
    def __call__(s, fid):
        if fid in s.memo: return s.memo[fid]
        seen = {fid}; todo = [fid]; r = set()
        while todo:
            x = todo.pop(); r |= s.direct(x)
            for y in s.calls.get(x, ()):
                for z in [y] + list(s.p.all_over(y)):
                    if z not in seen and z in s.p.funcs: seen.add(z); todo.append(z)
        s.memo[fid] = r
        return r

class Hooks:
    def __init__(s, prog, cls, passes, X, seen, mods):
        s.p = prog; s.cls = NS + cls; s.passes = passes; s.X = X; s.seen = seen; s.mods = mods; s.ev = []; s.cur = None
        s.leaves = DET[cls]
    def isleaf(s, path):
        d = path[-1]
        return isinstance(d, str) and any(d.endswith('::' + l) for l in s.leaves) and not d.startswith(NS + 'img_mser::')
    def always(s, T, path): return s.X if s.isleaf(path) else None
    def leaf(s, T, path):
        if len(path) >= 2 and path[-2] == FROM and isinstance(path[-1], tuple) and isinstance(path[-1][1], int): return s.passes[path[-1][1]]
        return None
    def on_store(s, T, env, path, v, node):
        if path[-1] == OUT or len(path) > 1 and path[-2] in MEM and path[0][0] == 'parm' and T.fns[-1].get('cls') != NS + 'img_multi_msers': s.ev.append((path, v, node['l'], T.fns[-1], s.cur))
    def inline(s, T, f):
        q = f['q']
        if f['q'].startswith(('std::', 'basiclog', 'basicsys::', 'basicmath::')): return False
        return f['id'] in s.seen or f['file'].endswith('.h') or len(f['params']) <= 3 and not s.loops(f)
    def loops(s, f): return any(n['k'] in ('For', 'While', 'Do') for n in walk_fn(f))
    def resolve(s, T, env, n, f, this):
        if not f or not f.get('virt', f.get('virtual')): 
            if not f: return None
        g = [o for o in s.p.all_over(f['id']) if s.p.funcs[o].get('cls') == s.cls]
        return s.p.funcs[g[0]] if g else None
    def on_call(s, T, env, n, fid, name, this, vs):
        f = s.p.funcs.get(fid) if fid else None
        if f is None: return None
        if f.get('cls') == BASE and len(vs) == 2 and vs[1] in (0, 255) and len(T.stack) == 1: s.cur = int(vs[1] == 255)
        if f['q'].startswith('basiclog::') or f.get('cls', '').startswith('basiclog::'): return env, TOP
        g = s.resolve(T, env, n, f, this) if this is not None else None
        f = g or f
        if f.get('body') and s.inline(T, f) and f['id'] not in T.stack: return None
        if not f.get('body'): return None
        if f['q'].startswith(('basicmath::', 'basicsys::', 'std::')): return None
        ms = s.mods(f['id'])
        for k in list(env.m):
            if any(isinstance(x, str) and x in ms for x in k): env.m[k] = TOP
        for i, v in enumerate(vs):
            pt = f['params'][i]['t'] if i < len(f['params']) else ''
            if isinstance(v, tuple) and v and v[0] == '=' and pt.endswith('&') and 'const ' not in pt and not T.isrec(pt.rstrip('& ')): T.kill(env, v[1])
        if T.isrec(n['t']) or n.get('lv'): return env, ('=', (('call', n['l'], name, this),))
        return env, TOP

def levels(prog, cls):
    """sample levels, and every constant (with its neighbours) that code next to a reported gray level compares with"""
    L = set(LEVELS)
    for f in prog.funcs.values():
        ns = list(walk_fn(f))
        if not (f.get('cls') or '').startswith(NS + cls) or not any(n['k'] == 'Member' and n['d'] == OUT for n in ns): continue
        for n in ns:
            if n['k'] == 'Bin' and n['op'] in ('<', '<=', '>', '>=', '==', '!='):
                for x in n['c']:
                    c = const(x)
                    if c is not None and 2 < c < 255: L |= {c - 1, c, c + 1, 255 - c, 254 - c}
    return sorted(L)

def slot(path):
    for i, x in enumerate(path):
        if x == MSERS: return path[i + 1][1] if i + 1 < len(path) and isinstance(path[i + 1], tuple) else None
    return 'other'

def one(prog, R, task):
    cls, passes = task
    seen, mods = one.aux
    f = prog.fn(BASE + '::extract')
    if len(f) != 1: raise load.Broken('img_mser_base::extract not found')
    f = f[0]
    lv = levels(prog, cls)
    got = {0: set(), 1: set()}; sites = set()
    for X in lv:
        h = Hooks(prog, cls, passes, X, seen, mods)
        T = Tab(prog, h, depth=12)
        env = Env()
        T.call(f, env, (('obj', cls),), [('=', (('parm', p['n']),)) if p.get('ref') or T.isrec(p['t']) else TOP for p in f['params']])
        for path, v, line, fn, cur in h.ev:
            if path[-1] != OUT:
                k = path[-1][1]
                R.where = (fn['file'], line, fn['id']); sites.add('%s:%s pixel memory' % (fn['id'].split('(')[0], line))
                if k not in (0, 1) or not passes[k] or cur is not None and k != cur: R.bad('%s: pixel memory of pass %s is set when another pass is reported' % (cls, k), key='%s|mem|%s' % (cls, fn['q']))
                continue
            if path[0][0] != 'parm' and slot(path) == 'other': 
                if path[0][0] == 'v': continue          # a local record that is copied
            k = slot(path); site = '%s:%s' % (fn['id'].split('(')[0], line)
            sites.add(site)
            R.where = (fn['file'], line, fn['id'])
            if k not in (0, 1):
                R.bad('%s: a region is reported into list %s' % (cls, k), key='%s|list|%s' % (cls, fn['q'])); continue
            got[k].add(site)
            if not passes[k] or cur is not None and k != cur: R.bad('%s: a region of another pass is reported into list %d' % (cls, k), key='%s|pass|%s' % (cls, fn['q']))
            want = X if k == 0 else 255 - X
            if v != want or v is TOP:
                R.bad('%s: a region that the growing of pass %d gives level %d is reported with gray level %s, expected %d' % (cls, k, X, v, want), key='%s|gray|%s' % (cls, fn['q']))
    for k in (0, 1):
        if passes[k] and DET[cls]:
            R.where = (f['file'], f['line'], f['id'])
            if not got[k] and not sites: raise load.Broken('%s: no store to a reported gray level found' % cls)
            if not got[k]: R.bad('%s: the enabled pass %d reports no gray level' % (cls, k), key='%s|none|%d' % (cls, k))
    for st in sorted(sites):
        for X in lv: R.ob('%s passes=%s level=%d: %s' % (cls, passes, X, st))

def analyse(prog, R):
    seen, calls = reach(prog)
    mods = Mods(prog, calls)
    one.aux = (seen, mods)
    parallel(prog, R, one, [(c, p) for c in DET for p in ((1, 0), (0, 1), (1, 1))])

if __name__ == '__main__':
    run_check('C08', lambda: load.load(), analyse, level='other', minimum=200,
        explanation='constant propagation through extract() of every detector for each choice of passes and gray level')
