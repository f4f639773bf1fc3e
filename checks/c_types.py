"""Element types: whatever depth a matrix has, its elements are read and written as that C++ type.

Every public operation on matrices is interpreted once per choice of element type for the object and for each matrix
parameter.  Matrix headers are followed through constructors, create, copies and views, so that each pointer into element
storage is known together with the depth of the matrix that owns it.  Every access through such a pointer must use the
C++ type of that depth."""
import itertools, load
from tab import Tab, Env, TOP
from ir import *
from common import *

NS = 'basicmath::'
MAT = NS + 'mt_mat'
DC = MAT + '::m_depth_channel'
DATA = (MAT + '::m_data', MAT + '::m_shared_memory')
DCC = NS + 'mt_Depth_Channel'
MASK = DCC + '::m_mask'
AD = MAT + '::m_auto_derivative'
TY = {0: ('u', 8), 1: ('s', 8), 2: ('u', 16), 3: ('s', 16), 4: ('u', 32), 5: ('s', 32), 6: ('u', 64), 7: ('s', 64), 8: ('f', 32), 9: ('f', 64)}
NM = ['U8', 'I8', 'U16', 'I16', 'U32', 'I32', 'U64', 'I64', 'F32', 'F64']

class Hooks:
    def __init__(s, prog, depths):
        s.p = prog; s.depths = depths; s.acc = set(); s.bad = {}; s.unknown = set(); s.writes = {}
    def key(s, root):
        return s.depths.get(root, s.depths.get('*'))
    def leaf(s, T, path):
        if path[0][0] in ('call', 'u', 'heap', 'st', 's', 'v'): return None
        if path[-1] == MASK and len(path) > 2 and path[-2] == DC: return ('mask', s.key(path[0])) if s.key(path[0]) is not None else None
        if path[-1] in DATA: return ('&', (('st', path[:-1]), ('[', '?')))
        if path[-1] == AD: return 0
        return None
    def typ(s, T, t):
        i = T.ti(t)
        if i.get('uq'): i = T.ti(i['uq']) or i
        if i.get('flt'): return ('f', i['s'] * 8)
        if i.get('int'): return (i['int'], i.get('bits') or 8 * i.get('s', 4))
        return None
    def depth_of(s, T, env, path):
        root = path[0]
        if root[0] == 'st': return s.key(root[1][0])
        for k, v in env.m.items():
            if isinstance(k[-1], str) and k[-1] in DATA and isinstance(v, tuple) and v[0] == '&' and v[1][0] == root:
                m = T.get(env, k[:-1] + (DC, MASK))
                if isinstance(m, tuple) and m[0] == 'mask': return m[1]
                return None
        return None
    def on_access(s, T, env, path, t):
        ty = s.typ(T, t)
        if ty is None: return
        d = s.depth_of(T, env, path)
        f = T.fns[-1]; site = (f['file'], T.line, f['id'])
        if d is None or d is TOP or d not in TY: 
            if path[0][0] == 'st': s.unknown.add(site)
            return
        s.acc.add(site)
        if TY[d] != ty: s.bad.setdefault((f['id'], d, ty), site)
    def inline(s, T, f):
        q = f['q']
        if q.startswith(('std::', 'basiclog', 'basicsys')): return False
        return True
    def on_call(s, T, env, n, fid, name, this, vs):
        f = s.p.funcs.get(fid) if fid else None
        cls = (f or {}).get('cls') or n.get('cls') or ''
        if cls == DCC and this is not None:
            if name == 'ctor':
                d = vs[0] if vs else None
                if len(vs) == 1 and isinstance(d, tuple) and d and d[0] == '=': d = T.get(env, d[1] + (MASK,)); T.put(env, this + (MASK,), d); return env, ('=', this)
                T.put(env, this + (MASK,), ('mask', d) if isinstance(d, int) else TOP)
                return env, ('=', this)
            m = T.get(env, this + (MASK,))
            if name == 'depth': return env, m[1] if isinstance(m, tuple) and m[0] == 'mask' else TOP
            if name in ('channel', 'size', 'depth_size'): return env, TOP
            if name in ('operator==', 'operator!='):
                o = vs[0]
                w = T.get(env, o[1] + (MASK,)) if isinstance(o, tuple) and o and o[0] == '=' else TOP
                if isinstance(m, tuple) and isinstance(w, tuple) and m[0] == w[0] == 'mask' and m[1] != w[1]: return env, int(name == 'operator!=')
                return env, TOP
            if name == 'operator=': return None
        if f is None: return None
        if name == 'on_vaule_changed': return env, TOP
        if f['q'].startswith(('basiclog::', 'basicsys::')) or cls.startswith(('basiclog::', 'basicsys::', NS + 'mt_mat_cache', NS + 'mt_auto_derivative')):
            if cls == NS + 'mt_mat_cache' and 'p' in T.ti(n.get('t')): return env, ('&', (('heap', n['l'], T.fns[-1]['q'], tuple(T.ctx)), ('[', 0)))
            if cls == MAT + '::reference_info': return env, TOP
            if T.isrec(n.get('t')) or n.get('lv'): return env, ('=', (('call', n['l'], name, this),))
            return env, TOP
        if cls == MAT + '::reference_info': return env, TOP
        return None

def roots(prog):
    r = []
    for f in prog.funcs.values():
        if not f['file'].startswith('basicmath') or f.get('dep') or not f.get('body') or f.get('access') in ('private', 'protected'): continue
        c = f.get('cls') or ''
        if c.startswith(NS + 'private_') or f['name'].startswith('~'): continue
        ps = [i for i, p in enumerate(f['params']) if p['t'].replace('const ', '').rstrip(' &*') == MAT]
        vec = any('mt_mat>' in p['t'] for p in f['params'])
        if c == MAT or ps or vec: r.append((f, ps))
    return r

def one(prog, R, task):
    fid, ps = task
    f = prog.funcs[fid]
    R.where = (f['file'], f['line'], f['id'])
    member = f.get('cls') and not f.get('static')
    objs = ([('obj', 'this')] if f.get('cls') == MAT and member else []) + [('parm', i) for i in ps]
    combos = [{'*': d, **{o: d for o in objs}} for d in TY]
    if len(objs) > 1:
        for a in TY:
            for b in TY:
                if a != b: combos.append({'*': b, **{o: b for o in objs}, objs[0]: a})
    sites = set(); n = 0
    import time; t0 = time.time()
    for dm in combos:
        h = Hooks(prog, dm); T = Tab(prog, h, depth=14); T.asserts = True
        env = Env(); argv = []
        for i, p in enumerate(f['params']):
            pp = 'p' in prog.types.get(p['t'], {})
            if p.get('ref') or T.isrec(p['t']): argv.append(('=', (('parm', i),)))
            elif pp and T.isrec(p['t'].replace('const ', '').rstrip(' *')): argv.append(('&', (('parm', i), )))
            else: argv.append(TOP)
        T.call(f, env, (('obj', 'this'),) if member else None, argv)
        sites |= h.acc; n += 1
        for (g, d, ty), (file, line, func) in sorted(h.bad.items()):
            R.where = (file, line, func)
            R.bad('elements of a matrix of depth %s are accessed as %s%d (in %s)' % (NM[d], ty[0], ty[1], f['id'].split('(')[0]), key='%s|%s|%s' % (f['q'], func, d))
    R.note('%s %d %.1f' % (fid, len(combos), time.time() - t0))
    for s in sites:
        for d in TY: R.ob('%s: %s:%s %s' % (fid, s[0], s[1], NM[d]))

def analyse(prog, R):
    rs = roots(prog)
    R.count('operations', len(rs))
    parallel(prog, R, one, [(f['id'], ps) for f, ps in rs])

if __name__ == '__main__':
    run_check('C01', lambda: load.load(['basiclog', 'basicsys', 'basicmath']), analyse, level='other', minimum=100,
        explanation='constant propagation of element types through every public matrix operation')
