"""What region growing starts from: working image, polarity, gray histogram and bucket heap.

The code that runs before the growing loop is interpreted abstractly once per configuration (image size, row step and
loop counters stay symbols, so every store is a polynomial in them; gray values stay unknown).  The rule is then decided
on those polynomials: which cells are written, which source pixel each of them takes its value from, and what the value is
as a function of that pixel's 256 possible bytes."""
import os, load, ai, itertools
from ai import Ptr, Ref, Rec, Mark, pname
from poly import P, ZERO, ONE
from ir import *
from common import *
import c_tiling as T
import c_neigh as N

NS = 'basicimg::'
FROM = 'basicimg::img_mser_base::m_from_min_max'
MT = 'basicimg::img_mask_info<unsigned char>::m_mask_type'
MV = 'basicimg::img_mask_info<unsigned char>::m_mask_value'
MM = 'basicimg::img_mask_info<unsigned char>::m_mask_image'
MAT = 'basicmath::mt_mat'

DET = [
    dict(cls='img_fast_mser_v1', bits=16, ns=(1, 2, 4, 8, 16, 32), masks=(0,), frm=1),
    dict(cls='img_fast_mser_v2', bits=32, ns=(1, 4, 32), masks=(0,), frm=1),
    dict(cls='img_linked_linear_mser', bits=16, ns=(1,), masks=(0, 1, 2, 3), frm=0),
    dict(cls='img_ms_mser', bits=32, ns=(1,), masks=(0,), frm=1),
    dict(cls='img_opencv_mser', bits=16, ns=(1,), masks=(0,), frm=0),
    dict(cls='img_opencv3_mser', bits=32, ns=(1,), masks=(0,), frm=1),
]

class Ev:
    __slots__ = ('seq', 'loops', 'bnd', 'path', 'v', 'old', 'line', 'fn', 'bits', 'ptr')

class Hooks(T.Hooks):
    split_trip = True
    def __init__(s, cls):
        T.Hooks.__init__(s); s.cls = cls; s.ev = []; s.where = {}; s.stop = None; s.captured = []; s.on = False; s.seq = 0; s.loopseq = {}
    @property
    def purehooks(s): return s
    def probe(s): return s
    def nonneg(s, p): return T.nonneg(p)
    # matrices: a parameter or a copy of it is the image; a created one has its own geometry
    def on_call(s, A, st, n, fid, name, vs):
        f = A.p.funcs.get(fid) if fid else None
        if f and f['q'].startswith('basiclog::'):
            return [(st, ZERO if 'p' in A.ti(n.get('t', '')) else A.fresh())]
        if name in ('strcombine',): return [(st, A.fresh())]
        if f and f.get('cls') == 'basicsys::sys_timer': return [(st, None)]
        if fid and fid.startswith(MAT + '::') and vs and isinstance(vs[0], Ref):
            o = vs[0].path; own = st.get(o + ('#cols',))
            cont = st.get(o + ('#cont',))
            if o[0][0] == 'parm' and o[-1] == MM: return s.maskmat(A, st, n, name, vs)
            if name == 'create' and len(vs) == 4:
                vs = [A.load(st, x.path, 'int') if isinstance(x, Ref) and k in (1, 2) else x for k, x in enumerate(vs)]
                m = [re.match(r'mt_[A-Z]+(\d+)C(\d+)$', x.get('n', '') or str(x.get('d', '')).split('::')[-1]) for x in walk(n) if x['k'] == 'Ref']
                m = [x for x in m if x]
                es = P.c(int(m[0].group(1)) // 8 * int(m[0].group(2))) if m else A.fresh()
                st.put(o + ('#rows',), vs[1]); st.put(o + ('#cols',), vs[2]); st.put(o + ('#es',), es)
                d = (('dims', o),); e = (('steps', o),)
                st.put(d + (('[', ZERO),), vs[1]); st.put(d + (('[', P.c(4)),), vs[2])
                st.put(e + (('[', ZERO),), vs[2] * es); st.put(e + (('[', P.c(4)),), es)
                return [(st, None)]
            if own is not None:
                es = st.get(o + ('#es',))
                if name == 'size' and len(vs) == 1: return [(st, Ptr((('dims', o),)))]
                if name == 'step' and len(vs) == 1: return [(st, Ptr((('steps', o),)))]
                if name == 'data': return [(st, Ptr((('*', o),)))]
                if name == 'ptr' and all(isinstance(x, P) for x in vs[1:]):
                    off = ZERO
                    for x, m in zip(vs[1:], (own * es, es, ONE)): off = off + x * m
                    return [(st, Ptr((('*', o),), off, True))]
                if name == 'rows': return [(st, st.get(o + ('#rows',)))]
                if name == 'cols': return [(st, own)]
            else:
                if name in ('is_continuous',):
                    if cont is not None: return [(st, cont)]
                    y = st.copy(); out = []
                    for x, t in ((st, True), (y, False)):
                        if A.assume(x, P.a('CONT'), t): out.append((x, ONE if t else ZERO))
                    return out
                if name in ('copy_from', 'clone') and len(vs) > 1: st.put(o + ('#cont',), ONE); return [(st, None)]
                if name == 'operator=' and len(vs) > 1 and isinstance(vs[1], Ref):
                    c2 = st.get(vs[1].path + ('#cont',)); st.kill(o)
                    if c2 is not None: st.put(o + ('#cont',), c2)
                    else: st.put(o + ('#cont',), P.a('CONT'))
                    return [(st, Ref(o))]
                step = W_ if isinstance(cont, P) and cont.const() == 1 else (S_ if cont is None else None)
                if step is None:
                    y = st.copy(); out = []
                    for x, t in ((st, True), (y, False)):
                        if A.assume(x, cont, t):
                            x.put(o + ('#cont',), ONE if t else ZERO)
                            if not t: x.kill(o + ('#cont',))
                            r = s.geom(A, x, o, name, vs, W_ if t else S_)
                            if r is None: return None
                            out += r
                    return out
                r = s.geom(A, st, o, name, vs, step)
                if r is not None: return r
        if name in ('ptr', 'data', 'step', 'size'): pass
        return T.Hooks.on_call(s, A, st, n, fid, name, vs)
    def geom(s, A, st, o, name, vs, step):
        if name == 'step' and len(vs) == 1:
            e = (('steps', repr(step)),); st.put(e + (('[', ZERO),), step); st.put(e + (('[', P.c(4)),), ONE)
            return [(st, Ptr(e))]
        if name == 'size' and len(vs) == 1: return [(st, Ptr((('dims',),)))]
        if name == 'data': return [(st, Ptr((('img',),)))]
        if name == 'ptr' and all(isinstance(x, P) for x in vs[1:]):
            off = ZERO
            for x, m in zip(vs[1:], (step, ONE, ONE)): off = off + x * m
            return [(st, Ptr((('img',),), off, True))]
        if name == 'rows': return [(st, T.H)]
        if name == 'cols': return [(st, T.W)]
        return None
    def maskmat(s, A, st, n, name, vs):
        if name == 'step' and len(vs) == 1:
            e = (('steps', 'mask'),); st.put(e + (('[', ZERO),), P.a('S2')); st.put(e + (('[', P.c(4)),), ONE); return [(st, Ptr(e))]
        if name == 'size' and len(vs) == 1: return [(st, Ptr((('dims',),)))]
        if name == 'data': return [(st, Ptr((('maskimg',),)))]
        if name == 'ptr' and all(isinstance(x, P) for x in vs[1:]):
            off = ZERO
            for x, m in zip(vs[1:], (P.a('S2'), ONE, ONE)): off = off + x * m
            return [(st, Ptr((('maskimg',),), off, True))]
        return None
    def on_init(s, A, st, path, key, t):
        s.where[('init', key)] = path
        return None
    def on_enter_loop(s, A, st, n, k, trip): s.seq += 1; s.loopseq[k] = s.seq
    def on_store(s, A, st, node, path, v):
        r = T.Hooks.on_store(s, A, st, node, path, v)
        if isinstance(r, Ptr): ai.RANGE[('null', r.base)] = (0, 0)      # a failed allocation is outside the rule
        if s.on and not A.probing and path[0][0] != 'v' or (s.on and not A.probing and len(path) > 1):
            e = Ev(); s.seq += 1; e.seq = s.seq
            e.loops = [(k, t) for k, t, n in getattr(A, 'loops', [])]
            e.bnd = list(st.bnd.items()); e.path = path; e.v = r if r is not None else v
            o = st.get(path)
            e.old = o if isinstance(o, (P, Ptr)) else P.a(('init', A.missing(st, path)))
            fr = A.frames[-1]; e.fn = fr[1]['q'] if len(fr) > 1 and isinstance(fr[1], dict) else ''
            e.line = (node or {}).get('l'); e.bits = None; e.ptr = False
            if node and node.get('t'):
                i = A.ti(node['t']); e.bits = i.get('bits') if i.get('int') else None; e.ptr = 'p' in i
            s.ev.append(e)
            if e.ptr and isinstance(e.v, P) and e.v.const() == 0 and ai.symbolic(path): return ai.SKIP      # bucket marker: the event is enough
        return r
    def on_loop(s, A, n, cnd, body, inc, st, dw):
        if s.on and n is s.stop:
            if not A.probing: s.captured.append((st, A.frames[-1]))
            return {'n': []}
        return None
import re
S_ = P.a('S0'); W_ = P.a('W'); ELEM = {}
for x in ('S2', 'CONT'): ai.RANGE[x] = (0, ai.INF)
ai.RANGE['CONT'] = (0, 1)

# ---- abstract values of an instance: an integer, or a function of one source pixel
class Tab:
    __slots__ = ('at', 'v')
    def __init__(s, at, v): s.at = at; s.v = v
class Unknown(Exception): pass
def lift(f, *xs):
    at = None
    for x in xs:
        if isinstance(x, Tab):
            if at is not None and x.at != at: raise Unknown('mixes two pixels')
            at = x.at
    if at is None: return f(*xs)
    return Tab(at, [f(*[x.v[i] if isinstance(x, Tab) else x for x in xs]) for i in range(256)])
WRAP = {'char': (8, 1), 'signed char': (8, 1), 'unsigned char': (8, 0), 'short': (16, 1), 'unsigned short': (16, 0), 'int': (32, 1), 'unsigned int': (32, 0),
        'long': (64, 1), 'unsigned long': (64, 0)}
def wrap(t, v):
    b, sg = WRAP[t]; v &= (1 << b) - 1
    return v - (1 << b) if sg and v >> (b - 1) else v
import operator as op
BIN = {'&': op.and_, '|': op.or_, '^': op.xor, '>>': lambda a, b: a >> b, '<<': lambda a, b: a << b,
       'div': lambda a, b: int(a / b) if b else 0, '/': lambda a, b: int(a / b) if b else 0, '%': lambda a, b: a - int(a / b) * b if b else 0,
       'mod': lambda a, b: a - int(a / b) * b if b else 0}
CMP = {'==': op.eq, '!=': op.ne, '<': op.lt, '<=': op.le, '>': op.gt, '>=': op.ge}
class Inst:
    """one assignment of sizes; ev() evaluates a polynomial under it"""
    def __init__(s, env, H): s.env = env; s.H = H; s.mem = {}; s.masks = []; s.wrong = None
    def ev(s, p, old=None):
        if isinstance(p, int): return p
        if isinstance(p, P):
            r = 0
            from poly import atom_of
            for k, c in p.m.items():
                t = c
                for i in k: t = lift(op.mul, t, s.atom(atom_of(i), old))
                r = lift(op.add, r, t)
            return r
        raise Unknown(repr(p))
    def atom(s, a, old):
        if a in s.env: return s.env[a]
        if old is not None and a == old[0]: return old[1]
        if isinstance(a, tuple):
            if a[0] == 'init':
                w = s.H.where.get(a) or a[1]
                if w[0] == ('img',):
                    return Tab(s.ev(w[1][1]) if len(w) > 1 else 0, list(range(256)))
                if w[0] == ('maskimg',):
                    s.masks.append(s.ev(w[1][1]) if len(w) > 1 else 0); return s.env['MASKBYTE']
                if w[0] == T.THIS and w[-1] == '#size' and w not in s.mem and len(w) == 3: return 0       # containers of a fresh detector are empty
                c = s.cell(w)
                if s.mem.get(c) is not None: return s.mem[c]
                raise Unknown('content of ' + pname(w))
            if a[0] in BIN and len(a) == 3: return lift(BIN[a[0]], s.ev(a[1], old), s.ev(a[2], old))
            if a[0] == 'conv' and a[1] in WRAP: return lift(lambda v: wrap(a[1], v), s.ev(a[2], old))
            if a[0] == 'cmp': return lift(lambda v: int(CMP[a[1]](v, 0)), s.ev(a[2], old))
            if a[0] == 'not': return lift(lambda v: int(not v), s.ev(a[1], old))
            if a[0] == '~': return lift(lambda v: ~v, s.ev(a[1], old))
            if a[0] in ('min', 'max') and isinstance(a[1], frozenset):
                return lift(min if a[0] == 'min' else max, *[s.ev(x, old) for x in a[1]])
        raise Unknown(ai.pname(a) if isinstance(a, tuple) and a and isinstance(a[0], tuple) else repr(a))
    def cell(s, path):
        """(array, byte offset) of a path"""
        i = max((j for j in range(len(path)) if isinstance(path[j], tuple) and path[j][0] == '['), default=None)
        if i is None: return (path, 0)
        o = s.ev(path[i][1])
        if isinstance(o, Tab): raise Unknown('place depends on a gray value')
        return (path[:i] + path[i + 1:], o)

def fires(I, e):
    """does the store happen at this instance?  True / False / set of gray values"""
    cond = None
    for q, (lo, hi, ne) in e.bnd:
        try: v = I.ev(q)
        except Unknown: continue
        if isinstance(v, Tab):
            c = {i for i in range(256) if lo <= v.v[i] <= hi and v.v[i] not in ne}
            cond = (v.at, c) if cond is None else (v.at, cond[1] & c) if cond[0] == v.at else cond
            continue
        if not (lo <= v <= hi) or v in ne: return False
    return cond if cond is not None else True

def expand(I, evs):
    """the stores of the instance in program order"""
    out = []
    env = I.env
    for e in evs:
        def rec(i, key):
            if i == len(e.loops):
                I.masks = []; f = fires(I, e)
                if f is not False and (f is True or f[1]): out.append((key + (e.seq,), dict(env, MASKS=I.masks), e, f))
                return
            k, trip = e.loops[i]
            if trip is None: raise load.Broken('loop at line %s of %s has no computable number of iterations (%s)' % (k[2] if len(k) > 2 else '?', e.fn, e.loops))
            try: t = I.ev(trip)
            except Unknown as x: raise load.Broken('number of iterations %r: %s' % (trip, x))
            if isinstance(t, Tab): raise load.Broken('number of iterations depends on gray values')
            for j in range(max(t, 0)):
                env[k] = j; rec(i + 1, key + (I.H.loopseq.get(k, 0), j))
            env.pop(k, None)
        rec(0, ())
    out.sort(key=lambda x: x[0])
    return out

def growing(prog, cls):
    fields = N.dirfields(prog, cls)
    sl = N.scanloop(prog, cls, fields)
    if not sl: raise load.Broken('%s has no neighbour scan loop' % cls)
    return sl, fields

def steps(prog, cls, d):
    """the functions that prepare and then grow, in the order in which a run calls them"""
    if cls + '::parallel_info' in prog.records:
        for f in prog.funcs.values():
            if f.get('cls') == cls and any('parallel_info' in p['t'] for p in f['params']) and any('mt_mat' in p['t'] for p in f['params']) and reaches(prog, f, cls): return [f]
    out = []
    for nm in ('build_tree', 'extract_pixel'):
        f = [f for f in prog.funcs.values() if f.get('cls') == cls and f['q'].endswith('::' + nm) and f.get('body')]
        if f:
            out.append(f[0])
            if reaches(prog, f[0], cls): return out
    raise load.Broken('%s: nothing prepares and grows' % cls)
def reaches(prog, f, cls):
    sl, _ = growing(prog, cls); goal = sl[0]['id']; seen = set(); work = [f]
    while work:
        g = work.pop()
        if g['id'] in seen: continue
        seen.add(g['id'])
        if g['id'] == goal: return True
        for x in walk_fn(g):
            if x['k'] in ('Call', 'MCall') and x.get('f') in prog.funcs and prog.funcs[x['f']].get('body'): work.append(prog.funcs[x['f']])
    return False

def stores(prog, d, n, conn, runs, mtype, pid):
    """runs: list of (gray mask, from_min, from_max) passes made one after the other; the stores and final states of each"""
    cls = NS + d['cls']
    sl, fields = growing(prog, cls)
    H = Hooks(cls); A = ai.AI(prog, H, maxsteps=6000000)
    st = T.initial(n, conn)
    for fd in prog.records[cls]['fields']:
        i = A.ti(fd['t'])
        if fd['d'] not in (T.N_FIELD, T.CONN) and ('p' in i or (i.get('int') and '#' not in fd['d'])): st.put((T.THIS, fd['d']), ZERO)
    alloc = prog.fn(cls + '::allocate_memory')
    if not alloc: raise load.Broken('no %s::allocate_memory' % cls)
    H.on = True
    def prep(f, x):
        argv = []
        for i, p in enumerate(f['params']):
            t = p['t']
            if 'parallel_info' in t: argv.append(Ref((T.THIS, cls + '::m_pinfo', ('[', P.c(pid * A.ti(cls + '::parallel_info')['s'])))))
            elif 'img_mask_info' in t:
                argv.append(None); k = ('parm', i, p['n'])
                x.put((k, MT), P.c(mtype))
            elif t == 'unsigned char' and 'mask' in p['n']: argv.append(P.c(gm))
            elif t == 'unsigned char': argv.append(P.c(pid))
            else: argv.append(None)
        return argv
    gm = 0
    sts = [y for y, _ in A.run(alloc[0]['id'], st, argv=prep(alloc[0], st))]
    if not sts: raise load.Broken('%s: allocation never returns' % cls)
    res = []; base = dict(sts[0].bnd)
    for gm, fmin in runs:
        H.stop = sl[1]; H.captured = []; H.ev = [] if res else H.ev
        x0 = sts
        for f in steps(prog, cls, d):
            nxt = []
            for x in x0:
                x = x.copy(); x.put((T.THIS, FROM, ('[', ZERO)), P.c(fmin))
                nxt += [y for y, _ in A.run(f['id'], x, argv=prep(f, x))]
            x0 = nxt
        if not H.captured: raise load.Broken('%s: the growing loop is not reached' % cls)
        res.append((H.ev, H.captured))
        # the growing loop changes anything but the layout: the next pass starts from the state before it
        pick = {}
        for c, fr in H.captured: pick.setdefault(c.bnd.get(P.a('CONT')), c)
        sts = []
        for k, c in pick.items():
            c = c.copy(); c.bnd = dict(base); sts.append(c)
            c.bnd.pop(P.a('CONT'), None)
            if k: c.bnd[P.a('CONT')] = k
    return A, H, res, fields

def patchdims(A, st, d, pid):
    """(top, left, height, width) of the part of the image that is grown, as polynomials"""
    cls = NS + d['cls']
    if cls + '::parallel_info' in A.p.records:
        b = (T.THIS, cls + '::m_pinfo', ('[', P.c(pid * A.ti(cls + '::parallel_info')['s'])))
        g = lambda n: st.get(b + (cls + '::parallel_info::' + n,))
        return [g('m_top'), g('m_left'), g('m_height'), g('m_width')]
    if d['cls'] == 'img_opencv3_mser': return [ONE, ONE, T.H - 2, T.W - 2]
    for q in st.below((T.THIS,)):
        if 'activate_rect' in str(q[1]) and len(q) == 3:
            n = {x[2].split('::')[-1]: st.get(x) for x in st.below(q[:2]) if len(x) == 3}
            return [n.get('m_top'), n.get('m_left'), n.get('m_height'), n.get('m_width')]
    return [ZERO, ZERO, T.H, T.W]

def simulate(I, evs, keep=True):
    """contents of the memory after the stores: cell -> value; also how often every histogram bin expression was counted"""
    wrote = {}; incs = []; unknown = []
    for key, env, e, f in expand(I, evs):
        if e.ptr or isinstance(e.v, (Ptr, Ref, Rec)): continue
        I.env = env
        try:
            idx = [q for q in e.path if isinstance(q, tuple) and q[0] == '[']
            off = I.ev(idx[-1][1]) if idx else 0
        except Unknown as x: unknown.append((e, str(x))); continue
        diff = (e.v - e.old).const() if isinstance(e.v, P) and isinstance(e.old, P) else None
        root = tuple(x for x in e.path if x is not idx[-1]) if idx else e.path
        if isinstance(off, int) and diff == 1 and f is not True and e.bits == 32: off = Tab(f[0], [off] * 256)
        if isinstance(off, int) and diff == 1 and 'MASKBYTE' in I.env and off and e.bits == 32 and e.loops: incs.append((root, off, diff, e, f, e.bits)); continue
        def mine(at):
            for o in env.get('MASKS') or ():
                if o != at // env['S0'] * env['S2'] + at % env['S0']: I.wrong = (e, at, o)
        if isinstance(off, Tab):
            mine(off.at)
            incs.append((root, off, diff, e, f, e.bits)); continue
        if e.bits is None: continue
        cell = (root, off)
        old = e.old.single() if isinstance(e.old, P) else None
        ov = I.mem.get(cell)
        try: v = I.ev(e.v, (old, ov) if old is not None and ov is not None else None)
        except Unknown as x: v = None
        if isinstance(v, Tab): mine(v.at)
        if isinstance(v, int) and e.bits == 16: v = wrap('short', v)
        if isinstance(v, Tab) and e.bits == 16: v = Tab(v.at, [wrap('short', x) for x in v.v])
        if isinstance(v, Tab) and e.bits == 8: v = Tab(v.at, [x & 255 for x in v.v])
        if isinstance(v, int) and e.bits == 32: v &= 0xffffffff
        if f is not True:
            at, ok = f
            old = I.mem.get(cell)
            ot = old.v if isinstance(old, Tab) and old.at == at else [old if isinstance(old, int) else None] * 256
            nt = v.v if isinstance(v, Tab) and v.at == at else [v if isinstance(v, int) else None] * 256
            v = Tab(at, [nt[i] if i in ok else ot[i] for i in range(256)])
        I.mem[cell] = v; wrote.setdefault(cell, []).append((v, e))
    return wrote, incs, unknown

def same(t, want):
    return isinstance(t, Tab) and t.v == want

SIZES = {1: ((1, 1), (1, 3), (3, 1), (2, 2), (3, 4), (4, 3)), 2: ((2, 2), (5, 3), (4, 5), (2, 6)), 4: ((2, 2), (4, 6), (5, 5), (3, 6)), 8: ((4, 4), (8, 9), (9, 7)),
         16: ((4, 4), (9, 10), (11, 7)), 32: ((8, 8), (13, 18), (17, 11))}

def check(R, d, n, conn, runs, mtype, pid, prog):
    cls = NS + d['cls']
    A, H, res, fields = stores(prog, d, n, conn, runs, mtype, pid)
    patch = ' patch %d of %d' % (pid, n) if n > 1 else ''
    worlds = [dict(CONT=0), dict(CONT=1)] if d['cls'] == 'img_opencv3_mser' else [dict(CONT=0)]
    if mtype == 1: worlds = [dict(w, MASKBYTE=b) for w in worlds for b in (1, 255, 0)]
    for (h, w) in SIZES[n]:
        if d['cls'] == 'img_opencv3_mser': h += 2; w += 2
        for wd in worlds:
            ih, iw = (h + 3, w + 4) if mtype == 2 else (h, w)
            env = {'H': ih, 'W': iw, 'S0': iw if wd['CONT'] else iw + 5, 'S1': 1, 'S2': iw + 9, 'CONT': wd['CONT']}
            env.update(wd)
            for st, fr in res[0][1][:1]:
                for q in st.below((T.THIS,)):
                    if q[-1] == '#cols':
                        for a in st.get(q).atoms():
                            if a not in env: env[a] = next(1 << i for i in range(32) if (1 << i) >= w + 2)
            I = Inst(env, H)
            for (gm, fmin), (evs, cap) in zip(runs, res):
                instance(R, d, A, H, I, evs, cap, gm, fmin, (gm, fmin) != runs[0] and fmin, mtype, n, pid, conn, patch, h, w, fields)
                if R.viol: return

def expected(gm, mtype, env):
    X = [x ^ gm for x in range(256)]
    if mtype == 3: X = [256 if x == MVAL else X[x] for x in range(256)]
    if mtype == 1 and env.get('MASKBYTE') == 0: X = [256] * 256
    return X
MVAL = 77

def instance(R, d, A, H, I, evs, cap, gm, fmin, second, mtype, n, pid, conn, patch, h, w, fields):
    cls = NS + d['cls']
    what = '%s%s, gray mask %d%s, mask type %d, %d-connectivity' % (d['cls'], patch, gm, ' after the first pass' if second else '', mtype, 8 if conn else 4)
    f, outer, _ = growing(A.p, cls)[0]
    e0 = I.env; I.env = dict(e0)
    st = cap[0][0]
    for k, p in list(H.where.items()):
        nm = str(p[-1]).split('::')[-1]
        if p[-1] == MV: e0[k] = I.env[k] = MVAL
        if p[0][0] == 'parm' and 'mask_rect' in str(p):
            v = {'m_left': 2, 'm_top': 1, 'm_width': w, 'm_height': h}.get(nm)
            if v is not None: e0[k] = I.env[k] = v
    dims = patchdims(A, st, d, pid)
    try: top, left, ph, pw = [I.ev(x) for x in dims]
    except (Unknown, TypeError, AttributeError) as x: raise load.Broken('%s: extent of the patch: %s %s' % (what, x, dims))
    if os.environ.get('DBG'): print(what, h, w, 'dims', top, left, ph, pw)
    wrote, incs, unknown = simulate(I, evs)
    I.env = e0
    X = expected(gm, mtype, I.env)
    S0 = I.env['S0'] if d['cls'] != 'img_opencv3_mser' else I.env['W']     # grown on a packed copy
    R.where = (f['file'], outer.get('l', f['line']), what)
    def bad(msg, e=None):
        fl = f['file']
        if e is not None: R.bad('%s, image %dx%d: %s' % (what, h, w, msg), f['file'], e.line, e.fn, key='%s|%s' % (d['cls'], msg))
        else: R.bad('%s, image %dx%d: %s' % (what, h, w, msg), key='%s|%s' % (d['cls'], msg))
    want = {(top + r) * S0 + left + c: (r, c) for r in range(ph) for c in range(pw)}
    if I.wrong: e, at, o = I.wrong; bad('pixel (%d,%d) is kept or left out according to the mask at offset %s' % (at // S0, at % S0, o), e); return
    es = d['bits'] // 8
    if not second:
        # gray histogram: every pixel once, under the level it is grown at
        seen = {}; blank = 0
        for root, off, diff, e, f2, bits in incs:
            if diff != 1: bad('a bin chosen by a gray value is changed by %s' % diff, e); return
            if isinstance(off, int):
                if off != 256 * bits // 8 or I.env['MASKBYTE']: bad('a pixel is counted under a fixed level', e); return
                blank += 1; seen[blank] = root; continue
            if off.at not in want: bad('a pixel outside the patch is counted', e); return
            ok = range(256) if f2 is True else f2[1]
            sc = bits // 8
            for x in ok:
                if off.v[x] != X[x] * sc: bad('gray value %d is counted as level %s instead of %d' % (x, off.v[x] // sc, X[x]), e); return
                k = (off.at, x)
                if k in seen: bad('a pixel is counted twice in the histogram', e); return
                seen[k] = root
        R.ob('%s: histogram' % what)
        if len(seen) != (256 if not blank else 1) * len(want): bad('%d of %d pixels are counted in the histogram' % (len(seen) // 256, len(want))); return
        roots = set(seen.values())
        if len(roots) != 1: bad('the histogram is spread over several arrays'); return
        I.hist = roots.pop()
    elif incs: bad('the second pass counts pixels again', incs[0][3]); return
    # cells of the working image
    bits = 16 if d['bits'] == 16 else 8
    cells = {}
    for (root, off), l in wrote.items():
        v, e = l[-1]
        if e.bits != bits or isinstance(root[-1], str): continue
        if isinstance(I.mem.get((root, off)), Tab) or v is None: cells[(root, off)] = (I.mem.get((root, off)), e)
    R.ob('%s: cells' % what)
    if d['bits'] == 16:
        start = 0
        pos = {}
        if I.env.get('MASKBYTE') == 0:
            for rc, c in I.H.pos[(h, w)].items():
                v = I.mem.get(c)
                if isinstance(v, Tab): v = v.v[0] if len(set(v.v)) == 1 else None
                if v != 256 and not (rc == (0, 0) and v is not None and v & 0x1ff == 256): bad('masked pixel (%d,%d) becomes cell value %s instead of 256' % (rc + (v,))); return
            heap(R, d, A, H, I, evs, cap, bad, second, what, gm); return
        rt = {c[0] for c in cells}
        for c, (v, e) in cells.items():
            if v is None: bad('a cell receives something that is not a function of one pixel', e); return
            if v.at not in want: bad('a cell takes its value from outside the patch', e); return
            if v.at in pos: bad('two cells take their value from one pixel', e); return
            pos[v.at] = c
            r, q = want[v.at]
            flag = 0
            if d['cls'] == 'img_fast_mser_v1' and n > 1:
                if (r == 0 and top > 0) or (q == 0 and left > 0) or (r == ph - 1 and top + ph < h) or (q == pw - 1 and left + pw < w): flag = 0x4000
            vv = v.v
            if all(x is not None and x < 0 for x in vv) and start == 0 and (r, q) == (0, 0): start = 1; vv = [x & 0x7fff for x in vv]
            if any(x != X[i] | flag for i, x in enumerate(vv)):
                i = next(i for i, x in enumerate(vv) if x != X[i] | flag)
                bad('pixel (%d,%d) with gray value %d becomes cell value %s instead of %d' % (r, q, i, vv[i], X[i] | flag), e); return
        if len(pos) != len(want) or len(rt) > 1: bad('%d of %d pixels have a cell' % (len(pos), len(want))); return
        layout(bad, {want[a]: c[1] for a, c in pos.items()}, ph, pw, es, neighbours(A, I, cap, d, pid, fields))
        root = next(iter(rt)) if rt else None
        if not hasattr(I.H, 'pos'): I.H.pos = {}
        I.H.pos[(h, w)] = {want[a]: c for a, c in pos.items()}
        if not second: I.frame = {}
        frame(bad, I, root, {c[1] for c in pos.values()}, lambda v: isinstance(v, int) and v < 0, es, ph, pw, {want[a]: c[1] for a, c in pos.items()})
    elif d['cls'] == 'img_opencv3_mser':
        R.ob('%s: cells' % what)
        root = None
        for (rt, off), v in I.mem.items():
            if wrote.get((rt, off)) and wrote[(rt, off)][-1][1].bits == 32 and v == 0 and off == (w + 1) * 4 and 'pix' in str(rt).lower(): root = rt
        roots = {rt for (rt, off), l in wrote.items() if l[-1][1].bits == 32 and any(isinstance(x, str) and x.endswith('::val') for x in rt) and rt[0] == T.THIS}
        if len(roots) != 1: bad('no pixel cells are prepared'); return
        root = roots.pop()
        for r in range(h):
            for c in range(w):
                v = I.mem.get((root, (r * w + c) * 4)); l = wrote.get((root, (r * w + c) * 4))
                border = r in (0, h - 1) or c in (0, w - 1)
                if border:
                    if not isinstance(v, int) or v == 0: bad('border cell (%d,%d) is not marked as used' % (r, c)); return
                elif not l: bad('cell (%d,%d) is not reset' % (r, c)); return
                else:
                    if not any(x == 0 for x, e in l): bad('cell (%d,%d) is not reset' % (r, c), l[-1][1]); return
                    if (r, c) != (1, 1) and v != 0: bad('cell (%d,%d) does not start as unused' % (r, c), l[-1][1]); return
    else:
        if not second:
            pos = {}
            for c, (v, e) in cells.items():
                if v is None or not isinstance(v, Tab): bad('a byte copy is not a function of one pixel', e); return
                if v.at not in want or v.at in pos: bad('a byte copy is made of the wrong pixel', e); return
                if v.v != list(range(256)): bad('the byte copy of a pixel differs from it', e); return
                pos[v.at] = c
            if len(pos) != len(want) or len({c[0] for c in pos.values()}) > 1: bad('%d of %d pixels are copied' % (len(pos), len(want))); return
            I.pix = {want[a]: c[1] for a, c in pos.items()}
        proots = {rt for (rt, off), l in wrote.items() if l[-1][1].bits == 32 and rt[0][0] == '*' and len(rt) == 1 and any(x == 0 for x, e in l)}
        if len(proots) != 1: bad('no direction cells are prepared'); return
        root = proots.pop()
        # pixel (r, c) of the byte copy and of the direction cells have the same index relative to the patch
        eb, pb = bases(A, I, st, d, pid)
        cell = {rc: pb + 4 * (o - eb) for rc, o in I.pix.items()}
        layout(bad, cell, ph, pw, 4, neighbours(A, I, cap, d, pid, fields))
        first = (0, 0)
        for rc, o in cell.items():
            l = wrote.get((root, o))
            if not l or not any(x == 0 for x, e in l): bad('the direction cell of pixel (%d,%d) is not reset' % rc, l[-1][1] if l else None); return
            if rc != first and l[-1][0] != 0: bad('the direction cell of pixel (%d,%d) does not start as unused' % rc, l[-1][1]); return
        frame(bad, I, root, set(cell.values()), lambda v: isinstance(v, int) and v != 0, 4, ph, pw, cell)
    if not R.viol: heap(R, d, A, H, I, evs, cap, bad, second, what, gm)

def bases(A, I, st, d, pid):
    cls = NS + d['cls']
    pre = (T.THIS,) if cls + '::parallel_info' not in A.p.records else (T.THIS, cls + '::m_pinfo', ('[', P.c(pid * A.ti(cls + '::parallel_info')['s'])))
    o = {}
    for q in st.below(pre):
        if len(q) == len(pre) + 1 and isinstance(q[-1], str) and isinstance(st.get(q), Ptr):
            o[q[-1].split('::')[-1]] = st.get(q)
    try: return I.ev(o['m_extended_image'].off), I.ev(o['m_points'].off)
    except KeyError: raise load.Broken('%s: no byte copy and direction cells in %s' % (cls, sorted(o)))

def neighbours(A, I, cap, d, pid, fields):
    """the distances in cells that growing goes from a pixel to its neighbours; None when the tables are not numbers here"""
    out = set(); n = 0; one = A.ti(NS + d['cls'] + '::parallel_info').get('s')
    for x in cap[0][0].below((T.THIS,)):
        f = [y for y in x if y in fields]
        if not f or not (isinstance(x[-1], tuple) and x[-1][0] == '['): continue
        ix = [y for y in x[1:] if isinstance(y, tuple) and y[0] == '[']
        if len(ix) > 1 and ix[0][1].const() is not None and one and ix[0][1].const() != pid * one: continue
        v = cap[0][0].get(x)
        if not isinstance(v, P): continue
        try: v = I.ev(v)
        except Unknown: continue
        if isinstance(v, int): out.add(abs(v)); n += 1
    return out if n >= 4 else None

def layout(bad, pos, ph, pw, es, dist=None):
    """cells form rows of consecutive cells with one step between rows, with room for the frame"""
    if not pos: return
    a0 = pos[(0, 0)]
    if any(pos[(r, c)] != pos[(r, 0)] + es * c for r in range(ph) for c in range(pw)): bad('the cells of a row are not consecutive'); return
    if ph > 1:
        step = pos[(1, 0)] - a0
        if any(pos[(r, 0)] != a0 + r * step for r in range(ph)): bad('the rows of cells are not evenly spaced'); return
        if step < es * (pw + 1): bad('the rows of cells leave no room for the frame'); return
        if dist and any(x not in (0, 1, step // es - 1, step // es, step // es + 1) for x in dist): bad('growing goes to the next row by another distance than the rows of cells have'); return

def frame(bad, I, root, inside, isframe, es, ph, pw, pos):
    step = pos[(1, 0)] - pos[(0, 0)] if ph > 1 else None
    for (r, c), a in pos.items():
        for dr in (-1, 0, 1):
            for dc in (-1, 0, 1):
                if dr and step is None: continue
                b = a + dr * (step or 0) + dc * es
                if b in inside or (dr, dc) == (0, 0): continue
                v = I.mem.get((root, b))
                if not isframe(v): bad('the cell next to pixel (%d,%d) towards (%d,%d) is not a frame cell' % (r, c, dr, dc)); return

def heap(R, d, A, H, I, evs, cap, bad, second, what, gm):
    """bucket i of the heap starts one slot after the room for all pixels of level i-1"""
    st = cap[0][0]
    cls = NS + d['cls']
    starts = {}
    for e in evs:
        if isinstance(e.v, Ptr) and isinstance(e.path[-1], tuple) and e.path[-1][0] == '[' and e.path[-1][1].const() is not None and \
           any(isinstance(x, str) and x.startswith(cls) for x in e.path[:-1]) and e.fn != 'x':
            starts.setdefault(e.path[:-1], {})[e.path[-1][1].const() // 8] = e
    best = max(starts.items(), key=lambda x: len(x[1]), default=None)
    R.ob('%s: heap buckets' % what)
    if best is None or len(best[1]) < 256: bad('the heap has no bucket starts'); return
    root, es = best
    nb = max(es) + 1
    for i in range(1, nb):
        a = st.get(root + (('[', P.c(8 * (i - 1))),)); b = st.get(root + (('[', P.c(8 * i)),))
        if not (isinstance(a, Ptr) and isinstance(b, Ptr) and a.base == b.base): bad('bucket %d does not start in the same heap as its predecessor' % i, es.get(i)); return
        q = (b.off - a.off - 8)
        L = q.divc(8)
        at = L.single() if L is not None else None
        j = (255 - (i - 1)) if second and i - 1 < 256 else i - 1
        p = H.where.get(at) if at is not None else None
        if not p:
            bad('bucket %d does not start right after the room for the pixels of level %d' % (i, i - 1), es.get(i)); return
        ix = [x for x in p if isinstance(x, tuple) and x[0] == '[']
        rt = tuple(x for x in p if x is not ix[-1]) if ix else p
        k = ix[-1][1].const() if ix else 0
        if rt != I.hist or k != 4 * j: bad('the room for level %d is taken from bin %s of %s' % (i - 1, k // 4 if k is not None else '?', pname(rt)), es.get(i)); return
        z = st.get(b.base + (('[', b.off),))
        if not (isinstance(z, P) and z.const() == 0):
            if not any(e.path[-1] == ('[', b.off) and e.path[:-1] == b.base and isinstance(e.v, P) and e.v.const() == 0 for e in evs):
                bad('bucket %d has no empty marker at its start' % i, es.get(i)); return
    if nb < 256: bad('only %d buckets' % nb)

def one(prog, R, task):
    import time; t0 = time.time()
    one_(prog, R, task)
    if os.environ.get('DBG'): print('%.1fs' % (time.time() - t0), task[0]['cls'], task[1:])
def one_(prog, R, task):
    d, n, conn, runs, mtype, pid = task
    check(R, d, n, conn, runs, mtype, pid, prog)

def tasks():
    import sys
    out = []
    for d in DET:
        if len(sys.argv) > 1 and sys.argv[1] not in d['cls']: continue
        for n in d['ns']:
            for mt in d['masks']:
                for pid in {1: (0,), 2: (1,), 4: (3,), 8: (), 16: (0, 5), 32: (31,)}[n]:
                    for runs in ([((0, 1), (255, 1)), ((255, 0),)] if d['frm'] else [((0, 1),), ((255, 0),)]):
                        out.append((d, n, 0, runs, mt, pid))
    return out

def analyse(prog, R): parallel(prog, R, one, tasks())

def main():
    fs = {'basicimg/src/%s.cpp' % d['cls'] for d in DET}
    run_check('C06', lambda: load.load(files=fs), analyse, 'other', minimum=int(os.environ.get('MINI', '100')),
        explanation='Abstract interpretation of everything a flood-fill detector does before its growing loop; stores are polynomials in image size, row step and loop counters, values are functions of one source byte.')
if __name__ == '__main__': main()
