"""Merging across patches: which pixels are connected, when, and in which concurrent work item.

allocate_memory and then the whole build step of the fast detectors are interpreted with symbolic image size.  Growing a
patch and connecting two regions become events whose operands are the cells the regions were looked up in, as polynomials
in the image size and loop counters.  The events are then instantiated at several image sizes and compared with the pairs
of neighbouring pixels that lie in different patches."""
import load, ai, os, re
from ai import Ptr, Ref, Rec, Mark, pname
from poly import P, ZERO, ONE
from ir import *
from common import *
import c_tiling as T
import c_fill as F

NS = 'basicimg::'
NSIZES = {2: ((2, 2), (5, 3), (4, 5), (3, 8)), 4: ((2, 2), (4, 6), (5, 5), (3, 7)), 8: ((2, 4), (4, 4), (8, 9), (9, 7)),
          16: ((4, 4), (9, 10), (11, 7)), 32: ((4, 8), (8, 8), (13, 18), (11, 17))}

class SeamAI(ai.AI):
    def x_OMP(s, n, c, st):
        d = next((x['d'] for x in walk(n) if x['k'] == 'Var'), None)
        s.omps = getattr(s, 'omps', [])
        s.omps.append((n['l'], s.frames[-1][0], d))
        try: return ai.AI.x_OMP(s, n, c, st)
        finally: s.omps.pop()

class Hooks(F.Hooks):
    def __init__(s, prog, cls, connect, grow, merged):
        F.Hooks.__init__(s, cls); s.p = prog; s.connect = connect; s.grow = grow; s.merged = merged; s.calls = []; s.psum = []; s.bands = set(); s.es = None
    def idx(s, path):
        e = path[-1]
        return e[1].const() // s.es if isinstance(e, tuple) and e[0] == '[' and e[1].const() is not None else None
    def tag(s, A, st):
        t = []
        for l, fr, d in getattr(A, 'omps', []):
            v = st.get((('v', fr, d),))
            t.append((l, v.const() if isinstance(v, P) else None))
        return tuple(t)
    def on_call(s, A, st, n, fid, name, vs):
        if fid == s.grow:
            a = next((v for v in vs if isinstance(v, Ref) and len(v.path) > 2), None)
            if a is None: raise load.Broken('%s: patch argument %r' % (s.cls, vs))
            if not A.probing: s.event('grow', A, st, n, [s.idx(a.path)])
            return [(st, None)]
        if fid == s.connect:
            k = [v for v in vs if isinstance(v, Ptr)]
            if not A.probing: s.event('connect', A, st, n, k[:2] if k and k[0].base[0] != T.THIS else k[1:3])
            return [(st, None)]
        f = s.p.funcs.get(fid) if fid else None
        if f and f['name'] == 'at' and 'mt_block_memory' in (f.get('cls') or '') and isinstance(vs[0], Ref):
            i = s.idx(vs[0].path[:3])
            if i is not None: return [(st, Ref((('reg', 'at', i, vs[1]),)))]
        if name == 'integral_array':
            if not A.probing: s.event('psum', A, st, n, vs)
            for v in vs[:1]: s.wipe(A, st, v)
            return [(st, None)]
        if name == 'memset' and not A.probing: s.event('memset', A, st, n, vs)
        if f and f['q'].startswith('basicsys::sys_alg') or name in ('get_tick_cout', 'memory_size'): return [(st, A.fresh())]
        return F.Hooks.on_call(s, A, st, n, fid, name, vs)
    def wipe(s, A, st, v):
        if isinstance(v, Ptr): A.havoc1(st, v.base)
    def event(s, kind, A, st, n, args):
        e = F.Ev(); s.seq += 1; e.seq = s.seq; e.loops = [(k, t) for k, t, _ in getattr(A, 'loops', [])]
        e.bnd = list(st.bnd.items()); e.path = kind; e.v = args; e.old = s.tag(A, st); e.line = n['l']; e.fn = A.frames[-1][1]['q']; e.bits = None; e.ptr = False
        s.ev.append(e); s.calls.append(e)
    def on_init(s, A, st, path, key, t):
        F.Hooks.on_init(s, A, st, path, key, t)
        if path[0][0] == 'seam' and len(path) == 2: return Ptr((('reg', 'seam', path[0][1], path[0][2], path[1][1]),), ZERO, False)
        if path[0][0] in ('reg', 'regp') and isinstance(path[-1], str):
            if path[-1].endswith('::m_region_flag'):
                v = s.flags['Flag_Merged'] if s.merged and path[0][0] == 'reg' else s.flags['Flag_Unknow']
                return P.c(v)
            if path[-1].endswith('::m_parent'):
                return Ptr((('regp',) + path[0][1:],), ZERO, False) if path[0][0] == 'reg' else Ptr((('far',) + path[0][1:],), ZERO, False)
        return None
    def on_bin(s, A, st, n, op, a, b):
        """index / extent of a band: one case per band"""
        if op == '/' and isinstance(b, P) and b in s.bands and isinstance(a, P) and any(isinstance(x, tuple) and x[0] == 'init' for x in a.atoms()):
            q = P.a(('div', a, b)); out = []
            ai.RANGE[('div', a, b)] = (0, ai.INF)
            m = b.single(); m = m[2].const() if isinstance(m, tuple) and m[0] == 'div' else None
            for c in range(2 * (m or s.n)):
                y = st.copy()
                if A.assume(y, P.a(('cmp', '==', q - P.c(c))), True): out.append((y, P.c(c)))
            return out
        return None

def assigns(f, suffix):
    return any(x['k'] == 'Assign' and strip(x['c'][0])['k'] == 'Member' and strip(x['c'][0])['d'].endswith(suffix) for x in walk_fn(f))
def find(prog, cls):
    mr = cls + '::mser_region'
    con = []; grow = None
    for f in prog.funcs.values():
        if f.get('cls') != cls or not f.get('body'): continue
        rp = [p for p in f['params'] if p['t'] == mr + ' *']
        if len(rp) >= 2 and assigns(f, '::m_parent') and assigns(f, '::m_region_flag'): con.append(f)
        if any(p['t'].rstrip(' &') == cls + '::parallel_info' for p in f['params']) and any(x['k'] in ('Call', 'MCall') for x in walk_fn(f)) and F.reaches(prog, f, cls): grow = grow or f
    callers = set()
    for f in prog.funcs.values():
        if f.get('cls') == cls:
            for x in walk_fn(f):
                if x['k'] in ('Call', 'MCall'): callers.add((x.get('f'), f['id']))
    con = [f for f in con if any(c == f['id'] for c, _ in callers)]
    if len(con) != 1: raise load.Broken('%s: %d functions connect two regions' % (cls, len(con)))
    if not grow: raise load.Broken('%s: no function grows a patch' % cls)
    # the outermost function taking a patch that grows
    g = [f for f in prog.funcs.values() if f.get('cls') == cls and any(p['t'].rstrip(' &') == cls + '::parallel_info' for p in f['params']) and F.reaches(prog, f, cls)]
    top = [f for f in g if not any(c == f['id'] and any(h['id'] == w for h in g) for c, w in callers)]
    if len(top) != 1: raise load.Broken('%s: %d functions grow a patch' % (cls, len(top)))
    return con[0], top[0]

def run(prog, cls, n, conn, merged, gm=0):
    con, grow = find(prog, cls)
    H = Hooks(prog, cls, con['id'], grow['id'], merged); A = SeamAI(prog, H, maxsteps=6000000)
    H.n = n; H.es = A.ti(cls + '::parallel_info')['s']
    H.flags = {}
    for x in walk_fn(con):
        if x['k'] == 'Assign' and strip(x['c'][0])['k'] == 'Member' and strip(x['c'][0])['d'].endswith('::m_region_flag') and const(x['c'][1]) is not None:
            H.flags = {'Flag_Merged': const(x['c'][1]), 'Flag_Unknow': 0}
    if not H.flags: raise load.Broken('no merged flag')
    st = T.initial(n, conn)
    for fd in prog.records[cls]['fields']:
        i = A.ti(fd['t'])
        if fd['d'] not in (T.N_FIELD, T.CONN) and ('p' in i or (i.get('int') and '#' not in fd['d'])): st.put((T.THIS, fd['d']), ZERO)
    alloc = prog.fn(cls + '::allocate_memory')[0]
    sts = [y for y, _ in A.run(alloc['id'], st)]
    if not sts: raise load.Broken('%s: allocation never returns' % cls)
    st = sts[0]
    ps, sz, extra = T.patches(A, st, cls, n)
    for i, d in enumerate(ps):
        pp = d['#path']
        for q in list(st.below(pp)):
            v = st.get(q)
            if 'boundary_regions' in str(q[-2]) and isinstance(q[-1], tuple) and isinstance(v, Ptr):
                st.put(q, Ptr((('seam', i, q[-1][1].const() // 8),), ZERO, True))
        k = pp + (cls + '::parallel_info::m_points',)
        if isinstance(st.get(k), Ptr): st.put(k, Ptr((('pts', i),), ZERO, True))
        for f in ('m_width', 'm_height'):
            if isinstance(d.get(f), P): H.bands.add(d[f])
    H.on = True; H.ev = []; H.calls = []
    bt = [f for f in prog.funcs.values() if f.get('cls') == cls and f['name'] == 'build_tree' and f.get('body')]
    if len(bt) != 1: raise load.Broken('%s: no build_tree' % cls)
    argv = [P.c(gm) if p['t'] == 'unsigned char' else None for p in bt[0]['params']]
    out = A.run(bt[0]['id'], st, argv=argv)
    if not out: raise load.Broken('%s: build_tree never returns' % cls)
    return A, H, ps


class Inst(F.Inst):
    """sizes are numbers; the sorted row and column lists are read as the identity (they are permutations, see order())"""
    lists = ()
    def atom(s, a, old):
        if isinstance(a, tuple) and a[0] == 'init' and a not in s.env:
            w = s.H.where.get(a) or a[1]
            if w[0] in s.lists and isinstance(w[-1], tuple) and w[-1][0] == '[':
                o = s.ev(w[-1][1]); s.used.add((w[0], o)); return o // 4
        return F.Inst.atom(s, a, old)

def root(e):
    return e.path[:-1] if isinstance(e.path, tuple) and len(e.path) > 1 and isinstance(e.path[-1], tuple) and e.path[-1][0] == '[' else None

def pixels(I, p):
    """the image cells a polynomial depends on"""
    r = set()
    def go(x):
        if isinstance(x, P):
            for a in x.atoms(): go(a)
        elif isinstance(x, tuple) and x and x[0] == 'init':
            w = I.H.where.get(x) or x[1]
            if w[0] == ('img',): r.add(x)
            for y in w:
                if isinstance(y, tuple) and len(y) > 1 and isinstance(y[1], P): go(y[1])
        elif isinstance(x, tuple):
            for y in x: go(y)
    go(p)
    return r

def orders(I, H, R, what):
    """[(list, seq of its last store, number of entries)]: every fill must be a permutation of 0..entries-1"""
    out = []; evs = H.ev
    con = [e.seq for e in H.calls if e.path == 'connect']
    used = {}
    for e in H.calls:
        if e.path != 'connect': continue
        for a in e.v:
            for x in lists(H, a.base[0]): used.setdefault(x, []).append(e.seq)
    for rt, uses in used.items():
        last = 0
        for u in sorted(uses):
            fill = [e for e in evs if last < e.seq < u and root(e) == (rt,)]
            if not fill:
                if last == 0 or not out: R.bad('%s: %s is used for merging but never filled' % (what, pname((rt,)))); return None
                continue
            last = u
            lo = fill[0].seq; hi = fill[-1].seq
            r = permutation(I, H, R, what, rt, fill)
            if r is None: return None
            out.append((rt, hi, u, r))
    return out

def lists(H, t):
    r = set()
    def go(x):
        if isinstance(x, P):
            for a in x.atoms(): go(a)
        elif isinstance(x, tuple) and x and x[0] == 'init':
            w = H.where.get(x) or x[1]
            if w[0][0] == 'heap' or (w[0][0] == '*' and len(w) == 2): r.add(w[0])
            for y in w:
                if isinstance(y, tuple) and len(y) > 1 and isinstance(y[1], P): go(y[1])
        elif isinstance(x, tuple):
            for y in x: go(y)
    go(t)
    return r

def bin_of(H, e):
    """(bins, index) when the place of a store is the content of a bin"""
    q = e.path[-1][1].divc(4); a = q.single() if q is not None else None
    if not (isinstance(a, tuple) and a[0] == 'init'): return None
    w = H.where.get(a) or a[1]
    return (w[0], w[-1][1]) if len(w) == 2 and isinstance(w[-1], tuple) and w[-1][0] == '[' else None

def permutation(I, H, R, what, rt, fill):
    def bad(m, e=fill[0]): R.bad('%s: %s' % (what, m), e_file(R), e.line, e.fn, key='%s|%s' % (what.split(',')[0], m))
    R.ob('%s: %s lists every position once (line %s)' % (what, pname((rt,)), fill[0].line))
    k, trip = fill[0].loops[-1] if fill[0].loops else (None, None)
    if k is None or trip is None or any(not e.loops or e.loops[-1][0] != k for e in fill): bad('the list of positions is not filled by one loop over all positions'); return None
    if any(not isinstance(e.v, P) or e.v.single() != k for e in fill): bad('an entry of the list of positions is not the position of the iteration'); return None
    bins = {bin_of(H, e)[0] if bin_of(H, e) else None for e in fill}
    if len(bins) != 1 or None in bins: bad('positions are not placed by bins'); return None
    C = bins.pop()
    incs = [e for e in H.ev if root(e) == (C,) and e.loops and e.loops[-1][0] == k]
    ps = [e for e in H.calls if e.path == 'psum' and isinstance(e.v[0], Ptr) and e.v[0].base[0] == C and e.seq < fill[0].seq]
    if not ps: bad('the bins of the list of positions are not given their starts'); return None
    ps = ps[-1]
    cnt, b, e_ = ps.v[1], ps.v[1], ps.v[2]
    if not (isinstance(b, Ptr) and isinstance(e_, Ptr) and b.base == e_.base and b.off.const() == 0 and e_.off.const() == 1024 and ps.v[0].off.const() == 0): bad('the starts of the bins are not the running sum of all 256 counts', ps); return None
    zs = [e for e in H.calls if e.path == 'memset' and isinstance(e.v[0], Ptr) and e.v[0].base == b.base and e.seq < ps.seq]
    if not zs or zs[-1].v[1].const() != 0 or zs[-1].v[2].const() != 1024 or zs[-1].v[0].off.const() != 0: bad('the counts are not cleared'); return None
    counts = [e for e in H.ev if root(e) == b.base and zs[-1].seq < e.seq < ps.seq]
    if not counts: bad('the bins are not counted'); return None
    ck = {(e.loops[-1] if e.loops else None) for e in counts}
    if len(ck) != 1 or None in ck: bad('the bins are not counted by one loop'); return None
    k2, trip2 = ck.pop()
    for e in counts + incs:
        if not (isinstance(e.v, P) and isinstance(e.old, P) and (e.v - e.old).const() == 1): bad('a bin does not move on by one per position', e); return None
    env = I.env
    try:
        n = I.ev(trip); n2 = I.ev(trip2)
        if n != n2: bad('%s positions are counted but %s are listed' % (n2, n)); return None
        import itertools
        for j in range(n):
            I.env = dict(env); I.env[k] = j; I.env[k2] = j
            px = set()
            for e in fill + counts:
                for q, _ in e.bnd: px |= pixels(I, q)
                px |= pixels(I, e.path[-1][1])
            cells = sorted({I.ev((I.H.where.get(x) or x[1])[-1][1]) for x in px})
            if len(cells) > 4: raise load.Broken('%s: %d gray values decide the bin' % (what, len(cells)))
            for vals in itertools.product((0, 7, 255), repeat=len(cells)):
                v = dict(zip(cells, vals))
                for x in px: I.env[x] = v[I.ev((I.H.where.get(x) or x[1])[-1][1])]
                def at(kk, es):         # facts about a counter of a loop that is over do not count
                    o = I.env[k], I.env[k2]; 
                    if k != k2: del I.env[k2 if kk == k else k]
                    try: return [e for e in es if F.fires(I, e) is True]
                    finally: I.env[k], I.env[k2] = o
                hit = at(k, fill); cn = at(k2, counts); ic = at(k, incs)
                if len(hit) != 1 or len(cn) != 1 or len(ic) != 1: bad('position %d is listed %d times, counted %d times and moves %d bins' % (j, len(hit), len(cn), len(ic))); return None
                g = I.ev(bin_of(H, hit[0])[1]); g2 = I.ev(cn[0].path[-1][1]); g3 = I.ev(ic[0].path[-1][1])
                if not (g == g2 == g3): bad('position %d is counted in bin %s, placed by bin %s and moves bin %s' % (j, g2 // 4, g // 4, g3 // 4)); return None
    finally: I.env = env
    return n

def e_file(R): return R.where[0]

def opened(I, e):
    """the conditions of the event that depend on what the regions contain"""
    r = []
    for q, b in e.bnd:
        try: I.ev(q)
        except F.Unknown:
            ks = [a for a in atoms_deep(q) if isinstance(a, tuple) and a and a[0] == 'k' and a not in I.env]
            if not ks: r.append((q, b))
    return r
def atoms_deep(q):
    r = set()
    def go(x):
        if isinstance(x, P):
            for a in x.atoms(): r.add(a); go(a)
        elif isinstance(x, (tuple, frozenset)):
            for y in x: go(y)
    go(q)
    return r
def covers(cases):
    """do the cases, taken as independent conditions, cover everything?"""
    import itertools
    qs = sorted({q for c in cases for q, b in c}, key=repr); pts = []
    for q in qs:
        s = {0}
        for c in cases:
            for p, (lo, hi, ne) in c:
                if p == q:
                    for v in (lo, hi): s |= {v - 1, v, v + 1} if abs(v) != ai.INF else set()
                    for v in ne: s |= {v - 1, v, v + 1}
        pts.append(sorted(s))
    for vals in itertools.product(*pts):
        v = dict(zip(qs, vals))
        if not any(all(lo <= v[q] <= hi and v[q] not in ne for q, (lo, hi, ne) in c) for c in cases): return False
    return True

def instance(R, A, H, ps, cls, n, conn, what, h, w, merged):
    I = Inst({'H': h, 'W': w, 'S0': w + 5, 'S1': 1}, H); I.used = set()
    fl = R.where[0]
    def bad(m, e=None):
        key = '%s|%s' % (what, m)
        if e is None: R.bad('%s: %s' % (what, m), key=key)
        else: R.bad('%s: %s' % (what, m), fl, e.line, e.fn, key=key)
    fills = orders(I, H, R, what)
    if fills is None: return
    I.lists = {f[0] for f in fills}
    rects = []
    for d in ps: rects.append(tuple(I.ev(d[f]) for f in ('m_top', 'm_left', 'm_height', 'm_width', 'm_width_with_boundary')))
    owner = {}
    for i, (t, l, hh, ww, wb) in enumerate(rects):
        for y in range(hh):
            for x in range(ww): owner[(t + y, l + x)] = i
    def where(a, e):
        b = a.base[0]
        if b[0] == 'far': bad('connects a region that was merged away', e); return None
        if b[0] not in ('reg', 'regp') or len(a.base) > 1: raise load.Broken('%s: operand %r of the connection at line %s' % (what, a, e.line))
        if merged and b[0] == 'reg': bad('connects a region that was merged into another one, instead of the region it was merged into', e); return None
        if not merged and b[0] == 'regp': bad('connects the parent of a region', e); return None
        if b[1] == 'seam':
            i, side, o = b[2], b[3], I.ev(b[4])
            t, l, hh, ww, wb = rects[i]; y = o // 8
            if o % 8 or not 0 <= y < (hh if side < 2 else ww): bad('looks up seam record %s of patch %d side %d, which has %d' % (o / 8, i, side, hh if side < 2 else ww), e); return None
            return {0: (t + y, l), 1: (t + y, l + ww - 1), 2: (t, l + y), 3: (t + hh - 1, l + y)}[side]
        i, q = b[2], b[3]
        at = [x for x in q.atoms()]
        if len(at) != 1 or at[0][0] != 'init' or (q - P.a(at[0])).const() is None: raise load.Broken('%s: region index %r' % (what, q))
        wp = H.where.get(at[0]) or at[0][1]
        if wp[0][0] != 'pts' or wp[0][1] != i: bad('looks up a region of patch %d by a cell of %s' % (i, pname(wp)), e); return None
        t, l, hh, ww, wb = rects[i]
        o = I.ev(wp[-1][1])
        y, x = o // 4 // wb - 1, o // 4 % wb - 1
        if o % 4 or not (0 <= y < hh and 0 <= x < ww): bad('looks up cell %s of patch %d, which is no pixel of it' % (o / 4, i), e); return None
        return (t + y, l + x)
    opens = {}; envs = {}
    grown = {}; pairs = {}; comp = list(range(n)); omp = {}
    def fd(c, x):
        while c[x] != x: x = c[x]
        return x
    for key, env, e, f in F.expand(I, H.calls):
        if e.path not in ('grow', 'connect'): continue
        I.env = env
        if e.path == 'grow':
            i = e.v[0]
            if i is None: raise load.Broken('%s: patch that is grown at line %s' % (what, e.line))
            if i in grown: bad('patch %d is grown twice' % i, e); return
            if i >= n: bad('patch %d does not exist' % i, e); return
            if pairs: bad('patch %d is grown after merging has begun' % i, e); return
            grown[i] = e; tp = (i,)
        else:
            c = [where(a, e) for a in e.v]
            if None in c: return
            k = frozenset(c); tp = tuple(owner[x] for x in c)
            oc = opened(I, e)
            if k in pairs and pairs[k].line == e.line and opens[k] and oc and envs[k] == dict(env):       # the same call, reached on another path
                opens[k].append(oc)
                continue
            opens.setdefault(k, []).append(oc) if oc else opens.__setitem__(k, [])
            envs[k] = dict(env)
            if k in pairs: bad('pixels %s and %s are connected twice' % tuple(sorted(k)), e); return
            if any(x not in grown for x in tp): bad('patch %d is merged before it is grown' % next(x for x in tp if x not in grown), e); return
            pairs[k] = e
        for l, it in e.old:
            if it is None: raise load.Broken('%s: iteration of the parallel loop at line %s' % (what, l))
            o = omp.setdefault(l, {'c': list(comp), 'it': {}, 'own': {}})
            for x in tp:
                y = fd(o['c'], x)
                if o['own'].setdefault(y, it) != it: bad('patch %d is worked on by two iterations of the parallel loop at line %s' % (x, l), e); return
        if e.path == 'connect':
            for cc in [comp] + [omp[l]['c'] for l, it in e.old]:
                a, b = fd(cc, tp[0]), fd(cc, tp[1])
                if a != b:
                    for l, it in e.old:
                        if cc is omp[l]['c']: omp[l]['own'][b] = it
                    cc[a] = b
    I.env = {'H': h, 'W': w, 'S0': w + 5, 'S1': 1}
    R.ob('%s: %d patches grown' % (what, n))
    if set(grown) != set(range(n)): bad('patch %d is never grown' % (set(range(n)) - set(grown)).pop()); return
    for k, oc in opens.items():
        if oc and not covers(oc): bad('pixels %s and %s are connected only if %s' % (*sorted(k), ' and '.join('%r in [%s, %s]' % (q, lo, hi) for q, (lo, hi, ne) in oc[0])[:300]), pairs[k]); return
    straight = {frozenset((p, q)) for p in owner for q in ((p[0] + 1, p[1]), (p[0], p[1] + 1)) if q in owner and owner[p] != owner[q]}
    diag = {frozenset((p, q)) for p in owner for q in ((p[0] + 1, p[1] + 1), (p[0] + 1, p[1] - 1)) if q in owner and owner[p] != owner[q]}
    for k in straight: R.ob('%s, image %dx%d: %s' % (what, h, w, sorted(k)))
    miss = straight - set(pairs)
    if miss: m = sorted(map(sorted, miss))[0]; bad('pixels %s and %s lie on both sides of a seam and are never connected' % tuple(m)); return
    over = set(pairs) - straight - (diag if conn == 8 else set())
    if over: m = sorted(map(sorted, over))[0]; bad('pixels %s and %s are connected, but are no neighbours across a seam' % tuple(m), pairs[frozenset(m)]); return
    if conn == 8:
        miss = diag - set(pairs)
        if miss == diag and diag: R.bad('%s: with 8-connectivity, diagonal neighbours across seams are never connected' % cls.split('::')[-1], fl, R.where[1], cls + '::connect', key='%s|diagonal neighbours across seams' % cls.split('::')[-1])
        elif miss: m = sorted(map(sorted, miss))[0]; bad('diagonal neighbours %s and %s across a seam are not connected' % tuple(m))

def one(prog, R, task):
    cls, n, conn, gm, merged = task
    con, grow = find(prog, cls)
    R.where = (con['file'], con['line'], con['q'])
    what = '%s with %d patches, %d-connectivity, gray mask %d' % (cls.split('::')[-1], n, conn, gm)
    A, H, ps = run(prog, cls, n, CONN[conn], merged, gm)
    R.count('abstract steps', A.steps); R.count('calls that connect regions, by path', sum(e.path == 'connect' for e in H.calls))
    for h, w in NSIZES.get(n, ((3, 4),)):
        instance(R, A, H, ps, cls, n, conn, what, h, w, merged)
        if any('diagonal neighbours across' not in v['key'] for v in R.viol): return

def running(prog, R, f):
    """integral_array leaves the running sums of its source in its result"""
    R.where = (f['file'], f['line'], f['q']); N = 256
    H = F.Hooks('x'); A = SeamAI(prog, H, maxsteps=2000000); es = A.ti(f['params'][0]['t'].rstrip(' *'))['s']
    H.on = True; H.ev = []
    out = A.run(f['id'], T.initial(1, 0), argv=[Ptr((('dst',),), ZERO, True), Ptr((('src',),), ZERO, True), Ptr((('src',),), P.c(N * es), True)])
    if len(out) != 1: raise load.Broken('%s returns in %d ways for a source of %d entries' % (f['q'], len(out), N))
    st = out[0][0]
    for i in range(N + 1):
        R.ob('%s: entry %d of the running sum' % (f['q'], i))
        v = st.get((('dst',), ('[', P.c(i * es))))
        if not isinstance(v, P): raise load.Broken('%s: entry %d of the result is %r' % (f['q'], i, v))
        want = [P.c(k * es) for k in range(i)]
        got = []
        for a in v.atoms():
            w = H.where.get(a) or (a[1] if a[0] == 'init' else None)
            if not w or w[0] != ('src',): got = None; break
            got.append(w[-1][1])
        if got is None or sorted(g.const() for g in got) != [k.const() for k in want] or (v - sum_([P.a(a) for a in v.atoms()])).const() != 0:
            R.bad('entry %d of the running sum is not the sum of the %d entries before it' % (i, i)); return

def sum_(xs):
    r = ZERO
    for x in xs: r = r + x
    return r

CONN = {4: 0, 8: 1}
def analyse(prog, R):
    psum = [f for f in prog.funcs.values() if f['name'] == 'integral_array' and f.get('body') and len(f['params']) == 3 and 'type-parameter' not in f['params'][0]['t']]
    if not psum: raise load.Broken('no running sum')
    for f in psum: running(prog, R, f)
    ts = []
    for cls, ns in T.SUPPORTED.items():
        for n in sorted(ns, reverse=True):
            for conn in (4, 8):
                for gm in (0, 255):
                    for m in (0, 1):
                        if n == 1 and m: continue
                        ts.append((cls, n, conn, gm, m))
    parallel(prog, R, one, sorted(ts, key=lambda t: -t[1]))

def main():
    run_check('C05', lambda: load.load(files=T.FILES), analyse, 'other', minimum=500,
        explanation='Abstract interpretation of the build step of the fast detectors with symbolic image size; the connected cells are polynomials in the image size and loop counters, instantiated and compared with the neighbours across patch borders.')
if __name__ == '__main__':
    import sys
    if len(sys.argv) < 2: main(); sys.exit(0)
    import pickle, sys
    p = pickle.load(open('/tmp/prog.pkl', 'rb'))
    A, H, ps = run(p, NS + sys.argv[1], int(sys.argv[2]), 0, int(sys.argv[3]))
    for e in H.calls[:int(sys.argv[4])]: print(e.line, e.path, e.old, str(e.loops)[:200], str(e.v)[:400], str(e.bnd)[:600])
    print(len(H.calls), A.steps)
    for e in [x for x in H.ev if x not in H.calls][:40]: print(e.line, str(e.path)[:150], str(e.v)[:150], [str(k) for k,t in e.loops])
