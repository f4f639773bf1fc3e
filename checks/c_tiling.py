"""Patches of the fast detectors tile the image and own disjoint, allocated slices of the shared buffers."""
import sys, os
import load, ai
from ai import Ptr, Ref, Rec, Mark, pname
from poly import P, ZERO, ONE, atom_of
from ir import *
from common import *

THIS = ('obj', 'this')
FILES = {'basicimg/src/img_fast_mser_v1.cpp', 'basicimg/src/img_fast_mser_v2.cpp'}
SUPPORTED = {'basicimg::img_fast_mser_v1': (1, 2, 4, 8, 16, 32), 'basicimg::img_fast_mser_v2': (1, 4, 32)}
N_FIELD = 'basicimg::img_mser_base::m_parallel_thread_number'
CONN = 'basicimg::img_mser_base::m_connected_type'

H = P.a('H'); W = P.a('W'); S0 = P.a('S0'); S1 = P.a('S1')
for x in ('H', 'W', 'S0', 'S1'): ai.RANGE[x] = (0, ai.INF)

class Hooks:
    """image geometry is symbolic; malloc'ed blocks stored in a member become 'the buffer of that member'"""
    def __init__(s): s.pairs = {}; s.pend = {}
    def probe(s): return s
    def on_call(s, A, st, n, fid, name, vs):
        if fid and fid.startswith('basicmath::mt_mat::'):
            if name == 'size' and len(vs) == 1: return [(st, Ptr((('dims',),)))]
            if name == 'step' and len(vs) == 1: return [(st, Ptr((('steps',),)))]
            if name in ('size', 'step') and len(vs) == 2 and isinstance(vs[1], P) and vs[1].const() in (0, 1):
                return [(st, ((H, W) if name == 'size' else (S0, S1))[vs[1].const()])]
            if name == 'rows': return [(st, H)]
            if name == 'cols': return [(st, W)]
            if name == 'data' : return [(st, Ptr((('img',),)))]
        if name in ('malloc', 'calloc') and n.get('c'):
            fs = set()
            for e in n['c']:
                for x in walk(e):
                    if x['k'] in ('Member', 'Ref') and x.get('lv') and x.get('r'):
                        try:
                            for _, v in A.ev(x, st.copy(), lv=True):
                                if isinstance(v, Ref) and len(v.path) == 2 and v.path[0] == THIS: fs.add(v.path[1])
                        except ai.Unsupported: pass
            r = A.std(st, n, name, None, vs, False)
            if len(fs) == 1: s.pend[r[0][1].base] = fs.pop()
            return r
        return None
    def on_store(s, A, st, node, path, v):
        if isinstance(v, Ptr) and v.base[0][0] == 'heap' and len(path) == 2 and path[0] == THIS:
            b = st.get(v.base + ('#bytes',))
            if v.base in s.pend:
                es = A.ti(node['t']).get('ps') if node and node.get('t') else None
                s.pairs[path[1]] = (s.pend[v.base], es or 1)
            new = (('*', path),)
            st.mem.pop(new[0], None); st.put(new + ('#bytes',), b if b is not None else A.fresh())
            st.mem.pop(v.base[0], None)
            st.bnd.pop(P.a(('null', new)), None)
            return Ptr(new, ZERO, True)
        return None

def initial(n, conn):
    st = ai.St()
    st.put((THIS, N_FIELD), P.c(n)); st.put((THIS, CONN), P.c(conn))
    st.put((('dims',), ('[', ZERO)), H); st.put((('dims',), ('[', P.c(4))), W)
    st.put((('steps',), ('[', ZERO)), S0); st.put((('steps',), ('[', P.c(4))), S1)
    return st

def split_div(p):
    """rewrite X as r + d*q wherever floor(X/d) occurs, so that remainders are visibly non-negative"""
    for _ in range(4):
        todo = {}
        for a in p.atoms():
            if isinstance(a, tuple) and a[0] == 'div' and a[2].const() and a[1].single() is not None:
                todo.setdefault(a[1].single(), set()).add(a[2].const())
        mp = {}
        for x, ds in todo.items():
            if isinstance(x, tuple) and x[0] in ('quo', 'rem'): continue
            d = max(ds)
            if len(ds) > 1: continue
            q = ('quo', x, d); r = ('rem', x, d)
            ai.RANGE[q] = (0, ai.INF); ai.RANGE[r] = (0, d - 1)
            mp[('div', P.a(x), P.c(d))] = P.a(q); mp[x] = P.a(r) + P.a(q) * d
        if not mp: return p
        p = p.subst(mp)
    return p
def positive(p):
    from poly import atom_of
    for k, v in p.m.items():
        if v < 0: return False
        for i in k:
            lo, hi = ai.RANGE.get(atom_of(i), (-1, 0))
            if lo < 0: return False
    return True

# Quotients and remainders by constants: H = dh * qh + rh and W = dw * qw + rw for every pair of remainders is an exact case
# distinction under which they all become polynomials in qh, qw >= 0.
QH, QW = P.a('height quotient'), P.a('width quotient')
ai.RANGE['height quotient'] = ai.RANGE['width quotient'] = (0, ai.INF)
class Unknown(Exception): pass
def divisors(p, out):
    for a in p.atoms():
        if isinstance(a, tuple) and a[0] in ('div', 'mod') and isinstance(a[1], P):
            if not isinstance(a[2], P) or not a[2].const(): raise Unknown()
            for x in (H, W):
                if mentions(a[1], x.single()): out.setdefault(x, set()).add(abs(a[2].const()))
            divisors(a[1], out)
def mentions(p, x): return any(a == x or isinstance(a, tuple) and a[0] in ('div', 'mod') and mentions(a[1], x) for a in p.atoms())
def rebuilt(p, env):
    mp = {}
    for a in p.atoms():
        if a in env: mp[a] = env[a]
        elif isinstance(a, tuple) and a[0] in ('div', 'mod') and isinstance(a[1], P) and isinstance(a[2], P):
            n = rebuilt(a[1], env); d = a[2].const()
            if not d or d < 0 or not positive(n): raise Unknown()
            c = n.m.get((), 0); q = (n - c).divc(d)
            if q is None: raise Unknown()
            mp[a] = q + c // d if a[0] == 'div' else P.c(c % d)
    return p.subst(mp)
def cases(p):
    import math
    ds = {}; divisors(p, ds)
    lh, lw = math.lcm(*ds.get(H, {1})), math.lcm(*ds.get(W, {1}))
    if lh * lw > 4096: raise Unknown()
    for rh in range(lh):
        for rw in range(lw):
            yield rebuilt(p, {H.single(): QH * lh + rh, W.single(): QW * lw + rw})
def every(p, test):
    try: return all(test(x) for x in cases(p))
    except Unknown: return False
def nonneg(p): return positive(split_div(p)) or every(p, positive)
def spare(st, p):
    """p >= 0, possibly by what the path has established about a remembered size ("if (need > have)" grows the buffer)"""
    if nonneg(p): return True
    for q, (lo, hi, _) in st.bnd.items():
        for k, v in q.m.items():
            if len(k) != 1 or k not in p.m or p.m[k] % v: continue
            c = p.m[k] // v; e = lo if c > 0 else hi
            if e in (ai.INF, -ai.INF): continue
            if nonneg(p - q * c + c * int(e)): return True
    return False
def eq(a, b): return split_div(a - b).const() == 0 or every(a - b, lambda x: x.const() == 0)

def patches(A, st, cls, n):
    """the patch records: the vector member of the class whose element record has the patch fields"""
    F = lambda x: cls + '::parallel_info::' + x
    base = (THIS, cls + '::m_pinfo')
    vt = 'std::vector<%s::parallel_info>' % cls
    es = None
    out = []
    idx = sorted({q[2][1].const() for q in st.below(base) if len(q) > 2 and isinstance(q[2], tuple) and q[2][1].const() is not None})
    sz = st.get(base + ('#size',))
    recs = A.p.records[cls + '::parallel_info']
    es = A.ti(cls + '::parallel_info').get('s')
    for i in range(n):
        pp = base + (('[', P.c(i * es)),)
        d = {}
        for f in recs['fields']: d[f['n']] = st.get(pp + (f['d'],))
        d['#path'] = pp
        out.append(d)
    extra = [i for i in idx if i >= n * es or i % es]
    return out, sz, extra

def need(d, name, R, what):
    if name not in d: raise load.Broken('%s: patches have no field %s' % (what, name))
    v = d.get(name)
    if not isinstance(v, P): R.bad('%s: patch field %s is never given a value' % (what, name)); raise Unset()
    return v
class Unset(Exception): pass

def grid(ps, what, R):
    """check that rectangles tile [0,W)x[0,H): returns {(r,c): index} or None"""
    rects = [(need(d, 'm_left', R, what), need(d, 'm_top', R, what), need(d, 'm_width', R, what), need(d, 'm_height', R, what)) for d in ps]
    def chain(start, end, items, label):
        """items: {lo: size}; order them into a chain from start to end"""
        cur = start; order = []
        rest = dict(items)
        while rest:
            hit = [k for k in rest if eq(k, cur)]
            if not hit: R.bad('%s: no patch begins at %s %r (patches begin at %s)' % (what, label, cur, ', '.join(repr(k) for k in items))); return None
            order.append(hit[0]); cur = cur + rest.pop(hit[0])
        R.ob('%s: %s chain' % (what, label))
        if not eq(cur, end): R.bad('%s: the patches end at %s %r, not at the image border %r' % (what, label, cur, end)); return None
        return order
    rows = {}
    for i, (l, t, w, h) in enumerate(rects):
        k = next((k for k in rows if eq(k, t)), None)
        rows.setdefault(t if k is None else k, []).append(i)
    cells = {}
    hs = {}
    for t, ids in rows.items():
        for i in ids[1:]:
            if not eq(rects[i][3], rects[ids[0]][3]): R.bad('%s: patches %d and %d start in row %r but are %r and %r high' % (what, ids[0], i, t, rects[ids[0]][3], rects[i][3])); return None
        hs[t] = rects[ids[0]][3]
    order = chain(ZERO, H, hs, 'row')
    if order is None: return None
    ncol = None
    for r, t in enumerate(order):
        ids = rows[t]; ws = {}
        for i in ids:
            k = next((k for k in ws if eq(k, rects[i][0])), None)
            if k is not None: R.bad('%s: two patches cover column %r of row band %r' % (what, k, t)); return None
            ws[rects[i][0]] = rects[i][2]
        co = chain(ZERO, W, ws, 'column')
        if co is None: return None
        for c, l in enumerate(co):
            cells[(r, c)] = next(i for i in ids if rects[i][0] == l)
        if ncol is not None and ncol != len(co): R.bad('%s: row bands have different numbers of patches' % what); return None
        ncol = len(co)
    for d in ps:
        for f in ('m_width', 'm_height'):
            R.ob('%s: %s not negative' % (what, f))
            if not nonneg(d[f]): R.bad('%s: patch extent %r can be negative' % (what, d[f])); return None
    return cells

def slices(A, st, ps, what, R, cells, cls):
    """every shared-buffer pointer of every patch: length it must own, disjointness and capacity"""
    own = {}
    recs = {f['n']: f for f in A.p.records[cls + '::parallel_info']['fields']}
    rc = {i: k for k, i in cells.items()}
    nr = max(r for r, c in cells) + 1; nc = max(c for r, c in cells) + 1
    for i, d in enumerate(ps):
        w, h = d['m_width'], d['m_height']
        wb, hb = need(d, 'm_width_with_boundary', R, what), need(d, 'm_height_with_boundary', R, what)
        R.ob('%s: patch %d border' % (what, i))
        if not (nonneg(wb - w - 2) and nonneg(hb - h - 2)):
            R.bad('%s: patch %d keeps %r x %r cells for %r x %r pixels and a one pixel border' % (what, i, wb, hb, w, h)); return
        for name, f in recs.items():
            ti = A.ti(f['t'])
            if 'p' in ti:
                v = d.get(name)
                if not isinstance(v, Ptr): continue
                ps_ = ti['ps']
                if name == 'm_heap': ln = (w * h + 257) * ps_
                elif name.startswith('m_linked_points_end') : continue
                else: ln = wb * hb * ps_
                own.setdefault(v.base, []).append((v.off, ln, i, name))
            elif ti.get('n') == 4 and A.isptr(ti.get('e', '')):
                for side in range(4):
                    v = st.get(d['#path'] + (f['d'], ('[', P.c(side * 8))))
                    r, c = rc[i]
                    nb = (c > 0, c < nc - 1, r > 0, r < nr - 1)[side]
                    R.ob('%s: patch %d side %d' % (what, i, side))
                    sn = ('left', 'right', 'top', 'bottom')[side]
                    if isinstance(v, Ptr):
                        if not nb: R.bad('%s: patch %d records border regions on its %s side, where no patch follows' % (what, i, sn)); return
                        own.setdefault(v.base, []).append((v.off, (h if side < 2 else w) * 8, i, '%s[%d]' % (name, side)))
                    elif isinstance(v, P) and v.const() == 0:
                        if nb: R.bad('%s: patch %d records no border regions on its %s side, where another patch follows: the two are never merged' % (what, i, sn)); return
                    else:
                        R.bad('%s: patch %d has no definite border-region buffer on its %s side (%r)' % (what, i, sn, v)); return
    for base, l in own.items():
        cap = st.get(base + ('#bytes',))
        if cap is None:
            pair = A.h.pairs.get(base[0][1][1]) if base[0][0] == '*' else None
            R.bad('%s: %s has no known capacity' % (what, pname(base))); return
        for j, (o, ln, i, nm) in enumerate(l):
            R.ob('%s: %s of patch %d inside its buffer' % (what, nm, i))
            if not nonneg(o) or not spare(st, cap - o - ln):
                R.bad('%s: %s of patch %d needs bytes [%r, %r) of %s, which has %r bytes' % (what, nm, i, o, o + ln, pname(base), cap)); return
            for (o2, ln2, i2, nm2) in l[j + 1:]:
                R.ob('%s: %s of patches %d and %d disjoint' % (what, nm, i, i2))
                if not (nonneg(o2 - o - ln) or nonneg(o - o2 - ln2)):
                    R.bad('%s: %s of patch %d and %s of patch %d overlap: [%r,+%r) and [%r,+%r)' % (what, nm, i, nm2, i2, o, ln, o2, ln2)); return

def one(prog, R, task):
    cls, n = task
    f = prog.fn(cls + '::allocate_memory')
    if not f: raise load.Broken('no %s::allocate_memory' % cls)
    fid = f[0]['id']
    R.where = (f[0]['file'], f[0]['line'], '%s, %d patches' % (cls.split('::')[-1], n))
    # pass 1: a fresh object, to learn which member holds the size of which buffer
    hk = Hooks(); A = ai.AI(prog, hk)
    st = initial(n, 4)
    for fd in prog.records[cls]['fields']:
        i = A.ti(fd['t'])
        if 'p' in i or i.get('int'): st.put((THIS, fd['d']), ZERO)
    pairs = hk.pairs
    for x, _ in A.run(fid, st): remembered(A, x, cls, pairs)
    R.count('buffer/size member pairs', len(pairs))
    conns = sorted(v for k, v in prog.enums['basicimg::img_Connected_Type']['consts'])[:2]
    for conn in conns:
        hk = Hooks(); A = ai.AI(prog, hk, maxsteps=3000000)
        st = initial(n, conn)
        for F, (S, es) in pairs.items():
            sv = A.initval((THIS, S), 'unsigned int'); st.put((THIS, S), sv)
            st.put((('*', (THIS, F)), '#bytes'), sv * es)
        rs = A.run(fid, st)
        if not rs: raise load.Broken('%s: allocation has no normal exit for %d patches' % (cls, n))
        R.count('paths through allocation', len(rs)); R.count('abstract steps', A.steps)
        for x, _ in rs:
            what = '%s with %d patches' % (cls.split('::')[-1], n)
            ps, sz, extra = patches(A, x, cls, n)
            R.ob('%s: number of patches' % what)
            if not (isinstance(sz, P) and sz.const() == n): R.bad('%s: the patch list has %r entries' % (what, sz)); continue
            if extra: R.bad('%s: writes to a patch outside the list' % what); continue
            try:
                cells = grid(ps, what, R)
                if cells is None: continue
                slices(A, x, ps, what, R, cells, cls)
            except Unset: continue
            # capacity recorded in the members stays the capacity of the buffers
            for F, (S, es) in pairs.items():
                p = x.get((THIS, F)); sv = x.get((THIS, S))
                if p is None: continue
                R.ob('%s: %s remembers the size of %s' % (what, S.split('::')[-1], F.split('::')[-1]))
                cap = x.get(p.base + ('#bytes',)) if isinstance(p, Ptr) else None
                if cap is not None and isinstance(sv, P) and not eq(cap, sv * es):
                    R.bad('%s: %s says %r elements, but %s was allocated %r bytes' % (what, S.split('::')[-1], sv, F.split('::')[-1], cap))

def remembered(A, x, cls, pairs):
    """buffers whose size is not written as a member in the malloc call: the integer member that holds it after the run"""
    fs = [f['d'] for f in A.p.records[cls]['fields']]
    for d in fs:
        v = x.get((THIS, d))
        if d in pairs or not isinstance(v, Ptr) or v.base != (('*', (THIS, d)),): continue
        b = x.get(v.base + ('#bytes',)); f = next(f for f in A.p.records[cls]['fields'] if f['d'] == d)
        es = A.ti(f['t']).get('ps') or 1
        if b is None or b.const() is not None: continue
        c = [S for S in fs if isinstance(x.get((THIS, S)), P) and x.get((THIS, S)) * es == b]
        if c: pairs[d] = (max(c, key=lambda S: len(os.path.commonprefix([S, d]))), es)

def released(prog, R, cls):
    """an operation that gives a buffer back also forgets how large it was (otherwise the next run believes that it is still there)"""
    A = ai.AI(prog, Hooks()); pairs = {}
    for n in SUPPORTED[cls]:
        hk = Hooks(); B = ai.AI(prog, hk); st = initial(n, 4)
        for fd in prog.records[cls]['fields']:
            i = B.ti(fd['t'])
            if 'p' in i or i.get('int'): st.put((THIS, fd['d']), ZERO)
        
        for x, _ in B.run(prog.fn(cls + '::allocate_memory')[0]['id'], st): remembered(B, x, cls, hk.pairs)
        pairs.update(hk.pairs)
    for f in prog.fn(cls + '::clear_memory_cache'):
        if not f.get('body') or f['params']: continue
        R.where = (f['file'], f['line'], f['q'])
        st = initial(1, 4)
        for F, (S, es) in pairs.items():
            st.put((THIS, S), A.initval((THIS, S), 'unsigned int'))
            st.put((THIS, F), Ptr((('kept', F),), ZERO, False))
        for x, _ in A.run(f['id'], st):
            for F, (S, es) in pairs.items():
                p, sv = x.get((THIS, F)), x.get((THIS, S))
                R.ob('%s: %s and %s agree afterwards' % (f['q'], F.split('::')[-1], S.split('::')[-1])); R.count('releases')
                kept = isinstance(p, Ptr) and p.base == (('kept', F),)
                freed = kept and x.get(p.base + ('#freed',)) is not None
                if (not kept or freed) and not (isinstance(sv, P) and sv.const() == 0):
                    R.bad('%s is given back, but %s still says that it is there' % (F.split('::')[-1], S.split('::')[-1]))

def task(prog, R, t):
    (one if isinstance(t[1], int) else lambda p, r, t: released(p, r, t[0]))(prog, R, t)
def analyse(prog, R):
    parallel(prog, R, task, [(c, n) for c, ns in SUPPORTED.items() for n in ns] + [(c, None) for c in SUPPORTED])

def main():
    run_check('C04', lambda: load.load(files=FILES), analyse, 'proof', minimum=3000,
        explanation='Abstract interpretation of allocate_memory with symbolic image height and width and symbolic previous buffer sizes, for every supported thread count and both connectivities: the resulting patch rectangles, buffer slices and buffer capacities are polynomials in the image size, compared exactly.',
        assumptions=['image dimensions are non-negative and products do not overflow', 'malloc succeeds'])
if __name__ == '__main__': main()
