"""Region growing examines exactly the neighbours of every pixel it visits.

One turn of the neighbour scan is a transfer function over the direction counter, which has at most nine values.  The
check interprets the scan loop of every flood-fill detector abstractly for each value: addresses stay polynomials in the
image size, gray values stay unknown, the examined cell is one of the kinds the patch filler writes."""
import os, load, ai
from ai import Ptr, Ref, Rec, Mark, pname
from poly import P, ZERO, ONE
from ir import *
from common import *
import c_tiling as T

NS = 'basicimg::'
# detector: (class, growing function, bits of a cell, fresh cells, frame and visited cells, thread counts)
I16 = dict(bits=16, fresh=(0, 7, 255), used=(-1, 7 - 0x8000, 255 - 0x8000 + 0x200))
V1 = dict(bits=16, fresh=(0, 100, 255, 0x4000 + 100), used=(-1, 100 - 0x8000, 100 + 0x4000 - 0x8000 + 0x200))
U32 = dict(bits=32, fresh=(0,), used=None)
DET = [
    dict(cls='img_fast_mser_v1', ns=(1, 2, 4, 8, 16, 32), conns=(0, 1), **V1),
    dict(cls='img_fast_mser_v2', ns=(1, 4, 32), conns=(0, 1), **U32),
    dict(cls='img_linked_linear_mser', ns=(1,), conns=(0, 1), **I16),
    dict(cls='img_ms_mser', ns=(1,), conns=(0, 1), **U32),
    dict(cls='img_opencv_mser', ns=(1,), conns=(0,), **I16),
    dict(cls='img_opencv3_mser', ns=(1,), conns=(0,), bits=32, fresh=(0,), used=(-(3 << 29), 1 << 29, (2 << 29) + 9)),
]

class Hooks(T.Hooks):
    """on top of the symbolic image: cells of the working image have one of the given values, loads of them are logged"""
    def __init__(s, bits, cls):
        T.Hooks.__init__(s); s.bits = bits; s.cls = cls; s.log = None; s.value = None; s.loopnode = None; s.captured = []
        s.cells = None
    def probe(s): return None
    def iscell(s, A, path, t):
        i = A.ti(t)
        if not i.get('int') or i['bits'] != s.bits: return False
        if len(path) > 2 and isinstance(path[-1], str) and path[-1].startswith(s.cls + '::'):     # cell held in a record
            return A.ti(path[-1].rsplit('::', 1)[0]).get('s') == s.bits // 8 and isinstance(path[-2], tuple) and path[-2][0] == '['
        if len(path) < 2 or not (isinstance(path[-1], tuple) and path[-1][0] == '['): return False
        r = path[0]
        return r[0] == '*' and s.cells is not None and path[:-1] in s.cells
    def on_init(s, A, st, path, key, t):
        if s.value is not None and s.iscell(A, path, t): return P.c(s.value)
        return None
    def on_loop(s, A, n, cnd, body, inc, st, dowhile):
        if s.loopnode is not None and n is s.loopnode:
            s.captured.append((st, A.frames[-1])); return {'n': []}
        return None
    def on_call(s, A, st, n, fid, name, vs):
        f = A.p.funcs.get(fid) if fid else None
        if s.loopnode is not None and f and any('mt_mat' in p['t'] for p in f['params']) and f.get('cls', '').startswith(NS): return [(st, None)]   # fills the working image
        if name in ('strcombine',) or (f and f['q'].startswith('basiclog::')): return [(st, A.fresh())]
        return T.Hooks.on_call(s, A, st, n, fid, name, vs)

def dirfields(prog, cls):
    """signed 32-bit tables with 4 to 9 entries in the detector or its patch record"""
    out = set()
    for rn, r in prog.records.items():
        if rn == cls or rn.startswith(cls + '::'):
            for f in r['fields']:
                if isdir(prog, f['t']): out.add(f['d'])
    return out

def isdir(prog, t):
    ti = prog.types.get(t) or {}
    e = prog.types.get(ti.get('e', ''), {})
    return 4 <= (ti.get('n') or 0) <= 9 and e.get('int') == 's' and e['bits'] == 32

def reads_dir(prog, node, fields, depth=4, seen=None):
    seen = seen or set()
    loc = set()
    for x in walk(node):
        if x['k'] == 'Index':
            for y in walk(x['c'][0]):
                if y['k'] == 'Member' and y.get('d') in fields: return True
                if y['k'] == 'Ref' and y.get('d') in seen_locals: return True
        if x['k'] in ('Call', 'MCall') and depth and x.get('f') in prog.funcs and x['f'] not in seen:
            seen.add(x['f']); g = prog.funcs[x['f']]
            if g.get('body') and reads_dir(prog, g['body'], fields, depth - 1, seen): return True
    return False
seen_locals = set()

def scanloop(prog, cls, fields):
    """(function, enclosing loop, scan loop): the innermost loop that looks cells up through the direction table"""
    best = None
    for f in prog.funcs.values():
        if f.get('cls') != cls or not f.get('body') or 'allocate' in f['q']: continue
        if any('mt_mat' in p['t'] and '&' in p['t'] for p in f['params']) and not any(x['k'] == 'Index' for x in walk(f['body'])): continue
        seen_locals.clear()
        for x in walk_fn(f):
            if not fields and x['k'] == 'Var' and isdir(prog, x['t']): seen_locals.add(x['d'])
            elif x['k'] == 'Var' and x.get('c') and any(y['k'] == 'Member' and y.get('d') in fields for y in walk(x)): seen_locals.add(x['d'])
        stack = []
        def rec(n, loops):
            nonlocal best
            if not isinstance(n, dict): return
            l2 = loops + [n] if n['k'] in ('For', 'While', 'Do') else loops
            if n['k'] in ('For', 'While', 'Do') and loops and reads_dir(prog, n, fields):
                if not any(m is not n and m['k'] in ('For', 'While', 'Do') and reads_dir(prog, m, fields) for m in walk(n)):
                    best = (f, loops[-1], n)
            for c in kids(n): rec(c, l2)
        rec(f['body'], [])
        if best: return best
    return None

def parts(n):
    """(condition, body, increment, do-while) of a loop node"""
    c = n['c']
    if n['k'] == 'For': return c[1], c[3], c[2], False
    if n['k'] == 'While': return c[0], c[1], None, False
    return c[1], c[0], None, True

def newloads(st0, st1, H, A):
    return [p for p in H.log]

def one(prog, R, task):
    d, n, ci = task
    cls = NS + d['cls']
    conns = [v for k, v in prog.enums['basicimg::img_Connected_Type']['consts'] if 'All' not in k]
    names = {v: k for k, v in prog.enums['basicimg::img_Connected_Type']['consts']}
    conn = sorted(conns)[ci]
    want = 8 if '8' in names[conn] else 4
    fields = dirfields(prog, cls)
    sl = scanloop(prog, cls, fields)
    if not sl: raise load.Broken('%s has no neighbour scan loop' % cls)
    f, outer, loop = sl
    alloc = prog.fn(cls + '::allocate_memory')
    if not alloc: raise load.Broken('no %s::allocate_memory' % cls)
    what = '%s, %d-connectivity, %d patch%s' % (d['cls'], want, n, 'es' if n > 1 else '')
    R.where = (f['file'], loop.get('l', f['line']), what)
    H = Hooks(d['bits'], cls); A = ai.AI(prog, H, maxsteps=3000000)
    st = T.initial(n, conn)
    for fd in prog.records[cls]['fields']:
        i = A.ti(fd['t'])
        if 'p' in i or (i.get('int') and '#' not in fd['d'] and fd['d'] not in (T.N_FIELD, T.CONN)):
            if fd['d'] not in (T.N_FIELD, T.CONN): st.put((T.THIS, fd['d']), ZERO)
    rs = A.run(alloc[0]['id'], st)
    if not rs: raise load.Broken('%s: allocation never returns' % cls)
    patchrec = cls + '::parallel_info' if cls + '::parallel_info' in prog.records else None
    for x0, _ in rs[:2]:
        pids = [None] if not patchrec else sorted({0, n // 2, n - 1})
        for pid in pids:
            scan(prog, R, A, H, d, cls, f, outer, loop, x0.copy(), pid, patchrec, want, what, fields)
        if patchrec: tables(R, A, x0, cls, patchrec, n, what, fields)

def tables(R, A, st, cls, patchrec, n, what, fields):
    """the other patches have the table of the first one, for their own row length"""
    es = A.ti(patchrec)['s']; ref = None
    for pid in range(n):
        b = (T.THIS, cls + '::m_pinfo', ('[', P.c(pid * es)))
        w = st.get(b + (patchrec + '::m_width',))
        if not isinstance(w, P): R.bad('%s: patch %d has no width' % (what, pid)); return
        tab = {}
        for q in st.below(b):
            if len(q) == len(b) + 2 and q[len(b)] in fields:
                v = st.get(q); e = None
                for k in (-1, 0, 1):
                    c = (v - (w + 2) * k).const() if isinstance(v, P) else None
                    if c is not None: e = (k, c)
                tab[q[len(b):]] = e
        if ref is None: ref = tab
        R.ob('%s: direction table of patch %d' % (what, pid))
        if tab != ref or None in tab.values(): R.bad('%s: the direction table of patch %d does not fit its row length' % (what, pid)); return

def scan(prog, R, A, H, d, cls, f, outer, loop, st, pid, patchrec, want, what, fields):
    argv = []
    for p in f['params']:
        t = p['t'].replace('const ', '').rstrip('& ').strip()
        if patchrec and p['t'].startswith(patchrec):
            es = A.ti(patchrec)['s']
            argv.append(Ref((T.THIS, cls + '::m_pinfo', ('[', P.c(pid * es)))))
        else: argv.append(None)
    # row step of the framed patch
    if patchrec:
        base = (T.THIS, cls + '::m_pinfo', ('[', P.c(pid * A.ti(patchrec)['s'])))
        rs = st.get(base + (patchrec + '::m_width',))
        if not isinstance(rs, P): R.bad('%s: the patch has no width' % what); return
        rs = rs + 2
    elif d['cls'] == 'img_opencv_mser': rs = None
    else: rs = None
    es = d['bits'] // 8
    H.cells = Any()
    # the frame marker of 32-bit cells is the member the filler stores
    fresh = d['fresh']; used = d['used']
    if used is None:
        b = [q for q in st.below((T.THIS,)) if isinstance(q[-1], str) and q[-1].endswith('::m_boundary_pixel') and len(q) == 2]
        v = st.get(b[0]) if b else None
        if not isinstance(v, P) or v.const() is None: raise load.Broken('%s: no definite frame value' % cls)
        used = (v.const(), v.const() + 5, v.const() & (v.const() - 1) or v.const())
    for val in fresh:
        if val == 256: continue
        H.value = val; H.log = None; H.captured = []; H.loopnode = loop; H.mute = False
        y = st.copy()
        rec = Recorder(H)
        A.h = rec
        try: A.run(f['id'], y, this=None, argv=argv)
        finally: A.h = H
        if not H.captured: raise load.Broken('%s: the scan loop is not reached' % what)
        if os.environ.get('DBG'):
            for x, fr in H.captured:
                for q in x.mem:
                    if q[0] == 'v' and q[1] == fr[0]: print(q, x.mem[q])
        R.count('scan loop entries', len(H.captured))
        for x, fr in H.captured[:3]:
            walkscan(prog, R, A, rec, d, x.copy(), fr, outer, loop, want, what, fresh, used, rs, es, val)
    H.loopnode = None

class Any:
    def __contains__(s, p): return not any(isinstance(x, str) and x.endswith('#bytes') for x in p)

class Recorder:
    """delegates to the hooks and logs cell loads"""
    def __init__(s, H): s.H = H; s.log = None
    def __getattr__(s, n): return getattr(s.H, n)
    def probe(s): return None
    skip = ()
    def on_load(s, A, st, path, t):
        if s.log is not None and s.H.iscell(A, path, t) and path not in s.skip: s.log.append(path)
    def on_init(s, A, st, path, key, t): return s.H.on_init(A, st, path, key, t)
    rs = None
    def noalias(s, d):
        if s.rs is not None:     # cells of one framed patch, whose rows hold at least three cells
            for x in (s.rs, -s.rs):
                k = (d - x).const()
                if k is not None and abs(k) <= s.es: return True
        return T.nonneg(d - 1) or T.nonneg(-d - 1)
    def on_store(s, A, st, node, path, v): return s.H.on_store(A, st, node, path, v)
    def on_loop(s, *a): return s.H.on_loop(*a)
    def on_call(s, *a): return s.H.on_call(*a)

def co(c): return c[-1][1] if isinstance(c[-1], tuple) else c[-2][1]
def cb(c): return c[:-1] if isinstance(c[-1], tuple) else c[:-2]
def at(v, c): return {v.base + (('[', v.off),) + (() if isinstance(c[-1], tuple) else c[-1:])}

def pointers(A, st, frame):
    """local pointer variables of the frame: {path: Ptr}"""
    return {q: v for q in list(st.mem) for qq, v in st.mem[q].items() if qq == (q,) and isinstance(v, Ptr) and q[0] == 'v' and q[1] == frame[0]
            for q in [(q,)]}

def turn(A, H, st, frame, loop, value):
    """one turn of the scan: (outcomes, finished states, cells examined per outcome)"""
    cnd, body, inc, dw = parts(loop)
    A.frames.append(frame); old = A.h; A.h = H
    H.H.value = value; node, H.H.loopnode = H.H.loopnode, None
    try:
        T_, F_ = A.cond(cnd, st.copy()) if cnd is not None and not dw else ([st.copy()], [])
        outs = []
        for y in T_:
            H.log = []
            o = A.exec(body, y)
            log, H.log = H.log, None
            for z in o.get('n', []) + o.get('c', []):
                for w in A.incr(inc, z): outs.append((w, log))
            if dw:
                o2 = []
                for w, lg in outs:
                    t2, f2 = A.cond(cnd, w); o2 += [(q, lg) for q in t2]; F_ += f2
                outs = o2
            F_ += o.get('b', [])
            if o.get('r'): F_ += [q[0] for q in o['r']]
        return outs, F_
    finally: A.frames.pop(); A.h = old; H.H.loopnode = node; H.log = None

def walkscan(prog, R, A, H, d, st, frame, outer, loop, want, what, fresh, used, rs, es, val):
    # the current pixel: the cell the first turn leaves from; found as the local pointer the scan moves
    ptrs = pointers(A, st, frame)
    cands = [(q, v) for q, v in ptrs.items() if es == psize(A, prog, frame[1], q) and v.arr]
    # sequence of examined cells when nothing is entered
    # cells the entry code already wrote or read: the current pixel
    H.skip = {p for p in allcells(A, H, st, d['bits'])}
    seq, trace = [], []
    y = st.copy(); i = 0
    while True:
        i += 1
        if i > 12: R.bad('%s: the neighbour scan does not come to an end' % what); return
        outs, fin = turn(A, H, y.copy(), frame, loop, used[0])
        if not outs:
            break
        if fin and outs:
            R.bad('%s: whether the neighbour scan ends depends on something else than the direction counter' % what); return
        if len(outs) != 1:
            R.bad('%s: a frame cell is not always treated as visited' % what); return
        z, log = outs[0]
        if len(set(log)) != 1:
            if len(log) == 0: R.bad('%s: turn %d of the neighbour scan examines no cell' % (what, i)); return
            R.bad('%s: turn %d of the neighbour scan examines %d cells' % (what, i, len(set(log)))); return
        seq.append(log[0]); trace.append(y); y = z
        for u in used[1:]:
            o2, f2 = turn(A, H, trace[-1].copy(), frame, loop, u)
            R.ob('%s: used cell %d at turn %d' % (what, u, i))
            if len(o2) != 1 or f2: R.bad('%s: a visited cell (%d) is entered again at turn %d of the scan' % (what, u, i)); return
    last = y
    # current pixel: pointer variables equal at every turn
    offs = None
    for q, v in cands:
        rel = []
        for c in seq:
            if cb(c) != v.base: rel = None; break
            o = (co(c) - v.off).divc(es)
            rel.append(o)
        if rel is None or any(o is None for o in rel): continue
        if offs is None: offs = (q, v, rel)
        # prefer the variable that the scan moves
        o2, _ = turn(A, H, trace[0].copy(), frame, loop, fresh[0])
        if any(w.get(q) != v for w, _ in o2): offs = (q, v, rel); break
    if offs is None: R.bad('%s: the examined cells are not addressed relative to the current pixel' % what); return
    q, v, rel = offs
    H.skip = at(v, seq[0])
    if rs is None: rs = rowstep(rel)
    if rs is None: R.bad('%s: the examined cells are not the neighbours of the current pixel (%s)' % (what, ', '.join(map(repr, rel)))); return
    H.rs = rs * es; H.es = es
    nb = [ONE, -ONE, rs, -rs]
    if want == 8: nb += [ONE + rs, ONE - rs, -ONE + rs, -ONE - rs]
    names = {**{ONE: 'right', -ONE: 'left', rs: 'below', -rs: 'above'}, **{ONE + rs: 'below right', ONE - rs: 'above right', -ONE + rs: 'below left', -ONE - rs: 'above left'}}
    for o in nb:
        R.ob('%s: neighbour %s examined' % (what, names[o]))
        if o not in rel: R.bad('%s: the %s neighbour of a pixel is never examined' % (what, names[o])); return
    for o in rel:
        R.ob('%s: offset %r is a neighbour' % (what, o))
        if o not in nb: R.bad('%s: the scan examines the cell at offset %r, which is no neighbour' % (what, o)); return
    R.ob('%s: each neighbour once' % what)
    if len(rel) != len(nb): R.bad('%s: the scan examines %d cells for %d neighbours' % (what, len(rel), len(nb))); return
    # entering a fresh cell at turn i
    for i, y in enumerate(trace):
        for fv in fresh:
            outs, fin = turn(A, H, y.copy(), frame, loop, fv)
            moved = [w for w, _ in outs if w.get(q) != v]; stay = [w for w, _ in outs if w.get(q) == v]
            R.ob('%s: fresh cell %d at turn %d' % (what, fv, i + 1))
            if fin or not outs: R.bad('%s: a fresh neighbour ends the scan at turn %d' % (what, i + 1)); return
            for w in moved + stay:
                c = w.get(seq[i])
                if not isinstance(c, P) : R.bad('%s: a neighbour entered or queued at turn %d is not marked as visited' % (what, i + 1)); return
                # examined again from the same direction: must count as visited
                z = y.copy(); z.put(seq[i], c)
                o2, f2 = turn(A, H, z, frame, loop, fv)
                calm = changed(trace[i + 1] if i + 1 < len(trace) else last, y)
                again = [u for u, _ in o2 if not changed(u, z) <= calm or u.get(seq[i]) != c]
                if len(o2) != 1 or again or f2: R.bad('%s: a neighbour entered or queued at turn %d can be entered a second time' % (what, i + 1)); return
            for w in stay:
                r = rest(A, H, w, frame, loop, used[0])
                if r is None or [x for x in r] != seq[i + 1:]:
                    R.bad('%s: after queueing a neighbour at turn %d the scan does not go on with the next direction' % (what, i + 1)); return
            for w in moved:
                nv = w.get(q)
                if not (isinstance(nv, Ptr) and nv.base == v.base and nv.off == co(seq[i])):
                    R.bad('%s: at turn %d the scan examines one cell and moves to another' % (what, i + 1)); return
                H.skip = at(nv, seq[0])
                r = rest(A, H, w, frame, loop, used[0])
                H.skip = at(v, seq[0])
                if r is None or sorted(((co(x) - nv.off).divc(es) for x in r if cb(x) == nv.base), key=repr) != sorted(nb, key=repr):
                    R.bad('%s: a pixel entered at turn %d of its predecessor does not have all its neighbours examined' % (what, i + 1)); return
                # the pixel left behind goes on with the next direction when it is taken up again
                z = w.copy(); z.put(q, v)
                r = resume(A, H, z, frame, outer, loop, used[0])
                if r is None: R.bad('%s: a pixel left at turn %d cannot be taken up again' % (what, i + 1)); return
                R.ob('%s: resumption after turn %d' % (what, i + 1))
                if r != seq[i + 1:]:
                    R.bad('%s: a pixel left at turn %d goes on with %d more cells, %d remain' % (what, i + 1, len(r), len(seq) - i - 1)); return

def allcells(A, H, st, bits):
    out = set()
    for r, dd in st.mem.items():
        for p, v in dd.items():
            if r[0] == '*' and len(p) >= 2 and isinstance(p[-1], tuple) and p[-1][0] == '[' and isinstance(v, P) and not any(isinstance(x, str) for x in p): out.add(p)
    return out
def changed(u, z):
    """paths whose value differs between two states"""
    out = set()
    for r in set(u.mem) | set(z.mem):
        a, b = u.mem.get(r, {}), z.mem.get(r, {})
        if a is b: continue
        for p in set(a) | set(b):
            if a.get(p) != b.get(p): out.add(p)
    return out
def psize(A, prog, f, q):
    d = q[0][2]
    for x in walk_fn(f):
        if x['k'] == 'Var' and x['d'] == d: return A.ti(x['t']).get('ps')
    for p in f['params']:
        if p['d'] == d: return A.ti(p['t']).get('ps')
def rowstep(rel):
    for o in rel:
        if o.const() is None and -o in rel and (o.m.get((), 0) >= 0):
            pos = [x for x in (o, -o) if all(v > 0 for k, v in x.m.items() if k != ())]
            if pos and pos[0] - ONE not in [None] and (pos[0].m.get((), 0) != 1 or True):
                # the middle one of three when diagonals are present
                c = pos[0]
                trio = [x for x in rel if x.const() is None and all(v > 0 for k, v in x.m.items() if k != ())]
                if len(trio) == 3: return sorted(trio, key=lambda x: x.m.get((), 0))[1]
                return c
    return None
def rest(A, H, st, frame, loop, value):
    out = []
    y = st.copy()
    for _ in range(14):
        outs, fin = turn(A, H, y, frame, loop, value)
        if not outs: return out
        if len(outs) != 1 or fin or len(set(outs[0][1])) != 1: return None
        y = outs[0][0]; out += outs[0][1][:1]
        if not outs[0][1]: return None
    return None
def resume(A, H, st, frame, outer, loop, value):
    """run the body of the enclosing loop up to the scan loop, then the rest of the scan"""
    A.frames.append(frame); old = A.h; A.h = H
    H.H.captured = []
    try: A.exec(parts(outer)[1], st)
    finally: A.frames.pop(); A.h = old
    cap = H.H.captured; H.H.captured = []
    if len(cap) != 1: return None
    return rest(A, H, cap[0][0], frame, loop, value)

def analyse(prog, R):
    import sys
    if len(sys.argv)>1: globals()['DET']=[d for d in DET if sys.argv[1] in d['cls']]
    parallel(prog, R, one, [(d, n, c) for d in DET for n in d['ns'] for c in d['conns']])

def main():
    fs = {'basicimg/src/%s.cpp' % d['cls'] for d in DET}
    run_check('C07', lambda: load.load(files=fs), analyse, 'other', minimum=int(__import__("os").environ.get("MINI","300")),
        explanation='Abstract interpretation of one turn of the neighbour scan loop of every flood-fill detector for every value of its direction counter, with symbolic image size.')
if __name__ == '__main__': main()
