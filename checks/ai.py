"""Disjunctive abstract interpreter over the exported syntax tree.

Numbers are polynomials over opaque atoms, pointers are (object path, byte offset) pairs, memory maps access paths to
abstract values.  Loops whose conditions stay decided are unrolled; every other loop is replaced by a fixpoint in which
everything the body may write is forgotten.  Repo callees are interpreted in place (so extracting a helper changes
nothing); all other calls are opaque.  No code is executed and no path condition is handed to a solver."""
from poly import P, ZERO, ONE
from ir import *

class Unsupported(Exception): pass

SKIP = object()
class Ptr:
    __slots__ = ('base', 'off', 'arr')
    def __init__(s, base, off=ZERO, arr=True): s.base = base; s.off = off; s.arr = arr
    def key(s): return ('ptr', s.base, s.off, s.arr)
    def __hash__(s): return hash(s.key())
    def __eq__(s, o): return isinstance(o, Ptr) and s.key() == o.key()
    def __repr__(s): return '&%s+%r' % (pname(s.base), s.off)
class Ref:
    __slots__ = ('path',)
    def __init__(s, path): s.path = path
    def __hash__(s): return hash(('ref', s.path))
    def __eq__(s, o): return isinstance(o, Ref) and s.path == o.path
    def __repr__(s): return 'ref ' + pname(s.path)
class Rec:
    """a record rvalue: explicit cells by suffix, everything else as marker says"""
    __slots__ = ('cells', 'mark', 'h')
    def __init__(s, cells, mark): s.cells = cells; s.mark = mark; s.h = None
    def __hash__(s):
        if s.h is None: s.h = hash((frozenset(s.cells.items()), s.mark))
        return s.h
    def __eq__(s, o): return isinstance(o, Rec) and s.cells == o.cells and s.mark == o.mark
    def __repr__(s): return 'rec(%r,%r)' % (s.cells, s.mark)
class Mark:
    """stored at a path: everything below is unknown content named by key (havoc or copy of initial contents)"""
    __slots__ = ('key',)
    def __init__(s, key): s.key = key
    def __hash__(s): return hash(('mark', s.key))
    def __eq__(s, o): return isinstance(o, Mark) and s.key == o.key
    def __repr__(s): return 'mark(%r)' % (s.key,)

def pname(p):
    out = []
    for x in p:
        if isinstance(x, tuple) and x and x[0] == '[': out.append('[%r]' % (x[1],))
        elif isinstance(x, tuple) and x and x[0] == '*': out.append('*' + pname(x[1]))
        elif isinstance(x, tuple): out.append(':'.join(str(y) for y in x[1:]) if x[0] != 'v' else str(x[-1]))
        else: out.append('.' + x.split('::')[-1])
    return ''.join(out)

_symc = {}
def symbolic(path):
    """does the path contain a non-constant array offset?"""
    if len(path) == 1: return False
    r = _symc.get(path)
    if r is None:
        r = _symc[path] = any(isinstance(x, tuple) and x[0] == '[' and x[1].const() is None for x in path[1:])
    return r

RANGE = {}   # atom -> (lo, hi)
INF = float('inf')

class St:
    __slots__ = ('mem', 'bnd', 'fact', 'ext', 'sym')
    def __init__(s): s.mem = {}; s.bnd = {}; s.fact = {}; s.ext = None; s.sym = {}
    def copy(s):
        n = St(); n.mem = {k: dict(v) for k, v in s.mem.items()}; n.bnd = dict(s.bnd); n.fact = dict(s.fact)
        n.sym = {k: set(v) for k, v in s.sym.items()}
        n.ext = s.ext.copy() if s.ext is not None and hasattr(s.ext, 'copy') else s.ext
        return n
    def sig(s):
        s.gc()
        return (frozenset((r, frozenset(d.items())) for r, d in s.mem.items() if d), frozenset(s.bnd.items()), frozenset(s.fact.items()),
                s.ext.sig() if hasattr(s.ext, 'sig') else s.ext)
    def gc(s):
        """drop facts about initial values nothing refers to any more (the cell was overwritten)"""
        dead = []
        for q in s.bnd:
            for a in q.atoms():
                path = None
                if isinstance(a, tuple) and a[0] == 'null' and a[1] and isinstance(a[1][0], tuple) and a[1][0][0] == '*': path = a[1][0][1]; val = Ptr
                elif isinstance(a, tuple) and a[0] == 'init': path = a[1]; val = P
                if isinstance(path, tuple) and path and isinstance(path[0], tuple):
                    v = s.mem.get(path[0], {}).get(path)
                    if v is None or isinstance(v, Mark): continue
                    if val is Ptr and isinstance(v, Ptr) and v.base == a[1]: continue
                    if val is P and isinstance(v, P) and a in v.atoms(): continue
                    # overwritten: is the old value still held elsewhere?
                    held = False
                    for d in s.mem.values():
                        for x in d.values():
                            if val is Ptr and isinstance(x, Ptr) and x.base == a[1]: held = True; break
                            if val is P and isinstance(x, P) and a in x.atoms(): held = True; break
                            if val is P and isinstance(x, Ptr) and a in x.off.atoms(): held = True; break
                        if held: break
                    if not held: dead.append(q); break
        for q in dead: del s.bnd[q]
    # ---- memory
    def get(s, path): return s.mem.get(path[0], {}).get(path)
    def put(s, path, v):
        s.mem.setdefault(path[0], {})[path] = v
        if symbolic(path): s.sym.setdefault(path[0], set()).add(path)
    def below(s, path):
        n = len(path)
        return [q for q in s.mem.get(path[0], {}) if len(q) >= n and q[:n] == path]
    def kill(s, path):
        d = s.mem.get(path[0])
        if d:
            for q in s.below(path): del d[q]

class AI:
    MAXS = 160
    MAXUNROLL = 700
    def __init__(s, prog, hooks=None, depth=12, maxsteps=400000):
        s.p = prog; s.h = hooks; s.depth = depth; s.n = 0; s.frames = []; s.steps = 0; s.maxsteps = maxsteps
        s.probing = 0; s.callstack = []; s.unresolved = set(); s.unrolled = 0
    # ---- fresh names
    def fresh(s, why='u', t=None):
        s.n += 1
        a = (why, s.n)
        s.setrange(a, t)
        return P.a(a)
    def setrange(s, a, t):
        ti = s.p.types.get(t) if t else None
        if ti:
            if ti.get('rn') == 'basicsys::b8': RANGE[a] = (0, 1); return
            if ti.get('int'):
                b = ti['bits']
                RANGE[a] = ((0, (1 << b) - 1 if b <= 16 else INF) if ti['int'] == 'u' else (-(1 << (b - 1)), (1 << (b - 1)) - 1) if b <= 16 else (-INF, INF))
                if t.replace('const ', '') == 'bool': RANGE[a] = (0, 1)
    # ---- types
    def ti(s, t): return s.p.types.get(t) or {}
    def isb8(s, t): return s.ti(t).get('rn') == 'basicsys::b8'
    def isrec(s, t):
        i = s.ti(t); return bool(i.get('rec')) and i.get('rn') != 'basicsys::b8'
    def isptr(s, t): return 'p' in s.ti(t)
    def size(s, t):
        v = s.ti(t).get('s', -1)
        return P.c(v) if v and v > 0 else P.a(('sizeof', t))
    # ---- memory with lazy initial contents
    def load(s, st, path, t):
        if s.h is not None and hasattr(s.h, 'on_load'): s.h.on_load(s, st, path, t)
        v = st.get(path)
        if v is not None and not isinstance(v, Mark):
            if isinstance(v, Ref): return v
            if s.isrec(t) and not isinstance(v, (Rec,)): pass
            else: return v
        if s.isrec(t): return s.snapshot(st, path)
        key = s.missing(st, path)
        v = s.h.on_init(s, st, path, key, t) if s.h is not None and hasattr(s.h, 'on_init') else None
        if v is None: v = s.initval(key, t)
        st.put(path, v)
        return v
    def missing(s, st, path):
        d = st.mem.get(path[0], {})
        for n in range(len(path), 0, -1):
            m = d.get(path[:n])
            if isinstance(m, Mark): return m.key + path[n:]
            if isinstance(m, Rec): return m.mark + path[n:]
        return path
    def initval(s, key, t):
        i = s.ti(t)
        if 'p' in i and not s.ti(i['p']).get('fun'): return Ptr((('*', key),), ZERO, True)
        if 'e' in i: return Ptr((('*', key),), ZERO, True)
        if key[0][0] == 'zero':
            return ZERO
        a = ('init', key)
        s.setrange(a, t)
        return P.a(a)
    def snapshot(s, st, path):
        n = len(path); cells = {}
        for q in st.below(path):
            if q != path: cells[q[n:]] = st.mem[q[0]][q]
        return Rec(cells, s.missing(st, path))
    def store(s, st, path, v, node=None, t=None):
        if s.h and hasattr(s.h, 'on_store'):
            r = s.h.on_store(s, st, node, path, v)
            if r is SKIP: return
            if r is not None: v = r
        st.kill(path)
        d = st.mem.get(path[0], {})
        cand = list(d) if symbolic(path) else [q for q in st.sym.get(path[0], ()) if q in d]
        if cand:
            for q in cand:
                if s.mayalias(path, q): d[q] = s.fresh('w') if not isinstance(d[q], Mark) else d[q]; 
        if symbolic(path):
            # cells of the array that have not been looked at yet may be the one that was written
            i = next(i for i in range(1, len(path)) if isinstance(path[i], tuple) and path[i][0] == '[' and path[i][1].const() is None)
            pre = path[:i]
            s.n += 1; st.put(pre, Mark((('h', s.n),)))
        if isinstance(v, Rec):
            st.put(path, Mark(v.mark))
            for k, x in v.cells.items(): st.put(path + k, x)
        else: st.put(path, v)
    def mayalias(s, p, q):
        if p == q: return False
        n = min(len(p), len(q)); diff = False
        for i in range(n):
            a, b = p[i], q[i]
            if a == b: continue
            if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == '[' and b[0] == '[':
                c = (a[1] - b[1]).const()
                if c is not None: return False
                if s.h is not None and hasattr(s.h, 'noalias') and s.h.noalias(a[1] - b[1]): return False
                diff = True
            else: return False
        return diff
    def havoc(s, st, path):
        st.kill(path); s.n += 1
        st.put(path, Mark((('h', s.n),)))
    # ---- conditions
    def norm(s, p):
        """p = q + c with a sign-normalised q"""
        c = p.m.get((), 0); q = P({k: v for k, v in p.m.items() if k != ()})
        if not q.m: return q, c, 1
        k = min(q.m, key=lambda k: (len(k), k))
        if q.m[k] < 0: return -q, c, -1
        return q, c, 1
    def rng(s, st, p):
        """interval of p"""
        q, c, sg = s.norm(p)
        if not q.m: return (c, c)
        if q in st.bnd: lo, hi, ne = st.bnd[q]
        else: lo, hi = -INF, INF
        # interval arithmetic over atoms
        l2 = h2 = 0
        for k, v in q.m.items():
            ml, mh = 1, 1
            from poly import atom_of
            for i in k:
                a = atom_of(i)
                pa = P({(i,): 1})
                al, ah = RANGE.get(a, (-INF, INF))
                if pa in st.bnd: al = max(al, st.bnd[pa][0]); ah = min(ah, st.bnd[pa][1])
                prods = [mul(x, y) for x in (ml, mh) for y in (al, ah)]
                ml, mh = min(prods), max(prods)
            l2 += min(mul(v, ml), mul(v, mh)); h2 += max(mul(v, ml), mul(v, mh))
        lo = max(lo, l2); hi = min(hi, h2)
        if sg > 0: return (lo + c, hi + c)
        return (-hi + c, -lo + c)
    def decide(s, st, op, p):
        """p op 0 -> True/False/None"""
        k = p.const()
        if k is not None: return {'==': k == 0, '!=': k != 0, '<': k < 0, '<=': k <= 0, '>': k > 0, '>=': k >= 0}[op]
        lo, hi = s.rng(st, p)
        q, c, sg = s.norm(p)
        ne = st.bnd.get(q, (0, 0, ()))[2]
        if op == '==' or op == '!=':
            r = None
            if lo > 0 or hi < 0 or (-c if sg > 0 else c) in ne: r = False
            elif lo == hi == 0: r = True
            if r is None: return None
            return r if op == '==' else not r
        if op == '<': return True if hi < 0 else False if lo >= 0 else None
        if op == '<=': return True if hi <= 0 else False if lo > 0 else None
        if op == '>': return True if lo > 0 else False if hi <= 0 else None
        if op == '>=': return True if lo >= 0 else False if hi < 0 else None
    def cmp(s, st, op, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return s.pcmp(st, op, a, b)
        if isinstance(a, P) and isinstance(b, P):
            d = a - b
            r = s.decide(st, op, d)
            if r is not None: return ONE if r else ZERO
            return P.a(('cmp', op, d))
        return s.fresh('cmp')
    def pcmp(s, st, op, a, b):
        if isinstance(a, P) and isinstance(b, Ptr): a, b = b, a; op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
        if isinstance(b, Ptr) and isinstance(a, Ptr):
            if a.base == b.base:
                return s.cmp(st, op, a.off, b.off)
            return P.a(('pcmp', op, a, b))
        if isinstance(a, Ptr) and isinstance(b, P) and b.const() == 0:
            n = s.isnull(st, a)
            if n is None:
                at = P.a(('null', a.base))
                RANGE[('null', a.base)] = (0, 1)
                return s.cmp(st, '!=' if op == '==' else '==', at, ZERO)
            return ONE if (n == (op == '==')) else ZERO
        return s.fresh('cmp')
    def isnull(s, st, a):
        if a.base[0][0] != '*': return False
        r = s.decide(st, '!=', P.a(('null', a.base)))
        return r
    def assume(s, st, v, truth):
        """refine st (in place) with v being true/false; False when infeasible"""
        if isinstance(v, Ptr): v = s.pcmp(st, '!=', v, ZERO)
        if not isinstance(v, P): return True
        k = v.const()
        if k is not None: return bool(k) == truth
        a = v.single()
        if isinstance(a, tuple) and a[0] == 'cmp':
            op, d = a[1], a[2]
        elif isinstance(a, tuple) and a[0] == 'not':
            return s.assume(st, a[1], not truth)
        elif isinstance(a, tuple) and a[0] == 'pcmp':
            if a in st.fact: return st.fact[a] == truth
            st.fact[a] = truth; return True
        else: op, d = '!=', v
        if not truth: op = {'==': '!=', '!=': '==', '<': '>=', '<=': '>', '>': '<=', '>=': '<'}[op]
        r = s.decide(st, op, d)
        if r is not None: return r
        q, c, sg = s.norm(d)
        lo, hi, ne = st.bnd.get(q, (-INF, INF, frozenset()))
        x = -c if sg > 0 else c      # d == 0  <=>  q == x
        if sg < 0: op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
        if op == '==': lo = hi = x
        elif op == '!=': ne = ne | {x}
        elif op == '<': hi = min(hi, x - 1)
        elif op == '<=': hi = min(hi, x)
        elif op == '>': lo = max(lo, x + 1)
        elif op == '>=': lo = max(lo, x)
        while lo in ne: lo += 1
        while hi in ne: hi -= 1
        if lo > hi: return False
        st.bnd[q] = (lo, hi, ne)
        if op == '==': s.substitute(st, d)
        return True
    def substitute(s, st, d):
        """d == 0 holds: eliminate one initial-value atom if it occurs linearly with coefficient +-1"""
        from poly import atom_of
        best = None
        for k, v in d.m.items():
            if len(k) == 1 and v in (1, -1):
                a = atom_of(k[0])
                if isinstance(a, tuple) and a[0] in ('init',) and sum(1 for kk in d.m if k[0] in kk) == 1:
                    pr = s.h.subst_pref(a) if s.h and hasattr(s.h, 'subst_pref') else 0
                    if best is None or pr > best[0]: best = (pr, a, v, k)
        if not best: return
        _, a, v, k = best
        rest = P({kk: x for kk, x in d.m.items() if kk != k})
        val = rest * (-1) if v == 1 else rest
        mp = {a: val}
        for r, dd in st.mem.items():
            for q, x in dd.items():
                if isinstance(x, P): dd[q] = x.subst(mp)
                elif isinstance(x, Ptr): dd[q] = Ptr(x.base, x.off.subst(mp), x.arr)
        if st.ext is not None and hasattr(st.ext, 'subst'): st.ext.subst(mp)
    # ---- running
    def tick(s):
        s.steps += 1
        if s.steps > s.maxsteps: raise Unsupported('step budget exceeded in ' + ' > '.join(s.callstack[-4:]))
    def dedupe(s, sts):
        if len(sts) <= 1: return sts
        seen = {}; out = []
        for x in sts:
            k = x.sig()
            if k not in seen: seen[k] = 1; out.append(x)
        if len(out) > s.MAXS: out = s.join(out)
        return out
    def join(s, sts):
        groups = {}
        for x in sts: groups.setdefault(x.ext.sig() if hasattr(x.ext, 'sig') else x.ext, []).append(x)
        out = []
        for g in groups.values():
            a = g[0].copy()
            roots = set().union(*[set(x.mem) for x in g])
            for r in roots:
                ds = [x.mem.get(r, {}) for x in g]
                d = {}
                for q in set().union(*[set(y) for y in ds]):
                    vs = [y.get(q) for y in ds]
                    if all(v == vs[0] for v in vs): d[q] = vs[0]
                    else: s.n += 1; d[q] = Mark((('h', s.n),))
                a.mem[r] = d
            for attr in ('bnd', 'fact'):
                cs = set(getattr(g[0], attr).items())
                for x in g[1:]: cs &= set(getattr(x, attr).items())
                setattr(a, attr, dict(cs))
            out.append(a)
        return out

    def run(s, fid, st=None, this=None, argv=None):
        """interpret a function from an arbitrary initial state; returns [(state, return value)]"""
        f = s.p.funcs[fid]
        st = st or St()
        fr = s.enter(f)
        if f.get('cls') and not f.get('static'):
            st.put((('v', fr, 'this'),), this or Ptr((('obj', 'this'),), ZERO, False))
        for i, pm in enumerate(f['params']):
            v = argv[i] if argv and i < len(argv) and argv[i] is not None else None
            key = (('parm', pm['n']),) if not (argv and i < len(argv)) else (('parm', i, pm['n']),)
            if v is None:
                if pm.get('ref'): v = Ref(key)
                elif s.isrec(pm['t']): v = Rec({}, key)
                else: v = s.initval(key, pm['t'])
            path = (('v', fr, pm['d']),)
            if isinstance(v, Rec): s.store(st, path, v)
            else: st.put(path, v)
        return s.body(f, st, fr)
    def enter(s, f):
        s.n += 1
        return s.n
    def body(s, f, st, fr):
        s.frames.append((fr, f)); s.callstack.append(f['q'])
        try:
            sts = [st]
            for i in f.get('inits', []):
                n2 = []
                for x in sts:
                    n2 += s.ctorinit(x, i, f)
                sts = n2
            r = []
            for x in sts:
                o = s.exec(f['body'], x)
                r += o.get('r', []) + [(y, None) for y in o.get('n', [])]
            return r
        finally:
            s.frames.pop(); s.callstack.pop()
    def ctorinit(s, st, i, f):
        e = i.get('e')
        tp = st.get((('v', s.frames[-1][0], 'this'),))
        out = []
        if e is None: return [st]
        if 'm' in i:
            path = tp.base + (i['m'],) if not tp.arr else tp.base + (('[', tp.off), i['m'])
            if e['k'] == 'Construct': return s.construct(st, e, path)
            for x, v in s.ev(e, st):
                if i.get('w') or e['k'] != 'ZeroInit': s.store(x, path, v if v is not None else s.fresh(), e)
                out.append(x)
            return out
        if e['k'] == 'Construct':
            return s.construct(st, e, tp.base if not tp.arr else tp.base + (('[', tp.off),))
        return [x for x, v in s.ev(e, st)]

    def construct(s, st, e, path):
        """run a constructor on the object at path; list of states"""
        fid = e['f']; a = e.get('c') or []
        if s.isb8(e['t']):
            if a:
                out = []
                for x, v in s.ev(a[0], st): s.store(x, path, s.tobool(v), e); out.append(x)
                return out
            s.store(st, path, ZERO, e); return [st]
        if (e.get('copy') or e.get('move')) and (e.get('impl') or fid not in s.p.funcs) and a:
            out = []
            for x, v in s.ev(a[0], st):
                if isinstance(v, Ref): v = s.load(x, v.path, e['t'])
                s.store(x, path, v if v is not None else s.fresh(), e); out.append(x)
            return out
        out = []
        for x, vs in s.evlist(a, st, s.p.funcs.get(fid)):
            h = s.callhook(x, e, fid, 'ctor', [Ref(path)] + vs)
            if h is not None: out += [y for y, _ in h]; continue
            f = s.p.funcs.get(fid)
            if f and f.get('body') and s.mayinline(fid):
                out += [y for y, _ in s.inline(f, x, Ptr(path, ZERO, False), vs)]
            else:
                cls = e['cls']
                if cls.startswith('std::vector') :
                    x.kill(path); x.put(path + ('#size',), vs[0] if vs and isinstance(vs[0], P) else ZERO)
                elif not a and f and f.get('implicit'): pass
                else:
                    x.kill(path)
                    x.put(path, Mark((('ctor', cls, tuple(s.akey(x, v) for v in vs)),)))
                out.append(x)
        return out
    def akey(s, st, v):
        if isinstance(v, Ref):
            c = st.get(v.path)
            if c is None: return s.missing(st, v.path)
            return c if not isinstance(c, Mark) else c.key
        return v
    def mayinline(s, fid):
        if len(s.frames) > s.depth: return False
        f = s.p.funcs.get(fid)
        if not f or not f.get('body'): return False
        if s.h and hasattr(s.h, 'inline'):
            r = s.h.inline(s, fid)
            if r is not None: return r
        if sum(1 for _, g in s.frames if g['id'] == fid) >= 2: return False
        return True
    def inline(s, f, st, this, vs):
        fr = s.enter(f)
        if this is not None: st.put((('v', fr, 'this'),), this)
        for i, pm in enumerate(f['params']):
            v = vs[i] if i < len(vs) else s.fresh()
            path = (('v', fr, pm['d']),)
            if pm.get('ref'):
                if not isinstance(v, Ref):
                    t = (('v', fr, 'tmp', i),); s.store(st, t, v if v is not None else s.fresh()); v = Ref(t)
                st.put(path, v)
            else:
                if isinstance(v, Ref): v = s.load(st, v.path, pm['t'])
                if isinstance(v, Rec): s.store(st, path, v)
                else: st.put(path, v if v is not None else s.fresh('a', pm['t']))
        r = s.body(f, st, fr)
        keep = []
        for x, v in r:
            # a returned record/ref into this frame must survive; cells of the frame are dropped otherwise
            if not (isinstance(v, Ref) and v.path[0][0] == 'v' and v.path[0][1] == fr):
                for root in [q for q in x.mem if q[0] == 'v' and q[1] == fr and not s.escapes(x, q)]: del x.mem[root]
            keep.append((x, v))
        if len(keep) > s.MAXS:
            keep = s.mergeret(keep)
        return keep
    def escapes(s, st, root): return False
    def mergeret(s, keep):
        g = {}
        for x, v in keep: g.setdefault(v, []).append(x)
        out = []
        for v, xs in g.items():
            for x in s.dedupe(xs): out.append((x, v))
        if len(out) > s.MAXS:
            xs = s.join([x for x, _ in out]); out = [(x, s.fresh('r')) for x in xs]
        return out

    # ---- statements.  outcome: dict n/b/c -> [states], r -> [(state, value)], g -> goto
    def exec(s, n, st):
        if n is None: return {'n': [st]}
        s.tick()
        k = n['k']; c = n.get('c') or []
        m = getattr(s, 'x_' + k, None)
        if m: return m(n, c, st)
        return {'n': [x for x, v in s.ev(n, st)]}
    def seq(s, stmts, sts):
        out = {'n': sts}
        for stm in stmts:
            cur = out['n']; out['n'] = []
            for x in cur:
                o = s.exec(stm, x)
                for kk, vv in o.items(): out.setdefault(kk, []).extend(vv)
            out['n'] = s.dedupe(out['n'])
            if not out['n']: 
                # labels after an unconditional jump are not supported precisely
                break
        return out
    def x_Block(s, n, c, st): return s.seq(c, [st])
    def x_Null(s, n, c, st): return {'n': [st]}
    def x_Decl(s, n, c, st):
        sts = [st]
        for v in c:
            n2 = []
            for x in sts: n2 += s.declvar(v, x)
            sts = n2
        return {'n': sts}
    def vpath(s, d): return (('v', s.frames[-1][0], d),)
    def declvar(s, v, st):
        path = s.vpath(v['d'])
        if v.get('static'): path = (('s', v['d']),)
        e = (v.get('c') or [None])[0]
        if v.get('static') and st.get(path) is not None: return [st]
        if e is None:
            st.kill(path); st.put(path, Mark((('undef', s.frames[-1][0], v['d']),)))
            return [st]
        if v.get('ref'):
            out = []
            for x, val in s.ev(e, st, lv=True):
                if not isinstance(val, Ref):
                    t = (('v', s.frames[-1][0], 'tmp', v['d']),); s.store(x, t, val if val is not None else s.fresh()); val = Ref(t)
                x.put(path, val); out.append(x)
            return out
        st.kill(path)
        if e['k'] == 'Construct': return s.construct(st, e, path)
        if e['k'] == 'InitList': return s.initlist(e, st, path)
        out = []
        for x, val in s.ev(e, st):
            if isinstance(val, Ref): val = s.load(x, val.path, v['t'])
            s.store(x, path, val if val is not None else s.fresh('d', v['t']), v); out.append(x)
        return out
    def initlist(s, e, st, path):
        i = s.ti(e['t']); sts = [st]
        c = e.get('c') or []
        if 'e' in i:
            es = s.size(i['e'])
            for j, x in enumerate(c):
                if x is None: continue
                n2 = []
                for y in sts:
                    pp = path + (('[', es * j),)
                    if x['k'] == 'InitList': n2 += s.initlist(x, y, pp)
                    elif x['k'] == 'Construct': n2 += s.construct(y, x, pp)
                    else:
                        for z, v in s.ev(x, y): s.store(z, pp, v if v is not None else s.fresh(), e); n2.append(z)
                sts = n2
            n = i.get('n', 0)
            if len(c) < n:
                for y in sts:
                    for j in range(len(c), min(n, 300)): y.put(path + (('[', es * j),), ZERO)
            return sts
        if i.get('rec'):
            r = s.p.records.get(i.get('rn')); fs = r['fields'] if r else []
            for f, x in zip(fs, c):
                n2 = []
                for y in sts:
                    pp = path + (f['d'],)
                    if x['k'] == 'InitList': n2 += s.initlist(x, y, pp)
                    elif x['k'] == 'Construct': n2 += s.construct(y, x, pp)
                    else:
                        for z, v in s.ev(x, y): s.store(z, pp, v, e); n2.append(z)
                sts = n2
            return sts
        if c:
            out = []
            for z, v in s.ev(c[0], st): s.store(z, path, v, e); out.append(z)
            return out
        s.store(st, path, ZERO, e); return [st]
    def cond(s, e, st):
        """([true states],[false states])"""
        if e is None: return [st], []
        x = e
        while x['k'] in ('ICast', 'Cast') and (x.get('ck') in ('IntegralToBoolean', 'UserDefinedConversion', 'PointerToBoolean', 'IntegralCast') or x['k'] == 'ICast') and x.get('c'): x = x['c'][0]
        if x['k'] == 'Bin' and x['op'] in ('&&', '||'):
            T, F = [], []
            t1, f1 = s.cond(x['c'][0], st)
            if x['op'] == '&&':
                F += f1
                for y in t1:
                    a, b = s.cond(x['c'][1], y); T += a; F += b
            else:
                T += t1
                for y in f1:
                    a, b = s.cond(x['c'][1], y); T += a; F += b
            return s.dedupe(T), s.dedupe(F)
        if x['k'] == 'Un' and x['op'] == '!':
            a, b = s.cond(x['c'][0], st); return b, a
        if x['k'] in ('MCall',) and x.get('fn', '').startswith('operator') and s.isb8((x['c'][0] or {}).get('t', '')) and 'unsigned char' in x['fn']:
            return s.cond(x['c'][0], st)
        if x['k'] == 'OpCall' and x.get('op') == '!' and s.isb8(x['c'][0].get('t', '')):
            a, b = s.cond(x['c'][0], st); return b, a
        T, F = [], []
        for y, v in s.ev(e, st):
            if isinstance(v, Ref): v = s.load(y, v.path, e['t'])
            if v is None: v = s.fresh('c')
            if s.h and hasattr(s.h, 'on_cond'): s.h.on_cond(s, y, e, v)
            z = y.copy()
            if s.assume(y, v, True): T.append(y)
            if s.assume(z, v, False): F.append(z)
        return T, F
    def x_If(s, n, c, st):
        if n.get('init'): st = [x for x in s.exec(n['init'], st)['n']][0]
        if n.get('cvar'): st = s.declvar(n['cvar'], st)[0]
        T, F = s.cond(c[0], st)
        out = {'n': []}
        for x in T: s.merge(out, s.exec(c[1], x))
        el = c[2] if len(c) > 2 else None
        for x in F: s.merge(out, s.exec(el, x) if el else {'n': [x]})
        out['n'] = s.dedupe(out['n'])
        return out
    def merge(s, a, b):
        for k, v in b.items(): a.setdefault(k, []).extend(v)
    def x_Return(s, n, c, st):
        if not c: return {'n': [], 'r': [(st, None)]}
        f = s.frames[-1][1]
        isref = s.ti(f['ret']).get('ref')
        r = []
        for x, v in s.ev(c[0], st, lv=bool(isref)):
            if isinstance(v, Ref) and not isref: v = s.load(x, v.path, f['ret'])
            r.append((x, v))
        if s.h and hasattr(s.h, 'on_return'):
            for x, v in r: s.h.on_return(s, x, n, v)
        return {'n': [], 'r': r}
    def x_Break(s, n, c, st): return {'n': [], 'b': [st]}
    def x_Continue(s, n, c, st): return {'n': [], 'c': [st]}
    def x_Throw(s, n, c, st): return {'n': []}
    def x_Goto(s, n, c, st): raise Unsupported('goto')
    def x_Label(s, n, c, st): return s.exec(c[0], st)
    def x_Case(s, n, c, st): return s.exec(c[-1], st)
    def x_Default(s, n, c, st): return s.exec(c[0], st)
    def x_OMP(s, n, c, st):
        if s.h and hasattr(s.h, 'on_omp'): s.h.on_omp(s, st, n)
        return s.exec(c[0], st) if c else {'n': [st]}
    def x_Switch(s, n, c, st):
        lin = []
        def flat(x):
            labels = []
            while isinstance(x, dict) and x['k'] in ('Case', 'Default'):
                labels.append(const(x['c'][0]) if x['k'] == 'Case' else 'default')
                x = x['c'][-1]
            lin.append((labels, x))
        body = c[1]
        for x in (body.get('c') or []) if body['k'] == 'Block' else [body]: flat(x)
        allc = [l for ls, _ in lin for l in ls if l != 'default']
        hasdef = any('default' in ls for ls, _ in lin)
        out = {'n': []}
        for y, v in s.ev(c[0], st):
            if isinstance(v, Ref): v = s.load(y, v.path, c[0]['t'])
            starts = []
            if isinstance(v, P):
                for i, (ls, _) in enumerate(lin):
                    for l in ls:
                        if l == 'default' or l is None: continue
                        z = y.copy()
                        if s.assume(z, s.cmp(z, '==', v, P.c(l)), True): starts.append((i, z))
                z = y.copy(); ok = True
                for l in allc:
                    if l is not None and not s.assume(z, s.cmp(z, '==', v, P.c(l)), False): ok = False; break
                if ok:
                    di = [i for i, (ls, _) in enumerate(lin) if 'default' in ls]
                    starts.append((di[0] if di else None, z))
            else:
                starts = [(i, y.copy()) for i, (ls, _) in enumerate(lin) if ls] + ([(None, y)] if not hasdef else [])
            for i, z in starts:
                if i is None: out['n'].append(z); continue
                o = s.seq([x for _, x in lin[i:]], [z])
                out['n'] += o.pop('b', [])
                s.merge(out, o)
        out['n'] = s.dedupe(out['n'])
        return out
    # ---- loops
    def x_For(s, n, c, st):
        sts = [st]
        if c[0] is not None:
            o = s.exec(c[0], st); sts = o['n']
        out = {'n': []}
        for x in sts: s.merge(out, s.loop(n, c[1], c[3], c[2], x, False))
        out['n'] = s.dedupe(out['n'])
        return out
    def x_While(s, n, c, st): return s.loop(n, c[0], c[1], None, st, False)
    def x_Do(s, n, c, st): return s.loop(n, c[1], c[0], None, st, True)
    def x_RangeFor(s, n, c, st):
        out = {'n': []}
        for x, v in s.ev(c[1], st, lv=True):
            base = v.path if isinstance(v, Ref) else (('rng', id(n)),)
            def body(y):
                vp = s.vpath(c[0]['d']); 
                el = base + (('[', s.fresh('it')),)
                if c[0].get('ref'): y.put(vp, Ref(el))
                else: s.store(y, vp, s.load(y, el, c[0]['t']))
                return s.exec(c[2], y)
            s.merge(out, s.fixloop(n, x, lambda y: ([y], [y.copy()]), body, lambda y: [y], False))
        return out
    def loop(s, n, cnd, body, inc, st, dowhile):
        if s.h and hasattr(s.h, 'on_loop'):
            r = s.h.on_loop(s, n, cnd, body, inc, st, dowhile)
            if r is not None: return r
        out = {'n': []}
        # decided unrolling
        if not dowhile:
            cur = [st]; it = 0; und = None
            work = [(st, 0)]
            while work:
                x, it = work.pop()
                if it > s.MAXUNROLL: und = x; s.merge(out, s.symloop(n, cnd, body, inc, x, False)); continue
                y0 = x.copy()
                T, F = s.cond(cnd, x)
                if T and F:
                    # undecided: abstract from here (a loop that was decided so far may still exit by break)
                    s.merge(out, s.symloop(n, cnd, body, inc, y0, False)); continue
                out['n'] += F
                for y in T:
                    o = s.exec(body, y)
                    nxt = o.pop('n', []) + o.pop('c', [])
                    out['n'] += o.pop('b', []); s.merge(out, o)
                    for z in s.dedupe(nxt):
                        for w in (s.incr(inc, z)): work.append((w, it + 1))
                if len(work) > s.MAXS:
                    its = max(i for _, i in work); work = [(w, its) for w in s.dedupe([w for w, _ in work])]
            out['n'] = s.dedupe(out['n'])
            return out
        return s.symloop(n, cnd, body, inc, st, True)
    def incr(s, inc, st):
        if inc is None: return [st]
        return [x for x, v in s.ev(inc, st)]
    def symloop(s, n, cnd, body, inc, st, dowhile):
        return s.fixloop(n, st, lambda y: s.cond(cnd, y), lambda y: s.exec(body, y), lambda y: s.incr(inc, y), dowhile, cnd)
    def fixloop(s, n, st, cond, body, incr, dowhile, cnd=None):
        # 1. which cells may change, and which of them change by the same amount every time round
        h, s.h = s.h, (s.h.probe() if s.h and hasattr(s.h, 'probe') else None)
        head = st.copy(); smear = set(); changed = {}       # cell -> ('rec', atom, delta) | 'havoc'
        start = s.n
        s.probing += 1
        try:
            for _ in range(40):
                base = head.copy()
                b = head.copy()
                T = [b] if dowhile else cond(b)[0]
                ends = []; brk = []
                for y in T:
                    o = body(y)
                    for z in o.get('n', []) + o.get('c', []): ends += incr(z)
                    brk += o.get('b', [])
                again = False
                touched = {}
                for z in ends:
                    for r, d in z.mem.items():
                        if r[0] == 'v' and r not in base.mem: continue
                        hd = base.mem.get(r, {})
                        for q, v in d.items():
                            if (q in hd and hd[q] != v) or (q not in hd and not s.sameinit(base, q, v)): touched.setdefault(q, [])
                        for q in hd:
                            if q not in d: touched.setdefault(q, [])
                for z in brk:
                    for r, d in z.mem.items():
                        if r[0] == 'v' and r not in base.mem: continue
                        hd = base.mem.get(r, {})
                        for q, v in d.items():
                            if (q in hd and hd[q] != v) or (q not in hd and not s.sameinit(base, q, v)): pass
                for q in sorted(touched, key=repr):
                    cut = next((i for i in range(1, len(q)) if isinstance(q[i], tuple) and s.varies(q[i][1], start)), None)
                    if cut is not None:
                        # a cell whose place depends on the iteration: the whole array is unknown at the head
                        pre = q[:cut]
                        if pre not in smear: smear.add(pre); s.havoc1(head, pre); again = True
                        continue
                    if any(q[:len(p)] == p for p in smear): continue
                    if q not in changed:
                        again = True
                        v = st.get(q)
                        if v is None and q in base.mem.get(q[0], {}): v = base.get(q)
                        if isinstance(v, (P, Ptr)) and not st.below(q + ('x',)):
                            s.n += 1; at = ('rec', s.n)
                            if isinstance(v, P):
                                changed[q] = ['rec', at, None, v]; head.put(q, P.a(at)); 
                            else:
                                changed[q] = ['rec', at, None, v]; head.put(q, Ptr(v.base, P.a(at), v.arr))
                        else:
                            changed[q] = 'havoc'; s.havoc1(head, q)
                    elif changed[q] != 'havoc':
                        _, at, dl, v0 = changed[q]
                        ds = set()
                        for z in ends:
                            v = z.get(q); hv = base.get(q)
                            if isinstance(v, P) and isinstance(hv, P): ds.add(v - hv)
                            elif isinstance(v, Ptr) and isinstance(hv, Ptr) and v.base == hv.base and v.arr == hv.arr: ds.add(v.off - hv.off)
                            else: ds.add(None)
                        d = ds.pop() if len(ds) == 1 else None
                        if d is not None and not s.varies(d, start): changed[q][2] = d
                        else:
                            changed[q] = 'havoc'; s.havoc1(head, q); again = True
                if not again: break
            else:
                for q in changed:
                    if changed[q] != 'havoc': changed[q] = 'havoc'; s.havoc1(head, q)
        finally: s.h = h; s.probing -= 1
        s.n += 1; k = ('k', s.n, n['l']); RANGE[k] = (0, INF); kp = P.a(k)
        recs = {}
        for q, r in changed.items():
            if r != 'havoc':
                _, at, d, v0 = r
                if d is None: s.havoc1(head, q); continue
                recs[q] = d
                head.put(q, v0 + kp * d if isinstance(v0, P) else Ptr(v0.base, v0.off + kp * d, v0.arr))
        trip = None
        if cnd is not None and not dowhile:
            vs = s.simplecond(cnd, head.copy())
            if vs is not None: trip = s.trip(vs, k)
        s.loops = getattr(s, 'loops', [])
        # 2. fixpoint over the rule's own state
        out = {'n': []}
        seen = {}; work = [head]
        rounds = 0
        def leave(F):
            if trip is not None and s.h is not None and getattr(s.h, 'split_trip', False) and not (hasattr(s.h, 'nonneg') and s.h.nonneg(trip)):
                G = []
                for x in F:
                    z = x.copy()
                    if not s.assume(z, P.a(('cmp', '<', trip)), True): G.append((x, trip)); continue
                    for r, d in z.mem.items():
                        for q, v in list(d.items()):
                            if isinstance(v, P): d[q] = v.subst({k: ZERO})
                            elif isinstance(v, Ptr): d[q] = Ptr(v.base, v.off.subst({k: ZERO}), v.arr)
                    out['n'].append(z)
                    if s.assume(x, P.a(('cmp', '>=', trip)), True): G.append((x, trip))
                F = [x for x, _ in G]
            for x in F:
                if trip is not None:
                    for r, d in x.mem.items():
                        for q, v in list(d.items()):
                            if isinstance(v, P): d[q] = v.subst({k: trip})
                            elif isinstance(v, Ptr): d[q] = Ptr(v.base, v.off.subst({k: trip}), v.arr)
                    if x.ext is not None and hasattr(x.ext, 'leave'): x.ext.leave(k, trip)
            return F
        if s.h and hasattr(s.h, 'on_enter_loop'): s.h.on_enter_loop(s, st, n, k, trip)
        s.loops.append((k, trip, n))
        try:
          while work:
            x = work.pop(); kk = x.ext.sig() if hasattr(x.ext, 'sig') else x.ext
            if kk in seen: continue
            seen[kk] = 1; rounds += 1
            if rounds > 40: raise Unsupported('loop fixpoint does not settle')
            if dowhile: T, F = [x], []
            else: T, F = cond(x)
            out['n'] += leave(F)
            for y in T:
                o = body(y)
                nxt = o.pop('n', []) + o.pop('c', [])
                out['n'] += o.pop('b', []); s.merge(out, o)
                for z in nxt:
                    for w in incr(z):
                        if dowhile:
                            T2, F2 = cond(w); out['n'] += F2; ws = T2
                        else: ws = [w]
                        for w2 in ws:
                            hh = head.copy(); hh.ext = w2.ext; work.append(hh)
        finally: s.loops.pop()
        out['n'] = s.dedupe(out['n'])
        return out
    def varies(s, p, start):
        """does p mention something that may differ between iterations (an atom born inside the loop)?"""
        def born(a):
            if isinstance(a, tuple):
                if a and a[0] in ('u', 'h', 'rec', 'k', 'w', 'call#', 'heap', 'd', 'a', 'r', 'c', 'it') and len(a) > 1 and isinstance(a[1], int): return a[1] > start
                if a and a[0] in ('call#',) and len(a) > 2 and isinstance(a[2], int): return a[2] > start
                if len(a) == 2 and isinstance(a[0], str) and isinstance(a[1], int): return a[1] > start
                return any(born(x) for x in a)
            if isinstance(a, P): return any(born(x) for x in a.atoms())
            if isinstance(a, Ptr): return born(a.base) or born(a.off)
            if isinstance(a, frozenset): return any(born(x) for x in a)
            return False
        return born(p)
    def simplecond(s, cnd, st):
        x = cnd
        if x is None: return None
        if x['k'] == 'Bin' and x['op'] in ('&&', '||'): return None
        h, s.h = s.h, getattr(s.h, 'purehooks', None)
        s.probing += 1
        try: r = s.ev(cnd, st)
        finally: s.h = h; s.probing -= 1
        if len(r) != 1 or not isinstance(r[0][1], P): return None
        return r[0][1]
    def trip(s, v, k):
        """number of iterations after which condition v turns false, k = 0, 1, ... (assumes it is not negative)"""
        a = v.single()
        if isinstance(a, tuple) and a[0] == 'cmp': op, d = a[1], a[2]
        elif a is not None or v.m: op, d = '!=', v
        else: return None
        cc = d.coeff(k)
        if cc is None: return None
        c, rest = cc; cv = c.const()
        if cv == 0: return None
        if op in ('>', '>='): c, rest, op = -c, -rest, {'>': '<', '>=': '<='}[op]
        elif op == '!=' :
            r = (-rest).divp(c) if len(c.m) == 1 else None
            return r
        if op not in ('<', '<='): return None
        # c*k + rest < 0 with c > 0
        cv = c.const()
        if op == '<=': rest = rest - ONE
        if cv == 1: return -rest
        if cv is not None and cv > 1:
            return (-rest).divc(cv)
        if cv is None and len(c.m) == 1: return (-rest).divp(c)
        return None
    def sameinit(s, st, q, v):
        # a cell materialised by a read: equal to what reading it in the head state would give
        if isinstance(v, P):
            a = v.single(); return isinstance(a, tuple) and a[0] == 'init' and a[1] == s.missing(st, q)
        if isinstance(v, Ptr): return v.base == (('*', s.missing(st, q)),) and v.off == ZERO
        return False
    def havoc1(s, st, q):
        s.n += 1; st.kill(q); st.put(q, Mark((('h', s.n),)))
    # ---- expressions: [(state, value)]
    def evlist(s, es, st, f=None):
        res = [(st, [])]
        for i, e in enumerate(es):
            lv = bool(f and i < len(f['params']) and f['params'][i].get('ref')) or (f is None)
            r2 = []
            for x, vs in res:
                for y, v in s.ev(e, x, lv=lv and bool(e.get('lv'))): r2.append((y, vs + [v]))
            res = r2
        return res
    def rval(s, st, v, t):
        if isinstance(v, Ref): return s.load(st, v.path, t)
        return v
    def tobool(s, v): return v
    def ev(s, n, st, lv=False):
        s.tick()
        k = n['k']
        if 'cv' in n and not lv and k not in ('Assign', 'CAssign', 'Call', 'MCall') and not (k == 'Un' and n['op'] in ('++', '--')): return [(st, P.c(n['cv']))]
        m = getattr(s, 'e_' + k, None)
        if m is None:
            # unknown node: evaluate children for effects
            sts = [st]
            for c in kids(n):
                sts = [y for x in sts for y, _ in s.ev(c, x)] if c['k'] not in ('Block',) else sts
            return [(x, s.fresh(k, n.get('t'))) for x in sts]
        return m(n, n.get('c') or [], st, lv)
    def e_Int(s, n, c, st, lv): return [(st, P.c(n['v']) if 'v' in n else P.a(('big', n['vs'])))]
    def e_Float(s, n, c, st, lv):
        v = n['v']
        if v == int(v) and abs(v) < 1 << 50: return [(st, P.c(int(v)))]
        return [(st, P.a(('flt', v)))]
    def e_Str(s, n, c, st, lv): return [(st, Ptr((('str', n['v']),), ZERO, True))]
    def e_DefArg(s, n, c, st, lv): return s.ev(c[0], st, lv)
    def e_SizeOf(s, n, c, st, lv): return [(st, s.size(n['at']))]
    def e_ZeroInit(s, n, c, st, lv):
        if s.isrec(n['t']): return [(st, Rec({}, (('zero',),)))]
        return [(st, ZERO)]
    def e_This(s, n, c, st, lv):
        v = st.get((('v', s.frames[-1][0], 'this'),))
        return [(st, v if v is not None else Ptr((('obj', 'this'),), ZERO, False))]
    def e_InitList(s, n, c, st, lv):
        if not s.isrec(n['t']) and 'e' not in s.ti(n['t']):
            return s.ev(c[0], st) if c else [(st, ZERO)]
        s.n += 1; t = (('v', s.frames[-1][0], 'il%d' % s.n),)
        return [(x, Ref(t)) for x in s.initlist(n, st, t)]
    def lvres(s, st, path, n, lv):
        if lv: return (st, Ref(path))
        if 'e' in s.ti(n['t']): return (st, Ptr(path, ZERO, True))
        if s.h and hasattr(s.h, 'on_load'):
            r = s.h.on_load(s, st, n, path)
            if r is not None: return (st, r)
        v = s.load(st, path, n['t'])
        return (st, v)
    def e_Ref(s, n, c, st, lv):
        dk = n['dk']
        if dk == 'enum': return [(st, P.c(n['cv']))]
        if dk == 'func': return [(st, P.a(('fn', n['d'])))]
        if dk == 'global':
            path = (('g', n['d']),)
            if n.get('cv') is None:
                g = s.p.globals.get(n['d'])
                if g and g['t'].startswith('const ') and g.get('c') and st.get(path) is None:
                    e = g['c'][0]
                    cv = const(e)
                    if s.isb8(g['t']) :
                        x = e
                        while x and x['k'] in ('Construct', 'ICast', 'Cast') and x.get('c'): x = x['c'][0]
                        cv = const(x)
                    if cv is not None and not s.isrec(g['t']): st.put(path, P.c(cv))
                    elif e['k'] == 'InitList': 
                        try: s.initlist(e, st, path)
                        except Exception: pass
        elif dk == 'slocal': path = (('s', n['d']),)
        else: path = s.vpath(n['d'])
        v = st.get(path)
        if v is None and dk in ('parm', 'local') and len(s.frames) > 1:
            # variable of an enclosing frame (lambda body)
            for fr, _ in reversed(s.frames[:-1]):
                if st.get((('v', fr, n['d']),)) is not None: path = (('v', fr, n['d']),); v = st.get(path); break
        if isinstance(v, Ref): path = v.path
        return [s.lvres(st, path, n, lv)]
    def objpaths(s, e, st, arrow):
        """evaluate the object expression of a member access -> [(state, path)]"""
        out = []
        if arrow:
            for x, v in s.ev(e, st):
                out.append((x, s.deref(x, v)))
        else:
            for x, v in s.ev(e, st, lv=True):
                if isinstance(v, Ref): out.append((x, v.path))
                elif isinstance(v, Rec):
                    s.n += 1; t = (('v', s.frames[-1][0], 'rv%d' % s.n),); s.store(x, t, v); out.append((x, t))
                else: out.append((x, (('rv', v if isinstance(v, P) else s.fresh()),)))
        return out
    def deref(s, st, v):
        if isinstance(v, Ref): 
            v = s.load(st, v.path, None) if st.get(v.path) is not None else Ptr((('*', s.missing(st, v.path)),), ZERO, True)
        if isinstance(v, Ptr):
            if not v.arr:
                if v.off == ZERO: return v.base
                return v.base + (('[', v.off),)
            return v.base + (('[', v.off),)
        if isinstance(v, P): return (('*', v), ('[', ZERO))
        return (('*', s.fresh('p')), ('[', ZERO))
    def e_Member(s, n, c, st, lv):
        if n.get('sm') or not c: return [s.lvres(st, (('g', n['d']),), n, lv)]
        if n.get('cv') is not None: return [(st, P.c(n['cv']))]
        out = []
        for x, base in s.objpaths(c[0], st, n.get('ar')):
            if n.get('ar') and s.h and hasattr(s.h, 'on_deref'): s.h.on_deref(s, x, n, base)
            path = base + (n['d'],)
            v = x.get(path)
            if isinstance(v, Ref): path = v.path
            out.append(s.lvres(x, path, n, lv))
        return out
    def elemsize(s, n): return s.size(n['t'])
    def e_Index(s, n, c, st, lv):
        out = []
        for x, b in s.ev(c[0], st):
            for y, i in s.ev(c[1], x):
                b2 = b; 
                if isinstance(b2, Ref): b2 = s.load(y, b2.path, c[0]['t'])
                if isinstance(i, Ptr) and isinstance(b2, P): b2, i = i, b2
                if isinstance(b2, P): b2 = Ptr((('*', b2),), ZERO, True)
                if not isinstance(i, P): i = s.fresh('ix')
                if not isinstance(b2, Ptr): b2 = Ptr((('*', s.fresh('p')),), ZERO, True)
                if s.h and hasattr(s.h, 'on_index'): s.h.on_index(s, y, n, b2, i)
                p2 = Ptr(b2.base, b2.off + i * s.elemsize(n), b2.arr)
                path = s.deref(y, p2) if (p2.arr or p2.off == ZERO) else p2.base + (('[', p2.off),)
                v = y.get(path)
                if isinstance(v, Ref): path = v.path
                out.append(s.lvres(y, path, n, lv))
        return out
    def e_ICast(s, n, c, st, lv):
        ck = n['ck']
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'Dynamic'):
            return s.ev(c[0], st, lv)
        if ck == 'NullToPointer': return [(x, ZERO) for x, v in s.ev(c[0], st)]
        if ck == 'UserDefinedConversion': return s.ev(c[0], st, lv)
        if ck == 'ToVoid': return s.ev(c[0], st, lv)
        if lv and ck in ('LValueBitCast',): return s.ev(c[0], st, lv)
        out = []
        for x, v in s.ev(c[0], st):
            if isinstance(v, Ref): v = s.load(x, v.path, c[0]['t'])
            out.append((x, s.conv(x, v, ck, n['t'], c[0]['t'])))
        return out
    e_Cast = e_ICast
    def conv(s, st, v, ck, t, t0):
        if not isinstance(v, P): 
            if ck in ('PointerToBoolean',) and isinstance(v, Ptr): return s.pcmp(st, '!=', v, ZERO)
            return v
        if ck == 'IntegralCast':
            i = s.ti(t)
            if i.get('int') and i['bits'] <= 16:
                k = v.const()
                if k is not None:
                    m = 1 << i['bits']; k %= m
                    if i['int'] == 's' and k >= m // 2: k -= m
                    return P.c(k)
                lo, hi = s.rng(st, v)
                b = i['bits']; L, H = (0, (1 << b) - 1) if i['int'] == 'u' else (-(1 << (b - 1)), (1 << (b - 1)) - 1)
                if lo >= L and hi <= H: return v
                a = ('conv', t, v); RANGE[a] = (L, H); return P.a(a)
            k = v.const()
            if k is not None and i.get('int') == 'u' and k < 0 and i['bits'] in (32, 64): return P.c(k % (1 << i['bits']))
            if k is not None and i.get('int') == 's' and i['bits'] == 32 and k >= 1 << 31: return P.c(k - (1 << 32))
            return v
        if ck in ('IntegralToBoolean', 'FloatingToBoolean'):
            a = v.single()
            if isinstance(a, tuple) and a[0] in ('cmp', 'pcmp', 'not'): return v
            return s.cmp(st, '!=', v, ZERO)
        if ck == 'PointerToBoolean': return s.cmp(st, '!=', v, ZERO)
        if ck == 'FloatingToIntegral':
            k = v.const()
            if k is not None: return v
            a = ('ftoi', v); s.setrange(a, t); return P.a(a)
        return v
    def e_Construct(s, n, c, st, lv):
        if s.isb8(n['t']):
            if not c: return [(st, ZERO)]
            return [(x, s.rval(x, v, c[0]['t'])) for x, v in s.ev(c[0], st)]
        s.n += 1; t = (('v', s.frames[-1][0] if s.frames else 0, 'tmp%d' % s.n),)
        return [(x, Ref(t)) for x in s.construct(st, n, t)]
    def e_Cond(s, n, c, st, lv):
        T, F = s.cond(c[0], st)
        out = []
        for x in T: out += s.ev(c[1], x, lv)
        for x in F: out += s.ev(c[2], x, lv)
        return out
    def e_Un(s, n, c, st, lv):
        op = n['op']
        if op == '&':
            out = []
            for x, v in s.ev(c[0], st, lv=True):
                if isinstance(v, Ref):
                    p = v.path
                    if p and isinstance(p[-1], tuple) and p[-1][0] == '[' and len(p) > 1: out.append((x, Ptr(p[:-1], p[-1][1], True)))
                    else: out.append((x, Ptr(p, ZERO, False)))
                else: out.append((x, s.fresh('addr')))
            return out
        if op == '*':
            out = []
            for x, v in s.ev(c[0], st):
                if isinstance(v, Ref): v = s.load(x, v.path, c[0]['t'])
                if s.h and hasattr(s.h, 'on_deref'): s.h.on_deref(s, x, n, v)
                path = s.deref(x, v)
                w = x.get(path)
                if isinstance(w, Ref): path = w.path
                out.append(s.lvres(x, path, n, lv))
            return out
        if op in ('++', '--'):
            out = []
            for x, r in s.ev(c[0], st, lv=True):
                if not isinstance(r, Ref): out.append((x, s.fresh())); continue
                v = s.load(x, r.path, n['t'])
                d = ONE if op == '++' else -ONE
                nv = s.padd(v, d, n['t'])
                s.store(x, r.path, nv, n)
                out.append((x, (v if n.get('post') else (Ref(r.path) if lv else nv))))
            return out
        out = []
        for x, v in s.ev(c[0], st):
            if isinstance(v, Ref): v = s.load(x, v.path, c[0]['t'])
            if op == '-' and isinstance(v, P): out.append((x, -v))
            elif op == '+': out.append((x, v))
            elif op == '!':
                if isinstance(v, Ptr): out.append((x, s.pcmp(x, '==', v, ZERO)))
                elif isinstance(v, P):
                    k = v.const()
                    a = v.single()
                    if k is not None: out.append((x, ZERO if k else ONE))
                    elif isinstance(a, tuple) and a[0] == 'cmp': out.append((x, s.cmp(x, {'==': '!=', '!=': '==', '<': '>=', '<=': '>', '>': '<=', '>=': '<'}[a[1]], a[2], ZERO)))
                    elif isinstance(a, tuple) and a[0] == 'pcmp': RANGE[('not', v)] = (0, 1); out.append((x, P.a(('not', v))))
                    else: out.append((x, s.cmp(x, '==', v, ZERO)))
                else: out.append((x, s.fresh('not')))
            elif op == '~' and isinstance(v, P):
                k = v.const(); out.append((x, P.c(~k) if k is not None else P.a(('~', v))))
            else: out.append((x, s.fresh(op, n['t'])))
        return out
    def padd(s, v, d, t):
        """v + d with pointer scaling"""
        if isinstance(v, Ptr):
            i = s.ti(t); ps = i.get('ps', i.get('es', 1))
            return Ptr(v.base, v.off + (d if isinstance(d, P) else s.fresh()) * (P.c(ps) if ps and ps > 0 else P.a(('psz', t))), v.arr)
        if isinstance(v, P) and isinstance(d, P):
            if s.isptr(t):
                return Ptr((('*', v),), d * P.c(s.ti(t).get('ps') or 1), True)
            return v + d
        return s.fresh('add')
    def e_Bin(s, n, c, st, lv):
        op = n['op']
        if op in ('&&', '||'):
            T, F = s.cond(n, st)
            return [(x, ONE) for x in T] + [(x, ZERO) for x in F]
        if op == ',':
            return [r for x, _ in s.ev(c[0], st) for r in s.ev(c[1], x, lv)]
        out = []
        for x, a in s.ev(c[0], st):
            for y, b in s.ev(c[1], x):
                a2 = s.load(y, a.path, c[0]['t']) if isinstance(a, Ref) else a
                b2 = s.load(y, b.path, c[1]['t']) if isinstance(b, Ref) else b
                if s.h is not None and hasattr(s.h, 'on_bin'):
                    r = s.h.on_bin(s, y, n, op, a2, b2)
                    if r is not None: out += r; continue
                out.append((y, s.binop(y, op, a2, b2, c[0]['t'], c[1]['t'], n['t'], n)))
        return out
    def binop(s, st, op, a, b, ta, tb, t, n=None):
        if op in ('==', '!=', '<', '<=', '>', '>='): return s.cmp(st, op, a, b)
        if op == '+':
            if isinstance(a, Ptr) or s.isptr(ta): return s.padd(a, b, ta)
            if isinstance(b, Ptr) or s.isptr(tb): return s.padd(b, a, tb)
            if isinstance(a, P) and isinstance(b, P): return a + b
        if op == '-':
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.base == b.base:
                    ps = s.ti(ta).get('ps', 1) or 1
                    d = (a.off - b.off).divc(ps) if ps > 0 else None
                    if d is not None: return d
                return P.a(('pdiff', a, b))
            if isinstance(a, Ptr): return s.padd(a, -b if isinstance(b, P) else s.fresh(), ta)
            if isinstance(a, P) and isinstance(b, P): return a - b
        if isinstance(a, P) and isinstance(b, P):
            if op == '*': return a * b
            ka, kb = a.const(), b.const()
            if op == '/':
                flt = s.ti(t).get('flt')
                if ka is not None and kb not in (None, 0):
                    if not flt: return P.c(int(abs(ka) // abs(kb)) * (1 if (ka >= 0) == (kb >= 0) else -1))
                    if ka % kb == 0: return P.c(ka // kb)
                if kb == 1: return a
                if kb and not flt:
                    d = a.divc(kb)
                    if d is not None: return d
                if a == b and kb != 0: return ONE
                if not flt:
                    d = a.divp(b)
                    if d is not None: return d
                x = ('fdiv' if flt else 'div', a, b)
                if not flt and s.rng(st, a)[0] >= 0 and s.rng(st, b)[0] >= 0:
                    hi = s.rng(st, a)[1]
                    RANGE[x] = (0, hi // kb if kb and hi != INF else INF)
                return P.a(x)
            if op == '%':
                if ka is not None and kb: return P.c(ka - kb * (int(abs(ka) // abs(kb)) * (1 if (ka >= 0) == (kb >= 0) else -1)))
                x = ('mod', a, b)
                if kb and s.rng(st, a)[0] >= 0: RANGE[x] = (0, abs(kb) - 1)
                return P.a(x)
            if ka is not None and kb is not None and kb >= 0:
                if op == '<<': return P.c(ka << kb)
                if op == '>>': return P.c(ka >> kb)
            if op == '<<' and kb is not None and 0 <= kb < 64: return a * (1 << kb)
            if op == '>>' and kb is not None and 0 <= kb < 64 and s.rng(st, a)[0] >= 0: return s.binop(st, '/', a, P.c(1 << kb), ta, tb, t)
            if ka is not None and kb is not None:
                if op == '&': return P.c(ka & kb)
                if op == '|': return P.c(ka | kb)
                if op == '^': return P.c(ka ^ kb)
            if op in ('|', '^') and kb == 0: return a
            if op in ('|', '^') and ka == 0: return b
            if op == '&' and (ka == 0 or kb == 0): return ZERO
            x = (op, a, b)
            if op == '&':
                for kk in (ka, kb):
                    if kk is not None and kk >= 0: RANGE[x] = (0, kk)
            elif op in ('^', '|') and all(s.rng(st, z)[0] >= 0 and s.rng(st, z)[1] <= 255 for z in (a, b)): RANGE[x] = (0, 255)
            else: s.setrange(x, t)
            return P.a(x)
        return s.fresh(op, t)
    def e_Assign(s, n, c, st, lv):
        out = []
        isr = s.isrec(n['t'])
        for x, v in s.ev(c[1], st, lv=isr):
            for y, l in s.ev(c[0], x, lv=True):
                if isinstance(v, Ref): v2 = s.load(y, v.path, c[1]['t'])
                else: v2 = v
                if v2 is None: v2 = s.fresh('v', n['t'])
                if isinstance(l, Ref):
                    s.store(y, l.path, v2, n)
                out.append((y, l if lv else v2))
        return out
    def e_CAssign(s, n, c, st, lv):
        out = []; op = n['op'][:-1]
        for x, v in s.ev(c[1], st):
            if isinstance(v, Ref): v = s.load(x, v.path, c[1]['t'])
            for y, l in s.ev(c[0], x, lv=True):
                if not isinstance(l, Ref): out.append((y, s.fresh())); continue
                old = s.load(y, l.path, n['t'])
                nv = s.binop(y, op, old, v, n['t'], c[1]['t'], n['t'], n)
                nv = s.conv(y, nv, 'IntegralCast', n['t'], n['t']) if s.ti(n['t']).get('int') else nv
                s.store(y, l.path, nv, n)
                out.append((y, l if lv else nv))
        return out
    def callhook(s, st, n, fid, name, vs):
        if s.h and hasattr(s.h, 'on_call'): return s.h.on_call(s, st, n, fid, name, vs)
        return None
    def e_Call(s, n, c, st, lv):
        fid = n.get('f'); f = s.p.funcs.get(fid) if fid else None
        out = []
        sts = [st]
        if not fid and n.get('callee'): sts = [x for x, _ in s.ev(n['callee'], st)]
        for st in sts:
          for x, vs in s.evlist(c, st, f):
            out += s.docall(x, n, fid, f, None, vs, lv)
        return out
    def e_OpCall(s, n, c, st, lv):
        fid = n.get('f'); f = s.p.funcs.get(fid) if fid else None
        if n.get('op') == '=' and s.isb8(c[0]['t']):
            out = []
            for x, v in s.ev(c[1], st):
                v = s.rval(x, v, c[1]['t'])
                for y, l in s.ev(c[0], x, lv=True):
                    if isinstance(l, Ref): s.store(y, l.path, v, n)
                    out.append((y, l if lv else v))
            return out
        if n.get('op') == '!' and s.isb8(c[0]['t']):
            return [(x, s.cmp(x, '==', s.rval(x, v, c[0]['t']), ZERO)) for x, v in s.ev(c[0], st)]
        if n.get('meth'): return s.methcall(n, c, st, lv, fid, f, False)
        out = []
        for x, vs in s.evlist(c, st, f): out += s.docall(x, n, fid, f, None, vs, lv)
        return out
    def e_MCall(s, n, c, st, lv):
        fid = n.get('f'); f = s.p.funcs.get(fid) if fid else None
        if s.isb8(c[0]['t']) and n.get('fn', '').startswith('operator'):
            return [(x, s.rval(x, v, c[0]['t'])) for x, v in s.ev(c[0], st)]
        return s.methcall(n, c, st, lv, fid, f, c[0]['t'].endswith('*') or n.get('ar'))
    def methcall(s, n, c, st, lv, fid, f, arrow):
        out = []
        arrow = s.isptr(c[0]['t'])
        for x, base in s.objpaths(c[0], st, arrow):
            a = c[1:]
            for y, vs in s.evlist(a, x, f):
                out += s.docall(y, n, fid, f, base, vs, lv)
        return out
    def docall(s, st, n, fid, f, obj, vs, lv):
        name = n.get('fn') or (n.get('op') and 'operator' + n['op']) or ''
        if obj is not None and isinstance(st.get(obj), Ref): obj = st.get(obj).path
        h = s.callhook(st, n, fid, name, ([Ref(obj)] if obj is not None else []) + vs)
        if h is not None: return h
        if fid and s.h and hasattr(s.h, 'resolve'):
            f2 = s.h.resolve(s, st, n, fid, obj)
            if f2: fid = f2; f = s.p.funcs.get(f2)
        if f and f.get('body') and s.mayinline(fid):
            this = None
            if obj is not None and not f.get('static'):
                if isinstance(obj[-1], tuple) and obj[-1][0] == '[' and len(obj) > 1: this = Ptr(obj[:-1], obj[-1][1], True)
                else: this = Ptr(obj, ZERO, False)
            r = s.inline(f, st, this, vs)
            return [(x, (v if (lv or not isinstance(v, Ref)) else s.loadval(x, v.path, n['t']))) for x, v in r]
        r = s.std(st, n, name, obj, vs, lv)
        if r is not None: return r
        s.unresolved.add(fid or name)
        # opaque: pure if const method or known pure; otherwise mutable arguments are forgotten
        const_m = n.get('cm')
        if obj is not None and not const_m and not (name == 'operator[]'): s.havoc(st, obj)
        ptypes = [p['t'] for p in f['params']] if f else None
        if ptypes is None and fid and '(' in fid:
            ptypes = split_types(fid[fid.index('(', fid.rfind('::') if '::' in fid and fid.rfind('::') < fid.find('(') else 0) + 1: fid.rfind(')')])
        for i, v in enumerate(vs):
            pt = ptypes[i] if ptypes and i < len(ptypes) else ''
            cst = 'const' in pt
            if isinstance(v, Ref) and not cst and ('&' in pt or not pt) : s.havoc(st, v.path)
            elif isinstance(v, Ptr) and not cst and pt.endswith('*') and not (v.base and v.base[0][0] == 'str'):
                if v.base[0][0] in ('v',) or len(v.base) > 0:
                    s.havoc(st, v.base if v.arr else v.base)
        key = None
        if obj is not None and const_m: key = ('call', name, obj_key(s, st, obj), tuple(s.akey(st, v) for v in vs))
        elif fid and name in PURE: key = ('call', name, tuple(s.akey(st, v) for v in vs))
        t = n['t']
        if key is None:
            s.n += 1; key = ('call#', name, s.n)
        i = s.ti(t)
        if 'p' in i: return [(st, Ptr((('*', (key,)),), ZERO, True))]
        if s.isrec(t):
            return [(st, Ref((key,)))]
        if n.get('lv'):
            return [(st, Ref((key,)) if lv else s.load(st, (key,), t))]
        s.setrange(key, t)
        return [(st, P.a(key))]
    def loadval(s, st, path, t):
        if 'e' in s.ti(t): return Ptr(path, ZERO, True)
        if s.isrec(t): return Ref(path)
        return s.load(st, path, t)
    def std(s, st, n, name, obj, vs, lv):
        """the few library operations whose meaning the analyses need"""
        cls = (n.get('cls') or '') if n['k'] == 'MCall' else ((n.get('f') or '').split('::operator')[0])
        if obj is not None and (cls.startswith('std::vector') or cls.startswith('std::array') or cls.startswith('std::deque')):
            sz = obj + ('#size',)
            if name in ('operator[]', 'at'):
                i = vs[0]
                if isinstance(i, Ref): i = s.load(st, i.path, 'unsigned long')
                if not isinstance(i, P): i = s.fresh('ix')
                if s.h and hasattr(s.h, 'on_index'): s.h.on_index(s, st, n, Ptr(obj, ZERO, True), i)
                path = obj + (('[', i * s.size(n['t'])),)
                return [(st, Ref(path)) if lv or s.isrec(n['t']) else s.lvres(st, path, n, False)]
            if name == 'size': return [(st, s.load(st, sz, 'unsigned long'))]
            if name == 'empty': return [(st, s.cmp(st, '==', s.load(st, sz, 'unsigned long'), ZERO))]
            if name == 'resize':
                v = vs[0] if isinstance(vs[0], P) else s.rval(st, vs[0], 'unsigned long')
                st.put(sz, v if isinstance(v, P) else s.fresh()); return [(st, None)]
            if name == 'clear': st.kill(obj); st.put(sz, ZERO); return [(st, None)]
            if name in ('reserve', 'shrink_to_fit'): return [(st, None)]
            if name in ('push_back', 'emplace_back'):
                v = vs[0] if vs else s.fresh(); old = s.load(st, sz, 'unsigned long')
                at = n['c'][1]['t'] if len(n.get('c') or []) > 1 else None
                es = s.size(at) if at else P.a(('es', cls))
                if isinstance(v, Ref): v = s.load(st, v.path, at)
                s.store(st, obj + (('[', old * es),), v if v is not None else s.fresh(), n)
                st.put(sz, old + ONE); return [(st, None)]
            if name == 'data' or name == 'begin': return [(st, Ptr(obj, ZERO, True))] if name == 'data' else None
            if name in ('front',):
                path = obj + (('[', ZERO),)
                return [(st, Ref(path)) if lv or s.isrec(n['t']) else s.lvres(st, path, n, False)]
            if name == 'back':
                path = obj + (('[', (s.load(st, sz, 'unsigned long') - ONE) * s.size(n['t'])),)
                return [(st, Ref(path)) if lv or s.isrec(n['t']) else s.lvres(st, path, n, False)]
            if name == 'swap' and isinstance(vs[0], Ref):
                o = vs[0].path; a = s.snapshot(st, obj); b = s.snapshot(st, o)
                st.kill(obj); st.kill(o)
                for pth, r in ((obj, b), (o, a)):
                    st.put(pth, Mark(r.mark))
                    for k, x in r.cells.items(): st.put(pth + k, x)
                return [(st, None)]
        if name in ('malloc', 'calloc', 'realloc'):
            v = vs[0] if name != 'calloc' else None
            if name == 'realloc': v = vs[1]
            if name == 'calloc' and isinstance(vs[0], P) and isinstance(vs[1], P): v = vs[0] * vs[1]
            root = s.heapname(st, n)
            st.put(root + ('#bytes',), v if isinstance(v, P) else s.fresh())
            if name == 'calloc': st.put(root, Mark((('zero',),) + root))
            return [(st, Ptr(root, ZERO, True))]
        if name == 'free': return [(st, None)]
        if name in ('memset',) and isinstance(vs[0], Ptr):
            p = vs[0]
            if isinstance(vs[1], P) and vs[1].const() == 0 and p.off == ZERO:
                st.kill(p.base); st.put(p.base, Mark((('zero',), p.base)))
            else: s.havoc(st, p.base)
            return [(st, vs[0])]
        if name in ('memcpy', 'memmove') and isinstance(vs[0], Ptr):
            s.havoc(st, vs[0].base); return [(st, vs[0])]
        if name in ('min', 'max') and len(vs) == 2:
            a, b = vs
            t = n['t']
            a = s.rval(st, a, t); b = s.rval(st, b, t)
            if isinstance(a, P) and isinstance(b, P):
                r = s.decide(st, '<=', a - b)
                if r is not None: return [(st, (a if r == (name == 'min') else b))]
                x = (name, frozenset((a, b)))
                la, ha = s.rng(st, a); lb, hb = s.rng(st, b); f = min if name == 'min' else max
                RANGE[x] = (f(la, lb), f(ha, hb))
                return [(st, P.a(x))]
        if name in ('reverse', 'fill') and len(vs) >= 2: vs = [s.load(st, v.path, a['t']) if isinstance(v, Ref) and not s.isrec(a['t']) else v for v, a in zip(vs, n['c'])]
        if name in ('reverse', 'fill') and len(vs) >= 2 and isinstance(vs[0], Ptr) and isinstance(vs[1], Ptr) and vs[0].base == vs[1].base:
            t = s.ti(n['c'][0]['t']).get('p'); d = (vs[1].off - vs[0].off).const(); z = s.size(t).const() if t else None
            if d is not None and z and d // z <= 1024:
                at = lambda i: vs[0].base + (('[', vs[0].off + P.c(i * z)),)
                if name == 'fill':
                    v = s.rval(st, vs[2], t)
                    if isinstance(v, P) and v.const() == 0 and vs[0].off == ZERO: st.kill(vs[0].base); st.put(vs[0].base, Mark((('zero',), vs[0].base)))
                    else:
                        for i in range(d // z): s.store(st, at(i), v, n)
                    return [(st, None)]
                for i in range(d // z // 2):
                    j = d // z - 1 - i
                    a = s.load(st, at(i), t); b = s.load(st, at(j), t)
                    s.store(st, at(i), b, n); s.store(st, at(j), a, n)
                return [(st, None)]
            s.havoc(st, vs[0].base); return [(st, None)]
        if name == 'swap' and len(vs) == 2 and isinstance(vs[0], Ref) and isinstance(vs[1], Ref):
            t = n['c'][0]['t']
            a = s.load(st, vs[0].path, t); b = s.load(st, vs[1].path, t)
            s.store(st, vs[0].path, b, n); s.store(st, vs[1].path, a, n); return [(st, None)]
        return None
    def heapname(s, st, n):
        site = s.frames[-1][1]['q'].split('::')[-1] + ':%d' % n['l']
        i = sum(1 for r in st.mem if r[0] == 'heap' and r[1] == site)
        return (('heap', site, i),)
    def e_New(s, n, c, st, lv):
        out = []
        cnt = [(st, ONE)]
        if c and c[0] is not None: cnt = s.ev(c[0], st)
        for x, v in cnt:
            v = s.rval(x, v, 'int')
            root = s.heapname(x, n)
            if isinstance(v, P): x.put(root + ('#bytes',), v * s.size(n['at']))
            p = Ptr(root, ZERO, bool(n.get('arr')))
            hk = s.callhook(x, n, None, 'new[]' if n.get('arr') else 'new', [p, v])
            if hk is not None: out += hk; continue
            if not n.get('arr') and len(c) > 1 and c[1] and c[1]['k'] == 'Construct':
                out += [(y, p) for y in s.construct(x, c[1], root)]
            else:
                sts = [x]
                if len(c) > 1 and c[1] and c[1]['k'] not in ('Construct',): sts = [y for y, _ in s.ev(c[1], x)]
                out += [(y, p) for y in sts]
        return out
    def e_Delete(s, n, c, st, lv):
        out = []
        for x, v in s.ev(c[0], st):
            hk = s.callhook(x, n, None, 'delete[]' if n.get('arr') else 'delete', [v])
            out += hk if hk is not None else [(x, None)]
        return out
    def e_Lambda(s, n, c, st, lv): return [(st, P.a(('lambda', id(n))))]
    def e_Var(s, n, c, st, lv): return [(x, None) for x in s.declvar(n, st)]
    def e_Throw(s, n, c, st, lv): return []

PURE = {'abs', 'fabs', 'sqrt', 'pow', 'exp', 'log', 'floor', 'ceil', 'strlen', 'tanh', 'sin', 'cos'}
def mul(a, b):
    if a == 0 or b == 0: return 0
    return a * b
def obj_key(s, st, obj):
    c = st.get(obj)
    if isinstance(c, Mark): return c.key
    return s.missing(st, obj)
def split_types(t):
    out = []; d = 0; cur = ''
    for ch in t:
        if ch in '<([': d += 1
        if ch in '>)]': d -= 1
        if ch == ',' and d == 0: out.append(cur); cur = ''
        else: cur += ch
    if cur: out.append(cur)
    return out
