"""A detector that is used again does not see what the run before (or the pass before) left in it.

Upward-exposed reads of the members of every detector over a whole run, with the calls it makes followed into (virtual calls
resolved for the class).  A member that a run may change must not be read in a run before the run has set it."""
import sys, os
import load
from ir import *
from common import *

BASE = 'basicimg::img_mser_base'
EL = '[]'      # any element of an array or vector
PT = '->'      # whatever a pointer points to: not tracked
MAT = 'basicmath::mt_mat'
POOL = 'basicmath::mt_block_memory<'     # keeps its blocks for the next run; init() starts again from the first
VEC = ('std::vector', 'std::basic_string', 'std::set', 'std::map', 'std::list', 'std::deque')

class Sum:
    """effect of a function: members read before it sets them, members it sets on every path (with the constant, if known), members it may change"""
    __slots__ = ('ue', 'md', 'mod', 'ret')
    def __init__(s): s.ue = {}; s.md = {}; s.mod = {}; s.ret = None

DIMS = {}     # arrays with a few elements that are told apart: path -> number of elements
def el(x): return isinstance(x, str) and x[:1] == '['
def covered(p, defs, i=0):
    """every part of what is at p is set; the first i steps of p are decided"""
    while i < len(p):
        if i and p[:i] in defs: return True
        x = p[i]
        if el(x):
            rest = lambda y: covered(p[:i] + (y,) + p[i + 1:], defs, i + 1)
            if rest(x): return True
            if x != EL: return rest(EL)
            return bool(DIMS.get(p[:i])) and all(rest('[%d]' % j) for j in range(DIMS[p[:i]]))
        i += 1
    return p in defs
def under(a, b):
    """what is at a may be part of what is at b"""
    return len(a) >= len(b) and all(x == y or el(x) and el(y) and EL in (x, y) for x, y in zip(a, b))
def meet(*ds):
    r = dict(ds[0])
    for d in ds[1:]: r = {p: v if d[p] == v else None for p, v in r.items() if p in d}
    return r

class Eff:
    def __init__(s, prog, cls, config):
        s.p = prog; s.cls = cls; s.fixed = set(); s.memo = {}; s.stack = []; s.calls = 0; s.reads = 0; s.config = config
        s.chain = [cls]
        while prog.records.get(s.chain[-1], {}).get('bases'):
            b = prog.records[s.chain[-1]]['bases'][0]; b = b['d'] if isinstance(b, dict) else b
            s.chain.append(b)
    def ti(s, t): return s.p.types.get(t) or {}
    def final(s, fid):
        c = [fid] + list(s.p.all_over(fid))
        for k in s.chain:
            for g in c:
                f = s.p.funcs.get(g)
                if f and f.get('cls') == k: return g
        return fid
    def fn(s, fid, this, argv, cv=()):
        key = (fid, this, tuple(argv), tuple(cv))
        if key in s.memo: return s.memo[key]
        if fid in s.stack or len(s.stack) > 25: return Sum()
        f = s.p.funcs[fid]
        S = Sum(); s.stack.append(fid)
        fr = Frame(s, f, S, this, argv, cv)
        try:
            for i in f.get('inits') or []:
                if isinstance(i.get('e'), dict) and this is not None:
                    fr.ev(i['e'])
                    fr.write(this + (i.get('m') or '?',), i['e'], fr.cval(i['e']))
            ok = fr.ex(f['body'])
            ds = fr.rets + ([fr.defs] if ok else [])
            S.md = meet(*ds) if ds else {}
            rs = set(fr.retv)
            S.ret = rs.pop() if len(rs) == 1 else None
        finally: s.stack.pop()
        s.memo[key] = S
        return S

class Frame:
    def __init__(s, E, f, S, this, argv, cv):
        s.E = E; s.f = f; s.S = S; s.this = this; s.defs = {}; s.env = {}; s.rets = []; s.retv = []; s.loops = []; s.cont = []; s.k = {}; s.mute = (); s.refs = set(); s.gotos = {}; s.log = []; s.guards = None; s.none = set()
        for p, a in zip(f.get('params') or [], argv):
            own = a and a[0] == '@'      # a pointer variable of the caller, by reference
            s.env[p.get('d') or p.get('n')] = a[1:] if own else a
            if own: continue
            if '&' in p['t'] or p.get('ref'): s.refs.add(p.get('d') or p.get('n'))
        for p, a in zip(f.get('params') or [], cv):
            if a is not None: s.k[p.get('d') or p.get('n')] = a
        # a parameter or local that is assigned anywhere after its declaration has no constant
        s.varies = {}
        for x in walk(f['body']):
            if x['k'] in ('Assign', 'CAssign') or x['k'] == 'Un' and x['op'] in ('++', '--', '&'):
                l = strip(x['c'][0])
                if l['k'] == 'Ref': s.varies[l.get('d') or l['n']] = s.varies.get(l.get('d') or l['n'], 0) + 1
    # ---- constants
    def cval(s, n):
        c = const(n)
        if c is not None: return c
        n = strip(n)
        if not isinstance(n, dict): return None
        k = n['k']; c = n.get('c') or []
        if k == 'Null': return 0
        if k == 'Ref': return s.k.get(n.get('d') or n['n'])
        if k in ('Member', 'Index'):
            p = s.quiet(n)
            if k == 'Index' and p and len(p) == 3 and p[:2] + ('#',) in s.E.config:
                i = s.cval(c[1]); return None if i is None else s.E.config.get(p[:2] + ('#', i))
            return s.E.config.get(p) if p else None
        if k == 'Bin':
            op = n['op']
            if op in ('==', '!=') and {strip(x)['k'] for x in c} == {'This', 'Un'}: return int(op == '!=')      # never the same object
            a, b = s.cval(c[0]), s.cval(c[1])
            if op == '&&': return 0 if a == 0 or b == 0 else None if a is None or b is None else 1
            if op == '||': return 1 if a or b else None if a is None or b is None else 0
            if a is None or b is None: return None
            try: return int({'==': a == b, '!=': a != b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b, '+': a + b, '-': a - b, '*': a * b, '^': a ^ b, '&': a & b}[op])
            except KeyError: return None
        if k == 'Un' and n['op'] == '!' or k == 'OpCall' and n.get('op') == '!':
            a = s.cval(c[0]); return None if a is None else int(not a)
        if k == 'Cond':
            a = s.cval(c[0]); return None if a is None else s.cval(c[1] if a else c[2])
        if k in ('MCall', 'Construct', 'OpCall') and len(c) == 1 and ((n.get('fn') or '').startswith('operator') or k == 'Construct'): return s.cval(c[0])
        return None
    # ---- accesses
    def read(s, p, n):
        if p is None or PT in p or p in s.mute: return
        s.E.reads += 1
        if not covered(p, s.defs): s.S.ue.setdefault(p, (s.f['file'], n.get('l', s.f['line']), s.f['q']))
    def write(s, p, n, v=None):
        if p is None or PT in p: return
        for q in [q for q in s.defs if q[:len(p)] == p]: s.defs[q] = None
        for i in range(1, len(p)):
            if p[:i] in s.defs: s.defs[p[:i]] = None
        s.defs[p] = v; s.log.append(p); s.S.mod.setdefault(p, (s.f['file'], n.get('l', s.f['line']), s.f['q']))
    # ---- statements; True when control falls through
    def ex(s, n):
        if n is None: return True
        k = n['k']; c = n.get('c') or []
        if k == 'Block':
            live = True
            for x in c:
                if not live and not (x['k'] == 'Label' and s.gotos.get(x['n'])): continue
                if x['k'] == 'Label' and s.gotos.get(x['n']):
                    ds = s.gotos.pop(x['n']) + ([s.defs] if live else []); s.defs = meet(*ds)
                live = s.ex(x)
            return live
        if k == 'Null': return True
        if k == 'Decl':
            for v in c: s.var(v)
            return True
        if k == 'If': return s.branch(n, c)
        if k in ('For', 'While', 'Do', 'RangeFor'): return s.loop(n, k, c)
        if k == 'Switch': return s.switch(n, c)
        if k == 'Return':
            if c and c[0]: s.retv.append(s.ev(c[0], lv='&' in s.f['ret']))
            else: s.retv.append(None)
            s.rets.append(dict(s.defs)); return False
        if k == 'Break':
            if s.loops: s.loops[-1].append(dict(s.defs))
            return False
        if k == 'Continue':
            if len(s.loops): s.cont[-1].append(dict(s.defs))
            return False
        if k == 'Goto': s.gotos.setdefault(n['n'], []).append(dict(s.defs))
        if k in ('Throw', 'Goto'): return False
        if k in ('Label', 'OMP', 'Case', 'Default'):
            return s.ex(c[-1]) if c else True
        s.ev(n); return True
    def unset(s, *ns):
        for n in ns:
            if not isinstance(n, dict): continue
            for x in walk(n):
                if x['k'] in ('Assign', 'CAssign') or x['k'] == 'Un' and x['op'] in ('++', '--', '&'):
                    l = strip(x['c'][0])
                    if l['k'] == 'Ref': s.k.pop(l.get('d') or l['n'], None)
    def branch(s, n, c):
        if isinstance(n.get('init'), dict): s.ex(n['init'])
        if isinstance(n.get('cvar'), dict): s.var(n['cvar'])
        els = c[2] if len(c) > 2 else None
        keep = s.mute
        w = s.init_of(c[0])
        guard, kept = s.refill(w, c[1], els)
        g2, k2 = s.refill(w, els, None) if els else ((), ())
        cv = s.cval(c[0])
        s.mute = keep + guard + g2
        s.ev(c[0])
        s.mute = keep
        if cv is not None: return s.ex(c[1] if cv else els)
        d0 = dict(s.defs); e0 = dict(s.env); v0 = dict(s.k)
        s.mute = keep + kept
        z = s.none; s.none = z | s.isempty(c[0])
        a = s.ex(c[1]); d1 = s.defs; e1 = s.env; v1 = s.k; s.none = z
        s.mute = keep
        s.defs = dict(d0); s.env = dict(e0); s.k = v0
        s.mute = keep + k2
        b = s.ex(els) if els else True
        s.k = {q: v for q, v in s.k.items() if v1.get(q) == v} if a and b else v1 if a else s.k
        s.mute = keep
        d2 = s.defs
        for p in k2:
            if p in d2 and p not in d1: d1[p] = None
        for p in kept:
            if p in d1 and p not in d2: d2[p] = None
        s.defs = meet(d1, d2) if a and b else d1 if a else d2
        s.env = {q: v for q, v in s.env.items() if e1.get(q) == v} if a and b else e1 if a else s.env
        return a or b
    def isempty(s, e):
        """the lists the condition says have no element"""
        e = strip(e)
        if e['k'] == 'Bin' and e['op'] == '&&': return s.isempty(e['c'][0]) | s.isempty(e['c'][1])
        if e['k'] == 'Bin' and e['op'] == '==' and s.cval(e['c'][1]) == 0: e = strip(e['c'][0]); ns = ('size', 'capacity')
        elif e['k'] == 'Un' and e['op'] == '!': e = strip(e['c'][0]); ns = ('size', 'capacity')
        else: ns = ('empty',)
        p = s.quiet(e['c'][0]) if e['k'] == 'MCall' and e.get('fn') in ns else None
        return {p} if p else set()
    def guard(s, v):
        """the decision to replace a cached buffer, kept in a variable: what it reads to decide"""
        if s.guards is None:
            s.guards = {}
            for x in walk(s.f['body']):
                if x['k'] == 'If':
                    e = strip(x['c'][0])
                    if e['k'] == 'Ref': s.guards.setdefault(e.get('d') or e['n'], x)
        x = s.guards.get(v.get('d') or v['n'])
        return s.refill(v['c'][0], x['c'][1], x['c'][2] if len(x['c']) > 2 else None)[0] if x else ()
    def init_of(s, e):
        e = strip(e)
        if e['k'] == 'Ref':
            for x in walk(s.f['body']):
                if x['k'] == 'Var' and (x.get('d') or x['n']) == (e.get('d') or e['n']) and x.get('c') and isinstance(x['c'][0], dict): return x['c'][0]
        return e
    def refill(s, cond, body, els):
        """"if (need != have) { free(buffer); have = need; buffer = allocate(need); }" brings a cached buffer up to what this run needs.
        The cached members: the pointers and vectors the branch sets, and the members of the condition it sets."""
        inc = set()
        for x in walk(cond):
            if x['k'] in ('Member', 'Index') or x['k'] in ('MCall',) and x.get('fn') in ('size', 'empty'):
                p = s.quiet(x['c'][0] if x['k'] == 'MCall' else x)
                if p: inc.add(p + ('#size',) if x['k'] == 'MCall' else p)
        w = {}; alloc = False
        for x in walk(body):
            if x['k'] == 'New' or x['k'] == 'Call' and x.get('fn') in ('malloc', 'calloc', 'realloc') or x['k'] == 'MCall' and x.get('fn') in ('resize', 'reserve', 'assign'): alloc = True
            if x['k'] == 'Assign' and x.get('op') in (None, '='):
                p = s.quiet(x['c'][0])
                if p: w[p] = 'p' in s.E.ti(x['c'][0].get('t'))
            if x['k'] == 'MCall' and x.get('fn') in ('resize', 'assign'):
                p = s.quiet(x['c'][0])
                if p: w[p + ('#size',)] = False
            if x['k'] in ('MCall', 'Call') and x.get('f') and (s.E.p.funcs.get(x['f']) or {}).get('body'):
                g = s.E.p.funcs[x['f']]
                if any(y['k'] == 'New' or y['k'] == 'Call' and y.get('fn') in ('malloc', 'calloc', 'realloc') for y in walk(g['body'])):
                    alloc = True
                    for a in args(x):
                        a = strip(a)
                        if a['k'] == 'Un' and a['op'] == '&': a = strip(a['c'][0])
                        if a.get('lv'):
                            p = s.quiet(a)
                            if p: w[p] = 'p' in s.E.ti(a.get('t'))
        if not alloc: return (), ()
        have = tuple(p for p in inc if p in w)
        if not have: return (), ()
        return have, have + tuple(p for p, ptr in w.items() if ptr)
    def quiet(s, e):
        S, s.S = s.S, Sum()
        d = dict(s.defs); v = dict(s.env); m = s.E.reads
        try: return s.ev(e, lv=True)
        finally: s.S = S; s.defs = d; s.env = v; s.E.reads = m
    def switch(s, n, c):
        s.ev(c[0]); cv = s.cval(c[0]); s.unset(c[1])
        body = c[1].get('c') or [] if c[1]['k'] == 'Block' else [c[1]]
        lin = []
        for x in body:
            ls = []
            while isinstance(x, dict) and x['k'] in ('Case', 'Default'):
                ls.append('default' if x['k'] == 'Default' else const(x['c'][0])); x = x['c'][-1]
            lin.append((ls, x))
        every = [l for ls, _ in lin for l in ls]
        d0 = dict(s.defs); s.loops.append([]); live = False
        for ls, x in lin:
            hit = [l for l in ls if cv is None or l == cv or l == 'default' and cv not in every]
            if hit:
                s.defs = meet(s.defs, d0) if live else dict(d0); live = True
            if live: live = s.ex(x)
        outs = s.loops.pop() + ([s.defs] if live else [])
        if not every or 'default' not in every and (cv is not None and cv not in every): outs.append(d0)
        if not outs: return False
        s.defs = meet(*outs); return True
    def loop(s, n, k, c):
        if k == 'For':
            if c[0]: s.ex(c[0]) if c[0]['k'] == 'Decl' else s.ev(c[0])
            b = s.few(c)
            if b is not None:
                d, vals = b
                jump = any(x['k'] in ('Break', 'Continue', 'Goto') for x in walk(c[3]))
                for v in vals:
                    if jump: s.unset(c[3])
                    s.k[d] = v; s.loops.append([]); s.cont.append([])
                    s.ev(c[1]); ok = s.ex(c[3]); outs = s.loops.pop() + s.cont.pop() + ([s.defs] if ok else [])
                    if not outs: s.k.pop(d, None); return False
                    s.defs = meet(*outs)
                s.k.pop(d, None)
                return True
            body, cnd, inc = c[3], c[1], c[2]
        elif k == 'While': body, cnd, inc = c[1], c[0], None
        elif k == 'Do': body, cnd, inc = c[0], c[1], None
        else:
            p = s.ev(c[1], lv=True)
            for v in walk(c[0]):
                if v['k'] == 'Var': s.env[v.get('d') or v['n']] = p + (EL,) if p else None
            body, cnd, inc = c[2], None, None
        keep = s.mute
        # releasing the elements of a list before it is emptied does not depend on what they are
        if cnd and s.resets(body) or cnd and any(x['k'] == 'Delete' or x['k'] == 'Call' and x.get('fn') == 'free' for x in walk(body)):
            s.mute = keep + tuple(p + ('#size',) for p in (s.quiet(x['c'][0]) for x in walk(cnd) if x['k'] == 'MCall' and x.get('fn') in ('size', 'empty')) if p)
        s.loops.append([]); s.cont.append([])
        s.unset(cnd, inc, body); at = len(s.log)
        if cnd and k != 'Do': s.ev(cnd)
        d0 = dict(s.defs); e0 = dict(s.env)
        ok = s.ex(body); s.unset(cnd, inc, body)
        cs = s.cont.pop()
        outs = ([s.defs] if ok else []) + cs
        if outs:
            s.defs = meet(*outs)
            if inc: s.ev(inc)
            if k == 'Do': s.ev(cnd)
            outs = [s.defs]
        brk = s.loops.pop()
        s.mute = keep
        forever = cnd is None and k != 'RangeFor' or cnd is not None and s.cval(cnd) not in (None, 0)
        if forever and not brk: return False
        if k == 'Do' or s.once(k, c) or forever: d = meet(*((outs if not forever else []) + brk)) if outs + brk else d0
        else:
            d = {p: v for p, v in (meet(*(outs + brk)) if outs + brk else {}).items() if any(map(el, p))}
            for p, v in d0.items():
                if p not in d: d[p] = v if all(o.get(p) == v for o in outs + brk) else None
        # elements of a list that the loop fills one after another: which of them it leaves out is not decided here
        for p in s.log[at:]:
            if EL in p and p[:p.index(EL)] not in s.E.fixed: d.setdefault(p, None)
        s.defs = d; s.env = {q: v for q, v in e0.items() if s.env.get(q) == v}
        return True
    def resets(s, body):
        """nothing but constants stored into the elements of a list"""
        b = body.get('c') or [] if body['k'] == 'Block' else [body]
        def ok(x):
            if x['k'] == 'Decl': return all(v.get('ref') or '&' in v['t'] for v in x['c'])
            if x['k'] == 'Un': return x['op'] in ('++', '--') and strip(x['c'][0])['k'] == 'Ref'
            return x['k'] == 'Assign' and s.cval(x['c'][1]) is not None and any(y['k'] in ('Index', 'OpCall', 'Ref') for y in walk(x['c'][0]))
        return all(map(ok, b))
    def counter(s, c):
        if not c[0] or not c[1]: return None
        v = next((x for x in walk(c[0]) if x['k'] == 'Var' and x.get('c')), None); t = strip(c[1])
        if v is None or t['k'] != 'Bin' or strip(t['c'][0]).get('n') != v['n']: return None
        a = s.cval(v['c'][0]); b = s.cval(t['c'][1])
        if a is None or b is None or t['op'] not in ('<', '<=', '!='): return None
        return v.get('d') or v['n'], a, b + (t['op'] == '<=')
    def few(s, c):
        """the two passes, one by one"""
        r = s.counter(c); i = strip(c[2]) if c[2] else None
        if not r or r[2] - r[1] not in (1, 2) or s.varies.get(r[0]) != 1 or not i or i['k'] != 'Un' or i['op'] != '++': return None
        return r[0], range(r[1], r[2])
    def once(s, k, c):
        r = s.counter(c) if k == 'For' else None
        return bool(r and r[1] < r[2])
    def var(s, v):
        d = v.get('d') or v['n']
        if not v.get('c') or not v['c'][0]: s.env.pop(d, None); return
        t = s.E.ti(v['t'])
        if '&' in v['t'] or v.get('ref'): s.refs.add(d); s.env[d] = s.ev(v['c'][0], lv=True)
        elif 'p' in t: s.env[d] = s.ev(v['c'][0])
        else:
            k = s.cval(v['c'][0])
            if k is not None: s.k[d] = k
            else: s.k.pop(d, None)
            keep = s.mute; s.mute = keep + s.guard(v)
            s.ev(v['c'][0]); s.env.pop(d, None); s.mute = keep
    # ---- expressions: the path of an lvalue (lv), or what a pointer value points to
    def ev(s, n, lv=False):
        if not isinstance(n, dict): return None
        k = n['k']; c = n.get('c') or []
        if k in ('ICast', 'Cast', 'DefArg', 'Paren'): return s.ev(c[0], lv) if c else None
        if k == 'This': return s.this
        if k == 'Ref':
            d = n.get('d') or n['n']
            p = s.env.get(d)
            return p if lv or p is None or d not in s.refs else s.val(p, n)
        if k == 'Member':
            b = s.ev(c[0], lv=not n.get('ar')) if c else s.this
            if b is None: return None
            p = b + (n['d'],)
            return p if lv else s.val(p, n)
        if k == 'Index':
            b = s.ev(c[0], lv='p' not in s.E.ti(c[0].get('t')))
            s.ev(c[1])
            if b is None: return None
            if 'p' in s.E.ti(c[0].get('t')): p = b
            else:
                i = s.cval(c[1]); m = s.E.ti(c[0].get('t')).get('n') or 0
                m = m if isinstance(m, int) and m in (2, 4) else 0
                DIMS[b] = m
                p = b + ('[%d]' % i if i is not None and 0 <= i < m else EL,)
            return p if lv else s.val(p, n)
        if k == 'Un':
            op = n['op']
            if op == '&': return s.ev(c[0], lv=True)
            if op == '*':
                b = s.ev(c[0])
                return b if lv or b is None else s.val(b, n)
            if op in ('++', '--'):
                p = s.ev(c[0], lv=True)
                l = strip(c[0]); l = l.get('d') or l['n'] if l['k'] == 'Ref' else None
                if l in s.k: s.k[l] += 1 if op == '++' else -1
                if s.ownvar(c[0]): return p
                s.read(p, n); s.write(p, n)
                if lv or p is None: return p
                return p + (PT,) if 'p' in s.E.ti(n.get('t')) and PT not in p and strip(c[0])['k'] != 'Ref' else p
            s.ev(c[0]); return None
        if k in ('Assign', 'CAssign'):
            kv = s.cval(c[1]); l = strip(c[0])
            r = s.ev(c[1]); p = s.ev(c[0], lv=True)
            if l['k'] == 'Ref':
                l = l.get('d') or l['n']; s.k.pop(l, None)
                if k == 'Assign' and kv is not None and l not in s.refs: s.k[l] = kv
            if s.ownvar(c[0]):
                if n.get('op') in (None, '='): l = strip(c[0]); s.env[l.get('d') or l['n']] = r
                return p if lv else r
            if k == 'CAssign' or n.get('op') not in (None, '='): s.read(p, n)
            if s.single(c[0]) and p: s.S.mod.setdefault(p, (s.f['file'], n.get('l', s.f['line']), s.f['q'])); return p if lv else r
            s.write(p, n, s.cval(c[1]) if k == 'Assign' else None)
            return p if lv else r
        if k == 'Bin':
            op = n['op']
            if op in ('&&', '||'):
                s.ev(c[0]); d = dict(s.defs); s.ev(c[1]); s.defs = d; return None
            a = s.ev(c[0]); b = s.ev(c[1])
            if op in ('+', '-') and 'p' in s.E.ti(n.get('t')): return a if a is not None else b
            return b if op == ',' else None
        if k == 'Cond':
            s.ev(c[0]); d = dict(s.defs); a = s.ev(c[1], lv); d1 = s.defs; s.defs = d; b = s.ev(c[2], lv); s.defs = meet(s.defs, d1)
            return a if a == b else None
        if k in ('Call', 'MCall', 'OpCall', 'Construct'): return s.call(n, k, c, lv)
        if k == 'Lambda': return None
        if k in ('SizeOf',): return None
        for x in kids(n): s.ev(x)
        return None
    def ownvar(s, e):
        """a pointer variable of this function: the pointer moves, nothing it points to is touched"""
        e = strip(e)
        return e['k'] == 'Ref' and (e.get('d') or e['n']) not in s.refs and 'p' in s.E.ti(e.get('t'))
    def val(s, p, n):
        """the value stored at p is used"""
        t = s.E.ti(n.get('t'))
        if 'e' in t and 'n' in t: return p + ((PT,) if s.E.ti(t['e']).get('rec') else (EL,))
        if 'p' in t:
            s.read(p, n); return p + (PT,)
        if 'int' in t or 'flt' in t or t.get('enum'): s.read(p, n); return None
        return p
    def call(s, n, k, c, lv):
        fid = n.get('f'); E = s.E; f = E.p.funcs.get(fid) if fid else None
        name = n.get('fn') or (f or {}).get('name') or ''
        if k == 'MCall' or k == 'OpCall' and n.get('meth'): obj, av = c[0], c[1:]
        else: obj, av = None, c
        this = None
        if obj is not None:
            o = strip(obj); arrow = n.get('ar')
            this = s.ev(obj, lv=not ('p' in E.ti(obj.get('t'))))
        if f and this is not None and fid and E.p.all_over(fid) and this == ('this',): fid = E.final(fid); f = E.p.funcs[fid]
        vs = []
        # growing a list to what is needed, or leaving it the larger size it has
        keep = s.mute
        if this is not None and name in ('resize', 'reserve'): s.mute = keep + (this + ('#size',),)
        ps = (f or {}).get('params') or []
        for i, a in enumerate(av):
            t = ps[i]['t'] if i < len(ps) else ''
            isp = 'p' in E.ti(t); ref = '&' in t or i < len(ps) and ps[i].get('ref')
            isrec = not isp and E.ti(t.replace('const ', '').rstrip(' &*')).get('rec')
            v = s.ev(a, lv=bool(ref or isrec or (not f and a.get('lv') and not s.scalar(a))))
            if ref and v is not None and 'p' in E.ti(a.get('t')) and s.ownvar(a): v = ('@',) + v
            vs.append((v, a, t))
            if ref: s.unset({'k': 'Un', 'op': '&', 'c': [a]})
        s.mute = keep
        E.calls += 1
        cls = (f or {}).get('cls') or n.get('cls') or ''
        if cls.startswith(VEC) or (fid or '').startswith('std::') or (f or {}).get('q', '').startswith('std::') or (n.get('q') or '').startswith('std::'):
            return s.stdcall(n, name, this, vs, cls)
        if cls == MAT and this is not None and k != 'Construct':
            if name in ('operator=', 'copy_from', 'set') or name.startswith('create'): s.write(this, n)
            else: s.read(this, n)
            return this if '&' in (f or {}).get('ret', '') else None
        if cls.startswith(POOL) and this is not None and k != 'Construct':
            if name not in ('init', 'clear'): s.read(this, n)
            s.write(this, n); return this + (PT,)
        if f and f.get('body') and cls != MAT and not f['q'].startswith(('basiclog::', 'basicsys::sys_alg')):
            if k == 'Construct': this = None
            S = E.fn(fid, this, [v for v, _, _ in vs], [s.cval(a) for _, a, _ in vs])
            if S:
                for p, w in S.ue.items():
                    if not covered(p, s.defs) and p not in s.mute: s.S.ue.setdefault(p, w)
                for p, w in S.mod.items(): s.S.mod.setdefault(p, w); s.log.append(p)
                for p in S.mod:
                    if p not in S.md:
                        for q in s.defs:
                            if q[:len(p)] == p or p[:len(q)] == q: s.defs[q] = None
                one = k == 'OpCall' and name == 'operator=' and s.single(obj)
                s.defs.update({p: v for p, v in S.md.items() if not (one and this and p[:len(this)] == this)})
                return S.ret
            return None
        # outside the project: what is passed by address may be changed
        if name in ('memset', 'memcpy', 'memmove') and vs:
            if vs[0][0] is not None: s.write(vs[0][0], n)
            if len(vs) > 1 and name != 'memset' and vs[1][0] is not None: s.read(vs[1][0], n)
            return None
        if name in ('free', 'malloc', 'calloc', 'realloc'): return None
        return None
    def single(s, e):
        """one particular element of a list: the others are not set"""
        e = strip(e)
        return isinstance(e, dict) and e['k'] == 'OpCall' and e.get('fn') == 'operator[]' and s.cval(e['c'][1]) is not None and s.quiet(e['c'][0]) not in s.E.fixed
    def scalar(s, a):
        t = s.E.ti(a.get('t')); return 'int' in t or 'flt' in t or t.get('enum') or 'p' in t
    def stdcall(s, n, name, this, vs, cls):
        E = s.E
        if this is None:
            if name in ('swap',) and len(vs) == 2:
                for v, _, _ in vs: s.write(v, n)
            return None
        sz = this + ('#size',)
        if name in ('operator[]', 'at', 'front', 'back', 'begin', 'end', 'data'):
            return this + (EL,)
        if name in ('size', 'empty', 'length'): s.read(sz, n); return None
        if name in ('clear', 'swap', 'operator=', 'assign'):
            s.write(sz, n); s.write(this + (EL,), n); s.write(this, n)
            return None
        if name in ('resize',):
            if s.cval(vs[0][1]) is not None: E.fixed.add(this)
            s.write(sz, n)
            if this in s.none: s.write(this + (EL,), n)
            return None
        if name in ('push_back', 'insert', 'emplace_back', 'pop_back', 'operator+='):
            s.read(sz, n); s.write(sz, n); return None
        return None

def name(p): return '.'.join(x.split('::')[-1] for x in p[1:])

ALLOC = ('malloc', 'calloc', 'realloc')
class Uses:
    """how the members of the detectors are used anywhere: which only decide when a cached buffer is replaced, which are never
    looked at, which pointers hold nothing but allocated memory"""
    def __init__(s, prog):
        s.idle = {}; s.storage = {}
        fs = [f for f in prog.funcs.values() if f.get('body') and f['file'].startswith('basicimg') and not f.get('dep')]
        for f in fs:
            if f.get('body'): s.scan(prog, f)
    def scan(s, prog, f):
        alloc = {}
        def allocates(e, deep=0):
            e = strip(e)
            if not isinstance(e, dict): return False
            if e['k'] in ('Null', 'New') or const(e) == 0: return True
            if e['k'] == 'Call' and e.get('fn') in ALLOC: return True
            if e['k'] == 'Ref': return (e.get('d') or e['n']) in alloc
            if e['k'] == 'Call' and deep < 2 and (prog.funcs.get(e.get('f')) or {}).get('body'):
                return any(x['k'] == 'Return' and x.get('c') and x['c'][0] and allocates(x['c'][0], deep + 1) for x in walk(prog.funcs[e['f']]['body']))
            return False
        for _ in (0, 1):
            for x in walk(f['body']):
                if x['k'] == 'Var' and x.get('c') and isinstance(x['c'][0], dict) and allocates(x['c'][0]) or x['k'] == 'Assign' and strip(x['c'][0])['k'] == 'Ref' and allocates(x['c'][1]):
                    y = x if x['k'] == 'Var' else strip(x['c'][0]); alloc[y.get('d') or y['n']] = 1
        def go(n, how):
            if not isinstance(n, dict): return
            k = n['k']; c = n.get('c') or []
            if k == 'Member' and c and strip(c[0])['k'] == 'This':
                d = n['d']; s.idle[d] = s.idle.get(d, True) and how in ('set', 'step', 'policy')
                if how == 'address': s.storage[d] = False
            if k in ('Assign', 'CAssign'):
                l = strip(c[0])
                while l['k'] == 'Index' and strip(l['c'][0])['k'] == 'Member' and 'n' in (prog.types.get(strip(l['c'][0])['t']) or {}): go(l['c'][1], ''); l = strip(l['c'][0])
                if l['k'] == 'Member' and k == 'Assign' and n.get('op') in (None, '='):
                    s.storage[l['d']] = s.storage.get(l['d'], True) and allocates(c[1])
                    go(l, 'set'); go(c[1], ''); return
                go(l, 'step' if k == 'CAssign' else 'set'); go(c[1], ''); return
            if k == 'Un' and n['op'] in ('++', '--'): 
                l = strip(c[0])
                if l['k'] == 'Member' and 'p' in (prog.types.get(l['t']) or {}): s.storage[l['d']] = False
                go(l, 'step'); return
            if k == 'Un' and n['op'] == '&' and strip(c[0])['k'] == 'Member': go(strip(c[0]), 'address'); return
            if k == 'If':
                els = c[2] if len(c) > 2 else None
                pol = not els and any(x['k'] == 'New' or x['k'] == 'Call' and x.get('fn') in ALLOC for x in walk(c[1]))
                go(c[0], 'policy' if pol else ''); go(c[1], ''); go(els, ''); return
            if k in ('Bin', 'ICast', 'Cast') and how == 'policy':
                for x in kids(n): go(x, 'policy')
                return
            if k == 'Member' or k == 'Paren':
                for x in kids(n): go(x, how if k == 'Paren' else '')
                return
            for x in kids(n): go(x, '')
        go(f['body'], '')

DBG = 0
N = BASE + '::m_parallel_thread_number'
F = BASE + '::m_from_min_max'
MT = 'basicimg::img_mask_info<unsigned char>::m_mask_type'
def detectors(prog):
    r = []
    for d in sorted(prog.records):
        if d == BASE or not d.startswith('basicimg::'): continue
        if BASE in Eff(prog, d, {}).chain: r.append(d)
    return r
def initial(prog, E, d):
    """constants the constructors give the members"""
    m = {}
    for k in reversed(E.chain):
        for f in prog.funcs.values():
            if f.get('ctor') and f.get('cls') == k and f.get('body') and not f['params']: m.update(E.fn(f['id'], ('this',), []).md)
    return m

def one(prog, R, d):
    ex = prog.fn(BASE + '::extract')
    if not ex: raise load.Broken('no %s::extract' % BASE)
    U = Uses(prog); found = {}
    # the numbers of threads the detector tells apart (all, when it does not look at it)
    told = {const(y) for k in Eff(prog, d, {}).chain[:-1] for f in prog.funcs.values() if f.get('cls') == k and f.get('body') for x in walk(f['body'])
            if x['k'] == 'Bin' and x['op'] == '==' and any(strip(y).get('d') == N for y in x['c']) for y in x['c']} - {None}
    masks = sorted(v for _, v in prog.enums['basicimg::img_Mask_Type']['consts'])
    runs = []; mod = {}
    for n in sorted(told) or (1, 4):
        for a, b, m in [(a, b, m) for a, b in ((1, 0), (0, 1), (1, 1)) for m in masks]:
            E = Eff(prog, d, {('this', N): n, ('this', F, '#'): 1, ('this', F, '#', 0): a, ('this', F, '#', 1): b, ('mask', MT): m})
            S = E.fn(ex[0]['id'], ('this',), [('mask',) if 'img_mask_info' in p['t'] else ('res',) if 'img_multi_msers' in p['t'] else None for p in ex[0]['params']])
            if not S.md: raise load.Broken('%s: no path through a run' % d)
            R.count('functions followed', len(E.memo)); R.count('member accesses', E.reads); R.count('calls', E.calls); R.count('configurations')
            runs.append(((n, a, b, m), S))
            for q, w in S.mod.items(): mod.setdefault(q, w)
    init = initial(prog, E, d)
    for cfg, S in runs:
        S.ue = {q: w for q, w in S.ue.items() if q[0] in ('this', 'res')}
        for q in S.mod: R.ob('%s, %s: %s, which a run may change, is not read before the run sets it' % (d, cfg, name(q)))
        for q in S.ue: R.ob('%s, %s: %s, which a run reads as it finds it, is not changed by runs, of whatever configuration' % (d, cfg, name(q)))
        for q, w in S.ue.items():
            hit = [m for m in mod if under(m, q) or under(q, m)]
            if not hit: continue
            if U.storage.get([x for x in q if not el(x)][-1]) or len(q) == 2 and U.idle.get(q[1]): continue
            # left as the constructor made it by every run that may change it
            if q in init and all(T.md.get(m) is not None and T.md[m] == init[q] for _, T in runs for m in T.mod if under(m, q) or under(q, m)): continue
            found.setdefault(q, (w, mod[hit[0]], []))[2].append(cfg); DBG and print(d, name(q), cfg, '\n', end='')
    for q, (w, m, cs) in found.items():
        R.bad('%s reads %s before it is set in this run (line %d changes it): what an earlier run left there changes the result' % (d.split('::')[-1], name(q), m[1]), w[0], w[1], w[2], key='%s|%s' % (d, name(q)))

def analyse(prog, R):
    ds = detectors(prog)
    R.count('detectors', len(ds))
    parallel(prog, R, one, ds)

if __name__ == '__main__':
    run_check('C09', lambda: load.load(['basiclog', 'basicsys', 'basicmath', 'basicimg']), analyse, level='other', minimum=60,
        explanation='upward-exposed reads against modified members of every detector over a whole run, for every number of threads and choice of passes')
