"""Constant propagation for one concrete choice of a few inputs (polarity, gray level, element type ...).

One run follows every path that is possible for that choice and joins where paths meet; everything not chosen is unknown.
Values: int, float, TOP (unknown), ('&', path) pointers, ('@', path) the current value of the object at path (symbolic),
('fn', id).  An access path is a tuple rooted at a variable, at this, at a parameter or at an unknown pointer."""
from ir import *
import load

class _Top:
    def __repr__(s): return 'TOP'
TOP = _Top()
MAXIT = 600

class Env:
    __slots__ = ('m',)
    def __init__(s, m=None): s.m = m if m is not None else {}
    def copy(s): return Env(dict(s.m))

def joinv(a, b):
    if a == 0 and isinstance(b, tuple) and b and b[0] == '&' and b[1][0][0] in ('st', 'heap'): return b
    if b == 0 and isinstance(a, tuple) and a and a[0] == '&' and a[1][0][0] in ('st', 'heap'): return a
    if a is TOP or b is TOP: return TOP
    if type(a) == type(b) and a == b: return a
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == '&': 
        p = joinp(a[1], b[1])
        return ('&', p) if p is not None else TOP
    return TOP
def joinp(p, q):
    if len(p) != len(q): return None
    out = []
    for x, y in zip(p, q):
        if x == y: out.append(x)
        elif isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] == '[': out.append(('[', '?'))
        else: return None
    return tuple(out)
def join(es, ini):
    es = [e for e in es if e is not None]
    if not es: return None
    r = es[0]
    for e in es[1:]:
        if e is r: continue
        m = {}
        for k in set(r.m) | set(e.m):
            a = r.m.get(k); b = e.m.get(k)
            if a is None: a = ini(k)
            if b is None: b = ini(k)
            m[k] = joinv(a, b)
        r = Env(m)
    return r

class Tab:
    asserts = False
    def __init__(s, prog, hooks=None, depth=8):
        s.p = prog; s.h = hooks; s.depth = depth; s.frames = []; s.fr = 0; s.ret = []; s.this = []; s.stack = []; s.fns = []; s.ctx = []; s.line = 0
    def ti(s, t): return s.p.types.get(t) or {}
    def isb8(s, t): return (t or '').replace('const ', '').replace('&', '').strip() == 'basicsys::b8'
    def isrec(s, t):
        i = s.ti(t); return bool(i.get('rec')) and not s.isb8(t)
    # ---- memory
    def initial(s, path):
        v = s.h.leaf(s, path) if s.h is not None and hasattr(s.h, 'leaf') else None
        return v if v is not None else TOP
    def get(s, env, path):
        if s.h is not None and hasattr(s.h, 'always'):
            v = s.h.always(s, path)
            if v is not None: return v
        m = env.m
        v = m.get(path)
        if v is not None: return v
        # whole-object copies
        for n in range(len(path) - 1, 0, -1):
            w = m.get(path[:n])
            if isinstance(w, tuple) and w[0] == '@': 
                q = w[1] + path[n:]
                return s.initial(q)
            if w is TOP: return TOP
        if any(isinstance(x, tuple) and x[0] == '[' for x in path):
            # an unknown index may mean any cell that was written
            for k, v in m.items():
                if len(k) == len(path) and k != path and s.may(k, path): return TOP
        return s.initial(path)
    def may(s, p, q):
        for x, y in zip(p, q):
            if x == y: continue
            if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] == '[' and (x[1] == '?' or y[1] == '?'): continue
            return False
        return True
    def put(s, env, path, v, node=None):
        if s.h is not None and hasattr(s.h, 'on_store') and node is not None: s.h.on_store(s, env, path, v, node)
        m = env.m; n = len(path)
        weak = any(isinstance(x, tuple) and x[0] == '[' and x[1] == '?' for x in path)
        for k in list(m):
            if len(k) >= n and k is not path:
                if k[:n] == path:
                    if len(k) > n: del m[k]
                elif (weak or any(isinstance(x, tuple) and x[0] == '[' and x[1] == '?' for x in k)) and s.may(k[:n], path): m[k] = TOP
        if weak: 
            old = s.get(env, path); v = joinv(old, v)
        m[path] = v
    def copyobj(s, env, dst, src, node=None):
        sub = {k[len(src):]: v for k, v in env.m.items() if len(k) > len(src) and k[:len(src)] == src}
        base = env.m.get(src)
        if s.h is not None and hasattr(s.h, 'on_copy'): s.h.on_copy(s, env, dst, src, node)
        s.put(env, dst, base if isinstance(base, tuple) and base[0] == '@' else TOP if base is TOP else ('@', src))
        for k, v in sub.items(): env.m[dst + k] = v
    def kill(s, env, path):
        for k in list(env.m):
            if k[:len(path)] == path: env.m[k] = TOP
        env.m[path] = TOP
    def val(s, env, v):
        """rvalue: a reference ('=', path) is loaded"""
        if isinstance(v, tuple) and v and v[0] == '=': return s.get(env, v[1])
        return v
    # ---- running
    def call(s, f, env, this, argv, argnodes=None):
        """this: path or None; argv: values, ('=', path) for references -> (env, value)"""
        fr = (len(s.stack), f['id'])
        s.frames.append(fr); s.this.append(this); s.ret.append([]); s.stack.append(f['id']); s.fns.append(f)
        for i, p in enumerate(f['params']):
            path = (('v', fr, p['d']),)
            a = argv[i] if i < len(argv) else TOP
            if p.get('ref'):
                if isinstance(a, tuple) and a and a[0] == '=': env.m[path] = ('ref', a[1])
                else:
                    t = (('v', fr, 'tmp', p['d']),)
                    env.m[t] = a; env.m[path] = ('ref', t)
            elif isinstance(a, tuple) and a and a[0] == '=':
                if s.isrec(p['t']): s.copyobj(env, path, a[1])
                else: env.m[path] = s.get(env, a[1])
            else: env.m[path] = a
        e = env
        for i in f.get('inits', []):
            if e is None: break
            if i.get('m') and isinstance(i.get('e'), dict) and this is not None:
                x = i['e']
                e, v = s.ev(x, e)
                if s.isrec(x.get('t')) and isinstance(v, tuple) and v and v[0] == '=': s.copyobj(e, this + (i['m'],), v[1], x)
                else: s.put(e, this + (i['m'],), s.val(e, v), x)
        out = s.ex(f.get('body'), e) if e is not None else None
        rets = s.ret.pop(); s.frames.pop(); s.this.pop(); s.stack.pop(); s.fns.pop()
        void = f['ret'] == 'void'
        alle = [x for x, _ in rets] + ([out] if out is not None else [])
        e = join(alle, s.initial)
        v = TOP
        vs = [w for _, w in rets]
        if vs:
            v = vs[0]
            for w in vs[1:]:
                if isinstance(v, tuple) and v and v[0] == '=' and v == w: continue
                v = joinv(v, w) if not (isinstance(v, tuple) and v and v[0] == '=') and not (isinstance(w, tuple) and w and w[0] == '=') else TOP
        if e is not None:
            # the callee's frame is gone, but a returned reference or object may live in it
            for k in list(e.m):
                if isinstance(k[0], tuple) and k[0][0] == 'v' and k[0][1] == fr and not (isinstance(v, tuple) and v and v[0] in ('=', '&') and v[1][:1] == k[:1]): del e.m[k]
        return e, v
    def ex(s, n, env):
        """-> env after normal completion or None"""
        if n is None or env is None: return env
        m = getattr(s, 'x_' + n['k'], None)
        if m: return m(n, n.get('c') or [], env)
        e, _ = s.ev(n, env)
        return e
    def x_Block(s, n, c, env):
        for x in c:
            if env is None:
                if not s.haslabel(x): continue
                return None
            env = s.ex(x, env)
        return env
    def haslabel(s, x): return False
    def x_Null(s, n, c, env): return env
    def x_Decl(s, n, c, env):
        for v in c:
            if env is None: break
            if v['k'] == 'Var': env = s.decl(v, env)
        return env
    def vp(s, d): return (('v', s.frames[-1], d),)
    def decl(s, v, env):
        path = s.vp(v['d']); e = (v.get('c') or [None])[0]
        if v.get('static'): path = (('s', v['d']),)
        for k in list(env.m):
            if k[:1] == path: del env.m[k]
        if e is None:
            env.m[path] = TOP; return env
        if v.get('ref'):
            env, x = s.ev(e, env, True)
            if env is None: return None
            if isinstance(x, tuple) and x and x[0] == '=': env.m[path] = ('ref', x[1])
            else:
                t = path + ('#tmp',); env.m[t] = x; env.m[path] = ('ref', t)
            return env
        if e['k'] == 'InitList': return s.initlist(e, env, path)
        s.target = None
        env, x = s.ev(e, env, s.isrec(v['t']))
        if env is None: return None
        if isinstance(x, tuple) and x and x[0] == '=' and s.isrec(v['t']): s.copyobj(env, path, x[1], v)
        else: s.put(env, path, s.val(env, x), v)
        return env
    def initlist(s, e, env, path):
        i = s.ti(e.get('t')); c = e.get('c') or []
        env.m[path] = TOP
        if 'e' in i:
            for j, x in enumerate(c):
                if x is None: continue
                if x['k'] == 'InitList': env = s.initlist(x, env, path + (('[', j),))
                else:
                    env, v = s.ev(x, env); env.m[path + (('[', j),)] = s.val(env, v)
            for j in range(len(c), min(i.get('n', 0), 300)): env.m[path + (('[', j),)] = 0
        elif i.get('rec'):
            r = s.p.records.get(i.get('rn')); fs = r['fields'] if r else []
            for f, x in zip(fs, c):
                if x is None: continue
                if x['k'] == 'InitList': env = s.initlist(x, env, path + (f['d'],))
                else:
                    env, v = s.ev(x, env); s.put(env, path + (f['d'],), s.val(env, v), x)
        elif c:
            env, v = s.ev(c[0], env); env.m[path] = s.val(env, v)
        else: env.m[path] = 0
        return env
    def truth(s, env, v):
        v = s.val(env, v)
        if isinstance(v, bool): return v
        if isinstance(v, (int, float)): return v != 0
        if isinstance(v, tuple) and v and v[0] == '&' and s.isvar(v[1]): return True
        return None
    def isvar(s, p): return isinstance(p[0], tuple) and p[0][0] in ('v', 's', 'g') 
    def cond(s, n, env):
        """-> (env if true, env if false)"""
        x = n
        while x['k'] in ('ICast', 'Cast') and x.get('ck') in ('IntegralToBoolean', 'NoOp', 'UserDefinedConversion') and x.get('c'): x = x['c'][0]
        if x['k'] == 'Bin' and x['op'] in ('&&', '||'):
            a, b = x['c']
            T, F = s.cond(a, env)
            if x['op'] == '&&':
                if T is None: return None, F
                T2, F2 = s.cond(b, T)
                return T2, join([F, F2], s.initial)
            if F is None: return T, None
            T2, F2 = s.cond(b, F)
            return join([T, T2], s.initial), F2
        if x['k'] == 'Un' and x['op'] == '!':
            T, F = s.cond(x['c'][0], env); return F, T
        e, v = s.ev(x, env)
        if e is None: return None, None
        t = s.truth(e, v)
        if s.h is not None and hasattr(s.h, 'on_cond'):
            r = s.h.on_cond(s, e, x, v, t)
            if r is not None: return r
        if t is True: return e, None
        if t is False: return None, e
        return e.copy(), e
    def x_If(s, n, c, env):
        mc = n.get('mc') or ''
        if mc.startswith('basiclog_assert') and s.asserts:
            x = c[0]
            while x['k'] != 'Un' and x.get('c'): x = x['c'][0]
            T, F = s.cond(x['c'][0], env) if x['k'] == 'Un' and x['op'] == '!' else (env, None)
            return T
        if mc.startswith('basiclog_unsupport') and s.asserts: return None
        T, F = s.cond(c[0], env)
        T = s.ex(c[1], T) if T is not None else None
        if len(c) > 2 and c[2] is not None and F is not None: F = s.ex(c[2], F)
        return join([T, F], s.initial)
    def x_Return(s, n, c, env):
        v = TOP
        if c and c[0] is not None:
            ref = s.fns[-1]['ret'].endswith('&') or s.isrec(s.fns[-1]['ret'])
            if c[0]['k'] == 'InitList':
                t = (('v', s.frames[-1], 'ret'),); env = s.initlist(c[0], env, t); v = ('=', t)
            else: env, v = s.ev(c[0], env, ref)
            if env is None: return None
            if not ref: v = s.val(env, v)
        if s.h is not None and hasattr(s.h, 'on_return'): s.h.on_return(s, env, n, v)
        s.ret[-1].append((env, v)); return None
    brk = cnt = None
    def x_Break(s, n, c, env): s.brk[-1].append(env); return None
    def x_Continue(s, n, c, env): s.cnt[-1].append(env); return None
    def x_Throw(s, n, c, env): return None
    def x_Goto(s, n, c, env): raise load.Broken('goto in %s' % s.fns[-1]['id'])
    def x_Label(s, n, c, env): return s.ex(c[0], env)
    def x_Case(s, n, c, env): return s.ex(c[-1], env)
    def x_Default(s, n, c, env): return s.ex(c[0], env)
    def x_OMP(s, n, c, env): return s.ex(c[0], env) if c else env
    def x_Switch(s, n, c, env):
        lin = []
        def flat(x):
            ls = []
            while isinstance(x, dict) and x['k'] in ('Case', 'Default'):
                ls.append(const(x['c'][0]) if x['k'] == 'Case' else 'default'); x = x['c'][-1]
            lin.append((ls, x))
        body = c[1]
        for x in (body.get('c') or []) if body['k'] == 'Block' else [body]: flat(x)
        env, v = s.ev(c[0], env)
        if env is None: return None
        v = s.val(env, v)
        starts = []; di = [i for i, (ls, _) in enumerate(lin) if 'default' in ls]
        if isinstance(v, int):
            hit = [i for i, (ls, _) in enumerate(lin) if v in ls]
            starts = hit or di or [None]
        else:
            starts = [i for i, (ls, _) in enumerate(lin) if ls] + ([] if di else [None])
        s.brk = s.brk or []; s.brk.append([])
        out = []
        for i in starts:
            e = env.copy()
            if i is None: out.append(e); continue
            for _, x in lin[i:]:
                if e is None: break
                e = s.ex(x, e)
            out.append(e)
        out += s.brk.pop()
        return join(out, s.initial)
    def x_For(s, n, c, env):
        if c[0] is not None: env = s.ex(c[0], env)
        return s.loop(c[1], c[3], c[2], env, False) if env is not None else None
    def x_While(s, n, c, env): return s.loop(c[0], c[1], None, env, False)
    def x_Do(s, n, c, env): return s.loop(c[1], c[0], None, env, True)
    def x_RangeFor(s, n, c, env):
        env, v = s.ev(c[1], env, True)
        base = v[1] if isinstance(v, tuple) and v and v[0] == '=' else (('u', 'range'),)
        vp = s.vp(c[0]['d'])
        def bind(e):
            el = base + (('[', '?'),)
            e.m.pop(vp, None)
            if c[0].get('ref'): e.m[vp] = ('ref', el)
            elif s.isrec(c[0]['t']): s.copyobj(e, vp, el)
            else: e.m[vp] = s.get(e, el)
            return e
        return s.fix(env, None, lambda e: s.ex(c[2], bind(e)), None, False)
    def loop(s, cnd, body, inc, env, dowhile):
        if env is None: return None
        exits = []; it = 0
        cur = env
        first = dowhile
        while cur is not None and it < MAXIT:
            if not first:
                if cnd is None: T, F = cur, None
                else: T, F = s.cond(cnd, cur.copy())
                if cnd is None or (T is not None and F is not None):
                    r = s.fix(cur, cnd, lambda e: s.ex(body, e), inc, False)
                    exits.append(r); cur = None; break
                if F is not None: exits.append(F)
                cur = T
            elif cnd is None or const(cnd) not in (0,):
                if const(cnd) != 0:
                    r = s.fix(cur, cnd, lambda e: s.ex(body, e), inc, True)
                    exits.append(r); cur = None; break
            first = False
            if cur is None: break
            cur, b = s.once(body, inc, cur)
            exits += b; it += 1
            if dowhile and cnd is not None and const(cnd) == 0: exits.append(cur); cur = None; break
        if cur is not None: exits.append(s.fix(cur, cnd, lambda e: s.ex(body, e), inc, False))
        return join(exits, s.initial)
    def once(s, body, inc, env):
        s.brk = s.brk or []; s.cnt = s.cnt or []
        s.brk.append([]); s.cnt.append([])
        e = s.ex(body, env)
        b = [x for x in s.brk.pop() if x is not None]; e = join([e] + s.cnt.pop(), s.initial)
        if e is not None and inc is not None: e, _ = s.ev(inc, e)
        return e, b
    def fix(s, env, cnd, body, inc, dowhile):
        S = env; exits = []
        for rnd in range(12):
            exits = []
            e = S.copy()
            if not dowhile and cnd is not None:
                e, F = s.cond(cnd, e)
                if F is not None: exits.append(F)
                if e is None: break
            elif not dowhile: exits.append(S.copy()) if cnd is None and inc is None and False else None
            s.brk = s.brk or []; s.cnt = s.cnt or []
            s.brk.append([]); s.cnt.append([])
            e = body(e)
            exits += [x for x in s.brk.pop() if x is not None]; e = join([e] + s.cnt.pop(), s.initial)
            if e is not None and inc is not None: e, _ = s.ev(inc, e)
            if dowhile and e is not None and cnd is not None:
                e, F = s.cond(cnd, e)
                if F is not None: exits.append(F)
            if e is None: break
            N = join([S, e], s.initial)
            if N.m == S.m: break
            S = N
        else: raise load.Broken('no fixed point in %s' % s.fns[-1]['id'])
        if cnd is None and inc is None and not dowhile: exits.append(S)      # range for
        return join(exits, s.initial)
    # ---- expressions: (env, value); lv: a reference ('=', path) is wanted
    def ev(s, n, env, lv=False):
        if n is None or env is None: return env, TOP
        s.line = n.get('l')
        if 'cv' in n and not lv and n['k'] != 'Ref': return env, n['cv']
        m = getattr(s, 'e_' + n['k'], None)
        if m is None:
            for x in n.get('c') or []:
                if isinstance(x, dict): env, _ = s.ev(x, env)
            return env, TOP
        return m(n, n.get('c') or [], env, lv)
    def rv(s, n, env):
        env, v = s.ev(n, env)
        if env is None: return None, TOP
        return env, s.val(env, v)
    def res(s, env, path, lv, t=None):
        w = env.m.get(path)
        if isinstance(w, tuple) and w and w[0] == 'ref': path = w[1]
        if 'e' in s.ti(t): return env, ('&', path + (('[', 0),)) if not lv else ('=', path)
        if s.h is not None and isinstance(path[0], tuple) and path[0][0] in ('st', 'heap') and hasattr(s.h, 'on_access'): s.h.on_access(s, env, path, t)
        if lv or s.isrec(t): return env, ('=', path)
        return env, s.get(env, path)
    def e_Int(s, n, c, env, lv): return env, n.get('v', TOP)
    def e_Float(s, n, c, env, lv): return env, n.get('v', TOP)
    def e_Str(s, n, c, env, lv): return env, ('&', (('str', n['v']), ('[', 0)))
    def e_DefArg(s, n, c, env, lv): return s.ev(c[0], env, lv)
    def e_SizeOf(s, n, c, env, lv):
        v = s.ti(n['at']).get('s', -1); return env, v if v and v > 0 else TOP
    def e_ZeroInit(s, n, c, env, lv): return env, 0
    def e_This(s, n, c, env, lv): return env, ('&', s.this[-1] or (('this?',),))
    def e_InitList(s, n, c, env, lv):
        t = (('v', s.frames[-1], 'il%d' % id(n)),); return s.initlist(n, env, t), ('=', t)
    def e_Ref(s, n, c, env, lv):
        dk = n['dk']
        if dk == 'enum': return env, n['cv']
        if dk == 'func': return env, ('fn', n['d'])
        if dk == 'global':
            path = (('g', n['d']),)
            if path not in env.m:
                g = s.p.globals.get(n['d'])
                if g and g['t'].startswith('const ') and g.get('c'):
                    x = g['c'][0]
                    while x and x['k'] in ('Construct', 'ICast', 'Cast') and x.get('c') and const(x) is None: x = x['c'][0]
                    if const(x) is not None and not s.isrec(g['t']): env.m[path] = const(x)
                    elif g['c'][0]['k'] == 'InitList': env = s.initlist(g['c'][0], env, path)
        elif dk == 'slocal': path = (('s', n['d']),)
        else:
            path = s.vp(n['d'])
            if path not in env.m:
                for fr in reversed(s.frames[:-1]):
                    q = (('v', fr, n['d']),)
                    if q in env.m: path = q; break
        return s.res(env, path, lv, n['t'])
    def deref(s, v, n):
        if isinstance(v, tuple) and v and v[0] == '&': return v[1]
        if isinstance(v, tuple) and v and v[0] == '=': return v[1]
        return (('u', n['l'], show(n)[:60]),)
    def obj(s, e, env, arrow):
        if e is None: return env, s.this[-1] or (('this?',),)
        if arrow:
            env, v = s.ev(e, env)
            if env is None: return None, None
            if isinstance(v, tuple) and v and v[0] == '=': 
                w = s.val(env, v)
                if w is TOP: return env, ('*',) + v[1] if False else (('*', v[1]),)
                return env, s.deref(w, e)
            if v is TOP:
                # remember where the pointer came from: initial contents of that cell
                e2, l = s.ev(e, env, True)
                if e2 is not None and isinstance(l, tuple) and l and l[0] == '=' and l[1] not in e2.m: return env, (('*', l[1]),)
            return env, s.deref(v, e)
        env, v = s.ev(e, env, True)
        if env is None: return None, None
        if isinstance(v, tuple) and v and v[0] == '=': return env, v[1]
        t = (('u', e['l'], show(e)[:60]),)
        return env, t
    def e_Member(s, n, c, env, lv):
        if n.get('sm') or not c: return s.res(env, (('g', n['d']),), lv, n['t'])
        if n.get('cv') is not None: return env, n['cv']
        env, b = s.obj(c[0], env, n.get('ar'))
        if env is None: return None, TOP
        return s.res(env, b + (n['d'],), lv, n['t'])
    def addidx(s, p, d, node=None):
        if p and isinstance(p[-1], tuple) and p[-1][0] == '[':
            o = p[-1][1]
            return p[:-1] + (('[', o + d if isinstance(o, int) and isinstance(d, int) else '?'),)
        if d == 0: return p
        return p + (('[', d if isinstance(d, int) else '?'),)
    def e_Index(s, n, c, env, lv):
        env, b = s.ev(c[0], env)
        if env is None: return None, TOP
        env, i = s.rv(c[1], env)
        if env is None: return None, TOP
        if isinstance(b, tuple) and b and b[0] == '=': b = s.val(env, b)
        if isinstance(i, tuple) and i and i[0] == '&': b, i = i, b
        if isinstance(i, bool): i = int(i)
        if isinstance(b, tuple) and b and b[0] == '&': path = s.addidx(b[1], i if isinstance(i, int) else TOP)
        else:
            e2, l = s.ev(c[0], env, True)
            root = ('*', l[1]) if isinstance(l, tuple) and l and l[0] == '=' and e2 is not None and (l[1] not in e2.m) else ('u', n['l'], show(c[0])[:60])
            path = (root, ('[', i if isinstance(i, int) else '?'))
        return s.res(env, path, lv, n['t'])
    def wrap(s, v, t):
        if isinstance(v, bool): v = int(v)
        i = s.ti(t)
        if i.get('int') and isinstance(v, int):
            b = i['bits'] or 32; v &= (1 << b) - 1
            if t and t.replace('const ', '') == 'bool': return v
            if i['int'] == 's' and v >= 1 << (b - 1): v -= 1 << b
        return v
    def e_ICast(s, n, c, env, lv):
        ck = n['ck']
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'Dynamic', 'UserDefinedConversion', 'NoOp', 'LValueBitCast', 'ConstructorConversion'):
            if lv or ck not in ('NoOp',): return s.ev(c[0], env, lv)
        if ck == 'NullToPointer':
            env, _ = s.ev(c[0], env); return env, 0
        env, v = s.rv(c[0], env)
        if env is None: return None, TOP
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'):
            t = s.truth(env, v); return env, TOP if t is None else int(t)
        if ck == 'IntegralCast': return env, s.wrap(v, n['t'])
        if ck == 'FloatingToIntegral': return env, s.wrap(int(v), n['t']) if isinstance(v, (int, float)) else TOP
        if ck == 'IntegralToFloating': return env, float(v) if isinstance(v, (int, float)) else TOP
        return env, v
    e_Cast = e_ICast
    def e_Construct(s, n, c, env, lv):
        if s.isb8(n.get('t')):
            if not c: return env, 0
            env, v = s.rv(c[0], env); return env, v
        t = (('v', s.frames[-1] if s.frames else 0, 'tmp%d' % id(n)),)
        f = s.p.funcs.get(n.get('f'))
        if c and len(c) == 1 and s.isrec(c[0].get('t')) and s.ti(c[0]['t']).get('rn') == n.get('cls') and not (f and f.get('body') and s.inline(f)):
            env, v = s.ev(c[0], env, True)
            if env is None: return None, TOP
            if isinstance(v, tuple) and v and v[0] == '=': s.copyobj(env, t, v[1], n)
            return env, ('=', t)
        env, vs = s.evargs(c, env, f)
        if env is None: return None, TOP
        env.m[t] = TOP
        r = s.h.on_call(s, env, n, n.get('f'), 'ctor', t, vs) if s.h is not None and hasattr(s.h, 'on_call') else None
        if r is not None: return r if isinstance(r, tuple) and isinstance(r[0], Env) else (env, ('=', t))
        if f and f.get('body') and s.inline(f) and f['id'] not in s.stack and len(s.stack) < s.depth:
            s.ctx.append(n.get('l'))
            env, _ = s.call(f, env, t, vs)
            s.ctx.pop()
            if env is None: return None, TOP
        return env, ('=', t)
    def e_Cond(s, n, c, env, lv):
        T, F = s.cond(c[0], env)
        a = b = None; x = y = None
        if T is not None: T, a = s.ev(c[1], T, lv)
        if F is not None: F, b = s.ev(c[2], F, lv)
        if T is None: return F, b
        if F is None: return T, a
        if not lv: a = s.val(T, a); b = s.val(F, b)
        e = join([T, F], s.initial)
        if isinstance(a, tuple) and a and a[0] == '=' or isinstance(b, tuple) and b and b[0] == '=':
            if a == b: return e, a
            if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == '=':
                p = joinp(a[1], b[1])
                if p is not None: return e, ('=', p)
            return e, TOP
        return e, joinv(a, b)
    def e_Un(s, n, c, env, lv):
        op = n['op']
        if op == '&':
            env, v = s.ev(c[0], env, True)
            if isinstance(v, tuple) and v and v[0] == '=': return env, ('&', v[1])
            return env, TOP
        if op == '*':
            env, b = s.obj(c[0], env, True)
            if env is None: return None, TOP
            return s.res(env, b, lv, n['t'])
        if op in ('++', '--'):
            env, r = s.ev(c[0], env, True)
            if env is None: return None, TOP
            if not (isinstance(r, tuple) and r and r[0] == '='): return env, TOP
            v = s.get(env, r[1]); d = 1 if op == '++' else -1
            nv = s.add(v, d, n['t'])
            if isinstance(nv, int): nv = s.wrap(nv, n['t'])
            s.put(env, r[1], nv, n)
            return env, (v if n.get('post') else (r if lv else nv))
        env, v = s.rv(c[0], env)
        if env is None: return None, TOP
        if op == '!':
            t = s.truth(env, v); return env, TOP if t is None else int(not t)
        if isinstance(v, (int, float)):
            if op == '-': return env, s.wrap(-v, n['t'])
            if op == '+': return env, v
            if op == '~' and isinstance(v, int): return env, s.wrap(~v, n['t'])
        return env, TOP
    def add(s, v, d, t):
        if isinstance(v, tuple) and v and v[0] == '&': return ('&', s.addidx(v[1], d if isinstance(d, int) else TOP))
        if isinstance(v, (int, float)) and isinstance(d, (int, float)): return v + d
        return TOP
    def e_Bin(s, n, c, env, lv):
        op = n['op']
        if op in ('&&', '||'):
            T, F = s.cond(n, env)
            if T is None: return F, 0
            if F is None: return T, 1
            return join([T, F], s.initial), TOP
        if op == ',':
            env, _ = s.ev(c[0], env); return s.ev(c[1], env, lv)
        env, a = s.rv(c[0], env)
        if env is None: return None, TOP
        env, b = s.rv(c[1], env)
        if env is None: return None, TOP
        return env, s.binop(op, a, b, n)
    def binop(s, op, a, b, n):
        num = isinstance(a, (int, float)) and isinstance(b, (int, float))
        if op in ('==', '!=', '<', '<=', '>', '>='):
            if num:
                return int({'==': a == b, '!=': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op])
            if op in ('==', '!='):
                for x, y in ((a, b), (b, a)):
                    if isinstance(x, tuple) and x and x[0] == '&' and y == 0 and not isinstance(y, tuple) and s.isvar(x[1]): return int(op == '!=')
                if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'fn': return int((a == b) == (op == '=='))
            return TOP
        if op == '+':
            if isinstance(a, tuple): return s.add(a, b, None)
            if isinstance(b, tuple): return s.add(b, a, None)
        if op == '-' and isinstance(a, tuple) and not isinstance(b, tuple): return s.add(a, -b if isinstance(b, int) else TOP, None)
        if op in ('*', '&') and (a == 0 or b == 0) and (isinstance(a, int) or isinstance(b, int)): return 0
        if not num: return TOP
        try:
            if op == '+': v = a + b
            elif op == '-': v = a - b
            elif op == '*': v = a * b
            elif op == '/':
                if isinstance(a, int) and isinstance(b, int): v = abs(a) // abs(b) * (1 if (a >= 0) == (b >= 0) else -1)
                else: v = a / b
            elif op == '%': v = a - b * (abs(a) // abs(b) * (1 if (a >= 0) == (b >= 0) else -1))
            elif op == '&': v = a & b
            elif op == '|': v = a | b
            elif op == '^': v = a ^ b
            elif op == '<<': v = a << b if 0 <= b < 64 else TOP
            elif op == '>>': v = a >> b if 0 <= b < 64 else TOP
            else: return TOP
        except (ZeroDivisionError, TypeError, OverflowError): return TOP
        return s.wrap(v, n['t']) if v is not TOP else TOP
    def e_Assign(s, n, c, env, lv):
        isr = s.isrec(n['t'])
        env, v = s.ev(c[1], env, isr)
        if env is None: return None, TOP
        env, l = s.ev(c[0], env, True)
        if env is None: return None, TOP
        if not (isinstance(l, tuple) and l and l[0] == '='): return env, s.val(env, v)
        if isr and isinstance(v, tuple) and v and v[0] == '=': s.copyobj(env, l[1], v[1], n); return env, l
        v = s.val(env, v)
        s.put(env, l[1], v, n)
        return env, l if lv else v
    def e_CAssign(s, n, c, env, lv):
        env, v = s.rv(c[1], env)
        if env is None: return None, TOP
        env, l = s.ev(c[0], env, True)
        if env is None or not (isinstance(l, tuple) and l and l[0] == '='): return env, TOP
        nv = s.binop(n['op'][:-1], s.get(env, l[1]), v, n)
        s.put(env, l[1], nv, n)
        return env, l if lv else nv
    def evargs(s, a, env, f):
        vs = []
        for i, x in enumerate(a):
            p = f['params'][i] if f and i < len(f['params']) else None
            ref = (p is not None and p.get('ref')) or s.isrec((x or {}).get('t')) or (p is None and bool((x or {}).get('lv')))
            env, v = s.ev(x, env, ref)
            if env is None: return None, None
            if not ref: v = s.val(env, v)
            vs.append(v)
        return env, vs
    def inline(s, f):
        return bool(s.h is not None and hasattr(s.h, 'inline') and s.h.inline(s, f))
    def docall(s, n, env, fid, f, this, vs, lv):
        name = n.get('fn') or (n.get('op') and 'operator' + n['op']) or ''
        if s.h is not None and hasattr(s.h, 'on_call'):
            r = s.h.on_call(s, env, n, fid, name, this, vs)
            if r is not None: return r
        if this is not None and s.h is not None and hasattr(s.h, 'resolve'):
            g = s.h.resolve(s, env, n, f, this)
            if g is not None: f = g
        if f and f.get('body') and s.inline(f) and f['id'] not in s.stack and len(s.stack) < s.depth:
            s.ctx.append(n.get('l'))
            e, v = s.call(f, env, this, vs)
            s.ctx.pop()
            if e is None: return None, TOP
            if isinstance(v, tuple) and v and v[0] == '=' and not lv and not s.isrec(n['t']): v = s.get(e, v[1])
            return e, v
        r = s.std(n, env, name, this, vs, lv)
        if r is not None: return r
        if this is not None and not n.get('cm') and not (name == 'operator[]'): s.forget(env, this)
        for i, v in enumerate(vs):
            pt = f['params'][i]['t'] if f and i < len(f['params']) else ''
            if 'const ' in pt: continue
            if isinstance(v, tuple) and v and v[0] == '=': 
                if pt.endswith('&') or not pt: s.forget(env, v[1])
            elif isinstance(v, tuple) and v and v[0] == '&' and v[1][0][0] != 'str': s.forget(env, v[1][:-1] if isinstance(v[1][-1], tuple) and v[1][-1][0] == '[' else v[1])
        if s.isrec(n['t']) or n.get('lv'):
            return env, ('=', (('call', n['l'], name, this),)) if lv or s.isrec(n['t']) else TOP
        return env, TOP
    def forget(s, env, path):
        if s.h is not None and hasattr(s.h, 'forget') and s.h.forget(s, env, path): return
        s.kill(env, path)
    def std(s, n, env, name, this, vs, lv):
        cls = n.get('cls') or (n.get('f') or '').split('::operator')[0]
        if this is not None and cls.startswith(('std::vector', 'std::array', 'std::deque')):
            if name in ('operator[]', 'at', 'back', 'front'):
                i = s.val(env, vs[0]) if vs else 0 if name == 'front' else TOP
                return s.res(env, this + (('[', i if isinstance(i, int) else '?'),), lv, n['t'])
            if name in ('resize', 'reserve', 'size', 'empty', 'capacity', 'shrink_to_fit'): return env, TOP
            if name in ('push_back', 'emplace_back'):
                return env, TOP
        if name in ('min', 'max') and len(vs) == 2:
            a, b = s.val(env, vs[0]), s.val(env, vs[1])
            if isinstance(a, (int, float)) and isinstance(b, (int, float)): return env, min(a, b) if name == 'min' else max(a, b)
            return env, TOP
        if name == 'swap' and len(vs) == 2 and all(isinstance(v, tuple) and v and v[0] == '=' for v in vs):
            a, b = s.get(env, vs[0][1]), s.get(env, vs[1][1]); s.put(env, vs[0][1], b, n); s.put(env, vs[1][1], a, n); return env, TOP
        if name == 'malloc': return env, ('&', (('heap', n['l'], s.fns[-1]['q'], tuple(s.ctx)), ('[', 0)))
        if name in ('memset',) and isinstance(vs[0], tuple) and vs[0] and vs[0][0] == '&':
            p = vs[0][1]; p = p[:-1] if isinstance(p[-1], tuple) and p[-1][0] == '[' and len(p) > 1 else p
            s.forget(env, p); return env, vs[0]
        return None
    def e_Call(s, n, c, env, lv):
        fid = n.get('f'); f = s.p.funcs.get(fid) if fid else None
        if not fid and n.get('callee'):
            env, v = s.ev(n['callee'], env)
            v = s.val(env, v)
            if isinstance(v, tuple) and v and v[0] == 'fn': fid = v[1]; f = s.p.funcs.get(fid)
        env, vs = s.evargs(c, env, f)
        if env is None: return None, TOP
        return s.docall(n, env, fid, f, None, vs, lv)
    def e_MCall(s, n, c, env, lv):
        fid = n.get('f'); f = s.p.funcs.get(fid) if fid else None
        if s.isb8((c[0] or {}).get('t')) and n.get('fn', '').startswith('operator'): return s.rv(c[0], env)
        arrow = 'p' in s.ti((c[0] or {}).get('t')) or n.get('ar')
        env, b = s.obj(c[0], env, arrow)
        if env is None: return None, TOP
        env, vs = s.evargs(c[1:], env, f)
        if env is None: return None, TOP
        return s.docall(n, env, fid, f, None if f and f.get('static') else b, vs, lv)
    def e_OpCall(s, n, c, env, lv):
        fid = n.get('f'); f = s.p.funcs.get(fid) if fid else None
        if n.get('op') == '=' and s.isb8(c[0]['t']):
            env, v = s.rv(c[1], env)
            env, l = s.ev(c[0], env, True)
            if env is not None and isinstance(l, tuple) and l and l[0] == '=': s.put(env, l[1], v, n)
            return env, l if lv else v
        if n.get('op') == '!' and s.isb8(c[0]['t']):
            env, v = s.rv(c[0], env); t = s.truth(env, v); return env, TOP if t is None else int(not t)
        if n.get('op') == '=' and n.get('meth') and s.isrec(c[0]['t']) and len(c) == 2 and s.ti(c[0]['t']).get('rn') == s.ti(c[1].get('t')).get('rn') and not (f and f.get('body') and s.inline(f)):
            env, v = s.ev(c[1], env, True)
            if env is None: return None, TOP
            env, l = s.ev(c[0], env, True)
            if env is not None and isinstance(l, tuple) and l and l[0] == '=':
                if isinstance(v, tuple) and v and v[0] == '=': s.copyobj(env, l[1], v[1], n)
                else: s.kill(env, l[1])
            return env, l
        if n.get('meth'):
            env, b = s.obj(c[0], env, False)
            if env is None: return None, TOP
            env, vs = s.evargs(c[1:], env, f)
            if env is None: return None, TOP
            return s.docall(n, env, fid, f, b, vs, lv)
        env, vs = s.evargs(c, env, f)
        if env is None: return None, TOP
        return s.docall(n, env, fid, f, None, vs, lv)
    def e_New(s, n, c, env, lv):
        for x in c:
            if isinstance(x, dict) and env is not None: env, _ = s.ev(x, env)
        return env, ('&', (('heap', n['l'], s.fns[-1]['q'], tuple(s.ctx)),) + ((('[', 0),) if n.get('arr') else ()))
    def e_Delete(s, n, c, env, lv):
        env, v = s.ev(c[0], env)
        return env, TOP
    def e_Lambda(s, n, c, env, lv): return env, TOP
    def e_Throw(s, n, c, env, lv): return None, TOP
