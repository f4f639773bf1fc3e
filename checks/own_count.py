"""Reference counts: every holder of a counted object counts once, the last one releases the object and the storage that goes with it."""
from own import *
import load
from ir import *

def counters(p, funcs):
    """[(counter class, count field, +1 methods, -1 methods, initial count)]"""
    out = []
    for rec, r in p.records.items():
        if rec.startswith('<T>'): continue
        for fd in r.get('fields', []):
            up = set(); down = {}
            for m in r.get('methods', []):
                f = p.funcs.get(m['f'])
                if f is None or not f.get('body') or f.get('ctor') or f.get('dtor'): continue
                d = 0
                for x in walk(f['body']):
                    l = unwrap(x['c'][0]) if x['k'] in ('Un', 'Assign', 'CAssign') and x.get('c') else {}
                    if l.get('k') == 'Member' and l['d'] == fd['d'] and x.get('op') not in ('!', '-', '&', '*', '~'):
                        d += 1 if x.get('op') in ('++', '+=') or x['k'] == 'Assign' and any(y['k'] == 'Bin' and y['op'] == '+' for y in walk(x)) else -1
                if d > 0: up.add(f['id'])
                elif d < 0 and f.get('ret') not in (None, 'void'): down[f['id']] = f
            if up and down:
                c0 = None
                for m in r.get('methods', []):
                    f = p.funcs.get(m['f'])
                    if f is None or not f.get('ctor') or not f.get('params') == [] : continue
                    for i in f.get('inits', []):
                        if i.get('m') == fd['d'] and const(i.get('e')) is not None: c0 = const(i['e'])
                    for x in walk(f.get('body') or {'k': 'Block'}):
                        if x['k'] == 'Assign' and unwrap(x['c'][0]).get('d') == fd['d'] and const(x['c'][1]) is not None: c0 = const(x['c'][1])
                out.append((rec, fd, up, down, c0))
    return out

class Many(Exception): pass

class Count:
    """paths of one function: which holder points to which counted object, and what was counted"""
    def __init__(s, p, h, sto, up, down, c0, inl, rep):
        s.p = p; s.h = h; s.sto = sto; s.up = up; s.down = down; s.c0 = c0; s.inl = inl; s.rep = rep; s.stack = []; s.steps = 0
    # a state: {'h': place -> value, 's': place -> storage value, 'd': value -> (holders, counts), 'n': value -> known null?, 'x': value -> 'last'|'gone', 'fr': freed storage}
    def new(s): return {'h': {}, 's': {}, 'd': {}, 'n': {}, 'x': {}, 'fr': frozenset(), 'v': {}, 'w': {}, 'own': {}}
    def cp(s, st): return {k: dict(v) if isinstance(v, dict) else v for k, v in st.items()}
    def sig(s, st): return tuple((k, tuple(sorted(v.items(), key=repr)) if isinstance(v, dict) else tuple(sorted(v))) for k, v in sorted(st.items()))
    def dd(s, sts):
        out = {}
        for k, st in sts: out.setdefault((k, s.sig(st)), (k, st))
        if len(out) > 400: raise Many()
        return list(out.values())
    def obj(s, e, env):
        """the place of an object expression, None if unknown"""
        e = unwrap(e)
        if not isinstance(e, dict): return None
        k = e['k']
        if k == 'This': return env.get('this')
        if k == 'Ref': return env.get(e['d'], e['d'])
        if k == 'Un' and e['op'] in ('*', '&'): return s.obj(e['c'][0], env)
        return None
    def hold(s, e, env):
        """holder place of a member expression X.h / X.s"""
        e = unwrap(e)
        if not isinstance(e, dict) or e['k'] != 'Member' or e['d'] not in (s.h, s.sto): return None
        o = s.obj(e['c'][0], env) if e.get('c') and e['c'][0] else env.get('this')
        return (o or '?', e['d'])
    def get(s, st, pl):
        o, d = pl
        t = st['h' if d == s.h else 's']
        if o not in t:
            if o in s.fresh_objs: t[o] = 'N'
            else:
                t[o] = ('h0' if d == s.h else 's0', o)
        if d == s.h and t[o] != 'N': st['d'].setdefault(t[o], (0, 0))
        return t[o]
    def val(s, st, e, env):
        e0 = unwrap(e)
        if not isinstance(e0, dict): return None
        if e0['k'] == 'Null' or const(e0) == 0: return 'N'
        pl = s.hold(e0, env)
        if pl is not None:
            if pl[0] == '?': return None
            return s.get(st, pl)
        if e0['k'] == 'Ref' and ('v', e0['d']) in st['v']: return st['v'][('v', e0['d'])]
        if e0['k'] == 'New' and not e0.get('arr') and (e0.get('at') or '').split('::')[-1] == s.rec.split('::')[-1]:
            v = ('new', e0['l'], id(e0)); st['d'][v] = (0, s.c0 if s.c0 is not None else 1); st['n'][v] = False
            return v
        if e0['k'] in ('Call',) and e0.get('fn') in ALLOC: return ('mem', e0['l'])
        if e0['k'] == 'Ref': return ('ext', e0['d'])
        return None
    def add(s, st, v, dh, dr):
        h, r = st['d'].get(v, (0, 0)); st['d'][v] = (h + dh, r + dr)
    def put(s, st, pl, v, n):
        o, d = pl
        if o == '?': return
        if d == s.h:
            old = s.get(st, pl)
            if old != 'N': s.add(st, old, -1, 0)
            st['h'][o] = v if v is not None else ('u', n['l'])
            if v not in ('N', None): s.add(st, v, 1, 0)
        else: 
            s.get(st, pl); st['s'][o] = v if v is not None else ('u', n['l'])
    def assume(s, st, c, truth, env):
        """[states] in which the condition has the value"""
        c = unwrap(c)
        if not isinstance(c, dict): return [st]
        if c['k'] == 'OpCall' and c.get('op') == '!' and c.get('c'): return s.assume(st, c['c'][0], not truth, env)
        if c['k'] == 'OpCall' and c.get('op') in ('==', '!=', '&&', '||') and len(c['c']) == 2: c = dict(c, k='Bin')
        if c['k'] == 'Un' and c['op'] == '!': return s.assume(st, c['c'][0], not truth, env)
        if c['k'] == 'Bin' and c['op'] in ('&&', '||'):
            if (c['op'] == '&&') == truth:
                return [y for x in s.assume(st, c['c'][0], truth, env) for y in s.assume(x, c['c'][1], truth, env)]
            a = s.assume(s.cp(st), c['c'][0], truth, env)
            b = [y for x in s.assume(s.cp(st), c['c'][0], not truth, env) for y in s.assume(x, c['c'][1], truth, env)]
            return a + b
        ptr = None
        if c['k'] == 'Bin' and c['op'] in ('==', '!='):
            a, b = unwrap(c['c'][0]), unwrap(c['c'][1])
            z = lambda x: isinstance(x, dict) and (x['k'] == 'Null' or const(x) == 0)
            if z(a) or z(b):
                ptr = b if z(a) else a
                if c['op'] == '==': truth = not truth
                if isinstance(ptr, dict) and (ptr['k'] == 'MCall' or ptr['k'] == 'Ref' and ('w', ptr['d']) in st['w']): return s.assume(st, ptr, truth, env)
            elif (c['op'] == '==') == truth and isinstance(a, dict) and isinstance(b, dict):
                pa, pb = s.obj(a, env), s.obj(b, env)
                if pa is not None and pa == pb: return [st]
                s.expr(st, a, env); s.expr(st, b, env); return [st]
            else:
                pa, pb = s.obj(a, env), s.obj(b, env)
                if pa is not None and pa == pb: return []
        if ptr is None and c['k'] in ('Member', 'Ref'): ptr = c
        if ptr is not None:
            if unwrap(ptr)['k'] == 'Ref' and ('w', unwrap(ptr)['d']) in st['w']:
                return s.decide(st, st['w'][('w', unwrap(ptr)['d'])], truth)
            if unwrap(ptr)['k'] in ('Member', 'Ref'):
                pl = s.hold(ptr, env)
                isv = pl is not None and pl[1] == s.h and pl[0] != '?' or unwrap(ptr)['k'] == 'Ref' and ('v', unwrap(ptr)['d']) in st['v']
                if isv:
                    v = s.val(st, ptr, env)
                    if v == 'N': return [] if truth else [st]
                    if v in st['n']: return [st] if st['n'][v] != truth else []
                    st['n'][v] = not truth; return [st]
                if pl is not None and pl[1] == s.sto and pl[0] != '?':
                    v = s.get(st, pl); kv = ('s', v)
                    if kv in st['n']: return [st] if st['n'][kv] != truth else []
                    st['n'][kv] = not truth
                return [st]
        if c['k'] in ('MCall', 'Call') and c.get('f') in s.down:
            v = s.sub(st, c, env)
            return s.decide(st, v, truth)
        r = s.expr(st, c, env)
        return r
    def decide(s, st, v, truth):
        if v is None: return [st]
        if truth:
            if st['x'].get(v) == 'rest': return []
            st['x'][v] = 'last'
        else:
            if st['x'].get(v) == 'last': return []
            st['x'][v] = 'rest'
        return [st]
    def sub(s, st, n, env):
        v = s.val(st, n['c'][0], env) if n.get('c') else None
        if v in ('N', None): return None
        if v in st['x'] : s.rep(n, 'counts down twice')
        s.add(st, v, 0, -1); st['x'].setdefault(v, 'sub'); s.ops += 1
        return v
    # ---- effects: return list of states
    def expr(s, st, n, env):
        sts = [st]
        if not isinstance(n, dict): return sts
        k = n['k']
        if k == 'Lambda': return sts
        if k == 'Bin' and n['op'] in ('&&', '||') or k == 'Cond' and len(n['c']) == 3:
            if k == 'Cond': return [y for t in (True, False) for x in s.assume(s.cp(st), n['c'][0], t, env) for y in s.expr(x, n['c'][1 if t else 2], env)]
            t = n['op'] == '&&'
            return [y for x in s.assume(s.cp(st), n['c'][0], t, env) for y in s.expr(x, n['c'][1], env)] + s.assume(s.cp(st), n['c'][0], not t, env)
        if k in ('MCall', 'Call') and n.get('f') in s.down: s.sub(st, n, env); return [st]
        if k in ('MCall', 'Call') and n.get('f') in s.up:
            v = s.val(st, n['c'][0], env) if n.get('c') else None; s.ops += 1
            if v not in ('N', None): s.add(st, v, 0, 1)
            return [st]
        if k == 'Assign':
            sts = s.expr(st, n['c'][1], env); out = []
            pl = s.hold(n['c'][0], env); l = unwrap(n['c'][0])
            for x in sts:
                if pl is not None: s.put(x, pl, s.val(x, n['c'][1], env), n); s.ops += 1
                elif l.get('k') == 'Ref': s.local(x, l['d'], n['c'][1], env)
                out += [x]
            return out
        if k == 'Delete':
            v = s.val(st, n['c'][0], env)
            if v not in ('N', None) and v in st['d']:
                s.ops += 1
                if st['x'].get(v) != 'last': s.rep(n, 'the counter is deleted although other holders may be left')
                st['x'][v] = 'gone'
            return [st]
        if k == 'Call' and n.get('fn') == 'free' and args(n):
            pl = s.hold(args(n)[0], env)
            a = unwrap(args(n)[0])
            if pl is not None and pl[1] == s.sto and pl[0] != '?':
                v = s.get(st, pl); h = s.get(st, (pl[0], s.h)); s.ops += 1
                if h != 'N' and st['x'].get(h) not in ('last', 'gone') and not st['n'].get(h): s.rep(n, 'the storage is released although other holders may be left')
                st['fr'] = st['fr'] | {v}
            elif a['k'] == 'Ref' and ('v', a['d']) in st['v']:
                st['fr'] = st['fr'] | {st['v'][('v', a['d'])]}
            return [st]
        if k in ('MCall', 'Call', 'OpCall') and n.get('f') in s.inl and n['f'] not in s.stack and len(s.stack) < 4:
            return s.call(st, n, env)
        for c in kids(n): sts = [y for x in sts for y in s.expr(x, c, env)]
        if k == 'Var' and kids(n):
            for x in sts:
                c = [c for c in kids(n)]
                if c: s.local(x, n['d'], c[0], env)
        return sts
    def local(s, st, d, e, env):
        st['v'].pop(('v', d), None); st['w'].pop(('w', d), None)
        e = unwrap(e)
        if not isinstance(e, dict): return
        pl = s.hold(e, env)
        if pl is not None and pl[0] != '?': st['v'][('v', d)] = s.val(st, e, env)
        elif e['k'] == 'New' and (e.get('at') or '').split('::')[-1] == s.rec.split('::')[-1]: st['v'][('v', d)] = s.val(st, e, env)
        elif e['k'] == 'Call' and e.get('fn') in ALLOC: st['v'][('v', d)] = s.val(st, e, env)
        elif e['k'] in ('MCall', 'Call') and e.get('f') in s.down:
            vs = [v for v, x in st['x'].items() if x == 'sub']
            if vs: st['w'][('w', d)] = vs[-1]
    def call(s, st, n, env):
        g = s.p.funcs[n['f']]
        new = {}
        av = args(n)
        if n['k'] == 'OpCall' and len(n['c']) == len(g['params']) + 1: av = n['c'][1:]; new['this'] = s.obj(n['c'][0], env)
        elif n['k'] == 'MCall' and n.get('c'): new['this'] = s.obj(n['c'][0], env) if isinstance(n['c'][0], dict) else env.get('this')
        elif n['k'] == 'Call' : new['this'] = env.get('this')
        for pa, a in zip(g['params'], av):
            o = s.obj(a, env)
            new[pa['d']] = o if o is not None else ('tmp', n['l'], pa['n'])
            if isinstance(a, dict):
                a = unwrap(a)
                v = s.val(st, a, env) if s.hold(a, env) else None
                if v is not None: st['v'][('v', pa['d'])] = v
        s.stack.append(g['id'])
        try: res = s.run(g['body'], [st], new)
        finally: s.stack.pop()
        return [x for k, x in res]
    # ---- statements: [(kind, state)]
    def run(s, n, sts, env):
        s.steps += len(sts)
        if not isinstance(n, dict): return [('next', x) for x in sts]
        k = n['k']
        if k == 'Block':
            out = []; cur = sts
            for c in kids(n):
                r = s.dd(s.run(c, cur, env)); out += [x for x in r if x[0] != 'next']; cur = [x for kk, x in r if kk == 'next']
                if not cur: break
            return out + [('next', x) for x in cur]
        if k == 'If':
            out = []
            for st in sts:
                for t in (True, False):
                    xs = s.assume(s.cp(st), n['c'][0], t, env)
                    b = n['c'][1] if t else n['c'][2] if len(n['c']) > 2 else None
                    out += s.run(b, xs, env) if b else [('next', x) for x in xs]
            return s.dd(out)
        if k in ('For', 'While', 'Do', 'RangeFor', 'Switch'):
            if not s.hot(n): 
                out = [('next', x) for x in sts]
                if any(y['k'] == 'Return' for y in walk(n)): out += [('return', s.cp(x)) for x in sts]
                return out
            cs = list(kids(n)); out = [('next', s.cp(x)) for x in sts] if k not in ('Do', 'Switch') else []
            cur = sts
            for c in cs:
                r = s.run(c, cur, env) if c['k'] in ('Block', 'If', 'For', 'While', 'Do', 'Decl', 'Return', 'Case', 'Switch') else [('next', y) for x in cur for y in s.expr(x, c, env)]
                out += [x for x in r if x[0] == 'return']; cur = [x for kk, x in r if kk != 'return']
            return s.dd(out + [('next', x) for x in cur])
        if k == 'Return':
            return [('return', y) for x in sts for y in (s.expr(x, n['c'][0], env) if n.get('c') and isinstance(n['c'][0], dict) else [x])]
        if k in ('Break', 'Continue', 'Goto'): return [('brk', x) for x in sts]
        if k in ('OMP', 'Label', 'Default', 'Case'):
            return s.run(n['c'][-1], sts, env) if n.get('c') else [('next', x) for x in sts]
        return [('next', y) for x in sts for y in s.expr(x, n, env)]
    def hot(s, n):
        return any(y['k'] == 'Member' and y['d'] in (s.h, s.sto) or y.get('f') in s.inl or y.get('f') in s.up or y.get('f') in s.down for y in walk(n))

def holders(p, funcs, rec):
    """[(holder class, field)] of pointers to the counter class, with the companion storage released together with it"""
    out = []
    for q, r in p.records.items():
        for fd in r.get('fields', []):
            t = fd['t'].replace('class ', '').replace('struct ', '').strip()
            if t.endswith('*') and t[:-1].strip().split('::')[-1] == rec.split('::')[-1] and 'const' not in t: out.append((q, fd['d']))
    return out

def counted(o, R):
    p = o.p; n = 0; o.counted = set()
    for rec, fd, up, down, c0 in counters(p, o.funcs):
        # somebody counts down and deletes in the same function (or class): this is a reference count, not just a number
        def deletes(f):
            ms = {unwrap(x['c'][0]).get('d') for x in walk_fn(f) if x['k'] in ('MCall', 'Call') and x.get('f') in down and x.get('c') and isinstance(x['c'][0], dict)}
            return any(x['k'] == 'Delete' and x.get('c') and (unwrap(x['c'][0]).get('d') in ms or unwrap(x['c'][0])['k'] == 'This') for x in walk_fn(f)) and None not in ms and ms
        if not any(deletes(f) for f in o.funcs): continue
        n += 1
        # the counter's own operations
        for i, f in down.items():
            R.ob('%s tells whether the count reached zero' % f['q']); R.count('counters')
            rets = [x for x in walk(f['body']) if x['k'] == 'Return' and x.get('c')]
            ok = False
            def zero(e, depth=0):
                e = unwrap(e)
                if not isinstance(e, dict): return False
                if e['k'] == 'Bin' and e['op'] in ('==', '<=') and const(e['c'][1]) == 0 or e['k'] == 'Bin' and e['op'] == '<' and const(e['c'][1]) == 1 or e['k'] == 'Bin' and e['op'] in ('==', '>=') and const(e['c'][0]) == 0 or e['k'] == 'Un' and e['op'] == '!':
                    x = unwrap(e['c'][0] if e['k'] == 'Un' or const(e['c'][0]) is None else e['c'][1])
                    if x['k'] == 'Un' and x['op'] == '--' and not x.get('post'): x = unwrap(x['c'][0])
                    if x['k'] == 'CAssign' or x['k'] == 'Assign': x = unwrap(x['c'][0])
                    if x.get('d') == fd['d']: return True
                    if x['k'] == 'Ref' and depth < 3: return any(v['k'] == 'Var' and v['d'] == x['d'] and any(unwrap(c).get('d') == fd['d'] or unwrap(c)['k'] == 'Un' and unwrap(unwrap(c)['c'][0]).get('d') == fd['d'] and not unwrap(c).get('post') for c in kids(v)) or v['k'] == 'Assign' and unwrap(v['c'][0]).get('d') == x['d'] and any(y.get('d') == fd['d'] for y in walk(v['c'][1])) for v in walk(f['body']))
                    return False
                if e['k'] == 'Un' and e['op'] == '!' : return False
                if e['k'] == 'Cond': return zero(e['c'][0]) and const(e['c'][1]) not in (0, None) and const(e['c'][2]) == 0
                if e['k'] == 'Ref' and depth < 3:
                    vs = [v for v in walk(f['body']) if v['k'] == 'Var' and v['d'] == e['d'] and list(kids(v)) or v['k'] == 'Assign' and unwrap(v['c'][0]).get('d') == e['d']]
                    return any(zero(list(kids(v))[-1], depth + 1) for v in vs)
                return False
            odd = [x for x in rets if not zero(x['c'][0]) and const(x['c'][0]) is None]
            lits = [x for x in rets if const(x['c'][0]) is not None]
            if odd or not rets or len(lits) == len(rets) and not any(y['k'] == 'If' and zero(y['c'][0]) for y in walk(f['body'])):
                R.bad('the result does not say whether the count reached zero', f['file'], f['line'], f['id'], key='%s|zero' % f['q'])
            step(p, R, f, fd, -1)
        for i in up: step(p, R, p.funcs[i], fd, 1)
        for cls, h in holders(p, o.funcs, rec):
            o.counted |= scan(o, R, rec, cls, h, up, down, c0)
    if not n: raise load.Broken('no reference count found')

def step(p, R, f, fd, want):
    """the count changes by one on every path"""
    R.ob('%s changes the count by %d' % (f['q'], want))
    def delta(n):
        """set of changes over the paths"""
        if not isinstance(n, dict): return {0}
        k = n['k']; l = unwrap(n['c'][0]) if k in ('Un', 'Assign', 'CAssign') and n.get('c') else {}
        if l.get('d') == fd['d'] and l.get('k') == 'Member':
            if k == 'Un' and n['op'] in ('++', '--'): return {1 if n['op'] == '++' else -1}
            if k == 'CAssign': v = const(n['c'][1]); return {v if n['op'] == '+=' else -v} if v is not None and n['op'] in ('+=', '-=') else {None}
            if k == 'Assign':
                r = unwrap(n['c'][1])
                if r['k'] == 'Bin' and r['op'] in ('+', '-') and unwrap(r['c'][0]).get('d') == fd['d'] and const(r['c'][1]) is not None: return {const(r['c'][1]) * (1 if r['op'] == '+' else -1)}
                if r['k'] == 'Ref': return {want}
                return {None}
        if k == 'If':
            a = delta(n['c'][0]); b = delta(n['c'][1]) | (delta(n['c'][2]) if len(n['c']) > 2 and n['c'][2] else {0})
            return {None if x is None or y is None else x + y for x in a for y in b}
        if k in ('For', 'While', 'Do'):
            b = set().union(*[delta(c) for c in kids(n)]) if list(kids(n)) else {0}
            return {0} if b == {0} else {None}
        out = {0}
        for c in kids(n): out = {None if x is None or y is None else x + y for x in out for y in delta(c)}
        return out
    d = delta(f['body'])
    if d != {want}: R.bad('the count does not change by exactly one on every path', f['file'], f['line'], f['id'], key='%s|step' % f['q'])

def scan(o, R, rec, cls, h, up, down, c0):
    p = o.p
    # storage released together with the counter
    sto = None; base = h.rsplit('::', 1)[0]
    for f in o.funcs:
        if not f.get('body') or not any(x['k'] in ('MCall', 'Call') and x.get('f') in down for x in walk(f['body'])): continue
        for x in walk(f['body']):
            if x['k'] == 'Call' and x.get('fn') == 'free' and args(x):
                a = unwrap(args(x)[0])
                if a['k'] == 'Member' and a['d'].rsplit('::', 1)[0] == base and a['d'] != h: sto = a['d']
                if a['k'] == 'Ref':
                    for v in walk(f['body']):
                        if v['k'] == 'Var' and v['d'] == a['d']:
                            for c in kids(v):
                                c = unwrap(c)
                                if c.get('k') == 'Member' and c['d'].rsplit('::', 1)[0] == base and c['d'] != h: sto = c['d']
    def touches(f): return any(x['k'] in ('MCall', 'Call') and (x.get('f') in up or x.get('f') in down) or x['k'] == 'Assign' and unwrap(x['c'][0]).get('d') == h or x['k'] == 'Assign' and unwrap(x['c'][0]).get('d') == sto and sto or x['k'] == 'Delete' and x.get('c') and unwrap(x['c'][0]).get('d') == h for x in walk_fn(f))
    direct = {f['id'] for f in o.funcs if f.get('body') and touches(f) and f['id'] not in up and f['id'] not in down and f.get('cls') != rec}
    called = {x.get('f') for f in o.funcs for x in walk_fn(f) if x['k'] in ('MCall', 'Call')}
    inl = set(direct); ch = True
    while ch:
        ch = False
        for a in o.funcs:
            if a['id'] in inl or a.get('cls') != base or not a.get('body') or a['id'] in up or a['id'] in down: continue
            if any(x['k'] in ('MCall', 'Call') and x.get('f') in inl and (x['k'] == 'Call' or not x.get('c') or not isinstance(x['c'][0], dict) or unwrap(x['c'][0])['k'] == 'This') and p.funcs[x['f']].get('access') in ('private', 'protected') for x in walk(a['body'])): inl.add(a['id']); ch = True
    for fid in sorted(inl):
        f = p.funcs[fid]
        if f.get('access') in ('private', 'protected') and fid in called and fid in direct: continue     # looked at inside its callers
        found = {}
        def rep(n, msg): found.setdefault((n['l'], msg), None)
        C = Count(p, h, sto, up, down, c0, inl, rep); C.rec = rec; C.ops = 0
        env = {'this': 'this'}; refs = set()
        C.fresh_objs = {x['d'] for x in walk_fn(f) if x['k'] == 'Var' and base.split('::')[-1] == (x.get('t') or '').replace('const ', '').strip().split('::')[-1]}
        if f.get('ctor'): C.fresh_objs.add('this')
        st = C.new(); C.stack = [fid]
        try: res = C.run(f['body'], [st], env)
        except Many: R.note('%s: too many paths' % f['q']); R.count('partial'); continue
        R.count('counted_functions'); R.count('counted_operations', C.ops)
        R.ob('%s: every holder is counted' % f['q'])
        end = {'l': f.get('end', f['line'])}
        for kk, x in res:
            for v, (dh, dr) in x['d'].items():
                if v == 'N' or x['n'].get(v) is True: continue
                last = x['x'].get(v)
                if last in ('last', 'gone'):
                    if last == 'last': rep(end, 'the last holder goes, but the counter is not deleted')
                    left = [q for q, w in x['h'].items() if w == v]
                    if f.get('dtor'): left = [q for q in left if q != 'this']
                    if left: rep(end, 'a holder keeps the counter that was deleted')
                    if sto:
                        ss = {('s0', v[1])} if v[0] == 'h0' else set()
                        for sv in ss:
                            if sv not in x['fr'] and not x['n'].get(('s', sv)): rep(end, 'the last holder goes, but the storage is not released')
                    continue
                if f.get('dtor') and x['h'].get('this', v) == v: dh -= 1
                if dh > dr and last != 'sub': rep(end, 'a holder takes the storage over without counting')
                elif dh < dr: rep(end, 'the storage is counted more often than it is held')
            if sto:
                for q, v in x['h'].items():
                    if v == 'N' or v == ('h0', q) or v[0] not in ('h0', 'new') or f.get('dtor'): continue
                    if x['n'].get(v) is True: continue
                    sv = x['s'].get(q, 'N' if q in C.fresh_objs else ('s0', q))
                    if v[0] == 'h0':
                        R.count('shared_storage')
                        if sv != ('s0', v[1]) and sv != x['s'].get(v[1], ('s0', v[1])): rep(end, 'a holder of the counter does not take the storage over with it')
                    elif sv == 'N' or sv == ('s0', q): rep(end, 'a new counter without its storage')
        for (l, msg) in sorted(found): R.bad(msg, f['file'], l, f['id'], key='%s|count|%s' % (f['q'], msg))
    return {h, sto}
