"""C10: code chosen by an element type works on that type.
Every function that branches on an mt_Depth value is walked once per assignment of element types to the depth expressions it
tests; the C++ element types reached (template arguments of calls, pointer types, pointed-to casts, sizeof) are compared with
the assigned ones."""
import itertools, re, sys
import load, ir
from common import run_check
EN = 'basicmath::mt_Depth'
CT = {'mt_U8': 'unsigned char', 'mt_I8': 'char', 'mt_U16': 'unsigned short', 'mt_I16': 'short', 'mt_U32': 'unsigned int',
      'mt_I32': 'int', 'mt_U64': 'unsigned long long', 'mt_I64': 'long long', 'mt_F32': 'float', 'mt_F64': 'double'}
NUM = set(CT.values()) | {'signed char', 'unsigned long', 'long'}
CANON = {'signed char': 'char', 'unsigned long': 'unsigned long long', 'long': 'long long'}
def canon(t):
    t = re.sub(r'\b(const|volatile)\b', '', t).strip()
    return CANON.get(t, t) if t in NUM else None
def tparams(fid):
    """(base name, [types]) of the explicit numeric template arguments in a function id"""
    i = fid.find('('); h = fid if i < 0 else fid[:i]
    out = []; d = 0; cur = ''; base = ''
    for ch in h:
        if ch == '<':
            d += 1
            if d == 1: cur = ''; continue
        if ch == '>':
            d -= 1
            if d == 0: out.append(cur); continue
        if d == 0: base += ch
        elif ch == ',' and d == 1: out.append(cur); cur = ''
        else: cur += ch
    return base, [canon(x) for x in out]

class Walk:
    """types reached in one function under an assignment of depth expressions"""
    def __init__(s, f, consts, prog=None, deep=0):
        s.prog = prog; s.deep = deep; s.rets = None; s.f = f; s.consts = consts; s.alias = {}
        asg = {}
        for n in ir.walk_fn(f):
            if n['k'] == 'Var' and n.get('c') and n['c'][0] and n['t'].replace('const ', '') in (EN, 'int', 'bool', 'basicsys::b8', 'const ' + EN): s.alias[n['n']] = n['c'][0]
            if n['k'] in ('Assign', 'CAssign') and n['c'][0]['k'] == 'Ref': asg[n['c'][0]['n']] = 1
        for a in asg: s.alias.pop(a, None)
    def key(s, e):
        e = ir.strip(e)
        k = 0
        while e['k'] == 'Ref' and e['n'] in s.alias and k < 5: e = ir.strip(s.alias[e['n']]); k += 1
        return ir.show(e)
    def isdepth(s, e):
        e0 = ir.strip(e)
        return EN in str(e0.get('t')) and not (e0['k'] == 'Ref' and e0.get('dk') == 'enum')
    def enumc(s, e):
        e0 = ir.strip(e)
        if e0['k'] == 'Ref' and e0.get('dk') == 'enum' and e0.get('en') == EN: return e0['cv']
        return None
    def subjects(s):
        r = []; two = []
        def add(e):
            k = s.key(e)
            if k not in r: r.append(k)
        for n in ir.walk_fn(s.f):
            if n['k'] == 'Switch' and any(x['k'] == 'Case' and s.enumc(x['c'][0]) is not None for x in ir.walk(n['c'][1])): add(n['c'][0])
            if n['k'] == 'Bin' and n['op'] in ('==', '!=', '<', '>', '<=', '>='):
                a, b = n['c']
                if s.enumc(b) is not None: add(a)
                elif s.enumc(a) is not None: add(b)
                elif s.isdepth(a) and s.isdepth(b): two.append((a, b))
        for a, b in two:
            if s.key(a) in r or s.key(b) in r: add(a); add(b)
        return r
    def val(s, e, env):
        c = s.enumc(e)
        if c is None: c = ir.const(e)
        if c is not None: return c
        e = ir.strip(e)
        while e['k'] in ('Construct', 'Temp', 'Bind') and e.get('c'): e = ir.strip(e['c'][0])
        if e['k'] == 'Str': return e['v']
        return env.get(s.key(e))
    def chan(s, a, b, env):
        """M.depth_channel() == mt_F32C1: what it says about M.depth()"""
        a = ir.strip(a); b = ir.strip(b)
        for x, y in ((a, b), (b, a)):
            if x['k'] == 'MCall' and x.get('fn') == 'depth_channel' and y['k'] == 'Ref':
                m = re.match(r'(mt_[A-Z]\d+)C', y['n'])
                k = ir.show(x['c'][0]) + '.depth()'
                if m and m.group(1) in s.consts and k in env and env[k] != s.consts[m.group(1)]: return False
        return None
    def cond(s, e, env):
        e = ir.strip(e); i = 0
        while e['k'] == 'Ref' and e['n'] in s.alias and i < 5: e = ir.strip(s.alias[e['n']]); i += 1
        if e['k'] == 'Bin':
            op = e['op']
            if op in ('&&', '||'):
                a = s.cond(e['c'][0], env); b = s.cond(e['c'][1], env)
                if op == '&&': return False if a is False or b is False else (True if a and b else None)
                return True if a or b else (False if a is False and b is False else None)
            if op in ('==', '!=', '<', '>', '<=', '>='):
                a = s.val(e['c'][0], env); b = s.val(e['c'][1], env)
                if a is None or b is None: return None
                return {'==': a == b, '!=': a != b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[op]
        if e['k'] == 'OpCall' and e.get('op') in ('==', '!=') and len(e['c']) == 2:
            x, y = s.val(e['c'][0], env), s.val(e['c'][1], env)
            a = (x == y) if isinstance(x, str) and isinstance(y, str) else s.chan(e['c'][0], e['c'][1], env)
            return a if a is None or e['op'] == '==' else not a
        if e['k'] in ('Call', 'Construct', 'MCall') and len(e.get('c') or []) == 1 and ('b8' in str(e.get('t', '')) + str(e.get('cls', '')) or 'b8' in str(e['c'][0].get('t'))): return s.cond(e['c'][0], env)
        if e['k'] == 'Un' and e['op'] == '!':
            a = s.cond(e['c'][0], env); return None if a is None else not a
        return None
    def conj(s, e):
        e = ir.strip(e)
        if e['k'] == 'Bin' and e['op'] == '&&': return s.conj(e['c'][0]) + s.conj(e['c'][1])
        return [e]
    def isassert(s, n):
        """if (!(condition) && logger ...) logger->print(...): the condition is a documented precondition"""
        return any(x['k'] in ('Call', 'MCall') and x.get('fn') == 'get_logger' for x in ir.walk(n['c'][0])) and not (len(n['c']) > 2 and n['c'][2]) and len(s.conj(n['c'][0])) > 2
    def reach(s, env):
        s.outside = False; s.told = False; s.helped = set()
        s.ev = {}; s.slots = {}
        s.stmt(s.f.get('body'), env)
        return s.ev, s.slots
    def inline(s, e, g, env):
        """what a helper that branches on a type known here reaches"""
        if g.get('dep') or not g.get('body') or g is s.f: return
        w = Walk(g, s.consts, s.prog, s.deep + 1); subs = w.subjects()
        if not subs: return
        mine = {}
        for p, a in zip(g['params'], ir.args(e)):
            if not isinstance(a, dict): continue
            v = s.val(a, env)
            if v is not None and not isinstance(v, str) and s.key(a) in env: mine[p['n']] = v
            k = ir.show(ir.strip(a)).replace('*this', 'this').strip('()') + '.depth()'
            if k in env: mine[p['n'] + '.depth()'] = env[k]
        if e['k'] == 'MCall':
            k = ir.show(ir.strip(e['c'][0])) + '.depth()'
            if k in env: mine['this.depth()'] = env[k]
        if not any(x in mine for x in subs): return
        w.reach(mine); s.helped |= w.helped | {t for t, l in w.ev.values()}   # the helper's own choice is judged where it stands
        s.told = s.told or w.told
    def note(s, t, n, i=0):
        if t: s.ev[(id(n), i)] = (t, n.get('l'))
    def expr(s, e, env):
        if not isinstance(e, dict): return
        if e['k'] == 'Cond':
            v = s.cond(e['c'][0], env); s.expr(e['c'][0], env)
            if v is not False: s.expr(e['c'][1], env)
            if v is not True: s.expr(e['c'][2], env)
            return
        if e['k'] == 'Bin' and e['op'] in ('&&', '||'):
            s.expr(e['c'][0], env); v = s.cond(e['c'][0], env)
            if not (v is False and e['op'] == '&&') and not (v is True and e['op'] == '||'): s.expr(e['c'][1], env)
            return
        k = e['k']
        if k in ('Call', 'MCall', 'OpCall') and e.get('f') and not e['f'].startswith('std::'):
            base, ts = tparams(e['f'])
            for i, t in enumerate(ts):
                if t: s.note(t, e, i); s.slots.setdefault((base, len(ts), i), []).append((t, e.get('l')))
        if k in ('Call', 'MCall') and s.prog is not None and e.get('f') in s.prog.funcs and s.deep < 3: s.inline(e, s.prog.funcs[e['f']], env)
        if k in ('Cast', 'Var') and str(e.get('t', '')).rstrip().endswith('*'):
            t = canon(str(e['t']).rstrip()[:-1].rstrip('* '))
            s.note(t, e)
        if k == 'SizeOf': s.note(canon(str(e.get('at'))), e)
        for c in ir.kids(e): s.expr(c, env)
    def block(s, cs, env):
        for c in cs:
            if s.stmt(c, env): return True
        return False
    def stmt(s, n, env):
        """True when control does not go on behind it"""
        if not isinstance(n, dict): return False
        k = n['k']; c = n.get('c') or []
        if k == 'Block': return s.block(c, env)
        if k in ('Break', 'Continue'): return k
        if k == 'Return':
            for x in c: s.expr(x, env)
            if s.rets is not None: s.rets.append(s.val(c[0], env) if c else None)
            return 'Return'
        if k == 'If':
            if s.isassert(n):
                if any(s.cond(x, env) is True for x in s.conj(c[0])): s.outside = True
                return False
            if any(x['k'] in ('Call', 'MCall') and x.get('fn') == 'get_logger' for x in ir.walk(c[0])): s.told = True; return False
            s.expr(n.get('init'), env); s.expr(c[0], env); v = s.cond(c[0], env)
            a = s.stmt(c[1], env) if v is not False else 'dead'
            b = (s.stmt(c[2], env) if len(c) > 2 and c[2] else False) if v is not True else 'dead'
            if a and b: return a if a != 'dead' else b
            return False
        if k == 'Switch':
            s.expr(c[0], env); v = s.val(c[0], env)
            items = []
            def flat(x):
                while isinstance(x, dict) and x['k'] in ('Case', 'Default'):
                    items.append(('lab', x)); x = x['c'][-1]
                items.append(('st', x))
            for x in (c[1].get('c') or []) if c[1]['k'] == 'Block' else [c[1]]: flat(x)
            if v is None:
                for a, x in items:
                    if a == 'st': s.stmt(x, env)
                return False
            start = None
            for i, (a, x) in enumerate(items):
                if a == 'lab' and x['k'] == 'Case' and (s.enumc(x['c'][0]) if s.enumc(x['c'][0]) is not None else ir.const(x['c'][0])) == v: start = i
            if start is None:
                for i, (a, x) in enumerate(items):
                    if a == 'lab' and x['k'] == 'Default': start = i
            if start is None: return False
            for a, x in items[start:]:
                if a == 'st':
                    r = s.stmt(x, env)
                    if r == 'Break': return False
                    if r: return r
            return False
        if k in ('For', 'While', 'Do', 'RangeFor'):
            for x in c:
                if isinstance(x, dict): s.stmt(x, env)
            return False
        if k in ('Case', 'Default', 'Label', 'OMP'):
            return s.stmt(c[-1], env) if c else False
        if k == 'Decl':
            for x in c: s.expr(x, env)
            return False
        s.expr(n, env); return False

def table(f, consts, v):
    """the constant f returns for argument v"""
    w = Walk(f, consts); w.rets = []; w.reach({f['params'][0]['n']: v})
    return w.rets[0] if len(w.rets) == 1 else None
def tested(f):
    """constants a conversion compares its argument with"""
    r = set()
    for n in ir.walk_fn(f):
        if n['k'] == 'Case' and ir.const(n['c'][0]) is not None: r.add(ir.const(n['c'][0]))
        if n['k'] == 'Str': r.add(n['v'])
    return r
def tables(prog, R, consts, name):
    """conversions of the element type to names or foreign codes, and back, are inverse; the size table is right"""
    one = [f for f in prog.funcs.values() if not f.get('dep') and f.get('body') and len(f['params']) == 1 and f.get('cls')]
    isd = lambda t: re.sub(r'\bconst\b|&', '', t).strip() == EN
    for f in one:
        if not isd(f['params'][0]['t']) or isd(f['ret']): continue
        gs = [g for g in one if g['cls'] == f['cls'] and isd(g['ret']) and not isd(g['params'][0]['t']) and
              re.sub(r'\bconst\b|&|\s', '', g['params'][0]['t']) == re.sub(r'\bconst\b|&|\s', '', f['ret'])]
        for g in gs:
            none = table(f, consts, consts['mt_User'])
            R.count('pairs of inverse conversions')
            for k in CT:
                v = table(f, consts, consts[k]); R.ob('%s / %s: %s' % (f['q'], g['q'], k))
                if v is None or v == none: continue
                b = table(g, consts, v)
                if b != consts[k]: R.bad('%s is written as %r, which is read back as %s' % (k, v, name.get(b, b)), f['file'], f['line'], f['q'], key='%s|%s' % (f['q'], k))
            for v in sorted(tested(g), key=str):
                d = table(g, consts, v)
                if d is None or d == consts['mt_User'] or d not in name: continue
                b = table(f, consts, d); R.ob('%s / %s: %r' % (g['q'], f['q'], v))
                if b is not None and b != v: R.bad('%r is read as %s, which is written as %r' % (v, name[d], b), g['file'], g['line'], g['q'], key='%s|%s' % (g['q'], v))
    SZ = {'unsigned char': 1, 'char': 1, 'unsigned short': 2, 'short': 2, 'unsigned int': 4, 'int': 4, 'unsigned long long': 8, 'long long': 8, 'float': 4, 'double': 8}
    for f in prog.byname.get('basicmath::mt_Depth_Channel::depth_size', []):
        for n in ir.walk_fn(f):
            if n['k'] == 'Index' and ir.strip(n['c'][0])['k'] == 'Ref':
                g = prog.globals.get(ir.strip(n['c'][0])['d'])
                if not g or not g.get('c'): continue
                vals = [ir.const(x) for x in (g['c'][0].get('c') or [])]
                for k, t in CT.items():
                    R.ob('size of %s elements' % k)
                    if consts[k] >= len(vals) or vals[consts[k]] != SZ[t]:
                        R.bad('elements of %s are %d bytes, the size table says %s' % (k, SZ[t], vals[consts[k]] if consts[k] < len(vals) else 'nothing'), f['file'], f['line'], f['q'], key='size|' + k)

def analyse(prog, R):
    if EN not in prog.enums: raise load.Broken('the element type enumeration %s is gone' % EN)
    consts = dict(prog.enums[EN]['consts']); name = {v: k for k, v in consts.items()}
    missing = [k for k in CT if k not in consts]
    if missing: raise load.Broken('element types %s are gone from %s' % (missing, EN))
    depths = [consts[k] for k in CT]; F = {consts['mt_F32'], consts['mt_F64']}
    tables(prog, R, consts, name)
    for f in sorted(prog.funcs.values(), key=lambda f: (f['file'], f['line'], f['id'])):
        if f.get('dep') or not f.get('body') or f['id'].startswith('<T>'): continue
        w = Walk(f, consts, prog); subs = w.subjects(); given = {t for t in tparams(f['id'])[1] if t}
        if not subs or len(subs) > 2: continue
        res = {}; told = {}; helped = {}
        for vs in itertools.product(depths, repeat=len(subs)):
            ev, sl = w.reach(dict(zip(subs, vs)))
            if not w.outside: res[vs] = (ev, sl); told[vs] = w.told; helped[vs] = w.helped
        if not res: continue
        # S: the assignments under which a typed construct is reached
        S = {}
        for vs, (ev, _) in res.items():
            for k in ev: S.setdefault(k, set()).add(vs)
        wants = {vs: {CT[name[v]] for v in vs} for vs in res}
        def own(vs, but): return wants[vs] <= {t for k, (t, l) in res[vs][0].items() if k[0] != but[0]} | helped[vs]
        typ = {k: x[0] for ev, _ in res.values() for k, x in ev.items()}
        univ = {k for k in S if len(S[k]) == len(res) > 1}
        fine = {k: sum(own(vs, k) or set(res[vs][0]) <= univ for vs in S[k]) for k in S}
        # typed alike whatever the type: scratch data reached always, or by several types that all have code of their own
        neutral = {k for k in S if len(S[k]) > 1 and (2 * fine[k] > len(S[k]) if k in univ else fine[k] == len(S[k]) and not any(typ[k] in wants[vs] for vs in S[k]))}
        spec = {vs: {k: x for k, x in ev.items() if k not in neutral} for vs, (ev, _) in res.items()}
        if not any(spec.values()): continue
        R.count('functions that choose code by element type')
        R.count('constructs typed by the choice', len({k for x in spec.values() for k in x}))
        R.where = (f['file'], f['line'], f['q'])
        bad = False
        for vs, ev in spec.items():
            who = ' and '.join('%s is %s' % (s_, name[v]) for s_, v in zip(subs, vs)); x = {t for t, l in ev.values()}
            R.ob('%s: %s' % (f['id'][:100], who)); R.count('assignments walked')
            if not x: R.count('assignments without code (reported as unsupported, or raw bytes)')
            for t, l in sorted(ev.values(), key=str):
                if t not in wants[vs] and t not in given:   # a template's own argument was chosen by its caller
                    R.bad('when %s, the elements are handled as %s' % (who, t), f['file'], l, f['q'], key='%s|%s|%s' % (f['id'], who, t)); bad = True
            if x:
                for t in sorted(wants[vs] - {t for t, l in res[vs][0].values()} - helped[vs]):
                    R.bad('when %s, no code for %s elements is reached, but code for %s' % (who, t, ', '.join(sorted(x))), f['file'], min(l for _, l in ev.values()), f['q'], key='%s|%s|no %s' % (f['id'], who, t)); bad = True
        full = sum(1 for x in spec.values() if x)
        if len(subs) == 1 and full >= 6:
            for vs, ev in spec.items():
                if not ev and not told[vs] and not helped[vs] and vs[0] != consts['mt_U8']:   # bytes need no typed construct
                    R.bad('when %s is %s, no code is reached and nothing is reported, unlike for %d other element types' % (subs[0], name[vs[0]], full), f['file'], f['line'], f['q'], key='%s|none|%s' % (f['id'], name[vs[0]])); bad = True
        if bad: continue
        if DEBUG: print(f['file'], f['line'], f['id'][:120], subs, 'neutral', sorted({res[min(S[k])][0][k] for k in neutral}), 'nothing for', [' '.join(name[v] for v in vs) for vs in spec if not spec[vs]])
        # position of each element type among the template arguments of one callee
        slots = {}
        for vs, (ev, sl) in res.items():
            for k, ts in sl.items():
                if k[1] > 1: slots.setdefault(k, []).extend((vs, a, l) for a, l in ts)
        for k, es in slots.items():
            best = None
            for lab, pred in [('constant', lambda vs, a: a == es[0][1])] + [(s_, lambda vs, a, i=i: a == CT[name[vs[i]]]) for i, s_ in enumerate(subs)]:
                dev = [e for e in es if not pred(e[0], e[1])]
                if best is None or len(dev) < len(best[1]): best = (lab, dev)
            R.ob('%s: argument %d of %s' % (f['id'][:100], k[2] + 1, k[0]))
            for vs, a, l in best[1][:3]:
                R.bad('element type %d of %s follows %s everywhere else, but is %s when %s' % (k[2] + 1, k[0].split('::')[-1], best[0], a, ' and '.join('%s is %s' % (s_, name[v]) for s_, v in zip(subs, vs))),
                      f['file'], l, f['q'], key='%s|%d|%s|%s' % (f['id'], k[2], vs, a))
DEBUG = '-d' in sys.argv
if __name__ == '__main__':
    run_check('C10', lambda: load.load(['basicmath', 'basicimg']), analyse, 'static-analysis', minimum=100)
