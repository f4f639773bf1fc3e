"""Ownership of dynamically allocated memory.

Flow: which allocations reach which pointer variables, members and elements (inclusion constraints over the whole
program, members by declaration, with the values of sibling members that are known where a pointer is stored).
Paths: one function at a time (helpers that release or store owned members are entered), with the facts its branches
establish; every allocation of a path is released, stored or returned, none is used or released after its release."""
import collections
from ir import *

ALLOC = {'malloc': 'malloc', 'calloc': 'malloc', 'realloc': 'malloc', 'strdup': 'malloc'}
HANDLE = {'fopen': 'file', 'opendir': 'directory', '_wfopen': 'file'}
CLOSE = {'fclose': 'file', 'closedir': 'directory'}
FORM = {'malloc': 'free', 'new': 'delete', 'new[]': 'delete[]'}
NEG = {'==': '!=', '!=': '==', '<': '>=', '>=': '<', '>': '<=', '<=': '>'}
isptr = lambda t: bool(t) and t.replace('const', '').rstrip(' &').endswith('*')

def unwrap(e):
    e = strip(e)
    while isinstance(e, dict):
        if e['k'] == 'MCall' and (e.get('fn') or '').startswith('operator ') and e.get('c'): e = strip(e['c'][0])
        elif e['k'] == 'Construct' and e.get('c') and len([c for c in e['c'] if c and c['k'] != 'DefArg']) == 1 and (e['cls'].endswith('::b8')): e = strip(e['c'][0])
        elif e['k'] == 'ParenListExpr' and len(e['c']) == 1: e = strip(e['c'][0])
        else: break
    return e

def placement(x):
    """new (place) T"""
    n = [c for c in x.get('c') or [] if isinstance(c, dict)]
    return bool(x.get('place')) or 'placement' in x

def cond_facts(c, truth):
    """{(key): value} that hold when the condition has this truth value; key is a printed expression with the names it uses"""
    c = unwrap(c); k = c['k']
    if k == 'Un' and c['op'] == '!': return cond_facts(c['c'][0], not truth)
    if k == 'Bin' and c['op'] == '&&':
        if truth: a = cond_facts(c['c'][0], True); a.update(cond_facts(c['c'][1], True)); return a
        return {}
    if k == 'Bin' and c['op'] == '||':
        if not truth: a = cond_facts(c['c'][0], False); a.update(cond_facts(c['c'][1], False)); return a
        return {}
    if k == 'OpCall' and c.get('op') == '!': return cond_facts(c['c'][0], not truth)
    op = c.get('op') if k == 'Bin' else None
    if op in NEG:
        if op in ('!=', '>=', '<='): op = NEG[op]; truth = not truth
        a, b = c['c']
        if op == '>': a, b, op = b, a, '<'
        if op == '==' and const(a) is not None and const(b) is None: a, b = b, a
        if op == '==' and const(b) is not None: return {(key(a), '==', const(b)): truth}
        return {(key(a), op, key(b)): truth}
    return {(key(c), '!=', 0): truth}

def key(e):
    e = unwrap(e)
    if const(e) is not None: return str(const(e))
    k = e['k']
    if k == 'Ref': return e['d']
    if k == 'This': return 'this'
    if k == 'Member': return (key(e['c'][0]) if e.get('c') and e['c'][0] else '') + '.' + e['d']
    if k == 'SizeOf': return show(e)
    return k + str(e.get('op', '')) + str(e.get('fn', '')) + '(' + ','.join(key(x) for x in kids(e)) + ')'
def names(e):
    return {x['d'] for x in walk(e) if x['k'] in ('Ref', 'Member')} | ({'()'} if any(x['k'] in ('Call', 'MCall', 'OpCall') and not (x.get('fn') or '').startswith('operator ') for x in walk(e)) else set())

class Flow:
    def __init__(s, prog):
        s.p = prog; s.sites = {}; s.edges = collections.defaultdict(dict); s.rel = []; s.reach = {}
        s.fields = set(); s.nodes = {}; s.freshc = {}; s.rev = collections.defaultdict(list)
        for f in prog.funcs.values():
            if (f.get('body') or f.get('inits')) and not f['id'].startswith('<T>'): s.fn(f)
        s.solve()
    def site(s, f, e, fam):
        k = (f['file'], e['l'], fam, f['q'], key(e)[:60]); s.sites.setdefault(k, e); return ('site',) + k
    def src(s, e, f):
        e = unwrap(e); k = e['k'] if isinstance(e, dict) else None
        if k == 'New':
            if placement(e): return []
            return [s.site(f, e, 'new[]' if e.get('arr') else 'new')]
        if k == 'Call' and e.get('fn') in ALLOC and e.get('f') not in s.p.funcs: return [s.site(f, e, 'malloc')]
        if k == 'Call' and e.get('fn') in HANDLE and e.get('f') not in s.p.funcs: return [s.site(f, e, HANDLE[e['fn']])]
        if k in ('Call', 'MCall', 'OpCall'):
            if k == 'OpCall' and e.get('op') == '[]' or k == 'MCall' and e.get('fn') in ('at', 'front', 'back'): return s.elem(s.src(e['c'][0], f))
            return [('ret', e['f'])] if e.get('f') in s.p.funcs else []
        if k == 'Ref': return [('v', e['d'])] if e.get('dk') != 'enum' else []
        if k == 'Member': return [('f', e['d'])]
        if k == 'Index' or k == 'Un' and e['op'] == '*': return s.elem(s.src(e['c'][0], f))
        if k == 'Cond': return s.src(e['c'][1], f) + s.src(e['c'][2], f)
        if k == 'Assign': return s.src(e['c'][1], f)
        if k == 'Bin' and e['op'] in '+-' and isptr(e.get('t')): return s.src(e['c'][0], f)
        return []
    def elem(s, ns): return [n if n[0] == 'e' else ('e',) + n for n in ns if n[0] != 'site']
    def edge(s, a, b, c=frozenset()):
        old = s.edges[a].get(b)
        s.edges[a][b] = c if old is None else old & c
    def fn(s, f):
        for i in f.get('inits', []):
            if isinstance(i.get('e'), dict) and i.get('m'):
                for n in s.src(i['e'], f): s.edge(n, ('f', i['m']))
        if f.get('body'): s.stmt(f, f['body'], {}, [])
    def flags(s, f, blk, base):
        """constants stored in members of the same object by the statements of the block"""
        r = {}
        for x in blk:
            y = unwrap(x)
            if isinstance(y, dict) and y['k'] == 'Assign':
                l = unwrap(y['c'][0])
                if l['k'] == 'Member' and key(l['c'][0]) == base and const(y['c'][1]) is not None: r[l['d']] = const(y['c'][1])
        return frozenset(r.items())
    def stmt(s, f, n, facts, blocks):
        """facts: decl of a member -> (value, equal?) known from enclosing branches"""
        if not isinstance(n, dict): return
        k = n['k']
        if k == 'If':
            for x in n['c'][:1]: s.expr(f, x, facts, blocks)
            for x, t in ((n['c'][1], True), (n['c'][2] if len(n['c']) > 2 else None, False)):
                if x: s.stmt(f, x, {**facts, **s.mfacts(n['c'][0], t)}, blocks)
            for x in ('init', 'cvar'):
                if isinstance(n.get(x), dict): s.stmt(f, n[x], facts, blocks)
            return
        if k == 'Block':
            fx = dict(facts)
            for x in n.get('c') or []:
                s.stmt(f, x, fx, blocks + [n.get('c') or []])
                if isinstance(x, dict) and x['k'] == 'If' and not (len(x['c']) > 2 and x['c'][2]) and leaves(x['c'][1]): fx.update(s.mfacts(x['c'][0], False))
            return
        if k in ('For', 'While', 'Do', 'Switch', 'Case', 'Default', 'Label', 'OMP', 'RangeFor', 'Decl'):
            for x in kids(n): s.stmt(f, x, facts, blocks)
            return
        s.expr(f, n, facts, blocks)
    def mfacts(s, c, t):
        out = {}
        for (a, op, b), v in cond_facts(c, t).items():
            if '.' not in a or '(' in a or not isinstance(b, int): continue
            d = a[a.rindex('.') + 1:]
            eq = v if op == '==' else not v
            out[d] = (b, eq)
        return out
    def expr(s, f, n, facts, blocks):
        for x in walk(n):
            k = x['k']
            if k == 'Assign' and isptr(x.get('t')):
                l = unwrap(x['c'][0]); c = frozenset()
                if l['k'] == 'Member' and l.get('c') and l['c'][0]:
                    for b in blocks[::-1][:2]: c |= s.flags(f, b, key(l['c'][0]))
                for d in s.src(l, f):
                    for a in s.src(x['c'][1], f): s.edge(a, d, c)
            elif k == 'Var' and x.get('c') and x['c'][0]:
                for a in s.src(x['c'][0], f):
                    s.edge(a, ('v', x['d']))
                    if x['t'].rstrip().endswith('&'): s.edge(('v', x['d']), a)
            elif k in ('Call', 'MCall', 'OpCall', 'Construct') and x.get('f') in s.p.funcs:
                g = s.p.funcs[x['f']]
                av = x.get('c') or [] if k == 'Construct' else args(x)
                for a, pa in zip(av, g['params']):
                    if isinstance(a, dict) and isptr(pa['t']):
                        for b in s.src(a, f):
                            s.edge(b, ('v', pa['d']))
                            if pa.get('ref') and 'const' not in pa['t'].split('*')[-1]: s.edge(('v', pa['d']), b)
                    if isinstance(a, dict) and unwrap(a)['k'] == 'Un' and unwrap(a)['op'] == '&' and isptr(unwrap(unwrap(a)['c'][0]).get('t') or ''):
                        for b in s.src(unwrap(a)['c'][0], f):
                            s.edge(b, ('e', 'v', pa['d']))
                            if 'const' not in pa['t'].split('*')[-2]: s.edge(('e', 'v', pa['d']), b)
            if k == 'MCall' and x.get('fn') in ('push_back', 'push', 'push_front'):
                for d in s.elem(s.src(x['c'][0], f)):
                    for a in s.src(args(x)[0], f): s.edge(a, d)
            if k == 'Return' and x.get('c') and x['c'][0] and isptr(f['ret']):
                for a in s.src(x['c'][0], f): s.edge(a, ('ret', f['id']))
            if k == 'New': s.src(x, f); s.note(x, facts, f, 'new[]' if x.get('arr') else 'new')
            elif k == 'Call' and x.get('fn') in ALLOC: s.src(x, f); s.note(x, facts, f, 'malloc')
            elif k == 'Call' and x.get('fn') in HANDLE and x.get('f') not in s.p.funcs: s.src(x, f); s.note(x, facts, f, HANDLE[x['fn']])
            if k == 'Delete': s.rel.append((s.src(x['c'][0], f), 'new[]' if x.get('arr') else 'new', f, x, dict(facts)))
            elif k == 'Call' and x.get('fn') in CLOSE and x.get('f') not in s.p.funcs and args(x): s.rel.append((s.src(args(x)[0], f), CLOSE[x['fn']], f, x, dict(facts)))
            elif k == 'Call' and x.get('fn') in ('free', 'realloc') and x.get('f') not in s.p.funcs and args(x): s.rel.append((s.src(args(x)[0], f), 'malloc', f, x, dict(facts)))
    def note(s, x, facts, f, fam):
        ks = s.src(x, f)
        for k in ks: s.nodes.setdefault(k, dict(facts))
    def solve(s):
        """reach[node] = {site: flags known where it was stored}"""
        s.reach = collections.defaultdict(dict)
        for k in s.sites:
            n0 = ('site',) + k; st = [(n0, frozenset(s.nodes.get(n0, {}).items()))]; seen = {}
            while st:
                n, c = st.pop()
                if n in seen and seen[n] <= c: continue
                seen[n] = c if n not in seen else seen[n] & c
                c = seen[n]
                for m, ec in s.edges[n].items():
                    add = {(d, (v, True)) for d, v in ec}
                    st.append((m, c | add))
            for n, c in seen.items(): s.reach[n][n0] = c
    def fresh(s, fid):
        """the function returns memory that it allocated, and nothing else"""
        if fid in s.freshc: return s.freshc[fid]
        s.freshc[fid] = None
        if not s.rev:
            for a, ms in s.edges.items():
                for b in ms: s.rev[b].append(a)
        seen = set(); st = [('ret', fid)]; fam = set(); ok = True
        while st and ok:
            n = st.pop()
            if n in seen: continue
            seen.add(n)
            if n[0] == 'site': fam.add(n[3])
            elif n[0] == 'v' and n[1].startswith('L') or n == ('ret', fid):
                ms = [m for m in s.edges.get(n, {}) if m[0] in ('f', 'e')]
                if ms: ok = False
                st += s.rev.get(n, [])
            elif n[0] == 'ret':
                f2 = s.fresh(n[1])
                if f2: fam.add(f2)
                else: ok = False
            else: ok = False
        r = s.freshc[fid] = fam.pop() if ok and len(fam) == 1 else None
        return r
    def edges_to(s, n):
        if not s.rev:
            for a, ms in s.edges.items():
                for b in ms: s.rev[b].append(a)
        return s.rev.get(n, [])
    def conflict(s, c, facts):
        for d, (v, eq) in c:
            if d in facts:
                w, e2 = facts[d]
                if eq and e2 and v != w or v == w and eq != e2: return True
        return False

def leaves(n):
    if not isinstance(n, dict): return False
    if n['k'] in ('Return', 'Break', 'Continue', 'Goto', 'Throw'): return True
    if n['k'] == 'Block': return bool(n.get('c')) and leaves(n['c'][-1])
    return False

def base_name(d): return d.rsplit('::', 1)[-1]

class Paths:
    """the paths of one function.  A state is
       vars    place -> value: 'N' null, ('B', block), ('S', array), 'U' unknown
       blocks  block -> 'A' allocated here, 'M' owned by a member or the caller, 'X' handed over, 'R' released
       facts   condition -> truth, with the names it depends on"""
    LIMIT = 600
    def __init__(s, prog, flow, owning, f, inline, report):
        s.p = prog; s.flow = flow; s.own = owning; s.f = f; s.inl = inline; s.rep = report; s.depth = 0; s.stack = [f['id']]; s.n = 0; s.obs = set(); s.fn = f; s.alias = None; s.entered_alone = False; s.amap = {}; s.always = set()
        s.frees = set()
    # ---- states
    def new(s): return {'v': {}, 'b': {}, 'f': {}}
    def cp(s, st): return {'v': dict(st['v']), 'b': dict(st['b']), 'f': dict(st['f'])}
    def sig(s, st): return (tuple(sorted(st['v'].items(), key=repr)), tuple(sorted(st['b'].items(), key=repr)), tuple(sorted(((k, v[0]) for k, v in st['f'].items()), key=repr)))
    def dedupe(s, sts):
        out = {}
        for st in sts: out.setdefault(s.sig(st), st)
        out = list(out.values())
        if len(out) > s.LIMIT:
            for st in out: st['f'] = {}
            o2 = {}
            for st in out: o2.setdefault(s.sig(st), st)
            out = list(o2.values())[:s.LIMIT]
        return out
    # ---- places
    def place(s, e):
        e = unwrap(e); k = e['k'] if isinstance(e, dict) else None
        if k == 'Ref':
            if e['d'] == s.alias: return ('this',)
            if e['d'] in s.amap: return s.amap[e['d']]
            if e.get('dk') in ('local', 'parm') : return (e['d'],)
            return ('::' + e['d'],) if e.get('dk') in ('global', 'slocal') else None
        if k == 'This': return ('this',)
        if k == 'Member':
            b = s.place(e['c'][0]) if e.get('c') and e['c'][0] else None
            return b + (e['d'],) if b else None
        if k in ('Index',) or k == 'OpCall' and e.get('op') == '[]':
            b = s.place(e['c'][0]); i = const(e['c'][1])
            return b + ('[%s]' % i,) if b and i is not None else None
        if k == 'Un' and e['op'] == '*':
            return None
        return None
    def entry(s, st, pl):
        """value of a place that was not written yet"""
        if pl in st['v']: return st['v'][pl]
        if pl[0] in s.refs: return 'U'
        b = ('entry',) + pl
        if s.tracked(pl) and s.relevant(pl):
            st['b'].setdefault(b, 'M'); st['v'][pl] = ('B', b)
            return st['v'][pl]
        return 'U'
    def tracked(s, pl):
        return len(pl) > 1 and any(d in s.own for d in pl[1:] if isinstance(d, str)) and pl[0] == 'this' or len(pl) == 1 and pl[0] in s.params
    def aliased(s, st, pl):
        r = st.get('ref', {})
        return pl
    # ---- expressions
    def val(s, st, e):
        e = unwrap(e)
        if not isinstance(e, dict): return 'U'
        k = e['k']
        if k == 'Null' or const(e) == 0: return 'N'
        fr = s.flow.fresh(e['f']) if k in ('Call', 'MCall') and e.get('f') in s.p.funcs and isptr(e.get('t')) else HANDLE.get(e.get('fn')) if k == 'Call' and e.get('f') not in s.p.funcs else None
        if fr or k == 'New' and not placement(e) or k == 'Call' and e.get('fn') in ALLOC and e.get('f') not in s.p.funcs:
            fam = fr if fr else 'malloc' if k == 'Call' else 'new[]' if e.get('arr') else 'new'
            if e.get('fn') == 'realloc' and args(e):      # the old block is gone
                v = s.val(st, args(e)[0])
                if isinstance(v, tuple) and v[0] == 'B':
                    st['b'][v[1]] = 'R'
                    if v[1][0] == 'entry': s.frees.add(v[1][1:])
            b = ('new', s.fn['file'], e['l'], fam, s.fn['q'])
            if st['b'].get(b) == 'A': s.lost(st, b, e, 'is allocated again')
            if b in st['b']:              # an earlier allocation of the same site
                o = b + ('earlier',); st['b'][o] = st['b'][b]
                for q, w in list(st['v'].items()):
                    if isinstance(w, tuple) and w[0] in 'BI' and w[1] == b: st['v'][q] = (w[0], o)
            st['b'][b] = 'A'; return ('B', b)
        pl = s.place(e)
        if pl is not None: return s.entry(st, pl)
        if k == 'Cond': return s.val(st, e['c'][1])
        if k == 'Assign': return s.val(st, e['c'][0])
        if k == 'Bin' and isptr(e.get('t')):
            v = s.val(st, e['c'][0]); return ('I', v[1]) if isinstance(v, tuple) and v[0] in 'BI' else 'U'
        if k == 'Un' and e['op'] == '&': return 'U'
        if k == 'Un' and e['op'] in ('++', '--'):
            v = s.val(st, e['c'][0]); return ('I', v[1]) if isinstance(v, tuple) and v[0] in 'BI' else 'U'
        return 'U'
    def lost(s, st, b, n, how): s.rep('leak', b, s.fn, n, how); st['b'][b] = 'X'
    def use(s, st, e):
        """the memory behind a pointer expression is read or written"""
        v = s.val0(st, e)
        if isinstance(v, tuple) and v[0] in 'BI':
            s.obs.add(('use', s.fn['q'], e.get('l')))
            if st['b'].get(v[1]) == 'R': s.rep('use', v[1], s.fn, e, 'is used after its release')
    def val0(s, st, e):
        e = unwrap(e); pl = s.place(e) if isinstance(e, dict) else None
        if pl is not None: return st['v'].get(pl, 'U')
        if isinstance(e, dict) and e['k'] == 'Bin' and isptr(e.get('t')): return s.val0(st, e['c'][0])
        return 'U'
    def forget(s, st, pl):
        for q in [q for q in st['v'] if len(q) > len(pl) and q[:len(pl)] == pl]: del st['v'][q]
    def kill(s, st, d):
        for k in [k for k, (v, ns) in st['f'].items() if d in ns]: del st['f'][k]
    def release(s, st, e, fam, n):
        v = s.val(st, e); s.obs.add(('release', s.fn['q'], n['l']))
        if isinstance(v, tuple) and v[0] == 'B':
            b = v[1]
            if st['b'].get(b) == 'R': s.rep('double', b, s.fn, n, 'is released twice')
            if b[0] == 'entry': s.frees.add(b[1:])
            st['b'][b] = 'R'
        elif isinstance(v, tuple) and v[0] == 'I': s.rep('inner', v[1], s.fn, n, 'is released through a pointer into its middle')
        elif isinstance(v, tuple) and v[0] == 'S': s.rep('stack', ('array',) + v[1:], s.fn, n, 'is not allocated dynamically, but released')
    def escape(s, st, v):
        if isinstance(v, tuple) and v[0] in 'BI' and st['b'].get(v[1]) == 'A': st['b'][v[1]] = 'X'
    def assign(s, st, l, v, n):
        l = unwrap(l); pl = s.place(l)
        if pl is None: s.escape(st, v); return
        if pl[0] in s.refs: s.escape(st, v); st['v'][pl] = 'U'; return
        for q in list(st['f']):
            pass
        s.kill(st, pl[-1])
        local = len(pl) == 1 and not pl[0].startswith('::')
        if not local and not s.localobj(pl):
            if isinstance(v, tuple) and v[0] in 'BI' and st['b'].get(v[1]) == 'A':
                old = s.entry(st, pl) if pl[0] == 'this' else 'U'
                if isinstance(old, tuple) and old[0] == 'B' and old[1] != v[1] and st['b'].get(old[1]) == 'M': s.over(st, pl, old[1], n)
                st['b'][v[1]] = 'M' if pl[0] == 'this' and v[0] == 'B' else 'X'
            elif v == 'N' and pl[0] == 'this':
                old = s.entry(st, pl)
                if isinstance(old, tuple) and old[0] == 'B' and old[1][0] == 'entry' and st['b'].get(old[1]) == 'M': s.over(st, pl, old[1], n, True)
        elif s.localobj(pl): s.escape(st, v)
        if s.relevant(pl): st['v'][pl] = v
        else: st['v'].pop(pl, None)
        s.forget(st, pl)
        if local: s.drop(st, n)
    def over(s, st, pl, b, n, null=False):
        base = '.'.join(pl[:-1])
        # a sibling member that is known to be zero or null says that nothing is allocated yet
        if ('z:' + base, '==', 0) in st['f']: return
        for q, v in st['v'].items():
            if v == 'N' and q[:-1] == pl[:-1] and q != pl: return
        s.pend.append((pl, b, s.fn, n, null))
    def drop(s, st, n):
        """an allocation no variable points to any more"""
        live = {v[1] for v in st['v'].values() if isinstance(v, tuple) and v[0] in 'BI'}
        for b, x in list(st['b'].items()):
            if x == 'A' and b not in live and b not in s.holding: s.lost(st, b, n, 'is lost when its last pointer is overwritten')
    def localobj(s, pl): return len(pl) > 1 and pl[0] != 'this' and not pl[0].startswith('::')
    def ex(s, st, n):
        """evaluate for effect, in place (no forks)"""
        if not isinstance(n, dict): return
        k = n['k']
        if k in ('Lambda',): return
        if k == 'SizeOf': return
        if k == 'Assign':
            s.ex(st, n['c'][1])
            l = unwrap(n['c'][0])
            for c in kids(l): s.ex(st, c)
            s.touch(st, l)
            if s.alias and l['k'] == 'Index':
                r = unwrap(n['c'][1])
                if r['k'] == 'Index' and key(r['c'][1]) == key(l['c'][1]): s.itself(st, l['c'][0], r['c'][0], n)
            if isptr(n.get('t')): s.assign(st, l, s.val(st, n['c'][1]), n)
            else:
                pl = s.place(l)
                d = l.get('d'); s.kill(st, d or '?')
                if const(n['c'][1]) is not None and pl: s.know(st, l, const(n['c'][1]))
            return
        if k == 'CAssign' or k == 'Un' and n['op'] in ('++', '--'):
            for c in kids(n): s.ex(st, c)
            l = unwrap(n['c'][0]); s.kill(st, l.get('d') or '?')
            if isptr(l.get('t')):
                pl = s.place(l)
                if pl: v = s.entry(st, pl); st['v'][pl] = ('I', v[1]) if isinstance(v, tuple) and v[0] in 'BI' else 'U'
            return
        if k == 'Var':
            if n['t'].rstrip().endswith('&'): s.refs.add(n['d'])
            if n.get('c') and n['c'][0]:
                s.ex(st, n['c'][0]); st['v'].pop((n['d'],), None); s.forget(st, (n['d'],))
                if isptr(n['t']) and not n['t'].rstrip().endswith('&'):
                    v = s.val(st, n['c'][0])
                    i = unwrap(n['c'][0])
                    if i['k'] == 'Ref' and i.get('t', '').endswith(']'): v = ('S', i['d'])
                    if not n.get('static') and s.relevant((n['d'],)): st['v'][(n['d'],)] = v
                elif n['t'].rstrip().endswith('&'): pass
                elif const(n['c'][0]) is not None: s.kill(st, n['d']); s.know(st, {'k': 'Ref', 'd': n['d'], 'dk': 'local'}, const(n['c'][0]))
            else:
                st['v'].pop((n['d'],), None)
            s.kill2(st, n['d'])
            return
        if k == 'Delete' or k == 'Call' and (n.get('fn') == 'free' or n.get('fn') in CLOSE) and n.get('f') not in s.p.funcs:
            for c in kids(n): s.ex(st, c)
            s.release(st, n['c'][0], None, n); return
        if k == 'New' and placement(n) or k == 'SizeOf': return
        if k in ('Call', 'MCall', 'OpCall', 'Construct'):
            for c in kids(n): s.ex(st, c)
            s.call(st, n); return
        if k in ('Index',) or k == 'Un' and n['op'] == '*':
            for c in kids(n): s.ex(st, c)
            s.use(st, n['c'][0]); return
        if k == 'Member' and n.get('ar') and n.get('c') and n['c'][0]:
            for c in kids(n): s.ex(st, c)
            s.use(st, n['c'][0]); return
        if k == 'Cond':
            for c in kids(n): s.ex(st, c)
            s.escape(st, s.val(st, n['c'][1])) if isptr(n.get('t')) else None; s.escape(st, s.val(st, n['c'][2])) if isptr(n.get('t')) else None
            return
        if k == 'InitList':
            for c in kids(n):
                s.ex(st, c)
                if isptr(c.get('t')): s.escape(st, s.val(st, c))
            return
        for c in kids(n): s.ex(st, c)
    def skim(s, st, n):
        """a statement that neither allocates, releases nor moves pointers"""
        if n['k'] in ('If', 'For', 'While', 'Do', 'RangeFor', 'Switch', 'Block', 'Case', 'Default', 'Decl', 'OMP', 'Label'):
            for c in kids(n): s.skim(st, c)
        else: s.ex(st, n)
    def touch(s, st, l):
        if l['k'] in ('Index',) or l['k'] == 'Un' and l['op'] == '*': s.use(st, l['c'][0])
        if l['k'] == 'Member' and l.get('ar') and l.get('c') and l['c'][0]: s.use(st, l['c'][0])
    def kill2(s, st, d): pass
    def know(s, st, l, c):
        if any(z[0] == key(l) for z in s.keys) or key(l) in s.swkeys: st['f'][(key(l), '==', c)] = (True, frozenset(names(l)))
    def call(s, st, n):
        g = s.p.funcs.get(n.get('f')); k = n['k']
        av = [a for a in (n.get('c') or []) if isinstance(a, dict)] if k in ('Call', 'Construct') else args(n)
        obj = n['c'][0] if k == 'MCall' and n.get('c') else None
        this = obj is not None and unwrap(obj)['k'] == 'This'
        if g is not None and this and not g.get('const'):
            for kk in [q for q, (v, ns) in st['f'].items() if any('::' in x for x in ns)]: del st['f'][kk]
        for kk in [q for q, (v, ns) in st['f'].items() if '()' in ns]: del st['f'][kk]
        if g is not None and g['id'] in s.inl and s.depth < 3 and g['id'] not in s.stack and (this or k == 'Call'): 
            s.enter(st, n, g, av); return
        if obj is not None and isptr(unwrap(obj).get('t')): s.use(st, obj)
        for i, a in enumerate(av):
            v = s.val(st, a) if isptr(unwrap(a).get('t') or '') or unwrap(a)['k'] in ('New', 'Null') else 'U'
            pt = g['params'][i]['t'] if g is not None and i < len(g['params']) else ''
            if g is None:
                if k == 'Construct' and 'string' in (n.get('cls') or ''): s.use(st, a)
                if i == 1 and s.alias and n.get('fn') in ('memcpy', 'memmove', 'strcpy'): s.itself(st, av[0], a, n)
                if n.get('fn') in ('push_back', 'push', 'push_front', 'insert', 'push_heap', 'emplace_back', 'swap') or k == 'Construct': s.escape(st, v)
                elif n.get('fn') in ('memcpy', 'memset', 'memmove', 'memcmp', 'strlen', 'strcpy', 'sprintf', 'fread', 'fwrite', 'sort'): s.use(st, a)
                if '&' in (n.get('pt') or ''): pass
            elif s.keeps(g, i): s.escape(st, v)
            elif s.freesp(g, i):
                if isinstance(v, tuple) and v[0] == 'B':
                    if st['b'].get(v[1]) == 'R': s.rep('double', v[1], s.fn, n, 'is released twice')
                    st['b'][v[1]] = 'R'
            else: s.use(st, a)
            if pt.rstrip().endswith('&') and not pt.startswith('const'):
                pl = s.place(a)
                if pl and isptr(unwrap(a).get('t') or ''): s.escape(st, v); st['v'][pl] = 'U'
                if pl: s.forget(st, pl)
                s.kill(st, unwrap(a).get('d') or '?')
            if unwrap(a)['k'] == 'Un' and unwrap(a)['op'] == '&': 
                pl = s.place(unwrap(a)['c'][0])
                tgt = unwrap(a)['c'][0]
                if pl and pl[0] == 'this' and g is not None and i < len(g['params']) and isptr(unwrap(tgt).get('t') or '') and any(q[0] == 'site' for q in s.flow.edges_to(('e', 'v', g['params'][i]['d']))):
                    b = ('new', s.fn['file'], n['l'], 'handle', s.fn['q']); st['b'][b] = 'A'
                    s.assign(st, tgt, ('B', b), n)
                elif pl: s.escape(st, st['v'].get(pl, 'U')); st['v'][pl] = 'U'; s.forget(st, pl)
                s.kill(st, unwrap(unwrap(a)['c'][0]).get('d') or '?')
    def itself(s, st, l, r, n):
        """self assignment: memory is filled from the memory it has just replaced"""
        a, b = s.place(l), s.place(r)
        if a is None or a != b or a[0] != 'this': return
        v = st['v'].get(a)
        if isinstance(v, tuple) and v[0] == 'B' and v[1][0] == 'new': s.rep('itself', ('entry',) + a, s.fn, n, 'is lost when an object is assigned to itself')
    def keeps(s, g, i):
        if i >= len(g['params']): return True
        c = s.keepcache.get((g['id'], i))
        if c is None:
            seen = set(); st = [('v', g['params'][i]['d'])]; c = False
            while st and not c:
                x = st.pop()
                if x in seen: continue
                seen.add(x)
                for m in s.flow.edges.get(x, {}):
                    if m[0] in ('f', 'e', 'ret'): c = True
                    else: st.append(m)
            s.keepcache[(g['id'], i)] = c
        return c
    def freesp(s, g, i):
        d = ('v', g['params'][i]['d'])
        return any(d in r[0] for r in s.flow.rel)
    keepcache = {}
    def enter(s, st, n, g, av, fork=False):
        s.depth += 1; s.stack.append(g['id']); fn = s.fn; s.entered.add(g['id']); hold = set(s.holding)
        s.holding |= {b for b, x in st['b'].items() if x == 'A'}
        try:
            for a, pa in zip(av, g['params']):
                s.amap.pop(pa['d'], None)
                if pa.get('ref') or pa['t'].rstrip().endswith('&'):
                    pl = s.place(a)
                    if pl is not None: s.amap[pa['d']] = pl
                    continue
                if isptr(pa['t']): st['v'][(pa['d'],)] = s.val(st, a)
            s.fn = g; s.prepare(g)
            outs = s.run(g['body'], [st])
            o = [x for kk, x in outs if kk in ('next', 'return')]
            if fork: return s.dedupe(o)
            if not o: return
            # merge: keep the first state, weaken what differs
            m = o[0]
            for x in o[1:]:
                for q in set(m['v']) | set(x['v']):
                    if m['v'].get(q) != x['v'].get(q):
                        vs = {m['v'].get(q), x['v'].get(q)}
                        m['v'][q] = 'U'
                for b in set(m['b']) | set(x['b']):
                    if m['b'].get(b) != x['b'].get(b): m['b'][b] = 'X' if 'R' not in (m['b'].get(b), x['b'].get(b)) or True else 'R'
                for q in [q for q in m['f'] if x['f'].get(q) != m['f'][q]]: del m['f'][q]
            st['v'], st['b'], st['f'] = m['v'], m['b'], m['f']
        finally: s.depth -= 1; s.stack.pop(); s.fn = fn; s.holding = hold
    # ---- conditions
    def assume(s, st, c, truth):
        """states in which the condition has this truth value"""
        c = unwrap(c); k = c['k']
        if k == 'Un' and c['op'] == '!' or k == 'OpCall' and c.get('op') == '!': return s.assume(st, c['c'][0], not truth)
        if k == 'Bin' and c['op'] in ('&&', '||'):
            both = (c['op'] == '&&') == truth
            a, b = c['c']
            if both: return [y for x in s.assume(st, a, truth) for y in s.assume(x, b, truth)]
            return s.assume(s.cp(st), a, truth) + [y for x in s.assume(s.cp(st), a, not truth) for y in s.assume(x, b, truth)]
        cv = const(c)
        if cv is not None: return [st] if bool(cv) == truth else []
        a = b = None; eq = None
        if k == 'Bin' and c['op'] in ('==', '!='): a, b = c['c']; eq = (c['op'] == '==') == truth
        elif isptr(c.get('t')): a = c; eq = not truth
        if s.alias and a is not None and b is not None and {x['k'] for x in (unwrap(a), unwrap(b))} == {'This', 'Un'}:
            u = [x for x in (unwrap(a), unwrap(b)) if x['k'] == 'Un'][0]
            if u['op'] == '&' and s.place(u['c'][0]) == ('this',): return [st] if eq else []
        if a is not None and (isptr(unwrap(a).get('t')) or b is not None and isptr(unwrap(b).get('t'))):
            va = s.val(st, a); i = unwrap(a)
            vb = s.val(st, b) if b is not None else 'N'
            if b is not None and unwrap(b)['k'] == 'Ref' and unwrap(b).get('t', '').endswith(']'): vb = ('S', unwrap(b)['d'])
            if i['k'] == 'Ref' and i.get('t', '').endswith(']'): va = ('S', i['d'])
            if 'U' not in (va, vb):
                if va == vb: same = True
                elif va == 'N' or vb == 'N':
                    o = va if vb == 'N' else vb
                    same = None if isinstance(o, tuple) and o[0] in 'BI' and st['b'].get(o[1]) == 'M' and (isinstance(o[1], tuple) and o[1][0] == 'entry') else False
                    if same is None:
                        if eq:
                            for q in [q for q, v in st['v'].items() if v == o]:
                                st['v'][q] = 'N'
                                if len(q) > 1: st['f'][('z:' + '.'.join(q[:-1]), '==', 0)] = (True, frozenset())
                        return [st]
                else: same = None if any(isinstance(v, tuple) and v[0] == 'I' for v in (va, vb)) else False
                if same is not None: return [st] if same == eq else []
                return [st]
            if b is None or vb == 'N':
                pl = s.place(a)
                if pl and va == 'U' and eq and s.relevant(pl): st['v'][pl] = 'N'
        for q, v in cond_facts(c, truth).items():
            if q not in s.keys and not any(q[0] == z[0] for z in s.keys): continue
            old = st['f'].get(q)
            if old is not None:
                if old[0] != v: return []
            else:
                if q[1] == '==' and isinstance(q[2], int):
                    for q2, (v2, ns) in st['f'].items():
                        if q2[0] == q[0] and q2[1] == '==' and v2 and q2[2] != q[2] and v: return []
                        if q2[0] == q[0] and q2[1] == '==' and v2 and q2[2] == q[2] and not v: return []
                if q[1] == '!=' and q[2] == 0:
                    for q2, (v2, ns) in st['f'].items():
                        if q2[0] == q[0] and q2[1] == '==' and v2 and isinstance(q2[2], int) and (q2[2] != 0) != v: return []
                st['f'][q] = (v, frozenset(names(c)))
                if '.' in q[0] and q[2] == 0 and (q[1] == '==') == v: st['f'][('z:' + q[0][:q[0].rindex('.')], '==', 0)] = (True, frozenset())
        return [st]
    # ---- statements: [(how, state)]
    def run(s, n, sts):
        if not isinstance(n, dict): return [('next', x) for x in sts]
        s.n += 1
        if s.n > 60000: raise TooMany()
        k = n['k']; out = []
        if not s.hotsub.get(id(n), True) and k in ('If', 'For', 'While', 'Do', 'RangeFor', 'Switch'):
            for st in sts: s.skim(st, n)
            return [('next', x) for x in sts]
        if k == 'Block':
            cur = sts
            for x in n.get('c') or []:
                if not cur: break
                r = s.run(x, cur); cur = []
                for h, st in r:
                    if h == 'next': cur.append(st)
                    else: out.append((h, st))
                cur = s.dedupe(cur)
            return out + [('next', x) for x in cur]
        if k == 'If':
            for st in sts:
                for x in ('init', 'cvar'):
                    if isinstance(n.get(x), dict): s.ex(st, n[x])
                s.ex(st, n['c'][0])
                for x, t in ((n['c'][1], True), (n['c'][2] if len(n['c']) > 2 else None, False)):
                    a = s.assume(s.cp(st), n['c'][0], t)
                    if a: out += s.run(x, a) if x else [('next', y) for y in a]
            return s.dd(out)
        if k in ('For', 'While', 'Do', 'RangeFor'):
            c = n['c']
            if k == 'For': init, cond, inc, body = (c + [None] * 4)[:4]
            elif k == 'While': init, cond, inc, body = None, c[0], None, c[1]
            elif k == 'Do': init, cond, inc, body = None, c[1], None, c[0]
            else: init, cond, inc, body = None, None, None, c[-1]
            cur = sts
            if init:
                cur = [x for h, x in s.run(init, cur)]
            for rnd in range(3):
                nxt = []
                for st in cur:
                    if not (k == 'Do' and rnd == 0):
                        if cond and not (k == 'RangeFor'):
                            s.ex(st, cond)
                            ex_ = s.assume(s.cp(st), cond, False); st = s.assume(st, cond, True)
                            out += [('next', y) for y in ex_]
                            nxt += st
                        else:
                            if k == 'RangeFor': out.append(('next', s.cp(st)))
                            nxt.append(st)
                    else: nxt.append(st)
                if rnd == 2: break
                nxt = s.dedupe(nxt); cur = []
                for h, st in s.run(body, nxt):
                    if h in ('next', 'continue'):
                        if inc: s.ex(st, inc)
                        cur.append(st)
                    elif h == 'break': out.append(('next', st))
                    else: out.append((h, st))
                cur = s.dedupe(cur)
            return s.dd(out)
        if k == 'Switch':
            body = n['c'][1]; items = []
            for x in body.get('c') or []:
                while isinstance(x, dict) and x['k'] in ('Case', 'Default'):
                    items.append((x, None)); x = x['c'][-1]
                items.append((None, x))
            for st in sts: s.ex(st, n['c'][0])
            hasdef = any(l is not None and l['k'] == 'Default' for l, _ in items)
            labs = [(i, l) for i, (l, _) in enumerate(items) if l is not None]
            kk = key(n['c'][0]); ns = frozenset(names(n['c'][0]))
            for i, l in labs + ([] if hasdef else [(len(items), None)]):
                cur = []
                for st in sts:
                    st = s.cp(st); cv = const(l['c'][0]) if l is not None and l['k'] == 'Case' else None
                    if cv is not None:
                        o = [q for q, (v, _) in st['f'].items() if q[0] == kk and q[1] == '==' and (v and q[2] != cv or not v and q[2] == cv)]
                        if o: continue
                        if kk in s.swkeys or any(z[0] == kk for z in s.keys): st['f'][(kk, '==', cv)] = (True, ns)
                    cur.append(st)
                for _, x in items[i:]:
                    if x is None or not cur: continue
                    r = s.run(x, cur); cur = []
                    for h, st in r:
                        if h == 'next': cur.append(st)
                        elif h == 'break': out.append(('next', st))
                        else: out.append((h, st))
                    cur = s.dedupe(cur)
                out += [('next', x) for x in cur]
            return s.dd(out)
        if k in ('Case', 'Default', 'Label', 'OMP'):
            return s.run(n['c'][-1] if n.get('c') else None, sts)
        if k == 'Return':
            for st in sts:
                if n.get('c') and n['c'][0]:
                    s.ex(st, n['c'][0])
                    if isptr(s.fn['ret']):
                        v = s.val(st, n['c'][0]); s.escape(st, v)
                if s.depth == 0: s.exit(st, n)
                out.append(('return', st))
            return out
        if k in ('Break', 'Continue'): return [(k.lower(), x) for x in sts]
        if k == 'Goto': return []
        if k == 'Decl':
            for st in sts:
                for c in kids(n): s.ex(st, c)
            return [('next', x) for x in sts]
        if k in ('Call', 'MCall'):
            out = []
            for st in sts:
                g, av = s.enterable(n)
                if g is None: s.ex(st, n); out.append(st)
                else:
                    for c in kids(n): s.ex(st, c)
                    s.called(st, n, g); out += s.enter(st, n, g, av, True)
            return [('next', x) for x in s.dedupe(out)]
        for st in sts: s.ex(st, n)
        return [('next', x) for x in sts]
    def enterable(s, n):
        g = s.p.funcs.get(n.get('f')); k = n['k']
        av = [a for a in (n.get('c') or []) if isinstance(a, dict)] if k in ('Call', 'Construct') else args(n)
        obj = n['c'][0] if k == 'MCall' and n.get('c') else None
        this = obj is not None and unwrap(obj)['k'] == 'This'
        if g is not None and g['id'] in s.inl and s.depth < 3 and g['id'] not in s.stack and (this or k == 'Call'): return g, av
        return None, av
    def called(s, st, n, g):
        obj = n['c'][0] if n['k'] == 'MCall' and n.get('c') else None
        if obj is not None and unwrap(obj)['k'] == 'This' and not g.get('const'):
            for kk in [q for q, (v, ns) in st['f'].items() if any('::' in x for x in ns)]: del st['f'][kk]
        for kk in [q for q, (v, ns) in st['f'].items() if '()' in ns]: del st['f'][kk]
    def dd(s, out):
        d = {}
        for h, st in out: d.setdefault((h, s.sig(st)), (h, st))
        o = list(d.values())
        if len(o) > s.LIMIT:
            for h, st in o: st['f'] = {}
            d = {}
            for h, st in o: d.setdefault((h, s.sig(st)), (h, st))
            o = list(d.values())[:s.LIMIT]
        return o
    def exit(s, st, n):
        if s.f.get('dtor'):
            val = {}
            for pl, v in st['v'].items():
                if len(pl) == 2 and pl[0] == 'this': val[pl] = v
            rel = {b[1:] for b, x in st['b'].items() if b[0] == 'entry' and len(b) == 3 and b[1] == 'this' and x == 'R'}
            nul = {pl for pl, v in val.items() if v == 'N'}
            s.exits.append((frozenset(rel), frozenset(nul - rel), any(q[0].startswith('z:') and q[0] != 'z:this' for q in st['f']), n))
        for b, x in st['b'].items():
            if x == 'A': s.rep('leak', b, s.f, n, 'is not released on the way out')
        if not s.f.get('dtor') and (s.f.get('access') not in ('private', 'protected') or s.f.get('over')):
            for pl, v in st['v'].items():
                if pl[0] == 'this' and isinstance(v, tuple) and v[0] == 'B' and st['b'].get(v[1]) == 'R': s.rep('dangling', v[1], s.f, n, 'stays in %s after its release' % base_name(pl[-1] if not pl[-1].startswith('[') else pl[-2]))
    def prepare(s, f):
        """which subtrees matter, which conditions guard allocations and releases"""
        if f['id'] in s.prepared: return
        s.prepared.add(f['id'])
        s.refs |= {p['d'] for p in f['params'] if p.get('ref') or p['t'].rstrip().endswith('&')}
        def act(x):
            k = x['k']
            if k in ('New', 'Delete', 'Return', 'Goto'): return True
            if k in ('Call', 'MCall'):
                if x.get('fn') in ALLOC or x.get('fn') in ('free',) or x.get('f') in s.inl or x.get('fn') in CLOSE or x.get('fn') in HANDLE: return True
                if x.get('f') in s.p.funcs and any(unwrap(a)['k'] == 'Un' and unwrap(a)['op'] == '&' and s.hot(unwrap(a)['c'][0]) for a in args(x) if isinstance(a, dict)): return True
            if k == 'Assign' and isptr(x.get('t')): return s.hot(x['c'][0])
            if k == 'Var' and isptr(x['t']): return bool(s.flow.reach.get(('v', x['d'])))
            return False
        def guard(x): return x['k'] in ('New', 'Delete') or x['k'] in ('Call', 'MCall') and (x.get('fn') in ALLOC or x.get('fn') == 'free' or x.get('fn') in CLOSE or x.get('fn') in HANDLE or x.get('f') in s.inl)
        def go(n):
            """(interesting, contains guarded operation, has open break/continue)"""
            if not isinstance(n, dict): return (False, False, False)
            i, g, o = act(n), guard(n), n['k'] in ('Break', 'Continue')
            for c in kids(n):
                a, b, d = go(c); i |= a; g |= b; o |= d
            if n['k'] in ('For', 'While', 'Do', 'RangeFor', 'Switch'): o = False
            if n['k'] == 'If' and g: s.keys |= {q for t in (True, False) for q in cond_facts(n['c'][0], t)}
            if n['k'] == 'Switch' and g: s.swkeys.add(key(n['c'][0]))
            s.hotsub[id(n)] = i or o
            return (i, g, o)
        go(f['body'])
    def hot(s, l):
        l = unwrap(l)
        if l['k'] == 'Ref': return bool(s.flow.reach.get(('v', l['d'])))
        if l['k'] == 'Member': return l['d'] in s.own
        if l['k'] in ('Index', 'OpCall') or l['k'] == 'Un': return s.hot(l['c'][0]) if l.get('c') else False
        return False
    def go(s):
        f = s.f; s.entered = {f['id']}; s.relc = {}; s.exits = []; s.scope(); s.prepared = set(); s.keys = set(); s.swkeys = set(); s.hotsub = {}; s.refs = set(); s.prepare(f)
        st = s.new(); s.pend = []; s.holding = set(); s.params = {p['d'] for p in f['params'] if isptr(p['t']) and not p.get('ref')}
        if f.get('ctor'):
            for q in s.own: pass
        for kk, x in s.run(f['body'], [st]):
            if kk == 'next': s.exit(x, {'l': f.get('end', f['line']), 'k': 'End'})
        allr = set().union(*[r for r, _, _, _ in s.exits]) if s.exits else set()
        for a in sorted(allr): s.obs.add(('destructor', a[-1]))
        for r, nul, z, n in s.exits:
            # a path of the destructor that releases one owned member releases the others too, unless they are null
            if r and not z:
                for a in sorted(allr - r - nul):
                    # only next to a member that is always released together with it
                    if any(all(c in r2 for r2, _, _, _ in s.exits if a in r2) for c in r): s.rep('kept', ('entry',) + a, f, n, 'is not released on every path that releases %s' % ', '.join(sorted(base_name(x[-1]) for x in r)))
        if not f.get('ctor'):
            for pl, b, fn, n, null in s.pend:
                if null:
                    # forgetting memory that nobody else was told about
                    if b[-1] in s.always | {x for x in b if x in s.always} and s.entered_alone and not s.readers(b): s.rep('forget', b, fn, n, 'is forgotten without a release')
                    continue
                if not s.elemfree(b[1:]) and (b[-1] in s.always or b[1:] not in s.frees): s.rep('over', b, fn, n, 'is overwritten by a new allocation without a release')
    def readers(s, b):
        """the member is read for its value in the functions that were entered: it may have been handed over"""
        d = [x for x in b if isinstance(x, str) and not x.startswith('[')][-1]
        def go(n, val):
            if not isinstance(n, dict): return False
            k = n['k']
            if k == 'Member' and n['d'] == d: return val
            if k == 'Assign':
                return go(n['c'][1], True) or go(unwrap(n['c'][0]).get('k') == 'Member' and None or n['c'][0], False)
            if k == 'Call' and (n.get('fn') in CLOSE or n.get('fn') in ('free',)): return False
            if k in ('Call', 'MCall', 'OpCall', 'Construct'):
                if n.get('fn') in ('memcpy', 'memset', 'memmove'): return False
                return any(go(c, True) for c in kids(n))
            if k == 'Delete' or k == 'If': return any(go(c, k == 'If' and j > 0 and False) for j, c in enumerate(kids(n)))
            if k in ('Return', 'Var', 'InitList', 'Cond'): return any(go(c, True) for c in kids(n))
            if k == 'Un' and n['op'] == '&': return go(n['c'][0], True)
            if k in ('Index', 'Bin') or k == 'Un': return any(go(c, val and k == 'Index') for c in kids(n))
            return any(go(c, val) for c in kids(n))
        return any(go(s.p.funcs[i].get('body'), False) for i in s.entered if i in s.p.funcs)
    def scope(s):
        """the functions that are entered from this one, the allocations they make or release"""
        fs = {s.f['id']}; front = [s.f]
        for _ in range(3):
            nx = []
            for g in front:
                for x in walk_fn(g):
                    if x['k'] in ('Call', 'MCall') and x.get('f') in s.inl and x['f'] not in fs and x['f'] in s.p.funcs: fs.add(x['f']); nx.append(s.p.funcs[x['f']])
            front = nx
        qs = {s.p.funcs[i]['q'] for i in fs if i in s.p.funcs}
        s.sites = {('site',) + k for k in s.flow.sites if k[3] in qs}; s.relv = set()
        for ns, fam, f, x, facts in s.flow.rel:
            if f['id'] in fs:
                for n in ns: s.sites |= set(s.flow.reach.get(n, {})); s.relv.add(n)
    def relevant(s, pl):
        c = s.relc.get(pl)
        if c is None:
            d = [x for x in pl if not x.startswith('[')][-1]
            elem = pl[-1].startswith('[')
            n = ('f', d) if len([x for x in pl if not x.startswith('[')]) > 1 else ('v', d[2:] if d.startswith('::') else d)
            if elem: n = ('e',) + n
            c = s.relc[pl] = n in s.relv or bool(s.sites & set(s.flow.reach.get(n, {})))
        return c
    def elemfree(s, pl):
        """elements of the member are released somewhere in the functions entered"""
        fs = [d for d in pl if isinstance(d, str) and not d.startswith('[') and d in s.own]
        for ns, fam, f, x, facts in s.flow.rel:
            if f['id'] in s.entered and any(n[-1] in fs and (n[0] == 'e' or any(x.startswith('[') for x in pl)) for n in ns): return True
        return False
class TooMany(Exception): pass
