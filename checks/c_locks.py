"""Lock discipline: state that belongs to a mutex is only touched while that mutex is held."""
import load
from ir import *
from common import *

MUST = {'basiclog::log_logger', 'basicsys::sys_alg_analyzer', 'basicmath::mt_mat_cache', 'basicmath::mt_mat::reference_info'}
STD_LOCKS = ('std::lock_guard<', 'std::unique_lock<', 'std::scoped_lock<')
LOCK, UNLOCK, INIT, DESTROY = 'pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_init', 'pthread_mutex_destroy'

def calls_name(prog, f, name, seen=None):
    seen = seen if seen is not None else set()
    if f['id'] in seen: return False
    seen.add(f['id'])
    for n in walk_fn(f):
        if n['k'] in ('Call', 'MCall'):
            if n.get('fn') == name: return True
            g = prog.funcs.get(n.get('f'))
            if g and calls_name(prog, g, name, seen): return True
    return False

def path(n, env):
    """canonical access path of an object expression, or ('?',)"""
    n = strip(n)
    if n is None: return ('?',)
    k = n['k']
    if k == 'This': return ('this',)
    if k == 'Ref':
        if n.get('dk') == 'global' or n.get('dk') == 'slocal': return (n['d'],)
        return env.get(n['d'], (n['d'],))
    if k == 'Member':
        b = path(n['c'][0], env) if n.get('c') else ('this',)
        return b if b == ('?',) else b + (n['d'],)
    if k == 'Un' and n['op'] in ('*', '&'): return path(n['c'][0], env)
    return ('?',)

class Locks:
    def __init__(s, prog, R): s.p = prog; s.R = R
    def discover(s):
        p = s.p; R = s.R
        s.lockcls = set()
        for f in p.funcs.values():
            if f.get('ctor') and not f.get('dep') and any(n['k'] == 'Call' and n.get('fn') == LOCK for n in walk_fn(f)): s.lockcls.add(f['cls'])
        if not s.lockcls: raise load.Broken('no lock class found')
        for c in sorted(s.lockcls): s.raii(c)
        s.makers = {f['id'] for f in p.funcs.values() if any(n['k'] == 'Call' and n.get('fn') == INIT for n in walk_fn(f))}
        s.frees = {f['id'] for f in p.funcs.values() if any(n['k'] == 'Call' and n.get('fn') == DESTROY for n in walk_fn(f))}
        # mutex members
        s.mutex = {}   # field id -> (class, static)
        for f in p.funcs.values():
            for n in walk_fn(f):
                if n['k'] == 'Assign' and strip(n['c'][1]) and strip(n['c'][1]).get('f') in s.makers: s.addm(n['c'][0])
            for i in f.get('inits', []):
                if i.get('m') and isinstance(i.get('e'), dict) and strip(i['e']).get('f') in s.makers: s.mutex[i['m']] = (f['cls'], False)
        for rn, r in p.records.items():
            if not r['file'].startswith('basic'): continue
            for fd in r['fields']:
                if fd['t'] in ('std::mutex', 'std::recursive_mutex', 'pthread_mutex_t'): s.mutex[fd['d']] = (rn, False)
        have = {c for c, _ in s.mutex.values()}
        if MUST - have: 
            for c in sorted(MUST - have):
                if c not in p.records: raise load.Broken('class %s vanished' % c)
                R.bad('%s has no mutex of its own any more' % c, file=p.records[c]['file'], line=p.records[c]['line'], func=c)
        s.guard = {}   # field id -> mutex id
        for m, (c, st) in s.mutex.items():
            for k in [c] + (s.sub(c) if not st else []):
                if st:
                    for g, v in p.globals.items():
                        if v.get('sm') and g.rsplit('::', 1)[0] == c and g != m: s.guard[g] = m
                else:
                    for fd in p.records[k]['fields']:
                        if fd['d'] != m and fd['d'] not in s.mutex: s.guard[fd['d']] = m
        # immutable after construction: never written outside constructors and destructors
        written = set()
        for f in p.funcs.values():
            if f.get('dep'): continue
            for n, par in s.parents(f):
                d = n.get('d')
                if d in s.guard and not s.exempt(f, d) and s.writes(n, par): written.add(d)
        s.immut = {d for d in s.guard if d not in written}
        R.count('mutexes', len(s.mutex)); R.count('guarded members', len(s.guard) - len(s.immut)); R.count('members fixed at construction', len(s.immut))
    def sub(s, c):
        r = []
        for d in s.p.derived.get(c, []): r += [d] + s.sub(d)
        return r
    def addm(s, n):
        n = strip(n)
        if n['k'] == 'Member': s.mutex[n['d']] = (n['d'].rsplit('::', 1)[0], False)
        elif n['k'] == 'Ref' and n.get('dk') == 'global':
            v = s.p.globals.get(n['d']) or {}
            if v.get('sm'): s.mutex[n['d']] = (n['d'].rsplit('::', 1)[0], True)
    def exempt(s, f, d):
        """constructors and destructors own their object"""
        return (f.get('ctor') or f.get('dtor')) and not s.mutex[s.guard[d]][1]
    def parents(s, f):
        st = [(i['e'], None) for i in f.get('inits', []) if isinstance(i.get('e'), dict)]
        if f.get('body'): st.append((f['body'], None))
        while st:
            n, par = st.pop()
            yield n, par
            for c in kids(n): st.append((c, n))
    def writes(s, n, par):
        if n.get('r'): return False
        t = n.get('t', '')
        if t.startswith('const '): return False
        if par is not None and par['k'] in ('ICast', 'Cast') and par.get('t', '').startswith('const '): return False
        return True
    def raii(s, c):
        p = s.p; R = s.R
        ct = [f for f in p.funcs.values() if f.get('ctor') and f.get('cls') == c and not f.get('implicit') and len(f['params']) == 1]
        dt = [f for f in p.funcs.values() if f.get('dtor') and f.get('cls') == c]
        R.ob('%s: locks in the constructor' % c); R.ob('%s: unlocks in the destructor' % c)
        if not dt or not dt[0].get('body'): R.bad('%s never unlocks' % c, file=ct[0]['file'], line=ct[0]['line'], func=c); return
        def top(f, name):
            """arguments of unconditional calls of name"""
            r = []
            def rec(n):
                if n['k'] == 'Block':
                    for x in n.get('c') or []:
                        if x['k'] == 'Return': return
                        rec(x)
                elif n['k'] in ('If', 'For', 'While', 'Do', 'Switch', 'RangeFor'): return
                else:
                    for x in walk(n):
                        if x['k'] == 'Call' and x.get('fn') == name: r.append(x['c'][0])
                        elif x['k'] in ('Call', 'MCall'):
                            g = p.funcs.get(x.get('f'))
                            if g and g.get('cls') == c and g.get('body') and g is not f: rec(g['body'])
            rec(f['body'])
            return r
        for f in ct:
            a = top(f, LOCK)
            if not a: R.bad('the constructor does not lock on every path', file=f['file'], line=f['line'], func=f['id']); continue
            src = {f['params'][0]['d']}
            fields = set()
            for n in walk_fn(f):
                if n['k'] == 'Assign' and strip(n['c'][1])['k'] == 'Ref' and strip(n['c'][1])['d'] in src and strip(n['c'][0])['k'] == 'Member': fields.add(strip(n['c'][0])['d'])
            for i in f.get('inits', []):
                if i.get('m') and isinstance(i.get('e'), dict) and strip(i['e']).get('d') in src: fields.add(i['m'])
            d0 = strip(a[0]).get('d')
            if d0 not in src | fields: R.bad('locks something other than the mutex it was given', file=f['file'], line=f['line'], func=f['id'])
            b = top(dt[0], UNLOCK)
            if not b: R.bad('the destructor does not unlock on every path', file=dt[0]['file'], line=dt[0]['line'], func=dt[0]['id'])
            elif strip(b[0]).get('d') not in fields: R.bad('unlocks something other than the mutex that was locked', file=dt[0]['file'], line=dt[0]['line'], func=dt[0]['id'])
    # ---- per function
    def lockvar(s, v):
        """mutex expression locked by a local variable declaration, or None"""
        t = v.get('t', '')
        if t in s.lockcls or t.startswith(STD_LOCKS):
            c = strip((v.get('c') or [None])[0]) if v.get('c') else None
            if c is not None and c['k'] == 'Construct' and c.get('c'): return c['c'][0]
        return None
    def key(s, n, env):
        """(base path, mutex id) of a mutex expression"""
        pt = path(n, env)
        if pt[-1] in s.mutex: return (pt[:-1] if not s.mutex[pt[-1]][1] else (), pt[-1])
        return ('other', pt)
    def keyof(s, n, env):
        """lock that guards the member accessed by node n"""
        m = s.guard[n['d']]
        if s.mutex[m][1]: return ((), m)
        b = path(n['c'][0], env) if n['k'] == 'Member' and n.get('c') else ('this',)
        return (b, m)
    def summarise(s):
        """need[f]: locks (rooted at this) that f's callers must hold; acq[f]: locks f may take"""
        p = s.p
        s.info = {}
        for f in p.funcs.values():
            if f.get('dep') or not f.get('body') or not f['file'].startswith('basic'): continue
            s.info[f['id']] = s.scan(f)
    def scan(s, f):
        r = dict(acc=[], calls=[], acq=[], alias=[], ret=[], raw=[])
        env = {}; tainted = {}   # local pointer/reference/iterator -> (field, key)
        sec = [0]
        def refs_guarded(n):
            for x in walk(n):
                if x.get('d') in s.guard and x['d'] not in s.immut and x['k'] in ('Member', 'Ref'): yield x
        def expr(n, held):
            for x in walk(n):
                k = x['k']
                if k in ('Member', 'Ref') and x.get('d') in s.guard and x['d'] not in s.immut: r['acc'].append((x, s.keyof(x, env), dict(held)))
                if k == 'Ref' and x.get('d') in tainted: r['alias'].append((x, tainted[x['d']], dict(held)))
                if k in ('Call', 'MCall', 'Construct', 'OpCall') and x.get('f'):
                    ob = None
                    if k == 'MCall' or (k == 'OpCall' and x.get('meth')): ob = path(x['c'][0], env)
                    r['calls'].append((x, ob, dict(held)))
                if k == 'Construct' and x.get('cls') in s.lockcls and x.get('c'): r['acq'].append((x, s.key(x['c'][0], env), dict(held)))
        def stmt(n, held):
            k = n['k']
            if k == 'Block':
                h = dict(held)
                for x in n.get('c') or []: h = stmt(x, h)
                return held
            if k == 'Decl':
                h = held
                for v in n.get('c') or []:
                    if v['k'] != 'Var': continue
                    lk = s.lockvar(v)
                    for c in kids(v): expr(c, h)
                    if lk is not None:
                        sec[0] += 1; h = dict(h); h[s.key(lk, env)] = sec[0]
                        if v['t'].startswith(STD_LOCKS): r['acq'].append((v, s.key(lk, env), dict(held)))
                    elif v.get('c'):
                        i = v['c'][0]; t = v['t']
                        isref = t.rstrip().endswith(('&', '*')) or 'iterator' in t or (s.p.types.get(t) or {}).get('p')
                        if isref:
                            pt = path(i, env)
                            if pt != ('?',) and t.rstrip().endswith(('&', '*')): env[v['d']] = pt
                            for x in refs_guarded(i):
                                if not x.get('r') or 'p' in (s.p.types.get(x['t']) or {}): tainted[v['d']] = (x['d'], s.keyof(x, env)); break
                            else:
                                for x in walk(i):
                                    if x.get('d') in tainted: tainted[v['d']] = tainted[x['d']]
                return h
            if k == 'If':
                c = n['c']
                if c[0]: expr(c[0], held)
                if n.get('cvar'): stmt({'k': 'Decl', 'c': [n['cvar']]}, held)
                for x in c[1:]:
                    if x: stmt(x, held)
                return held
            if k in ('For', 'While', 'Do', 'Switch', 'RangeFor', 'Case', 'Default', 'Label', 'OMP', 'Try'):
                h = dict(held)
                for x in n.get('c') or []:
                    if isinstance(x, dict): h = stmt(x, h)
                return held
            if k == 'Return':
                for x in n.get('c') or []:
                    if x:
                        expr(x, held)
                        if f['ret'].rstrip().endswith(('&', '*')):
                            for y in refs_guarded(x):
                                if not y.get('r') or 'p' in (s.p.types.get(y['t']) or {}): r['ret'].append((y, n))
                return held
            expr(n, held)
            # late assignments of pointers into guarded state
            for x in walk(n):
                if x['k'] == 'Assign' or (x['k'] == 'OpCall' and x.get('op') == '=' and 'iterator' in x.get('t', '')):
                    a, b = x['c'][0], x['c'][1]
                    if strip(a)['k'] == 'Ref' and strip(a).get('dk') == 'local':
                        t = strip(a)['t']
                        if (s.p.types.get(t) or {}).get('p') or 'iterator' in t:
                            for y in refs_guarded(b):
                                tainted[strip(a)['d']] = (y['d'], s.keyof(y, env)); break
                            else:
                                for y in walk(b):
                                    if y.get('d') in tainted: tainted[strip(a)['d']] = tainted[y['d']]
            return held
        for i in f.get('inits', []):
            if isinstance(i.get('e'), dict): expr(i['e'], {})
        stmt(f['body'], {})
        return r
    def mapkey(s, key, ob, callee, caller):
        """lock key of a callee seen from the call site"""
        b, m = key
        if b == 'other': return key
        if s.mutex[m][1]: return key
        if b and b[0] == 'this':
            if ob is None: return (b, m) if False else (('?',), m)
            if ob == ('?',): return (('?',), m)
            return (ob + b[1:], m)
        if b and b[0] in s.p.globals: return key
        return (('?',), m)
    def targets(s, x):
        fid = x['f']; r = [fid]
        if x['k'] == 'MCall': r += list(s.p.all_over(fid))
        return [t for t in r if t in s.info]
    def check(s):
        p = s.p; R = s.R; info = s.info
        # locks each function needs from its callers
        callers = {}
        for fid, i in info.items():
            for x, ob, held in i['calls']:
                for t in s.targets(x): callers.setdefault(t, []).append((fid, x, ob, held))
        need = {}; acq = {}
        for fid, i in info.items():
            f = p.funcs[fid]
            for x, key, held in i['acc']:
                if s.exempt(f, x['d']) and key[0] == ('this',): continue
                if key not in held: need.setdefault(fid, {}).setdefault(key, (x, f))
            acq[fid] = {}
            for x, key, held in i['acq']: acq[fid].setdefault(key, (x, f))
        ch = True
        while ch:
            ch = False
            for fid, cs in callers.items():
                for k, w in list(need.get(fid, {}).items()):
                    for (g, x, ob, held) in cs:
                        km = s.mapkey(k, ob, fid, g)
                        gf = p.funcs[g]
                        if (gf.get('ctor') or gf.get('dtor')) and km[0] == ('this',): continue
                        if km not in held and km not in need.get(g, {}):
                            if s.entry(p.funcs[fid]): continue
                            need.setdefault(g, {})[km] = w; ch = True
                for k, w in list(acq.get(fid, {}).items()):
                    for (g, x, ob, held) in cs:
                        km = s.mapkey(k, ob, fid, g)
                        if km not in acq[g]: acq[g][km] = w; ch = True
        mname = lambda k: k[1].split('::')[-1] if isinstance(k[1], str) else str(k[1])
        # 1. accesses without the lock
        for fid, i in info.items():
            f = p.funcs[fid]
            for x, key, held in i['acc']:
                R.ob('%s:%s %s under %s' % (f['id'], x['l'], x['n'], mname(key)))
            for key, (x, wf) in need.get(fid, {}).items():
                if wf is f and (s.entry(f) or not callers.get(fid)):
                    R.bad('%s is accessed without holding %s' % (x['d'].split('::', 1)[1], mname(key)), file=f['file'], line=x['l'], func=f['id'])
                elif wf is not f and (s.entry(f) or not callers.get(fid)):
                    R.bad('%s is reached (in %s) without holding %s' % (x['d'].split('::', 1)[1], wf['name'], mname(key)), file=f['file'], line=f['line'], func=f['id'])
            for x, (d, key), held in i['alias']:
                R.ob('%s:%s alias %s' % (f['id'], x['l'], x['n']))
                if s.exempt(f, d): continue
                if key not in held and key not in need.get(fid, {}):
                    R.bad('%s, which points into %s, is used without holding %s' % (x['n'], d.split('::', 1)[1], mname(key)), file=f['file'], line=x['l'], func=f['id'])
            for y, n in i['ret']:
                R.bad('hands out a reference to %s, which its mutex guards' % y['d'].split('::', 1)[1], file=f['file'], line=n['l'], func=f['id'])
            # 2. one critical section per read-modify-write
            secs = {}
            for x, key, held in i['acc']:
                if key in held: secs.setdefault((x['d'], key), {}).setdefault(held[key], []).append(x)
            W = {id(n) for n, par in s.parents(f) if n.get('d') in s.guard and s.writes(n, par)}
            for (d, key), by in secs.items():
                R.ob('%s: %s in one critical section' % (f['id'], d))
                if len(by) > 1 and any(id(x) in W for xs in list(by.values())[1:] for x in xs):
                    R.bad('%s is used in %d separate critical sections of %s: another thread can come between' % (d.split('::', 1)[1], len(by), mname(key)), file=f['file'], line=f['line'], func=f['id'])
            # 3. no lock taken twice
            for x, key, held in i['acq']:
                R.ob('%s:%s takes %s once' % (f['id'], x['l'], mname(key)))
                if key in held: R.bad('takes %s, which it already holds' % mname(key), file=f['file'], line=x['l'], func=f['id'])
            for x, ob, held in i['calls']:
                if not held: continue
                for t in s.targets(x):
                    for k, (w, wf) in acq.get(t, {}).items():
                        km = s.mapkey(k, ob, t, fid)
                        R.ob('%s:%s call %s' % (f['id'], x['l'], t))
                        for h in held:
                            if h == km or (km[0] == ('?',) and h[1] == km[1] and h[0] != 'other'):
                                R.bad('calls %s while holding %s, which that call takes again (in %s): deadlock' % (x.get('fn') or t, mname(h), wf['id']), file=f['file'], line=x['l'], func=f['id'])
        # 4. life of the mutexes
        for m, (c, st) in s.mutex.items():
            if st or p.records[c]['fields'] and any(fd['d'] == m and fd['t'] != 'void *' for fd in p.records[c]['fields']): continue
            for f in p.funcs.values():
                if f.get('cls') != c or f.get('implicit') or f.get('dep'): continue
                if f.get('ctor') and not any(i.get('w') == 'this' for i in f.get('inits', [])):
                    R.ob('%s creates its mutex' % f['id'])
                    if not s.reaches(f, m, s.makers): R.bad('the constructor does not create %s' % m, file=f['file'], line=f['line'], func=f['id'])
                if f.get('dtor'):
                    R.ob('%s releases its mutex' % f['id'])
                    if not s.reaches(f, m, s.frees): R.bad('the destructor does not release %s' % m, file=f['file'], line=f['line'], func=f['id'])
    def reaches(s, f, m, fns):
        for i in f.get('inits', []):
            if i.get('m') == m and isinstance(i.get('e'), dict) and strip(i['e']).get('f') in fns: return True
        def rec(n):
            if n['k'] in ('For', 'While', 'Switch', 'RangeFor', 'If'): return False
            if n['k'] == 'Assign' and strip(n['c'][0]).get('d') == m and strip(n['c'][1]).get('f') in fns: return True
            if n['k'] == 'Call' and n.get('f') in fns and any(strip(a).get('d') == m for a in n.get('c') or []): return True
            if n['k'] in ('Call', 'MCall'):
                g = s.p.funcs.get(n.get('f'))
                if g and g.get('cls') == f['cls'] and g is not f and g.get('body') and s.reaches(g, m, fns): return True
            return any(rec(c) for c in kids(n))
        return bool(f.get('body')) and rec(f['body'])
    def entry(s, f):
        """callable from outside its class, hence without any lock"""
        if f.get('ctor') or f.get('dtor'): return False
        return f.get('access') == 'public' or not f.get('cls')

def analyse(prog, R):
    L = Locks(prog, R)
    L.discover(); L.summarise(); L.check()
    R.count('functions scanned', len(L.info))
    for m, (c, st) in sorted(L.mutex.items()):
        R.note('%s guards %s' % (m, ', '.join(sorted(d.split('::')[-1] for d, g in L.guard.items() if g == m and d not in L.immut))))

def main():
    run_check('C02', lambda: load.load(mods=['basiclog', 'basicsys', 'basicmath']), analyse, 'other', minimum=60,
        explanation='Lock sets over the resolved syntax tree: every access to a member that belongs to a mutex is inside a scope that holds that mutex of the same object (or in a non-public function all of whose call sites hold it); no pointer into guarded state outlives the scope; a member is not read and written in two separate critical sections of one function; no call made under a mutex takes it again.')
if __name__ == '__main__': main()
