"""C03: dynamically allocated memory is released exactly once, by the matching operation, and never used afterwards."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import load
from common import run_check, parallel
from own import *
from own_count import counted
PLAIN = {'memcpy', 'memset', 'memmove', 'memcmp', 'strlen', 'strcpy', 'strncpy', 'strcat', 'sprintf', 'printf', 'fprintf', 'fread', 'fwrite', 'sort', 'strcmp', 'free', 'realloc', 'stable_sort', 'fill', 'copy', 'min', 'max'}

def label(n):
    if n[0] == 'entry': return '.'.join(base_name(x) for x in n[1:])
    if n[0] in ('new', 'site'): return '%s in %s' % (n[3], n[4].split('(')[0])
    return ':'.join(str(x) for x in n)

class Own:
    def __init__(s, prog):
        s.p = prog; F = s.F = Flow(prog)
        if not F.sites or not F.rel: raise load.Broken('no allocation or no release found')
        s.owned = {n[-1] for r in F.rel for n in r[0] if n[0] in ('f', 'e') and n[-2] == 'f'}
        s.direct = {r[2]['id'] for r in F.rel}
        s.calls = collections.defaultdict(set); s.funcs = [f for f in prog.funcs.values() if (f.get('body') or f.get('inits')) and not f['id'].startswith('<T>')]
        alloc = set(); s.copied = set()
        for f in s.funcs:
            for x in walk_fn(f):
                if x['k'] in ('Call', 'MCall', 'OpCall') and x.get('f') in prog.funcs: s.calls[f['id']].add(x['f'])
                if x['k'] in ('Construct', 'OpCall'): s.copied.add(x.get('f'))
                if x['k'] == 'New' or x['k'] == 'Call' and (x.get('fn') in ALLOC or x.get('fn') in HANDLE) or x['k'] in ('Call', 'MCall') and x.get('f') in prog.funcs and F.fresh(x['f']): alloc.add(f['id'])
                if x['k'] == 'Assign' and isptr(x.get('t')):
                    l = unwrap(x['c'][0])
                    if l['k'] == 'Member' and l['d'] in s.owned: s.direct.add(f['id'])
        s.inl = s.direct | alloc; s.called = set().union(*s.calls.values()) if s.calls else set()
        ch = True
        while ch:
            ch = False
            for a, bs in s.calls.items():
                if a not in s.inl and bs & s.inl: s.inl.add(a); ch = True
    def closure(s, fids):
        """functions reachable through calls, destructors of members, bases included"""
        seen = set(); st = list(fids)
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x); st += s.calls.get(x, ()); st += s.p.all_over(x)
        return seen

def forms(o, R):
    F = o.F; freed = set()
    for ns, fam, f, x, facts in F.rel:
        sites = {}
        for n in ns:
            for k, c in F.reach.get(n, {}).items():
                if not F.conflict(c, facts): sites[k] = c
        freed |= set(sites)
        facts = {d: v for d, v in facts.items() if not any(d in n for n in ns)}
        what = {'malloc': 'free', 'new[]': 'delete[]', 'new': 'delete', 'file': 'fclose', 'directory': 'closedir'}[fam]
        R.ob('%s: %s at %s matches its allocations' % (f['q'], show(x)[:60], f['file'])); R.count('releases')
        bad = [k for k in sites if k[3] != fam]
        if not bad: continue
        # evident: nothing is known about the object, or the flags stored with the pointer are those the release asks for
        ev = [k for k in bad if not facts or any(d in facts for d, _ in sites[k]) or len(bad) == len(sites)]
        for k in ev:
            R.bad('%s releases memory that %s:%s allocates with %s' % (what, k[1], k[2], k[3] if k[3] != 'malloc' else 'malloc'), f['file'], x['l'], f['id'], key='%s|form|%s|%s' % (f['q'], key(x['c'][0])[-60:], k[4]))
    return freed

def alive(o):
    """functions that somebody can call"""
    live = o.closure([f['id'] for f in o.funcs if f.get('cls') and f.get('access', 'public') == 'public' or f['file'].endswith('.h')])
    return live

def handed(o, R, live):
    """a member that takes memory over is released somewhere that can be reached"""
    F = o.F; p = o.p; F.edges_to(None)
    rel = set()
    for ns, fam, f, x, facts in F.rel:
        if f['id'] in live: rel |= set(ns)
    def fwd(n):
        seen = set(); st = [n]
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x); st += [m for m in F.edges.get(x, {}) if m[:2] != ('e', 'v')]
        return seen
    def src(n, depth=0):
        """allocations that are stored into the node, through local variables and functions that return new memory"""
        out = set(); st = [n]; seen = set()
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x)
            for a in F.rev.get(x, []):
                if a[0] == 'site': out.add(a)
                elif a[0] == 'ret' and F.fresh(a[1]): out.add(a)
                elif a[0] == 'e' and a[1] == 'v' or a[0] == 'v' and a[1].startswith('L'): st.append(a)
        return out
    nodes = [n for n in list(F.reach) if n[0] == 'f' or n[0] == 'e' and n[1] == 'f']
    ok = {n: bool(fwd(n) & rel) for n in nodes}
    srcs = {n: src(n) for n in nodes}
    for n in nodes:
        d = n[-1]
        if not srcs[n] or 'std::' in d: continue
        R.ob('%s: what it takes over is released' % d); R.count('taking_members')
        if ok[n]: continue
        rec = d.rsplit('::', 1)[0]
        if any(ok[m] and m[-1].rsplit('::', 1)[0] == rec and srcs[m] & srcs[n] for m in nodes): continue
        # every allocation that it takes over is released through another name
        if all(a[0] == 'site' and any(a in F.reach.get(m, {}) for m in rel) and a[3] not in ('file', 'directory') for a in srcs[n]): continue
        r = p.records.get(rec) or {}
        R.bad('memory or handle stored in %s is released nowhere' % base_name(d), r.get('file'), r.get('line'), rec, key='%s|taken|%s' % (rec, base_name(d)))

def unknown(o):
    """nodes whose values leave the analysed program: arguments of unknown functions, public results"""
    F = o.F; out = set(); called = set()
    for f in o.funcs:
        for x in walk_fn(f):
            if x['k'] in ('Call', 'MCall', 'OpCall', 'Construct'):
                if x.get('f') in o.p.funcs: called.add(x['f']); continue
                if x.get('fn') in PLAIN or x['k'] == 'OpCall' or x.get('fn') in ('push_back', 'push', 'push_front'): continue
                for a in x.get('c') or []:
                    if isinstance(a, dict):
                        for n in F.src(a, f): out.add(n)
            if x['k'] == 'Lambda':
                for y in walk(x):
                    if y['k'] == 'Ref': out.add(('v', y['d']))
            if x['k'] == 'InitList':
                for a in kids(x):
                    for n in F.src(a, f): out.add(n)
    for f in o.funcs:
        if isptr(f.get('ret')) and f.get('access', 'public') == 'public' and not f.get('dep'):
            if f['id'] not in called: out.add(('ret', f['id']))
    return out

def released(o, R, freed):
    F = o.F; unk = unknown(o)
    for k in F.sites:
        n0 = ('site',) + k
        R.ob('%s: %s of %s reaches a release' % (k[3], k[2], k[4][-50:])); R.count('allocations')
        if n0 in freed or n0 in unk: continue
        ns = [n for n, ss in F.reach.items() if n0 in ss]
        if any(n in unk for n in ns): continue
        if any(n[-1].startswith('::') or n[0] == 'v' and n[1] in o.p.globals for n in ns): continue
        ret = [n for n in ns if n[0] == 'ret' and o.p.funcs[n[1]].get('access', 'public') == 'public']
        if ret: continue
        R.bad('memory allocated with %s is released nowhere' % k[2], k[0], k[1], k[3], key='%s|never|%s' % (k[3], k[4][-50:]))

def related(p, rec):
    """the class, its bases and derived classes, and the classes that hold objects of them"""
    import re
    out = set(); st = [rec]
    while st:
        x = st.pop()
        if x in out or x not in p.records: continue
        out.add(x); n = re.compile(r'(?<![A-Za-z0-9_])' + re.escape(x.split('::')[-1] if '<' not in x else x) + r'(?![A-Za-z0-9_])')
        st += p.records[x].get('bases', [])
        for y, r in p.records.items():
            if x in r.get('bases', []) or any(n.search(fd['t']) for fd in r.get('fields', [])) or y.startswith(x + '::') or x.startswith(y + '::'): st.append(y)
    return out

def cls_dtor(p, o, rec, dt):
    """the class has a destructor of its own that is not abstract"""
    return any((p.funcs.get(m['f']) or {}).get('body') is not None for m in dt)

def passed(o):
    """members that are released through a local variable or by a function they are passed to: [(nodes, releasing or calling function)]"""
    F = o.F; out = []; F.edges_to(None)
    params = {q['d'] for f in o.funcs for q in f['params']}
    def back(ns):
        seen = set(); st = list(ns)
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x)
            if x[0] == 'v' and x[1] not in params or x[:2] == ('e', 'v') and x[2] not in params: st += F.rev.get(x, [])
        return seen
    rel = set()
    for ns, fam, f, x, facts in F.rel:
        b = back(ns); out.append(([n for n in b if n[0] in ('f', 'e')], f)); rel |= {n for n in b if n[0] == 'v'}
    ch = True
    while ch:
        ch = False
        for f in o.funcs:
            for x in walk_fn(f):
                g = o.p.funcs.get(x.get('f')) if x['k'] in ('Call', 'MCall') else None
                if g is None: continue
                for a, pa in zip(args(x), g['params']):
                    if isinstance(a, dict) and ('v', pa['d']) in rel:
                        b = back(F.src(a, f)); out.append(([n for n in b if n[0] in ('f', 'e')], f))
                        new = {n for n in b if n[0] == 'v'} - rel
                        if new: rel |= new; ch = True
    return out

def members(o, R):
    """a destructor releases what its members own; an object that releases memory can not be copied by member-wise copies"""
    F = o.F; p = o.p
    dtors = [f['id'] for f in o.funcs if f.get('dtor')]
    live = o.closure(dtors)
    byrec = collections.defaultdict(lambda: collections.defaultdict(list))
    for ns, f in [(r[0], r[2]) for r in F.rel] + passed(o):
        for n in ns:
            if n[0] == 'f' or n[0] == 'e' and n[1] == 'f':
                d = n[-1]
                if F.reach.get(n): byrec[d.rsplit('::', 1)[0]][d].append(f)
    for rec, fl in sorted(byrec.items()):
        r = p.records.get(rec)
        if r is None: continue
        ms = r.get('methods', []); dt = [m for m in ms if m.get('dtor') and not m.get('impl')]
        cls = bool([m for m in ms if not m.get('impl') and not m.get('ctor')]) or bool(dt)
        own = o.closure([m['f'] for m in dt])
        line, file = r.get('line'), r.get('file')
        near = own if dt and cls_dtor(p, o, rec, dt) else o.closure([m['f'] for q in related(p, rec) for m in p.records[q].get('methods', []) if m.get('dtor')])
        # classes that clean up after this record (it is a member or element of theirs)
        for d, fs in sorted(fl.items()):
            R.ob('%s: a destructor releases it' % d); R.count('owning_members')
            if not any(f['id'] in near for f in fs):
                # C style objects: released by a function that a destructor or the owner calls
                if cls or dt: R.bad('no destructor releases %s' % base_name(d), file, line, rec, key='%s|dtor|%s' % (rec, base_name(d)))
        held = [d for d, fs in fl.items() if any(f['id'] in own for f in fs)]
        if not held: continue
        started(o, R, r, rec, held)
        for what, flag in (('copy constructor', 'cpct'), ('copy assignment', 'cpas')):
            m = [m for m in ms if m.get(flag)]
            R.ob('%s: %s of an object that owns %s' % (rec, what, ', '.join(sorted(map(base_name, held))))); R.count('copy_operations')
            if m and m[0].get('del'): continue
            if not m and not movable(ms) and not copyable(p, rec, flag): continue
            if not m or m[0].get('impl') or m[0]['f'] in p.funcs and p.funcs[m[0]['f']].get('defaulted'):
                if not (r.get('file') or '').endswith('.h') and not (m and m[0]['f'] in o.copied): continue    # a private helper that nobody copies
                if m and not m[0].get('del') or not m: R.bad('the implicit %s shares %s, both copies release it' % (what, ', '.join(sorted(map(base_name, held)))), file, line, rec, key='%s|%s|implicit' % (rec, flag))
                continue
            f = p.funcs.get(m[0]['f'])
            if f is None or not (f.get('body')):
                if m[0].get('acc') == 'public': R.note('%s of %s has no body' % (what, rec))
                continue
            for d in held:
                if d not in o.counted: shallow(o, R, f, d, what)
def sets(o, f, d, seen):
    """the function (or one it calls on its object) gives the member a value"""
    if f['id'] in seen: return False
    seen.add(f['id'])
    for x in walk_fn(f):
        if x['k'] in ('Assign', 'Call', 'MCall', 'OpCall'):
            for y in (walk(x['c'][0]) if x['k'] == 'Assign' and x.get('c') else [z for a in args(x) if isinstance(a, dict) for z in walk(a)] if x['k'] == 'Call' and x.get('fn') in ('memset', 'fill', 'memcpy') or x['k'] == 'Call' and x.get('f') in o.p.funcs else []):
                if y['k'] == 'Member' and y['d'] == d: return True
            g = o.p.funcs.get(x.get('f'))
            if g is not None and g.get('cls') and g.get('cls') == f.get('cls') and sets(o, g, d, seen): return True
    return False

def started(o, R, r, rec, held):
    for m in r.get('methods', []):
        f = o.p.funcs.get(m['f']) if m.get('ctor') and not m.get('del') and not m.get('impl') else None
        if f is None or not f.get('body'): continue
        if any(not i.get('m') and i.get('e') and (i.get('n') or '').split('<')[0].split('::')[-1] == rec.split('<')[0].split('::')[-1] for i in f.get('inits', [])): continue
        for d in held:
            fd = [x for x in r['fields'] if x['d'] == d]
            if not fd or not (isptr(fd[0]['t']) or fd[0]['t'].rstrip().endswith(']')): continue
            R.ob('%s initialises %s' % (f['id'], base_name(d))); R.count('initialisations')
            if fd[0].get('init') or any(i.get('m') == d and i.get('w') for i in f.get('inits', [])): continue
            if not sets(o, f, d, set()): R.bad('the constructor leaves %s uninitialised, the destructor releases it' % base_name(d), f['file'], f['line'], f['id'], key='%s|start|%s' % (f['id'], base_name(d)))

def movable(ms): return any('&&' in m['f'] for m in ms)
def copyable(p, rec, flag):
    r = p.records.get(rec)
    if r is None: return True
    m = [m for m in r.get('methods', []) if m.get(flag)]
    if m: return not m[0].get('del') and m[0].get('acc') != 'private'
    return all(copyable(p, b, flag) for b in r.get('bases', []))

def shallow(o, R, f, d, what):
    """member-wise copy of an owning member inside a user defined copy operation: only if shared by count or by an ownership flag"""
    rels = [{x: v for x, v in r[4].items() if x != d} for r in o.F.rel if any(n[-1] == d for n in r[0])]
    def go(n, guarded, counted):
        if not isinstance(n, dict): return
        if n['k'] == 'If':
            for c, t in zip(n['c'][1:], (True, False)):
                fs = frozenset(o.F.mfacts(n['c'][0], t).items())
                go(c, guarded or bool(rels) and all(o.F.conflict(fs, r) for r in rels), counted)
            return
        if n['k'] == 'Assign':
            l, r = unwrap(n['c'][0]), unwrap(n['c'][1])
            while l['k'] == 'Index' and r['k'] == 'Index': l, r = unwrap(l['c'][0]), unwrap(r['c'][0])
            if l['k'] == 'Member' and r['k'] == 'Member' and l['d'] == r['d'] == d and key(l) != key(r) and not guarded and not counted:
                R.bad('%s copies the pointer %s, both objects release it' % (what, base_name(d)), f['file'], n['l'], f['id'], key='%s|shallow|%s' % (f['q'], base_name(d)))
        for c in kids(n): go(c, guarded, counted)
    counted = any(x['k'] == 'MCall' and not x.get('const') and x.get('c') and isinstance(x['c'][0], dict) and isptr(x['c'][0].get('t') or '') and unwrap(x['c'][0])['k'] == 'Member' and unwrap(x['c'][0])['d'].rsplit('::', 1)[0] == d.rsplit('::', 1)[0] for x in walk_fn(f))
    go(f['body'], False, counted)
    for i in f.get('inits', []):
        if i.get('m') == d and isinstance(i.get('e'), dict):
            e = unwrap(i['e'])
            if e['k'] == 'Member' and e['d'] == d and not counted: R.bad('%s copies the pointer %s, both objects release it' % (what, base_name(d)), f['file'], f['line'], f['id'], key='%s|shallow|%s' % (f['q'], base_name(d)))

def emptied(o, R):
    """a container of owned pointers is emptied only after its elements were released"""
    F = o.F; rel = collections.defaultdict(set)
    for ns, f in [(r[0], r[2]) for r in F.rel] + passed(o):
        for n in ns:
            if n[0] == 'e' and n[1] == 'f': rel[n[2]].add(f['id'])
    releasing = {}
    for ns, fam, f, x, facts in F.rel:
        seen = set(); st = list(ns)
        while st:
            n = st.pop()
            if n in seen: continue
            seen.add(n)
            if n[0] == 'e' and n[1] == 'f': releasing.setdefault(n[2], set()).add(id(x))
            elif n[0] == 'v': st += F.rev.get(n, [])
    for f in o.funcs:
        if not f.get('body'): continue
        def does(n, d):
            """the statement releases elements of the container"""
            for y in walk(n):
                if id(y) in releasing.get(d, ()): return True
                if y['k'] in ('Call', 'MCall') and y.get('f') in o.p.funcs and o.closure([y['f']]) & rel[d]: return True
            return False
        def only(c, d):
            """the condition speaks about the container alone"""
            ms = {y['d'] for y in walk(c) if y['k'] == 'Member' and 'std::' not in y['d']}
            return ms == {d} and not any(y['k'] == 'Ref' and y.get('dk') in ('parm', 'local') for y in walk(c))
        def after(n, d, done):
            """the container is emptied although its elements may not be released; returns whether they are afterwards"""
            k = n['k']
            if k in ('MCall',) and n.get('fn') in ('clear',) and n.get('c') and isinstance(n['c'][0], dict) and unwrap(n['c'][0]).get('d') == d:
                R.ob('%s:%s empties %s' % (f['q'], n['l'], base_name(d))); R.count('emptied')
                if not done: R.bad('%s is emptied, its elements may not be released' % base_name(d), f['file'], n['l'], f['id'], key='%s|emptied|%s' % (f['q'], base_name(d)))
                return done
            if k == 'If':
                bs = [after(c, d, done) for c in n['c'][1:] if isinstance(c, dict)]
                return all(bs) and (len(bs) > 1 or done) or bool(bs) and only(n['c'][0], d) and any(bs)
            if k in ('For', 'While', 'RangeFor', 'Do'):
                for c in kids(n): after(c, d, done)
                return done or does(n, d)
            if k == 'Block' or k == 'Switch' or k == 'Case':
                for c in kids(n): done = after(c, d, done) or done
                return done
            for c in kids(n): after(c, d, done)
            return done or does(n, d)
        ds = {unwrap(y['c'][0])['d'] for y in walk_fn(f) if y['k'] == 'MCall' and y.get('fn') == 'clear' and y.get('c') and isinstance(y['c'][0], dict) and unwrap(y['c'][0]).get('d') in rel}
        for d in ds: after(f['body'], d, False)

def cval(p, e):
    """constant value of an expression, through constant globals (sys_true, sys_false)"""
    if not isinstance(e, dict): return None
    e = unwrap(e)
    if const(e) is not None: return const(e)
    if e['k'] == 'Ref' and e.get('dk') == 'global' and 'const' in (e.get('t') or ''):
        g = p.globals.get(e['d']) or {}
        for c in kids(g): return cval(p, c)
    if e['k'] == 'Construct' and len(list(kids(e))) == 1: return cval(p, list(kids(e))[0])
    return None

def initial(p, rec, fd):
    """constants that the constructors of the class give a member (None: not a constant)"""
    out = set()
    for m in (p.records.get(rec) or {}).get('methods', []):
        f = p.funcs.get(m['f'])
        if f is None or not f.get('ctor') or not f.get('body') or m.get('cpct'): continue
        v = 'unset'
        for i in f.get('inits', []):
            if i.get('m') == fd and i.get('e'): v = cval(p, i['e'])
        for x in walk(f['body']):
            if x['k'] in ('Assign', 'OpCall') and x.get('op') == '=' and unwrap(x['c'][0]).get('d') == fd: v = cval(p, x['c'][1])
        for x in (p.records[rec].get('fields') or []):
            if x['d'] == fd and v == 'unset' and x.get('init'): v = const(x['init'])
        out.add(v)
    return out

def flagged(o, R):
    """memory is taken over with the flags that its release asks for"""
    F = o.F; p = o.p; rels = collections.defaultdict(list)
    ints = {fd['d'] for r in p.records.values() for fd in r.get('fields', []) if not isptr(fd['t'])}
    for ns, fam, f, x, facts in F.rel:
        for n in ns:
            if n[0] == 'f': rels[n].append({d: v for d, v in facts.items() if d in ints and d.rsplit('::', 1)[0] == n[-1].rsplit('::', 1)[0]})
    free = set()        # allocations that are released whatever the flags say
    for ns, fam, f, x, facts in F.rel:
        if not any(d in ints for d in facts):
            for n in ns: free |= set(F.reach.get(n, {}))
    sat = lambda val, v: val is not None and val != 'unset' and ((val == v[0]) == v[1])
    for n, rs in rels.items():
        if not all(rs): continue
        d = n[-1]; rec = d.rsplit('::', 1)[0]
        for k, c in F.reach.get(n, {}).items():
            if k in free and k[3] != 'file': continue      # (handles come from one helper that serves many owners)
            c = dict(c); name = base_name(d)
            R.ob('%s: %s takes %s with the flags of its release' % (k[4][-60:], name, k[3])); R.count('flagged')
            if any(all(fd in c and (c[fd] == v or not v[1] and c[fd][1] and c[fd][0] != v[0]) for fd, v in r.items()) for r in rs): continue
            if any(all(fd in c for fd in r) for r in rs) and len(rs) > 1 and not any(F.conflict(frozenset(c.items()), r) for r in rs): continue
            # functions that store new memory into the member, and what they do to the flags
            for f in o.funcs:
                if not f.get('body'): continue
                st = None
                for x in walk(f['body']):
                    if x['k'] == 'Assign' and isptr(x.get('t')) and unwrap(x['c'][0]).get('d') == d and unwrap(x['c'][0])['k'] == 'Member' and any(m in F.src(x['c'][1], f) or m[0] == 'ret' and F.fresh(m[1]) for m in [k] + list(F.src(x['c'][1], f))) and (k in F.src(x['c'][1], f) or any(k in F.reach.get(m, {}) for m in F.src(x['c'][1], f) if m[0] == 'ret' or m[0] == 'v' and m[1].startswith('L'))): st = x
                    if x['k'] == 'Call' and any(isinstance(a, dict) and unwrap(a)['k'] == 'Un' and unwrap(a)['op'] == '&' and unwrap(unwrap(a)['c'][0]).get('d') == d for a in x.get('c') or []): st = x
                if st is None: continue
                bad = None
                for r in rs:
                    vals = {}
                    for fd, v in r.items():
                        asg = [cval(p, x['c'][1]) for x in walk(f['body']) if x['k'] in ('Assign', 'OpCall') and x.get('op') == '=' and unwrap(x['c'][0]).get('d') == fd] or [cval(p, i.get('e')) for i in f.get('inits', []) if i.get('m') == fd and i.get('w')]
                        calls = [x for x in walk(f['body']) if x['k'] in ('MCall', 'Call') and x.get('f') in p.funcs and p.funcs[x['f']].get('cls') == rec and any(y['k'] == 'Assign' and unwrap(y['c'][0]).get('d') == fd for y in walk_fn(p.funcs[x['f']]))]
                        if calls: vals[fd] = True
                        elif asg: vals[fd] = all(sat(a, v) for a in asg)
                        else: ini = initial(p, rec, fd); vals[fd] = bool(ini) and all(sat(a, v) for a in ini)
                    if all(vals.values()): bad = None; break
                    bad = [base_name(fd) for fd, ok in vals.items() if not ok]
                if bad: R.bad('%s takes memory over, but %s may keep it from being released' % (name, ', '.join(bad)), f['file'], st['l'], f['id'], key='%s|flag|%s' % (f['q'], name))

def whole(o, R):
    """a loop that releases the elements of a container visits all of them"""
    F = o.F
    for f in o.funcs:
        if not f.get('body'): continue
        for lp in walk(f['body']):
            if lp['k'] != 'For' or len(lp['c']) < 4 or not isinstance(lp['c'][3], dict) or not isinstance(lp['c'][1], dict): continue
            cond = lp['c'][1]
            for x in walk(lp['c'][3]):
                a = x['c'][0] if x['k'] == 'Delete' else args(x)[0] if x['k'] == 'Call' and x.get('fn') == 'free' and args(x) else None
                a = unwrap(a) if isinstance(a, dict) else None
                if a is None or not (a['k'] == 'OpCall' and a.get('op') == '[]' and unwrap(a['c'][0])['k'] == 'Member'): continue
                d = unwrap(a['c'][0])['d']; iv = {y['d'] for y in walk(a['c'][1]) if y['k'] == 'Ref'}
                if not iv or not any(y['k'] == 'Ref' and y['d'] in iv for y in walk(cond)): continue
                R.ob('%s:%s releases every element of %s' % (f['q'], lp['l'], base_name(d))); R.count('release_loops')
                lv = {y['d'] for y in walk(cond) if y['k'] == 'Ref' and y['d'] not in iv}
                sz = lambda n: any(y['k'] == 'MCall' and y.get('fn') in ('size', 'end', 'empty') and unwrap(y['c'][0]).get('d') == d for y in walk(n))
                ok = sz(cond) or any(v['k'] == 'Var' and v['d'] in lv and sz(v) for v in walk(f['body'])) or isinstance(lp['c'][0], dict) and sz(lp['c'][0])
                for y in walk(cond):
                    if y['k'] == 'Bin' and y['op'] in ('-', '/', '>>'): ok = ok and not (sz(y) and const(y['c'][1]) not in (None, 0))
                i0 = [const(list(kids(v))[0]) for v in walk(lp['c'][0] or {'k': 'Block'}) if v['k'] == 'Var' and v['d'] in iv and list(kids(v))]
                if any(c is not None and c > 0 for c in i0): ok = False
                if not ok: R.bad('the loop may not release every element of %s' % base_name(d), f['file'], lp['l'], f['id'], key='%s|whole|%s' % (f['q'], base_name(d)))

INIT = {'pthread_mutex_t': 'pthread_mutex_destroy', 'pthread_cond_t': 'pthread_cond_destroy'}
def destroyed(o, R):
    for f in o.funcs:
        if not f.get('body'): continue
        seq = list(walk(f['body']))
        for i, x in enumerate(seq):
            a = x['c'][0] if x['k'] == 'Delete' and x.get('c') else args(x)[0] if x['k'] == 'Call' and x.get('fn') == 'free' and args(x) else None
            if not isinstance(a, dict): continue
            t = ' '.join(str(y.get('t')) for y in (a, unwrap(a)))
            for ty, fn in INIT.items():
                if ty in t:
                    R.ob('%s: %s before the release' % (f['q'], fn))
                    if not any(y['k'] == 'Call' and y.get('fn') == fn for y in seq[:i]): R.bad('released without %s' % fn, f['file'], x['l'], f['id'], key='%s|destroy' % f['q'])

def capacity(o, R, only=None):
    """a member that says how large a buffer is is reset when the buffer is released for good"""
    F = o.F; p = o.p; comp = collections.defaultdict(dict)
    # pointer -> the member that decides whether it is allocated again
    for f in o.funcs:
        if not f.get('body') or f.get('ctor'): continue
        for n in walk(f['body']):
            if n['k'] != 'If' or not isinstance(n['c'][1], dict): continue
            cms = {y['d'] for y in walk(n['c'][0]) if y['k'] == 'Member' and not isptr(y.get('t') or '') and y.get('c') and isinstance(y['c'][0], dict) and unwrap(y['c'][0])['k'] == 'This'}
            pms = {y['d'] for y in walk(n['c'][0]) if y['k'] == 'Member' and isptr(y.get('t') or '')}
            for x in walk(n['c'][1]):
                if x['k'] == 'Assign' and isptr(x.get('t')):
                    l = unwrap(x['c'][0])
                    if l['k'] == 'Member' and l['d'] in o.owned and l['d'] not in pms and any(m[0] == 'site' for m in F.src(x['c'][1], f)):
                        for sz in cms:
                            if any(y['k'] == 'Assign' and unwrap(y['c'][0]).get('d') == sz for y in walk(n['c'][1])): comp[l['d']].setdefault(sz, f)
    for f in o.funcs:
        if not f.get('dtor') or not f.get('body') or only: continue
        for n in walk(f['body']):
            if n['k'] != 'If': continue
            gs = {m['d'] for y in walk(n['c'][0]) if y['k'] == 'Bin' and y['op'] in ('<', '>', '<=', '>=') for m in walk(y) if m['k'] == 'Member' and not isptr(m.get('t') or '') and 'std::' not in m['d']}
            for x in walk(n['c'][1]) if isinstance(n['c'][1], dict) else ():
                if not (x['k'] == 'Delete' or x['k'] == 'Call' and x.get('fn') == 'free') or not x.get('c'): continue
                d = unwrap(x['c'][0]).get('d')
                if not d or unwrap(x['c'][0])['k'] != 'Member': continue
                R.ob('%s: %s is released whenever it is there' % (f['q'], base_name(d)))
                odd = [g for g in gs if g.rsplit('::', 1)[0] == d.rsplit('::', 1)[0] and g not in comp.get(d, {})]
                if odd: R.bad('the destructor releases %s only for some values of %s' % (base_name(d), ', '.join(map(base_name, odd))), f['file'], x['l'], f['id'], key='%s|some|%s' % (f['q'], base_name(d)))
    for f in o.funcs:
        if not f.get('body') or f.get('dtor') or f.get('ctor'): continue
        for d, szs in comp.items():
            rels = [x for x in walk(f['body']) if (x['k'] == 'Delete' or x['k'] == 'Call' and x.get('fn') == 'free') and x.get('c') and unwrap(x['c'][0]).get('d') == d]
            if not rels: continue
            if any(x['k'] == 'Assign' and unwrap(x['c'][0]).get('d') == d and not (unwrap(x['c'][1])['k'] == 'Null' or const(x['c'][1]) == 0) for x in walk(f['body'])): continue     # allocated again right away
            callers = [g for g in o.funcs if f['id'] in o.calls.get(g['id'], ())]
            if callers and f.get('access') in ('private', 'protected') and not f.get('over') and not f.get('virt'):
                # a helper: its callers may do it
                pass
            for sz in szs:
                if only and not sz.startswith(only): continue
                R.ob('%s: %s is reset with %s' % (f['q'], base_name(sz), base_name(d))); R.count('capacities')
                def resets(g, seen):
                    if g['id'] in seen: return False
                    seen.add(g['id'])
                    return any(x['k'] == 'Assign' and unwrap(x['c'][0]).get('d') == sz and (const(x['c'][1]) is not None or True) for x in walk_fn(g)) or any(resets(p.funcs[h], seen) for h in o.calls.get(g['id'], ()) if p.funcs[h].get('cls') == g.get('cls'))
                if resets(f, set()): continue
                if callers and f.get('access') in ('private', 'protected') and all(g.get('dtor') or resets(g, set()) or any(x['k'] == 'Assign' and unwrap(x['c'][0]).get('d') == d for x in walk_fn(g)) for g in callers): continue
                R.bad('%s is released, but %s still says that it is there' % (base_name(d), base_name(sz)), f['file'], rels[0]['l'], f['id'], key='%s|capacity|%s' % (f['q'], base_name(d)))

def unconditional(o):
    """members that the destructor of their class releases on every path, unless they are null: no flag or counter decides"""
    out = set(); no = set()
    for f in o.funcs:
        if not f.get('dtor') or not f.get('body'): continue
        P = Paths(o.p, o.F, o.owned, f, o.direct, lambda *a: None)
        try: P.go()
        except TooMany: continue
        al = set().union(*[r for r, _, _, _ in P.exits]) if P.exits else set()
        no |= {b[-1] for pl, b, fn, n, null in P.pend if null}
        for a in al: (out if all(a in r or a in nul for r, nul, _, _ in P.exits) else no).add(a[-1])
    return out - no

MSG = {'leak': 'leak', 'double': 'double', 'use': 'use', 'dangling': 'dangling', 'over': 'overwritten', 'inner': 'inner', 'stack': 'stack'}
def one(prog, R, fids):
    o = one.o
    for fid in fids:
        f = prog.funcs[fid]
        def rep(kind, b, fn, n, how):
            R.bad('memory of %s %s' % (label(b), how), fn['file'], n['l'], f['id'], key='%s|%s|%s' % (f['q'], kind, label(b)))
        runs = [None]
        if f.get('cpas') or f['name'] == 'operator=' and f['params']:
            ps = [q for q in f['params'] if q.get('ref') and f.get('cls') and f['cls'] in q['t']]
            if ps: runs.append(ps[0]['d'])
        for al in runs:
            P = Paths(prog, o.F, o.owned, f, o.direct, rep); P.alias = al; P.always = o.always; P.entered_alone = f.get('access', 'public') == 'public' or fid not in o.called
            try: P.go()
            except TooMany: R.note('%s has too many paths, only part of them were followed' % f['q']); R.count('partial')
            for x in P.obs: R.ob('%s%s: %s' % (f['q'], ' (self)' if al else '', ' '.join(map(str, x[:2]))))
            R.count('functions_with_paths'); R.count('steps', P.n)

def analyse(prog, R):
    o = Own(prog); one.o = o
    freed = forms(o, R); released(o, R, freed); counted(o, R); members(o, R); handed(o, R, alive(o)); emptied(o, R); flagged(o, R); whole(o, R); destroyed(o, R); capacity(o, R)
    o.always = unconditional(o); R.count('unconditionally_owned', len(o.always))
    sel = [f['id'] for f in o.funcs if f.get('body') and f['id'] in o.inl]
    sel.sort(key=lambda i: -len(str(prog.funcs[i]['body'])))
    parallel(prog, R, one, [sel[:6][i:i + 1] for i in range(6)] + [sel[6 + i::24] for i in range(24)])

if __name__ == '__main__':
    run_check('C03', lambda: load.load(), analyse, level='other', minimum=300,
        explanation='inclusion-based flow of allocations to pointers and releases; path typestate of each function; copy and destruction rules of owning classes')
