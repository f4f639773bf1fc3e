"""Helpers over the exported syntax tree: walking, printing, type queries, call resolution."""
def kids(n):
    if isinstance(n, dict):
        for c in n.get('c') or []:
            if isinstance(c, dict): yield c
        for x in ('init', 'cvar', 'callee'):
            c = n.get(x)
            if isinstance(c, dict): yield c

def walk(n):
    if not isinstance(n, dict): return
    st = [n]
    while st:
        x = st.pop()
        yield x
        st.extend(reversed(list(kids(x))))

def walk_fn(f):
    for i in f.get('inits', []):
        if isinstance(i.get('e'), dict): yield from walk(i['e'])
    if f.get('body'): yield from walk(f['body'])

def strip(n):
    while isinstance(n, dict) and n['k'] in ('Cast', 'ICast', 'DefArg') and n.get('c'):
        n = n['c'][0]
    return n

def const(n):
    """integer constant value of an expression, or None"""
    if not isinstance(n, dict): return None
    if 'cv' in n: return n['cv']
    if n['k'] == 'Int': return n.get('v')
    if n['k'] in ('Cast', 'ICast', 'DefArg'): return const(n['c'][0])
    if n['k'] == 'Un' and n['op'] == '-':
        v = const(n['c'][0]); return None if v is None else -v
    return None

def callee(n): return n.get('f')
def args(n):
    """call arguments without the object"""
    c = n.get('c') or []
    if n['k'] == 'MCall': return c[1:]
    if n['k'] == 'OpCall' and n.get('meth'): return c[1:]
    return c

def show(n, d=0):
    if n is None: return ''
    if not isinstance(n, dict): return str(n)
    k = n['k']; c = n.get('c') or []
    s = lambda i: show(c[i]) if i < len(c) else ''
    if k == 'Ref': return n['n']
    if k == 'Member':
        b = c[0] if c else None
        if b is None: return n['n']
        if b['k'] == 'This': return n['n']
        return show(b) + ('->' if n.get('ar') else '.') + n['n']
    if k == 'This': return 'this'
    if k == 'Int': return str(n.get('v', n.get('vs')))
    if k == 'Float': return repr(n['v'])
    if k == 'Str': return '"' + n['v'] + '"'
    if k in ('Bin', 'Assign', 'CAssign'): return '(' + s(0) + ' ' + n['op'] + ' ' + s(1) + ')'
    if k == 'Un': return s(0) + n['op'] if n.get('post') else n['op'] + s(0)
    if k == 'Index': return s(0) + '[' + s(1) + ']'
    if k == 'Cond': return '(' + s(0) + ' ? ' + s(1) + ' : ' + s(2) + ')'
    if k == 'ICast': return s(0)
    if k == 'Cast': return '(' + n['t'] + ')' + s(0)
    if k == 'SizeOf': return 'sizeof(' + n['at'] + ')'
    if k == 'DefArg': return '/*def*/' + s(0)
    if k == 'OpCall': return n['op'] + '{' + ', '.join(show(x) for x in c) + '}'
    if k == 'MCall': return s(0) + '.' + str(n.get('fn')) + '(' + ', '.join(show(x) for x in c[1:]) + ')'
    if k == 'Call': return str(n.get('fn') or show(n.get('callee'))) + '(' + ', '.join(show(x) for x in c) + ')'
    if k == 'Construct': return n['cls'] + '(' + ', '.join(show(x) for x in c) + ')'
    if k == 'New': return 'new ' + n['at'] + ('[' + s(0) + ']' if n.get('arr') else '') + (' ' + s(1) if len(c) > 1 and c[1] else '')
    if k == 'Delete': return 'delete' + ('[] ' if n.get('arr') else ' ') + s(0)
    if k == 'Var': return ('static ' if n.get('static') else '') + n['t'] + ' ' + n['n'] + (' = ' + s(0) if c else '')
    if k == 'InitList': return '{' + ', '.join(show(x) for x in c) + '}'
    if k == 'Return': return 'return ' + s(0)
    ind = '  ' * d
    if k == 'Decl': return '; '.join(show(x) for x in c)
    if k == 'Block': return '{\n' + ''.join('  ' * (d + 1) + show(x, d + 1) + '\n' for x in c) + ind + '}'
    if k == 'If': return 'if (' + s(0) + ') ' + show(c[1], d) + (' else ' + show(c[2], d) if len(c) > 2 and c[2] else '')
    if k == 'For': return 'for (' + s(0) + '; ' + s(1) + '; ' + s(2) + ') ' + show(c[3], d)
    if k == 'While': return 'while (' + s(0) + ') ' + show(c[1], d)
    if k == 'Do': return 'do ' + show(c[0], d) + ' while (' + s(1) + ')'
    if k == 'Switch': return 'switch (' + s(0) + ') ' + show(c[1], d)
    if k == 'Case': return 'case ' + s(0) + ': ' + show(c[-1], d)
    if k == 'Default': return 'default: ' + show(c[0], d)
    if k == 'OMP': return '#omp ' + n['dir'] + '\n' + ind + (show(c[0], d) if c else '')
    if k == 'Label': return n['n'] + ': ' + show(c[0], d)
    if k == 'Goto': return 'goto ' + n['n']
    if k == 'RangeFor': return 'for (' + s(0) + ' : ' + s(1) + ') ' + show(c[2], d)
    if k == 'Lambda': return 'lambda' + show(c[0], d)
    return k + '(' + ', '.join(show(x) for x in c) + ')'

def show_fn(f):
    return '%s  // %s:%d\n%s' % (f['id'], f['file'], f['line'], show(f.get('body')))
