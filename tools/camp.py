"""camp.py SPEC.py [names]: trial edits on copies of /repo, four at a time. SPEC calls M(name, "c_x[,c_y]", {file: [(old, new[, count|(marker,)|"first"])]}); prints what the checks say (tools/one.py)."""
import sys, os, subprocess, shutil, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ms = []
def M(name, check, edits): ms.append((name, check, edits))
def edit(root, edits):
    for f, es in edits.items():
        p = root + '/' + f; s = open(p, newline='', encoding='latin-1').read(); crlf = '\r\n' in s
        for e in es:
            old, new = e[0], e[1]
            if crlf: old = old.replace('\n', '\r\n'); new = new.replace('\n', '\r\n')
            n = e[2] if len(e) > 2 else 1
            if isinstance(n, tuple):
                i = s.index(n[0].replace('\n', '\r\n') if crlf else n[0]); j = s.index(old, i); s = s[:j] + new + s[j + len(old):]; continue
            if n == 'first':
                j = s.index(old); s = s[:j] + new + s[j + len(old):]; continue
            if s.count(old) != n: raise SystemExit('%s: %r occurs %d times' % (f, old[:60], s.count(old)))
            s = s.replace(old, new)
        open(p, 'w', newline='', encoding='latin-1').write(s)
def run(m):
    name, check, edits = m
    d = '/tmp/camp/t_' + name; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    subprocess.check_call('git -C /repo archive HEAD | tar x -C %s' % d, shell=True)
    try:
        edit(d, edits); out = []
        for c in check.split(','):
            r = subprocess.run(['timeout', '900', 'python3', V + '/tools/one.py', c], env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
            out.append('%s | %s %s' % (name, c, r.stdout.strip()[:900] or 'ERR ' + r.stderr[-300:]))
        print('\n'.join(out), flush=True)
    except SystemExit as e: print(name, '| BADSPEC', e, flush=True)
    finally: shutil.rmtree(d, ignore_errors=True)
def main():
    import multiprocessing.pool
    exec(open(sys.argv[1]).read(), {'M': M})
    want = sys.argv[2:]
    multiprocessing.pool.ThreadPool(4).map(run, [m for m in ms if not want or any(m[0].startswith(w) for w in want)], chunksize=1)
main()
