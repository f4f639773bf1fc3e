"""neg(name, edits): a behaviour-preserving edit of /repo kept as /verif/neg/<name>.diff"""
import subprocess, sys
def neg(name, edits):
    assert subprocess.run(['git', '-C', '/repo', 'diff', '--quiet']).returncode == 0
    try:
        for f, es in edits.items():
            p = '/repo/' + f; s = open(p, newline='', encoding='latin-1').read(); crlf = '\r\n' in s
            for e in es:
                old, new = e[0], e[1]
                if crlf: old = old.replace('\n', '\r\n'); new = new.replace('\n', '\r\n')
                n = e[2] if len(e) > 2 else 1
                if isinstance(n, tuple):
                    i = s.index(n[0]); j = s.index(old, i); s = s[:j] + new + s[j + len(old):]; continue
                assert s.count(old) == n, (f, old, s.count(old)); s = s.replace(old, new)
            open(p, 'w', newline='', encoding='latin-1').write(s)
        open('/verif/neg/%s.diff' % name, 'wb').write(subprocess.check_output(['git', '-C', '/repo', 'diff', '--binary']))
    finally: subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
