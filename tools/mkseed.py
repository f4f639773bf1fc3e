#!/usr/bin/env python3
"""mkseed.py ID PROP FILE 'needs' 'breaks' < edits   where edits are python: list of (old,new[,count]) ; demo files copied by hand"""
import sys, subprocess, json, os
def seed(id, prop, edits, needs, breaks, demo_files):
    """edits: {file: [(old,new)]}; demo_files: {name: text}"""
    d = '/verif/seeded/' + id; os.makedirs(d, exist_ok=True)
    assert subprocess.run(['git', '-C', '/repo', 'diff', '--quiet']).returncode == 0
    try:
        for f, es in edits.items():
            p = '/repo/' + f; s = open(p, newline='', encoding='latin-1').read()
            crlf = '\r\n' in s
            for e in es:
                old, new = e[0], e[1]
                if crlf: old = old.replace('\n', '\r\n'); new = new.replace('\n', '\r\n')
                n = e[2] if len(e) > 2 else 1
                if n == 'first': assert old in s, old; s = s.replace(old, new, 1); continue
                if isinstance(n, tuple):  # (after marker)
                    m = n[0].replace('\n', '\r\n') if crlf else n[0]
                    i = s.index(m); j = s.index(old, i); s = s[:j] + new + s[j + len(old):]; continue
                assert s.count(old) == n, (f, old, s.count(old))
                s = s.replace(old, new)
            open(p, 'w', newline='', encoding='latin-1').write(s)
        diff = subprocess.check_output(['git', '-C', '/repo', 'diff', '--binary'])
        assert diff
        open(d + '/patch.diff', 'wb').write(diff)
    finally: subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    for n, t in demo_files.items():
        open(d + '/' + n, 'w').write(t)
DET = open('/verif/tools/demo/det.h').read()
BUILD = open('/verif/tools/demo/build_img.sh').read()
def img_demo(main, flags=''):
    return {'det.h': DET, 'build_img.sh': BUILD, 'demo.cpp': '#include "det.h"\n' + main,
            'demo.sh': '#!/bin/bash\nd=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap "rm -rf $t" EXIT\nbash $d/build_img.sh $d/demo.cpp $t/demo -I$d %s || exit 2\nASAN_OPTIONS=detect_leaks=0 timeout 200 $t/demo > $t/out 2>$t/err; r=$?\ngrep -a RESULT $t/out; tail -n 5 $t/err\n[ $r = 0 ]\n' % flags}
B2 = open('/verif/tools/demo/build.sh').read()
def demo(main, flags='', env=''):
    return {'build.sh': B2, 'demo.cpp': '#include "stdafx.h"\n#include <thread>\n#include <cstdio>\n#include <cstdlib>\nusing namespace basiclog; using namespace basicsys; using namespace basicmath;\n' + main,
            'demo.sh': '#!/bin/bash\nd=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap "rm -rf $t" EXIT\nbash $d/build.sh $d/demo.cpp $t/demo %s || exit 2\ncd $t; %s ASAN_OPTIONS=detect_leaks=0 timeout 120 $t/demo > $t/out 2>$t/err; r=$?\ngrep -a RESULT $t/out; grep -a "WARNING\\|ERROR" $t/err | head -3; echo exit $r\n[ $r = 0 ]\n' % (flags, env)}
