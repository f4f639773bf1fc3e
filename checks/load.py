"""Parse /repo's current sources with the real build flags (engine/export) and load the resolved program."""
import json, os, subprocess, sys, tempfile, shutil, glob, hashlib, time
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PORT = '/opt/vp/port/include'
TOOL = os.path.join(VERIF, 'build', 'export')
MODS = ['basiclog', 'basicsys', 'basicmath', 'basicimg']

class Broken(Exception):
    """The analysis itself could not be carried out (never a verdict)."""

def flags_for(mod, path):
    f = ['-std=c++11', '-stdlib=libc++', '-fopenmp', '-O0', '-w', '-include', PORT + '/compat.h', '-I' + PORT,
         '-I%s/%s/src/stdafx' % (REPO, mod)]
    for m in MODS:
        if m == 'basicmath' and mod not in ('basicmath', 'basicimg'): continue
        if m == 'basicimg' and mod != 'basicimg': continue
        f.append('-I%s/%s/include' % (REPO, m))
    if mod == 'basicimg':
        f += ['-fms-extensions', '-isystem', REPO + '/basic_thrid_libs/lib_opencv/341/include']
    base = mod + '/' + os.path.basename(path)
    pre = {'basiclog/helper.cpp': 'pre_helper.h', 'basicsys/sys_strcombine.cpp': 'pre_sys_strcombine.h',
           'basicsys/sys_json.cpp': 'pre_sys_json.h', 'basicimg/img_draw_macos_impl.cpp': 'pre_img_draw_macos_impl.h'}
    if base in pre: f += ['-include', PORT + '/' + pre[base]]
    if base == 'basicsys/sys_path.cpp': f.append('-DfileNames=filePaths')
    f += ['-resource-dir', '/usr/lib/llvm-18/lib/clang/18']
    return f

def units(mods=None):
    r = []
    for m in (mods or MODS):
        for p in sorted(glob.glob('%s/%s/src/*.cpp' % (REPO, m))):
            r.append((m, p))
    return r

def export_one(args):
    mod, path, out = args
    cmd = [TOOL, REPO + '/', out, path, '--', 'clang++-18'][:5] + flags_for(mod, path)
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    return path, p.returncode, p.stderr

class Program:
    def __init__(self):
        self.funcs = {}; self.records = {}; self.enums = {}; self.globals = {}; self.types = {}; self.units = []
        self.byname = {}
    def add(self, d, unit):
        self.units.append(unit)
        for k, v in d['funcs'].items():
            if k not in self.funcs:
                v['id'] = k; v['unit'] = unit; self.funcs[k] = v
        for k, v in d['records'].items(): self.records.setdefault(k, v)
        for k, v in d['enums'].items(): self.enums.setdefault(k, v)
        self.types.update(d['types'])
        for k, v in d['globals'].items():
            if v is None: continue
            old = self.globals.get(k)
            if old is None or (not old.get('c') and v.get('c')) or (not old.get('def') and v.get('def')): self.globals[k] = v
    def finish(self):
        for f in self.funcs.values(): self.byname.setdefault(f['q'], []).append(f)
        self.derived = {}
        for n, r in self.records.items():
            for b in r['bases']: self.derived.setdefault(b, []).append(n)
        self.overriders = {}
        for f in self.funcs.values():
            for o in f.get('over', []): self.overriders.setdefault(o, []).append(f['id'])
    def fn(self, q, file=None):
        """all non-dependent functions with that qualified name"""
        return [f for f in self.byname.get(q, []) if not f.get('dep') and (file is None or f['file'] == file)]
    def all_over(self, fid, seen=None):
        seen = seen if seen is not None else set()
        for o in self.overriders.get(fid, []):
            if o not in seen:
                seen.add(o); self.all_over(o, seen)
        return seen

def load(mods=None, files=None):
    if not os.path.exists(TOOL):
        subprocess.check_call(['bash', os.path.join(VERIF, 'setup.sh')])
    us = units(mods)
    if files is not None:
        us = [(m, p) for m, p in us if os.path.relpath(p, REPO) in files]
    if not us: raise Broken('no translation unit found under ' + REPO)
    tmp = tempfile.mkdtemp(prefix='fastmser_ast_')
    prog = Program()
    try:
        jobs = [(m, p, os.path.join(tmp, '%d.json' % i)) for i, (m, p) in enumerate(us)]
        with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            res = list(ex.map(export_one, jobs))
        for (m, p, out), (_, rc, err) in zip(jobs, res):
            if rc != 0 or not os.path.exists(out):
                raise Broken('could not parse %s: %s' % (p, err[-2000:]))
            with open(out, encoding='utf-8', errors='replace') as fh: d = json.load(fh)
            if d.get('errors'): raise Broken('errors while parsing %s: %s' % (p, err[-2000:]))
            prog.add(d, os.path.relpath(p, REPO))
            os.remove(out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    prog.finish()
    return prog

if __name__ == '__main__':
    t = time.time(); p = load(sys.argv[1:] or None)
    print(len(p.funcs), 'functions', len(p.records), 'records', len(p.enums), 'enums', len(p.globals), 'globals', len(p.units), 'units', '%.1fs' % (time.time() - t))
