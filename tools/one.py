"""one.py c_x: runs one analysis on VERIF_REPO (or /repo) and prints the violations that known_findings.json does not list"""
import sys, os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/checks')
import importlib, common, load
name = sys.argv[1]; del sys.argv[1:]
m = importlib.import_module(name)
fs = {'basicimg/src/%s.cpp' % d['cls'] for d in m.DET} if name in ('c_fill', 'c_neigh') else getattr(m, 'FILES', None)
p = load.load(files=fs) if fs else load.load(); R = common.Report('x'); m.analyse(p, R)
known = {k['key'] for k in json.load(open(V + '/known_findings.json'))['findings']}
vs = [v for v in R.viol if v['key'] not in known]
print('%d obligations, %d violations' % (len(R.obs) if hasattr(R, 'obs') else -1, len(vs)))
for v in vs[:6]: print("   ", v["file"], v["line"], v["func"][:60], v['msg'][:160])
