"""Running a check: evidence, known findings, verdict."""
import json, os, sys, time, traceback
import load
VERIF = load.VERIF

class Report:
    def __init__(s, prop):
        s.prop = prop; s.viol = []; s.obs = []; s.counts = {}; s.where = None; s.samples = []; s.notes = []
        s.seenob = set()
    def ob(s, text):
        """one obligation of the rule, met or not"""
        s.obs.append(text)
    def count(s, k, n=1): s.counts[k] = s.counts.get(k, 0) + n
    def note(s, t): s.notes.append(t)
    def bad(s, msg, file=None, line=None, func=None, key=None):
        if file is None and s.where: file, line, func = s.where
        v = {'file': file, 'line': line, 'func': func, 'msg': msg, 'key': key or '%s|%s' % (func, msg)}
        if not any(o['key'] == v['key'] and o['file'] == v['file'] for o in s.viol): s.viol.append(v)

_W = {}
def _task(t):
    prog, R0, fn = _W['x']
    R = Report(R0.prop); R.where = R0.where
    try: fn(prog, R, t)
    except load.Broken as e: return ('broken', str(e))
    except Exception: return ('broken', traceback.format_exc())
    return ('ok', (R.viol, R.obs, R.counts, R.notes))
def parallel(prog, R, fn, tasks, procs=8):
    """fn(prog, R, task) for every task, in forked processes"""
    import multiprocessing as mp
    _W['x'] = (prog, R, fn)
    with mp.get_context('fork').Pool(min(procs, len(tasks))) as pool:
        for k, v in pool.imap(_task, tasks, chunksize=1):
            if k == 'broken': raise load.Broken(v)
            viol, obs, counts, notes = v
            R.obs += obs; R.notes += notes
            for c, n in counts.items(): R.count(c, n)
            for x in viol:
                if not any(o['key'] == x['key'] and o['file'] == x['file'] for o in R.viol): R.viol.append(x)

def known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p): return []
    with open(p) as fh: return json.load(fh)['findings']

def run_check(prop, loader, analyse, level, minimum=1, explanation='', assumptions=(), trusted=()):
    t0 = time.time()
    R = Report(prop)
    try:
        prog = loader()
        analyse(prog, R)
        if len(set(R.obs)) < minimum and not R.viol:
            raise load.Broken('only %d instances of the rule found, at least %d expected' % (len(set(R.obs)), minimum))
    except load.Broken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (prop, e)); sys.exit(3)
    except Exception:
        traceback.print_exc(); print('ANALYSIS-BROKEN property=%s internal error' % prop); sys.exit(3)
    kn = {k['key']: k for k in known() if k['property'] == prop}
    new = [v for v in R.viol if v['key'] not in kn]
    old = [v for v in R.viol if v['key'] in kn]
    uniq = sorted(set(R.obs))
    cov = {'explanation': explanation or 'see DESIGN.md', 'units': prog.units, 'functions_parsed': len(prog.funcs),
           'rule_instances': len(uniq), 'instances_checked_incl_repeats': len(R.obs), 'samples': uniq[:8] + uniq[len(uniq) // 2: len(uniq) // 2 + 4], 'counts': R.counts, 'notes': R.notes[:40]}
    if level == 'proof':
        cov.update(obligations=len(uniq), discharged=len(uniq) - len(set(v['key'] for v in R.viol)), checker_cmd='python3 checks/%s' % os.path.basename(sys.argv[0]), trusted_base=list(trusted) or ['clang 18 front end', 'checks/ai.py', 'this check'])
    ev = {'property': prop, 'tier': os.environ.get('VERIF_TIER', 'quick'), 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level,
          'coverage': cov, 'assumptions': list(assumptions), 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    rp = os.path.join(VERIF, 'evidence', prop + '.violations.json')
    if new:
        with open(rp, 'w') as fh: json.dump(new, fh, indent=1)
    elif os.path.exists(rp): os.remove(rp)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as fh: json.dump(ev, fh, indent=1)
    for v in old: print('KNOWN-FINDING: property=%s %s:%s %s: %s' % (prop, v['file'], v['line'], v['func'], v['msg']))
    for v in new: print('%s:%s: %s: %s' % (v['file'], v['line'], v['func'], v['msg']))
    print('property=%s analysed %d units, %d rule instances, %d violations, %d known, %.1fs' % (prop, len(prog.units), len(uniq), len(new), len(old), time.time() - t0))
    if new:
        print('VIOLATION property=%s replay=%s' % (prop, rp)); sys.exit(1)
    sys.exit(0)
