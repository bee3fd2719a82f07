#!/usr/bin/env python3
"""Development tool: confirms planted bugs in scratch copies (never in /repo itself).
   seed.py ID... [-j N] [--nocheck] [--also P01,P02]"""
import sys, os, subprocess, shutil, json, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = json.load(open('/opt/vp/BASELINE.json'))
def stable():
    b = base
    for k in ('stable', 'passed', 'tests'):
        if k in b: return set(b[k])
    raise SystemExit('baseline keys: %s' % list(b))
def one(sid, check, also):
    d = os.path.join(V, 'seeded', sid); meta = json.load(open(d + '/meta.json'))
    W = '/tmp/seedw/' + sid; shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
    subprocess.run(['cp', '-a', '/repo', W + '/repo'], check=True); subprocess.run(['cp', '-a', V, W + '/verif'], check=True)
    shutil.rmtree(W + '/verif/.build', ignore_errors=True); shutil.rmtree(W + '/verif/seeded', ignore_errors=True)
    shutil.copytree(d, W + '/demo'); 
    for f in ('patch.diff', 'meta.json'): os.unlink(W + '/demo/' + f)
    def ns(cmd, to=1200):
        return subprocess.run(['unshare', '-Urm', 'bash', '-c', 'mount --bind %s/repo /repo && mount --bind %s/verif /verif && %s' % (W, W, cmd)], capture_output=True, text=True, timeout=to)
    r = {'id': sid, 'property': meta['property']}
    try:
        x = ns('cd /repo && bash /opt/vp/build.sh >/dev/null && timeout 300 bash %s/demo/demo.sh' % W); r['demo_clean'] = x.returncode
        if x.returncode: r['demo_clean_out'] = (x.stdout + x.stderr)[-1500:]
        x = subprocess.run(['git', '-C', W + '/repo', 'apply', d + '/patch.diff'], capture_output=True, text=True); r['apply'] = x.returncode
        if x.returncode: r['apply_err'] = x.stderr[-500:]; return r
        x = ns('cd /repo && bash /opt/vp/test.sh %s/out.json' % W); o = json.load(open(W + '/out.json'))
        lost = stable() - set(o['passed']); r['tests_lost'] = sorted(lost)[:5]
        if lost: r['test_out'] = (x.stdout + x.stderr)[-600:]
        x = ns('cd /repo && timeout 300 bash %s/demo/demo.sh' % W); r['demo_bug'] = x.returncode; r['demo_out'] = (x.stdout + x.stderr)[-300:]
        if check:
            for p in [meta['property']] + also:
                x = ns('cd /verif && python3 check.py %s --tier quick' % p)
                r['check_' + p] = x.returncode; r['check_out_' + p] = [l[:300] for l in x.stdout.splitlines() if 'VIOLATION' in l or 'ERROR' in l][:2]
        r['counts'] = r['demo_clean'] == 0 and r['demo_bug'] != 0 and not lost
    finally: shutil.rmtree(W, ignore_errors=True)
    return r
if __name__ == '__main__':
    av = sys.argv[1:]; j = 2; also = []
    if '-j' in av: i = av.index('-j'); j = int(av[i + 1]); del av[i:i + 2]
    if '--also' in av: i = av.index('--also'); also = av[i + 1].split(','); del av[i:i + 2]
    check = '--nocheck' not in av; av = [a for a in av if not a.startswith('--')] or sorted(os.listdir(V + '/seeded'))
    with cf.ThreadPoolExecutor(j) as ex:
        res = []
        for r in ex.map(lambda s: one(s, check, also), av): print(json.dumps(r, indent=1)); sys.stdout.flush(); res.append(r)
    for r in res: print('SUMMARY', r['id'], r['property'], 'counts' if r.get('counts') else 'INVALID', ' '.join('%s=%s' % (k[6:], v) for k, v in r.items() if k.startswith('check_P')))
