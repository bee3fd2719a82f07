#!/usr/bin/env python3
"""Runs one property's check against /repo's current working tree.

  check.py <ID> [--tier quick|thorough]     run the check (exit 0 held / 1 violated / 2 could not decide)
  check.py <ID> --replay FILE               re-run one recorded execution on the current tree
  check.py --list | --all
All machinery is rebuilt from /repo and /verif/harness; objects are cached in /verif/.build by content hash.
"""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(ROOT, '.build')
sys.path.insert(0, ROOT)
from checks import HARNESSES, CHECKS, ASSUMPTIONS  # noqa: E402
HARNESSES = dict(HARNESSES, selftest=dict(src=['selftest.cpp'], san=''))

def tree_hash():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, 'src'), os.path.join(ROOT, 'harness')):
        for d, ds, fs in os.walk(base):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode()); h.update(open(p, 'rb').read())
    h.update(open(os.path.join(REPO, 'CMakeLists.txt'), 'rb').read())
    return h.hexdigest()

def lib_sources():
    """the translation units of libschnek, as the build configuration lists them"""
    txt = open(os.path.join(REPO, 'CMakeLists.txt')).read()
    m = re.search(r'add_library\s*\(\s*schnek\b([^)]*)\)', txt)
    src = re.findall(r'src/\S+\.cpp', m.group(1)) if m else []
    src = [os.path.join(REPO, s) for s in src if os.path.exists(os.path.join(REPO, s))]
    if not src:
        src = [p for p in glob.glob(REPO + '/src/**/*.cpp', recursive=True)]
    return src

MPI_INC = '/usr/lib/x86_64-linux-gnu/openmpi/include'
H5_INC = '/usr/include/hdf5/openmpi'
H5_LIB = '/usr/lib/x86_64-linux-gnu/hdf5/openmpi/libhdf5.so'
MPI_LIB = '/usr/lib/x86_64-linux-gnu/openmpi/lib/libmpi.so'

def build(name, th):
    spec = HARNESSES[name]
    san = spec.get('san', 'address')
    flags = ['-std=c++17', '-O1', '-g1', '-w', '-D_GLIBCXX_ASSERTIONS', '-DVERIF_CHECKS'] + spec.get('flags', [])
    if san: flags += ['-fsanitize=' + san, '-fno-omit-frame-pointer', '-fno-sanitize-recover=all']
    inc = ['-I' + ROOT + '/harness', '-I' + REPO + '/src', '-I' + ROOT + '/harness/cfg/x/y', '-I' + ROOT + '/harness/cfg']
    libs = []
    feats = spec.get('features', [])
    if 'kokkos' in feats:
        flags.append('-DVERIF_KOKKOS'); inc += ['-isystem', '/usr/include/trilinos']; libs += ['-ltrilinos_kokkoscore']
    if 'fakempi' in feats:
        flags.append('-DVERIF_MPI'); inc = ['-I' + ROOT + '/harness/fake'] + inc
    if 'hdf5' in feats:
        flags += ['-DVERIF_HDF5']; inc += ['-isystem', H5_INC, '-isystem', MPI_INC]; libs += [H5_LIB, MPI_LIB]
    if 'fakehdf5' in feats:
        flags += ['-DVERIF_HDF5']; inc = ['-I' + ROOT + '/harness/fakeh5'] + inc
    if 'hdfparallel' in feats:
        flags += ['-DVERIF_HDF_PARALLEL']
    if 'realmpi' in feats:
        flags.append('-DVERIF_MPI')
    libs += ['-ldl', '-lpthread']
    units = [os.path.join(ROOT, 'harness', s) for s in spec['src'] + ['mc.cpp']]
    if spec.get('lib'):
        units += lib_sources() if spec['lib'] == 'all' else [os.path.join(REPO, 'src', s) for s in spec['lib']]
    key = hashlib.sha256((th + json.dumps([flags, inc, libs, units])).encode()).hexdigest()[:20]
    d = os.path.join(BUILD, name + '.' + key); exe = os.path.join(d, name)
    if os.path.exists(exe): return exe, None
    for old in glob.glob(os.path.join(BUILD, name + '.*')): shutil.rmtree(old, ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    def comp(u):
        o = os.path.join(d, os.path.relpath(u, '/').replace('/', '_') + '.o')
        r = subprocess.run(['g++'] + flags + inc + ['-c', u, '-o', o], capture_output=True, text=True)
        return o, (None if r.returncode == 0 else u + ':\n' + r.stderr[:4000])
    with cf.ThreadPoolExecutor(8) as ex: res = list(ex.map(comp, units))
    errs = [e for _, e in res if e]
    if errs: return None, '\n'.join(errs)
    r = subprocess.run(['g++'] + flags + [o for o, _ in res] + libs + ['-o', exe + '.tmp'], capture_output=True, text=True)
    if r.returncode: return None, r.stderr[:4000]
    os.rename(exe + '.tmp', exe)
    for o, _ in res: os.unlink(o)
    return exe, None

def known():
    """known_findings.txt: 'finding: property=P key=K :: text' suppresses exactly that key; 'fixed:' lines suppress nothing"""
    out = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding:\s+property=(\S+)\s+scenario=(\S+)\s+key=(.+?)\s+::\s+(.*)$', l)
            if m: out.append(m.groups())
    return out

def run_harness(exe, prefix, tier, out, jobs=8):
    a = [exe, '--out', out, '--jobs', str(jobs), '--prefix', prefix]
    if tier == 'thorough': a.append('--thorough')
    env = dict(os.environ); env.setdefault('OMP_NUM_THREADS', '1')
    r = subprocess.run(a, capture_output=True, text=True, env=env)
    if not os.path.exists(out) or r.returncode not in (0, 1):
        return None, 'harness error rc=%s %s' % (r.returncode, (r.stderr or '')[-2000:])
    return json.load(open(out)), None

def selftest():
    exe, err = build('selftest', tree_hash())
    if err: print(err); return 2
    out = exe + '.json'; res, err = run_harness(exe, 'S.', 'quick', out)
    if err: print(err); return 2
    sc = {s['name']: s for s in res['scenarios']}; v = {x['scenario']: x for x in res['violations']}
    ok = sc['S.count']['execs'] == 14 and sc['S.count']['complete'] and sc['S.count']['states'] == 3 and set(v) == {'S.fail', 'S.crash'} and v['S.fail']['choices'] == [1, 2] and v['S.crash']['choices'] == [3] and sc['S.prune']['states'] == 2 + 3 + 4 + 5 + 6 + 7
    print('selftest', 'ok' if ok else 'FAILED ' + json.dumps(res)); return 0 if ok else 2

def main():
    av = sys.argv[1:]
    if '--list' in av: print('\n'.join(CHECKS)); return 0
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in av: tier = av[av.index('--tier') + 1]
    if '--selftest' in av: return selftest()
    if '--build-all' in av:
        th = tree_hash(); bad = 0
        for n in HARNESSES:
            e, err = build(n, th); print(n, 'ok' if e else err); bad |= not e
        return 2 if bad else 0
    if '--all' in av:
        rc = 0
        for p in CHECKS: rc = max(rc, subprocess.call([sys.executable, __file__, p, '--tier', tier]))
        return rc
    prop = av[0]; spec = CHECKS[prop]; t0 = time.time(); th = tree_hash()
    if '--replay' in av:
        rp = json.load(open(av[av.index('--replay') + 1]))
        exe, err = build(rp['harness'], th)
        if err: print(err); return 2
        return subprocess.call([exe, '--scenario', rp['scenario'], '--replay', ','.join(map(str, rp['choices']))] + (['--thorough'] if rp['tier'] == 'thorough' else []))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    rdir = os.path.join(ROOT, 'replays'); os.makedirs(rdir, exist_ok=True)
    scen, viols = [], []
    for h, prefix in spec['runs']:
        tb = time.time(); exe, err = build(h, th)
        if err: print('BUILD-ERROR property=%s harness=%s\n%s' % (prop, h, err)); return 2
        tb = time.time() - tb
        out = os.path.join(os.path.dirname(exe), '%s.%s.json' % (prop, prefix or 'all'))
        if os.path.exists(out): os.unlink(out)
        res, err = run_harness(exe, prefix, tier, out)
        if err: print('CHECK-ERROR property=%s %s' % (prop, err)); return 2
        hangs = [v for v in res['violations'] if v['key'] == 'hang']
        if len(hangs) < len(res['violations']): res['violations'] = [v for v in res['violations'] if v['key'] != 'hang']; hangs = []
        if hangs:     # re-run alone with a longer limit before calling it a hang
            v = hangs[0]; r = None; res['violations'] = [v]
            try:
                r = subprocess.run([exe, '--timeout', '240', '--scenario', v['scenario'], '--replay', ','.join(map(str, v['choices']))] + (['--thorough'] if tier == 'thorough' else []), capture_output=True, text=True, timeout=150).returncode
            except subprocess.TimeoutExpired: pass
            if r == 0: print('CHECK-ERROR property=%s stalled execution in %s did not stall again' % (prop, v['scenario'])); return 2
        for v in res['violations']: v['harness'] = h
        viols += res['violations']
        for s in res['scenarios']: s['harness'] = h; scen.append(s)
        print('%s: %s[%s] built in %.1f s, explored in %.1f s' % (prop, h, prefix, tb, res['wall_s']))
        if hangs: break     # answered; do not wait for the same in every other part
    if not scen: print('CHECK-ERROR property=%s no scenario ran' % prop); return 2
    fresh, kn = [], known()
    seen_known = set()
    for v in viols:
        hit = [k for k in kn if k[0] == prop and k[1] == v['scenario'] and k[2] == v['key']]
        if hit: seen_known.add(hit[0])
        else: fresh.append(v)
    for k in sorted(seen_known): print('KNOWN-FINDING: property=%s %s' % (prop, k[3]))
    tot = lambda f: sum(s[f] for s in scen)
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking',
          'coverage': {'states': tot('states'), 'transitions': tot('transitions'), 'executions': tot('execs'),
                       'traces_validated_against_impl': tot('execs'), 'property_evaluations': tot('checks'),
                       'exhaustive': all(s['complete'] for s in scen),
                       'scenarios': [{k: s[k] for k in ('name', 'execs', 'transitions', 'states', 'checks', 'pruned', 'max_depth', 'complete')} for s in scen],
                       'samples': [x for s in scen for x in s['samples'][:2]][:24],
                       'note': 'every explored execution drives the real code; there is no separate abstract model whose traces would need replaying, so validated traces = executions'},
          'assumptions': ASSUMPTIONS.get('*', []) + ASSUMPTIONS.get(prop, []), 'wall_s': round(time.time() - t0, 2), 'violations': len(fresh)}
    with open(os.path.join(ROOT, spec.get('evidence', 'evidence/%s.json' % prop)), 'w') as f: json.dump(ev, f, indent=1)
    print('%s: %d scenarios, %d executions, %d transitions, %d states, %d evaluations, %.1f s' % (prop, len(scen), tot('execs'), tot('transitions'), tot('states'), tot('checks'), time.time() - t0))
    for i, v in enumerate(fresh):
        rp = os.path.join(rdir, '%s-%d.json' % (prop, i))
        json.dump({'property': prop, 'tier': tier, 'harness': v['harness'], 'scenario': v['scenario'], 'key': v['key'], 'message': v['msg'], 'operations': v['ops'], 'choices': v['choices'],
                   'how': 'python3 check.py %s --replay %s' % (prop, rp)}, open(rp, 'w'), indent=1)
        print('  [%s/%s] %s\n    after: %s' % (v['scenario'], v['key'], v['msg'][:1500], v['ops'][:800]))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
    return 1 if fresh else 0

if __name__ == '__main__': sys.exit(main())
