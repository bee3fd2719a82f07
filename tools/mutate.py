#!/usr/bin/env python3
"""Development tool: mutation analysis of the checks (never part of a check).
   mutate.py list FILE...            number of mutants per source file
   mutate.py run SPEC OUT [-j N]     SPEC lines: "<file> <how many>"; result lines are appended to OUT (JSON)
Each mutant changes one line of /repo/src in a scratch copy; the quick checks of the properties anchored in that
file are run on it until one reports a violation.  Survivors are then to be judged by hand (equivalent, outside
the property, or a gap)."""
import sys, os, re, json, random, subprocess, shutil, time, concurrent.futures as cf, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/tools')
from props import PROPS
W = '/tmp/mut'
OPS = [(r'(?<![<=>!\-+*/&|])<(?![<=])(?=\s*[\w(])', '<=', 'rel'), (r'<=(?!>)', '<', 'rel'), (r'(?<![->=<])>(?![>=])(?=\s*[\w(])', '>=', 'rel'), (r'>=', '>', 'rel'), (r'==', '!=', 'eq'), (r'!=', '==', 'eq'),
       (r'(?<!return)(?<=[\w)\]])( ?)\+\1(?=[\w(])', '-', 'ar'), (r'(?<!return)(?<=[\w)\]])( ?)-\1(?=[\w(])', '+', 'ar'), (r'(?<!return)(?<=[\w)\]])( ?)\*\1(?=[\w(])', '+', 'ar'), (r'(?<!return)(?<=[\w)\]])( ?)/\1(?=[\w(])', '*', 'ar'), (r'\+=', '-=', 'ar'), (r'-=', '+=', 'ar'),
       (r'&&', '||', 'lg'), (r'\|\|', '&&', 'lg'), (r'!(?=[\w(])', '', 'lg'), (r'\btrue\b', 'false', 'lg'), (r'\bfalse\b', 'true', 'lg'),
       (r'(?<![\w.])0(?![\w.])', '1', 'cn'), (r'(?<![\w.])1(?![\w.])', '0', 'cn'), (r'(?<![\w.])1(?![\w.])', '2', 'cn'), (r'(?<![\w.])2(?![\w.])', '1', 'cn'),
       (r'\b([gs]et)?Lo\b', r'\1Hi', 'nm'), (r'\b([gs]et)?Hi\b', r'\1Lo', 'nm'), (r'\bmin\b', 'max', 'nm'), (r'\bmax\b', 'min', 'nm'), (r'\blow\b', 'high', 'nm'), (r'\bhigh\b', 'low', 'nm'),
       (r'\bcontinue;', 'break;', 'fl'), (r'\bbreak;', ';', 'fl'), (r'\bif \(', 'if (!', 'x')][:-1]
def code_lines(txt):
    inc = False
    for n, l in enumerate(txt.split('\n')):
        s = l.strip()
        if inc: inc = '*/' not in s; continue
        if s.startswith('/*'): inc = '*/' not in s; continue
        if not s or s[0] in '#*' or s.startswith('//') or s.startswith('template') or s.startswith('typedef') or s.startswith('using') or s.startswith('friend') or s.startswith('static_assert') or 'assert(' in s or 'SCHNEK_TRACE' in s or 'operator' in s or s.startswith('virtual') or s.startswith('SCHNEK_INLINE') or s.startswith('class ') or s.startswith('friend') or re.match(r'[\w:<>,&* -]+ \w+\([^()]*\)( const)?;$', s) and not s.startswith('return'): continue
        yield n, l.split('//')[0].rstrip('\r')
def mutants(f):
    txt = open('/repo/' + f, newline='').read(); lines = txt.split('\n'); out = []
    for n, l in code_lines(txt):
        for pat, rep, kind in OPS:
            for m in re.finditer(pat, l):
                if kind == 'rel' and m.group(0) in '<>' and re.search(r'<.*>', l): continue
                if kind == 'rel' and re.search(r'(class|typename|template|std::\w+<|<\s*(T|int|double|size_t|float)\b)', l): continue
                new = l[:m.start()] + m.expand(rep) + l[m.end():]
                if new != l: out.append((n, lines[n], lines[n].replace(l, new, 1), kind))
        s = l.strip()
        if s.endswith(';') and ('=' in s or '(' in s or s.startswith('++')) and not re.match(r'(return|const|typename|static|virtual|class|struct|break|else|for|if|case|std::\w+<.*> \w+;|.*\boperator\b)', s) and not re.match(r'[\w:<>,\s]+\s+[&*]?\w+\s*(=|\(.*\)\s*(const)?;$)', s) and s.count('(') == s.count(')'):
            out.append((n, lines[n], lines[n].replace(s, ';', 1), 'del'))
        if re.match(r'(return)\b.*;$', s) is None and re.match(r'if\s*\((.*)\)\s*(.*)$', s) and s.count('(') == s.count(')'):
            m = re.match(r'(\s*(?:\} *else +)?if\s*\()(.*)(\).*)$', l)
            if m: out.append((n, lines[n], lines[n].replace(l, m.group(1) + '!(' + m.group(2) + ')' + m.group(3), 1), 'neg'))
    return out
COST = {'P24': 100, 'P30': 80, 'P11': 80, 'P31': 84, 'P32': 50}
EXTRA = {'src/variables/function_expression.cpp': ['P26'], 'src/functions.hpp': ['P26'], 'src/parser/operators2.hpp': ['P20'], 'src/variables/blockclasses.hpp': ['P28'], 'src/parser/parsersettings.hpp': ['P22'], 'src/parser/internal/deckscanner.cpp': ['P21', 'P22'], 'src/util/unique.hpp': ['P29'], 'src/util/algohelper.hpp': ['P18'], 'src/parser/parsertoken.hpp': ['P20'], 'src/util/exceptions.cpp': ['P22'], 'src/parser/tokenlist.hpp': ['P21']}
def props_of(f): return sorted([p['id'] for p in PROPS if f in p['files']] + EXTRA.get(f, []), key=lambda p: COST.get(p, 30))
def run_one(k, f, mu, ident):
    d = '%s/w%d' % (W, k); n, old, new, kind = mu; p = d + '/repo/' + f; orig = open(p, newline='').read()
    ls = orig.split('\n'); assert ls[n] == old; ls[n] = new; open(p, 'w', newline='').write('\n'.join(ls)); t = time.time()
    r = dict(id=ident, file=f, line=n + 1, kind=kind, old=old.strip(), new=new.strip(), res='survived', by=None)
    try:
        for pr in props_of(f):
            x = subprocess.run(['unshare', '-Urm', 'bash', '-c', 'mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && PATH=/tmp/mut/bin:$PATH timeout 900 python3 check.py %s --tier quick' % (d, d, pr)], capture_output=True, text=True)
            if x.returncode == 1 and 'VIOLATION property=' + pr in x.stdout: r['res'] = 'killed'; r['by'] = pr; break
            if 'BUILD-ERROR' in x.stdout: r['res'] = 'nobuild'; break
            if x.returncode != 0: r['res'] = 'noanswer'; r['by'] = pr; r['out'] = (x.stdout + x.stderr)[-800:]; break
    finally: open(p, 'w', newline='').write(orig)
    r['t'] = round(time.time() - t); return r
if __name__ == '__main__':
    if sys.argv[1] == 'list':
        for f in sys.argv[2:]: print(len(mutants(f)), f, props_of(f))
        sys.exit()
    spec, out = sys.argv[2:4]; j = int(sys.argv[sys.argv.index('-j') + 1]) if '-j' in sys.argv else 2
    done = {json.loads(l)['id'] for l in open(out)} if os.path.exists(out) else set(); todo = []
    for l in open(spec):
        if not l.strip() or l[0] == '#': continue
        f, c = l.split(); ms = mutants(f); rnd = random.Random(f); rnd.shuffle(ms)
        # at most two mutants per line
        seen = {}; sel = []
        for m in ms:
            if seen.get(m[0], 0) < 2: seen[m[0]] = seen.get(m[0], 0) + 1; sel.append(m)
        for m in sel[:int(c)]:
            i = '%s:%d:%s' % (f, m[0] + 1, m[2].strip())
            if i not in done: todo.append((f, m, i))
    q = queue.Queue()
    for k in range(j):
        d = '%s/w%d' % (W, k); shutil.rmtree(d, ignore_errors=True); os.makedirs(d + '/repo')
        subprocess.run('cp -a /repo/src /repo/CMakeLists.txt %s/repo/ && cp -a %s %s/verif && rm -rf %s/verif/.build %s/verif/.git %s/verif/seeded' % (d, V, d, d, d, d), shell=True, check=True); q.put(k)
    random.Random(1).shuffle(todo); print(len(todo), 'mutants', flush=True)
    def job(t):
        k = q.get()
        try: return run_one(k, *t)
        finally: q.put(k)
    with cf.ThreadPoolExecutor(j) as ex:
        for r in ex.map(job, todo):
            with open(out, 'a') as o: o.write(json.dumps(r) + '\n')
            print(r['res'], r['by'], r['t'], r['file'], r['line'], '|', r['old'], '->', r['new'], flush=True)
