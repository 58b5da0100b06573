#!/usr/bin/env python3
"""tools/mutate.py OUT N WORKERS SEED [PROP...] : first-order mutants of the files a property names, run through that property's check in scratch
copies under /tmp/mut (never in /repo); writes one line per mutant: killed / survived / nobuild."""
import sys, os, re, json, random, shutil, subprocess, threading, difflib
OUT, N, W, SEED = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]); ONLY = sys.argv[5:]
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
props = [p for p in props if p['id'][0] == 'P' and (not ONLY or p['id'] in ONLY)]
rnd = random.Random(SEED)
OPS = [(r'(?<=[\w\)\]] )\+ (?=[\w\(])', '- '), (r'(?<=[\w\)\]] )- (?=[\w\(])', '+ '), (r'(?<=[\w\)\]] )\* (?=[\w\(])', '+ '), (r'(?<=[\w\)\]] )\* (?=[\w\(])', '/ '),
       (r'(?<=[\w\)\]] )/ (?=[\w\(])', '* '), (r'\+=', '-='), (r'\+=', '='), (r'-=', '+='), (r'(?<= )<(?= )', '<='), (r'(?<= )>(?= )', '>='), (r'(?<= )<=(?= )', '<'),
       (r'(?<= )>=(?= )', '>'), (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'), (r'(?<=[\(, ])0(?=[\), ;])', '1'), (r'(?<=[\(, ])1(?=[\), ;])', '0'),
       (r'(?<=[\(, ])2(?=[\), ;])', '1'), (r'\b0\.5\b', '0.25'), (r'\b1\.0\b', '2.0'), (r'\b2\.0\b', '1.0'), (r'\b3\.0\b', '2.0'), (r'\b0\.0\b', '1.0'),
       (r'static_cast<Plato::Scalar>\((\d)\)', r'static_cast<Plato::Scalar>(1+\1)'), (r'\b[ij]Row\b', 'tCOL'), (r'\bsin\b', 'cos'), (r'\btIndex([IJ])\b', None), (r'^(\s+)(\w[^;{}]*\([^;{}]*=[^;{}]*;)\s*$', r'\1;'),
       (r'fastAccessDx', None)]
def body_lines(txt):
    out, incom = [], False
    for i, l in enumerate(txt):
        s = l.strip()
        if '/*' in s: incom = True
        if not incom and s and not s.startswith(('//', '#', 'template', 'namespace', '*', 'class', 'struct', 'using', 'extern')) and '"' not in s and 'template' not in s and '<<' not in s: out.append(i)
        if '*/' in s: incom = False
    return out
def mutants(p):
    res = []
    for f in p['anchors']['files'] if 'anchors' in p else p['where']['files']:
        path = '/repo/' + f
        if not os.path.exists(path): continue
        txt = open(path).read().split('\n')
        for i in body_lines(txt):
            for pat, rep in OPS:
                if rep is None: continue
                for m in re.finditer(pat, txt[i]):
                    new = txt[i][:m.start()] + m.expand(rep) + txt[i][m.end():]
                    res.append((p['id'], f, i, txt[i], new))
    return res
import itertools
key = [k for k in props[0] if isinstance(props[0][k], dict) and 'files' in props[0][k]][0]
for p in props: p['anchors'] = p[key]
jobs = []
for p in props:
    m = mutants(p); rnd.shuffle(m)
    seen, sel = set(), []
    for x in m:
        if (x[1], x[2]) in seen: continue
        seen.add((x[1], x[2])); sel.append(x)
        if len(sel) >= N: break
    jobs += sel
rnd.shuffle(jobs)
lock = threading.Lock(); it = iter(jobs)
def work(k):
    d = '/tmp/mut/w%d' % k; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    subprocess.run('mkdir %s/repo && cp -a /repo/src %s/repo/ && mkdir %s/verif && cp -a %s/lib %s/harness %s/contracts %s/check %s/KNOWN_FINDINGS.json %s/properties.jsonl %s/MANIFEST.json %s/verif/' % (d, d, d, V, V, V, V, V, V, V, d), shell=True, check=True)
    subprocess.run(['sed', '-i', 's#-I/repo/src#-I%s/repo/src#' % d, d + '/verif/lib/native.py'])
    while True:
        with lock:
            j = next(it, None)
        if j is None: return
        pid, f, i, old, new = j
        path = d + '/repo/' + f; orig = open('/repo/' + f).read(); t = orig.split('\n'); t[i] = new
        open(path, 'w').write('\n'.join(t))
        try: r = subprocess.run(['timeout', '1200', 'bash', d + '/verif/check', pid], capture_output=True, text=True, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
        finally: open(path, 'w').write(orig)
        st = {0: 'SURVIVED', 1: 'killed'}.get(r.returncode, 'nobuild%d' % r.returncode)
        if r.returncode == 1 and 'VIOLATION' not in r.stdout: st = 'nobuild1'
        if st == 'killed' and all('no-failing-input' in l for l in r.stdout.split('\n') if l.startswith('VIOLATION')): st = 'killed-nofail'
        with lock:
            with open(OUT, 'a') as o: o.write('%s %s %s:%d\n    - %s\n    + %s\n' % (st, pid, f, i + 1, old.strip(), new.strip()))
            if st.startswith('nobuild'):
                with open(OUT + '.err', 'a') as o: o.write('%s %s:%d %s\n' % (pid, f, i + 1, (r.stdout + r.stderr)[-300:]))
ts = [threading.Thread(target=work, args=(k,)) for k in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
for k in range(W): shutil.rmtree('/tmp/mut/w%d' % k, ignore_errors=True)
