#!/usr/bin/env python3
"""Mutation campaign: small changes of /repo which build and pass its tests, against small runs of the checks.
usage: mutants.py OUT.jsonl WORKERS COVERAGE.txt FILE...   (scratch copies in /tmp/mut.*)"""
import time, json, os, re, shutil, subprocess, sys, threading, random
out, nw, cov = sys.argv[1], int(sys.argv[2]), sys.argv[3]
files = sys.argv[4:]
MUT = '/tmp/mutate'
ENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off', PATH='/opt/veriftools/go1.23.12/bin:' + os.environ['PATH'], GOMAXPROCS='4')
covered = {}
for l in open(cov):
    m = re.match(r'github.com/kazu/skiplistmap/(.*):(\d+)\.\d+,(\d+)\.\d+ \d+ (\d+)', l)
    if m and int(m[4]) > 0:
        covered.setdefault(m[1], set()).update(range(int(m[2]), int(m[3]) + 1))
CHECKS = [('C02', 2500), ('C01', 2500), ('C07', 1200), ('C06', 1200), ('C05', 1200), ('C20', 1000), ('C03', 1000), ('C04', 2000), ('C13', 800), ('C12', 100), ('C15', 600),
          ('C23', 150), ('C08', 40), ('C16', 2000), ('C19', 800), ('C21', 200), ('C22', 200), ('C18', 60), ('C25', 40), ('C26', 150), ('C10', 80), ('C11', 400), ('C09', 16), ('C24', 16), ('C14', 150), ('C17', 200), ('C27', 30), ('C28', 30)]
RM = [('C16', 20000), ('C17', 3000), ('C14', 400)]
done = set()
if os.path.exists(out):
    for l in open(out):
        d = json.loads(l); done.add((d['file'], d['n']))
orig = {} # only lines which were there before the commits of this work: ORIG=commit
if os.environ.get('ORIG'):
    for f in files:
        for i, l in enumerate(subprocess.check_output(['git', '-C', '/repo', 'blame', '-s', f], text=True).splitlines()):
            if l.startswith('^' + os.environ['ORIG']):
                orig.setdefault(f, set()).add(i + 1)
todo = []
for f in files:
    for l in subprocess.check_output([MUT, 'list', '/repo/' + f], text=True).splitlines():
        n, line, what = l.split(':', 2)
        if int(line) in covered.get(f, ()) and (f, int(n)) not in done and (not orig or int(line) in orig.get(f, ())):
            todo.append((f, int(n), int(line), what.strip()))
random.Random(5).shuffle(todo)
print(len(todo), 'mutants', flush=True)
lock = threading.Lock()
def run(cmd, cwd, t):
    try:
        p = subprocess.run(['nice', '-n', '15'] + cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, errors='replace')
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 'timeout', ''
def worker(w):
    base = f'/tmp/mut.{w}'
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base + '/b')
    subprocess.check_call(['cp', '-a', '/repo', base + '/r'])
    subprocess.check_call(['cp', '-r', '/verif/harness', base + '/harness'])
    s = open('/verif/build.sh').read().replace('/repo', base + '/r').replace('[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh', '')
    open(base + '/build.sh', 'w').write(s)
    while True:
        with lock:
            if not todo:
                return
            f, n, line, what = todo.pop()
        src = f'{base}/r/{f}'
        orig = open('/repo/' + f).read()
        t0 = time.time()
        p = subprocess.run([MUT, 'apply', '/repo/' + f, str(n)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        open(src, 'w').write(p.stdout)
        res = {'file': f, 'n': n, 'line': line, 'what': what}
        rc, o = run(['go', 'build', './...'], base + '/r', 200)
        if rc != 0:
            res['r'] = 'nobuild'
        else:
            rc, o = run(['go', 'test', '-vet=off', '-count=1', '-timeout', '60s', './...'], base + '/r', 150)
            res['tt'] = round(time.time() - t0, 1)
            if rc != 0:
                res['r'] = 'tests'
            else:
                rc, o = run(['bash', base + '/build.sh', base + '/b'], base, 300)
                if rc != 0:
                    res['r'] = 'harness does not build: ' + o[-300:]
                else:
                    res['tb'] = round(time.time() - t0, 1)
                    res['r'] = 'SURVIVED'
                    for c, k in (RM if f.startswith('rmap') else CHECKS):
                        os.makedirs(base + '/w', exist_ok=True)
                        rc, o = run([base + '/b/vh', 'check', '-fast', '-prop', c, '-race', base + '/b/vh', '-verif', base + '/v', '-work', base + '/w', '-cases', str(k)], base, 400)
                        shutil.rmtree(base + '/w', ignore_errors=True)
                        if rc == 0:
                            continue
                        if rc == 1:
                            res['r'] = c
                        else:
                            res['r'] = f'{c} exit {rc}: ' + o[-300:]
                        break
        res['t'] = round(time.time() - t0, 1)
        open(src, 'w').write(orig)
        with lock:
            with open(out, 'a') as fh:
                fh.write(json.dumps(res) + '\n')
ts = [threading.Thread(target=worker, args=(i,)) for i in range(nw)]
[t.start() for t in ts]
[t.join() for t in ts]
for i in range(nw):
    shutil.rmtree(f'/tmp/mut.{i}', ignore_errors=True)
