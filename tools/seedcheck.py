#!/usr/bin/env python3
"""Confirm planted bugs (seeded/<id>) and run checks against them, in scratch copies of /repo.

usage: tools/seedcheck.py [--no-confirm] [--no-check] [--props C01,C02|all] ID...

Confirmation: demo passes on the unchanged tree; the patch applies, only touches lines of the
original repository, builds, keeps the stable tests passing; demo fails with the patch.
Then the check(s) of the property (or --props) run with SRL_REPO on the patched copy.
Not used by any check."""
import json, os, re, subprocess, sys, tempfile, time, shutil

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
ROOT = subprocess.run(['git', '-C', REPO, 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.strip()

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

def tools(work, repo):
    os.makedirs(work, exist_ok=True)
    for n in ('build.sh', 'test.sh'):
        s = open('/opt/vp/' + n).read()
        s = re.sub(r'(?<![\w/])/repo\b', repo, s).replace('/opt/vp/build.sh', work + '/build.sh')
        open(f'{work}/{n}', 'w').write(s)

def blame_ok(patch):
    """lines removed by the patch have to be original ones"""
    f = None; bad = []
    for line in open(patch):
        if line.startswith('--- a/'): f = line[6:].strip()
        m = re.match(r'@@ -(\d+)(?:,\d+)? ', line)
        if m: n = int(m.group(1)); continue
        if f is None or line.startswith(('+++', '---', 'diff', 'index')): continue
        if line.startswith('-'):
            b = sh(f'git -C {REPO} blame -s --abbrev=40 -L {n},{n} -- {f}').stdout
            if b.split()[0].lstrip('^')[:40] not in (ROOT, ROOT[:39]) and not b.startswith('^'): bad.append((f, n, b.strip()))
            n += 1
        elif line.startswith(' '): n += 1
    return bad

def demo(d, repo):
    with tempfile.TemporaryDirectory() as t:
        dd = t + '/demo'; shutil.copytree(d, dd)
        for x in os.listdir(dd):
            if x.endswith(('.diff', '.patch')) or x == 'meta.json': os.unlink(f'{dd}/{x}')
        try:
            r = subprocess.run(['bash', dd + '/demo.sh'], cwd=repo, capture_output=True, text=True, timeout=300)
            return r.returncode, (r.stdout + r.stderr)[-300:]
        except subprocess.TimeoutExpired: return 'timeout', ''

def main():
    args = sys.argv[1:]; confirm = check = True; props = None; ids = []
    while args:
        a = args.pop(0)
        if a == '--no-confirm': confirm = False
        elif a == '--no-check': check = False
        elif a == '--props': props = args.pop(0)
        else: ids.append(a)
    allp = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
    summary = []
    for i in ids:
        d = f'{V}/seeded/{i}'; meta = json.load(open(d + '/meta.json'))
        work = tempfile.mkdtemp(prefix='seed.'); repo = work + '/repo'; res = [i, meta['property']]
        try:
            sh(f'cp -a {REPO} {repo}'); tools(work + '/t', repo)
            ok = True
            if confirm:
                bad = blame_ok(d + '/patch.diff')
                if bad: print('  not original:', bad); ok = False
                sh(f'rm -rf {repo}/_build'); b = sh(f'bash {work}/t/build.sh')
                if b.returncode: print('clean build failed', b.stderr[-500:]); ok = False
                rc, o = demo(d, repo)
                if rc != 0: print(f'  demo on clean: {rc} {o}'); ok = False
            a = sh(f'git -C {repo} apply {d}/patch.diff')
            if a.returncode: print('  apply:', a.stderr); ok = False
            if confirm and ok:
                b = sh(f'bash {work}/t/test.sh {work}/out.json')
                try:
                    out = json.load(open(f'{work}/out.json')); base = json.load(open('/opt/vp/BASELINE.json'))
                    got = set(out.get('passed', [])) ; want = base.get('stable') or base.get('passed') or base
                    want = set(want if isinstance(want, list) else want.keys()); miss = want - got
                    if miss: print('  tests broken:', sorted(miss)[:5]); ok = False
                except Exception as e: print('  tests:', e, b.stdout[-800:], b.stderr[-800:]); ok = False
                rc, o = demo(d, repo)
                if rc == 0: print('  demo passes with the patch'); ok = False
                else: print(f'  demo with patch: {rc} {o.strip()[-150:]!r}')
            res.append('confirmed' if ok else 'NOT CONFIRMED')
            if check and ok:
                for p in (allp if props == 'all' else props.split(',') if props else [meta['property']]):
                    t0 = time.time()
                    r = subprocess.run([V + '/run.py', p, '--evidence', work + '/ev.json'], cwd=V, capture_output=True, text=True,
                                       env=dict(os.environ, SRL_REPO=repo))
                    viol = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
                    res.append(f'{p}:{"CAUGHT" if r.returncode == 1 and viol else "missed" if r.returncode == 0 else "rc%d" % r.returncode}({time.time()-t0:.0f}s)')
                    if viol: print('   ', [l for l in r.stdout.splitlines() if 'VIOLATION' in l or 'message' in l or 'fail' in l.lower()][:3])
        finally: shutil.rmtree(work, ignore_errors=True)
        print(' '.join(res), flush=True); summary.append(' '.join(res))
    print('----'); print('\n'.join(summary))
main()
