#!/usr/bin/env python3
"""Builds and runs the check of one property against /repo's current working tree.

  run.py CXX [--replay FILE] [--only TEST] [--scale F] [--tier quick|thorough] [--build-only] [--fuzz SECONDS]

Sources: checks/<id>*.cpp + lib/*.cpp + all of /repo/src/lib; flavour (sanitizers) from FLAVOUR below.
Objects are cached in build/ under a hash of everything they are made of.
"""
import sys, os, re, glob, hashlib, subprocess, concurrent.futures as cf, shutil, fcntl, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SRL_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')

UB = ('-fsanitize=undefined,float-divide-by-zero,float-cast-overflow -fno-sanitize=nonnull-attribute,null,'
      'float-divide-by-zero -fno-sanitize-recover=all')
FLAV = {
    'asan':  f'-fsanitize=address {UB}',
    'tsan':  '-fsanitize=thread',
    'plain': '',
    'fuzz':  f'-fsanitize=fuzzer-no-link,address {UB}',
}
FLAVOUR = {'C25': 'tsan'}
EXTRA = {'C25': ['-pthread']}
# coverage-guided fuzzing (fuzz/documents.cpp, libFuzzer) in addition, thorough tier: seconds
FUZZ = {'C02': 150, 'C08': 400, 'C10': 200, 'C26': 200}

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b'\0')
    return h.hexdigest()[:24]

def read(p):
    with open(p, 'rb') as f: return f.read()

def tree_hash(pats):
    h = hashlib.sha256()
    for pat in pats:
        for p in sorted(glob.glob(pat, recursive=True)):
            if os.path.isfile(p):
                h.update(p.encode()); h.update(read(p))
    return h.hexdigest()

def compile_one(job):
    cmd, out = job
    if os.path.exists(out): return None
    tmp = f'{out}.{os.getpid()}.tmp'
    r = subprocess.run(cmd + ['-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: return ' '.join(cmd) + '\n' + r.stdout
    os.replace(tmp, out)
    return None

def build(pid, flavour, mine=None):
    os.makedirs(BUILD, exist_ok=True)
    cxx = ['clang++', '-std=c++17', '-O1', '-g1', '-DNDEBUG', '-w', '-fno-omit-frame-pointer'] + FLAV[flavour].split() + EXTRA.get(pid, [])
    cc  = ['clang', '-std=c99', '-O1', '-g1', '-DNDEBUG', '-w'] + FLAV[flavour].split()
    inc = [f'-I{REPO}/include', f'-I{REPO}/src/lib', f'-I{HERE}/lib', f'-I{HERE}/checks']
    hdrs  = tree_hash([f'{REPO}/include/**', f'{REPO}/src/lib/**/*.h', f'{REPO}/src/lib/*.h'])
    vhdrs = tree_hash([f'{HERE}/lib/*.hpp', f'{HERE}/checks/*.hpp'])
    jobs, objs = [], []
    def add(src, compiler, *deps):
        cmd = compiler + inc + ['-c', src]
        out = os.path.join(BUILD, os.path.basename(src) + '.' + sha(' '.join(cmd), read(src), *deps) + '.o')
        jobs.append((cmd, out)); objs.append(out)
    mine = mine or sorted(glob.glob(f'{HERE}/checks/{pid}.cpp') + glob.glob(f'{HERE}/checks/{pid}_*.cpp'))
    if not mine: sys.exit(f'no check for {pid}')
    for s in mine: add(s, cxx, hdrs, vhdrs)
    text = b''.join(read(s) for s in mine)
    seen = set()
    while True:                                                         # follow includes of lib headers
        new = [h for h in glob.glob(f'{HERE}/lib/*.hpp') if h not in seen and b'"' + os.path.basename(h).encode() + b'"' in text]
        if not new: break
        for h in new: seen.add(h); text += read(h)
    for s in sorted(glob.glob(f'{HERE}/lib/*.cpp')):
        base = os.path.basename(s)[:-4]
        if base in ('pbt', 'doc'): add(s, cxx, vhdrs)                   # independent of the library
        elif b'"' + base.encode() + b'.hpp"' in text: add(s, cxx, hdrs, vhdrs)
    for s in sorted(glob.glob(f'{REPO}/src/lib/**/*.cpp', recursive=True)): add(s, cxx, hdrs)
    for s in sorted(glob.glob(f'{REPO}/src/lib/**/*.c', recursive=True)): add(s, cc, hdrs)
    exe = os.path.join(BUILD, pid + '.' + sha(*objs))
    if not os.path.exists(exe):
        with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            errs = [e for e in ex.map(compile_one, jobs) if e]
        if errs:
            print(errs[0][-6000:]); print(f'{pid}: build failed', flush=True); sys.exit(2)
        e = compile_one((cxx + objs + (['-fsanitize=fuzzer'] if flavour == 'fuzz' else []), exe))
        if e: print(e[-4000:]); print(f'{pid}: link failed', flush=True); sys.exit(2)
    keep = set(objs) | {exe}
    now = time.time()
    for p in glob.glob(os.path.join(BUILD, '*')):                       # drop stale objects
        if os.path.isfile(p) and p not in keep and now - os.path.getmtime(p) > 6 * 3600:
            try: os.unlink(p)
            except OSError: pass
    return exe

def report(pid, path):
    print(f'VIOLATION property={pid} replay={path}', flush=True)
    return 1

def fuzz(pid, work, env, seconds, workers, seed, ev, rd, replay=None):
    """libFuzzer; the oracles of property pid and the sanitizers decide. Returns an exit code."""
    exe = build('fuzz', 'fuzz', [f'{HERE}/fuzz/documents.cpp'])
    env = dict(env, FUZZ_PROPERTY=pid)
    common = ['-max_len=2000', '-timeout=20', '-rss_limit_mb=3000', '-print_final_stats=1', '-verbosity=0']
    def show(out):
        for l in [x for x in out.splitlines() if re.search(r'ORACLE|ERROR|SUMMARY|runtime error', x)][:6]: print('  ' + l[:400])
    if replay:
        r = subprocess.run([exe, replay], env=env, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        if r.returncode == 0: print('replay passes'); return 0
        show(r.stdout); return report(pid, replay)
    corpus, seeds, art = (os.path.join(work, d) for d in ('corpus', 'seeds', 'art'))
    for d in (corpus, seeds, art): os.makedirs(d, exist_ok=True)
    subprocess.run([exe, '--write-seeds', seeds], env=env, cwd=work, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    t0 = time.time(); logs = []; procs = []
    for i in range(workers):
        logs.append(os.path.join(work, f'log{i}'))
        with open(logs[-1], 'wb') as o:
            procs.append(subprocess.Popen([exe] + common + [f'-seed={seed * 1000 + i + 1}', f'-max_total_time={seconds}', f'-artifact_prefix={art}/', corpus, seeds], env=env, cwd=work, stdout=o, stderr=subprocess.STDOUT))
    while any(p.poll() is None for p in procs) and time.time() - t0 < seconds + 60 and not any(p.poll() for p in procs): time.sleep(0.5)
    for p in procs:
        if p.poll() is None: p.terminate()
    for p in procs: p.wait()
    execs = sum(int(m) for l in logs for m in re.findall(r'number_of_executed_units: (\d+)', read(l).decode(errors='replace')))
    found = sorted(glob.glob(art + '/crash-*') + glob.glob(art + '/timeout-*') + glob.glob(art + '/oom-*'), key=os.path.getsize)
    n = len(os.listdir(corpus))
    print(f'{pid}: coverage-guided fuzzing: {execs} executions, {n} inputs with new coverage, {time.time()-t0:.0f}s', flush=True)
    try:
        import json
        e = json.loads(read(ev)); cov = e['coverage']
        cov['coverage_guided'] = {'executions': execs, 'inputs_with_new_coverage': n, 'seconds': round(time.time() - t0), 'workers': workers}
        e['wall_s'] += round(time.time() - t0, 1); e['violations'] = e.get('violations', 0) + (1 if found else 0)
        with open(ev, 'w') as f: json.dump(e, f)
    except (OSError, ValueError, KeyError) as x: print(f'evidence: {x}')
    if not found: return 0
    for l in logs: show(read(l).decode(errors='replace'))
    small = os.path.join(work, 'small')
    subprocess.run([exe, '-minimize_crash=1', '-max_total_time=60', f'-exact_artifact_path={small}', found[0]], env=env, cwd=work, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=200)
    dst = os.path.join(rd, pid + '-documents.fuzz')
    shutil.copyfile(small if os.path.exists(small) else found[0], dst)
    return report(pid, dst)

def main():
    a = sys.argv[1:]
    pid = a.pop(0)
    opt = {}
    pass_on = []
    while a:
        k = a.pop(0)
        if k == '--build-only': opt[k] = True
        elif k in ('--scale', '--flavour', '--evidence', '--workers', '--fuzz'): opt[k] = a.pop(0)
        else:
            pass_on.append(k)
            if a and not a[0].startswith('--'): pass_on.append(os.path.abspath(a.pop(0)) if k == '--replay' else a.pop(0))
    flavour = opt.get('--flavour') or FLAVOUR.get(pid, 'asan')
    t0 = time.time()
    fuzz_only = opt.get('--fuzz') or ('--replay' in pass_on and pass_on[pass_on.index('--replay') + 1].endswith('.fuzz'))
    exe = None if fuzz_only else build(pid, flavour)
    if opt.get('--build-only'): return 0
    print(f'{pid}: built ({flavour}) in {time.time()-t0:.1f}s', flush=True)
    env = dict(os.environ)
    if '--scale' in opt: env['PBT_SCALE'] = opt['--scale']
    env['ASAN_OPTIONS']  = ('detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=2048:detect_stack_use_after_return=1:'
                            'malloc_context_size=8:abort_on_error=0:exitcode=99:handle_abort=1:quarantine_size_mb=16')
    env['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=99'
    env['TSAN_OPTIONS']  = 'halt_on_error=1:exitcode=99:second_deadlock_stack=1'
    work = os.path.join(BUILD, f'work.{pid}.{os.getpid()}')
    os.makedirs(work, exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    ev = opt.get('--evidence') or os.path.join(HERE, 'evidence', pid + '.json')
    rd = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rd, exist_ok=True)
    cmd = [exe, '--work', work, '--evidence', ev, '--known', os.path.join(HERE, 'KNOWN_FINDINGS'), '--replay-dir', rd]
    if '--workers' in opt: cmd += ['--workers', opt['--workers']]
    tier = pass_on[pass_on.index('--tier') + 1] if '--tier' in pass_on else env.get('VERIF_TIER', 'quick')
    seed = int(pass_on[pass_on.index('--seed') + 1] if '--seed' in pass_on else env.get('VERIF_SEED', '1'))
    run_fuzz = lambda secs, replay=None: fuzz(pid, work, env, secs, int(opt.get('--workers') or os.cpu_count() or 4), seed, ev, rd, replay)
    try:
        if fuzz_only: return run_fuzz(int(opt.get('--fuzz') or 0), pass_on[pass_on.index('--replay') + 1] if '--replay' in pass_on else None)
        r = subprocess.run(cmd + pass_on, env=env, cwd=work)
        if r.returncode not in (0, 1): return 2
        if r.returncode == 0 and tier == 'thorough' and pid in FUZZ and '--replay' not in pass_on and '--only' not in pass_on: return run_fuzz(int(FUZZ[pid] * float(opt.get('--scale') or 1)))
        return r.returncode
    finally:
        shutil.rmtree(work, ignore_errors=True)

if __name__ == '__main__':
    sys.exit(main())
