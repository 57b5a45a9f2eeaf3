"""Checks that go through the Python module: builds it from the working tree (SWIG wrapper and
library, with AddressSanitizer, outside the repository) and runs the Python property in parallel."""
import os, sys, json, glob, time, shutil, subprocess, tempfile, concurrent.futures as cf
PY = '/usr/bin/python3.12' if os.path.exists('/usr/bin/python3.12') else sys.executable
FLAGS = ['-std=c++14', '-fPIC', '-g', '-O1', '-w', '-fno-omit-frame-pointer', '-fsanitize=address', '-DPARTIO_USE_ZLIB']

def build(run):
    import fcntl, sysconfig
    inc = subprocess.run([PY, '-c', 'import sysconfig;print(sysconfig.get_paths()["include"])'], stdout=subprocess.PIPE, text=True).stdout.strip()
    lib = run.REPO + '/src/lib'; iface = run.REPO + '/src/py/partio.i'; extra = sorted(glob.glob(run.REPO + '/src/py/*.i'))
    k = run.digest('py1', run.compiler_id('clang++'), ' '.join(FLAGS), run.headers_digest([lib]), *sum([[os.path.relpath(s, run.REPO), run.read(s)] for s in run.lib_sources() + extra], []))
    out = f'{run.BUILD}/py/{k}'; os.makedirs(run.BUILD + '/py', exist_ok=True); os.makedirs(run.BUILD + '/obj', exist_ok=True)
    with open(run.BUILD + '/lock', 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(out + '/_partio.so'): os.utime(out); return out
        olds = sorted(glob.glob(run.BUILD + '/py/*'), key=os.path.getmtime)
        for d in olds[:-6]: shutil.rmtree(d, ignore_errors=True)
        tmp = out + f'.{os.getpid()}.tmp'; os.makedirs(tmp)
        try:
            r = run.sh(['swig', '-w314', '-c++', '-python', '-includeall', '-I' + lib, '-outdir', tmp, '-o', tmp + '/wrap.cxx', iface])
            if r.returncode: raise run.BuildError('swig failed:\n' + r.stdout[-3000:])
            def comp(src, std):
                key = run.digest('pyobj', run.compiler_id('clang++'), ' '.join(FLAGS), run.headers_digest([lib]), run.read(src), os.path.basename(src))
                o = f'{run.BUILD}/obj/{key}.o'
                if not os.path.exists(o):
                    t = f'{o}.{os.getpid()}.tmp'; r = run.sh(['clang++'] + FLAGS + ['-I' + lib, '-I' + inc, '-c', src, '-o', t])
                    if r.returncode: raise run.BuildError(f'compiling {src} failed:\n{r.stdout[-3000:]}')
                    os.rename(t, o)
                return o
            with cf.ThreadPoolExecutor(run.JOBS) as ex: objs = list(ex.map(lambda s: comp(s, 0), [tmp + '/wrap.cxx'] + run.lib_sources()))
            r = run.sh(['clang++', '-shared', '-fsanitize=address', '-shared-libasan'] + objs + ['-lz', '-lpthread', '-o', tmp + '/_partio.so'])
            if r.returncode: raise run.BuildError('linking the Python module failed:\n' + r.stdout[-3000:])
            if os.path.isdir(out): shutil.rmtree(out)
            os.rename(tmp, out)
        finally: shutil.rmtree(tmp, ignore_errors=True)
    return out

def env(run, mod):
    rt = subprocess.run(['clang++', '-print-file-name=libclang_rt.asan-x86_64.so'], stdout=subprocess.PIPE, text=True).stdout.strip()
    e = run.env(); e['LD_PRELOAD'] = rt; e['PYTHONPATH'] = ':'.join([mod, run.HERE + '/lib', run.HERE + '/harness', run.REPO + '/src/tools']); e['PYTHONDONTWRITEBYTECODE'] = '1'; e['PYTHONHASHSEED'] = '0'
    e['ASAN_OPTIONS'] = 'detect_leaks=0:symbolize=0:allocator_may_return_null=0:max_allocation_size_mb=400:hard_rss_limit_mb=3000:detect_odr_violation=0:handle_abort=0'
    e.pop('PYTHONMALLOC', None); return e

def setup(run): build(run)

def run_part(run, pid, p, tier, seed, e):
    cases, tlim = p[tier]; sc = tempfile.mkdtemp(prefix=f'verif-{pid}-', dir='/tmp'); t0 = time.time()
    try:
        def job(i):
            d = f'{sc}/{i}'; os.makedirs(d)
            return subprocess.run([PY, f'{run.HERE}/harness/{p["h"]}.py', '--seed', str(seed), '--cases', str(cases), '--time', str(tlim), '--job', str(i), '--jobs', str(run.JOBS), '--scratch', d + '/s', '--out', d + '/o.json',
                                   '--replaydir', run.HERE + '/replays', '--id', pid + '-' + p['h'], '--stop', sc + '/stop'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', env=e, cwd=d)
        with cf.ThreadPoolExecutor(run.JOBS) as ex: rs = list(ex.map(job, range(run.JOBS)))
        tot = dict(evaluations=0, distinct_nontrivial=0, discarded=0, resource_skips=0, labels={}, samples=[], rule='', wall=0); hashes = set()
        for i, r in enumerate(rs):
            f = f'{sc}/{i}/o.json'
            if not os.path.exists(f): continue
            s = json.load(open(f)); tot['evaluations'] += s['evaluations']; tot['discarded'] += s['discarded']; hashes |= set(s['hashes']); tot['rule'] = s['rule']; tot['samples'] += s['samples'][:2]
            for k, v in s['labels'].items(): tot['labels'][k] = tot['labels'].get(k, 0) + v
        tot['distinct_nontrivial'] = len(hashes); tot['wall'] = time.time() - t0; tot['labels'] = dict(sorted(tot['labels'].items()))
        return rs, tot
    finally: shutil.rmtree(sc, ignore_errors=True)

def check(run, pid, chk, tier, seed):
    t0 = time.time(); e = env(run, build(run)); os.makedirs(run.HERE + '/replays', exist_ok=True); viol = []; stats = []; notes = []
    for f, what in run.known_findings(pid): print(f'KNOWN-FINDING: property={pid} {what}')
    for p in chk['pyparts']:
        for attempt in range(2):
            rs, tot = run_part(run, pid, p, tier, seed, e); codes = [r.returncode for r in rs]
            if 3 not in codes or any('FOUND replay=' in r.stdout for r in rs): break
            notes.append('not reproduced: ' + ' '.join(r.stdout.strip()[:300] for r in rs if r.returncode == 3))
        bad = [r for r in rs if r.returncode == 1 and 'FOUND replay=' in r.stdout]
        if not bad and 3 in codes and set(codes) <= {0, 3}:
            rp = f'{run.HERE}/replays/{pid}-{p["h"]}-seed{seed}.log'; open(rp, 'w').write('\n'.join(r.stdout for r in rs if r.returncode == 3)); viol.append(rp)
        elif not bad and any(codes):
            for r in rs:
                if r.returncode: print(r.stdout[-2000:]); print(r.stderr[-2000:], file=sys.stderr)
            print(f'ERROR: harness {p["h"]} ended with {codes}'); return 2
        stats.append((p, tot))
        for r in bad[:1]:
            print('\n'.join(l for l in r.stdout.splitlines() if not l.startswith('FOUND replay=')))
            viol += [l.split('replay=', 1)[1] for l in r.stdout.splitlines() if l.startswith('FOUND replay=')][-1:]
    run.write_evidence(pid, chk, tier, seed, t0, stats, viol, notes)
    for v in viol: print(f'VIOLATION property={pid} replay={v}')
    return 1 if viol else 0

def replay(run, pid, chk, file):
    e = env(run, build(run)); e['ASAN_OPTIONS'] += ':symbolize=1'
    for p in chk['pyparts']:
        if len(chk['pyparts']) > 1 and f"-{p['h']}-" not in os.path.basename(file): continue
        return subprocess.run([PY, f'{run.HERE}/harness/{p["h"]}.py', '--replay', file], env=e).returncode
    return 64
