#!/usr/bin/env python3
"""Runner of the checks:  run.py setup | check ID | replay ID FILE | list

A check compiles the library from the current working tree of the repository together
with its harness(es) into /verif/build (objects are cached under the hash of everything that
went into them), lets the harness search, and turns its result into the exit code,
VIOLATION / KNOWN-FINDING lines and the evidence file.
Environment: VERIF_SEED (default 1), VERIF_TIER (quick|thorough), VERIF_REPO (default /repo).
"""
import os, sys, re, json, time, glob, hashlib, subprocess, tempfile, shutil, fcntl, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
sys.path.insert(0, HERE)
from checks import CHECKS

JOBS = min(8, os.cpu_count() or 8)
BASE = ['-g', '-fno-omit-frame-pointer', '-w', '-DPARTIO_USE_ZLIB']
VARIANTS = {
    # asserts stay on: that is how the repository's own build is configured here
    'asan': dict(cxx='clang++', flags=['-O1', '-fsanitize=address,bounds,return']),
    'tsan': dict(cxx='clang++', flags=['-O1', '-fsanitize=thread']),
    'plain': dict(cxx='clang++', flags=['-O1']),
    # what an optimised build does: no asserts
    'release': dict(cxx='clang++', flags=['-O2', '-DNDEBUG', '-fsanitize=address']),
}
ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=400:hard_rss_limit_mb=3000:detect_odr_violation=0:handle_abort=0:detect_stack_use_after_return=0:symbolize=0',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66:second_deadlock_stack=1:memory_limit_mb=3000',
    'LC_ALL': 'C.UTF-8',
}

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

class BuildError(Exception):
    pass

def read(p):
    with open(p, 'rb') as f:
        return f.read()

def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, 'little')); h.update(p)
    return h.hexdigest()[:32]

def compiler_id(cxx):
    return sh([cxx, '--version']).stdout

def lib_sources():
    d = REPO + '/src/lib'
    return sorted(glob.glob(d + '/io/*.cpp') + glob.glob(d + '/core/*.cpp'))

def headers_digest(dirs):
    parts = []
    for d in dirs:
        for r, _, fs in sorted(os.walk(d)):
            for f in sorted(fs):
                if f.endswith(('.h', '.hpp', '.inc', '.i')):
                    parts += [os.path.relpath(os.path.join(r, f), d), read(os.path.join(r, f))]
    return digest(*parts) if parts else ''

def compile_obj(cxx, flags, src, key, std):
    out = f'{BUILD}/obj/{key}.o'
    if os.path.exists(out):
        os.utime(out); return out
    tmp = f'{out}.{os.getpid()}.tmp'
    r = sh([cxx, std] + BASE + flags + ['-c', src, '-o', tmp])
    if r.returncode:
        raise BuildError(f'compiling {src} failed:\n{r.stdout[-3000:]}')
    os.rename(tmp, out)
    return out

def prune():
    for d, keep in (('obj', 600), ('bin', 120)):
        fs = sorted(glob.glob(f'{BUILD}/{d}/*'), key=os.path.getmtime)
        for f in fs[:-keep]:
            try: os.unlink(f)
            except OSError: pass

def build(harnesses):
    """harnesses: list of (name, variant); returns {(name,variant): binary}"""
    os.makedirs(BUILD + '/obj', exist_ok=True); os.makedirs(BUILD + '/bin', exist_ok=True)
    lock = open(BUILD + '/lock', 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        prune()
        hl = headers_digest([REPO + '/src/lib']); hv = headers_digest([HERE + '/lib'])
        cid = compiler_id('clang++')
        want = {}; res = {}; jobs = {}
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for name, var in harnesses:
                v = VARIANTS[var]
                inc = ['-I' + REPO + '/src/lib']
                objs = []
                src = f'{HERE}/harness/{name}.cpp'
                text = read(src); more = [x for f in sorted(glob.glob(REPO + '/src/tools/*.[ch]*')) for x in (f, read(f))] if b'../tools/' in text else []
                more += [read(f'{HERE}/harness/{m.decode()}') for m in re.findall(rb'#include "(\w+\.cpp)"', text)]
                k = digest(cid, ' '.join(v['flags']), hl, hv, text, name, *more)
                if ('h', k) not in jobs:
                    jobs['h', k] = ex.submit(compile_obj, v['cxx'], v['flags'] + ['-I' + HERE + '/lib'] + inc, src, k, '-std=c++17')
                objs.append(jobs['h', k])
                for s in lib_sources():
                    k2 = digest(cid, ' '.join(v['flags']), hl, os.path.relpath(s, REPO), read(s))
                    if ('l', k2) not in jobs:
                        jobs['l', k2] = ex.submit(compile_obj, v['cxx'], v['flags'] + inc, s, k2, '-std=c++14')
                    objs.append(jobs['l', k2])
                want[name, var] = objs
        for (name, var), objs in want.items():
            v = VARIANTS[var]; os_ = [o.result() for o in objs]
            k = digest(*[os.path.basename(o) for o in os_])
            out = f'{BUILD}/bin/{name}-{var}-{k}'
            if not os.path.exists(out):
                tmp = out + '.tmp'
                r = sh([v['cxx']] + v['flags'] + os_ + ['-lz', '-lpthread', '-ldl', '-rdynamic', '-o', tmp])
                if r.returncode:
                    raise BuildError(f'linking {name} failed:\n{r.stdout[-3000:]}')
                os.rename(tmp, out)
            else:
                os.utime(out)
            res[name, var] = out
        return res
    finally:
        lock.close()

def known_findings(pid):
    """lines 'known: property=ID harness=H replay=FILE <what>' of known_findings.txt"""
    out = []
    p = HERE + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('known: '):
                f = dict(x.split('=', 1) for x in l[7:].split(' ')[:3])
                if f['property'] == pid:
                    out.append((f, ' '.join(l[7:].split(' ')[3:]).strip()))
    return out

def locales():
    """a C locale with decimal comma for the harness that switches locales"""
    d = BUILD + '/locale'
    if not os.path.isdir(d + '/de_DE.UTF-8'):
        os.makedirs(d, exist_ok=True); t = f'{d}/t{os.getpid()}'
        try: sh(['localedef', '-i', 'de_DE', '-f', 'UTF-8', t])
        except OSError: pass
        if os.path.isdir(t):
            try: os.rename(t, d + '/de_DE.UTF-8')
            except OSError: shutil.rmtree(t, ignore_errors=True)
    return d

def env():
    e = dict(os.environ); e.update(ENV); e['LOCPATH'] = locales(); e['VERIF_HERE'] = HERE; e['VERIF_REPO'] = REPO
    return e

def run_part(binary, pid, part, tier, seed, scratch):
    if tier == 'quick': cases, tlim = part['quick']
    else: cases, tlim = part['thorough']
    out = f'{scratch}/out.json'
    if os.path.exists(out): os.unlink(out)
    cmd = [binary, '--seed', str(seed), '--cases', str(cases), '--time', str(tlim), '--jobs', str(part.get('jobs', JOBS)),
           '--scratch', scratch + '/s', '--out', out, '--replaydir', HERE + '/replays', '--id', pid + '-' + part['h']]
    if tier == 'thorough': cmd.append('--thorough')
    cmd += part.get('args', [])
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', env=env(), cwd=scratch)
    st = json.load(open(out)) if os.path.exists(out) else None
    return r.returncode, r.stdout, r.stderr, st

def check(pid):
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if tier not in ('quick', 'thorough'): tier = 'quick'
    try: seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    except ValueError: seed = 1
    t0 = time.time(); chk = CHECKS[pid]
    if 'cmd' in chk:   # checks not written in C++
        import importlib
        m = importlib.import_module(chk['cmd'])
        return m.check(sys.modules[__name__], pid, chk, tier, seed)
    bins = build([(p['h'], p.get('variant', 'asan')) for p in chk['parts']])
    scratch = tempfile.mkdtemp(prefix=f'verif-{pid}-', dir='/tmp')
    os.makedirs(HERE + '/replays', exist_ok=True)
    viol = []; stats = []; notes = []
    try:
        for f, what in known_findings(pid):
            print(f'KNOWN-FINDING: property={pid} {what}')
        for p in chk['parts']:
            b = bins[p['h'], p.get('variant', 'asan')]
            rc, o, e, st = run_part(b, pid, p, tier, seed, scratch)
            if rc == 3:  # failed once, but neither the case nor its history reproduce it: look again
                notes.append('not reproduced: ' + o.strip()[:500])
                rc2, o, e, st = run_part(b, pid, p, tier, seed, scratch)
                if rc2 == 3:
                    rp = f'{HERE}/replays/{pid}-{p["h"]}-seed{seed}.log'; open(rp, 'w').write(o)
                    o += f'\nFOUND replay={rp}\n'; rc = 1
                else: rc = rc2
            if rc not in (0, 1) or st is None:
                print(o[-3000:]); print(e[-3000:], file=sys.stderr)
                print(f'ERROR: harness {p["h"]} ended with {rc}')
                return 2
            stats.append((p, st))
            if rc == 1:
                rp = [l.split('replay=', 1)[1] for l in o.splitlines() if l.startswith('FOUND replay=')][-1]
                print('\n'.join(l for l in o.splitlines() if not l.startswith('FOUND replay=')))
                viol.append(rp)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    write_evidence(pid, chk, tier, seed, t0, stats, viol, notes)
    for v in viol:
        print(f'VIOLATION property={pid} replay={v}')
    return 1 if viol else 0

def write_evidence(pid, chk, tier, seed, t0, stats, viol, notes):
    ev = sum(s['evaluations'] for _, s in stats); nt = sum(s['distinct_nontrivial'] for _, s in stats)
    cov = dict(evaluations=ev, distinct_nontrivial=nt,
               rule=' || '.join(f"{p['h']}: {s['rule']}" for p, s in stats) if len(stats) > 1 else stats[0][1]['rule'],
               samples=sum([s['samples'][:8] for _, s in stats], []),
               discarded=sum(s['discarded'] for _, s in stats), skipped_for_memory=sum(s['resource_skips'] for _, s in stats),
               parts=[dict(harness=p['h'], build=p.get('variant', 'asan'), evaluations=s['evaluations'], distinct_nontrivial=s['distinct_nontrivial'], labels=s['labels'], wall_s=round(s['wall'], 1)) for p, s in stats])
    d = dict(property=pid, tier=tier, seed=seed, level=chk.get('level', 'exploration'), coverage=cov, wall_s=round(time.time() - t0, 2),
             assumptions=chk.get('assumptions', []) + notes, violations=len(viol))
    os.makedirs(HERE + '/evidence', exist_ok=True)
    with open(f'{HERE}/evidence/{pid}.json', 'w') as f:
        json.dump(d, f, indent=1); f.write('\n')

def main():
    a = sys.argv[1:]
    try:
        if a[0] == 'setup':
            hs = sorted({(p['h'], p.get('variant', 'asan')) for c in CHECKS.values() for p in c.get('parts', [])})
            build(hs)
            for c in CHECKS.values():
                if 'cmd' in c:
                    import importlib
                    m = importlib.import_module(c['cmd'])
                    if hasattr(m, 'setup'): m.setup(sys.modules[__name__])
            return 0
        if a[0] == 'check': return check(a[1])
        if a[0] == 'replay':
            chk = CHECKS[a[1]]
            if 'cmd' in chk:
                import importlib
                return importlib.import_module(chk['cmd']).replay(sys.modules[__name__], a[1], chk, a[2])
            for p in chk['parts']:
                if len(chk['parts']) > 1 and f"-{p['h']}-" not in os.path.basename(a[2]): continue
                b = build([(p['h'], p.get('variant', 'asan'))])[p['h'], p.get('variant', 'asan')]
                e = env(); e['ASAN_OPTIONS'] += ':symbolize=1'
                return subprocess.run([b, '--replay', a[2]], env=e).returncode
        if a[0] == 'list':
            for k in CHECKS: print(k)
            return 0
    except BuildError as e:
        print(f'ERROR: {e}'); return 2
    return 64
if __name__ == '__main__':
    sys.exit(main())
