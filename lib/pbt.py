"""Property-based testing engine for the checks written in Python; the counterpart of pbt.h.

Every random decision goes through Ctx.draw() and is recorded; the recorded sequence is what gets
shrunk and saved as a replay file.  Cases run in forked children, so crashes and endless loops of
the code under test are observations.  usage: see main()."""
import os, sys, mmap, struct, time, json, signal, argparse, random, hashlib, shutil, tempfile, traceback, gc
MAXC = 1 << 16
class Failure(Exception): pass
class Discard(Exception): pass

class Ctx:
    def __init__(self, shm, seed=None, rep=None, scratch=None, verbose=False):
        self.shm, self.rep, self.pos, self.n = shm, rep, 0, 0
        self.rng = random.Random(seed); self.scratch = scratch; self.verbose = verbose
        self.labels, self.desc, self.nt = {}, [], None
        struct.pack_into('<Q', shm, 8, 0)
    def draw(self, n):
        if n <= 1: return 0
        if self.rep is not None:
            v = min(self.rep[self.pos], n - 1) if self.pos < len(self.rep) else 0
            self.pos += 1
        else: v = int(self.rng.random() * n) if n < 2**40 else self.rng.randrange(n)
        if self.n >= MAXC: raise Discard('too many choices')
        struct.pack_into('<Q', self.shm, 16 + 8 * self.n, v); self.n += 1
        struct.pack_into('<Q', self.shm, 8, self.n)
        return v
    def range(self, lo, hi): return lo + self.draw(hi - lo + 1)
    def chance(self, num, den): return self.draw(den) >= den - num     # shrinks towards False
    def pick(self, seq): return seq[self.draw(len(seq))]
    def weighted(self, ws):
        r = self.draw(sum(ws))
        for i, w in enumerate(ws):
            if r < w: return i
            r -= w
    def label(self, l): self.labels[l] = self.labels.get(l, 0) + 1
    def nontrivial(self, content): self.nt = hashlib.sha1(repr(content).encode()).digest()[:8]
    def note(self, s):
        if sum(map(len, self.desc)) < 600: self.desc.append(s)
        if self.verbose: print('  |', s, file=sys.stderr, flush=True)
    def path(self, n): return self.scratch + '/' + n
    def check(self, cond, msg, *a):
        if not cond: raise Failure(msg % a if a else msg)

class Stats:
    def __init__(self): self.ev = self.disc = 0; self.labels = {}; self.hashes = set(); self.samples = []
    def add(self, c):
        self.ev += 1
        for k, v in c.labels.items(): self.labels[k] = self.labels.get(k, 0) + v
        if c.nt is None: self.labels['trivial'] = self.labels.get('trivial', 0) + 1
        elif c.nt not in self.hashes:
            self.hashes.add(c.nt)
            if len(self.samples) < 8: self.samples.append('; '.join(c.desc)[:400])

def choices(shm):
    n = struct.unpack_from('<Q', shm, 8)[0]
    return list(struct.unpack_from('<%dQ' % n, shm, 16))

def run_case(prop, c):
    """None, or ('discard'|'fail', message)"""
    try: prop(c); return None
    except Discard as e: return ('discard', str(e))
    except Failure as e: return ('fail', str(e))
    except Exception: return ('fail', 'the harness or the library raised:\n' + traceback.format_exc()[-1500:])

def child(f, shm, limit):
    """runs f in a forked child; returns (ok, message) with what it wrote to its error stream on a crash"""
    err = tempfile.TemporaryFile()
    pid = os.fork()
    if pid == 0:
        os.dup2(err.fileno(), 2); devnull = os.open('/dev/null', os.O_WRONLY); os.dup2(devnull, 1)
        try: f()
        except BaseException: traceback.print_exc(); sys.stderr.flush(); os._exit(99)
        os._exit(0)
    t0 = time.time(); last = None; tl = t0
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p: break
        cur = bytes(shm[0:16])
        if cur != last: last = cur; tl = time.time()
        if time.time() - tl > limit:
            os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0); return False, 'hangs: no progress for %d s' % limit
        time.sleep(0.002)
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0: return True, ''
    err.seek(0); e = err.read().decode('utf8', 'replace')
    keep = [l[:300] for l in e.splitlines() if any(x in l for x in ('ERROR: AddressSanitizer', 'Assertion', 'terminate called', 'what():', 'Fatal', 'Error', '    #'))][:12]
    what = 'dies of signal %d' % os.WTERMSIG(st) if os.WIFSIGNALED(st) else 'ends with status %d' % os.WEXITSTATUS(st)
    return False, what + '\n' + '\n'.join(keep)

def one(prop, shm, rep, scratch, limit=60, verbose=False):
    """outcome of one recorded case in a child: (failed, message, choices used)"""
    res = tempfile.TemporaryFile()
    def f():
        if verbose: os.dup2(saved, 2)
        c = Ctx(shm, rep=rep, scratch=scratch, verbose=verbose); r = run_case(prop, c); res.write(json.dumps(r).encode()); res.flush()
    saved = os.dup(2)
    for n in os.listdir(scratch): rm(scratch + '/' + n)
    ok, msg = child(f, shm, limit); os.close(saved)
    if not ok: return True, msg, choices(shm)
    res.seek(0); r = json.loads(res.read() or b'null')
    if r and r[0] == 'fail': return True, r[1], choices(shm)
    return False, '', choices(shm)

def rm(p): shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)

def shrink(prop, shm, ch, msg, scratch, budget=60):
    t0 = time.time(); best = ch
    def attempt(c):
        nonlocal best, msg
        if time.time() - t0 > budget: return False
        bad, m, used = one(prop, shm, c, scratch, 20)
        if bad and (len(used), used) < (len(best), best): best, msg = used, m; return True
        return False
    progress = True
    while progress and time.time() - t0 < budget:
        progress = False
        k = max(1, len(best) // 2)
        while k >= 1:
            i = len(best) - k
            while i >= 0:
                if attempt(best[:i] + best[i + k:]): progress = True
                i = min(i - k, len(best) - k) if k > 1 else min(i - 1, len(best) - 1)
            k //= 2
        i = 0
        while i < len(best):
            v = best[i]
            for w in (0, v // 2, v - 1):
                if 0 <= w < best[i] and attempt(best[:i] + [w] + best[i + 1:]): progress = True; break
            i += 1
    return best, msg

def main(rule, prop):
    ap = argparse.ArgumentParser()
    for n, d in (('seed', 1), ('job', 0), ('jobs', 1), ('cases', 100), ('time', 30)): ap.add_argument('--' + n, type=int, default=d)
    ap.add_argument('--out'); ap.add_argument('--scratch'); ap.add_argument('--replay'); ap.add_argument('--replaydir', default='/tmp'); ap.add_argument('--id', default='X'); ap.add_argument('--stop')
    a = ap.parse_args()
    own = a.scratch is None; scratch = a.scratch or tempfile.mkdtemp(prefix='verif-py-')
    os.makedirs(scratch, exist_ok=True)
    shm = mmap.mmap(-1, 16 + 8 * MAXC)
    try:
        if a.replay:
            text = [x for l in open(a.replay) if not l.startswith('#') for x in l.split()]
            if text[:1] == ['history']:
                bad, msg = history(prop, shm, scratch, *map(int, text[1:])); print(msg if bad else 'no violation'); return 1 if bad else 0
            rep = [int(x) for x in text]
            bad, msg, _ = one(prop, shm, rep, scratch, verbose=True)
            print(msg if bad else 'no violation'); return 1 if bad else 0
        return search(a, rule, prop, shm, scratch)
    finally:
        if own: shutil.rmtree(scratch, ignore_errors=True)

def history(prop, shm, scratch, seed, first, last, step):
    """the cases first, first+step ... last one after the other in one process: (failed, message)"""
    res = tempfile.TemporaryFile()
    def f():
        for k in range(first, last + 1, step):
            struct.pack_into('<Q', shm, 0, k)
            for n in os.listdir(scratch): rm(scratch + '/' + n)
            r = run_case(prop, Ctx(shm, seed=(seed << 32) + k, scratch=scratch))
            if r and r[0] == 'fail': res.write(('case %d of the history: %s' % (k, r[1])).encode()); res.flush(); return
    ok, msg = child(f, shm, 60); res.seek(0); m = res.read().decode()
    return (True, msg) if not ok else (bool(m), m)

def search(a, rule, prop, shm, scratch):
    st = Stats(); t0 = time.time(); case = a.job; found = None
    while case < a.cases and time.time() - t0 < a.time and not (a.stop and os.path.exists(a.stop)):
        res = tempfile.TemporaryFile(); first = case
        for n in os.listdir(scratch): rm(scratch + '/' + n)
        def batch():
            b = Stats(); k = first; bad = None
            while k < a.cases and k < first + 200 * a.jobs and time.time() - t0 < a.time:
                struct.pack_into('<Q', shm, 0, k)
                for n in os.listdir(scratch): rm(scratch + '/' + n)
                c = Ctx(shm, seed=(a.seed << 32) + k, scratch=scratch); r = run_case(prop, c)
                if r and r[0] == 'fail': bad = (k, r[1]); break
                if r: b.disc += 1; b.ev += 1
                else: b.add(c)
                k += a.jobs
            import pickle; res.write(pickle.dumps((b, k, bad))); res.flush()
        ok, msg = child(batch, shm, 60)
        if ok:
            import pickle; res.seek(0); b, case, bad = pickle.loads(res.read())
            st.ev += b.ev; st.disc += b.disc; st.hashes |= b.hashes
            for k, v in b.labels.items(): st.labels[k] = st.labels.get(k, 0) + v
            st.samples = (st.samples + b.samples)[:8]
            if bad: found = (bad[1], choices(shm), bad[0])
        else: found = (msg, choices(shm), struct.unpack_from('<Q', shm, 0)[0])
        if found: break
    rc = 0
    if found:
        msg, ch, case = found
        bad, m, used = one(prop, shm, ch, scratch)
        if not bad:
            bad, m = history(prop, shm, scratch, a.seed, first, case, a.jobs)
            if not bad: print('failed once, not again: ' + msg); rc = 3
            else:
                if a.stop: open(a.stop, 'w').close()
                rp = '%s/%s-seed%d-case%d.replay' % (a.replaydir, a.id, a.seed, case)
                with open(rp, 'w') as f: f.write('# property %s\n' % a.id + ''.join('# %s\n' % l for l in m.splitlines()) + 'history %d %d %d %d\n' % (a.seed, first, case, a.jobs))
                print(m); print('FOUND replay=' + rp); rc = 1
        else:
            if a.stop: open(a.stop, 'w').close()
            best, m = shrink(prop, shm, used, m, scratch)
            rp = '%s/%s-seed%d-case%d.replay' % (a.replaydir, a.id, a.seed, case)
            with open(rp, 'w') as f:
                f.write('# property %s\n' % a.id + ''.join('# %s\n' % l for l in m.splitlines()) + ' '.join(map(str, best)) + '\n')
            print(m); print('FOUND replay=' + rp); rc = 1
    if a.out:
        with open(a.out, 'w') as f:
            json.dump(dict(evaluations=st.ev, distinct_nontrivial=len(st.hashes), hashes=[h.hex() for h in st.hashes], rule=rule, labels=st.labels, samples=st.samples, discarded=st.disc, resource_skips=0, wall=time.time() - t0), f)
    return rc
