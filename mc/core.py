"""Shared machinery of all checks: exhaustive unit runner, evidence, violations.

A check module defines
    ID, LEVEL, RULE (text for the evidence file), ASSUMPTIONS (list)
    units(tier)      -> list of JSON-able units; together they are the bounded space
    run(unit, ctx)   -> explores one unit completely on the real code
and optionally NEEDS_SHIM = True (file-system call log / fault injection).
A unit may contain 'mode': 'c' (default) or 'py'.
"""
import collections
import hashlib
import json
import os
import pickle
import resource
import select
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CPU_LIMIT = 240          # seconds of CPU one unit may take before it counts as a hang
IDLE_LIMIT = 120         # one-second polls without any CPU progress


class Violation(Exception):
    def __init__(self, key, msg, detail=None):
        Exception.__init__(self, msg)
        self.key = key
        self.msg = msg
        self.detail = detail


class Ctx(object):
    def __init__(self, check_id, tier, known, workdir):
        self.id = check_id
        self.tier = tier
        self.known = known            # key -> description
        self.workdir = workdir
        self.counts = collections.Counter()
        self.samples = []
        self.known_hits = collections.Counter()
        self.outcomes = collections.Counter()
        self.trail = None             # what is being done, for the replay file
        self._n = 0

    def count(self, name, n=1):
        self.counts[name] += n

    def outcome(self, name):
        self.outcomes[str(name)] += 1

    def sample(self, x, limit=2):
        if len(self.samples) < limit:
            self.samples.append(x)

    def violation(self, msg, key=None, detail=None):
        """Report that the property is broken.  `key` identifies the specific
        input or history for the known-findings file."""
        if key is not None and key in self.known:
            self.known_hits[key] += 1
            return
        if os.environ.get('VERIF_ALL'):      # development aid: list every violation
            trail = ' # %.900r' % (self.trail,) if os.environ['VERIF_ALL'] == '2' else ''
            sys.stderr.write('ALL %s | %s%s\n' % (key, msg, trail))
            return
        raise Violation(key, msg, detail if detail is not None else self.trail)

    def check(self, cond, msg, *args, **kw):
        if not cond:
            self.violation(msg % args if args else msg, **kw)

    def eq(self, got, want, what, **kw):
        if got != want:
            self.violation('%s: got %s, expected %s' % (what, short(got), short(want)), **kw)

    def newdir(self):
        self._n += 1
        d = os.path.join(self.workdir, 'w%d_%d' % (os.getpid(), self._n))
        os.mkdir(d)
        return d

    def rmdir(self, d):
        assert d.startswith(self.workdir + '/')
        shutil.rmtree(d, ignore_errors=True)


def short(x, n=400):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


# ------------------------------------------------------------------ known findings

def load_known(check_id):
    """Lines of known-findings.txt:
         KNOWN property=<id> key=<key> <what fails>
         fixed: property=<id> <commit> <what failed>       (suppresses nothing)
    """
    known = {}
    path = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(path):
        for line in open(path):
            words = line.split(None, 3)
            if len(words) >= 3 and words[0] == 'KNOWN':
                if words[1] == 'property=' + check_id and words[2].startswith('key='):
                    known[words[2][4:]] = words[3].strip() if len(words) > 3 else ''
    return known


# ------------------------------------------------------------------ worker pool

def _worker(check, units, mode, so, ctx_args, rfd, wfd):
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    os.nice(5)
    from mc import boot
    boot_error = None
    try:
        boot.boot(mode, so)
        if hasattr(check, 'setup'):
            check.setup(mode)
    except BaseException:
        boot_error = traceback.format_exc()
    rf = os.fdopen(rfd, 'rb', 0)
    wf = os.fdopen(wfd, 'wb', 0)
    while True:
        data = rf.read(4)
        if len(data) < 4:
            os._exit(0)
        n = struct.unpack('<i', data)[0]
        ctx = Ctx(*ctx_args)
        viol = None
        if boot_error:
            viol = dict(key='import', msg='the code cannot be imported', detail=boot_error)
        else:
            try:
                check.run(units[n], ctx)
            except Violation as e:
                viol = dict(key=e.key, msg=e.msg, detail=e.detail,
                            where=traceback.format_exc(limit=-6))
            except BaseException as e:
                viol = dict(key=None, msg='unexpected %s: %s' % (type(e).__name__, short(e, 300)),
                            detail=ctx.trail, where=traceback.format_exc(limit=-12))
        out = pickle.dumps((n, dict(ctx.counts), ctx.samples, dict(ctx.known_hits),
                            dict(ctx.outcomes), viol))
        wf.write(struct.pack('<i', len(out)))
        i = 0
        while i < len(out):
            i += wf.write(out[i:i + 65536])


def end_with_parent():
    """in a forked child: it is killed when the process that forked it is gone"""
    import ctypes
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)


class Worker(object):
    def __init__(self, args, all_workers):
        cr, pw = os.pipe()
        pr, cw = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(pw)
                os.close(pr)
                for w in all_workers:
                    os.close(w.r)
                    os.close(w.w)
                _worker(*(args + (cr, cw)))
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(3)
        os.close(cr)
        os.close(cw)
        self.r, self.w = pr, pw
        self.buf = b''
        self.unit = None
        self.cpu0 = 0
        self.lastcpu = -1
        self.idle = 0

    def cpu(self):
        try:
            f = open('/proc/%d/stat' % self.pid).read().rsplit(')', 1)[1].split()
            return (int(f[11]) + int(f[12])) / float(os.sysconf('SC_CLK_TCK'))
        except (IOError, OSError):
            return 0.0

    def give(self, n):
        self.unit = n
        self.cpu0 = self.cpu()
        self.idle = 0
        try:
            os.write(self.w, struct.pack('<i', n))
        except BrokenPipeError:
            pass

    def kill(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.waitpid(self.pid, 0)
        except OSError:
            pass
        for fd in (self.r, self.w):
            try:
                os.close(fd)
            except OSError:
                pass


def run_group(check, units, indices, mode, so, ctx_args, nproc, on_result, cpu_limit):
    """Runs units[i] for i in indices; calls on_result(i, counts, samples, known,
    outcomes, violation); stops early when on_result returns True."""
    todo = collections.deque(indices)
    workers = []
    args = (check, units, mode, so, ctx_args)
    stop = False
    try:
        while len(workers) < min(nproc, len(todo)):
            workers.append(Worker(args, workers))
        for w in workers:
            w.give(todo.popleft())
        last_poll = time.monotonic()
        while workers and not stop:
            ready, _, _ = select.select([w.r for w in workers], [], [], 1.0)
            for w in list(workers):
                if w.r not in ready:
                    continue
                data = os.read(w.r, 1 << 16)
                if not data:
                    # died
                    pid, status = os.waitpid(w.pid, 0)
                    workers.remove(w)
                    for fd in (w.r, w.w):
                        os.close(fd)
                    if w.unit is None:
                        continue
                    if os.WIFSIGNALED(status):
                        sig = os.WTERMSIG(status)
                        if sig == signal.SIGKILL:
                            raise SystemExit('worker was killed from outside (memory?)')
                        stop = on_result(w.unit, {}, [], {}, {}, dict(
                            key='crash', msg='the interpreter crashed with signal %d' % sig,
                            detail=None))
                    else:
                        stop = on_result(w.unit, {}, [], {}, {}, dict(
                            key='exit', msg='the process exited with status %r' % status,
                            detail=None))
                    if not stop and todo:
                        nw = Worker(args, workers)
                        workers.append(nw)
                        nw.give(todo.popleft())
                    continue
                w.buf += data
                if len(w.buf) >= 4:
                    n = struct.unpack('<i', w.buf[:4])[0]
                    if len(w.buf) >= 4 + n:
                        res = pickle.loads(w.buf[4:4 + n])
                        w.buf = w.buf[4 + n:]
                        w.unit = None
                        stop = on_result(*res) or stop
                        if todo and not stop:
                            w.give(todo.popleft())
                        elif not todo:
                            os.close(w.w)
                            os.waitpid(w.pid, 0)
                            os.close(w.r)
                            workers.remove(w)
            now = time.monotonic()
            if now - last_poll >= 1.0:
                last_poll = now
                for w in list(workers):
                    if w.unit is None:
                        continue
                    c = w.cpu()
                    if c == w.lastcpu:
                        w.idle += 1
                    else:
                        w.idle = 0
                    w.lastcpu = c
                    why = None
                    if c - w.cpu0 > cpu_limit:
                        why = dict(key='hang', msg='no end after %d s of CPU time' % cpu_limit,
                                   detail=None)
                    elif w.idle > IDLE_LIMIT:
                        why = dict(key='blocked', msg='blocked without progress', detail=None)
                    if why:
                        unit = w.unit
                        w.kill()
                        workers.remove(w)
                        stop = on_result(unit, {}, [], {}, {}, why) or stop
                        if not stop and todo:
                            nw = Worker(args, workers)
                            workers.append(nw)
                            nw.give(todo.popleft())
    finally:
        for w in workers:
            w.kill()
    return not stop


# ------------------------------------------------------------------ entry point

def scratch_root():
    for base in ('/dev/shm', '/tmp'):
        if os.path.isdir(base) and os.access(base, os.W_OK):
            return tempfile.mkdtemp(prefix='durusmc.', dir=base)
    return tempfile.mkdtemp(prefix='durusmc.')


def main(check, argv):
    from mc import boot
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    replay = None
    nproc = int(os.environ.get('VERIF_PROCS', '0')) or os.cpu_count() or 8
    only = None
    args = list(argv)
    while args:
        a = args.pop(0)
        if a in ('quick', 'thorough'):
            tier = a
        elif a == '--replay':
            replay = args.pop(0)
        elif a == '--procs':
            nproc = int(args.pop(0))
        elif a == '--only':
            only = args.pop(0)
        else:
            sys.exit('unknown argument %r' % a)
    t0 = time.time()
    work = scratch_root()
    try:
        so = boot.build_ext(work)
        known = load_known(check.ID)
        if replay:
            rep = json.load(open(replay))
            units = [rep['unit']]
        else:
            units = check.units(tier)
        if only:
            units = [u for u in units if only in json.dumps(u)]
        order = list(range(len(units)))
        # The seed only changes the order in which the (complete) space is visited.
        order.sort(key=lambda i: (-units[i].get('cost', 0),
                                  hashlib.md5(b'%d:%d' % (seed, i)).digest()))
        total = collections.Counter()
        outcomes = collections.Counter()
        known_hits = collections.Counter()
        samples, violations, done = [], [], [0]

        def on_result(n, counts, smp, kh, oc, viol):
            done[0] += 1
            total.update(counts)
            outcomes.update(oc)
            known_hits.update(kh)
            if len(samples) < 4:
                samples.extend(smp[:1])
            if viol:
                if viol.get('key') is not None and viol['key'] in known:
                    known_hits[viol['key']] += 1
                    return False
                viol['unit'] = units[n]
                violations.append(viol)
                return True
            return False

        for mode in ('c', 'py'):
            idx = [i for i in order if units[i].get('mode', 'c') == mode]
            if idx and not violations:
                run_group(check, units, idx, mode, so, (check.ID, tier, known, work),
                          nproc, on_result, getattr(check, 'CPU_LIMIT', CPU_LIMIT) * (20 if tier == 'thorough' else 1))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    wall = time.time() - t0
    coverage = dict(total)
    coverage['units'] = done[0]
    coverage['units_total'] = len(units)
    coverage['exhaustive'] = bool(done[0] == len(units) and not violations and not only
                                  and not total.get('capped'))
    coverage['distinct_outcomes'] = len(outcomes)
    coverage['outcomes'] = dict(outcomes.most_common(12))
    coverage['rule'] = check.RULE
    coverage['samples'] = samples[:4] or ['none']
    coverage['known_findings_seen'] = dict(known_hits)
    if check.LEVEL == 'model_checking':
        for k in ('states', 'transitions', 'traces_validated_against_impl'):
            coverage.setdefault(k, 0)
    else:
        for k in ('evaluations', 'distinct_nontrivial'):
            coverage.setdefault(k, 0)
    ev = dict(property=check.ID, tier=tier, seed=seed, level=check.LEVEL,
              coverage=coverage, assumptions=list(getattr(check, 'ASSUMPTIONS', [])),
              wall_s=round(wall, 2), violations=len(violations))
    if not replay:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', check.ID + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True, default=repr)
    for k, n in sorted(known_hits.items()):
        print('KNOWN-FINDING: property=%s %s (%s, seen %d times)' % (check.ID, known[k], k, n))
    brief = {k: v for k, v in coverage.items() if isinstance(v, (int, bool))}
    print('%s %s %.1fs %s' % (check.ID, tier, wall, json.dumps(brief, sort_keys=True)))
    if violations:
        v = violations[0]
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        blob = json.dumps(dict(property=check.ID, unit=v['unit'], key=v.get('key'),
                               message=v['msg'], detail=v.get('detail'),
                               where=v.get('where'),
                               how='%s/check %s --replay <this file>' % (VERIF, check.ID)),
                          indent=1, default=repr)
        name = '%s-%s.json' % (check.ID, hashlib.md5(blob.encode()).hexdigest()[:10])
        path = os.path.join(VERIF, 'replays', name)
        with open(path, 'w') as f:
            f.write(blob)
        print(v['msg'])
        if v.get('detail') is not None:
            print('detail: %s' % short(v['detail'], 3000))
        if v.get('where'):
            print(v['where'])
        print('VIOLATION property=%s replay=%s' % (check.ID, path))
        sys.stdout.flush()
        return 1
    return 0
