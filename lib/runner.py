"""Runs the jobs of a check in worker processes under time and memory limits, and reports what the monitors saw.

A check is a module lib/checks/cXX.py with
  jobs(seed, tier)    -> list of JSON-able job descriptions
  run(job, mon)       -> executes the real code for one job, reporting to the monitor
  MUST_SEE            -> counters that have to be positive for the run to be conclusive
  RULE, ASSUMPTIONS   -> for the evidence file
"""
import faulthandler
import hashlib
import importlib
import json
import os
import random
import resource
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known_findings.txt')


class CaseTimeout(BaseException):
    pass


class Violation(Exception):
    pass


class Monitor:
    """What a job reports to: counts of observed events, distinct observed structures, and violations."""

    def __init__(self):
        self.counts = {}
        self.distinct = set()
        self.skips = {}
        self.violations = []
        self.maxima = {}

    def see(self, what, n=1):
        if n:
            self.counts[what] = self.counts.get(what, 0) + n

    def top(self, what, value):
        if value > self.maxima.get(what, float('-inf')):
            self.maxima[what] = value

    def shape(self, *key):
        """Record a distinct observed structure."""
        self.distinct.add(hashlib.sha1(repr(key).encode()).hexdigest()[:12])

    def skip(self, why):
        self.skips[why] = self.skips.get(why, 0) + 1

    def bad(self, msg):
        if len(self.violations) < 5:
            self.violations.append(str(msg)[:600])

    def check(self, cond, msg, *args):
        if not cond:
            self.bad(msg % args if args else msg)
        return cond


def load_known(prop):
    """Lines 'known: property=C01 job=<json> | <what fails>' and 'fixed: property=C01 <commit> <what failed>'."""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                body, what = line[len('known: property=%s ' % prop):].split(' | ', 1)
                assert body.startswith('job=')
                out.append((json.loads(body[4:]), what))
    return out


def _alarm(signum, frame):
    raise CaseTimeout()


def run_one(mod, job, mon, limit):
    """Run a job in this process; any exception of the code under test is a violation of its own."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    t = time.time()
    try:
        mod.run(job, mon)
    except CaseTimeout:
        mon.bad('did not finish within %d s' % limit)
    except MemoryError:
        mon.bad('ran out of memory')
    except RecursionError:
        mon.bad('RecursionError')
    except Violation as e:
        mon.bad(e)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inside = [f for f in tb if '/foronoi/' in f.filename]
        if inside:
            f = inside[-1]
            mon.bad('%s: %s raised in %s of %s%s' % (
                type(e).__name__, e, f.name, os.path.basename(f.filename),
                '' if f is tb[-1] else ' (%s:%s)' % (os.path.basename(tb[-1].filename), tb[-1].lineno)))
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exc()
        else:
            # what the code under test produced cannot even be examined
            f = tb[-1]
            mon.bad('the result cannot be examined: %s: %s (%s:%s)' % (
                type(e).__name__, e, os.path.basename(f.filename), f.lineno))
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exc()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return time.time() - t


def worker(mod, jobs, idx, path, limit, deadline, memory):
    resource.setrlimit(resource.RLIMIT_AS, (memory, memory))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    f = open(path, 'w')
    nviol = 0
    total = Monitor()
    done = 0
    skipped_late = 0
    slow = (0, None)
    for i, job in jobs:
        if nviol >= 3 or time.time() > deadline:
            skipped_late += 1
            continue
        f.write(json.dumps({'start': i}) + '\n')
        f.flush()
        mon = Monitor()
        t = run_one(mod, job, mon, job.get('limit', limit) if isinstance(job, dict) else limit)
        if t > slow[0]:
            slow = (t, job)
        for k, v in mon.counts.items():
            total.see(k, v)
        for k, v in mon.skips.items():
            total.skips[k] = total.skips.get(k, 0) + v
        for k, v in mon.maxima.items():
            total.top(k, v)
        total.distinct |= mon.distinct
        done += 1
        if mon.violations:
            nviol += 1 if 'known' not in job else 0
            f.write(json.dumps({'job': i, 'violations': mon.violations}) + '\n')
            f.flush()
    f.write(json.dumps({'end': True, 'counts': total.counts, 'skips': total.skips, 'maxima': total.maxima,
                        'distinct': sorted(total.distinct), 'done': done, 'late': skipped_late,
                        'slow': slow[0], 'slowjob': slow[1]}) + '\n')
    f.close()


def main(prop, tier, seed, replay=None, nproc=None):
    t0 = time.time()
    sys.path.insert(0, VERIF) if VERIF not in sys.path else None
    from lib import env
    mod = importlib.import_module('lib.checks.%s' % prop.lower())
    try:
        env.load()
        getattr(mod, 'setup', lambda: None)()
    except Exception as e:
        # the code under test cannot even be imported
        traceback.print_exc()
        print('ERROR property=%s cannot load the code under test: %s' % (prop, e))
        return 2
    sys.setrecursionlimit(1000)

    if replay:
        rep = json.load(open(replay))
        jobs = [rep['job']] if isinstance(rep, dict) and 'job' in rep else [rep]
        known = []
    else:
        jobs = list(mod.jobs(seed, tier))
        known = load_known(prop)
        for job, what in known:
            jobs.append(dict(job, known=what))
    limit = getattr(mod, 'LIMIT', 60) * (1 if tier == 'quick' else 3)
    budget = 600 if tier == 'quick' else 6 * 3600
    deadline = t0 + budget
    nproc = nproc or min(8, os.cpu_count() or 1, len(jobs))
    order = list(enumerate(jobs))
    # heavy jobs first, then round-robin, so that the shards are of similar length
    order.sort(key=lambda ij: -ij[1].get('weight', 1) if isinstance(ij[1], dict) else 0)
    tmp = tempfile.mkdtemp(prefix='verif-run-')
    pids = []
    sys.stdout.flush()
    for w in range(nproc):
        shard = order[w::nproc]
        path = os.path.join(tmp, str(w))
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                faulthandler.enable()
                worker(mod, shard, w, path, limit, deadline, 3 * 2 ** 30)
            except BaseException:
                traceback.print_exc()
                code = 3
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)
        pids.append((pid, path, shard))
    viols, total, broken, late, done, slow = {}, Monitor(), [], 0, 0, (0, None)
    for pid, path, shard in pids:
        hard = deadline + limit + 60
        while True:
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                break
            if time.time() > hard:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                break
            time.sleep(.02)
        last, ended = None, False
        for line in open(path) if os.path.exists(path) else []:
            try:
                r = json.loads(line)
            except ValueError:
                continue
            if 'start' in r:
                last = r['start']
            elif 'end' in r:
                ended = True
                for k, v in r['counts'].items():
                    total.see(k, v)
                for k, v in r['skips'].items():
                    total.skips[k] = total.skips.get(k, 0) + v
                for k, v in r['maxima'].items():
                    total.top(k, v)
                total.distinct |= set(r['distinct'])
                done += r['done']
                late += r['late']
                if r['slow'] > slow[0]:
                    slow = (r['slow'], r['slowjob'])
            elif 'job' in r:
                viols[r['job']] = r['violations']
        if not ended:
            broken.append(last)
            if last is not None and last not in viols:
                viols[last] = ['the process that created this diagram died']
    for f in os.listdir(tmp):
        os.unlink(os.path.join(tmp, f))
    os.rmdir(tmp)

    real = viols
    knownhit = {i: v for i, v in real.items() if 'known' in jobs[i]}
    new = {i: v for i, v in real.items() if i not in knownhit}

    if replay:
        for i, v in viols.items():
            for m in v:
                print(m)
        if real:
            print('VIOLATION property=%s replay=%s' % (prop, replay))
            return 1
        print('replay: no violation')
        return 0

    os.makedirs(EVID, exist_ok=True)
    rng = random.Random(seed)
    some = rng.sample(range(len(jobs)), min(3, len(jobs)))
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'exploration'),
        'coverage': {
            'evaluations': done,
            'distinct_nontrivial': len(total.distinct),
            'rule': mod.RULE,
            'samples': [getattr(mod, 'describe', lambda j: j)(jobs[i]) for i in some],
            'observed': dict(sorted(total.counts.items())),
            'maxima': dict(sorted(total.maxima.items())),
            'not_judged': dict(sorted(total.skips.items())),
            'jobs_not_started': late,
            'slowest_job_s': round(slow[0], 2),
            'known_findings_reproduced': len(knownhit),
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(new),
    }
    path = os.path.join(EVID, prop + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, default=str)
        f.write('\n')
    os.replace(path + '.tmp', path)

    print('%s %s seed=%s: %d jobs, %d distinct structures, %.1f s; %s' % (
        prop, tier, seed, done, len(total.distinct), time.time() - t0,
        ', '.join('%s=%s' % kv for kv in sorted(total.counts.items()))[:600]))
    if total.skips:
        print('  not judged: %s' % total.skips)
    for i in sorted(knownhit):
        print('KNOWN-FINDING: property=%s %s' % (prop, jobs[i]['known']))
    if new:
        for n, i in enumerate(sorted(new)):
            rp = os.path.join(EVID, '%s.replay.%d.json' % (prop, n))
            with open(rp, 'w') as f:
                json.dump({'property': prop, 'job': jobs[i], 'violations': new[i],
                           'case': getattr(mod, 'describe', lambda j: j)(jobs[i])}, f, indent=1, default=str)
            for m in new[i]:
                print('  %s' % m)
            print('VIOLATION property=%s replay=%s' % (prop, rp))
            if n >= 4:
                break
        return 1
    if late and done < len(jobs) / 2:
        print('INCONCLUSIVE property=%s only %d of %d jobs were started in time' % (prop, done, len(jobs)))
        return 3
    missing = [m for m in mod.MUST_SEE if not total.counts.get(m)]
    if missing:
        print('INCONCLUSIVE property=%s the monitors never saw: %s' % (prop, ', '.join(missing)))
        return 3
    return 0
