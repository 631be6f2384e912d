"""Runs the simulated runs of one property, in parallel, and reports.

usage: check.py PROPERTY [--tier quick|thorough] [--runs N] [--wall S]
       check.py --replay FILE
       check.py --selftest [PROPERTY ...]
"""
import argparse
import collections
import json
import os
import shutil
import signal
import subprocess
import sys
import threading
import time

from dst import build, meta

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = int(os.environ.get('DST_PROCS', '0')) or max(2, min(8, os.cpu_count() or 4))
VARIANT = {'c': 'std', 'cdbg': 'nocache', 'py': None}


class Died(Exception):
    pass


class Worker(object):
    """A fork server process for one flavor and one hash secret."""
    def __init__(self, flavor, scratch, hashseed):
        self.flavor, self.hashseed, self.scratch = flavor, hashseed, scratch
        self.p = None
        self.n = 0

    def start(self):
        self.err = open(os.path.join(self.scratch, 'err-%d-%d' % (os.getpid(), id(self))), 'w+')
        self.p = subprocess.Popen([build.PY, '-m', 'dst.worker', self.flavor], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.err, cwd=HERE, env=build.env_for(self.flavor, self.scratch, self.hashseed))

    def ask(self, req):
        if self.p is None:
            self.start()
        self.n += 1
        try:
            self.p.stdin.write(json.dumps(req).encode() + b'\n')
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except (BrokenPipeError, OSError):
            line = b''
        if not line:
            self.stop()
            self.err.seek(0)
            raise Died('worker %s does not start:\n%s' % (self.flavor, self.err.read()[-3000:]))
        r = json.loads(line)
        if self.n % 200 == 0:
            self.err.seek(0)
            self.err.truncate()
        return r

    def stop(self):
        if self.p is not None:
            try:
                self.p.stdin.close()
                self.p.wait(5)
            except Exception:
                self.p.kill()
                self.p.wait()
            self.p = None


class Batch(object):
    def __init__(self, prop, tier, seed, scratch):
        self.prop, self.tier, self.seed, self.scratch = prop, tier, seed, scratch
        self.lock = threading.Lock()
        self.stop = threading.Event()
        self.runs = 0
        self.agg = collections.Counter()
        self.probes = collections.Counter()
        self.others = collections.Counter()
        self.known = collections.Counter()
        self.steps = 0
        self.ops = 0
        self.events = 0
        self.cpu = 0.0
        self.scheds = set()
        self.nontrivial = set()
        self.byflavor = collections.Counter()
        self.failures = []
        self.errors = []
        self.samples = []
        self.fatal = None

    def add(self, r, seed, flavor):
        with self.lock:
            self.runs += 1
            self.byflavor[flavor] += 1
            for k, v in r.get('stats', {}).items():
                self.agg[k] += v
            for k, v in r.get('probes', {}).items():
                self.probes[k] += v
            for k, v in r.get('others', {}).items():
                self.others[k] += v
            for k, v in r.get('known', {}).items():
                self.known[k] += v
            self.steps += r.get('steps', 0)
            self.ops += r.get('ops', 0)
            self.events += r.get('nlog', 0)
            self.cpu += r.get('cpu', 0)
            if 'log' in r:
                self.scheds.add(r['sched'])
                acts = sum(v for k, v in r['stats'].items() if k.startswith('switch') or k in meta.FAULT_KEYS)
                if acts:
                    self.nontrivial.add(r['log'][:16])
                if len(self.samples) < 3 and acts:
                    self.samples.append({'seed': seed, 'flavor': flavor, 'config': r.get('cfg'), 'operations': r['ops'],
                                         'first_operations': r.get('head'), 'decisions': r['decisions'][:6],
                                         'decisions_total': len(r['decisions']), 'event_log_sha256': r['log'][:16]})


def judge(r):
    """-> ('ok'|'violation'|'crash'|'hang'|'error', detail)"""
    if 'died' in r:
        if r.get('timeout'):
            return 'hang', {'tag': None, 'msg': 'the run does not finish', 'sig': 'hang'}
        return 'crash', {'tag': None, 'msg': 'the process died with signal %s' % r['died'], 'sig': 'crash'}
    if r.get('violations'):
        v = r['violations'][0]
        return 'violation', {'tag': v[0], 'msg': v[1], 'sig': v[2]}
    if r.get('error'):
        return 'error', {'msg': r['error'], 'sig': 'error', 'tag': None}
    return 'ok', None


def worker_loop(b, flavor, seeds, hashseeds, deadline):
    w = None
    n = 0
    try:
        for seed in seeds:
            if b.stop.is_set() or time.time() > deadline:
                break
            hs = hashseeds[n // 60 % len(hashseeds)]
            if w is None or w.hashseed != hs:
                if w is not None:
                    w.stop()
                w = Worker(flavor, b.scratch, hs)
            n += 1
            r = w.ask({'prop': b.prop, 'seed': seed, 'tier': b.tier, 'id': seed, 'known': meta.KNOWN_SIGS.get(b.prop, [])})
            kind, d = judge(r)
            if kind == 'hang':
                # slow, or does it really not end?  Only the latter is a finding.
                r = w.ask({'prop': b.prop, 'seed': seed, 'tier': b.tier, 'id': seed, 'known': meta.KNOWN_SIGS.get(b.prop, []), 'cpu': 120, 'wall': 200})
                kind, d = judge(r)
                with b.lock:
                    b.agg['slow_runs'] += 1
            b.add(r, seed, flavor)
            if kind != 'ok':
                with b.lock:
                    (b.errors if kind == 'error' else b.failures).append((seed, flavor, hs, kind, d, r))
                    if kind != 'error' or len(b.errors) > 5:
                        b.stop.set()
    except Died as e:
        b.fatal = str(e)
        b.stop.set()
    finally:
        if w is not None:
            w.stop()


# ---------------------------------------------------------------------- confirmation and minimisation
class Shrinker(object):
    def __init__(self, prop, flavor, hashseed, scratch, sig, plan, decisions, budget):
        self.args = (prop, flavor, hashseed, scratch)
        self.sig, self.plan, self.decisions = sig, plan, decisions
        self.pool = [Worker(flavor, scratch, hashseed) for _ in range(NPROC)]
        self.deadline = time.time() + budget
        self.tries = 0

    def run(self, plan, decisions, w=None, trace=False):
        req = {'plan': plan, 'trace': trace, 'known': meta.KNOWN_SIGS.get(self.args[0], [])}
        if decisions is not None:
            req['decisions'] = decisions
        r = (w or self.pool[0]).ask(req)
        self.tries += 1
        kind, d = judge(r)
        return kind, d, r

    def fails(self, plan, decisions, w=None):
        kind, d, r = self.run(plan, decisions, w)
        return kind in ('violation', 'crash', 'hang') and d['sig'] == self.sig

    def first(self, cands):
        """Index of the first failing candidate (tried in parallel), or None."""
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(len(self.pool)) as ex:
            for k in range(0, len(cands), len(self.pool)):
                if time.time() > self.deadline:
                    return None
                part = cands[k:k + len(self.pool)]
                res = list(ex.map(lambda a: self.fails(a[1][0], a[1][1], a[0]), zip(self.pool, part)))
                for i, ok in enumerate(res):
                    if ok:
                        return k + i
        return None

    def shrink(self):
        if self.plan['tasks']:
            flat = [(i, o) for i, t in enumerate(self.plan['tasks']) for o in t]
            flat = self.ddmin(flat, lambda fl: (self.rebuild(fl), self.decisions))
            self.plan = self.rebuild(flat)
        if self.decisions:
            self.decisions = self.ddmin(self.decisions, lambda ds: (self.plan, ds))

    def rebuild(self, flat):
        p = dict(self.plan)
        p['tasks'] = [[o for i, o in flat if i == k] for k in range(len(self.plan['tasks']))]
        return p

    def ddmin(self, items, mk):
        n = 2
        while len(items) >= 1 and time.time() < self.deadline:
            size = max(1, len(items) // n)
            cands = []
            for k in range(0, len(items), size):
                rest = items[:k] + items[k + size:]
                cands.append(rest)
            i = self.first([mk(c) for c in cands])
            if i is not None:
                items = cands[i]
                n = max(2, n - 1)
            elif size == 1:
                break
            else:
                n = min(len(items), n * 2)
        return items

    def close(self):
        for w in self.pool:
            w.stop()


def confirm(b, f, shrink_s):
    """Reproduce in fresh processes, minimise, write the replay file.  -> (path, detail) or None"""
    seed, flavor, hs, kind, d, r = f
    sig = d['sig']
    w = Worker(flavor, b.scratch, hs)
    try:
        req = {'prop': b.prop, 'seed': seed, 'tier': b.tier, 'want_plan': True, 'known': meta.KNOWN_SIGS.get(b.prop, [])}
        if kind == 'hang':
            req.update(cpu=120, wall=200)
        declog = None
        if kind in ('crash', 'hang'):
            declog = os.path.join(b.scratch, 'declog-%d' % seed)
            req['declog'] = declog
        for attempt in range(3 if kind == 'crash' else 1):
            r2 = w.ask(req)
            k2, d2 = judge(r2)
            if k2 in ('violation', 'crash', 'hang'):
                break
        if kind == 'crash' and k2 in ('violation', 'crash'):
            # memory corruption may show differently the second time
            kind, sig = k2, d2['sig']
        if k2 not in ('violation', 'crash', 'hang') or d2['sig'] != sig:
            # the same seed must give the same run
            return None, 'not reproduced in a fresh process: %s %s' % (k2, (d2 or {}).get('msg'))
        if k2 != 'violation':
            plan = w.ask({'prop': b.prop, 'seed': seed, 'tier': b.tier, 'plan_only': True})['plan']
            decisions = [json.loads(x) for x in open(declog)] if os.path.exists(declog) else []
            log = None
        else:
            plan, decisions, log = r2['plan'], r2['decisions'], r2['log']
    finally:
        w.stop()
    s = Shrinker(b.prop, flavor, hs, b.scratch, sig, plan, decisions, shrink_s)
    try:
        if kind != 'hang' and s.fails(plan, decisions):
            s.shrink()
            kf, df, rf = s.run(s.plan, s.decisions, trace=True)
            final = {'plan': s.plan, 'decisions': s.decisions}
        else:
            kf, df, rf = s.run(plan, None, trace=True)
            final = {'plan': plan, 'decisions': None}
    finally:
        s.close()
    if kf == 'ok':
        return None, 'minimised run does not fail'
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    path = os.path.join(HERE, 'replays', '%s-%d-%s.json' % (b.prop, seed, flavor))
    final.update(property=b.prop, seed=seed, tier=b.tier, flavor=flavor, hashseed=hs, kind=kf, violation=df,
                 event_log_sha256=rf.get('log'), trace=rf.get('trace', [])[-60:], shrink_runs=s.tries,
                 original={'operations': sum(len(t) for t in plan['tasks']), 'decisions': len(decisions)})
    with open(path, 'w') as fh:
        json.dump(final, fh, indent=1)
    return path, df


# ---------------------------------------------------------------------- commands
def prepare(flavors):
    scratch = build.scratch_dir()
    os.makedirs(os.path.join(scratch, 'empty'), exist_ok=True)
    vs = sorted(set(VARIANT[f] for f in flavors if VARIANT[f]))
    errs = []

    def one(v):
        try:
            build.build(scratch, v)
        except Exception as e:
            errs.append(e)
    ts = [threading.Thread(target=one, args=(v,)) for v in vs]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        shutil.rmtree(scratch, ignore_errors=True)
        raise errs[0]
    return scratch


def check(prop, tier, seed, runs=None, wall=None, verbose=False):
    t0 = time.time()
    flavors = meta.FLAVORS[prop]
    q = meta.BUDGET[prop]
    runs = runs or (q['quick_runs'] if tier == 'quick' else q['quick_runs'] * 25)
    wall = wall or (q.get('quick_wall', 150) if tier == 'quick' else 2400)
    scratch = prepare(flavors)
    b = Batch(prop, tier, seed, scratch)
    try:
        base = seed * 1000003
        lanes = []
        nl = len(flavors)
        width = max(1, NPROC // nl) if nl <= NPROC else 1
        # lanes: (flavor index, sub lane); the seeds of a lane are those the plan maps to its flavor
        allseeds = list(range(base, base + runs))
        per = collections.defaultdict(list)
        for s in allseeds:
            per[flavors[s % nl]].append(s)
        names = sorted(per)
        nlanes = {f: max(1, round(NPROC * len(per[f]) / len(allseeds))) for f in names}
        threads = []
        hashseeds = ['1'] if tier == 'quick' else ['1', '77', '4242', '9']
        for f in names:
            its = iter(per[f])
            lk = threading.Lock()

            def draw(its=its, lk=lk):
                while True:
                    with lk:
                        try:
                            x = next(its)
                        except StopIteration:
                            return
                    yield x
            for k in range(nlanes[f]):
                threads.append(threading.Thread(target=worker_loop, args=(b, f, draw(), hashseeds, t0 + wall)))
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        nviol = 0
        status = 0
        lines = []
        if b.fatal:
            # the library cannot even be imported or preloaded
            frames = [x for x in b.fatal.splitlines() if x.strip().startswith('File "')]
            if frames and '/pyrsistent/' in frames[-1]:
                # ordinary declarations and imports, which any client makes, fail inside the library
                os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
                path = os.path.join(HERE, 'replays', '%s-startup.json' % prop)
                with open(path, 'w') as fh:
                    json.dump({'property': prop, 'seed': seed, 'kind': 'startup', 'flavor': flavors[0], 'hashseed': '1', 'plan': None, 'decisions': None,
                               'violation': {'sig': 'startup', 'msg': b.fatal}}, fh, indent=1)
                print('%s: valid declarations are rejected\n%s' % (prop, b.fatal))
                evidence(b, tier, seed, time.time() - t0, 1, [])
                print('VIOLATION property=%s replay=%s' % (prop, path))
                return 1
            print('HARNESS-ERROR property=%s %s' % (prop, b.fatal))
            return 2
        if b.failures:
            b.failures.sort(key=lambda f: (f[3] != 'violation', f[0]))
            for f in b.failures[:4]:
                path, d = confirm(b, f, 25 if tier == 'quick' else 90)
                if path:
                    nviol = len(b.failures)
                    lines.append('%s: %s' % (prop, d['msg']))
                    lines.append('VIOLATION property=%s replay=%s' % (prop, path))
                    status = 1
                    break
                lines.append('UNCONFIRMED property=%s seed=%d %s' % (prop, f[0], d))
            else:
                status = 2
        elif b.errors:
            seed_, flavor, hs, kind, d, r = b.errors[0]
            lines.append('HARNESS-ERROR property=%s seed=%d flavor=%s\n%s' % (prop, seed_, flavor, d['msg']))
            status = 2
        missing = [k for k in meta.KNOWN_SIGS.get(prop, []) if not b.known.get(k)]
        for k in meta.KNOWN_SIGS.get(prop, []):
            if b.known.get(k):
                lines.append('KNOWN-FINDING: property=%s %s' % (prop, meta.KNOWN_TEXT[k]))
        evidence(b, tier, seed, time.time() - t0, nviol, missing)
        for x in lines:
            print(x)
        dt = time.time() - t0
        print('%s %s: %d runs, %d operations, %d decisions points, %.1fs%s' % (
            prop, {0: 'held', 1: 'VIOLATED', 2: 'ERROR'}[status], b.runs, b.ops, b.events, dt,
            ' others=%s' % dict(b.others) if b.others and verbose else ''))
        return status
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def evidence(b, tier, seed, wall, nviol, missing):
    p = meta.PROPS[b.prop]
    faults = {k: v for k, v in sorted(b.agg.items()) if k in meta.FAULT_KEYS or k.split('.')[0] in meta.FAULT_KEYS}
    ev = {
        'property': b.prop, 'tier': tier, 'seed': seed, 'level': p['level'], 'wall_s': round(wall, 2), 'violations': nviol,
        'coverage': {
            'evaluations': b.runs, 'distinct_nontrivial': len(b.nontrivial),
            'rule': 'one evaluation is one simulated run (a seed decides plan, schedule and faults); two runs are distinct if their '
                    'event logs differ, and a run is non-trivial if at least one task switch, garbage collection or fault was '
                    'injected into it',
            'samples': b.samples,
            'runs_per_hour': int(b.runs / max(wall, 0.01) * 3600),
            'seeds_per_hour': int(b.runs / max(wall, 0.01) * 3600),
            'simulated_time': 'no component reads a clock; progress is counted in steps',
            'simulated_steps_library_instructions': b.steps,
            'operations': b.ops, 'logged_events': b.events,
            'faults_injected': faults,
            'schedule_actions': {k: v for k, v in sorted(b.agg.items()) if k.startswith('switch') or k == 'gc'},
            'distinct_interleavings': len(b.scheds),
            'interleaving_measure': 'sha256 over the sequence of (task, yield point, action) of a run',
            'probes': dict(sorted(b.probes.items())),
            'other_counts': {k: v for k, v in sorted(b.agg.items()) if k not in faults and not k.startswith('switch') and k != 'gc'},
            'runs_by_implementation': dict(b.byflavor),
            'components_real': p['real'], 'components_stub': p['stub'],
            'foreign_property_hits': dict(b.others),
            'known_findings_seen': dict(b.known), 'known_findings_not_seen': missing,
        },
        'assumptions': p['assumptions'],
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', b.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


def replay(path):
    rp = json.load(open(path))
    scratch = prepare([rp['flavor']])
    w = Worker(rp['flavor'], scratch, rp['hashseed'])
    try:
        if rp['kind'] == 'startup':
            try:
                w.ask({'prop': rp['property'], 'seed': 1, 'tier': 'quick', 'plan_only': True})
            except Died as e:
                print(e)
                print('VIOLATION property=%s replay=%s' % (rp['property'], path))
                return 1
            print('the recorded run does not fail on this tree')
            return 0
        req = {'plan': rp['plan'], 'trace': True, 'known': meta.KNOWN_SIGS.get(rp['property'], [])}
        if rp['decisions'] is not None:
            req['decisions'] = rp['decisions']
        r = w.ask(req)
    finally:
        w.stop()
        shutil.rmtree(scratch, ignore_errors=True)
    kind, d = judge(r)
    for x in r.get('trace', []):
        print('  ', x)
    if kind == 'ok':
        print('the recorded run does not fail on this tree')
        return 0
    print(d['msg'])
    same = d['sig'] == rp['violation']['sig'] and (rp['event_log_sha256'] is None or r.get('log') == rp['event_log_sha256'])
    print('identical to the recorded run' if same else 'differs from the recorded run')
    if kind == 'error':
        return 2
    print('VIOLATION property=%s replay=%s' % (rp['property'], path))
    return 1


def selftest(props, n=60):
    """Determinism: the same seed gives the same event log, in other processes, at other positions of a worker's
    life, recorded-decision replay included."""
    bad = 0
    for prop in props:
        flavors = meta.FLAVORS[prop]
        scratch = prepare(flavors)
        try:
            base = int(os.environ.get('VERIF_SEED', '1')) * 1000003
            logs = {}
            for rnd in range(3):
                ws = {}
                seeds = list(range(base, base + n))
                if rnd == 1:
                    seeds.reverse()
                for s in seeds:
                    f = flavors[s % len(flavors)]
                    if f not in ws:
                        ws[f] = Worker(f, scratch, '1')
                    if rnd < 2:
                        r = ws[f].ask({'prop': prop, 'seed': s, 'tier': 'quick', 'want_plan': True})
                    else:
                        r = ws[f].ask({'plan': logs[s][1], 'decisions': logs[s][2]})
                    key = r.get('log'), r.get('steps')
                    if s not in logs:
                        logs[s] = (key, r.get('plan'), r.get('decisions'))
                    elif logs[s][0] != key:
                        print('%s seed %d round %d: %s != %s %s' % (prop, s, rnd, logs[s][0], key, r.get('error')))
                        bad += 1
                for w in ws.values():
                    w.stop()
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        print('%s: %d seeds run three times (two orders, and from their recorded decisions), %d divergences so far' % (prop, n, bad))
    return 1 if bad else 0


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='*')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--wall', type=float)
    ap.add_argument('--replay')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    if a.replay:
        return replay(a.replay)
    if a.selftest:
        return selftest(a.prop or sorted(meta.FLAVORS))
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    st = 0
    for p in a.prop:
        st = max(st, check(p, a.tier, seed, a.runs, a.wall, a.v))
    return st
