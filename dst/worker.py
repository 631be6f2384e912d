"""One worker process per implementation flavor: preloads the library, forks one child per run."""
import faulthandler
import gc
import json
import os
import resource
import select
import signal
import sys
import time


def load(flavor):
    from dst import lib, sim, ops_seq
    lib.check_flavor(flavor, os.environ['DST_SCRATCH'], os.environ.get('DST_REPO', '/repo'))
    ops_seq.LIB = lib
    from dst import scen, special       # noqa
    special.load()
    sim.collect_codes()
    return lib


def execute(plan, lib, decisions=None, trace=False, known=(), declog=None):
    """Run one plan in this process; returns a JSON-able result."""
    from dst import sim as S, scen
    cfg = dict(plan['cfg'])
    if trace:
        cfg['trace'] = 1
    cfg['known'] = known
    s = S.Sim(plan['seed'], cfg, decisions)
    s.declog = declog and os.open(declog, os.O_WRONLY | os.O_CREAT | os.O_TRUNC | os.O_APPEND, 0o600)
    sys.unraisablehook = lambda u: s.unraisable(u)
    S.CURRENT = s
    t0 = time.process_time()
    if plan['scen'] == 'world':
        scen.run_world(plan, s, lib)
    else:
        from dst import special
        special.RUN[plan['scen']](plan, s, lib)
    res = {'violations': s.violations, 'decisions': s.decisions, 'log': s.log.hexdigest(), 'nlog': s.nlog,
           'sched': s.sched.hexdigest()[:16], 'steps': s.steps, 'stats': s.stats, 'probes': s.probes, 'others': s.others, 'known': s.known,
           'error': s.harness_error, 'cpu': time.process_time() - t0, 'ops': sum(len(t) for t in plan['tasks'])}
    if s.trace is not None:
        res['trace'] = s.trace[-400:]
    return res


def child(req, lib, wfd):
    faulthandler.enable(file=sys.stderr)
    cpu = req.get('cpu', 20)
    resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 1))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    gc.collect()
    try:
        if 'plan' in req:
            plan = req['plan']
        else:
            from dst import scen
            # as it comes from a replay file: which strings are one object is part of an execution
            plan = json.loads(json.dumps(scen.make_plan(req['prop'], req['seed'], req['tier'])))
        if req.get('plan_only'):
            res = {'plan': plan}
        else:
            res = execute(plan, lib, req.get('decisions'), req.get('trace'), req.get('known', ()), req.get('declog'))
            res['head'] = ['%s %s' % (o.get('o'), json.dumps(o.get('a'))[:80]) for t in plan['tasks'] for o in t[:2]][:4]
        res['cfg'] = {k: plan['cfg'].get(k) for k in ('mix', 'hash', 'instr')}
        if req.get('want_plan') or res.get('violations') or res.get('error'):
            res['plan'] = plan
    except BaseException as e:
        import traceback
        res = {'error': ''.join(traceback.format_exception(e))[-3000:], 'violations': []}
    data = json.dumps(res).encode()
    while data:
        data = data[os.write(wfd, data):]
    os._exit(0)


def serve(flavor):
    lib = load(flavor)
    gc.collect()
    gc.freeze()
    gc.disable()
    out = os.fdopen(os.dup(1), 'wb', 0)
    # the library must not be able to write into the protocol stream
    os.dup2(2, 1)
    for line in sys.stdin.buffer:
        req = json.loads(line)
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(rfd)
            child(req, lib, wfd)
            os._exit(0)
        os.close(wfd)
        chunks = []
        deadline = time.time() + req.get('wall', 60)
        timed_out = False
        while True:
            left = deadline - time.time()
            if left <= 0:
                timed_out = True
                os.kill(pid, signal.SIGKILL)
                break
            r, _, _ = select.select([rfd], [], [], left)
            if r:
                b = os.read(rfd, 1 << 16)
                if not b:
                    break
                chunks.append(b)
        os.close(rfd)
        _, st = os.waitpid(pid, 0)
        data = b''.join(chunks)
        if os.WIFSIGNALED(st) or not data:
            sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0
            res = {'died': sig, 'timeout': bool(timed_out or sig == signal.SIGXCPU), 'exit': st, 'violations': [], 'error': None}
        else:
            res = json.loads(data)
        res['id'] = req.get('id')
        out.write(json.dumps(res).encode() + b'\n')


def same_addresses():
    """No address space randomisation, where this is allowed: object addresses become a function of the run."""
    if os.environ.get('DST_NOASLR'):
        return
    try:
        import ctypes
        libc = ctypes.CDLL(None)
        cur = libc.personality(0xffffffff)
        if cur != -1 and not cur & 0x40000 and libc.personality(cur | 0x40000) != -1:
            os.environ['DST_NOASLR'] = '1'
            os.execv(sys.executable, [sys.executable, '-m', 'dst.worker'] + sys.argv[1:])
    except Exception:
        pass


if __name__ == '__main__':
    same_addresses()
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    serve(sys.argv[1])
