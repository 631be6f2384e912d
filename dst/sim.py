"""Deterministic simulator: seeded scheduling of real threads, fault injection, event log.

One Sim object is one run.  Every simulated task is a real thread, but exactly one of them is ever
runnable: control is handed over through per-task locks, and only at yield points, where the
decision (switch / collect garbage / fail / interrupt / go on) comes either from the run's PRNG
(exploration; each decision taken is recorded) or from a recorded decision table (replay).

Yield points
  'i'  every bytecode instruction of library code (sys.monitoring INSTRUCTION events)
  'c'  every call from the library into user code (hash, eq, iteration, functions, invariants ...)
  'b'  every operation boundary
A decision is identified by (operation id, yield kind, running count of that kind in the operation).
"""
import gc
import hashlib
import json
import os
import random
import sys
import threading
import traceback

TOOL = 3
CURRENT = None          # the Sim of this process


class SimFault(Exception):
    """Raised by injected failures of user code."""


class SimKeyError(SimFault, KeyError):
    pass


class SimValueError(SimFault, ValueError):
    pass


class SimTypeError(SimFault, TypeError):
    pass


class SimIndexError(SimFault, IndexError):
    pass


class SimAttributeError(SimFault, AttributeError):
    pass


FAULTS = {'flt': SimFault, 'fltK': SimKeyError, 'fltV': SimValueError, 'fltT': SimTypeError, 'fltI': SimIndexError, 'fltA': SimAttributeError}


class SimInterrupt(BaseException):
    """Asynchronous interrupt (like KeyboardInterrupt) injected between two instructions."""


class SimHang(BaseException):
    """Step budget exceeded: the library does not terminate."""


class SimStop(BaseException):
    """The run is over (violation found); unwinds the tasks."""


class Violation(Exception):
    def __init__(self, tag, msg, sig=None):
        Exception.__init__(self, '%s: %s' % (tag, msg))
        self.tag, self.msg, self.sig = tag, msg, sig or tag


def cb(kind):
    """A call from library code into user code: yield point of kind 'c'."""
    s = CURRENT
    if s is not None and not s.quiet:
        s.callback_point(kind)


class quiet(object):
    """Harness code calling library or user code: no yield points, no faults."""
    def __enter__(self):
        s = CURRENT
        self.old = s.quiet
        s.quiet = True

    def __exit__(self, *a):
        CURRENT.quiet = self.old
        return False


class Task(object):
    def __init__(self, idx, fn):
        self.idx = idx
        self.fn = fn
        self.lock = threading.Lock()
        self.lock.acquire()
        self.done = False
        self.op = None
        self.ic = self.cc = 0
        self.next_i = 0
        self.pend_i = None
        self.fault = None       # exception object injected into the current operation
        self.faultable = False
        self.interruptible = False
        self.exc = None
        self.state = {}


class Sim(object):
    def __init__(self, seed, cfg, decisions=None, budget=3000000):
        self.cfg = cfg
        self.seed = seed
        self.rng = random.Random('sched-%s' % (seed,))
        self.replay = None
        if decisions is not None:
            self.replay = {}
            for op, kind, n, act in decisions:
                self.replay.setdefault((op, kind), {})[n] = act
        self.decisions = []
        self.quiet = True
        self.tasks = []
        self.cur = None
        self.budget = budget
        self.steps = 0
        self.log = hashlib.sha256()
        self.nlog = 0
        self.sched = hashlib.sha256()
        self.stats = {}
        self.probes = {}
        self.violations = []
        self.others = {}
        self.known = {}
        self.declog = None
        self.stopping = False
        self.harness_error = None
        self.main = threading.Lock()
        self.main.acquire()
        self.instr = bool(cfg.get('instr'))
        self.p_cb_switch = cfg.get('cb_switch', 0.0)
        self.p_cb_fault = cfg.get('cb_fault', 0.0)
        self.p_cb_gc = cfg.get('cb_gc', 0.0)
        self.p_i_int = cfg.get('i_int', 0.0)
        self.p_i_gc = cfg.get('i_gc', 0.0)
        self.i_gap = cfg.get('i_gap', 50)
        self.p_b_switch = cfg.get('b_switch', 0.5)
        self.p_b_gc = cfg.get('b_gc', 0.0)
        self.max_faults = cfg.get('max_faults', 6)
        self.flts = cfg.get('flts')
        self.nfaults = 0
        self.trace = [] if cfg.get('trace') else None

    # ------------------------------------------------------------------ bookkeeping
    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def probe(self, k):
        self.probes[k] = self.probes.get(k, 0) + 1

    def event(self, *a):
        s = repr(a)
        self.log.update(s.encode())
        self.nlog += 1
        if self.trace is not None:
            self.trace.append(s)

    def unraisable(self, u):
        if not isinstance(u.exc_value, (SimStop, SimHang)):
            self.stat('unraisable')

    def violate(self, tag, msg, sig=None):
        if sig in self.cfg.get('known', ()):
            self.known[sig] = self.known.get(sig, 0) + 1
            return
        if tag in self.cfg['tags']:
            self.violations.append((tag, str(msg)[:600], sig or tag))
            self.event('violation', tag, sig)
            self.stopping = True
            raise SimStop()
        self.others[tag] = self.others.get(tag, 0) + 1
        self.event('other', tag)

    # ------------------------------------------------------------------ operations
    def begin_op(self, task, opid, faultable=False, interruptible=False):
        task.op = opid
        task.ic = task.cc = 0
        task.fault = None
        task.faultable = faultable
        task.interruptible = interruptible
        if self.replay is None:
            task.pend_i = None
            task.next_i = self._gap() if self.instr else 0
        else:
            d = self.replay.get((opid, 'i'))
            task.pend_i = sorted(d) if d else []
            task.next_i = task.pend_i.pop(0) if task.pend_i else 0
        self.quiet = False

    def end_op(self, task):
        self.quiet = True
        self.steps += task.ic
        task.op = None
        if self.stopping:
            raise SimStop()

    def _gap(self):
        g = self.i_gap
        # mix of short and long gaps, so that preemptions cluster as well as spread
        r = self.rng.random()
        if r < 0.2:
            return 1 + int(self.rng.random() * 4)
        return 1 + int(self.rng.expovariate(1.0 / g))

    # ------------------------------------------------------------------ yield points
    def on_instr(self, code, off):
        if self.quiet:
            return
        t = self.cur
        t.ic += 1
        if t.ic != t.next_i:
            if t.ic > self.budget:
                self.stopping = True
                self.violations.append((self.cfg['tags'][0], 'no progress: more than %d library instructions in one '
                                        'operation' % self.budget, 'hang'))
                raise SimHang()
            return
        act = self._instr_decide(t, code)
        if act is not None:
            self._do(t, 'i', t.ic, act, code.co_name)

    def _instr_decide(self, t, code):
        if self.replay is not None:
            act = self.replay[(t.op, 'i')].get(t.ic)
            t.next_i = t.pend_i.pop(0) if t.pend_i else 0
            return act
        t.next_i = t.ic + self._gap()
        r = self.rng.random()
        if r < self.p_i_int:
            # not inside generators: these also run while being finalised, where nothing can surface
            if t.interruptible and t.fault is None and self.nfaults < self.max_faults and not code.co_flags & 0x20:
                return 'int'
            return None
        r -= self.p_i_int
        if r < self.p_i_gc:
            return 'gc'
        n = self._others(t)
        if n:
            return 'sw%d' % self.rng.randrange(n)
        return None

    def callback_point(self, kind):
        t = self.cur
        t.cc += 1
        if t.cc > self.budget:
            self.stopping = True
            self.violations.append((self.cfg['tags'][0], 'no progress: more than %d callbacks in one operation'
                                    % self.budget, 'hang'))
            raise SimHang()
        if self.replay is not None:
            d = self.replay.get((t.op, 'c'))
            act = d.get(t.cc) if d else None
        else:
            act = None
            r = self.rng.random()
            if r < self.p_cb_fault:
                if t.faultable and t.fault is None and self.nfaults < self.max_faults:
                    act = self.rng.choice(self.flts) if self.flts else 'flt'
            else:
                r -= self.p_cb_fault
                if r < self.p_cb_gc:
                    act = 'gc'
                else:
                    r -= self.p_cb_gc
                    if r < self.p_cb_switch:
                        n = self._others(t)
                        if n:
                            act = 'sw%d' % self.rng.randrange(n)
        if act is not None:
            self._do(t, 'c', t.cc, act, kind)

    def boundary(self, t, opid):
        """Between two operations of a task."""
        if self.replay is not None:
            d = self.replay.get((opid, 'b'))
            act = d.get(0) if d else None
        else:
            act = None
            r = self.rng.random()
            if r < self.p_b_gc:
                act = 'gc'
            elif r < self.p_b_gc + self.p_b_switch:
                n = self._others(t)
                if n:
                    act = 'sw%d' % self.rng.randrange(n)
        if act is not None:
            t.op = opid
            self._do(t, 'b', 0, act, 'boundary')

    def _others(self, t):
        n = 0
        for x in self.tasks:
            if x is not t and not x.done:
                n += 1
        return n

    def record(self, d):
        self.decisions.append(d)
        if self.declog:
            os.write(self.declog, (json.dumps(d) + '\n').encode())

    def absorb(self, e):
        """An exception nobody expected.  Raised inside the library while a value was being observed it is a
        violation; otherwise an error of the harness."""
        if isinstance(e, (SimStop, SimHang)):
            return
        fr = traceback.extract_tb(e.__traceback__)
        if fr and '/pyrsistent/' in fr[-1].filename:
            if not self.violations:
                self.violations.append((self.cfg['tags'][0], 'observing a value raised %s: %s' % (type(e).__name__, str(e)[:300]), 'observe'))
        elif self.harness_error is None and not self.violations:
            self.harness_error = ''.join(traceback.format_exception(e))[-3000:]
        self.stopping = True

    def _do(self, t, kind, n, act, where):
        self.record([t.op, kind, n, act])
        self.event('act', t.idx, t.op, kind, n, act, where)
        self.sched.update(('%d %s%d %s' % (t.idx, kind, n, act)).encode())
        if act == 'gc':
            self.stat('gc')
            q = self.quiet
            self.quiet = True
            try:
                gc.collect()
            finally:
                self.quiet = q
        elif act.startswith('flt'):
            self.stat('callback_fault')
            self.stat('callback_fault.' + where)
            self.nfaults += 1
            # the sequence protocol gives IndexError from __getitem__ a meaning of its own, and builtins such as functools.reduce
            # replace a TypeError from __iter__
            t.fault = (SimFault if where == 'getitem' or (where, act) in (('iter', 'fltT'), ('index', 'fltI'), ('index', 'fltK')) else FAULTS[act])('injected in %s' % where)
            raise t.fault
        elif act == 'int':
            if not t.interruptible:
                return
            self.stat('interrupt')
            self.nfaults += 1
            t.fault = SimInterrupt('injected')
            raise t.fault
        elif act.startswith('sw'):
            self.stat('switch.' + kind)
            self.switch(t, int(act[2:]))

    # ------------------------------------------------------------------ threads
    def switch(self, t, k):
        live = [x for x in self.tasks if x is not t and not x.done]
        if not live:
            return
        nxt = live[k % len(live)]
        q = self.quiet
        self._resume(nxt)
        t.lock.acquire()
        self.cur = t
        self.quiet = q
        if self.stopping:
            raise SimStop()

    def _resume(self, t):
        t.lock.release()

    def _body(self, t):
        t.lock.acquire()
        self.cur = t
        self.quiet = True
        try:
            if not self.stopping:
                t.fn(t)
        except BaseException as e:
            self.absorb(e)
        finally:
            self.quiet = True
            t.done = True
            live = [x for x in self.tasks if not x.done]
            if live:
                k = 0
                if self.replay is None and not self.stopping:
                    k = self.rng.randrange(len(live))
                    if k:
                        self.record(['end%d' % t.idx, 'b', 0, 'sw%d' % k])
                elif self.replay is not None:
                    d = self.replay.get(('end%d' % t.idx, 'b'))
                    if d and 0 in d:
                        k = int(d[0][2:])
                nxt = live[k % len(live)]
                self.event('end', t.idx, nxt.idx)
                self._resume(nxt)
            else:
                self.main.release()

    def run(self, fns):
        global CURRENT
        CURRENT = self
        self.tasks = [Task(i, f) for i, f in enumerate(fns)]
        if self.instr:
            enable_instructions(self.on_instr)
        if len(self.tasks) == 1:
            t = self.tasks[0]
            t.lock.release()
            self._body(t)
        else:
            threading.stack_size(1 << 20)
            ths = [threading.Thread(target=self._body, args=(t,), daemon=True) for t in self.tasks]
            for th in ths:
                th.start()
            self._resume(self.tasks[0])
            self.main.acquire()
            for th in ths:
                th.join()
        if self.instr:
            disable_instructions()
        self.quiet = True


# ---------------------------------------------------------------------- instruction seam
_CODES = None


def collect_codes():
    """All code objects of the library plus the collections.abc mixins it borrows."""
    global _CODES
    import types
    import _collections_abc as cabc
    seen = set()
    out = []

    def walk(c):
        if id(c) in seen:
            return
        seen.add(id(c))
        out.append(c)
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                walk(k)

    def funcs(ns, mod):
        for v in list(ns.values()):
            if isinstance(v, (staticmethod, classmethod)):
                v = v.__func__
            if isinstance(v, property):
                for f in (v.fget, v.fset, v.fdel):
                    if isinstance(f, types.FunctionType):
                        walk(f.__code__)
            elif isinstance(v, types.FunctionType):
                if v.__module__ == mod:
                    walk(v.__code__)
            elif isinstance(v, type) and v.__module__ == mod and id(v) not in seen:
                seen.add(id(v))
                funcs(v.__dict__, mod)

    for name, m in sorted(sys.modules.items()):
        if name == 'pyrsistent' or name.startswith('pyrsistent.'):
            funcs(vars(m), name)
    for cls in (cabc.Set, cabc.Sequence, cabc.Mapping):
        for v in cls.__dict__.values():
            if isinstance(v, classmethod):
                v = v.__func__
            if isinstance(v, types.FunctionType):
                walk(v.__code__)
    _CODES = out
    return out


def enable_instructions(fn):
    mon = sys.monitoring
    if mon.get_tool(TOOL) is None:
        mon.use_tool_id(TOOL, 'dst')
    mon.register_callback(TOOL, mon.events.INSTRUCTION, fn)
    for c in _CODES:
        mon.set_local_events(TOOL, c, mon.events.INSTRUCTION)


def disable_instructions():
    sys.monitoring.register_callback(TOOL, sys.monitoring.events.INSTRUCTION, None)
