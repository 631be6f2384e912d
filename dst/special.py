"""Scenarios other than the shared-pool world: registry and common parts."""
import random

RUN = {}        # scenario name -> fn(plan, sim, lib)
PLANS = {}      # property -> fn(r, seed, tier, flavor) -> plan (without prop, seed, flavor)


def make_plan(prop, r, seed, tier, flavor):
    return PLANS[prop](r, seed, tier, flavor)


class Base(object):
    """A scenario: methods op_<name>(task, o) run one operation; finish() the final checks."""
    def __init__(self, sim, plan, lib):
        self.sim, self.plan, self.cfg, self.lib = sim, plan, plan['cfg'], lib
        self.flavor = plan['flavor']
        self.inflight = 0

    def outcome(self, fn):
        from dst.sim import SimStop, SimHang
        try:
            return ('ok', fn())
        except (SimStop, SimHang):
            raise
        except BaseException as e:
            return ('exc', e)

    def real(self, task, o, fn, faultable=True, sub=''):
        """Library code inside the simulation; -> (outcome, injected fault or None)"""
        sim = self.sim
        sim.begin_op(task, '%s%s' % (o['id'], sub), faultable=faultable and self.cfg.get('faults', False),
                     interruptible=self.cfg.get('interrupts', False))
        self.inflight += 1
        try:
            got = self.outcome(fn)
        finally:
            sim.quiet = True
            self.inflight -= 1
        fault = task.fault
        sim.end_op(task)
        return got, fault

    def finish(self):
        pass

    def setup(self):
        pass

    def after(self, task, o):
        pass


def runner(cls):
    def run(plan, sim, lib):
        w = cls(sim, plan, lib)
        try:
            w.setup()
        except BaseException as e:
            sim.absorb(e)
            return w

        def body(ops):
            def fn(task):
                for o in ops:
                    sim.boundary(task, o['id'])
                    getattr(w, 'op_' + o['o'])(task, o)
                    w.after(task, o)        # with the operation's own references gone
            return fn
        sim.run([body(t) for t in plan['tasks']])
        if not sim.violations and not sim.harness_error:
            try:
                w.finish()
            except BaseException as e:
                sim.absorb(e)
        return w
    return run


def numbered(tasks):
    """Give operations their ids."""
    for t, ops in enumerate(tasks):
        for i, o in enumerate(ops):
            o['id'] = '%d:%d' % (t, i)
    return tasks


def load():
    from dst import sp_life, sp_eq, sp_pickle, sp_trans, sp_alias, sp_mem, sp_reg     # noqa
