"""Plans: what a simulated run does.  A plan is plain data, a pure function of (property, seed, tier)."""
import random

from dst import ops_seq, ops_map, ops_chk, ops_ev
from dst.meta import FLAVORS
from dst.world import OPS, Gen, World, KINDS, SIZES, BIG, HUGE

FAMS = {}
for _name, _o in OPS.items():
    FAMS.setdefault(_name.split('.')[0], []).append(_name)


FLTS = ['flt', 'fltK', 'fltV', 'fltT', 'fltI', 'fltA']


class Mix(object):
    """Weighted choice of operations: families with weights, plus task operations."""
    def __init__(self, fams, task=None):
        self.items, self.w = [], []
        for fam, wt in fams.items():
            tot = sum(OPS[n].weight for n in FAMS[fam])
            for n in FAMS[fam]:
                self.items.append(n)
                self.w.append(wt * OPS[n].weight / tot)
        for n, wt in (task or {}).items():
            self.items.append(n)
            self.w.append(wt)

    def choose(self, r):
        return r.choices(self.items, self.w)[0]


def gen_op(r, g, name, opid, cfg):
    o = {'id': opid, 'o': name, 't': r.randrange(1 << 16)}
    if name in OPS:
        o['a'] = OPS[name].gen(g)
    elif name == 'ev.new':
        o['a'] = [r.choices(list(cfg['evk']), list(cfg['evk'].values()))[0], r.randrange(1 << 16)]
    elif name == 'ev.upd':
        o['h'] = r.randrange(1 << 30)
        o['a'] = []
    elif name == 'it.new':
        o['a'] = [r.choice(cfg['itk']), r.randrange(1 << 16), r.randrange(12)]
    elif name == 'it.step':
        o['a'] = [r.choice((1, 1, 2, 5, 40))]
    else:
        o['a'] = []
    return o


def gen_tasks(r, cfg, mix, ntasks, nops):
    g = Gen(r, cfg)
    tasks = []
    for t in range(ntasks):
        ops = []
        for i in range(nops):
            ops.append(gen_op(r, g, mix.choose(r), '%d:%d' % (t, i), cfg))
        tasks.append(ops)
    return tasks


def base_cfg(r, prop):
    cfg = {'tags': [prop]}
    cfg['atoms'] = r.choice((6, 12, 24, 24, 48, 90))
    cfg['classes'] = r.choice((cfg['atoms'], cfg['atoms'], max(2, cfg['atoms'] // 2), 5))
    cfg['hash'] = r.choice(('ident', 'ident', 'mod3', 'mod8', 'const', 'stride32', 'neg', 'big', 'scatter'))
    cfg['mix'] = r.choice(('keys', 'keys', 'keys', 'badne', 'ints', 'strs', 'special', 'objs', 'mixed'))
    cfg['ways'] = r.randrange(4)
    cfg['hot'] = r.choice((0, 1, 30, 31, 32, 63, -1, -2))
    cfg['idx'] = 1 if r.random() < 0.2 else 0
    return cfg


def distinct(r, cfg, p):
    """Sometimes a population large enough for vectors without any repeated element."""
    if r.random() < p:
        cfg['atoms'] = cfg['classes'] = r.choice((140, 140, 300, 1100))
        cfg['mix'] = r.choice(('ints', 'objs', 'strs', 'keys') if cfg['atoms'] < 1000 else ('ints', 'objs'))


GIANT = (1048575, 1048576, 1048577, 1048607, 1048608, 1048609, 1048640, 1048641)


def large(r, cfg, p):
    """Sometimes collections of a few thousand entries: bucket vectors with inner nodes, lists longer than the stack is deep."""
    if r.random() >= p:
        return False
    n = cfg['atoms'] = cfg['classes'] = r.choice((350, 700, 1100, 2300))
    cfg['mix'] = r.choice(('ints', 'objs', 'strs'))
    cfg['cap'] = 5
    cfg['recheck'] = 1
    cfg['instr'] = 0
    pick = lambda: r.choice((n, n - 1, n // 2, n * 2 // 3, n * 3 // 4))
    cfg['mseeds'] = [[3, 0], [pick(), r.choice((0, 0, 1, 64, 700))], [pick(), 0]]
    cfg['sseeds'] = [3, pick(), pick()]
    cfg['lseed_sizes'] = [2, pick()]
    cfg['dseeds'] = [[2, None], [pick(), None], [pick(), r.choice((n, n // 2, n + 5))]]
    return True


def sched_cfg(r, cfg, level):
    """level 0: boundaries only; 1: callbacks; 2: instructions"""
    cfg['b_switch'] = r.choice((0.2, 0.5, 0.8))
    cfg['b_gc'] = r.choice((0.0, 0.0, 0.02))
    if level >= 1:
        cfg['cb_switch'] = r.choice((0.0, 0.02, 0.1, 0.3))
        cfg['cb_gc'] = r.choice((0.0, 0.0, 0.01))
    if level >= 2:
        cfg['instr'] = 1
        cfg['i_gap'] = r.choice((8, 25, 60, 200, 600))
        cfg['i_gc'] = r.choice((0.0, 0.0, 0.02))


def vec_sizes(r, big=0.15, huge=0.0, n=3):
    out = []
    for _ in range(n):
        x = r.random()
        if x < huge:
            out.append(r.choice(HUGE))
        elif x < huge + big:
            out.append(r.choice(BIG))
        else:
            out.append(r.choice(SIZES))
    return out


# ------------------------------------------------------------------ per property
def plan_seq(prop, r, tier, flavor):
    """C02 C03 C04 C05: refinement against builtin models under interleavings."""
    cfg = base_cfg(r, prop)
    level = r.choice((0, 1, 1, 2, 2, 2))
    sched_cfg(r, cfg, level)
    ntasks = r.choice((1, 2, 2, 3, 4))
    nops = r.choice((20, 40, 80)) if level < 2 else r.choice((10, 25, 40))
    if prop == 'C02':
        fams = {'vec': 1.0}
        if r.random() < 0.12:
            cfg['seed_sizes'] = [0, r.choice(HUGE)] + vec_sizes(r, 0.3, 0, 2)
            cfg['instr'] = 0
            ntasks, nops = r.choice((1, 2)), 12
            cfg['max_len'] = 3000
        else:
            cfg['seed_sizes'] = [0, 1] + vec_sizes(r, 0.35, 0, 3)
            distinct(r, cfg, 0.35)
        cfg['p_big'] = r.choice((0.0, 0.02, 0.05))
        if level == 2 and flavor == 'py':
            nops = min(nops, 25)
        if flavor == 'c' and r.random() < 0.006:
            cfg.update(seed_sizes=[r.choice(GIANT)], instr=0, cap=2, p_big=0.0, mix='ints')
            ntasks, nops = 1, 10
    elif prop == 'C03':
        fams = {'map': 1.0}
        cfg['mseeds'] = [[0, 0], [1, 0]] + [[r.choice((2, 5, 6, 8, 11, 12, 13, 20, 24, 40, 60)), r.choice((0, 0, 1, 2, 3, 8, 33))] for _ in range(3)]
        if large(r, cfg, 0.05):
            ntasks, nops = min(ntasks, 2), 15
    elif prop == 'C04':
        fams = {'set': 1.0, 'bag': 0.7, 'map': 0.1}
        cfg['sseeds'] = [0, 1] + [r.choice((2, 5, 8, 11, 12, 13, 24, 40)) for _ in range(3)]
        if large(r, cfg, 0.05):
            ntasks, nops = min(ntasks, 2), 15
    else:
        fams = {'list': 0.7, 'deque': 1.0}
        distinct(r, cfg, 0.2)
        if large(r, cfg, 0.06):
            ntasks, nops = min(ntasks, 2), 15
    return cfg, Mix(fams), ntasks, nops


ALLK = {'vec': 1.0, 'map': 1.0, 'set': 0.7, 'bag': 0.5, 'list': 0.5, 'deque': 0.7, 'cvec': 0.5, 'cset': 0.4, 'cmap': 0.4, 'rec': 0.6, 'cls': 0.6}
EVT = {'ev.new': 0.5, 'ev.upd': 1.8, 'ev.persist': 0.6, 'ev.drop': 0.1}


def focus(r):
    """A few of the kinds, so that a short run goes deep on them."""
    if r.random() < 0.3:
        return dict(ALLK)
    ks = r.sample(sorted(ALLK), r.choice((1, 2, 3)))
    return {k: ALLK[k] for k in ks}


def checked_mix(cfg, fams, r):
    if any(k in fams for k in ('cvec', 'cset', 'cmap')) and r.random() < 0.8:
        cfg['mix'] = r.choice(('checked', 'checked', 'twins'))
        cfg['atoms'] = 25
        cfg['classes'] = 25


def plan_immut(prop, r, tier, flavor):
    cfg = base_cfg(r, prop)
    level = r.choice((0, 1, 1, 2, 2))
    sched_cfg(r, cfg, level)
    cfg['fp'] = 1
    cfg['recheck'] = r.choice((1, 2, 4))
    if prop == 'C07':
        cfg['faults'] = 1
        cfg['retry'] = 1
        cfg['cb_fault'] = r.choice((0.01, 0.05, 0.2))
        cfg['max_faults'] = 25
        if r.random() < 0.5:
            cfg['flts'] = FLTS
        if r.random() < 0.5:
            sched_cfg(r, cfg, 2)
            cfg['interrupts'] = 1
            cfg['i_int'] = r.choice((0.05, 0.3))
            cfg['i_gap'] = r.choice((20, 60, 150))
    elif r.random() < 0.4:
        cfg['faults'] = 1
        cfg['cb_fault'] = 0.03
        cfg['interrupts'] = 1
        cfg['i_int'] = 0.1
    fams = focus(r)
    checked_mix(cfg, fams, r)
    cfg['evk'] = {k: 1 for k in fams if k in ops_ev.EVKINDS} or {'vec': 1, 'map': 1}
    cfg['itk'] = [k for k in fams if k != 'cls'] or ['vec', 'map']
    tot = sum(fams.values())
    task = {k: v * tot / 4 for k, v in EVT.items()}
    task.update({'it.new': tot * 0.06, 'it.step': tot * 0.15})
    cfg['seed_sizes'] = [0, 2] + vec_sizes(r, 0.15, 0, 2)
    if 'vec' in fams and r.random() < 0.4:
        cfg['seed_sizes'] = [2, r.choice(BIG), r.choice(BIG)]
    if r.random() < 0.15:
        # evolvers on vectors that are large enough to have inner nodes, and their descendants
        fams = {'vec': 0.5}
        cfg['evk'] = {'vec': 1}
        cfg['seed_sizes'] = [r.choice(BIG)]
        task = {k: v for k, v in EVT.items()}
        distinct(r, cfg, 0.3)
    return cfg, Mix(fams, task), r.choice((1, 2, 3)), r.choice((15, 30, 50))


def plan_evolver(prop, r, tier, flavor):
    cfg = base_cfg(r, prop)
    level = r.choice((0, 1, 2, 2))
    sched_cfg(r, cfg, level)
    if prop == 'C08':
        cfg['faults'] = 1
        cfg['cb_fault'] = r.choice((0.02, 0.08, 0.25))
        cfg['max_faults'] = 40
        if r.random() < 0.5:
            cfg['flts'] = FLTS
        if r.random() < 0.5:
            cfg['instr'] = 0
    ks = r.sample(ops_ev.EVKINDS, r.choice((1, 1, 2, 3)))
    if r.random() < 0.4:
        ks += ['map', 'vec']
    cfg['evk'] = {k: 1 for k in ks}
    checked_mix(cfg, cfg['evk'], r)
    fams = {k: 0.15 for k in ks}
    cfg['seed_sizes'] = [0, 1] + vec_sizes(r, 0.25, 0.01, 3)
    if 'vec' in ks and r.random() < 0.4:
        cfg['seed_sizes'] = [1, r.choice(BIG), r.choice(BIG)]
        if r.random() < 0.5:
            cfg['seed_sizes'] = [r.choice(BIG)]
    cfg['mseeds'] = [[0, 0], [1, 0]] + [[r.choice((5, 6, 8, 11, 12, 13, 20, 24)), r.choice((0, 0, 1, 2, 8))] for _ in range(2)]
    task = {'ev.new': 0.5, 'ev.upd': 4.0, 'ev.persist': 0.8, 'ev.drop': 0.15}
    if ('map' in ks or 'set' in ks) and not any(k in ks for k in ('cvec', 'cset', 'cmap')) and large(r, cfg, 0.06):
        return cfg, Mix(fams, task), r.choice((1, 2)), 20
    return cfg, Mix(fams, task), r.choice((1, 2, 3, 4)), r.choice((30, 60, 90))


def plan_checked(prop, r, tier, flavor):
    cfg = base_cfg(r, prop)
    level = r.choice((0, 1, 1, 2))
    sched_cfg(r, cfg, level)
    cfg.update(mix=r.choice(('checked', 'checked', 'checked', 'twins')), atoms=25, classes=25)
    if r.random() < 0.5:
        cfg['faults'] = 1
        cfg['cb_fault'] = r.choice((0.01, 0.06))
        cfg['max_faults'] = 20
        if r.random() < 0.5:
            cfg['flts'] = FLTS
    if prop == 'C11':
        fams = {'cvec': 1.0, 'cset': 0.8, 'cmap': 0.8, 'vec': 0.05, 'set': 0.05, 'map': 0.05}
        cfg['evk'] = {'cvec': 1, 'cset': 1, 'cmap': 1}
    else:
        fams = {'rec': 1.0, 'cls': 1.0}
        cfg['evk'] = {'rec': 1, 'cls': 1}
    cfg['seed_sizes'] = [0, 3, 40]
    return cfg, Mix(fams, {'ev.new': 0.1, 'ev.upd': 0.5, 'ev.persist': 0.2}), r.choice((1, 2, 3)), r.choice((25, 50, 80))


PLANS = {'C01': plan_immut, 'C02': plan_seq, 'C03': plan_seq, 'C04': plan_seq, 'C05': plan_seq, 'C06': plan_evolver,
         'C07': plan_immut, 'C08': plan_evolver, 'C11': plan_checked, 'C12': plan_checked}


def make_plan(prop, seed, tier):
    """-> plan with key 'flavor' already decided by the caller's seed."""
    r = random.Random('plan-%s-%s' % (prop, seed))
    flavor = FLAVORS[prop][seed % len(FLAVORS[prop])]
    if prop in PLANS:
        cfg, mix, nt, nops = PLANS[prop](prop, r, tier, flavor)
        plan = {'scen': 'world', 'cfg': cfg, 'tasks': gen_tasks(r, cfg, mix, nt, nops)}
    else:
        from dst import special
        plan = special.make_plan(prop, r, seed, tier, flavor)
    plan.update(prop=prop, seed=seed, flavor=flavor)
    return plan


def run_world(plan, sim, lib):
    w = World(sim, plan['cfg'], lib)
    w.plan = plan

    def body(ops):
        def fn(task):
            task.lastfault = None
            for o in ops:
                sim.boundary(task, o['id'])
                if o['o'] in OPS:
                    w.run_op(task, o)
                else:
                    ops_ev.TASKOPS[o['o']](w, task, o)
        return fn
    sim.run([body(t) for t in plan['tasks']])
    if not sim.violations and not sim.harness_error:
        try:
            w.recheck_all()
        except BaseException as e:
            sim.absorb(e)
    w.finish_probes()
    return w
