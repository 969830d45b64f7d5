"""What each property's check does."""
import concurrent.futures as cf
import json
import random
import sys

import comps
import comps2
import comps3
import comps4
import comps5
import comps6
import larges
import longs
import vlib
import woven
from engine import Engine


def machine(eng, rng, comp, faults=True, limit=None, sessions=None, maxlen=120):
    """The usual check: explore the model, replay its transitions, random and fault histories."""
    futs = eng.models(comp)
    eng.driver()
    walks = eng.walks(comp, rng, limit=limit, maxlen=maxlen)
    ss = comp.sessions(walks, rng, eng.tier) if sessions is None else sessions
    ss = ss + longs.sessions(comp, rng, eng.tier) + larges.sessions(comp, rng, eng.tier) + woven.sessions(comp, ss, rng, eng.tier)
    if faults:
        ss = ss + comp.fault_sessions(walks, rng, eng.tier)
    eng.conform(comp, ss)
    eng.collect_models(futs)


def c01(eng, rng):
    machine(eng, rng, comps.HashMap())


def c02(eng, rng):
    c = comps.HashMap()
    futs = eng.models(c)
    ss = c.iter_sessions(rng, eng.tier)
    eng.conform(c, ss + larges.sessions(c, rng, eng.tier) + woven.sessions(c, ss, rng, eng.tier))
    eng.collect_models(futs)


def c09(eng, rng):
    machine(eng, rng, comps.ErrorState())
    threads(comps6.Threads, 'es')(eng, rng)


def c10(eng, rng):
    c = comps.ErrorState()
    futs = eng.models(c)
    eng.conform(c, c.limit_sessions([], rng, eng.tier) + larges.sessions(c, rng, eng.tier))
    eng.collect_models(futs)


def c29(eng, rng):
    c = comps.ErrorState()
    futs = eng.models(c)
    eng.driver()
    walks = eng.walks(c, rng)
    eng.conform(c, c.report_sessions(walks, rng, eng.tier))
    eng.collect_models(futs)


def of(cls, **kw):
    return lambda eng, rng: machine(eng, rng, cls(), **kw)


PROPS = {'C01': c01, 'C02': c02, 'C03': of(comps.StringMap), 'C04': of(comps.ArrayList),
         'C05': of(comps.StringArray), 'C06': of(comps.Buffers), 'C09': c09, 'C10': c10, 'C29': c29,
         'C18': of(comps.StrUtil), 'C23': of(comps.CmdSev), 'C19': of(comps2.Clock), 'C20': of(comps2.SharedLib),
         'C21': of(comps2.Env), 'C22': of(comps2.Sha)}
def logging(focus, limit=None):
    def check(eng, rng):
        c = comps3.Logging(focus)
        futs = eng.models(c)
        eng.driver()
        vlib.build_sites(eng.work)
        walks = eng.walks(c, rng, limit=limit if eng.tier == 'quick' else None)
        ss = c.sessions(walks, rng, eng.tier)
        eng.conform(c, ss + c.fault_sessions(walks, rng, eng.tier) + longs.sessions(c, rng, eng.tier) +
                    larges.sessions(c, rng, eng.tier) + woven.sessions(c, ss, rng, eng.tier))
        eng.collect_models(futs)
    return check


PROPS.update({'C11': logging('levels', 6000), 'C12': logging('macros', 5000), 'C13': logging('format'),
              'C14': logging('start', 8000)})
PROPS.update({'C16': lambda e, r: machine(e, r, comps4.FileSys('size')), 'C17': lambda e, r: machine(e, r, comps4.FileSys('path'))})
def process(eng, rng):
    c = comps5.Process()
    futs = eng.models(c)
    eng.conform(c, c.sessions([], rng, eng.tier) + c.fault_sessions([], rng, eng.tier))
    eng.collect_models(futs)


PROPS.update({'C25': of(comps5.Alloc), 'C26': process})


def everywhere(eng, rng, fn):
    """fn(component, what finalises its objects, a generator of its own) for all components at once"""
    eng.driver()
    vlib.build_sites(eng.work)
    all_ = [(c, cl, random.Random(rng.getrandbits(32))) for c, cl in comps5.everything()]
    with cf.ThreadPoolExecutor(len(all_)) as tp:
        for f in [tp.submit(fn, c, cl, r) for c, cl, r in all_]:
            f.result()


def c07(eng, rng):
    """every model state meets each allocation failure of each allocating call"""
    q = eng.tier == 'quick'
    futs = []
    if not q:      # the models whose transitions are replayed state it too
        for c, _ in comps5.everything():
            futs += [f for f in eng.models(c) if f[0] not in [x[0] for x in futs]]

    def one(c, closing, r):
        walks = eng.walks(c, r, limit=1200 if q else 40000)
        ops = getattr(c, 'allocating', set())
        ss = [comps.ff(r, s, ops) for s in c.sessions(walks, r, 'quick')] if ops else []
        if c.name == 'fs_size':
            ss = ss[:len(walks)]
        if q and len(ss) > 60:
            ss = ss[:len(walks)] + r.sample(ss[len(walks):], min(40, len(ss) - len(walks)))
        ss += c.fault_sessions(walks, r, eng.tier)
        eng.conform(c, ss, label='_' + getattr(c, 'focus', getattr(c, 'part', '')), chunks=3 if q else None)
    everywhere(eng, rng, one)
    eng.collect_models(futs)


def c30(eng, rng):
    """every component's histories with a failure injected at each point which each call reaches"""
    q = eng.tier == 'quick'
    futs = []
    for c in (comps2.Env(), comps.StringArray(), comps3.Logging('start')):
        futs += eng.models(c)
    never = {'sa_resize', 'sa_nulls', 'mem', 'quiet', 'F', 'F+', 'ev_sysfail'}

    def inject(r, s):
        out = []
        for x in s:
            w = x.split()
            if not w or w[0] in ('F', 'F+'):
                continue
            if w[0] in ('FF', 'FF+'):
                x = x.split(' ', 1)[1]
            out.append('J ' + x if x.split()[0] not in never and r.random() < 0.6 else x)
        return out

    def one(c, closing, r):
        walks = eng.walks(c, r, limit=400 if q else 20000) if c.name in ('env', 'string_array', 'logging', 'string_map', 'shared_lib', 'fs_size') else []
        ss = c.sessions(walks, r, 'quick')
        lots, some = ss[:len(walks)], ss[len(walks):]
        if c.name == 'fs_size':     # a tree with many entries takes long to sweep
            some = c.fault_sessions([], r, 'quick')
        if q and len(some) > 20:
            some = r.sample(some, 20)
        eng.conform(c, [inject(r, s) for s in lots + some for _ in range(1 if q else 4)],
                    label='_' + getattr(c, 'focus', getattr(c, 'part', '')), chunks=3 if q else None)
    everywhere(eng, rng, one)
    eng.collect_models(futs)


def c08(eng, rng):
    """every component's histories, each thing done to an allocator checked against the ledger"""
    q = eng.tier == 'quick'
    led = comps5.Ledger()
    futs = eng.models(led)

    def one(c, closing, r):
        walks = eng.walks(c, r, limit=1500 if q else 60000)
        ss = c.sessions(walks, r, eng.tier) + c.fault_sessions(walks, r, eng.tier) + longs.sessions(c, r, 'quick')
        if not q:
            ops = getattr(c, 'allocating', set())
            ss += [comps.ff(r, s, ops) for s in ss]
        eng.conform(c, [['mem'] + s + closing + ['quiet'] for s in ss], trace='LedgerTrace',
                    label='_' + getattr(c, 'focus', getattr(c, 'part', '')), chunks=3 if q else None)
    everywhere(eng, rng, one)
    eng.collect_models(futs)


PROPS.update({'C07': c07, 'C08': c08, 'C30': c30})


def threads(cls, *args):
    """scenarios of several threads under many schedules"""
    def check(eng, rng):
        c = cls(*args)
        futs = eng.models(c)
        eng.conc()
        eng.conform(c, c.sessions([], rng, eng.tier))
        eng.collect_models(futs)
    return check


PROPS.update({'C15': threads(comps6.FaultCounter), 'C24': threads(comps6.LogThreads), 'C27': threads(comps6.Threads),
              'C28': threads(comps6.AtomicCell)})
ASSUME = ['the driver reports truthfully what the library returned',
          'integers above 2^31 are reported as one value']


def meta(prop, tier):
    return {'assumptions': ASSUME}


def replay(path):
    v = json.load(open(path))
    eng = Engine('replay', 'quick', 1)
    try:
        exe = eng.conc() if v.get('conc') else eng.driver()
        vlib.build_sites(eng.work)
        tf = vlib.run_driver(eng.work, exe, v['script'], 'replay')
        ok, m, why = vlib.validate(eng.work, v['trace_spec'], tf)
        print('accepted' if ok else 'rejected at event %d: %s %s' % (m, vlib.trace_line(tf, m), why))
        return 0 if ok else 1
    finally:
        eng.close()
