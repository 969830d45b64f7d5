"""Scenarios of several threads, run by the scheduling harness (conc.c)."""
import random

from comps import hx
from engine import Component

LARGE = [10**6, 10**6 - 1, 2**31, 2**32, 2**32 + 1, 10**12, 2**53, 2**62 + 3, 2**63 - 1]


class Conc(Component):
    conc = True

    def fault_sessions(self, walks, rng, tier):
        return []


def seeded(rng):
    return rng.randrange(1, 10**6)


class FaultCounter(Conc):
    name = 'fault_counter'
    trace = 'FaultCounterTrace'
    mcs = (('FaultCounterMC', 'FaultCounterA'), ('FaultCounterMC', 'FaultCounterB'), ('FaultCounterMC', 'FaultCounterRefute'))
    mcs_thorough = (('FaultCounterMC', 'FaultCounterC'),)

    def op(self, rng):
        k = rng.random()
        if k < .55:
            return 'fi_maybe %d' % rng.randrange(2)
        if k < .72:
            return 'fi_get'
        if k < .88:
            return 'fi_set %d' % rng.choice([-1, -3, 0, 0, 1, 1, 2, 3, 5] + LARGE[:4])
        return 'fi_done'

    def sessions(self, walks, rng, tier):
        q = tier == 'quick'
        out = []
        # every schedule of two injection points; every schedule with few preemptions of three threads
        for n in (-4, -1, 0, 1, 2):
            out.append(['init fi %d' % n, 't0 fi_maybe 0', 't1 fi_maybe 0', 'run LIN dfs 60000 100000 1 %d' % (8 if q else 120)])
            out.append(['init fi %d' % n] + ['t%d fi_maybe %d' % (t, t % 2) for t in range(3)]
                       + ['run LIN pb%d %d 100000 1 %d' % (2 if q else 4, 6000 if q else 400000, 6 if q else 200)])
        for a in ('fi_set 0', 'fi_set 1', 'fi_set -1', 'fi_get', 'fi_done'):
            for n in (0, 1):
                out.append(['init fi %d' % n, 't0 fi_maybe 0', 't0 fi_get', 't1 ' + a, 't1 fi_maybe 0',
                            'run LIN pb%d %d 100000 1 %d' % (2 if q else 5, 6000 if q else 400000, 5 if q else 120)])
        # one thread: every operation against every count, the test macros, functions of the library
        for n in [-2**63, -2**31 - 1, -2, -1, 0, 1, 2] + LARGE:
            s = ['init fi %d' % n]
            for _ in range(4):
                s += ['t0 fi_get', 't0 fi_done', 't0 fi_maybe %d' % rng.randrange(2)]
            s += ['t0 fi_set %d' % rng.choice(LARGE), 't0 fi_get', 't0 fi_maybe 0', 't0 fi_get']
            out.append(s + ['run LIN dfs 1 1 1 5'])
        for k in range(6):
            out.append(['init fi %d' % rng.choice([-1, 0, 3])] + ['t0 fi_test %d %d' % (k, p) for p in range(-1, k)]
                       + ['t0 fi_get', 'run LIN dfs 1 1 1 5'])
        for w in range(10):
            out.append(['init fi -1', 't0 fi_lib %d' % w, 't0 fi_get', 'run LIN dfs 1 1 1 5'])
        # random programs
        for _ in range(24 if q else 200):
            s = ['init fi %d' % rng.choice([-1, 0, 0, 1, 1, 2, 3, 4] + LARGE[:3])]
            nt = rng.choice([2, 2, 3, 4])
            for t in range(nt):
                s += ['t%d %s' % (t, self.op(rng)) for _ in range(rng.randint(1, 4 if nt < 4 else 3))]
            out.append(s + ['run LIN pre %d 1000 %d %d' % (1500 if q else 40000, seeded(rng), 4 if q else 60)])
        # running freely on several processors
        for n in (0, 3, 11, 25):
            s = ['init fi %d' % n]
            for t in range(4):
                s += ['t%d fi_maybe 0' % t for _ in range(6)]
            out.append(s + ['run LIN free %d 150 1 %d' % (300 if q else 6000, 4 if q else 60)])
        return out


FORMATS = ['{message}', '[{severity}] [{time}] [{name}]: {message}', '{date_time_with_ms} {message}', '{time_as_nanoseconds}|{name}|{message}',
           '{function_name}:{file_name}:{line_number} {message}', '{severity}{severity}{name}{message}{message}', '', 'no token',
           r'{message}\t{name}\x1b[0m', '{date_time_with_ms}{time}{time_as_nanoseconds}']
NAMES = ['a', 'a.b', 'a.b.c', 'z', 'a.bb', '']


class LogThreads(Conc):
    name = 'log_threads'
    trace = 'LogThreadsTrace'
    mcs = (('LogThreadsMC', 'LogThreadsMC'),) + tuple(('LogThreadsMC', 'LogThreads_' + a) for a in ('shared', 'pieces', 'late', 'lost'))

    def lg(self, rng, t, i):
        num = rng.choice([0, 7, -5, 12345678])
        fmt = rng.choice(['%s', 'm%s %d', '%s%d', 'plain', '%s%%'])
        n = rng.choice([0, 1, 5, 5, 40, 700, 1010, 1023, 1024, 1100, 2500])
        s = chr(97 + t) * n + str(i)
        return 'lg %d %s %s %s %d %d %s %s %d %d' % (
            rng.choice([10, 20, 20, 30, 30, 40, 50]), rng.choice(['-'] + [hx(x) for x in NAMES]), hx(fmt), hx(s), num, rng.randrange(2),
            hx('fu%d' % t), hx('f%d.c' % t), rng.choice([0, 7, 77, 123456]) + t,
            rng.choice([0, 5, 999999999, 1600000000987654321, 1700000000123456789]) + t * 1000003 + i)

    def setup(self, rng):
        s = []
        f = rng.choice(FORMATS)
        if f:
            s.append('init env 4 ' + hx(f))
        if rng.random() < .35:
            s.append('init env 1 ' + hx(rng.choice('01')))
        if rng.random() < .3:
            s.append('init env 2 ' + hx(rng.choice('01')))
        if rng.random() < .4:
            s.append('init env 3 ' + hx(rng.choice('01')))
        lv = ''
        for n in rng.sample(NAMES[:5], rng.randint(0, 3)):
            lv += ' %s %d' % (hx(n), rng.choice([0, 10, 20, 30, 40, 50]))
        s.append('init log %d %d%s' % (rng.choice([1, 1, 1, 2]), rng.choice([10, 20, 30]), lv))
        return s

    def sessions(self, walks, rng, tier):
        q = tier == 'quick'
        out = []
        for k in range(30 if q else 250):
            s = self.setup(rng)
            nt = rng.choice([2, 2, 3, 4])
            for t in range(nt):
                s += ['t%d %s' % (t, self.lg(rng, t, i)) for i in range(rng.randint(1, 3 if nt < 4 else 2))]
            how = 'pb1' if k % 3 == 0 else 'pre'
            out.append(s + ['run OUT %s %d %d %d %d' % (how, 1500 if q else 15000, 60 if q else 400, seeded(rng), 4 if q else 60)])
        for k in range(6 if q else 40):
            s = self.setup(rng)
            for t in range(4):
                s += ['t%d %s' % (t, self.lg(rng, t, i)) for i in range(6)]
            out.append(s + ['run OUT free %d 25 1 %d' % (100 if q else 2000, 3 if q else 30)])
        return out


TEXTS = ['', 'a', 'abc', 'a.b.c', 'a,b,,c', ',x,', 'Hello World', 'x' * 30, '~/d', '/tmp/y', 'ff:gg:hh', 'WARN', 'error', '0']


def T(rng):
    return hx(rng.choice(TEXTS))


ES = [lambda r: 'es_set %s %s %d' % (hx(r.choice(TEXTS) + str(r.randrange(9)) * r.choice([1, 3, 900])), hx('f%d.c' % r.randrange(9)), r.randrange(999)),
      lambda r: 'es_set %s %s %d' % (hx('m%d' % r.randrange(99)), hx('f%d.c' % r.randrange(9)), r.randrange(999)),
      lambda r: 'es_fmt %s %d' % (T(r), r.randrange(99)), lambda r: 'es_get', lambda r: 'es_get', lambda r: 'es_reset', lambda r: 'es_tls']
OBJ = [lambda r: 'hm_set %d %d' % (r.randrange(6), r.randrange(99)), lambda r: 'hm_set %d %d' % (r.randrange(6), r.randrange(99)),
       lambda r: 'hm_unset %d' % r.randrange(6), lambda r: 'hm_get %d' % r.randrange(6), lambda r: 'hm_all',
       lambda r: 'sm_set %s %s' % (hx('k%d' % r.randrange(4)), T(r)), lambda r: 'sm_get %s' % hx('k%d' % r.randrange(4)),
       lambda r: 'sm_unset %s' % hx('k%d' % r.randrange(4)), lambda r: 'al_add %d' % r.randrange(99), lambda r: 'al_remove %d' % r.randrange(3),
       lambda r: 'al_get %d' % r.randrange(3), lambda r: 'ca_printf %s %s %d' % (hx(r.choice(['%s-%d', 'q%s%d'])), T(r), r.randrange(999)),
       lambda r: 'ca_strcat ' + T(r), lambda r: 'ca_strcpy ' + T(r), lambda r: 'ua_resize %d' % r.randint(1, 40)]
def tstr(r, how):
    return 'tstr %d %d %d' % (how, r.choice([0, 1, 200, 999, 1700000, 3 * 10**9]) * 10**9 + r.randrange(10**12), r.choice([64, 64, 64, 20, 33]))


PURE = [lambda r: 'sha_add ' + hx(r.choice(TEXTS) * r.randint(1, 5)), lambda r: 'sha_end',
        lambda r: 'split %s %s %d' % (T(r), hx(r.choice('.,:')), r.randrange(2)), lambda r: 'sort %s' % hx(','.join(r.sample(['q', 'b', 'zz', 'a', 'bb', ''], 4))),
        lambda r: 'repl %s %s %s' % (T(r), hx(r.choice(['a', '.', 'xx', 'l'])), T(r)),
        lambda r: 'fmt %d %s %s %d' % (r.choice([1, 5, 2000]), hx('%s|%d'), T(r), r.randrange(9999)), lambda r: 'dup %s %d' % (T(r), r.randrange(9)),
        lambda r: 'find %s %s' % (T(r), hx(r.choice('.,:a'))), lambda r: 'icase %s %s' % (T(r), T(r)), lambda r: 'snp %s %s %d' % (hx('%s=%d'), T(r), r.randrange(999)),
        lambda r: 'sev %s' % hx(r.choice(['WARN', 'error', 'dEbug', 'x', 'FATAL', ''])), lambda r: 'cli %s %s %s %s %s' % (hx('-a'), hx('v%d' % r.randrange(9)), hx('-b'), hx('w%d' % r.randrange(9)), hx(r.choice(['-a', '-b', '-b', '-c']))),
        lambda r: tstr(r, 0), lambda r: tstr(r, 1), lambda r: tstr(r, 2),
        lambda r: 'now %d %d' % (r.randrange(10**18), r.randrange(10**18)), lambda r: 'path %s %s' % (T(r), T(r)), lambda r: 'fs %s' % hx(r.choice(['.', '/', 'nope', '/etc/passwd'])),
        lambda r: 'env %s' % hx(r.choice(['HOME', 'PATH', 'TZ', 'NOPE'])), lambda r: 'exe', lambda r: 'serr %d %d' % (r.choice([0, 1, 2, 12, 22, 133]), r.choice([1, 5, 64])),
        lambda r: 'order %s' % hx(''.join(r.choice('gfedcba') for _ in range(8)))]


class Threads(Conc):
    name = 'threads'
    trace = 'ThreadsTrace'
    mcs = (('ThreadsMC', 'ThreadsMC'), ('ThreadsMC', 'Threads_scratch'), ('ThreadsMC', 'Threads_state'))

    def __init__(self, focus='all'):
        self.focus = focus

    def program(self, rng, kind, n):
        s = []
        if kind == 'obj':
            s.append('hm_init %d %d' % (rng.choice([1, 2, 4]), 1))
        pool = {'es': ES, 'obj': OBJ, 'pure': PURE}[kind]
        return s + [rng.choice(pool)(rng) for _ in range(n)]

    def scenario(self, rng, progs, how, limit, cap, secs):
        s = []
        for t, p in enumerate(progs):
            s += ['t%d %s' % (t, x) for x in p]
        return s + ['run ALONE %s %d %d %d %d' % (how, limit, cap, seeded(rng), secs)]

    def sessions(self, walks, rng, tier):
        q = tier == 'quick'
        out = []
        kinds = ['es'] if self.focus == 'es' else ['obj', 'pure']
        # two threads using the same function with arguments of their own: where shared scratch memory shows
        if self.focus != 'es':
            for f in PURE * (3 if q else 12):
                a, b = [f(rng), f(rng)], [f(rng), f(rng)]
                if 'sha' in a[0]:
                    a, b = a + ['sha_end'], b + ['sha_end']
                out.append(self.scenario(rng, [a, b], 'pre', 400 if q else 8000, 40, 3 if q else 30))
        else:
            for i in range(len(ES)):
                for j in range(len(ES)):
                    out.append(self.scenario(rng, [[ES[i](rng), 'es_get'], [ES[j](rng), 'es_get']], 'pre', 250 if q else 5000, 40, 3 if q else 30))
        for k in range(24 if q else 160):
            kind = kinds[k % len(kinds)]
            nt = rng.choice([2, 3, 3, 4])
            out.append(self.scenario(rng, [self.program(rng, kind, rng.randint(2, 6)) for _ in range(nt)], 'pb1' if k % 4 == 0 else 'pre',
                                     500 if q else 8000, 60, 3 if q else 40))
        for k in range(5 if q else 40):
            kind = kinds[k % len(kinds)]
            out.append(self.scenario(rng, [self.program(rng, kind, 20) for _ in range(4)], 'free', 150 if q else 3000, 40, 3 if q else 30))
        return out


class AtomicCell(Conc):
    name = 'atomic_cell'
    trace = 'AtomicCellTrace'
    mcs = tuple(('AtomicCellMC', p + f) for f in 'xac' for p in ('AtomicCell_', 'AtomicCellTorn_'))

    def val(self, rng, ty):
        return rng.choice([0, 1]) if ty == 'b' else rng.choice([0, 1, 2, 3] + LARGE[:7])

    def op(self, rng, ty, f=None, known=()):
        f = f or rng.choice('lsxca' if ty != 'b' else 'lsxc')
        a = rng.choice(list(known)) if f == 'c' and known and rng.random() < .7 else self.val(rng, ty)
        return 'at %s %s %d %d' % (ty, f, a, self.val(rng, ty))

    def sessions(self, walks, rng, tier):
        q = tier == 'quick'
        out = []
        for ty in 'biup':
            fs = 'lsxc' if ty == 'b' else 'lsxca'
            for f in fs:                 # every pair of operations on every schedule
                for g in fs:
                    v = self.val(rng, ty)
                    out.append(['init cells %d' % v, 't0 ' + self.op(rng, ty, f, [v]), 't1 ' + self.op(rng, ty, g, [v]), 't1 at %s l 0 0' % ty,
                                'run LIN dfs %d 1000 1 %d' % (3000 if q else 100000, 3 if q else 20)])
            # everybody the same: conservation
            for f in fs[1:]:
                s = ['init cells 0']
                for t in range(3):
                    s += ['t%d at %s %s %d %d' % (t, ty, f, 0 if f == 'c' else 1, 1 if ty == 'b' else t + 1)]
                out.append(s + ['run LIN pb%d %d 1000 1 %d' % (2 if q else 4, 2000 if q else 60000, 3 if q else 30)])
                if f != 's':
                    s = ['init cells 0']
                    for t in range(4):
                        for i in range(4):
                            s += ['t%d at %s %s %d %d' % (t, ty, f, (4 * i + t) % 3 if f == 'c' and ty != 'b' else 1, (4 * i + t + 1) % 3 if ty != 'b' else 0)]
                    out.append(s + ['run LIN free %d 60 1 %d' % (150 if q else 3000, 2 if q else 20)])
        for _ in range(16 if q else 150):
            v = self.val(rng, 'u')
            s = ['init cells %d' % v]
            for t in range(rng.choice([2, 3])):
                s += ['t%d %s' % (t, self.op(rng, rng.choice('biup' if rng.random() < .3 else 'u'), None, [v, 1])) for _ in range(rng.randint(1, 3))]
            out.append(s + ['run LIN pre %d 300 %d %d' % (800 if q else 10000, seeded(rng), 3 if q else 30)])
        return out
