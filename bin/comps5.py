"""Components: the allocator interface, process identity; sessions for the properties which concern
every component (allocation failures, the allocator ledger)."""
import comps
import comps2
import comps3
import comps4
from comps import hx, ff
from engine import Component

BIG = [2**62, 2**63, 2**64 - 1, 2**61]


class Alloc(Component):
    name = 'alloc'
    trace = 'AllocTrace'
    mcs = (('AllocMC', 'AllocMC'),)
    mcs_thorough = (('AllocMC', 'AllocMCBig'),)
    gens = (('AllocMC', 'AllocGen'),)

    def line(self, c, rng):
        n = lambda v: rng.choice(BIG) if v == -1 else v
        op = c['op']
        if op == 'AmNew':
            return 'am_new %d %d %d' % (c['def'], c['i'], n(c['n']))
        if op == 'AmZero':
            return 'am_zero %d %d %d %d' % (c['def'], c['i'], n(c['a']), c['b'])
        if op == 'AmFree':
            return 'am_free %d' % c['i']
        return 'am_re %d %d %d %d' % (c['f'], c['i'], n(c['n']), c['mask'])

    def random(self, rng, n, fault=False):
        s = []
        sz = lambda: rng.choice([0, 1, 2, 7, 8, 63, 64, 299, 300, 301, 5000, rng.randrange(400), rng.choice(BIG)])
        for _ in range(n):
            i, r = rng.randrange(3), rng.random()
            if r < 0.25:
                x = 'am_new %d %d %d' % (rng.randrange(2), i, sz())
            elif r < 0.45:
                a, b = (sz(), rng.randrange(9)) if rng.random() < 0.7 else (rng.randrange(40), sz())
                x = 'am_zero %d %d %d %d' % (rng.randrange(2), i, a, b)
            elif r < 0.6:
                x = 'am_free %d' % i
            elif r < 0.9:
                x = 'am_re %d %d %d %d' % (rng.randrange(2), i, sz(), 15 if rng.random() < 0.9 else rng.randrange(-1, 16))
            elif r < 0.95:
                x = 'am_valid %d %d' % (rng.randrange(-1, 16), rng.randrange(2))
            else:
                x = 'am_known'
            if fault and not x.startswith('am_free') and rng.random() < 0.7:
                x = rng.choice(['F 1\n', 'F+ 1\n']) + x
            s += x.split('\n')
        return s

    def sessions(self, walks, rng, tier):
        out = [[self.line(c, rng) for c in w] for w in walks]
        out.append(['am_valid %d %d' % (m, s) for m in range(-1, 16) for s in (0, 1)] + ['am_known'])
        out += [self.random(rng, 60) for _ in range(25 if tier == 'quick' else 500)]
        return out

    def fault_sessions(self, walks, rng, tier):
        return [self.random(rng, 40, True) for _ in range(25 if tier == 'quick' else 500)]


class Process(Component):
    name = 'process'
    allocating = {'pr_exe'}
    mcs = (('ProcMC', 'ProcMC'),)
    mcs_thorough = (('ProcMC', 'ProcMCBig'),)
    trace = 'AllocTrace'
    NAMES = ['', '/', '//', '///', 'a', '/a', 'a/', '/a/', '//a//', 'a/b', '/usr/bin/prog', '/usr/bin/prog/', './x', '../y', '.', '..', 'a//b', '/a//', 'x.exe',
             'a b', '%s', 'n' * 300, '/' + 'p/' * 400 + 'q', '\xff/\xfe', '/x/' + 'y' * 4095, 'a/b/c//', ' ']

    def sessions(self, walks, rng, tier):
        L = ['pr_exe %s 1' % hx(n) for n in self.NAMES] + ['pr_exe %s 0' % hx('/a/b')] + ['pr_pid %d' % d for d in (0, 1, 2, 0, 3)]
        for _ in range(150 if tier == 'quick' else 4000):
            L.append('pr_exe %s 1' % hx(''.join(rng.choice('/ab./') for _ in range(rng.randrange(9)))))
        return [L[i:i + 40] for i in range(0, len(L), 40)]

    def fault_sessions(self, walks, rng, tier):
        return [['%s pr_exe %s 1' % (rng.choice(['FF', 'FF+']), hx(n)) for n in self.NAMES]]


class Ledger(Component):
    name = 'ledger'
    trace = 'LedgerTrace'
    mcs = (('LedgerMC', 'LedgerMC'),)
    mcs_thorough = (('LedgerMC', 'LedgerMCBig'),)


def everything():
    """every component, and what finalises its objects"""
    return [(comps.HashMap(), ['hm_fini']), (comps.StringMap(), ['sm_fini 0', 'sm_fini 1']), (comps.ArrayList(), ['al_fini']),
            (comps.StringArray(), ['sa_fini 0', 'sa_fini 1']), (comps.Buffers(), ['ca_fini', 'ua_fini']), (comps.ErrorState(), []),
            (comps.StrUtil(), []), (comps.CmdSev(), []), (comps2.Env(), []), (comps2.Clock(), []),
            (comps2.SharedLib(), ['sl_unload 0', 'sl_unload 1', 'sl_unload 2']),
            (comps3.Logging('levels'), ['lg_shutdown']), (comps3.Logging('start'), ['lg_shutdown']), (comps3.Logging('format'), ['lg_shutdown']),
            (comps3.Logging('macros'), ['lg_shutdown']),
            (comps4.FileSys('size'), ['fs_end 0', 'fs_end 1', 'fs_end 2']), (comps4.FileSys('path'), []),
            (Alloc(), ['am_free 0', 'am_free 1', 'am_free 2']), (Process(), [])]
