"""Components: environment, digests, time, shared libraries."""
from comps import hx, ff
from engine import Component


def chunked(lines, n):
    return [lines[i:i + n] for i in range(0, len(lines), n)]


class Env(Component):
    name = 'env'
    trace = 'EnvTrace'
    mcs = (('EnvMC', 'EnvMC'),)
    mcs_thorough = (('EnvMC', 'EnvMCBig'),)
    gens = (('EnvMC', 'EnvGen'),)

    def line(self, c):
        op = c['op']
        if op == 'EvSet':
            l = ['ev_setow %s %s %d' % (hx(c['n']), hx(c['v']), 1 if c['ow'] else 0)]
            return (['ev_sysfail'] if c['sysfail'] else []) + l
        if op == 'EvCopy':
            return ['ev_copy %s %s' % (hx(c['n']), hx(c['src']))]
        if op == 'EvExt':
            return ['ev_ext %s %s' % (hx(c['n']), hx(c['v']))]
        if op == 'EvGet':
            return ['ev_get %s 1' % hx(c['n'])]
        return ['ev_home']

    def sessions(self, walks, rng, tier):
        out = [[x for c in w for x in self.line(c)] for w in walks]
        for _ in range(60 if tier == 'quick' else 1500):
            s = []
            for _ in range(60):
                n = '#%d' % rng.randrange(7)
                if rng.random() < 0.12:
                    n = hx(rng.choice([None, '', '=', 'VA=', '=VA', 'VA=1', 'VA=', 'VB=2', 'HOME=', 'V=', 'VAB=\x01']))
                v = hx(rng.choice([None, None, '', '1', '1=2', '=', '2=', 'a' * rng.randrange(1, 50), 'x' * 5000, '\x01\xff'.encode('latin1'),
                                   'HOME', '/home/u', ' ', '\n']))
                r = rng.random()
                if rng.random() < 0.05 and not n == '-':
                    s.append('ev_sysfail')
                    s.append('ev_setow %s %s %d' % (n, v, rng.randrange(2)))
                elif r < 0.25:
                    s.append('ev_set %s %s' % (n, v))
                elif r < 0.5:
                    s.append('ev_setow %s %s %d' % (n, v, rng.randrange(2)))
                elif r < 0.57:
                    s.append('ev_copy #%d #%d' % (rng.randrange(7), rng.randrange(7)))
                elif r < 0.8:
                    m = rng.choice([n, n, '#%d' % rng.randrange(7), hx('VP_unset'), hx('V' * rng.randrange(2, 9) + 'zz')])
                    s.append('ev_get %s %d' % (m, rng.random() > 0.05))
                elif r < 0.92:
                    s.append('ev_home')
                else:
                    s.append('ev_ext #%d %s' % (rng.randrange(7), v))
            out.append(s)
        return out


class Sha(Component):
    name = 'sha'
    trace = 'ShaTrace'
    mcs = (('ShaMC', 'ShaMC'),)
    mcs_thorough = (('ShaMC', 'ShaMCBig'),)
    gens = (('ShaMC', 'ShaGen'),)

    def line(self, c):
        if c['op'] == 'ShInit':
            return 'sh_init %d' % c['i']
        if c['op'] == 'ShUpdate':
            return 'sh_update %d %s' % (c['i'], hx(c['d']))
        return 'sh_final %d' % c['i']

    def sessions(self, walks, rng, tier):
        q = tier == 'quick'
        out = [[self.line(c) for c in w] for w in walks]

        def data(n):
            return hx(bytes(rng.randrange(256) for _ in range(n)))
        # every length around the block boundaries, in one piece and cut at every kind of place
        for n in list(range(0, 130 if q else 260)) + [511, 512, 1023, 4096]:
            s = ['sh_init 0', 'sh_update 0 %s' % data(n), 'sh_final 0', 'sh_init 1']
            left = n
            while left:
                k = min(left, rng.choice([1, 2, 7, 55, 56, 57, 63, 64, 65, 128, left]))
                s.append('sh_update 1 %s' % data(k))
                left -= k
                if rng.random() < 0.2:
                    s.append('sh_update 1 .')
            out.append(s + ['sh_final 1'])
        for cut in range(0, 129, 1 if not q else 3):
            out.append(['sh_init 2', 'sh_update 2 %s' % data(cut), 'sh_update 2 %s' % data(129 - cut), 'sh_final 2'])
        # interleaved contexts, restarts half way, abandoned contexts
        for _ in range(12 if q else 300):
            s, live = [], set()
            for _ in range(40):
                i = rng.randrange(4)
                r = rng.random()
                if i not in live or r < 0.08:
                    s.append('sh_init %d' % i)
                    live.add(i)
                elif r < 0.75:
                    s.append('sh_update %d %s' % (i, data(rng.choice([0, 1, 3, 40, 55, 56, 63, 64, 65, 119, 120, rng.randrange(200)]))))
                else:
                    s.append('sh_final %d' % i)
                    live.discard(i)
            out.append(s + ['sh_final %d' % i for i in sorted(live)])
        # long messages
        out.append(['sh_init 0', 'sh_fill 0 255 1048639 1000', 'sh_init 1', 'sh_fill 1 7 3145728 3145728', 'sh_final 0', 'sh_final 1'])
        out.append(['sh_init 0', 'sh_fill 0 0 536870912 1048576', 'sh_final 0'])
        if not q:
            out.append(['sh_init 0', 'sh_fill 0 97 536870917 777777', 'sh_final 0'])
            out.append(['sh_init 0', 'sh_fill 0 1 4294967366 4294967366', 'sh_final 0'])
        return out


class Clock(Component):
    name = 'clock'
    trace = 'ClockTrace'
    mcs = (('ClockMC', 'ClockMC'),)
    mcs_thorough = (('ClockMC', 'ClockMCBig'),)

    def sessions(self, walks, rng, tier):
        L = []
        I63 = 2**63
        pts = [0, 1, -1, 9, 10, -10, 999, 10**3, 10**6, 10**9 - 1, 10**9, 10**9 + 1, -10**9, -10**9 + 1, 10**18, 9 * 10**18, I63 - 1, -I63,
               -I63 + 1, 4294967295, 4294967296, 2**31 - 1, 2**31, 2**53 + 1, (2**31 - 1) * 10**9, 2**31 * 10**9, 2**32 * 10**9 + 5, 123456789012345678]
        sizes = [0, 1, 2, 5, 10, 11, 12, 18, 19, 20, 21, 22, 23, 24, 25, 30, 31, 32, 33, 64, 256]
        for tp in pts:
            for op in ('tm_ns', 'tm_sec', 'tm_date'):
                if op == 'tm_date' and tp < 0:
                    continue
                for n in sizes if tp in (0, -1, 10**18, -I63, I63 - 1) else (21, 22, 23, 24, 32):
                    L.append('%s %d %d' % (op, tp, n))
        L.append('tm_null')

        def point():
            r = rng.random()
            if r < 0.3:
                return rng.randrange(I63)
            if r < 0.6:
                return rng.randrange(10**rng.randrange(1, 19))
            # dates around month, year and day boundaries
            d = rng.choice([59, 60, 364, 365, 789, 790, 11016, 11017, 10957, 19782, 19783, 47540, 47541, 47482, rng.randrange(106750)])
            return (d * 86400 + rng.choice([0, -1, 1, 3599, 3600, 86399, rng.randrange(86400)])) * 10**9 + \
                rng.choice([0, 999999999, 999500000, 1000000, 999999, 50000000, 9999999, rng.randrange(10**9)])
        for _ in range(1500 if tier == 'quick' else 40000):
            r = rng.random()
            if r < 0.02:
                L.append('tm_tz %d' % rng.choice([0, 3600, -3600, 19800, -34200, 50400, -43200, 20700, 1, -1, rng.randrange(-43200, 50400)]))
            elif r < 0.5:
                p = point()
                L.append('tm_date %d %d' % (max(p, 0), rng.choice([32, 24, 33, 64, 23, rng.randrange(0, 40)])))
            elif r < 0.65:
                L.append('%s %d %d' % (rng.choice(['tm_ns', 'tm_sec']), rng.choice([1, -1]) * point(), rng.choice([32, rng.randrange(0, 40)])))
            elif r < 0.75:
                L.append('tm_now %d' % rng.randrange(2))
            elif r < 0.85:
                sec = rng.choice([0, 1, 9223372035, 2**31, 2**32, 2**31 - 1, 4294967296 * 2, rng.randrange(9223372035), -1, -5])
                ns = rng.choice([0, 1, 999999999, 500000000, 123456789, rng.randrange(10**9)])
                L.append('tm_script %d %d %d %d %d %d' % (rng.choice([1, 1, 1, 2]), rng.randrange(2), sec, ns,
                                                          rng.choice([0, 7, 2**33, -3, rng.randrange(10**9)]), rng.choice([0, 3, 999999999])))
            else:
                k = rng.choice(['s_ns', 'ms_ns', 'us_ns', 'ns_s', 'ns_ms', 'ns_us', 's_nsi', 'ms_nsi', 'us_nsi'])
                lim = {'s_ns': 9223372036, 'ms_ns': 9223372036854, 'us_ns': 9223372036854775}.get(k, I63 - 1)
                if k.endswith('i'):
                    lim = 2**31 - 1
                v = rng.choice([0, 1, lim, lim - 1, 999, 1000, 10**6, 10**6 - 1, 10**9 - 1, 2**31, 2**32 + 1, rng.randrange(lim + 1)])
                v = min(v, lim) * rng.choice([1, -1])
                b = rng.choice([0, 1, -1, 7])
                if abs(v - b) > lim:
                    b = 0
                L.append('tm_conv %s %d %d' % (k, v - b, b))
        return chunked(L, 200)


class SharedLib(Component):
    name = 'shared_lib'
    trace = 'SharedLibTrace'
    mcs = (('SharedLibMC', 'SharedLibMC'),)
    mcs_thorough = ()
    gens = (('SharedLibMC', 'SharedLibGen'),)
    allocating = {'sl_load'}
    SY = ['6661', '6662', '6663', '6463', '78', '-', '.', '666361', '66']

    def line(self, c):
        op = c['op']
        if op == 'SlLoad':
            l = []
            if c['infofail']:
                l.append('sl_infofail')
            if c['refused']:
                l.append('F 1')
            l.append('sl_load %d %d 0 %d' % (c['h'], c['lib'] if c['given'] else 9, 0 if c['valid'] else 1))
            return l
        if op == 'SlUnload':
            return (['sl_closefail'] if c['closefail'] else []) + ['sl_unload %d' % c['h']]
        return ['sl_sym %d %s' % (c['h'], hx(c['n']))]

    def sessions(self, walks, rng, tier):
        out = [[x for c in w for x in self.line(c)] for w in walks]
        for _ in range(40 if tier == 'quick' else 1200):
            s = []
            for _ in range(40):
                h = rng.randrange(3)
                r = rng.random()
                if r < 0.35:
                    if rng.random() < 0.08:
                        s.append('sl_infofail')
                    pre = rng.choice(['', '', '', '', 'FF ', 'FF+ '])
                    s.append('%ssl_load %d %d %d' % (pre, rng.choice([h, h, h, h, h, 3]), rng.choice([1, 2, 3, 1, 2, 3, 0, -1, 9]), rng.randrange(2)))
                elif r < 0.6:
                    if rng.random() < 0.08:
                        s.append('sl_closefail')
                    s.append('sl_unload %d' % h)
                else:
                    s.append('sl_sym %d %s %d' % (h, rng.choice(self.SY), rng.random() < 0.3))
            out.append(s)
        names = ['', 'a', 'rcl', 'x' * 50, 'x' * 255, '%s', '%d%n', 'a/b', 'lib.so', 'z' * 2000]
        L = []
        for nme in names:
            for dbg in (0, 1):
                need = len(nme) + 7 + dbg
                for n in sorted({0, 1, need - 2, need - 1, need, need + 1, need + 30, len(nme)} - {-1}):
                    if n >= 0:
                        L.append('sl_name %s %d %d' % (hx(nme), n, dbg))
        L += ['sl_name - 20 0', 'sl_name 61 -1 0', 'sl_name - -1 1']
        return out + chunked(L, 100)
