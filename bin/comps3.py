"""Components: logging."""
from comps import hx, ff
from engine import Component

FMT = ['%s|%d', '%s', '%d', 'fixed', '', '100%%', '%s%%%d', 'a{b}c %s', '{message}']
FMT = ['%s|%d', '%s', 'fixed', '', '100%%', '%s%%%d', 'a{b}c %s', '{message}%s']   # %d only after %s
LOCS = ['0 - - 0', '1 66 67 0', '1 %s %s 42' % (hx('func'), hx('/a/b.c')), '1 . . 999999999',
        '1 %s %s 1000000000' % (hx('f'), hx('g')), '1 %s %s 18446744073709551615' % (hx('operator()'), hx('x' * 80)),
        '1 %s %s 123456789012' % (hx('{name}'), hx('%s'))]


def trees(rng):
    """names which share prefixes in every way"""
    part = ['a', 'b', 'ab', '', 'a' * 30, 'é', 'A', ' ']
    base = ['.'.join(rng.choice(part) for _ in range(rng.randrange(1, 5))) for _ in range(5)]
    out = set(base)
    for b in base:
        out.add(b + '.' + rng.choice(part))
        out.add(b + rng.choice(part))
        out.add(b.rsplit('.', 1)[0])
        out.add(b[:rng.randrange(0, len(b) + 1)])
        out.add('.' + b)
        out.add(b + '.')
    out.discard('')
    return sorted(out)


class Logging(Component):
    name = 'logging'
    trace = 'LoggingTrace'

    def __init__(self, focus):
        self.focus = focus
        self.mcs = {'levels': (('LoggingMC', 'LoggingMCLevels'),), 'start': (('LoggingMC', 'LoggingMCStart'),),
                    'macros': (('LoggingMC', 'LoggingMCMacros'),), 'format': (('LogFormatMC', 'LogFormatMC'),)}[focus]
        self.mcs_thorough = {'levels': (('LoggingMC', 'LoggingMCLevelsBig'),), 'macros': (('LoggingMC', 'LoggingMCMacrosBig'),),
                             'format': (('LogFormatMC', 'LogFormatMCBig'),)}.get(focus, ())
        self.gens = {'levels': (('LoggingMC', 'LoggingGenLevels'),), 'start': (('LoggingMC', 'LoggingGenStart'),),
                     'macros': (('LoggingMC', 'LoggingGenMacros'),)}.get(focus, ())

    # ---- the model's calls
    def line(self, c):
        op = c['op']
        if op == 'LgSet':
            return 'lg_set %s %d' % (hx(c['n']), c['lv'])
        if op == 'LgSetDef':
            return 'lg_setdef %d' % c['lv']
        if op == 'LgShutdown':
            return 'lg_shutdown'
        if op == 'LgEff':
            return 'lg_eff %s' % hx(c['n'])
        if op == 'LgEnv':
            return 'lg_env %d %s' % (c['var'], hx(c['v']))
        if op == 'LgInit':
            return 'lg_init %d' % c['k']
        if op == 'LgSetH':
            return 'lg_seth %d' % c['h']
        if op == 'LgLog':
            return 'lg_log 0 %d %s 0 - - 0 %s %s %d' % (c['sev'], hx(c['n']), hx(c['fmt']), hx(c['s']), c['num'])
        if op == 'LgMacro':
            ns = int(''.join(map(chr, c['tns'])))
            return 'lg_macro 0 %d %d %d 0 %s %d %d %d %d %s %s %d' % (
                c['sev'] // 10 - 1, c['cond'], c['named'], hx(c['n']), c['xv'], c['fv'], c['tfail'], ns,
                hx(c['fmt']), hx(c['s']), c['num'])
        raise KeyError(op)

    START = ['lg_begin', 'lg_clock 0 1700000000 123456789']

    def log(self, rng, name, sev=None, kind=0, s=None):
        sev = rng.choice([10, 20, 30, 40, 50]) if sev is None else sev
        s = rng.choice(['', 'm', 'hello', '{name}', '%d%s', '\\n', '\x01\x1b']) if s is None else s
        return 'lg_log %d %d %s %s %s %s %d' % (kind, sev, hx(name), rng.choice(LOCS), hx(rng.choice(FMT)), hx(s),
                                               rng.choice([0, 1, -1, 2147483647, -2147483647, 77]))

    def walked(self, walks, begin):
        return [self.START + begin + [self.line(c) for c in w] for w in walks]

    # ---- levels
    def levels_sessions(self, walks, rng, tier):
        out = self.walked(walks, ['lg_names 61 612e62 612e622e63 6162 612e 2e 2e61 62', 'lg_init 0'])
        for i in range(40 if tier == 'quick' else 1200):
            names = trees(rng)
            watch = rng.sample(names, min(12, len(names)))
            s = self.START + ['lg_names ' + ' '.join(hx(n) for n in watch)]
            if rng.random() < 0.7:
                s.append('lg_init 0')
            s.append('lg_seth %d' % rng.choice([1, 2, 2, 3]))
            for _ in range(50):
                n = rng.choice(watch if rng.random() < 0.8 else names)
                r = rng.random()
                if r < 0.42:
                    lv = rng.choice([0, 10, 20, 30, 40, 50])
                    if rng.random() < 0.08:
                        lv = rng.choice([-1, 1, 5, 15, 21, 41, 49, 51, 60, 2147483647, -2147483647])
                    n = rng.choice([None, '', '']) if rng.random() < 0.08 else n
                    s.append('lg_set %s %d' % (hx(n), lv))
                elif r < 0.50:
                    s.append('lg_setdef %d' % rng.choice([0, 10, 20, 30, 40, 50, 7, 51]))
                elif r < 0.58:
                    s.append('lg_eff %s' % hx(rng.choice([n, n, '', None])))
                elif r < 0.66:
                    k = rng.choice([-1, rng.randrange(0, len(n.encode()) + 1)])
                    s.append('lg_own %s %d' % (hx(n), k))
                elif r < 0.68:
                    s.append('lg_own - %d' % rng.choice([-1, 0, 3]))
                elif r < 0.85:
                    s.append('lg_en %s %d' % (hx(rng.choice([n, n, n, '', None])), rng.choice([0, 9, 10, 11, 19, 20, 30, 40, 50, 51, -1])))
                elif r < 0.97:
                    s.append(self.log(rng, rng.choice([n, n, n, '', None])))
                elif r < 0.985:
                    s.append('lg_shutdown')
                    if rng.random() < 0.5:
                        s.append('lg_init %d' % rng.choice([0, 0, 1]))
                else:
                    s.append('lg_def')
            out.append(s + ['lg_shutdown'])
        # many loggers: the map grows
        for k in ([150] if tier == 'quick' else [150, 1500]):
            s = self.START + ['lg_names 6e30 6e37372e78 6e39 7a', 'lg_init 0']
            for i in range(k):
                s.append('lg_set %s %d' % (hx('n%d' % i), rng.choice([0, 10, 20, 30, 40, 50])))
                if rng.random() < 0.3:
                    s.append('lg_eff %s' % hx('n%d.%s' % (rng.randrange(k), rng.choice(['', 'x', 'y.z']))))
            out.append(s + ['lg_shutdown'])
        return out

    allocating = {'lg_set', 'lg_init', 'lg_own', 'lg_eff', 'lg_en'}

    def levels_faults(self, rng, tier):
        out = []
        for f in ('FF', 'FF+'):
            for i in range(5 if tier == 'quick' else 60):
                names = trees(rng)
                s = self.START + ['lg_names ' + ' '.join(hx(n) for n in names[:12]), 'lg_init 0', 'lg_seth 2']
                for _ in range(12):
                    s.append('%s lg_set %s %d' % (f, hx(rng.choice(names)), rng.choice([0, 10, 30, 50])))
                    n = hx(rng.choice(names))
                    s.append('%s %s' % (f, rng.choice(['lg_own %s -1' % n, 'lg_eff %s' % n, 'lg_en %s 20' % n])))
                out.append(s + ['lg_shutdown', 'lg_init 0', 'lg_shutdown'])
        return out

    # ---- macros
    def macro(self, rng, lib, sev, cond, named, copy, name, ns, fail=0):
        return 'lg_macro %d %d %d %d %d %s %d %d %d %d %s %s %d' % (
            lib, sev, cond, named, copy, hx(name), rng.random() < 0.6, rng.random() < 0.6, fail, ns,
            hx(rng.choice(FMT)), hx(rng.choice(['', 'x', '{name}', '%d'])), rng.randrange(-5, 5))

    def macros_sessions(self, walks, rng, tier):
        out = self.walked(walks, ['lg_init 0', 'lg_seth 2'])
        q = tier == 'quick'
        # every site of every library, three times, at every level of its logger
        for lib in range(7):
            s = self.START + ['lg_init 0', 'lg_seth 3', 'lg_setdef 10', 'lg_set %s %d' % (hx('lg.x'), 10)]
            for sev in range(5):
                for cond in range(7):
                    for named in (0, 1):
                        ns = 1000000000
                        for k in range(3 if not q else 2):
                            s.append(self.macro(rng, lib, sev, cond, named, rng.randrange(2), 'lg.x.y', ns))
                            ns += rng.choice([1, 99999999, 100000000, 100000001])
            out.append(s)
        # histories
        for i in range(60 if q else 1500):
            s = list(self.START)
            if rng.random() < 0.8:
                s.append('lg_init 0')
            s.append('lg_seth %d' % rng.choice([2, 2, 2, 3, 1, 0]))
            lib = rng.choice([0, 0, 0, 6, 6, 1, 2, 3, 4, 5])
            sites = [(rng.randrange(5), rng.randrange(7), rng.randrange(2), rng.randrange(2)) for _ in range(5)]
            if rng.random() < 0.5:   # both copies, named and not, of one condition
                sev, cond = rng.randrange(5), rng.choice([1, 4, 5, 6])
                sites = [(sev, cond, a, b) for a in (0, 1) for b in (0, 1)]
            ns = rng.choice([0, 1, 99999999, 100000000, 50000000000000, 1700000000000000000])
            for _ in range(45):
                r = rng.random()
                if r < 0.72:
                    st = rng.choice(sites)
                    step = rng.choice([0, 1, 100000000, 99999999, 100000001, 50000000, 3000000000000, 2999999999999, 3000000000001,
                                       4294967296, -1, -200000000])
                    ns = max(0, ns + step)
                    s.append(self.macro(rng, lib, st[0], st[1], st[2], st[3], rng.choice(['a', 'a.b', 'a.b', '', None]), ns,
                                        1 if rng.random() < 0.04 else 0))
                elif r < 0.82:
                    s.append('lg_set %s %d' % (hx(rng.choice(['a', 'a', 'a.b', ''])), rng.choice([0, 10, 20, 30, 40, 50])))
                elif r < 0.86:
                    s.append('lg_setdef %d' % rng.choice([0, 10, 20, 30, 40, 50]))
                elif r < 0.92:
                    s.append(self.log(rng, rng.choice(['a', 'a.b', '', None]), sev=rng.choice([10, 20, 30, 40, 50, 0, 5, 35, 60])))
                elif r < 0.95:
                    s.append('lg_seth %d' % rng.choice([0, 1, 2, 3]))
                elif r < 0.97:
                    s.append('lg_clock %d %d %d' % (rng.random() < 0.3, rng.choice([0, 1, 4294967296, 1700000000]), rng.choice([0, 1, 999999999])))
                elif r < 0.985:
                    s.append('lg_geth')
                elif rng.random() < 0.5:
                    s += ['lg_shutdown']
                else:
                    s += ['lg_shutdown', 'lg_init 0', 'lg_seth 2',
                          self.log(rng, 'a', kind=1, sev=rng.choice([0, 5, 10, 20, 50, 99]))]
            out.append(s)
        return out

    def macros_faults(self, rng, tier):
        out = []
        for f in ('FF', 'FF+'):
            for i in range(3 if tier == 'quick' else 40):
                s = self.START + ['lg_init 0', 'lg_seth 2', 'lg_set 61 10', 'lg_set 62 10']
                ns = 10 ** 15
                for _ in range(12):
                    ns += 60000000
                    s.append('%s %s' % (f, self.macro(rng, 0, rng.randrange(5), rng.randrange(7), 1, 0, rng.choice(['a.b', 'a', 'c', '']), ns)))
                    s.append('%s %s' % (f, self.log(rng, rng.choice(['a.b.c', 'c.d', 'a']))))
                out.append(s + ['lg_shutdown'])
        return out

    # ---- format
    ATOMS = ['{severity}', '{name}', '{message}', '{function_name}', '{file_name}', '{time}', '{date_time_with_ms}',
             '{time_as_nanoseconds}', '{line_number}', '{', '}', '{}', '{{', '}}', '{nam}', '{names}', '{ name}', '{Name}', '{name', 'name}',
             '\\n', '\\t', '\\a', '\\b', '\\r', '\\x1b', '\\x1', '\\x', '\\\\', '\\', '\\q', '\\x1B', '\\x2b', '\\{name}', '{na\\me}',
             ' ', 'x', '%', '%s', '%d', '%%', '[', ']', '\x7f', 'é', '\x01', 'n', '1b', '{time_as_nanosecond}', '{line_number }']

    def anyformat(self, rng):
        r = rng.random()
        if r < 0.7:
            return ''.join(rng.choice(self.ATOMS) for _ in range(rng.randrange(1, 12)))
        if r < 0.85:
            n = rng.choice([200, 1000, 1020, 2000, 2046, 2047])
            f = ''
            while len(f.encode()) < n:
                f += rng.choice(self.ATOMS[:9] + ['plain text ', '\\n', '{', 'x' * 50])
            return f.encode('utf8', 'replace')[:n].decode('utf8', 'ignore')
        if r < 0.92:
            n = rng.choice([2045, 2046, 2047, 2048, 2049, 3000])
            return ('{name}' + 'y' * 3000)[:n]
        return rng.choice(['{' * 1000, '}' * 2000, '{name}' * 300, '{severity}' * 200, '\\n' * 1000, '{message}' * 3, 'a{' * 500, '\\' * 2046])

    def format_sessions(self, walks, rng, tier):
        out = []
        q = tier == 'quick'
        sizes = [0, 1, 2, 50, 1000, 1021, 1022, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 4096, 5000]
        for i in range(110 if q else 2500):
            s = list(self.START)
            f = self.anyformat(rng)
            s.append('lg_env 4 %s' % hx(f))
            std = rng.choice([None, '', '0', '1'])
            s.append('lg_env 1 %s' % hx(std))
            s.append('lg_env 2 %s' % hx(rng.choice([None, None, '', '0', '1'])))
            s.append('lg_env 3 %s' % hx(rng.choice([None, '', '0', '1', '1'])))
            s.append('lg_init 0')
            s.append('lg_setdef 10')
            if rng.random() < 0.15 and len(f) < 400:
                s.append('lg_tty 1')
                big = [0, 1, 50]
            else:
                big = sizes
            many = '{message}' * 3 in f or len(f) > 300
            for _ in range(7):
                k = rng.choice(big if not many else big[:5])
                msg = rng.choice(['', 'm', '{name}', '%d']) if k < 3 else rng.choice(['m', '%', '{']) * k
                if rng.random() < 0.25:
                    s.append('lg_clock 0 %d %d' % (rng.choice([0, 1, 9999999999 % 9223372036, 1700000000, 9223372035]), rng.choice([0, 1, 5000000, 999999999])))
                name = rng.choice([None, '', 'n', 'a.b', '{message}', '%s', 'n' * 300])
                r = rng.random()
                if r < 0.5:
                    s.append(self.log(rng, name, s=msg))
                elif r < 0.75:
                    s.append('lg_console %d %d %s %s %s %s 5' % (rng.choice([0, 1, 999999999, 1000000000, 1700000000123456789]),
                                                               rng.choice([10, 20, 30, 40, 50, 50, 0, 60, 15, -1]), hx(name), rng.choice(LOCS),
                                                               hx(rng.choice(FMT)), hx(msg)))
                else:
                    s.append('lg_fmt %d %d %s %s %s %s %d' % (rng.choice([0, 5, 1234567890123456789]), rng.choice([0, 10, 20, 30, 40, 50]),
                                                             hx(name), rng.choice(LOCS), hx(msg), hx(rng.choice(['', 'before', 'b' * 1023])),
                                                             rng.choice([0, 1, 10, 1024, 1029])))
            out.append(s + ['lg_shutdown'])
        # every token alone, every escape alone, with and without a location
        for a in self.ATOMS:
            s = self.START + ['lg_env 4 %s' % hx('<%s>' % a), 'lg_env 1 31', 'lg_init 0', 'lg_setdef 10']
            for loc in LOCS:
                s.append('lg_log 0 30 %s %s %s %s 4' % (hx('nm'), loc, hx('%s'), hx('msg')))
            out.append(s)
        # message lengths which meet the internal buffers exactly
        for total in range(1015, 1032) if q else range(1000, 1060):
            for fm in ('{message}', '\\x1b{message}{name}', '{name}{message}x'):
                s = self.START + ['lg_env 4 %s' % hx(fm), 'lg_env 3 %s' % hx(rng.choice(['0', '1'])), 'lg_init 0']
                s.append('lg_log 0 30 %s 0 - - 0 %s %s 4' % (hx('nm'), hx('%s'), hx('m' * total)))
                out.append(s)
        return out

    def format_faults(self, rng, tier):
        out = []
        for f in ('FF', 'FF+'):
            for i in range(8 if tier == 'quick' else 100):
                s = self.START + ['lg_env 4 %s' % hx(self.anyformat(rng)[:300]), 'lg_env 1 %s' % hx(rng.choice(['0', '1'])),
                                  'lg_env 3 %s' % hx(rng.choice(['0', '1'])), 'lg_init 0', 'lg_setdef 10']
                for _ in range(4):
                    m = 'q' * rng.choice([10, 1000, 1024, 1100, 3000])
                    s.append('%s %s' % (f, self.log(rng, rng.choice(['a', 'a.b']), s=m)))
                    s.append('%s lg_fmt 7 20 %s %s %s . %d' % (f, hx('nm'), rng.choice(LOCS), hx(m), rng.choice([0, 5])))
                out.append(s + ['lg_shutdown'])
        return out

    # ---- start-up and shutdown
    def start_sessions(self, walks, rng, tier):
        out = self.walked(walks, ['lg_names 61'])
        vals = [None, '', '0', '1', '2', '01', '10', '0 ', ' 1', 'true', '-1', 'x']
        for i in range(70 if tier == 'quick' else 2000):
            s = self.START + ['lg_names 61 612e62 62']
            for _ in range(40):
                r = rng.random()
                if r < 0.22:
                    v = rng.choice([1, 2, 3])
                    s.append('lg_env %d %s' % (v, hx(rng.choice(vals[:4] if rng.random() < 0.75 else vals))))
                elif r < 0.3:
                    s.append('lg_env %d %s' % (rng.choice([4, 4, 4, 5]), hx(rng.choice([None, '', '{message}', '{name}:{message}', '\\t{severity}', 'z']))))
                elif r < 0.45:
                    s.append('lg_init %d' % rng.choice([0, 0, 0, 1, 2]))
                elif r < 0.6:
                    s.append('lg_shutdown')
                elif r < 0.68:
                    s.append('lg_set %s %d' % (hx(rng.choice(['a', 'a.b', 'b', 'c', ''])), rng.choice([0, 10, 30, 50])))
                elif r < 0.73:
                    s.append('lg_setdef %d' % rng.choice([0, 10, 30, 50]))
                elif r < 0.78:
                    s.append('lg_seth %d' % rng.choice([0, 1, 2, 3]))
                elif r < 0.82:
                    s.append(rng.choice(['lg_geth', 'lg_def', 'lg_eff 61', 'lg_own 61 -1', 'lg_en 61 20', 'lg_en - 20']))
                elif r < 0.92:
                    s.append(self.log(rng, rng.choice(['a', 'a.b', '', None])))
                elif r < 0.96:
                    s.append(self.macro(rng, 0, rng.randrange(5), rng.randrange(7), rng.randrange(2), 0, 'a.b', rng.choice([0, 10 ** 12, 10 ** 15])))
                elif r < 0.98:
                    s.append('lg_console 5 %d 61 0 - - 0 %s %s 1' % (rng.choice([10, 30]), hx('%s'), hx('direct')))
                else:
                    s.append('lg_fmt 5 20 61 0 - - 0 %s . 4' % hx('formatted'))
            out.append(s + ['lg_shutdown', 'lg_shutdown'])
        return out

    def start_faults(self, rng, tier):
        out = []
        for f in ('FF', 'FF+'):
            for i in range(3 if tier == 'quick' else 30):
                s = self.START + ['lg_names 61', '%s lg_init 0' % f, 'lg_set 61 30', 'lg_shutdown']
                s += ['lg_env 3 %s' % hx(rng.choice(['0', '1', 'x'])), '%s lg_init 0' % f, 'lg_shutdown', 'lg_shutdown', 'lg_env 3 -',
                      'lg_init 0', '%s lg_set %s 10' % (f, hx('b')), self.log(rng, 'a'), 'lg_shutdown']
                out.append(s)
        return out

    def sessions(self, walks, rng, tier):
        return getattr(self, self.focus + '_sessions')(walks, rng, tier)

    def fault_sessions(self, walks, rng, tier):
        return getattr(self, self.focus + '_faults')(rng, tier)
