"""The components: how model transitions and random histories become driver scripts."""
from engine import Component


def hx(b):
    """driver encoding of a byte string"""
    if b is None or b == [-1]:
        return '-'
    if isinstance(b, str):
        b = b.encode()
    b = bytes(b)
    return b.hex() if b else '.'


class HashMap(Component):
    name = 'hash_map'
    trace = 'HashMapTrace'
    mcs = (('HashMapMC', 'HashMapMC'),)
    mcs_thorough = (('HashMapMC', 'HashMapMCBig'),)
    gens = (('HashMapMC', 'HashMapGen'),)
    allocating = {'hm_init', 'hm_set', 'hm_unset'}
    # key size, data size, hash function (5: the library's own string functions)
    shapes = [(2, 1, 1), (2, 8, 0), (8, 3, 5), (16, 16, 2), (3, 1, 3), (2, 40, 4), (9, 2, 6), (2, 1, 7)]

    def line(self, c, shape, nk):
        op = c['op']
        if op == 'HmInit':
            return 'hm_init %d %d %d %d %d .' % (c['capreq'], shape[0], shape[1], shape[2], nk)
        if op == 'HmSet':
            return 'hm_set %d %d %d' % (c['k'], c['var'], c['v'])
        if op == 'HmUnset':
            return 'hm_unset %d %d' % (c['k'], 1)
        if op == 'HmGet':
            return 'hm_get %d %d' % (c['k'], 0)
        if op == 'HmFini':
            return 'hm_fini'
        raise ValueError(op)

    def sessions(self, walks, rng, tier):
        out = []
        for i, w in enumerate(walks):
            sh = self.shapes[i % len(self.shapes)]
            s = []
            for c in w:
                s.append(self.line(c, sh, 3))
                if rng.random() < 0.08:
                    s.append(rng.choice(['hm_nulls', 'hm_iter 0', 'hm_iter 1', 'hm_next -1 0',
                                         'hm_next %d %d' % (rng.randrange(3), rng.randrange(2))]))
            out.append(s + ['hm_iter 0', 'hm_fini', 'hm_fini'])
        out.append(self.bad_inits())
        n = 60 if tier == 'quick' else 600
        out += [self.random(rng, 120 if tier == 'quick' else 300) for _ in range(n)]
        return out

    def bad_inits(self):
        s = []
        for cap in (0, 1, 2**62, 2**63, 2**64 - 1, 2**61 + 1, 2**58, 2**57, 2**59 - 1, 2**60):
            s.append('hm_init %d 2 1 1 2 .' % cap)
            s += ['hm_set 0 0 1', 'hm_nulls', 'hm_fini']
        for ks, ds in ((0, 1), (1, 0), (0, 0)):
            s.append('hm_init 4 %d %d 1 2 .' % (ks, ds))
        for nul in ('m', 'h', 'c', 'a', 'mh', 'ca'):
            s += ['hm_init 4 2 2 1 2 %s' % nul, 'hm_set 0 0 1']
        s += ['hm_nulls', 'hm_fini', 'hm_get 0 0', 'hm_next -1 0', 'hm_iter 0', 'hm_unset 0 0']
        return s

    def random(self, rng, n, fault=False, iterate=0.1):
        sh = rng.choice(self.shapes)
        nk = rng.choice([2, 4, 8, 14, 14, 25, 40])
        cap = rng.choice([1, 1, 2, 3, 4, 5, 8, 9, 16, 31, 33, 64, 100])
        s = ['hm_init %d %d %d %d %d .' % (cap, sh[0], sh[1], sh[2], nk)]
        pset = rng.choice([0.4, 0.6, 0.8])
        last = -1
        for _ in range(n):
            r = rng.random()
            k = rng.randrange(nk)
            v = rng.randrange(2)
            if r < iterate:
                s.append(rng.choice(['hm_iter 0', 'hm_iter 1', 'hm_next -1 0', 'hm_next %d %d' % (k, v),
                                     'hm_next %d %d' % (k, v)]))
            elif r < iterate + 0.02:
                s.append('hm_nulls')
            elif r < iterate + 0.06:
                s.append('hm_get %d %d' % (k, v))
            elif r < iterate + 0.06 + (1 - iterate - 0.06) * pset:
                s.append('hm_set %d %d %d' % (k, v, rng.randrange(200)))
            elif r < 0.995:
                s.append('hm_unset %d %d' % (k, v))
            else:
                s += ['hm_fini', 'hm_init %d %d %d %d %d .' % (cap, sh[0], sh[1], sh[2], nk)]
        s += ['hm_iter 0', 'hm_fini']
        if fault:
            s = [('FF+ ' if rng.random() < 0.2 else 'FF ') + x if x.split()[0] in ('hm_init', 'hm_set')
                 else x for x in s]
        return s

    def iter_sessions(self, rng, tier):
        """mostly iteration: every start key, repeated and interleaved walks"""
        out = []
        for _ in range(60 if tier == 'quick' else 600):
            out.append(self.random(rng, 100, iterate=0.6))
        return out

    def fault_sessions(self, walks, rng, tier):
        return [self.random(rng, 25, fault=True) for _ in range(30 if tier == 'quick' else 300)]


HUGE = [2**62, 2**63, 2**64 - 1, 2**61, 2**60 + 3]


def ff(rng, s, ops):
    """fault-mode version of a session: the given operations meet refused allocations"""
    out = []
    for x in s:
        if x.split()[0] in ops and rng.random() < 0.8:
            r = rng.random()
            out.append(('FF+ ' if r < 0.3 else 'FF ') + x)
        else:
            out.append(x)
    return out


def rand_str(rng, alpha='ab', mx=6):
    return ''.join(rng.choice(alpha) for _ in range(rng.randrange(mx + 1)))


class StringMap(Component):
    name = 'string_map'
    trace = 'StringMapTrace'
    mcs = (('StringMapMC', 'StringMapMC'),)
    mcs_thorough = (('StringMapMC', 'StringMapMCBig'),)
    gens = (('StringMapMC', 'StringMapGen'), ('StringMapMC', 'StringMapGen2'))
    allocating = {'sm_init', 'sm_reserve', 'sm_set', 'sm_setn', 'sm_copy', 'sm_clear', 'sm_unset'}

    def line(self, c):
        op, s = c['op'], c['slot']
        if op == 'SmInit':
            return 'sm_init %d %d' % (s, c['capreq'])
        if op == 'SmReserve':
            return 'sm_reserve %d %d' % (s, c['capreq'])
        if op in ('SmFini', 'SmClear'):
            return '%s %d' % ({'SmFini': 'sm_fini', 'SmClear': 'sm_clear'}[op], s)
        if op == 'SmSet':
            return 'sm_set %d %s %s' % (s, hx(c['key']), hx(c['val']))
        if op == 'SmSetNR':
            return 'sm_setn %d %s %s' % (s, hx(c['key']), hx(c['val']))
        if op == 'SmUnset':
            return 'sm_unset %d %s' % (s, hx(c['key']))
        if op == 'SmGet':
            return 'sm_get %d %s' % (s, hx(c['key']))
        if op == 'SmCopy':
            return 'sm_copy %d %d' % (c['src'], s)
        raise ValueError(op)

    def sessions(self, walks, rng, tier):
        out = []
        for w in walks:
            s = []
            for c in w:
                s.append(self.line(c))
                if rng.random() < 0.1:
                    s.append(self.query(rng, rng.randrange(2), ['', 'a', 'ab', 'aba']))
            out.append(s + self.end())
        s = []
        for h in HUGE:
            s += ['sm_init 0 %d' % h, 'sm_init 0 2', 'sm_set 0 61 62', 'sm_set 0 62 62', 'sm_reserve 0 %d' % h,
                  'sm_get 0 62', 'sm_set 0 63 63', 'sm_fini 0']
        out.append(s + ['sm_nulls 0', 'sm_init 0 0', 'sm_nulls 0', 'sm_set 0 - 61', 'sm_set 0 61 -',
                        'sm_setn 0 - 61', 'sm_unset 0 -'] + self.end())
        for _ in range(60 if tier == 'quick' else 800):
            out.append(self.random(rng, 90 if tier == 'quick' else 250))
        return out

    def end(self):
        return ['sm_look 0', 'sm_look 1', 'sm_fini 0', 'sm_fini 1', 'sm_fini 0']

    def query(self, rng, s, keys):
        r = rng.random()
        k = rng.choice(keys)
        if r < 0.3:
            return 'sm_get %d %s' % (s, hx(k))
        if r < 0.7:
            k = k + rng.choice(['', '', 'a', 'zz', '='])
            return 'sm_getl %d %s %d' % (s, hx(k), rng.randrange(len(k) + 1))
        if r < 0.8:
            return 'sm_next %d %s' % (s, hx(k))
        if r < 0.9:
            return 'sm_nulls %d' % s
        return 'sm_look %d' % s

    def random(self, rng, n):
        keys = rng.choice([['', 'a', 'ab', 'aba', 'b'], ['k%d' % i for i in range(rng.choice([3, 8, 20]))],
                           ['a' * i for i in range(8)], ['x' * 300, 'x' * 299, 'y', '\x80\xff', '=', ' ']])
        s = ['sm_init 0 %d' % rng.randrange(5), 'sm_init 1 %d' % rng.randrange(4)]
        for _ in range(n):
            r = rng.random()
            sl = rng.randrange(2) if rng.random() < 0.4 else 0
            k = rng.choice(keys)
            if r < 0.35:
                s.append('%s %d %s %s' % (rng.choice(['sm_set', 'sm_set', 'sm_setn']), sl, hx(k),
                                          hx(rand_str(rng, 'vw', rng.choice([2, 5, 40])))))
            elif r < 0.5:
                s.append('sm_unset %d %s' % (sl, hx(k)))
            elif r < 0.62:
                s.append('sm_reserve %d %d' % (sl, rng.choice([0, 1, 2, 3, 5, 8, 17])))
            elif r < 0.68:
                s.append('sm_copy %d %d' % (sl, 1 - sl if rng.random() < 0.9 else sl))
            elif r < 0.70:
                s.append('sm_clear %d' % sl)
            elif r < 0.72:
                s += ['sm_fini %d' % sl, 'sm_init %d %d' % (sl, rng.randrange(6))]
            elif r < 0.73:
                s.append('sm_init %d 3' % sl)
            else:
                s.append(self.query(rng, sl, keys))
        return s + self.end()

    def fault_sessions(self, walks, rng, tier):
        return [ff(rng, self.random(rng, 30), self.allocating)
                for _ in range(40 if tier == 'quick' else 400)]


class ArrayList(Component):
    name = 'array_list'
    trace = 'ArrayListTrace'
    mcs = (('ArrayListMC', 'ArrayListMC'),)
    mcs_thorough = (('ArrayListMC', 'ArrayListMCBig'),)
    gens = (('ArrayListMC', 'ArrayListGen'),)
    allocating = {'al_init', 'al_add', 'al_set', 'al_remove'}

    def line(self, c, cap, es):
        op = c['op']
        if op == 'AlInit':
            if c['badargs']:
                return 'al_init %d %d .' % ((0, es) if c['huge'] else (cap, 0))
            return 'al_init %d %d .' % (2**63 if c['huge'] else cap, max(es, 2))
        i = 'max' if c.get('i') == -1 else c.get('i')
        return {'AlFini': 'al_fini', 'AlAdd': 'al_add %s' % c.get('v'),
                'AlSet': 'al_set %s %s' % (i, c.get('v')), 'AlRemove': 'al_remove %s' % i,
                'AlGet': 'al_get %s' % i}[op]

    def sessions(self, walks, rng, tier):
        out = []
        for k, w in enumerate(walks):
            cap, es = rng.choice([1, 1, 2, 3, 5]), rng.choice([1, 2, 3, 4, 7, 8, 16, 24, 100])
            s = []
            for c in w:
                s.append(self.line(c, cap, es))
                if rng.random() < 0.05:
                    s.append('al_nulls')
            out.append(s + ['al_fini', 'al_fini'])
        s = []
        for cap in [0, 1] + HUGE:
            for es in [0, 1, 2, 8, 16] + HUGE[:3]:
                s += ['al_init %d %d .' % (cap, es), 'al_add 3', 'al_get 0', 'al_fini']
        for nul in ('m', 'a', 'ma'):
            s += ['al_init 2 4 %s' % nul, 'al_add 1']
        out.append(s + ['al_nulls', 'al_init 1 8 .', 'al_init 1 8 .', 'al_nulls', 'al_add 1', 'al_nulls', 'al_fini'])
        for _ in range(60 if tier == 'quick' else 800):
            out.append(self.random(rng, 90 if tier == 'quick' else 300))
        return out

    def random(self, rng, n):
        es = rng.choice([1, 2, 3, 4, 5, 8, 9, 16, 31, 64, 257])
        s = ['al_init %d %d .' % (rng.choice([1, 2, 3, 4, 7, 10]), es)]
        ln = 0
        p = rng.choice([0.4, 0.55, 0.7])
        for _ in range(n):
            r = rng.random()
            i = rng.choice([0, ln - 1 if ln else 0, ln, ln + 1, 'max', 'half', 'wrap'] +
                           [rng.randrange(ln + 1) for _ in range(8)])
            if r < p:
                s.append('al_add %d' % rng.randrange(250))
                ln += 1
            elif r < p + 0.12:
                s.append('al_set %s %d' % (i, rng.randrange(250)))
            elif r < p + 0.16:
                s.append('al_get %s' % i)
            elif r < p + 0.18:
                s.append('al_nulls')
            elif r < 0.995:
                s.append('al_remove %s' % i)
                if isinstance(i, int) and i < ln:
                    ln -= 1
            else:
                s += ['al_fini', 'al_init %d %d .' % (rng.choice([1, 3]), es)]
                ln = 0
        return s + ['al_fini', 'al_get 0']

    def fault_sessions(self, walks, rng, tier):
        return [ff(rng, self.random(rng, 40), self.allocating)
                for _ in range(30 if tier == 'quick' else 300)]


class StringArray(Component):
    name = 'string_array'
    trace = 'StringArrayTrace'
    mcs = (('StringArrayMC', 'StringArrayMC'),)
    mcs_thorough = (('StringArrayMC', 'StringArrayMCBig'),)
    gens = (('StringArrayMC', 'StringArrayGen'), ('StringArrayMC', 'StringArrayGen2'))
    allocating = {'sa_init', 'sa_resize', 'sa_cmp'}

    def line(self, c):
        op, s = c['op'], c['slot']
        n = c.get('n')
        n = 2**64 - 1 if n == -1 else n
        return {'SaInit': 'sa_init %d %s' % (s, n), 'SaResize': 'sa_resize %d %s' % (s, n),
                'SaPut': 'sa_put %d %s %s' % (s, c.get('i'), hx(c.get('str'))), 'SaFini': 'sa_fini %d' % s,
                'SaCmp': 'sa_cmp %s %s' % (c.get('a'), c.get('b')), 'SaSort': 'sa_sort %d' % s}[op]

    STR = [None, '', 'a', 'ab', 'aa', 'b', 'B', '\x7f', b'\x80', b'\xff', 'a b', 'aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa']

    def sessions(self, walks, rng, tier):
        out = [[self.line(c) for c in w] + ['sa_fini 0', 'sa_fini 1', 'sa_fini 0'] for w in walks]
        out.append(['sa_scmp %s %s' % (hx(x), hx(y)) for x in self.STR for y in self.STR])
        out.append(['sa_nulls', 'sa_cmp 0 1', 'sa_cmp 0 0', 'sa_sort 0', 'sa_resize 0 0', 'sa_resize 0 2',
                    'sa_init 0 2', 'sa_nulls', 'sa_put 0 0 61', 'sa_resize 0 %d' % 2**63,
                    'sa_resize 0 %d' % 2**61, 'sa_resize 0 %d' % (2**61 + 1), 'sa_cmp 0 0',
                    'sa_resize 0 %d' % (2**64 - 1), 'sa_fini 0',
                    'sa_init 0 %d' % 2**61, 'sa_init 1 %d' % (2**64 - 1), 'sa_fini 1'])
        for _ in range(60 if tier == 'quick' else 800):
            out.append(self.random(rng, 70 if tier == 'quick' else 200))
        return out + self.qsorts(rng, tier)

    @staticmethod
    def qsorts(rng, tier):
        """rcutils_qsort itself, on elements of any size"""
        s = []
        for size in (1, 3, 8):
            for n in (0, 1, 2, 3):
                for nulls in (0, 1, 2):
                    s.append('sa_qs %d 1 %d %s' % (size, nulls, ' '.join(str(9 - i) for i in range(n))))
        for _ in range(120 if tier == 'quick' else 1500):
            n = rng.choice([2, 3, 4, 5, 7, 8, 9, 16, 33, 64, 130])
            keys = rng.choice([range(256), range(3), range(n), [7]])
            k = [rng.choice(keys) for _ in range(n)]
            k = rng.choice([k, k, k, sorted(k), sorted(k)[::-1], k[:n // 2] + sorted(k[n // 2:])])
            s.append('sa_qs %d %d 0 %s' % (rng.choice([1, 2, 3, 4, 5, 8, 12, 16, 24, 100, 1000]), rng.choice([1, -1]), ' '.join(map(str, k))))
        if tier == 'thorough':
            s += ['sa_qs %d 1 0 %s' % (z, ' '.join(str(rng.randrange(256)) for _ in range(1200))) for z in (3, 8, 16, 300)]
        return [s[i:i + 40] for i in range(0, len(s), 40)]

    def random(self, rng, n):
        mx = rng.choice([3, 5, 12, 40])
        pool = rng.choice([self.STR, ['a', 'b', ''], ['a', None], [rand_str(rng, 'ab', 4) for _ in range(9)]])
        s = ['sa_init 0 %d' % rng.randrange(mx + 1), 'sa_init 1 %d' % rng.randrange(mx + 1)]
        for _ in range(n):
            r = rng.random()
            sl = rng.randrange(2)
            if r < 0.45:
                s.append('sa_put %d %d %s' % (sl, rng.randrange(mx), hx(rng.choice(pool))))
            elif r < 0.6:
                s.append('sa_cmp %d %d' % (sl, rng.randrange(2)))
            elif r < 0.72:
                s.append('sa_sort %d' % sl)
            elif r < 0.96:
                s.append('sa_resize %d %d' % (sl, rng.randrange(mx + 1)))
            else:
                s += ['sa_fini %d' % sl, 'sa_init %d %d' % (sl, rng.randrange(mx))]
        # two arrays which agree up to a point
        k = rng.randrange(mx + 1)
        s += ['sa_resize 0 %d' % mx, 'sa_resize 1 %d' % rng.choice([mx, mx, max(0, mx - 1)])]
        for i in range(k):
            t = hx(rng.choice([x for x in pool if x is not None]))
            s += ['sa_put 0 %d %s' % (i, t), 'sa_put 1 %d %s' % (i, t)]
        return s + ['sa_cmp 0 1', 'sa_sort 0', 'sa_sort 1', 'sa_cmp 0 1', 'sa_fini 0', 'sa_fini 1', 'sa_fini 0']

    def fault_sessions(self, walks, rng, tier):
        return [ff(rng, self.random(rng, 30), self.allocating)
                for _ in range(30 if tier == 'quick' else 300)]


class Buffers(Component):
    name = 'buffers'
    trace = 'BuffersTrace'
    mcs = (('BuffersMC', 'BuffersMC'), ('BuffersMC', 'BuffersMCU'))
    mcs_thorough = (('BuffersMC', 'BuffersMCBig'),)
    gens = (('BuffersMC', 'BuffersGen'), ('BuffersMC', 'BuffersGenU'))
    allocating = {'ca_init', 'ca_resize', 'ca_expand', 'ca_printf', 'ca_strcpy', 'ca_strcat', 'ca_strncat',
                  'ca_memcpy', 'ua_init', 'ua_resize'}

    def line(self, c):
        op = c['op']
        n = c.get('n')
        n = 2**63 if n == -1 else n
        name = op[:2].lower() + '_' + op[2:].lower()
        if op == 'CaWrap':
            return 'ca_wrap %d %s' % (n, hx(c['text']))
        if op == 'CaPrintf':
            return 'ca_printf %s %d %s' % (hx(c['a']), c['num'], hx(c['b']))
        if op == 'CaStrncat':
            return 'ca_strncat %s %d' % (hx(c['str']), n)
        if 'str' in c:
            return '%s %s' % ({'UaFill': 'ua_fill'}.get(op, name), hx(c['str']))
        return name + (' %d' % n if n is not None else '')

    def sessions(self, walks, rng, tier):
        end = ['ca_fini', 'ca_fini', 'ua_fini', 'ua_fini']
        out = [[self.line(c) for c in w] + end for w in walks]
        s = ['ca_nulls', 'ua_nulls', 'ca_fini', 'ua_fini', 'ca_resize 4', 'ua_resize 4', 'ca_expand 4', 'ca_expand 0',
             'ca_strcpy 6161', 'ca_strcat 61', 'ca_printf 61 1 62', 'ca_memcpy .']
        for h in HUGE:
            s += ['ca_init %d' % h, 'ca_fini', 'ua_init %d' % h, 'ua_fini', 'ca_init 4', 'ca_strcpy 616263',
                  'ca_resize %d' % h, 'ca_expand %d' % h, 'ca_strcat 64', 'ca_fini', 'ua_init 3', 'ua_fill 0102',
                  'ua_resize %d' % h, 'ua_fini', 'ca_wrap 4 6162', 'ca_expand %d' % h, 'ca_resize %d' % h, 'ca_fini']
        out.append(s + end)
        for _ in range(80 if tier == 'quick' else 1000):
            out.append(self.random(rng, 60 if tier == 'quick' else 150) + end)
        return out

    def random(self, rng, n):
        big = rng.choice([4, 12, 40, 200])
        s = [rng.choice(['ca_init %d' % rng.randrange(big), 'ca_init 0', 'ca_wrap %d %s' % (big, hx('a' * rng.randrange(big)))]),
             'ua_init %d' % rng.randrange(big)]
        for _ in range(n):
            t = hx(rand_str(rng, 'abc', rng.choice([3, big])))
            r = rng.random()
            if r < 0.1:
                s.append('ca_resize %d' % rng.randrange(big * 2))
            elif r < 0.2:
                s.append('ca_expand %d' % rng.randrange(big * 2))
            elif r < 0.32:
                s.append('ca_printf %s %d %s' % (t, rng.choice([0, 7, -1, 2147483647, -2147483647, 123]),
                                                 hx(rand_str(rng, 'd', rng.choice([2, big])))))
            elif r < 0.42:
                s.append('ca_strcpy %s' % t)
            elif r < 0.55:
                s.append('ca_strcat %s' % t)
            elif r < 0.7:
                s.append('ca_strncat %s %d' % (t, rng.choice([0, 1, 2, 5, big, 1000, 2**62])))
            elif r < 0.76:
                s.append('ca_memcpy %s' % hx([rng.choice([0, 97, 255]) for _ in range(rng.randrange(big))]))
            elif r < 0.8:
                s += ['ca_fini', rng.choice(['ca_init %d' % rng.randrange(big),
                                             'ca_wrap %d %s' % (big + 1, hx('b' * rng.randrange(big)))])]
            elif r < 0.9:
                s.append('ua_resize %d' % rng.randrange(big * 2))
            elif r < 0.98:
                s.append('ua_fill %s' % hx([rng.randrange(256) for _ in range(rng.randrange(big))]))
            else:
                s += ['ua_fini', 'ua_init %d' % rng.randrange(big)]
        return s

    def fault_sessions(self, walks, rng, tier):
        return [ff(rng, self.random(rng, 35), self.allocating) + ['ca_fini', 'ua_fini']
                for _ in range(40 if tier == 'quick' else 400)]


class ErrorState(Component):
    name = 'error_state'
    trace = 'ErrorStateTrace'
    mcs = (('ErrorStateMC', 'ErrorStateMC'),)
    mcs_thorough = (('ErrorStateMC', 'ErrorStateMCBig'),)
    gens = (('ErrorStateMC', 'ErrorStateGen'),)

    def line(self, c):
        op, t = c['op'], c['t']
        if op == 'ErSet':
            return 'er_set %d %s %s %s' % (t, hx(c['msg']), hx(c['file']), bytes(c['line']).decode())
        if op == 'ErSelf':
            return 'er_self %d %s' % (t, bytes(c['line']).decode())
        if op == 'ErMacro':
            return 'er_macro %d %d %s %d' % (t, c['mode'], hx(c['msg']), c['num'])
        if op == 'ErFw':
            return 'er_fw %d %d %s %d' % (t, c['mode'], hx(c['msg']), c['num'])
        if op == 'ErCheck':
            return 'er_check %d %s %d' % (t, '61' if c['given'] else '-', c['kind'])
        if op == 'ErInit':
            return 'er_init %d %d' % (t, 1 if c['valid'] else 0)
        return {'ErReset': 'er_reset %d', 'ErRead': 'er_read %d', 'ErExit': 'er_exit %d'}[op] % t

    def sessions(self, walks, rng, tier):
        out = [[self.line(c) for c in w] + ['er_look 0', 'er_look 1', 'er_read 2'] for w in walks]
        for _ in range(30 if tier == 'quick' else 400):
            out.append(self.random(rng, 80, 4, False))
        return out

    def report_sessions(self, walks, rng, tier):
        """what is written on standard error"""
        q = tier == 'quick'
        out = [['er_cap 1'] + [self.line(c) for c in w] for w in walks]
        # the same message again, one more or less, and the formatted text of the old one
        for n in [0, 1, 2, 20, 766, 767, 768, 769, 1022, 1023, 1024, 1500]:
            for read in (0, 1):
                s = ['er_cap 1']
                m = 'm' * n
                for other in (m, m[:-1], m + 'n', m[:-1] + 'n', 'n' + m[1:], '', m + ', at fff:8', m + ', at fff:80', 'x'):
                    s += ['er_reset 0', 'er_set 0 %s %s 8' % (hx(m), hx('fff'))] + ['er_read 0'] * read
                    s += ['er_set 0 %s %s 9' % (hx(other), hx('g' * rng.choice([0, 1, 228, 300]))), 'er_read 0']
                out.append(s)
        for n in (0, 1, 500, 1010, 1020, 1021, 1022, 1023, 1024, 1030, 3000):
            s = ['er_cap 1']
            for mode in range(4):
                for prev in (None, '', 'p', 'p' * 767, 'q' * 300):
                    if prev is not None:
                        s.append('er_set 0 %s %s %d' % (hx(prev), hx('f' * rng.choice([1, 228])), rng.choice([0, 2**64 - 1])))
                    s += ['er_fw 0 %d %s %d' % (mode, hx('%' * n), rng.randrange(-9, 99)), 'er_read 0', 'er_reset 0']
            out.append(s)
        for _ in range(25 if q else 500):
            s = ['er_cap 1']
            for x in self.random(rng, 50, 2, rng.random() < 0.5):
                s.append(x)
                if rng.random() < 0.15:
                    s.append('er_fw %d %d %s %d' % (rng.randrange(2), rng.randrange(4), hx('w%s' * rng.choice([0, 1, 5, 400])), rng.randrange(-3, 1000)))
                if rng.random() < 0.1:
                    s.append('er_set 0 %s 66 1' % hx(rng.choice(['a', 'ab', 'abc', 'b'])))
            out.append(s)
        return out

    def limit_sessions(self, walks, rng, tier):
        out = []
        for n in (0, 1, 766, 767, 768, 769, 1000, 1022, 1023, 1024, 3000):
            s = []
            for k in (0, 1, 227, 228, 229, 230, 500):
                s += ['er_set 0 %s %s %d' % (hx('m' * n), hx('f' * k), rng.choice([0, 1, 9, 10, 2**32, 2**64 - 1, 10**19])),
                      'er_read 0', 'er_macro 0 2 61 1', 'er_read 0']
            for mode in (0, 1, 3):
                s += ['er_macro 0 %d %s %d' % (mode, hx('x' * n), rng.randrange(-5, 100)), 'er_read 0',
                      'er_macro 0 3 %s 12' % hx('y' * (n // 2)), 'er_read 0', 'er_reset 0', 'er_read 0']
            out.append(s)
        for _ in range(30 if tier == 'quick' else 500):
            out.append(self.random(rng, 60, 1, True))
        return out

    def random(self, rng, n, nt, long):
        s = []
        for _ in range(n):
            t = rng.randrange(nt)
            ml = rng.choice([0, 1, 3, 20]) if not long or rng.random() < 0.5 else \
                rng.choice([700, 760, 765, 766, 767, 768, 770, 900, 1010, 1020, 1021, 1022, 1023, 1030, 2000])
            m = ''.join(rng.choice('abc%s ') for _ in range(ml))
            fl = rng.choice([1, 5]) if not long or rng.random() < 0.5 else rng.choice([0, 220, 227, 228, 229, 240, 600])
            f = ''.join(rng.choice('/def') for _ in range(fl))
            ln = rng.choice([0, 1, 7, 10, 99, 1234567890123, 2**63, 2**64 - 1, rng.randrange(2**64)])
            r = rng.random()
            if r < 0.3:
                s.append('er_set %d %s %s %d' % (t, hx(m) if rng.random() > 0.06 else '-',
                                                 hx(f) if rng.random() > 0.06 else '-', ln))
            elif r < 0.35:
                s.append('er_self %d %d' % (t, ln))
            elif r < 0.5:
                s.append('er_macro %d %d %s %d' % (t, rng.randrange(4), hx(m), rng.choice([0, 3, -7, 2147483647])))
            elif r < 0.55:
                s.append('er_check %d %s %d %d' % (t, rng.choice(['-', '61']), rng.randrange(4), rng.randrange(2)))
            elif r < 0.63:
                s.append('er_reset %d' % t)
            elif r < 0.85:
                s.append('er_read %d' % t)
            elif r < 0.9:
                s.append('er_init %d %d' % (t, rng.randrange(2)))
            elif r < 0.93:
                s.append('er_exit %d' % t)
            else:
                s.append('er_look %d' % t)
        return s


def h1(c):
    return '%02x' % c


class StrUtil(Component):
    """string utilities (part 's'), command line and severity text (part 'c')"""
    name = 'str_util'
    trace = 'StrUtilTrace'
    mcs = (('StrUtilMC', 'StrUtilMC'),)
    mcs_thorough = (('StrUtilMC', 'StrUtilMCBig'),)
    gens = (('StrUtilMC', 'StrUtilGen'),)
    part = 's'
    allocating = {'st_split', 'st_splitlast', 'st_repl', 'st_dup', 'st_ndup', 'st_fmt', 'st_sev'}

    def line(self, c):
        op = c['op']
        if op in ('Split', 'SplitLast'):
            return 'st_%s %s %s' % (op.lower(), hx(c['str']), h1(c['delim']))
        if op in ('Find', 'FindN'):
            return 'st_%s %s %s' % (op.lower(), hx(c['str']), h1(c['c']))
        if op == 'Repl':
            return 'st_repl %s %s %s' % (hx(c['str']), hx(c['from']), hx(c['to']))
        if op == 'NDup':
            return 'st_ndup %s %d' % (hx(c['str']), c['n'])
        if op == 'Case':
            return 'st_case %s %s' % (hx(c['a']), hx(c['b']))
        if op == 'CaseN':
            return 'st_casen %s %s %d' % (hx(c['a']), hx(c['b']), c['n'])
        if op == 'Cli':
            return 'st_cli %s %s' % (hx(c['opt']), ' '.join(hx(a) for a in c['args']))
        raise ValueError(op)

    def chunked(self, lines, n=150):
        return [lines[i:i + n] for i in range(0, len(lines), n)]

    def sessions(self, walks, rng, tier):
        mine = {'s': lambda c: c['op'] != 'Cli', 'c': lambda c: c['op'] == 'Cli'}[self.part]
        lines = [self.line(c) for w in walks for c in w if mine(c)]
        lines += self.fixed(rng)
        for _ in range(2500 if tier == 'quick' else 30000):
            lines.append(self.random(rng))
        return self.chunked(lines)

    def s_fixed(self, rng):
        L = ['st_splitnull 61', 'st_splitnull -', 'st_fmtnull', 'st_casenull', 'st_case - 61', 'st_case 61 -',
             'st_case - -', 'st_casen - 61 1', 'st_casen 61 - 0', 'st_dup -', 'st_dup .', 'st_find - 61',
             'st_findn - 61', 'st_findn . 61', 'st_find 6162 00', 'st_findn 610062 00', 'st_findn 6100620063 62',
             'st_ndup 616263 18446744073709551615', 'st_ndup 616263 9223372036854775807', 'st_casen 6142 6162 1000000']
        L += ['st_alnum %02x' % c for c in range(256)]
        for c in range(1, 256):
            L.append('st_case %02x %02x' % (c, rng.randrange(1, 256)))
            L.append('st_casen 61%02x 41%02x 2' % (c, c ^ 0x20 if c != 0x20 else 0x41))
            L.append('st_find %02x%02x61%02x %02x' % (c, rng.randrange(1, 256), c, c))
            L.append('st_split 61%02x62%02x%02x63 %02x' % (c, c, c, c))
        for m in (15, 16, 17, 31, 63, 64, 65, 66, 200, 209, 250, 1000):   # match counts around cache growth
            L.append('st_repl %s 6161 78797a' % ('6161' * m))
            L.append('st_repl %s 62 .' % ('6162' * m))
            L.append('st_repl 7a%s 61 616161' % ('61' * m))
        for n in (2045, 2046, 2047, 2048, 2049, 4000):
            for k in range(0, 3):
                L.append('st_fmt -1 %s %d %s' % (hx('a' * (n - 3 - k)), 7, hx('b' * k)))
                L.append('st_fmt %d %s 12 62' % (n + k, hx('a' * n)))
        for lim in (1, 2, 3, 4, 5, 6, 7, 100):
            for a in ('', 'a', 'ab', 'abc'):
                L.append('st_fmt %d %s %d %s' % (lim, hx(a), rng.choice([0, -5, 100]), hx('x')))
                L.append('st_snp %d %s %d' % (lim, hx(a), rng.choice([0, -5, 1000])))
        for lim in (-1, 1, 2, 3, 5):
            for k in range(5):
                for a in ('', 'a', 'abc'):
                    L.append('st_fmt %d %s %d %s %d' % (lim, hx(a), rng.choice([0, -5, 100]), hx(rng.choice(['', 'xy'])), k))
                    L.append('st_snp %d %s %d %d' % (max(lim, 0), hx(a), rng.choice([0, -5, 1000]), k % 3))
        L += ['st_fmt 0 61 1 62', 'st_snp 0 616263 5', 'st_snp 0 . 0']
        for e in (0, 1, 2, 12, 22, 34, 133, 134, 9999, -1):
            for n in (1, 2, 3, 8, 20, 100, 200):
                L.append('st_strerror %d %d' % (e, n))
        return L

    def c_fixed(self, rng):
        L = ['st_sevnull', 'st_sev -', 'st_sev .']
        for nme in ('UNSET', 'DEBUG', 'INFO', 'WARN', 'ERROR', 'FATAL'):
            for v in (nme, nme.lower(), nme.capitalize(), nme[:-1], nme + 'x', nme + ' ', ' ' + nme, nme[1:],
                      nme.swapcase()[0] + nme[1:], 'RCUTILS_LOG_SEVERITY_' + nme, nme + nme, nme[::-1],
                      nme[0] + chr(ord(nme[1]) ^ 0x60) + nme[2:]):
                L.append('st_sev %s' % hx(v))
        L += ['st_sev %s' % hx(x) for x in ('WARNING', 'TRACE', '10', '0', 'INFO\n')]
        L += ['st_cli 61', 'st_cli .', 'st_cli 2d61 2d61', 'st_cli 2d61 2d61 2d61', 'st_cli 2d61 2d6162 62 2d61 63']
        return L

    def fixed(self, rng):
        return self.s_fixed(rng) if self.part == 's' else self.c_fixed(rng)

    def random(self, rng):
        if self.part == 'c':
            if rng.random() < 0.3:
                w = list(rng.choice(['UNSET', 'DEBUG', 'INFO', 'WARN', 'ERROR', 'FATAL']))
                for _ in range(rng.randrange(4)):
                    i = rng.randrange(len(w))
                    w[i] = rng.choice([w[i].lower(), w[i].upper(), w[i], w[i], rng.choice('abN_0')])
                return 'st_sev %s' % hx(''.join(w))
            pool = ['--a', '--ab', '--', '-', '', '--a=1', 'v', 'w', '--A', 'x' * 50]
            n = rng.choice([0, 1, 2, 3, 5, 9, 20])
            return 'st_cli %s %s' % (hx(rng.choice(pool)), ' '.join(hx(rng.choice(pool)) for _ in range(n)))
        k = rng.randrange(9)
        al = rng.choice(['ab/', 'a/', '/', 'abc', 'aA/bB', '\x80\xff/a'])
        s = rand_str(rng, al, rng.choice([4, 12, 60]))
        if isinstance(s, str):
            s = s.encode('latin1')
        d = rng.choice(al.encode('latin1'))
        if k == 0:
            return 'st_split %s %02x' % (hx(s), d)
        if k == 1:
            return 'st_splitlast %s %02x' % (hx(s), d)
        if k == 2:
            return 'st_find%s %s %02x' % (rng.choice(['', 'n']), hx(s), d)
        if k == 3:
            return 'st_repl %s %s %s' % (hx(s), hx(rand_str(rng, al, rng.choice([1, 2, 4])).encode('latin1')),
                                         hx(rand_str(rng, al + 'Z', rng.choice([0, 1, 3, 9])).encode('latin1')))
        if k == 4:
            return rng.choice(['st_dup %s' % hx(s), 'st_ndup %s %d' % (hx(s), rng.randrange(len(s) + 4))])
        if k == 5:
            return 'st_fmt %d %s %d %s %d' % (rng.choice([-1, 1, 5, len(s), len(s) + 2, len(s) + 3, 30]), hx(s),
                                           rng.randrange(-100, 1000), hx(rand_str(rng, 'xy', 9)), rng.choice([0, 0, 1, 2, 3, 4]))
        if k == 6:
            return 'st_snp %d %s %d' % (rng.choice([0, 1, 5, len(s), len(s) + 1, len(s) + 2, 30]), hx(s),
                                        rng.randrange(-100, 1000))
        t = bytearray(s)
        for _ in range(rng.randrange(3)):
            if t:
                i = rng.randrange(len(t))
                t[i] = rng.choice([t[i] ^ 0x20 if 64 < t[i] < 123 else t[i], 97, 90, 95])
        t += rand_str(rng, 'a', 2).encode() if rng.random() < 0.3 else b''
        if k == 7:
            return 'st_case %s %s' % (hx(s), hx(t))
        return 'st_casen %s %s %d' % (hx(s), hx(t), rng.randrange(len(s) + 3))

    def fault_sessions(self, walks, rng, tier):
        L = ['FF ' + x for x in (self.fixed(rng) if self.part == 'c' else [])
             if x.split()[0] in self.allocating]
        for _ in range(1500 if tier == 'quick' else 8000):
            x = self.random(rng)
            if x.split()[0] in self.allocating:
                L.append(rng.choice(['FF ', 'FF+ ']) + x)
        return self.chunked(L, 60)


class CmdSev(StrUtil):
    name = 'cmdline_severity'
    part = 'c'
