"""Component: the file system."""
from comps import hx, ff
from engine import Component


def hp(names):
    return hx('/'.join(names))


class Tree:
    """What the program has put on disk: used to generate commands which make sense."""

    def __init__(self):
        self.n = {(): 'd'}
        self.out = ['fs_new']

    def dirs(self):
        return [p for p, k in self.n.items() if k == 'd']

    def put(self, at, name, kind, mode=None, size=0):
        p = at + (name,)
        if p in self.n or self.n.get(at) != 'd':
            return None
        self.n[p] = {1: 'd', 2: 'f', 4: 'p'}[kind]
        m = mode if mode is not None else (0o755 if kind == 1 else 0o644)
        self.out.append('fs_put %d %s %d %d' % (kind, hp(p), m, size))
        return p

    def sym(self, at, name, absolute, target):
        p = at + (name,)
        if p in self.n or self.n.get(at) != 'd':
            return None
        self.n[p] = 'l'
        self.out.append('fs_sym %s %d %s' % (hp(p), absolute, hx(target)))
        return p

    def rm(self, p):
        if p == () or any(len(q) == len(p) + 1 and q[:len(p)] == p for q in self.n):
            return
        del self.n[p]
        self.out.append('fs_rm %s' % hp(p))


NAMES = ['a', 'b', 'c', '.hidden', '..x', '...', 'x y', '%s%n', '%d', 'a.b', '~', 'd%', 'A', 'ab', '\xfc\xff', 'new\nline', '-', "q'\"", '\\']


class FileSys(Component):
    name = 'fs'
    trace = 'FileSysTrace'
    mcs = (('FileSysMC', 'FileSysMC'), ('FileSysMC', 'FileSysMCIter'))
    mcs_thorough = (('FileSysMC', 'FileSysMCBig'), ('FileSysMC', 'FileSysMCLinks'))
    gens = (('FileSysMC', 'FileSysGen'),)

    def __init__(self, focus):
        self.focus = focus
        self.name = 'fs_' + focus

    def line(self, c):
        op = c['op']
        s = lambda b: hx(bytes(b))
        p = lambda names: hp([bytes(x).decode('latin1') for x in names])
        a = lambda: '%d %s' % (c['abs'], s(c['p']) if c['abs'] != 2 else '-')
        if op == 'FsPut':
            return 'fs_put %d %s %d %s' % (c['k'], p(c['p']), c['m'], bytes(c['z']).decode())
        if op == 'FsSym':
            return 'fs_sym %s 0 %s' % (p(c['p']), s(c['t']))
        if op == 'FsRm':
            return 'fs_rm %s' % p(c['p'])
        if op == 'FsQ':
            return 'fs_q %s' % a()
        if op == 'FsMkdir':
            return 'fs_mkdir %s 0' % a()
        return 'fs_size %s %d 0' % (a(), c['depth'])

    # ---- random trees
    def tree(self, rng, n, links=True):
        t = Tree()
        for _ in range(n):
            at = rng.choice(t.dirs())
            if len(at) > 6:
                at = at[:rng.randrange(6)]
            name = rng.choice(NAMES) if rng.random() < 0.9 else rng.choice('xyz') * rng.choice([200, 254, 255])
            r = rng.random()
            if r < 0.4:
                t.put(at, name, 1)
            elif r < 0.8 or not links:
                t.put(at, name, 2, size=rng.choice([0, 1, 5, 9, 10, 95, 999, 4096, 65536, 2**31 - 1, 2**32, 5 * 10**9, rng.randrange(10**6)]))
            elif r < 0.84:
                t.put(at, name, 4)
            else:
                to = rng.choice([p for p in t.n if p])if len(t.n) > 1 else ('zz',)
                if rng.random() < 0.15:
                    to = to[:-1] + ('missing',)
                text = '/'.join(('..',) * len(at) + to)
                if rng.random() < 0.3:
                    t.sym(at, name, 1, '/' + '/'.join(to))
                else:
                    t.sym(at, name, 0, text + ('/' if rng.random() < 0.05 else ''))
        return t

    def some_path(self, rng, t):
        """(ABS, text) of a path given to the library"""
        p = list(rng.choice(list(t.n)))
        r = rng.random()
        if r < 0.12:
            p.append(rng.choice(['nope', 'a', 'b', '..' if len(p) > 1 else 'x', 'n' * 255, 'n' * 256]))
        parts = []
        for i, x in enumerate(p):
            parts.append(x)
            q = rng.random()
            if q < 0.06:
                parts.append('.')
            elif q < 0.1:
                parts.append('')
            elif q < 0.13 and i + 1 < len(p) and x != '..':
                parts += ['..', x]
        text = '/'.join(parts)
        q = rng.random()
        if q < 0.08:
            text += '/'
        elif q < 0.1:
            text += '//'
        elif q < 0.12:
            text += '/.'
        q = rng.random()
        if q < 0.1 and text and text[0] != '/':
            return '0 %s' % hx(text)
        if q < 0.12:
            return '2 -'
        if q < 0.14:
            return '0 .'
        if q < 0.16 and text:
            return '1 %s' % hx('/' + './' * 2100 + text)
        return '1 %s' % hx('/' + text if text else text)

    def measure(self, rng, t, n, out):
        ds = t.dirs()
        for _ in range(n):
            if rng.random() < 0.5:
                out.append('fs_order %d %d' % (rng.randrange(1, 10**6), rng.random() < 0.2))
            r = rng.random()
            d = '1 %s' % hx(''.join('/' + x for x in rng.choice(ds)))
            if r < 0.75:
                if rng.random() < 0.06:
                    out.append('fs_fail %d 0' % rng.randrange(1, 4) if rng.random() < 0.5 else 'fs_fail 0 %d' % rng.randrange(1, 4))
                where = d if rng.random() < 0.8 else self.some_path(rng, t)
                out.append('fs_size %s %s %d' % (where, rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 7, 100, 2**31, -1]),
                                                 rng.choice([0] * 12 + [1, 1, 1, 2, 3])))
            else:
                h = [0, 1][:rng.randrange(1, 3)]
                for i in h:
                    w = d if rng.random() < 0.5 else '1 %s' % hx(''.join('/' + x for x in rng.choice(ds)))
                    out.append('fs_iter %d %s %d' % (i, w, 0))
                left = {i: rng.randrange(0, len(t.n) + 4) for i in h}
                while left:
                    i = rng.choice(list(left))
                    if left[i] == 0:
                        out.append('fs_end %d' % i)
                        del left[i]
                    else:
                        out.append('fs_next %d' % i)
                        left[i] -= 1

    def size_sessions(self, rng, tier):
        q = tier == 'quick'
        out = []
        for i in range(60 if q else 900):
            t = self.tree(rng, rng.choice([0, 3, 8, 15, 30]), links=i % 3 != 0)
            s = t.out
            self.measure(rng, t, 14, s)
            for _ in range(3):     # the tree changes
                for _ in range(3):
                    t.rm(rng.choice(list(t.n)))
                    t.put(rng.choice(t.dirs()), rng.choice(NAMES), rng.choice([1, 2]), size=rng.randrange(100))
                self.measure(rng, t, 4, s)
            # listings that cannot be started
            s += ['fs_iter 2 2 - 0', 'fs_iter 2 1 %s 0' % hx('/no such'), 'fs_iter 2 1 . 3', 'fs_fail 1 0', 'fs_iter 2 1 . 0', 'fs_fail 0 1',
                  'fs_iter 2 1 . 0']
            out.append(s)
        # a listing with nothing in it at all
        t = Tree()
        t.put((), 'a', 1)
        t.put(('a',), 'b', 1)
        out.append(t.out + ['fs_order 1 1'] + ['fs_size 1 %s %d 0' % (hx(p), d) for p in ('/a', '/a/b', '') for d in (0, 1, 2)] +
                   ['fs_iter 0 1 %s 0' % hx('/a/b'), 'fs_end 0'])
        # wide and deep
        t = Tree()
        for k in range(180):
            t.put((), 'w%d' % k, 2 if k % 3 else 1, size=k)
        for k in range(0, 180, 3):
            t.put(('w%d' % k,), 'in', 2, size=1000)
        out.append(t.out + ['fs_size 1 . %d 0' % d for d in (0, 1, 2, 3)] + ['fs_order 7 0', 'fs_size 1 . 0 0', 'fs_iter 0 1 . 0'] +
                   ['fs_next 0'] * 183 + ['fs_end 0'])
        t = Tree()
        at = ()
        for k in range(13):
            t.put(at, 'f', 2, size=7 ** (k % 9))
            at = t.put(at, chr(97 + k) * 250, 1)
        t.put(at, 'last', 2, size=123456789)
        out.append(t.out + ['fs_size 1 . %d 0' % d for d in range(0, 16)] + ['fs_q 1 %s' % hx('/' + '/'.join(at + ('last',)))])
        return out

    def path_sessions(self, rng, tier):
        q = tier == 'quick'
        out = []
        # every combination of the permission bits
        for k in (2, 4, 1):
            s = ['fs_new']
            modes = list(range(0, 512)) if not q and k == 2 else [m * 64 + o for m in range(8) for o in (0, 0o77, 0o44, 0o22)]
            for i, m in enumerate(modes):
                s += ['fs_put %d %s %d %d' % (k, hx('x'), m, i), 'fs_q 1 %s' % hx('/x'), 'fs_rm %s' % hx('x')]
            out.append(s)
        s = ['fs_new', 'fs_put 2 %s 0 5' % hx('f')]
        for m in (0, 0o400, 0o200, 0o600, 0o044, 0o022, 0o777, 0o100):
            s += ['fs_chmod %s %d' % (hx('f'), m), 'fs_q 1 %s' % hx('/f')]
        # chains and loops of links
        s += ['fs_sym %s 0 %s' % (hx('l0'), hx('f'))]
        for i in range(1, 43):
            s += ['fs_sym %s 0 %s' % (hx('l%d' % i), hx('l%d' % (i - 1))), 'fs_q 1 %s' % hx('/l%d' % i)]
        s += ['fs_sym %s 0 %s' % (hx('o1'), hx('o2')), 'fs_sym %s 0 %s' % (hx('o2'), hx('o1')), 'fs_q 1 %s' % hx('/o1'), 'fs_mkdir 1 %s 0' % hx('/o1'),
              'fs_mkdir 1 %s 0' % hx('/o1/x')]
        out.append(s)
        for i in range(50 if q else 800):
            t = self.tree(rng, rng.choice([2, 5, 12, 20]))
            s = t.out
            for _ in range(40):
                r = rng.random()
                if r < 0.45:
                    s.append('fs_q %s' % self.some_path(rng, t))
                elif r < 0.75:
                    # the generator does not know what is made: only below directories, under names of their own
                    d = rng.choice(t.dirs())
                    w = self.some_path(rng, t)
                    if rng.random() < 0.5:
                        w = '%d %s' % (rng.choice([1, 1, 1, 1, 0]), hx(''.join('/' + x for x in d) + '/m%d' % rng.randrange(4) + rng.choice(['', '', '/', '/n', '//', '/.', '/..'])))
                        if w.startswith('0'):
                            w = '0 %s' % hx('m%d' % rng.randrange(4))
                    s.append('fs_mkdir %s %d' % (w, rng.random() < 0.5))
                elif r < 0.85:
                    d = rng.choice(t.dirs())
                    s.append('fs_cd %s' % hp(d))
                    s.append('fs_cwd %d %d' % (rng.choice([-2, -1, 0, 1, 100]), 1))
                else:
                    s.append('fs_cwd %d 0' % rng.choice([-1, 0, 1, 2, 4096]))
            out.append(s)
        return out + self.text_sessions(rng, tier)

    def text_sessions(self, rng, tier):
        out = []
        T = ['', 'a', '/', '//', 'a/', '/a', '%s', '%d%n', '~', '~/x', '~~', '~user', 'x~', '/~', '.', '..', 'a/b/c', '\\', 'a\\b', '\xff', ' ',
             'n' * 255, 'p' * 2047, 'p' * 2048, 'q' * 2049, 'r' * 4095, 's' * 4096, 't' * 70000, '~' + 'u' * 3000, 'a/' * 1500]
        L = []
        for l in T:
            for r in T if tier != 'quick' else rng.sample(T, 6):
                L.append('fs_join %s %s' % (hx(l), hx(r)))
            L += ['fs_join %s -' % hx(l), 'fs_join - %s' % hx(l), 'fs_native %s' % hx(l)]
        L += ['fs_native -', 'fs_expand -', 'fs_join - -']
        for n in (1020, 1021, 1022, 1023, 1024, 2040, 2044, 2045, 2046, 2047, 2048):
            for k in (0, 1, 2, 3):
                L.append('fs_join %s %s' % (hx('j' * (n - k)), hx('k' * k)))
        H = [None, '', '/home/u', '/', 'rel', '~', '%s', 'h' * 2048, '/home/' + 'v' * 5000]
        for h in H:
            L.append('fs_home %s' % hx(h))
            L += ['fs_expand %s' % hx(p) for p in (T if len(h or '') < 100 else T[:12] + T[20:24])]
        for _ in range(150 if tier == 'quick' else 3000):
            w = lambda: hx(''.join(rng.choice('ab/~%.\\') for _ in range(rng.randrange(12))))
            L.append(rng.choice(['fs_join %s %s' % (w(), w()), 'fs_native %s' % w(), 'fs_expand %s' % w()]))
        for i in range(0, len(L), 60):
            out.append(['fs_new'] + (['fs_home %s' % hx('/home/u')] if i % 120 else []) + L[i:i + 60])
        return out

    def sessions(self, walks, rng, tier):
        out = []
        for w in walks:
            keep = [c for c in w if c['op'] not in (('FsMkdir', 'FsQ') if self.focus == 'size' else ('FsSize',)) or (c['op'] == 'FsMkdir')]
            out.append(['fs_new'] + [self.line(c) for c in keep])
        return out + (self.size_sessions(rng, tier) if self.focus == 'size' else self.path_sessions(rng, tier))

    allocating = {'fs_size', 'fs_iter', 'fs_next', 'fs_join', 'fs_native', 'fs_expand', 'fs_mkdir'}

    def fault_sessions(self, walks, rng, tier):
        out = []
        for i in range(12 if tier == 'quick' else 150):
            if self.focus == 'size':
                t = self.tree(rng, rng.choice([1, 5, 9]))
                ds = t.dirs()
                s = t.out
                for _ in range(6):
                    d = hx(''.join('/' + x for x in rng.choice(ds)))
                    s.append('%s fs_size 1 %s %d 0' % (rng.choice(['FF', 'FF+']), d, rng.randrange(4)))
                    s += ['%s fs_iter 1 1 %s 0' % (rng.choice(['FF', 'FF+']), d), 'FF fs_next 1', 'FF fs_end 1']
                out.append(s)
            else:
                s = ['fs_new', 'fs_home %s' % hx('/home/u')]
                for _ in range(12):
                    w = lambda: hx(''.join(rng.choice('ab/~%.') for _ in range(rng.choice([0, 3, 10, 3000]))))
                    s.append('%s %s' % (rng.choice(['FF', 'FF+']), rng.choice(['fs_join %s %s' % (w(), w()), 'fs_native %s' % w(),
                                                                               'fs_expand %s' % w(), 'fs_expand %s' % hx('~/x')])))
                s += ['FF fs_mkdir 1 %s 0' % hx('/m'), 'FF fs_q 1 %s' % hx('/m')]
                out.append(s)
        return out
