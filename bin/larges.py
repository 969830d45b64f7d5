"""Large inputs: one call, or a few, with texts, buffers, counts and element sizes far beyond what the other sessions
use.  They reach what depends on a size alone: lengths kept in narrow integers, fixed buffers, limits nobody asked for."""
from comps import hx, h1, rand_str

EDGES = (255, 256, 257, 511, 513, 1023, 1025, 2047, 2049, 4095, 4097, 8193)
WIDE = (32767, 32769, 65535, 65537)


def some(rng, q, extra=()):
    """sizes of one run: around a few powers of two, and one beyond 16 bits"""
    return list(extra) + (rng.sample(EDGES, 5) + [65537] if q else list(EDGES) + list(WIDE))


def text(rng, n, alphabet=b'abcdefgh'):
    return bytes(rng.choice(alphabet) for _ in range(n))


def at(b, i, c):
    return b[:i] + c + b[i + 1:]


def str_util(comp, rng, q):
    if comp.part == 'c':
        L = []
        for n in (255, 256, 257, 300, 1000) + (() if q else (5000,)):
            args = ['o%d' % (i % 250) for i in range(n)] + ['--x', 'v%d' % n]
            L += ['st_cli 2d2d78 %s' % ' '.join(hx(a) for a in args), 'st_cli 2d2d79 %s' % ' '.join(hx(a) for a in args)]
        for n in some(rng, q):
            a, b = text(rng, n), text(rng, n)
            L.append('st_cli %s %s %s %s 76' % (hx(a), hx(at(a, n - 1, b'X')), hx(a[:-1]), hx(a)))
            L += ['st_sev %s' % hx(b'info' + b), 'st_cli %s %s %s' % (hx(a[:9]), hx(a[:9]), hx(b))]
        return [L[i:i + 30] for i in range(0, len(L), 30)]
    L = []
    for n in some(rng, q):
        s = text(rng, n)
        L += ['st_dup %s' % hx(s), 'st_ndup %s %d' % (hx(s), n - 1), 'st_ndup %s %d' % (hx(s + b'zz'), n), 'st_ndup %s %d' % (hx(s), n * 2)]
        far = at(s, n - 1, b'/')
        L += ['st_find%s %s 2f' % (w, hx(far)) for w in ('', 'n')] + ['st_find%s %s 2f' % (w, hx(at(s, 0, b'/'))) for w in ('', 'n')]
        L += ['st_find %s 2f' % hx(s), 'st_find %s 2f' % hx(at(at(s, n // 2, b'/'), n // 3, b'/'))]
        L += ['st_split %s 2f' % hx(s), 'st_split %s 2f' % hx(b'x/' + s + b'/' + s[:5]), 'st_splitlast %s 2f' % hx(s + b'/' + s),
              'st_splitlast %s 2f' % hx(b'/' + s)]
        up = s.upper()
        L += ['st_case %s %s' % (hx(s), hx(up)), 'st_case %s %s' % (hx(s), hx(at(up, n - 1, b'Z'))), 'st_casen %s %s %d' % (hx(s), hx(at(up, n - 1, b'Z')), n),
              'st_casen %s %s %d' % (hx(at(s, n - 1, b'z')), hx(up), n - 1), 'st_case %s %s' % (hx(s), hx(up[:-1]))]
        L += ['st_fmt %d %s 7 %s' % (lim, hx(s), hx(s[:20])) for lim in (-1, 100000, n, n - 1)]
        L += ['st_snp %d %s 9' % (b, hx(s)) for b in (n + 10, n, 1)]
        if n <= 8193:
            L += ['st_repl %s 2f 7878' % hx(far), 'st_repl %s %s 79' % (hx(b'p' + s), hx(s)), 'st_repl 612f62 2f %s' % hx(s)]
    for n in (255, 256, 257, 300, 1000) + (() if q else (5000,)):
        L += ['st_split %s 2f' % hx(b'/'.join(text(rng, rng.randrange(1, 4)) for _ in range(n))), 'st_split %s 2f' % hx(b'/' * n + b'a'),
              'st_splitlast %s 2f' % hx(b'a/' * n + b'b'), 'st_find %s 61' % hx(b'a' * n)]
        L += ['st_repl %s 2f %s' % (hx(b'a/' * n), hx(b'bcd'[:n % 4]))]
    return [L[i:i + 30] for i in range(0, len(L), 30)]


def hash_map(comp, rng, q):
    out = []
    # large keys and values, long string keys with a common beginning
    shapes = [(k, d, rng.randrange(5)) for k in (65, 129, 257, 300, 1025, 4096) for d in (1, 65, 129, 257, 1025, 4096)]
    for sh in (rng.sample(shapes, 6) if q else shapes) + [(300, 300, 0), (8, 2, 8), (8, 2, 8)]:
        nk = 16
        s = ['hm_init %d %d %d %d %d .' % (rng.choice([1, 4, 32]), sh[0], sh[1], sh[2], nk)]
        for _ in range(25):
            k, v = rng.randrange(nk), rng.randrange(2)
            s.append(rng.choice(['hm_set %d %d %d' % (k, v, rng.randrange(200))] * 3 + ['hm_unset %d %d' % (k, v), 'hm_iter 0', 'hm_get %d %d' % (k, v)]))
        out.append(s + ['hm_iter 1', 'hm_fini'])
    # long chains in one bucket, many entries
    for n, sh, cap in ((300, (6, 2, 0), 4), (3200 if q else 9000, (5, 3, rng.choice([1, 4, 7])), 1), (700, (8, 8, 5), rng.choice([1, 256, 1024]))):
        order = list(range(n))
        if rng.random() < 0.5:
            rng.shuffle(order)
        s = ['hm_init %d %d %d %d %d .' % ((cap,) + sh + (n,)), 'hm_window 2']
        s += ['hm_set %d %d %d' % (k, k % 2, k % 200) for k in order] + ['hm_iter 0']
        some_ = rng.sample(order, n // 3)
        s += ['hm_unset %d 0' % k for k in some_] + ['hm_set %d 0 7' % k for k in rng.sample(order, n // 4)]
        out.append(s + ['hm_window 0', 'hm_get 0 0', 'hm_iter 1', 'hm_fini'])
    out.append(sum((['hm_init %d 2 2 1 4 .' % c, 'hm_set 1 0 5', 'hm_set 2 0 6', 'hm_unset 1 0', 'hm_iter 0', 'hm_fini'] for c in (255, 257, 1000, 65535, 65537, 1 << 18)), []))
    return out


def string_map(comp, rng, q):
    out = []
    for n in some(rng, q):
        k, v = text(rng, n), text(rng, n + 3)
        s = ['sm_init 0 %d' % rng.randrange(3), 'sm_set 0 %s 76' % hx(k), 'sm_set 0 61 %s' % hx(v), 'sm_set 0 %s %s' % (hx(at(k, n - 1, b'X')), hx(v))]
        s += ['sm_get 0 %s' % hx(x) for x in (k, at(k, n - 1, b'X'), k[:-1], k + b'a', at(k, n - 1, b'Y'))]
        s += ['sm_getl 0 %s %d' % (hx(k + b'q'), m) for m in (n, n - 1, n + 1)] + ['sm_init 1 0', 'sm_copy 0 1', 'sm_unset 0 %s' % hx(k), 'sm_set 1 %s 77' % hx(k), 'sm_set 1 61 62']
        out.append(s + comp.end())
    for n in (300, 1000) + (() if q else (3000,)):
        st = rng.choice([1, 1, 3])
        out.append(['sm_init 0 %d' % rng.choice([0, 1, n]), 'sm_bulk 0 0 %d %d' % (n, st), 'sm_set 0 %s 6e6577' % hx(b'k%d' % (st * (n // 2))), 'sm_unset 0 6b30', 'sm_setn 0 6b30 77',
                    'sm_init 1 2', 'sm_copy 0 1', 'sm_bulkdel 1 %d %d %d' % (st, n // 2, st), 'sm_reserve 1 0', 'sm_bulk 1 0 %d 1' % (n // 3), 'sm_clear 0', 'sm_bulk 0 5 20 1'] + comp.end())
    out.append(sum((['sm_init 0 %d' % c, 'sm_set 0 61 62', 'sm_reserve 0 %d' % rng.choice([0, 1, c + 1]), 'sm_set 0 62 63', 'sm_fini 0'] for c in (255, 257, 1000, 65535, 65537, 1 << 18)), []))
    return out


def array_list(comp, rng, q):
    out = []
    for n, es, cap in ((300, 3, 1), (700, 8, 3), (2500, 1, 7), (5000, 2, 1)) + (() if q else ((1100, 257, 1000), (20000, 4, 1), (66000, 1, 5))):
        a, b = rng.randrange(1, 250), rng.randrange(250)
        out.append(['al_init %d %d .' % (cap, es), 'al_bulk %d %d %d' % (n, a, b), 'al_set %d 3' % (n - 1), 'al_set %d 9' % rng.choice([255, 256, 257]), 'al_get %d' % (n - 1), 'al_get %d' % n,
                    'al_remove %d' % rng.randrange(n), 'al_remove %d' % (n - 2), 'al_cut %d %d' % (rng.choice([0, 2, 40]), n // 2), 'al_add 77', 'al_bulk %d 3 1' % (n // 3), 'al_set 256 5', 'al_fini'])
    for es in some(rng, q):
        if es <= 8193 or not q:
            out.append(['al_init 1 %d .' % es] + ['al_add %d' % rng.randrange(250) for _ in range(5)] + ['al_set 1 9', 'al_remove 0', 'al_get 3', 'al_remove 3', 'al_add 4', 'al_get 3', 'al_fini'])
    out.append(sum((['al_init %d 2 .' % c, 'al_add 3', 'al_add 4', 'al_remove 0', 'al_get 0', 'al_fini'] for c in (255, 257, 1000, 65535, 65537, 1 << 18)), []))
    return out


def string_array(comp, rng, q):
    out = []
    for n in some(rng, q):
        t = text(rng, n)
        u = rng.choice([at(t, n - 1, b'X'), t[:-1], t + b'a', t])
        out.append(['sa_scmp %s %s' % (hx(t), hx(u)), 'sa_init 0 3', 'sa_init 1 3', 'sa_put 0 0 %s' % hx(t), 'sa_put 1 0 %s' % hx(t), 'sa_put 0 1 %s' % hx(t), 'sa_put 1 1 %s' % hx(u),
                    'sa_cmp 0 1', 'sa_put 0 2 61', 'sa_put 1 2 61', 'sa_cmp 0 1', 'sa_sort 0', 'sa_sort 1', 'sa_cmp 1 0', 'sa_resize 0 2', 'sa_fini 0', 'sa_fini 1'])
    for n in (255, 257, 300, 1000) + (() if q else (4000,)):
        a, b, c = rng.choice([1, 7, 13, 101]), rng.randrange(50), rng.choice([5, 97, 100000])
        out.append(['sa_init 0 %d' % n, 'sa_init 1 %d' % rng.choice([n, 2]), 'sa_bulk 0 %d %d %d' % (a, b, c), 'sa_resize 1 %d' % n, 'sa_bulk 1 %d %d %d' % (a, b, c), 'sa_cmp 0 1',
                    'sa_put 1 %d 7373' % (n - 1), 'sa_cmp 0 1', 'sa_resize 1 %d' % (n - 1), 'sa_cmp 0 1', 'sa_resize 0 %d' % rng.choice([n + 1, 2 * n]), 'sa_put 0 0 -', 'sa_put 0 %d -' % (n // 2),
                    'sa_cmp 0 1', 'sa_sort 1', 'sa_sort 0', 'sa_resize 0 %d' % (n // 2), 'sa_resize 1 1', 'sa_fini 0', 'sa_fini 1', 'sa_fini 0'])
    for n in (3000,) + (() if q else (5000, 9000)):     # mostly empty
        m = rng.randrange(2, 900)
        out.append(['sa_init 0 %d' % m, 'sa_put 0 %d 61' % (m - 1), 'sa_resize 0 %d' % n, 'sa_put 0 %d 62' % (n - 1), 'sa_resize 0 %d' % (n - 1), 'sa_init 1 %d' % n, 'sa_fini 1', 'sa_fini 0'])
    return out


def buffers(comp, rng, q):
    out = []
    for n in some(rng, q):
        t, end = text(rng, n), ['ca_fini', 'ca_fini', 'ua_fini', 'ua_fini']
        out.append(['ca_init %d' % rng.choice([0, 1, n]), 'ca_strcpy %s' % hx(t), 'ca_strcat 6161', 'ca_resize %d' % (n // 2), 'ca_resize %d' % n] + end)
        out.append(['ca_init %d' % rng.choice([0, 1, n, n + 1, n + 2]), 'ca_printf %s 7 62' % hx(t), 'ca_printf 61 7 62', 'ca_strcat %s' % hx(t), 'ca_expand %d' % (n * 2)] + end)
        out.append(['ca_wrap %d %s' % (n + 1, hx(t)), 'ca_strncat %s %d' % (hx(t[:200]), rng.choice([3, 100, 200])), 'ca_memcpy %s' % hx(t), 'ca_memcpy 6162'] + end)
        out.append(['ca_wrap %d %s' % (n, hx(t[:5])), 'ca_strncat %s %d' % (hx(t), n - 5), 'ca_expand %d' % (n + 1), 'ca_strcpy 61'] + end)
        out.append(['ua_init %d' % n, 'ua_fill %s' % hx(t), 'ua_resize %d' % (n + 1), 'ua_resize %d' % (n // 2), 'ua_resize 1'] + end)
    return out


def env(comp, rng, q):
    out = []
    for n in some(rng, q):
        v, k = text(rng, n), text(rng, n)
        out.append(['ev_set #1 %s' % hx(v), 'ev_get #1 1', 'ev_copy #2 #1', 'ev_get #2 1', 'ev_setow #1 %s 0' % hx(k), 'ev_set #1 %s' % hx(v[:-1]), 'ev_ext #6 %s' % hx(k), 'ev_get #6 1', 'ev_setow #6 %s 1' % hx(v),
                    'ev_get %s 1' % hx(k), 'ev_set %s 61' % hx(at(k, n - 1, b'=')), 'ev_set %s 61' % hx(at(k, n // 2, b'=')), 'ev_get %s 1' % hx(at(k, n - 1, b'=')), 'ev_ext #4 %s' % hx(v), 'ev_home', 'ev_set #6 -', 'ev_get #6 1'])
    return out


def shared_lib(comp, rng, q):
    L = []
    for n in some(rng, q):
        for dbg in (0, 1):
            L += ['sl_name %s %d %d' % (hx(text(rng, n)), b, dbg) for b in (n, n + 6 + dbg, n + 7 + dbg, n + 100)]
        L += ['sl_load 0 1 0', 'sl_sym 0 %s 0' % hx(text(rng, n)), 'sl_sym 0 6661 1', 'sl_unload 0']
    return [L]


def error_state(comp, rng, q):
    L = []
    for n in some(rng, q):
        L += ['er_set 0 %s 66 %d' % (hx(text(rng, n)), n), 'er_read 0', 'er_set 0 6d %s 7' % hx(text(rng, n)), 'er_read 0', 'er_macro 0 2 %s 1' % hx(text(rng, n)), 'er_read 0', 'er_reset 0']
    return [L]


def sha(comp, rng, q):
    return [sum((['sh_init 0', 'sh_update 0 %s' % hx(bytes(rng.randrange(256) for _ in range(n))), 'sh_update 0 61', 'sh_final 0'] for n in some(rng, q)), [])]


def fs_size(comp, rng, q):
    out = []
    for n in (300, 1100) + (() if q else (3000,)):
        out.append(['fs_new', 'fs_put 1 %s 493 0' % hx('w'), 'fs_fill %s %d %d' % (hx('w'), n, rng.choice([0, 1, 10 ** 6])), 'fs_order %d 0' % rng.randrange(1, 10 ** 6), 'fs_size 1 %s 0 0' % hx('/w'),
                    'fs_size 1 . 1 0', 'fs_size 1 . 2 0', 'fs_order 0 0', 'fs_iter 0 1 %s 0' % hx('/w')] + ['fs_next 0'] * (n + 3 if n < 1000 else 20) + ['fs_end 0'])
    for n in (100, 300) + (() if q else (1500,)):
        out.append(['fs_new', 'fs_chain %d %d' % (n, rng.choice([0, 7, 10 ** 9]))] + ['fs_size 1 . %d 0' % d for d in (0, 1, 2, n - 1, n, n + 1, 255, 256)])
    return out


def fs_paths(comp, rng, q):
    L = []
    for n in some(rng, q):
        t = text(rng, n)
        L += ['fs_join %s %s' % (hx(t), hx(t[:7])), 'fs_join %s %s' % (hx(t[:3]), hx(t)), 'fs_join %s %s' % (hx(t), hx(t)), 'fs_native %s' % hx(t), 'fs_native %s' % hx(t.replace(b'a', b'/')), 'fs_expand %s' % hx(t),
              'fs_expand %s' % hx(b'~' + t), 'fs_home %s' % hx(t), 'fs_expand 7e2f61', 'fs_expand %s' % hx(b'~/' + t[:300]), 'fs_home %s' % hx('/home/u'), 'fs_q 1 %s' % hx(b'/' + t), 'fs_mkdir 1 %s 0' % hx(b'/zz/' + t)]
    # one and the same place behind paths of every length
    out = [['fs_new'] + L]
    s = ['fs_new', 'fs_put 1 %s 493 0' % hx('d'), 'fs_put 2 %s 420 321' % hx('d/f')]
    for n in (100, 250, 500, 509, 511, 512, 513, 600, 1000, 1020, 1024, 1100, 2000, 2040, 2048, 2100, 3000, 3900):
        pre = '/.' * (n // 2) + ('/' if n % 2 else '')
        s += ['fs_q 1 %s' % hx(pre + '/d/f'), 'fs_q 1 %s' % hx(pre + '/d'), 'fs_mkdir 1 %s 0' % hx(pre + '/d/n%d' % n), 'fs_size 1 %s 0 0' % hx(pre + '/d'), 'fs_q 1 %s' % hx(pre + '/none')]
    out.append(s)
    s, at_ = ['fs_new'], []
    for k in range(15):
        at_.append('pqr'[k % 3] * rng.choice([60, 120, 250]))
        s += ['fs_mkdir 1 %s 0' % hx('/' + '/'.join(at_)), 'fs_q 1 %s' % hx('/' + '/'.join(at_)), 'fs_cd %s' % hx('/'.join(at_)), 'fs_cwd 0 1', 'fs_cwd 1 1', 'fs_mkdir 1 %s 0' % hx('/' + '/'.join(at_))]
    return out + [s]


def log_levels(comp, rng, q):
    out = []
    for n in [x for x in some(rng, q) if x <= 8193]:
        a, b = text(rng, n), text(rng, n)
        s = comp.START + ['lg_names 61 62', 'lg_init 0', 'lg_seth 2', 'lg_set %s 40' % hx(a), 'lg_set %s 10' % hx(at(a, n - 1, b'X')), 'lg_set %s 50' % hx(a + b'.' + b)]
        s += ['lg_eff %s' % hx(x) for x in (a, at(a, n - 1, b'X'), at(a, n - 1, b'Y'), a[:-1], a + b'q', a + b'.' + b, a + b'.' + b + b'.z', a + b'.' + b[:-1], b + b'.' + b, at(a, n // 2, b'.'))]
        s += ['lg_own %s %d' % (hx(a + b'q'), n), 'lg_own %s -1' % hx(a), 'lg_own %s %d' % (hx(a + b'q'), n - 1), 'lg_en %s 30' % hx(a + b'.x'), 'lg_en %s 40' % hx(a + b'.x'), comp.log(rng, a.decode(), sev=40), comp.log(rng, (a + b'.w').decode(), sev=30)]
        out.append(s + ['lg_set %s 0' % hx(a), 'lg_eff %s' % hx(a + b'.u'), 'lg_shutdown'])
    for n in (100, 300) + (() if q else (1500,)):     # deep hierarchies
        deep = ['n%d' % (i % 3) for i in range(n)]
        name = lambda k: hx('.'.join(deep[:k]))
        s = comp.START + ['lg_names 61', 'lg_init 0', 'lg_setdef 30', 'lg_set %s 40' % name(1), 'lg_eff %s' % name(n), 'lg_set %s 10' % name(n // 2), 'lg_eff %s' % name(n), 'lg_en %s 10' % name(n - 1), 'lg_eff %s' % name(n // 2 - 1)]
        out.append(s + ['lg_eff %s' % hx('.' * n), 'lg_set %s 50' % hx('.' * (n // 2)), 'lg_eff %s' % hx('.' * n), 'lg_set %s 0' % name(n // 2), 'lg_eff %s' % name(n), 'lg_shutdown'])
    for n in (700,) + (() if q else (4000,)):         # many loggers, most of them resolved before they are given a level
        s = comp.START + ['lg_names 6e30 6e333030', 'lg_init 0']
        for i in range(n):
            s.append('lg_set %s %d' % (hx('n%d' % i), 10 * (1 + i % 5)))
        s += ['lg_eff %s' % hx('n%d%s' % (i, rng.choice(['', '.x']))) for i in rng.sample(range(n), 60)] + ['lg_set %s 0' % hx('n%d' % i) for i in rng.sample(range(n), 30)]
        out.append(s + ['lg_eff %s' % hx('n%d.y' % i) for i in rng.sample(range(n), 40)] + ['lg_shutdown'])
    return out


def log_text(comp, rng, q):
    """messages, names, file names and function names"""
    out = []
    for n in [x for x in some(rng, q) if x <= 66000]:
        t = text(rng, n).decode()
        s = comp.START + ['lg_env 4 %s' % hx(rng.choice(['{name}|{message}|{function_name}|{file_name}', '[{severity}] {message} {function_name}{file_name} {name}', '{message}{file_name}:{line_number}{name}{function_name}'])), 'lg_env 3 %s' % hx(rng.choice(['0', '1'])), 'lg_init 0', 'lg_setdef 10']
        s.append('lg_seth %d' % (1 if comp.focus == 'format' else rng.choice([2, 3])))
        few = n > 9000
        s += [comp.log(rng, 'nm', s=t), 'lg_log 0 30 6e 0 - - 0 %s %s 7' % (hx('%s|%d'), hx(t))]
        if not few:
            s += ['lg_log 0 40 %s 1 66 67 4 %s 61 7' % (hx(t), hx('%s')), 'lg_log 0 40 6e 1 %s 67 4 %s 61 7' % (hx(t), hx('%s')), 'lg_log 0 50 6e 1 66 %s 4 %s 61 7' % (hx(t), hx('%s')), 'lg_log 0 20 6e 0 - - 0 %s 62 7' % hx(t + '%s')]
            if comp.focus == 'format':
                s += ['lg_console 5 30 %s 1 %s %s 4 %s %s 5' % (hx(t), hx(t), hx('f'), hx('%s'), hx('m')), 'lg_fmt 5 30 6e 1 66 %s 4 %s . 4' % (hx(t), hx(t)), 'lg_fmt 5 30 %s 0 - - 0 %s %s 4' % (hx(t), hx('m'), hx(t[:1023]))]
        out.append(s + ['lg_shutdown'])
    return out


def logging(comp, rng, q):
    f = {'levels': log_levels, 'macros': log_text, 'format': log_text}.get(comp.focus)
    return f(comp, rng, q) if f else []


LARGE = {'env': env, 'shared_lib': shared_lib, 'error_state': error_state, 'sha': sha, 'logging': logging, 'fs_size': fs_size, 'fs_path': fs_paths,
         'string_map': string_map, 'array_list': array_list, 'string_array': string_array, 'buffers': buffers,
         'hash_map': hash_map, 'str_util': str_util, 'cmdline_severity': str_util}


def sessions(comp, rng, tier):
    f = LARGE.get(comp.name)
    return f(comp, rng, tier == 'quick') if f else []
