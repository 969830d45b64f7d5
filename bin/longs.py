"""Long histories: short cycles repeated hundreds of times, and objects that grow far.  They reach what only
accumulates: capacities that creep, leftovers of removed entries, counters, caches."""
from comps import hx, h1


def cyc(s, body, n):
    for i in range(n):
        s += body(i) if callable(body) else body
    return s


def hash_map(rng, k):
    out = []
    sh = rng.choice(['2 1 1', '8 3 5', '3 1 4'])
    s = cyc(['hm_init 2 %s 240 .' % sh], lambda i: ['hm_set %d %d %d' % (i, i % 2, i % 200)], 240)
    out.append(s + cyc([], lambda i: ['hm_unset %d 1' % i], 240) + ['hm_set 7 0 3', 'hm_iter 0', 'hm_fini'])
    s = cyc(['hm_init %d %s 200 .' % (rng.choice([1, 4, 16]), sh)],
            lambda i: ['hm_set %d 0 %d' % (i % 200, i % 200), 'hm_unset %d 1' % (i % 200)], 150 * k)
    out.append(s + ['hm_iter 0', 'hm_set 3 0 1', 'hm_set 4 0 1', 'hm_iter 1', 'hm_fini'])
    s = cyc(['hm_init 8 %s 6 .' % sh, 'hm_set 0 0 9', 'hm_set 1 0 8'],
            lambda i: ['hm_set %d 0 %d' % (2 + i % 4, i % 200), 'hm_set %d 1 %d' % (i % 2, (i * 7) % 200), 'hm_unset %d 0' % (2 + i % 4)], 120 * k)
    out.append(s + ['hm_iter 0', 'hm_fini'])
    out.append(cyc([], lambda i: ['hm_init %d %s 4 .' % (1 + i % 9, sh), 'hm_set %d 0 1' % (i % 4), 'hm_fini'], 60 * k))
    return out


def string_map(rng, k):
    out = [cyc(['sm_init 0 %d' % rng.randrange(3)], lambda i: ['sm_set 0 %s %s' % (hx('k%d' % i), hx('v%d' % (i % 7)))], 120) +
           cyc([], lambda i: ['sm_unset 0 %s' % hx('k%d' % i)], 120) + ['sm_set 0 61 62', 'sm_look 0', 'sm_fini 0']]
    out.append(cyc(['sm_init 0 1'], lambda i: ['sm_set 0 %s 76' % hx('c%d' % i), 'sm_unset 0 %s' % hx('c%d' % i)], 150 * k) + ['sm_look 0', 'sm_fini 0'])
    out.append(cyc(['sm_init 0 2', 'sm_set 0 61 62'], lambda i: ['sm_reserve 0 %d' % (1 + i % 9), 'sm_set 0 61 %s' % hx('x' * (i % 30))], 100 * k) + ['sm_fini 0'])
    out.append(cyc(['sm_init 0 2', 'sm_init 1 0', 'sm_set 0 61 62', 'sm_set 0 63 64'],
                   lambda i: ['sm_copy 1 0', 'sm_set 0 61 %s' % hx('w%d' % (i % 5)), 'sm_clear 1' if i % 3 == 0 else 'sm_look 1'], 70 * k) + ['sm_fini 0', 'sm_fini 1'])
    out.append(cyc([], lambda i: ['sm_init 0 %d' % (i % 4), 'sm_set 0 %s 76' % hx('q%d' % i), 'sm_fini 0'], 60 * k))
    return out


def array_list(rng, k):
    es = rng.choice([1, 3, 8, 24])
    out = [cyc(['al_init 1 %d .' % es], lambda i: ['al_add %d' % (i % 250)], 300) + cyc([], lambda i: ['al_remove %s' % ('0' if i % 2 else i)], 200) + ['al_fini']]
    out.append(cyc(['al_init %d %d .' % (rng.choice([1, 2, 5]), es)], ['al_add 7', 'al_remove 0'], 200 * k) + ['al_add 3', 'al_get 0', 'al_fini'])
    out.append(cyc(['al_init 2 %d .' % es, 'al_add 1', 'al_add 2'], lambda i: ['al_add %d' % (i % 250), 'al_set %d %d' % (i % 3, (i + 9) % 250), 'al_remove %d' % (i % 3)], 120 * k) + ['al_fini'])
    out.append(cyc([], lambda i: ['al_init %d %d .' % (1 + i % 3, es), 'al_add %d' % (i % 250), 'al_fini'], 80 * k))
    return out


def string_array(rng, k):
    out = [cyc(['sa_init 0 0'], lambda i: ['sa_resize 0 %d' % (i + 1), 'sa_put 0 %d %s' % (i, hx('s%d' % ((i * 37) % 101)))], 100) +
           ['sa_sort 0'] + cyc([], lambda i: ['sa_resize 0 %d' % (99 - i)], 100) + ['sa_fini 0']]
    out.append(cyc(['sa_init 0 2', 'sa_init 1 2', 'sa_put 1 0 61'],
                   lambda i: ['sa_resize 0 %d' % (1 + (i * 5) % 9), 'sa_put 0 0 %s' % hx('t%d' % i), 'sa_cmp 0 1', 'sa_sort 0'], 60 * k) + ['sa_fini 0', 'sa_fini 1'])
    out.append(cyc([], lambda i: ['sa_init 0 %d' % (i % 4), 'sa_put 0 0 61', 'sa_fini 0'], 80 * k))
    return out


def buffers(rng, k):
    end = ['ca_fini', 'ua_fini']
    out = [cyc(['ca_init 0'], lambda i: ['ca_strcat %s' % hx('ab'[i % 2])], 250) + end]
    out.append(cyc(['ca_init 3'], lambda i: ['ca_strcpy %s' % hx('x' * (i % 40)), 'ca_strcat 7a', 'ca_strncat 616263 %d' % (i % 5)], 90 * k) + end)
    out.append(cyc(['ca_init 1'], lambda i: ['ca_printf %s %d 62' % (hx('p' * (i % 50)), i), 'ca_resize %d' % (i % 17)], 100 * k) + end)
    out.append(cyc(['ca_init 1', 'ua_init 1'], lambda i: ['ca_expand %d' % (i % 60), 'ua_resize %d' % ((i * 7) % 60), 'ua_fill %s' % hx([i % 256, 3])], 80 * k) + end)
    out.append(cyc([], lambda i: ['ca_init %d' % (i % 5), 'ca_strcpy 6162', 'ua_init %d' % (i % 3), 'ca_fini', 'ua_fini',
                                  'ca_wrap 4 6162', 'ca_strcat %s' % hx('c' * (i % 9)), 'ca_fini'], 40 * k) + end)
    return out


def error_state(rng, k):
    return [cyc([], lambda i: ['er_set 0 %s 66 %d' % (hx('m%d' % i), i), 'er_macro 0 2 61 1', 'er_read 0'], 100 * k),
            cyc([], ['er_macro 0 3 61 7'], 120) + ['er_read 0', 'er_reset 0', 'er_read 0'],
            cyc([], lambda i: ['er_set %d 61 62 3' % (i % 2), 'er_exit 0', 'er_look 0', 'er_look 1'], 60 * k),
            cyc([], lambda i: ['er_set 1 %s 66 %d' % (hx('n' * (i % 800)), i), 'er_read 1', 'er_reset 1', 'er_look 1'], 60 * k)]


def env(rng, k):
    return [cyc([], lambda i: ['ev_set #0 %s' % hx('v%d' % i), 'ev_get #0 1', 'ev_set #0 -', 'ev_get #0 1'], 80 * k)]


def sha(rng, k):
    return [cyc(['sh_init 0'], lambda i: ['sh_update 0 %s' % h1(i % 256)], 200 * k) + ['sh_final 0'],
            cyc([], lambda i: ['sh_init 1', 'sh_update 1 %s' % hx([i % 256] * (i % 70)), 'sh_final 1'], 40 * k)]


def shared_lib(rng, k):
    return [cyc([], lambda i: ['sl_load %d %d 0' % (i % 3, 1 + i % 3), 'sl_sym %d 6661 0' % (i % 3), 'sl_unload %d' % (i % 3)], 70 * k)]


def logging(comp, rng, k):
    st = comp.START
    if comp.focus == 'levels':
        return [cyc(st + ['lg_names 61 612e62 6e37', 'lg_init 0', 'lg_seth 2'],
                    lambda i: ['lg_set 61 %d' % (10 * (i % 6)), 'lg_eff 612e62', 'lg_set 612e62 %d' % (10 * ((i * 5) % 6)), 'lg_own 612e62 -1', 'lg_en 61 20'], 70 * k) + ['lg_shutdown'],
                cyc(st + ['lg_init 0', 'lg_seth 2'], lambda i: ['lg_set %s %d' % (hx('t%d' % i), 10 * (1 + i % 5)), 'lg_set %s 0' % hx('t%d' % i), 'lg_eff %s' % hx('t%d.x' % i)], 90 * k) + ['lg_shutdown']]
    if comp.focus == 'macros':
        return [cyc(st + ['lg_init 0', 'lg_seth 2', 'lg_setdef 10'], lambda i: [comp.log(rng, rng.choice(['a', 'a.b', 'a.c']))], 250 * k) + ['lg_shutdown'],
                cyc(st + ['lg_init 0', 'lg_seth 2', 'lg_setdef 10'], lambda i: [comp.macro(rng, 0, 3, i % 7, 1, 0, 'a.b', 10 ** 9 + i * 30000000)], 250 * k) + ['lg_shutdown']]
    if comp.focus == 'start':
        return [cyc(list(st), lambda i: ['lg_env 1 %s' % hx([None, '0', '1'][i % 3]), 'lg_env 4 %s' % hx(['{message}', None, '{name}'][i % 3]), 'lg_init 0',
                                    'lg_set %s 10' % hx('u%d' % i), comp.log(rng, 'u%d.x' % i), 'lg_shutdown'], 40 * k)]
    return []


LONG = {'hash_map': hash_map, 'string_map': string_map, 'array_list': array_list, 'string_array': string_array, 'buffers': buffers,
        'error_state': error_state, 'env': env, 'sha': sha, 'shared_lib': shared_lib}


def sessions(comp, rng, tier):
    if hasattr(comp, 'START'):
        return logging(comp, rng, 1 if tier == 'quick' else 5)
    f = LONG.get(comp.name)
    return f(rng, 1 if tier == 'quick' else 5) if f else []
