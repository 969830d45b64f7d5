"""Several objects of one kind at the same time: sessions of one object each, interleaved at random.  The specification of
one object holds for each of them; the trace specification keeps one state per object."""

NAMES = ('hash_map', 'array_list', 'buffers')


def weave(rng, parts):
    """parts: up to four scripts"""
    left, out, cur = [list(p) for p in parts], [], None
    while any(left):
        k = rng.choice([i for i, p in enumerate(left) if p])
        if k != cur:
            out.append('sel %d' % k)
            cur = k
        for _ in range(rng.choice([1, 1, 1, 2, 4])):
            if left[k]:
                out.append(left[k].pop(0))
    return out


def sessions(comp, base, rng, tier):
    if comp.name == 'logging' and comp.focus == 'macros':
        return handlers(base, rng, tier)
    if comp.name not in NAMES:
        return []
    base = [s if len(s) <= 80 else s[:60] for s in base if len(s) > 4]
    out = []
    for _ in range(16 if tier == 'quick' else 120):
        if rng.random() < 0.3:        # the same history in all of them, at different points
            s = rng.choice(base)
            parts = [s] * rng.randrange(2, 5)
        else:
            parts = rng.sample(base, min(len(base), rng.randrange(2, 5)))
        out.append(weave(rng, parts))
    return out


def handlers(base, rng, tier):
    """a handler which itself logs, through another logger"""
    out = []
    base = [s for s in base if len(s) < 80 and any(x.startswith('lg_macro') for x in s)]
    for s in rng.sample(base, 12 if tier == 'quick' else 200):
        t = []
        for x in s:
            w = x.split()
            if w[0] == 'lg_macro':
                w[9] = '0'           # the throttle's clock works
            t.append('lg_seth 4' if w[0] == 'lg_seth' and (w[1] == '2' or rng.random() < 0.5) else ' '.join(w))
            if rng.random() < 0.05:
                t.append('lg_set 7265 %d' % rng.choice([0, 10, 20, 30, 40, 50]))
        out.append(t)
    return out
