"""The conformance engine: model checking, generation of calls from the model's state graph,
execution by the driver and validation of the recorded traces by TLC."""
import concurrent.futures as cf
import json
import os
import random
import shutil
import sys
import tempfile
import threading
import time
import traceback

import vlib
from vlib import CheckError


# --------------------------------------------------------------------------------- walks
def cover_walks(edges, init_key, rng, maxlen=120, limit=None):
    """Walks from the initial state which together use every printed transition of the model."""
    out = {}
    seen = set()
    for src, call, dst in edges:
        k = (src, json.dumps(call, sort_keys=True), dst)
        if k in seen:
            continue
        seen.add(k)
        out.setdefault(src, []).append((call, dst))
    for v in out.values():
        v.sort(key=lambda x: json.dumps(x, sort_keys=True))
        rng.shuffle(v)
    todo = {s: list(range(len(v))) for s, v in out.items()}
    left = sum(len(v) for v in todo.values())
    total = left
    walks = []

    def path_to_todo(src):
        """shortest path (list of (call, dst)) to a state with an unused transition"""
        if todo.get(src):
            return []
        prev = {src: None}
        q = [src]
        while q:
            nq = []
            for s in q:
                for call, d in out.get(s, ()):
                    if d in prev:
                        continue
                    prev[d] = (s, call)
                    if todo.get(d):
                        p = []
                        while prev[d] is not None:
                            s0, c0 = prev[d]
                            p.append((c0, d))
                            d = s0
                        return p[::-1]
                    nq.append(d)
            q = nq
        return None

    while left > 0:
        cur, walk = init_key, []
        while len(walk) < maxlen and left > 0:
            p = path_to_todo(cur)
            if p is None:
                break
            for call, d in p:
                walk.append(call)
                cur = d
            i = todo[cur].pop()
            left -= 1
            call, d = out[cur][i]
            walk.append(call)
            cur = d
        if not walk:
            break
        walks.append(walk)
        if limit and sum(map(len, walks)) >= limit:
            break
    return walks, total - left, total


# --------------------------------------------------------------------------------- components
class Component:
    name = ''
    trace = ''            # trace specification module
    mcs = ()              # ((module, cfg), ...) exhaustive checks of the model, quick tier
    mcs_thorough = ()
    gens = ()             # ((module, cfg), ...) printing their transitions
    env = None
    conc = False          # scenarios of several threads, for the scheduling harness

    def walk_lines(self, walk, rng):
        raise NotImplementedError

    def sessions(self, walks, rng, tier):
        """list of sessions, each a list of driver lines"""
        return []

    def fault_sessions(self, walks, rng, tier):
        return []


class Result:
    def __init__(self):
        self.states = self.transitions = self.events = self.sessions = 0
        self.execs = self.histories = self.exhaustive = 0
        self.edges_used = self.edges_total = 0
        self.violations = []
        self.samples = []
        self.models = []
        self.notes = []


def localised(i, session):
    """Every third session runs in another locale: nothing the library promises depends on it but the order of letters."""
    if i % 3 != 1:
        return session
    loc, out = ('tr', 'de')[i // 3 % 2], []
    free = lambda x: x.startswith('st_case')      # compares with what the locale calls a letter
    for k, x in enumerate(session):
        if k == 0 or free(x) != free(session[k - 1]):
            out.append('locale ' + ('C' if free(x) else loc))
        out.append(x)
    return out


class Engine:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.work = tempfile.mkdtemp(prefix='vrf_%s_' % prop)
        self.t0 = time.time()
        self.res = Result()
        self.exe = self.conc_exe = None
        self.lock = threading.Lock()
        self.pool = cf.ThreadPoolExecutor(vlib.NPROC)

    def close(self):
        self.pool.shutdown(wait=False, cancel_futures=True)
        shutil.rmtree(self.work, ignore_errors=True)

    def driver(self):
        if self.exe is None:
            self.exe = vlib.build_driver(self.work)
        return self.exe

    def conc(self):
        if self.conc_exe is None:
            self.conc_exe = vlib.build_conc(self.work)
        return self.conc_exe

    # ---- models
    def models(self, comp):
        lst = list(comp.mcs)
        if self.tier == 'thorough':
            lst += [m for m in comp.mcs_thorough if m not in lst]
        futs = [(m, self.pool.submit(vlib.model_check, self.work, m[0], m[1],
                                     600 if self.tier == 'quick' else 3000)) for m in lst]
        return futs

    def collect_models(self, futs):
        for m, f in futs:
            r = f.result()
            self.res.states += r['distinct']
            self.res.transitions += r['generated']
            self.res.models.append({'model': m[0], 'config': m[1], 'distinct_states': r['distinct'],
                                    'transitions': r['generated'], 'depth': r['depth']})

    def walks(self, comp, rng, limit=None, maxlen=120):
        out = []
        futs = [(g, self.pool.submit(vlib.model_check, self.work, g[0], g[1], edges=True))
                for g in comp.gens]
        for g, f in futs:
            out += self._walks(g, f.result(), rng, limit, maxlen)
        return out

    def _walks(self, gen, g, rng, limit, maxlen):
        if not g['edges']:
            raise CheckError('model %s printed no transitions' % (gen,))
        self.res.states += g['distinct']
        self.res.transitions += g['generated']
        init = g['edges'][0][0]
        w, used, total = cover_walks(g['edges'], init, rng, maxlen=maxlen, limit=limit)
        if not limit and used < total // 3:   # the rest begins in states that only refused allocations lead to
            raise CheckError('%d of the %d transitions of %s cannot be reached from its first state' % (total - used, total, gen))
        self.res.edges_used += used
        self.res.edges_total += total
        self.res.models.append({'model': gen[0], 'config': gen[1],
                                'distinct_states': g['distinct'], 'transitions': g['generated'],
                                'depth': g['depth'], 'transitions_replayed': used,
                                'transitions_printed': total})
        return w

    # ---- conformance
    def conform(self, comp, sessions, trace=None, chunks=None, label=''):
        """Run the sessions in the driver and validate what was recorded."""
        trace = trace or comp.trace
        if not sessions:
            return
        exe = self.conc() if comp.conc else self.driver()
        if not comp.conc:
            sessions = [localised(i, s) for i, s in enumerate(sessions)]
        n = chunks or vlib.NPROC
        total = sum(len(s) + 1 for s in sessions)
        n = max(1, min(n, total // 40 + 1))
        parts = [[] for _ in range(n)]
        load = [0] * n
        for i in sorted(range(len(sessions)), key=lambda j: -len(sessions[j])):
            j = load.index(min(load))
            parts[j].append(i)
            load[j] += len(sessions[i]) + 5
        futs = []
        for j, idx in enumerate(parts):
            if idx:
                futs.append(self.pool.submit(self._one, comp, trace, sessions, sorted(idx),
                                             '%s%s_%s_%d' % (comp.name, label, trace, j), exe))
        for f in futs:
            f.result()

    def _script(self, sessions, idx):
        s = []
        for i in idx:
            s.append('session s%d' % i)
            s.extend(sessions[i])
        return s

    def _one(self, comp, trace, sessions, idx, tag, exe):
        script = self._script(sessions, idx)
        tf = vlib.run_driver(self.work, exe, script, tag, env=dict(comp.env or {}, CONC_CPU=tag.rsplit('_', 1)[1]))
        ok, matched, why = vlib.validate(self.work, trace, tf)
        self.res.events += matched
        if comp.conc:
            with open(tf) as f:
                for ln in f:
                    if ln.startswith('{"op":"Ran"'):
                        x = json.loads(ln)
                        with self.lock:
                            self.res.execs += x['execs']
                            self.res.histories += x['histories']
                            self.res.exhaustive += x['complete']
        self.res.sessions += len(idx)
        if len(self.res.samples) < 3:
            self.res.samples.append({'session': idx[0], 'calls': sessions[idx[0]][:6],
                                     'first_event': vlib.trace_line(tf, 1)[:300]})
        if ok:
            os.unlink(tf)
            return
        ev = vlib.trace_line(tf, matched)
        sess, first = None, 0
        with open(tf) as f:
            for i, ln in enumerate(f):
                if i > matched:
                    break
                if ln.startswith('{"op":"Session"'):
                    sess = int(json.loads(ln)['tag'][1:])
                    first = i
        # the rejected behaviour again, in a process of its own
        again = None
        if comp.conc:            # a recorded history speaks for itself
            again = (['session s%d' % sess] + sessions[sess] if sess is not None else script, ev, why, tf, matched)
        elif sess is not None:
            tf2 = vlib.run_driver(self.work, exe, self._script(sessions, [sess]), tag + '_r',
                                  env=comp.env)
            ok2, m2, why2 = vlib.validate(self.work, trace, tf2)
            if not ok2:
                again = (['session s%d' % sess] + sessions[sess], vlib.trace_line(tf2, m2), why2, tf2, m2)
        if again is None:
            tf2 = vlib.run_driver(self.work, exe, script, tag + '_r2', env=comp.env)
            ok2, m2, why2 = vlib.validate(self.work, trace, tf2)
            if ok2:
                # the same calls behaved differently: what was recorded the first time stands
                again = (script, ev, why + ' (accepted when repeated)', tf, matched)
            else:
                again = (script, vlib.trace_line(tf2, m2), why2, tf2, m2)
        crash = ''
        cfile = os.path.join(self.work, os.path.basename(again[3])[:-7] + '.crash')
        if os.path.exists(cfile):
            crash = open(cfile).read()[:6000]
        ctx, hist = [], []
        if comp.conc:
            with open(tf) as f:
                hist = [ln.strip() for i, ln in enumerate(f) if first <= i <= matched][-400:]
        with open(again[3]) as f:
            for i, ln in enumerate(f):
                if again[4] - 6 <= i <= again[4]:
                    ctx.append(ln.strip())
        self.res.violations.append({'component': comp.name, 'trace_spec': trace, 'conc': comp.conc, 'script': again[0],
                                    'event': again[1], 'why': again[2], 'context': ctx, 'history': hist, 'crash': crash})

    # ---- reporting
    def finish(self, level='model_checking', assumptions=(), bounds=None, extra=None):
        r = self.res
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': level,
              'coverage': {'states': r.states, 'transitions': r.transitions,
                           'traces_validated_against_impl': r.sessions,
                           'events_validated': r.events,
                           'model_transitions_replayed': r.edges_used,
                           'model_transitions': r.edges_total,
                           'models': r.models,
                           'samples': r.samples[:3]},
              'assumptions': list(assumptions),
              'wall_s': round(time.time() - self.t0, 2)}
        if r.execs:
            ev['coverage'].update({'schedules_executed': r.execs, 'distinct_histories': r.histories,
                                   'scenarios_with_every_schedule_in_the_bound': r.exhaustive})
        if bounds:
            ev['coverage']['bounds'] = bounds
        if extra:
            ev['coverage'].update(extra)
        rc = 0
        if r.violations:
            rc = 1
            ev['violations'] = len(r.violations)
            ev['coverage']['rejected'] = []
            d = os.path.join(vlib.VERIF, 'evidence', 'replay')
            os.makedirs(d, exist_ok=True)
            for i, v in enumerate(r.violations):
                p = os.path.join(d, '%s-%d.json' % (self.prop, i))
                with open(p, 'w') as f:
                    json.dump(v, f, indent=1)
                ev['coverage']['rejected'].append({'what': 'rejected: ' + v['event'][:300], 'replay': p})
                print('rejected by %s: %s' % (v['trace_spec'], v['event'][:600]))
                if v.get('why'):
                    print('  ' + v['why'][:300].replace('\n', ' '))
                if v.get('crash'):
                    print('  ' + v['crash'][:600].replace('\n', '\n  '))
                print('VIOLATION property=%s replay=%s' % (self.prop, p))
        os.makedirs(os.path.join(vlib.VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(vlib.VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s %s: %d model states, %d traces (%d events) validated, %.1fs, %s' % (
            self.prop, self.tier, r.states, r.sessions, r.events, time.time() - self.t0,
            'VIOLATION' if rc else 'ok'))
        return rc
