"""Building the code under test, running the driver and TLC."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NPROC = min(8, os.cpu_count() or 4)
WRAPS = ['malloc', 'calloc', 'realloc', 'free', 'strdup', 'strndup', 'setenv', 'unsetenv', 'clock_gettime',
         'dlinfo', 'dlclose', 'opendir', 'readdir', 'closedir', 'mkdir']
CFLAGS = ['-std=c11', '-g', '-O1', '-D_GNU_SOURCE', '-fPIC', '-DRCUTILS_ENABLE_FAULT_INJECTION',
          '-DRCUTILS_BUILDING_DLL', '-w', '-fno-omit-frame-pointer']


class CheckError(Exception):
    """The check itself could not be carried out (exit status 2)."""


class Violation(Exception):
    def __init__(self, what, detail=''):
        super().__init__(what)
        self.what = what
        self.detail = detail


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          errors='replace', **kw)


def lib_sources():
    s = []
    for d in ('src', 'src/testing'):
        p = os.path.join(REPO, d)
        for f in sorted(os.listdir(p)):
            if f.endswith('.c') and f != 'time_win32.c':
                s.append(os.path.join(p, f))
    return s


def gen_headers(work):
    gen = os.path.join(work, 'gen')
    out = os.path.join(gen, 'rcutils', 'logging_macros.h')
    if os.path.exists(out):
        return gen
    os.makedirs(os.path.dirname(out), exist_ok=True)
    src = os.path.join(REPO, 'resource', 'logging_macros.h.em')
    code = ("import em; em.invoke(['-o', %r, '-D', 'rcutils_module_path=\"%s\"', %r])"
            % (out, REPO, src))
    r = run(['/usr/bin/python3', '-B', '-c', code])
    if r.returncode != 0 or not os.path.exists(out):
        raise CheckError('generating logging_macros.h failed:\n' + r.stdout)
    return gen


def _cc(cmd):
    r = run(cmd)
    if r.returncode != 0:
        raise CheckError('compilation failed: %s\n%s' % (' '.join(cmd), r.stdout))


def build(work, name, main_sources, flags=(), lib_flags=None, main_flags=None, ldflags=(), cc='gcc',
          extra_objs=(), compile_lib=True, link=True):
    """Compile the library's sources and the given harness sources, and link them."""
    flags = list(flags)
    gen = gen_headers(work)
    inc = ['-I' + os.path.join(REPO, 'include'), '-I' + gen, '-I' + os.path.join(REPO, 'src'),
           '-I' + os.path.join(VERIF, 'harness')]
    od = os.path.join(work, 'obj_' + name)
    os.makedirs(od, exist_ok=True)
    jobs, objs = [], []
    if compile_lib:
        for s in lib_sources():
            o = os.path.join(od, 'lib_' + os.path.relpath(s, REPO).replace('/', '_') + '.o')
            objs.append(o)
            jobs.append([cc] + CFLAGS + (flags if lib_flags is None else list(lib_flags)) + inc
                        + ['-c', s, '-o', o])
    for s in main_sources:
        s = os.path.join(VERIF, 'harness', s)
        o = os.path.join(od, 'h_' + os.path.basename(s) + '.o')
        objs.append(o)
        jobs.append([cc] + CFLAGS + (flags if main_flags is None else list(main_flags)) + inc
                    + ['-c', s, '-o', o])
    with cf.ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(_cc, jobs))
    if not link:
        return objs
    exe = os.path.join(work, name)
    _cc([cc] + flags + objs + list(extra_objs) + ['-o', exe] + list(ldflags) + ['-ldl', '-lpthread'])
    return exe


DRIVER = ['core.c', 'sess.c', 'ops_hm.c', 'ops_sm.c', 'ops_al.c', 'ops_sa.c', 'ops_ca.c', 'ops_str.c',
          'ops_err.c', 'ops_log.c', 'ops_fs.c', 'ops_time.c', 'ops_env.c', 'ops_sl.c', 'ops_sha.c', 'ops_mem.c']


def build_libs(work):
    """The shared libraries used by the checks of C20."""
    d = os.path.join(work, 'libs')
    os.makedirs(d, exist_ok=True)
    src = {'a': 'int fa(void){return 101;} int fc(void){return 11;} int dc = 501;',
           'b': 'int fb(void){return 202;} int fc(void){return 12;} static int dc = 9; int *gb(void){return &dc;}',
           'c2': 'int fc(void){return 13;} int dc = 503;'}
    for n, s in src.items():
        c = os.path.join(d, n + '.c')
        open(c, 'w').write(s)
        _cc(['gcc', '-shared', '-fPIC', '-O1', '-w', c, '-o', os.path.join(d, 'lib%s.so' % n)])
    open(os.path.join(d, 'notalib.so'), 'w').write('this is not a library\n')
    return d


def build_locales(d):
    """Two single-byte locales: in one the upper case of `i` is not `I`, in both some bytes above 127 are letters and
    the decimal point is a comma.  Without localedef the sessions simply run in the C locale."""
    def one(x):
        try:
            subprocess.run(['localedef', '-i', x[1], '-f', x[2], os.path.join(d, x[0])], stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL, env={'PATH': '/usr/bin:/bin'}, timeout=60)
        except (OSError, subprocess.TimeoutExpired):
            pass
    with cf.ThreadPoolExecutor(2) as ex:
        list(ex.map(one, [('tr', 'tr_TR', 'ISO-8859-9'), ('de', 'de_DE', 'ISO-8859-1')]))


def build_sites(work):
    """The call sites of every logging macro: for every minimum severity (0..5), and as C++ (6)."""
    gen = gen_headers(work)
    inc = ['-I' + os.path.join(REPO, 'include'), '-I' + gen, '-I' + os.path.join(VERIF, 'harness')]
    src = os.path.join(VERIF, 'harness', 'sites.c')
    jobs = []
    for k in range(7):
        cc = ['gcc', '-std=c11'] if k < 6 else ['g++', '-std=c++17', '-x', 'c++']
        jobs.append(cc + ['-shared', '-fPIC', '-g', '-O1', '-w', '-D_GNU_SOURCE'] + inc
                    + (['-DRCUTILS_LOG_MIN_SEVERITY=%d' % k] if k < 6 else [])
                    + [src, '-o', os.path.join(VLIBDIR[0], 'sites%d.so' % k)])
    with cf.ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(_cc, jobs))


def build_driver(work):
    VLIBDIR[0] = build_libs(work)
    with cf.ThreadPoolExecutor(1) as ex:
        ex.submit(build_locales, VLIBDIR[0])
        return _build_driver(work)


def _build_driver(work):
    return build(work, 'driver', DRIVER, flags=['-fsanitize=address'],
                 ldflags=['-rdynamic', '-Wl,' + ','.join('--wrap=' + w for w in WRAPS)])


CONC_WRAPS = ('fwrite fputs fputc putc puts putchar fflush vfprintf vsprintf vsnprintf vprintf fprintf printf sprintf snprintf '
              'localtime_r localtime gmtime_r gmtime strftime strerror strerror_r __xpg_strerror_r getenv isatty strtok strtok_r '
              '__xpg_basename basename dirname memcpy memmove memset strcpy strcat strncpy strncat stpcpy clock_gettime '
              'pthread_mutex_lock mtx_lock mtx_trylock pthread_rwlock_rdlock pthread_rwlock_wrlock flockfile sched_yield '
              'thrd_yield').split()


def build_conc(work):
    """The library with each memory access a scheduling point, and the harness that schedules."""
    at = build(work, 'conc_at.o', ['conc_at.c'], flags=TSAN, compile_lib=False, link=False)
    return build(work, 'conc', ['conc.c', 'conc_ops.c'], lib_flags=TSAN, extra_objs=at,
                 ldflags=['-Wl,' + ','.join('--wrap=' + w for w in CONC_WRAPS)])


TSAN = ['-fsanitize=thread', '-O0', '-fno-builtin', '-U_FORTIFY_SOURCE', '-D_FORTIFY_SOURCE=0']
VLIBDIR = ['']


def clean_env(extra=None):
    e = {'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', 'TZ': 'UTC0',
         'HOME': '/nonexistent-home', 'LC_ALL': 'C', 'VLIBDIR': VLIBDIR[0], 'LOCPATH': VLIBDIR[0] or '/nonexistent',
         'ASAN_OPTIONS': 'detect_leaks=0:allocator_may_return_null=1:exitcode=99:abort_on_error=0'}
    e.update(extra or {})
    return e


def run_driver(work, exe, script, tag, timeout=600, env=None):
    """Run one script; the trace ends with Done or with a Crash event."""
    sf = os.path.join(work, tag + '.script')
    tf = os.path.join(work, tag + '.ndjson')
    sd = os.path.join(work, tag + '.scratch')
    os.makedirs(sd, exist_ok=True)
    with open(sf, 'w') as f:
        f.write('\n'.join(script) + '\n')
    try:
        r = subprocess.run([exe, sf, tf, sd], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           cwd=sd, env=clean_env(env), timeout=timeout, stdin=subprocess.DEVNULL)
        rc, err = r.returncode, r.stderr.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        rc, err = -14, 'timeout'
    shutil.rmtree(sd, ignore_errors=True)
    if rc in (3, 4, 5):
        raise CheckError('driver failed (%d): %s' % (rc, err[-2000:]))
    if rc != 0:
        done = open(tf, 'rb').read() if os.path.exists(tf) else b''
        with open(tf, 'wb') as f:          # complete lines only
            f.write(done[:done.rfind(b'\n') + 1] + b'{"op":"Crash"}\n')
        open(os.path.join(work, tag + '.crash'), 'w').write(err)
    return tf


# ---------------------------------------------------------------------------------------- TLC
def tlc(work, module, cfg, env=None, timeout=600, workers=1, heap='3g', extra=()):
    """Run TLC on spec/<module>.tla with spec/<cfg>.cfg; returns (exit status, output)."""
    meta = tempfile.mkdtemp(prefix='tlc_', dir=work)
    e = clean_env(env)
    cmd = ['java', '-Xmx' + heap, '-Xss512m', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC',
           '-Djava.io.tmpdir=' + meta, '-cp', JARS, 'tlc2.TLC', '-metadir', meta, '-noGenerateSpecTE',
           '-workers', str(workers), '-deadlock', '-config', os.path.join(SPEC, cfg + '.cfg')] + list(extra) \
        + [os.path.join(SPEC, module + '.tla')]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=meta, env=e,
                           timeout=timeout)
        rc, out = r.returncode, r.stdout.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as x:
        rc, out = 9999, (x.stdout or b'').decode('utf8', 'replace')
    shutil.rmtree(meta, ignore_errors=True)
    return rc, out


def tlc_stats(out):
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
    d = re.findall(r'depth of the complete state graph search is (\d+)', out)
    if not m:
        return 0, 0, 0
    return (int(m[-1][0].replace(',', '')), int(m[-1][1].replace(',', '')), int(d[-1]) if d else 0)


_TOK = re.compile(r'\s*(<<|>>|\|->|:>|@@|[\[\](){},]|"(?:[^"\\]|\\.)*"|-?\d+|\w+)')


def canonical(text):
    """A printed TLA+ value with the fields of records, the elements of sets and the pairs of functions in order
    (TLC prints them in the order in which they were written)."""
    toks = _TOK.findall(text)
    if ''.join(toks) != re.sub(r'\s', '', text) and '"' not in text:
        return text
    pos = [0]

    def value():
        t = toks[pos[0]]
        pos[0] += 1
        if t == '<<':
            return '<<' + ','.join(items('>>')) + '>>'
        if t == '{':
            return '{' + ','.join(sorted(items('}'))) + '}'
        if t == '[':
            return '[' + ','.join(sorted(items(']', '|->'))) + ']'
        if t == '(':
            return '(' + '@@'.join(sorted(items(')', ':>', '@@'))) + ')'
        return t

    def items(end, arrow=None, sep=','):
        out = []
        while toks[pos[0]] != end:
            if toks[pos[0]] == sep:
                pos[0] += 1
                continue
            v = value()
            if arrow:
                if toks[pos[0]] != arrow:
                    raise ValueError(text)
                pos[0] += 1
                v += arrow + value()
            out.append(v)
        pos[0] += 1
        return out
    try:
        v = value()
        return v if pos[0] == len(toks) else text
    except (IndexError, ValueError):
        return text


def model_check(work, module, cfg, timeout=600, workers=1, heap='4g', edges=False, extra=()):
    """Exhaustive check of a bounded model; optionally returns the printed transitions."""
    rc, out = tlc(work, module, cfg, timeout=timeout, workers=workers, heap=heap, extra=extra)
    if rc != 0:
        raise CheckError('model checking %s/%s ended with %d:\n%s' % (module, cfg, rc, out[-4000:]))
    gen, dist, depth = tlc_stats(out)
    ed, canon = [], {}
    if edges:
        for ln in out.splitlines():
            if ln.startswith('"[') or ln.startswith('"{'):
                a, c, b = json.loads(json.loads(ln))
                for k in (a, b):
                    if k not in canon:
                        canon[k] = canonical(k)
                ed.append((canon[a], c, canon[b]))
    return {'generated': gen, 'distinct': dist, 'depth': depth, 'edges': ed}


def count_lines(f):
    n = 0
    with open(f, 'rb') as h:
        for _ in h:
            n += 1
    return n


def _validate_once(work, module, trace, timeout, heap, env=None):
    e = {'TRACE': trace}
    e.update(env or {})
    rc, out = tlc(work, module, module, env=e, timeout=timeout, heap=heap)
    gen, dist, depth = tlc_stats(out)
    return rc, out, depth


def validate(work, module, trace, timeout=600, heap='3g', env=None):
    """Trace validation.  Returns (ok, events matched, explanation)."""
    n = count_lines(trace)
    rc, out, depth = _validate_once(work, module, trace, timeout, heap, env)
    if rc == 0 and depth == n + 1:
        return True, n, ''
    if rc in (9999, 137) or 'OutOfMemory' in out or 'StackOverflow' in out:
        raise CheckError('trace validation with %s did not finish (%d):\n%s' % (module, rc, '\n'.join(x for x in out.splitlines() if 'rror' in x or 'verflow' in x or 'xception' in x)[:2000]))
    if rc in (150, 151, 152, 153):  # parse errors of the specification or configuration
        raise CheckError('%s: TLC error %d:\n%s' % (module, rc, out[-3000:]))
    # a rejection must be reproducible
    rc2, out2, depth2 = _validate_once(work, module, trace, timeout, heap, env)
    if rc2 == 0 and depth2 == n + 1:
        raise CheckError('%s: rejection did not repeat' % module)
    matched = max(0, depth2 - 1)
    why = ''
    m = re.search(r'Error: (?!Postcondition|Assumption|The behavior).{0,300}', out2, re.S)
    if m:
        why = m.group(0)
    return False, matched, why


def trace_line(trace, i):
    with open(trace, 'rb') as f:
        for k, ln in enumerate(f):
            if k == i:
                return ln.decode('utf8', 'replace').strip()
    return '(end of trace)'
