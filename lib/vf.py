"""Glue between the TLA+ specifications (TLC) and the code of /repo: builds the conformance driver from the current
working tree, lets TLC generate behaviours, executes them, and lets TLC validate the recorded traces.  It contains no
oracle: what is allowed is decided by the specifications in /verif/spec."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(ROOT, 'spec')
BUILD = os.path.join(ROOT, 'build')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
JOBS = 8
FLAGS = ['-std=c++20', '-w', '-fPIC', '-DSPDLOG_COMPILED_LIB', '-DSPDLOG_FMT_EXTERNAL', '-DSPDLOG_SHARED_LIB', '-D_GLIBCXX_ASSERTIONS',
         '-I' + ROOT + '/harness/stub', '-I' + REPO, '-I' + REPO + '/ThermoFun']


class Problem(Exception):
    """the machinery could not do its work"""


def say(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------------------------------------ build
def _hash(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


def _read(p):
    with open(p, 'rb') as f:
        return f.read()


def sources():
    cpp, hdr = [], []
    for base in (REPO + '/ThermoFun', ROOT + '/harness'):
        for d, _, fs in os.walk(base):
            for f in sorted(fs):
                if f.endswith('.cpp'):
                    cpp.append(os.path.join(d, f))
                elif f.endswith(('.h', '.hpp')):
                    hdr.append(os.path.join(d, f))
    return sorted(cpp), sorted(hdr)


# sources that are compiled together (only to save time; one by one if that fails)
TOGETHER = [r'ThermoFun/Reactions/', r'ThermoFun/Substances/Solids/', r'ThermoFun/Substances/Solute/Solute(AD|Akin|And|HKFgems|Holl)',
            r'ThermoFun/Substances/[^/]*cpp', r'ThermoFun/Substances/Solvent/Water\w*(reaktoro|Sver\w*|Fern\w*)\.cpp', r'ThermoFun/\w*Models\w*\.cpp',
            r'ThermoFun/Common/(?!Parse|Units)', r'ThermoFun/Batch/']


def _compile(groups, hh, *flags):
    """compiles groups of sources; objects are reused only if every byte that went into them is the same"""
    os.makedirs(BUILD + '/obj', exist_ok=True)

    def obj(ps):
        return BUILD + '/obj/' + _hash(*ps, *[_read(p) for p in ps], hh, *FLAGS, *flags) + '.o'

    def comp(ps):
        o = obj(ps)
        if os.path.exists(o):
            return [o]
        tmp = o + '.%d.tmp' % os.getpid()
        src = ps[0]
        if len(ps) > 1:
            src = tmp + '.cpp'
            with open(src, 'w') as f:
                f.write(''.join('#include "%s"\n' % p for p in ps))
        r = subprocess.run(['g++', *FLAGS, *flags, '-c', src, '-o', tmp], capture_output=True, text=True)
        if len(ps) > 1:
            os.unlink(src)
            if r.returncode:
                return [x for p in ps for x in comp([p])]
        if r.returncode:
            raise Problem('cannot compile %s\n%s' % (src, r.stderr[:3000]))
        os.replace(tmp, o)
        return [o]

    def weight(g):
        return sum(map(os.path.getsize, g)) + (10 ** 7 if g[0].startswith(ROOT) or '/python/' in g[0] else 10 ** 6 if re.search('Database|Reaction.cpp|ParseJson|Engine|/Common/', g[0]) else 0)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        return [o for l in ex.map(comp, sorted(groups, key=weight, reverse=True)) for o in l]


def _link(out, name, objs, *args):
    if not os.path.exists(out + name):
        os.makedirs(os.path.dirname(out + name), exist_ok=True)
        tmp = out + name + '.%d.tmp' % os.getpid()
        r = subprocess.run(['g++', *args, *objs, '-o', tmp, '-lspdlog', '-lfmt'], capture_output=True, text=True)
        if r.returncode:
            raise Problem('cannot link %s\n%s' % (out + name, r.stderr[:3000]))
        os.replace(tmp, out + name)
    return out + name


def _groups(cpp):
    groups, seen = [], set()
    for g in TOGETHER:
        m = [p for p in cpp if re.search(g, p) and p not in seen]
        seen.update(m)
        if m:
            groups.append(m)
    return groups + [[p] for p in cpp if p not in seen]


def build_driver():
    """compiles the library of the current working tree and the driver"""
    t0 = time.time()
    cpp, hdr = sources()
    groups = _groups(cpp)
    objs = _compile(groups, _hash(*[p + '\0' + hashlib.sha256(_read(p)).hexdigest() for p in hdr]), '-O1')
    drv = _link(BUILD + '/driver-' + _hash(*sorted(objs)), '', objs)
    if time.time() - t0 > 2:
        say('built the driver from %s: %d units, %.1f s' % (REPO, len(groups), time.time() - t0))
    return drv


def build_python():
    """compiles the Python module of the current working tree; returns the command of the driver that uses it"""
    drv = build_driver()
    t0 = time.time()
    cpp, hdr = sources()
    base = REPO + '/python/src'
    files = sorted(os.path.join(d, f) for d, _, fs in os.walk(base) for f in fs)
    hh = _hash(*[p + '\0' + hashlib.sha256(_read(p)).hexdigest() for p in hdr])
    objs = _compile(_groups([p for p in cpp if not p.startswith(ROOT)]), hh, '-O1')
    inc = subprocess.run(['/usr/bin/python3', '-c', 'import sysconfig; print(sysconfig.get_paths()["include"])'], capture_output=True, text=True).stdout.strip()
    hp = _hash(hh, *[p + '\0' + hashlib.sha256(_read(p)).hexdigest() for p in files if p.endswith('pp') and not p.endswith('.cpp')])
    objs += _compile([[p] for p in files if p.endswith('.cpp')], hp, '-O0', '-fvisibility=hidden', '-I' + base, '-I' + base + '/thermofun', '-I' + inc)
    so = _link(BUILD + '/python-' + _hash(*sorted(objs)), '/PyThermoFun.so', objs, '-shared')
    if time.time() - t0 > 2:
        say('built the Python module from %s: %.1f s' % (REPO, time.time() - t0))
    return ['/usr/bin/python3', ROOT + '/harness/pydriver.py', os.path.dirname(so), drv]


def build_java():
    js = sorted(f for f in os.listdir(SPEC) if f.endswith('.java'))
    d = BUILD + '/java-' + _hash(*[_read(SPEC + '/' + f) for f in js])
    if not os.path.isdir(d):
        tmp = tempfile.mkdtemp(dir=_mk(BUILD))
        r = subprocess.run(['javac', '-nowarn', '-cp', JARS, '-d', tmp] + [SPEC + '/' + f for f in js], capture_output=True, text=True)
        if r.returncode:
            raise Problem('javac\n' + r.stderr[:3000])
        try:
            os.rename(tmp, d)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return d


def _mk(d):
    os.makedirs(d, exist_ok=True)
    return d


# ------------------------------------------------------------------------------------------------ TLC
def tlc(module, cfg, work, props=None, args=(), heap='1g', timeout=600, workers=1, coverage=False):
    """runs TLC on spec/<module>.tla with the configuration text cfg; returns its output"""
    d = tempfile.mkdtemp(dir=work)
    for f in os.listdir(SPEC):
        if f.endswith('.tla'):
            os.symlink(SPEC + '/' + f, d + '/' + f)
    with open(d + '/run.cfg', 'w') as f:
        f.write(cfg)
    p = dict(props or {})
    p.setdefault('data', SPEC)
    cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=4', '-Djava.io.tmpdir=' + d,
           *['-Dvf.%s=%s' % kv for kv in p.items()], '-cp', JAVA() + ':' + JARS, 'tlc2.TLC', '-nowarning', '-deadlock', '-workers', str(workers),
           '-metadir', d + '/states', '-config', 'run.cfg', *args, module + '.tla']
    try:
        r = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as e:
        out, rc = (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or ''), 'timeout'
    shutil.rmtree(d, ignore_errors=True)
    return rc, out


_java = None


def JAVA():
    global _java
    if _java is None:
        _java = build_java()
    return _java


def tlc_stats(out):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    if m:
        return int(m[-1][0]), int(m[-1][1])
    return 0, 0


def model_check(module, cfg, work, what, heap='4g', timeout=600, workers=JOBS, props=None):
    """exhaustive check of a bounded model; any error is an error of the specification, not of the code"""
    t = time.time()
    rc, out = tlc(module, cfg, work, props=props, heap=heap, timeout=timeout, workers=workers)
    if rc != 0 or 'No error has been found' not in out:
        raise Problem('model checking %s (%s) failed: %s\n%s' % (module, what, rc, out[-6000:]))
    g, d = tlc_stats(out)
    say('model %s (%s): %d transitions, %d distinct states, %.1f s' % (module, what, g, d, time.time() - t))
    return g, d


def generate(module, cfg, work, props, what, heap='2g', timeout=600, seed=None):
    """behaviours (lists of commands) emitted by a generator specification"""
    t = time.time()
    f = tempfile.mktemp(dir=work)
    p = dict(props)
    p['emit'] = f
    p['seed'] = SEED if seed is None else seed
    rc, out = tlc(module, cfg, work, props=p, heap=heap, timeout=timeout)
    if rc != 0:
        raise Problem('generator %s failed: %s\n%s' % (module, rc, out[-6000:]))
    bs = []
    if os.path.exists(f):
        with open(f) as h:
            bs = [json.loads(l) for l in h if l.strip()]
        os.unlink(f)
    g, d = tlc_stats(out)
    say('generated %s: %d behaviours, %d commands (%d states), %.1f s' % (what, len(bs), sum(map(len, bs)), d, time.time() - t))
    return bs, g, d


# ------------------------------------------------------------------------------------------------ driver
def execute(drv, behaviours, work, timeout=120):
    """runs behaviours (each preceded by a reset) in one driver process, restarted after a crash; returns events per behaviour"""
    d = tempfile.mkdtemp(dir=work)
    res = []
    todo = list(range(len(behaviours)))
    events = {i: [] for i in todo}
    while todo:
        cf_, of = d + '/cmds', d + '/out'
        open(of, 'w').close()
        order = []
        with open(cf_, 'w') as f:
            for i in todo:
                for c in [{'op': 'reset'}] + behaviours[i]:
                    f.write(json.dumps(c) + '\n')
                    order.append((i, c))
        scratch = _mk(d + '/scratch')
        why = None
        try:
            r = subprocess.run([*(drv if isinstance(drv, list) else [drv]), cf_, of, scratch], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=timeout, errors='replace', text=True,
                               env={**os.environ, 'LC_ALL': 'C', 'VF_POOL': SPEC, 'VF_REPO': REPO})
            if r.returncode == 3:
                raise Problem('harness: ' + r.stderr[-1000:])
            if r.returncode != 0:
                why = 'crash %s %s' % (r.returncode, r.stderr[-300:].replace('\n', ' '))
        except subprocess.TimeoutExpired:
            why = 'hang'
        shutil.rmtree(scratch, ignore_errors=True)
        with open(of) as f:
            ls = [l for l in f.read().split('\n') if l]
        got = []
        for l in ls:
            try:
                got.append(json.loads(l))
            except ValueError:
                break
        for (i, _), e in zip(order, got):
            events[i].append(e)
        if why is None:
            if len(got) != len(order):
                raise Problem('driver lost events')
            break
        if len(got) >= len(order):  # died while tearing down after the last command: attribute it to the last behaviour
            events[order[-1][0]].append({'c': {'op': 'reset'}, 'ok': False, 'err': why, 'crash': True})
            break
        i, c = order[len(got)]
        events[i].append({'c': c, 'ok': False, 'err': why, 'crash': True})
        todo = todo[todo.index(i) + 1:]
    shutil.rmtree(d, ignore_errors=True)
    return [events[i] for i in range(len(behaviours))]


def execute_all(drv, behaviours, work, timeout=120, jobs=JOBS):
    n = len(behaviours)
    k = max(1, min(jobs, n))
    parts = [list(range(j, n, k)) for j in range(k)]
    out = [None] * n
    with cf.ThreadPoolExecutor(k) as ex:
        for part, ev in zip(parts, ex.map(lambda p: execute(drv, [behaviours[i] for i in p], work, timeout), parts)):
            for i, e in zip(part, ev):
                out[i] = e
    return out


# ------------------------------------------------------------------------------------------------ validation
TRACE_CFG = 'INIT TInit\nNEXT TNext\nINVARIANT TDone\n'


def _write_trace(f, evs):
    n = 0
    starts = []
    with open(f, 'w') as h:
        for ev in evs:
            starts.append(n + 1)
            for e in ev:
                e = {k: v for k, v in e.items() if k != 'note'}
                h.write(json.dumps(e) + '\n')
                n += 1
    return starts, n


def _validate_chunk(module, evs, work, props, timeout, heap):
    """-> list of (index of behaviour, position inside it, info); validates everything even after TLC errors"""
    rejects = []
    lo = 0
    total = 0
    while lo < len(evs):
        d = tempfile.mkdtemp(dir=work)
        starts, n = _write_trace(d + '/trace', evs[lo:])
        rep = d + '/report'
        rc, out = tlc(module, TRACE_CFG, work, props={**(props or {}), 'trace': d + '/trace', 'report': rep, 'n': n}, timeout=timeout, heap=heap)
        rs = []
        if os.path.exists(rep):
            with open(rep) as h:
                rs = [json.loads(l) for l in h if l.strip()]
        shutil.rmtree(d, ignore_errors=True)

        def where(l):
            b = max(i for i, s in enumerate(starts) if s <= l)
            return lo + b, l - starts[b]
        done = [r for r in rs if r['info'] == 'DONE']
        rejects += [(*where(r['l']), r['info']) for r in rs if r['info'] != 'DONE']
        if done:
            break
        m = re.findall(r'/\\ l = (\d+)', out)
        if rc == 'timeout' or not m:
            raise Problem('trace validation %s failed: %s\n%s' % (module, rc, out[-5000:]))
        b, pos = where(min(int(m[-1]), n))  # the specification has no value for this event
        msg = re.findall(r'(?:Error: |The exception was a |Attempted |: )([^\n]*)', out)
        rejects.append((b, pos, 'the response has not the expected form: ' + ' '.join(out[out.find('Error:'):].split())[:600]))
        lo = b + 1
    return rejects


def validate(module, events, work, props=None, timeout=600, heap='1500m', jobs=JOBS, chunks=None):
    n = len(events)
    if n == 0:
        return []
    k = max(1, min(chunks or jobs, n))
    # chunks of about equal numbers of events, behaviours dealt round robin
    parts = [list(range(j, n, k)) for j in range(k)]
    res = []
    with cf.ThreadPoolExecutor(jobs) as ex:
        for part, rj in zip(parts, ex.map(lambda p: _validate_chunk(module, [events[i] for i in p], work, props, timeout, heap), parts)):
            res += [(part[b], pos, info) for b, pos, info in rj]
    return sorted(res, key=lambda x: x[:2])


# ------------------------------------------------------------------------------------------------ known findings
def known_findings(pid):
    """lines  known: property=<id> match=<regular expression on the rejected command and information> <text>"""
    out = []
    f = ROOT + '/known_findings.txt'
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'known: property=(\S+) match=(\S+) (.*)', l)
            if m and m.group(1) == pid:
                out.append((re.compile(m.group(2)), m.group(3).strip()))
    return out


# ------------------------------------------------------------------------------------------------ a check
class Check:
    def __init__(self, pid, level='model_checking'):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.notes, self.viol, self.known = [], {}, [], []
        self.assumptions = []
        self.work = tempfile.mkdtemp(prefix='vf-%s-' % pid)
        self.drv = None
        self._pool = cf.ThreadPoolExecutor(2)
        self.python = pid.startswith('P')
        self._drv = self._pool.submit(build_python if self.python else build_driver)
        JAVA()

    def driver(self):
        if self.drv is None:
            self.drv = self._drv.result()
        return self.drv

    def mc(self, module, cfg, what, **kw):
        g, d = model_check(module, cfg, self.work, what, **kw)
        self.transitions += g
        self.states += d
        self.notes.setdefault('models', []).append({'model': module, 'config': what, 'transitions': g, 'states': d})

    def gen(self, module, cfg, props, what, **kw):
        bs, g, d = generate(module, cfg, self.work, props, what, **kw)
        self.transitions += g
        self.states += d
        self.notes.setdefault('generators', []).append({'generator': module, 'what': what, 'behaviours': len(bs), 'commands': sum(map(len, bs))})
        return bs

    def par(self, jobs, n=JOBS):
        """runs [(function, args, kwargs)] in parallel; results in order"""
        with cf.ThreadPoolExecutor(n) as ex:
            return [f.result() for f in [ex.submit(fn, *a, **k) for fn, a, k in jobs]]

    def conform(self, module, behaviours, what, props=None, timeout=120, vtimeout=600, chunks=None, limit=5, heap='1500m'):
        """executes behaviours on the code and validates the traces against the trace specification"""
        if not behaviours:
            raise Problem('no behaviours for ' + what)
        t = time.time()
        ev = execute_all(self.driver(), behaviours, self.work, timeout)
        t1 = time.time()
        rj = validate(module, ev, self.work, props, vtimeout, chunks=chunks, heap=heap)
        n = sum(len(e) for e in ev)
        self.traces += len(behaviours)
        self.events += n
        say('conformance %s: %d traces, %d events, run %.1f s, validated %.1f s, %d rejected' % (what, len(behaviours), n, t1 - t, time.time() - t1, len(rj)))
        self.notes.setdefault('conformance', []).append({'trace_spec': module, 'what': what, 'traces': len(behaviours), 'events': n})
        if len(self.samples) < 6:
            self.samples.append({'what': what, 'behaviour': behaviours[0][:8]})
        shown = set()
        for b, pos, info in rj:
            if len(self.viol) >= limit:
                break
            cmd = ev[b][min(pos, len(ev[b]) - 1)]
            txt = json.dumps({'event': cmd, 'info': info}, sort_keys=True)
            k = [d for r, d in known_findings(self.pid) if r.search(txt)]
            if k:
                if k[0] not in self.known:
                    self.known.append(k[0])
                continue
            if b in shown:
                continue
            shown.add(b)
            # a rejection counts only if it repeats
            e2 = execute(self.driver(), [behaviours[b]], self.work, timeout)
            r2 = validate(module, e2, self.work, props, vtimeout, heap=heap)
            if not r2:
                say('rejection of a %s behaviour did not repeat alone; event %s' % (what, txt[:300]))
                ev2 = execute_all(self.driver(), behaviours, self.work, timeout)
                r3 = validate(module, ev2, self.work, props, vtimeout, chunks=chunks, heap=heap)
                if not any(x[0] == b for x in r3):
                    continue
                r2, e2 = [x for x in r3 if x[0] == b], [ev2[b]]
            self.violation(what, module, props, behaviours[b], e2[0], r2)

    def violation(self, what, module, props, behaviour, events, rejects):
        d = _mk(ROOT + '/evidence/replay')
        f = d + '/%s-%d.json' % (self.pid, len(self.viol) + 1)
        b, pos, info = rejects[0]
        with open(f, 'w') as h:
            json.dump({'property': self.pid, 'what': what, 'trace_spec': module, 'props': props or {}, 'behaviour': behaviour,
                       'rejected_event': events[min(pos, len(events) - 1)], 'info': info}, h, indent=1)
        self.viol.append(f)
        say('rejected: %s\n  event %s\n  specification: %s' % (what, json.dumps(events[min(pos, len(events) - 1)])[:900], json.dumps(info)[:900]))
        say('VIOLATION property=%s replay=%s' % (self.pid, f))

    def finish(self):
        for k in self.known:
            say('KNOWN-FINDING: property=%s %s' % (self.pid, k))
        _mk(ROOT + '/evidence')
        cov = {'states': self.states, 'transitions': self.transitions, 'traces_validated_against_impl': self.traces, 'events_validated': self.events,
               'samples': self.samples, **self.notes}
        with open(ROOT + '/evidence/%s.json' % self.pid, 'w') as h:
            json.dump({'property': self.pid, 'tier': TIER, 'seed': SEED, 'level': self.level, 'coverage': cov, 'assumptions': self.assumptions,
                       'wall_s': round(time.time() - self.t0, 1), 'violations': len(self.viol)}, h, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        say('%s: %s, %.1f s' % (self.pid, 'VIOLATED' if self.viol else 'held', time.time() - self.t0))
        return 1 if self.viol else 0
