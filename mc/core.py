"""
Exploration engine shared by all checks.

A check module (mc/checks/cNN.py) defines

    ID, RULE (text), BOUNDS (dict tier -> text)
    def setup(tier): ...                    optional; runs in the parent, before forking
    def cases(tier): yield literal cases    the bounded space, simplest first
    def run(case, rep): ...                 explores one case on the real code

Every case is a Python literal, so that a violating one can be written to a
file and replayed.  The engine enumerates *all* cases (never a sample), in
forked workers, merges the counters, applies the known-findings file and
writes the evidence.
"""
import ast, collections, hashlib, json, mmap, os, resource, signal, struct, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get('MC_REPO', '/repo'))   # the registered commands never set MC_REPO
EVID = os.environ.get('MC_EVID') or os.path.join(VERIF, 'evidence')   # nor MC_EVID
FINDINGS = os.path.join(VERIF, 'known_findings.json')

CPU_LIMIT = 150        # seconds of CPU per case before "does not terminate"
REAL_LIMIT = 420       # seconds of wall time per case (a blocked call)
TOTAL_LIMIT = {'quick': 780, 'thorough': 6 * 3600}
NWORKERS = int(os.environ.get('MC_WORKERS', '0')) or min(8, os.cpu_count() or 1)


STOP = mmap.mmap(-1, 1)      # shared by the workers: a violation found by one ends all
if os.environ.get('MC_STOP'): CPU_LIMIT = 60      # development only


class TooLong(BaseException):
    pass


class Violation(Exception):
    pass


def _alarm(sig, frame):
    raise TooLong('CPU' if sig == signal.SIGVTALRM else 'wall')


def load_impl(entropy_hook=False):
    """Import the implementation from /repo's working tree, and nothing else."""
    sys.dont_write_bytecode = True
    sys.pycache_prefix = '/nonexistent'
    sys.path[:] = [REPO] + [p for p in sys.path if p not in ('', REPO) and os.path.realpath(p) != os.path.join(VERIF)]
    if entropy_hook:
        from . import entropy
        entropy.install()
    import bitforge
    where = os.path.realpath(bitforge.__file__)
    if not where.startswith(REPO + os.sep):
        raise ImportError('bitforge comes from %s' % where)
    return bitforge


def h64(*parts):
    d = hashlib.blake2b(repr(parts).encode('utf-8', 'backslashreplace'), digest_size=8).digest()
    return struct.unpack('<Q', d)[0]


class Report(object):
    """Counters and verdicts of the cases run by one worker."""

    def __init__(self, known):
        self.known = known               # finding key -> text, for this property
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = collections.Counter()
        self.found = set()               # known findings that were seen failing
        self.violations = []
        self.unfinished = 0              # workers stopped when the time was up
        self.samples = []
        self.times = {}                  # seconds per kind of case (shown with MC_TIMES)
        self.case = None
        self.index = 0

    # -- counters
    def state(self, *key):
        self.states.add(h64(*key))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, what, n=1):
        self.outcomes[what] += n

    def sample(self, text):
        if len(self.samples) < 4:
            self.samples.append(text if isinstance(text, str) else repr(text))

    # -- verdicts
    def fail(self, message, key=None):
        if key is not None and key in self.known:
            self.found.add(key)
            return
        raise Violation(message)

    def check(self, ok, message, *args, **kw):
        if not ok:
            if callable(message):
                message = message()
            elif args:
                message = message % args
            self.fail(message, kw.get('key'))

    def equal(self, got, want, what, key=None):
        self.traces += 1
        if not (type_ok(got, want) and got == want):
            self.fail('%s: got %s, expected %s' % (what, short(got), short(want)), key)

    def is_known(self, key):
        return key in self.known


def type_ok(got, want):
    return True


def short(x, n=300):
    r = repr(x)
    return r if len(r) <= n else r[:n] + '...(%d chars)' % len(r)


def call(f, *args, **kw):
    """('ok', value) or ('err', exception). TooLong is not an Exception and escapes."""
    try:
        return 'ok', f(*args, **kw)
    except Exception as e:
        return 'err', e


def known_for(prop):
    with open(FINDINGS) as f:
        data = json.load(f)
    out = collections.OrderedDict()
    for entry in data['findings']:
        if entry['property'] == prop:
            for key in entry['keys']:
                out[key] = entry['what']
    return out


def run_one(module, case, rep):
    rep.case = case
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, getattr(module, 'CPU_LIMIT', CPU_LIMIT))
    signal.setitimer(signal.ITIMER_REAL, getattr(module, 'REAL_LIMIT', REAL_LIMIT))
    message = None
    try:
        module.run(case, rep)
    except Violation as e:
        message = str(e)
    except TooLong as e:
        message = 'did not terminate within the %s time limit' % e
    except RecursionError:
        message = 'recursion without end: ' + traceback.format_exc(limit=-6)
    except BaseException:
        message = 'unexpected exception: ' + traceback.format_exc(limit=-8)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
    if message is not None:
        rep.violations.append((rep.index, repr(case), message))
    return message


def worker(module, cases, offset, stride, rep, wfd):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    except Exception:
        pass
    for i in range(offset, len(cases), stride):
        rep.index = i
        t0 = time.time()
        run_one(module, cases[i], rep)
        kind = str(cases[i][0]) if isinstance(cases[i], tuple) and cases[i] else 'case'
        rep.times[kind] = rep.times.get(kind, 0) + time.time() - t0
        if rep.violations: STOP[0] = 1
        if STOP[0]: break
    blob = json.dumps({
        'transitions': rep.transitions, 'traces': rep.traces, 'outcomes': rep.outcomes,
        'found': sorted(rep.found), 'violations': rep.violations, 'samples': rep.samples,
        'times': rep.times,
    }).encode()
    states = struct.pack('<%dQ' % len(rep.states), *rep.states)
    with os.fdopen(wfd, 'wb') as f:
        f.write(struct.pack('<QQ', len(blob), len(states)))
        f.write(blob)
        f.write(states)


def explore(module, tier, seed):
    t0 = time.time()
    known = known_for(module.ID)
    rep = Report(known)
    cases = list(module.cases(tier))
    n = max(1, min(NWORKERS, len(cases)))
    # Interleave, so that neighbouring (similar, equally slow) cases are spread out.
    kids = []
    sys.stdout.flush(); sys.stderr.flush()
    for w in range(n):
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 9
            try:
                os.close(rfd)
                for _, r in kids:
                    os.close(r)
                worker(module, cases, w, n, Report(known), wfd)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush(); sys.stderr.flush()
                os._exit(code)
        os.close(wfd)
        kids.append((pid, rfd))

    deadline = t0 + TOTAL_LIMIT[tier]
    import select
    buffers = {r: bytearray() for _, r in kids}
    open_fds = set(buffers)
    timed_out = False
    while open_fds:
        left = deadline - time.time()
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select(list(open_fds), [], [], min(left, 5))
        for fd in ready:
            data = os.read(fd, 1 << 20)
            if data:
                buffers[fd] += data
            else:
                open_fds.discard(fd)

    for w, (pid, rfd) in enumerate(kids):
        if timed_out and rfd in open_fds:
            os.kill(pid, signal.SIGKILL)
        _, status = os.waitpid(pid, 0)
        os.close(rfd)
        buf = buffers[rfd]
        if len(buf) < 16:
            if timed_out: rep.unfinished += 1
            else: rep.violations.append((len(cases) + w, "('worker', %d, %d)" % (w, n), 'worker died with status %d' % status))
            continue
        la, lb = struct.unpack('<QQ', bytes(buf[:16]))
        part = json.loads(bytes(buf[16:16 + la]))
        rep.states.update(struct.unpack('<%dQ' % (lb // 8), bytes(buf[16 + la:16 + la + lb])))
        rep.transitions += part['transitions']
        rep.traces += part['traces']
        rep.outcomes.update(part['outcomes'])
        rep.found.update(part['found'])
        for k, v in part['times'].items(): rep.times[k] = rep.times.get(k, 0) + v
        rep.violations += [tuple(v) for v in part['violations']]
        for s in part['samples']:
            if len(rep.samples) < 8:
                rep.samples.append(s)
    rep.violations.sort(key=lambda v: v[0])
    return rep, len(cases), time.time() - t0


def write_evidence(module, tier, seed, rep, ncases, wall):
    os.makedirs(EVID, exist_ok=True)
    data = {
        'property': module.ID, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': len(rep.states),
            'transitions': rep.transitions,
            'traces_validated_against_impl': rep.traces,
            'case_groups': ncases,
            'distinct_outcomes': dict(sorted(rep.outcomes.items())),
            'exhaustive': not rep.violations and not rep.unfinished,
            'rule': module.RULE,
            'bounds': module.BOUNDS[tier],
            'samples': rep.samples,
        },
        'assumptions': getattr(module, 'ASSUMPTIONS', []),
        'known_findings_seen': sorted(rep.found),
        'wall_s': round(wall, 3),
        'violations': len(rep.violations),
    }
    path = os.path.join(EVID, module.ID + '.json')
    tmp = path + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(data, f, indent=1)
    os.replace(tmp, path)


def main(module, tier, replay=None):
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    if replay:
        with open(replay) as f:
            case = ast.literal_eval(json.load(f)['case'])
        if hasattr(module, 'setup'):
            module.setup(tier)
        rep = Report(known_for(module.ID))
        message = run_one(module, case, rep)
        print(message or 'no violation')
        if message:
            print('VIOLATION property=%s replay=%s' % (module.ID, replay))
        return 1 if message else 0

    try:
        if hasattr(module, 'setup'):
            module.setup(tier)
        rep, ncases, wall = explore(module, tier, seed)
    except BaseException:
        # The implementation cannot even be imported or driven.
        rep, ncases = Report({}), 0
        rep.violations.append((0, "('setup',)", 'setup failed: ' + traceback.format_exc(limit=-8)))
    wall = time.time() - t0
    write_evidence(module, tier, seed, rep, ncases, wall)
    print('%s %s: %d case groups, %d states, %d transitions, %d traces compared, %.1f s' % (
        module.ID, tier, ncases, len(rep.states), rep.transitions, rep.traces, wall))
    if os.environ.get('MC_TIMES'):
        print('times: %s' % {k: round(v, 1) for k, v in sorted(rep.times.items(), key=lambda kv: -kv[1])})
    print('outcomes: %s' % dict(sorted(rep.outcomes.items())))
    known = known_for(module.ID)
    texts = collections.OrderedDict()
    for key in known:
        if key in rep.found:
            texts.setdefault(known[key], []).append(key)
    for text, keys in texts.items():
        print('KNOWN-FINDING: property=%s %s [%s]' % (module.ID, text, ', '.join(keys)))
    if not rep.violations:
        if rep.unfinished:
            print('UNFINISHED: %d of the workers were stopped after %d s: no verdict' % (rep.unfinished, TOTAL_LIMIT[tier]))
            return 2
        return 0
    index, case, message = rep.violations[0]
    path = os.path.join(EVID, 'replay-%s.json' % module.ID)
    with open(path, 'w') as f:
        json.dump({'property': module.ID, 'tier': tier, 'case': case, 'detail': message,
                   'others': [[c[:500], m[:500]] for _, c, m in rep.violations[1:10]],
                   'how': '/opt/venv/bin/python mc/run.py %s --replay %s' % (module.ID, path)}, f, indent=1)
    print('case: %s' % case[:1000])
    print('detail: %s' % message[:3000])
    print('VIOLATION property=%s replay=%s' % (module.ID, path))
    return 1
