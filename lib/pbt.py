"""Property-based testing engine used by every check in /verif.

A check is a set of sub-properties.  A sub-property is one function of a `Gen`
object: it draws its input through the Gen (every random choice goes through
it), exercises the code in /repo and raises on disagreement with the oracle.

Every draw is recorded as a bounded integer in a choice sequence, so that
  * a run is a pure function of the code under test and VERIF_SEED,
  * a failing case is shrunk by shrinking its choice sequence (delete chunks,
    zero and lower choices) and re-running the generator, whatever it built,
  * the replay file is the shrunk choice sequence plus a rendering of the case.
"""
import hashlib
import json
import multiprocessing
import os
import random
import re
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
OUT = os.environ.get('VERIF_OUT')

# CPU seconds a single case may burn before it is called a hang.  Typical cases
# take far less than 50 ms, so this is three orders of magnitude of slack.
HANG_CPU_S = 60


class Violation(AssertionError):
    pass


class Discard(Exception):
    pass


class HarnessError(Exception):
    pass


class Hang(BaseException):
    pass


class _Overrun(Exception):
    pass


class Gen(object):
    """Source of choices. Choice 0 is always the simplest."""

    MAXLEN = 20000

    def __init__(self, rnd=None, prefix=(), extra=0, strict_prefix=False):
        self.rnd = rnd
        self.prefix = prefix
        self.choices = []
        self.strict = strict_prefix
        self.labels = {}
        self.keys = []
        self.sampled = None
        self.trace = []
        self.units = 0

    # -- primitive draw
    def draw(self, n):
        """An integer in [0, n)"""
        i = len(self.choices)
        if i < len(self.prefix):
            v = self.prefix[i]
            if v >= n:
                v = n - 1
        elif self.rnd is None:
            v = 0
        else:
            v = self.rnd.randrange(n) if n > 1 else 0
        if i > self.MAXLEN:
            raise Discard('too many choices')
        self.choices.append(v)
        return v

    # -- derived draws
    def enum(self, n):
        """Walks 0..n-1 over the cases of all shards (recorded as a choice)"""
        i = len(self.choices)
        if i < len(self.prefix):
            return self.draw(n)
        v = self.position % n if self.rnd is not None else 0
        self.choices.append(v)
        return v

    position = 0

    def bool(self, num=1, den=2):
        """True with probability num/den"""
        return self.draw(den) >= den - num

    def choice(self, seq):
        return seq[self.draw(len(seq))]

    def weighted(self, pairs):
        """pairs: [(weight, value)], first is the simplest"""
        total = 0
        for w, _ in pairs:
            total += w
        d = self.draw(total)
        for w, v in pairs:
            if d < w:
                return v
            d -= w

    def int(self, lo, hi):
        """Uniform with a bias to both ends"""
        if lo >= hi:
            return lo
        m = self.draw(8)
        span = hi - lo + 1
        if m == 6:
            return hi - self.draw(min(3, span))
        if m == 7:
            return lo + self.draw(min(3, span))
        return lo + self.draw(span)

    def uint(self, lo, hi):
        """Uniform"""
        if lo >= hi:
            return lo
        return lo + self.draw(hi - lo + 1)

    def nat(self, maxbits):
        """Natural number, log-uniform, boundary biased"""
        bits = self.draw(maxbits + 1)
        if bits == 0:
            return 0
        kind = self.draw(5)
        top = 1 << bits
        if kind == 0:
            return (top >> 1) + self.draw(max(1, top >> 1))
        if kind == 1:
            return top - 1
        if kind == 2:
            return top >> 1
        if kind == 3:
            return (top >> 1) + self.draw(min(top >> 1, 4) or 1)
        return max(0, top - 1 - self.draw(min(top >> 1, 4) or 1))

    def signed(self, maxbits):
        n = self.nat(maxbits)
        if self.draw(2):
            return -n - self.draw(2)
        return n

    def bytes(self, lo=0, hi=20):
        n = self.int(lo, hi)
        return self.nbytes(n)

    def nbytes(self, n):
        if n == 0:
            return b''
        kind = self.draw(6)
        if kind == 0:
            b = self.draw(256)
            return bytes(bytearray([b]) * n)
        if kind == 1 or n > 64:
            # long strings: one seed choice, expanded
            s = self.draw(1 << 32)
            return random.Random(s).randbytes(n)
        return bytes(bytearray(self.draw(256) for _ in range(n)))

    def list(self, fn, lo=0, hi=5):
        n = self.int(lo, hi)
        return [fn() for _ in range(n)]

    def text(self, alphabet, lo=0, hi=12):
        n = self.int(lo, hi)
        return ''.join(alphabet[self.draw(len(alphabet))] for _ in range(n))

    def perm(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1, 0, -1):
            j = i - self.draw(i + 1)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def subset(self, seq):
        return [x for x in seq if self.draw(2)]

    # -- bookkeeping
    def label(self, name):
        self.labels[name] = self.labels.get(name, 0) + 1

    def nontrivial(self, key):
        """Marks the case as non-trivial; key makes it distinct"""
        self.keys.append(key)

    def unit(self, n=1):
        """Counts extra oracle comparisons done in this case"""
        self.units += n

    def sample(self, text):
        if self.sampled is None:
            self.sampled = text

    def log(self, *parts):
        """Rendering of the case, shown in the replay file"""
        if len(self.trace) < 400:
            self.trace.append(' '.join(_r(p) for p in parts))

    def fail(self, msg, **kw):
        raise Violation(msg + ''.join('\n  %s = %s' % (k, _r(v)) for k, v in kw.items()))

    def eq(self, got, want, what, **kw):
        self.units += 1
        if type(got) is not type(want) and not (isinstance(got, (str, int, bytes, tuple, list, dict, set)) and isinstance(want, type(got)) or
                                                isinstance(got, type(want))):
            self.fail(what + ': type differs', got=got, want=want, **kw)
        if got != want:
            self.fail(what, got=got, want=want, **kw)

    def true(self, cond, what, **kw):
        self.units += 1
        if not cond:
            self.fail(what, **kw)


def _r(p):
    if isinstance(p, str):
        s = p
    elif isinstance(p, (bytes, bytearray)):
        s = 'hex:' + bytes(p).hex()
    else:
        try:
            s = repr(p)
        except Exception as e:  # repr of a broken value
            s = '<unrepresentable %s: %s>' % (type(p).__name__, e)
    return s if len(s) < 3000 else s[:3000] + '...(%d)' % len(s)


class Sub(object):
    def __init__(self, name, fn, quick, thorough, shards):
        self.name = name
        self.fn = fn
        self.quick = quick
        self.thorough = thorough
        self.shards = shards


class Check(object):
    def __init__(self, pid, rule, assumptions=(), level='exploration'):
        self.pid = pid
        self.rule = rule
        self.assumptions = list(assumptions)
        self.level = level
        self.subs = []
        self.exhaustive = {}

    def prop(self, quick, thorough=None, name=None, shards=None):
        def deco(fn):
            self.subs.append(Sub(name or fn.__name__, fn, quick, thorough or quick * 20, shards))
            return fn
        return deco


def _hang(signum, frame):
    raise Hang()


def _arm(seconds):
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds)


def run_one(sub, gen):
    """Returns (status, info). status in ok, discard, fail, hang"""
    # extended_date etc. keep no global state; modules that do (caches on
    # classes) are part of what is checked and are never reset.
    _arm(HANG_CPU_S)
    try:
        sub.fn(gen)
        return 'ok', None
    except Discard:
        return 'discard', None
    except HarnessError:
        raise
    except Hang:
        return 'hang', 'the case used more than %d CPU seconds' % HANG_CPU_S
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        if isinstance(e, SystemExit):
            raise
        tb = traceback.format_exc()
        if len(tb) > 12000:
            tb = tb[:6000] + '\n ... \n' + tb[-6000:]
        return 'fail', (type(e).__name__, str(e)[:4000], tb)
    finally:
        _arm(0)


def shrink(sub, choices, budget_s=40, budget_n=4000):
    best = list(choices)
    t0 = time.monotonic()
    count = [0]

    def attempt(cand):
        if count[0] >= budget_n or time.monotonic() - t0 > budget_s:
            return None
        count[0] += 1
        g = Gen(None, cand)
        status, info = run_one(sub, g)
        if status == 'fail':
            used = g.choices
            if len(used) < len(best) or (len(used) == len(best) and used < best):
                return used
        return None

    improved = True
    while improved and count[0] < budget_n and time.monotonic() - t0 < budget_s:
        improved = False
        size = max(1, len(best) // 2)
        while size >= 1:
            i = 0
            while i < len(best):
                cand = best[:i] + best[i + size:]
                r = attempt(cand)
                if r is not None:
                    best = r
                    improved = True
                else:
                    i += size
                if count[0] >= budget_n or time.monotonic() - t0 > budget_s:
                    break
            if size == 1:
                break
            size //= 2
        for size in (8, 4, 2, 1):
            i = 0
            while i + size <= len(best):
                if any(best[i:i + size]):
                    r = attempt(best[:i] + [0] * size + best[i + size:])
                    if r is not None:
                        best = r
                        improved = True
                i += size
                if count[0] >= budget_n or time.monotonic() - t0 > budget_s:
                    break
        i = 0
        while i < len(best):
            lo, hi = 0, best[i] if i < len(best) else 0
            while lo < hi and count[0] < budget_n:
                mid = (lo + hi) // 2
                r = attempt(best[:i] + [mid] + best[i + 1:])
                if r is not None:
                    best = r
                    improved = True
                    hi = best[i] if i < len(best) else 0
                    if hi > mid:
                        break
                else:
                    lo = mid + 1
            i += 1
            if count[0] >= budget_n or time.monotonic() - t0 > budget_s:
                break
    return best


def _worker(check, sub, shard, shards, n, seed, deadline, q):
    try:
        signal.signal(signal.SIGVTALRM, _hang)
        try:
            resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
        except (ValueError, OSError):
            pass
        base = int.from_bytes(hashlib.sha256(
            ('%s/%s/%d/%d' % (check.pid, sub.name, shard, seed)).encode()).digest()[:8], 'big')
        res = {'sub': sub.name, 'evals': 0, 'discards': 0, 'labels': {}, 'keys': set(),
               'samples': [], 'failure': None, 'stopped': False, 'units': 0}
        rnd = random.Random(base)
        t_end = deadline
        for i in range(n):
            if time.monotonic() > t_end:
                res['stopped'] = True
                break
            g = Gen(random.Random(rnd.getrandbits(64)))
            g.index = i
            g.position = i * shards + shard
            status, info = run_one(sub, g)
            if status == 'discard':
                res['discards'] += 1
                continue
            res['evals'] += 1
            res['units'] += g.units
            for k, v in g.labels.items():
                res['labels'][k] = res['labels'].get(k, 0) + v
            for k in g.keys:
                res['keys'].add(hashlib.blake2b(_r(k).encode('utf-8', 'surrogatepass'), digest_size=8).digest())
            if g.sampled is not None and (len(res['samples']) < 2 or (i & (i - 1)) == 0 and len(res['samples']) < 8):
                res['samples'].append(g.sampled)
            if status in ('fail', 'hang'):
                choices = list(g.choices)
                orig_info = info
                if status == 'fail':
                    small = shrink(sub, choices)
                    g2 = Gen(None, small)
                    st2, info2 = run_one(sub, g2)
                    if st2 != 'fail':
                        # shrunk form does not reproduce (state in the code
                        # under test): keep the original
                        small, g2, info2 = choices, g, orig_info
                else:
                    small, g2, info2 = choices, g, ('Hang', info, '')
                res['failure'] = {
                    'property': check.pid, 'sub': sub.name, 'choices': small,
                    'error': info2[0], 'message': info2[1], 'traceback': info2[2],
                    'case': g2.trace, 'original_length': len(choices),
                    'seed': seed, 'shard': shard, 'index': i,
                }
                break
        q.put(('ok', res))
    except BaseException as e:
        q.put(('error', '%s/%s: %s' % (check.pid, sub.name, traceback.format_exc())))


def known_findings(pid):
    """Lines of /verif/known_findings.txt:  known: property=<id> sub=<sub> match=<regex> -- <text>"""
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            m = re.match(r'known: property=(\S+) id=(\S+) (.*)', line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def main(check, argv):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(argv) > 1 and argv[1] in ('quick', 'thorough'):
        tier = argv[1]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    if len(argv) > 1 and argv[1] == 'replay':
        return replay(check, argv[2])
    only = argv[2] if len(argv) > 2 else None
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    t0 = time.monotonic()
    limit = float(os.environ.get('VERIF_LIMIT_S', '600' if tier == 'quick' else '14400'))
    deadline = t0 + limit
    ctx = multiprocessing.get_context('fork')
    q = ctx.Queue()
    jobs = []
    for s in check.subs:
        if only and s.name != only:
            continue
        n = s.quick if tier == 'quick' else s.thorough
        n = max(1, int(n * scale))
        shards = s.shards or (1 if n < 40 else 4 if n < 400 else 8)
        per = -(-n // shards)
        for k in range(shards):
            jobs.append((s, k, shards, per))
    procs = int(os.environ.get('VERIF_PROCS', '8'))
    results, errors, crashes = [], [], []
    running = []
    pending = list(jobs)
    failed = False
    while pending or running:
        while pending and len(running) < procs and not (failed and tier == 'quick'):
            s, k, shards, per = pending.pop(0)
            p = ctx.Process(target=_worker, args=(check, s, k, shards, per, seed, deadline, q))
            p.start()
            running.append((p, s, k))
        if failed and tier == 'quick':
            pending = []
        try:
            kind, res = q.get(timeout=0.05)
            if kind == 'ok':
                results.append(res)
                if res['failure']:
                    failed = True
            else:
                errors.append(res)
        except Exception:
            pass
        still = []
        for p, s, k in running:
            if p.is_alive():
                still.append((p, s, k))
            else:
                p.join()
                if p.exitcode is not None and p.exitcode < 0:
                    crashes.append({
                        'property': check.pid, 'sub': s.name, 'choices': [], 'error': 'Crash',
                        'message': 'the process running the cases was ended by signal %d' % -p.exitcode,
                        'traceback': '', 'case': [], 'seed': seed, 'shard': k})
                    failed = True
                elif p.exitcode not in (0, None):
                    errors.append('%s/%s shard %d died with exit code %s' % (check.pid, s.name, k, p.exitcode))
        running = still
    while True:
        try:
            kind, res = q.get(timeout=0.3)
        except Exception:
            break
        if kind == 'ok':
            results.append(res)
        else:
            errors.append(res)
    if len(results) + len(errors) < len(jobs) and not crashes and not any(r['failure'] for r in results):
        errors.append('%d of %d jobs reported' % (len(results), len(jobs)))

    failures = [r['failure'] for r in results if r['failure']] + crashes
    by_sub = {}
    keys = set()
    samples = []
    for r in results:
        b = by_sub.setdefault(r['sub'], {'cases': 0, 'discarded': 0, 'comparisons': 0, 'labels': {}, 'distinct': set()})
        b['cases'] += r['evals']
        b['discarded'] += r['discards']
        b['comparisons'] += r['units']
        for k, v in r['labels'].items():
            b['labels'][k] = b['labels'].get(k, 0) + v
        b['distinct'] |= r['keys']
    for name, b in by_sub.items():
        keys |= set((name, k) for k in b['distinct'])
        b['distinct'] = len(b['distinct'])
        b['labels'] = dict(sorted(b['labels'].items(), key=lambda kv: -kv[1])[:60])
        ss = []
        for r in results:
            if r['sub'] == name:
                ss.extend(r['samples'])
        ss.sort(key=len)
        for x in ss[len(ss) // 2:len(ss) // 2 + 2] + ss[-1:]:
            samples.append({'sub': name, 'case': x[:1200]})
    evals = sum(b['cases'] for b in by_sub.values())

    known = known_findings(check.pid)
    for kid, text in known:
        print('KNOWN-FINDING: property=%s %s: %s' % (check.pid, kid, text))

    code = 0
    seen = set()
    for f in sorted(failures, key=lambda f: (f['sub'], len(f['choices']))):
        if f['sub'] in seen:
            continue
        seen.add(f['sub'])
        rd = os.path.join(OUT or VERIF, 'replays')
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, '%s-%s.json' % (check.pid, f['sub']))
        with open(path, 'w') as fh:
            json.dump(f, fh, indent=1)
        print('--- %s/%s: %s: %s' % (check.pid, f['sub'], f['error'], f['message'][:2500]))
        for line in f['case'][:40]:
            print('    case: ' + line)
        if f['error'] not in ('Violation',):
            print('\n'.join('    ' + x for x in f['traceback'].splitlines()[-14:]))
        print('VIOLATION property=%s replay=%s' % (check.pid, path))
        code = 1

    ev = {
        'property': check.pid, 'tier': tier, 'seed': seed, 'level': check.level,
        'coverage': {
            'evaluations': evals,
            'distinct_nontrivial': len(keys),
            'rule': check.rule,
            'samples': samples[:40],
            'oracle_comparisons': sum(b['comparisons'] for b in by_sub.values()),
            'by_subproperty': by_sub,
            'stopped_early': any(r['stopped'] for r in results),
        },
        'assumptions': check.assumptions,
        'wall_s': round(time.monotonic() - t0, 2),
        'violations': len(seen),
    }
    os.makedirs(os.path.join(OUT or VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(OUT or VERIF, 'evidence', check.pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %d comparisons, %.1fs, %d violation(s)' % (
        check.pid, tier, seed, evals, len(keys), ev['coverage']['oracle_comparisons'], ev['wall_s'], len(seen)))
    if code == 0 and errors:
        for e in errors:
            sys.stderr.write('HARNESS ERROR: %s\n' % e)
        return 3
    if code == 0 and ev['coverage']['stopped_early']:
        print('note: wall-clock budget reached, coverage is what was explored')
    return code


def replay(check, path):
    f = json.load(open(path))
    sub = [s for s in check.subs if s.name == f['sub']][0]
    signal.signal(signal.SIGVTALRM, _hang)
    g = Gen(None, f['choices'])
    g.index = f.get('index', 0)
    status, info = run_one(sub, g)
    for line in g.trace:
        print('case: ' + line)
    if status in ('fail', 'hang'):
        print('reproduced: %s' % (info[2] if status == 'fail' else info))
        print('VIOLATION property=%s replay=%s' % (check.pid, path))
        return 1
    print('does not reproduce (%s)' % status)
    return 0
