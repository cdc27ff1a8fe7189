"""Running a property's workload in parallel, verdicts, replays, known findings and evidence."""
import hashlib, json, multiprocessing, os, re, sys, time, traceback
from collections import Counter
from . import build
from .run import Case, Crash, HarnessError, run_chunk, JOBS

ROOT = build.ROOT
KNOWN = os.path.join(ROOT, 'known_findings.txt')
LIMIT = int(os.environ.get('VF_LIMIT', '20'))


class Tally:
    """What one batch of a workload observed."""
    def __init__(self):
        self.n = 0                  # executions judged
        self.seen = set()           # hashes of distinct non-trivial cases
        self.c = Counter()          # named counts of observed events
        self.kinds = {}             # name -> set of distinct things observed
        self.samples = []
        self.viol = []              # (key, message, [case descriptions])
        self.nviol = 0
        self.inconclusive = 0

    def saw(self, case, nontrivial=True, extra=''):
        self.n += 1
        if nontrivial:
            d = case.data if isinstance(case, Case) else str(case).encode('utf8', 'replace')
            e = (case.entry + repr(sorted(case.opts.items())) if isinstance(case, Case) else '') + extra
            self.seen.add(hashlib.blake2b(d + b'|' + e.encode(), digest_size=8).digest())
        if len(self.samples) < 2 and isinstance(case, Case):
            s = case.describe()
            s['input'] = s['input'][:400]
            self.samples.append(s)

    def kind(self, name, x):
        self.kinds.setdefault(name, set()).add(x)

    def violate(self, key, msg, cases=()):
        self.nviol += 1
        if sum(1 for v in self.viol if v[0] == key) < 2 and len(self.viol) < 200:
            self.viol.append((key, str(msg)[:1500], [c.describe() if isinstance(c, Case) else c for c in cases]))

    def merge(self, o):
        self.n += o.n; self.seen |= o.seen; self.c.update(o.c); self.nviol += o.nviol; self.inconclusive += o.inconclusive
        for k, v in o.kinds.items():
            self.kinds.setdefault(k, set()).update(v)
        if len(self.samples) < 4:
            self.samples += o.samples[:2]
        for v in o.viol:
            if sum(1 for w in self.viol if w[0] == v[0]) < 2 and len(self.viol) < 400:
                self.viol.append(v)


CATEGORY = (('LEAK', 'leak'), ('text: ', 'text'), ('cloning and freeing', 'clone'), ('clone', 'clone'), ('rebuil', 'rebuild'), ('ctor', 'ctor'), ('freeing a rebuilt', 'rebuild'),
            ('release handler', 'annotation'), ('freeing a clone', 'clone'), ('original after', 'clone'), ('input buffer', 'lifetime'), ('retained segments', 'lifetime'),
            ('reading a result', 'reread'), ('subtree clone', 'clone'))


def category(msg):
    for k, c in CATEGORY:
        if k in msg:
            return c
    return 'structure'


def execute(cases, flavour='asan', limit=None, extra=()):
    """Runs the cases in this process (one driver); a case that hangs is run again alone."""
    limit = limit or LIMIT
    exe = os.path.join(build.build(flavour), 'drv')
    run_chunk(exe, cases, limit, extra)
    for c in [c for c in cases if isinstance(c.out, Crash) and c.out['kind'] == 'timeout'][:2]:
        run_chunk(exe, [c], limit * 2, extra)


def survived(t, c, what=''):
    """False, with a violation, when the case ended abnormally."""
    if not isinstance(c.out, Crash):
        if c.out is None:
            raise HarnessError('case was not run')
        return True
    if c.out['kind'] == 'timeout':
        t.violate('hang', '%sthe call did not return: %s' % (what, c.out['what']), [c])
    else:
        key = re.sub(r'0x[0-9a-f]+|\d+', '#', c.out['what'])[:80]
        t.violate('crash ' + key, '%s%s %s' % (what, c.out['what'], c.out['frames']), [c])
    return False


def anomalies(t, c, cats, what=''):
    """Reports the driver's own checks in the given categories."""
    for m in c.out['chk']:
        k = category(m)
        t.c['driver anomalies'] += 1
        if k in cats:
            t.violate('%s %s' % (k, re.sub(r'\d+', '#', m)[:60]), what + m, [c])


def load_known(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r'known: property=(\S+) key=\[([^\]]*)\]\s*(.*)', line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def _call(a):
    fn, kw = a
    try:
        return fn(**kw)
    except Exception:
        return traceback.format_exc()


class Check:
    """A property's check: flavours to build first, plan(tier, seed) -> [(worker, kwargs)],
    rule (how cases are made), require: {count name: minimum} that a run must observe."""
    def __init__(self, prop, plan, flavours, rule, require=None, level='exploration', assumptions=(), post=None):
        self.prop, self.plan, self.flavours, self.rule = prop, plan, flavours, rule
        self.require, self.level, self.assumptions, self.post = require or {}, level, list(assumptions), post

    def run(self, tier, seed):
        t0 = time.time()
        for f in self.flavours:
            build.build(f)
        jobs = self.plan(tier, seed)
        total = Tally()
        ctx = multiprocessing.get_context('fork')
        with ctx.Pool(min(JOBS, max(1, len(jobs))), maxtasksperchild=8) as pool:
            for r in pool.imap_unordered(_call, jobs):
                if isinstance(r, str):
                    pool.terminate()
                    raise HarnessError(r)
                total.merge(r)
        if self.post:
            self.post(total, tier, seed)
        known = load_known(self.prop)
        hit, fresh = set(), []
        for v in total.viol:
            for k, d in known:
                if v[0] == k:
                    hit.add(k)
                    break
            else:
                fresh.append(v)
        for k, d in known:
            if k in hit:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, d))
            else:
                print('note: the known finding [%s] did not show in this run' % k)
        rc = 0
        rdir = os.path.join(ROOT, 'replay')
        if fresh:
            os.makedirs(rdir, exist_ok=True)
            for i, (k, m, cs) in enumerate(fresh[:6]):
                p = os.path.join(rdir, '%s-%d.json' % (self.prop, i))
                json.dump(dict(property=self.prop, key=k, message=m, cases=cs, seed=seed, tier=tier), open(p, 'w'), indent=1)
                print('  [%s] %s' % (k, m[:600]))
                print('VIOLATION property=%s replay=%s' % (self.prop, p))
            rc = 1
        else:
            short = {k: (total.c.get(k, 0) if k not in total.kinds else len(total.kinds[k]), v) for k, v in self.require.items()}
            short = {k: v for k, v in short.items() if v[0] < v[1]}
            if total.n == 0 or short:
                raise HarnessError('the run observed too little: %s (required)' % short)
        ev = dict(property=self.prop, tier=tier, seed=seed, level=self.level, wall_s=round(time.time() - t0, 2), violations=len(fresh),
                  coverage=dict(evaluations=total.n, distinct_nontrivial=len(total.seen), rule=self.rule, samples=total.samples[:4] or ['none'],
                                observed=dict(sorted(total.c.items())),
                                distinct={k: len(v) for k, v in sorted(total.kinds.items())},
                                inconclusive=total.inconclusive, known_findings_seen=sorted(hit)),
                  assumptions=self.assumptions)
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, 'evidence', self.prop + '.json'), 'w'), indent=1)
        print('%s %s: %d executions, %d distinct, %d violations, %.1f s' % (self.prop, tier, total.n, len(total.seen), len(fresh), time.time() - t0))
        for k, v in sorted(total.c.items()):
            print('    %-40s %d' % (k, v))
        for k, v in sorted(total.kinds.items()):
            print('    distinct %-31s %d' % (k, len(v)))
        return rc


def spread(worker, seed, total, batch, **kw):
    """Splits total cases into batches with distinct seeds."""
    out = []
    k = 0
    while k < total:
        out.append((worker, dict(seed=seed * 1000003 + k, n=min(batch, total - k), **kw)))
        k += batch
    return out
