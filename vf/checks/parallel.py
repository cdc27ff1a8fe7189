"""C20 determinism and independence, in sequence and across threads."""
import json, os, random, re, subprocess, tempfile
from ..core import Check, Tally, execute, survived, spread
from ..run import Case, Crash, HarnessError, summarize_stderr
from .. import work, build
from .memory import hostile, any_case
from .streams import CHUNKS, stream_opts, first_diff


def calls(g, i):
    """A case of any kind, with clones, prints and releases; some share a configuration."""
    k = g.random()
    data = work.gen_doc(g, depth=g.choice((1, 2))).data if k < 0.45 else hostile(g)[:2500]
    c = any_case(g, data, 'asan')
    c.opts.pop('ord', None)
    if g.random() < 0.3 and c.entry[0] != 'q':
        for x in ('pos', 'color', 'ord'):
            c.opts.pop(x, None)
        k = g.randrange(4)
        c.opts.update((dict(cfg=40), dict(cfg=41, color=1), dict(cfg=42, pos=(7, 3, 100)), dict(cfg=43, color=2, ord=50))[k])
    return c


def view(c):
    return {k: v for k, v in c.out.items() if k not in ('id', 'na')}


def w_seq(seed, n):
    """The same calls in different orders in one process, and alone in processes of their own."""
    t = Tally()
    g = random.Random(seed * 2971215073)
    descs = []
    for i in range(n):
        c = calls(random.Random(seed * 39916801 + i), i)
        descs.append((c.entry, c.data, c.opts))
    def mk():
        return [Case(e, d, **dict(o)) for e, d, o in descs]
    first = mk(); execute(first)
    runs = []
    for r in range(2):
        other = mk(); order = list(range(n)); g.shuffle(order)
        # calls repeated: what came before one call differs from one time to the next
        extra = [Case(*descs[k][:2], **dict(descs[k][2])) for k in range(0, n, 3)]
        lst = [(k, other[k]) for k in order] + [(k, e) for k, e in zip(range(0, n, 3), extra)]
        g.shuffle(lst)
        execute([c for k, c in lst])
        runs.append(lst)
    alone = []
    for k in range(0, n, 8):
        c = Case(*descs[k][:2], **dict(descs[k][2]))
        execute([c]); alone.append((k, c))
    for what, lst in (('in another order', runs[0]), ('in another order', runs[1]), ('in a process of its own', alone)):
        for k, c in lst:
            t.saw(c, extra=what)
            a, b = first[k], c
            if not (survived(t, a) and survived(t, b)):
                continue
            t.c['repetitions ' + what] += 1
            if view(a) != view(b):
                t.violate('dependent outcome', 'the same call, made %s, yields something else: %s' % (what, first_diff(view(a), view(b))), [a, b])
    return t


def w_threads(seed, n, flavour, threads, rounds):
    t = Tally()
    cases = [calls(random.Random(seed * 87178291199 + i), i) for i in range(n)]
    exe = os.path.join(build.build(flavour), 'drv')
    data = ''.join(c.line(k) for k, c in enumerate(cases)).encode()
    with tempfile.TemporaryFile() as fi, tempfile.TemporaryFile() as fo, tempfile.TemporaryFile() as fe:
        fi.write(data); fi.seek(0)
        p = subprocess.Popen([exe, 'threads', '300', str(threads), str(rounds), str(seed % (1 << 31))], stdin=fi, stdout=fo, stderr=fe, env=build.env())
        rc = p.wait()
        fo.seek(0); out = fo.read(); fe.seek(0); err = fe.read().decode('utf8', 'replace')
    for c in cases:
        t.saw(c, extra=flavour)
    m = re.search(r'WARNING: ThreadSanitizer: [^\n]*', err)
    if m:
        fs = re.findall(r'#\d+ (\S+) [^\n]*?([^/\s]+\.(?:c|leg|h)):(\d+)', err[m.start():m.start() + 6000])
        fs = [f for f in fs if not f[0].startswith(('vf_', 'work', 'main', '__'))]
        t.violate('race %s' % (fs[0][0] if fs else '?'), '%s %s' % (m.group(0), ['%s %s:%s' % f for f in fs[:6]]), cases[:0] + [dict(threads=threads, rounds=rounds, seed=seed, stderr=err[m.start():m.start() + 3000])])
        t.c['races reported'] += err.count('WARNING: ThreadSanitizer')
    elif rc == 3:
        raise HarnessError('the thread driver fails: %s' % err[-800:])
    elif rc == -9:
        raise HarnessError('the thread driver was killed')
    elif rc:
        t.violate('crash in threads' if rc != -14 else 'hang in threads', 'with %d threads: %s %s' % (threads, rc, summarize_stderr(err.encode())), [dict(threads=threads, rounds=rounds, seed=seed, stderr=err[-3000:])])
    try:
        o = json.loads(out.decode('latin1'))
    except ValueError:
        if not t.viol:
            raise HarnessError('the thread driver gave no answer: %s' % err[-500:])
        return t
    t.c['operations under %s' % flavour] += o['ops']
    t.c['pairs of operations of different threads that overlapped'] += o['overlaps']
    t.c['reads of shared trees'] += o['shared']
    t.c['outcomes compared with those alone'] += o['compared']
    for h in o['orders']:
        t.kind('interleavings', h)
    for k, msg in o['bad']:
        t.violate('thread outcome', 'an outcome differs among threads: %s' % msg, [cases[k]] if k >= 0 else [])
    return t


def plan_c20(tier, seed):
    q = tier == 'quick'
    out = spread(w_threads, seed, 480 if q else 12000, 60, flavour='tsan', threads=4, rounds=3)
    out += spread(w_threads, seed + 1, 480 if q else 12000, 120, flavour='athr', threads=6, rounds=4)
    out += spread(w_seq, seed + 2, 1600 if q else 60000, 100)
    return out


CHECKS = {
    'C20': Check('C20', plan_c20, ['asan', 'tsan', 'athr'], 'The same calls (parses of every kind, failing and stopped ones included, prints, clones, rebuilds, releases) made in different orders, repeatedly, and in processes of their own; and by 4 to 6 threads at once, each in its own order with random pauses, under TSan and ASan, sharing configurations and reading, printing and cloning shared results; each outcome compared with that of the call alone. The first round of threads runs before the library was used. Non-trivial: distinct (call, setting).',
                 {'repetitions in another order': 3000, 'repetitions in a process of its own': 100, 'operations under tsan': 3000, 'operations under athr': 3000, 'pairs of operations of different threads that overlapped': 5000, 'reads of shared trees': 1000, 'interleavings': 15}),
}
