"""C01 memory safety and undefined behaviour, C02 ownership and lifetime, C03 allocation
failures, C16 clones, C22 constructors."""
import json, os, random, re, shutil, subprocess, tempfile
from ..core import Check, Tally, execute, survived, anomalies, spread
from ..run import Case, Crash, HarnessError, summarize_stderr, frames
from .. import build, work, lang
from .streams import long_input, stream_opts, CHUNKS
from .trees import literal, PLACES, chunks

ENTRIES = ('u', 'ue', 'f', 'fe', 'qu', 'qf')


def nested(g):
    """Deep but polynomial nesting, long chains, long tokens and long lists."""
    k = g.choice((1, 2, 10, 60, 250))
    n = g.choice((100, 1023, 1024, 1025, 5000, 40000))
    a, b = g.choice((('(', ')'), ('[', ']'), ('{a:', '}'), ('f(', ')'), ('CASE WHEN ', ' THEN 1 END'), ('NOT ', ''), ('-', ''), ('a[', ']'), ('(', ''), ('f(', ''), ('{a:', ''), ('all(x IN y WHERE ', ')')))
    c = g.random()
    if c < 0.35:
        return ('RETURN ' + a * k + '1' + b * k + g.choice((';', '', ' +'))).encode()
    if c < 0.45:
        return ('FOREACH (x IN y | ' * k + 'SET a.b = 1' + ')' * g.choice((k, k, k - 1)) + ';').encode()
    if c < 0.55:
        return ('RETURN ' + g.choice((' + ', ' AND ', ' < ', '^', ' . ', ', ', ' IS NULL + ')).join(['1'] * min(n, 3000)) + ';').encode()
    if c < 0.8:
        t = g.choice('ax_0 \n')
        q = g.choice(('"', "'", '`', '/*', '//', ':', '', '$', '"\\'))
        e = {'/*': '*/', '"\\': '"'}.get(q, q if q in '"\'`' else '')
        body = t * n if g.random() < 0.7 else ''.join(g.choice(('\\n', "\\'", '\\"', 'a', '``', '\n', '\\\\')) for _ in range(n // 2))
        return ('RETURN ' * g.randrange(2) + q + body + (e if g.random() < 0.8 else '') + g.choice((';', '\n', ''))).encode()
    if c < 0.9:
        return (g.choice(('MATCH ', 'CREATE ')) + '-->'.join(['(a:B:C {d: 1})'] * min(k * 4, 400)) + ' RETURN a;').encode()
    return (';'.join(['RETURN 1'] * k) + '\n' + ':x\n' * k).encode()


def hostile(g):
    k = g.random()
    if k < 0.08:
        return nested(g)
    if k < 0.1:
        return long_input(g, g.choice((1100, 3000, 9000)))
    d = work.any_input(g)
    if k < 0.2:
        d = d.replace(b' ', bytes([g.choice((0, 11, 12, 13, 128, 255, 160, 9, 10))]), g.choice((1, 5)))
    return d


def any_case(g, data, flavour):
    en = g.choice(ENTRIES + (('p', 'pe', 'qp') if b'\0' not in data else ()))
    o = dict(flags=g.choice((0, 0, 1, 2, 3)))
    if g.random() < 0.3:
        o['pos'] = (g.choice((1, 9, 2 ** 31)), g.choice((1, 77)), g.choice((0, 5, 2 ** 40)))
    if g.random() < 0.3:
        o['color'] = g.randrange(3)
    if g.random() < 0.2:
        o['ord'] = g.choice((0, 9, 2 ** 32 - 2))
    if en[0] == 'f' or en == 'qf':
        fails = g.random() < 0.2
        o.update(stream_opts(g, data, fails))
        if fails:
            o['errat'] = g.randrange(len(data) + 1)
    if en[-1] == 'e' and en[0] != 'q' or en[0] == 'q':
        if g.random() < 0.2:
            o['cb'] = [0] * g.randrange(3) + [g.choice((1, -1))]
    if en[0] != 'q':
        if en[-1] == 'e':
            o['keep'] = g.choice((0, 1, 2, 3))
        elif flavour != 'ndebug' and len(data) < 20000:
            if g.random() < 0.5:
                o['clone'] = 1
            if g.random() < 0.3:
                o['rebuild'] = 1
        if g.random() < 0.4 and len(data) < 20000:
            o['print'] = '%d:%d' % (g.choice((0, 0, 1, 20, 80, 131)), g.randrange(3))
    if g.random() < 0.1:
        o['nolast'] = 1
    return Case(en, data, **o)


def w_safe(seed, n, flavour):
    t = Tally()
    cases = []
    for i in range(n):
        g = random.Random(seed * 7919 + i)
        cases.append(any_case(g, hostile(g), flavour))
    execute(cases, flavour)
    for c in cases:
        t.saw(c, extra=flavour)
        t.c['cases under %s' % flavour] += 1
        t.c['input bytes'] += len(c.data)
        if survived(t, c, '[%s] ' % flavour):
            t.kind('entry x flags', (c.entry, c.opts['flags']))
            for s in c.out['segs']:
                t.c['segments'] += 1
                for r in s.get('roots', ()):
                    for x in r:
                        t.kind('node kinds', x[0])
            for r in c.out.get('res', {}).get('roots', ()):
                for x in r:
                    t.kind('node kinds', x[0])
            t.c['allocations watched'] += c.out['na']
            for m in c.out['chk']:
                if 'input buffer' in m:
                    t.violate('input modified', m, [c])
    return t


def w_fuzz(seed, runs):
    """A bounded coverage-guided campaign; slow inputs are left to the check of C24."""
    t = Tally()
    exe = os.path.join(build.build('fuzz'), 'drv')
    d = tempfile.mkdtemp(prefix='vf-fuzz-')
    try:
        os.mkdir(d + '/c')
        for i in range(250):
            g = random.Random(seed * 31 + i)
            open('%s/c/%d' % (d, i), 'wb').write(bytes([g.randrange(256), g.randrange(256)]) + work.any_input(g)[:400])
        words = set(w for s in work.WORDS for w in s.split()) | set(p for p in work.PUNCT if p.strip())
        open(d + '/dict', 'w').write(''.join('"%s"\n' % ''.join('\\x%02x' % b for b in w.encode()) for w in sorted(words)))
        p = subprocess.run([exe, '-runs=%d' % runs, '-seed=%d' % (seed % 1000003 + 1), '-max_len=600', '-timeout=60', '-rss_limit_mb=3500', '-use_value_profile=0',
                            '-dict=' + d + '/dict', '-print_final_stats=1', '-artifact_prefix=' + d + '/', d + '/c'], cwd=d, env=build.env(),
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        err = p.stderr
        m = re.search(rb'number_of_executed_units: (\d+)', err)
        k = int(m.group(1)) if m else 0
        cov = re.findall(rb'cov: (\d+)', err)
        t.n += k
        t.c['fuzzer executions'] += k
        t.c['fuzzer edges reached (sum over campaigns)'] = int(cov[-1]) if cov else 0
        for f in os.listdir(d + '/c'):
            t.seen.add(('fuzz' + f).encode())
        if p.returncode:
            arts = [f for f in os.listdir(d) if f.startswith(('crash-', 'timeout-', 'oom-', 'leak-', 'slow-'))]
            if any(f.startswith('timeout-') for f in arts):
                t.inconclusive += 1
            else:
                a = [f for f in arts if f.startswith(('crash-', 'oom-'))]
                if not a:
                    raise HarnessError('fuzzer exit %d: %s' % (p.returncode, err[-1500:].decode('utf8', 'replace')))
                what = summarize_stderr(err)
                t.violate('crash ' + re.sub(r'0x[0-9a-f]+|\d+', '#', what)[:80], 'fuzzer: %s %s' % (what, frames(err)),
                          [dict(fuzz=open(d + '/' + a[0], 'rb').read().decode('latin1'))])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return t


def plan_c01(tier, seed):
    q = tier == 'quick'
    out = [(w_fuzz, dict(seed=seed * 8 + k, runs=20000 if q else 1500000)) for k in range(4 if q else 8)]
    out += spread(w_safe, seed, 12000 if q else 300000, 250, flavour='asan')
    out += spread(w_safe, seed + 3, 4000 if q else 100000, 250, flavour='msan')
    out += spread(w_safe, seed + 7, 3000 if q else 80000, 250, flavour='ndebug')
    return out


# ---------------------------------------------------------------- C02
def w_own(seed, n):
    t = Tally()
    cases = []
    for i in range(n):
        g = random.Random(seed * 611953 + i)
        data = hostile(g) if g.random() < 0.7 else work.gen_doc(g).data
        c = any_case(g, data, 'asan')
        if c.entry[-1] == 'e' and c.entry[0] != 'q':
            c.opts['keep'] = g.choice((1, 2, 3))
        cases.append(c)
    execute(cases)
    for c in cases:
        t.saw(c)
        if not survived(t, c):
            continue
        o = c.out
        t.c['allocations watched'] += o['na']
        t.c['cases with every block accounted for'] += 1
        t.c['segments kept beyond their parse'] += o.get('kept', 0)
        t.c['results read after their input was overwritten'] += 'res' in o
        if o['ret'] < 0:
            t.c['failed or refused parses'] += 1
        if c.opts.get('errat') is not None:
            t.c['parses of failing streams'] += 1
        if c.opts.get('cb'):
            t.c['parses stopped by the callback'] += 1
        anomalies(t, c, ('leak', 'lifetime', 'reread'))
    return t


def w_life(seed, n):
    """What is exposed during the callback, against what is exposed after the input is gone."""
    t = Tally()
    cases = []
    for i in range(n):
        g = random.Random(seed * 86028121 + i)
        data = work.any_input(g)
        fl = g.choice((0, 2))
        cases.append((Case('ue', data, flags=fl), Case(g.choice(('u', 'f')), data, flags=fl, **({'chunk': g.choice(CHUNKS)}))))
    execute([c for p in cases for c in p])
    for a, b in cases:
        t.saw(a); t.saw(b)
        if not (survived(t, a) and survived(t, b)) or a.out['ret'] or b.out['ret']:
            continue
        live = [r for s in a.out['segs'] for r in s['roots']]
        t.c['trees read live and after their input'] += len(live)
        if live != b.out['res']['roots']:
            t.violate('lifetime trees', 'trees read after the input was released differ from those read during the parse', [a, b])
        le = [e[:2] for s in a.out['segs'] for e in s['errs']]
        if le != [e[:2] for e in b.out['res']['errs']]:
            t.violate('lifetime errors', 'errors read after the input was released differ from those read during the parse', [a, b])
    return t


def plan_c02(tier, seed):
    q = tier == 'quick'
    return spread(w_own, seed, 35000 if q else 400000, 250) + spread(w_life, seed + 1, 6000 if q else 60000, 250)


# ---------------------------------------------------------------- C03
def w_oom(seed, n, what, small=False):
    t = Tally()
    cases = []
    for i in range(n):
        g = random.Random(seed * 49999 + i)
        if what == 'config':
            w = 'config,u'; data = b'RETURN 1;'
        else:
            w = what
            k = g.random()
            if k < 0.45:
                data = work.gen_doc(g, n=g.choice((1, 1, 2)), depth=g.choice((1, 2)), commands=0.3).data
            elif k < 0.6:
                data = g.choice(work.CORPUS).encode('latin1')
            elif k < 0.7 and not small:
                data = g.choice((b'RETURN "' + b'x' * g.choice((1100, 2500)) + b'";', b'RETURN ' + b'a' * 1500 + b', ' + b','.join([b'1'] * 200),
                                 b':cmd ' + b'a ' * 300 + b'\n', b'//' + b'c' * 1200 + b'\nRETURN 1', b'RETURN 1;\n' * 60, b'bad ; ' * 30, b'RETURN `' + b'q' * 1200 + b'`',
                                 b'MATCH ' + b'-->'.join([b'()'] * 60) + b' RETURN 1', b'RETURN ' + b'(' * 60 + b'1' + b')' * 60, b'RETURN ' + b' AND '.join([b'1 < 2 < 3'] * 50)))
            else:
                data = work.damage_bytes(work.gen_doc(g, n=g.choice((1, 2)), depth=1).data, g)
            if small and len(data) > 260:
                data = data[:260]
            if len(data) > 400:
                w += ',max:400,step:7'
        cases.append(Case('oom', data, what=w))
    execute(cases, extra=('oom',), limit=120)
    for c in cases:
        t.saw(c, extra=what)
        if isinstance(c.out, Crash):
            m = re.search(r'VF-OOM: (.*)', c.out.get('stderr', ''))
            where = m.group(1) if m else '?'
            if c.out['kind'] == 'timeout':
                t.violate('hang', 'sweep of %s did not finish' % what, [c])
            else:
                t.violate('crash ' + re.sub(r'0x[0-9a-f]+|\d+', '#', c.out['what'])[:80], 'at %s: %s %s' % (where, c.out['what'], c.out['frames']), [c])
            continue
        o = c.out
        t.c['failure points tried'] += o['points']
        t.c['allocations refused'] += o['faults']
        t.c['calls that reported the failure'] += o['cleanfail']
        t.c['calls that did without'] += o['fullok']
        t.c['sweeps of ' + what.split(',')[0]] += 1
        for m in o['chk']:
            t.violate('oom ' + re.sub(r'\d+', '#', m)[:70], m, [c])
    return t


def plan_c03(tier, seed):
    q = tier == 'quick'
    out = []
    for k, (w, a) in enumerate((('u', 150), ('f', 50), ('ue', 80), ('fe', 60), ('qu', 60), ('qf', 40))):
        out += spread(w_oom, seed + k, a if q else a * 30, 10, what=w)
    out += spread(w_oom, seed + 11, 120 if q else 3000, 10, what='clone,print,annot', small=True)
    out += spread(w_oom, seed + 12, 160 if q else 4000, 10, what='rebuild', small=True)
    out += spread(w_oom, seed + 13, 2, 2, what='config')
    return out


# ---------------------------------------------------------------- C16, C22
LONG = (254, 255, 256, 257, 511, 1022, 1023, 1024, 1025, 2047, 2048, 3000, 4094, 4095, 4096, 4097, 5000, 8191, 8192, 10000, 16384, 32768, 40000, 65534, 65535, 65536, 70000, 300000)


def long_text(g):
    """A text of some length where one can be: literals, names of every kind, comments, commands, skipped text."""
    size = g.choice(LONG)
    k = g.random()
    if k < 0.4:
        src = 'RETURN ' + literal(g, g.choice(('string', 'string', 'quoted', 'name', 'integer', 'float', 'param', 'nparam', 'qparam')), size)[0] + ';'
    elif k < 0.7:
        src = g.choice(PLACES)[0] % literal(g, g.choice(('name', 'quoted')), size)[0]
    elif k < 0.9:
        src = g.choice(('//%s\nRETURN 1;', '/*%s*/ RETURN 1;', ':%s\n', ':go %s\n', ':go "%s";', 'RETURN 1 WITHOUT %s;', 'RETURN f%s.x(1);', 'RETURN [%s, 1];', 'CYPHER a=%s RETURN 1;', 'MATCH (a {%s: 1}) RETURN a {.%s, y};'))
        src = src.replace('%s', g.choice(('x', 'ab1', 'Q_')) * size)
        if len(src) > 700000: src = src[:700000] + ';'
    else:
        src = 'LOAD CSV FROM "%s" AS l FIELDTERMINATOR "%s" RETURN 1;' % ('u' * size, 't' * g.choice((1, size)))
    return src.encode('latin1')


def very_long():
    """One of each kind of text, at 70 and at 300 kilobytes."""
    g = random.Random(5)
    out = []
    for n in (70000, 300000):
        for k in ('string', 'quoted', 'name', 'integer', 'float', 'param', 'nparam', 'qparam'):
            out.append('RETURN ' + (literal(g, k, n)[0] if k != 'string' else '"' + 'ab; ' * (n // 4) + '"') + ';')
        seen = set()
        for w, ty in PLACES:
            if ty not in seen:
                seen.add(ty); out.append(w % ('n' * n))
        out += [x.replace('%s', 'x1' * (n // 2)) for x in ('//%s\nRETURN 1;', '/*%s*/ RETURN 1;', ':%s\n', ':go %s\n', 'RETURN 1 WITHOUT %s;', 'CYPHER a=%s RETURN 1;', 'CYPHER %s=1 RETURN 1;', 'USING PERIODIC COMMIT %s RETURN 1;'.replace('%s', '1' * n))]
    return [x.encode('latin1') for x in out]


def w_clone(seed, n, big=False, vast=None, texts=None):
    t = Tally()
    cases = []
    for i in range(n):
        g = random.Random(seed * 179424673 + i)
        k = g.random()
        if texts:
            data = texts[i]
        elif vast:
            data = work.big_doc(g, vast[i % len(vast)], g.choice(work.VAST), modes=('tight', 'normal')).data
            t.c['lists of thousands cloned'] += 1
        elif big:
            data = work.scaled(g).data
            t.c['trees at scale'] += 1
        elif k < 0.06:
            data = long_text(g)
            t.c['trees with long texts'] += 1
        elif k < 0.75:
            data = work.gen_doc(g, depth=g.choice((2, 3, 4)), modes=('tight', 'normal', 'wild')).data
        elif k < 0.85:
            data = b';\n'.join(g.choice(work.CORPUS).encode('latin1') for _ in range(3))
        else:
            data = work.any_input(g)
        cases.append(Case('u', data, clone=1))
    execute(cases)
    for c in cases:
        t.saw(c)
        if not survived(t, c):
            continue
        t.c['trees cloned'] += len(c.out['res']['roots'])
        for r in c.out['res']['roots']:
            t.c['nodes cloned'] += len(r)
            for x in r:
                t.kind('node kinds cloned', x[0])
                t.kind('node shapes cloned', (x[0], tuple(sorted((k, v is None) for k, v in x[3].items() if not isinstance(v, (str, bool, list))))))
        anomalies(t, c, ('clone', 'annotation', 'leak', 'structure'))
    return t


def plan_c16(tier, seed):
    q = tier == 'quick'
    return spread(w_clone, seed, 15000 if q else 150000, 150) + spread(w_clone, seed + 1, 800 if q else 12000, 20, big=True) \
        + [(w_clone, dict(seed=seed, n=len(x), texts=x)) for x in chunks(very_long(), 4)] \
        + [(w_clone, dict(seed=seed * 13 + k * 100 + i, n=2, vast=work.vast_roles(seed)[i:i + 2])) for k in range(1 if q else 12) for i in range(0, len(work.ROLES), 2)]


def w_ctor(seed, n, how, big=False, vast=None, texts=None):
    t = Tally()
    cases = []
    for i in range(n):
        g = random.Random(seed * 373587883 + i)
        data = work.gen_doc(g, n=1 if how == 'ctor' else None, depth=g.choice((1, 2, 3)), modes=('tight', 'normal', 'wild')).data if g.random() < 0.85 else g.choice(work.CORPUS).encode('latin1')
        if how == 'rebuild' and g.random() < 0.1:
            data = work.any_input(g)
        if texts:
            data = texts[i]
        if vast:
            data = work.big_doc(g, vast[i % len(vast)], g.choice(work.VAST), modes=('tight', 'normal')).data
            t.c['lists of thousands rebuilt'] += 1
        if big:
            data = long_text(g) if g.random() < 0.25 else work.scaled(g).data if how == 'rebuild' else work.big_doc(g, g.choice(work.ROLES), g.choice((7, 8, 9, 10, 15, 16, 17, 20, 31, 33))).data
            t.c['trees at scale'] += 1
        cases.append(Case('u', data, **{how: 1}))
    execute(cases, 'ndebug' if how == 'ctor' else 'asan')
    for c in cases:
        t.saw(c, extra=how)
        if not survived(t, c):
            continue
        for r in c.out['res']['roots']:
            for x in r:
                t.kind('node kinds rebuilt' if how == 'rebuild' else 'node kinds refused operands', x[0])
            t.c['nodes rebuilt' if how == 'rebuild' else 'nodes given bad operands'] += len(r)
        if how == 'ctor':
            t.c['bad operands tried'] += c.out['ctor'][0]
            t.c['bad operands refused'] += c.out['ctor'][1]
        anomalies(t, c, ('rebuild', 'ctor', 'annotation', 'clone', 'leak', 'structure'))
    return t


def w_texts(seed, n, sizes):
    """Every kind of text node made directly of texts of many lengths."""
    t = Tally()
    cases = []
    for i in range(n):
        g = random.Random(seed * 15487469 + i)
        k = g.choice(sizes)
        k = g.choice((k, k, g.randrange(k + 1)))
        data = bytes(g.randrange(1, 256) for _ in range(min(k, 5000)))
        data += data[:4999] * (k // 4999 if k > 5000 else 0)
        cases.append(Case('u', data[:k], texts=1))
    execute(cases)
    for c in cases:
        t.saw(c)
        if not survived(t, c):
            continue
        t.c['text nodes made directly'] += c.out['texts']
        t.kind('lengths of texts', len(c.data))
        anomalies(t, c, ('text',))
    return t


def plan_c22(tier, seed):
    q = tier == 'quick'
    return spread(w_texts, seed + 4, 1500 if q else 20000, 100, sizes=(0, 1, 2, 3, 7, 8, 15, 16, 31, 32, 63, 64, 100) + LONG[:16]) + spread(w_texts, seed + 5, 24 if q else 300, 6, sizes=LONG[16:] + (300000, 600000, 1100000)) \
        + spread(w_ctor, seed, 15000 if q else 150000, 150, how='rebuild') + spread(w_ctor, seed + 1, 7500 if q else 80000, 100, how='ctor') \
        + spread(w_ctor, seed + 2, 320 if q else 10000, 20, how='rebuild', big=True) + spread(w_ctor, seed + 3, 160 if q else 4000, 20, how='ctor', big=True) \
        + [(w_ctor, dict(seed=seed, n=len(x), how='rebuild', texts=x)) for x in chunks(very_long(), 4)] \
        + [(w_ctor, dict(seed=seed * 13 + k * 100 + i, n=2, how='rebuild', vast=work.vast_roles(seed)[i:i + 2])) for k in range(1 if q else 12) for i in range(0, len(work.ROLES), 2)]


CHECKS = {
    'C01': Check('C01', plan_c01, ['asan', 'msan', 'ndebug', 'fuzz'], 'Hostile inputs (damaged documents, soup, edge cases, deep nesting, long tokens and lists, NUL and non-ASCII bytes, beyond one buffer) x entry points x flags x configurations x stream behaviours, under ASan+UBSan with assertions, MSan, and ASan+UBSan without assertions; everything exposed is read, printed, cloned and freed; bounded libFuzzer campaigns on the same. Non-trivial: distinct (input, entry, options, flavour) or fuzzer corpus entry.',
                 {'cases under asan': 8000, 'cases under msan': 2000, 'cases under ndebug': 2000, 'fuzzer executions': 10000, 'node kinds': 85, 'entry x flags': 30}),
    'C02': Check('C02', plan_c02, ['asan'], 'Every allocation the library makes is entered in a ledger that must be empty when the case ends; inputs are overwritten and freed before results and retained segments are read. Failing streams, stops, clones, rebuilt trees and prints included. Non-trivial: distinct (input, entry, options).',
                 {'allocations watched': 100000, 'segments kept beyond their parse': 3000, 'results read after their input was overwritten': 1500, 'parses of failing streams': 300, 'trees read live and after their input': 2000}),
    'C03': Check('C03', plan_c03, ['asan'], 'For each sampled input every single allocation of the call is made to fail, once alone and once with all later ones (inputs over 400 bytes: the first 200 then every 7th), for parsing from buffer and stream, by segment and whole, quick parsing, cloning, printing, annotating, configuring and every constructor. Non-trivial: distinct (input, call).',
                 {'failure points tried': 50000, 'allocations refused': 50000, 'calls that reported the failure': 30000, 'sweeps of rebuild': 100, 'sweeps of clone': 80}, level='fault_enumeration'),
    'C16': Check('C16', plan_c16, ['asan'], 'Every tree of generated, corpus and hostile inputs, long lists of every kind and deep nestings included, is cloned, whole, twice and by subtree, with annotations on the original; dumps compared, nodes disjoint, either side freed first. Non-trivial: distinct input.',
                 {'trees cloned': 5000, 'trees with long texts': 100, 'trees at scale': 300, 'lists of thousands cloned': 30, 'node kinds cloned': 85, 'node shapes cloned': 110}),
    'C22': Check('C22', plan_c22, ['asan', 'ndebug'], 'Every tree is rebuilt bottom-up through the public constructors and its dump, clone, print, annotation and release compared with the original; and, without assertions, every constructor is given each operand in turn of the wrong kind, missing or not among the children. Non-trivial: distinct input.',
                 {'nodes rebuilt': 30000, 'trees at scale': 300, 'lists of thousands rebuilt': 30, 'text nodes made directly': 12000, 'node kinds rebuilt': 85, 'bad operands tried': 50000, 'bad operands refused': 50000, 'node kinds refused operands': 75}),
}
