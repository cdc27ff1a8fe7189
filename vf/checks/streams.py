"""C10 deliveries, C11 segments, C15 laziness and read failures, C23 configuration, C20 independence."""
import json, os, random, re, subprocess, tempfile
from ..core import Check, Tally, execute, survived, anomalies, spread
from ..run import Case, Crash, HarnessError
from ..lang import Gen, Layout, render
from ..oracle import odd_segments
from .. import build, work

CHUNKS = [(1,), (2,), (3, 1), (7,), (1, 13, 2), (64,), (1000, 24), (1023,), (1024,), (1025,), (4096,), (5, 1, 1, 900), (16384,)]
ONLY, SINGLE = 2, 1


def noctx(e):
    return [e[0], e[1]]


def errs(r, ctx=True):
    return r['errs'] if ctx else [noctx(e) for e in r['errs']]


def flat(segs, ctx=True):
    """What a whole result must hold, given the segments."""
    roots, es, dirs, nn, eof = [], [], [], 0, 0
    for s in segs:
        if s['dir'] >= 0:
            dirs.append(len(roots) + s['dir'])
        roots += s['roots']; es += errs(s, ctx); nn += s['nn']
        if s['eof'] and (s['dir'] >= 0 or s['errs']):
            eof = 1
    return dict(eof=eof, nn=nn, roots=roots, dirs=dirs, errs=es)


def res_view(r, ctx=True):
    return dict(eof=r['eof'], nn=r['nn'], roots=r['roots'], dirs=r['dirs'], errs=errs(r, ctx))


def seg_view(s, ctx=True):
    return dict(rg=s['rg'], eof=s['eof'], nn=s['nn'], roots=s['roots'], dir=s['dir'], errs=errs(s, ctx))


def shift_at(pos):
    l, c, o = pos
    def f(p):
        return [p[0] + l - 1, p[1] + (c - 1 if p[0] == 1 else 0), p[2] + o]
    return f


def shift_rg(rg, f):
    return f(rg[:3]) + f(rg[3:])


def shift_seg(s, f, ctx=True):
    return dict(rg=shift_rg(s['rg'], f), eof=s['eof'], nn=s['nn'], dir=s['dir'],
                roots=[[[n[0], shift_rg(n[1], f)] + n[2:] for n in t] for t in s['roots']],
                errs=[[f(e[0])] + e[1:(None if ctx else 2)] for e in s['errs']])


def first_diff(a, b, path=''):
    if type(a) != type(b):
        return '%s: %r | %r' % (path, str(a)[:120], str(b)[:120])
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return '%s.%s only on one side' % (path, k)
            if a[k] != b[k]:
                return first_diff(a[k], b[k], path + '.' + k)
    if isinstance(a, list):
        if len(a) != len(b):
            return '%s: %d items | %d items (%s | %s)' % (path, len(a), len(b), str(a)[:150], str(b)[:150])
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return first_diff(x, y, '%s[%d]' % (path, i))
    return '%s: %r | %r' % (path, str(a)[:160], str(b)[:160])


def same(t, key, msg, a, b, cases):
    if a == b:
        return True
    t.violate(key, '%s: %s' % (msg, first_diff(a, b)), cases)
    return False


def long_input(g, size):
    """Statements, commands and some damage, up to about size bytes."""
    parts, n = [], 0
    while n < size:
        k = g.random()
        if k < 0.6:
            d = work.gen_doc(g, n=1, depth=g.choice((1, 2, 3)), eof=False).data
        elif k < 0.75:
            d = b'RETURN "' + bytes(g.choice(b'abc xyz\n') for _ in range(g.choice((900, 1015, 1024, 2000)))) + b'";'
        elif k < 0.85:
            d = b'/*' + b'-' * g.choice((10, 1000, 1022, 3000)) + b'*/ ' + b' ' * g.choice((0, 1, 1024)) + b'\n'
        elif k < 0.93:
            d = work.damage_bytes(work.gen_doc(g, n=1, depth=2, eof=False).data, g, 1) + b'\n;\n'
        else:
            d = b'MATCH (n) WHERE ' + b' AND '.join(b'n.p%d = %d' % (i, g.randrange(10 ** 6)) for i in range(g.choice((20, 60)))) + b' RETURN n;'
        parts.append(d); n += len(d)
    return b'\n'.join(parts)


# ---------------------------------------------------------------- C10
def channel(g, data, fails=False):
    """The kind of stream: one made of calls (which delivers in chosen pieces), a
    file, a pipe, a socket or memory; perhaps read from before, with a first byte
    that was pushed back, or an error noted before that no longer matters."""
    kinds = ['cookie'] * 3
    if len(data) < 30000:
        kinds += ['pipe', 'sock']
    if not fails:
        kinds += ['file', 'file'] + ([] if b'\0' in data else ['mem'])
    o = dict(chan=g.choice(kinds))
    if o['chan'] == 'cookie':
        o['chunk'] = g.choice(CHUNKS)
        if fails and g.random() < 0.5:
            o['err'] = g.choice((4, 5, 9, 11, 12, 28, 104, -1))
    if g.random() < 0.2:
        o['pre'] = g.choice((1, 3, 100, 4096, 5000))
    if g.random() < 0.15:
        o['unget'] = 1
    if g.random() < 0.1:
        o['stale'] = 1
    return o


def failure_errno(c):
    """The error numbers a failure may be reported with; any, if the stream gave none."""
    e = c.opts.get('err', 5) if c.opts['chan'] == 'cookie' else 11
    return range(1, 200) if e < 0 else (e,)


def left_alone(t, c):
    """What the parse did not take is still there for the next reader."""
    o = c.out
    if 'left' not in o or o['ret'] < 0 and 'errat' in c.opts:
        return
    t.c['streams read on after the parse'] += 1
    if not o['leftok'] or o['rd'] + o['left'] != len(c.data):
        t.violate('rest of the stream', '%d of %d bytes were taken and %d are left to read, %s' % (o['rd'], len(c.data), o['left'], 'the right ones' if o['leftok'] else 'not those of the input'), [c])


def stream_opts(g, data, fails=False):
    return dict(unbuf=g.choice((0, 0, 0, 1, 2, 100)), **channel(g, data, fails))


def w_deliver(seed, n, long=0, quick_too=True):
    t = Tally()
    groups = []
    for i in range(n):
        g = random.Random(seed * 104729 + i)
        if long:
            data = long_input(g, g.choice((1100, 2100, 5000, 17000) if long == 1 else (70000, 200000)))
        else:
            data = work.any_input(g, big=0.03)
        base = dict(flags=g.choice((0, 0, 0, ONLY, SINGLE, SINGLE | ONLY)))
        if g.random() < 0.3:
            base['pos'] = (g.choice((1, 1, 3, 99, 70000)), g.choice((1, 5, 80, 1 << 24)), g.choice((0, 7, 1000, 5 << 32)))
        cs = [Case('ue', data, **base), Case('u', data, **base)]
        cs += [Case('fe', data, **stream_opts(g, data), **base), Case('f', data, **stream_opts(g, data), **base)]
        if g.random() < 0.4:
            cs.append(Case('fe', data, unbuf=1, **base))
        if b'\0' not in data:
            cs.append(Case(g.choice(('p', 'pe')), data, **base))
        if quick_too:
            q = dict(flags=base['flags'])
            qs = [Case('qu', data, **q), Case('qf', data, **stream_opts(g, data), **q)]
            if b'\0' not in data:
                qs.append(Case('qp', data, **q))
            cs += qs
        groups.append(cs)
    execute([c for cs in groups for c in cs])
    for cs in groups:
        full = None; quick = None
        t.c['input bytes'] += len(cs[0].data)
        if len(cs[0].data) > 1024:
            t.c['inputs beyond one parser buffer'] += 1
        for c in cs:
            t.saw(c)
            if not survived(t, c):
                continue
            if c.opts.get('chunk'):
                t.kind('chunkings', c.opts['chunk'])
            if c.opts.get('chan'):
                t.kind('kinds of stream', (c.opts['chan'], c.opts.get('pre', 0) > 0, c.opts.get('unget', 0)))
            if c.out['ret'] != 0:
                t.violate('parse failed', 'entry %s returned %d, errno %d' % (c.entry, c.out['ret'], c.out['errno']), [c]); continue
            o = c.out
            ctx = c.entry[0] != 'f'
            if c.entry[0] == 'q':
                v = [{k: x for k, x in s.items() if k != 'rd'} for s in o['segs']]
                if quick is None:
                    quick = (c, v)
                else:
                    t.c['quick parses compared'] += 1
                    same(t, 'quick delivery', 'quick parser, %s against %s' % (quick[0].entry, c.entry), quick[1], v, [quick[0], c])
                continue
            if c.entry.endswith('e'):
                if full is None:
                    full = (c, o['segs'], o['last']); t.c['segments'] += len(o['segs'])
                    t.c['errors'] += sum(len(s['errs']) for s in o['segs'])
                    continue
                t.c['parses compared'] += 1
                same(t, 'segments differ', '%s against %s' % (full[0].entry, c.entry), [seg_view(s, ctx) for s in full[1]], [seg_view(s, ctx) for s in o['segs']], [full[0], c])
            elif full:
                t.c['parses compared'] += 1
                same(t, 'result differs', 'segments of %s against the result of %s' % (full[0].entry, c.entry), flat(full[1], ctx), res_view(o['res'], ctx), [full[0], c])
            if full:
                same(t, 'end position', 'end position of %s against %s' % (full[0].entry, c.entry), full[2], o['last'], [full[0], c])
    return t


VAST = (2 ** 31, 2 ** 31 + 5, 2 ** 32, 2 ** 32 + 7, 6 * 2 ** 30, 2 ** 31 - 1, 2 ** 32 - 1, 2 ** 33 + 1024)


def w_vast(seed, n):
    """Buffers of 2GiB and more, of which a parse that is to stop after a statement
    need only look at the beginning: as with a few thousand bytes."""
    t = Tally()
    first = []
    for i in range(n):
        g = random.Random(seed * 49999 + i)
        data = work.gen_doc(g, n=g.choice((1, 2, 3)), depth=g.choice((1, 2)), eof=False, modes=('tight', 'normal'), hostile=0).data + b'RETURN 1;'
        if g.random() < 0.2:
            data = b'RETURN "' + b'x' * g.choice((900, 1100, 3000)) + b'";\n' + data
        e = g.choice(('u', 'ue', 'qu'))
        o = dict(flags=SINGLE | g.choice((0, ONLY)))
        if e != 'u' and g.random() < 0.4:
            o = dict(flags=g.choice((0, ONLY)), cb=(1,) if g.random() < 0.5 else (0, 1))
        first.append(Case(e, data + b'\0' * 5000, tag=(len(data), g.choice(VAST)), **o))
    execute(first)
    second = []
    for c in first:
        t.saw(c)
        if not survived(t, c):
            continue
        k, size = c.tag
        end = c.out['last'][2] if c.entry != 'qu' else max([0] + [s['rg'][5] if 'rg' in s else 0 for s in c.out['segs']])
        if end <= k and (c.entry == 'u' or c.out['segs']):
            second.append((c, Case(c.entry, c.data[:k], tail=size, **c.opts)))
    execute([v for _, v in second])
    for c, v in second:
        t.saw(v)
        if not survived(t, v):
            continue
        t.c['parses of buffers beyond 2GiB'] += 1
        drop = ('id', 'chk')
        same(t, 'vast buffer', 'a buffer of %d bytes against one of %d that begins the same' % (v.opts['tail'], len(c.data)),
             {k: x for k, x in c.out.items() if k not in drop}, {k: x for k, x in v.out.items() if k not in drop}, [v])
    return t


def plan_c10(tier, seed):
    q = tier == 'quick'
    return (spread(w_deliver, seed, 15000 if q else 150000, 150) + spread(w_deliver, seed + 5, 160 if q else 4000, 10, long=1)
            + spread(w_deliver, seed + 6, 8 if q else 150, 1, long=2)
            + spread(w_vast, seed + 7, 80 if q else 1500, 20))


# ---------------------------------------------------------------- C11
def w_segments(seed, n):
    t = Tally()
    jobs = []
    first = []
    for i in range(n):
        g = random.Random(seed * 15485863 + i)
        doc = None
        if g.random() < 0.6:
            k = g.choice((1, 2, 3, 4, 6, 9))
            doc = work.gen_doc(g, n=k, depth=g.choice((1, 2)), commands=0.35)
            data = doc.data
        elif g.random() < 0.5:
            data = b''.join(work.any_input(g) + g.choice((b';', b'\n', b' ; ', b';\n')) for _ in range(g.choice((2, 3, 5))))[:3000]
        else:
            data = work.any_input(g)
        fl = g.choice((0, 0, 0, ONLY))
        if doc and any(r.d.command for r in doc.dirs):
            fl = 0
        first.append(Case(g.choice(('ue', 'ue', 'fe')), data, tag=(doc, g.random()), flags=fl))
    execute(first)
    second = []
    for c in first:
        t.saw(c)
        if not survived(t, c):
            continue
        o, data, doc = c.out, c.data, c.tag[0]
        segs = o['segs']
        t.c['segments'] += len(segs)
        if o['ret'] != 0:
            t.violate('parse failed', 'returned %d' % o['ret'], [c]); continue
        at = [1, 1, 0]
        ok = True
        for i, s in enumerate(segs):
            if s['rg'][:3] != at:
                t.violate('not contiguous', 'segment %d starts at %s, the one before ends at %s' % (i, s['rg'][:3], at), [c]); ok = False; break
            if s['rg'][5] <= s['rg'][2]:
                t.violate('empty segment', 'segment %d spans %s' % (i, s['rg']), [c]); ok = False; break
            at = s['rg'][3:]
            if s['eof'] and (i != len(segs) - 1 or at[2] != len(data)):
                t.violate('eof flag', 'segment %d of %d, ending at %d of %d, claims the end of input' % (i, len(segs), at[2], len(data)), [c]); ok = False; break
            if s['dir'] >= 0:
                d = s['roots'][s['dir']][0]
                if d[0] not in ('statement', 'command'):
                    t.violate('directive', 'the directive of segment %d is a %s' % (i, d[0]), [c])
        if not ok:
            continue
        if segs and at[2] != len(data):
            t.violate('input left', 'the segments end at %d of %d bytes' % (at[2], len(data)), [c]); continue
        if not segs and data:
            t.violate('input left', 'no segments', [c]); continue
        if segs and o['last'] != at:
            t.violate('end position', 'the end is given as %s, the last segment ends at %s' % (o['last'], at), [c])
        if not segs and o['last'] != [4242, 4242, 4242]:
            t.c['end set for empty input'] += 1
        if doc:
            ends = [r.end for r in doc.dirs]
            got = [s['rg'][5] for s in segs if s['dir'] >= 0]
            t.c['boundaries known by construction'] += len(ends)
            if any(s['errs'] for s in segs):
                t.violate('error on valid input', str([e[:2] for s in segs for e in s['errs']][:2])[:300], [c])
            elif ends != got:
                t.violate('boundaries', 'directives end at %s, expected %s' % (got, ends), [c])
        # each segment alone, in its place
        pick = segs if len(segs) <= 4 else random.Random(len(data)).sample(segs, 4)
        for s in pick:
            if odd_segments([s], data):
                t.c['segments with an ambiguous end, not reparsed'] += 1
                continue
            part = data[s['rg'][2]:s['rg'][5]]
            k = Case('ue', part, pos=s['rg'][:3], flags=c.opts['flags'], tag=('alone', c, s))
            second.append(k)
        g = random.Random(len(data) * 31 + len(segs))
        if segs:
            j = g.randrange(len(segs))
            if g.random() < 0.5:
                second.append(Case(g.choice(('ue', 'fe')), data, flags=c.opts['flags'] | SINGLE, tag=('single', c, 1)))
            else:
                second.append(Case(g.choice(('u', 'f')), data, flags=c.opts['flags'] | SINGLE, tag=('single', c, 1)))
            second.append(Case(g.choice(('ue', 'fe')), data, flags=c.opts['flags'], cb=[0] * j + [g.choice((1, 2, 77))], tag=('stop', c, j + 1)))
            second.append(Case(g.choice(('ue', 'fe')), data, flags=c.opts['flags'], cb=[0] * j + [g.choice((-1, -2, -77))], tag=('fail', c, j + 1)))
        if c.opts['flags'] == 0 and doc and not any(r.d.command for r in doc.dirs):
            second.append(Case('ue', data, flags=ONLY, tag=('only', c, len(segs))))
    execute(second)
    for k in second:
        what, c, x = k.tag
        t.saw(k)
        if not survived(t, k):
            continue
        o, segs = k.out, c.out['segs']
        if what == 'alone':
            t.c['segments parsed alone'] += 1
            if len(o['segs']) != 1:
                t.violate('alone', 'a segment parsed alone gives %d segments' % len(o['segs']), [c, k]); continue
            a, b = seg_view(x, False), seg_view(o['segs'][0], False)
            same(t, 'alone', 'a segment in place against parsed alone', a, b, [c, k])
            continue
        n = x
        t.c['%s parses' % what] += 1
        ctx = k.entry[0] != 'f' and c.entry[0] != 'f'
        if k.entry in ('u', 'f'):
            same(t, 'single segment', 'first segment against the result with the single flag', flat(segs[:1], ctx), res_view(o['res'], ctx), [c, k])
            want = 0
        else:
            want = k.opts['cb'][-1] if what == 'fail' else 0
            same(t, what + ' segments', 'segments expected against delivered', [seg_view(s, ctx) for s in segs[:n]], [seg_view(s, ctx) for s in o['segs']], [c, k])
        if o['ret'] != want:
            t.violate(what + ' return', 'returned %d, expected %d' % (o['ret'], want), [c, k])
        if what == 'fail' and o['errno'] != 77:
            t.violate('fail errno', 'errno set by the callback became %d' % o['errno'], [c, k])
        if n and o['last'] != segs[n - 1]['rg'][3:]:
            t.violate(what + ' end position', 'end given as %s, expected %s' % (o['last'], segs[n - 1]['rg'][3:]), [c, k])
    return t


def plan_c11(tier, seed):
    q = tier == 'quick'
    return spread(w_segments, seed, 16000 if q else 200000, 200)


# ---------------------------------------------------------------- C15
def w_lazy(seed, n, long=False):
    t = Tally()
    cases = []
    for i in range(n):
        g = random.Random(seed * 32452843 + i)
        doc = None
        if long:
            data = long_input(g, g.choice((1100, 3000, 9000)))
        elif g.random() < 0.5:
            doc = work.gen_doc(g, n=g.choice((1, 2, 3, 5)), depth=2, commands=0.35); data = doc.data
        else:
            data = b''.join(work.any_input(g) + g.choice((b';', b'\n', b';\n', b'')) for _ in range(g.choice((1, 2, 3))))[:4000]
        fl = 0 if doc else g.choice((0, 0, ONLY))
        grp = [Case('ue', data, flags=fl, tag=doc), Case('fe', data, flags=fl, unbuf=g.choice((0, 1, 1, 5)), **channel(g, data))]
        grp.append(Case('qf', data, flags=fl, unbuf=g.choice((0, 1, 1, 5)), **channel(g, data)))
        k = g.choice((0, min(1, len(data)), len(data) // 2, len(data), g.randrange(len(data) + 1), g.randrange(len(data) + 1)))
        grp.append(Case('fe', data, flags=fl, errat=k, unbuf=g.choice((0, 1)), **channel(g, data, True)))
        grp.append(Case('f', data, flags=fl, errat=k, **channel(g, data, True)))
        grp.append(Case('qf', data, flags=fl, errat=k, unbuf=g.choice((0, 1)), **channel(g, data, True)))
        grp.append(Case('qu', data, flags=fl))
        stop = g.choice((1, 1, 2, 3))
        grp.append(Case('fe', data, flags=fl, unbuf=g.choice((0, 1)), **channel(g, data), cb=[0] * (stop - 1) + [g.choice((1, -3))]))
        grp.append(Case('qf', data, flags=fl, unbuf=g.choice((0, 1)), **channel(g, data), cb=[0] * (stop - 1) + [g.choice((1, -3))]))
        grp.append(Case(g.choice(('fe', 'f')), data, flags=fl | SINGLE, unbuf=g.choice((0, 1)), **channel(g, data)))
        p = g.randrange(len(data) + 1)
        grp += [Case('fe', data[:p], flags=fl, **channel(g, data[:p])), Case('ue', data[:p], flags=fl)]
        cases.append(grp)
    execute([c for grp in cases for c in grp])
    for grp in cases:
        good = [survived(t, c) for c in grp]
        for c in grp:
            t.saw(c)
        if not all(good):
            continue
        ue, lazy, ql, er, erf, qer, qu, stop, qstop, single, cut, cutu = grp
        segs = ue.out['segs']
        n = len(ue.data)
        if odd_segments(segs, ue.data):
            t.c['inputs with an ambiguous end, not judged'] += 1
            continue
        for c in grp:
            left_alone(t, c)
            if c.opts.get('chan'):
                t.kind('kinds of stream', (c.opts['chan'], c.opts.get('pre', 0) > 0, c.opts.get('unget', 0), 'errat' in c.opts))
        # laziness
        if [s['rg'] for s in lazy.out['segs']] == [s['rg'] for s in segs]:
            for s in lazy.out['segs']:
                t.c['segments watched for lookahead'] += 1
                if s['rd'] != s['rg'][5]:
                    t.violate('lookahead', 'segment ending at %d delivered after %d bytes were read' % (s['rg'][5], s['rd']), [lazy]); break
        else:
            t.violate('stream segments', 'segments from the stream differ: %s' % first_diff([s['rg'] for s in segs], [s['rg'] for s in lazy.out['segs']]), [ue, lazy])
        if [s['next'] for s in ql.out['segs']] == [s['next'] for s in qu.out['segs']]:
            for s in ql.out['segs']:
                t.c['quick segments watched for lookahead'] += 1
                if s['rd'] != s['next'][2]:
                    t.violate('quick lookahead', 'quick segment whose successor starts at %d delivered after %d bytes were read' % (s['next'][2], s['rd']), [ql]); break
        else:
            t.violate('quick stream segments', 'quick segments from the stream differ', [qu, ql])
        # failing reads
        k = er.opts['errat']
        for c in (er, erf, qer):
            t.c['failing reads'] += 1
            t.kind('failure offsets', c.opts['errat'])
            if c.out['ret'] == 0:
                t.violate('read failure ignored', 'the stream fails at byte %d and %s succeeds' % (k, c.entry), [c])
            elif c.out['ret'] != -1 or c.out['errno'] not in failure_errno(c):
                t.violate('read failure report', 'the stream fails at byte %d: %s returns %d, errno %d' % (k, c.entry, c.out['ret'], c.out['errno']), [c])
        want = [seg_view(s, False) for s in segs if s['rg'][5] <= k and not s['eof']]
        got = [seg_view(s, False) for s in er.out['segs']]
        same(t, 'segments before a failure', 'segments before the failure at %d' % k, want, got, [ue, er])
        wq = [{a: b for a, b in s.items() if a != 'rd'} for s in qu.out['segs'] if s['next'][2] <= k and not s['eof']]
        gq = [{a: b for a, b in s.items() if a != 'rd'} for s in qer.out['segs']]
        same(t, 'quick segments before a failure', 'quick segments before the failure at %d' % k, wq, gq, [qu, qer])
        # stopping early
        for c, ref, end in ((stop, segs, lambda s: s['rg'][5]), (qstop, qu.out['segs'], lambda s: s['next'][2])):
            m = len(c.opts['cb'])
            if len(ref) >= m:
                t.c['early stops'] += 1
                if c.out['rd'] != end(ref[m - 1]):
                    t.violate('read past a stop', '%s stopped at segment %d ending at %d; %d bytes were read' % (c.entry, m, end(ref[m - 1]), c.out['rd']), [c])
                if len(c.out['segs']) != m:
                    t.violate('stop ignored', '%d segments delivered, stopped after %d' % (len(c.out['segs']), m), [c])
                v = c.opts['cb'][-1]
                if c.out['ret'] != (v if v < 0 else 0):
                    t.violate('stop return', 'the callback returned %d and the call %d' % (v, c.out['ret']), [c])
        if segs and single.out['rd'] != segs[0]['rg'][5]:
            t.violate('single reads on', 'with the single flag, %d bytes were read for a segment ending at %d' % (single.out['rd'], segs[0]['rg'][5]), [single])
        # truncation is the shorter input
        t.c['truncations'] += 1
        same(t, 'truncated', 'stream ending early against the shorter buffer', [seg_view(s, False) for s in cutu.out['segs']], [seg_view(s, False) for s in cut.out['segs']], [cutu, cut])
    return t


def plan_c15(tier, seed):
    q = tier == 'quick'
    return spread(w_lazy, seed, 12500 if q else 120000, 125) + spread(w_lazy, seed + 3, 80 if q else 2500, 10, long=True)


# ---------------------------------------------------------------- C23
MARK = re.compile(r'[\1\2][A-Z]', re.I)
ANSI = re.compile(r'\x1b\[[0-9;]*m')


def renumber(text, k):
    """Adds k to every node number of a printed tree."""
    out = []
    for ln in text.split('\n'):
        m = re.match(r'( *)@(\d+)( .*)$', ln)
        out.append((ln, m))
    return out


def w_config(seed, n):
    t = Tally()
    cases = []
    for i in range(n):
        g = random.Random(seed * 49979687 + i)
        data = work.any_input(g) if g.random() < 0.6 else work.gen_doc(g, depth=2).data
        fl = g.choice((0, 0, 0, ONLY, SINGLE))
        pos = (g.choice((1, 1, 2, 7, 4000)), g.choice((1, 2, 41, 999)), g.choice((0, 1, 17, 123456789, 3 << 32)))
        if g.random() < 0.15:
            pos = tuple(g.choice((1, 255, 256, 32768, 65535, 65536, 70000, 1 << 24, 1 << 31, 4 * 10 ** 9)) for _ in range(2)) + (g.choice((0, 65535, 70000, 1 << 31, 4 * 10 ** 9, 1 << 32, 1 << 48)),)
            t.c['positions beyond 16 bits'] += max(pos[:2]) > 65535
        ordn = g.choice((0, 1, 7, 1000, 2 ** 31, 2 ** 32 - 3))
        en = g.choice(('ue', 'u', 'fe', 'f'))
        grp = [Case(en, data, flags=fl, print='0:0'), Case(en, data, flags=fl, pos=pos, print='0:0'), Case(en, data, flags=fl, ord=ordn, print='0:0'),
               Case(en, data, flags=fl, color=2), Case(en, data, flags=fl, color=1), Case(en, data, flags=fl, color=0),
               Case(en, data, flags=fl, pos=pos, ord=ordn, color=2, print='0:0')]
        # one configuration used by many parses of this process
        slot = g.randrange(8)
        sp = [(1, 1, 0), (5, 3, 90), (2, 9, 11), (1, 40, 39), (3, 1, 2), (1, 1, 0), (8, 8, 80), (77, 1, 9999)][slot]
        so, sc = (0, 5, 9, 0, 100, 0, 3, 12)[slot], (0, 2, 0, 2, 1, 2, 0, 2)[slot]
        cf = dict(pos=sp, ord=so, color=sc)
        grp += [Case(en, data, flags=fl, print='0:0', **cf), Case(en, data, flags=fl, print='0:0', cfg=slot, **cf)]
        blank = None
        if pos[0] < 10 and pos[1] < 50:
            pre = b'\n' * (pos[0] - 1) + b' ' * (pos[1] - 1)
            blank = Case(en, pre + data, flags=fl); blank.tag = len(pre)
            grp.append(blank)
            grp.append(Case(en, data, flags=fl, pos=(pos[0], pos[1], len(pre))))
        cases.append((grp, pos, ordn, blank))
    execute([c for grp, *_ in cases for c in grp])
    for grp, pos, ordn, blank in cases:
        good = [survived(t, c) for c in grp]
        for c in grp:
            t.saw(c)
        if not all(good):
            continue
        base, shifted, ordered, mk, an, no, all3, fresh, reused = grp[:9]
        ctx = True
        def view(c, f=None, strip=None):
            o = c.out
            f = f or (lambda p: p)
            if c.entry.endswith('e'):
                v = [shift_seg(s, f) for s in o['segs']]
                es = [e for s in v for e in s['errs']]
                last = o['last'] if not o['segs'] else f(o['last'])
            else:
                r = o['res']
                v = shift_seg(dict(r, rg=[1, 1, 0] * 2, dir=0), f); v['dirs'] = r['dirs']; v['rg'] = 0
                es = v['errs']
                last = f(o['last']) if o['last'] != [4242, 4242, 4242] else o['last']
            if strip:
                for e in es:
                    e[1] = strip.sub('', e[1])
            return [v, last, o['ret']]
        def prints(c):
            ps = [p['out'] for s in c.out['segs'] for p in s.get('pr', ())] + [p['out'] for p in c.out.get('res', {}).get('pr', ()) ] + [p['out'] for p in c.out.get('pr', ())]
            return ps
        f = shift_at(pos)
        t.c['positions shifted'] += 1
        same(t, 'initial position', 'shifted parse against shifted positions', view(base, f), view(shifted), [base, shifted])
        t.c['renumbered'] += 1
        same(t, 'ordinal', 'initial number changes more than numbers', view(base), view(ordered), [base, ordered])
        pb, po = prints(base), prints(ordered)
        if len(pb) != len(po):
            t.violate('ordinal prints', 'prints %d and %d' % (len(pb), len(po)), [base, ordered])
        for a, b in zip(pb, po):
            t.c['printed trees renumbered'] += 1
            na = [int(x) for x in re.findall(r'(?m)^ *@(\d+) ', a)]
            nb = [int(x) for x in re.findall(r'(?m)^ *@(\d+) ', b)]
            if [(x + ordn) % (1 << 32) for x in na] != nb:
                t.violate('ordinal', 'numbers %s with initial %d, %s without' % (nb[:6], ordn, na[:6]), [base, ordered]); break
        for c, strip in ((mk, MARK), (an, ANSI)):
            t.c['colored'] += 1
            nerr = sum(len(s['errs']) for s in base.out['segs']) + len(base.out.get('res', {}).get('errs', ()))
            t.c['colored messages'] += nerr
            same(t, 'colorization', 'messages without markers', view(base), view(c, strip=strip), [base, c])
        for (a, b) in () if b'\1' in base.data or b'\2' in base.data else zip([e for s in base.out['segs'] for e in s['errs']] + base.out.get('res', {}).get('errs', []), [e for s in mk.out['segs'] for e in s['errs']] + mk.out.get('res', {}).get('errs', [])):
            if b[1].count('\1') != b[1].count('\2') or b[1].count('\1') == 0 or not balanced(b[1]):
                t.violate('markers', 'markers of %r do not pair up' % b[1][:200], [mk]); break
        same(t, 'colorization', 'the default against no colorization', view(base), view(no), [base, no])
        same(t, 'combined', 'all settings together', view(base, f), view(all3, strip=MARK), [base, all3])
        t.c['configuration reused'] += 1
        same(t, 'reuse', 'a configuration used before against a new one', view(fresh) + [prints(fresh)], view(reused) + [prints(reused)], [fresh, reused])
        if blank is not None:
            t.c['blank prefixes'] += 1
            a, b = view(blank), view(grp[10])
            def norm(v):
                v = json.loads(json.dumps(v))
                if isinstance(v[0], list):
                    for s in v[0]:
                        for e in s['errs']:
                            del e[2:]
                    if v[0]:
                        v[0][0]['rg'] = v[0][0]['rg'][3:]
                else:
                    for e in v[0]['errs']:
                        del e[2:]
                return v
            nothing = not (blank.out['segs'] and grp[10].out['segs']) and blank.entry.endswith('e')
            if nothing or not grp[0].data:
                continue      # blanks alone form a segment of their own
            same(t, 'blank prefix', 'preceding blanks against an initial position', norm(a), norm(b), [blank, grp[10]])
    return t


def balanced(s):
    st = []
    for m in re.finditer('([\1\2])([A-Za-z])', s):
        if m.group(1) == '\1':
            st.append(m.group(2))
        elif not st or st.pop() != m.group(2):
            return False
    return not st


def plan_c23(tier, seed):
    q = tier == 'quick'
    return spread(w_config, seed, 10000 if q else 100000, 100)


CHECKS = {
    'C10': Check('C10', plan_c10, ['asan'], 'Hostile inputs, documents and long inputs (beyond the 1024-byte parser buffer and beyond 64 KiB; buffers of 2 to 8 GiB of which only the beginning is to be looked at), each parsed from a buffer, a C string and streams delivering it in various pieces, by segment and whole, by the full and the quick parser; everything exposed is compared (error contexts of streams excepted, which show only what was read). Non-trivial: distinct (input, entry, delivery).',
                 {'parses compared': 10000, 'inputs beyond one parser buffer': 100, 'chunkings': 10, 'kinds of stream': 15, 'quick parses compared': 5000, 'errors': 2000, 'parses of buffers beyond 2GiB': 30}),
    'C11': Check('C11', plan_c11, ['asan'], 'Documents with boundaries known by construction, and hostile inputs joined by terminators; contiguity, ends, flags; each segment reparsed alone in its place; single-segment mode and stops at a random segment. Non-trivial: distinct (input, entry, options).',
                 {'segments': 10000, 'boundaries known by construction': 5000, 'segments parsed alone': 8000, 'stop parses': 2000, 'fail parses': 2000, 'single parses': 2000, 'only parses': 500}),
    'C15': Check('C15', plan_c15, ['asan'], 'Streams that count the bytes taken from them and fail or end at chosen offsets, under documents and hostile inputs, for the full and the quick parser. Non-trivial: distinct (input, entry, stream behaviour).',
                 {'segments watched for lookahead': 8000, 'quick segments watched for lookahead': 8000, 'failing reads': 7000, 'failure offsets': 100, 'kinds of stream': 20, 'streams read on after the parse': 10000, 'early stops': 5000}),
    'C23': Check('C23', plan_c23, ['asan'], 'Each input parsed under the default and under chosen configurations, alone and combined, new and reused across the parses of a process; results compared after undoing the shift, the numbering or the markers. Non-trivial: distinct (input, entry, options).',
                 {'positions shifted': 3000, 'positions beyond 16 bits': 500, 'printed trees renumbered': 3000, 'colored messages': 3000, 'configuration reused': 3000, 'blank prefixes': 500}),
}
