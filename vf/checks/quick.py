"""C19 the quick parser, against an independent splitter and the full parser."""
import random, re
from ..core import Check, Tally, execute, survived, spread
from ..run import Case
from ..oracle import Index
from .. import work
from .memory import hostile
from .streams import CHUNKS, stream_opts

EOL = r'\r?\n'
COMMENT = r'//(?:(?!\r?\n)[\s\S])*(?:\r?\n|$(?![\s\S]))|/\*(?:(?!\*/)[\s\S])*\*/'
LAYOUT = re.compile(r'(?:[ \t]|\r?\n|' + COMMENT + r')*')
HLAYOUT = re.compile(r'(?:[ \t]|/\*(?:(?!\*/)[\s\S])*\*/)*')
ESC = r'''\\[abfnrtv"'?\\]'''
QUOTED = r"'(?:" + ESC + r"|[^'])*(?:'|$(?![\s\S]))" + '|"(?:' + ESC + r'|[^"])*(?:"|$(?![\s\S]))'
# one piece of a statement that is not layout
SPIECE = re.compile(QUOTED + r'|`[^`]*(?:`|$(?![\s\S]))|/\*[\s\S]*|' + ESC + r'|[\s\S]')
CPIECE = re.compile(ESC + r'|\\;|\\(?:[ \t]|/\*(?:(?!\*/)[\s\S])*\*/)*(?://(?:(?!\r?\n)[\s\S])*(?:\r?\n|$(?![\s\S]))|\r?\n|$(?![\s\S]))|/\*(?:(?!\*/)[\s\S])*\*/|/\*[\s\S]*|' + QUOTED + r'|[\s\S]')
LEND = re.compile(r'//(?:(?!\r?\n)[\s\S])*(\r?\n|$(?![\s\S]))|(\r?\n)')


def split(text, only=False):
    """[(start, end of the text, start of the next, command?, ended by the end of input?)]"""
    out, p, n = [], 0, len(text)
    while p < n:
        s = q = LAYOUT.match(text, p).end()
        if q < n and text[q] == ':' and not only:
            q += 1
            while True:
                e = HLAYOUT.match(text, q).end()
                if e >= n:
                    nx, eof = n, True; break
                if text[e] == ';':
                    nx, eof = e + 1, False; break
                m = LEND.match(text, e)
                if m:
                    nx, eof = m.end(), not (m.group(1) or m.group(2)); break
                if e > q:
                    q = e       # blanks and comments within the command
                    continue
                q = CPIECE.match(text, q).end()
            out.append((s, q, nx, True, eof))
        else:
            while True:
                e = LAYOUT.match(text, q).end()
                if e >= n:
                    nx, eof = n, True; break
                if text[e] == ';':
                    nx, eof = e + 1, False; break
                if e > q:
                    q = e
                    continue
                q = SPIECE.match(text, q).end()
            out.append((s, q, nx, False, eof))
        p = nx
        if eof:
            break
    return out


def checkq(t, c, want):
    """Compares quick parser segments with what the splitter gives."""
    text = c.data.decode('latin1')
    ix = Index(text)
    segs = c.out['segs']
    if len(segs) != len(want):
        t.violate('quick count', '%d segments, expected %d (texts %s | %s)' % (len(segs), len(want), [s['t'][:60] for s in segs][:5], [text[w[0]:w[1]][:60] for w in want][:5]), [c])
        return False
    for i, (s, w) in enumerate(zip(segs, want)):
        a, b, nx, cmd, eof = w
        t.c['quick segments compared'] += 1
        t.c['segments over a megabyte'] += b - a >= 1 << 20
        t.c['commands'] += cmd
        t.c['segments ended by the end of input'] += eof
        if s['t'] != text[a:b]:
            t.violate('quick text', 'segment %d has text %r, expected %r' % (i, s['t'][:300], text[a:b][:300]), [c]); return False
        if s['rg'] != ix.at(a) + ix.at(b):
            t.violate('quick range', 'segment %d has range %s, expected %s' % (i, s['rg'], ix.at(a) + ix.at(b)), [c]); return False
        if s['next'] != ix.at(nx):
            t.violate('quick next', 'segment %d: the next starts at %s, expected %s' % (i, s['next'], ix.at(nx)), [c]); return False
        if (s['cmd'], s['st']) != (int(cmd), int(not cmd)):
            t.violate('quick kind', 'segment %d: command %s, statement %s, expected command %s' % (i, s['cmd'], s['st'], cmd), [c]); return False
        if s['eof'] != int(eof):
            t.violate('quick eof', 'segment %d: end of input %s, expected %s' % (i, s['eof'], eof), [c]); return False
    return True


BITS = ["'", '"', '`', ';', '\n', '//', '/*', '*/', '\\', ':', ' ', 'a', '\r\n', '\r', '\\;', '\\"', "\\'", '\\\\', '\t', '*', '/', ':x ', 'RETURN 1', ';\n', '\\\n', '\\ \n', '\\//c\n', '/**/', '/* ; */', '";"', "';'", '`;`', '// ;\n', '\\a', '\\n', '\0', '\xff', '\x0b']


def any_quick(g):
    k = g.random()
    if k < 0.45:
        return ''.join(g.choice(BITS) for _ in range(g.choice((1, 2, 3, 5, 8, 13, 30, 60)))).encode('latin1')
    if k < 0.55:
        b = [g.choice(BITS) for _ in range(3)]
        return ''.join(g.choice(b) for _ in range(g.choice((3, 6, 12)))).encode('latin1')
    if k < 0.552:
        return work.huge(g)[1]
    if k < 0.62:
        n = g.choice((1000, 1020, 1024, 1030, 2048, 5000))
        q = g.choice(("'", '"', '`', '/*', '//', ' ', ':', '\n', 'x'))
        return ('RETURN 1; ' * g.randrange(3) + q + g.choice(('a', '; ', '\\"', 'a\n', '*')) * n + {'/*': '*/', '//': '\n'}.get(q, q) + g.choice((';', '', '\n', '; x'))).encode('latin1')
    return hostile(g)[:20000]


def megabyte(g):
    """A statement or command of a megabyte and more, between others."""
    n = g.choice((66000, 300000, 1100000, 2100000))
    k = g.randrange(6)
    t = ('RETURN "' + 'x;' * (n // 2) + '"', 'RETURN `' + 'x' * n + '`', 'RETURN /*' + '; \n' * (n // 3) + '*/ 1', ':x ' + 'a b ' * (n // 4), 'RETURN ' + 'a ' * (n // 2), 'x' * n)[k]
    return ('RETURN 0; ' * g.randrange(3) + t + g.choice((';', ';\nRETURN 1;', '', '\n', ';:a\n'))).encode()


def w_split(seed, n, big=False):
    t = Tally()
    cases = []
    for i in range(n):
        g = random.Random(seed * 2147483629 + i)
        data = megabyte(g) if big else any_quick(g)
        fl = g.choice((0, 0, 0, 2))
        en = g.choice(('qu', 'qu', 'qf') + (('qp',) if b'\0' not in data else ()))
        o = stream_opts(g, data) if en == 'qf' else {}
        k = g.random()
        if k < 0.1:
            fl |= 1
        elif k < 0.2:
            o['cb'] = [0] * g.randrange(4) + [g.choice((1, 5, -1, -7))]
        cases.append(Case(en, data, flags=fl, **o))
    execute(cases)
    for c in cases:
        if not survived(t, c):
            continue
        want = split(c.data.decode('latin1'), bool(c.opts['flags'] & 2))
        t.saw(c, bool(want))
        ret = 0
        if c.opts['flags'] & 1:
            want = want[:1]
            t.c['single'] += 1
        elif 'cb' in c.opts and len(want) >= len(c.opts['cb']):
            want = want[:len(c.opts['cb'])]
            ret = min(0, c.opts['cb'][-1])
            t.c['stopped by the callback'] += 1
        if c.out['ret'] != ret:
            t.violate('quick return', 'returned %d, expected %d' % (c.out['ret'], ret), [c])
        checkq(t, c, want)
    return t


def w_agree(seed, n):
    """Well-formed documents: boundaries by construction, and those of the full parser."""
    t = Tally()
    cases = []
    for i in range(n):
        g = random.Random(seed * 1073741789 + i)
        if g.random() < 0.1:
            d = None
            data = b';\n'.join(g.choice(work.CORPUS).encode('latin1') for _ in range(g.choice((1, 3))))
        else:
            d = work.gen_doc(g, n=g.choice((1, 2, 3, 5)), depth=g.choice((1, 2, 3)), hostile=0.35, commands=0.35)
            data = d.data
        cases.append((d, Case('qu', data, flags=0), Case('ue', data, flags=0)))
    execute([c for x in cases for c in x[1:]])
    for d, q, u in cases:
        t.saw(q)
        if not (survived(t, q) and survived(t, u)):
            continue
        text = q.data.decode('latin1')
        segs, full = q.out['segs'], u.out['segs']
        if any(s['errs'] for s in full):
            continue
        if d and any(x.kind == 'optval' and re.search(r'''["'`\\]|/[/*]''', x.text) for r in d.dirs for x in r.d.toks):
            t.c['documents set aside for an option value with quotes'] += 1
            continue
        t.c['well-formed documents'] += 1
        checkq(t, q, split(text))
        fb = [(s['rg'][5], s['eof']) for s in full]
        qb = [(s['next'][2], s['eof']) for s in segs]
        t.c['boundaries compared with the full parser'] += len(fb)
        if fb != qb:
            t.violate('quick and full boundaries', 'the quick parser splits at %s, the full parser at %s' % (qb[:6], fb[:6]), [q, u])
            continue
        for s, f in zip(segs, full):
            ty = [r[0][0] for r in f['roots'] if r[0][0] in ('command', 'statement')]
            if ty and s['cmd'] != (ty == ['command']):
                t.violate('quick and full kinds', 'the quick parser calls %r %s' % (s['t'][:100], 'a command' if s['cmd'] else 'a statement'), [q, u])
        if d is None:
            continue
        for r, s in zip(d.dirs, segs):
            a, b = r.offs[0][0], r.offs[len(r.d.toks) - 1][1]
            t.c['texts compared with what was written'] += 1
            if s['t'] != text[a:b] or s['cmd'] != int(bool(r.d.command)) or (s['rg'][2], s['rg'][5]) != (a, b):
                t.violate('quick text written', 'segment %r (%s), written %r (%d to %d)' % (s['t'][:200], s['rg'], text[a:b][:200], a, b), [q])
                break
    return t


def plan_c19(tier, seed):
    q = tier == 'quick'
    return spread(w_split, seed, 50000 if q else 800000, 500) + spread(w_split, seed + 2, 48 if q else 600, 6, big=True) + spread(w_agree, seed + 1, 15000 if q else 150000, 150)


CHECKS = {
    'C19': Check('C19', plan_c19, ['asan'], 'Soups of quotes, escapes, comments, terminators and line ends, hostile inputs and long tokens, split by the quick parser from buffers, strings and streams and by an independent splitter, texts, ranges, kinds, next positions and end-of-input compared; and generated well-formed documents, whose boundaries are known by construction and from the full parser. Non-trivial: distinct (input, entry, options) with a segment.',
                 {'quick segments compared': 40000, 'commands': 5000, 'segments ended by the end of input': 10000, 'boundaries compared with the full parser': 10000, 'texts compared with what was written': 8000, 'segments over a megabyte': 10, 'single': 1000, 'stopped by the callback': 500}),
}
