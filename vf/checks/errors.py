"""C12 malformed input is reported, C13 what the reports say, C14 recovery."""
import random, re, sys
from ..core import Check, Tally, execute, survived, spread
from ..run import Case
from ..oracle import Index
from ..lang import Gen, Layout, render
from .. import work, lang
from ..peg import Recogniser, Loop
from .streams import CHUNKS, ONLY, SINGLE, flat, res_view, seg_view, shift_at, shift_seg, same, stream_opts
from .memory import hostile


REC = Recogniser()


def read(t, text, **kw):
    try:
        return REC.read(text, **kw)
    except (RecursionError, Loop):
        t.inconclusive += 1
        return None


def errpos(segs):
    return [e[0][2] for s in segs for e in s['errs']]


# ---------------------------------------------------------------- C12
def one_edit(g):
    """A statement or command with one token edited, and what was done."""
    G = Gen(g, depth=g.choice((1, 2, 3)), hostile=0.05)
    d = G.command() if g.random() < 0.1 else G.statement()
    e = work.damage_tokens(d, g, g.choice((1, 1, 1, 2)))
    ds = [e] if e.toks else [d]
    if g.random() < 0.3:
        ds.insert(g.choice((0, 1)), Gen(g, depth=1, hostile=0.05).statement())
    return render(ds, Layout(g, g.choice(('normal', 'normal', 'tight', 'lines', 'wild')), kwcase=g.choice(('upper', 'lower', 'rand'))), g).data


def swap_words(g):
    """A valid statement with a keyword misspelt, or a word put where another stood."""
    d = Gen(g, depth=g.choice((1, 2)), hostile=0.05).statement()
    for _ in range(4):
        i = g.randrange(len(d.toks))
        x = d.toks[i]
        if x.kind == 'kw' and len(x.text) > 1:
            w = x.text; j = g.randrange(len(w)); k = g.random()
            w = w[:j] + w[j + 1:] if k < 0.35 else w[:j] + g.choice('AEXZ_9') + w[j:] if k < 0.6 else w[:j] + g.choice('AEXZ_') + w[j + 1:] if k < 0.8 else g.choice(work.WORDS).split()[0]
            d.toks[i] = type(x)(w, 'kw', x.glue)
            break
    return render([d], Layout(g, 'normal'), g).data


CLAUSES = ['c_call', 'c_load'] + [c for c in dir(Gen) if c.startswith('c_') and c not in ('c_call', 'c_load')]


ATOMS = ('collection', 'map', 'case', 'case', 'list_comprehension', 'pattern_comprehension', 'filter', 'extract', 'reduce', 'all', 'any', 'single', 'none', 'pattern', 'shortest', 'apply', 'apply_all')


def every_edit(g):
    """A short statement with each of its tokens left out, doubled, doubled without a gap, or swapped with the next, in turn, and runs of tokens left out or repeated from each."""
    for _ in range(9):
        G = Gen(g, depth=1, hostile=0.0)
        k = g.random()
        d = G.statement([g.choice(CLAUSES)]) if k < 0.5 else G.expression_statement(('atom', g.choice(ATOMS))) if k < 0.67 else G.expression_statement() if k < 0.8 else G.statement('schema') if k < 0.9 else G.statement() if k < 0.95 else G.command()
        if len(d.toks) <= 30:
            break
    T = type(d.toks[0])
    for i, x in enumerate(d.toks):
        for k, m in [(0, 1), (1, 1), (2, 1), (3, 1), (5, g.choice((2, 2, 3, 3, 4, 4, 5, 6, 7, 8)))] + [(4, m) for m in range(2, 11)]:
            ts = list(d.toks)
            if k == 0:
                del ts[i]
            elif k == 4:
                # what stands between two words or signs
                if i + m > len(ts) or x.kind not in ('kw', 'punct') or i + m < len(ts) and ts[i + m].kind not in ('kw', 'punct') or g.random() < 0.4:
                    continue
                del ts[i:i + m]
            elif k == 5:
                if i + m > len(ts) or g.random() < 0.6:
                    continue
                ts[i:i] = ts[i:i + m]
            elif k == 3:
                if i + 1 == len(ts):
                    continue
                ts[i], ts[i + 1] = ts[i + 1], ts[i]
            else:
                ts.insert(i + 1, T(x.text, x.kind, k == 2))
            if ts:
                yield render([lang.D(ts, None, d.command)], Layout(g, g.choice(('normal', 'tight'))), g).data


def w_valid(seed, n, every=0):
    """Errors are reported exactly where the recogniser says the input is malformed."""
    t = Tally()
    cases = []
    for i in range(every):
        for data in every_edit(random.Random(seed * 15487469 + i)):
            cases.append(Case('u', data, flags=0, nolast=1))
            t.c['single edits of short statements'] += 1
    for i in range(n):
        g = random.Random(seed * 49979687 + i)
        k = g.random()
        data = one_edit(g) if k < 0.4 else swap_words(g) if k < 0.55 else work.gen_doc(g).data if k < 0.65 else work.any_input(g, 0)
        c = Case(g.choice(('u', 'u', 'ue', 'f', 'fe')), data, flags=g.choice((0, 0, 0, ONLY, SINGLE)), nolast=1)
        if c.entry[0] == 'f':
            c.opts.update(stream_opts(g, c.data))
        cases.append(c)
    execute(cases)
    for c in cases:
        t.saw(c)
        if not survived(t, c):
            continue
        text = c.data.decode('latin1')
        fl = c.opts['flags']
        w = read(t, text, statements_only=bool(fl & ONLY), single=bool(fl & SINGLE))
        if w is None:
            continue
        got = [e[0][2] for e in c.out['res']['errs']] if 'res' in c.out else errpos(c.out['segs'])
        exp = [p for d in w for p, _ in d['errors']]
        t.c['well-formed inputs' if not exp else 'malformed inputs'] += 1
        t.c['directives judged'] += len(w)
        for d in w:
            for p, ls in d['errors'][:1]:
                t.kind('sets of expectations met', tuple(sorted(ls)))
        if bool(got) != bool(exp):
            t.violate('not reported' if exp else 'reported', 'no error is reported, though nothing well-formed goes on as this does after offset %d (expected %s)' % (exp[0], ' '.join(w[0]['errors'][0][1])[:300] if w[0]['errors'] else '') if exp else 'an error is reported at offset %d of a well-formed input' % got[0], [c])
        elif exp and got[0] != exp[0]:
            t.violate('first error', 'the first error is reported at offset %d, but the input can be read up to %d' % (got[0], exp[0]), [c])
    return t


FOREIGN = '@#~&!?\x01\x7f\\'


def w_foreign(seed, n):
    """A character no token starts with, at a token boundary: the error is exactly there."""
    t = Tally()
    cases = []
    for i in range(n):
        g = random.Random(seed * 86028121 + i)
        d = Gen(g, depth=g.choice((1, 2, 3)), hostile=0.05).statement()
        lead = Gen(g, depth=1, hostile=0.0).statement() if g.random() < 0.3 else None
        doc = render(([lead] if lead else []) + [d], Layout(g, g.choice(('normal', 'lines', 'wild'))), g, eof_term=g.random() < 0.3)
        r = doc.dirs[-1]
        # anywhere but next to an option's value, which takes any character
        ks = [k for k in range(len(d.toks)) if d.toks[k].kind != 'optval' and not (k and (d.toks[k - 1].kind == 'optval' or d.toks[k].glue))]
        if not ks:
            continue
        k = g.choice(ks)
        at = r.offs[k][0]
        f = g.choice(FOREIGN)
        if f == '~' and doc.data[at - 1:at] == b'=':
            f = '@'
        data = doc.data[:at] + f.encode('latin1') + b' ' * g.choice((0, 1)) + doc.data[at:]
        cases.append(Case(g.choice(('u', 'ue', 'f')), data, tag=('foreign', at)))
        # and the same statement cut short at a token, or inside one
        cut = r.offs[k][g.choice((0, 1))] if g.random() < 0.6 else g.randrange(r.offs[k][0], r.offs[k][1] + 1)
        vals = [r.offs[j][1] for j in range(len(d.toks)) if d.toks[j].kind == 'optval']
        if cut > max(vals, default=0) and cut:
            within = [r.offs[j][0] for j in range(len(d.toks)) if r.offs[j][0] < cut < r.offs[j][1]]
            cases.append(Case(g.choice(('u', 'ue', 'f')), doc.data[:cut], tag=('cut', min(within, default=cut))))
    execute(cases)
    for c in cases:
        t.saw(c)
        if not survived(t, c):
            continue
        what, at = c.tag
        es = c.out['res']['errs'] if 'res' in c.out else [e for s in c.out['segs'] for e in s['errs']]
        if what == 'foreign':
            t.c['foreign characters placed'] += 1
            if not es:
                t.violate('not reported', 'the character %r at %d is not reported' % (c.data[at:at + 1], at), [c])
            elif es[0][0][2] != at:
                t.violate('first error', 'the first error is at %d, the character that fits nowhere at %d' % (es[0][0][2], at), [c])
        else:
            t.c['statements cut short'] += 1
            if es:
                t.c['cuts reported'] += 1
                if not at <= es[0][0][2] <= len(c.data):
                    t.violate('first error', 'the first error of a valid statement cut at %d is at %d' % (at, es[0][0][2]), [c])
    return t


def plan_c12(tier, seed):
    q = tier == 'quick'
    return spread(w_valid, seed, 20000 if q else 500000, 250) + [(w_valid, dict(seed=seed * 1000 + i, n=0, every=8)) for i in range(240 if q else 4000)] + spread(w_foreign, seed + 1, 8000 if q else 200000, 250)


# ---------------------------------------------------------------- C13
LABEL = r"""'[^ ]{1,2}'|"\.\.\.string\.\.\."|'|"|`|\*/|[A-Za-z](?:[A-Za-z ]*?[A-Za-z])?(?=, | or |$)"""
MESSAGE = re.compile(r"Invalid input (at end of input|'(?:\\.|[\s\S])'): expected (.+)", re.S)
CHAR = {'\a': '\\a', '\b': '\\b', '\f': '\\f', '\n': '\\n', '\r': '\\r', '\t': '\\t', '\v': '\\v', "'": "\\'", '\0': '\\0'}
SAMPLES = {'an identifier': ['zz'], 'a label': [':L', 'L'], 'a relationship type': [':T', 'T'], 'a relationship type name': ['T'], 'a property name': ['p'], 'an index name': ['i'], 'a function name': ['f'], 'a procedure name': ['p'], 'a float': ['1.5'],
           'an integer': ['1'], '"...string..."': ["'s'"], 'a parameter': ['$p', 'p'], 'a version number': ['2.3', '.3', '3'], 'a statement option': ['EXPLAIN'], 'a query hint': ['USING PERIODIC COMMIT'], 'a schema command': ['CREATE INDEX ON'],
           'a clause': ['RETURN'], 'a command name': ['x']}


ODD_OPTION = re.compile(r'''(?is)(?:\s|/\*(?:(?!\*/).)*\*/|//[^\n]*|profile\b|explain\b)*cypher\b.*=(?:\s|/\*(?:(?!\*/).)*\*/|//[^\n]*)*[^\s;]*['"`]''')
COMMAND = re.compile(r'''(?s)(?:\s|/\*(?:(?!\*/).)*\*/|//[^\n]*)*(:)''')


def read_on(text, base, s):
    """Whether the segment was first read as something that need not end where recovery ends it: an option's value may
    hold a lone quote, and a command may hold a clause's name, from which on recovery reads a statement."""
    lo, hi = s['rg'][2] - base, s['rg'][5] - base
    if ODD_OPTION.match(text, lo):
        return True
    m = COMMAND.match(text, lo)
    if not m:
        return False
    first = min((x[1][5] - base for r in s['roots'] for x in r if x[0] == 'error'), default=hi)
    return first < hi - 1


def expectations(s):
    """The expectations a message lists, or None if it is not a list of them."""
    out, i = [], 0
    rx = re.compile(LABEL)
    while True:
        m = rx.match(s, i)
        if not m:
            return None
        out.append(m.group())
        i = m.end()
        if i == len(s):
            break
        sep = ' or ' if s.startswith(' or ', i) else ', '
        if not s.startswith(sep, i):
            return None
        i += len(sep)
        if sep == ' or ':
            m = rx.match(s, i)
            if not m or m.end() != len(s):
                return None
    if len(out) > 1 and ' or ' not in s:
        return None
    return out


def context_of(line, at, ctx, partial=False):
    """Why ctx is not the line, cut to size around offset at of the line, with `off` pointing there; None if it is. `partial`: the line may end early."""
    off, c = ctx
    head, tail = c.startswith('...'), c.endswith('...')
    for a, b in ((0, 0), (3, 0), (0, 3), (3, 3)):
        if a and not head or b and not tail or a + b > len(c):
            continue
        body = c[a:len(c) - b]
        s = at - off + a         # where the body starts in the line
        if s < 0 or line[s:s + len(body)] != body:
            continue
        if a and s < 1 or not a and s != 0:
            continue
        if b and s + len(body) >= len(line) or not b and s + len(body) != len(line) and not partial:
            continue
        return None
    return 'the context %r with offset %d is no cut of the line %r around %d' % (c, off, line[:200], at)


def cut_nul(c):
    return c.split('\0')[0]


def check_error(t, c, e, text, ix, base, s, stream, color):
    """One report: position, message, context. Returns the expectations."""
    pos, msg, ctx, off = e[0], e[1], e[2], e[3]
    lo, hi = s['rg'][2], s['rg'][5]
    o = pos[2] - base
    if pos[2] > hi and read_on(text, base, s):
        t.c['reports beyond a segment, read as a command or option first'] += 1
        return None
    if not lo <= pos[2] <= hi:
        t.violate('position outside', 'an error at %s in a segment of %d to %d' % (pos, lo, hi), [c])
        return None
    bad = ix.check(pos)
    if bad:
        t.violate('position', bad, [c])
        return None
    ch = text[o] if o < len(text) else None
    if color:
        msg = re.sub('\x1b\\[[0-9;]*m', '', msg)
    m = MESSAGE.fullmatch(msg)
    if not m:
        t.violate('message', 'the message %r' % msg, [c])
        return None
    want = 'at end of input' if ch is None else "'%s'" % CHAR.get(ch, ch)
    if m.group(1) != want:
        t.violate('character', 'the message %r, where there is %s' % (msg[:60], want), [c])
    ls = expectations(m.group(2))
    if ls is None:
        t.violate('message', 'the expectations %r' % m.group(2), [c])
        return None
    if len(set(ls)) != len(ls):
        t.violate('expectations repeated', m.group(2), [c])
    t.kind('characters named', m.group(1))
    t.c['expectations listed'] += len(ls)
    # the context
    if ctx is None:
        t.violate('context', 'an error without context', [c])
        return ls
    if '\n' in ctx or len(ctx) > 86:
        t.violate('context', 'the context %r (%d bytes)' % (ctx[:200], len(ctx)), [c])
    seg = lo - base
    a = o
    if ch is None or ch in '\n\r\0':
        a = min(o, len(text) - 1)
        while a > seg and text[a] in '\n\r\0':
            a -= 1
        t.c['contexts before an end of line'] += 1
    ls0 = max(text.rfind('\n', seg, a), text.rfind('\r', seg, a)) + 1
    ls0 = max(ls0, seg)
    ends = [x for x in (text.find('\n', a), text.find('\r', a)) if x >= 0]
    line = text[ls0:min(ends) if ends else len(text)]
    if ch is not None and ch not in '\n\r\0' and '\0' not in line:
        if off < 0 or off >= len(ctx) or ctx[off] != ch:
            t.violate('context offset', 'the context %r has not %r at %d' % (ctx, ch, off), [c])
            return ls
    if '\0' in line:
        t.c['contexts with NUL bytes, not compared'] += 1
    elif context_of(line, o - ls0, (off, ctx)):
        # input is read in blocks, as far as needed: the line may end early
        t.c['contexts of a line read in part'] += 1
        got = s['rd'] if stream else len(text) if len(text) <= 512 else None
        if got is None and context_of(line, o - ls0, (off, ctx), True) or got is not None and context_of(line[:max(got - ls0, 0)], o - ls0, (off, ctx)):
            t.violate('context', context_of(line, o - ls0, (off, ctx)), [c])
    t.c['contexts compared'] += 1
    t.kind('context cuts', (ctx.startswith('...'), ctx.endswith('...'), min(off, 90), len(ctx)))
    return ls


def wrong(g):
    """Malformed input: long lines, many lines, odd characters at the error."""
    k = g.random()
    if k < 0.3:
        return work.damage_bytes(work.gen_doc(g, depth=g.choice((1, 2, 3)), modes=('tight', 'normal', 'lines', 'wild')).data, g, g.choice((1, 1, 2, 4)))
    if k < 0.55:
        # one line with an error at a chosen distance from its ends
        pre = g.choice((0, 1, 5, 33, 34, 36, 37, 38, 39, 40, 41, 42, 43, 60, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 150, 1030)) + g.choice((0, 0, 0, 1, 2))
        post = g.choice((0, 1, 5, 36, 37, 38, 39, 40, 41, 42, 43, 70, 76, 77, 78, 79, 80, 81, 82, 83, 150, 1030))
        head = (b'RETURN ' + b'a' * max(1, pre - 8) + b' ')[-max(pre, 0):] if pre else b''
        if pre < 9:
            head = b' ' * pre
        mid = bytes([g.choice(b'@#?\\]}\x01\xe9~')]) if g.random() < 0.8 else bytes([g.choice(b'\a\b\f\r\v\'\0"')])
        tail = bytes(g.choice(b'abc xyz.') for _ in range(post))
        s = head + mid + tail
        before = g.choice((b'', b'\n', b'RETURN 1;', b'RETURN 1;\n', b'\r\n\n', b'/* \n */'))
        return before + s + g.choice((b'', b'\n', b'\r\n', b';', b'\n\n', b'; RETURN 2;', b'\nRETURN 3;'))
    if k < 0.65:
        s = work.gen_doc(g, n=1, depth=2, eof=True, commands=0).data.rstrip()
        return s[:g.randrange(len(s) + 1)] + g.choice((b'', b'\n', b'\n\n\n', b'  \r\n', b'\0', b'\r'))
    if k < 0.8:
        return b''.join(g.choice((b'RETURN 1', b'x', b'MATCH (a)', b'RETURN (', b'"a', b'foo bar', b'CREATE (n)', b'\xc3\xa9')) + g.choice((b';', b'\n', b';\n', b' ', b'\r\n')) for _ in range(g.choice((2, 5, 20))))
    if k < 0.86:
        # many errors, in one statement or in each of many
        x = g.choice(('(a b)', '(x y)-->(a b)', 'n, (:A B)', '(a {b c})', '(a b, c)', '(a b)\n'))
        n = g.choice((2, 3, 7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 127, 129, 257))
        return (g.choice(('MATCH ', 'CREATE ', 'RETURN 1; MERGE ')) + g.choice((', ', '  MATCH ', ' RETURN ', '; MATCH ')).join([x] * n) + g.choice((';', '', ' RETURN 1;', ' x'))).encode()
    return work.any_input(g, 0)


def w_report(seed, n):
    t = Tally()
    cases = []
    for i in range(n):
        g = random.Random(seed * 122949823 + i)
        c = Case(g.choice(('ue', 'ue', 'fe')), wrong(g), flags=g.choice((0, 0, 0, ONLY, SINGLE)), nolast=1)
        if g.random() < 0.25:
            c.opts['color'] = 1
        if g.random() < 0.25:
            c.opts['pos'] = [g.choice((1, 2, 1000, 70000)), g.choice((1, 7, 80, 70000)), g.choice((0, 1, 100000, 5 << 32))]
        if c.entry == 'fe':
            c.opts.update(stream_opts(g, c.data))
        w = Case('u' if c.entry == 'ue' else 'f', c.data, **c.opts)
        cases.append((c, w))
    execute([x for p in cases for x in p])
    trial = []
    for c, w in cases:
        t.saw(c)
        if not survived(t, c) or not survived(t, w):
            continue
        text = c.data.decode('latin1')
        p0 = c.opts.get('pos', [1, 1, 0])
        ix = Index(text, p0)
        all_ = []
        exp = read(t, text, statements_only=bool(c.opts['flags'] & ONLY), single=bool(c.opts['flags'] & SINGLE))
        known = {(d['start'], p): l for d in exp or () for p, l in d['errors']}
        for s in c.out['segs']:
            last = -1
            for e in s['errs']:
                all_.append(e[:4])
                t.c['reports judged'] += 1
                ls = check_error(t, c, e, text, ix, p0[2], s, c.entry == 'fe', c.opts.get('color'))
                if e[0][2] <= last:
                    t.violate('order', 'an error at %d after one at %d' % (e[0][2], last), [c])
                last = e[0][2]
                if ls is None:
                    continue
                o = e[0][2] - p0[2]
                if (s['rg'][2] - p0[2], o) in known and set(known[s['rg'][2] - p0[2], o]) != set(ls):
                    known_o = known[s['rg'][2] - p0[2], o]
                    t.violate('expectations', 'at offset %d %s are expected, the message names %s' % (o, sorted(set(known_o) - set(ls)) or 'no others', sorted(set(ls) - set(known_o)) or 'no others'), [c])
                if s is c.out['segs'][0] and e is s['errs'][0] and not c.opts['flags']:
                    trial.append((c, text[:o], ls))
        if not same(t, 'result errors', 'errors of the segments against those of the result', [x[:2] if c.entry == 'fe' else x for x in all_], [x[:2] if c.entry == 'fe' else x[:4] for x in w.out['res']['errs']], [c, w]):
            continue
        t.c['results with several errors'] += len(all_) > 1
    # every expectation named would have got further
    more = []
    for c, head, ls in trial:
        g = random.Random(len(head) * 7 + len(ls))
        for l in ls if len(ls) <= 6 else g.sample(ls, 6):
            ts = []
            if l == '*/':
                # a comment left open may come after what fits nowhere: closing it shows that then
                if '*/' in head[head.rfind('/*') + 2:] or '/*' not in head:
                    t.violate('expectation untrue', '*/ is expected at offset %d, where no comment is open' % len(head), [c])
                continue
            if l in SAMPLES:
                ts = SAMPLES[l] + [' ' + x for x in SAMPLES[l]]
            else:
                w = l[1:-1] if len(l) > 2 and l[0] == "'" else l
                lc = re.sub(r'\s+', ' ', re.sub(r'/\*[\s\S]*?\*/|//[^\n]*\n', ' ', head)).lower()
                for j in range(len(w) + 1):
                    h = w[:j].lower()
                    if not h or lc.endswith(h) or h.endswith(' ') and lc.rstrip().endswith(h.rstrip()):
                        ts.append(w[j:])
                        if not j:
                            ts.append(' ' + w)
                if w == '=':
                    ts.append('=x')      # an option's value has no name
            if '' in ts:
                t.c['expectations met but run on'] += 1
                continue
            more.append((c, l, len(head), [Case('u', (head + x).encode('latin1'), nolast=1) for x in ts]))
    execute([k for m in more for k in m[3]])
    for c, l, at, ks in more:
        t.c['expectations tried'] += 1
        t.kind('expectations', l)
        if any(not isinstance(k.out, dict) or 'res' not in k.out for k in ks):
            continue
        if not any(not k.out['res']['errs'] or k.out['res']['errs'][0][0][2] > at for k in ks):
            t.violate('expectation untrue', '%s is expected at offset %d, but %s is not read further' % (l, at, [k.data[at:].decode('latin1') for k in ks]), [c] + ks[:2])
    return t


def plan_c13(tier, seed):
    q = tier == 'quick'
    return spread(w_report, seed, 30000 if q else 400000, 150)


# ---------------------------------------------------------------- C14
RESYNC = set('load start match unwind merge create set delete remove foreach with call return drop cypher profile explain'.split())


def neighbours(g):
    """Statements and commands, some of them damaged, with what each is."""
    parts = []
    for _ in range(g.choice((2, 3, 3, 4, 6))):
        k = g.random()
        if k < 0.45:
            d = work.gen_doc(g, n=1, depth=g.choice((1, 2)), eof=False, commands=0.25).data
        elif k < 0.8:
            d = work.damage_bytes(work.gen_doc(g, n=1, depth=g.choice((1, 2)), eof=False, commands=0.1).data, g, g.choice((1, 1, 2, 3))) + g.choice((b'', b';', b'\n;'))
        else:
            d = g.choice((b'foo;', b'x y z;', b'RETURN (;', b'@;', b'RETURN 1 2 RETURN 3;', b'MATCH (a RETURN a;', b'foo MATCH (a) bar RETURN a;', b'CREATE CREATE (a);', b'RETURN "a;b" @ "c;d" RETURN 1;', b': ;', b':a foo"b;c";', b'x /* ; */ y;', b'RETURN @ `a;b`;', b"@ 'it\\'s;' RETURN 1;"))
        parts.append(d)
    return g.choice((b'', b' ', b'\n')).join(parts)


def long_skip(g):
    """A damaged statement of which tens of thousands of bytes have to be skipped, between two others."""
    n = g.choice((300, 5000, 17000, 33000, 66000, 100000))
    k = g.randrange(7)
    body = ('x' * n, 'x y ' * (n // 4), '"' + 'a; ' * (n // 3) + '"', '`' + 'b;' * (n // 2) + '`', '/*' + '; ' * (n // 2) + '*/ z', ('"s;" /* ; */ `;` \n' * (n // 18)), "'" + "\\';" * (n // 3) + "' 1")[k]
    head = g.choice(('RETURN a b', 'MATCH (n) @ ', 'foo ', 'CREATE (a) WITHOUT ', 'RETURN 1 2 '))
    return b'\n'.join((work.gen_doc(g, n=1, depth=1, eof=False).data, (head + body + g.choice((';', '; foo;', ' RETURN 1;'))).encode(), work.gen_doc(g, n=1, depth=1).data))


def w_local(seed, n, long=False):
    """Each segment of a partly malformed input against itself parsed alone, and against the recogniser."""
    t = Tally()
    cases = []
    for i in range(n):
        g = random.Random(seed * 141650939 + i)
        cases.append(Case('ue', long_skip(g) if long else neighbours(g) if g.random() < 0.7 else wrong(g), flags=g.choice((0, 0, 0, ONLY)), nolast=1))
    execute(cases)
    second = []
    for c in cases:
        t.saw(c)
        if not survived(t, c):
            continue
        text, segs = c.data.decode('latin1'), c.out['segs']
        w = read(t, text, statements_only=bool(c.opts['flags'] & ONLY))
        if w is not None:
            ok = same(t, 'extent', 'where the segments should end against where they do', [d['end'] for d in w], [s['rg'][5] for s in segs], [c])
            if ok:
                for d, s in zip(w, segs):
                    t.c['segments with errors' if d['errors'] else 'segments without errors'] += 1
                    t.c['errors'] += len(d['errors'])
                    same(t, 'errors after recovery', 'where errors should be against where they are reported', [p for p, _ in d['errors']], [e[0][2] for e in s['errs']], [c])
                    got = sorted((x[1][2], x[1][5], x[3].get('value')) for r in s['roots'] for x in r if x[0] == 'error')
                    exp = sorted((a, b, cut_nul(text[a:b])) for a, b in d['skips'])
                    t.c['skipped ranges'] += len(exp)
                    t.kind('lengths skipped', sum(b - a for a, b in d['skips']))
                    t.c['skipped ranges over 16 KB'] += sum(b - a > 16384 for a, b in d['skips'])
                    same(t, 'error nodes', 'text that should be skipped against error nodes', [list(x) for x in exp], [list(x) for x in got], [c])
                    kind = {'statement': 'statement', 'command': 'command'}.get(d['kind'])
                    tops = [r[0][0] for r in s['roots']]
                    if (kind in tops) != bool(kind):
                        t.violate('directive lost', 'a %s should be recognised at %d to %d; the roots are %s' % (d['kind'], d['start'], d['end'], tops), [c])
        if any(s['errs'] for s in segs):
            g = random.Random(len(text))
            for s in segs if len(segs) <= 5 else g.sample(segs, 5):
                if s['eof'] and s['rg'][5] != len(text):
                    continue
                if read_on(text, 0, s) and any(e[0][2] > s['rg'][5] for e in s['errs']):
                    t.c['segments read further as a command or option first, not parsed alone'] += 1
                    continue
                part = c.data[s['rg'][2]:s['rg'][5]]
                second.append(Case('ue', part, pos=s['rg'][:3], flags=c.opts['flags'] | SINGLE, nolast=1, tag=(c, s)))
    execute(second)
    for k in second:
        c, s = k.tag
        t.saw(k)
        if not survived(t, k):
            continue
        o = k.out['segs']
        if len(o) != 1:
            t.violate('alone', 'a segment parsed alone gives %d segments' % len(o), [c, k]); continue
        a, b = seg_view(s, False), seg_view(o[0], False)
        a['eof'] = b['eof'] = 0
        t.c['segments parsed alone'] += 1
        same(t, 'alone', 'a segment in place against parsed alone', a, b, [c, k])
    return t


def clause_list(seg):
    """The clause subtrees (as pre-order lists, renumbered) of the statement of a segment."""
    for r in seg['roots']:
        if r[0][0] == 'statement':
            q = r[0][3].get('body')
            if q is None or r[q][0] != 'query':
                return None
            cs = r[q][3]['clauses']
            out = []
            for i in cs:
                size = subtree(r, i)
                out.append([renum(x, i) for x in r[i:i + size]])
            return out
    return []


def subtree(r, i):
    n = 1
    for k in r[i][2]:
        n = max(n, k + subtree(r, k) - i)
    return n


def renum(x, base):
    def f(v):
        return v
    roles = {k: ([('#', y - base) if isinstance(y, int) and not isinstance(y, bool) else y for y in v] if isinstance(v, list) else ('#', v - base) if isinstance(v, int) and not isinstance(v, bool) else v) for k, v in x[3].items()}
    return [x[0], x[1], [k - base for k in x[2]], roles]


def w_clauses(seed, n):
    """A statement with one clause damaged by a character that fits nowhere: the others are recognised as before."""
    t = Tally()
    pairs = []
    for i in range(n):
        g = random.Random(seed * 160481183 + i)
        G = Gen(g, depth=g.choice((1, 2)), hostile=0.05)
        kinds = [g.choice(('c_match', 'c_return', 'c_unwind', 'c_merge', 'c_create', 'c_set', 'c_delete', 'c_remove', 'c_with', 'c_foreach', 'c_call', 'c_load', 'c_start')) for _ in range(g.choice((2, 3, 4)))]
        d = G.statement(kinds)
        body = d.node.r['body']
        cs = body.r['clauses']
        k = g.randrange(len(cs) - 1) if g.random() < 0.8 else len(cs) - 1
        cl = cs[k]
        words = [d.toks[j].text.lower() for j in range(cl.s + 1, cl.e + 1)]
        if k + 1 < len(cs) and d.toks[cs[k + 1].s].text.lower() not in RESYNC:
            continue
        cand = [j for j in range(cl.s, cl.e + 1) if not d.toks[j].glue and not (RESYNC & set(words[j - cl.s:]))]
        if not cand:
            continue
        j = g.choice(cand)
        doc = render([d], Layout(g, g.choice(('normal', 'lines', 'wild'))), g, eof_term=g.random() < 0.3)
        r = doc.dirs[0]
        a, b = r.offs[j]
        if k + 1 < len(cs):
            z = r.offs[cs[k + 1].s][0]
            if doc.data[z - 1:z] not in (b' ', b'\t', b'\n') and doc.data[z - 2:z] != b'*/':
                continue          # a clause is only looked for after layout
        if b - a > 60 or '\n' in d.toks[j].text:
            continue
        if d.toks[j].text[:1] in '\'"`' and g.random() < 0.5:
            continue
        data = doc.data[:a] + b'@' * (b - a) + doc.data[b:]
        x, y = Case('ue', doc.data, nolast=1), Case('ue', data, nolast=1)
        pairs.append((x, y, k, len(cs), a))
    execute([c for p in pairs for c in p[:2]])
    for x, y, k, m, a in pairs:
        t.saw(y)
        if not survived(t, x) or not survived(t, y):
            continue
        if len(x.out['segs']) != len(y.out['segs']):
            t.violate('statement split', 'damage within a clause changes the segments from %d to %d' % (len(x.out['segs']), len(y.out['segs'])), [x, y]); continue
        if not y.out['segs'][0]['errs']:
            t.violate('not reported', 'the damage at %d is not reported' % a, [y]); continue
        was, now = clause_list(x.out['segs'][0]), clause_list(y.out['segs'][0])
        if was is None or len(was) != m:
            continue
        t.c['statements with a damaged clause'] += 1
        after = was[k + 1:]
        if now is None or len(now) < len(after) or now[len(now) - len(after):] != after:
            t.violate('clauses after the damage', 'the %d clauses after the damage at %d are %s, were %s' % (len(after), a, [c[0][:2] for c in now or ()][-len(after):] if after else [], [c[0][:2] for c in after]), [x, y])
        t.c['intact clauses after damage'] += len(after)
        # a clause before the damage is recognised too, unless nothing but options came before
        if k and (now is None or now[:k] != was[:k]):
            t.violate('clauses before the damage', 'the %d clauses before the damage at %d are %s, were %s' % (k, a, [c[0][:2] for c in now or ()][:k], [c[0][:2] for c in was[:k]]), [x, y])
        t.c['intact clauses before damage'] += k
        if not any(z[0] == 'error' and z[1][2] <= a < z[1][5] for s in y.out['segs'] for r in s['roots'] for z in r):
            t.violate('error nodes', 'no error node covers the damage at %d' % a, [y])
    return t


def plan_c14(tier, seed):
    q = tier == 'quick'
    return spread(w_local, seed, 16000 if q else 300000, 200) + spread(w_local, seed + 2, 80 if q else 1500, 5, long=True) + spread(w_clauses, seed + 1, 8000 if q else 200000, 200)


REC_NOTE = 'The recogniser (vf/cypher.peg, vf/peg.py) states the accepted language; where Cypher and the library differ on purpose, it follows the library.'
CHECKS = {
    'C12': Check('C12', plan_c12, ['asan'], 'Statements and commands with tokens deleted, doubled, swapped, replaced or misspelt, damaged bytes and soup, valid documents, each judged by an independent recogniser; statements with a character that fits nowhere put at a token boundary, or cut short, where the place of the first error is known by construction. Non-trivial: distinct (input, entry, options).',
                 {'well-formed inputs': 3000, 'malformed inputs': 6000, 'foreign characters placed': 6000, 'statements cut short': 5000, 'cuts reported': 3000, 'sets of expectations met': 200}, assumptions=[REC_NOTE]),
    'C13': Check('C13', plan_c13, ['asan'], 'Malformed inputs with long lines (errors at chosen distances from both ends), many lines, odd and multi-byte characters, ends of input, from memory and from streams, with and without colours and a start position: every report judged against the input, its expectations against the recogniser and by putting each one in place. Non-trivial: distinct (input, entry, options).',
                 {'reports judged': 8000, 'contexts compared': 10000, 'expectations tried': 12000, 'expectations': 80, 'context cuts': 300, 'results with several errors': 1200, 'characters named': 60},
                 assumptions=[REC_NOTE, 'Contexts of lines with NUL bytes are not compared; the interface gives them as C strings.']),
    'C14': Check('C14', plan_c14, ['asan'], 'Sequences of intact and damaged statements and commands: segments, errors and skipped text against the recogniser, each segment against itself parsed alone; multi-clause statements with one token blanked out, the other clauses against the undamaged parse. Non-trivial: distinct (input, options).',
                 {'segments with errors': 8000, 'segments without errors': 8000, 'skipped ranges': 10000, 'skipped ranges over 16 KB': 25, 'segments parsed alone': 10000, 'statements with a damaged clause': 3000, 'intact clauses after damage': 2000, 'intact clauses before damage': 2000}, assumptions=[REC_NOTE]),
}
